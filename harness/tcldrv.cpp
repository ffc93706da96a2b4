// Trace driver for bd::ScriptInterpTCL: up to two interpreters, program variables, command handlers,
// variable hooks and stored callbacks.  Only the public interface is used; scripts are evaluated with eval().
#define VERIF_TRACK_NEW
#include "proto.h"
#include "ScriptInterpTCL.h"
#include <stdexcept>
#include <sys/stat.h>
using namespace vf;
// What Tcl hands out as a C string is copied to a block of exactly its size: Tcl's own allocator would hide reads past it.
static std::vector<void*> g_copies;
static char* exact(const char* p, int n) { if (!p) return nullptr; Off f; char* c = (char*)malloc(n + 1); memcpy(c, p, n); c[n] = 0; g_copies.push_back(c); return c; }
static void dropCopies() { Off f; for (void* p : g_copies) free(p); g_copies.clear(); }
extern "C" { char* __real_Tcl_GetStringFromObj(Tcl_Obj*, int*); char* __real_Tcl_GetString(Tcl_Obj*); const char* __real_Tcl_GetStringResult(Tcl_Interp*);
char* __wrap_Tcl_GetStringFromObj(Tcl_Obj* o, int* n) { int l = 0; char* p = __real_Tcl_GetStringFromObj(o, &l); if (n) *n = l; return exact(p, l); }
char* __wrap_Tcl_GetString(Tcl_Obj* o) { int l = 0; char* p = __real_Tcl_GetStringFromObj(o, &l); return exact(p, l); }
const char* __wrap_Tcl_GetStringResult(Tcl_Interp* i) { const char* p = __real_Tcl_GetStringResult(i); return exact(p, (int)strlen(p)); } }
typedef bd::String Str; typedef bd::Array<Str> Lst; typedef bd::Array<Lst> Nst; typedef bd::ScriptInterpTCL SI; typedef bd::ScriptCallbackerPtr Cb;

static std::string g_calls, g_hooks; static SI* g_si[3]; static int g_cur; static Cb g_cb[4]; static int g_cbk[4];
static std::string bs(const char* p, size_t n) { std::string r = "["; for (size_t i = 0; i < n; ++i) { if (i) r += ","; r += std::to_string((unsigned char)p[i]); } return r + "]"; }
static std::string bs(const std::string& s) { return bs(s.data(), s.size()); }
static std::string std_(const Str& s) { return std::string(s.data(), s.length()); }
static std::string tx(const Str& s) { return std_(s); }
static std::string tx(int8_t v) { return std::to_string((int)v); } static std::string tx(uint8_t v) { return std::to_string((int)v); }
static std::string tx(int16_t v) { return std::to_string(v); } static std::string tx(uint16_t v) { return std::to_string(v); }
static std::string tx(int32_t v) { return std::to_string(v); } static std::string tx(uint32_t v) { return std::to_string(v); }
static std::string tx(int64_t v) { return std::to_string(v); } static std::string tx(uint64_t v) { return std::to_string(v); }
static std::string tx(bool v) { return v ? "1" : "0"; }
static std::string tx(const char* p) { return p ? std::string(p) : "NULL"; }
static std::string tx(double v) { char b[64]; if (v > -1e15 && v < 1e15 && v == (double)(long)v) { snprintf(b, sizeof b, "%.1f", v); return b; } for (int p = 1; p < 18; ++p) { snprintf(b, sizeof b, "%.*g", p, v); if (strtod(b, 0) == v) break; } return b; }
static std::string tx(const Cb& p) { return p ? std_(p->cmd) : "NULL"; }
static void logArg(std::string& o, const Lst& l) { for (size_t i = 0; i < l.length(); ++i) { if (i) o += ","; const Lst& c = l; o += bs(std_(c.cbegin()[i])); } if (!l.length()) o += "[]"; }
template <class T> static void logArg(std::string& o, const T& v) { o += bs(tx(v)); }
static void logArgs(std::string&) {}
template <class T, class... R> static void logArgs(std::string& o, const T& v, const R&... r) { if (o.back() != '[') o += ","; logArg(o, v); logArgs(o, r...); }
template <class... A> static void lg(const char* h, const A&... a) { Off f; if (!g_calls.empty()) g_calls += ","; g_calls += std::string("{\"h\":\"") + h + "\",\"a\":["; std::string t = "["; logArgs(t, a...); g_calls += t.substr(1) + "]}"; }
static Str mkS(const std::string& s) { return Str(s.data(), s.size()); }

// ---- handlers ----
static void h_v0() { lg("v0"); }
static Str h_s1a(Str s) { lg("s1a", s); return Str("A<") + s + ">"; }
static Str h_s1b(Str s) { lg("s1b", s); return Str("B<") + s + ">"; }
static Str h_four(Str a, Str b, Str c, Str d) { lg("four", a, b, c, d); return a + "|" + b + "|" + c + "|" + d; }
static Str h_ints1(int8_t a, uint8_t b, int16_t c, uint16_t d) { lg("ints1", a, b, c, d); return mkS(tx(a) + "," + tx(b) + "," + tx(c) + "," + tx(d)); }
static Str h_ints2(int32_t a, uint32_t b, int64_t c, uint64_t d) { lg("ints2", a, b, c, d); return mkS(tx(a) + "," + tx(b) + "," + tx(c) + "," + tx(d)); }
static Str h_mix(bool a, const char* b, Str c) { lg("mix", a, b, c); return mkS(tx(a) + "," + tx(b) + "," + tx(c)); }
static Str h_lp(Lst l, Str s) { lg("lp", l, s); Str r; for (const auto& e : l) { r += "<"; r += e; r += ">"; } return r + s; }
static Str h_thrS(Str s) { lg("thrS", s); throw Str(s); }
static Str h_thrN(Str s) { lg("thrN", s); throw s + Str("\0", 1) + s; }
static Str h_retN(Str s) { lg("retN", s); return s + Str("\0", 1) + s; }
static Str h_thrE(Str s) { lg("thrE", s); throw std::runtime_error("boom"); }
static Str h_thrI(Str s) { lg("thrI", s); throw 42; }
static Str h_del(Str nm, Str as) { lg("del", nm, as); g_si[g_cur]->deleteCommand(nm); return g_si[g_cur]->eval(Str("llength [info commands ::") + as + "]"); }
static Str h_rep(Str nm, Str as) { lg("rep", nm, as); g_si[g_cur]->createCommand(nm, h_s1b); return g_si[g_cur]->eval(Str("llength [info commands ::") + as + "]"); }
static void h_reg(Str slot, Cb cb) { lg("reg", slot, cb); int i = std_(slot) == "1" ? 1 : std_(slot) == "2" ? 2 : 3; g_cb[i] = cb; g_cbk[i] = g_cur; }
static Str h_cbnow(Cb cb, Lst l) { lg("cbnow", cb, l); return cb ? cb->call(l) : Str("none"); }
static Str h_evg(Str t) { std::string h; { Off f; char b[3]; for (unsigned char c : std_(t)) { snprintf(b, 3, "%02x", c); h += b; } } lg("evg", t); return g_si[g_cur]->eval(Str("set a [vd {") + mkS(h) + "}]"); }
template <class T> struct Id { static T f(T v) { return v; } };
// round trip of a program value through the script
template <class T> struct Rt { static T in, out; static int n; static T give() { return in; } static void take(T v) { out = v; ++n; } };
template <class T> T Rt<T>::in; template <class T> T Rt<T>::out; template <class T> int Rt<T>::n;

static const char* usageOf(const std::string& u) { return u == "u1" ? "<text> [more]" : u == "u2" ? "" : nullptr; }
template <class F> static void mkCmd(SI& si, const Str& nm, F f, const char* us, long mn, int q) {
  if (q) bd::ScriptInterp::createCommand(si, nm, f, us, mn < 0 ? size_t(-1) : (size_t)mn);
  else if (mn < 0 && !us) si.createCommand(nm, f); else if (mn < 0) si.createCommand(nm, f, us); else si.createCommand(nm, f, us, (size_t)mn); }
static void create(SI& si, const Str& nm, const std::string& h, const char* us, long mn, int q) {
#define H(n) if (h == #n) return mkCmd(si, nm, h_##n, us, mn, q);
  H(v0) H(s1a) H(s1b) H(four) H(ints1) H(ints2) H(mix) H(lp) H(thrS) H(thrN) H(retN) H(thrE) H(thrI) H(del) H(rep) H(reg) H(cbnow) H(evg)
#define D(n, T) if (h == "id_" #n) return mkCmd(si, nm, &Id<T>::f, us, mn, q);
  D(i8, int8_t) D(u8, uint8_t) D(i16, int16_t) D(u16, uint16_t) D(i32, int32_t) D(u32, uint32_t) D(i64, int64_t) D(u64, uint64_t) D(b, bool) D(d, double) D(s, Str) D(l, Lst) D(n, Nst)
  throw BadArg(); }

// ---- program variables ----
template <int N, class T> static void hook(const void* o, const void* n) { Off f; if (!g_hooks.empty()) g_hooks += ","; g_hooks += "{\"h\":" + std::to_string(N) + ",\"o\":" + bs(tx(*(const T*)o)) + ",\"n\":" + bs(tx(*(const T*)n)) + "}"; }
template <int N> static void hookC(const void* o, const void* n) { Off f; if (!g_hooks.empty()) g_hooks += ","; g_hooks += "{\"h\":" + std::to_string(N) + ",\"o\":" + bs(tx((const char*)o)) + ",\"n\":" + bs(tx((const char*)n)) + "}"; }
struct Vars {
  int8_t i8 = 0; uint8_t u8 = 0; int16_t i16 = 0; uint16_t u16 = 0; int32_t i32 = 0; uint32_t u32 = 0; int64_t i64 = 0; uint64_t u64 = 0; bool b = false; double d = 0; Str s, s2; char *c1, *c4, *c9, *c90;
  const int ki = 52; const Str ks; const char* kc;
  Vars() : ks("ro text"), kc("const chars") { c1 = (char*)calloc(1, 1); c4 = (char*)calloc(4, 1); c9 = (char*)calloc(9, 1); c90 = (char*)calloc(90, 1); }
  ~Vars() { free(c1); free(c4); free(c9); free(c90); }
};
struct Sess {
  Vars V; bool peek; std::vector<std::string> cn, vn;
  Sess(const std::string& h) { std::vector<std::string> t = tokens(h); peek = t.size() && t[0] == "1"; cn = {"x", "y", "zed"}; vn = {"a", "b", "ns::c", "ar(k)"}; for (int i = 0; i < 4; ++i) { g_cb[i] = nullptr; g_cbk[i] = 0; } g_si[1] = g_si[2] = nullptr; }
  template <class T> void lnk(SI& si, const Str& nm, T& v, int ro, int hk, int q) {
    bd::ScriptInterp::link_var_hook_t f = hk == 1 ? (bd::ScriptInterp::link_var_hook_t)hook<1, T> : hk == 2 ? (bd::ScriptInterp::link_var_hook_t)hook<2, T> : nullptr;
    if (ro) { const T& c = v; if (f) si.linkVar(nm, c, f); else si.linkVar(nm, c); }
    else if (f) si.linkVar(nm, v, f); else if (q) bd::ScriptInterp::linkVar(si, nm, v); else si.linkVar(nm, v); }
  void lnkC(SI& si, const Str& nm, char* p, size_t n, int ro, int hk) {
    bd::ScriptInterp::link_var_hook_t f = hk == 1 ? hookC<1> : hk == 2 ? hookC<2> : (bd::ScriptInterp::link_var_hook_t)nullptr;
    if (ro) { const char* c = p; si.linkVar(nm, c, f); } else if (f) si.linkVar(nm, p, n, f); else si.linkVar(nm, p, n); }
  static std::string dec(const std::string& b) { std::string h; char t[3]; for (unsigned char c : b) { snprintf(t, 3, "%02x", c); h += t; } return "[vd {" + h + "}]"; }
  Str ev(int k, const std::string& s) { g_cur = k; Str sc(s.data(), s.size()); return g_si[k]->eval(sc); }
  // evaluate; prints "code" and "ret"
  void run(const Ev& e, int k, const std::string& s) {
    std::string code = "0", txt;
    if (e.i("m")) { Str r = ev(k, s); Off f; code = "-1"; txt = std_(r); }
    else { Str c = ev(k, "catch {" + s + "} ::vfr"); Str r = ev(k, "set ::vfr"); Off f; code = std_(c); if (code.size() != 1 || code[0] < '0' || code[0] > '9') code = "99"; txt = std_(r); }
    Off f; put("\"code\":"); g_out += code; put(",\"ret\":"); putB(txt); }
  static const std::string& dir() { static std::string d; if (d.empty()) { char t[] = "/tmp/vftclXXXXXX"; if (!mkdtemp(t)) _exit(96); d = t; mkdir((d + "/dir.tcl").c_str(), 0700); atexit([] { rmdir((dir() + "/dir.tcl").c_str()); rmdir(dir().c_str()); }); } return d; }
  static std::string script(const Ev& e) { std::string t; for (auto& x : e.l("vl")) { std::string a = dec(x.substr(1)); t += x[0] == 's' ? "set a " + a : x[0] == 'e' ? "error " + a : x[0] == 'r' ? std::string("return ") + a : x[0] == 'x' ? "x " + a : x[0] == 'N' ? "format %s {" + x.substr(1) + std::string(1, 0) + x.substr(1) + "}" : x[0] == '#' ? std::string("# comment [exit] $a") + "\n" : std::string("set a"); t += "\n"; } return t; }
  std::string argsOf(const Ev& e) { std::string s; if (e.has("la")) { s += " [list"; for (auto& a : e.l("la")) s += " " + dec(a); s += "]"; } if (e.has("na")) { s += " [list"; std::vector<std::string> in = e.l("na"); size_t p = 0; for (auto& c : e.b("nn")) { s += " [list"; for (int i = 0; i < c; ++i) s += " " + dec(in[p++]); s += "]"; } s += "]"; } for (auto& a : e.l("args")) s += " " + dec(a); return s; }
  bool pre(const Ev& e) {
    int k = e.i("k");
    if (e.op == "mk") return !g_si[k];
    if (e.op == "cbcall") return g_cb[e.i("slot")] != nullptr;
    if (e.op == "pset") return true;
    if (e.op == "cmd" && e.s("h") == "reg") return g_si[k] != nullptr;
    return k >= 1 && k <= 2 && g_si[k]; }
  template <class T> void rt(SI* si, int k, int q, const T& v, std::string (*show)(const T&), const char* ty) {
    Rt<T>::in = v; Rt<T>::n = 0; si->createCommand("vf_give", &Rt<T>::give); si->createCommand("vf_take", &Rt<T>::take);
    ev(k, q == 0 ? "vf_take [vf_give]" : q == 1 ? "set ::vfq [vf_give]; vf_take $::vfq" : q == 2 ? "apply {{v} {vf_take $v}} [vf_give]" : q == 3 ? "vf_take [lindex [list [vf_give]] 0]" : "set vfq2(x) [vf_give]; vf_take [set vfq2(x)]");
    si->deleteCommand("vf_give"); si->deleteCommand("vf_take");
    { Off f; put("\"ret\":"); g_out += Rt<T>::n == 1 ? show(Rt<T>::out) : std::string("[0]"); put(",\"code\":0"); }
    Rt<T>::in = T(); Rt<T>::out = T(); }
  template <class T> static std::string raw(const T& v) { return bs((const char*)&v, sizeof v); }
  static std::string rawb(const bool& v) { return v ? "[1]" : "[0]"; }
  static std::string raws(const Str& v) { return bs(std_(v)); }
  static std::string rawl(const Lst& v) { std::string o = "["; for (size_t i = 0; i < v.length(); ++i) { if (i) o += ","; o += bs(std_(v.cbegin()[i])); } return o + "]"; }
  static std::string rawn(const Nst& v) { std::string o = "["; for (size_t i = 0; i < v.length(); ++i) { if (i) o += ","; o += rawl(v.cbegin()[i]); } return o + "]"; }
  template <class T> void rtn(const Ev& e, int k) { std::string b = e.b("v"); T v = T(); memcpy(&v, b.data(), std::min(b.size(), sizeof v)); rt<T>(g_si[k], k, e.i("q"), v, raw<T>, ""); }
  Lst mkL(const std::vector<std::string>& v) { Lst l; for (auto& s : v) l << mkS(s); return l; }
  void op(const Ev& e) {
    const std::string& o = e.op; int k = e.i("k"); SI* si = k >= 1 && k <= 2 ? g_si[k] : nullptr; Off* off = nullptr; (void)off; g_cur = k;
    if (o == "mk") { g_si[k] = new SI(); ev(k, "proc vd h {encoding convertfrom utf-8 [binary decode hex $h]}; proc rec args {join [lmap a $args {binary encode hex [encoding convertto utf-8 $a]}] ,}; proc echo a {set a}; proc err a {error $a}; namespace eval ns {}"); }
    else if (o == "rm") { for (int i = 1; i <= 3; ++i) if (g_cbk[i] == k) { g_cb[i] = nullptr; g_cbk[i] = 0; }
      // what scripts hold open ends with the interpreter: a buffered channel is flushed and closed
      std::string held, sc; { Off f; held = dir() + "/held"; sc = "set ::vfch [open {" + held + "} w]; puts -nonewline $::vfch text"; }
      ev(k, sc);
      delete g_si[k]; g_si[k] = nullptr;
      { Off f; struct stat st; bool ok = stat(held.c_str(), &st) == 0 && st.st_size == 4; ::unlink(held.c_str()); put("\"code\":"); putInt(ok ? 0 : 7); } }
    else if (o == "cmd") { Str nm(mkS(e.s("nm"))); create(*si, nm, e.s("h"), usageOf(e.s("us")), e.i("mn", -1), e.i("q")); }
    else if (o == "delc") { Str nm(mkS(e.s("nm"))); si->deleteCommand(nm); }
    else if (o == "ren") run(e, k, "rename " + e.s("nm") + " {" + (e.s("to") == "-" ? "" : e.s("to")) + "}");
    else if (o == "proc") run(e, k, "proc " + e.s("nm") + " args {return P}");
    else if (o == "call") {
      std::string n = e.s("nm"), a = argsOf(e); int q = e.i("q");
      run(e, k, q == 0 ? n + a : q == 1 ? "::" + n + a : q == 2 ? "namespace eval ns {" + n + a + "}" : q == 3 ? "{*}[list " + n + a + "]" : q == 4 ? "interp alias {} vfal {} " + n + "; vfal" + a : q == 5 ? "apply {{} {" + n + a + "}}" : q == 6 ? "eval [list " + n + a + "]" : q == 7 ? "rec {*}[" + n + a + "]" : "join [lmap l [" + n + a + "] {rec {*}$l}] \\;"); }
    else if (o == "link") {
      Str nm(mkS(e.s("nm"))); std::string p = e.s("pv1"); int ro = e.i("ro"), hk = e.i("hk"), q = e.i("q");
#define P(n) if (p == #n) lnk(*si, nm, V.n, ro, hk, q);
      P(i8) P(u8) P(i16) P(u16) P(i32) P(u32) P(i64) P(u64) P(b) P(d) P(s) P(s2)
      if (p == "c1") lnkC(*si, nm, V.c1, 1, ro, hk); if (p == "c4") lnkC(*si, nm, V.c4, 4, ro, hk); if (p == "c9") lnkC(*si, nm, V.c9, 9, ro, hk); if (p == "c90") lnkC(*si, nm, V.c90, 90, ro, hk);
      if (p == "ki") { if (hk) si->linkVar(nm, V.ki, hook<1, int>); else si->linkVar(nm, V.ki); }
      if (p == "ks") { if (hk) si->linkVar(nm, V.ks, hook<1, Str>); else si->linkVar(nm, V.ks); }
      if (p == "kc") si->linkVar(nm, V.kc); }
    else if (o == "unlink") { Str nm(mkS(e.s("nm"))); si->unlinkVar(nm); }
    else if (o == "pset") {
      std::string p = e.s("pv1"), v = e.b("v");
      if (p == "i8") V.i8 = (int8_t)atoi(v.c_str()); else if (p == "u8") V.u8 = (uint8_t)atoi(v.c_str()); else if (p == "i16") V.i16 = (int16_t)atoi(v.c_str()); else if (p == "u16") V.u16 = (uint16_t)atoi(v.c_str());
      else if (p == "i32") V.i32 = (int32_t)atol(v.c_str()); else if (p == "u32") V.u32 = (uint32_t)strtoul(v.c_str(), 0, 10); else if (p == "i64") V.i64 = strtoll(v.c_str(), 0, 10); else if (p == "u64") V.u64 = strtoull(v.c_str(), 0, 10);
      else if (p == "b") V.b = v == "1"; else if (p == "d") V.d = strtod(v.c_str(), 0);
      else if (p == "s") V.s = mkS(v); else if (p == "s2") { Str big(mkS("xx" + v + "yy")); const Str& c = big; V.s2 = Str(c(2, (int)v.size())); }
      else if (p == "c1") V.c1[0] = 0; else if (p == "c4") { strncpy(V.c4, v.c_str(), 3); V.c4[3] = 0; } else if (p == "c9") { strncpy(V.c9, v.c_str(), 8); V.c9[8] = 0; } else if (p == "c90") { strncpy(V.c90, v.c_str(), 89); V.c90[89] = 0; } }
    else if (o == "get" || o == "setv") {
      std::string n = e.s("nm"), v = o == "setv" ? " " + dec(e.b("v")) : ""; int q = e.i("q");
      run(e, k, q == 0 ? "set " + n + v : q == 1 ? "set ::" + n + v : q == 2 ? "apply {{} {global " + n + "; set " + n + v + "}}" : q == 3 ? "apply {{} {upvar #0 " + n + " vfz; set vfz" + v + "}}" : q == 4 ? "namespace eval ns {set ::" + n + v + "}" :
          q == 5 ? (o == "get" ? "apply {{v} {set v}} $" + n : "foreach " + n + " [list" + v + "] {}") : q == 6 ? (o == "get" ? "return -level 0 $::" + n : "lassign [list" + v + "] " + n) : q == 7 ? (o == "get" ? "apply {{} {upvar 1 " + n + " vfy; upvar 0 vfy vfz; set vfz}}" : "apply {{} {upvar #0 " + n + " vfy; upvar 0 vfy vfz; set vfz" + v + "}}") : throw BadArg()); }
    else if (o == "incr") run(e, k, "incr " + e.s("nm") + " " + e.s("n"));
    else if (o == "unset") run(e, k, "unset " + e.s("nm"));
    else if (o == "cbcall") { int i = e.i("slot"); g_cur = g_cbk[i]; Lst l(mkL(e.l("args"))); Str r = e.i("q") ? g_cb[i]->call() : g_cb[i]->call(l); Off f; put("\"code\":0,\"ret\":"); putB(std_(r)); }
    else if (o == "evs") run(e, k, script(e));
    else if (o == "load") {
      std::string path, name = e.b("fn"); { Off f; path = dir() + "/" + name; if (e.i("ex")) { FILE* h = fopen(path.c_str(), "w"); if (!h) throw BadArg(); std::string t = script(e); fwrite(t.data(), 1, t.size(), h); fclose(h); } }
      Str fn(mkS(path)), res("init"); int rc; { g_cur = k; rc = (int)si->loadScript(fn, res); }
      Off f; if (e.i("ex")) unlink(path.c_str());
      put("\"code\":"); putInt(rc == bd::ScriptInterp::SCRIPT_LOAD_OK ? 10 : rc == bd::ScriptInterp::SCRIPT_LOAD_ERROR ? 11 : rc == bd::ScriptInterp::SCRIPT_LOAD_WRONG_INTERP ? 12 : 13); put(",\"ret\":"); putB(std_(res)); }
    else if (o == "rt") {
      std::string t = e.s("ty"); int q = e.i("q");
      if (t == "i8") rtn<int8_t>(e, k); else if (t == "u8") rtn<uint8_t>(e, k); else if (t == "i16") rtn<int16_t>(e, k); else if (t == "u16") rtn<uint16_t>(e, k); else if (t == "i32") rtn<int32_t>(e, k); else if (t == "u32") rtn<uint32_t>(e, k);
      else if (t == "i64") rtn<int64_t>(e, k); else if (t == "u64") rtn<uint64_t>(e, k); else if (t == "d") rtn<double>(e, k);
      else if (t == "b") rt<bool>(si, k, q, e.b("v") == std::string("\1"), rawb, ""); else if (t == "s") { Str s(mkS(e.b("v"))); rt<Str>(si, k, q, s, raws, ""); }
      else if (t == "l") { Lst l(mkL(e.l("vl"))); rt<Lst>(si, k, q, l, rawl, ""); }
      else if (t == "n") { Nst n; std::vector<std::string> in = e.l("vl"); size_t p = 0; for (auto& c : e.b("nn")) { Lst l; for (int i = 0; i < c; ++i) l << mkS(in[p++]); n << l; } rt<Nst>(si, k, q, n, rawn, ""); }
      else throw BadArg(); }
    else throw BadArg();
  }
  void post() {
    dropCopies();
    Off f; put(",\"calls\":["); g_out += g_calls; put("],\"hooks\":["); g_out += g_hooks; put("]"); g_calls.clear(); g_hooks.clear();
    put(",\"pv\":{"); bool c = false;
    auto one = [&](const char* n, const std::string& v) { if (c) put(","); c = true; g_out += std::string("\"") + n + "\":" + bs(v); };
    one("i8", tx(V.i8)); one("u8", tx(V.u8)); one("i16", tx(V.i16)); one("u16", tx(V.u16)); one("i32", tx(V.i32)); one("u32", tx(V.u32)); one("i64", tx(V.i64)); one("u64", tx(V.u64)); one("b", tx(V.b));
    one("d", tx(V.d));
    one("s", tx(V.s)); one("s2", tx(V.s2)); one("c1", std::string(V.c1, strnlen(V.c1, 1))); one("c4", std::string(V.c4, strnlen(V.c4, 4))); one("c9", std::string(V.c9, strnlen(V.c9, 9))); one("c90", std::string(V.c90, strnlen(V.c90, 90)));
    one("ki", tx(V.ki)); one("ks", tx(V.ks)); one("kc", tx(V.kc)); put("}");
    put(",\"peek\":["); 
    for (int k = 1; k <= 2; ++k) { if (k > 1) put(","); put("{\"on\":"); if (!g_si[k] || !peek) { put("0,\"c\":[],\"v\":[]}"); continue; }
      put("1,\"c\":["); int cur = g_cur; std::string hs = g_calls, hh = g_hooks;
      for (size_t i = 0; i < cn.size(); ++i) { if (i) put(","); { std::string c_ = std_(ev(k, "llength [info commands ::" + cn[i] + "]")); g_out += c_ == "0" || c_ == "1" ? c_ : "99"; } }
      put("],\"v\":["); for (size_t i = 0; i < vn.size(); ++i) { if (i) put(","); Str c = ev(k, "catch {set " + vn[i] + "} ::vfr"); if (c == "0") { put("{\"e\":1,\"t\":"); putB(std_(ev(k, "set ::vfr"))); put("}"); } else put("{\"e\":0,\"t\":[]}"); }
      put("]}"); g_cur = cur; }
    put("]");
  }
  void end(const Ev&) { for (int i = 1; i <= 3; ++i) { g_cb[i] = nullptr; g_cbk[i] = 0; } for (int k = 1; k <= 2; ++k) { delete g_si[k]; g_si[k] = nullptr; } V.s = Str(); V.s2 = Str(); put("\"ret\":0,\"code\":0"); }
};
int main() { initDriver(); return mainLoop<Sess>(); }
