// Runs small multi-threaded programs on String/Array objects that share storage, under every schedule
// (depth-first over the points where the turn may change, bounded number of preemptions), and prints
// the distinct histories each thread saw.
// Session: "session <type> <keep> <preemptions> <cap> <random> <seed>", "base v=.. ", "init t= d= i= j=",
// operations "op t= ...", "end".
#include "proto.h"
#include "vfsched.h"
#include "String.h"
#include "Array.h"
#include <pthread.h>
#include <set>
#include <sstream>
using namespace vf;
typedef bd::String Str;
struct In { In() { sch::inLib(true); } ~In() { sch::inLib(false); } };
static std::string js(const Str& s) { std::string r = "["; for (size_t i = 0; i < s.length(); ++i) { if (i) r += ","; r += std::to_string((unsigned char)s.data()[i]); } return r + "]"; }
template <class C> struct Ty;
template <> struct Ty<Str> { typedef char E; static E el(const Ev& e) { return (char)e.i("x"); } static std::string j(const E& c) { return std::to_string((unsigned char)c); } };
template <> struct Ty<bd::Array<int>> { typedef int E; static E el(const Ev& e) { return (int)e.i("x"); } static std::string j(const E& c) { return std::to_string(c); } };
template <> struct Ty<bd::Array<Str>> { typedef Str E; static E el(const Ev& e) { std::string s = e.b("x"); Str r(s.data(), s.size()); if (e.op == "base" && e.has("n")) { const Str& c = r; return Str(c(0, (int)e.i("n"))); } return r; } static std::string j(const E& c) { return js(c); } };
template <class C> static std::string seq(const C& c) { std::string r = "["; for (size_t i = 0; i < c.length(); ++i) { if (i) r += ","; r += Ty<C>::j(c.cbegin()[i]); } return r + "]"; }
template <class C> struct Thr {
  typedef typename Ty<C>::E E;
  int id; C* s[4]; std::vector<const Ev*> prog; std::string hist;
  std::string r1(const Str& c, const Ev& e) { In in; return js(c); }
  void mk(C*& p, void* m) { p = (C*)m; }
  bool ok(const Ev& e) {
    int d = e.i("d"), q = e.i("s"); const std::string& o = e.op;
    if (o == "newcopy" || o == "newsub" || o == "newmove") return !s[d] && s[q];
    if (!s[d]) return false;
    if (o == "asg" || o == "asgmove" || o == "appseq" || o == "eq" || o == "swap" || o == "asgsub") return s[q] != nullptr;
    size_t L = ((const C*)s[d])->length();
    if (o == "set" || o == "idx") return (size_t)e.i("i") < L;
    if (o == "popb" || o == "shift" || o == "pop") return L > 0;
    if (o == "resize") return (size_t)e.i("n") <= L;
    return true;
  }
  // operations only one of the classes has
  bool special(Str* x, const Ev& e, std::string& ret) {
    if (e.op == "cstr") { const char* p; { In in; p = x->c_str(); } ret = "["; for (size_t i = 0; i <= x->length(); ++i) { if (i) ret += ","; ret += std::to_string((unsigned char)p[i]); } ret += "]"; return true; }
    if (e.op == "dropf") { In in; *x += (size_t)e.i("n"); return true; }
    if (e.op == "dropb") { In in; *x -= (size_t)e.i("n"); return true; }
    return false; }
  static std::string elcstr(const Str& v) { const char* p; { In in; p = v.c_str(); } std::string r = "["; for (size_t i = 0; i <= v.length(); ++i) { if (i) r += ","; r += std::to_string((unsigned char)p[i]); } return r + "]"; }
  static std::string elcstr(int) { return "0"; }
  template <class T> bool special(bd::Array<T>* x, const Ev& e, std::string& ret) {
    if (e.op == "shift" || e.op == "pop") { T* r; { In in; r = new T(e.op == "pop" ? x->pop() : x->shift()); } ret = Ty<bd::Array<T>>::j(*r); In in; delete r; return true; }
    if (e.op == "elcstr") { ret = elcstr((*(const bd::Array<T>*)x)[(size_t)e.i("i")]); return true; }
    return false; }
  void op(const Ev& e) {
    std::string ret = "0"; const char* err = ""; int d = e.i("d"), q = e.i("s"); const std::string& o = e.op;
    if (!ok(e)) err = "pre";
    else try {
      C* x = s[d];
      if (o == "newcopy") { void* m = malloc(sizeof(C)); In in; s[d] = new (m) C(*s[q]); }
      else if (o == "newmove") { void* m = malloc(sizeof(C)); In in; s[d] = new (m) C(std::move(*s[q])); }
      else if (o == "newsub") { void* m = malloc(sizeof(C)); In in; s[d] = new (m) C(((const C&)*s[q])((int)e.i("i"), (int)e.i("j"))); }
      else if (o == "asg") { In in; *x = *s[q]; }
      else if (o == "asgmove") { In in; *x = std::move(*s[q]); }
      else if (o == "asgsub") { In in; *x = C(((const C&)*s[q])((int)e.i("i"), (int)e.i("j"))); }
      else if (o == "swap") { In in; using std::swap; swap(*x, *s[q]); }
      else if (o == "del") { { In in; x->~C(); } free(x); s[d] = nullptr; }
      else if (o == "clear") { In in; x->clear(); }
      else if (o == "reserve") { In in; x->reserve((size_t)e.i("n")); }
      else if (o == "resize") { In in; x->resize((size_t)e.i("n")); }
      else if (o == "resizef") { E v(Ty<C>::el(e)); In in; x->resize((size_t)e.i("n"), v); }
      else if (o == "app") { E v(Ty<C>::el(e)); In in; x->append(v); }
      else if (o == "appseq") { In in; x->append(*s[q]); }
      else if (o == "ins") { E v(Ty<C>::el(e)); In in; x->insert((size_t)e.i("i"), v); }
      else if (o == "repl") { E v(Ty<C>::el(e)); In in; x->replace((size_t)e.i("i"), v); }
      else if (o == "set") { E v(Ty<C>::el(e)); In in; (*x)[(size_t)e.i("i")] = v; }
      else if (o == "popb") { In in; x->pop_back(); }
      else if (o == "slice") { In in; x->slice((int)e.i("i"), (int)e.i("j")); }
      else if (o == "idx") { const E* v; { In in; v = &(*(const C*)x)[(size_t)e.i("i")]; } ret = Ty<C>::j(*v); }
      else if (o == "at") { const E* v; { In in; v = &((const C*)x)->at((size_t)e.i("i")); } ret = Ty<C>::j(*v); }
      else if (o == "iter") { In in; ret = ""; std::string t = seq(*(const C*)x); ret = t; }
      else if (o == "len") { size_t n; { In in; n = ((const C*)x)->length(); } ret = std::to_string(n); }
      else if (o == "eq") { bool b; { In in; b = *(const C*)x == *(const C*)s[q]; } ret = b ? "1" : "0"; }
      else if (o == "find") { E v(Ty<C>::el(e)); size_t p; { In in; p = ((const C*)x)->find(v); } ret = std::to_string((long)p); }
      else if (o == "hashf") { size_t a; { In in; a = ((const C*)x)->hash(); } C fresh; for (size_t i = 0; i < x->length(); ++i) fresh.append(((const C*)x)->cbegin()[i]); ret = a == fresh.hash() ? "[1,1]" : "[0,1]"; }
      else if (special(x, e, ret)) {}
      else { fprintf(stderr, "bad op %s\n", o.c_str()); _exit(96); }
    } catch (const std::out_of_range&) { sch::inLib(false); err = "range"; ret = "0"; }
    catch (...) { sch::inLib(false); err = "EXC"; ret = "0"; }
    hist += "{\"ret\":" + ret + ",\"err\":\"" + err + "\",\"post\":[";
    for (int k = 1; k <= 3; ++k) { if (k > 1) hist += ","; if (!s[k]) hist += "{\"l\":0,\"v\":[]}"; else hist += "{\"l\":1,\"v\":" + seq(*(const C*)s[k]) + "}"; }
    hist += ",{\"l\":0,\"v\":[]},{\"l\":0,\"v\":[]}]},";
  }
  void run() { for (auto e : prog) op(*e); for (int k = 1; k <= 3; ++k) if (s[k]) { { In in; s[k]->~C(); } free(s[k]); s[k] = nullptr; } }
};
template <class C> static void* body(void* a) { Thr<C>* t = (Thr<C>*)a; sch::enter(t->id); t->run(); sch::leave(); return nullptr; }
template <class C> static C mkBase(const std::vector<Ev>& evs) { C c; for (auto& e : evs) if (e.op == "base") c.append(Ty<C>::el(e)); return c; }
template <class C> static int session(std::istringstream& head, const std::vector<Ev>& evs) {
  int keep, bound, cap, nrand; unsigned seed; head >> keep >> bound >> cap >> nrand >> seed;
  int T = 0; for (auto& e : evs) if (e.has("t")) T = std::max(T, (int)e.i("t"));
  std::set<std::string> seen[4]; std::string problem; long runs = 0, maxdec = 0; bool complete = false;
  std::vector<int> prefix; int randleft = nrand; bool random = false;
  for (;;) {
    sch::resetAlloc();
    std::vector<Thr<C>> th(T); C* base;
    { void* m = malloc(sizeof(C)); In in; base = new (m) C(mkBase<C>(evs)); }
    for (auto& e : evs) if (e.op == "prehash") { In in; base->hash(); }
    for (int t = 0; t < T; ++t) { th[t].id = t; for (auto& p : th[t].s) p = nullptr; th[t].hist.reserve(4096); for (auto& e : evs) if (e.i("t") == t + 1 && e.op != "init") th[t].prog.push_back(&e); }
    for (auto& e : evs) if (e.op == "init") { C*& p = th[e.i("t") - 1].s[e.i("d")]; void* m = malloc(sizeof(C)); In in; if (e.has("i")) p = new (m) C(((const C&)*base)((int)e.i("i"), (int)e.i("j"))); else p = new (m) C(*base); }
    if (!keep) { { In in; base->~C(); } free(base); base = nullptr; }
    sch::begin(T, prefix.data(), (int)prefix.size(), seed + (unsigned)runs * 7919u, random ? 25 : 0);
    std::vector<pthread_t> pt(T);
    for (int t = 0; t < T; ++t) pthread_create(&pt[t], nullptr, body<C>, &th[t]);
    sch::start();
    for (int t = 0; t < T; ++t) pthread_join(pt[t], nullptr);
    if (base) { std::string now = seq(*(const C*)base), want; { C b2 = mkBase<C>(evs); want = seq((const C&)b2); } if (now != want) problem = "the remaining object changed: " + now; { In in; base->~C(); } free(base); }
    ++runs; maxdec = std::max(maxdec, (long)sch::ntrail);
    for (int t = 0; t < T; ++t) seen[t].insert(th[t].hist);
    if (*sch::allocProblem()) problem = sch::allocProblem();
    else if (sch::liveBlocks()) problem = "storage not released";
    if (!problem.empty()) break;
    if (random) { if (--randleft <= 0) break; continue; }
    // next schedule
    sch::Decision* tr = sch::trail; int k = sch::ntrail - 1;
    for (; k >= 0; --k) {
      if (tr[k].chosen + 1 >= tr[k].nopt) continue;
      if (!tr[k].free) { int used = 0; for (int i = 0; i < k; ++i) if (!tr[i].free && tr[i].chosen) ++used; if (used + 1 > bound) continue; }
      break;
    }
    if (k < 0) { complete = true; break; }
    if (runs >= cap) { if (nrand <= 0) break; random = true; prefix.clear(); continue; }
    prefix.clear(); for (int i = 0; i < k; ++i) prefix.push_back(tr[i].chosen); prefix.push_back(tr[k].chosen + 1);
  }
  for (int t = 0; t < T; ++t) for (auto& h : seen[t]) { g_out = "{\"t\":" + std::to_string(t + 1) + ",\"ev\":[" + h.substr(0, h.empty() ? 0 : h.size() - 1) + "]}"; flushLine(); }
  g_out = "{\"done\":1,\"runs\":" + std::to_string(runs) + ",\"decisions\":" + std::to_string(maxdec) + ",\"complete\":" + (complete ? "1" : "0") + ",\"problem\":\"" + problem + "\",\"schedule\":["; bool c = false;
  for (int i = 0; i < sch::ntrail; ++i) { sch::Decision& d = sch::trail[i]; if (c) g_out += ","; c = true; g_out += std::to_string(d.chosen); }
  g_out += "]}"; flushLine();
  return 0;
}
int main() {
  g_out.reserve(1 << 20); std::string line;
  while (std::getline(std::cin, line)) {
    if (line.empty()) continue;
    std::istringstream h(line); std::string w, ty; h >> w >> ty; if (w != "session") return 96;
    std::vector<Ev> evs; while (std::getline(std::cin, line)) { Ev e = parseEv(line); if (e.op == "end") break; evs.push_back(e); }
    if (ty == "S") session<Str>(h, evs); else if (ty == "I") session<bd::Array<int>>(h, evs); else session<bd::Array<Str>>(h, evs);
  }
  return 0;
}
