// Executes scripts on the real bd::HashTable and records outcomes.
// head: "SS" String->String, "SI" String->int, "IS" int->String, "SV" String->Array<String>
#define VERIF_TRACK_NEW
#include "proto.h"
#include "String.h"
#include "Array.h"
#include "HashTable.h"
#include <memory>
using namespace vf;
typedef bd::String Str;
template <class T> struct Cv;
template <> struct Cv<Str> { static Str from(const std::string& b) { return Str(b.data(), b.size()); }
  static std::string to(const Str& s) { return std::string(s.cbegin(), s.length()); } };
template <> struct Cv<int> { static int from(const std::string& b) { int r = 0; for (unsigned char c : b) r = r * 256 + c; return r; }
  static std::string to(int v) { std::string r; while (v) { r.insert(r.begin(), (char)(v & 255)); v >>= 8; } return r; } };
template <> struct Cv<bd::Array<Str>> { // one element per byte
  static bd::Array<Str> from(const std::string& b) { bd::Array<Str> a; for (char c : b) a << Str(1, c); return a; }
  static std::string to(const bd::Array<Str>& a) { std::string r; for (size_t i = 0; i < a.length(); ++i) r += std::string(a[i].cbegin(), a[i].length()); return r; } };

struct TabIf { virtual ~TabIf() {} virtual void op(const Ev&) = 0; virtual bool pre(const Ev&) = 0; virtual void post() = 0; virtual void end(const Ev&) = 0; };
static const int K = 3, NV = 3;
template <class Ky, class Va> struct Tab : TabIf {
  typedef bd::HashTable<Ky, Va> H; typedef typename H::value_type P;
  H* t[K + 1] = {}; Ky* kv[NV + 1]; Va* vv[NV + 1];      // tables, key variables, value variables
  Tab() { for (int i = 1; i <= NV; ++i) { kv[i] = nullptr; vv[i] = nullptr; } }
  void vars() { if (!kv[1]) for (int i = 1; i <= NV; ++i) { kv[i] = new Ky(); vv[i] = new Va(); } }
  bool pre(const Ev& e) override {
    g_on = true; vars(); g_on = false;
    int d = e.i("d", 1), s = e.i("s", 0);
    if (d < 1 || d > K || s < 0 || s > K) return false;
    if (e.op.compare(0, 3, "new") == 0) return !t[d] && (!(e.op == "newcopy" || e.op == "newmove") || (s && t[s]));
    if (e.op == "asg" || e.op == "asgmove" || e.op == "swap") return t[d] && s && t[s];
    if (e.op == "kset" || e.op == "vset" || e.op == "kapp" || e.op == "vapp" || e.op == "khash") return true;
    if (e.op == "kmut" || e.op == "vmut") return true;
    if (!t[d]) return false;
    if (e.op == "insval" || e.op == "idxval" || e.op == "rmself" || e.op == "vtake") return t[d]->find(key(e, "k2")) != t[d]->end();
    if (e.op == "findset") return t[d]->find(key(e)) != t[d]->end();
    return true; }
  Ky key(const Ev& e, const char* n = "k") { return Cv<Ky>::from(e.b(n)); }
  void rv(const Va& v) { put("\"ret\":"); putB(Cv<Va>::to(v)); }
  void op(const Ev& e) override {
    int d = e.i("d", 1), s = e.i("s", 0), m = e.i("m", 0); const std::string& op = e.op;
    if (op == "new") t[d] = new H();
    else if (op == "newcap") t[d] = new H((size_t)e.i("n"));
    else if (op == "newcopy") t[d] = new H(*t[s]);
    else if (op == "newmove") t[d] = new H(std::move(*t[s]));
    else if (op == "newlist" || op == "asglist") {
      auto ks = e.l("ks"), vs = e.l("vs"); P* p[4]; size_t n = ks.size();
      auto mk = [&](size_t i) { return P(Cv<Ky>::from(ks[i]), Cv<Va>::from(vs[i])); };
      if (op == "newlist") { if (n == 0) t[d] = new H(std::initializer_list<P>{}); else if (n == 1) t[d] = new H({mk(0)}); else if (n == 2) t[d] = new H({mk(0), mk(1)}); else t[d] = new H({mk(0), mk(1), mk(2)}); }
      else { if (n == 0) *t[d] = std::initializer_list<P>{}; else if (n == 1) *t[d] = {mk(0)}; else if (n == 2) *t[d] = {mk(0), mk(1)}; else *t[d] = {mk(0), mk(1), mk(2)}; } }
    else if (op == "del") { delete t[d]; t[d] = nullptr; }
    else if (op == "asg") *t[d] = *static_cast<const H*>(t[s]);
    else if (op == "asgmove") *t[d] = std::move(*t[s]);
    else if (op == "swap") { using std::swap; swap(*t[d], *t[s]); }
    else if (op == "clear") t[d]->clear();
    else if (op == "ins") { bool r; Ky k = key(e); Va v = Cv<Va>::from(e.b("v"));
      if (m == 0) r = t[d]->insert(k, v); else if (m == 1) r = t[d]->insert(std::move(k), v); else if (m == 2) r = t[d]->insert(k, std::move(v)); else r = t[d]->insert(std::move(k), std::move(v));
      ret(r); }
    else if (op == "insvar") { bool r; Ky& k = *kv[e.i("kvar")]; Va& v = *vv[e.i("vvar")];
      if (m == 0) r = t[d]->insert(k, v); else if (m == 1) r = t[d]->insert(std::move(k), v); else if (m == 2) r = t[d]->insert(k, std::move(v)); else r = t[d]->insert(std::move(k), std::move(v));
      ret(r); }
    else if (op == "insval") { const Va& r = t[d]->find(key(e, "k2"))->second; ret(t[d]->insert(key(e), r)); }
    else if (op == "idxval") { const Va& r = t[d]->find(key(e, "k2"))->second; (*t[d])[key(e)] = r; }
    else if (op == "idxvar") { if (m == 0) (*t[d])[*kv[e.i("kvar")]] = *vv[e.i("vvar")]; else if (m == 1) (*t[d])[Ky(*kv[e.i("kvar")])] = *vv[e.i("vvar")]; else (*t[d])[*kv[e.i("kvar")]] = std::move(*vv[e.i("vvar")]); }
    else if (op == "idxset") { Ky k = key(e); if (m == 0) (*t[d])[k] = Cv<Va>::from(e.b("v")); else (*t[d])[std::move(k)] = Cv<Va>::from(e.b("v")); }
    else if (op == "idx") { Ky k = key(e); if (m == 0) rv((*t[d])[k]); else rv((*t[d])[std::move(k)]); }
    else if (op == "cidx") { const H& c = *t[d]; rv(c[key(e)]); }
    else if (op == "get") { const H& c = *t[d]; rv(c.getValue(key(e))); }
    else if (op == "getvar") { const H& c = *t[d]; rv(c.getValue(*kv[e.i("kvar")])); }
    else if (op == "contains") { const H& c = *t[d]; ret(c.contains(key(e))); }
    else if (op == "hasvar") { const H& c = *t[d]; ret(c.contains(*kv[e.i("kvar")])); }
    else if (op == "remove") ret(t[d]->remove(key(e)));
    else if (op == "rmvar") ret(t[d]->remove(*kv[e.i("kvar")]));
    else if (op == "rmself") { auto it = t[d]->find(key(e, "k2")); ret(t[d]->remove(it->first)); }
    else if (op == "find") { if (m == 0) { auto it = t[d]->find(key(e)); put("\"ret\":["); if (it != t[d]->end()) { putB(Cv<Ky>::to(it->first)); put(","); putB(Cv<Va>::to(it->second)); } put("]"); }
      else { const H& c = *t[d]; auto it = c.find(key(e)); put("\"ret\":["); if (it != c.end()) { putB(Cv<Ky>::to(it->first)); put(","); putB(Cv<Va>::to(it->second)); } put("]"); } }
    else if (op == "findset") t[d]->find(key(e))->second = Cv<Va>::from(e.b("v"));
    else if (op == "vtake") { vv[1][0] = t[d]->find(key(e, "k2"))->second; }
    else if (op == "size") ret(t[d]->size());
    else if (op == "empty") ret(t[d]->isEmpty() * 2 + (static_cast<bool>(*t[d]) ? 1 : 0));
    else if (op == "iter") { put("\"ret\":["); bool f = true; auto one = [&](const P& p) { if (!f) put(","); f = false; put("["); putB(Cv<Ky>::to(p.first)); put(","); putB(Cv<Va>::to(p.second)); put("]"); };
      if (m == 0) for (auto& p : *t[d]) one(p); else if (m == 1) { for (auto it = t[d]->cbegin(); it != t[d]->cend(); ++it) one(*it); } else { const H& c = *t[d]; for (auto it = c.begin(); it != c.end(); ++it) one(*it); }
      put("]"); }
    else if (op == "bulkins") { long n = 0; for (long i = e.i("a"); i < e.i("b"); ++i) { std::string b; b += 'K'; b += (char)(1 + i / 200); b += (char)(1 + i % 200); n += t[d]->insert(Cv<Ky>::from(b), Cv<Va>::from(b.substr(1))); } ret(n); }
    else if (op == "bulkdel") { long n = 0; for (long i = e.i("a"); i < e.i("b"); ++i) { std::string b; b += 'K'; b += (char)(1 + i / 200); b += (char)(1 + i % 200); n += t[d]->remove(Cv<Ky>::from(b)); } ret(n); }
    else if (op == "kset") *kv[e.i("kvar")] = key(e);
    else if (op == "vset") *vv[e.i("vvar")] = Cv<Va>::from(e.b("v"));
    else if (op == "kmut") mut(*kv[e.i("kvar")], e.b("v"), m);
    else if (op == "vmut") mut(*vv[e.i("vvar")], e.b("v"), m);
    else throw BadArg(); }
  // change a variable in place: m 0 append, 1 overwrite first byte, 2 drop first
  static void mut(Str& s, const std::string& b, int m) { if (m == 0) s += Str(b.data(), b.size()); else if (s.length() == 0) return; else if (m == 1) s[0] = b[0]; else ++s; }
  static void mut(int& v, const std::string& b, int m) { std::string t = Cv<int>::to(v); if (m == 0) t += b; else if (t.empty()) return; else if (m == 1) t[0] = b[0]; else t.erase(0, 1); v = Cv<int>::from(t); }
  static void mut(bd::Array<Str>& a, const std::string& b, int m) { if (m == 0) { for (char c : b) a << Str(1, c); } else if (a.length() == 0) return; else if (m == 1) a[0] = Str(1, b[0]); else a.shift(); }
  void post() override {
    put(",\"post\":[");
    for (int k = 1; k <= K; ++k) { if (k > 1) put(","); put("{\"l\":"); putInt(t[k] != nullptr); put(",\"m\":["); bool f = true;
      if (t[k]) { const H& c = *t[k]; for (auto it = c.begin(); it != c.end(); ++it) { if (!f) put(","); f = false; put("["); putB(Cv<Ky>::to(it->first)); put(","); putB(Cv<Va>::to(it->second)); put("]"); } }
      put("],\"n\":"); putInt(t[k] ? (long)t[k]->size() : 0); put("}"); }
    put("],\"kv\":["); for (int i = 1; i <= NV; ++i) { if (i > 1) put(","); putB(kv[i] ? Cv<Ky>::to(*kv[i]) : ""); }
    put("],\"vv\":["); for (int i = 1; i <= NV; ++i) { if (i > 1) put(","); putB(vv[i] ? Cv<Va>::to(*vv[i]) : ""); }
    put("]"); }
  void end(const Ev& e) override { g_on = true; 
    for (int k = 1; k <= K; ++k) { delete t[k]; t[k] = nullptr; }
    for (int i = 1; i <= NV; ++i) { delete kv[i]; delete vv[i]; kv[i] = nullptr; vv[i] = nullptr; } g_on = false; }
};
struct Sess { std::unique_ptr<TabIf> p;
  Sess(const std::string& h) { if (h == "SS") p.reset(new Tab<Str, Str>()); else if (h == "SI") p.reset(new Tab<Str, int>()); else if (h == "IS") p.reset(new Tab<int, Str>()); else p.reset(new Tab<Str, bd::Array<Str>>()); }
  bool pre(const Ev& e) { return p->pre(e); } void op(const Ev& e) { p->op(e); } void post() { p->post(); } void end(const Ev& e) { p->end(e); } };
int main() { initDriver(); return mainLoop<Sess>(); }
