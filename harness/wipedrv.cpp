// Driver for the wiping of string storage.  Every session is executed K times with the same calls and
// different text (symbol c becomes byte c + r[k]); a byte that still shows the text of each execution
// when its block is given back was not overwritten.
#include "proto.h"
#include "String.h"
#include "Array.h"
#include <set>
using namespace vf;
extern void (*volatile vf_on_new)(void*, size_t);
extern void (*volatile vf_on_del)(void*);
static const int K = 5;
static const int R[K] = {13, 200, 77, 31, 149};      // not an arithmetic progression, unlike the wiping pattern of successive runs
struct Held { unsigned b; long off; long len; std::string t; };
struct Freed { unsigned b; std::vector<unsigned char> pre, at; };
struct Snap { unsigned id; std::string bytes; };
static std::vector<Snap>* g_snap;      // contents of the live blocks before the call
static std::vector<Freed>* g_freed;
static unsigned g_base;                // first block id of this execution
static void hook(void* p, size_t n, unsigned id) {
  Off o;
  Freed f; f.b = id - g_base + 1; f.at.assign((unsigned char*)p, (unsigned char*)p + n);
  for (auto& s : *g_snap) if (s.id == id) f.pre.assign(s.bytes.begin(), s.bytes.end());
  if (f.pre.size() == f.at.size()) g_freed->push_back(f);
}
struct Step { std::vector<Held> held; std::vector<Freed> freed; const char* err; };
struct Exec {                          // one execution of a session
  int rot; bd::String* s[5]; bd::Array<bd::String>* a;
  Exec(int r) : rot(r), s{}, a(nullptr) {}
  std::string tr(std::string v) const { for (auto& c : v) c = (char)((unsigned char)c + rot); return v; }
  bool pre(const Ev& e) const {
    int d = e.i("d"); const std::string& o = e.op;
    if (o == "new" || o == "newcap" || o == "newfill") return !s[d];
    if (o == "copy" || o == "slice" || o == "move" || o == "fromarr") return o == "fromarr" ? !s[d] && a && a->length() > (size_t)e.i("p") : !s[d] && s[e.i("s")];
    if (o == "arrnew") return !a;
    if (o == "arrput" || o == "arrmv") return a && s[d];
    if (o == "arrdel") return a != nullptr;
    if (o == "asg" || o == "app" || o == "ins") return s[d] && s[e.i("s")];
    return s[d] != nullptr;
  }
  void op(const Ev& e) {
    int d = e.i("d"); const std::string& o = e.op; size_t p = e.i("p"), n = e.i("n"); std::string v;
    { Off off; v = tr(e.b("v")); }
    #define NEWS(x) bd::String* q_; { Off off; q_ = (bd::String*)malloc(sizeof(bd::String)); } new (q_) bd::String x; s[d] = q_
    if (o == "new") { NEWS((v.data(), v.size())); }
    else if (o == "newcap") { NEWS((size_t(n))); }
    else if (o == "newfill") { NEWS((size_t(n), (char)(rot + 'q'))); }
    else if (o == "copy") { NEWS((*s[e.i("s")])); }
    else if (o == "move") { NEWS((std::move(*s[e.i("s")]))); }
    else if (o == "slice") { NEWS((bd::String((*s[e.i("s")])((int)p, (int)n)))); }
    else if (o == "fromarr") { const bd::Array<bd::String>& ca = *a; NEWS((ca[p])); }
    else if (o == "asg") { *s[d] = *s[e.i("s")]; }
    else if (o == "app") { s[d]->append(*s[e.i("s")]); }
    else if (o == "appv") { s[d]->append(v.data(), v.size()); }
    else if (o == "ins") { s[d]->insert(0, *s[e.i("s")]); }
    else if (o == "repl") { if (p <= s[d]->length()) s[d]->replace(p, v.data(), n); }
    else if (o == "clear") { s[d]->clear(); }
    else if (o == "shrink") { if (n < s[d]->length()) s[d]->resize(n); }
    else if (o == "grow") { s[d]->resize(s[d]->length() + n, (char)(rot + 'z')); }
    else if (o == "reserve") { s[d]->reserve(n); }
    else if (o == "cstr") { s[d]->c_str(); }
    else if (o == "hash") { s[d]->hash(); }
    else if (o == "dropf") { if (n <= s[d]->length()) *s[d] += n; }
    else if (o == "dropb") { if (n <= s[d]->length()) *s[d] -= n; }
    else if (o == "set") { if (p < s[d]->length()) (*s[d])[p] = (char)(rot + 'w'); }
    else if (o == "arrnew") { bd::Array<bd::String>* q; { Off off; q = (bd::Array<bd::String>*)malloc(sizeof(*q)); } new (q) bd::Array<bd::String>(); q->reserve(8); a = q; }
    else if (o == "arrput") { if (a->length() < 8) a->push_back(*s[d]); }
    else if (o == "arrmv") { if (a->length() < 8) a->push_back(std::move(*s[d])); }
    else if (o == "arrdel") { a->~Array(); Off off; free(a); a = nullptr; }
    else if (o == "del") { s[d]->~String(); Off off; free(s[d]); s[d] = nullptr; }
    else throw BadArg();
  }
  void hold(std::vector<Held>& h, const bd::String& x) {
    const bd::String& c = x; const char* q = c.data(); unsigned b = blockOf(q); if (!b && q && !c.length()) b = blockOf(q - 1);
    if (!b) { h.push_back(Held{0, 0, 0, ""}); return; }
    for (size_t i = 0; i < g_nblk; ++i) if (g_blk[i].id == b) { h.push_back(Held{b - g_base + 1, long(q - g_blk[i].p), long(c.length()), std::string(q, c.length())}); return; }
  }
  std::vector<Held> holders() {
    std::vector<Held> h;
    for (int k = 1; k <= 4; ++k) { if (s[k]) hold(h, *s[k]); else h.push_back(Held{0, 0, -1, ""}); }
    if (a) { const bd::Array<bd::String>& ca = *a; for (size_t k = 0; k < ca.length(); ++k) hold(h, ca[k]); }
    return h;
  }
};
static std::string g_pad;
int main() {
  initDriver(); g_free_hook = hook; vf_on_new = track; vf_on_del = untrack;
  std::string line;
  while (std::getline(std::cin, line)) {
    if (line.empty()) continue;
    if (line.compare(0, 8, "session ")) return 96;
    int seed = atoi(line.substr(8).c_str());
    std::vector<Ev> evs; while (std::getline(std::cin, line)) { Ev e = parseEv(line); evs.push_back(e); if (e.op == "end") break; }
    std::vector<std::vector<Step>> runs;
    for (int k = 0; k < K; ++k) {
      Exec x((seed * 7 + R[k]) & 255); g_base = g_next; std::vector<Step> st;
      for (auto& e : evs) {
        Step S; S.err = ""; std::vector<Snap> snap; std::vector<Freed> fr;
        for (size_t i = 0; i < g_nblk; ++i) snap.push_back(Snap{g_blk[i].id, std::string(g_blk[i].p, g_blk[i].n)});
        g_snap = &snap; g_freed = &fr;
        armHang(10);
        if (e.op == "end") {
          g_on = true; { if (x.a) { Ev q; q.op = "arrdel"; x.op(q); } for (int d = 1; d <= 4; ++d) if (x.s[d]) { Ev q; q.op = "del"; q.kv["d"] = std::to_string(d); x.op(q); } } g_on = false;
          fr.clear(); g_nblk = 0;
        } else if (!x.pre(e)) S.err = "pre";
        else { g_on = true; try { x.op(e); g_on = false; } catch (BadArg&) { return 96; } catch (...) { g_on = false; S.err = "EXC"; } }
        armHang(0);
        S.held = x.holders(); S.freed = fr; st.push_back(S);
      }
      runs.push_back(st);
    }
    for (size_t i = 0; i < evs.size(); ++i) {
      Step& A = runs[0][i]; g_out.clear(); put("{\"err\":\""); bool same = true;
      for (auto& r : runs) { if (r[i].held.size() != A.held.size() || r[i].freed.size() != A.freed.size() || strcmp(r[i].err, A.err)) { same = false; break; }
        for (size_t j = 0; j < A.freed.size(); ++j) if (r[i].freed[j].b != A.freed[j].b || r[i].freed[j].at.size() != A.freed[j].at.size()) same = false; }
      put(same ? A.err : "DIFF"); put("\",\"H\":[");
      for (size_t j = 0; j < A.held.size(); ++j) { Held& h = A.held[j]; if (j) put(","); put("{\"b\":"); putInt(h.b); put(",\"o\":"); putInt(h.off); put(",\"n\":"); putInt(h.len); put(",\"t\":"); putB(h.t); put("}"); }
      put("],\"F\":[");
      for (size_t j = 0; same && j < A.freed.size(); ++j) {
        if (j) put(","); put("{\"b\":"); putInt(A.freed[j].b); put(",\"left\":["); bool c = false;
        for (size_t o = 0; o < A.freed[j].at.size(); ++o) {
          bool keep = true, vary = false;
          for (auto& r : runs) { Freed& f = r[i].freed[j]; if (f.pre[o] != f.at[o]) keep = false; if (f.pre[o] != A.freed[j].pre[o]) vary = true; }
          if (keep && vary) { if (c) put(","); c = true; putInt((long)o); }
        }
        put("]}");
      }
      put("]}"); flushLine();
    }
  }
  return 0;
}
