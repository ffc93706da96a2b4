// Line protocol of the smaller drivers: "session <head>" then "op key=value ..." lines, "end".
// Values: decimal integers, x<hex> byte strings, l<hex>,<hex>, lists of byte strings.
#ifndef VERIF_PROTO_H
#define VERIF_PROTO_H
#include "common.h"
#include <iostream>
#include <stdexcept>
namespace vf {
struct BadArg {};
struct Ev {
  std::string op; std::map<std::string, std::string> kv;
  bool has(const char* k) const { return kv.count(k) != 0; }
  long i(const char* k, long dflt = 0) const { auto f = kv.find(k); return f == kv.end() ? dflt : atol(f->second.c_str()); }
  std::string s(const char* k) const { auto f = kv.find(k); return f == kv.end() ? std::string() : f->second; }
  std::string b(const char* k) const { auto f = kv.find(k); if (f == kv.end()) return std::string(); return unhex(f->second.substr(1)); }
  std::vector<std::string> l(const char* k) const {
    std::vector<std::string> r; auto f = kv.find(k); if (f == kv.end()) return r;
    const std::string& t = f->second; size_t p = 1;
    while (p < t.size()) { size_t q = t.find(',', p); r.push_back(unhex(t.substr(p, q - p))); p = q + 1; }
    return r; }
};
static inline Ev parseEv(const std::string& line) {
  Ev e; std::vector<std::string> t = tokens(line); e.op = t[0];
  for (size_t i = 1; i < t.size(); ++i) { size_t q = t[i].find('='); e.kv[t[i].substr(0, q)] = t[i].substr(q + 1); }
  return e;
}
static inline void putB(const std::string& s) { putBytes(s.data(), s.size()); }
static inline void ret(long v) { put("\"ret\":"); putInt(v); }
static inline void retB(const char* p, size_t n) { put("\"ret\":"); putBytes(p, n); }
// Sess: void op(const Ev&) (prints "ret":..), bool pre(const Ev&), void post() (prints ,"post":..), void end()
template <class Sess> static bool runSession(std::istream& in, const std::string& head) {
  Sess* S; { Off o; S = new Sess(head); }
  std::string line; size_t blocks0 = g_nblk; bool ended = false;
  while (!ended && std::getline(in, line)) {
    if (line.empty()) continue;
    Ev e = parseEv(line); const char* err = ""; g_out.clear();
    armHang(10);
    if (e.op == "end") {
      ended = true; S->end(e);
      g_on = false;
      if (g_nblk != blocks0) { err = "LEAK"; g_nblk = blocks0; }
    } else if (!S->pre(e)) { err = "pre";
    } else {
      g_on = true;
      try { S->op(e); g_on = false; }
      catch (const std::out_of_range&) { g_on = false; err = "range"; g_out.clear(); }
      catch (const BadArg&) { fprintf(stderr, "bad script line: %s\n", line.c_str()); _exit(96); }
      catch (...) { g_on = false; err = "EXC"; g_out.clear(); }
    }
    armHang(0);
    if (g_out.empty()) put("\"ret\":0");
    std::string r = g_out; g_out.assign("{"); g_out += r; g_out += std::string(",\"err\":\"") + err + "\"";
    S->post(); put("}");
    flushLine();
  }
  delete S;
  return ended;
}
template <class Sess> static int mainLoop() {
  std::string line;
  while (std::getline(std::cin, line)) {
    if (line.empty()) continue;
    if (line.compare(0, 8, "session ")) { fprintf(stderr, "expected session: %s\n", line.c_str()); return 96; }
    if (!runSession<Sess>(std::cin, line.substr(8))) return 96;
  }
  return 0;
}
}
#endif
