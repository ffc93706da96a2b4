// Strings and arrays of more than 2 GiB, recorded in units of 16 MiB: every unit is one repeated byte, so that
// the scaled record is a short sequence for SeqSpec.  Script lines as for seqdrv.
#include "String.h"
#include "Array.h"
#include <cstdio>
#include <cstring>
#include <iostream>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include <new>
#include <unistd.h>
static const long U = 1L << 24;
typedef bd::Array<unsigned char> Arr;
static long sc(long v) { return v < 0 && v != -1 ? v * U : v == -1 ? -1 : v * U; }
static size_t scn(long n) { return n < 0 ? size_t(-1) : size_t(n) * U; }
static std::string pos(size_t p) { if (p == size_t(-1)) return "-1"; return p % U ? "-99" : std::to_string(p / U); }
static std::string rpos(size_t p) { if (p == size_t(-1)) return "-1"; return p % U != size_t(U - 1) ? "-99" : std::to_string(p / U); }
static int sgn(int v) { return v < 0 ? -1 : v > 0; }
static std::vector<int> lit(const std::string& t) {
  std::vector<int> r;
  if (t[0] == 'x') for (size_t i = 1; i + 1 < t.size(); i += 2) r.push_back(std::stoi(t.substr(i, 2), nullptr, 16));
  else { std::stringstream s(t.substr(1)); std::string e; while (std::getline(s, e, ',')) if (!e.empty()) r.push_back(std::stoi(e)); }
  return r; }
static int item(const std::string& t) { return t[0] == 'x' ? 0 : std::stoi(t); }
template <class C> static bd::Slice<C> mslice(C& c, long i, long j) { return c(i, j); }
template <class C> struct Only;
template <> struct Only<bd::String> {
  typedef bd::String C;
  static C sub(const C& c, long i, long j) { return c.substring(i, j); }
  static std::string rel(const C& a, const C& b) { std::string r = "["; int v[6] = { a == b, a != b, a < b, a <= b, a > b, a >= b }; for (int k = 0; k < 6; ++k) r += (k ? "," : "") + std::to_string(v[k]); return r + "]"; }
  static int cmp(const C& a, const C& b, long n) { return n == -1 ? a.compare(b) : a.compare(b, size_t(n) * U); }
  static size_t fsub(const C& a, const C& b, size_t p) { return a.find(b, p); }
  static void dropf(C& c, size_t n) { c += n; }
  static void dropb(C& c, size_t n) { c -= n; } };
template <> struct Only<Arr> {
  typedef Arr C;
  static C sub(const C& c, long i, long j) { return c.subarray(i, j); }
  static std::string rel(const C&, const C&) { _exit(96); }
  static int cmp(const C&, const C&, long) { _exit(96); }
  static size_t fsub(const C&, const C&, size_t) { _exit(96); }
  static void dropf(C& c, size_t n) { c += int(n); }
  static void dropb(C& c, size_t n) { c -= int(n); } };
template <class C> static int session() {
  typedef typename C::value_type E;
  C* o[6] = { 0, 0, 0, 0, 0, 0 };
  std::string line;
  while (std::getline(std::cin, line)) {
    std::stringstream ss(line); std::string op, m, v, w, x; long d, s, i, j, n; ss >> op >> m >> d >> s >> i >> j >> n >> v >> w >> x;
    std::string ret = "0", err;
    try {
      if (op == "end") { for (int k = 1; k < 6; ++k) { delete o[k]; o[k] = 0; } }
      else if (op == "newlit") { std::vector<int> t = lit(v); o[d] = new C(size_t(t.size()) * U + (m == "cap" ? 3 * U : 0)); o[d]->resize(size_t(t.size()) * U, E(0)); E* p = o[d]->mdata(); for (size_t k = 0; k < t.size(); ++k) memset((void*)(p + k * U), t[k], U); }
      else if (op == "newcopy") o[d] = new C(*o[s]);
      else if (op == "newmove") o[d] = new C(std::move(*o[s]));
      else if (op == "newsub") o[d] = new C(Only<C>::sub(*o[s], i * U, sc(j)));
      else if (op == "del") { delete o[d]; o[d] = 0; }
      else if (op == "asg") *o[d] = *o[s];
      else if (op == "slice") o[d]->slice(i * U, sc(j));
      else if (op == "sliceasg") mslice(*o[d], i * U, sc(j)) = *o[s];
      else if (op == "dropf") Only<C>::dropf(*o[d], scn(n));
      else if (op == "dropb") Only<C>::dropb(*o[d], scn(n));
      else if (op == "reserve") o[d]->reserve(scn(n));
      else if (op == "resize") o[d]->resize(scn(n));
      else if (op == "resizef") o[d]->resize(scn(n), E(item(x)));
      else if (op == "clear") o[d]->clear();
      else if (op == "appseq") { if (n == -1) o[d]->append(*o[s]); else o[d]->append(*o[s], scn(n)); }
      else if (op == "insseq") { if (n == -1) o[d]->insert(scn(i), *o[s]); else o[d]->insert(scn(i), *o[s], scn(n)); }
      else if (op == "replseq") { if (n == -1) o[d]->replace(scn(i), *o[s]); else o[d]->replace(scn(i), *o[s], scn(n)); }
      else if (op == "len") ret = pos(o[d]->length());
      else if (op == "at") ret = std::to_string((int)(unsigned char)((const C*)o[d])->at(scn(i)));
      else if (op == "find") ret = pos(i ? ((const C*)o[d])->find(E(item(x)), scn(i)) : ((const C*)o[d])->find(E(item(x))));
      else if (op == "rfind") ret = rpos(((const C*)o[d])->rfind(E(item(x))));
      else if (op == "fsub") ret = pos(Only<C>::fsub(*o[d], *o[s], scn(i)));
      else if (op == "eq") ret = *o[d] == *o[s] ? "1" : "0";
      else if (op == "cmp") ret = std::to_string(sgn(Only<C>::cmp(*o[d], *o[s], n)));
      else if (op == "rel") ret = Only<C>::rel(*o[d], *o[s]);
      else { fprintf(stderr, "bad op %s\n", op.c_str()); _exit(96); }
    } catch (const std::out_of_range&) { err = "range"; } catch (const std::bad_alloc&) { fprintf(stderr, "no memory\n"); _exit(98); }
    printf("{\"ret\":%s,\"err\":\"%s\",\"i\":%ld,\"j\":%ld,\"n\":%ld,\"post\":[", ret.c_str(), err.c_str(), i, j, n);
    for (int k = 1; k < 6; ++k) {
      std::string t;
      if (o[k]) { const C& c = *o[k]; size_t L = c.length(), u = L / U; if (u > 400) { t = "-98"; u = 0; }
        for (size_t q = 0; q < u; ++q) { int a = (unsigned char)c[q * U], b = (unsigned char)c[q * U + U - 1], e = (unsigned char)c[q * U + U / 2]; t += (q ? "," : "") + std::to_string(a == b && a == e ? a : 999); }
        if (L % U) t += (t.empty() ? "" : ",") + std::string("-99"); }
      printf("%s{\"l\":%d,\"v\":[%s],\"rc\":0,\"b\":0,\"sh\":0}", k > 1 ? "," : "", o[k] ? 1 : 0, t.c_str());
    }
    printf("]}\n"); fflush(stdout);
    if (op == "end") return 0;
  }
  return 96;
}
int main() {
  std::string line;
  while (std::getline(std::cin, line)) {
    int r = line == "session S" ? session<bd::String>() : line == "session I" ? session<Arr>() : 96;
    if (r) return r;
  }
  return 0;
}
