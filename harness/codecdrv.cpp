// Driver for base64 and the C string helpers: buffers have exactly the size a caller must provide.
#include "proto.h"
#include "String.h"
#include "base64.h"
#include "Cstrings.h"
static volatile long g_live = 0;                 // malloc'd blocks of the library that are alive
static volatile bool g_cnt = false;
// every allocation is seen through the sanitizer's hooks; without a sanitizer nothing is counted
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*)) __attribute__((weak));
static void onMalloc(const volatile void* p, size_t) { if (g_cnt && p) g_live = g_live + 1; }
static void onFree(const volatile void* p) { if (g_cnt && p) g_live = g_live - 1; }
static bool g_hooks = false;
using namespace vf;
struct Cnt { Cnt() { g_cnt = true; } ~Cnt() { g_cnt = false; } };
struct HBuf { char* p; size_t n; HBuf(const std::string& s, bool nul) : n(s.size() + nul) { p = (char*)malloc(n ? n : 1); memcpy(p, s.data(), s.size()); if (nul) p[s.size()] = 0; } ~HBuf() { free(p); } };
struct Sess {
  char* slot[3]; long base;
  Sess(const std::string&) : slot{nullptr, nullptr, nullptr} { g_live = 0; base = 0; }
  bool pre(const Ev&) { return true; }
  void end(const Ev&) { for (auto& s : slot) { Cnt c; free(s); s = nullptr; } }
  void post() { put(",\"live\":"); putInt(g_hooks ? g_live : -1); }
  void out(const char* p, size_t n, bool term, const std::string& src) { put("\"ret\":"); putBytes(p, n); put(",\"term\":"); putInt(term); put(",\"src\":"); putB(src); }
  bool sliced(const Ev& e) { return e.i("form") == 1; }
  void op(const Ev& e) {
    std::string v = e.b("v"), al = e.b("al"); const char* cs = al.empty() ? nullptr : al.c_str();
    int form = e.i("form"); size_t len = v.size();
    if (e.op == "enc" || e.op == "dec") {
      bool en = e.op == "enc";
      if (form <= 1) {
        bd::String s; if (form == 0) s = bd::String(v.data(), v.size()); else { bd::String b("xyz"); b.append(v.data(), v.size()); b.append("tail=/+"); s = b(3, (ssize_t)v.size()); }
        static char got[4096]; size_t n;
        { Cnt c; bd::String r = en ? bd::base64Encode(s, cs) : bd::base64Decode(s, cs); n = r.length(); if (n <= sizeof got) memcpy(got, r.data(), n); }
        std::string src(s.begin(), s.end());
        out(got, n <= sizeof got ? n : 0, true, src);
      } else if (form == 2) {
        HBuf in(v, false); char* p;
        { Cnt c; p = en ? bd::b64enc((unsigned char*)in.p, &len, cs) : bd::b64dec((unsigned char*)in.p, &len, cs); }
        out(p, len, p[len] == 0, std::string(in.p, in.n));
        Cnt c; free(p);
      } else {
        HBuf in(v, false); size_t cap = en ? (v.size() + 2) / 3 * 4 : (v.size() + 3) / 4 * 3;
        HBuf o(std::string(cap, '\x5a'), false);
        { Cnt c;
          if (en) bd::b64enc_buf((unsigned char*)in.p, &len, o.p, cs);
          else if (!cs) bd::b64dec_buf((unsigned char*)in.p, &len, o.p);
          else { char idx[256]; memset(idx, -1, sizeof idx); for (int i = 0; i < 64; ++i) idx[(unsigned char)al[i]] = i; bd::b64dec_buf((unsigned char*)in.p, &len, o.p, idx); } }
        if (len > cap) { put("\"ret\":[],\"term\":0,\"src\":[]"); return; }
        out(o.p, len, true, std::string(in.p, in.n));
      }
    } else if (e.op == "strlcpy" || e.op == "strlcat") {
      HBuf d(e.b("w"), false), s(v, true); size_t r, z = e.i("n");
      { Cnt c; r = e.op == "strlcpy" ? bd::strlcpy(d.p, s.p, z) : bd::strlcat(d.p, s.p, z); }
      put("\"n2\":"); putInt((long)r); put(","); out(d.p, d.n, true, std::string(s.p, s.n - 1));
    } else if (e.op == "strdup" || e.op == "strldup") {
      HBuf s(v, true); char* p; size_t m = e.i("n") == -1 ? (size_t)-1 : (size_t)e.i("n");
      { Cnt c; p = e.op == "strdup" ? bd::strdup(s.p) : bd::strldup(s.p, m); }
      size_t l = strlen(p); std::string r(p, l); memset(p, '#', l);       // independent of the source
      out(r.data(), r.size(), true, std::string(s.p, s.n - 1));
      Cnt c; free(p);
    } else if (e.op == "redup") {
      int k = e.i("d"); HBuf s(v, true);
      { Cnt c; bd::str_redup(&slot[k], e.i("nul") ? nullptr : s.p); }
      if (!e.i("nul")) memset(s.p, '#', s.n - 1);
      put("\"null\":"); putInt(slot[k] == nullptr); put(",");
      out(slot[k] ? slot[k] : "", slot[k] ? strlen(slot[k]) : 0, true, "");
    } else if (e.op == "calloc") {
      size_t a = e.i("a"), b = e.i("b"); char* p; { Cnt c; p = (char*)bd::calloc(a, b); }
      out(p, a * b, true, ""); memset(p, 1, a * b); Cnt c; free(p);
    } else if (e.op == "realloc") {
      size_t m = e.i("n"); char *p = nullptr, *r;
      { Cnt c; if (!e.i("nul")) { p = (char*)malloc(v.size() ? v.size() : 1); memcpy(p, v.data(), v.size()); }
        r = (char*)bd::realloc(p, m); }
      out(r, e.i("nul") ? 0 : std::min(m, v.size()), true, ""); memset(r, 2, m); Cnt c; free(r);
    } else throw BadArg();
  }
};
int main() { initDriver(); if (__sanitizer_install_malloc_and_free_hooks) g_hooks = __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree) != 0; return mainLoop<Sess>(); }
