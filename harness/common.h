// Shared parts of the trace drivers: allocation tracking, JSON output, crash/hang reporting.
#ifndef VERIF_COMMON_H
#define VERIF_COMMON_H
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <string>
#include <vector>
#include <map>
#include <new>
#include <csignal>
#include <unistd.h>
#include <sys/time.h>

namespace vf {
// ---- allocation table (own memory from malloc, so it does not track itself) ----
struct Blk { char* p; size_t n; unsigned id; };
static Blk* g_blk = nullptr; static size_t g_nblk = 0, g_cap = 0; static unsigned g_next = 1;
static bool g_on = false;           // only allocations made while an operation runs are tracked
typedef void (*free_hook_t)(void*, size_t, unsigned);
static free_hook_t g_free_hook = nullptr;
typedef void (*alloc_hook_t)(void*, size_t, unsigned);
static alloc_hook_t g_alloc_hook = nullptr;
static inline void track(void* p, size_t n) {
  if (!g_on) return;
  if (g_nblk == g_cap) { g_cap = g_cap ? g_cap * 2 : 1024; g_blk = (Blk*)realloc((void*)g_blk, g_cap * sizeof(Blk)); }
  g_blk[g_nblk++] = Blk{(char*)p, n, g_next++};
  if (g_alloc_hook) g_alloc_hook(p, n, g_next - 1);
}
static inline void untrack(void* p) {
  for (size_t i = g_nblk; i-- > 0;) if (g_blk[i].p == (char*)p) {
    if (g_free_hook) g_free_hook(p, g_blk[i].n, g_blk[i].id);
    g_blk[i] = g_blk[--g_nblk]; return;
  }
}
struct Off { bool o; Off() : o(g_on) { g_on = false; } ~Off() { g_on = o; } };
static inline unsigned blockOf(const void* q) {
  const char* c = (const char*)q;
  if (!c) return 0;
  for (size_t i = 0; i < g_nblk; ++i) if (c >= g_blk[i].p && c < g_blk[i].p + g_blk[i].n) return g_blk[i].id;
  return 0;
}

// ---- output ----
static std::string g_out;   // reserved up front; flushed per line
static inline void put(const char* s) { g_out += s; }
static inline void putInt(long v) { char b[32]; snprintf(b, sizeof b, "%ld", v); g_out += b; if (g_out.size() > (48u << 20)) { fprintf(stderr, "an object claims an absurd length\n"); _exit(95); } }
static inline void flushLine() {
  g_out += '\n';
  size_t off = 0;
  while (off < g_out.size()) { ssize_t w = ::write(1, g_out.data() + off, g_out.size() - off); if (w <= 0) _exit(98); off += w; }
  g_out.clear();
}
static inline void putBytes(const char* p, size_t n) {
  g_out += '[';
  for (size_t i = 0; i < n; ++i) { if (i) g_out += ','; putInt((unsigned char)p[i]); }
  g_out += ']';
}
static inline void onHang(int) { _exit(97); }
static inline void armHang(int sec) {
  struct itimerval t; memset(&t, 0, sizeof t); t.it_value.tv_sec = sec; setitimer(ITIMER_VIRTUAL, &t, nullptr);
}
static inline std::vector<std::string> tokens(const std::string& l) {
  std::vector<std::string> r; size_t i = 0;
  while (i < l.size()) { while (i < l.size() && l[i] == ' ') ++i; size_t j = i; while (j < l.size() && l[j] != ' ') ++j; if (j > i) r.push_back(l.substr(i, j - i)); i = j; }
  return r;
}
static inline int hexv(char c) { return c <= '9' ? c - '0' : c - 'a' + 10; }
static inline std::string unhex(const std::string& h) { std::string r; for (size_t i = 0; i + 1 < h.size(); i += 2) r += (char)(hexv(h[i]) * 16 + hexv(h[i + 1])); return r; }
static inline void initDriver() {
  g_out.reserve(1 << 20); signal(SIGVTALRM, onHang);
}
}
#ifdef VERIF_TRACK_NEW
void* operator new(size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); vf::track(p, n); return p; }
void* operator new[](size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); vf::track(p, n); return p; }
void operator delete(void* p) noexcept { if (!p) return; vf::untrack(p); free(p); }
void operator delete[](void* p) noexcept { if (!p) return; vf::untrack(p); free(p); }
void operator delete(void* p, size_t) noexcept { if (!p) return; vf::untrack(p); free(p); }
void operator delete[](void* p, size_t) noexcept { if (!p) return; vf::untrack(p); free(p); }
#endif
#endif
