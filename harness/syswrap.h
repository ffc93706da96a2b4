// System-call interposition (ld --wrap): count, record and fail calls made by the library.
#ifndef VERIF_SYSWRAP_H
#define VERIF_SYSWRAP_H
#include "common.h"
#include <cerrno>
#include <cstdarg>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <dirent.h>
#include <cstdio>
namespace vf {
static bool g_sys = false;            // inside a library call
static long g_syscnt = 0, g_failat = 0; static int g_failkind = 1, g_failerrno = EIO; static std::string g_failed;
typedef void (*sys_hook_t)(const char* name, long a, long rc, const char* p1, const char* p2);
static sys_hook_t g_sys_hook = nullptr;
struct SysOff { bool o; SysOff() : o(g_sys) { g_sys = false; } ~SysOff() { g_sys = o; } };
// 0: run it, 1: fail it, 2: short transfer
static inline int sysEnter(const char* name) {
  if (!g_sys) return 0;
  ++g_syscnt;
  if (g_failat && g_syscnt == g_failat) { g_failed = name; return g_failkind; }
  return 0;
}
static inline void sysDone(const char* name, long a, long rc, const char* p1 = "", const char* p2 = "") { if (g_sys && g_sys_hook) { int e = errno; SysOff o; g_sys_hook(name, a, rc, p1, p2); errno = e; } }
static inline int countFds() { SysOff so; int n = 0; DIR* d = opendir("/proc/self/fd"); if (!d) return -1; while (readdir(d)) ++n; closedir(d); return n - 3; }
}
#define VF_FAIL(name) int vf_k = vf::sysEnter(name); if (vf_k == 1) errno = vf::g_failerrno
extern "C" {
#define W1(R, N, P, A, RA) R __real_##N P; R __wrap_##N P { VF_FAIL(#N); R r = vf_k == 1 ? (R)-1 : __real_##N A; vf::sysDone(#N, (long)RA, (long)r); return r; }
int __real_open(const char*, int, ...); int __wrap_open(const char* p, int f, ...) { va_list ap; va_start(ap, f); mode_t m = va_arg(ap, mode_t); va_end(ap); VF_FAIL("open"); int r = vf_k == 1 ? -1 : __real_open(p, f, m); vf::sysDone("open", f, r, p); return r; }
int __real_openat(int, const char*, int, ...); int __wrap_openat(int d, const char* p, int f, ...) { va_list ap; va_start(ap, f); mode_t m = va_arg(ap, mode_t); va_end(ap); VF_FAIL("openat"); int r = vf_k == 1 ? -1 : __real_openat(d, p, f, m); vf::sysDone("open", f, r, p); return r; }
W1(int, creat, (const char* p, mode_t m), (p, m), m)
W1(off_t, lseek, (int fd, off_t o, int w), (fd, o, w), fd)
W1(void*, mmap, (void* a, size_t n, int p, int f, int fd, off_t o), (a, n, p, f, fd, o), fd)
int __real_munmap(void*, size_t); int __wrap_munmap(void* a, size_t n) { int vf_k = vf::sysEnter("munmap"); int r = __real_munmap(a, n); if (vf_k == 1) { errno = EIO; r = -1; } vf::sysDone("munmap", 0, r); return r; }
int __real_close(int); int __wrap_close(int fd) { int vf_k = vf::sysEnter("close"); int r = __real_close(fd); if (vf_k == 1) { errno = EIO; r = -1; } vf::sysDone("close", fd, r); return r; }
W1(int, ftruncate, (int fd, off_t n), (fd, n), fd)
W1(int, truncate, (const char* p, off_t n), (p, n), n)
W1(int, fstat, (int fd, struct stat* s), (fd, s), fd)
W1(int, fsync, (int fd), (fd), fd)
W1(int, fdatasync, (int fd), (fd), fd)
W1(int, msync, (void* a, size_t n, int f), (a, n, f), f)
W1(int, fchmod, (int fd, mode_t m), (fd, m), fd)
W1(int, chmod, (const char* p, mode_t m), (p, m), m)
W1(int, dup, (int fd), (fd), fd)
W1(int, posix_fallocate, (int fd, off_t o, off_t n), (fd, o, n), fd)
ssize_t __real_write(int, const void*, size_t); ssize_t __wrap_write(int fd, const void* p, size_t n) { VF_FAIL("write"); ssize_t r = vf_k == 1 ? -1 : __real_write(fd, p, vf_k == 2 && n > 1 ? n / 2 : n); vf::sysDone("write", fd, r); return r; }
ssize_t __real_pwrite(int, const void*, size_t, off_t); ssize_t __wrap_pwrite(int fd, const void* p, size_t n, off_t o) { VF_FAIL("pwrite"); ssize_t r = vf_k == 1 ? -1 : __real_pwrite(fd, p, vf_k == 2 && n > 1 ? n / 2 : n, o); vf::sysDone("write", fd, r); return r; }
ssize_t __real_read(int, void*, size_t); ssize_t __wrap_read(int fd, void* p, size_t n) { VF_FAIL("read"); ssize_t r = vf_k == 1 ? -1 : __real_read(fd, p, vf_k == 2 && n > 1 ? n / 2 : n); vf::sysDone("read", fd, r); return r; }
ssize_t __real_pread(int, void*, size_t, off_t); ssize_t __wrap_pread(int fd, void* p, size_t n, off_t o) { VF_FAIL("pread"); ssize_t r = vf_k == 1 ? -1 : __real_pread(fd, p, vf_k == 2 && n > 1 ? n / 2 : n, o); vf::sysDone("read", fd, r); return r; }
int __real_mkstemp(char*); int __wrap_mkstemp(char* t) { VF_FAIL("mkstemp"); int r = vf_k == 1 ? -1 : __real_mkstemp(t); vf::sysDone("mkstemp", 0, r, t); return r; }
int __real_mkostemp(char*, int); int __wrap_mkostemp(char* t, int f) { VF_FAIL("mkostemp"); int r = vf_k == 1 ? -1 : __real_mkostemp(t, f); vf::sysDone("mkstemp", f, r, t); return r; }
static std::string vf_dir(const char* p) { std::string s(p); size_t k = s.rfind('/'); s = k == std::string::npos ? "." : s.substr(0, k + 1); char* r = realpath(s.c_str(), nullptr); std::string o = r ? r : s; free(r); return o; }
// every directory is treated as its own file system: renaming across directories fails
int __real_rename(const char*, const char*); int __wrap_rename(const char* a, const char* b) { VF_FAIL("rename"); int r; if (vf_k == 1) r = -1; else if (vf::g_sys && vf_dir(a) != vf_dir(b)) { errno = EXDEV; r = -1; } else r = __real_rename(a, b); vf::sysDone("rename", 0, r, a, b); return r; }
int __real_link(const char*, const char*); int __wrap_link(const char* a, const char* b) { VF_FAIL("link"); int r; if (vf_k == 1) r = -1; else if (vf::g_sys && vf_dir(a) != vf_dir(b)) { errno = EXDEV; r = -1; } else r = __real_link(a, b); vf::sysDone("link", 0, r, a, b); return r; }
// removal of names is recorded but never made to fail
int __real_unlink(const char*); int __wrap_unlink(const char* p) { int r = __real_unlink(p); vf::sysDone("unlink", 0, r, p); return r; }
int __real_remove(const char*); int __wrap_remove(const char* p) { int r = __real_remove(p); vf::sysDone("unlink", 0, r, p); return r; }
// stdio streams the library opens run over the wrapped calls
static ssize_t vf_ck_read(void* c, char* b, size_t n) { return __wrap_read((int)(long)c, b, n); }
static ssize_t vf_ck_write(void* c, const char* b, size_t n) { ssize_t r = __wrap_write((int)(long)c, b, n); return r < 0 ? 0 : r; }
static int vf_ck_seek(void* c, off64_t* o, int w) { off_t r = __wrap_lseek((int)(long)c, *o, w); if (r < 0) return -1; *o = r; return 0; }
static int vf_ck_close(void* c) { return __wrap_close((int)(long)c); }
FILE* __real_fdopen(int, const char*); FILE* __wrap_fdopen(int fd, const char* m) { if (!vf::g_sys) return __real_fdopen(fd, m); VF_FAIL("fdopen"); if (vf_k == 1) return nullptr;
  cookie_io_functions_t io = {vf_ck_read, vf_ck_write, vf_ck_seek, vf_ck_close}; return fopencookie((void*)(long)fd, m, io); }
FILE* __real_fopen(const char*, const char*); FILE* __wrap_fopen(const char* p, const char* m) { if (!vf::g_sys) return __real_fopen(p, m);
  int fl = m[0] == 'r' ? (strchr(m, '+') ? O_RDWR : O_RDONLY) : (strchr(m, '+') ? O_RDWR : O_WRONLY) | O_CREAT | (m[0] == 'w' ? O_TRUNC : O_APPEND);
  int fd = __wrap_open(p, fl, 0666); if (fd < 0) return nullptr; FILE* f = __wrap_fdopen(fd, m); if (!f) __real_close(fd); return f; }
}
#endif
