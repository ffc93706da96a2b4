// Executes scripts on the real bd::AtomicFile in a scratch directory and records the state of the
// directory after every system call the library makes.
#include "proto.h"
#include "syswrap.h"
#include "AtomicFile.h"
#include <sys/stat.h>
#include <set>
using namespace vf;
typedef bd::String Str;
static const int K = 2, NF = 9;
static std::string g_dir;
static const char* names[NF] = {"t0", "sub/t1", "@t2", "./t3", "a%sb %d.cfg", ".hid", "sub/../sub/deep/t6", "none/x", "adir"};
static std::string longName() { return std::string(250, 'n'); }
static std::string pathOf(long f) { if (f == 9) return longName(); std::string n = names[f]; if (n[0] == '@') return g_dir + "/" + n.substr(1); return n; }
static std::string slurpFd(int fd) { std::string r; char b[4096]; ssize_t n; off_t o = 0; while ((n = __real_pread(fd, b, sizeof b, o)) > 0) { r.append(b, n); o += n; } return r; }
static void walk(const std::string& d, std::set<std::string>& out) {
  DIR* D = opendir(d.c_str()); if (!D) return; struct dirent* e;
  while ((e = readdir(D))) { std::string n = e->d_name; if (n == "." || n == "..") continue; std::string p = d == "." ? n : d + "/" + n; struct stat st; if (lstat(p.c_str(), &st)) continue; if (S_ISDIR(st.st_mode)) walk(p, out); else out.insert(p); }
  closedir(D); }
static void putSnap() {   // "T":[targets],"x":[unknown names]
  put("\"T\":["); std::set<std::string> all; walk(".", all);
  for (int f = 0; f <= NF; ++f) { if (f) put(","); std::string p = pathOf(f); struct stat st; int fd = -1; bool ok = stat(p.c_str(), &st) == 0 && S_ISREG(st.st_mode);
    std::string c; if (ok) { fd = __real_open(p.c_str(), O_RDONLY); c = slurpFd(fd); __real_close(fd); }
    put("{\"e\":"); putInt(ok); put(",\"ino\":"); putInt(ok ? (long)(st.st_ino % 1000000007) : 0); put(",\"v\":"); putB(c); put(",\"mode\":"); putInt(ok ? st.st_mode & 07777 : 0); put("}");
    std::string q = p; if (q.compare(0, 2, "./") == 0) q = q.substr(2); if (f == 2) q = "t2"; if (f == 6) q = "sub/deep/t6"; all.erase(q); }
  put("],\"x\":"); putInt(all.size()); }
static std::string g_log; static bool g_first = true;
static void hook(const char* n, long a, long rc, const char* p1, const char* p2) {
  std::string keep = g_out; g_out.clear();
  put(g_first ? "{" : ",{"); g_first = false;
  put("\"n\":\""); put(n); put("\",\"rc\":"); putInt(rc == -1 ? -1 : 0);
  long ino = 0; std::string iv; int im = 0; int fd = -1;
  if (rc != -1 && (!strcmp(n, "fsync") || !strcmp(n, "fdatasync"))) fd = (int)a;
  if (fd >= 0) { struct stat st; if (!__real_fstat(fd, &st) && S_ISREG(st.st_mode)) { ino = st.st_ino % 1000000007; iv = slurpFd(fd); im = st.st_mode & 07777; } }
  put(",\"ino\":"); putInt(ino); put(",\"iv\":"); putB(iv); put(",\"im\":"); putInt(im); put(","); putSnap(); put("}");
  g_log += g_out; g_out = keep; }
struct Sess {
  bd::AtomicFile* t[K + 1] = {}; int fd0;
  Sess(const std::string& h) {
    const char* b = getenv("VF_SCRATCH"); std::string tpl = std::string(b ? b : "/tmp") + "/vfaf.XXXXXX"; std::vector<char> v(tpl.begin(), tpl.end()); v.push_back(0);
    if (!mkdtemp(v.data())) _exit(98); g_dir = v.data(); if (chdir(g_dir.c_str())) _exit(98);
    mkdir("sub", 0755); mkdir("sub/deep", 0755); mkdir("adir", 0755); mkdir("adir/in", 0755); mkdir("tmp", 0755); setenv("TMPDIR", (g_dir + "/tmp").c_str(), 1);
    umask(h == "077" ? 077 : h == "0" ? 0 : 022); fd0 = countFds();
    for (int k = 1; k <= K; ++k) t[k] = new bd::AtomicFile(); }
  bool pre(const Ev& e) { if (e.op == "write") return t[e.i("d", 1)]->is_open(); return true; }
  void op(const Ev& e) {
    int d = e.i("d", 1); bool r = false; std::string path = e.has("f") ? pathOf(e.i("f")) : "";
    g_log.clear(); g_first = true; g_syscnt = 0; g_failat = e.i("fail"); g_failkind = 1; g_failed.clear(); g_failerrno = e.i("eno", EIO);
    if (e.op == "fset") { SysOff o; std::string v = e.b("v"); int fd = ::open(path.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0640); __real_fchmod(fd, 0640); if (__real_write(fd, v.data(), v.size()) < 0) {} ::close(fd); r = true; }
    else if (e.op == "frm") { __real_unlink(path.c_str()); r = true; }
    else if (e.op == "write") { std::string v = e.b("v"); r = __real_write(t[d]->fd(), v.data(), v.size()) == (ssize_t)v.size(); }
    else if (e.op == "isopen") { r = t[d]->is_open(); }
    else if (e.op == "fd") { int fd = t[d]->fd(); r = fd >= 0 && fcntl(fd, F_GETFD) != -1; }
    else { Str nm(path.c_str()); g_sys_hook = hook; g_sys = true;
      if (e.op == "open") r = e.has("mode") ? t[d]->open(nm, (mode_t)e.i("mode")) : t[d]->open(nm);
      else if (e.op == "commit") r = t[d]->commit();
      else if (e.op == "abort") r = t[d]->abort();
      else if (e.op == "del") { delete t[d]; g_sys = false; t[d] = new bd::AtomicFile(); r = true; }
      else { g_sys = false; throw BadArg(); }
      g_sys = false; g_sys_hook = nullptr; }
    g_failat = 0;
    ret(r); put(",\"hit\":\""); put(g_failed.c_str()); put("\",\"sys\":["); put(g_log.c_str()); put("]"); }
  void post() { put(","); putSnap(); put(",\"fds\":"); putInt(countFds() - fd0); put(",\"op1\":"); putInt(t[1] && t[1]->is_open()); put(",\"op2\":"); putInt(t[2] && t[2]->is_open()); }
  void end(const Ev& e) { for (int k = 1; k <= K; ++k) { delete t[k]; t[k] = nullptr; } }
  ~Sess() { std::set<std::string> all; walk(".", all); for (auto& p : all) __real_unlink(p.c_str()); for (const char* d : {"sub/deep", "sub", "adir/in", "adir", "tmp"}) rmdir(d); if (chdir("/")) {} rmdir(g_dir.c_str()); }
};
int main() { initDriver(); return mainLoop<Sess>(); }
