// Executes scripts on the real bd::Stream (and real files in a scratch directory).
#define VERIF_TRACK_NEW
#include "proto.h"
#include "syswrap.h"
#include "Stream.h"
#include <sys/resource.h>
using namespace vf;
typedef bd::String Str; typedef bd::Stream Stm;
struct Sub : public bd::Stream { int during = 1; bool flag() const { return loading; }
  void puts(const Str& s) { if (!loading) during = 0; bd::Stream::puts(s); }
  void puts(Str&& s) { if (!loading) during = 0; bd::Stream::puts(std::move(s)); } };
static const int K = 3, NV = 2, NF = 3;
static Str mk(const std::string& b) { return Str(b.data(), b.size()); }
static std::string pattern(long n, long seed) { std::string s; s.resize(n); for (long i = 0; i < n; ++i) s[i] = (char)((i * 7 + seed * 13 + i / 251 + (i >> 12)) & 255); return s; }
// long contents are reported as a digest <<-1, length, h1, h2>>
static void putV(const char* p, size_t n) {
  if (n <= 300) { putBytes(p, n); return; }
  unsigned long h = 1469598103934665603UL, g = 88172645463325252UL; for (size_t i = 0; i < n; ++i) { h = (h ^ (unsigned char)p[i]) * 1099511628211UL; g = g * 6364136223846793005UL + (unsigned char)p[i] + 1; }
  put("[-1,"); putInt(n); put(","); putInt((h ^ (h >> 30)) & 0xfffffff); put(","); putInt((g >> 20) & 0xfffffff); put("]"); }
static std::string slurp(const std::string& p, bool& ok) { SysOff so; std::string r; int fd = ::open(p.c_str(), O_RDONLY); ok = fd >= 0; if (!ok) return r; char b[65536]; ssize_t n; while ((n = ::read(fd, b, sizeof b)) > 0) r.append(b, n); ::close(fd); return r; }
struct Sess {
  Stm* t[K + 1] = {}; Str* sv[NV + 1] = {}; std::string dir; int fd0; bool files; std::string pv;
  Sess(const std::string& h) : files(h == "files") {
    if (files) { const char* b = getenv("VF_SCRATCH"); std::string tpl = std::string(b ? b : "/tmp") + "/vfstm.XXXXXX"; std::vector<char> v(tpl.begin(), tpl.end()); v.push_back(0); if (!mkdtemp(v.data())) _exit(98); dir = v.data(); }
    fd0 = files ? countFds() : 0; }
  std::string fn(long k) { return dir + "/" + (k == 9 ? "none/x" : k == 8 ? "." : std::string(1, (char)('a' + k))); }
  bool pre(const Ev& e) {
    g_on = true; if (!sv[1]) for (int i = 1; i <= NV; ++i) sv[i] = new Str(); g_on = false;
    int d = e.i("d", 1), s = e.i("s", 0);
    if (e.op == "sset" || e.op == "smut" || e.op == "fset" || e.op == "frm" || e.op == "lsub") return true;
    if (e.op.compare(0, 3, "new") == 0) return !t[d] && (!(e.op == "newcopy" || e.op == "newmove") || (s && t[s]));
    if (!t[d]) return false;
    if (e.op == "asg" || e.op == "swap" || e.op == "putst" || e.op == "asgconv") return s && t[s];
    return true; }
  void rs(const Str& s) { put("\"ret\":"); putBytes(s.cbegin(), s.length()); }
  void op(const Ev& e) {
    int d = e.i("d", 1), s = e.i("s", 0), m = e.i("m", 0), x = e.i("x", 1); long n = e.i("n"); const std::string& op = e.op;
    { Off o; pv.clear(); }
    if (op == "new") t[d] = new Stm();
    else if (op == "newsize") t[d] = new Stm((int)n);
    else if (op == "newcopy") t[d] = new Stm(*t[s]);
    else if (op == "newmove") t[d] = new Stm(std::move(*t[s]));
    else if (op == "newstr") t[d] = new Stm(*sv[x]);
    else if (op == "newstrmv") t[d] = new Stm(std::move(*sv[x]));
    else if (op == "newlit") t[d] = new Stm(mk(e.b("v")));
    else if (op == "del") { delete t[d]; t[d] = nullptr; }
    else if (op == "asg") *t[d] = *static_cast<const Stm*>(t[s]);
    else if (op == "swap") { using std::swap; swap(*t[d], *t[s]); }
    else if (op == "puts") { if (m == 0) { Str v = mk(e.b("v")); t[d]->puts(v); } else if (m == 1) t[d]->puts(mk(e.b("v"))); else if (m == 2) { Str v = mk(e.b("v")); *t[d] << v; } else *t[d] << mk(e.b("v")); }
    else if (op == "putvar") { if (m == 0) t[d]->puts(*sv[x]); else if (m == 1) t[d]->puts(std::move(*sv[x])); else if (m == 2) *t[d] << *sv[x]; else *t[d] << std::move(*sv[x]); }
    else if (op == "putst") { if (m == 0) t[d]->puts(Str(*t[s])); else { Str v(*t[s]); t[d]->puts(v); } }
    else if (op == "read") rs(e.has("c") ? t[d]->read((size_t)n, (char)e.i("c")) : t[d]->read((size_t)n));
    else if (op == "getline") rs(e.has("n") ? t[d]->getline((size_t)n) : t[d]->getline());
    else if (op == "peek") rs(t[d]->peek());
    else if (op == "seek") ret(t[d]->seek((int)n, (int)e.i("w")));
    else if (op == "tell") ret(t[d]->tell());
    else if (op == "trunc") t[d]->truncate();
    else if (op == "clear") t[d]->clear();
    else if (op == "reserve") t[d]->reserve((size_t)n);
    else if (op == "len") ret(t[d]->length());
    else if (op == "not") ret(!*t[d]);
    else if (op == "conv") { *sv[x] = Str(*t[d]); }
    else if (op == "readvar") { *sv[x] = t[d]->read((size_t)n); }
    else if (op == "sset") *sv[x] = mk(e.b("v"));
    else if (op == "smut") { if (m == 0) *sv[x] += mk(e.b("v")); else if (sv[x]->length()) { if (m == 1) (*sv[x])[0] = e.b("v")[0]; else ++*sv[x]; } }
    else if (op == "putpat") { std::string p; Str v; { Off o; p = pattern(n, e.i("seed")); pv = p; } v = Str(p.data(), p.size()); if (m == 0) t[d]->puts(v); else t[d]->puts(std::move(v)); }
    else if (op == "fset") { Off o; std::string p = e.has("v") ? e.b("v") : pattern(n, e.i("seed")); pv = p; int fd = ::open(fn(e.i("f")).c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0640); fchmod(fd, 0640); size_t q = 0; while (q < p.size()) { ssize_t w = ::write(fd, p.data() + q, p.size() - q); if (w <= 0) _exit(98); q += w; } ::close(fd); }
    else if (op == "frm") ::unlink(fn(e.i("f")).c_str());
    else if (op == "wfile" || op == "lfile" || op == "wfd" || op == "lfd") {
      int fd = -1; long keep = 1; std::string name; { Off o; name = fn(e.i("f")); }
      if (op == "wfd" || op == "lfd") { fd = ::open(name.c_str(), op == "wfd" ? O_RDWR | O_CREAT : O_RDONLY, 0640); if (fd >= 0) ::lseek(fd, e.i("off"), SEEK_SET); }
      Str fnm(name.c_str()); int r; struct rlimit rl, old; bool lim = e.has("fsize");
      if (lim) { getrlimit(RLIMIT_FSIZE, &old); rl = old; rl.rlim_cur = e.i("fsize"); setrlimit(RLIMIT_FSIZE, &rl); }
      g_syscnt = 0; g_failat = e.i("fail"); g_failkind = e.i("fk", 1); { Off o; g_failed.clear(); }
      g_sys = true;
      try { r = op == "wfile" ? (e.has("mode") ? t[d]->writeFile(fnm, (mode_t)e.i("mode")) : t[d]->writeFile(fnm)) : op == "lfile" ? t[d]->loadFile(fnm) : op == "wfd" ? t[d]->writeFile(fd) : t[d]->loadFile(fd); } catch (...) { g_sys = false; g_failat = 0; if (lim) setrlimit(RLIMIT_FSIZE, &old); throw; }
      g_sys = false; g_failat = 0;
      if (lim) setrlimit(RLIMIT_FSIZE, &old);
      if (fd >= 0) { keep = fcntl(fd, F_GETFD) != -1; ::close(fd); }
      Off o; if (lim) g_failed = "rlimit"; if (e.i("f") == 8) g_failed = "dir"; put("\"ret\":"); putInt(r); put(",\"hit\":\""); put(g_failed.c_str()); put("\",\"cnt\":"); putInt(g_syscnt); put(",\"keep\":"); putInt(keep); }
    else if (op == "lsub") {      // a derived stream: its loading flag as its own puts() and the program see it
      std::string name; { Off o; name = fn(e.i("f")); }
      Str fnm(name.c_str()); Sub u; if (m) u.puts(Str("before")); u.during = 1;
      g_syscnt = 0; g_failat = e.i("fail"); g_failkind = e.i("fk", 1); g_sys = true;
      try { u.loadFile(fnm); } catch (...) { g_sys = false; g_failat = 0; throw; }
      g_sys = false; g_failat = 0;
      Off o; put("\"ret\":["); putInt(u.during); put(","); putInt(u.flag()); put("]"); }
    else throw BadArg(); }
  long mapped() {      // files of this session still mapped
    long n = 0; FILE* f = ::fopen("/proc/self/maps", "r"); if (!f) return 0;
    char* l = nullptr; size_t c = 0; while (::getline(&l, &c, f) > 0) if (strstr(l, dir.c_str())) ++n;
    free(l); fclose(f); return n; }
  void post() {
    put(",\"post\":["); for (int k = 1; k <= K; ++k) { if (k > 1) put(","); put("{\"l\":"); putInt(t[k] != nullptr); put(",\"v\":");
      if (t[k]) { Str s(*t[k]); putV(s.cbegin(), s.length()); } else put("[]");
      put(",\"pos\":"); putInt(t[k] ? (long)t[k]->tell() : 0); put(",\"cap\":"); putInt(t[k] ? (long)t[k]->capacity() : 0); put(",\"n\":"); putInt(t[k] ? (long)t[k]->length() : 0); put("}"); }
    put("],\"sv\":["); for (int i = 1; i <= NV; ++i) { if (i > 1) put(","); if (sv[i]) putBytes(sv[i]->cbegin(), sv[i]->length()); else put("[]"); }
    put("]");
    if (files) { put(",\"fs\":["); for (int k = 0; k < NF; ++k) { if (k) put(","); bool ok; std::string c = slurp(fn(k), ok); struct stat st; int md = ok && stat(fn(k).c_str(), &st) == 0 ? st.st_mode & 07777 : 0; put("{\"e\":"); putInt(ok); put(",\"v\":"); putV(c.data(), c.size()); put(",\"mode\":"); putInt(md); put("}"); }
      put("],\"fds\":"); putInt(countFds() - fd0 + mapped()); put(",\"pv\":"); putV(pv.data(), pv.size()); } }
  void end(const Ev& e) { g_on = true; for (int k = 1; k <= K; ++k) { delete t[k]; t[k] = nullptr; } for (int i = 1; i <= NV; ++i) { delete sv[i]; sv[i] = nullptr; } g_on = false; }
  ~Sess() { if (files) { for (int k = 0; k < NF; ++k) ::unlink(fn(k).c_str()); rmdir(dir.c_str()); } }
};
int main() { initDriver(); signal(SIGXFSZ, SIG_IGN); umask(022); return mainLoop<Sess>(); }
