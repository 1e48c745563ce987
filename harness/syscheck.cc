// Startup system check, with the kernel files and resource limits it consults replaced by the harness.
#include <dlfcn.h>
#include <fcntl.h>
#include <stdarg.h>
#include <sys/resource.h>
#include "vh.h"
#include <fstream>
using namespace vh;

static std::string g_dir;
static bool g_on = false;
static const char* kFiles[] = {"/proc/sys/vm/max_map_count", "/proc/sys/vm/overcommit_memory", "/sys/kernel/mm/transparent_hugepage/enabled"};
static std::string Redirect(const char* p) {
  if (g_on && p)
    for (int i = 0; i < 3; ++i)
      if (!strcmp(p, kFiles[i])) { return g_dir + "/" + std::to_string(i); }
  return p ? p : "";
}
static uint64_t g_redirected = 0, g_getlimits = 0;
template <class F> static F Real(const char* n) { return (F)dlsym(RTLD_NEXT, n); }
extern "C" {
FILE* fopen(const char* p, const char* m) { std::string q = Redirect(p); if (p && q != p) g_redirected++; static auto f = Real<FILE* (*)(const char*, const char*)>("fopen"); return f(q.c_str(), m); }
FILE* fopen64(const char* p, const char* m) { std::string q = Redirect(p); if (p && q != p) g_redirected++; static auto f = Real<FILE* (*)(const char*, const char*)>("fopen64"); return f(q.c_str(), m); }
int open(const char* p, int fl, ...) { va_list a; va_start(a, fl); int md = va_arg(a, int); va_end(a); std::string q = Redirect(p); if (p && q != p) g_redirected++; static auto f = Real<int (*)(const char*, int, ...)>("open"); return f(q.c_str(), fl, md); }
int open64(const char* p, int fl, ...) { va_list a; va_start(a, fl); int md = va_arg(a, int); va_end(a); std::string q = Redirect(p); if (p && q != p) g_redirected++; static auto f = Real<int (*)(const char*, int, ...)>("open64"); return f(q.c_str(), fl, md); }

// Simulated limits: [0]=NPROC, [1]=NOFILE.
struct Lim { uint64_t cur, max; bool get_fails; bool privileged; int sets; };
}
static Lim g_lim[2];
static int Idx(int r) { return r == RLIMIT_NPROC ? 0 : r == RLIMIT_NOFILE ? 1 : -1; }
extern "C" {
int getrlimit(__rlimit_resource_t r, struct rlimit* l) noexcept {
  int i = Idx(r);
  if (!g_on || i < 0) { static auto f = Real<int (*)(int, struct rlimit*)>("getrlimit"); return f(r, l); }
  g_getlimits++;
  if (g_lim[i].get_fails) { errno = EFAULT; return -1; }
  l->rlim_cur = g_lim[i].cur;
  l->rlim_max = g_lim[i].max;
  return 0;
}
int setrlimit(__rlimit_resource_t r, const struct rlimit* l) noexcept {
  int i = Idx(r);
  if (!g_on || i < 0) { static auto f = Real<int (*)(int, const struct rlimit*)>("setrlimit"); return f(r, l); }
  g_lim[i].sets++;
  if (l->rlim_cur > l->rlim_max) { errno = EINVAL; return -1; }
  if (l->rlim_max > g_lim[i].max && !g_lim[i].privileged) { errno = EPERM; return -1; }
  g_lim[i].cur = l->rlim_cur;
  g_lim[i].max = l->rlim_max;
  return 0;
}
}
namespace dingodb {
int CheckMaxMapCount(std::string& error_msg);
int CheckOvercommit(std::string& error_msg);
int CheckThpEnabled(std::string& error_msg);
int CheckNproc(std::string& error_msg);
int CheckNofile(std::string& error_msg);
int DoSystemCheck();
}
using namespace dingodb;
static void SetFile(int i, bool present, const std::string& text) {
  std::string p = g_dir + "/" + std::to_string(i);
  unlink(p.c_str());
  if (present) { std::ofstream f(p); f << text; }
}
int main(int argc, char** argv) {
  Init(argc, argv);
  Rng r(Seed());
  g_dir = Arg("scratch", "/tmp");
  g_on = true;
  const uint64_t kNeed = 1048576;
  // max_map_count
  {
    std::vector<std::pair<std::string, int>> cs;
    for (long v : {0L, 1L, 65530L, 262144L, 655359L, 655360L, 655361L, 1000000L, 2147483647L}) cs.push_back({std::to_string(v) + "\n", v >= 655360 ? 1 : -1});
    for (int i = 0; i < (int)N(300, 3000); ++i) { long v = r.Chance(1, 2) ? 655360 + r.Range(-2000, 2000) : r.Below(2147483647); cs.push_back({std::to_string(v) + "\n", v >= 655360 ? 1 : -1}); }
    cs.push_back({"", 0});
    cs.push_back({"abc\n", 0});
    for (auto& c : cs) {
      SetCase("max_map_count=" + c.first);
      SetFile(0, true, c.first);
      std::string e;
      int rc = CheckMaxMapCount(e);
      if (rc != c.second) Fail("map-count", Fmt("verdict %d want %d", rc, c.second));
      if (rc == -1 && e.empty()) Fail("map-count", "failure without a reason");
      Count(rc == 1 ? "map_ok" : rc == -1 ? "map_low" : "map_unreadable");
      Case(HashStr(c.first));
    }
    SetFile(0, false, "");
    std::string e;
    if (CheckMaxMapCount(e) != 0) Fail("map-count", "unreadable setting must be skipped");
  }
  for (auto& c : std::vector<std::pair<std::string, int>>{{"0\n", -1}, {"1\n", 1}, {"2\n", -1}, {"1", 1}, {"10\n", -1}, {"", 0}}) {
    SetCase("overcommit=" + c.first);
    SetFile(1, true, c.first);
    std::string e;
    int rc = CheckOvercommit(e);
    if (rc != c.second) Fail("overcommit", Fmt("verdict %d want %d", rc, c.second));
    if (rc == -1 && e.empty()) Fail("overcommit", "failure without a reason");
    Count("overcommit");
    Case(HashStr("oc" + c.first));
  }
  SetFile(1, false, "");
  { std::string e; if (CheckOvercommit(e) != 0) Fail("overcommit", "unreadable setting must be skipped"); }
  for (auto& c : std::vector<std::pair<std::string, int>>{{"[always] madvise never\n", -1}, {"always [madvise] never\n", 1}, {"always madvise [never]\n", 1}, {"", 0}}) {
    SetCase("thp=" + c.first);
    SetFile(2, true, c.first);
    std::string e;
    int rc = CheckThpEnabled(e);
    if (rc != c.second) Fail("thp", Fmt("verdict %d want %d", rc, c.second));
    if (rc == -1 && e.empty()) Fail("thp", "failure without a reason");
    Count("thp");
    Case(HashStr("thp" + c.first));
  }
  SetFile(2, false, "");
  { std::string e; if (CheckThpEnabled(e) != 0) Fail("thp", "unreadable setting must be skipped"); }
  // Limits: a passing verdict means the limit in force is high enough; a failing one that it is not.
  std::vector<uint64_t> vals = {0, 1, 1024, 65535, 800000, kNeed - 1, kNeed, kNeed + 1, 4 * kNeed, (uint64_t)RLIM_INFINITY};
  for (int which = 0; which < 2; ++which)
    for (uint64_t cur : vals)
      for (uint64_t mx : vals)
        for (int priv = 0; priv < 2; ++priv) {
          if (cur > mx) continue;
          SetCase(Fmt("%s cur=%llu max=%llu privileged=%d", which ? "nofile" : "nproc", (unsigned long long)cur, (unsigned long long)mx, priv));
          g_lim[which] = {cur, mx, false, (bool)priv, 0};
          std::string e;
          int rc = which ? CheckNofile(e) : CheckNproc(e);
          uint64_t now = g_lim[which].cur;
          if (rc == 1 && now < kNeed) Fail(which ? "nofile-not-raised" : "nproc-not-raised", Fmt("reported sufficient, limit in force is %llu", (unsigned long long)now));
          if (rc != 1 && rc != -1) Fail("limit-verdict", Fmt("rc=%d", rc));
          if (rc == -1 && now >= kNeed) Fail("limit-verdict", "reported insufficient though it is enough");
          if (rc == -1 && (priv || mx >= kNeed)) Fail("limit-verdict", "could have been raised but was reported insufficient");
          if (rc == -1 && e.empty()) Fail("limit-verdict", "failure without a reason");
          if (now < cur) Fail("limit-lowered", Fmt("%llu -> %llu", (unsigned long long)cur, (unsigned long long)now));
          if (cur >= kNeed && g_lim[which].sets) Fail("limit-lowered", "a sufficient limit was changed");
          Count(cur >= kNeed ? "limit_enough" : rc == 1 ? "limit_raised" : "limit_denied");
          Case(Mix(Mix(which, cur), Mix(mx, priv)));
        }
  for (int which = 0; which < 2; ++which) {
    g_lim[which] = {0, 0, true, false, 0};
    std::string e;
    if ((which ? CheckNofile(e) : CheckNproc(e)) != -1 || e.empty()) Fail("limit-verdict", "unreadable limit must be reported");
  }
  // Every combination through the entry point: completes, attempts each check, never blocks startup.
  for (int m = 0; m < 243 * 2; ++m) {
    int d[5], x = m;
    for (int i = 0; i < 5; ++i) { d[i] = x % 3; x /= 3; }
    SetCase(Fmt("all checks %d%d%d%d%d", d[0], d[1], d[2], d[3], d[4]));
    SetFile(0, d[0] != 2, d[0] ? "700000\n" : "100\n");
    SetFile(1, d[1] != 2, d[1] ? "1\n" : "0\n");
    SetFile(2, d[2] != 2, d[2] ? "always [madvise] never\n" : "[always] madvise never\n");
    for (int w = 0; w < 2; ++w) { int v = d[3 + w]; g_lim[w] = {v == 1 ? kNeed : 1024, v == 1 ? kNeed : v == 0 ? 4096 : kNeed, false, false, 0}; }
    uint64_t f0 = g_redirected, l0 = g_getlimits;
    int rc = DoSystemCheck();
    if (rc < 0) Fail("startup-blocked", Fmt("rc=%d", rc));
    if (g_redirected - f0 < 3 || g_getlimits - l0 < 2) Fail("check-skipped", Fmt("files opened %llu, limits read %llu", (unsigned long long)(g_redirected - f0), (unsigned long long)(g_getlimits - l0)));
    for (int w = 0; w < 2; ++w)
      if (d[3 + w] == 2 && g_lim[w].cur < kNeed) Fail(w ? "nofile-not-raised" : "nproc-not-raised", Fmt("startup left the limit at %llu of a permitted %llu", (unsigned long long)g_lim[w].cur, (unsigned long long)g_lim[w].max));
    Count("combinations");
    Case(Mix(m, 5));
  }
  g_on = false;
  Sample("nofile cur=1024 max=1048576 unprivileged; max_map_count in {..655359,655360..}; thp always/madvise/never");
  return Finish();
}
