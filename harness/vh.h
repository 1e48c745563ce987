// Harness support: seeded randomness, case accounting, violation recording, result file.
#pragma once
#include <signal.h>
#include <stdarg.h>
#include <sys/select.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/wait.h>
#include <unistd.h>

#include <atomic>
#include <chrono>
#include <functional>
#include <map>
#include <mutex>
#include <random>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>

namespace vh {

struct Rng {
  uint64_t s;
  // The seed is hashed: consecutive seeds must not give one stream shifted by one.
  explicit Rng(uint64_t seed = 1) : s(seed ^ 0x1234567) { s = Next(); s = Next() ^ seed; Next(); }
  uint64_t Next() {
    s += 0x9E3779B97F4A7C15ull;
    uint64_t z = s;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t Below(uint64_t n) { return n ? Next() % n : 0; }
  int64_t Range(int64_t lo, int64_t hi) { return lo + (int64_t)Below((uint64_t)(hi - lo + 1)); }
  bool Chance(int num, int den) { return (int)Below(den) < num; }
  double Unit() { return (Next() >> 11) * (1.0 / 9007199254740992.0); }
  std::string Bytes(size_t n) {
    std::string r(n, 0);
    for (auto& c : r) c = (char)Next();
    return r;
  }
  template <class T>
  const T& Pick(const std::vector<T>& v) { return v[Below(v.size())]; }
};

inline uint64_t HashStr(const std::string& s) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
  return h ^ (h >> 29);
}
inline uint64_t Mix(uint64_t a, uint64_t b) {
  uint64_t h = a ^ (b + 0x9E3779B97F4A7C15ull + (a << 6) + (a >> 2));
  return h * 0xff51afd7ed558ccdull;
}
inline std::string Hex(const std::string& s) {
  static const char* d = "0123456789abcdef";
  std::string r;
  for (unsigned char c : s) { r += d[c >> 4]; r += d[c & 15]; }
  return r;
}

struct State {
  uint64_t seed = 1;
  bool thorough = false;
  std::string out;
  int scale = 1;
  std::map<std::string, std::string> args;
  std::mutex mu;
  uint64_t evals = 0;
  std::unordered_set<uint64_t> distinct;
  std::map<std::string, uint64_t> counts;
  std::vector<std::string> samples;
  std::vector<std::pair<std::string, std::string>> fails;
  std::set<std::string> fail_keys;
  uint64_t nfail = 0;
  char cur_case[4096] = {0};
  bool child = false;
};
inline State& S() { static State* s = new State; return *s; }

inline std::string JsonEsc(const std::string& s) {
  std::string r;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c == '\n') r += "\\n";
    else if (c < 32 || c >= 127) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r;
}
inline void WriteOut(const char* status) {
  State& s = S();
  if (s.out.empty() || s.child) return;
  FILE* f = fopen(s.out.c_str(), "w");
  if (!f) return;
  fprintf(f, "{\"status\":\"%s\",\"seed\":%llu,\"evaluations\":%llu,\"distinct\":%zu,\"case\":\"%s\",\n\"counts\":{", status,
          (unsigned long long)s.seed, (unsigned long long)s.evals, s.distinct.size(), JsonEsc(s.cur_case).c_str());
  bool first = true;
  for (auto& kv : s.counts) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", JsonEsc(kv.first).c_str(), (unsigned long long)kv.second); first = false; }
  fprintf(f, "},\n\"samples\":[");
  first = true;
  for (auto& x : s.samples) { fprintf(f, "%s\"%s\"", first ? "" : ",", JsonEsc(x).c_str()); first = false; }
  fprintf(f, "],\n\"fails\":[");
  first = true;
  for (auto& x : s.fails) { fprintf(f, "%s{\"key\":\"%s\",\"detail\":\"%s\"}", first ? "" : ",", JsonEsc(x.first).c_str(), JsonEsc(x.second).c_str()); first = false; }
  fprintf(f, "]}\n");
  fclose(f);
}
inline void OnAbort(int sig) {
  static std::atomic<int> once{0};
  // A sanitizer report may abort while holding locks that WriteOut needs: never hang here.
  signal(SIGALRM, SIG_DFL);
  alarm(5);
  if (once.fetch_add(1) == 0) WriteOut("crash");
  signal(sig, SIG_DFL);
  raise(sig);
}
// Describes the case being run, for the replay file should the code under test abort.
inline void SetCase(const std::string& c) {
  size_t n = std::min(c.size(), sizeof(S().cur_case) - 1);
  memcpy(S().cur_case, c.data(), n);
  S().cur_case[n] = 0;
}
inline void Count(const std::string& name, uint64_t n = 1) {
  std::lock_guard<std::mutex> g(S().mu);
  S().counts[name] += n;
}
// One evaluated case; `sig` identifies it for the distinct count. sig==0: trivial (not counted as distinct).
inline void Case(uint64_t sig) {
  std::lock_guard<std::mutex> g(S().mu);
  S().evals++;
  if (sig && S().distinct.size() < 4000000) S().distinct.insert(sig);
}
inline void Sample(const std::string& s, size_t max = 12) {
  std::lock_guard<std::mutex> g(S().mu);
  if (S().samples.size() < max) S().samples.push_back(s.substr(0, 1500));
}
// A violation. One record per key; harness goes on (so that known findings do not mask others).
inline void Fail(const std::string& key, const std::string& detail) {
  std::lock_guard<std::mutex> g(S().mu);
  S().nfail++;
  if (S().fail_keys.size() < 40 && S().fail_keys.insert(key).second) {
    std::string d = detail.substr(0, 6000);
    if (S().cur_case[0]) d += std::string(" | case: ") + S().cur_case;
    S().fails.push_back({key, d});
    fprintf(stderr, "FAIL %s: %s\n", key.c_str(), d.c_str());
  }
}
// The harness itself cannot go on: an error exit, never a verdict.
[[noreturn]] inline void Broken(const std::string& why) {
  fprintf(stderr, "HARNESS-ERROR: %s\n", why.c_str());
  WriteOut("error");
  _exit(3);
}
inline bool Thorough() { return S().thorough; }
inline uint64_t Seed() { return S().seed; }
inline uint64_t N(uint64_t quick, uint64_t thorough) { return S().thorough ? thorough : quick; }
inline std::string Arg(const std::string& k, const std::string& def = "") {
  auto it = S().args.find(k);
  return it == S().args.end() ? def : it->second;
}
inline void Init(int argc, char** argv) {
  State& s = S();
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto eq = a.find('=');
    if (a.rfind("--", 0) == 0 && eq != std::string::npos) s.args[a.substr(2, eq - 2)] = a.substr(eq + 1);
  }
  s.seed = strtoull(Arg("seed", "1").c_str(), nullptr, 10);
  s.thorough = Arg("tier", "quick") == "thorough";
  s.out = Arg("out");
  for (int sig : {SIGABRT, SIGSEGV, SIGBUS, SIGFPE, SIGILL}) {
    if (sig != SIGABRT && getenv("VH_SAN")) continue;  // the sanitizer reports these, then aborts
    signal(sig, OnAbort);
  }
}
inline int Finish() {
  WriteOut(S().fails.empty() ? "ok" : "fail");
  fflush(nullptr);
  _exit(S().fails.empty() ? 0 : 10);
}

// Runs fn in a forked child; returns exit code (0..255) or 256+signal. timeout -> -1.
inline int Isolated(const std::function<int()>& fn, int timeout_s = 60, std::string* output = nullptr) {
  int p[2];
  if (pipe(p)) Broken("pipe");
  fflush(nullptr);
  pid_t pid = fork();
  if (pid < 0) Broken("fork");
  if (pid == 0) {
    S().child = true;
    close(p[0]);
    dup2(p[1], 2);
    for (int sig : {SIGABRT, SIGSEGV, SIGBUS, SIGFPE, SIGILL}) if (sig == SIGABRT || !getenv("VH_SAN")) signal(sig, SIG_DFL);
    int rc = fn();
    fflush(nullptr);
    _exit(rc);
  }
  close(p[1]);
  std::string o;
  auto t0 = std::chrono::steady_clock::now();
  char buf[4096];
  bool timed = false;
  while (true) {
    fd_set fs; FD_ZERO(&fs); FD_SET(p[0], &fs);
    timeval tv{1, 0};
    int r = select(p[0] + 1, &fs, nullptr, nullptr, &tv);
    if (r > 0) { ssize_t n = read(p[0], buf, sizeof buf); if (n <= 0) break; if (o.size() < 65536) o.append(buf, n); }
    if (std::chrono::steady_clock::now() - t0 > std::chrono::seconds(timeout_s)) { timed = true; kill(pid, SIGKILL); break; }
  }
  close(p[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  if (output) *output = o;
  if (timed) return -1;
  return WIFEXITED(st) ? WEXITSTATUS(st) : 256 + WTERMSIG(st);
}

inline std::string Fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
inline std::string Fmt(const char* f, ...) {
  va_list ap; va_start(ap, f);
  char b[4096]; vsnprintf(b, sizeof b, f, ap); va_end(ap);
  return b;
}

}  // namespace vh
