// UUID generation: shape, entropy and uniqueness across calls, threads and forked processes.
#include "vh.h"
#include <sys/mman.h>
#include <thread>
#include "common/uuid.h"
using namespace vh;
using dingodb::UUIDGenerator;

static bool Shape(const std::string& u) {
  if (u.size() != 36) return false;
  for (size_t i = 0; i < 36; ++i) {
    bool dash = i == 8 || i == 13 || i == 18 || i == 23;
    if (dash ? u[i] != '-' : !((u[i] >= '0' && u[i] <= '9') || (u[i] >= 'a' && u[i] <= 'f'))) return false;
  }
  return true;
}
static std::vector<int> BytesOf(const std::string& u) {
  std::vector<int> b;
  std::string h;
  for (char c : u) if (c != '-') h += c;
  for (size_t i = 0; i + 1 < h.size(); i += 2) b.push_back((int)strtol(h.substr(i, 2).c_str(), nullptr, 16));
  return b;
}
int main(int argc, char** argv) {
  Init(argc, argv);
  Rng r(Seed());
  const int T = 8, per = N(400, 6000), P = 6, perp = N(200, 2000);
  std::vector<std::vector<std::string>> got(T);
  std::vector<std::thread> th;
  std::atomic<int> go{0};
  SetCase("threads generating");
  for (int t = 0; t < T; ++t)
    th.emplace_back([&, t] {
      go++;
      while (go < T) std::this_thread::yield();
      for (int i = 0; i < per; ++i) got[t].push_back(UUIDGenerator::GenerateUUID());
    });
  for (auto& t : th) t.join();
  // Forked processes: a generator state copied by fork would repeat.
  SetCase("forked processes generating");
  char* shm = (char*)mmap(nullptr, (size_t)P * perp * 64, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  std::vector<pid_t> pids;
  got.emplace_back();
  for (int p = 0; p < P; ++p) {
    // The parent has generated before each fork (except the first), on this very thread, and goes on doing so.
    for (int i = 0; i < p; ++i) got.back().push_back(UUIDGenerator::GenerateUUID());
    pid_t pid = fork();
    if (pid == 0) {
      for (int i = 0; i < perp; ++i) {
        std::string u = UUIDGenerator::GenerateUUID();
        strncpy(shm + ((size_t)p * perp + i) * 64, u.c_str(), 63);
      }
      _exit(0);
    }
    pids.push_back(pid);
  }
  for (int i = 0; i < perp; ++i) got.back().push_back(UUIDGenerator::GenerateUUID());
  int st;
  for (pid_t p : pids) {
    waitpid(p, &st, 0);
    if (!WIFEXITED(st) || WEXITSTATUS(st)) Fail("crash", "generator died in a forked process");
  }
  got.emplace_back();
  for (int i = 0; i < P * perp; ++i) got.back().push_back(shm + (size_t)i * 64);
  std::set<std::string> all;
  std::vector<std::set<int>> seen(16);
  std::vector<std::array<std::map<int, int>, 1>> dummy;
  std::vector<std::vector<int>> freq(16, std::vector<int>(256, 0));
  // 8-hex-digit windows shared by two UUIDs at the same place: rare when the bytes are independent.
  std::map<std::string, int> head, tail;
  uint64_t total = 0;
  for (size_t t = 0; t < got.size(); ++t)
    for (auto& u : got[t]) {
      total++;
      Case(HashStr(u));
      if (!Shape(u)) { Fail("shape", "not 8-4-4-4-12 lowercase hex: '" + u + "'"); continue; }
      if (!all.insert(u).second) Fail("duplicate", "generated twice: " + u + Fmt(" (source %zu)", t));
      auto b = BytesOf(u);
      for (int i = 0; i < 16; ++i) { seen[i].insert(b[i]); freq[i][b[i]]++; }
      head[u.substr(0, 8)]++;
      tail[u.substr(24)]++;
    }
  Count("uuids", total);
  Count("forked_uuids", P * perp);
  for (int i = 0; i < 16; ++i) {
    // >= 4400 uniform draws out of 256 leave a value unseen with probability < 256*e^-17.
    if (total >= 4000 && seen[i].size() < 250) Fail("entropy", Fmt("byte %d takes only %zu of 256 values over %llu UUIDs", i, seen[i].size(), (unsigned long long)total));
    for (int v = 0; v < 256; ++v) {
      double mean = total / 256.0;
      if (freq[i][v] > mean + 9 * std::sqrt(mean) + 12) Fail("entropy", Fmt("byte %d is %02x in %d of %llu UUIDs", i, v, freq[i][v], (unsigned long long)total));
    }
  }
  for (auto& kv : tail) if (kv.second > 1) Fail("entropy", "last 48 bits repeat: " + kv.first);
  int hc = 0;
  for (auto& kv : head) hc += kv.second - 1;
  if (hc > 8 + (int)(total * total / 4e9)) Fail("entropy", Fmt("first 32 bits repeat %d times", hc));
  // Bytes of one UUID must not determine each other.
  for (int i = 0; i < 16; ++i)
    for (int j = i + 1; j < 16; ++j) {
      int eq = 0;
      for (auto& u : all) { auto b = BytesOf(u); eq += b[i] == b[j]; }
      double mean = total / 256.0;
      if (eq > mean + 9 * std::sqrt(mean) + 12) Fail("entropy", Fmt("bytes %d and %d equal in %d UUIDs", i, j, eq));
    }
  // Name-based ids: well formed, a function of the name.
  for (int it = 0; it < N(3000, 40000); ++it) {
    std::string name = it < 256 ? std::string(1 + it % 3, (char)it) : r.Bytes(1 + r.Below(40));
    SetCase("name=" + Hex(name));
    std::string a = UUIDGenerator::GenerateUUIDV3(name), b = UUIDGenerator::GenerateUUIDV3(std::string(name));
    if (!Shape(a)) Fail("named_shape", "'" + a + "'");
    if (a != b) Fail("named_determinism", a + " then " + b);
    Count("named");
    Case(HashStr(name) ^ 3);
  }
  // ... also when other threads generate at the same time.
  {
    std::vector<std::string> names, want;
    for (int i = 0; i < 50; ++i) { names.push_back(r.Bytes(1 + r.Below(30))); want.push_back(UUIDGenerator::GenerateUUIDV3(names.back())); }
    std::atomic<int> bad{0};
    std::vector<std::thread> ts;
    for (int t = 0; t < 4; ++t)
      ts.emplace_back([&, t] {
        for (int i = 0; i < 400; ++i) {
          if (UUIDGenerator::GenerateUUIDV3(names[(i + t) % 50]) != want[(i + t) % 50]) bad++;
          if (t == 3 && i % 20 == 0) UUIDGenerator::GenerateUUID();
        }
      });
    for (auto& t : ts) t.join();
    if (bad) Fail("named_determinism", "differs under concurrent use");
    Count("named_threads", 1600);
  }
  Sample("random: " + got[0][0]);
  Sample("forked: " + got.back()[0]);
  Sample("named 'suite': " + UUIDGenerator::GenerateUUIDV3("suite"));
  return Finish();
}
