// Logger: what is emitted, where, once and whole, for every level; line prefix; run-time switches.
#include "vh.h"
#include <dirent.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <time.h>
#include <fstream>
#include <regex>
#include <sstream>
#include <thread>
#include "common/logging.h"
using namespace vh;
using namespace dingodb;

static std::string g_scratch;
static std::string Slurp(const std::string& dir, const std::string& prefix) {
  std::string all;
  DIR* d = opendir(dir.c_str());
  if (!d) return all;
  while (dirent* e = readdir(d)) {
    std::string n = e->d_name;
    if (n.rfind(prefix, 0) != 0) continue;
    struct stat st;
    std::string p = dir + "/" + n;
    if (lstat(p.c_str(), &st) || !S_ISREG(st.st_mode)) continue;
    std::ifstream f(p);
    std::stringstream ss;
    ss << f.rdbuf();
    all += ss.str();
  }
  closedir(d);
  return all;
}
static void EmitAll(const std::string& tag) {
  DINGO_LOG(DEBUG) << "msg-DEBUG-" << tag;
  DINGO_LOG(INFO) << "msg-INFO-" << tag;
  DINGO_LOG(WARNING) << "msg-WARNING-" << tag;
  DINGO_LOG(ERROR) << "msg-ERROR-" << tag;
  DINGO_LOG_IF(INFO, true) << "msg-IFINFO-" << tag;
  DINGO_LOG_IF(ERROR, false) << "msg-NEVER-" << tag;
  DINGO_LOG_IF(INFO, false) << "msg-NEVER-" << tag;
  DINGO_LOG_IF(WARNING, true) << "msg-IFWARNING-" << tag;
  DINGO_LOG_IF(ERROR, true) << "msg-IFERROR-" << tag;
  DINGO_LOG_IF(DEBUG, true) << "msg-IFDEBUG-" << tag;
}
static int CountOf(const std::string& text, const std::string& what) {
  int n = 0;
  for (size_t p = text.find(what); p != std::string::npos; p = text.find(what, p + 1)) {
    char nx = p + what.size() < text.size() ? text[p + what.size()] : '\n';
    if (nx == '\n') n++;
  }
  return n;
}
struct Sev { const char* name; int dingo; int glog; };
static const Sev kSevs[] = {{"DEBUG", 0, 0}, {"INFO", 1, 0}, {"WARNING", 2, 1}, {"ERROR", 3, 2}, {"IFDEBUG", 0, 0}, {"IFINFO", 1, 0}, {"IFWARNING", 2, 1}, {"IFERROR", 3, 2}};
static const char* kFile[] = {"info", "warn", "error", "fatal"};

// One message of each severity under threshold `level`; expectation per log file.
static void JudgeThreshold(const std::string& dir, const std::string& role, const std::string& tag, int level) {
  for (int f = 0; f < 4; ++f) {
    std::string text = Slurp(dir, Fmt("%s.%s.log.", role.c_str(), kFile[f]));
    for (auto& s : kSevs) {
      int n = CountOf(text, std::string("msg-") + s.name + "-" + tag);
      int want = s.dingo >= level && s.glog >= f ? 1 : 0;
      if (n != want) Fail(std::string("threshold-") + (want ? "lost" : "leaked"), Fmt("level=%d severity=%s file=%s: %d lines, want %d", level, s.name, kFile[f], n, want));
      Count("threshold_checks");
      Case(HashStr(tag + s.name + kFile[f]));
    }
    if (CountOf(text, "msg-NEVER-" + tag)) Fail("conditional", "message with a false condition was written");
  }
}
static std::string MkDir(const std::string& n) {
  std::string d = g_scratch + "/" + n;
  mkdir(d.c_str(), 0755);
  return d;
}
static void CheckPrefix(const std::string& line, char sev, const std::string& file, time_t t0, time_t t1, long tid) {
  static const std::regex re(R"(^\[([A-Z])[0 ]*\]\[\s*(\d+)(\d\d)(\d\d) (\d\d):(\d\d):(\d\d)\.(\d{6})[0 ]*\]\[(\d+)\]\[([^\]:]+):(\d+)\]\[?.*)");
  std::smatch m;
  if (!std::regex_match(line, m, re)) return Fail("prefix", "line does not parse: " + line);
  if (m[1].str()[0] != sev) Fail("prefix-severity", "want " + std::string(1, sev) + ": " + line);
  struct tm tm {};
  tm.tm_year = atoi(m[2].str().c_str()) - 1900;
  tm.tm_mon = atoi(m[3].str().c_str()) - 1;
  tm.tm_mday = atoi(m[4].str().c_str());
  tm.tm_hour = atoi(m[5].str().c_str());
  tm.tm_min = atoi(m[6].str().c_str());
  tm.tm_sec = atoi(m[7].str().c_str());
  tm.tm_isdst = -1;
  time_t t = mktime(&tm);
  if (t < t0 - 1 || t > t1 + 1) Fail("prefix-time", Fmt("time %ld outside [%ld,%ld]: ", (long)t, (long)t0, (long)t1) + line);
  if (tid && atol(m[9].str().c_str()) != tid) Fail("prefix-thread", Fmt("want %ld: ", tid) + line);
  if (m[10].str().find(file) == std::string::npos) Fail("prefix-file", line);
  Count("prefix_checks");
}

int main(int argc, char** argv) {
  Init(argc, argv);
  Rng r(Seed());
  g_scratch = Arg("scratch", "/tmp");
  setenv("TZ", "UTC", 1);
  // 1. Fresh process per initial level.
  for (int level = 0; level <= 3; ++level) {
    SetCase(Fmt("InitLogger level=%d", level));
    std::string dir = MkDir(Fmt("init%d", level)), tag = Fmt("init%d", level);
    int rc = Isolated([&] {
      DingoLogger::InitLogger(dir, "role", (LogLevel)level);
      FLAGS_stderrthreshold = 4;
      EmitAll(tag);
      google::FlushLogFiles(0);
      return 0;
    });
    if (rc) Fail("crash", Fmt("logger died: rc=%d", rc));
    JudgeThreshold(dir, "role", tag, level);
    Count("init_levels");
  }
  // 2. Fatal: the line reaches the fatal log, the process aborts.
  for (int level : {0, 1, 4}) {
    SetCase(Fmt("fatal level=%d", level));
    std::string dir = MkDir(Fmt("fatal%d", level));
    int rc = Isolated([&] {
      DingoLogger::InitLogger(dir, "role", (LogLevel)level);
      DINGO_LOG_IF(FATAL, false) << "not this";
      DINGO_LOG(ERROR) << "before";
      DINGO_LOG(FATAL) << "msg-fatal";
      return 5;
    });
    if (rc != 256 + SIGABRT) Fail("fatal", Fmt("a fatal message must abort the process: rc=%d level=%d", rc, level));
    if (CountOf(Slurp(dir, "role.fatal.log."), "msg-fatal") != 1) Fail("fatal", "fatal line missing from the fatal log");
    if (CountOf(Slurp(dir, "role.error.log."), "before") != (level <= 3)) Fail("fatal", Fmt("error line before a fatal one: level=%d", level));
    Count("fatal_runs");
    Case(1000 + level);
  }
  // 3. Levels switched at run time, getters, and settings.
  {
    std::string dir = MkDir("switch");
    std::vector<int> levels;
    for (int i = 0; i < (int)N(60, 400); ++i) levels.push_back(r.Below(4));
    std::vector<uint32_t> verb;
    for (size_t i = 0; i < levels.size(); ++i) verb.push_back(r.Chance(1, 3) ? 0 : r.Chance(1, 2) ? 79 + r.Below(40) : 79);
    std::string out;
    int rc = Isolated([&] {
      DingoLogger::InitLogger(dir, "role", kINFO);
      FLAGS_stderrthreshold = 4;
      int bad = 0;
      for (size_t i = 0; i < levels.size(); ++i) {
        DingoLogger::ChangeGlogLevelUsingDingoLevel((LogLevel)levels[i], verb[i]);
        int wm = levels[i] == 0 ? 0 : levels[i] - 1;
        if (DingoLogger::GetMinLogLevel() != wm) bad |= 1;
        if (levels[i] == 0 && DingoLogger::GetMinVerboseLevel() != (int)(verb[i] ? verb[i] : 79)) bad |= 2;
        if (levels[i] != 0 && DingoLogger::GetMinVerboseLevel() >= 79) bad |= 2;
        EmitAll(Fmt("sw%zu", i));
      }
      for (int v : {0, 1, 2, 3}) { DingoLogger::SetMinLogLevel(v); if (DingoLogger::GetMinLogLevel() != v || FLAGS_minloglevel != v) bad |= 4; }
      for (int v : {0, 1, 78, 79, 1000}) { DingoLogger::SetMinVerboseLevel(v); if (DingoLogger::GetMinVerboseLevel() != v || FLAGS_v != v) bad |= 8; }
      for (int v : {0, 1, 30, 100000}) { DingoLogger::SetLogBuffSecs(v); if (DingoLogger::GetLogBuffSecs() != v || FLAGS_logbufsecs != v) bad |= 16; }
      for (int v : {1, 80, 1800, 4095}) { DingoLogger::SetMaxLogSize(v); if (DingoLogger::GetMaxLogSize() != v || (int)FLAGS_max_log_size != v) bad |= 32; }
      for (bool v : {true, false, true}) { DingoLogger::SetStoppingWhenDiskFull(v); if (DingoLogger::GetStoppingWhenDiskFull() != v || FLAGS_stop_logging_if_full_disk != v) bad |= 64; }
      google::FlushLogFiles(0);
      return bad;
    });
    if (rc) Fail(rc < 256 ? "settings" : "crash", Fmt("setting read back differs (mask %d)", rc));
    std::string files[4];
    for (int f = 0; f < 4; ++f) files[f] = Slurp(dir, Fmt("role.%s.log.", kFile[f]));
    for (size_t i = 0; i < levels.size(); ++i) {
      SetCase(Fmt("switch step %zu level=%d verbose=%u", i, levels[i], verb[i]));
      for (int f = 0; f < 3; ++f)
        for (auto& s : kSevs) {
          int n = CountOf(files[f], Fmt("msg-%s-sw%zu", s.name, i));
          int want = s.dingo >= levels[i] && s.glog >= f;
          if (n != want) Fail(std::string("switch-") + (want ? "lost" : "leaked"), Fmt("severity=%s file=%s: %d lines, want %d", s.name, kFile[f], n, want));
          Count("switch_checks");
          Case(HashStr(Fmt("%zu%s%d", i, s.name, f)));
        }
    }
    Sample(Fmt("run-time level changes: %d %d %d %d %d ...", levels[0], levels[1], levels[2], levels[3], levels[4]));
  }
  // 4. Many threads: every line once, whole, with its own prefix.
  {
    const int T = 6, n = N(400, 5000);
    std::string dir = MkDir("threads");
    SetCase(Fmt("%d threads x %d lines", T, n));
    time_t t0 = time(nullptr);
    int rc = Isolated([&] {
      DingoLogger::InitLogger(dir, "role", kDEBUG);
      FLAGS_stderrthreshold = 4;
      std::vector<std::thread> th;
      for (int t = 0; t < T; ++t)
        th.emplace_back([=] {
          long tid = syscall(SYS_gettid);
          std::string pad((t + 1) * 20, 'a' + t);
          for (int i = 0; i < n; ++i) {
            if (i % 4 == 0) DINGO_LOG(INFO) << "L " << t << " " << i << " " << tid << " " << pad << " E";
            if (i % 4 == 1) DINGO_LOG(WARNING) << "L " << t << " " << i << " " << tid << " " << pad << " E";
            if (i % 4 == 2) DINGO_LOG(ERROR) << "L " << t << " " << i << " " << tid << " " << pad << " E";
            if (i % 4 == 3) DINGO_LOG(DEBUG) << "L " << t << " " << i << " " << tid << " " << pad << " E";
          }
        });
      for (auto& t : th) t.join();
      google::FlushLogFiles(0);
      return 0;
    }, 120);
    time_t t1 = time(nullptr);
    if (rc) Fail("crash", Fmt("logger died under threads: rc=%d", rc));
    std::stringstream ss(Slurp(dir, "role.info.log."));
    std::string line;
    std::map<std::pair<int, int>, int> seen;
    std::vector<int> last(T, -1);
    int shown = 0;
    while (std::getline(ss, line)) {
      size_t p = line.find(" L ");
      if (p == std::string::npos) continue;
      int t, i;
      long tid;
      char pad[512], e[8];
      if (sscanf(line.c_str() + p, " L %d %d %ld %500s %2s", &t, &i, &tid, pad, e) != 5 || t < 0 || t >= T || strcmp(e, "E") || std::string(pad) != std::string((t + 1) * 20, 'a' + t)) {
        Fail("torn-line", line);
        continue;
      }
      if (i <= last[t]) Fail("thread-order", line);
      last[t] = i;
      seen[{t, i}]++;
      CheckPrefix(line, "IWEI"[i % 4], "logging.cc", t0, t1, tid);
      if (line.find("operator()") == std::string::npos) Fail("prefix-function", "no calling function in: " + line);
      if (shown++ < 3) Sample(line);
      Case(HashStr(Fmt("line %d %d", t, i)));
    }
    for (int t = 0; t < T; ++t)
      for (int i = 0; i < n; ++i)
        if (seen[{t, i}] != 1) Fail(seen[{t, i}] ? "duplicate-line" : "lost-line", Fmt("thread %d line %d seen %d times", t, i, seen[{t, i}]));
    Count("threaded_lines", T * n);
  }
  // 5. Prefix for chosen instants (month/day/hour boundaries), formatted directly.
  for (int it = 0; it < (int)N(3000, 40000); ++it) {
    time_t t = it < 400 ? 1672531199 + (time_t)it * 86399 : (time_t)r.Below(4102444800ull);
    int usec = r.Chance(1, 3) ? (int)r.Below(10) : (int)r.Below(1000000);
    struct tm tm;
    gmtime_r(&t, &tm);
    google::LogMessageTime lt(t, (double)t + usec / 1e6);
    const char* sevs[] = {"INFO", "WARNING", "ERROR", "FATAL"};
    int sv = r.Below(4);
    int tid = r.Below(1 << 22), ln = 1 + r.Below(99999);
    google::LogMessageInfo info(sevs[sv], "some_file.cc", ln, tid, lt);
    std::ostringstream os;
    os.fill('0');
    DingoLogger::CustomLogFormatPrefix(os, info, nullptr);
    std::string line = os.str();
    SetCase("prefix " + line);
    CheckPrefix(line, sevs[sv][0], "some_file.cc", t, t, tid);
    if (line.find(Fmt("some_file.cc:%d]", ln)) == std::string::npos) Fail("prefix-line", line);
    if (line.find(Fmt(".%06d", (int)lt.usec())) == std::string::npos) Fail("prefix-usec", Fmt("want .%06d: ", (int)lt.usec()) + line);
    Case(Mix(t, usec));
  }
  for (int l = 0; l <= 5; ++l) {
    const char* want[] = {"DEBUG", "INFO", "WARNING", "ERROR", "FATAL", "UNKNOWN"};
    if (LogLevelToString((LogLevel)l) != want[l]) Fail("level-name", Fmt("%d -> ", l) + LogLevelToString((LogLevel)l));
  }
  return Finish();
}
