// The coordinator's two number servers, each a group of three replicas behind the real raft engine and state machine: the
// timestamp oracle and the auto-increment counters. The harness keeps the raft log, elects leaders (old ones may not know
// yet), loses or holds back proposals, restarts replicas from snapshots and logs and gives every replica a clock of its
// own; whatever is handed out goes to an independent record of everything handed out before.
#include <sys/syscall.h>
#include <unistd.h>

#include <filesystem>
#include <thread>

#include "common/service_access.h"
#include "coordinator/auto_increment_control.h"
#include "coordinator/tso_control.h"
#include "raft/meta_state_machine.h"
#include "svc.h"

using namespace dingodb;
namespace CI = dingodb::pb::coordinator_internal;
namespace PM = dingodb::pb::meta;
using senv::E;
using svc::Waiter;
using vh::Fmt;
using vh::Rng;

// The wall clock is the harness's: milliseconds since the epoch of the timestamp oracle.
static std::atomic<int64_t> g_clock_ms{1000000};
extern "C" int clock_gettime(clockid_t id, struct timespec* t) __THROW {
  if (id == CLOCK_REALTIME) {
    int64_t ms = kBaseTimestampMs + g_clock_ms.load();
    t->tv_sec = ms / 1000;
    t->tv_nsec = ms % 1000 * 1000000;
    return 0;
  }
  return syscall(SYS_clock_gettime, id, t);
}

struct Node {
  int id;
  std::shared_ptr<MetaControl> ctl;
  std::shared_ptr<TsoControl> tso;
  std::shared_ptr<AutoIncrementControl> inc;
  std::shared_ptr<MetaStateMachine> fsm;
  std::shared_ptr<RaftStoreEngine> eng;
  int64_t applied{0};
  int64_t clock{0};  // offset
  std::string snapshot;
  int64_t base{0}, snapshot_term{0};
  bool deaf{false};  // deposed without knowing: nothing of the new term reaches it before it is told
};
struct Ent { int64_t term; butil::IOBuf data; };
struct Cluster {
  std::mutex m;
  std::vector<std::unique_ptr<Node>> nodes;
  std::vector<Ent> log;
  std::atomic<int> lead{-1};
  std::atomic<int64_t> term{0};
  std::atomic<int> refuse{0};    // proposals that are not committed
  std::atomic<int> unknown{0};   // proposals that are committed although the proposer is told they are not
  std::atomic<int> lag{0};       // chance in 8 that a follower does not apply at once
  std::atomic<int> hold{0};      // proposals to hold back
  std::vector<std::pair<braft::Node*, braft::Task>> held;
  std::condition_variable held_c;
  Rng r{1};
};
static Cluster* C;
static int g_gen;
static bool g_tso;
static std::string g_root;

static void Build(Node& n) {
  if (g_tso) {
    n.tso = std::make_shared<TsoControl>();
    if (!n.tso->Init()) vh::Broken("tso init");
    n.ctl = n.tso;
  } else {
    n.inc = std::make_shared<AutoIncrementControl>();
    n.ctl = n.inc;
  }
  int64_t region = g_tso ? (int64_t)+Constant::kTsoRegionId : (int64_t)+Constant::kAutoIncrementRegionId;
  n.fsm = std::make_shared<MetaStateMachine>(region, n.ctl, false);
  n.eng = RaftStoreEngine::New(E().raw, nullptr, nullptr);
  auto d = std::make_shared<pb::common::RegionDefinition>();
  d->set_id(region);
  d->set_name(Fmt("n%d-%d", n.id, ++g_gen));
  auto* p = d->add_peers();
  p->mutable_raft_location()->set_host("127.0.0.1");
  p->mutable_raft_location()->set_port(20101);
  if (!n.eng->AddNode(d, n.ctl, false).ok()) vh::Broken("AddNode");
  if (g_tso) n.tso->SetKvEngine(n.eng); else n.inc->SetKvEngine(n.eng);
}
static void Discard(Node& n) {
  if (n.ctl) n.ctl->SetRaftNode(nullptr);
  if (n.tso) n.tso->SetKvEngine(nullptr);
  if (n.inc) n.inc->SetKvEngine(nullptr);
  n.eng.reset();
  n.fsm.reset();
  n.ctl.reset();
  n.tso.reset();
  n.inc.reset();
}
struct DirWriter : braft::SnapshotWriter {
  std::string dir;
  std::set<std::string> files;
  int save_meta(const braft::SnapshotMeta&) override { return 0; }
  std::string get_path() override { return dir; }
  void list_files(std::vector<std::string>* f) override { for (auto& x : files) f->push_back(x); }
  int add_file(const std::string& n, const ::google::protobuf::Message*) override { files.insert(n); return 0; }
  int remove_file(const std::string& n) override { files.erase(n); return 0; }
};
struct DirReader : braft::SnapshotReader {
  std::string dir;
  int64_t index, term;
  std::string get_path() override { return dir; }
  void list_files(std::vector<std::string>* f) override { f->push_back("data"); }
  int load_meta(braft::SnapshotMeta* m) override { m->set_last_included_index(index); m->set_last_included_term(term); return 0; }
};
struct SaveDone : braft::Closure {
  Waiter w;
  void Run() override { w.Run(); }
};
static void CatchUp(Node& n) {
  if (n.deaf) return;
  while (n.applied < (int64_t)C->log.size()) {
    int64_t i = n.applied + 1;
    braft::Iterator it({{i, C->log[i - 1].term, C->log[i - 1].data, nullptr}});
    n.fsm->on_apply(it);
    n.applied = i;
  }
}
// One proposal of a node to its group.
static void Propose(braft::Node* bn, const braft::Task& t) {
  int id = atoi(bn->vs_group().c_str() + 1);
  auto fail = [&] { t.done->status().set_error(EPERM, "is not leader"); t.done->Run(); };
  if (C->lead != id) { vh::Count("proposals_of_old_leaders"); return fail(); }
  if (C->refuse > 0) { --C->refuse; vh::Count("proposals_lost"); return fail(); }
  bool unknown = C->unknown > 0;
  if (unknown) { --C->unknown; vh::Count("proposals_committed_unknown"); }
  butil::IOBuf d;
  d.append(*t.data);
  C->log.push_back({C->term, d});
  int64_t ix = C->log.size();
  auto& me = *C->nodes[id];
  if (unknown) {
    // It is no leader any more when the entry is committed: it applies it as a follower does.
    fail();
    CatchUp(me);
  } else {
    braft::Iterator it({{ix, C->term, d, t.done}});
    bn->vs_options().fsm->on_apply(it);
    me.applied = ix;
  }
  for (auto& n : C->nodes)
    if (n->id != id && !C->r.Chance(C->lag, 8)) CatchUp(*n);
}
static void InstallHooks() {
  braft::Node::vs_apply = [](braft::Node* bn, const braft::Task& t) {
    std::unique_lock<std::mutex> l(C->m);
    if (C->hold > 0) {
      --C->hold;
      braft::Task c;
      c.data = new butil::IOBuf(*t.data);
      c.done = t.done;
      c.expected_term = t.expected_term;
      C->held.push_back({bn, c});
      C->held_c.notify_all();
      return;
    }
    Propose(bn, t);
  };
}
static bool WaitHeld(size_t n) {
  std::unique_lock<std::mutex> l(C->m);
  return C->held_c.wait_for(l, std::chrono::seconds(60), [&] { return C->held.size() >= n; });
}
static void Release() {
  std::unique_lock<std::mutex> l(C->m);
  C->hold = 0;
  auto v = std::move(C->held);
  C->held.clear();
  for (auto& [n, t] : v) { Propose(n, t); delete t.data; }
}
static void NewCluster(int n, Rng& r) {
  if (C) {
    for (auto& x : C->nodes) Discard(*x);
    std::filesystem::remove_all(g_root + "/snap");
    delete C;
  }
  C = new Cluster;
  C->r = Rng(r.Next());
  for (int i = 0; i < n; ++i) {
    C->nodes.push_back(std::make_unique<Node>());
    C->nodes[i]->id = i;
    Build(*C->nodes[i]);
  }
}
static void Stop(int i) {
  std::lock_guard<std::mutex> l(C->m);  // the callbacks of one group come one at a time
  C->nodes[i]->deaf = false;
  C->nodes[i]->fsm->on_leader_stop(butil::Status(EPERM, "lower term"));
}
static void LeadStart(int i) {
  std::lock_guard<std::mutex> l(C->m);
  C->nodes[i]->fsm->on_leader_start(C->term);
}
static Node& L() { return *C->nodes[C->lead]; }
static void SaveSnapshot(Node& from, Node& to) {
  static int seq = 0;
  DirWriter w;
  w.dir = g_root + Fmt("/snap/%d", ++seq);
  std::filesystem::create_directories(w.dir);
  SaveDone done;
  from.fsm->on_snapshot_save(&w, &done);
  done.w.Wait();
  if (!done.status().ok()) vh::Fail("snapshot-save", "a snapshot could not be saved: " + std::string(done.status().error_cstr()));
  to.snapshot = w.dir;
  to.base = from.applied;
  to.snapshot_term = C->term;
  vh::Count("snapshots");
}
// A replica starts again: it has what its snapshot and the log say, nothing else.
static void LoadSnapshot(Node& n) {
  DirReader rd;
  rd.dir = n.snapshot;
  rd.index = n.base;
  rd.term = n.snapshot_term;
  if (n.fsm->on_snapshot_load(&rd) != 0) vh::Fail("snapshot-load", "a snapshot could not be installed");
  n.applied = n.base;
}
static void Restart(Node& n) {
  if (n.base > n.applied && !n.snapshot.empty() && C->r.Chance(3, 4)) {  // it lags too far behind: it gets a snapshot while it runs
    LoadSnapshot(n);
    vh::Count("live_snapshots");
    return;
  }
  int64_t clock = n.clock;
  Discard(n);
  Build(n);
  n.clock = clock;
  n.applied = 0;
  if (!n.snapshot.empty()) LoadSnapshot(n);
  vh::Count("restarts");
  if (C->r.Chance(1, 2)) CatchUp(n);
}
// Waits for the threads the code has started.
static void Settle() {
  for (;;) {
    bthread_t id = 0;
    {
      auto& t = vs::Threads::I();
      std::lock_guard<std::mutex> g(t.m);
      if (!t.t.empty()) id = t.t.begin()->first;
    }
    if (!id) return;
    bthread_join(id, nullptr);
  }
}
static std::vector<std::string> g_story;
static void Say(const std::string& s) {
  g_story.push_back(s);
  if (g_story.size() > 30) g_story.erase(g_story.begin());
  std::string c;
  for (auto& x : g_story) c += x + "; ";
  vh::SetCase(c);
}

// ---------------------------------------------------------------- timestamps
static int64_t Ts(int64_t physical, int64_t logical) { return (physical << 18) + logical; }
struct Handed { int64_t from, to; };
struct Record {
  std::mutex m;
  std::map<int64_t, int64_t> all;  // start -> end, disjoint
  int64_t newest{0};               // of answers of a leader nobody had replaced yet
  void Add(const std::string& who, int64_t a, int64_t b) {
    std::lock_guard<std::mutex> l(m);
    auto it = all.lower_bound(a);
    const char* bad = nullptr;
    if (it != all.end() && it->first < b) bad = "";
    if (it != all.begin() && std::prev(it)->second > a) bad = "";
    if (bad) vh::Fail("timestamp-twice", who + Fmt(" was given timestamps [%ld.%ld, +%ld), some of which had been handed out before", (long)(a >> 18), (long)(a & 0x3ffff), (long)(b - a)));
    all[a] = std::max(all.count(a) ? all[a] : 0, b);
  }
};
static Record* T;
static PM::TsoResponse CallTso(Node& n, const PM::TsoRequest& q, int* runs = nullptr) {
  brpc::Controller cntl;
  PM::TsoRequest req(q);
  PM::TsoResponse resp;
  Waiter w;
  n.tso->Process(&cntl, &req, &resp, &w);
  w.Wait();
  if (runs) *runs = w.runs;
  if (w.runs != 1) vh::Fail("answered-twice", "a timestamp request was answered more than once");
  return resp;
}
static void UseClock(Node& n) { g_clock_ms = n.clock; }
static bool g_ticks = true;  // whether the periodic update runs while a request waits
static Node* g_asked;
// Asks for timestamps. Returns whether it got any.
static bool Gen(Node& n, int64_t count, bool current) {
  UseClock(n);
  g_asked = &n;
  PM::TsoRequest q;
  q.set_op_type(PM::OP_GEN_TSO);
  q.set_count(count);
  auto p = CallTso(n, q);
  Say(Fmt("node %d gives %ld: %s", n.id, (long)count, p.error().errcode() ? pb::error::Errno_Name(p.error().errcode()).c_str() : Fmt("%ld.%ld", (long)p.start_timestamp().physical(), (long)p.start_timestamp().logical()).c_str()));
  vh::Count("tso_requests");
  if (p.error().errcode() != 0) {
    vh::Count("tso_refused");
    if (p.has_start_timestamp()) vh::Fail("refused-with-timestamp", "a refused request carries a timestamp: " + p.ShortDebugString());
    return false;
  }
  if (count <= 0 || count >= (1 << 18)) { vh::Fail("bad-count", Fmt("a request for %ld timestamps was answered %s", (long)count, p.ShortDebugString().c_str())); return false; }
  if (p.count() != count) vh::Fail("count", Fmt("asked for %ld timestamps, answered for %ld", (long)count, (long)p.count()));
  int64_t ph = p.start_timestamp().physical(), lo = p.start_timestamp().logical();
  if (ph <= 0 || lo < 0 || lo + count > (1 << 18)) { vh::Fail("logical-overflow", Fmt("%ld timestamps from %ld.%ld do not fit in 18 logical bits", (long)count, (long)ph, (long)lo)); return false; }
  int64_t a = Ts(ph, lo), b = a + count;
  T->Add(Fmt("node %d", n.id), a, b);
  if (current) {
    if (a < T->newest) vh::Fail("timestamp-back", Fmt("the leader gave %ld.%ld after %ld.%ld had been given", (long)ph, (long)lo, (long)(T->newest >> 18), (long)(T->newest & 0x3ffff)));
    T->newest = b;
  }
  vh::Count("tso_batches");
  vh::Case(vh::HashStr(Fmt("%d %ld", (int)current, (long)(lo / 20000))));
  return true;
}
static void ElectTso(int i, Rng& r, bool stop_old) {
  int old = C->lead;
  Node& n = *C->nodes[i];
  if (old >= 0 && (stop_old || old == i)) Stop(old);
  {
    std::lock_guard<std::mutex> l(C->m);
    CatchUp(n);
    if (old >= 0 && !stop_old && old != i) C->nodes[old]->deaf = true;
    C->lead = i;
    ++C->term;
  }
  UseClock(n);
  int how = r.Below(4);
  Say(Fmt("node %d leads (%s)%s", i, how == 0 ? "its first update is late" : how == 1 ? "its first update is lost" : "", stop_old ? "" : ", the old leader does not know"));
  if (how == 0) C->hold = 1;
  if (how == 1) C->refuse = 1;
  LeadStart(i);
  vh::Count("tso_elections");
  if (how == 0) {
    if (!WaitHeld(1)) vh::Broken("the first update of a leader was not proposed");
    g_ticks = false;
    // Its own clock must not be trusted before its first update is committed.
    for (int k = r.Below(3); k >= 0; --k) Gen(n, 1 + r.Below(50), true);
    if (old >= 0 && old != i && !stop_old) Gen(*C->nodes[old], 1 + r.Below(50), false);
    g_ticks = true;
    Release();
    vh::Count("early_requests");
  }
  Settle();
  if (how == 1) {
    g_ticks = false;
    Gen(n, 1 + r.Below(50), true);
    g_ticks = true;
    C->refuse = 0;
    // It learns that it lost the election after all, and wins the next.
    Stop(i);
    { std::lock_guard<std::mutex> l(C->m); ++C->term; }
    LeadStart(i);
    Settle();
    vh::Count("second_elections");
  }
  if (old >= 0 && !stop_old && old != i) {
    for (int k = r.Below(3); k > 0; --k) { Gen(*C->nodes[old], 1 + r.Below(5000), false); vh::Count("old_leader_requests"); }
    if (r.Chance(1, 2)) { UseClock(*C->nodes[old]); C->nodes[old]->tso->UpdateTimestamp(); Gen(*C->nodes[old], 1 + r.Below(100), false); }
    Stop(old);
  }
  UseClock(n);
  bool ok = false;
  for (int k = 0; k < 3 && !ok; ++k) ok = Gen(n, 1 + r.Below(10), true);
  if (!ok) vh::Fail("unavailable", Fmt("node %d leads and its proposals are committed, but it hands out no timestamps", i));
}
static void RunTso(Rng& r) {
  int64_t rounds = vh::N(60, 600);
  vs_usleep() = [](uint64_t us) {
    if (!g_ticks || !g_asked) return;
    g_asked->clock += us / 1000 + 1;
    UseClock(*g_asked);
    g_asked->tso->UpdateTimestamp();
  };
  for (int64_t round = 0; round < rounds; ++round) {
    Rng q(vh::Seed() * 1000003 + round);
    g_story.clear();
    T = new Record;
    NewCluster(3, q);
    C->lag = q.Below(8);
    for (auto& n : C->nodes) n->clock = 1000000 + (q.Chance(1, 2) ? q.Below(20000) : 0);
    ElectTso(0, q, true);
    for (int step = 0; step < 120; ++step) {
      Node& n = L();
      int64_t now = n.clock;
      switch (q.Below(14)) {
        case 0: case 1: case 2: case 3: Gen(n, 1 + q.Below(q.Chance(1, 4) ? 200000 : 500), true); break;
        case 4: {
          static const int64_t kBad[] = {0, -1, -5, -100000, INT64_MIN, INT64_MAX, INT64_MAX - 3, 1 << 18, (1 << 18) - 1, (1 << 18) + 5, 1ll << 32};
          Gen(n, kBad[q.Below(11)], true);
          vh::Count("hostile_counts");
          Gen(n, 1 + q.Below(3), true);
          break;
        }
        case 5: case 6: case 7: {
          int64_t d = q.Chance(1, 5) ? -(int64_t)q.Below(8000) : q.Below(q.Chance(1, 3) ? 6000 : 120);
          n.clock = std::max<int64_t>(1000, now + d);
          UseClock(n);
          if (q.Chance(1, 3)) {
            // as far as it may go by what is saved, and a new leader whose clock is at that point, too
            PM::TsoRequest i;
            i.set_op_type(PM::OP_QUERY_TSO_INFO);
            int64_t save = CallTso(n, i).save_physical();
            n.clock = std::max<int64_t>(1000, save + (q.Chance(1, 2) ? q.Range(-3, 3) : q.Range(-60, 60)));
            UseClock(n);
            n.tso->UpdateTimestamp();
            Gen(n, 1 + q.Below(q.Chance(1, 2) ? 5 : 200000), true);
            vh::Count("ticks_at_save");
            if (q.Chance(1, 2)) {
              save = CallTso(n, i).save_physical();
              int to = q.Below(3);
              C->nodes[to]->clock = std::max<int64_t>(1000, (q.Chance(1, 4) ? n.clock : save) + (q.Chance(1, 2) ? q.Range(-3, 3) : q.Range(-60, 60)));
              ElectTso(to, q, q.Chance(1, 2));
              vh::Count("elections_at_save");
            }
            break;
          }
          if (q.Chance(1, 6)) C->refuse = 1;
          n.tso->UpdateTimestamp();
          C->refuse = 0;
          Say(Fmt("clock of node %d %+ld ms and a tick", n.id, (long)d));
          vh::Count("ticks");
          break;
        }
        case 8: {
          int i = q.Below(3);
          ElectTso(i, q, q.Chance(1, 2));
          break;
        }
        case 9: {
          Node& f = *C->nodes[(C->lead + 1 + q.Below(2)) % 3];
          if (q.Chance(1, 2)) { std::lock_guard<std::mutex> l(C->m); Node& src = *C->nodes[q.Chance(1, 2) ? C->lead.load() : (int)q.Below(3)]; SaveSnapshot(src, f); }
          std::lock_guard<std::mutex> l(C->m);
          Say(Fmt("node %d restarts%s", f.id, f.snapshot.empty() ? "" : " from a snapshot"));
          Restart(f);
          break;
        }
        case 10: case 11: {
          // Somebody sets the timestamp by hand.
          PM::TsoRequest s, i;
          i.set_op_type(PM::OP_QUERY_TSO_INFO);
          UseClock(n);
          auto cur = CallTso(n, i);
          int64_t ph = cur.start_timestamp().physical(), lo = cur.start_timestamp().logical(), save = cur.save_physical();
          if (Ts(ph, lo) < T->newest) vh::Fail("query", Fmt("the leader says it is at %ld.%ld after it gave %ld.%ld", (long)ph, (long)lo, (long)(T->newest >> 18), (long)(T->newest & 0x3ffff)));
          s.set_op_type(q.Chance(1, 3) ? PM::OP_UPDATE_TSO : PM::OP_RESET_TSO);
          bool force = s.op_type() == PM::OP_RESET_TSO && q.Chance(1, 4);
          int64_t nph = ph + (q.Chance(1, 3) ? 0 : (int64_t)q.Below(4000) - 1000), nlo = q.Chance(1, 2) ? 0 : q.Chance(1, 2) ? lo + (int64_t)q.Below(3) - 1 : q.Below(1 << 17);
          nlo = std::min<int64_t>(std::max<int64_t>(0, nlo), (1 << 18) - 1);
          if (force && nph < ph) nph = std::max<int64_t>(1000, nph);
          int64_t nsave = std::max(q.Chance(1, 6) ? save - 500 : save, nph + 10) + q.Below(2) * 1000;
          s.mutable_current_timestamp()->set_physical(nph);
          s.mutable_current_timestamp()->set_logical(nlo);
          s.set_save_physical(nsave);
          s.set_force(force);
          bool lost = q.Chance(1, 6);
          if (lost) C->refuse = 1;
          auto p = CallTso(n, s);
          C->refuse = 0;
          Say(Fmt("%s%s to %ld.%ld save %ld: %s", force ? "forced " : "", s.op_type() == PM::OP_UPDATE_TSO ? "update" : "reset", (long)nph, (long)nlo, (long)nsave, p.error().errcode() ? "refused" : "done"));
          bool done = p.error().errcode() == 0;
          vh::Count(done ? force ? "resets_forced" : "resets_done" : "resets_refused");
          if (lost && done) vh::Fail("reset-lost", "a reset was answered as done although it was never committed");
          if (!lost && force && !done) vh::Fail("reset-forced", "a forced reset was refused: " + p.ShortDebugString());
          if (done && !force && Ts(nph, nlo) < Ts(ph, lo)) vh::Fail("reset-back", Fmt("an unforced reset from %ld.%ld to %ld.%ld was accepted", (long)ph, (long)lo, (long)nph, (long)nlo));
          if (!done && !lost && nph > ph && nsave >= save) vh::Fail("reset-refused", Fmt("a reset from %ld.%ld save %ld to %ld.%ld save %ld was refused: %s", (long)ph, (long)lo, (long)save, (long)nph, (long)nlo, (long)nsave, p.ShortDebugString().c_str()));
          if (done) {
            auto c2 = CallTso(n, i);
            if (c2.start_timestamp().physical() != nph || c2.start_timestamp().logical() != nlo || c2.save_physical() != nsave) vh::Fail("reset-effect", "a reset to " + s.ShortDebugString() + " left " + c2.ShortDebugString());
            if (force && Ts(nph, nlo) < T->newest) { T->all.clear(); T->newest = 0; }  // whoever forces it back takes the blame
            T->newest = std::max(T->newest, Ts(nph, nlo));
          }
          break;
        }
        case 12: {
          Node& f = *C->nodes[(C->lead + 1) % 3];
          if (Gen(f, 5, false)) vh::Fail("not-leader", "a replica that does not lead handed out timestamps");
          vh::Count("follower_requests");
          break;
        }
        default: {
          // A tick is proposed and held back while the timestamp moves on.
          n.clock = now + 200;
          UseClock(n);
          C->hold = 1;
          std::thread t([&] { n.tso->UpdateTimestamp(); { std::lock_guard<std::mutex> l(C->m); C->hold = 0; } C->held_c.notify_all(); });
          bool held = false;
          { std::unique_lock<std::mutex> l(C->m); C->held_c.wait_for(l, std::chrono::seconds(60), [&] { return C->hold == 0; }); held = !C->held.empty(); }
          if (held) {
            vh::Count("held_ticks");
            auto hold = [&] { std::lock_guard<std::mutex> l(C->m); auto v = std::move(C->held); C->held.clear(); return v; }();
            PM::TsoRequest i, s;
            i.set_op_type(PM::OP_QUERY_TSO_INFO);
            auto cur = CallTso(n, i);
            int64_t ph = cur.start_timestamp().physical();
            g_ticks = false;
            Gen(n, 1 + q.Below(100), true);
            if (q.Chance(1, 2)) {
              s.set_op_type(PM::OP_RESET_TSO);
              int64_t to = q.Chance(2, 3) ? std::max(now + 200, ph) : ph + q.Below(400);
              s.mutable_current_timestamp()->set_physical(to);
              s.mutable_current_timestamp()->set_logical(1000 + cur.start_timestamp().logical() % 100000);
              s.set_save_physical(std::max(cur.save_physical(), to + 10));
              auto p = CallTso(n, s);
              Say(Fmt("reset to %ld while a tick is on its way: %s", (long)to, p.error().errcode() ? "refused" : "done"));
              Gen(n, 1 + q.Below(100), true);
            }
            g_ticks = true;
            { std::lock_guard<std::mutex> l(C->m); for (auto& [b, x] : hold) { Propose(b, x); delete x.data; } }
          }
          t.join();
          Gen(n, 1 + q.Below(100), true);
          break;
        }
      }
    }
    vh::Count("tso_histories");
    for (auto& n : C->nodes) vh::Count("log_entries", n->id == 0 ? C->log.size() : 0);
    delete T;
  }
}
// Many clients at once, a periodic update, and leaders that come and go.
static void RaceTso(Rng& r) {
  int64_t rounds = vh::N(12, 120);
  for (int64_t round = 0; round < rounds; ++round) {
    Rng q(vh::Seed() * 7919 + round);
    g_story.clear();
    T = new Record;
    NewCluster(3, q);
    for (auto& n : C->nodes) n->clock = 0;
    g_clock_ms = 1000000;
    std::atomic<bool> stop{false};
    std::atomic<int64_t> clock_seq{0};
    struct Op { int64_t begin, end, a, b; bool current; };
    std::vector<std::vector<Op>> ops(6);
    auto elect = [&](int i) {
      int old = C->lead;
      bool late = q.Chance(1, 2);
      if (old >= 0) Stop(old);
      { std::lock_guard<std::mutex> l(C->m); CatchUp(*C->nodes[i]); C->lead = i; ++C->term; }
      if (late) C->hold = 1;
      LeadStart(i);
      if (late) { WaitHeld(1); usleep(q.Below(2000)); Release(); }
      Settle();
      vh::Count("tso_elections");
    };
    vs_usleep() = [](uint64_t us) { usleep(std::min<uint64_t>(us, 200)); };
    elect(0);
    std::vector<std::thread> th;
    for (int k = 0; k < 6; ++k) th.emplace_back([&, k] {
      Rng w(vh::Seed() + round * 100 + k);
      while (!stop) {
        Node& n = *C->nodes[C->lead.load()];
        PM::TsoRequest g;
        g.set_op_type(w.Chance(1, 20) ? PM::OP_QUERY_TSO_INFO : PM::OP_GEN_TSO);
        g.set_count(1 + w.Below(w.Chance(1, 10) ? 60000 : 100));
        int64_t begin = ++clock_seq;
        auto p = CallTso(n, g);
        int64_t end = ++clock_seq;
        if (p.error().errcode() != 0 || g.op_type() != PM::OP_GEN_TSO) continue;
        int64_t a = Ts(p.start_timestamp().physical(), p.start_timestamp().logical());
        if (p.start_timestamp().logical() + g.count() > (1 << 18)) vh::Fail("logical-overflow", p.ShortDebugString());
        ops[k].push_back({begin, end, a, a + g.count(), true});
      }
    });
    std::thread ticker([&] {
      while (!stop) { g_clock_ms += 3; C->nodes[C->lead.load()]->tso->UpdateTimestamp(); usleep(300); }
    });
    std::thread setter([&] {  // somebody moves the timestamp on by hand
      Rng w(vh::Seed() + round * 100 + 77);
      while (!stop) {
        Node& n = *C->nodes[C->lead.load()];
        PM::TsoRequest i, s;
        i.set_op_type(PM::OP_QUERY_TSO_INFO);
        auto cur = CallTso(n, i);
        if (cur.error().errcode()) continue;
        s.set_op_type(w.Chance(1, 2) ? PM::OP_UPDATE_TSO : PM::OP_RESET_TSO);
        s.mutable_current_timestamp()->set_physical(cur.start_timestamp().physical());
        s.mutable_current_timestamp()->set_logical(std::min<int64_t>((1 << 18) - 1, cur.start_timestamp().logical() + w.Below(300)));
        s.set_save_physical(cur.save_physical());
        auto p = CallTso(n, s);
        vh::Count(p.error().errcode() ? "raced_resets_refused" : "raced_resets_done");
        usleep(w.Below(300));
      }
    });
    for (int k = 0; k < 12; ++k) {
      usleep(2000 + q.Below(4000));
      if (q.Chance(1, 3)) g_clock_ms -= q.Below(50);
      if (q.Chance(2, 3)) elect(q.Below(3));
    }
    stop = true;
    for (auto& t : th) t.join();
    ticker.join();
    setter.join();
    std::vector<Op> v;
    for (auto& o : ops) v.insert(v.end(), o.begin(), o.end());
    vh::Count("raced_batches", v.size());
    std::sort(v.begin(), v.end(), [](const Op& x, const Op& y) { return x.a < y.a; });
    for (size_t i = 1; i < v.size(); ++i)
      if (v[i].a < v[i - 1].b) { vh::Fail("timestamp-twice", Fmt("two concurrent requests got [%ld, %ld) and [%ld, %ld)", (long)v[i - 1].a, (long)v[i - 1].b, (long)v[i].a, (long)v[i].b)); break; }
    // Real time: one that was answered before another was asked is smaller.
    int64_t least_end = INT64_MAX;
    for (size_t i = v.size(); i-- > 0;) {
      if (least_end < v[i].begin) { vh::Fail("timestamp-back", "a request got a smaller timestamp than one that had been answered before it was sent"); break; }
      least_end = std::min(least_end, v[i].end);
    }
    vh::Case(vh::HashStr(Fmt("round %ld", (long)round)));
    delete T;
  }
}

// ---------------------------------------------------------------- auto increment
struct Counter { int64_t next; };
static std::map<int64_t, Counter> M;
static butil::Status Write(Node& n, CI::MetaIncrement& m, google::protobuf::Message* resp = nullptr) {
  auto ctx = std::make_shared<Context>(nullptr, nullptr, resp);
  ctx->SetRegionId(Constant::kAutoIncrementRegionId);
  return n.eng->Write(ctx, WriteDataBuilder::BuildWrite(ctx->CfName(), m));
}
static butil::Status Create(Node& n, int64_t t, int64_t start) {
  CI::MetaIncrement m;
  auto s = n.inc->CreateAutoIncrement(t, start, m);
  return s.ok() ? Write(n, m) : s;
}
static butil::Status Update(Node& n, int64_t t, int64_t start, bool force) {
  CI::MetaIncrement m;
  auto s = n.inc->UpdateAutoIncrement(t, start, force, m);
  return s.ok() ? Write(n, m) : s;
}
static butil::Status Restore(Node& n, int64_t t, int64_t start) {
  CI::MetaIncrement m;
  auto s = n.inc->CreateOrUpdateAutoIncrement(t, start, m);
  return s.ok() ? Write(n, m) : s;
}
static butil::Status Delete(Node& n, int64_t t) {
  CI::MetaIncrement m;
  auto s = n.inc->DeleteAutoIncrement(t, m);
  return s.ok() ? Write(n, m) : s;
}
static butil::Status Generate(Node& n, int64_t t, uint32_t count, uint32_t inc, uint32_t off, PM::GenerateAutoIncrementResponse* p) {
  CI::MetaIncrement m;
  auto s = n.inc->GenerateAutoIncrement(t, count, inc, off, m);
  if (!s.ok()) return s;
  s = Write(n, m, p);
  if (s.ok() && p->error().errcode() != 0) return butil::Status(p->error().errcode(), p->error().errmsg());
  return s;
}
// What a client makes of an answer: the values of [start, end) on its grid, which must be at least as many as it asked for.
static void CheckRange(int64_t a, int64_t b, uint32_t count, uint32_t inc, uint32_t off, int64_t next) {
  if (a != next) vh::Fail(a < next ? "id-twice" : "id-skipped", Fmt("ids are given from %ld on, the next one is %ld", (long)a, (long)next));
  if (off > inc) off = 1;
  __int128 first = a % inc == off % inc ? a : a - a % inc + off + (a % inc > off ? inc : 0);
  __int128 last = first + (__int128)(count - 1) * inc;
  if (b <= last) vh::Fail("too-few-ids", Fmt("%u ids of increment %u offset %u asked for from %ld on: [%ld, %ld) has not that many", count, inc, off, (long)next, (long)a, (long)b));
  if (b > last + 2 * (__int128)inc) vh::Fail("too-many-ids", Fmt("%u ids of increment %u offset %u asked for from %ld on: [%ld, %ld) is far more", count, inc, off, (long)next, (long)a, (long)b));
}
static void CheckCounters() {
  std::lock_guard<std::mutex> l(C->m);
  for (auto& n : C->nodes) {
    CatchUp(*n);
    butil::FlatMap<int64_t, int64_t> all;
    all.init(64);
    n->inc->GetAutoIncrements(all);
    if (all.size() != M.size()) vh::Fail("counters", Fmt("node %d has %zu counters, there are %zu", n->id, (size_t)all.size(), M.size()));
    for (auto& [t, c] : M) {
      int64_t v = -1;
      auto s = n->inc->GetAutoIncrement(t, v);
      if (!s.ok() || v != c.next) vh::Fail("counter", Fmt("node %d says the next id of table %ld is %ld, it is %ld", n->id, (long)t, (long)v, (long)c.next));
      if (auto* p = all.seek(t); !p || *p != c.next) vh::Fail("counter", Fmt("node %d lists another next id of table %ld", n->id, (long)t));
    }
  }
  vh::Count("counter_comparisons");
}
static uint32_t Odd(Rng& r, uint32_t max) {
  switch (r.Below(8)) {
    case 0: return 0;
    case 1: return max;
    case 2: return max + 1;
    case 3: return r.Chance(1, 4) ? UINT32_MAX : max - r.Below(10);
    case 4: case 5: return 1;
    default: return 1 + r.Below(r.Chance(1, 2) ? 20 : max);
  }
}
static void ElectInc(int i, Rng& r) {
  int old = C->lead;
  if (old >= 0) Stop(old);
  { std::lock_guard<std::mutex> l(C->m); CatchUp(*C->nodes[i]); C->lead = i; ++C->term; }
  LeadStart(i);
  vh::Count("elections");
}
static void RunInc(Rng& r) {
  int64_t rounds = vh::N(60, 600);
  for (int64_t round = 0; round < rounds; ++round) {
    Rng q(vh::Seed() * 1000003 + round);
    g_story.clear();
    M.clear();
    NewCluster(3, q);
    C->lag = q.Below(8);
    ElectInc(0, q);
    for (int step = 0; step < 150; ++step) {
      Node& n = L();
      int64_t t = 1 + q.Below(6);
      bool has = M.count(t);
      int64_t next = has ? M[t].next : 0;
      bool lost = q.Chance(1, 12), unknown = !lost && q.Chance(1, 12);
      C->refuse = lost;
      C->unknown = unknown;
      int64_t log = C->log.size();
      auto end = [&](const butil::Status& s, bool should, const std::function<void()>& effect, const std::string& what) {
        bool committed = (int64_t)C->log.size() > log;
        bool proposed = committed || (lost && C->refuse == 0);
        Say(what + (s.ok() ? "" : Fmt(" (refused%s)", lost ? ", lost" : unknown ? ", but committed" : "")));
        C->refuse = 0;
        C->unknown = 0;
        if (!should) {
          if (s.ok() && committed) vh::Fail("should-refuse", what + " was accepted");
        } else if (!proposed && !s.ok()) vh::Fail("should-accept", what + " was refused: " + s.error_str());
        if (should && committed) effect();
        if (lost && proposed && s.ok()) vh::Fail("lost-but-ok", what + " was answered as done although it was never committed");
      };
      switch (q.Below(12)) {
        case 0: case 1: {
          int64_t start = q.Chance(1, 8) ? next : q.Chance(1, 20) ? (1ll << 53) : 1 + q.Below(100000);
          auto s = Create(n, t, start);
          if (has) {
            if (s.ok() != (start == next) && !(start == next && (lost || unknown))) vh::Fail("create-exists", Fmt("creating counter %ld from %ld which is at %ld: %s", (long)t, (long)start, (long)next, s.error_cstr()));
            C->refuse = C->unknown = 0;
            vh::Count("creates_existing");
          } else {
            end(s, true, [&] { M[t].next = start; }, Fmt("create %ld from %ld", (long)t, (long)start));
            vh::Count("creates");
          }
          break;
        }
        case 2: {
          bool force = q.Chance(1, 3);
          int64_t start = q.Chance(1, 3) ? next + q.Range(-2, 2) : next + q.Range(-1000, 1000);
          auto s = Update(n, t, start, force);
          end(s, has && (force || start > next), [&] { M[t].next = start; }, Fmt("%supdate %ld to %ld", force ? "forced " : "", (long)t, (long)start));
          vh::Count("updates");
          break;
        }
        case 3: {
          int64_t start = std::max<int64_t>(1, q.Chance(1, 3) ? next + q.Range(-2, 2) : next + q.Range(-500, 1500));
          auto s = Restore(n, t, start);
          if (has && start == next) { C->refuse = C->unknown = 0; break; }
          end(s, !has || start > next, [&] { M[t].next = start; }, Fmt("restore %ld to %ld", (long)t, (long)start));
          vh::Count("restores");
          break;
        }
        case 4: {
          if (!q.Chance(1, 3)) break;
          auto s = Delete(n, t);
          if (!has) { C->refuse = C->unknown = 0; break; }
          end(s, true, [&] { M.erase(t); }, Fmt("delete %ld", (long)t));
          vh::Count("deletes");
          break;
        }
        case 5: ElectInc(q.Below(3), q); C->refuse = C->unknown = 0; break;
        case 6: {
          C->refuse = C->unknown = 0;
          std::lock_guard<std::mutex> l(C->m);
          Node& f = *C->nodes[(C->lead + 1 + q.Below(2)) % 3];
          if (q.Chance(1, 2)) SaveSnapshot(*C->nodes[q.Below(3)], f);
          Say(Fmt("node %d restarts%s", f.id, f.snapshot.empty() ? "" : " from a snapshot"));
          Restart(f);
          break;
        }
        default: {
          uint32_t count = Odd(q, 100000), inc = Odd(q, 65535), off = q.Chance(1, 2) ? 1 + q.Below(std::max<uint32_t>(1, std::min<uint32_t>(inc, 65535))) : Odd(q, 65535);
          PM::GenerateAutoIncrementResponse p;
          auto s = Generate(n, t, count, inc, off, &p);
          bool good = count && count <= 100000 && inc && inc <= 65535 && off && off <= 65535;
          int64_t after = -1;
          { std::lock_guard<std::mutex> l(C->m); CatchUp(n); n.inc->GetAutoIncrement(t, after); }
          if (s.ok()) CheckRange(p.start_id(), p.end_id(), count, inc, off, next);
          if (s.ok() && after != p.end_id()) vh::Fail("next", Fmt("ids up to %ld are given, the next one is %ld", (long)p.end_id(), (long)after));
          end(s, good && has, [&] { CheckRange(next, after, count, inc, off, next); M[t].next = after; }, Fmt("generate %u of %ld by %u from %u", count, (long)t, inc, off));
          vh::Count(s.ok() ? "generated" : "generate_refused");
          if (s.ok() && (uint64_t)count * inc > UINT32_MAX) vh::Count("generated_wide");
          vh::Case(vh::HashStr(Fmt("%u %u %u", count > 1000, inc, off > inc ? 0 : off)));
          break;
        }
      }
      if (q.Chance(1, 10)) CheckCounters();
    }
    CheckCounters();
    vh::Count("histories");
  }
}
// One request is proposed and held back while others are decided and applied.
static void DuelInc(Rng& r) {
  int64_t rounds = vh::N(600, 6000);
  vs_usleep() = nullptr;
  for (int64_t round = 0; round < rounds; ++round) {
    Rng q(vh::Seed() * 1000003 + round);
    g_story.clear();
    if (round % 50 == 0) { NewCluster(3, q); ElectInc(0, q); }
    Node& n = L();
    int64_t t = 100 + round, next = 1 + q.Below(1000), floor = 0;
    bool exists = q.Chance(3, 4);
    if (exists && !Create(n, t, next).ok()) vh::Broken("create");
    // (a, b) of every answer, in the order of the answers
    std::vector<std::pair<int64_t, int64_t>> given;
    std::mutex gm;
    auto gen = [&](uint32_t k) {
      PM::GenerateAutoIncrementResponse p;
      auto s = Generate(n, t, k, 1, 1, &p);
      std::lock_guard<std::mutex> l(gm);
      if (s.ok() && p.start_id() == 0 && p.end_id() == 0) { vh::Fail("empty-range", "a request for ids was answered as done without any"); return; }
      if (s.ok() && p.end_id() - p.start_id() != k) vh::Fail("too-few-ids", Fmt("%u ids asked for, [%ld, %ld) given", k, (long)p.start_id(), (long)p.end_id()));
      if (s.ok()) given.push_back({p.start_id(), p.end_id()});
    };
    int what = exists ? q.Below(4) : 4;
    C->hold = 1;
    butil::Status hs;
    int64_t to = next + 1 + q.Below(300);
    std::thread a([&] {
      switch (what) {
        case 0: hs = Update(n, t, to, false); break;
        case 1: hs = Restore(n, t, to); break;
        case 2: gen(1 + q.Below(50)); break;
        case 3: hs = Delete(n, t); break;
        default: hs = q.Chance(1, 2) ? Create(n, t, next) : Restore(n, t, next);
      }
    });
    if (!WaitHeld(1)) vh::Broken("nothing was proposed");
    Say(Fmt("%s is on its way", what == 0 ? "update" : what == 1 ? "restore" : what == 2 ? "generate" : what == 3 ? "delete" : "create"));
    butil::Status s2;
    bool second = false;
    if (what == 4) { s2 = Create(n, t, q.Chance(1, 2) ? next : next + q.Below(5)); second = true; }
    if (what <= 1 && q.Chance(1, 3)) { s2 = Update(n, t, next + 1 + q.Below(600), false); second = true; }
    int64_t floor2 = 0;
    if (second && s2.ok()) n.inc->GetAutoIncrement(t, floor2);
    std::vector<std::thread> more;
    for (int k = 1 + q.Below(3); k > 0; --k) gen(1 + q.Below(200));
    if (what == 2 && q.Chance(1, 3)) { if (!Delete(n, t).ok()) vh::Broken("delete"); Say("delete"); }
    Release();
    a.join();
    floor = (what <= 1 && hs.ok()) ? to : 0;
    size_t before = given.size();
    if (what != 3) for (int k = 1 + q.Below(2); k > 0; --k) gen(1 + q.Below(200));
    if (floor) for (size_t i = before; i < given.size(); ++i) if (given[i].first < floor) vh::Fail("update-undone", Fmt("ids from %ld on are given after the counter was set to %ld", (long)given[i].first, (long)floor));
    if (floor2) for (size_t i = before; i < given.size(); ++i) if (given[i].first < floor2) vh::Fail("update-undone", Fmt("ids from %ld on are given after the counter was set to %ld", (long)given[i].first, (long)floor2));
    auto v = given;
    std::sort(v.begin(), v.end());
    for (size_t i = 1; i < v.size(); ++i)
      if (v[i].first < v[i - 1].second) vh::Fail("id-twice", Fmt("[%ld, %ld) and [%ld, %ld) were given to two requests", (long)v[i - 1].first, (long)v[i - 1].second, (long)v[i].first, (long)v[i].second));
    vh::Count(Fmt("duels_%d", what).c_str());
    vh::Case(vh::HashStr(Fmt("%d %zu %d", what, given.size(), (int)second)));
  }
}
static void RaceInc(Rng& r) {
  int64_t rounds = vh::N(15, 150);
  vs_usleep() = nullptr;
  for (int64_t round = 0; round < rounds; ++round) {
    Rng q(vh::Seed() * 7919 + round);
    NewCluster(3, q);
    ElectInc(0, q);
    for (int t = 1; t <= 3; ++t) if (!Create(L(), t, 1).ok()) vh::Broken("create");
    struct Op { int64_t begin, end, a, b; };
    std::vector<std::vector<Op>> ops(24);
    std::atomic<int64_t> seq{0};
    std::vector<std::thread> th;
    std::atomic<bool> stop{false};
    for (int k = 0; k < 6; ++k) th.emplace_back([&, k] {
      Rng w(vh::Seed() + round * 100 + k);
      for (int i = 0; i < 120; ++i) {
        int t = 1 + w.Below(3);
        Node& n = *C->nodes[C->lead.load()];
        if (w.Chance(1, 15)) { int64_t v = 0; n.inc->GetAutoIncrement(t, v); Update(n, t, v + w.Below(50), false); continue; }
        PM::GenerateAutoIncrementResponse p;
        uint32_t inc = 1 + w.Below(5), off = 1 + w.Below(inc), count = 1 + w.Below(100);
        int64_t b = ++seq;
        auto s = Generate(n, t, count, inc, off, &p);
        int64_t e = ++seq;
        if (s.ok()) ops[k * 4 + t].push_back({b, e, p.start_id(), p.end_id()});
      }
    });
    std::thread boss([&] { Rng w(round + 1); while (!stop) { usleep(500 + w.Below(3000)); if (w.Chance(1, 2)) C->refuse = 1; else ElectInc(w.Below(3), w); butil::FlatMap<int64_t, int64_t> all; all.init(64); L().inc->GetAutoIncrements(all); } });
    for (auto& x : th) x.join();
    stop = true;
    boss.join();
    C->refuse = 0;
    for (int t = 1; t <= 3; ++t) {
      std::vector<Op> v;
      for (int k = 0; k < 6; ++k) v.insert(v.end(), ops[k * 4 + t].begin(), ops[k * 4 + t].end());
      std::sort(v.begin(), v.end(), [](const Op& x, const Op& y) { return x.a < y.a; });
      int64_t least_end = INT64_MAX;
      for (size_t i = 1; i < v.size(); ++i) if (v[i].a < v[i - 1].b) { vh::Fail("id-twice", Fmt("[%ld, %ld) and [%ld, %ld) were given to two requests", (long)v[i - 1].a, (long)v[i - 1].b, (long)v[i].a, (long)v[i].b)); break; }
      for (size_t i = v.size(); i-- > 0;) {
        if (least_end < v[i].begin) { vh::Fail("id-back", "a request got smaller ids than one that had been answered before it was sent"); break; }
        least_end = std::min(least_end, v[i].end);
      }
      vh::Count("raced_ranges", v.size());
    }
    vh::Case(vh::HashStr(Fmt("round %ld", (long)round)));
  }
}

int main(int argc, char** argv) {
  vh::Init(argc, argv);
  char tmp[] = "/tmp/ids.XXXXXX";
  g_root = mkdtemp(tmp);
  atexit([] { std::filesystem::remove_all(g_root); });
  senv::Start("store", g_root + "/env", false);
  InstallHooks();
  Rng r(vh::Seed());
  std::string mode = vh::Arg("mode", "tso");
  g_tso = mode.substr(0, 3) == "tso";
  if (mode == "tso") RunTso(r);
  else if (mode == "tsorace") RaceTso(r);
  else if (mode == "inc") RunInc(r);
  else if (mode == "incduel") DuelInc(r);
  else if (mode == "incrace") RaceInc(r);
  else vh::Broken("mode");
  std::filesystem::remove_all(g_root);
  return vh::Finish();
}
