// The coordinator's version KV: a group of KvControl replicas behind the real service, raft engine, state machine and
// metadata storage. The harness keeps the raft log, elects leaders, crashes nodes at storage writes, installs snapshots,
// moves the clock, and judges everything observable against an independent model of revisions, leases and watches.
#include <filesystem>
#include <thread>

#include "common/service_access.h"
#include "coordinator/kv_control.h"
#include "raft/meta_state_machine.h"
#include "server/version_service.h"
#include "svc.h"

using namespace dingodb;
namespace V = dingodb::pb::version;
using svc::Waiter;
using vh::Fmt;
using vh::Rng;

// Asking another node for its addresses: no network here, the answer is that node itself.
namespace dingodb {
pb::node::NodeInfo ServiceAccess::GetNodeInfo(const std::string& host, int port) {
  pb::node::NodeInfo i;
  for (auto* l : {i.mutable_server_location(), i.mutable_raft_location()}) { l->set_host(host); l->set_port(port); }
  return i;
}
}  // namespace dingodb

struct Crash {};
static std::atomic<int64_t> g_crash_in{-1};  // storage writes of g_crash_path until the simulated crash
static std::string g_crash_path;
static std::atomic<int> g_crashes{0};

struct Node {
  int id;
  std::string path;
  std::shared_ptr<RocksRawEngine> raw;
  std::shared_ptr<MetaReader> reader;
  std::shared_ptr<MetaWriter> writer;
  std::shared_ptr<KvControl> kv;
  std::shared_ptr<MetaStateMachine> fsm;
  std::shared_ptr<RaftStoreEngine> eng;
  std::unique_ptr<VersionServiceProtoImpl> svc;
  bool down{false};
  int64_t base{0};  // entries up to here come from an installed snapshot, not from this node's log
  std::string snapshot;
  int64_t snapshot_term{0};
};
struct Ent { int64_t term; butil::IOBuf data; };
struct Cluster {
  std::mutex m;
  std::vector<std::unique_ptr<Node>> nodes;
  std::vector<Ent> log;
  std::atomic<int> lead{-1};
  std::atomic<int64_t> term{0};
  std::atomic<bool> refuse{false};
  bool leader_crashed{false};
};
static Cluster* C;
static int g_gen = 0;
static WorkerSetPtr g_workers;
static std::string g_root;

static void Build(Node& n) {
  n.kv = std::make_shared<KvControl>(n.reader, n.writer, n.raw);
  if (!n.kv->Recover()) vh::Fail("recover", "a replica could not load its own stored state");
  n.fsm = std::make_shared<MetaStateMachine>(Constant::kKvRegionId, n.kv, false);
  n.eng = RaftStoreEngine::New(n.raw, nullptr, nullptr);
  auto d = std::make_shared<pb::common::RegionDefinition>();
  d->set_id(Constant::kKvRegionId);
  d->set_name(Fmt("n%d-%d", n.id, ++g_gen));
  auto* p = d->add_peers();
  p->mutable_raft_location()->set_host("127.0.0.1");
  p->mutable_raft_location()->set_port(20101);
  if (!n.eng->AddNode(d, n.kv, false).ok()) vh::Broken("AddNode");
  n.kv->SetKvEngine(n.eng);
  n.svc = std::make_unique<VersionServiceProtoImpl>();
  n.svc->SetControl(n.kv);
  n.svc->SetKvEngine(n.eng);
  n.svc->SetWorkSet(g_workers);
}
static void Discard(Node& n) {
  if (n.kv) n.kv->SetRaftNode(nullptr);
  n.svc.reset();
  n.eng.reset();
  n.fsm.reset();
  n.kv.reset();
}
static std::unique_ptr<Node> NewNode(int id) {
  static int seq = 0;
  auto n = std::make_unique<Node>();
  n->id = id;
  n->path = g_root + Fmt("/node%d_%d", id, ++seq);
  n->raw = std::make_shared<RocksRawEngine>();
  auto cfg = std::make_shared<YamlConfig>();
  if (cfg->Load("store:\n  path: " + n->path + "\n") != 0) vh::Broken("config");
  if (!n->raw->Init(cfg, Helper::GetColumnFamilyNamesByRole())) vh::Broken("engine");
  n->reader = std::make_shared<MetaReader>(n->raw);
  n->writer = std::make_shared<MetaWriter>(n->raw);
  Build(*n);
  return n;
}
static void DropNode(Node& n) {
  Discard(n);
  n.reader.reset();
  n.writer.reset();
  n.raw.reset();
  vsrocks::Forget(n.path + "/rocksdb");
}
struct DirWriter : braft::SnapshotWriter {
  std::string dir;
  std::set<std::string> files;
  std::string get_path() override { return dir; }
  void list_files(std::vector<std::string>* f) override { for (auto& x : files) f->push_back(x); }
  int add_file(const std::string& n, const ::google::protobuf::Message*) override { files.insert(n); return 0; }
  int remove_file(const std::string& n) override { files.erase(n); return 0; }
};
struct DirReader : braft::SnapshotReader {
  std::string dir;
  int64_t index, term;
  std::string get_path() override { return dir; }
  void list_files(std::vector<std::string>* f) override { f->push_back("data"); }
  int load_meta(braft::SnapshotMeta* m) override { m->set_last_included_index(index); m->set_last_included_term(term); return 0; }
};
struct SaveDone : braft::Closure {
  Waiter w;
  void Run() override { w.Run(); }
};

// One entry (or several) through a replica's state machine. false: the node crashed meanwhile.
static bool ApplyTo(Node& n, int64_t from, int64_t to) {
  if (from > to) return true;
  std::vector<braft::Iterator::E> v;
  for (int64_t i = from; i <= to; ++i) v.push_back({i, C->log[i - 1].term, C->log[i - 1].data, nullptr});
  try {
    braft::Iterator it(std::move(v));
    n.fsm->on_apply(it);
  } catch (Crash&) {
    return false;
  }
  return true;
}
static int64_t AppliedIndex(Node& n) {
  int64_t t = 0, i = 0;
  n.kv->GetAppliedTermAndIndex(t, i);
  return i;
}
// Restarts a node from what it had stored: its snapshot (as the consensus layer does), then its log from some entry on.
static void Restart(Node& n, Rng& r) {
  for (int tries = 0;; ++tries) {
    if (tries == 6) g_crash_in = -1;
    Discard(n);
    Build(n);
    bool ok = true;
    if (!n.snapshot.empty()) {
      DirReader rd;
      rd.dir = n.snapshot;
      rd.index = n.base;
      rd.term = n.snapshot_term;
      try {
        if (n.fsm->on_snapshot_load(&rd) != 0) vh::Fail("snapshot-load", "a snapshot could not be installed");
      } catch (Crash&) {
        ok = false;
      }
    }
    if (ok) {
      int64_t a = std::max(n.base, AppliedIndex(n));
      int64_t from = std::max<int64_t>(n.base + 1, a + 1 - r.Below(12));
      if (r.Chance(1, 4)) from = n.base + 1;
      vh::Count("replayed_entries", std::max<int64_t>(0, a - from + 1));
      ok = ApplyTo(n, from, C->log.size());
    }
    vh::Count("restarts");
    if (ok) break;
    vh::Count("crashes_during_recovery");
    if (r.Chance(1, 2)) g_crash_in = r.Below(20);
  }
  n.down = false;
}
static void InstallHooks() {
  braft::Node::vs_apply = [](braft::Node* bn, const braft::Task& t) {
    std::lock_guard<std::mutex> l(C->m);
    int id = atoi(bn->vs_group().c_str() + 1);
    if (C->refuse || C->lead != id) {
      t.done->status().set_error(EPERM, "is not leader");
      t.done->Run();
      return;
    }
    butil::IOBuf d;
    d.append(*t.data);
    C->log.push_back({C->term, d});
    int64_t ix = C->log.size();
    try {
      braft::Iterator it({{ix, C->term, d, t.done}});
      bn->vs_options().fsm->on_apply(it);
    } catch (Crash&) {
      C->leader_crashed = true;
    }
    for (auto& n : C->nodes) {
      if (n->id == id || n->down) continue;
      if (!ApplyTo(*n, ix, ix)) { n->down = true; vh::Count("follower_crashes"); }
    }
  };
  vsrocks::ctl().before_write = [](const std::string& path, const std::vector<vsrocks::Op>&, bool) {
    if (g_crash_in.load() >= 0 && path == g_crash_path && g_crash_in.fetch_sub(1) == 0) {
      ++g_crashes;
      throw Crash();
    }
    return true;
  };
}
static void Elect(int i, bool build_leases = true) {
  C->lead = i;
  ++C->term;
  C->nodes[i]->fsm->on_leader_start(C->term);
  if (build_leases) C->nodes[i]->kv->LeaseTask();
}
static Node& L() { return *C->nodes[C->lead]; }
static void NewCluster(int n) {
  if (C) {
    for (auto& x : C->nodes) DropNode(*x);
    std::filesystem::remove_all(g_root + "/snap");
    delete C;
  }
  g_crash_in = -1;
  C = new Cluster;
  for (int i = 0; i < n; ++i) C->nodes.push_back(NewNode(i));
  Elect(0);
}
template <class Q, class R>
static void CallOn(Node& n, void (VersionServiceProtoImpl::*m)(google::protobuf::RpcController*, const Q*, R*, google::protobuf::Closure*), const Q& q, R* r) {
  Q copy(q);
  brpc::Controller cntl;
  Waiter w;
  ((*n.svc).*m)(&cntl, &copy, r, &w);
  w.Wait();
}
template <class Q, class R>
static void Call(void (VersionServiceProtoImpl::*m)(google::protobuf::RpcController*, const Q*, R*, google::protobuf::Closure*), const Q& q, R* r) { CallOn(L(), m, q, r); }
using S = VersionServiceProtoImpl;

// ---------------------------------------------------------------- model
typedef std::pair<int64_t, int64_t> Rev;
struct Rec { std::string key, value; Rev create, mod; int64_t version{0}, lease{0}; bool deleted{false}; };
struct Gen { bool open{false}; Rev create; int64_t version{0}; std::vector<Rev> revs; };
struct Key { std::vector<Gen> gens; Rev mod; };
struct Lease { int64_t ttl, last; };
struct Watch {
  std::unique_ptr<Waiter> w;
  std::unique_ptr<V::WatchResponse> resp;
  std::unique_ptr<V::WatchRequest> req;
  std::unique_ptr<brpc::Controller> cntl;
  std::string key;
  int64_t start;
  bool noput, nodel, prev, cancelled{false};
  std::string desc;
};
struct Model {
  std::map<std::string, Key> keys;
  std::map<Rev, Rec> revs;
  int64_t last{10000}, next_lease{90000};
  std::map<int64_t, Lease> leases;
  std::vector<Watch> watches;
  const Rec* Live(const std::string& k) const {
    auto it = keys.find(k);
    if (it == keys.end() || it->second.gens.empty() || !it->second.gens.back().open) return nullptr;
    return &revs.at(it->second.mod);
  }
  std::vector<const Rec*> Range(const std::string& a, const std::string& b) const {
    std::vector<const Rec*> v;
    if (b.empty()) { if (auto* r = Live(a)) v.push_back(r); return v; }
    for (auto it = keys.lower_bound(a); it != keys.end() && (b == std::string(1, '\0') || it->first < b); ++it)
      if (auto* r = Live(it->first)) v.push_back(r);
    return v;
  }
  std::set<std::string> LeaseKeys(int64_t id) const {
    std::set<std::string> s;
    for (auto& k : keys) if (auto* r = Live(k.first)) if (r->lease == id) s.insert(k.first);
    return s;
  }
};
static Model* M;
static std::string Show(const V::Kv& k) {
  return Fmt("{key %s value %s create %ld mod %ld version %ld lease %ld}", vh::Hex(k.kv().key()).c_str(), vh::Hex(k.kv().value()).c_str(), (long)k.create_revision(), (long)k.mod_revision(), (long)k.version(), (long)k.lease());
}
static V::Kv Pb(const Rec& r, bool keys_only = false) {
  V::Kv k;
  k.set_create_revision(r.create.first);
  k.set_mod_revision(r.mod.first);
  k.set_version(r.version);
  k.set_lease(r.lease);
  k.mutable_kv()->set_key(r.key);
  if (!keys_only) k.mutable_kv()->set_value(r.value);
  return k;
}
static bool Same(const V::Kv& a, const V::Kv& b) {
  return a.create_revision() == b.create_revision() && a.mod_revision() == b.mod_revision() && a.version() == b.version() && a.lease() == b.lease() && a.kv().key() == b.kv().key() && a.kv().value() == b.kv().value();
}
static bool Empty(const V::Kv& a) { return Same(a, V::Kv()); }

// A watch fires at most once, for the first change of its key that its filters let through.
static void Fire(const Rec& now, const Rec* before, bool del) {
  std::vector<Watch> keep;
  for (auto& w : M->watches) {
    if (w.key != now.key || (del ? w.nodel : w.noput) || w.start > now.mod.first) { keep.push_back(std::move(w)); continue; }
    vh::Count(del ? "watch_deletes" : "watch_puts");
    // The answer is on its way as soon as the change is applied.
    for (int i = 0; i < 2000; ++i) { { std::lock_guard<std::mutex> g(w.w->m); if (w.w->runs) break; } usleep(1000); }
    std::lock_guard<std::mutex> g(w.w->m);
    if (w.w->runs == 0) { vh::Fail("watch-missed", w.desc + " got no answer although its key changed at revision " + std::to_string(now.mod.first)); w.cntl.release(); w.w.release(); w.resp.release(); w.req.release(); continue; }
    if (w.w->runs != 1) vh::Fail("watch-twice", w.desc + " was answered more than once");
    if (w.resp->error().errcode() != 0 || w.resp->events_size() != 1) { vh::Fail("watch-answer", w.desc + " must carry one event, got " + w.resp->ShortDebugString()); continue; }
    auto& e = w.resp->events(0);
    if (e.type() != (del ? V::Event::DELETE : V::Event::PUT)) vh::Fail("watch-type", w.desc + " reported the wrong kind of change: " + w.resp->ShortDebugString());
    V::Kv want = Pb(now);
    if (!Same(e.kv(), want)) vh::Fail("watch-kv", w.desc + " reported " + Show(e.kv()) + ", the change was " + Show(want));
    if (w.prev) {
      V::Kv p = before ? Pb(*before) : V::Kv();
      if (!Same(e.prev_kv(), p)) vh::Fail(del ? "watch-prev-delete" : "watch-prev", w.desc + " reported previous " + Show(e.prev_kv()) + ", it was " + Show(p));
    } else if (!Empty(e.prev_kv())) vh::Fail("watch-prev-unasked", w.desc + " carried a previous value nobody asked for");
  }
  M->watches = std::move(keep);
}
static void CheckQuiet() {
  for (auto& w : M->watches) {
    std::lock_guard<std::mutex> g(w.w->m);
    if (w.w->runs) { vh::Fail("watch-early", w.desc + " was answered although nothing it waits for happened: " + w.resp->ShortDebugString()); }
  }
}
// Completes the pending watches that `pick` selects: they must be answered once, without an event.
static void EndWatches(const std::function<bool(const Watch&)>& pick, const char* why) {
  std::vector<Watch> keep;
  for (auto& w : M->watches) {
    if (!pick(w)) { keep.push_back(std::move(w)); continue; }
    for (int i = 0; i < 2000; ++i) { { std::lock_guard<std::mutex> g(w.w->m); if (w.w->runs) break; } usleep(1000); }
    std::lock_guard<std::mutex> g(w.w->m);
    if (w.w->runs == 0) { vh::Fail(std::string("watch-hangs-") + why, w.desc + " got no answer after " + why); w.cntl.release(); w.w.release(); w.resp.release(); w.req.release(); continue; }
    if (w.w->runs != 1) vh::Fail("watch-twice", w.desc + " was answered more than once");
    if (w.resp->events_size()) vh::Fail("watch-phantom", w.desc + " was answered with an event that never happened: " + w.resp->ShortDebugString());
    vh::Count(std::string("watch_ended_") + why);
  }
  M->watches = std::move(keep);
}
static void MPut(const std::string& k, const std::string& v, int64_t lease, Rev at) {
  const Rec* live = M->Live(k);
  Rec before;
  if (live) before = *live;
  Key& e = M->keys[k];
  if (e.gens.empty() || !e.gens.back().open) {
    if (e.gens.empty()) e.gens.push_back({});
    e.gens.back() = Gen{true, at, 0, {}};
  }
  Gen& g = e.gens.back();
  ++g.version;
  g.revs.push_back(at);
  e.mod = at;
  Rec r{k, v, g.create, at, g.version, lease, false};
  M->revs[at] = r;
  Fire(r, live ? &before : nullptr, false);
}
static void MDel(const std::string& k, Rev at) {
  Rec before = *M->Live(k);
  Key& e = M->keys[k];
  Gen& g = e.gens.back();
  ++g.version;
  g.revs.push_back(at);
  Rec r{k, "", g.create, at, g.version, 0, true};
  e.mod = at;
  e.gens.push_back({});
  M->revs[at] = r;
  Fire(r, &before, true);
}
static void MCompact(const std::string& k, int64_t c) {
  auto it = M->keys.find(k);
  if (it == M->keys.end()) return;
  Key& e = it->second;
  std::vector<Gen> out;
  for (size_t i = 0; i < e.gens.size(); ++i) {
    Gen& g = e.gens[i];
    if (!g.open) { if (!out.empty()) out.push_back(g); continue; }
    Gen n{true, g.create, g.version, {}};
    for (auto& r : g.revs) {
      bool current = i + 1 == e.gens.size() && r == e.mod;
      if (r.first < c && !current) { M->revs.erase(r); vh::Count("revisions_compacted"); }
      else n.revs.push_back(r);
    }
    if (!n.revs.empty()) out.push_back(n);
  }
  if (out.empty()) M->keys.erase(it);
  else e.gens = out;
}

// ---------------------------------------------------------------- judging the store
static void CheckRange(const std::string& a, const std::string& b, int64_t limit, bool keys_only, bool count_only) {
  V::RangeRequest q;
  q.set_key(a);
  q.set_range_end(b);
  q.set_limit(limit);
  q.set_keys_only(keys_only);
  q.set_count_only(count_only);
  V::RangeResponse p;
  Call(&S::KvRange, q, &p);
  auto want = M->Range(a, b);
  size_t total = want.size(), n = limit > 0 ? std::min<size_t>(limit, total) : total;
  std::string d = Fmt("range [%s, %s) limit %ld%s%s", vh::Hex(a).c_str(), vh::Hex(b).c_str(), (long)limit, keys_only ? " keys" : "", count_only ? " count" : "");
  vh::Count(count_only ? "counts" : "ranges");
  if (p.error().errcode()) { vh::Fail("range-error", d + ": " + p.error().ShortDebugString()); return; }
  if (p.more() != (n < total)) vh::Fail("range-more", Fmt("%s over %zu keys answered more=%d", d.c_str(), total, (int)p.more()));
  if (p.count() != (int64_t)n) vh::Fail(count_only ? "range-count-only" : "range-count", Fmt("%s over %zu keys counted %ld", d.c_str(), total, (long)p.count()));
  if (count_only) { if (p.kvs_size()) vh::Fail("range-count-data", d + " returned keys"); return; }
  if (p.kvs_size() != (int)n) { vh::Fail("range-size", Fmt("%s returned %d keys of %zu", d.c_str(), p.kvs_size(), n)); return; }
  for (size_t i = 0; i < n; ++i) {
    V::Kv w = Pb(*want[i], keys_only);
    if (!Same(p.kvs(i), w)) { vh::Fail("range-kv", d + " returned " + Show(p.kvs(i)) + ", must be " + Show(w)); return; }
  }
}
static void CheckKeyRaw(const std::string& k) {
  V::GetRawKvIndexRequest q;
  q.set_key(k);
  V::GetRawKvIndexResponse p;
  Call(&S::GetRawKvIndex, q, &p);
  auto it = M->keys.find(k);
  if ((it != M->keys.end()) != (p.error().errcode() == 0)) { vh::Fail("index-presence", "history of key " + vh::Hex(k) + (it != M->keys.end() ? " is missing" : " must be gone, is " + p.ShortDebugString())); return; }
  if (it == M->keys.end()) return;
  auto& e = it->second;
  auto& x = p.kvindex();
  std::string have, want;
  auto add = [](std::string& s, int64_t a, int64_t b) { s += Fmt("%ld.%ld ", (long)a, (long)b); };
  add(want, e.mod.first, e.mod.second);
  for (auto& g : e.gens) { want += "| "; if (g.open) { add(want, g.create.first, g.create.second); want += Fmt("v%ld: ", (long)g.version); for (auto& r : g.revs) add(want, r.first, r.second); } }
  add(have, x.mod_revision().main(), x.mod_revision().sub());
  for (auto& g : x.generations()) { have += "| "; if (g.revisions_size()) { add(have, g.create_revision().main(), g.create_revision().sub()); have += Fmt("v%ld: ", (long)g.verison()); for (auto& r : g.revisions()) add(have, r.main(), r.sub()); } }
  if (have != want) vh::Fail("index", "history of key " + vh::Hex(k) + " is " + have + ", must be " + want);
  for (auto& g : e.gens) for (auto& r : g.revs) {
    V::GetRawKvRevRequest rq;
    rq.mutable_revision()->set_main(r.first);
    rq.mutable_revision()->set_sub(r.second);
    V::GetRawKvRevResponse rp;
    Call(&S::GetRawKvRev, rq, &rp);
    auto& m = M->revs.at(r);
    auto& v = rp.kvrev().kv();
    vh::Count("revisions_read");
    if (rp.error().errcode() || v.id() != m.key || v.value() != m.value || v.create_revision().main() != m.create.first || v.create_revision().sub() != m.create.second || v.mod_revision().main() != m.mod.first ||
        v.mod_revision().sub() != m.mod.second || v.version() != m.version || v.lease() != m.lease || v.is_deleted() != m.deleted)
      vh::Fail("revision", Fmt("revision %ld.%ld of key %s holds %s, must be value %s version %ld create %ld lease %ld deleted %d", (long)r.first, (long)r.second, vh::Hex(k).c_str(), rp.ShortDebugString().c_str(),
                               vh::Hex(m.value).c_str(), (long)m.version, (long)m.create.first, (long)m.lease, (int)m.deleted));
  }
}
static void CheckCounts() {
  V::HelloRequest q;
  q.set_get_memory_info(true);
  V::HelloResponse p;
  Call(&S::Hello, q, &p);
  auto& i = p.memory_info();
  if (i.kv_rev_map_count() != (int64_t)M->revs.size()) vh::Fail("revision-count", Fmt("%ld revisions are stored, %zu must be", (long)i.kv_rev_map_count(), M->revs.size()));
  if (i.kv_index_map_count() != (int64_t)M->keys.size()) vh::Fail("key-count", Fmt("%ld keys are indexed, %zu must be", (long)i.kv_index_map_count(), M->keys.size()));
  if (i.kv_lease_map_count() != (int64_t)M->leases.size()) vh::Fail("lease-count", Fmt("%ld leases are stored, %zu must be", (long)i.kv_lease_map_count(), M->leases.size()));
}
static bool leases_ready = true;  // the leader has collected the keys of every lease
static int64_t Now() { return butil::gettimeofday_s(); }
static void CheckLeases() {
  V::ListLeasesRequest q;
  V::ListLeasesResponse p;
  Call(&S::ListLeases, q, &p);
  std::set<int64_t> have, want;
  for (auto& l : p.leases()) have.insert(l.id());
  for (auto& l : M->leases) want.insert(l.first);
  if (have != want || p.leases_size() != (int)want.size()) vh::Fail("lease-list", Fmt("%d leases are listed, %zu exist", p.leases_size(), want.size()));
  if (!leases_ready) return;
  for (auto& l : M->leases) {
    V::LeaseQueryRequest lq;
    lq.set_id(l.first);
    lq.set_keys(true);
    V::LeaseQueryResponse lp;
    Call(&S::LeaseQuery, lq, &lp);
    int64_t left = l.second.ttl - (Now() - l.second.last);
    vh::Count("lease_queries");
    if (left <= 0) { if (!lp.error().errcode()) vh::Fail("lease-expired-query", Fmt("lease %ld expired %ld s ago and still answers", (long)l.first, (long)-left)); continue; }
    if (lp.error().errcode()) { vh::Fail("lease-query", Fmt("lease %ld: %s", (long)l.first, lp.error().ShortDebugString().c_str())); continue; }
    if (lp.ttl() != left || lp.grantedttl() != l.second.ttl) vh::Fail("lease-ttl", Fmt("lease %ld has %ld of %ld s left, must be %ld of %ld", (long)l.first, (long)lp.ttl(), (long)lp.grantedttl(), (long)left, (long)l.second.ttl));
    std::set<std::string> ks(lp.keys().begin(), lp.keys().end());
    if (ks != M->LeaseKeys(l.first)) vh::Fail("lease-keys", Fmt("lease %ld lists %zu keys, %zu live keys hold it", (long)l.first, ks.size(), M->LeaseKeys(l.first).size()));
  }
}
static std::vector<std::pair<std::string, std::string>> Stored(Node& n) { return svc::Dump(*n.raw, Constant::kStoreMetaCF); }
static void CheckReplicas() {
  auto want = Stored(L());
  for (auto& n : C->nodes) {
    if (n->id == C->lead || n->down) continue;
    auto have = Stored(*n);
    vh::Count("replica_comparisons");
    if (have == want) continue;
    std::string d;
    std::map<std::string, std::string> a(want.begin(), want.end()), b(have.begin(), have.end());
    for (auto& x : a) if (!b.count(x.first) || b[x.first] != x.second) { d = "entry " + vh::Hex(x.first) + " leader " + vh::Hex(x.second) + " replica " + (b.count(x.first) ? vh::Hex(b[x.first]) : "none"); break; }
    if (d.empty()) for (auto& x : b) if (!a.count(x.first)) { d = "replica alone stores " + vh::Hex(x.first); break; }
    vh::Fail("replica-differs", Fmt("after %zu entries replica %d differs from the leader: ", C->log.size(), n->id) + d);
  }
}
static void CheckAll() {
  CheckRange(std::string(1, '\0'), std::string(1, '\0'), 0, false, false);
  for (auto& k : M->keys) CheckKeyRaw(k.first);
  CheckCounts();
  CheckLeases();
  CheckReplicas();
  CheckQuiet();
}

// ---------------------------------------------------------------- operations
struct Driver {
  Rng& r;
  std::vector<std::string> pool;
  std::string trace;
  explicit Driver(Rng& rr) : r(rr) {
    for (auto& s : {"a", "aa", "ab", "b", "b1", "key", "key1", "key2", "k\xff", "zz"}) pool.push_back(s);
    pool.push_back(std::string("a\0", 2));
    pool.push_back(std::string("\0", 1));
    pool.push_back(std::string("\xff\xff", 2));
    pool.push_back(std::string(1 + r.Below(40), 'x'));
    pool.push_back(r.Bytes(1 + r.Below(12)));
  }
  void Note(const std::string& s) {
    trace += s + "; ";
    if (trace.size() > 3000) trace = trace.substr(trace.size() - 3000);
    vh::SetCase(trace);
  }
  std::string K() { return r.Pick(pool); }
  std::string Val() { return r.Bytes(1 + r.Below(r.Chance(1, 20) ? 4000 : 20)); }
  int64_t AnyLease() {
    if (M->leases.empty() || r.Chance(1, 10)) return 777000 + r.Below(3);
    auto it = M->leases.begin();
    std::advance(it, r.Below(M->leases.size()));
    return it->first;
  }
  bool Usable(int64_t id) { auto it = M->leases.find(id); return it != M->leases.end() && it->second.ttl - (Now() - it->second.last) > 0; }

  void Put() {
    V::PutRequest q;
    std::string k = K();
    const Rec* live = M->Live(k);
    int64_t lease = 0;
    bool ilease = false, ivalue = false, bad = false;
    int how = r.Below(12);
    if (how < 3 && leases_ready) lease = AnyLease();
    if (live && r.Chance(2, 3)) lease = live->lease;
    if (!leases_ready && lease) { lease = 0; if (live && live->lease) return; }
    if (how == 3 && live) ilease = true;
    if (how == 3 && !live) { ilease = true; bad = true; }
    if (!leases_ready && ilease && live && live->lease) return;
    if (r.Chance(1, 8) && live) ivalue = true;
    std::string v = Val();
    if (r.Chance(1, 40)) { k.clear(); bad = true; }
    else if (r.Chance(1, 40)) { k.assign(4097 + r.Below(5), 'k'); bad = true; ilease = false; }
    else if (r.Chance(1, 40) && !ivalue) { v.clear(); bad = true; }
    else if (r.Chance(1, 60) && !ivalue) { v.assign(8193, 'v'); bad = true; }
    if (!bad && !ilease && lease && !Usable(lease)) bad = true;
    if (!bad && !ilease && live && live->lease != lease) bad = true;
    if (ivalue && r.Chance(1, 2)) v.clear();
    q.mutable_key_value()->set_key(k);
    q.mutable_key_value()->set_value(v);
    q.set_lease(lease);
    q.set_ignore_lease(ilease);
    q.set_ignore_value(ivalue);
    q.set_need_prev_kv(r.Chance(1, 2));
    Note(Fmt("put %s lease %ld%s%s%s", vh::Hex(k.substr(0, 12)).c_str(), (long)lease, ilease ? " keep-lease" : "", ivalue ? " keep-value" : "", bad ? " (refused)" : ""));
    V::PutResponse p;
    if (C->refuse) bad = true;
    Call(&S::KvPut, q, &p);
    if (bad) {
      vh::Count("puts_refused");
      if (!p.error().errcode()) vh::Fail("put-accepted", "a put that must be refused was accepted");
      return;
    }
    vh::Count("puts");
    vh::Case(vh::Mix(vh::HashStr(k + v), (live != nullptr) * 8 + ilease * 4 + ivalue * 2 + (lease != 0)));
    if (C->leader_crashed) { /* committed; the answer is lost */ }
    else if (p.error().errcode()) { vh::Fail("put-refused", "a put was refused: " + p.error().ShortDebugString()); return; }
    else {
      if (p.header().revision() != M->last + 1) vh::Fail("put-revision", Fmt("a put answered revision %ld, the next one is %ld", (long)p.header().revision(), (long)M->last + 1));
      V::Kv want = q.need_prev_kv() && live ? Pb(*live) : V::Kv();
      if (!Same(p.prev_kv(), want)) vh::Fail("put-prev", "a put answered previous " + Show(p.prev_kv()) + ", it was " + Show(want));
    }
    if (ivalue) { vh::Count("puts_keep_value"); v = live->value; }
    if (ilease) { vh::Count("puts_keep_lease"); lease = live->lease; }
    if (lease) vh::Count("puts_leased");
    MPut(k, v, lease, {++M->last, 1});
  }
  void Delete() {
    V::DeleteRangeRequest q;
    std::string a = K(), b;
    if (r.Chance(1, 2)) b = r.Chance(1, 6) ? std::string(1, '\0') : K();
    q.set_key(a);
    q.set_range_end(b);
    q.set_need_prev_kv(r.Chance(1, 2));
    auto want = M->Range(a, b);
    std::vector<Rec> recs;
    for (auto* x : want) recs.push_back(*x);
    Note(Fmt("delete [%s,%s) of %zu", vh::Hex(a).c_str(), vh::Hex(b).c_str(), recs.size()));
    V::DeleteRangeResponse p;
    Call(&S::KvDeleteRange, q, &p);
    vh::Count("deletes");
    if (recs.size() > 1) vh::Count("multi_deletes");
    if (!C->leader_crashed) {
      if (p.error().errcode()) { vh::Fail("delete-refused", "a delete was refused: " + p.error().ShortDebugString()); return; }
      if (p.deleted() != (int64_t)recs.size()) vh::Fail("delete-count", Fmt("a delete of %zu keys answered %ld", recs.size(), (long)p.deleted()));
      if (!recs.empty() && p.header().revision() != M->last + 1) vh::Fail("delete-revision", Fmt("a delete answered revision %ld, the next one is %ld", (long)p.header().revision(), (long)M->last + 1));
      if (p.prev_kvs_size() != (q.need_prev_kv() ? (int)recs.size() : 0)) vh::Fail("delete-prev", Fmt("a delete of %zu keys returned %d previous values", recs.size(), p.prev_kvs_size()));
      else for (int i = 0; i < p.prev_kvs_size(); ++i)
        if (!Same(p.prev_kvs(i), Pb(recs[i]))) vh::Fail("delete-prev", "a delete answered previous " + Show(p.prev_kvs(i)) + ", it was " + Show(Pb(recs[i])));
    }
    if (recs.empty()) return;
    ++M->last;
    int64_t sub = 0;
    for (auto& x : recs) { MDel(x.key, {M->last, ++sub}); vh::Case(vh::Mix(vh::HashStr(x.key), 77 + M->last)); }
  }
  void Range() {
    std::string a = K(), b;
    if (r.Chance(3, 4)) b = r.Chance(1, 4) ? std::string(1, '\0') : K();
    CheckRange(a, b, r.Chance(1, 2) ? 0 : r.Range(-1, 6), r.Chance(1, 4), r.Chance(1, 4));
  }
  void Grant() {
    V::LeaseGrantRequest q;
    int64_t ids[] = {0, 0, 0, 5, 6, 7, AnyLease()};
    q.set_id(ids[r.Below(7)]);
    int64_t ttls[] = {1, 2, 3, 4, 10, 60, 300, 301, 100000, 0, -4};
    q.set_ttl(ttls[r.Below(r.Chance(1, 8) ? 11 : 9)]);
    bool bad = q.ttl() <= 0 || !leases_ready || (q.id() && M->leases.count(q.id())) || C->refuse;
    Note(Fmt("grant %ld ttl %ld%s", (long)q.id(), (long)q.ttl(), bad ? " (refused)" : ""));
    V::LeaseGrantResponse p;
    Call(&S::LeaseGrant, q, &p);
    if (C->refuse && q.ttl() > 0 && leases_ready && !q.id()) M->next_lease++;
    if (bad) { if (!p.error().errcode()) vh::Fail("grant-accepted", "a lease that must be refused was granted"); vh::Count("grants_refused"); return; }
    vh::Count("grants");
    int64_t id = q.id(), ttl = std::max<int64_t>(3, std::min<int64_t>(300, q.ttl()));
    if (!id) id = ++M->next_lease;
    if (!C->leader_crashed) {
      if (p.error().errcode()) { vh::Fail("grant-refused", "a lease was refused: " + p.error().ShortDebugString()); return; }
      if (p.id() != id || p.ttl() != ttl) vh::Fail("grant-answer", Fmt("a lease was granted as %ld for %ld s, must be %ld for %ld", (long)p.id(), (long)p.ttl(), (long)id, (long)ttl));
    }
    M->leases[id] = {ttl, Now()};
  }
  void Renew() {
    V::LeaseRenewRequest q;
    q.set_id(r.Chance(1, 15) ? 0 : AnyLease());
    auto it = M->leases.find(q.id());
    bool bad = !leases_ready || it == M->leases.end() || C->refuse;
    Note(Fmt("renew %ld%s", (long)q.id(), bad ? " (refused)" : ""));
    V::LeaseRenewResponse p;
    Call(&S::LeaseRenew, q, &p);
    if (bad) { if (!p.error().errcode()) vh::Fail("renew-accepted", Fmt("lease %ld must not be renewable", (long)q.id())); return; }
    vh::Count("renews");
    if (!C->leader_crashed && (p.error().errcode() || p.id() != q.id() || p.ttl() != it->second.ttl)) vh::Fail("renew-answer", Fmt("renewing lease %ld answered %s", (long)q.id(), p.ShortDebugString().c_str()));
    it->second.last = Now();
  }
  void MRevoke(const std::vector<int64_t>& ids) {
    int64_t sub = 0;
    bool any = false;
    for (auto id : ids) {
      auto ks = M->LeaseKeys(id);
      M->leases.erase(id);
      for (auto& k : ks) {
        if (!any) { any = true; ++M->last; }
        vh::Count("keys_revoked");
        vh::Case(vh::Mix(vh::HashStr(k), 99 + M->last));
        MDel(k, {M->last, ++sub});
      }
    }
  }
  void Revoke() {
    V::LeaseRevokeRequest q;
    q.set_id(r.Chance(1, 15) ? 0 : AnyLease());
    bool bad = !leases_ready || !M->leases.count(q.id()) || C->refuse;
    Note(Fmt("revoke %ld%s", (long)q.id(), bad ? " (refused)" : ""));
    V::LeaseRevokeResponse p;
    Call(&S::LeaseRevoke, q, &p);
    if (bad) { if (!p.error().errcode()) vh::Fail("revoke-accepted", Fmt("lease %ld cannot be revoked but was", (long)q.id())); return; }
    vh::Count("revokes");
    if (!C->leader_crashed && p.error().errcode()) vh::Fail("revoke-refused", Fmt("revoking lease %ld answered %s", (long)q.id(), p.ShortDebugString().c_str()));
    MRevoke({q.id()});
  }
  void Time() {
    int64_t d = r.Chance(1, 2) ? r.Below(3) : r.Below(r.Chance(1, 6) ? 400 : 20);
    butil::vs_clock_fixed_us() += d * 1000000;
    Note(Fmt("+%ld s", (long)d));
  }
  void Expire() {
    std::vector<int64_t> ids;
    for (auto& l : M->leases) if (l.second.ttl + l.second.last < Now()) ids.push_back(l.first);
    Note(Fmt("expire %zu", ids.size()));
    L().kv->LeaseTask();
    leases_ready = true;
    vh::Count("leases_expired", ids.size());
    MRevoke(ids);
  }
  void Compact() {
    int64_t c = M->last - 30 + r.Below(36);
    if (r.Chance(1, 3)) {
      gflags::SetCommandLineOption("auto_compaction", "true");
      gflags::SetCommandLineOption("compaction_retention_rev_count", std::to_string(M->last - c).c_str());
      if (M->last - c < 0) return;
      Note(Fmt("compact all before %ld", (long)c));
      L().kv->CompactionTask();
      std::vector<std::string> ks;
      for (auto& k : M->keys) ks.push_back(k.first);
      for (auto& k : ks) MCompact(k, c);
      vh::Count("compactions_all");
      return;
    }
    V::CompactionRequest q;
    std::string a = K(), b;
    if (r.Chance(2, 3)) b = r.Chance(1, 3) ? std::string(1, '\0') : K();
    q.set_key(a);
    q.set_range_end(b);
    q.set_compact_revision(c);
    std::vector<std::string> ks;
    if (b.empty()) { if (M->keys.count(a)) ks.push_back(a); }
    else for (auto* x : M->Range(a, b)) ks.push_back(x->key);
    Note(Fmt("compact [%s,%s) before %ld", vh::Hex(a).c_str(), vh::Hex(b).c_str(), (long)c));
    V::CompactionResponse p;
    Call(&S::KvCompaction, q, &p);
    vh::Count("compactions");
    if (!C->leader_crashed) {
      if (p.error().errcode()) vh::Fail("compact-refused", p.error().ShortDebugString());
      if (p.compaction_count() != (int64_t)ks.size()) vh::Fail("compact-count", Fmt("a compaction of %zu keys answered %ld", ks.size(), (long)p.compaction_count()));
    }
    for (auto& k : ks) MCompact(k, c);
  }
  void NewWatch() {
    Watch w;
    w.w = std::make_unique<Waiter>();
    w.resp = std::make_unique<V::WatchResponse>();
    w.req = std::make_unique<V::WatchRequest>();
    w.cntl = std::make_unique<brpc::Controller>();
    w.key = K();
    int64_t starts[] = {0, 0, M->last - 1, M->last, M->last + 1, M->last + 3, M->last - (int64_t)r.Below(20)};
    w.start = starts[r.Below(7)];
    const Rec* live = M->Live(w.key);
    if (live && r.Chance(1, 3)) w.start = live->mod.first - 1 + r.Below(3);
    w.noput = r.Chance(1, 5);
    w.nodel = r.Chance(1, 5);
    w.prev = r.Chance(1, 2);
    bool wait = r.Chance(2, 3);
    auto* o = w.req->mutable_one_time_request();
    o->set_key(w.key);
    o->set_start_revision(w.start);
    o->set_need_prev_kv(w.prev);
    o->set_wait_on_not_exist_key(wait);
    if (w.noput) o->add_filters(V::NOPUT);
    if (w.nodel) o->add_filters(V::NODELETE);
    w.desc = Fmt("watch of %s from %ld%s%s%s", vh::Hex(w.key).c_str(), (long)w.start, w.noput ? " no puts" : "", w.nodel ? " no deletes" : "", wait ? " wait" : "");
    Note(w.desc);
    L().svc->Watch(w.cntl.get(), w.req.get(), w.resp.get(), w.w.get());
    if (!w.start) w.start = M->last;
    bool at_once = (w.noput && w.nodel) || (!live && !wait) || (live && live->mod.first > w.start);
    vh::Count("watches");
    vh::Case(vh::Mix(vh::HashStr(w.desc), M->last));
    if (at_once) {
      for (int i = 0; i < 3000; ++i) { { std::lock_guard<std::mutex> g(w.w->m); if (w.w->runs) break; } usleep(1000); }
      std::lock_guard<std::mutex> g(w.w->m);
      if (!w.w->runs) { vh::Fail("watch-not-at-once", w.desc + " must be answered at once"); w.cntl.release(); w.w.release(); w.resp.release(); w.req.release(); return; }
      if (w.noput && w.nodel) {
        if (!w.resp->error().errcode() || w.resp->events_size()) vh::Fail("watch-nothing", w.desc + " asks for nothing and must be refused: " + w.resp->ShortDebugString());
      } else if (w.resp->events_size() != 1) vh::Fail("watch-answer", w.desc + " must carry one event: " + w.resp->ShortDebugString());
      else if (!live) { if (w.resp->events(0).type() != V::Event::NOT_EXISTS) vh::Fail("watch-absent", w.desc + " must report that the key does not exist: " + w.resp->ShortDebugString()); }
      else if (w.resp->events(0).type() != V::Event::PUT || !Same(w.resp->events(0).kv(), Pb(*live))) vh::Fail("watch-current", w.desc + " must report " + Show(Pb(*live)) + ": " + w.resp->ShortDebugString());
      vh::Count("watch_at_once");
      return;
    }
    // Wait until it is registered: the executor queue runs it in its own time.
    for (int i = 0; i < 3000; ++i) {
      V::HelloRequest q;
      q.set_get_memory_info(true);
      V::HelloResponse p;
      Call(&S::Hello, q, &p);
      if (p.memory_info().kv_watch_count() >= (int64_t)M->watches.size() + 1) break;
      { std::lock_guard<std::mutex> g(w.w->m); if (w.w->runs) break; }
      usleep(500);
    }
    {
      std::lock_guard<std::mutex> g(w.w->m);
      if (w.w->runs) { vh::Fail("watch-early", w.desc + " was answered although nothing it waits for happened: " + w.resp->ShortDebugString()); return; }
    }
    M->watches.push_back(std::move(w));
  }
  void Cancel() {
    if (M->watches.empty()) return;
    auto& w = M->watches[r.Below(M->watches.size())];
    Note("cancel " + w.desc);
    w.cntl->StartCancel();
    w.cancelled = true;
    // the cancel may overtake the end of the registration: the periodic task comes again
    for (int i = 0; i < 1000; ++i) { L().kv->RemoveOneTimeWatch(); { std::lock_guard<std::mutex> g(w.w->m); if (w.w->runs) break; } usleep(500); }
    EndWatches([](const Watch& x) { return x.cancelled; }, "cancel");
    CheckQuiet();
  }
  void StepDown() {
    L().fsm->on_leader_stop(butil::Status(EPERM, "stepping down"));
    EndWatches([](const Watch&) { return true; }, "leader-stop");
  }
  void ChangeLeader() {
    StepDown();
    std::vector<int> up;
    for (auto& n : C->nodes) if (!n->down) up.push_back(n->id);
    int to = r.Pick(up);
    bool build = r.Chance(2, 3);
    Note(Fmt("leader %d -> %d%s", C->lead.load(), to, build ? "" : " (leases not built)"));
    if (to != C->lead) L().kv->LeaseTask();
    vh::Count("elections");
    // Expiry happens as part of building.
    C->refuse = false;
    Elect(to, false);
    M->next_lease = -1;  // identifiers used up by refused proposals are known to their leader alone
    leases_ready = false;
    if (build) Expire();
  }
  void Refuse() {  // proposals fail for a while: nothing may change, then somebody is elected
    C->refuse = true;
    int n = 1 + r.Below(3);
    for (int i = 0; i < n; ++i) {
      switch (r.Below(4)) {
        case 0: Put(); break;
        case 1: Grant(); break;
        case 2: Renew(); break;
        default: Revoke(); break;
      }
    }
    vh::Count("refused_proposals");
    ChangeLeader();
  }
  void FollowerCheck() {
    for (auto& n : C->nodes) {
      if (n->id == C->lead || n->down) continue;
      V::PutRequest q;
      q.mutable_key_value()->set_key("a");
      q.mutable_key_value()->set_value("follower");
      V::PutResponse p;
      CallOn(*n, &S::KvPut, q, &p);
      V::RangeRequest rq;
      rq.set_key("a");
      V::RangeResponse rp;
      CallOn(*n, &S::KvRange, rq, &rp);
      vh::Count("follower_requests");
      if (p.error().errcode() != pb::error::ERAFT_NOTLEADER || rp.error().errcode() != pb::error::ERAFT_NOTLEADER || rp.kvs_size()) vh::Fail("follower-served", "a node that is not the leader served a request");
    }
  }
  std::string SaveSnapshot(Node& from) {
    static int seq = 0;
    DirWriter w;
    w.dir = g_root + "/snap/" + std::to_string(++seq);
    std::filesystem::create_directories(w.dir);
    SaveDone d;
    from.fsm->on_snapshot_save(&w, &d);
    d.w.Wait();
    if (!d.status().ok() || !w.files.count("data")) vh::Fail("snapshot-save", "a snapshot could not be taken: " + std::string(d.status().error_cstr()));
    return w.dir;
  }
  // Replaces a follower's state (or a brand-new node's) by the leader's snapshot, possibly crashing meanwhile.
  void Snapshot(bool crash) {
    int v = r.Below(C->nodes.size());
    if (v == C->lead) v = (v + 1) % C->nodes.size();
    if (C->log.empty()) return;
    Note(Fmt("snapshot to %d%s", v, crash ? " with a crash" : ""));
    std::string dir = SaveSnapshot(L());
    int64_t at = C->log.size(), term = C->log.back().term;
    if (r.Chance(2, 3)) {  // further writes after the snapshot
      C->nodes[v]->down = true;
      for (int i = r.Below(4); i > 0; --i) r.Chance(2, 3) ? Put() : Delete();
    }
    if (r.Chance(1, 2) || C->nodes[v]->base == at) {
      DropNode(*C->nodes[v]);
      C->nodes[v] = NewNode(v);
    }
    Node& n = *C->nodes[v];
    n.snapshot = dir;
    n.base = at;
    n.snapshot_term = term;
    if (crash) { g_crash_path = n.path + "/rocksdb"; g_crash_in = r.Below(10); }
    vh::Count("snapshots");
    Restart(n, r);
    g_crash_in = -1;
    CheckReplicas();
  }
  // A node dies at some storage write of the next few entries and comes back from what it had stored.
  void CrashNode(const std::function<void()>& op) {
    int v = r.Below(C->nodes.size());
    g_crash_path = C->nodes[v]->path + "/rocksdb";
    g_crash_in = r.Below(r.Chance(1, 3) ? 20 : 6);
    Note(Fmt("crash of %d armed", v));
    for (int i = 0; i < 4 && !C->nodes[v]->down && !C->leader_crashed; ++i) op();
    bool led = C->leader_crashed;
    if (led) {
      C->nodes[v]->down = true;
      vh::Count("leader_crashes");
      // its clients are gone with it
      for (auto& w : M->watches) { w.cntl.release(); w.w.release(); w.resp.release(); w.req.release(); }
      M->watches.clear();
      C->leader_crashed = false;
      std::vector<int> up;
      for (auto& n : C->nodes) if (!n->down) up.push_back(n->id);
      C->refuse = false;
      Elect(r.Pick(up), false);
      leases_ready = false;
      if (r.Chance(2, 3)) Expire();
      M->next_lease = -1;
    }
    g_crash_in = -1;
    if (C->nodes[v]->down) {
      for (int i = r.Below(3); i > 0; --i) op();
      if (r.Chance(1, 3)) g_crash_in = r.Below(10);
      Restart(*C->nodes[v], r);
      g_crash_in = -1;
      vh::Count("crash_recoveries");
      CheckReplicas();
    }
  }
};
// The identifier after which the next automatic lease is numbered (unknown after refused or lost proposals).
static void LearnLeaseId() {
  if (M->next_lease >= 0) return;
  V::HelloRequest q;
  q.set_get_memory_info(true);
  V::HelloResponse p;
  Call(&S::Hello, q, &p);
  M->next_lease = 90000;
  for (auto& e : p.memory_info().id_epoch_values()) if (e.key() == "ID_NEXT_LEASE") M->next_lease = strtoll(e.value().c_str(), nullptr, 10);
}

static void Fresh(int nodes) {
  butil::vs_clock_fixed_us() = 1700000000000000;
  delete M;
  M = new Model;
  leases_ready = true;
  NewCluster(nodes);
}
static void EndRound(Driver& d) {
  vh::Count("rounds");
  CheckAll();
  d.StepDown();
}
static void RunSeq(const std::string& mode, Rng& r) {
  int rounds = mode == "crash" ? vh::N(24, 120) : mode == "compact" ? vh::N(16, 120) : vh::N(60, 300);
  for (int round = 0; round < rounds; ++round) {
    Fresh(mode == "crash" ? 3 : 1 + (int)r.Below(3));
    Driver d(r);
    if (mode == "compact" && r.Chance(1, 2)) for (int i = 0; i < 120; ++i) d.pool.push_back(Fmt("bulk%03d", i));
    if (mode == "compact" && d.pool.size() > 100) for (int i = 0; i < 3; ++i) for (auto k : std::vector<std::string>(d.pool)) {
      V::PutRequest q;
      q.mutable_key_value()->set_key(k);
      q.mutable_key_value()->set_value("v" + std::to_string(i));
      V::PutResponse p;
      Call(&S::KvPut, q, &p);
      if (p.error().errcode()) vh::Fail("put-refused", p.error().ShortDebugString());
      MPut(k, "v" + std::to_string(i), 0, {++M->last, 1});
    }
    int n = vh::N(130, 300);
    for (int i = 0; i < n; ++i) {
      LearnLeaseId();
      int x = r.Below(100);
      auto op = [&] {
        LearnLeaseId();
        int y = r.Below(100);
        if (y < 50) d.Put();
        else if (y < 70) d.Delete();
        else if (y < 78) d.Grant();
        else if (y < 84) d.Revoke();
        else if (y < 88) d.Renew();
        else if (y < 92) { d.Time(); d.Expire(); }
        else d.Compact();
      };
      if (mode == "seq") {
        if (x < 40) d.Put();
        else if (x < 58) d.Delete();
        else if (x < 85) d.Range();
        else if (x < 88) d.Grant();
        else if (x < 90) d.FollowerCheck();
        else if (x < 92) d.Compact();
        else if (x < 94) d.ChangeLeader();
        else if (x < 95) d.Refuse();
        else d.Range();
      } else if (mode == "lease") {
        if (x < 28) d.Put();
        else if (x < 40) d.Delete();
        else if (x < 55) d.Grant();
        else if (x < 63) d.Renew();
        else if (x < 70) d.Revoke();
        else if (x < 82) d.Time();
        else if (x < 90) d.Expire();
        else if (x < 95) d.ChangeLeader();
        else if (x < 96) d.Refuse();
        else CheckLeases();
      } else if (mode == "watch") {
        if (x < 35) d.NewWatch();
        else if (x < 65) d.Put();
        else if (x < 80) d.Delete();
        else if (x < 84) d.Grant();
        else if (x < 87) d.Revoke();
        else if (x < 89) { d.Time(); d.Expire(); }
        else if (x < 94) d.Cancel();
        else if (x < 96) d.Compact();
        else if (x < 98) d.ChangeLeader();
        else d.Range();
      } else if (mode == "crash") {
        if (x < 50) op();
        else if (x < 75) d.CrashNode(op);
        else if (x < 90) d.Snapshot(r.Chance(1, 2));
        else d.ChangeLeader();
      } else {  // compact
        if (x < 45) d.Put();
        else if (x < 60) d.Delete();
        else if (x < 85) { d.Compact(); CheckRange(std::string(1, '\0'), std::string(1, '\0'), 0, false, false); }
        else if (x < 88) d.Grant();
        else if (x < 90) d.Revoke();
        else if (x < 93) d.ChangeLeader();
        else d.Range();
      }
      if (mode == "watch") CheckQuiet();
      if (r.Chance(1, 6)) CheckKeyRaw(d.K());
      if (i % 25 == 24) CheckAll();
    }
    EndRound(d);
    vh::Sample(d.trace.substr(0, 600), 4);
  }
}

// ---------------------------------------------------------------- concurrency
struct PutOut { int64_t rev{0}; int err{0}; };
static PutOut PutNow(const std::string& k, const std::string& v, int64_t lease = 0) {
  V::PutRequest q;
  q.mutable_key_value()->set_key(k);
  q.mutable_key_value()->set_value(v);
  q.set_lease(lease);
  V::PutResponse p;
  Call(&S::KvPut, q, &p);
  return {p.header().revision(), (int)p.error().errcode()};
}
static void DelNow(const std::string& k) {
  V::DeleteRangeRequest q;
  q.set_key(k);
  V::DeleteRangeResponse p;
  Call(&S::KvDeleteRange, q, &p);
}
static int64_t Present() {
  V::HelloRequest q;
  q.set_get_memory_info(true);
  V::HelloResponse p;
  Call(&S::Hello, q, &p);
  for (auto& e : p.memory_info().id_epoch_values()) if (e.key() == "ID_NEXT_REVISION") return strtoll(e.value().c_str(), nullptr, 10);
  return 10000;
}
static std::mutex g_hold_m;
static std::condition_variable g_hold_c;
static std::atomic<bool> g_hold{false};
static std::atomic<int> g_held{0};
static thread_local bool t_put = false;

static void Duels(Rng& r) {
  int n = vh::N(2500, 20000);
  for (int i = 0; i < n; ++i) {
    if (i % 100 == 0) Fresh(1);
    std::string k = "k" + std::to_string(r.Below(3));
    if (r.Chance(1, 2)) PutNow(k, "before"); else DelNow(k);
    bool held = i % 50 == 0;
    if (held) PutNow(k, "before");
    int64_t start = Present();
    V::WatchRequest q;
    q.mutable_one_time_request()->set_key(k);
    q.mutable_one_time_request()->set_start_revision(start);
    q.mutable_one_time_request()->set_wait_on_not_exist_key(true);
    V::WatchResponse p;
    brpc::Controller cntl;
    Waiter w;
    int kind = held ? 0 : r.Below(5);  // 0-1 put, 2 cancel, 3 leadership lost, 4 leadership gained
    int64_t rev = 0;
    vh::SetCase(Fmt("duel %d kind %d held %d", i, kind, (int)held));
    std::atomic<bool> go{false};
    if (held) g_hold = true;  // the watch will stand still at its next point read
    std::thread other([&] {
      if (held) { for (int j = 0; j < 3000 && g_held.load() == 0; ++j) usleep(1000); }
      else while (!go) ;
      for (int j = 0; j < (int)(i % 40) * 20; ++j) std::atomic_signal_fence(std::memory_order_seq_cst);
      if (kind <= 1) rev = PutNow(k, "now").rev;
      else if (kind == 2) { cntl.StartCancel(); L().kv->RemoveOneTimeWatch(); }
      else if (kind == 3) L().fsm->on_leader_stop(butil::Status(EPERM, "x"));
      else Elect(0);
    });
    std::thread release;
    if (held) release = std::thread([&] {
      for (int j = 0; j < 3000 && g_held.load() == 0; ++j) usleep(1000);
      usleep(20000);  // time enough for the put to finish, if nothing makes it wait
      std::lock_guard<std::mutex> g(g_hold_m);
      g_hold = false;
      g_held = 0;
      g_hold_c.notify_all();
    });
    if (kind == 4) L().fsm->on_leader_stop(butil::Status(EPERM, "x"));
    go = true;
    L().svc->Watch(&cntl, &q, &p, &w);
    other.join();
    if (release.joinable()) { release.join(); vh::Count("held_duels"); }
    if (kind == 2) {  // the cancel may have come before the watch was registered: the periodic task collects it
      for (int j = 0; j < 200; ++j) { { std::lock_guard<std::mutex> g(w.m); if (w.runs) break; } L().kv->RemoveOneTimeWatch(); usleep(500); }
    }
    if (kind == 4) {  // answered at once, or registered with the new leader and answered at the next change
      for (int j = 0; j < 10; ++j) { { std::lock_guard<std::mutex> g(w.m); if (w.runs) break; } usleep(100); }
      PutNow(k, "later");
    }
    bool done = false;
    for (int j = 0; j < 4000; ++j) { { std::lock_guard<std::mutex> g(w.m); if (w.runs) { done = true; break; } } usleep(500); }
    vh::Count(kind <= 1 ? "duels_put" : kind == 2 ? "duels_cancel" : kind == 3 ? "duels_leader_stop" : "duels_leader_start");
    vh::Case(vh::Mix(i, kind));
    if (!done) {
      vh::Fail(kind <= 1 ? "duel-missed" : kind == 2 ? "duel-cancel-hangs" : "duel-stop-hangs",
               kind <= 1 ? Fmt("a watch of a key from revision %ld was never answered although a put at revision %ld raced with its registration", (long)start, (long)rev)
                         : kind == 2 ? "a cancelled watch was never answered" : kind == 3 ? "a watch racing with the loss of leadership was never answered" : "a watch racing with the start of a leader's term was never answered");
      L().fsm->on_leader_stop(butil::Status(EPERM, "x"));
      for (int j = 0; j < 1000; ++j) { { std::lock_guard<std::mutex> g(w.m); if (w.runs) break; } usleep(500); }
    } else {
      if (kind <= 1) {
        if (p.events_size() != 1 || p.events(0).type() != V::Event::PUT || p.events(0).kv().mod_revision() != rev || p.events(0).kv().kv().value() != "now") vh::Fail("duel-event", "a watch must report the put that raced with it, got " + p.ShortDebugString());
      } else if (p.events_size() && !(kind == 4 && p.events_size() == 1 && p.events(0).kv().kv().value() == "later")) vh::Fail("duel-phantom", "a watch was answered with an event that never happened: " + p.ShortDebugString());
    }
    if (kind == 3 || !done) Elect(0);
    std::lock_guard<std::mutex> g(w.m);
    if (w.runs != 1) vh::Fail("watch-twice", Fmt("a watch was answered %d times", w.runs));
  }
}
static void Writers(Rng& r) {
  int rounds = vh::N(6, 40);
  for (int round = 0; round < rounds; ++round) {
    Fresh(2);
    vh::SetCase(Fmt("writers round %d", round));
    const int T = 4, P = vh::N(40, 80);
    std::mutex m;
    std::map<int64_t, std::pair<std::string, std::string>> seen;
    std::map<std::string, int> puts;
    std::vector<std::thread> ts;
    std::atomic<bool> stop{false};
    for (int t = 0; t < T; ++t) ts.emplace_back([&, t, seed = r.Next()] {
      Rng q(seed);
      for (int i = 0; i < P; ++i) {
        std::string k = "w" + std::to_string(q.Below(3)), v = Fmt("%d-%d", t, i);
        auto o = PutNow(k, v);
        if (o.err) { vh::Fail("put-refused", "a concurrent put was refused"); continue; }
        std::lock_guard<std::mutex> g(m);
        if (!seen.emplace(o.rev, std::make_pair(k, v)).second) vh::Fail("revision-reused", Fmt("two puts were answered with revision %ld", (long)o.rev));
        ++puts[k];
        vh::Count("concurrent_puts");
        vh::Case(vh::Mix(o.rev, vh::HashStr(k + v)));
      }
    });
    for (int t = 0; t < 3; ++t) ts.emplace_back([&, t] {  // followers of a key by repeated watches
      std::string k = "w" + std::to_string(t);
      int64_t last = 10000;
      while (true) {
        V::WatchRequest q;
        q.mutable_one_time_request()->set_key(k);
        q.mutable_one_time_request()->set_start_revision(last);
        q.mutable_one_time_request()->set_wait_on_not_exist_key(true);
        auto p = std::make_unique<V::WatchResponse>();
        brpc::Controller cntl;
        Waiter w;
        L().svc->Watch(&cntl, &q, p.get(), &w);
        w.Wait();
        if (p->events_size() != 1) break;  // the leader stopped
        auto& e = p->events(0);
        if (e.kv().mod_revision() < last) vh::Fail("watch-order", Fmt("a watch from revision %ld reported revision %ld", (long)last, (long)e.kv().mod_revision()));
        last = e.kv().mod_revision();
        vh::Count("followed_events");
      }
      std::lock_guard<std::mutex> g(m);
      int64_t fin = 0;
      for (auto& s : seen) if (s.second.first == k) fin = s.first;
      if (last != fin && fin) vh::Fail("watch-last", Fmt("following key %s ended at revision %ld, its last change was %ld", k.c_str(), (long)last, (long)fin));
    });
    for (int t = 0; t < T; ++t) ts[t].join();
    usleep(300000);
    for (auto& k : puts) {
      V::RangeRequest q;
      q.set_key(k.first);
      V::RangeResponse p;
      Call(&S::KvRange, q, &p);
      int64_t fin = 0, first = 0;
      for (auto& s : seen) if (s.second.first == k.first) { fin = s.first; if (!first) first = s.first; }
      if (p.kvs_size() != 1 || p.kvs(0).version() != k.second || p.kvs(0).mod_revision() != fin || p.kvs(0).create_revision() != first || p.kvs(0).kv().value() != seen[fin].second)
        vh::Fail("concurrent-final", Fmt("after %d puts of key %s, the last at revision %ld, it reads %s", k.second, k.first.c_str(), (long)fin, p.ShortDebugString().c_str()));
    }
    CheckReplicas();
    L().fsm->on_leader_stop(butil::Status(EPERM, "x"));
    for (size_t t = T; t < ts.size(); ++t) ts[t].join();
    vh::Count("writer_rounds");
  }
}
// Leases granted, used, renewed, revoked and expired by concurrent clients. Afterwards no key may outlive its lease.
static void LeaseRaces(Rng& r) {
  int rounds = vh::N(400, 4000);
  for (int round = 0; round < rounds; ++round) {
    if (round % 20 == 0) Fresh(2);
    vh::SetCase(Fmt("lease race %d", round));
    int64_t id = 100 + round;
    V::LeaseGrantRequest g;
    g.set_id(id);
    g.set_ttl(5);
    V::LeaseGrantResponse gp;
    Call(&S::LeaseGrant, g, &gp);
    if (gp.error().errcode()) { vh::Fail("grant-refused", gp.ShortDebugString()); continue; }
    std::vector<std::thread> ts;
    std::atomic<int> ok{0};
    for (int t = 0; t < 3; ++t) ts.emplace_back([&, t] { for (int i = 0; i < 3; ++i) if (!PutNow(Fmt("l%d-%d-%d", round, t, i), "x", id).err) ++ok; });
    bool expire = round % 3 == 0;
    ts.emplace_back([&] {
      usleep(round % 7 * 150);
      if (expire) { butil::vs_clock_fixed_us() += 10000000; L().kv->LeaseTask(); return; }
      V::LeaseRevokeRequest q;
      q.set_id(id);
      V::LeaseRevokeResponse p;
      Call(&S::LeaseRevoke, q, &p);
      if (p.error().errcode()) vh::Fail("revoke-refused", p.ShortDebugString());
    });
    for (auto& t : ts) t.join();
    if (expire) L().kv->LeaseTask();
    V::RangeRequest q;
    q.set_key(Fmt("l%d-", round));
    q.set_range_end(Fmt("l%d.", round));
    V::RangeResponse p;
    Call(&S::KvRange, q, &p);
    vh::Count("lease_races");
    vh::Count("leased_puts_accepted", ok);
    vh::Case(vh::Mix(round, ok));
    if (p.kvs_size()) vh::Fail("key-outlives-lease", Fmt("lease %ld is gone, %d keys that hold it are still there", (long)id, p.kvs_size()));
    if (round % 20 == 19) CheckReplicas();
  }
}

int main(int argc, char** argv) {
  vh::Init(argc, argv);
  char tmp[] = "/tmp/coordkv.XXXXXX";
  g_root = mkdtemp(tmp);
  atexit([] { std::filesystem::remove_all(g_root); });
  butil::vs_clock_fixed_us() = 1700000000000000;
  senv::Start("store", g_root + "/env", false);
  g_workers = SimpleWorkerSet::New("kv", 4, 100000, true, false);
  if (!g_workers->Init()) vh::Broken("workers");
  InstallHooks();
  Rng r(vh::Seed());
  std::string mode = vh::Arg("mode", "seq");
  if (mode == "conc") {
    vsrocks::ctl().before_read = [](const std::string&, const std::string&) {
      if (!g_hold.load() || t_put) return;
      std::unique_lock<std::mutex> l(g_hold_m);
      if (!g_hold.load() || g_held.load()) return;  // one thread stands still at a time: the first
      g_held = 1;
      g_hold_c.wait_for(l, std::chrono::seconds(5), [] { return !g_hold.load(); });
    };
    Duels(r);
    Writers(r);
  } else if (mode == "leaserace") {
    LeaseRaces(r);
  } else {
    RunSeq(mode, r);
  }
  std::filesystem::remove_all(g_root);
  return vh::Finish();
}
