// The coordinator's metadata: a group of CoordinatorControl replicas behind the real raft engine, state machine and
// metadata storage. The harness keeps the raft log, elects leaders, crashes nodes at storage writes, installs snapshots and
// puts several requests in flight at once, and judges everything observable against an independent model.
#include <filesystem>
#include <thread>

#include "common/service_access.h"
#include "coordinator/coordinator_control.h"
#include "raft/meta_state_machine.h"
#include "svc.h"

using namespace dingodb;
namespace I = dingodb::pb::coordinator_internal;
namespace P = dingodb::pb::coordinator;
using svc::Waiter;
using vh::Fmt;
using vh::Rng;

// Asking another node for its addresses: no network here, the answer is that node itself.
namespace dingodb {
pb::node::NodeInfo ServiceAccess::GetNodeInfo(const std::string& host, int port) {
  pb::node::NodeInfo i;
  for (auto* l : {i.mutable_server_location(), i.mutable_raft_location()}) { l->set_host(host); l->set_port(port); }
  return i;
}
}  // namespace dingodb
struct Crash {};
static std::atomic<int64_t> g_crash_in{-1};  // storage writes of g_crash_path until the simulated crash
static std::string g_crash_path;
static std::atomic<int> g_crashes{0};

struct Node {
  int id;
  std::string path;
  std::shared_ptr<RocksRawEngine> raw;
  std::shared_ptr<MetaReader> reader;
  std::shared_ptr<MetaWriter> writer;
  std::shared_ptr<CoordinatorControl> kv;
  std::shared_ptr<MetaStateMachine> fsm;
  std::shared_ptr<RaftStoreEngine> eng;
  bool down{false};
  int64_t base{0};  // entries up to here come from an installed snapshot, not from this node's log
  std::string snapshot;
  int64_t snapshot_term{0};
};
struct Ent { int64_t term; butil::IOBuf data; };
struct Cluster {
  std::mutex m;
  std::vector<std::unique_ptr<Node>> nodes;
  std::vector<Ent> log;
  std::atomic<int> lead{-1};
  std::atomic<int64_t> term{0};
  std::atomic<bool> refuse{false};
  bool leader_crashed{false};
};
static Cluster* C;
static int g_gen = 0;
static std::string g_root;

static void Build(Node& n) {
  n.kv = std::make_shared<CoordinatorControl>(n.reader, n.writer, n.raw);
  if (!n.kv->Recover()) vh::Fail("recover", "a replica could not load its own stored state");
  if (!n.kv->Init()) vh::Fail("init", "a replica could not start from its own stored state");
  n.fsm = std::make_shared<MetaStateMachine>((int64_t)+Constant::kMetaRegionId, n.kv, false);
  n.eng = RaftStoreEngine::New(n.raw, nullptr, nullptr);
  auto d = std::make_shared<pb::common::RegionDefinition>();
  d->set_id((int64_t)+Constant::kMetaRegionId);
  d->set_name(Fmt("n%d-%d", n.id, ++g_gen));
  auto* p = d->add_peers();
  p->mutable_raft_location()->set_host("127.0.0.1");
  p->mutable_raft_location()->set_port(20101);
  if (!n.eng->AddNode(d, n.kv, false).ok()) vh::Broken("AddNode");
  n.kv->SetKvEngine(n.eng);
}
static void Discard(Node& n) {
  if (n.kv) n.kv->SetRaftNode(nullptr);
  n.eng.reset();
  n.fsm.reset();
  n.kv.reset();
}
static std::unique_ptr<Node> NewNode(int id) {
  static int seq = 0;
  auto n = std::make_unique<Node>();
  n->id = id;
  n->path = g_root + Fmt("/node%d_%d", id, ++seq);
  n->raw = std::make_shared<RocksRawEngine>();
  auto cfg = std::make_shared<YamlConfig>();
  if (cfg->Load("store:\n  path: " + n->path + "\n") != 0) vh::Broken("config");
  if (!n->raw->Init(cfg, Helper::GetColumnFamilyNamesByRole())) vh::Broken("engine");
  n->reader = std::make_shared<MetaReader>(n->raw);
  n->writer = std::make_shared<MetaWriter>(n->raw);
  Build(*n);
  return n;
}
static void DropNode(Node& n) {
  Discard(n);
  n.reader.reset();
  n.writer.reset();
  n.raw.reset();
  vsrocks::Forget(n.path + "/rocksdb");
}
struct DirWriter : braft::SnapshotWriter {
  std::string dir;
  std::set<std::string> files;
  std::string get_path() override { return dir; }
  void list_files(std::vector<std::string>* f) override { for (auto& x : files) f->push_back(x); }
  int add_file(const std::string& n, const ::google::protobuf::Message*) override { files.insert(n); return 0; }
  int remove_file(const std::string& n) override { files.erase(n); return 0; }
};
struct DirReader : braft::SnapshotReader {
  std::string dir;
  int64_t index, term;
  std::string get_path() override { return dir; }
  void list_files(std::vector<std::string>* f) override { f->push_back("data"); }
  int load_meta(braft::SnapshotMeta* m) override { m->set_last_included_index(index); m->set_last_included_term(term); return 0; }
};
struct SaveDone : braft::Closure {
  Waiter w;
  void Run() override { w.Run(); }
};

// One entry (or several) through a replica's state machine. false: the node crashed meanwhile.
static bool ApplyTo(Node& n, int64_t from, int64_t to) {
  if (from > to) return true;
  std::vector<braft::Iterator::E> v;
  for (int64_t i = from; i <= to; ++i) v.push_back({i, C->log[i - 1].term, C->log[i - 1].data, nullptr});
  try {
    braft::Iterator it(std::move(v));
    n.fsm->on_apply(it);
  } catch (Crash&) {
    return false;
  }
  return true;
}
static int64_t AppliedIndex(Node& n) {
  int64_t t = 0, i = 0;
  n.kv->GetAppliedTermAndIndex(t, i);
  return i;
}
// Restarts a node from what it had stored: its snapshot (as the consensus layer does), then its log from some entry on.
static void Restart(Node& n, Rng& r) {
  for (int tries = 0;; ++tries) {
    if (tries == 6) g_crash_in = -1;
    Discard(n);
    bool ok = true;
    try {
      Build(n);
    } catch (Crash&) {
      ok = false;
    }
    if (ok && !n.snapshot.empty()) {
      DirReader rd;
      rd.dir = n.snapshot;
      rd.index = n.base;
      rd.term = n.snapshot_term;
      try {
        if (n.fsm->on_snapshot_load(&rd) != 0) vh::Fail("snapshot-load", "a snapshot could not be installed");
      } catch (Crash&) {
        ok = false;
      }
    }
    if (ok) {
      int64_t a = std::max(n.base, AppliedIndex(n));
      int64_t from = std::max<int64_t>(n.base + 1, a + 1 - r.Below(12));
      if (r.Chance(1, 4)) from = n.base + 1;
      vh::Count("replayed_entries", std::max<int64_t>(0, a - from + 1));
      ok = ApplyTo(n, from, C->log.size());
    }
    vh::Count("restarts");
    if (ok) break;
    vh::Count("crashes_during_recovery");
    if (r.Chance(1, 2)) g_crash_in = r.Below(20);
  }
  n.down = false;
}
static void InstallHooks() {
  braft::Node::vs_apply = [](braft::Node* bn, const braft::Task& t) {
    std::lock_guard<std::mutex> l(C->m);
    int id = atoi(bn->vs_group().c_str() + 1);
    if (C->refuse || C->lead != id) {
      t.done->status().set_error(EPERM, "is not leader");
      t.done->Run();
      return;
    }
    butil::IOBuf d;
    d.append(*t.data);
    C->log.push_back({C->term, d});
    int64_t ix = C->log.size();
    try {
      braft::Iterator it({{ix, C->term, d, t.done}});
      bn->vs_options().fsm->on_apply(it);
    } catch (Crash&) {
      C->leader_crashed = true;
    }
    for (auto& n : C->nodes) {
      if (n->id == id || n->down) continue;
      if (!ApplyTo(*n, ix, ix)) { n->down = true; vh::Count("follower_crashes"); }
    }
  };
  vsrocks::ctl().before_write = [](const std::string& path, const std::vector<vsrocks::Op>&, bool) {
    if (g_crash_in.load() >= 0 && path == g_crash_path && g_crash_in.fetch_sub(1) == 0) {
      ++g_crashes;
      throw Crash();
    }
    return true;
  };
}
static void Elect(int i) {
  if (C->lead >= 0 && !C->nodes[C->lead]->down) C->nodes[C->lead]->fsm->on_leader_stop(butil::Status());
  C->lead = i;
  ++C->term;
  C->nodes[i]->fsm->on_leader_start(C->term);
}
static Node& L() { return *C->nodes[C->lead]; }
static void NewCluster(int n) {
  if (C) {
    for (auto& x : C->nodes) DropNode(*x);
    std::filesystem::remove_all(g_root + "/snap");
    delete C;
  }
  g_crash_in = -1;
  C = new Cluster;
  for (int i = 0; i < n; ++i) C->nodes.push_back(NewNode(i));
  Elect(0);
}

// ---------------------------------------------------------------- model
struct Schema { int64_t tenant; std::string name; std::set<int64_t> tables, indexes; };
struct Table { int64_t schema; std::string name; std::string comment; bool index; };
struct Job { int next{0}; std::vector<std::vector<std::pair<std::set<int64_t>, bool>>> steps; };  // commands of each store, done?
struct Tenant { std::string name, comment; int64_t sp{0}, rp{0}; };
struct Region { std::string start, end; };
struct Model {
  std::map<int64_t, Schema> schemas;
  std::map<int64_t, Table> tables;
  std::map<int64_t, Tenant> tenants;
  std::map<int64_t, Region> regions;
  std::map<int64_t, Job> jobs;
  std::set<std::string> executors;
  std::map<std::string, std::string> users;
  std::map<int64_t, std::vector<int64_t>> cmds;  // store -> its pending region commands, in order
  std::map<int64_t, int64_t> cmd_region;
  std::map<int64_t, int> stores;  // in_state
  std::set<int64_t> normal;       // stores that reported in
  std::map<int, std::set<int64_t>> given;        // identifiers handed out, by kind
  int64_t sp{0}, rp{0};
  bool gc_stop{false}, read_only{false};
};
static Model* M;
static std::vector<std::string> g_notes;
static void Note(const std::string& s) {
  g_notes.push_back(s);
  if (g_notes.size() > 40) g_notes.erase(g_notes.begin());
}
static void Fail(const std::string& key, const std::string& d) {
  std::string t;
  for (auto& n : g_notes) t += n + "; ";
  vh::Fail(key, d + " | history: " + t);
}

// One request as the leader prepared it, and what it means once it is applied.
struct Req {
  std::string what;
  I::MetaIncrement inc;
  std::function<void()> applied;
  std::vector<std::pair<int, int64_t>> ids;
};

static std::vector<std::string> Sorted(std::vector<std::string> v) { std::sort(v.begin(), v.end()); return v; }
// Everything a replica would answer, as lines.
static std::vector<std::string> Answers(Node& n) {
  std::vector<std::string> out;
  auto& k = *n.kv;
  std::vector<int64_t> tenants{0}, schemas;
  {
    std::vector<pb::meta::Tenant> v;
    k.GetAllTenants(v);
    for (auto& t : v) { if (t.id()) tenants.push_back(t.id()); if (t.id() == 0) { t.clear_create_timestamp(); t.clear_update_timestamp(); t.clear_safe_point_ts(); t.clear_resolve_lock_safe_point_ts(); } out.push_back("tenant " + t.ShortDebugString()); }
  }
  for (auto t : tenants) {
    std::vector<pb::meta::Schema> v;
    k.GetSchemas(t, v);
    for (auto& s : v) { schemas.push_back(s.id().entity_id()); out.push_back("schema " + s.ShortDebugString()); }
  }
  for (auto s : schemas) {
    std::vector<pb::meta::TableDefinitionWithId> v;
    k.GetTables(s, v);
    for (auto& t : v) out.push_back("table " + t.ShortDebugString());
    v.clear();
    k.GetIndexes(s, v);
    for (auto& t : v) out.push_back("index " + t.ShortDebugString());
    int64_t c = 0;
    k.GetTablesCount(s, c);
    out.push_back(Fmt("tables of %ld: %ld", (long)s, (long)c));
  }
  pb::common::StoreMap sm;
  k.GetStoreMap(sm);
  sm.clear_epoch();
  for (auto& s : *sm.mutable_stores()) {
    out.push_back("store " + s.ShortDebugString());
    P::StoreOperation o;
    k.GetStoreOperation(s.id(), o);
    out.push_back("operation " + o.ShortDebugString());
  }
  pb::common::ExecutorMap em;
  k.GetExecutorMap(em, "");
  for (auto& x : *em.mutable_executors()) { x.clear_last_seen_timestamp(); out.push_back("executor " + x.ShortDebugString()); }
  pb::common::ExecutorUserMap um;
  k.GetExecutorUserMap(1, um);
  for (auto& u : um.executor_users()) out.push_back("user " + u.ShortDebugString());
  pb::common::RegionMap rm;
  k.GetRegionMapFull(rm);
  for (auto& r : rm.regions()) out.push_back("region " + r.ShortDebugString());
  std::vector<I::RegionInternal> rs;
  k.ScanRegions(std::string(1, '\0'), std::string(9, '\xff'), 0, rs);
  for (auto& r : rs) out.push_back("scan " + r.ShortDebugString());
  if (!sm.stores().empty()) {
    std::vector<P::RegionCmd> cs;
    std::vector<pb::error::Error> es;
    k.GetRegionCmd(sm.stores(0).id(), 0, INT64_MAX, cs, es);
    for (size_t i = 0; i < cs.size(); ++i) out.push_back("cmd " + cs[i].ShortDebugString() + " " + es[i].ShortDebugString());
  }
  butil::FlatMap<int64_t, P::Job> jobs;
  jobs.init(100);
  k.GetJobAll(jobs);
  for (auto& j : jobs) { auto x = j.second; x.clear_update_time(); x.clear_finish_time(); x.clear_create_time(); out.push_back("job " + x.ShortDebugString()); }
  int64_t sp = 0, rp = 0;
  bool stop = false, ro = false;
  std::map<int64_t, int64_t> a, b;
  k.GetGCSafePoint(sp, stop, {}, true, a, rp, {}, b);
  out.push_back(Fmt("gc stop %d", stop));
  for (auto& x : a) out.push_back(Fmt("tenant %ld safe point %ld", (long)x.first, (long)x.second));
  for (auto& x : b) out.push_back(Fmt("tenant %ld resolve point %ld", (long)x.first, (long)x.second));
  ro = k.GetForceReadOnly();
  out.push_back(Fmt("read-only %d", ro));
  return Sorted(out);
}
static std::string Diff(const std::vector<std::string>& a, const std::vector<std::string>& b) {
  for (size_t i = 0; i < std::max(a.size(), b.size()); ++i) {
    if (i >= a.size()) return "leader: nothing, replica: " + b[i];
    if (i >= b.size()) return "leader: " + a[i] + ", replica: nothing";
    if (a[i] != b[i]) return "leader: " + a[i].substr(0, 600) + ", replica: " + b[i].substr(0, 600);
  }
  return "";
}
// What a replica has on disk; moments taken from each node's own clock are not compared.
static std::vector<std::string> Stored(Node& n, std::map<std::string, std::string>* ids = nullptr) {
  std::vector<std::string> v;
  for (auto& e : svc::Dump(*n.raw, Constant::kStoreMetaCF)) {
    if (e.first.find("DJOB_") != std::string::npos) continue;  // finished jobs, kept by each node for its own log only
    if (e.first.find("JOB") != std::string::npos) {
      P::Job j;
      if (j.ParseFromString(e.second)) { j.clear_update_time(); j.clear_finish_time(); e.second = j.SerializeAsString(); }
      
    }
    if (e.first.find("EPOCH") != std::string::npos) { if (ids) (*ids)[e.first] = e.second; continue; }  // numbers never used may be stored or not
    v.push_back(vh::Hex(e.first) + " = " + vh::Hex(e.second));
  }
  return v;
}
static void CheckReplicas() {
  std::map<std::string, std::string> wids;
  auto want = Stored(L(), &wids), says = Answers(L());
  for (auto& n : C->nodes) {
    if (n->id == C->lead || n->down) continue;
    std::map<std::string, std::string> hids;
    auto have = Stored(*n, &hids), tells = Answers(*n);
    for (auto& i : wids) if (hids.count(i.first) && hids[i.first] != i.second) Fail("replica-ids", Fmt("after %zu entries replica %d stores another value of a number: ", C->log.size(), n->id) + vh::Hex(i.first) + " = " + vh::Hex(hids[i.first]) + ", the leader " + vh::Hex(i.second));
    vh::Count("replica_comparisons");
    if (have != want) Fail("replica-disk", Fmt("after %zu entries the stored state of replica %d differs: ", C->log.size(), n->id) + Diff(want, have));
    if (tells != says) Fail("replica-answers", Fmt("after %zu entries the answers of replica %d differ: ", C->log.size(), n->id) + Diff(says, tells));
  }
}
static std::string List(const std::vector<int64_t>& v) { std::string s; for (auto i : v) s += Fmt(" %ld", (long)i); return v.empty() ? " none" : s; }
static void CheckModel() {
  auto& k = *L().kv;
  vh::Count("model_checks");
  // schemas and tables
  std::map<int64_t, std::vector<int64_t>> by_tenant;
  for (auto& s : M->schemas) by_tenant[s.second.tenant].push_back(s.first);
  std::vector<int64_t> tenants{0};
  for (auto& t : M->tenants) tenants.push_back(t.first);
  for (auto t : tenants) {
    std::vector<pb::meta::Schema> v;
    if (!k.GetSchemas(t, v).ok()) { Fail("schemas", Fmt("the schemas of tenant %ld cannot be listed", (long)t)); continue; }
    std::set<int64_t> have;
    for (auto& s : v) {
      int64_t id = s.id().entity_id();
      if (!have.insert(id).second) Fail("schema-twice", Fmt("schema %ld is listed twice", (long)id));
      if (id < 1000 && !M->schemas.count(id)) continue;  // the built-in ones
      auto it = M->schemas.find(id);
      if (it == M->schemas.end()) { Fail("schema-phantom", Fmt("schema %ld exists, nobody created it or it was dropped", (long)id)); continue; }
      if (it->second.tenant != t || s.name() != it->second.name) Fail("schema-changed", Fmt("schema %ld is %s, must be %s", (long)id, s.name().c_str(), it->second.name.c_str()));
      for (bool ix : {false, true}) {
        std::multiset<int64_t> ts;
        for (auto& x : ix ? s.index_ids() : s.table_ids()) ts.insert(x.entity_id());
        auto& have = ix ? it->second.indexes : it->second.tables;
        if (std::multiset<int64_t>(have.begin(), have.end()) != ts) {
          bool twice = std::set<int64_t>(ts.begin(), ts.end()).size() != ts.size();
          Fail(twice ? "table-listed-twice" : "schema-tables", Fmt("schema %ld lists %zu %s, it has %zu", (long)id, ts.size(), ix ? "indexes" : "tables", have.size()));
        }
      }
    }
    for (auto id : by_tenant[t]) {
      auto& s = M->schemas[id];
      if (!have.count(id)) { Fail("schema-lost", Fmt("schema %ld was created and is gone", (long)id)); continue; }
      pb::meta::Schema p;
      if (!k.GetSchemaByName(t, s.name, p).ok() || p.id().entity_id() != id) Fail("schema-name", Fmt("schema name %s does not lead to schema %ld", s.name.c_str(), (long)id));
      for (bool ix : {false, true}) {
        std::vector<pb::meta::TableDefinitionWithId> v;
        if (ix) k.GetIndexes(id, v); else k.GetTables(id, v);
        std::multiset<int64_t> ts;
        for (auto& x : v) ts.insert(x.table_id().entity_id());
        auto& have = ix ? s.indexes : s.tables;
        const char* what = ix ? "indexes" : "tables";
        if (ts != std::multiset<int64_t>(have.begin(), have.end())) Fail("tables", Fmt("schema %ld answers %zu %s, it has %zu", (long)id, ts.size(), what, have.size()));
        int64_t c = -1;
        if (ix) k.GetIndexesCount(id, c); else k.GetTablesCount(id, c);
        if (c != (int64_t)have.size()) Fail("table-count", Fmt("schema %ld counts %ld %s, it has %zu", (long)id, (long)c, what, have.size()));
      }
    }
  }
  for (auto& t : M->tables) {
    pb::meta::TableDefinitionWithId p, q;
    bool ix = t.second.index;
    const char* what = ix ? "index" : "table";
    auto st = ix ? k.GetIndex(t.second.schema, t.first, true, p) : k.GetTable(t.second.schema, t.first, p);
    if (!st.ok() || p.table_definition().name() != t.second.name || p.table_definition().comment() != t.second.comment) Fail("table-lost", Fmt("%s %ld cannot be read back", what, (long)t.first));
    st = ix ? k.GetIndexByName(t.second.schema, t.second.name, q) : k.GetTableByName(t.second.schema, t.second.name, q);
    if (!st.ok() || q.table_id().entity_id() != t.first) Fail("table-name", Fmt("%s name %s does not lead to %s %ld", what, t.second.name.c_str(), what, (long)t.first));
    vh::Count(ix ? "index_checks" : "table_checks");
  }
  // jobs
  butil::FlatMap<int64_t, P::Job> jobs;
  jobs.init(100);
  k.GetJobAll(jobs);
  std::set<int64_t> js;
  for (auto& e : jobs) {
    auto& j = e.second;
    js.insert(j.id());
    auto it = M->jobs.find(j.id());
    if (it == M->jobs.end()) { Fail("job-phantom", Fmt("job %ld is pending, it was never begun or it is over", (long)j.id())); continue; }
    if (j.next_step() != it->second.next) Fail("job-step", Fmt("job %ld is at step %d of %d, its commands are done up to step %d", (long)j.id(), (int)j.next_step(), j.tasks_size(), it->second.next));
    if (j.tasks_size() != (int)it->second.steps.size()) Fail("job-tasks", Fmt("job %ld has %d steps, it was begun with %zu", (long)j.id(), j.tasks_size(), it->second.steps.size()));
    vh::Count("job_checks");
  }
  for (auto& j : M->jobs) if (!js.count(j.first)) Fail("job-lost", Fmt("job %ld is not over and not pending", (long)j.first));
  pb::common::ExecutorMap em;
  k.GetExecutorMap(em, "");
  std::set<std::string> es;
  for (auto& x : em.executors()) es.insert(x.id());
  if (es != M->executors) Fail("executors", Fmt("%zu executors are known, %zu registered", es.size(), M->executors.size()));
  // regions: every key is found in the region that holds it
  std::vector<I::RegionInternal> rs;
  k.ScanRegions(std::string(1, '\0'), std::string(9, '\xff'), 0, rs);
  std::set<int64_t> have;
  for (auto& r : rs) if (!have.insert(r.id()).second) Fail("region-twice", Fmt("region %ld appears twice in the key space", (long)r.id()));
  std::set<int64_t> want;
  for (auto& r : M->regions) want.insert(r.first);
  if (have != want) Fail("region-map", Fmt("%zu regions cover the key space, %zu exist", have.size(), want.size()));
  for (auto& r : M->regions) {
    pb::common::Region p;
    if (!k.QueryRegion(r.first, p).ok() || p.definition().range().start_key() != r.second.start || p.definition().range().end_key() != r.second.end) Fail("region-lost", Fmt("region %ld cannot be read back", (long)r.first));
  }
  // store commands
  for (auto& s : M->stores) {
    P::StoreOperation o;
    k.GetStoreOperation(s.first, o);
    std::vector<int64_t> ids;
    for (auto& c : o.region_cmds()) ids.push_back(c.id());
    if (ids != M->cmds[s.first]) Fail("store-commands", Fmt("store %ld is told", (long)s.first) + List(ids) + ", pending are" + List(M->cmds[s.first]));
    vh::Count("command_lists");
  }
  pb::common::ExecutorUserMap um;
  k.GetExecutorUserMap(1, um);
  std::map<std::string, std::string> users;
  for (auto& u : um.executor_users()) users[u.user()] = u.keyring();
  if (users != M->users) Fail("users", Fmt("%zu users answered, %zu exist", users.size(), M->users.size()));
  pb::common::StoreMap sm;
  k.GetStoreMap(sm);
  std::map<int64_t, int> st;
  for (auto& s : sm.stores()) st[s.id()] = s.in_state();
  if (st != M->stores) Fail("stores", Fmt("%zu stores answered, %zu registered, or in another state", st.size(), M->stores.size()));
  // tenants and safe points
  std::vector<pb::meta::Tenant> tv;
  k.GetAllTenants(tv);
  std::set<int64_t> seen;
  for (auto& t : tv) {
    if (t.id() == 0) continue;
    seen.insert(t.id());
    auto it = M->tenants.find(t.id());
    if (it == M->tenants.end()) { Fail("tenant-phantom", Fmt("tenant %ld exists, nobody created it or it was dropped", (long)t.id())); continue; }
    if (t.name() != it->second.name || t.comment() != it->second.comment) Fail("tenant-name", Fmt("tenant %ld is called %s (%s), its last change said %s (%s)", (long)t.id(), t.name().c_str(), t.comment().c_str(), it->second.name.c_str(), it->second.comment.c_str()));
    if (t.safe_point_ts() != it->second.sp) Fail(t.safe_point_ts() < it->second.sp ? "tenant-point-back" : "tenant-point", Fmt("tenant %ld has safe point %ld, must have %ld", (long)t.id(), (long)t.safe_point_ts(), (long)it->second.sp));
    if (t.resolve_lock_safe_point_ts() != it->second.rp) Fail(t.resolve_lock_safe_point_ts() < it->second.rp ? "tenant-resolve-back" : "tenant-resolve", Fmt("tenant %ld has resolve point %ld, must have %ld", (long)t.id(), (long)t.resolve_lock_safe_point_ts(), (long)it->second.rp));
    vh::Count("tenant_checks");
  }
  for (auto& t : M->tenants) if (!seen.count(t.first)) Fail("tenant-lost", Fmt("tenant %ld was created and is gone", (long)t.first));
  int64_t sp = -1, rp = -1;
  bool stop = false;
  std::map<int64_t, int64_t> a, b;
  std::vector<int64_t> ids;
  for (auto& t : M->tenants) ids.push_back(t.first);
  k.GetGCSafePoint(sp, stop, ids, false, a, rp, ids, b);
  if (sp != M->sp) Fail(sp < M->sp ? "gc-point-back" : "gc-point", Fmt("the safe point is %ld, must be %ld", (long)sp, (long)M->sp));
  if (rp != M->rp) Fail(rp < M->rp ? "gc-resolve-back" : "gc-resolve", Fmt("the resolve-lock safe point is %ld, must be %ld", (long)rp, (long)M->rp));
  if (stop != M->gc_stop) Fail("gc-stop", Fmt("GC is%s stopped, the last request said otherwise", stop ? "" : " not"));
  for (auto& t : M->tenants) if (a[t.first] != t.second.sp || b[t.first] != t.second.rp) Fail("gc-tenant", Fmt("tenant %ld is answered %ld/%ld, must be %ld/%ld", (long)t.first, (long)a[t.first], (long)b[t.first], (long)t.second.sp, (long)t.second.rp));
}

// ---------------------------------------------------------------- driver
static std::string Kind(const std::string& s) { std::string t; for (char c : s) if (!isdigit(c)) t.push_back(c); return t; }
struct Driver {
  Rng& r;
  std::string mode;
  std::vector<std::unique_ptr<Req>> pending;  // prepared, not yet proposed
  int seq{0};
  explicit Driver(Rng& r, const std::string& m) : r(r), mode(m) {}
  CoordinatorControl& K() { return *L().kv; }
  std::vector<std::pair<int, int64_t>> giving;  // goes to the client once the request is through
  void Give(int kind, const char* what, int64_t id) {
    (void)what;
    giving.push_back({kind, id});
  }
  void Given(int kind, int64_t id) {
    const char* what = kind == 1 ? "schema" : kind == 2 ? "table" : kind == 3 ? "region" : kind == 4 ? "store" : kind == 5 ? "command" : "numbered";
    if (id <= 0) Fail("id-value", Fmt("%s identifier %ld was handed out", what, (long)id));
    if (!M->given[kind].insert(id).second) Fail("id-twice", Fmt("%s identifier %ld was handed out twice", what, (long)id));
    vh::Count("identifiers");
  }
  template <class T> int64_t Some(const std::map<int64_t, T>& m, int64_t other = 77777) {
    if (m.empty() || r.Chance(1, 12)) return other;
    auto it = m.begin();
    std::advance(it, r.Below(m.size()));
    return it->first;
  }
  std::unique_ptr<Req> Start(const std::string& what) { auto q = std::make_unique<Req>(); q->what = what; return q; }
  void Keep(std::unique_ptr<Req> q) {
    Note("prepare " + q->what);
    q->ids = giving;
    giving.clear();
    pending.push_back(std::move(q));
  }
  bool Judge(const butil::Status& s, bool ok, const std::string& what) {
    vh::Count(s.ok() ? "prepared" : "refused_requests");
    if (s.ok() != ok) Fail(ok ? "refused" : "accepted", what + (ok ? " was refused: " + s.error_str() : " was accepted"));
    return s.ok();
  }
  // names that requests in flight already hold or have given up
  std::set<std::string> busy;
  bool Busy(const std::string& s) { return !busy.insert(s).second; }
  bool Used(const std::string& s) { return busy.count(s) != 0; }

  void CreateSchema() {
    int64_t t = r.Chance(1, 2) ? 0 : Some(M->tenants, 999);
    std::string name = Fmt("s%d", (int)r.Below(8));
    std::string key = Fmt("schema %ld %s", (long)t, name.c_str());
    if (Used(Fmt("tenant %ld", (long)t)) || Used("drop " + key)) return;
    bool taken = Used(key), exists = t == 0 || M->tenants.count(t);
    for (auto& s : M->schemas) if (s.second.tenant == t && s.second.name == name) taken = true;
    auto q = Start("create " + key);
    int64_t id = 0;
    auto st = K().CreateSchema(t, name, id, q->inc);
    if (!Judge(st, exists && !taken, q->what)) return;
    busy.insert(key);
    busy.insert(Fmt("tenant %ld", (long)t));
    Give(1, "schema", id);
    q->applied = [=] { M->schemas[id] = {t, name, {}}; };
    Keep(std::move(q));
  }
  void DropSchema() {
    int64_t id = Some(M->schemas);
    auto it = M->schemas.find(id);
    std::string key = it == M->schemas.end() ? "" : Fmt("schema %ld %s", (long)it->second.tenant, it->second.name.c_str());
    if (Used(Fmt("dropping %ld", (long)id)) || Used(Fmt("creating in %ld", (long)id)) || Used(key)) return;
    if (it != M->schemas.end() && !it->second.indexes.empty()) return;
    auto q = Start(Fmt("drop schema %ld", (long)id));
    auto st = K().DropSchema(it == M->schemas.end() ? 0 : it->second.tenant, id, q->inc);
    if (!Judge(st, it != M->schemas.end() && it->second.tables.empty(), q->what)) return;
    busy.insert(Fmt("dropping %ld", (long)id));
    busy.insert("drop " + key);
    q->applied = [=] {
      // a table created meanwhile goes with its schema's name only if it came first
      M->schemas.erase(id);
      for (auto t = M->tables.begin(); t != M->tables.end();) if (t->second.schema == id) t = M->tables.erase(t); else ++t;
    };
    Keep(std::move(q));
  }
  std::string Key(int64_t part) { std::string s = "w"; for (int i = 7; i >= 0; --i) s.push_back((char)(part >> (8 * i))); return s; }
  void CreateTable() {
    if (M->stores.empty()) return;
    int64_t sid = Some(M->schemas);
    if (mode != "seq" && Used(Fmt("dropping %ld", (long)sid))) return;
    bool index = r.Chance(1, 3);
    const char* kind = index ? "index" : "table";
    std::string name = Fmt("t%d", (int)r.Below(6)), key = Fmt("%s %ld %s", kind, (long)sid, name.c_str());
    if (Used("drop " + key) || Used("stores") || Used("readonly") || Used("tables of " + std::to_string(sid))) return;
    bool exists = M->schemas.count(sid), taken = Used(key);
    for (auto& t : M->tables) if (t.second.schema == sid && t.second.index == index && t.second.name == name) taken = true;
    auto q = Start("create " + key);
    std::vector<int64_t> ids;
    int parts = r.Range(1, 3);
    if (!K().CreateTableIds(exists ? sid : pb::meta::DINGO_SCHEMA, parts + 1, ids, q->inc).ok()) { Fail("ids-refused", "table identifiers were refused"); return; }
    if ((int)ids.size() != parts + 1) { Fail("ids-count", Fmt("%d table identifiers were asked for, %zu given", parts + 1, ids.size())); return; }
    for (auto i : ids) Give(2, "table", i);
    pb::meta::TableDefinition d;
    d.set_name(name);
    d.set_replica(1);
    d.set_engine(pb::common::ENG_ROCKSDB);
    std::string com = Fmt("c%d", ++seq);
    d.set_comment(com);
    if (index) {
      d.mutable_index_parameter()->set_index_type(pb::common::INDEX_TYPE_SCALAR);
      d.mutable_index_parameter()->mutable_scalar_index_parameter()->set_scalar_index_type(pb::common::SCALAR_INDEX_TYPE_LSM);
      d.add_columns()->set_name("a");
    }
    std::vector<Region> ranges;
    for (int i = 0; i < parts; ++i) {
      auto* p = d.mutable_table_partition()->add_partitions();
      p->mutable_id()->set_entity_id(ids[i + 1]);
      p->mutable_range()->set_start_key(Key(ids[i + 1]));
      p->mutable_range()->set_end_key(Key(ids[i + 1] + 1));
      ranges.push_back({Key(ids[i + 1]), Key(ids[i + 1] + 1)});
    }
    std::vector<int64_t> regions;
    int64_t id = ids[0];
    auto st = index ? K().CreateIndex(sid, d, 0, id, regions, q->inc) : K().CreateTable(sid, d, id, regions, q->inc);
    int in = 0;
    for (auto& s : M->stores) in += s.second == pb::common::STORE_IN && M->normal.count(s.first);
    bool ok = exists && !taken && !M->read_only && in > 0;
    if (!Judge(st, ok, q->what)) return;
    if ((int)regions.size() != parts) { Fail("table-regions", Fmt("a table of %d partitions got %zu regions", parts, regions.size())); return; }
    for (auto x : regions) Give(3, "region", x);
    busy.insert(key);
    busy.insert(Fmt("creating in %ld", (long)sid));
    q->applied = [=] {
      for (int i = 0; i < parts; ++i) M->regions[regions[i]] = ranges[i];
      if (!M->schemas.count(sid)) { vh::Count("tables_in_dropped_schemas"); return; }
      M->tables[id] = {sid, name, com, index};
      (index ? M->schemas[sid].indexes : M->schemas[sid].tables).insert(id);
      vh::Count(index ? "indexes_created" : "tables_created");
    };
    Keep(std::move(q));
  }
  void DropTable() {
    int64_t id = Some(M->tables);
    auto it = M->tables.find(id);
    int64_t sid = it == M->tables.end() ? (int64_t)pb::meta::DINGO_SCHEMA : it->second.schema;
    bool index = it == M->tables.end() ? r.Chance(1, 2) : it->second.index;
    std::string key = it == M->tables.end() ? "" : Fmt("%s %ld %s", index ? "index" : "table", (long)sid, it->second.name.c_str());
    if (Used(key)) return;
    auto q = Start(Fmt("drop %s %ld", index ? "index" : "table", (long)id));
    auto st = index ? K().DropIndex(sid, id, true, q->inc) : K().DropTable(sid, id, q->inc);
    if (!Judge(st, it != M->tables.end(), q->what)) return;
    busy.insert("drop " + key);
    if (mode == "seq") vh::Count("table_drops");
    q->applied = [=] {
      M->tables.erase(id);
      if (M->schemas.count(sid)) { M->schemas[sid].tables.erase(id); M->schemas[sid].indexes.erase(id); }
    };
    Keep(std::move(q));
  }
  void Ids() {
    static const P::IdEpochType kinds[] = {P::IdEpochType::ID_DDL_JOB, P::IdEpochType::ID_SCHEMA_VERSION, P::IdEpochType::ID_NEXT_TENANT, P::IdEpochType::ID_NEXT_REGION};
    int w = r.Below(5);
    auto q = Start("identifiers");
    int n = r.Range(1, 5);
    if (r.Chance(1, 10)) n = -(int)r.Below(2);
    if (w == 4) {
      std::vector<int64_t> ids;
      if (n <= 0) return;
      auto st = K().CreateRegionId(n, ids, q->inc);
      if (!Judge(st, true, "region identifiers")) return;
      if ((int)ids.size() != n) Fail("ids-count", "another number of region identifiers was given");
      for (auto i : ids) Give(3, "region", i);
    } else {
      std::vector<int64_t> ids;
      auto st = K().CreateIds(kinds[w], n, ids, q->inc);
      if (!Judge(st, n > 0, "identifiers")) return;
      if ((int)ids.size() != n) Fail("ids-count", "another number of identifiers was given");
      for (auto i : ids) Give(w == 3 ? 3 : 10 + w, "numbered", i);
    }
    q->applied = [] {};
    Keep(std::move(q));
  }
  void Tenants() {
    int w = r.Below(10);
    if (w < 3) {
      int64_t id = r.Range(1, 6);
      if (Busy(Fmt("new tenant %ld", (long)id)) || Used(Fmt("gone tenant %ld", (long)id))) return;
      pb::meta::Tenant t;
      t.set_id(id);
      t.set_name(Fmt("name%d", ++seq));
      t.set_comment(Fmt("comment%d", seq));
      auto q = Start(Fmt("create tenant %ld %s", (long)id, t.name().c_str()));
      auto st = K().CreateTenant(t, q->inc);
      if (!Judge(st, !M->tenants.count(id), q->what)) return;
      std::string a = t.name(), b = t.comment();
      q->applied = [=] { M->tenants[id] = {a, b, 0, 0}; };
      Keep(std::move(q));
    } else if (w < 8) {
      int64_t id = Some(M->tenants);
      pb::meta::Tenant t;
      t.set_id(id);
      t.set_name(Fmt("name%d", ++seq));
      t.set_comment(Fmt("comment%d", seq));
      auto q = Start(Fmt("rename tenant %ld to %s", (long)id, t.name().c_str()));
      auto st = K().UpdateTenant(t, q->inc);
      if (!Judge(st, M->tenants.count(id), q->what)) return;
      std::string a = t.name(), b = t.comment();
      q->applied = [=] { auto it = M->tenants.find(id); if (it != M->tenants.end()) { it->second.name = a; it->second.comment = b; vh::Count("renames"); } };
      Keep(std::move(q));
    } else {
      int64_t id = Some(M->tenants);
      if (Used(Fmt("tenant %ld", (long)id)) || Used(Fmt("new tenant %ld", (long)id)) || Busy(Fmt("gone tenant %ld", (long)id))) return;
      bool empty = true;
      for (auto& s : M->schemas) if (s.second.tenant == id) empty = false;
      auto q = Start(Fmt("drop tenant %ld", (long)id));
      auto st = K().DropTenant(id, q->inc);
      if (!Judge(st, M->tenants.count(id) && empty, q->what)) return;
      busy.insert(Fmt("tenant %ld", (long)id));
      q->applied = [=] { M->tenants.erase(id); };
      Keep(std::move(q));
    }
  }
  void SafePoint() {
    int64_t sp = r.Chance(1, 5) ? 0 : M->sp + (int64_t)r.Below(40) - 12, rp = r.Chance(1, 3) ? 0 : M->rp + (int64_t)r.Below(40) - 12;
    sp = std::max<int64_t>(sp, 0);
    rp = std::max<int64_t>(rp, 0);
    std::map<int64_t, int64_t> ts, tr;
    for (auto& t : M->tenants) {
      if (r.Chance(1, 2)) ts[t.first] = std::max<int64_t>(1, t.second.sp + (int64_t)r.Below(40) - 12);
      if (r.Chance(1, 3)) tr[t.first] = std::max<int64_t>(1, t.second.rp + (int64_t)r.Below(40) - 12);
    }
    auto flag = r.Chance(2, 3) ? P::UpdateGCSafePointRequest::GC_NONE : r.Chance(1, 2) ? P::UpdateGCSafePointRequest::GC_STOP : P::UpdateGCSafePointRequest::GC_START;
    if (flag != P::UpdateGCSafePointRequest::GC_NONE && Busy("gc flag")) flag = P::UpdateGCSafePointRequest::GC_NONE;
    auto q = Start(Fmt("safe points %ld/%ld", (long)sp, (long)rp));
    for (auto& t : ts) q->what += Fmt(" %ld:%ld", (long)t.first, (long)t.second);
    for (auto& t : tr) q->what += Fmt(" %ld:/%ld", (long)t.first, (long)t.second);
    int64_t nsp = -1, nrp = -1;
    bool stop = false;
    auto tsc = ts, trc = tr;
    auto st = K().UpdateGCSafePoint(sp, flag, nsp, stop, tsc, rp, trc, nrp, q->inc);
    if (!Judge(st, true, q->what)) return;
    if (nsp < sp || nrp < rp || nsp < M->sp || nrp < M->rp) Fail("gc-answer", Fmt("%s was answered %ld/%ld", q->what.c_str(), (long)nsp, (long)nrp));
    bool now = flag == P::UpdateGCSafePointRequest::GC_NONE ? M->gc_stop : flag == P::UpdateGCSafePointRequest::GC_STOP;
    if (flag != P::UpdateGCSafePointRequest::GC_NONE && stop != now) Fail("gc-stop-answer", "the answer about stopping GC is wrong");
    q->applied = [=] {
      if (sp > M->sp) vh::Count("safe_point_advances");
      M->sp = std::max(M->sp, sp);
      M->rp = std::max(M->rp, rp);
      if (flag != P::UpdateGCSafePointRequest::GC_NONE) M->gc_stop = now;
      for (auto& t : ts) { auto it = M->tenants.find(t.first); if (it != M->tenants.end()) { if (t.second > it->second.sp) vh::Count("tenant_advances"); it->second.sp = std::max(it->second.sp, t.second); } }
      for (auto& t : tr) { auto it = M->tenants.find(t.first); if (it != M->tenants.end()) it->second.rp = std::max(it->second.rp, t.second); }
    };
    Keep(std::move(q));
  }
  void Stores() {
    int w = r.Below(10);
    if (w < 3 && M->stores.size() < 5) {
      if (Busy("stores")) return;
      auto q = Start("create store");
      int64_t id = 0;
      std::string ring;
      if (!Judge(K().CreateStore(1, id, ring, q->inc), true, q->what)) return;
      Give(4, "store", id);
      q->applied = [=] { M->stores[id] = pb::common::STORE_IN; };
      Keep(std::move(q));
    } else if (w < 8) {  // its heartbeat
      int64_t id = Some(M->stores);
      if (!M->stores.count(id) || Busy("stores")) return;
      pb::common::StoreMap sm;
      K().GetStoreMap(sm);
      pb::common::Store s;
      for (auto& x : sm.stores()) if (x.id() == id) s = x;
      if (s.id() != id || (s.state() == pb::common::STORE_NORMAL && r.Chance(1, 2))) { busy.erase("stores"); return; }
      s.mutable_server_location()->set_host("127.0.0.1");
      s.mutable_server_location()->set_port(20000 + r.Below(5000));
      s.set_leader_num_weight(1);
      auto q = Start(Fmt("heartbeat of %ld", (long)id));
      K().UpdateStoreMap(s, q->inc);
      if (q->inc.stores_size() == 0) { busy.erase("stores"); return; }
      q->applied = [=] { M->normal.insert(id); };
      Keep(std::move(q));
    } else {
      int64_t id = Some(M->stores);
      if (!M->stores.count(id) || Busy("stores")) return;
      auto to = r.Chance(2, 3) ? pb::common::STORE_IN : pb::common::STORE_OUT;
      auto q = Start(Fmt("store %ld in-state %d", (long)id, (int)to));
      if (!Judge(K().UpdateStore(1, id, "TO_BE_CONTINUED", to, q->inc), true, q->what)) return;
      if (q->inc.stores_size() == 0) { busy.erase("stores"); return; }
      q->applied = [=] { M->stores[id] = to; };
      Keep(std::move(q));
    }
  }
  void Users() {
    std::string u = Fmt("u%d", (int)r.Below(4));
    if (Busy("user " + u)) return;
    pb::common::ExecutorUser e;
    e.set_user(u);
    bool has = M->users.count(u);
    if (r.Chance(1, 2)) {
      e.set_keyring(Fmt("k%d", ++seq));
      auto q = Start("create user " + u);
      if (!Judge(K().CreateExecutorUser(1, e, q->inc), !has, q->what)) return;
      std::string k = e.keyring();
      q->applied = [=] { M->users[u] = k; };
      Keep(std::move(q));
    } else {
      bool right = r.Chance(3, 4);
      e.set_keyring(has && right ? M->users[u] : "wrong");
      auto q = Start("delete user " + u);
      if (!Judge(K().DeleteExecutorUser(1, e, q->inc), has && right, q->what)) return;
      q->applied = [=] { M->users.erase(u); };
      Keep(std::move(q));
    }
  }
  void Commands() {
    int64_t s = Some(M->stores);
    if (!M->stores.count(s)) return;
    int w = r.Below(10);
    if (w < 5) {
      P::StoreOperation o;
      o.set_store_id(s);
      auto* c = o.add_region_cmds();
      c->set_region_id(r.Range(100, 100000));
      c->set_region_cmd_type(P::RegionCmdType::CMD_STOP);
      auto q = Start(Fmt("command for store %ld", (long)s));
      if (!Judge(K().AddStoreOperation(o, false, q->inc), true, q->what)) return;
      if (q->inc.region_cmds_size() != 1) { Fail("command", "a command was accepted and not proposed"); return; }
      int64_t id = q->inc.region_cmds(0).id();
      Give(5, "command", id);
      q->what += Fmt(" %ld", (long)id);
      q->applied = [=] { M->cmds[s].push_back(id); };
      Keep(std::move(q));
      return;
    }
    auto& v = M->cmds[s];
    if (v.empty()) return;
    int64_t id = r.Pick(v);
    if (w < 7) {
      pb::error::Error e;
      auto q = Start(Fmt("command %ld of store %ld is done", (long)id, (long)s));
      if (!Judge(K().RemoveRegionCmd(s, 0, id, e, q->inc), true, q->what)) return;
      // a command that moved on meanwhile is forgotten by whichever store holds it
      q->applied = [=] { for (auto& x : M->cmds) x.second.erase(std::remove(x.second.begin(), x.second.end(), id), x.second.end()); };
      Keep(std::move(q));
    } else {
      int64_t to = Some(M->stores);
      if (!M->stores.count(to) || to == s || Used("moving") ) return;
      auto q = Start(Fmt("command %ld moves from store %ld to %ld", (long)id, (long)s, (long)to));
      if (!Judge(K().MoveRegionCmd(s, to, id, q->inc), true, q->what)) return;
      busy.insert("moving");
      q->applied = [=] {
        auto& a = M->cmds[s];
        if (std::find(a.begin(), a.end(), id) == a.end()) { vh::Count("moves_of_finished_commands"); Note("no longer there"); return; }
        if (!K_has(to)) { Note("to a store without commands yet"); return; }
        a.erase(std::remove(a.begin(), a.end(), id), a.end());
        M->cmds[to].push_back(id);
        vh::Count("command_moves");
      };
      Keep(std::move(q));
    }
  }
  std::set<int64_t> had_ops;  // stores for which a command list was ever made
  bool K_has(int64_t s) { return had_ops.count(s) != 0; }
  void DropRegion() {
    int64_t id = Some(M->regions);
    if (Busy(Fmt("region %ld", (long)id))) return;
    auto q = Start(Fmt("drop region %ld", (long)id));
    if (!Judge(K().DropRegion(id, q->inc), M->regions.count(id), q->what)) return;
    q->applied = [=] { M->regions.erase(id); };
    Keep(std::move(q));
  }
  void ReadOnly() {
    if (Busy("readonly") || pending.size()) return;
    bool to = r.Chance(1, 3);
    auto q = Start(Fmt("read-only %d", to));
    if (!Judge(K().UpdateForceReadOnly(to, "because", q->inc), true, q->what)) return;
    if (q->inc.ByteSizeLong() == 0) return;
    q->applied = [=] { M->read_only = to; };
    Keep(std::move(q));
  }
  void Executors() {
    std::string id = Fmt("e%d", (int)r.Below(5));
    if (Busy("executor " + id)) return;
    pb::common::Executor e;
    e.set_id(id);
    e.mutable_server_location()->set_host("127.0.0.1");
    e.mutable_server_location()->set_port(30000);
    auto q = Start("heartbeat of executor " + id);
    if (M->executors.count(id)) return;  // a later heartbeat is the leader's own affair
    K().UpdateExecutorMap(e, q->inc);
    if (q->inc.executors_size() != 1) { Fail("executor", "the first heartbeat of an executor is not put through"); return; }
    q->applied = [=] { M->executors.insert(id); };
    Keep(std::move(q));
  }
  // A store reports what became of a command of a job, for the current step or (late) of another one.
  void JobReport() {
    butil::FlatMap<int64_t, P::Job> jobs;
    jobs.init(100);
    K().GetJobAll(jobs);
    std::vector<P::Job> v;
    for (auto& j : jobs) if (j.second.tasks_size() > 0) v.push_back(j.second);
    if (v.empty()) return;
    std::sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.id() < b.id(); });
    auto& j = r.Pick(v);
    int step = j.next_step() < j.tasks_size() && r.Chance(4, 5) ? j.next_step() : r.Below(j.tasks_size());
    std::vector<int64_t> cmds;
    for (auto& o : j.tasks(step).store_operations()) for (auto& c : o.region_cmds()) cmds.push_back(c.id());
    if (cmds.empty()) return;
    int64_t c = r.Pick(cmds), id = j.id();
    auto q = Start(Fmt("job %ld command %ld is done", (long)id, (long)c));
    if (!Judge(K().UpdateRegionCmdStatus(id, c, P::RegionCmdStatus::STATUS_DONE, pb::error::Error(), q->inc), true, q->what)) return;
    q->applied = [] {};
    Keep(std::move(q));
  }
  void Begun(const P::Job& j) {
    Given(6, j.id());
    auto& m = M->jobs[j.id()] = Job();
    m.next = j.next_step();
    for (auto& t : j.tasks()) {
      m.steps.emplace_back();
      for (auto& o : t.store_operations()) {
        std::set<int64_t> s;
        for (auto& c : o.region_cmds()) { s.insert(c.id()); Given(5, c.id()); }
        if (!s.empty()) m.steps.back().push_back({s, false});
      }
    }
    vh::Count("jobs");
  }
  void Done(int64_t id, int64_t c) {
    auto it = M->jobs.find(id);
    if (it == M->jobs.end() || it->second.next >= (int)it->second.steps.size()) return;
    bool hit = false, all = true;
    for (auto& o : it->second.steps[it->second.next]) {
      if (o.first.count(c)) hit = o.second = true;
      all &= o.second;
    }
    if (hit && all) { ++it->second.next; vh::Count("job_steps"); }
  }
  void CleanJobs() {
    auto q = Start("clean jobs");
    if (!Judge(K().CleanJobList(0, q->inc), true, q->what)) return;
    if (q->inc.jobs_size() == 0) return;
    vh::Count("job_cleanups");
    q->applied = [] {};
    Keep(std::move(q));
  }
  void Prepare() {
    giving.clear();
    int x = r.Below(100);
    if (mode == "gc") { x < 35 ? Tenants() : x < 85 ? SafePoint() : x < 92 ? CreateSchema() : x < 96 ? DropSchema() : Ids(); return; }
    if (mode == "names") { x < 22 ? CreateSchema() : x < 36 ? DropSchema() : x < 62 ? CreateTable() : x < 74 ? DropTable() : x < 82 ? Ids() : x < 88 ? Stores() : x < 93 ? DropRegion() : x < 96 ? Tenants() : ReadOnly(); return; }
    if (x < 10) CreateSchema();
    else if (x < 16) DropSchema();
    else if (x < 30) CreateTable();
    else if (x < 37) DropTable();
    else if (x < 42) Ids();
    else if (x < 48) Tenants();
    else if (x < 54) SafePoint();
    else if (x < 64) Stores();
    else if (x < 67) Users();
    else if (x < 80) Commands();
    else if (x < 84) DropRegion();
    else if (x < 86) ReadOnly();
    else if (x < 88) Executors();
    else if (x < 98) JobReport();
    else CleanJobs();
  }
  // Puts the prepared requests through the log. A refused one means that this leader lost its place.
  void Propose() {
    bool elect = false, order = false;
    for (auto& b : busy) order |= b.compare(0, 9, "dropping ") == 0;
    if (!order && pending.size() > 1 && r.Chance(1, 2)) {  // requests reach the log in another order than they were prepared
      std::swap(pending[r.Below(pending.size())], pending[r.Below(pending.size())]);
      vh::Count("requests_out_of_order");
    }
    for (auto& q : pending) {
      if (q->inc.ByteSizeLong() == 0) continue;
      if (C->leader_crashed || elect) break;  // their clients never learn
      if (r.Chance(1, 25)) C->refuse = true;
      Note("propose " + q->what);
      size_t before = C->log.size();
      auto jobs = q->inc.jobs();
      std::set<int64_t> lists;
      for (auto& o : q->inc.store_operations()) if (o.op_type() != I::MetaIncrementOpType::MODIFY) lists.insert(o.id());
      auto st = K().SubmitMetaIncrementSync(q->inc);
      bool in_log = C->log.size() > before;
      if (!st.ok() && in_log && !C->leader_crashed) Fail("lost-answer", q->what + " was put through and its caller was told it failed: " + st.error_str());
      if (st.ok() && !in_log) Fail("false-answer", q->what + " was acknowledged and never proposed");
      if (in_log) {
        had_ops.insert(lists.begin(), lists.end());
        q->applied();
        for (auto& j : jobs) {
          if (j.op_type() == I::MetaIncrementOpType::CREATE) Begun(j.job());
          if (j.op_type() == I::MetaIncrementOpType::DELETE) M->jobs.erase(j.job_id());
          if (j.op_type() == I::MetaIncrementOpType::MODIFY) for (auto& c : j.region_cmds_status()) Done(j.job_id(), c.region_cmd_id());
        }
        for (auto& i : q->ids) Given(i.first, i.second);
        vh::Count("applied");
        vh::Case(vh::HashStr(Kind(q->what) + Fmt(" %d of %zu in flight, %d/%d/%d", (int)(&q - &pending[0]), pending.size(), (int)std::min<size_t>(M->schemas.size(), 3), (int)std::min<size_t>(M->tables.size(), 3), (int)std::min<size_t>(M->tenants.size(), 3))));
      } else {
        vh::Count("refused_proposals");
        elect = true;
      }
      C->refuse = false;
    }
    if (pending.size() > 1) vh::Count("requests_in_flight_together");
    pending.clear();
    busy.clear();
    if (elect && !C->leader_crashed) NewLeader();
  }
  void NewLeader() {
    std::vector<int> up;
    for (auto& n : C->nodes) if (!n->down) up.push_back(n->id);
    int v = r.Pick(up);
    Note(Fmt("leader %d", v));
    Elect(v);
    vh::Count("elections");
  }
  void Step() {
    int n = r.Chance(1, 2) ? 1 : r.Range(2, 4);
    for (int i = 0; i < n; ++i) Prepare();
    Propose();
  }
  std::string SaveSnapshot(Node& from) {
    static int seq = 0;
    DirWriter w;
    w.dir = g_root + "/snap/" + std::to_string(++seq);
    std::filesystem::create_directories(w.dir);
    SaveDone d;
    from.fsm->on_snapshot_save(&w, &d);
    d.w.Wait();
    if (!d.status().ok() || !w.files.count("data")) Fail("snapshot-save", "a snapshot could not be taken: " + std::string(d.status().error_cstr()));
    return w.dir;
  }
  void Snapshot(bool crash) {
    int v = r.Below(C->nodes.size());
    if (v == C->lead) v = (v + 1) % C->nodes.size();
    if (C->log.empty()) return;
    Note(Fmt("snapshot to %d%s", v, crash ? " with a crash" : ""));
    std::string dir = SaveSnapshot(L());
    int64_t at = C->log.size(), term = C->log.back().term;
    if (r.Chance(2, 3)) {
      C->nodes[v]->down = true;
      for (int i = r.Below(4); i > 0; --i) Step();
      if (C->lead == v) return;
    }
    if (r.Chance(1, 2) || C->nodes[v]->base == at) {
      DropNode(*C->nodes[v]);
      C->nodes[v] = NewNode(v);
    }
    Node& n = *C->nodes[v];
    n.snapshot = dir;
    n.base = at;
    n.snapshot_term = term;
    if (crash) { g_crash_path = n.path + "/rocksdb"; g_crash_in = r.Below(30); }
    vh::Count("snapshots");
    int c0 = g_crashes;
    Restart(n, r);
    if (g_crashes != c0) vh::Count("crashes_in_snapshots");
    g_crash_in = -1;
    CheckReplicas();
  }
  void CrashNode() {
    int v = r.Below(C->nodes.size());
    g_crash_path = C->nodes[v]->path + "/rocksdb";
    g_crash_in = r.Below(r.Chance(1, 3) ? 20 : 6);
    Note(Fmt("crash of %d armed", v));
    for (int i = 0; i < 5 && !C->nodes[v]->down && !C->leader_crashed; ++i) Step();
    if (C->leader_crashed) {
      C->nodes[v]->down = true;
      vh::Count("leader_crashes");
      C->leader_crashed = false;
      C->refuse = false;
      NewLeader();
    }
    g_crash_in = -1;
    if (C->nodes[v]->down) {
      for (int i = r.Below(3); i > 0; --i) Step();
      if (r.Chance(1, 3)) g_crash_in = r.Below(10);
      Note(Fmt("restart of %d", v));
      Restart(*C->nodes[v], r);
      g_crash_in = -1;
      vh::Count("crash_recoveries");
      CheckReplicas();
      if (r.Chance(1, 2)) { NewLeader(); CheckModel(); }
    }
  }
  void PlainRestart() {
    int v = r.Below(C->nodes.size());
    Note(Fmt("plain restart of %d", v));
    bool led = v == C->lead;
    if (led) {
      C->nodes[v]->down = true;
      NewLeader();
    }
    Restart(*C->nodes[v], r);
    CheckReplicas();
  }
};

// Many clients of one leader at once: identifiers are never shared, a name goes to one of them, and a safe point that was
// answered is there to stay.
static void Race(Rng& r, int rounds) {
  for (int w = 0; w < rounds; ++w) {
    vh::SetCase(Fmt("race %d", w));
    NewCluster(2);
    std::mutex m;
    std::map<int, std::map<int64_t, int>> given;
    std::map<std::string, std::vector<int64_t>> created;
    std::atomic<int64_t> acked{0};
    std::atomic<bool> stop{false};
    int threads = r.Range(3, 6), names = r.Range(2, 12);
    std::vector<std::thread> ts;
    for (int t = 0; t < threads; ++t) {
      uint64_t seed = r.Next();
      ts.emplace_back([&, t, seed] {
        Rng r(seed);
        for (int i = 0; i < 60; ++i) {
          auto& k = *C->nodes[0]->kv;
          I::MetaIncrement inc;
          std::vector<std::pair<int, int64_t>> ids;
          std::string name;
          int64_t id = 0, sp = 0, nsp = 0, nrp = 0;
          int x = r.Below(10);
          if (x < 2) {
            std::vector<int64_t> v;
            if (!k.CreateRegionId(r.Range(1, 4), v, inc).ok()) vh::Fail("ids-refused", "region identifiers were refused");
            for (auto i : v) ids.push_back({3, i});
          } else if (x < 4) {
            std::vector<int64_t> v;
            if (!k.CreateTableIds(pb::meta::DINGO_SCHEMA, r.Range(1, 4), v, inc).ok()) vh::Fail("ids-refused", "table identifiers were refused");
            for (auto i : v) ids.push_back({2, i});
          } else if (x < 8) {
            name = Fmt("s%d", (int)r.Below(names));
            auto st = k.CreateSchema(0, name, id, inc);
            vh::Count(st.ok() ? "raced_creates" : "raced_refusals");
            if (!st.ok()) continue;
            ids.push_back({1, id});
          } else {
            sp = acked + r.Range(1, 5);
            bool gc = false;
            std::map<int64_t, int64_t> a, b;
            k.UpdateGCSafePoint(sp, P::UpdateGCSafePointRequest::GC_NONE, nsp, gc, a, 0, b, nrp, inc);
            if (nsp < sp) vh::Fail("gc-answer", Fmt("an advance to %ld was answered %ld", (long)sp, (long)nsp));
          }
          if (r.Chance(1, 3)) std::this_thread::yield();
          bool ok = inc.ByteSizeLong() == 0 || k.SubmitMetaIncrementSync(inc).ok();
          if (!ok) { vh::Fail("race-submit", "a request to the leader failed"); continue; }
          std::lock_guard<std::mutex> l(m);
          for (auto& p : ids) if (++given[p.first][p.second] > 1) vh::Fail("id-twice", Fmt("%s identifier %ld was handed out twice to racing clients", p.first == 1 ? "schema" : p.first == 2 ? "table" : "region", (long)p.second));
          if (!name.empty()) created[name].push_back(id);
          if (sp > 0) { acked = std::max(acked.load(), sp); vh::Count("raced_safe_points"); }
          vh::Count("raced_requests");
        }
      });
    }
    std::thread reader([&] {
      int64_t last = 0;
      while (!stop) {
        auto& k = *C->nodes[0]->kv;
        int64_t before = acked, sp = 0, rp = 0;
        bool gc = false;
        std::map<int64_t, int64_t> a, b;
        k.GetGCSafePoint(sp, gc, {}, false, a, rp, {}, b);
        if (sp < before) vh::Fail("gc-point-back", Fmt("the safe point is read as %ld after %ld was answered", (long)sp, (long)before));
        if (sp < last) vh::Fail("gc-point-back", Fmt("the safe point is read as %ld after %ld", (long)sp, (long)last));
        last = sp;
        std::vector<pb::meta::Schema> v;
        k.GetSchemas(0, v);
        std::set<std::string> seen;
        for (auto& s : v) if (s.id().entity_id() >= 1000 && !seen.insert(s.name()).second) vh::Fail("schema-twice", "two schemas are called " + s.name());
        vh::Count("raced_reads");
      }
    });
    for (auto& t : ts) t.join();
    stop = true;
    reader.join();
    for (auto& c : created) if (c.second.size() > 1) vh::Fail("schema-twice", Fmt("%zu clients were told that they created schema %s", c.second.size(), c.first.c_str()));
    for (int i = 0; i < 2; ++i) {
      if (i) Elect(1);
      auto& k = *C->nodes[i]->kv;
      std::vector<pb::meta::Schema> v;
      k.GetSchemas(0, v);
      std::map<std::string, int64_t> have;
      for (auto& s : v) if (s.id().entity_id() >= 1000) have[s.name()] = s.id().entity_id();
      for (auto& c : created) if (!have.count(c.first) || have[c.first] != c.second[0]) vh::Fail("schema-lost", "schema " + c.first + " was created and is not there");
      if (have.size() != created.size()) vh::Fail("schema-phantom", "a schema exists that nobody was told of");
      int64_t sp = 0, rp = 0;
      bool gc = false;
      std::map<int64_t, int64_t> a, b;
      k.GetGCSafePoint(sp, gc, {}, false, a, rp, {}, b);
      if (sp != acked) vh::Fail("gc-point", Fmt("the safe point is %ld, %ld was answered last", (long)sp, (long)acked.load()));
      // identifiers given by the next leader are new, too
      I::MetaIncrement inc;
      std::vector<int64_t> n;
      k.CreateRegionId(3, n, inc);
      for (auto x : n) if (given[3].count(x)) vh::Fail("id-twice", Fmt("region identifier %ld was handed out twice, by two leaders", (long)x));
    }
    CheckReplicas();
    vh::Case(vh::HashStr(Fmt("race %d threads %d names %zu", threads, names, created.size())));
    vh::Count("races");
  }
}

int main(int argc, char** argv) {
  vh::Init(argc, argv);
  char tmp[] = "/tmp/coordmeta.XXXXXX";
  g_root = mkdtemp(tmp);
  atexit([] { std::filesystem::remove_all(g_root); });
  butil::vs_clock_fixed_us() = 1700000000000000;
  senv::Start("store", g_root + "/env", false);
  InstallHooks();
  Rng r(vh::Seed());
  std::string mode = vh::Arg("mode", "seq");
  if (mode == "race") {
    Race(r, vh::N(40, 400));
    std::filesystem::remove_all(g_root);
    return vh::Finish();
  }
  int worlds = vh::N(mode == "seq" ? 40 : 30, 250), steps = 90;
  for (int w = 0; w < worlds; ++w) {
    vh::SetCase(Fmt("world %d", w));
    delete M;
    M = new Model;
    g_notes.clear();
    NewCluster(3);
    Driver d(r, mode);
    for (int i = 0; i < steps; ++i) {
      int x = r.Below(100);
      if (mode == "seq" ? x < 14 : x < 6) d.CrashNode();
      else if (mode == "seq" ? x < 18 : x < 8) d.Snapshot(mode == "seq" && r.Chance(2, 3));
      else if (x < 21) d.PlainRestart();
      else if (x < 25) d.NewLeader();
      else d.Step();
      if (r.Chance(1, 3) || mode != "seq") CheckModel();
      if (r.Chance(1, 5)) CheckReplicas();
    }
    CheckModel();
    CheckReplicas();
    for (auto& n : C->nodes) { (void)n; d.PlainRestart(); }
    CheckModel();
    vh::Count("worlds");
  }
  std::filesystem::remove_all(g_root);
  return vh::Finish();
}
