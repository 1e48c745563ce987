// A store node around the real storage stack (Storage -> MonoStoreEngine -> apply handlers -> RocksRawEngine), without
// network or consensus. The Server accessors that the stack consults are answered from here.
#pragma once
#include <gflags/gflags.h>
#include <glog/logging.h>

#include "common/context.h"
#include "common/helper.h"
#include "common/role.h"
#include "common/stream.h"
#include "common/threadpool.h"
#include "common/tracker.h"
#include "config/config_manager.h"
#include "config/yaml_config.h"
#include "coordinator/coordinator_interaction.h"
#include "engine/mono_store_engine.h"
#include "engine/rocks_raw_engine.h"
#include "engine/raft_store_engine.h"
#include "engine/storage.h"
#include "raft/raft_node.h"
#include "raft/store_state_machine.h"
#include "event/store_state_machine_event.h"
#include "meta/meta_reader.h"
#include "meta/meta_writer.h"
#include "meta/store_meta_manager.h"
#include "metrics/store_metrics_manager.h"
#include "mvcc/ts_provider.h"
#include "proto/meta.pb.h"
#include "proto/store.pb.h"
#include "rocksdb/vs_rocksdb.h"
#include "server/server.h"
#include "vh.h"

DEFINE_int32(init_election_timeout_ms, 1000, "");
namespace dingodb {
DEFINE_int64(vector_fast_build_log_gap, 50, "");
DEFINE_bool(region_enable_auto_split, true, "");
DEFINE_bool(region_enable_auto_merge, true, "");
}  // namespace dingodb
namespace senv {
using namespace dingodb;

struct Env {
  std::shared_ptr<Config> config;
  std::shared_ptr<RocksRawEngine> raw;
  std::shared_ptr<MetaReader> meta_reader;
  std::shared_ptr<MetaWriter> meta_writer;
  std::shared_ptr<StoreMetaManager> meta;
  std::shared_ptr<StoreMetricsManager> metrics;
  std::shared_ptr<EventListenerCollection> listeners;
  std::shared_ptr<CoordinatorInteraction> interaction;
  mvcc::TsProviderPtr ts;
  std::shared_ptr<MonoStoreEngine> mono;
  std::shared_ptr<RaftStoreEngine> raft;
  std::shared_ptr<Storage> storage;
  StreamManagerPtr streams;
  VectorIndexManagerPtr vindex;
  DocumentIndexManagerPtr dindex;
  ThreadPoolPtr vpool;
  WorkerSetPtr apply_workers;
  std::string path;
  bool read_only{false}, force_read_only{false};
};
inline Env& E() { static Env* e = new Env; return *e; }

// The timestamp oracle this node asks: strictly increasing (physical ms << 18 | logical).
struct Tso {
  std::mutex m;
  int64_t physical{1700000000000}, logical{1};
  std::atomic<int64_t> fail{0};
  int64_t Take(int64_t n, int64_t* p) {
    std::lock_guard<std::mutex> g(m);
    if (logical + n >= (1 << 18)) { ++physical; logical = 1; }
    *p = physical;
    int64_t l = logical;
    logical += n;
    return l;
  }
  void Advance(int64_t ms) { std::lock_guard<std::mutex> g(m); physical += ms; logical = 1; }
  int64_t Now() { int64_t p, l = Take(1, &p); return (p << 18) + l; }
  int64_t NowMs() { std::lock_guard<std::mutex> g(m); return physical; }
};
inline Tso& T() { static Tso* t = new Tso; return *t; }

inline void InstallTso() {
  brpc::OnCall() = [](const google::protobuf::MethodDescriptor* m, const google::protobuf::Message& req, google::protobuf::Message* resp) {
    if (m->name() != "TsoService") return false;
    if (T().fail.load() > 0 && T().fail.fetch_sub(1) > 0) return false;
    auto& q = dynamic_cast<const pb::meta::TsoRequest&>(req);
    auto* r = dynamic_cast<pb::meta::TsoResponse*>(resp);
    int64_t p, l = T().Take(q.count(), &p);
    r->mutable_start_timestamp()->set_physical(p);
    r->mutable_start_timestamp()->set_logical(l);
    r->set_count(q.count());
    return true;
  };
}

inline void Start(const std::string& role, const std::string& path, bool with_ts = true, const std::string& extra = "") {
  FLAGS_minloglevel = 3;
  auto& e = E();
  e.path = path;
  SetRole(role);
  auto cfg = std::make_shared<YamlConfig>();
  if (cfg->Load("store:\n  path: " + path + "\n" + extra) != 0) vh::Broken("config");
  e.config = cfg;
  ConfigManager::GetInstance().Register(role, cfg);
  e.raw = std::make_shared<RocksRawEngine>();
  if (!e.raw->Init(cfg, Helper::GetColumnFamilyNamesByRole())) vh::Broken("raw engine init");
  e.meta_reader = std::make_shared<MetaReader>(e.raw);
  e.meta_writer = std::make_shared<MetaWriter>(e.raw);
  e.meta = std::make_shared<StoreMetaManager>(e.meta_reader, e.meta_writer);
  if (!e.meta->Init()) vh::Broken("meta manager init");
  e.metrics = std::make_shared<StoreMetricsManager>(e.meta_reader, e.meta_writer);
  StoreSmEventListenerFactory f;
  e.listeners = f.Build();
  InstallTso();
  e.interaction = std::make_shared<CoordinatorInteraction>();
  if (!e.interaction->Init("127.0.0.1:22001")) vh::Broken("interaction");
  if (with_ts) {
    e.ts = mvcc::TsProvider::New(e.interaction);
    if (!e.ts->Init()) vh::Broken("ts provider");
  }
  e.mono = std::make_shared<MonoStoreEngine>(e.raw, nullptr, e.listeners, e.ts, e.meta, e.metrics);
  e.raft = RaftStoreEngine::New(e.raw, nullptr, e.ts);
  e.storage = std::make_shared<Storage>(e.raft, e.mono, e.ts);
  e.streams = StreamManager::New();
}

inline store::RegionPtr AddRegion(int64_t id, const std::string& start, const std::string& end,
                                  pb::common::RegionType type = pb::common::STORE_REGION,
                                  std::function<void(pb::common::RegionDefinition&)> edit = {}) {
  pb::common::RegionDefinition d;
  d.set_id(id);
  d.set_name("r" + std::to_string(id));
  d.mutable_epoch()->set_version(1);
  d.mutable_epoch()->set_conf_version(1);
  d.mutable_range()->set_start_key(start);
  d.mutable_range()->set_end_key(end);
  d.set_raw_engine(pb::common::RAW_ENG_ROCKSDB);
  d.set_store_engine(pb::common::STORE_ENG_MONO_STORE);
  d.set_part_id(1);
  if (edit) edit(d);
  auto r = store::Region::New(d);
  r->SetState(pb::common::NORMAL);
  E().meta->GetStoreRegionMeta()->AddRegion(r);
  E().metrics->GetStoreRegionMetrics()->AddMetrics(StoreRegionMetrics::NewMetrics(id));
  return r;
}

inline std::shared_ptr<Context> Ctx(int64_t region, google::protobuf::Message* resp = nullptr, const char* cf = nullptr) {
  auto c = std::make_shared<Context>();
  c->SetRegionId(region);
  c->SetResponse(resp);
  c->SetStoreEngineType(pb::common::STORE_ENG_MONO_STORE);
  c->SetRawEngineType(pb::common::RAW_ENG_ROCKSDB);
  c->SetCfName(cf ? cf : Constant::kStoreDataCF);
  auto r = E().meta->GetStoreRegionMeta()->GetRegion(region);
  if (r) c->SetRegionEpoch(r->Epoch());
  c->SetIsolationLevel(pb::store::SnapshotIsolation);
  pb::common::RequestInfo ri;
  c->SetTracker(Tracker::New(ri));
  return c;
}
}  // namespace senv

namespace dingodb {
Server& Server::GetInstance() { static Server* s = new Server; return *s; }
int64_t Server::Id() const { return 1001; }
std::string Server::Keyring() const { return "TO_BE_CONTINUED"; }
std::shared_ptr<CoordinatorInteraction> Server::GetCoordinatorInteraction() { return senv::E().interaction; }
std::shared_ptr<RawEngine> Server::GetRawEngine(pb::common::RawEngine) { return senv::E().raw; }
std::shared_ptr<Engine> Server::GetEngine(pb::common::StorageEngine t) {
  if (t == pb::common::STORE_ENG_RAFT_STORE) return senv::E().raft;
  return senv::E().mono;
}
std::shared_ptr<RaftStoreEngine> Server::GetRaftStoreEngine() { return senv::E().raft; }
std::shared_ptr<MonoStoreEngine> Server::GetMonoStoreEngine() { return senv::E().mono; }
std::shared_ptr<MetaReader> Server::GetMetaReader() { return senv::E().meta_reader; }
std::shared_ptr<MetaWriter> Server::GetMetaWriter() { return senv::E().meta_writer; }
std::shared_ptr<Storage> Server::GetStorage() { return senv::E().storage; }
std::shared_ptr<StoreMetaManager> Server::GetStoreMetaManager() { return senv::E().meta; }
store::RegionPtr Server::GetRegion(int64_t id) { return senv::E().meta->GetStoreRegionMeta()->GetRegion(id); }
std::vector<store::RegionPtr> Server::GetAllAliveRegion() { return senv::E().meta->GetStoreRegionMeta()->GetAllAliveRegion(); }
store::RaftMetaPtr Server::GetRaftMeta(int64_t id) { return senv::E().meta->GetStoreRaftMeta()->GetRaftMeta(id); }
std::shared_ptr<StoreMetricsManager> Server::GetStoreMetricsManager() { return senv::E().metrics; }
VectorIndexManagerPtr Server::GetVectorIndexManager() { return senv::E().vindex; }
DocumentIndexManagerPtr Server::GetDocumentIndexManager() { return senv::E().dindex; }
ThreadPoolPtr Server::GetVectorIndexThreadPool() { return senv::E().vpool; }
WorkerSetPtr Server::GetApplyWorkerSet() { return senv::E().apply_workers; }
std::string Server::GetCheckpointPath() { return senv::E().path + "/checkpoint"; }
std::string Server::GetStorePath() { return senv::E().path; }
std::string Server::GetRaftPath() { return senv::E().path + "/raft"; }
std::string Server::GetVectorIndexPath() { return senv::E().path + "/vector"; }
std::string Server::GetDocumentIndexPath() { return senv::E().path + "/document"; }
bool Server::IsLeader(int64_t) { return true; }
mvcc::TsProviderPtr Server::GetTsProvider() { return senv::E().ts; }
StreamManagerPtr Server::GetStreamManager() { return senv::E().streams; }
std::shared_ptr<PreSplitChecker> Server::GetPreSplitChecker() { return nullptr; }
std::shared_ptr<PreMergeChecker> Server::GetPreMergeChecker() { return nullptr; }
bool Server::IsClusterReadOnlyOrForceReadOnly() const { return senv::E().read_only || senv::E().force_read_only; }
bool Server::IsClusterReadOnly() const { return senv::E().read_only; }
std::string Server::GetClusterReadOnlyReason() { return "full"; }
bool Server::IsClusterForceReadOnly() const { return senv::E().force_read_only; }
std::string Server::GetClusterForceReadOnlyReason() { return "forced"; }
const std::string& Server::ServiceDumpDir() { return senv::E().path; }
std::string Server::GetAllWorkSetPendingTaskCount() { return ""; }
bool Server::Ip2Hostname(std::string&) { return true; }
wal::LogStoragePtr Server::GetRaftLogStorage() { return nullptr; }
pb::common::Location Server::ServerLocation() { pb::common::Location l; l.set_host("127.0.0.1"); l.set_port(20001); return l; }
std::string Server::ServerAddr() { return "127.0.0.1:20001"; }
butil::EndPoint Server::RaftEndpoint() { butil::EndPoint e; butil::str2endpoint("127.0.0.1", 20101, &e); return e; }
butil::EndPoint Server::RaftListenEndpoint() { return RaftEndpoint(); }
}  // namespace dingodb
