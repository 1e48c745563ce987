// Drives the real StoreServiceImpl in-process, over regions served by the standalone engine or by a raft group whose
// committed log this file keeps: entries are applied in order through StoreStateMachine, on the leader and on any followers.
#pragma once
#include "server/store_service.h"
#include "store_env.h"

namespace svc {
using namespace dingodb;
using senv::E;

struct Follower {
  std::shared_ptr<RocksRawEngine> raw;
  store::RegionPtr region;
  store::RaftMetaPtr meta;
  std::shared_ptr<StoreStateMachine> fsm;
};
struct Group {
  std::mutex m;
  int64_t next{1};
  std::vector<std::string> log;
  std::vector<Follower> followers;
  braft::StateMachine* fsm{nullptr};
  std::atomic<bool> refuse{false};  // leadership lost: proposals fail
  std::atomic<int> refused{0};
};
inline std::map<std::string, std::shared_ptr<Group>>& Groups() { static auto* g = new std::map<std::string, std::shared_ptr<Group>>; return *g; }

inline void InstallRaft() {
  braft::Node::vs_apply = [](braft::Node* n, const braft::Task& t) {
    auto& g = *Groups().at(n->vs_group());
    std::lock_guard<std::mutex> l(g.m);
    if (!g.fsm) g.fsm = n->vs_options().fsm;
    if (g.refuse) { ++g.refused; t.done->status().set_error(EPERM, "is not leader"); t.done->Run(); return; }
    butil::IOBuf d;
    d.append(*t.data);
    int64_t ix = g.next++;
    g.log.push_back(d.to_string());
    braft::Iterator it({{ix, 1, d, t.done}});
    g.fsm->on_apply(it);
    for (auto& f : g.followers) {
      braft::Iterator fi({{ix, 1, d, nullptr}});
      f.fsm->on_apply(fi);
    }
  };
}
inline store::RegionPtr AddRaftRegion(int64_t id, const std::string& start, const std::string& end, int followers = 0) {
  auto peer = [](pb::common::RegionDefinition& d) {
    d.set_store_engine(pb::common::STORE_ENG_RAFT_STORE);
    auto* p = d.add_peers();
    p->set_store_id(1001);
    p->mutable_server_location()->set_host("127.0.0.1");
    p->mutable_server_location()->set_port(20001);
    p->mutable_raft_location()->set_host("127.0.0.1");
    p->mutable_raft_location()->set_port(20101);
  };
  auto r = senv::AddRegion(id, start, end, pb::common::STORE_REGION, peer);
  auto g = std::make_shared<Group>();
  Groups()[r->Name()] = g;
  auto meta = store::RaftMeta::New(id);
  E().meta->GetStoreRaftMeta()->AddRaftMeta(meta);
  RaftControlAble::AddNodeParameter p{};
  p.role = pb::common::STORE;
  p.raft_endpoint = Server::GetInstance().RaftEndpoint();
  p.raft_path = E().path + "/raft";
  p.election_timeout_ms = 1000;
  p.raft_meta = meta;
  p.region_metrics = E().metrics->GetStoreRegionMetrics()->GetMetrics(id);
  p.listeners = E().listeners;
  auto s = E().raft->AddNode(r, p);
  if (!s.ok()) vh::Broken("AddNode: " + s.error_str());
  E().raft->GetNode(id)->SetConsistentReadable(true);
  for (int i = 0; i < followers; ++i) {
    Follower f;
    f.raw = std::make_shared<RocksRawEngine>();
    auto cfg = std::make_shared<YamlConfig>();
    if (cfg->Load("store:\n  path: " + E().path + "-f" + std::to_string(i) + "-" + std::to_string(id) + "\n") != 0) vh::Broken("config");
    if (!f.raw->Init(cfg, Helper::GetColumnFamilyNamesByRole())) vh::Broken("follower engine");
    pb::common::RegionDefinition d = r->Definition();
    f.region = store::Region::New(d);
    f.region->SetState(pb::common::NORMAL);
    f.meta = store::RaftMeta::New(id);
    f.fsm = std::make_shared<StoreStateMachine>(f.raw, f.region, f.meta, StoreRegionMetrics::NewMetrics(id), E().listeners, nullptr);
    g->followers.push_back(f);
  }
  return r;
}

struct Waiter : google::protobuf::Closure {
  std::mutex m;
  std::condition_variable c;
  int runs{0};
  void Run() override { std::lock_guard<std::mutex> g(m); ++runs; c.notify_all(); }
  void Wait() { std::unique_lock<std::mutex> g(m); if (!c.wait_for(g, std::chrono::seconds(120), [&] { return runs > 0; })) vh::Fail("no-reply", "a request got no answer within 120 s"); }
};
inline StoreServiceImpl& Service() { static auto* s = new StoreServiceImpl; return *s; }
inline WorkerSetPtr& ReadSet() { static auto* p = new WorkerSetPtr; return *p; }
inline WorkerSetPtr& WriteSet() { static auto* p = new WorkerSetPtr; return *p; }
inline void StartService(int workers = 4) {
  ReadSet() = SimpleWorkerSet::New("read", workers, 100000, true, false);
  WriteSet() = SimpleWorkerSet::New("write", workers, 100000, true, false);
  if (!ReadSet()->Init() || !WriteSet()->Init()) vh::Broken("worker set");
  Service().SetStorage(E().storage);
  Service().SetReadWorkSet(ReadSet());
  Service().SetWriteWorkSet(WriteSet());
  InstallRaft();
}
template <class Q, class R>
void Call(void (StoreServiceImpl::*m)(google::protobuf::RpcController*, const Q*, R*, google::protobuf::Closure*), const Q& q, R* r) {
  Q copy(q);
  brpc::Controller cntl;
  auto w = std::make_unique<Waiter>();
  (Service().*m)(&cntl, &copy, r, w.get());
  w->Wait();
}
template <class Q>
Q Req(const store::RegionPtr& r) {
  Q q;
  q.mutable_context()->set_region_id(r->Id());
  *q.mutable_context()->mutable_region_epoch() = r->Epoch();
  q.mutable_context()->set_isolation_level(pb::store::SnapshotIsolation);
  return q;
}
// Everything stored in a column family, in order.
inline std::vector<std::pair<std::string, std::string>> Dump(RawEngine& e, const std::string& cf) {
  std::vector<std::pair<std::string, std::string>> v;
  auto it = e.Reader()->NewIterator(cf, IteratorOptions());
  for (it->Seek(""); it->Valid(); it->Next()) v.push_back({std::string(it->Key()), std::string(it->Value())});
  return v;
}
}  // namespace svc
