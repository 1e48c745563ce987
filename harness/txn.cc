// Transaction requests through the real store service, judged against an exact model of the locks, write records and
// long values a region must hold, of every answer, and (concurrent runs) against recorded histories.
#include <algorithm>
#include <condition_variable>
#include <sstream>
#include <thread>

#include "engine/gc_safe_point.h"
#include "mvcc/codec.h"
#include "svc.h"
using namespace dingodb;
using namespace senv;
using svc::Call;
using svc::Req;
using vh::Fmt;
using SI = StoreServiceImpl;
namespace ps = pb::store;
using ps::LockInfo;

static const size_t kShort = 256;
static std::string K(const std::string& s) { return s.size() > 8 ? vh::Hex(s.substr(8)) : "<" + vh::Hex(s) + ">"; }
static std::string V(const std::string& s) { return s.size() > 24 ? Fmt("%zu:%s", s.size(), vh::Hex(s.substr(0, 6)).c_str()) : vh::Hex(s); }
static std::string Ts(int64_t t) { return t > (1LL << 50) ? Fmt("%ld.%ld", (long)((t >> 18) - 1700000000000), (long)(t & 262143)) : Fmt("%ld", (long)t); }

struct Wr { int64_t start; int op; std::string sv; };
using Versions = std::map<int64_t, Wr, std::greater<int64_t>>;
struct Model {
  std::map<std::string, LockInfo> locks;
  std::map<std::string, Versions> writes;
  std::map<std::pair<std::string, int64_t>, std::string> data;
  int64_t access{0};

  LockInfo* Lock(const std::string& k) { auto i = locks.find(k); return i == locks.end() ? nullptr : &i->second; }
  // newest Put/Delete record with commit ts in [lo, hi]; nullptr if none
  const Wr* Newest(const std::string& k, int64_t lo, int64_t hi, int64_t* ts = nullptr) const {
    auto i = writes.find(k);
    if (i == writes.end()) return nullptr;
    for (auto j = i->second.lower_bound(hi); j != i->second.end() && j->first >= lo; ++j)
      if (j->second.op == ps::Put || j->second.op == ps::Delete) { if (ts) *ts = j->first; return &j->second; }
    return nullptr;
  }
  const Wr* Rolled(const std::string& k, int64_t start) const {
    auto i = writes.find(k);
    if (i == writes.end()) return nullptr;
    auto j = i->second.find(start);
    return j != i->second.end() && j->second.op == ps::Rollback && j->second.start == start ? &j->second : nullptr;
  }
  int64_t CommittedAt(const std::string& k, int64_t start) const {  // 0: not committed
    auto i = writes.find(k);
    if (i == writes.end()) return 0;
    for (auto& j : i->second) if (j.second.start == start && (j.second.op == ps::Put || j.second.op == ps::Delete)) return j.first;
    return 0;
  }
  void PutRollback(const std::string& k, int64_t start) {
    auto& v = writes[k];
    auto j = v.find(start);
    if (j != v.end() && j->second.start != start) return;  // another transaction committed exactly there: its record stays
    v[start] = Wr{start, ps::Rollback, ""};
  }
  // value visible at ts: nullptr none
  bool Visible(const std::string& k, int64_t ts, std::string* v) const {
    const Wr* w = Newest(k, 0, ts);
    if (!w || w->op != ps::Put) return false;
    if (!w->sv.empty()) { *v = w->sv; return true; }
    auto d = data.find({k, w->start});
    *v = d == data.end() ? "<missing long value>" : d->second;
    return true;
  }
  std::set<std::string> Keys() const {
    std::set<std::string> s;
    for (auto& w : writes) s.insert(w.first);
    for (auto& l : locks) s.insert(l.first);
    return s;
  }
};
struct World {
  store::RegionPtr r;
  std::string pfx;
  bool raft{false};
  Model m;
};

static std::string LockText(const LockInfo& l) {
  std::string s = Fmt("{key %s ts %s primary %s type %d for_update %s ttl %ld size %ld min_commit %s async %d value %s extra %s secondaries", K(l.key()).c_str(), Ts(l.lock_ts()).c_str(), K(l.primary_lock()).c_str(), l.lock_type(), Ts(l.for_update_ts()).c_str(),
                      (long)l.lock_ttl(), (long)l.txn_size(), Ts(l.min_commit_ts()).c_str(), l.use_async_commit(), V(l.short_value()).c_str(), V(l.extra_data()).c_str());
  for (auto& k : l.secondaries()) s += " " + K(k);
  return s + "}";
}
static std::string WrText(const Wr& w) { return Fmt("{start %s op %d value %s}", Ts(w.start).c_str(), w.op, V(w.sv).c_str()); }
static std::string ResText(const ps::TxnResultInfo& r) {
  std::string s;
  if (r.has_locked()) s += " locked" + LockText(r.locked());
  if (r.has_write_conflict()) s += Fmt(" conflict{%d start %s at %s key %s}", r.write_conflict().reason(), Ts(r.write_conflict().start_ts()).c_str(), Ts(r.write_conflict().conflict_ts()).c_str(), K(r.write_conflict().key()).c_str());
  if (r.has_txn_not_found()) s += Fmt(" notfound{%s %s%s}", Ts(r.txn_not_found().start_ts()).c_str(), K(r.txn_not_found().key()).c_str(), K(r.txn_not_found().primary_key()).c_str());
  if (r.has_primary_mismatch()) s += " mismatch" + LockText(r.primary_mismatch().lock_info());
  if (r.has_commit_ts_expired()) s += Fmt(" expired{start %s tried %s key %s min %s}", Ts(r.commit_ts_expired().start_ts()).c_str(), Ts(r.commit_ts_expired().attempted_commit_ts()).c_str(), K(r.commit_ts_expired().key()).c_str(), Ts(r.commit_ts_expired().min_commit_ts()).c_str());
  return s;
}

struct Dumped { std::map<std::string, LockInfo> locks; std::map<std::string, Versions> writes; std::map<std::pair<std::string, int64_t>, std::string> data; };
static void Each(RawEngine& e, const std::string& cf, const std::string& pfx, const std::function<void(const std::string&, int64_t, const std::string&)>& f) {
  auto it = e.Reader()->NewIterator(cf, IteratorOptions());
  for (it->Seek(pfx); it->Valid(); it->Next()) {
    std::string k(it->Key());
    if (k.compare(0, pfx.size(), pfx)) break;
    std::string plain;
    int64_t ts;
    if (!mvcc::Codec::DecodeKey(k, plain, ts)) { vh::Fail("bad-stored-key", "a stored key cannot be decoded: " + vh::Hex(k)); continue; }
    f(plain, ts, std::string(it->Value()));
  }
}
static std::vector<std::pair<std::string, std::string>> Under(RawEngine& e, const std::string& cf, const std::string& pfx) {
  std::vector<std::pair<std::string, std::string>> v;
  auto it = e.Reader()->NewIterator(cf, IteratorOptions());
  for (it->Seek(pfx); it->Valid() && it->Key().substr(0, pfx.size()) == pfx; it->Next()) v.push_back({std::string(it->Key()), std::string(it->Value())});
  return v;
}
static Dumped DumpTxn(RawEngine& e, const std::string& pfx) {
  Dumped d;
  Each(e, Constant::kTxnLockCF, pfx, [&](const std::string& k, int64_t ts, const std::string& v) {
    if (ts != Constant::kLockVer) vh::Fail("lock-version", "a lock is stored at another version");
    if (!d.locks[k].ParseFromString(v)) vh::Fail("bad-lock", "a stored lock cannot be parsed");
  });
  Each(e, Constant::kTxnWriteCF, pfx, [&](const std::string& k, int64_t ts, const std::string& v) {
    ps::WriteInfo w;
    if (!w.ParseFromString(v)) vh::Fail("bad-write", "a stored write record cannot be parsed");
    d.writes[k][ts] = Wr{w.start_ts(), (int)w.op(), w.short_value()};
  });
  Each(e, Constant::kTxnDataCF, pfx, [&](const std::string& k, int64_t ts, const std::string& v) { d.data[{k, ts}] = v; });
  return d;
}
static void CompareState(World& w, const std::string& what) {
  Dumped d = DumpTxn(*E().raw, w.pfx);
  auto cmp = [&](const std::string& kind, const std::map<std::string, std::string>& got, const std::map<std::string, std::string>& want) {
    for (auto& x : want) {
      auto i = got.find(x.first);
      if (i == got.end()) { vh::Fail("state-" + kind + "-lost", Fmt("after %s: no %s at %s, expected %s", what.c_str(), kind.c_str(), x.first.c_str(), x.second.c_str())); return; }
      if (i->second != x.second) { vh::Fail("state-" + kind, Fmt("after %s: %s at %s is %s, expected %s", what.c_str(), kind.c_str(), x.first.c_str(), i->second.c_str(), x.second.c_str())); return; }
    }
    for (auto& x : got) if (!want.count(x.first)) { vh::Fail("state-" + kind + "-extra", Fmt("after %s: unexpected %s at %s: %s", what.c_str(), kind.c_str(), x.first.c_str(), x.second.c_str())); return; }
  };
  std::map<std::string, std::string> a, b;
  for (auto& x : d.locks) a[K(x.first)] = LockText(x.second);
  for (auto& x : w.m.locks) b[K(x.first)] = LockText(x.second);
  cmp("lock", a, b);
  a.clear(); b.clear();
  for (auto& x : d.writes) for (auto& y : x.second) a[K(x.first) + "@" + Ts(y.first)] = WrText(y.second);
  for (auto& x : w.m.writes) for (auto& y : x.second) b[K(x.first) + "@" + Ts(y.first)] = WrText(y.second);
  cmp("write", a, b);
  a.clear(); b.clear();
  for (auto& x : d.data) a[K(x.first.first) + "@" + Ts(x.first.second)] = V(x.second) + vh::Hex(x.second.substr(x.second.size() > 8 ? x.second.size() - 8 : 0));
  for (auto& x : w.m.data) b[K(x.first.first) + "@" + Ts(x.first.second)] = V(x.second) + vh::Hex(x.second.substr(x.second.size() > 8 ? x.second.size() - 8 : 0));
  cmp("data", a, b);
  // Continue from what is really there, so that one difference is reported once.
  w.m.locks = d.locks;
  w.m.writes = d.writes;
  w.m.data = d.data;
  for (auto i = w.m.writes.begin(); i != w.m.writes.end();) i = i->second.empty() ? w.m.writes.erase(i) : std::next(i);
  if (w.raft) {
    for (auto& f : svc::Groups()[w.r->Name()]->followers)
      for (const auto& cf : {Constant::kTxnLockCF, Constant::kTxnWriteCF, Constant::kTxnDataCF})
        if (Under(*f.raw, cf, w.pfx) != Under(*E().raw, cf, w.pfx))
          vh::Fail("replica-differs", Fmt("after %s: a follower's column family %s differs from the leader's", what.c_str(), cf.c_str()));
    vh::Count("replica_comparisons");
  }
  vh::Count("state_comparisons");
}

// ---------------------------------------------------------------- model of each request: returns the expected answer text
static std::string LockedText(const LockInfo& l) { return " locked" + LockText(l); }
static void Access(World& w, int64_t ts) { w.m.access = std::max(w.m.access, ts); }
static void EraseWrites(Model& m, const std::string& k) { if (m.writes.count(k) && m.writes[k].empty()) m.writes.erase(k); }

static std::string MPrewrite(World& w, const ps::TxnPrewriteRequest& q) {
  Model& m = w.m;
  bool onepc = q.try_one_pc(), async = q.use_async_commit() && q.secondaries_size() > 0;
  int64_t final = 0, start = q.start_ts();
  std::string res, exist;
  struct New { std::string key, value; LockInfo l; bool pess, one; };
  std::vector<New> news;
  std::map<int, int64_t> fu;
  for (auto& c : q.for_update_ts_checks()) fu[c.index()] = c.expected_for_update_ts();
  std::map<int, std::string> extra;
  for (auto& c : q.lock_extra_datas()) extra[c.index()] = c.extra_data();
  auto done = [&](int64_t cts) { return "ok" + (async ? " min_commit " + Ts(cts) : "") + (onepc ? " one_pc " + Ts(cts) : "") + res + exist; };
  int64_t resp_min = 0;
  for (int i = 0; i < q.mutations_size(); ++i) {
    auto& mu = q.mutations(i);
    auto& k = mu.key();
    bool pess = q.pessimistic_checks_size() && q.pessimistic_checks(i) == 1, repeated = false;
    LockInfo* pl = m.Lock(k);
    int64_t cts = m.CommittedAt(k, start);
    if (cts && cts < start) cts = 0;
    if (pl) {
      bool own = pl->lock_ts() == start;
      if (!own || (!pess && pl->lock_type() == ps::Lock)) {
        if (cts) return done(cts);
        res += LockedText(*pl);
        continue;
      }
      if (pl->lock_type() != ps::Lock) repeated = true;
      else if (fu.count(i) && fu[i] != pl->for_update_ts()) { res += LockedText(*pl); continue; }
    }
    if (m.Rolled(k, start)) { res += Fmt(" conflict{3 start %s at %s key %s}", Ts(start).c_str(), Ts(start).c_str(), K(k).c_str()); break; }
    int64_t last = 0;
    const Wr* wr = m.Newest(k, 0, INT64_MAX, &last);
    if (last >= start && (!pess || !pl)) {
      if (cts) return done(cts);
      res += Fmt(" conflict{1 start %s at %s key %s}", Ts(start).c_str(), Ts(last).c_str(), K(k).c_str());
      break;
    }
    bool there = wr && wr->op == ps::Put;
    if (mu.op() == ps::PutIfAbsent && there) { exist += " exists " + K(k); break; }
    if (mu.op() == ps::CheckNotExists) {
      if (pess) return Fmt("err %d", pb::error::EILLEGAL_PARAMTETERS);
      if (there) exist += " exists " + K(k);
    }
    if (repeated) {
      onepc = false;
      if (!pl->use_async_commit()) async = false;
      else if (async) final = std::max(final, (int64_t)pl->min_commit_ts());
      continue;
    }
    if (mu.op() == ps::CheckNotExists) {
      if (onepc || async) final = std::max(final, start + 1); else final = 0;
      continue;
    }
    LockInfo l;
    if (pl) l = *pl;
    l.set_primary_lock(q.primary_lock());
    l.set_lock_ts(start);
    l.set_key(k);
    l.set_lock_ttl(q.lock_ttl());
    l.set_txn_size(q.txn_size());
    l.set_min_commit_ts(std::max(l.min_commit_ts(), q.min_commit_ts()));
    if (mu.op() == ps::Delete) l.set_lock_type(ps::Delete);
    else {
      l.set_lock_type(ps::Put);
      if (mu.value().empty()) return Fmt("err %d", pb::error::EVALUE_EMPTY) ;
      if (mu.value().size() <= kShort) l.set_short_value(mu.value());
    }
    if (extra.count(i) && !extra[i].empty()) l.set_extra_data(extra[i]);
    if (async) {
      l.set_use_async_commit(true);
      if (k == q.primary_lock()) *l.mutable_secondaries() = q.secondaries();
    }
    int64_t mine = 0;
    if (onepc || async) {
      mine = std::max({m.access, start, fu.count(i) ? fu[i] : 0}) + 1;
      if (q.max_commit_ts() && mine > q.max_commit_ts()) {
        onepc = async = false;
        l.set_use_async_commit(false);
        l.clear_secondaries();
        mine = 0;
        vh::Count("fallbacks");
      } else {
        mine = std::max(mine, l.min_commit_ts());
        l.set_min_commit_ts(mine);
      }
    }
    news.push_back({k, mu.op() == ps::Delete ? "" : mu.value(), l, pess, onepc});
    final = onepc || async ? std::max(final, mine) : 0;
  }
  std::string out = "ok";
  if (async) resp_min = final;
  if (resp_min) out += " min_commit " + Ts(resp_min);
  if (!res.empty() || !exist.empty()) return out + res + exist;
  if (onepc) {
    for (auto& n : news) {
      m.writes[n.key][final] = Wr{start, n.l.lock_type(), n.value.size() <= kShort ? n.value : ""};
      if (n.value.size() > kShort) m.data[{n.key, start}] = n.value;
      if (n.pess) m.locks.erase(n.key);
    }
    return out + " one_pc " + Ts(final);
  }
  for (auto& n : news) {
    m.locks[n.key] = n.l;
    if (n.value.size() > kShort) m.data[{n.key, start}] = n.value;
  }
  return out;
}
static void ApplyCommit(Model& m, const std::string& k, int64_t cts) {
  LockInfo l = m.locks[k];
  if (l.lock_type() != ps::PutIfAbsent) m.writes[k][cts] = Wr{l.lock_ts(), l.lock_type(), l.short_value()};
  m.locks.erase(k);
}
static void ApplyRollback(Model& m, const std::string& k, int64_t start) {
  LockInfo l = m.locks[k];
  if (l.short_value().empty()) m.data.erase({k, start});
  m.locks.erase(k);
  m.PutRollback(k, start);
}
static std::string MCommit(World& w, const ps::TxnCommitRequest& q) {
  Model& m = w.m;
  Access(w, q.commit_ts());
  if (q.commit_ts() <= q.start_ts()) return Fmt("err %d", pb::error::EILLEGAL_PARAMTETERS);
  std::vector<std::string> todo;
  for (auto& k : q.keys()) {
    LockInfo* l = m.Lock(k);
    bool own = l && l->lock_ts() == q.start_ts();
    if (own) {
      if (l->lock_type() == ps::Lock) return "ok" + LockedText(*l);
      if (l->min_commit_ts() > 0 && q.commit_ts() < l->min_commit_ts()) return Fmt("ok expired{start %s tried %s key %s min %s}", Ts(q.start_ts()).c_str(), Ts(q.commit_ts()).c_str(), K(k).c_str(), Ts(l->min_commit_ts()).c_str());
      todo.push_back(k);
      continue;
    }
    if (m.CommittedAt(k, q.start_ts())) continue;
    if (m.Rolled(k, q.start_ts())) return Fmt("ok conflict{3 start %s at %s key %s}", Ts(q.start_ts()).c_str(), Ts(q.start_ts()).c_str(), K(k).c_str());
    if (l) return "ok" + LockedText(*l);
    return Fmt("ok notfound{%s %s<>}", Ts(q.start_ts()).c_str(), K(k).c_str());
  }
  for (auto& k : todo) if (m.Lock(k)) ApplyCommit(m, k, q.commit_ts());
  return "ok committed";
}
static std::string MCheckStatus(World& w, const ps::TxnCheckTxnStatusRequest& q) {
  Model& m = w.m;
  auto& k = q.primary_key();
  Access(w, std::max(q.lock_ts(), q.caller_start_ts()));
  LockInfo* l = m.Lock(k);
  if (l && l->lock_ts() == q.lock_ts()) {
    if (l->primary_lock() != k) return "ok ttl 0 commit 0 action 0 mismatch" + LockText(*l);
    if (l->use_async_commit() && !q.force_sync_commit()) return "ok ttl 0 commit 0 action 0" + LockedText(*l);
    std::string pess = l->lock_type() == ps::Lock ? LockedText(*l) : "";
    if (l->lock_ttl() >= (q.current_ts() >> 18)) {
      int64_t ttl = l->lock_ttl();
      int act = ps::NoAction;
      if (l->min_commit_ts() < q.caller_start_ts()) {
        l->set_min_commit_ts(q.caller_start_ts());
        act = ps::MinCommitTSPushed;
      }
      return Fmt("ok ttl %ld commit 0 action %d%s", (long)ttl, act, pess.c_str());
    }
    ApplyRollback(m, k, q.lock_ts());
    return Fmt("ok ttl 0 commit 0 action %d%s", ps::TTLExpireRollback, pess.c_str());
  }
  if (m.Rolled(k, q.lock_ts())) return Fmt("ok ttl 0 commit 0 action %d", ps::LockNotExistRollback);
  if (int64_t c = m.CommittedAt(k, q.lock_ts())) return Fmt("ok ttl 0 commit %s action %d", Ts(c).c_str(), ps::LockNotExistDoNothing);
  if (q.rollback_if_not_exist()) {
    m.PutRollback(k, q.lock_ts());
    return Fmt("ok ttl 0 commit 0 action %d", ps::LockNotExistRollback);
  }
  return Fmt("ok ttl 0 commit 0 action 0 notfound{%s <>%s}", Ts(q.lock_ts()).c_str(), K(k).c_str());
}
static std::string MBatchRollback(World& w, const ps::TxnBatchRollbackRequest& q) {
  Model& m = w.m;
  std::vector<std::string> locks, mark;
  for (auto& k : q.keys()) {
    LockInfo* l = m.Lock(k);
    if (!l) { if (!m.Rolled(k, q.start_ts()) && !m.CommittedAt(k, q.start_ts())) mark.push_back(k); continue; }
    if (l->lock_ts() != q.start_ts() || l->lock_type() == ps::Lock) return "ok" + LockedText(*l);
    locks.push_back(k);
  }
  for (auto& k : locks) if (m.Lock(k)) ApplyRollback(m, k, q.start_ts());
  for (auto& k : mark) m.PutRollback(k, q.start_ts());
  return "ok";
}
static std::string MPessRollback(World& w, const ps::TxnPessimisticRollbackRequest& q) {
  Model& m = w.m;
  std::string res;
  std::vector<std::string> del;
  for (auto& k : q.keys()) {
    LockInfo* l = m.Lock(k);
    if (!l) continue;
    if (l->lock_type() != ps::Lock || l->lock_ts() != q.start_ts() || l->for_update_ts() > q.for_update_ts()) { res += LockedText(*l); continue; }
    del.push_back(k);
  }
  if (!res.empty()) return "ok" + res;
  for (auto& k : del) m.locks.erase(k);
  return "ok";
}
static std::string MPessLock(World& w, const ps::TxnPessimisticLockRequest& q) {
  Model& m = w.m;
  std::string res, kvs;
  std::vector<LockInfo> news;
  auto old = [&](const std::string& k) {
    std::string v;
    kvs += " " + K(k) + "=" + (m.Visible(k, INT64_MAX, &v) ? V(v) : "");
  };
  for (auto& mu : q.mutations()) {
    auto& k = mu.key();
    LockInfo* l = m.Lock(k);
    if (l) {
      if (l->for_update_ts() == 0 || l->lock_ts() != q.start_ts() || l->for_update_ts() > q.for_update_ts()) { res += LockedText(*l); continue; }
      if (l->for_update_ts() < q.for_update_ts()) {
        LockInfo n = *l;
        n.set_primary_lock(q.primary_lock());
        n.set_for_update_ts(q.for_update_ts());
        n.set_lock_ttl(q.lock_ttl());
        n.set_lock_type(ps::Lock);
        n.set_extra_data(mu.value());
        news.push_back(n);
      }
      if (q.return_values()) old(k);
      continue;
    }
    int64_t cts = 0;
    m.Newest(k, 0, INT64_MAX, &cts);
    if (cts >= q.for_update_ts()) { res += Fmt(" conflict{2 start %s at %s key %s}", Ts(q.start_ts()).c_str(), Ts(cts).c_str(), K(k).c_str()); continue; }
    LockInfo n;
    n.set_primary_lock(q.primary_lock());
    n.set_lock_ts(q.start_ts());
    n.set_key(k);
    n.set_lock_ttl(q.lock_ttl());
    n.set_for_update_ts(q.for_update_ts());
    n.set_lock_type(ps::Lock);
    n.set_extra_data(mu.value());
    news.push_back(n);
    if (q.return_values()) old(k);
  }
  if (!res.empty()) return "ok" + res;
  for (auto& n : news) m.locks[n.key()] = n;
  return "ok" + kvs;
}
static std::string MHeartBeat(World& w, const ps::TxnHeartBeatRequest& q) {
  LockInfo* l = w.m.Lock(q.primary_lock());
  if (!l || l->lock_ts() != q.start_ts()) return Fmt("ok ttl 0 notfound{%s}", Ts(q.start_ts()).c_str());
  if (q.advise_lock_ttl() > l->lock_ttl()) l->set_lock_ttl(q.advise_lock_ttl());
  return Fmt("ok ttl %ld", (long)l->lock_ttl());
}
static std::string MSecondary(World& w, const ps::TxnCheckSecondaryLocksRequest& q) {
  Model& m = w.m;
  Access(w, q.start_ts());
  std::string locks;
  for (auto& k : q.keys()) {
    LockInfo* l = m.Lock(k);
    if (l && l->lock_ts() == q.start_ts()) {
      if (l->lock_type() == ps::Lock) return "ok commit 0" + locks + LockedText(*l);
      locks += " " + LockText(*l);
      continue;
    }
    if (m.Rolled(k, q.start_ts())) return "ok commit 0" + locks;
    if (int64_t c = m.CommittedAt(k, q.start_ts())) return "ok commit " + Ts(c) + locks;
    m.PutRollback(k, q.start_ts());
    return Fmt("ok commit 0%s notfound{%s <>%s}", locks.c_str(), Ts(q.start_ts()).c_str(), K(k).c_str());
  }
  return "ok commit 0" + locks;
}
static std::string MResolve(World& w, const ps::TxnResolveLockRequest& q) {
  Model& m = w.m;
  if (q.txn_infos_size() == 0 && (q.commit_ts() < 0 || (q.commit_ts() > 0 && q.commit_ts() <= q.start_ts()))) return Fmt("err %d", pb::error::EILLEGAL_PARAMTETERS);
  auto one = [&](const std::string& k, int64_t s, int64_t c) { if (c > 0) ApplyCommit(m, k, c); else ApplyRollback(m, k, s); };
  if (q.keys_size()) {
    Access(w, q.commit_ts());
    std::vector<std::string> todo;
    for (auto& k : q.keys()) {
      LockInfo* l = m.Lock(k);
      if (!l || l->lock_ts() != q.start_ts()) continue;
      if (l->lock_type() == ps::Lock) return "ok" + LockedText(*l);
      todo.push_back(k);
    }
    for (auto& k : todo) if (m.Lock(k)) one(k, q.start_ts(), q.commit_ts());
    return "ok";
  }
  return "ok";
}

// ---------------------------------------------------------------- requests sent to the service: returns the answer text
template <class R>
static bool Err(const R& p, std::string* out) {
  if (p.error().errcode() == 0) return false;
  *out = Fmt("err %d", p.error().errcode());
  return true;
}
static std::string SPrewrite(const ps::TxnPrewriteRequest& q) {
  ps::TxnPrewriteResponse p;
  Call(&SI::TxnPrewrite, q, &p);
  std::string s;
  if (Err(p, &s)) return s;
  s = "ok";
  if (p.min_commit_ts()) s += " min_commit " + Ts(p.min_commit_ts());
  if (p.one_pc_commit_ts()) s += " one_pc " + Ts(p.one_pc_commit_ts());
  for (auto& r : p.txn_result()) s += ResText(r);
  for (auto& k : p.keys_already_exist()) s += " exists " + K(k.key());
  return s;
}
static std::string SCommit(const ps::TxnCommitRequest& q) {
  ps::TxnCommitResponse p;
  Call(&SI::TxnCommit, q, &p);
  std::string s;
  if (Err(p, &s)) return s;
  std::string r = ResText(p.txn_result());
  if (r.empty() && p.commit_ts() && p.commit_ts() != q.commit_ts()) r = " at " + Ts(p.commit_ts());
  return "ok" + (r.empty() ? " committed" : r);
}
static std::string SCheckStatus(const ps::TxnCheckTxnStatusRequest& q) {
  ps::TxnCheckTxnStatusResponse p;
  Call(&SI::TxnCheckTxnStatus, q, &p);
  std::string s;
  if (Err(p, &s)) return s;
  return Fmt("ok ttl %ld commit %s action %d", (long)p.lock_ttl(), Ts(p.commit_ts()).c_str(), p.action()) + ResText(p.txn_result());
}
static std::string SBatchRollback(const ps::TxnBatchRollbackRequest& q) {
  ps::TxnBatchRollbackResponse p;
  Call(&SI::TxnBatchRollback, q, &p);
  std::string s;
  return Err(p, &s) ? s : "ok" + ResText(p.txn_result());
}
static std::string SPessRollback(const ps::TxnPessimisticRollbackRequest& q) {
  ps::TxnPessimisticRollbackResponse p;
  Call(&SI::TxnPessimisticRollback, q, &p);
  std::string s;
  if (Err(p, &s)) return s;
  s = "ok";
  for (auto& r : p.txn_result()) s += ResText(r);
  return s;
}
static std::string SPessLock(const ps::TxnPessimisticLockRequest& q) {
  ps::TxnPessimisticLockResponse p;
  Call(&SI::TxnPessimisticLock, q, &p);
  std::string s;
  if (Err(p, &s)) return s;
  s = "ok";
  for (auto& r : p.txn_result()) s += ResText(r);
  if (p.txn_result_size() == 0) for (auto& kv : p.kvs()) s += " " + K(kv.key()) + "=" + V(kv.value());
  return s;
}
static std::string SHeartBeat(const ps::TxnHeartBeatRequest& q) {
  ps::TxnHeartBeatResponse p;
  Call(&SI::TxnHeartBeat, q, &p);
  std::string s;
  if (Err(p, &s)) return s;
  if (p.txn_result().has_txn_not_found()) return Fmt("ok ttl 0 notfound{%s}", Ts(p.txn_result().txn_not_found().start_ts()).c_str());
  return Fmt("ok ttl %ld", (long)p.lock_ttl()) + ResText(p.txn_result());
}
static std::string SSecondary(const ps::TxnCheckSecondaryLocksRequest& q) {
  ps::TxnCheckSecondaryLocksResponse p;
  Call(&SI::TxnCheckSecondaryLocks, q, &p);
  std::string s;
  if (Err(p, &s)) return s;
  s = "ok commit " + Ts(p.commit_ts());
  for (auto& l : p.locks()) s += " " + LockText(l);
  return s + ResText(p.txn_result());
}
static std::string SResolve(const ps::TxnResolveLockRequest& q) {
  ps::TxnResolveLockResponse p;
  Call(&SI::TxnResolveLock, q, &p);
  std::string s;
  return Err(p, &s) ? s : "ok" + ResText(p.txn_result());
}

// ---------------------------------------------------------------- clients
static int64_t g_page = 40960;
static int64_t g_ts = 1700000000000LL << 18;
static int64_t Tick(vh::Rng& r) {
  if (r.Chance(1, 30)) g_ts = ((g_ts >> 18) + r.Range(1, 3000)) << 18;
  return ++g_ts;
}
struct Mut { ps::Op op; std::string value; };
struct Txn {
  int64_t start{0}, fu{0}, commit{0};
  std::map<std::string, Mut> keys;
  std::string primary;
  bool doomed{false}, pess{false}, async{false}, onepc{false}, gapped{false};  // gapped: no commit can come to stand at fu
  int64_t ttl{0};
  std::set<std::string> locked, prewritten, committed;
};
static std::string RandKey(vh::Rng& r, const World& w) {
  static const std::vector<std::string> tails = {"", "a", "aa", std::string("a\0", 2), "a\xff", "ab", "b", "c", "abcdefgh", "abcdefghi", "z\xff"};
  return w.pfx + r.Pick(tails);
}
static std::string RandVal(vh::Rng& r) {
  switch (r.Below(8)) {
    case 0: return r.Bytes(256);
    case 1: return r.Bytes(257);
    case 2: return r.Bytes(300 + r.Below(100));
    default: return r.Bytes(1 + r.Below(12));
  }
}
static Txn NewTxn(World& w, vh::Rng& r) {
  Txn t;
  t.start = Tick(r);
  t.pess = r.Chance(2, 5);
  t.async = r.Chance(1, 4);
  t.onepc = !t.async && r.Chance(1, 4);
  t.ttl = (g_ts >> 18) + r.Range(-200, 4000);
  int n = 1 + r.Below(4);
  for (int i = 0; i < n; ++i) {
    Mut m;
    int x = r.Below(20);
    m.op = x < 12 ? ps::Put : x < 16 ? ps::Delete : x < 18 || t.pess ? ps::PutIfAbsent : ps::CheckNotExists;
    if (m.op != ps::Delete) m.value = RandVal(r);
    t.keys[RandKey(r, w)] = m;
  }
  auto i = t.keys.begin();
  std::advance(i, r.Below(t.keys.size()));
  t.primary = i->first;
  t.fu = t.start;
  return t;
}
static std::vector<std::string> Some(const Txn& t, vh::Rng& r) {
  std::vector<std::string> v;
  for (auto& k : t.keys) v.push_back(k.first);
  for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[r.Below(i)]);
  if (r.Chance(1, 3)) v.resize(1 + r.Below(v.size()));
  return v;
}
static void Judge(World& w, const char* what, const std::string& desc, const std::string& got, const std::string& want) {
  vh::Case(vh::Mix(vh::HashStr(desc), vh::HashStr(want)));
  vh::Count(std::string("op_") + what);
  if (want.size() > 2 && want.compare(0, 3, "ok ") == 0 && (want.find("locked") != std::string::npos || want.find("conflict") != std::string::npos)) vh::Count("refused_" + std::string(what));
  if (got != want) vh::Fail(Fmt("answer-%s", what), Fmt("%s answered [%s], expected [%s]", desc.c_str(), got.c_str(), want.c_str()));
  CompareState(w, desc);
}
// One request: judged at once against the model, or kept to be run against another (overlap runs).
struct Op { std::string what, desc; std::function<std::string(World&)> model; std::function<std::string()> send; bool read; int64_t ts; };
static std::vector<Op>* g_keep = nullptr;
static std::string Exec(World& w, const char* what, const std::string& desc, const std::function<std::string(World&)>& model, const std::function<std::string()>& send) {
  if (g_keep) { g_keep->push_back({what, desc, model, send, false, 0}); return "kept"; }
  vh::SetCase(desc);
  std::string want = model(w), got = send();
  Judge(w, what, desc, got, want);
  return want;
}
static ps::TxnPrewriteRequest PrewriteReq(World& w, vh::Rng& r, Txn& t, const std::vector<std::string>& keys) {
  auto q = Req<ps::TxnPrewriteRequest>(w.r);
  q.set_primary_lock(t.primary);
  q.set_start_ts(t.start);
  q.set_lock_ttl(t.ttl);
  q.set_txn_size(t.keys.size());
  bool all = keys.size() == t.keys.size();
  q.set_try_one_pc(t.onepc && all);
  q.set_use_async_commit(t.async);
  if (t.async) for (auto& k : t.keys) if (k.first != t.primary) q.add_secondaries(k.first);
  if (r.Chance(1, 4)) q.set_min_commit_ts(t.start + 1 + r.Below(5));
  if ((t.async || t.onepc) && r.Chance(1, 4)) q.set_max_commit_ts(t.start + 1 + r.Below(40));
  int i = 0;
  for (auto& k : keys) {
    auto* m = q.add_mutations();
    m->set_op(t.keys[k].op);
    m->set_key(k);
    m->set_value(t.keys[k].value);
    if (t.pess) {
      q.add_pessimistic_checks(t.locked.count(k) || r.Chance(1, 20) ? ps::TxnPrewriteRequest::DO_PESSIMISTIC_CHECK : ps::TxnPrewriteRequest::SKIP_PESSIMISTIC_CHECK);
      if (r.Chance(2, 3)) { auto* c = q.add_for_update_ts_checks(); c->set_index(i); c->set_expected_for_update_ts(r.Chance(1, 12) ? t.fu + 1 : t.fu); }
    }
    if (r.Chance(1, 6)) { auto* x = q.add_lock_extra_datas(); x->set_index(i); x->set_extra_data("x" + std::to_string(r.Below(9))); }
    ++i;
  }
  return q;
}
static std::string KeysText(const std::vector<std::string>& v) { std::string s; for (auto& k : v) s += " " + K(k); return s; }

struct Pool { std::vector<Txn> live, old; };
static void Observe(Txn& t, const std::string& ans, const std::vector<std::string>& keys) {
  if (ans.find("locked") != std::string::npos || ans.find("conflict") != std::string::npos || ans.find("exists") != std::string::npos || ans.compare(0, 2, "ok")) return;
  for (auto& k : keys) t.prewritten.insert(k);
}
static Txn& Anyone(Pool& p, vh::Rng& r) { return p.old.empty() || r.Chance(3, 4) ? p.live[r.Below(p.live.size())] : p.old[r.Below(p.old.size())]; }

// what a client blocked by a lock does: ask about its primary, then resolve it
static void ClearLock(World& w, const LockInfo l) {
  auto& k = l.key();
  if (l.lock_type() == ps::Lock) {
    auto q = Req<ps::TxnPessimisticRollbackRequest>(w.r);
    q.set_start_ts(l.lock_ts());
    q.set_for_update_ts(l.for_update_ts());
    q.add_keys(k);
    std::string d = Fmt("TxnPessimisticRollback(start %s for_update %s %s)", Ts(l.lock_ts()).c_str(), Ts(l.for_update_ts()).c_str(), K(k).c_str());
    vh::SetCase(d);
    std::string want = Exec(w, "pessimistic-rollback", d, [q](World& x) { return MPessRollback(x, q); }, [q] { return SPessRollback(q); });
    return;
  }
  if (!w.m.CommittedAt(l.primary_lock(), l.lock_ts()) && !w.m.Rolled(l.primary_lock(), l.lock_ts())) {
    auto q = Req<ps::TxnCheckTxnStatusRequest>(w.r);
    q.set_primary_key(l.primary_lock());
    q.set_lock_ts(l.lock_ts());
    q.set_caller_start_ts(g_ts);
    q.set_current_ts(g_ts + (100000LL << 18));
    q.set_force_sync_commit(true);
    q.set_rollback_if_not_exist(true);
    std::string d = Fmt("TxnCheckTxnStatus(%s lock %s much later, force, rollback)", K(l.primary_lock()).c_str(), Ts(l.lock_ts()).c_str());
    vh::SetCase(d);
    std::string want = Exec(w, "check-status", d, [q](World& x) { return MCheckStatus(x, q); }, [q] { return SCheckStatus(q); });
  }
  int64_t c = w.m.CommittedAt(l.primary_lock(), l.lock_ts());
  if ((!c && !w.m.Rolled(l.primary_lock(), l.lock_ts())) || !w.m.Lock(k)) return;
  auto q = Req<ps::TxnResolveLockRequest>(w.r);
  q.set_start_ts(l.lock_ts());
  q.set_commit_ts(c);
  q.add_keys(k);
  std::string d = Fmt("TxnResolveLock(start %s commit %s %s)", Ts(l.lock_ts()).c_str(), Ts(c).c_str(), K(k).c_str());
  vh::SetCase(d);
  std::string want = Exec(w, "resolve", d, [q](World& x) { return MResolve(x, q); }, [q] { return SResolve(q); });
}
static void StepPrewrite(World& w, vh::Rng& r, Txn& t, std::vector<std::string> keys = {}) {
  if (keys.empty()) keys = Some(t, r);
  auto q = PrewriteReq(w, r, t, keys);
  std::string d = Fmt("TxnPrewrite(start %s primary %s%s%s%s%s min %s max %s)", Ts(t.start).c_str(), K(t.primary).c_str(), KeysText(keys).c_str(), q.try_one_pc() ? " 1pc" : "", t.async ? " async" : "", t.pess ? " pessimistic" : "", Ts(q.min_commit_ts()).c_str(), Ts(q.max_commit_ts()).c_str());
  vh::SetCase(d);
  std::string want = Exec(w, "prewrite", d, [q](World& x) { return MPrewrite(x, q); }, [q] { return SPrewrite(q); });
  Observe(t, want, keys);
  if (want.find("conflict") != std::string::npos || want.find("exists") != std::string::npos) t.doomed = true;
  if (want.find(" locked") != std::string::npos && r.Chance(1, 2))
    for (auto& k : keys) if (LockInfo* l = w.m.Lock(k)) if (l->lock_ts() != t.start) { ClearLock(w, *l); if (r.Chance(1, 2)) break; }
  auto p = want.find("one_pc ");
  if (p != std::string::npos) { for (auto& k : keys) t.committed.insert(k); vh::Count("one_pc_commits"); int64_t c = 0; for (auto& k : keys) c = std::max(c, w.m.CommittedAt(k, t.start)); t.commit = c; }
  if (want.find("min_commit ") != std::string::npos && t.async && t.prewritten.size() == t.keys.size()) {
    // the commit timestamp of an async-commit transaction: the largest min_commit_ts of its locks
    int64_t c = 0;
    bool all = true;
    for (auto& k : t.keys) { LockInfo* l = w.m.Lock(k.first); if (l && l->lock_ts() == t.start && l->use_async_commit()) c = std::max(c, (int64_t)l->min_commit_ts()); else if (k.second.op != ps::CheckNotExists) all = false; }
    if (all && c > t.start) { t.commit = c; vh::Count("async_commits"); }
  }
}
static void StepCommit(World& w, vh::Rng& r, Txn& t) {
  if (!t.commit || r.Chance(1, 15)) {
    int64_t old = t.commit;
    int64_t c = Tick(r);
    if (!old) t.commit = c;
    else if (t.committed.empty()) t.commit = c;
  }
  auto q = Req<ps::TxnCommitRequest>(w.r);
  q.set_start_ts(t.start);
  q.set_commit_ts(r.Chance(1, 25) ? (r.Chance(1, 2) ? t.start - (int64_t)r.Below(2) : t.start + 1 + (int64_t)r.Below(3)) : t.commit);
  // a commit timestamp is never shared with another transaction's commit on a key
  auto keys = Some(t, r);
  if (t.committed.empty() && std::find(keys.begin(), keys.end(), t.primary) == keys.end()) keys[0] = t.primary;
  std::vector<std::string> ks;
  for (auto& k : keys) if (t.keys[k].op != ps::CheckNotExists || r.Chance(1, 10)) ks.push_back(k);
  if (ks.empty()) return;
  for (auto& k : ks) { auto i = w.m.writes.find(k); if (i != w.m.writes.end() && i->second.count(q.commit_ts()) && i->second[q.commit_ts()].start != t.start) return; }
  for (auto& k : ks) q.add_keys(k);
  std::string d = Fmt("TxnCommit(start %s commit %s%s)", Ts(t.start).c_str(), Ts(q.commit_ts()).c_str(), KeysText(ks).c_str());
  vh::SetCase(d);
  std::string want = Exec(w, "commit", d, [q](World& x) { return MCommit(x, q); }, [q] { return SCommit(q); });
  if (want == "ok committed") { for (auto& k : ks) t.committed.insert(k); t.commit = q.commit_ts(); }
}
static void StepPessLock(World& w, vh::Rng& r, Txn& t) {
  auto q = Req<ps::TxnPessimisticLockRequest>(w.r);
  if (r.Chance(1, 3)) t.fu = Tick(r);
  if (r.Chance(1, 20)) t.fu = t.start + r.Below(3);
  if (g_keep && (!t.gapped || r.Chance(1, 4))) { g_ts += 8; t.fu = Tick(r); g_ts += 8; t.gapped = true; } else if (!g_keep) t.gapped = false;
  q.set_primary_lock(t.primary);
  q.set_start_ts(t.start);
  q.set_lock_ttl(t.ttl);
  q.set_for_update_ts(t.fu);
  q.set_return_values(r.Chance(1, 2));
  auto keys = Some(t, r);
  // whether a commit exactly at for_update_ts is a conflict is left open (timestamps are unique but for computed ones)
  for (bool again = true; again;) { again = false; for (auto& k : keys) if (w.m.writes.count(k) && w.m.writes[k].count(t.fu)) { t.fu = Tick(r); again = true; } }
  q.set_for_update_ts(t.fu);
  for (auto& k : keys) { auto* m = q.add_mutations(); m->set_op(ps::Lock); m->set_key(k); if (r.Chance(1, 3)) m->set_value("e" + std::to_string(r.Below(5))); }
  std::string d = Fmt("TxnPessimisticLock(start %s for_update %s primary %s%s%s)", Ts(t.start).c_str(), Ts(t.fu).c_str(), K(t.primary).c_str(), KeysText(keys).c_str(), q.return_values() ? " values" : "");
  vh::SetCase(d);
  std::string want = Exec(w, "pessimistic-lock", d, [q](World& x) { return MPessLock(x, q); }, [q] { return SPessLock(q); });
  if (want.find("locked") == std::string::npos && want.find("conflict") == std::string::npos) for (auto& k : keys) t.locked.insert(k);
}
static void StepResolve(World& w, vh::Rng& r, Txn& t, bool all) {
      auto keys = Some(t, r);
      // resolve as a reader would: by the status of the primary
      auto q = Req<ps::TxnResolveLockRequest>(w.r);
      int64_t c = w.m.CommittedAt(t.primary, t.start);
      bool rolled = w.m.Rolled(t.primary, t.start);
      if (!c && !rolled) return;
      if (all) {
        auto* x = q.add_txn_infos(); x->set_start_ts(t.start); x->set_commit_ts(c);
        std::string d = Fmt("TxnResolveLock(all of start %s commit %s)", Ts(t.start).c_str(), Ts(c).c_str());
        vh::SetCase(d);
        int64_t start = t.start;
        Exec(w, "resolve-all", d, [q, start, c](World& w) {
          std::string want = "ok";
          Access(w, q.commit_ts());
          std::vector<std::string> todo;
          for (auto& l : w.m.locks) if (l.second.lock_ts() == start) { if (l.second.lock_type() == ps::Lock) { want = "ok" + LockedText(l.second); todo.clear(); break; } todo.push_back(l.first); }
          for (auto& k : todo) { if (c) ApplyCommit(w.m, k, c); else ApplyRollback(w.m, k, start); }
          return want;
        }, [q] { return SResolve(q); });
        return;
      }
      q.set_start_ts(t.start);
      q.set_commit_ts(c);
      for (auto& k : keys) q.add_keys(k);
      std::string d = Fmt("TxnResolveLock(start %s commit %s%s)", Ts(t.start).c_str(), Ts(c).c_str(), KeysText(keys).c_str());
      vh::SetCase(d);
      std::string want = Exec(w, "resolve", d, [q](World& x) { return MResolve(x, q); }, [q] { return SResolve(q); });
}
static void StepSecondary(World& w, Txn& t, const std::vector<std::string>& keys) {
  auto q = Req<ps::TxnCheckSecondaryLocksRequest>(w.r);
  q.set_start_ts(t.start);
  for (auto& k : keys) q.add_keys(k);
  std::string d = Fmt("TxnCheckSecondaryLocks(start %s%s)", Ts(t.start).c_str(), KeysText(keys).c_str());
  vh::SetCase(d);
  Exec(w, "check-secondary", d, [q](World& x) { return MSecondary(x, q); }, [q] { return SSecondary(q); });
}
static void StepRollback(World& w, Txn& t, const std::vector<std::string>& keys) {
  auto q = Req<ps::TxnBatchRollbackRequest>(w.r);
  q.set_start_ts(t.start);
  for (auto& k : keys) q.add_keys(k);
  std::string d = Fmt("TxnBatchRollback(start %s%s)", Ts(t.start).c_str(), KeysText(keys).c_str());
  vh::SetCase(d);
  Exec(w, "batch-rollback", d, [q](World& x) { return MBatchRollback(x, q); }, [q] { return SBatchRollback(q); });
}
static void StepOther(World& w, vh::Rng& r, Pool& p) {
  Txn* pt = &Anyone(p, r);
  if (!w.m.locks.empty() && r.Chance(2, 3)) {  // whoever holds some lock now
    auto l = w.m.locks.begin();
    std::advance(l, r.Below(w.m.locks.size()));
    for (auto* v : {&p.live, &p.old}) for (auto& x : *v) if (x.start == l->second.lock_ts()) pt = &x;
  }
  Txn& t = *pt;
  auto keys = Some(t, r);
  switch (r.Below(10)) {
    case 0: case 1: case 2: {
      auto q = Req<ps::TxnCheckTxnStatusRequest>(w.r);
      q.set_primary_key(r.Chance(1, 8) ? keys[0] : t.primary);
      q.set_lock_ts(t.start);
      q.set_caller_start_ts(r.Chance(1, 4) ? Anyone(p, r).start : Tick(r));
      q.set_current_ts(r.Chance(2, 3) ? g_ts : g_ts + (r.Range(0, 5000) << 18));
      if (r.Chance(1, 10)) q.set_current_ts((t.ttl + r.Range(-1, 1)) << 18);
      q.set_force_sync_commit(r.Chance(1, 3));
      q.set_rollback_if_not_exist(r.Chance(1, 2));
      std::string d = Fmt("TxnCheckTxnStatus(%s lock %s caller %s now %s%s%s)", K(q.primary_key()).c_str(), Ts(t.start).c_str(), Ts(q.caller_start_ts()).c_str(), Ts(q.current_ts()).c_str(), q.force_sync_commit() ? " force" : "", q.rollback_if_not_exist() ? " rollback" : "");
      vh::SetCase(d);
      std::string want = Exec(w, "check-status", d, [q](World& x) { return MCheckStatus(x, q); }, [q] { return SCheckStatus(q); });
      break;
    }
    case 3: StepRollback(w, t, keys); break;
    case 4: {
      auto q = Req<ps::TxnPessimisticRollbackRequest>(w.r);
      q.set_start_ts(t.start);
      q.set_for_update_ts(r.Chance(1, 3) ? t.fu - 1 : t.fu);
      for (auto& k : keys) q.add_keys(k);
      std::string d = Fmt("TxnPessimisticRollback(start %s for_update %s%s)", Ts(t.start).c_str(), Ts(q.for_update_ts()).c_str(), KeysText(keys).c_str());
      vh::SetCase(d);
      std::string want = Exec(w, "pessimistic-rollback", d, [q](World& x) { return MPessRollback(x, q); }, [q] { return SPessRollback(q); });
      break;
    }
    case 5: case 6: StepResolve(w, r, t, r.Chance(1, 3)); break;
    case 7: {
      auto q = Req<ps::TxnHeartBeatRequest>(w.r);
      q.set_primary_lock(t.primary);
      q.set_start_ts(t.start);
      q.set_advise_lock_ttl(t.ttl + r.Range(-500, 500));
      std::string d = Fmt("TxnHeartBeat(%s start %s ttl %ld)", K(t.primary).c_str(), Ts(t.start).c_str(), (long)q.advise_lock_ttl());
      vh::SetCase(d);
      std::string want = Exec(w, "heartbeat", d, [q](World& x) { return MHeartBeat(x, q); }, [q] { return SHeartBeat(q); });
      break;
    }
    default: {
      if (!t.async && !r.Chance(1, 3)) return;
      StepSecondary(w, t, keys);
    }
  }
}

// ---------------------------------------------------------------- reads
static bool Conflict(const LockInfo* l, int64_t ts, bool rc, const std::set<int64_t>& resolved) {
  if (!l || resolved.count(l->lock_ts()) || l->min_commit_ts() > ts) return false;
  if (rc) return l->for_update_ts() > 0 && l->lock_type() != ps::Lock && l->for_update_ts() < ts;
  return (l->for_update_ts() > 0 ? l->for_update_ts() : l->lock_ts()) < ts;
}
struct ReadCtx { int64_t ts; bool rc; std::set<int64_t> resolved; };
static ReadCtx RandRead(World& w, vh::Rng& r, Pool& p) {
  ReadCtx c;
  c.ts = r.Chance(1, 2) ? Tick(r) : r.Chance(1, 2) && !p.live.empty() ? Anyone(p, r).start + r.Range(-1, 2) : g_ts - (int64_t)r.Below(60);
  c.rc = r.Chance(1, 4);
  if (r.Chance(1, 3)) for (auto& l : w.m.locks) if (r.Chance(1, 2)) c.resolved.insert(l.second.lock_ts());
  return c;
}
template <class Q>
static void SetRead(Q* q, const ReadCtx& c) {
  q->set_start_ts(c.ts);
  q->mutable_context()->set_isolation_level(c.rc ? ps::ReadCommitted : ps::SnapshotIsolation);
  for (auto t : c.resolved) q->mutable_context()->add_resolved_locks(t);
}
static std::string ReadText(const ReadCtx& c) { std::string s = Fmt("ts %s%s", Ts(c.ts).c_str(), c.rc ? " rc" : ""); for (auto t : c.resolved) s += " resolved " + Ts(t); return s; }
static void StepGet(World& w, vh::Rng& r, Pool& p) {
  ReadCtx c = RandRead(w, r, p);
  bool batch = r.Chance(1, 2);
  std::string d;
  std::vector<std::string> keys;
  std::function<std::string()> send;
  if (batch) {
    auto q = Req<ps::TxnBatchGetRequest>(w.r);
    SetRead(&q, c);
    int n = 1 + r.Below(5);
    for (int i = 0; i < n; ++i) { keys.push_back(RandKey(r, w)); q.add_keys(keys.back()); }
    d = Fmt("TxnBatchGet(%s%s)", ReadText(c).c_str(), KeysText(keys).c_str());
    send = [q] {
      ps::TxnBatchGetResponse resp;
      std::string got;
      Call(&SI::TxnBatchGet, q, &resp);
      if (Err(resp, &got)) return got;
      got = "ok";
      for (auto& kv : resp.kvs()) got += " " + K(kv.key()) + "=" + V(kv.value());
      return got + ResText(resp.txn_result());
    };
  } else {
    auto q = Req<ps::TxnGetRequest>(w.r);
    SetRead(&q, c);
    keys.push_back(RandKey(r, w));
    q.set_key(keys[0]);
    d = Fmt("TxnGet(%s %s)", ReadText(c).c_str(), K(q.key()).c_str());
    send = [q] {
      ps::TxnGetResponse resp;
      std::string got;
      Call(&SI::TxnGet, q, &resp);
      if (Err(resp, &got)) return got;
      return resp.has_txn_result() && resp.txn_result().ByteSizeLong() ? "ok" + ResText(resp.txn_result()) : "ok " + V(resp.value());
    };
  }
  auto model = [c, batch, keys](World& w) {
    Access(w, c.ts);
    std::string want = "ok";
    for (auto& k : keys) {
      LockInfo* l = w.m.Lock(k);
      if (Conflict(l, c.ts, c.rc, c.resolved)) { want += LockedText(*l); break; }
      std::string v;
      w.m.Visible(k, c.rc ? INT64_MAX : c.ts, &v);
      want += " " + (batch ? K(k) + "=" : std::string()) + V(v);
    }
    return want;
  };
  if (g_keep) { g_keep->push_back({batch ? "batch-get" : "get", d, model, send, true, c.rc ? 0 : c.ts}); return; }
  vh::SetCase(d);
  std::string want = model(w), got = send();
  vh::Case(vh::Mix(vh::HashStr(d), vh::HashStr(want)));
  vh::Count(batch ? "batch_gets" : "gets");
  if (want.find("locked") != std::string::npos) vh::Count("reads_blocked");
  if (got != want) vh::Fail(batch ? "answer-batch-get" : "answer-get", Fmt("%s answered [%s], expected [%s]", d.c_str(), got.c_str(), want.c_str()));
}
struct OpenScan { ReadCtx c; std::string lo, hi, stream; Model at; bool key_only, locks; int64_t limit, max_ts; std::vector<std::pair<std::string, std::string>> want; std::string end; size_t pos{0}; int pages{0}; };
static std::string Succ(std::string p) { while (!p.empty() && (unsigned char)p.back() == 0xff) p.pop_back(); if (!p.empty()) p.back()++; return p; }
static bool BeginScan(World& w, vh::Rng& r, Pool& p, OpenScan& s) {
  s.c = RandRead(w, r, p);
  s.locks = r.Chance(1, 3);
  s.key_only = r.Chance(1, 4);
  std::string a = RandKey(r, w), b = RandKey(r, w);
  if (r.Chance(1, 3)) { a = w.pfx; b = Succ(w.pfx); }
  if (a > b) std::swap(a, b);
  if (a == b) b += '\0';
  s.lo = a;
  s.hi = b;
  s.limit = std::min<int64_t>(g_page, r.Chance(1, 4) ? 100 : 1 + r.Below(4));
  s.max_ts = r.Chance(1, 2) ? g_ts + 1 : Anyone(p, r).start + r.Below(2);
  return true;
}
// what a scan must return: what is there when its first page is read
static void StartScan(World& w, OpenScan& s) {
  const std::string &a = s.lo, &b = s.hi;
  s.at = w.m;
  if (s.locks) {
    for (auto& l : s.at.locks) if (l.first >= a && l.first < b && l.second.lock_ts() < s.max_ts) s.want.push_back({l.first, LockText(l.second)});
    return;
  }
  Access(w, s.c.ts);
  for (auto& k : s.at.Keys()) {
    if (k < a || k >= b) continue;
    LockInfo* l = s.at.Lock(k);
    if (Conflict(l, s.c.ts, s.c.rc, s.c.resolved)) { s.want.push_back({"", LockedText(*l)}); break; }
    std::string v;
    if (s.at.Visible(k, s.c.rc ? INT64_MAX : s.c.ts, &v) && !v.empty()) s.want.push_back({k, s.key_only ? "" : V(v)});
  }
}
// one page; false when the scan is over
static bool Page(World& w, vh::Rng& r, OpenScan& s, bool close) {
  std::vector<std::pair<std::string, std::string>> got;
  std::string err, d, id;
  bool more = false;
  if (!s.pages) StartScan(w, s);
  if (s.locks) {
    auto q = Req<ps::TxnScanLockRequest>(w.r);
    q.set_max_ts(s.max_ts);
    q.set_start_key(s.lo);
    q.set_end_key(s.hi);
    q.set_limit(s.limit);
    q.mutable_stream_meta()->set_stream_id(s.stream);
    q.mutable_stream_meta()->set_limit(s.limit);
    q.mutable_stream_meta()->set_close(close);
    d = Fmt("TxnScanLock([%s, %s) below %s limit %ld page %d)", K(s.lo).c_str(), K(s.hi).c_str(), Ts(s.max_ts).c_str(), (long)s.limit, s.pages);
    vh::SetCase(d);
    ps::TxnScanLockResponse p;
    Call(&SI::TxnScanLock, q, &p);
    if (Err(p, &err)) { vh::Fail("answer-scan-lock", d + " answered " + err); return false; }
    for (auto& l : p.locks()) got.push_back({l.key(), LockText(l)});
    more = p.has_more();
    id = p.stream_meta().stream_id();
  } else {
    if (s.pages) Access(w, s.c.ts);
    auto q = Req<ps::TxnScanRequest>(w.r);
    SetRead(&q, s.c);
    q.mutable_range()->mutable_range()->set_start_key(s.lo);
    q.mutable_range()->mutable_range()->set_end_key(s.hi);
    q.mutable_range()->set_with_start(true);
    q.set_limit(s.limit);
    q.set_key_only(s.key_only);
    q.mutable_stream_meta()->set_stream_id(s.stream);
    q.mutable_stream_meta()->set_limit(s.limit);
    q.mutable_stream_meta()->set_close(close);
    d = Fmt("TxnScan(%s [%s, %s) limit %ld page %d)", ReadText(s.c).c_str(), K(s.lo).c_str(), K(s.hi).c_str(), (long)s.limit, s.pages);
    vh::SetCase(d);
    ps::TxnScanResponse p;
    Call(&SI::TxnScan, q, &p);
    if (Err(p, &err)) { vh::Fail("answer-scan", d + " answered " + err); return false; }
    for (auto& kv : p.kvs()) got.push_back({kv.key(), s.key_only && kv.value().empty() ? "" : V(kv.value())});
    if (p.has_txn_result() && p.txn_result().ByteSizeLong()) got.push_back({"", ResText(p.txn_result())});
    more = p.has_more();
    id = p.stream_meta().stream_id();
  }
  s.pages++;
  vh::Count(s.locks ? "lock_scan_pages" : "scan_pages");
  if (s.pages > 1) vh::Count("continued_pages");
  size_t n = 0;
  bool blocked = false;
  for (auto& g : got) {
    if (s.pos >= s.want.size() || s.want[s.pos] != g) {
      vh::Fail(s.locks ? "answer-scan-lock" : "answer-scan", Fmt("%s returned %s %s as item %zu of the scan, expected %s", d.c_str(), K(g.first).c_str(), g.second.c_str(), s.pos, s.pos < s.want.size() ? (K(s.want[s.pos].first) + " " + s.want[s.pos].second).c_str() : "its end"));
      return false;
    }
    ++s.pos;
    if (!g.first.empty()) ++n; else blocked = true;
  }
  if ((int64_t)n > s.limit) vh::Fail("scan-limit", d + Fmt(" returned %zu items", n));
  vh::Case(vh::Mix(vh::HashStr(d), got.size() * 31 + s.pos));
  if (blocked) { vh::Count("scans_blocked"); if (!more) vh::Fail("scan-more", d + " met a lock but says there is nothing more"); return false; }
  if (!more && !close && s.pos < s.want.size()) { vh::Fail(s.locks ? "scan-lock-lost" : "scan-lost", Fmt("%s ended after %zu of %zu items; next would be %s", d.c_str(), s.pos, s.want.size(), K(s.want[s.pos].first).c_str())); return false; }
  if (more && n == 0 && s.pos >= s.want.size() && s.pages > 40) { vh::Fail("scan-endless", d + " never ends"); return false; }
  s.stream = id;
  return more && !close;
}


// ---------------------------------------------------------------- garbage collection, range deletion, dump
static std::set<int64_t> Moments(const Dumped& d, int64_t from) {
  std::set<int64_t> s{from, from + 1, INT64_MAX};
  for (auto& k : d.writes) for (auto& w : k.second) if (w.first >= from) { s.insert(w.first); s.insert(w.first + 1); if (w.first > from) s.insert(w.first - 1); }
  return s;
}
static Model AsModel(const Dumped& d) { Model m; m.locks = d.locks; m.writes = d.writes; m.data = d.data; return m; }
static void StepGc(World& w, vh::Rng& r, Pool& p) {
  int64_t sp;
  std::vector<int64_t> all;
  for (auto& k : w.m.writes) for (auto& x : k.second) all.push_back(x.first);
  if (all.empty()) return;
  sp = r.Pick(all) + r.Range(-1, 1);
  if (r.Chance(1, 4)) sp = g_ts;
  Dumped pre = DumpTxn(*E().raw, w.pfx);
  gflags::SetCommandLineOption("gc_delete_batch_count", std::to_string(r.Chance(1, 2) ? 1 + r.Below(4) : 32768).c_str());
  int64_t tenant = w.r->Definition().tenant_id();
  auto mgr = E().meta->GetGCSafePointManager();
  mgr->SetGcFlagAndSafePointTs({{tenant, sp}}, false);
  int stop_after = r.Chance(1, 3) ? 1 + r.Below(3) : 0, writes = 0;
  bool stopped = false;
  if (stop_after)
    vsrocks::ctl().after_write = [&](const std::string&, const auto&, auto&&...) {
      if (++writes == stop_after) { stopped = true; mgr->SetGcFlagAndSafePointTs({{tenant, sp}}, true); }
    };
  auto q = Req<ps::TxnGcRequest>(w.r);
  q.set_safe_point_ts(sp);
  std::string d = Fmt("TxnGc(safe point %s%s)", Ts(sp).c_str(), stop_after ? Fmt(", switched off after %d writes", stop_after).c_str() : "");
  vh::SetCase(d);
  ps::TxnGcResponse resp;
  Call(&SI::TxnGc, q, &resp);
  vsrocks::ctl().after_write = nullptr;
  if (resp.error().errcode()) vh::Fail("answer-gc", d + Fmt(" answered error %d", resp.error().errcode()));
  Dumped post = DumpTxn(*E().raw, w.pfx);
  vh::Count("op_gc");
  if (stopped) vh::Count("gc_interrupted");
  Model a = AsModel(pre), b = AsModel(post);
  for (auto t : Moments(pre, sp))
    for (auto& k : a.Keys()) {
      std::string x, y;
      bool ha = a.Visible(k, t, &x), hb = b.Visible(k, t, &y);
      if (ha != hb || x != y)
        vh::Fail(hb && !ha ? "gc-resurrected" : "gc-lost", Fmt("%s changed what a reader at %s sees of key %s: before %s, after %s", d.c_str(), Ts(t).c_str(), K(k).c_str(), ha ? V(x).c_str() : "nothing", hb ? V(y).c_str() : "nothing"));
      vh::Count("gc_reads_compared");
    }
  std::map<std::string, std::string> la, lb;
  for (auto& l : pre.locks) la[l.first] = LockText(l.second);
  for (auto& l : post.locks) lb[l.first] = LockText(l.second);
  if (la != lb) vh::Fail("gc-locks", d + " changed the locks");
  uint64_t removed = 0;
  for (auto& k : pre.writes)
    for (auto& x : k.second) {
      bool kept = post.writes.count(k.first) && post.writes[k.first].count(x.first);
      if (!kept) ++removed;
      if (!kept && x.first > sp) vh::Fail("gc-newer", Fmt("%s removed the record %s@%s", d.c_str(), K(k.first).c_str(), Ts(x.first).c_str()));
    }
  for (auto& k : post.writes) {
    int puts = 0;
    for (auto& x : k.second) {
      if (!pre.writes.count(k.first) || !pre.writes[k.first].count(x.first) || WrText(pre.writes[k.first][x.first]) != WrText(x.second)) vh::Fail("gc-invented", d + " added or changed a write record");
      if (x.first > sp) continue;
      if (x.second.op == ps::Put && ++puts == 1) continue;
      if (!stopped) vh::Fail("gc-garbage", Fmt("%s left the record %s@%s %s", d.c_str(), K(k.first).c_str(), Ts(x.first).c_str(), WrText(x.second).c_str()));
    }
  }
  for (auto& x : pre.data) {
    bool kept = post.data.count(x.first);
    int64_t c = a.CommittedAt(x.first.first, x.first.second);
    bool live = c == 0 || (post.writes.count(x.first.first) && post.writes[x.first.first].count(c));
    if (live != kept) vh::Fail(kept ? "gc-orphan" : "gc-value-lost", Fmt("%s %s the long value %s@%s although its record is %s", d.c_str(), kept ? "left" : "removed", K(x.first.first).c_str(), Ts(x.first.second).c_str(), live ? "kept or not committed" : "gone"));
    if (kept && post.data[x.first] != x.second) vh::Fail("gc-value", d + " changed a long value");
  }
  for (auto& x : post.data) if (!pre.data.count(x.first)) vh::Fail("gc-invented", d + " added a long value");
  vh::Count("gc_removed", removed);
  vh::Case(vh::Mix(vh::HashStr(d), removed));
  w.m.writes = post.writes;
  w.m.data = post.data;
  for (auto* pool : {&p.live, &p.old}) (void)pool;
  CompareState(w, d);
}
static void StepDeleteRange(World& w, vh::Rng& r) {
  std::string a = RandKey(r, w), b = RandKey(r, w);
  if (a > b) std::swap(a, b);
  if (a == b) b += '\0';
  auto q = Req<ps::TxnDeleteRangeRequest>(w.r);
  q.set_start_key(a);
  q.set_end_key(b);
  std::string d = Fmt("TxnDeleteRange([%s, %s))", K(a).c_str(), K(b).c_str());
  vh::SetCase(d);
  ps::TxnDeleteRangeResponse resp;
  Call(&SI::TxnDeleteRange, q, &resp);
  Model& m = w.m;
  auto in = [&](const std::string& k) { return k >= a && k < b; };
  for (auto i = m.locks.begin(); i != m.locks.end();) i = in(i->first) ? m.locks.erase(i) : std::next(i);
  for (auto i = m.writes.begin(); i != m.writes.end();) i = in(i->first) ? m.writes.erase(i) : std::next(i);
  for (auto i = m.data.begin(); i != m.data.end();) i = in(i->first.first) ? m.data.erase(i) : std::next(i);
  Judge(w, "delete-range", d, resp.error().errcode() ? Fmt("err %d", resp.error().errcode()) : "ok", "ok");
}
static void StepDump(World& w, vh::Rng& r) {
  std::string a = RandKey(r, w), b = RandKey(r, w);
  if (a > b || r.Chance(1, 2)) { a = w.pfx; b = w.pfx + std::string("\xff\xff", 2); }
  if (a == b || w.m.Keys().count(b)) return;
  auto q = Req<ps::TxnDumpRequest>(w.r);
  q.set_start_key(a);
  q.set_end_key(b);
  q.set_start_ts(0);
  q.set_end_ts(INT64_MAX);
  ps::TxnDumpResponse p;
  std::string d = Fmt("TxnDump([%s, %s))", K(a).c_str(), K(b).c_str());
  vh::SetCase(d);
  Call(&SI::TxnDump, q, &p);
  std::vector<std::string> want, got;
  auto in = [&](const std::string& k) { return k >= a && k < b; };
  for (auto& l : w.m.locks) if (in(l.first)) want.push_back("lock " + K(l.first) + LockText(l.second));
  for (auto& k : w.m.writes) if (in(k.first)) for (auto& x : k.second) want.push_back("write " + K(k.first) + "@" + Ts(x.first) + WrText(x.second));
  for (auto& x : w.m.data) if (in(x.first.first)) want.push_back("data " + K(x.first.first) + "@" + Ts(x.first.second) + V(x.second));
  for (int i = 0; i < p.lock_keys_size() && i < p.lock_values_size(); ++i) got.push_back("lock " + K(p.lock_keys(i).key()) + LockText(p.lock_values(i).lock_info()));
  for (int i = 0; i < p.write_keys_size() && i < p.write_values_size(); ++i) { auto& x = p.write_values(i).write_info(); got.push_back("write " + K(p.write_keys(i).key()) + "@" + Ts(p.write_keys(i).commit_ts()) + WrText(Wr{x.start_ts(), (int)x.op(), x.short_value()})); }
  for (int i = 0; i < p.data_keys_size() && i < p.data_values_size(); ++i) got.push_back("data " + K(p.data_keys(i).key()) + "@" + Ts(p.data_keys(i).start_ts()) + V(p.data_values(i).value()));
  std::sort(want.begin(), want.end());
  std::sort(got.begin(), got.end());
  vh::Count("dumps");
  if (got != want) vh::Fail("answer-dump", Fmt("%s returned %zu items, expected %zu%s", d.c_str(), got.size(), want.size(), p.error().errcode() ? " (error)" : ""));
}

// ---------------------------------------------------------------- sequential episodes
static World NewWorld(int64_t id, bool raft, int followers) {
  World w;
  w.raft = raft;
  w.pfx = "t";
  for (int i = 6; i >= 0; --i) w.pfx += (char)(id >> (8 * i));
  w.r = raft ? svc::AddRaftRegion(id, w.pfx, Succ(w.pfx), followers) : AddRegion(id, w.pfx, Succ(w.pfx));
  w.m.access = w.r->TxnAccessMaxTs();
  return w;
}
struct Weights { int pre, com, lock, other, get, scan, gc, range, dump; };
static void Episode(World& w, vh::Rng& r, const Weights& x, int steps) {
  Pool p;
  std::vector<OpenScan> scans;
  std::map<const void*, int> idle;
  int total = x.pre + x.com + x.lock + x.other + x.get + x.scan + x.gc + x.range + x.dump;
  for (int i = 0; i < steps; ++i) {
    while (p.live.size() < 4) p.live.push_back(NewTxn(w, r));
    size_t ti = r.Below(p.live.size());
    Txn& t = p.live[ti];
    int pick = r.Below(total);
    auto is = [&](int weight) { pick -= weight; return pick < 0; };
    if (is(x.pre)) {
      bool late = r.Chance(1, 12);  // a delayed or repeated prewrite of a transaction that may long be decided
      StepPrewrite(w, r, late ? Anyone(p, r) : t);
    } else if (is(x.com)) {
      Txn* pc = r.Chance(1, 10) ? &Anyone(p, r) : &t;
      if (r.Chance(1, 2)) for (auto& y : p.live) if (y.prewritten.size() == y.keys.size() && y.committed.size() < y.keys.size()) pc = &y;
      Txn& c = *pc;
      if (c.prewritten.size() == c.keys.size() || !c.committed.empty() || r.Chance(1, 8)) StepCommit(w, r, c); else StepPrewrite(w, r, c);
    } else if (is(x.lock)) {
      if (t.pess && !t.commit) StepPessLock(w, r, t); else StepPrewrite(w, r, t);
    } else if (is(x.other)) StepOther(w, r, p);
    else if (is(x.get)) StepGet(w, r, p);
    else if (is(x.scan)) {
      if (scans.size() < 3) { OpenScan s; BeginScan(w, r, p, s); scans.push_back(std::move(s)); }
      size_t j = r.Below(scans.size());
      if (!Page(w, r, scans[j], r.Chance(1, 30))) scans.erase(scans.begin() + j);
    } else if (is(x.gc)) StepGc(w, r, p);
    else if (is(x.range)) StepDeleteRange(w, r);
    else StepDump(w, r);
    if (r.Chance(1, 6) && (!p.live[ti].committed.empty() || p.live[ti].doomed || r.Chance(1, 4))) {
      p.old.push_back(p.live[ti]);
      if (p.old.size() > 30) p.old.erase(p.old.begin());
      p.live.erase(p.live.begin() + ti);
    }
  }
}

// ---------------------------------------------------------------- two requests at once
// The first is held at its first write while the second runs; what both answer and leave behind must be what one after
// the other would.
static std::string StateText(const Model& m) {
  std::string s;
  for (auto& l : m.locks) s += "lock " + K(l.first) + LockText(l.second) + "\n";
  for (auto& k : m.writes) for (auto& x : k.second) s += "write " + K(k.first) + "@" + Ts(x.first) + WrText(x.second) + "\n";
  for (auto& x : m.data) s += "data " + K(x.first.first) + "@" + Ts(x.first.second) + V(x.second) + "\n";
  return s;
}
// no request is under way: nothing may be locked in memory any more
static void NoMemoryLock(World& w, const char* what) {
  auto q = Req<ps::TxnScanRequest>(w.r);
  int64_t at = g_ts + 1;
  q.set_start_ts(at);
  q.set_limit(std::min<int64_t>(1000, g_page));
  q.mutable_range()->mutable_range()->set_start_key(w.pfx);
  q.mutable_range()->mutable_range()->set_end_key(Succ(w.pfx));
  q.mutable_range()->set_with_start(true);
  ps::TxnScanResponse p;
  Call(&SI::TxnScan, q, &p);
  Access(w, at);
  vh::Count("no_memory_lock_checks");
  if (p.error().errcode()) vh::Fail("memory-lock-left", Fmt("after %s, with no request under way, a scan of the region answers %d %s", what, p.error().errcode(), p.error().errmsg().c_str()));
}
static void Overlap(World& w, vh::Rng& r, const Op& a, const std::vector<Op>& bs) {
  std::mutex mu;
  std::condition_variable cv;
  bool armed = true, held = false, go = false, a_done = false, b_done = false;
  std::vector<std::string> got(bs.size() + 1);
  std::string what = a.desc + " ||", kinds = a.what;
  for (auto& b : bs) { what += " " + b.desc; kinds += "_" + b.what; }
  vh::SetCase(what);
  vsrocks::ctl().before_write = [&](const std::string&, const auto&, auto&&...) {
    std::unique_lock<std::mutex> l(mu);
    if (armed) { armed = false; held = true; cv.notify_all(); cv.wait(l, [&] { return go; }); }
    return true;
  };
  std::thread ta([&] { std::string x = a.send(); std::lock_guard<std::mutex> l(mu); got[0] = x; a_done = true; armed = false; cv.notify_all(); });
  std::thread tb([&] {
    { std::unique_lock<std::mutex> l(mu); cv.wait(l, [&] { return held || a_done; }); }
    for (size_t i = 0; i < bs.size(); ++i) got[i + 1] = bs[i].send();
    std::lock_guard<std::mutex> l(mu);
    b_done = true;
    cv.notify_all();
  });
  bool overtook = false;
  {
    std::unique_lock<std::mutex> l(mu);
    cv.wait(l, [&] { return held || a_done; });
    if (held) { cv.wait_for(l, std::chrono::milliseconds(2 + r.Below(4)), [&] { return b_done; }); overtook = b_done; vh::Count("overlap_held"); }
    go = true;
    cv.notify_all();
  }
  ta.join();
  tb.join();
  vsrocks::ctl().before_write = nullptr;
  if (overtook) vh::Count("overlap_second_finished_first");
  Dumped d = DumpTxn(*E().raw, w.pfx);
  Model now;
  now.locks = d.locks;
  now.writes = d.writes;
  now.data = d.data;
  std::string st = StateText(now);
  vh::Case(vh::HashStr(what));
  vh::Count("overlap_pairs");
  vh::Count("overlap_first_" + a.what);
  for (auto& b : bs) vh::Count("overlap_then_" + b.what);
  // every order the first request may take among the others; it always computes without their timestamps
  struct Order { World w; std::vector<std::string> ans; };
  std::vector<Order> orders;
  for (size_t at = 0; at <= bs.size(); ++at) {
    Order o{w, std::vector<std::string>(bs.size() + 1)};
    for (size_t i = 0; i <= bs.size(); ++i) {
      if (i == at) {
        int64_t acc = o.w.m.access;
        o.w.m.access = w.m.access;
        o.ans[0] = a.model(o.w);
        o.w.m.access = std::max(o.w.m.access, acc);
      }
      if (i < bs.size()) o.ans[i + 1] = bs[i].model(o.w);
    }
    orders.push_back(o);
  }
  int hit = -1;
  for (size_t i = 0; i < orders.size() && hit < 0; ++i) if (orders[i].ans == got && StateText(orders[i].w.m) == st) hit = i;
  if (bs.size() == 1 && bs[0].read && got[0] == orders[0].ans[0] && st == StateText(orders[0].w.m)) {
    // a snapshot taken while the first was writing: before it, unless that commits at or below the snapshot's timestamp
    int64_t c = 0;
    for (auto& l : now.locks) if (!w.m.locks.count(l.first) || LockText(w.m.locks[l.first]) != LockText(l.second)) if (l.second.use_async_commit()) c = c ? std::min(c, (int64_t)l.second.min_commit_ts()) : l.second.min_commit_ts();
    if (got[0].find("one_pc") != std::string::npos) for (auto& k : now.writes) for (auto& x : k.second) if (!w.m.writes.count(k.first) || !w.m.writes[k.first].count(x.first)) c = c ? std::min(c, x.first) : x.first;
    if (got[1] == Fmt("err %d", pb::error::ETXN_MEMORY_LOCK_CONFLICT)) { hit = 0; vh::Count("overlap_memory_locked"); }
    else if (hit != 0) hit = got[1] == orders[1].ans[1] && (!bs[0].ts || !c || c > bs[0].ts) ? 1 : -1;
  }
  if (hit < 0) {
    auto diff = [&](const std::string& x, const std::string& y) {
      std::set<std::string> p, q;
      std::string o;
      for (auto* v : {&x, &y}) { std::istringstream in(*v); std::string line; while (std::getline(in, line)) (v == &x ? p : q).insert(line); }
      for (auto& l : p) if (!q.count(l)) o += " -" + l;
      for (auto& l : q) if (!p.count(l)) o += " +" + l;
      return o.substr(0, 700);
    };
    std::string text;
    for (auto& g : got) text += "[" + g + "]";
    for (auto& o : orders) { text += "; in one order expected "; for (auto& g : o.ans) text += "[" + g + "]"; text += "; state differs by" + diff(StateText(o.w.m), st); }
    vh::Fail("overlap-" + a.what + "-" + bs[0].what, Fmt("%s: answers %s", what.c_str(), text.c_str()));
  } else vh::Count(Fmt("overlap_order_%d", hit));
  int64_t acc = 0;
  for (auto& o : orders) acc = std::max(acc, o.w.m.access);
  w.m = orders[std::max(hit, 0)].w.m;
  w.m.access = acc;
  CompareState(w, "all of them");
  NoMemoryLock(w, what.c_str());
}
static void OverlapEpisode(World& w, vh::Rng& r, int steps, bool late) {
  Pool p;
  for (int i = 0; i < steps; ++i) {
    while (p.live.size() > 8) { p.old.push_back(p.live[0]); p.live.erase(p.live.begin()); }
    while (p.live.size() < 4) p.live.push_back(NewTxn(w, r));
    std::vector<Op> ops;
    auto step = [&](bool other) {
      Txn& t = p.live[r.Below(p.live.size())];
      switch (r.Below(other ? 9 : 8)) {
        case 0: case 1: StepPrewrite(w, r, r.Chance(1, 12) ? Anyone(p, r) : t); break;
        case 2: case 3: if (t.prewritten.size() == t.keys.size() || r.Chance(1, 4)) StepCommit(w, r, t); else StepPrewrite(w, r, t); break;
        case 4: if (t.pess && !t.commit) StepPessLock(w, r, t); else StepPrewrite(w, r, t); break;
        case 8: StepGet(w, r, p); break;
        default: StepOther(w, r, p);
      }
    };
    if (r.Chance(1, 2)) {
      std::vector<Txn*> half;  // decided, with locks left
      for (auto* v : {&p.live, &p.old})
        for (auto& t : *v)
          if (w.m.CommittedAt(t.primary, t.start) || w.m.Rolled(t.primary, t.start)) for (auto& l : w.m.locks) if (l.second.lock_ts() == t.start && l.second.lock_type() != ps::Lock) { half.push_back(&t); break; }
      g_keep = &ops;
      if (late ? r.Chance(3, 4) : r.Chance(1, 6)) {
        // a transaction part of whose keys are prewritten; somebody asks about it or puts an end to it while the rest arrives
        g_keep = nullptr;
        Txn n;
        for (int i = 0; i < 10 && n.keys.size() < 2; ++i) n = NewTxn(w, r);
        n.start = Tick(r);
        if (r.Chance(2, 3)) { n.pess = false; n.async = true; }
        std::vector<std::string> all, first, rest;
        for (auto& k : n.keys) all.push_back(k.first);
        for (size_t i = all.size(); i > 1; --i) std::swap(all[i - 1], all[r.Below(i)]);
        size_t cut = r.Below(all.size());
        if (r.Chance(1, 2) && cut == 0) cut = 1;
        first.assign(all.begin(), all.begin() + cut);
        rest.assign(all.begin() + cut, all.end());
        if (!first.empty()) StepPrewrite(w, r, n, first);
        p.live.push_back(n);
        Txn& t = p.live.back();
        g_keep = &ops;
        auto ask = [&] {
          std::vector<std::string> ks = r.Chance(2, 3) ? all : rest;
          if (ks.size() > 1 && r.Chance(1, 4)) std::swap(ks[0], ks[r.Below(ks.size())]);
          switch (r.Below(4)) {
            case 0: case 1: StepSecondary(w, t, ks); break;
            case 2: StepRollback(w, t, ks); break;
            default: StepOther(w, r, p);
          }
        };
        bool ask_first = r.Chance(1, 4);
        if (ask_first) for (int i = 0; i < 5 && ops.empty(); ++i) ask();
        StepPrewrite(w, r, t, rest);
        for (int i = 0; i < 5 && ops.size() < 2; ++i) ask();
        vh::Count("overlap_late");
      } else if (!half.empty() && r.Chance(2, 3)) {
        Txn& t = *half[r.Below(half.size())];
        StepResolve(w, r, t, r.Chance(2, 3));
        for (int i = 0; i < 8 && ops.size() < 2; ++i) if (w.m.CommittedAt(t.primary, t.start) && r.Chance(1, 2)) StepCommit(w, r, t); else StepResolve(w, r, t, r.Chance(1, 2));
        // a new transaction takes over one of its keys
        Txn n = NewTxn(w, r);
        Mut m = n.keys.begin()->second;
        n.keys.clear();
        for (auto& l : w.m.locks) if (l.second.lock_ts() == t.start && r.Chance(2, 3)) n.keys[l.first] = Mut{ps::Put, "n"};
        if (n.keys.empty()) n.keys[t.keys.begin()->first] = Mut{ps::Put, "n"};
        n.primary = n.keys.begin()->first;
        n.start = Tick(r);
        size_t was = ops.size();
        if (n.pess) StepPessLock(w, r, n); else StepPrewrite(w, r, n);
        if (ops.size() > was) p.live.push_back(n);
      } else {
        while (ops.size() < 1) step(false);
        while (ops.size() < 2) step(true);
        if (!ops.back().read && r.Chance(1, 3)) while (ops.size() < 3) step(false);
      }
      g_keep = nullptr;
      Op first = ops[0];
      ops.erase(ops.begin());
      if (!ops.empty()) Overlap(w, r, first, ops);
    } else step(true);
    for (auto& t : p.live) {
      for (auto& k : t.keys) { LockInfo* l = w.m.Lock(k.first); if (l && l->lock_ts() == t.start) (l->lock_type() == ps::Lock ? t.locked : t.prewritten).insert(k.first); if (w.m.CommittedAt(k.first, t.start)) { t.committed.insert(k.first); t.commit = w.m.CommittedAt(k.first, t.start); } }
      if (w.m.Rolled(t.primary, t.start)) t.doomed = true;
    }
    size_t ti = r.Below(p.live.size());
    if (r.Chance(1, 4) && (!p.live[ti].committed.empty() || p.live[ti].doomed || r.Chance(1, 4))) {
      p.old.push_back(p.live[ti]);
      if (p.old.size() > 30) p.old.erase(p.old.begin());
      p.live.erase(p.live.begin() + ti);
    }
  }
}

// ---------------------------------------------------------------- concurrent clients: a bank
// Accounts hold balance|sequence|writer. Clients move money with every kind of transaction, stop half way, repeat
// their messages and clear each other's locks; what they were told and what they read is kept and judged at the end
// against the committed versions, which garbage collection may have taken meanwhile (they are noted before).
struct Bank {
  World& w;
  std::vector<std::string> keys;
  std::atomic<int64_t> ts;
  std::mutex mu;
  std::multiset<int64_t> active;
  struct Rec { int64_t start; bool committed{false}, aborted{false}; int64_t commit{0}; std::map<std::string, std::string> vals; std::string how; };
  struct Seen { std::string key; int64_t ts; std::string val; const char* by; };
  std::vector<Rec> recs;
  std::vector<Seen> seen;
  std::map<std::string, Versions> kept;
  std::map<std::pair<std::string, int64_t>, std::string> kept_data;
  bool gc{false};
  explicit Bank(World& x) : w(x), ts(g_ts) {}

  int64_t Now() { return ts.fetch_add(1 << 12); }
  int64_t Begin() { std::lock_guard<std::mutex> l(mu); int64_t t = Now(); active.insert(t); return t; }
  void End(int64_t t) { std::lock_guard<std::mutex> l(mu); active.erase(active.find(t)); }
  void Note(const std::string& k, int64_t t, const std::string& v, const char* by) { std::lock_guard<std::mutex> l(mu); seen.push_back({k, t, v, by}); }
};
struct Acc { int64_t bal, seq, writer; };
static Acc Parse(const std::string& v) { Acc a{0, 0, 0}; sscanf(v.c_str(), "%ld|%ld|%ld", &a.bal, &a.seq, &a.writer); return a; }
static std::string Text(const Acc& a, bool big) { auto s = Fmt("%ld|%ld|%ld|", a.bal, a.seq, a.writer); if (big) s += std::string(300, 'x'); return s; }

template <class P>
static bool Bad(const P& p, const char* what) {
  if (p.error().errcode() == 0) return false;
  vh::Fail(Fmt("bank-error-%s", what), Fmt("%s answered error %d %s", what, p.error().errcode(), p.error().errmsg().c_str()));
  return true;
}
static void GiveBack(Bank& b, const LockInfo& l) {
  auto x = Req<ps::TxnPessimisticRollbackRequest>(b.w.r);
  x.set_start_ts(l.lock_ts());
  x.set_for_update_ts(l.for_update_ts());
  x.add_keys(l.key());
  ps::TxnPessimisticRollbackResponse y;
  Call(&SI::TxnPessimisticRollback, x, &y);
  Bad(y, "TxnPessimisticRollback");
  vh::Count("bank_pess_cleared");
}
static void ResolveKeys(Bank& b, vh::Rng& r, int64_t start, int64_t commit, const std::vector<std::string>& keys) {
  auto q = Req<ps::TxnResolveLockRequest>(b.w.r);
  if (r.Chance(1, 2)) { auto* x = q.add_txn_infos(); x->set_start_ts(start); x->set_commit_ts(commit); vh::Count("bank_resolve_all"); }
  else { q.set_start_ts(start); q.set_commit_ts(commit); for (auto& k : keys) q.add_keys(k); vh::Count("bank_resolve_keys"); }
  for (int i = 0; i < 5; ++i) {
    ps::TxnResolveLockResponse p;
    Call(&SI::TxnResolveLock, q, &p);
    if (Bad(p, "TxnResolveLock") || !p.txn_result().has_locked()) return;
    if (p.txn_result().locked().lock_ts() != start || p.txn_result().locked().lock_type() != ps::Lock) { vh::Fail("bank-resolve-locked", "TxnResolveLock is stopped by a lock it should resolve:" + ResText(p.txn_result())); return; }
    GiveBack(b, p.txn_result().locked());  // one of its keys is still under a pessimistic lock
  }
}
// Clears a lock some other transaction left; true if the caller should simply retry, `ignore` gets transactions a reader may read past.
static void Clear(Bank& b, vh::Rng& r, const LockInfo& l, int64_t caller, std::set<int64_t>* ignore) {
  bool force = false;
  for (int i = 0; i < 4; ++i) {
    auto q = Req<ps::TxnCheckTxnStatusRequest>(b.w.r);
    q.set_primary_key(l.primary_lock());
    q.set_lock_ts(l.lock_ts());
    q.set_caller_start_ts(caller);
    q.set_current_ts(b.Now());
    q.set_force_sync_commit(force);
    q.set_rollback_if_not_exist(true);
    ps::TxnCheckTxnStatusResponse p;
    Call(&SI::TxnCheckTxnStatus, q, &p);
    if (Bad(p, "TxnCheckTxnStatus")) return;
    if (p.txn_result().has_primary_mismatch()) { vh::Fail("bank-mismatch", "a lock names another key as its primary than the transaction's"); return; }
    if (p.txn_result().has_txn_not_found()) { vh::Fail("bank-notfound", "TxnCheckTxnStatus with rollback_if_not_exist answered not found"); return; }
    int64_t commit = p.commit_ts();
    if (p.txn_result().has_locked() && p.txn_result().locked().use_async_commit() && !force) {
      const LockInfo pl = p.txn_result().locked();
      if (pl.lock_ttl() >= (q.current_ts() >> 18)) { std::this_thread::yield(); return; }
      auto s = Req<ps::TxnCheckSecondaryLocksRequest>(b.w.r);
      s.set_start_ts(l.lock_ts());
      std::vector<std::string> all{l.primary_lock()};
      for (auto& k : pl.secondaries()) { s.add_keys(k); all.push_back(k); }
      ps::TxnCheckSecondaryLocksResponse sp;
      Call(&SI::TxnCheckSecondaryLocks, s, &sp);
      if (Bad(sp, "TxnCheckSecondaryLocks")) return;
      vh::Count("bank_check_secondaries");
      if (sp.txn_result().has_locked()) {  // a key still under its pessimistic lock: give that back, then ask again
        GiveBack(b, sp.txn_result().locked());
        vh::Count("bank_pess_secondary_cleared");
        continue;
      }
      if (sp.commit_ts() > 0) commit = sp.commit_ts();
      else if (sp.locks_size() == s.keys_size()) {
        commit = pl.min_commit_ts();
        for (auto& x : sp.locks()) { if (!x.use_async_commit()) force = true; commit = std::max(commit, (int64_t)x.min_commit_ts()); }
        if (force) { vh::Count("bank_force_sync"); continue; }
        vh::Count("bank_async_commit_by_other");
      } else commit = 0;
      ResolveKeys(b, r, l.lock_ts(), commit, all);
      return;
    }
    if (commit == 0 && p.lock_ttl() > 0) {
      if (p.action() == ps::MinCommitTSPushed && ignore) { ignore->insert(l.lock_ts()); vh::Count("bank_read_past"); }
      else std::this_thread::yield();
      return;
    }
    if (l.lock_type() == ps::Lock) { GiveBack(b, l); return; }
    ResolveKeys(b, r, l.lock_ts(), commit, {l.key()});
    return;
  }
}
// Reads keys at ts; false if it gave up.
static bool BankRead(Bank& b, vh::Rng& r, int64_t at, const std::vector<std::string>& keys, std::map<std::string, std::string>* out, const char* by) {
  std::set<int64_t> ignore;
  int kind = r.Below(3);
  for (int i = 0; i < 60; ++i) {
    out->clear();
    LockInfo lock;
    bool wait = false;
    auto prep = [&](auto& q) { q.set_start_ts(at); for (auto x : ignore) q.mutable_context()->add_resolved_locks(x); };
    if (kind == 0) {
      for (auto& k : keys) {
        auto q = Req<ps::TxnGetRequest>(b.w.r);
        prep(q);
        q.set_key(k);
        ps::TxnGetResponse p;
        Call(&SI::TxnGet, q, &p);
        if (p.error().errcode() == pb::error::ETXN_MEMORY_LOCK_CONFLICT) { wait = true; break; }
        if (Bad(p, "TxnGet")) return false;
        if (p.txn_result().has_locked()) { lock = p.txn_result().locked(); break; }
        (*out)[k] = p.value();
      }
    } else if (kind == 1) {
      auto q = Req<ps::TxnBatchGetRequest>(b.w.r);
      prep(q);
      for (auto& k : keys) q.add_keys(k);
      ps::TxnBatchGetResponse p;
      Call(&SI::TxnBatchGet, q, &p);
      if (p.error().errcode() == pb::error::ETXN_MEMORY_LOCK_CONFLICT) wait = true;
      else if (Bad(p, "TxnBatchGet")) return false;
      if (p.txn_result().has_locked()) lock = p.txn_result().locked();
      else { for (auto& k : keys) (*out)[k] = ""; for (auto& kv : p.kvs()) (*out)[kv.key()] = kv.value(); }
    } else {
      std::string stream;
      std::map<std::string, std::string> all;
      bool more = true;
      while (more) {
        auto q = Req<ps::TxnScanRequest>(b.w.r);
        prep(q);
        q.mutable_range()->mutable_range()->set_start_key(b.w.pfx);
        q.mutable_range()->mutable_range()->set_end_key(Succ(b.w.pfx));
        q.mutable_range()->set_with_start(true);
        q.set_limit(3);
        q.mutable_stream_meta()->set_stream_id(stream);
        q.mutable_stream_meta()->set_limit(3);
        ps::TxnScanResponse p;
        Call(&SI::TxnScan, q, &p);
        if (p.error().errcode() == pb::error::ETXN_MEMORY_LOCK_CONFLICT) { wait = true; break; }
        if (Bad(p, "TxnScan")) return false;
        for (auto& kv : p.kvs()) { if (all.count(kv.key())) vh::Fail("bank-scan-twice", "a scan returned a key twice"); all[kv.key()] = kv.value(); }
        more = p.has_more();
        stream = p.stream_meta().stream_id();
        if (p.txn_result().has_locked()) { lock = p.txn_result().locked(); break; }
      }
      if (lock.key().empty()) for (auto& k : keys) (*out)[k] = all.count(k) ? all[k] : "";
    }
    if (wait) { vh::Count("bank_memory_locked"); std::this_thread::yield(); continue; }
    if (lock.key().empty()) {
      for (auto& x : *out) b.Note(x.first, at, x.second, kind == 0 ? "TxnGet" : kind == 1 ? "TxnBatchGet" : "TxnScan");
      vh::Count(std::string("bank_") + by);
      return true;
    }
    vh::Count("bank_blocked");
    Clear(b, r, lock, at, &ignore);
  }
  vh::Count("bank_gave_up");
  return false;
}
static void Transfer(Bank& b, vh::Rng& r) {
  Bank::Rec rec;
  bool pess = r.Chance(1, 2), async = r.Chance(1, 3), onepc = !async && r.Chance(1, 3), split = r.Chance(1, 4), big = r.Chance(1, 4);
  int64_t start = b.Begin(), fu = start, ttl = (start >> 18) + (r.Chance(1, 3) ? 1 : 8 + r.Below(20));
  rec.start = start;
  rec.how = Fmt("%s%s%s%s", pess ? "pessimistic" : "optimistic", async ? " async" : "", onepc ? " 1pc" : "", split ? " split" : "");
  auto finish = [&] { { std::lock_guard<std::mutex> l(b.mu); b.recs.push_back(rec); } b.End(start); vh::Count(rec.committed ? "bank_committed" : rec.aborted ? "bank_aborted" : "bank_abandoned"); };
  std::vector<std::string> keys;
  for (auto& k : b.keys) keys.push_back(k);
  for (size_t i = keys.size(); i > 1; --i) std::swap(keys[i - 1], keys[r.Below(i)]);
  keys.resize(2 + r.Below(2));
  const std::string primary = keys[0];
  std::map<std::string, std::string> old;
  if (pess) {
    bool ok = false;
    for (int i = 0; i < 40 && !ok; ++i) {
      auto q = Req<ps::TxnPessimisticLockRequest>(b.w.r);
      if (i) fu = b.Now();
      q.set_primary_lock(primary);
      q.set_start_ts(start);
      q.set_lock_ttl(ttl);
      q.set_for_update_ts(fu);
      q.set_return_values(true);
      for (auto& k : keys) { auto* m = q.add_mutations(); m->set_op(ps::Lock); m->set_key(k); }
      ps::TxnPessimisticLockResponse p;
      Call(&SI::TxnPessimisticLock, q, &p);
      if (Bad(p, "TxnPessimisticLock")) { finish(); return; }
      ok = true;
      for (auto& x : p.txn_result()) { ok = false; if (x.has_locked() && x.locked().lock_ts() != start) Clear(b, r, x.locked(), start, nullptr); }
      if (ok) for (auto& kv : p.kvs()) old[kv.key()] = kv.value();
    }
    if (!ok) rec.aborted = true;
    if (!ok || r.Chance(1, 15)) {  // gives up, or disappears after locking
      if (r.Chance(1, 2)) {
        auto q = Req<ps::TxnPessimisticRollbackRequest>(b.w.r);
        q.set_start_ts(start);
        q.set_for_update_ts(fu);
        for (auto& k : keys) q.add_keys(k);
        ps::TxnPessimisticRollbackResponse p;
        Call(&SI::TxnPessimisticRollback, q, &p);
        Bad(p, "TxnPessimisticRollback");
      }
      rec.aborted = true;
      finish();
      return;
    }
  } else if (!BankRead(b, r, start, keys, &old, "reads")) { rec.aborted = true; finish(); return; }
  int64_t move = 1 + r.Below(20);
  for (size_t i = 0; i < keys.size(); ++i) {
    Acc a = Parse(old[keys[i]]);
    int64_t n = (int64_t)keys.size() - 1;
    a.bal += i == 0 ? -move * n : move;
    a.seq++;
    a.writer = start;
    rec.vals[keys[i]] = Text(a, big);
  }
  int64_t minc = 0, onec = 0;
  bool all_async = true;
  std::vector<ps::TxnPrewriteRequest> reqs;
  size_t cut = split ? 1 : keys.size();
  for (size_t from = 0; from < keys.size(); from += cut) {
    auto q = Req<ps::TxnPrewriteRequest>(b.w.r);
    q.set_primary_lock(primary);
    q.set_start_ts(start);
    q.set_lock_ttl(ttl);
    q.set_txn_size(keys.size());
    q.set_try_one_pc(onepc && !split);
    q.set_use_async_commit(async);
    if (async) for (size_t i = 1; i < keys.size(); ++i) q.add_secondaries(keys[i]);
    if (async || r.Chance(1, 2)) q.set_min_commit_ts(std::max(start, fu) + 1);
    if ((async || onepc) && r.Chance(1, 8)) q.set_max_commit_ts(start + (1 << 13));
    int j = 0;
    for (size_t i = from; i < std::min(keys.size(), from + cut); ++i, ++j) {
      auto* m = q.add_mutations();
      m->set_op(ps::Put);
      m->set_key(keys[i]);
      m->set_value(rec.vals[keys[i]]);
      if (pess) {
        q.add_pessimistic_checks(ps::TxnPrewriteRequest::DO_PESSIMISTIC_CHECK);
        auto* c = q.add_for_update_ts_checks();
        c->set_index(j);
        c->set_expected_for_update_ts(fu);
      }
    }
    reqs.push_back(q);
  }
  bool failed = false;
  for (size_t n = 0; n < reqs.size() && !failed; ++n) {
    bool ok = false;
    for (int i = 0; i < 30 && !ok && !failed; ++i) {
      ps::TxnPrewriteResponse p;
      Call(&SI::TxnPrewrite, reqs[n], &p);
      if (Bad(p, "TxnPrewrite")) { finish(); return; }
      ok = true;
      for (auto& x : p.txn_result()) {
        ok = false;
        if (x.has_locked() && x.locked().lock_ts() != start) Clear(b, r, x.locked(), start, nullptr);
        else failed = true;
      }
      if (!ok) continue;
      if (r.Chance(1, 6)) {  // the answer was lost and the request is repeated
        p.Clear();
        Call(&SI::TxnPrewrite, reqs[n], &p);
        vh::Count("bank_repeated_prewrites");
        if (Bad(p, "TxnPrewrite")) { finish(); return; }
        if (p.txn_result_size()) { ok = false; failed = true; break; }
      }
      if (reqs[n].try_one_pc()) onec = p.one_pc_commit_ts();
      if (p.min_commit_ts()) minc = std::max(minc, (int64_t)p.min_commit_ts()); else all_async = false;
    }
    if (!ok) failed = true;
    if (!failed && n + 1 < reqs.size() && r.Chance(1, 25)) { finish(); return; }  // disappears between its prewrites
  }
  auto late = [&] {
    if (!r.Chance(1, 8)) return;
    ps::TxnPrewriteResponse p;
    Call(&SI::TxnPrewrite, reqs[r.Below(reqs.size())], &p);  // an old copy of the prewrite arrives late
    vh::Count("bank_late_prewrites");
  };
  if (failed) {
    if (!r.Chance(1, 6)) {
      auto q = Req<ps::TxnBatchRollbackRequest>(b.w.r);
      q.set_start_ts(start);
      for (auto& k : keys) q.add_keys(k);
      bool done = false;
      for (int i = 0; i < 20 && !done; ++i) {
        ps::TxnBatchRollbackResponse p;
        Call(&SI::TxnBatchRollback, q, &p);
        if (Bad(p, "TxnBatchRollback")) break;
        if (!p.txn_result().has_locked()) { done = true; break; }
        auto& l = p.txn_result().locked();
        if (l.lock_ts() == start) {
          auto x = Req<ps::TxnPessimisticRollbackRequest>(b.w.r);
          x.set_start_ts(start);
          x.set_for_update_ts(fu);
          for (auto& k : keys) x.add_keys(k);
          ps::TxnPessimisticRollbackResponse y;
          Call(&SI::TxnPessimisticRollback, x, &y);
        } else Clear(b, r, l, start, nullptr);
      }
      rec.aborted = done;
      if (done) late();
    }
    finish();
    return;
  }
  if (onec) {
    rec.committed = true;
    rec.commit = onec;
    late();
    finish();
    return;
  }
  if (async && all_async && minc) { rec.committed = true; rec.commit = minc; }
  if (r.Chance(1, 10)) { finish(); return; }  // disappears after its prewrites
  int64_t commit = rec.committed ? rec.commit : b.Now();
  auto send = [&](const std::vector<std::string>& ks, ps::TxnCommitResponse* p) {
    auto q = Req<ps::TxnCommitRequest>(b.w.r);
    q.set_start_ts(start);
    q.set_commit_ts(commit);
    for (auto& k : ks) q.add_keys(k);
    p->Clear();
    Call(&SI::TxnCommit, q, p);
    return !Bad(*p, "TxnCommit");
  };
  ps::TxnCommitResponse p;
  for (int i = 0;; ++i) {
    if (!send({primary}, &p)) { finish(); return; }
    if (p.txn_result().has_commit_ts_expired() && !rec.committed && i < 20) { commit = b.Now(); vh::Count("bank_commit_pushed"); continue; }
    break;
  }
  if (p.txn_result().ByteSizeLong()) {
    if (rec.committed) vh::Fail("bank-async-refused", Fmt("a %s transaction whose prewrites all succeeded with commit timestamp %s was refused at commit:%s", rec.how.c_str(), Ts(commit).c_str(), ResText(p.txn_result()).c_str()));
    rec.aborted = !rec.committed && !p.txn_result().has_commit_ts_expired();
    finish();
    return;
  }
  if (r.Chance(1, 3) && p.commit_ts()) commit = p.commit_ts();
  rec.committed = true;
  rec.commit = commit;
  if (r.Chance(1, 8)) { finish(); return; }  // disappears after committing the primary
  std::vector<std::string> rest(keys.begin() + 1, keys.end());
  if (send(rest, &p) && p.txn_result().ByteSizeLong()) vh::Fail("bank-secondary-refused", Fmt("a %s transaction's primary is committed but its secondaries are refused:%s", rec.how.c_str(), ResText(p.txn_result()).c_str()));
  late();
  finish();
}
static void Collect(Bank& b, vh::Rng& r) {
  int64_t sp;
  { std::lock_guard<std::mutex> l(b.mu); sp = (b.active.empty() ? b.Now() : *b.active.begin()) - 1; }
  for (int i = 0; i < 5; ++i) {
    auto q = Req<ps::TxnScanLockRequest>(b.w.r);
    q.set_max_ts(sp + 1);
    q.set_start_key(b.w.pfx);
    q.set_end_key(Succ(b.w.pfx));
    q.set_limit(100);
    q.mutable_stream_meta()->set_limit(100);
    ps::TxnScanLockResponse p;
    Call(&SI::TxnScanLock, q, &p);
    if (Bad(p, "TxnScanLock")) return;
    if (!p.locks_size()) {
      Dumped d = DumpTxn(*E().raw, b.w.pfx);
      for (auto& k : d.writes) for (auto& x : k.second) if (x.first <= sp) b.kept[k.first].insert(x);
      for (auto& x : d.data) b.kept_data.insert(x);
      E().meta->GetGCSafePointManager()->SetGcFlagAndSafePointTs({{b.w.r->Definition().tenant_id(), sp}}, false);
      auto g = Req<ps::TxnGcRequest>(b.w.r);
      g.set_safe_point_ts(sp);
      ps::TxnGcResponse gr;
      Call(&SI::TxnGc, g, &gr);
      Bad(gr, "TxnGc");
      vh::Count("bank_gc");
      return;
    }
    for (auto& l : p.locks()) Clear(b, r, l, b.Now(), nullptr);
  }
}
static void BankRound(World& w, vh::Rng& r, int threads, int transfers) {
  Bank b(w);
  b.gc = r.Chance(1, 3);
  int n = 4 + r.Below(5);
  for (int i = 0; i < n; ++i) b.keys.push_back(w.pfx + Fmt("k%d", i));
  {
    auto q = Req<ps::TxnPrewriteRequest>(w.r);
    int64_t s = b.Now();
    q.set_primary_lock(b.keys[0]); q.set_start_ts(s); q.set_lock_ttl((s >> 18) + 1000); q.set_txn_size(n); q.set_try_one_pc(true);
    for (auto& k : b.keys) { auto* m = q.add_mutations(); m->set_op(ps::Put); m->set_key(k); m->set_value(Text({100, 0, s}, false)); }
    ps::TxnPrewriteResponse p;
    Call(&SI::TxnPrewrite, q, &p);
    if (!p.one_pc_commit_ts()) { vh::Fail("bank-setup", "a one-phase transaction on an empty region was refused"); return; }
  }
  uint64_t salt = r.Next();
  std::atomic<uint64_t> calls{0};
  vsrocks::ctl().before_write = [&](const std::string&, const auto&, auto&&...) {
    uint64_t h = vh::Mix(salt, calls.fetch_add(1));
    if (h % 5 == 0) usleep(h / 5 % 150); else if (h % 5 == 1) std::this_thread::yield();
    return true;
  };
  std::atomic<int> left{threads};
  std::vector<std::thread> ts;
  for (int t = 0; t < threads; ++t)
    ts.emplace_back([&, t] {
      vh::Rng q(vh::Mix(salt, 1000 + t));
      for (int i = 0; i < transfers; ++i) {
        if (q.Chance(2, 3)) Transfer(b, q);
        else {
          int64_t at = b.Begin();
          std::map<std::string, std::string> got;
          if (BankRead(b, q, at, b.keys, &got, "snapshots")) {
            int64_t sum = 0;
            for (auto& x : got) sum += Parse(x.second).bal;
            if (sum != 100 * (int64_t)b.keys.size()) vh::Fail("bank-total-read", Fmt("a snapshot at %s shows a total of %ld in %zu accounts of 100", Ts(at).c_str(), (long)sum, b.keys.size()));
          }
          b.End(at);
        }
      }
      --left;
    });
  if (b.gc) ts.emplace_back([&] { vh::Rng q(vh::Mix(salt, 7)); while (left > 0) { Collect(b, q); usleep(500 + q.Below(1500)); } });
  for (auto& t : ts) t.join();
  vsrocks::ctl().before_write = nullptr;
  // every lock that is left is cleared as a client would
  b.ts += 100000LL << 18;
  for (int i = 0;; ++i) {
    auto q = Req<ps::TxnScanLockRequest>(w.r);
    q.set_max_ts(b.Now());
    q.set_start_key(w.pfx);
    q.set_end_key(Succ(w.pfx));
    q.set_limit(100);
    q.mutable_stream_meta()->set_limit(100);
    ps::TxnScanLockResponse p;
    Call(&SI::TxnScanLock, q, &p);
    if (!p.locks_size()) break;
    if (i > 40) { vh::Fail("bank-stuck", Fmt("a lock nobody holds any more cannot be cleared: %s", LockText(p.locks(0)).c_str())); return; }
    for (auto& l : p.locks()) Clear(b, r, l, b.Now(), nullptr);
  }
  Dumped d = DumpTxn(*E().raw, w.pfx);
  Model m;
  m.writes = d.writes;
  m.data = d.data;
  for (auto& k : b.kept) for (auto& x : k.second) m.writes[k.first].insert(x);
  for (auto& x : b.kept_data) m.data.insert(x);
  std::set<int64_t> moments;
  for (auto& k : b.keys) {
    int64_t seq = -1;
    for (auto i = m.writes[k].rbegin(); i != m.writes[k].rend(); ++i) {
      if (i->second.op != ps::Put) continue;
      moments.insert(i->first);
      std::string v;
      m.Visible(k, i->first, &v);
      Acc a = Parse(v);
      if (a.writer != i->second.start) vh::Fail("bank-writer", Fmt("version %s@%s holds the value %s but belongs to the transaction %s", K(k).c_str(), Ts(i->first).c_str(), v.substr(0, 60).c_str(), Ts(i->second.start).c_str()));
      if (a.seq != seq + 1) vh::Fail("bank-lost-update", Fmt("version %s@%s has update number %ld after %ld", K(k).c_str(), Ts(i->first).c_str(), (long)a.seq, (long)seq));
      seq = a.seq;
      vh::Count("bank_versions");
    }
  }
  for (auto t : moments) {
    int64_t sum = 0;
    for (auto& k : b.keys) { std::string v; if (m.Visible(k, t, &v)) sum += Parse(v).bal; }
    if (sum != 100 * (int64_t)b.keys.size()) { vh::Fail("bank-total", Fmt("at %s the total is %ld in %zu accounts of 100", Ts(t).c_str(), (long)sum, b.keys.size())); break; }
  }
  for (auto& x : b.recs) {
    std::set<int64_t> at;
    for (auto& kv : x.vals) {
      int64_t c = m.CommittedAt(kv.first, x.start);
      at.insert(c);
      std::string v;
      if (c && m.Visible(kv.first, c, &v) && v != kv.second) vh::Fail("bank-value", Fmt("the %s transaction %s wrote %s to %s, which holds %s", x.how.c_str(), Ts(x.start).c_str(), kv.second.substr(0, 50).c_str(), K(kv.first).c_str(), v.substr(0, 50).c_str()));
    }
    if (at.size() > 1) { std::string s; for (auto a : at) s += " " + Ts(a); vh::Fail("bank-torn", Fmt("the %s transaction %s has its keys committed at different timestamps (0: not):%s", x.how.c_str(), Ts(x.start).c_str(), s.c_str())); }
    else if (x.committed && *at.begin() != x.commit) {
      std::string h;
      for (auto& kv : x.vals) { h += "; " + K(kv.first) + ":"; for (auto& y : m.writes[kv.first]) if (y.first >= x.start - (1 << 20) && y.first < x.start + (1 << 20)) h += " " + Ts(y.first) + WrText(y.second).substr(0, 40); }
      vh::Sample(x.how + h);
      vh::Fail("bank-ack-lost", Fmt("the %s transaction %s was acknowledged as committed at %s but is %s", x.how.c_str(), Ts(x.start).c_str(), Ts(x.commit).c_str(), *at.begin() ? ("at " + Ts(*at.begin())).c_str() : "not committed"));
    }
    else if (x.aborted && !at.empty() && *at.begin()) vh::Fail("bank-abort-committed", Fmt("the %s transaction %s was refused or rolled back but is committed at %s", x.how.c_str(), Ts(x.start).c_str(), Ts(*at.begin()).c_str()));
    vh::Case(vh::Mix(x.start, x.commit));
  }
  for (auto& x : b.seen) {
    std::string v;
    m.Visible(x.key, x.ts, &v);
    if (v != x.val) vh::Fail("bank-read", Fmt("%s at %s returned %s for %s, but the committed versions say %s", x.by, Ts(x.ts).c_str(), x.val.substr(0, 60).c_str(), K(x.key).c_str(), v.substr(0, 60).c_str()));
    vh::Count("bank_reads_checked");
  }
  if (w.raft)
    for (auto& f : svc::Groups()[w.r->Name()]->followers)
      for (const auto& cf : {Constant::kTxnLockCF, Constant::kTxnWriteCF, Constant::kTxnDataCF})
        if (Under(*f.raw, cf, w.pfx) != Under(*E().raw, cf, w.pfx)) vh::Fail("replica-differs", Fmt("a follower's column family %s differs from the leader's", cf.c_str()));
  g_ts = b.ts;
  NoMemoryLock(w, "a round of transfers");
  vh::Count("bank_rounds");
}
// ---------------------------------------------------------------- requests that must be refused
static std::string Raw(World& w) {
  std::string s;
  for (const auto& cf : {Constant::kTxnLockCF, Constant::kTxnWriteCF, Constant::kTxnDataCF, Constant::kStoreDataCF}) for (auto& x : svc::Dump(*E().raw, cf)) s += cf + x.first + "\x01" + x.second + "\x02";
  if (w.raft) s += std::to_string(svc::Groups()[w.r->Name()]->log.size());
  return s;
}
template <class P>
static std::string Leak(const P& p) {
  std::vector<const google::protobuf::FieldDescriptor*> f;
  p.GetReflection()->ListFields(p, &f);
  for (auto* x : f) if (!x->is_repeated() && x->type() == x->TYPE_MESSAGE && !p.GetReflection()->GetMessage(p, x).ByteSizeLong()) continue; else if (x->name() != "error" && x->name() != "response_info" && x->name() != "stream_meta") return x->name();
  return "";
}
static void Refusals(World& w, World& other, vh::Rng& r, int rounds) {
  static const std::vector<std::pair<pb::common::StoreRegionState, int>> states = {{pb::common::NEW, pb::error::EREGION_NEW}, {pb::common::STANDBY, pb::error::EREGION_STANDBY}, {pb::common::DELETING, pb::error::EREGION_DELETING},
      {pb::common::DELETED, pb::error::EREGION_DELETED}, {pb::common::MERGING, pb::error::EREGION_MERGEING}, {pb::common::ORPHAN, pb::error::EREGION_ORPHAN}, {pb::common::TOMBSTONE, pb::error::EREGION_TOMBSTONE}};
  for (int i = 0; i < rounds; ++i) {
    int kind = r.Below(10), want = 0, pos = r.Below(3);
    std::string key = RandKey(r, w);
    auto old_epoch = w.r->Epoch();
    auto epoch = old_epoch;
    int64_t region = w.r->Id();
    auto state = pb::common::NORMAL;
    switch (kind) {
      case 0: epoch.set_version(epoch.version() + (r.Chance(1, 2) ? 1 : -1)); want = pb::error::EREGION_VERSION; break;
      case 1: epoch.set_conf_version(epoch.conf_version() + (r.Chance(1, 2) ? 1 : -1)); want = pb::error::EREGION_VERSION; break;
      case 2: key = r.Chance(1, 2) ? RandKey(r, other) : r.Chance(1, 2) ? Succ(w.pfx) : w.pfx.substr(0, w.pfx.size() - 1); want = pb::error::EKEY_OUT_OF_RANGE; break;
      case 3: key = ""; want = pb::error::EKEY_EMPTY; break;
      case 4: region = 987654; want = pb::error::EREGION_NOT_FOUND; break;
      case 5: { auto& p = states[r.Below(states.size())]; state = p.first; want = p.second; break; }
      case 6: if (!w.raft) continue; want = pb::error::ERAFT_NOTLEADER; break;
      case 7: want = pb::error::ESYSTEM_CLUSTER_READ_ONLY; break;
      case 8: if (!w.raft) continue; want = pb::error::ERAFT_NOT_CONSISTENT_READ; break;
      case 9: want = pb::error::EILLEGAL_PARAMTETERS; break;
    }
    Txn t = NewTxn(w, r);
    std::string before = Raw(w);
    w.r->SetState(state);
    braft::Node::leader = kind != 6;
    if (kind == 7) (r.Chance(1, 2) ? E().read_only : E().force_read_only) = true;
    if (kind == 8) E().raft->GetNode(w.r->Id())->SetConsistentReadable(false);
    auto ask = [&](const char* what, auto method, auto q, auto* resp) {
      *q.mutable_context()->mutable_region_epoch() = epoch;
      q.mutable_context()->set_region_id(region);
      vh::SetCase(Fmt("%s kind %d position %d: %s", what, kind, pos, q.ShortDebugString().substr(0, 400).c_str()));
      Call(method, q, resp);
      if (resp->error().errcode() != want) vh::Fail(Fmt("guard-%s-%d", what, kind), Fmt("%s must answer %d, answered %d %s", what, want, resp->error().errcode(), resp->error().errmsg().c_str()));
      std::string leak = Leak(*resp);
      if (!leak.empty()) vh::Fail(Fmt("guard-leak-%s-%d", what, kind), Fmt("%s was refused with %d but its answer carries %s", what, want, leak.c_str()));
      if (want == pb::error::EREGION_VERSION) {
        auto& x = resp->error().store_region_info();
        if (x.region_id() != w.r->Id() || x.current_region_epoch().version() != old_epoch.version() || x.current_region_epoch().conf_version() != old_epoch.conf_version()) vh::Fail("guard-epoch-info", Fmt("%s does not carry the region's current epoch", what));
      }
      vh::Count("refusals");
      vh::Count(Fmt("guard_kind_%d", kind));
      vh::Case(vh::Mix(vh::HashStr(what), vh::Mix(kind * 8 + pos, i)));
      std::string now = Raw(w);
      if (now != before) { vh::Fail(Fmt("guard-changed-%s-%d", what, kind), Fmt("%s was refused but the stored data or the log changed", what)); before = now; }
    };
    // the requests as a client would send them but for the offending key
    auto each = [&](auto add) { for (int k = 0; k < 3; ++k) add(k == pos ? key : w.pfx + "guard" + std::to_string(k)); };
    auto pre = Req<ps::TxnPrewriteRequest>(w.r);
    pre.set_primary_lock(w.pfx + "guard0"); pre.set_start_ts(t.start); pre.set_lock_ttl(t.ttl); pre.set_txn_size(3); pre.set_try_one_pc(r.Chance(1, 3)); if (!pre.try_one_pc()) pre.set_use_async_commit(r.Chance(1, 3));
    each([&](const std::string& k) { auto* m = pre.add_mutations(); m->set_op(ps::Put); m->set_key(k); m->set_value("guard"); });
    auto com = Req<ps::TxnCommitRequest>(w.r);
    // of a lock that exists, so that only the cause stands in the way
    std::string lk; int64_t ls = t.start;
    for (auto& l : w.m.locks) if (l.second.lock_type() != ps::Lock && (lk.empty() || r.Chance(1, 2))) { lk = l.first; ls = l.second.lock_ts(); }
    com.set_start_ts(ls); com.set_commit_ts(g_ts + 1);
    for (int k = 0; k < 3; ++k) if (k == pos && kind >= 2 && kind <= 3) com.add_keys(key); else if (!lk.empty()) com.add_keys(lk); else com.add_keys(key);
    auto pl = Req<ps::TxnPessimisticLockRequest>(w.r);
    pl.set_primary_lock(w.pfx + "guard0"); pl.set_start_ts(t.start); pl.set_lock_ttl(t.ttl); pl.set_for_update_ts(t.start); pl.set_return_values(r.Chance(1, 2));
    each([&](const std::string& k) { auto* m = pl.add_mutations(); m->set_op(ps::Lock); m->set_key(k); });
    auto pr = Req<ps::TxnPessimisticRollbackRequest>(w.r);
    pr.set_start_ts(ls); pr.set_for_update_ts(g_ts);
    each([&](const std::string& k) { pr.add_keys(k); });
    auto cs = Req<ps::TxnCheckTxnStatusRequest>(w.r);
    cs.set_primary_key(kind == 2 || kind == 3 || lk.empty() ? key : lk); cs.set_lock_ts(ls); cs.set_caller_start_ts(g_ts); cs.set_current_ts(g_ts + (100000ll << 18)); cs.set_rollback_if_not_exist(true);
    auto ck = Req<ps::TxnCheckSecondaryLocksRequest>(w.r);
    ck.set_start_ts(t.start);
    each([&](const std::string& k) { ck.add_keys(k); });
    auto re = Req<ps::TxnResolveLockRequest>(w.r);
    re.set_start_ts(ls); re.set_commit_ts(0);
    each([&](const std::string& k) { re.add_keys(k == key || lk.empty() ? k : lk); });
    auto rall = Req<ps::TxnResolveLockRequest>(w.r);
    { auto* x = rall.add_txn_infos(); x->set_start_ts(ls); x->set_commit_ts(r.Chance(1, 2) ? 0 : g_ts + 1); }
    auto rb = Req<ps::TxnBatchRollbackRequest>(w.r);
    rb.set_start_ts(ls);
    each([&](const std::string& k) { rb.add_keys(k); });
    auto hb = Req<ps::TxnHeartBeatRequest>(w.r);
    hb.set_primary_lock(kind == 2 || kind == 3 || lk.empty() ? key : lk); hb.set_start_ts(ls); hb.set_advise_lock_ttl((g_ts >> 18) + 100000000);
    auto dr = Req<ps::TxnDeleteRangeRequest>(w.r);
    // a range that reaches out of the region below, above or on both sides, or lies beside it
    std::string lo = w.pfx, hi = Succ(w.pfx);
    if (kind == 2) {
      std::string below = w.pfx;
      for (size_t i = below.size(); i-- && !below[i]--;) {}
      switch (r.Below(4)) {
        case 0: lo = below + "x"; break;
        case 1: hi = Succ(w.pfx) + "a"; break;
        case 2: lo = below; hi = Succ(w.pfx) + "a"; break;
        default: lo = Succ(w.pfx) + "a"; hi = Succ(w.pfx) + "b";
      }
      if (r.Chance(1, 3)) { if (lo == w.pfx) lo += "m"; else if (hi == Succ(w.pfx)) hi = w.pfx + "m"; }
    }
    dr.set_start_key(lo); dr.set_end_key(hi);
    auto gc = Req<ps::TxnGcRequest>(w.r);
    gc.set_safe_point_ts(g_ts);
    auto get = Req<ps::TxnGetRequest>(w.r);
    get.set_key(key); get.set_start_ts(g_ts + 1);
    auto bg = Req<ps::TxnBatchGetRequest>(w.r);
    bg.set_start_ts(g_ts + 1);
    each([&](const std::string& k) { bg.add_keys(k); });
    auto sc = Req<ps::TxnScanRequest>(w.r);
    sc.set_start_ts(g_ts + 1); sc.set_limit(10);
    sc.mutable_range()->mutable_range()->set_start_key(lo); sc.mutable_range()->mutable_range()->set_end_key(hi); sc.mutable_range()->set_with_start(true);
    auto sl = Req<ps::TxnScanLockRequest>(w.r);
    sl.set_max_ts(g_ts + 1); sl.set_limit(10); sl.set_start_key(lo); sl.set_end_key(hi);
#define ASK(name, q) { ps::name##Response p; ask(#name, &SI::name, q, &p); }
    if (kind != 9) {
      bool named = kind == 2 || kind == 3;
      ASK(TxnPrewrite, pre) ASK(TxnCommit, com) ASK(TxnPessimisticLock, pl) ASK(TxnPessimisticRollback, pr) ASK(TxnCheckSecondaryLocks, ck) ASK(TxnResolveLock, re) ASK(TxnBatchRollback, rb)
      if (kind != 3) { ASK(TxnCheckTxnStatus, cs) ASK(TxnHeartBeat, hb) }
      if (!named && kind != 5) { ASK(TxnResolveLock, rall) ASK(TxnGc, gc) }
      if (kind != 3) ASK(TxnDeleteRange, dr)
      if (kind != 7) {
        ASK(TxnGet, get) ASK(TxnBatchGet, bg)
        if (kind != 3) ASK(TxnScan, sc)
        if (kind != 3 && kind != 5) ASK(TxnScanLock, sl)
      }
    } else {
      // what a request cannot do without
#define BAD(name, q, edit) { auto x = q; x.edit; ASK(name, x) }
      BAD(TxnPrewrite, pre, set_start_ts(0)) BAD(TxnPrewrite, pre, clear_primary_lock()) BAD(TxnPrewrite, pre, set_lock_ttl(0)) BAD(TxnPrewrite, pre, clear_mutations())
      BAD(TxnPrewrite, pre, add_pessimistic_checks(ps::TxnPrewriteRequest::SKIP_PESSIMISTIC_CHECK))
      BAD(TxnCommit, com, set_start_ts(0)) BAD(TxnCommit, com, set_commit_ts(0)) BAD(TxnCommit, com, clear_keys()) BAD(TxnCommit, com, set_commit_ts(ls - 1))
      BAD(TxnPessimisticLock, pl, set_start_ts(0)) BAD(TxnPessimisticLock, pl, set_for_update_ts(0)) BAD(TxnPessimisticLock, pl, set_lock_ttl(0)) BAD(TxnPessimisticLock, pl, clear_primary_lock()) BAD(TxnPessimisticLock, pl, clear_mutations())
      BAD(TxnPessimisticLock, pl, mutable_mutations(pos)->set_op(r.Chance(1, 2) ? ps::Put : ps::Delete)) BAD(TxnPessimisticLock, pl, mutable_mutations(pos)->set_value(std::string(8193, 'v')))
      BAD(TxnPessimisticRollback, pr, set_start_ts(0)) BAD(TxnPessimisticRollback, pr, set_for_update_ts(0)) BAD(TxnPessimisticRollback, pr, clear_keys())
      BAD(TxnCheckTxnStatus, cs, clear_primary_key()) BAD(TxnCheckTxnStatus, cs, set_lock_ts(0)) BAD(TxnCheckTxnStatus, cs, set_caller_start_ts(0)) BAD(TxnCheckTxnStatus, cs, set_current_ts(0))
      BAD(TxnCheckSecondaryLocks, ck, set_start_ts(0)) BAD(TxnCheckSecondaryLocks, ck, clear_keys())
      BAD(TxnBatchRollback, rb, set_start_ts(0)) BAD(TxnBatchRollback, rb, clear_keys())
      BAD(TxnHeartBeat, hb, set_start_ts(0)) BAD(TxnHeartBeat, hb, clear_primary_lock()) BAD(TxnHeartBeat, hb, set_advise_lock_ttl(0))
      BAD(TxnResolveLock, rall, mutable_txn_infos(0)->set_commit_ts(ls)) BAD(TxnResolveLock, rall, mutable_txn_infos(0)->set_commit_ts(-1))
      BAD(TxnGc, gc, set_safe_point_ts(0))
      BAD(TxnBatchGet, bg, set_start_ts(0)) BAD(TxnBatchGet, bg, clear_keys())
      BAD(TxnScan, sc, set_limit(0)) BAD(TxnScan, sc, set_limit(-1)) BAD(TxnScan, sc, set_limit(g_page + 1)) BAD(TxnScan, sc, set_start_ts(-1))
      BAD(TxnScanLock, sl, set_max_ts(0)) BAD(TxnScanLock, sl, set_limit(0)) BAD(TxnScanLock, sl, set_limit(g_page + 1)) BAD(TxnScanLock, sl, clear_start_key()) BAD(TxnScanLock, sl, clear_end_key()) BAD(TxnScanLock, sl, set_end_key(sl.start_key()))
    }
    w.r->SetState(pb::common::NORMAL);
    braft::Node::leader = true;
    E().read_only = E().force_read_only = false;
    if (kind == 8) E().raft->GetNode(w.r->Id())->SetConsistentReadable(true);
    w.m.access = std::max(w.m.access, w.r->TxnAccessMaxTs());
    NoMemoryLock(w, "a request");
    CompareState(w, Fmt("requests refused for cause %d", kind));
  }
}
// The storage or the raft group fails a request's writes: it must say so and change nothing.
static void Failures(World& w, vh::Rng& r, Pool& p, int steps) {
  for (int i = 0; i < steps; ++i) {
    while (p.live.size() < 4) p.live.push_back(NewTxn(w, r));
    std::vector<Op> ops;
    g_keep = &ops;
    Txn& t = p.live[r.Below(p.live.size())];
    switch (r.Below(6)) {
      case 0: case 1: StepPrewrite(w, r, t); break;
      case 2: StepCommit(w, r, t); break;
      case 3: if (t.pess && !t.commit) StepPessLock(w, r, t); break;
      default: StepOther(w, r, p);
    }
    g_keep = nullptr;
    if (ops.empty()) continue;
    Op& a = ops[0];
    World o = w;
    std::string want = a.model(o);
    bool fail = w.raft && r.Chance(1, 2);  // a write the storage itself refuses stops the process on purpose
    bool writes = StateText(o.m) != StateText(w.m);
    vh::SetCase(a.desc + (fail ? " with failing writes" : ""));
    if (getenv("TRACE")) fprintf(stderr, "TRACE %d %s fail %d want %s\n", (int)w.r->Id(), a.desc.c_str(), fail, want.c_str());
    std::atomic<int> failed{0};
    if (fail) {
      auto& g = *svc::Groups()[w.r->Name()];
      g.refused = 0;
      g.refuse = true;
    }
    std::string got = a.send();
    if (fail) {
      auto& g = *svc::Groups()[w.r->Name()];
      g.refuse = false;
      failed = (int)g.refused;
    }
    vh::Case(vh::Mix(vh::HashStr(a.desc), fail));
    if (!fail || !failed) {
      if (got != want) vh::Fail("answer-" + a.what, Fmt("%s answered [%s], expected [%s]", a.desc.c_str(), got.c_str(), want.c_str()));
      if (fail && writes) vh::Fail("fail-unwritten-" + a.what, Fmt("%s answered [%s] without writing anything", a.desc.c_str(), got.c_str()));
      w = o;
    } else {
      vh::Count("failed_" + a.what);
      if (got.compare(0, 3, "err")) vh::Fail("fail-hidden-" + a.what, Fmt("%s answered [%s] although none of its %d writes was stored", a.desc.c_str(), got.c_str(), (int)failed));
      w.m.access = std::max(o.m.access, w.m.access);
    }
    CompareState(w, a.desc + (fail ? " (failed)" : ""));
    if (fail) NoMemoryLock(w, a.desc.c_str());
    for (auto& x : p.live) {
      x.prewritten.clear(); x.locked.clear();
      for (auto& k : x.keys) { LockInfo* l = w.m.Lock(k.first); if (l && l->lock_ts() == x.start) (l->lock_type() == ps::Lock ? x.locked : x.prewritten).insert(k.first); if (w.m.CommittedAt(k.first, x.start)) { x.prewritten.insert(k.first); x.committed.insert(k.first); x.commit = w.m.CommittedAt(k.first, x.start); } }
      if (w.m.Rolled(x.primary, x.start)) x.doomed = true;
    }
    size_t ti = r.Below(p.live.size());
    if (r.Chance(1, 4) && (!p.live[ti].committed.empty() || p.live[ti].doomed || r.Chance(1, 4))) { p.old.push_back(p.live[ti]); if (p.old.size() > 20) p.old.erase(p.old.begin()); p.live.erase(p.live.begin() + ti); }
  }
}
// ---- MAIN
int main(int argc, char** argv) {
  vh::Init(argc, argv);
  std::string mode = vh::Arg("mode", "write");
  Start("store", vh::Arg("scratch", "/tmp/x") + "/db");
  svc::StartService();
  vh::Rng r(vh::Seed());
  static const std::map<std::string, Weights> kinds = {
      {"write", {6, 8, 1, 2, 2, 0, 0, 0, 0}}, {"life", {5, 3, 2, 9, 1, 0, 0, 0, 0}}, {"pess", {4, 4, 9, 3, 1, 0, 0, 0, 0}},
      {"read", {5, 5, 2, 2, 6, 9, 0, 0, 1}}, {"gc", {24, 40, 4, 6, 4, 0, 6, 1, 3}}};
  if (kinds.count(mode)) {
    int64_t id = 0x1000;
    int n = vh::N(60, 600);
    for (int e = 0; e < n; ++e) {
      World w = NewWorld(id++, e % 2, e % 2 ? 1 : 0);
      gflags::SetCommandLineOption("stream_message_max_limit_size", std::to_string(g_page = r.Chance(1, 3) ? 2 + r.Below(4) : 40960).c_str());
      Episode(w, r, kinds.at(mode), 400);
      NoMemoryLock(w, "an episode");
      vh::Count("episodes");
    }
  } else if (mode == "overlap") {
    int n = vh::N(40, 500);
    if (vh::Arg("few", "") != "") n /= 3;
    for (int i = 0; i < n; ++i) {
      World w = NewWorld(0x1000 + i, i % 2, i % 2 ? 1 : 0);
      OverlapEpisode(w, r, 150, vh::Arg("late") == "1");
      vh::Count("episodes");
    }
  } else if (mode == "bank") {
    int n = vh::N(60, 900);
    if (vh::Arg("few", "") != "") n /= 3;
    for (int i = 0; i < n; ++i) {
      World w = NewWorld(0x1000 + i, i % 2, i % 2 ? 1 : 0);
      vh::SetCase(Fmt("bank round %d", i));
      BankRound(w, r, 5, 60);
    }
  } else if (mode == "guard") {
    int n = vh::N(8, 120);
    for (int i = 0; i < n; ++i) {
      World w = NewWorld(0x1000 + 2 * i, i % 2, i % 2 ? 1 : 0), other = NewWorld(0x1001 + 2 * i, i % 2, 0);
      Pool p;
      for (int k = 0; k < 8; ++k) { Failures(w, r, p, 60); Refusals(w, other, r, 10); }
      vh::Count("episodes");
    }
  } else vh::Broken("mode");
  return vh::Finish();
}
