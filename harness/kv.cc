// Raw key-value requests through the real store service: sequential semantics, scans, guards, replicas, concurrency.
#include <algorithm>
#include <thread>

#include "mvcc/codec.h"
#include "scan/scan_manager.h"
#include "svc.h"
using namespace dingodb;
using namespace senv;
using svc::Call;
using svc::Req;
using vh::Fmt;
using SI = StoreServiceImpl;
namespace ps = pb::store;

static int64_t NowMs() { return std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::system_clock::now().time_since_epoch()).count(); }
static std::string Next(std::string p) {  // the first key after every key with prefix p
  while (!p.empty() && (unsigned char)p.back() == 0xff) p.pop_back();
  if (!p.empty()) p.back()++;
  return p;
}

static std::string g_tr;
static void SC(const std::string& s) { g_tr = s; vh::SetCase(s); }
struct Val {
  bool present{false};
  std::string v;
  int64_t exp_lo{0}, exp_hi{0};  // 0: never
};
struct Model {
  std::map<std::string, Val> cur;
  // 1 visible, 0 not, -1 cannot tell
  static int Vis(const Val& v, int64_t t0, int64_t t1) {
    if (!v.present) return 0;
    if (!v.exp_lo) return 1;
    if (t1 <= v.exp_lo) return 1;
    if (t0 > v.exp_hi) return 0;
    return -1;
  }
};
struct World {
  store::RegionPtr r;
  std::string pfx;
  Model m;
  struct Past { int64_t ts; std::map<std::string, Val> state; };
  std::vector<Past> past;
  bool raft{false};
};

static std::string Show(const std::string& s) { return s.size() > 40 ? Fmt("%zu bytes %s..", s.size(), vh::Hex(s.substr(0, 12)).c_str()) : "0x" + vh::Hex(s); }
static std::string RandKey(vh::Rng& r, const World& w) {
  static const std::vector<std::string> tails = {"", std::string(1, 0), "a", "b", "aa", "ab", std::string("a\0", 2), std::string("a\0\0", 3), "a\xff", "a\xff\xff", "\xff", "\xff\xff", "abcdefg", "abcdefgh", "abcdefghi", std::string("abcdefgh\0", 9),
                                                 "abcdefgh\xff", "abcdefghabcdefgh", "abcdefghabcdefghi", "b\x01", "c", "m", "n", "z"};
  if (r.Chance(9, 10)) return w.pfx + r.Pick(tails);
  return w.pfx + r.Bytes(1 + r.Below(20));
}
static std::string RandVal(vh::Rng& r) {
  switch (r.Below(8)) {
    case 0: return "";
    case 1: return std::string(1, (char)r.Below(4));
    case 2: return r.Bytes(300 + r.Below(300));
    default: return Fmt("v%u", (unsigned)r.Below(1000000));
  }
}
static void Want(bool ok, const char* key, const std::string& d) { if (!ok) vh::Fail(key, d); }
template <class R>
static bool Ok(const R& resp, const char* what) {
  if (resp.error().errcode() == 0) return true;
  vh::Fail(Fmt("unexpected-error-%s", what), Fmt("%s answered %d %s", what, resp.error().errcode(), resp.error().errmsg().c_str()));
  return false;
}
static Val Put(const std::string& v, int64_t ttl, int64_t t0, int64_t t1) {
  Val x;
  x.present = true;
  x.v = v;
  if (ttl) { x.exp_lo = t0 + ttl; x.exp_hi = t1 + ttl; }
  return x;
}
static int64_t RandTtl(vh::Rng& r, bool* expires) {
  *expires = false;
  if (!r.Chance(1, 6)) return 0;
  if (r.Chance(1, 2)) return 3600 * 1000;
  *expires = true;
  return 1 + r.Below(2);
}
static void Expire() { std::this_thread::sleep_for(std::chrono::milliseconds(6)); }

// Compares one read of `keys` at `ts` (0: now) with the expected state.
static void CheckGets(World& w, vh::Rng& r, const std::map<std::string, Val>& st, int64_t ts) {
  auto one = [&](const std::string& k) {
    auto q = Req<ps::KvGetRequest>(w.r);
    q.set_key(k);
    q.set_ts(ts);
    ps::KvGetResponse resp;
    int64_t t0 = NowMs();
    Call(&SI::KvGet, q, &resp);
    int64_t t1 = NowMs();
    if (!Ok(resp, "KvGet")) return;
    auto it = st.find(k);
    int vis = it == st.end() ? 0 : Model::Vis(it->second, t0, t1);
    if (vis < 0) return;
    std::string want = vis ? it->second.v : "";
    if (resp.value() != want)
      vh::Fail(ts ? "get-at-ts" : "get", Fmt("KvGet(%s, ts %ld) returned %s, the last write there is %s", Show(k).c_str(), (long)ts, Show(resp.value()).c_str(), vis ? Show(want).c_str() : "a delete or nothing"));
    vh::Count(ts ? "reads_at_ts" : "reads");
  };
  for (int i = 0; i < 2; ++i) one(RandKey(r, w));
  auto q = Req<ps::KvBatchGetRequest>(w.r);
  std::vector<std::string> keys;
  int n = 1 + r.Below(5);
  for (int i = 0; i < n; ++i) { keys.push_back(RandKey(r, w)); q.add_keys(keys.back()); }
  q.set_ts(ts);
  ps::KvBatchGetResponse resp;
  int64_t t0 = NowMs();
  Call(&SI::KvBatchGet, q, &resp);
  int64_t t1 = NowMs();
  if (!Ok(resp, "KvBatchGet")) return;
  std::vector<std::pair<std::string, std::string>> want, got;
  for (auto& k : keys) {
    auto it = st.find(k);
    int vis = it == st.end() ? 0 : Model::Vis(it->second, t0, t1);
    if (vis < 0) return;
    if (vis) want.push_back({k, it->second.v});
  }
  for (auto& kv : resp.kvs()) got.push_back({kv.key(), kv.value()});
  if (got != want) vh::Fail("batch-get", Fmt("KvBatchGet of %zu keys at ts %ld returned %zu pairs, expected %zu", keys.size(), (long)ts, got.size(), want.size()));
  vh::Count("batch_reads");
}

struct RangeSpec { pb::common::RangeWithOptions r; std::string lo, hi; };
static RangeSpec RandRange(World& w, vh::Rng& r) {
  RangeSpec s;
  std::string a, b;
  do { a = RandKey(r, w); b = RandKey(r, w); if (b < a) std::swap(a, b); } while (a == b);
  if (r.Chance(1, 6)) a = w.pfx;
  s.r.mutable_range()->set_start_key(a);
  s.r.mutable_range()->set_end_key(b);
  s.r.set_with_start(r.Chance(3, 4));
  s.r.set_with_end(r.Chance(1, 3));
  s.lo = s.r.with_start() ? a : Next(a);
  s.hi = s.r.with_end() ? Next(b) : b;
  return s;
}
using Pairs = std::vector<std::pair<std::string, std::string>>;
// expected content of a range; false when an expiry makes it ambiguous
static bool Expect(const std::map<std::string, Val>& st, const std::string& lo, const std::string& hi, int64_t t0, int64_t t1, Pairs* out) {
  for (auto it = st.lower_bound(lo); it != st.end() && it->first < hi; ++it) {
    int vis = Model::Vis(it->second, t0, t1);
    if (vis < 0) return false;
    if (vis) out->push_back({it->first, it->second.v});
  }
  return true;
}

struct Scan {
  int ver;
  std::string id1;
  int64_t id2{0};
  RangeSpec spec;
  bool key_only, no_release;
  Pairs want, got;
  bool ambiguous{false}, more{true};
  int64_t ts{0};
};
static int64_t g_scan_id = 1;
static bool Begin(World& w, vh::Rng& r, Scan& s, const std::map<std::string, Val>& st, int64_t ts, int64_t fetch) {
  s.ver = 1 + r.Below(2);
  s.spec = RandRange(w, r);
  s.key_only = r.Chance(1, 4);
  s.no_release = r.Chance(1, 3);
  s.ts = ts;
  int64_t t0 = NowMs();
  Pairs page;
  if (s.ver == 1) {
    auto q = Req<ps::KvScanBeginRequest>(w.r);
    *q.mutable_range() = s.spec.r;
    q.set_max_fetch_cnt(fetch);
    q.set_key_only(s.key_only);
    q.set_disable_auto_release(s.no_release);
    q.set_disable_coprocessor(true);
    q.set_ts(ts);
    ps::KvScanBeginResponse resp;
    Call(&SI::KvScanBegin, q, &resp);
    if (s.spec.lo >= s.spec.hi) { Want(resp.kvs_size() == 0 && resp.error().errcode() == 0 && resp.scan_id().empty(), "scan-empty-range", "a scan of an empty range returned something"); return false; }
    if (!Ok(resp, "KvScanBegin")) return false;
    s.id1 = resp.scan_id();
    for (auto& kv : resp.kvs()) page.push_back({kv.key(), kv.value()});
  } else {
    auto q = Req<ps::KvScanBeginRequestV2>(w.r);
    *q.mutable_range() = s.spec.r;
    q.set_max_fetch_cnt(fetch);
    q.set_key_only(s.key_only);
    q.set_disable_auto_release(s.no_release);
    q.set_scan_id(s.id2 = g_scan_id++);
    q.set_ts(ts);
    ps::KvScanBeginResponseV2 resp;
    Call(&SI::KvScanBeginV2, q, &resp);
    if (s.spec.lo >= s.spec.hi) { Want(resp.kvs_size() == 0 && resp.error().errcode() == 0, "scan-empty-range", "a scan of an empty range returned something"); return false; }
    if (!Ok(resp, "KvScanBeginV2")) return false;
    Want(resp.scan_id() == s.id2, "scan-id", "KvScanBeginV2 answered another scan id");
    for (auto& kv : resp.kvs()) page.push_back({kv.key(), kv.value()});
  }
  int64_t t1 = NowMs();
  Want((int64_t)page.size() <= fetch, "scan-fetch-count", Fmt("a page of %zu for max_fetch_cnt %ld", page.size(), (long)fetch));
  s.ambiguous = !Expect(st, s.spec.lo, s.spec.hi, t0, t1, &s.want);
  if (s.key_only) for (auto& p : s.want) p.second.clear();
  s.got = page;
  vh::Count("scans");
  return true;
}
static bool More(World& w, Scan& s, int64_t fetch, bool expect_err = false) {
  Pairs page;
  if (s.ver == 1) {
    auto q = Req<ps::KvScanContinueRequest>(w.r);
    q.set_scan_id(s.id1);
    q.set_max_fetch_cnt(fetch);
    ps::KvScanContinueResponse resp;
    Call(&SI::KvScanContinue, q, &resp);
    if (expect_err) { Want(resp.error().errcode() != 0 && !resp.kvs_size(), "scan-after-release", "KvScanContinue after the release still answers"); return false; }
    if (!Ok(resp, "KvScanContinue")) return false;
    for (auto& kv : resp.kvs()) page.push_back({kv.key(), kv.value()});
    s.more = !page.empty();
  } else {
    auto q = Req<ps::KvScanContinueRequestV2>(w.r);
    q.set_scan_id(s.id2);
    q.set_max_fetch_cnt(fetch);
    ps::KvScanContinueResponseV2 resp;
    Call(&SI::KvScanContinueV2, q, &resp);
    if (expect_err) { Want(resp.error().errcode() != 0 && !resp.kvs_size(), "scan-after-release", "KvScanContinueV2 after the release still answers"); return false; }
    if (!Ok(resp, "KvScanContinueV2")) return false;
    for (auto& kv : resp.kvs()) page.push_back({kv.key(), kv.value()});
    if (!s.ambiguous && s.got.size() + page.size() < s.want.size()) Want(resp.has_more(), "scan-has-more", "has_more is false with keys left to return");
    s.more = resp.has_more();
  }
  Want((int64_t)page.size() <= fetch, "scan-fetch-count", Fmt("a page of %zu for max_fetch_cnt %ld", page.size(), (long)fetch));
  s.got.insert(s.got.end(), page.begin(), page.end());
  vh::Count("scan_pages");
  return true;
}
static void Release(World& w, Scan& s) {
  if (s.ver == 1) {
    auto q = Req<ps::KvScanReleaseRequest>(w.r);
    q.set_scan_id(s.id1);
    ps::KvScanReleaseResponse resp;
    Call(&SI::KvScanRelease, q, &resp);
    Ok(resp, "KvScanRelease");
  } else {
    auto q = Req<ps::KvScanReleaseRequestV2>(w.r);
    q.set_scan_id(s.id2);
    ps::KvScanReleaseResponseV2 resp;
    Call(&SI::KvScanReleaseV2, q, &resp);
    Ok(resp, "KvScanReleaseV2");
  }
}
static void CheckScan(Scan& s) {
  if (s.ambiguous) return;
  if (s.got == s.want) return;
  size_t i = 0;
  while (i < s.got.size() && i < s.want.size() && s.got[i] == s.want[i]) ++i;
  vh::Fail(s.ts ? "scan-at-ts" : "scan", Fmt("scan v%d of [%s, %s) ts %ld key_only %d: got %zu pairs, expected %zu; first difference at %zu: got %s, expected %s", s.ver, Show(s.spec.lo).c_str(), Show(s.spec.hi).c_str(), (long)s.ts, s.key_only,
                                             s.got.size(), s.want.size(), i, i < s.got.size() ? (Show(s.got[i].first) + "=" + Show(s.got[i].second)).c_str() : "end", i < s.want.size() ? (Show(s.want[i].first) + "=" + Show(s.want[i].second)).c_str() : "end"));
}

// One random write, applied to the model. Returns a signature of what was exercised.
static uint64_t Write(World& w, vh::Rng& r) {
  auto& cur = w.m.cur;
  bool expires = false;
  int64_t ttl = 0, ts = 0;
  int op = r.Below(20);
  std::string desc;
  auto distinct = [&](int n) {
    std::set<std::string> ks;
    for (int i = 0; i < n * 2 && (int)ks.size() < n; ++i) ks.insert(RandKey(r, w));
    std::vector<std::string> v(ks.begin(), ks.end());
    for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[r.Below(i)]);
    return v;
  };
  auto vis = [&](const std::string& k, int64_t t0, int64_t t1) { auto it = cur.find(k); return it == cur.end() ? 0 : Model::Vis(it->second, t0, t1); };
  uint64_t sig = op;
  std::string tr;
  auto trk = [&](const std::string& k, int64_t ttl) { if (getenv("TR")) tr += Fmt(" %s/%ld", Show(k).c_str(), (long)ttl); };
  int64_t t0 = NowMs(), t1;
  if (op < 5) {
    auto q = Req<ps::KvPutRequest>(w.r);
    auto k = RandKey(r, w), v = RandVal(r);
    q.mutable_kv()->set_key(k);
    q.mutable_kv()->set_value(v);
    q.set_ttl(ttl = RandTtl(r, &expires));
    desc = "KvPut " + Show(k);
    SC(desc);
    ps::KvPutResponse resp;
    Call(&SI::KvPut, q, &resp);
    t1 = NowMs();
    if (Ok(resp, "KvPut")) { trk(k, ttl); cur[k] = Put(v, ttl, t0, t1); ts = resp.ts(); }
    sig = vh::Mix(sig, vh::HashStr(k + v));
  } else if (op < 8) {
    auto q = Req<ps::KvBatchPutRequest>(w.r);
    q.set_ttl(ttl = RandTtl(r, &expires));
    std::vector<std::pair<std::string, std::string>> kv;
    for (auto& k : distinct(1 + r.Below(6))) { kv.push_back({k, RandVal(r)}); auto* p = q.add_kvs(); p->set_key(k); p->set_value(kv.back().second); sig = vh::Mix(sig, vh::HashStr(k)); }
    SC(Fmt("KvBatchPut of %zu", kv.size()));
    ps::KvBatchPutResponse resp;
    Call(&SI::KvBatchPut, q, &resp);
    t1 = NowMs();
    if (Ok(resp, "KvBatchPut")) { for (auto& p : kv) trk(p.first, ttl), cur[p.first] = Put(p.second, ttl, t0, t1); ts = resp.ts(); }
  } else if (op < 11) {
    auto q = Req<ps::KvBatchDeleteRequest>(w.r);
    auto ks = distinct(1 + r.Below(5));
    for (auto& k : ks) { q.add_keys(k); sig = vh::Mix(sig, vh::HashStr(k)); }
    SC(Fmt("KvBatchDelete of %zu", ks.size()) + (getenv("TR") ? [&] { std::string x; for (auto& k : ks) x += " " + Show(k); return x; }() : ""));
    ps::KvBatchDeleteResponse resp;
    Call(&SI::KvBatchDelete, q, &resp);
    t1 = NowMs();
    if (Ok(resp, "KvBatchDelete")) {
      Want(resp.key_states_size() == (int)ks.size(), "delete-states", "KvBatchDelete answers another number of key states");
      for (int i = 0; i < (int)ks.size() && i < resp.key_states_size(); ++i) {
        int x = vis(ks[i], t0, t1);
        if (x >= 0) Want(resp.key_states(i) == (x == 1), "delete-states", Fmt("KvBatchDelete says %s was %s", Show(ks[i]).c_str(), resp.key_states(i) ? "present" : "absent"));
      }
      for (auto& k : ks) cur[k] = Val();
    }
  } else if (op < 14) {
    bool batch = r.Chance(2, 3), atomic = r.Chance(1, 2);
    auto ks = distinct(batch ? 1 + r.Below(5) : 1);
    std::vector<std::string> vs;
    for (size_t i = 0; i < ks.size(); ++i) { vs.push_back(RandVal(r)); sig = vh::Mix(sig, vh::HashStr(ks[i])); }
    ttl = RandTtl(r, &expires);
    SC(Fmt("%s of %zu atomic %d", batch ? "KvBatchPutIfAbsent" : "KvPutIfAbsent", ks.size(), atomic));
    std::vector<int> got;
    bool ok;
    if (batch) {
      auto q = Req<ps::KvBatchPutIfAbsentRequest>(w.r);
      for (size_t i = 0; i < ks.size(); ++i) { auto* p = q.add_kvs(); p->set_key(ks[i]); p->set_value(vs[i]); }
      q.set_is_atomic(atomic);
      q.set_ttl(ttl);
      ps::KvBatchPutIfAbsentResponse resp;
      Call(&SI::KvBatchPutIfAbsent, q, &resp);
      ok = Ok(resp, "KvBatchPutIfAbsent");
      for (bool b : resp.key_states()) got.push_back(b);
      ts = resp.ts();
    } else {
      auto q = Req<ps::KvPutIfAbsentRequest>(w.r);
      q.mutable_kv()->set_key(ks[0]);
      q.mutable_kv()->set_value(vs[0]);
      q.set_ttl(ttl);
      ps::KvPutIfAbsentResponse resp;
      Call(&SI::KvPutIfAbsent, q, &resp);
      ok = Ok(resp, "KvPutIfAbsent");
      got.push_back(resp.key_state());
      ts = resp.ts();
    }
    t1 = NowMs();
    if (ok) {
      std::vector<int> want;
      bool all = true, amb = false;
      for (auto& k : ks) { int x = vis(k, t0, t1); amb |= x < 0; want.push_back(x == 0); all &= x == 0; }
      if (batch && atomic && !all) want.assign(ks.size(), 0);
      if (!amb && got != want) vh::Fail("put-if-absent-states", Fmt("%zu keys atomic %d: states differ from the keys that were absent", ks.size(), atomic));
      for (size_t i = 0; i < ks.size() && i < got.size(); ++i) if (got[i]) trk(ks[i], ttl), cur[ks[i]] = Put(vs[i], ttl, t0, t1);
      vh::Count(all ? "put_if_absent_all" : "put_if_absent_some_present");
    }
  } else if (op < 18) {
    bool batch = r.Chance(2, 3), atomic = r.Chance(1, 2);
    auto ks = distinct(batch ? 1 + r.Below(4) : 1);
    ttl = RandTtl(r, &expires);
    std::vector<std::string> vs, es;
    for (auto& k : ks) {
      vs.push_back(RandVal(r));
      int x = vis(k, t0, t0);
      if (r.Chance(3, 4)) es.push_back(x == 1 ? cur[k].v : "");
      else es.push_back(RandVal(r));
      sig = vh::Mix(sig, vh::HashStr(k + es.back()));
    }
    SC(Fmt("%s of %zu atomic %d", batch ? "KvBatchCompareAndSet" : "KvCompareAndSet", ks.size(), atomic));
    std::vector<int> got;
    int err;
    if (batch) {
      auto q = Req<ps::KvBatchCompareAndSetRequest>(w.r);
      for (size_t i = 0; i < ks.size(); ++i) { auto* p = q.add_kvs(); p->set_key(ks[i]); p->set_value(vs[i]); q.add_expect_values(es[i]); }
      q.set_is_atomic(atomic);
      ttl = 0;
      ps::KvBatchCompareAndSetResponse resp;
      Call(&SI::KvBatchCompareAndSet, q, &resp);
      err = resp.error().errcode();
      for (bool b : resp.key_states()) got.push_back(b);
      ts = resp.ts();
    } else {
      auto q = Req<ps::KvCompareAndSetRequest>(w.r);
      q.mutable_kv()->set_key(ks[0]);
      q.mutable_kv()->set_value(vs[0]);
      q.set_expect_value(es[0]);
      q.set_ttl(ttl);
      ps::KvCompareAndSetResponse resp;
      Call(&SI::KvCompareAndSet, q, &resp);
      err = resp.error().errcode();
      got.push_back(resp.key_state());
      ts = resp.ts();
    }
    t1 = NowMs();
    std::vector<int> want;
    bool all = true, amb = false;
    for (size_t i = 0; i < ks.size(); ++i) {
      int x = vis(ks[i], t0, t1);
      amb |= x < 0;
      bool match = x == 1 ? cur[ks[i]].v == es[i] : es[i].empty();
      want.push_back(match);
      all &= match;
    }
    if (err && err != pb::error::EKEY_NOT_FOUND) vh::Fail("unexpected-error-cas", Fmt("compare-and-set answered %d", err));
    if (err) got.assign(ks.size(), 0);
    if ((!batch || atomic) && !all) want.assign(ks.size(), 0);
    got.resize(ks.size());
    if (!amb && got != want) vh::Fail("cas-states", Fmt("%zu keys atomic %d: states differ from the keys that held their expected value", ks.size(), atomic));
    if (!amb && err) Want(!all, "cas-error", "an error although every key held its expected value");
    for (size_t i = 0; i < ks.size(); ++i) if (got[i]) { trk(ks[i], ttl); if (vs[i].empty()) cur[ks[i]] = Val(); else cur[ks[i]] = Put(vs[i], ttl, t0, t1); }
    vh::Count(all ? "cas_match" : "cas_mismatch");
  } else {
    auto s = RandRange(w, r);
    auto q = Req<ps::KvDeleteRangeRequest>(w.r);
    *q.mutable_range() = s.r;
    SC(Fmt("KvDeleteRange [%s, %s)", Show(s.lo).c_str(), Show(s.hi).c_str()));
    ps::KvDeleteRangeResponse resp;
    Call(&SI::KvDeleteRange, q, &resp);
    t1 = NowMs();
    if (Ok(resp, "KvDeleteRange") && s.lo < s.hi) {
      for (auto it = cur.lower_bound(s.lo); it != cur.end() && it->first < s.hi;) it = cur.erase(it);
      w.past.clear();
      vh::Count("range_deletes");
    }
    sig = vh::Mix(sig, vh::HashStr(s.lo + s.hi));
  }
  if (ts > 0 && r.Chance(1, 3)) {
    w.past.push_back({ts, cur});
    if (w.past.size() > 24) w.past.erase(w.past.begin() + r.Below(w.past.size()));
  }
  if (getenv("TR")) fprintf(stderr, "TR op %d ts %ld %s\n", op, (long)ts, (g_tr + tr).c_str());
  if (expires) Expire();
  vh::Count("writes");
  return sig;
}

static void FullCheck(World& w, vh::Rng& r) {
  Scan s;
  s.ver = 1;
  auto q = Req<ps::KvScanBeginRequest>(w.r);
  q.mutable_range()->mutable_range()->set_start_key(w.pfx);
  q.mutable_range()->mutable_range()->set_end_key(Next(w.pfx));
  q.mutable_range()->set_with_start(true);
  q.set_max_fetch_cnt(100000);
  q.set_disable_coprocessor(true);
  ps::KvScanBeginResponse resp;
  int64_t t0 = NowMs();
  Call(&SI::KvScanBegin, q, &resp);
  if (!Ok(resp, "KvScanBegin")) return;
  for (auto& kv : resp.kvs()) s.got.push_back({kv.key(), kv.value()});
  s.spec.lo = w.pfx;
  s.spec.hi = Next(w.pfx);
  s.key_only = false;
  s.ambiguous = !Expect(w.m.cur, w.pfx, Next(w.pfx), t0, NowMs(), &s.want);
  s.id1 = resp.scan_id();
  CheckScan(s);
  Release(w, s);
}

static void Sequential(vh::Rng& r, World& w, uint64_t steps) {
  for (uint64_t i = 0; i < steps; ++i) {
    vh::Case(vh::Mix(Write(w, r), w.raft));
    CheckGets(w, r, w.m.cur, 0);
    if (!w.past.empty() && r.Chance(1, 2)) { auto& p = r.Pick(w.past); CheckGets(w, r, p.state, p.ts); }
    if (i % 16 == 0) FullCheck(w, r);
  }
  FullCheck(w, r);
}

// Scans left open while writes go on.
static void Scans(vh::Rng& r, World& w, uint64_t rounds) {
  for (uint64_t i = 0; i < rounds; ++i) {
    for (int k = r.Below(30); k > 0; --k) Write(w, r);
    std::vector<Scan> open;
    for (int k = 1 + r.Below(4); k > 0; --k) {
      Scan s;
      bool past = !w.past.empty() && r.Chance(1, 3);
      const auto& p = past ? r.Pick(w.past) : World::Past{0, w.m.cur};
      int64_t ts = p.ts;
      auto st = p.state;
      if (Begin(w, r, s, st, ts, r.Chance(1, 3) ? 100 : r.Below(6))) open.push_back(s);
      vh::Case(vh::Mix(vh::HashStr(s.spec.lo + s.spec.hi), i * 8 + k));
    }
    std::vector<int> idle(open.size(), 0);
    while (!open.empty()) {
      size_t j = r.Below(open.size());
      if (r.Chance(1, 3)) { Write(w, r); vh::Count("writes_during_scan"); }
      auto& s = open[j];
      if (!More(w, s, r.Chance(1, 2) ? 100 : 1 + r.Below(5)) || !s.more) {
        CheckScan(s);
        bool last = !s.more;
        if (last) {
          Release(w, s);
          More(w, s, 1, true);
        }
        open.erase(open.begin() + j);
      }
    }
  }
  ScanManager::RegularCleaningHandler(nullptr);
  ScanManagerV2::RegularCleaningHandler(nullptr);
}

static std::vector<std::pair<std::string, std::string>> All(RawEngine& e) { return svc::Dump(e, Constant::kStoreDataCF); }

// Requests the region must refuse.
static void Guards(vh::Rng& r, World& w, World& other, uint64_t rounds) {
  for (uint64_t i = 0; i < rounds; ++i) {
    Write(w, r);
    auto before = All(*E().raw);
    int kind = r.Below(9);
    int want = 0;
    std::string key = RandKey(r, w);
    auto old_epoch = w.r->Epoch();
    pb::common::RegionEpoch epoch = old_epoch;
    int64_t region = w.r->Id();
    bool read_ok = false, del_ok = false;
    auto state = pb::common::NORMAL;
    static const std::vector<std::pair<pb::common::StoreRegionState, int>> states = {{pb::common::NEW, pb::error::EREGION_NEW}, {pb::common::STANDBY, pb::error::EREGION_STANDBY}, {pb::common::DELETING, pb::error::EREGION_DELETING},
        {pb::common::DELETED, pb::error::EREGION_DELETED}, {pb::common::MERGING, pb::error::EREGION_MERGEING}, {pb::common::ORPHAN, pb::error::EREGION_ORPHAN}, {pb::common::TOMBSTONE, pb::error::EREGION_TOMBSTONE}};
    switch (kind) {
      case 0: epoch.set_version(epoch.version() + (r.Chance(1, 2) ? 1 : -1)); want = pb::error::EREGION_VERSION; break;
      case 1: epoch.set_conf_version(epoch.conf_version() + (r.Chance(1, 2) ? 1 : -1)); want = pb::error::EREGION_VERSION; break;
      case 2: key = r.Chance(1, 2) ? RandKey(r, other) : r.Chance(1, 2) ? Next(w.pfx) : w.pfx.substr(0, w.pfx.size() - 1); want = pb::error::EKEY_OUT_OF_RANGE; break;
      case 3: key = ""; want = pb::error::EKEY_EMPTY; break;
      case 4: region = 987654; want = pb::error::EREGION_NOT_FOUND; break;
      case 5: { auto& p = states[r.Below(states.size())]; state = p.first; want = p.second; break; }
      case 6: if (!w.raft) continue; want = pb::error::ERAFT_NOTLEADER; break;
      case 7: want = pb::error::ESYSTEM_CLUSTER_READ_ONLY; read_ok = del_ok = true; break;
      case 8: if (!w.raft) continue; want = pb::error::ERAFT_NOT_CONSISTENT_READ; break;
    }
    w.r->SetState(state);
    braft::Node::leader = kind != 6;
    if (kind == 7) (r.Chance(1, 2) ? E().read_only : E().force_read_only) = true;
    if (kind == 8) E().raft->GetNode(w.r->Id())->SetConsistentReadable(false);
    auto ctx = [&](auto& q) { *q.mutable_context()->mutable_region_epoch() = epoch; q.mutable_context()->set_region_id(region); };
    int pos = r.Below(3);  // where among good keys the offending one stands
    auto fill = [&](auto add) { for (int k = 0; k < 3; ++k) add(k == pos ? key : RandKey(r, w)); };
    auto expect = [&](auto& resp, const char* what) {
      SC(Fmt("%s kind %d", what, kind));
      if (resp.error().errcode() != want) vh::Fail(Fmt("guard-%s-%d", what, kind), Fmt("%s must answer %d, answered %d %s", what, want, resp.error().errcode(), resp.error().errmsg().c_str()));
      if (want == pb::error::EREGION_VERSION) {
        auto& x = resp.error().store_region_info();
        Want(x.region_id() == w.r->Id() && x.current_region_epoch().version() == old_epoch.version() && x.current_region_epoch().conf_version() == old_epoch.conf_version() && x.current_range().start_key() == w.r->Range(false).start_key() && x.current_range().end_key() == w.r->Range(false).end_key(),
             "guard-epoch-info", Fmt("%s does not carry the region's current epoch and range", what));
      }
      vh::Count("refusals");
      vh::Count(Fmt("guard_kind_%d", kind));
    };
    bool reads = !read_ok, writes = kind != 8;
    if (reads) {
      { auto q = Req<ps::KvGetRequest>(w.r); ctx(q); q.set_key(key); ps::KvGetResponse p; Call(&SI::KvGet, q, &p); expect(p, "KvGet"); Want(p.value().empty(), "guard-leak", "KvGet refused but returned a value"); }
      { auto q = Req<ps::KvBatchGetRequest>(w.r); ctx(q); fill([&](const std::string& k) { q.add_keys(k); }); ps::KvBatchGetResponse p; Call(&SI::KvBatchGet, q, &p); expect(p, "KvBatchGet"); Want(!p.kvs_size(), "guard-leak", "KvBatchGet refused but returned pairs"); }
      if (kind != 2 && kind != 3) {
        auto spec = RandRange(w, r);
        if (spec.lo < spec.hi) {
          { auto q = Req<ps::KvScanBeginRequest>(w.r); ctx(q); *q.mutable_range() = spec.r; q.set_max_fetch_cnt(5); q.set_disable_coprocessor(true); ps::KvScanBeginResponse p; Call(&SI::KvScanBegin, q, &p); expect(p, "KvScanBegin"); Want(!p.kvs_size(), "guard-leak", "KvScanBegin refused but returned pairs"); }
          { auto q = Req<ps::KvScanBeginRequestV2>(w.r); ctx(q); *q.mutable_range() = spec.r; q.set_max_fetch_cnt(5); q.set_scan_id(g_scan_id++); ps::KvScanBeginResponseV2 p; Call(&SI::KvScanBeginV2, q, &p); expect(p, "KvScanBeginV2"); Want(!p.kvs_size(), "guard-leak", "KvScanBeginV2 refused but returned pairs"); }
        }
      }
    }
    if (writes) {
      { auto q = Req<ps::KvPutRequest>(w.r); ctx(q); q.mutable_kv()->set_key(key); q.mutable_kv()->set_value("guard"); ps::KvPutResponse p; Call(&SI::KvPut, q, &p); expect(p, "KvPut"); }
      { auto q = Req<ps::KvBatchPutRequest>(w.r); ctx(q); fill([&](const std::string& k) { auto* x = q.add_kvs(); x->set_key(k); x->set_value("guard"); }); ps::KvBatchPutResponse p; Call(&SI::KvBatchPut, q, &p); expect(p, "KvBatchPut"); }
      if (kind != 6 || true) {
        { auto q = Req<ps::KvPutIfAbsentRequest>(w.r); ctx(q); q.mutable_kv()->set_key(kind == 6 ? w.pfx + "fresh" + r.Bytes(8) : key); q.mutable_kv()->set_value("guard"); ps::KvPutIfAbsentResponse p; Call(&SI::KvPutIfAbsent, q, &p); expect(p, "KvPutIfAbsent"); Want(!p.key_state(), "guard-state", "refused KvPutIfAbsent reports success"); }
        { auto q = Req<ps::KvBatchPutIfAbsentRequest>(w.r); ctx(q); fill([&](const std::string& k) { auto* x = q.add_kvs(); x->set_key(kind == 6 ? w.pfx + "fresh" + r.Bytes(8) : k); x->set_value("guard"); }); ps::KvBatchPutIfAbsentResponse p; Call(&SI::KvBatchPutIfAbsent, q, &p); expect(p, "KvBatchPutIfAbsent"); for (bool b : p.key_states()) Want(!b, "guard-state", "refused KvBatchPutIfAbsent reports success"); }
        if (!del_ok) {
          { auto q = Req<ps::KvBatchDeleteRequest>(w.r); ctx(q); fill([&](const std::string& k) { q.add_keys(k); }); ps::KvBatchDeleteResponse p; Call(&SI::KvBatchDelete, q, &p); expect(p, "KvBatchDelete"); }
          { auto q = Req<ps::KvCompareAndSetRequest>(w.r); ctx(q); q.mutable_kv()->set_key(kind == 6 ? w.pfx + "fresh" + r.Bytes(8) : key); q.mutable_kv()->set_value("guard"); ps::KvCompareAndSetResponse p; Call(&SI::KvCompareAndSet, q, &p); expect(p, "KvCompareAndSet"); Want(!p.key_state(), "guard-state", "refused KvCompareAndSet reports success"); }
          if (kind != 2 && kind != 3) {
            auto spec = RandRange(w, r);
            if (spec.lo < spec.hi) { auto q = Req<ps::KvDeleteRangeRequest>(w.r); ctx(q); *q.mutable_range() = spec.r; ps::KvDeleteRangeResponse p; Call(&SI::KvDeleteRange, q, &p); expect(p, "KvDeleteRange"); }
          }
        }
      }
    }
    w.r->SetState(pb::common::NORMAL);
    braft::Node::leader = true;
    E().read_only = E().force_read_only = false;
    if (kind == 8) E().raft->GetNode(w.r->Id())->SetConsistentReadable(true);
    if (All(*E().raw) != before) vh::Fail(Fmt("guard-changed-%d", kind), "the stored data changed although every request was refused");
    vh::Case(vh::Mix(i, kind * 16 + pos));
    // ranges reaching outside the region only ever touch its own keys
    if (r.Chance(1, 3)) {
      auto rest = svc::Dump(*E().raw, Constant::kStoreDataCF);
      auto q = Req<ps::KvDeleteRangeRequest>(w.r);
      q.mutable_range()->mutable_range()->set_start_key(r.Chance(1, 2) ? w.pfx : w.pfx.substr(0, 1));
      q.mutable_range()->mutable_range()->set_end_key(r.Chance(1, 2) ? Next(w.pfx) : Next(w.pfx) + "zz");
      q.mutable_range()->set_with_start(true);
      q.mutable_range()->set_with_end(r.Chance(1, 2));
      ps::KvDeleteRangeResponse p;
      Call(&SI::KvDeleteRange, q, &p);
      if (p.error().errcode() == 0) { w.m.cur.clear(); w.past.clear(); }
      auto er = mvcc::Codec::EncodeRange(w.r->Range(false));
      std::vector<std::pair<std::string, std::string>> a, b;
      for (auto& x : rest) if (x.first < er.start_key() || x.first >= er.end_key()) a.push_back(x);
      for (auto& x : All(*E().raw)) if (x.first < er.start_key() || x.first >= er.end_key()) b.push_back(x);
      Want(a == b, "delete-range-outside", "a range delete removed keys of another region");
      FullCheck(w, r);
      FullCheck(other, r);
      vh::Count("wide_range_deletes");
    }
    if (r.Chance(1, 4)) Write(other, r);
  }
}

// Followers apply the same log; restarts replay a suffix of it.
static void Replicas(vh::Rng& r, World& w, uint64_t steps) {
  auto& g = *svc::Groups()[w.r->Name()];
  auto same = [&](const char* when) {
    auto a = All(*E().raw);
    std::vector<std::pair<std::string, std::string>> mine;
    auto er = mvcc::Codec::EncodeRange(w.r->Range(false));
    for (auto& x : a) if (x.first >= er.start_key() && x.first < er.end_key()) mine.push_back(x);
    for (size_t i = 0; i < g.followers.size(); ++i) {
      auto b = All(*g.followers[i].raw);
      if (b != mine) {
        size_t k = 0;
        while (k < mine.size() && k < b.size() && mine[k] == b[k]) ++k;
        vh::Fail("replica-diverged", Fmt("%s: after %zu log entries the leader holds %zu records and follower %zu holds %zu; they first differ at record %zu", when, g.log.size(), mine.size(), i, b.size(), k));
      }
      vh::Count("replica_comparisons");
    }
  };
  for (uint64_t i = 0; i < steps; ++i) {
    vh::Case(Write(w, r));
    if (i % 20 == 0) same("while running");
    if (r.Chance(1, 40)) {
      // restart: a new state machine over the same stored data, which replays from the applied index last saved
      std::lock_guard<std::mutex> l(g.m);
      auto& f = g.followers[r.Below(g.followers.size())];
      int64_t applied = f.meta->AppliedId();
      int64_t saved = std::max<int64_t>(0, applied - (int64_t)r.Below(12));
      f.meta = store::RaftMeta::New(w.r->Id());
      f.meta->SetTermAndAppliedId(1, saved);
      f.fsm = std::make_shared<StoreStateMachine>(f.raw, f.region, f.meta, StoreRegionMetrics::NewMetrics(w.r->Id()), E().listeners, nullptr);
      int64_t from = std::max<int64_t>(1, saved - (int64_t)r.Below(5));  // the log may start earlier still
      std::vector<braft::Iterator::E> es;
      for (int64_t ix = from; ix <= (int64_t)g.log.size(); ++ix) { butil::IOBuf d; d.append(g.log[ix - 1]); es.push_back({ix, 1, d, nullptr}); }
      braft::Iterator it(es);
      f.fsm->on_apply(it);
      Want(f.fsm->GetAppliedIndex() == (int64_t)g.log.size(), "replay-index", "the applied index is not the last entry's after a replay");
      vh::Count("restarts");
    }
  }
  same("at the end");
  // an entry at or below the applied index must not be applied again
  {
    std::lock_guard<std::mutex> l(g.m);
    for (auto& f : g.followers) {
      auto before = All(*f.raw);
      f.raw->Writer()->KvDeleteRange(Constant::kStoreDataCF, mvcc::Codec::EncodeRange(w.r->Range(false)));
      auto emptied = All(*f.raw);
      std::vector<braft::Iterator::E> es;
      for (int64_t ix = 1; ix <= (int64_t)g.log.size(); ++ix) { butil::IOBuf d; d.append(g.log[ix - 1]); es.push_back({ix, 1, d, nullptr}); }
      braft::Iterator it(es);
      f.fsm->on_apply(it);
      Want(All(*f.raw) == emptied, "reapplied", "log entries at or below the applied index were applied again");
      vh::Count("stale_entries", g.log.size());
    }
  }
}

// Concurrent clients over few keys; each key's history must be linearizable.
struct Ev { int kind; int64_t inv, ret; std::string a, b; bool ok; };  // 0 get(b) 1 put(a) 2 del(ok) 3 pia(a,ok) 4 cas(exp b -> a, ok)
static bool Apply(const Ev& e, std::string& s) {  // "" absent
  switch (e.kind) {
    case 0: return s == e.b;
    case 1: s = e.a; return true;
    case 2: { bool had = !s.empty(); s.clear(); return had == e.ok; }
    case 3: { bool absent = s.empty(); if (absent) s = e.a; return absent == e.ok; }
    default: { bool m = s == e.b; if (m) s = e.a; return m == e.ok; }
  }
}
static bool Linearizable(std::vector<Ev> h) {
  size_t n = h.size();
  std::sort(h.begin(), h.end(), [](const Ev& x, const Ev& y) { return x.inv < y.inv; });
  std::set<std::pair<uint64_t, std::string>> seen;
  std::vector<std::pair<uint64_t, std::string>> st{{0, ""}};
  uint64_t full = n == 64 ? ~0ull : (1ull << n) - 1;
  while (!st.empty()) {
    auto [mask, s] = st.back();
    st.pop_back();
    if (mask == full) return true;
    int64_t lim = INT64_MAX;
    for (size_t i = 0; i < n; ++i) if (!(mask >> i & 1)) lim = std::min(lim, h[i].ret);
    for (size_t i = 0; i < n; ++i) {
      if (mask >> i & 1) continue;
      if (h[i].inv > lim) break;
      std::string t = s;
      if (!Apply(h[i], t)) continue;
      auto nx = std::make_pair(mask | 1ull << i, t);
      if (seen.insert(nx).second) st.push_back(nx);
    }
  }
  return false;
}
static void Concurrent(vh::Rng& r, World& w, uint64_t rounds) {
  std::atomic<int64_t> clock{1};
  for (uint64_t round = 0; round < rounds; ++round) {
    int nt = 2 + r.Below(5), nk = 1 + r.Below(2), per = std::min<int>(12, 60 / nt);
    std::vector<std::string> keys;
    for (int i = 0; i < nk; ++i) keys.push_back(w.pfx + Fmt("c%u-%d", (unsigned)round, i));
    std::vector<std::vector<Ev>> hist(nk);
    std::mutex hm;
    std::vector<std::thread> ts;
    uint64_t base = r.Next();
    for (int t = 0; t < nt; ++t)
      ts.emplace_back([&, t] {
        vh::Rng q(base + t);
        std::string last;
        for (int i = 0; i < per; ++i) {
          int ki = q.Below(nk);
          const std::string& k = keys[ki];
          Ev e;
          e.kind = q.Below(6);
          if (e.kind == 5) e.kind = 4;
          std::string val = Fmt("%d-%d", t, i);
          e.ok = false;
          if (q.Chance(1, 4)) std::this_thread::yield();
          e.inv = clock++;
          int err = 0;
          switch (e.kind) {
            case 0: { auto m = Req<ps::KvGetRequest>(w.r); m.set_key(k); ps::KvGetResponse p; Call(&SI::KvGet, m, &p); e.b = last = p.value(); err = p.error().errcode(); break; }
            case 1: { auto m = Req<ps::KvPutRequest>(w.r); m.mutable_kv()->set_key(k); m.mutable_kv()->set_value(e.a = val); ps::KvPutResponse p; Call(&SI::KvPut, m, &p); err = p.error().errcode(); break; }
            case 2: { auto m = Req<ps::KvBatchDeleteRequest>(w.r); m.add_keys(k); ps::KvBatchDeleteResponse p; Call(&SI::KvBatchDelete, m, &p); e.ok = p.key_states_size() && p.key_states(0); err = p.error().errcode(); break; }
            case 3: { auto m = Req<ps::KvPutIfAbsentRequest>(w.r); m.mutable_kv()->set_key(k); m.mutable_kv()->set_value(e.a = val); ps::KvPutIfAbsentResponse p; Call(&SI::KvPutIfAbsent, m, &p); e.ok = p.key_state(); err = p.error().errcode(); break; }
            default: { auto m = Req<ps::KvCompareAndSetRequest>(w.r); m.mutable_kv()->set_key(k); m.mutable_kv()->set_value(e.a = val); m.set_expect_value(e.b = last); ps::KvCompareAndSetResponse p; Call(&SI::KvCompareAndSet, m, &p); e.ok = p.key_state(); err = p.error().errcode(); if (err == pb::error::EKEY_NOT_FOUND) err = 0; if (e.ok) last = val; break; }
          }
          e.ret = clock++;
          if (err) vh::Fail("concurrent-error", Fmt("kind %d answered %d", e.kind, err));
          std::lock_guard<std::mutex> g(hm);
          hist[ki].push_back(e);
        }
      });
    for (auto& t : ts) t.join();
    for (int i = 0; i < nk; ++i) {
      auto m = Req<ps::KvGetRequest>(w.r);
      m.set_key(keys[i]);
      ps::KvGetResponse p;
      Ev e;
      e.kind = 0;
      e.ok = false;
      e.inv = clock++;
      Call(&SI::KvGet, m, &p);
      e.ret = clock++;
      e.b = p.value();
      hist[i].push_back(e);
      if (hist[i].size() > 64) { vh::Count("history_too_long"); continue; }
      uint64_t sig = 7;
      int overlap = 0;
      for (auto& x : hist[i]) { sig = vh::Mix(sig, vh::HashStr(x.a + "|" + x.b) + x.kind * 2 + x.ok); if (x.ret > x.inv + 1) ++overlap; }
      vh::Case(sig);
      vh::Count("histories");
      vh::Count("overlapping_ops", overlap);
      if (!Linearizable(hist[i])) {
        std::string d = "no order explains the answers for one key: ";
        std::sort(hist[i].begin(), hist[i].end(), [](const Ev& x, const Ev& y) { return x.inv < y.inv; });
        static const char* names[] = {"get", "put", "delete", "put-if-absent", "cas"};
        for (auto& x : hist[i]) d += Fmt("[%ld,%ld] %s %s%s%s ok=%d; ", (long)x.inv, (long)x.ret, names[x.kind], x.a.c_str(), x.b.empty() ? "" : " saw/expected ", x.b.c_str(), x.ok);
        vh::Fail("not-linearizable", d);
      }
    }
  }
}

// Multi-key atomic requests racing each other: overlapping put-if-absent batches (winners never overlap) and transfers
// between accounts by batch compare-and-set (the total never changes).
static void ConcurrentBatches(vh::Rng& r, World& w, uint64_t rounds) {
  auto get = [&](const std::string& k) { auto m = Req<ps::KvGetRequest>(w.r); m.set_key(k); ps::KvGetResponse p; Call(&SI::KvGet, m, &p); return p.value(); };
  for (uint64_t round = 0; round < rounds; ++round) {
    int nt = 2 + r.Below(5), nk = 2 + r.Below(4);
    std::vector<std::string> ks, acc;
    for (int i = 0; i < nk; ++i) { ks.push_back(w.pfx + Fmt("b%u-%d", (unsigned)round, i)); acc.push_back(w.pfx + Fmt("a%u-%d", (unsigned)round, i)); }
    for (auto& k : acc) { auto m = Req<ps::KvPutRequest>(w.r); m.mutable_kv()->set_key(k); m.mutable_kv()->set_value("100"); ps::KvPutResponse p; Call(&SI::KvPut, m, &p); }
    struct Win { std::string v; std::vector<std::string> keys; };
    std::vector<Win> wins;
    std::mutex m;
    uint64_t base = r.Next(), tried = 0, moved = 0;
    std::vector<std::thread> ts;
    for (int t = 0; t < nt; ++t)
      ts.emplace_back([&, t] {
        vh::Rng q(base + t);
        for (int i = 0; i < 8; ++i) {
          std::vector<std::string> mine(ks);
          for (size_t j = mine.size(); j > 1; --j) std::swap(mine[j - 1], mine[q.Below(j)]);
          mine.resize(1 + q.Below(mine.size()));
          std::string v = Fmt("%d-%d", t, i);
          auto a = Req<ps::KvBatchPutIfAbsentRequest>(w.r);
          for (auto& k : mine) { auto* x = a.add_kvs(); x->set_key(k); x->set_value(v); }
          a.set_is_atomic(true);
          ps::KvBatchPutIfAbsentResponse ar;
          if (i == 0 || q.Chance(1, 4)) {
            Call(&SI::KvBatchPutIfAbsent, a, &ar);
            size_t won = 0;
            for (bool b : ar.key_states()) won += b;
            std::lock_guard<std::mutex> g(m);
            ++tried;
            if (won && won != mine.size()) vh::Fail("batch-partial", Fmt("an atomic put-if-absent of %zu keys wrote %zu", mine.size(), won));
            if (won) wins.push_back({v, mine});
          }
          size_t x = q.Below(nk), y = q.Below(nk);
          if (x == y) continue;
          std::string vx = get(acc[x]), vy = get(acc[y]);
          int d = 1 + q.Below(5);
          auto c = Req<ps::KvBatchCompareAndSetRequest>(w.r);
          auto put = [&](size_t k, const std::string& old, int delta) { auto* z = c.add_kvs(); z->set_key(acc[k]); z->set_value(std::to_string(atoi(old.c_str()) + delta)); c.add_expect_values(old); };
          put(x, vx, -d);
          put(y, vy, d);
          c.set_is_atomic(true);
          ps::KvBatchCompareAndSetResponse cr;
          Call(&SI::KvBatchCompareAndSet, c, &cr);
          std::lock_guard<std::mutex> g(m);
          bool all = cr.key_states_size() == 2 && cr.key_states(0) && cr.key_states(1), any = false;
          for (bool b : cr.key_states()) any |= b;
          if (any && !all) vh::Fail("batch-partial", "an atomic compare-and-set of two keys set one");
          moved += all;
        }
      });
    for (auto& t : ts) t.join();
    std::map<std::string, std::string> owner;
    for (auto& x : wins) for (auto& k : x.keys) if (!owner.emplace(k, x.v).second) vh::Fail("put-if-absent-twice", "two put-if-absent requests both created one key");
    for (auto& k : ks) if (get(k) != (owner.count(k) ? owner[k] : "")) vh::Fail("put-if-absent-value", "a key does not hold the value of the request that created it");
    int sum = 0;
    for (auto& k : acc) sum += atoi(get(k).c_str());
    if (sum != 100 * nk) vh::Fail("total-changed", Fmt("transfers by atomic compare-and-set changed the total from %d to %d", 100 * nk, sum));
    vh::Case(vh::Mix(round * 31 + moved, wins.size() * 7 + tried));
    vh::Count("batch_rounds");
    vh::Count("transfers", moved);
    vh::Count("contended_creates", tried);
  }
}

int main(int argc, char** argv) {
  vh::Init(argc, argv);
  std::string mode = vh::Arg("mode", "seq");
  Start("store", vh::Arg("scratch", "/tmp/x") + "/db", true, mode != "scan" ? "" : "  scan:\n    max_bytes_rpc: 400\n    max_fetch_cnt_by_server: 7\n    timeout_s: 3600\n    scan_interval_s: 3600\n  scan_v2:\n    max_bytes_rpc: 400\n    max_fetch_cnt_by_server: 7\n    timeout_s: 3600\n    scan_interval_s: 3600\n");
  if (mode == "scan" && (!ScanManager::GetInstance().Init(E().config) || !ScanManagerV2::GetInstance().Init(E().config))) vh::Broken("scan manager");
  svc::StartService();
  vh::Rng r(vh::Seed());
  World mono, raft;
  mono.pfx = std::string("r\0\0\0\0\0\0\0\x01", 9);
  mono.r = AddRegion(100, mono.pfx, Next(mono.pfx));
  raft.pfx = std::string("r\0\0\0\0\0\0\0\x02", 9);
  raft.r = svc::AddRaftRegion(200, raft.pfx, Next(raft.pfx), mode == "replica" ? 2 : 0);
  raft.raft = true;
  auto seg = [&](World& w, auto f) { f(w); };
  if (mode == "seq") {
    for (auto* w : {&mono, &raft}) seg(*w, [&](World& x) { Sequential(r, x, vh::N(2500, 40000)); });
  } else if (mode == "scan") {
    for (auto* w : {&mono, &raft}) seg(*w, [&](World& x) { Scans(r, x, vh::N(250, 5000)); });
  } else if (mode == "guard") {
    for (int i = 0; i < 60; ++i) { Write(mono, r); Write(raft, r); }
    Guards(r, mono, raft, vh::N(250, 4000));
    Guards(r, raft, mono, vh::N(250, 4000));
  } else if (mode == "replica") {
    Replicas(r, raft, vh::N(2500, 40000));
  } else if (mode == "conc") {
    for (auto* w : {&mono, &raft}) { Concurrent(r, *w, vh::N(120, 2500)); ConcurrentBatches(r, *w, vh::N(60, 1000)); }
  } else vh::Broken("mode");
  return vh::Finish();
}
