// The raft log on disk: the real log storage and its raft adapter, driven as raft drives them (one writer per region, many
// regions, a second client that keeps entries back), on a disk that can lose what was not synced. What raft would have in
// its hands is kept in a reference model; what the storage says is compared with it.
#include <glog/logging.h>
#include <unistd.h>

#include <filesystem>
#include <thread>

#include "log/rocks_log_storage.h"
#include "store_env.h"
#include "vh.h"

using namespace dingodb;
using vh::Fmt;
using vh::Rng;
using wal::ClientType;

namespace braft { DECLARE_bool(raft_sync); }

static std::string g_root;
static void Flag(const std::string& n, const std::string& v) {
  if (gflags::SetCommandLineOption(n.c_str(), v.c_str()).empty()) vh::Broken("flag " + n);
}

enum { NOOP = 1, DATA = 2, CONF = 3 };
struct Ent {
  int type{DATA};
  int64_t term{0};
  std::string data;
  std::vector<std::string> peers, old_peers;
  bool operator==(const Ent& o) const { return type == o.type && term == o.term && data == o.data && peers == o.peers && old_peers == o.old_peers; }
};
using Log = std::map<int64_t, Ent>;
static std::string Show(const Ent& e) {
  std::string s = Fmt("type %d term %ld", e.type, (long)e.term);
  if (e.type != CONF) return s + Fmt(" %zu bytes %s", e.data.size(), vh::Hex(e.data.substr(0, 16)).c_str());
  for (auto& p : e.peers) s += " " + p;
  for (auto& p : e.old_peers) s += " old " + p;
  return s;
}
static Ent RandomEnt(Rng& r, int64_t term) {
  Ent e;
  e.term = term;
  int k = r.Below(10);
  if (k == 0) {
    e.type = CONF;
    int n = r.Range(1, 4), m = r.Chance(1, 3) ? r.Range(1, 3) : 0;
    for (int i = 0; i < n; ++i) e.peers.push_back(braft::PeerId(Fmt("10.0.%d.%d:%d:0", (int)r.Below(4), i, (int)(2000 + r.Below(9)))).to_string());
    for (int i = 0; i < m; ++i) e.old_peers.push_back(braft::PeerId(Fmt("10.1.%d.%d:%d:0", (int)r.Below(4), i, (int)(2000 + r.Below(9)))).to_string());
  } else {
    e.type = k == 1 ? NOOP : DATA;
    e.data = r.Bytes(r.Chance(1, 30) ? r.Range(1000, 20000) : r.Range(1, 40));
    if (r.Chance(1, 10)) e.data.assign(e.data.size(), 0);
  }
  return e;
}
static braft::LogEntry* Make(int64_t index, const Ent& e) {
  auto* b = new braft::LogEntry();
  b->AddRef();
  b->type = (braft::EntryType)e.type;
  b->id = braft::LogId(index, e.term);
  if (e.type == CONF) {
    b->peers = new std::vector<braft::PeerId>;
    for (auto& p : e.peers) b->peers->push_back(braft::PeerId(p));
    if (!e.old_peers.empty()) {
      b->old_peers = new std::vector<braft::PeerId>;
      for (auto& p : e.old_peers) b->old_peers->push_back(braft::PeerId(p));
    }
  } else {
    // In several blocks, as data that came over the network is.
    size_t cut = e.data.size() / 2;
    b->data.append(e.data.substr(0, cut));
    b->data.append(e.data.substr(cut));
  }
  return b;
}
static Ent FromBraft(const braft::LogEntry* b) {
  Ent e;
  e.type = (int)b->type;
  e.term = b->id.term;
  if (e.type == CONF) {
    if (b->peers) for (auto& p : *b->peers) e.peers.push_back(p.to_string());
    if (b->old_peers) for (auto& p : *b->old_peers) e.old_peers.push_back(p.to_string());
  } else {
    e.data = b->data.to_string();
  }
  return e;
}
static Ent FromLog(const wal::LogEntry& l) {
  Ent e;
  e.type = (int)l.type;
  e.term = l.term;
  if (e.type == CONF) {
    braft::LogEntry b;
    b.AddRef();
    butil::IOBuf d;
    d.append(l.out_data);
    if (braft::parse_configuration_meta(d, &b).ok()) {
      if (b.peers) for (auto& p : *b.peers) e.peers.push_back(p.to_string());
      if (b.old_peers) for (auto& p : *b.old_peers) e.old_peers.push_back(p.to_string());
    } else {
      e.data = "unreadable configuration";
    }
  } else {
    e.data = l.out_data;
  }
  return e;
}
static std::shared_ptr<wal::RocksLogStorage> Open(const std::string& path, bool index_role) {
  auto s = std::make_shared<wal::RocksLogStorage>(path);
  s->RegisterClientType(ClientType::kRaft);
  if (index_role) s->RegisterClientType(ClientType::kVectorIndex);
  if (!s->Init()) vh::Fail("log-open", "the log storage does not open");
  return s;
}
using Wrapper = std::unique_ptr<wal::RocksLogStorageWrapper>;
static std::vector<braft::LogEntry*> MakeAll(int64_t at, const std::vector<Ent>& v) {
  std::vector<braft::LogEntry*> b;
  for (size_t i = 0; i < v.size(); ++i) b.push_back(Make(at + i, v[i]));
  return b;
}
static bool Append(wal::RocksLogStorageWrapper* w, int64_t at, const std::vector<Ent>& v, bool one, bool metric) {
  auto b = MakeAll(at, v);
  braft::IOMetric m;
  bool ok = one && v.size() == 1 ? w->append_entry(b[0]) == 0 : w->append_entries(b, metric ? &m : nullptr) == (int)v.size();
  for (auto* x : b) x->Release();
  return ok;
}

// ---- one writer: every read of every region after every step
struct Region {
  int64_t id;
  Wrapper w;
  Log log;              // what the storage holds
  int64_t first{1};     // as it said last
  int64_t raft_first{1}, next{1}, term{1};
  std::map<int, int64_t> asked, asked_since;  // per client: what it last asked to keep from; since the storage forgot it
  bool alive{true};
};
struct World {
  std::string path;
  bool index_role{false}, cache{false};
  std::shared_ptr<wal::RocksLogStorage> st;
  std::vector<std::unique_ptr<Region>> regions;
};
static World* W;
static int64_t Bound(Region& g, const std::map<int, int64_t>& m) {
  int64_t v = INT64_MAX;
  for (int c = 0; c < (W->index_role ? 2 : 1); ++c) { auto it = m.find(c); v = std::min(v, it == m.end() ? (int64_t)0 : it->second); }
  return v;
}
static std::string Head(Region& g) { return Fmt("region %ld (raft from %ld to %ld, storage holds %zu entries from %ld): ", (long)g.id, (long)g.raft_first, (long)g.next - 1, g.log.size(), g.log.empty() ? -1L : (long)g.log.begin()->first); }

static void CompareEntry(Region& g, const char* what, int64_t index, const Ent& got) {
  auto it = g.log.find(index);
  if (it == g.log.end()) vh::Fail(std::string(what) + "-extra", Head(g) + Fmt("%s returned entry %ld, which is not in the log: %s", what, (long)index, Show(got).c_str()));
  else if (!(it->second == got)) vh::Fail(std::string(what) + "-differs", Head(g) + Fmt("%s returned for entry %ld: %s; appended was: %s", what, (long)index, Show(got).c_str(), Show(it->second).c_str()));
}
static void Check(Region& g, Rng& r) {
  auto& st = *W->st;
  int64_t f = g.w->first_log_index(), l = g.w->last_log_index();
  if (f != st.FirstLogIndex(g.id) || l != st.LastLogIndex(g.id)) vh::Fail("bounds-two-answers", Head(g) + "the raft adapter and the storage say different bounds");
  if (g.log.empty() ? l != f - 1 || f > g.next : f != g.log.begin()->first || l != g.log.rbegin()->first)
    vh::Fail("bounds", Head(g) + Fmt("the storage says its log goes from %ld to %ld", (long)f, (long)l));
  wal::LogIndexMeta m;
  if (!st.GetLogIndexMeta(g.id, m) || m.first_index.load() != f || m.last_index.load() != l) vh::Fail("meta", Head(g) + "GetLogIndexMeta says other bounds");
  auto ms = st.GetLogIndexMeta({g.id}, true);
  if (ms.size() != 1 || (!g.log.empty() && (ms.begin()->second.first_index.load() != f || ms.begin()->second.last_index.load() != l))) vh::Fail("meta-actual", Head(g) + "the actual bounds differ from the remembered ones");
  int64_t lo = g.log.empty() ? g.next - 3 : g.log.begin()->first - 2, hi = g.log.empty() ? g.next + 2 : g.log.rbegin()->first + 2;
  for (int k = 0; k < 6; ++k) {
    int64_t i = k < 2 ? (k ? hi - r.Below(4) : lo + r.Below(4)) : r.Range(lo, hi);
    if (i < 0) continue;
    auto* b = g.w->get_entry(i);
    auto it = g.log.find(i);
    if (b) {
      if (b->id.index != i) vh::Fail("entry-index", Head(g) + "get_entry returned an entry with another index");
      CompareEntry(g, "get_entry", i, FromBraft(b));
      b->Release();
    } else if (it != g.log.end()) {
      vh::Fail("get_entry-lost", Head(g) + Fmt("entry %ld is gone", (long)i));
    }
    auto p = st.GetEntry(g.id, i);
    if ((p != nullptr) != (it != g.log.end())) vh::Fail("GetEntry-lost", Head(g) + Fmt("GetEntry(%ld) %s", (long)i, p ? "finds an entry that is not in the log" : "finds nothing"));
    else if (p) { CompareEntry(g, "GetEntry", i, FromLog(*p)); if (p->index != i || p->region_id != g.id) vh::Fail("entry-index", Head(g) + "GetEntry returned an entry with another index or region"); }
    int64_t t = g.w->get_term(i);
    if (it != g.log.end() && i >= g.raft_first && t != it->second.term) vh::Fail("term", Head(g) + Fmt("term of entry %ld is said to be %ld, not %ld", (long)i, (long)t, (long)it->second.term));
    if (!W->cache && it == g.log.end() && t != 0) vh::Fail("term-extra", Head(g) + Fmt("entry %ld, which is not in the log, has term %ld", (long)i, (long)t));
    t = st.GetTerm(g.id, i);
    if (t != (it == g.log.end() ? 0 : it->second.term)) vh::Fail("GetTerm", Head(g) + Fmt("GetTerm(%ld) is %ld", (long)i, (long)t));
  }
  int64_t a = std::max<int64_t>(0, r.Range(lo, hi)), b = r.Chance(1, 4) ? INT64_MAX : r.Range(a, hi + 1);
  if (r.Chance(1, 8)) a = 0;
  auto range = [&](const char* what, const std::vector<wal::LogEntryPtr>& v, bool data_only) {
    auto it = g.log.lower_bound(a);
    auto skip = [&] { while (data_only && it != g.log.end() && it->first < b && it->second.type != DATA) ++it; };
    skip();
    for (auto& e : v) {
      if (it == g.log.end() || it->first >= b) { vh::Fail(std::string(what) + "-more", Head(g) + Fmt("%s(%ld, %ld) returned entry %ld", what, (long)a, (long)b, (long)e->index)); return; }
      if (e->index != it->first || e->region_id != g.id) { vh::Fail(std::string(what) + "-order", Head(g) + Fmt("%s(%ld, %ld) returned entry %ld of region %ld where entry %ld is next", what, (long)a, (long)b, (long)e->index, (long)e->region_id, (long)it->first)); return; }
      CompareEntry(g, what, e->index, FromLog(*e));
      ++it;
      skip();
    }
    if (it != g.log.end() && it->first < b) vh::Fail(std::string(what) + "-less", Head(g) + Fmt("%s(%ld, %ld) stops before entry %ld", what, (long)a, (long)b, (long)it->first));
  };
  range("GetEntries", st.GetEntries(g.id, a, b), false);
  range("GetDataEntries", st.GetDataEntries(g.id, a, b), true);
  // The search visits data and configuration entries in order until the first match.
  std::vector<int64_t> seen, want;
  int64_t stop = r.Chance(1, 2) ? r.Range(a, hi) : INT64_MAX;
  bool hit = false;
  for (auto it = g.log.lower_bound(a); it != g.log.end() && it->first < b && !hit; ++it)
    if (it->second.type != NOOP) { want.push_back(it->first); hit = it->first >= stop; }
  bool got = st.HasSpecificLog(g.id, a, b, [&](const wal::LogEntry& e) { seen.push_back(e.index); CompareEntry(g, "HasSpecificLog", e.index, FromLog(e)); return e.index >= stop; });
  if (got != hit || seen != want) vh::Fail("search", Head(g) + Fmt("a search in [%ld, %ld) for an entry from %ld on visits %zu entries and answers %d; %zu and %d expected", (long)a, (long)b, (long)stop, seen.size(), got, want.size(), hit));
  if (hit) vh::Count("searches_hit");
  if (vsrocks::ctl().live_iterators != 0) vh::Fail("iterator-leak", Head(g) + Fmt("%ld database iterators stay open after all reads are done", (long)vsrocks::ctl().live_iterators.load()));
  vh::Count("checks");
}
static void InitWrapper(Region& g) {
  g.w = std::make_unique<wal::RocksLogStorageWrapper>(g.id, W->st);
  braft::ConfigurationManager cm;
  if (g.w->init(&cm) != 0) vh::Fail("init", Head(g) + "init fails");
  size_t i = 0;
  for (auto& [ix, e] : g.log) {
    if (e.type != CONF) continue;
    if (i >= cm.v.size()) { vh::Fail("configurations-less", Head(g) + Fmt("the configuration of entry %ld is not handed to raft at start", (long)ix)); return; }
    auto& c = cm.v[i++];
    std::set<std::string> a(e.peers.begin(), e.peers.end()), b(e.old_peers.begin(), e.old_peers.end()), x, y;
    for (auto& p : c.conf) x.insert(p.to_string());
    for (auto& p : c.old_conf) y.insert(p.to_string());
    if (c.id.index != ix || c.id.term != e.term || a != x || b != y) vh::Fail("configurations-differ", Head(g) + Fmt("the configuration handed to raft at start for entry %ld is not the one appended", (long)ix));
    vh::Count("configurations");
  }
  if (i != cm.v.size()) vh::Fail("configurations-more", Head(g) + "raft is handed configurations that are not in the log");
}
// After a prefix truncation the storage may hold from anywhere between what all clients let go and what some still need.
static void TruncPrefix(Region& g, ClientType c, int64_t keep, Rng& r) {
  int ci = c == ClientType::kRaft ? 0 : 1;
  int64_t last = g.log.empty() ? g.next - 1 : g.log.rbegin()->first;
  int rc = c == ClientType::kRaft ? g.w->truncate_prefix(keep) : W->st->TruncatePrefix(c, g.id, keep);
  if (rc != 0) vh::Fail("truncate-fails", Head(g) + "truncating the head of the log fails");
  g.asked[ci] = g.asked_since[ci] = keep;
  int64_t safe = Bound(g, g.asked), must = Bound(g, g.asked_since);
  if (ci == 0) {
    g.raft_first = std::max(g.raft_first, keep);
    if (keep > last + 1) {  // raft starts over behind the end: keeping the rest would leave a hole
      g.log.clear();
      g.next = keep;
      vh::Count("start_over");
    }
  }
  int64_t f = W->st->FirstLogIndex(g.id);
  if (g.log.empty()) { g.first = f; return; }
  if (f > g.log.begin()->first && f > safe)
    vh::Fail("lost-entries", Head(g) + Fmt("after client %d asked to keep from %ld the log starts at %ld, but entries from %ld on are still needed", ci, (long)keep, (long)f, (long)safe));
  if (f < must && must <= last + 1)
    vh::Fail("not-freed", Head(g) + Fmt("every client let go of what is before %ld, yet the log still starts at %ld", (long)must, (long)f));
  if (f < g.log.begin()->first) vh::Fail("first-back", Head(g) + Fmt("the log now starts at %ld", (long)f));
  if (f > g.log.begin()->first) vh::Count("prefix_freed");
  else vh::Count("prefix_kept");
  // Judge what is kept by what must be there, not by what the storage says.
  int64_t cut = std::min(f, std::max(safe, g.log.begin()->first));
  g.log.erase(g.log.begin(), g.log.lower_bound(cut));
  g.first = f;
}
static void Reopen(Rng& r, bool crash) {
  for (auto& g : W->regions) g->w.reset();
  W->st->Close();
  W->st.reset();
  if (crash) vsrocks::Crash(W->path, 0);
  W->cache = r.Chance(1, 2);
  Flag("rocks_log_enable_get_term_cache", W->cache ? "true" : "false");
  W->st = Open(W->path, W->index_role);
  for (auto& g : W->regions) {
    if (!g->alive) continue;
    g->asked_since.clear();
    InitWrapper(*g);
    if (g->raft_first > 1) TruncPrefix(*g, ClientType::kRaft, g->raft_first, r);  // raft loads its snapshot
  }
  vh::Count("reopens");
}
static void Step(Rng& r) {
  auto& g = *W->regions[r.Below(W->regions.size())];
  if (!g.alive) {
    g.log.clear(); g.asked.clear(); g.asked_since.clear();
    g.raft_first = g.next = g.term = 1;
    g.alive = true;
    InitWrapper(g);
    vh::Count("reborn");
    Check(g, r);
    return;
  }
  int k = r.Below(100);
  int64_t last = g.next - 1;
  if (k < 45) {
    int n = r.Chance(1, 15) ? r.Range(10, 60) : r.Range(1, 5);
    std::vector<Ent> v;
    for (int i = 0; i < n; ++i) { if (r.Chance(1, 6)) g.term += r.Range(1, 3); v.push_back(RandomEnt(r, g.term)); }
    if (!Append(g.w.get(), g.next, v, r.Chance(1, 2), r.Chance(1, 2))) vh::Fail("append-fails", Head(g) + "append fails");
    for (auto& e : v) g.log[g.next++] = e;
    vh::Count("appended", n);
  } else if (k < 60) {  // a new leader overwrites the tail
    int64_t keep = std::max(g.raft_first - 1, last - (int64_t)r.Below(8));
    if (r.Chance(1, 8)) keep = g.raft_first - 1;
    bool none = g.log.empty();
    int rc = g.w->truncate_suffix(keep);
    if (rc != 0 && !none) vh::Fail("truncate-suffix-fails", Head(g) + Fmt("truncating the tail after %ld fails", (long)keep));
    if (keep < last) vh::Count("suffix_truncated");
    g.log.erase(g.log.upper_bound(keep), g.log.end());
    g.next = keep + 1;
    ++g.term;
    if (r.Chance(1, 3) && W->st->TruncateSuffix(ClientType::kRaft, g.id, g.next + 5 + r.Below(9)) == 0) vh::Fail("truncate-suffix-beyond", Head(g) + "keeping entries beyond the end of the log is answered as done");
  } else if (k < 73) {
    if (last < g.raft_first) return;
    TruncPrefix(g, ClientType::kRaft, r.Range(g.raft_first, r.Chance(1, 5) ? last + 1 : (g.raft_first + last + 1) / 2), r);
  } else if (k < 77) {
    // A snapshot from the leader, past the end of the log.
    TruncPrefix(g, ClientType::kRaft, last + 1 + r.Range(1, r.Chance(1, 4) ? 1000000000000 : 20), r);
  } else if (k < 80) {
    // A snapshot that the log contradicts.
    int64_t next = r.Range(g.raft_first, last + 30);
    if (g.w->reset(next) != 0) vh::Fail("reset-fails", Head(g) + "reset fails");
    g.log.clear();
    g.next = g.raft_first = next;
    g.asked_since.clear();
    g.asked[0] = next;
    ++g.term;
    int64_t f = W->st->FirstLogIndex(g.id), l = W->st->LastLogIndex(g.id);
    if (f != next || l != next - 1) vh::Fail("reset-bounds", Head(g) + Fmt("after a reset to %ld the log goes from %ld to %ld", (long)next, (long)f, (long)l));
    vh::Count("resets");
  } else if (k < 92) {
    if (!W->index_role) return;
    int how = r.Below(5);
    if (how == 0) { TruncPrefix(g, ClientType::kVectorIndex, 0, r); vh::Count("holds"); }
    else if (how == 1) { TruncPrefix(g, ClientType::kVectorIndex, INT64_MAX, r); vh::Count("releases"); }
    else if (!g.log.empty()) TruncPrefix(g, ClientType::kVectorIndex, r.Range(g.log.begin()->first, last), r);
  } else if (k < 94) {
    auto others = W->regions.size();
    g.w.reset();
    if (!W->st->DestroyRegionLog(g.id)) vh::Fail("destroy-fails", Head(g) + "destroy fails");
    g.alive = false;
    wal::LogIndexMeta m;
    if (W->st->GetLogIndexMeta(g.id, m)) vh::Fail("destroy-meta", Head(g) + "a destroyed log is still listed");
    if (!W->st->GetEntries(g.id, 0, INT64_MAX).empty()) vh::Fail("destroy-left", Head(g) + "entries of a destroyed log are left");
    vh::Count("destroyed");
    for (size_t i = 0; i < others; ++i) if (W->regions[i]->alive) Check(*W->regions[i], r);
    return;
  } else if (k < 96) {
    Reopen(r, r.Chance(1, 2));
    for (auto& x : W->regions) if (x->alive) Check(*x, r);
  } else {
    auto& o = *W->regions[r.Below(W->regions.size())];
    if (o.alive) Check(o, r);
  }
  Check(g, r);
  vh::Case(vh::HashStr(Fmt("%d %d %d %zu %ld %ld", k, (int)W->cache, (int)W->index_role, g.log.size(), (long)(g.raft_first - (g.log.empty() ? 0 : g.log.begin()->first)), (long)g.id)));
}
static void RunModel(Rng& r) {
  static const int64_t kIds[] = {0, 1, 2, 255, 256, 257, 65535, 65536, 80001, 80002, 0x7fffffffll, 0x80000000ll, 0xffffffffll, 0x100000000ll, 0x7fffffffffffffll, 0x7f00000000000000ll};
  for (uint64_t round = 0; round < vh::N(50, 500); ++round) {
    World w;
    W = &w;
    w.path = g_root + Fmt("/m%ld", (long)round);
    w.index_role = r.Chance(2, 3);
    w.cache = r.Chance(1, 2);
    Flag("rocks_log_enable_get_term_cache", w.cache ? "true" : "false");
    Flag("rocks_log_max_write_batch_size", std::to_string(r.Range(1, 8)));
    Flag("rocks_log_max_mutation_batch_size", std::to_string(r.Range(1, 8)));
    w.st = Open(w.path, w.index_role);
    std::set<int64_t> ids;
    int n = r.Range(2, 6);
    size_t base = r.Below(16);
    for (int i = 0; i < n; ++i) ids.insert(kIds[(base + (r.Chance(1, 4) ? r.Below(16) : i)) % 16]);
    for (auto id : ids) { w.regions.push_back(std::make_unique<Region>()); w.regions.back()->id = id; InitWrapper(*w.regions.back()); }
    vh::SetCase(Fmt("model round %ld, %zu regions, %s, term cache %d", (long)round, ids.size(), w.index_role ? "index" : "store", (int)w.cache));
    for (int s = 0; s < 220; ++s) Step(r);
    for (auto& g : w.regions) g->w.reset();
    w.st->Close();
    w.st.reset();
    vsrocks::Forget(w.path);
  }
}

// ---- many writers, and images of the disk at any moment
struct CrashRegion {
  int64_t id;
  Wrapper w;
  std::mutex m;
  std::vector<Log> states;          // after each operation, in order; states[issued] may not be on disk yet
  std::atomic<int> acked{0}, issued{0};
  std::atomic<bool> failed{false};
};
struct Image { std::string path; std::vector<int> acked, issued; std::string when; uint64_t cut; };
static void RunCrash(Rng& r) {
  for (uint64_t round = 0; round < vh::N(40, 400); ++round) {
    bool sync = !r.Chance(1, 6);
    braft::FLAGS_raft_sync = sync;
    Flag("rocks_log_max_write_batch_size", std::to_string(r.Chance(1, 2) ? r.Range(1, 8) : 512));
    Flag("rocks_log_max_mutation_batch_size", std::to_string(r.Chance(1, 2) ? r.Range(1, 8) : 256));
    Flag("rocks_log_enable_get_term_cache", r.Chance(1, 2) ? "true" : "false");
    std::string path = g_root + Fmt("/c%ld", (long)round);
    auto st = Open(path, true);
    int n = r.Range(2, 6);
    std::vector<std::unique_ptr<CrashRegion>> gs;
    for (int i = 0; i < n; ++i) {
      auto g = std::make_unique<CrashRegion>();
      g->id = 80000 + i;
      g->w = std::make_unique<wal::RocksLogStorageWrapper>(g->id, st);
      braft::ConfigurationManager cm;
      g->w->init(&cm);
      g->states.push_back({});
      gs.push_back(std::move(g));
    }
    std::vector<Image> images;
    std::mutex im;
    std::atomic<int> taken{0}, fail_sync{0};
    uint64_t salt = r.Next();
    // What was acknowledged is read before the image is taken, what was begun after.
    auto take = [&](const char* when, Rng& w) {
      int no = taken.fetch_add(1);
      if (no > 40) return;
      Image i;
      i.when = when;
      for (auto& g : gs) i.acked.push_back(g->acked.load());
      i.path = path + Fmt("-i%d-%s", no, std::string(when).substr(0, 6).c_str());
      auto c = vsrocks::Clone(path, i.path);
      for (auto& g : gs) i.issued.push_back(g->issued.load());
      i.cut = c->synced + w.Below(c->seq - c->synced + 1);
      vsrocks::Crash(i.path, i.cut);
      std::lock_guard<std::mutex> g(im);
      images.push_back(i);
    };
    vsrocks::ctl().after_write = [&](const std::string& p, const std::vector<vsrocks::Op>&, uint64_t seq, bool) {
      if (p != path) return;
      Rng w(salt ^ seq);
      if (w.Chance(1, 12)) { usleep(w.Below(300)); take("after a write", w); }
    };
    vsrocks::ctl().before_sync = [&](const std::string& p) {
      if (p != path) return true;
      Rng w(salt ^ vsrocks::ctl().writes.load() * 31);
      if (w.Chance(1, 12)) { usleep(200 + w.Below(400)); take("before a sync", w); }
      if (fail_sync > 0 && w.Chance(1, 3)) { --fail_sync; vh::Count("syncs_failed"); return false; }
      return true;
    };
    std::atomic<bool> stop{false};
    std::vector<std::thread> th;
    for (int i = 0; i < n; ++i)
      th.emplace_back([&, i] {
        auto& g = *gs[i];
        Rng w(salt + i * 977);
        int64_t next = 1, first = 1, raft_first = 1, raft = 0, vec = 0, term = 1;
        Log cur;
        for (int s = 0; s < 60 && !g.failed; ++s) {
          int k = w.Below(20);
          std::function<bool()> op;
          Log want = cur;
          int64_t new_next = next;
          if (k < 12 || cur.empty()) {
            std::vector<Ent> v;
            for (int j = w.Chance(1, 12) ? w.Range(30, 300) : w.Range(1, 6); j > 0; --j) { if (w.Chance(1, 5)) ++term; v.push_back(RandomEnt(w, term)); }
            for (auto& e : v) want[new_next++] = e;
            op = [&, v] { return Append(g.w.get(), next, v, true, false); };
          } else if (k < 15) {
            int64_t keep = std::max(raft_first - 1, next - 1 - (int64_t)w.Below(5));
            want.erase(want.upper_bound(keep), want.end());
            new_next = keep + 1;
            ++term;
            op = [&, keep] { return g.w->truncate_suffix(keep) == 0; };
          } else if (k < 19) {
            bool rf = w.Chance(1, 2);
            int64_t keep = w.Range(first, next);
            if (rf) { raft = std::max(raft, keep); raft_first = std::max(raft_first, keep); keep = raft; }
            else { vec = std::max(vec, keep); keep = vec; }
            want.erase(want.begin(), want.lower_bound(std::min(raft, vec)));
            op = [&, keep, rf] { return rf ? g.w->truncate_prefix(keep) == 0 : st->TruncatePrefix(ClientType::kVectorIndex, g.id, keep) == 0; };
          } else {
            int64_t to = w.Range(raft_first, next + 10);
            want.clear();
            new_next = to;
            raft_first = to;
            raft = vec = 0;
            op = [&, to] { return g.w->reset(to) == 0; };
          }
          { std::lock_guard<std::mutex> l(g.m); g.states.push_back(want); }
          ++g.issued;
          if (!op()) {
            if (vsrocks::ctl().before_sync == nullptr) return;
            g.failed = true;  // raft gives such a replica up
            vh::Count("operations_failed");
            break;
          }
          ++g.acked;
          cur = want;
          next = new_next;
          if (!cur.empty()) first = cur.begin()->first;
        }
      });
    std::thread camera([&] { Rng w(salt + 5); while (!stop) { usleep(300 + w.Below(3000)); take("at any moment", w); } });
    if (r.Chance(1, 4)) { usleep(2000); fail_sync = 2; }
    for (auto& t : th) t.join();
    stop = true;
    camera.join();
    { Rng w(salt + 6); taken = 0; take("at the end", w); }
    int dead = 0;
    for (auto& g : gs) { dead += g->failed; g->w.reset(); }
    if (dead && !vsrocks::ctl().before_sync) vh::Broken("hooks");
    st->Close();
    st.reset();
    vsrocks::ctl().after_write = nullptr;
    vsrocks::ctl().before_sync = nullptr;
    for (auto& im : images) {
      auto s = Open(im.path, true);
      for (size_t i = 0; i < gs.size(); ++i) {
        auto& g = *gs[i];
        wal::RocksLogStorageWrapper w(g.id, s);
        braft::ConfigurationManager cm;
        if (w.init(&cm) != 0) { vh::Fail("crash-init", "init fails after a power loss"); continue; }
        Log got;
        for (auto& e : s->GetEntries(g.id, 0, INT64_MAX)) got[e->index] = FromLog(*e);
        std::string head = Fmt("round %ld, power lost %s, region %ld (%d operations answered, %d begun): ", (long)round, im.when.c_str(), (long)g.id, im.acked[i], im.issued[i]);
        int64_t want_next = 0;
        for (auto& [ix, e] : got) { if (want_next && ix != want_next) { vh::Fail("crash-hole", head + Fmt("entry %ld follows entry %ld", (long)ix, (long)want_next - 1)); break; } want_next = ix + 1; }
        int from = sync ? im.acked[i] : 0, to = std::min<int>(im.issued[i], g.states.size() - 1), hit = -1;
        for (int j = to; j >= from && hit < 0; --j) if (g.states[j] == got) hit = j;
        if (hit < 0) {
          int old = -1;
          for (int j = 0; j < from; ++j) if (g.states[j] == got) old = j;
          if (old >= 0) vh::Fail("crash-lost", head + Fmt("the log is as it was after operation %d", old));
          else vh::Fail("crash-mixed", head + Fmt("the log, %zu entries, is not the result of any prefix of the operations", got.size()));
        } else {
          vh::Count(hit > im.acked[i] ? "recovered_unanswered" : "recovered");
        }
        int64_t f = w.first_log_index(), l = w.last_log_index();
        if (got.empty() ? l != f - 1 : f != got.begin()->first || l != got.rbegin()->first) vh::Fail("crash-bounds", head + Fmt("the log is said to go from %ld to %ld", (long)f, (long)l));
        for (auto& [ix, e] : got) if (w.get_term(ix) != e.term) { vh::Fail("crash-term", head + Fmt("term of entry %ld is wrong", (long)ix)); break; }
        // Life goes on.
        if (!got.empty()) {
          Rng x(salt + i);
          Ent e = RandomEnt(x, got.rbegin()->second.term + 1);
          if (!Append(&w, l + 1, {e}, true, false)) vh::Fail("crash-append", head + "append fails after a power loss");
          auto* b = w.get_entry(l + 1);
          if (!b || !(FromBraft(b) == e)) vh::Fail("crash-append", head + "what is appended after a power loss does not read back");
          if (b) b->Release();
        }
        vh::Case(vh::HashStr(Fmt("%s %d %zu %ld", im.when.c_str(), im.issued[i] - im.acked[i], got.size(), (long)(sync ? 1 : 0) + 2 * (hit - im.acked[i]))));
      }
      s->Close();
      s.reset();
      vsrocks::Forget(im.path);
      vh::Count("images");
      vh::Count(im.when == "before a sync" ? "images_unsynced" : im.when == "after a write" ? "images_written" : "images_anytime");
    }
    vsrocks::Forget(path);
    braft::FLAGS_raft_sync = true;
  }
}

// ---- raft, the vector index, readers and the birth and death of regions, all at once
struct RaceRegion {
  int64_t id;
  Wrapper w;
  std::atomic<int64_t> applied{0};  // raft does not take back entries up to here
  std::atomic<int64_t> raft_keep{0};
};
static std::string Content(int64_t region, int64_t index, int64_t term) { return Fmt("%ld/%ld/%ld", (long)region, (long)index, (long)term) + std::string(index % 50, 'x'); }
static void RunRace(Rng& r) {
  for (uint64_t round = 0; round < vh::N(20, 120); ++round) {
    Flag("rocks_log_max_write_batch_size", std::to_string(r.Chance(1, 2) ? r.Range(1, 8) : 512));
    Flag("rocks_log_max_mutation_batch_size", std::to_string(r.Chance(1, 2) ? r.Range(1, 8) : 256));
    Flag("rocks_log_enable_get_term_cache", r.Chance(1, 2) ? "true" : "false");
    std::string path = g_root + Fmt("/r%ld", (long)round);
    auto st = Open(path, true);
    std::vector<std::unique_ptr<RaceRegion>> gs;
    for (int i = 0; i < 3; ++i) {
      auto g = std::make_unique<RaceRegion>();
      g->id = 100 + 2 * i;
      g->w = std::make_unique<wal::RocksLogStorageWrapper>(g->id, st);
      braft::ConfigurationManager cm;
      g->w->init(&cm);
      gs.push_back(std::move(g));
    }
    std::atomic<int> writers{(int)gs.size()};
    std::vector<std::thread> th;
    uint64_t salt = r.Next();
    auto entry = [](int64_t region, int64_t index, int64_t term) { Ent e; e.term = term; e.data = Content(region, index, term); return e; };
    for (auto& gp : gs) {
      th.emplace_back([&, g = gp.get()] {
        Rng w(salt + g->id);
        std::map<int64_t, int64_t> terms;
        int64_t next = 1, first = 1, term = 1;
        for (int s = 0; s < 250; ++s) {
          int k = w.Below(10);
          if (k < 6) {
            std::vector<Ent> v;
            int n = w.Range(1, 5);
            for (int j = 0; j < n; ++j) { v.push_back(entry(g->id, next + j, term)); terms[next + j] = term; }
            if (!Append(g->w.get(), next, v, true, false)) vh::Fail("race-append", "append fails");
            next += n;
            if (w.Chance(1, 2)) g->applied = w.Range(g->applied, next - 1);
          } else if (k < 7) {
            int64_t keep = w.Range(std::max(g->applied.load(), first - 1), next - 1);
            if (g->w->truncate_suffix(keep) != 0) vh::Fail("race-suffix", "truncating the tail fails");
            terms.erase(terms.upper_bound(keep), terms.end());
            next = keep + 1;
            ++term;
          } else if (k < 8) {
            if (g->applied < first) continue;
            first = w.Range(first, g->applied);
            g->raft_keep = first;
            if (g->w->truncate_prefix(first) != 0) vh::Fail("race-prefix", "truncating the head fails");
          } else {
            int64_t i = w.Range(first, next - 1);
            if (i < next) {
              auto* b = g->w->get_entry(i);
              if (!b) { vh::Fail("race-lost", Fmt("entry %ld of [%ld, %ld) is gone", (long)i, (long)first, (long)next)); continue; }
              if (!(FromBraft(b) == entry(g->id, i, terms[i]))) vh::Fail("race-differs", Fmt("entry %ld of region %ld is not what was appended", (long)i, (long)g->id));
              b->Release();
              if (g->w->get_term(i) != terms[i]) vh::Fail("race-term", Fmt("term of entry %ld is wrong", (long)i));
              vh::Count("raced_reads");
            }
            if (g->w->last_log_index() != next - 1) vh::Fail("race-last", Fmt("the log ends at %ld, not %ld", (long)g->w->last_log_index(), (long)next - 1));
            if (g->w->first_log_index() > first) vh::Fail("race-first", Fmt("the log starts at %ld, raft keeps from %ld", (long)g->w->first_log_index(), (long)first));
          }
        }
        --writers;
      });
      // The vector index: what it asked to keep and raft has applied can be replayed at any time.
      th.emplace_back([&, g = gp.get()] {
        Rng w(salt + g->id + 7777);
        int64_t keep = 0;
        bool released = false;
        auto ask = [&](int64_t k) { if (st->TruncatePrefix(ClientType::kVectorIndex, g->id, k) != 0) vh::Fail("race-prefix", "truncating the head fails"); };
        while (writers > 0) {
          usleep(w.Below(600));
          int64_t a = g->applied;
          int k = w.Below(6);
          if (k == 0 && !released) { ask(INT64_MAX); released = true; }
          else if (k <= 1 && released) {
            ask(0);  // hold: what the log has now is what can be relied on
            released = false;
            keep = std::max(st->FirstLogIndex(g->id), g->raft_keep.load());
            vh::Count("raced_holds");
          } else if (k == 2 && !released && a > keep) { keep = w.Range(keep, a); ask(keep); vh::Count("raced_vector_truncations"); }
          if (!released && a >= keep && keep > 0) {
            auto v = st->GetEntries(g->id, keep, a + 1);
            int64_t want = keep;
            for (auto& e : v) { if (e->index != want) break; ++want; }
            if (want != a + 1) vh::Fail("race-replay", Fmt("region %ld: entry %ld is gone, though the vector index kept the log from %ld and raft applied to %ld", (long)g->id, (long)want, (long)keep, (long)a));
            vh::Count("raced_replays");
          }
        }
      });
    }
    for (int t = 0; t < 2; ++t)
      th.emplace_back([&, t] {
        Rng w(salt + t + 99);
        while (writers > 0) {
          auto& g = *gs[w.Below(gs.size())];
          int64_t from = w.Chance(1, 2) ? 0 : g.applied.load();
          int64_t last = 0, last_term = 0;
          auto see = [&](const wal::LogEntry& e) {
            if (e.region_id != g.id || e.out_data != Content(g.id, e.index, e.term)) vh::Fail("race-content", "an entry with the content of another");
            if (last && e.index != last + 1) vh::Fail("race-hole", Fmt("entry %ld follows entry %ld", (long)e.index, (long)last));
            if (e.term < last_term) vh::Fail("race-terms", Fmt("terms go back at entry %ld", (long)e.index));
            last = e.index;
            last_term = e.term;
          };
          if (w.Chance(1, 2)) { for (auto& e : st->GetEntries(g.id, from, INT64_MAX)) see(*e); }
          else st->HasSpecificLog(g.id, from, INT64_MAX, [&](const wal::LogEntry& e) { see(e); return w.Chance(1, 30); });
          auto m = st->GetLogIndexMeta({}, w.Chance(1, 2));
          if (m.count(g.id) == 0) vh::Fail("race-meta", "a region is not listed");
          vh::Count("raced_scans");
          usleep(w.Below(300));
        }
      });
    th.emplace_back([&] {
      Rng w(salt + 5);
      int64_t n = 0;
      while (writers > 0) {
        int64_t id = 101 + 2 * w.Below(3);
        wal::RocksLogStorageWrapper x(id, st);
        braft::ConfigurationManager cm;
        x.init(&cm);
        ++n;
        if (x.first_log_index() != 1 || x.last_log_index() != 0) vh::Fail("race-birth", "a new region does not start with an empty log");
        Append(&x, 1, {entry(id, 1, n), entry(id, 2, n)}, false, true);
        auto* b = x.get_entry(2);
        if (!b || !(FromBraft(b) == entry(id, 2, n))) vh::Fail("race-birth", "what a new region appends does not read back");
        if (b) b->Release();
        if (!st->DestroyRegionLog(id)) vh::Fail("race-destroy", "destroy fails");
        if (!st->GetEntries(id, 0, INT64_MAX).empty()) vh::Fail("race-destroy", "entries of a destroyed log are left");
        vh::Count("raced_births");
        usleep(w.Below(2000));
      }
    });
    for (auto& t : th) t.join();
    // Both clients let go: nothing is kept back.
    for (auto& g : gs) {
      int64_t k = g->applied;
      if (k < 2) continue;
      std::thread a([&] { st->TruncatePrefix(ClientType::kVectorIndex, g->id, k); });
      g->w->truncate_prefix(k);
      a.join();
      if (st->FirstLogIndex(g->id) != k) vh::Fail("race-not-freed", Fmt("both clients keep from %ld, the log starts at %ld", (long)k, (long)st->FirstLogIndex(g->id)));
      vh::Count("raced_truncations_end");
    }
    // Two clients let go together, step by step.
    {
      auto& g = *gs[0];
      int64_t base = g.w->last_log_index() + 1;
      g.w->reset(base);
      std::vector<Ent> v;
      for (int64_t i = 0; i < 100; ++i) v.push_back(entry(g.id, base + i, 1000000));
      Append(g.w.get(), base, v, false, false);
      for (int64_t i = 1; i < 100; i += 1 + r.Below(3)) {
        std::atomic<int> ready{0};
        std::thread a([&] { ++ready; while (ready < 2) {} st->TruncatePrefix(ClientType::kVectorIndex, g.id, base + i); });
        ++ready;
        while (ready < 2) {}
        g.w->truncate_prefix(base + i);
        a.join();
        if (st->FirstLogIndex(g.id) != base + i) vh::Fail("race-not-freed", Fmt("two clients let go of entries before %ld at the same moment, the log starts at %ld", (long)(base + i), (long)st->FirstLogIndex(g.id)));
        vh::Count("raced_truncations");
      }
    }
    for (auto& g : gs) g->w.reset();
    st->Close();
    st.reset();
    vsrocks::Forget(path);
    vh::Case(vh::HashStr(Fmt("round %ld", (long)round)));
  }
}

int main(int argc, char** argv) {
  vh::Init(argc, argv);
  char tmp[] = "/tmp/raftlog.XXXXXX";
  g_root = mkdtemp(tmp);
  atexit([] { std::filesystem::remove_all(g_root); });
  senv::Start("store", g_root + "/env", false);
  FLAGS_minloglevel = 3;
  Rng r(vh::Seed());
  std::string mode = vh::Arg("mode", "model");
  if (mode == "model") RunModel(r);
  else if (mode == "crash") RunCrash(r);
  else if (mode == "race") RunRace(r);
  else vh::Broken("mode");
  std::filesystem::remove_all(g_root);
  return vh::Finish();
}
