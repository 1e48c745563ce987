// In-memory stand-in for the RocksDB API the project uses: versioned column families, atomic batches, snapshots,
// iterators that honour bounds, SST files, checkpoints; plus crash / fault / observation controls (namespace vsrocks).
#pragma once
#include <dirent.h>
#include <sys/stat.h>
#include <unistd.h>

#include <atomic>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <shared_mutex>
#include <string>
#include <string_view>
#include <vector>

namespace rocksdb {
class Slice {
 public:
  Slice() : data_(""), size_(0) {}
  Slice(const char* d, size_t n) : data_(d), size_(n) {}
  Slice(const std::string& s) : data_(s.data()), size_(s.size()) {}
  Slice(std::string_view s) : data_(s.data()), size_(s.size()) {}
  Slice(const char* s) : data_(s), size_(strlen(s)) {}
  const char* data() const { return data_; }
  size_t size() const { return size_; }
  bool empty() const { return size_ == 0; }
  char operator[](size_t i) const { return data_[i]; }
  void clear() { data_ = ""; size_ = 0; }
  void remove_prefix(size_t n) { data_ += n; size_ -= n; }
  std::string ToString(bool hex = false) const {
    if (!hex) return std::string(data_, size_);
    std::string r;
    char b[3];
    for (size_t i = 0; i < size_; ++i) { snprintf(b, 3, "%02X", (unsigned char)data_[i]); r += b; }
    return r;
  }
  std::string_view ToStringView() const { return {data_, size_}; }
  int compare(const Slice& o) const {
    size_t m = size_ < o.size_ ? size_ : o.size_;
    int r = m ? memcmp(data_, o.data_, m) : 0;
    return r ? r : size_ < o.size_ ? -1 : size_ > o.size_;
  }
  bool starts_with(const Slice& x) const { return size_ >= x.size_ && memcmp(data_, x.data_, x.size_) == 0; }

  const char* data_;
  size_t size_;
};
inline bool operator==(const Slice& a, const Slice& b) { return a.compare(b) == 0; }
inline bool operator!=(const Slice& a, const Slice& b) { return a.compare(b) != 0; }

class Status {
 public:
  enum Code : unsigned char { kOk = 0, kNotFound = 1, kCorruption = 2, kNotSupported = 3, kInvalidArgument = 4, kIOError = 5 };
  Status() = default;
  Status(Code c, std::string m) : c_(c), m_(std::move(m)) {}
  static Status OK() { return {}; }
  static Status NotFound(const std::string& m = "") { return {kNotFound, m}; }
  static Status InvalidArgument(const std::string& m) { return {kInvalidArgument, m}; }
  static Status IOError(const std::string& m) { return {kIOError, m}; }
  static Status Corruption(const std::string& m) { return {kCorruption, m}; }
  bool ok() const { return c_ == kOk; }
  bool IsNotFound() const { return c_ == kNotFound; }
  Code code() const { return c_; }
  std::string ToString() const {
    static const char* n[] = {"OK", "NotFound: ", "Corruption: ", "Not implemented: ", "Invalid argument: ", "IO error: "};
    return n[c_] + m_;
  }

 private:
  Code c_{kOk};
  std::string m_;
};

// ---- options (fields only; nothing here changes the meaning of reads and writes)
enum CompressionType { kNoCompression, kSnappyCompression, kZlibCompression, kBZip2Compression, kLZ4Compression, kLZ4HCCompression, kXpressCompression, kZSTD };
struct CompressionOptions { int window_bits{-14}, level{0}, strategy{0}; uint32_t max_dict_bytes{0}, zstd_max_train_bytes{0}; };
class Cache { public: virtual ~Cache() = default; };
class TableFactory { public: virtual ~TableFactory() = default; };
class FilterPolicy { public: virtual ~FilterPolicy() = default; };
class SliceTransform { public: virtual ~SliceTransform() = default; };
class RateLimiter { public: virtual ~RateLimiter() = default; };
class Statistics { public: virtual ~Statistics() = default; };
class EventListener { public: virtual ~EventListener() = default; };
inline std::shared_ptr<Cache> NewLRUCache(size_t, int = -1, bool = false, double = 0.5) { return std::make_shared<Cache>(); }
inline const FilterPolicy* NewBloomFilterPolicy(double, bool = false) { return new FilterPolicy; }
inline const SliceTransform* NewCappedPrefixTransform(size_t) { return new SliceTransform; }
inline const SliceTransform* NewFixedPrefixTransform(size_t) { return new SliceTransform; }
inline std::shared_ptr<Statistics> CreateDBStatistics() { return std::make_shared<Statistics>(); }
inline RateLimiter* NewGenericRateLimiter(int64_t, int64_t = 0, int32_t = 0) { return new RateLimiter; }
struct BlockBasedTableOptions {
  size_t block_size{4096};
  std::shared_ptr<Cache> block_cache;
  std::shared_ptr<const FilterPolicy> filter_policy;
  bool whole_key_filtering{true};
};
inline TableFactory* NewBlockBasedTableFactory(const BlockBasedTableOptions& = {}) { return new TableFactory; }
class Env { public: static Env* Default() { static Env e; return &e; } };
struct EnvOptions { EnvOptions() = default; template <class T> explicit EnvOptions(const T&) {} };
struct ColumnFamilyOptions {
  size_t write_buffer_size{64 << 20}, arena_block_size{0};
  int max_write_buffer_number{2}, min_write_buffer_number_to_merge{1}, level0_file_num_compaction_trigger{4}, num_levels{7};
  uint64_t max_compaction_bytes{0}, max_bytes_for_level_base{0}, target_file_size_base{0};
  double max_bytes_for_level_multiplier{10};
  std::shared_ptr<const SliceTransform> prefix_extractor;
  std::vector<CompressionType> compression_per_level;
  CompressionType compression{kNoCompression}, bottommost_compression{kNoCompression};
  CompressionOptions compression_opts, bottommost_compression_opts;
  std::shared_ptr<TableFactory> table_factory;
};
struct DBOptions {
  bool create_if_missing{false}, create_missing_column_families{false}, use_direct_io_for_flush_and_compaction{false},
      use_direct_reads{false}, manual_wal_flush{false}, error_if_exists{false}, enable_pipelined_write{false};
  int max_background_jobs{2};
  uint32_t max_subcompactions{1};
  unsigned stats_dump_period_sec{600};
  size_t recycle_log_file_num{0};
  uint64_t max_total_wal_size{0}, bytes_per_sync{0}, wal_bytes_per_sync{0};
  std::shared_ptr<Statistics> statistics;
  std::shared_ptr<RateLimiter> rate_limiter;
  std::vector<std::shared_ptr<EventListener>> listeners;
  Env* env{Env::Default()};
};
struct Options : DBOptions, ColumnFamilyOptions {};
struct WriteOptions { bool sync{false}, disableWAL{false}; };
struct FlushOptions { bool wait{true}, allow_write_stall{false}; };
enum class BottommostLevelCompaction { kSkip, kIfHaveCompactionFilter, kForce, kForceOptimized };
struct CompactRangeOptions { bool exclusive_manual_compaction{true}, allow_write_stall{false}, change_level{false}; BottommostLevelCompaction bottommost_level_compaction{}; };
struct IngestExternalFileOptions { bool move_files{false}, snapshot_consistency{true}, allow_global_seqno{true}, allow_blocking_flush{true}, write_global_seqno{false}; };
struct SizeApproximationOptions { bool include_memtables{false}, include_files{true}; double files_size_error_margin{-1}; };
struct Range { Slice start, limit; Range() = default; Range(const Slice& s, const Slice& l) : start(s), limit(l) {} };

enum PerfLevel : unsigned char { kUninitialized, kDisable, kEnableCount, kEnableTimeExceptForMutex, kEnableTime };
struct PerfContext {
  uint64_t block_cache_hit_count{0}, block_read_count{0}, block_read_byte{0}, block_read_time{0}, block_decompress_time{0},
      internal_key_skipped_count{0}, internal_delete_skipped_count{0}, user_key_comparison_count{0}, seek_internal_seek_time{0}, find_next_user_entry_time{0};
  void Reset() { *this = PerfContext(); }
};
inline PerfLevel& vs_perf_level() { static thread_local PerfLevel l = kDisable; return l; }
inline void SetPerfLevel(PerfLevel l) { vs_perf_level() = l; }
inline PerfContext* get_perf_context() { static thread_local PerfContext c; return &c; }
}  // namespace rocksdb

namespace vsrocks {
struct Op {
  int kind;  // 0 put, 1 delete, 2 delete range
  std::string cf, key, value;
};
struct Version { uint64_t seq; bool del; std::string value; };
struct SstMeta { std::string name, cf, smallest, largest; int level; std::vector<std::pair<std::string, std::string>> kvs; };
struct Core {
  std::string path;
  mutable std::shared_mutex m;
  uint64_t seq{1}, synced{1}, file_no{10};
  std::map<std::string, std::map<std::string, std::vector<Version>>> cfs;
  std::map<std::string, std::vector<std::shared_ptr<SstMeta>>> files;  // as of the last flush
  bool open{false};
};
struct Control {
  std::mutex m;
  std::map<std::string, std::shared_ptr<Core>> disk;
  // Called (outside any lock) before a batch is applied; returning false fails the write with an I/O error.
  std::function<bool(const std::string& path, const std::vector<Op>&, bool sync)> before_write;
  std::function<void(const std::string& path, const std::vector<Op>&, uint64_t seq, bool sync)> after_write;
  std::function<void(const std::string& path, const std::string& key)> before_read;  // point reads
  std::function<bool(const std::string& path)> before_sync;                         // false fails SyncWAL
  std::atomic<uint64_t> writes{0}, iterators{0}, gets{0}, live_iterators{0}, live_snapshots{0};
  int keys_per_file{7};
};
inline Control& ctl() { static Control* c = new Control; return *c; }
inline std::shared_ptr<Core> Find(const std::string& path) {
  std::lock_guard<std::mutex> g(ctl().m);
  auto it = ctl().disk.find(path);
  return it == ctl().disk.end() ? nullptr : it->second;
}
inline void Forget(const std::string& path) {
  std::lock_guard<std::mutex> g(ctl().m);
  ctl().disk.erase(path);
}
// The state of the disk at this moment, as another database.
inline std::shared_ptr<Core> Clone(const std::string& from, const std::string& to) {
  auto c = Find(from);
  if (!c) return nullptr;
  auto n = std::make_shared<Core>();
  {
    std::shared_lock<std::shared_mutex> g(c->m);
    n->path = to;
    n->seq = c->seq;
    n->synced = c->synced;
    n->file_no = c->file_no;
    n->cfs = c->cfs;
    n->files = c->files;
  }
  std::lock_guard<std::mutex> g(ctl().m);
  ctl().disk[to] = n;
  return n;
}
// Power loss: everything after sequence `cut` (never before the last sync) is gone.
inline void Crash(const std::string& path, uint64_t cut) {
  auto c = Find(path);
  if (!c) return;
  std::unique_lock<std::shared_mutex> g(c->m);
  if (cut < c->synced) cut = c->synced;
  for (auto& cf : c->cfs)
    for (auto& kv : cf.second)
      while (!kv.second.empty() && kv.second.back().seq > cut) kv.second.pop_back();
  if (c->seq > cut) c->seq = cut;
  c->open = false;
}
inline bool Visible(const std::vector<Version>& v, uint64_t seq, const std::string** out) {
  for (size_t i = v.size(); i-- > 0;)
    if (v[i].seq <= seq) {
      if (v[i].del) return false;
      *out = &v[i].value;
      return true;
    }
  return false;
}
inline void PutS(std::string& b, const std::string& s) {
  uint32_t n = s.size();
  b.append((char*)&n, 4);
  b += s;
}
inline bool GetS(const std::string& b, size_t& p, std::string* s) {
  uint32_t n;
  if (p + 4 > b.size()) return false;
  memcpy(&n, b.data() + p, 4);
  p += 4;
  if (p + n > b.size()) return false;
  s->assign(b, p, n);
  p += n;
  return true;
}
inline uint32_t Sum(const std::string& b) {
  uint32_t h = 2166136261u;
  for (unsigned char c : b) h = (h ^ c) * 16777619u;
  return h;
}
inline bool WriteSst(const std::string& path, const std::string& cf, const std::vector<std::pair<std::string, std::string>>& kvs) {
  std::string b = "VSST1";
  PutS(b, cf);
  uint32_t n = kvs.size();
  b.append((char*)&n, 4);
  for (auto& kv : kvs) { PutS(b, kv.first); PutS(b, kv.second); }
  uint32_t c = Sum(b);
  b.append((char*)&c, 4);
  FILE* f = fopen(path.c_str(), "wb");
  if (!f) return false;
  bool ok = fwrite(b.data(), 1, b.size(), f) == b.size();
  return fclose(f) == 0 && ok;
}
inline bool ReadSst(const std::string& path, std::string* cf, std::vector<std::pair<std::string, std::string>>* kvs) {
  FILE* f = fopen(path.c_str(), "rb");
  if (!f) return false;
  std::string b;
  char t[65536];
  size_t r;
  while ((r = fread(t, 1, sizeof t, f)) > 0) b.append(t, r);
  fclose(f);
  if (b.size() < 13 || b.compare(0, 5, "VSST1") != 0) return false;
  uint32_t c, n;
  memcpy(&c, b.data() + b.size() - 4, 4);
  b.resize(b.size() - 4);
  if (Sum(b) != c) return false;
  size_t p = 5;
  if (!GetS(b, p, cf) || p + 4 > b.size()) return false;
  memcpy(&n, b.data() + p, 4);
  p += 4;
  kvs->clear();
  for (uint32_t i = 0; i < n; ++i) {
    std::string k, v;
    if (!GetS(b, p, &k) || !GetS(b, p, &v)) return false;
    kvs->emplace_back(std::move(k), std::move(v));
  }
  return true;
}
}  // namespace vsrocks

namespace rocksdb {
class Snapshot {
 public:
  uint64_t seq;
};
struct ReadOptions {
  const Snapshot* snapshot{nullptr};
  const Slice* iterate_upper_bound{nullptr};
  const Slice* iterate_lower_bound{nullptr};
  bool auto_prefix_mode{false}, async_io{false}, adaptive_readahead{false}, total_order_seek{false}, fill_cache{true},
      verify_checksums{true}, prefix_same_as_start{false}, tailing{false};
  size_t readahead_size{0};
};
class ColumnFamilyHandle {
 public:
  ColumnFamilyHandle(std::string n, uint32_t id) : n_(std::move(n)), id_(id) {}
  virtual ~ColumnFamilyHandle() = default;
  const std::string& GetName() const { return n_; }
  uint32_t GetID() const { return id_; }

 private:
  std::string n_;
  uint32_t id_;
};
struct ColumnFamilyDescriptor {
  std::string name;
  ColumnFamilyOptions options;
  ColumnFamilyDescriptor() = default;
  ColumnFamilyDescriptor(std::string n, const ColumnFamilyOptions& o) : name(std::move(n)), options(o) {}
};
inline const std::string kDefaultColumnFamilyName = "default";

class WriteBatch {
 public:
  Status Put(ColumnFamilyHandle* c, const Slice& k, const Slice& v) { return Add({0, c->GetName(), k.ToString(), v.ToString()}); }
  Status Put(const Slice& k, const Slice& v) { return Add({0, "default", k.ToString(), v.ToString()}); }
  Status Delete(ColumnFamilyHandle* c, const Slice& k) { return Add({1, c->GetName(), k.ToString(), ""}); }
  Status Delete(const Slice& k) { return Add({1, "default", k.ToString(), ""}); }
  Status DeleteRange(ColumnFamilyHandle* c, const Slice& a, const Slice& b) { return Add({2, c->GetName(), a.ToString(), b.ToString()}); }
  Status DeleteRange(const Slice& a, const Slice& b) { return Add({2, "default", a.ToString(), b.ToString()}); }
  void Clear() { ops_.clear(); }
  int Count() const { return ops_.size(); }
  const std::vector<vsrocks::Op>& ops() const { return ops_; }

 private:
  Status Add(vsrocks::Op o) { ops_.push_back(std::move(o)); return {}; }
  std::vector<vsrocks::Op> ops_;
};

class Iterator {
 public:
  virtual ~Iterator() = default;
  virtual bool Valid() const = 0;
  virtual void SeekToFirst() = 0;
  virtual void SeekToLast() = 0;
  virtual void Seek(const Slice&) = 0;
  virtual void SeekForPrev(const Slice&) = 0;
  virtual void Next() = 0;
  virtual void Prev() = 0;
  virtual Slice key() const = 0;
  virtual Slice value() const = 0;
  virtual Status status() const = 0;
};

class VsIterator : public Iterator {
 public:
  VsIterator(std::shared_ptr<vsrocks::Core> c, const std::string& cf, const ReadOptions& o) : c_(std::move(c)), cf_(cf), o_(o) {
    std::unique_lock<std::shared_mutex> g(c_->m);
    seq_ = o.snapshot ? o.snapshot->seq : c_->seq;
    map_ = &c_->cfs[cf_];
    ++vsrocks::ctl().iterators;
    ++vsrocks::ctl().live_iterators;
  }
  ~VsIterator() override { --vsrocks::ctl().live_iterators; }
  bool Valid() const override { return ok_; }
  void SeekToFirst() override { Seek(o_.iterate_lower_bound ? *o_.iterate_lower_bound : Slice()); }
  void SeekToLast() override {
    std::shared_lock<std::shared_mutex> g(c_->m);
    auto it = o_.iterate_upper_bound ? map_->lower_bound(o_.iterate_upper_bound->ToString()) : map_->end();
    Back(it);
  }
  void Seek(const Slice& k) override {
    std::shared_lock<std::shared_mutex> g(c_->m);
    std::string t = k.ToString();
    if (o_.iterate_lower_bound && Slice(t).compare(*o_.iterate_lower_bound) < 0) t = o_.iterate_lower_bound->ToString();
    Fwd(map_->lower_bound(t));
  }
  void SeekForPrev(const Slice& k) override {
    std::shared_lock<std::shared_mutex> g(c_->m);
    std::string t = k.ToString();
    if (o_.iterate_upper_bound && Slice(t).compare(*o_.iterate_upper_bound) >= 0)
      Back(map_->lower_bound(o_.iterate_upper_bound->ToString()));
    else
      Back(map_->upper_bound(t));
  }
  void Next() override {
    Must();
    std::shared_lock<std::shared_mutex> g(c_->m);
    Fwd(map_->upper_bound(k_));
  }
  void Prev() override {
    Must();
    std::shared_lock<std::shared_mutex> g(c_->m);
    Back(map_->lower_bound(k_));
  }
  Slice key() const override { Must(); return k_; }
  Slice value() const override { Must(); return v_; }
  Status status() const override { return {}; }

 private:
  using It = std::map<std::string, std::vector<vsrocks::Version>>::iterator;
  void Must() const {
    if (!ok_) { fprintf(stderr, "rocksdb iterator used while not Valid()\n"); abort(); }
  }
  void Take(It it, const std::string* v) { k_ = it->first; v_ = *v; ok_ = true; }
  void Fwd(It it) {
    ok_ = false;
    const std::string* v;
    for (; it != map_->end(); ++it) {
      if (o_.iterate_upper_bound && Slice(it->first).compare(*o_.iterate_upper_bound) >= 0) return;
      if (vsrocks::Visible(it->second, seq_, &v)) return Take(it, v);
    }
  }
  void Back(It it) {
    ok_ = false;
    const std::string* v;
    while (it != map_->begin()) {
      --it;
      if (o_.iterate_lower_bound && Slice(it->first).compare(*o_.iterate_lower_bound) < 0) return;
      if (vsrocks::Visible(it->second, seq_, &v)) return Take(it, v);
    }
  }
  std::shared_ptr<vsrocks::Core> c_;
  std::string cf_;
  ReadOptions o_;
  uint64_t seq_;
  std::map<std::string, std::vector<vsrocks::Version>>* map_;
  bool ok_{false};
  std::string k_, v_;
};

class VecIterator : public Iterator {
 public:
  explicit VecIterator(std::vector<std::pair<std::string, std::string>> v) : v_(std::move(v)) {}
  bool Valid() const override { return i_ < v_.size(); }
  void SeekToFirst() override { i_ = 0; }
  void SeekToLast() override { i_ = v_.empty() ? npos : v_.size() - 1; }
  void Seek(const Slice& k) override { for (i_ = 0; i_ < v_.size() && Slice(v_[i_].first).compare(k) < 0;) ++i_; }
  void SeekForPrev(const Slice& k) override {
    i_ = npos;
    for (size_t j = 0; j < v_.size() && Slice(v_[j].first).compare(k) <= 0; ++j) i_ = j;
  }
  void Next() override { ++i_; }
  void Prev() override { i_ = i_ == 0 ? npos : i_ - 1; }
  Slice key() const override { return v_[i_].first; }
  Slice value() const override { return v_[i_].second; }
  Status status() const override { return {}; }

 private:
  static constexpr size_t npos = (size_t)-1;
  std::vector<std::pair<std::string, std::string>> v_;
  size_t i_{npos};
};

struct SstFileMetaData { std::string name, smallestkey, largestkey, db_path; uint64_t size{0}, num_entries{0}; };
struct LevelMetaData { int level; uint64_t size; std::vector<SstFileMetaData> files; };
struct ColumnFamilyMetaData { uint64_t size{0}; size_t file_count{0}; std::string name; std::vector<LevelMetaData> levels; };

class DB {
 public:
  static Status Open(const DBOptions& o, const std::string& path, const std::vector<ColumnFamilyDescriptor>& cfs,
                     std::vector<ColumnFamilyHandle*>* handles, DB** db) {
    bool dflt = false;
    for (auto& c : cfs) dflt |= c.name == "default";
    if (!dflt) return Status::InvalidArgument("Default column family not specified");
    std::shared_ptr<vsrocks::Core> c;
    {
      std::lock_guard<std::mutex> g(vsrocks::ctl().m);
      auto& slot = vsrocks::ctl().disk[path];
      if (!slot) {
        if (!o.create_if_missing) return Status::InvalidArgument(path + ": does not exist (create_if_missing is false)");
        slot = std::make_shared<vsrocks::Core>();
        slot->path = path;
      }
      if (slot->open) return Status::IOError("lock hold by current process: " + path);
      slot->open = true;
      c = slot;
    }
    *db = new DB(c, false);
    handles->clear();
    uint32_t id = 0;
    for (auto& x : cfs) { c->cfs[x.name]; handles->push_back(new ColumnFamilyHandle(x.name, id++)); }
    return {};
  }
  static Status Open(const Options& o, const std::string& path, DB** db) {
    std::vector<ColumnFamilyHandle*> h;
    auto s = Open(o, path, {ColumnFamilyDescriptor("default", o)}, &h, db);
    for (auto* x : h) delete x;
    return s;
  }
  static Status OpenForReadOnly(const DBOptions&, const std::string& path, const std::vector<ColumnFamilyDescriptor>& cfs,
                                std::vector<ColumnFamilyHandle*>* handles, DB** db, bool = false) {
    auto c = std::make_shared<vsrocks::Core>();
    c->path = path;
    DIR* d = opendir(path.c_str());
    if (!d) return Status::IOError("no such directory: " + path);
    std::string err;
    while (dirent* e = readdir(d)) {
      std::string n = e->d_name;
      if (n.size() < 4 || n.substr(n.size() - 4) != ".sst") continue;
      std::string cf;
      std::vector<std::pair<std::string, std::string>> kvs;
      if (!vsrocks::ReadSst(path + "/" + n, &cf, &kvs)) { err = n; continue; }
      for (auto& kv : kvs) c->cfs[cf][kv.first].push_back({1, false, kv.second});
    }
    closedir(d);
    if (!err.empty()) return Status::Corruption("bad table file " + err);
    handles->clear();
    uint32_t id = 0;
    for (auto& x : cfs) {
      if (!c->cfs.count(x.name) && x.name != "default") {
        for (auto* h : *handles) delete h;
        handles->clear();
        return Status::InvalidArgument("Column family not found: " + x.name);
      }
      c->cfs[x.name];
      handles->push_back(new ColumnFamilyHandle(x.name, id++));
    }
    *db = new DB(c, true);
    return {};
  }
  virtual ~DB() { Close(); }
  Status Close() {
    if (!ro_ && !closed_) { std::lock_guard<std::mutex> g(vsrocks::ctl().m); c_->open = false; }
    closed_ = true;
    return {};
  }
  Status Get(const ReadOptions& o, ColumnFamilyHandle* h, const Slice& k, std::string* v) { return GetIn(o, h->GetName(), k, v); }
  Status Get(const ReadOptions& o, const Slice& k, std::string* v) { return GetIn(o, "default", k, v); }
  Status Put(const WriteOptions& o, ColumnFamilyHandle* h, const Slice& k, const Slice& v) { WriteBatch b; b.Put(h, k, v); return Write(o, &b); }
  Status Put(const WriteOptions& o, const Slice& k, const Slice& v) { WriteBatch b; b.Put(k, v); return Write(o, &b); }
  Status Delete(const WriteOptions& o, ColumnFamilyHandle* h, const Slice& k) { WriteBatch b; b.Delete(h, k); return Write(o, &b); }
  Status Delete(const WriteOptions& o, const Slice& k) { WriteBatch b; b.Delete(k); return Write(o, &b); }
  Status DeleteRange(const WriteOptions& o, ColumnFamilyHandle* h, const Slice& a, const Slice& e) { WriteBatch b; b.DeleteRange(h, a, e); return Write(o, &b); }
  Status DeleteRange(const WriteOptions& o, const Slice& a, const Slice& e) { WriteBatch b; b.DeleteRange(a, e); return Write(o, &b); }
  Status Write(const WriteOptions& o, WriteBatch* b) { return Apply(b->ops(), o.sync); }
  Iterator* NewIterator(const ReadOptions& o, ColumnFamilyHandle* h) { return new VsIterator(c_, h->GetName(), o); }
  Iterator* NewIterator(const ReadOptions& o) { return new VsIterator(c_, "default", o); }
  const Snapshot* GetSnapshot() {
    std::shared_lock<std::shared_mutex> g(c_->m);
    ++vsrocks::ctl().live_snapshots;
    auto* s = new Snapshot;
    s->seq = c_->seq;
    return s;
  }
  void ReleaseSnapshot(const Snapshot* s) { --vsrocks::ctl().live_snapshots; delete s; }
  Status IngestExternalFile(ColumnFamilyHandle* h, const std::vector<std::string>& fs, const IngestExternalFileOptions&) {
    if (fs.empty()) return Status::InvalidArgument("external_files is empty");
    std::vector<vsrocks::Op> ops;
    for (auto& f : fs) {
      std::string cf;
      std::vector<std::pair<std::string, std::string>> kvs;
      if (access(f.c_str(), R_OK)) return Status::IOError("No such file or directory: " + f);
      if (!vsrocks::ReadSst(f, &cf, &kvs)) return Status::Corruption("bad table file " + f);
      for (auto& kv : kvs) ops.push_back({0, h->GetName(), kv.first, kv.second});
    }
    return Apply(ops, true);
  }
  Status Flush(const FlushOptions& = {}, ColumnFamilyHandle* = nullptr) { FlushAll(); return {}; }
  Status CompactRange(const CompactRangeOptions&, ColumnFamilyHandle*, const Slice*, const Slice*) { return {}; }
  Status SyncWAL() {
    if (vsrocks::ctl().before_sync && !vsrocks::ctl().before_sync(c_->path)) return Status::IOError("injected");
    std::unique_lock<std::shared_mutex> g(c_->m);
    c_->synced = c_->seq;
    return {};
  }
  Status FlushWAL(bool sync) { return sync ? SyncWAL() : Status(); }
  Status DropColumnFamilies(const std::vector<ColumnFamilyHandle*>& hs) {
    if (ro_) return Status(Status::kNotSupported, "Not supported operation in read only mode.");
    for (auto* h : hs) {
      if (h->GetName() == "default") return Status::InvalidArgument("Can't drop default column family");
      std::unique_lock<std::shared_mutex> g(c_->m);
      c_->cfs.erase(h->GetName());
    }
    return {};
  }
  Status DestroyColumnFamilyHandle(ColumnFamilyHandle* h) { delete h; return {}; }
  Status DisableFileDeletions() { return {}; }
  Status EnableFileDeletions(bool = true) { return {}; }
  void GetColumnFamilyMetaData(ColumnFamilyHandle* h, ColumnFamilyMetaData* m) {
    std::shared_lock<std::shared_mutex> g(c_->m);
    *m = {};
    m->name = h->GetName();
    std::map<int, LevelMetaData> lv;
    auto it = c_->files.find(h->GetName());
    if (it != c_->files.end())
      for (auto& f : it->second) {
        auto& l = lv[f->level];
        l.level = f->level;
        SstFileMetaData x;
        x.name = f->name; x.smallestkey = f->smallest; x.largestkey = f->largest; x.num_entries = f->kvs.size();
        l.files.push_back(x);
      }
    for (auto& l : lv) m->levels.push_back(l.second);
  }
  Status GetApproximateSizes(const SizeApproximationOptions&, ColumnFamilyHandle* h, const Range* r, int n, uint64_t* out) {
    std::shared_lock<std::shared_mutex> g(c_->m);
    auto& m = c_->cfs[h->GetName()];
    for (int i = 0; i < n; ++i) {
      out[i] = 0;
      const std::string* v;
      for (auto it = m.lower_bound(r[i].start.ToString()); it != m.end() && Slice(it->first).compare(r[i].limit) < 0; ++it)
        if (vsrocks::Visible(it->second, c_->seq, &v)) out[i] += it->first.size() + v->size();
    }
    return {};
  }
  const std::string& GetName() const { return c_->path; }
  std::shared_ptr<vsrocks::Core> core() { return c_; }
  void FlushAll() {
    std::unique_lock<std::shared_mutex> g(c_->m);
    c_->synced = c_->seq;
    c_->files.clear();
    for (auto& cf : c_->cfs) {
      std::shared_ptr<vsrocks::SstMeta> cur;
      auto done = [&] {
        if (!cur) return;
        cur->smallest = cur->kvs.front().first;
        cur->largest = cur->kvs.back().first;
        c_->files[cf.first].push_back(cur);
        cur.reset();
      };
      const std::string* v;
      for (auto& kv : cf.second) {
        if (!vsrocks::Visible(kv.second, c_->seq, &v)) continue;
        if (!cur) {
          cur = std::make_shared<vsrocks::SstMeta>();
          char b[32];
          snprintf(b, sizeof b, "/%06llu.sst", (unsigned long long)c_->file_no++);
          cur->name = b; cur->cf = cf.first; cur->level = 1;
        }
        cur->kvs.emplace_back(kv.first, *v);
        if ((int)cur->kvs.size() >= vsrocks::ctl().keys_per_file) done();
      }
      done();
    }
  }

 private:
  DB(std::shared_ptr<vsrocks::Core> c, bool ro) : c_(std::move(c)), ro_(ro) {}
  Status GetIn(const ReadOptions& o, const std::string& cf, const Slice& k, std::string* v) {
    ++vsrocks::ctl().gets;
    if (vsrocks::ctl().before_read) vsrocks::ctl().before_read(c_->path, k.ToString());
    std::shared_lock<std::shared_mutex> g(c_->m);
    auto ci = c_->cfs.find(cf);
    if (ci == c_->cfs.end()) return Status::NotFound();
    auto it = ci->second.find(k.ToString());
    const std::string* p;
    if (it == ci->second.end() || !vsrocks::Visible(it->second, o.snapshot ? o.snapshot->seq : c_->seq, &p)) return Status::NotFound();
    *v = *p;
    return {};
  }
  Status Apply(const std::vector<vsrocks::Op>& ops, bool sync) {
    if (ro_) return Status(Status::kNotSupported, "Not supported operation in read only mode.");
    auto& ct = vsrocks::ctl();
    if (ct.before_write && !ct.before_write(c_->path, ops, sync)) return Status::IOError("injected");
    ++ct.writes;
    uint64_t s;
    {
      std::unique_lock<std::shared_mutex> g(c_->m);
      s = c_->seq + 1;
      auto set = [&](std::vector<vsrocks::Version>& v, bool del, const std::string& val) {
        if (!v.empty() && v.back().seq == s) v.back() = {s, del, val};
        else v.push_back({s, del, val});
      };
      for (auto& o : ops) {
        auto& m = c_->cfs[o.cf];
        if (o.kind == 0) set(m[o.key], false, o.value);
        else if (o.kind == 1) { auto it = m.find(o.key); if (it != m.end()) set(it->second, true, ""); }
        else for (auto it = m.lower_bound(o.key); it != m.end() && it->first < o.value; ++it) set(it->second, true, "");
      }
      c_->seq = s;
      if (sync) c_->synced = s;
    }
    if (ct.after_write) ct.after_write(c_->path, ops, s, sync);
    return {};
  }
  std::shared_ptr<vsrocks::Core> c_;
  bool ro_, closed_{false};
};
inline void CancelAllBackgroundWork(DB*, bool = false) {}
inline Status RepairDB(const std::string& path, const DBOptions&, const std::vector<ColumnFamilyDescriptor>&) {
  return access(path.c_str(), F_OK) ? Status::IOError("No such directory " + path) : Status();
}
inline Status DestroyDB(const std::string& path, const Options&) { vsrocks::Forget(path); return {}; }

class Checkpoint {
 public:
  static Status Create(DB* db, Checkpoint** c) { *c = new Checkpoint; (*c)->db_ = db; return {}; }
  virtual ~Checkpoint() = default;
  Status CreateCheckpoint(const std::string& dir, uint64_t = 0) {
    if (!access(dir.c_str(), F_OK)) return Status::InvalidArgument("Directory exists");
    if (mkdir(dir.c_str(), 0755)) return Status::IOError("mkdir " + dir);
    db_->FlushAll();
    auto c = db_->core();
    std::shared_lock<std::shared_mutex> g(c->m);
    for (auto& cf : c->files)
      for (auto& f : cf.second)
        if (!vsrocks::WriteSst(dir + f->name, f->cf, f->kvs)) return Status::IOError("write " + f->name);
    for (const char* n : {"CURRENT", "MANIFEST-000001", "OPTIONS-000001"}) {
      FILE* o = fopen((dir + "/" + n).c_str(), "w");
      if (!o) return Status::IOError("write");
      fputs(n, o);
      fclose(o);
    }
    return {};
  }

 private:
  DB* db_{nullptr};
};

struct ExternalSstFileInfo { std::string file_path, smallest_key, largest_key; uint64_t file_size{0}, num_entries{0}; };
class SstFileWriter {
 public:
  SstFileWriter(const EnvOptions&, const Options&, ColumnFamilyHandle* h = nullptr, bool = true) : cf_(h ? h->GetName() : "") {}
  Status Open(const std::string& p) {
    FILE* f = fopen(p.c_str(), "wb");
    if (!f) return Status::IOError("While open a file for appending: " + p);
    fclose(f);
    path_ = p; kvs_.clear(); open_ = true; size_ = 0;
    return {};
  }
  Status Put(const Slice& k, const Slice& v) {
    if (!open_) return Status::InvalidArgument("File is not opened");
    if (!kvs_.empty() && k.compare(kvs_.back().first) <= 0) return Status::InvalidArgument("Keys must be added in strict ascending order.");
    kvs_.emplace_back(k.ToString(), v.ToString());
    size_ += k.size() + v.size() + 8;
    return {};
  }
  Status Finish(ExternalSstFileInfo* i = nullptr) {
    if (!open_) return Status::InvalidArgument("File is not opened");
    open_ = false;
    if (kvs_.empty()) { unlink(path_.c_str()); return Status::InvalidArgument("Cannot create sst file with no entries"); }
    if (!vsrocks::WriteSst(path_, cf_, kvs_)) return Status::IOError("write " + path_);
    struct stat st;
    if (stat(path_.c_str(), &st) == 0) size_ = st.st_size;
    if (i) { i->file_path = path_; i->smallest_key = kvs_.front().first; i->largest_key = kvs_.back().first; i->file_size = size_; i->num_entries = kvs_.size(); }
    return {};
  }
  uint64_t FileSize() { return size_; }

 private:
  std::string cf_, path_;
  bool open_{false};
  uint64_t size_{0};
  std::vector<std::pair<std::string, std::string>> kvs_;
};
class SstFileReader {
 public:
  explicit SstFileReader(const Options&) {}
  Status Open(const std::string& p) {
    if (access(p.c_str(), R_OK)) return Status::IOError("No such file or directory: " + p);
    std::string cf;
    return vsrocks::ReadSst(p, &cf, &kvs_) ? Status() : Status::Corruption("bad table file " + p);
  }
  Iterator* NewIterator(const ReadOptions&) { return new VecIterator(kvs_); }

 private:
  std::vector<std::pair<std::string, std::string>> kvs_;
};
}  // namespace rocksdb
