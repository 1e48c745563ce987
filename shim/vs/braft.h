// Stand-ins for braft's types: log entries, configurations, the log-storage / file-system interfaces, and a Node whose
// apply() hands tasks to whatever the harness installs.
#pragma once
#include "vs/core.h"
#include "braft_pb.pb.h"

namespace braft {
DECLARE_bool(raft_sync);
extern bool FLAGS_raft_sync_meta_vs;
inline bool raft_sync_meta() { return true; }
using raft_mutex_t = bthread::Mutex;
class Closure : public google::protobuf::Closure {
 public:
  butil::Status& status() { return st_; }
  const butil::Status& status() const { return st_; }

 private:
  butil::Status st_;
};
class AsyncClosureGuard {
 public:
  explicit AsyncClosureGuard(google::protobuf::Closure* d) : d_(d) {}
  ~AsyncClosureGuard() { if (d_) d_->Run(); }
  void reset(google::protobuf::Closure* d) { if (d_) d_->Run(); d_ = d; }
  google::protobuf::Closure* release() { auto* p = d_; d_ = nullptr; return p; }
  bool empty() const { return !d_; }

 private:
  google::protobuf::Closure* d_{nullptr};
};
inline void run_closure_in_bthread(google::protobuf::Closure* c, bool = false) { if (c) c->Run(); }
typedef std::string GroupId;
struct PeerId {
  butil::EndPoint addr;
  int idx{0};
  int role{0};
  PeerId() = default;
  explicit PeerId(butil::EndPoint a, int i = 0) : addr(a), idx(i) {}
  PeerId(const std::string& s) { parse(s); }
  void reset() { addr.reset(); idx = 0; }
  bool is_empty() const { return addr == butil::EndPoint() && idx == 0; }
  int parse(const std::string& s) {
    reset();
    char ip[64];
    int port = 0, ix = 0;
    if (2 > sscanf(s.c_str(), "%63[^:]%*[:]%d%*[:]%d", ip, &port, &ix)) { reset(); return -1; }
    if (butil::str2ip(ip, &addr.ip) != 0) { reset(); return -1; }
    addr.port = port;
    idx = ix;
    return 0;
  }
  std::string to_string() const { return std::string(butil::endpoint2str(addr).c_str()) + ":" + std::to_string(idx) + ":0"; }
};
inline bool operator<(const PeerId& a, const PeerId& b) { return a.addr < b.addr || (!(b.addr < a.addr) && a.idx < b.idx); }
inline bool operator==(const PeerId& a, const PeerId& b) { return a.addr == b.addr && a.idx == b.idx; }
inline bool operator!=(const PeerId& a, const PeerId& b) { return !(a == b); }
inline std::ostream& operator<<(std::ostream& os, const PeerId& p) { return os << p.to_string(); }
class Configuration {
 public:
  Configuration() = default;
  explicit Configuration(const std::vector<PeerId>& v) : p_(v.begin(), v.end()) {}
  explicit Configuration(const std::set<PeerId>& v) : p_(v) {}
  using const_iterator = std::set<PeerId>::const_iterator;
  const_iterator begin() const { return p_.begin(); }
  const_iterator end() const { return p_.end(); }
  void reset() { p_.clear(); }
  bool empty() const { return p_.empty(); }
  size_t size() const { return p_.size(); }
  bool add_peer(const PeerId& p) { return p_.insert(p).second; }
  bool remove_peer(const PeerId& p) { return p_.erase(p); }
  bool contains(const PeerId& p) const { return p_.count(p); }
  bool equals(const Configuration& o) const { return p_ == o.p_; }
  void list_peers(std::vector<PeerId>* v) const { v->assign(p_.begin(), p_.end()); }
  void append_peers(std::set<PeerId>* v) { v->insert(p_.begin(), p_.end()); }
  int parse_from(const butil::StringPiece& c) {
    reset();
    std::string s(c);
    size_t i = 0;
    while (i <= s.size()) {
      size_t j = s.find(',', i);
      if (j == std::string::npos) j = s.size();
      std::string t = s.substr(i, j - i);
      if (!t.empty()) { PeerId p; if (p.parse(t)) return -1; add_peer(p); }
      i = j + 1;
    }
    return 0;
  }

 private:
  std::set<PeerId> p_;
};
inline std::ostream& operator<<(std::ostream& os, const Configuration& c) { for (auto& p : c) os << p << ","; return os; }
struct LogId {
  LogId() = default;
  LogId(int64_t i, int64_t t) : index(i), term(t) {}
  int64_t index{0}, term{0};
};
inline bool operator==(const LogId& a, const LogId& b) { return a.index == b.index && a.term == b.term; }
inline std::ostream& operator<<(std::ostream& os, const LogId& l) { return os << "(index=" << l.index << ",term=" << l.term << ")"; }
struct LogEntry : public butil::RefCountedThreadSafe<LogEntry> {
  EntryType type{ENTRY_TYPE_UNKNOWN};
  LogId id;
  std::vector<PeerId>* peers{nullptr};
  std::vector<PeerId>* old_peers{nullptr};
  butil::IOBuf data;
  LogEntry() = default;
  ~LogEntry() { delete peers; delete old_peers; }
};
struct ConfigurationEntry {
  LogId id;
  Configuration conf, old_conf;
  ConfigurationEntry() = default;
  ConfigurationEntry(const LogEntry& e) {
    id = e.id;
    if (e.peers) conf = Configuration(*e.peers);
    if (e.old_peers) old_conf = Configuration(*e.old_peers);
  }
};
class ConfigurationManager {
 public:
  int add(const ConfigurationEntry& e) { v.push_back(e); return 0; }
  void truncate_prefix(int64_t) {}
  void truncate_suffix(int64_t) {}
  void set_snapshot(const ConfigurationEntry&) {}
  std::deque<ConfigurationEntry> v;
};
struct IOMetric { int64_t start_time_us{0}, bthread_queue_time_us{0}, open_segment_time_us{0}, append_entry_time_us{0}, sync_segment_time_us{0}; };
inline butil::Status parse_configuration_meta(const butil::IOBuf& data, LogEntry* e) {
  ConfigurationPBMeta m;
  butil::IOBufAsZeroCopyInputStream w(data);
  if (!m.ParseFromZeroCopyStream(&w)) return butil::Status(EINVAL, "Fail to parse ConfigurationPBMeta");
  e->peers = new std::vector<PeerId>;
  for (auto& p : m.peers()) e->peers->push_back(PeerId(p));
  if (m.old_peers_size()) {
    e->old_peers = new std::vector<PeerId>;
    for (auto& p : m.old_peers()) e->old_peers->push_back(PeerId(p));
  }
  return {};
}
inline butil::Status serialize_configuration_meta(const LogEntry* e, butil::IOBuf& data) {
  ConfigurationPBMeta m;
  if (e->peers) for (auto& p : *e->peers) m.add_peers(p.to_string());
  if (e->old_peers) for (auto& p : *e->old_peers) m.add_old_peers(p.to_string());
  butil::IOBufAsZeroCopyOutputStream w(&data);
  if (!m.SerializeToZeroCopyStream(&w)) return butil::Status(EINVAL, "Fail to serialize ConfigurationPBMeta");
  return {};
}
class LogStorage {
 public:
  virtual ~LogStorage() = default;
  virtual int init(ConfigurationManager*) = 0;
  virtual int64_t first_log_index() = 0;
  virtual int64_t last_log_index() = 0;
  virtual LogEntry* get_entry(const int64_t) = 0;
  virtual int64_t get_term(const int64_t) = 0;
  virtual int append_entry(const LogEntry*) = 0;
  virtual int append_entries(const std::vector<LogEntry*>&, IOMetric*) = 0;
  virtual int truncate_prefix(const int64_t) = 0;
  virtual int truncate_suffix(const int64_t) = 0;
  virtual int reset(const int64_t) = 0;
  virtual LogStorage* new_instance(const std::string& uri) const = 0;
  virtual butil::Status gc_instance(const std::string& uri) const { return butil::Status(ENOSYS, "not implemented"); }
};
inline uint32_t crc32(const void* p, size_t n) { return butil::crc32c::Value((const char*)p, n); }
inline uint32_t crc32(const butil::IOBuf& b) { return crc32(b.vs_data().data(), b.size()); }
uint32_t murmurhash32(const void* p, size_t n);
inline uint32_t murmurhash32(const butil::IOBuf& b) { return murmurhash32(b.vs_data().data(), b.size()); }
int raft_fsync(int fd);
ssize_t file_pread(butil::IOPortal* p, int fd, off_t off, size_t n);
ssize_t file_pwrite(const butil::IOBuf& d, int fd, off_t off);
int gc_dir(const std::string& path);
inline int file_error_to_os_error(butil::File::Error e) {
  switch (e) {
    case butil::File::FILE_OK: return 0;
    case butil::File::FILE_ERROR_EXISTS: return EEXIST;
    case butil::File::FILE_ERROR_NOT_FOUND: return ENOENT;
    case butil::File::FILE_ERROR_ACCESS_DENIED: return EACCES;
    default: return EIO;
  }
}
// ---- file-system adaptor interface
class DirReader {
 public:
  virtual ~DirReader() = default;
  virtual bool is_valid() const = 0;
  virtual bool next() = 0;
  virtual const char* name() const = 0;
};
class FileAdaptor {
 public:
  virtual ~FileAdaptor() = default;
  virtual ssize_t write(const butil::IOBuf& data, off_t offset) = 0;
  virtual ssize_t read(butil::IOPortal* p, off_t offset, size_t size) = 0;
  virtual ssize_t size() = 0;
  virtual bool sync() = 0;
  virtual bool close() = 0;
};
class FileSystemAdaptor : public butil::RefCountedThreadSafe<FileSystemAdaptor> {
 public:
  virtual ~FileSystemAdaptor() = default;
  virtual FileAdaptor* open(const std::string& path, int oflag, const ::google::protobuf::Message* file_meta, butil::File::Error* e) = 0;
  virtual bool delete_file(const std::string& path, bool recursive) = 0;
  virtual bool rename(const std::string& a, const std::string& b) = 0;
  virtual bool link(const std::string& a, const std::string& b) = 0;
  virtual bool create_directory(const std::string& path, butil::File::Error* e, bool parents) = 0;
  virtual bool path_exists(const std::string& path) = 0;
  virtual bool directory_exists(const std::string& path) = 0;
  virtual DirReader* directory_reader(const std::string& path) = 0;
  virtual bool open_snapshot(const std::string&) { return true; }
  virtual void close_snapshot(const std::string&) {}
};
class PosixDirReader : public DirReader {
 public:
  explicit PosixDirReader(const std::string& p) : r_(p.c_str()) {}
  bool is_valid() const override { return r_.IsValid(); }
  bool next() override {
    while (r_.Next()) if (strcmp(r_.name(), ".") && strcmp(r_.name(), "..")) return true;
    return false;
  }
  const char* name() const override { return r_.name(); }

 private:
  butil::DirReaderPosix r_;
};
class PosixFileSystemAdaptor : public FileSystemAdaptor {
 public:
  FileAdaptor* open(const std::string&, int, const ::google::protobuf::Message*, butil::File::Error*) override { return nullptr; }
  bool delete_file(const std::string& p, bool r) override { return butil::DeleteFileImpl(p, r); }
  bool rename(const std::string& a, const std::string& b) override { return ::rename(a.c_str(), b.c_str()) == 0; }
  bool link(const std::string& a, const std::string& b) override { return ::link(a.c_str(), b.c_str()) == 0; }
  bool create_directory(const std::string& p, butil::File::Error* e, bool par) override { return butil::CreateDirectoryAndGetError(butil::FilePath(p), e, par); }
  bool path_exists(const std::string& p) override { return butil::PathExists(butil::FilePath(p)); }
  bool directory_exists(const std::string& p) override { return butil::DirectoryExists(butil::FilePath(p)); }
  DirReader* directory_reader(const std::string& p) override { return new PosixDirReader(p); }
};
// braft's on-disk format: 4 bytes big-endian length, then the message; written to path.tmp, synced, renamed.
class ProtoBufFile {
 public:
  ProtoBufFile(const char* path, FileSystemAdaptor* = nullptr) : path_(path) {}
  ProtoBufFile(const std::string& path, FileSystemAdaptor* = nullptr) : path_(path) {}
  int save(const google::protobuf::Message* m, bool sync);
  int load(google::protobuf::Message* m);

 private:
  std::string path_;
};
class Snapshot : public butil::RefCountedThreadSafe<Snapshot> {
 public:
  virtual ~Snapshot() = default;
  virtual std::string get_path() { return ""; }
  virtual void list_files(std::vector<std::string>* f) = 0;
  virtual int get_file_meta(const std::string&, ::google::protobuf::Message* m) { if (m) m->Clear(); return 0; }
  butil::Status& status() { return st_; }
  int error_code() const { return st_.error_code(); }
  bool ok() const { return st_.ok(); }
  void set_error(int c, const char* f, ...) {
    va_list ap;
    va_start(ap, f);
    auto s = butil::vstring_printf(f, ap);
    va_end(ap);
    st_.set_error(c, s);
  }

 private:
  butil::Status st_;
};
class SnapshotWriter : public Snapshot {
 public:
  virtual int save_meta(const SnapshotMeta&) { return 0; }
  virtual int add_file(const std::string& n) { return add_file(n, nullptr); }
  virtual int add_file(const std::string& n, const ::google::protobuf::Message* m) = 0;
  virtual int remove_file(const std::string& n) = 0;
};
class SnapshotReader : public Snapshot {
 public:
  virtual int load_meta(SnapshotMeta* m) = 0;
  virtual std::string generate_uri_for_copy() { return ""; }
};
struct Task {
  butil::IOBuf* data{nullptr};
  Closure* done{nullptr};
  int64_t expected_term{-1};
};
// Iterator over committed entries, fed by the harness.
class Iterator {
 public:
  struct E { int64_t index, term; butil::IOBuf data; Closure* done; };
  explicit Iterator(std::vector<E> v) : v_(std::move(v)) {}
  void next() { ++i_; }
  bool valid() const { return i_ < v_.size() && !err_; }
  int64_t index() const { return v_[i_].index; }
  int64_t term() const { return v_[i_].term; }
  const butil::IOBuf& data() const { return v_[i_].data; }
  Closure* done() const { return v_[i_].done; }
  void set_error_and_rollback(size_t = 1, const butil::Status* s = nullptr) { err_ = true; if (s) st_ = *s; }
  bool vs_error() const { return err_; }

 private:
  std::vector<E> v_;
  size_t i_{0};
  bool err_{false};
  butil::Status st_;
};
enum ErrorType { ERROR_TYPE_NONE = 0, ERROR_TYPE_LOG = 1, ERROR_TYPE_STABLE, ERROR_TYPE_SNAPSHOT, ERROR_TYPE_STATE_MACHINE };
class Error {
 public:
  ErrorType type() const { return t_; }
  const butil::Status& status() const { return s_; }
  butil::Status& status() { return s_; }
 private:
  ErrorType t_{ERROR_TYPE_NONE};
  butil::Status s_;
};
inline std::ostream& operator<<(std::ostream& os, const Error& e) { return os << e.status(); }
class LeaderChangeContext {
 public:
  LeaderChangeContext(const PeerId& l, int64_t t, const butil::Status& s) : l_(l), t_(t), s_(s) {}
  const PeerId& leader_id() const { return l_; }
  int64_t term() const { return t_; }
  const butil::Status& status() const { return s_; }
 private:
  PeerId l_;
  int64_t t_;
  butil::Status s_;
};
inline std::ostream& operator<<(std::ostream& os, const LeaderChangeContext& c) { return os << c.leader_id(); }
class StateMachine {
 public:
  virtual ~StateMachine() = default;
  virtual void on_apply(Iterator& iter) = 0;
  virtual void on_shutdown() {}
  virtual void on_snapshot_save(SnapshotWriter*, Closure* done) { if (done) done->Run(); }
  virtual int on_snapshot_load(SnapshotReader*) { return -1; }
  virtual void on_leader_start(int64_t) {}
  virtual void on_leader_stop(const butil::Status&) {}
  virtual void on_error(const Error&) {}
  virtual void on_configuration_committed(const Configuration&) {}
  virtual void on_configuration_committed(const Configuration& c, int64_t) { on_configuration_committed(c); }
  virtual void on_stop_following(const LeaderChangeContext&) {}
  virtual void on_start_following(const LeaderChangeContext&) {}
};
enum State { STATE_LEADER = 1, STATE_TRANSFERRING, STATE_CANDIDATE, STATE_FOLLOWER, STATE_ERROR, STATE_UNINITIALIZED, STATE_SHUTTING, STATE_SHUTDOWN, STATE_END };
struct PeerStatus { bool valid{true}, installing_snapshot{false}; int64_t next_index{0}, last_rpc_send_timestamp{0}, flying_append_entries_size{0}, readonly_index{0}; int consecutive_error_times{0}; };
struct NodeStatus {
  State state{STATE_FOLLOWER};
  PeerId peer_id, leader_id;
  bool readonly{false};
  int64_t term{0}, committed_index{0}, known_applied_index{0}, pending_index{0}, pending_queue_size{0}, applying_index{0}, first_index{0}, last_index{0}, disk_index{0};
  std::map<PeerId, PeerStatus> stable_followers, unstable_followers;
};
struct NodeOptions {
  int election_timeout_ms{1000}, max_clock_drift_ms{1000}, snapshot_interval_s{3600}, catchup_margin{1000};
  Configuration initial_conf;
  StateMachine* fsm{nullptr};
  bool node_owns_fsm{false}, node_owns_log_storage{true}, filter_before_copy_remote{false}, disable_cli{false};
  LogStorage* log_storage{nullptr};
  std::string log_uri, raft_meta_uri, snapshot_uri;
  scoped_refptr<FileSystemAdaptor>* snapshot_file_system_adaptor{nullptr};
};
class Node {
 public:
  Node(const GroupId& g, const PeerId& p) : g_(g), p_(p) {}
  virtual ~Node() = default;
  int init(const NodeOptions& o) { o_ = o; return 0; }
  virtual void apply(const Task& t) { if (vs_apply) vs_apply(this, t); else { t.done->status().set_error(EPERM, "is not leader"); t.done->Run(); } }
  bool is_leader() { return leader; }
  bool is_leader_lease_valid() { return leader; }
  struct NodeId { GroupId group_id; PeerId peer_id; };
  NodeId node_id() { return {g_, p_}; }
  PeerId leader_id() { return leader ? p_ : PeerId(); }
  void shutdown(Closure* d) { if (d) d->Run(); }
  void join() {}
  butil::Status list_peers(std::vector<PeerId>* v) { v->push_back(p_); return {}; }
  void add_peer(const PeerId&, Closure* d) { if (d) d->Run(); }
  void remove_peer(const PeerId&, Closure* d) { if (d) d->Run(); }
  void change_peers(const Configuration&, Closure* d) { if (d) d->Run(); }
  butil::Status reset_peers(const Configuration&) { return {}; }
  void snapshot(Closure* d, bool = false) { if (d) d->Run(); }
  void get_status(NodeStatus* s) { s->peer_id = p_; }
  int transfer_leadership_to(const PeerId&) { return 0; }
  void reset_election_timeout_ms(int, int = 0) {}
  static std::function<void(Node*, const Task&)> vs_apply;
  const NodeOptions& vs_options() const { return o_; }
  const GroupId& vs_group() const { return g_; }
  static bool leader;

 private:
  GroupId g_;
  PeerId p_;
  NodeOptions o_;
};
class RepeatedTimerTask {
 public:
  virtual ~RepeatedTimerTask() = default;
  int init(int) { return 0; }
  void start() {}
  void run_once_now() { run(); }
  void stop() {}
  void reset() {}
  void reset(int) {}
  void destroy() {}

 protected:
  virtual void run() = 0;
  virtual void on_destroy() {}
};
inline int add_service(brpc::Server*, const butil::EndPoint&) { return 0; }
}  // namespace braft
