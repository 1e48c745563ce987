#include "vs/braft.h"
namespace braft {
DEFINE_bool(raft_sync, true, "fsync the raft log");
std::function<void(Node*, const Task&)> Node::vs_apply;
bool Node::leader = true;
// Hooks a harness can use to observe or fail storage operations.
std::function<int(int)> vs_fsync_hook;
uint32_t murmurhash32(const void* key, size_t len) {
  const uint8_t* d = (const uint8_t*)key;
  uint32_t h = 0, k;
  for (size_t i = 0; i + 4 <= len; i += 4) {
    memcpy(&k, d + i, 4);
    k *= 0xcc9e2d51; k = k << 15 | k >> 17; k *= 0x1b873593;
    h ^= k; h = h << 13 | h >> 19; h = h * 5 + 0xe6546b64;
  }
  k = 0;
  for (size_t i = len & ~3ul, s = 0; i < len; i++, s += 8) k ^= (uint32_t)d[i] << s;
  k *= 0xcc9e2d51; k = k << 15 | k >> 17; k *= 0x1b873593; h ^= k;
  h ^= len; h ^= h >> 16; h *= 0x85ebca6b; h ^= h >> 13; h *= 0xc2b2ae35; h ^= h >> 16;
  return h;
}
int raft_fsync(int fd) { return vs_fsync_hook ? vs_fsync_hook(fd) : ::fdatasync(fd); }
ssize_t file_pread(butil::IOPortal* p, int fd, off_t off, size_t n) {
  off_t o = off;
  ssize_t left = n;
  while (left > 0) {
    ssize_t r = p->pappend_from_file_descriptor(fd, o, left);
    if (r > 0) { left -= r; o += r; }
    else if (r == 0) break;
    else if (errno != EINTR) return -1;
  }
  return n - left;
}
ssize_t file_pwrite(const butil::IOBuf& d, int fd, off_t off) {
  butil::IOBuf b(d);
  ssize_t n = b.size();
  off_t o = off;
  while (!b.empty()) {
    ssize_t r = b.pcut_into_file_descriptor(fd, o, b.size());
    if (r > 0) o += r;
    else if (errno != EINTR) return -1;
  }
  return n;
}
int gc_dir(const std::string& p) { return butil::DeleteFileImpl(p, true) ? 0 : -1; }
int ProtoBufFile::save(const google::protobuf::Message* m, bool sync) {
  std::string body, tmp = path_ + ".tmp";
  if (!m->SerializeToString(&body)) return -1;
  uint32_t n = htonl(body.size());
  std::string out((char*)&n, 4);
  out += body;
  int fd = ::open(tmp.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0644);
  if (fd < 0) return -1;
  bool ok = ::write(fd, out.data(), out.size()) == (ssize_t)out.size();
  if (ok && sync) ok = raft_fsync(fd) == 0;
  ::close(fd);
  return ok && ::rename(tmp.c_str(), path_.c_str()) == 0 ? 0 : -1;
}
int ProtoBufFile::load(google::protobuf::Message* m) {
  int fd = ::open(path_.c_str(), O_RDONLY | O_CLOEXEC);
  if (fd < 0) return -1;
  std::string s;
  char b[4096];
  ssize_t r;
  while ((r = ::read(fd, b, sizeof b)) > 0) s.append(b, r);
  ::close(fd);
  if (s.size() < 4) return -1;
  uint32_t n;
  memcpy(&n, s.data(), 4);
  n = ntohl(n);
  if (s.size() - 4 < n) return -1;
  return m->ParseFromArray(s.data() + 4, n) ? 0 : -1;
}
}  // namespace braft
