// Stand-ins for the parts of butil / bthread / bvar / brpc that dingo-store uses. They keep the library's
// documented behaviour (non-recursive mutexes, two-copy DoublyBufferedData, callbacks run on another thread) so that
// the project's own code is what runs under the sanitizers.
#pragma once
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>
#include <dirent.h>
#include <arpa/inet.h>
#include <netinet/in.h>
#include <time.h>

#include <algorithm>
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <deque>
#include <functional>
#include <iomanip>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <ostream>
#include <set>
#include <shared_mutex>
#include <sstream>
#include <string>
#include <string_view>
#include <thread>
#include <unordered_map>
#include <vector>

#include "gflags/gflags.h"
#include "glog/logging.h"
#include "google/protobuf/io/zero_copy_stream.h"
#include "google/protobuf/io/zero_copy_stream_impl_lite.h"
#include "google/protobuf/message.h"
#include "google/protobuf/service.h"
#include "google/protobuf/stubs/callback.h"

#define BAIDU_LIKELY(x) __builtin_expect(!!(x), 1)
#define BAIDU_UNLIKELY(x) __builtin_expect(!!(x), 0)
#define BAIDU_CASSERT(expr, msg) static_assert(expr, #msg)
#define BAIDU_CACHELINE_ALIGNMENT __attribute__((aligned(64)))
#define BAIDU_CONCAT_(a, b) a##b
#define BAIDU_CONCAT(a, b) BAIDU_CONCAT_(a, b)
#ifndef DISALLOW_COPY_AND_ASSIGN
#define DISALLOW_COPY_AND_ASSIGN(T) \
  T(const T&) = delete;             \
  void operator=(const T&) = delete
#endif
#define DISALLOW_COPY(T) T(const T&) = delete
#define BRPC_VALIDATE_GFLAG(flag, fn) \
  static const bool vs_validate_##flag __attribute__((unused)) = ::google::RegisterFlagValidator(&FLAGS_##flag, (fn))
#define ARRAY_SIZE_VS(a) (sizeof(a) / sizeof(*(a)))
#ifndef ARRAY_SIZE
#define ARRAY_SIZE(a) (sizeof(a) / sizeof(*(a)))
#endif
#ifndef arraysize
#define arraysize(a) (sizeof(a) / sizeof(*(a)))
#endif
#ifndef ALLOW_UNUSED
#define ALLOW_UNUSED __attribute__((unused))
#endif
#ifndef WARN_UNUSED_RESULT
#define WARN_UNUSED_RESULT
#endif
#ifndef CHECK_NOTNULL
#define CHECK_NOTNULL(x) (x)
#endif
#ifndef PRINTF_FORMAT
#define PRINTF_FORMAT(a, b)
#endif
#ifndef FALLTHROUGH_INTENDED
#define FALLTHROUGH_INTENDED
#endif
#define HAS_DCHECK
using google::ParseCommandLineFlags;

namespace butil {
using std::atomic;
using std::memory_order_acq_rel;
using std::memory_order_acquire;
using std::memory_order_consume;
using std::memory_order_relaxed;
using std::memory_order_release;
using std::memory_order_seq_cst;

class StringPiece : public std::string_view {
 public:
  using std::string_view::string_view;
  StringPiece() = default;
  StringPiece(std::string_view v) : std::string_view(v) {}
  StringPiece(const std::string& v) : std::string_view(v) {}
  StringPiece(const char* s) : std::string_view(s ? s : "") {}
  std::string as_string() const { return std::string(*this); }
  bool starts_with(StringPiece x) const { return size() >= x.size() && compare(0, x.size(), x) == 0; }
  bool ends_with(StringPiece x) const { return size() >= x.size() && compare(size() - x.size(), x.size(), x) == 0; }
  operator std::string() const { return std::string(*this); }
};

inline std::string vstring_printf(const char* fmt, va_list ap) {
  va_list c;
  va_copy(c, ap);
  int n = vsnprintf(nullptr, 0, fmt, c);
  va_end(c);
  if (n <= 0) return "";
  std::string s(n + 1, 0);
  vsnprintf(&s[0], n + 1, fmt, ap);
  s.resize(n);
  return s;
}
inline std::string string_printf(const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  auto s = vstring_printf(fmt, ap);
  va_end(ap);
  return s;
}
inline void string_appendf(std::string* o, const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  *o += vstring_printf(fmt, ap);
  va_end(ap);
}

class Status {
 public:
  Status() = default;
  Status(int code, const char* fmt, ...) : code_(code) {
    va_list ap;
    va_start(ap, fmt);
    msg_ = vstring_printf(fmt, ap);
    va_end(ap);
  }
  Status(int code, const StringPiece& msg) : code_(code), msg_(msg) {}
  Status(int code, const std::string& msg) : code_(code), msg_(msg) {}
  static Status OK() { return Status(); }
  void reset() { code_ = 0; msg_.clear(); }
  bool ok() const { return code_ == 0; }
  int set_error(int code, const char* fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    auto m = vstring_printf(fmt, ap);
    va_end(ap);
    code_ = code;
    msg_ = m;
    return 0;
  }
  int set_error(int code, const StringPiece& m) { code_ = code; msg_ = std::string(m); return 0; }
  int set_error(int code, const std::string& m) { code_ = code; msg_ = m; return 0; }
  int error_code() const { return code_; }
  const char* error_cstr() const { return code_ ? msg_.c_str() : "OK"; }
  StringPiece error_data() const { return error_cstr(); }
  std::string error_str() const { return error_cstr(); }
  void swap(Status& o) { std::swap(code_, o.code_); msg_.swap(o.msg_); }

 private:
  int code_{0};
  std::string msg_;
};
inline std::ostream& operator<<(std::ostream& os, const Status& st) { return os << st.error_cstr(); }

// ---- time. A harness may replace the clock (offsets) through vs_clock_*.
inline std::atomic<int64_t>& vs_clock_skew_us() {
  static std::atomic<int64_t> v{0};
  return v;
}
inline std::atomic<int64_t>& vs_clock_fixed_us() {  // non-zero: the wall clock stands still at this time
  static std::atomic<int64_t> v{0};
  return v;
}
inline int64_t gettimeofday_us() {
  if (int64_t f = vs_clock_fixed_us().load(std::memory_order_relaxed)) return f;
  struct timeval tv;
  ::gettimeofday(&tv, nullptr);
  return tv.tv_sec * 1000000L + tv.tv_usec + vs_clock_skew_us().load(std::memory_order_relaxed);
}
inline int64_t gettimeofday_ms() { return gettimeofday_us() / 1000; }
inline int64_t gettimeofday_s() { return gettimeofday_us() / 1000000; }
inline int64_t monotonic_time_us() {
  struct timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return ts.tv_sec * 1000000L + ts.tv_nsec / 1000;
}
inline int64_t monotonic_time_ns() {
  struct timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return ts.tv_sec * 1000000000L + ts.tv_nsec;
}
inline int64_t monotonic_time_ms() { return monotonic_time_us() / 1000; }
inline int64_t cpuwide_time_us() { return monotonic_time_us(); }
inline int64_t cpuwide_time_ns() { return monotonic_time_ns(); }
inline timespec vs_from(int64_t us) {
  timespec t;
  struct timeval tv;
  ::gettimeofday(&tv, nullptr);
  int64_t n = tv.tv_sec * 1000000L + tv.tv_usec + us;
  t.tv_sec = n / 1000000;
  t.tv_nsec = (n % 1000000) * 1000;
  return t;
}
inline timespec microseconds_from_now(int64_t us) { return vs_from(us); }
inline timespec milliseconds_from_now(int64_t ms) { return vs_from(ms * 1000); }
inline timespec seconds_from_now(int64_t s) { return vs_from(s * 1000000); }
inline timespec microseconds_to_timespec(int64_t us) { return {us / 1000000, (us % 1000000) * 1000}; }
inline timespec milliseconds_to_timespec(int64_t ms) { return microseconds_to_timespec(ms * 1000); }
class Timer {
 public:
  enum TimerType { STARTED };
  Timer() = default;
  explicit Timer(TimerType) { start(); }
  void start() { b_ = e_ = monotonic_time_ns(); }
  void stop() { e_ = monotonic_time_ns(); }
  int64_t n_elapsed() const { return e_ - b_; }
  int64_t u_elapsed() const { return n_elapsed() / 1000; }
  int64_t m_elapsed() const { return u_elapsed() / 1000; }
  int64_t s_elapsed() const { return m_elapsed() / 1000; }

 private:
  int64_t b_{0}, e_{0};
};

inline uint64_t fast_rand() {
  static thread_local uint64_t s = 0x9e3779b97f4a7c15ULL ^ (uint64_t)pthread_self();
  uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}
inline uint64_t fast_rand_less_than(uint64_t n) { return n ? fast_rand() % n : 0; }
inline int64_t fast_rand_in(int64_t lo, int64_t hi) { return lo + (int64_t)(fast_rand() % (uint64_t)(hi - lo + 1)); }
inline std::string GenerateGUID() {
  char b[64];
  uint64_t a = fast_rand(), c = fast_rand();
  snprintf(b, sizeof b, "%08X-%04X-%04X-%04X-%012llX", (unsigned)(a >> 32), (unsigned)(a >> 16 & 0xffff),
           (unsigned)(a & 0xffff), (unsigned)(c >> 48), (unsigned long long)(c & 0xffffffffffffULL));
  return b;
}

// ---- endpoints
struct ip_t : in_addr { ip_t() { s_addr = 0; } ip_t(in_addr a) : in_addr(a) {} ip_t(in_addr_t a) { s_addr = a; } };
static const ip_t IP_ANY = {INADDR_ANY};
static const ip_t IP_NONE = {INADDR_NONE};
inline bool operator==(const ip_t& a, const ip_t& b) { return a.s_addr == b.s_addr; }
inline bool operator!=(const ip_t& a, const ip_t& b) { return a.s_addr != b.s_addr; }
inline std::ostream& operator<<(std::ostream& os, const ip_t& i);
inline bool operator<(const ip_t& a, const ip_t& b) { return a.s_addr < b.s_addr; }
struct EndPoint {
  EndPoint() : ip(IP_ANY), port(0) {}
  EndPoint(ip_t i, int p) : ip(i), port(p) {}
  ip_t ip;
  int port;
  void reset() { ip = IP_ANY; port = 0; }
};
inline bool operator==(const EndPoint& a, const EndPoint& b) { return a.ip == b.ip && a.port == b.port; }
inline bool operator!=(const EndPoint& a, const EndPoint& b) { return !(a == b); }
inline bool operator<(const EndPoint& a, const EndPoint& b) {
  return a.ip.s_addr != b.ip.s_addr ? a.ip.s_addr < b.ip.s_addr : a.port < b.port;
}
struct VsStr {
  char buf[64];
  const char* c_str() const { return buf; }
};
inline std::ostream& operator<<(std::ostream& os, const VsStr& s) { return os << s.buf; }
inline VsStr ip2str(ip_t ip) {
  VsStr s;
  if (!inet_ntop(AF_INET, &ip, s.buf, sizeof s.buf)) strcpy(s.buf, "0.0.0.0");
  return s;
}
inline std::ostream& operator<<(std::ostream& os, const ip_t& i) { return os << ip2str(i).buf; }
inline VsStr endpoint2str(const EndPoint& p) {
  VsStr s = ip2str(p.ip);
  size_t n = strlen(s.buf);
  snprintf(s.buf + n, sizeof s.buf - n, ":%d", p.port);
  return s;
}
inline std::ostream& operator<<(std::ostream& os, const EndPoint& p) { return os << endpoint2str(p).c_str(); }
inline int str2ip(const char* s, ip_t* ip) {
  while (isspace((unsigned char)*s)) ++s;
  return inet_pton(AF_INET, s, ip) == 1 ? 0 : -1;
}
inline int hostname2ip(const char* h, ip_t* ip) {
  if (!strcmp(h, "localhost")) h = "127.0.0.1";
  return str2ip(h, ip);
}
inline int ip2hostname(ip_t, std::string* h) { *h = "localhost"; return 0; }
inline int str2endpoint(const char* s, EndPoint* p) {
  const char* c = strchr(s, ':');
  if (!c) return -1;
  if (str2ip(std::string(s, c).c_str(), &p->ip) != 0) return -1;
  char* e = nullptr;
  p->port = strtol(c + 1, &e, 10);
  if (e == c + 1) return -1;
  for (; isspace((unsigned char)*e); ++e) {
  }
  if (*e) return -1;
  return p->port < 0 || p->port > 65535 ? -1 : 0;
}
inline int str2endpoint(const char* ip, int port, EndPoint* p) {
  if (str2ip(ip, &p->ip) != 0 || port < 0 || port > 65535) return -1;
  p->port = port;
  return 0;
}
inline int hostname2endpoint(const char* h, int port, EndPoint* p) {
  if (hostname2ip(h, &p->ip) != 0) return -1;
  p->port = port;
  return 0;
}
inline int hostname2endpoint(const char* s, EndPoint* p) {
  const char* c = strchr(s, ':');
  if (!c) return -1;
  return hostname2endpoint(std::string(s, c).c_str(), atoi(c + 1), p);
}

// ---- IOBuf over one string: same observable content, no block sharing.
class IOBuf {
 public:
  static const size_t DEFAULT_BLOCK_SIZE = 8192;
  struct Movable {
    explicit Movable(IOBuf& v) : v(&v) {}
    IOBuf* v;
  };
  IOBuf() = default;
  IOBuf(const IOBuf&) = default;
  IOBuf(const Movable& m) { d_.swap(m.v->d_); }
  IOBuf& operator=(const IOBuf&) = default;
  IOBuf& operator=(const std::string& s) { d_ = s; return *this; }
  IOBuf& operator=(const char* s) { d_ = s; return *this; }
  virtual ~IOBuf() = default;
  void swap(IOBuf& o) { d_.swap(o.d_); }
  int append(const void* p, size_t n) { d_.append((const char*)p, n); return 0; }
  int append(const char* s) { d_ += s; return 0; }
  int append(const std::string& s) { d_ += s; return 0; }
  void append(const IOBuf& o) { if (&o == this) { std::string c = d_; d_ += c; } else d_ += o.d_; }
  void append(const Movable& m) { d_ += m.v->d_; m.v->d_.clear(); }
  int push_back(char c) { d_ += c; return 0; }
  size_t size() const { return d_.size(); }
  size_t length() const { return d_.size(); }
  bool empty() const { return d_.empty(); }
  void clear() { d_.clear(); }
  std::string to_string() const { return d_; }
  size_t copy_to(void* b, size_t n = (size_t)-1, size_t pos = 0) const {
    if (pos >= d_.size()) return 0;
    n = std::min(n, d_.size() - pos);
    memcpy(b, d_.data() + pos, n);
    return n;
  }
  size_t copy_to(std::string* s, size_t n = (size_t)-1, size_t pos = 0) const {
    *s = pos >= d_.size() ? "" : d_.substr(pos, n);
    return s->size();
  }
  size_t append_to(IOBuf* o, size_t n = (size_t)-1, size_t pos = 0) const {
    if (pos >= d_.size()) return 0;
    std::string t = d_.substr(pos, n);
    o->d_ += t;
    return t.size();
  }
  const void* fetch(void* aux, size_t n) const { if (n > d_.size()) return nullptr; (void)aux; return d_.data(); }
  size_t cutn(IOBuf* o, size_t n) { n = std::min(n, d_.size()); o->d_.append(d_, 0, n); d_.erase(0, n); return n; }
  size_t cutn(void* o, size_t n) { n = std::min(n, d_.size()); memcpy(o, d_.data(), n); d_.erase(0, n); return n; }
  size_t cutn(std::string* o, size_t n) { n = std::min(n, d_.size()); o->append(d_, 0, n); d_.erase(0, n); return n; }
  size_t pop_front(size_t n) { n = std::min(n, d_.size()); d_.erase(0, n); return n; }
  size_t pop_back(size_t n) { n = std::min(n, d_.size()); d_.resize(d_.size() - n); return n; }
  size_t backing_block_num() const { return d_.empty() ? 0 : 1; }
  StringPiece backing_block(size_t i) const { return i == 0 ? StringPiece(d_) : StringPiece(); }
  bool equals(const IOBuf& o) const { return d_ == o.d_; }
  bool equals(const StringPiece& o) const { return std::string_view(d_) == std::string_view(o); }
  int resize(size_t n) { d_.resize(n); return 0; }
  ssize_t cut_into_file_descriptor(int fd, size_t hint = 1024 * 1024) {
    ssize_t n = ::write(fd, d_.data(), d_.size());
    if (n > 0) d_.erase(0, n);
    return n;
  }
  ssize_t pcut_into_file_descriptor(int fd, off_t off, size_t hint = 1024 * 1024) {
    ssize_t n = off >= 0 ? ::pwrite(fd, d_.data(), d_.size(), off) : ::write(fd, d_.data(), d_.size());
    if (n > 0) d_.erase(0, n);
    return n;
  }
  static ssize_t cut_multiple_into_file_descriptor(int fd, IOBuf* const* pieces, size_t count) {
    std::vector<iovec> v;
    for (size_t i = 0; i < count; i++) v.push_back({(void*)pieces[i]->d_.data(), pieces[i]->d_.size()});
    ssize_t n = ::writev(fd, v.data(), v.size());
    ssize_t left = n;
    for (size_t i = 0; i < count && left > 0; i++) left -= pieces[i]->pop_front(left);
    return n;
  }
  std::string& vs_data() { return d_; }
  const std::string& vs_data() const { return d_; }

 protected:
  std::string d_;
};
inline std::ostream& operator<<(std::ostream& os, const IOBuf& b) { return os << b.to_string(); }
class IOPortal : public IOBuf {
 public:
  ssize_t pappend_from_file_descriptor(int fd, off_t off, size_t n) {
    std::string t(n, 0);
    ssize_t r = off < 0 ? ::read(fd, &t[0], n) : ::pread(fd, &t[0], n, off);
    if (r > 0) d_.append(t, 0, r);
    return r;
  }
  ssize_t append_from_file_descriptor(int fd, size_t n) { return pappend_from_file_descriptor(fd, -1, n); }
};
class IOBufBuilder : public IOBuf, public std::ostringstream {
 public:
  void sync_() { IOBuf::d_ += std::ostringstream::str(); std::ostringstream::str(""); }
  void move_to(IOBuf& o) { sync_(); o.clear(); o.swap(*this); }
  IOBuf& buf() { sync_(); return *this; }
};
class IOBufAsZeroCopyInputStream : public google::protobuf::io::ArrayInputStream {
 public:
  explicit IOBufAsZeroCopyInputStream(const IOBuf& b)
      : google::protobuf::io::ArrayInputStream(b.vs_data().data(), (int)b.vs_data().size()) {}
};
class IOBufAsZeroCopyOutputStream : public google::protobuf::io::StringOutputStream {
 public:
  explicit IOBufAsZeroCopyOutputStream(IOBuf* b) : google::protobuf::io::StringOutputStream(&b->vs_data()) {}
};

class RawPacker {
 public:
  explicit RawPacker(void* s) : s_((char*)s) {}
  RawPacker& pack32(uint32_t v) { v = htonl(v); memcpy(s_, &v, 4); s_ += 4; return *this; }
  RawPacker& pack64(uint64_t v) { return pack32(v >> 32).pack32((uint32_t)v); }

 private:
  char* s_;
};
class RawUnpacker {
 public:
  explicit RawUnpacker(const void* s) : s_((const char*)s) {}
  RawUnpacker& unpack32(uint32_t& v) { memcpy(&v, s_, 4); v = ntohl(v); s_ += 4; return *this; }
  RawUnpacker& unpack64(uint64_t& v) { uint32_t a, b; unpack32(a); unpack32(b); v = (uint64_t)a << 32 | b; return *this; }

 private:
  const char* s_;
};

// ---- containers
template <class K> struct FlatHash : std::hash<K> {};
template <> struct FlatHash<EndPoint> { size_t operator()(const EndPoint& e) const { return std::hash<uint64_t>()((uint64_t)e.ip.s_addr << 32 | (uint32_t)e.port); } };
template <class K, class T, class H = FlatHash<K>>
class FlatMap : public std::unordered_map<K, T, H> {
 public:
  using Base = std::unordered_map<K, T, H>;
  using Base::Base;
  using key_type = K;
  using mapped_type = T;
  int init(size_t, int = 80) { return 0; }
  bool initialized() const { return true; }
  T* insert(const K& k, const T& v) { return &(Base::operator[](k) = v); }
  T* seek(const K& k) const {
    auto it = const_cast<FlatMap*>(this)->find(k);
    return it == const_cast<FlatMap*>(this)->end() ? nullptr : &it->second;
  }
  size_t erase(const K& k) { return Base::erase(k); }
  size_t erase(const K& k, T* old) {
    auto it = this->find(k);
    if (it == this->end()) return 0;
    *old = it->second;
    Base::erase(it);
    return 1;
  }
};

// Two copies, as in the real one: Modify runs fn on the background copy, flips, waits for readers, runs fn again.
template <class T>
class DoublyBufferedData {
  struct Side {
    T data{};
    std::shared_mutex m;
  };

 public:
  class ScopedPtr {
   public:
    ScopedPtr() = default;
    ~ScopedPtr() { if (s_) s_->m.unlock_shared(); }
    ScopedPtr(const ScopedPtr&) = delete;
    void operator=(const ScopedPtr&) = delete;
    const T* get() const { return s_ ? &s_->data : nullptr; }
    const T& operator*() const { return s_->data; }
    const T* operator->() const { return &s_->data; }

   private:
    friend class DoublyBufferedData;
    Side* s_{nullptr};
  };
  int Read(ScopedPtr* p) {
    if (p->s_) { p->s_->m.unlock_shared(); p->s_ = nullptr; }
    for (;;) {
      int i = idx_.load(std::memory_order_acquire);
      s_[i].m.lock_shared();
      if (idx_.load(std::memory_order_acquire) == i) { p->s_ = &s_[i]; return 0; }
      s_[i].m.unlock_shared();
    }
  }
  template <class Fn, class... A>
  size_t Modify(Fn&& fn, A&&... a) {
    std::lock_guard<std::mutex> g(w_);
    int bg = !idx_.load(std::memory_order_relaxed);
    size_t r;
    {
      std::unique_lock<std::shared_mutex> l(s_[bg].m);
      r = fn(s_[bg].data, a...);
    }
    if (!r) return 0;
    idx_.store(bg, std::memory_order_release);
    std::unique_lock<std::shared_mutex> l(s_[!bg].m);
    fn(s_[!bg].data, a...);
    return r;
  }
  template <class Fn, class... A>
  size_t ModifyWithForeground(Fn&& fn, A&&... a) {
    std::lock_guard<std::mutex> g(w_);
    int bg = !idx_.load(std::memory_order_relaxed);
    size_t r;
    {
      std::unique_lock<std::shared_mutex> l(s_[bg].m);
      r = fn(s_[bg].data, (const T&)s_[!bg].data, a...);
    }
    if (!r) return 0;
    idx_.store(bg, std::memory_order_release);
    std::unique_lock<std::shared_mutex> l(s_[!bg].m);
    fn(s_[!bg].data, (const T&)s_[bg].data, a...);
    return r;
  }

 private:
  Side s_[2];
  std::atomic<int> idx_{0};
  std::mutex w_;
};

// ---- strings
inline void SplitString(const std::string& s, char c, std::vector<std::string>* r) {
  r->clear();
  size_t last = 0, n = s.size();
  for (size_t i = 0; i <= n; i++) {
    if (i == n || s[i] == c) {
      std::string t = s.substr(last, i - last);
      size_t b = 0, e = t.size();
      while (b < e && isspace((unsigned char)t[b])) b++;
      while (e > b && isspace((unsigned char)t[e - 1])) e--;
      t = t.substr(b, e - b);
      if (i != n || !r->empty() || !t.empty()) r->push_back(t);
      last = i + 1;
    }
  }
}
enum TrimPositions { TRIM_NONE = 0, TRIM_LEADING = 1, TRIM_TRAILING = 2, TRIM_ALL = 3 };
inline TrimPositions TrimWhitespaceASCII(const std::string& in, TrimPositions, std::string* out) {
  size_t b = 0, e = in.size();
  while (b < e && isspace((unsigned char)in[b])) b++;
  while (e > b && isspace((unsigned char)in[e - 1])) e--;
  *out = in.substr(b, e - b);
  return TRIM_ALL;
}
inline std::string ToLowerASCII(std::string s) { for (auto& c : s) c = tolower(c); return s; }

// ---- files
class File {
 public:
  enum Error { FILE_OK = 0, FILE_ERROR_FAILED = -1, FILE_ERROR_IN_USE = -2, FILE_ERROR_EXISTS = -3, FILE_ERROR_NOT_FOUND = -4, FILE_ERROR_ACCESS_DENIED = -5, FILE_ERROR_TOO_MANY_OPENED = -6, FILE_ERROR_NO_MEMORY = -7, FILE_ERROR_NO_SPACE = -8, FILE_ERROR_NOT_A_DIRECTORY = -9 };
  static Error OSErrorToFileError(int e) {
    switch (e) {
      case 0: return FILE_OK;
      case ENOENT: return FILE_ERROR_NOT_FOUND;
      case EEXIST: return FILE_ERROR_EXISTS;
      case EACCES: return FILE_ERROR_ACCESS_DENIED;
      default: return FILE_ERROR_FAILED;
    }
  }
};
inline std::ostream& operator<<(std::ostream& os, File::Error e) { return os << (int)e; }
class FilePath {
 public:
  FilePath() = default;
  explicit FilePath(const std::string& s) : p_(s) {}
  const std::string& value() const { return p_; }
  FilePath DirName() const { auto k = p_.rfind('/'); return FilePath(k == std::string::npos ? "." : k == 0 ? "/" : p_.substr(0, k)); }
  FilePath BaseName() const { auto k = p_.rfind('/'); return FilePath(k == std::string::npos ? p_ : p_.substr(k + 1)); }

 private:
  std::string p_;
};
inline bool PathExists(const FilePath& p) { return ::access(p.value().c_str(), F_OK) == 0; }
inline bool DirectoryExists(const FilePath& p) { struct stat s; return ::stat(p.value().c_str(), &s) == 0 && S_ISDIR(s.st_mode); }
inline bool CreateDirectoryAndGetError(const FilePath& p, File::Error* e, bool parents = true) {
  if (DirectoryExists(p)) return true;
  if (parents) {
    FilePath up = p.DirName();
    if (up.value() != p.value() && !DirectoryExists(up) && !CreateDirectoryAndGetError(up, e, true)) return false;
  }
  if (::mkdir(p.value().c_str(), 0755) == 0 || DirectoryExists(p)) return true;
  if (e) *e = File::OSErrorToFileError(errno);
  return false;
}
inline bool CreateDirectory(const FilePath& p, bool parents = true) { return CreateDirectoryAndGetError(p, nullptr, parents); }
bool DeleteFile(const FilePath& p, bool recursive);
inline bool DeleteFileImpl(const std::string& p, bool rec) {
  struct stat s;
  if (::lstat(p.c_str(), &s) != 0) return errno == ENOENT;
  if (!S_ISDIR(s.st_mode)) return ::unlink(p.c_str()) == 0;
  if (rec) {
    DIR* d = ::opendir(p.c_str());
    if (!d) return false;
    std::vector<std::string> names;
    while (auto* e = ::readdir(d)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) names.push_back(e->d_name);
    ::closedir(d);
    for (auto& n : names) if (!DeleteFileImpl(p + "/" + n, true)) return false;
  }
  return ::rmdir(p.c_str()) == 0;
}
inline bool DeleteFile(const FilePath& p, bool rec) { return DeleteFileImpl(p.value(), rec); }
class DirReaderPosix {
 public:
  explicit DirReaderPosix(const char* p) {
    DIR* d = ::opendir(p);
    if (!d) return;
    ok_ = true;
    while (auto* e = ::readdir(d)) n_.push_back(e->d_name);
    ::closedir(d);
    std::sort(n_.begin(), n_.end());
  }
  bool IsValid() const { return ok_; }
  bool Next() { if (i_ + 1 >= (int)n_.size()) return false; ++i_; return true; }
  const char* name() const { return n_[i_].c_str(); }

 private:
  bool ok_{false};
  std::vector<std::string> n_;
  int i_{-1};
};
inline int make_close_on_exec(int fd) { return fcntl(fd, F_SETFD, FD_CLOEXEC); }
inline int make_non_blocking(int) { return 0; }
namespace crc32c {
inline bool IsFastCrc32Supported() { return true; }
inline uint32_t Extend(uint32_t init, const char* d, size_t n) {
  uint32_t c = ~init;
  while (n--) {
    c ^= (uint8_t)*d++;
    for (int k = 0; k < 8; k++) c = c & 1 ? (c >> 1) ^ 0x82f63b78u : c >> 1;
  }
  return ~c;
}
inline uint32_t Value(const char* d, size_t n) { return Extend(0, d, n); }
}  // namespace crc32c
template <class T>
struct RefCountedThreadSafe {
  void AddRef() const { n_.fetch_add(1); }
  bool Release() const {
    if (n_.fetch_sub(1) == 1) { delete static_cast<const T*>(this); return true; }
    return false;
  }

 private:
  mutable std::atomic<int> n_{0};
};
inline std::ostream* vs_nul() { return nullptr; }
inline std::string describe_r() { return ""; }
namespace debug { inline void StackTrace() {} }
}  // namespace butil
template <class T>
class scoped_refptr {
 public:
  scoped_refptr() = default;
  scoped_refptr(T* p) : p_(p) { if (p_) p_->AddRef(); }
  scoped_refptr(const scoped_refptr& o) : p_(o.p_) { if (p_) p_->AddRef(); }
  template <class U>
  scoped_refptr(const scoped_refptr<U>& o) : p_(o.get()) { if (p_) p_->AddRef(); }
  ~scoped_refptr() { if (p_) p_->Release(); }
  scoped_refptr& operator=(T* p) { if (p) p->AddRef(); T* o = p_; p_ = p; if (o) o->Release(); return *this; }
  scoped_refptr& operator=(const scoped_refptr& o) { return *this = o.p_; }
  T* get() const { return p_; }
  operator T*() const { return p_; }
  T* operator->() const { return p_; }
  void swap(scoped_refptr& o) { std::swap(p_, o.p_); }
  void reset() { *this = (T*)nullptr; }

 private:
  T* p_{nullptr};
};
template <class T>
inline scoped_refptr<T> make_scoped_refptr(T* t) { return scoped_refptr<T>(t); }
inline const char* berror(int e) { return strerror(e); }
inline const char* berror() { return strerror(errno); }

// ---- bthread over pthread
typedef uint64_t bthread_t;
typedef uint64_t bthread_timer_t;
static const bthread_t INVALID_BTHREAD = 0;
struct bthread_attr_t { int stack_type{0}, flags{0}; int tag{0}; void* keytable_pool{nullptr}; };
static const bthread_attr_t BTHREAD_ATTR_NORMAL{};
static const bthread_attr_t BTHREAD_ATTR_SMALL{};
static const bthread_attr_t BTHREAD_ATTR_PTHREAD{};
static const bthread_attr_t BTHREAD_ATTR_LARGE{};
struct bthread_mutex_t { pthread_mutex_t m = PTHREAD_MUTEX_INITIALIZER; };
struct bthread_mutexattr_t {};
struct bthread_cond_t { pthread_cond_t c = PTHREAD_COND_INITIALIZER; };
struct bthread_condattr_t {};
inline int bthread_mutex_init(bthread_mutex_t* m, const bthread_mutexattr_t*) { return pthread_mutex_init(&m->m, nullptr); }
inline int bthread_mutex_destroy(bthread_mutex_t* m) { return pthread_mutex_destroy(&m->m); }
inline int bthread_mutex_lock(bthread_mutex_t* m) { return pthread_mutex_lock(&m->m); }
inline int bthread_mutex_trylock(bthread_mutex_t* m) { return pthread_mutex_trylock(&m->m); }
inline int bthread_mutex_unlock(bthread_mutex_t* m) { return pthread_mutex_unlock(&m->m); }
inline int bthread_cond_init(bthread_cond_t* c, const bthread_condattr_t*) { return pthread_cond_init(&c->c, nullptr); }
inline int bthread_cond_destroy(bthread_cond_t* c) { return pthread_cond_destroy(&c->c); }
inline int bthread_cond_signal(bthread_cond_t* c) { return pthread_cond_signal(&c->c); }
inline int bthread_cond_broadcast(bthread_cond_t* c) { return pthread_cond_broadcast(&c->c); }
inline int bthread_cond_wait(bthread_cond_t* c, bthread_mutex_t* m) { return pthread_cond_wait(&c->c, &m->m); }
inline int bthread_cond_timedwait(bthread_cond_t* c, bthread_mutex_t* m, const timespec* t) {
  return pthread_cond_timedwait(&c->c, &m->m, t);
}
inline std::function<void(uint64_t)>& vs_usleep() { static auto* f = new std::function<void(uint64_t)>; return *f; }  // what sleeping does, where a harness moves the time itself
inline int bthread_usleep(uint64_t us) { if (vs_usleep()) { vs_usleep()(us); return 0; } std::this_thread::sleep_for(std::chrono::microseconds(us)); return 0; }
inline int bthread_yield() { std::this_thread::yield(); return 0; }
inline int bthread_about_to_quit() { return 0; }
namespace vs {
struct Threads {
  std::mutex m;
  uint64_t next{1};
  std::map<uint64_t, std::shared_ptr<std::thread>> t;
  static Threads& I() { static auto* p = new Threads; return *p; }
};
inline bthread_t& Self() { static thread_local bthread_t id = 0; return id; }
}  // namespace vs
inline bthread_t bthread_self() { return vs::Self(); }
inline int bthread_start_background(bthread_t* tid, const bthread_attr_t*, void* (*fn)(void*), void* arg) {
  auto& T = vs::Threads::I();
  std::lock_guard<std::mutex> g(T.m);
  uint64_t id = T.next++;
  if (tid) *tid = id;
  T.t[id] = std::make_shared<std::thread>([fn, arg, id] { vs::Self() = id; fn(arg); });
  return 0;
}
inline int bthread_start_urgent(bthread_t* t, const bthread_attr_t* a, void* (*fn)(void*), void* arg) { return bthread_start_background(t, a, fn, arg); }
inline int bthread_join(bthread_t id, void**) {
  std::shared_ptr<std::thread> p;
  {
    auto& T = vs::Threads::I();
    std::lock_guard<std::mutex> g(T.m);
    auto it = T.t.find(id);
    if (it == T.t.end()) return EINVAL;
    p = it->second;
    T.t.erase(it);
  }
  p->join();
  return 0;
}
inline int bthread_stop(bthread_t) { return 0; }
inline int bthread_getconcurrency() { return 8; }
inline int bthread_setconcurrency(int) { return 0; }
inline int bthread_getconcurrency_by_tag(int) { return 8; }
inline int bthread_timer_add(bthread_timer_t* id, timespec when, void (*fn)(void*), void* arg) {
  static std::atomic<uint64_t> n{1};
  *id = n++;
  std::thread([=] {
    struct timeval tv;
    ::gettimeofday(&tv, nullptr);
    int64_t d = (int64_t)when.tv_sec * 1000000 + when.tv_nsec / 1000 - (tv.tv_sec * 1000000L + tv.tv_usec);
    if (d > 0) ::usleep(d);
    fn(arg);
  }).detach();
  return 0;
}
inline int bthread_timer_del(bthread_timer_t) { return 1; }
namespace bthread {

class Mutex {
 public:
  using native_handler_type = bthread_mutex_t*;
  Mutex() = default;
  Mutex(const Mutex&) = delete;
  void lock() { bthread_mutex_lock(&m_); }
  void unlock() { bthread_mutex_unlock(&m_); }
  bool try_lock() { return bthread_mutex_trylock(&m_) == 0; }
  bthread_mutex_t* native_handler() { return &m_; }

 private:
  bthread_mutex_t m_;
};
class ConditionVariable {
 public:
  template <class L>
  void wait(L& l) { bthread_cond_wait(&c_, Raw(l.mutex())); }
  template <class L, class P>
  void wait(L& l, P p) { while (!p()) wait(l); }
  template <class L>
  int wait_for(L& l, long us) { auto t = butil::microseconds_from_now(us); return bthread_cond_timedwait(&c_, Raw(l.mutex()), &t); }
  void notify_one() { bthread_cond_signal(&c_); }
  void notify_all() { bthread_cond_broadcast(&c_); }

 private:
  static bthread_mutex_t* Raw(bthread_mutex_t* m) { return m; }
  static bthread_mutex_t* Raw(Mutex* m) { return m->native_handler(); }
  bthread_cond_t c_;
};
struct VsButex { std::atomic<int> v; std::mutex m; std::condition_variable c; };
template <class T>
T* butex_create_checked() { return reinterpret_cast<T*>(new VsButex()); }
inline void* butex_create() { return new VsButex(); }
inline void butex_destroy(void* b) { delete (VsButex*)b; }
inline int butex_wake(void* b, bool = false) {
  auto* x = (VsButex*)b;
  std::lock_guard<std::mutex> g(x->m);
  x->c.notify_one();
  return 1;
}
inline int butex_wake_all(void* b, bool = false) {
  auto* x = (VsButex*)b;
  std::lock_guard<std::mutex> g(x->m);
  x->c.notify_all();
  return 1;
}
inline int butex_wait(void* b, int expected, const timespec* t, bool = false) {
  auto* x = (VsButex*)b;
  std::unique_lock<std::mutex> l(x->m);
  if (x->v.load() != expected) { errno = EWOULDBLOCK; return -1; }
  if (!t) { x->c.wait(l); return 0; }
  auto tp = std::chrono::system_clock::from_time_t(t->tv_sec) + std::chrono::nanoseconds(t->tv_nsec);
  if (x->c.wait_until(l, tp) == std::cv_status::timeout) { errno = ETIMEDOUT; return -1; }
  return 0;
}
struct ExecutionQueueOptions { bthread_attr_t bthread_attr; bool use_pthread{false}; };
struct TaskOptions { bool high_priority{false}, in_place_if_possible{false}; };
template <class T>
struct ExecutionQueueId { uint64_t value{0}; };
template <class T>
class TaskIterator {
 public:
  explicit TaskIterator(std::deque<T>* q, bool stopped) : q_(q), stopped_(stopped) {}
  bool is_queue_stopped() const { return stopped_; }
  operator bool() const { return !q_->empty(); }
  T& operator*() const { return q_->front(); }
  T* operator->() const { return &q_->front(); }
  TaskIterator& operator++() { q_->pop_front(); return *this; }

 private:
  std::deque<T>* q_;
  bool stopped_;
};
namespace vsq {
template <class T>
struct Q {
  std::mutex m;
  std::condition_variable c;
  std::deque<T> q;
  bool stop{false};
  std::thread t;
};
template <class T>
struct Reg {
  std::mutex m;
  uint64_t n{1};
  std::map<uint64_t, std::shared_ptr<Q<T>>> q;
  static Reg& I() { static auto* r = new Reg; return *r; }
  std::shared_ptr<Q<T>> Get(uint64_t i) {
    std::lock_guard<std::mutex> g(m);
    auto it = q.find(i);
    return it == q.end() ? nullptr : it->second;
  }
};
}  // namespace vsq
template <class T>
int execution_queue_start(ExecutionQueueId<T>* id, const ExecutionQueueOptions*, int (*fn)(void*, TaskIterator<T>&), void* meta) {
  auto q = std::make_shared<vsq::Q<T>>();
  auto& R = vsq::Reg<T>::I();
  {
    std::lock_guard<std::mutex> g(R.m);
    id->value = R.n++;
    R.q[id->value] = q;
  }
  q->t = std::thread([q, fn, meta] {
    for (;;) {
      std::deque<T> batch;
      bool stop;
      {
        std::unique_lock<std::mutex> l(q->m);
        q->c.wait(l, [&] { return q->stop || !q->q.empty(); });
        batch.swap(q->q);
        stop = q->stop && batch.empty();
      }
      TaskIterator<T> it(&batch, stop);
      fn(meta, it);
      if (stop) return;
    }
  });
  return 0;
}
template <class T>
int execution_queue_execute(ExecutionQueueId<T> id, const T& v, const TaskOptions* = nullptr) {
  auto q = vsq::Reg<T>::I().Get(id.value);
  if (!q) return EINVAL;
  std::lock_guard<std::mutex> g(q->m);
  if (q->stop) return EINVAL;
  q->q.push_back(v);
  q->c.notify_one();
  return 0;
}
template <class T>
int execution_queue_stop(ExecutionQueueId<T> id) {
  auto q = vsq::Reg<T>::I().Get(id.value);
  if (!q) return EINVAL;
  std::lock_guard<std::mutex> g(q->m);
  q->stop = true;
  q->c.notify_one();
  return 0;
}
template <class T>
int execution_queue_join(ExecutionQueueId<T> id) {
  auto q = vsq::Reg<T>::I().Get(id.value);
  if (!q) return EINVAL;
  if (q->t.joinable()) q->t.join();
  return 0;
}
inline void* NativeHandle() { return nullptr; }
}  // namespace bthread
namespace std {
template <>
class lock_guard<bthread_mutex_t> {
 public:
  explicit lock_guard(bthread_mutex_t& m) : m_(&m) { bthread_mutex_lock(m_); }
  ~lock_guard() { bthread_mutex_unlock(m_); }
  lock_guard(const lock_guard&) = delete;

 private:
  bthread_mutex_t* m_;
};
template <>
class unique_lock<bthread_mutex_t> {
 public:
  unique_lock() = default;
  explicit unique_lock(bthread_mutex_t& m) : m_(&m) { lock(); }
  unique_lock(bthread_mutex_t& m, std::defer_lock_t) : m_(&m) {}
  ~unique_lock() { if (o_) unlock(); }
  unique_lock(const unique_lock&) = delete;
  void lock() { bthread_mutex_lock(m_); o_ = true; }
  void unlock() { bthread_mutex_unlock(m_); o_ = false; }
  bool owns_lock() const { return o_; }
  bthread_mutex_t* mutex() const { return m_; }

 private:
  bthread_mutex_t* m_{nullptr};
  bool o_{false};
};
template <>
class lock_guard<pthread_mutex_t> {
 public:
  explicit lock_guard(pthread_mutex_t& m) : m_(&m) { pthread_mutex_lock(m_); }
  ~lock_guard() { pthread_mutex_unlock(m_); }
 private:
  pthread_mutex_t* m_;
};
}  // namespace std
#define BAIDU_SCOPED_LOCK(ref) ::std::lock_guard<typename std::remove_reference<decltype(ref)>::type> BAIDU_CONCAT(vs_lk_, __LINE__)(ref)

// ---- bvar
namespace bvar {
class Variable {
 public:
  virtual ~Variable() = default;
  int expose(const butil::StringPiece&) { return 0; }
  int expose_as(const butil::StringPiece&, const butil::StringPiece&) { return 0; }
  bool hide() { return true; }
  const std::string& name() const { static std::string s; return s; }
};
template <class T>
class Adder : public Variable {
 public:
  Adder() = default;
  explicit Adder(const butil::StringPiece&) {}
  Adder(const butil::StringPiece&, const butil::StringPiece&) {}
  Adder& operator<<(T v) { v_.fetch_add(v, std::memory_order_relaxed); return *this; }
  T get_value() const { return v_.load(std::memory_order_relaxed); }
  T reset() { return v_.exchange(T()); }

 private:
  std::atomic<T> v_{T()};
};
template <class T>
class Maxer : public Adder<T> { public: using Adder<T>::Adder; };
class LatencyRecorder : public Variable {
 public:
  LatencyRecorder() = default;
  explicit LatencyRecorder(time_t) {}
  explicit LatencyRecorder(const butil::StringPiece&, time_t = 10) {}
  LatencyRecorder(const butil::StringPiece&, const butil::StringPiece&, time_t = 10) {}
  LatencyRecorder& operator<<(int64_t) { n_.fetch_add(1, std::memory_order_relaxed); return *this; }
  int64_t count() const { return n_.load(); }
  int64_t latency() const { return 0; }
  int64_t latency_percentile(double) const { return 0; }
  int64_t max_latency() const { return 0; }
  int64_t qps() const { return 0; }

 private:
  std::atomic<int64_t> n_{0};
};
template <class T, class = void>
class Status : public Variable {
 public:
  Status() = default;
  explicit Status(const T& v) : v_(v) {}
  Status(const butil::StringPiece&, const T& v) : v_(v) {}
  Status(const butil::StringPiece&, const butil::StringPiece&, const T& v) : v_(v) {}
  void set_value(const T& v) { std::lock_guard<std::mutex> g(m_); v_ = v; }
  T get_value() const { std::lock_guard<std::mutex> g(m_); return v_; }

 private:
  mutable std::mutex m_;
  T v_{};
};
template <class T>
class PassiveStatus : public Variable {
 public:
  PassiveStatus(const butil::StringPiece&, T (*f)(void*), void* a) : f_(f), a_(a) {}
  PassiveStatus(T (*f)(void*), void* a) : f_(f), a_(a) {}
  T get_value() const { return f_(a_); }
 private:
  T (*f_)(void*);
  void* a_;
};
template <class R>
class PerSecondEx : public Variable { public: template <class... A> explicit PerSecondEx(A&&...) {} template <class T> PerSecondEx& operator<<(const T&) { return *this; } };
template <class R>
class PerSecond : public Variable { public: template <class... A> explicit PerSecond(A&&...) {} };
template <class R>
class Window : public Variable { public: template <class... A> explicit Window(A&&...) {} };
struct DumpOptions {};
struct Dumper { virtual ~Dumper() = default; };
template <class K>
class MVariable : public Variable {
 public:
  using key_type = K;
  explicit MVariable(const K& l) : l_(l) {}
  static size_t dump_exposed(Dumper*, const DumpOptions*) { return 0; }
  const K& labels() const { return l_; }
  size_t count_labels() const { return l_.size(); }
 protected:
  K l_;
};
template <class T>
class MultiDimension : public Variable {
 public:
  using key_type = std::list<std::string>;
  template <class... A>
  explicit MultiDimension(A&&...) {}
  template <class N>
  MultiDimension(const N&, std::initializer_list<const char*>) {}
  T* get_stats(const key_type& k) {
    std::lock_guard<std::mutex> g(m_);
    auto& p = v_[k];
    if (!p) p = std::make_unique<T>();
    return p.get();
  }
  bool has_stats(const key_type& k) { std::lock_guard<std::mutex> g(m_); return v_.count(k); }
  void delete_stats(const key_type& k) { std::lock_guard<std::mutex> g(m_); v_.erase(k); }
 private:
  std::mutex m_;
  std::map<key_type, std::unique_ptr<T>> v_;
};
}  // namespace bvar

// ---- brpc
namespace brpc {
template <class T>
bool PassValidate(const char*, T) { return true; }
template <class T>
bool PositiveInteger(const char*, T v) { return v > 0; }
template <class T>
bool NonNegativeInteger(const char*, T v) { return v >= 0; }
enum { ENOMETHOD = 1002, EREQUEST = 1003, ERPCTIMEDOUT = 1008, EFAILEDSOCKET = 1009, ELOGOFF = 2003, EINTERNAL = 2001, ELIMIT = 2004 };
enum ConnectionType { CONNECTION_TYPE_UNKNOWN = 0, CONNECTION_TYPE_SINGLE = 1 };
enum CompressType { COMPRESS_TYPE_NONE = 0, COMPRESS_TYPE_SNAPPY = 1, COMPRESS_TYPE_GZIP = 2 };
class ClosureGuard {
 public:
  ClosureGuard() = default;
  explicit ClosureGuard(google::protobuf::Closure* d) : d_(d) {}
  ~ClosureGuard() { if (d_) d_->Run(); }
  ClosureGuard(const ClosureGuard&) = delete;
  void reset(google::protobuf::Closure* d) { if (d_) d_->Run(); d_ = d; }
  google::protobuf::Closure* release() { auto* p = d_; d_ = nullptr; return p; }
  bool empty() const { return !d_; }
  void swap(ClosureGuard& o) { std::swap(d_, o.d_); }

 private:
  google::protobuf::Closure* d_{nullptr};
};
class Controller : public google::protobuf::RpcController {
 public:
  void Reset() override { failed_ = false; text_.clear(); code_ = 0; }
  bool Failed() const override { return failed_; }
  std::string ErrorText() const override { return text_; }
  int ErrorCode() const { return code_; }
  // As in brpc: the closure runs once, when the call is cancelled or ends.
  void StartCancel() override { canceled_ = true; if (auto* c = cancel_.exchange(nullptr)) c->Run(); }
  ~Controller() override { if (auto* c = cancel_.exchange(nullptr)) c->Run(); }
  void SetFailed(const std::string& r) override { failed_ = true; text_ = r; code_ = -1; }
  void SetFailed(int c, const char* fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    text_ = butil::vstring_printf(fmt, ap);
    va_end(ap);
    failed_ = true;
    code_ = c;
  }
  bool IsCanceled() const override { return canceled_; }
  void NotifyOnCancel(google::protobuf::Closure* c) override {
    cancel_ = c;
    if (canceled_) if (auto* d = cancel_.exchange(nullptr)) d->Run();
  }
  void set_timeout_ms(int64_t) {}
  void set_log_id(uint64_t v) { log_id_ = v; has_log_id_ = true; }
  bool has_log_id() const { return has_log_id_; }
  bool has_log_id_{false};
  uint64_t log_id() const { return log_id_; }
  void set_max_retry(int) {}
  butil::EndPoint remote_side() const { return {}; }
  butil::EndPoint local_side() const { return {}; }
  int64_t latency_us() const { return 0; }
  butil::IOBuf& request_attachment() { return ra_; }
  butil::IOBuf& response_attachment() { return sa_; }
  void set_response_compress_type(CompressType) {}
  void set_request_compress_type(CompressType) {}

 private:
  std::atomic<google::protobuf::Closure*> cancel_{nullptr};
  std::atomic<bool> canceled_{false};
  bool failed_{false};
  std::string text_;
  int code_{0};
  uint64_t log_id_{0};
  butil::IOBuf ra_, sa_;
};
struct ChannelOptions { int64_t backup_request_ms{-1}; int64_t timeout_ms{500}, connect_timeout_ms{200}; int max_retry{3}; std::string connection_group; ConnectionType connection_type{CONNECTION_TYPE_SINGLE}; };
template <class T> struct MinWidthT { const T& v; int w; };
template <class T> MinWidthT<T> min_width(const T& v, int w) { return {v, w}; }
template <class T> std::ostream& operator<<(std::ostream& os, const MinWidthT<T>& m) {
  std::ostringstream o; o << m.v; std::string x = o.str(); os << x; for (size_t i = x.size(); i < (size_t)m.w; ++i) os << ' '; return os; }
// A harness may answer calls itself: return false for a transport failure.
using CallHook = std::function<bool(const google::protobuf::MethodDescriptor*, const google::protobuf::Message&, google::protobuf::Message*)>;
inline CallHook& OnCall() { static CallHook* h = new CallHook; return *h; }
class Channel : public google::protobuf::RpcChannel {
 public:
  int Init(const butil::EndPoint&, const ChannelOptions*) { return 0; }
  int Init(const char*, const ChannelOptions*) { return 0; }
  int Init(const char*, int, const ChannelOptions*) { return 0; }
  int Init(const char*, const char*, const ChannelOptions*) { return 0; }
  void CallMethod(const google::protobuf::MethodDescriptor* m, google::protobuf::RpcController* c,
                  const google::protobuf::Message* req, google::protobuf::Message* resp, google::protobuf::Closure* d) override {
    if (!OnCall() || !OnCall()(m, *req, resp)) { if (c) c->SetFailed("no network in this harness"); }
    if (d) d->Run();
  }
};
enum ServiceOwnership { SERVER_OWNS_SERVICE, SERVER_DOESNT_OWN_SERVICE };
struct ServerOptions { int num_threads{0}; int idle_timeout_sec{-1}; int bthread_tag{0}; };
class Server {
 public:
  int AddService(google::protobuf::Service*, ServiceOwnership) { return 0; }
  int Start(const butil::EndPoint&, const ServerOptions*) { return 0; }
  int Stop(int) { return 0; }
  int Join() { return 0; }
  bool IsRunning() const { return false; }
};
template <class C, class A>
google::protobuf::Closure* NewCallback(void (*f)(C, A), C c, A a) { return google::protobuf::NewCallback(f, c, a); }
inline bool IsAskedToQuit() { return false; }
}  // namespace brpc
