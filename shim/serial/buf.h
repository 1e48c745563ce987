#pragma once
// The byte buffer of the serial library: big-endian fixed-width writes.
#include <cstdint>
#include <cstring>
#include <optional>
#include <string>
#include <vector>
#include "glog/logging.h"
#include "gflags/gflags.h"
namespace dingodb {
class Buf {
 public:
  explicit Buf(int n) { b_.reserve(n); }
  explicit Buf(const std::string& s) : b_(s) {}
  void Write(uint8_t c) { b_.push_back((char)c); }
  void WriteInt(int32_t v) { for (int i = 3; i >= 0; i--) Write((uint32_t)v >> (8 * i)); }
  void WriteLong(int64_t v) { for (int i = 7; i >= 0; i--) Write((uint64_t)v >> (8 * i)); }
  uint8_t Read() { CHECK(p_ < b_.size()) << "read past the end of the buffer"; return (uint8_t)b_[p_++]; }
  int32_t ReadInt() { uint32_t v = 0; for (int i = 0; i < 4; i++) v = v << 8 | Read(); return v; }
  int64_t ReadLong() { uint64_t v = 0; for (int i = 0; i < 8; i++) v = v << 8 | Read(); return v; }
  int GetBytes(std::string& s) { s = b_; return s.size(); }
  const std::string& GetString() { return b_; }
  size_t Size() { return b_.size(); }
 private:
  std::string b_;
  size_t p_{0};
};
}  // namespace dingodb
