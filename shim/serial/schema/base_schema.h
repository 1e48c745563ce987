#pragma once
#include <memory>
#include <optional>
#include <string>
#include <vector>
#include "serial/buf.h"
namespace dingodb {
class BaseSchema {
 public:
  enum Type { kBool, kInteger, kFloat, kLong, kDouble, kString, kBoolList, kIntegerList, kFloatList, kLongList, kDoubleList, kStringList, kDecimal, kDecimalList };
  virtual ~BaseSchema() = default;
  virtual Type GetType() { return kLong; }
  virtual bool AllowNull() { return true; }
  virtual int GetLength() { return 0; }
  virtual bool IsKey() { return false; }
  virtual int GetIndex() { return 0; }
  virtual void SetIndex(int) {}
  virtual void SetAllowNull(bool) {}
  virtual void SetName(const std::string&) {}
  virtual const std::string& GetName() const { static std::string s; return s; }
};
template <class T>
class DingoSchema : public BaseSchema {};
template <>
class DingoSchema<std::optional<int64_t>> : public BaseSchema {
 public:
  // Memcomparable: big-endian with the sign bit flipped.
  static void InternalEncodeKey(Buf* b, int64_t v) { b->WriteLong((int64_t)((uint64_t)v ^ (1ull << 63))); }
  static int64_t InternalDecodeKey(Buf* b) { return (int64_t)((uint64_t)b->ReadLong() ^ (1ull << 63)); }
};
using BaseSchemaPtr = std::shared_ptr<BaseSchema>;
}  // namespace dingodb
