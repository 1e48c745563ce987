#pragma once
#include <any>
#include <cstddef>
#include <cstdint>
#include <vector>
namespace expr {
using Byte = uint8_t;
class Operand { public: Operand() = default; template <class T> Operand(T v) : v_(v) {} template <class T> T GetValue() const { return std::any_cast<T>(v_); } bool has_value() const { return v_.has_value(); } std::any v_; };
using Tuple = std::vector<Operand>;
}
