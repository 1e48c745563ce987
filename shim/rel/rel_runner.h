#pragma once
#include <stdexcept>
#include "expr/operand.h"
namespace rel {
class RelRunner {
 public:
  virtual ~RelRunner() = default;
  const expr::Byte* Decode(const expr::Byte*, size_t) { throw std::runtime_error("expressions are not available in this build"); }
  const expr::Tuple* Put(const expr::Tuple* t) { return t; }
  const expr::Tuple* Get() { return nullptr; }
};
}
