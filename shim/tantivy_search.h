// Stand-in for the full-text engine's C interface: accepts what the caller configured, records what it was asked.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
struct FFIBoolResult { bool result = true; int error_code = 0; std::string error_msg; };
namespace vs_tantivy {
inline bool accept = true;
inline std::vector<std::string>& asked() { static std::vector<std::string> v; return v; }
}  // namespace vs_tantivy
inline FFIBoolResult ffi_varify_index_parameter(const std::string& json) {
  vs_tantivy::asked().push_back(json);
  FFIBoolResult r;
  r.result = vs_tantivy::accept;
  if (!r.result) r.error_msg = "refused by the engine";
  return r;
}
