// Stand-in: labelled metrics keyed by label values.
#pragma once
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <string>
#include "bvar/bvar.h"
namespace dingodb {
template <typename T>
class DingoMultiDimension {
 public:
  using key_type = std::list<std::string>;
  explicit DingoMultiDimension(const key_type&) {}
  template <class N> DingoMultiDimension(const N&, const key_type&) {}
  T* get_stats(const key_type& k) {
    std::lock_guard<std::mutex> g(m_);
    auto& p = v_[k];
    if (!p) p = std::make_unique<T>();
    return p.get();
  }
  template <class A> int expose(const A&) { return 0; }
  template <class A, class B> int expose_as(const A&, const B&) { return 0; }
  void delete_stats() { clear_stats(); }
  void delete_stats(const key_type& k) { std::lock_guard<std::mutex> g(m_); v_.erase(k); }
  void clear_stats() { std::lock_guard<std::mutex> g(m_); v_.clear(); }
  bool has_stats(const key_type& k) { std::lock_guard<std::mutex> g(m_); return v_.count(k); }
  void list_stats(std::vector<key_type>* o) { std::lock_guard<std::mutex> g(m_); for (auto& x : v_) o->push_back(x.first); }
  size_t count_stats() { std::lock_guard<std::mutex> g(m_); return v_.size(); }
 private:
  std::mutex m_;
  std::map<key_type, std::unique_ptr<T>> v_;
};
}  // namespace dingodb
