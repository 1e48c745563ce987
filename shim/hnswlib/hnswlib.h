#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <map>
#include <mutex>
#include <queue>
#include <stdexcept>
#include <string>
#include <vector>
namespace hnswlib {
using labeltype = size_t;
template <class D> using DISTFUNC = D (*)(const void*, const void*, const void*);
template <class D> struct SpaceInterface { virtual size_t get_data_size() = 0; virtual DISTFUNC<D> get_dist_func() = 0; virtual void* get_dist_func_param() = 0; virtual ~SpaceInterface() = default; };
struct L2Space : SpaceInterface<float> {
  size_t d; explicit L2Space(size_t d) : d(d) {}
  static float F(const void* a, const void* b, const void* p) { double s = 0; auto x = (const float*)a, y = (const float*)b; for (size_t i = 0; i < *(const size_t*)p; ++i) s += ((double)x[i] - y[i]) * ((double)x[i] - y[i]); return (float)s; }
  size_t get_data_size() override { return d * 4; } DISTFUNC<float> get_dist_func() override { return F; } void* get_dist_func_param() override { return &d; }
};
struct InnerProductSpace : SpaceInterface<float> {
  size_t d; explicit InnerProductSpace(size_t d) : d(d) {}
  static float F(const void* a, const void* b, const void* p) { double s = 0; auto x = (const float*)a, y = (const float*)b; for (size_t i = 0; i < *(const size_t*)p; ++i) s += (double)x[i] * y[i]; return (float)(1.0 - s); }
  size_t get_data_size() override { return d * 4; } DISTFUNC<float> get_dist_func() override { return F; } void* get_dist_func_param() override { return &d; }
};
struct BaseFilterFunctor { virtual bool operator()(labeltype) { return true; } virtual ~BaseFilterFunctor() = default; };
// Same interface as the graph index, with exact search: what the caller does with it can be judged against exact answers.
template <class D>
class HierarchicalNSW {
 public:
  struct E { std::vector<char> v; bool del{false}; };
  HierarchicalNSW(SpaceInterface<D>* s, size_t max, size_t = 16, size_t = 200, size_t = 100, bool = false) : s_(s), max_(max) {}
  HierarchicalNSW(SpaceInterface<D>* s, const std::string& path, bool = false, size_t max = 0, bool = false) : s_(s), max_(max) {
    FILE* f = fopen(path.c_str(), "rb");
    if (!f) throw std::runtime_error("Cannot open file");
    size_t n = 0;
    bool ok = fread(&n, sizeof n, 1, f) == 1;
    while (ok && n--) {
      labeltype l; E e; e.v.resize(s->get_data_size());
      ok = fread(&l, sizeof l, 1, f) == 1 && fread(&e.del, 1, 1, f) == 1 && fread(e.v.data(), 1, e.v.size(), f) == e.v.size();
      if (ok) m_[l] = e;
    }
    fclose(f);
    if (!ok) throw std::runtime_error("Index seems to be corrupted or unsupported");
    if (m_.size() > max_) max_ = m_.size();
  }
  void addPoint(const void* p, labeltype l, bool = false) {
    std::lock_guard<std::mutex> g(mu_);
    if (!m_.count(l) && m_.size() >= max_) throw std::runtime_error("The number of elements exceeds the specified limit");
    E& e = m_[l];
    e.v.assign((const char*)p, (const char*)p + s_->get_data_size());
    e.del = false;
  }
  void markDelete(labeltype l) {
    std::lock_guard<std::mutex> g(mu_);
    auto it = m_.find(l);
    if (it == m_.end()) throw std::runtime_error("Label not found");
    if (it->second.del) throw std::runtime_error("The requested to delete element is already deleted");
    it->second.del = true;
  }
  void resizeIndex(size_t n) { std::lock_guard<std::mutex> g(mu_); if (n < m_.size()) throw std::runtime_error("Cannot resize, max element is less than the current number of elements"); max_ = n; }
  size_t getCurrentElementCount() { std::lock_guard<std::mutex> g(mu_); return m_.size(); }
  size_t getMaxElements() { return max_; }
  size_t getDeletedCount() { std::lock_guard<std::mutex> g(mu_); size_t n = 0; for (auto& x : m_) n += x.second.del; return n; }
  void setEf(size_t) {}
  size_t indexFileSize() const { return m_.size() * (s_->get_data_size() + 16) + 64; }
  template <class T> std::vector<T> getDataByLabel(labeltype l) {
    std::lock_guard<std::mutex> g(mu_);
    auto it = m_.find(l);
    if (it == m_.end() || it->second.del) throw std::runtime_error("Label not found");
    std::vector<T> r(it->second.v.size() / sizeof(T));
    memcpy(r.data(), it->second.v.data(), r.size() * sizeof(T));
    return r;
  }
  std::priority_queue<std::pair<D, labeltype>> searchKnn(const void* q, size_t k, BaseFilterFunctor* f = nullptr) {
    std::lock_guard<std::mutex> g(mu_);
    std::priority_queue<std::pair<D, labeltype>> r;
    for (auto& [l, e] : m_) {
      if (e.del || (f && !(*f)(l))) continue;
      r.emplace(s_->get_dist_func()(q, e.v.data(), s_->get_dist_func_param()), l);
      if (r.size() > k) r.pop();
    }
    return r;
  }
  void saveIndex(const std::string& path) {
    std::lock_guard<std::mutex> g(mu_);
    FILE* f = fopen(path.c_str(), "wb");
    if (!f) throw std::runtime_error("Cannot open file");
    size_t n = m_.size();
    fwrite(&n, sizeof n, 1, f);
    for (auto& [l, e] : m_) { fwrite(&l, sizeof l, 1, f); fwrite(&e.del, 1, 1, f); fwrite(e.v.data(), 1, e.v.size(), f); }
    fclose(f);
  }
 private:
  SpaceInterface<D>* s_;
  size_t max_;
  std::mutex mu_;
  std::map<labeltype, E> m_;
};
template <class F> void set_fvec_L2sqr_hook(F) {}
template <class F> void set_fvec_inner_product_hook(F) {}
}  // namespace hnswlib
