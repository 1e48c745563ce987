// Minimal flat-index part of the faiss API, with faiss's documented semantics (sorted results padded with -1, id maps, selectors).
#pragma once
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <memory>
#include <stdexcept>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

namespace faiss {
using idx_t = int64_t;
enum MetricType { METRIC_INNER_PRODUCT = 0, METRIC_L2 = 1, METRIC_L1, METRIC_Linf, METRIC_Lp, METRIC_Canberra = 20, METRIC_BrayCurtis, METRIC_JensenShannon, METRIC_Jaccard, METRIC_HAMMING = 40 };
struct IDSelector {
  virtual bool is_member(idx_t id) const = 0;
  virtual ~IDSelector() = default;
};
struct IDSelectorRange : IDSelector {
  idx_t a, b;
  IDSelectorRange(idx_t a, idx_t b, bool = false) : a(a), b(b) {}
  bool is_member(idx_t i) const override { return i >= a && i < b; }
};
struct IDSelectorBatch : IDSelector {
  std::unordered_set<idx_t> set;
  IDSelectorBatch(size_t n, const idx_t* i) : set(i, i + n) {}
  bool is_member(idx_t i) const override { return set.count(i) != 0; }
};
struct SearchParameters {
  IDSelector* sel{nullptr};
  virtual ~SearchParameters() = default;
};
struct SearchParametersIVF : SearchParameters { size_t nprobe{1}, max_codes{0}; };
struct RangeSearchResult {
  size_t nq;
  std::vector<size_t> lims_;
  size_t* lims;
  std::vector<idx_t> labels_;
  std::vector<float> distances_;
  idx_t* labels{nullptr};
  float* distances{nullptr};
  explicit RangeSearchResult(size_t n, bool = true) : nq(n), lims_(n + 1, 0), lims(lims_.data()) {}
  void Seal() { labels = labels_.data(); distances = distances_.data(); }
};
template <class C, class D>
struct IndexT {
  using component_t = C;
  using distance_t = D;
  int d;
  idx_t ntotal{0};
  bool verbose{false}, is_trained{true};
  MetricType metric_type;
  explicit IndexT(idx_t d = 0, MetricType m = METRIC_L2) : d(d), metric_type(m) {}
  virtual ~IndexT() = default;
  virtual void train(idx_t, const C*) {}
  virtual void add(idx_t n, const C* x) = 0;
  virtual void add_with_ids(idx_t, const C*, const idx_t*) { throw std::runtime_error("add_with_ids not implemented"); }
  virtual void search(idx_t n, const C* x, idx_t k, D* dist, idx_t* lab, const SearchParameters* = nullptr) const = 0;
  virtual void range_search(idx_t n, const C* x, D r, RangeSearchResult* res, const SearchParameters* = nullptr) const = 0;
  virtual void reset() = 0;
  virtual size_t remove_ids(const IDSelector&) = 0;
  virtual void reconstruct(idx_t, C*) const {}
  virtual std::vector<C> vs_row(idx_t i) const = 0;
};
using Index = IndexT<float, float>;
using IndexBinary = IndexT<uint8_t, int32_t>;

inline double vs_dist(MetricType m, const float* a, const float* b, size_t d) {
  double s = 0;
  for (size_t i = 0; i < d; ++i) s += m == METRIC_L2 ? ((double)a[i] - b[i]) * ((double)a[i] - b[i]) : (double)a[i] * b[i];
  return s;
}
inline double vs_dist(MetricType, const uint8_t* a, const uint8_t* b, size_t n) {
  int s = 0;
  for (size_t i = 0; i < n; ++i) s += __builtin_popcount(a[i] ^ b[i]);
  return s;
}
template <class C, class D>
struct FlatT : IndexT<C, D> {
  using B = IndexT<C, D>;
  size_t w;  // components per row
  std::vector<C> x;
  FlatT(idx_t d, MetricType m) : B(d, m), w(sizeof(C) == 1 ? d / 8 : d) {}
  void add(idx_t n, const C* v) override { x.insert(x.end(), v, v + n * w); B::ntotal += n; }
  void reset() override { x.clear(); B::ntotal = 0; }
  bool Larger() const { return B::metric_type == METRIC_INNER_PRODUCT; }
  void search(idx_t n, const C* q, idx_t k, D* dist, idx_t* lab, const SearchParameters* p = nullptr) const override {
    for (idx_t i = 0; i < n; ++i) {
      std::vector<std::pair<D, idx_t>> c;
      for (idx_t j = 0; j < B::ntotal; ++j)
        if (!p || !p->sel || p->sel->is_member(j)) c.emplace_back((D)vs_dist(B::metric_type, q + i * w, &x[j * w], w), j);
      bool lg = Larger();
      std::stable_sort(c.begin(), c.end(), [lg](auto& a, auto& b) { return lg ? a.first > b.first : a.first < b.first; });
      for (idx_t j = 0; j < k; ++j) {
        bool in = j < (idx_t)c.size();
        lab[i * k + j] = in ? c[j].second : -1;
        dist[i * k + j] = in ? c[j].first : lg ? std::numeric_limits<D>::lowest() : std::numeric_limits<D>::max();
      }
    }
  }
  void range_search(idx_t n, const C* q, D r, RangeSearchResult* res, const SearchParameters* p = nullptr) const override {
    for (idx_t i = 0; i < n; ++i) {
      for (idx_t j = 0; j < B::ntotal; ++j) {
        if (p && p->sel && !p->sel->is_member(j)) continue;
        D v = (D)vs_dist(B::metric_type, q + i * w, &x[j * w], w);
        if (Larger() ? v > r : v < r) { res->labels_.push_back(j); res->distances_.push_back((float)v); }
      }
      res->lims[i + 1] = res->labels_.size();
    }
    res->Seal();
  }
  size_t remove_ids(const IDSelector& s) override {
    idx_t o = 0;
    for (idx_t j = 0; j < B::ntotal; ++j) {
      if (s.is_member(j)) continue;
      if (o != j) memmove(&x[o * w], &x[j * w], w * sizeof(C));
      ++o;
    }
    size_t r = B::ntotal - o;
    B::ntotal = o;
    x.resize(o * w);
    return r;
  }
  void reconstruct(idx_t i, C* o) const override { memcpy(o, &x[i * w], w * sizeof(C)); }
  std::vector<C> vs_row(idx_t i) const override { return std::vector<C>(x.begin() + i * w, x.begin() + (i + 1) * w); }
};
struct IndexFlat : FlatT<float, float> { explicit IndexFlat(idx_t d = 0, MetricType m = METRIC_L2) : FlatT(d, m) {} };
struct IndexFlatL2 : IndexFlat { explicit IndexFlatL2(idx_t d = 0) : IndexFlat(d, METRIC_L2) {} };
struct IndexFlatIP : IndexFlat { explicit IndexFlatIP(idx_t d = 0) : IndexFlat(d, METRIC_INNER_PRODUCT) {} };
struct IndexBinaryFlat : FlatT<uint8_t, int32_t> { explicit IndexBinaryFlat(idx_t d = 0) : FlatT(d, METRIC_L2) {} };

template <class I>
struct IDMap2T : I {
  using C = typename I::component_t;
  using D = typename I::distance_t;
  I* index;
  bool own_fields{false};
  std::vector<idx_t> id_map;
  std::unordered_map<idx_t, idx_t> rev_map;
  explicit IDMap2T(I* i) : I(i->d, i->metric_type), index(i) { this->is_trained = i->is_trained; this->ntotal = i->ntotal; }
  IDMap2T() : index(nullptr) {}
  ~IDMap2T() override { if (own_fields) delete index; }
  void add(idx_t, const C*) override { throw std::runtime_error("add does not make sense with IndexIDMap"); }
  void add_with_ids(idx_t n, const C* x, const idx_t* ids) override {
    size_t p = id_map.size();
    index->add(n, x);
    for (idx_t i = 0; i < n; ++i) id_map.push_back(ids[i]);
    this->ntotal = index->ntotal;
    for (size_t i = p; i < id_map.size(); ++i) rev_map[id_map[i]] = i;
  }
  struct Tr : IDSelector {
    const std::vector<idx_t>& m;
    const IDSelector* s;
    Tr(const std::vector<idx_t>& m, const IDSelector* s) : m(m), s(s) {}
    bool is_member(idx_t i) const override { return s->is_member(m[i]); }
  };
  void search(idx_t n, const C* x, idx_t k, D* dist, idx_t* lab, const SearchParameters* p = nullptr) const override {
    SearchParameters q;
    Tr t(id_map, p ? p->sel : nullptr);
    if (p && p->sel) q.sel = &t;
    index->search(n, x, k, dist, lab, &q);
    for (idx_t i = 0; i < n * k; ++i) lab[i] = lab[i] < 0 ? lab[i] : id_map[lab[i]];
  }
  void range_search(idx_t n, const C* x, D r, RangeSearchResult* res, const SearchParameters* p = nullptr) const override {
    SearchParameters q;
    Tr t(id_map, p ? p->sel : nullptr);
    if (p && p->sel) q.sel = &t;
    index->range_search(n, x, r, res, &q);
    for (auto& l : res->labels_) l = id_map[l];
  }
  void reset() override { index->reset(); id_map.clear(); rev_map.clear(); this->ntotal = 0; }
  size_t remove_ids(const IDSelector& s) override {
    Tr t(id_map, &s);
    size_t r = index->remove_ids(t), o = 0;
    for (size_t i = 0; i < id_map.size(); ++i)
      if (!s.is_member(id_map[i])) id_map[o++] = id_map[i];
    id_map.resize(o);
    this->ntotal = index->ntotal;
    rev_map.clear();
    for (size_t i = 0; i < o; ++i) rev_map[id_map[i]] = i;
    return r;
  }
  void reconstruct(idx_t id, C* o) const override { index->reconstruct(rev_map.at(id), o); }
  std::vector<C> vs_row(idx_t i) const override { return index->vs_row(i); }
};
using IndexIDMap2 = IDMap2T<Index>;
using IndexIDMap = IDMap2T<Index>;
using IndexBinaryIDMap2 = IDMap2T<IndexBinary>;
using IndexBinaryIDMap = IDMap2T<IndexBinary>;

template <class I, class F>
void vs_write(const I* i, const char* path, uint32_t magic) {
  auto* m = dynamic_cast<const IDMap2T<I>*>(i);
  if (!m) throw std::runtime_error("unsupported index");
  FILE* f = fopen(path, "wb");
  if (!f) throw std::runtime_error("open");
  uint64_t h[4] = {magic, (uint64_t)m->d, (uint64_t)m->metric_type, m->id_map.size()};
  fwrite(h, sizeof h, 1, f);
  fwrite(m->id_map.data(), 8, m->id_map.size(), f);
  for (size_t j = 0; j < m->id_map.size(); ++j) { auto r = m->vs_row(j); fwrite(r.data(), sizeof(r[0]), r.size(), f); }
  fclose(f);
}
template <class I, class F>
I* vs_read(const char* path, uint32_t magic) {
  FILE* f = fopen(path, "rb");
  if (!f) throw std::runtime_error("could not open");
  uint64_t h[4];
  std::unique_ptr<F> in;
  std::vector<idx_t> ids;
  bool ok = fread(h, sizeof h, 1, f) == 1 && h[0] == magic;
  if (ok) {
    in.reset(new F(h[1]));
    in->metric_type = (MetricType)h[2];
    ids.resize(h[3]);
    ok = fread(ids.data(), 8, ids.size(), f) == ids.size();
    in->x.resize(h[3] * in->w);
    ok = ok && fread(in->x.data(), sizeof(in->x[0]), in->x.size(), f) == in->x.size();
    in->ntotal = h[3];
  }
  fclose(f);
  if (!ok) throw std::runtime_error("bad index file");
  auto* m = new IDMap2T<I>(in.release());
  m->own_fields = true;
  m->id_map = ids;
  for (size_t j = 0; j < ids.size(); ++j) m->rev_map[ids[j]] = j;
  return m;
}
inline void write_index(const Index* i, const char* p) { vs_write<Index, IndexFlat>(i, p, 0xF1A7); }
inline void write_index_binary(const IndexBinary* i, const char* p) { vs_write<IndexBinary, IndexBinaryFlat>(i, p, 0xB1A7); }
inline Index* read_index(const char* p, int = 0) { return vs_read<Index, IndexFlat>(p, 0xF1A7); }
inline IndexBinary* read_index_binary(const char* p, int = 0) { return vs_read<IndexBinary, IndexBinaryFlat>(p, 0xB1A7); }

inline float fvec_norm_L2sqr(const float* x, size_t d) { double s = 0; for (size_t i = 0; i < d; ++i) s += (double)x[i] * x[i]; return (float)s; }
template <MetricType M>
struct VectorDistance {
  size_t d;
  template <class T>
  float operator()(const T* a, const T* b) const { return (float)vs_dist(M, a, b, d); }
};
}  // namespace faiss
