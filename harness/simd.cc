// V01: every vector kernel agrees with exact arithmetic, whichever instruction set is picked.
#include <math.h>
#include <malloc.h>
#include "vh.h"
#include "simd/hook.h"
#include "simd/distances_ref.h"
#include "simd/distances_sse.h"
#include "simd/distances_avx.h"
#include "simd/distances_avx512.h"
#include "simd/instruction_set.h"
using namespace dingodb;
using vh::Fmt;
typedef float (*F2)(const float*, const float*, size_t);
struct Kern { const char* isa; F2 ip, l2, l1, linf; float (*norm)(const float*, size_t); void (*l2ny)(float*, const float*, const float*, size_t, size_t); void (*ipny)(float*, const float*, const float*, size_t, size_t); void (*madd)(size_t, const float*, float, const float*, float*); int (*am)(size_t, const float*, float, const float*, float*); };

// Exactly sized heap block at a chosen float misalignment, so that a read or write past the end is seen.
struct Buf {
  char* raw; float* p; size_t n;
  Buf(size_t n, int mis) : n(n) { raw = (char*)memalign(64, n * 4 + mis * 4 + (n + mis == 0 ? 1 : 0)); p = (float*)raw + mis; }
  ~Buf() { free(raw); }
};
static float Gen(vh::Rng& r, int cls) {
  switch (cls) {
    case 0: return (float)r.Range(-16, 16);                       // every partial sum is exact
    case 1: return (float)(r.Unit() * 2 - 1);
    case 2: return (float)((r.Unit() * 2 - 1) * pow(2, r.Range(-20, 20)));
    case 3: return (float)(1000 + r.Unit() * 1e-3);               // cancellation
    case 4: return r.Chance(1, 2) ? 0.0f : (r.Chance(1, 2) ? -0.0f : (float)((r.Unit() * 2 - 1) * 1e-30));
    default: return r.Chance(1, 10) ? (float)r.Range(-1000, 1000) : 0.0f;  // sparse
  }
}
static bool Close(double got, long double want, long double abs_sum, size_t d, bool exact) {
  if (exact) return (long double)got == want;
  long double tol = abs_sum * (long double)(d + 8) * 1.2e-7L + 1e-37L;
  return fabsl((long double)got - want) <= tol;
}
static std::string Dump(const float* x, size_t d) {
  std::string s = "["; for (size_t i = 0; i < d && i < 40; i++) s += Fmt("%.9g,", x[i]); return s + "]";
}
static void CheckPair(const Kern& k, const float* x, const float* y, size_t d, int cls) {
  long double ip = 0, aip = 0, l2 = 0, l1 = 0, linf = 0, nn = 0;
  for (size_t i = 0; i < d; i++) {
    long double a = x[i], b = y[i], t = (float)(x[i] - y[i]);
    ip += a * b; aip += fabsl(a * b); l2 += t * t; l1 += fabsl(t); linf = fmaxl(linf, fabsl(t)); nn += a * a;
  }
  bool ex = cls == 0;
  struct { const char* op; double got; long double want, mag; } r[] = {
      {"inner_product", k.ip(x, y, d), ip, aip}, {"L2sqr", k.l2(x, y, d), l2, l2}, {"L1", k.l1(x, y, d), l1, l1},
      {"norm_L2sqr", k.norm(x, d), nn, nn}};
  for (auto& e : r)
    if (!Close(e.got, e.want, e.mag, d, ex))
      vh::Fail(Fmt("%s-%s", e.op, k.isa), Fmt("d=%zu got=%.9g want=%.9Lg x=%s y=%s", d, e.got, e.want, Dump(x, d).c_str(), Dump(y, d).c_str()));
  float li = k.linf(x, y, d);
  if ((long double)li != linf) vh::Fail(Fmt("Linf-%s", k.isa), Fmt("d=%zu got=%.9g want=%.9Lg x=%s y=%s", d, li, linf, Dump(x, d).c_str(), Dump(y, d).c_str()));
}
static void CheckNy(const Kern& k, vh::Rng& r, size_t d, size_t ny, int cls) {
  Buf x(d, r.Below(4)), y(d * ny, r.Below(4)), o(ny, r.Below(4));
  for (size_t i = 0; i < d; i++) x.p[i] = Gen(r, cls);
  for (size_t i = 0; i < d * ny; i++) y.p[i] = Gen(r, cls);
  for (int op = 0; op < 2; op++) {
    for (size_t i = 0; i < ny; i++) o.p[i] = NAN;
    (op ? k.ipny : k.l2ny)(o.p, x.p, y.p, d, ny);
    for (size_t j = 0; j < ny; j++) {
      long double w = 0, m = 0;
      for (size_t i = 0; i < d; i++) {
        long double t = op ? (long double)x.p[i] * y.p[j * d + i] : (long double)(float)(x.p[i] - y.p[j * d + i]) * (float)(x.p[i] - y.p[j * d + i]);
        w += t; m += fabsl(t);
      }
      if (!Close(o.p[j], w, m, d, cls == 0)) vh::Fail(Fmt("%s_ny-%s", op ? "inner_products" : "L2sqr", k.isa), Fmt("d=%zu ny=%zu j=%zu got=%.9g want=%.9Lg", d, ny, j, o.p[j], w));
    }
  }
}
static void CheckMadd(const Kern& k, vh::Rng& r, size_t n, int cls) {
  int m0 = r.Chance(1, 2) ? 0 : r.Below(4), m1 = r.Chance(1, 2) ? 0 : r.Below(4), m2 = r.Chance(1, 2) ? 0 : r.Below(4);
  Buf a(n, m0), b(n, m1), c(n, m2), c2(n, m2);
  float bf = Gen(r, cls);
  for (size_t i = 0; i < n; i++) { a.p[i] = Gen(r, cls); b.p[i] = Gen(r, cls); c.p[i] = c2.p[i] = NAN; }
  k.madd(n, a.p, bf, b.p, c.p);
  int im = k.am(n, a.p, bf, b.p, c2.p);
  float mn = INFINITY;
  for (size_t i = 0; i < n; i++) {
    volatile float t = bf * b.p[i];
    float w = a.p[i] + t;
    double tol = (fabs((double)a.p[i]) + fabs((double)t)) * 2.5e-7;
    if (fabs((double)c.p[i] - w) > tol || fabs((double)c2.p[i] - w) > tol || c.p[i] != c.p[i])
      vh::Fail(Fmt("madd-%s", k.isa), Fmt("n=%zu i=%zu got=%.9g/%.9g want=%.9g", n, i, c.p[i], c2.p[i], w));
    mn = fminf(mn, c2.p[i]);
  }
  bool none = n == 0 || !(mn < 1e20f);
  if (none ? im != -1 : (im < 0 || (size_t)im >= n || c2.p[im] != mn))
    vh::Fail(Fmt("argmin-%s", k.isa), Fmt("n=%zu index=%d min=%.9g align=%d/%d/%d", n, im, mn, m0, m1, m2));
}
int main(int argc, char** argv) {
  vh::Init(argc, argv);
  vh::Rng r(vh::Seed());
  std::vector<Kern> ks;
  Kern ref{"ref", fvec_inner_product_ref, fvec_L2sqr_ref, fvec_L1_ref, fvec_Linf_ref, fvec_norm_L2sqr_ref, fvec_L2sqr_ny_ref, fvec_inner_products_ny_ref, fvec_madd_ref, fvec_madd_and_argmin_ref};
  ks.push_back(ref);
  if (__builtin_cpu_supports("sse4.2")) ks.push_back({"sse", fvec_inner_product_sse, fvec_L2sqr_sse, fvec_L1_sse, fvec_Linf_sse, fvec_norm_L2sqr_sse, fvec_L2sqr_ny_sse, fvec_inner_products_ny_sse, fvec_madd_sse, fvec_madd_and_argmin_sse});
  Kern k = ks.back();
  if (__builtin_cpu_supports("avx2")) { k.isa = "avx"; k.ip = fvec_inner_product_avx; k.l2 = fvec_L2sqr_avx; k.l1 = fvec_L1_avx; k.linf = fvec_Linf_avx; ks.push_back(k); }
  if (__builtin_cpu_supports("avx512f") && __builtin_cpu_supports("avx512dq") && __builtin_cpu_supports("avx512bw")) { k.isa = "avx512"; k.ip = fvec_inner_product_avx512; k.l2 = fvec_L2sqr_avx512; k.l1 = fvec_L1_avx512; k.linf = fvec_Linf_avx512; ks.push_back(k); }
  // The dispatcher: each setting of the switches must install kernels that satisfy the same oracle, and name them.
  bool s512 = cpu_support_avx512(), s2 = cpu_support_avx2(), s42 = cpu_support_sse4_2();
  if (s512 != (__builtin_cpu_supports("avx512f") && __builtin_cpu_supports("avx512dq") && __builtin_cpu_supports("avx512bw"))) vh::Fail("cpuid-avx512", Fmt("reported %d", s512));
  if (s2 != !!__builtin_cpu_supports("avx2")) vh::Fail("cpuid-avx2", Fmt("reported %d", s2));
  if (s42 != !!__builtin_cpu_supports("sse4.2")) vh::Fail("cpuid-sse42", Fmt("reported %d", s42));
  static const char* names[] = {"d-000", "d-001", "d-010", "d-011", "d-100", "d-101", "d-110", "d-111"};
  bool safe = s512 == !!__builtin_cpu_supports("avx512bw") && s2 == !!__builtin_cpu_supports("avx2");
  for (int m = 0; m < 8 && safe; m++) {
    use_avx512 = m & 4; use_avx2 = m & 2; use_sse4_2 = m & 1;
    std::string t, t2;
    fvec_hook(t); fvec_hook_info(t2);
    std::string want = (use_avx512 && s512) ? "AVX512" : (use_avx2 && s2) ? "AVX2" : (use_sse4_2 && s42) ? "SSE4_2" : "GENERIC";
    if (t != want || t2 != want) vh::Fail("dispatch-name", Fmt("switches=%d installed=%s reported=%s want=%s", m, t.c_str(), t2.c_str(), want.c_str()));
    ks.push_back({names[m], fvec_inner_product, fvec_L2sqr, fvec_L1, fvec_Linf, fvec_norm_L2sqr, fvec_L2sqr_ny, fvec_inner_products_ny, fvec_madd, fvec_madd_and_argmin});
    vh::Count("dispatch_settings");
  }
  use_avx512 = use_avx2 = use_sse4_2 = true;
  uint64_t reps = vh::N(2, 20);
  size_t maxd = vh::N(160, 520);
  std::vector<size_t> ds;
  for (size_t d = 0; d <= maxd; d++) ds.push_back(d);
  for (size_t d : {255, 256, 257, 511, 512, 768, 960, 1023, 1024, 1025, 1536, 2048, 4095, 4096}) ds.push_back(d);
  for (auto& kk : ks) {
    for (size_t d : ds)
      for (int cls = 0; cls < 6; cls++)
        for (uint64_t q = 0; q < (d > 600 ? 1 : reps); q++) {
          Buf x(d, r.Below(4)), y(d, r.Below(4));
          for (size_t i = 0; i < d; i++) { x.p[i] = Gen(r, cls); y.p[i] = Gen(r, cls); }
          if (q == 0 && d) {  // one coordinate carries everything: a skipped or doubled lane shows
            size_t h = r.Below(d);
            for (size_t i = 0; i < d; i++) y.p[i] = x.p[i];
            y.p[h] = x.p[h] + 7;
          }
          vh::SetCase(Fmt("%s d=%zu cls=%d", kk.isa, d, cls));
          CheckPair(kk, x.p, y.p, d, cls);
          vh::Case(vh::Mix(vh::HashStr(kk.isa), d * 64 + cls * 4 + (q ? 1 : 0)));
        }
    vh::Count(std::string("pair_cases_") + kk.isa, ds.size() * 6);
    for (size_t d = 0; d <= 40; d++)
      for (size_t ny = 0; ny <= 13; ny++) {
        int cls = (d + ny) % 6;
        vh::SetCase(Fmt("ny %s d=%zu ny=%zu", kk.isa, d, ny));
        CheckNy(kk, r, d, ny, cls); CheckNy(kk, r, d, ny, 0);
        vh::Case(vh::Mix(vh::HashStr(kk.isa) + 1, d * 64 + ny)); vh::Count("ny_cases", 2);
      }
    for (size_t n = 0; n <= 70; n++)
      for (uint64_t q = 0; q < 4 * reps; q++) {
        vh::SetCase(Fmt("madd %s n=%zu", kk.isa, n));
        CheckMadd(kk, r, n, r.Below(6)); vh::Case(vh::Mix(vh::HashStr(kk.isa) + 2, n * 8 + q)); vh::Count("madd_cases");
      }
    vh::Sample(Fmt("%s: dims 0..%zu and up to 4096, 6 value classes, misaligned exact-size buffers; ny d<=40 x ny<=13; madd n<=70", kk.isa, maxd));
  }
  return vh::Finish();
}
