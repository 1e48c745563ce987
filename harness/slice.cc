// Slice: byte-string views judged against std::string, on exactly sized heap buffers.
#include "vh.h"
#include <memory>
#include <thread>
#include "common/slice.h"
using namespace vh;
using dingodb::Slice;
using dingodb::SliceParts;

struct Buf {  // exactly sized, so that any over-read is seen by ASan
  std::unique_ptr<char[]> p;
  size_t n;
  explicit Buf(const std::string& s) : p(new char[s.size() ? s.size() : 1]), n(s.size()) { memcpy(p.get(), s.data(), n); if (!n) { p.reset(new char[0]); } }
  Slice S() const { return Slice(p.get(), n); }
};
static int Sgn(int x) { return (x > 0) - (x < 0); }
static int RefCmp(const std::string& a, const std::string& b) {
  size_t n = std::min(a.size(), b.size());
  for (size_t i = 0; i < n; ++i) {
    unsigned char x = a[i], y = b[i];
    if (x != y) return x < y ? -1 : 1;
  }
  return a.size() < b.size() ? -1 : a.size() > b.size() ? 1 : 0;
}
static std::string RefHex(const std::string& s) {
  static const char* d = "0123456789ABCDEF";
  std::string r;
  for (unsigned char c : s) { r += d[c >> 4]; r += d[c & 15]; }
  return r;
}
static bool RefUnhex(const std::string& s, std::string* out) {
  if (s.size() % 2) return false;
  out->clear();
  for (size_t i = 0; i < s.size(); i += 2) {
    int v = 0;
    for (int k = 0; k < 2; ++k) {
      char c = s[i + k];
      int h;
      if (c >= '0' && c <= '9') h = c - '0';
      else if (c >= 'a' && c <= 'f') h = c - 'a' + 10;
      else if (c >= 'A' && c <= 'F') h = c - 'A' + 10;
      else return false;
      v = v * 16 + h;
    }
    out->push_back((char)v);
  }
  return true;
}

static void Pair(const std::string& a, const std::string& b) {
  SetCase("pair a=" + Hex(a) + " b=" + Hex(b));
  Buf ba(a), bb(b);
  Slice x = ba.S(), y = bb.S();
  int want = RefCmp(a, b);
  if (Sgn(x.compare(y)) != want) Fail("compare", Fmt("got %d want %d", x.compare(y), want));
  if (Sgn(y.compare(x)) != -want) Fail("compare", "not antisymmetric");
  if ((x == y) != (want == 0)) Fail("equality", "operator==");
  if ((x != y) != (want != 0)) Fail("equality", "operator!=");
  bool pre = a.size() >= b.size() && a.substr(0, b.size()) == b;
  bool suf = a.size() >= b.size() && a.substr(a.size() - b.size()) == b;
  if (x.starts_with(y) != pre) Fail("starts_with", Fmt("got %d", x.starts_with(y)));
  if (x.ends_with(y) != suf) Fail("ends_with", Fmt("got %d", x.ends_with(y)));
  size_t off = 0, n = std::min(a.size(), b.size());
  while (off < n && a[off] == b[off]) ++off;
  if (x.difference_offset(y) != off) Fail("difference_offset", Fmt("got %zu want %zu", x.difference_offset(y), off));
  Count("pairs");
  if (pre && !b.empty()) Count("prefix_true");
  if (suf && !b.empty()) Count("suffix_true");
  if (want == 0) Count("equal_pairs");
  Case(a.empty() && b.empty() ? 0 : Mix(HashStr(a), HashStr(b)));
}
static void Single(const std::string& a, Rng& r) {
  SetCase("single a=" + Hex(a));
  Buf ba(a);
  Slice x = ba.S();
  if (x.size() != a.size() || x.empty() != a.empty() || x.data() != ba.p.get()) Fail("accessors", "size/empty/data");
  for (size_t i = 0; i < a.size(); ++i)
    if (x[i] != a[i]) Fail("accessors", Fmt("operator[] %zu", i));
  if (x.ToString() != a || x.ToString(false) != a) Fail("to_string", "plain copy differs");
  if (x.ToStringView() != std::string_view(a)) Fail("to_string", "view differs");
  std::string h = x.ToString(true);
  if (h != RefHex(a)) Fail("hex_encode", "got " + h);
  std::string back = "previous contents";
  Buf bh(h);
  if (!bh.S().DecodeHex(&back) || back != a) Fail("hex_roundtrip", "got " + Hex(back));
  std::string low = h;
  for (auto& c : low) if (c >= 'A' && c <= 'F' && r.Chance(1, 2)) c += 32;
  Buf bl(low);
  back = "x";
  if (!bl.S().DecodeHex(&back) || back != a) Fail("hex_lowercase", "rejected or wrong for " + low);
  // Constructors from the other string kinds.
  std::string sa = a;
  if (Slice(sa).ToString() != a) Fail("construct", "std::string");
  if (Slice(std::string_view(sa)).ToString() != a) Fail("construct", "string_view");
  std::string cs = a.substr(0, a.find('\0'));
  if (Slice(cs.c_str()).ToString() != cs) Fail("construct", "c string");
  // Trimming.
  size_t p = r.Below(a.size() + 1), q = r.Below(a.size() - p + 1);
  Slice t = x;
  if (r.Chance(1, 2)) { t.remove_prefix(p); t.remove_suffix(q); } else { t.remove_suffix(q); t.remove_prefix(p); }
  if (t.ToString() != a.substr(p, a.size() - p - q)) Fail("trim", Fmt("p=%zu q=%zu", p, q));
  if (x.ToString() != a) Fail("trim", "copy trimmed the original");
  t.clear();
  if (!t.empty() || t.size() != 0 || t.ToString() != "") Fail("clear", "not empty");
  Count("singles");
  Case(a.empty() ? 0 : HashStr(a) ^ 77);
}
static void BadHex(const std::string& s) {
  SetCase("hex text=" + Hex(s));
  Buf b(s);
  std::string got = "keep", want;
  bool ok = b.S().DecodeHex(&got), w = RefUnhex(s, &want);
  if (ok != w) Fail("hex_validation", Fmt("accepted=%d expected=%d", ok, w));
  else if (ok && got != want) Fail("hex_decode", "got " + Hex(got) + " want " + Hex(want));
  if (b.S().DecodeHex(nullptr)) Fail("hex_null_result", "returned true without a result to write to");
  Count(w ? "hex_valid" : "hex_invalid");
  Case(s.empty() ? 0 : HashStr(s) ^ 99);
}
static std::string Near(const std::string& a, Rng& r) {
  std::string b = a;
  switch (r.Below(7)) {
    case 0: return b;
    case 1: b.resize(r.Below(a.size() + 1)); return b;
    case 2: return b + r.Bytes(1 + r.Below(3));
    case 3: if (!b.empty()) b[r.Below(b.size())] ^= (char)(1 << r.Below(8)); return b;
    case 4: return b.substr(r.Below(a.size() + 1));
    case 5: if (!b.empty()) b[b.size() - 1] = (char)r.Pick(std::vector<int>{0, 0x7f, 0x80, 0xff}); return b;
    default: return r.Bytes(r.Below(12));
  }
}
int main(int argc, char** argv) {
  Init(argc, argv);
  Rng r(Seed());
  // Every pair over strings of length 0..3 from boundary bytes.
  std::vector<std::string> base = {""};
  const char al[] = {'\0', '\x01', 'a', '\x7f', '\x80', '\xff'};
  for (size_t from = 0, len = 1; len <= 3; ++len) {
    size_t to = base.size();
    for (size_t i = from; i < to; ++i)
      for (char c : al) base.push_back(base[i] + c);
    from = to;
  }
  for (auto& a : base) {
    Single(a, r);
    for (auto& b : base) Pair(a, b);
  }
  // Every one- and two-byte hex text; longer ones with one bad digit at each place.
  for (int i = 0; i < 256; ++i) BadHex(std::string(1, (char)i));
  for (int i = 0; i < 65536; ++i) { std::string s; s += (char)i; s += (char)(i >> 8); BadHex(s); }
  for (int i = 0; i < 256; ++i) Single(std::string(1, (char)i), r);
  for (int it = 0; it < N(4000, 60000); ++it) {
    std::string h = RefHex(r.Bytes(1 + r.Below(20)));
    if (r.Chance(2, 3)) {
      static const std::string odd("/:@G`g\0 \xff" "xX-\x7f", 13);
      h[r.Below(h.size())] = odd[r.Below(odd.size())];
    }
    if (r.Chance(1, 6)) h.pop_back();
    BadHex(h);
  }
  for (int it = 0; it < N(20000, 400000); ++it) {
    size_t len = r.Chance(1, 10) ? r.Below(5000) : r.Below(70);
    std::string a = r.Bytes(len);
    Single(a, r);
    Pair(a, Near(a, r));
  }
  // Concatenation.
  for (int it = 0; it < N(5000, 80000); ++it) {
    int n = r.Below(8);
    std::vector<Buf> bs;
    std::vector<Slice> sl;
    std::string want, desc;
    for (int i = 0; i < n; ++i) {
      std::string s = r.Bytes(r.Chance(1, 4) ? 0 : r.Chance(1, 8) ? r.Below(3000) : r.Below(20));
      want += s;
      bs.emplace_back(s);
      desc += Fmt("%zu,", s.size());
    }
    for (auto& b : bs) sl.push_back(b.S());
    SetCase("parts " + desc);
    std::string buf;
    Slice s(SliceParts(sl.data(), n), &buf);
    if (s.ToString() != want) Fail("parts_concat", Fmt("got %zu bytes want %zu", s.size(), want.size()));
    if (buf != want) Fail("parts_concat", "buffer differs");
    Count("concats");
    Case(n ? HashStr(want) ^ 1234 : 0);
    if (it < 4) Sample("concat of parts " + desc + " -> " + Fmt("%zu bytes", want.size()));
  }
  // Const methods from several threads on shared slices.
  {
    SetCase("threads");
    std::vector<std::string> v;
    for (int i = 0; i < 64; ++i) v.push_back(r.Bytes(r.Below(40)));
    std::vector<Buf> bs;
    for (auto& s : v) bs.emplace_back(s);
    std::vector<std::thread> th;
    std::atomic<int> bad{0};
    for (int t = 0; t < 4; ++t)
      th.emplace_back([&, t] {
        Rng q(Seed() * 31 + t);
        for (int i = 0; i < N(5000, 50000); ++i) {
          int a = q.Below(64), b = q.Below(64);
          Slice x = bs[a].S(), y = bs[b].S();
          std::string out;
          if (Sgn(x.compare(y)) != RefCmp(v[a], v[b]) || x.ToString(true) != RefHex(v[a]) || !Slice(x.ToString(true)).DecodeHex(&out) == (out == v[a])) bad++;
        }
      });
    for (auto& t : th) t.join();
    if (bad) Fail("threads", "results differ between threads");
    Count("thread_ops", 4 * N(5000, 50000));
  }
  Sample(Fmt("all %zu^2 pairs over boundary bytes {00,01,61,7f,80,ff} up to length 3", base.size()));
  return Finish();
}
