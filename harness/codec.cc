// Versioned keys and values (mvcc codec), vector/document keys, document tokenizer parameters.
#include <algorithm>
#include <memory>

#include <glog/logging.h>

#include "common/constant.h"
#include "common/serial_helper.h"
#include "document/codec.h"
#include "mvcc/codec.h"
#include "tantivy_search.h"
#include "vector/codec.h"
#include "vh.h"

using namespace dingodb;
using mvcc::Codec;
using mvcc::ValueFlag;
using std::string;
using std::string_view;
using vh::Fail;
using vh::Hex;

namespace {

// A copy in a heap block of exactly its size, so that any read beyond it is reported.
struct Exact {
  std::unique_ptr<char[]> p;
  size_t n;
  explicit Exact(const string& s) : p(new char[s.size()]), n(s.size()) { memcpy(p.get(), s.data(), n); }
  string_view v() const { return {p.get(), n}; }
};

int Cmp(const string& a, const string& b) {
  int r = memcmp(a.data(), b.data(), std::min(a.size(), b.size()));
  if (r) return r < 0 ? -1 : 1;
  return a.size() < b.size() ? -1 : a.size() > b.size();
}
int Sgn(int x) { return x < 0 ? -1 : x > 0; }

// The documented format: groups of 8 bytes, each followed by 0xff minus the number of zero bytes padded.
string RefEncode(const string& k) {
  string o;
  for (size_t i = 0;; i += 8) {
    size_t n = std::min<size_t>(8, k.size() - i);
    o += k.substr(i, n);
    o += string(8 - n, '\0');
    o += (char)(255 - (8 - n));
    if (n < 8) break;
  }
  return o;
}
string Be(uint64_t v) {
  string o;
  for (int i = 7; i >= 0; --i) o += (char)(v >> (8 * i));
  return o;
}

string GenKey(vh::Rng& r) {
  static const unsigned char kB[] = {0, 0, 1, 7, 8, 9, 0x7f, 0x80, 0xf7, 0xf8, 0xfe, 0xff, 0xff};
  size_t n;
  switch (r.Below(10)) {
    case 0: n = r.Below(300); break;
    case 1: n = 8 * r.Below(6); break;
    case 2: n = 8 * (1 + r.Below(5)) - 1; break;
    case 3: n = 8 * r.Below(5) + 1; break;
    default: n = r.Below(26);
  }
  string s;
  int mode = r.Below(3);
  for (size_t i = 0; i < n; ++i) s += mode == 0 ? (char)r.Next() : (char)kB[r.Below(mode == 1 ? sizeof kB : 4)];
  return s;
}
string Mutate(vh::Rng& r, string s) {
  switch (r.Below(7)) {
    case 0: return s + string(1 + r.Below(9), '\0');
    case 1: return s + string(1 + r.Below(9), '\xff');
    case 2: if (!s.empty()) s.resize(r.Below(s.size())); return s;
    case 3: if (!s.empty()) s[r.Below(s.size())] ^= (char)(1 << r.Below(8)); return s;
    case 4: if (!s.empty()) s[s.size() - 1] = (char)r.Next(); return s;
    case 5: return s + GenKey(r);
    default: return s;
  }
}
int64_t GenTs(vh::Rng& r) {
  static const int64_t kT[] = {0, 1, 2, 127, 128, 255, 256, 65535, 65536, INT32_MAX, (int64_t)INT32_MAX + 1, (int64_t)1 << 55, INT64_MAX - 1, INT64_MAX};
  switch (r.Below(4)) {
    case 0: return kT[r.Below(sizeof kT / sizeof *kT)];
    case 1: return (int64_t)(r.Next() >> (1 + r.Below(63)));
    case 2: return ((int64_t)1 << r.Below(63)) - (int64_t)r.Below(2);
    default: return (int64_t)r.Below(1000);
  }
}

void CheckKey(const string& k, int64_t ts) {
  vh::SetCase("key=" + Hex(k.substr(0, 200)) + " ts=" + std::to_string(ts));
  Exact ek(k);
  string e1 = Codec::EncodeBytes(k), e2 = "stale", e3 = "stale stale stale stale";
  Codec::EncodeBytes(k, e2);
  Codec::EncodeBytes(ek.v(), e3);
  string ref = RefEncode(k);
  if (e1 != ref || e2 != ref || e3 != ref) Fail("encode-bytes", "EncodeBytes differs from the documented format: " + Hex(e1) + " / " + Hex(e2) + " / " + Hex(e3) + " want " + Hex(ref));
  for (int v = 0; v < 2; ++v) {
    string out = "stale";
    Exact x(e1);
    bool ok = v ? Codec::DecodeBytes(x.v(), out) : Codec::DecodeBytes(e1, out);
    if (!ok || out != k) Fail("decode-bytes", "DecodeBytes(EncodeBytes(key)) = " + (ok ? Hex(out) : string("refused")));
  }
  string full = Codec::EncodeKey(k, ts), full2 = Codec::EncodeKey(ek.v(), ts);
  if (full != ref + Be(~(uint64_t)ts) || full != full2) Fail("encode-key", "EncodeKey gives " + Hex(full) + " / " + Hex(full2));
  Exact x(full);
  string p1, p2, p3, p4;
  int64_t t1 = -7, t2 = -7;
  bool ok = Codec::DecodeKey(full, p1, t1) && Codec::DecodeKey(x.v(), p2, t2) && Codec::DecodeKey(full, p3) && Codec::DecodeKey(x.v(), p4);
  if (!ok || p1 != k || p2 != k || p3 != k || p4 != k || t1 != ts || t2 != ts) Fail("decode-key", vh::Fmt("DecodeKey ok=%d ts=%lld/%lld key=", ok, (long long)t1, (long long)t2) + Hex(p1) + "/" + Hex(p2) + "/" + Hex(p3) + "/" + Hex(p4));
  if (string(Codec::TruncateTsForKey(full)) != ref || string(Codec::TruncateTsForKey(x.v())) != ref) Fail("truncate-ts", "TruncateTsForKey is not the encoded user key");
  if (Codec::TruncateKeyForTs(full) != ts || Codec::TruncateKeyForTs(x.v()) != ts) Fail("truncate-key", "TruncateKeyForTs is not the timestamp");
  // Every version of the key lies in the key's encoded range; the range of the next key starts after them.
  pb::common::Range pr;
  pr.set_start_key(k);
  pr.set_end_key(k + string(1, '\0'));
  auto er = Codec::EncodeRange(pr), er2 = Codec::EncodeRange(pr.start_key(), pr.end_key());
  if (er.start_key() != er2.start_key() || er.end_key() != er2.end_key()) Fail("encode-range", "EncodeRange overloads disagree");
  if (!(Cmp(er.start_key(), full) < 0 && Cmp(full, er.end_key()) < 0)) Fail("range-version", "a version of the key is outside the encoded range [key, key+0): " + Hex(full));
  auto dr = Codec::DecodeRange(er);
  if (dr.start_key() != pr.start_key() || dr.end_key() != pr.end_key()) Fail("decode-range", "DecodeRange(EncodeRange(r)) != r");
}

void CheckOrder(const string& a, int64_t ta, const string& b, int64_t tb) {
  vh::SetCase("a=" + Hex(a.substr(0, 150)) + "@" + std::to_string(ta) + " b=" + Hex(b.substr(0, 150)) + "@" + std::to_string(tb));
  string ea = Codec::EncodeBytes(a), eb = Codec::EncodeBytes(b);
  int want = Cmp(a, b);
  if (Sgn(Cmp(ea, eb)) != want) Fail("order-bytes", "byte order of the encoded keys differs from the order of the keys");
  string fa = Codec::EncodeKey(a, ta), fb = Codec::EncodeKey(b, tb);
  int w2 = want ? want : (ta > tb ? -1 : ta < tb);
  if (Sgn(Cmp(fa, fb)) != w2) Fail("order-versions", "versions are not ordered by key, then newest first");
  // No encoded key is a byte prefix of another key's: prefix scans of one key see only its versions.
  if (want && (eb.compare(0, ea.size(), ea) == 0 || ea.compare(0, eb.size(), eb) == 0)) Fail("prefix-free", "one key's encoding is a prefix of another key's");
  // Range membership is preserved.
  if (want < 0) {
    auto r = Codec::EncodeRange(a, b);
    bool in = Cmp(r.start_key(), fb) <= 0 && Cmp(fb, r.end_key()) < 0;
    bool ina = Cmp(r.start_key(), fa) <= 0 && Cmp(fa, r.end_key()) < 0;
    if (in || !ina) Fail("range-order", "encoded range [a,b) must hold a's versions and none of b's");
  }
}

void CheckDecodeHostile(const string& s) {
  vh::SetCase("hostile=" + Hex(s.substr(0, 300)));
  Exact x(s);
  string out = "stale";
  bool ok = Codec::DecodeBytes(x.v(), out);
  string out2;
  bool ok2 = Codec::DecodeBytes(s, out2);
  if (ok != ok2 || (ok && out != out2)) Fail("decode-overloads", "DecodeBytes overloads disagree");
  bool valid = false;
  if (!s.empty() && s.size() % 9 == 0) {
    string k;
    bool good = true;
    for (size_t g = 0; g < s.size() && good; g += 9) {
      int pad = 255 - (unsigned char)s[g + 8];
      bool last = g + 9 == s.size();
      if (last ? (pad < 1 || pad > 8) : pad != 0) { good = false; break; }
      k += s.substr(g, 8 - pad);
      for (int i = 8 - pad; i < 8; ++i) good = good && s[g + i] == 0;
    }
    valid = good;
    if (valid && ok && out != k) Fail("decode-hostile", "DecodeBytes returns " + Hex(out) + " want " + Hex(k));
  }
  if (ok != valid) Fail(valid ? "decode-refuses-valid" : "decode-accepts-invalid", "DecodeBytes " + string(ok ? "accepts" : "refuses"));
  vh::Count(valid ? "hostile_valid" : "hostile_invalid");
  string f = s + Be(~5ull);
  Exact y(f);
  int64_t ts = 0;
  if (Codec::DecodeKey(y.v(), out, ts) != valid) Fail("decode-key-hostile", "DecodeKey verdict differs from the key part's validity");
  if (s.size() < 17 && Codec::DecodeKey(x.v(), out, ts)) Fail("decode-key-short", "DecodeKey accepts fewer bytes than a key and a timestamp");
}

void CheckValue(vh::Rng& r) {
  string v = GenKey(r);
  if (r.Chance(1, 4)) v.clear();
  int64_t ttl = r.Chance(1, 4) ? (int64_t)r.Next() : GenTs(r);
  vh::SetCase("value=" + Hex(v.substr(0, 200)) + " ttl=" + std::to_string(ttl));
  string stale = GenKey(r);
  for (int f = 0; f < 3; ++f) {
    ValueFlag flag = (ValueFlag)f;
    string want = flag == ValueFlag::kDelete ? "" : v;
    int64_t wttl = flag == ValueFlag::kPutTTL ? ttl : 0;
    string a = stale;
    Codec::PackageValue(flag, ttl, v, a);
    string b = v;
    Codec::PackageValue(flag, ttl, b);
    string exp = want + (f == 1 ? Be((uint64_t)ttl) : "") + string(1, (char)f);
    if (a != exp) Fail("package-into", vh::Fmt("PackageValue(flag %d, ttl, value, output) gives ", f) + Hex(a) + " want " + Hex(exp));
    if (b != exp) Fail("package-inplace", vh::Fmt("PackageValue(flag %d, ttl, value) gives ", f) + Hex(b) + " want " + Hex(exp));
    string c = stale;
    Codec::PackageValue(flag, v, c);
    string exp0 = want + (f == 1 ? Be(0) : "") + string(1, (char)f);
    if (c != exp0) Fail("package-nottl", vh::Fmt("PackageValue(flag %d, value, output) gives ", f) + Hex(c) + " want " + Hex(exp0));
    Exact x(exp);
    ValueFlag gf = (ValueFlag)9;
    int64_t gt = -1;
    string u1(Codec::UnPackageValue(exp)), u2(Codec::UnPackageValue(x.v())), u3(Codec::UnPackageValue(x.v(), gf, gt)), u4 = exp;
    Codec::UnPackageValueInPlace(u4);
    if (u1 != want || u2 != want || u3 != want || u4 != want) Fail("unpackage", "unpackaged value differs from the one packaged");
    if (gf != flag || gt != wttl) Fail("unpackage-flag", vh::Fmt("flag %d ttl %lld", (int)gf, (long long)gt));
    if (Codec::GetValueFlag(exp) != flag || Codec::GetValueFlag(x.v()) != flag) Fail("value-flag", "GetValueFlag");
    if (f == 1) {
      int64_t g1 = Codec::GetValueTTL(exp), g2 = Codec::GetValueTTL(x.v());
      if (g1 != ttl || g2 != ttl) Fail("value-ttl", vh::Fmt("GetValueTTL %lld / %lld want %lld", (long long)g1, (long long)g2, (long long)ttl));
    }
    vh::Case(vh::Mix(vh::HashStr(exp), f));
    vh::Count("values");
  }
  string p = v;
  Codec::PackageValue(ValueFlag::kPut, p);
  if (p != v + string(1, 0)) Fail("package-put", "PackageValue(kPut, value)");
}

void CheckKvLists(vh::Rng& r) {
  std::vector<pb::common::KeyValue> kvs;
  std::vector<string> keys;
  for (int n = r.Below(6); n > 0; --n) {
    pb::common::KeyValue kv;
    kv.set_key(GenKey(r));
    kv.set_value(GenKey(r));
    keys.push_back(kv.key());
    kvs.push_back(kv);
  }
  int64_t ts = GenTs(r), ttl = GenTs(r);
  vh::SetCase(vh::Fmt("kv list of %zu", kvs.size()));
  const auto& ckvs = kvs;
  auto ks = Codec::EncodeKeys(ts, keys);
  auto check = [&](const char* what, const std::vector<pb::common::KeyValue>& got, ValueFlag f) {
    bool ok = got.size() == kvs.size();
    for (size_t i = 0; ok && i < kvs.size(); ++i) {
      string want = f == ValueFlag::kDelete ? string() : kvs[i].value();
      want += (f == ValueFlag::kPutTTL ? Be((uint64_t)ttl) : "") + string(1, (char)f);
      ok = got[i].key() == RefEncode(kvs[i].key()) + Be(~(uint64_t)ts) && got[i].value() == want;
    }
    if (!ok) Fail("kv-list", string(what) + " does not hold the keys and values given, in order");
    vh::Count("kv_lists");
  };
  if (ks.size() != keys.size()) Fail("encode-keys", "EncodeKeys count");
  for (size_t i = 0; i < ks.size() && i < keys.size(); ++i)
    if (ks[i] != RefEncode(keys[i]) + Be(~(uint64_t)ts)) Fail("encode-keys", "EncodeKeys content");
  check("EncodeKeyValuesWithPut", Codec::EncodeKeyValuesWithPut(ts, ckvs), ValueFlag::kPut);
  check("EncodeKeyValuesWithTTL", Codec::EncodeKeyValuesWithTTL(ts, ttl, ckvs), ValueFlag::kPutTTL);
  check("EncodeKeyValuesWithDelete", Codec::EncodeKeyValuesWithDelete(ts, ckvs), ValueFlag::kDelete);
  auto c = kvs;
  Codec::EncodeKeyValuesWithPut(ts, c);
  check("in-place Put", c, ValueFlag::kPut);
  c = kvs;
  Codec::EncodeKeyValuesWithTTL(ts, ttl, c);
  check("in-place TTL", c, ValueFlag::kPutTTL);
  c = kvs;
  Codec::EncodeKeyValuesWithDelete(ts, c);
  check("in-place Delete", c, ValueFlag::kDelete);
  std::vector<pb::common::KeyValue> a, b, d;
  for (auto& kv : kvs) {
    a.push_back(Codec::EncodeKeyValueWithPut(ts, kv));
    b.push_back(Codec::EncodeKeyValueWithPutTTL(ts, ttl, kv));
    d.push_back(Codec::EncodeKeyValueWithDelete(ts, kv));
  }
  check("EncodeKeyValueWithPut", a, ValueFlag::kPut);
  check("EncodeKeyValueWithPutTTL", b, ValueFlag::kPutTTL);
  check("EncodeKeyValueWithDelete", d, ValueFlag::kDelete);
}

void Longs(vh::Rng& r, int n) {
  auto gen = [&] { int64_t v = GenTs(r); return r.Chance(1, 2) ? v : ~v; };
  for (int i = 0; i < n; ++i) {
    int64_t a = gen(), b = r.Chance(1, 3) ? a + (int64_t)((uint64_t)r.Below(3) - 1) * (a < INT64_MAX && a > INT64_MIN) : gen();
    vh::SetCase(vh::Fmt("long %lld %lld", (long long)a, (long long)b));
    string ca, cb, la = "x", na;
    SerialHelper::WriteLongComparable(a, ca);
    SerialHelper::WriteLongComparable(b, cb);
    SerialHelper::WriteLong(a, la);
    if (ca.size() != 8 || Sgn(Cmp(ca, cb)) != (a < b ? -1 : a > b)) Fail("comparable-order", "comparable integers do not order as the integers");
    Exact x(ca), y(la.substr(1));
    if (SerialHelper::ReadLongComparable(ca) != a || SerialHelper::ReadLongComparable(x.v()) != a) Fail("comparable-roundtrip", "ReadLongComparable");
    if (la != "x" + Be((uint64_t)a) || SerialHelper::ReadLong(y.v()) != a) Fail("long-roundtrip", "WriteLong/ReadLong");
    if (a >= 0) {
      SerialHelper::WriteLongWithNegation(a, na);
      Exact z(na);
      if (na != Be(~(uint64_t)a) || SerialHelper::ReadLongWithNegation(z.v()) != a) Fail("negation-roundtrip", "WriteLongWithNegation");
    }
    vh::Count("longs");
    vh::Case(vh::Mix((uint64_t)a, (uint64_t)b));
  }
}

void RunMvcc() {
  vh::Rng r(vh::Seed());
  // All short keys over boundary bytes, pairwise.
  std::vector<string> sm{""};
  const string al("\x00\x01\xf8\xff", 4);
  for (int len = 1; len <= 2; ++len)
    for (int i = 0; i < (1 << (2 * len)); ++i) {
      string s;
      for (int j = 0; j < len; ++j) s += al[(i >> (2 * j)) & 3];
      for (int pre : {0, 6, 7, 8, 15})
        for (char c : {'\x00', '\xff'}) sm.push_back(string(pre, c) + s);
    }
  std::sort(sm.begin(), sm.end());
  sm.erase(std::unique(sm.begin(), sm.end()), sm.end());
  for (auto& a : sm) {
    CheckKey(a, GenTs(r));
    for (auto& b : sm) { CheckOrder(a, GenTs(r), b, GenTs(r)); vh::Count("pairs"); }
  }
  uint64_t n = vh::N(60000, 1500000);
  for (uint64_t i = 0; i < n; ++i) {
    string a = GenKey(r), b = r.Chance(2, 3) ? Mutate(r, a) : GenKey(r);
    int64_t ta = GenTs(r), tb = r.Chance(1, 3) ? ta : GenTs(r);
    if (r.Chance(1, 5)) b = a;
    CheckKey(a, ta);
    CheckOrder(a, ta, b, tb);
    vh::Count("pairs");
    vh::Case(vh::Mix(vh::HashStr(a) ^ (uint64_t)ta, vh::HashStr(b) ^ (uint64_t)tb));
    string h = Codec::EncodeBytes(a);
    int m = r.Below(4);
    while (m--) switch (r.Below(5)) {
        case 0: h[r.Below(h.size())] = (char)r.Next(); break;
        case 1: h[(r.Below(h.size() / 9)) * 9 + 8] = (char)(255 - r.Below(11)); break;
        case 2: h += Codec::EncodeBytes(b); break;
        case 3: h.resize(h.size() - r.Below(std::min<size_t>(h.size(), 10))); if (h.size() < 9) h.resize(9); break;
        default: h[r.Below(h.size())] = 0;
      }
    CheckDecodeHostile(h);
    if (i < 3) vh::Sample("key " + Hex(a) + "@" + std::to_string(ta) + " -> " + Hex(Codec::EncodeKey(a, ta)) + " vs key " + Hex(b) + "@" + std::to_string(tb));
  }
  CheckDecodeHostile("");
  for (int len = 1; len < 40; ++len) for (int c = 0; c < 256; c += (len % 9 ? 51 : 1)) { CheckDecodeHostile(string(len, (char)c)); string z(len, 0); z.back() = (char)c; CheckDecodeHostile(z); }
  for (size_t big : {65535u, 65536u, 1000003u}) { string s = r.Bytes(big); CheckKey(s, 5); CheckOrder(s, 5, Mutate(r, s), 5); }
  n = vh::N(20000, 400000);
  for (uint64_t i = 0; i < n; ++i) CheckValue(r);
  for (uint64_t i = 0; i < n / 10; ++i) CheckKvLists(r);
  Longs(r, vh::N(50000, 1000000));
}

// ---------------------------------------------------------------- vector and document keys
struct Vec {
  static constexpr const char* name = "vector";
  static string Pkg(char p, int64_t a) { return VectorCodec::PackageVectorKey(p, a); }
  static string Pkg(char p, int64_t a, int64_t b) { return VectorCodec::PackageVectorKey(p, a, b); }
  static string Pkg(char p, int64_t a, int64_t b, const string& s) { return VectorCodec::PackageVectorKey(p, a, b, s); }
  static string Enc(char p, int64_t a) { return VectorCodec::EncodeVectorKey(p, a); }
  static string Enc(char p, int64_t a, int64_t b) { return VectorCodec::EncodeVectorKey(p, a, b); }
  static string EncTs(char p, int64_t a, int64_t b, int64_t ts) { return VectorCodec::EncodeVectorKey(p, a, b, ts); }
  static string Enc(char p, int64_t a, int64_t b, const string& s) { return VectorCodec::EncodeVectorKey(p, a, b, s); }
  static string EncTs(char p, int64_t a, int64_t b, const string& s, int64_t ts) { return VectorCodec::EncodeVectorKey(p, a, b, s, ts); }
  static int64_t UnId(const string& k) { return VectorCodec::UnPackageVectorId(k); }
  static int64_t IdE(const string& k) { return VectorCodec::DecodeVectorIdFromEncodeKey(k); }
  static int64_t IdT(const string& k) { return VectorCodec::DecodeVectorIdFromEncodeKeyWithTs(k); }
  static void Rng(bool e, const pb::common::Range& g, int64_t& b, int64_t& n) { VectorCodec::DecodeRangeToVectorId(e, g, b, n); }
  static bool Legal(int64_t i) { return VectorCodec::IsLegalVectorId(i); }
  using C = VectorCodec;
};
struct Doc {
  static constexpr const char* name = "document";
  static string Pkg(char p, int64_t a) { return DocumentCodec::PackageDocumentKey(p, a); }
  static string Pkg(char p, int64_t a, int64_t b) { return DocumentCodec::PackageDocumentKey(p, a, b); }
  static string Pkg(char p, int64_t a, int64_t b, const string& s) { return DocumentCodec::PackageDocumentKey(p, a, b, s); }
  static string Enc(char p, int64_t a) { return DocumentCodec::EncodeDocumentKey(p, a); }
  static string Enc(char p, int64_t a, int64_t b) { return DocumentCodec::EncodeDocumentKey(p, a, b); }
  static string EncTs(char p, int64_t a, int64_t b, int64_t ts) { return DocumentCodec::EncodeDocumentKey(p, a, b, ts); }
  static string Enc(char p, int64_t a, int64_t b, const string& s) { return DocumentCodec::EncodeDocumentKey(p, a, b, s); }
  static string EncTs(char p, int64_t a, int64_t b, const string& s, int64_t ts) { return DocumentCodec::EncodeDocumentKey(p, a, b, s, ts); }
  static int64_t UnId(const string& k) { return DocumentCodec::UnPackageDocumentId(k); }
  static int64_t IdE(const string& k) { return DocumentCodec::DecodeDocumentIdFromEncodeKey(k); }
  static int64_t IdT(const string& k) { return DocumentCodec::DecodeDocumentIdFromEncodeKeyWithTs(k); }
  static void Rng(bool e, const pb::common::Range& g, int64_t& b, int64_t& n) { DocumentCodec::DecodeRangeToDocumentId(e, g, b, n); }
  static bool Legal(int64_t i) { return DocumentCodec::IsLegalDocumentId(i); }
  using C = DocumentCodec;
};

struct Row { char p; int64_t part, id; string s; int64_t ts; };

template <class T>
Row GenRow(vh::Rng& r) {
  static const char kP[] = {'r', 'w', 'a', '\x01', '\x7f', '\x80', '\xff'};
  Row x;
  x.p = kP[r.Below(sizeof kP)];
  do x.part = GenTs(r); while (x.part == 0);
  x.id = GenTs(r);
  do x.s = GenKey(r); while (x.s.empty());
  x.ts = GenTs(r);
  return x;
}

template <class T>
void CheckRow(const Row& x) {
  vh::SetCase(vh::Fmt("%s key prefix=%d partition=%lld id=%lld ts=%lld scalar=", T::name, x.p, (long long)x.part, (long long)x.id, (long long)x.ts) + Hex(x.s.substr(0, 100)));
  using C = typename T::C;
  string n(T::name);
  string p1 = T::Pkg(x.p, x.part), p2 = T::Pkg(x.p, x.part, x.id), p3 = T::Pkg(x.p, x.part, x.id, x.s);
  string ref1 = string(1, x.p) + Be((uint64_t)x.part), ref2 = ref1 + Be((uint64_t)x.id ^ (1ull << 63)), ref3 = ref2 + x.s;
  if (p1 != ref1 || p2 != ref2 || p3 != ref3) Fail(n + "-package", "packaged key differs from prefix, partition id, id, scalar key: " + Hex(p1) + " " + Hex(p2) + " " + Hex(p3));
  for (auto& k : {ref1, ref2, ref3})
    if (C::UnPackagePartitionId(k) != x.part) Fail(n + "-unpackage-partition", Hex(k));
  if (T::UnId(ref1) != 0 || T::UnId(ref2) != x.id || T::UnId(ref3) != x.id) Fail(n + "-unpackage-id", "id read back differs");
  if (C::UnPackageScalarKey(ref3) != x.s) Fail(n + "-unpackage-scalar", "scalar key read back differs");
  string e1 = T::Enc(x.p, x.part), e2 = T::Enc(x.p, x.part, x.id), e3 = T::Enc(x.p, x.part, x.id, x.s);
  if (e1 != RefEncode(ref1) || e2 != RefEncode(ref2) || e3 != RefEncode(ref3)) Fail(n + "-encode", "encoded key is not the encoding of the packaged key");
  string t2 = T::EncTs(x.p, x.part, x.id, x.ts), t3 = T::EncTs(x.p, x.part, x.id, x.s, x.ts);
  string tsb = Be(~(uint64_t)x.ts), t1 = RefEncode(ref1) + tsb;
  if (t2 != RefEncode(ref2) + tsb || t3 != RefEncode(ref3) + tsb) Fail(n + "-encode-ts", "versioned key is not the encoded key and the timestamp");
  for (auto& k : {e1, e2, e3}) {
    int64_t a = -1, b = -1;
    C::DecodeFromEncodeKey(k, a, b);
    int64_t wid = k == e1 ? 0 : x.id;
    if (C::DecodePartitionIdFromEncodeKey(k) != x.part || a != x.part) Fail(n + "-decode-partition", Hex(k));
    if (T::IdE(k) != wid || b != wid) Fail(n + "-decode-id", Hex(k));
    int64_t pa = -1, pb = -1;
    string kt = k + tsb;
    C::DecodeFromEncodeKeyWithTs(kt, pa, pb);
    if (C::DecodePartitionIdFromEncodeKeyWithTs(kt) != x.part || pa != x.part) Fail(n + "-decode-partition-ts", Hex(kt));
    if (T::IdT(kt) != wid || pb != wid) Fail(n + "-decode-id-ts", Hex(kt));
    Exact ex(kt);
    if (string(C::TruncateTsForKey(kt)) != k || string(C::TruncateTsForKey(ex.v())) != k) Fail(n + "-truncate-ts", Hex(kt));
    if (C::TruncateKeyForTs(kt) != x.ts || C::TruncateKeyForTs(ex.v()) != x.ts) Fail(n + "-truncate-key", Hex(kt));
  }
  int64_t a = -1, b = -1;
  string s = "stale", s2 = "stale";
  C::DecodeFromEncodeKey(e3, a, b, s);
  if (a != x.part || b != x.id || s != x.s || C::DecodeScalarKeyFromEncodeKey(e3) != x.s) Fail(n + "-decode-scalar", Hex(e3));
  C::DecodeFromEncodeKeyWithTs(t3, a, b, s2);
  if (a != x.part || b != x.id || s2 != x.s || C::DecodeScalarKeyFromEncodeKeyWithTs(t3) != x.s) Fail(n + "-decode-scalar-ts", Hex(t3));
  for (size_t len = 0; len < 24; ++len)
    if (C::IsValidKey(string(len, 'r')) != (len == 9 || len >= 17)) Fail(n + "-valid-key", vh::Fmt("IsValidKey(%zu bytes)", len));
  if (T::Legal(x.id) != (x.id > 0 && x.id != INT64_MAX)) Fail(n + "-legal-id", "IsLegalId");
  if (T::Legal(-x.id - 1) || T::Legal(0) || T::Legal(INT64_MAX) || !T::Legal(1) || !T::Legal(INT64_MAX - 1)) Fail(n + "-legal-id", "IsLegalId at its limits");
}

template <class T>
void CheckRowOrder(const Row& x, const Row& y) {
  string n(T::name);
  auto key = [](const Row& r) { return std::make_tuple((unsigned char)r.p, r.part, r.id, r.s); };
  vh::SetCase(vh::Fmt("%s order %d/%lld/%lld vs %d/%lld/%lld", T::name, x.p, (long long)x.part, (long long)x.id, y.p, (long long)y.part, (long long)y.id));
  auto k2 = [](const Row& r) { return std::make_tuple((unsigned char)r.p, r.part, r.id); };
  int w2 = k2(x) < k2(y) ? -1 : k2(y) < k2(x), w3;
  { auto a = key(x), b = key(y); w3 = std::get<3>(a) == std::get<3>(b) || w2 ? w2 : Cmp(x.s, y.s); }
  if (Sgn(Cmp(T::Enc(x.p, x.part, x.id), T::Enc(y.p, y.part, y.id))) != w2) Fail(n + "-order", "encoded keys do not order by prefix, partition, id");
  if (Sgn(Cmp(T::Enc(x.p, x.part, x.id, x.s), T::Enc(y.p, y.part, y.id, y.s))) != w3) Fail(n + "-order-scalar", "encoded keys do not order by prefix, partition, id, scalar key");
  int wt = w2 ? w2 : (x.ts > y.ts ? -1 : x.ts < y.ts);
  if (Sgn(Cmp(T::EncTs(x.p, x.part, x.id, x.ts), T::EncTs(y.p, y.part, y.id, y.ts))) != wt) Fail(n + "-order-ts", "versions do not order newest first within an id");
  // A partition's range holds exactly its rows.
  if (x.part < INT64_MAX) {
    string lo = T::Enc(x.p, x.part), hi = T::Enc(x.p, x.part + 1), k = T::EncTs(y.p, y.part, y.id, y.s, y.ts);
    bool in = Cmp(lo, k) <= 0 && Cmp(k, hi) < 0;
    if (in != (x.p == y.p && x.part == y.part)) Fail(n + "-partition-range", "a row is in its own partition's range only");
    pb::common::Range g;
    int64_t b0 = -1, e0 = -1;
    for (int enc = 0; enc < 2; ++enc) {
      auto K = [&](int64_t part, int64_t id, bool whole) { return enc ? (whole ? T::Enc(x.p, part) : T::Enc(x.p, part, id)) : (whole ? T::Pkg(x.p, part) : T::Pkg(x.p, part, id)); };
      g.set_start_key(K(x.part, 0, true)); g.set_end_key(K(x.part + 1, 0, true));
      T::Rng(enc, g, b0, e0);
      if (b0 != 0 || e0 != INT64_MAX) Fail(n + "-range-whole", vh::Fmt("whole partition decodes to [%lld, %lld)", (long long)b0, (long long)e0));
      int64_t lo_id = std::min(x.id, y.id), hi_id = std::max(x.id, y.id);
      g.set_start_key(K(x.part, lo_id, false)); g.set_end_key(K(x.part, hi_id, false));
      T::Rng(enc, g, b0, e0);
      if (b0 != lo_id || e0 != hi_id) Fail(n + "-range-ids", vh::Fmt("range decodes to [%lld, %lld) want [%lld, %lld)", (long long)b0, (long long)e0, (long long)lo_id, (long long)hi_id));
      g.set_end_key(K(x.part + 1, 0, true));
      T::Rng(enc, g, b0, e0);
      if (b0 != lo_id || e0 != INT64_MAX) Fail(n + "-range-tail", vh::Fmt("last region of a partition decodes to [%lld, %lld)", (long long)b0, (long long)e0));
      vh::Count("ranges");
    }
  }
}

template <class T>
void RunKeys() {
  vh::Rng r(vh::Seed() * 3 + sizeof(T::name) + T::name[0]);
  uint64_t n = vh::N(30000, 800000);
  for (uint64_t i = 0; i < n; ++i) {
    Row x = GenRow<T>(r), y = x;
    switch (r.Below(6)) {
      case 0: y = GenRow<T>(r); break;
      case 1: y.id = GenTs(r); break;
      case 2: y.part = std::max<int64_t>(1, GenTs(r)); break;
      case 3: do y.s = Mutate(r, x.s); while (y.s.empty()); break;
      case 4: y.ts = GenTs(r); break;
      default: y.id = x.id < INT64_MAX ? x.id + 1 : 0; y.ts = GenTs(r);
    }
    CheckRow<T>(x);
    CheckRowOrder<T>(x, y);
    CheckRowOrder<T>(y, x);
    vh::Count(string(T::name) + "_rows");
    vh::Case(vh::Mix(vh::HashStr(T::EncTs(x.p, x.part, x.id, x.s, x.ts)), vh::HashStr(T::EncTs(y.p, y.part, y.id, y.s, y.ts))));
    if (i < 3) vh::Sample(string(T::name) + " " + vh::Fmt("%lld/%lld -> ", (long long)x.part, (long long)x.id) + Hex(T::EncTs(x.p, x.part, x.id, x.ts)));
  }
}

// ---------------------------------------------------------------- document tokenizer parameters
void RunTokenizer() {
  vh::Rng r(vh::Seed() * 7 + 3);
  using TT = TokenizerType;
  static const std::vector<std::pair<string, TT>> kTypes = {
      {"default", TT::kTokenizerTypeText}, {"raw", TT::kTokenizerTypeText}, {"simple", TT::kTokenizerTypeText}, {"stem", TT::kTokenizerTypeText},
      {"whitespace", TT::kTokenizerTypeText}, {"ngram", TT::kTokenizerTypeText}, {"chinese", TT::kTokenizerTypeText}, {"i64", TT::kTokenizerTypeI64},
      {"f64", TT::kTokenizerTypeF64}, {"bytes", TT::kTokenizerTypeBytes}, {"datetime", TT::kTokenizerTypeDateTime}, {"bool", TT::kTokenizerTypeBool}};
  static const std::vector<TT> kAll = {TT::kTokenizerTypeText, TT::kTokenizerTypeI64, TT::kTokenizerTypeF64, TT::kTokenizerTypeBytes, TT::kTokenizerTypeDateTime, TT::kTokenizerTypeBool};
  auto col = [&] { static const std::vector<string> c = {"a", "col", "text", "Col", "with space", "q\\\"uote", "t\xc3\xa9xt", "_", "tokenizer", "type"}; return r.Pick(c) + (r.Chance(1, 2) ? std::to_string(r.Below(50)) : ""); };
  uint64_t n = vh::N(15000, 300000);
  for (uint64_t i = 0; i < n; ++i) {
    // What the defaults generate for a column set is accepted and describes the same columns.
    std::map<string, TT> cols, back;
    for (int k = r.Below(6); k >= 0; --k) cols[col()] = r.Pick(kAll);
    string js, err;
    vs_tantivy::accept = true;
    vh::SetCase("default tokenizers");
    bool g = DocumentCodec::GenDefaultTokenizerJsonParameter(cols, js, err);
    if (!g) { Fail("tokenizer-default", "no default for a valid column set: " + err); continue; }
    bool ok = DocumentCodec::IsValidTokenizerJsonParameter(js, back, err);
    if (!ok || back != cols) Fail("tokenizer-roundtrip", "default parameter " + js + (ok ? " describes other columns" : " is refused: " + err));
    vh::Count("defaults");
    vh::Case(vh::HashStr(js));
    // A generated parameter is accepted exactly when every column names a known tokenizer with sane ngram sizes.
    bool bad = false;
    string doc = "{";
    std::map<string, TT> want;
    std::set<string> used;
    int m = 1 + r.Below(4);
    for (int k = 0; k < m; ++k) {
      string c = col();
      if (!used.insert(c).second) continue;
      if (doc.size() > 1) doc += ",";
      doc += "\"" + c + "\":";
      string plain = c;
      for (size_t p; (p = plain.find("\\\"")) != string::npos;) plain.replace(p, 2, "\"");
      int what = r.Below(14);
      auto [tn, tt] = r.Pick(kTypes);
      want[plain] = tt;
      if (what == 0) { doc += "{}"; bad = true; }
      else if (what == 1) { doc += "{\"tokenizer\":{}}"; bad = true; }
      else if (what == 2) { doc += "{\"tokenizer\":{\"type\":\"" + r.Pick(std::vector<string>{"I64", "text", "", "int64", "raw ", "f32", "boolean", "date"}) + "\"}}"; bad = true; }
      else if (what == 3) { doc += "{\"tokenizer\":{\"type\":" + r.Pick(std::vector<string>{"1", "null", "[]", "true"}) + "}}"; bad = true; }
      else if (what == 4) { doc += r.Pick(std::vector<string>{"1", "null", "\"raw\"", "[]"}); bad = true; }
      else if (tn == "ngram") {
        static const int kG[] = {0, 1, 2, 3, 4, 5, 9, 10, 11, 20, 99, 100, 128, 255, 256, 1000};
        int lo = kG[r.Below(r.Chance(1, 2) ? 5 : 16)], hi = r.Chance(1, 8) ? lo : kG[r.Below(16)], miss = r.Below(8);
        doc += "{\"tokenizer\":{\"type\":\"ngram\"";
        if (miss != 0) doc += ",\"min_gram\":" + std::to_string(lo);
        if (miss != 1) doc += ",\"max_gram\":" + std::to_string(hi);
        doc += ",\"prefix_only\":false}}";
        if (miss < 2 || lo == 0 || lo >= hi) bad = true;
      } else doc += "{\"tokenizer\":{\"type\":\"" + tn + "\"}}";
    }
    doc += "}";
    if (r.Chance(1, 12)) { doc.pop_back(); bad = true; }
    bool engine = !r.Chance(1, 6);
    vs_tantivy::accept = engine;
    vs_tantivy::asked().clear();
    std::map<string, TT> got;
    string e2;
    vh::SetCase("tokenizer " + doc);
    bool v = DocumentCodec::IsValidTokenizerJsonParameter(doc, got, e2);
    if (v != (!bad && engine)) Fail(v ? "tokenizer-accepts" : "tokenizer-refuses", doc + " " + e2);
    if (v && got != want) Fail("tokenizer-columns", doc + " describes other columns or types");
    if (!v && e2.empty()) Fail("tokenizer-reason", doc + " refused without a reason");
    if (v && (vs_tantivy::asked().size() != 1 || vs_tantivy::asked()[0] != doc)) Fail("tokenizer-engine", "accepted without the engine's own check of the same text");
    vh::Count(v ? "accepted" : "refused");
    vh::Case(vh::HashStr(doc) ^ engine);
    if (i < 4) vh::Sample(doc + (v ? " accepted" : " refused: " + e2));
  }
  std::map<string, TT> none;
  string js, err;
  if (DocumentCodec::GenDefaultTokenizerJsonParameter(none, js, err)) Fail("tokenizer-empty", "a default for no columns");
}

}  // namespace

int main(int argc, char** argv) {
  vh::Init(argc, argv);
  FLAGS_minloglevel = 3;
  FLAGS_logtostderr = true;
  string mode = vh::Arg("mode");
  if (mode == "mvcc") RunMvcc();
  if (mode == "keys") { RunKeys<Vec>(); RunKeys<Doc>(); }
  if (mode == "tokenizer") RunTokenizer();
  return vh::Finish();
}
