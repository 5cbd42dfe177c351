// C19: every value of every 32 bit scalar type, tag and structured families of 64 bit values, through the field classes
// and through the functions of WireFormatter, against an independent encoder written here.
#include <Fields.h>
#include <WireFormatter.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <thread>
#include <atomic>
#include <functional>
#include <algorithm>
using namespace EmbeddedProto;
typedef WireFormatter WF;

struct W final : WriteBufferInterface {
  uint8_t b[40]; uint32_t n = 0; bool over = false;
  void clear() override { n = 0; }
  uint32_t get_size() const override { return n; }
  uint32_t get_max_size() const override { return 32; }
  uint32_t get_available_size() const override { return 32 - n; }
  bool push(const uint8_t x) override { if (n >= 32) return false; b[n++] = x; return true; }
  bool push(const uint8_t* p, const uint32_t k) override { if (k > 32 - n) return false; memcpy(b + n, p, k); n += k; return true; }
};
struct R final : ReadBufferInterface {
  const uint8_t* b; uint32_t n, pos = 0;
  R(const uint8_t* b_, uint32_t n_) : b(b_), n(n_) {}
  uint32_t get_size() const override { return n - pos; }
  uint32_t get_max_size() const override { return n; }
  bool peek(uint8_t& x) const override { if (pos >= n) return false; x = b[pos]; return true; }
  bool advance() override { if (pos >= n) return false; ++pos; return true; }
  bool advance(const uint32_t k) override { if (k > n - pos) return false; pos += k; return true; }
  bool pop(uint8_t& x) override { if (pos >= n) return false; x = b[pos++]; return true; }
};

static std::atomic<bool> failed(false);
static void fail(const char* kind, const char* what, uint64_t v, const uint8_t* b, uint32_t n) {
  if (failed.exchange(true)) return;
  std::string h; char t[4];
  for (uint32_t i = 0; i < n; ++i) { snprintf(t, 4, "%02x", b[i]); h += t; }
  printf("FAIL case=0 %s: %s: value bits 0x%llx bytes %s\n", kind, what, (unsigned long long)v, h.c_str());
  fflush(stdout);
  _Exit(1);
}

// ---- independent encoding, bit by bit
static inline uint32_t ref_varint(uint8_t* o, uint64_t v) {
  uint32_t groups = 1;
  for (uint64_t t = v / 128; t; t /= 128) ++groups;
  for (uint32_t i = 0; i < groups; ++i) { o[i] = (uint8_t)(v % 128 + (i + 1 < groups ? 128 : 0)); v /= 128; }
  return groups;
}
static inline uint32_t ref_fixed(uint8_t* o, uint64_t v, int bytes) { for (int i = 0; i < bytes; ++i) { o[i] = (uint8_t)(v % 256); v /= 256; } return (uint32_t)bytes; }

enum E : int32_t { E_ZERO = 0 };
enum Kind { KI32, KU32, KS32, KI64, KU64, KS64, KBOOL, KENUM, KF32, KSF32, KF64, KSF64, KFLT, KDBL, NK };
static const char* KN[] = {"int32", "uint32", "sint32", "int64", "uint64", "sint64", "bool", "enum", "fixed32", "sfixed32", "fixed64", "sfixed64", "float", "double"};
template<Kind K> struct T;
#define TT(K, C, F, WTY) template<> struct T<K> { typedef C c; typedef F f; static const int wt = WTY; };
TT(KI32, int32_t, ::EmbeddedProto::int32, 0) TT(KU32, uint32_t, ::EmbeddedProto::uint32, 0) TT(KS32, int32_t, ::EmbeddedProto::sint32, 0)
TT(KI64, int64_t, ::EmbeddedProto::int64, 0) TT(KU64, uint64_t, ::EmbeddedProto::uint64, 0) TT(KS64, int64_t, ::EmbeddedProto::sint64, 0)
TT(KBOOL, bool, ::EmbeddedProto::boolean, 0) TT(KENUM, E, ::EmbeddedProto::enumeration<E>, 0)
TT(KF32, uint32_t, ::EmbeddedProto::fixed32, 5) TT(KSF32, int32_t, ::EmbeddedProto::sfixed32, 5) TT(KF64, uint64_t, ::EmbeddedProto::fixed64, 1) TT(KSF64, int64_t, ::EmbeddedProto::sfixed64, 1)
TT(KFLT, float, ::EmbeddedProto::floatfixed, 5) TT(KDBL, double, ::EmbeddedProto::doublefixed, 1)

template<class C> static inline C from_bits(uint64_t u) { C c; memcpy(&c, &u, sizeof c); return c; }
template<> inline bool from_bits<bool>(uint64_t u) { return u != 0; }
template<class C> static inline uint64_t to_bits(const C& c) { uint64_t u = 0; memcpy(&u, &c, sizeof c); return u; }
template<> inline uint64_t to_bits<bool>(const bool& c) { uint8_t b; memcpy(&b, &c, 1); return b; }

template<Kind K> static inline uint32_t ref(uint8_t* o, uint64_t u) {
  switch (K) {
    case KI32: case KENUM: return ref_varint(o, (uint64_t)(int64_t)(int32_t)(uint32_t)u);
    case KU32: return ref_varint(o, (uint32_t)u);
    case KS32: { int32_t s = (int32_t)(uint32_t)u; return ref_varint(o, s >= 0 ? (uint64_t)s * 2 : (uint64_t)(-(int64_t)s) * 2 - 1); }
    case KI64: case KU64: return ref_varint(o, u);
    case KS64: { int64_t s = (int64_t)u; return ref_varint(o, s >= 0 ? (uint64_t)s * 2 : (uint64_t)(-(s + 1)) * 2 + 1); }
    case KBOOL: o[0] = u ? 1 : 0; return 1;
    case KF32: case KSF32: case KFLT: return ref_fixed(o, u, 4);
    default: return ref_fixed(o, u, 8);
  }
}
// The short form of negative int32 and enum values.
template<Kind K> static inline uint32_t ref_short(uint8_t* o, uint64_t u) { return ref_varint(o, (uint32_t)u); }
template<Kind K> static inline bool negative32(uint64_t u) { return (K == KI32 || K == KENUM) && (u & 0x80000000u); }

template<Kind K> static inline Error wf_ser(uint32_t num, typename T<K>::c c, W& w);
#define WS(K, X) template<> inline Error wf_ser<K>(uint32_t num, T<K>::c c, W& w) { return WF::X; }
WS(KI32, SerializeInt(num, c, w)) WS(KI64, SerializeInt(num, c, w)) WS(KU32, SerializeUInt(num, c, w)) WS(KU64, SerializeUInt(num, c, w))
WS(KS32, SerializeSInt(num, c, w)) WS(KS64, SerializeSInt(num, c, w)) WS(KBOOL, SerializeBool(num, c, w)) WS(KENUM, SerializeEnum(num, static_cast<uint32_t>(c), w))
WS(KF32, SerializeFixed(num, c, w)) WS(KF64, SerializeFixed(num, c, w)) WS(KSF32, SerializeSFixed(num, c, w)) WS(KSF64, SerializeSFixed(num, c, w))
WS(KFLT, SerializeFloat(num, c, w)) WS(KDBL, SerializeDouble(num, c, w))
template<Kind K> static inline Error wf_des(R& r, typename T<K>::c& c);
#define WD(K, X) template<> inline Error wf_des<K>(R& r, T<K>::c& c) { return WF::X(r, c); }
WD(KI32, DeserializeInt) WD(KI64, DeserializeInt) WD(KU32, DeserializeUInt) WD(KU64, DeserializeUInt) WD(KS32, DeserializeSInt) WD(KS64, DeserializeSInt)
WD(KBOOL, DeserializeBool) WD(KENUM, DeserializeEnum) WD(KF32, DeserializeFixed) WD(KF64, DeserializeFixed) WD(KSF32, DeserializeSFixed) WD(KSF64, DeserializeSFixed)
WD(KFLT, DeserializeFloat) WD(KDBL, DeserializeDouble)

// One value. mode 0: field class, 1: WireFormatter functions. deep: all optional checks.
template<Kind K, bool DEEP> static inline void one(uint64_t u, uint32_t num) {
  typedef typename T<K>::c C; typedef typename T<K>::f F;
  const C c = from_bits<C>(u);
  uint8_t rb[16], sb[16];
  const uint32_t rn = ref<K>(rb, u);
  uint32_t sn = 0;
  if (negative32<K>(u)) sn = ref_short<K>(sb, u);
  // -- encoder of the field class
  F f; f.set(c);
  W w;
  Error e = f.serialize(w);
  bool same = w.n == rn && memcmp(w.b, rb, rn) == 0;
  if (!same && sn) same = w.n == sn && memcmp(w.b, sb, sn) == 0;
  if (__builtin_expect(e != Error::NO_ERRORS || !same, 0)) fail(KN[K], "the field class does not write the standard encoding", u, w.b, w.n);
  // -- decoder of the field class, with bytes behind the value
  uint32_t n = w.n;
  w.b[n] = 0xFF; w.b[n + 1] = 0x01;
  {
    F g; g.set(from_bits<C>(~u));
    R r(w.b, n + 2);
    e = g.deserialize(r);
    if (__builtin_expect(e != Error::NO_ERRORS || to_bits<C>(g.get()) != to_bits<C>(c) || r.pos != n, 0)) fail(KN[K], "the field class does not read back the value and exactly its bytes", u, w.b, w.n);
  }
  if (sn) {   // both forms must be readable
    const uint8_t* o = n == sn ? rb : sb; const uint32_t on = n == sn ? rn : sn;
    F g; g.set(from_bits<C>(~u)); R r(o, on);
    e = g.deserialize(r);
    if (__builtin_expect(e != Error::NO_ERRORS || to_bits<C>(g.get()) != to_bits<C>(c) || r.pos != on, 0)) fail(KN[K], "the field class does not read the other form of a negative value", u, o, on);
  }
  if (!DEEP) return;
  // -- functions with a tag
  W t; e = wf_ser<K>(num, c, t);
  uint8_t tag[8]; uint32_t tn = ref_varint(tag, (uint64_t)num * 8 + T<K>::wt);
  same = t.n == tn + n && memcmp(t.b, tag, tn) == 0 && memcmp(t.b + tn, w.b, n) == 0;
  if (!same && sn) same = t.n > tn && memcmp(t.b, tag, tn) == 0 && ((t.n == tn + rn && !memcmp(t.b + tn, rb, rn)) || (t.n == tn + sn && !memcmp(t.b + tn, sb, sn)));
  if (e != Error::NO_ERRORS || !same) fail(KN[K], "WireFormatter does not write tag and standard encoding", u, t.b, t.n);
  W t2; e = f.serialize_with_id(num, t2, false);
  if (e != Error::NO_ERRORS || t2.n != tn + n || memcmp(t2.b, tag, tn) || memcmp(t2.b + tn, w.b, n)) fail(KN[K], "the field class does not write tag and value", u, t2.b, t2.n);
  if (f.serialized_size() != n) fail(KN[K], "serialized_size() differs from the bytes written", u, w.b, n);
  {
    uint32_t len = t.n; t.b[len] = 0x80; t.b[len + 1] = 0x80;
    R r(t.b, len + 2); WF::WireType wt = WF::WireType::START_GROUP; uint32_t id = 0;
    e = WF::DeserializeTag(r, wt, id);
    if (e != Error::NO_ERRORS || id != num || (int)wt != T<K>::wt || r.pos != tn) fail(KN[K], "the tag is not read back", num, t.b, t.n);
    C d = from_bits<C>(~u);
    e = wf_des<K>(r, d);
    if (e != Error::NO_ERRORS || to_bits<C>(d) != to_bits<C>(c) || r.pos != len) fail(KN[K], "WireFormatter does not read back the value and exactly its bytes", u, t.b, len);
    F g; R r2(t.b + tn, len - tn);
    e = g.deserialize_check_type(r2, (WF::WireType)T<K>::wt);
    if (e != Error::NO_ERRORS || to_bits<C>(g.get()) != to_bits<C>(c)) fail(KN[K], "deserialize_check_type() does not read back the value", u, t.b, len);
    for (int x = 0; x < 6; ++x) if (x != T<K>::wt) { F q; R r3(t.b + tn, len - tn); if (q.deserialize_check_type(r3, (WF::WireType)x) != Error::INVALID_WIRETYPE) fail(KN[K], "a wrong wire type is accepted", u, t.b, len); }
    for (uint32_t cut = 0; cut < len - tn; ++cut) { F q; R r4(t.b + tn, cut); if (q.deserialize(r4) == Error::NO_ERRORS) fail(KN[K], "a cut off value is accepted", u, t.b + tn, cut); C z; R r5(t.b + tn, cut); if (wf_des<K>(r5, z) == Error::NO_ERRORS) fail(KN[K], "a cut off value is accepted", u, t.b + tn, cut); }
    // varints padded to every length up to ten bytes
    if (T<K>::wt == 0) for (uint32_t pad = n + 1; pad <= 10; ++pad) {
      uint8_t pb[12]; memcpy(pb, w.b, n); pb[n - 1] |= 0x80; for (uint32_t i = n; i < pad; ++i) pb[i] = 0x80; pb[pad - 1] = 0; pb[pad] = 0x7f;
      F q; q.set(from_bits<C>(~u)); R r6(pb, pad + 1);
      e = q.deserialize(r6);
      if (e != Error::NO_ERRORS || to_bits<C>(q.get()) != to_bits<C>(c) || r6.pos != pad) fail(KN[K], "a padded varint is not read", u, pb, pad);
    }
  }
  if (K == KS32) { if (WF::ZigZagDecode((uint32_t)WF::ZigZagEncode((int32_t)(uint32_t)u)) != (int32_t)(uint32_t)u) fail(KN[K], "zigzag", u, w.b, n); }
  if (K == KS64) { if (WF::ZigZagDecode((uint64_t)WF::ZigZagEncode((int64_t)u)) != (int64_t)u) fail(KN[K], "zigzag", u, w.b, n); }
}

static uint64_t NT = 8, evals[64];
static std::atomic<uint64_t> total(0), deep_total(0);
static void par(uint64_t n, const std::function<void(uint64_t, uint64_t)>& f) {   // f(from, to)
  std::vector<std::thread> th;
  std::atomic<uint64_t> next(0);
  const uint64_t chunk = n / 256 + 1;
  for (unsigned t = 0; t < NT; ++t) th.emplace_back([&] { for (;;) { uint64_t a = next.fetch_add(chunk); if (a >= n) return; f(a, a + chunk < n ? a + chunk : n); } });
  for (auto& t : th) t.join();
}
template<Kind K> static void sweep32(uint64_t n) {
  par(n, [](uint64_t a, uint64_t b) { for (uint64_t u = a; u < b; ++u) one<K, false>(u, 1); });
  total += n;
  printf("SWEEP %s %llu\n", KN[K], (unsigned long long)n); fflush(stdout);
}
static const uint32_t NUMS[] = {1, 15, 16, 2047, 2048, 262143, 262144, 33554431, 33554432, 536870911};
template<Kind K> static void family(const std::vector<uint64_t>& vs, bool wide) {
  par(vs.size(), [&](uint64_t a, uint64_t b) { for (uint64_t i = a; i < b; ++i) { uint64_t u = vs[i]; if (!wide) u &= 0xFFFFFFFFu; if (K == KBOOL) u &= 1; one<K, true>(u, NUMS[i % 10]); } });
  total += vs.size(); deep_total += vs.size();
  printf("FAMILY %s %zu\n", KN[K], vs.size()); fflush(stdout);
}

int main(int argc, char** argv) {
  bool thorough = argc > 1 && !strcmp(argv[1], "thorough");
  bool nosweep = argc > 2;
  std::vector<uint64_t> vs;
  for (uint64_t i = 0; i < (thorough ? 1u << 22 : 1u << 17); ++i) { vs.push_back(i); vs.push_back(~i); }
  int nb = thorough ? 4 : 3;
  std::function<void(uint64_t, int, int)> bits = [&](uint64_t v, int from, int left) { vs.push_back(v); vs.push_back(~v); if (left) for (int b = from; b < 64; ++b) bits(v | 1ull << b, b + 1, left - 1); };
  bits(0, 0, nb);
  for (int s = 0; s < 64; ++s) for (uint64_t x = 0; x < (thorough ? 65536u : 1024u); ++x) { vs.push_back(x << s); vs.push_back(~(x << s)); if (s) vs.push_back((x << s) | (x >> (64 - s))); }
  {
    const uint64_t g[] = {0, 1, 0x40, 0x7f, 0x3f, 0x55};
    int ng = thorough ? 5 : 3;
    uint64_t tot = 1; for (int i = 0; i < 9; ++i) tot *= (uint64_t)ng;
    for (uint64_t k = 0; k < tot; ++k) { uint64_t t = k, v = 0; for (int i = 0; i < 9; ++i) { v |= g[t % (uint64_t)ng == 2 && ng == 3 ? 3 : t % (uint64_t)ng] << (7 * i); t /= (uint64_t)ng; } vs.push_back(v); vs.push_back(v | 1ull << 63); }
  }
  std::sort(vs.begin(), vs.end()); vs.erase(std::unique(vs.begin(), vs.end()), vs.end());
  std::vector<uint64_t> v32; for (uint64_t v : vs) { v32.push_back(v & 0xFFFFFFFFu); v32.push_back(v >> 32); }
  std::sort(v32.begin(), v32.end()); v32.erase(std::unique(v32.begin(), v32.end()), v32.end());
  family<KI32>(v32, false); family<KU32>(v32, false); family<KS32>(v32, false); family<KENUM>(v32, false); family<KF32>(v32, false); family<KSF32>(v32, false); family<KFLT>(v32, false);
  family<KI64>(vs, true); family<KU64>(vs, true); family<KS64>(vs, true); family<KF64>(vs, true); family<KSF64>(vs, true); family<KDBL>(vs, true); family<KBOOL>({0, 1}, false);
  if (!nosweep) {
    // every tag: all field numbers with all wire types
    par(1ull << 29, [](uint64_t a, uint64_t b) {
      for (uint64_t num = a ? a : 1; num < b; ++num) for (uint32_t wt = 0; wt < 6; ++wt) {
        if (WF::MakeTag((uint32_t)num, (WF::WireType)wt) != num * 8 + wt) fail("tag", "MakeTag", num, nullptr, 0);
        if (wt != num % 6) continue;
        uint8_t rb[12]; uint32_t rn = ref_varint(rb, num * 8 + wt);
        rb[rn] = 0xff;
        R r(rb, rn + 1); WF::WireType t = WF::WireType::VARINT; uint32_t id = 0;
        if (WF::DeserializeTag(r, t, id) != Error::NO_ERRORS || id != num || (uint32_t)t != wt || r.pos != rn) fail("tag", "DeserializeTag", num * 8 + wt, rb, rn);
      }
    });
    total += (1ull << 29) - 1;
    printf("SWEEP tag %llu\n", (1ull << 29) - 1);
    sweep32<KU32>(1ull << 32); sweep32<KI32>(1ull << 32); sweep32<KS32>(1ull << 32); sweep32<KENUM>(1ull << 32);
    sweep32<KF32>(1ull << 32); sweep32<KSF32>(1ull << 32); sweep32<KFLT>(1ull << 32);
    if (thorough) { sweep32<KU64>(1ull << 34); sweep32<KI64>(1ull << 34); sweep32<KS64>(1ull << 34); }
    else { sweep32<KU64>(1ull << 28); sweep32<KI64>(1ull << 28); sweep32<KS64>(1ull << 28); }
  }
  printf("TOTAL %llu deep %llu family %zu\n", (unsigned long long)total.load(), (unsigned long long)deep_total.load(), vs.size());
  return 0;
}
