// C24: the field classes of the library used by themselves. A scalar wrapper behaves as the value it holds (construction, assignment,
// conversion, comparison with values and wrappers of any kind); every field class writes and reads itself under any field number
// exactly as the wire format demands and refuses other wire types without touching anything.
#include "harness.h"
#include <Fields.h>
#include <FieldStringBytes.h>
#include <RepeatedFieldFixedSize.h>
#include <cmath>
#include <limits>
#include <tuple>
using namespace EmbeddedProto;
typedef WireFormatter WF;
namespace {
enum class EN : int32_t { Z = 0 };
enum Kind { KI32, KU32, KS32, KI64, KU64, KS64, KBOOL, KENUM, KF32, KSF32, KF64, KSF64, KFLT, KDBL, NK };
const char* KN[] = {"int32", "uint32", "sint32", "int64", "uint64", "sint64", "bool", "enum", "fixed32", "sfixed32", "fixed64", "sfixed64", "float", "double"};
template <int K> struct T;
#define TT(K, C, F, W) template <> struct T<K> { typedef C c; typedef F f; static const int wt = W; };
TT(KI32, int32_t, EmbeddedProto::int32, 0) TT(KU32, uint32_t, EmbeddedProto::uint32, 0) TT(KS32, int32_t, EmbeddedProto::sint32, 0) TT(KI64, int64_t, EmbeddedProto::int64, 0) TT(KU64, uint64_t, EmbeddedProto::uint64, 0)
TT(KS64, int64_t, EmbeddedProto::sint64, 0) TT(KBOOL, bool, EmbeddedProto::boolean, 0) TT(KENUM, EN, EmbeddedProto::enumeration<EN>, 0) TT(KF32, uint32_t, EmbeddedProto::fixed32, 5) TT(KSF32, int32_t, EmbeddedProto::sfixed32, 5)
TT(KF64, uint64_t, EmbeddedProto::fixed64, 1) TT(KSF64, int64_t, EmbeddedProto::sfixed64, 1) TT(KFLT, float, EmbeddedProto::floatfixed, 5) TT(KDBL, double, EmbeddedProto::doublefixed, 1)

template <class C> std::vector<C> dom() {
  std::vector<C> v;
  if constexpr (std::is_same<C, bool>::value) { v = {false, true}; }
  else if constexpr (std::is_floating_point<C>::value) {
    typedef std::numeric_limits<C> L;
    v = {(C)0.0, (C)-0.0, (C)1, (C)-1, (C)0.5, (C)-0.5, (C)2147483648.0, (C)-2147483648.0, (C)4294967296.0, (C)9223372036854775808.0, (C)16777217.0, (C)0.1, L::min(), L::max(), L::lowest(), L::denorm_min(), L::infinity(), -L::infinity(), L::quiet_NaN(), -L::quiet_NaN()};
  } else if constexpr (std::is_enum<C>::value) { for (int32_t x : {0, 1, -1, 2, 127, 128, -128, 16383, 16384, INT32_MAX, INT32_MIN, INT32_MAX - 1}) v.push_back((C)x); }
  else {
    typedef std::numeric_limits<C> L;
    for (int64_t x : {0, 1, 2, 3, 127, 128, 255, 256, 16383, 16384, 65535, 65536, 2097151, 2097152, 268435455, 268435456}) { v.push_back((C)x); v.push_back((C)-x); }
    v.push_back(L::max()); v.push_back(L::min()); v.push_back((C)(L::max() - 1)); v.push_back((C)(L::min() + 1)); v.push_back((C)(L::max() / 2)); v.push_back((C)(L::max() / 2 + 1));
    if (sizeof(C) == 8) for (uint64_t x : {0x7FFFFFFFull, 0x80000000ull, 0xFFFFFFFFull, 0x100000000ull, 0xFFFFFFFF80000000ull, 0xFFFFFFFF00000000ull, 0x7FFFFFFFFull, 0x800000000ull}) v.push_back((C)x);
  }
  std::vector<C> o; for (C x : v) { bool f = false; for (C y : o) f |= memcmp(&x, &y, sizeof(C)) == 0; if (!f) o.push_back(x); }
  return o;
}
template <class C> std::string str(const C& x) { char b[64]; if constexpr (std::is_floating_point<C>::value) snprintf(b, sizeof b, "%a", (double)x); else if constexpr (std::is_signed<C>::value || std::is_enum<C>::value) snprintf(b, sizeof b, "%lld", (long long)x); else snprintf(b, sizeof b, "%llu", (unsigned long long)x); return b; }
template <class C> bool same(const C& a, const C& b) { return memcmp(&a, &b, sizeof(C)) == 0; }

void varint(std::string& o, uint64_t v) { while (v >= 128) { o += (char)(v % 128 + 128); v /= 128; } o += (char)v; }
void fixed(std::string& o, uint64_t v, int n) { while (n--) { o += (char)(v % 256); v /= 256; } }
template <int K> std::string enc(typename T<K>::c x) {
  std::string o;
  if constexpr (K == KI32 || K == KENUM) varint(o, (uint32_t)x);   // as this library does; ten bytes are read as well
  else if constexpr (K == KU32 || K == KU64 || K == KI64 || K == KBOOL) varint(o, (uint64_t)x);
  else if constexpr (K == KS32) varint(o, x < 0 ? 2 * (uint64_t)(-(int64_t)x) - 1 : 2 * (uint64_t)x);
  else if constexpr (K == KS64) varint(o, x < 0 ? 2 * (uint64_t)(-(x + 1)) + 1 : 2 * (uint64_t)x);
  else if constexpr (K == KFLT) { uint32_t u; memcpy(&u, &x, 4); fixed(o, u, 4); }
  else if constexpr (K == KDBL) { uint64_t u; memcpy(&u, &x, 8); fixed(o, u, 8); }
  else fixed(o, (uint64_t)x, sizeof(x));
  return o;
}
// other bytes libraries write for the same value
template <int K> std::string enc10(typename T<K>::c x) { std::string o; varint(o, (uint64_t)(int64_t)x); return o; }

// ------------------------------------------------------------------ behaves as its value
template <class A, class B> void cmp(const char* what, A&& a, B&& b, const bool* w, const std::string& desc) {
  bool g[6] = {(bool)(a == b), (bool)(a != b), (bool)(a > b), (bool)(a < b), (bool)(a >= b), (bool)(a <= b)};
  static const char* N[] = {"==", "!=", ">", "<", ">=", "<="};
  for (int k = 0; k < 6; ++k) if (g[k] != w[k]) violation(std::string(what) + ": " + desc + " " + N[k] + " is " + (g[k] ? "true" : "false"));
  ++cx.transitions;
}
template <int K1, int K2> void compare() {
  typedef typename T<K1>::c C1; typedef typename T<K2>::c C2; typedef typename T<K1>::f F1; typedef typename T<K2>::f F2;
  if constexpr ((std::is_enum<C1>::value || std::is_enum<C2>::value) && K1 != K2) return;
  else {
    for (C1 x : dom<C1>()) for (C2 y : dom<C2>()) {
      bool w[6] = {x == y, x != y, x > y, x < y, x >= y, x <= y};
      std::string d = std::string(KN[K1]) + " " + str(x) + ", " + KN[K2] + " " + str(y); std::string k = d; cx.note(h64(k, 11));
      F1 a(x); F2 b(y); const F1 ca(x); const F2 cb(y);
      cmp("wrapper with wrapper", a, b, w, d); cmp("wrapper with constant wrapper", a, cb, w, d);
      if constexpr (K1 == K2) { cmp("wrapper with value", a, y, w, d); cmp("value with constant wrapper", x, cb, w, d); cmp("constant wrapper with value", ca, y, w, d); }
      if (!same(a.get(), x) || !same(b.get(), y)) violation("a comparison changes its operands: " + d);
    }
    ++cx.stats["pairs_of_kinds_compared"];
  }
}
template <int K> void assign() {
  typedef typename T<K>::c C; typedef typename T<K>::f F;
  auto D = dom<C>();
  for (C x : D) for (C y : D) {
    std::string d = std::string(KN[K]) + " " + str(x) + " becomes " + str(y); cx.note(h64(d, 12));
    auto chk = [&](const F& f, const C& w, const char* how) { ++cx.transitions; C c = f; if (!same(f.get(), w) || !same(c, w)) violation(d + ", " + how + ": holds " + str(f.get()) + ", converts to " + str(c)); };
    const F src(y); chk(src, y, "construction");
    { F f(x); f.set(y); chk(f, y, "set(value)"); }
    { F f(x); C t = y; f.set(std::move(t)); chk(f, y, "set(value&&)"); }
    { F f(x); f.set(src); chk(f, y, "set(wrapper)"); chk(src, y, "source"); }
    { F f(x), t(y); f.set(std::move(t)); chk(f, y, "set(wrapper&&)"); }
    { F f(x); F& r = (f = y); chk(f, y, "= value"); if (&r != &f) violation("= does not return the object"); }
    { F f(x); C t = y; F& r = (f = std::move(t)); chk(f, y, "= value&&"); if (&r != &f) violation("= does not return the object"); }
    { F f(x); F& r = (f = src); chk(f, y, "= wrapper"); chk(src, y, "source"); if (&r != &f) violation("= does not return the object"); }
    { F f(x), t(y); F& r = (f = std::move(t)); chk(f, y, "= wrapper&&"); if (&r != &f) violation("= does not return the object"); }
    { F f(x), g(x); g = f = y; chk(f, y, "chain"); chk(g, y, "chain"); f = x; chk(g, y, "independence"); chk(f, x, "independence"); }
    { F f(x); f.get() = y; chk(f, y, "get() ="); }
    { F f(x); f = static_cast<const F&>(f); chk(f, x, "self assignment"); f.set(f); chk(f, x, "self set"); }
    { F f(x); f.clear(); chk(f, (C)0, "clear"); f.set(y); chk(f, y, "set after clear"); F g(f); f.clear(); chk(g, y, "copy"); }
    { C t = y; F f(std::move(t)); chk(f, y, "construction from value&&"); F g = f; chk(g, y, "copy"); F h(std::move(g)); chk(h, y, "move"); }
  }
  ++cx.stats["kinds_assigned"];
}

// ------------------------------------------------------------------ writes and reads itself
const uint32_t NUMS[] = {1, 2, 15, 16, 127, 128, 2047, 2048, 262143, 262144, 33554431, 33554432, 536870911};
// full: everything with the id, body: what serialize() writes. nullptr: not checked
template <class F> void ser(const F& f, uint32_t num, bool opt, const std::string& full, const std::string* body, const std::string& d) {
  cur.a = num; cur.b = opt;
  for (uint32_t cap = 0; cap <= full.size() + 1; ++cap) {
    if (full.size() > 60 && cap > 8 && cap < full.size() - 8) continue;
    MonWrite w(cap); Error e = f.serialize_with_id(num, w, opt); ++cx.transitions;
    if (cap >= full.size()) { if (e != Error::NO_ERRORS || w.out != full) violation(d + " as field " + std::to_string(num) + ": writes " + hex(w.out) + " (" + std::to_string((int)e) + ") instead of " + hex(full) + " into " + std::to_string(cap) + " bytes"); }
    else if (e != Error::BUFFER_FULL || full.compare(0, w.out.size(), w.out) != 0) violation(d + " as field " + std::to_string(num) + ": writes " + hex(w.out) + " and reports " + std::to_string((int)e) + " with " + std::to_string(cap) + " bytes for " + hex(full));
  }
  MessageSizeCalculator c; Error e = f.serialize_with_id(num, c, opt);
  if (e != Error::NO_ERRORS || c.get_size() != full.size()) violation(d + " as field " + std::to_string(num) + ": the calculated size is " + std::to_string(c.get_size()) + " instead of " + std::to_string(full.size()));
  if (body) {
    MonWrite w; e = f.serialize(w);
    if (e != Error::NO_ERRORS || w.out != *body) violation(d + ": serialize() writes " + hex(w.out) + " instead of " + hex(*body));
    if (f.serialized_size() != body->size()) violation(d + ": serialized_size() is " + std::to_string(f.serialized_size()) + " instead of " + std::to_string(body->size()));
  }
}
// read: f is the object as it was; get(f) renders it. After the bytes there are others which belong to somebody else.
template <class F, class G> void des(F f, const std::string& in, int wt, const std::string& want, bool accepted, const std::string& d, G get) {
  std::string before = get(f); MonRead r(in + "\x7f\x80"); Error e = f.deserialize_check_type(r, (WF::WireType)wt); ++cx.transitions;
  std::string how = d + ", reading " + hex(in) + " with wire type " + std::to_string(wt);
  if (accepted) {
    if (e != Error::NO_ERRORS) violation(how + " fails with " + std::to_string((int)e));
    if (get(f) != want) violation(how + " gives " + get(f) + " instead of " + want);
    if (r.pos != in.size()) violation(how + " consumes " + std::to_string(r.pos) + " bytes");
    for (size_t k = 0; k < in.size(); ++k) { if (in.size() > 60 && k > 8 && k < in.size() - 8) continue; F g(f); MonRead q(in.substr(0, k)); e = g.deserialize_check_type(q, (WF::WireType)wt); ++cx.transitions; if (e == Error::NO_ERRORS) violation(how + " succeeds with only " + std::to_string(k) + " bytes"); }
  } else {
    if (e != Error::INVALID_WIRETYPE) violation(how + " reports " + std::to_string((int)e) + " instead of INVALID_WIRETYPE");
    if (get(f) != before) violation(how + ": refused, but changes " + before + " to " + get(f));
    if (r.pos != 0) violation(how + ": refused, but consumes " + std::to_string(r.pos) + " bytes");
  }
}
template <int K> void wire() {
  typedef typename T<K>::c C; typedef typename T<K>::f F; auto D = dom<C>();
  for (C x : D) {
    if (!cx.begin()) continue;
    std::string d = std::string(KN[K]) + " " + str(x), b = enc<K>(x); const F f(x);
    for (uint32_t num : NUMS) for (int opt = 0; opt < 2; ++opt) {
      if (!opt && same(x, (C)0)) continue;
      std::string full; varint(full, (uint64_t)num << 3 | (unsigned)T<K>::wt); full += b; cx.note(h64(full, 13 + (uint64_t)K));
      ser(f, num, opt, full, &b, d);
    }
    for (C y : {(C)D.front(), (C)D.back(), x}) for (int wt = 0; wt < 8; ++wt) {
      des(F(y), b, wt, str(x), wt == T<K>::wt, d + " over " + str(y), [](const F& g) { return str(g.get()); });
      if constexpr (K == KI32 || K == KENUM) des(F(y), enc10<K>(x), wt, str(x), wt == T<K>::wt, d + " over " + str(y), [](const F& g) { return str(g.get()); });
    }
    if (cx.samp()) cx.sample(d + " as every field number and into every capacity, read with every wire type");
  }
}
template <int K, uint32_t N> void repeated() {
  typedef typename T<K>::c C; typedef typename T<K>::f F; typedef RepeatedFieldFixedSize<F, N> R; auto D = dom<C>();
  auto get = [](const R& r) { std::string s; for (uint32_t k = 0; k < r.get_length(); ++k) s += str(r.get_const(k).get()) + " "; return s; };
  std::vector<size_t> ix;
  std::function<void()> rec = [&] {
    R r; std::string body, d = std::string("repeated ") + KN[K] + "[" + std::to_string(N) + "] {"; 
    for (size_t k : ix) { if (r.add(F(D[k])) != Error::NO_ERRORS) violation("add fails"); body += enc<K>(D[k]); d += " " + str(D[k]); }
    d += " }";
    if (cx.begin()) {
      for (uint32_t num : {1u, 15u, 16u, 2048u, 536870911u}) for (int opt = 0; opt < 2; ++opt) {
        std::string full; if (!body.empty() || opt) { varint(full, (uint64_t)num << 3 | 2); varint(full, body.size()); full += body; }
        cx.note(h64(full, 100 + (uint64_t)K)); ser(r, num, opt, full, nullptr, d);
      }
      if (r.serialized_size_packed() != body.size()) violation(d + ": serialized_size_packed() is " + std::to_string(r.serialized_size_packed()));
      R half; if (ix.size() < N) half.add(F(D.back()));
      R* starts[2] = {new R, ix.size() < N ? new R(half) : nullptr};
      for (R* s : starts) if (s) {
        std::string in; varint(in, body.size()); in += body;
        for (int wt = 0; wt < 8; ++wt) {
          if (wt == T<K>::wt) continue;   // a single element, below
          des(R(*s), in, wt, get(*s) + get(r), wt == 2, d, get);
        }
        for (size_t k : ix) if (s->get_length() < N) des(R(*s), enc<K>(D[k]), T<K>::wt, get(*s) + str(D[k]) + " ", true, d, get);
        delete s;
      }
    }
    if (ix.size() == N) return;
    size_t lim = ix.size() < 1 ? D.size() : ix.size() < 2 ? std::min<size_t>(D.size(), cx.thorough ? 40 : 8) : std::min<size_t>(D.size(), 3);
    for (size_t k = 0; k < lim; ++k) { ix.push_back(k); rec(); ix.pop_back(); }
  };
  rec();
}
template <class S, uint32_t N> void text(const char* nm) {
  typedef typename std::remove_const<typename std::remove_pointer<decltype(((const S*)nullptr)->get_const())>::type>::type CH;
  auto get = [](const S& s) { return hex(std::string((const char*)s.get_const(), s.get_length())); };
  std::vector<std::string> D; 
  std::string al("a\0\xff", 3);
  std::function<void(std::string)> rec = [&](std::string s) { D.push_back(s); if (s.size() < std::min<uint32_t>(N, 4)) for (char c : al) rec(s + c); };
  if (N <= 4) rec(""); else for (uint32_t n : {0u, 1u, N / 2, N - 1, N, 127u, 128u}) if (n <= N) { std::string s; for (uint32_t k = 0; k < n; ++k) s += (char)(1 + k * 37 % 251); D.push_back(s); }
  for (auto& x : D) {
    if (!cx.begin()) continue;
    std::string d = std::string(nm) + "[" + std::to_string(N) + "] " + hex(x);
    S f; if (f.set((const CH*)x.data(), (uint32_t)x.size()) != Error::NO_ERRORS) violation(d + ": set fails");
    for (uint32_t num : NUMS) for (int opt = 0; opt < 2; ++opt) {
      std::string full; if (!x.empty() || opt) { varint(full, (uint64_t)num << 3 | 2); varint(full, x.size()); full += x; }
      cx.note(h64(full, 200 + N)); ser(f, num, opt, full, &x, d);
    }
    std::string in; varint(in, x.size()); in += x;
    for (auto& y : {std::string(), D.back(), D[D.size() / 2]}) for (int wt = 0; wt < 8; ++wt) { S g; g.set((const CH*)y.data(), (uint32_t)y.size()); des(g, in, wt, hex(x), wt == 2, d + " over " + hex(y), get); }
  }
}
template <int K1, int... K2> void row(std::integer_sequence<int, K2...>) { if (cx.begin()) { int _[] = {(compare<K1, K2>(), 0)...}; (void)_; assign<K1>(); } wire<K1>(); repeated<K1, 1>(); repeated<K1, 3>(); }
template <int K> void kind() { cx.section = KN[K]; row<K>(std::make_integer_sequence<int, NK>()); }
}
// compiled in parts, one per pair of kinds
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
void CAT(run_C24_, PART)() { kind<2 * PART>(); kind<2 * PART + 1>(); }
#if PART == 0
void run_C24_1(); void run_C24_2(); void run_C24_3(); void run_C24_4(); void run_C24_5(); void run_C24_6();
void run_C24() {
  cur = Cur(); cur.phase = "a field class by itself";
  run_C24_0(); run_C24_1(); run_C24_2(); run_C24_3(); run_C24_4(); run_C24_5(); run_C24_6();
  cx.section = "string"; text<FieldString<1>, 1>("string"); text<FieldString<3>, 3>("string"); text<FieldString<4>, 4>("string"); text<FieldString<200>, 200>("string");
  cx.section = "bytes"; text<FieldBytes<1>, 1>("bytes"); text<FieldBytes<3>, 3>("bytes"); text<FieldBytes<4>, 4>("bytes"); text<FieldBytes<200>, 200>("bytes");
}
#endif
