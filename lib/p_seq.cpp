// All operation sequences on the bounded sequence classes of the library, followed by conversions to other capacities.
#include "harness.h"
#include <RepeatedFieldFixedSize.h>
#include <FieldStringBytes.h>
#include <Fields.h>
#include <algorithm>
using namespace EmbeddedProto;

static std::string hist_text;
static std::string us(uint64_t x) { return std::to_string(x); }
[[noreturn]] static void bad(const std::string& m) { violation(m + " :: history " + hist_text); }
// ------------------------------------------------------------------ C12: conversions between sequences of different capacity
template<class E> struct El;
template<> struct El<EmbeddedProto::uint32> { static EmbeddedProto::uint32 mk(int k) { EmbeddedProto::uint32 e; e = (uint32_t)(k * 257); return e; } static std::string s(const EmbeddedProto::uint32& e) { return us(e.get()); } static std::string zero() { return "0"; } static std::string v(int k) { return us((uint32_t)(k * 257)); } };
template<> struct El<FieldString<2>> { static FieldString<2> mk(int k) { FieldString<2> e; e.set(k == 0 ? "" : k == 1 ? "x" : "yz"); return e; } static std::string s(const FieldString<2>& e) { return std::string(e.get_const(), e.get_length()); } static std::string zero() { return ""; } static std::string v(int k) { return k == 0 ? "" : k == 1 ? "x" : "yz"; } };
template<class E, class Q> static void same_(const Q& r, const std::vector<std::string>& m, const char* what) {
  if (r.get_length() != m.size()) bad(std::string(what) + ": length " + us(r.get_length()) + " instead of " + us(m.size()));
  for (uint32_t k = 0; k < m.size(); ++k) if (El<E>::s(r.get_const(k)) != m[k]) bad(std::string(what) + ": element " + us(k) + " is " + El<E>::s(r.get_const(k)) + " instead of " + m[k]);
}
template<class E, class Q> static void grown_(Q& r, const std::vector<std::string>& m, uint32_t cap, const char* what) {
  (void)r.get(cap - 1);
  if (r.get_length() != cap) bad(std::string(what) + ": growing gives length " + us(r.get_length()));
  for (uint32_t k = 0; k < cap; ++k) { std::string want = k < m.size() ? m[k] : El<E>::zero(); if (El<E>::s(r.get_const(k)) != want) bad(std::string(what) + ": after growing element " + us(k) + " is " + El<E>::s(r.get_const(k)) + " instead of " + want); }
}
#define same(r, what) same_<E>(r, m, what)
#define grown(r, cap, what) grown_<E>(r, m, cap, what)
template<class E, uint32_t N, uint32_t M> static void conv_rep(const char* nm, int most = 9) {
  cx.section = nm;
  typedef RepeatedFieldFixedSize<E, N> R; typedef RepeatedFieldFixedSize<E, M> B;
  const int OPS = 9; int depth = std::min(most, cx.lite ? 3 : cx.thorough ? 6 : 5);
  uint64_t tot = 1; for (int k = 0; k < depth; ++k) tot *= OPS;
  for (uint64_t code = 0; code < tot; ++code) {
    if (!cx.begin()) continue;
    R x; std::vector<std::string> m; uint64_t c = code; hist_text = std::string(nm) + ": ";
    for (int d = 0; d < depth; ++d, c /= OPS) {
      int o = (int)(c % OPS); hist_text += us((uint64_t)o) + " "; ++cx.transitions;
      switch (o) {
        case 0: { Error e = x.add(El<E>::mk(1)); bool fits = m.size() < N; if ((e == Error::NO_ERRORS) != fits || (!fits && e != Error::ARRAY_FULL)) bad("add result"); if (fits) m.push_back(El<E>::v(1)); break; }
        case 1: x.clear(); m.clear(); break;
        case 2: x.set(N - 1, El<E>::mk(2)); m.resize(N, El<E>::zero()); m[N - 1] = El<E>::v(2); break;
        case 3: { E a[1] = {El<E>::mk(2)}; if (x.set_data(a, 1) != Error::NO_ERRORS) bad("set_data"); m.assign(1, El<E>::v(2)); break; }
        case 4: { E a[N + 1]; if (x.set_data(a, N + 1) != Error::ARRAY_FULL) bad("set_data beyond the capacity accepted"); break; }
        case 5: x[0] = El<E>::mk(1); if (m.empty()) m.resize(1); m[0] = El<E>::v(1); break;
        case 6: { R y; y.add(El<E>::mk(2)); x = y; m.assign(1, El<E>::v(2)); break; }
        case 7: { E a[N]; for (auto& q : a) q = El<E>::mk(2); if (x.set_data(a, N) != Error::NO_ERRORS) bad("set_data"); m.assign(N, El<E>::v(2)); break; }
        case 8: { R& rx = x; x = rx; break; }
      }
      same(x, "sequence");
    }
    cx.note(h64(hist_text));
    R y(x); same(y, "copy"); R y2(std::move(y)); same(y2, "move");
    B z(x); same(z, "copy with a larger capacity"); B z2(std::move(y2)); same(z2, "move with a larger capacity");
    R t; t.set(N - 1, El<E>::mk(2)); t = x; same(t, "assignment");
    grown(z, M, "copy with a larger capacity"); grown(z2, M, "move with a larger capacity"); grown(t, N, "assignment"); R y3(x); grown(y3, N, "copy"); grown(x, N, "sequence");
    m.resize(N, El<E>::zero()); same(x, "grown sequence");
    cx.traces++;
  }
}
template<uint32_t N, uint32_t M> static void conv_str(const char* nm, int most = 9) {
  cx.section = nm;
  const int OPS = 10; int depth = std::min(most, cx.lite ? 3 : cx.thorough ? 6 : 4); uint64_t tot = 1; for (int k = 0; k < depth; ++k) tot *= OPS;
  for (uint64_t code = 0; code < tot; ++code) {
    if (!cx.begin()) continue;
    FieldString<N> s; FieldBytes<N> b; std::string m, mb; uint64_t c = code; hist_text = std::string(nm) + ": ";
    auto chk = [&]() {
      if (std::string(s.get_const(), s.get_length()) != m) bad("string is x" + hex(std::string(s.get_const(), s.get_length())) + " instead of x" + hex(m));
      if (m.size() < N && s.get_const()[m.size()] != 0) bad("string is not terminated");
      if (std::string((const char*)b.get_const(), b.get_length()) != mb) bad("bytes are x" + hex(std::string((const char*)b.get_const(), b.get_length())) + " instead of x" + hex(mb));
    };
    for (int d = 0; d < depth; ++d, c /= OPS) {
      int o = (int)(c % OPS); hist_text += us((uint64_t)o) + " "; ++cx.transitions;
      FieldString<M> big; FieldBytes<M> bb; std::string fullM(M, 'F'), fullN(N, 'f');
      switch (o) {
        case 0: s = "a"; m = "a"; b.set((const uint8_t*)"q", 1); mb = "q"; break;
        case 1: s = fullM.c_str(); m = fullM.substr(0, N); if (b.set((const uint8_t*)fullM.data(), M) != Error::ARRAY_FULL) bad("bytes beyond the capacity accepted"); break;
        case 2: s.clear(); m.clear(); b.clear(); mb.clear(); break;
        case 3: big.set(fullM.data(), M); bb.set((const uint8_t*)fullM.data(), M); if (s.set(big) != Error::ARRAY_FULL || b.set(bb) != Error::ARRAY_FULL) bad("longer string accepted"); break;
        case 4: big.set("h"); s = big; m = "h"; bb.set((const uint8_t*)"h", 1); b = bb; mb = "h"; break;
        case 5: s[N - 1] = 'e'; m.resize(N, 0); m[N - 1] = 'e'; b[N - 1] = 0xFE; mb.resize(N, 0); mb[N - 1] = (char)0xFE; break;
        case 6: s.set(static_cast<const char*>(nullptr)); m.clear(); b.set((const uint8_t*)"", 0); mb.clear(); break;
        case 7: s.set(fullN.data(), N); m = fullN; b.set((const uint8_t*)fullN.data(), N); mb = fullN; break;
        case 8: { FieldString<N> t(s); s.clear(); s = t; FieldBytes<N> u(b); b.clear(); b = u; break; }
        case 9: s = fullN.c_str(); m = fullN; b[0] = 1; if (mb.empty()) mb.resize(1); mb[0] = 1; break;
      }
      chk();
    }
    cx.note(h64(hist_text)); cx.traces++;
  }
}
// every content of up to two bytes, put in by every way there is; the bytes are just bytes whatever char means here
template<uint32_t N> static void contents(const char* nm) {
  cx.section = nm;
  for (uint32_t code = 0; code < 1 + 256 + 65536; ++code) {
    if (!cx.begin()) continue;
    std::string v; if (code >= 257) { v += (char)((code - 257) >> 8); v += (char)((code - 257) & 255); } else if (code >= 1) v += (char)(code - 1);
    hist_text = std::string(nm) + ": content x" + hex(v);
    std::string upto = v.substr(0, v.find('\0')), cut = v.substr(0, N), cutz = upto.substr(0, N);
    FieldString<N> s; FieldBytes<N> b; FieldString<4> s4; FieldBytes<4> b4;
    auto is = [&](const FieldString<N>& f, const std::string& want, const char* how) {
      if (std::string(f.get_const(), f.get_length()) != want) bad(std::string(how) + " gives x" + hex(std::string(f.get_const(), f.get_length())) + " instead of x" + hex(want));
      if (want.size() < N && f.get_const()[want.size()] != 0) bad(std::string(how) + ": not terminated"); };
    auto isb = [&](const FieldBytes<N>& f, const std::string& want, const char* how) {
      if (std::string((const char*)f.get_const(), f.get_length()) != want) bad(std::string(how) + " gives x" + hex(std::string((const char*)f.get_const(), f.get_length())) + " instead of x" + hex(want)); };
    s = "~"; s = v.c_str(); is(s, cutz, "assignment of a C string");
    s = "~"; s.set(v.c_str()); is(s, cutz, "set(const char*)");
    bool fits = v.size() <= N;
    s = "~"; Error e = s.set(v.data(), (uint32_t)v.size()); if ((e == Error::NO_ERRORS) != fits || (!fits && e != Error::ARRAY_FULL)) bad("set(data, length) of a string: result"); is(s, fits ? v : "~", "set(data, length)");
    s4.set(v.data(), (uint32_t)v.size()); s = "~"; e = s.set(s4); if ((e == Error::NO_ERRORS) != fits) bad("set(string): result"); is(s, fits ? v : "~", "set(string)");
    b[0] = 7; e = b.set((const uint8_t*)v.data(), (uint32_t)v.size()); if ((e == Error::NO_ERRORS) != fits || (!fits && e != Error::ARRAY_FULL)) bad("set(data, length) of bytes: result"); isb(b, fits ? v : "\x07", "set(data, length) of bytes");
    b4.set((const uint8_t*)v.data(), (uint32_t)v.size()); b.clear(); b[0] = 7; e = b.set(b4); if ((e == Error::NO_ERRORS) != fits) bad("set(bytes): result"); isb(b, fits ? v : "\x07", "set(bytes)");
    s.clear(); b.clear(); for (uint32_t k = 0; k < cut.size(); ++k) { s[k] = cut[k]; b[k] = (uint8_t)cut[k]; } is(s, cut, "writing the characters"); isb(b, cut, "writing the bytes");
    { FieldString<N> t(s); is(t, cut, "copy"); FieldString<N> u; u = "~"; u = s; is(u, cut, "assignment"); FieldBytes<N> c(b); isb(c, cut, "copy of bytes"); FieldBytes<N> d; d[0] = 7; d = b; isb(d, cut, "assignment of bytes"); }
    cx.transitions += 12; cx.traces++; cx.note(h64(hist_text));
  }
}
void run_C12_direct();
void run_C12_direct() {
  cur = Cur(); cur.phase = "library sequences";
  conv_rep<EmbeddedProto::uint32, 2, 4>("RepeatedFieldFixedSize<uint32,2> to 4");
  conv_rep<EmbeddedProto::uint32, 3, 4>("RepeatedFieldFixedSize<uint32,3> to 4");
  conv_rep<EmbeddedProto::uint32, 1, 2>("RepeatedFieldFixedSize<uint32,1> to 2");
  conv_rep<FieldString<2>, 2, 3>("RepeatedFieldFixedSize<string,2> to 3");
  conv_str<1, 2>("FieldString<1>"); conv_str<3, 5>("FieldString<3>"); conv_str<8, 9>("FieldString<8>");
  contents<1>("contents of FieldString<1>, FieldBytes<1>"); contents<2>("contents of FieldString<2>, FieldBytes<2>"); contents<3>("contents of FieldString<3>, FieldBytes<3>");
  conv_rep<EmbeddedProto::uint32, 300, 301>("RepeatedFieldFixedSize<uint32,300> to 301", cx.thorough ? 4 : 3); conv_rep<EmbeddedProto::uint32, 255, 256>("RepeatedFieldFixedSize<uint32,255> to 256", 3);
  conv_str<255, 256>("FieldString<255>", 3); conv_str<256, 257>("FieldString<256>", 3); conv_str<300, 301>("FieldString<300>", cx.thorough ? 4 : 3); conv_str<65536, 65537>("FieldString<65536>", 2); conv_str<66000, 66001>("FieldString<66000>", 2);
}
