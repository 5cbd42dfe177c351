// Value domains and enumeration of message values.
#include "harness.h"
#include <algorithm>

static void add32(std::vector<Val>& o, std::set<uint64_t>& seen, uint64_t u, uint64_t mask) { u &= mask; if (seen.insert(u).second) o.push_back(Val(u)); }

static bool is64(Kind k) { return k == I64 || k == U64 || k == S64 || k == X64 || k == Y64 || k == DBL; }

std::vector<Val> domain(const FieldD& fd, int level) {
  std::vector<Val> o; std::set<uint64_t> seen;
  uint64_t mask = is64(fd.kind) ? ~0ull : 0xFFFFFFFFull;
  int bitsn = is64(fd.kind) ? 64 : 32;
  switch (fd.kind) {
    case BOOL: o.push_back(Val(0)); o.push_back(Val(1)); break;
    case FLT: case DBL: {
      std::vector<uint64_t> f32 = {0, 0x3F800000u, 0x80000000u, 0xC0490FDBu, 0x7F800000u, 0xFF800000u, 0x7FC00000u, 0x7F800001u, 0xFFFFFFFFu, 0x00000001u, 0x80000001u, 0x007FFFFFu, 0x7F7FFFFFu, 0x00000080u, 0x00800000u, 0x01020304u};
      std::vector<uint64_t> f64 = {0, 0x3FF0000000000000ull, 0x8000000000000000ull, 0xC00921FB54442D18ull, 0x7FF0000000000000ull, 0xFFF0000000000000ull, 0x7FF8000000000000ull, 0x7FF0000000000001ull, ~0ull, 1, 0x8000000000000001ull, 0x000FFFFFFFFFFFFFull, 0x7FEFFFFFFFFFFFFFull, 0x0000000080000000ull, 0x0102030405060708ull, 0x00000001FFFFFFFFull};
      auto& v = fd.kind == FLT ? f32 : f64;
      size_t n = level == 0 ? 3 : level == 1 ? 6 : v.size();
      for (size_t i = 0; i < n; ++i) o.push_back(Val(v[i]));
      break;
    }
    case STR: case BYT: {
      auto S = [&](const std::string& s) { if (s.size() <= fd.cap) { for (auto& x : o) if (x.s == s) return; Val v; v.s = s; o.push_back(v); } };
      S("");
      S("a");
      S(std::string(fd.cap, fd.kind == STR ? 'z' : '\xFF'));
      if (level >= 1) { S(std::string(1, '\0')); S(std::string(fd.cap, '\0')); S("\xC3\xA9"); S(std::string("b\0", 2)); if (fd.cap > 1) S(std::string(fd.cap - 1, 'q')); }
      if (level >= 2) {
        S("bcd"); S(std::string("\0c", 2)); S("\x08\x01");
        if (fd.kind == BYT) { S("\x80"); S("\xFF\x00"); for (int c = 0; c < 256; c += 5) S(std::string(1, (char)c)); }
      }
      if (level >= 1 && fd.cap > 10 && fd.cap <= 100) for (uint32_t l = 3; l < fd.cap; ++l) { std::string t(l, 'k'); for (size_t i = 0; i < t.size(); ++i) t[i] = (char)('a' + (i + l) % 25); S(t); }
      if (level >= 2 || (level >= 1 && fd.cap > 100)) {
        for (uint32_t l : {126u, 127u, 128u, 129u, 130u, 255u, 256u, 257u, 299u, 16380u, 16381u, 16382u, 16383u, 16384u, 16385u, 16386u, 65534u, 65535u, 65536u, 65537u}) if (l <= fd.cap) {
          std::string t(l, 'k'); for (size_t i = 0; i < t.size(); ++i) t[i] = (char)('a' + i % 25); S(t); }
      }
      break;
    }
    case ENUM:
      for (uint64_t u : {0ull, 1ull, 2ull, 0x7FFFFFFFull}) add32(o, seen, u, mask);
      if (level >= 1) for (uint64_t u : {0xFFFFFFFFull, 0x80000000ull, 5ull, 127ull, 128ull, 300ull}) add32(o, seen, u, mask);
      if (level >= 2) for (int k = 0; k < 32; ++k) { add32(o, seen, 1ull << k, mask); add32(o, seen, (1ull << k) - 1, mask); }
      break;
    case MSG: break;
    default:
      for (uint64_t u : {0ull, 1ull, ~0ull}) add32(o, seen, u, mask);
      if (level >= 1) for (uint64_t u : {127ull, 128ull, 300ull, 1ull << (bitsn - 1), (1ull << (bitsn - 1)) - 1, 0x0102030405060708ull}) add32(o, seen, u, mask);
      if (level >= 2) for (int k = 0; k < bitsn; ++k) { uint64_t p = 1ull << k; add32(o, seen, p, mask); add32(o, seen, p - 1, mask); add32(o, seen, p + 1, mask); add32(o, seen, 0 - p, mask); add32(o, seen, ~p, mask); }
      if (level >= 2) for (uint64_t u : {0x5555555555555555ull, 0xAAAAAAAAAAAAAAAAull, 0xFF00FF00FF00FF00ull, 0x8080808080808080ull, 0x00FF00FF00FF00FFull}) add32(o, seen, u, mask);
  }
  return o;
}

// the element values used for (elements of) a field, message elements included
static std::vector<Val> elems(const FieldD& fd, int level) {
  if (fd.kind != MSG) return domain(fd, level);
  std::vector<Val> o;
  std::vector<MsgV> vs = values(fd.sub, level - 1);
  for (auto& m : vs) { Val v; v.m = std::make_shared<MsgV>(m); o.push_back(v); }
  return o;
}

std::vector<FieldV> field_domain(const FieldD& fd, int level) {
  std::vector<FieldV> o;
  std::vector<Val> el = elems(fd, level);
  if (fd.label == REP) {
    FieldV e; o.push_back(e);
    auto L = [&](const std::vector<Val>& r) { if (r.size() <= fd.repcap) { FieldV f; f.rep = r; o.push_back(f); } };
    size_t n1 = level == 0 ? std::min<size_t>(2, el.size()) : el.size();
    for (size_t i = 0; i < n1; ++i) L({el[level == 0 ? el.size() - 1 - i : i]});
    if (level == 0) return o;
    size_t lim = level == 1 ? 3 : 5;
    if (fd.kind == MSG) lim = level == 1 ? 2 : 4;
    std::vector<Val> s(el.begin(), el.begin() + std::min(lim, el.size()));
    for (auto& a : s) for (auto& b : s) L({a, b});
    if (fd.repcap >= 3 && level >= 2) { size_t q = std::min<size_t>(3, s.size()); for (size_t a = 0; a < q; ++a) for (size_t b = 0; b < q; ++b) for (size_t c = 0; c < q; ++c) L({s[a], s[b], s[c]}); }
    if (fd.repcap > 10 && fd.repcap <= 100) for (uint32_t n = 3; n < fd.repcap; ++n) { std::vector<Val> r; for (uint32_t i = 0; i < n; ++i) r.push_back(el[(i + n) % el.size()]); L(r); }
    for (uint32_t n : {fd.repcap, 126u, 127u, 128u, 129u, 255u, 256u, 257u, 2047u, 2048u, 2049u, 65535u, 65536u, 65537u}) if (n > 2 && n <= fd.repcap) {
      std::vector<Val> r; for (uint32_t i = 0; i < n; ++i) r.push_back(el[i % el.size()]); L(r);
      if (n > 3000) continue;
      std::vector<Val> r2; for (uint32_t i = 0; i < n; ++i) r2.push_back(el[0]); L(r2);
      std::vector<Val> r3; for (uint32_t i = 0; i < n; ++i) r3.push_back(el[std::min<size_t>(1, el.size() - 1)]); L(r3);
    }
    return o;
  }
  if (fd.label == OPT || fd.label == ONE) { FieldV a; if (fd.kind == MSG) a.one.m = std::make_shared<MsgV>(fd.sub); o.push_back(a); }
  for (auto& v : el) { FieldV f; f.has = fd.label == OPT || fd.label == ONE; f.one = v; o.push_back(f); }
  return o;
}

static void put_field(MsgV& v, size_t i, const FieldV& f) {
  const FieldD& fd = v.d->f[i];
  if (fd.label == ONE) { if (!f.has) { return; } v.clear_oneof(fd.oneof); }
  v.f[i] = f;
}

void for_values(const MsgD* d, int level, const std::function<void(const MsgV&)>& f) {
  MsgV base(d);
  f(base);
  size_t n = d->f.size();
  if (level < 0) {  // two further values: everything set to something, and first field only
    MsgV b(d);
    for (size_t i = 0; i < n; ++i) { auto dm = field_domain(d->f[i], d->f[i].kind == MSG ? -1 : 0); put_field(b, i, dm.back()); }
    if (n) f(b);
    return;
  }
  // every value of every single field
  std::vector<std::vector<FieldV>> small(n), full(n);
  for (size_t i = 0; i < n; ++i) {
    full[i] = field_domain(d->f[i], level);
    small[i] = field_domain(d->f[i], 0);
    if (small[i].size() > 4) { std::vector<FieldV> t = {small[i][0], small[i][1], small[i][2], small[i].back()}; small[i] = t; }
    for (auto& x : full[i]) { MsgV v(base); put_field(v, i, x); f(v); }
  }
  // everything set
  for (int j = 1; j < 5; ++j) { MsgV v(base); for (size_t i = 0; i < n; ++i) { auto& dm = level >= 1 && full[i].size() > 3 ? full[i] : small[i]; put_field(v, i, dm[(j + i) % dm.size()]); } f(v); }
  if (level == 0) return;
  // every pair of fields
  for (size_t i = 0; i < n; ++i) for (size_t j = i + 1; j < n; ++j) {
    if (d->f[i].oneof >= 0 && d->f[i].oneof == d->f[j].oneof) continue;
    if (n > 20 && level < 2 && j != i + 1) continue;
    size_t li = n > 20 ? std::min<size_t>(3, small[i].size()) : small[i].size(), lj = n > 20 ? std::min<size_t>(3, small[j].size()) : small[j].size();
    for (size_t a = 1; a < li; ++a) for (size_t b = 1; b < lj; ++b) { MsgV v(base); put_field(v, i, small[i][a]); put_field(v, j, small[j][b]); f(v); }
  }
  // the complete product for small messages
  double prod = 1;
  for (size_t i = 0; i < n; ++i) prod *= small[i].size();
  if (level >= 2 && prod <= 40000 && n > 1) {
    std::vector<size_t> ix(n, 0);
    while (true) {
      MsgV v(base); bool ok = true; std::vector<int> sel(d->oneofs.size(), 0);
      for (size_t i = 0; i < n; ++i) { if (d->f[i].oneof >= 0 && small[i][ix[i]].has && sel[d->f[i].oneof]++) { ok = false; break; } put_field(v, i, small[i][ix[i]]); }
      if (ok) f(v);
      size_t k = 0;
      while (k < n && ++ix[k] == small[k].size()) ix[k++] = 0;
      if (k == n) break;
    }
  }
}
std::vector<MsgV> values(const MsgD* d, int level) { std::vector<MsgV> o; for_values(d, level, [&](const MsgV& v) { for (auto& x : o) if (o.size() < 3000 && x == v) return; o.push_back(v); }); return o; }
