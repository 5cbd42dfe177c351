// Menus of wire records: valid in all their encodings, unknown, malformed.
#include "harness.h"
#include <algorithm>

std::string tagb(uint32_t num, int wt, int pad) {
  std::string o; uint64_t t = (uint64_t)num << 3 | (unsigned)wt;
  if (pad) put_varint_padded(o, t, pad); else put_varint(o, t);
  return o;
}
std::string lenrec(uint32_t num, const std::string& c) { std::string o = tagb(num, WT_LEN); put_varint(o, c.size()); return o + c; }
static std::string lenrec_pad(uint32_t num, const std::string& c, int lp, int tp) {
  std::string o = tagb(num, WT_LEN, tp); if (lp) put_varint_padded(o, c.size(), lp); else put_varint(o, c.size()); return o + c;
}
uint32_t unknown_num(const MsgD* d, int taglen) {
  static const uint32_t lo[6] = {0, 1, 16, 2048, 262144, 33554432}, hi[6] = {0, 15, 2047, 262143, 33554431, 536870911};
  for (uint32_t n = hi[taglen]; n >= lo[taglen]; --n) if (!d->by_num(n)) return n;
  return 0;
}
// Encodings of one scalar value, first the shortest.
static std::vector<std::string> encodings(Kind k, uint64_t u, int level) {
  std::vector<std::string> o; std::string b;
  enc_scalar(b, k, u, false); o.push_back(b);
  if (wire_type(k) != WT_VARINT) return o;
  b.clear(); enc_scalar(b, k, u, true); if (b != o[0]) o.push_back(b);
  if (level < 1) return o;
  uint64_t p = varint_payload(k, u, true);
  for (int n = (int)b.size() + 1; n <= 10; ++n) if (level >= 2 || n == 10 || n == (int)b.size() + 1) { std::string q; put_varint_padded(q, p, n); o.push_back(q); }
  return o;
}
static std::vector<std::string> extra_payloads(Kind k) {  // varints with bits beyond the type: dropped by the standard
  std::vector<std::string> o; std::string b;
  auto A = [&](uint64_t v) { b.clear(); put_varint(b, v); o.push_back(b); };
  if (k == BOOL) { A(2); A(128); A(1ull << 32); A(1ull << 63); A(~0ull); }
  if (k == U32 || k == I32 || k == ENUM || k == S32) { A((1ull << 32) | 5); A((1ull << 63) | 7); A(1ull << 32); A(0xFFFFFFFF00000001ull); }
  return o;
}
static std::vector<std::string> sub_encodings(const MsgD* d, int level) {
  std::vector<std::string> o;
  auto A = [&](const std::string& s) { if (std::find(o.begin(), o.end(), s) == o.end()) o.push_back(s); };
  A("");
  if (level <= 0) {
    std::vector<MsgV> vs = values(d, -1);
    for (auto& v : vs) A(encode(v, true));
    return o;
  }
  std::vector<Rec> m = record_menu(d, level - 2 < 0 ? 0 : level - 2);
  for (auto& r : m) A(r.bytes);
  if (level >= 2) {
    std::vector<MsgV> vs = values(d, 0);
    for (auto& v : vs) A(encode(v, true));
    size_t lim = std::min<size_t>(m.size(), 6);
    for (size_t i = 0; i < lim; ++i) for (size_t j = 0; j < lim; ++j) A(m[i].bytes + m[m.size() - 1 - j].bytes);
  }
  return o;
}
std::vector<Rec> record_menu(const MsgD* d, int level) {
  std::vector<Rec> o;
  for (size_t i = 0; i < d->f.size(); ++i) {
    const FieldD& fd = d->f[i];
    auto A = [&](const std::string& b) { for (auto& r : o) if (r.field == (int)i && r.bytes == b) return; Rec r; r.bytes = b; r.field = (int)i; o.push_back(r); };
    int wt = wire_type(fd.kind), tl = (int)tagb(fd.num, wt).size();
    bool rep = fd.label == REP;
    if (packable(fd.kind)) {
      std::vector<Val> dm = domain(fd, std::min(level, 1));
      if (level == 0) { dm = {dm[0], dm[dm.size() - 1]}; }
      std::string t = tagb(fd.num, wt);
      if (rep) {
        std::vector<std::string> el;
        for (auto& v : dm) for (auto& e : encodings(fd.kind, v.u, level)) el.push_back(e);
        if (level >= 1) for (auto& e : extra_payloads(fd.kind)) el.push_back(e);
        A(lenrec(fd.num, el.back()));
        A(t + el.back());
        if (level >= 1) {
          A(lenrec(fd.num, ""));
          for (auto& e : el) { A(lenrec(fd.num, e)); A(t + e); }
          size_t q = std::min<size_t>(el.size(), level >= 2 ? 6 : 2);
          for (size_t a = 0; a < q; ++a) for (size_t b = 0; b < q; ++b) A(lenrec(fd.num, el[el.size() - 1 - a] + el[b]));
        } else A(lenrec(fd.num, el[0] + el.back()));
      } else {
        for (auto& v : dm) for (auto& e : encodings(fd.kind, v.u, level)) A(t + e);
        if (level >= 1) for (auto& e : extra_payloads(fd.kind)) A(t + e);
      }
      if (level >= 1) for (int p = tl + 1; p <= 5; ++p) { std::string e; enc_scalar(e, fd.kind, dm.back().u, true); A(tagb(fd.num, wt, p) + e); if (rep) A(lenrec_pad(fd.num, e, 0, p)); if (level < 2) break; }
      if (level >= 1 && rep) for (int p = 2; p <= 5; ++p) { std::string e; enc_scalar(e, fd.kind, dm.back().u, true); A(lenrec_pad(fd.num, e, p, 0)); if (level < 2) break; }
      continue;
    }
    std::vector<std::string> cs;
    if (fd.kind == MSG) cs = sub_encodings(fd.sub, level);
    else {
      std::vector<Val> dm = domain(fd, std::min(level, 1));
      if (level == 0 && dm.size() > 2) dm = {dm[0], dm.back()};
      for (auto& v : dm) cs.push_back(v.s);
    }
    for (auto& c : cs) A(lenrec(fd.num, c));
    if (level >= 1) {
      const std::string& c = cs.back();
      for (int p = tl + 1; p <= 5; ++p) { A(lenrec_pad(fd.num, c, 0, p)); if (level < 2) break; }
      for (int p = 2; p <= 5; ++p) { A(lenrec_pad(fd.num, c, p, 0)); if (level < 2) break; }
    }
  }
  return o;
}
std::vector<std::string> unknown_menu(const MsgD* d, int level) {
  std::vector<std::string> o;
  std::string inner;  // content that looks like fields of the message
  for (size_t i = 0; i < d->f.size() && i < 2; ++i) inner += tagb(d->f[i].num, wire_type(d->f[i].kind)) + std::string("\x01\x02", 2);
  for (int tl = 1; tl <= 5; ++tl) {
    uint32_t n = unknown_num(d, tl);
    if (!n) continue;
    bool f = level >= 2 || tl == 1 || (level >= 1 && tl == 2);
    auto V = [&](uint64_t v, int pad) { std::string b = tagb(n, WT_VARINT); if (pad) put_varint_padded(b, v, pad); else put_varint(b, v); o.push_back(b); };
    V(1, 0);
    if (f) { V(0, 0); V(300, 0); V(~0ull, 0); V(0, 10); if (level >= 2) for (int p = 2; p < 10; ++p) V(5, p); }
    { std::string b = tagb(n, WT_F32); b += std::string("\x08\x01\x12\xFF", 4); o.push_back(b); }
    { std::string b = tagb(n, WT_F64); b += std::string("\x08\x01\xFF\xFF\x80\x0A\x03\x0B", 8); o.push_back(b); }
    o.push_back(lenrec(n, ""));
    o.push_back(lenrec(n, inner));
    if (f) {
      o.push_back(lenrec(n, "\xFF"));
      o.push_back(lenrec_pad(n, "abc", 5, 0));
      for (size_t l : {(size_t)127, (size_t)128, (size_t)300}) if (level >= 1) o.push_back(lenrec(n, std::string(l, '\x08')));
      if (level >= 2) { o.push_back(lenrec(n, std::string(16384, '\xFF'))); o.push_back(lenrec(n, std::string(65536, '\x0A'))); }
      if (tl < 5) o.push_back(tagb(n, WT_VARINT, 5) + "\x01");
    }
  }
  if (!d->by_num(19000)) { std::string b = tagb(19000, WT_VARINT); b += '\x01'; o.push_back(b); }
  return o;
}
std::vector<std::string> bad_menu(const MsgD* d) {
  std::vector<std::string> o;
  std::vector<uint32_t> nums; for (auto& f : d->f) nums.push_back(f.num);
  for (int tl : {1, 2, 5}) { uint32_t n = unknown_num(d, tl); if (n) nums.push_back(n); }
  std::string fill = std::string("\x01\x02\x01\x00\x01\x01\x01\x01\x01", 9);
  nums.push_back(0);
  for (uint32_t n : nums) for (int wt = 0; wt < 8; ++wt) {
    const FieldD* f = d->by_num(n);
    bool okwt = n && wt != 3 && wt != 4 && wt < 6 && (!f || wt == wire_type(f->kind) || (f->label == REP && packable(f->kind) && wt == WT_LEN));
    if (!okwt) { o.push_back(tagb(n, wt)); o.push_back(tagb(n, wt) + fill); o.push_back(tagb(n, wt) + std::string("\0", 1));
      if (wt == 3) o.push_back(tagb(n, 3) + "\x08\x01" + tagb(n, 4)); }
    else if (wt == WT_VARINT) {
      std::string b = tagb(n, wt);
      for (int i = 10; i <= 12; ++i) { std::string x = b + std::string((size_t)i, '\xFF'); o.push_back(x + "\x01"); o.push_back(x); o.push_back(b + std::string((size_t)i, '\x80') + std::string(1, '\0')); }
    } else if (wt == WT_LEN) {
      std::string b = tagb(n, wt);
      o.push_back(b + std::string(5, '\x80') + std::string(1, '\0'));
      o.push_back(b + std::string(5, '\x80') + "\x01");
      o.push_back(b + std::string(9, '\x80') + "\x01");
      for (uint64_t l : {1ull, 2ull, 5ull, 127ull, 128ull, 0x7FFFFFFFull, 0x80000000ull, 0xFFFFFFF0ull, 0xFFFFFFFFull}) { std::string x = b; put_varint(x, l); o.push_back(x); if (l > 9) o.push_back(x + fill); }
    }
  }
  for (int n : {5, 6, 9, 10}) { o.push_back(std::string((size_t)n, '\x80') + "\x08"); o.push_back(std::string((size_t)n, '\x80')); o.push_back(std::string((size_t)n, '\xFF') + "\x01"); }
  return o;
}
std::vector<size_t> boundaries(const std::string& b) {
  std::vector<size_t> o; size_t p = 0;
  auto vi = [&]() { uint64_t v = 0; int s = 0; while (p < b.size()) { uint8_t c = (uint8_t)b[p++]; if (s < 64) v |= (uint64_t)(c & 0x7F) << s; s += 7; if (!(c & 0x80)) break; } return v; };
  o.push_back(0);
  while (p < b.size()) {
    int wt = (int)(vi() & 7);
    if (wt == WT_VARINT) vi(); else if (wt == WT_F32) p += 4; else if (wt == WT_F64) p += 8; else { uint64_t l = vi(); p += l; }
    o.push_back(p);
  }
  return o;
}
