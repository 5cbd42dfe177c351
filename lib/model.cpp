#include "model.h"
#include <cstdio>

Val::Val(const Val& o) : u(o.u), s(o.s), m(o.m ? std::make_shared<MsgV>(*o.m) : nullptr) {}
Val& Val::operator=(const Val& o) {
  if (this != &o) { u = o.u; s = o.s; m = o.m ? std::make_shared<MsgV>(*o.m) : nullptr; }
  return *this;
}
void MsgV::reset(const MsgD* dd) {
  d = dd;
  f.resize(dd->f.size());
  for (size_t i = 0; i < f.size(); ++i) clear_field(i);
}
void MsgV::clear_field(size_t i) {
  FieldV& x = f[i];
  x.has = false;
  x.one.u = 0;
  x.one.s.clear();
  x.rep.clear();
  const FieldD& fd = d->f[i];
  if (fd.kind == MSG && fd.label != REP) {
    if (!x.one.m) x.one.m = std::make_shared<MsgV>();
    x.one.m->reset(fd.sub);
  }
}
bool val_eq(const FieldD& fd, const Val& a, const Val& b) {
  if (fd.kind == MSG) return *a.m == *b.m;
  if (fd.kind == STR || fd.kind == BYT) return a.s == b.s;
  return a.u == b.u;
}
bool operator==(const MsgV& a, const MsgV& b) {
  if (a.d != b.d) return false;
  for (size_t i = 0; i < a.f.size(); ++i) {
    const FieldD& fd = a.d->f[i];
    const FieldV &x = a.f[i], &y = b.f[i];
    if (fd.label == REP) {
      if (x.rep.size() != y.rep.size()) return false;
      for (size_t k = 0; k < x.rep.size(); ++k) if (!val_eq(fd, x.rep[k], y.rep[k])) return false;
    } else {
      if ((fd.label == OPT || fd.label == ONE) && x.has != y.has) return false;
      if (fd.label == ONE && !x.has) continue;
      if (!val_eq(fd, x.one, y.one)) return false;
    }
  }
  return true;
}
std::string hex(const std::string& s) {
  static const char* H = "0123456789abcdef";
  std::string o;
  for (unsigned char c : s) { o += H[c >> 4]; o += H[c & 15]; }
  return o;
}
std::string unhex(const std::string& s) {
  std::string o;
  for (size_t i = 0; i + 1 < s.size(); i += 2) o += (char)strtoul(s.substr(i, 2).c_str(), nullptr, 16);
  return o;
}
std::string canon_val(const FieldD& fd, const Val& v) {
  if (fd.kind == MSG) return canon(*v.m);
  if (fd.kind == STR || fd.kind == BYT) return v.s.size() > 80 ? "x" + hex(v.s.substr(0, 40)) + "..len" + std::to_string(v.s.size()) : "x" + hex(v.s);
  return std::to_string(v.u);
}
std::string canon(const MsgV& v) {
  std::string o = "{";
  for (size_t i = 0; i < v.f.size(); ++i) {
    const FieldD& fd = v.d->f[i];
    const FieldV& x = v.f[i];
    if (fd.label == REP) {
      if (x.rep.empty()) continue;
      o += std::string(fd.name) + "=[";
      size_t n = x.rep.size() > 12 ? 12 : x.rep.size();
      for (size_t k = 0; k < n; ++k) o += (k ? "," : "") + canon_val(fd, x.rep[k]);
      if (n < x.rep.size()) o += ",..." + std::to_string(x.rep.size());
      o += "] ";
    } else {
      if (fd.label == ONE && !x.has) continue;
      std::string c = canon_val(fd, x.one);
      bool has = (fd.label == OPT || fd.label == ONE) && x.has;
      if (!has && (c == "0" || c == "x" || c == "{}")) continue;
      o += std::string(fd.name) + (has ? "!" : "") + "=" + c + " ";
    }
  }
  if (o.back() == ' ') o.pop_back();
  return o + "}";
}
void put_varint(std::string& o, uint64_t v) {
  while (v >= 0x80) { o += (char)(v | 0x80); v >>= 7; }
  o += (char)v;
}
void put_varint_padded(std::string& o, uint64_t v, int nbytes) {
  for (int i = 0; i + 1 < nbytes; ++i) { o += (char)((v & 0x7F) | 0x80); v >>= 7; }
  o += (char)(v & 0x7F);
}
void put_fixed(std::string& o, uint64_t v, int n) { for (int i = 0; i < n; ++i) o += (char)(v >> (8 * i)); }
int wire_type(Kind k) {
  switch (k) {
    case X32: case Y32: case FLT: return WT_F32;
    case X64: case Y64: case DBL: return WT_F64;
    case STR: case BYT: case MSG: return WT_LEN;
    default: return WT_VARINT;
  }
}
uint64_t varint_payload(Kind k, uint64_t u, bool neg10) {
  switch (k) {
    case I32: case ENUM: return neg10 ? (uint64_t)(int64_t)(int32_t)(uint32_t)u : (uint64_t)(uint32_t)u;
    case U32: return (uint32_t)u;
    case S32: { uint32_t x = (uint32_t)u; return (uint32_t)((x << 1) ^ (0u - (x >> 31))); }
    case S64: return (u << 1) ^ (0ull - (u >> 63));
    case BOOL: return u ? 1 : 0;
    default: return u;
  }
}
void enc_scalar(std::string& o, Kind k, uint64_t u, bool neg10) {
  switch (wire_type(k)) {
    case WT_F32: put_fixed(o, u, 4); break;
    case WT_F64: put_fixed(o, u, 8); break;
    default: put_varint(o, varint_payload(k, u, neg10));
  }
}
bool is_default(const FieldD& fd, const Val& v) {
  if (fd.kind == STR || fd.kind == BYT) return v.s.empty();
  return v.u == 0;
}
static void enc_field(std::string& o, const FieldD& fd, const FieldV& x, bool neg10) {
  if (fd.label == REP) {
    if (x.rep.empty()) return;
    if (packable(fd.kind)) {
      std::string b;
      for (const Val& v : x.rep) enc_scalar(b, fd.kind, v.u, neg10);
      put_varint(o, (uint64_t)fd.num << 3 | WT_LEN); put_varint(o, b.size()); o += b;
    } else {
      for (const Val& v : x.rep) {
        std::string b = fd.kind == MSG ? encode(*v.m, neg10) : v.s;
        put_varint(o, (uint64_t)fd.num << 3 | WT_LEN); put_varint(o, b.size()); o += b;
      }
    }
    return;
  }
  bool pres = fd.label == OPT || fd.label == ONE;
  if (pres && !x.has) return;
  if (packable(fd.kind)) {
    if (!pres && x.one.u == 0) return;
    put_varint(o, (uint64_t)fd.num << 3 | wire_type(fd.kind));
    enc_scalar(o, fd.kind, x.one.u, neg10);
  } else {
    std::string b = fd.kind == MSG ? encode(*x.one.m, neg10) : x.one.s;
    if (!pres && b.empty()) return;
    put_varint(o, (uint64_t)fd.num << 3 | WT_LEN); put_varint(o, b.size()); o += b;
  }
}
std::string encode(const MsgV& v, bool neg10) {
  std::string o;
  for (size_t i = 0; i < v.f.size(); ++i) if (v.d->f[i].label != ONE) enc_field(o, v.d->f[i], v.f[i], neg10);
  for (size_t k = 0; k < v.d->oneofs.size(); ++k)
    for (size_t i = 0; i < v.f.size(); ++i) if (v.d->f[i].oneof == (int)k) enc_field(o, v.d->f[i], v.f[i], neg10);
  return o;
}

// ---------------------------------------------------------------- decoder
static inline uint32_t bit(int e) { return 1u << e; }
static const uint32_t ANY = 0xFE;

// Returns 0 ok, else error code. maxb: maximum bytes. excess set when bits beyond `bits` are lost.
static int get_varint(const uint8_t*& p, const uint8_t* e, int maxb, int bits, uint64_t& v, bool& excess) {
  v = 0;
  for (int i = 0; i < maxb; ++i) {
    if (p == e) return E_END;
    uint8_t b = *p++;
    int sh = 7 * i;
    uint64_t part = b & 0x7F;
    if (sh < 64) v |= part << sh;
    if (sh + 7 > bits) { int keep = bits - sh; if (keep < 7 && (part >> (keep < 0 ? 0 : keep))) excess = true; }
    if (!(b & 0x80)) { if (bits == 32) v &= 0xFFFFFFFFull; return 0; }
  }
  return E_OVER;
}
static uint64_t from_varint(Kind k, uint64_t raw) {
  switch (k) {
    case I32: case U32: case ENUM: return (uint32_t)raw;
    case S32: { uint32_t x = (uint32_t)raw; return (uint32_t)((x >> 1) ^ (0u - (x & 1))); }
    case S64: return (raw >> 1) ^ (0ull - (raw & 1));
    case BOOL: return raw != 0;
    default: return raw;
  }
}
// Read one scalar of the kind.
static int get_scalar(const uint8_t*& p, const uint8_t* e, Kind k, uint64_t& u) {
  int wt = wire_type(k);
  if (wt == WT_VARINT) {
    bool ex = false; uint64_t raw;
    int r = get_varint(p, e, 10, 64, raw, ex);
    if (!r) u = from_varint(k, raw);
    return r;
  }
  int n = wt == WT_F32 ? 4 : 8;
  if (e - p < n) { p = e; return E_END; }
  u = 0;
  for (int i = 0; i < n; ++i) u |= (uint64_t)p[i] << (8 * i);
  p += n;
  return 0;
}
static void fail(DecRes& r, uint32_t mask) { r.ok = false; r.errs |= mask; }

DecRes decode(MsgV& v, const uint8_t* p, size_t n) {
  DecRes r;
  const uint8_t* e = p + n;
  while (p < e) {
    bool ex = false; uint64_t tag, len = 0;
    r.field = -1;
    int er = get_varint(p, e, 5, 32, tag, ex);
    if (er == E_END) { fail(r, ANY); return r; }       // cut off inside a tag
    if (er) { fail(r, bit(er)); return r; }
    if (ex) { r.unspec = true; return r; }
    uint32_t id = (uint32_t)tag >> 3; int wt = tag & 7;
    if (wt > 5) { r.google_differs = true; fail(r, bit(E_WT) | (id ? 0 : bit(E_ID))); return r; }
    if (id == 0) { fail(r, bit(E_ID) | (wt == WT_SG || wt == WT_EG ? bit(E_WT) : 0)); return r; }
    int fi = v.d->index_of(id);
    r.field = fi;
    if (wt == WT_SG || wt == WT_EG) { r.google_differs = true; fail(r, bit(E_WT)); return r; }
    if (fi < 0) {  // unknown
      ++r.depth_unknown;
      if (wt == WT_VARINT) { uint64_t raw; bool x2 = false; er = get_varint(p, e, 10, 64, raw, x2); if (er) { fail(r, bit(er)); return r; } }
      else if (wt == WT_F32) { if (e - p < 4) { fail(r, bit(E_END)); return r; } p += 4; }
      else if (wt == WT_F64) { if (e - p < 8) { fail(r, bit(E_END)); return r; } p += 8; }
      else {
        er = get_varint(p, e, 5, 32, len, ex);
        if (er) { fail(r, bit(er)); return r; }
        if (ex) { r.unspec = true; return r; }
        if (len > (uint64_t)(e - p)) { fail(r, bit(E_END)); return r; }
        p += len;
      }
      continue;
    }
    const FieldD& fd = v.d->f[fi];
    FieldV& fv = v.f[fi];
    int want = wire_type(fd.kind);
    bool rep = fd.label == REP;
    if (wt != want && !(rep && packable(fd.kind) && wt == WT_LEN)) {
      r.google_differs = true;
      fail(r, bit(E_WT));
      return r;
    }
    if (packable(fd.kind) && wt != WT_LEN) {
      uint64_t u;
      er = get_scalar(p, e, fd.kind, u);
      if (rep && fv.rep.size() >= fd.repcap) { r.cap = true; fail(r, bit(E_ARRAY) | (er ? bit(er) : 0)); return r; }
      if (er) { fail(r, bit(er)); return r; }
      if (rep) fv.rep.push_back(Val(u));
      else { v.select(fi); fv.one.u = u; }
      continue;
    }
    // length delimited
    er = get_varint(p, e, 5, 32, len, ex);
    if (er) {
      bool full = rep && !packable(fd.kind) && fv.rep.size() >= fd.repcap;
      if (full) r.cap = true;
      fail(r, bit(er) | (full ? bit(E_ARRAY) : 0));
      return r;
    }
    if (ex) { r.unspec = true; return r; }
    bool cut = len > (uint64_t)(e - p);
    size_t avail = cut ? (size_t)(e - p) : (size_t)len;
    if (packable(fd.kind)) {
      const uint8_t *q = p, *qe = p + avail;
      std::vector<Val> add;
      uint32_t mask = cut ? bit(E_END) : 0;
      bool bad = cut;
      while (q < qe) {
        uint64_t u;
        er = get_scalar(q, qe, fd.kind, u);
        if (er) { bad = true; mask |= bit(er); break; }
        if (fv.rep.size() + add.size() >= fd.repcap) { bad = true; r.cap = true; mask |= bit(E_ARRAY); }
        else add.push_back(Val(u));
      }
      if (bad) { fail(r, mask); return r; }
      for (size_t i = 0; i < add.size(); ++i) fv.rep.push_back(add[i]);
      p += len;
      continue;
    }
    if (fd.kind == STR || fd.kind == BYT) {
      uint32_t mask = cut ? bit(E_END) : 0;
      if (len > fd.cap) { r.cap = true; mask |= bit(E_ARRAY); }
      if (rep && fv.rep.size() >= fd.repcap) { r.cap = true; mask |= bit(E_ARRAY); }
      if (mask) { fail(r, mask); return r; }
      Val x; x.s.assign((const char*)p, (size_t)len);
      if (fd.kind == STR) for (char c : x.s) if ((unsigned char)c >= 0x80) r.nonascii = true;
      if (rep) fv.rep.push_back(std::move(x));
      else { v.select(fi); fv.one.s.swap(x.s); }
      p += len;
      continue;
    }
    // message
    uint32_t mask = cut ? bit(E_END) : 0;
    bool full = rep && fv.rep.size() >= fd.repcap;
    if (full) { r.cap = true; mask |= bit(E_ARRAY); }
    Val tmp; MsgV* target;
    bool merge_in_place = false;
    if (rep) { tmp.m = std::make_shared<MsgV>(fd.sub); target = tmp.m.get(); }
    else if (fd.label == ONE && !fv.has) { tmp.m = std::make_shared<MsgV>(fd.sub); target = tmp.m.get(); }
    else { target = fv.one.m.get(); merge_in_place = true; }
    DecRes in = decode(*target, p, avail);
    r.nonascii |= in.nonascii; r.google_differs |= in.google_differs; r.depth_unknown += in.depth_unknown;
    if (in.unspec) { r.unspec = true; return r; }
    if (!in.ok) { r.cap |= in.cap; fail(r, mask | in.errs); return r; }
    if (mask) { fail(r, mask); return r; }
    if (rep) fv.rep.push_back(std::move(tmp));
    else { v.select(fi); if (!merge_in_place) fv.one.m = tmp.m; }
    p += len;
  }
  return r;
}

bool oneofs_sane_after_error(const MsgV& obs, const MsgV& model, std::string& why) {
  for (size_t o = 0; o < obs.d->oneofs.size(); ++o) {
    int w = obs.which((int)o);
    if (w >= 0 && w != model.which((int)o)) {
      why = std::string("after the error oneof ") + obs.d->oneofs[o] + " of " + obs.d->name + " reports " + obs.d->f[w].name +
            " which was neither set nor validly decoded";
      return false;
    }
  }
  for (size_t i = 0; i < obs.f.size(); ++i) {
    const FieldD& fd = obs.d->f[i];
    if (fd.kind == MSG && (fd.label == IMPL || fd.label == OPT))
      if (!oneofs_sane_after_error(*obs.f[i].one.m, *model.f[i].one.m, why)) return false;
  }
  return true;
}
std::string err_mask_str(uint32_t m) {
  static const char* N[] = {"NO_ERRORS", "END_OF_BUFFER", "BUFFER_FULL", "INVALID_WIRETYPE", "ARRAY_FULL", "INVALID_FIELD_ID", "OVERLONG_VARINT", "INDEX_OUT_OF_BOUND"};
  std::string o;
  for (int i = 0; i < 8; ++i) if (m & (1u << i)) o += (o.empty() ? "" : "|") + std::string(N[i]);
  return o.empty() ? "none" : o;
}
