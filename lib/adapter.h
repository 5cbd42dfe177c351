// Glue between generated messages and IMsg. Only uses the public interface of the messages.
#ifndef VERIF_ADAPTER_H
#define VERIF_ADAPTER_H
#include "imsg.h"
#include <cstdlib>
#include <new>
#include <type_traits>
#include <utility>

template<class T> struct Bits;
template<> struct Bits<int32_t>  { static uint64_t to(int32_t v)  { return (uint32_t)v; } static int32_t from(uint64_t u) { return (int32_t)(uint32_t)u; } };
template<> struct Bits<uint32_t> { static uint64_t to(uint32_t v) { return v; } static uint32_t from(uint64_t u) { return (uint32_t)u; } };
template<> struct Bits<int64_t>  { static uint64_t to(int64_t v)  { return (uint64_t)v; } static int64_t from(uint64_t u) { return (int64_t)u; } };
template<> struct Bits<uint64_t> { static uint64_t to(uint64_t v) { return v; } static uint64_t from(uint64_t u) { return u; } };
template<> struct Bits<bool>     { static uint64_t to(bool v)     { unsigned char b; std::memcpy(&b, &v, 1); return b; } static bool from(uint64_t u) { return u != 0; } };
template<> struct Bits<float>    { static uint64_t to(float v)    { uint32_t b; std::memcpy(&b, &v, 4); return b; } static float from(uint64_t u) { uint32_t b = (uint32_t)u; float f; std::memcpy(&f, &b, 4); return f; } };
template<> struct Bits<double>   { static uint64_t to(double v)   { uint64_t b; std::memcpy(&b, &v, 8); return b; } static double from(uint64_t u) { double f; std::memcpy(&f, &u, 8); return f; } };
template<class T, bool E = std::is_enum<T>::value> struct BitsE : Bits<T> {};
template<class T> struct BitsE<T, true> { static uint64_t to(T v) { return (uint32_t)(static_cast<typename std::underlying_type<T>::type>(v)); } static T from(uint64_t u) { return static_cast<T>((typename std::underlying_type<T>::type)(uint32_t)u); } };
template<class T> inline uint64_t bits(const T& v) { return BitsE<T>::to(v); }
template<class T> inline T unbits(uint64_t u) { return BitsE<T>::from(u); }
template<class T> inline bool type_ok(Kind k) {
  switch (k) {
    case I32: case S32: case Y32: return std::is_same<T, int32_t>::value;
    case U32: case X32: return std::is_same<T, uint32_t>::value;
    case I64: case S64: case Y64: return std::is_same<T, int64_t>::value;
    case U64: case X64: return std::is_same<T, uint64_t>::value;
    case BOOL: return std::is_same<T, bool>::value;
    case FLT: return std::is_same<T, float>::value;
    case DBL: return std::is_same<T, double>::value;
    case ENUM: return std::is_enum<T>::value;
    default: return false;
  }
}
template<class T> struct Dec { typedef typename std::remove_cv<typename std::remove_reference<T>::type>::type type; };
#define DT(expr) typename Dec<decltype(expr)>::type

template<class S> inline void obs_bytes(const S& s, const void* direct, Val& o, const FieldD& fd, Chk& c) {
  typedef DT(s.get_const()[0]) C;
  uint32_t n = s.get_length();
  if (n > fd.cap || n > s.get_max_length()) { c.fail(std::string(fd.name) + ": length exceeds the capacity"); n = 0; }
  if (s.get_max_length() != fd.cap) c.fail(std::string(fd.name) + ": capacity differs from the declaration");
  const C* p = s.get_const();
  if (direct && direct != (const void*)p) c.fail(std::string(fd.name) + ": accessors disagree");
  o.s.assign((const char*)p, n);
  if (fd.kind == STR && n < fd.cap && p[n] != 0) c.fail(std::string(fd.name) + ": string not terminated");
  C x = (C)0x55;
  uint32_t probes[5] = {0, n ? n - 1 : 0, n, fd.cap, 0xFFFFFFFFu};
  for (int i = 0; i < 5; ++i) {
    uint32_t k = probes[i];
    x = (C)0x55;
    int e = (int)s.get_const(k, x);
    if (k < n) { if (e != 0 || x != p[k]) c.fail(std::string(fd.name) + ": get_const(index,value) wrong inside"); }
    else if (e != E_INDEX) c.fail(std::string(fd.name) + ": get_const(index,value) does not report out of bound");
    uint32_t lim = k < fd.cap - 1 ? k : fd.cap - 1;
    if (&s.get_const(k) != p + lim || &s[k] != p + lim) c.fail(std::string(fd.name) + ": get_const(index) not limited to the last element");
  }
}
template<class S> inline void put_bytes(S& s, const Val& v) {
  typedef DT(s.get_const()[0]) C;
  s.set((const C*)v.s.data(), (uint32_t)v.s.size());
}
template<class R> inline void obs_rep_common(const R& r, const FieldD& fd, Chk& c, uint32_t& n) {
  n = r.get_length();
  if (n > fd.repcap) { c.fail(std::string(fd.name) + ": number of elements exceeds the capacity"); n = 0; }
  if (r.get_max_length() != fd.repcap) c.fail(std::string(fd.name) + ": capacity differs from the declaration");
  typedef DT(r.get_const(0)) E;
  if (r.get_size() != sizeof(E) * n || r.get_max_size() != sizeof(E) * fd.repcap) c.fail(std::string(fd.name) + ": size in bytes wrong");
}
template<class R> inline void probe_rep_oob(const R& r, const FieldD& fd, uint32_t n, Chk& c) {
  typedef DT(r.get_const(0)) E;
  uint32_t probes[3] = {n, fd.repcap, 0xFFFFFFFFu};
  for (int i = 0; i < 3; ++i) {
    uint32_t k = probes[i];
    if (k < n) continue;
    E e;
    if ((int)r.get_const(k, e) != E_INDEX) c.fail(std::string(fd.name) + ": get_const(index,value) does not report out of bound");
    uint32_t lim = k < fd.repcap - 1 ? k : fd.repcap - 1;
    if (&r.get_const(k) != &r.get_const(lim) || &r[k] != &r.get_const(lim)) c.fail(std::string(fd.name) + ": get_const(index) not limited to the last element");
  }
}

// ---- observation
#define OBS_SCALAR(i, x) { \
  typedef DT(m.x()) T_; const FieldD& fd = v.d->f[i]; \
  if (!type_ok<T_>(fd.kind) || !std::is_same<T_, DT(m.get_##x())>::value) c.fail(#x ": C++ type"); \
  v.f[i].one.u = bits<T_>(m.get_##x()); \
  if (v.f[i].one.u != bits<T_>(m.x())) c.fail(#x ": accessors disagree"); }
#define OBS_STR(i, x)  { obs_bytes(m.get_##x(), m.x(), v.f[i].one, v.d->f[i], c); }
#define OBS_MSG(i, x, A)  { if (&m.get_##x() != &m.x()) c.fail(#x ": accessors disagree"); A::obs(m.get_##x(), *v.f[i].one.m, c); }
#define OBS_HAS(i, x)  v.f[i].has = m.has_##x();
#define OBS_ONEOF(i, x, o, X, BODY) { v.f[i].has = m.has_##x(); \
  if (v.f[i].has != (m.get_which_##o() == M::FieldNumber::X)) c.fail(#x ": has_ and get_which_ disagree"); \
  if (v.f[i].has) BODY }
#define OBS_RSCALAR(i, x) { const FieldD& fd = v.d->f[i]; uint32_t n; const auto& r = m.get_##x(); obs_rep_common(r, fd, c, n); \
  if (&r != &m.x()) c.fail(#x ": accessors disagree"); \
  typedef DT(r.get_const(0)) E_; typedef DT(r.get_const(0).get()) T_; \
  if (!type_ok<T_>(fd.kind)) c.fail(#x ": C++ type"); \
  v.f[i].rep.resize(n); \
  for (uint32_t k = 0; k < n; ++k) { v.f[i].rep[k].u = bits<T_>(r.get_const(k).get()); E_ e; \
    if (bits<T_>(m.x(k).get()) != v.f[i].rep[k].u || &r[k] != &r.get_const(k)) c.fail(#x ": accessors disagree"); \
    if ((int)r.get_const(k, e) != 0 || bits<T_>(e.get()) != v.f[i].rep[k].u) c.fail(#x ": get_const(index,value) wrong inside"); } \
  probe_rep_oob(r, fd, n, c); }
#define OBS_RSTR(i, x) { const FieldD& fd = v.d->f[i]; uint32_t n; const auto& r = m.get_##x(); obs_rep_common(r, fd, c, n); \
  if (&r != &m.x()) c.fail(#x ": accessors disagree"); \
  v.f[i].rep.resize(n); \
  for (uint32_t k = 0; k < n; ++k) { obs_bytes(r.get_const(k), m.x(k).get_const(), v.f[i].rep[k], fd, c); } \
  probe_rep_oob(r, fd, n, c); }
#define OBS_RMSG(i, x, A) { const FieldD& fd = v.d->f[i]; uint32_t n; const auto& r = m.get_##x(); obs_rep_common(r, fd, c, n); \
  if (&r != &m.x()) c.fail(#x ": accessors disagree"); \
  v.f[i].rep.resize(n); \
  for (uint32_t k = 0; k < n; ++k) { if (&m.x(k) != &r.get_const(k)) c.fail(#x ": accessors disagree"); \
    if (!v.f[i].rep[k].m) v.f[i].rep[k].m = std::make_shared<MsgV>(); v.f[i].rep[k].m->reset(fd.sub); A::obs(r.get_const(k), *v.f[i].rep[k].m, c); } \
  probe_rep_oob(r, fd, n, c); }

// ---- building a value; how 0: set_/add_, how 1: mutable_
#define SETV(x, val) { typedef DT(m.x()) T_; const T_ t_ = unbits<T_>((val).u); m.set_##x(t_); }
#define SETVM(x, val) { typedef DT(m.x()) T_; m.set_##x(unbits<T_>((val).u)); }
#define MUTV(x, val) { typedef DT(m.x()) T_; m.mutable_##x() = unbits<T_>((val).u); }
#define SETS(x, val) { DT(m.get_##x()) t_; put_bytes(t_, val); m.set_##x(t_); }
#define MUTS(x, val) { put_bytes(m.mutable_##x(), val); }
#define SETG(x, val, A) { DT(m.get_##x()) t_; A::put(t_, *(val).m, 0); m.set_##x(t_); }
#define SETGM(x, val, A) { DT(m.get_##x()) t_; A::put(t_, *(val).m, 1); m.set_##x(std::move(t_)); }
#define MUTG(x, val, A) { m.clear_##x(); A::put(m.mutable_##x(), *(val).m, 1); }
#define MUTGA(x, val, A) { DT(m.get_##x()) t_; A::put(t_, *(val).m, 0); m.mutable_##x() = t_; }

// conversion of a model value to an element of a repeated field
template<class E> inline void elem_scalar(E& e, const Val& v) { typedef DT(e.get()) T_; e = unbits<T_>(v.u); }

template<class M, class A> struct Impl : IMsg {
  void* mem; M* m;
  Impl() { alloc(); m = new (mem) M; }
  struct CopyTag {}; struct MoveTag {};
  Impl(CopyTag, const M& o) { alloc(); m = new (mem) M(o); }
  Impl(MoveTag, M& o) { alloc(); m = new (mem) M(std::move(o)); }
  void alloc() { AllocPause p; mem = malloc(sizeof(M)); std::memset(mem, 0xA5, sizeof(M)); }
  ~Impl() override { m->~M(); free(mem); }
  int ser(EmbeddedProto::WriteBufferInterface& b) const override { return (int)m->serialize(b); }
  int des(EmbeddedProto::ReadBufferInterface& b) override { return (int)m->deserialize(b); }
  uint32_t size() const override { return m->serialized_size(); }
  void clear() override { m->clear(); }
  void observe(MsgV& v, Chk& c) const override { A::obs(*m, v, c); }
  void put(const MsgV& v, int how) override { A::put(*m, v, how); }
  int op(const Op& o) override { return A::op(*m, o); }
  IMsg* copy_ctor() const override { return new Impl(CopyTag(), *m); }
  IMsg* move_ctor() override { return new Impl(MoveTag(), *m); }
  void assign(const IMsg& o) override { *m = *static_cast<const Impl&>(o).m; }
  void move_assign(IMsg& o) override { *m = std::move(*static_cast<Impl&>(o).m); }
  void self_assign() override { M& r = *m; *m = r; }
  std::string raw() const override { return std::string((const char*)mem, sizeof(M)); }
  void meta(const MsgD* d, Chk& c) const override { A::template meta<M>(d, c); }
  long to_string(char* buf, uint32_t n, char** rest, uint32_t* restn) const override {
#ifdef MSG_TO_STRING
    EmbeddedProto::string_view sv{buf, n};
    EmbeddedProto::string_view r = m->to_string(sv);
    *rest = r.data; *restn = r.size;
    return 0;
#else
    (void)buf; (void)n; (void)rest; (void)restn;
    return -1;
#endif
  }
};

#define META(x, X, i) \
  if ((uint32_t)M::FieldNumber::X != d->f[i].num) c.fail(#x ": field number differs from the declaration"); \
  { const char* n_ = M::X##_NAME; if (std::strcmp(n_, d->f[i].name) != 0) c.fail(#x ": name constant"); \
    const char* q_ = M::field_number_to_name(M::FieldNumber::X); if (!q_ || std::strcmp(q_, d->f[i].name) != 0) c.fail(#x ": field_number_to_name"); }

// ---- operations
#define OPS_SCALAR(x, HASMUT) case OP_SET: SETV(x, o.val) return 0; case OP_SETM: SETVM(x, o.val) return 0; case OP_CLEARF: m.clear_##x(); return 0; HASMUT
#define OPS_SCALAR_MUT(x) case OP_MUT: MUTV(x, o.val) return 0; case OP_TOUCH: (void)m.mutable_##x(); return 0;
#define OPS_STRING(x, STRONLY) case OP_SET: SETS(x, o.val) return 0; case OP_CLEARF: m.clear_##x(); return 0; \
  case OP_TOUCH: (void)m.mutable_##x(); return 0; \
  case OP_STRSET: { auto& s = m.mutable_##x(); typedef DT(s.get_const()[0]) C_; return (int)s.set((const C_*)o.val.s.data(), (uint32_t)o.val.s.size()); } \
  case OP_STRIDX: { auto& s = m.mutable_##x(); typedef DT(s.get_const()[0]) C_; s[o.idx] = (C_)o.val.u; return 0; } \
  case OP_STRASSIGN: { DT(m.get_##x()) t_; put_bytes(t_, o.val); m.mutable_##x() = t_; return 0; } \
  STRONLY
#define OPS_STRONLY(x) case OP_STRC: m.mutable_##x().set(o.val.s.c_str()); return 0; \
  case OP_STRNULL: m.mutable_##x().set((const char*)nullptr); return 0; \
  case OP_STRTMPL: { EmbeddedProto::FieldString<9> t_; put_bytes(t_, o.val); if (o.idx) { m.mutable_##x() = t_; return 0; } return (int)m.mutable_##x().set(t_); }
#define OPS_BYTONLY(x) \
  case OP_STRTMPL: { EmbeddedProto::FieldBytes<9> t_; put_bytes(t_, o.val); if (o.idx) { m.mutable_##x() = t_; return 0; } return (int)m.mutable_##x().set(t_); }
#define OPS_MSG(x, A) case OP_SET: SETG(x, o.val, A) return 0; case OP_SETM: SETGM(x, o.val, A) return 0; case OP_MUT: MUTGA(x, o.val, A) return 0; \
  case OP_TOUCH: (void)m.mutable_##x(); return 0; case OP_CLEARF: m.clear_##x(); return 0; case OP_NEST: return A::op(m.mutable_##x(), *o.next);
#define OPS_REP(x, ELEM) \
  case OP_CLEARF: m.clear_##x(); return 0; case OP_RCLEAR: m.mutable_##x().clear(); return 0; \
  case OP_ADD: { DT(m.x(0)) e_; ELEM(e_, o.val); m.add_##x(e_); return 0; } \
  case OP_ADDE: { DT(m.x(0)) e_; ELEM(e_, o.val); return (int)m.mutable_##x().add(e_); } \
  case OP_SETIDX: { DT(m.x(0)) e_; ELEM(e_, o.val); m.set_##x(o.idx, e_); return 0; } \
  case OP_SETIDXM: { DT(m.x(0)) e_; ELEM(e_, o.val); m.set_##x(o.idx, std::move(e_)); return 0; } \
  case OP_MUTIDX: { DT(m.x(0)) e_; ELEM(e_, o.val); m.mutable_##x(o.idx) = e_; return 0; } \
  case OP_RGET: { (void)m.mutable_##x().get(o.idx); return 0; } \
  case OP_SETREP: { DT(m.get_##x()) t_; for (size_t k_ = 0; k_ < o.vals.size(); ++k_) { DT(m.x(0)) e_; ELEM(e_, o.vals[k_]); t_.add(e_); } m.set_##x(t_); return 0; } \
  case OP_MUTREP: { DT(m.get_##x()) t_; for (size_t k_ = 0; k_ < o.vals.size(); ++k_) { DT(m.x(0)) e_; ELEM(e_, o.vals[k_]); t_.add(e_); } m.mutable_##x() = t_; return 0; } \
  case OP_SETDATA: { ++g_alloc_pause; std::vector<DT(m.x(0))> a_(o.vals.size() ? o.vals.size() : 1); --g_alloc_pause; for (size_t k_ = 0; k_ < o.vals.size(); ++k_) ELEM(a_[k_], o.vals[k_]); \
    return (int)m.mutable_##x().set_data(a_.data(), (uint32_t)o.vals.size()); }
// ---- arguments which are parts of the message itself
#define FROM_V o.val.u == ~0ull
#define FI_ (uint32_t)(o.val.u >> 8 & 255)
#define FJ_ (uint32_t)(o.val.u >> 16 & 255)
#define FN_ (uint32_t)(o.val.u >> 24 & 255)
#define FROM_ONE(g, x, y) case g: if (FROM_V) return 0; m.set_##x(m.get_##y()); return 0;
#define FROM_STR(g, x, y) case g: if (FROM_V) return 0; m.mutable_##x() = m.get_##y(); return 0;
#define FROM_ELEM(g, x, y) case g: if (FROM_V) return 0; m.set_##x(m.y(FJ_).get()); return 0;
#define FROM_RAW(g, x) case g: { if (FROM_V) return 0; auto& s = m.mutable_##x(); return (int)s.set(s.get_const() + FJ_, FN_); }
#define FROM_CSTR(g, x) case g: { if (FROM_V) return 0; switch (o.val.u & 255) { case 0: m.set_##x(m.get_##x()); return 0; case 1: { auto& s = m.mutable_##x(); return (int)s.set(s.get_const() + FJ_, FN_); } \
  case 2: m.mutable_##x().set(m.get_##x().get_const() + FJ_); return 0; case 3: m.mutable_##x() = m.get_##x().get_const() + FJ_; return 0; case 4: return (int)m.mutable_##x().set(m.get_##x()); default: m.mutable_##x() = m.get_##x(); return 0; } }
#define FROM_REP(g, x) case g: { if (FROM_V) return 0; auto& r = m.mutable_##x(); switch (o.val.u & 255) { \
  case 0: m.add_##x(m.x(FJ_)); return 0; case 1: return (int)r.add(r.get_const(FJ_)); case 2: m.set_##x(FI_, m.x(FJ_)); return 0; case 3: m.mutable_##x(FI_) = m.x(FJ_); return 0; \
  case 4: m.set_##x(m.get_##x()); return 0; case 5: return (int)r.set_data(&r.get_const(FJ_), FN_); case 6: r.set(FI_, r[FJ_]); return 0; default: r = m.get_##x(); return 0; } }
#define OPS_REPMSG(x, A) case OP_NESTI: return A::op(m.mutable_##x(o.idx), *o.next);
#endif
