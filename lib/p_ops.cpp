// Explicit-state search over operation histories of messages. States are reached by replaying real operations on real
// objects; a state is identified by the raw bytes of the objects together with the reference model.
#include "harness.h"
#include <algorithm>
#include <unordered_set>

static std::string es(int e) { return e >= 0 && e < 8 ? err_mask_str(1u << e) : "code " + std::to_string(e); }
static std::string lim(const std::string& s) { return s.size() > 200 ? s.substr(0, 200) + "..." : s; }

// ------------------------------------------------------------------ reference semantics of the operations
// Returns a mask of the acceptable results. adopt: the resulting content is left open (failed decode).
static uint32_t apply(MsgV& m, const Op& o, bool& adopt, DecRes* dr);
static void grow(FieldV& fv, const FieldD& fd, uint32_t idx) {
  while (fv.rep.size() <= idx) { Val v; if (fd.kind == MSG) v.m = std::make_shared<MsgV>(fd.sub); fv.rep.push_back(v); }
}
static uint32_t apply_field(MsgV& m, const Op& o, bool& adopt, DecRes* dr) {
  const FieldD& fd = m.d->f[(size_t)o.f]; FieldV& fv = m.f[(size_t)o.f]; size_t f = (size_t)o.f;
  const uint32_t OK = 1u << E_OK, FULL = 1u << E_ARRAY;
  auto put = [&](Val& dst, const Val& v) { dst = v; };
  switch (o.k) {
    case OP_SET: case OP_SETM: case OP_MUT: m.select(f); put(fv.one, o.val); return OK;
    case OP_TOUCH: m.select(f); return OK;
    case OP_CLEARF: case OP_RCLEAR: if (fd.label == ONE && !fv.has) return OK; m.clear_field(f); return OK;
    case OP_STRSET: m.select(f); if (o.val.s.size() > fd.cap) return FULL; fv.one.s = o.val.s; return OK;
    case OP_STRC: m.select(f); fv.one.s = std::string(o.val.s.c_str()).substr(0, fd.cap); return OK;
    case OP_STRNULL: m.select(f); fv.one.s.clear(); return OK;
    case OP_STRIDX: { m.select(f); uint32_t i = std::min(o.idx, fd.cap - 1); if (fv.one.s.size() <= i) fv.one.s.resize(i + 1, '\0'); fv.one.s[i] = (char)o.val.u; return OK; }
    case OP_STRASSIGN: m.select(f); fv.one.s = o.val.s; return OK;
    case OP_STRTMPL: m.select(f); if (o.val.s.size() > fd.cap) return o.idx ? OK : FULL; fv.one.s = o.val.s; return OK;
    case OP_ADD: if (fv.rep.size() < fd.repcap) fv.rep.push_back(o.val); return OK;
    case OP_ADDE: if (fv.rep.size() < fd.repcap) { fv.rep.push_back(o.val); return OK; } return FULL;
    case OP_SETIDX: case OP_SETIDXM: case OP_MUTIDX: { uint32_t i = std::min(o.idx, fd.repcap - 1); grow(fv, fd, i); fv.rep[i] = o.val; return OK; }
    case OP_RGET: grow(fv, fd, std::min(o.idx, fd.repcap - 1)); return OK;
    case OP_SETREP: case OP_MUTREP: fv.rep = o.vals; return OK;
    case OP_SETDATA: if (o.vals.size() > fd.repcap) return FULL; fv.rep = o.vals; return OK;
    case OP_FROM: {
      size_t g = o.idx; uint32_t v = o.val.u & 255, i = o.val.u >> 8 & 255, j = o.val.u >> 16 & 255, n = o.val.u >> 24 & 255; const FieldD& gd = m.d->f[g];
      Op p; p.f = o.f;
      if (fd.label == REP) {
        std::vector<Val> cp = fv.rep; p.idx = i;
        switch (v) {
          case 0: p.k = OP_ADD; p.val = cp[j]; break;
          case 1: p.k = OP_ADDE; p.val = cp[j]; break;
          case 2: case 3: case 6: p.k = OP_SETIDX; p.val = cp[j]; break;
          case 5: p.k = OP_SETDATA; p.vals.assign(cp.begin() + j, cp.begin() + j + n); break;
          default: return OK;
        }
      } else if (gd.label == REP) { p.k = OP_SET; p.val = m.f[g].rep[j]; }
      else if (g == f && (fd.kind == STR || fd.kind == BYT)) {
        std::string s = fv.one.s;
        if (fd.kind == BYT || v == 1) { p.k = OP_STRSET; p.val.s = s.substr(j, n); }
        else if (v == 2 || v == 3) { p.k = OP_STRC; p.val.s = s.substr(j); }
        else { p.k = OP_STRASSIGN; p.val.s = s; }
      } else { p.val = m.f[g].one; p.k = fd.kind == STR || fd.kind == BYT ? OP_STRTMPL : OP_SET; p.idx = 1; }
      return apply_field(m, p, adopt, dr); }
    case OP_NEST: m.select(f); return apply(*fv.one.m, *o.next, adopt, dr);
    case OP_NESTI: { uint32_t i = std::min(o.idx, fd.repcap - 1); grow(fv, fd, i); return apply(*fv.rep[i].m, *o.next, adopt, dr); }
  }
  fprintf(stderr, "unknown op\n"); exit(3);
}
static uint32_t apply(MsgV& m, const Op& o, bool& adopt, DecRes* dr) {
  switch (o.k) {
    case OP_CLEARALL: m.reset(m.d); return 1;
    case OP_COPYCTOR: case OP_MOVECTOR: case OP_SELF: case OP_SERIALIZE: return 1;
    case OP_ASSIGN: case OP_MOVE: if (o.idx == 0) m = *o.mv; return 1;
    case OP_DECODE: { DecRes r = decode(m, o.bytes); *dr = r; if (r.ok && !r.unspec) return 1; adopt = true; return r.unspec ? ~0u : r.errs; }
    default: return apply_field(m, o, adopt, dr);
  }
}

// An operation which takes its argument from the message itself needs the source to exist.
static bool enabled(const MsgV& m, const Op& o) {
  if (o.k == OP_NEST) { const FieldV& fv = m.f[(size_t)o.f]; if (m.d->f[(size_t)o.f].label == ONE && !fv.has) { MsgV e(m.d->f[(size_t)o.f].sub); return enabled(e, *o.next); } return enabled(*fv.one.m, *o.next); }
  if (o.k == OP_NESTI) { const FieldD& fd = m.d->f[(size_t)o.f]; const FieldV& fv = m.f[(size_t)o.f]; uint32_t i = std::min(o.idx, fd.repcap - 1); if (i >= fv.rep.size()) { MsgV e(fd.sub); return enabled(e, *o.next); } return enabled(*fv.rep[i].m, *o.next); }
  if (o.k != OP_FROM) return true;
  size_t g = o.idx; uint32_t v = o.val.u & 255, j = o.val.u >> 16 & 255, n = o.val.u >> 24 & 255; const FieldD& gd = m.d->f[g]; const FieldV& gv = m.f[g];
  if (gd.label == REP) return v == 4 || v == 7 ? true : v == 5 ? j + n <= gv.rep.size() && n > 0 : j < gv.rep.size();
  if (gd.label == ONE && !gv.has) return false;
  if (o.f == (int)g && (gd.kind == STR || gd.kind == BYT)) {
    if (gd.kind == BYT || v == 1) return j + n <= gv.one.s.size();
    if (v == 2 || v == 3) return gv.one.s.size() < gd.cap && j <= gv.one.s.size();   // there is no terminator in a string which fills its capacity
  }
  return true;
}
// ------------------------------------------------------------------ one or two real objects
struct World {
  const Instance* i; PM o[2]; int n;
  World(const Instance* inst, int nn) : i(inst), n(nn) { for (int k = 0; k < n; ++k) o[k].reset(i->make()); }
  int run(const Op& op, int t) {
    switch (op.k) {
      case OP_CLEARALL: o[t]->clear(); return 0;
      case OP_SERIALIZE: { serialize_ok(*o[t]); (void)o[t]->size(); return 0; }
      case OP_SELF: o[t]->self_assign(); return 0;
      case OP_DECODE: return des_fixed(*o[t], op.bytes);
      case OP_COPYCTOR: {
        if (n == 2) { IMsg* c = o[1 - t]->copy_ctor(); o[t].reset(c); return 0; }
        IMsg* c = o[0]->copy_ctor(); o[0].reset(c); return 0; }
      case OP_MOVECTOR: {
        if (n == 2) { IMsg* c = o[1 - t]->move_ctor(); o[t].reset(c); o[1 - t]->clear(); return 0; }
        IMsg* c = o[0]->move_ctor(); o[0].reset(c); return 0; }
      case OP_ASSIGN: case OP_MOVE: {
        if (n == 2) { if (op.k == OP_ASSIGN) o[t]->assign(*o[1 - t]); else { o[t]->move_assign(*o[1 - t]); o[1 - t]->clear(); } return 0; }
        PM tmp(i->make()); tmp->put(*op.mv, 0);
        if (op.idx) { if (op.k == OP_ASSIGN) tmp->assign(*o[0]); else tmp->move_assign(*o[0]); o[0].swap(tmp); }
        else { if (op.k == OP_ASSIGN) o[0]->assign(*tmp); else o[0]->move_assign(*tmp); }
        return 0; }
      default: return o[t]->op(op);
    }
  }
  std::string raw() const { std::string r = o[0]->raw(); if (n == 2) r += o[1]->raw(); return r; }
};
struct TOp { Op op; int t; };
// The effect on the models of all objects
static uint32_t mapply(std::vector<MsgV>& m, const TOp& x, bool& adopt, DecRes* dr) {
  if (m.size() == 2) {
    int t = x.t;
    switch (x.op.k) {
      case OP_COPYCTOR: case OP_ASSIGN: m[(size_t)t] = m[(size_t)(1 - t)]; return 1;
      case OP_MOVECTOR: case OP_MOVE: m[(size_t)t] = m[(size_t)(1 - t)]; m[(size_t)(1 - t)].reset(m[0].d); return 1;
      default: break;
    }
  }
  return apply(m[(size_t)x.t], x.op, adopt, dr);
}

static void compare(const World& w, const std::vector<MsgV>& m) {
  static std::map<const MsgD*, std::vector<MsgV>> cache;
  for (int k = 0; k < w.n; ++k) {
    auto& c = cache[w.i->d]; if (c.empty()) c.push_back(MsgV(w.i->d));
    observe_into(*w.o[k], w.i->d, c[0]);
    if (!(c[0] == m[(size_t)k])) violation(std::string(w.n == 2 ? (k ? "second message: " : "first message: ") : "") + first_diff(c[0], m[(size_t)k]));
  }
}
static void after_failed_decode(const MsgV& obs, const MsgV& before, const MsgV& partial, const DecRes& r) {
  if (r.unspec) return;
  std::string why;
  VCHECK(oneofs_sane_after_error(obs, partial, why) , why);
  for (size_t f = 0; f < obs.f.size(); ++f) {
    const FieldD& fd = obs.d->f[f];
    if (fd.label != OPT || (int)f == r.field) continue;
    if (obs.f[f].has != before.f[f].has && obs.f[f].has != partial.f[f].has) violation(std::string("a failed decode changed the presence of ") + fd.name + " which it did not receive");
  }
}

struct Node { int parent; int op; int depth; std::vector<MsgV> m; };

// Breadth first from the state after `start`.
static void bfs(const Instance* i, const char* name, const std::vector<TOp>& al, int nobj, const std::vector<TOp>& start, int depth, size_t max_states) {
  cur = Cur(); cur.inst = i; cur.phase = name;
  std::vector<const Op*> hist; cur.ops = &hist;
  uint64_t salt = h64(name, strlen(name), h64(i->name, strlen(i->name)));
  std::vector<Node> nodes; std::unordered_set<uint64_t> seen;
  auto key = [&](const World& w, const std::vector<MsgV>& m) { uint64_t h = h64(w.raw(), salt); for (auto& x : m) h = h64(canon(x), h); return h; };
  auto step = [&](World& w, std::vector<MsgV>& m, const TOp& x) {
    bool adopt = false; DecRes r; std::vector<MsgV> before; if (x.op.k == OP_DECODE) before = m;
    uint32_t mask = mapply(m, x, adopt, &r);
    int e = w.run(x.op, x.t);
    ++cx.transitions;
    if (!(r.unspec && adopt)) {
      VCHECK(e >= 0 && e < 8 && (mask & (1u << e)), op_str(x.op, i->d) + " gives " + es(e) + ", expected " + err_mask_str(mask));
    }
    if (adopt) { MsgV o = observe(*w.o[x.t], i->d); after_failed_decode(o, before[(size_t)x.t], m[(size_t)x.t], r); m[(size_t)x.t] = o; }
    compare(w, m);
  };
  auto newstate = [&](World& w, const std::vector<MsgV>& m) {
    // the wire carries exactly this state
    for (int k = 0; k < w.n; ++k) {
      std::string b = serialize_ok(*w.o[k]);
      VCHECK(w.o[k]->size() == b.size(), "reported size differs from what is written");
      MsgV d(i->d); DecRes r = decode(d, b);
      VCHECK(r.ok && d == m[(size_t)k], "the serialized message carries " + first_diff(d, m[(size_t)k]));
    }
  };
  {
    World w(i, nobj); std::vector<MsgV> m((size_t)nobj, MsgV(i->d));
    compare(w, m);
    for (auto& s : start) { if (!enabled(m[(size_t)s.t], s.op)) return; hist.push_back(&s.op); step(w, m, s); }
    newstate(w, m);
    Node n; n.parent = -1; n.op = -1; n.depth = 0; n.m = m; nodes.push_back(n);
    uint64_t k = key(w, m); seen.insert(k); cx.note(k);
  }
  bool capped = false; int full_depth = depth;
  for (size_t q = 0; q < nodes.size(); ++q) {
    if (nodes[q].depth >= depth) break;
    if (nodes.size() >= max_states) { capped = true; full_depth = std::min(full_depth, nodes[q].depth); break; }
    std::vector<int> path; for (int p = (int)q; nodes[(size_t)p].parent >= 0; p = nodes[(size_t)p].parent) path.push_back(nodes[(size_t)p].op);
    for (size_t a = 0; a < al.size(); ++a) {
      if ((++cx.evals & 63) == 0) tick();
      if (!enabled(nodes[q].m[(size_t)al[a].t], al[a].op)) continue;
      World w(i, nobj);
      hist.clear();
      for (auto& s : start) { hist.push_back(&s.op); w.run(s.op, s.t); }
      for (size_t k = path.size(); k-- > 0;) { hist.push_back(&al[(size_t)path[k]].op); w.run(al[(size_t)path[k]].op, al[(size_t)path[k]].t); }
      std::vector<MsgV> m = nodes[q].m;
      hist.push_back(&al[a].op);
      cur.a = al[a].t;
      step(w, m, al[a]);
      ++cx.traces;
      uint64_t k = key(w, m);
      if (seen.insert(k).second) {
        cx.note(k); newstate(w, m);
        if (nodes[q].depth + 1 < depth || nodes.size() < 64) { Node n; n.parent = (int)q; n.op = (int)a; n.depth = nodes[q].depth + 1; n.m = std::move(m); nodes.push_back(std::move(n)); }
        if (cx.samples.size() < 6 && hist.size() >= 3 && (seen.size() % 211) == 7) { std::string s = std::string(i->d->name) + ": "; for (auto* o : hist) s += op_str(*o, i->d) + "; "; cx.sample(lim(s)); }
      }
    }
  }
  cx.states += seen.size();
  cx.stats["searches"]++; if (capped) cx.stats["searches_capped"]++;
  std::string dk = std::string("complete_depth_") + std::to_string(full_depth + (int)start.size()); cx.stats[dk]++;
  cur.ops = nullptr;
}

// ------------------------------------------------------------------ alphabets
static Val nonzero(const FieldD& fd, int which) {
  std::vector<Val> dm = domain(fd, 1);
  return dm[(size_t)(which == 0 ? 1 : which == 1 ? dm.size() - 1 : dm.size() / 2)];
}
static Val strv(const std::string& s) { Val v; v.s = s; return v; }
static Val msgv(const MsgD* d, int k) { std::vector<MsgV> vs = values(d, -1); Val v; v.m = std::make_shared<MsgV>(k == 0 ? MsgV(d) : vs.back()); return v; }
static Val elemv(const FieldD& fd, int k) { return fd.kind == MSG ? msgv(fd.sub, k) : k == 0 ? domain(fd, 0)[0] : nonzero(fd, k - 1); }
enum { R_MIN = 0, R_MED = 1, R_FULL = 2 };
static bool supported(const Instance* i, const Op& o) {
  if (o.k >= OP_CLEARALL) return true;
  PM m(i->make());
  return m->op(o) != NOTSUP;
}
static void fops(const Instance* inst, const MsgD* d, size_t f, int rich, std::vector<Op>& out, const std::function<Op(const Op&)>& wrap) {
  const FieldD& fd = d->f[f];
  auto P = [&](int k, const Val& v = Val(), uint32_t idx = 0, const std::vector<Val>& vals = {}) { Op o; o.k = k; o.f = (int)f; o.val = v; o.idx = idx; o.vals = vals; Op w = wrap(o); if (supported(inst, w)) out.push_back(w); };
  if (fd.label == REP) {
    Val z = elemv(fd, 0), a = elemv(fd, 1), b = elemv(fd, 2); uint32_t c = fd.repcap;
    P(OP_ADD, a);
    P(OP_CLEARF);
    if (rich >= R_MED) { P(OP_ADDE, b); P(OP_SETIDX, a, c - 1); P(OP_SETREP, Val(), 0, {b}); P(OP_RGET, Val(), 0); P(OP_SETDATA, Val(), 0, {}); }
    if (rich >= R_FULL) {
      P(OP_ADD, z); P(OP_SETIDX, b, 0); P(OP_SETIDX, b, c); P(OP_SETIDXM, a, 1); P(OP_MUTIDX, a, 0); P(OP_MUTIDX, b, 0xFFFFFFFFu); P(OP_RGET, Val(), c - 1); P(OP_RCLEAR);
      std::vector<Val> full(c, a), over(c + 1, b); P(OP_SETDATA, Val(), 0, full); P(OP_SETDATA, Val(), 0, over); P(OP_SETDATA, Val(), 0, {b});
      P(OP_SETREP, Val(), 0, full); P(OP_MUTREP, Val(), 0, {}); P(OP_MUTREP, Val(), 0, {a, b}); 
    }
    if (fd.kind == MSG && rich >= R_MED && fd.sub->f.size()) {
      std::vector<Op> sub; fops(inst, fd.sub, 0, R_MIN, sub, [&](const Op& n) { Op o; o.k = OP_NESTI; o.f = (int)f; o.idx = 0; o.next = std::make_shared<Op>(n); return wrap(o); });
      for (auto& s : sub) out.push_back(s);
    }
    return;
  }
  if (fd.kind == MSG) {
    P(OP_SET, msgv(fd.sub, 1)); P(OP_CLEARF); P(OP_TOUCH);
    if (rich >= R_MED) { P(OP_SET, msgv(fd.sub, 0)); P(OP_MUT, msgv(fd.sub, 1)); P(OP_SETM, msgv(fd.sub, 1)); }
    std::vector<Op> sub;
    for (size_t k = 0; k < fd.sub->f.size(); ++k) if (rich >= R_FULL || k < (rich ? 2u : 1u)) fops(inst, fd.sub, k, rich >= R_FULL ? R_MED : R_MIN, sub, [&](const Op& n) { Op o; o.k = OP_NEST; o.f = (int)f; o.next = std::make_shared<Op>(n); return wrap(o); });
    Op ca; ca.k = OP_CLEARALL; { Op o; o.k = OP_NEST; o.f = (int)f; o.next = std::make_shared<Op>(ca); if (rich >= R_MED) sub.push_back(wrap(o)); }
    for (auto& s : sub) out.push_back(s);
    return;
  }
  if (fd.kind == STR || fd.kind == BYT) {
    P(OP_SET, strv(std::string(fd.cap, 'w'))); P(OP_CLEARF); P(OP_TOUCH);
    if (rich >= R_MED) { P(OP_STRSET, strv("a")); P(OP_SET, strv("")); P(OP_STRIDX, Val('k'), fd.cap - 1); P(OP_STRC, strv(std::string(fd.cap + 3, 'L'))); }
    if (rich >= R_FULL) {
      P(OP_STRSET, strv(std::string(fd.cap + 1, 'o'))); P(OP_STRSET, strv(std::string(1, '\0'))); P(OP_STRSET, strv("")); P(OP_STRC, strv("c")); P(OP_STRC, strv(std::string(fd.cap, 'e'))); P(OP_STRNULL); P(OP_STRIDX, Val('i'), 0); P(OP_STRIDX, Val('j'), 0xFFFFFFFFu); P(OP_STRIDX, Val('g'), fd.cap);
      P(OP_STRASSIGN, strv("s")); P(OP_STRTMPL, strv("t"), 0); P(OP_STRTMPL, strv("123456789"), 0); P(OP_STRTMPL, strv("123456789"), 1); P(OP_STRTMPL, strv("u"), 1);
    }
    return;
  }
  P(OP_SET, nonzero(fd, 0)); P(OP_CLEARF);
  if (rich >= R_MED) { P(OP_SET, Val(0)); P(OP_TOUCH); P(OP_MUT, nonzero(fd, 1)); }
  if (rich >= R_FULL) { P(OP_SETM, nonzero(fd, 2)); P(OP_MUT, Val(0)); }
}
static Op dec(const std::string& b) { Op o; o.k = OP_DECODE; o.bytes = b; return o; }
static void dops(const MsgD* d, size_t f, int rich, std::vector<Op>& out) {  // decoding records of one field
  std::vector<Rec> m = record_menu(d, rich >= R_FULL ? 1 : 0); std::vector<std::string> b;
  for (auto& r : m) if (r.field == (int)f) b.push_back(r.bytes);
  size_t n = rich == R_MIN ? 1 : rich == R_MED ? 2 : 8;
  for (size_t k = 0; k < b.size() && k < n; ++k) out.push_back(dec(b[b.size() - 1 - k]));
  if (rich >= R_MED) { const std::string& l = b.back(); if (l.size() > 1) out.push_back(dec(l.substr(0, l.size() - 1))); out.push_back(dec(tagb(d->f[f].num, wire_type(d->f[f].kind)))); }
  if (rich >= R_FULL) out.push_back(dec(tagb(d->f[f].num, 3)));
}
static void wops(const MsgD* d, int nobj, int rich, std::vector<Op>& out) {
  auto P = [&](int k) { Op o; o.k = k; out.push_back(o); };
  P(OP_CLEARALL); P(OP_COPYCTOR);
  if (rich >= R_MED) { P(OP_SELF); P(OP_MOVECTOR); }
  if (nobj == 2) { P(OP_ASSIGN); P(OP_MOVE); if (rich < R_MED) { P(OP_SELF); P(OP_MOVECTOR); } return; }
  MsgV full(d); for_values(d, -1, [&](const MsgV& v) { full = v; });
  for (int k : {OP_ASSIGN, OP_MOVE}) for (uint32_t dir = 0; dir < 2; ++dir) for (int e = 0; e < 2; ++e) {
    if (rich < R_MED && (k == OP_MOVE || e)) continue;
    Op o; o.k = k; o.idx = dir; o.mv = std::make_shared<MsgV>(e ? MsgV(d) : full); out.push_back(o);
  }
}
static Op same(const Op& o) { return o; }
static std::vector<TOp> tops(const std::vector<Op>& v, int nobj) { std::vector<TOp> o; for (int t = 0; t < nobj; ++t) for (auto& x : v) { TOp y; y.op = x; y.t = t; o.push_back(y); } return o; }

// Every operation of every field, every decode and whole-message operation, for other explorations.
std::vector<Op> all_ops(const Instance* i, bool rich) {
  std::vector<Op> ops;
  for (size_t f = 0; f < i->d->f.size(); ++f) { fops(i, i->d, f, rich ? R_FULL : R_MED, ops, same); dops(i->d, f, rich ? R_FULL : R_MED, ops); }
  wops(i->d, 1, R_MED, ops);
  return ops;
}
// Split a search over its first operation, one case each.
static void search(const Instance* i, const char* name, const std::vector<Op>& ops, int nobj, int depth, size_t max_states, int presets = 1) {
  cx.section = name;
  if (cx.lite) { depth = std::min(depth, 2); max_states = 300; presets = 1; }
  std::vector<TOp> al = tops(ops, nobj);
  cx.stats["operations_" + std::string(i->name) + "_" + name] = al.size();
  MsgV full(i->d); for_values(i->d, -1, [&](const MsgV& v) { full = v; });
  for (int p = 0; p < presets; ++p) for (auto& a : al) {
    if (!cx.want()) continue;
    std::vector<TOp> st;
    if (p) { TOp x; x.op = dec(encode(full, true)); x.t = 0; st.push_back(x); }
    st.push_back(a);
    bfs(i, name, al, nobj, st, depth - 1, max_states);
  }
}

// ------------------------------------------------------------------ C09 oneofs
void run_C09() {
  bool T = cx.thorough;
  for (const Instance* i : insts({"One"})) {
    { std::vector<Op> ops; for (size_t f = 0; f < i->d->f.size(); ++f) if (i->d->f[f].label == ONE) { fops(i, i->d, f, R_MIN, ops, same); dops(i->d, f, R_MIN, ops); }
      wops(i->d, 1, R_MIN, ops); search(i, "all members", ops, 1, T ? 4 : 3, T ? 60000 : 20000); }
    // groups of members of different kinds, all operations
    std::vector<std::vector<const char*>> groups = {{"a_i32", "a_str", "a_msg"}, {"a_u64", "a_byt", "b_bool"}, {"a_dbl", "a_en", "b_str"}, {"a_s32", "a_s64", "b_msg"}, {"a_bool", "a_flt", "a_str"}, {"a_x32", "a_x64", "a_msg"}, {"a_y32", "a_y64", "a_enn"}, {"a_i64", "a_u32", "mid"}, {"a_msg", "b_msg", "pre"}};
    for (auto& g : groups) { std::vector<Op> ops; for (size_t f = 0; f < i->d->f.size(); ++f) for (auto* n : g) if (!strcmp(n, i->d->f[f].name)) { fops(i, i->d, f, R_FULL, ops, same); dops(i->d, f, R_MED, ops); }
      wops(i->d, 1, R_MED, ops); search(i, (std::string("members ") + g[0] + " " + g[1] + " " + g[2]).c_str(), ops, 1, T ? 4 : 3, T ? 30000 : 4000, 1); }
  }
  for (const Instance* i : insts({"MiniA", "MiniB", "MiniC", "MiniD", "T1", "C4", "WithEmpty", "NumO", "Ones"})) {
    std::vector<Op> ops; bool all = i->d->f.size() <= 12;
    for (size_t f = 0; f < i->d->f.size(); ++f) { bool one = i->d->f[f].label == ONE; if (!one && !all) continue; fops(i, i->d, f, one ? R_MED : R_MIN, ops, same); dops(i->d, f, one ? R_MED : R_MIN, ops); }
    wops(i->d, 1, R_MED, ops); search(i, "message with oneof", ops, 1, i->d->f.size() > 20 ? (T ? 3 : 2) : T ? 4 : 3, T ? 30000 : 5000, 2);
  }
}
// ------------------------------------------------------------------ C10 presence
void run_C10() {
  bool T = cx.thorough;
  for (const Instance* i : insts({"Opt"})) {
    std::vector<Op> ops; for (size_t f = 0; f < i->d->f.size(); ++f) { fops(i, i->d, f, R_MIN, ops, same); dops(i->d, f, R_MIN, ops); }
    wops(i->d, 1, R_MIN, ops); search(i, "all optional kinds", ops, 1, T ? 4 : 3, T ? 30000 : 4000, 2);
    for (size_t f = 0; f < i->d->f.size(); ++f) { std::vector<Op> o2; fops(i, i->d, f, R_FULL, o2, same); dops(i->d, f, R_FULL, o2); size_t g = (f + 7) % i->d->f.size(); fops(i, i->d, g, R_MIN, o2, same); dops(i->d, g, R_MED, o2); wops(i->d, 1, R_MED, o2);
      search(i, (std::string("optional ") + i->d->f[f].name).c_str(), o2, 1, T ? 4 : 3, T ? 20000 : 2500, 2); }
  }
  for (const Instance* i : insts({"Opt70", "Opt31", "Opt32", "Opt33", "Opt64", "Opt65"})) {
    std::vector<Op> ops; for (size_t f = 0; f < i->d->f.size(); ++f) { fops(i, i->d, f, R_MIN, ops, same); if (T) dops(i->d, f, R_MIN, ops); }
    if (!T) for (size_t f = 0; f < i->d->f.size(); f += 1) { std::vector<Op> o; dops(i->d, f, R_MIN, o); ops.push_back(o[0]); }
    wops(i->d, 1, R_MIN, ops); search(i, "many optional fields", ops, 1, T && i->d->f.size() < 40 ? 3 : 2, 1000000, 2);
  }
  for (const Instance* i : insts({"MiniA", "MiniC", "T1", "Num0", "WithEmpty", "C4"})) {
    std::vector<Op> ops; for (size_t f = 0; f < i->d->f.size(); ++f) { int r = i->d->f[f].label == OPT ? R_MED : R_MIN; fops(i, i->d, f, r, ops, same); dops(i->d, f, r, ops); }
    wops(i->d, 1, R_MED, ops); search(i, "message with optional fields", ops, 1, T ? 4 : 3, T ? 20000 : 2500, 2);
  }
}
// ------------------------------------------------------------------ C11 value semantics, two messages
void run_C11() {
  bool T = cx.thorough;
  for (const Instance* i : insts({"MiniA", "MiniB", "MiniC", "MiniD", "One", "Opt", "Scal", "Rep", "T0", "T1", "C4", "WithEmpty", "NumO", "Opt33", "Opt70", "Ones"})) {
    size_t nf = i->d->f.size();
    // all fields at once, few operations each
    { std::vector<Op> ops; for (size_t f = 0; f < nf; ++f) { fops(i, i->d, f, R_MIN, ops, same); if (nf <= 12) dops(i->d, f, R_MIN, ops); }
      wops(i->d, 2, R_MED, ops); search(i, "two messages, all fields", ops, 2, nf > 12 ? 2 : T ? 4 : 3, T ? 30000 : 1200, 2); }
    if (nf > 30) continue;
    // each field with all its operations
    for (size_t f = 0; f < nf; ++f) { std::vector<Op> ops; fops(i, i->d, f, nf > 12 && !T ? R_MED : R_FULL, ops, same); dops(i->d, f, R_MIN, ops); wops(i->d, 2, R_MED, ops);
      search(i, (std::string("two messages, field ") + i->d->f[f].name).c_str(), ops, 2, T ? 4 : 3, T ? 6000 : 500, 1); }
  }
}
// ------------------------------------------------------------------ C25 arguments inside of the message itself
static void aops(const Instance* inst, const MsgD* d, size_t f, std::vector<Op>& out, const std::function<Op(const Op&)>& wrap) {
  const FieldD& fd = d->f[f];
  for (size_t g = 0; g < d->f.size(); ++g) {
    const FieldD& gd = d->f[g];
    auto P = [&](uint64_t v, uint64_t i = 0, uint64_t j = 0, uint64_t n = 0) {
      Op o; o.k = OP_FROM; o.f = (int)f; o.idx = (uint32_t)g; o.val.u = ~0ull;
      PM m(inst->make()); if (m->op(wrap(o)) == NOTSUP) return;
      o.val.u = v | i << 8 | j << 16 | n << 24; out.push_back(wrap(o));
    };
    if (fd.label == REP) {
      if (f != g) continue;
      uint32_t c = std::min(fd.repcap, 3u);
      P(4); P(7);
      for (uint32_t j = 0; j < c; ++j) { P(0, 0, j); P(1, 0, j); for (uint32_t i = 0; i <= c; ++i) { P(2, i, j); P(3, i, j); P(6, i, j); } for (uint32_t n = 1; j + n <= c; ++n) P(5, 0, j, n); }
    } else if (gd.label == REP) { for (uint32_t j = 0; j < std::min(gd.repcap, 3u); ++j) P(0, 0, j); }
    else if (f == g && (fd.kind == STR || fd.kind == BYT)) {
      uint32_t c = std::min(fd.cap, 4u);
      for (uint32_t j = 0; j <= c; ++j) for (uint32_t n = 0; j + n <= c; ++n) P(1, 0, j, n);
      if (fd.kind == STR) { P(0); P(4); P(5); for (uint32_t j = 0; j <= c; ++j) { P(2, 0, j); P(3, 0, j); } }
    } else P(0);
  }
}
static void saturate(const Instance* i, const MsgD* d, size_t f, std::vector<Op>& out) {   // ways to get content which can be told apart
  const FieldD& fd = d->f[f];
  auto P = [&](int k, const Val& v = Val(), uint32_t idx = 0, const std::vector<Val>& vals = {}) { Op o; o.k = k; o.f = (int)f; o.val = v; o.idx = idx; o.vals = vals; if (supported(i, o)) out.push_back(o); };
  if (fd.label == REP) { std::vector<Val> x; for (uint32_t k = 0; k < fd.repcap && k < 4; ++k) x.push_back(elemv(fd, 1 + (int)k % 3)); P(OP_SETREP, Val(), 0, x); if (x.size() > 1) { x.pop_back(); P(OP_SETREP, Val(), 0, x); } P(OP_CLEARF); return; }
  if (fd.kind == STR || fd.kind == BYT) { std::string s; for (uint32_t k = 0; k < fd.cap && k < 6; ++k) s += (char)('a' + k); P(OP_SET, strv(s)); P(OP_SET, strv(s.substr(0, s.size() - 1))); P(OP_CLEARF); return; }
  if (fd.kind == MSG) { P(OP_SET, msgv(fd.sub, 1)); P(OP_CLEARF); return; }
  P(OP_SET, nonzero(fd, 0)); P(OP_SET, nonzero(fd, 2)); P(OP_CLEARF);
}
// Every operation with an argument inside of the message, after operations which give the source and the target a value.
void for_alias(const Instance* i, const std::function<void(const std::vector<Op>&, const Op&)>& fn) {
  const MsgD* d = i->d;
  for (size_t f = 0; f < d->f.size(); ++f) {
    std::vector<Op> al, a, b; aops(i, d, f, al, same);
    if (al.empty()) continue;
    saturate(i, d, f, a);
    for (auto& o : al) {
      b.clear(); if (o.idx != f) saturate(i, d, o.idx, b);
      for (auto& x : a) for (size_t k = 0; k < std::max<size_t>(b.size(), 1); ++k) {
        std::vector<Op> pre; pre.push_back(x); if (!b.empty()) pre.push_back(b[k]);
        MsgV m(d); bool adopt = false; DecRes dr; bool on = true;
        for (auto& q : pre) { on = on && enabled(m, q); if (on) apply(m, q, adopt, &dr); }
        if (on && enabled(m, o)) fn(pre, o);
      }
    }
  }
}
void run_C25() {
  bool T = cx.thorough;
  for (const Instance* i : insts({"One", "MiniA", "MiniB", "MiniC", "MiniD", "Opt", "Rep", "Scal", "T0", "T1", "C4", "WithEmpty", "NumO"})) {
    const MsgD* d = i->d; size_t nf = d->f.size();
    for (size_t f = 0; f < nf; ++f) {
      std::vector<Op> al; aops(i, d, f, al, same);
      if (al.empty()) continue;
      std::vector<bool> src(nf); src[f] = true; for (auto& o : al) src[o.idx] = true;
      std::vector<Op> ops; for (size_t g = 0; g < nf; ++g) if (src[g]) saturate(i, d, g, ops);
      for (auto& o : al) ops.push_back(o);
      // back from the target to its sources
      for (size_t g = 0; g < nf; ++g) if (src[g] && g != f) { std::vector<Op> b; aops(i, d, g, b, same); for (auto& o : b) if (o.idx == f) ops.push_back(o); }
      cx.stats["operations_with_argument_inside"] += al.size();
      search(i, (std::string("argument inside, ") + d->f[f].name).c_str(), ops, 1, T ? 4 : 3, T ? 20000 : 2500, 2);
    }
    // one level down
    for (size_t f = 0; f < nf; ++f) if (d->f[f].kind == MSG && d->f[f].label != REP) {
      const MsgD* s = d->f[f].sub; std::vector<Op> ops;
      for (size_t k = 0; k < s->f.size(); ++k) aops(i, s, k, ops, [&](const Op& n) { Op o; o.k = OP_NEST; o.f = (int)f; o.next = std::make_shared<Op>(n); return o; });
      saturate(i, d, f, ops);
      if (ops.size() > 2) search(i, (std::string("argument inside of ") + d->f[f].name).c_str(), ops, 1, T ? 4 : 3, T ? 20000 : 1500, 2);
    }
  }
}
// ------------------------------------------------------------------ C12 bounded sequences
void run_C12_direct();
void run_C12() {
  bool T = cx.thorough;
  for (const Instance* i : insts({"Rep", "T0", "Scal", "Opt", "One", "MiniA", "MiniB", "T1", "WithEmpty"})) for (size_t f = 0; f < i->d->f.size(); ++f) {
    const FieldD& fd = i->d->f[f];
    if (!(fd.label == REP || fd.kind == STR || fd.kind == BYT)) continue;
    std::vector<Op> ops; fops(i, i->d, f, R_FULL, ops, same); dops(i->d, f, R_FULL, ops); wops(i->d, 1, R_MIN, ops);
    search(i, (std::string("sequence ") + fd.name).c_str(), ops, 1, T ? 5 : 4, T ? 20000 : 1500, 1);
  }
  run_C12_direct();
}
