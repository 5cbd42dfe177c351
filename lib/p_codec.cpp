// Exhaustive enumeration of message values, wire inputs and faults within bounds, executed on the real code.
#include "harness.h"
#include <algorithm>

static const std::vector<std::string> SMALL = {"MiniA", "MiniB", "MiniC"};
static uint64_t hid(const Instance* i, const std::string& s, uint64_t k = 0) { return h64(s, h64(i->name, strlen(i->name), 77 + k)); }
static std::string es(int e) { return e >= 0 && e < 8 ? err_mask_str(1u << e) : "code " + std::to_string(e); }
static bool is_big(const Instance* i);
static void ctx(const Instance* i, const char* phase) { if (is_big(i)) tick(); cur = Cur(); cur.inst = i; cur.phase = phase; }
static std::string lim(const std::string& s) { return s.size() > 160 ? s.substr(0, 160) + "..." : s; }

static bool is_huge(const Instance* i) { std::string n = i->name; return n == "Many" || n == "Huge"; }
static bool is_big(const Instance* i) { std::string n = i->name; return n == "Big" || n == "Many" || n == "Huge"; }
// Messages which get the level (others one lower).
static int lvl(const Instance* i) {
  std::string n = i->name;
  if (n == "Big") return cx.thorough ? 2 : 1;
  if (is_big(i)) return 1;
  if (n.substr(0, 3) == "Opt" && n != "Opt") return cx.thorough ? 2 : 1;
  return 2;
}
// Calls f for every value of every instance (after case selection).
static void each_value(const std::vector<std::string>& names, int cap_level, const std::function<void(const Instance*, const MsgV&)>& f) {
  for (const Instance* i : insts(names)) {
    cx.section = i->name;
    uint64_t before = cx.counter;
    for_values(i->d, std::min(cap_level, lvl(i)), [&](const MsgV& v) { if (cx.begin()) { ctx(i, ""); cur.val = &v; f(i, v); } });
    cx.stats[std::string("values_") + i->name] = cx.counter - before;
  }
}

// ------------------------------------------------------------------ C01
void run_C01() {
  each_value({}, 2, [](const Instance* i, const MsgV& v) {
    for (int how = 0; how < 2; ++how) {
      cur.phase = how ? "round trip, built through mutable_" : "round trip, built through set_/add_";
      PM m(i->make());
      m->put(v, how);
      MsgV o = observe(*m, i->d);
      VCHECK(o == v, "message built through its setters reads back different: " + first_diff(o, v));
      std::string b = serialize_ok(*m);
      cx.note(hid(i, b));
      cur.bytes = &b;
      MsgV o2 = observe(*m, i->d);
      VCHECK(o2 == v, "serializing changed the message: " + first_diff(o2, v));
      for (int rb = 0; rb < 2; ++rb) {
        PM k(i->make());
        int e = rb ? des_mon(*k, b) : des_fixed(*k, b);
        VCHECK(e == 0, "own output refused with " + es(e));
        MsgV r = observe(*k, i->d);
        VCHECK(r == v, "round trip changed the message: " + first_diff(r, v));
        std::string b2 = serialize_ok(*k);
        VCHECK(b2 == b, "serializing the decoded message again gives " + lim(hex(b2)));
      }
      // through the library's own write buffer as well
      if (b.size() + 1 <= max_wb()) {
        uint8_t* data; std::unique_ptr<EmbeddedProto::WriteBufferInterface> w(make_wb((uint32_t)b.size() + 1, &data));
        int e = m->ser(*w);
        VCHECK(e == 0 && w->get_size() == b.size() && memcmp(data, b.data(), b.size()) == 0, "WriteBufferFixedSize receives other bytes");
      }
      if (how == 0 && cx.samp()) cx.sample(std::string(i->d->name) + " " + lim(canon(v)) + " -> " + lim(hex(b)));
      cur.bytes = nullptr;
      if (cx.only < 0 && how == 0 && i->d->f.size() > 30 && (cx.evals & 3)) break;  // the very wide messages: mutable_ for every fourth value
    }
  });
}

// ------------------------------------------------------------------ C02
void run_C02() {
  each_value({}, 2, [](const Instance* i, const MsgV& v) {
    cur.phase = "encode, decode with libprotobuf";
    PM m(i->make());
    m->put(v, 0);
    std::string b = serialize_ok(*m);
    cx.note(hid(i, b));
    cur.bytes = &b;
    size_t lo = encode(v, false).size(), hi = encode(v, true).size();
    VCHECK(b.size() <= hi, "the encoding has " + std::to_string(b.size()) + " bytes, the standard one " + std::to_string(hi));
    VCHECK(b.size() >= lo, "the encoding has " + std::to_string(b.size()) + " bytes, fewer than the minimum " + std::to_string(lo));
    MsgV mv(i->d);
    DecRes r = decode(mv, b);
    VCHECK(r.ok && !r.unspec && mv == v, "reference decoder reads " + (r.ok ? first_diff(mv, v) : std::string("an invalid encoding")));
    // absent fields are absent: the set of top level field numbers
    MsgV g(i->d); size_t gs = 0;
    if (!r.nonascii) {
      VCHECK(g_decode(i->d, b, g, &gs, nullptr), "libprotobuf refuses the output");
      VCHECK(g == v, "libprotobuf reads " + first_diff(g, v));
      VCHECK(b.size() <= gs || i->d->f.size() == 0 || gs == hi, "longer than the encoding of libprotobuf");
      ++cx.stats["compared_with_libprotobuf"];
    }
    if (cx.samp()) cx.sample(std::string(i->d->name) + " " + lim(canon(v)) + " -> " + lim(hex(b)));
    cur.bytes = nullptr;
  });
  // the same after an arbitrary sequence of two records has been decoded
  for (const Instance* i : insts({"MiniA", "MiniB", "MiniC", "MiniD", "One", "Opt", "T1", "WithEmpty"})) {
    cx.section = "reserialize";
    std::vector<Rec> menu = record_menu(i->d, cx.thorough ? 1 : 0);
    for (size_t a = 0; a < menu.size(); ++a) for (size_t b = 0; b < menu.size(); ++b) {
      if (!cx.begin()) continue;
      std::string in = menu[a].bytes + menu[b].bytes;
      ctx(i, "decode, re-encode, decode with libprotobuf"); cur.pre = &in;
      MsgV mv(i->d); DecRes r = decode(mv, in);
      if (!r.ok || r.unspec || r.nonascii) continue;
      PM m(i->make());
      if (des_fixed(*m, in) != 0) continue;
      std::string out = serialize_ok(*m); cur.bytes = &out;
      cx.note(hid(i, in, 5));
      MsgV g(i->d);
      VCHECK(g_decode(i->d, out, g, nullptr, nullptr), "libprotobuf refuses the output");
      MsgV o = observe(*m, i->d);
      VCHECK(g == o, "libprotobuf reads " + first_diff(g, o));
      VCHECK(out.size() <= encode(o, true).size(), "longer than the standard encoding");
      cur.bytes = nullptr;
    }
  }
}

// ------------------------------------------------------------------ C03
static std::vector<MsgV> prestates(const MsgD* d) {
  std::vector<MsgV> p; p.push_back(MsgV(d));
  std::vector<MsgV> v = values(d, -1);
  for (auto& x : v) if (!(x == p[0])) p.push_back(x);
  // half full: repeated fields with one element
  MsgV h(d);
  for (size_t i = 0; i < d->f.size(); ++i) {
    std::vector<FieldV> dm = field_domain(d->f[i], 0);
    size_t k = std::min<size_t>(1, dm.size() - 1);
    if (d->f[i].label == ONE) { if (h.which(d->f[i].oneof) < 0) h.f[i] = dm[k]; }
    else h.f[i] = dm[k];
  }
  if (!(h == p[0])) p.push_back(h);
  return p;
}
static void check_accept(const Instance* i, const MsgV& pre, bool haspre, const std::string& in) {
  MsgV mv(pre); DecRes r = decode(mv, in);
  if (!r.ok || r.unspec) { ++cx.stats["skipped_not_valid_or_over_capacity"]; return; }
  cur.bytes = &in; cur.val = &pre;
  cx.note(hid(i, in, 1000 + haspre * h64(canon(pre))));
  PM m(i->make());
  if (haspre) m->put(pre, 0);
  int e = des_fixed(*m, in);
  VCHECK(e == 0, "valid encoding refused with " + es(e));
  MsgV o = observe(*m, i->d);
  VCHECK(o == mv, "valid encoding decodes to " + first_diff(o, mv));
  if (!r.nonascii) {
    MsgV g(i->d);
    std::string all = haspre ? encode(pre, true) + in : in;
    VCHECK(g_decode(i->d, all, g, nullptr, nullptr), "MODEL: libprotobuf refuses what the reference model accepts");
    VCHECK(g == o, "libprotobuf reads " + first_diff(g, o));
    ++cx.stats["compared_with_libprotobuf"];
  }
  if (cx.samp() && in.size() > 4) cx.sample(std::string(i->d->name) + " " + lim(hex(in)) + (haspre ? " onto " + lim(canon(pre)) : "") + " -> " + lim(canon(mv)));
  cur.bytes = nullptr; cur.val = nullptr;
}
void run_C03() {
  for (const Instance* i : insts({})) {
    cx.section = i->name;
    bool big = is_big(i), wide = i->d->f.size() > 30;
    int L1 = big ? 1 : 2;
    std::vector<Rec> m2 = record_menu(i->d, L1), m1 = record_menu(i->d, big || wide ? 0 : cx.thorough ? 1 : 0), m0 = record_menu(i->d, 0);
    std::vector<MsgV> pres = prestates(i->d);
    ctx(i, "decode a sequence of valid records");
    for (size_t p = 0; p < pres.size(); ++p) {
      for (auto& r : m2) if (cx.begin()) check_accept(i, pres[p], p > 0, r.bytes);
      // pairs: rich x small in both orders, and medium x medium
      size_t lim2 = cx.thorough ? 4000 : 700;
      size_t stride = std::max<size_t>(1, m2.size() * m0.size() / (lim2 * 400));
      (void)stride;
      for (auto& a : m1) for (auto& b : m1) if (cx.begin()) check_accept(i, pres[p], p > 0, a.bytes + b.bytes);
      if (!wide && !big && m2.size() * m0.size() < (cx.thorough ? 4000000u : 60000u))
        for (auto& a : m2) for (auto& b : m0) { if (cx.begin()) check_accept(i, pres[p], p > 0, a.bytes + b.bytes); if (cx.begin()) check_accept(i, pres[p], p > 0, b.bytes + a.bytes); }
    }
    // two records of the same field, all rich encodings
    for (auto& a : m2) for (auto& b : m2) if (a.field == b.field) {
      if (!cx.thorough && a.bytes.size() + b.bytes.size() > 14 && (a.bytes.size() > 7 || b.bytes.size() > 9)) continue;
      if (cx.begin()) check_accept(i, pres[0], false, a.bytes + b.bytes);
    }
    if (big || wide) continue;
    double t = (double)m0.size() * m0.size() * m0.size();
    if (t <= (cx.thorough ? 3e6 : 3e5))
      for (auto& a : m0) for (auto& b : m0) for (auto& c : m0) if (cx.begin()) check_accept(i, pres[0], false, a.bytes + b.bytes + c.bytes);
    if (t * (double)m0.size() <= (cx.thorough ? 2e6 : 1e5))
      for (auto& a : m0) for (auto& b : m0) for (auto& c : m0) for (auto& e : m0) if (cx.begin()) check_accept(i, pres[0], false, a.bytes + b.bytes + c.bytes + e.bytes);
  }
  // every value in its canonical encoding by the reference encoder, with the field order reversed as well
  each_value({}, 2, [](const Instance* i, const MsgV& v) {
    cur.phase = "decode the standard encoding of a value";
    std::string b = encode(v, true);
    MsgV d(i->d);
    check_accept(i, d, false, b);
    std::vector<size_t> bd = boundaries(b);
    if (bd.size() > 2) {
      std::string rv; int last = -1; (void)last;
      for (size_t k = bd.size() - 1; k > 0; --k) rv += b.substr(bd[k - 1], bd[k] - bd[k - 1]);
      check_accept(i, d, false, rv);
    }
  });
}

// ------------------------------------------------------------------ C04, C05: arbitrary inputs
// The enumerated byte strings, shared by both.
static void each_input(const std::function<void(const Instance*, const std::string&)>& f) {
  // (1) every string over an alphabet of the interesting bytes of a small message
  for (const Instance* i : insts(SMALL)) {
    cx.section = "all strings over an alphabet";
    std::vector<uint8_t> al; auto A = [&](int c) { if (std::find(al.begin(), al.end(), (uint8_t)c) == al.end()) al.push_back((uint8_t)c); };
    for (auto& fd : i->d->f) { A((int)tagb(fd.num, wire_type(fd.kind))[0]); if (fd.label == REP && packable(fd.kind)) A((int)tagb(fd.num, WT_LEN)[0]); }
    A(0x00); A(0x01); A(0x02); A(0x03); A(0x05); A(0x7A); A(0x80); A(0xFF); A(0x0B); A(0x7D);
    size_t maxlen = 4;
    auto loop = [&](const std::vector<uint8_t>& al, size_t from, size_t maxlen) {
      for (size_t len = from; len <= maxlen; ++len) {
        std::string s(len, 0); std::vector<size_t> ix(len, 0);
        while (true) {
          if (cx.begin()) { for (size_t k = 0; k < len; ++k) s[k] = (char)al[ix[k]]; ctx(i, "decode arbitrary bytes"); cur.bytes = &s; f(i, s); }
          size_t k = 0; while (k < len && ++ix[k] == al.size()) ix[k++] = 0;
          if (k == len) break;
        }
      }
    };
    loop(al, 0, cx.thorough ? maxlen + 1 : maxlen);
    cx.stats[std::string("alphabet_") + i->name] = al.size();
    // a smaller alphabet with the length delimited fields, longer strings
    std::vector<uint8_t> a2; for (auto& fd : i->d->f) if (a2.size() < 4 && (fd.kind == MSG || fd.kind == STR || fd.label == REP)) a2.push_back((uint8_t)tagb(fd.num, WT_LEN)[0]);
    for (int c : {0x08, 0x01, 0x02, 0x04, 0x80}) a2.push_back((uint8_t)c);
    loop(a2, maxlen + 1, cx.thorough ? 7 : 6);
    cx.stats[std::string("alphabet2_") + i->name] = a2.size();
  }
  // (2) every string of one and two bytes over all bytes (three for the small messages when thorough)
  for (const Instance* i : insts({})) {
    cx.section = "all strings of all bytes";
    bool small = std::find(SMALL.begin(), SMALL.end(), i->name) != SMALL.end();
    bool two = i->d->f.size() <= 30 && !is_huge(i);
    int n = small && cx.thorough ? 3 : two ? 2 : 1;
    std::string s((size_t)n, 0);
    uint64_t tot = 1; for (int k = 0; k < n; ++k) tot *= 256;
    for (uint64_t x = 0; x < tot; ++x) if (cx.begin()) { for (int k = 0; k < n; ++k) s[(size_t)k] = (char)(x >> (8 * k)); ctx(i, "decode arbitrary bytes"); cur.bytes = &s; f(i, s); }
  }
  // (3) every truncation of every record and pair of records; every bad record, alone, behind and before a valid one, and nested
  for (const Instance* i : insts({})) {
    cx.section = "truncations";
    bool big = is_big(i), wide = i->d->f.size() > 30;
    std::vector<Rec> m2 = record_menu(i->d, big || wide ? 1 : 2), m0 = record_menu(i->d, 0);
    auto trunc = [&](const std::string& b) {
      size_t step = b.size() > 400 ? b.size() / (is_huge(i) ? 7 : 97) : 1, edge = is_huge(i) ? 7 : 40;
      for (size_t n = 0; n < b.size(); n += (n < edge || n + edge > b.size()) ? 1 : step) if (cx.begin()) { std::string s = b.substr(0, n); ctx(i, "decode a cut off encoding"); cur.bytes = &s; f(i, s); }
    };
    if (std::string(i->name) == "Huge" && !cx.thorough) { for (auto& r : m0) trunc(r.bytes); continue; }
    for (auto& r : m2) trunc(r.bytes);
    if (!big && !wide) {
      uint64_t lim = cx.thorough ? 3000000 : 40000; uint64_t tot = m0.size() * m0.size();
      if (tot <= lim) for (auto& a : m0) for (auto& b : m0) trunc(a.bytes + b.bytes);
      if (cx.thorough && (uint64_t)m2.size() * m0.size() < 400000) for (auto& a : m0) for (auto& b : m2) trunc(a.bytes + b.bytes);
    }
    for (auto& u : unknown_menu(i->d, big || wide ? 0 : 2)) trunc(u);
    MsgV full(i->d); for_values(i->d, -1, [&](const MsgV& v) { full = v; });
    trunc(encode(full, true));
    cx.section = "malformed records";
    std::vector<std::string> bad = bad_menu(i->d);
    for (auto& b : bad) {
      if (cx.begin()) { ctx(i, "decode a malformed record"); cur.bytes = &b; f(i, b); }
      for (auto& r : m0) { if (cx.begin()) { std::string s = r.bytes + b; ctx(i, "decode a malformed record"); cur.bytes = &s; f(i, s); }
                           if (cx.begin()) { std::string s = b + r.bytes; ctx(i, "decode a malformed record"); cur.bytes = &s; f(i, s); } if (wide || is_huge(i)) break; }
    }
    // nested: malformed or truncated content with a right, a too large or a too small length, at two levels
    cx.section = "malformed nested";
    for (auto& fd : i->d->f) {
      if (fd.kind != MSG) continue;
      std::vector<std::string> inner = bad_menu(fd.sub);
      for (auto& r : record_menu(fd.sub, big ? 0 : 1)) { for (size_t n = 1; n < r.bytes.size(); ++n) { if (big && n > 20) break; inner.push_back(r.bytes.substr(0, n)); } }
      for (auto& g : fd.sub->f) if (g.kind == MSG) {
        for (auto& b : bad_menu(g.sub)) inner.push_back(lenrec(g.num, b));
        for (auto& r : record_menu(g.sub, 0)) for (size_t n = 1; n < r.bytes.size(); ++n) { if (big && n > 20) break; inner.push_back(lenrec(g.num, r.bytes.substr(0, n))); }
      }
      std::string tail = m0.back().bytes;
      for (auto& b : inner) {
        if (cx.begin()) { std::string s = lenrec(fd.num, b); ctx(i, "decode a malformed nested message"); cur.bytes = &s; f(i, s); }
        if (cx.begin()) { std::string s = lenrec(fd.num, b) + tail; ctx(i, "decode a malformed nested message"); cur.bytes = &s; f(i, s); }
      }
      // wrong nested lengths around valid content
      for (auto& r : record_menu(fd.sub, 0)) for (long dl = -3; dl <= 3; ++dl) {
        long l = (long)r.bytes.size() + dl; if (l < 0) continue;
        std::string s = tagb(fd.num, WT_LEN); put_varint(s, (uint64_t)l); s += r.bytes;
        if (cx.begin()) { ctx(i, "decode a nested message with a wrong length"); cur.bytes = &s; f(i, s); }
        std::string s2 = s + tail;
        if (cx.begin()) { ctx(i, "decode a nested message with a wrong length"); cur.bytes = &s2; f(i, s2); }
      }
    }
    // wrong lengths of packed, string and bytes records
    for (auto& fd : i->d->f) if (wire_type(fd.kind) == WT_LEN || (fd.label == REP)) {
      for (size_t len = 0; len <= 12; ++len) for (size_t have = 0; have <= 12; ++have) for (int fill : {0x01, 0x81, 0x00}) {
        std::string s = tagb(fd.num, WT_LEN); put_varint(s, len); s += std::string(have, (char)fill);
        if (cx.begin()) { ctx(i, "decode a record with a wrong length"); cur.bytes = &s; f(i, s); }
        if (wide || is_huge(i)) break;
      }
      if (wide) break;
    }
  }
}
void run_C04() {
  each_input([](const Instance* i, const std::string& s) {
    MsgV mv(i->d); DecRes r = decode(mv, s);
    if (r.ok || r.unspec || (r.cap && r.errs == (1u << E_ARRAY))) { ++cx.stats["skipped_valid_or_not_claimed"]; return; }
    cx.note(hid(i, s));
    PM m(i->make());
    int e = des_fixed(*m, s);
    VCHECK(e != 0, "malformed input reported as success, expected " + err_mask_str(r.errs));
    VCHECK(e > 0 && e < 8 && (r.errs & (1u << e)), "malformed input reported as " + es(e) + ", expected " + err_mask_str(r.errs));
    PM k(i->make());
    e = des_mon(*k, s);
    VCHECK(e != 0, "malformed input from a user supplied buffer reported as success, expected " + err_mask_str(r.errs));
    VCHECK(e > 0 && e < 8 && (r.errs & (1u << e)), "malformed input from a user supplied buffer reported as " + es(e) + ", expected " + err_mask_str(r.errs));
    if (!r.google_differs && (cx.evals & 15) == 0 && !r.cap) {  // keeps the model honest: libprotobuf refuses as well
      MsgV g(i->d);
      if (g_decode(i->d, s, g, nullptr, nullptr)) {
        // allowed: over-long tags and lengths up to 10 bytes, field number > 2^29, unterminated sub records it is lenient about
        ++cx.stats["libprotobuf_more_lenient"];
        if (cx.samples.size() < 12 && cx.stats["libprotobuf_more_lenient"] < 4) cx.samples.push_back("libprotobuf accepts: " + std::string(i->d->name) + " " + lim(hex(s)));
      } else ++cx.stats["libprotobuf_refuses_as_well"];
    }
    ++cx.stats["error_" + es(e)];
    if (cx.samp()) cx.sample(std::string(i->d->name) + " " + lim(hex(s)) + " -> " + es(e));
  });
}
// The message is usable whatever happened before.
static void usable(const Instance* i, IMsg& m, const MsgV* partial) {
  MsgV o = observe(m, i->d);
  if (partial) { std::string why; VCHECK(oneofs_sane_after_error(o, *partial, why), why); }
  std::string b = serialize_ok(m);
  VCHECK(m.size() == b.size(), "after decoding: reported size " + std::to_string(m.size()) + " but " + std::to_string(b.size()) + " bytes are written");
  PM c(m.copy_ctor());
  MsgV oc = observe(*c, i->d);
  VCHECK(oc == o, "after decoding: copy differs: " + first_diff(oc, o));
  m.clear();
  static const Instance* li = nullptr; static std::string fb; static MsgV fv, dv; static std::vector<std::pair<const Instance*, std::pair<std::string, MsgV>>> cache;
  if (li != i) {
    li = i; dv = MsgV(i->d); fv = MsgV(i->d);
    for_values(i->d, -1, [&](const MsgV& v) { if (!(v == MsgV(i->d))) fv = v; });
    fb = encode(fv, true);
  }
  MsgV z = observe(m, i->d);
  VCHECK(z == dv, "after decoding and clear(): not the default message: " + first_diff(z, dv));
  VCHECK(m.size() == 0, "after decoding and clear(): size is not zero");
  int e = des_fixed(m, fb);
  VCHECK(e == 0, "after decoding and clear(): valid data refused with " + es(e));
  z = observe(m, i->d);
  VCHECK(z == fv, "after decoding and clear(): valid data decodes to " + first_diff(z, fv));
}
void run_C05() {
  each_input([](const Instance* i, const std::string& s) {
    cx.note(hid(i, s));
    MsgV mv(i->d); DecRes r = decode(mv, s);
    // the library's own buffer, with other bytes behind the data; the message object is followed by a red zone
    PM m(i->make());
    int e = des_fixed(*m, s);
    PM k(i->make());
    MonRead mr(s);
    int e2 = k->des(mr);
    VCHECK(e == e2, "outcome depends on what lies behind the data: " + es(e) + " and " + es(e2));
    MsgV o = observe(*m, i->d), o2 = observe(*k, i->d);
    VCHECK(o == o2, "result depends on what lies behind the data: " + first_diff(o, o2));
    if (e == 0 && r.ok && !r.unspec) VCHECK(o == mv, "a nested element consumes or interprets other bytes than its own: " + first_diff(o, mv));
    VCHECK(e != 0 || mr.pos == mr.n, "success although only " + std::to_string(mr.pos) + " bytes were read");
    ++cx.stats[e ? "outcome_error" : "outcome_ok"];
    bool partial = e != 0 && !r.ok && !r.unspec;
    cur.phase = "use the message after decoding";
    usable(i, *m, partial ? &mv : nullptr);
    // without clear: a following valid decode of an encoding of all fields is accepted if it fits
    if (e != 0) {
      cur.phase = "decode into the message after a failed decode";
      int e3 = des_fixed(*k, s);
      MsgV o3 = observe(*k, i->d); (void)e3;
      std::string b = serialize_ok(*k);
      VCHECK(k->size() == b.size(), "after a second failed decode: reported size is wrong");
    }
    if (cx.samp()) cx.sample(std::string(i->d->name) + " " + lim(hex(s)) + " -> " + es(e));
  });
}

// ------------------------------------------------------------------ C06
static void insertions(const MsgD* d, const std::string& b, int level, int depth, const std::function<void(const std::string&)>& f) {
  std::vector<std::string> um = unknown_menu(d, level);
  std::vector<size_t> bd = boundaries(b);
  for (size_t p : bd) for (auto& u : um) f(b.substr(0, p) + u + b.substr(p));
  if (depth == 0) return;
  for (size_t k = 0; k + 1 < bd.size(); ++k) {
    std::string rec = b.substr(bd[k], bd[k + 1] - bd[k]);
    size_t p = 0; uint64_t tag = 0; int s = 0;
    while (true) { uint8_t c = (uint8_t)rec[p++]; tag |= (uint64_t)(c & 0x7F) << s; s += 7; if (!(c & 0x80)) break; }
    const FieldD* fd = d->by_num((uint32_t)(tag >> 3));
    if (!fd || fd->kind != MSG) continue;
    while ((uint8_t)rec[p] & 0x80) ++p;
    ++p;
    insertions(fd->sub, rec.substr(p), level, depth - 1, [&](const std::string& c) { f(b.substr(0, bd[k]) + lenrec(fd->num, c) + b.substr(bd[k + 1])); });
  }
}
void run_C06() {
  auto one = [&](const Instance* i, const std::string& base, int level) {
    MsgV mv(i->d); DecRes r = decode(mv, base);
    if (!r.ok || r.unspec) return;
    MsgV expect(i->d); int e0 = -1;
    insertions(i->d, base, level, 4, [&](const std::string& s) {
      if (!cx.begin()) return;
      ctx(i, "decode with an unknown field inserted"); cur.bytes = &s; cur.pre = &base;
      if (e0 < 0) { PM m(i->make()); e0 = des_fixed(*m, base); expect = observe(*m, i->d); }
      cx.note(hid(i, s));
      for (int rb = 0; rb < 2; ++rb) {
        PM m(i->make());
        int e = rb ? des_mon(*m, s) : des_fixed(*m, s);
        VCHECK(e == e0, "with an unknown field the result is " + es(e) + " instead of " + es(e0));
        MsgV o = observe(*m, i->d);
        VCHECK(o == expect, "an unknown field changes the message: " + first_diff(o, expect));
        if (e == 0 && rb == 0) VCHECK(o == mv, "with an unknown field: " + first_diff(o, mv));
      }
      if (cx.samp() && base.size() > 3) cx.sample(std::string(i->d->name) + " " + lim(hex(base)) + " + unknown = " + lim(hex(s)));
    });
  };
  for (const Instance* i : insts({})) {
    cx.section = i->name;
    bool big = is_big(i), wide = i->d->f.size() > 30;
    std::vector<Rec> m0 = record_menu(i->d, 0), m1 = record_menu(i->d, big ? 0 : wide ? 0 : 1);
    for (auto& r : m1) one(i, r.bytes, cx.thorough && !big ? 2 : big ? 0 : 1);
    if (!wide && !big) for (auto& a : m0) for (auto& b : m0) { if (!cx.thorough && m0.size() > 40 && a.field != b.field && (a.field + 1) != b.field) continue; one(i, a.bytes + b.bytes, cx.thorough ? 1 : 0); }
    if (!big) for_values(i->d, 0, [&](const MsgV& v) { std::string b = encode(v, true); if (b.size() < 400) one(i, b, wide ? 0 : cx.thorough ? 2 : 0); });
    one(i, "", 2);
  }
}

// ------------------------------------------------------------------ C07
static void check_fit(const Instance* i, const MsgV& v) {
  PM m(i->make());
  m->put(v, 0);
  std::string b = serialize_ok(*m);
  cx.note(hid(i, b));
  uint32_t n = m->size();
  VCHECK(n == b.size(), "reported size " + std::to_string(n) + " but " + std::to_string(b.size()) + " bytes are written");
  cur.phase = "serialize into limited space";
  auto one = [&](uint32_t cap) {
    cur.a = cap; cur.b = n;
    MonWrite w(cap);
    int e = m->ser(w);
    if (cap < n) VCHECK(e == E_FULL, "space for " + std::to_string(cap) + " of " + std::to_string(n) + " bytes: result is " + es(e) + " instead of BUFFER_FULL");
    else VCHECK(e == 0 && w.out == b, "space for " + std::to_string(cap) + " of " + std::to_string(n) + " bytes: " + es(e));
    ++cx.transitions;
  };
  auto fixed = [&](uint32_t cap, uint32_t pre) {
    cur.a = cap; cur.b = pre;
    uint8_t* data; std::unique_ptr<EmbeddedProto::WriteBufferInterface> w(make_wb(cap, &data));
    if (!w) return;
    for (uint32_t k = 0; k < pre; ++k) VCHECK(w->push((uint8_t)(0xC0 + k)), "buffer refuses a byte that fits");
    int e = m->ser(*w);
    for (uint32_t k = 0; k < pre; ++k) VCHECK(data[k] == (uint8_t)(0xC0 + k), "bytes in front of the message are overwritten");
    if (cap - pre < n) VCHECK(e == E_FULL, "WriteBufferFixedSize with " + std::to_string(cap - pre) + " of " + std::to_string(n) + " bytes free: " + es(e) + " instead of BUFFER_FULL");
    else VCHECK(e == 0 && w->get_size() == pre + n && memcmp(data + pre, b.data(), n) == 0, "WriteBufferFixedSize with " + std::to_string(cap - pre) + " of " + std::to_string(n) + " bytes free: " + es(e));
    VCHECK(w->get_size() <= cap, "WriteBufferFixedSize holds more than its size");
    ++cx.transitions;
  };
  if (n <= 300) for (uint32_t c = 0; c <= n + 1; ++c) one(c);
  else for (uint32_t d : {0u, 1u, 2u, 3u, 4u, 5u, 8u, 9u, 120u, 121u, 130u, 131u, 200u, 250u}) { one(n - d); one(n + d); one(d); }
  if (n + 1 <= max_wb()) {
    for (uint32_t c = 1; c <= n + 1; ++c) fixed(c, 0);
    for (uint32_t p = 1; p <= 3; ++p) for (long c = (long)n + p - 2; c <= (long)n + p + 1; ++c) if (c >= (long)p && c > 0) fixed((uint32_t)c, p);
  }
  MsgV o = observe(*m, i->d);
  VCHECK(o == v, "serializing changed the message: " + first_diff(o, v));
  if (cx.samp()) cx.sample(std::string(i->d->name) + " " + lim(canon(v)) + " size " + std::to_string(n) + ", every smaller space refused");
}
void run_C07() {
  each_value({}, 2, [](const Instance* i, const MsgV& v) { cur.phase = "size"; check_fit(i, v); });
  // messages left behind by decoding two records, failed ones included
  cx.section = "after decoding";
  for (const Instance* i : insts(SMALL)) {
    std::vector<Rec> m = record_menu(i->d, cx.thorough ? 1 : 0);
    for (auto& a : m) for (auto& b : m) for (size_t cut = 0; cut < 2; ++cut) if (cx.begin()) {
      std::string in = a.bytes + b.bytes; if (cut) in.pop_back();
      ctx(i, "size after decoding"); cur.bytes = &in;
      PM k(i->make()); des_fixed(*k, in);
      std::string out = serialize_ok(*k);
      VCHECK(k->size() == out.size(), "reported size " + std::to_string(k->size()) + " but " + std::to_string(out.size()) + " bytes are written");
      cx.note(hid(i, in, 9));
      for (uint32_t c = 0; c < out.size(); ++c) { MonWrite w(c); VCHECK(k->ser(w) == E_FULL, "too small space not reported"); ++cx.transitions; }
    }
  }
}

// ------------------------------------------------------------------ C08
void run_C08() {
  each_value({}, cx.thorough ? 2 : 1, [](const Instance* i, const MsgV& v) {
    cur.phase = "a push is refused";
    PM m(i->make());
    m->put(v, 0);
    MonWrite w0; int e = m->ser(w0);
    if (e != 0) violation("serialization into unlimited space fails");
    cx.note(hid(i, w0.out));
    long np = w0.pushes;
    if (np > 3000) tick();
    for (long k = 0; k < np; k += (np > 600 && k > 100 && k + 100 < np) ? 7 + np / 600 : 1) for (int mode = 0; mode < 4; ++mode) {
      if (np > 600 && mode) break;
      MonWrite w; w.fail_at = k; w.fail_once = mode & 1; w.honest = !(mode & 2);
      cur.a = k; cur.b = mode;
      e = m->ser(w);
      ++cx.transitions;
      if (w.refused) VCHECK(e != 0, "push number " + std::to_string(k) + " was refused (" + (w.fail_once ? "once" : "from then on") + ") but serialization reports success");
    }
    // a buffer which runs full while it claims to have unlimited space
    size_t n = w0.out.size();
    for (size_t cap = 0; cap < n; cap += n > 300 ? n / 37 + 1 : 1) {
      MonWrite w((uint32_t)cap); w.honest = false; cur.a = (long)cap; cur.b = -1;
      e = m->ser(w); ++cx.transitions;
      VCHECK(e != 0, "the buffer accepted " + std::to_string(cap) + " of " + std::to_string(n) + " bytes but serialization reports success");
    }
    cur.a = cur.b = 0;
    if (cx.samp()) cx.sample(std::string(i->d->name) + " " + lim(canon(v)) + ": each of " + std::to_string(np) + " pushes refused once and for good");
  });
  // read side
  auto readf = [&](const Instance* i, const std::string& b, bool unknown = false) {
    MsgV mv(i->d); DecRes r = decode(mv, b);
    if (!r.ok || r.unspec) return;
    ctx(i, "a pop is refused"); cur.bytes = &b;
    std::vector<size_t> bd = boundaries(b);
    PM m0(i->make()); MonRead r0(b);
    if (m0->des(r0) != 0) return;   // decided by C03
    cx.note(hid(i, b, 3));
    long np = r0.pops;
    long step = np > 600 ? np / 97 : 1;
    for (long k = 0; k < np; k += step) for (int once = 0; once < 2; ++once) {
      PM m(i->make()); MonRead r1(b); r1.fail_at = k; r1.fail_once = once;
      cur.a = k; cur.b = once;
      int e = m->des(r1);
      ++cx.transitions;
      if (!r1.failed) continue;
      bool at_boundary = std::find(bd.begin(), bd.end(), (size_t)r1.fail_pos) != bd.end();
      // Known finding: the result of the advance over the content of an unknown length delimited field is ignored.
      if (unknown && r1.fail_skip && e == 0) { cx.stats["known_finding_refused_advance_over_unknown_field"]++; continue; }
      if (!at_boundary) VCHECK(e != 0, "the buffer ran dry inside a field (read number " + std::to_string(k) + ", offset " + std::to_string(r1.fail_pos) + (once ? ", once" : "") + ") but deserialization reports success");
      usable(i, *m, nullptr);
    }
    cur.a = cur.b = 0;
  };
  for (const Instance* i : insts({})) {
    cx.section = "reading";
    bool big = is_big(i), wide = i->d->f.size() > 30;
    for (auto& r : record_menu(i->d, big || wide ? 0 : 2)) if (cx.begin()) readf(i, r.bytes);
    for (auto& u : unknown_menu(i->d, wide || big ? 0 : 2)) if (cx.begin()) readf(i, u, true);
    std::vector<Rec> m0 = record_menu(i->d, 0);
    if (!big && !wide) for (auto& a : m0) for (auto& b : m0) if (cx.begin()) readf(i, a.bytes + b.bytes);
    if (!big) for_values(i->d, wide ? -1 : 0, [&](const MsgV& v) { if (cx.begin()) readf(i, encode(v, true)); });
    for (auto& fd : i->d->f) if (fd.kind == MSG && !big) for (auto& u : unknown_menu(fd.sub, 0)) if (cx.begin()) readf(i, lenrec(fd.num, u), true);
  }
}

// ------------------------------------------------------------------ C13
// All encodings of n elements of a repeated field, split over records in every way (packed chunks, unpacked).
static void chunkings(const FieldD& fd, const std::vector<std::string>& el, size_t from, const std::string& acc, bool packed_empty, const std::function<void(const std::string&)>& f) {
  if (from == el.size()) { f(acc); return; }
  int wt = wire_type(fd.kind);
  for (size_t n = 1; n <= el.size() - from; ++n) {
    std::string c; for (size_t k = 0; k < n; ++k) c += el[from + k];
    chunkings(fd, el, from + n, acc + lenrec(fd.num, c), packed_empty, f);
  }
  chunkings(fd, el, from + 1, acc + tagb(fd.num, wt) + el[from], packed_empty, f);
}
static void over_capacity(const MsgD* d, int depth, const std::function<void(const std::string&)>& f) {
  for (size_t i = 0; i < d->f.size(); ++i) {
    const FieldD& fd = d->f[i];
    if (fd.kind == STR || fd.kind == BYT) {
      for (long dl = -1; dl <= 3; ++dl) { long l = (long)fd.cap + dl; if (l < 0) continue; std::string c((size_t)l, 'x'); f(lenrec(fd.num, c)); f(lenrec(fd.num, c) + lenrec(fd.num, "")); f(lenrec(fd.num, "q") + lenrec(fd.num, c)); }
      for (uint32_t l : {127u, 128u, 255u, 256u, 257u, 65535u, 65536u, 65537u}) if (l > fd.cap && fd.cap < 100) { std::string c(l, 'x'); f(lenrec(fd.num, c)); }
      for (uint64_t l : {256ull, 65536ull, 1ull << 31, (1ull << 32) - 1}) { std::string s = tagb(fd.num, WT_LEN); put_varint(s, l); s += std::string(std::min<size_t>(fd.cap + 3, 40), 'x'); f(s); }
    }
    if (fd.label == REP) {
      for (long dl = -1; dl <= 2; ++dl) {
        long n = (long)fd.repcap + dl; if (n < 0) continue;
        if (packable(fd.kind)) {
          std::vector<Val> dm = domain(fd, 1);
          for (int var = 0; var < 3; ++var) {
            std::vector<std::string> el;
            for (long k = 0; k < n; ++k) { std::string b; enc_scalar(b, fd.kind, var == 0 ? dm[(size_t)k % dm.size()].u : var == 1 ? 0 : dm.back().u, true); el.push_back(b); }
            if (n <= 5) chunkings(fd, el, 0, "", false, f);
            else { std::string c; for (auto& e : el) c += e; f(lenrec(fd.num, c)); std::string u; for (auto& e : el) u += tagb(fd.num, wire_type(fd.kind)) + e; f(u);
                   std::string h1, h2; for (long k = 0; k < n; ++k) (k < n / 2 ? h1 : h2) += el[(size_t)k]; f(lenrec(fd.num, h1) + lenrec(fd.num, h2)); }
          }
        } else {
          std::vector<std::string> cs = {"", fd.kind == MSG ? "" : std::string(fd.cap, 'y')};
          if (fd.kind == MSG) { std::vector<MsgV> vs = values(fd.sub, -1); cs[1] = encode(vs.back(), true); }
          for (auto& c : cs) { std::string s; for (long k = 0; k < n; ++k) s += lenrec(fd.num, c); f(s); }
          std::string s; for (long k = 0; k < n; ++k) s += lenrec(fd.num, cs[(size_t)k & 1]); f(s);
        }
      }
    }
    if (fd.kind == MSG && depth > 0) over_capacity(fd.sub, depth - 1, [&](const std::string& c) {
      f(lenrec(fd.num, c));
      std::vector<size_t> bd = boundaries(c);  // split over two occurrences of the nested message: merged (or two elements)
      if (bd.size() > 2 && bd.back() == c.size()) for (size_t k = 1; k + 1 < bd.size(); ++k) f(lenrec(fd.num, c.substr(0, bd[k])) + lenrec(fd.num, c.substr(bd[k])));
    });
  }
}
void run_C13() {
  for (const Instance* i : insts({})) {
    cx.section = i->name;
    bool big = is_big(i);
    MsgV none(i->d); std::vector<MsgV> pres = prestates(i->d);
    for (size_t p = 0; p < pres.size(); ++p)
      over_capacity(i->d, big ? 1 : 3, [&](const std::string& s) {
        if (!cx.begin()) return;
        ctx(i, "decode around a capacity"); cur.bytes = &s; cur.val = &pres[p];
        MsgV mv(pres[p]); DecRes r = decode(mv, s);
        if (r.unspec) return;
        cx.note(hid(i, s, p));
        for (int rb = 0; rb < 2; ++rb) {
          PM m(i->make());
          if (p) m->put(pres[p], 0);
          int e = rb ? des_mon(*m, s) : des_fixed(*m, s);
          if (!r.ok) {
            VCHECK(e != 0, "data exceeding a capacity accepted, expected " + err_mask_str(r.errs));
            VCHECK(e > 0 && e < 8 && (r.errs & (1u << e)), "data exceeding a capacity reported as " + es(e) + ", expected " + err_mask_str(r.errs));
            ++cx.stats["refused_" + es(e)];
            observe(*m, i->d);
          } else {
            VCHECK(e == 0, "data within the capacities refused with " + es(e));
            MsgV o = observe(*m, i->d);
            VCHECK(o == mv, "data within the capacities decodes to " + first_diff(o, mv));
            ++cx.stats["accepted"];
          }
        }
        if (cx.samp()) cx.sample(std::string(i->d->name) + " " + lim(hex(s)) + " -> " + (r.ok ? "accepted" : err_mask_str(r.errs)));
        cur.val = nullptr;
      });
  }
}

// ------------------------------------------------------------------ C16
static std::string norm(const std::string& s) {
  std::string o;
  auto sep = [](char c) { return c == ' ' || c == '\n' || c == '\t' || c == ','; };
  auto br = [](char c) { return c == '{' || c == '}' || c == '[' || c == ']' || c == ':' || c == '"'; };
  for (size_t i = 0; i < s.size(); ++i) {
    if (!sep(s[i])) { o += s[i]; continue; }
    if (o.empty() || o.back() == ' ' || br(o.back())) continue;
    size_t j = i; while (j < s.size() && sep(s[j])) ++j;
    if (j == s.size() || br(s[j])) continue;
    o += ' ';
  }
  return o;
}
// commas: one between two values; a comma in front of the first is not judged
static std::string commas(const std::string& s) {
  std::string o;
  for (char c : s) { if (c == ' ' || c == '\n' || c == '\t') continue; if (c == ',' && !o.empty() && (o.back() == '{' || o.back() == '[')) continue; o += c; }
  return o;
}
static std::string text_of(const MsgV& v);
static std::string text_val(const FieldD& fd, const Val& v) {
  char b[400];
  switch (fd.kind) {
    case I32: case S32: case Y32: case ENUM: snprintf(b, sizeof b, "%d", (int32_t)(uint32_t)v.u); return b;
    case U32: case X32: snprintf(b, sizeof b, "%u", (uint32_t)v.u); return b;
    case I64: case S64: case Y64: snprintf(b, sizeof b, "%lld", (long long)v.u); return b;
    case U64: case X64: snprintf(b, sizeof b, "%llu", (unsigned long long)v.u); return b;
    case BOOL: return v.u ? "true" : "false";
    case FLT: { uint32_t u = (uint32_t)v.u; float f; memcpy(&f, &u, 4); snprintf(b, sizeof b, "%f", (double)f); return b; }
    case DBL: { double f; memcpy(&f, &v.u, 8); snprintf(b, sizeof b, "%f", f); return b; }
    case STR: return "\"" + v.s.substr(0, v.s.find('\0')) + "\"";
    case BYT: { std::string o = "["; for (size_t i = 0; i < v.s.size(); ++i) o += (i ? ", " : "") + std::to_string((unsigned)(uint8_t)v.s[i]); return o + "]"; }
    case MSG: return text_of(*v.m);
  }
  return "";
}
static std::string text_of(const MsgV& v) {
  std::string o = "{"; 
  auto F = [&](size_t i) {
    const FieldD& fd = v.d->f[i];
    if (o.size() > 1) o += ",";
    o += " \"" + std::string(fd.name) + "\": ";
    if (fd.label == REP) { o += "["; for (size_t k = 0; k < v.f[i].rep.size(); ++k) o += (k ? ", " : "") + text_val(fd, v.f[i].rep[k]); o += "]"; }
    else o += text_val(fd, v.f[i].one);
    o += " ";
  };
  for (size_t i = 0; i < v.f.size(); ++i) if (v.d->f[i].label != ONE) F(i);
  for (size_t k = 0; k < v.d->oneofs.size(); ++k) { int w = v.which((int)k); if (w >= 0) F((size_t)w); }
  return o + "}";
}
void run_C16() {
  std::vector<std::string> names = {"MiniA", "MiniB", "MiniC", "MiniD", "Names", "Scal", "Opt", "One", "Rep", "T1", "C4", "WithEmpty", "Num0", "NumO", "Mid"};
  if (cx.thorough) names.push_back("T2");
  each_value(names, cx.thorough ? 2 : 1, [](const Instance* i, const MsgV& v) {
    PM m(i->make());
    m->put(v, 0);
    cur.phase = "to_string with ample space";
    static std::vector<char> bigbuf(1 << 17);
    auto run = [&](char* buf, uint32_t n, char*& rest, uint32_t& rn) { if (m->to_string(buf, n, &rest, &rn) != 0) { fprintf(stderr, "no to_string\n"); exit(3); } };
    char* rest = nullptr; uint32_t rn = 0;
    run(bigbuf.data(), (uint32_t)bigbuf.size(), rest, rn);
    std::string full(bigbuf.data());
    VCHECK(full.size() + 1 < bigbuf.size(), "dump too long for the harness");
    VCHECK(rest == bigbuf.data() + full.size() && rn == bigbuf.size() - full.size(), "returned remainder does not start behind the text");
    std::string want = text_of(v);
    VCHECK(norm(full) == norm(want), "text is " + lim(norm(full)) + " expected " + lim(norm(want)) + " lengths " + std::to_string(norm(full).size()) + "/" + std::to_string(norm(want).size()));
    VCHECK(commas(full) == commas(want), "separators: text is " + lim(commas(full)) + " expected " + lim(commas(want)));
    cx.note(hid(i, full));
    cur.phase = "to_string with limited space";
    size_t L = full.size();
    // all sizes for a part of the values, boundary sizes for the rest
    bool all = cx.thorough ? L < 1500 || (cx.evals % 16) == 0 : L < 400 ? true : (cx.evals % 40) == 0 || cx.only >= 0;
    for (size_t n = 0; n <= L + 2; ++n) {
      if (!all && n > 3 && n + 3 < L && n % 61) continue;
      cur.a = (long)n; cur.b = (long)L;
      char* buf = (char*)malloc(n + 1);   // one guard byte, and a red zone behind it
      memset(buf, 0x5A, n + 1);
      run(buf, (uint32_t)n, rest, rn);
      ++cx.transitions;
      VCHECK((unsigned char)buf[n] == 0x5A, "wrote outside of an array of " + std::to_string(n) + " characters");
      VCHECK(rest >= buf && rest <= buf + n && rn <= (size_t)(buf + n - rest), "returned remainder lies outside of the array of " + std::to_string(n) + " characters");
      if (n > 0) {
        size_t l = strnlen(buf, n);
        VCHECK(l < n, "text in an array of " + std::to_string(n) + " characters is not terminated");
        VCHECK(memcmp(buf, full.data(), l) == 0, "text in an array of " + std::to_string(n) + " characters is not a prefix of the full text");
        if (n > L) VCHECK(l == L, "text is cut although the array of " + std::to_string(n) + " characters is large enough");
      }
      free(buf);
    }
    cur.a = cur.b = 0;
    if (cx.samp()) cx.sample(lim(norm(full)));
  });
}

// ------------------------------------------------------------------ C18
void run_C18() {
  for (const Instance* i : insts({})) {
    cx.section = i->name;
    if (cx.begin()) { ctx(i, "field numbers and names"); PM m(i->make()); Chk c; m->meta(i->d, c); VCHECK(c.ok, c.why); observe(*m, i->d); VCHECK(observe(*m, i->d) == MsgV(i->d), "a new message is not the default message"); }
    std::vector<MsgV> bases = prestates(i->d);
    for (size_t f = 0; f < i->d->f.size(); ++f) {
      const FieldD& fd = i->d->f[f];
      std::vector<FieldV> dm = field_domain(fd, i->d->f.size() > 30 ? 0 : is_big(i) ? 0 : 2);
      for (size_t bi = 0; bi < bases.size(); ++bi) for (auto& fv : dm) for (int how = 0; how < 2; ++how) {
        if (!cx.begin()) continue;
        ctx(i, "write one field");
        PM m(i->make());
        m->put(bases[bi], 0);
        MsgV want(bases[bi]);
        if (fd.label == ONE) { if (fv.has) want.clear_oneof(fd.oneof); else { if (want.f[f].has) want.clear_field(f); } if (fv.has) want.f[f] = fv; }
        else want.f[f] = fv;
        cur.val = &want;
        // write this field alone through its own accessors
        auto op = [&](int k, const Val& v, uint32_t idx) { Op o; o.k = k; o.f = (int)f; o.val = v; o.idx = idx; int e = m->op(o); if (e == NOTSUP && k == OP_MUT) { o.k = fd.kind == STR || fd.kind == BYT ? OP_STRASSIGN : OP_SETM; e = m->op(o); } VCHECK(e == 0, std::string("accessor of ") + fd.name + " fails with " + es(e)); };
        if (fd.label == REP) { op(OP_CLEARF, Val(), 0); for (size_t k = 0; k < fv.rep.size(); ++k) op(how ? OP_SETIDX : OP_ADD, fv.rep[k], (uint32_t)k); }
        else if ((fd.label == OPT || fd.label == ONE) && !fv.has) op(OP_CLEARF, Val(), 0);
        else op(how ? OP_MUT : OP_SET, fv.one, 0);
        MsgV o = observe(*m, i->d);
        VCHECK(o == want, std::string("writing ") + fd.name + ": " + first_diff(o, want));
        std::string b = serialize_ok(*m);
        MsgV back(i->d); DecRes r = decode(back, b);   // field number and wire type as declared
        VCHECK(r.ok && back == want, std::string("the encoding of ") + fd.name + " does not carry the declared number and type: " + hex(b).substr(0, 120));
        cx.note(hid(i, b, f * 4 + how));
        if (cx.samp()) cx.sample(std::string(i->d->name) + "." + fd.name + " on " + lim(canon(bases[bi])) + " -> " + lim(canon(want)));
        cur.val = nullptr;
      }
    }
    cx.stats["fields"] += i->d->f.size();
  }
}

// ------------------------------------------------------------------ C26
// What a reader that knows B may know of the value a, by field number; every field known to both has the same type in both.
static void project(const MsgV& a, MsgV& b) {
  for (size_t k = 0; k < b.f.size(); ++k) {
    const FieldD& fb = b.d->f[k];
    int j = a.d->index_of(fb.num);
    if (j < 0) continue;
    const FieldD& fa = a.d->f[j];
    if (fa.kind != fb.kind || fa.label != fb.label || strcmp(fa.name, fb.name)) { fprintf(stderr, "versions.proto: %s\n", fa.name); exit(3); }
    auto one = [&](const Val& x) { Val y; y.u = x.u; y.s = x.s; if (fb.kind == MSG) { y.m = std::make_shared<MsgV>(fb.sub); project(*x.m, *y.m); } return y; };
    if (fb.label == REP) for (auto& x : a.f[j].rep) b.f[k].rep.push_back(one(x));
    else if (fb.label == IMPL || a.f[j].has) { b.f[k].has = a.f[j].has; b.f[k].one = one(a.f[j].one); }
  }
}
static void cross(const Instance* B, const std::string& in, const MsgV* want) {
  cur.inst = B; cur.bytes = &in;
  MsgV mv(B->d); DecRes r = decode(mv, in);
  if (r.unspec) { ++cx.stats["unspecified_inputs"]; return; }
  VCHECK(!want || (r.ok && mv == *want), "MODEL: the reference decoder disagrees with the projection");
  for (int rb = 0; rb < 2; ++rb) {
    PM m(B->make());
    int e = rb ? des_mon(*m, in) : des_fixed(*m, in);
    if (!r.ok) { VCHECK(e > 0 && e < 8 && (r.errs >> e & 1), "expected " + err_mask_str(r.errs) + ", got " + es(e)); ++cx.stats["refused_as_expected"]; continue; }
    VCHECK(e == 0, "data of the other version refused with " + es(e));
    MsgV o = observe(*m, B->d);
    VCHECK(o == mv, "data of the other version decodes to " + first_diff(o, mv));
    if (rb) continue;
    ++cx.stats["read_by_the_other_version"];
    if (r.depth_unknown) ++cx.stats["with_unknown_fields"];
    if (!r.nonascii) {
      MsgV g(B->d);
      VCHECK(g_decode(B->d, in, g, nullptr, nullptr), "MODEL: libprotobuf refuses what the reference model accepts");
      VCHECK(g == o, "libprotobuf reads " + first_diff(g, o));
    }
  }
  if (r.depth_unknown && in.size() > 8 && cx.samples.size() < 6 && (cx.evals & 63) < 8) cx.sample(std::string("read as ") + B->d->name + ": " + lim(hex(in)) + " -> " + (r.ok ? lim(canon(mv)) : err_mask_str(r.errs)));
}
void run_C26() {
  std::vector<const Instance*> all = insts({}), ver, same;
  for (auto i : all) { std::string n = i->name; if (n.substr(0, 3) == "Ver") { ver.push_back(i); if (n != "Ver4") same.push_back(i); } }
  auto is = [](const std::vector<const Instance*>& l, const Instance* i) { return std::find(l.begin(), l.end(), i) != l.end(); };
  // one message from any writer to any reader, and back
  for (const Instance* A : all) {
    cx.section = A->name;
    for_values(A->d, is(ver, A) ? 2 : cx.thorough ? 2 : 1, [&](const MsgV& v) {
      std::string b;
      for (const Instance* B : all) {
        if (A == B || !cx.begin()) continue;
        if (b.empty()) { ctx(A, "writer"); cur.val = &v; PM m(A->make()); m->put(v, 0); b = serialize_ok(*m); }
        ctx(A, "one version writes, another reads"); cur.val = &v;
        cx.note(hid(B, b, h64(A->name, strlen(A->name))));
        bool fam = is(same, A) && is(same, B);
        MsgV want(B->d);
        if (fam) project(v, want);
        cross(B, b, fam ? &want : nullptr);
        if (fam) {   // there and back: what both know is still there
          cur.inst = B; cur.phase = "written by one version, read and written by another, read by the first";
          PM m(B->make()); VCHECK(des_fixed(*m, b) == 0, "refused");
          std::string back = serialize_ok(*m); cur.bytes = &back;
          MsgV w2(A->d); project(want, w2);
          PM k(A->make()); int e = des_fixed(*k, back);
          VCHECK(e == 0, "the way back is refused with " + es(e));
          MsgV o = observe(*k, A->d);
          VCHECK(o == w2, "there and back: " + first_diff(o, w2));
          ++cx.stats["there_and_back"];
        }
        cur.bytes = nullptr;
      }
    });
  }
  // data of two versions one after the other, read by each version
  for (const Instance* A : ver) {
    cx.section = std::string(A->name) + "+";
    std::vector<MsgV> va = values(A->d, cx.thorough ? 1 : 0);
    for (const Instance* C : ver) {
      std::vector<MsgV> vc = values(C->d, 0);
      for (auto& x : va) for (auto& y : vc) for (const Instance* B : ver) {
        if (!cx.begin()) continue;
        ctx(A, "data of two versions, one after the other"); cur.val = &x;
        PM m(A->make()); m->put(x, 0); std::string b = serialize_ok(*m);
        PM k(C->make()); k->put(y, 0); b += serialize_ok(*k);
        cx.note(hid(B, b, 3));
        cross(B, b, nullptr);
        cur.bytes = nullptr;
      }
    }
  }
}

// ------------------------------------------------------------------ C20: digest of everything observable, one line per block of cases
void run_C20() {
  uint64_t h = 1; uint64_t n = 0; std::string blk;
  auto flush = [&]() { printf("DIGEST %s %llu %016llx\n", blk.c_str(), (unsigned long long)n, (unsigned long long)h); h = 1; n = 0; };
  for (const Instance* i : insts({})) {
    cx.section = i->name; blk = i->name;
    bool wide = i->d->f.size() > 30;
    if (cx.only < 0) cur = Cur();
    for_values(i->d, wide ? 0 : cx.thorough ? 2 : 1, [&](const MsgV& v) {
      ++cx.evals; ctx(i, "digest: serialize"); cur.val = &v;
      if ((cx.evals & 255) == 0) tick();
      PM m(i->make()); m->put(v, 1);
      MonWrite w; int e = m->ser(w);
      h = h64(w.out, h + (uint64_t)e * 31 + m->size()); 
      MonWrite w2((uint32_t)(w.out.size() / 2)); e = m->ser(w2); h = h64(w2.out, h + (uint64_t)e);
      cx.note(hid(i, w.out)); ++n;
      PM c(m->copy_ctor()); MsgV o = observe(*c, i->d); h = h64(canon(o), h);
    });
    flush();
    blk = std::string(i->name) + "/in";
    std::vector<Rec> m1 = record_menu(i->d, wide ? 0 : 1), m0 = record_menu(i->d, 0);
    auto in = [&](const std::string& s) {
      ++cx.evals; ctx(i, "digest: decode"); cur.bytes = &s;
      if ((cx.evals & 255) == 0) tick();
      PM m(i->make()); int e = des_fixed(*m, s);
      MsgV o = observe(*m, i->d);
      h = h64(canon(o), h + (uint64_t)e); ++n; cx.note(hid(i, s, 1));
      m->clear(); MsgV z = observe(*m, i->d); h = h64(canon(z), h);
      if (cx.samp() && s.size() > 2) cx.sample(std::string(i->d->name) + " " + lim(hex(s)) + " -> " + es(e) + " " + lim(canon(o)));
    };
    for (auto& a : m1) { in(a.bytes); for (size_t k = 1; k < a.bytes.size(); ++k) in(a.bytes.substr(0, k)); }
    if (!wide && m0.size() < 80) for (auto& a : m0) for (auto& b : m0) in(a.bytes + b.bytes);
    for (auto& b : bad_menu(i->d)) in(b);
    for (auto& u : unknown_menu(i->d, 1)) in(u);
    flush();
  }
}
