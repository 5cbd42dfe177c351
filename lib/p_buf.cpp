// Explicit-state search over operation histories of the buffers, sections and bounded sequences of the library.
#include "harness.h"
#include <ReadBufferSection.h>
#include <MessageSizeCalculator.h>
#include <unordered_set>
#include <deque>
#include <algorithm>
using namespace EmbeddedProto;

static std::string hist_text;
static std::string us(uint64_t x) { return std::to_string(x); }
[[noreturn]] static void bad(const std::string& m) { violation(m + " :: history " + hist_text); }

// ------------------------------------------------------------------ C14
struct BOp { int k; uint32_t a; };
enum { B_PUSH, B_FILL, B_CLEAR, B_POP, B_PEEK, B_ADV, B_ADVN, B_OPEN, B_CLOSE };
static const char* BN[] = {"push", "fill", "clear", "pop", "peek", "advance", "advance", "open section", "close section"};
static std::string bstr(const BOp& o) { return std::string(BN[o.k]) + (o.k == B_PUSH || o.k == B_FILL || o.k == B_ADVN || o.k == B_OPEN ? "(" + us(o.a) + ")" : "") + "; "; }

struct RModel {
  std::vector<uint8_t> data; uint32_t w = 0, r = 0; std::vector<std::pair<uint32_t, uint32_t>> sec;  // (end position, total size)
  uint32_t end(size_t lvl) const { return lvl == 0 ? std::max(w, r) : sec[lvl - 1].first; }
  std::string key() const { std::string s((const char*)data.data(), data.size()); for (uint32_t x : {w, r}) s += "," + us(x); for (auto& p : sec) s += ";" + us(p.first) + "/" + us(p.second); return s; }
};
template<uint32_t N> struct RWorld {
  std::unique_ptr<ReadBufferFixedSize<N>> b; std::vector<std::unique_ptr<ReadBufferSection>> s; RModel m;
  RWorld() : b(new ReadBufferFixedSize<N>) { m.data.assign(N, 0); }
  ReadBufferInterface& top() { if (s.empty()) return *b; return *s.back(); }
  bool enabled(const BOp& o, size_t maxsec) const {
    // less data than was already read: nothing is left; what more data would then mean is open until the next clear
    if (m.w < m.r && (o.k == B_FILL || o.k == B_PUSH)) return false;
    if (o.k == B_FILL) return s.empty();
    if (o.k == B_CLEAR) return s.empty();
    if (o.k == B_OPEN) return s.size() < maxsec;
    if (o.k == B_CLOSE) return !s.empty();
    return true;
  }
  void check_sizes() {
    for (size_t l = 0; l <= s.size(); ++l) {
      uint32_t want = m.end(l) - m.r;
      uint32_t got = l == 0 ? b->get_size() : s[l - 1]->get_size();
      if (got != want) bad(std::string(l ? "section " : "buffer ") + us(l) + " reports " + us(got) + " bytes left, " + us(want) + " are");
      uint32_t mx = l == 0 ? b->get_max_size() : s[l - 1]->get_max_size(), wm = l == 0 ? N : m.sec[l - 1].second;
      if (mx != wm) bad(std::string(l ? "section " : "buffer ") + us(l) + " reports a total size of " + us(mx) + " instead of " + us(wm));
    }
  }
  void run(const BOp& o) {
    uint32_t left = m.end(m.sec.size()) - m.r;
    switch (o.k) {
      case B_PUSH: {
        bool ok = b->push((uint8_t)o.a);
        if (ok != (m.w < N)) bad(std::string("push reports ") + (ok ? "success" : "failure"));
        if (m.w < N) m.data[m.w++] = (uint8_t)o.a;
        break; }
      case B_FILL: {
        uint8_t* d = b->get_data();
        for (uint32_t k = m.r; k < std::min(o.a, N); ++k) d[k] = m.data[k] = (uint8_t)(0x60 + k + 7 * (k >> 8) + 3 * (k >> 16));
        b->set_bytes_written(o.a); m.w = std::min(o.a, N);
        break; }
      case B_CLEAR: b->clear(); m.w = m.r = 0; break;
      case B_POP: case B_PEEK: {
        uint8_t x = 0xEE; bool ok = o.k == B_POP ? top().pop(x) : top().peek(x);
        if (ok != (left > 0)) bad(std::string(BN[o.k]) + " reports " + (ok ? "success" : "failure") + " with " + us(left) + " bytes left");
        if (ok && x != m.data[m.r]) bad(std::string(BN[o.k]) + " delivers " + us(x) + " instead of " + us(m.data[m.r]));
        if (ok && o.k == B_POP) ++m.r;
        break; }
      case B_ADV: { bool ok = top().advance(); if (ok != (left > 0)) bad(std::string("advance() reports ") + (ok ? "success" : "failure") + " with " + us(left) + " bytes left"); if (ok) ++m.r; break; }
      case B_ADVN: {
        bool ok = top().advance(o.a);
        if (ok != (o.a <= left)) bad("advance(" + us(o.a) + ") reports " + (ok ? "success" : "failure") + " with " + us(left) + " bytes left");
        if (ok) m.r += o.a;
        else {  // how far a refused advance moves is left open, but never backwards or past the end of the section
          uint32_t now = top().get_size();
          if (now > left) bad("a refused advance(" + us(o.a) + ") moves outside of the data");
          m.r = m.end(m.sec.size()) - now;
        }
        break; }
      case B_OPEN: {
        uint32_t n = std::min(o.a, left);
        s.emplace_back(new ReadBufferSection(top(), o.a));
        m.sec.push_back(std::make_pair(m.r + n, n));
        break; }
      case B_CLOSE: s.pop_back(); m.sec.pop_back(); break;
    }
    check_sizes();
  }
  // every remaining byte, observed without changing the state (on a copy replayed by the caller)
  void drain() {
    while (true) {
      uint8_t x = 0; uint32_t left = m.end(m.sec.size()) - m.r; bool ok = top().pop(x);
      if (ok != (left > 0)) bad("draining: pop reports " + std::string(ok ? "success" : "failure") + " with " + us(left) + " bytes left");
      if (!ok) { if (s.empty()) break; s.pop_back(); m.sec.pop_back(); check_sizes(); continue; }
      if (x != m.data[m.r]) bad("draining: delivers " + us(x) + " instead of " + us(m.data[m.r]));
      ++m.r; check_sizes();
    }
  }
  std::string raw() const { return std::string((const char*)b.get() + sizeof(void*), sizeof(*b) - sizeof(void*)); }
};
template<uint32_t N> static void search_read(int depth, size_t maxsec, size_t cap) {
  if (cx.lite) { depth = std::min(depth, 4); cap = std::min<size_t>(cap, 3000); }
  cx.section = "ReadBufferFixedSize<" + us(N) + ">";
  if (!cx.want()) return;
  std::vector<BOp> al = {{B_PUSH, 0xA1}, {B_PUSH, 0xB2}, {B_POP, 0}, {B_PEEK, 0}, {B_ADV, 0}, {B_CLEAR, 0}, {B_CLOSE, 0}, {B_ADVN, 0}, {B_ADVN, 1}, {B_ADVN, 2}, {B_ADVN, 3}, {B_ADVN, N}, {B_ADVN, N + 1},
    {B_ADVN, 0x7FFFFFFFu}, {B_ADVN, 0x80000000u}, {B_ADVN, 0xFFFFFFFFu}, {B_ADVN, 0xFFFFFFFEu}, {B_ADVN, 0u - N}, {B_FILL, 0}, {B_FILL, 1}, {B_FILL, 2}, {B_FILL, N}, {B_FILL, N + 1}, {B_FILL, 0xFFFFFFFFu},
    {B_OPEN, 0}, {B_OPEN, 1}, {B_OPEN, 2}, {B_OPEN, 3}, {B_OPEN, N}, {B_OPEN, N + 1}, {B_OPEN, 0x80000000u}, {B_OPEN, 0xFFFFFFFFu}};
  if (N > 64) for (uint32_t x : {127u, 128u, 255u, 256u, 257u, N / 2, N - 1}) { al.push_back({B_ADVN, x}); al.push_back({B_OPEN, x}); }
  if (N > 1000) {
    al = {{B_PUSH, 0xA1}, {B_POP, 0}, {B_PEEK, 0}, {B_ADV, 0}, {B_CLEAR, 0}, {B_CLOSE, 0}, {B_FILL, N}, {B_FILL, N - 1}, {B_FILL, N + 1}};
    for (uint32_t x : {1u, 255u, 256u, 65535u, 65536u, 65537u, N - 1, N, N + 1, 0xFFFFFFFFu}) { al.push_back({B_ADVN, x}); al.push_back({B_OPEN, x}); }
  }
  struct Nd { int parent, op, depth; };
  std::vector<Nd> nodes; std::unordered_set<uint64_t> seen; bool fix = true; int reached = 0;
  auto build = [&](RWorld<N>& w, int q) { std::vector<int> p; for (int k = q; k > 0; k = nodes[(size_t)k].parent) p.push_back(nodes[(size_t)k].op); hist_text.clear(); for (size_t k = p.size(); k-- > 0;) { hist_text += bstr(al[(size_t)p[k]]); w.run(al[(size_t)p[k]]); } };
  { RWorld<N> w; hist_text = "new"; w.check_sizes(); w.drain(); Nd n = {-1, -1, 0}; nodes.push_back(n); }
  for (size_t q = 0; q < nodes.size(); ++q) {
    reached = nodes[q].depth;
    if (nodes[q].depth >= depth) { fix = false; break; }
    if (nodes.size() > cap) { fix = false; cx.stats["searches_capped"]++; break; }
    for (size_t a = 0; a < al.size(); ++a) {
      RWorld<N> w; build(w, (int)q);
      if (!w.enabled(al[a], maxsec)) continue;
      hist_text += bstr(al[a]);
      if ((++cx.evals & 1023) == 0) tick();
      w.run(al[a]); ++cx.transitions; ++cx.traces;
      uint64_t k = h64(w.raw(), h64(w.m.key(), N));
      if (!seen.insert(k).second) continue;
      cx.note(k);
      Nd n = {(int)q, (int)a, nodes[q].depth + 1}; nodes.push_back(n);
      if (cx.samples.size() < 6 && nodes.size() % 377 == 5) cx.sample(cx.section + ": " + hist_text);
      w.drain();
    }
  }
  cx.states += seen.size(); cx.stats["searches"]++; cx.stats[fix ? "searches_to_fixpoint" : "searches_bounded"]++;
  cx.stats["depth_" + cx.section] = (uint64_t)reached;
}
// Sections over a reader which refuses at some point: what the section promised is not delivered, but never reported as delivered.
static void section_over_failing() {
  cx.section = "section over a failing reader";
  for (uint32_t have = 0; have <= 5; ++have) for (uint32_t size = 0; size <= 6; ++size) for (long fail = 0; fail <= 6; ++fail) for (int once = 0; once < 2; ++once) for (int kind = 0; kind < 3; ++kind) {
    if (!cx.begin()) continue;
    std::string d; for (uint32_t k = 0; k < have; ++k) d += (char)(0x31 + k);
    hist_text = "have=" + us(have) + " section=" + us(size) + " refuse read " + us((uint64_t)fail) + (once ? " once" : "") + " kind " + us((uint64_t)kind);
    MonRead mr(d); mr.fail_at = fail; mr.fail_once = once;
    ReadBufferSection s(mr, size);
    uint32_t lim = std::min(size, have), got = 0; cx.note(h64(hist_text));
    for (int step = 0; step < 12; ++step) {
      long before = mr.pops; size_t pos = mr.pos;
      bool refuse = fail >= 0 && (once ? before == fail : before >= fail);
      uint8_t x = 0; bool ok = kind == 0 ? s.pop(x) : kind == 1 ? s.advance() : s.advance(2u);
      uint32_t amount = kind == 2 ? 2 : 1;
      ++cx.transitions;
      if (ok) {
        if (refuse) bad("section reports success for a read the outer buffer refused");
        if (mr.pos != pos + amount) bad("section reports success but the outer buffer moved by " + us(mr.pos - pos));
        if (kind == 0 && x != (uint8_t)(0x31 + pos)) bad("wrong byte through the section");
        got += amount;
      }
      if (mr.pos > lim) bad("section moved the outer buffer past its limit");
      if (got > lim) bad("section delivers more than its size");
    }
  }
}
void run_C14() {
  bool T = cx.thorough;
  search_read<1>(40, 3, 400000); search_read<2>(40, T ? 3 : 2, 400000); search_read<3>(T ? 40 : 7, 2, T ? 600000 : 60000); search_read<4>(T ? 12 : 6, 2, T ? 600000 : 60000);
  search_read<5>(T ? 7 : 5, T ? 3 : 2, T ? 600000 : 60000); search_read<8>(T ? 7 : 5, 3, T ? 600000 : 60000); search_read<3>(T ? 8 : 6, 4, T ? 600000 : 60000); search_read<255>(T ? 5 : 3, 2, 60000); search_read<256>(T ? 5 : 3, 2, 60000); search_read<257>(T ? 5 : 4, 2, 60000); search_read<300>(T ? 5 : 3, 2, 60000);
  search_read<65535>(T ? 4 : 3, 2, 60000); search_read<65536>(T ? 4 : 3, 2, 60000); search_read<65537>(T ? 4 : 3, 2, 60000); search_read<70000>(T ? 4 : 3, 2, 60000);
  section_over_failing();
}

// ------------------------------------------------------------------ C15
struct WOp { int k; uint32_t a; uint8_t v; };
enum { W_PUSH, W_BLOCK, W_CLEAR };
static std::string wstr(const WOp& o) { return o.k == W_PUSH ? "push(" + us(o.v) + "); " : o.k == W_BLOCK ? "push(block," + us(o.a) + "); " : "clear; "; }
template<uint32_t N> struct WWorld {
  struct Guarded { uint8_t pre[16]; WriteBufferFixedSize<N> b; uint8_t post[16]; };
  std::unique_ptr<Guarded> g; std::vector<uint8_t> acc; MessageSizeCalculator calc; uint64_t counted = 0;
  WWorld() : g(new Guarded) { memset(g->pre, 0x77, 16); memset(g->post, 0x77, 16); }
  void check() {
    auto& b = g->b;
    for (int k = 0; k < 16; ++k) if (g->pre[k] != 0x77 || g->post[k] != 0x77) bad("memory around the buffer is changed");
    if (b.get_size() != acc.size()) bad("size " + us(b.get_size()) + " instead of " + us(acc.size()));
    if (b.get_available_size() != N - acc.size()) bad("available size " + us(b.get_available_size()) + " instead of " + us(N - acc.size()));
    if (b.get_max_size() != N) bad("maximum size wrong");
    if (!acc.empty() && memcmp(b.get_data(), acc.data(), acc.size()) != 0) bad("stored bytes differ from the accepted bytes: " + hex(std::string((const char*)b.get_data(), acc.size())) + " instead of " + hex(std::string((const char*)acc.data(), acc.size())));
    if (calc.get_size() != (uint32_t)counted) bad("the size calculator counts " + us(calc.get_size()) + " instead of " + us(counted));
    if (calc.get_available_size() < 0x7FFFFFFFu || calc.get_max_size() < 0x7FFFFFFFu) bad("the size calculator runs out of space");
  }
  void run(const WOp& o) {
    auto& b = g->b;
    std::string before((const char*)b.get_data(), N);
    bool ok = true, want = true;
    if (o.k == W_CLEAR) { b.clear(); acc.clear(); calc.clear(); counted = 0; }
    else if (o.k == W_PUSH) {
      want = acc.size() < N; ok = b.push(o.v); if (want) acc.push_back(o.v);
      if (!calc.push(o.v)) bad("the size calculator refuses a byte");
      ++counted;
    } else {
      const uint32_t BL = N > 600 ? N : 600; static uint8_t blk[BL]; for (uint32_t k = 0; k < sizeof blk; ++k) blk[k] = (uint8_t)(o.v + k + 7 * (k >> 8) + 3 * (k >> 16));
      want = o.a <= N - acc.size(); ok = b.push(blk, o.a); if (want) acc.insert(acc.end(), blk, blk + o.a);
      if (o.a <= BL) { if (!calc.push(blk, o.a)) bad("the size calculator refuses a block"); counted += o.a; }
    }
    if (ok != want) bad(wstr(o) + (ok ? "accepted" : "refused") + " with " + us(N - acc.size()) + " bytes free");
    if (!want && memcmp(before.data(), b.get_data(), N) != 0) bad("a refused push changed the stored data");
    check();
  }
  std::string raw() const { return std::string((const char*)&g->b, sizeof(g->b)); }
};
template<uint32_t N> static void search_write(int depth, size_t cap) {
  cx.section = "WriteBufferFixedSize<" + us(N) + ">";
  if (cx.lite) { depth = std::min(depth, 4); cap = std::min<size_t>(cap, 3000); }
  if (!cx.want()) return;
  std::vector<WOp> al = {{W_PUSH, 0, 0x01}, {W_PUSH, 0, 0xF2}, {W_CLEAR, 0, 0}};
  std::set<uint32_t> ls; for (uint32_t k = 0; k <= N + 1 && k <= 8; ++k) ls.insert(k);
  ls.insert(N - 1); ls.insert(N); ls.insert(N + 1); for (uint32_t k = 1; k <= N + 1 && k <= 8; ++k) ls.insert(0u - k);
  ls.insert(0u - N); ls.insert(0x7FFFFFFFu); ls.insert(0x80000000u); ls.insert(0x100u); ls.insert(0x101u); ls.insert(0x10000u); ls.insert(0x10001u);
  for (uint32_t l : ls) { WOp o = {W_BLOCK, l, 0x30}; al.push_back(o); }
  if (N > 1000) {
    al = {{W_PUSH, 0, 0x01}, {W_CLEAR, 0, 0}};
    for (uint32_t l : {0u, 1u, 255u, 256u, 32768u, 65535u, 65536u, 65537u, N - 1, N, N + 1, 0u - N, 0u - 1}) { WOp o = {W_BLOCK, l, 0x30}; al.push_back(o); }
  }
  struct Nd { int parent, op, depth; };
  std::vector<Nd> nodes; std::unordered_set<uint64_t> seen; bool fix = true; int reached = 0;
  Nd n0 = {-1, -1, 0}; nodes.push_back(n0);
  for (size_t q = 0; q < nodes.size(); ++q) {
    reached = nodes[q].depth;
    if (nodes[q].depth >= depth) { fix = false; break; }
    if (nodes.size() > cap) { fix = false; cx.stats["searches_capped"]++; break; }
    std::vector<int> p; for (int k = (int)q; k > 0; k = nodes[(size_t)k].parent) p.push_back(nodes[(size_t)k].op);
    for (size_t a = 0; a < al.size(); ++a) {
      WWorld<N> w; hist_text = "new; "; w.check();
      for (size_t k = p.size(); k-- > 0;) { hist_text += wstr(al[(size_t)p[k]]); w.run(al[(size_t)p[k]]); }
      hist_text += wstr(al[a]);
      if ((++cx.evals & 1023) == 0) tick();
      w.run(al[a]); ++cx.transitions; ++cx.traces;
      uint64_t k = h64(w.raw().substr(sizeof(void*)), h64(w.acc.data(), w.acc.size(), N));  // without the counter of the calculator, which is unbounded
      if (!seen.insert(k).second) continue;
      cx.note(k);
      Nd n = {(int)q, (int)a, nodes[q].depth + 1}; nodes.push_back(n);
      if (cx.samples.size() < 6 && nodes.size() % 77 == 5) cx.sample(cx.section + ": " + hist_text);
    }
  }
  cx.states += seen.size(); cx.stats["searches"]++; cx.stats[fix ? "searches_to_fixpoint" : "searches_bounded"]++;
  cx.stats["depth_" + cx.section] = (uint64_t)reached;
}
void run_C15() {
  bool T = cx.thorough;
  search_write<1>(60, 500000); search_write<2>(60, 500000); search_write<3>(60, 500000); search_write<4>(T ? 60 : 8, T ? 500000 : 60000); search_write<5>(T ? 8 : 6, T ? 500000 : 60000); search_write<6>(T ? 7 : 5, T ? 500000 : 60000);
  search_write<8>(T ? 6 : 5, T ? 500000 : 60000); search_write<16>(T ? 5 : 4, T ? 400000 : 60000); search_write<255>(T ? 5 : 3, 60000); search_write<256>(T ? 5 : 3, 60000); search_write<257>(T ? 5 : 3, 60000); search_write<300>(T ? 5 : 3, 60000);
  search_write<65535>(T ? 4 : 3, 60000); search_write<65536>(T ? 4 : 3, 60000); search_write<65537>(T ? 4 : 3, 60000); search_write<70000>(T ? 4 : 3, 60000);
}

