#include "harness.h"
#include <cstdio>
#include <cstdlib>
#include <csignal>
#include <sys/time.h>
#include <unistd.h>
#include <algorithm>

Ctx cx; Cur cur; volatile int g_alloc_pause = 0;
std::vector<Instance>& instances() { static std::vector<Instance> v; return v; }

uint64_t h64(const void* p, size_t n, uint64_t h) {
  const uint8_t* b = (const uint8_t*)p;
  for (; n >= 8; n -= 8, b += 8) { uint64_t x; memcpy(&x, b, 8); h = (h ^ x) * 0xff51afd7ed558ccdull; h ^= h >> 32; }
  for (; n; --n, ++b) { h = (h ^ *b) * 0x100000001b3ull; h ^= h >> 29; }
  h ^= h >> 33; h *= 0xc4ceb9fe1a85ec53ull; h ^= h >> 33;
  return h ? h : 1;
}
void Ctx::note(uint64_t h) {
  if (used * 2 >= tab.size()) {
    std::vector<uint64_t> o; o.swap(tab);
    tab.assign(o.empty() ? 1 << 16 : o.size() * 2, 0); used = 0;
    for (uint64_t x : o) if (x) note(x);
  }
  size_t i = h & (tab.size() - 1);
  while (tab[i] && tab[i] != h) i = (i + 1) & (tab.size() - 1);
  if (!tab[i]) { tab[i] = h; ++used; }
}
static std::string lim(const std::string& s, size_t n) { return s.size() > n ? s.substr(0, n) + "...(" + std::to_string(s.size()) + ")" : s; }
std::string Cur::text() const {
  std::string o = "section=" + cx.section + " case=" + std::to_string((long long)cx.counter - 1);
  if (inst) o += " message=" + std::string(inst->d->name) + "(" + inst->name + ")";
  o += std::string(" phase=") + phase;
  if (bytes) o += " bytes=" + lim(hex(*bytes), 400);
  if (pre) o += " before=" + lim(hex(*pre), 400);
  if (val) o += " value=" + lim(canon(*val), 600);
  if (ops && inst) { o += " ops="; for (const Op* p : *ops) o += op_str(*p, inst->d) + "; "; }
  if (a || b) o += " a=" + std::to_string(a) + " b=" + std::to_string(b);
  return o;
}
static bool in_report = false;
static void report(const std::string& msg) {
  if (in_report) return;
  in_report = true;
  std::string t = cur.text();
  for (char& c : t) if (c == '\n') c = ' ';
  std::string m = msg;
  for (char& c : m) if (c == '\n') c = ' ';
  printf("FAIL case=%lld :: %s :: %s\n", (long long)cx.counter - 1, m.c_str(), t.c_str());
  fflush(stdout);
}
void violation(const std::string& msg) { report(msg); fflush(stdout); _exit(1); }
extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
static void on_death() { report("sanitizer report (memory or undefined behaviour error), see the log"); _exit(1); }
static void on_sig(int s) { report(s == SIGPROF ? "does not terminate (CPU time limit for one case)" : "crash: signal " + std::to_string(s)); _exit(1); }
void arm_watchdog() {
  if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(on_death);
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) signal(s, on_sig);
  signal(SIGPROF, on_sig);
  tick();
}
void tick() {  // 20 s of CPU time per group of 256 cases, see Ctx::begin
  struct itimerval t; memset(&t, 0, sizeof t); t.it_value.tv_sec = 20; setitimer(ITIMER_PROF, &t, nullptr);
}

std::string op_str(const Op& o, const MsgD* d) {
  static const char* N[] = {"set", "set&&", "mutable=", "mutable", "clear_field", "str.set", "str.set_cstr", "str.set_null", "str[]=", "str=", "str.set<9>",
    "add", "mutable.add", "set(i)", "set&&(i)", "mutable(i)=", "mutable.get(i)", "set(rep)", "mutable=(rep)", "set_data", "mutable.clear", "nest", "nest(i)", "from",
    "clear", "decode", "copy_ctor", "move_ctor", "assign", "move_assign", "self_assign", "serialize"};
  std::string s = N[o.k];
  const FieldD* fd = (o.f >= 0 && d && (size_t)o.f < d->f.size()) ? &d->f[o.f] : nullptr;
  if (fd) s += std::string(" ") + fd->name;
  if (o.k == OP_SETIDX || o.k == OP_SETIDXM || o.k == OP_MUTIDX || o.k == OP_RGET || o.k == OP_STRIDX || o.k == OP_NESTI) s += "[" + std::to_string(o.idx) + "]";
  if (fd && !o.vals.empty()) { s += " {"; for (auto& v : o.vals) s += (v.m || fd->kind != MSG ? canon_val(*fd, v) : "") + ","; s += "}"; }
  else if (o.k == OP_STRIDX) s += " " + std::to_string(o.val.u);
  else if (fd && (o.k <= OP_MUT || o.k == OP_ADD || o.k == OP_ADDE || o.k == OP_SETIDX || o.k == OP_SETIDXM || o.k == OP_MUTIDX || (o.k >= OP_STRSET && o.k <= OP_STRTMPL)))
    s += " " + ((o.val.m || fd->kind != MSG) ? canon_val(*fd, o.val) : "");
  if (o.k == OP_FROM && fd && o.idx < d->f.size()) s += std::string(" out of ") + d->f[o.idx].name + " variant " + std::to_string(o.val.u & 255) + " i=" + std::to_string(o.val.u >> 8 & 255) + " j=" + std::to_string(o.val.u >> 16 & 255) + " n=" + std::to_string(o.val.u >> 24 & 255);
  if (o.k == OP_DECODE) s += " " + hex(o.bytes);
  if (o.mv) s += " " + canon(*o.mv);
  if (o.next && fd) s += " -> " + op_str(*o.next, fd->sub);
  return s;
}

void observe_into(const IMsg& m, const MsgD* d, MsgV& v) {
  Chk c;
  if (v.d != d) v.reset(d);
  // fields the adapter does not fill in (unset oneof members) are reset
  for (size_t i = 0; i < v.f.size(); ++i) if (d->f[i].label == ONE || d->f[i].kind == MSG) v.clear_field(i);
  m.observe(v, c);
  if (!c.ok) violation("accessors are inconsistent: " + c.why);
}
MsgV observe(const IMsg& m, const MsgD* d) { MsgV v(d); observe_into(m, d, v); return v; }
std::string serialize_ok(const IMsg& m) {
  MonWrite w;
  int e = m.ser(w);
  VCHECK(e == 0, "serialization into unlimited space fails with " + err_mask_str(1u << e));
  return w.out;
}
static const size_t RBN = 96;
int des_fixed(IMsg& m, const std::string& s) {
  if (s.size() > RBN - 16) {
    if (s.size() > 40000) return des_mon(m, s);
    typedef EmbeddedProto::ReadBufferFixedSize<40016> RB;
    static RB* rb = nullptr; if (!rb) rb = new RB;
    rb->clear(); memcpy(rb->get_data(), s.data(), s.size());
    for (size_t i = s.size(); i < s.size() + 16; ++i) rb->get_data()[i] = 0x01;
    rb->set_bytes_written((uint32_t)s.size());
    return m.des(*rb);
  }
  EmbeddedProto::ReadBufferFixedSize<RBN> rb;
  uint8_t* p = rb.get_data();
  memcpy(p, s.data(), s.size());
  for (size_t i = s.size(); i < RBN; ++i) p[i] = 0x01;
  rb.set_bytes_written((uint32_t)s.size());
  return m.des(rb);
}
int des_mon(IMsg& m, const std::string& s) { MonRead r(s); return m.des(r); }

template<uint32_t N> struct WBMaker {
  static EmbeddedProto::WriteBufferInterface* mk(uint32_t n, uint8_t** d) {
    if (n == N) { auto* w = new EmbeddedProto::WriteBufferFixedSize<N>; *d = w->get_data(); return w; }
    return WBMaker<N - 1>::mk(n, d);
  }
};
template<> struct WBMaker<0> { static EmbeddedProto::WriteBufferInterface* mk(uint32_t, uint8_t**) { return nullptr; } };
EmbeddedProto::WriteBufferInterface* make_wb(uint32_t n, uint8_t** d) { return WBMaker<80>::mk(n, d); }
uint32_t max_wb() { return 80; }

std::vector<const Instance*> insts(const std::vector<std::string>& names) {
  std::vector<const Instance*> r;
  if (names.empty()) for (auto& i : instances()) r.push_back(&i);
  else for (auto& n : names) {
    const Instance* f = nullptr;
    for (auto& i : instances()) if (n == i.name) f = &i;
    if (!f && cx.skip_missing) continue;
    if (!f) { fprintf(stderr, "instance %s not linked\n", n.c_str()); exit(3); }
    r.push_back(f);
  }
  std::sort(r.begin(), r.end(), [](const Instance* a, const Instance* b) { return strcmp(a->name, b->name) < 0; });
  if (!cx.only_inst.empty()) r.erase(std::remove_if(r.begin(), r.end(), [](const Instance* i) { return cx.only_inst != i->name; }), r.end());
  return r;
}
std::string first_diff(const MsgV& a, const MsgV& b) { return "got " + lim(canon(a), 500) + " expected " + lim(canon(b), 500); }
