// What the code under test does to its surroundings: dynamic memory (C22) and other objects in use at the same time (C23).
// Built without sanitizers. Allocation functions are wrapped at link time (--wrap), operator new is replaced.
#include "harness.h"
#include <csignal>
#include <cstdarg>
#include <cstdlib>
#include <new>
#include <ucontext.h>

std::vector<Op> all_ops(const Instance* i, bool rich);
void for_alias(const Instance* i, const std::function<void(const std::vector<Op>&, const Op&)>& fn);

// ------------------------------------------------------------------ allocation monitor
static volatile int armed = 0;
static uint64_t monitored = 0;
extern "C" {
void* __real_malloc(size_t); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t); char* __real_strdup(const char*);
int __real_posix_memalign(void**, size_t, size_t); void* __real_aligned_alloc(size_t, size_t);
}
static void on_alloc(const char* what, size_t n) {
  if (armed && !g_alloc_pause) { armed = 0; violation(std::string("dynamic memory is allocated: ") + what + "(" + std::to_string(n) + ")"); }
}
extern "C" {
void* __wrap_malloc(size_t n) { on_alloc("malloc", n); return __real_malloc(n); }
void* __wrap_calloc(size_t a, size_t b) { on_alloc("calloc", a * b); return __real_calloc(a, b); }
void* __wrap_realloc(void* p, size_t n) { on_alloc("realloc", n); return __real_realloc(p, n); }
char* __wrap_strdup(const char* s) { on_alloc("strdup", strlen(s)); return __real_strdup(s); }
int __wrap_posix_memalign(void** p, size_t a, size_t n) { on_alloc("posix_memalign", n); return __real_posix_memalign(p, a, n); }
void* __wrap_aligned_alloc(size_t a, size_t n) { on_alloc("aligned_alloc", n); return __real_aligned_alloc(a, n); }
int __wrap_vasprintf(char** p, const char* f, va_list v) { on_alloc("vasprintf", 0); va_list c; va_copy(c, v); int n = vsnprintf(nullptr, 0, f, c); va_end(c); *p = (char*)__real_malloc((size_t)n + 1); return vsnprintf(*p, (size_t)n + 1, f, v); }
int __wrap_asprintf(char** p, const char* f, ...) { va_list v; va_start(v, f); int n = __wrap_vasprintf(p, f, v); va_end(v); return n; }
}
static void* newf(size_t n) { on_alloc("operator new", n); void* p = __real_malloc(n ? n : 1); if (!p) abort(); return p; }
void* operator new(size_t n) { return newf(n); }
void* operator new[](size_t n) { return newf(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return newf(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return newf(n); }
void* operator new(size_t n, std::align_val_t a) { on_alloc("operator new", n); return __real_aligned_alloc((size_t)a, (n + (size_t)a - 1) / (size_t)a * (size_t)a); }
void* operator new[](size_t n, std::align_val_t a) { return operator new(n, a); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
void operator delete(void* p, std::align_val_t) noexcept { free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { free(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { free(p); }
#define ARM(...) do { armed = 1; __VA_ARGS__; armed = 0; ++monitored; } while (0)

// ------------------------------------------------------------------ buffers without allocation, with a preemption point at every call
static void (*hook)() = nullptr;
static inline void point() { if (hook) hook(); }
struct FRead : EmbeddedProto::ReadBufferInterface {
  const uint8_t* d = nullptr; uint32_t n = 0, pos = 0;
  void set(const std::string& s) { d = (const uint8_t*)s.data(); n = (uint32_t)s.size(); pos = 0; }
  uint32_t get_size() const override { point(); return n - pos; }
  uint32_t get_max_size() const override { point(); return n; }
  bool peek(uint8_t& b) const override { point(); if (pos >= n) return false; b = d[pos]; return true; }
  bool advance() override { point(); if (pos >= n) return false; ++pos; return true; }
  bool advance(const uint32_t k) override { point(); if (k > n - pos) { pos = n; return false; } pos += k; return true; }
  bool pop(uint8_t& b) override { point(); if (pos >= n) return false; b = d[pos++]; return true; }
};
struct FWrite : EmbeddedProto::WriteBufferInterface {
  std::vector<uint8_t> st; uint32_t n = 0, cap;
  explicit FWrite(uint32_t c) : st(c ? c : 1), cap(c) {}
  void clear() override { n = 0; }
  uint32_t get_size() const override { point(); return n; }
  uint32_t get_max_size() const override { point(); return cap; }
  uint32_t get_available_size() const override { point(); return cap - n; }
  bool push(const uint8_t b) override { point(); if (n >= cap) return false; st[n++] = b; return true; }
  bool push(const uint8_t* p, const uint32_t k) override { point(); if (k > cap - n) return false; memcpy(st.data() + n, p, k); n += k; return true; }
};
static bool heavy(const Instance* i) { std::string n = i->name; return n == "Many" || n == "Huge" || n == "Big"; }
static uint64_t hid(const Instance* i, const std::string& s, uint64_t k = 0) { return h64(s, h64(i->name, strlen(i->name), 177 + k)); }
static std::string lim(const std::string& s) { return s.size() > 160 ? s.substr(0, 160) + "..." : s; }

// ------------------------------------------------------------------ C22
static void run_op(const Instance* i, PM& m, const Op& o) {
  switch (o.k) {
    case OP_CLEARALL: ARM(m->clear()); return;
    case OP_SERIALIZE: return;
    case OP_SELF: ARM(m->self_assign()); return;
    case OP_DECODE: { FRead r; r.set(o.bytes); ARM(m->des(r)); return; }
    case OP_COPYCTOR: { IMsg* c; ARM(c = m->copy_ctor()); m.reset(c); return; }
    case OP_MOVECTOR: { IMsg* c; ARM(c = m->move_ctor()); m.reset(c); return; }
    case OP_ASSIGN: case OP_MOVE: { PM t(i->make()); t->put(*o.mv, 0); if (o.k == OP_ASSIGN) { if (o.idx) ARM(t->assign(*m)); else ARM(m->assign(*t)); } else { if (o.idx) ARM(t->move_assign(*m)); else ARM(m->move_assign(*t)); } return; }
    default: ARM(m->op(o));
  }
}
void run_C22() {
  static FWrite w(4 << 20); static std::vector<char> text(4 << 20); static EmbeddedProto::ReadBufferFixedSize<4096>* fixed = new EmbeddedProto::ReadBufferFixedSize<4096>;
  { // the monitor works
    static bool once = false; if (!once) { once = true; hook = nullptr; armed = 1; g_alloc_pause = 1; void* p = malloc(3); g_alloc_pause = 0; armed = 0; free(p); }
  }
  for (const Instance* i : insts({})) {
    cx.section = i->name; bool wide = i->d->f.size() > 30;
    cur = Cur(); cur.inst = i;
    for_values(i->d, heavy(i) || wide ? (cx.thorough ? 1 : 0) : cx.thorough ? 2 : 1, [&](const MsgV& v) {
      if (!cx.begin()) return;
      tick(); cur.val = &v; cur.phase = "build and use a message";
      for (int how = 0; how < 2; ++how) {
        IMsg* p; ARM(p = i->make()); PM m(p), k(i->make());
        ARM(m->put(v, how)); ARM((void)m->size());
        w.n = 0; w.cap = (uint32_t)w.st.size(); ARM(m->ser(w));
        std::string b((const char*)w.st.data(), w.n); cx.note(hid(i, b, how));
        w.n = 0; w.cap = (uint32_t)b.size() / 2; ARM(m->ser(w)); w.cap = (uint32_t)w.st.size();
        FRead r; r.set(b); ARM(k->des(r)); r.set(b); ARM(k->des(r));
        IMsg* c; ARM(c = m->copy_ctor()); PM pc(c); ARM(c = m->move_ctor()); PM pm(c);
        ARM(k->assign(*pc)); ARM(k->self_assign()); ARM(m->move_assign(*pm)); ARM(m->clear()); ARM(m->assign(*pc));
        char* rest; uint32_t rn; if (!heavy(i)) { armed = 1; pc->to_string(text.data(), (uint32_t)text.size(), &rest, &rn); pc->to_string(text.data(), 20, &rest, &rn); armed = 0; ++monitored; }
        armed = 1; { k.reset(); } armed = 0;
        if (how == 0 && cx.samp()) cx.sample(std::string(i->d->name) + " " + lim(canon(v)) + ": built, written, read, copied, moved, assigned, dumped without allocation");
      }
    });
    cur.val = nullptr;
    auto in = [&](const std::string& s) {
      if (!cx.begin()) return;
      if (heavy(i)) tick();
      cur.bytes = &s; cur.phase = "decode"; cx.note(hid(i, s, 7));
      PM m(i->make()); FRead r; r.set(s); ARM(m->des(r)); ARM(m->des(r));
      if (s.size() < 4000) { fixed->clear(); memcpy(fixed->get_data(), s.data(), s.size()); fixed->set_bytes_written((uint32_t)s.size()); ARM(m->des(*fixed)); }
      ARM(m->clear());
      cur.bytes = nullptr;
    };
    std::vector<Rec> m1 = record_menu(i->d, wide || heavy(i) ? 0 : cx.thorough ? 2 : 1), m0 = record_menu(i->d, 0);
    for (auto& a : m1) { in(a.bytes); for (size_t k = 1; k < a.bytes.size(); k += k > 40 ? 1000 : 1) in(a.bytes.substr(0, k)); }
    if (!wide && !heavy(i)) for (auto& a : m0) for (auto& b : m0) in(a.bytes + b.bytes);
    for (auto& b : bad_menu(i->d)) in(b);
    for (auto& u : unknown_menu(i->d, 1)) in(u);
    if (heavy(i)) continue;
    std::vector<Op> ops = all_ops(i, i->d->f.size() <= 12 || (cx.thorough && !wide));
    std::vector<const Op*> hist; 
    for (auto& a : ops) {
      if (!cx.begin()) continue;
      tick(); cur.ops = &hist; cur.phase = "operations";
      for (auto& b : ops) {
        hist.clear(); hist.push_back(&a); hist.push_back(&b);
        PM m(i->make()); run_op(i, m, a); run_op(i, m, b); ++cx.transitions;
        cx.note(hid(i, op_str(a, i->d) + op_str(b, i->d), 9));
      }
      cur.ops = nullptr;
    }
    for_alias(i, [&](const std::vector<Op>& pre, const Op& o) {
      if (!cx.begin()) return;
      hist.clear(); std::string id; for (auto& q : pre) { hist.push_back(&q); id += op_str(q, i->d); } hist.push_back(&o); id += op_str(o, i->d);
      cur.ops = &hist; cur.phase = "operation with an argument inside of the message";
      PM m(i->make()); for (auto& q : pre) run_op(i, m, q); run_op(i, m, o); ++cx.transitions; cx.note(hid(i, id, 10));
      cur.ops = nullptr;
    });
  }
  cx.stats["monitored_calls"] += monitored;
}

// ------------------------------------------------------------------ C23
// One operation on objects of its own. run() does not allocate and can be repeated.
enum JK { J_SER, J_DES, J_SIZE, J_ASSIGN, J_CLEAR, J_PUT, J_TEXT, J_NKIND };
static const char* JN[] = {"serialize", "deserialize", "serialized_size", "assign", "clear", "set fields", "to_string"};
struct Job {
  const Instance* i; JK kind; PM m, src; MsgV v; std::string in; FRead r; FWrite w; std::vector<char> text; long res = -1; std::string name;
  std::string want; long want_res = 0; std::string want_out;
  Job(const Instance* ii, JK k, const MsgV& val, const std::string& bytes, size_t space) : i(ii), kind(k), m(ii->make()), src(ii->make()), v(val), in(bytes), w((uint32_t)space), text(k == J_TEXT ? 1 << 15 : 1) {
    src->put(v, 0);
    if (k == J_SER || k == J_SIZE || k == J_TEXT) m->put(v, 0);
    name = std::string(JN[k]) + " " + (k == J_DES ? lim(hex(in)) : lim(canon(v)));
    run(); want = state(); want_res = res; want_out = out();
    run(); if (state() != want || res != want_res || out() != want_out) violation("repeating an operation gives another result: " + name);
  }
  void run() {
    switch (kind) {
      case J_SER: w.n = 0; res = m->ser(w); break;
      case J_DES: m->clear(); r.set(in); res = m->des(r); break;
      case J_SIZE: res = (long)m->size(); break;
      case J_ASSIGN: m->assign(*src); res = 0; break;
      case J_CLEAR: m->assign(*src); m->clear(); res = 0; break;
      case J_PUT: m->put(v, 1); res = 0; break;
      default: { char* rest; uint32_t rn; res = m->to_string(text.data(), (uint32_t)text.size(), &rest, &rn); res = (long)rn; }
    }
  }
  std::string out() const { return kind == J_SER ? std::string((const char*)w.st.data(), w.n) : kind == J_TEXT ? std::string(text.data()) : std::string(); }
  std::string state() const { return canon(observe(*m, i->d)); }
  // without allocation, for use inside of a signal handler
  bool quick_ok() const {
    if (res != want_res) return false;
    if (kind == J_SER) return w.n == want_out.size() && memcmp(w.st.data(), want_out.data(), w.n) == 0;
    if (kind == J_TEXT) return strcmp(text.data(), want_out.c_str()) == 0;
    return true;
  }
  template <class F> void verify(const char* who, F&& hw, bool with_state = true) const {
    if (quick_ok() && !(with_state || kind == J_DES || kind == J_ASSIGN || kind == J_PUT || kind == J_CLEAR)) return;
    std::string how;
    if (quick_ok()) { if (state() == want) return; }
    how = hw();
    if (res != want_res) violation(std::string(who) + " (" + name + ") returns " + std::to_string(res) + " instead of " + std::to_string(want_res) + " " + how);
    if (out() != want_out) violation(std::string(who) + " (" + name + ") writes " + lim(kind == J_TEXT ? out() : hex(out())) + " instead of " + lim(kind == J_TEXT ? want_out : hex(want_out)) + " " + how);
    std::string s = state();
    if (s != want) violation(std::string(who) + " (" + name + ") leaves " + lim(s) + " instead of " + lim(want) + " " + how);
  }
};

// -- preemption at every access to a buffer, two fibers
static ucontext_t main_c, fib_c[2]; static Job* fj[2]; static long stop_at[2], calls[2]; static volatile int active = -1; static bool done[2];
static void sched_hook() {
  int a = active;
  if (a < 0) return;
  if (calls[a]++ == stop_at[a]) { active = -1; swapcontext(&fib_c[a], &main_c); }
}
static void fiber(int k) { fj[k]->run(); done[k] = true; active = -1; swapcontext(&fib_c[k], &main_c); }
static void resume(int k, long until) { if (done[k]) return; stop_at[k] = until; active = k; swapcontext(&main_c, &fib_c[k]); }
static void start(int k, Job* j) {
  static std::vector<char> stk[2]; if (stk[k].empty()) stk[k].resize(1 << 20);
  getcontext(&fib_c[k]); fib_c[k].uc_stack.ss_sp = stk[k].data(); fib_c[k].uc_stack.ss_size = stk[k].size(); fib_c[k].uc_link = &main_c;
  fj[k] = j; done[k] = false; calls[k] = 0; makecontext(&fib_c[k], (void (*)())fiber, 1, k);
}
static long count_calls(Job& j) { start(0, &j); hook = sched_hook; resume(0, -1); hook = nullptr; return calls[0]; }

// -- preemption at every instruction: the trap flag; the other operation runs to its end inside of the handler
static Job* intr = nullptr; static volatile long steps = 0, at = -1, bad_step = -1; static volatile bool in_handler = false;
static void on_trap(int, siginfo_t*, void* uc) {
  long s = steps++;
  if (at >= 0 && s >= at) ((ucontext_t*)uc)->uc_mcontext.gregs[REG_EFL] &= ~0x100LL;
  if (at < 0 ? true : s == at) { intr->run(); if (!intr->quick_ok() && bad_step < 0) bad_step = s; }
}
static __attribute__((noinline)) void stepped(Job* a) {
  asm volatile("pushfq\n orq $0x100, (%%rsp)\n popfq\n" ::: "memory", "cc");
  a->run();
  asm volatile("pushfq\n andq $~0x100, (%%rsp)\n popfq\n" ::: "memory", "cc");
}
static bool trap_works(Job& j, Job& k) {
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_trap; sa.sa_flags = SA_SIGINFO | SA_NODEFER;
  sigaction(SIGTRAP, &sa, nullptr);
  intr = &k; steps = 0; at = 1L << 60; stepped(&j);
  return steps > 10;
}
void run_C23() {
  for (const Instance* i : insts({})) {
    if (heavy(i)) continue;
    cx.section = i->name; cur = Cur(); cur.inst = i; cur.phase = "one operation in the middle of another";
    bool small = i->d->f.size() <= 12, wide = i->d->f.size() > 30;
    // values: everything set, and single fields of every kind
    std::vector<MsgV> vs; for_values(i->d, -1, [&](const MsgV& v) { vs.push_back(v); });
    MsgV full = vs.back();
    std::vector<MsgV> few; for_values(i->d, 0, [&](const MsgV& v) { few.push_back(v); });
    MsgV other = few.back();
    std::string fb = encode(full, true), ob = encode(other, true);
    auto jobs = [&](bool second) {
      std::vector<std::unique_ptr<Job>> o; const MsgV& v = second ? other : full; const MsgV& x = second ? full : other; const std::string& b = second ? ob : fb; const std::string& xb = second ? fb : ob;
      for (int k = 0; k < J_NKIND; ++k) if (k != J_DES) o.emplace_back(new Job(i, (JK)k, v, b, b.size() + 64));
      o.emplace_back(new Job(i, J_DES, v, b, 0)); o.emplace_back(new Job(i, J_DES, x, xb, 0)); o.emplace_back(new Job(i, J_SER, x, xb, xb.size() + 64));
      if (b.size() > 2) { o.emplace_back(new Job(i, J_DES, v, b.substr(0, b.size() - 1), 0)); o.emplace_back(new Job(i, J_SER, v, b, b.size() / 2)); }
      std::vector<Rec> m0 = record_menu(i->d, 0); size_t n = 0;
      for (auto& r : m0) if (second ? (++n % 3 == 0 && n < 10) : small) o.emplace_back(new Job(i, J_DES, v, r.bytes, 0));
      return o;
    };
    auto A = jobs(false), B = jobs(true);
    // (1) schedules at buffer accesses: A to its j-th access, B to its k-th, A to the end, B to the end
    for (auto& a : A) for (auto& b : B) {
      if (!(a->kind == J_SER || a->kind == J_DES || a->kind == J_SIZE)) continue;
      long na = count_calls(*a), nb = count_calls(*b);
      uint64_t pid = h64(a->name + b->name, hid(i, ""));
      long step = wide && !cx.thorough ? 3 : 1;
      for (long j = 0; j < na; j += step) {
        if (!cx.begin()) continue;
        for (long k = 0; k <= nb; k += step) {
          if (!cx.thorough && na * nb > 6000 && k && k < nb && (j + k) % 7) continue;
          cur.a = j; cur.b = k;
          start(0, a.get()); start(1, b.get()); hook = sched_hook;
          resume(0, j); resume(1, k == nb ? -1 : k); resume(0, -1); resume(1, -1); hook = nullptr;
          ++cx.transitions; cx.note(h64((const char*)&pid, 8, (uint64_t)j * 100003 + (uint64_t)k + 3));
          auto how = [&] { return "when interleaved with (" + (b->name) + "), switching at buffer accesses " + std::to_string(j) + " and " + std::to_string(k); };
          a->verify("an operation", how, k == nb); b->verify("an operation", how, k == nb);
        }
      }
      ++cx.stats["pairs_interleaved_at_buffer_accesses"];
    }
    // (2) B as a whole between any two instructions of A
    std::vector<long> len(A.size(), -1);
    for (size_t x = 0; x < A.size(); ++x) for (size_t y = 0; y < B.size(); ++y) {
      if (!cx.begin()) continue;
      tick();
      Job &a = *A[x], &b = *B[y];
      if (len[x] < 0) { if (!trap_works(a, b)) { cx.stats["no_trap_flag"] = 1; continue; } len[x] = steps; }
      long n = len[x]; cx.stats["instructions_stepped"] += (uint64_t)n;
      std::string how = "while (" + b.name + ") runs ";
      intr = &b; steps = 0; at = -1; bad_step = -1; cur.a = cur.b = 0; cur.phase = "an operation between any two instructions of another";
      stepped(&a);
      cx.transitions += (uint64_t)steps; cx.note(h64(a.name + b.name, 99));
      if (bad_step >= 0) violation("an operation (" + b.name + ") gives another result at instruction " + std::to_string(bad_step) + " of (" + a.name + ")");
      a.verify("an operation", [&] { return how + "after each of its " + std::to_string(n) + " instructions"; }); b.verify("an operation", [&] { return "inside of (" + a.name + ")"; });
      ++cx.stats["pairs_interrupted_everywhere"];
      if (cx.samp()) cx.sample(std::string(i->d->name) + ": " + lim(a.name) + ", after each of " + std::to_string(n) + " instructions: " + lim(b.name));
      // exactly one interruption, at each instruction
      long limit = cx.thorough ? 3000 : 450; uint64_t pid = h64(a.name + b.name, hid(i, ""));
      if (n > limit) continue;
      for (long k = 0; k < n; ++k) {
        steps = 0; at = k; bad_step = -1; cur.a = k;
        stepped(&a);
        ++cx.transitions; cx.note(h64((const char*)&pid, 8, (uint64_t)k + 1000003));
        if (bad_step >= 0) violation("an operation (" + b.name + ") gives another result at instruction " + std::to_string(k) + " of (" + a.name + ")");
        a.verify("an operation", [&] { return how + "after its instruction " + std::to_string(k); }, k == n - 1);
      }
      ++cx.stats["pairs_interrupted_once_at_each_instruction"];
    }
  }
}
