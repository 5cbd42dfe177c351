#ifndef VERIF_HARNESS_H
#define VERIF_HARNESS_H
#include "imsg.h"
#include <ReadBufferFixedSize.h>
#include <WriteBufferFixedSize.h>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

// ------------------------------------------------------------------ run context
struct Ctx {
  std::string prop; bool thorough = false, lite = false, skip_missing = false;
  uint64_t shard = 0, nshards = 1; long long only = -1;
  std::string dsfile, hashfile, section;
  std::string only_inst;
  uint64_t counter = 0, evals = 0, transitions = 0, states = 0, traces = 0;
  std::map<std::string, uint64_t> stats;
  std::vector<std::string> samples;
  // open addressing set of case hashes
  std::vector<uint64_t> tab; uint64_t used = 0;
  bool want() {  // case selection: every case has a global index, shards take them round robin
    uint64_t c = counter++;
    if (only >= 0) return (uint64_t)only == c;
    return c % nshards == shard;
  }
  bool begin() { if (!want()) return false; if ((++evals & 255) == 0) tick_(); return true; }  // want() + count
  static void tick_();
  void note(uint64_t h);
  void sample(const std::string& s) { if (samples.size() < 6) samples.push_back(s); }
  bool samp() const { return samples.size() < 6 && (evals % 97 == 1 || evals < 3); }
};
extern Ctx cx;
uint64_t h64(const void* p, size_t n, uint64_t seed = 0x9E3779B97F4A7C15ull);
inline uint64_t h64(const std::string& s, uint64_t seed = 0x9E3779B97F4A7C15ull) { return h64(s.data(), s.size(), seed); }

// Description of the running case, printed when a sanitizer, signal or timer stops the program.
struct Cur {
  const Instance* inst = nullptr; const char* phase = ""; const std::string* bytes = nullptr; const std::string* pre = nullptr;
  const MsgV* val = nullptr; const std::vector<const Op*>* ops = nullptr; long a = 0, b = 0;
  std::string text() const;
};
extern Cur cur;
[[noreturn]] void violation(const std::string& msg);
#define VCHECK(cond, msg) do { if (!(cond)) violation(msg); } while (0)
void arm_watchdog();   // CPU time limit per case: reset by tick()
void tick();
inline void Ctx::tick_() { tick(); }

// ------------------------------------------------------------------ monitored buffers
struct MonRead : EmbeddedProto::ReadBufferInterface {
  const uint8_t* d = nullptr; size_t n = 0, pos = 0; uint64_t ops = 0; bool dirty = false;
  long fail_at = -1; bool fail_once = false; mutable long pops = 0; bool failed = false;
  size_t total_size_claim = 0; bool claim = false;
  uint8_t* heap = nullptr;
  explicit MonRead(const std::string& s) { heap = (uint8_t*)malloc(s.size() ? s.size() : 1); memcpy(heap, s.data(), s.size()); d = heap; n = s.size(); }
  ~MonRead() override { free(heap); }
  void lim() { if (++ops > 64 * (n + 64)) violation("decoder does not terminate: number of buffer operations exceeds 64*(n+64)"); }
  long fail_pos = -1; bool fail_skip = false;   // fail_skip: the first refused read was an advance over several bytes
  bool inject(bool skip = false) { long k = pops++; if (fail_at >= 0 && (fail_once ? k == fail_at : k >= fail_at)) { if (!failed) { fail_pos = (long)pos; fail_skip = skip; } failed = true; return true; } return false; }
  uint32_t get_size() const override { return (uint32_t)(n - pos); }
  uint32_t get_max_size() const override { return (uint32_t)n; }
  bool peek(uint8_t& b) const override { if (pos >= n) return false; b = d[pos]; return true; }
  bool advance() override { lim(); if (inject()) return false; if (pos >= n) return false; ++pos; return true; }
  bool advance(const uint32_t k) override { lim(); if (inject(true)) return false; if (k > n - pos) { pos = n; return false; } pos += k; return true; }
  bool pop(uint8_t& b) override { lim(); if (inject()) return false; if (pos >= n) return false; b = d[pos++]; return true; }
};
struct MonWrite : EmbeddedProto::WriteBufferInterface {
  std::string out; uint32_t capacity; long fail_at = -1; bool fail_once = false; long pushes = 0; bool refused = false; bool honest = true;
  explicit MonWrite(uint32_t cap = 0xFFFFFFFFu) : capacity(cap) {}
  bool inject() { long k = pushes++; if (fail_at >= 0 && (fail_once ? k == fail_at : k >= fail_at)) { refused = true; return true; } return false; }
  void clear() override { out.clear(); }
  uint32_t get_size() const override { return (uint32_t)out.size(); }
  uint32_t get_max_size() const override { return capacity; }
  uint32_t get_available_size() const override { return honest ? capacity - (uint32_t)out.size() : 0xFFFFFFFFu; }
  bool push(const uint8_t b) override { if (inject()) return false; if (out.size() >= capacity) { refused = true; return false; } out += (char)b; return true; }
  bool push(const uint8_t* p, const uint32_t n) override {
    if (inject()) return false;
    if (n > capacity - out.size()) { refused = true; return false; }
    out.append((const char*)p, n); return true;
  }
};

// ------------------------------------------------------------------ helpers around messages
typedef std::unique_ptr<IMsg> PM;
MsgV observe(const IMsg& m, const MsgD* d);                 // violation when accessors disagree
void observe_into(const IMsg& m, const MsgD* d, MsgV& v);
std::string serialize_ok(const IMsg& m);                    // violation when serialization into unlimited space fails
int des_fixed(IMsg& m, const std::string& s);               // via ReadBufferFixedSize with valid looking bytes behind the data
int des_mon(IMsg& m, const std::string& s);
// A reader or writer of the library's own fixed size class of any size up to the limit
EmbeddedProto::WriteBufferInterface* make_wb(uint32_t n, uint8_t** data);   // nullptr when unsupported
uint32_t max_wb();

std::vector<const Instance*> insts(const std::vector<std::string>& names);  // empty: all
std::string first_diff(const MsgV& a, const MsgV& b);

// ------------------------------------------------------------------ value domains
std::vector<Val> domain(const FieldD& fd, int level);       // 0: small, 1: medium, 2: full;   for one value of the field's kind
std::vector<FieldV> field_domain(const FieldD& fd, int level);
void for_values(const MsgD* d, int level, const std::function<void(const MsgV&)>& f);
std::vector<MsgV> values(const MsgD* d, int level);

// ------------------------------------------------------------------ libprotobuf oracle
bool g_init(const std::string& dsfile);
// Parse the bytes; false when refused. size: size of the standard encoding of the result.
bool g_decode(const MsgD* d, const std::string& bytes, MsgV& out, size_t* size, std::string* canonical);

// ------------------------------------------------------------------ records
struct Rec { std::string bytes; int field; };               // field: index, -1 unknown
std::vector<Rec> record_menu(const MsgD* d, int level);     // valid records of known fields in many encodings
std::vector<std::string> unknown_menu(const MsgD* d, int level);
std::vector<std::string> bad_menu(const MsgD* d);           // records which are malformed in themselves
std::string tagb(uint32_t num, int wt, int pad = 0);
std::string lenrec(uint32_t num, const std::string& c);
uint32_t unknown_num(const MsgD* d, int taglen);            // a number the message does not define, 0 if none
// Offsets of the top level record boundaries of a valid encoding, 0 and the end included.
std::vector<size_t> boundaries(const std::string& b);

// ------------------------------------------------------------------ properties
void run_C01(); void run_C02(); void run_C03(); void run_C04(); void run_C05(); void run_C06(); void run_C07(); void run_C08();
void run_C09(); void run_C10(); void run_C11(); void run_C12(); void run_C13(); void run_C14(); void run_C15(); void run_C16(); void run_C18(); void run_C20(); void run_C22(); void run_C23(); void run_C24(); void run_C25(); void run_C26();
#endif
