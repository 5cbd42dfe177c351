// Reference model of protobuf messages: descriptors, values, reference encoder and decoder.
// Independent of the code under test. C++11 so it can be included in adapters of every standard.
#ifndef VERIF_MODEL_H
#define VERIF_MODEL_H
#include <cstdint>
#include <cstring>
#include <memory>
#include <string>
#include <vector>

enum Kind { I32, I64, U32, U64, S32, S64, BOOL, ENUM, X32, X64, Y32, Y64, FLT, DBL, STR, BYT, MSG };
enum Label { IMPL, OPT, REP, ONE };
enum { WT_VARINT = 0, WT_F64 = 1, WT_LEN = 2, WT_SG = 3, WT_EG = 4, WT_F32 = 5 };

// Error codes as documented in Errors.h.
enum { E_OK = 0, E_END = 1, E_FULL = 2, E_WT = 3, E_ARRAY = 4, E_ID = 5, E_OVER = 6, E_INDEX = 7 };

struct MsgD;
struct FieldD {
  const char* name;
  uint32_t num;
  Kind kind;
  Label label;
  uint32_t cap;     // maximum length of a string or bytes (element)
  uint32_t repcap;  // maximum number of elements of a repeated field
  const MsgD* sub;
  int oneof;        // index in MsgD::oneofs or -1
};
struct MsgD {
  const char* name;  // full protobuf name
  std::vector<FieldD> f;
  std::vector<const char*> oneofs;
  const FieldD* by_num(uint32_t n) const {
    for (size_t i = 0; i < f.size(); ++i) if (f[i].num == n) return &f[i];
    return nullptr;
  }
  int index_of(uint32_t n) const {
    for (size_t i = 0; i < f.size(); ++i) if (f[i].num == n) return (int)i;
    return -1;
  }
};

struct MsgV;
struct Val {
  uint64_t u;
  std::string s;
  std::shared_ptr<MsgV> m;  // owned, never shared between values (copies are deep)
  Val() : u(0) {}
  explicit Val(uint64_t x) : u(x) {}
  Val(const Val& o);
  Val& operator=(const Val& o);
  Val(Val&&) = default;
  Val& operator=(Val&&) = default;
};
struct FieldV {
  bool has;               // meaning only for OPT and ONE
  Val one;
  std::vector<Val> rep;
  FieldV() : has(false) {}
};
struct MsgV {
  const MsgD* d;
  std::vector<FieldV> f;
  MsgV() : d(nullptr) {}
  explicit MsgV(const MsgD* dd) { reset(dd); }
  void reset(const MsgD* dd);
  void clear_field(size_t i);
  void clear_oneof(int o) { for (size_t i = 0; i < f.size(); ++i) if (d->f[i].oneof == o) clear_field(i); }
  int which(int o) const { for (size_t i = 0; i < f.size(); ++i) if (d->f[i].oneof == o && f[i].has) return (int)i; return -1; }
  void select(size_t i) {
    const FieldD& fd = d->f[i];
    if (fd.label == ONE && !f[i].has) clear_oneof(fd.oneof);
    if (fd.label == ONE || fd.label == OPT) f[i].has = true;
  }
};
bool operator==(const MsgV& a, const MsgV& b);
inline bool operator!=(const MsgV& a, const MsgV& b) { return !(a == b); }
bool val_eq(const FieldD& fd, const Val& a, const Val& b);
std::string canon(const MsgV& v);
std::string canon_val(const FieldD& fd, const Val& v);
std::string hex(const std::string& s);
std::string unhex(const std::string& s);

void put_varint(std::string& o, uint64_t v);
void put_varint_padded(std::string& o, uint64_t v, int nbytes);
void put_fixed(std::string& o, uint64_t v, int n);
int wire_type(Kind k);
inline bool packable(Kind k) { return k != STR && k != BYT && k != MSG; }

// The varint payload of a value; neg10: write negative int32/enum with ten bytes, else with five.
uint64_t varint_payload(Kind k, uint64_t u, bool neg10);
void enc_scalar(std::string& o, Kind k, uint64_t u, bool neg10);
bool is_default(const FieldD& fd, const Val& v);
// Reference encoding in declaration order (plain fields first, then the oneofs).
std::string encode(const MsgV& v, bool neg10 = false);

struct DecRes {
  bool ok;
  bool unspec;         // the standard leaves this input open (or it is outside of what is claimed): only safety is checked
  uint32_t errs;       // bit mask of acceptable error codes when !ok
  bool cap;            // a capacity was exceeded
  bool google_differs; // input on which libprotobuf is documented to differ by design (wire type mismatch, groups)
  bool nonascii;       // a string field received bytes >= 0x80
  int depth_unknown;   // number of unknown fields skipped
  int field;           // index of the top level field of the last record, -1 when none or unknown
  DecRes() : ok(true), unspec(false), errs(0), cap(false), google_differs(false), nonascii(false), depth_unknown(0), field(-1) {}
};
// Merge the data into v. When not ok, v holds the state before the record that failed (at every level).
DecRes decode(MsgV& v, const uint8_t* p, size_t n);
inline DecRes decode(MsgV& v, const std::string& s) { return decode(v, (const uint8_t*)s.data(), s.size()); }

// After a failed decode: every oneof is unset or holds the member which was selected before the failing record.
bool oneofs_sane_after_error(const MsgV& obs, const MsgV& model, std::string& why);
std::string err_mask_str(uint32_t m);
#endif
