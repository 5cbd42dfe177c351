// Type-erased access to a generated message through its public interface only.
#ifndef VERIF_IMSG_H
#define VERIF_IMSG_H
#include "model.h"
#include <ReadBufferInterface.h>
#include <WriteBufferInterface.h>
#include <Defines.h>

struct Chk {               // collects inconsistencies between accessors of one message
  bool ok; std::string why;
  Chk() : ok(true) {}
  void fail(const std::string& w) { if (ok) { ok = false; why = w; } }
};

enum OpK {
  OP_SET, OP_SETM, OP_MUT, OP_TOUCH, OP_CLEARF,            // scalar, string, bytes, message
  OP_STRSET, OP_STRC, OP_STRNULL, OP_STRIDX, OP_STRASSIGN, OP_STRTMPL,  // string and bytes through mutable_
  OP_ADD, OP_ADDE, OP_SETIDX, OP_SETIDXM, OP_MUTIDX, OP_RGET, OP_SETREP, OP_MUTREP, OP_SETDATA, OP_RCLEAR,
  OP_NEST, OP_NESTI,                                        // mutable_f() / mutable_f(idx) then next
  OP_FROM,                                                  // argument is a part of the message itself: idx source field, val.u = variant | i << 8 | j << 16 | n << 24, ~0: probe
  // whole message
  OP_CLEARALL, OP_DECODE, OP_COPYCTOR, OP_MOVECTOR, OP_ASSIGN, OP_MOVE, OP_SELF, OP_SERIALIZE
};
struct Op {
  int k; int f; uint32_t idx;
  Val val;
  std::vector<Val> vals;
  std::shared_ptr<Op> next;
  std::string bytes;
  std::shared_ptr<MsgV> mv;
  Op() : k(0), f(-1), idx(0) {}
};
std::string op_str(const Op& o, const MsgD* d);
enum { NOTSUP = -100 };

// Allocations of the harness itself while the allocation monitor of C22 is armed.
extern volatile int g_alloc_pause;
struct AllocPause { AllocPause() { ++g_alloc_pause; } ~AllocPause() { --g_alloc_pause; } };

struct IMsg {
  static void* operator new(size_t n) { AllocPause p; return ::operator new(n); }
  static void operator delete(void* p) { ::operator delete(p); }
  virtual ~IMsg() {}
  virtual int ser(EmbeddedProto::WriteBufferInterface&) const = 0;
  virtual int des(EmbeddedProto::ReadBufferInterface&) = 0;
  virtual uint32_t size() const = 0;
  virtual void clear() = 0;
  virtual void observe(MsgV& v, Chk& c) const = 0;  // v must be reset to the descriptor
  virtual void put(const MsgV& v, int how) = 0;
  virtual int op(const Op& o) = 0;                  // error code, or NOTSUP
  virtual IMsg* copy_ctor() const = 0;
  virtual IMsg* move_ctor() = 0;
  virtual void assign(const IMsg& o) = 0;
  virtual void move_assign(IMsg& o) = 0;
  virtual void self_assign() = 0;
  virtual std::string raw() const = 0;
  virtual void meta(const MsgD* d, Chk& c) const = 0;
  virtual long to_string(char* buf, uint32_t n, char** rest, uint32_t* restn) const = 0;
};
struct Instance {
  const char* name;
  const MsgD* d;
  IMsg* (*make)();
};
// All instances linked in.
std::vector<Instance>& instances();
struct Reg { Reg(const char* n, const MsgD* d, IMsg* (*mk)()) { Instance i = {n, d, mk}; instances().push_back(i); } };
#endif
