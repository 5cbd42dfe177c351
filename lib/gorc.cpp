// Oracle: libprotobuf (DynamicMessage), an independent implementation of the standard.
#include "harness.h"
#include <google/protobuf/descriptor.h>
#include <google/protobuf/descriptor.pb.h>
#include <google/protobuf/dynamic_message.h>
#include <fstream>
#include <sstream>
namespace gp = google::protobuf;
static gp::DescriptorPool* pool = nullptr; static gp::DynamicMessageFactory* fac = nullptr;
static std::map<std::string, const gp::Message*> protos;
static void quiet(gp::LogLevel, const char*, int, const std::string&) {}
bool g_init(const std::string& dsfile) {
  gp::SetLogHandler(quiet);
  std::ifstream f(dsfile, std::ios::binary); std::stringstream ss; ss << f.rdbuf();
  gp::FileDescriptorSet fds; if (!fds.ParseFromString(ss.str())) return false;
  pool = new gp::DescriptorPool;
  for (auto& x : fds.file()) if (!pool->BuildFile(x)) return false;
  fac = new gp::DynamicMessageFactory(pool);
  return true;
}
static const gp::Message* proto(const char* name) {
  auto it = protos.find(name); if (it != protos.end()) return it->second;
  const gp::Descriptor* d = pool->FindMessageTypeByName(name);
  if (!d) { fprintf(stderr, "oracle: no %s\n", name); exit(3); }
  return protos[name] = fac->GetPrototype(d);
}
static uint64_t fb(float v) { uint32_t u; memcpy(&u, &v, 4); return u; }
static uint64_t db(double v) { uint64_t u; memcpy(&u, &v, 8); return u; }
static void conv(const gp::Message& m, MsgV& v) {
  const gp::Reflection* r = m.GetReflection(); const gp::Descriptor* gd = m.GetDescriptor();
  for (size_t i = 0; i < v.f.size(); ++i) {
    const FieldD& fd = v.d->f[i]; const gp::FieldDescriptor* g = gd->FindFieldByNumber((int)fd.num); FieldV& x = v.f[i];
    if (!g) { fprintf(stderr, "oracle: no field %u\n", fd.num); exit(3); }
    bool rep = fd.label == REP; int n = rep ? r->FieldSize(m, g) : 1;
    if (fd.label == OPT || fd.label == ONE) { x.has = r->HasField(m, g); if (fd.label == ONE && !x.has) continue; }
    for (int k = 0; k < n; ++k) {
      Val t; std::string tmp;
      switch (g->cpp_type()) {
        case gp::FieldDescriptor::CPPTYPE_INT32: t.u = (uint32_t)(rep ? r->GetRepeatedInt32(m, g, k) : r->GetInt32(m, g)); break;
        case gp::FieldDescriptor::CPPTYPE_UINT32: t.u = rep ? r->GetRepeatedUInt32(m, g, k) : r->GetUInt32(m, g); break;
        case gp::FieldDescriptor::CPPTYPE_INT64: t.u = (uint64_t)(rep ? r->GetRepeatedInt64(m, g, k) : r->GetInt64(m, g)); break;
        case gp::FieldDescriptor::CPPTYPE_UINT64: t.u = rep ? r->GetRepeatedUInt64(m, g, k) : r->GetUInt64(m, g); break;
        case gp::FieldDescriptor::CPPTYPE_BOOL: t.u = rep ? r->GetRepeatedBool(m, g, k) : r->GetBool(m, g); break;
        case gp::FieldDescriptor::CPPTYPE_ENUM: t.u = (uint32_t)(rep ? r->GetRepeatedEnumValue(m, g, k) : r->GetEnumValue(m, g)); break;
        case gp::FieldDescriptor::CPPTYPE_FLOAT: t.u = fb(rep ? r->GetRepeatedFloat(m, g, k) : r->GetFloat(m, g)); break;
        case gp::FieldDescriptor::CPPTYPE_DOUBLE: t.u = db(rep ? r->GetRepeatedDouble(m, g, k) : r->GetDouble(m, g)); break;
        case gp::FieldDescriptor::CPPTYPE_STRING: t.s = rep ? r->GetRepeatedStringReference(m, g, k, &tmp) : r->GetStringReference(m, g, &tmp); break;
        case gp::FieldDescriptor::CPPTYPE_MESSAGE: {
          t.m = std::make_shared<MsgV>(fd.sub);
          conv(rep ? r->GetRepeatedMessage(m, g, k) : r->GetMessage(m, g), *t.m); break; }
      }
      if (rep) x.rep.push_back(std::move(t)); else x.one = std::move(t);
    }
  }
}
bool g_decode(const MsgD* d, const std::string& bytes, MsgV& out, size_t* size, std::string* canonical) {
  std::unique_ptr<gp::Message> m(proto(d->name)->New());
  if (!m->ParseFromString(bytes)) return false;
  m->DiscardUnknownFields();
  out.reset(d);
  conv(*m, out);
  if (size) *size = m->ByteSizeLong();
  if (canonical) *canonical = m->SerializeAsString();
  return true;
}
