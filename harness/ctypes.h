// The test types as google.protobuf.Type, and a TypeHelper over them.
#ifndef CTYPES_H_
#define CTYPES_H_
#include <string>
#include <vector>

#include "google/protobuf/descriptor.h"
#include "google/protobuf/descriptor.pb.h"
#include "google/protobuf/type.pb.h"
#include "google/protobuf/wrappers.pb.h"
#include "grpc_transcoding/type_helper.h"
#include "mc.pb.h"
#include "shim.h"

namespace ct {
namespace pb = google::protobuf;
inline std::string Url(const std::string& n) { return "type.googleapis.com/" + n; }
inline pb::Type TypeOf(const pb::Descriptor* d) {
  pb::Type t;
  t.set_name(d->full_name());
  t.set_syntax(pb::SYNTAX_PROTO3);
  for (int i = 0; i < d->field_count(); ++i) {
    const pb::FieldDescriptor* f = d->field(i);
    pb::Field* o = t.add_fields();
    o->set_kind((pb::Field::Kind)f->type());
    o->set_cardinality((pb::Field::Cardinality)f->label());
    o->set_number(f->number());
    o->set_name(f->name());
    o->set_json_name(f->json_name());
    o->set_packed(f->is_packed());
    if (f->message_type()) o->set_type_url(Url(f->message_type()->full_name()));
    if (f->enum_type()) o->set_type_url(Url(f->enum_type()->full_name()));
  }
  if (d->options().map_entry()) {
    pb::Option* o = t.add_options();
    o->set_name("map_entry");
    pb::BoolValue v;
    v.set_value(true);
    o->mutable_value()->PackFrom(v);
  }
  return t;
}
struct World {
  std::vector<pb::Type> types;
  std::vector<pb::Enum> enums;
  std::unique_ptr<google::grpc::transcoding::TypeHelper> helper;
  std::unique_ptr<shim::ToResolver> real;  // for the library's one-shot functions
  World() {
    const pb::FileDescriptor* f = mctest::M::descriptor()->file();
    for (int i = 0; i < f->message_type_count(); ++i) {
      types.push_back(TypeOf(f->message_type(i)));
      for (int k = 0; k < f->message_type(i)->nested_type_count(); ++k) types.push_back(TypeOf(f->message_type(i)->nested_type(k)));
    }
    for (int i = 0; i < f->enum_type_count(); ++i) {
      pb::Enum e;
      e.set_name(f->enum_type(i)->full_name());
      e.set_syntax(pb::SYNTAX_PROTO3);
      for (int k = 0; k < f->enum_type(i)->value_count(); ++k) {
        auto* v = e.add_enumvalue();
        v->set_name(f->enum_type(i)->value(k)->name());
        v->set_number(f->enum_type(i)->value(k)->number());
      }
      enums.push_back(e);
    }
    helper.reset(new google::grpc::transcoding::TypeHelper(types, enums));
    real.reset(new shim::ToResolver(helper->Resolver()));
  }
  const pb::Type* type(const std::string& n) { return helper->Info()->GetTypeByTypeUrl(Url(n)); }
};
inline World& world() {
  static World* w = new World;
  return *w;
}
// The library's own one-shot translations.
inline bool JsonToMessage(const std::string& type, const std::string& json, std::string* out, bool ignore_unknown = false) { return bridge::JsonToBinary(world().real.get(), Url(type), json, out, ignore_unknown).code == 0; }
}  // namespace ct
#endif
