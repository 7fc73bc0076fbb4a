#ifndef SHIM_H_
#define SHIM_H_
#include "bridge.h"
#include "google/protobuf/util/converter/shim_all.h"
namespace shim {
struct ToResolver : bridge::Resolver {
  explicit ToResolver(google::protobuf::util::TypeResolver* r);
  bridge::St Message(const std::string& u, google::protobuf::Type* t) override;
  bridge::St Enum(const std::string& u, google::protobuf::Enum* e) override;

 private:
  google::protobuf::util::TypeResolver* r_;
};
absl::Status ToStatus(const bridge::St& s);
// If set, TypeInfo::NewTypeInfo makes these.
extern google::protobuf::util::converter::TypeInfo* (*MakeTypeInfo)(google::protobuf::util::TypeResolver*);
}  // namespace shim
#endif
