// Shim: the TypeResolver of the protobuf version the project is written for (abseil status).
#ifndef SHIM_TYPE_RESOLVER_H_
#define SHIM_TYPE_RESOLVER_H_
#include <string>

#include "absl/status/status.h"
#include "google/protobuf/type.pb.h"
namespace google {
namespace protobuf {
namespace util {
inline namespace mcshim {
class TypeResolver {
 public:
  TypeResolver() {}
  virtual ~TypeResolver() {}
  virtual absl::Status ResolveMessageType(const std::string& type_url, google::protobuf::Type* message_type) = 0;
  virtual absl::Status ResolveEnumType(const std::string& type_url, google::protobuf::Enum* enum_type) = 0;

 private:
  TypeResolver(const TypeResolver&) = delete;
  void operator=(const TypeResolver&) = delete;
};
}  // namespace mcshim
}  // namespace util
}  // namespace protobuf
}  // namespace google
#endif
