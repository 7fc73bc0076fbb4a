#ifndef SHIM_JSON_UTIL_H_
#define SHIM_JSON_UTIL_H_
#include "google/protobuf/io/zero_copy_stream.h"
#include "google/protobuf/util/type_resolver.h"
namespace google {
namespace protobuf {
namespace util {
inline namespace mcshim {
struct JsonPrintOptions {
  bool add_whitespace = false;
  bool always_print_primitive_fields = false;
  bool always_print_enums_as_ints = false;
  bool preserve_proto_field_names = false;
};
absl::Status BinaryToJsonStream(TypeResolver* resolver, const std::string& type_url, io::ZeroCopyInputStream* binary_input, io::ZeroCopyOutputStream* json_output, const JsonPrintOptions& options);
}  // namespace mcshim
}  // namespace util
}  // namespace protobuf
}  // namespace google
#endif
