// What the shim of protobuf's converter headers needs from the real libprotobuf, in terms that name no type of either.
#ifndef BRIDGE_H_
#define BRIDGE_H_
#include <stdint.h>

#include <memory>
#include <string>
#include <string_view>

#include "google/protobuf/io/zero_copy_stream.h"
#include "google/protobuf/stubs/bytestream.h"
#include "google/protobuf/type.pb.h"

namespace bridge {
using sv = std::string_view;
struct St {
  int code = 0;
  std::string msg;
};
struct Writer {
  virtual ~Writer() {}
  virtual void StartObject(sv) = 0;
  virtual void EndObject() = 0;
  virtual void StartList(sv) = 0;
  virtual void EndList() = 0;
  virtual void RenderBool(sv, bool) = 0;
  virtual void RenderInt32(sv, int32_t) = 0;
  virtual void RenderUint32(sv, uint32_t) = 0;
  virtual void RenderInt64(sv, int64_t) = 0;
  virtual void RenderUint64(sv, uint64_t) = 0;
  virtual void RenderDouble(sv, double) = 0;
  virtual void RenderFloat(sv, float) = 0;
  virtual void RenderString(sv, sv) = 0;
  virtual void RenderBytes(sv, sv) = 0;
  virtual void RenderNull(sv) = 0;
};
struct Resolver {
  virtual ~Resolver() {}
  virtual St Message(const std::string& url, google::protobuf::Type*) = 0;
  virtual St Enum(const std::string& url, google::protobuf::Enum*) = 0;
};
struct Errors {
  virtual ~Errors() {}
  virtual void InvalidName(const std::string& loc, sv name, sv message) = 0;
  virtual void InvalidValue(const std::string& loc, sv type, sv value) = 0;
  virtual void MissingField(const std::string& loc, sv name) = 0;
};
struct Parser {
  virtual ~Parser() {}
  virtual St Parse(sv) = 0;
  virtual St Finish() = 0;
};
std::unique_ptr<Parser> NewParser(Writer*);
struct ProtoWriter : Writer {
  virtual bool done() = 0;
  virtual void set_strict(bool) = 0;
};
struct WriterOptions {  // the order of ProtoStreamObjectWriter::Options
  bool struct_integers_as_strings = false, ignore_unknown_fields = false, ignore_unknown_enum_values = false, use_lower_camel_for_enums = false, case_insensitive_enum_parsing = false,
       ignore_null_value_map_entry = false, use_legacy_json_map_format = false, disable_implicit_message_list = false, suppress_implicit_message_list_error = false, disable_implicit_scalar_list = false, suppress_implicit_scalar_list_error = false, suppress_object_to_scalar_error = false,
       use_json_name_in_missing_fields = false;
};
std::unique_ptr<ProtoWriter> NewProtoWriter(Resolver*, const google::protobuf::Type&, google::protobuf::strings::ByteSink*, Errors*, const WriterOptions&);
struct Types {
  virtual ~Types() {}
  virtual St ResolveTypeUrl(sv, const google::protobuf::Type**) const = 0;
  virtual const google::protobuf::Type* GetTypeByTypeUrl(sv) const = 0;
  virtual const google::protobuf::Enum* GetEnumByTypeUrl(sv) const = 0;
  virtual const google::protobuf::Field* FindField(const google::protobuf::Type*, sv) const = 0;
};
std::unique_ptr<Types> NewTypes(Resolver*);
struct Piece {
  int type = 0;  // DataPiece::Type
  int32_t i32 = 0;
  uint32_t u32 = 0;
  int64_t i64 = 0;
  uint64_t u64 = 0;
  double d = 0;
  float f = 0;
  bool b = false;
  sv s;
  bool strict = false;
};
St PieceTo(const Piece&, int32_t*);
St PieceTo(const Piece&, uint32_t*);
St PieceTo(const Piece&, int64_t*);
St PieceTo(const Piece&, uint64_t*);
St PieceTo(const Piece&, double*);
St PieceTo(const Piece&, float*);
St PieceTo(const Piece&, bool*);
St PieceTo(const Piece&, std::string*);
St PieceToBytes(const Piece&, std::string*);
std::string PieceText(const Piece&, sv fallback);
struct PrintOptions {
  bool add_whitespace = false, always_print_primitive_fields = false, always_print_enums_as_ints = false, preserve_proto_field_names = false;
};
St BinaryToJson(Resolver*, const std::string& url, google::protobuf::io::ZeroCopyInputStream*, google::protobuf::io::ZeroCopyOutputStream*, const PrintOptions&);
// For reference models: the library's own one-shot translation.
St JsonToBinary(Resolver*, const std::string& url, const std::string& json, std::string* out, bool ignore_unknown);
}  // namespace bridge
#endif
