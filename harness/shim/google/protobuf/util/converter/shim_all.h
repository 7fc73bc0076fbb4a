// Shim of protobuf's converter headers as of the version the project is written for (abseil types), implemented over the
// installed libprotobuf by shim.cc.
#ifndef SHIM_ALL_H_
#define SHIM_ALL_H_
#include <stdint.h>

#include <memory>
#include <string>

#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "absl/strings/string_view.h"
#include "google/protobuf/stubs/bytestream.h"
#include "google/protobuf/type.pb.h"
#include "google/protobuf/util/type_resolver.h"

namespace bridge {
struct Parser;
struct Writer;
struct ProtoWriter;
}  // namespace bridge
namespace google {
namespace protobuf {
namespace util {
namespace converter {
inline namespace mcshim {
class DataPiece {
 public:
  enum Type { TYPE_INT32 = 1, TYPE_INT64 = 2, TYPE_UINT32 = 3, TYPE_UINT64 = 4, TYPE_DOUBLE = 5, TYPE_FLOAT = 6, TYPE_BOOL = 7, TYPE_ENUM = 8, TYPE_STRING = 9, TYPE_BYTES = 10, TYPE_NULL = 11 };
  explicit DataPiece(const int32_t v) : type_(TYPE_INT32), i_(v) {}
  explicit DataPiece(const int64_t v) : type_(TYPE_INT64), i_(v) {}
  explicit DataPiece(const uint32_t v) : type_(TYPE_UINT32), u_(v) {}
  explicit DataPiece(const uint64_t v) : type_(TYPE_UINT64), u_(v) {}
  explicit DataPiece(const double v) : type_(TYPE_DOUBLE), d_(v) {}
  explicit DataPiece(const float v) : type_(TYPE_FLOAT), f_(v) {}
  explicit DataPiece(const bool v) : type_(TYPE_BOOL), b_(v) {}
  DataPiece(absl::string_view v, bool use_strict_base64_decoding) : type_(TYPE_STRING), s_(v), strict_(use_strict_base64_decoding) {}
  DataPiece(absl::string_view v, bool /*dummy*/, bool use_strict_base64_decoding) : type_(TYPE_BYTES), s_(v), strict_(use_strict_base64_decoding) {}
  static DataPiece NullData() { return DataPiece(TYPE_NULL); }
  Type type() const { return type_; }
  bool use_strict_base64_decoding() { return strict_; }
  absl::string_view str() const { return s_; }
  absl::StatusOr<int32_t> ToInt32() const;
  absl::StatusOr<uint32_t> ToUint32() const;
  absl::StatusOr<int64_t> ToInt64() const;
  absl::StatusOr<uint64_t> ToUint64() const;
  absl::StatusOr<double> ToDouble() const;
  absl::StatusOr<float> ToFloat() const;
  absl::StatusOr<bool> ToBool() const;
  absl::StatusOr<std::string> ToString() const;
  absl::StatusOr<std::string> ToBytes() const;
  std::string ValueAsStringOrDefault(absl::string_view default_string) const;

 private:
  friend struct Peek;
  explicit DataPiece(Type t) : type_(t) {}
  Type type_;
  int64_t i_ = 0;
  uint64_t u_ = 0;
  double d_ = 0;
  float f_ = 0;
  bool b_ = false;
  absl::string_view s_;
  bool strict_ = false;
};

class ObjectWriter {
 public:
  virtual ~ObjectWriter() {}
  virtual ObjectWriter* StartObject(absl::string_view name) = 0;
  virtual ObjectWriter* EndObject() = 0;
  virtual ObjectWriter* StartList(absl::string_view name) = 0;
  virtual ObjectWriter* EndList() = 0;
  virtual ObjectWriter* RenderBool(absl::string_view name, bool value) = 0;
  virtual ObjectWriter* RenderInt32(absl::string_view name, int32_t value) = 0;
  virtual ObjectWriter* RenderUint32(absl::string_view name, uint32_t value) = 0;
  virtual ObjectWriter* RenderInt64(absl::string_view name, int64_t value) = 0;
  virtual ObjectWriter* RenderUint64(absl::string_view name, uint64_t value) = 0;
  virtual ObjectWriter* RenderDouble(absl::string_view name, double value) = 0;
  virtual ObjectWriter* RenderFloat(absl::string_view name, float value) = 0;
  virtual ObjectWriter* RenderString(absl::string_view name, absl::string_view value) = 0;
  virtual ObjectWriter* RenderBytes(absl::string_view name, absl::string_view value) = 0;
  virtual ObjectWriter* RenderNull(absl::string_view name) = 0;
  static void RenderDataPieceTo(const DataPiece& data, absl::string_view name, ObjectWriter* ow);
  virtual bool done() { return true; }
  void set_use_strict_base64_decoding(bool value) { use_strict_base64_decoding_ = value; }
  bool use_strict_base64_decoding() const { return use_strict_base64_decoding_; }

 protected:
  ObjectWriter() : use_strict_base64_decoding_(true) {}

 private:
  bool use_strict_base64_decoding_;
  ObjectWriter(const ObjectWriter&) = delete;
  ObjectWriter& operator=(const ObjectWriter&) = delete;
};

class LocationTrackerInterface {
 public:
  virtual ~LocationTrackerInterface() {}
  virtual std::string ToString() const = 0;

 protected:
  LocationTrackerInterface() {}
};

class ErrorListener {
 public:
  virtual ~ErrorListener() {}
  virtual void InvalidName(const LocationTrackerInterface& loc, absl::string_view invalid_name, absl::string_view message) = 0;
  virtual void InvalidValue(const LocationTrackerInterface& loc, absl::string_view type_name, absl::string_view value) = 0;
  virtual void MissingField(const LocationTrackerInterface& loc, absl::string_view missing_name) = 0;

 protected:
  ErrorListener() {}
};

class TypeInfo {
 public:
  TypeInfo() {}
  virtual ~TypeInfo() {}
  virtual absl::StatusOr<const google::protobuf::Type*> ResolveTypeUrl(absl::string_view type_url) const = 0;
  virtual const google::protobuf::Type* GetTypeByTypeUrl(absl::string_view type_url) const = 0;
  virtual const google::protobuf::Enum* GetEnumByTypeUrl(absl::string_view type_url) const = 0;
  virtual const google::protobuf::Field* FindField(const google::protobuf::Type* type, absl::string_view camel_case_name) const = 0;
  static TypeInfo* NewTypeInfo(TypeResolver* type_resolver);

 private:
  TypeInfo(const TypeInfo&) = delete;
  TypeInfo& operator=(const TypeInfo&) = delete;
};

class JsonStreamParser {
 public:
  explicit JsonStreamParser(ObjectWriter* ow);
  virtual ~JsonStreamParser();
  absl::Status Parse(absl::string_view json);
  absl::Status FinishParse();

 private:
  std::unique_ptr<bridge::Writer> out_;
  std::unique_ptr<bridge::Parser> parser_;
};

class ProtoStreamObjectWriter : public ObjectWriter {
 public:
  struct Options {
    bool struct_integers_as_strings = false;
    bool ignore_unknown_fields = false;
    bool ignore_unknown_enum_values = false;
    bool use_lower_camel_for_enums = false;
    bool case_insensitive_enum_parsing = false;
    bool ignore_null_value_map_entry = false;
    bool use_legacy_json_map_format = false;
    bool disable_implicit_message_list = false;
    bool suppress_implicit_message_list_error = false;
    bool suppress_object_to_scalar_error = false;
    bool use_json_name_in_missing_fields = false;
    Options() {}
    static const Options& Defaults() {
      static Options defaults;
      return defaults;
    }
  };
  ProtoStreamObjectWriter(TypeResolver* type_resolver, const google::protobuf::Type& type, strings::ByteSink* output, ErrorListener* listener, const Options& options = Options::Defaults());
  ~ProtoStreamObjectWriter() override;
  ObjectWriter* StartObject(absl::string_view name) override;
  ObjectWriter* EndObject() override;
  ObjectWriter* StartList(absl::string_view name) override;
  ObjectWriter* EndList() override;
  ObjectWriter* RenderBool(absl::string_view name, bool value) override;
  ObjectWriter* RenderInt32(absl::string_view name, int32_t value) override;
  ObjectWriter* RenderUint32(absl::string_view name, uint32_t value) override;
  ObjectWriter* RenderInt64(absl::string_view name, int64_t value) override;
  ObjectWriter* RenderUint64(absl::string_view name, uint64_t value) override;
  ObjectWriter* RenderDouble(absl::string_view name, double value) override;
  ObjectWriter* RenderFloat(absl::string_view name, float value) override;
  ObjectWriter* RenderString(absl::string_view name, absl::string_view value) override;
  ObjectWriter* RenderBytes(absl::string_view name, absl::string_view value) override;
  ObjectWriter* RenderNull(absl::string_view name) override;
  bool done() override;

 private:
  struct Impl;
  std::unique_ptr<Impl> impl_;
};
}  // namespace mcshim
}  // namespace converter
}  // namespace util
}  // namespace protobuf
}  // namespace google
#endif
