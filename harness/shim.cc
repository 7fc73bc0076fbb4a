// The converter classes declared by the shim headers, over the bridge.
#include "bridge.h"
#include "google/protobuf/util/converter/shim_all.h"
#include "google/protobuf/util/json_util.h"
#include "shim.h"

namespace google {
namespace protobuf {
namespace util {
namespace converter {
inline namespace mcshim {
namespace {
absl::string_view a(bridge::sv s) { return absl::string_view(s.data(), s.size()); }
bridge::sv b(absl::string_view s) { return bridge::sv(s.data(), s.size()); }
absl::Status st(const bridge::St& s) { return s.code ? absl::Status((absl::StatusCode)s.code, s.msg) : absl::OkStatus(); }
bridge::St ts(const absl::Status& s) { return {(int)s.code(), std::string(s.message())}; }
}  // namespace
}  // namespace mcshim
}  // namespace converter
}  // namespace util
}  // namespace protobuf
}  // namespace google

namespace shim {
using namespace google::protobuf::util::converter;
ToResolver::ToResolver(google::protobuf::util::TypeResolver* r) : r_(r) {}
bridge::St ToResolver::Message(const std::string& u, google::protobuf::Type* t) { return ts(r_->ResolveMessageType(u, t)); }
bridge::St ToResolver::Enum(const std::string& u, google::protobuf::Enum* e) { return ts(r_->ResolveEnumType(u, e)); }
absl::Status ToStatus(const bridge::St& s) { return st(s); }

struct ToWriter : bridge::Writer {
  ObjectWriter* w;
  explicit ToWriter(ObjectWriter* x) : w(x) {}
  void StartObject(bridge::sv n) override { w->StartObject(a(n)); }
  void EndObject() override { w->EndObject(); }
  void StartList(bridge::sv n) override { w->StartList(a(n)); }
  void EndList() override { w->EndList(); }
  void RenderBool(bridge::sv n, bool x) override { w->RenderBool(a(n), x); }
  void RenderInt32(bridge::sv n, int32_t x) override { w->RenderInt32(a(n), x); }
  void RenderUint32(bridge::sv n, uint32_t x) override { w->RenderUint32(a(n), x); }
  void RenderInt64(bridge::sv n, int64_t x) override { w->RenderInt64(a(n), x); }
  void RenderUint64(bridge::sv n, uint64_t x) override { w->RenderUint64(a(n), x); }
  void RenderDouble(bridge::sv n, double x) override { w->RenderDouble(a(n), x); }
  void RenderFloat(bridge::sv n, float x) override { w->RenderFloat(a(n), x); }
  void RenderString(bridge::sv n, bridge::sv x) override { w->RenderString(a(n), a(x)); }
  void RenderBytes(bridge::sv n, bridge::sv x) override { w->RenderBytes(a(n), a(x)); }
  void RenderNull(bridge::sv n) override { w->RenderNull(a(n)); }
};
struct ToErrors : bridge::Errors {
  struct Loc : LocationTrackerInterface {
    std::string s;
    explicit Loc(const std::string& x) : s(x) {}
    std::string ToString() const override { return s; }
  };
  ErrorListener* l;
  explicit ToErrors(ErrorListener* x) : l(x) {}
  void InvalidName(const std::string& loc, bridge::sv n, bridge::sv m) override { l->InvalidName(Loc(loc), a(n), a(m)); }
  void InvalidValue(const std::string& loc, bridge::sv t, bridge::sv v) override { l->InvalidValue(Loc(loc), a(t), a(v)); }
  void MissingField(const std::string& loc, bridge::sv n) override { l->MissingField(Loc(loc), a(n)); }
};
}  // namespace shim

namespace google {
namespace protobuf {
namespace util {
inline namespace mcshim {
absl::Status BinaryToJsonStream(TypeResolver* r, const std::string& url, io::ZeroCopyInputStream* in, io::ZeroCopyOutputStream* out, const JsonPrintOptions& o) {
  shim::ToResolver tr(r);
  bridge::PrintOptions po;
  po.add_whitespace = o.add_whitespace;
  po.always_print_primitive_fields = o.always_print_primitive_fields;
  po.always_print_enums_as_ints = o.always_print_enums_as_ints;
  po.preserve_proto_field_names = o.preserve_proto_field_names;
  return shim::ToStatus(bridge::BinaryToJson(&tr, url, in, out, po));
}
}  // namespace mcshim
namespace converter {
inline namespace mcshim {
struct Peek {
  static bridge::Piece of(const DataPiece& d) {
    bridge::Piece p;
    p.type = d.type_;
    p.i32 = d.i_;
    p.i64 = d.i_;
    p.u32 = d.u_;
    p.u64 = d.u_;
    p.d = d.d_;
    p.f = d.f_;
    p.b = d.b_;
    p.s = b(d.s_);
    p.strict = d.strict_;
    return p;
  }
};
#define TO(T, name)                                     \
  absl::StatusOr<T> DataPiece::To##name() const {       \
    T v{};                                              \
    bridge::St s = bridge::PieceTo(Peek::of(*this), &v); \
    if (s.code) return st(s);                           \
    return v;                                           \
  }
TO(int32_t, Int32) TO(uint32_t, Uint32) TO(int64_t, Int64) TO(uint64_t, Uint64) TO(double, Double) TO(float, Float) TO(bool, Bool) TO(std::string, String)
absl::StatusOr<std::string> DataPiece::ToBytes() const {
  std::string v;
  bridge::St s = bridge::PieceToBytes(Peek::of(*this), &v);
  if (s.code) return st(s);
  return v;
}
std::string DataPiece::ValueAsStringOrDefault(absl::string_view d) const { return bridge::PieceText(Peek::of(*this), b(d)); }

void ObjectWriter::RenderDataPieceTo(const DataPiece& d, absl::string_view name, ObjectWriter* ow) {
  bridge::Piece p = Peek::of(d);
  switch (d.type()) {
    case DataPiece::TYPE_INT32: ow->RenderInt32(name, p.i32); break;
    case DataPiece::TYPE_INT64: ow->RenderInt64(name, p.i64); break;
    case DataPiece::TYPE_UINT32: ow->RenderUint32(name, p.u32); break;
    case DataPiece::TYPE_UINT64: ow->RenderUint64(name, p.u64); break;
    case DataPiece::TYPE_DOUBLE: ow->RenderDouble(name, p.d); break;
    case DataPiece::TYPE_FLOAT: ow->RenderFloat(name, p.f); break;
    case DataPiece::TYPE_BOOL: ow->RenderBool(name, p.b); break;
    case DataPiece::TYPE_STRING: ow->RenderString(name, d.str()); break;
    case DataPiece::TYPE_BYTES: ow->RenderBytes(name, d.str()); break;
    case DataPiece::TYPE_NULL: ow->RenderNull(name); break;
    default: break;
  }
}

JsonStreamParser::JsonStreamParser(ObjectWriter* ow) : out_(new shim::ToWriter(ow)), parser_(bridge::NewParser(out_.get())) {}
JsonStreamParser::~JsonStreamParser() {}
absl::Status JsonStreamParser::Parse(absl::string_view s) { return st(parser_->Parse(b(s))); }
absl::Status JsonStreamParser::FinishParse() { return st(parser_->Finish()); }

struct ProtoStreamObjectWriter::Impl {
  shim::ToResolver tr;
  shim::ToErrors el;
  std::unique_ptr<bridge::ProtoWriter> w;
  Impl(TypeResolver* r, ErrorListener* l) : tr(r), el(l) {}
};
ProtoStreamObjectWriter::ProtoStreamObjectWriter(TypeResolver* r, const google::protobuf::Type& type, strings::ByteSink* output, ErrorListener* listener, const Options& o) : impl_(new Impl(r, listener)) {
  bridge::WriterOptions w;
  w.struct_integers_as_strings = o.struct_integers_as_strings;
  w.ignore_unknown_fields = o.ignore_unknown_fields;
  w.ignore_unknown_enum_values = o.ignore_unknown_enum_values;
  w.use_lower_camel_for_enums = o.use_lower_camel_for_enums;
  w.case_insensitive_enum_parsing = o.case_insensitive_enum_parsing;
  w.ignore_null_value_map_entry = o.ignore_null_value_map_entry;
  w.use_legacy_json_map_format = o.use_legacy_json_map_format;
  w.disable_implicit_message_list = o.disable_implicit_message_list;
  w.suppress_implicit_message_list_error = o.suppress_implicit_message_list_error;
  w.suppress_object_to_scalar_error = o.suppress_object_to_scalar_error;
  w.use_json_name_in_missing_fields = o.use_json_name_in_missing_fields;
  impl_->w = bridge::NewProtoWriter(&impl_->tr, type, output, &impl_->el, w);
}
ProtoStreamObjectWriter::~ProtoStreamObjectWriter() {}
#define W (impl_->w->set_strict(use_strict_base64_decoding()), impl_->w)
ObjectWriter* ProtoStreamObjectWriter::StartObject(absl::string_view n) { return W->StartObject(b(n)), this; }
ObjectWriter* ProtoStreamObjectWriter::EndObject() { return W->EndObject(), this; }
ObjectWriter* ProtoStreamObjectWriter::StartList(absl::string_view n) { return W->StartList(b(n)), this; }
ObjectWriter* ProtoStreamObjectWriter::EndList() { return W->EndList(), this; }
ObjectWriter* ProtoStreamObjectWriter::RenderBool(absl::string_view n, bool x) { return W->RenderBool(b(n), x), this; }
ObjectWriter* ProtoStreamObjectWriter::RenderInt32(absl::string_view n, int32_t x) { return W->RenderInt32(b(n), x), this; }
ObjectWriter* ProtoStreamObjectWriter::RenderUint32(absl::string_view n, uint32_t x) { return W->RenderUint32(b(n), x), this; }
ObjectWriter* ProtoStreamObjectWriter::RenderInt64(absl::string_view n, int64_t x) { return W->RenderInt64(b(n), x), this; }
ObjectWriter* ProtoStreamObjectWriter::RenderUint64(absl::string_view n, uint64_t x) { return W->RenderUint64(b(n), x), this; }
ObjectWriter* ProtoStreamObjectWriter::RenderDouble(absl::string_view n, double x) { return W->RenderDouble(b(n), x), this; }
ObjectWriter* ProtoStreamObjectWriter::RenderFloat(absl::string_view n, float x) { return W->RenderFloat(b(n), x), this; }
ObjectWriter* ProtoStreamObjectWriter::RenderString(absl::string_view n, absl::string_view x) { return W->RenderString(b(n), b(x)), this; }
ObjectWriter* ProtoStreamObjectWriter::RenderBytes(absl::string_view n, absl::string_view x) { return W->RenderBytes(b(n), b(x)), this; }
ObjectWriter* ProtoStreamObjectWriter::RenderNull(absl::string_view n) { return W->RenderNull(b(n)), this; }
bool ProtoStreamObjectWriter::done() { return impl_->w->done(); }

namespace {
struct Info : TypeInfo {
  shim::ToResolver tr;
  std::unique_ptr<bridge::Types> t;
  explicit Info(TypeResolver* r) : tr(r), t(bridge::NewTypes(&tr)) {}
  absl::StatusOr<const google::protobuf::Type*> ResolveTypeUrl(absl::string_view u) const override {
    const google::protobuf::Type* ty = nullptr;
    bridge::St s = t->ResolveTypeUrl(b(u), &ty);
    if (s.code) return st(s);
    return ty;
  }
  const google::protobuf::Type* GetTypeByTypeUrl(absl::string_view u) const override { return t->GetTypeByTypeUrl(b(u)); }
  const google::protobuf::Enum* GetEnumByTypeUrl(absl::string_view u) const override { return t->GetEnumByTypeUrl(b(u)); }
  const google::protobuf::Field* FindField(const google::protobuf::Type* ty, absl::string_view n) const override { return t->FindField(ty, b(n)); }
};
}  // namespace
TypeInfo* TypeInfo::NewTypeInfo(TypeResolver* r) {
  if (shim::MakeTypeInfo) return shim::MakeTypeInfo(r);
  return new Info(r);
}
}  // namespace mcshim
}  // namespace converter
}  // namespace util
}  // namespace protobuf
}  // namespace google
namespace shim {
TypeInfo* (*MakeTypeInfo)(google::protobuf::util::TypeResolver*) = nullptr;
}
