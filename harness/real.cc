// The side of the bridge that knows the real libprotobuf (3.21).  Its converter headers are not installed, so the
// declarations needed are repeated here; selftest() in h_shim.cc exercises each of them.
#include <new>

#include "bridge.h"
#include "google/protobuf/util/json_util.h"
#include "google/protobuf/util/type_resolver.h"

namespace google {
namespace protobuf {
namespace util {
namespace statusor_internal {
template <typename T>
class StatusOr {
 public:
  StatusOr(const StatusOr& o) : status_(o.status_), value_(o.value_) {}
  ~StatusOr() {}
  Status status_;
  T value_;
};
}  // namespace statusor_internal
using statusor_internal::StatusOr;
namespace converter {
class ObjectWriter {
 public:
  virtual ~ObjectWriter() {}
  virtual ObjectWriter* StartObject(StringPiece) = 0;
  virtual ObjectWriter* EndObject() = 0;
  virtual ObjectWriter* StartList(StringPiece) = 0;
  virtual ObjectWriter* EndList() = 0;
  virtual ObjectWriter* RenderBool(StringPiece, bool) = 0;
  virtual ObjectWriter* RenderInt32(StringPiece, int32_t) = 0;
  virtual ObjectWriter* RenderUint32(StringPiece, uint32_t) = 0;
  virtual ObjectWriter* RenderInt64(StringPiece, int64_t) = 0;
  virtual ObjectWriter* RenderUint64(StringPiece, uint64_t) = 0;
  virtual ObjectWriter* RenderDouble(StringPiece, double) = 0;
  virtual ObjectWriter* RenderFloat(StringPiece, float) = 0;
  virtual ObjectWriter* RenderString(StringPiece, StringPiece) = 0;
  virtual ObjectWriter* RenderBytes(StringPiece, StringPiece) = 0;
  virtual ObjectWriter* RenderNull(StringPiece) = 0;
  virtual bool done() { return true; }
  bool use_strict_base64_decoding_ = true;
};
class LocationTrackerInterface {
 public:
  virtual ~LocationTrackerInterface() {}
  virtual std::string ToString() const = 0;
};
class ErrorListener {
 public:
  virtual ~ErrorListener() {}
  virtual void InvalidName(const LocationTrackerInterface&, StringPiece, StringPiece) = 0;
  virtual void InvalidValue(const LocationTrackerInterface&, StringPiece, StringPiece) = 0;
  virtual void MissingField(const LocationTrackerInterface&, StringPiece) = 0;
};
class JsonStreamParser {
 public:
  explicit JsonStreamParser(ObjectWriter* ow);
  virtual ~JsonStreamParser();
  Status Parse(StringPiece json);
  Status FinishParse();

 private:
  char room_[16384];
};
class TypeInfo {
 public:
  virtual ~TypeInfo() {}
  virtual StatusOr<const Type*> ResolveTypeUrl(StringPiece) const = 0;
  virtual const Type* GetTypeByTypeUrl(StringPiece) const = 0;
  virtual const Enum* GetEnumByTypeUrl(StringPiece) const = 0;
  virtual const Field* FindField(const Type*, StringPiece) const = 0;
  static TypeInfo* NewTypeInfo(TypeResolver*);
};
class DataPiece {
 public:
  StatusOr<int32_t> ToInt32() const;
  StatusOr<uint32_t> ToUint32() const;
  StatusOr<int64_t> ToInt64() const;
  StatusOr<uint64_t> ToUint64() const;
  StatusOr<double> ToDouble() const;
  StatusOr<float> ToFloat() const;
  StatusOr<bool> ToBool() const;
  StatusOr<std::string> ToString() const;
  StatusOr<std::string> ToBytes() const;
  std::string ValueAsStringOrDefault(StringPiece) const;
  void* vptr_;
  int type_;
  union {
    int32_t i32_;
    int64_t i64_;
    uint32_t u32_;
    uint64_t u64_;
    double double_;
    float float_;
    bool bool_;
    struct {
      const char* p;
      size_t n;
    } str_;
  };
  bool strict_;
};
class ProtoStreamObjectWriter {  // an ObjectWriter
 public:
  struct Options : bridge::WriterOptions {};
  ProtoStreamObjectWriter(TypeResolver*, const Type&, strings::ByteSink*, ErrorListener*, const Options&);
  virtual ~ProtoStreamObjectWriter();

 private:
  char room_[16384];
};
}  // namespace converter
}  // namespace util
}  // namespace protobuf
}  // namespace google

#ifdef MC_COV
// While the library itself works, what it does in memory functions is not counted (see cov_rt.h).
extern int cov_lib;
struct Lib {
  int was = cov_lib;
  Lib() { cov_lib = 1; }
  ~Lib() { cov_lib = was; }
};
struct Ours {
  int was = cov_lib;
  Ours() { cov_lib = 0; }
  ~Ours() { cov_lib = was; }
};
#define LIB Lib lib_scope;
#define OURS Ours our_scope;
#else
#define LIB
#define OURS
#endif

namespace bridge {
namespace pb = google::protobuf;
namespace pu = google::protobuf::util;
namespace pc = google::protobuf::util::converter;
namespace {
St st(const pu::Status& s) { return {(int)s.code(), std::string(s.message().data(), s.message().size())}; }
pu::Status ts(const St& s) { return s.code ? pu::Status((pu::status_internal::StatusCode)s.code, s.msg) : pu::Status(); }
sv v(pb::StringPiece s) { return sv(s.data(), s.size()); }
pb::StringPiece p(sv s) { return pb::StringPiece(s.data(), s.size()); }

class OW : public pc::ObjectWriter {
 public:
  explicit OW(Writer* w) : w_(w) {}
  OW* StartObject(pb::StringPiece n) override { OURS return w_->StartObject(v(n)), this; }
  OW* EndObject() override { OURS return w_->EndObject(), this; }
  OW* StartList(pb::StringPiece n) override { OURS return w_->StartList(v(n)), this; }
  OW* EndList() override { OURS return w_->EndList(), this; }
  OW* RenderBool(pb::StringPiece n, bool x) override { OURS return w_->RenderBool(v(n), x), this; }
  OW* RenderInt32(pb::StringPiece n, int32_t x) override { OURS return w_->RenderInt32(v(n), x), this; }
  OW* RenderUint32(pb::StringPiece n, uint32_t x) override { OURS return w_->RenderUint32(v(n), x), this; }
  OW* RenderInt64(pb::StringPiece n, int64_t x) override { OURS return w_->RenderInt64(v(n), x), this; }
  OW* RenderUint64(pb::StringPiece n, uint64_t x) override { OURS return w_->RenderUint64(v(n), x), this; }
  OW* RenderDouble(pb::StringPiece n, double x) override { OURS return w_->RenderDouble(v(n), x), this; }
  OW* RenderFloat(pb::StringPiece n, float x) override { OURS return w_->RenderFloat(v(n), x), this; }
  OW* RenderString(pb::StringPiece n, pb::StringPiece x) override { OURS return w_->RenderString(v(n), v(x)), this; }
  OW* RenderBytes(pb::StringPiece n, pb::StringPiece x) override { OURS return w_->RenderBytes(v(n), v(x)), this; }
  OW* RenderNull(pb::StringPiece n) override { OURS return w_->RenderNull(v(n)), this; }

 private:
  Writer* w_;
};

struct P : Parser {
  OW ow;
  pc::JsonStreamParser parser;
  explicit P(Writer* w) : ow(w), parser(&ow) {}
  St Parse(sv s) override { LIB return st(parser.Parse(p(s))); }
  St Finish() override { LIB return st(parser.FinishParse()); }
};

class TR : public pu::TypeResolver {
 public:
  explicit TR(Resolver* r) : r_(r) {}
  pu::Status ResolveMessageType(const std::string& u, pb::Type* t) override { OURS return ts(r_->Message(u, t)); }
  pu::Status ResolveEnumType(const std::string& u, pb::Enum* e) override { OURS return ts(r_->Enum(u, e)); }

 private:
  Resolver* r_;
};

class EL : public pc::ErrorListener {
 public:
  explicit EL(Errors* e) : e_(e) {}
  void InvalidName(const pc::LocationTrackerInterface& l, pb::StringPiece a, pb::StringPiece b) override { e_->InvalidName(l.ToString(), v(a), v(b)); }
  void InvalidValue(const pc::LocationTrackerInterface& l, pb::StringPiece a, pb::StringPiece b) override { e_->InvalidValue(l.ToString(), v(a), v(b)); }
  void MissingField(const pc::LocationTrackerInterface& l, pb::StringPiece a) override { e_->MissingField(l.ToString(), v(a)); }

 private:
  Errors* e_;
};

struct PW : ProtoWriter {
  TR tr;
  EL el;
  pc::ProtoStreamObjectWriter w;
  static pc::ProtoStreamObjectWriter::Options opt(const WriterOptions& o) {
    pc::ProtoStreamObjectWriter::Options r;
    static_cast<WriterOptions&>(r) = o;
    return r;
  }
  PW(Resolver* r, const pb::Type& t, pb::strings::ByteSink* s, Errors* e, const WriterOptions& o) : tr(r), el(e), w(&tr, t, s, &el, opt(o)) {}
  pc::ObjectWriter* ow() {  // calls go through the object's own virtual table
    pc::ObjectWriter* x = reinterpret_cast<pc::ObjectWriter*>(&w);
    asm volatile("" : "+r"(x));
    return x;
  }
  void StartObject(sv n) override { LIB ow()->StartObject(p(n)); }
  void EndObject() override { LIB ow()->EndObject(); }
  void StartList(sv n) override { LIB ow()->StartList(p(n)); }
  void EndList() override { LIB ow()->EndList(); }
  void RenderBool(sv n, bool x) override { LIB ow()->RenderBool(p(n), x); }
  void RenderInt32(sv n, int32_t x) override { LIB ow()->RenderInt32(p(n), x); }
  void RenderUint32(sv n, uint32_t x) override { LIB ow()->RenderUint32(p(n), x); }
  void RenderInt64(sv n, int64_t x) override { LIB ow()->RenderInt64(p(n), x); }
  void RenderUint64(sv n, uint64_t x) override { LIB ow()->RenderUint64(p(n), x); }
  void RenderDouble(sv n, double x) override { LIB ow()->RenderDouble(p(n), x); }
  void RenderFloat(sv n, float x) override { LIB ow()->RenderFloat(p(n), x); }
  void RenderString(sv n, sv x) override { LIB ow()->RenderString(p(n), p(x)); }
  void RenderBytes(sv n, sv x) override { LIB ow()->RenderBytes(p(n), p(x)); }
  void RenderNull(sv n) override { LIB ow()->RenderNull(p(n)); }
  bool done() override { LIB return ow()->done(); }
  void set_strict(bool b) override { LIB ow()->use_strict_base64_decoding_ = b; }
};

struct TI : Types {
  TR tr;
  std::unique_ptr<pc::TypeInfo> ti;
  explicit TI(Resolver* r) : tr(r), ti(pc::TypeInfo::NewTypeInfo(&tr)) {}
  St ResolveTypeUrl(sv u, const pb::Type** t) const override {
    LIB
    auto r = ti->ResolveTypeUrl(p(u));
    *t = r.status_.ok() ? r.value_ : nullptr;
    return st(r.status_);
  }
  const pb::Type* GetTypeByTypeUrl(sv u) const override { LIB return ti->GetTypeByTypeUrl(p(u)); }
  const pb::Enum* GetEnumByTypeUrl(sv u) const override { LIB return ti->GetEnumByTypeUrl(p(u)); }
  const pb::Field* FindField(const pb::Type* t, sv n) const override { LIB return ti->FindField(t, p(n)); }
};

pc::DataPiece piece(const Piece& x) {
  pc::DataPiece d;
  d.type_ = x.type;
  d.strict_ = x.strict;
  d.str_ = {nullptr, 0};
  switch (x.type) {
    case 1: d.i32_ = x.i32; break;
    case 2: d.i64_ = x.i64; break;
    case 3: d.u32_ = x.u32; break;
    case 4: d.u64_ = x.u64; break;
    case 5: d.double_ = x.d; break;
    case 6: d.float_ = x.f; break;
    case 7: d.bool_ = x.b; break;
    default: d.str_ = {x.s.data(), x.s.size()};
  }
  return d;
}
template <class R, class T>
St out(const R& r, T* t) {
  if (r.status_.ok()) *t = r.value_;
  return st(r.status_);
}
}  // namespace

std::unique_ptr<Parser> NewParser(Writer* w) { LIB return std::make_unique<P>(w); }
std::unique_ptr<ProtoWriter> NewProtoWriter(Resolver* r, const pb::Type& t, pb::strings::ByteSink* s, Errors* e, const WriterOptions& o) { LIB return std::make_unique<PW>(r, t, s, e, o); }
std::unique_ptr<Types> NewTypes(Resolver* r) { LIB return std::make_unique<TI>(r); }
St PieceTo(const Piece& x, int32_t* r) { LIB return out(piece(x).ToInt32(), r); }
St PieceTo(const Piece& x, uint32_t* r) { LIB return out(piece(x).ToUint32(), r); }
St PieceTo(const Piece& x, int64_t* r) { LIB return out(piece(x).ToInt64(), r); }
St PieceTo(const Piece& x, uint64_t* r) { LIB return out(piece(x).ToUint64(), r); }
St PieceTo(const Piece& x, double* r) { LIB return out(piece(x).ToDouble(), r); }
St PieceTo(const Piece& x, float* r) { LIB return out(piece(x).ToFloat(), r); }
St PieceTo(const Piece& x, bool* r) { LIB return out(piece(x).ToBool(), r); }
St PieceTo(const Piece& x, std::string* r) { LIB return out(piece(x).ToString(), r); }
St PieceToBytes(const Piece& x, std::string* r) { LIB return out(piece(x).ToBytes(), r); }
std::string PieceText(const Piece& x, sv f) { LIB return piece(x).ValueAsStringOrDefault(p(f)); }

St BinaryToJson(Resolver* r, const std::string& url, pb::io::ZeroCopyInputStream* in, pb::io::ZeroCopyOutputStream* o, const PrintOptions& po) { LIB
  TR tr(r);
  pu::JsonPrintOptions jo;
  jo.add_whitespace = po.add_whitespace;
  jo.always_print_primitive_fields = po.always_print_primitive_fields;
  jo.always_print_enums_as_ints = po.always_print_enums_as_ints;
  jo.preserve_proto_field_names = po.preserve_proto_field_names;
  return st(pu::BinaryToJsonStream(&tr, url, in, o, jo));
}
St JsonToBinary(Resolver* r, const std::string& url, const std::string& json, std::string* o, bool ignore_unknown) { LIB
  TR tr(r);
  pu::JsonParseOptions po;
  po.ignore_unknown_fields = ignore_unknown;  // also lets unknown enum values pass
  return st(pu::JsonToBinaryString(&tr, url, json, o, po));
}
}  // namespace bridge
