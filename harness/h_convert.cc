// C32: the text of a URL binding means what the same text means as a JSON string in the body, for every kind of field.
#include <memory>

#include "conv.h"
#include "ctypes.h"
#include "google/protobuf/duration.pb.h"
#include "google/protobuf/field_mask.pb.h"
#include "google/protobuf/struct.pb.h"
#include "google/protobuf/timestamp.pb.h"
#include "grpc_transcoding/json_request_translator.h"
#include "grpc_transcoding/request_message_translator.h"
#include "grpc_transcoding/request_stream_translator.h"
#include "mc.h"
#include "source.h"

namespace gt = google::grpc::transcoding;
using namespace conv;
using mc::T;

namespace {
#ifdef MC_SAN
const bool kSan = true;
#else
const bool kSan = false;
#endif

// The message W has a field of every kind under each of four names: x (plain), r_x (repeated), o_x (in a oneof), and all of it again in the field "in".
struct F {
  const char* name;
  pb::Field::Kind kind;
  std::string type;  // of a message or an enum
};
const std::vector<F>& fields() {
  static const std::vector<F> f = [] {
    std::vector<F> v = {{"i32", pb::Field::TYPE_INT32, ""}, {"i64", pb::Field::TYPE_INT64, ""}, {"u32", pb::Field::TYPE_UINT32, ""}, {"u64", pb::Field::TYPE_UINT64, ""}, {"s32", pb::Field::TYPE_SINT32, ""}, {"s64", pb::Field::TYPE_SINT64, ""}, {"f32", pb::Field::TYPE_FIXED32, ""}, {"f64", pb::Field::TYPE_FIXED64, ""}, {"sf32", pb::Field::TYPE_SFIXED32, ""}, {"sf64", pb::Field::TYPE_SFIXED64, ""}, {"d", pb::Field::TYPE_DOUBLE, ""}, {"f", pb::Field::TYPE_FLOAT, ""}, {"b", pb::Field::TYPE_BOOL, ""}, {"s", pb::Field::TYPE_STRING, ""}, {"y", pb::Field::TYPE_BYTES, ""}, {"e", pb::Field::TYPE_ENUM, "mctest.E"}};
    for (auto& w : {"Int32Value", "Int64Value", "UInt32Value", "UInt64Value", "DoubleValue", "FloatValue", "BoolValue", "StringValue", "BytesValue", "Timestamp", "Duration", "FieldMask", "Value", "Struct", "ListValue"}) v.push_back({w, pb::Field::TYPE_MESSAGE, std::string("google.protobuf.") + w});
    v.push_back({"m", pb::Field::TYPE_MESSAGE, "mctest.N"});
    v.push_back({"nul", pb::Field::TYPE_ENUM, "google.protobuf.NullValue"});
    return v;
  }();
  return f;
}
struct World {
  std::vector<pb::Type> types;
  std::vector<pb::Enum> enums;
  std::unique_ptr<gt::TypeHelper> helper;
  std::unique_ptr<shim::ToResolver> real;
  World() {
    types = ct::world().types;
    enums = ct::world().enums;
    pb::Type w;
    w.set_name("mctest.W");
    w.set_syntax(pb::SYNTAX_PROTO3);
    w.add_oneofs("one");
    int n = 1;
    auto add = [&](const std::string& name, const F& f, int card, int oneof) {
      pb::Field* o = w.add_fields();
      o->set_kind(f.kind);
      o->set_cardinality((pb::Field::Cardinality)card);
      o->set_number(n++);
      o->set_name(name);
      o->set_json_name(name);
      o->set_oneof_index(oneof);
      if (!f.type.empty()) o->set_type_url(ct::Url(f.type));
    };
    F self = {"in", pb::Field::TYPE_MESSAGE, "mctest.W"};
    add("in", self, pb::Field::CARDINALITY_OPTIONAL, 0);
    add("in2", self, pb::Field::CARDINALITY_OPTIONAL, 0);
    for (auto& f : fields()) {
      add(f.name, f, pb::Field::CARDINALITY_OPTIONAL, 0);
      add(std::string("r_") + f.name, f, pb::Field::CARDINALITY_REPEATED, 0);
      add(std::string("o_") + f.name, f, pb::Field::CARDINALITY_OPTIONAL, 1);
    }
    types.push_back(w);
    for (auto* d : {pb::Int32Value::descriptor(), pb::Int64Value::descriptor(), pb::UInt32Value::descriptor(), pb::UInt64Value::descriptor(), pb::DoubleValue::descriptor(), pb::FloatValue::descriptor(), pb::BoolValue::descriptor(), pb::StringValue::descriptor(), pb::BytesValue::descriptor(), pb::Timestamp::descriptor(), pb::Duration::descriptor(), pb::FieldMask::descriptor(), pb::Value::descriptor(), pb::Struct::descriptor(), pb::ListValue::descriptor()}) {
      types.push_back(ct::TypeOf(d));
      for (int k = 0; k < d->nested_type_count(); ++k) types.push_back(ct::TypeOf(d->nested_type(k)));
    }
    pb::Enum e;
    e.set_name("google.protobuf.NullValue");
    auto* v = e.add_enumvalue();
    v->set_name("NULL_VALUE");
    enums.push_back(e);
    helper.reset(new gt::TypeHelper(types, enums));
    real.reset(new shim::ToResolver(helper->Resolver()));
  }
};
World& world() {
  static World* w = new World;
  return *w;
}

struct Bound {
  std::string path, text;
};
gt::RequestInfo info(const std::string& body, const std::vector<Bound>& bound, bool enums) {
  gt::RequestInfo i;
  static const pb::Type* w = world().helper->Info()->GetTypeByTypeUrl(ct::Url("mctest.W"));
  i.message_type = w;
  i.body_field_path = body;
  i.reject_binding_body_field_collisions = false;
  i.case_insensitive_enum_parsing = enums;
  for (auto& x : bound) {
    gt::RequestWeaver::BindingInfo b;
    if (!world().helper->ResolveFieldPath(*i.message_type, x.path, &b.field_path).ok()) abort();
    b.value = x.text;
    i.variable_bindings.push_back(b);
  }
  return i;
}
struct Got {
  bool ok = false, done = false;
  absl::StatusCode code = absl::StatusCode::kOk;
  std::vector<std::string> msgs;
  bool operator==(const Got& o) const { return ok == o.ok && done == o.done && code == o.code && msgs == o.msgs; }
  std::string show() const {
    std::string s = ok ? "" : "error " + num((int)code) + " ";
    for (auto& m : msgs) s += mc::q(m) + " ";
    return s + (done ? "" : "unfinished");
  }
};
template <class S>
void drain(S& s, Got* g) {
  std::string m;
  for (int k = 0; k < 2; ++k)
    while (g->msgs.size() < 9 && s.NextMessage(&m)) g->msgs.push_back(m);
  g->ok = s.Status().ok();
  g->code = s.Status().code();
  g->done = !g->ok || s.Finished();
}
Got unary(const gt::RequestInfo& i, const Events& e) {
  gt::RequestMessageTranslator t(*world().helper->Resolver(), false, i);
  for (auto& x : e) play(x, &t.Input());
  Got g;
  drain(t, &g);
  return g;
}
Got stream(const gt::RequestInfo& i, const Events& e) {
  gt::RequestStreamTranslator t(*world().helper->Resolver(), false, i);
  for (auto& x : e) play(x, &t);
  Got g;
  drain(t, &g);
  return g;
}
Got json(const gt::RequestInfo& i, const std::string& text) {
  ArrivingSource in;
  in.lenient = true;
  in.reset(text, {(uint32_t)text.size()});
  in.arrived = 1;
  in.ended = true;
  gt::JsonRequestTranslator t(world().helper->Resolver(), &in, i, false, false);
  Got g;
  drain(t.Output(), &g);
  return g;
}
const Event kO = {kObj, "", {}}, kE = {kEndObj, "", {}};
Event S(const std::string& name, const std::string& text) { return {kVal, name, Value::Str(text)}; }
std::string quote(const std::string& s) {
  std::string o = "\"";
  char buf[8];
  for (unsigned char c : s) {
    if (c < 32 || c == '"' || c == '\\' || c == 127) snprintf(buf, sizeof buf, "\\u%04x", c), o += buf;
    else o += c;
  }
  return o + "\"";
}
void both(T& t, const char* what, const Got& got, const Got& want) {
  t.step();
  t.check(got == want, [&] { return std::string(what) + ": with the binding " + got.show() + ", with the text in the body " + want.show(); });
}
// One field, one text.
void one(T& t, const std::string& f, const std::string& s, bool enums = false) {
  if (!t.begin([&] { return f + " = " + mc::q(s) + (enums ? " (case-insensitive enums)" : ""); })) return;
  bool ascii = true;
  for (unsigned char c : s) ascii &= c && c < 128;
  Got plain = unary(info("*", {}, enums), {kO, S(f, s), kE}), inner = unary(info("*", {}, enums), {kO, {kObj, "in", {}}, S(f, s), kE, kE});
  t.check(plain.ok ? plain.msgs.size() == 1 && plain.done : plain.msgs.empty() && plain.code == absl::StatusCode::kInvalidArgument, [&] { return "in the body: " + plain.show(); });
  both(t, "alone", unary(info("*", {{f, s}}, enums), {kO, kE}), plain);
  both(t, "alone, no body rule", unary(info("", {{f, s}}, enums), {kO, kE}), plain);
  both(t, "in an inner message", unary(info("*", {{"in." + f, s}}, enums), {kO, kE}), inner);
  both(t, "in an inner message the body has", unary(info("*", {{"in." + f, s}}, enums), {kO, {kObj, "in", {}}, kE, kE}), inner);
  both(t, "beside a body field", unary(info("in2", {{f, s}}, enums), {kO, kE}), unary(info("*", {}, enums), {kO, {kObj, "in2", {}}, kE, S(f, s), kE}));
  both(t, "inside the body field", unary(info("in", {{"in." + f, s}}, enums), {kO, kE}), inner);
  Got first = plain;
  if (first.ok) first.msgs.push_back("");
  both(t, "in a stream", stream(info("*", {{f, s}}, enums), {{kList, "", {}}, kO, kE, kO, kE, {kEndList, "", {}}}), first);
  std::string r = "r_" + f;
  both(t, "in a repeated field", unary(info("*", {{r, s}, {r, s}}, enums), {kO, kE}), unary(info("*", {}, enums), {kO, {kList, r, {}}, S("", s), S("", s), {kEndList, "", {}}, kE}));
  both(t, "in a oneof", unary(info("*", {{"o_" + f, s}}, enums), {kO, kE}), unary(info("*", {}, enums), {kO, S("o_" + f, s), kE}));
  if (ascii) {
    std::string q = "{" + quote(f) + ":" + quote(s) + "}";
    both(t, "with no body at all", json(info("", {{f, s}}, enums), ""), plain);
    both(t, "beside the JSON text {}", json(info("*", {{f, s}}, enums), "{}"), json(info("*", {}, enums), q));
    std::string lib;
    if (f != "y" && f != "BytesValue" && f != "e" && f != "nul") {  // the one-shot translation has options of its own for bytes and enums
      bool ok = bridge::JsonToBinary(world().real.get(), ct::Url("mctest.W"), q, &lib, true).code == 0;
      t.check(ok == plain.ok && (!ok || lib == plain.msgs[0]), [&] { return "the library on the JSON text: " + (ok ? mc::q(lib) : std::string("error")) + ", as events " + plain.show(); });
    }
  }
  t.state(mc::comb(mc::hash(f), plain.ok ? mc::hash(plain.msgs[0]) : 1));
}

void strings(const char* a, int n, std::string& s, const std::function<void()>& f) {
  f();
  if ((int)s.size() == n) return;
  for (const char* c = a; *c; ++c) {
    s += *c;
    strings(a, n, s, f);
    s.pop_back();
  }
}
std::vector<mc::Space> spaces(const mc::Options& o) {
  bool th = o.thorough();
  std::vector<mc::Space> v;
  struct G {
    std::vector<std::string> fs;
    const char* alphabet;
    int len;
  };
  int d = kSan ? -1 : th ? 1 : 0;
  auto gs = std::make_shared<std::vector<G>>(std::vector<G>{
      {{"i32", "u64", "i64", "u32"}, "-+019.eE x", 4 + d},
      {{"s32", "s64", "f32", "f64", "sf32", "sf64", "Int32Value", "Int64Value", "UInt32Value", "UInt64Value"}, "-019.e ", 3 + d},
      {{"d", "f"}, "-+019.eE x", 4 + d},
      {{"DoubleValue", "FloatValue"}, "-09.eN", 4 + d},
      {{"b", "BoolValue"}, "tTruefals01 ", 3 + d},
      {{"s", "StringValue"}, "a\"\\/\n %{", 3 + d},
      {{"y", "BytesValue"}, "aQ=+-_/ ", 4 + d},
      {{"e", "nul"}, "oOnNeE-_012", 3 + d},
      {{"Duration"}, "-.019s", 5 + d},
      {{"FieldMask"}, "aB._,( ", 4 + d},
      {{"Value", "Struct", "ListValue", "m"}, "\"1nul{}[]:,", 3 + d},
      {{"Timestamp"}, "2-01TZ", 4 + d},
  });
  std::vector<std::pair<int, int>> us;
  for (size_t g = 0; g < gs->size(); ++g)
    for (size_t a = 0; a <= strlen((*gs)[g].alphabet); ++a) us.push_back({(int)g, (int)a});
  v.push_back({"texts", "for every kind of field (10 integer kinds, floating point, bool, string, bytes, enum, 9 wrappers, Timestamp, Duration, FieldMask, Value, Struct, ListValue, messages): every text of at most " + num(3 + d) + " to " + num(5 + d) + " characters over an alphabet of its own, bound along 11 ways", us.size(), [=](T& t, uint64_t u) {
                 const G& g = (*gs)[us[u].first];
                 int a = us[u].second - 1;
                 std::string s;
                 auto run = [&] {
                   for (auto& f : g.fs) {
                     one(t, f, s);
                     if (f == "e" || f == "nul") one(t, f, s, true);
                   }
                 };
                 if (a < 0) return run();
                 s = g.alphabet[a];
                 strings(g.alphabet, g.len, s, run);
               }});
  static const std::vector<std::string> pool = {
      "", "0", "-0", "1", "-1", "+1", "01", "1.0", "1.5", "1e2", "1e-1", "127", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "9007199254740993", "-9007199254740993", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "3.4028235e38", "3.5e38", "1e-46", "1.7976931348623157e308", "1e309", "NaN", "nan", "Infinity", "-Infinity", "inf", "-inf", "0x10", "1_0", "1,0", " 1", "1 ", "\t1", "true", "false", "True", "TRUE", "t", "yes", "null", "NULL", "undefined", "ONE", "one", "TWO_WORDS", "two-words", "twoWords", "NULL_VALUE", "{}", "[]", "[1]", "{\"a\":1}", "\"a\"", "abc", "YWJj", "YWJjZA==", "YWJjZA", "a b", "a,b", "a.b,cD", "a_b", "aB.cD,e", "1s", "1.5s", "-1.000000001s", "315576000000s", "315576000001s", "1.0000000001s", "2020-02-29T00:00:00Z", "2019-02-29T00:00:00Z", "1970-01-01T00:00:00Z", "0001-01-01T00:00:00Z", "9999-12-31T23:59:59.999999999Z", "2020-01-01T00:00:00+01:00", "2020-01-01T00:00:00.123456789-23:59", "2020-01-01t00:00:00z", "2020-01-01 00:00:00Z", "2020-01-01", "12:00:00", "\xc3\xa4", "\xff", "\xed\xa0\x80", "\xf0\x9f\x98\x80", "\xef\xbb\xbf", "a%20b", "a+b", "a&b=c", "'", "\\", "\\u0041", "<", "\x7f"};
  v.push_back({"pool", num(pool.size()) + " texts (boundary values, special values, texts of other kinds, UTF-8 good and bad) for each of " + num(fields().size()) + " kinds of field", fields().size(), [=](T& t, uint64_t u) {
                 for (auto& s : pool) one(t, fields()[u].name, s), one(t, fields()[u].name, s, true);
               }});
  v.push_back({"bytes", "every text of two bytes as a string, StringValue, Value and number" + std::string(kSan ? " (the first byte one of 16)" : ""), 256, [=](T& t, uint64_t u) {
                 if (kSan && u % 16 != 9) return;
                 for (int b = 0; b < 256; ++b)
                   for (auto& f : {"s", "StringValue", "Value", "i32", "d", "b"}) {
                     if (b % 8 != (int)u % 8 && f != std::string("s") && !th) continue;
                     one(t, f, std::string(1, (char)u) + (char)b);
                   }
                 for (auto& f : {"s", "i32", "Timestamp"}) one(t, f, std::string(1, (char)u));
               }});
  static const std::vector<std::pair<std::string, std::string>> good = {{"Timestamp", "2020-02-29T23:59:59.123Z"}, {"Timestamp", "2020-12-31T00:00:00+01:30"}, {"Duration", "-12.000000345s"}, {"FieldMask", "aB.c,dE_f"}, {"b", "false"}, {"BoolValue", "true"}, {"d", "-Infinity"}, {"f", "12.5e-10"}, {"i64", "-9223372036854775808"}, {"u64", "18446744073709551615"}, {"u32", "4294967295"}, {"i32", "-2147483648"}, {"d", "1.7976931348623157e308"}, {"e", "TWO_WORDS"}, {"y", "YWJjZA=="}};
  v.push_back({"mutations", "every change, insertion and removal of one character (thorough: two) of " + num(good.size()) + " well-formed texts", good.size() * 32, [=](T& t, uint64_t u) {
                 static const char a[] = "0129-+:TZ.sex tz_,=A";
                 auto& [f, g] = good[u / 32];
                 int part = u % 32;
                 auto each = [&](const std::string& s, int only, const std::function<void(const std::string&)>& h) {
                   for (size_t i = 0; i <= s.size(); ++i) {
                     if (only >= 0 && (int)(i % 32) != only) continue;
                     if (i < s.size()) h(s.substr(0, i) + s.substr(i + 1));
                     for (const char* c = a; *c; ++c) {
                       h(s.substr(0, i) + *c + s.substr(i));
                       if (i < s.size() && s[i] != *c) h(s.substr(0, i) + *c + s.substr(i + 1));
                     }
                   }
                 };
                 each(g, part, [&](const std::string& s) {
                   one(t, f, s);
                   if (th && !kSan) each(s, part, [&](const std::string& s2) { one(t, f, s2); });
                 });
               }});
  {
    // Several bindings at once: as members of the body in the same order.
    static const std::vector<Bound> bs = {{"i32", "5"}, {"i32", "x"}, {"s", ""}, {"s", "a"}, {"e", "ONE"}, {"b", "true"}, {"Timestamp", "1970-01-01T00:00:01Z"}, {"Duration", "1s"}, {"FieldMask", "a,b"}, {"Value", "v"}, {"Int32Value", "0"}, {"o_s", "p"}, {"o_i64", "3"}, {"o_StringValue", "q"}, {"r_s", "1"}, {"r_s", "2"}, {"r_i32", "7"}, {"r_e", "TWO_WORDS"}, {"r_Duration", "2s"}, {"r_Int32Value", "4"}, {"y", "YQ"}};
    int n = bs.size();
    v.push_back({"sets", "every sequence of at most " + num(th && !kSan ? 4 : 3) + " of " + num(n) + " bindings to distinct plain fields or to repeated ones, at the top and in an inner message: as the same members in the body, in the same order", (uint64_t)n * n, [=](T& t, uint64_t u) {
                   std::vector<int> pick = {(int)(u / n)};
                   std::function<void()> go = [&] {
                     std::vector<Bound> top, in;
                     Events a = {kO}, b = {kO, {kObj, "in", {}}};
                     for (size_t x = 0; x < pick.size(); ++x) {
                       const Bound& y = bs[pick[x]];
                       bool rep = y.path[0] == 'r';
                       for (size_t z = 0; z < x; ++z)
                         if (bs[pick[z]].path == y.path && (!rep || pick[x - 1] != pick[x])) {
                           if (!rep) return;
                         }
                       top.push_back(y);
                       in.push_back({"in." + y.path, y.text});
                       a.push_back(S(y.path, y.text));
                       b.push_back(S(y.path, y.text));
                     }
                     a.push_back(kE);
                     b.push_back(kE), b.push_back(kE);
                     if (t.begin([&] {
                           std::string s = "bindings";
                           for (auto& y : top) s += " " + y.path + "=" + mc::q(y.text);
                           return s;
                         })) {
                       Got x = unary(info("*", {}, false), a);
                       both(t, "at the top", unary(info("*", top, false), {kO, kE}), x);
                       both(t, "inside", unary(info("*", in, false), {kO, kE}), unary(info("*", {}, false), b));
                       t.state(mc::hash(x.show()));
                     }
                     if (pick.size() < (th && !kSan ? 4u : 3u))
                       for (int k = 0; k < n; ++k) {
                         if (pick.size() == 1 && k != (int)(u % n)) continue;
                         pick.push_back(k);
                         go();
                         pick.pop_back();
                       }
                   };
                   go();
                 }});
  }
  return v;
}
}  // namespace

int main(int argc, char** argv) { return mc::Main(argc, argv, spaces); }
