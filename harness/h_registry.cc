// C31: what a type helper built from types and enums (or around a resolver) serves.
#include <functional>
#include <list>
#include <map>
#include <memory>

#include "conv.h"
#include "ctypes.h"
#include "google/protobuf/type.pb.h"
#include "google/protobuf/util/converter/type_info.h"
#include "grpc_transcoding/json_request_translator.h"
#include "grpc_transcoding/response_to_json_translator.h"
#include "grpc_transcoding/type_helper.h"
#include "mc.h"
#include "source.h"

namespace gt = google::grpc::transcoding;
namespace pb = google::protobuf;
namespace pu = google::protobuf::util;
using mc::T;

namespace {
#ifdef MC_SAN
const bool kSan = true;
#else
const bool kSan = false;
#endif
std::string num(size_t n) { return std::to_string(n); }
const char kUrl[] = "type.googleapis.com/";
const std::vector<std::string>& names() {
  static const std::vector<std::string> v = {"p.A", "p.B", "p.A.B", "A", "p.a", "p/A"};
  return v;
}
const std::vector<std::string>& options() {
  static const std::vector<std::string> v = {"proto2.MessageOptions.map_entry", "proto2.MessageOptions.message_set_wire_format", "google.protobuf.MessageOptions.map_entry",
                                             "proto2.MessageOptions.deprecated", "proto2.MessageOptions.map_entry2", "proto2.FieldOptions.map_entry",   "map_entry",
                                             "x.proto2.MessageOptions.map_entry"};
  return v;
}
std::string served(const std::string& o) {
  if (o == "proto2.MessageOptions.map_entry") return "google.protobuf.MessageOptions.map_entry";
  if (o == "proto2.MessageOptions.message_set_wire_format") return "google.protobuf.MessageOptions.message_set_wire_format";
  return o;
}
pb::Any boolean(bool b) {
  pb::BoolValue v;
  v.set_value(b);
  pb::Any a;
  a.PackFrom(v);
  return a;
}
pb::Type make(const std::string& name, const std::vector<int>& opts, bool current = false) {
  pb::Type t;
  t.set_name(name);
  t.set_syntax(pb::SYNTAX_PROTO3);
  t.mutable_source_context()->set_file_name("f/" + name);
  t.add_oneofs("one_" + name);
  for (int i = 0; i < 2; ++i) {
    pb::Field* f = t.add_fields();
    f->set_name((i ? "other_" : "field_of_") + std::to_string(name.size()));
    f->set_json_name("json" + std::to_string(i));
    f->set_number(7 + i);
    f->set_kind(i ? pb::Field::TYPE_MESSAGE : pb::Field::TYPE_STRING);
    f->set_type_url(i ? kUrl + name : "");
    pb::Option* o = f->add_options();
    o->set_name("proto2.MessageOptions.map_entry");  // of a field: none of the helper's business
  }
  for (size_t i = 0; i < opts.size(); ++i) {
    pb::Option* o = t.add_options();
    o->set_name(current ? served(options()[opts[i]]) : options()[opts[i]]);
    *o->mutable_value() = boolean(i & 1);
  }
  return t;
}
pb::Enum make_enum(const std::string& name) {
  pb::Enum e;
  e.set_name(name);
  e.add_enumvalue()->set_name("V_" + name);
  e.add_options()->set_name("proto2.MessageOptions.map_entry");
  return e;
}
const std::vector<std::string>& urls() {
  static const std::vector<std::string> v = [] {
    std::vector<std::string> v = {"", "/", "type.googleapis.com", "type.googleapis.com/", "p", "type.googleapis.com/p", "type.googleapis.com/p.A ", "type.googleapis.com/p.A/", std::string("type.googleapis.com/p.A\0", 24)};
    for (auto& n : names())
      for (const char* pre : {"type.googleapis.com/", "", "/", "type.googleapis.com//", "type.googleapis.com/.", "https://type.googleapis.com/", "TYPE.googleapis.com/", "type.googleapis.com/x/", "type.googleprod.com/"}) v.push_back(pre + n);
    return v;
  }();
  return v;
}
template <class M>
bool same(const M& a, const M& b) {
  return a.SerializeAsString() == b.SerializeAsString();
}
// What the helper should serve.
struct World {
  std::map<std::string, pb::Type> types;
  std::map<std::string, pb::Enum> enums;
};
void ask(T& t, gt::TypeHelper& h, const World& w, const std::string& url, int how) {
  auto ti = w.types.find(url);
  auto ei = w.enums.find(url);
  bool is_t = ti != w.types.end(), is_e = ei != w.enums.end();
  t.step();
  auto told = [&](const char* what, bool want) { return std::string(what) + " " + mc::q(url) + (want ? ": not served" : ": served"); };
  switch (how) {
    case 0:
    case 1: {
      pb::Type got;
      if (how) got = make("stale", {0, 1});
      absl::Status s = h.Resolver()->ResolveMessageType(url, &got);
      t.check(s.ok() == is_t, [&] { return told("type", is_t); });
      if (is_t) t.check(same(got, ti->second), [&] { return "type " + url + " is served as " + got.ShortDebugString(); });
      else t.check(s.code() == absl::StatusCode::kNotFound, [&] { return "type " + url + " gives " + s.ToString(); });
      break;
    }
    case 2:
    case 3: {
      pb::Enum got;
      if (how == 3) got = make_enum("stale");
      absl::Status s = h.Resolver()->ResolveEnumType(url, &got);
      t.check(s.ok() == is_e, [&] { return told("enum", is_e); });
      if (is_e) t.check(same(got, ei->second), [&] { return "enum " + url + " is served as " + got.ShortDebugString(); });
      else t.check(s.code() == absl::StatusCode::kNotFound, [&] { return "enum " + url + " gives " + s.ToString(); });
      break;
    }
    case 4: {
      const pb::Type* got = h.Info()->GetTypeByTypeUrl(url);
      t.check(!got == !is_t, [&] { return told("type (info)", is_t); });
      if (got) {
        t.check(same(*got, ti->second), [&] { return "type " + url + " is served as " + got->ShortDebugString(); });
        t.check(h.Info()->GetTypeByTypeUrl(url) == got, [&] { return "type " + url + " moves"; });
        for (auto& f : got->fields())
          for (const std::string& n : {f.name(), f.json_name()}) {
            const pb::Field* x = h.Info()->FindField(got, n);
            t.check(x == &f, [&] { return "field " + n + " of " + url + " is not found"; });
          }
        t.check(!h.Info()->FindField(got, "nosuch"), [] { return std::string("a field that is none"); });
      }
      break;
    }
    case 5: {
      const pb::Enum* got = h.Info()->GetEnumByTypeUrl(url);
      t.check(!got == !is_e, [&] { return told("enum (info)", is_e); });
      if (got) t.check(same(*got, ei->second) && h.Info()->GetEnumByTypeUrl(url) == got, [&] { return "enum " + url + " is served as " + got->ShortDebugString(); });
      break;
    }
    case 6: {
      auto got = h.Info()->ResolveTypeUrl(url);
      t.check(got.ok() == is_t, [&] { return told("type (url)", is_t); });
      if (got.ok()) t.check(same(**got, ti->second) && *got == h.Info()->GetTypeByTypeUrl(url), [&] { return "type " + url + " is served as " + (*got)->ShortDebugString(); });
      break;
    }
  }
  t.state(mc::comb(mc::hash(url), how * 4 + is_t * 2 + is_e));
}
const int kHows = 7;

enum Container { kVector, kList, kRepeated };
std::unique_ptr<gt::TypeHelper> build(int c, std::vector<pb::Type>& ts, std::vector<pb::Enum>& es, std::list<pb::Type>& lt, std::list<pb::Enum>& le, pb::RepeatedPtrField<pb::Type>& rt, pb::RepeatedPtrField<pb::Enum>& re) {
  if (c == kVector) return std::unique_ptr<gt::TypeHelper>(new gt::TypeHelper(ts, es));
  if (c == kList) {
    lt.assign(ts.begin(), ts.end());
    le.assign(es.begin(), es.end());
    return std::unique_ptr<gt::TypeHelper>(new gt::TypeHelper(lt, le));
  }
  for (auto& x : ts) *rt.Add() = x;
  for (auto& x : es) *re.Add() = x;
  return std::unique_ptr<gt::TypeHelper>(new gt::TypeHelper(rt, re));
}
// ts: types as (name, options) in order; es: enums.
void lists_case(T& t, const std::vector<std::pair<int, std::vector<int>>>& ts, const std::vector<int>& es) {
  for (int c = 0; c < 3; ++c) {
    if (!t.begin([&] {
          std::string o = "types";
          for (auto& x : ts) {
            o += " " + names()[x.first];
            for (int k : x.second) o += "(" + options()[k] + ")";
          }
          o += "; enums";
          for (int x : es) o += " " + names()[x];
          return o + (c == 0 ? " in vectors" : c == 1 ? " in lists" : " in repeated fields");
        }))
      continue;
    World w;
    std::vector<pb::Type> vt;
    std::vector<pb::Enum> ve;
    std::list<pb::Type> lt;
    std::list<pb::Enum> le;
    pb::RepeatedPtrField<pb::Type> rt;
    pb::RepeatedPtrField<pb::Enum> re;
    for (auto& x : ts) {
      vt.push_back(make(names()[x.first], x.second));
      w.types[kUrl + names()[x.first]] = make(names()[x.first], x.second, true);
    }
    for (int x : es) {
      ve.push_back(make_enum(names()[x]));
      w.enums[kUrl + names()[x]] = make_enum(names()[x]);
    }
    auto h = build(c, vt, ve, lt, le, rt, re);
    for (int how = 0; how < kHows; ++how)
      for (auto& u : urls()) ask(t, *h, w, u, how);
  }
}

// Maps by the old option name.
void maps_case(T& t, int opt, bool value, const std::vector<std::pair<std::string, std::string>>& entries) {
  if (!t.begin([&] {
        std::string o = "a map of entry type with option " + (opt < 0 ? "none" : options()[opt]) + (value ? " = true:" : " = false:");
        for (auto& e : entries) o += " " + e.first + ":" + e.second;
        return o;
      }))
    return;
  std::vector<pb::Type> ts;
  std::vector<pb::Enum> es;
  pb::Type m = ct::TypeOf(mctest::M::descriptor()), e;
  for (int i = 0; i < mctest::M::descriptor()->nested_type_count(); ++i) e = ct::TypeOf(mctest::M::descriptor()->nested_type(i));
  e.clear_options();
  if (opt >= 0) {
    pb::Option* o = e.add_options();
    o->set_name("proto2.MessageOptions.deprecated");
    *o->mutable_value() = boolean(false);
    o = e.add_options();
    o->set_name(options()[opt]);
    *o->mutable_value() = boolean(value);
  }
  ts = {m, e};
  gt::TypeHelper h(ts, es);
  bool is_map = value && opt >= 0 && (served(options()[opt]) == "google.protobuf.MessageOptions.map_entry" || options()[opt] == "map_entry");
  std::string json = "{", list = "[", wire;
  for (auto& x : entries) {
    std::string sep = json.size() > 1 ? "," : "";
    json += sep + "\"" + x.first + "\":\"" + x.second + "\"";
    list += sep + "{\"key\":\"" + x.first + "\",\"value\":\"" + x.second + "\"}";
    std::string in = std::string("\x0a") + (char)x.first.size() + x.first + "\x12" + (char)x.second.size() + x.second;
    wire += std::string("\x5a") + (char)in.size() + in;
  }
  json += "}";
  list += "]";
  std::string body = entries.empty() ? "{}" : "{\"mp\":" + (is_map ? json : list) + "}";
  ArrivingSource in;
  in.lenient = true;
  in.reset(body, {(uint32_t)body.size()});
  in.arrived = 1;
  in.ended = true;
  gt::RequestInfo info;
  info.message_type = h.Info()->GetTypeByTypeUrl("type.googleapis.com/mctest.M");
  info.body_field_path = "*";
  gt::JsonRequestTranslator rq(h.Resolver(), &in, info, false, false);
  std::string msg;
  bool ok = rq.Output().NextMessage(&msg);
  t.step();
  t.check(ok && rq.Output().Status().ok(), [&] { return "request " + body + ": " + rq.Output().Status().ToString(); });
  t.check(msg == wire, [&] { return "request " + body + " gives " + mc::q(msg) + ", expected " + mc::q(wire); });
  std::string frame = std::string("\0\0\0\0", 4) + (char)wire.size() + wire;
  ArrivingSource rin;
  rin.lenient = true;
  rin.reset(frame, {(uint32_t)frame.size()});
  rin.arrived = 1;
  rin.ended = true;
  gt::ResponseToJsonTranslator rs(h.Resolver(), "type.googleapis.com/mctest.M", false, &rin, gt::JsonResponseTranslateOptions());
  std::string text;
  ok = rs.NextMessage(&text);
  t.step();
  t.check(ok && text == body, [&] { return "response gives " + text + ", expected " + body; });
  t.state(mc::comb(mc::hash(wire), opt * 2 + value));
}

// Around a resolver of the caller's.
struct Counting : pu::TypeResolver {
  World w;
  int* dead;
  explicit Counting(int* d) : dead(d) {}
  ~Counting() override { ++*dead; }
  absl::Status ResolveMessageType(const std::string& u, pb::Type* o) override {
    auto i = w.types.find(u);
    if (i == w.types.end()) return absl::NotFoundError("no " + u);
    *o = i->second;
    return absl::OkStatus();
  }
  absl::Status ResolveEnumType(const std::string& u, pb::Enum* o) override {
    auto i = w.enums.find(u);
    if (i == w.enums.end()) return absl::NotFoundError("no " + u);
    *o = i->second;
    return absl::OkStatus();
  }
};

std::vector<mc::Space> spaces(const mc::Options& o) {
  bool th = o.thorough();
  std::vector<mc::Space> v;
  int nn = names().size(), no = options().size();
  int len = kSan ? 3 : th ? 6 : 4;
  v.push_back({"lists", "every sequence of at most " + num(len) + " of 6 types (each with none or one of 3 options, by position) and every set of at most 2 enums, in 3 kinds of container; asked for " + num(urls().size()) + " URLs in 7 ways", (uint64_t)(1 + nn + nn * (nn - 1) / 2), [=](T& t, uint64_t u) {
                 std::vector<int> es;
                 if (u > 0 && u <= (uint64_t)nn) es = {(int)u - 1};
                 uint64_t k = nn;
                 for (int a = 0; a < nn; ++a)
                   for (int b = a + 1; b < nn; ++b)
                     if (++k == u) es = {b, a};
                 std::vector<std::pair<int, std::vector<int>>> ts;
                 std::function<void()> go = [&] {
                   lists_case(t, ts, es);
                   if ((int)ts.size() == len) return;
                   for (int n = 0; n < nn; ++n) {
                     bool used = false;
                     for (auto& x : ts) used |= x.first == n;
                     if (used) continue;
                     int pos = ts.size();
                     std::vector<int> opts;
                     if ((n + pos) % 3) opts = {(n + pos) % 3 - 1};
                     ts.push_back({n, opts});
                     go();
                     ts.pop_back();
                   }
                 };
                 go();
               }});
  int lo = kSan ? 4 : th ? 6 : 5;
  v.push_back({"options", "every sequence of at most " + num(lo) + " of 8 option names on one type", (uint64_t)no * no + 1, [=](T& t, uint64_t u) {
                 std::vector<int> opts;
                 std::function<void()> go = [&] {
                   lists_case(t, {{0, opts}, {1, {}}}, {});
                   if ((int)opts.size() == lo) return;
                   for (int k = 0; k < no; ++k) {
                     opts.push_back(k);
                     go();
                     opts.pop_back();
                   }
                 };
                 if (u == (uint64_t)no * no) {
                   lists_case(t, {{0, {}}, {1, {}}}, {});
                   for (int k = 0; k < no; ++k) lists_case(t, {{0, {k}}, {1, {}}}, {});
                   return;
                 }
                 opts = {(int)(u / no), (int)(u % no)};
                 go();
               }});
  static const std::vector<std::string> some = {"type.googleapis.com/p.A", "type.googleapis.com/p.B", "type.googleapis.com/p.A.B", "p.A", "type.googleapis.com/A"};
  int calls = kSan ? 3 : th ? 5 : 4;
  int na = some.size() * kHows;
  v.push_back({"histories", "every sequence of at most " + num(calls) + " calls (7 ways, 5 URLs) on one helper built from two types and two enums, or around a resolver, which the helper owns", (uint64_t)na * 2, [=](T& t, uint64_t u) {
                 bool own = u & 1;
                 int first = u / 2;
                 std::vector<pb::Type> vt = {make("p.A", {0, 4}), make("p.A.B", {})};
                 std::vector<pb::Enum> ve = {make_enum("p.B"), make_enum("p.A.B")};
                 World w;
                 w.types[kUrl + vt[0].name()] = make("p.A", {0, 4}, !own);
                 w.types[kUrl + vt[1].name()] = vt[1];
                 for (auto& e : ve) w.enums[kUrl + e.name()] = e;
                 std::vector<int> seq = {first};
                 std::function<void()> go = [&] {
                   if (t.begin([&] {
                         std::string o = own ? "a resolver:" : "lists:";
                         for (int x : seq) o += " " + num(x % kHows) + "(" + some[x / kHows] + ")";
                         return o;
                       })) {
                     int dead = 0;
                     {
                       std::unique_ptr<gt::TypeHelper> h;
                       Counting* c = nullptr;
                       if (own) {
                         c = new Counting(&dead);
                         c->w = w;
                         h.reset(new gt::TypeHelper(c));
                         t.check(h->Resolver() == c, [] { return std::string("not the resolver given"); });
                       } else {
                         h.reset(new gt::TypeHelper(vt, ve));
                       }
                       for (int x : seq) ask(t, *h, w, some[x / kHows], x % kHows);
                       t.check(dead == 0, [] { return std::string("the resolver was destroyed early"); });
                     }
                     t.check(dead == own, [] { return std::string("the resolver was not destroyed once"); });
                   }
                   if ((int)seq.size() == calls) return;
                   for (int x = 0; x < na; ++x) {
                     seq.push_back(x);
                     go();
                     seq.pop_back();
                   }
                 };
                 go();
               }});
  int me = kSan ? 3 : 4;
  v.push_back({"maps", "map fields of entry types with each of 8 option names or none, true or false, with every sequence of at most " + num(me) + " entries of distinct keys of 4 and 3 values: requests and responses", (uint64_t)(no + 1) * 2, [=](T& t, uint64_t u) {
                 static const char* const keys[] = {"a", "", "bc", "key"};
                 static const char* const vals[] = {"x", "", "yz"};
                 std::vector<std::pair<std::string, std::string>> es;
                 std::function<void()> go = [&] {
                   maps_case(t, (int)(u / 2) - 1, u & 1, es);
                   if ((int)es.size() == me) return;
                   for (auto k : keys) {
                     bool used = false;
                     for (auto& e : es) used |= e.first == k;
                     if (used) continue;
                     for (auto x : vals) {
                       es.push_back({k, x});
                       go();
                       es.pop_back();
                     }
                   }
                 };
                 go();
               }});
  return v;
}
}  // namespace
int main(int c, char** v) { return mc::Main(c, v, spaces); }
