// C28: routing, field resolution, weaving, request translation and back, all together, as transcoder.h puts them.
#include <algorithm>
#include <map>
#include <memory>

#include "conv.h"
#include "ctypes.h"
#include "google/api/http.pb.h"
#include "google/protobuf/io/coded_stream.h"
#include "google/protobuf/io/zero_copy_stream_impl_lite.h"
#include "grpc_transcoding/json_request_translator.h"
#include "grpc_transcoding/path_matcher.h"
#include "grpc_transcoding/path_matcher_utility.h"
#include "grpc_transcoding/response_to_json_translator.h"
#include "mc.h"
#include "ref.h"
#include "source.h"

namespace gt = google::grpc::transcoding;
namespace pbio = google::protobuf::io;
using google::api::HttpRule;
using mc::T;

namespace {
#ifdef MC_SAN
const bool kSan = true;
#else
const bool kSan = false;
#endif
std::string num(size_t n) { return std::to_string(n); }
using Id = const int*;
const int kId[256] = {};
Id id_of(int i) { return kId + i; }

// ---- rules
struct Rule {
  std::string method, tmpl, body;
};
const std::vector<std::string>& templates() {
  static const std::vector<std::string> v = {"/v1",
                                             "/v2/{s}",
                                             "/v3/{i}/x",
                                             "/v4/{m.s=*/*}",
                                             "/v5/{s=a/**}:verb",
                                             "/v6/{r}/{r}",
                                             "/{m.m.s}/v7/{i}",
                                             "/v8/{n.s=**}",
                                             "/v9/{e}/{t}",
                                             "/v10/{fooBar}/{n.foo_bar}",
                                             "/v11/{m.s}/{m.i}/{m.r=**}",
                                             "/v12/{s}/{n.m.s}/{n.n.s}"};
  return v;
}
const std::vector<std::string>& body_rules() {
  static const std::vector<std::string> v = {"*", "", "m", "s", "r", "n", "m.m"};
  return v;
}
Rule rule_of(int t, int b) {
  Rule r;
  static const char* const m[] = {"POST", "PUT", "PATCH", "GET", "DELETE", "CUSTOM"};
  r.tmpl = templates()[t];
  r.body = body_rules()[b];
  r.method = r.body.empty() ? m[3 + t % 3] : m[t % 3];
  return r;
}
HttpRule proto_of(const Rule& r) {
  HttpRule h;
  if (r.method == "GET") h.set_get(r.tmpl);
  else if (r.method == "PUT") h.set_put(r.tmpl);
  else if (r.method == "POST") h.set_post(r.tmpl);
  else if (r.method == "DELETE") h.set_delete_(r.tmpl);
  else if (r.method == "PATCH") h.set_patch(r.tmpl);
  else h.mutable_custom()->set_kind(r.method), h.mutable_custom()->set_path(r.tmpl);
  h.set_body(r.body);
  return h;
}
// ---- bodies: JSON, and the singular scalar fields it sets
struct Body {
  const char* json;
  std::vector<std::string> sets;
};
const std::vector<Body>& bodies(const std::string& rule) {
  static const std::vector<Body> none = {{"", {}}};
  static const std::vector<Body> m = {{"", {}},
                                      {"{}", {}},
                                      {"{\"s\":\"b\"}", {"s"}},
                                      {"{\"i\":7}", {"i"}},
                                      {"{\"i\":7, \"t\" : true,\"e\":\"ONE\"}", {"i", "t", "e"}},
                                      {"{\"m\":{\"s\":\"c\",\"i\":5}}", {"m.s", "m.i"}},
                                      {"{\"r\":[\"x\",\"y\"],\"m\":{\"r\":[]}}", {}},
                                      {"{\"m\":{},\"n\":{\"m\":{}}}", {}},
                                      {"{\"fooBar\":\"f\",\"n\":{\"s\":\"ns\",\"fooBar\":3}}", {"foo_bar", "n.s", "n.foo_bar"}},
                                      {"{\"s\":\"\",\"m\":{\"m\":{\"s\":\"d\"}},\"r\":[\"z\"]}", {"s", "m.m.s"}},
                                      {"{\"s\":null,\"i\":null}", {}},
                                      {"{\"rm\":[{\"s\":\"in\"},{}],\"mp\":{\"s\":\"k\",\"i\":\"l\"}}", {}},
                                      {"{\"i\":\"x\"}", {"i"}},
                                      {"{\"s\":", {}}};
  static const std::vector<Body> s = {{"\"b\"", {""}}, {"\"\"", {""}}, {"null", {}}, {"", {}}, {"\"\\u00e9\"", {""}}};
  static const std::vector<Body> r = {{"[\"x\",\"y\"]", {}}, {"[]", {}}, {"[{}]", {}}};
  static const std::vector<Body> n = {{"{}", {}}, {"{\"s\":\"b\"}", {"s"}}, {"{\"m\":{\"s\":\"q\"},\"n\":{}}", {"m.s"}}, {"{\"foo_bar\":4,\"n\":{\"s\":\"w\"}}", {"foo_bar", "n.s"}}};
  return rule == "" ? none : rule == "s" ? s : rule == "r" ? r : rule == "n" ? n : m;
}
// ---- paths: values for the variables
std::vector<std::string> paths_of(const std::string& tmpl) {
  static const std::vector<std::string> one = {"a", "7", "b%20c%2Fd", "ONE", "true", "%C3%A9", "07", "b"}, many = {"", "a", "a/b", "x%2Fy/z%20", "7/7/7"};
  std::vector<std::string> out = {""};
  size_t i = 0;
  while (i < tmpl.size()) {
    std::vector<std::string> vals;
    if (tmpl[i] == '{') {
      size_t e = tmpl.find('}', i);
      std::string v = tmpl.substr(i + 1, e - i - 1);
      size_t q = v.find('=');
      std::string pat = q == std::string::npos ? "*" : v.substr(q + 1);
      if (pat == "*") vals = one;
      else if (pat == "**") vals = many;
      else if (pat == "*/*") vals = {"a/b", "7/b%20c%2Fd", "%2525/%2F"};
      else if (pat == "a/**") vals = {"a", "a/b", "a/%2F/c"};
      else abort();
      i = e + 1;
    } else {
      vals = {std::string(1, tmpl[i++])};
    }
    std::vector<std::string> next;
    for (auto& o : out)
      for (auto& v : vals) next.push_back(o + v);
    out = next;
  }
  return out;
}
const std::vector<std::string>& params() {
  static const std::vector<std::string> v = {"s=q", "s=b", "i=3", "i=7", "m.s=z%20%26", "r=1&r=2", "key=abc", "$alt=json&s=q", "e=TWO_WORDS", "t=true", "foo_bar=x", "fooBar=y", "foo%5Fbar=z", "n.foo_bar=5", "n.m.m.s=deep", "m.r=%3D", "s=", "r=",
                                             "nosuch=1", "m.nosuch=1", "s.x=1", "i=x", "m=1", "noequals", "=x", "mp=1"};
  return v;
}
// ---- the reference
const google::protobuf::FieldDescriptor* named(const google::protobuf::Descriptor* d, const std::string& n) {
  for (const std::string& x : {n, ref::decode(n, ref::kAll, false)})
    for (int i = 0; i < d->field_count(); ++i)
      if (d->field(i)->name() == x || d->field(i)->json_name() == x) return d->field(i);
  return nullptr;
}
// The proto names of the path; false if it names no field.
bool resolve(const std::vector<std::string>& path, std::vector<const google::protobuf::FieldDescriptor*>* out) {
  const google::protobuf::Descriptor* d = mctest::M::descriptor();
  for (size_t i = 0; i < path.size(); ++i) {
    const google::protobuf::FieldDescriptor* f = named(d, path[i]);
    if (!f) return false;
    out->push_back(f);
    if (i + 1 < path.size()) {
      d = f->message_type();
      if (!d) return false;
    }
  }
  return true;
}
std::string dotted(const std::vector<const google::protobuf::FieldDescriptor*>& v) {
  std::string o;
  for (auto* f : v) o += (o.empty() ? "" : ".") + f->name();
  return o;
}
std::string nest(const std::string& path, const std::string& json) {
  std::string head, tail;
  if (path.empty()) return json;
  for (auto& n : ref::split(path, '.')) head += "{\"" + n + "\":", tail += "}";
  return head + json + tail;
}
std::string quote(const std::string& s) {
  std::string o = "\"";
  for (char c : s) {
    if (c == '"' || c == '\\') o += '\\';
    o += c;
  }
  return o + "\"";
}
bool one_shot(const std::string& json, std::string* bin) {
  static std::map<std::string, std::pair<bool, std::string>> memo;
  if (memo.size() > 50000) memo.clear();
  auto it = memo.find(json);
  if (it == memo.end()) {
    std::string b;
    bool ok = ct::JsonToMessage("mctest.M", json, &b);
    it = memo.emplace(json, std::make_pair(ok, b)).first;
  }
  *bin = it->second.second;
  return it->second.first;
}
std::string canonical(const std::string& bin) {
  mctest::M m;
  if (!m.ParseFromString(bin)) return "(not a message)";
  std::string o;
  {
    pbio::StringOutputStream s(&o);
    pbio::CodedOutputStream c(&s);
    c.SetSerializationDeterministic(true);
    m.SerializeToCodedStream(&c);
  }
  return o;
}
struct Want {
  bool resolves = true, ok = true;
  std::string message;  // canonical
};
Want expect(const std::vector<ref::Binding>& bs, const std::string& rule_body, const Body& body, bool reject, bool use_bindings) {
  Want w;
  std::vector<std::vector<const google::protobuf::FieldDescriptor*>> fs;
  for (auto& b : bs) {
    fs.emplace_back();
    if (!resolve(b.path, &fs.back())) w.resolves = w.ok = false;
  }
  if (!w.resolves) return w;
  std::string at = rule_body == "*" ? "" : rule_body;
  std::string bin;
  if (!one_shot(nest(at, *body.json ? body.json : "{}"), &bin)) {
    w.ok = false;
    return w;
  }
  std::string body_bin = bin;
  for (size_t k = 0; use_bindings && k < bs.size(); ++k) {
    std::string p = dotted(fs[k]);
    bool set = false;
    for (auto& s : body.sets) {
      std::string q = at.empty() ? s : s.empty() ? at : at + "." + s;
      if (q == p) set = true;
    }
    std::string b;
    bool good = one_shot(nest(p, quote(bs[k].value)), &b);
    if (set && !fs[k].back()->is_repeated()) {
      if (reject) {  // equal values of that field?
        mctest::M x, y;
        x.ParseFromString(body_bin);
        if (!good || !y.ParseFromString(b)) {
          w.ok = false;
          continue;
        }
        const google::protobuf::Message *mx = &x, *my = &y;
        for (size_t i = 0; i + 1 < fs[k].size(); ++i) {
          mx = &mx->GetReflection()->GetMessage(*mx, fs[k][i]);
          my = &my->GetReflection()->GetMessage(*my, fs[k][i]);
        }
        auto* f = fs[k].back();
        auto text = [&](const google::protobuf::Message* m) -> std::string {
          auto* r = m->GetReflection();
          switch (f->cpp_type()) {
            case google::protobuf::FieldDescriptor::CPPTYPE_STRING: return r->GetString(*m, f);
            case google::protobuf::FieldDescriptor::CPPTYPE_INT32: return std::to_string(r->GetInt32(*m, f));
            case google::protobuf::FieldDescriptor::CPPTYPE_BOOL: return std::to_string(r->GetBool(*m, f));
            case google::protobuf::FieldDescriptor::CPPTYPE_ENUM: return std::to_string(r->GetEnumValue(*m, f));
            default: abort();
          }
        };
        if (text(mx) != text(my)) w.ok = false;
      }
      continue;
    }
    if (!good) w.ok = false;
    bin += b;
  }
  w.message = canonical(bin);
  return w;
}

// ---- the real pipeline
struct World {
  std::vector<Rule> rules;
  gt::PathMatcherPtr<Id> pm;
  ref::Matcher ref;
};
const std::set<std::string> kSys = {"key", "$alt"};
std::shared_ptr<World> build(const std::vector<Rule>& rules) {
  auto w = std::make_shared<World>();
  w->rules = rules;
  gt::PathMatcherBuilder<Id> b;
  for (size_t i = 0; i < rules.size(); ++i) {
    if (!gt::PathMatcherUtility::RegisterByHttpRule(b, proto_of(rules[i]), std::unordered_set<std::string>(kSys.begin(), kSys.end()), id_of(i))) abort();
    ref::Reg r;
    r.http_method = rules[i].method;
    r.tmpl = rules[i].tmpl;
    r.body = rules[i].body;
    r.sys = kSys;
    r.id = i;
    w->ref.add(r);
  }
  w->pm = b.Build();
  return w;
}
struct How {
  bool bytes = false;   // the body arrives byte by byte
  bool reject = false;
  int stream = 0;       // elements of a streaming request (0: unary)
};
void pipe_case(T& t, World& w, const std::string& method, const std::string& path, const std::string& query, const std::vector<const Body*>& bs, const How& h, const std::string& what) {
  if (!t.begin([&] {
        std::string o = what + "; " + method + " " + path + (query.empty() ? "" : "?" + query) + "; " + (h.stream ? "streaming, " : "") + "body";
        for (auto* b : bs) o += std::string(" ") + mc::q(b->json);
        return o + (h.bytes ? ", byte by byte" : "") + (h.reject ? ", collisions rejected" : "");
      }))
    return;
  // the reference
  std::vector<ref::Binding> eb;
  std::string ebody;
  int eid = w.ref.lookup(method, path, query, &eb, &ebody);
  // routing
  std::vector<gt::VariableBinding> gb;
  std::string gbody;
  Id r = w.pm->Lookup(method, path, query, &gb, &gbody);
  t.step();
  int gid = r ? (int)(r - kId) : -1;
  t.check(gid == eid, [&] { return "found binding " + std::to_string(gid) + ", expected " + std::to_string(eid); });
  if (gid < 0) {
    t.state(1);
    return;
  }
  std::vector<Want> want;
  for (size_t i = 0; i < bs.size(); ++i) want.push_back(expect(eb, ebody, *bs[i], h.reject, i == 0));
  // field resolution
  gt::RequestInfo info;
  info.message_type = ct::world().type("mctest.M");
  info.body_field_path = gbody;
  info.reject_binding_body_field_collisions = h.reject;
  bool resolves = true;
  for (auto& b : gb) {
    gt::RequestWeaver::BindingInfo bi;
    absl::Status s = ct::world().helper->ResolveFieldPath(*info.message_type, b.field_path, &bi.field_path);
    t.step();
    if (!s.ok()) resolves = false;
    bi.value = b.value;
    info.variable_bindings.push_back(bi);
  }
  bool eres = want.empty() ? true : want[0].resolves;
  t.check(resolves == eres, [&] { return std::string(resolves ? "all field paths were resolved" : "a field path was not resolved") + ", expected otherwise"; });
  if (!resolves) {
    t.state(2);
    return;
  }
  // translation
  std::string text;
  if (h.stream) {
    text = "[";
    for (size_t i = 0; i < bs.size(); ++i) text += (i ? "," : "") + std::string(bs[i]->json);
    text += "]";
  } else {
    text = bs[0]->json;
  }
  ArrivingSource in;
  in.lenient = true;
  std::vector<uint32_t> cuts;
  if (h.bytes)
    for (size_t i = 1; i < text.size(); ++i) cuts.push_back(i);
  if (!text.empty()) cuts.push_back(text.size());
  in.reset(text, cuts);
  in.arrived = cuts.size();
  in.ended = true;
  gt::JsonRequestTranslator tr(ct::world().helper->Resolver(), &in, info, h.stream, true);
  auto frames = tr.Output().CreateInputStream();
  bool all_ok = true;
  size_t good = 0;
  for (auto& x : want) {
    if (all_ok && x.ok) ++good;
    else all_ok = false;
  }
  // What comes out of the translator, as a gRPC server would see it, copied on the way to the response translator.
  std::string wire;
  const void* d;
  int n;
  int polls = 0;
  while (frames->Next(&d, &n)) {
    t.step();
    if (n == 0 && ++polls > 3) break;
    wire.append((const char*)d, n);
  }
  t.check(tr.Output().Status().code() == (all_ok ? absl::StatusCode::kOk : absl::StatusCode::kInvalidArgument), [&] { return "translation: " + tr.Output().Status().ToString() + ", expected " + (all_ok ? "OK" : "an error"); });
  std::vector<std::string> got;
  for (size_t at = 0; at < wire.size();) {
    t.check(at + 5 <= wire.size() && wire[at] == 0, [] { return std::string("the output is no sequence of frames"); });
    size_t len = 0;
    for (int i = 1; i < 5; ++i) len = len << 8 | (unsigned char)wire[at + i];
    t.check(at + 5 + len <= wire.size(), [] { return std::string("the output ends within a frame"); });
    got.push_back(wire.substr(at + 5, len));
    at += 5 + len;
  }
  t.check(all_ok ? got.size() == good : got.size() <= good, [&] { return num(got.size()) + " messages, expected " + num(good); });
  for (size_t i = 0; i < got.size(); ++i) {
    std::string c = canonical(got[i]);
    t.check(c == want[i].message, [&] {
      mctest::M a, b;
      a.ParseFromString(c);
      b.ParseFromString(want[i].message);
      return "message " + num(i) + " is {" + a.ShortDebugString() + "}, expected {" + b.ShortDebugString() + "}";
    });
    t.state(mc::hash(c));
  }
  if (!all_ok || got.empty()) {
    t.state(3);
    return;
  }
  // and back
  ArrivingSource back;
  back.reset(wire, {(uint32_t)wire.size()});
  back.arrived = 1;
  back.ended = true;
  gt::ResponseToJsonTranslator rt(ct::world().helper->Resolver(), ct::Url("mctest.M"), h.stream, &back);
  std::string json, part;
  int k = 0;
  while (rt.NextMessage(&part)) {
    json += part;
    t.check(++k < 100, [] { return std::string("endless response"); });
  }
  t.check(rt.Status().ok() && rt.Finished(), [&] { return "the response: " + rt.Status().ToString(); });
  if (!h.stream) {
    std::string bin;
    bool ok = one_shot(json, &bin);
    t.check(ok && canonical(bin) == want[0].message, [&] { return "as a response the message is " + json; });
  } else {
    std::string bin, all;
    bool ok = one_shot("{\"rm\":" + json + "}", &bin);
    mctest::M x;
    for (auto& y : want) x.add_rm()->ParseFromString(y.message);
    t.check(ok && canonical(bin) == canonical(x.SerializeAsString()), [&] { return "as a response the messages are " + json; });
  }
}

std::vector<mc::Space> spaces(const mc::Options& o) {
  bool th = o.thorough();
  std::vector<mc::Space> v;
  uint64_t nt = templates().size(), nb = body_rules().size(), np = params().size();
  std::vector<std::string> qs = {""};
  for (auto& a : params()) qs.push_back(a);
  size_t single = qs.size();
  for (auto& a : params())
    for (auto& b : params()) qs.push_back(a + "&" + b);
  size_t pairs = qs.size();
  if (th)
    for (auto& a : params())
      for (auto& b : params())
        for (auto& c : params())
          if (a < b && b < c) qs.push_back(a + "&" + b + "&" + c);
  auto q = std::make_shared<std::vector<std::string>>(qs);
  auto alls = [] {
    std::vector<Rule> all;
    for (int t = 0; t < (int)templates().size(); ++t) {
      for (int b = 0; b < (int)body_rules().size(); ++b) {
        if (b != t % 7) continue;
        all.push_back(rule_of(t, b));
      }
    }
    all.push_back({"*", "/**", "*"});
    return all;
  };
  // 1. every path value
  v.push_back({"paths", num(nt) + " templates x " + num(nb) + " body rules, every combination of values of their variables, bodies, and up to " + (kSan || !th ? "one" : "two") + " query parameters", nt * nb, [=](T& t, uint64_t u) {
                 Rule r = rule_of(u / nb, u % nb);
                 auto w = build({r});
                 std::string what = r.method + " " + r.tmpl + " body " + mc::q(r.body);
                 auto ps = paths_of(r.tmpl);
                 size_t stride = kSan ? 5 : 1, k = 0;
                 for (auto& p : ps) {
                   bool full = ps.size() < 100;
                   for (auto& b : bodies(r.body))
                     for (size_t i = 0; i < (th && full ? pairs : single); ++i) {
                       if (++k % stride) continue;
                       if (!full && !th && i > 3 && (i + k) % 3) continue;
                       How h;
                       h.bytes = k % 3 == 0;
                       h.reject = k % 2;
                       pipe_case(t, *w, r.method, p, (*q)[i], {&b}, h, what);
                     }
                 }
               }});
  // 2. every pair of query parameters
  v.push_back({"queries", "the same rules, every body, every ordered pair" + std::string(th ? " (and set of three)" : "") + " of " + num(np) + " query parameters (among them system parameters, repeated and unknown fields, bad values), a few paths", nt * nb, [=](T& t, uint64_t u) {
                 Rule r = rule_of(u / nb, u % nb);
                 auto w = build({r});
                 std::string what = r.method + " " + r.tmpl + " body " + mc::q(r.body);
                 auto ps = paths_of(r.tmpl);
                 size_t k = 0;
                 for (size_t pi = 0; pi < ps.size(); pi += std::max<size_t>(1, ps.size() / 2))
                   for (auto& b : bodies(r.body))
                     for (size_t i = single; i < q->size(); ++i) {
                       ++k;
                       if (kSan && k % 11) continue;
                       if (i >= pairs && (pi || k % 2)) continue;
                       How h;
                       h.bytes = k % 5 == 0;
                       for (int rej = 0; rej < (kSan ? 1 : 2); ++rej) {
                         h.reject = kSan ? k % 2 : rej;
                         pipe_case(t, *w, r.method, ps[pi], (*q)[i], {&b}, h, what);
                       }
                     }
               }});
  // 3. all rules together, and streams
  v.push_back({"together", "one binding per template in one matcher, with a catch-all for any method; requests of every template's paths with every method; unary, and streams of up to two elements", nt * 7ull, [=](T& t, uint64_t u) {
                 static std::shared_ptr<World> w;
                 if (!w) w = build(alls());
                 static const char* const ms[] = {"POST", "PUT", "PATCH", "GET", "DELETE", "CUSTOM", "X"};
                 std::string m = ms[u % 7];
                 auto ps = paths_of(templates()[u / 7]);
                 size_t k = 0;
                 for (size_t pi = 0; pi < ps.size(); pi += ps.size() > 100 && !th ? 7 : 1) {
                   std::vector<ref::Binding> eb;
                   std::string body;
                   if (w->ref.lookup(m, ps[pi], "", &eb, &body) < 0) body = "*";
                   const auto& bb = bodies(body);
                   for (const char* query : {"", "s=q", "r=1&r=2", "m.s=z", "i=7", "nosuch=1"})
                     for (auto& b : bb) {
                       How h;
                       ++k;
                       h.bytes = k % 2;
                       h.reject = k % 3 == 0;
                       if (kSan && k % 7) continue;
                       pipe_case(t, *w, m, ps[pi], query, {&b}, h, "all rules");
                       if (!*b.json || body.empty()) continue;
                       h.stream = 1;
                       pipe_case(t, *w, m, ps[pi], query, {&b}, h, "all rules");
                       h.stream = 2;
                       for (auto& c : bb)
                         if (*c.json) pipe_case(t, *w, m, ps[pi], query, {&b, &c}, h, "all rules");
                     }
                 }
               }});
  return v;
}
}  // namespace
int main(int c, char** v) { return mc::Main(c, v, spaces); }
