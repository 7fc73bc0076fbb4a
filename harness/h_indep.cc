// C36: objects that have nothing to do with one another: their histories interleaved in one thread, step by step, in
// every way; and in two threads, under every schedule within a preemption bound.  Oracle: each history on its own, in a
// process of its own.
#include <map>
#include <memory>
#include <string>

#include "conv.h"
#include "ctypes.h"
#include "google/api/http.pb.h"
#include "grpc_transcoding/http_template.h"
#include "grpc_transcoding/json_request_translator.h"
#include "grpc_transcoding/message_reader.h"
#include "grpc_transcoding/path_matcher.h"
#include "grpc_transcoding/path_matcher_node.h"
#include "grpc_transcoding/path_matcher_utility.h"
#include "grpc_transcoding/percent_encoding.h"
#include "grpc_transcoding/prefix_writer.h"
#include "grpc_transcoding/response_to_json_translator.h"
#include "mc.h"
#ifdef MC_SCHED
#include "sched_mc.h"
#endif
#include "source.h"

namespace gt = google::grpc::transcoding;
namespace pb = google::protobuf;
using mc::T;
#ifdef MC_SAN
const bool kSan = true;
#else
const bool kSan = false;
#endif
using std::string;

namespace {
string num(uint64_t n) { return std::to_string(n); }
// A history: steps on objects made by the first ones and destroyed by the last; what they see is appended to the text.
using Steps = std::vector<std::function<void(string&)>>;

string read_all(pb::io::ZeroCopyInputStream* s, size_t most = ~0u) {
  string o;
  const void* d;
  int n;
  while (o.size() < most && s->Next(&d, &n) && n > 0) o.append((const char*)d, n);
  return o;
}
string show(gt::HttpTemplate* t) {
  if (!t) return "invalid; ";
  string o;
  for (auto& s : t->segments()) o += "/" + s;
  o += ":" + t->verb();
  for (auto& v : t->Variables()) {
    o += " " + num(v.start_segment) + ".." + std::to_string(v.end_segment) + (v.has_wildcard_path ? "**" : "");
    for (auto& f : v.field_path) o += "." + f;
  }
  return o + "; ";
}
using M = const int*;
const int kIds[4] = {1, 2, 3, 4};
string ask(const gt::PathMatcher<M>& m, const string& method, const string& path, const string& query) {
  std::vector<gt::VariableBinding> bs;
  string body = "-";
  M r = m.Lookup(method, path, query, &bs, &body);
  if (!r) return "none; ";
  string o = num(*r) + " " + body;
  for (auto& b : bs) {
    for (auto& f : b.field_path) o += "." + f;
    o += "=" + b.value;
  }
  return o + (m.Lookup(method, path) == r ? "; " : " but not in the short form; ");
}
string frame(const string& m, char flag = 0) { return string(1, flag) + string("\0\0\0", 3) + (char)m.size() + m; }

struct Input {
  ArrivingSource in;
  Input(const string& b, size_t step) {
    in.lenient = true;
    std::vector<uint32_t> cuts;
    for (size_t p = 0; p < b.size();) cuts.push_back(p = std::min(p + step, b.size()));
    in.reset(b, cuts);
  }
  void more(size_t n) {
    in.arrived = std::min(in.arrived + n, in.cuts.size());
    in.zero = 0;
  }
  void end() {
    more(1000);
    in.ended = true;
  }
};
string drain(gt::MessageStream& s) {
  string o, m;
  for (int i = 0; i < 8 && s.NextMessage(&m); ++i) o += mc::q(m) + " ";
  return o + (s.Finished() ? "finished " : "open ") + s.Status().ToString() + "; ";
}
struct Listed : gt::MessageStream {
  std::vector<string> ms;
  size_t at = 0, there = 0;
  bool ended = false;
  bool NextMessage(string* m) override {
    if (at == there) return false;
    *m = ms[at++];
    return true;
  }
  bool Finished() const override { return ended && at == ms.size(); }
  absl::Status Status() const override { return absl::OkStatus(); }
};

const char* const kNames[] = {"templates", "builder", "matcher with verbs", "rules", "decoding", "node", "reader", "bad reader", "byte view", "field paths", "prefix writer", "weaver", "unary request", "streaming request", "bad request", "response array", "response lines", "bad response"};
const int kN = sizeof kNames / sizeof kNames[0];

// The second kind of helper has other types by the same names.
const std::pair<std::vector<pb::Type>, std::vector<pb::Enum>>& other() {
  static const std::pair<std::vector<pb::Type>, std::vector<pb::Enum>> o = [] {
    auto r = std::make_pair(ct::world().types, ct::world().enums);
    for (auto& t : r.first)
      for (auto& f : *t.mutable_fields()) {
        if (f.name() == "s" || f.name() == "u") f.set_number(f.number() + 100);
        if (f.name() == "foo_bar") f.set_json_name("fooBaz");
      }
    for (auto& e : r.second)
      for (auto& x : *e.mutable_enumvalue()) x.set_name("X" + x.name());
    return r;
  }();
  return o;
}
std::shared_ptr<gt::TypeHelper> helper(int v) {
  return v ? std::make_shared<gt::TypeHelper>(ct::world().types, ct::world().enums) : std::make_shared<gt::TypeHelper>(other().first, other().second);
}
gt::RequestInfo info(gt::TypeHelper& h, const string& body, const std::vector<std::pair<string, string>>& bs, string& out) {
  gt::RequestInfo i{};
  i.message_type = h.Info()->GetTypeByTypeUrl(ct::Url("mctest.M"));
  i.body_field_path = body;
  for (auto& b : bs) {
    gt::RequestWeaver::BindingInfo x;
    if (!h.ResolveFieldPath(*i.message_type, b.first, &x.field_path).ok()) out += "no field " + b.first + "; ";
    x.value = b.second;
    i.variable_bindings.push_back(x);
  }
  return i;
}
// v: the data, so that two histories of a kind differ in what they should see.
Steps make(int kind, int v) {
  Steps s;
  const string x = v ? "longer_name" : "a", y = v ? "q" : "other_word";
  switch (kind) {
    case 0: {
      struct S { std::unique_ptr<gt::HttpTemplate> a, b; };
      auto st = std::make_shared<S>();
      s.push_back([=](string&) { st->a = gt::HttpTemplate::Parse(v ? "/{x.y=a/*/**}/b:v" : "/{p}/{q.r.s=*}/**"); });
      s.push_back([=](string& o) { o += show(gt::HttpTemplate::Parse(v ? "/a/{b" : "/**/*").get()); });
      s.push_back([=](string&) { st->b = gt::HttpTemplate::Parse("/" + x + "/{" + y + "=**}:" + x); });
      s.push_back([=](string& o) { o += show(st->a.get()); });
      s.push_back([=](string& o) { st->a.reset(), o += show(st->b.get()), st->b.reset(); });
      break;
    }
    case 1: {
      struct S { gt::PathMatcherBuilder<M> b; gt::PathMatcherPtr<M> m; };
      auto st = std::make_shared<std::unique_ptr<S>>(new S);
      s.push_back([=](string& o) { (*st)->b.SetFailRegistrationOnDuplicate(v), o += num((*st)->b.Register("GET", "/{" + x + "}/" + y, x, {y}, &kIds[v])); });
      s.push_back([=](string& o) { o += num((*st)->b.Register("GET", "/*/" + y, "", &kIds[2])) + num((*st)->b.Register("PUT", "/{" + y + ".z=**}", y, &kIds[3])); });
      s.push_back([=](string&) { (*st)->b.SetUrlUnescapeSpec(v ? gt::UrlUnescapeSpec::kAllCharacters : gt::UrlUnescapeSpec::kAllCharactersExceptSlash), (*st)->b.SetQueryParamUnescapePlus(v), (*st)->m = (*st)->b.Build(); });
      s.push_back([=](string& o) { o += ask(*(*st)->m, "PUT", "/%2F/" + x, "k=1+" + x + "&" + y + "=2"); });
      s.push_back([=](string& o) { o += ask(*(*st)->m, "GET", "/" + x + "%20/" + y, "k=+&" + y + "=2"), st->reset(); });
      break;
    }
    case 2: {
      auto st = std::make_shared<gt::PathMatcherPtr<M>>();
      s.push_back([=](string& o) {
        gt::PathMatcherBuilder<M> b;
        b.SetMatchUnregisteredCustomVerb(v);
        o += num(b.Register("POST", "/" + x + "/{n=**}:" + y, "*", &kIds[v])) + num(b.Register("*", "/" + x + "/{n=*/*}", "b", &kIds[2]));
        *st = b.Build();
      });
      s.push_back([=](string& o) { o += ask(**st, "POST", "/" + x + "/1/2:" + y, "n.m=" + x); });
      s.push_back([=](string& o) { o += ask(**st, "GET", "/" + x + "/1/2:" + x, ""); });
      s.push_back([=](string& o) { o += ask(**st, "GET", "/" + y, "p=1"); });
      s.push_back([=](string& o) { o += ask(**st, "POST", "/" + x + "/1/2", "p=" + x), st->reset(); });
      break;
    }
    case 3: {
      struct S { gt::PathMatcherBuilder<M> b; gt::PathMatcherPtr<M> m; };
      auto st = std::make_shared<std::unique_ptr<S>>(new S);
      s.push_back([=](string& o) {
        google::api::HttpRule r;
        r.set_get("/" + x + "/{" + y + "}");
        auto* a = r.add_additional_bindings();
        a->set_post("/" + x);
        a->set_body("*");
        o += num(gt::PathMatcherUtility::RegisterByHttpRule((*st)->b, r, &kIds[v]));
      });
      s.push_back([=](string& o) {
        google::api::HttpRule r;
        r.mutable_custom()->set_kind("X" + y);
        r.mutable_custom()->set_path("/" + y);
        r.add_additional_bindings()->set_put("/" + y + "/{" + x + "=**}");
        r.add_additional_bindings()->set_put("bad");
        o += num(gt::PathMatcherUtility::RegisterByHttpRule((*st)->b, r, {"key", x}, &kIds[2]));
      });
      s.push_back([=](string&) { (*st)->m = (*st)->b.Build(); });
      s.push_back([=](string& o) { o += ask(*(*st)->m, "GET", "/" + x + "/1", x + "=1") + ask(*(*st)->m, "POST", "/" + x, ""); });
      s.push_back([=](string& o) { o += ask(*(*st)->m, "PUT", "/" + y + "/1/2", x + "=1&o=2") + ask(*(*st)->m, "X" + y, "/" + y, ""), st->reset(); });
      break;
    }
    case 4:
      for (int k = 0; k < 4; ++k)
        s.push_back([=](string& o) {
          string t = "%41" + x + "%2f%2" + y + "+%20%3A%" + num(k) + "0";
          o += mc::q(gt::UrlUnescapeString(t, (gt::UrlUnescapeSpec)(k % 3), k & 1)) + num(gt::IsUrlEscapedString(t)) + num(gt::IsUrlEscapedString(x)) + "; ";
        });
      break;
    case 5: {
      struct S { std::unique_ptr<gt::PathMatcherNode> a, b; };
      auto st = std::make_shared<S>();
      auto path = [=](bool one, const string& e) {
        gt::PathMatcherNode::PathInfo::Builder b;
        b.AppendLiteralNode(x);
        if (one) b.AppendSingleParameterNode();
        else b.AppendLiteralNode(y);
        if (!e.empty()) b.AppendLiteralNode(e);
        return b.Build();
      };
      auto look = [](gt::PathMatcherNode& n, std::vector<string> parts, const char* m) {
        gt::PathMatcherLookupResult r;
        n.LookupPath(parts.begin(), parts.end(), m, &r);
        return (r.data ? num((int*)r.data - kIds) : string("none")) + (r.is_multiple ? "m; " : "; ");
      };
      s.push_back([=](string& o) { st->a.reset(new gt::PathMatcherNode), o += num(st->a->InsertPath(path(true, ""), "GET", (void*)&kIds[v], true)); });
      s.push_back([=](string& o) { st->b = st->a->Clone(), o += num(st->a->InsertPath(path(false, "**"), "*", (void*)&kIds[2], true)); });
      s.push_back([=](string& o) { o += num(st->b->InsertPath(path(true, ""), "GET", (void*)&kIds[3], v)) + look(*st->b, {x, y}, "GET"); });
      s.push_back([=](string& o) { o += look(*st->a, {x, y}, "GET") + look(*st->a, {x, y, y}, "PUT"), st->a.reset(); });
      s.push_back([=](string& o) { o += look(*st->b, {x, y, y}, "PUT") + look(*st->b, {x, x}, "GET"), st->b.reset(); });
      break;
    }
    case 6:
    case 7: {
      struct S { std::unique_ptr<Input> in; std::unique_ptr<gt::MessageReader> r; std::unique_ptr<pb::io::ZeroCopyInputStream> m; };
      auto st = std::make_shared<S>();
      auto next = [=](string& o) {
        auto g = st->r->NextMessageAndGrpcFrame();
        if (g.message) o += num(g.message_size) + mc::q(string((char*)g.grpc_frame, 5));
        st->m = std::move(g.message);
        o += st->m ? "message" : "none";
        o += st->r->Finished() ? " finished " : " ";
        o += st->r->Status().ToString() + "; ";
      };
      string bytes = frame(x + x) + (kind == 7 ? (v ? frame(y, 2) : frame(y).substr(0, 3)) : frame("") + frame(y));
      s.push_back([=](string& o) { st->in.reset(new Input(bytes, v ? 3 : 4)), st->r.reset(new gt::MessageReader(&st->in->in)), st->in->more(1), next(o); });
      s.push_back([=](string& o) { st->in->more(6), next(o); });
      s.push_back([=](string& o) {
        if (st->m) o += mc::q(read_all(st->m.get(), 1)) + mc::q(read_all(st->m.get()));
        st->m.reset();
        next(o);
      });
      s.push_back([=](string& o) {
        if (st->m) o += mc::q(read_all(st->m.get()));
        st->m.reset();
        st->in->end();
        next(o);
      });
      s.push_back([=](string& o) {
        if (st->m) o += mc::q(read_all(st->m.get()));
        st->m.reset();
        next(o);
        st->m.reset(), st->r.reset(), st->in.reset();
      });
      break;
    }
    case 8: {
      struct S { Listed l; std::unique_ptr<gt::TranscoderInputStream> i; };
      auto st = std::make_shared<std::unique_ptr<S>>(new S);
      auto next = [=](size_t back) {
        const void* d;
        int n = 0;
        bool ok = (*st)->i->Next(&d, &n);
        string o = num(ok) + (n ? mc::q(string((const char*)d, n)) : string());
        if (n > (int)back && back) (*st)->i->BackUp(back);
        return o + num((*st)->i->BytesAvailable()) + ((*st)->i->Finished() ? " finished; " : "; ");
      };
      s.push_back([=](string& o) { (*st)->l.ms = {x, "", y, x + y}, (*st)->i = (*st)->l.CreateInputStream(), o += next(0); });
      s.push_back([=](string& o) { (*st)->l.there = 1, o += next(v); });
      s.push_back([=](string& o) { (*st)->l.there = 4, o += next(0); });
      s.push_back([=](string& o) { (*st)->l.ended = true, o += next(2); });
      s.push_back([=](string& o) { o += next(0) + next(0) + next(0), st->reset(); });
      break;
    }
    case 9: {
      auto h = std::make_shared<std::shared_ptr<gt::TypeHelper>>();
      auto path = [=](const string& p) {
        std::vector<const pb::Field*> f;
        auto st = (*h)->ResolveFieldPath(*(*h)->Info()->GetTypeByTypeUrl(ct::Url("mctest.M")), p, &f);
        string o = p + (st.ok() ? "" : " fails");
        for (auto* x : f) o += " " + x->name() + num(x->number());
        return o + "; ";
      };
      s.push_back([=](string&) { *h = helper(v); });
      s.push_back([=](string& o) { o += path("u") + path(v ? "m.n.fooBar" : "n.foo_bar"); });
      s.push_back([=](string& o) { o += path("m.s") + path("s") + path("nope"); });
      s.push_back([=](string& o) { o += path(v ? "s" : "n.s") + path("fooBar") + path("fooBaz") + path("u"), h->reset(); });
      break;
    }
    case 10:
    case 11: {
      struct S { conv::Recorder r; std::shared_ptr<gt::TypeHelper> h; gt::StatusErrorListener el; std::unique_ptr<pb::util::converter::ObjectWriter> w; };
      auto st = std::make_shared<std::unique_ptr<S>>(new S);
      s.push_back([=](string& o) {
        auto& z = **st;
        if (kind == 10) {
          z.w.reset(new gt::PrefixWriter(v ? "p." + x + ".r" : y, &z.r));
        } else {
          z.h = helper(v);
          auto i = info(*z.h, "", {{"m.s", x}, {"r", y}, {v ? "i" : "n.s", "7"}}, o);
          z.w.reset(new gt::RequestWeaver(i.variable_bindings, &z.r, &z.el, true));
        }
      });
      s.push_back([=](string&) { (*st)->w->StartObject("")->RenderString(v ? "s" : x, y); });
      s.push_back([=](string&) { (*st)->w->StartObject("m")->RenderString("s", v ? x : y); });
      s.push_back([=](string&) { (*st)->w->EndObject()->StartList("r")->RenderString("", x)->EndList(); });
      s.push_back([=](string& o) { (*st)->w->EndObject(), o += conv::show((*st)->r.ev) + (*st)->el.status().ToString(), st->reset(); });
      break;
    }
    case 12:
    case 13:
    case 14: {
      struct S { std::shared_ptr<gt::TypeHelper> h; std::unique_ptr<Input> in; std::unique_ptr<gt::JsonRequestTranslator> t; };
      auto st = std::make_shared<std::unique_ptr<S>>(new S);
      string e = "{\"s\":\"" + x + "\",\"m\":{\"i\":" + (v ? "12" : "-3") + "}}", body = kind == 12 ? e : kind == 13 ? "[" + e + ",{}," + e + "]" : v ? "[" + e + ",{\"i\":\"z\"}," + e + "]" : "{\"s\":" + e + "}";
      bool streaming = kind == 13 || (kind == 14 && v);
      s.push_back([=](string& o) {
        auto& z = **st;
        z.h = helper(v);
        z.in.reset(new Input(body, v ? 9 : 7));
        z.t.reset(new gt::JsonRequestTranslator(z.h->Resolver(), &z.in->in, info(*z.h, v ? "*" : "n.m", {{v ? "m.s" : "r", y}, {"u", "5"}}, o), streaming, v));
      });
      s.push_back([=](string& o) { (*st)->in->more(2), o += drain((*st)->t->Output()); });
      s.push_back([=](string& o) { (*st)->in->more(3), o += drain((*st)->t->Output()); });
      s.push_back([=](string& o) { (*st)->in->end(), o += drain((*st)->t->Output()); });
      s.push_back([=](string& o) { o += drain((*st)->t->Output()), st->reset(); });
      break;
    }
    default: {
      struct S { std::shared_ptr<gt::TypeHelper> h; std::unique_ptr<Input> in; std::unique_ptr<gt::ResponseToJsonTranslator> t; };
      auto st = std::make_shared<std::unique_ptr<S>>(new S);
      mctest::M a, b;
      a.set_s(x), a.set_foo_bar(y);
      b.set_e(v ? mctest::TWO_WORDS : mctest::ONE), b.add_r(y), b.mutable_m()->set_i(v + 1);
      string bytes = frame(a.SerializeAsString()) + (kind == 17 ? (v ? frame("\xff\xff") : frame(x, 1)) : frame("") + frame(b.SerializeAsString()));
      s.push_back([=](string&) {
        auto& z = **st;
        z.h = helper(v);
        z.in.reset(new Input(bytes, v ? 9 : 7));
        gt::JsonResponseTranslateOptions o;
        o.stream_newline_delimited = kind == 16;
        o.json_print_options.preserve_proto_field_names = v;
        o.json_print_options.always_print_enums_as_ints = v;
        z.t.reset(new gt::ResponseToJsonTranslator(z.h->Resolver(), ct::Url("mctest.M"), true, &z.in->in, o));
      });
      s.push_back([=](string& o) { (*st)->in->more(2), o += drain(*(*st)->t); });
      s.push_back([=](string& o) { (*st)->in->more(2), o += drain(*(*st)->t); });
      s.push_back([=](string& o) { (*st)->in->end(), o += drain(*(*st)->t); });
      s.push_back([=](string& o) { o += drain(*(*st)->t), st->reset(); });
    }
  }
  return s;
}
string run(int kind, int v) {
  string o;
  for (auto& f : make(kind, v)) f(o);
  return o;
}
string name(int kind, int v) { return string(kNames[kind]) + " " + num(v); }
// What a history sees in a process of its own.
const string& alone(int kind, int v) {
  static std::map<int, string> known;
  string& r = known[kind * 2 + v];
  if (!r.empty()) return r;
  int fd[2];
  if (pipe(fd)) abort();
  pid_t pid = fork();
  if (pid == 0) {
    string s = run(kind, v);
    size_t at = 0;
    while (at < s.size()) {
      ssize_t n = write(fd[1], s.data() + at, s.size() - at);
      if (n <= 0) break;
      at += n;
    }
    _exit(0);
  }
  close(fd[1]);
  char buf[4096];
  ssize_t n;
  while ((n = read(fd[0], buf, sizeof buf)) > 0) r.append(buf, n);
  close(fd[0]);
  waitpid(pid, nullptr, 0);
  if (r.empty()) r = "nothing: it crashes";
  return r;
}
using Who = std::vector<std::pair<int, int>>;
string show(const Who& w, const char* sep) {
  string o;
  for (auto& x : w) o += (o.empty() ? "" : sep) + name(x.first, x.second);
  return o;
}
#ifndef MC_SCHED
// Every interleaving of the steps.
void interleave(T& t, const Who& who, std::vector<int>& order, std::vector<size_t>& at, const std::vector<size_t>& len, size_t switches) {
  bool more = false;
  for (size_t k = 0; k < who.size(); ++k) {
    if (at[k] == len[k]) continue;
    more = true;
    bool sw = !order.empty() && order.back() != (int)k && at[order.back()] < len[order.back()];
    if (sw && !switches) continue;
    order.push_back(k);
    ++at[k];
    interleave(t, who, order, at, len, switches - sw);
    --at[k];
    order.pop_back();
  }
  if (more) return;
  auto text = [&] {
    string o = show(who, " and ") + ", steps";
    for (int k : order) o += " " + num(k);
    return o;
  };
  if (!t.begin(text)) return;
  std::vector<Steps> ss;
  std::vector<string> out(who.size());
  for (auto& w : who) ss.push_back(make(w.first, w.second));
  std::vector<size_t> i(who.size(), 0);
  for (int k : order) ss[k][i[k]++](out[k]), t.step();
  uint64_t h = 1;
  for (size_t k = 0; k < who.size(); ++k) {
    t.check(out[k] == alone(who[k].first, who[k].second), [&] { return name(who[k].first, who[k].second) + " sees " + out[k] + ", alone " + alone(who[k].first, who[k].second); });
    h = mc::comb(h, who[k].first * 2 + who[k].second);
  }
  for (int k : order) h = mc::comb(h, k);
  t.state(h);
}
#else
void explore(T& t, const Who& who, const vs::Options& o) {
  std::vector<string> got;
  for (auto& w : who) alone(w.first, w.second);
  auto before = [&] {
    got.assign(who.size(), "");
    std::vector<std::function<void()>> bodies;
    for (size_t k = 0; k < who.size(); ++k) bodies.push_back([&, k] { got[k] = run(who[k].first, who[k].second); });
    return bodies;
  };
  auto after = [&]() -> string {
    for (size_t k = 0; k < who.size(); ++k)
      if (got[k] != alone(who[k].first, who[k].second)) return name(who[k].first, who[k].second) + " sees " + got[k] + ", alone " + alone(who[k].first, who[k].second);
    return "";
  };
  uint64_t id = 1;
  for (auto& w : who) id = mc::comb(id, w.first * 2 + w.second);
  vs::ExploreCase(t, id, o, before, after);
}
#endif
std::vector<mc::Space> spaces(const mc::Options& o) {
  bool th = o.thorough();
  ct::world();
  other();
  std::vector<mc::Space> v;
  auto pairs = std::make_shared<std::vector<Who>>(), like = std::make_shared<std::vector<Who>>(), triples = std::make_shared<std::vector<Who>>();
  for (int a = 0; a < kN; ++a)
    for (int b = 0; b < kN; ++b) {
      pairs->push_back({{a, 0}, {b, 1}});
      if (a <= b) pairs->push_back({{a, 0}, {b, 0}});
      if (a == b) like->push_back(*pairs->rbegin()), like->push_back(pairs->rbegin()[1]);
      for (int c = b; c < kN; ++c) triples->push_back({{a, 0}, {b, 1}, {c, 0}});
    }
#ifndef MC_SCHED
  v.push_back({"merges", num(kN) + " histories (4 or 5 steps each, two sets of data) of templates, builders, matchers, rules, decoding, trie nodes, frame readers, byte views, type helpers, writers, request and response translators: every interleaving of the steps of every two of them, in one thread", pairs->size(), [=](T& t, uint64_t u) {
                 std::vector<int> order;
                 std::vector<size_t> at(2, 0), len;
                 for (auto& w : (*pairs)[u]) len.push_back(make(w.first, w.second).size());
                 interleave(t, (*pairs)[u], order, at, len, 100);
               }});
  size_t sw = th ? (kSan ? 3 : 6) : (kSan ? 1 : 2);
  v.push_back({"merges3", "every interleaving of the steps of every three of them with at most " + num(sw) + " switches away from a history that could go on", triples->size(), [=](T& t, uint64_t u) {
                 std::vector<int> order;
                 std::vector<size_t> at(3, 0), len;
                 for (auto& w : (*triples)[u]) len.push_back(make(w.first, w.second).size());
                 interleave(t, (*triples)[u], order, at, len, sw);
               }});
#else
  auto add = [&](const string& name, const string& what, std::shared_ptr<std::vector<Who>> cs, vs::Options op) {
    v.push_back({name, what, cs->size(), [=](T& t, uint64_t u) {
                   if (t.begin([&] { return show((*cs)[u], " || "); })) explore(t, (*cs)[u], op);
                 }});
  };
  vs::Options fn;
  fn.preemptions = 1;
  fn.at_functions = true;
  fn.every = th ? 3 : 20;
  add("threads", "every two histories in two threads, at most one preemption, at any lock or atomic operation and every " + num(fn.every) + ". function entry", pairs, fn);
  vs::Options two = fn;
  two.preemptions = 2;
  two.every = th ? 150 : 300;
  add("threads2", (th ? string("every two histories") : string("every two histories of a kind")) + " in two threads, at most two preemptions, at locks, atomics and every " + num(two.every) + ". function entry", th ? pairs : like, two);
  vs::Options cold = fn;
  cold.cold = true;
  cold.every = th ? 20 : 150;
  add("first", "every two histories in two threads, each execution the first of its process, at most one preemption, at locks, atomics and every " + num(cold.every) + ". function entry", pairs, cold);
#endif
  return v;
}
}  // namespace
int main(int c, char** v) { return mc::Main(c, v, spaces); }
