// C27: one TypeHelper used by several threads, under every schedule within a preemption bound.  What it wraps is
// replaced by a cache that is not thread-safe and whose every access the race detector sees.
#include <map>
#include <memory>
#include <string>

#include "google/protobuf/type.pb.h"
#include "google/protobuf/util/converter/type_info.h"
#include "grpc_transcoding/type_helper.h"
#include "mc.h"
#include "sched_mc.h"
#include "shim.h"

namespace gt = google::grpc::transcoding;
namespace pb = google::protobuf;
namespace pu = google::protobuf::util;
using mc::T;

namespace {
std::string num(uint64_t n) { return std::to_string(n); }
const char kUrl[] = "type.googleapis.com/";

pb::Type* make(const char* name) {
  pb::Type* t = new pb::Type;
  t->set_name(name);
  for (int i = 0; i < 3; ++i) {
    pb::Field* f = t->add_fields();
    f->set_name(i == 0 ? "s" : i == 1 ? "m" : "n_o");
    f->set_json_name(i == 2 ? "nO" : f->name());
    f->set_kind(i == 0 ? pb::Field::TYPE_STRING : pb::Field::TYPE_MESSAGE);
    f->set_type_url(std::string(kUrl) + (i == 0 ? "" : i == 1 ? "N" : "T"));
  }
  return t;
}
pb::Type* const kTypes[] = {make("T"), make("N")};
pb::Enum* const kEnum = [] {
  pb::Enum* e = new pb::Enum;
  e->set_name("E");
  return e;
}();

struct NoResolver : pu::TypeResolver {
  absl::Status ResolveMessageType(const std::string& u, pb::Type*) override { return absl::NotFoundError(u); }
  absl::Status ResolveEnumType(const std::string& u, pb::Enum*) override { return absl::NotFoundError(u); }
};

// Not thread-safe on purpose: remembers what was asked, as the library's own does.
std::string g_overlap;
class Cache : public pu::converter::TypeInfo {
 public:
  absl::StatusOr<const pb::Type*> ResolveTypeUrl(absl::string_view u) const override {
    In in(this, "ResolveTypeUrl");
    const pb::Type* t = type(std::string(u));
    if (!t) return absl::NotFoundError("no type");
    return t;
  }
  const pb::Type* GetTypeByTypeUrl(absl::string_view u) const override {
    In in(this, "GetTypeByTypeUrl");
    return type(std::string(u));
  }
  const pb::Enum* GetEnumByTypeUrl(absl::string_view u) const override {
    In in(this, "GetEnumByTypeUrl");
    ++uses_;
    return u == std::string(kUrl) + "E" ? kEnum : nullptr;
  }
  const pb::Field* FindField(const pb::Type* t, absl::string_view n) const override {
    In in(this, "FindField");
    auto& c = fields_[t];
    auto i = c.find(std::string(n));
    if (i != c.end()) return i->second;
    vs::Point();
    const pb::Field* r = nullptr;
    for (auto& f : t->fields())
      if (f.name() == n || f.json_name() == n) r = &f;
    c[std::string(n)] = r;
    return r;
  }

 private:
  struct In {
    const Cache* c;
    In(const Cache* x, const char* what) : c(x) {
      if (c->inside_) g_overlap = std::string(what) + " was entered while another call was inside";
      c->inside_ = true;
      ++c->uses_;
      vs::Point();
    }
    ~In() {
      ++c->uses_;
      c->inside_ = false;
    }
  };
  const pb::Type* type(const std::string& u) const {
    auto i = types_.find(u);
    if (i != types_.end()) return i->second;
    vs::Point();
    const pb::Type* r = nullptr;
    for (auto t : kTypes)
      if (kUrl + t->name() == u) r = t;
    types_[u] = r;
    return r;
  }
  mutable std::map<std::string, const pb::Type*> types_;
  mutable std::map<const pb::Type*, std::map<std::string, const pb::Field*>> fields_;
  mutable uint64_t uses_ = 0;
  mutable bool inside_ = false;
};
pu::converter::TypeInfo* make_cache(pu::TypeResolver*) { return new Cache; }

// The calls.
struct Call {
  const char* name;
  std::string (*fn)(const gt::TypeHelper&);
};
std::string chain(const absl::Status& s, const std::vector<const pb::Field*>& v) {
  std::string o = s.ok() ? "ok " : s.ToString() + " ";
  for (auto f : v) o += f->name() + ">";
  return o;
}
std::string path(const gt::TypeHelper& h, const char* p) {
  std::vector<const pb::Field*> v;
  absl::Status s = h.ResolveFieldPath(*kTypes[0], std::string(p), &v);
  return chain(s, v);
}
std::string text(const pb::Type* t) { return t ? t->name() : "null"; }
std::string resolved(const gt::TypeHelper& h, const char* url) {
  pb::Type r;
  absl::Status s = h.Resolver()->ResolveMessageType(url, &r);
  if (!s.ok()) return s.ToString();
  std::string o = r.name();
  for (auto& x : r.options()) o += " " + x.name();
  return o + num(r.fields_size());
}
const Call kCalls[] = {
    {"ResolveFieldPath(\"m.s\")", [](const gt::TypeHelper& h) { return path(h, "m.s"); }},
    {"ResolveFieldPath(\"nO.m.n_o\")", [](const gt::TypeHelper& h) { return path(h, "nO.m.n_o"); }},
    {"ResolveFieldPath(\"%6D.zz\")", [](const gt::TypeHelper& h) { return path(h, "%6D.zz"); }},
    {"ResolveFieldPath([\"s\"])", [](const gt::TypeHelper& h) {
       std::vector<const pb::Field*> v;
       absl::Status s = h.ResolveFieldPath(*kTypes[1], std::vector<std::string>{"s"}, &v);
       return chain(s, v);
     }},
    {"Info()->ResolveTypeUrl(T)", [](const gt::TypeHelper& h) {
       auto r = h.Info()->ResolveTypeUrl("type.googleapis.com/T");
       return r.ok() ? text(r.value()) : r.status().ToString();
     }},
    {"Info()->ResolveTypeUrl(?)", [](const gt::TypeHelper& h) {
       auto r = h.Info()->ResolveTypeUrl("type.googleapis.com/Z");
       return r.ok() ? text(r.value()) : r.status().ToString();
     }},
    {"Info()->GetTypeByTypeUrl(N)", [](const gt::TypeHelper& h) { return text(h.Info()->GetTypeByTypeUrl("type.googleapis.com/N")); }},
    {"Info()->GetEnumByTypeUrl(E)", [](const gt::TypeHelper& h) {
       auto* e = h.Info()->GetEnumByTypeUrl("type.googleapis.com/E");
       return e ? e->name() : std::string("null");
     }},
    {"Info()->FindField(T, nO)", [](const gt::TypeHelper& h) {
       auto* f = h.Info()->FindField(kTypes[0], "nO");
       return f ? f->name() : std::string("null");
     }},
    {"Resolver()->ResolveMessageType(R)", [](const gt::TypeHelper& h) { return resolved(h, "type.googleapis.com/R"); }},
    {"Resolver()->ResolveMessageType(?)", [](const gt::TypeHelper& h) { return resolved(h, "type.googleapis.com/Z"); }},
    {"Resolver()->ResolveEnumType(F)", [](const gt::TypeHelper& h) {
       pb::Enum e;
       absl::Status s = h.Resolver()->ResolveEnumType("type.googleapis.com/F", &e);
       return s.ok() ? e.name() + num(e.enumvalue_size()) : s.ToString();
     }},
};
const int kN = sizeof kCalls / sizeof kCalls[0];
using Threads = std::vector<std::vector<int>>;
std::string show(const Threads& th) {
  std::string s;
  for (size_t k = 0; k < th.size(); ++k) {
    s += (k ? " || " : "");
    for (size_t i = 0; i < th[k].size(); ++i) s += (i ? "; " : "") + std::string(kCalls[th[k][i]].name);
  }
  return s;
}
// own: around a resolver given to it; else from types and enums, which it keeps pointers to (and renames options of).
std::unique_ptr<gt::TypeHelper> build(bool own) {
  static std::vector<pb::Type> types;
  static std::vector<pb::Enum> enums;
  if (own) return std::make_unique<gt::TypeHelper>(new NoResolver);
  types.assign(2, *kTypes[0]);
  types[0].set_name("Q");
  types[1].set_name("R");
  for (const char* n : {"proto2.MessageOptions.map_entry", "other", "proto2.MessageOptions.message_set_wire_format"}) types[1].add_options()->set_name(n);
  enums.assign(1, *kEnum);
  enums[0].set_name("F");
  enums[0].add_enumvalue()->set_name("ZERO");
  return std::make_unique<gt::TypeHelper>(types, enums);
}
std::string alone(int c, bool own) {  // what one call returns when nothing else runs
  static std::map<int, std::string> memo;
  auto i = memo.find(2 * c + own);
  if (i != memo.end()) return i->second;
  auto h = build(own);
  return memo[2 * c + own] = kCalls[c].fn(*h);
}
void explore(T& t, const Threads& threads, const vs::Options& o, bool own) {
  std::vector<std::vector<std::string>> want, got;
  for (auto& s : threads) {
    want.emplace_back();
    for (int c : s) want.back().push_back(alone(c, own));
  }
  std::unique_ptr<gt::TypeHelper> h;
  auto before = [&] {
    h = build(own);
    g_overlap.clear();
    got.assign(threads.size(), {});
    std::vector<std::function<void()>> bodies;
    for (size_t k = 0; k < threads.size(); ++k) {
      got[k].resize(threads[k].size());
      bodies.push_back([&, k] {
        for (size_t i = 0; i < threads[k].size(); ++i) got[k][i] = kCalls[threads[k][i]].fn(*h);
      });
    }
    return bodies;
  };
  auto after = [&]() -> std::string {
    if (!g_overlap.empty()) return g_overlap;
    for (size_t k = 0; k < threads.size(); ++k)
      for (size_t i = 0; i < threads[k].size(); ++i)
        if (got[k][i] != want[k][i]) return "thread " + num(k) + ": " + kCalls[threads[k][i]].name + " returns " + got[k][i] + ", alone " + want[k][i];
    return "";
  };
  uint64_t id = own;
  for (auto& s : threads)
    for (int i : s) id = mc::comb(id, i + 1);
  vs::ExploreCase(t, id, o, before, after);
}

std::vector<mc::Space> spaces(const mc::Options& o) {
  shim::MakeTypeInfo = make_cache;
  bool th = o.thorough();
  std::vector<mc::Space> v;
  auto add = [&](const std::string& name, const std::string& what, const std::vector<Threads>& cs, vs::Options op, bool own) {
    auto c = std::make_shared<std::vector<Threads>>(cs);
    v.push_back({name, what, c->size(), [=](T& t, uint64_t u) {
                   if (t.begin([&] { return show((*c)[u]); })) explore(t, (*c)[u], op, own);
                 }});
  };
  std::vector<Threads> pairs, twos, triples;
  for (int a = 0; a < kN; ++a)
    for (int b = 0; b < kN; ++b) {
      pairs.push_back({{a}, {b}});
      twos.push_back({{a, b}, {b, a}});
      for (int c = b; c < kN; ++c) triples.push_back({{a}, {b}, {c}});
    }
  vs::Options sync;
  sync.preemptions = th ? 5 : 3;
  add("pairs", "every ordered pair of " + num(kN) + " calls in two threads: all schedules with at most " + num(sync.preemptions) + " preemptions at locks, atomics and points inside the shared cache", pairs, sync, true);
  add("pairs_built", "the same with a helper built from types and enums", pairs, sync, false);
  vs::Options fn;
  fn.at_functions = true;
  fn.preemptions = th ? 2 : 1;
  add("pairs_fn", "the same, at function entries too, at most " + num(fn.preemptions) + " preemptions", pairs, fn, false);
  vs::Options s2;
  s2.preemptions = th ? 4 : 2;
  add("twice", "two threads each doing both calls of a pair, in opposite orders, at most " + num(s2.preemptions) + " preemptions", twos, s2, false);
  vs::Options s3;
  s3.preemptions = th ? 2 : 1;
  add("triples", "three threads, one call each, at most " + num(s3.preemptions) + " preemptions", triples, s3, true);
  return v;
}
}  // namespace
int main(int c, char** v) { return mc::Main(c, v, spaces); }
