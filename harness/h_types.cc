// C26: field paths against a reference walk of the types.
#include <map>
#include <memory>

#include "conv.h"
#include "google/protobuf/type.pb.h"
#include "google/protobuf/util/converter/type_info.h"
#include "grpc_transcoding/type_helper.h"
#include "mc.h"
#include "ref.h"

namespace gt = google::grpc::transcoding;
namespace pb = google::protobuf;
namespace pu = google::protobuf::util;
using mc::T;

namespace {
#ifdef MC_SAN
const bool kSan = true;
#else
const bool kSan = false;
#endif
std::string num(size_t n) { return std::to_string(n); }

void add(pb::Type* t, const char* name, const char* json, pb::Field::Kind kind, const char* url = "", bool rep = false) {
  pb::Field* f = t->add_fields();
  f->set_name(name);
  f->set_json_name(json);
  f->set_kind(kind);
  f->set_number(t->fields_size());
  f->set_type_url(url);
  f->set_cardinality(rep ? pb::Field::CARDINALITY_REPEATED : pb::Field::CARDINALITY_OPTIONAL);
}
const char kUrl[] = "type.googleapis.com/";
std::vector<pb::Type> types() {
  pb::Type t, n, e;
  t.set_name("pkg.T");
  add(&t, "s", "s", pb::Field::TYPE_STRING);
  add(&t, "foo_bar", "fooBar", pb::Field::TYPE_INT32);
  add(&t, "x_y", "custom", pb::Field::TYPE_MESSAGE, "type.googleapis.com/pkg.N");
  add(&t, "m", "m", pb::Field::TYPE_MESSAGE, "type.googleapis.com/pkg.N");
  add(&t, "rm", "rm", pb::Field::TYPE_MESSAGE, "type.googleapis.com/pkg.T", true);
  add(&t, "e", "e", pb::Field::TYPE_ENUM, "type.googleapis.com/pkg.E");
  add(&t, "u", "u", pb::Field::TYPE_MESSAGE, "type.googleapis.com/pkg.Unknown");
  add(&t, "g", "g", pb::Field::TYPE_GROUP, "type.googleapis.com/pkg.N");
  add(&t, "k", "j%41", pb::Field::TYPE_MESSAGE, "type.googleapis.com/pkg.T");
  add(&t, "l", "jA", pb::Field::TYPE_STRING);
  add(&t, "b", "b", pb::Field::TYPE_BYTES);
  n.set_name("pkg.N");
  add(&n, "foo_bar", "fooBar", pb::Field::TYPE_MESSAGE, "type.googleapis.com/pkg.T");
  add(&n, "s", "s", pb::Field::TYPE_STRING);
  add(&n, "n", "m", pb::Field::TYPE_MESSAGE, "type.googleapis.com/pkg.N");
  add(&n, "p_q", "pQ", pb::Field::TYPE_BOOL, "", true);
  e.set_name("pkg.Empty");
  return {t, n, e};
}
std::vector<pb::Enum> enums() {
  pb::Enum e;
  e.set_name("pkg.E");
  e.add_enumvalue()->set_name("ZERO");
  return {e};
}
struct Resolver : pu::TypeResolver {  // a resolver of the caller's, for the other constructor
  std::vector<pb::Type> ts = types();
  absl::Status ResolveMessageType(const std::string& u, pb::Type* t) override {
    for (auto& x : ts)
      if (kUrl + x.name() == u) {
        *t = x;
        return absl::OkStatus();
      }
    return absl::NotFoundError("no " + u);
  }
  absl::Status ResolveEnumType(const std::string& u, pb::Enum* e) override { return absl::NotFoundError("no " + u); }
};
struct World {
  std::vector<pb::Type> ts = types();
  std::vector<pb::Enum> es = enums();
  std::unique_ptr<gt::TypeHelper> h;
  const pb::Type* root[2];
  explicit World(bool own) {
    if (own) h.reset(new gt::TypeHelper(new Resolver));
    else h.reset(new gt::TypeHelper(ts, es));
    for (int i = 0; i < 2; ++i) root[i] = h->Info()->GetTypeByTypeUrl(kUrl + ts[i].name());
    if (!root[0] || !root[1]) abort();
  }
};

// The reference: the chain as "T.m>N.s", or "" with *ok false.
const pb::Field* find(const pb::Type& t, const std::string& name) {
  for (auto& f : t.fields())
    if (f.name() == name || f.json_name() == name) return &f;
  return nullptr;
}
std::string expect(const std::vector<pb::Type>& ts, int root, const std::vector<std::string>& names, bool* ok) {
  const pb::Type* t = &ts[root];
  std::string o;
  *ok = true;
  for (size_t i = 0; i < names.size(); ++i) {
    const pb::Field* f = find(*t, names[i]);
    if (!f && ref::replaces(names[i], ref::kAll, false)) f = find(*t, ref::decode(names[i], ref::kAll, false));
    if (!f) {
      *ok = false;
      return "";
    }
    o += f->name() + "#" + num(f->number()) + ":" + f->type_url() + ">";
    if (i + 1 < names.size()) {
      const pb::Type* next = nullptr;
      if (f->kind() == pb::Field::TYPE_MESSAGE)
        for (auto& x : ts)
          if (kUrl + x.name() == f->type_url()) next = &x;
      if (!next) {
        *ok = false;
        return "";
      }
      t = next;
    }
  }
  return o;
}
std::string chain(const std::vector<const pb::Field*>& v) {
  std::string o;
  for (auto f : v) o += f->name() + "#" + num(f->number()) + ":" + f->type_url() + ">";
  return o;
}
std::string show(const std::vector<std::string>& v) {
  std::string o = "[";
  for (auto& x : v) o += mc::q(x) + " ";
  return o + "]";
}

void verify(T& t, World& w, int root, const std::vector<std::string>& names, const std::string* text) {
  static pb::Field mark;
  std::vector<const pb::Field*> out = {&mark, nullptr};
  bool ok;
  std::string want = expect(w.ts, root, names, &ok);
  absl::Status s = text ? w.h->ResolveFieldPath(*w.root[root], *text, &out) : w.h->ResolveFieldPath(*w.root[root], names, &out);
  t.step();
  t.check(s.ok() == ok, [&] { return (ok ? "not resolved: " : "resolved, to " + chain(out) + ": ") + s.ToString(); });
  if (ok) {
    t.check(chain(out) == want, [&] { return "resolved to " + chain(out) + ", expected " + want; });
    // the fields are those of the types the helper serves
    const pb::Type* ty = w.root[root];
    for (size_t i = 0; i < out.size(); ++i) {
      auto f = out[i];
      bool in = false;
      for (auto& x : ty->fields()) in |= &x == f;
      t.check(in, [&] { return "field " + f->name() + " is not the one of its type"; });
      if (i + 1 < out.size()) ty = w.h->Info()->GetTypeByTypeUrl(f->type_url());
    }
    t.state(mc::hash(want));
  } else {
    t.check(s.code() == absl::StatusCode::kInvalidArgument, [&] { return "fails with " + s.ToString(); });
    t.check(out.size() == 2 && out[0] == &mark && !out[1], [] { return std::string("the output was touched by a failing resolution"); });
    t.state(names.size());
  }
}

const std::vector<std::string>& tokens() {
  static const std::vector<std::string> v = {"s",        "foo_bar",  "fooBar", "x_y", "custom", "xY",   "m",    "rm",     "e",    "u",   "g",     "nosuch", "S",   "foo%5Fbar",
                                             "%66ooBar", "foo%5fbar", "m%",     "%6D", "j%41",   "jA",   "j%2541", "s%00",  " s",  "foo%5", "foo+bar", "k",   "n",      "p_q", "pQ",
                                             "%6d",      "cust%6fm", "",       "*",   "foo-bar", "%73", "%73%73"};
  return v;
}
std::vector<mc::Space> spaces(const mc::Options& o) {
  bool th = o.thorough();
  std::vector<mc::Space> v;
  auto& tk = tokens();
  int n = kSan ? 2 : th ? 4 : 3;
  v.push_back({"paths", "every sequence of up to " + num(n) + " names of " + num(tk.size()) + " (proto, JSON, escaped, unknown) from each of two types, vector form", tk.size() * 4, [=](T& t, uint64_t u) {
                 auto& tk = tokens();
                 int root = u & 1;
                 World w(u & 2);
                 std::vector<std::string> names = {tk[u / 4]};
                 std::function<void()> go = [&] {
                   if (t.begin([&] { return "type " + num(root) + " path " + show(names); })) verify(t, w, root, names, nullptr);
                   if ((int)names.size() == n) return;
                   for (auto& x : tk) {
                     names.push_back(x);
                     go();
                     names.pop_back();
                   }
                 };
                 go();
                 if (u / 4 == 0 && t.begin([] { return "the empty path"; })) {
                   verify(t, w, root, {}, nullptr);
                   std::string none;
                   verify(t, w, root, {}, &none);
                 }
               }});
  static const std::vector<std::string> pieces = {"m", "s", ".", "fooBar", "foo_bar", "%6D", "%2E", "custom", "u", "zz", ".."};
  int k = kSan ? 4 : th ? 7 : 6;
  v.push_back({"texts", "every concatenation of up to " + num(k) + " of the pieces m s . fooBar foo_bar %6D %2E custom u zz .. as the string form, compared with the vector form of its parts", pieces.size() * pieces.size(), [=](T& t, uint64_t u) {
                 World w(false);
                 std::function<void(const std::string&, int)> go = [&](const std::string& s, int d) {
                   if (t.begin([&] { return "text " + mc::q(s); })) {
                     std::vector<std::string> names;
                     std::string cur;
                     for (char c : s + ".")
                       if (c == '.') {
                         if (!cur.empty()) names.push_back(cur);
                         cur.clear();
                       } else {
                         cur += c;
                       }
                     verify(t, w, 0, names, &s);
                   }
                   if (d == k) return;
                   for (auto& p : pieces) go(s + p, d + 1);
                 };
                 if (u == 0)
                   for (auto& s : {std::string(), std::string("."), std::string("m"), std::string(".m.")})
                     go(s, k);
                 go(pieces[u / pieces.size()] + pieces[u % pieces.size()], 2);
               }});
  static const std::vector<std::string> few = {"s", "foo_bar", "fooBar", "m", "custom", "x_y", "u", "zz", "%6D", "rm"};
  v.push_back({"histories", "every two (three, the last two alike or swapped) resolutions of paths of up to two names on one new helper: earlier resolutions, failed or not, change nothing", few.size() * (few.size() + 1) * 2, [=](T& t, uint64_t u) {
                 auto path = [&](uint64_t i) {
                   std::vector<std::string> p = {few[i / (few.size() + 1)]};
                   if (i % (few.size() + 1)) p.push_back(few[i % (few.size() + 1) - 1]);
                   return p;
                 };
                 uint64_t np = few.size() * (few.size() + 1);
                 auto a = path(u / 2);
                 int root = u & 1;
                 for (uint64_t j = 0; j < np; ++j)
                   for (int order = 0; order < 2; ++order) {
                     auto b = path(j);
                     if (!t.begin([&] { return "type " + num(root) + " paths " + show(a) + show(b) + (order ? show(a) + show(b) : show(b) + show(a)) + (order ? " from type 0" : ""); })) continue;
                     World w(order);
                     verify(t, w, root, a, nullptr);
                     verify(t, w, order ? 0 : root, b, nullptr);
                     verify(t, w, order ? 0 : root, order ? a : b, nullptr);
                     verify(t, w, root, order ? b : a, nullptr);
                   }
               }});
  v.push_back({"long", "paths of up to " + num(kSan ? 40 : 200) + " names through recursive types, with an unknown name, a scalar or a group at any one place", kSan ? 40 : 200, [](T& t, uint64_t u) {
                 World w(false);
                 for (int bad = -1; bad <= (int)u; ++bad)
                   for (const char* what : {"zz", "s", "g", "u", "%6b", "%6B%"}) {
                     if (bad < 0 && strcmp(what, "zz")) continue;
                     std::vector<std::string> names(u + 1, "k");
                     if (bad >= 0) names[bad] = what;
                     if (t.begin([&] { return num(u + 1) + " names, " + what + " at " + std::to_string(bad); })) {
                       verify(t, w, 0, names, nullptr);
                       std::string s;
                       for (auto& x : names) s += (s.empty() ? "" : ".") + x;
                       verify(t, w, 0, names, &s);
                     }
                   }
               }});
  return v;
}
}  // namespace
int main(int c, char** v) { return mc::Main(c, v, spaces); }
