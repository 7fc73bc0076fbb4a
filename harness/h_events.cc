// C35: the request translators fed with events directly (they are ObjectWriters; any source of events may drive them).
// Oracle: the protobuf library's own writer given the events of one element, wrapped in the body path by hand.
#include <cmath>
#include <functional>
#include <limits>
#include <memory>

#include "conv.h"
#include "ctypes.h"
#include "google/protobuf/util/converter/error_listener.h"
#include "google/protobuf/util/converter/protostream_objectwriter.h"
#include "grpc_transcoding/request_message_translator.h"
#include "grpc_transcoding/request_stream_translator.h"
#include "mc.h"

namespace gt = google::grpc::transcoding;
using namespace conv;
using mc::T;

namespace {
#ifdef MC_SAN
const bool kSan = true;
#else
const bool kSan = false;
#endif

struct Rule {
  std::string body;  // "*" or a field path
  bool bound;        // "foo_bar" is bound to "x y"
  bool enums;        // case-insensitive enum names
  bool delims;
  std::string show() const { return "body " + body + (bound ? ", foo_bar bound" : "") + (enums ? ", enum names in any case" : "") + (delims ? ", delimiters" : ""); }
};
gt::RequestInfo info(const Rule& r) {
  gt::RequestInfo i;
  i.message_type = ct::world().type("mctest.M");
  i.body_field_path = r.body;
  i.reject_binding_body_field_collisions = false;
  i.case_insensitive_enum_parsing = r.enums;
  if (r.bound) {
    gt::RequestWeaver::BindingInfo b;
    if (!ct::world().helper->ResolveFieldPath(*i.message_type, "foo_bar", &b.field_path).ok()) abort();
    b.value = "x y";
    i.variable_bindings.push_back(b);
  }
  return i;
}
struct Listener : pc::ErrorListener {
  bool bad = false;
  void InvalidName(const pc::LocationTrackerInterface&, absl::string_view, absl::string_view) override { bad = true; }
  void InvalidValue(const pc::LocationTrackerInterface&, absl::string_view, absl::string_view) override { bad = true; }
  void MissingField(const pc::LocationTrackerInterface&, absl::string_view) override { bad = true; }
};
// What the events of one element (well nested, one root) mean.
bool meaning(const Rule& r, bool first, const Events& e, std::string* out) {
  out->clear();
  if (r.delims) out->append(5, '\0');
  pb::strings::StringByteSink sink(out);
  Listener l;
  pc::ProtoStreamObjectWriter::Options o;
  o.ignore_unknown_fields = true;
  o.case_insensitive_enum_parsing = r.enums;
  bool done;
  {
    pc::ProtoStreamObjectWriter w(ct::world().helper->Resolver(), *ct::world().type("mctest.M"), &sink, &l, o);
    w.set_use_strict_base64_decoding(false);
    std::vector<std::string> wrap;
    std::string x;
    if (r.body != "*")
      for (char c : r.body + ".")
        if (c == '.') wrap.push_back(x), x.clear();
        else x += c;
    std::string name = e[0].name;
    for (auto& p : wrap) {
      w.StartObject(name);
      name = p;
    }
    bool bind = r.bound && first;
    auto put = [&] {
      if (bind) w.RenderString("foo_bar", "x y");
      bind = false;
    };
    for (size_t k = 0; k < e.size(); ++k) {
      if (k + 1 == e.size() && wrap.empty() && e.size() > 1) put();
      Event v = e[k];
      if (!k) v.name = name;
      play(v, &w);
    }
    for (size_t k = wrap.size(); k > 0; --k) {
      if (k == 1) put();
      w.EndObject();
    }
    done = w.done();
  }
  if (l.bad || !done) return false;
  if (r.delims) {
    size_t n = out->size() - 5;
    for (int k = 4; k > 0; --k, n >>= 8) (*out)[k] = (char)(n & 255);
  }
  return true;
}

// The stream translator as specified.
struct Model {
  enum { kBefore, kIn, kAfter, kError } st = kBefore;
  int depth = 0;
  Events elem;
  bool first = true;
  std::deque<std::string> queue;
  void feed(const Rule& r, const Event& e) {
    if (st == kError) return;
    if (depth > 0) {
      elem.push_back(e);
      depth += e.op == kObj || e.op == kList ? 1 : e.op == kVal ? 0 : -1;
      if (depth == 0) finish(r);
      return;
    }
    if (st == kBefore) {
      st = e.op == kList ? kIn : kError;
    } else if (st == kAfter) {
      st = kError;
    } else if (e.op == kEndList) {
      st = kAfter;
    } else if (e.op == kEndObj) {
      st = kError;
    } else {
      elem = {e};
      if (e.op == kVal) finish(r);
      else depth = 1;
    }
  }
  void finish(const Rule& r) {
    std::string m;
    if (meaning(r, first, elem, &m)) queue.push_back(m);
    else st = kError;
    first = false;
    elem.clear();
  }
};
struct Stream {
  T& t;
  const Rule& r;
  Model m;
  gt::RequestStreamTranslator tr;
  Stream(T& t, const Rule& r) : t(t), r(r), tr(*ct::world().helper->Resolver(), r.delims, info(r)) {}
  void feed(const Event& e) {
    t.step();
    play(e, &tr);
    m.feed(r, e);
  }
  void look(size_t at) {
    auto where = [&] { return " after " + num(at) + " events"; };
    for (;;) {
      if (m.depth == 0) {
        bool err = m.st == Model::kError, fin = err || (m.st == Model::kAfter && m.queue.empty());
        absl::Status s = tr.Status();
        t.check(s.ok() == !err, [&] { return (err ? "no error" : "an error: " + s.ToString()) + where(); });
        if (err) t.check(s.code() == absl::StatusCode::kInvalidArgument, [&] { return "not an invalid-argument error" + where() + ": " + s.ToString(); });
        t.check(tr.Finished() == fin, [&] { return std::string(fin ? "not finished" : "finished") + where(); });
      }
      std::string got = "before";
      bool g = tr.NextMessage(&got);
      t.check(g == !m.queue.empty(), [&] { return (g ? "a message too many, " + mc::q(got) + "," : std::string("a message is missing")) + where(); });
      if (!g) break;
      t.check(got == m.queue.front(), [&] { return "message " + mc::q(got) + where() + ", not " + mc::q(m.queue.front()); });
      t.state(mc::hash(got));
      m.queue.pop_front();
    }
    t.state(mc::comb(m.st, m.depth));
  }
};
void stream_case(T& t, const Rule& r, const Events& e, bool often) {
  if (!t.begin([&] { return "stream, " + r.show() + (often ? ", asked after every event" : ", asked at the end") + ": " + show(e); })) return;
  Stream s(t, r);
  if (often) s.look(0);
  for (size_t k = 0; k < e.size(); ++k) {
    s.feed(e[k]);
    if (often) s.look(k + 1);
  }
  s.look(e.size());
  s.look(e.size());
}
void unary_case(T& t, const Rule& r, const Events& e, bool often) {
  if (!t.begin([&] { return "unary, " + r.show() + (often ? ", asked after every event" : ", asked at the end") + ": " + show(e); })) return;
  gt::RequestMessageTranslator tr(*ct::world().helper->Resolver(), r.delims, info(r));
  std::string want, got = "before";
  bool ok = meaning(r, true, e, &want);
  for (size_t k = 0; k <= e.size(); ++k) {
    if (k) t.step(), play(e[k - 1], &tr.Input());
    if (k == e.size()) break;
    if (often) {
      t.check(!tr.NextMessage(&got), [&] { return "a message after " + num(k) + " events: " + mc::q(got); });
      t.check(!tr.Finished(), [&] { return "finished after " + num(k) + " events"; });
    }
  }
  // Without a message and without an error (a root that is no object) nothing else is promised.
  if (!ok) {
    t.check(!tr.NextMessage(&got), [&] { return "a message out of nothing: " + mc::q(got); });
    t.check(tr.Status().ok() || tr.Status().code() == absl::StatusCode::kInvalidArgument, [&] { return "not an invalid-argument error: " + tr.Status().ToString(); });
    t.state(1);
    return;
  }
  t.check(tr.Status().ok(), [&] { return "an error: " + tr.Status().ToString(); });
  t.check(!tr.Finished(), [] { return std::string("finished before the message is read"); });
  bool g = tr.NextMessage(&got);
  t.check(g, [] { return std::string("no message"); });
  t.check(got == want, [&] { return "message " + mc::q(got) + ", not " + mc::q(want); });
  t.check(tr.Finished(), [] { return std::string("not finished after the message"); });
  t.check(!tr.NextMessage(&got), [] { return std::string("a second message"); });
  t.check(tr.Finished() && tr.Status().ok(), [] { return std::string("not finished well"); });
  t.state(mc::hash(got));
}

// Values of every kind
const std::vector<Value>& values() {
  static const std::vector<Value> v = [] {
    std::vector<Value> v;
    auto add = [&](int k, int64_t i, uint64_t u, double d, const std::string& s) {
      Value x;
      x.kind = k, x.b = i & 1, x.i = i, x.u = u, x.d = d, x.s = s;
      v.push_back(x);
    };
    add(kBool, 0, 0, 0, ""), add(kBool, 1, 0, 0, "");
    for (int64_t i : {0ll, 1ll, 2ll, -1ll, 127ll, 128ll, 65536ll, 2147483647ll, -2147483648ll}) add(kInt32, i, 0, 0, "");
    for (uint64_t u : {0ull, 1ull, 2ull, 255ull, 2147483647ull, 2147483648ull, 4294967295ull}) add(kUint32, 0, u, 0, "");
    for (int64_t i : {0ll, 1ll, -1ll, 2147483647ll, 2147483648ll, -2147483648ll, -2147483649ll, 4294967295ll, 4294967296ll, 9007199254740993ll, (long long)INT64_MAX, (long long)INT64_MIN}) add(kInt64, i, 0, 0, "");
    for (uint64_t u : {0ull, 1ull, 4294967295ull, 4294967296ull, 9223372036854775807ull, 9223372036854775808ull, 18446744073709551615ull}) add(kUint64, 0, u, 0, "");
    const double inf = std::numeric_limits<double>::infinity();
    for (double d : {0.0, -0.0, 1.0, -1.5, 0.1, 1e10, 4294967296.0, 9007199254740993.0, 1e39, 5e-324, 1.7976931348623157e308, inf, -inf}) add(kDouble, 0, 0, d, "");
    for (float f : {0.0f, -0.0f, 1.0f, -1.5f, 0.1f, 16777216.0f, 3.4028235e38f, 1e-45f, (float)inf, -(float)inf}) add(kFloat, 0, 0, f, "");
    for (const char* s : {"", "a", "0", "1", "-1", "1.5", "true", "null", "NaN", "ONE", "two-words", "Zero", "YWI", "_-_-", "a b", "\xc3\xa9"}) add(kString, 0, 0, 0, s);
    add(kString, 0, 0, 0, std::string("a\0b", 3));
    for (const char* s : {"", "a", "YWI=", "1", "\xff\x80", "\n"}) add(kBytes, 0, 0, 0, s);
    add(kBytes, 0, 0, 0, std::string("\0", 1));
    add(kNull, 0, 0, 0, "");
    return v;
  }();
  return v;
}
const std::vector<std::string>& fields() {
  static const std::vector<std::string> v = {"s", "i", "e", "b", "t", "d", "u", "l", "f", "w", "r", "ri", "fooBar", "m", "x"};
  return v;
}
Event ev(int op, const std::string& n = "", const Value& v = Value()) { return {op, n, v}; }

// What may follow, for the sequences.
std::vector<Event> next(const std::vector<int>& open, const Rule& r, bool after, bool objects_only) {
  const Value a = Value::Str("a");
  if (open.empty()) {  // outside of everything
    std::vector<Event> v = {ev(kObj), ev(kEndObj), ev(kEndList), ev(kVal, "", a)};
    if (!after) v.push_back(ev(kList));
    return v;
  }
  std::vector<Event> v;
  if (open.size() == 1) {  // in the outermost list
    v = {ev(kObj), ev(kEndList), ev(kEndObj)};
    if (!objects_only) v.push_back(ev(kList)), v.push_back(ev(kVal, "", a)), v.push_back(ev(kVal, "", Value::Null()));
    return v;
  }
  if (open.back() == kObj) return {ev(kObj, "m"), ev(kList, "r"), ev(kVal, "s", a), ev(kVal, "i", a), ev(kVal, "x", a), ev(kEndObj)};
  return {ev(kVal, "", a), ev(kObj), ev(kEndList)};
}

std::vector<mc::Space> spaces(const mc::Options& op) {
  bool th = op.thorough();
  std::vector<mc::Space> v;
  static const std::vector<std::string> bodies = {"*", "m", "n.m", "m.m.m"};
  v.push_back({"values", "every one of " + num(values().size()) + " values of the 10 kinds for each of " + num(fields().size()) + " fields: in the root, in an inner message, in an element of a repeated message, alone or in a list, as the whole body at the field's path; unary and streaming (twice), 4 body paths, bound or not, enum names in any case or not, delimited or not",
               values().size(), [=](T& t, uint64_t u) {
                 ct::world();
                 const Value& x = values()[u];
                 for (auto& f : fields())
                   for (int flags = 0; flags < 8; flags += kSan ? 7 : 1) {
                     Rule r{"", (flags & 1) && f != "fooBar", !!(flags & 2), !!(flags & 4)};
                     auto all = [&](const Events& e) {
                       for (int often = 0; often < 2; ++often) {
                         unary_case(t, r, e, often);
                         Events s = {ev(kList)};
                         for (int k = 0; k < 2; ++k) s.insert(s.end(), e.begin(), e.end());
                         s.push_back(ev(kEndList));
                         stream_case(t, r, s, often);
                       }
                     };
                     for (auto& b : bodies) {
                       r.body = b;
                       all({ev(kObj), ev(kVal, f, x), ev(kEndObj)});
                       all({ev(kObj), ev(kObj, "m"), ev(kVal, f, x), ev(kEndObj), ev(kEndObj)});
                       all({ev(kObj), ev(kList, "rm"), ev(kObj), ev(kVal, f, x), ev(kEndObj), ev(kEndList), ev(kEndObj)});
                       all({ev(kObj), ev(kList, f), ev(kVal, "", x), ev(kVal, "", x), ev(kEndList), ev(kEndObj)});
                     }
                     if (f == "x") continue;
                     for (const char* p : {"", "m.", "n.m."}) {
                       r.body = p + f;
                       all({ev(kVal, "", x)});
                       all({ev(kList), ev(kVal, "", x), ev(kEndList)});
                     }
                   }
                 // in the wrong place
                 for (int poll = 0; poll < 2; ++poll) {
                   Rule r{"*", false, false, false};
                   Event e = ev(kVal, "s", x);
                   stream_case(t, r, {e, ev(kList), ev(kObj), ev(kEndObj), ev(kEndList)}, poll);
                   stream_case(t, r, {ev(kList), ev(kObj), ev(kEndObj), ev(kEndList), e}, poll);
                   stream_case(t, r, {ev(kList), ev(kObj), ev(kEndObj), ev(kEndObj), e, ev(kObj), e, ev(kEndObj)}, poll);
                   stream_case(t, r, {ev(kList), ev(kObj), ev(kVal, "i", Value::Str("x")), e, ev(kEndObj), e, ev(kObj), ev(kEndObj), ev(kEndList), e}, poll);
                 }
               }});
  static const std::vector<Rule> rules = {{"*", false, false, false}, {"*", true, false, true}, {"m", false, false, true}, {"n.m", true, false, false}, {"s", false, false, false}, {"r", true, false, false}, {"m.rm", false, false, false}};
  int len = kSan ? 7 : th ? 10 : 9;
  v.push_back({"sequences", "every sequence of at most " + num(len) + " events (at most 3 after the first one out of place; members: an inner message, a list, a good, a bad and an unknown value; elements: objects, lists, a value, null), with ends too many, a body that is no list and events after the end, for 7 rules; asked after every event or at the end",
               rules.size() * 2 * 36, [=](T& t, uint64_t u) {
                 ct::world();
                 const Rule& r = rules[u % rules.size()];
                 bool often = u / rules.size() % 2;
                 size_t part = u / rules.size() / 2;
                 bool objects = r.body == "*" && r.bound;  // what a binding does beside a root that is no object is not promised
                 Events e;
                 std::vector<int> open;
                 std::function<void(bool, int)> go = [&](bool after, int wrong) {  // wrong: events since the first one out of place
                   if (wrong > 3) return;
                   if (e.size() >= 3 || part == 0) {
                     bool whole = open.empty() || (int)e.size() == len;
                     if (often ? whole : true) stream_case(t, r, e, often);
                   }
                   if ((int)e.size() == len) return;
                   std::vector<Event> n = next(open, r, after, objects);
                   for (size_t k = 0; k < n.size(); ++k) {
                     if (e.size() == 1 && part / 6 != k) continue;
                     if (e.size() == 2 && part % 6 != k) continue;
                     e.push_back(n[k]);
                     std::vector<int> was = open;
                     bool aft = after;
                     bool bad = (open.empty() && (n[k].op != kList || after)) || (open.size() == 1 && n[k].op == kEndObj);
                     if (n[k].op == kObj || n[k].op == kList) {
                       if (!(open.empty() && n[k].op == kObj)) open.push_back(n[k].op);
                     } else if (n[k].op != kVal && !open.empty() && open.back() == (n[k].op == kEndObj ? kObj : kList)) {
                       open.pop_back();
                       if (open.empty()) aft = true;
                     }
                     go(aft, wrong ? wrong + 1 : bad);
                     open = was;
                     e.pop_back();
                   }
                 };
                 go(false, 0);
               }});
  int nodes = kSan ? 3 : th ? 5 : 4;
  static const std::vector<Node> members = {V("s", Value::Str("a")), V("i", Value::Str("x")), V("x", Value::Null()), O("m"), O("x"), L("r"), L("rm")}, in_list = {V("", Value::Str("a")), O(""), L("")};
  v.push_back({"bodies", "every body of at most " + num(nodes) + " nodes of 7 kinds of members (objects, lists, unknown ones), unary and as both elements of a stream, 7 rules, asked often or not", rules.size() * (nodes + 1) * 2, [=](T& t, uint64_t u) {
                 ct::world();
                 const Rule& r = rules[u / 2 % rules.size()];
                 bool often = u & 1;
                 std::vector<Node> cur;
                 forests(u / 2 / rules.size(), false, 0, [](int, bool l) -> const std::vector<Node>& { return l ? in_list : members; }, cur, [&](const std::vector<Node>& kids) {
                   Node root = O("");
                   root.kids = kids;
                   Events e, s = {ev(kList)};
                   emit(root, &e);
                   unary_case(t, r, e, often);
                   emit(root, &s), emit(root, &s), s.push_back(ev(kEndList));
                   stream_case(t, r, s, often);
                 });
               }});
  return v;
}
}  // namespace
int main(int c, char** v) { return mc::Main(c, v, spaces); }
