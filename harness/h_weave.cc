// C22, C23, C24: RequestWeaver and PrefixWriter as transformers of event sequences.
#include <float.h>
#include <math.h>

#include <map>
#include <set>

#include "bridge.h"
#include "conv.h"
#include "google/protobuf/type.pb.h"
#include "grpc_transcoding/prefix_writer.h"
#include "grpc_transcoding/request_weaver.h"
#include "grpc_transcoding/status_error_listener.h"

namespace gt = google::grpc::transcoding;
using namespace conv;
using mc::T;

namespace {
#ifdef MC_SAN
const bool kSan = true;
#else
const bool kSan = false;
#endif

// ---- fields
const pb::Field* field(const std::string& name) {  // the names of the pools: r... repeated, m... message, others scalar
  static std::map<std::string, std::unique_ptr<pb::Field>> all;
  auto& f = all[name];
  if (!f) {
    f.reset(new pb::Field);
    f->set_name(name);
    std::string j;  // the JSON name: x_y is xY
    for (size_t i = 0; i < name.size(); ++i) j += name[i] == '_' && i + 1 < name.size() ? (char)toupper(name[++i]) : name[i];
    f->set_json_name(j);
    f->set_kind(name[0] == 'm' ? pb::Field::TYPE_MESSAGE : pb::Field::TYPE_STRING);
    f->set_cardinality(name[0] == 'r' ? pb::Field::CARDINALITY_REPEATED : pb::Field::CARDINALITY_OPTIONAL);
    if (name[0] == 'm') f->set_type_url("type.googleapis.com/M");
  }
  return f.get();
}
std::vector<const pb::Field*> path_of(const std::string& p) {
  std::vector<const pb::Field*> v;
  std::string cur;
  for (char c : p + ".") {
    if (c == '.') {
      if (!cur.empty()) v.push_back(field(cur));
      cur.clear();
    } else {
      cur += c;
    }
  }
  return v;
}
std::string canon(const std::string& name) {  // either name of a field -> its proto name
  std::string o;
  for (char c : name) o += isupper((unsigned char)c) ? std::string("_") + (char)tolower(c) : std::string(1, c);
  return o;
}
struct B {
  std::string path, value;
};
bool repeated(const B& b) { return b.path[b.path.rfind('.') + 1] == 'r'; }
std::string show(const std::vector<B>& bs) {
  std::string o;
  for (auto& b : bs) o += b.path + "=" + mc::q(b.value) + " ";
  return o;
}
std::vector<gt::RequestWeaver::BindingInfo> infos(const std::vector<B>& bs) {
  std::vector<gt::RequestWeaver::BindingInfo> v;
  for (auto& b : bs) {
    gt::RequestWeaver::BindingInfo i;
    i.field_path = path_of(b.path);
    i.value = b.value;
    v.push_back(std::move(i));
  }
  return v;
}

// ---- C22: what the output may be, given body and bindings
struct Judge {
  const std::vector<B>& bs;
  std::vector<int> count;
  std::vector<uint64_t> at;                        // when it was written
  std::vector<std::vector<uint64_t>> set;          // when the body set the binding's singular field
  std::string err;
  uint64_t now = 0;
  explicit Judge(const std::vector<B>& b) : bs(b), count(b.size(), 0), at(b.size(), 0), set(b.size()) {}

  bool bad(const std::string& e) {
    if (err.empty()) err = e;
    return false;
  }
  bool same(const Node& b, const Node& o) {  // nothing may change
    ++now;
    if (b.op != o.op || b.name != o.name || (b.op == kVal && !(b.v == o.v)) || b.kids.size() != o.kids.size()) return bad("a part of the body that no binding concerns was changed");
    for (size_t i = 0; i < b.kids.size(); ++i)
      if (!same(b.kids[i], o.kids[i])) return false;
    return true;
  }
  bool inserted(const Node& o, const std::string& prefix) {
    ++now;
    std::string p = prefix + "." + canon(o.name);
    if (o.op == kVal) {
      for (size_t i = 0; i < bs.size(); ++i)
        if (o.v.kind == kString && o.v.s == bs[i].value) {
          if (p != "." + bs[i].path) return bad("binding " + bs[i].path + " was written at " + p);
          ++count[i];
          at[i] = now;
          return true;
        }
      return bad("something that is neither of the body nor a binding was written: " + mc::q(p) + "=" + o.v.show());
    }
    if (o.op == kList) return bad("a list was invented: " + p);
    if (o.kids.empty()) return bad("an empty object was invented: " + p);
    return members({}, o.kids, p);
  }
  bool members(const std::vector<Node>& b, const std::vector<Node>& o, const std::string& prefix) {
    std::set<std::string> objs;
    for (auto& x : b)
      if (x.op == kObj) objs.insert(canon(x.name));
    size_t i = 0;
    for (auto& y : o) {
      if (i < b.size() && b[i].op == y.op && b[i].name == y.name && (y.op != kVal || b[i].v == y.v)) {
        std::string p = prefix + "." + canon(y.name);
        if (y.op == kObj) {
          ++now;
          if (!members(b[i].kids, y.kids, p)) return false;
        } else {
          if (!same(b[i], y)) return false;
          if (y.op == kVal && y.v.kind != kNull)
            for (size_t k = 0; k < bs.size(); ++k)
              if ("." + bs[k].path == p) set[k].push_back(now);
        }
        ++i;
      } else {
        if (y.op == kObj && !objs.insert(canon(y.name)).second) return bad("a second object " + mc::q(y.name) + " was made in " + mc::q(prefix));
        if (!inserted(y, prefix)) return false;
      }
    }
    if (i != b.size()) return bad("the body's " + mc::q(b[i].name) + " in " + mc::q(prefix) + " is missing or out of order");
    ++now;
    return true;
  }
  bool judge(const Node& body, const Events& out) {
    Node o;
    if (!parse(out, &o)) return bad("the events are not well-formed");
    if (o.op != kObj || !o.name.empty()) return bad("the outermost object was changed");
    if (!members(body.kids, o.kids, "")) return false;
    for (size_t i = 0; i < bs.size(); ++i) {
      if (bs[i].path.empty()) {
        if (count[i]) return bad("a binding to no field was written");
        continue;
      }
      if (count[i] > 1) return bad("binding " + bs[i].path + " was written " + num(count[i]) + " times");
      if (repeated(bs[i]) || set[i].empty()) {
        if (count[i] != 1) return bad("binding " + bs[i].path + " was not written");
      } else if (count[i] && at[i] > set[i][0]) {
        return bad("binding " + bs[i].path + " was written after the body had set the field");
      } else if (count[i] && whole(body, bs[i].path)) {
        return bad("binding " + bs[i].path + " was written although the body sets the field");
      }
      for (size_t k = 0; k < i; ++k)
        if (bs[k].path == bs[i].path && count[k] && count[i] && at[k] > at[i]) return bad("the bindings of " + bs[i].path + " were written out of order");
    }
    return true;
  }
  // Does every occurrence of the message that the path names set the field?
  static bool whole(const Node& obj, const std::string& p) {
    size_t dot = p.find('.');
    if (dot == std::string::npos) {
      for (auto& k : obj.kids)
        if (k.op == kVal && k.v.kind != kNull && canon(k.name) == p) return true;
      return false;
    }
    bool any = false;
    for (auto& k : obj.kids)
      if (k.op == kObj && canon(k.name) == p.substr(0, dot)) {
        any = true;
        if (!whole(k, p.substr(dot + 1))) return false;
      }
    return any;
  }
};

uint64_t hash_events(const Events& e) {
  uint64_t h = 7;
  for (auto& x : e) h = mc::comb(h, mc::hash(x.name, x.op * 31 + x.v.kind * 7 + x.v.i) ^ mc::hash(x.v.s));
  return h;
}

void weave_case(T& t, const std::vector<B>& bs, const std::vector<Node>& kids, bool report) {
  if (!t.begin([&] {
        Node body = O("");
        body.kids = kids;
        Events e;
        emit(body, &e);
        return "bindings: " + show(bs) + "; body: " + conv::show(e) + (report ? "; collisions reported" : "");
      }))
    return;
  Node body = O("");
  body.kids = kids;
  Events e;
  emit(body, &e);
  Recorder rec;
  gt::StatusErrorListener el;
  gt::RequestWeaver w(infos(bs), &rec, &el, report);
  for (auto& x : e) play(x, &w);
  t.step(e.size());
  Judge j(bs);
  bool ok = j.judge(body, rec.ev);
  t.check(ok, [&] { return j.err + "\n  output: " + conv::show(rec.ev); });
  if (!report) t.check(el.status().ok() && w.Status().ok(), [&] { return "an error was reported: " + el.status().ToString(); });
  t.state(hash_events(rec.ev));
}

const std::vector<std::string>& paths() {
  static const std::vector<std::string> v = {"a", "r", "m.a", "m.r", "mm.a", "m.m.a", "m.mm.r"};
  return v;
}
// Every sequence of at most n bindings.
std::vector<std::vector<B>> sequences(const std::vector<std::string>& ps, int n, bool exact = false) {
  std::vector<std::vector<B>> out{{}}, last{{}};
  for (int i = 0; i < n; ++i) {
    std::vector<std::vector<B>> next;
    for (auto& s : last)
      for (auto& p : ps) {
        next.push_back(s);
        next.back().push_back({p, "v" + std::to_string(i)});
      }
    last = next;
    if (exact) out.clear();
    out.insert(out.end(), next.begin(), next.end());
  }
  return out;
}
const std::vector<Node>& members_full(int, bool in_list) {
  static const std::vector<Node> obj = {V("a", Value::Str("b1")), V("r", Value::Str("b2")), V("a", Value::Null()), O("m"), O("mm"), L("r"), L("m")};
  static const std::vector<Node> lst = {V("", Value::Str("b3")), O(""), L("")};
  return in_list ? lst : obj;
}
const std::vector<Node>& members_deep(int depth, bool in_list) {  // few labels, deeper trees
  static const std::vector<Node> obj = {V("a", Value::Str("b1")), O("m"), O("mm"), L("m")};
  static const std::vector<Node> lst = {O("")};
  return in_list ? lst : obj;
}
const std::vector<Node>& members_odd(int depth, bool in_list) {  // the body disagrees with the types
  static const std::vector<Node> obj = {V("m", Value::Str("b1")), O("a"), O("r"), L("a"), L("r"), O("m"), V("a", Value::Of(kInt64, 3)), V("", Value::Str("e")), O("")};
  static const std::vector<Node> lst = {V("", Value::Null()), O(""), L(""), V("a", Value::Str("q"))};
  return in_list ? lst : obj;
}
const std::vector<Node>& members_json(int, bool in_list) {  // proto and JSON names
  static const std::vector<Node> obj = {V("x_y", Value::Str("b1")), V("xY", Value::Str("b2")), V("rY", Value::Str("b3")), V("xY", Value::Null()), O("m_x"), O("mX"), L("rY")};
  static const std::vector<Node> lst = {V("", Value::Str("b4")), O("")};
  return in_list ? lst : obj;
}
mc::Space weave_space(const std::string& name, const std::string& what, const std::vector<std::vector<B>>& seqs, int n, Lab lab, bool reports) {
  auto sq = std::make_shared<std::vector<std::vector<B>>>(seqs);
  return {name, what + ", bodies of up to " + num(n) + " nodes, " + num(seqs.size()) + " binding sequences", seqs.size() * (uint64_t)(n + 1),
          [=](T& t, uint64_t u) {
            int size = n - (int)(u / sq->size());
            auto& bs = (*sq)[u % sq->size()];
            std::vector<Node> cur;
            forests(size, false, 0, lab, cur, [&](const std::vector<Node>& kids) {
              weave_case(t, bs, kids, false);
              if (reports) weave_case(t, bs, kids, true);
            });
          }};
}

// every kind of scalar at every place, against a binding to it
mc::Space kinds_space() {
  return {"kinds", "every kind of scalar in the body, of a singular and of a repeated field, in the root, in a message, in an object that no binding names and in a list, with bindings before and after it", kKinds * 4ull,
          [](T& t, uint64_t u) {
            int k = u / 4, where = u % 4;
            for (const char* f : {"a", "r", "ab", "b"})
              for (auto& bs : sequences({"a", "r", "m.a", "m.r", "ab", ""}, kSan ? 2 : 3))
                for (int rep = 0; rep < 2; ++rep) {
                  std::vector<Node> kids;
                  Node v = V(f, Value::Of(k, 3));
                  if (where == 0) {
                    kids = {v, V("z", Value::Str("z"))};
                  } else if (where == 1) {
                    Node m = O("m");
                    m.kids = {V("z", Value::Null()), v};
                    kids = {m, v};
                  } else if (where == 2) {
                    Node m = O("x");
                    m.kids = {v, O("m")};
                    m.kids[1].kids = {v};
                    kids = {m};
                  } else {
                    Node l = L("m");
                    l.kids = {O(""), V("", v.v)};
                    l.kids[0].kids = {v, O("m")};
                    kids = {l, v};
                  }
                  weave_case(t, bs, kids, rep);
                }
          }};
}
// ---- C23
// Must a conflict be reported? 1 yes, 0 no, -1 within the tolerance: not judged.
int conflict(const Value& body, const std::string& text) {
  bridge::Piece p;
  p.type = 9;
  p.s = text;
  p.strict = true;
  switch (body.kind) {
    case kInt32: {
      int32_t x;
      return bridge::PieceTo(p, &x).code || x != (int32_t)body.i;
    }
    case kUint32: {
      uint32_t x;
      return bridge::PieceTo(p, &x).code || x != (uint32_t)body.u;
    }
    case kInt64: {
      int64_t x;
      return bridge::PieceTo(p, &x).code || x != body.i;
    }
    case kUint64: {
      uint64_t x;
      return bridge::PieceTo(p, &x).code || x != body.u;
    }
    case kBool: {
      bool x;
      return bridge::PieceTo(p, &x).code || x != body.b;
    }
    case kDouble: case kFloat: {
      double x, y = body.d;
      if (body.kind == kFloat) {
        float f;
        if (bridge::PieceTo(p, &f).code) return 1;
        x = f;
        y = (float)body.d;
      } else if (bridge::PieceTo(p, &x).code) {
        return 1;
      }
      if (isnan(x) || isnan(y)) return -1;
      if (x == y) return 0;
      double d = fabs(x - y);
      if (d >= 64 * FLT_EPSILON) return 1;  // infinite too
      if (d <= 16 * FLT_EPSILON) return 0;
      return -1;
    }
    case kString: case kBytes: return text != body.s;
    default: return 0;
  }
}
// Where the body holds the value (the names on the way, [] a list element) and which field the bindings name.
struct Place {
  const char* binding;
  const char* body;
  bool same;  // is it the field of the bindings?
  const char* what;
};
const std::vector<Place>& places() {
  static const std::vector<Place> v = {
      {"a", "a", true, ""},
      {"m.a", "m.a", true, " inside m"},
      {"a", "+a", true, " among others"},
      {"r", "r", false, " of a repeated field"},
      {"a", "x.a", false, " inside an object without bindings"},
      {"a", "ab", false, " of another field"},
      {"x_y", "xY", true, " by its JSON name"},
      {"x_y", "x_y", true, " by its proto name, which is not its JSON name"},
      {"m.x_y", "m.xY", true, " by its JSON name"},
      {"m.x_y", "m.x_y", true, " by its proto name, which is not its JSON name"},
      {"m_z.a", "mZ.a", true, " in a message by its JSON name"},
      {"m_z.a", "m_z.a", true, " in a message by its proto name"},
      {"m.m.a", "m.m.a", true, " two messages deep"},
      {"m.m_z.x_y", "m.mZ.xY", true, " three deep by JSON names"},
      {"m.a", "a", false, " of the same name further out"},
      {"a", "m.a", false, " of the same name further in"},
      {"m.m.a", "m.a", false, " of the same name one further out"},
      {"m.m.a", "m.+a", false, " of the same name one further out, after the message"},
      {"a", "z[].a", false, " in a list"},
      {"a", "z[][].a", false, " in a list of lists"},
      {"m.a", "m[].a", false, " in a list of the same name"},
      {"a", "z.z.z.a", false, " deep in an unknown member"},
      {"m.a", "m.+a", true, " in m after other members"},
      {"m.a", "+m.+a", true, " in m among others after other members"},
  };
  return v;
}
void collision_case(T& t, const Value& body, const std::vector<std::string>& texts, int place, bool report) {
  const Place& pl = places()[place];
  std::string path = pl.binding;
  if (!t.begin([&] {
        std::string o = "body " + std::string(pl.body) + " = " + body.show() + ", bindings of " + path;
        for (auto& x : texts) o += " " + mc::q(x);
        return o + pl.what + (report ? ", collisions reported" : "");
      }))
    return;
  bool others = strchr(pl.body, '+');
  std::vector<B> bs;
  if (others) bs.push_back({"ab", "1"});
  for (auto& x : texts) bs.push_back({path, x});
  if (others) bs.push_back({"m.ac", "other"});
  Node root = O("");
  Node* at = &root;
  std::string name;
  auto add = [&](Node n) {
    at->kids.push_back(n);
    at = &at->kids.back();
  };
  for (const char* c = pl.body;; ++c) {
    if (*c == '+') {  // other members before it
      at->kids.push_back(V("z", Value::Str("zz")));
      Node o = O("m");
      o.kids = {V("z", Value::Null()), O("x")};
      at->kids.push_back(o);
      Node l = L("z");
      l.kids = {V("", Value::Str("zz")), O(""), L("")};
      at->kids.push_back(l);
      at->kids.push_back(V("b", Value::Null()));
    } else if (*c == '.') {
      add(O(name));
      name.clear();
    } else if (*c == '[') {
      add(L(name));
      name.clear();
      ++c;
    } else if (!*c) {
      at->kids.push_back(V(name, body));
      break;
    } else {
      name += *c;
    }
  }
  if (others) {
    root.kids.push_back(V("ab", Value::Null()));
    root.kids.push_back(O("m"));
  }
  Events e;
  emit(root, &e);
  Recorder rec;
  gt::StatusErrorListener el;
  gt::RequestWeaver w(infos(bs), &rec, &el, report);
  int want = 0;
  if (report && pl.same)
    for (auto& x : texts) {
      int c = conflict(body, x);
      if (c == 1) want = 1;
      if (c == -1 && want == 0) want = -1;
    }
  for (auto& x : e) play(x, &w);
  t.step(e.size());
  bool got = !el.status().ok();
  t.check(w.Status() == el.status(), [] { return std::string("Status() differs from the listener's"); });
  if (want >= 0) t.check(got == (want == 1), [&] { return std::string(want ? "a conflict was not reported" : "a conflict was reported: ") + el.status().ToString(); });
  if (got) t.check(el.status().code() == absl::StatusCode::kInvalidArgument, [&] { return "reported as " + el.status().ToString(); });
  t.state(mc::comb(got, mc::comb(body.kind, place)));
}

std::vector<int64_t> ints(bool full) {  // powers of two and their neighbours
  std::set<int64_t> s;
  for (int k = 0; k < 63; ++k)
    for (int d = -1; d <= 1; ++d) {
      if (!full && !(k <= 2 || (k >= 7 && k <= 8) || (k >= 15 && k <= 16) || (k >= 31 && k <= 33) || k >= 62)) continue;
      s.insert((1ll << k) + d);
      s.insert(-(1ll << k) + d);
    }
  s.insert(INT64_MAX);
  s.insert(INT64_MIN);
  s.insert(INT64_MIN + 1);
  return std::vector<int64_t>(s.begin(), s.end());
}
std::vector<Value> bodies(int kind, bool full) {
  std::vector<Value> v;
  auto add = [&](int64_t i, uint64_t u, double d, const std::string& s, bool b) {
    Value x;
    x.kind = kind;
    x.i = i;
    x.u = u;
    x.d = d;
    x.s = s;
    x.b = b;
    v.push_back(x);
  };
  switch (kind) {
    case kBool: add(0, 0, 0, "", false); add(0, 0, 0, "", true); break;
    case kInt32:
      for (auto i : ints(full)) if (i >= INT32_MIN && i <= INT32_MAX) add(i, 0, 0, "", 0);
      break;
    case kUint32:
      for (auto i : ints(full)) if (i >= 0 && i <= UINT32_MAX) add(0, i, 0, "", 0);
      break;
    case kInt64:
      for (auto i : ints(full)) add(i, 0, 0, "", 0);
      break;
    case kUint64:
      for (auto i : ints(full)) add(0, (uint64_t)i, 0, "", 0);
      break;
    case kDouble:
      for (double d : {0.0, -0.0, 1.0, -1.0, 0.5, 1e-300, 1e-7, 3e-7, 1.0001, 1.00000001, 16777216.0, 16777217.0, 16777216.5, 16777217.5, 9007199254740992.0, 9007199254740993.0, 1e15, 1e15 + 1, 1e30, 1.0000001e30, 3.4028234663852886e38, 3.5e38, 1e39, 2e39, -1e39, 1e300, 1.7976931348623157e308, -1.7976931348623157e308, (double)INFINITY, -(double)INFINITY, 123.456, 123.4561})
        add(0, 0, d, "", 0);
      break;
    case kFloat:
      for (double d : {0.0, -0.0, 1.0, -1.0, 0.5, 1e-30, 1e-7, 3e-7, 1.0001, 16777216.0, 16777218.0, 1e15, 1e30, 1.0000001e30, 3.4028234663852886e38, -3.4028234663852886e38, (double)INFINITY, -(double)INFINITY, 123.456, 123.4561})
        add(0, 0, (float)d, "", 0);
      break;
    default:
      for (auto s : {"", "a", "A", "ab", "a b", " a", "a ", "0", "1", "true", "null", "YQ==", "YQ", "\xc3\xa9", "a/b", "a%20b", "%", "-1", "1.0", "1e3"}) add(0, 0, 0, s, 0);
      add(0, 0, 0, std::string("a\0b", 3), 0);
      add(0, 0, 0, std::string("a\0", 2), 0);
      break;
  }
  return v;
}
std::vector<std::string> texts(bool full) {
  std::vector<std::string> v = {"",   " ",   "a",  "A",    "ab",   "a b", " a",  "a ",   "0",   "-0",  "00", "01",  "+1",   " 1",    "1 ",    "1.0", "1.5",  "0.5",  "1e3", "1000", "0x1", "true", "false", "True", "TRUE", "t", "null", "NaN", "Infinity", "-Infinity", "inf", "1_000",
                                "1,0", "--1", "1a", "YQ==", "YQ", "\xc3\xa9", "a/b", "a%20b", "%", "1e-300", "1e-7", "3e-7", "1.0001", "1.00000001", "16777216.5", "16777217.5", "1e15", "1e30", "1.0000001e30", "3.4028234663852886e38", "3.5e38", "1e39", "2e39", "-1e39",
                                "1e300", "1.7976931348623157e308", "-1.7976931348623157e308", "1e309", "123.456", "123.4561", "18446744073709551616", "-9223372036854775809", "99999999999999999999999", std::string("a\0b", 3), std::string("a\0", 2), "1\n"};
  for (auto i : ints(full)) v.push_back(std::to_string(i));
  for (auto i : ints(full)) if (i < 0) v.push_back(std::to_string((uint64_t)i));
  return v;
}
mc::Space collide_space(bool full) {
  auto ks = std::make_shared<std::vector<std::pair<int, Value>>>();
  for (int k = 0; k < kKinds; ++k)
    for (auto& v : bodies(k, full)) ks->push_back({k, v});
  auto tx = std::make_shared<std::vector<std::string>>(texts(full));
  return {"collide", "every body value of every kind (boundaries of every width, " + num(ks->size()) + ") against every binding text (" + num(tx->size()) + "), collisions reported and not, in the root and in a message", ks->size(), [=](T& t, uint64_t u) {
            for (auto& x : *tx)
              for (int place = 0; place < 2; ++place)
                for (int rep = 0; rep < 2; ++rep) {
                  if (full && place == 1 && rep == 0) continue;
                  collision_case(t, (*ks)[u].second, {x}, place, rep);
                }
          }};
}
mc::Space collide_pairs() {
  auto ks = std::make_shared<std::vector<Value>>();
  for (int k = 0; k < kKinds; ++k) {
    auto b = bodies(k, false);
    for (size_t i = 0; i < b.size(); i += b.size() / 7 + 1) ks->push_back(b[i]);
  }
  static const std::vector<std::string> tx = {"0", "1", "-1", "a", "", "true", "false", "4294967296", "4294967297", "0.5", "1e39", "x y", "123.456"};
  return {"several", "one or two bindings of the same field, in " + num(places().size()) + " places: root, messages up to three deep, among others, by either name, repeated field, the same name further in, further out, in lists and in unknown members", ks->size(), [=](T& t, uint64_t u) {
            for (auto& x : tx)
              for (int place = 0; place < (int)places().size(); ++place)
                for (int rep = 0; rep < 2; ++rep) {
                  collision_case(t, (*ks)[u], {x}, place, rep);
                  for (auto& y : tx) collision_case(t, (*ks)[u], {x, y}, place, rep);
                }
          }};
}
// Bodies that set a field any number of times, in any number of occurrences of the message that holds it.
void found(const Node& obj, const std::string& p, std::vector<const Value*>* out) {
  size_t dot = p.find('.');
  for (auto& k : obj.kids) {
    if (canon(k.name) != p.substr(0, dot)) continue;
    if (dot == std::string::npos) {
      if (k.op == kVal && k.v.kind != kNull) out->push_back(&k.v);
    } else if (k.op == kObj) {
      found(k, p.substr(dot + 1), out);
    }
  }
}
void body_case(T& t, const std::vector<B>& bs, const std::vector<Node>& kids, bool report) {
  Node body = O("");
  body.kids = kids;
  Events e;
  emit(body, &e);
  if (!t.begin([&] { return "bindings: " + show(bs) + "; body: " + conv::show(e) + (report ? "; collisions reported" : ""); })) return;
  Recorder rec;
  gt::StatusErrorListener el;
  gt::RequestWeaver w(infos(bs), &rec, &el, report);
  for (auto& x : e) play(x, &w);
  t.step(e.size());
  bool want = false;
  if (report)
    for (auto& b : bs) {
      std::vector<const Value*> vs;
      found(body, b.path, &vs);
      if (repeated(b)) continue;
      for (auto* v : vs) want |= v->s != b.value;
    }
  bool got = !el.status().ok();
  t.check(got == want, [&] { return std::string(want ? "a conflict was not reported" : "a conflict was reported: " + el.status().ToString()); });
  t.state(mc::comb(hash_events(rec.ev), got));
}
const std::vector<Node>& members_collide(int, bool in_list) {
  static const std::vector<Node> obj = {V("a", Value::Str("v")), V("a", Value::Str("x")), O("m"), V("x_y", Value::Str("v")), V("xY", Value::Str("x")), V("a", Value::Null()), L("m"), V("r", Value::Str("x"))};
  static const std::vector<Node> lst = {O("")};
  return in_list ? lst : obj;
}
mc::Space collide_bodies(int n) {
  static const std::vector<std::vector<B>> sq = {{{"a", "v"}}, {{"m.a", "v"}}, {{"x_y", "v"}}, {{"m.x_y", "v"}}, {{"m.m.a", "v"}}, {{"r", "v"}}, {{"a", "v"}, {"m.a", "v"}}, {{"a", "v"}, {"a", "x"}}, {{"a", "v"}, {"a", "v"}, {"m.r", "v"}}, {{"m.a", "v"}, {"m.m.a", "x"}}, {{"m.m.a", "v"}, {"m.m.x_y", "v"}, {"r", "v"}}, {{"a", "v"}, {"x_y", "x"}}};
  return {"bodies", "every body of up to " + num(n) + " nodes that sets singular fields to the value of the binding or another one any number of times, in objects that may occur several times, with nulls, lists and repeated fields, against " + num(sq.size()) + " binding sequences", sq.size() * (uint64_t)(n + 1),
          [=](T& t, uint64_t u) {
            std::vector<Node> cur;
            forests(n - (int)(u / sq.size()), false, 0, members_collide, cur, [&](const std::vector<Node>& kids) {
              body_case(t, sq[u % sq.size()], kids, true);
              body_case(t, sq[u % sq.size()], kids, false);
            });
          }};
}

// every short string pair, as strings and as numbers
mc::Space collide_strings(int len) {
  static const char al[] = {'0', '1', '-', 'a', ' ', '.'};
  auto all = std::make_shared<std::vector<std::string>>();
  all->push_back("");
  for (size_t i = 0; i < all->size(); ++i)
    if ((int)(*all)[i].size() < len)
      for (char c : al) all->push_back((*all)[i] + c);
  return {"strings", "every two strings of up to " + num(len) + " bytes over \"01-a .\" as body and binding, and as binding of every kind of number", all->size(), [=](T& t, uint64_t u) {
            for (auto& x : *all) {
              collision_case(t, Value::Str((*all)[u]), {x}, 0, true);
            }
            for (int k : {kBool, kInt32, kUint32, kInt64, kUint64, kDouble, kFloat})
              for (int64_t i : {0, 1, -1, 10, 11}) {
                if (i < 0 && (k == kUint32 || k == kUint64)) continue;
                Value v;
                v.kind = k;
                v.b = i == 1;
                v.i = i;
                v.u = i;
                v.d = i;
                collision_case(t, v, {(*all)[u]}, 0, true);
                collision_case(t, v, {(*all)[u]}, 0, false);
              }
          }};
}

// ---- C24
void prefix_case(T& t, const std::string& prefix, const std::vector<Node>& values) {
  if (!t.begin([&] {
        Events e;
        for (auto& v : values) emit(v, &e);
        return "prefix " + mc::q(prefix) + "; values: " + conv::show(e);
      }))
    return;
  std::vector<std::string> names;
  std::string cur;
  for (char c : prefix + ".") {
    if (c == '.') {
      if (!cur.empty()) names.push_back(cur);
      cur.clear();
    } else {
      cur += c;
    }
  }
  Recorder rec;
  gt::PrefixWriter w(prefix, &rec);
  Events want;
  for (auto& v : values) {
    // opened
    std::string name = v.name;
    for (auto& n : names) {
      want.push_back({kObj, name, Value()});
      name = n;
    }
    Node x = v;
    x.name = name;
    emit(x, &want);
    for (size_t i = 0; i < names.size(); ++i) want.push_back({kEndObj, "", Value()});
    Events e;
    emit(v, &e);
    for (auto& y : e) {
      play(y, &w);
      t.step();
    }
    t.check(rec.ev == want, [&] { return "wrote " + conv::show(rec.ev) + "\n  expected " + conv::show(want); });
  }
  t.state(hash_events(rec.ev));
}
const std::vector<std::string>& prefixes() {
  static const std::vector<std::string> v = {"", "x", "x.y", "x.x", "x.y.z", ".", "..", ".x", "x.", "x..y", "long_name.y", "a", "x.a", "*", "a.b.c.d.e", " ", "x y.z"};
  return v;
}
const std::vector<Node>& members_prefix(int depth, bool in_list) {
  static const std::vector<Node> root = {V("", Value::Str("s")), O(""), L(""), V("x", Value::Of(kInt64, 4)), O("x"), L("a")};
  static const std::vector<Node> obj = {V("x", Value::Str("s")), O("x"), L("a"), V("", Value::Null()), O("")};
  static const std::vector<Node> lst = {V("", Value::Str("s")), O(""), L("")};
  return depth == 0 ? root : in_list ? lst : obj;
}
mc::Space prefix_space(int n) {
  return {"prefixes", "sequences of top-level values with up to " + num(n) + " nodes in all, under " + num(prefixes().size()) + " prefixes", prefixes().size() * (uint64_t)n, [=](T& t, uint64_t u) {
            int size = n - (int)(u / prefixes().size());
            std::vector<Node> cur;
            forests(size, false, 0, members_prefix, cur, [&](const std::vector<Node>& v) { prefix_case(t, prefixes()[u % prefixes().size()], v); });
          }};
}
mc::Space prefix_kinds() {
  return {"prefix_kinds", "every kind of scalar as a top-level value, as a member and as an element, two values in a row", prefixes().size() * kKinds, [](T& t, uint64_t u) {
            auto& p = prefixes()[u / kKinds];
            int k = u % kKinds;
            for (int64_t x : {0ll, 1ll, -1ll, 2147483647ll, -2147483648ll}) {
              if (x < 0 && (k == kUint32 || k == kUint64)) continue;
              Value v = Value::Of(k, x);
              for (auto name : {"", "n", "x"}) {
                Node o = O(name), l = L(name), d = O("");
                o.kids = {V("m", v), V("x", v)};
                l.kids = {V("", v), V("", v)};
                d.kids = {l, o};
                for (int k2 = 0; k2 < kKinds; ++k2) {
                  Value v2 = Value::Of(k2, 1);
                  prefix_case(t, p, {V(name, v), V("q", v2)});
                  prefix_case(t, p, {o, V(name, v2), l});
                }
                prefix_case(t, p, {d, V(name, v), d});
              }
            }
          }};
}
// deep nesting: no limit on depth, the counter comes back to 0
mc::Space prefix_deep() {
  return {"prefix_deep", "values nested up to 300 deep in every alternation pattern of objects and lists of period 3, then a scalar", 8, [](T& t, uint64_t u) {
            for (auto& p : prefixes())
              for (int depth : {1, 2, 3, 4, 7, 8, 31, 32, 33, 100, 255, 256, 257, 300}) {
                Node n = V("", Value::Str("core"));
                for (int i = 0; i < depth; ++i) {
                  Node o = (u >> (i % 3)) & 1 ? O("o") : L("l");
                  o.kids = {n};
                  n = o;
                }
                prefix_case(t, p, {n, V("z", Value::Null()), n});
              }
          }};
}

std::vector<mc::Space> spaces_of(const mc::Options& o) {
  bool th = o.thorough();
  std::vector<mc::Space> v;
  if (o.prop == "C22") {
    v.push_back(kinds_space());
    v.push_back(weave_space("bodies", "every body over named scalars, nulls, objects and lists", sequences(paths(), kSan ? 1 : 3), kSan ? 3 : th ? 5 : 4, members_full, false));
    if (!kSan) v.push_back(weave_space("bodies5", "every body over named scalars, nulls, objects and lists", sequences(paths(), th ? 2 : 1), th ? 6 : 5, members_full, false));
    v.push_back(weave_space("deep", "bodies over one scalar, two objects and a list of objects", sequences({"a", "m.a", "m.m.a", "m.mm.a", "mm.m.a", "m.m.m.a"}, kSan ? 1 : 2), kSan ? 5 : th ? 7 : 6, members_deep, false));
    v.push_back(weave_space("odd", "bodies that do not fit the types: a message field given a scalar, scalar fields given objects and lists, unnamed members", sequences({"a", "r", "m.a", "m.r", ""}, kSan ? 1 : 2), kSan ? 3 : th ? 5 : 4, members_odd, true));
    v.push_back(weave_space("names", "bodies that name fields by their proto or JSON names", sequences({"x_y", "r_y", "m_x.x_y", "m_x.r_y", "m_x.m_x.x_y"}, kSan ? 1 : 2), kSan ? 3 : th ? 5 : 4, members_json, true));
    v.push_back(weave_space("many", "four bindings", sequences(paths(), 4, true), kSan ? 1 : th ? 3 : 2, members_full, false));
  } else if (o.prop == "C23") {
    v.push_back(collide_space(th || !kSan));
    v.push_back(collide_pairs());
    v.push_back(collide_bodies(kSan ? 3 : th ? 6 : 5));
    v.push_back(collide_strings(kSan ? 2 : th ? 5 : 4));
  } else if (o.prop == "C24") {
    v.push_back(prefix_space(kSan ? 4 : th ? 7 : 6));
    v.push_back(prefix_kinds());
    v.push_back(prefix_deep());
  }
  return v;
}
}  // namespace
int main(int argc, char** argv) { return mc::Main(argc, argv, spaces_of); }
