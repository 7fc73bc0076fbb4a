// C20, C21, C25: JSON request bodies and writer events through the request translators.
#include <algorithm>
#include <map>
#include <memory>

#include "conv.h"
#include "ctypes.h"
#include "grpc_transcoding/json_request_translator.h"
#include "grpc_transcoding/message_reader.h"
#include "grpc_transcoding/request_message_translator.h"
#include "grpc_transcoding/request_stream_translator.h"
#include "mc.h"
#include "source.h"

namespace gt = google::grpc::transcoding;
using namespace conv;
using mc::T;

namespace {
#ifdef MC_SAN
const bool kSan = true;
#else
const bool kSan = false;
#endif

struct B {
  std::string path, value;
};
struct Opt {
  std::string body = "*";
  std::vector<B> binds;
  bool reject = false, enums = false, delim = false;
  std::string show() const {
    std::string o = "body " + mc::q(body);
    for (auto& b : binds) o += " " + b.path + "=" + mc::q(b.value);
    return o + (reject ? " reject-collisions" : "") + (enums ? " case-insensitive-enums" : "") + (delim ? " delimiters" : "");
  }
};
gt::RequestInfo info(const Opt& o, bool with_binds = true) {
  gt::RequestInfo i;
  i.message_type = ct::world().type("mctest.M");
  i.body_field_path = o.body;
  i.reject_binding_body_field_collisions = o.reject;
  i.case_insensitive_enum_parsing = o.enums;
  if (with_binds)
    for (auto& b : o.binds) {
      gt::RequestWeaver::BindingInfo bi;
      static std::map<std::string, std::vector<const google::protobuf::Field*>> memo;
      auto it = memo.find(b.path);
      if (it == memo.end()) {
        std::vector<const google::protobuf::Field*> f;
        if (!ct::world().helper->ResolveFieldPath(*i.message_type, b.path, &f).ok()) abort();
        it = memo.emplace(b.path, f).first;
      }
      bi.field_path = it->second;
      bi.value = b.value;
      i.variable_bindings.push_back(bi);
    }
  return i;
}

// ------------------------------------------------------------------------------------------------ C25
struct One {  // a unary translation of one element
  bool ok = false;
  std::string bytes;
};
One unary(const Events& e, const Opt& o, bool binds) {
  gt::RequestMessageTranslator t(*ct::world().helper->Resolver(), o.delim, info(o, binds));
  for (auto& x : e) play(x, &t.Input());
  One r;
  r.ok = t.Status().ok();
  if (r.ok) r.ok = t.NextMessage(&r.bytes);
  return r;
}
Node named(Node n, std::vector<Node> kids) {
  n.kids = std::move(kids);
  return n;
}
Value Int(int64_t x, int kind = kInt64) {
  Value v;
  v.kind = kind;
  v.i = x;
  v.u = x;
  v.d = x;
  return v;
}
Value Bool(bool b) {
  Value v;
  v.kind = kBool;
  v.b = b;
  return v;
}
const std::vector<Node>& elements() {
  static const std::vector<Node> v = [] {
    std::vector<Node> v;
    v.push_back(O(""));                                                                // 0
    v.push_back(named(O(""), {V("s", Value::Str("a"))}));                              // 1
    v.push_back(named(O(""), {V("s", Value::Str("b")), V("i", Int(5, kInt64))}));      // 2
    v.push_back(named(O(""), {V("i", Value::Str("x"))}));                              // 3 bad
    v.push_back(named(O(""), {named(O("m"), {V("s", Value::Str("c"))})}));             // 4
    v.push_back(named(O(""), {named(L("r"), {V("", Value::Str("x")), V("", Value::Str("y"))})}));  // 5
    v.push_back(named(O(""), {V("e", Value::Str("one"))}));                            // 6 good only if case-insensitive
    v.push_back(named(O(""), {V("e", Value::Str("ONE")), V("i", Int(1ll << 40))}));    // 7 bad
    v.push_back(V("", Value::Str("a")));                                               // 8
    v.push_back(V("", Int(7)));                                                        // 9
    v.push_back(V("", Value::Null()));                                                 // 10
    v.push_back(V("", Bool(true)));                                                    // 11
    v.push_back(L(""));                                                                // 12
    v.push_back(named(L(""), {V("", Value::Str("p")), V("", Value::Str("q"))}));       // 13
    v.push_back(named(O(""), {named(O("m"), {named(O("m"), {})}), named(L("rm"), {O(""), named(O(""), {V("s", Value::Str("d"))})})}));  // 14
    v.push_back(named(O(""), {V("nosuch", Int(1)), V("t", Bool(true)), V("u", Int(3, kUint64)), V("d", Int(2, kDouble))}));             // 15
    return v;
  }();
  return v;
}
std::string show(const Node& n) {
  Events e;
  emit(n, &e);
  return show(e);
}
// What comes at the top: the array of elements, or something else.
struct Body25 {
  std::vector<int> els;
  int other = -1;    // an element as the top-level value instead (never a list)
  bool open = false; // the array is not closed
};
struct Memo {  // unary results per element under the options of the unit
  std::map<int, One> first, rest;
};
enum { kPollAlways, kPollEnd, kPollEach, kPolls };  // after every event; at the end; one message per element
void stream_case(T& t, const Body25& b, const Opt& o, int poll, Memo* memo) {
  if (!t.begin([&] {
        std::string s = o.show() + "; ";
        if (b.other >= 0) s += "top-level value " + show(elements()[b.other]);
        else {
          s += "array of:";
          for (int x : b.els) s += " (" + show(elements()[x]) + ")";
          if (b.open) s += " not closed";
        }
        static const char* const p[] = {"after every event", "at the end", "once after each element"};
        return s + "; polled " + p[poll];
      }))
    return;
  gt::RequestStreamTranslator tr(*ct::world().helper->Resolver(), o.delim, info(o));
  google::protobuf::util::converter::ObjectWriter* w = &tr;
  std::vector<std::string> got, want;
  bool error = false, ended = false;
  auto next = [&]() {
    std::string m = "#stale#";
    bool fin = error || (ended && got.size() >= want.size());
    t.check(tr.Finished() == fin, [&] { return "after " + num(got.size()) + " of " + num(want.size()) + " messages: Finished() is " + num(tr.Finished()); });
    bool r = tr.NextMessage(&m);
    t.step();
    if (r) got.push_back(m);
    else t.check(m == "#stale#", [] { return std::string("no message, but the string was changed"); });
    return r;
  };
  auto compare = [&](bool all, bool closed, const char* when) {
    t.check(got.size() <= want.size(), [&] { return std::string(when) + ": " + num(got.size()) + " messages so far, expected " + num(want.size()); });
    for (size_t i = 0; i < got.size(); ++i)
      t.check(got[i] == want[i], [&] { return std::string(when) + ": message " + num(i) + " is " + mc::q(got[i]) + ", translated alone it is " + mc::q(want[i]); });
    if (all) t.check(got.size() == want.size(), [&] { return std::string(when) + ": " + num(got.size()) + " messages so far, expected " + num(want.size()); });
    t.check(tr.Status().ok() == !error && (!error || tr.Status().code() == absl::StatusCode::kInvalidArgument), [&] { return std::string(when) + ": status " + tr.Status().ToString() + (error ? ", expected an error" : ", expected OK"); });
    bool fin = error || (closed && got.size() == want.size());
    t.check(tr.Finished() == fin, [&] { return std::string(when) + ": Finished() is " + num(tr.Finished()); });
    t.state(mc::comb(mc::comb(got.size(), want.size()), mc::comb(error * 2 + closed, want.empty() ? 0 : mc::hash(want.back()))));
  };
  if (b.other >= 0) {
    Events e;
    emit(elements()[b.other], &e);
    error = true;
    bool first = true;
    for (auto& x : e) {
      play(x, w);
      t.step();
      if (poll == kPollAlways || first) next(), compare(true, false, "after an event");
      first = false;
    }
    next();
    compare(true, false, "at the end");
    return;
  }
  if (poll == kPollAlways) {
    next();
    compare(true, false, "before the first event");
  }
  w->StartList("");
  if (poll == kPollAlways) {
    next();
    compare(true, false, "after the opening bracket");
  }
  for (size_t i = 0; i < b.els.size(); ++i) {
    Events e;
    emit(elements()[b.els[i]], &e);
    auto& mm = i == 0 ? memo->first : memo->rest;
    auto it = mm.find(b.els[i]);
    if (it == mm.end()) it = mm.emplace(b.els[i], unary(e, o, i == 0)).first;
    for (size_t k = 0; k < e.size(); ++k) {
      play(e[k], w);
      t.step();
      if (k + 1 == e.size()) {
        if (!error && it->second.ok) want.push_back(it->second.bytes);
        else error = true;
      }
      if (poll == kPollAlways && k + 1 < e.size() && !error) {
        next();
        compare(true, false, "within an element");
      }
    }
    if (poll == kPollAlways) {
      while (next() && got.size() < 100) {
      }
      compare(true, false, "after an element");
    } else if (poll == kPollEach) {
      if (i) next();
      compare(false, false, "after an element");
    }
  }
  if (!b.open) {
    w->EndList();
    ended = true;
    if (poll == kPollAlways) compare(true, true, "after the closing bracket");
  }
  while (next() && got.size() < 100) {
  }
  next();
  compare(true, !b.open, "at the end");
}
std::vector<Opt> options(bool th) {
  std::vector<Opt> v;
  std::vector<std::string> bodies = {"*", "", "m", "s", "r", "m.s"};
  if (th) bodies.insert(bodies.end(), {"m.m", "m.r", "i", "rm", "n.n"});
  const std::vector<std::vector<B>> bs = {{}, {{"s", "a"}}, {{"m.s", "c"}, {"r", "z"}}, {{"i", "5"}, {"e", "ONE"}}, {{"e", "one"}}, {{"i", "x"}}};
  for (auto& body : bodies)
    for (auto& b : bs)
      for (int f = 0; f < 8; ++f) {
        Opt o;
        o.body = body;
        o.binds = b;
        o.reject = f & 1;
        o.enums = f & 2;
        o.delim = f & 4;
        v.push_back(o);
      }
  return v;
}
void spaces25(const mc::Options& op, std::vector<mc::Space>* v) {
  bool th = op.thorough();
  auto os = std::make_shared<std::vector<Opt>>(options(th));
  int ne = elements().size();
  int len = kSan ? 2 : th ? 4 : 3;
  v->push_back({"arrays", "every array of up to " + num(len) + " elements of a pool of " + num(ne) + " (objects, scalars, lists, bad values), closed or not, under " + num(os->size()) + " combinations of body path, bindings, collision rejection, enum case and delimiters, three poll schedules; each message against the same element translated alone",
                os->size() * ne, [=](T& t, uint64_t u) {
                  const Opt& o = (*os)[u / ne];
                  Memo memo;
                  std::function<void(Body25&)> go = [&](Body25& b) {
                    for (int p = 0; p < kPolls; ++p)
                      for (int open = 0; open < 2; ++open) {
                        if (open && p) continue;
                        b.open = open;
                        stream_case(t, b, o, p, &memo);
                      }
                    if ((int)b.els.size() == len) return;
                    for (int e = 0; e < ne; ++e) {
                      b.els.push_back(e);
                      go(b);
                      b.els.pop_back();
                    }
                  };
                  Body25 b;
                  if (u % ne == 0) {
                    for (int p = 0; p < kPolls; ++p) stream_case(t, b, o, p, &memo);
                    for (int e = 0; e < ne; ++e)
                      if (elements()[e].op != kList) {
                        Body25 c;
                        c.other = e;
                        for (int p = 0; p < 2; ++p) stream_case(t, c, o, p, &memo);
                      }
                  }
                  b.els.push_back(u % ne);
                  go(b);
                }});
  int ll = kSan ? 4 : th ? 7 : 6;
  v->push_back({"long", "every array of up to " + num(ll) + " of six elements (one bad), under 8 combinations of options", 8 * 36, [=](T& t, uint64_t u) {
                  static const int six[] = {0, 1, 3, 4, 6, 14};
                  Opt o;
                  uint64_t f = u / 36;
                  o.delim = f & 1;
                  o.enums = f & 2;
                  if (f & 4) o.binds = {{"m.s", "c"}, {"r", "z"}};
                  Memo memo;
                  std::function<void(Body25&)> go = [&](Body25& b) {
                    for (int p = 0; p < kPolls; ++p) stream_case(t, b, o, p, &memo);
                    if ((int)b.els.size() == ll) return;
                    for (int e : six) {
                      b.els.push_back(e);
                      go(b);
                      b.els.pop_back();
                    }
                  };
                  Body25 b;
                  b.els = {six[u / 6 % 6], six[u % 6]};
                  go(b);
                }});
}

// ------------------------------------------------------------------------------------------------ C20
// A body, and what it is to be translated to.
struct Body {
  std::string text;
  bool stream = false;
  Opt opt;
  std::vector<std::string> want;   // the messages
  std::vector<size_t> from, till;  // each is there once all of the first `till` bytes have been seen, not before `from`
  bool error = false;              // what follows them is an error
  size_t error_till = 0;           // if not 0: reported once so many bytes have been seen, whatever follows
  bool timed = true;               // from and till are known
};
// Runs the translator; ends = buffers' ends. Returns by t.fail.
struct Sched {
  bool gated = false;   // a buffer at a time, polled until nothing comes; else all there from the start
  bool late = false;    // gated: the end is known only later
  int idle = 0;         // polls with nothing there before each arrival
};
void check_parsed(T& t, const Body& b, const std::vector<std::string>& got);
void request_case(T& t, const Body& b, const std::vector<uint32_t>& cuts, const Sched& s) {
  if (!t.begin([&] {
        std::string o = std::string(b.stream ? "streaming" : "unary") + " request " + mc::q(b.text) + ", " + b.opt.show() + "; buffers end at";
        for (auto x : cuts) o += " " + num(x);
        if (s.gated) o += std::string("; polled after each arrival") + (s.idle ? ", also with nothing there" : "") + (s.late ? "; end signalled after the last buffer" : "");
        return o;
      }))
    return;
  ArrivingSource in;
  in.lenient = true;
  in.reset(b.text, cuts);
  gt::JsonRequestTranslator tr(ct::world().helper->Resolver(), &in, info(b.opt), b.stream, b.opt.delim);
  gt::MessageStream& out = tr.Output();
  std::vector<std::string> got;
  size_t nbuf = cuts.size();
  auto bytes_read = [&] { return in.pos; };
  auto poll = [&]() {
    std::string m = "#stale#";
    bool over = out.Finished(), err = !out.Status().ok();
    size_t before = in.calls;
    bool r = out.NextMessage(&m);
    t.step();
    t.check(in.bad.empty(), [&] { return "the translator " + in.bad; });
    t.check(!err || !out.Status().ok(), [] { return std::string("the error went away"); });
    t.check(!(over && (size_t)in.calls != before), [] { return std::string("reads input after Finished()"); });
    if (!r) return false;
    t.check(!over, [&] { return "a message after Finished(): " + mc::q(m); });
    got.push_back(m);
    t.check(got.size() <= b.want.size(), [&] { return "message " + num(got.size()) + " is " + mc::q(m) + ", expected only " + num(b.want.size()) + (b.error ? " and an error" : ""); });
    size_t k = got.size() - 1;
    t.check(m == b.want[k], [&] { return "message " + num(k) + " is " + mc::q(m) + ", expected " + mc::q(b.want[k]); });
    if (b.timed && !b.text.empty() && out.Status().ok()) {
      t.check(in.pos >= b.from[k], [&] { return "message " + num(k) + " returned when only " + num(in.pos) + " bytes had been read"; });
      // one buffer at a time: the one before did not hold all of it
      size_t i = 0;
      while (i < nbuf && cuts[i] < b.till[k]) ++i;
      size_t need = i < nbuf ? cuts[i] : b.text.size();
      t.check(in.pos <= need || (k > 0 && false), [&] { return "message " + num(k) + " returned after reading " + num(in.pos) + " bytes, " + num(need) + " would do: input is read while a message is pending"; });
    }
    return true;
  };
  auto midway = [&](bool ended) {  // polled until nothing came
    if (b.timed && out.Status().ok()) {
      size_t there = 0;
      while (there < b.want.size() && b.till[there] <= in.arrived_bytes()) ++there;
      if (!ended) t.check(got.size() >= there, [&] { return num(there) + " messages have arrived in full, " + num(got.size()) + " came"; });
    }
    if (b.error_till && b.error_till <= in.arrived_bytes()) t.check(!out.Status().ok(), [&] { return "the bad value has arrived in full, but no error is reported"; });
    if (!b.error) t.check(out.Status().ok(), [&] { return "status " + out.Status().ToString() + " for a good request"; });
    t.state(mc::comb(mc::comb(got.size(), out.Status().ok()), mc::comb(in.arrived_bytes(), mc::hash(b.text))));
  };
  (void)bytes_read;
  int rounds = 0;
  auto drain = [&]() {
    while (poll())
      if (++rounds > 1000) t.fail("endless messages");
  };
  if (!s.gated) {
    in.arrived = nbuf;
    in.ended = true;
    size_t empty = 0;
    for (size_t i = 0; i < nbuf; ++i) empty += cuts[i] == (i ? cuts[i - 1] : 0);
    for (size_t i = 0; i <= empty; ++i) drain();  // an empty buffer may need another poll
  } else {
    for (int i = 0; i < s.idle; ++i) poll();
    if (s.idle) t.check(out.Status().ok() && got.empty(), [&] { return "before any input: status " + out.Status().ToString(); });
    for (size_t i = 0; i < nbuf; ++i) {
      in.arrived = i + 1;
      if (i + 1 == nbuf && !s.late) in.ended = true;
      drain();
      for (int k = 0; k < s.idle; ++k) drain();
      midway(in.ended);
    }
    in.ended = true;
    drain();
  }
  t.check(out.Status().ok() == !b.error && (!b.error || out.Status().code() == absl::StatusCode::kInvalidArgument), [&] { return "at the end: status " + out.Status().ToString() + (b.error ? ", expected an error" : ", expected OK"); });
  t.check(b.error || got.size() == b.want.size(), [&] { return num(got.size()) + " messages, expected " + num(b.want.size()); });
  t.check(out.Finished(), [] { return std::string("not Finished() at the end"); });
  for (int i = 0; i < 3; ++i) t.check(!poll(), [] { return std::string("a message after the last one"); });
  t.state(mc::comb(got.size(), mc::hash(got.empty() ? "" : got.back())));
}

// The reference: the library's translation of the element alone, in one go.
bool alone(const std::string& json, const Opt& o, std::string* out, bool ignore_unknown = false) {
  std::string j = json;
  if (o.body != "*" && !o.body.empty()) {
    std::string p = o.body;
    std::string tail;
    std::string head;
    size_t at = 0;
    while (true) {
      size_t e = p.find('.', at);
      head += "{\"" + p.substr(at, e == std::string::npos ? e : e - at) + "\":";
      tail += "}";
      if (e == std::string::npos) break;
      at = e + 1;
    }
    j = head + j + tail;
  }
  static std::map<std::string, std::pair<bool, std::string>> memo;
  if (memo.size() > 100000) memo.clear();
  auto it = memo.find(j);
  if (it == memo.end()) {
    std::string b;
    bool ok = ct::JsonToMessage("mctest.M", j, &b, ignore_unknown);
    it = memo.emplace(j, std::make_pair(ok, b)).first;
  }
  if (!it->second.first) return false;
  *out = it->second.second;
  if (o.delim) {
    std::string d(1, '\0');
    for (int s = 24; s >= 0; s -= 8) d += (char)(out->size() >> s);
    *out = d + *out;
  }
  return true;
}
struct El {
  const char* json;
  bool bad;
};
// Elements: good and bad; a malformed one ends the text.
const std::vector<El>& objects() {
  static const std::vector<El> v = {
      {"{}", false}, {"{\"s\":\"a\"}", false}, {"{\"i\":12}", false}, {"{\"s\":\"\\u00e9\\n\"}", false}, {"{\"s\":\"\xc3\xa9\xe2\x82\xac\"}", false},
      {"{\"m\":{\"s\":\"}\"}}", false}, {"{ \"r\" : [ \"]\" , \"\" ] }", false}, {"{\"t\":true,\"d\":-1.5e2}", false}, {"{\"s\":null}", false}, {"{\"e\":\"ONE\"}", false},
      {"{\"mp\":{\"k\":\"v\"}}", false},
      {"{\"i\":\"x\"}", true}, {"{\"e\":\"NO\"}", true}, {"{\"m\":5}", true}, {"{\"i\":1.5}", true},
  };
  return v;
}
const std::vector<std::string>& malformed() {  // prefixes of a body that cannot become one
  static const std::vector<std::string> v = {"{\"s\":", "{\"s\":\"a", "{", "{\"s\"", "{\"s\" \"a\"}", "{]", "{\"i\":1 2}", "{\"s\":tru}", "nul", "{\"s\":\"a\"", "{,}", "\"", "@", "{\"i\":-}", "{\"s\":\"\\u00"};
  return v;
}
void all_cuts(T& t, const Body& b, uint64_t lim, const std::vector<Sched>& ss) {
  std::vector<uint32_t> cuts;
  size_t n = b.text.size();
  if (n == 0) return;
  auto run = [&](size_t salt) {
    (void)salt;
    for (auto& s : ss) request_case(t, b, cuts, s);
  };
  if (n <= lim) {
    for (uint64_t m = 0; m < 1ull << (n - 1); ++m) {
      cuts.clear();
      for (size_t i = 1; i < n; ++i)
        if (m >> (i - 1) & 1) cuts.push_back(i);
      cuts.push_back(n);
      run(m);
    }
  } else {
    cuts = {(uint32_t)n};
    run(0);
    for (size_t i = 1; i < n; ++i) {
      cuts = {(uint32_t)i, (uint32_t)n};
      run(i);
      for (size_t j = i + 1; j < n && n <= 40; ++j) {
        cuts = {(uint32_t)i, (uint32_t)j, (uint32_t)n};
        run(j);
      }
    }
    cuts.clear();
    for (size_t i = 1; i <= n; ++i) cuts.push_back(i);
    run(1);
  }
  // empty buffers
  cuts.clear();
  cuts.push_back(0);
  for (size_t i = 1; i <= n; ++i) cuts.push_back(i), cuts.push_back(i);
  run(0);
  for (size_t i = 0; i <= n; ++i) {
    cuts.clear();
    cuts.push_back(i);
    cuts.push_back(i);
    if (i < n) cuts.push_back(n);
    run(0);
  }
}
Sched S(bool gated, bool late, int idle) {
  Sched s;
  s.gated = gated;
  s.late = late;
  s.idle = idle;
  return s;
}
const std::vector<Sched>& scheds() {
  static const std::vector<Sched> v = {S(false, false, 0), S(true, false, 0), S(true, true, 0), S(true, true, 2)};
  return v;
}
// from/till of a value that ends at byte e: a number is known to end only at the byte after it.
void add(Body* b, const std::string& json, const std::string& msg, size_t e) {
  b->want.push_back(msg);
  b->from.push_back(e);
  bool number = !json.empty() && isdigit((unsigned char)json[json.size() - 1]);
  b->till.push_back(number ? e + 1 : e);
}
size_t value_end(const std::string& s);
// When the error of a value that ends at byte e is to be reported (0: not well-formed, when it is noticed).
size_t error_at(const std::string& json, size_t e) {
  if (json.empty() || value_end(json) != json.size()) return 0;
  char c = json[json.size() - 1];
  return strchr("}]\"", c) ? e : isdigit((unsigned char)c) ? e + 1 : 0;
}
Body unary_body(const std::string& json, const Opt& o, const std::string& before = "", const std::string& after = "") {
  Body b;
  b.opt = o;
  b.text = before + json + after;
  std::string m;
  if (alone(json, o, &m)) add(&b, json, m, before.size() + json.size());
  else b.error = true, b.error_till = error_at(json, b.text.size() - after.size());
  return b;
}
Body stream_body(const std::vector<std::string>& els, const Opt& o, const std::string& sep = ",", const std::string& end = "]", const std::string& before = "") {
  Body b;
  b.opt = o;
  b.stream = true;
  b.text = before + "[";
  for (size_t i = 0; i < els.size(); ++i) {
    if (i) b.text += sep;
    b.text += els[i];
    std::string m;
    if (b.error) continue;
    if (alone(els[i], o, &m)) add(&b, els[i], m, b.text.size());
    else b.error = true, b.error_till = error_at(els[i], b.text.size());
  }
  b.text += end;
  if (end.find(']') == std::string::npos) b.error = true;
  return b;
}
// Where the value the text begins with ends (0: it does not, or there is none), for texts of the alphabet of the space
// "texts".
size_t value_end(const std::string& s) {
  size_t i = 0, depth = 0;
  bool str = false, any = false;
  for (; i < s.size(); ++i) {
    char c = s[i];
    if (str) {
      if (c == '\\') ++i;
      else if (c == '"') {
        str = false;
        if (depth == 0) return i + 1;
      }
      continue;
    }
    if (c == ' ') {
      if (any && depth == 0) return i;
      continue;
    }
    any = true;
    if (c == '"') str = true;
    else if (c == '{' || c == '[') ++depth;
    else if (c == '}' || c == ']') {
      if (depth == 0) return 0;
      if (--depth == 0) return i + 1;
    }
  }
  return any && depth == 0 && !str ? i : 0;
}
void spaces20(const mc::Options& op, std::vector<mc::Space>* v) {
  bool th = op.thorough();
  size_t lim = kSan ? 9 : th ? 18 : 15;
  // unary
  auto bodies = std::make_shared<std::vector<Body>>();
  std::vector<Opt> os;
  for (const char* p : {"*", "", "m", "m.m"})
    for (int f = 0; f < 4; ++f) {
      Opt o;
      o.body = p;
      o.delim = f & 1;
      o.reject = f & 2;
      os.push_back(o);
    }
  for (auto& o : os) {
    for (auto& e : objects())
      for (auto& ws : std::vector<std::pair<std::string, std::string>>{{"", ""}, {" ", ""}, {"", " "}, {"\n\t", " \n"}}) {
        if (o.reject && !ws.first.empty()) continue;
        bodies->push_back(unary_body(e.json, o, ws.first, ws.second));
        if (bodies->back().error != e.bad) fprintf(stderr, "%s %d\n", e.json, bodies->back().error), abort();
      }
    for (auto& m : malformed()) {
      Body b;
      b.opt = o;
      b.text = m;
      b.error = true;
      bodies->push_back(b);
    }
  }
  // the body is a scalar or repeated field
  for (auto& x : std::vector<std::pair<const char*, const char*>>{{"s", "\"a\""}, {"s", "\"\""}, {"s", "null"}, {"i", "5"}, {"i", "-12"}, {"d", "1.5"}, {"d", "1e3"}, {"t", "true"}, {"t", "false"}, {"t", "tru"}, {"i", "\"5\""}, {"i", "\"x\""}, {"r", "[\"a\",\"b\"]"}, {"r", "[]"}, {"r", "[\"a\""}, {"ri", "[1,22]"}, {"rm", "[{},{\"s\":\"a\"}]"}, {"m.i", "34"}, {"m.s", "\"\\u00e9\""}, {"n.n.r", "[\"a\"]"}, {"s", "\"a"}, {"i", "-"}, {"e", "\"ONE\""}, {"e", "1"}, {"mp", "{\"k\":\"v\"}"}})
    for (int f = 0; f < 2; ++f)
      for (const char* ws : {"", " ", "\n"}) {
        Opt o;
        o.body = x.first;
        o.delim = f;
        Body b = unary_body(x.second, o, "", ws);
        bodies->push_back(b);
      }
  std::stable_sort(bodies->begin(), bodies->end(), [&](const Body& a, const Body& b) {
    auto w = [&](const Body& x) { return x.text.size() <= lim ? 1000 + x.text.size() : x.text.size(); };
    return w(a) > w(b);
  });
  v->push_back({"unary", num(bodies->size()) + " bodies (good, bad and malformed; objects, and values of fields) under the body paths and options: every segmentation of those of up to " + num(lim) + " bytes, of the longer ones into up to three buffers and byte by byte, with empty buffers anywhere; all there at once, arriving one by one, with reads that find nothing",
                bodies->size(), [=](T& t, uint64_t u) { all_cuts(t, (*bodies)[u], lim, scheds()); }});
  // streams
  auto sb = std::make_shared<std::vector<Body>>();
  for (int f = 0; f < 4; ++f) {
    Opt o;
    o.delim = f & 1;
    if (f & 2) o.body = "m";
    std::vector<std::string> pool = {"{}", "{\"s\":\"a\"}", "{\"i\":12}", "{\"m\":{}}", "{\"i\":\"x\"}", "{\"s\":"};
    for (const char* sep : {",", " , ", ";"}) {
      int np = pool.size();
      if (*sep != ',') np = 2;
      for (const char* end : {"]", " ]\n", "", "}"}) {
        sb->push_back(stream_body({}, o, sep, end));
        for (int a = 0; a < np; ++a) {
          sb->push_back(stream_body({pool[a]}, o, sep, end));
          for (int b = 0; b < np; ++b) {
            if (sep[0] == ';') {  // an error after the first element
              Body x = stream_body({pool[a]}, o, sep, "");
              x.text += ";" + pool[b] + end;
              sb->push_back(x);
              continue;
            }
            sb->push_back(stream_body({pool[a], pool[b]}, o, sep, end));
            if (*end == ']')
              for (int c = 0; c < np; ++c) sb->push_back(stream_body({pool[a], pool[b], pool[c]}, o, sep, end));
          }
        }
      }
    }
    for (const char* x : {"{}", "{\"s\":\"a\"}", "\"a\"", "null ", "true ", "12 ", "{", "@", "]"}) {  // not an array
      Body b;
      b.stream = true;
      b.opt = o;
      b.text = x;
      b.error = true;
      sb->push_back(b);
    }
  }
  for (auto& x : std::vector<std::pair<const char*, std::vector<std::string>>>{{"s", {"\"a\"", "null", "\"\""}}, {"i", {"1", "23", "-4"}}, {"t", {"true", "false"}}, {"r", {"[\"a\"]", "[]"}}, {"d", {"1.5", "2"}}, {"i", {"1", "\"x\"", "2"}}, {"s", {"[\"a\"]"}}, {"rm", {"[{}]", "[{},{}]"}}})
    for (const char* end : {"]", " ]", ""}) {
      Opt o;
      o.body = x.first;
      sb->push_back(stream_body(x.second, o, ",", end));
      sb->push_back(stream_body(x.second, o, " , ", end));
    }
  std::stable_sort(sb->begin(), sb->end(), [&](const Body& a, const Body& b) {
    auto w = [&](const Body& x) { return x.text.size() <= lim ? 1000 + x.text.size() : x.text.size(); };
    return w(a) > w(b);
  });
  v->push_back({"streaming", num(sb->size()) + " bodies of up to three elements (good, bad, cut short), separators and endings: segmentations, arrivals and reads as for unary", sb->size(), [=](T& t, uint64_t u) { all_cuts(t, (*sb)[u], lim, scheds()); }});
  // empty bodies
  v->push_back({"empty", "the empty body, unary and streaming, any number of empty buffers and reads, under every option", 2, [=](T& t, uint64_t u) {
                  for (auto& o : options(true)) {
                    if (!o.binds.empty()) continue;
                    Body b;
                    b.opt = o;
                    b.stream = u;
                    std::string m;
                    b.timed = false;
                    if (u == 0 && alone("{}", o, &m)) b.want.push_back(m);
                    else b.error = true;
                    for (int nbuf = 0; nbuf < 4; ++nbuf)
                      for (auto& s : scheds()) {
                        // the end must be seen before the empty body is known to be one
                        request_case(t, b, std::vector<uint32_t>(nbuf, 0), s);
                      }
                  }
                }});
  // text after the value
  bool listed = op.finding("text-after-value");
  v->push_back({"trailing", std::string("12 good bodies followed by further text, every segmentation") + (listed ? " (known finding: whether it is an error depends on the segmentation; checked to be one exactly if the text begins in the buffer in which the value ends)" : ""), 12, [=](T& t, uint64_t u) {
                  static const std::vector<std::tuple<const char*, const char*, bool>> vals = {{"{}", "*", false}, {"{\"s\":\"a\"}", "*", false}, {"\"a\"", "s", false}, {"true", "t", false}, {"[\"a\"]", "r", false}, {"{}", "m", false}, {"[]", "*", true}, {"[{}]", "*", true}, {"[{},{}]", "*", true}, {"[\"a\"]", "s", true}, {"[[]]", "r", true}, {"[ {\"t\":true} ]", "*", true}};
                  auto& x = vals[u];
                  Opt o;
                  o.body = std::get<1>(x);
                  std::string val = std::get<0>(x);
                  for (const char* extra : {"x", "}", "]", ",", "{}", "\"a\"", " x", "\n{", " ]", "5"}) {
                    Body b = unary_body(val, o, "", extra);
                    b.stream = std::get<2>(x);
                    b.timed = false;
                    b.want.clear();
                    std::string m;
                    b.error = false;
                    b.error_till = 0;
                    if (!b.stream) {
                      if (!alone(val, o, &m)) t.fail("the value " + val + " is not good");
                      b.want.push_back(m);
                    } else {
                      int k = val == "[]" ? 0 : val == "[{},{}]" ? 2 : 1;
                      std::string el = val == "[[]]" ? "[]" : val == "[\"a\"]" ? "\"a\"" : val == "[ {\"t\":true} ]" ? "{\"t\":true}" : "{}";
                      for (int i = 0; i < k; ++i) {
                        if (!alone(el, o, &m)) t.fail("the element " + el + " is not good");
                        b.want.push_back(m);
                      }
                    }
                    size_t n = b.text.size(), at = val.size();
                    if (kSan && n > 8) continue;
                    while (b.text[at] == ' ' || b.text[at] == '\n') ++at;
                    std::vector<uint32_t> cuts;
                    Body bad = b;
                    bad.error = true;
                    if (!b.stream) bad.want.clear();
                    for (uint64_t mask = 0; mask < 1ull << (n - 1); ++mask) {
                      cuts.clear();
                      bool same = true;
                      for (size_t i = 1; i < n; ++i)
                        if (mask >> (i - 1) & 1) {
                          cuts.push_back(i);
                          if (i >= val.size() && i <= at) same = false;
                        }
                      cuts.push_back(n);
                      for (auto& s : scheds()) request_case(t, same || !listed ? bad : b, cuts, s);
                    }
                  }
                }});
  // every text
  static const std::string al = "{}[]\":,s1\\ ";
  uint64_t na = al.size();
  int len = kSan ? 4 : th ? 6 : 5;
  v->push_back({"texts", "every text of up to " + num(len) + " characters of " + mc::q(al) + " as a unary body of the whole message, of a string, of a list, and as (the rest of) a streaming body, every segmentation: the same as byte by byte, and as the library translates it in one go", na * na, [=](T& t, uint64_t u) {
                  std::function<void(std::string&)> go = [&](std::string& s) {
                    for (int k = 0; k < 5; ++k) {
                      Body b;
                      b.stream = k >= 3;
                      b.opt.body = k == 1 ? "s" : k == 2 ? "r" : k == 4 ? "i" : "*";
                      b.text = k >= 3 ? "[" + s : s;
                      b.timed = false;
                      size_t e = value_end(b.text);
                      if (e && b.text.find_first_not_of(' ', e) != std::string::npos) continue;  // text after the value: see "trailing"
                      if (s.find_first_not_of(' ') == std::string::npos && !b.stream) {
                        if (s.empty()) continue;
                        b.error = true;
                        // (blank)
                      }
                      // a byte at a time
                      {
                        ArrivingSource in;
                        in.lenient = true;
                        std::vector<uint32_t> each;
                        for (size_t i = 1; i <= b.text.size(); ++i) each.push_back(i);
                        in.reset(b.text, each);
                        in.arrived = each.size();
                        in.ended = true;
                        gt::JsonRequestTranslator tr(ct::world().helper->Resolver(), &in, info(b.opt), b.stream, false);
                        std::string m;
                        for (int i = 0; i < 4; ++i)
                          while (tr.Output().NextMessage(&m)) b.want.push_back(m);
                        b.error = !tr.Output().Status().ok();
                        if (!b.stream) {
                          std::string r;
                          bool ok = alone(b.text, b.opt, &r, true);
                          t.check(ok == !b.error && ok == (b.want.size() == 1), [&] { return "unary body " + mc::q(b.text) + " for " + b.opt.body + ": " + tr.Output().Status().ToString() + ", " + num(b.want.size()) + " messages; in one go: " + (ok ? "good" : "bad"); });
                          t.check(!ok || r == b.want[0], [&] { return "unary body " + mc::q(b.text) + " for " + b.opt.body + ": translated otherwise in one go"; });
                        }
                      }
                      size_t n = b.text.size();
                      std::vector<uint32_t> cuts;
                      for (uint64_t m = 0; m < 1ull << (n - 1); ++m) {
                        cuts.clear();
                        for (size_t i = 1; i < n; ++i)
                          if (m >> (i - 1) & 1) cuts.push_back(i);
                        cuts.push_back(n);
                        request_case(t, b, cuts, scheds()[m % 3]);
                      }
                    }
                    if ((int)s.size() == len) return;
                    for (char c : al) {
                      s += c;
                      go(s);
                      s.pop_back();
                    }
                  };
                  std::string s = {al[u / na], al[u % na]};
                  go(s);
                }});
}

// ------------------------------------------------------------------------------------------------ C21
void frames_case(T& t, const std::vector<size_t>& sizes, bool stream, const std::vector<uint32_t>& cuts, const std::string& text, const std::vector<std::string>& want, const Opt& base) {
  for (int delim = 0; delim < 2; ++delim) {
    if (!t.begin([&] {
          std::string o = std::string(stream ? "streaming" : "unary") + " request with messages of";
          for (auto s : sizes) o += " " + num(s);
          return o + " bytes" + (delim ? ", delimiters" : "") + ", body of " + num(text.size()) + " bytes, " + num(cuts.size()) + " buffers, " + base.show();
        }))
      continue;
    Opt o = base;
    o.delim = delim;
    ArrivingSource in;
    in.lenient = true;
    in.reset(text, cuts);
    in.arrived = cuts.size();
    in.ended = true;
    gt::JsonRequestTranslator tr(ct::world().helper->Resolver(), &in, info(o), stream, delim);
    std::unique_ptr<gt::TranscoderInputStream> out;
    if (!delim) {
      std::string m;
      size_t k = 0;
      for (size_t i = 0; i < cuts.size() + 2; ++i)
        while (tr.Output().NextMessage(&m)) {
          t.step();
          t.check(k < want.size() && m == want[k], [&] { return "message " + num(k) + " has " + num(m.size()) + " bytes, or other ones"; });
          ++k;
        }
      t.check(k == want.size() && tr.Output().Status().ok() && tr.Output().Finished(), [&] { return num(k) + " messages, " + tr.Output().Status().ToString(); });
    } else {
      std::string all, m;
      std::vector<std::string> got;
      for (size_t i = 0; i < cuts.size() + 2; ++i)
        while (tr.Output().NextMessage(&m)) {
          t.step();
          size_t k = got.size();
          t.check(k < want.size(), [] { return std::string("too many messages"); });
          const std::string& w = want[k];
          const unsigned char* p = (const unsigned char*)m.data();
          t.check(m.size() == w.size() + 5, [&] { return "message " + num(k) + " has " + num(m.size()) + " bytes, expected " + num(w.size()) + " and 5 before them"; });
          t.check(p[0] == 0, [&] { return "message " + num(k) + ": the first byte is " + num(p[0]); });
          uint64_t n = (uint64_t)p[1] << 24 | p[2] << 16 | p[3] << 8 | p[4];
          t.check(n == w.size(), [&] { return "message " + num(k) + " of " + num(w.size()) + " bytes: the delimiter says " + num(n); });
          t.check(m.compare(5, std::string::npos, w) == 0, [&] { return "message " + num(k) + " of " + num(w.size()) + " bytes: other bytes"; });
          got.push_back(m);
        }
      t.check(got.size() == want.size() && tr.Output().Status().ok() && tr.Output().Finished(), [&] { return num(got.size()) + " messages, " + tr.Output().Status().ToString(); });
      // and back through the frame reader, over the stream of another translator
      ArrivingSource in2;
      in2.lenient = true;
      in2.reset(text, cuts);
      in2.arrived = cuts.size();
      in2.ended = true;
      gt::JsonRequestTranslator tr2(ct::world().helper->Resolver(), &in2, info(o), stream, true);
      out = tr2.Output().CreateInputStream();
      gt::MessageReader rd(out.get());
      size_t k = 0;
      for (int i = 0; i < (int)want.size() * 3 + 3 && !rd.Finished(); ++i) {
        auto s = rd.NextMessage();
        t.step();
        if (!s) continue;
        std::string b;
        const void* d;
        int n;
        while (s->Next(&d, &n)) b.append((const char*)d, n);
        t.check(k < want.size() && b == want[k], [&] { return "read back, message " + num(k) + " has " + num(b.size()) + " bytes, or other ones"; });
        ++k;
      }
      t.check(k == want.size() && rd.Status().ok(), [&] { return "read back " + num(k) + " messages, " + rd.Status().ToString(); });
    }
    t.state(mc::comb(sizes.size() * 2 + delim, sizes.empty() ? 0 : sizes[0]));
  }
}
// A message of exactly n bytes (n != 1), as JSON and in binary.
bool message_of(size_t n, std::string* json, std::string* bin) {
  if (n == 0) {
    *json = "{}";
    bin->clear();
    return true;
  }
  for (size_t h = 2; h <= 6 && h <= n; ++h) {
    size_t x = n - h, c = 1;
    for (size_t y = x; y >= 128; y >>= 7) ++c;
    if (c + 1 != h) continue;
    if (x == 0) continue;  // an empty string is not written by everyone: skip
    *bin = "\x0a";
    for (size_t y = x;; y >>= 7) {
      if (y < 128) {
        *bin += (char)y;
        break;
      }
      *bin += (char)(y | 128);
    }
    *bin += std::string(x, 'z');
    *json = "{\"s\":\"" + std::string(x, 'z') + "\"}";
    return true;
  }
  return false;
}
void spaces21(const mc::Options& op, std::vector<mc::Space>* v) {
  bool th = op.thorough();
  size_t top = kSan ? 1500 : th ? 70000 : 20000;
  size_t per = 100;
  v->push_back({"sizes", "a message of every size up to " + num(top) + " bytes, unary and streaming, with and without delimiters, whole and in two buffers; read back with the frame reader", top / per, [=](T& t, uint64_t u) {
                  for (size_t n = u * per; n < (u + 1) * per; ++n) {
                    std::string j, b;
                    if (!message_of(n, &j, &b)) continue;
                    Opt o;
                    frames_case(t, {n}, false, {(uint32_t)j.size()}, j, {b}, o);
                    frames_case(t, {n}, false, {(uint32_t)j.size() / 2, (uint32_t)j.size()}, j, {b}, o);
                    j = "[" + j + "]";
                    frames_case(t, {n}, true, {(uint32_t)j.size()}, j, {b}, o);
                    frames_case(t, {n}, true, {(uint32_t)j.size() / 2, (uint32_t)j.size()}, j, {b}, o);
                  }
                }});
  v->push_back({"powers", std::string("messages of 2^k-3..2^k+3 bytes, k up to ") + (kSan ? "17" : th ? "26" : "24"), kSan ? 18ull : th ? 27ull : 25ull, [=](T& t, uint64_t u0) {
                  uint64_t u = (kSan ? 17 : th ? 26 : 24) - u0;
                  for (int d = -3; d <= 3; ++d) {
                    int64_t n = (1ll << u) + d;
                    std::string j, b;
                    if (n < 0 || !message_of(n, &j, &b)) continue;
                    Opt o;
                    t.beat();
                    frames_case(t, {(size_t)n}, false, {(uint32_t)j.size()}, j, {b}, o);
                    if (u <= 22) {
                      o.body = "s";
                      if (n) frames_case(t, {(size_t)n}, false, {(uint32_t)j.size() - 6}, j.substr(5, j.size() - 6), {b}, o);
                    }
                    j = "[" + j + "]";
                    o.body = "*";
                    frames_case(t, {(size_t)n}, true, {(uint32_t)j.size()}, j, {b}, o);
                  }
                }});
  static const std::vector<size_t> few = {0, 3, 4, 127, 128, 255, 256, 257, 65535, 65536, 65537, 70000};
  uint64_t nf = few.size();
  int len = kSan ? 2 : th ? 4 : 3;
  v->push_back({"sequences", "every sequence of up to " + num(len) + " messages of 12 sizes around 2^8 and 2^16, streaming, whole, in two buffers, and one buffer per element", nf * nf, [=](T& t, uint64_t u) {
                  std::function<void(std::vector<size_t>&)> go = [&](std::vector<size_t>& s) {
                    std::string text = "[";
                    std::vector<std::string> want;
                    std::vector<uint32_t> per;
                    for (size_t n : s) {
                      std::string j, b;
                      message_of(n, &j, &b);
                      if (!want.empty()) text += ",";
                      text += j;
                      per.push_back(text.size());
                      want.push_back(b);
                    }
                    text += "]";
                    per.push_back(text.size());
                    Opt o;
                    frames_case(t, s, true, {(uint32_t)text.size()}, text, want, o);
                    frames_case(t, s, true, {(uint32_t)text.size() / 2, (uint32_t)text.size()}, text, want, o);
                    frames_case(t, s, true, per, text, want, o);
                    if ((int)s.size() == len) return;
                    for (size_t n : few) {
                      s.push_back(n);
                      go(s);
                      s.pop_back();
                    }
                  };
                  std::vector<size_t> s;
                  if (u == 0) {
                    frames_case(t, {}, true, {2}, "[]", {}, Opt());
                    for (size_t n : few) {
                      std::vector<size_t> one = {n};
                      std::string j, b;
                      message_of(n, &j, &b);
                      frames_case(t, one, true, {(uint32_t)j.size() + 2}, "[" + j + "]", {b}, Opt());
                    }
                  }
                  s = {few[u / nf], few[u % nf]};
                  go(s);
                }});
}

std::vector<mc::Space> spaces(const mc::Options& o) {
  std::vector<mc::Space> v;
  if (o.prop == "C20") spaces20(o, &v);
  if (o.prop == "C21") spaces21(o, &v);
  if (o.prop == "C25") spaces25(o, &v);
  return v;
}
}  // namespace
int main(int c, char** v) { return mc::Main(c, v, spaces); }
