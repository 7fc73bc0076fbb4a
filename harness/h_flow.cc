// C37: the work (basic blocks of the measured code, bytes it allocates, copies or scans; not the protobuf library's own)
// that readers, byte views, translators and weaving do, and the stack they use, on enumerated families of growing traffic.
#include <algorithm>
#include <memory>

#include "cov_rt.h"
#include "ctypes.h"
#include "grpc_transcoding/json_request_translator.h"
#include "grpc_transcoding/message_reader.h"
#include "grpc_transcoding/response_to_json_translator.h"
#include "mc.h"
#include "source.h"

namespace gt = google::grpc::transcoding;
namespace pb = google::protobuf;
using mc::T;
using std::string;

namespace {
string num(uint64_t n) { return std::to_string(n); }
T* g_t;
void over() { g_t->fail("the work exceeds " + num(cov_limit) + " basic blocks"); }
struct Cost {
  uint64_t work, stack;
};
template <class F>
Cost measure(T& t, uint64_t limit, const F& f) {
  g_t = &t;
  cov_over = over;
  cov_blocks = cov_bytes = 0;
  cov_low = ~0ull;
  cov_limit = limit;
  cov_lib = 0;
  uintptr_t here = (uintptr_t)__builtin_frame_address(0);
  cov_on = true;
  f();
  cov_on = false;
  t.step();
  t.beat();
  return {cov_blocks + cov_bytes / 8, cov_low < here ? here - cov_low : 0};
}
string rep(const string& s, size_t n) {
  string o;
  o.reserve(s.size() * n);
  for (size_t i = 0; i < n; ++i) o += s;
  return o;
}
// Runs the traffic made for n and for 8n: at most 8 * 1.8 times the work (a quadratic share shows as up to 64 times),
// and no more stack (except where what grows is the depth).
template <class Make>
void linear(T& t, size_t n, bool deep, const Make& make) {
  auto small = make(n);
  Cost x = measure(t, 1u << 31, [&] { small(); });
  small = nullptr;
  uint64_t limit = 8 * x.work * 18 / 10 + 20000;
  auto big = make(8 * n);
  Cost y = measure(t, 4 * limit + 1000000, [&] { big(); });
  t.check(y.work <= limit, [&] { return num(x.work) + " units of work for " + num(n) + ", " + num(y.work) + " for " + num(8 * n) + ": not proportional"; });
  if (!deep) t.check(y.stack <= x.stack + 4096, [&] { return num(x.stack) + " bytes of stack for " + num(n) + ", " + num(y.stack) + " for " + num(8 * n); });
  t.state(mc::comb(x.work, y.work));
}
using Job = std::function<void()>;

// How the input arrives and is asked for.
struct Way {
  size_t buffer;   // bytes per buffer (0: all at once)
  int every;       // asked after every so many buffers (0: when all is there)
  int idle;        // asked so many times more in vain each time
};
const Way kWays[] = {{0, 1, 0}, {1, 1, 0}, {1, 0, 0}, {2, 1, 1}, {3, 5, 0}, {5, 1, 3}, {7, 2, 1}, {64, 1, 0}, {64, 0, 1}, {1000, 1, 2}};
string show(const Way& w) {
  return (w.buffer ? "buffers of " + num(w.buffer) + " bytes" : string("one buffer")) + (w.every ? ", asked after every " + num(w.every) : string(", asked at the end")) + " (" + num(w.idle) + " times more in vain)";
}
std::shared_ptr<ArrivingSource> source(const string& bytes, const Way& w) {
  auto in = std::make_shared<ArrivingSource>();
  in->lenient = true;
  std::vector<uint32_t> cuts;
  for (size_t p = 0; p < bytes.size();) {
    p = w.buffer ? std::min(p + w.buffer, bytes.size()) : bytes.size();
    cuts.push_back(p);
  }
  in->reset(bytes, cuts);
  return in;
}
// Lets the input arrive and calls ask (which takes all it can get).
template <class A>
void arrive(ArrivingSource& in, const Way& w, const A& ask) {
  size_t k = 0;
  while (in.arrived < in.cuts.size()) {
    ++in.arrived;
    in.zero = 0;
    if (in.arrived == in.cuts.size()) break;
    if (w.every && ++k % w.every == 0)
      for (int i = 0; i <= w.idle; ++i) ask();
  }
  in.zero = 0;
  for (int i = 0; i <= w.idle; ++i) ask();
  in.ended = true;
  for (int i = 0; i <= w.idle; ++i) ask();
}
string frame(const string& m) {
  uint32_t n = m.size();
  return string("\0", 1) + (char)(n >> 24) + (char)(n >> 16) + (char)(n >> 8) + (char)n + m;
}
void take(gt::MessageStream& s, string* m, uint64_t* got) {
  while (s.NextMessage(m)) ++*got;
  s.Finished();
}
void read(gt::TranscoderInputStream& s, size_t most, uint64_t* got) {  // in pieces of at most so many bytes
  const void* d;
  int n;
  while (s.BytesAvailable() > 0 && s.Next(&d, &n) && n > 0) {
    if (most && (size_t)n > most) s.BackUp(n - most), n = most;
    *got += n;
  }
  s.Finished();
}

struct Listed : gt::MessageStream {  // n messages
  std::vector<string> unit;
  size_t n, at = 0;
  bool NextMessage(string* m) override {
    if (at == n) return false;
    *m = unit[at++ % unit.size()];
    return true;
  }
  bool Finished() const override { return at == n; }
  absl::Status Status() const override { return absl::OkStatus(); }
};

gt::RequestInfo info(const string& body) {
  gt::RequestInfo i{};
  i.message_type = ct::world().type("mctest.M");
  i.body_field_path = body;
  return i;
}
void put(gt::RequestInfo& i, const string& path, const string& value) {
  gt::RequestWeaver::BindingInfo b;
  b.value = value;
  if (!ct::world().helper->ResolveFieldPath(*i.message_type, path, &b.field_path).ok()) abort();
  i.variable_bindings.push_back(b);
}
// A request translated: the objects are made and destroyed inside of what is measured.
Job request(const gt::RequestInfo& i, bool streaming, bool delim, const string& body, const Way& w, bool view, uint64_t least = 1) {
  auto in = source(body, w);
  return [=] {
    uint64_t got = 0;
    {
      gt::JsonRequestTranslator t(ct::world().helper->Resolver(), in.get(), i, streaming, delim);
      if (view) {
        auto s = t.Output().CreateInputStream();
        arrive(*in, w, [&] { read(*s, 0, &got); });
      } else {
        string m;
        arrive(*in, w, [&] { take(t.Output(), &m, &got); });
      }
      if (!t.Output().Status().ok()) return;  // a collision
    }
    if (got < least) g_t->fail("the translation gives " + num(got) + " messages or bytes instead of at least " + num(least));
  };
}

std::vector<mc::Space> spaces(const mc::Options& o) {
  bool th = o.thorough();
  ct::world();
  std::vector<mc::Space> v;
  const size_t N = th ? 500 : 128, kW = sizeof kWays / sizeof kWays[0];
  string growth = "; work for " + num(N) + " and " + num(8 * N) + " repetitions";
  auto ways = std::make_shared<std::vector<Way>>(kWays, kWays + kW);
  if (th) {
    for (size_t b : {1, 2, 4, 6, 11, 30, 300})
      for (int e : {0, 1, 3, 10})
        for (int i : {0, 4}) ways->push_back({b, e, i});
  }
  string nw = num(ways->size()) + " ways to cut the input and to ask";
  {
    // frames
    auto units = std::make_shared<std::vector<std::vector<string>>>();
    std::vector<string> ms = {"", "x", "four", rep("y", 30), rep("z", 300)};
    for (auto& a : ms) {
      units->push_back({a});
      for (auto& b : ms) units->push_back({a, b});
    }
    v.push_back({"reader", "gRPC frames read: " + num(units->size()) + " repeated patterns of frames of 0 to 300 bytes, " + nw + ", the messages read at once or in pieces, finished or not" + growth, units->size() * ways->size(), [=](T& t, uint64_t u) {
                   auto& unit = (*units)[u / ways->size()];
                   Way w = (*ways)[u % ways->size()];
                   for (int keep = 0; keep < 2; ++keep) {
                     if (!t.begin([&] { return "frames of " + num(unit[0].size()) + " and " + num(unit.back().size()) + " bytes, " + show(w) + (keep ? ", read in pieces" : ""); })) continue;
                     linear(t, N, false, [&](size_t n) -> Job {
                       string b;
                       for (size_t i = 0; i < n; ++i) b += frame(unit[i % unit.size()]);
                       auto in = source(b, w);
                       return [=] {
                         uint64_t got = 0;
                         gt::MessageReader r(in.get());
                         arrive(*in, w, [&] {
                           for (;;) {
                             auto m = keep ? r.NextMessageAndGrpcFrame().message : r.NextMessage();
                             if (!m) break;
                             ++got;
                             const void* d;
                             int k;
                             while (m->Next(&d, &k) && k > 0)
                               if (keep && k > 1) m->BackUp(k / 2);
                           }
                           r.Finished();
                         });
                         if (got != n) g_t->fail("the reader gives " + num(got) + " messages instead of " + num(n));
                       };
                     });
                   }
                 }});
    v.push_back({"long_frame", "one gRPC frame of n * (1, 10, 100) bytes, " + nw + growth, 3 * ways->size(), [=](T& t, uint64_t u) {
                   Way w = (*ways)[u % ways->size()];
                   size_t f = u / ways->size() == 0 ? 1 : u / ways->size() == 1 ? 10 : 100;
                   if (!t.begin([&] { return "one frame of n * " + num(f) + " bytes, " + show(w); })) return;
                   linear(t, N, false, [&](size_t n) -> Job {
                     auto in = source(frame(rep("q", n * f)), w);
                     return [=] {
                       uint64_t got = 0;
                       gt::MessageReader r(in.get());
                       arrive(*in, w, [&] {
                         auto m = r.NextMessage();
                         if (!m) return;
                         const void* d;
                         int k;
                         while (m->Next(&d, &k) && k > 0) got += k;
                       });
                       if (got != n * f) g_t->fail("the message has " + num(got) + " bytes");
                     };
                   });
                 }});
    v.push_back({"view", "the byte view of a message stream: " + num(units->size()) + " repeated patterns of messages, and one message of 100 n bytes, read whole or in pieces of 1, 3 or 100 bytes (the rest pushed back)" + growth, (units->size() + 1) * 4, [=](T& t, uint64_t u) {
                   bool one = u / 4 == units->size();
                   auto unit = one ? std::vector<string>{""} : (*units)[u / 4];
                   size_t most = std::vector<size_t>{0, 1, 3, 100}[u % 4];
                   if (!t.begin([&] { return (one ? string("one long message") : "messages of " + num(unit[0].size()) + " and " + num(unit.back().size()) + " bytes") + ", read in pieces of " + num(most); })) return;
                   linear(t, N, false, [&](size_t n) -> Job {
                     auto s = std::make_shared<Listed>();
                     s->unit = unit;
                     s->n = one ? 1 : n;
                     if (one) s->unit[0] = rep("0123456789", n * 10);
                     return [=] {
                       uint64_t got = 0;
                       auto i = s->CreateInputStream();
                       read(*i, most, &got);
                     };
                   });
                 }});
  }
  {
    // responses
    mctest::M a, b, c;
    a.set_s("x");
    b.set_i(5);
    b.mutable_m()->set_s(rep("w", 40));
    for (int i = 0; i < 10; ++i) c.add_rm()->set_i(i);
    auto units = std::make_shared<std::vector<string>>(std::vector<string>{frame(""), frame(a.SerializeAsString()), frame(b.SerializeAsString()) + frame(""), frame(c.SerializeAsString())});
    v.push_back({"responses", "streaming responses of " + num(units->size()) + " repeated patterns of messages, as an array or newline-delimited, taken as messages or as bytes, " + nw + growth, units->size() * ways->size() * 4, [=](T& t, uint64_t u) {
                   Way w = (*ways)[u % ways->size()];
                   uint64_t x = u / ways->size();
                   bool lines = x & 1, view = x & 2;
                   string unit = (*units)[x / 4];
                   if (!t.begin([&] { return "frames " + mc::q(unit) + " repeated, " + (lines ? "newline-delimited, " : "array, ") + (view ? "as bytes, " : "") + show(w); })) return;
                   linear(t, N, false, [&](size_t n) -> Job {
                     auto in = source(rep(unit, n), w);
                     return [=] {
                       uint64_t got = 0;
                       gt::JsonResponseTranslateOptions o;
                       o.stream_newline_delimited = lines;
                       gt::ResponseToJsonTranslator t(ct::world().helper->Resolver(), ct::Url("mctest.M"), true, in.get(), o);
                       string m;
                       if (view) {
                         auto s = t.CreateInputStream();
                         arrive(*in, w, [&] { read(*s, 0, &got); });
                       } else {
                         arrive(*in, w, [&] { take(t, &m, &got); });
                       }
                       if (got < n) g_t->fail("the translator gives " + num(got) + " messages or bytes instead of at least " + num(n) + "; " + t.Status().ToString());
                     };
                   });
                 }});
    v.push_back({"long_response", "a response of one message that grows (a string, a repeated string, repeated messages, a map), unary or streaming, " + nw + growth, 4 * 2 * ways->size(), [=](T& t, uint64_t u) {
                   Way w = (*ways)[u % ways->size()];
                   uint64_t x = u / ways->size();
                   bool streaming = x & 1;
                   if (!t.begin([&] { return "growing message of kind " + num(x / 2) + (streaming ? ", streaming, " : ", unary, ") + show(w); })) return;
                   linear(t, N, false, [&](size_t n) -> Job {
                     mctest::M m;
                     if (x / 2 == 0) m.set_s(rep("s", 10 * n));
                     for (size_t i = 0; i < n && x / 2 == 1; ++i) m.add_r("r");
                     for (size_t i = 0; i < n && x / 2 == 2; ++i) m.add_rm()->set_i(1);
                     for (size_t i = 0; i < n && x / 2 == 3; ++i) (*m.mutable_mp())[num(i)] = "v";
                     auto in = source(frame(m.SerializeAsString()), w);
                     return [=] {
                       uint64_t got = 0;
                       gt::ResponseToJsonTranslator t(ct::world().helper->Resolver(), ct::Url("mctest.M"), streaming, in.get(), gt::JsonResponseTranslateOptions{});
                       string m;
                       arrive(*in, w, [&] { take(t, &m, &got); });
                       if (!got) g_t->fail("no message");
                     };
                   });
                 }});
  }
  {
    // requests
    static const char* const kElems[] = {"{}", "{\"s\":\"abc\"}", "{\"m\":{\"m\":{\"i\":1}},\"r\":[\"a\",\"b\"]}", "{\"rm\":[{\"i\":1},{\"s\":\"q\"}],\"d\":1.5}", " { \"i\" : 12 } "};
    v.push_back({"stream", "streaming requests of 5 repeated elements, with no binding, one that is woven, one beside the body; delimited or not; taken as messages or as bytes; " + nw + growth, 5 * 3 * 4 * ways->size(), [=](T& t, uint64_t u) {
                   Way w = (*ways)[u % ways->size()];
                   uint64_t x = u / ways->size();
                   string el = kElems[x % 5];
                   x /= 5;
                   int b = x % 3;
                   bool delim = x / 3 & 1, view = x / 3 & 2;
                   if (!t.begin([&] { return "elements " + el + ", bindings " + num(b) + (delim ? ", delimited" : "") + (view ? ", as bytes, " : ", ") + show(w); })) return;
                   gt::RequestInfo i = info(b == 2 ? "n.m" : "*");
                   if (b == 1) put(i, "m.s", "x"), put(i, "r", "y");
                   if (b == 2) put(i, "s", "x"), put(i, "n.s", "y");
                   linear(t, N, false, [&](size_t n) { return request(i, true, delim, "[" + rep(el + ",", n - 1) + el + "]", w, view, view && !delim ? (el == "{}" ? 0 : 1) : n); });
                 }});
    struct Body {
      const char *name, *pre, *unit, *suf;
    };
    static const Body kBodies[] = {{"a long string", "{\"s\":\"", "text of it ", "\"}"},
                                   {"many strings", "{\"r\":[\"q\"", ",\"r\"", "]}"},
                                   {"many messages", "{\"rm\":[{}", ",{\"i\":1}", "]}"},
                                   {"many numbers", "{\"ri\":[0", ",7", "]}"},
                                   {"many members", "{\"i\":1", ",\"i\":2", "}"},
                                   {"a field bound, again and again", "{\"s\":\"x\"", ",\"s\":\"x\"", "}"},
                                   {"inner messages", "{\"m\":{}", ",\"m\":{}", "}"},
                                   {"inner messages with bound fields", "{\"m\":{\"s\":\"z\"}", ",\"m\":{\"s\":\"z\",\"m\":{}}", "}"},
                                   {"unknown members", "{\"i\":1", ",\"no\":{\"x\":[1]}", "}"},
                                   {"blanks", "{\"i\":1", "   \n", "}"}};
    static const std::vector<std::vector<std::pair<const char*, const char*>>> kBinds = {
        {}, {{"s", "x"}}, {{"m.s", "z"}, {"m.i", "4"}}, {{"r", "a"}, {"r", "b"}, {"m.m.m.s", "k"}}, {{"m.m.m.m.m.m.m.m.m.m.m.m.m.m.m.m.m.m.m.m.m.m.m.m.m.m.m.m.m.m.m.m.m.m.m.m.m.m.m.m.m.m.m.m.m.m.m.m.m.m.m.s", "k"}}};
    size_t nb = sizeof kBodies / sizeof kBodies[0];
    v.push_back({"bodies", "unary requests of " + num(nb) + " kinds of growing bodies with " + num(kBinds.size()) + " sets of bindings (up to 51 levels deep), collisions reported or not, " + nw + growth, nb * kBinds.size() * 2 * ways->size(), [=](T& t, uint64_t u) {
                   Way w = (*ways)[u % ways->size()];
                   uint64_t x = u / ways->size();
                   const Body& b = kBodies[x % nb];
                   auto& bs = kBinds[x / nb % kBinds.size()];
                   gt::RequestInfo i = info("*");
                   i.reject_binding_body_field_collisions = x / nb / kBinds.size();
                   for (auto& p : bs) put(i, p.first, p.second);
                   if (!t.begin([&] { return string(b.name) + ": " + b.pre + " + (" + b.unit + ")^n + " + b.suf + ", " + num(bs.size()) + " bindings" + (bs.empty() ? "" : string(" such as ") + bs.back().first) + ", " + show(w); })) return;
                   linear(t, N, false, [&](size_t n) { return request(i, false, u & 1, b.pre + rep(b.unit, n) + b.suf, w, u & 2); });
                 }});
    v.push_back({"bindings", "growing bindings: of one repeated field, of one inner repeated field, of one singular field, of two inner messages, one binding ever deeper, a body field path ever deeper, both, a long value; no body, an empty one, one with the field; unary and streaming (3 elements)", 8 * 3 * 2, [=](T& t, uint64_t u) {
                   int kind = u % 8, body = u / 8 % 3;
                   bool streaming = u / 24;
                   static const char* const names[] = {"r", "m.r", "s", "m.s and n.s", "(m.)^n s", "body at (m.)^n", "(m.)^n s, body at (m.)^n", "a long value"};
                   if (!t.begin([&] { return string(names[kind]) + ", body " + num(body) + (streaming ? ", streaming" : ""); })) return;
                   linear(t, kind == 4 || kind == 5 || kind == 6 ? 500 : N, kind == 4 || kind == 5 || kind == 6, [&](size_t n) {
                     string m = rep("m.", n);
                     gt::RequestInfo i = info(kind == 5 || kind == 6 ? m.substr(0, m.size() - 1) : "*");
                     if (kind < 4)
                       for (size_t k = 0; k < n; ++k) put(i, kind == 0 ? "r" : kind == 1 ? "m.r" : kind == 2 ? "s" : k & 1 ? "m.s" : "n.s", "v" + num(k));
                     if (kind == 4 || kind == 6) put(i, m + "s", "v");
                     if (kind == 7) put(i, "s", rep("value ", n));
                     string b = body == 0 ? "" : body == 1 ? "{}" : kind == 1 || kind == 4 ? "{\"m\":{\"r\":[\"x\"]}}" : kind == 2 ? "{\"s\":\"v\"}" : "{\"r\":[\"x\"],\"i\":3}";
                     if (streaming) b = body == 0 ? "[]" : "[" + b + "," + b + "," + b + "]";
                     return request(i, streaming, false, b, kWays[0], false, streaming && body == 0 ? 0 : 1);
                   });
                 }});
    v.push_back({"paths", "field paths of n names resolved (n up to " + num(32 * N) + ", each n a power of 2), as text and as lists of names, that exist or fail at the end or half way", 6, [=](T& t, uint64_t u) {
                   bool list = u & 1;
                   int fail = u / 2;
                   for (size_t base = 4; base <= 4 * N; base *= 2) {
                     if (!t.begin([&] { return num(base) + " names, " + (list ? "list" : "text") + (fail == 0 ? "" : fail == 1 ? ", unknown at the end" : ", unknown half way"); })) continue;
                     linear(t, base, false, [&](size_t n) -> Job {
                       std::vector<string> names(n, "m");
                       names.push_back(fail == 1 ? "nope" : "s");
                       if (fail == 2) names[n / 2] = "nope";
                       string text;
                       for (auto& x : names) text += (text.empty() ? "" : ".") + x;
                       return [=] {
                         std::vector<const pb::Field*> out;
                         auto& h = *ct::world().helper;
                         auto& ty = *ct::world().type("mctest.M");
                         bool ok = list ? h.ResolveFieldPath(ty, names, &out).ok() : h.ResolveFieldPath(ty, text, &out).ok();
                         if (ok != (fail == 0)) g_t->fail("unexpected result");
                       };
                     });
                   }
                 }});
  }
  return v;
}
}  // namespace
int main(int argc, char** argv) { return mc::Main(argc, argv, spaces); }
