// C33: objects can be abandoned at any point of any history: everything is released, nothing released is touched, and long streams do not accumulate.
#include <malloc.h>
#include <stdlib.h>

#include <memory>
#include <new>

#include "conv.h"
#include "ctypes.h"
#include "grpc_transcoding/http_template.h"
#include "grpc_transcoding/json_request_translator.h"
#include "grpc_transcoding/message_reader.h"
#include "grpc_transcoding/message_stream.h"
#include "grpc_transcoding/path_matcher.h"
#include "grpc_transcoding/prefix_writer.h"
#include "grpc_transcoding/request_message_translator.h"
#include "grpc_transcoding/request_stream_translator.h"
#include "grpc_transcoding/response_to_json_translator.h"
#include "mc.h"
#include "source.h"

namespace {
#ifdef MC_SAN
const bool kSan = true;
#else
const bool kSan = false;
#endif
// Memory in use, by operator new (without the sanitizer, which looks after accesses itself).
long g_blocks, g_bytes, g_peak;
}  // namespace
#ifndef MC_SAN
static void* take(size_t n, size_t align) {
  void* p = align <= 16 ? malloc(n ? n : 1) : aligned_alloc(align, (n + align - 1) / align * align);
  if (!p) abort();
  ++g_blocks;
  g_bytes += malloc_usable_size(p);
  if (g_bytes > g_peak) g_peak = g_bytes;
  return p;
}
static void give(void* p) {
  if (!p) return;
  --g_blocks;
  g_bytes -= malloc_usable_size(p);
  free(p);
}
void* operator new(size_t n) { return take(n, 16); }
void* operator new[](size_t n) { return take(n, 16); }
void* operator new(size_t n, std::align_val_t a) { return take(n, (size_t)a); }
void* operator new[](size_t n, std::align_val_t a) { return take(n, (size_t)a); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return take(n, 16); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return take(n, 16); }
void operator delete(void* p) noexcept { give(p); }
void operator delete[](void* p) noexcept { give(p); }
void operator delete(void* p, size_t) noexcept { give(p); }
void operator delete[](void* p, size_t) noexcept { give(p); }
void operator delete(void* p, std::align_val_t) noexcept { give(p); }
void operator delete[](void* p, std::align_val_t) noexcept { give(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { give(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { give(p); }
#endif

namespace gt = google::grpc::transcoding;
using namespace conv;
using mc::T;
namespace {
// Runs the history; the second time (whatever is set up once is there by then) nothing may be left behind.
template <class R>
void clean(T& t, const R& run) {
  uint64_t h = run();
  long n = g_blocks, b = g_bytes;
  run();
  t.step(2);
  t.check(g_blocks == n && g_bytes == b, [&] { return std::to_string(g_blocks - n) + " blocks, " + std::to_string(g_bytes - b) + " bytes are left when everything is destroyed"; });
  t.state(h);
}
const int kA = 1, kB = 2;
using M = const int*;

struct Text : google::protobuf::io::ZeroCopyInputStream {  // hands out pieces of one text: up to `until`, then nothing more (or the end)
  const std::string& s;
  std::vector<size_t> cuts;
  size_t next = 0, from = 0;
  bool end;
  Text(const std::string& s, std::vector<size_t> c, bool end) : s(s), cuts(std::move(c)), end(end) {}
  bool Next(const void** d, int* n) override {
    if (next == cuts.size()) {
      *n = 0;
      return !end;
    }
    *d = s.data() + from;
    *n = cuts[next] - from;
    from = cuts[next++];
    return true;
  }
  void BackUp(int) override {}
  bool Skip(int) override { return false; }
  int64_t ByteCount() const override { return from; }
};
struct Bind {
  const char *path, *text;
};
gt::RequestInfo info(const std::string& body, const std::vector<Bind>& bs, bool reject) {
  gt::RequestInfo i;
  static const pb::Type* m = ct::world().type("mctest.M");
  i.message_type = m;
  i.body_field_path = body;
  i.reject_binding_body_field_collisions = reject;
  i.case_insensitive_enum_parsing = true;
  for (auto& x : bs) {
    gt::RequestWeaver::BindingInfo b;
    if (!ct::world().helper->ResolveFieldPath(*i.message_type, x.path, &b.field_path).ok()) abort();
    b.value = x.text;
    i.variable_bindings.push_back(b);
  }
  return i;
}
struct Kind {
  std::string body;
  std::vector<Bind> bs;
  bool reject;
};
const std::vector<Kind>& kinds() {
  static const std::vector<Kind> k = {{"*", {}, false}, {"*", {{"s", "a"}, {"m.s", "bb"}, {"r", "c"}}, true}, {"m", {{"m.m.i", "7"}, {"s", "a long text that does not fit into a string object"}}, false}, {"m.m", {{"m.i", "x"}}, false}, {"s", {{"i", "1"}}, true}};
  return k;
}
std::string frame(const std::string& p, unsigned flag = 0) {
  std::string o(1, (char)flag);
  for (int s = 24; s >= 0; s -= 8) o += (char)(p.size() >> s);
  return o + p;
}

// Endless sources for the growth checks: `pre`, then `unit` again and again, then `suf`; one piece per call, and only when told.
struct Looped : gt::TranscoderInputStream {
  std::string pre, unit, suf;
  size_t n = 0, at = 0, allowed = 0, off = 0, pos = 0;
  bool split = false;  // every piece in two
  const std::string& piece(size_t k) const { return k == 0 ? pre : k <= n ? unit : suf; }
  bool Next(const void** d, int* size) override {
    while (at < allowed && off == piece(at).size()) ++at, off = 0;
    if (at >= allowed) {
      *size = 0;
      return at < n + 2;
    }
    size_t len = piece(at).size() - off;
    if (split && off == 0 && len > 1) len /= 2;
    *d = piece(at).data() + off;
    *size = len;
    off += len;
    pos += len;
    return true;
  }
  void BackUp(int c) override { off -= c, pos -= c; }
  bool Skip(int) override { return false; }
  int64_t ByteCount() const override { return pos; }
  int64_t BytesAvailable() const override {
    int64_t b = -(int64_t)off;
    for (size_t k = at; k < allowed && k < at + 3; ++k) b += piece(k).size();
    return b;
  }
  bool Finished() const override { return allowed >= n + 2; }
};
template <class R>
void growth(T& t, const char* what, size_t small, size_t big, const R& run) {
  long p[2];
  size_t got[2];
  for (int k = 0; k < 3; ++k) {
    size_t n = k == 0 ? big : k == 1 ? small : big;  // first a warm-up
    long base = g_bytes;
    g_peak = g_bytes;
    size_t g = run(n);
    if (k) p[k - 1] = g_peak - base, got[k - 1] = g;
    t.step();
    t.beat();
  }
  t.check(got[0] == small && got[1] == big, [&] { return std::string(what) + ": " + num(got[0]) + " and " + num(got[1]) + " messages of " + num(small) + " and " + num(big); });
  t.check(p[1] <= p[0] + 4096, [&] { return std::string(what) + ": at most " + num(p[0]) + " bytes in use for " + num(small) + " messages, " + num(p[1]) + " for " + num(big); });
  t.state(mc::comb(p[0], p[1]));
}

std::vector<mc::Space> spaces(const mc::Options& o) {
  bool th = o.thorough();
  std::vector<mc::Space> v;
  {
    int depth = kSan ? 3 : th ? 5 : 4;
    const uint64_t kOps = 9;
    v.push_back({"registry", "every sequence of at most " + num(depth) + " of " + num(kOps) + " operations on a builder (valid, duplicate, invalid registrations, other methods, verbs, system parameters, failing on duplicates on and off), then dropped, built and dropped, or looked up 5 times and dropped, the builder before or after the matcher", kOps * kOps, [=](T& t, uint64_t u) {
                   std::vector<int> ops;
                   std::function<void()> go = [&] {
                     for (int end = 0; end < 4; ++end) {
                       if (!t.begin([&] {
                             std::string s = "operations";
                             for (int x : ops) s += " " + std::to_string(x);
                             static const char* const e[] = {", builder dropped", ", built, the matcher dropped before the builder", ", built, the builder dropped before the matcher", ", built, builder dropped, looked up, copied"};
                             return s + e[end];
                           }))
                         continue;
                       clean(t, [&] {
                         uint64_t h = end;
                         auto b = std::make_unique<gt::PathMatcherBuilder<M>>();
                         for (int x : ops) {
                           bool r = true;
                           switch (x) {
                             case 0: r = b->Register("GET", "/a/{x=**}/b:v", "body.path.that.is.long", &kA); break;
                             case 1: r = b->Register("GET", "/a/{y=*/**}", "", {"key", "a system parameter with a long name"}, &kB); break;
                             case 2: r = b->Register("GET", "/a/{x=**/b:v", "*", &kA); break;
                             case 3: r = b->Register("POST", "/a/**/b:v", "*", &kB); break;
                             case 4: r = b->Register("*", "/", "*", &kA); break;
                             case 5: r = b->Register("GET", "/a/*/{long_variable_name.and_another_one=c/*}/d", "*", &kA); break;
                             case 6: b->SetFailRegistrationOnDuplicate(true); break;
                             case 7: b->SetFailRegistrationOnDuplicate(false); break;
                             case 8: r = b->Register("GET", "/a/**/{z}", "*", &kB); break;
                           }
                           h = mc::comb(h, x * 2 + r);
                         }
                         if (end == 0) return h;
                         auto m = b->Build();
                         if (end == 1) {
                           m.reset();
                           b.reset();
                           return h;
                         }
                         b.reset();
                         if (end == 3) {
                           std::vector<gt::VariableBinding> bs;
                           std::string body;
                           for (auto& p : {"/a/1/2/3/b:v", "/a/1/c/2/d", "/", "/a/%41", "/none"}) {
                             M r = m->Lookup("GET", p, "key=1&q.r=2&q=%20a+value+that+is+long+enough", &bs, &body);
                             h = mc::comb(h, r ? *r : 0);
                             m->Lookup("POST", p);
                             m->Lookup("GET", p, "x=1", nullptr, nullptr);
                           }
                         }
                         return h;
                       });
                     }
                     if ((int)ops.size() == depth) return;
                     for (int x = 0; x < (int)kOps; ++x) {
                       ops.push_back(x);
                       go();
                       ops.pop_back();
                     }
                   };
                   ops = {(int)(u / kOps), (int)(u % kOps)};
                   go();
                   if (u % kOps == 0) {
                     ops = {(int)(u / kOps)};
                     auto one = [&] {
                       if (!t.begin([&] { return "operation " + num(u / kOps) + " alone, several matchers"; })) return;
                       clean(t, [&] {
                         for (int k = 0; k < 3; ++k) {
                           gt::PathMatcherBuilder<M> b;
                           b.Register("GET", "/a", "", &kA);
                           auto m = b.Build();
                           gt::PathMatcherBuilder<M> c;
                         }
                         return u;
                       });
                     };
                     one();
                   }
                 }});
  }
  {
    static const char al[] = "/a*{}=.:";
    int len = kSan ? 5 : th ? 7 : 6, n = 8;
    v.push_back({"templates", "every string of at most " + num(len) + " characters over {/,a,*,{,},=,.,:} parsed as a template and dropped", (uint64_t)n * n, [=](T& t, uint64_t u) {
                   std::string s = {al[u / n], al[u % n]};
                   std::function<void()> go = [&] {
                     if (t.begin([&] { return "template " + mc::q(s); })) clean(t, [&] {
                         auto p = gt::HttpTemplate::Parse(s);
                         return (uint64_t)(p ? p->segments().size() + 10 * p->Variables().size() : 1000);
                       });
                     if ((int)s.size() == len) return;
                     for (const char* c = al; *c; ++c) {
                       s += *c;
                       go();
                       s.pop_back();
                     }
                   };
                   go();
                 }});
  }
  {
    // The frame reader: what it returned may be dropped unread, half read or read; then the reader.
    static std::vector<std::string> bytes = {frame("") + frame("ab"), frame("abc") + frame("", 1), frame("a") + std::string("\0\0\0", 3), frame("abcdef"), frame("ab") + frame("c") + frame("d")};
    v.push_back({"reader", "5 framed inputs in every segmentation into <= 3 buffers, every number of them arrived, every sequence of <= 3 of {next message: unread, one read, all read, kept until the end; next with header}, ended or not", bytes.size() * 32, [=](T& t, uint64_t u) {
                   const std::string& b = bytes[u / 32];
                   uint32_t n = b.size();
                   for (uint32_t c1 = u % 32; c1 <= n; c1 += 32)
                     for (uint32_t c2 = c1; c2 <= n; ++c2)
                       for (int arrived = 0; arrived <= 3; ++arrived)
                         for (int ended = 0; ended < 2; ++ended)
                           for (int ops = 0; ops < 125; ++ops) {
                             if (!t.begin([&] { return "frames " + mc::q(b) + " cut at " + num(c1) + " and " + num(c2) + ", " + num(arrived) + " buffers arrived" + (ended ? ", ended" : "") + ", operations " + num(ops / 25) + " " + num(ops / 5 % 5) + " " + num(ops % 5); })) continue;
                             clean(t, [&] {
                               uint64_t h = 0;
                               ArrivingSource in;
                               in.lenient = true;
                               in.reset(b, {c1, c2, n});
                               in.arrived = arrived;
                               in.ended = ended;
                               auto r = std::make_unique<gt::MessageReader>(&in);
                               std::unique_ptr<google::protobuf::io::ZeroCopyInputStream> m;
                               for (int k : {ops / 25, ops / 5 % 5, ops % 5}) {
                                 m.reset();
                                 if (k == 4) m = r->NextMessageAndGrpcFrame().message;
                                 else m = r->NextMessage();
                                 const void* d;
                                 int sz;
                                 if (m && k >= 1)
                                   while (m->Next(&d, &sz) && k != 1) h += sz;
                                 if (k != 3) m.reset();
                                 h = mc::comb(h, r->Finished() + 2 * r->Status().ok());
                               }
                               if (ops & 1) m.reset(), r.reset();
                               else r.reset(), m.reset();
                               return h;
                             });
                           }
                 }});
  }
  {
    struct Src : gt::MessageStream {
      std::vector<std::string> q;
      size_t at = 0;
      bool NextMessage(std::string* m) override {
        if (at == q.size()) return false;
        *m = std::move(q[at++]);
        return true;
      }
      bool Finished() const override { return at == q.size(); }
      absl::Status Status() const override { return absl::OkStatus(); }
    };
    int depth = kSan ? 4 : th ? 7 : 6;
    v.push_back({"view", "the byte view of 3 messages (empty, short, long): every sequence of at most " + num(depth) + " of {read, push back 1, push back all, availability, finished}, then dropped with or without its source; 2 views at a time", 25, [=](T& t, uint64_t u) {
                   std::vector<int> ops = {(int)(u / 5), (int)(u % 5)};
                   std::function<void()> go = [&] {
                     for (int order = 0; order < 2; ++order)
                       if (t.begin([&] {
                             std::string s = "operations";
                             for (int x : ops) s += " " + std::to_string(x);
                             return s + (order ? ", a second view" : "");
                           }))
                         clean(t, [&] {
                           uint64_t h = order;
                           auto src = std::make_unique<Src>();
                           src->q = {"", "ab", std::string(300, 'c')};
                           auto a = src->CreateInputStream();
                           std::unique_ptr<gt::TranscoderInputStream> b;
                           if (order) b = src->CreateInputStream();
                           int last = 0;
                           for (int x : ops) {
                             auto& s = order && x < 2 && h % 2 ? b : a;
                             const void* d;
                             int n = 0;
                             if (x == 0) h += s->Next(&d, &n), last = n, h = mc::comb(h, n);
                             if (x == 1 && last && !order) s->BackUp(1), last = 0;
                             if (x == 2 && last && !order) s->BackUp(last), last = 0;
                             if (x == 3) h = mc::comb(h, s->BytesAvailable()), last = 0;
                             if (x == 4) h = mc::comb(h, s->Finished());
                           }
                           a.reset();
                           if (order) b.reset();
                           return h;
                         });
                     if ((int)ops.size() == depth) return;
                     for (int x = 0; x < 5; ++x) {
                       ops.push_back(x);
                       go();
                       ops.pop_back();
                     }
                   };
                   go();
                 }});
  }
  {
    static std::vector<std::string> texts = {"{}", "{\"s\":\"a text longer than a string object holds\",\"m\":{\"i\":1}}", "{\"r\":[\"a\",\"b\"],\"mp\":{\"k\":\"v\"}}", "[{\"s\":\"a\"},{\"m\":{\"s\":\"another long long long text\"}},{}]", "[{\"i\":\"x\"},{}]", "{\"i\":1,}", "[1,null]", "{\"s\":\"\\u00e4\\ud83d\\ude00\"}", "\"t\"", "[[{}]]", "{\"x\":{\"y\":[1,{\"z\":null}]}}", ""};
    v.push_back({"requests", num(texts.size()) + " bodies x unary/stream x delimiters x 5 rules with bindings x every segmentation into <= 3 pieces x every number of pieces arrived x 0-3 polls (also the byte view of the output), then dropped", texts.size() * kinds().size() * 4, [=](T& t, uint64_t u) {
                   const std::string& s = texts[u / 4 / kinds().size()];
                   const Kind& k = kinds()[u / 4 % kinds().size()];
                   bool streaming = u & 1, delim = u & 2;
                   ct::world();
                   size_t n = s.size(), step = kSan ? 3 : th ? 1 : n > 30 ? 3 : 1;
                   for (size_t c1 = 0; c1 <= n; ++c1)
                     for (size_t c2 = c1; c2 <= n; c2 += step)
                       for (int arrived = 0; arrived <= 3; ++arrived)
                         for (int polls = 0; polls <= 4; ++polls)
                           for (int end = 0; end < (arrived == 3 ? 2 : 1); ++end) {
                             if (!t.begin([&] { return std::string(streaming ? "stream" : "unary") + (delim ? " with delimiters" : "") + ", body rule " + k.body + ", " + num(k.bs.size()) + " bindings, body " + mc::q(s) + " cut at " + num(c1) + " and " + num(c2) + ", " + num(arrived) + " pieces arrive" + (end ? ", then the end" : "") + (polls == 4 ? ", read as bytes" : ", polled " + num(polls) + " times"); })) continue;
                             clean(t, [&] {
                               uint64_t h = 0;
                               std::vector<size_t> cs;
                               for (size_t c : {c1, c2, n})
                                 if ((int)cs.size() < arrived) cs.push_back(c);
                               Text in(s, cs, end);
                               auto tr = std::make_unique<gt::JsonRequestTranslator>(ct::world().helper->Resolver(), &in, info(k.body, k.bs, k.reject), streaming, delim);
                               if (polls < 4) {
                                 std::string m;
                                 for (int p = 0; p < polls; ++p) h = mc::comb(h, tr->Output().NextMessage(&m) ? mc::hash(m) : 1);
                               } else {
                                 auto view = tr->Output().CreateInputStream();
                                 const void* d;
                                 int sz;
                                 for (int p = 0; p < 4 && view->BytesAvailable(); ++p) view->Next(&d, &sz), h += sz;
                               }
                               h = mc::comb(h, tr->Output().Status().ok() + 2 * tr->Output().Finished());
                               return h;
                             });
                           }
                 }});
  }
  {
    std::string good;
    ct::JsonToMessage("mctest.M", "{\"s\":\"a text longer than a string object holds\",\"m\":{\"m\":{}},\"mp\":{\"a\":\"b\"}}", &good);
    static std::vector<std::string> bytes = {frame(good) + frame(""), frame("\x0a"), frame("") + frame(good), frame("", 1) + frame(""), frame("\x0a\x01"  "a") + frame("\x0a\x05") + frame(""), std::string("\0\0\0", 3), frame("abc"), frame(std::string("\0\x0a\x01"  "b", 4))};
    v.push_back({"responses", num(bytes.size()) + " responses (undecodable and ill-framed ones among them) x unary/array/lines x every segmentation into <= 3 pieces x every number arrived, ended or not x 0-4 polls, then dropped", bytes.size() * 3 * 8, [=](T& t, uint64_t u) {
                   const std::string& s = bytes[u / 24];
                   int kind = u / 8 % 3;
                   ct::world();
                   uint32_t n = s.size();
                   for (uint32_t c1 = u % 8; c1 <= n; c1 += 8)
                     for (uint32_t c2 = c1; c2 <= n; c2 += kSan ? 5 : 1)
                       for (int arrived = 0; arrived <= 3; ++arrived)
                         for (int ended = 0; ended < 2; ++ended)
                           for (int polls = 0; polls <= 5; ++polls) {
                             if (!t.begin([&] { return std::string(kind == 0 ? "unary" : kind == 1 ? "array" : "lines") + " response " + mc::q(s) + " cut at " + num(c1) + " and " + num(c2) + ", " + num(arrived) + " pieces arrived" + (ended ? ", ended" : "") + (polls == 5 ? ", read as bytes" : ", polled " + num(polls) + " times"); })) continue;
                             clean(t, [&] {
                               uint64_t h = 0;
                               ArrivingSource in;
                               in.lenient = true;
                               in.reset(s, {c1, c2, n});
                               in.arrived = arrived;
                               in.ended = ended;
                               gt::JsonResponseTranslateOptions op{};
                               op.stream_newline_delimited = kind == 2;
                               op.json_print_options.always_print_primitive_fields = polls & 1;
                               auto tr = std::make_unique<gt::ResponseToJsonTranslator>(ct::world().helper->Resolver(), ct::Url("mctest.M"), kind != 0, &in, op);
                               if (polls < 5) {
                                 std::string m;
                                 for (int p = 0; p < polls; ++p) h = mc::comb(h, tr->NextMessage(&m) ? mc::hash(m) : 1);
                               } else {
                                 auto view = tr->CreateInputStream();
                                 const void* d;
                                 int sz;
                                 for (int p = 0; p < 4 && view->BytesAvailable(); ++p) view->Next(&d, &sz), h += sz;
                               }
                               return mc::comb(h, tr->Status().ok() + 2 * tr->Finished());
                             });
                           }
                 }});
  }
  {
    // Event level: a translator dropped after any prefix of the events of any small body.
    int nodes = kSan ? 3 : th ? 5 : 4;
    static const std::vector<Node> members = {V("s", Value::Str("text that is longer than a string object")), V("i", Value::Str("x")), V("x", Value::Null()), O("m"), L("r")}, in_list = {V("", Value::Str("a")), O("")};
    v.push_back({"events", "every body of at most " + num(nodes) + " events of 5 kinds of members, cut after every event, written to the unary and to the stream translator with 5 rules and bindings, polled at every cut, then dropped", kinds().size() * 2 * (nodes + 1), [=](T& t, uint64_t u) {
                   const Kind& k = kinds()[u / 2 % kinds().size()];
                   bool streaming = u & 1;
                   int n = u / 2 / kinds().size();
                   ct::world();
                   std::vector<Node> cur;
                   forests(n, false, 0, [](int, bool l) -> const std::vector<Node>& { return l ? in_list : members; }, cur, [&](const std::vector<Node>& kids) {
                     Node root = O("");
                     root.kids = kids;
                     Events e;
                     if (streaming) e.push_back({kList, "", {}});
                     emit(root, &e);
                     if (streaming) emit(root, &e), e.push_back({kEndList, "", {}});
                     for (size_t cut = 0; cut <= e.size(); ++cut) {
                       if (!t.begin([&] { return std::string(streaming ? "stream" : "unary") + " body rule " + k.body + ", " + num(k.bs.size()) + " bindings, the first " + num(cut) + " of the events " + show(e); })) continue;
                       clean(t, [&] {
                         uint64_t h = 0;
                         std::string m;
                         auto feed = [&](auto& tr, pc::ObjectWriter* w) {
                           for (size_t x = 0; x < cut; ++x) play(e[x], w);
                           bool got = tr.NextMessage(&m);
                           h = mc::comb(got ? mc::hash(m) : 1, tr.Status().ok() + 2 * tr.Finished());
                         };
                         if (streaming) {
                           gt::RequestStreamTranslator tr(*ct::world().helper->Resolver(), true, info(k.body, k.bs, k.reject));
                           feed(tr, &tr);
                         } else {
                           gt::RequestMessageTranslator tr(*ct::world().helper->Resolver(), true, info(k.body, k.bs, k.reject));
                           feed(tr, &tr.Input());
                         }
                         return h;
                       });
                     }
                   });
                 }});
  }
  v.push_back({"helpers", "type helpers over every prefix of the test types, asked nothing or 6 questions (fields, paths, types and enums that exist or not), then dropped", 16, [=](T& t, uint64_t u) {
                 size_t nt = u / 4;
                 for (int ask = 0; ask < 64; ++ask) {
                   if (!t.begin([&] { return "a helper over " + num(nt) + " types" + (u & 1 ? " and enums" : "") + ", questions " + num(ask); })) continue;
                   clean(t, [&] {
                     std::vector<pb::Type> ts(ct::world().types.begin(), ct::world().types.begin() + std::min(nt, ct::world().types.size()));
                     std::vector<pb::Enum> es;
                     if (u & 1) es = ct::world().enums;
                     uint64_t h = 0;
                     auto helper = std::make_unique<gt::TypeHelper>(ts, es);
                     std::vector<const pb::Field*> out;
                     for (size_t k = 0; k < ts.size(); ++k) {
                       if (ask & 1) h += helper->ResolveFieldPath(ts[k], "m.m.s", &out).ok();
                       if (ask & 2) h += helper->ResolveFieldPath(ts[k], "none.s", &out).ok();
                       if (ask & 4) h += helper->ResolveFieldPath(ts[k], "%73", &out).ok();
                     }
                     if (ask & 8) h += helper->Info()->GetTypeByTypeUrl(ct::Url("mctest.M")) != nullptr;
                     if (ask & 16) h += helper->Info()->GetEnumByTypeUrl(ct::Url("mctest.None")) != nullptr;
                     pb::Type x;
                     if (ask & 32) h += helper->Resolver()->ResolveMessageType(ct::Url("mctest.N"), &x).ok();
                     return h;
                   });
                 }
               }});
  // Long streams, taken as they come.
  if (!kSan) {
    size_t small = 40, big = th ? 4000 : 800;
    struct G {
      const char* what;
      int kind;
    };
    static const G gs[] = {{"streaming request", 0}, {"streaming request with delimiters, read as bytes", 1}, {"array response", 2}, {"response in lines, read as bytes", 3}, {"frame reader", 4}, {"byte view", 5}, {"lookups with the same outputs", 6}, {"builder with rejected registrations", 7}};
    static const std::vector<std::string> elements = {"{}", "{\"s\":\"a text longer than a string object holds\"}", "{\"m\":{\"r\":[\"a\",\"b\"]}}", "{\"unknown\":[1,2,{\"a\":null}]}"};
    v.push_back({"growth", "streams of " + num(small) + " and " + num(big) + " messages taken as they arrive (requests, responses, frames, byte views; 4 kinds of elements; pieces whole or in two), lookups and rejected registrations repeated: no more memory in use for the longer one", (uint64_t)8 * 8, [=](T& t, uint64_t u) {
                   const G& g = gs[u / 8];
                   const std::string& el = elements[u / 2 % 4];
                   bool split = u & 1;
                   if (!t.begin([&] { return std::string(g.what) + ", elements " + el + (split ? ", pieces in two" : ""); })) return;
                   ct::world();
                   std::string bin;
                   if (!ct::JsonToMessage("mctest.M", el, &bin, true)) t.fail("error of the check");
                   growth(t, g.what, small, big, [&](size_t n) -> size_t {
                     Looped in;
                     in.n = n;
                     in.split = split;
                     std::string m;
                     size_t got = 0;
                     auto bytes = [&](gt::MessageStream& s, size_t per) {
                       auto view = s.CreateInputStream();
                       size_t sum = 0;
                       for (size_t k = 0; k < n + 2; ++k) {
                         in.allowed = k + 1;
                         while (view->BytesAvailable() > 0) {
                           const void* d;
                           int sz;
                           if (!view->Next(&d, &sz)) break;
                           sum += sz;
                         }
                       }
                       return sum / per;
                     };
                     switch (g.kind) {
                       case 0: case 1: {
                         in.pre = "[" + el, in.unit = "," + el, in.suf = "]";
                         gt::JsonRequestTranslator tr(ct::world().helper->Resolver(), &in, g.kind ? info("*", {}, false) : info("*", {{"s", "z"}}, false), true, g.kind == 1);
                         if (g.kind == 1) return bytes(tr.Output(), 5 + bin.size()) - 1;
                         for (size_t k = 0; k < n + 2; ++k) {
                           in.allowed = k + 1;
                           while (tr.Output().NextMessage(&m)) ++got;
                         }
                         return got - 1;
                       }
                       case 2: case 3: {
                         in.pre = frame(bin), in.unit = frame(bin), in.suf = "";
                         gt::JsonResponseTranslateOptions op{};
                         op.stream_newline_delimited = g.kind == 3;
                         gt::ResponseToJsonTranslator tr(ct::world().helper->Resolver(), ct::Url("mctest.M"), true, &in, op);
                         if (g.kind == 3) {
                           std::string one;
                           google::protobuf::io::ArrayInputStream a(bin.data(), bin.size());
                           google::protobuf::io::StringOutputStream os(&one);
                           bridge::BinaryToJson(ct::world().real.get(), ct::Url("mctest.M"), &a, &os, {});
                           return bytes(tr, one.size() + 1) - 1;
                         }
                         for (size_t k = 0; k < n + 2; ++k) {
                           in.allowed = k + 1;
                           while (tr.NextMessage(&m)) ++got;
                         }
                         return got - 2;
                       }
                       case 4: {
                         in.pre = in.unit = frame(bin + "x"), in.suf = "";
                         gt::MessageReader r(&in);
                         for (size_t k = 0; k < n + 2; ++k) {
                           in.allowed = k + 1;
                           while (auto s = r.NextMessage()) {
                             const void* d;
                             int sz;
                             while (s->Next(&d, &sz)) {
                             }
                             ++got;
                           }
                         }
                         return got - 1;
                       }
                       case 5: {
                         struct Src : gt::MessageStream {
                           const std::string* el;
                           size_t left;
                           bool NextMessage(std::string* m) override {
                             if (!left) return false;
                             --left;
                             *m = *el;
                             return true;
                           }
                           bool Finished() const override { return !left; }
                           absl::Status Status() const override { return absl::OkStatus(); }
                         } src;
                         src.el = &el;
                         src.left = n;
                         auto view = src.CreateInputStream();
                         while (view->BytesAvailable() > 0) {
                           const void* d;
                           int sz;
                           if (!view->Next(&d, &sz)) break;
                           if (split && sz > 1) view->BackUp(1);
                           else ++got;
                           if (split && sz > 1 && view->Next(&d, &sz)) ++got;
                         }
                         return got;
                       }
                       case 6: {
                         gt::PathMatcherBuilder<M> b;
                         b.SetMatchUnregisteredCustomVerb(split);
                         b.Register("GET", "/a/{x}/{y=**}", "body", {"key"}, &kA);
                         auto p = b.Build();
                         std::vector<gt::VariableBinding> bs;
                         std::string body;
                         for (size_t k = 0; k < n; ++k) {
                           got += p->Lookup("GET", split ? "/a/1/2%20" : "/a/%41/b/c", "q.r=" + el, &bs, &body) != nullptr;
                           p->Lookup("GET", "/b:v", "q=1", &bs, &body);
                         }
                         return got;
                       }
                       default: {
                         gt::PathMatcherBuilder<M> b;
                         b.SetFailRegistrationOnDuplicate(true);
                         b.Register("GET", "/a/{x}", "", &kA);
                         for (size_t k = 0; k < n; ++k) got += !b.Register("GET", split ? "/a/{x}" : "/a/{x", el, {"key"}, &kB);
                         return got;
                       }
                     }
                   });
                 }});
  }
  return v;
}
}  // namespace

int main(int argc, char** argv) { return mc::Main(argc, argv, spaces); }
