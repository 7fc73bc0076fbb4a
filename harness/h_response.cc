// C19: ResponseToJsonTranslator over every small response, segmentation, arrival and poll schedule.
#include <algorithm>
#include <map>
#include <memory>

#include "conv.h"
#include "ctypes.h"
#include "google/protobuf/io/zero_copy_stream_impl.h"
#include "google/protobuf/io/zero_copy_stream_impl_lite.h"
#include "google/protobuf/util/json_util.h"
#include "grpc_transcoding/response_to_json_translator.h"
#include "mc.h"
#include "source.h"

namespace gt = google::grpc::transcoding;
namespace pu = google::protobuf::util;
namespace pbio = google::protobuf::io;
using mc::T;

namespace {
#ifdef MC_SAN
const bool kSan = true;
#else
const bool kSan = false;
#endif
std::string num(size_t n) { return std::to_string(n); }

// One message, alone, translated in one go by the library.
struct Alone {
  bool ok = false;
  std::string json;
};
const Alone& alone(const std::string& payload, int print) {
  static std::map<std::pair<std::string, int>, Alone> memo;
  if (memo.size() > 200000) memo.clear();
  auto k = std::make_pair(payload, print);
  auto it = memo.find(k);
  if (it != memo.end()) return it->second;
  Alone a;
  pbio::ArrayInputStream in(payload.data(), payload.size());
  {
    pbio::StringOutputStream out(&a.json);
    bridge::PrintOptions po;
    po.add_whitespace = print & 1;
    po.always_print_primitive_fields = print & 2;
    po.always_print_enums_as_ints = print & 4;
    po.preserve_proto_field_names = print & 8;
    a.ok = bridge::BinaryToJson(ct::world().real.get(), ct::Url("mctest.M"), &in, &out, po).code == 0;
  }
  const void* d;
  int n;
  while (a.ok && in.Next(&d, &n))
    if (n) a.ok = false;  // the bytes end as a message before they end: not an encoding of a message
  return memo[k] = a;
}

std::string frame(const std::string& p, unsigned flag = 0) {
  std::string o(1, (char)flag);
  for (int s = 24; s >= 0; s -= 8) o += (char)(p.size() >> s);
  return o + p;
}

struct Case {
  std::string bytes;
  std::vector<std::string> payloads;  // complete frames, up to the first framing error
  std::vector<size_t> ends;           // where they end
  size_t error_at = ~0ull;            // framing error: known once that many bytes have arrived (~0: none)
  bool tail = false;                  // bytes of an incomplete frame at the end
  std::string text;
};
Case make(const std::vector<std::pair<unsigned, std::string>>& frames, const std::string& tail) {
  Case c;
  bool bad = false;
  for (auto& f : frames) {
    if (!bad && f.first) {
      bad = true;
      c.error_at = c.bytes.size() + 5;
    }
    c.bytes += frame(f.second, f.first);
    if (!bad) {
      c.payloads.push_back(f.second);
      c.ends.push_back(c.bytes.size());
    }
    c.text += (f.first ? "flag " + num(f.first) + " " : "") + mc::q(f.second) + " ";
  }
  if (!tail.empty()) c.text += "then " + mc::q(tail);
  c.bytes += tail;
  c.tail = !tail.empty();
  if (c.tail && c.error_at == ~0ull && tail.size() >= 5 && tail[0]) c.error_at = c.bytes.size() - tail.size() + 5;
  return c;
}

enum { kUnary, kArray, kLines };
struct Mode {
  int kind = kUnary, print = 0;
  int poll = 0;       // 0: until nothing comes, after each arrival; 1: once after each arrival; 2: only at the end; 3: as 0, twice more
  bool late = false;  // the end is known only after the last buffer has been seen
  bool reuse = true;  // the caller passes the same string every time
};
const char* const kKind[] = {"unary", "array", "lines"};

void response_case(T& t, const Case& c, const std::vector<uint32_t>& cuts, const Mode& m) {
  if (!t.begin([&] {
        std::string o = std::string(kKind[m.kind]) + " response, frames " + c.text + "; buffers end at";
        for (auto x : cuts) o += " " + num(x);
        static const char* const p[] = {"after each arrival", "once after each arrival", "at the end", "after each arrival, and twice more"};
        return o + "; polled " + p[m.poll] + (m.late ? "; end signalled after the last buffer" : "") + (m.print ? "; print options " + num(m.print) : "") + (m.reuse ? "" : "; a new string each time");
      }))
    return;
  ArrivingSource in;
  in.reset(c.bytes, cuts);
  gt::JsonResponseTranslateOptions opt;
  opt.json_print_options.add_whitespace = m.print & 1;
  opt.json_print_options.always_print_primitive_fields = m.print & 2;
  opt.json_print_options.always_print_enums_as_ints = m.print & 4;
  opt.json_print_options.preserve_proto_field_names = m.print & 8;
  opt.stream_newline_delimited = m.kind == kLines;
  gt::ResponseToJsonTranslator tr(ct::world().helper->Resolver(), ct::Url("mctest.M"), m.kind != kUnary, &in, opt);
  std::string got, msg = "#stale#";
  // The whole output there is to have when `avail` bytes have arrived; error: the output ends there with an error.
  auto want = [&](size_t avail, bool ended, bool* error, bool* finished) {
    std::string o;
    *error = *finished = false;
    size_t i = 0;
    for (; i < c.payloads.size() && c.ends[i] <= avail; ++i) {
      const Alone& a = alone(c.payloads[i], m.print);
      if (!a.ok) {
        *error = true;
        return o;
      }
      if (m.kind == kArray) o += i ? "," : "[";
      o += a.json;
      if (m.kind == kLines) o += "\n";
      if (m.kind == kUnary) {
        *finished = true;
        return o;
      }
    }
    if (i == c.payloads.size() && c.error_at <= avail) {
      *error = true;
      return o;
    }
    if (ended) {
      if (i < c.payloads.size() || c.tail || c.error_at != ~0ull) {
        *error = true;
      } else if (m.kind != kUnary) {
        *finished = true;
        if (m.kind == kArray) o += i ? "]" : "[]";
      }
    }
    return o;
  };
  auto poll = [&]() {
    std::string fresh = "#stale#";
    std::string* p = m.reuse ? &msg : &fresh;
    bool over = tr.Finished();
    absl::Status before = tr.Status();
    bool r = tr.NextMessage(p);
    t.step();
    t.check(in.bad.empty(), [&] { return "the translator " + in.bad; });
    t.check(!(over && r), [] { return std::string("a message after Finished()"); });
    t.check(before.ok() || tr.Status() == before, [] { return std::string("the error changed"); });
    t.check(!over || tr.Finished(), [] { return std::string("Finished() became false"); });
    if (r) got += *p;
    return r;
  };
  auto compare = [&](bool exhausted, const char* when) {
    bool error, finished;
    std::string w = want(in.arrived_bytes(), in.ended, &error, &finished);
    if (exhausted) {
      t.check(got == w, [&] { return std::string(when) + ": output so far " + mc::q(got) + ", expected " + mc::q(w); });
      t.check(tr.Status().ok() == !error, [&] { return std::string(when) + ": status " + tr.Status().ToString() + (error ? ", expected an error" : ", expected OK"); });
      if (error) {  // a framing error is internal (what code an undecodable message gets is the library's business)
        size_t i = 0;
        while (i < c.payloads.size() && c.ends[i] <= in.arrived_bytes() && alone(c.payloads[i], m.print).ok) ++i;
        if (i == c.payloads.size() || c.ends[i] > in.arrived_bytes()) t.check(tr.Status().code() == absl::StatusCode::kInternal, [&] { return std::string(when) + ": status " + tr.Status().ToString() + " for a framing error"; });
      }
      // (a unary response that has ended without a message is not judged)
      t.check(tr.Finished() == (error || finished), [&] { return std::string(when) + ": Finished() is " + num(tr.Finished()); });
    } else {
      t.check(w.compare(0, got.size(), got) == 0, [&] { return std::string(when) + ": output so far " + mc::q(got) + " is not the beginning of " + mc::q(w); });
    }
    t.state(mc::comb(mc::hash(got), (uint64_t)tr.Finished() * 2 + tr.Status().ok()));
  };
  for (size_t i = 0; i <= cuts.size(); ++i) {
    if (i == cuts.size()) {
      if (in.ended) break;
      in.ended = true;
    } else {
      in.arrived = i + 1;
      if (i + 1 == cuts.size() && !m.late) in.ended = true;
    }
    if (m.poll == 1 && !in.ended) {
      poll();
      compare(false, "after one poll");
    } else if (m.poll != 2 || in.ended) {
      int k = 0;
      while (poll())
        if (++k > 1000) t.fail("endless messages");
      compare(true, in.ended ? "at the end" : "midway");
      if (m.poll == 3) {
        poll();
        poll();
        compare(true, "polled again");
      }
    }
  }
  poll();
  poll();
  compare(true, "after the end");
}

std::string B(std::initializer_list<int> v) {
  std::string s;
  for (int x : v) s += (char)x;
  return s;
}
const std::vector<std::string>& pool() {  // messages, and what is none
  static const std::vector<std::string> v = [] {
    std::vector<std::string> v;
    v.push_back("");                                  // {}
    v.push_back(B({0x0a, 1, 'a'}));                   // s
    v.push_back(B({0x0a, 4, '"', '\n', ',', ']'}));   // s to be escaped
    v.push_back(B({0x10, 5}));                        // i
    v.push_back(B({0x1a, 3, 0x0a, 1, 'b'}));          // m.s
    v.push_back(B({0x1a, 0, 0x28, 1}));               // m, e
    v.push_back(B({0x22, 1, 'x', 0x22, 0, 0x32, 2, 1, 2}));  // r, ri
    v.push_back(B({0xa0, 0x06, 1}));                  // unknown field
    v.push_back(B({0x0a, 5, 'a'}));                   // cut short
    v.push_back(B({0x0a}));
    v.push_back(B({0x0f, 1}));                        // bad wire type
    v.push_back(B({0, 0, 0}));                        // tag 0
    return v;
  }();
  return v;
}
void cuts_of(size_t n, uint64_t mask, std::vector<uint32_t>* v) {
  v->clear();
  for (size_t i = 1; i < n; ++i)
    if (mask >> (i - 1) & 1) v->push_back(i);
  v->push_back(n);
}
std::vector<Mode> modes(bool all) {
  std::vector<Mode> v;
  for (int k = 0; k < 3; ++k)
    for (int p = 0; p < 4; ++p)
      for (int late = 0; late < 2; ++late) {
        if (!all && (p == 3 || (p == 2 && late))) continue;
        Mode m;
        m.kind = k;
        m.poll = p;
        m.late = late;
        v.push_back(m);
      }
  return v;
}

std::vector<mc::Space> spaces(const mc::Options& o) {
  bool th = o.thorough();
  std::vector<mc::Space> v;
  static const std::vector<std::string> tails = {"", std::string(1, '\0'), std::string(4, '\0'), B({0, 0, 0, 0, 1}), B({0, 0, 0, 0, 3, 0x0a, 1}), B({1, 0, 0, 0, 0}), B({1, 0, 0}), B({0, 0x7f, 0xff, 0xff, 0xff, 'x'})};
  uint64_t np = pool().size();
  // 1. every segmentation of short responses
  size_t lim = kSan ? 12 : th ? 19 : 16;
  auto shorts = std::make_shared<std::vector<Case>>();
  auto longs = std::make_shared<std::vector<Case>>();
  auto put = [&](const Case& c) {
    if (c.bytes.size() <= lim) shorts->push_back(c);
    else longs->push_back(c);
  };
  for (auto& tail : tails) {
    put(make({}, tail));
    for (uint64_t a = 0; a < np; ++a) {
      put(make({{0, pool()[a]}}, tail));
      for (uint64_t b = 0; b < np; ++b) {
        put(make({{0, pool()[a]}, {0, pool()[b]}}, tail));
        if (tail.empty())
          for (uint64_t c = 0; c < np; ++c) put(make({{0, pool()[a]}, {0, pool()[b]}, {0, pool()[c]}}, tail));
      }
      if (tail.empty()) {
        put(make({{1, pool()[a]}}, tail));
        put(make({{0, pool()[a]}, {1, ""}}, tail));
        put(make({{0, pool()[a]}, {128, "x"}, {0, ""}}, tail));
      }
    }
  }
  std::sort(shorts->begin(), shorts->end(), [](const Case& a, const Case& b) { return a.bytes.size() > b.bytes.size(); });
  v.push_back({"segments", "every response of up to " + num(lim) + " bytes made of up to three messages of a pool of " + num(np) + " (four of them undecodable), framing errors or an unfinished frame: every segmentation into buffers, unary, array and lines, poll schedules",
               shorts->size(), [=](T& t, uint64_t u) {
                 const Case& c = (*shorts)[u];
                 std::vector<uint32_t> cuts;
                 size_t n = c.bytes.size();
                 if (n == 0) {
                   for (auto& m : modes(true)) response_case(t, c, {}, m), response_case(t, c, {0}, m);
                   return;
                 }
                 for (uint64_t mask = 0; mask < 1ull << (n - 1); ++mask) {
                   cuts_of(n, mask, &cuts);
                   if (n <= 10) {
                     for (auto& m : modes(true)) response_case(t, c, cuts, m);
                   } else {
                     for (int k = 0; k < 3; ++k) {
                       Mode m;
                       m.kind = k;
                       m.late = __builtin_parityll(mask);
                       m.poll = mask % 3 == 2 && n > 13 ? 1 : 0;
                       response_case(t, c, cuts, m);
                     }
                   }
                 }
               }});
  v.push_back({"longer", "the longer ones of these responses (up to " + num(40) + " bytes): whole, byte by byte, and every segmentation into two and three buffers", longs->size(), [=](T& t, uint64_t u) {
                 const Case& c = (*longs)[u];
                 size_t n = c.bytes.size();
                 std::vector<uint32_t> cuts;
                 for (auto& m : modes(false)) {
                   response_case(t, c, {(uint32_t)n}, m);
                   cuts.clear();
                   for (size_t i = 1; i <= n; ++i) cuts.push_back(i);
                   response_case(t, c, cuts, m);
                   cuts.clear();
                   for (size_t i = 1; i <= n; ++i) cuts.push_back(i), cuts.push_back(i);  // empty buffers between
                   response_case(t, c, cuts, m);
                   for (size_t i = 1; i < n; ++i) response_case(t, c, {(uint32_t)i, (uint32_t)n}, m);
                   if (m.poll == 0 && !m.late && !kSan)
                     for (size_t i = 1; i < n; ++i)
                       for (size_t j = i + 1; j < n; ++j) response_case(t, c, {(uint32_t)i, (uint32_t)j, (uint32_t)n}, m);
                 }
               }});
  // 2. every short payload (no packed field: on one that is cut short libprotobuf itself reads on without end)
  static const std::vector<int> by = {0x00, 0x01, 0x02, 0x08, 0x0a, 0x0b, 0x0c, 0x0d, 0x0f, 0x10, 0x12, 0x18, 0x1a, 0x1c, 0x22, 0x30, 'a', 0x7f, 0x80, 0xff};
  uint64_t nb = by.size();
  int len = kSan ? 2 : th ? 5 : 4;
  v.push_back({"payloads", "every payload of up to " + num(len) + " bytes over " + num(nb) + " telling byte values (tags of every wire type, lengths, text, not UTF-8), between two good messages: what one message holds does not reach the next", nb * nb, [=](T& t, uint64_t u) {
                 std::function<void(std::string&)> go = [&](std::string& p) {
                   Case c = make({{0, pool()[1]}, {0, p}, {0, pool()[3]}}, "");
                   for (int k = 0; k < 3; ++k) {
                     Mode m;
                     m.kind = k;
                     if (p.size() > 3 && k != kArray) continue;
                     response_case(t, k == kUnary ? make({{0, p}, {0, pool()[3]}}, "") : c, {(uint32_t)(k == kUnary ? c.bytes.size() - pool()[1].size() - 5 : c.bytes.size())}, m);
                   }
                   if ((int)p.size() == len) return;
                   for (int b : by) {
                     p += (char)b;
                     go(p);
                     p.pop_back();
                   }
                 };
                 std::string p;
                 if (u == 0) {
                   Case c = make({{0, pool()[1]}, {0, p}, {0, pool()[3]}}, "");
                   for (int b : by) {
                     std::string q(1, (char)b);
                     for (auto& m : modes(true)) response_case(t, make({{0, q}, {0, pool()[1]}}, ""), {(uint32_t)(q.size() + 5 + 8)}, m);
                   }
                 }
                 p = B({by[u / nb], by[u % nb]});
                 go(p);
               }});
  // 3. print options
  v.push_back({"printing", "every combination of print options, one and two messages, unary, array and lines", 16 * np, [=](T& t, uint64_t u) {
                 for (uint64_t b = 0; b < np; ++b)
                   for (auto& m0 : modes(true)) {
                     Mode m = m0;
                     m.print = u % 16;
                     for (int reuse = 0; reuse < 2; ++reuse) {
                       m.reuse = reuse;
                       Case c = make({{0, pool()[u / 16]}, {0, pool()[b]}}, "");
                       response_case(t, c, {(uint32_t)c.bytes.size()}, m);
                       response_case(t, c, {(uint32_t)c.ends[0], (uint32_t)c.bytes.size()}, m);
                       if (b == 0) {
                         Case d = make({{0, pool()[u / 16]}}, "");
                         response_case(t, d, {2, (uint32_t)d.bytes.size()}, m);
                       }
                     }
                   }
               }});
  // 4. sizes
  v.push_back({"sizes", "messages of every size around the powers of two up to 2^17 (2^20: thorough), followed by another one, in buffers of 1, 2, 5, 7, 4096 bytes, one buffer, and split at every place around the frames' ends", th ? 21ull : 18ull, [=](T& t, uint64_t u) {
                 for (int d = -8; d <= 1; ++d) {
                   int64_t n = (1ll << u) + d;
                   if (n < 0 || (u > 16 && d < -6)) continue;
                   std::string p = B({0x0a});
                   uint64_t x = n;
                   while (x >= 128) p += (char)(x | 128), x >>= 7;
                   p += (char)x;
                   p += std::string(n, 'z');
                   Case c = make({{0, p}, {0, pool()[1]}, {0, p}}, "");
                   c.text = "s of " + num(n) + " bytes, s=a, the first again ";
                   std::vector<uint32_t> cuts;
                   for (size_t step : {(size_t)1, (size_t)2, (size_t)5, (size_t)7, (size_t)4096, c.bytes.size()}) {
                     if (c.bytes.size() / step > (kSan ? 2000 : 20000)) continue;
                     cuts.clear();
                     for (size_t i = step; i < c.bytes.size(); i += step) cuts.push_back(i);
                     cuts.push_back(c.bytes.size());
                     for (int k = 0; k < 3; ++k) {
                       Mode m;
                       m.kind = k;
                       if (cuts.size() > 2000) m.poll = 2;
                       response_case(t, c, cuts, m);
                     }
                   }
                   for (int k = 0; k < 3; ++k)
                     for (size_t e : {c.ends[0], c.ends[1]})
                       for (int d2 = -6; d2 <= 6; ++d2) {
                         if ((int64_t)e + d2 <= 0 || e + d2 >= c.bytes.size()) continue;
                         Mode m;
                         m.kind = k;
                         response_case(t, c, {(uint32_t)(e + d2), (uint32_t)c.bytes.size()}, m);
                       }
                 }
               }});
  return v;
}
}  // namespace
int main(int c, char** v) { return mc::Main(c, v, spaces); }
