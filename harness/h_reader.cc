// C14-C16: exhaustive exploration of MessageReader over every small stream of frames, segmentation, arrival and poll schedule.
#include <algorithm>
#include <memory>
#include <set>

#include "google/protobuf/io/zero_copy_stream.h"
#include "grpc_transcoding/message_reader.h"
#include "mc.h"

namespace gt = google::grpc::transcoding;
using mc::T;

namespace {
#ifdef MC_SAN
const bool kSan = true;
#else
const bool kSan = false;
#endif
std::string num(uint64_t n) { return std::to_string(n); }
std::string g_prop;
bool is(const char* p) { return g_prop == p; }

// The input: the bytes arrive in buffers; the reader sees what has arrived. Records what is asked of it.
class Input : public gt::TranscoderInputStream {
 public:
  std::string bytes;              // all of them
  std::vector<uint32_t> cuts;     // ends of the buffers, increasing, the last = bytes.size(); repeated = an empty buffer
  size_t arrived = 0;             // buffers that have arrived
  bool ended = false;
  size_t pos = 0, buf = 0;        // next byte; buffer it is in
  size_t last = 0;                // size of the last buffer handed out (limit of BackUp)
  int zero = 0, calls = 0;
  std::string bad;                // what was asked wrongly
  std::vector<std::unique_ptr<char[]>> mem;

  void reset(const std::string& b, const std::vector<uint32_t>& c) {
    bytes = b;
    cuts = c;
    mem.clear();
    size_t at = 0;
    for (uint32_t e : cuts) {  // every buffer is an allocation of its own: a sanitizer sees any overrun
      mem.emplace_back(new char[e - at]);
      memcpy(mem.back().get(), bytes.data() + at, e - at);
      at = e;
    }
  }
  size_t begin_of(size_t i) const { return i ? cuts[i - 1] : 0; }
  size_t arrived_bytes() const { return arrived ? cuts[arrived - 1] : 0; }
  bool Next(const void** data, int* size) override {
    ++calls;
    while (buf < arrived && pos == cuts[buf] && !(begin_of(buf) == cuts[buf] && !skipped_)) ++buf, skipped_ = false;
    if (buf >= arrived) {
      if (bad.empty()) bad = "asks the input for data when none is available";
      if (++zero > 1000) bad = "asks the input for data endlessly";
      *size = 0;
      last = 0;
      if (zero > 1000) return false;
      return !ended;
    }
    skipped_ = true;
    *data = mem[buf].get() + (pos - begin_of(buf));
    *size = cuts[buf] - pos;
    last = *size;
    pos = cuts[buf];
    return true;
  }
  void BackUp(int n) override {
    ++calls;
    if (n < 0 || (size_t)n > last) {
      if (bad.empty()) bad = "backs up " + std::to_string(n) + " bytes after a buffer of " + num(last);
      return;
    }
    pos -= n;
    last = 0;
  }
  bool Skip(int n) override {
    ++calls;
    last = 0;
    size_t to = std::min(pos + n, arrived_bytes());
    bool ok = pos + n <= arrived_bytes();
    if (!ok && bad.empty()) bad = "skips data that is not available";
    pos = to;
    while (buf < arrived && pos > cuts[buf]) ++buf, skipped_ = false;
    return ok;
  }
  int64_t ByteCount() const override { return pos; }
  int64_t BytesAvailable() const override { return arrived_bytes() - pos; }
  bool Finished() const override { return ended; }

 private:
  bool skipped_ = false;
};

struct Plan {
  std::vector<int> polls;  // after the arrival of buffer i: number of calls of NextMessage; -1: until it gives nothing, -2: and twice more
  int mode = 0;            // how messages are consumed: 0 Next; 1 Next with BackUp and again; 2 Skip
  int frame_api = 0;       // 0 NextMessage, 1 NextMessageAndGrpcFrame, 2 alternating
  bool end_with_last = false;
};

// What the reader has to do, by the wire format alone.
struct Model {
  const std::string* s;
  size_t p = 0;
  bool error = false, finished = false;
  // 0: nothing, 1: a message [b, e)
  int poll(size_t avail, bool ended, size_t* b, size_t* e) {
    if (error || finished) return 0;
    if (avail - p < 5) {
      if (ended) {
        finished = true;
        error = avail != p;
      }
      return 0;
    }
    const unsigned char* h = reinterpret_cast<const unsigned char*>(s->data()) + p;
    if (h[0] != 0) {
      error = true;
      return 0;
    }
    uint64_t n = (uint64_t)h[1] << 24 | h[2] << 16 | h[3] << 8 | h[4];
    if (avail - p - 5 < n) {
      error = ended;
      return 0;
    }
    *b = p + 5;
    *e = p + 5 + n;
    p = *e;
    return 1;
  }
};

struct Run {
  T& t;
  Input in;
  Model m;
  std::unique_ptr<gt::MessageReader> r;
  int mode, api, count = 0;
  std::string how;

  void check_rest(const char* when) {
    if (is("C15")) {
      t.check(r->Status().ok() == !m.error, [&] { return std::string(when) + ": status is " + r->Status().ToString() + (m.error ? ", expected an error" : ", expected OK"); });
      t.check(!m.error || r->Status().code() == absl::StatusCode::kInternal, [&] { return std::string(when) + ": status is " + r->Status().ToString() + ", expected an internal error"; });
      t.check(r->Finished() == (m.error || m.finished), [&] { return std::string(when) + ": Finished() is " + num(r->Finished()) + ", expected " + num(m.error || m.finished); });
    }
    if (is("C16")) {
      t.check(in.bad.empty(), [&] { return std::string(when) + ": the reader " + in.bad; });
      // Between messages: nothing is consumed beyond the last message, except a complete header.
      size_t lo = m.p, hi = in.arrived_bytes() - m.p >= 5 ? m.p + 5 : m.p;
      t.check(in.pos == lo || in.pos == hi, [&] { return std::string(when) + ": " + num(in.pos) + " bytes are consumed, expected " + num(lo) + (hi != lo ? " or " + num(hi) : ""); });
    }
  }
  // One call; true if it gave a message.
  bool call() {
    ++count;
    size_t b = 0, e = 0;
    size_t before = m.p;
    int x = m.poll(in.arrived_bytes(), in.ended, &b, &e);
    t.step();
    std::unique_ptr<google::protobuf::io::ZeroCopyInputStream> msg;
    bool framed = api == 1 || (api == 2 && count % 2);
    gt::MessageAndGrpcFrame f;
    if (framed) {
      f = r->NextMessageAndGrpcFrame();
      msg = std::move(f.message);
    } else {
      msg = r->NextMessage();
    }
    if (!is("C16")) {
      // Yielded exactly when complete (after an error nothing: C15).
      bool after_error = m.error || m.finished;
      if (is("C14") ? !after_error || x : after_error) t.check((msg != nullptr) == (x == 1), [&] { return std::string(msg ? "a message is yielded, but none is due" : "no message is yielded, although one is complete") + " at " + num(in.arrived_bytes()) + " bytes arrived, frame at " + num(before); });
    }
    if (!msg || !x) {
      if ((msg != nullptr) != (x == 1)) {
        // Another property's matter; stop here.
        stop = true;
        return false;
      }
      check_rest("after a call without a message");
      return false;
    }
    if (is("C14") && framed) {
      t.check(memcmp(f.grpc_frame, in.bytes.data() + before, 5) == 0, [&] { return std::string("the frame header returned is not that of the message"); });
      t.check(f.message_size == e - b, [&] { return "message_size is " + num(f.message_size) + ", expected " + num(e - b); });
    }
    // Consume it.
    std::string got;
    const void* d;
    int n, guard = 0;
    size_t want = e - b;
    if (mode == 2) {
      bool ok = want == 0 || msg->Skip(want);
      t.check(ok, [&] { return std::string("Skip over the message fails"); });
      if (is("C16")) t.check(in.pos == e, [&] { return "after skipping the message " + num(in.pos) + " bytes are consumed, expected " + num(e); });
      t.check(!msg->Next(&d, &n), [&] { return std::string("the message does not end at its end"); });
    } else {
      bool backed = false;
      while (msg->Next(&d, &n)) {
        t.check(n >= 0 && got.size() + n <= want, [&] { return "the message goes on beyond its end (" + num(got.size() + n) + " of " + num(want) + " bytes)"; });
        t.check(++guard < 10000, [&] { return std::string("the message does not end"); });
        got.append(static_cast<const char*>(d), n);
        if (mode == 1 && n > 0 && !backed) {
          int k = n > 1 ? n - 1 : 1;
          msg->BackUp(k);
          got.resize(got.size() - k);
          backed = true;
        } else {
          backed = false;
        }
      }
      if (!is("C16") || got.size() != want)
        t.check(got == in.bytes.substr(b, want), [&] { return "message " + mc::q(got) + ", expected " + mc::q(in.bytes.substr(b, want)); });
      t.check(!msg->Next(&d, &n), [&] { return std::string("the message goes on after its end"); });
    }
    msg.reset();
    if (is("C16")) t.check(in.pos == e, [&] { return "after the message " + num(in.pos) + " bytes are consumed, expected " + num(e); });
    check_rest("after a message");
    return true;
  }
  bool stop = false;
};

void drive(T& t, const std::string& bytes, const std::vector<uint32_t>& cuts, const Plan& pl) {
  Run r{t};
  r.in.reset(bytes, cuts);
  r.m.s = &r.in.bytes;
  r.mode = pl.mode;
  r.api = pl.frame_api;
  r.r.reset(new gt::MessageReader(&r.in));
  uint64_t sh = mc::hash(bytes);
  r.check_rest("at the start");
  auto poll = [&](int n) {
    if (n >= 0) {
      for (int i = 0; i < n && !r.stop; ++i) r.call();
    } else {
      int c = 0;
      while (!r.stop && r.call()) {
        if (++c > 1000) t.fail("messages without end");
      }
      if (n == -2)
        for (int i = 0; i < 2 && !r.stop; ++i) r.call();
    }
    t.state(mc::comb(mc::comb(sh, r.m.p), mc::comb(r.in.arrived_bytes() * 2 + r.in.ended, r.m.error * 2 + r.m.finished)));
  };
  for (size_t i = 0; i < cuts.size() && !r.stop; ++i) {
    r.in.arrived = i + 1;
    if (pl.end_with_last && i + 1 == cuts.size()) r.in.ended = true;
    poll(pl.polls[i]);
  }
  if (r.stop) return;
  if (!r.in.ended && !cuts.empty()) poll(1);
  r.in.ended = true;
  poll(-2);
  if (r.stop) return;
  // Everything is settled now.
  if (is("C15")) t.check(r.r->Finished(), [] { return std::string("not finished although the input is finished and nothing is left to yield"); });
}

std::string show(const std::string& bytes, const std::vector<uint32_t>& cuts, const Plan& p) {
  std::string o = "stream " + mc::q(bytes) + " buffers:";
  size_t at = 0;
  for (size_t i = 0; i < cuts.size(); ++i) {
    o += " " + num(cuts[i] - at) + (p.polls[i] == 0 ? "" : p.polls[i] == -1 ? "*" : p.polls[i] == -2 ? "**" : "+" + std::to_string(p.polls[i]));
    at = cuts[i];
  }
  return o + " consume " + num(p.mode) + " api " + num(p.frame_api) + (p.end_with_last ? " end with the last buffer" : "");
}

std::string frame(int flag, uint32_t size, const std::string& body) {
  std::string o(1, (char)flag);
  for (int s = 24; s >= 0; s -= 8) o += (char)(size >> s);
  return o + body;
}
// Bodies that look like headers, with every byte different along the stream.
std::string body(size_t n, int salt) {
  std::string o;
  for (size_t i = 0; i < n; ++i) o += (char)(i == 0 ? 0 : i < 4 ? 0 : salt * 16 + i);
  if (n && salt % 2) o[n - 1] = (char)(0x80 | salt);
  return o;
}

// All ways to choose buffers (and where to poll) with at most `dev` cuts.
template <class F>
void segmentations(size_t n, int dev, const std::vector<int>& pollkinds, const F& f) {
  std::vector<uint32_t> cuts;
  std::vector<int> polls;
  std::function<void(size_t, int)> rec = [&](size_t from, int left) {
    // close with the last buffer
    cuts.push_back(n);
    for (int pk : pollkinds) {
      polls.push_back(pk);
      f(cuts, polls);
      polls.pop_back();
    }
    cuts.pop_back();
    if (!left) return;
    for (size_t c = from; c < n; ++c) {
      cuts.push_back(c);
      for (int pk : pollkinds) {
        polls.push_back(pk);
        rec(c + 1, left - 1);
        polls.pop_back();
      }
      cuts.pop_back();
    }
  };
  if (n == 0) {
    f(cuts, polls);
    cuts.push_back(0);
    polls.push_back(1);
    f(cuts, polls);
    return;
  }
  rec(1, dev);
}

struct Stream {
  std::string s;
  std::string what;
};
// Every sequence of at most k frames with sizes from `sizes`, also ending in a frame with a bad flag, and every truncation.
std::vector<std::string> streams(int k, const std::vector<int>& sizes, size_t maxlen) {
  std::set<std::string> seen;
  std::vector<std::string> out;
  std::function<void(std::string, int)> rec = [&](std::string s, int left) {
    auto put = [&](std::string x) {
      if (x.size() <= maxlen && seen.insert(x).second) out.push_back(x);
    };
    put(s);
    for (int fl : {1, 128, 255}) {
      put(s + frame(fl, 0, ""));
      put(s + frame(fl, 1, "z") + frame(0, 0, ""));
      put(s + frame(fl, 2, ""));
      for (int c = 1; c < 5; ++c) put(s + frame(fl, 0, "").substr(0, c));
    }
    put(s + frame(0, 0x01000000, "abc"));
    put(s + frame(0, 0xffffffffu, "abc"));
    put(s + frame(0, 0x80000000u, "abc"));
    put(s + frame(0, 0x7fffffffu, ""));
    if (!left) return;
    for (int z : sizes) {
      std::string f = frame(0, z, body(z, k - left + 1));
      for (size_t c = 1; c < f.size(); ++c) put(s + f.substr(0, c));
      rec(s + f, left - 1);
    }
  };
  rec("", k);
  std::stable_sort(out.begin(), out.end(), [](auto& a, auto& b) { return a.size() < b.size(); });
  return out;
}

std::vector<mc::Space> spaces(const mc::Options& o) {
  g_prop = o.prop;
  bool th = o.thorough();
  std::vector<mc::Space> v;
  {
    size_t N = kSan ? (th ? 10 : 9) : (th ? 13 : 12);
    auto ss = std::make_shared<std::vector<std::string>>(streams(3, {0, 1, 2, 3, 5}, N));
    v.push_back({"full", "every stream of at most 3 frames with at most " + num(N) + " bytes (sizes 0,1,2,3,5; bad flags; huge sizes; every truncation: " + num(ss->size()) + ") x every way to cut it into buffers x a poll or not at each cut x end of input with or after the last buffer",
                 ss->size(), [=](T& t, uint64_t u) {
                   const std::string& s = (*ss)[ss->size() - 1 - u];
                   int c = 0;
                   segmentations(s.size(), s.size(), {0, -1}, [&](const std::vector<uint32_t>& cuts, const std::vector<int>& polls) {
                     ++c;
                     for (int e = 0; e < 2; ++e) {
                       Plan p{polls, c % 3, (c / 3) % 3, e == 1};
                       if (t.begin([&] { return show(s, cuts, p); })) drive(t, s, cuts, p);
                     }
                   });
                 }});
  }
  {
    int dev = th ? (kSan ? 2 : 3) : (kSan ? 1 : 2);
    auto ss = std::make_shared<std::vector<std::string>>(th ? streams(3, {0, 1, 2, 6, 13}, 60) : streams(3, {0, 1, 2, 9}, 48));
    v.push_back({"cuts", "every stream of at most 3 frames (sizes " + std::string(th ? "0,1,2,6,13" : "0,1,2,9") + "; bad flags; huge sizes; every truncation: " + num(ss->size()) + ") x at most " + num(dev) + " cuts x 4 poll schedules at each cut (none, once, until nothing, and twice more) x 3 ways to consume x 3 APIs",
                 ss->size(), [=](T& t, uint64_t u) {
                   const std::string& s = (*ss)[ss->size() - 1 - u];
                   int c = 0;
                   segmentations(s.size(), dev, {0, 1, -1, -2}, [&](const std::vector<uint32_t>& cuts, const std::vector<int>& polls) {
                     ++c;
                     for (int mode = 0; mode < 3; ++mode)
                       for (int api = 0; api < 3; ++api) {
                         if (cuts.size() > 2 && (mode + api + c) % 3) continue;
                         Plan p{polls, mode, api, (c + mode + api) % 2 == 1};
                         if (t.begin([&] { return show(s, cuts, p); })) drive(t, s, cuts, p);
                       }
                   });
                 }});
  }
  {
    auto ss = std::make_shared<std::vector<std::string>>(streams(2, {0, 1, 3}, 20));
    v.push_back({"empty", "every stream of at most 2 frames (" + num(ss->size()) + ") x every cut and every position of one or two empty buffers x poll schedules", ss->size(), [=](T& t, uint64_t u) {
                   const std::string& s = (*ss)[u];
                   for (size_t a = 0; a <= s.size(); ++a)
                     for (size_t b = a; b <= s.size(); ++b)
                       for (size_t c = 0; c <= s.size(); ++c)
                         for (int pk : {0, 1, -2}) {
                           std::vector<uint32_t> cuts = {(uint32_t)a, (uint32_t)b, (uint32_t)c, (uint32_t)c, (uint32_t)s.size()};
                           std::sort(cuts.begin(), cuts.end());
                           Plan p{std::vector<int>(cuts.size(), pk), (int)(a + c) % 2, 2, (b + c) % 2 == 1};
                           if (t.begin([&] { return show(s, cuts, p); })) drive(t, s, cuts, p);
                         }
                 }});
  }
  v.push_back({"flags", "every flag byte x every value of each size byte (others zero), complete or not, polled byte by byte", 256, [=](T& t, uint64_t u) {
                 for (int k = 0; k < 4; ++k)
                   for (int x = 0; x < 256; ++x) {
                     std::string pre = frame(0, 2, "ok");
                     std::string f = frame(u, (uint32_t)x << (8 * k), "");
                     if (((uint32_t)x << (8 * k)) <= 70000) f += std::string(((uint32_t)x << (8 * k)), 'b') + "tail";
                     std::string s = pre + f;
                     if (u && x > 2 && x < 254 && x % 16) continue;
                     std::vector<std::vector<uint32_t>> cs = {{(uint32_t)s.size()}, {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, (uint32_t)s.size()}, {7, (uint32_t)std::min<size_t>(s.size(), 14), (uint32_t)s.size()}, {12, (uint32_t)(s.size() - (s.size() > 20 ? 5 : 0)), (uint32_t)s.size()}};
                     for (size_t i = 0; i < cs.size(); ++i) {
                       if (i == 1 && s.size() < 12) continue;
                       Plan p{std::vector<int>(cs[i].size(), -2), (x + (int)i) % 3, 2, x % 2 == 1};
                       if (t.begin([&] { return "flag " + num(u) + " size byte " + num(k) + " = " + num(x) + ": " + show(s.substr(0, 40), {}, p) + " cut " + num(i); })) drive(t, s, cs[i], p);
                     }
                   }
               }});
  int NM = th ? 400 : 60;
  v.push_back({"many", "n frames of m bytes, cut into buffers of b bytes: n <= " + num(NM) + ", m in 0..9, b in 1..13", (uint64_t)NM + 1, [=](T& t, uint64_t n) {
                 for (size_t m = 0; m < 10; ++m) {
                   std::string s;
                   for (size_t i = 0; i < n; ++i) s += frame(0, m, body(m, i % 7));
                   for (size_t b = 1; b <= 13; ++b)
                     for (int pk : {0, 1, -1}) {
                       std::vector<uint32_t> cuts;
                       for (size_t c = b; c < s.size(); c += b) cuts.push_back(c);
                       cuts.push_back(s.size());
                       Plan p{std::vector<int>(cuts.size(), pk), (int)(m + b) % 3, (int)b % 3, (n + b) % 2 == 1};
                       if (t.begin([&] { return num(n) + " frames of " + num(m) + " bytes in buffers of " + num(b) + ", polls " + std::to_string(pk); })) drive(t, s, cuts, p);
                     }
                 }
               }});
  // Sizes around every power of two, with the body generated lazily (never materialised above 1 MiB).
  v.push_back({"sizes", "a frame of 2^k-1, 2^k, 2^k+1 bytes for k = 3..32 (up to 4294967295), between two small frames, complete at once or with the last byte late, in buffers of 2^30, 2^20+1 or 65535 bytes", 30 * 3, [=](T& t, uint64_t u) {
                 uint64_t n = (1ull << (3 + u / 3)) + (u % 3) - 1;
                 if (n > 0xffffffffull) n = 0xffffffffull - (u % 3);
                 static char* zeros = static_cast<char*>(mmap(nullptr, (1ull << 30) + 4096, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
                 struct Lazy : gt::TranscoderInputStream {
                   std::string head, tail;
                   uint64_t n, avail = 0, pos = 0, chunk, last = 0;
                   bool ended = false;
                   std::string bad;
                   char* z;
                   uint64_t total() const { return head.size() + n + tail.size(); }
                   bool Next(const void** d, int* size) override {
                     uint64_t k;
                     if (pos >= avail) {
                       bad = "asks for data that is not available";
                       *size = 0;
                       return false;
                     }
                     if (pos < head.size()) *d = head.data() + pos, k = head.size() - pos;
                     else if (pos < head.size() + n) *d = z, k = std::min(chunk, head.size() + n - pos);
                     else *d = tail.data() + (pos - head.size() - n), k = total() - pos;
                     k = std::min(k, avail - pos);
                     *size = k;
                     last = k;
                     pos += k;
                     return true;
                   }
                   void BackUp(int c) override {
                     if (c < 0 || (uint64_t)c > last) bad = "backs up too much";
                     else pos -= c, last = 0;
                   }
                   bool Skip(int c) override {
                     pos += c;
                     last = 0;
                     return pos <= avail;
                   }
                   int64_t ByteCount() const override { return pos; }
                   int64_t BytesAvailable() const override { return avail - pos; }
                   bool Finished() const override { return ended; }
                 };
                 for (uint64_t chunk : {(uint64_t)1 << 30, ((uint64_t)1 << 20) + 1, (uint64_t)65535})
                   for (int late = 0; late < 3; ++late) {  // 0: all there; 1: last byte late; 2: last byte never
                     if (chunk == 65535 && n > (1u << 28)) continue;
                     if (!t.begin([&] { return "frame of " + num(n) + " bytes in buffers of " + num(chunk) + (late == 0 ? "" : late == 1 ? ", the last byte late" : ", the last byte missing"); })) continue;
                     Lazy in;
                     in.z = zeros;
                     in.n = n;
                     in.chunk = chunk;
                     in.head = frame(0, 1, "h") + frame(0, n, "");
                     in.tail = frame(0, 2, "tt");
                     gt::MessageReader r(&in);
                     auto take = [&](uint64_t want, const char* what) {
                       auto f = r.NextMessageAndGrpcFrame();
                       t.step();
                       t.check(f.message != nullptr, [&] { return std::string(what) + " is not yielded, status " + r.Status().ToString(); });
                       t.check(is("C15") || is("C16") || f.message_size == want, [&] { return std::string(what) + ": message_size " + num(f.message_size); });
                       const void* d;
                       int k;
                       uint64_t got = 0;
                       while (f.message->Next(&d, &k)) got += k;
                       t.check(got == want, [&] { return std::string(what) + " has " + num(got) + " bytes, expected " + num(want); });
                       t.check(in.bad.empty(), [&] { return std::string(what) + ": the reader " + in.bad; });
                     };
                     in.avail = in.total() - (late ? in.tail.size() + 1 : 0);
                     take(1, "the first frame");
                     if (late) {
                       for (int i = 0; i < 2; ++i) {
                         t.check(!r.NextMessage(), [&] { return std::string("yielded before its last byte is there"); });
                         t.check(r.Status().ok() && !r.Finished(), [&] { return "failed or finished while waiting: " + r.Status().ToString(); });
                       }
                       if (late == 2) {
                         in.ended = true;
                         t.check(!r.NextMessage(), [&] { return std::string("yielded without its last byte"); });
                         t.check(is("C16") || is("C14") || (r.Status().code() == absl::StatusCode::kInternal && r.Finished()), [&] { return "a truncated frame gives status " + r.Status().ToString(); });
                         continue;
                       }
                       in.avail = in.total();
                     }
                     take(n, "the frame");
                     t.check(in.pos == in.head.size() + n, [&] { return "the reader consumed " + num(in.pos) + " bytes"; });
                     take(2, "the frame after it");
                     in.ended = true;
                     t.check(!r.NextMessage() && r.Finished() && r.Status().ok(), [&] { return "at the end: " + r.Status().ToString(); });
                     t.state(mc::comb(mc::comb(n, chunk), late));
                     t.beat();
                   }
               }});
  return v;
}
}  // namespace

int main(int argc, char** argv) { return mc::Main(argc, argv, spaces); }
