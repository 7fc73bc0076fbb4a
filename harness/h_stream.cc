// C17, C18: the byte-stream view of a message stream, for every sequence of operations and message arrivals.
#include <deque>
#include <memory>

#include "google/protobuf/io/zero_copy_stream.h"
#include "grpc_transcoding/message_stream.h"
#include "mc.h"

namespace gt = google::grpc::transcoding;
using mc::T;

namespace {
#ifdef MC_SAN
const bool kSan = true;
#else
const bool kSan = false;
#endif
std::string num(uint64_t n) { return std::to_string(n); }
std::string g_prop;
bool is(const char* p) { return g_prop == p; }

class Source : public gt::MessageStream {
 public:
  std::deque<std::string> queue;
  bool ended = false, may_ask = false;
  uint64_t fetched = 0, delivered = 0;  // bytes handed out; bytes read from the view and not pushed back
  std::string bad;
  int asked = 0;
  int mode = 0;  // 1: notices its end only when asked for a message; 2: carries an error status; 4: an error status once ended
  bool noticed = false;
  bool NextMessage(std::string* m) override {
    ++asked;
    if (!may_ask && bad.empty()) bad = "the source is asked for a message by an operation that needs none";
    if (fetched != delivered && bad.empty()) bad = "the source is asked for a message although " + num(fetched - delivered) + " bytes fetched before are not consumed";
    if (queue.empty()) {
      noticed |= ended;
      return false;
    }
    *m = std::move(queue.front());
    queue.pop_front();
    fetched += m->size();
    return true;
  }
  bool Finished() const override { return ended && queue.empty() && (noticed || !(mode & 1)); }
  absl::Status Status() const override { return (mode & 2) || ((mode & 4) && ended) ? absl::InternalError("source") : absl::OkStatus(); }
};

enum Kind { kNext, kBackUp, kAvail, kFinished, kMessage, kEnd };
struct Op {
  Kind k;
  int n;  // kBackUp: 1, 2 = all but one, 0 = all, -1 and 1000000: illegal; kMessage: size
};
std::string show(const Op& o) {
  switch (o.k) {
    case kNext: return "Next";
    case kBackUp: return o.n == 0 ? "BackUp(all)" : o.n == 2 ? "BackUp(all but one)" : o.n == 3 ? "BackUp(0)" : "BackUp(" + std::to_string(o.n) + ")";
    case kAvail: return "BytesAvailable";
    case kFinished: return "Finished";
    case kMessage: return "message of " + num(o.n);
    default: return "end";
  }
}
std::string show(const std::vector<Op>& h) {
  std::string o;
  for (size_t i = 0; i < h.size(); ++i) o += (i ? ", " : "") + show(h[i]);
  return o;
}

struct Sys {
  T& t;
  Source src;
  std::unique_ptr<gt::TranscoderInputStream> in;
  // The model: all bytes in order; how far they are read; where the current (fetched) message ends.
  std::string all;
  std::vector<uint64_t> ends;  // ends of all messages that arrived, in order
  uint64_t pos = 0, cur_end = 0;
  int last = -1;  // bytes returned by an immediately preceding Next and not pushed back since, else -1
  unsigned char fill = 1;
  Sys(T& tt) : t(tt), in(src.CreateInputStream()) {}

  uint64_t next_end() {  // end of the first message that ends behind pos
    for (uint64_t e : ends)
      if (e > pos) return e;
    return pos;
  }
  // False: not applicable here (an illegal use); the history is skipped.
  bool apply(const Op& o) {
    src.may_ask = o.k == kNext || o.k == kAvail;
    t.step();
    int l = -1;
    switch (o.k) {
      case kMessage: {
        std::string m;
        for (int i = 0; i < o.n; ++i) m += (char)fill++;
        all += m;
        ends.push_back(all.size());
        src.queue.push_back(m);
        l = last;  // an arrival does not come between Next and BackUp
        break;
      }
      case kEnd:
        src.ended = true;
        l = last;
        break;
      case kNext: {
        const void* d = nullptr;
        int n = -1;
        bool r = in->Next(&d, &n);
        uint64_t want = next_end() - pos;
        if (want) {
          if (is("C17")) {
            t.check(r && n == (int64_t)want, [&] { return "Next returned " + num(r) + " with " + std::to_string(n) + " bytes, expected " + num(want); });
            t.check(memcmp(d, all.data() + pos, want) == 0, [&] { return "Next delivered " + mc::q(std::string((const char*)d, n)) + ", expected " + mc::q(all.substr(pos, want)); });
          } else if (!(r && n == (int64_t)want)) {
            return false;
          }
          pos += want;
          src.delivered = pos;
          l = n;
        } else {
          bool fin = src.Finished();
          t.check(n == 0, [&] { return "Next returned " + std::to_string(n) + " bytes although there is no data"; });
          if (is("C18")) t.check(r == !fin, [&] { return std::string(r ? "Next succeeds at the end of the stream" : "Next fails although the stream is not finished"); });
        }
        break;
      }
      case kBackUp: {
        if (o.n == -1 || o.n == 1000000) {
          in->BackUp(o.n);  // illegal: documented as ignored
          l = last;
          break;
        }
        if (last <= 0) return false;
        int n = o.n == 0 ? last : o.n == 1 ? 1 : o.n == 3 ? 0 : last - 1;  // of what is left of the read
        in->BackUp(n);
        pos -= n;
        src.delivered = pos;
        l = last - n;  // the rest of what the read returned may be pushed back, too
        break;
      }
      case kAvail: {
        uint64_t want = next_end() - pos;
        int64_t g = in->BytesAvailable();
        if (is("C17")) t.check(g == (int64_t)want, [&] { return "BytesAvailable() is " + std::to_string(g) + ", expected " + num(want); });
        break;
      }
      case kFinished: {
        bool g = in->Finished(), e = src.Finished();
        if (is("C18")) t.check(g == e, [&] { return "Finished() is " + num(g) + ", expected " + num(e); });
        l = last;
        break;
      }
    }
    last = l;
    if (is("C18")) t.check(src.bad.empty(), [&] { return show(o) + ": " + src.bad; });
    return true;
  }
  uint64_t hash() const {
    uint64_t h = mc::comb(src.fetched - pos, last + 1);
    for (auto& m : src.queue) h = mc::comb(h, m.size());
    return mc::comb(h, src.ended + 2 * src.mode + 16 * src.noticed);
  }
};

const char* const kModes[] = {"", "source noticing its end when asked: ", "source with an error status: ", "source with an error status noticing its end when asked: ", "source with an error status once ended: "};
void history(T& t, const std::vector<Op>& h, int mode = 0) {
  if (!t.begin([&] { return kModes[mode] + show(h); })) return;
  Sys s(t);
  s.src.mode = mode;
  for (auto& o : h) {
    if (!s.apply(o)) return;
    t.state(s.hash());
  }
  // Drain: everything not delivered yet is.
  for (int i = 0; i < 200; ++i) {
    if (!s.apply({kAvail, 0}) || !s.apply({kNext, 0})) return;
    if (s.pos == s.all.size() && s.last < 0) break;
  }
  if (is("C17")) t.check(s.pos == s.all.size(), [] { return std::string("not everything is delivered"); });
  s.apply({kFinished, 0});
}

std::vector<mc::Space> spaces(const mc::Options& o) {
  g_prop = o.prop;
  bool th = o.thorough();
  std::vector<mc::Space> v;
  static const std::vector<Op> al = {{kNext, 0}, {kMessage, 3}, {kBackUp, 0}, {kBackUp, 1}, {kAvail, 0}, {kFinished, 0}, {kMessage, 0}, {kMessage, 1}, {kEnd, 0}, {kBackUp, 2}, {kBackUp, -1}, {kBackUp, 1000000}, {kBackUp, 3}};
  int n = al.size(), L = kSan ? (th ? 8 : 7) : (th ? 10 : 9);
  auto ok = [](const std::vector<Op>& h, const Op& o) {  // prune what does not apply
    bool ended = false;
    for (auto& x : h) ended |= x.k == kEnd;
    if (ended && (o.k == kMessage || o.k == kEnd)) return false;
    if (o.k == kBackUp && o.n > 1 && !h.empty() && h.back().k == kBackUp) return false;  // nothing new
    if (o.k == kBackUp && o.n >= 0 && o.n < 10) {  // after Next, arrivals, Finished or other push-backs in between at most
      for (size_t i = h.size(); i-- > 0;) {
        if (h[i].k == kNext) return true;
        if (h[i].k == kAvail || (h[i].k == kBackUp && h[i].n == 0)) return false;
      }
      return false;
    }
    return true;
  };
  v.push_back({"ops", "every sequence of at most " + num(L) + " operations out of " + num(n) + " (Next, BackUp by 0/1/all but one/all and illegal, BytesAvailable, Finished, arrival of a message of 0, 1 or 3 bytes, end), then drained; up to one operation less for sources that notice their end only when asked, or carry an error status from the start or once ended", (uint64_t)n * n * n * 5, [=](T& t, uint64_t uu) {
                 std::vector<Op> h;
                 uint64_t u = uu / 5;
                 int mode = uu % 5;
                 int pre[3] = {(int)(u / n / n), (int)(u / n % n), (int)(u % n)};
                 for (int i = 0; i < 3; ++i) {
                   if (!ok(h, al[pre[i]])) return;
                   h.push_back(al[pre[i]]);
                   if (i < 2 && pre[2] == 0 && (i == 1 || pre[1] == 0)) history(t, h, mode);
                 }
                 if (u == 0) history(t, {}, mode);
                 std::function<void(int)> rec = [&](int left) {
                   history(t, h, mode);
                   if (!left) return;
                   for (auto& o : al) {
                     if (!ok(h, o)) continue;
                     h.push_back(o);
                     rec(left - 1);
                     h.pop_back();
                   }
                 };
                 rec(L - 3 - (mode > 0));
               }});
  // After arrivals of three messages of every size combination, deeper sequences of the reading operations.
  int D = kSan ? (th ? 9 : 7) : (th ? 11 : 9);
  v.push_back({"loaded", "three messages with sizes from {0,1,2,5} waiting (ended or not), then every sequence of at most " + num(D) + " of Next, BackUp(1), BackUp(all), BackUp(all but one), BytesAvailable, Finished, for the five kinds of source", 64 * 2 * 5, [=](T& t, uint64_t uu) {
                 uint64_t u = uu / 5;
                 int mode = uu % 5;
                 static const int sz[] = {0, 1, 2, 5};
                 static const std::vector<Op> rd = {{kNext, 0}, {kBackUp, 1}, {kBackUp, 0}, {kBackUp, 2}, {kAvail, 0}, {kFinished, 0}};
                 std::vector<Op> h = {{kMessage, sz[u / 2 % 4]}, {kMessage, sz[u / 8 % 4]}, {kMessage, sz[u / 32]}};
                 if (u % 2) h.push_back({kEnd, 0});
                 std::function<void(int)> rec = [&](int left) {
                   history(t, h, mode);
                   if (!left) return;
                   for (auto& o : rd) {
                     if (!ok(h, o)) continue;
                     h.push_back(o);
                     rec(left - 1);
                     h.pop_back();
                   }
                 };
                 rec(D);
               }});
  std::vector<int> sizes;
  for (int i = 0; i <= 130; ++i) sizes.push_back(i);
  for (int p = 256; p <= (th ? 1 << 22 : 1 << 17); p *= 2)
    for (int d = -1; d <= 1; ++d) sizes.push_back(p + d);
  v.push_back({"sizes", "messages of n bytes between small ones, read with push-backs of 1, n-1 and n bytes; n empty messages in a row; n messages in a row: n in 0..130 and around powers of two", sizes.size(), [=](T& t, uint64_t u) {
                 int n = sizes[u];
                 for (Op b : {Op{kBackUp, 1}, Op{kBackUp, 0}, Op{kBackUp, 2}}) {
                   history(t, {{kMessage, 1}, {kMessage, n}, {kMessage, 2}, {kNext, 0}, {kAvail, 0}, {kNext, 0}, b, {kAvail, 0}, {kNext, 0}, b, {kNext, 0}, {kNext, 0}, {kEnd, 0}});
                   history(t, {{kMessage, n}, {kEnd, 0}, {kNext, 0}, b, {kFinished, 0}, {kNext, 0}, b, {kAvail, 0}});
                 }
                 if (n <= 5000) {
                   std::vector<Op> h(n, Op{kMessage, 0});
                   for (Op o : {Op{kAvail, 0}, Op{kNext, 0}, Op{kMessage, 2}, Op{kNext, 0}, Op{kBackUp, 1}, Op{kNext, 0}}) h.push_back(o);
                   history(t, h);
                   h.assign(n, Op{kMessage, 0});
                   h.push_back({kMessage, 1});
                   h.push_back({kNext, 0});
                   history(t, h);
                 }
                 if (n <= 130) {
                   std::vector<Op> h(n, Op{kMessage, 1});
                   for (int i = 0; i < n; ++i) {
                     h.push_back({kNext, 0});
                     if (i % 3 == 0) h.push_back({kBackUp, 0});
                     if (i % 5 == 0) h.push_back({kAvail, 0});
                     if (i % 7 == 0) h.push_back({kMessage, i % 4});
                   }
                   history(t, h);
                 }
               }});
  return v;
}
}  // namespace

int main(int argc, char** argv) { return mc::Main(argc, argv, spaces); }
