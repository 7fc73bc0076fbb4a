// A small explicit-state exploration engine: exhaustively enumerates "spaces" of cases over the real
// code, in parallel worker processes, with replay of every failure (crash, hang, or reference mismatch).
//
//   mc::Space sp{"name", "what is enumerated, and its bounds", n_units, [](mc::T& t, uint64_t unit) {...}};
// A unit runs its cases in a fixed order; each case is bracketed by
//   if (t.begin([&] { return "description"; })) { ...drive the real code...; t.done(outcome_hash); }
// so that one case can be run alone.  t.fail("...") ends the exploration with a violation.
#ifndef MC_H_
#define MC_H_
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <atomic>
#include <functional>
#include <string>
#include <vector>

namespace mc {

inline uint64_t mix(uint64_t h) {
  h ^= h >> 33;
  h *= 0xff51afd7ed558ccdULL;
  h ^= h >> 33;
  h *= 0xc4ceb9fe1a85ec53ULL;
  h ^= h >> 33;
  return h;
}
inline uint64_t hash(const void* p, size_t n, uint64_t seed = 0x9E3779B97F4A7C15ULL) {
  const unsigned char* b = static_cast<const unsigned char*>(p);
  uint64_t h = seed ^ (n * 0x9E3779B97F4A7C15ULL);
  while (n >= 8) {
    uint64_t w;
    memcpy(&w, b, 8);
    h = (h ^ mix(w)) * 0x100000001b3ULL;
    h = (h << 29) | (h >> 35);
    b += 8;
    n -= 8;
  }
  uint64_t w = 0;
  if (n) memcpy(&w, b, n);
  return mix(h ^ mix(w + n));
}
inline uint64_t hash(const std::string& s, uint64_t seed = 0x9E3779B97F4A7C15ULL) {
  return hash(s.data(), s.size(), seed);
}
inline uint64_t comb(uint64_t a, uint64_t b) { return mix(a * 0x9E3779B97F4A7C15ULL + b + 1); }

// Printable form of a byte string.
inline std::string q(const std::string& s) {
  std::string o = "\"";
  size_t n = 0;
  for (unsigned char c : s) {
    if (++n > 400) {
      o += "...(" + std::to_string(s.size()) + " bytes)";
      break;
    }
    char b[8];
    if (c == '"' || c == '\\') {
      o += '\\';
      o += c;
    } else if (c < 32 || c > 126) {
      snprintf(b, sizeof b, "\\x%02x", c);
      o += b;
    } else {
      o += c;
    }
  }
  return o + "\"";
}
inline std::string jesc(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    char b[8];
    if (c == '"' || c == '\\') {
      o += '\\';
      o += c;
    } else if (c < 32 || c > 126) {
      snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    } else {
      o += c;
    }
  }
  return o;
}

// A set of 64-bit hashes (of canonical model states / observed outcomes).
class HashSet {
 public:
  static constexpr size_t kCap = 6u << 20;
  HashSet() : t_(1 << 12, 0), n_(0), full_(false) {}
  void add(uint64_t h) {
    if (h == 0) h = 1;
    size_t m = t_.size() - 1, i = h & m;
    while (t_[i]) {
      if (t_[i] == h) return;
      i = (i + 1) & m;
    }
    if (n_ >= kCap) {
      full_ = true;
      return;
    }
    t_[i] = h;
    if (++n_ * 2 > t_.size()) grow();
  }
  size_t size() const { return n_; }
  bool full() const { return full_; }
  void dump(FILE* f) const {
    for (uint64_t h : t_)
      if (h) fwrite(&h, 8, 1, f);
  }

 private:
  void grow() {
    std::vector<uint64_t> o(t_.size() * 2, 0);
    o.swap(t_);
    n_ = 0;
    for (uint64_t h : o)
      if (h) add(h);
  }
  std::vector<uint64_t> t_;
  size_t n_;
  bool full_;
};

enum { kMaxWorkers = 16, kMsg = 6000, kDesc = 12000 };
struct Slot {  // one per worker, in shared memory
  std::atomic<uint64_t> unit, idx, beat;
  std::atomic<uint64_t> cases, steps;
  std::atomic<int> failed;
  char msg[kMsg];
  char desc[kDesc];
};
struct Shared {
  std::atomic<uint64_t> next_unit;
  Slot slot[kMaxWorkers];
};

inline double now() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + 1e-9 * t.tv_nsec;
}

class T {
 public:
  T(Slot* s, bool single, uint64_t target) : s_(s), single_(single), target_(target) {}
  // The time budget of the space ends at `deadline`, an equal share of it for this unit at `share` (0: none).  What is
  // left out of the enumeration because of it is recorded, and the evidence then does not claim the space as covered.
  double deadline = 0, share = 0;
  bool truncated = false;
  bool late() {
    if (deadline == 0 || now() < deadline) return false;
    return truncated = true;
  }
  bool share_used() const { return share != 0 && now() >= share; }
  // Starts the next case; false if it is not to be run (replay of another one).
  template <class D>
  bool begin(const D& desc) {
    ++idx_;
    s_->idx.store(idx_, std::memory_order_relaxed);
    if (single_) {
      if (idx_ != target_) return false;
      describe(desc());
    } else if (truncated || ((idx_ & 31) == 0 && late())) {
      truncated = true;
      return false;
    } else if (samples_ && (idx_ & (idx_ - 1)) == 0 && samples.size() < 2) {
      samples.push_back(desc());
    }
    s_->beat.fetch_add(1, std::memory_order_relaxed);
    ++cases;
    return true;
  }
  void step(uint64_t n = 1) { steps += n; }
  void state(uint64_t h) { set.add(h); }
  void beat() { s_->beat.fetch_add(1, std::memory_order_relaxed); }
  [[noreturn]] void fail(const std::string& msg) {
    snprintf(s_->msg, kMsg, "%s", msg.c_str());
    s_->failed.store(1);
    if (single_) printf("case: %s\nfailed: %s\n", s_->desc, msg.c_str()), fflush(stdout);
    _exit(77);
  }
  template <class M>
  void check(bool ok, const M& msg) {
    if (__builtin_expect(!ok, 0)) fail(msg());
  }
  bool single() const { return single_; }
  uint64_t cases = 0, steps = 0;
  HashSet set;
  std::vector<std::string> samples;
  bool samples_ = false;
  void reset_unit(uint64_t u) {
    idx_ = 0;
    s_->unit.store(u);
    s_->idx.store(0);
  }
  void flush() {
    s_->cases.store(cases);
    s_->steps.store(steps);
  }

 private:
  void describe(const std::string& d) { snprintf(s_->desc, kDesc, "%s", d.c_str()); }
  Slot* s_;
  bool single_;
  uint64_t target_, idx_ = 0;
};

struct Space {
  std::string name, what;
  uint64_t units;
  std::function<void(T&, uint64_t)> fn;
};

struct Options {
  std::string prop, tier = "quick", out, space, work = "/tmp";
  uint64_t unit = 0, idx = 0;
  std::string known;  // ";key;key;": findings listed in known_findings.txt
  bool finding(const std::string& key) const { return known.find(";" + key + ";") != std::string::npos; }
  bool replay = false, list = false;
  int workers = 8;
  double hang_s = 60;
  double budget = 0;  // seconds for all spaces (0: no limit)
  bool thorough() const { return tier == "thorough"; }
};

struct Failure {
  std::string space, msg, desc;
  uint64_t unit = 0, idx = 0;
};

inline std::string status_text(int st) {
  if (WIFSIGNALED(st)) return std::string("crashed: signal ") + std::to_string(WTERMSIG(st)) + " (" + strsignal(WTERMSIG(st)) + ")";
  return "ended with exit code " + std::to_string(WEXITSTATUS(st));
}

// Runs one unit, or one case of it, in a child. 0: fine; 1: failed (f->msg set); 2: hang; 3: killed.
inline int run_alone(const Space& sp, uint64_t unit, bool single, uint64_t idx, double limit, Failure* f) {
  Slot* slot = static_cast<Slot*>(mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  fflush(stdout);
  fflush(stderr);
  pid_t pid = fork();
  if (pid == 0) {
    T t(slot, single, idx);
    t.reset_unit(unit);
    sp.fn(t, unit);
    _exit(0);
  }
  double t0 = now();
  int st = 0, res;
  uint64_t last = 0;
  for (;;) {
    pid_t r = waitpid(pid, &st, WNOHANG);
    if (r == pid) break;
    uint64_t b = slot->beat.load();
    if (b != last) last = b, t0 = now();
    if (now() - t0 > limit) {
      kill(pid, SIGKILL);
      waitpid(pid, &st, 0);
      f->msg = "does not terminate (no progress within " + std::to_string((int)limit) + " s)";
      f->desc = slot->desc;
      f->unit = unit;
      f->idx = single ? idx : slot->idx.load();
      munmap(slot, sizeof(Slot));
      return 2;
    }
    usleep(2000);
  }
  f->desc = slot->desc;
  f->unit = unit;
  f->idx = single ? idx : slot->idx.load();
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
    res = 0;
  } else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) {
    res = 3;
  } else {
    f->msg = slot->failed.load() ? std::string(slot->msg) : status_text(st);
    res = 1;
  }
  munmap(slot, sizeof(Slot));
  return res;
}

struct SpaceResult {
  uint64_t cases = 0, steps = 0, states = 0, units = 0;
  bool states_capped = false, truncated = false;
  double wall = 0;
  std::vector<std::string> samples;
};

// Confirms a failure by running it again; fills in the description. False: not reproduced.
inline bool confirm(const Space& sp, Failure* f, double hang_s) {
  Failure g;
  for (int attempt = 0; attempt < 3; ++attempt) {
    int r = run_alone(sp, f->unit, true, f->idx, hang_s * 2, &g);
    if (r == 3) continue;
    if (r == 1 || r == 2) {
      f->msg = g.msg;
      f->desc = g.desc;
      return true;
    }
    break;
  }
  // Not alone: the whole unit (a failure that depends on the cases before it).
  for (int attempt = 0; attempt < 3; ++attempt) {
    int r = run_alone(sp, f->unit, false, 0, hang_s * 2, &g);
    if (r == 3) continue;
    if (r == 1 || r == 2) {
      f->msg = g.msg + " (only after the earlier cases of the unit)";
      f->idx = 0;
      Slot* slot = static_cast<Slot*>(mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
      munmap(slot, sizeof(Slot));
      Failure h;
      run_alone(sp, f->unit, true, g.idx, hang_s * 2, &h);
      f->desc = "unit " + std::to_string(f->unit) + " up to case " + std::to_string(g.idx) + ": " + h.desc;
      return true;
    }
    break;
  }
  return false;
}

// 0: explored without failure, 1: violation in *f, 2: error of the check.
inline int explore(const Space& sp, const Options& o, double deadline, SpaceResult* res, Failure* f) {
  double t0 = now();
  Shared* sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  int W = o.workers;
  if ((uint64_t)W > sp.units) W = sp.units;
  if (W < 1) W = 1;
  std::vector<pid_t> pids(W);
  std::vector<std::string> files(W);
  std::vector<uint64_t> last(W, ~0ull);
  std::vector<double> seen(W, now());
  fflush(stdout);
  fflush(stderr);
  auto start = [&](int w, bool retry) {
    files[w] = o.work + "/mc." + std::to_string(getpid()) + "." + std::to_string(w);
    pid_t pid = fork();
    if (pid == 0) {
      T t(&sh->slot[w], false, 0);
      uint64_t u = retry ? sh->slot[w].unit.load() : sh->next_unit.fetch_add(1);
      t.deadline = deadline;
      while (u < sp.units && !t.late()) {
        if (deadline != 0) t.share = now() + (deadline - now()) / ((sp.units - u + W - 1) / W);
        t.samples_ = (u == 0 || u == sp.units / 2);
        t.reset_unit(u);
        sp.fn(t, u);
        t.flush();
        t.beat();
        u = sh->next_unit.fetch_add(1);
      }
      FILE* out = fopen(files[w].c_str(), "wb");
      uint64_t hdr[6] = {t.cases, t.steps, t.set.size(), t.set.full(), t.samples.size(), t.truncated};
      fwrite(hdr, 8, 6, out);
      t.set.dump(out);
      for (auto& s : t.samples) {
        uint64_t n = s.size();
        fwrite(&n, 8, 1, out);
        fwrite(s.data(), 1, n, out);
      }
      fclose(out);
      _exit(0);
    }
    pids[w] = pid;
    seen[w] = now();
  };
  for (int w = 0; w < W; ++w) start(w, false);
  int left = W, bad = -1, badst = 0, retries = 0;
  bool hang = false;
  while (left > 0 && bad < 0) {
    for (int w = 0; w < W && bad < 0; ++w) {
      if (pids[w] < 0) continue;
      int st = 0;
      pid_t r = waitpid(pids[w], &st, WNOHANG);
      if (r == pids[w]) {
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
          pids[w] = -1;
          --left;
        } else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL && retries < 3) {
          // Ended from outside (memory pressure): that is not a verdict. Start this worker's unit again;
          // counts of the units it had finished are lost, never inflated.
          ++retries;
          sleep(2);
          start(w, true);
        } else {
          pids[w] = -1;
          bad = w;
          badst = st;
        }
        continue;
      }
      uint64_t b = sh->slot[w].beat.load();
      if (b != last[w]) {
        last[w] = b;
        seen[w] = now();
      } else if (now() - seen[w] > o.hang_s) {
        kill(pids[w], SIGKILL);
        waitpid(pids[w], &st, 0);
        pids[w] = -1;
        bad = w;
        hang = true;
      }
    }
    usleep(2000);
  }
  int rc = 0;
  if (bad >= 0) {
    for (int w = 0; w < W; ++w)
      if (pids[w] > 0) {
        kill(pids[w], SIGKILL);
        waitpid(pids[w], nullptr, 0);
      }
    f->space = sp.name;
    f->unit = sh->slot[bad].unit.load();
    f->idx = sh->slot[bad].idx.load();
    f->msg = hang ? "does not terminate" : sh->slot[bad].failed.load() ? std::string(sh->slot[bad].msg) : status_text(badst);
    rc = confirm(sp, f, o.hang_s) ? 1 : 2;
  } else {
    HashSet all;
    std::vector<uint64_t> buf;
    for (int w = 0; w < W; ++w) {
      FILE* in = fopen(files[w].c_str(), "rb");
      uint64_t hdr[6];
      if (!in || fread(hdr, 8, 6, in) != 6) return 2;
      res->cases += hdr[0];
      res->steps += hdr[1];
      res->states_capped |= hdr[3] != 0;
      res->truncated |= hdr[5] != 0;
      buf.resize(hdr[2]);
      if (hdr[2] && fread(buf.data(), 8, hdr[2], in) != hdr[2]) return 2;
      for (uint64_t h : buf) all.add(h);
      for (uint64_t i = 0; i < hdr[4]; ++i) {
        uint64_t n;
        if (fread(&n, 8, 1, in) != 1) return 2;
        std::string s(n, 0);
        if (n && fread(&s[0], 1, n, in) != n) return 2;
        res->samples.push_back(s);
      }
      fclose(in);
    }
    res->states = all.size();
    res->states_capped |= all.full();
    res->units = sp.units;
  }
  for (int w = 0; w < W; ++w) unlink(files[w].c_str());
  munmap(sh, sizeof(Shared));
  res->wall = now() - t0;
  return rc;
}

inline int Main(int argc, char** argv, std::vector<Space> (*spaces_of)(const Options&)) {
  Options o;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--prop") o.prop = val();
    else if (a == "--tier") o.tier = val();
    else if (a == "--out") o.out = val();
    else if (a == "--work") o.work = val();
    else if (a == "--known") o.known = val();
    else if (a == "--space") o.space = val(), o.replay = true;
    else if (a == "--unit") o.unit = strtoull(val().c_str(), 0, 10);
    else if (a == "--case") o.idx = strtoull(val().c_str(), 0, 10);
    else if (a == "--workers") o.workers = atoi(val().c_str());
    else if (a == "--budget") o.budget = atof(val().c_str());
    else if (a == "--hang") o.hang_s = atof(val().c_str());
    else if (a == "--list") o.list = true;
  }
  rlimit rl = {0, 0};
  setrlimit(RLIMIT_CORE, &rl);
  std::vector<Space> sps = spaces_of(o);
  if (o.list) {
    for (auto& s : sps) printf("%s\t%llu\t%s\n", s.name.c_str(), (unsigned long long)s.units, s.what.c_str());
    return 0;
  }
  if (o.replay) {
    for (auto& s : sps)
      if (s.name == o.space) {
        Failure f;
        int r = run_alone(s, o.unit, o.idx != 0, o.idx, o.hang_s * 2, &f);
        printf("replay space=%s unit=%llu case=%llu: %s\n%s\n", s.name.c_str(), (unsigned long long)o.unit,
               (unsigned long long)o.idx, r == 0 ? "no failure" : f.msg.c_str(), f.desc.c_str());
        return r == 0 ? 0 : r == 3 ? 2 : 1;
      }
    fprintf(stderr, "no such space\n");
    return 2;
  }
  FILE* out = fopen(o.out.empty() ? "/dev/stdout" : o.out.c_str(), "w");
  fprintf(out, "{\"prop\": \"%s\", \"spaces\": [", o.prop.c_str());
  int rc = sps.empty() ? 2 : 0;
  Failure f;
  bool first = true;
  double end = o.budget > 0 ? now() + o.budget : 0;
  size_t left = sps.size();
  for (auto& s : sps) {
    SpaceResult r;
    // A space may use half of the time left, the last one all of it.
    double rest = end - now(), deadline = 0;
    if (end != 0) deadline = now() + (rest <= 0 ? 0.001 : left == 1 ? rest : rest / 2);
    --left;
    rc = explore(s, o, deadline, &r, &f);
    if (rc) break;
    fprintf(out, "%s\n {\"space\": \"%s\", \"what\": \"%s\", \"units\": %llu, \"cases\": %llu, \"transitions\": %llu, \"states\": %llu, \"states_capped\": %s, \"truncated\": %s, \"wall_s\": %.2f, \"samples\": [",
            first ? "" : ",", s.name.c_str(), jesc(s.what).c_str(), (unsigned long long)r.units, (unsigned long long)r.cases,
            (unsigned long long)r.steps, (unsigned long long)r.states, r.states_capped ? "true" : "false", r.truncated ? "true" : "false", r.wall);
    for (size_t i = 0; i < r.samples.size() && i < 4; ++i) fprintf(out, "%s\"%s\"", i ? ", " : "", jesc(r.samples[i].substr(0, 400)).c_str());
    fprintf(out, "]}");
    first = false;
  }
  fprintf(out, "]");
  if (rc == 1)
    fprintf(out, ", \"violation\": {\"space\": \"%s\", \"unit\": %llu, \"case\": %llu, \"message\": \"%s\", \"case_text\": \"%s\"}", f.space.c_str(),
            (unsigned long long)f.unit, (unsigned long long)f.idx, jesc(f.msg).c_str(), jesc(f.desc).c_str());
  if (rc == 2)
    fprintf(out, ", \"error\": \"failure not reproduced: space %s unit %llu case %llu: %s\"", f.space.c_str(), (unsigned long long)f.unit,
            (unsigned long long)f.idx, jesc(f.msg).c_str());
  fprintf(out, "}\n");
  fclose(out);
  return rc;
}

}  // namespace mc
#endif  // MC_H_
