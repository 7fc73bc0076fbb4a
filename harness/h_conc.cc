// C12: concurrent lookups on one matcher, under every schedule within a preemption bound, on the real code compiled
// with memory accesses reported to the scheduler.
#include <memory>
#include <string>

#include "grpc_transcoding/path_matcher.h"
#include "mc.h"
#include "sched_mc.h"

namespace gt = google::grpc::transcoding;
using mc::T;

namespace {
std::string num(uint64_t n) { return std::to_string(n); }
using M = const int*;
const int kIds[64] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19};

gt::PathMatcherPtr<M> build(int world) {
  gt::PathMatcherBuilder<M> b;
  if (world == 0) {
    b.Register("GET", "/a", "body0", {"k"}, &kIds[0]);
    b.Register("GET", "/a/{x}", "", &kIds[1]);
    b.Register("POST", "/a/{y.z}", "*", &kIds[2]);
    b.Register("*", "/a/*", "st", {"q"}, &kIds[3]);
    b.Register("GET", "/{w=**}:v", "vb", &kIds[4]);
    b.Register("GET", "/b/{u=**}", "", &kIds[5]);
    b.Register("GET", "/d/{x}", "", &kIds[6]);
    b.Register("GET", "/d/{y}", "", &kIds[7]);
  } else {
    b.SetMatchUnregisteredCustomVerb(true);
    b.SetQueryParamUnescapePlus(true);
    b.SetUrlUnescapeSpec(gt::UrlUnescapeSpec::kAllCharacters);
    b.Register("GET", "/a/{p=*}", "other", &kIds[10]);
    b.Register("GET", "/{r=**}", "cat", {"a"}, &kIds[11]);
    b.Register("POST", "/a/{p=*}/c/**/{q}:w", "", &kIds[12]);
  }
  return b.Build();
}

struct Look {
  int world;
  const char *method, *path, *query;
  bool full;
};
const Look kLooks[] = {
    {0, "GET", "/a", "k=1&z=2", true},     {0, "GET", "/a/1%2F", "", true},      {0, "POST", "/a/1%2F", "q=1", true}, {0, "PUT", "/a/xyz", "q=1&r=2", true}, {0, "GET", "/nosuch", "a=b", true},
    {0, "GET", "/a/1%2f:v", "x=y", true},  {0, "GET", "/b/c%2Fd/e+f", "", true}, {0, "GET", "/d/1", "", true},        {0, "GET", "/a/7", "", false},         {1, "GET", "/a/1%2F:u", "a=1+2&b=3%20", true},
    {1, "POST", "/a/x/c/y/z:w", "", true}, {1, "GET", "/", "", true},
};
const int kN = sizeof kLooks / sizeof kLooks[0];
std::string show(const Look& l) { return "[" + num(l.world) + "] " + l.method + " " + l.path + (*l.query ? std::string("?") + l.query : std::string()) + (l.full ? "" : " (short form)"); }

struct Result {
  int id = -2;
  std::vector<gt::VariableBinding> b;
  std::string body;
};
std::string text(const Result& r) {
  std::string s = std::to_string(r.id) + " body " + mc::q(r.body) + " {";
  for (auto& b : r.b) {
    for (auto& p : b.field_path) s += p + ".";
    s += "=" + mc::q(b.value) + ", ";
  }
  return s + "}";
}
void run(gt::PathMatcher<M>* const* ms, const Look& l, Result* r) {
  // The arguments belong to the calling thread.
  std::string m = l.method, p = l.path, q = l.query;
  M id = l.full ? ms[l.world]->Lookup(m, p, q, &r->b, &r->body) : ms[l.world]->Lookup(m, p);
  r->id = id ? *id : -1;
}
// What the lookups of one thread return when nothing else runs (in a process of its own, on fresh matchers).
std::vector<std::string> alone(const std::vector<int>& seq) {
  int fd[2];
  if (pipe(fd)) abort();
  pid_t pid = fork();
  if (pid == 0) {
    gt::PathMatcherPtr<M> own[2] = {build(0), build(1)};
    gt::PathMatcher<M>* ms[2] = {own[0].get(), own[1].get()};
    for (int i : seq) {
      Result r;
      run(ms, kLooks[i], &r);
      std::string s = text(r) + "\n";
      if (write(fd[1], s.data(), s.size()) != (ssize_t)s.size()) _exit(1);
    }
    _exit(0);
  }
  close(fd[1]);
  std::string all;
  char buf[4096];
  ssize_t n;
  while ((n = read(fd[0], buf, sizeof buf)) > 0) all.append(buf, n);
  close(fd[0]);
  waitpid(pid, nullptr, 0);
  std::vector<std::string> out;
  size_t p = 0, e;
  while ((e = all.find('\n', p)) != std::string::npos) {
    out.push_back(all.substr(p, e - p));
    p = e + 1;
  }
  out.resize(seq.size(), "nothing: it crashes");
  return out;
}

// One configuration: the sequence of lookups of each thread.
void explore(T& t, const std::vector<std::vector<int>>& threads, const vs::Options& o) {
  std::vector<std::vector<std::string>> want;
  for (auto& s : threads) want.push_back(alone(s));
  gt::PathMatcherPtr<M> own[2];
  gt::PathMatcher<M>* ms[2];
  std::vector<std::vector<Result>> res;
  auto before = [&] {
    for (int w = 0; w < 2; ++w) {
      own[w] = build(w);
      ms[w] = own[w].get();
    }
    res.assign(threads.size(), {});
    std::vector<std::function<void()>> bodies;
    for (size_t k = 0; k < threads.size(); ++k) {
      res[k].resize(threads[k].size());
      bodies.push_back([&, k] {
        for (size_t i = 0; i < threads[k].size(); ++i) run(ms, kLooks[threads[k][i]], &res[k][i]);
      });
    }
    return bodies;
  };
  auto after = [&]() -> std::string {
    for (size_t k = 0; k < threads.size(); ++k)
      for (size_t i = 0; i < threads[k].size(); ++i) {
        std::string s = text(res[k][i]);
        if (s != want[k][i]) return "thread " + num(k) + ": " + show(kLooks[threads[k][i]]) + " returns " + s + ", alone " + want[k][i];
      }
    return "";
  };
  uint64_t id = 1;
  for (auto& s : threads)
    for (int i : s) id = mc::comb(id, i + 1);
  vs::ExploreCase(t, id, o, before, after);
}
std::string show(const std::vector<std::vector<int>>& threads) {
  std::string s;
  for (size_t k = 0; k < threads.size(); ++k) {
    s += (k ? " || " : "");
    for (size_t i = 0; i < threads[k].size(); ++i) s += (i ? "; " : "") + show(kLooks[threads[k][i]]);
  }
  return s;
}

std::vector<mc::Space> spaces(const mc::Options& o) {
  bool th = o.thorough();
  std::vector<mc::Space> v;
  vs::Options fn;
  fn.preemptions = th ? 3 : 2;
  fn.at_functions = true;
  vs::Options sync;
  sync.preemptions = 2;
  auto pairs = [&](const char* name, const std::string& what, vs::Options op, bool twice) {
    v.push_back({name, what, (uint64_t)kN * kN, [=](T& t, uint64_t u) {
                   int a = u / kN, b = u % kN;
                   std::vector<std::vector<int>> c = {{a}, {b}};
                   if (twice) c = {{a, b}, {b, a}};
                   if (t.begin([&] { return show(c); })) explore(t, c, op);
                 }});
  };
  pairs("pairs", "every ordered pair of " + num(kN) + " lookups in two threads: all schedules with at most " + num(fn.preemptions) + " preemptions at any function entry, lock or atomic operation", fn, false);
  vs::Options cold = fn;
  cold.cold = true;
  cold.preemptions = th ? 2 : 1;
  cold.every = th ? 2 : 1;
  pairs("first", "the same, each execution the first of its process (function-local statics uninitialised), at most " + num(cold.preemptions) + " preemptions at any lock or atomic operation and every " + num(cold.every) + ". function entry", cold, false);
  vs::Options s3 = sync;
  s3.preemptions = th ? 4 : 3;
  pairs("pairs-sync", "each of two threads doing both lookups of every ordered pair, in opposite orders: all schedules with at most " + num(s3.preemptions) + " preemptions at lock and atomic operations", s3, true);
  vs::Options tri = fn;
  tri.preemptions = 1;
  tri.every = th ? 1 : 4;
  v.push_back({"triples", "every triple of lookups in three threads, at most 1 preemption at any lock, atomic operation or " + num(tri.every) + ". function entry", (uint64_t)kN * kN, [=](T& t, uint64_t u) {
                 for (int k = 0; k < kN; ++k) {
                   std::vector<std::vector<int>> c = {{(int)u / kN}, {(int)u % kN}, {k}};
                   if (t.begin([&] { return show(c); })) explore(t, c, tri);
                 }
               }});
  return v;
}
}  // namespace
int main(int c, char** v) { return mc::Main(c, v, spaces); }
