// C29: whole translations in several threads, on one type helper, under every schedule within a preemption bound.
#include <map>
#include <memory>
#include <string>

#include "ctypes.h"
#include "grpc_transcoding/json_request_translator.h"
#include "grpc_transcoding/response_to_json_translator.h"
#include "mc.h"
#include "sched_mc.h"
#include "source.h"

namespace gt = google::grpc::transcoding;
namespace pb = google::protobuf;
using mc::T;

namespace {
std::string num(uint64_t n) { return std::to_string(n); }

// A job: one translation from start to end, all its objects its own but the type helper.
struct Job {
  const char* name;
  bool request, streaming;
  const char* body;                       // JSON, or the binary messages of a response separated by |
  const char* field;                      // body field
  std::vector<std::pair<const char*, const char*>> binds;
  bool reject, enums, delim, newline;
};
const Job kJobs[] = {
    {"unary with bindings", true, false, "{\"s\":\"a\",\"m\":{\"i\":1}}", "*", {{"m.s", "x"}, {"r", "y"}, {"e", "one"}}, false, true, true, false},
    {"unary, body field, collision", true, false, "{\"s\":\"a\"}", "m", {{"m.s", "b"}, {"n.m.s", "q"}}, true, false, false, false},
    {"unary, bad body", true, false, "{\"i\":\"z\"}", "*", {}, false, false, false, false},
    {"streaming with bindings", true, true, "[{\"s\":\"c\"},{},{\"rm\":[{\"i\":7}]}]", "*", {{"u", "5"}}, false, false, true, false},
    {"empty unary", true, false, "", "*", {{"m.m.s", "z"}}, false, false, true, false},
    {"unary response", false, false, "\x0a\x01x", "", {}, false, false, false, false},
    {"streaming response", false, true, "\x0a\x01x||\x10\x05\x28\x01", "", {}, false, false, false, false},
    {"newline-delimited response", false, true, "\x1a\x03\x0a\x01y|", "", {}, false, false, false, true},
};
const int kN = sizeof kJobs / sizeof kJobs[0];

std::string run(gt::TypeHelper& h, const Job& j) {
  std::string text = j.body;
  if (!j.request) {
    std::string out;
    for (size_t p = 0;;) {
      size_t e = std::min(text.find('|', p), text.size());
      out += std::string("\0\0\0\0", 4) + (char)(e - p) + text.substr(p, e - p);
      if (e == text.size()) break;
      p = e + 1;
    }
    text = out;
  }
  ArrivingSource in;
  in.lenient = true;
  if (text.size() > 1) in.reset(text, {(uint32_t)text.size() / 2, (uint32_t)text.size()});
  else in.reset(text, text.empty() ? std::vector<uint32_t>() : std::vector<uint32_t>{(uint32_t)text.size()});
  in.arrived = in.cuts.size();
  in.ended = true;
  std::string got;
  auto drain = [&](gt::MessageStream& s) {
    std::string m;
    for (int i = 0; i < 8 && !s.Finished(); ++i)
      while (s.NextMessage(&m)) got += mc::q(m) + " ";
    got += s.Finished() ? "finished " : "open ";
    got += s.Status().ToString();
  };
  if (j.request) {
    gt::RequestInfo i;
    i.message_type = h.Info()->GetTypeByTypeUrl(ct::Url("mctest.M"));
    i.body_field_path = j.field;
    i.reject_binding_body_field_collisions = j.reject;
    i.case_insensitive_enum_parsing = j.enums;
    for (auto& b : j.binds) {
      gt::RequestWeaver::BindingInfo x;
      if (!h.ResolveFieldPath(*i.message_type, std::string(b.first), &x.field_path).ok()) got += std::string("no field ") + b.first + "; ";
      x.value = b.second;
      i.variable_bindings.push_back(x);
    }
    gt::JsonRequestTranslator t(h.Resolver(), &in, i, j.streaming, j.delim);
    drain(t.Output());
  } else {
    gt::JsonResponseTranslateOptions o;
    o.stream_newline_delimited = j.newline;
    gt::ResponseToJsonTranslator t(h.Resolver(), ct::Url("mctest.M"), j.streaming, &in, o);
    drain(t);
  }
  return got;
}
using Threads = std::vector<std::vector<int>>;
std::string show(const Threads& th) {
  std::string s;
  for (size_t k = 0; k < th.size(); ++k) {
    s += (k ? " || " : "");
    for (size_t i = 0; i < th[k].size(); ++i) s += (i ? "; " : "") + std::string(kJobs[th[k][i]].name);
  }
  return s;
}
std::unique_ptr<gt::TypeHelper> helper() { return std::make_unique<gt::TypeHelper>(ct::world().types, ct::world().enums); }
// What a thread's jobs return when nothing else runs, in a process of its own.
std::vector<std::string> alone(const std::vector<int>& seq) {
  int fd[2];
  if (pipe(fd)) abort();
  pid_t pid = fork();
  if (pid == 0) {
    auto h = helper();
    for (int i : seq) {
      std::string s = run(*h, kJobs[i]);
      uint32_t n = s.size();
      if (write(fd[1], &n, sizeof n) != sizeof n || write(fd[1], s.data(), n) != (ssize_t)n) _exit(1);
    }
    _exit(0);
  }
  close(fd[1]);
  std::string all;
  char buf[4096];
  ssize_t n;
  while ((n = read(fd[0], buf, sizeof buf)) > 0) all.append(buf, n);
  close(fd[0]);
  waitpid(pid, nullptr, 0);
  std::vector<std::string> out;
  size_t p = 0;
  while (p + 4 <= all.size()) {
    uint32_t k;
    memcpy(&k, all.data() + p, 4);
    out.push_back(all.substr(p + 4, k));
    p += 4 + k;
  }
  out.resize(seq.size(), "nothing: it crashes");
  return out;
}
void explore(T& t, const Threads& threads, const vs::Options& o) {
  std::vector<std::vector<std::string>> want, got;
  for (auto& s : threads) want.push_back(alone(s));
  std::unique_ptr<gt::TypeHelper> h;
  auto before = [&] {
    h = helper();
    got.assign(threads.size(), {});
    std::vector<std::function<void()>> bodies;
    for (size_t k = 0; k < threads.size(); ++k) {
      got[k].resize(threads[k].size());
      bodies.push_back([&, k] {
        for (size_t i = 0; i < threads[k].size(); ++i) got[k][i] = run(*h, kJobs[threads[k][i]]);
      });
    }
    return bodies;
  };
  auto after = [&]() -> std::string {
    for (size_t k = 0; k < threads.size(); ++k)
      for (size_t i = 0; i < threads[k].size(); ++i)
        if (got[k][i] != want[k][i]) return "thread " + num(k) + ": " + kJobs[threads[k][i]].name + " gives " + got[k][i] + ", alone " + want[k][i];
    return "";
  };
  uint64_t id = 1;
  for (auto& s : threads)
    for (int i : s) id = mc::comb(id, i + 1);
  vs::ExploreCase(t, id, o, before, after);
}
std::vector<mc::Space> spaces(const mc::Options& o) {
  bool th = o.thorough();
  ct::world();
  std::vector<mc::Space> v;
  auto add = [&](const std::string& name, const std::string& what, const std::vector<Threads>& cs, vs::Options op) {
    auto c = std::make_shared<std::vector<Threads>>(cs);
    v.push_back({name, what, c->size(), [=](T& t, uint64_t u) {
                   if (t.begin([&] { return show((*c)[u]); })) explore(t, (*c)[u], op);
                 }});
  };
  std::vector<Threads> pairs, twos, triples;
  for (int a = 0; a < kN; ++a)
    for (int b = 0; b < kN; ++b) {
      pairs.push_back({{a}, {b}});
      twos.push_back({{a, b}, {b, a}});
      for (int c = b; c < kN; ++c) triples.push_back({{a}, {b}, {c}});
    }
  vs::Options sync;
  sync.preemptions = th ? 2 : 1;
  vs::Options fn = sync;
  fn.at_functions = true;
  fn.preemptions = 1;
  fn.every = th ? 1 : 3;
  add("pairs", "every ordered pair of " + num(kN) + " translations in two threads: at most one preemption, at any lock or atomic operation and every " + num(fn.every) + ". function entry", pairs, fn);
  vs::Options two = fn;
  two.preemptions = 2;
  two.every = th ? 20 : 60;
  add("pairs2", "the same, at most two preemptions, at locks, atomics and every " + num(two.every) + ". function entry", pairs, two);
  vs::Options cold = fn;
  cold.cold = true;
  cold.every = th ? 5 : 25;
  add("first", "the same, each execution the first of its process, at most one preemption, at locks, atomics and every " + num(cold.every) + ". function entry", pairs, cold);
  vs::Options s2 = sync;
  s2.preemptions = th ? 2 : 1;
  add("twice", "two threads each doing both translations of a pair, in opposite orders, at most " + num(s2.preemptions) + " preemptions, at locks and atomics", twos, s2);
  vs::Options s3 = fn;
  s3.every = th ? 10 : 50;
  add("triples", "three threads, one translation each, at most one preemption, at locks, atomics and every " + num(s3.every) + ". function entry", triples, s3);
  return v;
}
}  // namespace
int main(int c, char** v) { return mc::Main(c, v, spaces); }
