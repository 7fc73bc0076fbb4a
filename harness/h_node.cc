// C34: the routing trie on its own (PathMatcherNode): insertions, look-ups, clones.
// Oracle: the list of insertions.
#include <algorithm>
#include <functional>
#include <memory>
#include <string>
#include <vector>

#include "grpc_transcoding/http_template.h"
#include "grpc_transcoding/path_matcher_node.h"
#include "mc.h"

namespace gt = google::grpc::transcoding;
using mc::T;
using Strs = std::vector<std::string>;

namespace {
#ifdef MC_SAN
const bool kSan = true;
#else
const bool kSan = false;
#endif
std::string num(size_t n) { return std::to_string(n); }
std::string join(const Strs& v) {
  std::string o;
  for (auto& s : v) o += "/" + s;
  return o.empty() ? "(root)" : o;
}
const char kOne[] = "\x01";  // stands for AppendSingleParameterNode in the lists here

struct Slot {
  Strs path;
  std::string method;
  int data;
  bool multiple;
};
// What a node holds.
struct Model {
  std::vector<Slot> slots;
  bool insert(const Strs& p, const std::string& m, int data, bool mark) {
    for (auto& s : slots)
      if (s.path == p && s.method == m) {
        s.data = data;
        s.multiple |= mark;
        return false;
      }
    slots.push_back({p, m, data, false});
    return true;
  }
  static int kind(const std::string& s) { return s == "**" ? 3 : s == "*" ? 2 : s == kOne ? 1 : 0; }
  // Does the pattern fit the parts? "**" (only literals follow it) takes any number, at least one if something follows.
  // The rank says what each part, in turn, is taken by, and whether a "**" at the end takes nothing; the least is the best.
  static bool fits(const Strs& p, const Strs& parts, std::string* rank) {
    size_t w = std::find(p.begin(), p.end(), "**") - p.begin();
    if (w == p.size() ? parts.size() != p.size() : parts.size() + (w + 1 == p.size()) < p.size()) return false;
    rank->clear();
    for (size_t k = 0; k < parts.size(); ++k) {
      size_t behind = parts.size() - k;  // this part and those after it
      size_t i = w == p.size() || k < w ? k : behind < p.size() - w ? p.size() - behind : w;
      if (!kind(p[i]) && p[i] != parts[k]) return false;
      *rank += '0' + kind(p[i]);
    }
    if (w + 1 == p.size() && parts.size() == w) *rank += '3';
    return true;
  }
  const Slot* find(const Strs& parts, const std::string& method) const {
    const Slot* best = nullptr;
    std::string rank, least;
    for (auto& s : slots)
      if ((s.method == method || s.method == "*") && fits(s.path, parts, &rank) && (!best || rank < least || (rank == least && s.method == method))) best = &s, least = rank;
    return best;
  }
};
int* datum(int i) {
  static int d[4096];
  return &d[i];
}
gt::PathMatcherNode::PathInfo path(const Strs& p) {
  gt::PathMatcherNode::PathInfo::Builder b;
  for (auto& s : p) {
    if (s == kOne) b.AppendSingleParameterNode();
    else b.AppendLiteralNode(s);
  }
  return b.Build();
}
struct Pair {
  std::unique_ptr<gt::PathMatcherNode> node;
  Model model;
};
void insert(T& t, Pair& p, const Strs& s, const std::string& method, int data, bool mark) {
  t.step();
  bool want = p.model.insert(s, method, data, mark), got = p.node->InsertPath(path(s), method, datum(data), mark);
  t.check(got == want, [&] { return "inserting " + method + " " + join(s) + " says " + (got ? "new" : "known"); });
}
void ask(T& t, const Pair& p, const char* who, const Strs& parts, const std::string& method) {
  t.step();
  const Slot* want = p.model.find(parts, method);
  gt::PathMatcherLookupResult got;
  p.node->LookupPath(parts.begin(), parts.end(), method, &got);
  t.check(got.data == (want ? datum(want->data) : nullptr), [&] {
    return std::string("the ") + who + " answers " + method + " " + join(parts) + " with " + (got.data ? "insertion " + num((int*)got.data - datum(0)) : "nothing") + ", not " + (want ? "insertion " + num(want->data) : "nothing");
  });
  t.check(got.is_multiple == (want && want->multiple), [&] { return std::string("the ") + who + " answers " + method + " " + join(parts) + " as registered " + (got.is_multiple ? "more than once" : "once"); });
  t.state(mc::comb((uint64_t)((int*)got.data - datum(0)), got.is_multiple));
}
const std::vector<Strs>& requests() {
  static const std::vector<Strs> v = [] {
    std::vector<Strs> v;
    std::function<void(Strs)> go = [&](Strs s) {
      v.push_back(s);
      if (s.size() == 3) return;
      for (const char* x : {"a", "b", "c"}) {
        Strs n = s;
        n.push_back(x);
        go(n);
      }
    };
    go({});
    for (Strs s : {Strs{""}, {"a", ""}, {"a", "", "b"}, {"a", "c", "c", "b"}, {"c", "a", "b", "a", "b"}, {"a", "b", "c", "b", "c"}}) v.push_back(s);
    return v;
  }();
  return v;
}
void ask_all(T& t, const Pair& p, const char* who) {
  for (auto& r : requests())
    for (const char* m : {"GET", "PUT"}) ask(t, p, who, r, m);
}
const std::vector<Strs>& paths() {
  static const std::vector<Strs> v = {{}, {"a"}, {"a", "b"}, {"*"}, {"a", "*"}, {kOne}, {"a", kOne, "b"}, {"*", "b"}, {"**"}, {"a", "**"}, {"**", "b"}, {"a", "**", "b"}, {"**", "b", "c"}};
  return v;
}
struct Op {
  int what;  // 0 insert, 1 insert into the clone, 2 clone, 3 drop the original
  int p;
  bool any, mark;
  std::string show() const {
    if (what == 2) return "clone";
    if (what == 3) return "drop the original";
    return std::string(what ? "insert into the clone " : "insert ") + (any ? "* " : "GET ") + join(paths()[p]) + (mark ? " marking" : "");
  }
};
std::string show(const std::vector<Op>& v) {
  std::string o;
  for (auto& x : v) o += x.show() + "; ";
  return o;
}
void run(T& t, const std::vector<Op>& ops) {
  if (!t.begin([&] { return show(ops); })) return;
  Pair a, b;
  a.node = std::make_unique<gt::PathMatcherNode>();
  int n = 0;
  for (auto& o : ops) {
    ++n;
    switch (o.what) {
      case 0: insert(t, a, paths()[o.p], o.any ? "*" : "GET", n, o.mark); break;
      case 1: insert(t, b, paths()[o.p], o.any ? "*" : "GET", n, o.mark); break;
      case 2:
        b.node = a.node->Clone();
        b.model = a.model;
        break;
      default: a.node.reset();
    }
  }
  if (a.node) ask_all(t, a, "original");
  if (b.node) ask_all(t, b, "clone");
}

std::vector<mc::Space> spaces(const mc::Options& o) {
  bool th = o.thorough();
  std::vector<mc::Space> v;
  int len = kSan ? 3 : th ? 5 : 4;
  size_t np = paths().size();
  v.push_back({"histories", "every history of at most " + num(len) + " operations: insert (13 paths of literals, single parameters, * and **; GET or any method; the " + num(len) + "th and later: marking duplicates or not) into the node or its clone, clone the node (any number of times), drop the original; then " + num(requests().size()) + " requests x 2 methods of each",
               np * 2 * np, [=](T& t, uint64_t u) {
                 std::vector<Op> h;
                 std::function<void(bool, bool)> go = [&](bool cloned, bool dropped) {
                   if (h.size() >= 2) run(t, h);
                   if ((int)h.size() == len) return;
                   auto with = [&](Op o, bool c, bool d) {
                     h.push_back(o);
                     go(c, d);
                     h.pop_back();
                   };
                   bool last = (int)h.size() + 1 == len;
                   size_t k = h.size();
                   auto inserts = [&](int what) {
                     for (int p = 0; p < (int)np; ++p)
                       for (int any = 0; any < 2; ++any) {
                         if (k == 0 && (p != (int)(u / 2 / np) || any != (int)(u & 1))) continue;
                         if (k == 1 && what == 0 && p != (int)(u / 2 % np)) continue;
                         for (int mark = 0; mark < 2; ++mark) {
                           // marking matters only for an insertion of what is there
                           bool there = false;
                           for (auto& x : h) there |= x.what <= 1 && x.p == p && x.any == !!any;
                           if (mark && !there) continue;
                           with({what, p, !!any, !!mark}, cloned, dropped);
                         }
                       }
                   };
                   if (!dropped) inserts(0);
                   if (k == 1 && u / 2 % np != 0) return;  // the other second operations once
                   if (cloned) inserts(1);
                   if (k && !dropped) with({2, 0, false, false}, true, false);
                   if (cloned && !dropped && !last) with({3, 0, false, false}, true, true);
                   if (cloned && !dropped && last) with({3, 0, false, false}, true, true);
                 };
                 go(false, false);
               }});
  // sets of paths: every pair (thorough: triple) of all patterns of at most 3 segments, original and clone
  v.push_back({"sets", std::string("every set of at most ") + (th ? "3" : "2") + " patterns of at most 3 segments (literals a, b, the three wildcards; only literals after **), in both orders, and a clone of it", 0, nullptr});
  v.pop_back();
  static const std::vector<Strs> all = [] {
    std::vector<Strs> v;
    std::function<void(Strs, bool)> go = [&](Strs s, bool wild) {
      v.push_back(s);
      if (s.size() == 3) return;
      for (const char* x : {"a", "b", kOne, "*", "**"}) {
        if (wild && Model::kind(x)) continue;
        Strs n = s;
        n.push_back(x);
        go(n, wild || Model::kind(x) == 3);
      }
    };
    go({}, false);
    return v;
  }();
  int most = kSan ? 2 : 3;
  int thin = kSan ? 1 : th ? 1 : 4;
  v.push_back({"sets", "every ordered set of at most 2" + std::string(most > 2 ? thin > 1 ? " (and every 4th of 3)" : " or 3" : "") + " of the " + num(all.size()) + " patterns of at most 3 segments (a, b, single parameter, *, **; only literals after **), asked and cloned and the clone asked after the original is gone",
               all.size(), [=](T& t, uint64_t u) {
                 auto one = [&](const std::vector<size_t>& s) {
                   if (!t.begin([&] {
                         std::string o;
                         for (auto k : s) o += join(all[k]) + " ";
                         return o;
                       }))
                     return;
                   Pair a, b;
                   a.node = std::make_unique<gt::PathMatcherNode>();
                   for (size_t k = 0; k < s.size(); ++k) insert(t, a, all[s[k]], k & 1 ? "*" : "GET", k + 1, true);
                   ask_all(t, a, "original");
                   b.node = a.node->Clone();
                   b.model = a.model;
                   if (s.size() == 2) ask_all(t, a, "cloned original");
                   a.node.reset();
                   ask_all(t, b, "clone");
                 };
                 one({u});
                 for (size_t x = 0; x < all.size(); ++x) {
                   one({u, x});
                   for (size_t y = (u + x) % thin; most > 2 && y < all.size(); y += thin) one({u, x, y});
                 }
               }});
  v.push_back({"deep", "a chain of n literals, of single parameters, of * and a ** behind n literals, n up to " + num(kSan ? 200 : 1000) + ": cloned and asked n-1, n and n+1 parts", (uint64_t)(kSan ? 200 : 1000), [=](T& t, uint64_t u) {
                 for (const char* x : {"a", kOne, "*", "**"}) {
                   if (!t.begin([&] { return num(u) + " times " + mc::q(x); })) continue;
                   Pair a, b;
                   a.node = std::make_unique<gt::PathMatcherNode>();
                   Strs s(u, std::string(x) == "**" ? "a" : x);
                   if (std::string(x) == "**") s.push_back(x);
                   insert(t, a, s, "GET", 1, true);
                   b.node = a.node->Clone();
                   b.model = a.model;
                   a.node.reset();
                   for (int d = -1; d < 3; ++d)
                     if ((int)u + d >= 0) ask(t, b, "clone", Strs(u + d, "a"), "GET");
                 }
               }});
  return v;
}
}  // namespace
int main(int c, char** v) { return mc::Main(c, v, spaces); }
