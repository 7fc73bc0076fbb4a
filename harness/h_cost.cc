// C13: the work (basic blocks executed, bytes allocated, bytes copied or scanned by memory functions) and the stack used by parsing, decoding and looking up,
// measured on every member of enumerated families of inputs.
#include <algorithm>
#include <functional>
#include <memory>
#include <set>

#include "cov_rt.h"
#include "grpc_transcoding/path_matcher.h"
#include "mc.h"

namespace gt = google::grpc::transcoding;
using mc::T;

namespace {
std::string num(uint64_t n) { return std::to_string(n); }
T* g_t;
void over() { g_t->fail("the work exceeds " + num(cov_limit) + " basic blocks"); }

struct Cost {
  uint64_t work, stack;
};
template <class F>
Cost measure(T& t, uint64_t limit, const F& f) {
  g_t = &t;
  cov_over = over;
  cov_blocks = cov_bytes = 0;
  cov_low = ~0ull;
  cov_limit = limit;
  uintptr_t here = (uintptr_t)__builtin_frame_address(0);
  cov_on = true;
  f();
  cov_on = false;
  t.step();
  t.beat();
  Cost c = {cov_blocks + cov_bytes / 8, cov_low < here ? here - cov_low : 0};
  return c;
}

std::string rep(const std::string& s, size_t n) {
  std::string o;
  o.reserve(s.size() * n);
  for (size_t i = 0; i < n; ++i) o += s;
  return o;
}
std::vector<std::string> words(const char* a, int n) {  // 1..n characters
  std::vector<std::string> o, last = {""};
  for (int l = 0; l < n; ++l) {
    std::vector<std::string> next;
    for (auto& w : last)
      for (const char* c = a; *c; ++c) next.push_back(w + *c);
    o.insert(o.end(), next.begin(), next.end());
    last = next;
  }
  return o;
}

// Linear growth: at 8 times the size, at most 8 * 1.8 times the work (a quadratic share shows as up to 64 times), and
// the stack does not grow.  kPerByte is some 20 times what one byte costs.
const size_t kSmall = 512, kBig = 4096;
const uint64_t kPerByte = 2000, kStackSlack = 4096;
template <class F>
void linear(T& t, const std::string& what, const std::string& pre, const std::string& unit, const std::string& suf, uint64_t factor, const F& f) {
  std::string a = pre + rep(unit, kSmall) + suf, b = pre + rep(unit, kBig) + suf;
  Cost x = measure(t, 1u << 31, [&] { f(a); });
  uint64_t limit = 8 * x.work * 18 / 10 + 4000 * factor;
  Cost y = measure(t, 4 * limit + 1000000, [&] { f(b); });
  t.check(y.work <= limit, [&] { return what + ": " + num(x.work) + " units of work for " + num(kSmall) + " repetitions, " + num(y.work) + " for " + num(kBig) + ": not linear"; });
  t.check(y.work <= kPerByte * factor * (b.size() + 16), [&] { return what + ": " + num(y.work) + " units of work for " + num(b.size()) + " bytes"; });
  t.check(y.stack <= x.stack + kStackSlack, [&] { return what + ": " + num(x.stack) + " bytes of stack for " + num(kSmall) + " repetitions, " + num(y.stack) + " for " + num(kBig); });
  t.state(mc::comb(x.work, y.work));
}

using M = const int*;
const int kId = 1;
struct Set {
  std::vector<std::string> templates;
  bool any_verb;
  size_t nodes = 1;
  gt::PathMatcherPtr<M> m;
  gt::PathMatcherPtr<M>& get() {
    if (!m) {
      gt::PathMatcherBuilder<M> b;
      b.SetMatchUnregisteredCustomVerb(any_verb);
      b.SetQueryParamUnescapePlus(true);
      for (auto& s : templates) {
        b.Register("GET", s, "", std::unordered_set<std::string>{"k", "key"}, &kId);
        nodes += 1 + std::count(s.begin(), s.end(), '/');
      }
      m = b.Build();
    }
    return m;
  }
};

std::string join(const std::vector<std::string>& v) {
  std::string o;
  for (auto& s : v) o += "/" + s;
  return o;
}
void patterns(std::vector<std::string>& cur, size_t n, const std::vector<std::string>& lits, bool exact, std::vector<std::string>& out) {
  if (!exact ? !cur.empty() : cur.size() == n) out.push_back(join(cur));
  if (cur.size() == n) return;
  bool wild = std::find(cur.begin(), cur.end(), "**") != cur.end();
  std::vector<std::string> next = lits;
  if (!wild) next.push_back("*"), next.push_back("**");
  for (auto& s : next) {
    cur.push_back(s);
    patterns(cur, n, lits, exact, out);
    cur.pop_back();
  }
}

std::vector<mc::Space> spaces(const mc::Options& o) {
  bool th = o.thorough();
  std::vector<mc::Space> v;
  {
    auto un = std::make_shared<std::vector<std::string>>(words("/a*{}=.:", th ? 4 : 3));
    v.push_back({"parse", "template parsing on prefix + unit^n + suffix for every unit of at most " + num(th ? 4 : 3) + " characters over {/,a,*,{,},=,.,:}, 5 prefixes, 5 suffixes, n = 512 and 4096", un->size(), [=](T& t, uint64_t u) {
                   for (std::string pre : {"", "/", "/{a=", "/{a.", "/a:"})
                     for (std::string suf : {"", "}", "/**", ":v", "=b}/x"}) {
                       std::string w = "parsing of " + mc::q(pre) + " + " + mc::q((*un)[u]) + "^n + " + mc::q(suf);
                       if (!t.begin([&] { return w; })) continue;
                       linear(t, w, pre, (*un)[u], suf, 1, [](const std::string& s) { gt::HttpTemplate::Parse(s); });
                     }
                 }});
  }
  {
    auto un = std::make_shared<std::vector<std::string>>(words("%2Fa+", 4));
    v.push_back({"decode", "percent-decoding of prefix + unit^n + suffix for every unit of at most 4 characters over {%,2,F,a,+} x 3 specs x plus on/off", un->size(), [=](T& t, uint64_t u) {
                   for (std::string suf : {"", "%", "%41"})
                     for (int sp = 0; sp < 3; ++sp)
                       for (int plus = 0; plus < 2; ++plus) {
                         std::string w = "decoding of " + mc::q((*un)[u]) + "^n + " + mc::q(suf) + " spec " + num(sp) + " plus " + num(plus);
                         if (!t.begin([&] { return w; })) continue;
                         linear(t, w, "", (*un)[u], suf, 1, [&](const std::string& s) { gt::UrlUnescapeString(s, (gt::UrlUnescapeSpec)sp, plus); });
                       }
                 }});
  }
  {
    static std::vector<std::vector<std::string>> sets = {{"/{x=**}"},
                                                         {"/**/a/a"},
                                                         {"/a/**/b:v", "/**/b/a", "/**"},
                                                         {"/a", "/*", "/a/*", "/*/a", "/a/**", "/*/**", "/**"},
                                                         {"/{x=*/**}/{y=a/b}:v", "/{z=**}:w", "/{u}/{w}"},
                                                         {"/a/a/a/a/b", "/*/a/*/a/b", "/a/*/a/**/b", "/a/**/a/a/b", "/**/a/a/a/b", "/**/a/b/a/b"},
                                                         {"/"}};
    auto un = std::make_shared<std::vector<std::string>>(words("/ab:%?2", th ? 4 : 3));
    v.push_back({"lookup", "lookups of path prefix + unit^n + suffix for every unit of at most " + num(th ? 4 : 3) + " characters over {/,a,b,:,%,?,2} on " + num(sets.size()) + " sets of templates, with and without matching of unregistered verbs", un->size(),
                 [=](T& t, uint64_t u) {
                   static std::vector<Set> ss;
                   if (ss.empty())
                     for (auto& s : sets)
                       for (int a = 0; a < 2; ++a) {
                         ss.emplace_back();
                         ss.back().templates = s;
                         ss.back().any_verb = a;
                       }
                   for (auto& s : ss)
                     for (std::string pre : {"/", "/a/"})
                       for (std::string suf : {"", "/b/a", "/c", ":v", "/a/b:w"}) {
                         std::string w = "lookup of " + mc::q(pre) + " + " + mc::q((*un)[u]) + "^n + " + mc::q(suf) + " with " + mc::q(s.templates[0]) + "... (" + num(s.templates.size()) + " templates)";
                         if (!t.begin([&] { return w; })) continue;
                         auto& m = s.get();
                         std::vector<gt::VariableBinding> bs;
                         std::string body;
                         linear(t, w, pre, (*un)[u], suf, s.nodes, [&](const std::string& p) { m->Lookup("GET", p, "", &bs, &body); });
                         if (u % 7 == 0) linear(t, w + " (short form)", pre, (*un)[u], suf, s.nodes, [&](const std::string& p) { m->Lookup("GET", p); });
                       }
                 }});
  }
  {
    auto un = std::make_shared<std::vector<std::string>>(words("a=&.%2+k", th ? 4 : 3));
    v.push_back({"query", "lookups with query prefix + unit^n + suffix for every unit of at most " + num(th ? 4 : 3) + " characters over {a,=,&,.,%,2,+,k}", un->size(), [=](T& t, uint64_t u) {
                   static Set s{{"/{x}"}, false};
                   for (std::string pre : {"", "a=", "key="})
                     for (std::string suf : {"", "=1", "&key=1"}) {
                       std::string w = "query " + mc::q(pre) + " + " + mc::q((*un)[u]) + "^n + " + mc::q(suf);
                       if (!t.begin([&] { return w; })) continue;
                       auto& m = s.get();
                       std::vector<gt::VariableBinding> bs;
                       std::string body;
                       linear(t, w, pre, (*un)[u], suf, 1, [&](const std::string& p) { m->Lookup("GET", "/1", p, &bs, &body); });
                     }
                 }});
  }
  {
    // Whole tries: every pattern of a given length, so that everything overlaps; no request matches the last segment.
    int D = th ? 12 : 10;
    v.push_back({"tries", "the trie of every pattern of d segments over {a,*} (also with **, also with b) ending in a segment no request has, d <= " + num(D) + ", and requests of up to d+40 segments: work <= " + num(kPerByte) + " x nodes x bytes",
                 (uint64_t)D * 4, [=](T& t, uint64_t u) {
                   int d = u / 4 + 1, kind = u % 4;
                   std::vector<std::string> ps, c;
                   if (kind < 2) {
                     for (int m = 0; m < 1 << d; ++m) {
                       std::string s;
                       for (int i = 0; i < d; ++i) s += (m >> i & 1) ? "/a" : "/*";
                       ps.push_back(s + (kind ? "/**/z" : "/z"));
                     }
                   } else {
                     if (d > 7) return;
                     std::vector<std::string> raw;
                     patterns(c, d, kind == 2 ? std::vector<std::string>{"a"} : std::vector<std::string>{"a", "b"}, true, raw);
                     if (raw.size() > 6000) raw.resize(6000);
                     for (auto& s : raw) ps.push_back(s + "/z");
                   }
                   Set s{ps, false};
                   if (t.begin([&] { return "trie of " + num(ps.size()) + " templates such as " + mc::q(ps[ps.size() / 2]); })) {
                     auto& m = s.get();
                     uint64_t nodes = s.nodes;  // an upper bound of the nodes of the trie
                     std::set<std::string> tr;
                     for (auto& p : ps)
                       for (size_t i = 1; i <= p.size(); ++i)
                         if (i == p.size() || p[i] == '/') tr.insert(p.substr(0, i));
                     nodes = tr.size() + 1;
                     for (size_t k = 0; k <= (size_t)d + 40; ++k)
                       for (std::string tail : {"", "/z", "/y"}) {
                         std::string p = rep("/a", k) + tail;
                         if (p.empty()) continue;
                         Cost x = measure(t, kPerByte * nodes * (p.size() + 16), [&] { m->Lookup("GET", p); });
                         t.check(x.work <= kPerByte * nodes * (p.size() + 16), [&] { return "lookup of " + mc::q(p) + " takes " + num(x.work) + " units of work with " + num(nodes) + " nodes"; });
                         t.state(mc::comb(x.work, u));
                       }
                   }
                 }});
  }
  {
    auto pool = std::make_shared<std::vector<std::string>>();
    std::vector<std::string> c;
    patterns(c, 4, {"a"}, false, *pool);
    int n = pool->size();
    v.push_back({"pairs", "every set of <= " + std::string(th ? "3" : "2") + " of the " + num(n) + " patterns of <= 4 segments over {a,*,**} x the paths a^k, (ab)^k, a^k b for k <= 24 and = 3000: work <= " + num(kPerByte) + " x nodes x bytes, stack bounded", (uint64_t)n * n,
                 [=](T& t, uint64_t u) {
                   int i = u / n, j = u % n;
                   if (j < i) return;
                   static std::vector<std::string> reqs = [] {
                     std::vector<std::string> r;
                     for (size_t k = 1; k <= 25; ++k) {
                       size_t m = k == 25 ? 3000 : k;
                       r.push_back(rep("/a", m));
                       r.push_back(rep("/a/b", m));
                       r.push_back(rep("/a", m) + "/b");
                     }
                     return r;
                   }();
                   for (int a = j; a < (th && j > i ? n : j + 1); ++a) {
                     Set s{{(*pool)[i]}, false};
                     if (j != i) s.templates.push_back((*pool)[j]);
                     if (a != j) s.templates.push_back((*pool)[a]);
                     if (!t.begin([&] { return "templates " + (*pool)[i] + " " + (*pool)[j] + " " + (*pool)[a]; })) continue;
                     auto& m = s.get();
                     uint64_t small = 0;
                     for (auto& p : reqs) {
                       uint64_t lim = kPerByte * s.nodes * (p.size() + 16);
                       Cost x = measure(t, lim, [&] { m->Lookup("GET", p); });
                       t.check(x.work <= lim, [&] { return "lookup of " + mc::q(p) + " takes " + num(x.work) + " units of work"; });
                       if (p.size() < 200) small = std::max(small, x.stack);
                       else t.check(x.stack <= small + kStackSlack, [&] { return "lookup of " + mc::q(p) + " uses " + num(x.stack) + " bytes of stack, short requests at most " + num(small); });
                       t.state(mc::comb(x.work, p.size()));
                     }
                   }
                 }});
  }
  {
    // Long templates: a pattern repeated, so that whatever a node does more than once per visit multiplies along the path.
    std::vector<std::string> ws;
    for (int l = 1; l <= (th ? 4 : 3); ++l)
      for (int m = 0; m < 1 << (2 * l); ++m) {
        std::string s;
        for (int i = 0; i < l; ++i) s += (const char*[]){"/a", "/*", "/b", "/**"}[m >> 2 * i & 3];
        if (s.find("**") == std::string::npos || s.find("**") == s.size() - 2) ws.push_back(s);  // "**" only at the end
      }
    int n = ws.size();
    v.push_back({"deep", "every pair of patterns of <= " + num(th ? 4 : 3) + " segments over {a,*,b} (a '**' at the end allowed), each repeated up to 8, 24 and 48 segments, with 4 endings, x 7 requests of as many segments: work <= " + num(kPerByte) + " x nodes x bytes", (uint64_t)n * n,
                 [=](T& t, uint64_t u) {
                   int i = u / n, j = u % n;
                   if (j < i) return;
                   auto make = [&](std::string w, size_t d, const std::string& end) {
                     size_t wild = w.find("/**");
                     std::string tail;
                     if (wild != std::string::npos) tail = "/**", w = w.substr(0, wild);
                     if (w.empty()) w = "/a";
                     size_t k = d / std::count(w.begin(), w.end(), '/');
                     return tail + rep(w, k) + end;
                   };
                   for (size_t d : {8, 24, 48})
                     for (std::string end : {"", "/z", "/*", ":v"}) {
                       Set s{{make(ws[i], d, end)}, false};
                       if (j != i) s.templates.push_back(make(ws[j], d, end));
                       if (s.templates[0].substr(0, 3) == "/**")
                         for (size_t p; (p = s.templates[0].find("/*", 3)) != std::string::npos;) s.templates[0].replace(p, 2, "/a");
                       if (j != i && s.templates[1].substr(0, 3) == "/**")
                         for (size_t p; (p = s.templates[1].find("/*", 3)) != std::string::npos;) s.templates[1].replace(p, 2, "/b");
                       if (!t.begin([&] { return "templates " + s.templates[0] + " " + s.templates.back(); })) continue;
                       auto& m = s.get();
                       size_t segs = std::count(s.templates[0].begin(), s.templates[0].end(), '/');
                       std::string a = rep("/a", segs - 1), ab = rep("/a/b", segs / 2);
                       for (std::string q : {a + "/a", a + "/z", a, a + "/a:v", ab + "/a", ab, rep("/b", segs) + "/z"}) {
                         if (q.empty()) continue;
                         uint64_t lim = kPerByte * s.nodes * (q.size() + 16);
                         bool hit = false;
                         Cost x = measure(t, lim, [&] { hit = m->Lookup("GET", q) != nullptr; });
                         t.check(x.work <= lim, [&] { return "lookup of " + mc::q(q) + " takes " + num(x.work) + " units of work with " + num(s.nodes) + " nodes"; });
                         t.state(mc::comb(x.work, hit * 1000 + q.size()));
                       }
                     }
                 }});
  }
  {
    // Registration: n templates of a kind, each with up to three further ways to bind it.
    struct Kind {
      std::string name;
      std::function<std::string(std::string)> at, method;
    };
    auto same = [](const std::string& x) { return [x](std::string) { return x; }; };
    auto form = [](const std::string& x, const std::string& y) { return [x, y](std::string i) { return x + i + y; }; };
    std::vector<Kind> ks;
    std::vector<std::pair<std::string, std::string>> forms = {{"/a", ""}, {"/a/b", ""}, {"/a", "/b"}, {"/a", "/{x}/**"}, {"/{x", "}"}, {"/{x", "=**}"}, {"/{x", "=a/*}/b"}, {"/{a.b", ".c}/{x.y.z=*}"}, {"/*/*/a", "/*"}, {"/a/b:v", ""}, {"/a", ":v"}, {"/{x=**}:v", ""}, {"/**/a", "/b"}, {"a", ""}, {"/a{", ""}, {"/**/**", ""}, {"/a", ":"}};
    for (auto& f : forms) ks.push_back({"templates " + f.first + "<i>" + f.second, form(f.first, f.second), same("GET")});
    for (std::string x : {"/a", "/a/{x}", "/{x=**}", "/a:v", "/**"}) {
      ks.push_back({x + " for methods M<i>", same(x), form("M", "")});
      ks.push_back({x + " for the same method", same(x), same("*")});
    }
    auto kinds = std::make_shared<std::vector<Kind>>(ks);
    v.push_back({"register", "n templates of " + num(ks.size()) + " kinds (different literals, variables, verbs, methods; all the same; invalid ones) registered, the matcher built (with and without options), n = 100 and 800: the work is proportional", ks.size() * 4, [=](T& t, uint64_t u) {
                   const Kind& k = (*kinds)[u / 4];
                   bool opt = u & 1, rejecting = u & 2;
                   if (!t.begin([&] { return k.name + (opt ? ", options" : "") + (rejecting ? ", duplicates rejected" : ""); })) return;
                   auto run = [&](size_t n) {
                     return measure(t, 1u << 31, [&] {
                       gt::PathMatcherBuilder<M> b;
                       b.SetFailRegistrationOnDuplicate(rejecting);
                       if (opt) b.SetMatchUnregisteredCustomVerb(true), b.SetQueryParamUnescapePlus(true);
                       for (size_t i = 0; i < n; ++i) {
                         std::string x = num(1000 + i);
                         if (opt) b.Register(k.method(x), k.at(x), "x", std::unordered_set<std::string>{"k"}, &kId);
                         else b.Register(k.method(x), k.at(x), "", &kId);
                       }
                       b.Build();
                     });
                   };
                   Cost x = run(100);
                   Cost y = run(800);
                   t.check(y.work <= 8 * x.work * 18 / 10 + 100000, [&] { return num(x.work) + " units of work for 100 templates, " + num(y.work) + " for 800: not proportional"; });
                   t.check(y.stack <= x.stack + kStackSlack, [&] { return num(x.stack) + " bytes of stack for 100 templates, " + num(y.stack) + " for 800"; });
                   t.state(mc::comb(x.work, y.work));
                 }});
    v.push_back({"found", "lookups of one path that no, one or each of n templates of the same kinds fits, n = 100 and 800, where the request differs from all of them in its literals (so that no more nodes than its own are concerned): the work does not grow with n", (forms.size() - 4) * 2, [=](T& t, uint64_t u) {
                   const Kind& k = (*kinds)[u / 2];
                   bool opt = u & 1;
                   if (!t.begin([&] { return k.name + (opt ? ", options" : ""); })) return;
                   auto run = [&](size_t n) {
                     gt::PathMatcherBuilder<M> b;
                     b.SetMatchUnregisteredCustomVerb(opt);
                     for (size_t i = 0; i < n; ++i) b.Register("GET", k.at(num(1000 + i)), "", &kId);
                     auto m = b.Build();
                     return measure(t, 1u << 31, [&] {
                       for (int i = 0; i < 100; ++i)
                         for (std::string q : {"/a/b", "/a1003/b", "/a/b1003/c", "/z/z/a1003/z", "/a/b:v1003", "/a1003:v", "/z:z"}) m->Lookup("GET", q);
                     });
                   };
                   Cost x = run(100), y = run(800);
                   t.check(y.work <= x.work * 18 / 10 + 4000, [&] { return num(x.work) + " units of work among 100 templates, " + num(y.work) + " among 800"; });
                   t.state(mc::comb(x.work, y.work));
                 }});
  }
  return v;
}
}  // namespace

int main(int argc, char** argv) { return mc::Main(argc, argv, spaces); }
