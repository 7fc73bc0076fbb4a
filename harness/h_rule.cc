// C10: RegisterByHttpRule against the registrations it stands for, for every small tree of bindings.
#include <memory>

#include "google/api/http.pb.h"
#include "grpc_transcoding/path_matcher.h"
#include "grpc_transcoding/path_matcher_utility.h"
#include "mc.h"
#include "ref.h"

namespace gt = google::grpc::transcoding;
using google::api::HttpRule;
using mc::T;

namespace {
#ifdef MC_SAN
const bool kSan = true;
#else
const bool kSan = false;
#endif
std::string num(size_t n) { return std::to_string(n); }
using M = const int*;
const int kId[8] = {0, 1, 2, 3, 4, 5, 6, 7};

struct Label {  // one node's own binding
  int kind;     // 0 none, 1 get, 2 put, 3 post, 4 delete, 5 patch, 6 custom
  std::string path, body, custom;
};
const std::vector<Label>& labels() {
  static const std::vector<Label> v = {
      {1, "/a/{x}", "", ""},       {0, "", "ignored", ""},      {3, "/a/{y.z}", "*", ""},    {1, "/a/{q=*}", "dup", ""}, {1, "/a/{x", "bad", ""},     {2, "/a/{x}", "book", ""},
      {4, "/{n=a/**}", "", ""},    {5, "/a/{x}:v", "b.c", ""},  {6, "/a/*", "any", "*"},     {6, "/{w}/b", "cu", "LIST"}, {3, "/**/*", "bad2", ""},   {6, "", "nopath", "LIST"},
      {1, "", "", ""},             {6, "/{e=**}", "nokind", ""}, {6, "/a/{g}", "get2", "GET"}};
  return v;
}
const char* const kMethod[] = {"", "GET", "PUT", "POST", "DELETE", "PATCH"};
void fill(HttpRule* r, const Label& l) {
  switch (l.kind) {
    case 1: r->set_get(l.path); break;
    case 2: r->set_put(l.path); break;
    case 3: r->set_post(l.path); break;
    case 4: r->set_delete_(l.path); break;
    case 5: r->set_patch(l.path); break;
    case 6:
      r->mutable_custom()->set_kind(l.custom);
      r->mutable_custom()->set_path(l.path);
      break;
  }
  r->set_body(l.body);
  r->set_selector("s");
}
std::string show(const Label& l) { return l.kind == 0 ? "none" : (l.kind == 6 ? "custom[" + l.custom + "]" : std::string(kMethod[l.kind])) + " " + mc::q(l.path) + " body " + mc::q(l.body); }

// A tree in preorder: label and depth of every node.
struct Node {
  int label, depth;
};
using Tree = std::vector<Node>;
HttpRule build(const Tree& t) {
  HttpRule root;
  std::vector<HttpRule*> stack;
  for (auto& n : t) {
    stack.resize(n.depth);
    HttpRule* r = n.depth ? stack.back()->add_additional_bindings() : &root;
    fill(r, labels()[n.label]);
    stack.push_back(r);
  }
  return root;
}
std::string show(const Tree& t) {
  std::string o;
  for (auto& n : t) o += "[" + std::string(n.depth, '>') + show(labels()[n.label]) + "] ";
  return o;
}
// The registrations it stands for, in order, up to the first that fails.
bool expect(ref::Matcher& m, const Tree& t, const std::set<std::string>& sys, int id) {
  for (auto& n : t) {
    const Label& l = labels()[n.label];
    if (l.kind == 0) continue;
    ref::Reg r;
    r.http_method = l.kind == 6 ? l.custom : kMethod[l.kind];
    r.tmpl = l.path;
    r.body = l.body;
    r.sys = sys;
    r.id = id;
    if (!m.add(r)) return false;
  }
  return true;
}

struct Q {
  const char *m, *p;
};
const std::vector<Q>& requests() {
  static const std::vector<Q> v = [] {
    std::vector<Q> v;
    for (auto p : {"/a/b", "/a/c", "/a/c:v", "/x/b", "/a", "/", "/a/c/d", "/a/b:w"})
      for (auto m : {"GET", "PUT", "POST", "DELETE", "PATCH", "LIST", "", "*", "OTHER"}) v.push_back({m, p});
    return v;
  }();
  return v;
}

void rule_case(T& t, const std::vector<Tree>& ts, bool fail_dup, bool sys_on) {
  if (!t.begin([&] {
        std::string o;
        for (auto& x : ts) o += "rule: " + show(x) + "; ";
        return o + (fail_dup ? "fail_on_duplicate " : "") + (sys_on ? "system parameters" : "");
      }))
    return;
  gt::PathMatcherBuilder<M> b;
  ref::Matcher m;
  b.SetFailRegistrationOnDuplicate(fail_dup);
  m.fail_on_dup = fail_dup;
  std::set<std::string> sys;
  if (sys_on) sys = {"k", "a.b"};
  uint64_t h = 0;
  for (size_t i = 0; i < ts.size(); ++i) {
    HttpRule r = build(ts[i]);
    HttpRule before = r;
    bool g = sys_on ? gt::PathMatcherUtility::RegisterByHttpRule(b, r, std::unordered_set<std::string>(sys.begin(), sys.end()), &kId[i]) : gt::PathMatcherUtility::RegisterByHttpRule(b, r, &kId[i]);
    bool e = expect(m, ts[i], sys, i);
    t.check(g == e, [&] { return "RegisterByHttpRule of rule " + num(i) + " returned " + num(g); });
    h = mc::comb(h, g);
    t.step();
  }
  auto pm = b.Build();
  std::vector<gt::VariableBinding> gb;
  std::string gbody;
  for (auto& q : requests()) {
    std::vector<ref::Binding> eb;
    std::string ebody;
    int e = m.lookup(q.m, q.p, "k=1&a.b=2&c=3", &eb, &ebody);
    M r = pm->Lookup(q.m, q.p, "k=1&a.b=2&c=3", &gb, &gbody);
    t.step();
    int g = r ? *r : -1;
    t.check(g == e, [&] { return std::string(q.m) + " " + q.p + " found " + std::to_string(g) + ", expected " + std::to_string(e); });
    h = mc::comb(h, g + 1);
    if (g < 0) continue;
    t.check(gbody == ebody, [&] { return std::string(q.m) + " " + q.p + " has body field " + mc::q(gbody) + ", expected " + mc::q(ebody); });
    bool same = gb.size() == eb.size();
    for (size_t i = 0; same && i < gb.size(); ++i) same = gb[i].field_path == eb[i].path && gb[i].value == eb[i].value;
    t.check(same, [&] { return std::string(q.m) + " " + q.p + " has other bindings than its registration gives (" + num(gb.size()) + " against " + num(eb.size()) + ")"; });
    h = mc::comb(h, mc::hash(gbody));
  }
  t.state(h);
}

// Every preorder depth sequence of n nodes (every ordered tree).
void shapes(int n, std::vector<int>& d, std::vector<std::vector<int>>& out) {
  if ((int)d.size() == n) {
    out.push_back(d);
    return;
  }
  for (int k = 1; k <= (d.empty() ? 0 : d.back() + 1); ++k) {
    d.push_back(k);
    shapes(n, d, out);
    d.pop_back();
  }
}
std::vector<std::vector<int>> shapes(int n) {
  std::vector<std::vector<int>> o;
  std::vector<int> d = {0};
  shapes(n, d, o);
  return o;
}

std::vector<mc::Space> spaces(const mc::Options& o) {
  bool th = o.thorough();
  std::vector<mc::Space> v;
  int n = labels().size();
  int N = kSan ? (th ? 4 : 3) : (th ? 5 : 4);
  v.push_back({"trees", "every tree of at most " + num(N) + " bindings (every shape and nesting) over " + num(n) + " patterns (each kind, custom, none, duplicate, invalid, with empty path or kind), with and without failing on duplicates and system parameters, then " +
                            num(requests().size()) + " lookups",
               (uint64_t)n * n, [=](T& t, uint64_t u) {
                 for (int k = 1; k <= N; ++k)
                   for (auto& s : shapes(k)) {
                     if (k == 1 && u % n) continue;
                     std::vector<int> d(std::max(0, k - 2), 0);
                     for (;;) {
                       Tree tr;
                       for (int i = 0; i < k; ++i) tr.push_back({i == 0 ? (int)u / n : i == 1 ? (int)u % n : d[i - 2], s[i]});
                       for (int f = 0; f < 2; ++f) {
                         if (k <= 3) {
                           rule_case(t, {tr}, f, false);
                           rule_case(t, {tr}, f, true);
                         } else {
                           rule_case(t, {tr}, f, (tr[k - 1].label + tr[0].label) % 2);
                         }
                       }
                       int i = (int)d.size() - 1;
                       while (i >= 0 && ++d[i] == n) d[i--] = 0;
                       if (i < 0) break;
                     }
                   }
               }});
  v.push_back({"two", "every pair of rules of at most 2 bindings each on one builder", (uint64_t)n * n, [=](T& t, uint64_t u) {
                 int a = u / n, b = u % n;
                 for (int f = 0; f < 2; ++f) {
                   rule_case(t, {{{a, 0}}, {{b, 0}}}, f, true);
                   for (int c = 0; c < n; ++c) {
                     rule_case(t, {{{a, 0}, {b, 1}}, {{c, 0}}}, f, true);
                     rule_case(t, {{{c, 0}}, {{a, 0}, {b, 1}}}, f, true);
                     if (!kSan || th)
                       for (int d = 0; d < n; ++d) rule_case(t, {{{a, 0}, {b, 1}}, {{c, 0}, {d, 1}}}, f, false);
                   }
                 }
               }});
  int W = th ? 400 : 120;
  v.push_back({"wide", "rules with n additional bindings side by side, and nested n deep, n <= " + num(W) + ", failing at the first, middle, last or no position", (uint64_t)W + 1, [=](T& t, uint64_t n) {
                 for (int nest = 0; nest < 2; ++nest)
                   for (size_t bad : {(size_t)0, (size_t)n / 2, (size_t)n, (size_t)n + 1}) {
                     if (!t.begin([&] { return num(n) + (nest ? " nested" : " additional") + " bindings, invalid at " + num(bad); })) continue;
                     HttpRule root;
                     HttpRule* cur = &root;
                     gt::PathMatcherBuilder<M> b;
                     ref::Matcher m;
                     bool e = true;
                     for (size_t i = 0; i <= n; ++i) {
                       HttpRule* r = i == 0 ? &root : cur->add_additional_bindings();
                       if (nest) cur = r;
                       std::string p = i == bad ? "/k{" : "/k" + num(i) + "/{x}";
                       r->set_put(p);
                       r->set_body("b" + num(i));
                       ref::Reg rr;
                       rr.http_method = "PUT";
                       rr.tmpl = p;
                       rr.body = "b" + num(i);
                       if (e) e = m.add(rr);
                     }
                     bool g = gt::PathMatcherUtility::RegisterByHttpRule(b, root, &kId[0]);
                     t.check(g == e, [&] { return "returned " + num(g); });
                     auto pm = b.Build();
                     for (size_t i = 0; i <= n; ++i) {
                       std::string body, ebody;
                       std::string p = "/k" + num(i) + "/1";
                       M r = pm->Lookup("PUT", p, "", nullptr, &body);
                       int x = m.lookup("PUT", p, "", nullptr, &ebody);
                       t.step();
                       t.check((r ? *r : -1) == x && (!r || body == ebody), [&] { return "PUT " + p + " is routed wrongly"; });
                     }
                     t.state(mc::comb(mc::comb(n, bad), nest));
                   }
               }});
  return v;
}
}  // namespace

int main(int argc, char** argv) { return mc::Main(argc, argv, spaces); }
