// C03-C06, C08, C09, C11: exhaustive exploration of PathMatcher against the reference matcher.
#include <memory>

#include "grpc_transcoding/path_matcher.h"
#include "mc.h"
#include "ref.h"

namespace gt = google::grpc::transcoding;
using mc::T;

namespace {

std::string g_prop;
bool is(const char* p) { return g_prop == p; }

using M = const int*;
const int* method_of(int id) {
  static std::vector<int> ids = [] {
    std::vector<int> v(70000);
    for (size_t i = 0; i < v.size(); ++i) v[i] = i;
    return v;
  }();
  return &ids[id];
}

struct Req {
  std::string http_method, path, query;
};
std::string show(const Req& r) { return r.http_method + " " + mc::q(r.path) + (r.query.empty() ? "" : " query " + mc::q(r.query)); }
std::string show(const ref::Reg& r) {
  std::string o = r.http_method + " " + mc::q(r.tmpl);
  if (!r.body.empty()) o += " body " + mc::q(r.body);
  for (auto& s : r.sys) o += " system " + mc::q(s);
  return o;
}
std::string show(const std::vector<ref::Reg>& rs) {
  std::string o;
  for (size_t i = 0; i < rs.size() && i < 40; ++i) o += (i ? "; " : "") + std::to_string(rs[i].id) + ": " + show(rs[i]);
  if (rs.size() > 40) o += "; ...";
  return o;
}
std::string show(const std::vector<ref::Binding>& bs) {
  std::string o;
  for (size_t i = 0; i < bs.size() && i < 40; ++i) {
    o += i ? ", " : "";
    for (size_t k = 0; k < bs[i].path.size(); ++k) o += (k ? "." : "") + mc::q(bs[i].path[k]);
    o += "=" + mc::q(bs[i].value);
  }
  return "{" + o + "}";
}
std::vector<ref::Binding> conv(const std::vector<gt::VariableBinding>& v) {
  std::vector<ref::Binding> o;
  for (auto& b : v) o.push_back({b.field_path, b.value});
  return o;
}

struct Conf {
  bool fail_on_dup = false, any_verb = false, plus = false;
  ref::Spec spec = ref::kExceptReserved;
};
std::string show(const Conf& c) {
  return std::string(c.fail_on_dup ? " fail_on_duplicate" : "") + (c.any_verb ? " match_unregistered_verb" : "") + (c.plus ? " unescape_plus" : "") + " spec=" + std::to_string(c.spec);
}

bool real_add(gt::PathMatcherBuilder<M>& b, const ref::Reg& r) {
  if (r.sys.empty() && r.id % 2) return b.Register(r.http_method, r.tmpl, r.body, method_of(r.id));
  return b.Register(r.http_method, r.tmpl, r.body, std::unordered_set<std::string>(r.sys.begin(), r.sys.end()), method_of(r.id));
}
void configure(gt::PathMatcherBuilder<M>& b, const Conf& c) {
  b.SetUrlUnescapeSpec(c.spec == ref::kExceptReserved ? gt::UrlUnescapeSpec::kAllCharactersExceptReserved
                                                       : c.spec == ref::kExceptSlash ? gt::UrlUnescapeSpec::kAllCharactersExceptSlash : gt::UrlUnescapeSpec::kAllCharacters);
  b.SetQueryParamUnescapePlus(c.plus);
  b.SetMatchUnregisteredCustomVerb(c.any_verb);
  b.SetFailRegistrationOnDuplicate(c.fail_on_dup);
}

// A matcher and its reference.
struct World {
  ref::Matcher ref;
  gt::PathMatcherPtr<M> real;
  std::vector<ref::Reg> regs;
  World() {}
  World(const std::vector<ref::Reg>& rs, const Conf& c) : regs(rs) {
    gt::PathMatcherBuilder<M> b;
    configure(b, c);
    ref.fail_on_dup = c.fail_on_dup;
    ref.any_verb = c.any_verb;
    ref.plus = c.plus;
    ref.spec = c.spec;
    for (auto& r : rs) {
      bool a = real_add(b, r), e = ref.add(r);
      if (a != e) reg_mismatch = "Register returned " + std::string(a ? "true" : "false") + " for " + show(r);
    }
    real = b.Build();
  }
  std::string reg_mismatch;
};

bool fits(const World& w, int id, const Req& q) {  // does binding `id` alone match the request (verbs as in w)?
  return w.ref.fits(id, q.http_method, q.path);
}

// Looks one request up and compares what the property is about.
void probe(T& t, const World& w, const Req& q) {
  bool full = !(is("C03") || is("C04"));
  std::vector<ref::Binding> eb;
  std::string ebody;
  int e = w.ref.lookup(q.http_method, q.path, q.query, full ? &eb : nullptr, full ? &ebody : nullptr);
  std::vector<gt::VariableBinding> rb;
  std::string rbody;
  M m = full ? w.real->Lookup(q.http_method, q.path, q.query, &rb, &rbody) : w.real->Lookup(q.http_method, q.path);
  t.step();
  t.beat();
  int g = m ? *m : -1;
  auto ctx = [&](const std::string& s) { return show(q) + " -> " + s + "; bindings registered: " + show(w.regs); };
  if (is("C03")) {
    t.check((g >= 0) == (e >= 0), [&] { return ctx(g >= 0 ? "found " + std::to_string(g) + ", but nothing matches" : "not found, but binding " + std::to_string(e) + " matches"); });
    t.check(g < 0 || g == e || fits(w, g, q), [&] { return ctx("found binding " + std::to_string(g) + ", which does not match"); });
  } else if (is("C04") || is("C08") || is("C09") || is("C11")) {
    t.check(g == e, [&] { return ctx("found " + std::to_string(g) + ", expected " + std::to_string(e)); });
  }
  t.state(mc::comb(mc::hash(q.path), mc::comb(g + 1, mc::hash(q.http_method))));
  if (full && g == e && g >= 0) {
    std::vector<ref::Binding> gb = conv(rb);
    if (is("C05") || is("C06")) {
      // The path variables come first, then the query parameters.
      size_t npath = w.ref.nvars(g);
      std::vector<ref::Binding> e1(eb.begin(), eb.begin() + npath), e2(eb.begin() + npath, eb.end());
      size_t k = std::min(npath, gb.size());
      std::vector<ref::Binding> g1(gb.begin(), gb.begin() + k), g2(gb.begin() + k, gb.end());
      if (is("C05")) t.check(g1 == e1, [&] { return ctx("path variables bound as " + show(g1) + ", expected " + show(e1)); });
      if (is("C06")) t.check(g2 == e2 && gb.size() == eb.size(), [&] { return ctx("bindings " + show(gb) + ", expected " + show(eb)); });
    } else {
      t.check(gb == eb, [&] { return ctx("bindings " + show(gb) + ", expected " + show(eb)); });
      t.check(rbody == ebody, [&] { return ctx("body field " + mc::q(rbody) + ", expected " + mc::q(ebody)); });
    }
    uint64_t h = 7;
    for (auto& b : gb) {
      h = mc::comb(h, mc::hash(b.value));
      for (auto& p : b.path) h = mc::comb(h, mc::hash(p));
    }
    t.state(mc::comb(h, g));
  }
  if (is("C03") || is("C11") || is("C08")) {  // the overloads agree
    std::vector<gt::VariableBinding> rb2;
    std::string rbody2;
    M m2 = full ? w.real->Lookup(q.http_method, q.path) : w.real->Lookup(q.http_method, q.path, q.query, &rb2, &rbody2);
    t.step();
    t.check(m2 == m, [&] { return ctx("the two overloads of Lookup disagree"); });
  }
}

// ---------------------------------------------------------------- pools

std::string join(const std::vector<std::string>& v) {
  std::string o;
  for (auto& s : v) o += "/" + s;
  return o.empty() ? "/" : o;
}

// Every valid pattern of at most n segments over `lits` and the wildcards.
void patterns_rec(std::vector<std::string>& cur, int n, const std::vector<std::string>& lits, std::vector<std::vector<std::string>>& out) {
  if (!cur.empty()) out.push_back(cur);
  if ((int)cur.size() == n) return;
  bool wild = std::find(cur.begin(), cur.end(), "**") != cur.end();
  std::vector<std::string> next = lits;
  if (!wild) next.push_back("*"), next.push_back("**");
  for (auto& s : next) {
    cur.push_back(s);
    patterns_rec(cur, n, lits, out);
    cur.pop_back();
  }
}
std::vector<std::string> patterns(int n, const std::vector<std::string>& lits) {
  std::vector<std::vector<std::string>> o;
  std::vector<std::string> c;
  patterns_rec(c, n, lits, o);
  std::vector<std::string> r = {"/"};
  std::stable_sort(o.begin(), o.end(), [](auto& a, auto& b) { return a.size() < b.size(); });
  for (auto& p : o) r.push_back(join(p));
  return r;
}
// Every sequence of at most n of the given strings, concatenated after `pre`.
void words(const std::string& pre, const std::vector<std::string>& toks, int n, std::vector<std::string>& out) {
  out.push_back(pre);
  if (n == 0) return;
  for (auto& s : toks) words(pre + s, toks, n - 1, out);
}
std::vector<std::string> words(const std::vector<std::string>& toks, int n) {
  std::vector<std::string> o;
  words("", toks, n, o);
  std::stable_sort(o.begin(), o.end(), [](auto& a, auto& b) { return a.size() < b.size(); });
  return o;
}
std::vector<std::string> chars(const char* a) {
  std::vector<std::string> o;
  for (; *a; ++a) o.push_back(std::string(1, *a));
  return o;
}

ref::Reg reg(const std::string& m, const std::string& t, int id, const std::string& body = "", std::set<std::string> sys = {}) {
  ref::Reg r;
  r.http_method = m;
  r.tmpl = t;
  r.id = id;
  r.body = body;
  r.sys = sys;
  return r;
}

void world_case(T& t, const std::vector<ref::Reg>& rs, const Conf& c, const std::vector<Req>& qs) {
  if (!t.begin([&] { return "registrations: " + show(rs) + "; options:" + show(c) + "; " + std::to_string(qs.size()) + " requests"; })) return;
  World w(rs, c);
  t.step(rs.size());
  for (auto& q : qs) probe(t, w, q);
}

std::vector<Req> gets(const std::vector<std::string>& paths) {
  std::vector<Req> v;
  for (auto& p : paths) v.push_back({"GET", p, ""});
  return v;
}

// Pattern with its variables: every way to group segments into variables.
void groupings(const std::vector<std::string>& segs, size_t i, const std::string& pre, int nv, std::vector<std::string>& out) {
  static const char* names[] = {"x", "y.z", "w", "long_name.inner.leaf", "u", "t"};
  if (i == segs.size()) {
    if (nv) out.push_back(pre);
    return;
  }
  groupings(segs, i + 1, pre + "/" + segs[i], nv, out);
  std::string in;
  for (size_t l = 1; i + l <= segs.size(); ++l) {
    in += (l > 1 ? "/" : "") + segs[i + l - 1];
    groupings(segs, i + l, pre + "/{" + names[nv % 6] + "=" + in + "}", nv + 1, out);
    if (l == 1 && segs[i] == "*" && nv % 2 == 0) groupings(segs, i + 1, pre + "/{" + names[nv % 6] + "}", nv + 1, out);
  }
}

const std::vector<std::string>& corpus() {
  static const std::vector<std::string> v = {
      "/v1/shelves", "/v1/shelves/{shelf}", "/v1/shelves/{shelf}/books", "/v1/shelves/{shelf}/books/{book}", "/v1/{name=shelves/*/books/*}:move", "/v1/{parent=shelves/*}/books:batchGet",
      "/v1/shelves/{shelf}/books/{book.id}/**", "/v1/{resource=**}:getIamPolicy", "/v1/{resource=**}:setIamPolicy", "/v1/{resource=shelves/**}:setIamPolicy", "/v1/operations/{name=**}",
      "/v1/{name=operations/*}:cancel", "/v1/{name=projects/*/operations/*}", "/v1/{name=projects/*/locations/*/operations/*}", "/v1/{name=projects/*/**}:search", "/v2/{a.b=x/*}/{c=y/*}/z",
      "/v2/{a=x/*}/y/{b=**}/end", "/v2/{a=x/*}/{b=**}/{c=end}", "/v2/*/y", "/v2/x/*/y", "/v2/x/1/y", "/v2/**", "/v2/**/y", "/v2/x/**/y/z", "/{any=**}", "/{one}", "/{one}/{two}", "/{one}/{two=*}/{three}:v",
      "/v1/shelves/list", "/v1/shelves/list/books/{book}", "/v1/shelves/{shelf}/books/top", "/v1/shelves:recommend", "/a.b/c-d/e_f/~g", "/", "/health", "/v1/media/{bucket}/o/{object=**}",
      "/v1/media/{bucket}/o/{object=**}:compose", "/v1/media/{bucket}/o/{src=**}/copyTo"};
  return v;
}

std::vector<std::string> corpus_requests() {
  std::set<std::string> out;
  const char* vals[] = {"1", "list", "x", "y", "end", "a%2Fb", "books"};
  for (auto& c : corpus()) {
    ref::Tmpl t;
    ref::parse(c, &t);
    for (const char* val : vals)
      for (int wild = 0; wild < 4; ++wild) {
        std::vector<std::string> p;
        int k = 0;
        for (auto& s : t.segs) {
          if (s == "*") p.push_back(k++ % 2 ? "q7" : val);
          else if (s == "**")
            for (int i = 0; i < wild; ++i) p.push_back(i == 1 ? val : "w" + std::to_string(i));
          else p.push_back(s);
        }
        std::string base = join(p);
        for (std::string v : {std::string(), ":" + (t.verb.empty() ? std::string("setIamPolicy") : t.verb), std::string(":cancel"), std::string(":nosuch")}) {
          out.insert(base + v);
          out.insert(base + "/" + v);
          out.insert(base + "/extra" + v);
        }
        for (size_t i = 0; i < p.size(); ++i) {  // every one-segment mutation
          std::vector<std::string> m = p;
          m.erase(m.begin() + i);
          out.insert(join(m) + (t.verb.empty() ? "" : ":" + t.verb));
          for (const char* r : {"y", "shelves", "X", ""}) {
            m = p;
            m[i] = r;
            out.insert(join(m) + (t.verb.empty() ? "" : ":" + t.verb));
            m = p;
            m.insert(m.begin() + i, r);
            out.insert(join(m) + (t.verb.empty() ? "" : ":" + t.verb));
          }
        }
      }
  }
  return {out.begin(), out.end()};
}

std::vector<size_t> pump_counts(size_t dense, size_t top) {
  std::vector<size_t> v;
  for (size_t n = 0; n <= dense; ++n) v.push_back(n);
  for (size_t p = 64; p <= top; p *= 2)
    for (size_t d : {p - 1, p, p + 1})
      if (d > dense) v.push_back(d);
  return v;
}
std::string rep(const std::string& s, size_t n) {
  std::string o;
  o.reserve(s.size() * n);
  for (size_t i = 0; i < n; ++i) o += s;
  return o;
}

#ifdef MC_SAN
const bool kSan = true;
#else
const bool kSan = false;
#endif

// ---------------------------------------------------------------- spaces

using Spaces = std::vector<mc::Space>;
std::string num(size_t n) { return std::to_string(n); }

void add_sets(Spaces& v, bool th) {
  int k = kSan ? (th ? 3 : 2) : (th ? 4 : 3);
  auto pool = std::make_shared<std::vector<std::string>>(patterns(3, {"a", "b"}));
  auto reqs = std::make_shared<std::vector<Req>>(gets(words({"/a", "/b", "/c"}, 4)));
  int n = pool->size();
  v.push_back({"sets", "every set of at most " + num(k) + " of the " + num(n) + " path patterns of <= 3 segments over {a,b,*,**}, in increasing and decreasing order of registration, x all " + num(reqs->size()) +
                           " paths of <= 4 segments over {a,b,c}",
               (uint64_t)n * n, [=](T& t, uint64_t u) {
                 int i = u / n, j = u % n;
                 if (j < i) return;
                 std::vector<ref::Reg> rs;
                 auto go = [&](std::vector<int> ix) {
                   rs.clear();
                   for (int x : ix) rs.push_back(reg("GET", (*pool)[x], x));
                   world_case(t, rs, {}, *reqs);
                   if (ix.size() > 1 && ix.size() <= 3) {
                     std::reverse(rs.begin(), rs.end());
                     world_case(t, rs, {}, *reqs);
                   }
                 };
                 if (i == j) return go({i});
                 go({i, j});
                 for (int a = j + 1; k >= 3 && a < n; ++a) {
                   go({i, j, a});
                   for (int b = a + 1; k >= 4 && b < n; ++b) go({i, j, a, b});
                 }
               }});
}

// Every subset of a pool: many bindings at once, so that nodes have many children.
void add_subsets(Spaces& v, bool th) {
  struct Pool {
    std::vector<std::string> ps;
    std::vector<Req> rq;
  };
  auto pools = std::make_shared<std::vector<Pool>>();
  auto add = [&](std::vector<std::string> ps, std::vector<std::string> rq) {
    size_t n = kSan ? (th ? 12 : 9) : (th ? 19 : 16);
    if (ps.size() > n) ps.resize(n);
    pools->push_back({ps, gets(rq)});
  };
  std::vector<std::string> two = patterns(2, {"a", "b"});
  std::reverse(two.begin(), two.end());  // the longer ones first
  add(two, words({"/a", "/b", "/c"}, 3));
  std::vector<std::string> rv = {"/v"}, rw;
  words("/v", {"/a", "/b", "/c"}, 3, rw);
  add({"/v/*/a", "/v/*/b", "/v/**", "/v/*/c", "/v/a/b", "/v/a/*", "/v/*/*", "/v/a/**", "/v/*/**", "/v/**/a", "/v/*/d", "/v/*/e", "/v/b/a", "/v/b/*", "/v/*", "/v/**/b", "/v/**/c/a", "/v/a", "/**"}, rw);
  rw.clear();
  words("", {"/a", "/b", "/c", "/d"}, 3, rw);
  add({"/a", "/b", "/c", "/*", "/**", "/d", "/*/a", "/*/b", "/a/*", "/b/*", "/a/a", "/b/b", "/**/a", "/**/b", "/*/c", "/c/a", "/**/c", "/a/**", "/*/**"}, rw);
  rw.clear();
  words("", {"/a", "/b"}, 6, rw);
  add({"/**/a", "/**/b", "/**/a/a", "/**/a/b", "/**/b/a", "/*/**/a", "/*/**/b", "/a/**/b", "/a/**/a/b", "/**", "/**/b/b", "/**/a/a/b", "/**/a/b/a", "/*/*/**", "/a/*/**/b", "/b/**", "/*/*/*/*", "/a/a/a/**/a", "/*/a/**/b"}, rw);
  for (size_t i = 0; i < pools->size(); ++i) {
    size_t n = (*pools)[i].ps.size(), low = n > 6 ? 6 : 0;
    v.push_back({"subsets" + num(i), "every subset of a pool of " + num(n) + " overlapping path patterns (" + (*pools)[i].ps[0] + ", " + (*pools)[i].ps[1] + ", ...) x " + num((*pools)[i].rq.size()) + " paths", 1ull << (n - low), [=](T& t, uint64_t u) {
                   auto& p = (*pools)[i];
                   for (uint64_t l = 0; l < (1ull << low); ++l) {
                     uint64_t m = u << low | l;
                     std::vector<ref::Reg> rs;
                     for (size_t k = 0; k < n; ++k)
                       if (m >> k & 1) rs.push_back(reg("GET", p.ps[k], k));
                     if (m & 1) std::reverse(rs.begin(), rs.end());
                     world_case(t, rs, {}, p.rq);
                   }
                 }});
  }
}

void add_deep(Spaces& v, bool th) {
  auto pool = std::make_shared<std::vector<std::string>>(patterns(5, {"a"}));
  auto reqs = std::make_shared<std::vector<Req>>(gets(words({"/a", "/b"}, 6)));
  int n = pool->size();
  bool triples = th && !kSan;
  v.push_back({"deep", std::string("every ") + (triples ? "set of <= 3" : "pair") + " of the " + num(n) + " path patterns of <= 5 segments over {a,*,**} x all " + num(reqs->size()) + " paths of <= 6 segments over {a,b}",
               (uint64_t)n, [=](T& t, uint64_t u) {
                 int i = u;
                 for (int j = i + 1; j < n; ++j) {
                   world_case(t, {reg("GET", (*pool)[i], i), reg("GET", (*pool)[j], j)}, {}, *reqs);
                   if (triples)
                     for (int a = j + 1; a < n; ++a) world_case(t, {reg("GET", (*pool)[a], a), reg("GET", (*pool)[i], i), reg("GET", (*pool)[j], j)}, {}, *reqs);
                 }
               }});
}

void add_methods(Spaces& v, bool th) {
  std::vector<std::string> pats = {"/", "/a", "/*", "/**", "/a/*", "/*/a", "/a/**", "/**/a", "/a/a"};
  std::vector<std::string> ms = {"GET", "POST", "*", "get"};
  auto pool = std::make_shared<std::vector<ref::Reg>>();
  for (auto& m : ms)
    for (auto& p : pats) pool->push_back(reg(m, p, pool->size()));
  std::vector<Req> rq;
  for (auto& p : words({"/a", "/b"}, 3))
    for (auto m : {"GET", "POST", "PUT", "get", "GETX", ""}) rq.push_back({m, p, ""});
  auto reqs = std::make_shared<std::vector<Req>>(rq);
  int n = pool->size(), k = kSan && !th ? 2 : 3;
  v.push_back({"methods", "every set of at most " + num(k) + " of " + num(n) + " bindings (9 path patterns x HTTP methods GET, POST, *, get) x all paths of <= 3 segments over {a,b} x 6 request methods", (uint64_t)n * n,
               [=](T& t, uint64_t u) {
                 int i = u / n, j = u % n;
                 if (j < i) return;
                 if (i == j) return world_case(t, {(*pool)[i]}, {}, *reqs);
                 world_case(t, {(*pool)[i], (*pool)[j]}, {}, *reqs);
                 for (int a = j + 1; k > 2 && a < n; ++a) {
                   world_case(t, {(*pool)[i], (*pool)[j], (*pool)[a]}, {}, *reqs);
                   world_case(t, {(*pool)[a], (*pool)[j], (*pool)[i]}, {}, *reqs);
                 }
               }});
}

void add_raw(Spaces& v, bool th) {
  std::vector<std::string> ps = {"/a", "/*", "/**", "/*/*", "/**/a", "/a/**", "/a/*", "/*/a", "/{x}", "/%61", "/a.b", "/A", "/*/**", "/a/*/a", "/**/a/b", "/x y/*"};
  auto pool = std::make_shared<std::vector<std::string>>(ps);
  auto reqs = std::make_shared<std::vector<Req>>(gets(words({"/a", "/*", "/**", "/", "/{x}", "/%61", "/A", "/a.b", "/.", "/x y", "/%2F", "/a/"}, kSan ? 3 : 3)));
  int n = pool->size();
  v.push_back({"raw", "every set of <= " + std::string(th ? "3" : "2") + " of " + num(n) + " templates x all " + num(reqs->size()) + " paths of <= 3 segments out of a,*,**,(empty),{x},%61,A,a.b,.,\"x y\",%2F,\"a/\"", (uint64_t)n * n,
               [=](T& t, uint64_t u) {
                 int i = u / n, j = u % n;
                 world_case(t, {reg("GET", (*pool)[i], i), reg("GET", (*pool)[j], j)}, {}, *reqs);
                 if (th && j > i)
                   for (int a = j + 1; a < n; ++a) world_case(t, {reg("GET", (*pool)[i], i), reg("GET", (*pool)[j], j), reg("GET", (*pool)[a], a)}, {}, *reqs);
               }});
}

void add_strings(Spaces& v, bool th) {
  // Character-level request paths.
  std::vector<std::vector<std::string>> sets = {{"/a"},          {"/{x}"},           {"/{x=**}"},        {"/a/{x=**}:v", "/a/{y}"}, {"/{x}:v", "/{y}"},   {"/a:v", "/*:v", "/**:v"}, {"/a", "/a/*", "/a/**:v"},
                                                {"/{x=a/*}"},    {"/{x=**}/a"},      {"/"},              {"/**", "/"},              {"/{x=*/**}:v", "/a"}, {"/a/a", "/a/{x}", "/{x}/a"}, {"/{x=**}/{y=a}:v"},
                                                {"/{x}/{y}", "/{z=**}"}};
  int L = kSan ? 6 : th ? 9 : 7;
  v.push_back({"pathchars", "every path \"/\"+w, w over {a,/,:,v,?,*,%} with |w| <= " + num(L) + ", against " + num(sets.size()) + " sets of templates, with and without matching of unregistered verbs", sets.size() * 2 * 7, [=](T& t, uint64_t u) {
                 const std::string A = "a/:v?*%";
                 size_t si = u / 14;
                 Conf c;
                 c.any_verb = (u / 7) % 2;
                 c.spec = (ref::Spec)(si % 3);
                 std::vector<ref::Reg> rs;
                 for (auto& s : sets[si]) rs.push_back(reg("GET", s, rs.size()));
                 World w(rs, c);
                 std::string pre = std::string("/") + A[u % 7];
                 if (u % 7 == 0)
                   if (t.begin([&] { return "path \"/\"; " + show(rs) + show(c); })) probe(t, w, {"GET", "/", ""});
                 for (int l = 0; l < L; ++l) {
                   std::vector<int> d(l, 0);
                   for (;;) {
                     std::string s = pre;
                     for (int i : d) s += A[i];
                     // An empty verb is left out when unregistered verbs are matched: not specified.
                     std::string stem = s.substr(0, s.find('?'));
                     if (!(c.any_verb && stem.size() && stem.back() == ':'))
                       if (t.begin([&] { return "path " + mc::q(s) + "; " + show(rs) + show(c); })) probe(t, w, {"GET", s, ""});
                     int i = l - 1;
                     while (i >= 0 && ++d[i] == 7) d[i--] = 0;
                     if (i < 0) break;
                   }
                 }
               }});
}

void add_bytes(Spaces& v, bool th) {
  v.push_back({"bytes", "every byte as part of a literal of the template x every byte in its place in the request (65536 pairs, 2 positions), and every byte in a variable's segment", 256, [=](T& t, uint64_t u) {
                 std::string c(1, (char)u);
                 std::vector<ref::Reg> rs = {reg("GET", "/x" + c + "y/{v}", 0), reg("GET", "/" + c + "/{v=**}", 1), reg("GET", "/k/{v=*}/{w=**}", 2)};
                 std::vector<Req> qs;
                 for (int d = 0; d < 256; ++d) {
                   std::string e(1, (char)d);
                   qs.push_back({"GET", "/x" + e + "y/1", ""});
                   qs.push_back({"GET", "/" + e + "/1/" + c, ""});
                   qs.push_back({"GET", "/k/" + e + c + "/" + c + e, ""});
                 }
                 for (int s = 0; s < (th ? 3 : 1); ++s) {
                   Conf cf;
                   cf.spec = (ref::Spec)s;
                   world_case(t, rs, cf, qs);
                 }
               }});
}

void add_pump(Spaces& v, bool th) {
  std::vector<size_t> cs = pump_counts(kSan ? 70 : th ? 700 : 200, kSan ? 512 : th ? 3000 : 1024);
  v.push_back({"pump", "templates and paths with n repeated elements, every n in 0.." + num(kSan ? 70 : th ? 700 : 200) + " and around powers of two up to " + num(kSan ? 512 : th ? 3000 : 1024), cs.size(), [=](T& t, uint64_t u) {
                 size_t n = cs[u];
                 auto D = [&](size_t k) { return rep("/s", k); };
                 std::string L(n, 'q');
                 size_t lo = n > 2 ? n - 2 : 0;
                 std::vector<Req> qs;
                 for (size_t k = lo; k <= n + 2; ++k)
                   for (std::string tail : {"", "/t", "/", "/s/t", ":v"}) if (k || tail[0] == '/') qs.push_back({"GET", D(k) + tail, ""});
                 // n literal segments, n wildcards, ** before and behind, variables over n segments
                 std::vector<std::string> ts = {D(n) + "/t", rep("/*", n) + "/u", D(n), rep("/*", n) + "/**", "/**" + rep("/s", n) + "/t", "/{x=" + (n ? rep("/s", n).substr(1) + "/" : std::string()) + "**}/{y=t}",
                                                "/{x=**" + D(n) + "}:v", "/{x=s" + rep("/*", n) + "}", rep("/{x}", n) + "/{y=t}"};
                 for (auto& s : ts) world_case(t, {reg("GET", s, 1)}, {}, qs);
                 world_case(t, {reg("GET", ts[0], 0), reg("GET", ts[1], 1), reg("GET", ts[3], 3), reg("GET", ts[4], 4)}, {}, qs);
                 // a long segment, a long verb
                 qs = {{"GET", "/a/" + L, ""}, {"GET", "/a/" + L + "q", ""}, {"GET", "/" + L + "/a", ""}, {"GET", "/" + L + "%41/b/a", ""}, {"GET", "/a:" + L, ""}, {"GET", "/a:" + L + "q", ""}, {"GET", "/" + rep("%41", n) + "/" + rep("%2F", n), ""},
                       {"GET", "/" + rep("%2f", n) + "/b/" + rep("%3a", n), ""}, {"GET", std::string("/a/b") + std::string(n, '/'), ""}, {"GET", "/a" + std::string(n, '/') + "b", ""}};
                 for (int s = 0; s < 3; ++s) {
                   Conf c;
                   c.spec = (ref::Spec)s;
                   if (n) world_case(t, {reg("GET", "/a/" + L, 0), reg("GET", "/{x}/a", 1), reg("GET", "/{y=**}/a", 2), reg("GET", "/a:" + L, 3), reg("GET", "/{u}/{v}", 4), reg("GET", "/{w=**}", 5)}, c, qs);
                   else world_case(t, {reg("GET", "/{x}/a", 1), reg("GET", "/{y=**}/a", 2), reg("GET", "/{u}/{v}", 4), reg("GET", "/{w=**}", 5)}, c, qs);
                 }
                 // n templates side by side, and below one another
                 if (n <= 5000) {
                   std::vector<ref::Reg> rs;
                   qs.clear();
                   for (size_t i = 0; i < n; ++i) {
                     rs.push_back(reg("GET", "/k" + num(i) + "/{x}", i));
                     if (i < 300 || n - i < 3) qs.push_back({"GET", "/k" + num(i) + "/v", ""});
                     if (i < 300) qs.push_back({"POST", "/k" + num(i) + "/v", ""});
                   }
                   qs.push_back({"GET", "/k" + num(n) + "/v", ""});
                   rs.push_back(reg("GET", "/{y=**}/v", n));
                   world_case(t, rs, {}, qs);
                   if (n <= 300) {
                     rs.clear();
                     qs.clear();
                     for (size_t i = 0; i < n; ++i) {
                       rs.push_back(reg("GET", rep("/d", i) + "/{x}", 2 * i));
                       rs.push_back(reg("GET", rep("/d", i) + "/**/e", 2 * i + 1));
                       qs.push_back({"GET", rep("/d", i) + "/z", ""});
                       qs.push_back({"GET", rep("/d", i) + "/z/e", ""});
                       qs.push_back({"GET", rep("/d", i) + "/z/z/z", ""});
                     }
                     if (n) world_case(t, rs, {}, qs);
                     rs.clear();
                     qs.clear();
                     for (size_t i = 0; i < n; ++i) {  // n HTTP methods and n verbs on one path
                       rs.push_back(reg("M" + num(i), "/a", 2 * i));
                       rs.push_back(reg("GET", "/a:v" + num(i), 2 * i + 1));
                       qs.push_back({"M" + num(i), "/a", ""});
                       qs.push_back({"GET", "/a:v" + num(i), ""});
                       qs.push_back({"GET", "/a:v" + num(i + n), ""});
                     }
                     world_case(t, rs, {}, qs);
                   }
                 }
               }});
}

void add_corpus(Spaces& v, bool th) {
  auto reqs = std::make_shared<std::vector<std::string>>(corpus_requests());
  v.push_back({"corpus", "all " + num(corpus().size()) + " templates of a realistic API registered together (each under GET; every other also under POST or *), in 3 orders x " + num(reqs->size()) + " instantiations and one-segment mutations x 3 methods x 3 options", 3 * 3 * 16,
               [=](T& t, uint64_t u) {
                 Conf c;
                 c.spec = (ref::Spec)(u % 3);
                 c.any_verb = u % 3 == 1;
                 std::vector<ref::Reg> rs;
                 for (size_t i = 0; i < corpus().size(); ++i) {
                   rs.push_back(reg("GET", corpus()[i], 2 * i, "b" + num(i), {"k" + num(i % 3)}));
                   if (i % 2) rs.push_back(reg(i % 4 == 1 ? "POST" : "*", corpus()[i], 2 * i + 1, "*"));
                 }
                 size_t order = u / 3 % 3;
                 if (order == 1) std::reverse(rs.begin(), rs.end());
                 if (order == 2) std::rotate(rs.begin(), rs.begin() + rs.size() / 3, rs.end());
                 World w(rs, c);
                 for (size_t i = u / 9; i < reqs->size(); i += 16)
                   for (auto m : {"GET", "POST", "PATCH"}) {
                     Req q{m, (*reqs)[i], "k0=1&k1=2&k2=3&a.b=%41"};
                     if (c.any_verb && q.path.back() == ':') continue;
                     if (t.begin([&] { return "corpus order " + num(order) + show(c) + ": " + show(q); })) probe(t, w, q);
                   }
               }});
}

void add_bindings(Spaces& v, bool th) {
  int maxseg = kSan ? (th ? 4 : 3) : (th ? 5 : 4);
  auto pool = std::make_shared<std::vector<std::string>>();
  {
    std::vector<std::vector<std::string>> ps;
    std::vector<std::string> c;
    patterns_rec(c, maxseg, {"a"}, ps);
    for (auto& p : ps) groupings(p, 0, "", 0, *pool);
  }
  v.push_back({"vars", "every template of <= " + num(maxseg) + " segments over {a,*,**} with every grouping of its segments into variables (" + num(pool->size()) + "), with and without verb, alone and under a catch-all, x every path of up to " +
                           num(maxseg + 3) + " segments with 4 values per position (period patterns) x 3 decoding options",
               (pool->size() + 15) / 16, [=](T& t, uint64_t u) {
                 for (size_t k = u * 16; k < std::min(pool->size(), (size_t)u * 16 + 16); ++k) {
                   const std::string& s = (*pool)[k];
                   ref::Tmpl tm;
                   ref::parse(s, &tm);
                   std::vector<Req> qs;
                   // literals where the template wants them (front and back aligned), values elsewhere
                   size_t w = std::find(tm.segs.begin(), tm.segs.end(), "**") - tm.segs.begin();
                   size_t m = tm.segs.size();
                   bool wild = w < m;
                   static const char* vals[] = {"p", "a", "%2F%41+%zz%3a", ""};
                   for (size_t n = wild ? m - 1 : m; n <= (wild ? m + 3 : m); ++n) {
                     std::vector<size_t> freepos;
                     std::vector<std::string> p(n);
                     for (size_t i = 0; i < n; ++i) {
                       std::string g = i < w ? tm.segs[i] : (i >= n - (m - w - 1) && wild) ? tm.segs[m - (n - i)] : "*";
                       if (!wild) g = tm.segs[i];
                       if (g == "*" || g == "**") freepos.push_back(i);
                       else p[i] = g;
                     }
                     size_t f = freepos.size(), total = 1;
                     size_t dim = f <= 4 ? 4 : f <= 6 ? 2 : 1;
                     for (size_t i = 0; i < f; ++i) total *= dim;
                     for (size_t x = 0; x < total * (dim == 4 ? 1 : 3); ++x) {
                       size_t y = x;
                       for (size_t i = 0; i < f; ++i) {
                         size_t d = dim == 4 ? y % 4 : dim == 2 ? (y % 2 ? 2 : 0) : (x + i) % 4;
                         if (dim == 2 && x >= total) d = (x + i * (x / total)) % 4;
                         y /= dim;
                         p[freepos[i]] = std::string(vals[d]) + (d == 0 ? num(i) : "");
                       }
                       qs.push_back({"GET", join(p), x % 7 == 0 ? "q.r=1" : ""});
                     }
                   }
                   for (int sp = 0; sp < 3; ++sp) {
                     Conf c;
                     c.spec = (ref::Spec)sp;
                     world_case(t, {reg("GET", s, 1)}, c, qs);
                     if (sp == 0) world_case(t, {reg("GET", "/{all=**}", 2), reg("GET", s, 1), reg("GET", s + "/zz", 3)}, c, qs);
                   }
                   std::vector<Req> vq = qs;
                   for (auto& q : vq) q.path += ":vb";
                   world_case(t, {reg("GET", s + ":vb", 1), reg("GET", s, 0)}, {}, vq);
                 }
               }});
}

void add_dec(Spaces& v, bool th) {  // decoding of path variables, by byte
  v.push_back({"varbytes", "every %XY escape (upper and lower case) and raw byte in single-, multi-segment and ** variables x 3 decoding options", 256, [=](T& t, uint64_t u) {
                 char b1[8], b2[8];
                 snprintf(b1, sizeof b1, "%%%02X", (int)u);
                 snprintf(b2, sizeof b2, "%%%02x", (int)u);
                 std::vector<Req> qs;
                 for (std::string e : {std::string(b1), std::string(b2), std::string(1, (char)u), std::string(b1) + b2, std::string("+") + b1 + "+", std::string("%") + b1, std::string("%4") + (char)u, std::string("%") + (char)u + "1", std::string(b1) + "%"}) {
                   qs.push_back({"GET", "/s/" + e, ""});
                   qs.push_back({"GET", "/m/x" + e + "/" + e + "y", ""});
                   qs.push_back({"GET", "/w/" + e, ""});
                   qs.push_back({"GET", "/w/" + e + "/" + e + "/z", ""});
                   qs.push_back({"GET", "/d/" + e + "/end", ""});
                   qs.push_back({"GET", "/l/" + e + "/" + e + "/fix/" + e, ""});
                   qs.push_back({"GET", "/fix/" + e + "/1", ""});
                 }
                 for (int s = 0; s < 3; ++s)
                   for (int plus = 0; plus < 2; ++plus) {
                     Conf c;
                     c.spec = (ref::Spec)s;
                     c.plus = plus;
                     world_case(t,
                                {reg("GET", "/s/{x}", 0), reg("GET", "/m/{x.y=*/*}", 1), reg("GET", "/w/{x=**}", 2), reg("GET", "/d/{x=**}/end", 3), reg("GET", "/l/{a=*}/{b=*}/{c=fix/*}", 4), reg("GET", "/{c=fix}/{b=**}/{a=1}", 5)},
                                c, qs);
                   }
               }});
}

void add_query(Spaces& v, bool th) {
  int L = kSan ? (th ? 6 : 5) : (th ? 8 : 6), Lt = kSan ? 4 : (th ? 6 : 5);
  auto regs = [] {
    return std::vector<ref::Reg>{reg("GET", "/p/{v.w}", 0, "", {"k", "a.k", ""}), reg("GET", "/n/{v=**}", 1), reg("GET", "/z", 2, "", {"key", "$alt", "x%20"})};
  };
  v.push_back({"querychars", "every query string over {a,k,=,&,.,%,2,+} with at most " + num(L) + " characters, for bindings with and without system parameters, with and without plus-decoding", 64 * 2, [=](T& t, uint64_t u) {
                 const std::string A = "ak=&.%2+";
                 Conf c;
                 c.plus = u % 2;
                 World w(regs(), c);
                 std::string pre = std::string(1, A[u / 16]) + A[u / 2 % 8];
                 auto go = [&](const std::string& s) {
                   for (const char* p : {"/p/1", "/n/1"})
                     if (t.begin([&] { return std::string(p) + " query " + mc::q(s) + show(c); })) probe(t, w, {"GET", p, s});
                 };
                 if (u < 2) {
                   go("");
                   for (char x : A) go(std::string(1, x));
                 }
                 for (int l = 0; l <= L - 2; ++l) {
                   std::vector<int> d(l, 0);
                   for (;;) {
                     std::string s = pre;
                     for (int i : d) s += A[i];
                     go(s);
                     int i = l - 1;
                     while (i >= 0 && ++d[i] == 8) d[i--] = 0;
                     if (i < 0) break;
                   }
                 }
               }});
  v.push_back({"querytokens", "every sequence of at most " + num(Lt) + " of 12 tokens (names, system names, escapes, separators) as query", 12 * 12 * 2, [=](T& t, uint64_t u) {
                 static const char* tok[] = {"a", "=", "&", ".", "key", "$alt", "%3D", "%26", "+", "x%20=", "&key=", "b.c=d"};
                 Conf c;
                 c.plus = u % 2;
                 c.spec = (ref::Spec)(u / 2 % 3);
                 World w(regs(), c);
                 std::string pre = std::string(tok[u / 24]) + tok[u / 2 % 12];
                 for (int l = 0; l <= Lt - 2; ++l) {
                   std::vector<int> d(l, 0);
                   for (;;) {
                     std::string s = pre;
                     for (int i : d) s += tok[i];
                     for (const char* p : {"/z", "/n/%2F/b"})
                       if (t.begin([&] { return std::string(p) + " query " + mc::q(s) + show(c); })) probe(t, w, {"GET", p, s});
                     int i = l - 1;
                     while (i >= 0 && ++d[i] == 12) d[i--] = 0;
                     if (i < 0) break;
                   }
                 }
               }});
  v.push_back({"querybytes", "every byte in every position of 8 query strings, every %XY escape in name and value", 256, [=](T& t, uint64_t u) {
                 Conf c;
                 char b1[8], b2[8];
                 snprintf(b1, sizeof b1, "%%%02X", (int)u);
                 snprintf(b2, sizeof b2, "%%%02x", (int)u);
                 for (int plus = 0; plus < 2; ++plus) {
                   c.plus = plus;
                   World w(regs(), c);
                   for (std::string s : {"a=b", "a.b.c=d&e=f", "key=1&x=2", "a==b", "k=1", "&a=1&&", "a%20=b%20c", "a=b=c&key"})
                     for (size_t i = 0; i <= s.size(); ++i) {
                       std::vector<std::string> ins = {std::string(1, (char)u), b1, b2, std::string("%") + (char)u, std::string("%4") + (char)u};
                       for (auto& e : ins) {
                         std::string x = s;
                         x.insert(i, e);
                         for (const char* p : {"/z", "/p/1"})
                           if (t.begin([&] { return std::string(p) + " query " + mc::q(x) + show(c); })) probe(t, w, {"GET", p, x});
                       }
                       if (i < s.size()) {
                         std::string x = s;
                         x[i] = (char)u;
                         if (t.begin([&] { return "/z query " + mc::q(x) + show(c); })) probe(t, w, {"GET", "/z", x});
                       }
                     }
                 }
               }});
  std::vector<size_t> cs = pump_counts(kSan && !th ? 70 : 300, th ? 65536 : 4096);
  v.push_back({"querypump", "n parameters, n system parameters, names of n components, values and names of n characters, n separators: all n in 0.." + num(kSan && !th ? 70 : 300) + " and around powers of two up to " + num(th ? 65536 : 4096),
               cs.size(), [=](T& t, uint64_t u) {
                 size_t n = cs[u];
                 std::set<std::string> sys;
                 std::string many, mixed;
                 for (size_t i = 0; i < n; ++i) {
                   if (i < 2000) sys.insert("s" + num(i));
                   many += (i ? "&" : "") + std::string("p") + num(i) + "=" + num(i);
                   mixed += (i ? "&" : "") + std::string(i % 2 ? "s" : "p") + num(i) + "=" + num(i);
                 }
                 Conf c;
                 c.plus = n % 2;
                 World w({reg("GET", "/p/{v}", 0, "", sys), reg("GET", "/q", 1)}, c);
                 std::string X(n, 'x');
                 for (const std::string& s : {many, mixed, rep("a=1&", n) + "z=2", "a" + rep(".b", n) + "=1", X + "=1", "a=" + X, "a=" + rep("%41", n), "a=" + rep("%4", n), "a=" + std::string(n, '='), std::string(n, '&') + "a=1", "a=" + std::string(n, '+'),
                                              "a=" + std::string(n, '%'), std::string(n, '.') + "=1", "a=1&s" + num(n) + "=2", "a=" + rep("%2B+", n)})
                   for (const char* p : {"/p/1", "/q"})
                     if (t.begin([&] { return std::string(p) + " n=" + num(n) + " query " + mc::q(s); })) probe(t, w, {"GET", p, s});
               }});
}

void add_verbs(Spaces& v, bool th) {
  std::vector<std::string> pats = {"/a", "/{x}", "/{x=**}", "/a/b", "/{x=a/*}", "/"};
  std::vector<std::string> verbs = {"", ":v", ":w", ":vw"};
  auto pool = std::make_shared<std::vector<ref::Reg>>();
  for (auto m : {"GET", "*"})
    for (auto& p : pats)
      for (auto& vb : verbs)
        if (p != "/" || vb.empty()) pool->push_back(reg(m, p + vb, pool->size()));
  int n = pool->size();
  auto mk = [](int L) {
    std::vector<Req> q;
    for (auto& p : words({"/a", "/b", ":v", ":w", "/", ":x", ":vw", "?:v", ":"}, L)) {
      if (p.empty() || p[0] != '/') continue;
      q.push_back({"GET", p, ""});
    }
    std::vector<Req> r = q;
    for (auto& x : r)
      if (x.path.size() < 8) q.push_back({"POST", x.path, ""}), q.push_back({"GETv", x.path, ""});
    return q;
  };
  auto reqs = std::make_shared<std::vector<Req>>(mk(kSan ? 3 : 4));
  auto reqs3 = std::make_shared<std::vector<Req>>(mk(3));
  int k = kSan ? 2 : 3;
  v.push_back({"verbs", "every set of <= 2 (with shorter paths: <= " + num(k) + ") of " + num(n) + " bindings (6 patterns x verbs none,v,w,vw x GET,*) x all " + num(reqs->size()) + " requests of <= 4 tokens of /a,/b,:v,:w,/,:x,:vw,?:v,: with and without matching of unregistered verbs", (uint64_t)n * n,
               [=](T& t, uint64_t u) {
                 int i = u / n, j = u % n;
                 if (j < i) return;
                 auto rs = [&](std::vector<int> ix) {
                   std::vector<ref::Reg> r;
                   for (int x : ix) r.push_back((*pool)[x]);
                   return r;
                 };
                 for (int any = 0; any < 2; ++any) {
                   Conf c;
                   c.any_verb = any;
                   auto filt = [&](const std::vector<Req>& in) {
                     std::vector<Req> o;
                     for (auto& q : in) {
                       std::string stem = q.path.substr(0, q.path.find('?'));
                       if (!(any && stem.back() == ':')) o.push_back(q);
                     }
                     return o;
                   };
                   static std::vector<Req> f4[2], f3[2];
                   if (f4[any].empty()) f4[any] = filt(*reqs), f3[any] = filt(*reqs3);
                   if (i == j) {
                     world_case(t, rs({i}), c, f4[any]);
                     continue;
                   }
                   world_case(t, rs({i, j}), c, f4[any]);
                   if (k > 2)
                     for (int a = j + 1; a < n; ++a)
                       if (th || (a + i + j) % 3 == 0 || a == j + 1) world_case(t, rs({i, j, a}), c, f3[any]);
                 }
               }});
  v.push_back({"verbbytes", "every byte as verb, in a verb of a template and in a request's verb", 256, [=](T& t, uint64_t u) {
                 std::string c(1, (char)u);
                 for (int any = 0; any < 2; ++any) {
                   Conf cf;
                   cf.any_verb = any;
                   std::vector<Req> qs;
                   for (int d = 0; d < 256; ++d) {
                     std::string e(1, (char)d);
                     if (any && (e == ":" || e == "?")) continue;
                     qs.push_back({"GET", "/a:" + e, ""});
                     qs.push_back({"GET", "/a:x" + e + "y", ""});
                     if (e != "?") qs.push_back({"GET", "/b" + e + "v", ""});
                   }
                   world_case(t, {reg("GET", "/{x}:" + c, 0), reg("GET", "/{x}:x" + c + "y", 1), reg("GET", "/{x}", 2), reg("GET", "/{x=**}", 3), reg("GET", "/{x}:v", 4)}, cf, qs);
                 }
               }});
}

// ---- C09: histories of builder operations.
struct Op {
  int kind = 0;  // 0 register, 1: fail_on_dup on, 2: off, 3: any_verb on, 4: plus on, 5: spec all
  ref::Reg r;
};
std::string show(const Op& o) {
  static const char* n[] = {"", "SetFailRegistrationOnDuplicate(true)", "SetFailRegistrationOnDuplicate(false)", "SetMatchUnregisteredCustomVerb(true)", "SetQueryParamUnescapePlus(true)", "SetUrlUnescapeSpec(all)"};
  return o.kind ? n[o.kind] : "Register " + show(o.r);
}

void history(T& t, const std::vector<const Op*>& h, const std::vector<Req>& qs) {
  if (!t.begin([&] {
        std::string s = "history: ";
        for (auto o : h) s += show(*o) + "; ";
        return s;
      }))
    return;
  World w;
  gt::PathMatcherBuilder<M> b;
  int id = 0;
  for (auto o : h) {
    ref::Reg r = o->r;
    r.id = id++;
    switch (o->kind) {
      case 0: {
        bool a = real_add(b, r), e = w.ref.add(r);
        t.check(a == e, [&] { return "Register returned " + std::string(a ? "true" : "false") + " for " + show(r) + " (call " + num(id) + ")"; });
        w.regs.push_back(r);
        break;
      }
      case 1: b.SetFailRegistrationOnDuplicate(w.ref.fail_on_dup = true); break;
      case 2: b.SetFailRegistrationOnDuplicate(w.ref.fail_on_dup = false); break;
      case 3: b.SetMatchUnregisteredCustomVerb(w.ref.any_verb = true); break;
      case 4: b.SetQueryParamUnescapePlus(w.ref.plus = true); break;
      case 5:
        b.SetUrlUnescapeSpec(gt::UrlUnescapeSpec::kAllCharacters);
        w.ref.spec = ref::kAll;
        break;
    }
    t.step();
  }
  w.real = b.Build();
  for (auto& q : qs) probe(t, w, q);
}

void add_histories(Spaces& v, bool th) {
  auto ops = std::make_shared<std::vector<Op>>();
  auto R = [&](const char* m, const char* tm, const char* body, std::set<std::string> sys) { ops->push_back({0, reg(m, tm, 0, body, sys)}); };
  R("GET", "/a", "", {});
  R("GET", "/a/{x}", "b1", {"k"});
  R("GET", "/a/{y=*}", "b2", {});     // duplicate pattern under another name
  R("POST", "/a/{y=*}", "*", {"j"});
  R("*", "/a/*", "", {});
  R("GET", "/a/{x}:v", "", {});
  R("GET", "/{p=a/**}", "", {"k", "j"});
  R("GET", "/a/{x", "bad", {});       // invalid
  R("GET", "/**/*:w", "bad", {});     // invalid, with a verb
  R("GET", "/a/b", "b3", {});
  ops->push_back({1, {}});
  R("GET", "/{q=**}/b:v", "b4", {});
  R("GET", "/{x=a}/b", "b5", {});     // duplicate pattern of /a/b
  R("*", "/a/{z}:v", "", {"k"});
  R("GET", "", "", {});               // invalid
  R("GET", "/", "root", {});
  ops->push_back({2, {}});
  ops->push_back({3, {}});
  ops->push_back({4, {}});
  ops->push_back({5, {}});
  auto qs = std::make_shared<std::vector<Req>>();
  for (auto m : {"GET", "POST", "PUT"})
    for (auto p : {"/", "/a", "/a/b", "/a/c%2F", "/a/b:v", "/a/b:w", "/a/b/c", "/c/b:v", "/a/%2B/b:v", "/bad"}) qs->push_back({m, p, "k=1&j=+2&l=3"});
  int n = ops->size();
  int L = kSan ? (th ? 4 : 3) : (th ? 5 : 4);
  v.push_back({"histories", "every sequence of at most " + num(L) + " of " + num(n) + " builder operations (valid, invalid and duplicate registrations with different bodies, verbs, methods and system parameters; option changes), followed by " + num(qs->size()) + " lookups",
               (uint64_t)n * n, [=](T& t, uint64_t u) {
                 std::vector<const Op*> h;
                 auto at = [&](int i) { return &(*ops)[i]; };
                 if (u == 0) history(t, {}, *qs);
                 if (u % n == 0) history(t, {at(u / n)}, *qs);
                 std::vector<const Op*> pre = {at(u / n), at(u % n)};
                 for (int l = 0; l <= L - 2; ++l) {
                   std::vector<int> d(l, 0);
                   for (;;) {
                     h = pre;
                     for (int i : d) h.push_back(at(i));
                     history(t, h, *qs);
                     int i = l - 1;
                     while (i >= 0 && ++d[i] == n) d[i--] = 0;
                     if (i < 0) break;
                   }
                 }
               }});
  // permutations: the order of registration of a fixed set does not matter
  int np = kSan ? 5 : (th ? 8 : 7);
  v.push_back({"orders", "every order of registration of " + num(np) + " overlapping bindings", (uint64_t)np * np, [=](T& t, uint64_t u) {
                 static const std::vector<Op> base = {{0, reg("GET", "/a/{x}", 0, "b0", {"k"})}, {0, reg("*", "/a/*", 0, "b1", {"j"})}, {0, reg("GET", "/{p=**}", 0, "b2", {})}, {0, reg("GET", "/a/b", 0, "b3", {"l"})},
                                                      {0, reg("GET", "/a/{x}:v", 0, "b4", {})}, {0, reg("GET", "/{y}/b", 0, "b5", {})}, {0, reg("GET", "/{z=a/**}:w", 0, "b6", {})}, {0, reg("*", "/**/b", 0, "b7", {})}};
                 int a = u / np, b = u % np;
                 if (a == b) return;
                 std::vector<int> rest;
                 for (int i = 0; i < np; ++i)
                   if (i != a && i != b) rest.push_back(i);
                 do {
                   std::vector<const Op*> h = {&base[a], &base[b]};
                   for (int i : rest) h.push_back(&base[i]);
                   history(t, h, *qs);
                 } while (std::next_permutation(rest.begin(), rest.end()));
               }});
  // long histories: n registrations, the k-th one again
  v.push_back({"longhistory", "n distinct registrations followed by a duplicate of the k-th, all k < n <= " + num(th ? 80 : 40) + ", both settings", (uint64_t)(th ? 81 : 41), [=](T& t, uint64_t n) {
                 for (size_t k = 0; k <= n; ++k)
                   for (int f = 0; f < 2; ++f) {
                     std::vector<Op> os;
                     if (f) os.push_back({1, {}});
                     for (size_t i = 0; i < n; ++i) os.push_back({0, reg("GET", "/k" + num(i) + "/{x" + num(i) + "}" + (i % 3 == 1 ? ":v" : ""), 0, "b" + num(i), {})});
                     if (k < n) os.push_back({0, reg("GET", "/k" + num(k) + "/{y}" + (k % 3 == 1 ? ":v" : ""), 0, "dup", {})});
                     else os.push_back({0, reg("GET", "/k/{y}/**/*", 0, "bad", {})});
                     std::vector<const Op*> h;
                     for (auto& o : os) h.push_back(&o);
                     std::vector<Req> q;
                     for (size_t i = 0; i <= n; ++i) q.push_back({"GET", "/k" + num(i) + "/1" + (i % 3 == 1 ? ":v" : ""), "a=b"});
                     history(t, h, q);
                   }
               }});
}

// ---- C11: histories of lookups with reused outputs.
struct Probe {
  int world;
  Req q;
};
std::vector<std::shared_ptr<World>> purity_worlds() {
  std::vector<std::shared_ptr<World>> ws;
  Conf c0, c1;
  c1.any_verb = true;
  c1.plus = true;
  c1.spec = ref::kAll;
  ws.push_back(std::make_shared<World>(std::vector<ref::Reg>{reg("GET", "/a", 0, "body0", {"k"}), reg("GET", "/a/{x}", 1, ""), reg("POST", "/a/{y.z}", 2, "*"), reg("*", "/a/*", 3, "st", {"q"}), reg("GET", "/{w=**}:v", 4, "vb"), reg("GET", "/b/{u=**}", 5, ""),
                                                          reg("GET", "/d/{x}", 6), reg("GET", "/d/{y}", 7)},
                                      c0));
  ws.push_back(std::make_shared<World>(std::vector<ref::Reg>{reg("GET", "/a/{p=*}", 10, "other"), reg("GET", "/{r=**}", 11, "cat", {"a"}), reg("POST", "/a", 12, "")}, c1));
  return ws;
}
std::vector<Probe> purity_alphabet() {
  return {{0, {"GET", "/a", "k=1&z=2"}},   {0, {"GET", "/a/1%2F", ""}},   {0, {"POST", "/a/1%2F", "q=1"}}, {0, {"PUT", "/a/1%2F", "q=1&r=2"}}, {0, {"GET", "/nosuch", "a=b"}}, {0, {"GET", "/a/1%2F:v", "x=y&x=z"}},
          {0, {"GET", "/b/c%2Fd/e+f", ""}}, {0, {"GET", "/b", ""}},         {0, {"GET", "/d/1", "a=1"}},      {1, {"GET", "/a/1%2F", ""}},         {1, {"GET", "/a", "a=1+2&b=3+4"}},  {1, {"POST", "/a", "k=1&z=2"}},
          {1, {"GET", "/a/1%2F:v", ""}},    {1, {"GET", "/b/c%2Fd/e+f", "b=+"}},
          // nothing at all to bind
          {0, {"GET", "/a", ""}},           {1, {"POST", "/a", ""}},        {0, {"GET", "/a", "&k=1&"}}};
}

struct Outputs {
  std::vector<gt::VariableBinding> b;
  std::string body;
};
// mode: 0 both outputs, 1 bindings only, 2 body only, 3 none, 4 the short overload
void pure_step(T& t, const std::vector<std::shared_ptr<World>>& ws, const Probe& p, int mode, Outputs& o) {
  const World& w = *ws[p.world];
  std::vector<ref::Binding> eb;
  std::string ebody;
  int e = w.ref.lookup(p.q.http_method, p.q.path, p.q.query, &eb, &ebody);
  M m = mode == 4 ? w.real->Lookup(p.q.http_method, p.q.path) : w.real->Lookup(p.q.http_method, p.q.path, p.q.query, mode == 0 || mode == 1 ? &o.b : nullptr, mode == 0 || mode == 2 ? &o.body : nullptr);
  t.step();
  int g = m ? *m : -1;
  t.check(g == e, [&] { return "matcher " + num(p.world) + " " + show(p.q) + " (mode " + num(mode) + ") found " + std::to_string(g) + ", expected " + std::to_string(e); });
  if (e < 0) return;
  if (mode == 0 || mode == 1) {
    std::vector<ref::Binding> gb = conv(o.b);
    t.check(gb == eb, [&] { return "matcher " + num(p.world) + " " + show(p.q) + " (mode " + num(mode) + ") bindings " + show(gb) + ", expected " + show(eb); });
  }
  if (mode == 0 || mode == 2) t.check(o.body == ebody, [&] { return "matcher " + num(p.world) + " " + show(p.q) + " (mode " + num(mode) + ") body field " + mc::q(o.body) + ", expected " + mc::q(ebody); });
}

void add_purity(Spaces& v, bool th) {
  auto al = std::make_shared<std::vector<Probe>>(purity_alphabet());
  int n = al->size(), L = kSan ? 3 : (th ? 5 : 4);
  v.push_back({"lookups", "every sequence of at most " + num(L) + " of " + num(n) + " lookups on two matchers with shared, reused outputs (all 5 choices of requested outputs for the last one)", (uint64_t)n * n, [=](T& t, uint64_t u) {
                 // The matchers are built afresh per unit, so that a history starts from a fresh state per unit; within
                 // the unit the history continues, as it does in a server.
                 auto ws = purity_worlds();
                 std::vector<int> pre = {(int)u / n, (int)u % n};
                 for (int l = 0; l <= L - 2; ++l) {
                   std::vector<int> d(l, 0);
                   for (;;) {
                     for (int mode = 0; mode < 5; ++mode) {
                       std::vector<int> h = pre;
                       h.insert(h.end(), d.begin(), d.end());
                       if (t.begin([&] {
                             std::string s = "lookups:";
                             for (int i : h) s += " [" + num((*al)[i].world) + "] " + show((*al)[i].q) + ";";
                             return s + " last with outputs mode " + num(mode);
                           })) {
                         Outputs o;
                         o.b.resize(3);
                         o.b[1].value = "junk";
                         o.body = "junk";
                         for (size_t i = 0; i < h.size(); ++i) pure_step(t, ws, (*al)[h[i]], i + 1 == h.size() ? mode : 0, o);
                         uint64_t hs = mode;
                         for (int i : h) hs = mc::comb(hs, i);
                         t.state(hs);
                       }
                     }
                     int i = l - 1;
                     while (i >= 0 && ++d[i] == n) d[i--] = 0;
                     if (i < 0) break;
                   }
                 }
               }});
  v.push_back({"fresh", "every ordered pair and triple of lookups on matchers built just for it", (uint64_t)n, [=](T& t, uint64_t u) {
                 for (int i = 0; i < n; ++i)
                   for (int j = -1; j < (kSan ? 0 : n); ++j)
                     if (t.begin([&] { return "fresh matchers: " + show((*al)[u].q) + "; " + show((*al)[i].q) + (j < 0 ? "" : "; " + show((*al)[j].q)); })) {
                       auto ws = purity_worlds();
                       Outputs o;
                       o.body = "junk";
                       pure_step(t, ws, (*al)[u], 0, o);
                       pure_step(t, ws, (*al)[i], 0, o);
                       if (j >= 0) pure_step(t, ws, (*al)[j], 0, o);
                       t.state(mc::comb(mc::comb(u, i), j + 1));
                     }
               }});
  int reps = th ? 70000 : 5000;
  v.push_back({"long", "each lookup and each alternating pair repeated " + num(kSan ? reps / 10 : reps) + " times on one matcher, and a cyclic sequence containing every triple", (uint64_t)n + 1, [=](T& t, uint64_t u) {
                 auto ws = purity_worlds();
                 Outputs o;
                 int R = kSan ? reps / 10 : reps;
                 if (u == (uint64_t)n) {
                   if (t.begin([&] { return std::string("all triples in one history"); }))
                     for (int a = 0; a < n; ++a)
                       for (int b = 0; b < n; ++b)
                         for (int c = 0; c < n; ++c)
                           for (int x : {a, b, c}) pure_step(t, ws, (*al)[x], (a + b + c) % 5, o);
                   t.beat();
                   // many distinct requests, then the first ones again
                   if (t.begin([&] { return std::string("many distinct requests, then all of them again"); }))
                     for (int round = 0; round < 3; ++round)
                       for (int i = 0; i < R; ++i)
                         for (int w = 0; w < 2; ++w) pure_step(t, ws, {w, {"GET", "/a/n" + num(i), i % 3 ? "" : "i=" + num(i)}}, i % 5, o);
                   return;
                 }
                 for (int i = 0; i < n; ++i)
                   if (t.begin([&] { return "alternating " + show((*al)[u].q) + " and " + show((*al)[i].q); })) {
                     for (int k = 0; k < R / n + 300; ++k) {
                       pure_step(t, ws, (*al)[u], 0, o);
                       pure_step(t, ws, (*al)[i], 0, o);
                     }
                     t.state(mc::comb(u, i));
                   }
               }});
}

std::vector<mc::Space> spaces(const mc::Options& o) {
  g_prop = o.prop;
  bool th = o.thorough();
  Spaces v;
  if (is("C03") || is("C04")) {
    add_methods(v, th);
    add_raw(v, th);
    add_bytes(v, false);
    add_corpus(v, th);
    add_pump(v, th);
    add_deep(v, th);
    add_subsets(v, th);
    add_sets(v, th);
    if (is("C03")) add_strings(v, th);
  } else if (is("C05")) {
    add_dec(v, th);
    add_bytes(v, th);
    add_corpus(v, th);
    add_strings(v, th);
    add_pump(v, th);
    add_bindings(v, th);
  } else if (is("C06")) {
    add_corpus(v, th);
    add_query(v, th);
  } else if (is("C08")) {
    add_corpus(v, th);
    add_verbs(v, th);
    add_strings(v, th);
  } else if (is("C09")) {
    add_histories(v, th);
  } else if (is("C11")) {
    add_purity(v, th);
  }
  return v;
}
}  // namespace

int main(int argc, char** argv) { return mc::Main(argc, argv, spaces); }
