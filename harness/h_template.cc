// C01, C02: exhaustive exploration of HttpTemplate::Parse against the grammar.
#include "grpc_transcoding/http_template.h"
#include "grpc_transcoding/path_matcher.h"
#include "mc.h"
#include "ref.h"

using google::grpc::transcoding::HttpTemplate;
using google::grpc::transcoding::PathMatcherBuilder;
using mc::T;

namespace {
bool g_c01 = true;

std::string show(const ref::Tmpl& t) {
  std::string o = "[";
  for (auto& s : t.segs) o += mc::q(s) + " ";
  o += "] verb=" + mc::q(t.verb) + " vars=";
  for (auto& v : t.vars) {
    o += "(";
    for (auto& p : v.path) o += mc::q(p) + ".";
    o += " [" + std::to_string(v.s) + "," + std::to_string(v.e) + ") wild=" + std::to_string(v.wild) + ")";
  }
  return o;
}

uint64_t hash_tmpl(const ref::Tmpl& t) {
  uint64_t h = mc::hash(t.verb);
  for (auto& s : t.segs) h = mc::comb(h, mc::hash(s));
  for (auto& v : t.vars) {
    h = mc::comb(h, v.s * 1000 + v.e * 2 + v.wild);
    for (auto& p : v.path) h = mc::comb(h, mc::hash(p));
  }
  return h;
}

// Converts a boundary of a variable to the documented form: from the front, or from the end (-1: end) behind "**".
int boundary(const ref::Tmpl& t, int i) {
  int w = std::find(t.segs.begin(), t.segs.end(), "**") - t.segs.begin();
  int m = t.segs.size();
  return i <= w ? i : i - m - 1;
}

void one(T& t, const std::string& s, const ref::Tmpl* known = nullptr) {
  if (!t.begin([&] { return "template " + mc::q(s); })) return;
  ref::Tmpl r;
  bool ok = ref::parse(s, &r);
  if (known) {  // built from the grammar: also validates the recogniser itself
    if (!ok) t.fail("reference recogniser rejects a derivation");
    if (show(*known) != show(r)) t.fail("reference recogniser decomposes a derivation differently: " + show(r) + " instead of " + show(*known));
  }
  std::unique_ptr<HttpTemplate> h = HttpTemplate::Parse(s);
  t.step();
  if (g_c01) {
    t.check((h != nullptr) == ok, [&] { return std::string(h ? "accepted, but the grammar rejects " : "rejected, but the grammar accepts ") + mc::q(s); });
    PathMatcherBuilder<int*> b;
    static int method;
    bool reg = b.Register("GET", s, "", &method);
    t.step();
    t.check(reg == ok, [&] { return std::string("Register returned ") + (reg ? "true" : "false") + " for " + mc::q(s); });
    t.state(ok ? hash_tmpl(r) : mc::hash(s) | 1);
  } else if (ok && h) {
    t.check(h->segments() == r.segs, [&] {
      std::string o = "segments are";
      for (auto& x : h->segments()) o += " " + mc::q(x);
      return o + ", expected " + show(r);
    });
    t.check(h->verb() == r.verb, [&] { return "verb is " + mc::q(h->verb()) + ", expected " + mc::q(r.verb); });
    auto& vs = h->Variables();
    t.check(vs.size() == r.vars.size(), [&] { return std::to_string(vs.size()) + " variables, expected " + show(r); });
    for (size_t i = 0; i < vs.size(); ++i) {
      auto& v = vs[i];
      auto& e = r.vars[i];
      int es = boundary(r, e.s), ee = boundary(r, e.e);
      t.check(v.field_path == e.path, [&] { return "wrong field path of variable " + std::to_string(i) + ", expected " + show(r); });
      t.check(v.start_segment == es && v.end_segment == ee, [&] {
        return "variable " + std::to_string(i) + " covers [" + std::to_string(v.start_segment) + "," + std::to_string(v.end_segment) + "), expected [" + std::to_string(es) + "," +
               std::to_string(ee) + ")";
      });
      t.check(v.has_wildcard_path == e.wild, [&] { return "has_wildcard_path of variable " + std::to_string(i) + " is wrong"; });
    }
    t.state(hash_tmpl(r));
  }
}

// All strings prefix + w, w over the alphabet with |w| = len.
void words(T& t, const std::string& prefix, const std::string& alpha, int len) {
  std::string s = prefix + std::string(len, alpha[0]);
  std::vector<int> d(len, 0);
  for (;;) {
    for (int i = 0; i < len; ++i) s[prefix.size() + i] = alpha[d[i]];
    one(t, s);
    int i = len - 1;
    while (i >= 0 && ++d[i] == (int)alpha.size()) d[i--] = 0;
    if (i < 0) return;
  }
}

const std::vector<std::string>& seeds() {
  static const std::vector<std::string> v = {
      "/", "/a", "/a/b", "/*", "/**", "/a/*/b", "/a/**", "/a/**/b", "/{x}", "/{x.y}", "/{x=*}", "/{x=**}", "/{x=a/*}", "/a/{x=b/*}/c",
      "/{x=a/**}", "/{x=**}/b", "/{x=a/**/b}/c:v", "/{x=**}/{y=b}", "/a:v", "/{x}:v", "/{x=a/*}:v", "/**:v", "/{x.y.z=a/*/b/*}/c/{u}/{w.q=d/**}:verb",
      "/v1/projects/{project}/zones/{zone=*}/instances/{instance=i/*}:start", "", "a", "//", "/a/", "/:v", "/a:", "/a:b:c", "/***", "/*a", "/{x=}", "/{=a}", "/{}", "/{x", "/{x=a",
      "/{x.}", "/{.x}", "/{x={y}}", "/a}", "/**/*", "/**/**", "/{x=**}/*", "/{x=**/*}", "/{x=**/**}", "/{x}{y}", "/a{x}", "/{x}a", "/a:b/c", "/{x=a:b}", "/{x}:", "/{x}:v/"};
  return v;
}

const char* kRealistic[] = {
    "/v1/{name=projects/*/locations/*/clusters/*}:cancel", "/v1/{parent=shelves/*}/books/{book_id}", "/v1beta1/{resource=**}:getIamPolicy", "/compute/v1/projects/{project}/global/images/{image}",
    "/v1/{name=operations/**}", "/v1/shelves/{shelf}/books/{book.id}", "/storage/v1/b/{bucket}/o/{object=**}", "/v2/{a=x/*}/{b=y/**/z}/w:v", "/{a}/{b}/{c}:search", "/google.longrunning.Operations/GetOperation",
    "/v1/{session=projects/*/instances/*/databases/*/sessions/*}:executeSql", "/**/end/of/path:x", "/a.b/c=d/{e.f.g=h.i/*}"};

struct Item {
  std::string text;
  std::vector<std::string> segs;
  bool var;
  std::vector<std::string> path;
};
const std::vector<Item>& items() {
  static std::vector<Item> v;
  if (v.empty()) {
    for (const char* l : {"a", "bc", "a*", "x{y=z.", "%2F", "=", ".", "a**"}) v.push_back({l, {l}, false, {}});
    v.push_back({"*", {"*"}, false, {}});
    v.push_back({"**", {"**"}, false, {}});
    std::vector<std::pair<std::string, std::vector<std::string>>> inner = {{"", {"*"}},           {"=*", {"*"}},          {"=**", {"**"}},           {"=a", {"a"}},          {"=a/*", {"a", "*"}},
                                                                          {"=*/b", {"*", "b"}}, {"=**/a", {"**", "a"}}, {"=a/**", {"a", "**"}}, {"=a/**/b", {"a", "**", "b"}}, {"=*/*", {"*", "*"}},
                                                                          {"=a=b/c.d", {"a=b", "c.d"}}, {"=a/**/b/c", {"a", "**", "b", "c"}}, {"=a/b/*/**", {"a", "b", "*", "**"}}};
    std::vector<std::pair<std::string, std::vector<std::string>>> fields = {{"x", {"x"}}, {"x.y", {"x", "y"}}, {"*/:{", {"*/:{"}}, {"longer_name.a.b", {"longer_name", "a", "b"}}};
    for (auto& f : fields)
      for (auto& i : inner) v.push_back({"{" + f.first + i.first + "}", i.second, true, f.second});
  }
  return v;
}

void derivation(T& t, const std::vector<int>& ix, const char* verb) {
  ref::Tmpl k;
  std::string s;
  bool valid = true;
  for (int i : ix) {
    const Item& it = items()[i];
    s += "/" + it.text;
    ref::Var v;
    v.s = k.segs.size();
    k.segs.insert(k.segs.end(), it.segs.begin(), it.segs.end());
    v.e = k.segs.size();
    if (it.var) {
      v.path = it.path;
      v.wild = std::find(it.segs.begin(), it.segs.end(), "**") != it.segs.end();
      k.vars.push_back(v);
    }
  }
  bool w = false;
  for (auto& g : k.segs) {
    if (w && (g == "*" || g == "**")) valid = false;
    w |= g == "**";
  }
  k.verb = verb;
  if (*verb) s += std::string(":") + verb;
  one(t, s, valid ? &k : nullptr);
}

std::string rep(const std::string& s, size_t n) {
  std::string o;
  for (size_t i = 0; i < n; ++i) o += s;
  return o;
}

std::vector<size_t> counts(bool deep) {
  std::vector<size_t> v;
  for (size_t n = 0; n <= (deep ? 700u : 300u); ++n) v.push_back(n);
  for (size_t p = 512; p <= (deep ? 65536u : 4096u); p *= 2)
    for (size_t d : {p - 1, p, p + 1}) v.push_back(d);
  return v;
}

std::vector<mc::Space> spaces(const mc::Options& o) {
  g_c01 = o.prop != "C02";
  bool th = o.thorough();
#ifdef MC_SAN
  const int L = th ? 6 : 5, Ltok = th ? 5 : 4;
#else
  const int L = th ? 8 : 7, Ltok = th ? 6 : 5;
#endif
  std::vector<mc::Space> v;
  static const std::string A = "/*{}=.:ab";
  v.push_back({"derivations", "every template built from the grammar: 1.." + std::to_string(th ? 4 : 3) + " items of " + std::to_string(items().size()) +
                                  " (literals, wildcards, variables with 13 inner patterns x 4 field paths) x 6 verbs, with its decomposition known by construction",
               items().size() + 1, [th](T& t, uint64_t u) {
                 const char* verbs[] = {"", "v", "*", "{x=y", "a.b", "get"};
                 int n = items().size();
                 if (u == (uint64_t)n) {
                   for (auto vb : verbs)
                     for (int i = 0; i < n; ++i) derivation(t, {i}, vb);
                   return;
                 }
                 for (auto vb : verbs)
                   for (int i = 0; i < n; ++i) derivation(t, {(int)u, i}, vb);
                 for (auto vb : verbs)
                   for (int i = 0; i < n; ++i)
                     for (int j = 0; j < n; ++j) derivation(t, {(int)u, i, j}, vb);
                 if (th)
                   for (int i = 0; i < n; ++i)
                     for (int j = 0; j < n; ++j)
                       for (int k = 0; k < n; ++k) derivation(t, {(int)u, i, j, k}, verbs[(i + j + k) % 6]);
               }});
  v.push_back({"words", "every string \"/\"+w over the alphabet " + A + " with |w| <= " + std::to_string(L), 81, [L](T& t, uint64_t u) {
                 if (u == 0) {
                   one(t, "");
                   words(t, "/", A, 0);
                   words(t, "/", A, 1);
                 }
                 std::string p = "/";
                 p += A[u / 9];
                 p += A[u % 9];
                 for (int l = 0; l <= L - 2; ++l) words(t, p, A, l);
               }});
  v.push_back({"nonslash", "every string of length 1.." + std::to_string(L - 2) + " over the same alphabet that does not start with \"/\"", 8, [L](T& t, uint64_t u) {
                 for (int l = 0; l <= L - 3; ++l) words(t, std::string(1, A[u + 1]), A, l);
               }});
  v.push_back({"tokens", "every sequence of up to " + std::to_string(Ltok) + " tokens of 16 (metacharacters, wildcards, literals, variable openers)", 16 * 16, [Ltok](T& t, uint64_t u) {
                 static const char* tok[] = {"/", "*", "**", "{", "}", "=", ".", ":", "abc", "/x", "/{a=", "/{a.b=", "/{c}", "/**", "%2F", "/*"};
                 std::string p = std::string(tok[u / 16]) + tok[u % 16];
                 if (p[0] != '/') p = "/" + p;
                 for (int l = 0; l <= Ltok - 2; ++l) {
                   std::vector<int> d(l, 0);
                   for (;;) {
                     std::string s = p;
                     for (int i : d) s += tok[i];
                     one(t, s);
                     int i = l - 1;
                     while (i >= 0 && ++d[i] == 16) d[i--] = 0;
                     if (i < 0) break;
                   }
                 }
               }});
  v.push_back({"bytes", "every byte value 0..255 substituted for and inserted at every position of " + std::to_string(seeds().size()) + " templates", seeds().size(), [](T& t, uint64_t u) {
                 const std::string& s = seeds()[u];
                 for (size_t i = 0; i <= s.size(); ++i)
                   for (int c = 0; c < 256; ++c) {
                     std::string x = s;
                     x.insert(i, 1, (char)c);
                     one(t, x);
                     if (i < s.size()) {
                       x = s;
                       x[i] = (char)c;
                       one(t, x);
                     }
                   }
               }});
  v.push_back({"edits", std::string("every ") + (th ? "two edits" : "edit (and pairs of edits at distance <= 3)") + " (delete, insert or substitute one of 9 metacharacters) of 13 realistic templates", 13 * 8,
               [th](T& t, uint64_t u) {
                 std::string s = kRealistic[u / 8];
                 const std::string M = "/*{}=.:a,";
                 auto edits = [&](const std::string& b, size_t lo, size_t hi, const std::function<void(const std::string&, size_t)>& f) {
                   for (size_t i = lo; i <= b.size() && i < hi; ++i) {
                     if (i < b.size()) {
                       std::string x = b;
                       x.erase(i, 1);
                       f(x, i);
                     }
                     for (char c : M) {
                       std::string x = b;
                       x.insert(i, 1, c);
                       f(x, i);
                       if (i < b.size() && b[i] != c) {
                         x = b;
                         x[i] = c;
                         f(x, i);
                       }
                     }
                   }
                 };
                 if (u % 8 == 0) one(t, s);
                 size_t n = s.size() + 1, lo = n * (u % 8) / 8, hi = n * (u % 8 + 1) / 8;
#ifdef MC_SAN
                 size_t dist = 1;
#else
                 size_t dist = th ? 1000 : 4;
#endif
                 edits(s, lo, hi, [&](const std::string& x, size_t i) {
                   one(t, x);
                   edits(x, i, i + dist, [&](const std::string& y, size_t) { one(t, y); });
                 });
               }});
  std::vector<size_t> cs = counts(th);
  v.push_back({"pump", "16 shapes with a repeated element, all counts 0.." + std::to_string(th ? 700 : 300) + " and around powers of two up to " + std::to_string(th ? 65536 : 4096), cs.size(),
               [cs](T& t, uint64_t u) {
                 size_t n = cs[u];
                 for (const char* tail : {"", ":v", "/", "}", ":", "/**", "/{z}"}) {
                   std::string e = tail;
                   one(t, rep("/a", n) + e);
                   one(t, rep("/*", n) + e);
                   one(t, "/" + std::string(n, 'a') + e);
                   one(t, "/a:" + std::string(n, 'v') + e);
                   one(t, "/{" + std::string(n, 'f') + "}" + e);
                   one(t, "/{x=" + std::string(n, 'f') + "}" + e);
                   one(t, "/" + std::string(n, '*') + e);
                   one(t, std::string(n, '/') + e);
                   one(t, "/{x" + rep(".y", n) + "}" + e);
                   one(t, "/{x" + rep(".yz", n) + "=a}" + e);
                   one(t, "/{x=b" + rep("/*", n) + "}" + e);
                   one(t, "/{x=b" + rep("/*", n) + "/**}/c" + e);
                   one(t, "/{x=**" + rep("/c", n) + "}" + rep("/d", n / 2) + e);
                   one(t, rep("/{x}", n) + e);
                   one(t, rep("/{x=a/*}", n) + "/**" + rep("/{y=b}", n / 3) + e);
                   one(t, rep("/a", n) + "/**" + rep("/b", n % 17) + e);
                 }
               }});
  return v;
}
}  // namespace

int main(int argc, char** argv) { return mc::Main(argc, argv, spaces); }
