// C07: exhaustive exploration of percent-decoding against the reference decoder, directly and through lookups.
#include <memory>

#include "grpc_transcoding/path_matcher.h"
#include "mc.h"
#include "ref.h"

namespace gt = google::grpc::transcoding;
using mc::T;

namespace {
#ifdef MC_SAN
const bool kSan = true;
#else
const bool kSan = false;
#endif
std::string num(size_t n) { return std::to_string(n); }

gt::UrlUnescapeSpec spec_of(int s) {
  return s == ref::kExceptReserved ? gt::UrlUnescapeSpec::kAllCharactersExceptReserved : s == ref::kExceptSlash ? gt::UrlUnescapeSpec::kAllCharactersExceptSlash : gt::UrlUnescapeSpec::kAllCharacters;
}

// All options, both functions, both overloads, on an exactly sized heap buffer (so that a sanitizer sees any overrun).
void probe(T& t, const std::string& s) {
  std::unique_ptr<char[]> buf(new char[s.size()]);
  memcpy(buf.get(), s.data(), s.size());
  absl::string_view v(buf.get(), s.size());
  uint64_t h = 0;
  for (int sp = 0; sp < 3; ++sp)
    for (int plus = 0; plus < 2; ++plus) {
      std::string g = gt::UrlUnescapeString(v, spec_of(sp), plus), e = ref::decode(s, (ref::Spec)sp, plus);
      t.check(g == e, [&] { return "UrlUnescapeString(" + mc::q(s) + ", spec " + num(sp) + ", plus " + num(plus) + ") = " + mc::q(g) + ", expected " + mc::q(e); });
      bool ge = gt::IsUrlEscapedString(v, spec_of(sp), plus), ee = ref::replaces(s, (ref::Spec)sp, plus);
      t.check(ge == ee, [&] { return "IsUrlEscapedString(" + mc::q(s) + ", spec " + num(sp) + ", plus " + num(plus) + ") = " + num(ge); });
      h = mc::comb(h, mc::hash(g));
      t.step(2);
    }
  t.check(gt::UrlUnescapeString(v) == ref::decode(s, ref::kAll, false), [&] { return "UrlUnescapeString(" + mc::q(s) + ") = " + mc::q(gt::UrlUnescapeString(v)); });
  t.check(gt::IsUrlEscapedString(v) == ref::replaces(s, ref::kAll, false), [&] { return "IsUrlEscapedString(" + mc::q(s) + ") is wrong"; });
  t.state(h);
}
void one(T& t, const std::string& s) {
  if (t.begin([&] { return "decode " + mc::q(s); })) probe(t, s);
}

using M = const int*;
std::vector<mc::Space> spaces(const mc::Options& o) {
  bool th = o.thorough();
  std::vector<mc::Space> v;
  static const std::string A = "%24Ff1+/";
  int L = kSan ? (th ? 7 : 6) : (th ? 9 : 7);
  v.push_back({"strings", "every string over {%,2,4,F,f,1,+,/} with at most " + num(L) + " characters x 3 specs x plus on/off", 64, [=](T& t, uint64_t u) {
                 std::string pre = std::string(1, A[u / 8]) + A[u % 8];
                 if (u == 0) {
                   one(t, "");
                   for (char c : A) one(t, std::string(1, c));
                 }
                 for (int l = 0; l <= L - 2; ++l) {
                   std::vector<int> d(l, 0);
                   for (;;) {
                     std::string s = pre;
                     for (int i : d) s += A[i];
                     one(t, s);
                     int i = l - 1;
                     while (i >= 0 && ++d[i] == 8) d[i--] = 0;
                     if (i < 0) break;
                   }
                 }
               }});
  v.push_back({"pairs", "\"%\" followed by each of the 65536 byte pairs, alone, embedded, doubled and truncated; each byte pair alone", 256, [=](T& t, uint64_t u) {
                 for (int b = 0; b < 256; ++b) {
                   std::string p = std::string(1, (char)u) + (char)b, e = "%" + p;
                   for (auto& s : {e, "x" + e + "y", e + e, e + "%", "%" + e, e + "%4", "+" + e + "%2F", p, "%2" + p, e + "A"}) one(t, s);
                 }
               }});
  v.push_back({"triples", "every byte, in every position of a 3-escape string, raw and escaped (upper, lower, mixed case), and every pair of escaped bytes", 256, [=](T& t, uint64_t u) {
                 char b[3][8];
                 snprintf(b[0], 8, "%%%02X", (int)u);
                 snprintf(b[1], 8, "%%%02x", (int)u);
                 snprintf(b[2], 8, "%%%X%x", (int)u >> 4, (int)u & 15);
                 std::string base = "%41%2F%7e";
                 for (size_t i = 0; i <= base.size(); ++i) {
                   for (auto& x : b) one(t, std::string(base).insert(i, x));
                   one(t, std::string(base).insert(i, 1, (char)u));
                   if (i < base.size()) {
                     std::string s = base;
                     s[i] = (char)u;
                     one(t, s);
                   }
                 }
                 for (int c = 0; c < 256; ++c)
                   for (auto f : {"%%%02X", "%%%02x"}) {
                     char e[8];
                     snprintf(e, 8, f, c);
                     one(t, std::string(b[0]) + e);
                     one(t, std::string(b[1]) + e + b[2]);
                   }
               }});
  std::vector<size_t> ns;
  for (size_t i = 0; i <= (kSan ? 200 : 600); ++i) ns.push_back(i);
  for (size_t p = 1024; p <= (kSan ? (th ? 65536u : 8192u) : th ? (1u << 20) : (32u << 10)); p *= 2)
    for (int d = -1; d <= 1; ++d) ns.push_back(p + d);
  v.push_back({"lengths", "strings of n repeated units (raw, escaped, kept, malformed, plus) with every kind of tail, n up to " + num(ns.back()), ns.size(), [=](T& t, uint64_t u) {
                 size_t n = ns[u];
                 for (std::string unit : {"a", "%41", "%2F", "%2f", "%", "+", "%zz", "%3A%20", "%%"}) {
                   std::string s;
                   for (size_t i = 0; i < n; ++i) s += unit;
                   for (std::string tail : {"", "%", "%4", "%41", "%2F", "+", "z"}) {
                     one(t, s + tail);
                     if (n < 2000) one(t, tail + s);
                   }
                   t.beat();
                 }
               }});
  int Ll = kSan ? 4 : th ? 7 : 5;
  v.push_back({"lookups", "every string over {%,2,F,f,4,1,+} with at most " + num(Ll) + " characters as value of a query parameter and of single-segment, two-segment and ** path variables x 3 specs x plus on/off", 7 * 6, [=](T& t, uint64_t u) {
                 static const std::string B = "%2Ff41+";
                 int sp = u % 3, plus = u / 3 % 2;
                 static const int id[4] = {0, 1, 2, 3};
                 gt::PathMatcherBuilder<M> b;
                 b.SetUrlUnescapeSpec(spec_of(sp));
                 b.SetQueryParamUnescapePlus(plus);
                 b.Register("GET", "/s/{x}", "", &id[0]);
                 b.Register("GET", "/m/{x=*/*}", "", &id[1]);
                 b.Register("GET", "/w/{x=**}", "", &id[2]);
                 auto m = b.Build();
                 std::vector<gt::VariableBinding> bs;
                 auto go = [&](const std::string& s) {
                   if (!t.begin([&] { return "lookups with value " + mc::q(s) + " spec " + num(sp) + " plus " + num(plus); })) return;
                   std::string full = ref::decode(s, ref::kAll, false), part = ref::decode(s, (ref::Spec)sp, false), query = ref::decode(s, ref::kAll, plus);
                   struct {
                     std::string path, value;
                   } k[] = {{"/s/" + s, full}, {"/m/" + s + "/" + s, part + "/" + part}, {"/w/" + s, part}};
                   for (auto& c : k) {
                     M r = m->Lookup("GET", c.path, "q=" + s, &bs, nullptr);
                     t.step();
                     t.check(r && bs.size() == 2, [&] { return "GET " + mc::q(c.path) + " is not matched with two bindings"; });
                     t.check(bs[0].value == c.value, [&] { return "GET " + mc::q(c.path) + ": variable bound to " + mc::q(bs[0].value) + ", expected " + mc::q(c.value); });
                     t.check(bs[1].value == query, [&] { return "query " + mc::q("q=" + s) + ": bound to " + mc::q(bs[1].value) + ", expected " + mc::q(query); });
                     t.state(mc::comb(mc::hash(bs[0].value), mc::hash(query)));
                   }
                 };
                 std::string pre(1, B[u / 6]);
                 for (int l = 0; l < Ll; ++l) {
                   std::vector<int> d(l, 0);
                   for (;;) {
                     std::string s = pre;
                     for (int i : d) s += B[i];
                     go(s);
                     int i = l - 1;
                     while (i >= 0 && ++d[i] == 7) d[i--] = 0;
                     if (i < 0) break;
                   }
                 }
               }});
  return v;
}
}  // namespace

int main(int argc, char** argv) { return mc::Main(argc, argv, spaces); }
