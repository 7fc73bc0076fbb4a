// Reference model of templates, matching and bindings: deliberately simple, written from the documented
// semantics (google/api/http.proto, the comments of the headers) and sharing nothing with the code.
#ifndef REF_H_
#define REF_H_
#include <algorithm>
#include <set>
#include <string>
#include <vector>

namespace ref {

struct Var {
  std::vector<std::string> path;
  int s = 0, e = 0;  // template segments [s, e)
  bool wild = false;
};
struct Tmpl {
  std::vector<std::string> segs;  // "*" and "**" are the wildcards
  std::string verb;
  std::vector<Var> vars;
};

// ---- Recogniser of the grammar.
//  Template = "/" | "/" Segments [":" LITERAL]
//  Segments = Segment {"/" Segment};  Segment = "*" | "**" | LITERAL | "{" IDENT {"." IDENT} ["=" Segments] "}"
//  LITERAL: one or more characters other than / : } (as a segment it does not start with * or {)
//  IDENT: one or more characters other than . } =
//  No variable inside a variable; nothing but literals after a "**".
inline bool lit_char(char c) { return c != '/' && c != ':' && c != '}'; }

inline bool parse_plain_segment(const std::string& s, size_t& i, Tmpl& t) {  // "*", "**" or LITERAL
  size_t b = i;
  if (i < s.size() && s[i] == '*') {
    i += s.compare(i, 2, "**") == 0 ? 2 : 1;
  } else {
    if (i < s.size() && s[i] == '{') return false;
    while (i < s.size() && lit_char(s[i])) ++i;
    if (i == b) return false;
  }
  t.segs.push_back(s.substr(b, i - b));
  return true;
}

inline bool parse(const std::string& s, Tmpl* out) {
  Tmpl t;
  *out = t;
  if (s == "/") return true;
  if (s.empty() || s[0] != '/') return false;
  size_t i = 1;
  for (;;) {
    if (i < s.size() && s[i] == '{') {
      Var v;
      v.s = t.segs.size();
      ++i;
      for (;;) {
        size_t b = i;
        while (i < s.size() && s[i] != '.' && s[i] != '}' && s[i] != '=') ++i;
        if (i == b) return false;
        v.path.push_back(s.substr(b, i - b));
        if (i < s.size() && s[i] == '.') {
          ++i;
          continue;
        }
        break;
      }
      if (i < s.size() && s[i] == '=') {
        ++i;
        for (;;) {
          if (!parse_plain_segment(s, i, t)) return false;
          if (i < s.size() && s[i] == '/') {
            ++i;
            continue;
          }
          break;
        }
      } else {
        t.segs.push_back("*");
      }
      if (i >= s.size() || s[i] != '}') return false;
      ++i;
      v.e = t.segs.size();
      for (int k = v.s; k < v.e; ++k) v.wild |= t.segs[k] == "**";
      t.vars.push_back(v);
    } else if (!parse_plain_segment(s, i, t)) {
      return false;
    }
    if (i < s.size() && s[i] == '/') {
      ++i;
      continue;
    }
    break;
  }
  if (i < s.size() && s[i] == ':') {
    size_t b = ++i;
    while (i < s.size() && lit_char(s[i])) ++i;
    if (i == b) return false;
    t.verb = s.substr(b);
    t.verb.resize(i - b);
  }
  if (i != s.size()) return false;
  bool wild = false;
  for (auto& g : t.segs) {
    if (wild && (g == "*" || g == "**")) return false;
    wild |= g == "**";
  }
  *out = t;
  return true;
}

// ---- Percent-decoding.
enum Spec { kExceptReserved = 0, kExceptSlash = 1, kAll = 2 };
inline int hexval(char c) {
  const char* d = "0123456789abcdef0123456789ABCDEF";
  for (int i = 0; i < 32; ++i)
    if (d[i] == c) return i % 16;
  return -1;
}
inline std::string decode(const std::string& s, Spec spec, bool plus) {
  static const std::string reserved = "!#$&'()*+,/:;=?@[]";
  std::string o;
  for (size_t i = 0; i < s.size();) {
    if (plus && s[i] == '+') {
      o += ' ';
      ++i;
      continue;
    }
    if (s[i] == '%' && i + 2 < s.size() && hexval(s[i + 1]) >= 0 && hexval(s[i + 2]) >= 0) {
      char c = static_cast<char>(hexval(s[i + 1]) * 16 + hexval(s[i + 2]));
      bool keep = spec == kAll ? false : spec == kExceptSlash ? c == '/' : reserved.find(c) != std::string::npos;
      if (!keep) {
        o += c;
        i += 3;
        continue;
      }
    }
    o += s[i++];
  }
  return o;
}

// Would decoding replace something? (By position: any "%XX" decodes wherever it starts, since hex digits are no '%'.)
inline bool replaces(const std::string& s, Spec spec, bool plus) {
  for (size_t i = 0; i < s.size(); ++i) {
    std::string r = s.substr(i, 3);
    if (plus && s[i] == '+') return true;
    if (s[i] == '%' && decode(r, spec, false) != r) return true;
  }
  return false;
}

// ---- Requests.
struct Request {
  std::vector<std::string> parts;
  std::string verb;
  bool has_verb = false;
};
inline std::vector<std::string> split(const std::string& s, char c) {
  std::vector<std::string> v(1);
  for (char x : s) {
    if (x == c) v.emplace_back();
    else v.back() += x;
  }
  return v;
}
inline Request parse_request(std::string path, const std::set<std::string>& verbs, bool any_verb) {
  Request r;
  size_t qm = path.find('?');
  if (qm != std::string::npos) path.resize(qm);
  size_t slash = path.rfind('/'), colon = path.rfind(':');
  if (colon != std::string::npos && (slash == std::string::npos || colon > slash)) {
    std::string v = path.substr(colon + 1);
    if (any_verb || verbs.count(v)) {
      r.verb = v;
      r.has_verb = true;
      path.resize(colon);
    }
  }
  if (!path.empty()) {
    r.parts = split(path.substr(1), '/');
    while (!r.parts.empty() && r.parts.back().empty()) r.parts.pop_back();
  }
  return r;
}

// Rank of a pattern against request segments: per position '0' literal, '1' "*", '2' "**", with a final '2'
// for a trailing "**" that takes nothing.  The lexicographically least rank is the most specific.
inline bool match(const std::vector<std::string>& segs, const std::vector<std::string>& parts, std::string* rank) {
  size_t w = std::find(segs.begin(), segs.end(), "**") - segs.begin();
  rank->clear();
  auto one = [&](const std::string& g, const std::string& p) {
    if (g == "*") {
      *rank += '1';
      return true;
    }
    *rank += '0';
    return g == p;
  };
  if (w == segs.size()) {
    if (parts.size() != segs.size()) return false;
    for (size_t i = 0; i < segs.size(); ++i)
      if (!one(segs[i], parts[i])) return false;
    return true;
  }
  size_t suffix = segs.size() - w - 1;
  if (parts.size() < w + suffix + (suffix ? 1 : 0)) return false;
  for (size_t i = 0; i < w; ++i)
    if (!one(segs[i], parts[i])) return false;
  size_t mid = parts.size() - w - suffix;
  rank->append(mid ? mid : 1, '2');
  for (size_t i = 0; i < suffix; ++i)
    if (!one(segs[w + 1 + i], parts[parts.size() - suffix + i])) return false;
  return true;
}

struct Binding {
  std::vector<std::string> path;
  std::string value;
  bool operator==(const Binding& o) const { return path == o.path && value == o.value; }
};

inline void path_bindings(const Tmpl& t, const std::vector<std::string>& parts, Spec spec, std::vector<Binding>* out) {
  int m = t.segs.size(), n = parts.size();
  int w = std::find(t.segs.begin(), t.segs.end(), "**") - t.segs.begin();
  // Boundary before template segment i -> boundary in the request.
  auto pos = [&](int i) { return i <= w ? i : n - (m - i); };
  for (auto& v : t.vars) {
    Binding b;
    b.path = v.path;
    bool multi = v.wild || v.e - v.s > 1;
    for (int i = pos(v.s); i < pos(v.e); ++i) {
      if (i > pos(v.s)) b.value += '/';
      b.value += decode(parts[i], multi ? spec : kAll, false);
    }
    out->push_back(b);
  }
}

inline void query_bindings(const std::string& query, const std::set<std::string>& sys, bool plus, std::vector<Binding>* out) {
  for (auto& p : split(query, '&')) {
    size_t e = p.find('=');
    if (e == std::string::npos || e == 0) continue;
    std::string name = p.substr(0, e);
    if (sys.count(name)) continue;
    out->push_back({split(name, '.'), decode(p.substr(e + 1), kAll, plus)});
  }
}

struct Reg {
  std::string http_method, tmpl, body;
  std::set<std::string> sys;
  int id = 0;
};

// The whole matcher.
class Matcher {
 public:
  bool fail_on_dup = false, any_verb = false, plus = false;
  Spec spec = kExceptReserved;

  bool add(const Reg& r) {
    Entry e;
    if (!parse(r.tmpl, &e.t)) return false;
    e.r = r;
    bool dup = false;
    for (auto& o : entries_)
      if (o.r.http_method == r.http_method && o.t.verb == e.t.verb && o.t.segs == e.t.segs) o.dup = dup = true;
    e.dup = dup;
    entries_.push_back(e);
    if (!e.t.verb.empty()) verbs_.insert(e.t.verb);
    return !(dup && fail_on_dup);
  }
  // The id of the binding found, or -1.
  int lookup(const std::string& http_method, const std::string& path, const std::string& query, std::vector<Binding>* b, std::string* body) const {
    Request q = parse_request(path, verbs_, any_verb);
    const Entry* best = nullptr;
    std::string best_rank, rank;
    for (auto& e : entries_) {
      if (e.t.verb != q.verb) continue;
      if (e.r.http_method != http_method && e.r.http_method != "*") continue;
      if (!match(e.t.segs, q.parts, &rank)) continue;
      bool better = !best || rank < best_rank || (rank == best_rank && e.r.http_method == http_method && best->r.http_method != http_method);
      if (better) {
        best = &e;
        best_rank = rank;
      }
    }
    if (!best || best->dup) return -1;
    if (b) {
      b->clear();
      path_bindings(best->t, q.parts, spec, b);
      query_bindings(query, best->r.sys, plus, b);
    }
    if (body) *body = best->r.body;
    return best->r.id;
  }
  // Does the binding match the request (custom verbs as registered here)?
  bool fits(int id, const std::string& http_method, const std::string& path) const {
    Request q = parse_request(path, verbs_, any_verb);
    std::string rank;
    for (auto& e : entries_)
      if (e.r.id == id && e.t.verb == q.verb && (e.r.http_method == http_method || e.r.http_method == "*") && match(e.t.segs, q.parts, &rank)) return true;
    return false;
  }
  size_t nvars(int id) const {
    for (auto& e : entries_)
      if (e.r.id == id) return e.t.vars.size();
    return 0;
  }
  bool any_dup() const {
    for (auto& e : entries_)
      if (e.dup) return true;
    return false;
  }

 private:
  struct Entry {
    Reg r;
    Tmpl t;
    bool dup = false;
  };
  std::vector<Entry> entries_;
  std::set<std::string> verbs_;
};

}  // namespace ref
#endif  // REF_H_
