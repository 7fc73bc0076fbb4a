// C30: enum names, base64 and unknown fields in request input, along every way in.
#include <ctype.h>

#include <map>
#include <memory>

#include "conv.h"
#include "ctypes.h"
#include "grpc_transcoding/json_request_translator.h"
#include "grpc_transcoding/request_message_translator.h"
#include "grpc_transcoding/request_stream_translator.h"
#include "mc.h"
#include "source.h"

namespace gt = google::grpc::transcoding;
using namespace conv;
using mc::T;

namespace {
#ifdef MC_SAN
const bool kSan = true;
#else
const bool kSan = false;
#endif

// The reference.
bool ref_enum(const std::string& s, bool any_case, int* out) {
  static const std::map<std::string, int> names = {{"ZERO", 0}, {"ONE", 1}, {"TWO_WORDS", 2}};
  auto i = names.find(s);
  if (i == names.end() && any_case) {
    std::string u;
    for (char c : s) u += c == '-' ? '_' : (char)toupper(c);
    i = names.find(u);
  }
  if (i != names.end()) {
    *out = i->second;
    return true;
  }
  size_t i0 = !s.empty() && s[0] == '-';  // a number may have a sign
  if (s.size() == i0 || s.size() > 9) return false;  // the domain has no longer numbers
  int n = 0;
  for (char c : s.substr(i0)) {
    if (!isdigit((unsigned char)c)) return false;
    n = n * 10 + c - '0';
  }
  *out = n;
  return n <= (i0 ? 0 : 2);
}
bool ref_bytes(const std::string& text, std::string* out) {
  std::string s;
  for (char c : text)
    if (!strchr(" \t\n\v\f\r", c) || !c) s += c;
  size_t pad = 0;
  while (pad < s.size() && s[s.size() - 1 - pad] == '=') ++pad;
  s.resize(s.size() - pad);
  if (s.size() % 4 == 1 || (pad && (s.size() + pad) % 4) || pad > 2) return false;
  bool std64 = false, url64 = false;
  uint32_t acc = 0;
  int bits = 0;
  out->clear();
  for (unsigned char c : s) {
    int v;
    if (c >= 'A' && c <= 'Z') v = c - 'A';
    else if (c >= 'a' && c <= 'z') v = c - 'a' + 26;
    else if (c >= '0' && c <= '9') v = c - '0' + 52;
    else if (c == '+' || c == '/') v = c == '+' ? 62 : 63, std64 = true;
    else if (c == '-' || c == '_') v = c == '-' ? 62 : 63, url64 = true;
    else return false;
    acc = acc << 6 | v;
    bits += 6;
    if (bits >= 8) {
      bits -= 8;
      *out += (char)(acc >> bits);
    }
  }
  return !(std64 && url64);
}
std::string field(int number, const std::string& payload) {
  return std::string(1, (char)(number << 3 | 2)) + (char)payload.size() + payload;  // short payloads only
}

// The ways in for one value of a field of M.
enum Way { kMember, kInner, kBodyField, kInnerBodyField, kBinding, kInnerBinding, kBoth, kElement, kElementField, kJson, kJsonStream, kWays };
const char* const kWayNames[] = {"body member", "member of an inner message", "body field", "inner body field", "binding", "inner binding", "binding beside a body field", "second element", "first element and binding of a stream", "JSON text", "JSON text, second element"};
gt::RequestInfo info(const std::string& body, const std::string& path, const std::string& value, bool enums) {
  gt::RequestInfo i;
  i.message_type = ct::world().type("mctest.M");
  i.body_field_path = body;
  i.reject_binding_body_field_collisions = false;
  i.case_insensitive_enum_parsing = enums;
  if (!path.empty()) {
    gt::RequestWeaver::BindingInfo b;
    if (!ct::world().helper->ResolveFieldPath(*i.message_type, path, &b.field_path).ok()) abort();
    b.value = value;
    i.variable_bindings.push_back(b);
  }
  return i;
}
struct Got {
  std::vector<std::string> msgs;
  bool ok = false, done = false;
  absl::StatusCode code = absl::StatusCode::kOk;
};
Got unary(const gt::RequestInfo& i, const Events& e) {
  gt::RequestMessageTranslator t(*ct::world().helper->Resolver(), false, i);
  for (auto& x : e) play(x, &t.Input());
  Got g;
  std::string m;
  if (t.Status().ok() && t.NextMessage(&m)) g.msgs.push_back(m);
  g.ok = t.Status().ok();
  g.code = t.Status().code();
  g.done = t.Finished();
  return g;
}
Got stream(const gt::RequestInfo& i, const Events& e) {
  gt::RequestStreamTranslator t(*ct::world().helper->Resolver(), false, i);
  for (auto& x : e) play(x, &t);
  Got g;
  std::string m;
  while (g.msgs.size() < 9 && t.NextMessage(&m)) g.msgs.push_back(m);
  g.ok = t.Status().ok();
  g.code = t.Status().code();
  g.done = t.Finished();
  return g;
}
Got json(const gt::RequestInfo& i, const std::string& text, bool streaming) {
  ArrivingSource in;
  in.lenient = true;
  in.reset(text, {(uint32_t)text.size()});
  in.arrived = 1;
  in.ended = true;
  gt::JsonRequestTranslator t(ct::world().helper->Resolver(), &in, i, streaming, false);
  Got g;
  std::string m;
  for (int k = 0; k < 3; ++k)
    while (g.msgs.size() < 9 && t.Output().NextMessage(&m)) g.msgs.push_back(m);
  g.ok = t.Output().Status().ok();
  g.code = t.Output().Status().code();
  g.done = t.Output().Finished();
  return g;
}
void value_case(T& t, int way, const std::string& name, const Value& v, bool enums, bool good, const std::string& enc) {
  if (!t.begin([&] { return std::string(kWayNames[way]) + " " + name + " = " + v.show() + (enums ? ", case-insensitive enums" : ""); })) return;
  Got g;
  std::vector<std::string> want = {enc};
  std::string inner = field(3, enc);
  Value empty = Value::Str("");
  switch (way) {
    case kMember: g = unary(info("*", "", "", enums), {{kObj, "", {}}, {kVal, name, v}, {kEndObj, "", {}}}); break;
    case kInner: g = unary(info("*", "", "", enums), {{kObj, "", {}}, {kObj, "m", {}}, {kVal, name, v}, {kEndObj, "", {}}, {kEndObj, "", {}}}), want = {inner}; break;
    case kBodyField: g = unary(info(name, "", "", enums), {{kVal, "", v}}); break;
    case kInnerBodyField: g = unary(info("m." + name, "", "", enums), {{kVal, "", v}}), want = {inner}; break;
    case kBinding: g = unary(info("*", name, v.s, enums), {{kObj, "", {}}, {kEndObj, "", {}}}); break;
    case kInnerBinding: g = unary(info("*", "m." + name, v.s, enums), {{kObj, "", {}}, {kEndObj, "", {}}}), want = {inner}; break;
    case kBoth: g = unary(info("m", name, v.s, enums), {{kObj, "", {}}, {kEndObj, "", {}}}), want = {field(3, "") + enc}; break;
    case kElement: g = stream(info("*", "", "", enums), {{kList, "", {}}, {kObj, "", {}}, {kEndObj, "", {}}, {kObj, "", {}}, {kVal, name, v}, {kEndObj, "", {}}, {kEndList, "", {}}}), want = {"", enc}; break;
    case kElementField: g = stream(info(name, "m." + name, v.s, enums), {{kList, "", {}}, {kVal, "", v}, {kVal, "", v}, {kEndList, "", {}}}), want = {enc + inner, enc}; break;
    case kJson: g = json(info("*", "", "", enums), "{\"" + name + "\":\"" + v.s + "\"}", false); break;
    case kJsonStream: g = json(info("*", "", "", enums), "[{},{\"" + name + "\":\"" + v.s + "\"}]", true), want = {"", enc}; break;
  }
  t.step();
  t.check(g.ok == good, [&] { return std::string(g.ok ? "accepted" : "rejected") + ", expected " + (good ? "a message" : "an error"); });
  t.check(good || g.code == absl::StatusCode::kInvalidArgument, [&] { return "status code " + num((int)g.code); });
  if (good) {
    t.check(g.msgs == want, [&] { return num(g.msgs.size()) + " messages, the last " + (g.msgs.empty() ? "-" : mc::q(g.msgs.back())) + ", expected " + mc::q(want.back()); });
    t.check(g.done, [] { return std::string("not finished"); });
  }
  t.state(mc::comb(mc::hash(good ? enc : "bad"), way * 2 + enums));
}
bool plain(const std::string& s) {
  for (unsigned char c : s)
    if (c < 32 || c > 126 || c == '"' || c == '\\') return false;
  return true;
}
void enum_text(T& t, const std::string& s) {
  for (int any = 0; any < 2; ++any) {
    int n = 0;
    bool good = ref_enum(s, any, &n);
    for (int w = 0; w < kWays; ++w) {
      if (w >= kJson && !plain(s)) continue;
      value_case(t, w, "e", Value::Str(s), any, good, std::string("\x28") + (char)n);
    }
  }
}
void bytes_text(T& t, const std::string& s, int ways = kWays) {
  std::string d;
  bool good = ref_bytes(s, &d);
  for (int w = 0; w < ways; ++w) {
    if (w >= kJson && !plain(s)) continue;
    value_case(t, w, "b", Value::Str(s), s.size() & 1, good, field(7, d));
  }
}

// Unknown fields.
std::string to_json(const Node& n, bool top) {
  std::string o = top ? "" : "\"" + n.name + "\":";
  switch (n.op) {
    case kObj: case kList: {
      o += n.op == kObj ? "{" : "[";
      for (size_t i = 0; i < n.kids.size(); ++i) o += (i ? "," : "") + to_json(n.kids[i], n.op == kList);
      return o + (n.op == kObj ? "}" : "]");
    }
    default:
      if (n.v.kind == kNull) return o + "null";
      if (n.v.kind == kBool) return o + (n.v.b ? "true" : "false");
      if (n.v.kind == kInt64) return o + std::to_string(n.v.i);
      return o + "\"" + n.v.s + "\"";
  }
}
bool unknown(const Node& n) { return n.name[0] == 'x'; }
Node prune(const Node& n) {
  Node o = n;
  o.kids.clear();
  for (auto& k : n.kids)
    if (n.op == kList || !unknown(k)) o.kids.push_back(prune(k));
  return o;
}
Value I(int64_t x) {
  Value v;
  v.kind = kInt64;
  v.i = x;
  return v;
}
// Members of a message (unknown ones included), and of what is unknown.
const std::vector<Node>& labels(int depth, bool in_list) {
  static const std::vector<Node> members = {V("s", Value::Str("a")), V("i", I(7)), V("x", Value::Str("b")), V("xs", I(3)), V("x_null", Value::Null()), O("m"), O("x"), L("x_l")};
  return members;
}
// All messages of n nodes: known objects hold members, unknown ones anything.
void messages(int n, bool in_list, int depth, std::vector<Node>& cur, const std::function<void()>& f) {
  if (n == 0) return f();
  static const std::vector<Node> in_lists = {V("", I(1)), V("", Value::Str("c")), V("", Value::Null()), O("")};
  for (const Node& l : in_list ? in_lists : labels(depth, false)) {
    if (l.op == kVal) {
      cur.push_back(l);
      messages(n - 1, in_list, depth, cur, f);
      cur.pop_back();
      continue;
    }
    for (int k = 0; k < n; ++k) {
      std::vector<Node> in;
      messages(k, l.op == kList, depth + 1, in, [&] {
        Node m = l;
        m.kids = in;
        cur.push_back(m);
        messages(n - 1 - k, in_list, depth, cur, f);
        cur.pop_back();
      });
    }
  }
}
void unknown_case(T& t, const Node& root) {
  if (!t.begin([&] { return "body " + to_json(root, true); })) return;
  std::string want;
  if (!ct::JsonToMessage("mctest.M", to_json(prune(root), true), &want)) t.fail("error of the check: " + to_json(prune(root), true));
  Events e;
  emit(root, &e);
  std::string text = to_json(root, true), f3 = "\x1a" + std::string(1, (char)want.size()) + want;
  auto one = [&](const Got& g, const std::string& w, const char* what, size_t n = 1) {
    t.step();
    t.check(g.ok && g.msgs.size() == n && g.done, [&] { return std::string(what) + ": " + (g.ok ? "" : "rejected, ") + num(g.msgs.size()) + " messages"; });
    t.check(g.msgs.back() == w, [&] { return std::string(what) + ": " + mc::q(g.msgs.back()) + ", expected " + mc::q(w); });
  };
  one(unary(info("*", "", "", false), e), want, "as events");
  one(json(info("*", "", "", true), text, false), want, "as JSON");
  one(json(info("m", "", "", false), text, false), f3, "as body field");
  one(json(info("*", "", "", false), "[{}," + text + "]", true), want, "as an element of a stream", 2);
  one(json(info("m.m", "rm.s", "z", false), text, false), field(3, f3) + std::string("\x62\x03\x0a\x01z"), "as inner body field, with a binding");
  t.state(mc::hash(want));
}

std::vector<mc::Space> spaces(const mc::Options& o) {
  bool th = o.thorough();
  std::vector<mc::Space> v;
  static const char ea[] = "OoNnEe-_012";
  int le = kSan ? 3 : th ? 5 : 4;
  v.push_back({"enums", "every string of at most " + num(le) + " characters over {O,o,N,n,E,e,-,_,0,1,2} as an enum value, along 11 ways in, case-insensitive or not", 12, [=](T& t, uint64_t u) {
                 std::function<void(std::string&)> go = [&](std::string& s) {
                   enum_text(t, s);
                   if ((int)s.size() == le) return;
                   for (const char* c = ea; *c; ++c) {
                     s += *c;
                     go(s);
                     s.pop_back();
                   }
                 };
                 std::string s;
                 if (u == 0) return enum_text(t, s);
                 s = ea[u - 1];
                 go(s);
               }});
  v.push_back({"names", "every change of case of TWO_WORDS with \"_\", \"-\", nothing or a blank between, every prefix and one-character extension, and every byte in each place of ONE", 256 + 4, [=](T& t, uint64_t u) {
                 if (u < 256) {
                   for (int p = 0; p < 4; ++p) {
                     std::string s = "ONE", x = s;
                     if (p < 3) s[p] = (char)u, x[p] = (char)u;
                     else s += (char)u;
                     enum_text(t, s);
                     enum_text(t, (char)u + x);
                   }
                   return;
                 }
                 static const char* const sep[] = {"_", "-", "", " "};
                 for (int m = 0; m < 256; ++m) {
                   std::string s;
                   for (int i = 0; i < 8; ++i) {
                     if (i == 3) s += sep[u - 256];
                     s += m >> i & 1 ? "TWOWORDS"[i] : "twowords"[i];
                   }
                   enum_text(t, s);
                   if (m == 255 || m == 0 || m == 90)
                     for (size_t i = 0; i < s.size(); ++i) enum_text(t, s.substr(0, i)), enum_text(t, s.substr(i));
                 }
               }});
  static const char ba[] = "AbQ8+/-_= !";
  int lb = kSan ? 4 : th ? 7 : 5;
  int nb = sizeof ba - 1;
  v.push_back({"bytes", "every string of at most " + num(lb) + " characters over {A,b,Q,8,+,/,-,_,=,blank,!} as a bytes value, along 11 ways in", (uint64_t)nb * nb, [=](T& t, uint64_t u) {
                 std::function<void(std::string&)> go = [&](std::string& s) {
                   bytes_text(t, s);
                   if ((int)s.size() == lb) return;
                   for (const char* c = ba; *c; ++c) {
                     s += *c;
                     go(s);
                     s.pop_back();
                   }
                 };
                 std::string s;
                 if (u == 0) {
                   bytes_text(t, s);
                   for (const char* c = ba; *c; ++c) bytes_text(t, std::string(1, *c));
                 }
                 s = {ba[u / nb], ba[u % nb]};
                 go(s);
               }});
  v.push_back({"bytechars", "every byte but 0 and \".\" in each place of an encoding of 3, 4, 6, 7 or 8 characters; every pair of characters of the alphabets as an encoding of one byte, with and without padding", 256, [=](T& t, uint64_t u) {
                 if (u == 0 || u == '.') return;  // the library takes NUL for an end and a dot for padding
                 for (std::string s : {"QUJ", "QUJD", "QUJDRA", "QUJDREU", "QUJDREU=", "QUJDRA=="})
                   for (size_t p = 0; p <= s.size(); ++p) {
                     std::string x = s;
                     if (p < s.size()) x[p] = (char)u, bytes_text(t, x);
                     bytes_text(t, s.substr(0, p) + (char)u + s.substr(p));
                   }
                 for (int c = 0; c < 256; ++c)
                   if (isalnum(c) || strchr("+/-_", c) && c) {
                     std::string x = {(char)u, (char)c};
                     bytes_text(t, x, kSan ? 2 : kWays);
                     bytes_text(t, x + "==", kSan ? 2 : kWays);
                   }
               }});
  int len = kSan ? 100 : th ? 120 : 100;  // encodings of up to 100 bytes: one-byte lengths
  v.push_back({"bytelengths", "encodings of 0.." + num(len - 26) + " bytes, in both alphabets, padded or not, and with line breaks every 4, 5 or 76 characters", (uint64_t)len - 25, [=](T& t, uint64_t u) {
                 static const char a64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789";
                 for (int url = 0; url < 2; ++url)
                   for (int pad = 0; pad < 2; ++pad)
                     for (int seed = 0; seed < 3; ++seed) {
                       std::string d, s;
                       for (uint64_t i = 0; i < u; ++i) d += (char)(seed == 0 ? 0xff - i : seed == 1 ? i * 37 + 11 : 0xfb);
                       uint32_t acc = 0;
                       int bits = 0;
                       auto put = [&](int x) { s += x < 62 ? a64[x] : x == 62 ? "+-"[url] : "/_"[url]; };
                       for (unsigned char c : d) {
                         acc = acc << 8 | c;
                         bits += 8;
                         while (bits >= 6) bits -= 6, put(acc >> bits & 63);
                       }
                       if (bits) put(acc << (6 - bits) & 63);
                       if (pad)
                         while (s.size() % 4) s += '=';
                       std::string x;
                       if (!ref_bytes(s, &x) || x != d) t.fail("error of the check: base64");
                       for (int w = 0; w < kWays; ++w) value_case(t, w, "b", Value::Str(s), false, true, field(7, d));
                       for (size_t line : {4, 5, 76}) {
                         std::string br;
                         for (size_t i = 0; i < s.size(); ++i) br += (i && i % line == 0 ? "\r\n" : "") + std::string(1, s[i]);
                         for (int w = 0; w < kJson; ++w) value_case(t, w, "b", Value::Str(br), false, true, field(7, d));
                       }
                     }
               }});
  int nn = kSan ? 3 : th ? 6 : 5;
  v.push_back({"unknown", "every message of at most " + num(nn) + " nodes: known members s, i, m, unknown scalars, objects and lists (holding anything) anywhere, along 5 ways in; against the library's translation of what is known of it", (uint64_t)nn * 8 + 1, [=](T& t, uint64_t u) {
                 Node root = O("");
                 if (u == 0) return unknown_case(t, root);
                 int n = (u - 1) / 8 + 1, first = (u - 1) % 8;
                 std::vector<Node> cur;
                 messages(n, false, 0, cur, [&] {
                   if (!cur.empty()) {  // units by the first member
                     const auto& l = labels(0, false)[first];
                     if (cur[0].name != l.name || cur[0].op != l.op || cur[0].v.kind != l.v.kind) return;
                   }
                   root.kids = cur;
                   unknown_case(t, root);
                 });
               }});
  return v;
}
}  // namespace
int main(int c, char** v) { return mc::Main(c, v, spaces); }
