// Shared by the converter harnesses: a recording ObjectWriter, trees of body events, field types.
#ifndef CONV_H_
#define CONV_H_
#include <deque>
#include <memory>
#include <string>
#include <vector>

#include "google/protobuf/util/converter/object_writer.h"
#include "mc.h"

namespace conv {
namespace pb = google::protobuf;
namespace pc = google::protobuf::util::converter;

// kinds of scalars
enum Kind { kBool, kInt32, kUint32, kInt64, kUint64, kDouble, kFloat, kString, kBytes, kNull, kKinds };
inline const char* kind_name(int k) {
  static const char* const n[] = {"bool", "int32", "uint32", "int64", "uint64", "double", "float", "string", "bytes", "null"};
  return n[k];
}
struct Value {
  int kind = kNull;
  bool b = false;
  int64_t i = 0;
  uint64_t u = 0;
  double d = 0;
  std::string s;
  static Value Str(const std::string& s) {
    Value v;
    v.kind = kString;
    v.s = s;
    return v;
  }
  static Value Null() { return Value(); }
  static Value Of(int kind, int64_t x) {  // some value of that kind
    Value v;
    v.kind = kind;
    v.b = x & 1;
    v.i = x;
    v.u = x;
    v.d = kind == kFloat ? (float)(x + 0.5) : x + 0.5;
    v.s = "t" + std::to_string(x);
    return v;
  }
  std::string show() const {
    char buf[64];
    switch (kind) {
      case kBool: return b ? "bool true" : "bool false";
      case kInt32: case kInt64: return std::string(kind_name(kind)) + " " + std::to_string(i);
      case kUint32: case kUint64: return std::string(kind_name(kind)) + " " + std::to_string(u);
      case kDouble: case kFloat: snprintf(buf, sizeof buf, "%s %.17g", kind_name(kind), d); return buf;
      case kString: case kBytes: return std::string(kind_name(kind)) + " " + mc::q(s);
      default: return "null";
    }
  }
  bool operator==(const Value& o) const {
    if (kind != o.kind) return false;
    switch (kind) {
      case kBool: return b == o.b;
      case kInt32: case kInt64: return i == o.i;
      case kUint32: case kUint64: return u == o.u;
      case kDouble: case kFloat: return !memcmp(&d, &o.d, sizeof d);
      case kString: case kBytes: return s == o.s;
      default: return true;
    }
  }
  void render(pc::ObjectWriter* w, absl::string_view n) const {
    switch (kind) {
      case kBool: w->RenderBool(n, b); break;
      case kInt32: w->RenderInt32(n, (int32_t)i); break;
      case kUint32: w->RenderUint32(n, (uint32_t)u); break;
      case kInt64: w->RenderInt64(n, i); break;
      case kUint64: w->RenderUint64(n, u); break;
      case kDouble: w->RenderDouble(n, d); break;
      case kFloat: w->RenderFloat(n, (float)d); break;
      case kString: w->RenderString(n, s); break;
      case kBytes: w->RenderBytes(n, s); break;
      default: w->RenderNull(n); break;
    }
  }
};

enum Op { kObj, kEndObj, kList, kEndList, kVal };
struct Event {
  int op;
  std::string name;
  Value v;
  bool operator==(const Event& o) const { return op == o.op && name == o.name && (op != kVal || v == o.v); }
  std::string show() const {
    switch (op) {
      case kObj: return mc::q(name) + "{";
      case kEndObj: return "}";
      case kList: return mc::q(name) + "[";
      case kEndList: return "]";
      default: return mc::q(name) + "=" + v.show();
    }
  }
};
using Events = std::vector<Event>;
inline std::string show(const Events& e) {
  std::string o;
  for (auto& x : e) o += x.show() + " ";
  return o;
}
inline void play(const Event& e, pc::ObjectWriter* w) {
  switch (e.op) {
    case kObj: w->StartObject(e.name); break;
    case kEndObj: w->EndObject(); break;
    case kList: w->StartList(e.name); break;
    case kEndList: w->EndList(); break;
    default: e.v.render(w, e.name); break;
  }
}

class Recorder : public pc::ObjectWriter {
 public:
  Events ev;
  Recorder* StartObject(absl::string_view n) override { return put(kObj, n, Value()); }
  Recorder* EndObject() override { return put(kEndObj, "", Value()); }
  Recorder* StartList(absl::string_view n) override { return put(kList, n, Value()); }
  Recorder* EndList() override { return put(kEndList, "", Value()); }
  Recorder* RenderBool(absl::string_view n, bool x) override { Value v; v.kind = kBool; v.b = x; return put(kVal, n, v); }
  Recorder* RenderInt32(absl::string_view n, int32_t x) override { Value v; v.kind = kInt32; v.i = x; return put(kVal, n, v); }
  Recorder* RenderUint32(absl::string_view n, uint32_t x) override { Value v; v.kind = kUint32; v.u = x; return put(kVal, n, v); }
  Recorder* RenderInt64(absl::string_view n, int64_t x) override { Value v; v.kind = kInt64; v.i = x; return put(kVal, n, v); }
  Recorder* RenderUint64(absl::string_view n, uint64_t x) override { Value v; v.kind = kUint64; v.u = x; return put(kVal, n, v); }
  Recorder* RenderDouble(absl::string_view n, double x) override { Value v; v.kind = kDouble; v.d = x; return put(kVal, n, v); }
  Recorder* RenderFloat(absl::string_view n, float x) override { Value v; v.kind = kFloat; v.d = x; return put(kVal, n, v); }
  Recorder* RenderString(absl::string_view n, absl::string_view x) override { Value v; v.kind = kString; v.s = std::string(x); return put(kVal, n, v); }
  Recorder* RenderBytes(absl::string_view n, absl::string_view x) override { Value v; v.kind = kBytes; v.s = std::string(x); return put(kVal, n, v); }
  Recorder* RenderNull(absl::string_view n) override { return put(kVal, n, Value()); }

 private:
  Recorder* put(int op, absl::string_view n, const Value& v) {
    ev.push_back({op, std::string(n), v});
    return this;
  }
};

// Trees of events
struct Node {
  int op = kVal;  // kObj, kList or kVal
  std::string name;
  Value v;
  std::vector<Node> kids;
};
inline void emit(const Node& n, Events* o) {
  o->push_back({n.op, n.name, n.v});
  if (n.op == kVal) return;
  for (auto& k : n.kids) emit(k, o);
  o->push_back({n.op == kObj ? kEndObj : kEndList, "", Value()});
}
// The tree the events make; false if they are not well-formed (opened and closed in step, one root).
inline bool parse(const Events& e, Node* root) {
  std::vector<Node*> st;
  Node top;
  top.op = kList;
  st.push_back(&top);
  for (auto& x : e) {
    switch (x.op) {
      case kObj: case kList: {
        Node n;
        n.op = x.op;
        n.name = x.name;
        st.back()->kids.push_back(n);
        st.push_back(&st.back()->kids.back());
        break;
      }
      case kEndObj: case kEndList:
        if (st.size() < 2 || st.back()->op != (x.op == kEndObj ? kObj : kList)) return false;
        st.pop_back();
        break;
      default: {
        Node n;
        n.name = x.name;
        n.v = x.v;
        st.back()->kids.push_back(n);
      }
    }
  }
  if (st.size() != 1 || top.kids.size() != 1) return false;
  *root = top.kids[0];
  return true;
}

// Enumerates every ordered forest of exactly n nodes, labels per context given by Lab(depth, in_list) -> nodes to use.
using Lab = const std::vector<Node>& (*)(int depth, bool in_list);
inline void forests(int n, bool in_list, int depth, Lab lab, std::vector<Node>& cur, const std::function<void(const std::vector<Node>&)>& f) {
  if (n == 0) {
    f(cur);
    return;
  }
  for (const Node& l : lab(depth, in_list)) {
    if (l.op == kVal) {
      cur.push_back(l);
      forests(n - 1, in_list, depth, lab, cur, f);
      cur.pop_back();
    } else {
      for (int k = 0; k < n; ++k) {  // nodes inside
        std::vector<Node> in;
        forests(k, l.op == kList, depth + 1, lab, in, [&](const std::vector<Node>& kids) {
          Node m = l;
          m.kids = kids;
          cur.push_back(m);
          forests(n - 1 - k, in_list, depth, lab, cur, f);
          cur.pop_back();
        });
      }
    }
  }
}
inline Node V(const std::string& name, const Value& v) {
  Node n;
  n.name = name;
  n.v = v;
  return n;
}
inline Node O(const std::string& name) {
  Node n;
  n.op = kObj;
  n.name = name;
  return n;
}
inline Node L(const std::string& name) {
  Node n;
  n.op = kList;
  n.name = name;
  return n;
}
inline std::string num(size_t n) { return std::to_string(n); }
}  // namespace conv
#endif
