// Minimal JSON reader and writer for scripts and traces.  Strings carry bytes:
// code points 0..255 stand for the byte of that value (Latin-1).
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <string>
#include <utility>
#include <vector>
namespace mj {
struct V {
  enum T { NUL, BOOL, INT, STR, ARR, OBJ } t = NUL;
  bool b = false;
  long long i = 0;
  std::string s;
  std::vector<V> a;
  std::vector<std::pair<std::string, V>> o;
  const V* find(const char* k) const {
    for (auto& p : o)
      if (p.first == k) return &p.second;
    return nullptr;
  }
  const V& at(const char* k) const {
    auto* v = find(k);
    if (!v) {
      fprintf(stderr, "script: no member %s\n", k);
      exit(97);
    }
    return *v;
  }
  bool has(const char* k) const { return find(k) != nullptr; }
  long long num(const char* k, long long d) const {
    auto* v = find(k);
    return v ? v->i : d;
  }
  std::string str(const char* k, const std::string& d = "") const {
    auto* v = find(k);
    return v ? v->s : d;
  }
  bool flag(const char* k, bool d) const {
    auto* v = find(k);
    return v ? v->b : d;
  }
};
struct P {
  const char* p;
  const char* e;
  [[noreturn]] void bad() {
    fprintf(stderr, "script: bad JSON near %.40s\n", p);
    exit(97);
  }
  void ws() {
    while (p < e && (*p == ' ' || *p == '\n' || *p == '\t' || *p == '\r')) ++p;
  }
  V val() {
    ws();
    V v;
    if (p >= e) bad();
    if (*p == '{') {
      v.t = V::OBJ;
      ++p;
      ws();
      if (*p == '}') {
        ++p;
        return v;
      }
      for (;;) {
        ws();
        std::string k = str();
        ws();
        if (*p++ != ':') bad();
        v.o.emplace_back(std::move(k), val());
        ws();
        if (*p == ',') {
          ++p;
          continue;
        }
        if (*p++ == '}') return v;
        bad();
      }
    }
    if (*p == '[') {
      v.t = V::ARR;
      ++p;
      ws();
      if (*p == ']') {
        ++p;
        return v;
      }
      for (;;) {
        v.a.push_back(val());
        ws();
        if (*p == ',') {
          ++p;
          continue;
        }
        if (*p++ == ']') return v;
        bad();
      }
    }
    if (*p == '"') {
      v.t = V::STR;
      v.s = str();
      return v;
    }
    if (*p == 't') {
      p += 4;
      v.t = V::BOOL;
      v.b = true;
      return v;
    }
    if (*p == 'f') {
      p += 5;
      v.t = V::BOOL;
      return v;
    }
    if (*p == 'n') {
      p += 4;
      return v;
    }
    char* q;
    v.t = V::INT;
    v.i = strtoll(p, &q, 10);
    if (q == p) bad();
    p = q;
    return v;
  }
  std::string str() {
    if (*p != '"') bad();
    ++p;
    std::string r;
    while (*p != '"') {
      unsigned char c = *p++;
      unsigned cp;
      if (c == '\\') {
        char d = *p++;
        switch (d) {
          case 'n': cp = '\n'; break;
          case 't': cp = '\t'; break;
          case 'r': cp = '\r'; break;
          case 'b': cp = '\b'; break;
          case 'f': cp = '\f'; break;
          case 'u': cp = strtoul(std::string(p, 4).c_str(), nullptr, 16); p += 4; break;
          default: cp = d;
        }
      } else {
        cp = c;
      }
      if (cp > 255) bad();
      r.push_back(static_cast<char>(cp));
    }
    ++p;
    return r;
  }
};
inline V parse(const std::string& line) {
  P p{line.data(), line.data() + line.size()};
  return p.val();
}
inline void esc(std::string& out, const std::string& s) {
  out += '"';
  char b[8];
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      out += '\\';
      out += c;
    } else if (c < 32 || c > 126) {
      snprintf(b, sizeof b, "\\u%04x", c);
      out += b;
    } else {
      out += c;
    }
  }
  out += '"';
}
inline std::string q(const std::string& s) {
  std::string o;
  esc(o, s);
  return o;
}
inline void dump(std::string& out, const V& v) {
  switch (v.t) {
    case V::NUL: out += "null"; break;
    case V::BOOL: out += v.b ? "true" : "false"; break;
    case V::INT: out += std::to_string(v.i); break;
    case V::STR: esc(out, v.s); break;
    case V::ARR: {
      out += '[';
      bool f = true;
      for (auto& x : v.a) {
        if (!f) out += ',';
        f = false;
        dump(out, x);
      }
      out += ']';
      break;
    }
    case V::OBJ: {
      out += '{';
      bool f = true;
      for (auto& x : v.o) {
        if (!f) out += ',';
        f = false;
        esc(out, x.first);
        out += ':';
        dump(out, x.second);
      }
      out += '}';
      break;
    }
  }
}
}  // namespace mj
