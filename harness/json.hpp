// Minimal JSON value, parser and writer for the conformance driver.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <utility>
#include <vector>
struct J {
  enum T { NUL, BOOL, INT, STR, ARR, OBJ } t = NUL;
  bool b = false;
  long long n = 0;
  std::string s;
  std::vector<J> a;
  std::vector<std::pair<std::string, J>> o;
  J() {}
  J(int v) : t(INT), n(v) {}
  J(long v) : t(INT), n(v) {}
  J(long long v) : t(INT), n(v) {}
  J(size_t v) : t(INT), n((long long)v) {}
  J(bool v) : t(BOOL), b(v) {}
  J(const char* v) : t(STR), s(v) {}
  J(const std::string& v) : t(STR), s(v) {}
  static J arr() { J j; j.t = ARR; return j; }
  static J obj() { J j; j.t = OBJ; return j; }
  J& push(J v) & { a.push_back(std::move(v)); return *this; }
  J&& push(J v) && { a.push_back(std::move(v)); return std::move(*this); }
  J& set(const char* k, J v) & { o.emplace_back(k, std::move(v)); return *this; }
  J&& set(const char* k, J v) && { o.emplace_back(k, std::move(v)); return std::move(*this); }
  const J& at(size_t i) const {
    if (t != ARR || i >= a.size()) { fprintf(stderr, "DRIVER: bad index %zu\n", i); _exit(77); }
    return a[i];
  }
  const J& operator[](const char* k) const {
    for (auto& p : o) if (p.first == k) return p.second;
    fprintf(stderr, "DRIVER: missing key %s\n", k);
    _exit(77);
  }
  size_t size() const { return a.size(); }
  int i() const { if (t != INT) { fprintf(stderr, "DRIVER: not an int\n"); _exit(77);} return (int)n; }
  const std::string& str() const { if (t != STR) { fprintf(stderr, "DRIVER: not a string\n"); _exit(77);} return s; }
  void esc(std::string& out, const std::string& v) const {
    out += '"';
    for (unsigned char c : v) {
      char buf[8];
      if (c == '"' || c == '\\') { out += '\\'; out += (char)c; }
      else if (c == '\n') out += "\\n";
      else if (c == '\t') out += "\\t";
      else if (c < 0x20 || c >= 0x7f) { snprintf(buf, sizeof buf, "\\u%04x", c); out += buf; }
      else out += (char)c;
    }
    out += '"';
  }
  void dump(std::string& out) const {
    switch (t) {
      case NUL: out += "null"; break;
      case BOOL: out += b ? "true" : "false"; break;
      case INT: out += std::to_string(n); break;
      case STR: esc(out, s); break;
      case ARR: out += '['; for (size_t k = 0; k < a.size(); k++) { if (k) out += ','; a[k].dump(out);} out += ']'; break;
      case OBJ: out += '{'; for (size_t k = 0; k < o.size(); k++) { if (k) out += ','; esc(out, o[k].first); out += ':'; o[k].second.dump(out);} out += '}'; break;
    }
  }
  std::string dump() const { std::string r; dump(r); return r; }
};
struct JP {
  const char* p;
  void ws() { while (*p == ' ' || *p == '\n' || *p == '\t' || *p == '\r') p++; }
  [[noreturn]] void bad() { fprintf(stderr, "DRIVER: bad json near %.20s\n", p); _exit(77); }
  std::string string() {
    std::string r; p++;
    while (*p && *p != '"') {
      if (*p == '\\') {
        p++;
        switch (*p) {
          case 'n': r += '\n'; break; case 't': r += '\t'; break; case 'r': r += '\r'; break;
          case 'b': r += '\b'; break; case 'f': r += '\f'; break;
          case 'u': { unsigned v; if (sscanf(p + 1, "%4x", &v) != 1) bad(); r += (char)v; p += 4; break; }
          default: r += *p;
        }
        p++;
      } else r += *p++;
    }
    if (*p != '"') bad();
    p++;
    return r;
  }
  J parse() {
    ws(); J j;
    if (*p == '{') { j.t = J::OBJ; p++; ws(); if (*p == '}') { p++; return j; }
      for (;;) { ws(); if (*p != '"') bad(); std::string k = string(); ws(); if (*p != ':') bad(); p++; J v = parse(); j.o.emplace_back(k, std::move(v)); ws(); if (*p == ',') { p++; continue; } if (*p == '}') { p++; return j; } bad(); } }
    if (*p == '[') { j.t = J::ARR; p++; ws(); if (*p == ']') { p++; return j; }
      for (;;) { j.a.push_back(parse()); ws(); if (*p == ',') { p++; continue; } if (*p == ']') { p++; return j; } bad(); } }
    if (*p == '"') { j.t = J::STR; j.s = string(); return j; }
    if (!strncmp(p, "true", 4)) { p += 4; return J(true); }
    if (!strncmp(p, "false", 5)) { p += 5; return J(false); }
    if (!strncmp(p, "null", 4)) { p += 4; return J(); }
    char* e; long long v = strtoll(p, &e, 10); if (e == p) bad(); p = e; return J(v);
  }
};
