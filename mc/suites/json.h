// An independent strict JSON reader.
#pragma once
#include "common.h"
struct JV { enum T { NUL, BOOL, NUM, STR, ARR, OBJ } t = NUL; bool b = false; str s; std::vector<JV> a; std::vector<std::pair<str, JV>> o; const JV *get(const str &k) const { for (auto &p : o) if (p.first == k) return &p.second; return nullptr; } };
struct JParse {
  const str &s; size_t p = 0; str err; explicit JParse(const str &x) : s(x) {}
  bool fail(const char *m) { if (err.empty()) err = strf("%s at offset %zu", m, p); return false; }
  void ws() { while (p < s.size() && (s[p] == ' ' || s[p] == '\t' || s[p] == '\n' || s[p] == '\r')) p++; }
  bool string(str &o) {
    if (p >= s.size() || s[p] != '"') return fail("string expected"); p++;
    while (p < s.size() && s[p] != '"') {
      unsigned char c = s[p];
      if (c < 32) return fail("unescaped control character in string");
      if (c != '\\') { o += (char)c; p++; continue; }
      if (++p >= s.size()) return fail("unterminated escape");
      switch (s[p]) {
        case '"': case '\\': case '/': o += s[p]; p++; break;
        case 'b': o += '\b'; p++; break; case 'f': o += '\f'; p++; break; case 'n': o += '\n'; p++; break; case 'r': o += '\r'; p++; break; case 't': o += '\t'; p++; break;
        case 'u': { if (p + 4 >= s.size()) return fail("short \\u escape"); unsigned v = 0; for (int k = 1; k <= 4; k++) { char h = s[p + k]; int d = h >= '0' && h <= '9' ? h - '0' : h >= 'a' && h <= 'f' ? h - 'a' + 10 : h >= 'A' && h <= 'F' ? h - 'A' + 10 : -1; if (d < 0) return fail("bad \\u escape"); v = v * 16 + d; } p += 5; if (v < 0x80) o += (char)v; else if (v < 0x800) { o += (char)(0xc0 | v >> 6); o += (char)(0x80 | (v & 63)); } else { o += (char)(0xe0 | v >> 12); o += (char)(0x80 | (v >> 6 & 63)); o += (char)(0x80 | (v & 63)); } break; }
        default: return fail("unknown escape");
      }
    }
    if (p >= s.size()) return fail("unterminated string"); p++; return true;
  }
  bool value(JV &v, int depth = 0) {
    ws(); if (depth > 50) return fail("too deep"); if (p >= s.size()) return fail("value expected");
    char c = s[p];
    if (c == '"') { v.t = JV::STR; return string(v.s); }
    if (c == '[') { v.t = JV::ARR; p++; ws(); if (p < s.size() && s[p] == ']') { p++; return true; } for (;;) { v.a.emplace_back(); if (!value(v.a.back(), depth + 1)) return false; ws(); if (p < s.size() && s[p] == ',') { p++; continue; } if (p < s.size() && s[p] == ']') { p++; return true; } return fail(", or ] expected"); } }
    if (c == '{') { v.t = JV::OBJ; p++; ws(); if (p < s.size() && s[p] == '}') { p++; return true; } for (;;) { ws(); str k; if (!string(k)) return false; ws(); if (p >= s.size() || s[p] != ':') return fail(": expected"); p++; v.o.push_back({k, JV()}); if (!value(v.o.back().second, depth + 1)) return false; ws(); if (p < s.size() && s[p] == ',') { p++; continue; } if (p < s.size() && s[p] == '}') { p++; return true; } return fail(", or } expected"); } }
    for (auto w : {"true", "false", "null"}) if (s.compare(p, strlen(w), w) == 0) { p += strlen(w); v.t = *w == 'n' ? JV::NUL : JV::BOOL; v.b = *w == 't'; return true; }
    size_t q = p; if (p < s.size() && s[p] == '-') p++; size_t d0 = p; while (p < s.size() && isdigit((unsigned char)s[p])) p++; if (p == d0) return fail("value expected"); if (s[d0] == '0' && p - d0 > 1) return fail("number with leading zero");
    v.t = JV::NUM; v.s = s.substr(q, p - q); return true;
  }
};
inline bool json_read(const str &s, JV &v, str &err) { JParse j(s); if (!j.value(v)) { err = j.err; return false; } j.ws(); if (j.p != s.size()) { err = strf("text after the value at offset %zu", j.p); return false; } return true; }
