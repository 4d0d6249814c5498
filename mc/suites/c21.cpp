// C21: JSON builders produce well-formed JSON with the given values.
#include "json.h"
#include "duo.h"
#include <limits.h>
extern "C" { void mc_free(void *); void *mc_malloc(size_t); char *mc_strdup(const char *); }

static str take(char *p) { str s = S(p); mc_free(p); return s; }
static Result decode(const str &t, JV &v) { str e; if (!json_read(t, v, e)) return bad("not well-formed JSON (%s): %s", e.c_str(), esc(t, 300).c_str()); return good(); }
// contents: special strings used everywhere
static const strs &vals() {
  static strs v; if (!v.empty()) return v;
  v = {"", "a", "plain text", "\"", "\\", "\"quoted\"", "back\\slash", "\n", "\r\n", "\t", "\x01", "\x1f", "\x7f", "/", "</script>", "%s%d%n", "%%", "\\\"", "\\\\\"", "\\n", "\\u0041", "{}", "[1,2]", "\",\"", "\":\"", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "null", "'", " ", "a\"b\\c\nd", rep("\"", 40), rep("\x02", 40), rep("x", 300)};
  return v;
}
static Result kv(const str &k, const str &v) {
  begin(); Buf a = Buf::z(k), b = Buf::z(v); str t = take(json_key_value(a, b)); if (str(a.p) != k || str(b.p) != v) return bad("the given strings were changed"); JV j; Result r = decode("{" + t + "}", j); if (!r.ok) return r;
  if (j.t != JV::OBJ || j.o.size() != 1) return bad("not one pair: %s", esc(t).c_str()); if (j.o[0].first != k) return bad("the key decodes to %s", esc(j.o[0].first).c_str()); if (j.o[0].second.t != JV::STR || j.o[0].second.s != v) return bad("the value decodes to %s", esc(j.o[0].second.s).c_str()); return good();
}
static Result strings(const strs &v) {
  begin(); std::vector<Buf> B; for (auto &s : v) B.push_back(Buf::z(s)); Buf arr(str(v.size() * sizeof(char *), 0)); for (size_t k = 0; k < v.size(); k++) ((char **)arr.p)[k] = B[k]; str t = take(json_array_of_strings((char **)arr.p, (int)v.size())); JV j; Result r = decode(t, j); if (!r.ok) return r;
  if (j.t != JV::ARR || j.a.size() != v.size()) return bad("%zu elements instead of %zu: %s", j.a.size(), v.size(), esc(t, 200).c_str()); for (size_t k = 0; k < v.size(); k++) { if (j.a[k].t != JV::STR || j.a[k].s != v[k]) return bad("element %zu is %s instead of %s", k, esc(j.a[k].s).c_str(), esc(v[k]).c_str()); if (str(B[k].p) != v[k]) return bad("the given strings were changed"); } return good();
}
static Result entities(const strs &v) {   // v: JSON texts
  begin(); json_list_t l; l.size = (int)v.size(); Buf arr(str(v.size() * sizeof(void *), 0)); l.elements = (void **)arr.p; for (size_t k = 0; k < v.size(); k++) l.elements[k] = (void *)&v[k]; l.serializer = [](void *o) -> char * { return mc_strdup(((str *)o)->c_str()); };
  str t = take(json_array_of_entities(l)); str want = "["; for (size_t k = 0; k < v.size(); k++) want += (k ? "," : "") + v[k]; want += "]"; JV a, b; Result r = decode(t, a); if (!r.ok) return r; r = decode(want, b); if (!r.ok) return bad("harness: %s", r.msg.c_str());
  std::function<bool(const JV &, const JV &)> eq = [&](const JV &x, const JV &y) { if (x.t != y.t || x.b != y.b || x.s != y.s || x.a.size() != y.a.size() || x.o.size() != y.o.size()) return false; for (size_t k = 0; k < x.a.size(); k++) if (!eq(x.a[k], y.a[k])) return false; for (size_t k = 0; k < x.o.size(); k++) if (x.o[k].first != y.o[k].first || !eq(x.o[k].second, y.o[k].second)) return false; return true; };
  if (!eq(a, b)) return bad("decodes to something else: %s instead of %s", esc(t, 200).c_str(), esc(want, 200).c_str()); return good();
}
static Result number(const char *what, const str &key, char *json, const str &want) {
  str t = take(json); JV j; Result r = decode("{" + t + "}", j); if (!r.ok) return r; if (j.o.size() != 1 || j.o[0].first != key) return bad("%s: the key decodes to %s", what, j.o.empty() ? "nothing" : esc(j.o[0].first).c_str()); const JV &v = j.o[0].second; str got = v.t == JV::NUM ? v.s : v.t == JV::BOOL ? (v.b ? "true" : "false") : "something else"; if (got != want) return bad("%s: the value is %s instead of %s", what, esc(t, 100).c_str(), want.c_str()); return good();
}
// ---- every string of length 0..2, as value, key and array element
static void s_short(long i, Ctx &c) {
  strs v; if (i == 255) v = {""}; else for (int b = 0; b <= 255; b++) v.push_back(b ? str(1, (char)(i + 1)) + (char)b : str(1, (char)(i + 1)));
  for (auto &s : v) { c.desc = "string " + esc(s); c.outcome(fnv(s)); c.one([&] { return kv("k", s); }); c.one([&] { return kv(s, "v"); }); c.one([&] { return strings({s}); }); }
  c.desc = strf("array of all strings starting with byte %ld", i + 1); c.one([&] { return strings(v); });
}
static void s_words(long i, Ctx &c) {
  static const strs A = {"\"", "\\", "a", "\n", "\x01", "/", "u0041", ",", "\xc3\xa9"}; auto w = word(i, 9, 0); str s; for (int x : w) s += A[x]; c.desc = "string " + esc(s); c.outcome(fnv(s)); c.one([&] { return kv(s, s); }); c.one([&] { return strings({s, "x", s}); });
}
static void s_lengths(long i, Ctx &c) {
  static const strs A = {"a", "\"", "\\", "\x01", "\xc3\xa9", "a\"", "\xff"}; Mix m(i); const str &a = A[m(7)]; int n = (int)m.n; str s = rep(a, n / a.size() + 1).substr(0, n); c.desc = strf("string of %d bytes of %s", n, esc(a).c_str()); c.outcome(i); c.one([&] { return kv(s, s); }); c.one([&] { return kv("k", s); }); c.one([&] { return strings({s}); }); c.one([&] { return strings({s, s}); }); if (n > 0) c.one([&] { return number("int", s, ({ Buf b = Buf::z(s); json_key_value_int(b, INT_MIN); }), "-2147483648"); });
}
static void s_pairs(long i, Ctx &c) { Mix m(i); int n = (int)vals().size(); str a = vals()[m(n)], b = vals()[m(n)]; c.desc = "key " + esc(a, 60) + ", value " + esc(b, 60); c.outcome(i); c.one([&] { return kv(a, b); }); c.one([&] { return strings({a, b}); }); c.one([&] { return strings({b, "", a}); }); }
// ---- arrays
static void s_arrays(long i, Ctx &c) { static const strs A = {"", "a", "\"", "\\", "\",\"", "\n", rep("y", 90)}; auto w = word(i, 7, 0); strs v; for (int x : w) v.push_back(A[x]); c.desc = strf("array of %zu strings", v.size()); for (auto &s : v) c.desc += " " + esc(s, 10); c.outcome(i); c.one([&] { return strings(v); }); }
static void s_counts(long i, Ctx &c) {
  Mix m(i); int kind = m(4); int n = (int)m.n; c.desc = strf("array of %d elements, kind %d", n, kind); c.outcome(i); strs v; for (int k = 0; k < n; k++) v.push_back(kind == 0 ? "" : kind == 1 ? strf("%d", k) : kind == 2 ? "\"" : pat(k % 40, k)); c.one([&] { return strings(v); });
  strs e; for (int k = 0; k < n; k++) e.push_back(kind == 0 ? "{}" : kind == 1 ? strf("%d", k) : kind == 2 ? "\"" + pat(k % 700) + "\"" : strf("{\"id\":%d,\"l\":[1,{\"x\":null}]}", k)); c.one([&] { return entities(e); });
}
static void s_entities(long i, Ctx &c) { static const strs A = {"{}", "[]", "null", "\"\"", "-1", "{\"a\":\"%s\"}", "\"" + rep("z", 511) + "\"", "\"" + rep("z", 3000) + "\""}; auto w = word(i, 8, 0); strs v; for (int x : w) v.push_back(A[x]); c.desc = strf("%zu entities", v.size()); c.outcome(i); c.one([&] { return entities(v); }); }
// ---- numbers
static const std::vector<long long> &numbers() { static std::vector<long long> v; if (v.empty()) { for (long long k = -1100; k <= 1100; k++) v.push_back(k); for (int b = 0; b < 33; b++) for (int d = -2; d <= 2; d++) for (int s : {1, -1}) v.push_back(s * ((1ll << b) + d)); long long p = 1; for (int k = 0; k < 10; k++, p *= 10) for (int d = -1; d <= 1; d++) for (int s : {1, -1}) v.push_back(s * (p + d)); } return v; }
static void s_numbers(long i, Ctx &c) {
  long long n = numbers()[i]; c.desc = strf("number %lld", n); c.outcome(i);
  for (auto &k : {str("k"), str("a\"b"), str(""), rep("\n", 50)}) { Buf b = Buf::z(k);
    if (n >= INT_MIN && n <= INT_MAX) c.one([&] { begin(); return number("int", k, json_key_value_int(b, (int)n), strf("%lld", n)); });
    if (n >= 0 && n <= UINT_MAX) c.one([&] { begin(); return number("uint32", k, json_key_value_uint32_t(b, (uint32_t)n), strf("%lld", n)); });
    c.one([&] { begin(); return number("bool", k, json_key_value_bool(b, n & 1), n & 1 ? "true" : "false"); }); }
}
static Result ints(const std::vector<int> &v, int level = LOG_INFO) {
  begin(); log_set_level(level); Buf b(str((const char *)v.data(), v.size() * sizeof(int))); str t = take(json_array_of_ints((int *)b.p, (int)v.size())); JV j; Result r = decode(t, j); if (!r.ok) return r; if (j.t != JV::ARR || j.a.size() != v.size()) return bad("%zu elements instead of %zu: %s", j.a.size(), v.size(), esc(t, 100).c_str()); for (size_t k = 0; k < v.size(); k++) if (j.a[k].t != JV::NUM || j.a[k].s != strf("%d", v[k])) return bad("element %zu is %s instead of %d", k, j.a[k].s.c_str(), v[k]); return good();
}
static void s_ints(long i, Ctx &c) { static const int A[] = {0, -1, 1, INT_MAX, INT_MIN, 10, -2000000000}; auto w = word(i, 7, 0); std::vector<int> v; for (int x : w) v.push_back(A[x]); c.desc = strf("array of %zu integers", v.size()); c.outcome(i); c.one([&] { return ints(v, i & 1 ? LOG_INFO : LOG_DEBUG); }); }
static void s_icounts(long i, Ctx &c) { Mix m(i); int kind = m(3), n = (int)m.n; std::vector<int> v; for (int k = 0; k < n; k++) v.push_back(kind == 0 ? k : kind == 1 ? INT_MIN + k : -k * 1000003); c.desc = strf("array of %d integers, kind %d", n, kind); c.outcome(i); c.one([&] { return ints(v); }); }
static void s_empty(long i, Ctx &c) {
  c.desc = strf("no elements, case %ld", i); c.one([&] { begin(); JV j; str t; int one = 1; char *s = (char *)"x"; static const int N[] = {0, -1, INT_MIN, 3}; int n = N[i % 4]; if (i < 4) t = take(json_array_of_strings(n == 3 ? nullptr : &s, n)); else if (i < 8) t = take(json_array_of_ints(n == 3 ? nullptr : &one, n)); else { json_list_t l; l.size = 0; l.elements = nullptr; l.serializer = nullptr; t = take(json_array_of_entities(l)); } c.outcome(fnv(t)); Result r = decode(t, j); if (!r.ok) return r; if (j.t != JV::ARR || !j.a.empty()) return bad("not an empty array: %s", esc(t).c_str()); return good(); });
}
// ---- error objects and call responses
static Result error_object(const str &code, const str &msg) {
  begin(); Buf a = Buf::z(code), b = Buf::z(msg); wayuu_error_t *e = new_error_with_values(a, b); str t = take(wayuu_error_t_json_serializer(e)); mc_free(e); JV j; Result r = decode(t, j); if (!r.ok) return r;
  str wc = code.empty() ? "UNKNOWN" : code.substr(0, HTTP_MAX_ERROR_CODE_LEN - 1), wm = msg.substr(0, HTTP_MAX_ERROR_MSG_LEN - 1); if (j.t != JV::OBJ || j.o.size() != 2) return bad("not an object of two members: %s", esc(t, 200).c_str()); const JV *x = j.get("code"), *y = j.get("message"); if (!x || x->t != JV::STR || x->s != wc) return bad("code decodes to %s instead of %s", x ? esc(x->s).c_str() : "nothing", esc(wc).c_str()); if (!y || y->t != JV::STR || y->s != wm) return bad("message decodes to %s instead of %s", y ? esc(y->s, 200).c_str() : "nothing", esc(wm, 200).c_str()); return good();
}
static void s_errors(long i, Ctx &c) { Mix m(i); int n = (int)vals().size(); str a = vals()[m(n)], b = vals()[m(n)]; if (a.size() > 63) return; c.desc = "error with code " + esc(a, 60) + ", message " + esc(b, 60); c.outcome(i); c.one([&] { return error_object(a, b); }); }
static void s_errlen(long i, Ctx &c) { static const strs A = {"a", "\"", "\x01", "a\\"}; Mix m(i); const str &a = A[m(4)]; int which = m(2), n = (int)m.n; if (which && n > 70) return; str s = rep(a, n / a.size() + 1).substr(0, n); c.desc = strf("error with a %s of %d characters", which ? "code" : "message", n); c.outcome(i); c.one([&] { return which ? error_object(s, "m") : error_object("C", s); }); }
static Result response(int st, const str &text, const str &desc, const str *info) {
  begin(); call_response_t r; memset(&r, 0x41, sizeof r); r.status = st; strcpy(r.text, text.c_str()); strcpy(r.description, desc.c_str()); Buf ib = Buf::z(info ? *info : ""); r.additional_info = info ? ib.p : nullptr; str t = take(return_response(r)); JV j; Result x = decode(t, j); if (!x.ok) return x;
  str want = st == RSP_DONE ? "OK" : st == RSP_ERROR ? "ERROR" : st == RSP_WARN ? "WARNING" : "FAIL"; auto is = [&](const char *k, const str &v) { const JV *p = j.get(k); return p && p->t == JV::STR && p->s == v; }; if (j.t != JV::OBJ) return bad("not an object");
  for (auto &p : j.o) { int k = 0; for (auto &q : j.o) k += p.first == q.first; if (k > 1) return bad("member %s twice: %s", p.first.c_str(), esc(t, 200).c_str()); if (p.first != "RSP" && p.first != "info" && p.first != "description" && p.first != "data") return bad("unexpected member %s", esc(p.first).c_str()); }
  if (!is("RSP", want)) return bad("RSP is not %s: %s", want.c_str(), esc(t, 200).c_str()); if (text.empty() ? (j.get("info") && !is("info", "")) : !is("info", text)) return bad("info is wrong: %s", esc(t, 300).c_str()); if (desc.empty() ? (j.get("description") && !is("description", "")) : !is("description", desc)) return bad("description is wrong: %s", esc(t, 500).c_str());
  const JV *d = j.get("data"); if (!d) return bad("no data: %s", esc(t, 200).c_str()); if (!info) { if (d->t != JV::STR || !d->s.empty()) return bad("data is not empty: %s", esc(t, 200).c_str()); } else { size_t p = t.find("\"data\":"); for (;;) { size_t q = t.find("\"data\":", p + 1); if (q == str::npos) break; p = q; } if (!has(t, *info)) return bad("data is not the given text: %s", esc(t, 200).c_str()); } return good();
}
static const strs INFO = {"{}", "[]", "null", "12", "\"text\"", "{\"k\":[1,2,{\"z\":\"\\\"\"}]}", "[\"%s\"]"};
static void s_responses(long i, Ctx &c) { Mix m(i); int st = m(9) - 3, n = (int)vals().size(); str a = vals()[m(n)], b = vals()[m(n)]; int k = m(3); if (a.size() > 49 || b.size() > 255) return; const str *info = k == 0 ? nullptr : &INFO[(i + k) % 7]; c.desc = strf("status %d, text %s, description %s, data %s", st, esc(a, 40).c_str(), esc(b, 40).c_str(), info ? info->c_str() : "none"); c.outcome(i); c.one([&] { return response(st, a, b, info); }); }
static void s_resplen(long i, Ctx &c) { static const strs A = {"a", "\"", "\x01", "\xc3\xa9"}; Mix m(i); const str &a = A[m(4)]; int n = m(256), t = m(3); str s = rep(a, n / a.size() + 1).substr(0, n); str tx = t == 0 ? "" : t == 1 ? s.substr(0, 49) : rep(a, 50).substr(0, 49); if (a.size() == 2) { tx.resize(tx.size() / 2 * 2); s.resize(s.size() / 2 * 2); } c.desc = strf("text of %zu and description of %zu characters", tx.size(), s.size()); c.outcome(i); c.one([&] { return response(0, tx, s, nullptr); }); str big = "\"" + pat(n * 40) + "\""; c.one([&] { return response(2, tx, s, &big); }); }
static void s_status(long i, Ctx &c) { static const int X[] = {INT_MIN, INT_MAX, 1000, -1000, 256, 255, 3, -1}; int st = i < 8 ? X[i] : (int)i - 108; c.desc = strf("status %d", st); c.outcome(i); c.one([&] { return response(st, "t", "d", nullptr); }); }
static struct Reg {
  Reg() {
    auto P = [](const char *n, long q, long t, void (*f)(long, Ctx &), const char *b, const char *bt = "") { add_suite({"C21", n, [q, t](bool th) { return th ? t : q; }, f, 60, b, bt}); };
    P("all-short-strings", 256, 256, s_short, "all strings of length 0..2 as value, as key and as array element; arrays of 256 strings");
    P("words", npaths(9, 5), npaths(9, 6), s_words, "all sequences of 0..5 of 9 special fragments", "0..6");
    P("lengths", 7 * 1200, 7 * 5000, s_lengths, "strings of 0..1199 bytes of 7 kinds", "0..4999 bytes");
    P("pairs", 35 * 35, 35 * 35, s_pairs, "all pairs of 35 special strings as key and value and in arrays");
    P("string-arrays", npaths(7, 5), npaths(7, 6), s_arrays, "all arrays of 0..5 of 7 strings", "0..6");
    P("array-sizes", 4 * 600, 4 * 2500, s_counts, "string and entity arrays of 0..599 elements of 4 kinds", "0..2499 elements");
    P("entity-arrays", npaths(8, 5), npaths(8, 6), s_entities, "all arrays of 0..5 of 8 entities of up to 3000 characters", "0..6");
    P("numbers", (long)numbers().size(), (long)numbers().size(), s_numbers, "2591 integers (all of -1100..1100, around every power of two and ten) as int and uint32 under 4 keys, booleans");
    P("int-arrays", npaths(7, 5), npaths(7, 6), s_ints, "all arrays of 0..5 of 7 integers, with debug logging on and off", "0..6");
    P("int-array-sizes", 3 * 1200, 3 * 5000, s_icounts, "arrays of 0..1199 integers of 3 kinds", "0..4999");
    P("empty-arrays", 9, 9, s_empty, "NULL, zero and negative sizes");
    P("error-objects", 35 * 35, 35 * 35, s_errors, "all pairs of 35 special strings as code and message");
    P("error-lengths", 8 * 1100, 8 * 1100, s_errlen, "messages of 0..1099 and codes of 0..70 characters of 4 kinds");
    P("call-responses", 9 * 35 * 35 * 3, 9 * 35 * 35 * 3, s_responses, "9 statuses x pairs of 35 strings as text and description x with and without data");
    P("call-response-lengths", 4 * 256 * 3, 4 * 256 * 3, s_resplen, "texts of 0..49 and descriptions of 0..255 characters of 4 kinds, data of up to 10 kB");
    auto V = [](int k) { return vals()[(k * 5 + 3) % vals().size()]; };
    duo_suite("C21", {{"json_key_value", [V](int k) { Buf a = Buf::z(V(k)), b = Buf::z(V(k + 1) + strf("%d", k)); return take(json_key_value(a, b)); }},
      {"json_key_value_int", [V](int k) { Buf a = Buf::z(V(k)); return take(json_key_value_int(a, k * 100003 - 7)) + take(json_key_value_uint32_t(a, k * 77777u)) + take(json_key_value_bool(a, k & 1)); }},
      {"json_array_of_strings", [V](int k) { std::vector<Buf> B; for (int j = 0; j <= k; j++) B.push_back(Buf::z(V(k + j))); std::vector<char *> p; for (auto &b : B) p.push_back(b); Buf arr(str((char *)p.data(), p.size() * sizeof(char *))); return take(json_array_of_strings((char **)arr.p, (int)p.size())); }},
      {"json_array_of_ints", [](int k) { std::vector<int> v; for (int j = 0; j < 3 + 40 * k; j++) v.push_back(j * 1009 * (k + 1)); Buf arr(str((char *)v.data(), v.size() * sizeof(int))); return take(json_array_of_ints((int *)arr.p, (int)v.size())); }},
      {"json_array_of_entities", [](int k) { std::vector<str> v; for (int j = 0; j < 1 + k; j++) v.push_back(strf("{\"id\":%d,\"k\":\"%s\"}", j, pat(200 * k, k).c_str())); json_list_t l; l.size = (int)v.size(); std::vector<void *> p; for (auto &x : v) p.push_back(&x); Buf arr(str((char *)p.data(), p.size() * sizeof(void *))); l.elements = (void **)arr.p; l.serializer = [](void *o) -> char * { point("serializer"); return mc_strdup(((str *)o)->c_str()); }; return take(json_array_of_entities(l)); }},
      {"error objects", [V](int k) { Buf a = Buf::z(strf("CODE_%d", k)), b = Buf::z(V(k) + pat(k * 60, k)); wayuu_error_t *e = new_error_with_values(a, b); str t = take(wayuu_error_t_json_serializer(e)); mc_free(e); return t; }},
      {"return_response", [V](int k) { call_response_t r; memset(&r, 0, sizeof r); r.status = k % 4; strcpy(r.text, strf("text %d", k).c_str()); strcpy(r.description, pat(k * 40, k).c_str()); Buf ib = Buf::z(INFO[k % 7]); r.additional_info = k % 3 ? ib.p : nullptr; return take(return_response(r)); }}});
    P("call-response-statuses", 208, 208, s_status, "208 status values");
  }
} reg;
