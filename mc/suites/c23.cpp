// C23: string helpers honour their contracts for every input.
#include "common.h"
#include "duo.h"
#include <openssl/evp.h>
extern "C" { void *mc_malloc(size_t); void mc_free(void *); char *ltrim(const char *, char); }
static str own(char *p) { str s = S(p); if (p) mc_free(p); return s; }
static bool same(Buf &b, const str &s) { return str(b.p, b.n) == s + '\0'; }
// ---- oracles
static strs o_split(const str &s, char d) { strs v; for (auto &f : split_on(s, d)) if (!f.empty() && v.size() < 50) v.push_back(f); return v; }
static Result t_split(const str &s, char d) {
  begin(); Buf b = Buf::z(s), dl = Buf::z(str(1, d)); str_list_t *l = split(b, dl); if (!same(b, s)) return bad("split changes its input"); strs w = o_split(s, d); if (!l) return bad("split returns NULL");
  if (l->n_str != (int)w.size()) return bad("split gives %d fields instead of %zu", l->n_str, w.size()); for (int k = 0; k < l->n_str; k++) if (S(l->strings[k]) != w[k]) return bad("field %d is %s instead of %s", k, esc(S(l->strings[k]), 80).c_str(), esc(w[k], 80).c_str()); free_str_list_t(l); if (heap_blocks()) return bad("%zu blocks are left after freeing the list", heap_blocks()); return good();
}
static Result t_once(const str &s, char d) {
  begin(); Buf b = Buf::z(s), dl = Buf::z(str(1, d)); str_list_t *l = split_once(b, dl); if (!same(b, s)) return bad("split_once changes its input"); if (!l) return bad("NULL"); size_t p = s.find(d);
  strs w = {strip(p == str::npos ? s : s.substr(0, p))}; if (p != str::npos) w.push_back(strip(s.substr(p + 1))); if (l->n_str != (int)w.size()) return bad("split_once gives %d parts instead of %zu", l->n_str, w.size());
  for (int k = 0; k < l->n_str; k++) if (S(l->strings[k]) != w[k]) return bad("part %d is %s instead of %s", k, esc(S(l->strings[k]), 80).c_str(), esc(w[k], 80).c_str()); free_str_list_t(l); if (heap_blocks()) return bad("%zu blocks are left after freeing the list", heap_blocks()); return good();
}
static Result t_trim(const str &s) { begin(); Buf b = Buf::z(s); trim(b); str g = b.p; if (g != strip(s)) return bad("trim gives %s instead of %s", esc(g, 80).c_str(), esc(strip(s), 80).c_str()); return good(); }
static Result t_cut(const str &s, char d) {
  begin(); Buf b = Buf::z(s); size_t p = s.find(d); if (d == 0) p = str::npos; str r = own(rtrim(b, d)), l = own(ltrim(b, d)); str wr = p == str::npos ? s : s.substr(0, p), wl = p == str::npos ? s : s.substr(p + 1); if (!same(b, s)) return bad("the input is changed");
  if (r != wr) return bad("rtrim gives %s instead of %s", esc(r, 80).c_str(), esc(wr, 80).c_str()); if (l != wl) return bad("ltrim gives %s instead of %s", esc(l, 80).c_str(), esc(wl, 80).c_str()); if (heap_blocks()) return bad("blocks are left"); return good();
}
static Result t_chop(const str &s) { begin(); Buf b = Buf::z(s); chop_string(b); str g = b.p; size_t p = 0; while (p < s.size() && (unsigned char)s[p] > 34) p++; if (g != s.substr(0, p)) return bad("chop_string gives %s instead of %s", esc(g, 80).c_str(), esc(s.substr(0, p), 80).c_str()); return good(); }
static Result t_alnum(const str &s) { begin(); Buf b = Buf::z(s); bool w = !s.empty(); for (char c : s) if (!((c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'))) w = false; bool g = string_isalnum(b); if (!same(b, s)) return bad("the input is changed"); return g == w ? good() : bad("string_isalnum is %d", g); }
static Result t_starts(const str &s, const str &p) {
  begin(); Buf a = Buf::z(s), b = Buf::z(p); bool g = startswith(a, b); bool w = sw(s, p), wi = sw(lower(s), lower(p)); if (w == wi && g != w) return bad("startswith(%s, %s) is %d", esc(s, 60).c_str(), esc(p, 60).c_str(), g); return good();
}
static Result t_any(const str &s, const strs &list, bool null_end) {
  begin(); Buf a = Buf::z(s); std::vector<Buf> keep; std::vector<const char *> v; for (auto &x : list) keep.push_back(Buf::z(x)); Buf e = Buf::z(""); for (auto &x : keep) v.push_back(x); v.push_back(null_end ? nullptr : e.p); Buf arr(str((char *)v.data(), v.size() * sizeof(char *)));
  bool w = false, wi = false; for (auto &x : list) { if (x.empty()) break; w |= sw(s, x); wi |= sw(lower(s), lower(x)); } bool g = startswithany(a, (const char **)arr.p); if (w == wi && g != w) return bad("startswithany is %d instead of %d", g, w); return good();
}
static Result t_join(const strs &v, const str &d) {
  begin(); std::vector<Buf> keep; std::vector<char *> p; for (auto &x : v) keep.push_back(Buf::z(x)); for (auto &x : keep) p.push_back(x); Buf arr(str((char *)p.data(), p.size() * sizeof(char *))), dl = Buf::z(d); char *r = join((char **)arr.p, (int)v.size(), dl); str w = joinv(v, d); if (!r || w != r) return bad("join gives %s instead of %s", esc(S(r), 100).c_str(), esc(w, 100).c_str()); for (size_t k = 0; k < v.size(); k++) if (!same(keep[k], v[k])) return bad("join changes element %zu", k);
  if (!v.empty()) { mc_free(r); if (heap_blocks()) return bad("blocks are left after freeing the joined string"); } return good();
}
static Result t_find(const str &h, const str &n, long start, long bytes) {
  begin(); Buf a(h.substr(0, std::max(0l, bytes))), b = Buf::z(n); long g = text_find_after(a, b, start, bytes); long w = -1; for (long p = start; p + (long)n.size() <= bytes && w < 0; p++) if (h.compare(p, n.size(), n) == 0) w = p + n.size(); return g == w ? good() : bad("text_find_after(%s, %s, %ld, %ld) is %ld instead of %ld", esc(h, 60).c_str(), esc(n, 60).c_str(), start, bytes, g, w);
}
static str ref_md5(const str &d) { unsigned char o[64]; unsigned n = 0; EVP_Digest(d.data(), d.size(), o, &n, EVP_md5(), nullptr); str s; for (unsigned k = 0; k < n; k++) s += strf("%02x", o[k]); return s; }
static Result t_md5(const str &d) { begin(); Buf b(d), o(str(33, 0x55)); md5sum(o, b, (int)d.size()); if (str(o.p, 33) != ref_md5(d) + '\0') return bad("md5 of %zu bytes is %s instead of %s", d.size(), esc(str(o.p, 33)).c_str(), ref_md5(d).c_str()); if (heap_blocks()) return bad("blocks are left"); if (E->md_ctx) return bad("a digest context is left"); if (str(b.p, b.n) != d) return bad("the data is changed"); return good(); }
// ---- enumeration
static const strs A = {"a", ",", " ", "=", "\"", "\n", "B", "\x80", "\t", "!"};
static Result all(const str &s) { for (char d : {',', '=', ' '}) { Result r = t_split(s, d); if (!r.ok) return r; r = t_once(s, d); if (!r.ok) return r; r = t_cut(s, d); if (!r.ok) return r; } for (auto f : {t_trim, t_chop, t_alnum}) { Result r = f(s); if (!r.ok) return r; } return good(); }
static void s_words(long i, Ctx &c) { auto w = word(i, 10, 0); str s; for (int x : w) s += A[x]; c.desc = "string " + esc(s); c.outcome(fnv(s)); c.one([&] { return all(s); }); }
static void s_bytes(long i, Ctx &c) { Mix m(i); char a = (char)m(256), b = (char)m(256); if (!a || !b) return; c.desc = strf("bytes %d, %d", (unsigned char)a, (unsigned char)b); c.outcome(i); for (auto &s : {str() + a, str() + a + b, str() + a + "x" + b, str("x") + a + b + "y", str() + a + a + "m n" + b + b}) { c.one([&] { for (auto f : {t_trim, t_chop, t_alnum}) { Result r = f(s); if (!r.ok) return r; } return good(); }); c.one([&] { return t_split(s, a); }); c.one([&] { return t_split(s, b); }); c.one([&] { return t_once(s, a); }); c.one([&] { return t_once(s, b); }); c.one([&] { return t_cut(s, b); }); c.one([&] { return t_find(s, str(1, b), 0, s.size()); }); c.one([&] { return t_starts(s, str(1, b)); }); } }
static void s_lengths(long i, Ctx &c) {
  Mix m(i); int k = m(8); long n = m.n < 1100 ? m.n : (m.n - 1099) * 97; str x = k == 0 ? pat(n) : k == 1 ? rep(",", n) : k == 2 ? rep(" ", n) : k == 3 ? rep("a,", n / 2) + (n & 1 ? "b" : "") : k == 4 ? rep(" ", n) + "mid dle" + rep("\t", n) : k == 5 ? pat(n) + "," + pat(n, 1) : k == 6 ? pat(n) + "\x80" : rep(pat(n % 97 + 1) + ",", n / (n % 97 + 1)); c.desc = strf("%zu characters, kind %d", x.size(), k); c.outcome(i); c.one([&] { return all(x); });
}
static void s_join(long i, Ctx &c) { static const strs E_ = {"", "a", "b,c", "%s", pat(300)}; static const strs D = {",", "", ", ", "%d", pat(50)}; Mix m(i); str d = D[m(5)]; auto w = word(m.n, 5, 0); strs v; for (int x : w) v.push_back(E_[x]); c.desc = strf("join of %zu elements with %s", v.size(), esc(d, 20).c_str()); c.outcome(i); c.one([&] { return t_join(v, d); }); }
static void s_joinsizes(long i, Ctx &c) { static const strs D = {",", "", ", ", pat(40)}; Mix m(i); str d = D[m(4)]; int k = m(3), n = (int)m.n; strs v; for (int q = 0; q < n; q++) v.push_back(k == 0 ? "" : k == 1 ? strf("%d", q) : pat(q * 7 % 1000, q)); c.desc = strf("join of %d elements, kind %d", n, k); c.outcome(i); c.one([&] { return t_join(v, d); }); if (n > 0) c.one([&] { strs u; for (auto &x : v) if (!x.empty() && x.find(',') == str::npos) u.push_back(x); if (u.empty()) return good(); Result r = t_join(u, ","); if (!r.ok) return r; str j = joinv(u, ","); return t_split(j, ','); }); }
static void s_joinnone(long i, Ctx &c) { c.desc = strf("join of nothing, case %ld", i); c.one([&] { begin(); Buf d = Buf::z(","); Buf x = Buf::z("x"); char *one[2] = {x, nullptr}; char *none[2] = {nullptr, nullptr}; static const int N[] = {0, -1, INT_MIN}; char *r = i < 3 ? join(one, N[i], d) : i < 6 ? join(nullptr, (int)i - 3, d) : join(none, (int)i - 5, d); c.outcome(i); return r && !*r ? good() : bad("join of nothing is %s", esc(S(r)).c_str()); }); }
static void s_starts(long i, Ctx &c) { static const strs P = {"a", "b", "/", "A", " "}; long n = npaths(5, 4); Mix m(i); auto w = word(m((int)n), 5, 0), v = word(m((int)n), 5, 0); str s, p; for (int x : w) s += P[x]; for (int x : v) p += P[x]; c.desc = "prefix " + esc(p) + " of " + esc(s); c.outcome(i); c.one([&] { return t_starts(s, p); }); c.one([&] { return t_starts(rep("x", 500) + s, rep("x", 500) + p); }); }
static void s_anylong(long i, Ctx &c) { Mix m(i); bool nl = m(2); int n = m(72), at = (int)m.n; strs v; for (int k = 0; k < n; k++) v.push_back(k == at ? "/find" : strf("/p%d", k)); c.desc = strf("prefix %d of %d", at, n); c.outcome(i); c.one([&] { return t_any("/find/me", v, nl); }); c.one([&] { return t_any(strf("/p%d", at), v, nl); }); }
static void s_any(long i, Ctx &c) { static const strs P = {"get", "post", "g", "x", "", "poster", "os"}; static const strs Q = {"", "get", "ge", "get /", "post", "xget", "xxx", "postx", "t", "g", "poste", "nope", "ost"}; Mix m(i); str s = Q[m(13)]; bool nl = m(2); auto w = word(m.n, 7, 0); strs v; for (int x : w) v.push_back(P[x]); c.desc = "prefixes of " + s + " in a list"; for (auto &x : v) c.desc += " [" + x + "]"; c.outcome(i); c.one([&] { return t_any(s, v, nl); }); }
static void s_find(long i, Ctx &c) {
  long nh = npaths(3, 7), nn = npaths(3, 3, 1); Mix m(i); auto w = word(m((int)nh), 3, 0), v = word(m((int)nn), 3, 1); str h, n; static const strs P = {"a", "b", "\n"}; for (int x : w) h += P[x]; for (int x : v) n += P[x]; c.desc = "needle " + esc(n) + " in " + esc(h); c.outcome(i); c.one([&] { for (long st = 0; st <= (long)h.size() + 1; st++) for (long by = -1; by <= (long)h.size(); by++) { Result r = t_find(h, n, st, by); if (!r.ok) return r; } return good(); });
}
static void s_findlong(long i, Ctx &c) { Mix m(i); int k = m(4), nl = 1 + m(60); long at = m.n * 7; str n = k == 0 ? pat(nl) : k == 1 ? rep("-", nl) : k == 2 ? "\r\n--" + pat(nl) : rep("ab", nl); str h = (k == 1 ? rep("-x", at / 2) : k == 3 ? rep("a", at) : k == 2 ? rep("\r\n--", at / 4) + pat(at % 4) : binpat(at, 3)) ; h += n; c.desc = strf("needle of %zu characters at %ld, kind %d", n.size(), at, k); c.outcome(i); for (long cut : {0l, 1l}) for (long st : {0l, at, at + 1}) c.one([&] { return t_find(h, n, st, (long)h.size() - cut); }); c.one([&] { return t_find(h + n, n, at + 1, h.size() + n.size()); }); }
static void s_near(long i, Ctx &c) {   // a long needle, prefix or separator list entry and a text that differs from it in one place
  Mix m(i); int kind = m(3); long n = 1 + m(300), p = m.n; if (n > 200) n = 200 + (n - 200) * 11; if (p >= n) return; if (n > 120 && p % 7 && p + 3 < n && !c.thorough) return; str x = kind == 0 ? pat(n, 3) : kind == 1 ? rep("ab", n).substr(0, n) : str(n, '-'), y = x; y[p] = y[p] == '!' ? '"' : '!'; c.desc = strf("needle and prefix of %ld characters, different in place %ld, kind %d", n, p, kind); c.outcome(i);
  c.one([&] { Result r = t_find("zz" + y + "..", x, 0, n + 4); if (!r.ok) return r; r = t_find(y + x + "..", x, 0, 2 * n + 2); if (!r.ok) return r; r = t_starts(y + "tail", x); if (!r.ok) return r; r = t_starts(x, y); if (!r.ok) return r; r = t_any(x + "1", {y, y + "1", "q"}, false); if (!r.ok) return r; return t_any(x + "1", {y, x, "q"}, true); });
}
static void s_md5(long i, Ctx &c) { Mix m(i); int k = m(3); long n = m.n < 2600 ? m.n : (m.n - 2599) * 8191; str d = k == 0 ? binpat(n, 3) : k == 1 ? str(n, 0) : pat(n, 5); c.desc = strf("md5 of %ld bytes, kind %d", n, k); c.outcome(i); c.one([&] { return t_md5(d); }); }
static void s_md5words(long i, Ctx &c) { auto w = word(i, 256, 0); str d; for (int x : w) d += (char)x; c.desc = "md5 of " + esc(d); c.outcome(i); c.one([&] { return t_md5(d); }); }
static struct Reg {
  Reg() {
    auto P = [](const char *n, long q, long t, void (*f)(long, Ctx &), const char *b, const char *bt = "") { add_suite({"C23", n, [q, t](bool th) { return th ? t : q; }, f, 60, b, bt}); };
    P("words", npaths(10, 6), npaths(10, 7), s_words, "all strings of 0..6 of 10 tokens given to split, split_once, trim, rtrim, ltrim, chop_string and string_isalnum with 3 separators", "0..7");
    P("bytes", 65536, 65536, s_bytes, "every pair of byte values in 5 places of a string and as separator, needle and prefix");
    P("lengths", 8 * 1180, 8 * 1500, s_lengths, "strings of 0..1099 and, in steps, up to 7700 characters of 8 kinds", "up to 38800");
    P("join", 5 * npaths(5, 6), 5 * npaths(5, 7), s_join, "all arrays of 0..6 of 5 strings x 5 delimiters", "0..7");
    P("join-sizes", 12 * 400, 12 * 3000, s_joinsizes, "arrays of 0..399 strings of 3 kinds x 4 delimiters, split again", "0..2999");
    P("join-nothing", 12, 12, s_joinnone, "NULL and non-positive sizes");
    P("prefixes", npaths(5, 4) * npaths(5, 4), npaths(5, 4) * npaths(5, 4), s_starts, "all pairs of strings of 0..4 of 5 characters");
    P("long-prefix-lists", 2 * 72 * 72, 2 * 72 * 72, s_anylong, "lists of 0..71 prefixes, the matching one at each place, 2 ways to end the list");
    P("prefix-lists", 26 * npaths(7, 4), 26 * npaths(7, 5), s_any, "13 strings x all lists of 0..4 of 7 prefixes x 2 ways to end the list", "0..5");
    P("find", npaths(3, 7) * npaths(3, 3, 1), npaths(3, 7) * npaths(3, 3, 1), s_find, "all haystacks of 0..7 and needles of 1..3 of 3 characters x all start offsets and lengths");
    P("find-lengths", 240 * 150, 240 * 700, s_findlong, "needles of 1..120 characters at offsets 0..1043, found, cut off and repeated", "offsets 0..4893");
    P("near", 3 * 300 * 1300, 3 * 300 * 1300, s_near, "needles and prefixes of 1..1289 characters of 3 kinds against texts that differ in one place (every place up to 120 characters, every seventh beyond)", "every place");
    P("md5", 3 * 2700, 3 * 3600, s_md5, "0..2599 and, in steps, up to 820000 bytes of 3 kinds against OpenSSL", "up to 8 MB");
    static auto list = [](str_list_t *l) { str o = strf("%d", l->n_str); for (int k = 0; k < l->n_str; k++) o += "|" + S(l->strings[k]); free_str_list_t(l); return o; };
    static auto words_k = [](int k) { str o; for (int j = 0; j < 3 + k * 9; j++) o += strf("%s%d,", pat(k * 3, j).c_str(), j * 7 + k); return o; };
    duo_suite("C23", {{"split", [](int k) { Buf b = Buf::z(words_k(k)), d = Buf::z(","); return list(split(b, d)); }}, {"split_once", [](int k) { Buf b = Buf::z(strf(" left%d \t=  right", k) + pat(k * 100) + " "), d = Buf::z("="); return list(split_once(b, d)); }},
      {"trim and cut helpers", [](int k) { Buf b = Buf::z("  x" + pat(k * 50, k) + " y \n"), e = Buf::z(strf("a%d=b%d=c", k, k)), f = Buf::z(strf("word%d\n more", k)); trim(b); chop_string(f); return S(b) + own(rtrim(e, '=')) + own(ltrim(e, '=')) + S(f); }},
      {"join", [](int k) { std::vector<Buf> B; for (int j = 0; j < 2 + k * 5; j++) B.push_back(Buf::z(pat(j + k, k))); std::vector<char *> p; for (auto &x : B) p.push_back(x); Buf arr(str((char *)p.data(), p.size() * sizeof(char *))), d = Buf::z(k % 2 ? ", " : ""); return own(join((char **)arr.p, (int)p.size(), d)); }},
      {"tests and searches", [](int k) { Buf a = Buf::z(strf("/path%d/x", k)), b = Buf::z(strf("/path%d", k % 2)), c = Buf::z(k % 2 ? "abc9" : "abc 9"), h = Buf::z(pat(100 + k, k) + "needle" + pat(30, k)), n = Buf::z("needle"), e = Buf::z(""); const char *L[] = {b, c, e}; return strf("%d %d %d %ld", startswith(a, b), startswithany(a, L), string_isalnum(c), text_find_after(h, n, 0, 120)); }},
      {"md5sum", [](int k) { str d = binpat(10 + k * 40000, k); Buf b(d), o(str(33, 0x55)); md5sum(o, b, (int)d.size()); return str(o.p, 33); }}});
    P("md5-short", 65793, 65793, s_md5words, "all inputs of 0..2 bytes");
  }
} reg;
