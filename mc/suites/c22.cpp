// C22: configuration files survive parsing and writing.
#include "common.h"
#include "duo.h"
extern "C" { void *mc_malloc(size_t); void mc_free(void *); char *mc_strdup(const char *); int mc_mkdir(const char *, mode_t); }
struct Item { str key, value; strs multi; bool operator==(const Item &o) const { return key == o.key && value == o.value && multi == o.multi; } };
static str show(const Item &i) { str o = "{" + esc(i.key, 60) + " = " + esc(i.value, 60); if (!i.multi.empty()) { o += strf(" / %zu:", i.multi.size()); for (auto &m : i.multi) o += " [" + esc(m, 20) + "]"; } return o + "}"; }
static Item item_of(conf_item *c, bool multi) { Item i; i.key = S(c->key); i.value = S(c->value); if (multi) for (int k = 0; k < c->n_multivalues && k < 20; k++) i.multi.push_back(S(c->multivalue[k])); return i; }
// oracle
static bool oracle(const str &line, bool multi, Item &o, Item *alt = nullptr) {
  size_t e = line.find('='); if (e == str::npos) return false; o.key = strip(line.substr(0, e)); o.value = strip(line.substr(e + 1)); o.multi.clear(); strs all;
  if (multi) for (auto &f : split_on(o.value, ',')) if (!f.empty()) all.push_back(strip(f)); if (alt) { *alt = o; for (auto &f : all) if (!f.empty() && alt->multi.size() < 20) alt->multi.push_back(f); } if (all.size() > 20) all.resize(20); o.multi = all; return true;
}
static Result line_case(const str &line, bool multi) {
  begin(); Buf b = Buf::z(line); conf_item *c = conf_parse_line(b, multi); if (str(b.p, b.n) != line + '\0') return bad("the given line was changed to %s", esc(str(b.p, b.n)).c_str());
  Item w, alt; bool ok = oracle(line, multi, w, &alt); if (!ok) return c ? bad("a line without '=' gives an item") : good(); if (!c) return bad("no item for a line with '='");
  if (c->n_multivalues < 0 || c->n_multivalues > 20) return bad("%d values", c->n_multivalues); Item g = item_of(c, multi); if (!multi && c->n_multivalues) return bad("single-valued key with %d values", c->n_multivalues); free_conf_item(c);
  if (!(g == w) && !(g == alt)) return bad("parsed as %s instead of %s", show(g).c_str(), show(w).c_str()); return good();
}
static const strs LA = {"a", "=", ",", " ", "\t", "\"", "#", "\n", "%s", "b"};
static void s_lines(long i, Ctx &c) { Mix m(i); bool multi = m(2); auto w = word(m.n, 10, 0); str s; for (int x : w) s += LA[x]; c.desc = strf("line %s, %s", esc(s).c_str(), multi ? "multi-valued" : "single-valued"); c.outcome(fnv(s)); c.one([&] { return line_case(s, multi); }); }
static void s_bytes(long i, Ctx &c) { Mix m(i); char a = (char)m(256), b = (char)m(256); if (!a || !b) return; c.desc = strf("bytes %d and %d", (unsigned char)a, (unsigned char)b); c.outcome(i); for (bool mu : {false, true}) { c.one([&] { return line_case(str() + a + b, mu); }); c.one([&] { return line_case(str() + a + "=" + b, mu); }); c.one([&] { return line_case(str() + "k" + a + "y=v" + b + "l", mu); }); c.one([&] { return line_case(str() + a + "key" + b + "=" + a + "v,w" + b, mu); }); } }
static void s_linelen(long i, Ctx &c) { Mix m(i); int which = m(4), n = (int)m.n; str s = which == 0 ? pat(n) + "=v" : which == 1 ? "k=" + pat(n) : which == 2 ? rep(" ", n) + "k" + rep(" ", n) + "=" + rep("\t", n) + "v w" + rep(" ", n) : pat(n) + " = " + pat(n, 2) + "," + pat(n, 3); c.desc = strf("line of %zu characters, kind %d", s.size(), which); c.outcome(i); for (bool mu : {false, true}) { c.one([&] { return line_case(s, mu); }); c.one([&] { return line_case(s + "\n", mu); }); c.one([&] { return line_case(s + "\r\n", mu); }); } }
static void s_multicount(long i, Ctx &c) { Mix m(i); int kind = m(5), n = (int)m.n; str s = "key="; for (int k = 0; k < n; k++) { if (k) s += kind == 1 ? " , " : ","; s += kind == 2 ? "" : kind == 3 ? pat(k * 13 % 700, k) : kind == 4 ? "x" : strf("v%d", k); } c.desc = strf("%d values, kind %d", n, kind); c.outcome(i); for (bool mu : {false, true}) { c.one([&] { return line_case(s, mu); }); c.one([&] { return line_case(s + ",", mu); }); } }
// ---- files
static std::vector<Item> handed;
static strs multi_keys;
static void *handler_output; static bool wrong_output;
static int record(void *out, conf_item *it) { if (out != handler_output) wrong_output = true; Item i = item_of(it, std::find(multi_keys.begin(), multi_keys.end(), S(it->key)) != multi_keys.end()); handed.push_back(i); return (int)handed.size() % 3 - 1; }
struct Flags { key_flags f; std::vector<Buf> keep; Flags() { memset(&f, 0, sizeof f); multi_keys.clear(); } void add(const str &k, bool multi) { keep.push_back(Buf::z(k)); f.flags[f.size].key = keep.back(); f.flags[f.size].is_multi = multi; f.size++; if (multi) multi_keys.push_back(k); } };
static int run_parse(const str &path, key_flags f) { Buf p = Buf::z(path); handed.clear(); wrong_output = false; int dummy; handler_output = &dummy; return parse(p, record, &dummy, f); }
static Result file_case(const str &text, Flags &fl) {
  str path = SCR + "/root/etc/test.conf"; put_file(path, text); int rv = run_parse(path, fl.f); str now; if (!get_file(path, now) || now != text) return bad("the file was changed");
  if (wrong_output) return bad("the handler did not get the given output"); std::vector<Item> want, want2; bool err = false; size_t before = 0;
  for (auto &l : lines_of(text)) { Item w, a; int k = -1; bool m = false; if (!oracle(l, false, w)) { if (!err) before = want.size(); err = true; continue; } for (int j = 0; j < fl.f.size && k < 0; j++) if (w.key == fl.f.flags[j].key) { k = j; m = fl.f.flags[j].is_multi; } if (k < 0) continue; oracle(l, m, w, &a); want.push_back(w); want2.push_back(a); }
  if (err ? rv != -1 : rv == -1) return bad("returns %d for a file %s a line without '='", rv, err ? "with" : "without"); if (!err) before = want.size();
  if (handed.size() < before || handed.size() > want.size()) return bad("%zu items given to the handler instead of %zu", handed.size(), before);
  for (size_t k = 0; k < handed.size(); k++) if (!(handed[k] == want[k]) && !(handed[k] == want2[k])) return bad("item %zu is %s instead of %s", k, show(handed[k]).c_str(), show(want[k]).c_str()); return good();
}
static Flags table(int t) { Flags f; if (t == 1) f.add("one", false); else if (t == 2) { f.add("one", false); f.add("many", true); } else if (t == 3) { f.add("many", true); f.add("o", false); f.add("one", true); f.add("", false); } else if (t == 4) { for (int k = 0; k < 8; k++) f.add(strf("x%d", k), k & 1); f.add("many", true); f.add("one", false); } return f; }
static const strs FL = {"one=1", "many=a, b ,c", "other=x", "one", "", " one = a=b ", "=v", "many=", "ONE=2", "many=,,a,,", "one=%s%n \"q\"\r", "on\te=1"};
static void s_files(long i, Ctx &c) { Mix m(i); int t = m(5), nl = m(2); auto w = word(m.n, (int)FL.size(), 0); strs v; for (int x : w) v.push_back(FL[x]); str text = joinv(v, "\n") + (nl && !v.empty() ? "\n" : ""); c.desc = strf("keys %d, file %s", t, esc(text).c_str()); c.outcome(i); c.one([&] { begin(); reset_files(); Flags f = table(t); return file_case(text, f); }); if (i % 9001 == 0) c.sample(c.desc); }
static const strs ODD = {"#", "# comment", "#one", "; comment", "//", "[section]", "[]", "key: value", "one: 1", "one 1", "\t", " ", "\r", "  \r", "\"\"", "include x", "!", "---", "\\", "%", "one=1#x", "# one = 1", "#one=1", ";one=1", "[one=1]", "one=[1]", "one==1", "\\=", "one=1;2", "export one=1"};
static void s_oddlines(long i, Ctx &c) { Mix m(i); int t = m(5), nl = m(2), at = m(3); str odd = ODD[m((int)ODD.size())]; strs v = {FL[m((int)FL.size())], FL[m((int)FL.size())]}; v.insert(v.begin() + at, odd); str text = joinv(v, "\n") + (nl ? "\n" : ""); c.desc = strf("keys %d, file %s", t, esc(text).c_str()); c.outcome(i); c.one([&] { begin(); reset_files(); Flags f = table(t); return file_case(text, f); }); if (i % 9001 == 0) c.sample(c.desc); }
static void s_filebytes(long i, Ctx &c) {
  static const strs A = {str(1, 0), "=", "\n", "a", ",", " ", "\xff", "one=1\n"}; auto w = word(i, 8, 0); str t; for (int x : w) t += A[x]; c.desc = "file " + esc(t); c.outcome(fnv(t)); c.one([&] { begin(); reset_files(); Flags f = table(3); str path = SCR + "/root/etc/test.conf"; put_file(path, t); if (t.find('\0') == str::npos) return file_case(t, f); int rv = run_parse(path, f.f); if (rv != 0 && rv != -1) return bad("returns %d", rv); return good(); });
}
static void s_filesizes(long i, Ctx &c) { Mix m(i); int t = 1 + m(4), kind = m(4), n = m.n < 300 ? (int)m.n : 300 + (int)(m.n - 300) * 400; str text; for (int k = 0; k < n; k++) text += kind == 0 ? strf("one=%d\n", k) : kind == 1 ? strf("many=%d,%d\n", k, -k) : kind == 2 ? (k % 3 ? str("unknown=1\n") : strf("one=%s\n", pat(k % 999, k).c_str())) : ""; if (kind == 3) text = "many=" + pat(n) + "," + pat(n * 3, 1) + "\none=" + pat(n * 5, 3); c.desc = strf("file of %d lines/characters, kind %d, keys %d", n, kind, t); c.outcome(i); c.one([&] { begin(); reset_files(); Flags f = table(t); return file_case(text, f); }); }
static void s_missing(long i, Ctx &c) {
  static const char *W[] = {"missing file", "missing folder", "cannot be opened", "unreadable content", "a folder"}; c.desc = W[i % 5]; c.one([&] { begin(); reset_files(); Flags f = table(2); str path = SCR + "/root/etc/test.conf"; if (i == 1) path = SCR + "/root/none/x.conf"; if (i == 4) path = SCR + "/root/etc"; if (i >= 5) path = SCR + "/root/" + rep("d", i - 4); else if (i == 2 || i == 3) put_file(path, "one=1\n"); if (i == 2) E->call_fail["fopen"][0] = EACCES; int rv = run_parse(path, f.f); c.outcome(rv); if (i == 4) return good(); if (i == 3) return rv ? bad("a good file gives %d", rv) : good(); if (rv != -1) return bad("returns %d instead of -1", rv); if (!handed.empty()) return bad("the handler is called"); return good(); });
}
// ---- key flags
static void s_flags(long i, Ctx &c) { static const strs K = {"a", "b", "", "A", "ab"}; Mix m(i); str q = K[m(5)]; auto w = word(m.n, 10, 0); c.desc = "looking up " + esc(q) + strf(" in %zu keys", w.size()); c.outcome(i); c.one([&] { begin(); Flags f; int want = -1; bool mu = false; for (size_t k = 0; k < w.size(); k++) { f.add(K[w[k] % 5], w[k] >= 5); if (want < 0 && K[w[k] % 5] == q) { want = (int)k; mu = w[k] >= 5; } } Buf b = Buf::z(q); key_flag r = get_key_flag(b, f.f); if (want < 0) return r.key || r.is_multi ? bad("found a key that is not there") : good(); if (!r.key || q != r.key || r.is_multi != mu) return bad("found %s/%d", S(r.key).c_str(), r.is_multi); return good(); }); }
// ---- keys of every length that differ in one place from those in the file
static void s_nearkeys(long i, Ctx &c) {
  Mix m(i); int kind = m(6), multi = m(2), n = 1 + m(80); int at = (int)m.n; if (at >= n) return; str k = pat(n, 7); for (auto &x : k) if (x == '=' || x == ',' || x == ' ' || x == '\t' || x == '\n' || x == '"' || x == '#') x = 'q'; str d = k;
  switch (kind) { case 0: d[at] = d[at] == 'z' ? 'y' : 'z'; break; case 1: d[at] ^= isalpha((unsigned char)d[at]) ? 0x20 : 1; if (d[at] == '=' || d[at] == ',' || d[at] == ' ' || d[at] == 127) d[at] = '_'; break; case 2: d.erase(at, 1); break; case 3: d.insert(at, 1, 'q'); break; case 4: d = d.substr(0, at); break; default: d = k + k.substr(0, at + 1); }
  c.desc = strf("key of %d characters and one like it (kind %d, place %d)", n, kind, at); c.outcome(i); if (d == strip(d)) c.one([&] {
    begin(); reset_files(); for (int order = 0; order < 3; order++) { Flags f; if (order == 0) f.add(k, multi); else if (order == 1) { f.add(d, !multi); f.add(k, multi); } else { f.add(k, multi); f.add(d, !multi); } Result r = file_case(d + "=1,2\n" + k + " = 3 , 4\n" + d + " = 5,6", f); if (!r.ok) return r; Buf q = Buf::z(d); key_flag g = get_key_flag(q, f.f); if (!order && d != k && (g.key || g.is_multi)) return bad("found a key that is not there"); if (order && d != k && (!g.key || d != g.key || (bool)g.is_multi == (bool)multi)) return bad("found %s/%d", S(g.key).c_str(), g.is_multi); } return good(); });
}
// ---- writing
static conf_item *make(const Item &i, int extra = 0) { Buf k = Buf::z(i.key), v = Buf::z(i.value); std::vector<Buf> m; std::vector<char *> p; for (auto &x : i.multi) m.push_back(Buf::z(x)); for (auto &x : m) p.push_back(x); p.push_back(nullptr); Buf arr(str((char *)p.data(), (p.size() - 1) * sizeof(char *))); return new_conf_item_with_values(k, v, (char **)arr.p, (int)p.size() - 1 + extra); }
static std::vector<Item> to_write; static str write_path; static str as_text;
static serializable *ser(void *in) { std::vector<conf_item *> v; for (auto &i : to_write) v.push_back(make(i)); v.push_back(nullptr); serializable *s = new_serializable(mc_strdup(write_path.c_str()), v.data(), (int)v.size() - 1); char *t = serializable_to_string(s); as_text = S(t); mc_free(t); return s; }
static str line_of(const Item &i) { return i.key + "=" + (i.multi.empty() ? i.value : joinv(i.multi, ",")); }
static Result roundtrip(const std::vector<Item> &items, const str &old = "") {
  begin(); reset_files(); to_write = items; write_path = SCR + "/root/etc/w.conf"; if (!old.empty()) put_file(write_path, old); int d; int rv = write_conf(&d, ser); if (rv) return bad("writing returns %d", rv);
  str wt = strf("[path=%s,n_items=%zu", write_path.c_str(), items.size()); for (auto &i : items) wt += "," + line_of(i); if (as_text != wt + "]") return bad("the text form is %s instead of %s", esc(as_text, 300).c_str(), esc(wt, 300).c_str());
  Flags f; for (auto &i : items) { bool have = false; for (int k = 0; k < f.f.size; k++) if (i.key == f.f.flags[k].key) have = true; if (!have && f.f.size < 10) f.add(i.key, !i.multi.empty()); } int prv = run_parse(write_path, f.f); str t; get_file(write_path, t); if (prv) return bad("reading the written file returns %d: %s", prv, esc(t).c_str());
  if (handed.size() != items.size()) return bad("%zu items read instead of %zu from %s", handed.size(), items.size(), esc(t, 200).c_str());
  for (size_t k = 0; k < items.size(); k++) { Item w = items[k]; Item g = handed[k]; if (!w.multi.empty()) w.value = g.value = ""; if (!(w == g)) return bad("item %zu is read as %s instead of %s", k, show(g).c_str(), show(w).c_str()); } if (E->open_files) return bad("%d files left open", E->open_files); return good();
}
static const std::vector<Item> &items() { static std::vector<Item> v; if (v.empty()) { v = {{"k0", "v", {}}, {"k1", "", {}}, {"k2", "a=b=c", {}}, {"k3", "x,y", {}}, {"k4", "", {"a"}}, {"k5", "", {"a", "b", "c d"}}, {"k6", "%s%n\"'#", {}}, {"key with spaces", "v w", {}}, {"k8", pat(700), {}}, {"k9", "\xc3\xa9\xff", {"=", "==", "%d"}}}; Item big{"big", "", {}}; for (int k = 0; k < 20; k++) big.multi.push_back(pat(20 + k * 3, k)); v.push_back(big); v.push_back({pat(600, 4), "long key", {}}); } return v; }
static void s_round(long i, Ctx &c) { auto w = word(i, (int)items().size(), 0); std::vector<Item> v; c.desc = strf("%zu items written:", w.size()); for (int x : w) { v.push_back(items()[x]); c.desc += " " + show(items()[x]).substr(0, 50); } c.outcome(i); c.one([&] { return roundtrip(v, "old=" + pat(300) + "\nnoise\n"); }); if (i % 3001 == 0) c.sample(c.desc); }
static void s_roundwords(long i, Ctx &c) { static const strs A = {"a", "=", ",", " ", "\"", "%s", "#", "\\", "\t"}; auto w = word(i, 9, 0); str s; for (int x : w) s += A[x]; s = strip(s); c.desc = "value " + esc(s); c.outcome(fnv(s)); c.one([&] { return roundtrip({{"k", s, {}}, {"l", "after", {}}}); }); if (!s.empty() && s.find('=') == str::npos) c.one([&] { return roundtrip({{s, "v", {}}, {"l" + s, s, {}}}); }); if (!s.empty() && s.find(',') == str::npos) c.one([&] { return roundtrip({{"k", "", {s}}, {"m", "", {s, "x", s}}}); }); }
static void s_roundsizes(long i, Ctx &c) { Mix m(i); int kind = m(5), n = (int)m.n; c.desc = strf("size %d, kind %d", n, kind); c.outcome(i); c.one([&] { std::vector<Item> v; if (kind == 0) for (int k = 0; k < n; k++) v.push_back({strf("k%d", k % 10), strf("v%d", k), {}}); else if (kind == 1) v.push_back({"k", pat(n), {}}); else if (kind == 2) v.push_back({pat(n) + "k", "v", {}}); else if (kind == 3) { Item it{"m", "", {}}; for (int k = 0; k < 1 + n % 20; k++) it.multi.push_back(pat(1 + n / 2, k)); v = {it, {"z", "", {}}}; } else for (int k = 0; k < n % 200; k++) { Item it{strf("k%d", k % 9), "", {}}; if (k % 9 & 1) for (int q = 0; q <= k % 20; q++) it.multi.push_back(strf("%d", q)); else it.value = pat(k * 7 % 333); v.push_back(it); } return roundtrip(v); }); }
static void s_construct(long i, Ctx &c) {
  Mix m(i); int kind = m(3), n = (int)m.n; c.desc = strf("item with %d values", n); c.outcome(i); c.one([&] { begin(); Item it{"k", kind ? "v" : "", {}}; for (int k = 0; k < n; k++) it.multi.push_back(kind == 2 ? "" : pat(1 + k, k)); conf_item *ci = make(it); int w = n > 20 ? 20 : n; if (S(ci->key) != "k" || S(ci->value) != it.value || ci->n_multivalues != w) return bad("wrong fields: %d values", ci->n_multivalues); for (int k = 0; k < w; k++) if (S(ci->multivalue[k]) != it.multi[k]) return bad("value %d is %s", k, esc(S(ci->multivalue[k])).c_str()); char *t = conf_item_to_string(ci); str ts = S(t); mc_free(t); it.multi.resize(w); if (ts != line_of(it)) return bad("text %s instead of %s", esc(ts).c_str(), esc(line_of(it)).c_str()); free_conf_item(ci); return good(); });
}
static void s_writefail(long i, Ctx &c) { c.desc = i ? "the folder does not exist" : "the file cannot be opened"; c.one([&] { begin(); reset_files(); to_write = {{"a", "b", {}}}; write_path = SCR + (i ? "/root/none/w.conf" : "/root/etc/w.conf"); if (!i) E->call_fail["fopen"][0] = EACCES; int d; int rv = write_conf(&d, ser); c.outcome(rv); return rv == -1 ? good() : bad("returns %d", rv); }); }
static struct Reg {
  Reg() {
    auto P = [](const char *n, long q, long t, void (*f)(long, Ctx &), const char *b, const char *bt = "") { add_suite({"C22", n, [q, t](bool th) { return th ? t : q; }, f, 60, b, bt}); };
    P("lines", 2 * npaths(10, 6), 2 * npaths(10, 7), s_lines, "all lines of 0..6 of 10 tokens, single and multi-valued", "0..7");
    P("line-bytes", 65536, 65536, s_bytes, "every pair of byte values in 4 places of a line, single and multi-valued");
    P("line-lengths", 4 * 1200, 4 * 6000, s_linelen, "keys, values and paddings of 0..1199 characters x 3 line ends", "0..5999");
    P("value-counts", 5 * 200, 5 * 2000, s_multicount, "0..199 comma-separated values of 5 kinds", "0..1999");
    P("files", 10 * npaths(12, 4), 10 * npaths(12, 5), s_files, "all files of 0..4 of 12 lines x final newline x 5 key tables", "0..5 lines");
    P("odd-lines", 30l * 30 * 144, 30l * 30 * 144, s_oddlines, "files of 3 lines with each of 30 odd lines (comments, sections, no '=') at each place among 12 x 12 others x final newline x 5 key tables");
    P("file-bytes", npaths(8, 5), npaths(8, 6), s_filebytes, "all files of 0..5 of 8 tokens including NUL bytes", "0..6");
    P("file-sizes", 16 * 330, 16 * 420, s_filesizes, "files of 0..12000 lines or characters of 4 kinds x 4 key tables", "0..48000");
    P("unreadable", 200, 200, s_missing, "missing, unopenable and over-long paths");
    P("key-lookup", 5 * npaths(10, 4), 5 * npaths(10, 6), s_flags, "5 keys in all tables of 0..4 of 10 entries", "0..6 entries");
    P("near-keys", 12 * 80 * 80, 12 * 80 * 80, s_nearkeys, "keys of 1..80 characters with a second key that differs in one place (changed, other case, shorter, longer) in the file and in the key table");
    P("round-trips", npaths(12, 4), npaths(12, 5), s_round, "all files of 0..4 of 12 items (single and multi-valued, special characters, long) written and read again", "0..5 items");
    P("round-trip-words", npaths(9, 5), npaths(9, 6), s_roundwords, "all keys, values and multi-values of 0..5 of 9 special tokens written and read again", "0..6");
    P("round-trip-sizes", 5 * 700, 5 * 3000, s_roundsizes, "0..699 items, keys, values and value lists of all sizes", "0..2999");
    P("items", 3 * 100, 3 * 1000, s_construct, "items of 0..99 values");
    static auto conf = [](int k) { std::vector<Item> v; for (int j = 0; j < 2 + k % 3; j++) { Item x; x.key = j % 2 ? strf("many%d", j) : strf("one%d", j); if (j % 2) for (int q = 0; q <= k; q++) x.multi.push_back(strf("v%d-%d", k, q)); else x.value = strf("value %d ", k) + pat(k * 90, k); v.push_back(x); } return v; };
    static auto rec = [](void *out, conf_item *it) -> int { str *o = (str *)out; *o += show(item_of(it, sw(S(it->key), "many"))); return 0; };
    static auto keys = [](Flags &f) { for (int j = 0; j < 4; j++) { f.keep.push_back(Buf::z(j % 2 ? strf("many%d", j) : strf("one%d", j))); f.f.flags[f.f.size].key = f.keep.back(); f.f.flags[f.f.size].is_multi = j % 2; f.f.size++; } };
    static auto path_k = [](int k) { return SCR + strf("/root/etc/duo%d.conf", k); };
    static auto txt_k = [](int k) { str t; for (auto &x : conf(k)) t += " " + x.key + " = " + (x.multi.empty() ? x.value : joinv(x.multi, " , ")) + "\n"; return t; };
    duo_suite("C22", {{"conf_parse_line", [](int k) { str o; for (bool mu : {false, true}) { Buf b = Buf::z(strf(" key%d = a%d, b c , %s,,d=e \n", k, k, pat(k * 20, k).c_str())); conf_item *c = conf_parse_line(b, mu); if (!c) return str("nothing"); o += show(item_of(c, mu)); free_conf_item(c); } return o; }},
      {"parse", [](int k) { put_file(path_k(k), txt_k(k)); Flags f; keys(f); Buf p = Buf::z(path_k(k)); str o; int rv = parse(p, rec, &o, f.f); return o + strf("%d", rv); }},
      {"write_conf", [](int k) { int kk = k; Buf p = Buf::z(path_k(k)); int rv = write_conf(&kk, [](void *in) -> serializable * { int k = *(int *)in; std::vector<conf_item *> v; for (auto &x : conf(k)) v.push_back(make(x)); v.push_back(nullptr); return new_serializable(mc_strdup(path_k(k).c_str()), v.data(), (int)v.size() - 1); }); str t; get_file(path_k(k), t); return t + strf("%d", rv); }},
      {"text forms", [](int k) { str o; std::vector<conf_item *> v; for (auto &x : conf(k)) { v.push_back(make(x)); char *t = conf_item_to_string(v.back()); o += S(t); mc_free(t); } v.push_back(nullptr); serializable *s = new_serializable(mc_strdup(path_k(k).c_str()), v.data(), (int)v.size() - 1); char *t = serializable_to_string(s); o += S(t); mc_free(t); free_serializable(s); return o; }},
      {"get_key_flag", [](int k) { Flags f; keys(f); Buf q = Buf::z(k % 2 ? strf("many%d", k) : strf("one%d", k)); key_flag g = get_key_flag(q, f.f); return S(g.key) + strf("%d", g.key ? g.is_multi : -1); }}});
    P("write-failures", 2, 2, s_writefail, "files that cannot be written");
  }
} reg;
