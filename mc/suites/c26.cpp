// C26: file helpers read and write exactly the given bytes.
#include "common.h"
#include "duo.h"
#include <sys/stat.h>
static str P(int k = 0) { return SCR + strf("/root/etc/f%d", k); }
static void fresh() { begin(); reset_files(); }
static bool node(const str &p, struct stat &s) { return ::stat(p.c_str(), &s) == 0; }
// ---- read_file
static Result rd(const str &path, const str *content, uint64_t maxlen, size_t room) {
  Buf p = Buf::z(path), o(str(room, 0x55)); read_file(o, p, maxlen); str w = content ? *content : ""; if (maxlen > 0 && w.size() > maxlen - 1) w.resize(maxlen - 1);
  for (size_t k = 0; k < w.size(); k++) if (o.p[k] != w[k]) return bad("byte %zu of %zu is %d instead of %d", k, w.size(), (unsigned char)o.p[k], (unsigned char)w[k]); if (o.p[w.size()] != 0) return bad("the result is not terminated after %zu bytes", w.size()); if (E->open_files) return bad("%d files are left open", E->open_files); return good();
}
static void s_read(long i, Ctx &c) {
  Mix m(i); int n = m(130), mx = (int)m.n; c.desc = strf("file of %d bytes read with a maximum of %d", n, mx); c.outcome(i);
  c.one([&] { fresh(); str d = binpat(n, 7); put_file(P(), d); return rd(P(), &d, mx, mx ? std::max(1, std::min(mx, n + 1)) : n + 1); });
}
static void s_readsizes(long i, Ctx &c) {
  static const long B[] = {4095, 4096, 4097, 8191, 8192, 16384, 65535, 65536, 65537, 131072, 1000000, 5000000}; Mix m(i); int d = m(7); long n = m.n < 12 ? B[m.n] : m.n * 100; long mx = d == 0 ? 0 : d == 1 ? n : d == 2 ? n + 1 : d == 3 ? n + 2 : d == 4 ? 1 : d == 5 ? n / 2 + 1 : n + 100000; c.desc = strf("file of %ld bytes read with a maximum of %ld", n, mx); c.outcome(i);
  c.one([&] { fresh(); str t = m.n & 1 ? binpat(n, 3) : str(n, 0); put_file(P(), t); return rd(P(), &t, mx, mx ? std::max(1l, std::min(mx, n + 1)) : n + 1); });
}
static void s_readfail(long i, Ctx &c) {
  static const char *W[] = {"missing", "a folder", "in a missing folder", "not openable", "not readable", "without attributes", "a path through a file", "a FIFO", "over-long path", "empty path"}; Mix m(i); int w = m(10), mx = m(3) * 50; c.desc = str("reading a file that is ") + W[w]; c.outcome(w);
  c.one([&] { fresh(); put_file(P(), "secret content"); str p = P(); if (w == 0) p = P(1); if (w == 1) p = SCR + "/root/etc"; if (w == 2) p = SCR + "/root/none/f"; if (w == 3) E->call_fail["fopen"][0] = EACCES; if (w == 4) E->call_fail["fread"][0] = EIO; if (w == 5) E->call_fail["stat"][0] = EACCES; if (w == 6) p = P() + "/x"; if (w == 7) { ::mkfifo(P(2).c_str(), 0600); p = P(2); } if (w == 8) p = SCR + "/" + rep("d", 5000); if (w == 9) p = "";
    Buf b = Buf::z(p), o(str(64, 0x55)); read_file(o, b, mx); str content = "secret content"; str got(o.p, strnlen(o.p, 64)); if (got.size() == 64) return bad("the result is not terminated"); if (w == 3 || w == 4 || w == 5 ? !got.empty() && got != content.substr(0, mx ? mx - 1 : 99) : !got.empty()) return bad("the result is %s", esc(got).c_str()); if (E->open_files) return bad("left open"); return good(); });
}
// ---- write_file
static Result wr(const str &path, const str &d) { Buf p = Buf::z(path), b(d); write_file(p, b, (int)d.size()); str now; if (!get_file(path, now)) return bad("the file does not exist afterwards"); if (now != d) { size_t k = 0; while (k < now.size() && k < d.size() && now[k] == d[k]) k++; return bad("the file holds %zu bytes instead of %zu, different from %zu", now.size(), d.size(), k); } if (str(b.p, b.n) != d) return bad("the data were changed"); if (E->open_files) return bad("%d files left open", E->open_files); return good(); }
static void s_write(long i, Ctx &c) {
  static const long B[] = {1023, 1024, 2048, 4095, 4096, 4097, 8192, 65535, 65536, 65537, 1000000, 3000000}; Mix m(i); int old = m(5), k = m(4); long n = m.n < 300 ? m.n : B[m.n - 300]; c.desc = strf("writing %ld bytes over %s", n, old ? strf("%d old bytes", old == 1 ? 0 : old == 2 ? 1 : old == 3 ? 500 : 100000).c_str() : "no file"); c.outcome(i);
  c.one([&] { fresh(); if (old) put_file(P(), pat(old == 1 ? 0 : old == 2 ? 1 : old == 3 ? 500 : 100000, 9)); str d = k == 0 ? binpat(n, 5) : k == 1 ? str(n, 0) : k == 2 ? rep("%s\r\n", n / 4 + 1).substr(0, n) : str(n, (char)0xff); Result r = wr(P(), d); if (!r.ok) return r; strs l = list_dir(SCR + "/root/etc"); if (l.size() != 1) return bad("%zu files exist afterwards", l.size()); return rd(P(), &d, 0, n + 1); });
}
static void s_writewords(long i, Ctx &c) { static const strs A = {str(1, 0), "\n", "\r", "a", "\x1a", "\xff", "%n"}; auto w = word(i, 7, 0); str d; for (int x : w) d += A[x]; c.desc = "writing " + esc(d); c.outcome(i); c.one([&] { fresh(); Result r = wr(P(), d); if (!r.ok) return r; r = rd(P(), &d, 0, d.size() + 1); if (!r.ok) return r; r = wr(P(), d + d); if (!r.ok) return r; return wr(P(), d); }); }
static void s_writefail(long i, Ctx &c) {
  static const char *W[] = {"cannot be opened", "is a folder", "is in a missing folder", "cannot be removed first", "takes no bytes", "has no attributes", "has an empty name"}; int w = i % 7; c.desc = str("writing a file that ") + W[w]; c.outcome(w); c.one([&] { fresh(); put_file(P(), "old"); put_file(P(1), "other"); str p = P(); if (w == 0) E->call_fail["fopen"][0] = EACCES; if (w == 1) p = SCR + "/root/etc"; if (w == 2) p = SCR + "/root/none/f"; if (w == 3) E->call_fail["remove"][0] = EACCES; if (w == 4) E->call_fail["fwrite"][0] = ENOSPC; if (w == 5) E->call_fail["stat"][0] = EACCES; if (w == 6) p = ""; Buf b = Buf::z(p), d(i >= 7 ? str() : str("new")); write_file(b, d, (int)d.n); str now, o; get_file(P(), now); get_file(P(1), o); if (o != "other") return bad("another file was changed"); if (w == 1 && list_dir(SCR + "/root/etc").size() != 2) return bad("the folder was changed"); if (E->open_files) return bad("left open"); if ((w == 3 || w == 5) && i < 7 && now != "new") return bad("the file holds %s", esc(now).c_str()); return good(); });
}
static void s_replacefail(long i, Ctx &c) {
  static const long L[] = {0, 1, 2, 3, 5, 10, 100, 511, 512, 513, 1024, 4095, 4096, 4097, 8192, 10000, 65536, 100000}; static const char *W[] = {"the old file cannot be removed", "no attributes can be read", "both", "the old file has no permissions", "the old file is a link"}; Mix m(i); long o = L[m(18)], n = L[m(18)]; int w = m(5), twice = m(2); c.desc = strf("writing %ld bytes over %ld, %s", n, o, W[w]); c.outcome(i);
  c.one([&] { fresh(); str t = P(); if (w == 4) { t = P(9); } put_file(t, binpat(o, 3)); if (w == 4) ::symlink(t.c_str(), P().c_str()); if (w == 3) ::chmod(t.c_str(), 0); if (w == 0 || w == 2) E->call_fail["remove"][0] = EACCES; if (w == 1 || w == 2) E->call_fail["stat"][0] = EACCES; Result r = wr(P(), binpat(n, 5)); if (!r.ok || !twice) return r; return wr(P(), binpat(o, 6)); });
}
// ---- find_in_file
static int want_find(const str &text, const str &needle) { bool strict = false, loose = false; for (auto l : lines_of(text)) { if (!l.empty() && l.back() == '\r') l.pop_back(); if (l == needle) strict = true; if (strip(l) == needle) loose = true; } return strict ? 1 : loose ? -1 : 0; }
static Result fnd(const str &text, const str &needle) { put_file(P(), text); Buf p = Buf::z(P()), n = Buf::z(needle); bool g = find_in_file(p, n); int w = want_find(text, needle); if (w >= 0 && g != (w == 1)) return bad("the answer is %s", g ? "found" : "not found"); if (E->open_files) return bad("left open"); str now; get_file(P(), now); if (now != text) return bad("the file was changed"); if (str(n.p, n.n) != needle + '\0') return bad("the entry was changed"); return good(); }
static void s_find(long i, Ctx &c) { static const strs A = {"a", "b", "\n", " ", "\r\n", "ab", "."}; static const strs N = {"a", "ab", "b", "aab", "a.b", "a b"}; auto w = word(i, 7, 0); str t; for (int x : w) t += A[x]; c.desc = "looking in " + esc(t); c.outcome(i); c.one([&] { fresh(); for (auto &n : N) { Result r = fnd(t, n); if (!r.ok) { r.msg = n + ": " + r.msg; return r; } } return good(); }); }
static void s_findlen(long i, Ctx &c) {
  Mix m(i); int k = m(6), last = m(2); long n = m.n < 1100 ? m.n : (m.n - 1099) * 511; str e = k == 0 ? pat(std::max(1l, n)) : "entry"; str t = k == 0 ? "x\n" + e : k == 1 ? pat(n) + "\n" + e : k == 2 ? rep("other\n", n) + e : k == 3 ? rep("\n", n) + e : k == 4 ? e + rep("y", n) : rep("entr\n", n / 5) + pat(n % 5 + 1) + "\n" + e; if (!last) t += "\n" + pat(n, 4); c.desc = strf("entry in a file of %zu bytes, kind %d", t.size(), k); c.outcome(i); c.one([&] { fresh(); Result r = fnd(t, e); if (!r.ok) return r; r = fnd(t, e + "x"); if (!r.ok) return r; return fnd(t, e.substr(0, e.size() - 1) + "~"); });
}
static void s_findfail(long i, Ctx &c) {
  static const char *W[] = {"missing", "a folder", "not openable", "without attributes", "empty", "with NUL bytes", "a FIFO"}; int w = (int)i; c.desc = str("looking in a file that is ") + W[w]; c.outcome(w); c.one([&] { fresh(); put_file(P(), w == 4 ? "" : w == 5 ? str("a\0entry\n\0\n", 10) : str("entry\n")); str p = P(); if (w == 0) p = P(1); if (w == 1) p = SCR + "/root/etc"; if (w == 2) E->call_fail["fopen"][0] = EACCES; if (w == 3) E->call_fail["stat"][0] = EACCES; if (w == 6) { ::mkfifo(P(2).c_str(), 0600); p = P(2); } Buf b = Buf::z(p), n = Buf::z("entry"); bool g = find_in_file(b, n); if (g && w != 3) return bad("found"); if (E->open_files) return bad("left open"); return good(); });
}
// ---- state queries and folder creation
struct Kind { const char *name; int dir, file; };
static const Kind KD[] = {{"nothing", 0, 0}, {"a file", 0, 1}, {"an empty file", 0, 1}, {"a folder", 1, 0}, {"a link to a file", 0, 1}, {"a link to a folder", 1, 0}, {"a dangling link", 0, 0}, {"a FIFO", 0, 0}, {"a path through a file", 0, 0}, {"a path in a missing folder", 0, 0}, {"an over-long path", 0, 0}, {"an empty path", 0, 0}, {"a folder with a slash", 1, 0}, {"a folder without permissions", 1, 0}, {"the scratch folder", 1, 0}};
static str lay(int k) {
  str p = P(); fresh(); put_file(P(5), "target"); mkdirs(P(6)); switch (k) { case 1: put_file(p, "x"); break; case 2: put_file(p, ""); break; case 3: case 12: mkdirs(p); break; case 4: ::symlink(P(5).c_str(), p.c_str()); break; case 5: ::symlink(P(6).c_str(), p.c_str()); break; case 6: ::symlink(P(7).c_str(), p.c_str()); break; case 7: ::mkfifo(p.c_str(), 0600); break; case 8: return P(5) + "/x"; case 9: return SCR + "/root/none/x"; case 10: return SCR + "/" + rep("n", 5000); case 11: return ""; case 13: mkdirs(p); ::chmod(p.c_str(), 0); break; case 14: return SCR; } return k == 12 ? p + "/" : p;
}
static void s_state(long i, Ctx &c) {
  Mix m(i); int k = m(15), f = m(3); c.desc = str("state of ") + KD[k].name + (f == 1 ? ", attributes cannot be read" : f == 2 ? ", folder cannot be created" : ""); c.outcome(i);
  c.one([&] { str p = lay(k); Buf b = Buf::z(p); if (f == 1) E->call_fail["stat"][0] = EACCES; bool d = is_dir(b); if (f == 1) { return d ? bad("a folder whose attributes cannot be read exists") : good(); } if (d != KD[k].dir) return bad("is_dir is %d", d); bool r = is_file(b); if (r != KD[k].file) return bad("is_file is %d", r); if (f == 2) E->call_fail["mkdir"][0] = EACCES; bool cr = check_createdir(b); bool can = KD[k].dir || (k == 0 && f != 2); if (cr != can) return bad("check_createdir is %d", cr); struct stat s; bool now = node(p, s); if (can && (!now || !S_ISDIR(s.st_mode))) return bad("there is no folder afterwards"); if (!can && now && S_ISDIR(s.st_mode)) return bad("there is a folder although the answer is no"); if (is_dir(b) != can) return bad("is_dir afterwards is %d", !can); if (check_createdir(b) != (can || (k == 0 && f == 2))) return bad("the second check_createdir gives another answer"); str t; if (KD[k].file && (!get_file(k == 4 ? P(5) : p, t) || t != (k == 1 ? "x" : k == 2 ? "" : "target"))) return bad("the file was changed"); return good(); });
}
// ---- all sequences of operations on two paths, compared with a model after every step
static void s_seq(long i, Ctx &c) {
  auto w = word(i, 10, 1); c.desc = "operations"; for (int x : w) c.desc += strf(" %s(%d)", x < 8 ? (x / 2 == 0 ? "write-empty" : x / 2 == 1 ? "write-short" : x / 2 == 2 ? "write-long" : "createdir") : "remove", x & 1);
  c.one([&] { fresh(); int st[2] = {0, 0}; str ct[2]; uint64_t h = 7;   // 0 nothing, 1 file, 2 folder
    for (size_t step = 0; step < w.size(); step++) { int k = w[step] & 1, op = w[step] / 2; Buf p = Buf::z(P(k)); if (op < 3) { str d = op == 0 ? "" : op == 1 ? "entry\nx" : rep("line\n", 2000) + "entry\n"; Buf b(d); write_file(p, b, (int)d.size()); if (st[k] != 2) { st[k] = 1; ct[k] = d; } } else if (op == 3) { bool r = check_createdir(p); if (r != (st[k] != 1)) return bad("step %zu: check_createdir is %d", step, r); if (r) st[k] = 2; } else { ::remove(P(k).c_str()); st[k] = 0; }
      for (int q = 0; q < 2; q++) { Buf b = Buf::z(P(q)), e = Buf::z("entry"); if (is_file(b) != (st[q] == 1) || is_dir(b) != (st[q] == 2)) return bad("step %zu: wrong state of path %d", step, q); str t = st[q] == 1 ? ct[q] : ""; Result r = rd(P(q), &t, 0, t.size() + 1); if (!r.ok) { r.msg = strf("step %zu: ", step) + r.msg; return r; } r = rd(P(q), &t, 8, 8); if (!r.ok) return r; if (find_in_file(b, e) != (st[q] == 1 && t.size() > 3)) return bad("step %zu: wrong search result in path %d", step, q); h = fnv(strf("%d %zu", st[q], ct[q].size()), h); } c.state(fnv(strf("%d %d %zu %zu", st[0], st[1], st[0] == 1 ? ct[0].size() : 0, st[1] == 1 ? ct[1].size() : 0))); } c.outcome(h); return good(); });
}
static struct Reg {
  Reg() {
    auto A = [](const char *n, long q, long t, void (*f)(long, Ctx &), const char *b, const char *bt = "") { add_suite({"C26", n, [q, t](bool th) { return th ? t : q; }, f, 60, b, bt}); };
    static auto data_k = [](int k) { str t; for (int j = 0; j < 5 + k * 300; j++) t += strf("entry%d of %d\n", j, k); return t; };
    duo_suite("C26", {{"read_file", [](int k) { put_file(P(10 + k), data_k(k)); Buf p = Buf::z(P(10 + k)), o(str(data_k(k).size() + 1, 0x55)); read_file(o, p, k % 2 ? data_k(k).size() / 2 : 0); return S(o); }},
      {"write_file", [](int k) { str d = binpat(1 + k * 3000, k); Buf p = Buf::z(P(20 + k)), b(d); write_file(p, b, (int)d.size()); str n; get_file(P(20 + k), n); return n; }},
      {"find_in_file", [](int k) { put_file(P(30 + k), data_k(k)); Buf p = Buf::z(P(30 + k)), y = Buf::z(strf("entry%d of %d", 3 + k * 200, k)), n = Buf::z(strf("entry%d of %d", 3, k + 1)); bool a = find_in_file(p, y), b = find_in_file(p, n); return strf("%d%d", a, b); }},
      {"states", [](int k) { str q = SCR + strf("/root/etc/dir%d", k); ::rmdir(q.c_str()); put_file(P(40 + k), "x"); Buf p = Buf::z(P(40 + k)), d = Buf::z(q); str o; o += strf("%d%d", is_file(p), is_dir(p)); o += strf("%d%d", is_file(d), is_dir(d)); o += strf("%d", check_createdir(d)); o += strf("%d%d", is_file(d), is_dir(d)); ::rmdir(q.c_str()); return o; }}});
    A("read", 130 * 135, 130 * 135, s_read, "files of 0..129 bytes x maxima 0..134");
    A("read-sizes", 7 * 312, 7 * 1200, s_readsizes, "files of up to 5 MB x 7 maxima around their size");
    A("read-failures", 30, 30, s_readfail, "10 kinds of unreadable files x 3 maxima");
    A("write", 20 * 312, 20 * 312, s_write, "0..299 and 12 larger sizes x 4 contents x 5 previous files, read back");
    A("write-words", npaths(7, 5), npaths(7, 6), s_writewords, "all contents of 0..5 of 7 tokens, rewritten longer and shorter", "0..6");
    A("write-failures", 14, 14, s_writefail, "7 kinds of unwritable files, empty and non-empty data");
    A("replace-failures", 18 * 18 * 10, 18 * 18 * 10, s_replacefail, "18 x 18 old and new lengths x old file cannot be removed, or its attributes not read, or is protected or a link");
    A("find", npaths(7, 6), npaths(7, 7), s_find, "all files of 0..6 of 7 tokens x 6 entries", "0..7");
    A("find-sizes", 12 * 1180, 12 * 1500, s_findlen, "entry after and in lines of 0..1099 and, in steps, up to 40000 bytes and lines; followed by more or last");
    A("find-failures", 7, 7, s_findfail, "7 kinds of unreadable files");
    A("state", 45, 45, s_state, "15 kinds of paths x 3 faults for is_dir, is_file and check_createdir");
    A("sequences", npaths(10, 4, 1), npaths(10, 5, 1), s_seq, "all sequences of 1..4 of 10 operations on two paths, every query after every step", "1..5");
  }
} reg;
