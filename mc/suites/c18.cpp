// C18: a request's outcome does not depend on earlier requests.
#include "obs.h"

static const char *IP = "10.0.0.50";
static Obs alone(const str &bytes, bool tls, EndKind end = END_EOF) {   // on a fresh server
  static std::map<str, Obs> memo; str key = strf("%d%d", tls, end) + bytes; auto it = memo.find(key); if (it != memo.end()) return it->second;
  begin(); E->fill = 0; std_server(1, tls); run(); Obs o = observe(IP, bytes, end); str m = misuse(); if (!m.empty()) o.out = "MISUSE " + m; memo[key] = o; return o;
}
// how an earlier request ends
enum { W_NORMAL, W_CUT, W_RESET, W_SENDFAIL, W_TLSFAIL, W_FOPEN, W_WAYS };
static const char *WN[] = {"complete", "client leaves half way", "client resets half way", "client gone when answered", "TLS failure", "no file can be opened"};
static void before(const str &bytes, int way, const str &ip = "10.0.0.9") {
  str b = bytes; EndKind e = END_EOF; if (way == W_CUT) b.resize(b.size() * 2 / 3); if (way == W_RESET) { b.resize(b.size() / 2); e = END_RESET; }
  Conn *q = client(ip, b, e); if (way == W_SENDFAIL) q->fail_send_at = 0; if (way == W_TLSFAIL) { q->tls_handshake_fails = true; q->fail_send_at = 0; }
  if (way == W_FOPEN) for (int k = 0; k < 6; k++) E->call_fail["fopen"][E->call_count["fopen"] + k] = 24;
  run(); E->call_fail.clear();
}
static Result compare(Ctx &c, const std::vector<std::pair<int, int>> &A, int b, bool tls, unsigned char fill) {
  const str &B = corpus()[b].bytes; Obs want = alone(B, tls);
  begin(); E->fill = fill; E->call_fail["-"][0] = 1; std_server(1, tls); run(); for (auto &a : A) before(corpus()[a.first].bytes, a.second); NOMISUSE;
  Obs got = observe(IP, B); NOMISUSE; c.outcome(fnv(got.out + got.seen + got.log)); str d = diff_obs(got, want); if (!d.empty()) return bad("%s", d.c_str()); return good();
}
static const unsigned char FILLS[] = {0x41, 0xAA, 0xFF, 0x0A};
static void s_pairs(long i, Ctx &c) {
  int n = (int)corpus().size(); Mix m(i); int a = m(n), b = m(n), way = m(W_WAYS); bool tls = m(2); if (way == W_TLSFAIL && !tls) return; if (!c.thorough && tls && way != W_NORMAL && way != W_TLSFAIL) return;
  c.desc = strf("\"%s\" (%s), then \"%s\"%s", corpus()[a].name, WN[way], corpus()[b].name, tls ? ", TLS" : ""); c.one([&] { return compare(c, {{a, way}}, b, tls, FILLS[(a + b + way) % 4]); });
  if (i % 4001 == 0) c.sample(c.desc);
}
static void s_fills(long i, Ctx &c) {
  int n = (int)corpus().size(); Mix m(i); int b = m(n), tls = m(2), f = m(256); c.desc = strf("\"%s\"%s with uninitialised memory holding byte %d", corpus()[b].name, tls ? ", TLS" : "", f); c.one([&] { return compare(c, {}, b, tls, f); });
}
static const char *SUB[] = {"api get with query", "api post item", "filter refuses", "multipart", "multipart item", "handler login", "big file", "many headers", "long session", "far too long url", "limit zero", "body too short", "nothing", "garbage", "cookie session", "long content type"};
static void s_triples(long i, Ctx &c) {
  Mix m(i); int a = m(16), b = m(16), t = m((int)corpus().size()), w1 = m(2); c.desc = strf("\"%s\"%s, \"%s\", then \"%s\"", SUB[a], w1 ? " (client leaves)" : "", SUB[b], corpus()[t].name); if (!c.thorough && w1) return;
  c.one([&] { return compare(c, {{corpus_index(SUB[a]), w1 ? W_CUT : W_NORMAL}, {corpus_index(SUB[b]), W_NORMAL}}, t, false, FILLS[(a + b + t) % 4]); });
}
static void s_long(long i, Ctx &c) {   // long histories: past the size of every table
  Mix m(i); int a = m(16), way = m(4), b = m(8); bool tls = m(2); static const char *T[] = {"api get with query", "multipart", "limited", "text file", "filter accepts", "limited static", "handler login", "long url"}; int reps = c.thorough ? 3000 : 1100; c.desc = strf("%d times \"%s\" (%s), then \"%s\"%s", reps, SUB[a], WN[way], T[b], tls ? ", TLS" : ""); if (!c.thorough && (tls || b != (a + way) % 8)) return;
  c.one([&] { std::vector<std::pair<int, int>> h(reps, {corpus_index(SUB[a]), way}); return compare(c, h, corpus_index(T[b]), tls, 0x41); });
}
// ---- the same request again and again, another one after each
static void s_repeat(long i, Ctx &c) {
  static const char *T[] = {"api get with query", "multipart", "limited", "text file", "filter accepts", "handler login", "api post item", "garbage", "filter refuses", "cookie session"}; static const int W[] = {W_NORMAL, W_CUT, W_SENDFAIL}; Mix m(i); int a = m((int)corpus().size()), b = m(10), way = W[m(3)]; bool tls = m(2); if (tls && !c.thorough && (a + b) % 4) return; int reps = c.thorough ? 140 : 36; const str &B = corpus()[corpus_index(T[b])].bytes;
  c.desc = strf("%d times \"%s\" (%s), \"%s\" after each%s", reps, corpus()[a].name, WN[way], T[b], tls ? ", TLS" : "");
  c.one([&] { Obs want = alone(B, tls); begin(); E->call_fail["-"][0] = 1; std_server(1, tls); run(); Obs got; for (int k = 0; k < reps; k++) { before(corpus()[a].bytes, way); NOMISUSE; got = observe(IP, B); NOMISUSE; str d = diff_obs(got, want); if (!d.empty()) return bad("after %d: %s", k + 1, d.c_str()); } c.outcome(fnv(got.out + got.seen + got.log)); return good(); });
  if (i % 401 == 0) c.sample(c.desc);
}
// ---- the same connection number, address and worker: values of one request must not appear in the next
static strs parts(int v) { str s = v ? "SECRET" : "OTHER"; return {"X-Session: " + s + "1", "Authorization: " + s + "2", "Cookie: WSSESSION=" + s + "3", "Content-Type: text/" + s, "X-Real-IP: 10.1.1." + str(v ? "7" : "8"), "Referer: " + s + "4", "User-Agent: " + s + "5", "X-Other: " + s + "6"}; }
static void s_headers(long i, Ctx &c) {   // every subset of 8 headers, before every subset
  Mix m(i); int a = m(256), b = m(256), k = m(2); static const char *U[] = {"/api/echo", "/b.bin"}; c.desc = strf("headers %02x, then headers %02x (%s)", a, b, U[k]); strs A, B; for (int x = 0; x < 8; x++) { if (a >> x & 1) A.push_back(parts(1)[x]); if (b >> x & 1) B.push_back(parts(0)[x]); }
  if (!c.thorough && k == 1) return;
  c.one([&] {
    str rb = get_(U[k], B), ra = post_("/api/item/SECRETP?SECRETQ", "SECRETF", A); Obs want = alone(rb, false); begin(); E->fill = 0x55; std_server(1); run(); client(IP, ra); run(); Obs got = observe(IP, rb); NOMISUSE; c.outcome(fnv(got.seen)); str d = diff_obs(got, want); if (!d.empty()) return bad("%s", d.c_str()); if (has(got.out + got.seen + got.log, "SECRET")) return bad("data of the earlier request appears: %s", esc(got.out + got.seen, 400).c_str()); return good();
  });
}
// ---- uploads: the same content uploaded again, by several requests, with files of other uploads around
static void s_uploads(long i, Ctx &c) {
  auto w = word(i, 6, 2); str d; for (int x : w) d += strf(" %d", x); c.desc = "uploads of contents" + d;
  static const strs C = {"", "short", binpat(513), binpat(512), rep("x", 2000), "short "};
  c.one([&] {
    begin(); E->fill = 0x41; std_server(1); run(); wipe(SCR + "/upload"); str name;
    for (size_t k = 0; k < w.size(); k++) {
      str b = "--B\r\nContent-Disposition: form-data; name=\"f\"; filename=\"n\"\r\n\r\n" + C[w[k]] + "\r\n--B--\r\n"; size_t s0 = seen.size(); Conn *q = ask(post_("/api/echo", b, {"Content-Type: multipart/form-data; boundary=B"})); NOMISUSE; if (status_of(q) != 200) return bad("upload answered %s", esc(q->out, 60).c_str());
      str f = seen[s0].form; size_t p = f.find("&tmpfile="); if (p == str::npos) return bad("no temporary file in %s", esc(f).c_str()); str got; if (!get_file(SCR + "/upload/" + f.substr(p + 9), got)) return bad("temporary file is not there"); if (got != C[w[k]]) return bad("upload %zu stored %s instead of %s", k, esc(got, 60).c_str(), esc(C[w[k]], 60).c_str());
    }
    c.outcome(i); return good();
  });
}
// ---- uploads whose names have different lengths
static void s_upload_names(long i, Ctx &c) {
  auto w = word(i, 9, 2); static const int L[] = {0, 1, 39, 40, 41, 63, 100, 254, 300}; c.desc = "uploads with file names of"; for (int x : w) c.desc += strf(" %d", L[x]); c.desc += " characters";
  c.one([&] {
    auto up = [](int x, int k) { return post_(k % 2 ? "/api/item/5" : "/api/echo", "--B\r\nContent-Disposition: form-data; name=\"f" + pat(L[x] / 2, k) + "\"; filename=\"" + pat(L[x], 7) + "\"\r\n\r\nsome data\r\n--B\r\nContent-Disposition: form-data; name=\"t\"\r\n\r\n" + pat(L[x], 8) + "\r\n--B--\r\n", {"Content-Type: multipart/form-data; boundary=B"}); };
    size_t last = w.size() - 1; wipe(SCR + "/upload"); ::rmdir((SCR + "/upload").c_str()); Obs want = alone(up(w[last], 0), false); wipe(SCR + "/upload"); ::rmdir((SCR + "/upload").c_str()); begin(); E->fill = FILLS[i % 4]; std_server(1); run(); for (size_t k = 0; k < last; k++) { ask(up(w[k], (int)k)); NOMISUSE; }
    Obs got = observe(IP, up(w[last], 0)); mkdirs(SCR + "/upload"); NOMISUSE; c.outcome(fnv(got.seen)); str d = diff_obs(got, want); if (!d.empty()) return bad("%s", d.c_str()); return good();
  });
}
static struct Reg {
  Reg() {
    worker_init = [] { reset_files(); std_files(); };
    add_suite({"C18", "pairs", [](bool) { long n = corpus().size(); return n * n * W_WAYS * 2; }, s_pairs, 20, "all ordered pairs of 69 requests, the first ending in one of 6 ways (TLS: complete and handshake failure); response, handler view, stored files and log record of the second compared with those on a fresh server", "all endings over TLS too"});
    add_suite({"C18", "memory-contents", [](bool) { return (long)corpus().size() * 2 * 256; }, s_fills, 20, "69 requests with uninitialised memory holding each byte value, plain and TLS"});
    add_suite({"C18", "triples", [](bool) { return 16l * 16 * corpus().size() * 2; }, s_triples, 20, "all pairs of 16 requests before each of 69 requests", "also with the first cut off"});
    add_suite({"C18", "headers", [](bool) { return 256l * 256 * 2; }, s_headers, 20, "every subset of 8 headers in one request before every subset in the next (API)", "API and static"});
    add_suite({"C18", "long-histories", [](bool) { return 16l * 4 * 8 * 2; }, s_long, 300, "1100 earlier requests (past the size of every table) of 16 kinds and 4 endings", "3000 earlier requests, plain and TLS"});
    add_suite({"C18", "repeated", [](bool) { return (long)corpus().size() * 60; }, s_repeat, 60, "36 times each request of the corpus, ending in 3 ways, one of 10 requests after each", "140 times"});
    add_suite({"C18", "upload-names", [](bool th) { return npaths(9, th ? 4 : 3, 2); }, s_upload_names, 20, "all sequences of 2..3 uploads with field, file and text lengths of 9 kinds; the last must be seen as on a fresh server", "2..4 uploads"});
    add_suite({"C18", "uploads", [](bool th) { return npaths(6, th ? 6 : 4, 2); }, s_uploads, 20, "all sequences of 2..4 uploads of 6 contents", "2..6 uploads"});
  }
} reg;
