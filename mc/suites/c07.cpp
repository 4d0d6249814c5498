// C07: static requests never reach a file outside the static root.
#include "common.h"
static const char *SECRET = "TOPSECRET";
static str stroot;
static void files() {
  reset_files(); str r = SCR + "/root";
  put_file(r + "/www/index.html", "INDEX"); put_file(r + "/www/a/index.html", "AINDEX"); put_file(r + "/www/a/file.txt", "AFILE"); put_file(r + "/www/etc/inner", "INNER"); put_file(r + "/www/secret", "PUBLIC");
  put_file(r + "/etc/secret", SECRET); put_file(r + "/etc/index.html", SECRET); put_file(r + "/secret", SECRET); put_file(r + "/index.html", SECRET); put_file(r + "/wwwx/secret", SECRET); put_file(r + "/wwwx/index.html", SECRET); put_file(r + "/ssl/key.pem", SECRET); put_file(r + "/ssl/cert.pem", SECRET);
  put_file(SCR + "/secret", SECRET); put_file(SCR + "/index.html", SECRET); put_file(SCR + "/etc/secret", SECRET); put_file(SCR + "/cwd/secret", SECRET); put_file(SCR + "/upload/secret", SECRET);
}
static bool under(const str &p, const str &d) { return p == d || sw(p, d + "/"); }
static Result check(const str &request, bool tls, Ctx &c, const str &root = "") {
  begin(); setup_globals(tls); if (!root.empty()) strcpy(WAYUU_STATIC_ROOT, root.c_str());
  serve(1); run(); size_t o0 = E->opens.size(), e0 = E->escapes.size();
  Conn *q = client("10.0.0.1", request, END_EOF); run(); NOMISUSE; c.outcome(fnv(q->out));
  if (has(q->out, SECRET)) return bad("content of a file outside the static root was returned: %s", esc(q->out, 200).c_str());
  if (E->escapes.size() > e0) return bad("tried to open %s", E->escapes[e0].c_str());
  for (size_t k = o0; k < E->opens.size(); k++) { auto &o = E->opens[k]; if (!o.ok) continue; if (o.path == ETC() + "/allow" || o.path == ETC() + "/deny" || o.path == ETC() + "/limits" || sw(o.path, SCR + "/log/")) continue; if (o.write || !under(o.path, WWW())) return bad("opened %s, which is outside the static root", o.path.c_str()); }
  int st = status_of(q); if (st <= 0 && !request.empty()) return bad("no well-formed response: %s", esc(q->out, 80).c_str());
  return good();
}
static const strs &segs() { static strs v = {"..", ".", "", "a", "etc", "secret", "www", "wwwx", "%2e%2e", "..%2f", "...", ".. ", "..;", "index.html"}; return v; }
static const strs &sufs() { static strs v = {"", "/", "?x", "?/../secret", "/..", "/../"}; return v; }
static void s_words(long i, Ctx &c) {
  Mix m(i); int suf = m(6); auto w = word(m.n, 14, 1); str u; for (int x : w) u += "/" + segs()[x]; u += sufs()[suf];
  c.desc = "GET " + u; c.one([&] { return check(get_(u), false, c); });
  if (i % 20011 == 0) c.sample(c.desc);
}
// ---- URLs that do not begin with '/', other methods, odd spellings
static void s_odd(long i, Ctx &c) {
  static const strs U = {"..", "../secret", "../etc/secret", "../wwwx/secret", "x/secret", "x", "a/../../secret", "./../secret", "http://host/../secret", "http://../secret", "*", "\\..\\secret", "/\\../secret", "//../secret", "///..///secret", "/./../secret", "/a/.././../secret", "/..//secret", "/../", "/..", "..", ".", "/.", "/a/..", "/a/../", "/a/../..", "/a/../../", "/a//../../secret", "/api/../../secret", "/api/../../etc/secret", "/API/../../secret", "/apix/../../secret", "/favicon.ico/../../secret", "/index.html/../../secret", "/%2e%2e/secret", "/%2e%2e%2fsecret", "/..%00/secret", "/..%5csecret", "/..\\secret", "/....//secret", "/..././secret", "/.../secret", "/..;/secret", "/a/..;/..;/secret", "/?/../../secret", "/x?../secret", "?../secret", "?", "/../etc/secret?x=/a", "/..?/secret", "/..#/secret", "#/../secret", "x/secret", "x/../secret", "/\x01../secret", "/..\x01/secret", "/~/../../secret", "~root/secret", "/a/b/c/../../../../secret", "/a/b/c/../../../secret"};
  static const strs M = {"GET", "get", "POST", "PUT", "DELETE", "HEAD"}; static const strs T = {" HTTP/1.1\r\n\r\n", "\r\n\r\n", "\t HTTP/1.0\r\n\r\n", "\n\n", " HTTP/1.1\r\nHost: ../../secret\r\nX-Real-IP: ../secret\r\nReferer: /../secret\r\n\r\n"};
  Mix m(i); str u = U[m((int)U.size())], me = M[m(6)], t = T[m(5)]; bool tls = m(2); c.desc = strf("%s %s%s", me.c_str(), esc(u).c_str(), tls ? " (TLS)" : "");
  c.one([&] { return check(me + " " + u + t, tls, c); });
  if (i % 301 == 0) c.sample(c.desc);
}
static long nodd() { return 60l * 6 * 5 * 2; }
// ---- absolute names of the secrets
static void s_abs(long i, Ctx &c) {
  strs P = {SCR + "/root/etc/secret", SCR + "/root/secret", SCR + "/secret", SCR + "/root/wwwx/secret", "/etc/passwd", "/root/.bashrc", "/var/log/wayuu.log", "/tmp/wayuu/secret"}; strs F = {"", "/", "//", "/.", "/..", "/a/..", "."};
  Mix m(i); str u = F[m(7)] + P[m(8)]; c.desc = "GET " + u; c.one([&] { return check(get_(u), false, c); });
}
// ---- deep paths: k folders down, j up, every length the server accepts
static void s_deep(long i, Ctx &c) {
  Mix m(i); int k = m(40), j = m(80); int form = m(3); str down = form == 0 ? "/a" : form == 1 ? "/." : "/"; str u = rep(down, k) + rep("/..", j) + "/secret"; if (u.size() > 260) return;
  c.desc = strf("%d x \"%s\" then %d x \"/..\" then /secret", k, down.c_str(), j); c.one([&] { return check(get_(u), false, c); });
  if (i % 2003 == 0) c.sample(c.desc);
}
static void s_long(long i, Ctx &c) { // URL lengths around the limit, the parent steps at the cut
  Mix m(i); int n = 200 + m(90); int tail = m(6); static const char *T[] = {"/../../secret", "/..", "/../", "/../..", "/../secret", "/..secret"}; str t = T[tail]; if ((int)t.size() >= n) return; str p; while (p.size() + t.size() < (size_t)n) p += p.size() % 5 ? "a" : "/"; str u = p + t;
  c.desc = strf("URL of %d characters ending in %s", (int)u.size(), T[tail]); c.one([&] { return check(get_(u), false, c); });
}
// ---- parent steps after a long way that exists
static void s_far(long i, Ctx &c) {
  static const strs T = {"/..", "/../", "/../..", "/../../", "/../secret", "/../../secret", "/../../../secret", "/../etc/secret", "/../../etc/secret", "/../../../etc/secret", "/../wwwx/secret", "/../x", "/../../x", "/../../../x", "/../../../../x"}; static const char *K[] = {"slashes", "single dots", "folders", "one long folder", "a long folder and slashes"};
  Mix m(i); int k = m(5), t = m((int)T.size()), up = m(2); int n = 60 + (int)m.n; str p, tail = (up ? "/.." : "") + T[t]; if (k == 0) p = rep("/", n); else if (k == 1) { while ((int)p.size() < n) p += "/."; } else if (k == 2) { while ((int)p.size() < n) p += "/a"; } else if (k == 3) p = "/" + pat(n - 1, 2); else p = "/" + pat(n / 2, 2) + rep("/", n - n / 2 - 1); if (p.size() + tail.size() > 256) return; if (k == 3 && n > 250) return;
  c.desc = strf("%d characters of %s, then %s", (int)p.size(), K[k], tail.c_str());
  c.one([&] { put_file(SCR + "/x", SECRET); put_file(SCR + "/root/x", SECRET); str d = WWW(); if (k == 2) mkdirs(d + p); if (k == 3) mkdirs(d + p); if (k == 4) mkdirs(d + p.substr(0, n / 2 + 1)); Result r = check(get_(p + tail), false, c); if (k == 2) wipe(d + "/a/a"); if (k == 3) ::rmdir((d + p).c_str()); if (k == 4) ::rmdir((d + p.substr(0, n / 2 + 1)).c_str()); return r; });
  if (i % 2001 == 0) c.sample(c.desc);
}
// ---- another static root, with and without trailing slash
static void s_roots(long i, Ctx &c) {
  Mix m(i); int rt = m(3); int suf = m(6); auto w = word(m.n, 8, 1); str root = rt == 0 ? WWW() + "/" : rt == 1 ? WWW() + "//" : SCR + "/root/./www"; str u; for (int x : w) u += "/" + segs()[x]; u += sufs()[suf];
  c.desc = strf("static root form %d, GET %s", rt, u.c_str()); c.one([&] { return check(get_(u), false, c, root); });
}
// ---- a sequence on one worker: an earlier request leaves nothing that lets a later one out
static void s_seq(long i, Ctx &c) {
  static const strs U = {"/", "/a/", "/../secret", "/a/file.txt", "/nofile", "/../etc/secret", "/a/../../secret", "/favicon.ico", "/api/x"}; auto w = word(i, 9, 2); str d; for (int x : w) d += " " + U[x]; c.desc = "sequence" + d;
  c.one([&] {
    begin(); setup_globals(); serve(1); run(); size_t e0 = E->escapes.size(), o0 = E->opens.size();
    for (int x : w) { Conn *q = client("10.0.0.1", get_(U[x]), END_EOF); run(); NOMISUSE; if (has(q->out, SECRET)) return bad("%s returned a file outside the static root", U[x].c_str()); }
    if (E->escapes.size() > e0) return bad("tried to open %s", E->escapes[e0].c_str());
    for (size_t k = o0; k < E->opens.size(); k++) if (E->opens[k].ok && !under(E->opens[k].path, WWW()) && !sw(E->opens[k].path, ETC()) && !sw(E->opens[k].path, SCR + "/log")) return bad("opened %s", E->opens[k].path.c_str());
    c.outcome(fnv(d)); return good();
  });
}
static struct Reg {
  Reg() {
    worker_init = [] { files(); };
    add_suite({"C07", "paths", [](bool th) { return 6 * npaths(14, th ? 5 : 4, 1); }, s_words, 20, "all URLs of 1..4 segments over 14 segments x 6 suffixes", "1..5 segments"});
    add_suite({"C07", "odd", [](bool) { return nodd(); }, s_odd, 20, "60 odd URLs x 6 methods x 5 request forms, plain and TLS"});
    add_suite({"C07", "absolute", [](bool) { return 56l; }, s_abs, 20, "absolute names of files outside the root"});
    add_suite({"C07", "deep", [](bool) { return 40l * 80 * 3; }, s_deep, 20, "0..39 steps down, 0..79 up"});
    add_suite({"C07", "lengths", [](bool) { return 90l * 6; }, s_long, 20, "URLs of 200..289 characters ending in parent steps"});
    add_suite({"C07", "far", [](bool) { return 5l * 15 * 2 * 196; }, s_far, 20, "parent steps after 60..255 characters of a way that exists, 5 kinds x 30 tails"});
    add_suite({"C07", "roots", [](bool) { return 3l * 6 * npaths(8, 3, 1); }, s_roots, 20, "3 spellings of the static root x URLs of 1..3 segments"});
    add_suite({"C07", "sequences", [](bool th) { return npaths(9, th ? 4 : 3, 2); }, s_seq, 20, "all sequences of 2..3 of 9 requests", "2..4"});
  }
} reg;
