// C11: handlers see method, URL, path, query string and path parameter exactly as sent.
#include "conc.h"

static void start(bool tls = false, unsigned char fill = 0) { begin(); E->fill = fill; setup_globals(tls); if (tls) tls_files(); for (auto m : {"GET", "POST", "PUT", "DELETE"}) { route(str(m) + ":/const", 0, 0); route(str(m) + ":/item/{id}", 1, 1); route(str(m) + ":{all}", 2, 2); route(str(m) + ":", 3, 3); } serve(1); run(); }
struct Want { str method, url, path, query, form; };
static Result view(const Seen &s, const Want &w, const str &what) {
  const char *who = s.filter ? "filter" : "handler";
  if (s.method != w.method) return bad("%s: the %s sees method %s instead of %s", what.c_str(), who, esc(s.method).c_str(), w.method.c_str());
  if (s.url != w.url) return bad("%s: the %s sees URL %s instead of %s", what.c_str(), who, esc(s.url, 300).c_str(), esc(w.url, 300).c_str());
  if (s.path != w.path) return bad("%s: the %s sees path %s instead of %s", what.c_str(), who, esc(s.path, 300).c_str(), esc(w.path, 300).c_str());
  if (s.query != w.query) return bad("%s: the %s sees query %s instead of %s", what.c_str(), who, esc(s.query, 300).c_str(), esc(w.query, 300).c_str());
  if (s.form != w.form) { size_t k = 0; while (k < s.form.size() && k < w.form.size() && s.form[k] == w.form[k]) k++; return bad("%s: the %s sees form data of %zu bytes instead of %zu, different from offset %zu: ...%s", what.c_str(), who, s.form.size(), w.form.size(), k, esc(s.form.substr(k > 10 ? k - 10 : 0), 60).c_str()); }
  return good();
}
// expected view of a request for `url` (which begins with /api)
static Want want_of(const str &method, const str &url, const str &body = "") {
  Want w; w.method = method; w.url = url; size_t q = url.find('?'); w.path = url.substr(4, q == str::npos ? str::npos : q - 4); w.query = q == str::npos ? "" : url.substr(q + 1); w.form = body; str p;
  if (w.path == "/const" || w.path == "") p = ""; else if (sw(w.path, "/item/") && w.path.size() > 6) p = "id=" + w.path.substr(6); else p = "all=" + w.path;
  if (!p.empty()) w.form = body.empty() ? p : body + "&" + p; return w;
}
static Result ask_url(const str &method, const str &url, const str &body, const strs &hdr, bool may_refuse, str &sig, const str &line = "") {
  size_t n0 = seen.size(); strs h = hdr; if (!body.empty()) h.push_back(strf("Content-Length: %zu", body.size()));
  Conn *q = client("10.0.0.1", req(line.empty() ? method + " " + url + " HTTP/1.1" : line, h, body), END_BLOCK); run(); NOMISUSE;
  str what = strf("%s, URL of %zu characters, body of %zu", method.c_str(), url.size(), body.size()); int st = status_of(q); sig += strf("%d,", st);
  if (may_refuse && seen.size() == n0) { if (st != 400) return bad("%s: refused with %s instead of 400", what.c_str(), esc(q->out, 50).c_str()); return good(); }
  if (seen.size() != n0 + 2 || st != 200) return bad("%s: not handled (%zu handlers and filters ran): %s", what.c_str(), seen.size() - n0, esc(q->out, 60).c_str());
  Want w = want_of(method, url, body); Result r = view(seen[n0], w, what); if (!r.ok) return r; return view(seen[n0 + 1], w, what);
}
// ---- every URL length and every position of the '?'
static const unsigned char FILLS[] = {0, 0xff, 'A'};
static void s_lengths(long i, Ctx &c) {
  Mix m(i); int kind = m(3), fill = m(2), meth = m(2); long L = m.n; L = L < 296 ? L + 5 : L < 296 + 60 ? 1000 + (L - 296) : (L - 355) * 1000; str base = kind == 0 ? "/api/item/" : kind == 1 ? "/api/const" : "/api/";
  if (L < (long)base.size()) return;
  c.desc = strf("URL of %ld characters beginning with %s, method %s, '?' at every position", L, base.c_str(), meth ? "POST" : "GET");
  c.one([&] {
    start(false, FILLS[fill]); str sig; str url = base + pat(L - base.size()); long lo = kind == 1 ? 10 : kind == 0 ? 11 : 5; if (kind == 0 && L < 11) return good();
    if (kind != 1 || L == 10) { Result r = ask_url(meth ? "POST" : "GET", url, meth ? "b=1" : "", {}, L > 254, sig); if (!r.ok) return r; }
    for (long q = lo; q < L; q += (L > 254 ? 37 : 1)) { str u = url; u[q] = '?'; if (kind == 1 && q != 10) break; Result r = ask_url(meth ? "POST" : "GET", u, meth ? "b=1" : "", {}, L > 254, sig); if (!r.ok) return r; c.count("requests"); }
    c.outcome(fnv(sig + strf("%ld", L))); return good();
  });
  if (i % 601 == 0) c.sample(c.desc);
}
// ---- every byte
static void s_bytes(long i, Ctx &c) {
  Mix m(i); int b = m(256), where = m(7), tls = m(2); if (b == 0 || b == 32 || (b >= 9 && b <= 13)) return; if (b == '?' && where < 3) return; str x(1, (char)b);
  str u = where == 0 ? "/api/item/" + x : where == 1 ? "/api/item/v" + x + "w" : where == 2 ? "/api/" + x + "/y" : where == 3 ? "/api/const?" + x : where == 4 ? "/api/const?a" + x + "b=" + x : where == 5 ? "/api/item/v?" + x + x : "/api/item/" + x + x + x + "?" + x; if (where == 6 && b == '?') return;
  c.desc = "URL " + esc(u) + (tls ? ", TLS" : ""); c.one([&] { start(tls); str sig; Result r = ask_url("GET", u, "", {}, false, sig); c.outcome(fnv(sig + u)); return r; });
  if (i % 701 == 0) c.sample(c.desc);
}
// ---- words over URL tokens
static const strs TOK = {"?", "a", "=1", "&b", "/", "..", "%3f", "#f", "//", "item/", ":", "{id}", "api"};
static void s_words(long i, Ctx &c) {
  Mix m(i); int kind = m(3); auto w = word(m.n, (int)TOK.size()); str u = kind == 0 ? "/api/" : kind == 1 ? "/api/item/" : "/api/const?"; for (int x : w) u += TOK[x]; c.desc = "URL " + u;
  c.one([&] { start(); str sig; Result r = ask_url("GET", u, "", {}, false, sig); c.outcome(fnv(sig + u)); return r; });
  if (i % 9001 == 0) c.sample(c.desc);
}
// ---- body and parameter together: no length of either disturbs the other
static std::vector<int> blens(bool th) { std::vector<int> v; for (int k = 0; k <= (th ? 1400 : 300); k++) v.push_back(k); for (int b : {511, 512, 1023, 1024, 1025, 2048, 4095, 4096, 5000, 8192, 16384, 65536}) v.push_back(b); return v; }
static void s_params(long i, Ctx &c) {
  auto B = blens(c.thorough); Mix m(i); int bl = B[m((int)B.size())], kind = m(4), fill = m(3), tls = m(2);
  c.desc = strf("body of %d bytes (kind %d) together with parameter values of many lengths%s", bl, kind, tls ? ", TLS" : "");
  c.one([&] {
    start(tls, FILLS[fill]); str sig, body = kind == 0 ? pat(bl) : kind == 1 ? rep("k=v&", bl / 4 + 1).substr(0, bl) : kind == 2 ? rep("%s%n&&==\r\n\r\n", bl / 12 + 1).substr(0, bl) : allbytes(1, 255); if (kind == 3) { while ((int)body.size() < bl) body += body; body.resize(bl); }
    for (int v : {0, 1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 200, 243, 244}) { str u = v ? "/api/item/" + pat(v, 3) : str("/api/const"); Result r = ask_url(v % 2 ? "POST" : "PUT", u, body, {"Content-Type: application/x-www-form-urlencoded"}, false, sig); if (!r.ok) return r; c.count("requests"); }
    c.outcome(fnv(sig + strf("%d %d", bl, kind))); return good();
  });
  if (i % 401 == 0) c.sample(c.desc);
}
// ---- parameter names
static void s_names(long i, Ctx &c) {
  Mix m(i); int body = m(3), pre = m(3); int n = (int)m.n + 1; str name = pat(n, 2), P = pre == 0 ? "/" : pre == 1 ? "/p/" : "/a/b/c" + pat(100) + "/"; c.desc = strf("parameter name of %d characters, prefix of %zu, body kind %d", n, P.size(), body);
  c.one([&] {
    begin(); setup_globals(); route("POST:" + P + "{" + name + "}", 5); serve(1); run(); str b = body == 0 ? "" : body == 1 ? "x" : pat(77); str val = "va/l=&ue"; size_t n0 = seen.size(); Conn *q = ask(req("POST /api" + P + val + "?q HTTP/1.1", {strf("Content-Length: %zu", b.size())}, b)); NOMISUSE;
    if (seen.size() != n0 + 1) return bad("not handled: %s", esc(q->out, 60).c_str()); str w = (b.empty() ? "" : b + "&") + name + "=" + val; c.outcome(n); if (seen[n0].form != w) return bad("form data is %s instead of %s", esc(seen[n0].form, 200).c_str(), esc(w, 200).c_str()); if (seen[n0].path != P + val || seen[n0].query != "q") return bad("path %s query %s", esc(seen[n0].path).c_str(), seen[n0].query.c_str()); return good();
  });
}
// ---- layout of the request line
static const char *SEP[] = {" ", "  ", "\t", " \t ", "          "};
static const char *TAILS[] = {" HTTP/1.1", " HTTP/1.0", "  HTTP/1.1", "\tHTTP/1.1", " ", " x y z ?q /api/other", " HTTP/1.1 ", ""};
static void s_line(long i, Ctx &c) {
  Mix m(i); str sep = SEP[m(5)], tail = TAILS[m(8)]; int u = m(6), meth = m(4), nl = m(2); static const char *ME[] = {"GET", "POST", "PUT", "DELETE"}; static const char *U[] = {"/api/const", "/api/item/7?x=y", "/api/item/7", "/api/zzz?a?b", "/api", "/api?x"};
  str line = str(ME[meth]) + sep + U[u] + tail; c.desc = "request line " + esc(line) + (nl ? " ended by LF" : "");
  c.one([&] { start(); size_t n0 = seen.size(); Conn *q = ask(line + (nl ? "\n\n" : "\r\n\r\n")); NOMISUSE; c.outcome(fnv(q->out)); if (seen.size() != n0 + 2) return bad("not handled: %s", esc(q->out, 60).c_str()); Want w = want_of(ME[meth], U[u]); Result r = view(seen[n0 + 1], w, line); if (!r.ok) return r; return good(); });
}
// ---- histories: what a request sees does not depend on earlier ones
static void s_hist(long i, Ctx &c) {
  auto w = word(i, 9, 2); static const strs U = {"/api/const", "/api/const?", "/api/const?long=" + pat(200), "/api/item/1", "/api/item/" + pat(200), "/api/item/1?x", "/api/zz", "/api", "/api/item/b"}; c.desc = "history of requests"; for (int x : w) c.desc += strf(" %d", x);
  c.one([&] { start(false, 'A'); str sig; for (int x : w) { Result r = ask_url(x == 8 ? "POST" : "GET", U[x], x == 8 ? "body=" + pat(50) : "", {}, false, sig); if (!r.ok) return r; } c.outcome(fnv(sig + c.desc)); return good(); });
  if (i % 301 == 0) c.sample(c.desc);
}
static struct Reg {
  Reg() {
    worker_init = [] { reset_files(); };
    add_suite({"C11", "lengths", [](bool) { return 12l * (296 + 60 + 4); }, s_lengths, 30, "every URL length 5..300, 1000..1059 and 1000..4000, '?' at every position, 3 routes, 2 methods"});
    add_suite({"C11", "bytes", [](bool) { return 256l * 14; }, s_bytes, 20, "every byte at 7 places of path, parameter and query, plain and TLS"});
    add_suite({"C11", "url-words", [](bool th) { return 3 * npaths((int)TOK.size(), th ? 5 : 4); }, s_words, 20, "all words of up to 4 of 13 URL tokens after 3 prefixes", "up to 5 tokens"});
    add_suite({"C11", "parameter-and-body", [](bool th) { return (long)blens(th).size() * 24; }, s_params, 30, "body lengths 0..300 and 12 larger x 4 kinds x 21 parameter lengths x memory contents", "body lengths 0..1400"});
    add_suite({"C11", "parameter-names", [](bool) { return 9l * 60; }, s_names, 20, "parameter names of 1..60 characters x 3 prefixes x 3 bodies"});
    add_suite({"C11", "request-line", [](bool) { return 5l * 8 * 6 * 4 * 2; }, s_line, 20, "5 separators x 8 line endings x 6 URLs x 4 methods"});
    add_suite({"C11", "histories", [](bool th) { return npaths(9, th ? 5 : 4, 2); }, s_hist, 20, "all histories of 2..4 requests of 9 kinds", "2..5 requests"});
    conc_suite("C11", {"api get with query", "api get item", "api post item", "long url", "too long url"}, {{"other query", get_("/api/item/other?other=query&x=y")}, {"long parameter", get_("/api/item/" + pat(200, 3))}});
  }
} reg;
