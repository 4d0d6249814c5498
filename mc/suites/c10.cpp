// C10: a route's filter gates its handler.
#include "conc.h"
#include "gen.h"

static const strs TPL = {"GET:/a", "GET:/a/{id}", "POST:/a", "GET:/{x}", "GET:"};
struct Rt { int t; int f; };                    // template, filter (-1 none)
static bool match(const str &tpl, const str &method, const str &path) { size_t k = tpl.find(':'); if (tpl.substr(0, k) != method) return false; str p = tpl.substr(k + 1); size_t b = p.find('{'); return b == str::npos ? p == path : path.size() > b && sw(path, p.substr(0, b)); }
struct Ask { const char *method, *path; const char *body; };
static const Ask ASKS[] = {{"GET", "/a", ""}, {"GET", "/a/17", ""}, {"POST", "/a", "x=1&y=2"}, {"GET", "/a/17", "body"}, {"GET", "/zz", ""}, {"PUT", "/a", ""}, {"GET", "/a/", ""}, {"GET", "", ""}};

struct Plan { bool truth[NH] = {}; int fresp = 0; bool hresp = true; bool setuser = false; };   // fresp: 0 never, 1 when it refuses, 2 always
static size_t out_f0, out_f1, out_h0, out_h1; static int nf, nh;
static char USER[] = "someone";
static void arm(const Plan &p) {
  on_filter = [p](api_request *r, int n) { Conn *q = conn_of_fd(r->socket); out_f0 = q ? q->out.size() : 999; nf++; if (p.setuser) r->username = USER; if (p.fresp == 2 || (p.fresp == 1 && !p.truth[n])) { if (p.truth[n]) forbidden(r); else not_authenticated(r); } out_f1 = q ? q->out.size() : 999; return p.truth[n]; };
  on_handler = [p](api_request *r, int n) { Conn *q = conn_of_fd(r->socket); out_h0 = q ? q->out.size() : 999; nh++; if (p.hresp) reply(r, strf("{\"h\":%d}", n)); out_h1 = q ? q->out.size() : 999; };
}
static Result one(const std::vector<Rt> &T, const Plan &p, const Ask &a, bool tls, str &sig) {
  (void)tls; size_t n0 = seen.size(); out_f0 = out_f1 = out_h0 = out_h1 = 0; nf = nh = 0;
  Conn *q = client("10.0.0.1", *a.body ? req(str(a.method) + " /api" + a.path + "?q=1 HTTP/1.1", {strf("Content-Length: %zu", strlen(a.body)), "X-Session: s1", "Referer: here"}, a.body) : req(str(a.method) + " /api" + a.path + "?q=1 HTTP/1.1", {"X-Session: s1", "Referer: here"}), END_BLOCK);
  run(); NOMISUSE; int w = -1; for (size_t k = 0; k < T.size() && w < 0; k++) if (match(TPL[T[k].t], a.method, a.path)) w = (int)k;
  str what = str(a.method) + " " + a.path; std::vector<Seen> s(seen.begin() + n0, seen.end());
  if (!q->closed) return bad("%s: the connection is not closed", what.c_str());
  if (w < 0) { if (!s.empty()) return bad("%s matches no route but %s%d ran", what.c_str(), s[0].filter ? "filter " : "handler ", s[0].who); if (status_of(q) != 400) return bad("%s matches no route but is answered %s", what.c_str(), esc(q->out, 50).c_str()); sig += "-"; return good(); }
  int f = T[w].f; bool run_h = f < 0 || p.truth[f]; size_t want = (f >= 0) + run_h; sig += strf("%d%d", f, run_h);
  str ran; for (auto &x : s) ran += strf("%s%d ", x.filter ? "filter" : "handler", x.who);
  if (s.size() != want) return bad("%s: ran %s, expected %s%s", what.c_str(), ran.empty() ? "nothing" : ran.c_str(), f >= 0 ? strf("filter%d ", f).c_str() : "", run_h ? strf("handler%d", w).c_str() : "");
  size_t k = 0; if (f >= 0) { if (!s[0].filter || s[0].who != f) return bad("%s: ran %s, expected filter%d first", what.c_str(), ran.c_str(), f); k = 1; }
  if (run_h && (s[k].filter || s[k].who != w)) return bad("%s: ran %s, expected handler%d", what.c_str(), ran.c_str(), w);
  if (f >= 0 && run_h) { Seen x = s[0], y = s[1]; x.filter = y.filter = false; x.who = y.who = 0; if (x.text() != y.text() || x.conn != y.conn || x.tid != y.tid) return bad("%s: the filter saw another request than the handler:\n  %s\n  %s", what.c_str(), x.text().c_str(), y.text().c_str()); if (p.setuser && y.user != "someone") return bad("%s: the handler does not see what the filter stored in the request", what.c_str()); }
  for (auto &x : s) if (x.method != a.method || x.path != a.path || x.query != "q=1" || x.session != "s1" || x.headers.size() < 2) return bad("%s: %s saw %s", what.c_str(), x.filter ? "the filter" : "the handler", x.text().c_str());
  // output: only what the filter and the handler wrote
  size_t at = 0; if (f >= 0) { if (out_f0 != 0) return bad("%s: %zu bytes were sent before the filter ran", what.c_str(), out_f0); at = out_f1; }
  if (run_h) { if (out_h0 != at) return bad("%s: the server sent %zu bytes between filter and handler", what.c_str(), out_h0 - at); at = out_h1; }
  if (q->out.size() != at) return bad("%s: the server added %zu bytes of its own: %s", what.c_str(), q->out.size() - at, esc(q->out.substr(at), 60).c_str());
  bool fo = f >= 0 && (p.fresp == 2 || (p.fresp == 1 && !p.truth[f])), ho = run_h && p.hresp;
  if (fo != ho) { int st = status_of(q), e = ho ? 200 : p.truth[f] ? 403 : 401; if (st != e) return bad("%s: the response is %s, expected status %d", what.c_str(), esc(q->out, 60).c_str(), e); }
  if (!fo && !ho && !q->out.empty()) return bad("%s: neither filter nor handler answered but the client received %s", what.c_str(), esc(q->out, 60).c_str());
  if (E->access_log.size() && fo + ho == 0 && 0) return good();
  return good();
}
static void start(const std::vector<Rt> &T, const Plan &p, bool tls) { begin(); setup_globals(tls); if (tls) tls_files(); for (size_t k = 0; k < T.size(); k++) route(TPL[T[k].t], (int)k, T[k].f); arm(p); serve(1); run(); }
static str show(const std::vector<Rt> &T) { str d; for (auto &r : T) d += TPL[r.t] + (r.f < 0 ? " " : strf("[filter %d] ", r.f)); return d; }
static void s_tables(long i, Ctx &c) {
  Mix m(i); int truth = m(4), fresp = m(3), hresp = m(2), tls = m(2), user = m(2); auto w = word(m.n, 15, 1); std::vector<Rt> T; for (size_t k = 0; k < w.size(); k++) T.push_back({w[k] % 5, w[k] / 5 - 1});   // filters: none, 0, 1 (may be shared)
  Plan p; p.truth[0] = truth & 1; p.truth[1] = truth & 2; p.fresp = fresp; p.hresp = hresp; p.setuser = user;
  c.desc = show(T) + strf("filters return %d %d, answer %s, handler %s%s", p.truth[0], p.truth[1], fresp == 0 ? "never" : fresp == 1 ? "when refusing" : "always", hresp ? "answers" : "is silent", tls ? ", TLS" : "");
  c.one([&] { start(T, p, tls); str sig; for (auto &a : ASKS) { Result r = one(T, p, a, tls, sig); if (!r.ok) return r; } c.outcome(fnv(sig)); return good(); });
  if (i % 3001 == 0) c.sample(c.desc);
}
// ---- requests of every shape, every route filtered: the handler runs if and only if its filter accepted
static void s_requests(long i, Ctx &c) {
  Mix m(i); int truth = m(2), fresp = m(2), tls = m(2); str b = gen_request(m.n); c.desc = strf("filters %s, %s%s", truth ? "accept" : fresp ? "refuse with an answer" : "refuse silently", esc(b, 160).c_str(), tls ? ", TLS" : "");
  c.one([&] {
    begin(); setup_globals(tls); if (tls) tls_files(); int n = 0; strs T; for (const char *me : {"GET", "POST", "PUT", "DELETE"}) for (const char *u : {"/secret", "/echo", "/item/{id}", "/zero"}) { T.push_back(str(me) + ":" + u); route(T.back(), n, n); n++; } Plan p; for (auto &t : p.truth) t = truth; p.fresp = fresp; arm(p); serve(1); run();
    size_t e = b.find(' '); str me = b.substr(0, e), url = b.substr(e + 1); url = url.substr(0, url.find(' ')); str path = url.substr(0, url.find('?')); int w = -1; if (sw(path, "/api/")) for (int k = 0; k < n && w < 0; k++) if (match(T[k], me, path.substr(4))) w = k;
    Conn *q = client("10.0.0.1", b, END_BLOCK); run(); NOMISUSE; str ran; for (auto &x : seen) ran += strf("%s%d ", x.filter ? "filter" : "handler", x.who); str want = w < 0 ? "" : strf("filter%d ", w) + (truth ? strf("handler%d ", w) : ""); c.outcome(fnv(ran + q->out)); if (!q->closed) return bad("the connection is not closed");
    if (ran != want) return bad("ran %s, expected %s", ran.empty() ? "nothing" : ran.c_str(), want.empty() ? "nothing" : want.c_str()); if (w >= 0 && !truth) { if (fresp ? status_of(q) != 401 : !q->out.empty()) return bad("the refused request is answered %s", esc(q->out, 80).c_str()); } return good();
  });
  if (i % 4001 == 0) c.sample(c.desc);
}
// ---- bodies and values of every length: filter and handler see the same
static void s_bodies(long i, Ctx &c) {
  static const char *K[] = {"text", "fields", "ampersands", "a form", "bytes", "blanks"}; Mix m(i); int kind = m(6), truth = m(2), route_ = m(3), me = m(2), vl = m(4), tls = m(2); int n = (int)m.n; if (n > 300) n = 300 + (n - 300) * 53; str b = kind == 0 ? pat(n, 5) : kind == 1 ? str() : kind == 2 ? rep("&", n) : kind == 3 ? str("--B\r\nContent-Disposition: form-data; name=\"n\"\r\n\r\n") + pat(n) + "\r\n--B--\r\n" : kind == 4 ? binpat(n, 3) : rep(" ", n); if (kind == 1) { while ((int)b.size() < n) b += strf("%sf%zu=v", b.empty() ? "" : "&", b.size()); } for (auto &x : b) if (!x && kind == 4) x = 1;
  str v = vl == 0 ? "7" : vl == 1 ? "a&b=c" : vl == 2 ? pat(60) : pat(200), url = route_ == 0 ? "/api/a" : route_ == 1 ? "/api/b/" + v : "/api/c/x" + v; if (route_ == 0 && vl) return; c.desc = strf("body of %zu characters (%s), %s, filter %s%s", b.size(), K[kind], url.c_str(), truth ? "accepts" : "refuses", tls ? ", TLS" : "");
  c.one([&] {
    begin(); setup_globals(tls); if (tls) tls_files(); int r = 0; str meth = me ? "PUT" : "POST"; for (const char *t : {":/a", ":/b/{id}", ":/c/x{y}"}) { route(meth + t, r, r); r++; } Plan p; for (auto &t : p.truth) t = truth; p.fresp = 1; arm(p); serve(1); run(); strs h; if (kind == 3) h.push_back("Content-Type: multipart/form-data; boundary=B"); h.push_back(strf("Content-Length: %zu", b.size()));
    Conn *q = client("10.0.0.1", req(meth + " " + url + " HTTP/1.1", h, b), END_BLOCK); run(); NOMISUSE; str ran; for (auto &x : seen) ran += strf("%s%d ", x.filter ? "filter" : "handler", x.who); str want = strf("filter%d ", route_) + (truth ? strf("handler%d ", route_) : ""); c.outcome(fnv(ran + seen.back().form)); if (ran != want) return bad("ran %s, expected %s", ran.c_str(), want.c_str());
    str body = kind == 3 ? "n=" + pat(n) : b, form = body + (route_ == 0 ? "" : (body.empty() ? "" : "&") + str(route_ == 1 ? "id=" : "y=") + v); if (seen[0].form != form) return bad("the filter saw %s", esc(seen[0].form, 100).c_str()); if (truth) { Seen x = seen[0], y = seen[1]; x.filter = y.filter = false; x.who = y.who = 0; if (x.text() != y.text()) return bad("the filter saw another request than the handler: %s and %s", esc(x.text(), 200).c_str(), esc(y.text(), 200).c_str()); } if (status_of(q) != (truth ? 200 : 401)) return bad("the response is %s", esc(q->out, 60).c_str()); return good();
  });
  if (i % 4001 == 0) c.sample(c.desc);
}
// ---- requests with 0..25 headers of any kind, answered by the filter, the handler, both or none
static void s_bare(long i, Ctx &c) {
  static const strs H = {"X: y", "Host: h", "X-Session: s", "Content-Type: text/plain", "Authorization: a", "Cookie: WSSESSION=c", "X-Real-IP: 192.0.2.1", "nocolon", "Content-Length: 0"}; static const int N[] = {0, 1, 2, 5, 19, 20, 21, 25}; static const strs AK = {"GET /api/a", "GET /api/a/17", "GET /api/a?x=y", "PUT /api/a", "DELETE /api/a", "POST /api/a", "GET /api/a/"};
  Mix m(i); int truth = m(2), fresp = m(3), hresp = m(2), tls = m(2), n = N[m(8)], k = m(9), a = m(7), end = m(2), lf = m(2), user = m(2); Plan p; p.truth[0] = truth; p.fresp = fresp; p.hresp = hresp; p.setuser = user; if (n == 0 && k) return;
  c.desc = strf("%s with %d headers %s%s, filter %s, answers %s, handler %s%s", AK[a].c_str(), n, H[k].c_str(), lf ? ", LF" : "", truth ? "accepts" : "refuses", fresp == 0 ? "never" : fresp == 1 ? "when refusing" : "always", hresp ? "answers" : "is silent", tls ? ", TLS" : "");
  c.one([&] {
    std::vector<Rt> T; begin(); setup_globals(tls); if (tls) tls_files(); int r = 0; for (const char *t : {"GET:/a", "GET:/a/{id}", "PUT:/a", "DELETE:/a", "POST:/a"}) { route(t, r, 0); r++; } arm(p); serve(1); run(); nf = nh = 0; out_f0 = out_f1 = out_h0 = out_h1 = 0;
    str nl = lf ? "\n" : "\r\n", rq = AK[a] + " HTTP/1.1" + nl; for (int j = 0; j < n; j++) rq += H[k] + nl; rq += nl; int who = a == 0 || a == 2 ? 0 : a == 1 ? 1 : a == 6 ? -1 : a - 1; Conn *q = client("10.0.0.1", rq, end ? END_EOF : END_BLOCK); run(); NOMISUSE; if (!q->closed) return bad("the connection is not closed");
    str ran; for (auto &x : seen) ran += strf("%s%d ", x.filter ? "filter" : "handler", x.who); c.outcome(fnv(ran + q->out)); if (who < 0) return good(); str want = "filter0 " + (truth ? strf("handler%d ", who) : ""); if (ran != want) return bad("ran %s, expected %s", ran.empty() ? "nothing" : ran.c_str(), want.c_str());
    bool fo = fresp == 2 || (fresp == 1 && !truth), ho = truth && hresp; if (out_f0) return bad("%zu bytes were sent before the filter ran", out_f0); if (truth && out_h0 != out_f1) return bad("the server sent bytes between filter and handler"); if (q->out.size() != (truth ? out_h1 : out_f1)) return bad("the server added bytes of its own"); if (fo != ho) { int e = ho ? 200 : truth ? 403 : 401; if (status_of(q) != e) return bad("the response is %s, expected status %d", esc(q->out, 60).c_str(), e); } if (!fo && !ho && !q->out.empty()) return bad("nobody answered but the client received %s", esc(q->out, 60).c_str());
    if (truth && p.setuser && seen.back().user != "someone") return bad("the handler does not see what the filter stored"); return good();
  });
  if (i % 4001 == 0) c.sample(c.desc);
}
// ---- the decision is taken anew for every request
static void s_history(long i, Ctx &c) {
  Mix m(i); int tls = m(2), fresp = m(2); auto w = word(m.n, 6, 1); str d; for (int x : w) d += strf("%d", x); c.desc = "history " + d + " (request kind x decision)" + (tls ? ", TLS" : "");
  c.one([&] { std::vector<Rt> T = {{0, 0}, {1, 0}, {2, -1}}; Plan p; p.fresp = fresp; start(T, p, tls); str sig; for (int x : w) { p.truth[0] = x & 1; arm(p); Result r = one(T, p, ASKS[x / 2], tls, sig); if (!r.ok) return r; } c.outcome(fnv(sig)); return good(); });
  if (i % 1001 == 0) c.sample(c.desc);
}
// ---- large tables: every route has its own filter
static void s_large(long i, Ctx &c) {
  Mix m(i); int who = m(128), param = m(2), truth = m(2), others = m(2); c.desc = strf("128 routes with filters, request for route %d%s, its filter %s, the others %s", who, param ? " (parameter)" : "", truth ? "accepts" : "refuses", others ? "accept" : "refuse");
  c.one([&] {
    begin(); setup_globals(); for (int k = 0; k < 128; k++) route(strf("GET:/r%03d%s", k, param ? "/{v}" : ""), k, k % 3 == 2 ? -1 : k); Plan p; for (int k = 0; k < 128; k++) p.truth[k] = others; p.truth[who] = truth; p.fresp = 1; arm(p); serve(1); run();
    Conn *q = ask(get_(strf("/api/r%03d%s", who, param ? "/x" : ""))); NOMISUSE; bool f = who % 3 != 2, h = !f || truth; str ran; for (auto &s : seen) ran += strf("%s%d ", s.filter ? "filter" : "handler", s.who); str want = (f ? strf("filter%d ", who) : "") + (h ? strf("handler%d ", who) : ""); c.outcome(fnv(ran));
    if (ran != want) return bad("ran %s, expected %s", ran.c_str(), want.c_str()); int st = status_of(q); if (st != (h ? 200 : 401)) return bad("the response is %s", esc(q->out, 60).c_str()); return good();
  });
}
// ---- a table that is initialised again: no filter of the earlier table is left
static void s_again(long i, Ctx &c) {
  Mix m(i); int old = m(3), truth = m(4), lead = m(3); auto w = word(m.n, 15, 1); std::vector<Rt> T; for (size_t k = 0; k < w.size(); k++) T.push_back({w[k] % 5, w[k] / 5 - 1});
  Plan p; p.truth[0] = truth & 1; p.truth[1] = truth & 2; p.fresp = 1; c.desc = show(T) + strf("after an earlier table with filters %d, filters return %d %d", old, p.truth[0], p.truth[1]);
  c.one([&] {
    begin(); setup_globals(); for (int k = 0; k < 6; k++) route(TPL[(k + lead) % 5], 20 + k, old == 0 ? 20 + k : old == 1 ? (k & 1 ? -1 : 0) : 1); if (lead == 2) { serve(1); run(); ask(get_("/api/a")); }
    router_init(); for (size_t k = 0; k < T.size(); k++) route(TPL[T[k].t], (int)k, T[k].f); arm(p); if (lead != 2) { serve(1); run(); } str sig;
    for (auto &a : ASKS) { Result r = one(T, p, a, false, sig); if (!r.ok) return r; } c.outcome(fnv(sig)); return good();
  });
  if (i % 3001 == 0) c.sample(c.desc);
}
// ---- several workers: filter and handler of each request stay together
static void s_conc(long i, Ctx &c) {
  Mix m(i); int sh = m(8), ka = m(4), kb = m(4); c.desc = strf("two requests (kinds %d, %d) on two workers", ka, kb);
  c.explore(c.thorough ? 2 : 1, [&] {
    begin(); setup_globals(); route("GET:/a", 0, 0); route("GET:/b/{id}", 1, 1); route("GET:/c", 2); on_filter = [](api_request *r, int n) { point("filter"); bool t = strcmp(r->session, "good") == 0; if (!t) not_authenticated(r); point("filtered"); return t; }; on_handler = [](api_request *r, int n) { point("handler"); reply(r, strf("{\"h\":%d}", n)); };
    E->quiet = true; serve(2); run(); E->quiet = false;
    auto rq = [](int k) { return get_(k < 2 ? "/api/a" : "/api/b/5", {k & 1 ? "X-Session: good" : "X-Session: evil"}); };
    Conn *A = client("10.0.0.1", rq(ka), END_BLOCK), *B = client("10.0.0.2", rq(kb), END_BLOCK); run(); NOMISUSE; str sig;
    for (Conn *q : {A, B}) { int k = q == A ? ka : kb; str ran; for (auto &s : seen) if (s.conn == q->id) ran += strf("%s%d ", s.filter ? "filter" : "handler", s.who); str want = strf("filter%d ", k / 2) + (k & 1 ? strf("handler%d ", k / 2) : ""); sig += ran + "|"; if (ran != want) return bad("request %s ran %s, expected %s", q == A ? "A" : "B", ran.c_str(), want.c_str()); if (status_of(q) != (k & 1 ? 200 : 401)) return bad("request %s is answered %s", q == A ? "A" : "B", esc(q->out, 60).c_str()); }
    c.outcome(fnv(sig)); return good();
  }, sh, 8);
}
static struct Reg {
  Reg() {
    worker_init = [] { reset_files(); };
      add_suite({"C10", "requests", [](bool th) { return 8 * gen_count(th ? 2 : 1); }, s_requests, 20, "every route filtered: 9 URLs x 6 queries x 16 methods and bodies x 0..1 of 10 headers x accepting and refusing filters, plain and TLS", "0..2 headers"});
    add_suite({"C10", "tables", [](bool th) { return 96l * npaths(15, th ? 3 : 2, 1); }, s_tables, 30, "all tables of 1..2 routes over 5 templates x 3 filter assignments x decisions x who answers x plain/TLS, 8 requests each", "1..3 routes"});
    add_suite({"C10", "bodies", [](bool th) { return 576l * (th ? 420 : 320); }, s_bodies, 20, "6 kinds of body of 0..300 and, in steps of 53, up to 1300 characters x 3 routes x 4 values x 2 methods x decision x plain/TLS", "up to 6600"});
    add_suite({"C10", "header-counts", [](bool) { return 24l * 8 * 9 * 7 * 8; }, s_bare, 20, "7 requests with 0..25 headers of 9 kinds x decision x who answers x plain/TLS x LF/CRLF x end of data"});
    add_suite({"C10", "histories", [](bool th) { return 4 * npaths(6, th ? 6 : 4, 1); }, s_history, 30, "all histories of 1..4 requests with changing decisions", "1..6 requests"});
    add_suite({"C10", "initialised-again", [](bool th) { return 36l * npaths(15, th ? 3 : 2, 1); }, s_again, 20, "earlier tables with filters, then all tables of 1..2 routes registered after a new initialisation (also while serving), 8 requests each", "1..3 routes"});
    add_suite({"C10", "large-table", [](bool) { return 128l * 8; }, s_large, 20, "each of 128 routes, filter accepts or refuses, others opposite or same"});
    add_suite({"C10", "concurrent", [](bool) { return 8l * 16; }, s_conc, 60, "pairs of 4 kinds of requests on two workers, all interleavings with at most 1 preemption", "at most 2 preemptions"});
    conc_suite("C10", {"filter accepts", "filter refuses", "cookie session", "post text filtered", "silent filter", "api put empty body", "api post item"});
  }
} reg;
