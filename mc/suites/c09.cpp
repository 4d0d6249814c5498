// C09: API requests are dispatched to exactly the matching route.
#include "conc.h"

struct Rt { str method, path; bool param = false; str prefix, name; };
static Rt parse_t(const str &t) { Rt r; size_t k = t.find(':'); r.method = t.substr(0, k); r.path = t.substr(k + 1); size_t b = r.path.find('{'); if (b != str::npos) { r.param = true; r.prefix = r.path.substr(0, b); r.name = r.path.substr(b + 1, r.path.size() - b - 2); } return r; }
static int oracle(const strs &table, const str &method, const str &path) {
  for (size_t k = 0; k < table.size(); k++) { Rt r = parse_t(table[k]); if (r.method != method) continue; if (!r.param ? path == r.path : (path.size() > r.prefix.size() && sw(path, r.prefix))) return (int)k; }
  return -1;
}
static bool given; static strs extra_h; static str extra_b;   // headers and body of the request when `given`
// sends one request to a running server and compares what ran with the oracle
static Result check(const strs &table, const str &method, const str &path, const str &query, str &sig, bool body = false) {
  size_t n0 = seen.size(); str url = "/api" + path + query; if (url.size() > 254) return good();
  str rq = given ? req(method + " " + url + " HTTP/1.1", extra_h, extra_b) : body ? req(method + " " + url + " HTTP/1.1", {"Content-Length: 3"}, "a=b") : req(method + " " + url + " HTTP/1.1");
  Conn *q = ask(rq); NOMISUSE; int want = oracle(table, method, path); str what = method + " " + esc(url);
  sig += strf("%d,", want);
  Resp r = parse_response(q->out); if (!r.ok) return bad("%s: %s", what.c_str(), r.err.c_str());
  size_t ran = seen.size() - n0;
  if (want < 0) { if (ran) return bad("%s matches no route but handler %d (%s) ran", what.c_str(), seen[n0].who, seen[n0].who < (int)table.size() ? table[seen[n0].who].c_str() : "?"); if (r.status != 400) return bad("%s matches no route but is answered with %d", what.c_str(), r.status); return good(); }
  if (ran != 1) return bad("%s: %zu handlers ran, expected the one of %s", what.c_str(), ran, table[want].c_str());
  if (seen[n0].who != want) return bad("%s was dispatched to route %d (%s) instead of %d (%s)", what.c_str(), seen[n0].who, seen[n0].who < (int)table.size() ? esc(table[seen[n0].who]).c_str() : "?", want, esc(table[want]).c_str());
  if (r.status != 200 || r.body != strf("{\"h\":%d}\r\n", want)) return bad("%s: the response is not the handler's: %s", what.c_str(), esc(q->out, 80).c_str());
  if (seen[n0].method != method || seen[n0].path != path) return bad("%s: the handler sees %s %s", what.c_str(), seen[n0].method.c_str(), seen[n0].path.c_str());
  return good();
}
static void start(const strs &table, bool tls = false) { begin(); setup_globals(tls); if (tls) tls_files(); for (size_t k = 0; k < table.size(); k++) route(table[k], (int)k); serve(1); run(); }
static const strs TPL = {"GET:/a", "GET:/a/{id}", "GET:/a/b", "POST:/a", "GET:/{x}", "PUT:/a/{id}", "GET:/a/b/{n}", "GET:/ab", "DELETE:/a/b", "GET:/", "POST:/a/b{v}", "GET:{all}", "GET:"};
static const strs PATHS = {"", "/", "/a", "/a/", "/a/1", "/a/b", "/a/b/", "/a/b/c", "/a/bc", "/ab", "/abc", "/b/a", "/x/a/b", "/x/GET:/a", "GET:/a", "/a/GET:/a", "/a//", "/A", "/aa", "/{id}", "/a/{id}", "a"};
static const char *M[] = {"GET", "POST", "PUT", "DELETE"};
static void s_tables(long i, Ctx &c) {
  auto w = word(i, (int)TPL.size()); strs t; for (int x : w) t.push_back(TPL[x]); c.desc = "table [" + joinv(t, " ") + "]";
  c.one([&] {
    start(t); str sig;
    for (auto m : M) for (auto &p : PATHS) for (str q : {str(""), str("?q=/a/b")}) { if (!q.empty() && strcmp(m, "GET")) continue; Result r = check(t, m, p, q, sig, strcmp(m, "GET") && p.size() % 2); if (!r.ok) return r; }
    c.outcome(fnv(sig)); c.count("requests", 110); return good();
  });
  if (i % 401 == 0) c.sample(c.desc);
}
// ---- nothing but method and path decides: bodies, headers, queries and long values
static void s_company(long i, Ctx &c) {
  static const int L[] = {0, 1, 10, 31, 40, 100, 300, 1000, 5000}; static const char *K[] = {"text", "a path", "fields", "a form", "route templates", "ampersands"}; static const strs H = {"", "X-Session: s", "Content-Type: application/json", "X-HTTP-Method-Override: POST", "Host: /a/b", "Referer: GET:/a", "Authorization: x", "Accept: text/html"};
  Mix m(i); int kind = m(6), n = L[m(9)], h = m(8), q = m(3), tls = m(2); auto w = word(m.n, 7, 2); static const int TT[] = {0, 1, 2, 4, 6, 7, 5}; strs t; for (int x : w) t.push_back(TPL[TT[x]]); if (h && q && kind) return; if (tls && (h || q)) return;
  given = true; extra_b = kind == 0 ? pat(n, 4) : kind == 1 ? str("/a/b") : kind == 2 ? str("_method=PUT&id=1") : kind == 3 ? str("--B\r\nContent-Disposition: form-data; name=\"id\"\r\n\r\n") + pat(n) + "\r\n--B--\r\n" : kind == 4 ? str("GET:/a/b") : str("&"); while ((kind == 1 || kind == 2 || kind >= 4) && (int)extra_b.size() < n) extra_b += extra_b; extra_h.clear(); if (kind == 3) extra_h.push_back("Content-Type: multipart/form-data; boundary=B"); if (h) extra_h.push_back(H[h]); extra_h.push_back(strf("Content-Length: %zu", extra_b.size()));
  c.desc = "table [" + joinv(t, " ") + "]" + strf(", body of %zu characters (%s), header %s%s", extra_b.size(), K[kind], H[h].c_str(), tls ? ", TLS" : "");
  c.one([&] { start(t, tls); str sig; Result r = good(); for (auto me : {"GET", "PUT", "DELETE"}) for (const str &p : {str("/a"), str("/a/b"), str("/a/b/c"), str("/ab"), "/a/" + pat(33), "/a/" + pat(180), "/a/b/" + pat(120)}) { r = check(t, me, p, q == 0 ? "" : q == 1 ? "?x=1" : "?/a/b?GET:/a&" + pat(40), sig); if (!r.ok) { given = false; return r; } } given = false; c.outcome(fnv(sig)); return r; }); given = false;
  if (i % 4001 == 0) c.sample(c.desc);
}
// ---- table sizes: every number of routes, every route is reachable
static void s_sizes(long i, Ctx &c) {
  Mix m(i); int shape = m(4); int n = (int)m.n; c.desc = strf("%d routes of shape %d", n, shape);
  c.one([&] {
    begin(); setup_globals(); strs t;
    auto tpl = [&](int k) { return shape == 0 ? strf("GET:/r%d", k) : shape == 1 ? strf("GET:/r%d/{id}", k) : shape == 2 ? strf("%s:/p%d%s", M[k % 4], k / 4, k % 3 ? "" : "/{v}") : strf("GET:/%s%03d", pat(120, k).c_str(), k); };
    for (int k = 0; k < n && k < NH; k++) { t.push_back(tpl(k)); route(t[k], k); }
    for (int k = NH; k < n; k++) route(tpl(k), 0);
    int must = std::min(n, 128); serve(1); run(); str sig; size_t blocks = 0; (void)blocks;
    for (int k = 0; k < must; k++) {
      if (n > 20 && k > 3 && k < must - 4 && (k * 7 + n) % 11) continue;
      Rt r = parse_t(t[k]); strs full(t.begin(), t.begin() + must); Result x = check(full, r.method, r.param ? r.prefix + "v" : r.path, "", sig); if (!x.ok) return x; }
    strs full(t.begin(), t.begin() + must);
    Result x = check(full, "GET", "/none", "", sig); if (!x.ok) return x;
    // a route beyond the capacity: refused or served, never another handler
    for (int k = 128; k < std::min(n, NH); k++) { Rt r = parse_t(t[k]); size_t n0 = seen.size(); Conn *q = ask(req(r.method + " /api" + (r.param ? r.prefix + "v" : r.path) + " HTTP/1.1")); NOMISUSE; if (seen.size() > n0 && seen[n0].who != k) return bad("route %d beyond the capacity is dispatched to handler %d", k, seen[n0].who); if (seen.size() == n0 && status_of(q) != 400) return bad("unregistered route answered with %s", esc(q->out, 60).c_str()); }
    c.outcome(fnv(sig)); return good();
  });
  if (i % 97 == 0) c.sample(c.desc);
}
// ---- template lengths: an oversized template never damages the others
static void s_lengths(long i, Ctx &c) {
  Mix m(i); int pos = m(3), param = m(3); long len = m.n; static const long extra[] = {512, 600, 1000, 1023, 1024, 1025, 2000, 4096, 10000}; long n = len < 300 ? len + 1 : extra[len - 300];
  str big = "GET:/" + pat(n); int pn = param == 1 ? 3 : 0; if (param == 1) big += "/{abc}"; if (param == 2) { pn = (int)std::min(n, 200l); big = "GET:/big/{" + pat(n) + "}"; }
  c.desc = strf("template of %zu characters%s registered at position %d", big.size(), param == 1 ? " with parameter" : param == 2 ? strf(" with a parameter name of %ld characters", n).c_str() : "", pos);
  c.one([&] {
    strs t = {"GET:/one", "GET:/two/{id}", "POST:/three"}; t.insert(t.begin() + pos, big); start(t); str sig; bool must = big.size() <= 200 && (param != 2 || n <= 60);
    bool ok_len = must; Rt r = parse_t(big); str p = r.param ? r.prefix + "7" : r.path;
    if (("/api" + p).size() <= 254) {
      size_t n0 = seen.size(); Conn *q = ask(get_("/api" + p)); NOMISUSE; bool ran = seen.size() > n0;
      if (must && !ran) return bad("the route is not dispatched: %s", esc(q->out, 60).c_str());
      if (ran && (seen[n0].who != pos || seen.size() != n0 + 1)) return bad("dispatched to handler %d instead of %d", seen[n0].who, pos);
      if (ran && r.param && seen[n0].form != r.name + "=7") return bad("the parameter is delivered as %s", esc(seen[n0].form, 100).c_str());
      if (!ran && status_of(q) != 400) return bad("refused route answered with %s", esc(q->out, 60).c_str());
      sig += ran ? "1" : "0";
    }
    (void)ok_len; (void)pn;
    // a request that only shares the first characters of the big template must not reach it
    for (long cut : {50l, 100l, 200l}) if (!r.param && n > cut + 1) { size_t n0 = seen.size(); ask(get_("/api" + r.path.substr(0, cut))); NOMISUSE; if (seen.size() != n0) return bad("a request for the first %ld characters of the template ran handler %d", cut, seen[n0].who); }
    for (size_t k = 0; k < t.size(); k++) { if ((int)k == pos) continue; Rt q = parse_t(t[k]); size_t n0 = seen.size(); Conn *x = ask(req(q.method + " /api" + (q.param ? q.prefix + "9" : q.path) + " HTTP/1.1")); NOMISUSE; if (seen.size() != n0 + 1 || seen[n0].who != (int)k) return bad("another route (%s) is no longer dispatched to its handler: %zu ran, %s", t[k].c_str(), seen.size() - n0, esc(x->out, 60).c_str()); }
    c.outcome(fnv(sig)); return good();
  });
  if (i % 501 == 0) c.sample(c.desc);
}
// ---- requests that differ from a long route in one place only
static void s_differ(long i, Ctx &c) {
  Mix m(i); int param = m(2), how = m(6), n = 2 + m(235), p = 1 + (int)m.n; if (p >= n) return; if (!c.thorough && n > 100 && n % 8 && p % 8) return; str path = "/" + pat(n - 1, 3), q = path; char &x = q[p];
  if (how == 0) x = x == 'q' ? 'r' : 'q'; else if (how == 1) q.erase(p, 1); else if (how == 2) q.insert(p, "z"); else if (how == 3) x = (x >= 'a' && x <= 'z') || (x >= 'A' && x <= 'Z') ? x ^ 32 : '_'; else if (how == 4) { if (p + 1 >= n || q[p] == q[p + 1]) return; std::swap(q[p], q[p + 1]); } else { if (p + 3 >= n || q[p] == 'z' || q[p + 3] == 'a') return; q[p]++; q[p + 3]--; if (has(q, "?") || has(q, "#") || has(q, " ")) return; }
  strs t = param ? strs{"GET:" + path + "/{v}", "POST:" + path} : strs{"GET:" + path, "POST:" + path + "x"}; c.desc = strf("route of %d characters%s, the request differs in place %d (%s)", n, param ? " with parameter" : "", p, how == 0 ? "another character" : how == 1 ? "left out" : how == 2 ? "inserted" : how == 3 ? "upper or lower case" : how == 4 ? "swapped" : "two changed");
  c.one([&] { start(t); str sig; Result r = check(t, "GET", q + (param ? "/7" : ""), "", sig); if (!r.ok) return r; r = check(t, "GET", path + (param ? "/7" : ""), "", sig); c.outcome(fnv(sig, i)); return r; });
  if (i % 30011 == 0) c.sample(c.desc);
}
// ---- methods that are not one of the registered ones
static const char *ODD[] = {"GETX", "GE", "G", "XGET", "GET:/a", "GET:", "HEAD", "OPTIONS", "PATCH", "TRACE", "CONNECT", "POSTGET", "PUTDELETE", "DELET", "DELETED", "GET\x01", "GET,POST", "*", "GET/a", "ANY"};
static void s_methods(long i, Ctx &c) {
  Mix m(i); str odd = ODD[m(20)]; int sh = m(4), tls = m(2); c.desc = "method " + esc(odd) + strf(", path kind %d", sh) + (tls ? ", TLS" : ""); strs t = {"GET:/a", "POST:/a", "PUT:/a", "DELETE:/a", "GET:/b/{id}", "GET:{all}", "POST:{all}"};
  c.one([&] { start(t, tls); Conn *q = ask(req(odd + " " + (sh == 0 ? "/api/a" : sh == 1 ? "/api/b/1" : sh == 2 ? "/api" : "/api/GET:/a") + " HTTP/1.1")); NOMISUSE; c.outcome(fnv(q->out)); if (!seen.empty()) return bad("handler %d (%s) ran", seen[0].who, t[seen[0].who].c_str()); if (status_of(q) != 400) return bad("answered with %s instead of 400", esc(q->out, 60).c_str()); return good(); });
}
// ---- every byte in a path: equality is exact
static void s_bytes(long i, Ctx &c) {
  Mix m(i); int b = m(256), pos = m(4), kind = m(2); if (b <= 32 || b == '?' || b == 127) return; str base = "/abcd/efg"; str p = base; p[1 + pos * 2] = (char)b; bool same = p == base;
  strs t; if (kind == 0) t = {"GET:" + base, "GET:/zz"}; else t = {"GET:" + base + "/{v}", "GET:/zz"}; c.desc = "path " + esc(p) + " against the route " + t[0];
  c.one([&] { start(t); str sig; (void)same; Result r = check(t, "GET", p + (kind ? "/7" : ""), "", sig); if (!r.ok) return r; r = check(t, "GET", base + (char)b + (kind ? "/7" : ""), "", sig); if (!r.ok) return r; r = check(t, "GET", str(1, (char)b) + base + (kind ? "/7" : ""), "", sig); c.outcome(fnv(sig)); return r; });
}
// ---- routes registered while serving are dispatched too, earlier ones keep precedence
static void s_late(long i, Ctx &c) {
  auto w = word(i, 6, 1); strs t; for (int x : w) t.push_back(TPL[x]); c.desc = "routes [" + joinv(t, " ") + "] registered one by one while serving";
  c.one([&] { begin(); setup_globals(); serve(1); run(); str sig; strs now; for (size_t k = 0; k < t.size(); k++) { route(t[k], (int)k); now.push_back(t[k]); for (str p : {"/a", "/a/1", "/a/b", "/x"}) for (auto m : {"GET", "POST", "PUT"}) { Result r = check(now, m, p, "", sig); if (!r.ok) return r; } } c.outcome(fnv(sig)); return good(); });
}
// ---- a table that is initialised again contains only the routes registered since
static void s_again(long i, Ctx &c) {
  Mix m(i); int first = m(5); auto w = word(m.n, (int)TPL.size()); strs t; for (int x : w) t.push_back(TPL[x]); c.desc = strf("table of kind %d, initialised again with [", first) + joinv(t, " ") + "]";
  c.one([&] {
    begin(); setup_globals(); for (int r = 0; r < (first == 4 ? 3 : 1); r++) { router_init(); for (int k = 0; k < (first == 2 ? 130 : (int)TPL.size()); k++) route(first == 2 ? strf("GET:/r%d", k) : TPL[first == 1 ? TPL.size() - 1 - k : k], 100 + k % 30, first == 3 ? k : -1); if (first == 0) break; }
    router_init(); for (size_t k = 0; k < t.size(); k++) route(t[k], (int)k); serve(1); run(); str sig;
    for (auto m : {"GET", "POST"}) for (auto &p : PATHS) { Result r = check(t, m, p, "", sig); if (!r.ok) return r; }
    Result r = check(t, "GET", "/r5", "", sig); c.outcome(fnv(sig)); return r;
  });
  if (i % 401 == 0) c.sample(c.desc);
}
static struct Reg {
  Reg() {
    worker_init = [] { reset_files(); };
    add_suite({"C09", "tables", [](bool th) { return npaths((int)TPL.size(), th ? 4 : 3); }, s_tables, 30, "all routing tables of 0..3 routes over 13 templates x 110 requests (4 methods, 22 paths, queries)", "0..4 routes"});
    add_suite({"C09", "company", [](bool th) { return 6l * 9 * 8 * 3 * 2 * npaths(7, th ? 3 : 2, 2); }, s_company, 20, "all tables of 2 of 7 routes x 6 kinds of body of 9 lengths x 8 headers x 3 queries x plain/TLS, 21 requests each", "tables of 2..3 routes"});
    add_suite({"C09", "table-sizes", [](bool) { return 4l * 141; }, s_sizes, 30, "every number of routes 0..140 x 4 shapes; routes reachable up to the capacity, none damaged beyond"});
    add_suite({"C09", "template-lengths", [](bool) { return 9l * 309; }, s_lengths, 30, "template lengths 1..300 and 9 larger, constant, parameter and long parameter name, at 3 positions of the table"});
    add_suite({"C09", "differing", [](bool) { return 12l * 235 * 236; }, s_differ, 30, "routes of 2..236 characters, with and without parameter, and requests that differ in one place in 6 ways; every place up to 100 characters, every eighth beyond", "every place"});
    add_suite({"C09", "methods", [](bool) { return 160l; }, s_methods, 20, "20 unsupported methods x 4 paths"});
    add_suite({"C09", "bytes", [](bool) { return 256l * 8; }, s_bytes, 20, "every byte at 4 positions of the path, constant and parameter route"});
    add_suite({"C09", "late-registration", [](bool th) { return npaths(6, th ? 5 : 4, 1); }, s_late, 20, "all sequences of 1..4 registrations interleaved with requests", "1..5"});
    add_suite({"C09", "initialised-again", [](bool th) { return 5 * npaths((int)TPL.size(), th ? 3 : 2); }, s_again, 20, "5 earlier tables x all new tables of 0..2 routes over 13 templates x 45 requests", "0..3 routes"});
    conc_suite("C09", {"api get", "api get item", "api post", "api post item", "api put empty body", "api delete", "no route", "no route post"});
  }
} reg;
