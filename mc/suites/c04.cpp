// C04: requests within the limits are always admitted; refused ones get only a 429; capacity is returned exactly once.
#include "limits.h"
#include "gen.h"

static void s_hist(long i, Ctx &c) {
  Mix m(i); int set = m((int)lim_sets().size()), mode = m(3); int d = c.thorough ? 6 : 4; auto w = word(m.n, 10, d);
  if (w[0] >= 8 || (!c.thorough && (w[0] + w[1] + w[2] + w[3] + set) % 3 != mode)) return;   // quick: one of the three places per history
  str s; for (int x : w) s += "aAbBcCsSon"[x]; c.desc = strf("rule set %d, requests held in %s, history %s (a/b/c/s URL, case = address, o/n finish oldest/newest), then everything ends and nine requests arrive", set, mode == 0 ? "their header section" : mode == 1 ? "their handler" : "their body", s.c_str());
  str sig; c.one([&] { return lim_history(lim_sets()[set], set % 3, w, mode, false, true, sig); }); c.outcome(fnv(sig, set));
  if (i % 9973 == 0) c.sample(c.desc + " -> " + sig);
}
static const char *RP[] = {"/", "/api", "/api/a", "/api/ab", "/s", "/api/b?q=1"};
static void s_rules(long i, Ctx &c) {
  Mix m(i); int n = m(2) + 1; Lims l; for (int k = 0; k < n; k++) { int p = m(6), a = m(4), b = m(4); l.push_back({RP[p], a, b}); } if (m.n > 0) return;
  c.desc = "rules " + esc(lims_text(l, 0));
  static const std::vector<std::vector<int>> H = {{0, 0, 0, 0}, {0, 1, 0, 1, 0, 1}, {0, 2, 4, 6, 1, 3}, {0, 0, 8, 0, 0, 9, 0}, {4, 0, 2, 8, 0, 4, 4}, {6, 6, 7, 0, 8, 6}};
  for (size_t k = 0; k < H.size(); k++) { str sig; c.one([&] { return lim_history(l, (int)(k % 3), H[k], (int)(k % 3), false, true, sig); }); c.outcome(fnv(sig, i)); }
}
// ---- a refused request gets a 429 and nothing else
static void s_refused(long i, Ctx &c) {
  static const char *U[] = {"/api/a", "/api/b?q=1", "/api/ab/c", "/s/x.txt", "/", "/favicon.ico", "/api/none", "/api", "/nofile", "/s/../s/x.txt"};
  static const char *M[] = {"GET", "POST", "PUT", "DELETE", "get"}; Mix m(i); str url = U[m(10)]; const char *me = M[m(5)]; int body = m(3), end = m(2), tls = m(2), why = m(3);
  c.desc = strf("%s %s%s refused (%s)%s", me, url.c_str(), body == 0 ? "" : body == 1 ? " with body" : " with multipart body", why == 0 ? "maximum 0" : why == 1 ? "per-address maximum 0" : "occupied by another request", tls ? ", TLS" : "");
  c.one([&] {
    begin(); setup_globals(tls); tls_files(); put_file(ETC() + "/limits", why == 0 ? "/,0,9,9\n" : why == 1 ? "/,9,0,9\n" : "/,1,1,9\n");
    for (const char *x : {"GET", "POST", "PUT", "DELETE"}) { route(str(x) + ":/a", 0); route(str(x) + ":/b", 1, 1); route(str(x) + ":/ab/{p}", 2, 2); }
    serve(2); run();
    Conn *h = nullptr; if (why == 2) { h = client("10.0.0.7", "GET /api/zzz HTTP/1.1\r\n", END_BLOCK); run(); if (h->closed) return bad("the first request was not admitted: %s", esc(h->out, 60).c_str()); }
    strs hd = {"Host: x"}; str b; if (body == 1) b = "k=v"; if (body == 2) { b = "--B\r\nContent-Disposition: form-data; name=\"f\"; filename=\"n\"\r\n\r\nDATA\r\n--B--\r\n"; hd.push_back("Content-Type: multipart/form-data; boundary=B"); }
    if (body) hd.push_back(strf("Content-Length: %zu", b.size()));
    size_t o0 = E->opens.size(); size_t l0 = E->access_log.size();
    Conn *q = client(why == 2 ? "10.0.0.7" : "10.0.0.1", req(str(me) + " " + url + " HTTP/1.1", hd, b), end ? END_EOF : END_BLOCK); run(); NOMISUSE; c.outcome(fnv(q->out, i % 50));
    if (status_of(q) != 429) return bad("answered %s instead of a single 429", esc(q->out, 100).c_str());
    if (!q->closed) return bad("the refused connection stays open");
    if (!seen.empty()) return bad("a refused request reached %s %d", seen[0].filter ? "filter" : "handler", seen[0].who);
    for (size_t k = o0; k < E->opens.size(); k++) if (has(E->opens[k].path, "/www") || has(E->opens[k].path, "/upload")) return bad("a refused request opened %s", E->opens[k].path.c_str());
    if (!list_dir(SCR + "/upload").empty()) return bad("a refused request stored a file");
    if (has(q->out, "STATIC")) return bad("a refused request got static content");
    (void)l0;
    if (why == 2) { more(h, "\r\n"); run(); Conn *z = client("10.0.0.1", get_("/s/x.txt"), END_EOF); run(); if (status_of(z) != 200) return bad("capacity is not available after the occupying request ended: %s", esc(z->out, 80).c_str()); }
    return good();
  });
  if (i % 149 == 0) c.sample(c.desc);
}
// ---- every way of ending returns the capacity, exactly once
static const char *WAY[] = {"answered", "filtered", "filter silent", "handler silent", "no route", "static file", "static missing", "static post", "parent directory", "disconnect in headers", "reset in headers", "disconnect in body", "body not allocatable", "send failure", "send failure static", "multipart", "refused by another rule", "handler 404", "long header", "too long url", "bad method", "TLS handshake failure", "TLS read failure", "empty connection", "handler stream", "getpeername failure", "delete", "headers beyond 20", "short sends", "URL without slash", "proxy URL", "no version", "asterisk", "longest URL", "X-Real-IP", "cookie", "capitals", "limits rule itself", "query only", "refused with a query", "refused POST"};
static const int NWAY = 41;
static Conn *way(int k, int j) {
  str ip = "10.0.0.1"; Conn *q = nullptr; str url = "/api/a";
  auto cl = [&](const str &d, EndKind e = END_EOF) { q = client(ip, d, e); return q; };
  switch (k) {
    case 0: cl(get_("/api/a")); break;
    case 1: cl(get_("/api/f")); break;
    case 2: cl(get_("/api/fs")); break;
    case 3: cl(get_("/api/s")); break;
    case 4: cl(get_("/api/nowhere")); break;
    case 5: cl(get_("/s/x.txt")); break;
    case 6: cl(get_("/s/none")); break;
    case 7: cl(post_("/s/x.txt", "b")); break;
    case 8: cl(get_("/s/../../etc/limits")); break;
    case 9: cl("GET /api/a HTTP/1.1\r\nHo"); break;
    case 10: cl("GET /api/a HTTP/1.1\r\nHost: x\r\n", END_RESET); break;
    case 11: cl(req("POST /api/a HTTP/1.1", {"Content-Length: 10"}, "abc")); break;
    case 12: cl(req("POST /api/a HTTP/1.1", {"Content-Length: 9223372036854775807"}, "abc")); break;
    case 13: cl(get_("/api/a")); q->fail_send_at = 0; break;
    case 14: cl(get_("/s/x.txt")); q->fail_send_at = j % 3; break;
    case 15: cl(post_("/api/a", "--B\r\nContent-Disposition: form-data; name=\"f\"; filename=\"n\"\r\n\r\nDATA\r\n--B--\r\n", {"Content-Type: multipart/form-data; boundary=B"})); break;
    case 16: cl(get_("/api/zero")); break;
    case 17: cl(get_("/api/nf")); break;
    case 18: cl(get_("/api/a", {"L: " + pat(3000)})); break;
    case 19: cl(get_("/api/a?" + pat(400))); break;
    case 20: cl(req("FOO /api/a HTTP/1.1")); break;
    case 21: cl(get_("/api/a")); q->tls_handshake_fails = true; break;
    case 22: cl(get_("/api/a")); q->tls_read_fail_at = 25; break;
    case 23: cl(""); break;
    case 24: cl(get_("/api/stream")); break;
    case 25: cl(get_("/api/a")); q->peername_fails = true; break;
    case 26: cl(req("DELETE /api/a HTTP/1.1")); break;
    case 27: { strs h; for (int z = 0; z < 30; z++) h.push_back(strf("H%d: %d", z, z)); cl(get_("/api/a", h)); break; }
    case 29: cl(get_("x")); break;
    case 30: cl(get_("http://10.0.0.1/api/a")); break;
    case 31: cl("GET /api/a\r\n\r\n"); break;
    case 32: cl(req("PUT * HTTP/1.1")); break;
    case 33: cl(get_("/" + pat(253))); break;
    case 34: cl(get_("/api/a", {strf("X-Real-IP: 10.9.0.%d", j % 250)})); break;
    case 35: cl(get_("/api/a", {"Cookie: a=b; WSSESSION=s", "Authorization: x"})); break;
    case 36: cl(get_("/API/A")); break;
    case 37: cl(get_("/api/zero/x")); break;
    case 38: cl(get_("?a=b")); break;
    case 39: cl(get_("/api/zero/x?a=b&c")); break;
    case 40: cl(post_("/api/zero?a=b", pat(700))); break;
    default: cl(get_("/s/x.txt")); q->short_sends = {1}; q->short_repeat = true; break;
  }
  return q;
}
static void ways_server(bool tls, int workers, const str &limits) {
  begin(); setup_globals(tls); tls_files(); put_file(ETC() + "/limits", limits); lim_hold.clear(); lim_blocking = false;
  for (const char *x : {"GET", "POST", "DELETE"}) route(str(x) + ":/a", 0);
  route("GET:/f", 1, 1); route("GET:/fs", 2, 2); route("GET:/s", 3); route("GET:/nf", 4); route("GET:/stream", 5); route("GET:/zero", 6);
  on_filter = [](api_request *r, int n) { if (n == 1) forbidden(r); return false; };
  on_handler = [](api_request *r, int n) {
    if (n == 3) return; if (n == 4) { not_found(r); return; }
    if (n == 5) { FILE *f = fmemopen((void *)"line\n", 5, "r"); return_json_stream(r, 200, f); fclose(f); return; }
    reply(r, "{}");
  };
  serve(workers);
}
static Result full_capacity(int max, const char *when) { // exactly `max` requests can be held now
  std::vector<Conn *> v;
  for (int k = 0; k < max + 1; k++) { Conn *q = client("10.0.0.1", "GET /api/a HTTP/1.1\r\n", END_BLOCK); run(); v.push_back(q); }
  NOMISUSE;
  for (int k = 0; k < max; k++) if (v[k]->closed || !v[k]->out.empty()) return bad("%s only %d of %d requests are admitted: %s", when, k, max, esc(v[k]->out, 60).c_str());
  if (!v[max]->closed || status_of(v[max]) != 429) return bad("%s more than %d requests are admitted", when, max);
  for (int k = 0; k < max; k++) { more(v[k], "\r\n"); } run(); NOMISUSE;
  for (int k = 0; k < max; k++) if (status_of(v[k]) != 200 || !v[k]->closed) return bad("%s held request %d was not served: %s", when, k, esc(v[k]->out, 60).c_str());
  return good();
}
static void s_ways(long i, Ctx &c) {
  Mix m(i); int a = m(NWAY), b = m(NWAY), max = m(3) + 1; bool tls = m(2);
  c.desc = strf("limit %d%s: %d requests end by \"%s\", alternating with \"%s\", then the full capacity is used", max, tls ? ", TLS" : "", 2 * max + 2, WAY[a], WAY[b]);
  if ((a == 28 || b == 28) && tls) return;
  c.one([&] {
    ways_server(tls, 5, strf("/,%d,%d,5\n/api/zero,0,0\n", max, max)); run();
    for (int k = 0; k < 2 * max + 2; k++) {
      int w = k % 2 ? b : a; Conn *q = way(w, k); run(); NOMISUSE; c.outcome(fnv(q->out, w));
      if (!q->closed) return bad("request \"%s\" did not end", WAY[w]);
      if (w != 16 && w != 37 && w < 39 && status_of(q) == 429) return bad("request %d (\"%s\") was refused although nothing else is being served", k, WAY[w]);
    }
    return full_capacity(max, "after these requests");
  });
  if (i % 397 == 0) c.sample(c.desc);
}
static void s_generated(long i, Ctx &c) {
  str b = gen_request(i / 2); bool tls = i & 1; c.desc = strf("%s%s, then the full capacity is used", esc(b, 160).c_str(), tls ? " over TLS" : ""); bool zero = b.find(" /api/zero") != str::npos;
  c.one([&] { ways_server(tls, 3, "/,1,1,5\n/api/zero,0,0\n"); run(); for (int k = 0; k < 3; k++) { Conn *q = client("10.0.0.1", b); run(); NOMISUSE; c.outcome(fnv(q->out)); if (!q->closed) return bad("the request did not end"); if (!zero && status_of(q) == 429) return bad("request %d was refused although nothing else is being served", k); } return full_capacity(1, "after these requests"); });
}
// ---- one request ends in some way while others are being served: their capacity stays taken
static void s_hold(long i, Ctx &c) {
  Mix m(i); int a = m(NWAY), held = m(3), ph = m(2), max = held + 1; bool tls = m(2); if (a == 28 && tls) return;
  c.desc = strf("%d requests are being served (limit %d)%s; another ends by \"%s\", three times", held, max, tls ? ", TLS" : "", WAY[a]);
  c.one([&] {
    ways_server(tls, 8, strf("/,%d,%d,5\n/api/zero,0,0\n", max, max)); run(); std::vector<Conn *> v;
    for (int k = 0; k < held; k++) { v.push_back(client("10.0.0.1", ph ? req("POST /api/a HTTP/1.1", {"Content-Length: 2"}) : "GET /api/a HTTP/1.1\r\n", END_BLOCK)); run(); if (v[k]->closed) return bad("held request %d was refused", k); }
    for (int k = 0; k < 3; k++) { Conn *q = way(a, k); run(); NOMISUSE; if (!q->closed) return bad("request \"%s\" did not end", WAY[a]); if (a != 16 && a != 37 && a < 39 && status_of(q) == 429) return bad("request %d (\"%s\") refused within the limit", k, WAY[a]); }
    for (int k = 0; k < held; k++) if (v[k]->closed) return bad("held request %d was closed", k);
    Conn *x = client("10.0.0.1", "GET /api/a HTTP/1.1\r\n", END_BLOCK); run(); NOMISUSE;
    if (x->closed) return bad("the last free place is not available: %s", esc(x->out, 60).c_str());
    Conn *y = client("10.0.0.1", "GET /api/a HTTP/1.1\r\n", END_BLOCK); run(); NOMISUSE;
    if (status_of(y) != 429) return bad("capacity of requests that are still being served was given away");
    for (auto q : v) more(q, ph ? "ok" : "\r\n"); more(x, "\r\n"); run(); NOMISUSE;
    for (auto q : v) if (status_of(q) != 200) return bad("a held request was not served: %s", esc(q->out, 60).c_str());
    c.outcome(i); return full_capacity(max, "in the end");
  });
  if (i % 97 == 0) c.sample(c.desc);
}
// ---- many requests: capacity is never used up
static void s_long(long i, Ctx &c) {
  Mix m(i); int a = m(NWAY); c.desc = strf("2100 requests ending by \"%s\", limit 1", WAY[a]);
  c.one([&] {
    ways_server(a == 21 || a == 22, 2, "/,1,1,5\n/api/zero,0,0\n"); run();
    for (int k = 0; k < 2100; k++) { Conn *q = way(a, k); run(); NOMISUSE; if (a != 16 && a != 37 && a < 39 && status_of(q) == 429) return bad("request %d was refused although nothing else is being served", k); }
    c.outcome(i); return full_capacity(1, "after 2100 requests");
  });
  c.sample(c.desc);
}
// ---- interleavings
static void s_inter(long i, Ctx &c) {
  static const int PA[] = {0, 3, 5, 9, 13, 16, 15, 1}; Mix m(i); int a = PA[m(8)], b = PA[m(8)], W = m(2) + 2, max = m(2) + 1, net = m(2), sh = m(4), arr = m(2);
  if (arr == 0 && b < a) return; if ((W == 3 || net) && !c.thorough && (a != b)) return; if (net && arr) return; if (arr && !c.thorough && ((b != 0 && b != 16) || (a != 0 && a != 9 && a != 13 && a != 16) || (is_race_build && (a || b)) || W == 3)) return; if (is_race_build && !c.thorough && W == 3 && a != 0) return;
  c.desc = strf("%d workers, limit %d: \"%s\" and \"%s\" concurrently%s%s, then the full capacity is used", W, max, WAY[a], WAY[b], arr ? ", a third when the first is closed" : "", net ? ", scheduling at network calls" : "");
  c.explore(c.thorough ? 2 : 1, [&] {
    ways_server(false, W, strf("/,%d,%d,5\n/api/zero,0,0\n", max, max)); E->quiet = true; run(); E->quiet = false; E->net_points = net; race_on = is_race_build;
    Conn *A = way(a, 0); way(b, 1);
    if (arr) spawn([=] { wait_until([A] { return A->closed; }, "closed"); way(b, 2); });
    run(); race_on = false; E->quiet = true; NOMISUSE; str o;
    for (auto q : E->conns) {
      o += strf("%d ", status_of(q)); bool z = (q->id == 0 ? a : b) == 16;
      if (!q->closed) return bad("connection %d does not end", q->id);
      if (!z && status_of(q) == 429) { // justified only if `max` others overlapped it
        int ov = 0; for (auto p : E->conns) if (p != q && status_of(p) != 429 && p->seq_accept < q->seq_close && (p->seq_close > q->seq_accept)) ov++;
        if (ov < max) return bad("connection %d was refused although only %d other requests were being served", q->id, ov);
      }
    }
    c.outcome(fnv(o, a * 100 + b)); 
    // with W workers at most W requests can be held at a time
    std::vector<Conn *> v; for (int k = 0; k < max; k++) { v.push_back(client("10.0.0.1", "GET /api/a HTTP/1.1\r\n", END_BLOCK)); run(); }
    NOMISUSE; for (int k = 0; k < max; k++) if (v[k]->closed || !v[k]->out.empty()) return bad("afterwards only %d of %d requests are admitted: %s", k, max, esc(v[k]->out, 60).c_str());
    if (W <= max) return good();
    Conn *y = client("10.0.0.1", "GET /api/a HTTP/1.1\r\n", END_BLOCK); run(); if (status_of(y) != 429) return bad("afterwards more than %d requests are admitted", max);
    return good();
  }, sh, 4);
  if (i % 101 == 0) c.sample(c.desc);
}
static void s_classes(long i, Ctx &c) { c.one([&] { return lim_classes(i, false, true, c); }); if (i % 1601 == 0) c.sample(c.desc); }
static void s_holes(long i, Ctx &c) { c.one([&] { return lim_holes(i, false, true, c); }); if (i % 401 == 0) c.sample(c.desc); }
static void s_limvalues(long i, Ctx &c) { c.desc = "-"; c.one([&] { return lim_values(i, false, true, c); }); if (i % 499 == 0) c.sample(c.desc); }
static struct Reg {
  Reg() {
    worker_init = [] { reset_files(); put_file(WWW() + "/s/x.txt", "STATIC x"); put_file(WWW() + "/index.html", "STATIC index"); put_file(WWW() + "/favicon.ico", "STATIC icon"); };
    if (!is_race_build) {
    add_suite({"C04", "classes", [](bool th) { return th ? LIM_CLASSES_T : LIM_CLASSES_Q; }, s_classes, 20, "1..5 requests being served, every subset of them within the rule, every subset of them ends, then requests of the rule arrive; 3 kinds of rules", "1..7"});
      add_suite({"C04", "holes", [](bool) { return LIM_HOLES; }, s_holes, 20, "2..8 requests being served, every subset of them ends in two orders, then more arrive than fit, 3 kinds of rules"});
      add_suite({"C04", "lengths", [](bool) { return LIM_VALUES; }, s_limvalues, 20, "rule paths of 1..254 characters, pairs of 14 addresses of every length, 1..64 rules with the deciding one in every place"});
      add_suite({"C04", "histories", [](bool th) { return (long)lim_sets().size() * 3 * ipow(10, th ? 6 : 4); }, s_hist, 20, "all histories of 4 events (arrivals of 4 URLs x 2 addresses, completions) x 14 rule sets, requests waiting in one of 3 places, then all end and nine more arrive, against the exact model", "all histories of 6 events, in all three places"});
      add_suite({"C04", "rules", [](bool) { return 2l * 96 * 96; }, s_rules, 20, "all sets of 1..2 rules over 6 paths x 4 x 4 maxima, 6 histories each"});
      add_suite({"C04", "refused", [](bool) { return 10l * 5 * 3 * 2 * 2 * 3; }, s_refused, 20, "10 URLs x 5 methods x 3 bodies x 3 reasons x TLS"});
      add_suite({"C04", "endings", [](bool) { return (long)NWAY * NWAY * 3 * 2; }, s_ways, 20, "all pairs of 41 ways of ending, limits 1..3, plain and TLS, repeated beyond the capacity"});
      add_suite({"C04", "generated", [](bool th) { return 2 * gen_count(th ? 2 : 1); }, s_generated, 20, "generated requests, three times, then the full capacity: 9 URLs x 6 queries x 16 methods and bodies x 0..1 of 10 headers, plain and TLS", "0..2 headers"});
      add_suite({"C04", "endings-while-held", [](bool) { return (long)NWAY * 3 * 2 * 2; }, s_hold, 20, "41 ways of ending while 0..2 others are being served"});
      add_suite({"C04", "long-run", [](bool) { return (long)NWAY; }, s_long, 60, "2100 requests of each ending"});
    }
    add_suite({"C04", "interleavings", [](bool) { return 8l * 8 * 2 * 2 * 2 * 4 * 2; }, s_inter, 300, "2..3 workers, pairs of 8 endings (and a third request reusing the descriptor), at most 1 preemption", "at most 2 preemptions"});
  }
} reg;
