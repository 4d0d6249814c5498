// C03: configured connection limits are never exceeded.
#include "limits.h"

// ---- sequential histories against the exact model
static void s_hist(long i, Ctx &c) {
  Mix m(i); int set = m((int)lim_sets().size()), mode = m(3); int d = c.thorough ? 6 : 4; auto w = word(m.n, 10, d);
  if (w[0] >= 8 || (!c.thorough && (w[0] + w[1] + w[2] + w[3] + set) % 3 != mode)) return;   // quick: one of the three places per history
  str s; for (int x : w) s += "aAbBcCsSon"[x]; c.desc = strf("rule set %d, requests held in %s, history %s (a/b/c/s URL, case = address, o/n finish oldest/newest)", set, mode == 0 ? "their header section" : mode == 1 ? "their handler" : "their body", s.c_str());
  str sig; c.one([&] { return lim_history(lim_sets()[set], set % 3, w, mode, true, false, sig); }); c.outcome(fnv(sig, set));
  if (i % 9973 == 0) c.sample(c.desc + " -> " + sig);
}
// ---- every pair and triple of rules over a pool of paths and values: arrivals only, then finish/arrive
static const char *RP[] = {"/", "/api", "/api/a", "/api/ab", "/s", "/api/b?q=1"};
static void s_rules(long i, Ctx &c) {
  Mix m(i); int n = m(2) + 1; Lims l; for (int k = 0; k < n; k++) { int p = m(6), a = m(4), b = m(4); l.push_back({RP[p], a, b}); } if (m.n > 0) return;
  c.desc = "rules " + esc(lims_text(l, 0));
  static const std::vector<std::vector<int>> H = {{0, 0, 0, 0}, {0, 1, 0, 1, 0, 1}, {0, 2, 4, 6, 1, 3}, {0, 0, 8, 0, 0, 9, 0}, {4, 0, 2, 8, 0, 4, 4}, {6, 6, 7, 0, 8, 6}};
  for (size_t k = 0; k < H.size(); k++) { str sig; c.one([&] { return lim_history(l, (int)(k % 3), H[k], (int)(k % 3), true, false, sig); }); c.outcome(fnv(sig, i)); }
}
// ---- many simultaneous requests
static void s_many(long i, Ctx &c) {
  static const int MX[] = {1, 2, 10, 63, 64, 100, 150, 199}; int mx = MX[i % 8]; int per = i / 8 % 3; int fin = i / 24 % 2;
  int ipmax = per == 0 ? mx : per == 1 ? (mx + 1) / 2 : 1; Lims l = {{"/api/a", mx, ipmax}};
  c.desc = strf("/api/a limited to %d (%d per address), 200 workers, %d arrivals from many addresses%s", mx, ipmax, mx + 40, fin ? ", every third ends again" : "");
  c.one([&] {
    lim_server(l, 0, 200); std::vector<LLive> live; str sig;
    for (int k = 0; k < mx + 40 && (int)live.size() < 199; k++) {
      str ip = per == 0 ? "10.0.0.1" : per == 1 ? strf("10.0.0.%d", 1 + k % 3) : strf("10.0.%d.%d", k / 250, 1 + k % 250);
      bool fits = lim_fits(l, live, LU[0], ip); Conn *q = lim_arrive(LU[0], ip, k % 3); NOMISUSE; int f = lim_fate(q); sig += '1' + f;
      if (f == 1 && !fits) return bad("arrival %d from %s is being served although a limit is reached (%zu being served)", k, ip.c_str(), live.size());
      if (f == 1) live.push_back({q, LU[0], ip});
      if (fin && k % 3 == 2 && !live.empty()) { size_t z = k % live.size(); LLive y = live[z]; live.erase(live.begin() + z); int mode = 0; for (auto &s : seen) if (s.conn == y.c->id) mode = 1; lim_hold.erase(y.c->id); if (mode == 0) hangup(y.c); run(); }
    }
    c.outcome(fnv(sig)); return good();
  });
  c.sample(c.desc);
}
// ---- interleavings: the number of requests inside their handlers never exceeds the limits
static std::vector<std::pair<str, str>> in_now; static str over;
static void s_inter(long i, Ctx &c) {
  static const std::vector<Lims> LS = {{{"/api/a", 1, 1}}, {{"/api", 2, 1}}, {{"/api", 2, 2}}, {{"/api/a", 1, 5}, {"/api", 2, 2}}, {{"/api", 3, 1}}};
  Mix m(i); int set = m(5), W = m(2) + 2, K = m(2) + 2, ips = m(2), urls = m(2), net = m(2), sh = m(4); const Lims &l = LS[set];
  if (W > K || (net && W * K > 6) || (W * K > 6 && !c.thorough)) return;
  int bound = c.thorough ? 2 : (net || W * K > 4 ? 1 : 2); if (is_race_build) bound = 1;
  c.desc = strf("%d workers, %d connections arriving together, limits %s, %s, %s%s", W, K, esc(lims_text(l, 0)).c_str(), ips ? "different addresses" : "one address", urls ? "different URLs" : "same URL", net ? ", scheduling at network calls" : "");
  c.explore(bound, [&] {
    lim_server(l, 0, W); E->net_points = net; E->quiet = true; run(); E->quiet = false; in_now.clear(); over.clear();
    on_handler = [&l](api_request *r, int n) {
      Conn *q = conn_of_fd(r->socket); std::pair<str, str> me(r->url, q ? q->ip : "?"); in_now.push_back(me);
      for (auto &u : l) { int t = 0, p = 0; for (auto &x : in_now) if (sw(x.first, u.path)) { t++; if (x.second == me.second) p++; } if (sw(me.first, u.path) && (t > u.max || p > u.per)) over = strf("%d requests (%d of %s) are being served under rule %s,%d,%d", t, p, me.second.c_str(), u.path.c_str(), u.max, u.per); }
      point("in handler"); point("in handler");
      for (size_t k = 0; k < in_now.size(); k++) if (in_now[k] == me) { in_now.erase(in_now.begin() + k); break; }
      reply(r, "{}");
    };
    race_on = is_race_build;
    for (int k = 0; k < K; k++) client(strf("10.0.0.%d", ips ? k % 2 + 1 : 1), get_(urls ? LU[k % 3] : LU[0]), END_EOF);
    run(); race_on = false;
    NOMISUSE; str o; for (auto q : E->conns) o += strf("%d ", status_of(q)); c.outcome(fnv(o, i));
    if (!over.empty()) return bad("%s", over.c_str());
    return good();
  }, sh, 4);
  if (i % 37 == 0) c.sample(c.desc);
}
// ---- descriptors are reused: A closes while C, which gets A's descriptor number, is admitted; D must not slip in
static void s_reuse(long i, Ctx &c) {
  Mix m(i); int W = m(2) + 2, mode = m(3), sh = m(16); if (W == 3 && !c.thorough) return; bool th = c.thorough; Lims l = {{"/api", mode == 2 ? 2 : 1, 9}};
  c.desc = strf("%d workers, limit %d: B, C, D arrive one after the other once A is closed; pattern %d", W, l[0].max, mode);
  c.explore(is_race_build ? 1 : c.thorough ? 2 : 1, [&] {
    lim_server(l, 0, W); E->quiet = true; run(); E->quiet = false; in_now.clear(); over.clear();
    on_handler = [&l](api_request *r, int n) {
      Conn *q = conn_of_fd(r->socket); std::pair<str, str> me(r->url, strf("%d", q ? q->id : -1)); in_now.push_back(me);
      if ((int)in_now.size() > l[0].max) over = strf("%zu requests are being served under %s,%d", in_now.size(), l[0].path.c_str(), l[0].max);
      point("in handler"); point("in handler");
      for (size_t k = 0; k < in_now.size(); k++) if (in_now[k] == me) { in_now.erase(in_now.begin() + k); break; }
      reply(r, "{}");
    };
    race_on = is_race_build;
    Conn *A = client("10.0.0.1", get_("/api/a"), END_EOF);
    if (mode == 1) client("10.0.0.1", get_("/api/a"), END_EOF);
    spawn([=] {
      wait_until([A] { return A->closed; }, "A closed"); Conn *C = client("10.0.0.2", get_("/api/a"), END_EOF);
      if (mode == 0) wait_until([C] { return C->closed || !in_now.empty(); }, "C inside");
      client("10.0.0.3", get_("/api/b"), END_EOF); if (th) client("10.0.0.4", get_("/api/ab/c"), END_EOF);
    });
    run(); race_on = false; NOMISUSE; str o; for (auto q : E->conns) o += strf("%d ", status_of(q)); c.outcome(fnv(o, mode));
    if (!over.empty()) return bad("%s", over.c_str());
    return good();
  }, sh, 16);
  c.sample(c.desc);
}
// the server takes /API for /api: the spelling of the URL does not lead past a rule
static void s_spelling(long i, Ctx &c) {
  Mix m(i); int a = m(16), b = m(16), rule = m(3), style = m(3); auto spell = [](int k) { str u = "/api/a"; static const int P[] = {1, 2, 3, 5}; for (int j = 0; j < 4; j++) if (k >> j & 1) u[P[j]] -= 32; return u; }; str A = spell(a), B = spell(b); c.desc = strf("%s and %s with rule %s", A.c_str(), B.c_str(), rule == 0 ? "/api" : rule == 1 ? "/api/a" : "/");
  c.one([&] { lim_server({{rule == 0 ? "/api" : rule == 1 ? "/api/a" : "/", 1, 1}}, style, 4); Conn *x = lim_arrive(A, "10.0.0.1", 0); NOMISUSE; if (lim_fate(x) != 1) return bad("%s is not served", A.c_str()); Conn *y = lim_arrive(B, "10.0.0.1", 0); NOMISUSE; int f = lim_fate(y); c.outcome(f + 2 * rule); if (f) return bad("%s is being served together with %s although the maximum is 1", B.c_str(), A.c_str()); return good(); });
}
static void s_classes(long i, Ctx &c) { c.one([&] { return lim_classes(i, true, false, c); }); if (i % 1601 == 0) c.sample(c.desc); }
static void s_holes(long i, Ctx &c) { c.one([&] { return lim_holes(i, true, false, c); }); if (i % 401 == 0) c.sample(c.desc); }
static void s_limvalues(long i, Ctx &c) { c.desc = "-"; c.one([&] { return lim_values(i, true, false, c); }); if (i % 499 == 0) c.sample(c.desc); }
static struct Reg {
  Reg() {
    worker_init = [] { reset_files(); put_file(WWW() + "/s/x.txt", "x"); };
    if (!is_race_build) {
      add_suite({"C03", "spelling", [](bool) { return 16l * 16 * 9; }, s_spelling, 20, "all spellings in upper and lower case of two URLs x 3 rules"});
    add_suite({"C03", "classes", [](bool th) { return th ? LIM_CLASSES_T : LIM_CLASSES_Q; }, s_classes, 20, "1..5 requests being served, every subset of them within the rule, every subset of them ends, then requests of the rule arrive; 3 kinds of rules", "1..7"});
      add_suite({"C03", "holes", [](bool) { return LIM_HOLES; }, s_holes, 20, "2..8 requests being served, every subset of them ends in two orders, then more arrive than fit, 3 kinds of rules"});
      add_suite({"C03", "lengths", [](bool) { return LIM_VALUES; }, s_limvalues, 20, "rule paths of 1..254 characters, pairs of 14 addresses of every length, 1..64 rules with the deciding one in every place"});
      add_suite({"C03", "histories", [](bool th) { return (long)lim_sets().size() * 3 * ipow(10, th ? 6 : 4); }, s_hist, 20, "all histories of 4 events (arrivals of 4 URLs x 2 addresses, completion of the oldest or newest by answer, disconnect or send failure) x 14 rule sets, requests waiting in one of 3 places, against the exact model", "all histories of 6 events, in all three places"});
      add_suite({"C03", "rules", [](bool) { return 2l * 96 * 96; }, s_rules, 20, "all sets of 1..2 rules over 6 paths x 4 x 4 maxima, 6 histories each"});
      add_suite({"C03", "many", [](bool) { return 48l; }, s_many, 60, "limits 1..199 with up to 199 simultaneous requests"});
    }
    add_suite({"C03", "interleavings", [](bool) { return 5l * 2 * 2 * 2 * 2 * 2 * 4; }, s_inter, 300, "2..3 workers, 2..3 simultaneous arrivals, 5 rule sets, at most 2 preemptions (1 with network points, with 3 connections and in the race build)", "at most 2 preemptions everywhere"});
    add_suite({"C03", "descriptor-reuse", [](bool) { return 2l * 3 * 16; }, s_reuse, 300, "2 workers, three or four connections, the later ones arriving as soon as the first is closed, at most 1 preemption", "2..3 workers, one more connection, at most 2 preemptions"});
  }
} reg;
