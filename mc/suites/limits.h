// Limits: an exact model of admission, and histories of arrivals and completions run against it (used by C03 and C04).
#pragma once
#include "common.h"
struct Lim { str path; int max, per; };
typedef std::vector<Lim> Lims;
static str lims_text(const Lims &l, int style) {
  str o; for (auto &r : l) o += style == 0 ? strf("%s,%d,%d,10\n", r.path.c_str(), r.max, r.per) : style == 1 ? strf("%s, %d, %d, 10\n", r.path.c_str(), r.max, r.per) : strf("# x\n%s,%d,%d\n\n", r.path.c_str(), r.max, r.per);
  return o;
}
static const std::vector<Lims> &lim_sets() {
  static std::vector<Lims> v = {
    {{"/api", 2, 1}}, {{"/api", 2, 2}, {"/api/a", 1, 1}}, {{"/api/a", 1, 1}, {"/api/b", 2, 1}, {"/api", 3, 2}}, {{"/api/a", 0, 5}},
    {{"/api", 1, 5}}, {{"/", 2, 1}}, {{"/api/a", 2, 1}, {"/api/ab", 1, 1}}, {{"/api/x", 1, 1}}, {{"/api/a", 3, 2}, {"/api", 2, 2}},
    {{"/api/b?q", 1, 1}, {"/s", 1, 1}}, {{"/api/b", 5, 0}}, {{"/api/a", 2, 2}, {"/api/b", 2, 2}, {"/api/", 3, 3}}, {},
    {{"/s/", 2, 1}, {"/api", 3, 1}},
  };
  return v;
}
static const char *LU[] = {"/api/a", "/api/b?q=1", "/api/ab/c", "/s/x.txt"};
static const char *LIP[] = {"10.0.0.1", "10.0.0.11"};
static std::set<int> lim_hold; static bool lim_blocking; static int lim_max_seen;
static void lim_server(const Lims &l, int style, int workers) {
  begin(); setup_globals(); put_file(ETC() + "/limits", lims_text(l, style)); lim_hold.clear(); lim_blocking = false;
  for (const char *m : {"GET", "POST"}) { route(str(m) + ":/a", 0); route(str(m) + ":/b", 1, 1); route(str(m) + ":/ab/c", 2); }
  on_handler = [](api_request *r, int n) {
    Conn *c = conn_of_fd(r->socket); int id = c ? c->id : -1;
    if (lim_blocking) wait_until([id] { return !lim_hold.count(id); }, "handler");
    reply(r, strf("{\"h\":%d}", n));
  };
  serve(workers);
}
struct LLive { Conn *c; str url, ip; };
static bool lim_fits(const Lims &l, const std::vector<LLive> &live, const str &url, const str &ip) {
  for (auto &r : l) if (sw(url, r.path)) {
    int t = 0, p = 0; for (auto &x : live) if (sw(x.url, r.path)) { t++; if (x.ip == ip) p++; }
    if (t >= r.max || p >= r.per) return false;
  }
  return true;
}
static Conn *lim_arrive(const str &url, const str &ip, int mode) {
  Conn *c;
  if (mode == 1 && sw(url, "/api")) {
    c = client(ip, "", END_BLOCK); lim_hold.insert(c->id); lim_blocking = true; int k = c->id % 5; str body = k == 1 ? "ab" : k == 2 ? pat(5000) : "--B\r\nContent-Disposition: form-data; name=\"f\"; filename=\"n\"\r\n\r\n" + pat(k == 3 ? 10 : 6000) + "\r\n--B--\r\n";
    more(c, !k ? get_(url) : k < 3 ? post_(url, body) : post_(url, body, {"Content-Type: multipart/form-data; boundary=B"}));
  }
  else if (mode == 2 && sw(url, "/api")) c = client(ip, req("POST " + url + " HTTP/1.1", {"Content-Length: 3"}), END_BLOCK);
  else c = client(ip, "GET " + url + " HTTP/1.1\r\nHost: h\r\n", END_BLOCK);
  run(); return c;
}
static void lim_finish(const LLive &x, int mode, int how) {
  if (mode == 1 && sw(x.url, "/api")) { if (how) x.c->fail_send_at = 0; lim_hold.erase(x.c->id); }
  else if (how == 1) hangup(x.c, END_EOF); else if (how == 2) hangup(x.c, END_RESET);
  else more(x.c, mode == 2 && sw(x.url, "/api") ? "abc" : "\r\n");
  run();
}
// one connection's fate at rest: 1 being served, 0 refused, -1 something else
static int lim_fate(Conn *c) { if (c->accepted && !c->closed && c->out.empty()) return 1; if (c->closed && status_of(c) == 429) return 0; return -1; }
// history: 0..7 arrive(url,ip), 8 finish oldest, 9 finish newest; exceed: report over-admission, refuse: report unjustified refusals
static Result lim_history(const Lims &l, int style, const std::vector<int> &w, int mode, bool exceed, bool refuse, str &sig) {
  lim_server(l, style, 10);
  std::vector<LLive> live; int n = 0;
  auto arrive = [&](const str &url, const str &ip) -> Result {
    bool fits = lim_fits(l, live, url, ip);
    Conn *c = lim_arrive(url, ip, mode); n++;
    NOMISUSE; int f = lim_fate(c); sig += f == 1 ? 'A' : f == 0 ? 'R' : 'x';
    if (f < 0) return bad("request %d (%s from %s) is neither being served nor refused: %s", n, url.c_str(), ip.c_str(), esc(c->out, 80).c_str());
    if (exceed && f == 1 && !fits) return bad("request %d (%s from %s) is being served although a limit is reached (%zu requests are being served)", n, url.c_str(), ip.c_str(), live.size());
    if (refuse && f == 0 && fits) return bad("request %d (%s from %s) was refused although no limit would be exceeded (%zu requests are being served)", n, url.c_str(), ip.c_str(), live.size());
    if (f == 1) live.push_back({c, url, ip});
    for (auto &x : live) if (lim_fate(x.c) != 1) return bad("request %d ended although it was not finished: %s", x.c->id, esc(x.c->out, 80).c_str());
    if (refuse && f == 0) for (auto &s : seen) if (s.conn == c->id) return bad("refused request reached %s %d", s.filter ? "filter" : "handler", s.who);
    return good();
  };
  for (int x : w) {
    if (x < 8) { Result r = arrive(LU[x / 2], LIP[x % 2]); if (!r.ok) return r; }
    else if (live.empty()) return good();
    else {
      size_t k = x == 8 ? 0 : live.size() - 1; LLive y = live[k]; live.erase(live.begin() + k);
      lim_finish(y, mode, n % 3); NOMISUSE; sig += x == 8 ? 'o' : 'n';
      if (!y.c->closed) return bad("request %d does not end", y.c->id);
    }
  }
  if (refuse) { // everything returned: the model from empty must hold again
    while (!live.empty()) { LLive y = live.back(); live.pop_back(); lim_finish(y, mode, (n + live.size()) % 3); NOMISUSE; if (!y.c->closed) return bad("request %d does not end", y.c->id); }
    sig += '|';
    static const int again[] = {0, 1, 0, 2, 3, 4, 6, 7, 2};
    for (int x : again) { Result r = arrive(LU[x / 2], LIP[x % 2]); if (!r.ok) { r.msg = "after everything had ended: " + r.msg; return r; } }
  }
  return good();
}

// rules and requests whose paths, addresses and places in the file take every length; arrivals are held in their header section
static const strs LONG_IP = {"10.0.0.1", "1.2.3.4", "203.0.113.2", "203.0.113.21", "203.0.113.215", "255.255.255.255", "255.255.255.25", "192.168.100.200", "192.168.100.20", "10.0.0.10", "10.0.0.100", "110.0.0.1", "0.0.0.0", "127.0.0.1"};
static const long LIM_VALUES = 254 * 2 * 2 + 14 * 14 * 2 + 64 * 64;
static Result lim_values(long i, bool exceed, bool refuse, Ctx &c) {
  Lims l; std::vector<std::pair<str, str>> a; str sig;
  if (i < 1016) { int n = (int)i % 254, how = (int)(i / 254) % 2, same = (int)(i / 508); str p = "/" + pat(n, 4); l = {{p, how + 1, 1}}; str q = p; q[n] = n ? '_' : '/'; const char *o = same ? "10.0.0.1" : "10.0.0.11"; str t = p.size() < 250 ? p + "/z" : p; a = {{p, "10.0.0.1"}, {q, o}, {t, o}, {t, "10.0.0.1"}, {p.substr(0, std::max<size_t>(1, p.size() - 1)), "10.0.0.1"}, {p, "10.0.0.12"}}; c.desc = strf("rule path of %d characters, %d allowed, %s", n + 1, how + 1, same ? "one address" : "two addresses"); }
  else if (i < 1016 + 392) { i -= 1016; str x = LONG_IP[i % 14], y = LONG_IP[i / 14 % 14]; int per = 1 + (int)(i / 196); l = {{"/s", 9, per}}; for (int k = 0; k < 3; k++) { a.push_back({"/s/1", x}); a.push_back({"/s/2", y}); } c.desc = strf("%d per address, from %s and %s", per, x.c_str(), y.c_str()); }
  else { i -= 1408; int n = 1 + (int)i % 64, j = (int)i / 64; if (j >= n) return good(); for (int k = 0; k < n; k++) l.push_back(k == j ? Lim{"/s", 2, 1} : Lim{strf("/o%d/", k), 1, 1}); a = {{"/s/1", "10.0.0.1"}, {"/s/2", "10.0.0.1"}, {"/s/3", "10.0.0.2"}, {"/s/4", "10.0.0.3"}, {strf("/o%d/x", n - 1), "10.0.0.1"}, {strf("/o%d/x", n - 1), "10.0.0.1"}, {"/o0/x", "10.0.0.4"}}; c.desc = strf("the deciding rule is number %d of %d", j + 1, n); }
  lim_server(l, (int)(i % 3), 8); std::vector<LLive> live; int n = 0;
  for (auto &x : a) {
    bool fits = lim_fits(l, live, x.first, x.second); Conn *q = lim_arrive(x.first, x.second, 0); n++; NOMISUSE; int f = lim_fate(q); sig += f == 1 ? 'A' : f == 0 ? 'R' : 'x'; if (f < 0) return bad("request %d is neither being served nor refused: %s", n, esc(q->out, 80).c_str());
    if (exceed && f == 1 && !fits) return bad("request %d (%s from %s) is being served although a limit is reached", n, x.first.c_str(), x.second.c_str()); if (refuse && f == 0 && fits) return bad("request %d (%s from %s) was refused although no limit would be exceeded", n, x.first.c_str(), x.second.c_str()); if (f == 1) live.push_back({q, x.first, x.second});
  }
  while (!live.empty()) { LLive y = live.back(); live.pop_back(); lim_finish(y, 0, (int)live.size() % 3); NOMISUSE; if (!y.c->closed) return bad("request %d does not end", y.c->id); }
  for (auto &x : a) { bool fits = lim_fits(l, {}, x.first, x.second); Conn *q = lim_arrive(x.first, x.second, 0); int f = lim_fate(q); if (f < 0 || (exceed && f && !fits) || (refuse && !f && fits)) return bad("after everything had ended: %s from %s has fate %d", x.first.c_str(), x.second.c_str(), f); lim_finish({q, x.first, x.second}, 0, 0); }
  c.outcome(fnv(sig, l.size())); return good();
}

// n requests are being served, any subset of them (cls) within one rule, any subset (mask) ends, then requests of the rule arrive
static const long LIM_CLASSES_Q = (4 + 16 + 64 + 256 + 1024) * 12, LIM_CLASSES_T = (4 + 16 + 64 + 256 + 1024 + 4096 + 16384) * 12;
static Result lim_classes(long i, bool exceed, bool refuse, Ctx &c) {
  Mix m(i); int kind = m(3), rev = m(2), more = m(2); long x = m.n, n = 1; while (x >= (1l << 2 * n)) { x -= 1l << 2 * n; n++; } int cls = (int)(x & ((1 << n) - 1)), mask = (int)(x >> n), na = __builtin_popcount(cls); if (!na) return good(); int lim = na + more; Lims l = kind == 0 ? Lims{{"/a", lim, 99}} : kind == 1 ? Lims{{"/", 99, lim}} : Lims{{"/b", 99, 99}, {"/a", 99, lim}, {"/", 50, 50}}; str sig;
  c.desc = strf("limit %d (%s), %ld requests are being served, those of mask %x within the rule, those of mask %x end from the %s, then more arrive", lim, kind == 0 ? "in all" : kind == 1 ? "per address" : "per address and path", n, cls, mask, rev ? "last" : "first");
  lim_server(l, i % 3, 14); std::vector<LLive> live; int k = 0;
  auto arrive = [&](bool in) -> Result {
    str url = strf(kind == 1 ? "/s/%d" : in ? "/a/%d" : "/b/%d", k), ip = kind == 0 || !in ? strf("10.0.1.%d", k + 1) : str("10.0.0.1"); k++; bool fits = lim_fits(l, live, url, ip); Conn *q = lim_arrive(url, ip, 0); NOMISUSE; int f = lim_fate(q); sig += f == 1 ? 'A' : f == 0 ? 'R' : 'x'; if (f < 0) return bad("request %d is neither being served nor refused: %s", k, esc(q->out, 80).c_str());
    if (exceed && f == 1 && !fits) return bad("request %d (%s from %s) is being served although the limit of %d is reached by the %zu that are", k, url.c_str(), ip.c_str(), lim, live.size()); if (refuse && f == 0 && fits) return bad("request %d (%s from %s) was refused although it fits, %zu are being served", k, url.c_str(), ip.c_str(), live.size()); if (f == 1) live.push_back({q, url, ip}); return good();
  };
  for (int j = 0; j < n; j++) { Result r = arrive(cls >> j & 1); if (!r.ok) return r; }
  std::vector<LLive> keep; if (live.size() == (size_t)n) for (int j = 0; j < n; j++) { int y = rev ? (int)n - 1 - j : j; if (mask >> y & 1) { lim_finish(live[y], 0, j % 3); NOMISUSE; if (!live[y].c->closed) return bad("request %d does not end", y); } else keep.push_back(live[y]); } live = keep;
  for (int j = 0; j < lim + 1; j++) { Result r = arrive(true); if (!r.ok) return r; } Result r = arrive(false); if (!r.ok) return r; r = arrive(true); if (!r.ok) return r;
  while (!live.empty()) { LLive y = live.back(); live.pop_back(); lim_finish(y, 0, 0); if (!y.c->closed) return bad("request does not end"); }
  for (int j = 0; j < lim + 1; j++) { Result r = arrive(true); if (!r.ok) return r; } c.outcome(fnv(sig)); return good();
}
// n requests are being served, any subset of them ends, then as many as fit and one more arrive
static const long LIM_HOLES = 508 * 2 * 3;
static Result lim_holes(long i, bool exceed, bool refuse, Ctx &c) {
  Mix m(i); int rev = m(2), kind = m(3), x = (int)m.n, n = 2; while (x >= (1 << n)) { x -= 1 << n; n++; } int mask = x; Lims l = kind == 0 ? Lims{{"/s", n, 99}} : kind == 1 ? Lims{{"/s", 99, n}} : Lims{{"/s/", n, n}, {"/s", n + 1, n + 1}}; str sig;
  c.desc = strf("limit %d (%s), %d requests are being served, those of mask %x end from the %s, then more arrive", n, kind == 0 ? "in all" : kind == 1 ? "per address" : "two rules", n, mask, rev ? "last" : "first");
  lim_server(l, i % 3, 12); std::vector<LLive> live; int k = 0;
  auto arrive = [&]() -> Result {
    str url = strf("/s/%d", k), ip = kind == 1 ? "10.0.0.1" : strf("10.0.0.%d", 1 + k % 3); k++; bool fits = lim_fits(l, live, url, ip); Conn *q = lim_arrive(url, ip, 0); NOMISUSE; int f = lim_fate(q); sig += f == 1 ? 'A' : f == 0 ? 'R' : 'x'; if (f < 0) return bad("request %d is neither being served nor refused: %s", k, esc(q->out, 80).c_str());
    if (exceed && f == 1 && !fits) return bad("request %d is being served although %zu are and the limit is %d", k, live.size(), n); if (refuse && f == 0 && fits) return bad("request %d was refused although only %zu of %d are being served", k, live.size(), n); if (f == 1) live.push_back({q, url, ip}); return good();
  };
  for (int j = 0; j < n; j++) { Result r = arrive(); if (!r.ok) return r; }
  std::vector<LLive> keep; if (live.size() == (size_t)n) for (int j = 0; j < n; j++) { int y = rev ? n - 1 - j : j; if (mask >> y & 1) { lim_finish(live[y], 0, j % 3); NOMISUSE; if (!live[y].c->closed) return bad("request %d does not end", y); } else keep.push_back(live[y]); } live = keep;
  for (int j = 0; j < n + 2; j++) { Result r = arrive(); if (!r.ok) return r; }
  while (!live.empty()) { LLive y = live.back(); live.pop_back(); lim_finish(y, 0, 0); if (!y.c->closed) return bad("request does not end"); }
  for (int j = 0; j < n + 1; j++) { Result r = arrive(); if (!r.ok) return r; } c.outcome(fnv(sig)); return good();
}
