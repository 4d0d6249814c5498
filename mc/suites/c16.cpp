// C16: every answered request leaves exactly one accurate access-log record.
#include "corpus.h"
#include <time.h>

static str logtext() { str o; for (auto &w : E->access_log) o += w.data; return o; }
static str stamp(uint64_t ms) {   // independent of strftime
  static const char *MON[] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"};
  long s = (long)(ms / 1000), d = s / 86400, t = s % 86400; int y = 1970; auto leap = [](int y) { return y % 4 == 0 && (y % 100 || y % 400 == 0); };
  while (d >= (leap(y) ? 366 : 365)) { d -= leap(y) ? 366 : 365; y++; }
  int ml[] = {31, leap(y) ? 29 : 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}, m = 0; while (d >= ml[m]) { d -= ml[m]; m++; }
  return strf("%02ld/%s/%04d:%02ld:%02ld:%02ld +0000", d + 1, MON[m], y, t / 3600, t / 60 % 60, t % 60);
}
struct Want { strs ip, line, ref, ua; uint64_t at = 0, dt = 0; };   // acceptable alternatives
static str line_text(const str &ip, const str &ts, const str &l, int st, size_t n, const str &ref, const str &ua, uint64_t dt) { return ip + " - - [" + ts + "] \"" + l + strf("\" %d %zu \"", st, n) + ref + "\" \"" + ua + strf("\" %llu.%03llu\n", (unsigned long long)dt / 1000, (unsigned long long)dt % 1000); }
static bool matches(const str &rec, const Want &w, int st, size_t n) {
  for (auto &ip : w.ip) for (auto &l : w.line) for (auto &r : w.ref) for (auto &u : w.ua) if (rec == line_text(ip, stamp(w.at), l, st, n, r, u, w.dt)) return true;
  return false;
}
static str example(const Want &w, int st, size_t n) { return line_text(w.ip[0], stamp(w.at), w.line[0], st, n, w.ref[0], w.ua[0], w.dt); }
// what must be in the record of a request, derived from its bytes alone
static Want want_of(const str &bytes, const str &peer) {
  Want w; w.at = E->now_ms; size_t e = bytes.find('\n'); str l = bytes.substr(0, e == str::npos ? bytes.size() : e); while (!l.empty() && (l.back() == '\r' || l.back() == '\n')) l.pop_back();
  w.line = {l}; if (e == str::npos || l.find('\0') != str::npos) w.line.push_back(str(l.c_str()));
  if (l.size() > 1000) for (size_t k = 1000; k < l.size() && k < 1030; k++) w.line.push_back(l.substr(0, k));   // an overlong request line is cut
  str ip = peer, ref, ua; int nh = 0, pref = 0, pua = 0; bool end = false;
  for (size_t p = e == str::npos ? bytes.size() : e + 1; p < bytes.size();) {
    size_t q = bytes.find('\n', p); if (q == str::npos) break; str h = bytes.substr(p, q - p); p = q + 1; if (!h.empty() && h.back() == '\r') h.pop_back(); if (h.empty()) { end = true; break; }
    size_t c = h.find(':'); if (c == str::npos) continue; nh++; str n = lower(strip(h.substr(0, c))), v = strip(h.substr(c + 1));
    if (n == "x-real-ip" && !v.empty()) ip = v; if (n == "referer") { ref = v.substr(0, 255); pref = nh; } if (n == "user-agent") { ua = v.substr(0, 255); pua = nh; }
  }
  w.ip = {ip}; w.ref = {ref}; w.ua = {ua};
  if (pref > 20) w.ref.push_back(""); if (pua > 20) w.ua.push_back("");
  // refused before its headers were read, or its headers never complete: what was not read yet is not there
  str me = l.substr(0, l.find(' ')), url = l.find(' ') == str::npos ? "" : l.substr(l.find(' ') + 1); url = url.substr(0, url.find(' ')); bool known = ieq(me, "GET") || ieq(me, "POST") || ieq(me, "PUT") || ieq(me, "DELETE");
  if (!end || !known || url.empty() || url.size() > 254 || sw(url, "/api/zero")) { w.ip.push_back(peer); w.ref.push_back(""); w.ua.push_back(""); }
  return w;
}
static Result check_one(Conn *q, const Want &w, const str &rec) {
  if (q->out.empty()) return rec.empty() ? good() : bad("nothing was answered but the log has %s", esc(rec).c_str());
  Resp r = parse_response(q->out); if (!r.ok) return bad("malformed response: %s", r.err.c_str());
  if (rec.empty()) return bad("answered %d but there is no log record", r.status);
  if (!matches(rec, w, r.status, q->out.size())) return bad("log record\n  %sinstead of\n  %s", esc(rec, 1500).c_str(), esc(example(w, r.status, q->out.size()), 1500).c_str());
  return good();
}
static Result single(Ctx &c, const str &bytes, bool tls, uint64_t dt = 0, const str &peer = "10.0.0.1", EndKind end = END_EOF, int shorts = 0) {
  begin(); std_server(1, tls); run(); on_handler = [dt](api_request *r, int n) { E->now_ms += dt; std_handler(r, n); };
  size_t l0 = logtext().size(); uint64_t t0 = E->now_ms; Want w = want_of(bytes, peer); Conn *q = client(peer, bytes, end); if (shorts) { q->short_sends = {shorts}; q->short_repeat = true; } run(); NOMISUSE;
  w.dt = E->now_ms - t0; w.at = E->now_ms; str rec = logtext().substr(l0); c.outcome(fnv(rec)); return check_one(q, w, rec);
}
static void s_corpus(long i, Ctx &c) {
  static const int DT[] = {0, 1, 999, 1000, 61234}; Mix m(i); const Req &r = corpus()[m((int)corpus().size())]; bool tls = m(2); int dt = DT[m(5)], end = m(2), sh = m(3); if (!strcmp(r.name, "handler csv") || !strcmp(r.name, "silent handler") || !strcmp(r.name, "silent filter")) dt = -1;
  c.desc = strf("request \"%s\"%s, handled in %d ms, sends of %d bytes", r.name, tls ? ", TLS" : "", dt, sh); if (tls && sh) return;
  if (!strcmp(r.name, "handler csv")) return;               // answers with the low-level functions, which do not log
  if (!strcmp(r.name, "silent handler") || !strcmp(r.name, "silent filter")) { c.one([&] { return single(c, r.bytes, tls); }); return; }
  bool blocks = !end; if (blocks) for (const char *x : {"body too short", "huge length", "truncated headers", "truncated line", "nothing", "http 0.9"}) if (!strcmp(r.name, x)) return;
  c.one([&] { return single(c, r.bytes, tls, dt, "10.0.0.1", end ? END_EOF : END_BLOCK, sh == 0 ? 0 : sh == 1 ? 1 : 7); });
  if (i % 97 == 0) c.sample(c.desc);
}
// ---- contents: lengths and bytes of the logged values
static void s_values(long i, Ctx &c) {
  Mix m(i); int which = m(4), kind = m(4), mode = m(3); int n = (int)m.n; if (which == 2 && n > 1010) n = 1010; str v = mode == 0 ? pat(n, which) : mode == 1 ? rep("%s\"", n / 3 + 1).substr(0, n) : rep("a b\\", n / 4 + 1).substr(0, n); if (mode == 2 && n && v.back() == ' ') v.back() = 'x'; if (which == 2 && mode == 2) for (auto &x : v) if (x == ' ') x = '-'; if (which == 3 && (mode == 2 || mode == 1)) return;
  if (which == 3 && n > 60) return; if (which < 2 && n > 400) return;
  str b; strs H; if (which == 0) H = {"Referer: " + v, "User-Agent: ua/1"}; if (which == 1) H = {"User-Agent: " + v, "Host: x", "Referer: r"}; if (which == 3) H = {"X-Real-IP: " + v};
  static const char *U[] = {"/api/echo", "/a.txt", "/api/none", "/api/secret"}; str url = U[kind]; if (which == 2) { int room = n; url += "?" + v.substr(0, room); } b = get_(url, H);
  c.desc = strf("%s of %d characters (%s), %s", which == 0 ? "Referer" : which == 1 ? "User-Agent" : which == 2 ? "query" : "X-Real-IP", n, esc(v, 12).c_str(), U[kind]);
  c.one([&] { return single(c, b, false, 3); });
}
static void s_bytes(long i, Ctx &c) {
  Mix m(i); int which = m(3), b = m(255) + 1, kind = m(2); if (b == '\n' || b == '\r') return; str v = str("x") + (char)b + "y"; str url = kind ? "/api/echo" : "/a.txt"; strs H; if (which == 0) H = {"Referer: " + v}; if (which == 1) H = {"user-agent: " + v}; if (which == 2) { if (issp((char)b)) return; url += "?" + v; }
  c.desc = strf("byte %d in %s", b, which == 0 ? "Referer" : which == 1 ? "User-Agent" : "the URL"); c.one([&] { return single(c, get_(url, H), false, 0); });
}
static void s_order(long i, Ctx &c) {   // the headers at every position among the others
  Mix m(i); int a = m(24), b = m(24), third = m(24); if (a == b || a == third || b == third) return; strs H; for (int k = 0; k < 24; k++) H.push_back(k == a ? "Referer: the referer" : k == b ? "User-Agent: the agent" : k == third ? "X-Real-IP: 198.51.100.7" : strf("X-Referer-%d: %d", k, k)); c.desc = strf("Referer at %d, User-Agent at %d, X-Real-IP at %d", a, b, third); c.one([&] { return single(c, get_("/api/echo", H), false, 0, "192.0.2.255"); });
}
// ---- status and length of every helper
static const long BIG[] = {4095, 4096, 8191, 8192, 9999, 10000, 32767, 32768, 65535, 65536, 99999, 100000, 131072, 999999, 1000000, 1000001, 1048576, 1048577, 2097152, 16777217};
static int big(long k, long n) { return (int)(k < n ? k : BIG[k - n]); }
static void s_status(long i, Ctx &c) {
  static const int ST[] = {200, 201, 400, 401, 403, 404, 429, 500, 302, 0}; Mix m(i); int st = ST[m(10)], h = m(3), sz = big(m.n, c.thorough ? 3000 : 600); if (sz > 300000 && (st % 3 || h == 1)) return; c.desc = strf("helper %d, status %d, payload of %d bytes", h, st, sz);
  c.one([&] { begin(); setup_globals(); route("GET:/e", 0); on_handler = [&](api_request *r, int) { E->now_ms += 5; Buf b = Buf::z(pat(sz)); if (h == 0) return_json_with_status(r, st, b); else if (h == 1) send_http_status(r, st, b); else { FILE *f = fopen((SCR + "/cwd/s").c_str(), "w+"); fwrite(b, 1, sz, f); rewind(f); return_json_stream(r, st, f); fclose(f); } }; serve(1); run(); str by = get_("/api/e", {"Referer: r"}); Want w = want_of(by, "10.0.0.1"); w.dt = 5; Conn *q = ask(by); NOMISUSE; w.at = E->now_ms; c.outcome(fnv(logtext())); return check_one(q, w, logtext()); });
}
static void s_files(long i, Ctx &c) {
  Mix m(i); int ss = m(3), size = big(m.n, c.thorough ? 20000 : 3000); c.desc = strf("static file of %d bytes, session of %d characters", size, ss * 30); c.one([&] { put_file(WWW() + "/sized.bin", binpat(size)); strs H; if (ss) H.push_back("X-Session: " + pat(ss * 30)); return single(c, get_("/sized.bin", H), false, 0); });
}
// ---- times
static void s_elapsed(long i, Ctx &c) {
  Mix m(i); int how = m(3); uint64_t dt = m.n < 2100 ? m.n : m.n < 2140 ? (1ull << (m.n - 2100)) : (m.n - 2140) * 86399999ull; if (dt > 4000000000ull) return; c.desc = strf("the request takes %llu ms (%s)", (unsigned long long)dt, how == 0 ? "handler" : how == 1 ? "client sends slowly" : "both");
  c.one([&] {
    begin(); std_server(1); run(); on_handler = [&](api_request *r, int n) { if (how != 1) E->now_ms += how == 2 ? dt - dt / 3 : dt; std_handler(r, n); }; uint64_t t0 = E->now_ms; str b = get_("/api/echo", {"Referer: r"}); Want w = want_of(b, "10.0.0.1");
    Conn *q = client("10.0.0.1", b.substr(0, how ? 30 : b.size()), END_BLOCK); run(); if (how) { if (!q->out.empty()) return bad("answered before the request was complete"); E->now_ms += how == 2 ? dt / 3 : dt; more(q, b.substr(30)); run(); } NOMISUSE; w.dt = E->now_ms - t0; w.at = E->now_ms; c.outcome(fnv(logtext())); return check_one(q, w, logtext());
  });
}
static void s_clock(long i, Ctx &c) {
  Mix m(i); int part = m(2); uint64_t s = part ? 1700000000ull + m.n * 7 : 946684800ull + (uint64_t)m.n * 86400ull * 5 + (m.n * 4001) % 86400; c.desc = strf("clock at %llu", (unsigned long long)s); c.one([&] { begin(); E->now_ms = s * 1000 + i % 1000; std_server(1); run(); str b = get_("/a.txt"); Want w = want_of(b, "10.0.0.1"); Conn *q = ask(b); c.outcome(fnv(logtext())); return check_one(q, w, logtext()); });
}
// ---- the client is gone before its address can be read: no other client's address is put in its record
static void s_unknown(long i, Ctx &c) {
  Mix m(i); const Req &r = corpus()[m((int)corpus().size())], &f = corpus()[m((int)corpus().size())]; bool tls = m(2); str by = r.bytes; c.desc = strf("address unknown for \"%s\" after \"%s\"%s", r.name, f.name, tls ? ", TLS" : ""); if (by.find("X-Real-IP") != str::npos) return;
  c.one([&] { begin(); std_server(1, tls); run(); client("192.0.2.77", f.bytes); run(); size_t l0 = logtext().size(); Conn *q = client("10.0.0.1", by); q->peername_fails = true; run(); NOMISUSE; str rec = logtext().substr(l0); c.outcome(fnv(rec)); if (rec.empty()) return good(); str ip = rec.substr(0, rec.find(' '));
    unsigned x[4]; char e; if (sscanf(ip.c_str(), "%u.%u.%u.%u%c", x, x + 1, x + 2, x + 3, &e) == 4 && ip != "0.0.0.0" && ip != "10.0.0.1") return bad("recorded with the address %s, which is not the client's", ip.c_str()); return good(); });
}
// ---- histories: one record per answered request, in order, none for the others
static const char *HK[] = {"api get with query", "text file", "garbage", "nothing", "filter refuses", "silent handler", "limit zero", "real ip", "missing file", "multipart"};
static void s_hist(long i, Ctx &c) {
  Mix m(i); bool tls = m(2); auto w = word(m.n, 13, 1); str d; for (int x : w) d += x < 10 ? strf(" %s,", HK[x]) : x == 10 ? " denied address," : x == 11 ? " TLS failure / reset," : " log not writable,"; c.desc = (tls ? "TLS:" : "") + d;
  c.one([&] {
    begin(); std_server(1, tls); run(); str o;
    for (size_t k = 0; k < w.size(); k++) {
      int x = w[k]; str b = x < 10 ? corpus()[corpus_index(HK[x])].bytes : get_("/a.txt", {strf("Referer: r%zu", k)}); str ip = x == 10 ? "10.9.9.9" : strf("10.0.%zu.1", k); E->now_ms += 1500; size_t l0 = logtext().size(); Want wa = want_of(b, ip);
      Conn *q = client(ip, b); if (x == 11) { if (tls) q->tls_handshake_fails = true; else { q->segs.clear(); q->end = END_RESET; } } if (x == 12) { E->call_count.clear(); E->call_fail["logwrite"][0] = 24; } run(); E->call_fail.clear(); NOMISUSE; str rec = logtext().substr(l0); o += rec;
      if (x == 10 && (!q->out.empty() || !rec.empty())) return bad("a filtered client left a record %s", esc(rec).c_str()); if (x == 11 && tls && !rec.empty()) return bad("a failed TLS handshake left a record %s", esc(rec).c_str()); if (x == 12) { if (!rec.empty() && status_of(q) == 0) return bad("record without answer"); continue; } if (x == 11 && !tls) { wa.line = {""}; wa.ref = {""}; }
      Result r = check_one(q, wa, rec); if (!r.ok) return r;
    }
    c.outcome(fnv(o)); return good();
  });
  if (i % 701 == 0) c.sample(c.desc);
}
// ---- concurrent requests
static void s_conc(long i, Ctx &c) {
  static const char *K[] = {"api get with query", "text file", "real ip", "filter refuses", "limit zero", "missing file", "error object"}; Mix m(i); int sh = m(4), a = m(7), b = m(7), three = m(2), tls = m(2); if (b < a) return; if (!c.thorough && (three || tls) && a != b) return;
  c.desc = strf("two workers%s: \"%s\" and \"%s\"%s", tls ? " (TLS)" : "", K[a], K[b], three ? " and a third request" : "");
  c.explore(c.thorough || (!three && !tls && !is_race_build) ? 2 : 1, [&] {
    begin(); E->io_points = true; E->net_points = c.thorough; std_server(2, tls); E->quiet = true; run(); E->quiet = false; std::vector<Want> W; std::vector<Conn *> Q; std::vector<str> B = {corpus()[corpus_index(K[a])].bytes, corpus()[corpus_index(K[b])].bytes}; if (three) B.push_back(get_("/a.txt?third"));
    for (size_t k = 0; k < B.size(); k++) { str ip = strf("10.0.0.%zu", k + 1); W.push_back(want_of(B[k], ip)); Q.push_back(client(ip, B[k])); }
    if (is_race_build) race_on = true; run(); race_on = false; NOMISUSE; if (!E->races.empty()) return bad("data race: %s", E->races[0].c_str());
    str t = logtext(); c.outcome(fnv(t)); strs L; for (auto &l : lines_of(t)) L.push_back(l + "\n"); if (!t.empty() && t.back() != '\n') return bad("incomplete line in the log: %s", esc(t, 500).c_str());
    if (L.size() != Q.size()) return bad("%zu requests left %zu lines in the log: %s", Q.size(), L.size(), esc(t, 600).c_str());
    for (size_t k = 0; k < Q.size(); k++) { Resp r = parse_response(Q[k]->out); if (!r.ok) return bad("malformed response: %s", r.err.c_str()); bool f = false; for (auto &l : L) if (!l.empty() && matches(l, W[k], r.status, Q[k]->out.size())) { l = ""; f = true; break; } if (!f) return bad("no record of request %zu in %s", k, esc(t, 800).c_str()); }
    return good();
  }, sh, 4);
  if (i % 41 == 0) c.sample(c.desc);
}
static struct Reg {
  Reg() {
    worker_init = [] { reset_files(); std_files(); mkdirs(SCR + "/cwd"); };
    if (!is_race_build) {
      add_suite({"C16", "requests", [](bool) { return (long)corpus().size() * 2 * 5 * 2 * 3; }, s_corpus, 20, "67 requests x plain/TLS x 5 durations x kept open or closed by the client x 3 send sizes; every field of the record compared"});
      add_suite({"C16", "values", [](bool) { return 48l * 1011; }, s_values, 20, "Referer and User-Agent of 0..400, query of 0..1010, X-Real-IP of 0..60 characters x 3 contents x 4 outcomes"});
      add_suite({"C16", "bytes", [](bool) { return 3l * 255 * 2; }, s_bytes, 20, "every byte in Referer, User-Agent and URL"});
      add_suite({"C16", "positions", [](bool) { return 24l * 24 * 24; }, s_order, 20, "the three headers at every position among 24"});
      add_suite({"C16", "statuses", [](bool th) { return 30l * ((th ? 3000 : 600) + 20); }, s_status, 20, "10 statuses x 3 helpers x payload of 0..599 and 20 sizes up to 16 MB", "payload of 0..2999 bytes"});
      add_suite({"C16", "files", [](bool th) { return 3l * ((th ? 20000 : 3000) + 20); }, s_files, 20, "files of 0..2999 bytes and 20 sizes up to 16 MB x 3 sessions", "files of 0..19999 bytes"});
      add_suite({"C16", "durations", [](bool) { return 3l * 2180; }, s_elapsed, 20, "durations of 0..2099 ms, powers of two and multiples of a day, in the handler, while receiving or both"});
      add_suite({"C16", "clock", [](bool) { return 2l * 6000; }, s_clock, 20, "12000 clock values over 80 years"});
      add_suite({"C16", "unknown-address", [](bool) { return (long)corpus().size() * (long)corpus().size() * 2; }, s_unknown, 20, "pairs of requests, the second from a client whose address cannot be read any more"});
      add_suite({"C16", "histories", [](bool th) { return 2 * npaths(13, th ? 4 : 3, 1); }, s_hist, 20, "all histories of length 1..3 over 13 kinds of connection, plain and TLS", "length 1..4"});
    }
    add_suite({"C16", "concurrent", [](bool) { return 4l * 7 * 7 * 2 * 2; }, s_conc, 120, "pairs (and triples) of 7 requests on two workers, scheduling points at every stdio call, at most 2 preemptions (1 for triples, TLS and race detection)", "at most 2 preemptions, also at network calls"});
  }
} reg;
