// C02: every accepted socket is closed exactly once and nothing is left open.
#include "corpus.h"

static Result closed_all(const char *when = "") {
  if (!E->errors.empty()) return bad("%s%s", when, E->errors[0].c_str());
  if (E->aborted_livelock) return bad("%sthe server does not come to rest", when);
  if (E->exited) return bad("%sthe server process ended with status %d", when, E->exit_code);
  for (auto c : E->conns) {
    if (!c->accepted) return bad("%sconnection %d was never accepted", when, c->id);
    if (c->after_close) return bad("%sconnection %d used after close", when, c->id);
    if (c->closes != 1) return bad("%sconnection %d closed %d times (response %s)", when, c->id, c->closes, esc(c->out, 60).c_str());
  }
  if (E->open_files != 1) return bad("%s%d files are open, expected only the log", when, E->open_files);
  if (E->ssl_sessions != 0) return bad("%s%d TLS sessions outlive their connection", when, E->ssl_sessions);
  return good();
}
// fault number f of a request; returns false when there is none such
enum { F_NONE, F_EOF, F_RESET, F_SEND, F_SHORT, F_INTR, F_TLSREAD, F_HANDSHAKE, F_PEER, F_FOPEN, F_FOPENR, F_FOPENW, F_FREAD, F_SSLNEW, F_RECV, F_FWRITE, F_STAT, F_REMOVE, F_LOG, F_KINDS };
static const char *FN[] = {"none", "orderly disconnect", "reset", "send failure", "one byte sends", "interrupted send", "TLS read failure", "TLS handshake failure", "getpeername failure", "fopen failure", "fopen(r) failure", "fopen(w) failure", "fread failure", "SSL_new failure", "recv failure", "fwrite failure", "stat failure", "remove failure", "log write failure"};
static const char *CALL[] = {0, 0, 0, 0, 0, 0, 0, 0, "getpeername", "fopen", "fopen_r", "fopen_w", "fread", "SSL_new", "recv", "fwrite", "stat", "remove", "logwrite"};
static Result one_fault(Ctx &c, const Req &r, bool tls, int kind, long at) {
  begin(); std_server(1, tls); run();
  std::map<str, int> base = E->call_count;
  E->call_fail["-"][0] = 1; E->call_count.clear();
  str d = r.bytes; EndKind end = END_EOF; if (kind == F_EOF || kind == F_RESET) { d = d.substr(0, at); end = kind == F_RESET ? END_RESET : END_EOF; }
  Conn *q = client("10.0.0.1", d, end);
  if (kind == F_SEND) q->fail_send_at = at;
  if (kind == F_SHORT) { q->short_sends = {1}; q->short_repeat = true; }
  if (kind == F_INTR) q->intr_send_at = at;
  if (kind == F_TLSREAD) q->tls_read_fail_at = at;
  if (kind == F_HANDSHAKE) q->tls_handshake_fails = 1 + at;
  if (CALL[kind]) E->call_fail[CALL[kind]][at] = kind == F_RECV ? 104 : kind == F_FWRITE ? 28 : 24;
  run();
  c.outcome(fnv(q->out, kind * 2 + tls));
  Result x = closed_all(); if (!x.ok) return x;
  E->call_fail.clear(); client("10.0.0.2", get_("/a.txt")); run();          // the next connection
  return closed_all("after the next request: ");
}
static void s_faults(long i, Ctx &c) {
  Mix m(i); const Req &r = corpus()[m((int)corpus().size())]; bool tls = m(2); int kind = m(F_KINDS);
  if (!tls && (kind == F_TLSREAD || kind == F_HANDSHAKE || kind == F_SSLNEW)) return;
  if (tls && (kind == F_SHORT || kind == F_INTR)) return;
  c.desc = strf("request \"%s\"%s, %s at every point", r.name, tls ? " over TLS" : "", FN[kind]);
  long n = 1 + (kind == F_HANDSHAKE), step = 1;
  if (kind == F_EOF || kind == F_RESET || kind == F_TLSREAD) { n = r.bytes.size() + (kind == F_TLSREAD); if (!c.thorough && n > 300) step = n / 150; }
  else if (kind != F_NONE && kind != F_SHORT && kind != F_HANDSHAKE) {   // how often does it happen without faults?
    c.one([&] { begin(); std_server(1, tls); run(); E->call_fail["-"][0] = 1; E->call_count.clear(); Conn *q = client("10.0.0.1", r.bytes); run(); n = CALL[kind] ? E->call_count[CALL[kind]] : q->send_calls; return closed_all(); });
    if (kind == F_RECV && !c.thorough && n > 300) step = n / 100;
  }
  for (long at = 0; at < n; at += step) { c.one([&] { c.count("fault points"); return one_fault(c, r, tls, kind, at); }); }
  if (i % 211 == 0) c.sample(c.desc);
}
static void s_generated(long i, Ctx &c) {
  str b = gen_request(i / 4); bool tls = i & 1, cut = i & 2; if (cut) b.resize(b.size() - 1 - i / 4 % 5); c.desc = strf("%s%s%s", esc(b, 160).c_str(), tls ? " over TLS" : "", cut ? ", cut" : ""); c.one([&] { begin(); std_server(1, tls); run(); Conn *q = client("10.0.0.1", b); run(); c.outcome(fnv(q->out)); return closed_all(); }); if (i % 9999 == 0) c.sample(c.desc);
}
// ---- requests of every outcome with elements of every length
static void s_lengths(long i, Ctx &c) {
  static const strs U = {"GET /text", "GET /none", "GET /api/echo", "GET /api/none", "GET /api/item/", "GET /api/zero", "GET /api/secret?", "GET /two/", "PATCH /api/echo", "POST /api/echo", "POST /text", "GET /../", "GET /api/nf?", "GET /api/file?"}; static const strs W = {"URL", "query", "header value", "header name", "session", "cookie", "content type", "address", "line without colon", "boundary", "body", "method"};
  Mix m(i); bool tls = m(2); int u = m((int)U.size()), w = m(12), end = m(2), n = (int)m.n; if (n > 260) n = 260 + (n - 260) * 17; bool post = sw(U[u], "POST"); if ((w == 9 || w == 10) && !post) return; str l = U[u], v = pat(n, 3), body = w == 9 ? str("--") + v + "\r\nContent-Disposition: form-data; name=\"a\"\r\n\r\nb\r\n--" + v + "--\r\n" : w == 10 ? v : "x=y"; strs h;
  if (w == 0) l += v; if (w == 1) l += (has(l, "?") ? "" : "?") + v; if (w == 2) h = {"H: " + v}; if (w == 3) h = {v + ": x"}; if (w == 4) h = {"X-Session: " + v}; if (w == 5) h = {"Cookie: WSSESSION=" + v}; if (w == 6) h = {"Content-Type: " + v}; if (w == 7) h = {"X-Real-IP: " + v}; if (w == 8) h = {v.empty() ? str("x") : v}; if (w == 9) h = {"Content-Type: multipart/form-data; boundary=" + v}; if (w == 11) l = v + l;
  if (post) h.push_back(strf("Content-Length: %zu", body.size())); else body.clear(); c.desc = strf("%s with %s of %d characters%s", U[u].c_str(), W[w].c_str(), n, tls ? " over TLS" : "");
  c.one([&] { begin(); std_server(1, tls); run(); Conn *q = client("10.0.0.1", req(l + " HTTP/1.1", h, body), end ? END_EOF : END_BLOCK); run(); Conn *z = client("10.0.0.2", get_("/api/echo")); run(); c.outcome(fnv(q->out)); if (z->out.empty()) return bad("the next request is not answered"); return closed_all(); });
  if (i % 9999 == 0) c.sample(c.desc);
}
// ---- histories of requests, one or two workers, also refused by address, TLS failures, full queue
static const char *HK[] = {"api get", "multipart", "garbage", "nothing", "a", "deny", "big file", "truncated headers", "limit zero", "silent handler"};
static void s_hist(long i, Ctx &c) {
  Mix m(i); int W = m(2) + 1; bool tls = m(2); auto w = word(m.n, 10, 1); str d; for (int x : w) d += strf(" %s", HK[x]);
  c.desc = strf("%d workers, %s, history:%s", W, tls ? "TLS" : "plain", d.c_str());
  c.one([&] {
    begin(); std_server(W, tls);
    for (int x : w) {
      if (x == 4) { Conn *q = client("10.0.0.1", get_("/a.txt")); if (tls) q->tls_handshake_fails = true; else q->fail_send_at = 0; }
      else if (x == 5) client("10.9.9.9", get_("/a.txt"));
      else client("10.0.0.1", corpus()[corpus_index(HK[x])].bytes);
    }
    run(); str o; for (auto q : E->conns) o += q->out; c.outcome(fnv(o));
    return closed_all();
  });
  if (i % 1999 == 0) c.sample(c.desc);
}
// ---- interleavings: two workers, connections arriving one after the other so that descriptors are reused
static void s_inter(long i, Ctx &c) {
  static const char *K[] = {"api get", "limited", "limit zero", "garbage", "nothing", "text file", "body too short", "filter refuses"};
  Mix m(i); int a = m(8), b = m(8), arr = m(3); bool tls = m(2); if (b < a && arr == 0) return; if (!c.thorough && ((tls && arr != 1) || (arr == 2 && a != b))) return;
  c.desc = strf("two workers%s: \"%s\" and \"%s\", then a third request; arrival pattern %d", tls ? " (TLS)" : "", K[a], K[b], arr);
  c.explore(c.thorough ? 2 : 1, [&] {
    begin(); E->net_points = true; std_server(2, tls);
    str ra = corpus()[corpus_index(K[a])].bytes, rb = corpus()[corpus_index(K[b])].bytes;
    Conn *A = client("10.0.0.1", ra);
    if (arr == 0) { client("10.0.0.2", rb); client("10.0.0.3", ra); }
    else spawn([=] { wait_until([A] { return A->closed; }, "first closed"); client("10.0.0.2", rb); if (arr == 2) { Conn *B = E->conns[1]; wait_until([B] { return B->closed; }, "second closed"); } client("10.0.0.3", rb); });
    run(); str o; for (auto q : E->conns) o += q->out; c.outcome(fnv(o));
    return closed_all();
  });
  if (i % 61 == 0) c.sample(c.desc);
}
// ---- a full waiting queue: the dropped connections are closed exactly once as well
static bool gate;
static void s_full(long i, Ctx &c) {
  static const int X[] = {0, 1, 2, 3, 50}; int over = X[i % 5]; bool tls = i / 5 % 2;
  c.desc = strf("waiting queue overfilled by %d%s", over, tls ? " (TLS)" : "");
  c.one([&] {
    begin(); std_server(1, tls); gate = false;
    on_handler = [](api_request *r, int n) { wait_until([] { return gate; }, "gate"); std_handler(r, n); };
    for (int k = 0; k < 1 + WS_MAX_CONNECTIONS + over; k++) { client("10.0.0.1", get_("/api/echo")); if (k == 0) run(); }
    run(); gate = true; run(); c.outcome(i);
    return closed_all();
  });
}
static struct Reg {
  Reg() {
    worker_init = [] { reset_files(); std_files(); };
    add_suite({"C02", "faults", [](bool) { return (long)corpus().size() * 2 * F_KINDS; }, s_faults, 60, "70 requests, plain and TLS, each with every fault of 18 kinds at every occurrence (disconnects after every byte; every third..tenth byte of the requests longer than 300 bytes)", "at every byte"});
    add_suite({"C02", "generated", [](bool th) { return 4 * gen_count(th ? 3 : 2); }, s_generated, 20, "generated requests: 9 URLs x 6 queries x 16 methods and bodies x 0..2 of 10 headers, plain and TLS, complete and cut short", "0..3 headers"});
    add_suite({"C02", "lengths", [](bool th) { return 2l * 14 * 12 * 2 * (th ? 700 : 300); }, s_lengths, 20, "14 requests of every outcome x 12 elements of every length 0..260 and, in steps of 17, up to 940 x plain/TLS x end of data", "up to 7700"});
    add_suite({"C02", "histories", [](bool th) { return 4 * npaths(10, th ? 5 : 3, 1); }, s_hist, 20, "all histories of length 1..3 over 10 kinds of connection, 1..2 workers, plain and TLS", "length 1..5"});
    add_suite({"C02", "interleavings", [](bool) { return 8l * 8 * 3 * 2; }, s_inter, 120, "two workers, pairs of 8 requests plus a third, descriptors reused, at most 1 preemption", "at most 2 preemptions"});
    add_suite({"C02", "full-queue", [](bool) { return 10l; }, s_full, 60, "waiting queue overfilled by 0..50"});
  }
} reg;
