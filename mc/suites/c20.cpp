// C20: in TLS mode nothing bypasses TLS.
#include "obs.h"
#include "pem.h"
#include <openssl/ssl.h>
#include <openssl/err.h>

static Result no_clear(const char *when = "") {
  for (auto q : E->conns) { if (q->raw_in) return bad("%s%zu bytes were read outside TLS", when, q->raw_in); if (!q->raw_out.empty()) return bad("%s%zu bytes were sent outside TLS: %s", when, q->raw_out.size(), esc(q->raw_out, 100).c_str()); }
  return good();
}
static Result silent(Conn *q, size_t s0, size_t l0) {
  if (!q->out.empty()) return bad("answered without TLS session: %s", esc(q->out, 80).c_str());
  if (q->read_count) return bad("read %ld bytes without TLS session", q->read_count);
  if (seen.size() != s0) return bad("a handler was executed without TLS session");
  if (access_text().size() != l0) return bad("logged as answered: %s", esc(access_text().substr(l0), 100).c_str());
  if (q->closes != 1) return bad("the connection was closed %d times", q->closes);
  return good();
}
// ---- the same outcome with and without TLS
static void s_same(long i, Ctx &c) {
  Mix m(i); int n = (int)corpus().size(); int b = m(n), e = m(2), fill = m(2) ? 0xAA : 0; c.desc = strf("\"%s\" with and without TLS", corpus()[b].name);
  c.one([&] {
    Obs o[2]; for (int t = 0; t < 2; t++) { begin(); E->fill = fill; std_server(1, t); run(); o[t] = observe("10.0.0.1", corpus()[b].bytes, e ? END_EOF : END_RESET); NOMISUSE; Conn *q = E->conns.back(); if (t) { Result r = no_clear(); if (!r.ok) return r; if (!q->tls_session || !q->tls_ok) return bad("no TLS session was established"); } else if (q->tls_session) return bad("TLS was used in plain mode"); }
    c.outcome(fnv(o[1].out)); str d = diff_obs(o[1], o[0]); if (!d.empty()) return bad("over TLS %s", d.c_str()); return good();
  });
}
static void s_generated(long i, Ctx &c) {
  str B = gen_request(i); c.desc = strf("%s with and without TLS", esc(B, 600).c_str());
  c.one([&] {
    Obs o[2]; for (int t = 0; t < 2; t++) { begin(); std_server(1, t); run(); o[t] = observe("10.0.0.1", B, END_EOF); NOMISUSE; if (t) { Result r = no_clear(); if (!r.ok) return r; } }
    c.outcome(fnv(o[1].out)); str d = diff_obs(o[1], o[0]); if (!d.empty()) return bad("over TLS %s", d.c_str()); return good();
  });
  if (i % 20011 == 0) c.sample(c.desc);
}
// ---- contents and sizes
static const long BIG[] = {8191, 8192, 16383, 16384, 16385, 32768, 65535, 65536, 65537, 70000, 131072, 262145, 999999, 1048577};
static void s_sizes(long i, Ctx &c) {
  Mix m(i); int what = m(3); long base = c.thorough ? 20000 : 4200; int n = (int)(m.n < base ? m.n : BIG[m.n - base]); c.desc = strf("%s of %d bytes with and without TLS", what == 0 ? "body" : what == 1 ? "file" : "answer", n);
  c.one([&] {
    if (what == 1) put_file(WWW() + "/s.bin", binpat(n, 3)); str b = what == 0 ? post_("/api/echo", pat(n)) : what == 1 ? get_("/s.bin") : get_("/api/echo"); Obs o[2];
    for (int t = 0; t < 2; t++) { begin(); std_server(1, t); run(); if (what == 2) on_handler = [n](api_request *r, int) { reply(r, pat(n)); }; o[t] = observe("10.0.0.1", b); NOMISUSE; if (t) { Result r = no_clear(); if (!r.ok) return r; } }
    c.outcome(fnv(o[1].out)); str d = diff_obs(o[1], o[0]); if (!d.empty()) return bad("over TLS %s", d.c_str()); return good();
  });
}
// ---- failures of the session
enum { T_HANDSHAKE, T_NEW, T_SETFD, T_READ, T_WRITE, T_N };
static void s_fail(long i, Ctx &c) {
  Mix m(i); int n = (int)corpus().size(); int b = m(n), kind = m(T_N), end = m(3); const str &B = corpus()[b].bytes; static const char *KN[] = {"handshake fails", "SSL_new fails", "SSL_set_fd fails", "SSL_read fails", "SSL_write fails"}; c.desc = strf("\"%s\", %s", corpus()[b].name, KN[kind]);
  long cnt = kind == T_READ ? B.size() + 1 : kind == T_WRITE ? 12 : kind == T_HANDSHAKE ? 2 : 1, step = cnt > 400 && !c.thorough ? cnt / 200 : 1;
  for (long at = 0; at < cnt; at += step) c.one([&] {
    begin(); std_server(1, true); run(); E->call_fail["-"][0] = 1; E->call_count.clear(); if (kind == T_NEW) E->call_fail["SSL_new"][0] = 12; if (kind == T_SETFD) E->call_fail["SSL_set_fd"][0] = 12;
    size_t s0 = seen.size(), l0 = access_text().size(); Conn *q = client("10.0.0.1", B, end == 0 ? END_EOF : end == 1 ? END_RESET : END_BLOCK); if (kind == T_HANDSHAKE) q->tls_handshake_fails = 1 + at; if (kind == T_READ) q->tls_read_fail_at = at; if (kind == T_WRITE) q->fail_send_at = at; run(); if (!q->closed && end == 2) { hangup(q, END_EOF); run(); } NOMISUSE; E->call_fail.clear();
    Result r = no_clear(); if (!r.ok) return r; if (kind <= T_SETFD) { r = silent(q, s0, l0); if (!r.ok) return r; } if (q->closes != 1) return bad("the connection was closed %d times", q->closes); c.outcome(fnv(q->out, kind));
    Conn *z = ask(get_("/a.txt")); NOMISUSE; if (status_of(z) != 200) return bad("the next request was answered %s", esc(z->out, 80).c_str()); return no_clear("next request: ");
  });
}
// ---- the session cannot write any more while the socket still could
static void s_writefail(long i, Ctx &c) {
  Mix m(i); int n = (int)corpus().size(); int b = m(n), end = m(2), which = m(3); const str &B = corpus()[b].bytes; static const char *WN[] = {"at this write", "at this write, short ones before", "at this write, interrupted ones before"}; c.desc = strf("\"%s\", the session cannot write (%s)", corpus()[b].name, WN[which]);
  for (long at = 0; at < 14; at++) c.one([&] {
    begin(); std_server(1, true); run(); Conn *q = client("10.0.0.1", B, end ? END_EOF : END_RESET); q->tls_write_fail_at = at; if (which == 1) { q->short_sends = {1, 3}; q->short_repeat = true; } if (which == 2) q->intr_send_at = 0; run(); NOMISUSE; Result r = no_clear(); if (!r.ok) return r; if (q->closes != 1) return bad("the connection was closed %d times", q->closes); if (!at && !q->out.empty()) return bad("bytes were sent although the session cannot write"); c.outcome(fnv(q->out, at));
    Conn *z = ask(get_("/a.txt")); NOMISUSE; if (status_of(z) != 200) return bad("the next request was answered %s", esc(z->out, 80).c_str()); return no_clear("next request: ");
  });
}
// ---- histories and interleavings of good and failing connections
static const char *HK[] = {"api get", "multipart", "text file", "garbage", "body too short", "handler stream"};
static Conn *hconn(int x, int k) { str ip = strf("10.0.0.%d", k + 1); if (x < 6) return client(ip, corpus()[corpus_index(HK[x])].bytes); Conn *q = client(ip, get_("/api/echo?clear=text")); if (x == 6) q->tls_handshake_fails = true; else if (x == 7) q->tls_read_fail_at = 9; else q->fail_send_at = 0; return q; }
static void s_hist(long i, Ctx &c) {
  Mix m(i); int W = m(2) + 1; auto w = word(m.n, 9, 1); str d; for (int x : w) d += strf(" %d", x); c.desc = strf("%d workers, history%s", W, d.c_str());
  c.one([&] { begin(); std_server(W, true); run(); str o; int k = 0; for (int x : w) { size_t s0 = seen.size(), l0 = access_text().size(); Conn *q = hconn(x, k++); run(); NOMISUSE; o += q->out; if (x == 6) { Result r = silent(q, s0, l0); if (!r.ok) return r; } if (x == 0 && status_of(q) != 200) return bad("a good request was answered %s", esc(q->out, 80).c_str()); } c.outcome(fnv(o)); return no_clear(); });
}
static void s_inter(long i, Ctx &c) {
  Mix m(i); int a = m(9), b = m(9), third = m(2); c.desc = strf("two workers: connections %d and %d%s", a, b, third ? " and a third" : ""); if (b < a) return;
  c.explore(c.thorough ? 2 : 1, [&] {
    begin(); E->net_points = true; std_server(2, true); E->quiet = true; run(); E->quiet = false; Conn *A = hconn(a, 0), *B = hconn(b, 1); if (third) hconn(0, 2); run(); NOMISUSE; Result r = no_clear(); if (!r.ok) return r; str o; for (auto q : E->conns) { o += q->out; if (q->closes != 1) return bad("connection closed %d times", q->closes); } c.outcome(fnv(o));
    for (auto p : {std::make_pair(A, a), std::make_pair(B, b)}) { if (p.second == 6 && (!p.first->out.empty() || p.first->read_count)) return bad("a connection without TLS session was served"); if (p.second == 0 && status_of(p.first) != 200) return bad("a good request was answered %s", esc(p.first->out, 80).c_str()); for (auto &s : seen) if (p.second == 6 && s.conn == p.first->id) return bad("a handler ran for a connection without TLS session"); } return good();
  });
}
// ---- start-up needs a readable certificate and its key (real OpenSSL)
static bool openssl_accepts(const str &dir) {
  SSL_CTX *x = SSL_CTX_new(TLS_server_method()); bool ok = SSL_CTX_use_certificate_chain_file(x, (dir + "/cert.pem").c_str()) > 0 && SSL_CTX_use_PrivateKey_file(x, (dir + "/key.pem").c_str(), SSL_FILETYPE_PEM) > 0 && SSL_CTX_check_private_key(x) > 0; SSL_CTX_free(x); ERR_clear_error(); return ok;
}
static Result start_real(Ctx &c, bool must_fail) {
  bool ok = openssl_accepts(SCR + "/root/ssl"); if (must_fail && ok) return bad("harness: the files were expected to be refused");
  begin(); E->ssl_ctx_real = 1; setup_globals(true); serve(1); Conn *q = client("10.0.0.1", get_("/a.txt")); run(); c.outcome(ok + 2 * E->exited);
  if (!ok) { if (!E->exited || E->exit_code == 0) return bad("the server does not end with a failure status without usable certificate and key"); if (E->listens || q->accepted) return bad("the server accepted connections without usable certificate and key"); return good(); }
  if (E->exited) return bad("the server ended with status %d although certificate and key are fine: %s", E->exit_code, E->main_log.empty() ? "" : esc(E->main_log.back().data).c_str()); if (!E->listens) return bad("the server does not listen"); if (E->ssl_files.size() < 2) return bad("certificate or key was not configured"); return no_clear();
}
static const strs &pems() { static const strs v = {PEM_c1, PEM_k1, PEM_c2, PEM_k2, "", "garbage\n", str(PEM_c1) + PEM_c2, str(PEM_c1) + PEM_k1, str(PEM_k1) + PEM_c1, "text before\n" + str(PEM_c1), "text before\n" + str(PEM_k1), "<missing>", "<folder>", str(PEM_c2) + PEM_c1}; return v; }
static void s_start(long i, Ctx &c) {
  Mix m(i); int a = m(14), b = m(14); c.desc = strf("certificate file %d, key file %d", a, b);
  c.one([&] { wipe(SCR + "/root/ssl"); auto put = [](const char *n, int k) { str p = SCR + "/root/ssl/" + n; if (pems()[k] == "<missing>") return; if (pems()[k] == "<folder>") mkdirs(p); else put_file(p, pems()[k]); }; put("cert.pem", a); put("key.pem", b); Result r = start_real(c, a == 11 || b == 11 || a == 12 || b == 12); wipe(SCR + "/root/ssl"); tls_files(); return r; });
}
static void s_damaged(long i, Ctx &c) {   // every truncation and damaged byte of both files
  Mix m(i); int which = m(2), kind = m(3); str f[2] = {PEM_c1, PEM_k1}; long n = f[which].size(); long p = m.n; if (p >= n) return; if (kind == 0) f[which].resize(p); else if (kind == 1) f[which][p] = f[which][p] == 'A' ? 'B' : 'A'; else f[which].erase(p, 1); c.desc = strf("%s %s %ld", which ? "key" : "certificate", kind == 0 ? "cut off after" : kind == 1 ? "with damaged byte" : "without byte", p);
  c.one([&] { put_file(SCR + "/root/ssl/cert.pem", f[0]); put_file(SCR + "/root/ssl/key.pem", f[1]); Result r = start_real(c, kind == 0 && p < 100); tls_files(); return r; });
}
static void s_startfail(long i, Ctx &c) {
  Mix m(i); int cert = m(2), key = m(2), fail = m(3); c.desc = strf("certificate %s, key %s%s", cert ? "usable" : "unusable", key ? "usable" : "unusable", fail == 1 ? ", SSL_CTX_new fails" : "");
  c.one([&] { begin(); E->tls_cert_ok = cert; E->tls_key_ok = key; if (fail == 1) E->call_fail["SSL_CTX_new"][0] = 12; std_server(2, true); Conn *q = client("10.0.0.1", get_("/a.txt")); run(); bool ok = cert && key && fail != 1; c.outcome(ok); if (ok) { if (E->exited || status_of(q) != 200) return bad("the server does not work"); return no_clear(); } if (!E->exited || !E->exit_code) return bad("the server does not end with a failure status"); if (E->listens || q->accepted) return bad("the server accepted a connection"); return good(); });
}
static struct Reg {
  Reg() {
    worker_init = [] { reset_files(); std_files(); };
    add_suite({"C20", "same-outcome", [](bool) { return (long)corpus().size() * 4; }, s_same, 20, "69 requests with and without TLS: response, handler view, stored files and log record are the same; no byte outside the session"});
    add_suite({"C20", "generated", [](bool th) { return gen_count(th ? 3 : 2); }, s_generated, 20, "generated requests: 9 URLs x 6 queries x 16 methods and bodies x 0..2 of 10 headers, with and without TLS", "0..3 headers"});
    add_suite({"C20", "sizes", [](bool th) { return 3l * ((th ? 20000 : 4200) + 14); }, s_sizes, 20, "bodies, files and answers of 0..4199 bytes and 14 sizes up to 1 MB with and without TLS", "0..19999 bytes"});
    add_suite({"C20", "session-failures", [](bool) { return (long)corpus().size() * T_N * 3; }, s_fail, 120, "69 requests; handshake, SSL_new, SSL_set_fd fail, SSL_read fails after every byte, SSL_write at every call; then a normal request"});
    add_suite({"C20", "write-failures", [](bool) { return (long)corpus().size() * 6; }, s_writefail, 60, "69 requests x SSL_write fails from the 1st..14th call on while the socket below could still send x short and interrupted sends before: nothing is sent outside the session"});
    add_suite({"C20", "histories", [](bool th) { return 2 * npaths(9, th ? 6 : 4, 1); }, s_hist, 20, "all histories of length 1..4 over 9 kinds of connection, 1..2 workers", "length 1..6"});
    add_suite({"C20", "interleavings", [](bool) { return 81l * 2; }, s_inter, 200, "pairs and triples of 9 kinds of connection on two workers, at most 1 preemption", "at most 2 preemptions"});
    add_suite({"C20", "certificates", [](bool) { return 196l; }, s_start, 60, "14 x 14 contents of certificate and key file, real OpenSSL"});
    add_suite({"C20", "damaged-certificates", [](bool) { return 6l * 800; }, s_damaged, 60, "certificate and key cut off, damaged or shortened at every byte, real OpenSSL (its own verdict on the files is the reference)"});
    add_suite({"C20", "start-up", [](bool) { return 12l; }, s_startfail, 20, "usable or unusable certificate and key, failing SSL_CTX_new"});
  }
} reg;
