// C25: environment failures do not bring the service down or let it start broken.
#include "obs.h"
#include <errno.h>

static Obs base(const str &bytes, bool tls, const str &ip) {   // the answer of a server that met no failure
  static std::map<str, Obs> memo; str key = strf("%d", tls) + ip + bytes; auto it = memo.find(key); if (it != memo.end()) return it->second;
  begin(); std_server(1, tls); run(); Obs o = observe(ip, bytes); str m = misuse(); if (!m.empty()) o.out = "MISUSE " + m; memo[key] = o; return o;
}
static str log_text() { str o; for (auto &w : E->main_log) o += w.data; return o; }
static const char *FU[] = {"text file", "api post", "limited", "multipart", "handler stream", "limited static"};
// the requests that must be answered as if nothing had happened; the baselines have been computed before
static std::vector<Obs> FB[2];
static void prepare() { for (int t = 0; t < 2; t++) if (FB[t].empty()) for (int k = 0; k < 6; k++) FB[t].push_back(base(corpus()[corpus_index(FU[k])].bytes, t, "10.0.0.77")); }
static Result follow_up(bool tls, int n = 4, int from = 0) {
  E->call_fail.clear(); for (auto q : E->conns) if (q->closes != 1 || q->after_close) return bad("connection %d was closed %d times", q->id, q->closes);
  if (E->open_files != 1) return bad("%d files are open instead of only the log", E->open_files); if (E->ssl_sessions) return bad("%d TLS sessions are left", E->ssl_sessions);
  for (int k = 0; k < n; k++) { int f = (k + from) % 6; Obs o = observe("10.0.0.77", corpus()[corpus_index(FU[f])].bytes); NOMISUSE; str d = diff_obs(o, FB[tls][f]); if (!d.empty()) return bad("after the failure, \"%s\": %s", FU[f], d.c_str()); }
  if (!E->listening) return bad("the server does not listen any more"); return good();
}
static const char *CALL[] = {"getpeername", "fopen", "fopen_r", "fopen_w", "fopen_log", "fread", "fwrite", "stat", "remove", "mkdir", "logwrite", "recv", "send", "SSL_new", "SSL_set_fd", "SSL_accept", "open", "setsockopt"};
static const int NC = sizeof CALL / sizeof *CALL;
static const int ERR[] = {EMFILE, EACCES, ENOSPC, EIO, ECONNRESET, ENOTCONN, EINTR, ENOMEM};
// a call that fails for ever: EINTR is left out where trying again is the right answer
static int lasting(const str &call, long k) { int e = ERR[k & 7]; return e == EINTR && (call == "recv" || call == "send" || call == "logwrite" || call == "open") ? EIO : e; }
static Conn *faulty(const str &bytes, bool tls, const std::map<str, std::map<int, int>> &f, EndKind end = END_EOF) {
  E->call_fail = f; E->call_fail["-"][0] = 1; E->call_count.clear(); Conn *q = client("10.0.0.1", bytes, end); run(); if (!q->closed && end == END_BLOCK) { hangup(q); run(); } return q;
}
static void s_faults(long i, Ctx &c) {
  Mix m(i); const Req &r = corpus()[m((int)corpus().size())]; bool tls = m(2); int call = m(NC); if (!tls && call >= 13 && call <= 15) return; prepare();
  c.desc = strf("\"%s\"%s, %s fails at every occurrence", r.name, tls ? " over TLS" : "", CALL[call]); long n = 0;
  c.one([&] { begin(); std_server(1, tls); run(); faulty(r.bytes, tls, {}); n = E->call_count[CALL[call]]; return follow_up(tls, 1, call); });
  long step = n > 60 && !c.thorough ? n / 30 : 1; std::vector<long> at; for (long k = 0; k < n; k += step) at.push_back(k); if (n) at.push_back(-1);
  for (long a : at) for (int e = 0; e < (call == 11 || call == 12 ? 2 : 1); e++) c.one([&] { c.count("fault points"); begin(); std_server(1, tls); run(); int er = call == 11 || call == 12 ? (e && a >= 0 ? EINTR : ECONNRESET)   : a < 0 ? lasting(CALL[call], i) : ERR[(i + a) & 7]; Conn *q = faulty(r.bytes, tls, {{CALL[call], {{(int)a, er}}}}); NOMISUSE; c.outcome(fnv(q->out, call)); return follow_up(tls, c.thorough ? 6 : 2, (int)(a + call + 6) % 6); });
  if (i % 97 == 0) c.sample(c.desc);
}
// ---- two failures in one connection
static const char *SUB[] = {"multipart", "text file", "api post", "big file", "handler stream", "limited", "folder", "missing file", "handler file", "body too short", "index", "multipart item"};
static void s_double(long i, Ctx &c) {
  Mix m(i); int r = corpus_index(SUB[m(12)]); bool tls = m(2); int a = m(NC), b = m(NC); if (b < a || (!tls && ((a >= 13 && a <= 15) || (b >= 13 && b <= 15)))) return; prepare(); c.desc = strf("\"%s\"%s, %s and %s fail", corpus()[r].name, tls ? " over TLS" : "", CALL[a], CALL[b]); std::map<str, int> cnt;
  begin(); std_server(1, tls); run(); faulty(corpus()[r].bytes, tls, {}); cnt = E->call_count; int na = std::min(cnt[CALL[a]], c.thorough ? 40 : 6), nb = std::min(cnt[CALL[b]] + 1, c.thorough ? 40 : 6);
  for (int x = 0; x < na; x++) for (int y = 0; y < nb; y++) c.one([&] { begin(); std_server(1, tls); run(); std::map<str, std::map<int, int>> f; f[CALL[a]][x] = ERR[(x + y) & 7]; f[CALL[b]][y] = ERR[(x * 3 + y + 1) & 7]; Conn *q = faulty(corpus()[r].bytes, tls, f); NOMISUSE; c.outcome(fnv(q->out)); return follow_up(tls, 1, (x + y) % 6); });
}
// ---- accept failures
static const int AE[] = {ECONNABORTED, EINTR, EMFILE, ENFILE, ENOBUFS, ENOMEM, EPROTO, EPERM, EAGAIN, ENETDOWN, ETIMEDOUT, EHOSTUNREACH, EOPNOTSUPP, 0};
static void s_accept(long i, Ctx &c) {
  Mix m(i); bool tls = m(2); auto w = word(m.n, 13, 0); prepare(); c.desc = "accept fails with"; for (int x : w) c.desc += strf(" %s", x == 12 ? "(connection)" : strerror(AE[x]));
  c.one([&] { begin(); std_server(1, tls); run(); for (int x : w) E->accept_errors.push_back(x == 12 ? 0 : AE[x]); std::vector<Conn *> Q; for (int k = 0; k < 3; k++) Q.push_back(client("10.0.0.77", corpus()[corpus_index(FU[k])].bytes)); size_t s0 = 0; run(); NOMISUSE; str o; for (int k = 0; k < 3; k++) { if (Q[k]->out != FB[tls][k].out) return bad("\"%s\" was answered %s", FU[k], esc(Q[k]->out, 100).c_str()); o += Q[k]->out; } c.outcome(fnv(o)); E->accept_errors.clear(); return follow_up(tls, 1, (int)(i % 6)); });
}
static void s_manyaccept(long i, Ctx &c) { Mix m(i); int e = m(12), n = (int)m.n * 37 + 1; prepare(); c.desc = strf("accept fails %d times with %s", n, strerror(AE[e])); c.one([&] { begin(); std_server(1); run(); E->accept_errors.assign(n, AE[e]); run(); NOMISUSE; c.outcome(fnv(log_text())); Result r = follow_up(false, 6); if (!r.ok) return r; E->accept_errors.assign(n, AE[(e + 1) % 12]); return follow_up(false, 2); }); }
// ---- histories of failing connections
static const char *HN[] = {"getpeername", "fopen", "fopen_w", "fopen_log", "fread", "fwrite", "stat", "send", "recv", "mkdir", "remove", "fopen_r"};
static void s_hist(long i, Ctx &c) {
  Mix m(i); bool tls = m(2); int r = m(3); auto w = word(m.n, 12, 1); prepare(); static const char *R[] = {"multipart", "binary file", "limited"}; c.desc = str("repeated \"") + R[r] + "\" with failing"; for (int x : w) c.desc += str(" ") + HN[x];
  c.one([&] { begin(); std_server(1, tls); run(); str o; for (size_t k = 0; k < w.size(); k++) { Conn *q = faulty(corpus()[corpus_index(R[r])].bytes, tls, {{HN[w[k]], {{-1, lasting(HN[w[k]], i + (long)k)}}}}); NOMISUSE; o += q->out; } c.outcome(fnv(o)); return follow_up(tls, 3, r); });
}
static void s_long(long i, Ctx &c) { Mix m(i); int call = m(NC), r = m(12); bool tls = m(2); int n = c.thorough ? 3000 : 1050; if (!tls && call >= 13 && call <= 15) return; prepare(); c.desc = strf("%d times \"%s\"%s with failing %s", n, SUB[r], tls ? " over TLS" : "", CALL[call]); c.one([&] { begin(); std_server(1, tls); run(); for (int k = 0; k < n; k++) { faulty(corpus()[corpus_index(SUB[r])].bytes, tls, {{CALL[call], {{-1, lasting(CALL[call], k)}}}}); NOMISUSE; } c.outcome(fnv(E->conns.back()->out, call)); return follow_up(tls, 6); }); }
// ---- a failing environment all the time: what does not need it still works
static void s_lasting(long i, Ctx &c) {
  Mix m(i); const Req &r = corpus()[m((int)corpus().size())]; bool tls = m(2); int what = m(4); static const char *W[] = {"the access log cannot be opened", "the access log cannot be written", "no folder can be created", "the upload folder has disappeared"}; Obs want = base(r.bytes, tls, "10.0.0.1"); bool uploads = sw(r.name, "multipart"); if (what >= 2 && uploads) return; c.desc = strf("\"%s\"%s while %s", r.name, tls ? " over TLS" : "", W[what]);
  c.one([&] { begin(); std_server(1, tls); run(); if (what == 0) E->call_fail["fopen_log"][-1] = EACCES; if (what == 1) E->call_fail["logwrite"][-1] = ENOSPC; if (what == 2) E->call_fail["mkdir"][-1] = EACCES; if (what == 3) { wipe(SCR + "/upload"); ::rmdir((SCR + "/upload").c_str()); E->call_fail["mkdir"][-1] = EACCES; } Obs o = observe("10.0.0.1", r.bytes); E->call_fail.clear(); if (what == 3) mkdirs(SCR + "/upload"); NOMISUSE; c.outcome(fnv(o.out)); if (what < 2) o.log = want.log; str d = diff_obs(o, want); if (!d.empty()) return bad("%s", d.c_str()); return good(); });
}
// ---- a failing connection next to a good one, all schedules with one preemption
static void s_inter(long i, Ctx &c) {
  static const char *A[] = {"multipart", "binary file", "api post", "folder"}; static const char *B[] = {"api get", "limited"}; Mix m(i); int k = m(9), a = m(4), b = m(2), sh_ = m(4); bool tls = k >= 6; prepare(); static const char *K[] = {"send", "recv", "fopen_w", "fread", "getpeername", "none", "TLS handshake", "TLS read", "TLS write"}; if (k == 2 && a) return; if (k == 3 && a != 1) return; c.desc = strf("\"%s\" with failing %s next to \"%s\"%s", A[a], K[k], B[b], tls ? " (TLS)" : ""); Obs want = base(corpus()[corpus_index(B[b])].bytes, tls, "10.0.0.2"); str ab = corpus()[corpus_index(A[a])].bytes;
  c.explore(c.thorough ? 3 : 2, [&] {
    begin(); E->net_points = true; std_server(2, tls); E->quiet = true; run(); E->quiet = false; Conn *x = client("10.0.0.1", k == 1 ? ab.substr(0, ab.size() / 2) : ab, k == 1 ? END_RESET : END_EOF); if (k == 0 || k == 8) x->fail_send_at = 0; if (k == 2) E->call_fail["fopen_w"][0] = EACCES; if (k == 3) E->call_fail["fread"][0] = EIO; if (k == 4) x->peername_fails = true; if (k == 6) x->tls_handshake_fails = true; if (k == 7) x->tls_read_fail_at = 20;
    Conn *y = client("10.0.0.2", corpus()[corpus_index(B[b])].bytes); run(); NOMISUSE; c.outcome(fnv(x->out)); if (k == 2 && !E->call_count["fopen_w"]) return bad("no upload file was opened"); bool hit_y = k == 2 && y->out != want.out && status_of(x) == 200; if (hit_y) return good(); if (y->out != want.out) return bad("the other connection was answered %s", esc(y->out, 200).c_str()); for (auto q : E->conns) if (q->closes != 1) return bad("connection closed %d times", q->closes); E->quiet = true; return follow_up(tls, 1, 2);
  }, sh_, 4);
}
// ---- start-up
static void start_main(bool tls, bool debug) { static char n[] = "wayuu", f[] = "-f", r[] = "-r", d[] = "-d"; static char root[600]; strcpy(root, (SCR + "/root").c_str()); static std::vector<char *> av; av = {n, r, root}; if (!tls) av.push_back(f); if (debug) av.push_back(d); av.push_back(nullptr); seen.clear(); on_handler = nullptr; E->max_workers = 1; optind = 0; opterr = 0; launch([] { exit(0 * wayuu_main((int)av.size() - 1, av.data())); }); run(); }
static const char *SC[] = {"socket", "bind", "listen", "mkdir", "fopen_log", "fopen", "stat", "setsockopt", "SSL_CTX_new", "fread", "fopen_r", "fopen_w", "open", "remove", "fwrite", "logwrite"};
static void s_start(long i, Ctx &c) {
  Mix m(i); bool tls = m(2), dbg = m(2); int call = m(16), e = m(8), up = m(3); c.desc = strf("start-up, %s fails with %s, upload folder %s%s", SC[call], strerror(ERR[e]), up == 0 ? "there" : up == 1 ? "missing" : "replaced by a file", tls ? ", TLS" : "");
  int n = 0; auto go = [&](int at) { begin(); wipe(SCR + "/upload"); ::rmdir((SCR + "/upload").c_str()); ::unlink((SCR + "/upload").c_str()); if (up == 0) mkdirs(SCR + "/upload"); if (up == 2) { FILE *f = ::fopen((SCR + "/upload").c_str(), "w"); ::fclose(f); } E->call_fail["-"][0] = 1; if (at != -2) E->call_fail[SC[call]][at] = ERR[e]; start_main(tls, dbg); n = E->call_count[SC[call]]; };
  auto restore = [&] { ::unlink((SCR + "/upload").c_str()); mkdirs(SCR + "/upload"); };
  auto judge = [&](bool must_fail) { Result r = good(); if (E->exited) { if (!E->exit_code) r = bad("ends with a success status"); else if (E->listening) r = bad("listens before it gives up"); else if (E->accept_errors.size()) r = good(); } else if (must_fail) r = bad(E->listening ? "starts and serves all the same" : "neither ends nor serves"); else { str mm = misuse(); if (!mm.empty()) r = bad("%s", mm.c_str()); else if (!E->listening) r = bad("neither ends nor serves"); else { E->call_fail.clear(); Conn *q = ask(get_("/a.txt")); if (status_of(q) != 200) r = bad("serves %s", esc(q->out, 80).c_str()); else if (tls != q->tls_ok) r = bad("TLS is %d", q->tls_ok); } } c.outcome(fnv(log_text(), E->exited * 2 + E->exit_code)); restore(); return r; };
  c.one([&] { go(-2); if (up != 2 && E->exited) { restore(); return bad("does not start without any failure"); } return judge(up == 2); });
  const int made = n;
  for (int at = -1; at < made; at++) c.one([&] { go(at); c.count("fault points"); return judge(up == 2 || !made ? up == 2 : call <= 2 || (call == 3 && up == 1) || call == 4 || call == 8); });
}
static struct Reg {
  Reg() {
    worker_init = [] { reset_files(); std_files(); };
    add_suite({"C25", "faults", [](bool) { return (long)corpus().size() * 2 * NC; }, s_faults, 60, "70 requests, plain and TLS, each of 18 calls failing at every occurrence and at all of them, then further requests compared with a server that met no failure"});
    add_suite({"C25", "double-faults", [](bool) { return 24l * NC * NC; }, s_double, 60, "12 requests, plain and TLS, every pair of the first 6 occurrences of every pair of calls failing", "first 40 occurrences"});
    add_suite({"C25", "accept", [](bool th) { return 2 * npaths(13, th ? 4 : 3); }, s_accept, 60, "all sequences of 0..3 of 12 accept errors and connections", "0..4"});
    add_suite({"C25", "many-accept-errors", [](bool) { return 12l * 60; }, s_manyaccept, 60, "1..2184 accept errors in a row"});
    add_suite({"C25", "histories", [](bool th) { return 6 * npaths(12, th ? 4 : 3, 1); }, s_hist, 60, "all histories of 1..3 connections with one of 12 calls failing throughout, 3 requests, plain and TLS", "1..4"});
    add_suite({"C25", "long-histories", [](bool) { return (long)NC * 24; }, s_long, 120, "1050 failing connections in a row for each of 18 calls and 12 requests", "3000"});
    add_suite({"C25", "lasting-failures", [](bool) { return (long)corpus().size() * 8; }, s_lasting, 60, "70 requests while the access log cannot be opened or written or uploads cannot be stored"});
    add_suite({"C25", "interleavings", [](bool) { return 9l * 4 * 2 * 4; }, s_inter, 120, "a failing connection next to a good one on two workers, every schedule with at most 2 preemptions", "3 preemptions"});
    add_suite({"C25", "start-up", [](bool) { return 2l * 2 * 16 * 8 * 3; }, s_start, 60, "16 calls failing at every occurrence of the start-up with 8 errors, upload folder there, missing or replaced by a file, plain and TLS"});
  }
} reg;
