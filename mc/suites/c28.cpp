// C28: serving requests does not consume memory permanently.
#include "obs.h"
#include <errno.h>

struct Held { size_t blocks, bytes; int files, md, ssl, threads; };
static Held held() { return {heap_blocks(), heap_bytes(), E->open_files, E->md_ctx, E->ssl_sessions, live_threads()}; }
static str leak_sites(uint64_t seq) { str o; int k = 0; for (auto &b : heap_since(seq)) if (k++ < 4) o += strf(" %zu bytes allocated at %p", b.second.size, b.second.site); return o; }
static Result same(const Held &a, const Held &b, uint64_t seq, const char *what = "connections") {
  if (b.blocks > a.blocks || b.bytes > a.bytes) return bad("the memory held grows with the number of %s: %zu blocks (%zu bytes) before, %zu blocks (%zu bytes) after:%s", what, a.blocks, a.bytes, b.blocks, b.bytes, leak_sites(seq).c_str());
  if (b.files > a.files) return bad("%d files stay open", b.files - a.files); if (b.md > a.md) return bad("%d digest contexts are kept", b.md - a.md); if (b.ssl > a.ssl) return bad("%d TLS sessions are kept", b.ssl - a.ssl); if (b.threads > a.threads) return bad("%d more threads run", b.threads - a.threads); return good();
}
// `fn` is one round of connections; what is held after 2 rounds (1 in the strict form) must be what is held after 2 more
static Result rounds(Ctx &c, bool tls, const std::function<void(int)> &fn, int workers = 1) {
  begin(); std_server(workers, tls); record_seen = false; run(); fn(0); fn(1); E->access_log.clear(); E->main_log.clear(); NOMISUSE; Held a = held(); uint64_t seq = heap_seq(); fn(2); fn(3); NOMISUSE; E->call_fail.clear(); Held b = held(); for (auto q : E->conns) if (!q->closed) return bad("connection %d was not closed", q->id); return same(a, b, seq);
}
static void one(const str &bytes, EndKind end = END_EOF, const std::function<void(Conn *)> &prep = nullptr, const str &ip = "10.0.0.1") { wipe(SCR + "/upload"); Conn *q = client(ip, bytes, end); if (prep) prep(q); run(); if (!q->closed && end == END_BLOCK) { hangup(q); run(); } }
static void s_corpus(long i, Ctx &c) {
  Mix m(i); const Req &r = corpus()[m((int)corpus().size())]; bool tls = m(2); int end = m(3), dbg = m(2), sh = m(3); if (tls && sh) return; c.desc = strf("\"%s\"%s, ends with %s%s, sends of %d", r.name, tls ? " over TLS" : "", end == 0 ? "the end of data" : end == 1 ? "a hang-up" : "a reset", dbg ? ", debug output" : "", sh * 7);
  c.one([&] { Result x = rounds(c, tls, [&](int) { if (dbg) log_set_level(LOG_TRACE); one(r.bytes, (EndKind)end, [&](Conn *q) { if (sh) q->short_sends = {sh * 7}, q->short_repeat = true; }); }); c.outcome(fnv(E->conns.empty() ? "" : E->conns.back()->out, heap_blocks())); return x; }); if (i % 199 == 0) c.sample(c.desc);
}
static void s_generated(long i, Ctx &c) {
  str b = gen_request(i / 2); bool tls = i & 1; c.desc = strf("%s%s", esc(b, 160).c_str(), tls ? " over TLS" : ""); c.one([&] { Result x = rounds(c, tls, [&](int) { one(b); }); c.outcome(fnv(E->conns.back()->out)); return x; }); if (i % 4999 == 0) c.sample(c.desc);
}
static const strs FTOK = {"Content-Disposition: form-data; name=\"n\"", "; filename=\"f\"", "; filename=\"g", "; filename=\"", "; name=n", "\r\n\r\n", "data", "\"\r\n", "--BB\r\n", "\r\n--BB\r\n", "Content-Type: x\r\n"};
static void s_forms(long i, Ctx &c) {
  bool fin = i & 1; str body = "--BB\r\n"; for (int x : word(i / 2, (int)FTOK.size())) body += FTOK[x]; if (fin) body += "\r\n--BB--\r\n"; c.desc = "form " + esc(body, 300); str b = req("POST /api/echo HTTP/1.1", {"Content-Type: multipart/form-data; boundary=BB", strf("Content-Length: %zu", body.size())}, body);
  c.one([&] { Result x = rounds(c, false, [&](int) { one(b); }); c.outcome(fnv(E->conns.back()->out, heap_blocks())); return x; }); if (i % 4999 == 0) c.sample(c.desc);
}
// ---- the same header twice, with values of all lengths, and odd lines
static void s_repeated(long i, Ctx &c) {
  static const strs N = {"X-Real-IP", "Content-Type", "Cookie", "X-Session", "Authorization", "Content-Length", "User-Agent", "Referer", "Host", "X-Other", "Accept", "X-Forwarded-For"}; static const int L[] = {0, 1, 23, 24, 25, 60, 63, 64, 70, 255, 300, 900}; static const strs ODD = {"", " ", "\t", ":", ": ", "x", "x:", " x: y", "::", ":x", "x :y", "x: y: z", ": :", "x:\t", ";", "="};
  Mix m(i); int k = m(12), a = m(12), b = m(12), third = m(3), odd = m(16), post = m(2); if (third && odd) return; auto v = [&](int l) { return k == 0 ? pat(l, 7) : k == 2 ? (l > 12 ? "WSSESSION=" + pat(l - 10) : rep("c", l)) : k == 5 ? rep("0", l) : k == 1 ? "text/" + pat(l) : pat(l); };
  strs h; h.push_back(N[k] + ": " + v(L[a])); if (!ODD[odd].empty()) h.push_back(ODD[odd]); h.push_back(N[k] + ": " + v(L[b])); if (third) h.push_back(N[k] + (third == 1 ? ":" : ": " + v(L[a]))); str rq = post ? req("POST /api/echo HTTP/1.1", h, "a=1") : req("GET /api/echo?q HTTP/1.1", h); c.desc = strf("%s twice with %d and %d characters%s%s", N[k].c_str(), L[a], L[b], third ? ", and once more" : "", ODD[odd].empty() ? "" : (", with the line " + esc(ODD[odd])).c_str());
  c.one([&] { Result x = rounds(c, false, [&](int) { one(rq, END_BLOCK); }); c.outcome(fnv(E->conns.back()->out, heap_blocks())); return x; }); if (i % 4999 == 0) c.sample(c.desc);
}
static const char *CUT[] = {"multipart", "api post item", "multipart item", "cookie session", "many headers", "text file", "api get with query", "real ip", "multipart unterminated", "post text filtered", "handler login", "filter accepts"};
static void s_cut(long i, Ctx &c) {
  Mix m(i); int k = m(12); bool tls = m(2); int end = m(3); long cut = m.n; str b = corpus()[corpus_index(CUT[k])].bytes; if (cut > (long)b.size()) return; if (tls && end && !c.thorough) return; c.desc = strf("\"%s\"%s cut after %ld bytes by %s", CUT[k], tls ? " over TLS" : "", cut, end == 0 ? "the end of data" : end == 1 ? "a hang-up" : "a reset");
  c.one([&] { Result x = rounds(c, tls, [&](int) { one(b.substr(0, cut), (EndKind)end); }); c.outcome(fnv(E->conns.back()->out)); return x; });
}
// ---- every library call failing
static const char *CALL[] = {"getpeername", "fopen", "fopen_r", "fopen_w", "fopen_log", "fread", "fwrite", "stat", "remove", "mkdir", "logwrite", "recv", "send", "SSL_new", "SSL_set_fd", "SSL_accept", "setsockopt"};
static const int NC = sizeof CALL / sizeof *CALL;
static void s_fault(long i, Ctx &c) {
  Mix m(i); const Req &r = corpus()[m((int)corpus().size())]; bool tls = m(2); int call = m(NC); if (!tls && call >= 13 && call <= 15) return; c.desc = strf("\"%s\"%s with failing %s", r.name, tls ? " over TLS" : "", CALL[call]); int n = 0;
  c.one([&] { begin(); std_server(1, tls); run(); E->call_fail["-"][0] = 1; E->call_count.clear(); one(r.bytes); n = E->call_count[CALL[call]]; return good(); }); int lim = c.thorough ? 400 : 40;
  for (int at = -1; at < n; at += at > lim ? n / lim + 1 : 1) c.one([&] { c.count("fault points"); Result x = rounds(c, tls, [&](int) { E->call_fail.clear(); E->call_count.clear(); E->call_fail[CALL[call]][at] = call == 11 || call == 12 ? ECONNRESET : EIO; one(r.bytes); }); c.outcome(fnv(E->conns.back()->out)); return x; });
}
// ---- TLS failures, peers that cannot be named, denied and refused clients
static void s_odd(long i, Ctx &c) {
  Mix m(i); int k = m(8), r = m(12); long at = m.n; if (at && k != 1 && k != 2) return; str b = corpus()[corpus_index(CUT[r])].bytes; static const char *K[] = {"a failing handshake", "a TLS read error", "a send error", "an unknown peer", "a denied address", "a session from the handler", "a failing handshake without data", "a denied address over TLS"}; c.desc = strf("\"%s\" with %s (%ld)", CUT[r], K[k], at); bool tls = k == 0 || k == 1 || k == 6 || k == 7; if (k == 1 && at > (long)b.size()) return; if (k == 2 && at > 60) return;
  c.one([&] { Result x = rounds(c, tls, [&](int) { one(k == 6 ? "" : b, END_EOF, [&](Conn *q) { if (k == 0 || k == 6) q->tls_handshake_fails = true; if (k == 1) q->tls_read_fail_at = at; if (k == 2) q->fail_send_at = at; if (k == 3) q->peername_fails = true; }, k == 4 || k == 7 ? "10.9.9.9" : "10.0.0.1"); }); c.outcome(fnv(E->conns.back()->out)); return x; });
}
// ---- connections that differ: nothing is kept per address, URL, session, file name ...
static str varied(int kind, int k) {
  switch (kind) {
    case 0: return get_(strf("/api/item/%d", k)); case 1: return get_(strf("/missing%d.html", k)); case 2: return get_("/api/echo", {strf("X-Session: s%d", k)}); case 3: return get_("/api/echo", {strf("Cookie: WSSESSION=c%d", k)}); case 4: return get_("/api/echo", {strf("X-Real-IP: 10.1.%d.%d", k / 250, k % 250)}); case 5: return get_(strf("/api/echo?q=%s", pat(k % 200, k).c_str())); case 6: return post_("/api/echo", pat(k * 13, k)); case 7: return get_("/api/echo", {strf("H%d: %s", k, pat(k % 300).c_str())});
    case 8: return post_("/api/echo", strf("--B\r\nContent-Disposition: form-data; name=\"f%d\"; filename=\"n%d.txt\"\r\n\r\n", k, k) + pat(k * 3, k) + "\r\n--B--\r\n", {"Content-Type: multipart/form-data; boundary=B"}); case 9: return req(strf("M%d /api/echo HTTP/1.1", k)); case 10: return get_(strf("/api/lim/%d", k)); case 11: return get_("/a.txt", {strf("User-Agent: u%d", k), strf("Referer: r%d", k)}); case 12: return post_("/api/echo", "x", {strf("Content-Type: t/%d; c=%d", k, k)});
    case 13: return get_(strf("/api/none%d/x", k)); case 14: return get_(strf("/a.txt?%d", k)); default: return get_(k & 1 ? "/api/secret" : "/api/text", {strf("X-Session: %s", k % 3 ? "good" : pat(k % 70).c_str())});
  }
}
static void s_varied(long i, Ctx &c) {
  Mix m(i); int kind = m(16), ip = m(2), tls = m(2), n = c.thorough ? 2000 : 300; c.desc = strf("%d different connections, kind %d%s%s", n * 4, kind, ip ? ", different addresses" : "", tls ? ", TLS" : ""); int k = 0;
  c.one([&] { Result x = rounds(c, tls, [&](int) { for (int j = 0; j < n; j++, k++) one(varied(kind, k), END_EOF, nullptr, ip ? strf("10.%d.%d.%d", 1 + k / 62500, k / 250 % 250, k % 250) : "10.0.0.1"); }); c.outcome(fnv(E->conns.back()->out)); return x; });
}
static void s_hist(long i, Ctx &c) {
  static const char *R[] = {"multipart", "api post", "text file", "limited", "filter refuses", "missing file", "handler login", "cookie session", "body too short", "garbage", "handler stream", "parent directory", "multipart no boundary", "limit zero"};
  auto w = word(i / 2, 14, 2); bool tls = i & 1; c.desc = str("history") + (tls ? " over TLS:" : ":"); for (int x : w) c.desc += str(" \"") + R[x] + "\""; c.one([&] { str o; Result x = rounds(c, tls, [&](int) { for (int k : w) one(corpus()[corpus_index(R[k])].bytes); }); for (auto q : E->conns) o += q->out; c.outcome(fnv(o)); return x; });
}
// ---- two connections at once: every schedule with at most 1 preemption leaves nothing behind
static void s_inter(long i, Ctx &c) {
  static const char *R[] = {"multipart", "api post item", "text file", "limited", "filter refuses", "cookie session", "garbage", "body too short", "handler login", "missing file"}; Mix m(i); int sh = m(2), a = m(10), b = m(10), f = m(4); bool tls = m(2); if (b < a) return; if (tls && f) return; c.desc = strf("\"%s\" next to \"%s\"%s%s", R[a], R[b], tls ? " over TLS" : "", f == 0 ? "" : f == 1 ? ", a send fails" : f == 2 ? ", an unknown peer" : ", a reset");
  str A = corpus()[corpus_index(R[a])].bytes, B = corpus()[corpus_index(R[b])].bytes; auto both = [&](bool quiet) { E->quiet = true; wipe(SCR + "/upload"); E->quiet = quiet; Conn *x = client("10.0.0.1", f == 3 ? A.substr(0, A.size() - 5) : A, f == 3 ? END_RESET : END_EOF); if (f == 1) x->fail_send_at = 1; if (f == 2) x->peername_fails = true; client("10.0.0.1", B); run(); };
  c.explore(c.thorough ? 2 : 1, [&] { begin(); E->net_points = true; std_server(2, tls); record_seen = false; E->quiet = true; run(); both(true); both(true); NOMISUSE; Held h = held(); uint64_t seq = heap_seq(); both(false); NOMISUSE; E->quiet = true; both(true); Held g = held(); c.outcome(fnv(E->conns[4]->out + E->conns[5]->out)); for (auto q : E->conns) if (!q->closed) return bad("a connection was not closed"); return same(h, g, seq); }, sh, 2);
}
static void s_many(long i, Ctx &c) {
  Mix m(i); const Req &r = corpus()[m((int)corpus().size())]; bool tls = m(2); int n = c.thorough ? 1500 : 100; c.desc = strf("%d times \"%s\"%s", n * 4, r.name, tls ? " over TLS" : ""); c.one([&] { Result x = rounds(c, tls, [&](int) { for (int k = 0; k < n; k++) { one(r.bytes); } }); c.outcome(fnv(E->conns.back()->out)); return x; });
}
// ---- the first connection as well: what the server holds after one connection is what it holds after a hundred
static void s_busy(long i, Ctx &c) {   // all threads busy or limits reached: refused connections leave nothing
  Mix m(i); int kind = m(2), n = m(30) + 1; c.desc = strf("%d connections %s", n, kind ? "refused by a limit" : "waiting while the worker is busy"); c.one([&] {
    begin(); std_server(kind ? 2 : 1); record_seen = false; run(); auto round = [&] { wipe(SCR + "/upload"); Conn *a = client("10.0.0.1", "GET /api/lim/1 HTTP/1.1\r\n", END_BLOCK); run(); for (int k = 0; k < n; k++) { client("10.0.0.2", get_("/api/lim/2")); run(); } more(a, "\r\n"); hangup(a); run(); }; round(); round(); NOMISUSE; Held h = held(); uint64_t seq = heap_seq(); round(); round(); NOMISUSE; c.outcome(fnv(E->conns.back()->out, n)); for (auto q : E->conns) if (!q->closed) return bad("a connection was not closed"); return same(h, held(), seq); });
}
// ---- handlers that use every function to answer, with failing sends
extern "C" void *mc_malloc(size_t); extern "C" char *mc_strdup(const char *);
static char *ser28(void *o) { return mc_strdup((char *)o); }
static void s_handlers(long i, Ctx &c) {
  static const char *N[] = {"return_json", "return_json_list", "return_json_with_status", "return_json_stream", "direct_file", "missing direct_file", "not_found", "not_authenticated", "bad_request", "too_many_connections", "bad_request_with_error", "forbidden", "forbidden_with_error", "ok", "created", "created_with_json", "internal_server_error", "internal_server_error_with_error", "send_http_status", "reject_routing_request", "return_headers_with_mime", "headers", "nothing", "JSON helpers", "routes", "file functions"};
  static const int ST[] = {200, 201, 400, 401, 403, 404, 429, 500, 302, 0}; Mix m(i); int f = m(26), st = ST[m(10)], n = m(3), dbg = m(2), at = m(12) - 1; bool tls = m(2); bool uses_st = f == 2 || f == 3 || f == 18 || f == 20; if (!uses_st && st != 200) return; if (tls && at >= 0) return; c.desc = strf("a handler calls %s (%d, %d)%s%s", N[f], st, n, tls ? " over TLS" : "", at < 0 ? "" : strf(", send %d fails", at).c_str());
  c.one([&] { Result x = rounds(c, tls, [&](int) {
    on_handler = [&](api_request *r, int) {
      Buf d = Buf::z("{\"a\":\"" + pat(n * 300) + "\"}"), a = Buf::z("CODE"), b = Buf::z("message " + pat(n * 100)), p = Buf::z(WWW() + (n == 0 ? "/a.txt" : n == 1 ? "/b.bin" : "/dir")), q = Buf::z(WWW() + "/nope"), t = Buf::z("text/x"); auto err = [&](void (*g)(api_request *, wayuu_error_t *)) { wayuu_error_t *e = new_error_with_values(a, b); g(r, e); mc_free(e); };
      switch (f) { case 0: return_json(r, d); break; case 1: { json_list_t l; l.size = n; l.serializer = ser28; l.elements = (void **)mc_malloc(sizeof(void *) * (n + 1)); for (int k = 0; k < n; k++) l.elements[k] = mc_strdup("1"); return_json_list(r, l); break; } case 2: return_json_with_status(r, st, d); break;
        case 3: { FILE *g = tmpfile(); str z = rep("line\n", n * 50); fwrite(z.data(), 1, z.size(), g); rewind(g); return_json_stream(r, st, g); fclose(g); break; } case 4: direct_file(r, p); break; case 5: direct_file(r, q); break; case 6: not_found(r); break; case 7: not_authenticated(r); break; case 8: bad_request(r); break; case 9: too_many_connections(r); break; case 10: err(bad_request_with_error); break; case 11: forbidden(r); break; case 12: err(forbidden_with_error); break; case 13: ok(r); break; case 14: created(r); break; case 15: created_with_json(r, d); break; case 16: internal_server_error(r); break; case 17: err(internal_server_error_with_error); break; case 18: send_http_status(r, st, b); break; case 19: reject_routing_request(r); break; case 20: return_headers_with_mime(r, st, t); send_empty_line(r); http_print_str(r, d); break;
        case 21: { for (const char *h : {"User-Agent", "user-agent", "Nothing", "Empty"}) { Buf z = Buf::z(h); char *v = http_get_header(r, z); if (*v) mc_free(v); } http_log_headers(r); ok(r); break; }
        case 23: { char *k[] = {(char *)"a\"", (char *)"b"}; int v[] = {1, 2, 3}; char *z; z = json_array_of_strings(k, n > 2 ? 2 : n); mc_free(z); z = json_array_of_ints(v, n); mc_free(z); z = json_key_value(a, b); mc_free(z); z = json_key_value_int(a, 3); mc_free(z); z = json_key_value_bool(a, true); mc_free(z); z = json_key_value_uint32_t(a, 3); mc_free(z); z = json_escape(b); mc_free(z); call_response_t rs; memset(&rs, 0, sizeof rs); rs.status = 1; strcpy(rs.text, "t"); strcpy(rs.description, "d"); z = return_response(rs); mc_free(z); ok(r); break; }
        case 24: { route_matcher rm; memset(&rm, 0, sizeof rm); Buf z = Buf::z("GET:/item/{id}"); router_resolve_route(z, &rm); Buf y = Buf::z("GET:/item/42"); char *v = router_extract_param(y, &rm); if (v && *v) mc_free(v); Buf u = Buf::z("/api/x?y=z"); path_and_query_t *pq = get_path_and_query_string(u); free_path_and_query_t(pq); Buf w = Buf::z("a,b,c"), dl = Buf::z(","); str_list_t *sl = split(w, dl); free_str_list_t(sl); Buf w2 = Buf::z("a,b,c"); sl = split_once(w2, dl); free_str_list_t(sl); ok(r); break; }
        case 25: { Buf z = Buf::z(SCR + "/cwd/f28"), w = Buf::z("content"), cf = Buf::z(ETC() + "/limits"), ip = Buf::z("10.9.9.9"), dn = Buf::z(ETC() + "/deny"); write_file(z, w, 7); char out[100]; read_file(out, z, 90); read_file(out, q, 90); is_dir(p); is_file(p); find_in_file(dn, ip); find_in_file(q, ip); check_createdir(z); char h[33]; md5sum(h, w, 7); ok(r); break; }
        default: break; } };
    one(get_("/api/echo", {"User-Agent: agent", "Empty:"}), END_EOF, [&](Conn *q) { if (at >= 0) q->fail_send_at = at; if (dbg) log_set_level(LOG_TRACE); });
  }); c.outcome(fnv(E->conns.back()->out)); return x; });
}
static struct Reg {
  Reg() {
    worker_init = [] { reset_files(); std_files(); };
    add_suite({"C28", "requests", [](bool) { return (long)corpus().size() * 2 * 3 * 2 * 3; }, s_corpus, 20, "the corpus, plain and TLS, three ways to end, with and without debug output, 3 send sizes: twice, then twice more"});
    add_suite({"C28", "generated", [](bool th) { return 2 * gen_count(th ? 3 : 2); }, s_generated, 20, "generated requests: 9 URLs x 6 queries x 16 methods and bodies x 0..2 of 10 headers, plain and TLS", "0..3 headers"});
    add_suite({"C28", "forms", [](bool th) { return 2 * npaths(11, th ? 5 : 4); }, s_forms, 20, "multipart bodies of 0..4 of 11 pieces, with and without closing delimiter", "0..5 pieces"});
    add_suite({"C28", "repeated-headers", [](bool) { return 12l * 144 * 3 * 16 * 2; }, s_repeated, 20, "12 header names given two or three times with 12 x 12 value lengths, and 15 odd lines between them"});
    add_suite({"C28", "cut", [](bool) { return 12l * 2 * 3 * 1700; }, s_cut, 20, "every prefix of 12 requests, plain and TLS, three ways to end"});
    add_suite({"C28", "faults", [](bool) { return (long)corpus().size() * 2 * NC; }, s_fault, 60, "the corpus, plain and TLS, each of 17 calls failing at every occurrence (at most 40)", "at most 400 occurrences"});
    add_suite({"C28", "failing-connections", [](bool) { return 8l * 12 * 1700; }, s_odd, 20, "12 requests with failing handshakes, TLS read errors after every byte, send errors at every send, unnamed peers, denied addresses"});
    add_suite({"C28", "varied", [](bool) { return 64l; }, s_varied, 100, "16 families of 1200 different connections, one and many addresses, plain and TLS", "8000 connections"});
    add_suite({"C28", "histories", [](bool th) { return 2 * npaths(14, th ? 4 : 3, 2); }, s_hist, 20, "all histories of 2..3 of 14 requests", "2..4"});
    add_suite({"C28", "interleavings", [](bool) { return 2l * 100 * 4 * 2; }, s_inter, 100, "pairs of 10 requests on two workers, every schedule with at most 1 preemption, also with failing connections", "2 preemptions"});
    add_suite({"C28", "many", [](bool) { return (long)corpus().size() * 2; }, s_many, 100, "400 times each request of the corpus, plain and TLS", "6000 times"});
    add_suite({"C28", "handlers", [](bool) { return 26l * 10 * 3 * 2 * 12 * 2; }, s_handlers, 20, "26 functions for handlers, 10 statuses, 3 sizes, failing at each of the first 11 sends"});
    add_suite({"C28", "busy", [](bool) { return 60l; }, s_busy, 20, "1..30 connections waiting or refused"});
  }
} reg;
