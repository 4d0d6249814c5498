// C15: every response is one well-formed HTTP message with correct length.
#include "json.h"
#include "conc.h"
extern "C" { void *mc_malloc(size_t); void mc_free(void *); char *mc_strdup(const char *); }

static const int ST[] = {200, 201, 400, 401, 403, 404, 429, 500};
static bool supported(int s) { for (int x : ST) if (x == s) return true; return false; }
struct Net { int kind = 0, arg = 0; };   // 0 all, 1 arg bytes at a time, 2 EINTR at send arg, 3 pattern
static void apply(Conn *q, const Net &n) { if (n.kind == 1) { q->short_sends = {n.arg}; q->short_repeat = true; } else if (n.kind == 2) q->intr_send_at = n.arg; else if (n.kind == 3) { int k = n.arg; for (int j = 0; j < 5; j++) { static const int Z[] = {0, 1, 2, 50}; q->short_sends.push_back(Z[k % 4]); k /= 4; } } }
static str show(const Net &n) { return n.kind == 0 ? "" : n.kind == 1 ? strf(", network takes %d bytes at a time", n.arg) : n.kind == 2 ? strf(", send %d is interrupted", n.arg) : strf(", network takes pattern %d", n.arg); }
// runs fn as the handler of one request and returns the connection
static Conn *respond(const std::function<void(api_request *)> &fn, bool tls, const Net &n, const strs &h = {}, unsigned char fill = 0) {
  begin(); E->fill = fill; setup_globals(tls); if (tls) tls_files(); route("GET:/r", 0); on_handler = [&](api_request *r, int) { fn(r); }; serve(1); run();
  Conn *q = client("10.0.0.1", get_("/api/r", h), END_BLOCK); apply(q, n); run(); return q;
}
static Result well(Conn *q, int status, const str &payload, bool json, Resp *out = nullptr) {
  NOMISUSE; if (!q->closed) return bad("the connection is not closed"); Resp r = parse_response(q->out); if (out) *out = r;
  if (!r.ok) return bad("%s", r.err.c_str()); if (r.status != status) return bad("status %d instead of %d", r.status, status);
  if (r.body != payload && r.body != payload + "\r\n") { size_t k = 0; while (k < r.body.size() && k < payload.size() && r.body[k] == payload[k]) k++; return bad("the body (%zu bytes) is not the payload (%zu bytes), different from offset %zu: %s", r.body.size(), payload.size(), k, esc(r.body.substr(k), 60).c_str()); }
  if (json) { if (r.count("Content-Type") != 1 || !ieq(r.get("Content-Type").substr(0, r.get("Content-Type").find(';')), "application/json")) return bad("content type of the JSON response is %s", r.get("Content-Type").c_str()); if (r.get("Access-Control-Allow-Origin") != "*" || r.get("Access-Control-Allow-Methods").empty() || r.get("Access-Control-Allow-Headers").empty()) return bad("cross-origin headers are missing"); }
  return good();
}
static std::vector<int> lens(bool th) { std::vector<int> v; for (int k = 0; k <= (th ? 5000 : 1100); k++) v.push_back(k); for (int b : {2047, 2048, 4095, 4096, 4097, 8192, 10000, 16384, 65535, 65536, 100000, 1000000}) v.push_back(b); return v; }
static std::vector<Net> NETS() { return {{0, 0}, {1, 1}, {1, 100}, {2, 1}}; }
static const char *HN[] = {"return_json_with_status", "send_http_status", "return_json_stream", "return_headers_with_mime and http_print"};
static void call(int helper, api_request *r, int st, const str &p) {
  if (helper == 0) { Buf b = Buf::z(p); return_json_with_status(r, st, b); }
  else if (helper == 1) { Buf b = Buf::z(p); send_http_status(r, st, b); }
  else if (helper == 2) { FILE *f = tmpfile(); fwrite(p.data(), 1, p.size(), f); rewind(f); return_json_stream(r, st, f); fclose(f); }
  else { static char mime[] = "text/csv"; if (return_headers_with_mime(r, st, mime)) { send_empty_line(r); Buf b(p); http_print(r, b, (int)p.size()); } }
}
static void s_lengths(long i, Ctx &c) {
  auto L = lens(c.thorough); auto N = NETS(); Mix m(i); int n = L[m((int)L.size())], h = m(4), st = ST[m(8)]; Net net = N[m(4)]; int tls = m(2); if (n > 9000 && net.kind == 1 && net.arg == 1) return; if (n == 1000000 && st != 200) return; if (tls && st > 201 && n > 40 && n % 16) return;
  c.desc = strf("%s, status %d, payload of %d bytes%s%s", HN[h], st, n, tls ? ", TLS" : "", show(net).c_str());
  c.one([&] { str p = h >= 2 ? binpat(n, 9) : pat(n, 2); Conn *q = respond([&](api_request *r) { call(h, r, st, p); }, tls, net); c.outcome(fnv(q->out)); return well(q, st, p, h == 0 || h == 2); });
  if (i % 20011 == 0) c.sample(c.desc);
}
// ---- large payloads of which one send takes only a little
static void s_large(long i, Ctx &c) {
  static const int L[] = {1025, 4096, 9000, 65536, 65537, 70000, 131072, 200000, 1100000}; static const int S[] = {1, 2, 7, 15, 16, 17, 60, 61, 1000, 4096, 65535, 65536}; Mix m(i); int h = m(4), n = L[m(9)], tls = m(2), at = m(6), k = S[m(12)], two = m(2); if (n > 1000000 && (at % 2 || tls)) return;
  c.desc = strf("%s, payload of %d bytes%s, send %d takes %d bytes%s", HN[h], n, tls ? ", TLS" : "", at, k, two ? " and the next one too" : "");
  c.one([&] { str p = h >= 2 ? binpat(n, 9) : pat(n, 2); begin(); setup_globals(tls); if (tls) tls_files(); route("GET:/r", 0); on_handler = [&](api_request *r, int) { call(h, r, 200, p); }; serve(1); run(); Conn *q = client("10.0.0.1", get_("/api/r"), END_BLOCK); for (int j = 0; j < at; j++) q->short_sends.push_back(1 << 30); q->short_sends.push_back(k); if (two) q->short_sends.push_back(k); run(); c.outcome(fnv(q->out)); return well(q, 200, p, h == 0 || h == 2); });
  if (i % 401 == 0) c.sample(c.desc);
}
// ---- sends interrupted again and again
static void s_interrupted(long i, Ctx &c) {
  static const int L[] = {0, 1, 100, 1025, 5000, 20000}; static const int B[] = {1, 2, 3, 10, 64, 100, 255, 256, 1000, 3000}; static const int K[] = {0, 1, 7, 100, 1000, 4096}; Mix m(i); int h = m(4), n = L[m(6)], b = B[m(10)], k = K[m(6)]; if (b > 3 && k && k < 100 && n > 1025) return; if (k && (long)b * n / k > 400000) return;
  c.desc = strf("%s, payload of %d bytes, %s bytes at a time, every send is interrupted %d times", HN[h], n, k ? strf("%d", k).c_str() : "all", b);
  c.one([&] { str p = h >= 2 ? binpat(n, 9) : pat(n, 2); begin(); setup_globals(false); route("GET:/r", 0); on_handler = [&](api_request *r, int) { call(h, r, 200, p); }; serve(1); run(); Conn *q = client("10.0.0.1", get_("/api/r"), END_BLOCK); q->intr_burst = b; if (k) q->short_sends = {k}, q->short_repeat = true; run(); c.outcome(fnv(q->out)); return well(q, 200, p, h == 0 || h == 2); });
  if (i % 101 == 0) c.sample(c.desc);
}
// ---- statuses
static void s_status(long i, Ctx &c) {
  Mix m(i); int h = m(4), st = (int)m.n - 20; if (st > 1010) st = (st - 1010) * 65536 + 200; c.desc = strf("%s with status %d", HN[h], st);
  c.one([&] { Conn *q = respond([&](api_request *r) { call(h, r, st, "some payload"); }, false, {}); NOMISUSE; c.outcome(fnv(q->out)); if (supported(st)) return well(q, st, "some payload", h == 0 || h == 2); if (!q->out.empty()) return bad("an unsupported status emits %s", esc(q->out, 80).c_str()); if (!E->access_log.empty()) return bad("an unsupported status leaves an access-log record"); return good(); });
}
// ---- helpers without payload
struct Fix { const char *name; int st; std::function<void(api_request *)> fn; };
static const std::vector<Fix> &fixes() { static std::vector<Fix> v = {{"ok", 200, ok}, {"created", 201, created}, {"bad_request", 400, bad_request}, {"not_authenticated", 401, not_authenticated}, {"forbidden", 403, forbidden}, {"not_found", 404, not_found}, {"too_many_connections", 429, too_many_connections}, {"internal_server_error", 500, internal_server_error}}; return v; }
static std::vector<Net> all_nets() { std::vector<Net> v = {{0, 0}}; for (int k = 1; k <= 60; k++) v.push_back({1, k}); for (int k = 0; k < 8; k++) v.push_back({2, k}); for (int k = 0; k < 1024; k++) v.push_back({3, k}); return v; }
static void s_fixed(long i, Ctx &c) {
  static auto N = all_nets(); Mix m(i); auto &f = fixes()[m(8)]; int tls = m(2); Net n = N[m((int)N.size())]; c.desc = str(f.name) + (tls ? ", TLS" : "") + show(n); c.one([&] { Conn *q = respond(f.fn, tls, n); c.outcome(fnv(q->out)); return well(q, f.st, "", false); });
}
static void s_nets(long i, Ctx &c) {
  static auto N = all_nets(); Mix m(i); int h = m(4), tls = m(2); Net n = N[m((int)N.size())]; c.desc = str(HN[h]) + (tls ? ", TLS" : "") + show(n); c.one([&] { str p = "{\"payload\":[1,2,3]}"; Conn *q = respond([&](api_request *r) { call(h, r, 200, p); }, tls, n); c.outcome(fnv(q->out)); return well(q, 200, p, h == 0 || h == 2); });
}
// ---- payload contents
static const strs ODD = {"%s%n%d%x", "%%", "{\"a\":\"%s\"}", "\r\n\r\n", "HTTP/1.1 200 OK\r\n\r\n", "a\nb\rc", "\"", "\\", "Content-Length: 5\r\n\r\n", "\t", " lead and trail ", "%1000000s", "-", "{}", "[]", "null"};
static void s_content(long i, Ctx &c) {
  Mix m(i); int h = m(7), tls = m(2); int k = (int)m.n; str p = k < 255 ? str("x") + (char)(k + 1) + "y" + (char)(k + 1) : ODD[k - 255]; if (h == 1 && p.empty()) return; c.desc = strf("helper %d with payload %s%s", h, esc(p).c_str(), tls ? ", TLS" : "");
  c.one([&] {
    Conn *q = respond([&](api_request *r) { Buf b = Buf::z(p); if (h < 4) call(h, r, 200, p); else if (h == 4) return_json(r, b); else if (h == 5) created_with_json(r, b); else { Buf code = Buf::z("C" + p); wayuu_error_t *e = new_error_with_values(code, b); forbidden_with_error(r, e); mc_free(e); } }, tls, {}); c.outcome(fnv(q->out));
    if (h < 6) return well(q, h == 5 ? 201 : 200, p, h != 1 && h != 3);
    Resp r = parse_response(q->out); Result x = well(q, 403, r.body, true); if (!x.ok) return x; JV v; str err; if (!json_read(r.body, v, err)) return bad("the error body is not JSON: %s: %s", err.c_str(), esc(r.body, 80).c_str()); if (!v.get("code") || v.get("code")->s != "C" + p || !v.get("message") || v.get("message")->s != p) return bad("the error body is %s", esc(r.body, 100).c_str()); return good();
  });
}
// ---- error objects
static void s_errors(long i, Ctx &c) {
  Mix m(i); int h = m(3), kind = m(3); int n = (int)m.n; c.desc = strf("error object %d with code of %d and message of %d characters, kind %d", h, n % 64, n, kind);
  c.one([&] {
    str code = pat(n % 64, 1), msg = kind == 0 ? pat(n) : kind == 1 ? str(n, '"') : rep("\n\\%s", n / 4 + 1).substr(0, n); int st = h == 0 ? 400 : h == 1 ? 403 : 500;
    Conn *q = respond([&](api_request *r) { Buf a = Buf::z(code), b = Buf::z(msg); wayuu_error_t *e = new_error_with_values(a, b); if (h == 0) bad_request_with_error(r, e); else if (h == 1) forbidden_with_error(r, e); else internal_server_error_with_error(r, e); mc_free(e); }, false, {}); c.outcome(fnv(q->out));
    Resp r = parse_response(q->out); Result x = well(q, st, r.body, true); if (!x.ok) return x; JV v; str err; if (!json_read(r.body, v, err)) return bad("the error body is not JSON: %s: %s", err.c_str(), esc(r.body, 80).c_str());
    str ec = code.empty() ? "UNKNOWN" : code, em = msg.substr(0, 1023); if (!v.get("code") || v.get("code")->s != ec || !v.get("message") || v.get("message")->s != em) return bad("the error body is %s", esc(r.body, 200).c_str()); return good();
  });
  if (i % 1001 == 0) c.sample(c.desc);
}
// ---- files with session headers, lists
static void s_files(long i, Ctx &c) {
  Mix m(i); int tls = m(2), how = m(3); int n = (int)m.n; c.desc = strf("file with a session of %d characters, set by %s%s", n, how == 0 ? "X-Session" : how == 1 ? "cookie" : "the handler", tls ? ", TLS" : "");
  c.one([&] {
    str s = pat(n, 3), d = "file\r\n\r\ndata"; put_file(WWW() + "/a.txt", d); static char own[64]; Conn *q = respond([&](api_request *r) { if (how == 2) { strcpy(own, s.c_str()); r->session = own; } Buf b = Buf::z(WWW() + "/a.txt"); direct_file(r, b); }, tls, {}, how == 0 ? strs{"X-Session: " + s} : how == 1 ? strs{"Cookie: WSSESSION=" + s} : strs{}); c.outcome(fnv(q->out)); Resp r; Result x = well(q, 200, d, false, &r); if (!x.ok) return x;
    if (n && r.get("X-Session") != s) return bad("X-Session is %s instead of %s", esc(r.get("X-Session")).c_str(), s.c_str()); if (n && !has(r.get("Set-Cookie"), "WSSESSION=" + s)) return bad("Set-Cookie is %s", esc(r.get("Set-Cookie")).c_str()); if (!n && (r.count("X-Session") || r.count("Set-Cookie"))) return bad("session headers without a session"); if (r.get("Content-Type") != "text/plain") return bad("type %s", r.get("Content-Type").c_str()); return good();
  });
}
static char *ser(void *o) { return mc_strdup((const char *)o); }
static void s_lists(long i, Ctx &c) {
  Mix m(i); int el = m(4), tls = m(2); int n = (int)m.n; c.desc = strf("return_json_list of %d elements, kind %d", n, el);
  c.one([&] { str want = "["; strs v; for (int k = 0; k < n; k++) { str e = el == 0 ? strf("%d", k) : el == 1 ? strf("{\"i\":%d}", k) : el == 2 ? "\"" + pat(k * 7 % 900) + "\"" : "null"; v.push_back(e); want += (k ? "," : "") + e; } want += "]"; Conn *q = respond([&](api_request *r) { json_list_t l; l.size = n; l.serializer = ser; l.elements = (void **)mc_malloc(sizeof(void *) * (n + 1)); for (int k = 0; k < n; k++) l.elements[k] = mc_strdup(v[k].c_str()); return_json_list(r, l); }, tls, {}); c.outcome(fnv(q->out)); return well(q, 200, want, true); });
}
// ---- response types of return_headers_with_mime
static const strs &types() {   // the known types, others, and every one-character deviation from a known type
  static strs v; if (v.empty()) {
    v = {"text/html", "image/png", "image/jpeg", "application/zip", "text/css", "text/plain", "text/csv", "text/yaml", "application/octet-stream", "x/unknown", "", "text/htm", "text/html2", "image/pn"};
    for (int k = 0; k < 9; k++) { str t = v[k]; for (size_t j = 0; j <= t.size(); j++) { v.push_back(t.substr(0, j)); if (j < t.size()) { str u = t; u[j] = 'q'; v.push_back(u); v.push_back(t.substr(0, j) + t.substr(j + 1)); v.push_back(t.substr(j)); u = t; u[j] = (char)(u[j] >= 'a' ? u[j] - 32 : u[j]); if (!ieq(u, t)) v.push_back(u); } { str u = t; u.insert(j, "a"); v.push_back(u); } } }
  } return v;
}
static void s_mime(long i, Ctx &c) {
  auto &MM = types(); Mix m(i); int k = m((int)MM.size()), st = ST[m(8)], tls = m(2); c.desc = strf("return_headers_with_mime %s, status %d", MM[k].c_str(), st);
  c.one([&] { Conn *q = respond([&](api_request *r) { Buf b = Buf::z(MM[k]); return_headers_with_mime(r, st, b); send_empty_line(r); Buf d = Buf::z("data"); http_print_str(r, d); }, tls, {}); c.outcome(fnv(q->out)); Resp r; Result x = well(q, st, "data", false, &r); if (!x.ok) return x; if (r.count("Content-Type") != 1 || r.get("Content-Type") != (std::find(MM.begin(), MM.begin() + 8, MM[k]) != MM.begin() + 8 ? MM[k] : "application/octet-stream")) return bad("Content-Type is %s", r.get("Content-Type").c_str()); return good(); });
}
// ---- the server's own responses over a slow network
static void s_own(long i, Ctx &c) {
  static const strs R = {get_("/api/none"), get_("/s.txt"), get_("/missing"), req("PATCH / HTTP/1.1"), post_("/s.txt", "x"), get_("/" + pat(400)), get_("/"), "GARBAGE\r\n\r\n"}; Mix m(i); int k = m(8), tls = m(2); auto N = all_nets(); Net n = N[m(69)]; c.desc = strf("request %d%s%s", k, tls ? ", TLS" : "", show(n).c_str());
  c.one([&] { begin(); setup_globals(tls); if (tls) tls_files(); unlink((WWW() + "/index.html").c_str()); put_file(WWW() + "/s.txt", "static text"); serve(1); run(); Conn *q = client("10.0.0.1", R[k], END_BLOCK); apply(q, n); run(); c.outcome(fnv(q->out)); static const int W[] = {400, 200, 404, 400, 400, 400, 404, 400}; return well(q, W[k], k == 1 ? "static text" : "", false); });
}
static struct Reg {
  Reg() {
    worker_init = [] { reset_files(); };
    add_suite({"C15", "payload-lengths", [](bool th) { return (long)lens(th).size() * 4 * 8 * 4 * 2; }, s_lengths, 30, "payload lengths 0..1100 and 12 larger x 4 helpers x 8 statuses x 4 network behaviours x plain/TLS", "payload lengths 0..5000"});
    add_suite({"C15", "large-payloads", [](bool) { return 4l * 9 * 2 * 6 * 12 * 2; }, s_large, 30, "9 payload lengths up to 1.1 MB x 4 helpers x plain/TLS x one of the first 6 sends takes only 1..65536 bytes"});
    add_suite({"C15", "interrupted", [](bool) { return 4l * 6 * 10 * 6; }, s_interrupted, 60, "6 payload lengths x 4 helpers x 6 send sizes, every send interrupted 1..3000 times in a row"});
    add_suite({"C15", "statuses", [](bool) { return 4l * 1036; }, s_status, 20, "every status -20..1010 and some aliases x 4 helpers"});
    add_suite({"C15", "fixed-responses", [](bool) { return 16l * (long)all_nets().size(); }, s_fixed, 20, "8 helpers without payload x every send size 1..60, an interruption at each send, all patterns of 5 short sends x plain/TLS"});
    add_suite({"C15", "short-sends", [](bool) { return 8l * (long)all_nets().size(); }, s_nets, 20, "4 helpers with payload x the same network behaviours"});
    add_suite({"C15", "payload-contents", [](bool) { return 14l * (255 + (long)ODD.size()); }, s_content, 20, "every byte and 16 special payloads x 7 helpers x plain/TLS"});
    add_suite({"C15", "error-objects", [](bool) { return 9l * 1030; }, s_errors, 20, "message lengths 0..1029 and code lengths 0..63 x 3 contents x 3 helpers; decoded by an independent JSON reader"});
    add_suite({"C15", "files-and-sessions", [](bool) { return 6l * 64; }, s_files, 20, "session lengths 0..63 x 3 sources x plain/TLS"});
    add_suite({"C15", "lists", [](bool) { return 8l * 200; }, s_lists, 20, "lists of 0..199 entities of 4 kinds"});
    add_suite({"C15", "mime-types", [](bool) { return (long)types().size() * 16; }, s_mime, 20, "14 types and every one-character deviation from them x 8 statuses x plain/TLS"});
    add_suite({"C15", "server-responses", [](bool) { return 16l * 69; }, s_own, 20, "8 requests answered by the server itself x 69 network behaviours x plain/TLS"});
    conc_suite("C15", {"error object", "handler stream", "status with message", "created", "handler csv", "handler login", "handler 500", "no route", "text file"}, {}, true);
  }
} reg;
