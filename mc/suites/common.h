// Shared by all suites: the repository's API, a running server in the controlled environment, recording handlers and an
// independent response parser.
#pragma once
#include "engine.h"
#include <algorithm>
#include <memory>
#include <signal.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <getopt.h>
#define template template_
extern "C" {
#include "conf_parser.h"
#include "file_utils.h"
#include "http_utils.h"
#include "json_utils.h"
#include "log.h"
#include "router.h"
#include "string_utils.h"
#include "wayuu_log.h"
#include "ws.h"
#undef template
int wayuu_main(int argc, char **argv);
}
using namespace mc;
typedef std::vector<str> strs;

// ------------------------------------------------------------------ enumeration helpers
struct Mix {               // mixed radix decoder of a case index
  long n; long total = 1;
  explicit Mix(long i) : n(i) {}
  int operator()(int k) { int r = (int)(n % k); n /= k; return r; }
};
inline long ipow(long b, int e) { long r = 1; while (e-- > 0) r *= b; return r; }
inline long npaths(int k, int maxlen, int minlen = 0) { long t = 0; for (int l = minlen; l <= maxlen; l++) t += ipow(k, l); return t; }
// i-th string over an alphabet of size k with length minlen..; as digit vector
inline std::vector<int> word(long i, int k, int minlen = 0) {
  int l = minlen; while (i >= ipow(k, l)) { i -= ipow(k, l); l++; }
  std::vector<int> w(l); for (int j = l - 1; j >= 0; j--) { w[j] = (int)(i % k); i /= k; } return w;
}
inline str rep(const str &s, size_t n) { str o; o.reserve(s.size() * n); for (size_t i = 0; i < n; i++) o += s; return o; }
inline str pat(size_t n, unsigned seed = 0) { str o(n, 0); for (size_t i = 0; i < n; i++) o[i] = (char)("abcdefghijklmnopqrstuvwxyz0123456789"[(i * 7 + i / 36 * 5 + seed * 11) % 36]); return o; }
inline str binpat(size_t n, unsigned seed = 0) { str o(n, 0); for (size_t i = 0; i < n; i++) o[i] = (char)((i * 37 + i / 256 * 11 + seed * 101) & 255); return o; }
inline str allbytes(int from = 0, int to = 255) { str o; for (int i = from; i <= to; i++) o += (char)i; return o; }
inline bool sw(const str &s, const str &p) { return s.compare(0, p.size(), p) == 0; }
inline bool ieq(const str &a, const str &b) { return a.size() == b.size() && strcasecmp(a.c_str(), b.c_str()) == 0; }
inline str lower(str s) { for (auto &c : s) if (c >= 'A' && c <= 'Z') c += 32; return s; }
inline bool issp(char c) { return c == ' ' || (c >= 9 && c <= 13); }
inline str strip(const str &s) { size_t a = 0, b = s.size(); while (a < b && issp(s[a])) a++; while (b > a && issp(s[b - 1])) b--; return s.substr(a, b - a); }
inline strs lines_of(const str &s) { strs v; size_t p = 0; while (p < s.size()) { size_t e = s.find('\n', p); if (e == str::npos) { v.push_back(s.substr(p)); break; } v.push_back(s.substr(p, e - p)); p = e + 1; } return v; }
inline strs split_on(const str &s, char c) { strs v; size_t p = 0; for (;;) { size_t e = s.find(c, p); if (e == str::npos) { v.push_back(s.substr(p)); return v; } v.push_back(s.substr(p, e - p)); p = e + 1; } }
inline str joinv(const strs &v, const str &d) { str o; for (size_t i = 0; i < v.size(); i++) { if (i) o += d; o += v[i]; } return o; }

// a heap buffer of exactly the given size (the sanitizer sees every access beyond it)
struct Buf {
  char *p; size_t n;
  explicit Buf(const str &s) : n(s.size()) { p = (char *)malloc(n ? n : 1); memcpy(p, s.data(), n); if (!n) { free(p); p = (char *)malloc(0); } }
  static Buf z(const str &s) { return Buf(s + '\0'); }
  Buf(Buf &&o) : p(o.p), n(o.n) { o.p = nullptr; }
  Buf(const Buf &) = delete;
  ~Buf() { free(p); }
  operator char *() { return p; }
};
inline str S(const char *p) { return p ? str(p) : str("(null)"); }

// ------------------------------------------------------------------ what a handler or filter saw
struct Seen {
  int who = 0; bool filter = false; int conn = -1; int tid = -1; long seq = 0;
  str method, url, path, query, form, ip, session, ctype, line, user; bool ctype_null = false;
  std::vector<std::pair<str, str>> headers;
  str text() const {
    str o = strf("%s%d method=%s url=%s path=%s query=%s form=%s ip=%s session=%s ctype=%s line=%s", filter ? "F" : "H", who, esc(method).c_str(), esc(url).c_str(), esc(path).c_str(), esc(query).c_str(), esc(form).c_str(), esc(ip).c_str(), esc(session).c_str(), ctype_null ? "-" : esc(ctype).c_str(), esc(line).c_str());
    for (auto &h : headers) o += strf(" [%s:%s]", esc(h.first).c_str(), esc(h.second).c_str());
    return o;
  }
};
static std::vector<Seen> seen;
inline Seen look(api_request *r, int who, bool filter) {
  Seen s; s.who = who; s.filter = filter; s.tid = self(); s.seq = ++E->seq;
  Conn *c = conn_of_fd(r->socket); s.conn = c ? c->id : -1;
  s.method = S(r->method); s.url = S(r->url); s.path = S(r->path); s.query = S(r->query_string); s.form = S(r->form); s.ip = S(r->IP); s.session = S(r->session);
  s.ctype_null = !r->content_type; s.ctype = r->content_type ? r->content_type : ""; s.line = S(r->request_line); s.user = S(r->username);
  for (int i = 0; i < r->n_headers && i < HTTP_MAX_HEADERS; i++) s.headers.push_back({str(r->headers[i].name), str(r->headers[i].value)});
  return s;
}
// handlers 0..NH-1 and filters 0..NH-1; their behaviour can be replaced per execution
static const int NH = 130;
static std::function<void(api_request *, int)> on_handler;       // called after recording
static std::function<bool(api_request *, int)> on_filter;
static bool record_seen = true;
inline void reply(api_request *r, const str &body) { Buf b = Buf::z(body); return_json(r, b); }
template <int N> void h_fn(api_request *r) { if (record_seen) seen.push_back(look(r, N, false)); if (on_handler) on_handler(r, N); else reply(r, strf("{\"h\":%d}", N)); }
template <int N> bool f_fn(api_request *r) { if (record_seen) seen.push_back(look(r, N, true)); if (on_filter) return on_filter(r, N); return true; }
template <int N> struct Fill { static void go(request_handler *h, request_filter *f) { Fill<N - 1>::go(h, f); h[N - 1] = h_fn<N - 1>; f[N - 1] = f_fn<N - 1>; } };
template <> struct Fill<0> { static void go(request_handler *, request_filter *) {} };
static request_handler HF[NH]; static request_filter FF[NH];
static struct HInit { HInit() { Fill<NH>::go(HF, FF); } } hinit;
inline void route(const str &t, int h, int f = -1) { Buf b = Buf::z(t); router_add_route(b, HF[h], f < 0 ? nullptr : FF[f]); }

// ------------------------------------------------------------------ the server
inline void setup_globals(bool tls = false) {
  seen.clear(); on_handler = nullptr; on_filter = nullptr; record_seen = true;
  str root = SCR + "/root", www = SCR + "/root/www";
  strcpy(WAYUU_WS_ROOT, root.c_str()); strcpy(WAYUU_STATIC_ROOT, www.c_str());
  strcpy(WWW_INDEX, DEFAULT_WWW_INDEX); strcpy(FAVICON_URL, DEFAULT_FAVICON_URL);
  WAYUU_SSL_ON = tls; E->tls = tls;
  router_init();
}
// starts the real server (real acceptor, real worker loop) on logical threads; run() lets it work
inline void serve(int workers = 1, ws_socket_handler h = nullptr, int loglevel = LOG_INFO) {
  E->max_workers = workers;
  launch([h, loglevel] { log_set_level(loglevel); log_set_file((char *)"/var/log/wayuu.log"); ws_launch(4443, (char *)"127.0.0.1", h); });
}
inline void reset_files(const str &www = "") {
  wipe(SCR + "/root"); mkdirs(SCR + "/root/www"); mkdirs(SCR + "/root/etc"); mkdirs(SCR + "/root/ssl"); wipe(SCR + "/upload"); mkdirs(SCR + "/upload"); wipe(SCR + "/log"); mkdirs(SCR + "/log"); wipe(SCR + "/cwd");
  (void)www;
}
static const str WWW() { return SCR + "/root/www"; }
static const str ETC() { return SCR + "/root/etc"; }
inline void tls_files() { put_file(SCR + "/root/ssl/cert.pem", "cert"); put_file(SCR + "/root/ssl/key.pem", "key"); }

// ------------------------------------------------------------------ responses
struct Resp {
  bool ok = false; str err; int status = 0; str reason; std::vector<std::pair<str, str>> headers; str body; long clen = -1;
  str get(const str &n) const { for (auto &h : headers) if (ieq(h.first, n)) return h.second; return ""; }
  int count(const str &n) const { int k = 0; for (auto &h : headers) if (ieq(h.first, n)) k++; return k; }
};
inline const char *reason_of(int st) {
  switch (st) { case 200: return "OK"; case 201: return "CREATED"; case 400: return "Bad Request"; case 401: return "UNAUTHORIZED"; case 403: return "FORBIDDEN"; case 404: return "NOT FOUND"; case 429: return "Too many connections"; case 500: return "Internal Server Error"; }
  return nullptr;
}
// strict: exactly one well-formed message in `o`
inline Resp parse_response(const str &o) {
  Resp r; size_t p = 0;
  auto fail = [&](const str &m) { r.ok = false; r.err = m; return r; };
  size_t e = o.find("\r\n"); if (e == str::npos) return fail("no status line");
  str l = o.substr(0, e); p = e + 2;
  if (!sw(l, "HTTP/1.1 ") || l.size() < 13 || l[12] != ' ') return fail("bad status line: " + esc(l));
  for (int i = 9; i < 12; i++) { if (l[i] < '0' || l[i] > '9') return fail("bad status: " + esc(l)); r.status = r.status * 10 + l[i] - '0'; }
  r.reason = l.substr(13);
  const char *rs = reason_of(r.status); if (!rs || lower(rs) != lower(r.reason)) return fail("status and reason do not belong together: " + esc(l));
  for (;;) {
    e = o.find("\r\n", p); if (e == str::npos) return fail("header section not terminated");
    l = o.substr(p, e - p); p = e + 2;
    if (l.empty()) break;
    size_t c = l.find(':'); if (c == str::npos || c == 0) return fail("bad header line: " + esc(l));
    for (size_t i = 0; i < c; i++) if (l[i] <= 32 || l[i] > 126) return fail("bad header name: " + esc(l));
    for (size_t i = c; i < l.size(); i++) if (l[i] == '\n' || l[i] == '\r' || l[i] == 0) return fail("control character in header: " + esc(l));
    r.headers.push_back({l.substr(0, c), strip(l.substr(c + 1))});
  }
  r.body = o.substr(p);
  if (r.count("Content-Length") > 1) return fail("several Content-Length headers");
  if (r.count("Content-Length")) {
    str v = r.get("Content-Length"); if (v.empty() || v.find_first_not_of("0123456789") != str::npos) return fail("bad Content-Length: " + esc(v));
    r.clen = atol(v.c_str()); if ((size_t)r.clen != r.body.size()) return fail(strf("Content-Length is %ld but %zu bytes follow the blank line", r.clen, r.body.size()));
  }
  r.ok = true; return r;
}
// status of the single response of a connection; -1 malformed, 0 nothing sent
inline int status_of(Conn *c) { if (c->out.empty()) return 0; Resp r = parse_response(c->out); return r.ok ? r.status : -1; }

// one request on an otherwise idle server; run() must have been called before or serve() just issued
inline Conn *ask(const str &bytes, const str &ip = "10.0.0.1", EndKind end = END_BLOCK) { Conn *c = client(ip, bytes, end); run(); return c; }
inline str req(const str &line, const strs &h = {}, const str &body = "") { str o = line + "\r\n"; for (auto &x : h) o += x + "\r\n"; return o + "\r\n" + body; }
inline str get_(const str &url, const strs &h = {}) { return req("GET " + url + " HTTP/1.1", h); }
inline str post_(const str &url, const str &body, strs h = {}) { h.push_back(strf("Content-Length: %zu", body.size())); return req("POST " + url + " HTTP/1.1", h, body); }

// misuse common to all suites: any of these is wrong whatever the property
inline str misuse() {
  if (!E->errors.empty()) return "misuse: " + E->errors[0];
  if (E->aborted_livelock) return "the server does not come to rest (livelock)";
  if (E->exited) return strf("the server process ended with status %d: %s", E->exit_code, E->main_log.empty() ? "" : esc(E->main_log.back().data).c_str());
  return "";
}
#define NOMISUSE do { str m_ = misuse(); if (!m_.empty()) return bad("%s", m_.c_str()); } while (0)
