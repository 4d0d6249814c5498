// C17: no byte stream can crash, corrupt or hang the server.
#include "conc.h"

static const str &follow_up() { static str s = get_("/api/item/7?follow=up", {"Host: h", "X-Session: next", "User-Agent: n"}); return s; }
static str expected_next[2];
static const str &next_answer(bool tls) { return expected_next[tls]; }
static void learn() { for (int t = 0; t < 2; t++) { begin(); std_server(1, t); run(); Conn *q = client("10.0.0.77", follow_up()); run(); expected_next[t] = q->out; end(); } }
static size_t times(const str &h, const str &n) { size_t k = 0; for (size_t p = h.find(n); p != str::npos; p = h.find(n, p + 1)) k++; return k; }
static const unsigned char FILLS[] = {0, 0xAA, 0xFF, 0x41};

// a session value with a bare CR is echoed as it came; that is not what is judged here
static str no_bare_cr(str s) { for (size_t i = 0; i < s.size(); i++) if (s[i] == '\r' && (i + 1 == s.size() || s[i + 1] != '\n')) s[i] = '.'; return s; }
static Result feed(Ctx &c, const std::vector<str> &segs, EndKind end, bool tls, unsigned char fill, bool before = false) {
  begin(); E->fill = fill; std_server(1, tls); run();
  if (before) { client("10.0.0.66", post_("/api/item/SECRETPARAM?SECRETQUERY", "SECRETBODY" + rep("SECRET", 60), {"X-Session: SECRETSESSION", "Content-Type: text/SECRET", "Referer: SECRETREF", "Cookie: WSSESSION=SECRETCOOKIE"})); run(); }
  size_t h0 = seen.size(); str all; for (auto &s : segs) all += s;
  Conn *q = client_segs("10.0.0.1", segs, end); run();
  if (end == END_BLOCK && !q->closed) { hangup(q, END_EOF); run(); }
  c.outcome(fnv(q->out));
  NOMISUSE;
  if (!q->closed || q->closes != 1) return bad("the connection was closed %d times", q->closes);
  if (!q->out.empty()) {
    Resp r = parse_response(no_bare_cr(all) == all ? q->out : no_bare_cr(q->out)); if (!r.ok) return bad("malformed response: %s: %s", r.err.c_str(), esc(q->out, 200).c_str());
    if (!has(all, "Server: WAYUU/") && times(q->out, "Server: WAYUU/") != 1) return bad("more than one response: %s", esc(q->out, 400).c_str());
    if (before && has(q->out, "SECRET")) return bad("the answer contains data of another client: %s", esc(q->out, 400).c_str());
  }
  if (seen.size() > h0 + 2) return bad("%zu calls of handlers and filters for one connection", seen.size() - h0);
  for (size_t k = h0; k < seen.size(); k++) if (seen[k].conn != q->id) return bad("a handler was called for another connection");
  if (!E->escapes.empty()) return bad("file access outside the server's folders: %s", E->escapes[0].c_str());
  Conn *n = client("10.0.0.77", follow_up()); run(); NOMISUSE;
  if (n->out != next_answer(tls)) return bad("the next request was answered %s instead of %s", esc(n->out, 300).c_str(), esc(next_answer(tls), 300).c_str());
  if (n->closes != 1) return bad("the next connection was closed %d times", n->closes);
  return good();
}
// ---- all short byte strings
static void s_short(long i, Ctx &c) {
  for (int b = 0; b < 256; b++) { str s; if (i < 256) s = str(1, (char)i) + str(1, (char)b); else { s = str(1, (char)b); } c.desc = "bytes " + esc(s); c.one([&] { return feed(c, {s}, END_EOF, false, FILLS[(i + b) % 4]); }); }
}
static void s_short3(long i, Ctx &c) {
  static const str A("\0\x01\t\n\r \"%&-./:;=?AG\\\x7f\x80\xff", 22); auto w = word(i, 22, 3); str s; for (int x : w) s += A[x]; c.desc = "bytes " + esc(s); c.one([&] { return feed(c, {s}, END_EOF, i & 1, FILLS[i % 4]); });
}
// ---- all words over request fragments
static const strs &tokens() {
  static const strs t = {"GET ", "POST ", "/api/echo", "/a.txt", "?", "/", " ", " HTTP/1.1\r\n", "\r\n", "\n", "Content-Length: 5\r\n", "Content-Length:", "Content-Type: multipart/form-data; boundary=XyZ\r\n", "X-Session: ", "Cookie: WSSESSION=", ":", "hello", str("\0", 1), "--XyZ\r\n", "Content-Disposition: form-data; name=\"", "\"; filename=\"", "\"\r\n\r\n", "--XyZ--", "9223372036854775807", "../"};
  return t;
}
static void s_words(long i, Ctx &c) {
  auto w = word(i, (int)tokens().size(), 1); str s; std::vector<str> seg; for (int x : w) { s += tokens()[x]; seg.push_back(tokens()[x]); } c.desc = "bytes " + esc(s);
  c.one([&] { return feed(c, i & 1 ? seg : std::vector<str>{s}, i & 2 ? END_EOF : END_RESET, false, FILLS[i % 4]); });
}
// a well-formed start followed by all words over header and body fragments
static const strs &htokens() {
  static const strs t = {"Content-Length: 60\r\n", "Content-Length: 0\r\n", "Content-Length: -1\r\n", "Content-Length: 4294967297\r\n", "Content-Type: multipart/form-data; boundary=XyZ\r\n", "Content-Type: multipart/form-data; boundary=\"\r\n", "Content-Type:\r\n", "Content-Type: ;;\r\n", "X-Session:\r\n", "X-Real-IP:\r\n", "Cookie: ;WSSESSION=;\r\n", "Cookie:\r\n", ":\r\n", "\r\n", "\r", "X-Real-IP: " + rep("7", 300) + "\r\n", "X-Session: " + rep("s", 300) + "\r\n", "--XyZ\r\nContent-Disposition: form-data; name=\"a\"\r\n\r\nv\r\n--XyZ--", "--XyZ\r\n\r\n\r\n--XyZ\r\n", "--XyZ--XyZ--XyZ", rep("L", 1023) + "\r\n", rep("M", 1024) + ":"};
  return t;
}
static void s_headers(long i, Ctx &c) {
  static const strs S = {"POST /api/echo HTTP/1.1\r\n", "GET /a.txt HTTP/1.1\r\n", "PUT /api/item/1 HTTP/1.1\r\n"}; Mix m(i); str s = S[m(3)]; auto w = word(m.n, (int)htokens().size(), 1); for (int x : w) s += htokens()[x]; c.desc = "bytes " + esc(s, 300);
  c.one([&] { return feed(c, {s + rep("body ", 10)}, END_EOF, i & 1, FILLS[i / 2 % 4], false); });
}
// ---- every position of every corpus request damaged
static const unsigned char MV[] = {0, 1, '\n', '\r', ' ', '"', '%', ':', ';', '=', '-', '/', '?', '{', 0x7f, 0x80, 0xff, 'A', '0', '9'};
static void s_damage(long i, Ctx &c) {
  Mix m(i); const Req &r = corpus()[m((int)corpus().size())]; int kind = m(6); bool tls = m(2); if (tls && !c.thorough && kind != 2) return; long n = r.bytes.size(), step = n > 700 && !c.thorough ? (n + 599) / 600 : 1;
  static const char *KN[] = {"replaced", "removed", "cut off after", "inserted", "doubled", "cut off (reset) after"}; 
  for (long p = 0; p < n; p += step) {
    int nv = kind == 0 || kind == 3 ? (c.thorough && n < 700 ? 256 : 20) : 1;
    for (int v = 0; v < nv; v++) {
      unsigned char x = nv == 256 ? v : MV[v]; if (nv == 20 && !c.thorough && kind == 3 && (p + v) % 3) continue; str s = r.bytes;
      if (kind == 0) { if ((unsigned char)s[p] == x) continue; s[p] = (char)x; } else if (kind == 1) s.erase(p, 1); else if (kind == 2 || kind == 5) s.resize(p); else if (kind == 3) s.insert(p, 1, (char)x); else s.insert(p, s.substr(p, 40));
      c.desc = strf("request \"%s\", byte %ld %s (%d)%s", r.name, p, KN[kind], x, tls ? ", TLS" : ""); c.one([&] { return feed(c, {s}, kind == 5 ? END_RESET : END_EOF, tls, FILLS[(p + v) % 4], (p + v) % 5 == 0); });
    }
  }
  if (i % 83 == 0) c.sample(c.desc);
}
// ---- segments
static void s_segments(long i, Ctx &c) {
  Mix m(i); const Req &r = corpus()[m((int)corpus().size())]; bool tls = m(2); long n = r.bytes.size(), step = n > 500 ? n / 250 : 1; if (n < 2) return;
  str whole; c.desc = strf("request \"%s\" in one segment", r.name); c.one([&] { Result x = feed(c, {r.bytes}, END_EOF, tls, 0); whole = E->conns[0]->out; return x; });
  auto same = [&](const std::vector<str> &sg, EndKind e) { c.one([&] { Result x = feed(c, sg, e, tls, 0x55); if (!x.ok) return x; if (E->conns[0]->out != whole) return bad("answered %s in pieces but %s in one", esc(E->conns[0]->out, 200).c_str(), esc(whole, 200).c_str()); return good(); }); };
  for (long p = 1; p < n; p += step) { c.desc = strf("request \"%s\" in two segments of %ld and %ld bytes%s", r.name, p, n - p, tls ? ", TLS" : ""); same({r.bytes.substr(0, p), r.bytes.substr(p)}, END_EOF); }
  std::vector<str> one; for (char x : r.bytes) one.push_back(str(1, x)); c.desc = strf("request \"%s\" byte by byte", r.name); same(one, END_BLOCK);
}
// ---- lengths of everything
static void s_lengths(long i, Ctx &c) {
  static const char *W[] = {"method", "URL", "path parameter", "query", "version", "header name", "header value", "Content-Type", "boundary", "X-Session", "Cookie", "cookie value", "X-Real-IP", "User-Agent", "Content-Length digits", "spaces before URL", "multipart name", "multipart filename", "multipart text", "garbage line", "number of headers", "Authorization", "number of parts", "body"};
  Mix m(i); int w = m(24), term = m(2); long n = m.n; str v = pat(n, w), s; c.desc = strf("%s of %ld characters%s", W[w], n, term ? "" : ", unterminated");
  auto mp = [&](const str &b) { return post_("/api/echo", b, {"Content-Type: multipart/form-data; boundary=XyZ"}); };
  switch (w) {
    case 0: s = v + " /a.txt HTTP/1.1\r\n\r\n"; break; case 1: s = get_("/" + v); break; case 2: s = get_("/api/item/" + v); break; case 3: s = post_("/api/item/1?" + v, "b"); break; case 4: s = "GET /a.txt " + v + "\r\n\r\n"; break;
    case 5: s = get_("/api/echo", {v + ": x"}); break; case 6: s = get_("/api/echo", {"H: " + v}); break; case 7: s = get_("/api/echo", {"Content-Type: " + v}); break; case 8: s = post_("/api/echo", "--" + v + "\r\nContent-Disposition: form-data; name=\"a\"\r\n\r\nx\r\n--" + v + "--", {"Content-Type: multipart/form-data; boundary=" + v}); break;
    case 9: s = get_("/a.txt", {"X-Session: " + v}); break; case 10: s = get_("/a.txt", {"Cookie: " + v}); break; case 11: s = get_("/a.txt", {"Cookie: x=y; WSSESSION=" + v}); break; case 12: s = get_("/a.txt", {"X-Real-IP: " + v}); break; case 13: s = get_("/a.txt", {"User-Agent: " + v, "Referer: " + v}); break;
    case 14: s = req("POST /api/echo HTTP/1.1", {"Content-Length: " + str(n, '0') + "3"}, "abc"); break; case 15: s = "GET" + str(n, ' ') + "/a.txt HTTP/1.1\r\n\r\n"; break;
    case 16: s = mp("--XyZ\r\nContent-Disposition: form-data; name=\"" + v + "\"\r\n\r\nx\r\n--XyZ--"); break; case 17: s = mp("--XyZ\r\nContent-Disposition: form-data; name=\"f\"; filename=\"" + v + "\"\r\n\r\nx\r\n--XyZ--"); break; case 18: s = mp("--XyZ\r\nContent-Disposition: form-data; name=\"f\"\r\n\r\n" + v + "\r\n--XyZ--"); break;
    case 19: s = v + "\r\n\r\n"; break; case 20: { strs h; for (long k = 0; k < n % 200; k++) h.push_back(strf("H%ld: %ld", k, k)); s = get_("/api/echo", h); break; } case 21: s = get_("/a.txt", {"Authorization: " + v}); break; case 22: { str b; for (long k = 0; k < n % 200; k++) b += strf("--XyZ\r\nContent-Disposition: form-data; name=\"%ld\"\r\n\r\n%ld\r\n", k, k); s = mp(b + "--XyZ--"); break; } default: s = post_("/api/item/z", v); break;
  }
  if (!term) { size_t p = w >= 16 && w <= 18 ? s.size() - 4 : s.rfind("\r\n"); if (p != str::npos && p > 0) s.resize(p); }
  c.one([&] { return feed(c, {s}, END_EOF, i % 3 == 0, FILLS[n % 4], n % 7 == 0); });
}
// ---- two long elements in one request
static const int PL[] = {0, 1, 62, 63, 64, 65, 127, 128, 200, 239, 240, 250, 254, 255, 256, 257, 500, 511, 512, 513, 700, 990, 1000, 1022, 1023, 1024, 1025, 1500, 2047, 2048};
static void s_length_pairs(long i, Ctx &c) {
  static const char *W[] = {"URL", "query", "header name", "header value", "Content-Type", "X-Session", "Cookie session", "X-Real-IP", "User-Agent", "Referer", "Authorization", "line without colon", "20 headers before"};
  Mix m(i); int a = m(13), b = m(13), la = PL[m(30)], lb = PL[m(30)]; int kind = m(3); if (b <= a || (!c.thorough && (la + lb + a + b) % 2)) return; str url = kind == 0 ? "/a.txt" : kind == 1 ? "/api/item/1" : "/api/echo", q; strs h;
  auto add = [&](int w, int n) { str v = pat(n, w); switch (w) { case 0: url += v; break; case 1: q = "?" + v; break; case 2: h.push_back(v + ": x"); break; case 3: h.push_back("H: " + v); break; case 4: h.push_back("Content-Type: " + v); break; case 5: h.push_back("X-Session: " + v); break; case 6: h.push_back("Cookie: a=b; WSSESSION=" + v); break; case 7: h.push_back("X-Real-IP: " + v); break; case 8: h.push_back("User-Agent: " + v); break; case 9: h.push_back("Referer: " + v); break; case 10: h.push_back("Authorization: " + v); break; case 11: h.push_back(v); break; default: for (int k = 0; k < 20; k++) h.insert(h.begin(), strf("K%d: %s", k, str(n % 300, 'k').c_str())); } };
  add(a, la); add(b, lb); str s = kind == 2 ? post_(url + q, "b=c", h) : get_(url + q, h);
  c.desc = strf("%s of %d and %s of %d characters, %s", W[a], la, W[b], lb, kind == 0 ? "static" : "API"); c.one([&] { return feed(c, {s}, END_EOF, false, FILLS[i % 4], i % 7 == 0); });
}
// ---- every header slot with an overlong line
static void s_slots(long i, Ctx &c) {
  static const int L[] = {63, 64, 65, 255, 256, 257, 320, 700, 980, 1015, 1016, 1017, 1018, 1019, 1020, 1021, 1022, 1023, 1024, 1025, 1100, 2040, 2048, 3000}; Mix m(i); int at = m(26), shape = m(5), tail = m(3), tls = m(2); int n = L[m.n]; strs h; for (int k = 0; k < at; k++) h.push_back(strf("Name%d: value %d", k, k));
  str v = pat(n, at); h.push_back(shape == 0 ? v + ": x" : shape == 1 ? "N: " + v : shape == 2 ? v : shape == 3 ? v.substr(0, n / 2) + ":" + v.substr(n / 2) : rep(":", n)); for (int k = 0; k < tail * 3; k++) h.push_back(strf("After%d: %d", k, k));
  c.desc = strf("header %d of %d characters, shape %d, %d headers after it%s", at, n, shape, tail * 3, tls ? ", TLS" : ""); c.one([&] { return feed(c, {tail == 1 ? post_("/api/echo", "data", h) : get_(tail ? "/a.txt" : "/api/echo", h)}, END_EOF, tls, FILLS[i % 4], i % 7 == 0); });
}
// ---- usual headers given again and again
static void s_again17(long i, Ctx &c) {
  static const strs N = {"X-Forwarded-For", "X-Forwarded-Proto", "Via", "Accept", "Accept-Encoding", "Cookie", "X-Session", "Authorization", "Content-Type", "Content-Length", "X-Real-IP", "Host", "User-Agent", "Referer", "Connection", "Transfer-Encoding", "Expect", "Upgrade", "Range", "Origin", "If-None-Match", "Cache-Control", "Forwarded", "Accept-Language", "TE", "Date"}; static const int L[] = {0, 1, 10, 63, 255, 300, 900}; static const int C[] = {2, 5, 19, 20, 21, 25, 40, 60};
  Mix m(i); int k = m((int)N.size()), n = L[m(7)], cnt = C[m(8)], lead = m(3), kind = m(3); bool tls = m(2); strs h; for (int j = 0; j < lead * 10; j++) h.push_back(strf("Name%d: value %d", j, j)); for (int j = 0; j < cnt; j++) h.push_back(N[k] + ": " + (k == 9 ? str(n ? "0" : "") : k == 5 ? "WSSESSION=" + pat(n, j) : pat(n, j)));
  c.desc = strf("%d times %s with %d characters after %d headers", cnt, N[k].c_str(), n, lead * 10); c.one([&] { return feed(c, {kind == 0 ? get_("/a.txt", h) : kind == 1 ? get_("/api/echo?x", h) : post_("/api/item/1", "data", h)}, END_EOF, tls, FILLS[i % 4], i % 7 == 0); });
}
// ---- the shortest parts a form can have: the decoded form is longer than the request
static void s_compact(long i, Ctx &c) {
  static const strs B = {"B", "", "-", "XY"}; static const strs P = {"form-data; name=\"\"; filename=\"\"\r\n\r\n", "; form-data; name=\"a\"; filename=\"\"\r\n\r\n", " form-data; name=\"\"; filename=\"x\"\r\n\r\ny", "form-data; name=\"\"\r\n\r\n", "\r\nform-data; name=\"\"; filename=\"\"\r\n\r\n", "form-data; name=\"f\"; filename=\"\"\r\n\r\n", "\r\n\r\n", ""};
  Mix m(i); int b = m(4), first = m(2), fin = m(3), url = m(2); auto w = m.n < 60 * 8 ? std::vector<int>(1 + m.n / 8, m.n % 8) : word(m.n - 480, 8, 1); str body = first ? "" : "\r\n"; for (int x : w) body += "--" + B[b] + P[x] + "\r\n"; body += fin == 0 ? "--" + B[b] + "--" : fin == 1 ? "--" + B[b] : "";
  c.desc = strf("boundary \"%s\", %zu compact parts (first of kind %d)", B[b].c_str(), w.size(), w[0]); c.one([&] { return feed(c, {post_(url ? "/api/item/1" : "/api/echo", body, {"Content-Type: multipart/form-data; boundary=" + B[b]})}, END_EOF, false, FILLS[i % 4]); });
}
// ---- clients that wait, that vanish while being answered, several at once
static void s_many(long i, Ctx &c) {
  static const char *K[] = {"api get", "big file", "garbage", "nothing", "truncated headers", "multipart unterminated", "body too short", "long url"}; Mix m(i); auto w = std::vector<int>{m(8), m(8), m(8)}; int fs = m(4); bool tls = m(2); c.desc = strf("\"%s\", \"%s\" and \"%s\" at once on two workers, send failure at %d%s", K[w[0]], K[w[1]], K[w[2]], fs - 1, tls ? ", TLS" : "");
  c.one([&] {
    begin(); E->fill = FILLS[i % 4]; std_server(2, tls); run(); std::vector<Conn *> Q; for (int x : w) { Conn *q = client("10.0.0.1", corpus()[corpus_index(K[x])].bytes, END_BLOCK); if (fs) q->fail_send_at = fs - 1; Q.push_back(q); } run(); for (auto q : Q) hangup(q, i & 1 ? END_EOF : END_RESET); run(); NOMISUSE; str o; for (auto q : Q) { if (q->closes != 1) return bad("connection closed %d times", q->closes); o += q->out; if (!fs && !q->out.empty()) { Resp r = parse_response(q->out); if (!r.ok) return bad("malformed response: %s", r.err.c_str()); } } c.outcome(fnv(o));
    Conn *n = client("10.0.0.77", follow_up()); run(); NOMISUSE; if (n->out != next_answer(tls)) return bad("the next request was answered %s", esc(n->out, 300).c_str()); return good();
  });
}
// ---- the longest root, index page and URL that the server takes, together
static void s_roots(long i, Ctx &c) {
  static const int UL[] = {1, 2, 5, 12, 100, 180, 239, 240, 241, 242, 243, 244, 245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255, 256, 300}; Mix m(i); int kind = m(5), il = m(3), ul = UL[m(25)]; int rl = 255 - (int)m.n; static const char *K[] = {"a file", "no file", "a folder", "an empty folder", "a folder without slash"};
  str base = SCR + "/long"; if (rl < (int)base.size() + 2) return; c.desc = strf("root of %d characters, URL of %d characters (%s), index page of %d characters", rl, ul, K[kind], il == 0 ? 10 : il == 1 ? 128 : 255);
  c.one([&] {
    begin(); wipe(base); str root = base + "/" + pat(rl - (int)base.size() - 1, 7), www = root + "/www", index = il == 0 ? "index.html" : pat(il == 1 ? 128 : 250, 3) + (il == 1 ? "" : ".html"); mkdirs(www); mkdirs(root + "/etc"); put_file(www + "/" + index, "INDEX"); put_file(root + "/etc/limits", "/x,1,1\n/, 9 , 9\n"); put_file(root + "/etc/deny", "10.0.0.13\n"); put_file(root + "/etc/allow", "10.0.0.13\n10.0.0.1\n");
    str url = "/" + pat(ul - 1, 5); bool dir = kind >= 2 && ul > 1 && ul <= 255; if (dir) { mkdirs(www + url.substr(0, ul - 1)); if (kind != 4) url[ul - 1] = '/'; if (kind != 3) put_file(www + url.substr(0, ul - 1) + "/index.html", "FOLDER"); if (kind == 4) mkdirs(www + url); } if (kind == 0 && ul > 1 && ul <= 255) put_file(www + url, "FILE");
    setup_globals(); strcpy(WAYUU_WS_ROOT, root.c_str()); strcpy(WAYUU_STATIC_ROOT, www.c_str()); strcpy(WWW_INDEX, index.c_str()); serve(1); run(); for (const char *ip : {"10.0.0.13", "10.0.0.14"}) { Conn *d = client(ip, get_("/")); run(); if (!d->out.empty() || !d->closed) return bad("client %s was served", ip); }
    Conn *q = client("10.0.0.1", get_(url)); run(); NOMISUSE; c.outcome(fnv(q->out)); Resp r = parse_response(q->out); if (!q->closed || !r.ok) return bad("answered %s", esc(q->out, 200).c_str());
    if (ul > 254) return r.status == 400 ? good() : bad("status %d", r.status); str want = kind == 0 && ul > 1 ? "FILE" : dir && kind == 2 ? "FOLDER" : "INDEX"; if (dir && kind >= 3) want = ""; if (r.status != 200 || (want.empty() ? false : r.body.compare(0, want.size(), want) != 0)) return bad("status %d, body %s instead of %s", r.status, esc(r.body, 60).c_str(), want.c_str()); return good();
  });
}
static struct Reg {
  Reg() {
    worker_init = [] { reset_files(); std_files(); learn(); };
    add_suite({"C17", "short-strings", [](bool) { return 257l; }, s_short, 60, "all byte strings of length 1 and 2; 4 fills of uninitialised memory"});
    add_suite({"C17", "special-strings", [](bool th) { return th ? ipow(22, 3) + ipow(22, 4) : ipow(22, 3); }, s_short3, 20, "all strings of length 3 over 22 special bytes", "length 3..4"});
    add_suite({"C17", "words", [](bool th) { return npaths((int)tokens().size(), th ? 4 : 3, 1); }, s_words, 20, "all sequences of 1..3 of 25 request fragments", "1..4 fragments"});
    add_suite({"C17", "header-words", [](bool th) { return 3 * npaths((int)htokens().size(), th ? 4 : 3, 1); }, s_headers, 20, "3 request lines followed by all sequences of 1..3 of 22 header and body fragments", "1..4 fragments"});
    add_suite({"C17", "damaged-requests", [](bool) { return (long)corpus().size() * 12; }, s_damage, 300, "68 requests, every byte replaced by 20 values, removed, inserted, doubled, cut off (about 600 positions of the requests longer than 700 bytes)", "all 256 values, every position, plain and TLS"});
    add_suite({"C17", "segmentations", [](bool) { return (long)corpus().size() * 2; }, s_segments, 120, "68 requests split at every byte, and byte by byte; the answer must be the same"});
    add_suite({"C17", "lengths", [](bool th) { return 48l * (th ? 4200 : 1300); }, s_lengths, 20, "24 elements of a request at every length 0..1299, terminated or not", "0..4199"});
    add_suite({"C17", "length-pairs", [](bool) { return 13l * 13 * 900 * 3; }, s_length_pairs, 20, "all pairs of 13 elements of a request with 30 lengths each (half of the length pairs)", "all length pairs"});
    add_suite({"C17", "header-slots", [](bool) { return 26l * 5 * 3 * 2 * 24; }, s_slots, 20, "an overlong line of 5 shapes and 24 lengths in each of 26 header slots, with up to 6 headers after it"});
    add_suite({"C17", "repeated-headers", [](bool) { return 26l * 7 * 8 * 3 * 3 * 2; }, s_again17, 20, "26 usual headers given 2..60 times after 0, 10 and 20 others, 7 value lengths"});
    add_suite({"C17", "compact-parts", [](bool th) { return 48 * (480 + npaths(8, th ? 5 : 3, 1)); }, s_compact, 20, "1..60 times each of 8 minimal parts, and all sequences of 1..3 of them, 4 boundaries, 3 ends", "1..5"});
    add_suite({"C17", "roots", [](bool th) { return 5l * 3 * 25 * (th ? 230 : 48); }, s_roots, 20, "root folders of 208..255 characters x 25 URL lengths up to 300 x file / missing / folder x 3 lengths of the index page", "all root folders up to 255 characters"});
    conc_suite("C17", {"garbage", "truncated headers", "multipart unterminated", "body too short", "far too long url", "many headers", "long session", "limit zero"});
    add_suite({"C17", "several-clients", [](bool) { return 512l * 8; }, s_many, 20, "three of 8 kinds of client at once x send failures x plain/TLS"});
  }
} reg;
