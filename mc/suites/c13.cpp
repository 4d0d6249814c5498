// C13: request headers are parsed completely and attributed correctly.
#include "conc.h"
extern "C" void mc_free(void *);

static std::vector<std::pair<str, str>> asked;      // names to look up in the handler -> values found
static str lookup(api_request *r, const str &name) { Buf b = Buf::z(name); char *v = http_get_header(r, b); str s = S(v); if (v && *v) mc_free(v); return s; }
static void start(bool tls = false, unsigned char fill = 0) {
  begin(); E->fill = fill; setup_globals(tls); if (tls) tls_files(); route("GET:/h", 0); route("POST:/h", 0); put_file(WWW() + "/s.txt", "static");
  on_handler = [](api_request *r, int) { for (auto &a : asked) a.second = lookup(r, a.first); Buf b = Buf::z("{}"); return_json(r, b); };
  serve(1); run();
}
static const unsigned char FILLS[] = {0, 0xff, 'A'};
// sends a request with these header lines; `seen.back()` is what the handler saw
static Result send(const strs &h, const str &body, bool lf, const str &ip = "10.0.0.1") {
  size_t n0 = seen.size(); str nl = lf ? "\n" : "\r\n"; str rq = str(body.empty() ? "GET" : "POST") + " /api/h HTTP/1.1" + nl; for (auto &x : h) rq += x + nl; rq += nl + body;
  Conn *q = client(ip, rq, END_BLOCK); run(); NOMISUSE; if (seen.size() != n0 + 1 || status_of(q) != 200) return bad("the request is not handled: %s", esc(q->out, 60).c_str());
  if (seen.back().form != body) return bad("the body is seen as %s instead of %s", esc(seen.back().form, 60).c_str(), esc(body, 60).c_str());
  return good();
}
static str cut(const str &v) { return v.substr(0, 255); }
static str vary(str s, int k) { for (size_t i = 0; i < s.size(); i++) { bool up = k == 1 || (k == 2 && i % 2); bool lo = k == 0 || (k == 2 && i % 2 == 0); if (up) s[i] = toupper(s[i]); else if (lo) s[i] = tolower(s[i]); } return s; }

// ---- number of headers
static void s_count(long i, Ctx &c) {
  Mix m(i); int lf = m(2), tls = m(2), cs = m(4), fill = m(3); int n = (int)m.n; c.desc = strf("%d headers%s%s", n, lf ? ", LF line ends" : "", tls ? ", TLS" : "");
  c.one([&] {
    start(tls, FILLS[fill]); strs h; asked.clear(); for (int k = 0; k < n; k++) { h.push_back(strf("Header%d: value %d", k, k)); asked.push_back({vary(strf("Header%d", k), cs), ""}); }
    for (str x : {"Header", "Header00", "eader1", "Host", "Header1 ", "value 0", "Header1:", "Referer"}) asked.push_back({x, ""});
    Result r = send(h, "", lf); if (!r.ok) return r; str sig;
    for (int k = 0; k < n; k++) { str w = strf("value %d", k); sig += asked[k].second; if (asked[k].second != w && !(k >= 20 && asked[k].second.empty())) return bad("header %d (%s) is seen as %s", k, asked[k].first.c_str(), esc(asked[k].second).c_str()); }
    for (size_t k = n; k < asked.size(); k++) if (!asked[k].second.empty()) return bad("the missing header %s is seen as %s", asked[k].first.c_str(), esc(asked[k].second).c_str());
    c.outcome(fnv(sig)); return good();
  });
}
// ---- lines that are no header take none of the 20 places
static const strs JUNK = {"nocolon", "no colon here", " ", "two words  ", "x", ";=,"};
static void s_junk(long i, Ctx &c) {
  Mix m(i); int jk = m(6), at = m(5), lf = m(2), cnt = m(7); int n = (int)m.n; int junk = cnt < 4 ? cnt : cnt == 4 ? 19 : cnt == 5 ? 20 : 25; c.desc = strf("%d headers and %d lines \"%s\" without colon at place %d", n, junk, JUNK[jk].c_str(), at);
  c.one([&] {
    start(); strs h; asked.clear(); int pos = at == 0 ? 0 : at == 1 ? n / 2 : at == 2 ? std::max(0, n - 1) : n;
    for (int k = 0; k <= n; k++) { if (at == 4 ? k < junk : k == pos) for (int j = 0; j < (at == 4 ? 1 : junk); j++) h.push_back(JUNK[jk]); if (k < n) { h.push_back(strf("Header%d: value %d", k, k)); asked.push_back({strf("Header%d", k), ""}); } }
    for (str x : {str("nocolon"), str("x"), str("no"), str("Header"), str("Host"), strip(JUNK[jk])}) if (!x.empty()) asked.push_back({x, ""});
    Result r = send(h, "", lf); if (!r.ok) return r; str sig;
    for (int k = 0; k < n; k++) { str w = strf("value %d", k); sig += asked[k].second; if (asked[k].second != w && !(k >= 20 && asked[k].second.empty())) return bad("header %d (%s) is seen as %s", k, asked[k].first.c_str(), esc(asked[k].second).c_str()); }
    for (size_t k = n; k < asked.size(); k++) if (!asked[k].second.empty()) return bad("%s, which is no header, is seen as %s", asked[k].first.c_str(), esc(asked[k].second).c_str());
    c.outcome(fnv(sig)); return good();
  });
  if (i % 1001 == 0) c.sample(c.desc);
}
// ---- name and value lengths
static std::vector<int> vlens() { std::vector<int> v; for (int k = 0; k <= 300; k++) v.push_back(k); for (int k : {400, 511, 512, 700, 900}) v.push_back(k); return v; }
static std::vector<int> nlens() { std::vector<int> v; for (int k = 1; k <= 80; k++) v.push_back(k); for (int k : {100, 126, 127, 128, 255, 256, 257, 400}) v.push_back(k); return v; }
static void s_lengths(long i, Ctx &c) {
  static auto V = vlens(), N = nlens(); Mix m(i); int nl = N[m((int)N.size())], pos = m(3), fill = m(2); c.desc = strf("header name of %d characters at position %d, every value length", nl, pos);
  c.one([&] {
    start(false, FILLS[fill]); str name = "X" + pat(nl, 4); name.resize(nl); str sig;
    for (int vl : V) {
      if (nl + vl > 1000) continue; if (!c.thorough && nl > 4 && nl < 60 && vl > 5 && vl < 250 && (vl + nl) % 7) continue;
      str v = pat(vl, 1); strs h = {"A: first", "B: second", "C: third"}; h.insert(h.begin() + pos, name + ": " + v); asked = {{"A", ""}, {"B", ""}, {"C", ""}, {name.substr(0, 63), ""}, {"X-None", ""}};
      if (name.size() == 1) asked[3].first = name; Result r = send(h, "", false); if (!r.ok) return r; c.count("requests");
      if (asked[0].second != "first" || asked[1].second != "second" || asked[2].second != "third") return bad("value length %d: other headers are seen as %s, %s, %s", vl, esc(asked[0].second, 40).c_str(), esc(asked[1].second, 40).c_str(), esc(asked[2].second, 40).c_str());
      if (asked[3].second != cut(v)) return bad("value of %d characters is seen as %s", vl, esc(asked[3].second, 300).c_str());
      if (!asked[4].second.empty()) return bad("a missing header is seen as %s", esc(asked[4].second).c_str());
    }
    c.outcome(nl * 8 + pos); return good();
  });
  if (i % 101 == 0) c.sample(c.desc);
}
// ---- overlong lines
static const strs TRAP = {"X-Session: evil", "Content-Length: 3", "Content-Type: evil/type", "X-Real-IP: 6.6.6.6", "Cookie: WSSESSION=evil", "Evil: yes", "\r", "\r\r", ": x", "HTTP/1.1 200 OK"};
static void s_overlong(long i, Ctx &c) {
  Mix m(i); str trap = TRAP[m((int)TRAP.size())]; int kind = m(3), tls = m(2); long at = m.n; // the trap text begins at offset `at` of the line
  static const long OFF[] = {254, 255, 256, 510, 511, 512, 2045, 2046, 2047, 2048, 2049, 3069, 3070, 4096}; at = at < 60 ? 990 + at : OFF[at - 60];
  c.desc = strf("overlong header line with '%s' at offset %ld, kind %d%s", esc(trap).c_str(), at, kind, tls ? ", TLS" : "");
  c.one([&] {
    start(tls); str line = "Long: "; line += pat(at - line.size()); line += trap; if (kind == 1) line += pat(300); if (kind == 2) line += rep(trap, 40);
    strs h = {"A: first", line, "X-Session: mine", "Content-Type: text/own", "Z: last"}; if (kind == 2) std::swap(h[0], h[3]); str body = "body data"; h.push_back(strf("Content-Length: %zu", body.size()));
    asked = {{"A", ""}, {"Long", ""}, {"Z", ""}, {"Evil", ""}, {"", ""}}; Result r = send(h, body, false); if (!r.ok) return r; Seen s = seen.back(); c.outcome(fnv(s.text()));
    if (s.session != "mine" || s.ctype != "text/own" || s.ip != "10.0.0.1") return bad("session %s, content type %s, address %s", esc(s.session).c_str(), esc(s.ctype).c_str(), esc(s.ip).c_str());
    if (asked[0].second != "first" || asked[2].second != "last" || !asked[3].second.empty()) return bad("headers are seen as A=%s Z=%s Evil=%s", esc(asked[0].second).c_str(), esc(asked[2].second).c_str(), esc(asked[3].second).c_str());
    str v = strip(line.substr(5)); if (asked[1].second != cut(v)) return bad("the overlong header is seen as %s", esc(asked[1].second, 300).c_str());
    return good();
  });
  if (i % 401 == 0) c.sample(c.desc);
}
static void s_overlong2(long i, Ctx &c) {
  Mix m(i); int what = m(3); long n = 900 + m.n; c.desc = strf("%s of %ld characters", what == 0 ? "header line" : what == 1 ? "header line without colon" : "header name", n);
  c.one([&] {
    start(); str line = what == 0 ? "Long: " + pat(n - 6) : what == 1 ? pat(n) : pat(n) + ": x"; strs h = {"A: first", line, "X-Session: mine", "Z: last"}; asked = {{"A", ""}, {"Z", ""}}; Result r = send(h, "", n % 2); if (!r.ok) return r; Seen s = seen.back(); c.outcome(what);
    if (s.session != "mine" || asked[0].second != "first" || asked[1].second != "last") return bad("session %s, A %s, Z %s", esc(s.session).c_str(), esc(asked[0].second).c_str(), esc(asked[1].second).c_str()); return good();
  });
}
// ---- special headers: spelling, spacing, order, position
static const char *SP[] = {": ", ":", ":   ", ":\t", ": \t "};
static const char *TR[] = {"", " ", "   \t"};
static void s_special(long i, Ctx &c) {
  Mix m(i); int perm = m(120), cs = m(4), sp = m(5), tr = m(3), before = m(3), tls = m(2); int nb = before == 0 ? 0 : before == 1 ? 7 : 25;
  std::vector<int> o = {0, 1, 2, 3, 4}; { int k = perm; std::vector<int> src = o; o.clear(); for (int b = 5; b >= 1; b--) { o.push_back(src[k % b]); src.erase(src.begin() + k % b); k /= b; } }
  c.desc = strf("special headers in order %d%d%d%d%d, spelling %d, spacing %d/%d, after %d other headers%s", o[0], o[1], o[2], o[3], o[4], cs, sp, tr, nb, tls ? ", TLS" : "");
  c.one([&] {
    start(tls); strs h; for (int k = 0; k < nb; k++) h.push_back(strf("Other%d: Content-Type: x%d", k, k)); str body = "a=1&b=2";
    const str N[] = {"Content-Type", "Content-Length", "X-Session", "X-Real-IP", "Referer"}; const str V[] = {"application/x-www-form-urlencoded", strf("%zu", body.size()), "Sess:1=2", "203.0.113.9", "http://x:80/y"};
    for (int k : o) h.push_back(vary(N[k], cs) + SP[sp] + V[k] + TR[tr]); asked = {{"referer", ""}, {"CONTENT-TYPE", ""}}; Result r = send(h, body, false); if (!r.ok) return r; Seen s = seen.back(); c.outcome(fnv(s.text()));
    if (s.ctype != V[0] || s.session != V[2] || s.ip != V[3]) return bad("content type %s, session %s, address %s", esc(s.ctype).c_str(), esc(s.session).c_str(), esc(s.ip).c_str());
    if (nb < 15 && (asked[0].second != V[4] || asked[1].second != V[0])) return bad("Referer is seen as %s, Content-Type as %s", esc(asked[0].second).c_str(), esc(asked[1].second).c_str());
    return good();
  });
  if (i % 2001 == 0) c.sample(c.desc);
}
// ---- lengths of the special values
static void s_values(long i, Ctx &c) {
  Mix m(i); int what = m(6), fill = m(3), order = m(2); int n = (int)m.n; if (n > 300) n = (n - 300) * 60 + 280; if (n > 980) return; static const char *W[] = {"X-Session", "Authorization", "Cookie", "X-Real-IP", "Content-Type", "Content-Type with parameter"};
  c.desc = strf("%s value of %d characters", W[what], n);
  c.one([&] {
    start(false, FILLS[fill]); str v = pat(n, 3); str line = what == 2 ? "Cookie: WSSESSION=" + v : what == 5 ? "Content-Type: " + v + "; charset=utf-8" : str(W[what]) + ": " + v; strs h = {"Host: x", line}; if (order) std::swap(h[0], h[1]); asked.clear(); Result r = send(h, "", false); if (!r.ok) return r; Seen s = seen.back(); c.outcome(fnv(s.text()));
    str es, ei = "10.0.0.1", ec; bool oks = true;
    if (what <= 1) es = v.substr(0, 63); else if (what == 2) { es = v.substr(0, 63); oks = n <= 63 || s.session.empty(); if (n > 63 && s.session.empty()) es = ""; } else if (what == 3 && n) ei = v; else if (what >= 4) ec = v;
    (void)oks; if (s.session != es) return bad("the session is %s instead of %s", esc(s.session, 100).c_str(), esc(es, 100).c_str());
    if (s.ip != ei) return bad("the client address is %s instead of %s", esc(s.ip, 100).c_str(), esc(ei, 100).c_str());
    bool ctok = what < 4 ? s.ctype.empty() : s.ctype == ec || (what == 5 && s.ctype == ec + "; charset=utf-8"); if (!ctok) return bad("the content type is %s instead of %s", esc(s.ctype, 100).c_str(), esc(ec, 100).c_str());
    // the next request inherits nothing
    r = send({}, "", false); if (!r.ok) return r; s = seen.back(); if (!s.session.empty() || !s.ctype.empty() || s.ip != "10.0.0.1") return bad("a request without these headers sees session %s, type %s, address %s", esc(s.session, 60).c_str(), esc(s.ctype, 60).c_str(), esc(s.ip, 60).c_str());
    return good();
  });
  if (i % 1001 == 0) c.sample(c.desc);
}
// ---- cookies
static const strs CK = {"WSSESSION=first", "a=b", "WSSESSION=second", "XWSSESSION=evil", "WSSESSION2=evil", "q=WSSESSION", "x=\"y z\"", "WSSESSIO=evil", "v==", "a=WSSESSION=evil", "wssession=evil", "WsSession=evil"};
static void s_cookies(long i, Ctx &c) {
  Mix m(i); int sep = m(3), xs = m(4); auto w = word(m.n, (int)CK.size(), 1); static const char *SE[] = {"; ", ";", " ;  "}; strs v; for (int x : w) v.push_back(CK[x]); str line = "Cookie: " + joinv(v, SE[sep]); c.desc = line + (xs == 1 ? ", X-Session before" : xs == 2 ? ", Authorization after" : xs == 3 ? ", trailing ;" : ""); if (xs == 3) line += ";";
  c.one([&] {
    start(); strs h = {line}; if (xs == 1) h.insert(h.begin(), "X-Session: header"); if (xs == 2) h.push_back("Authorization: header"); asked.clear(); Result r = send(h, "", false); if (!r.ok) return r; str e; for (auto &x : v) if (sw(x, "WSSESSION=")) { e = x.substr(10); break; } if (xs == 1 || xs == 2) e = "header"; c.outcome(fnv(e)); if (seen.back().session != e) return bad("the session is %s instead of %s", esc(seen.back().session).c_str(), e.c_str()); return good();
  });
  if (i % 3001 == 0) c.sample(c.desc);
}
// ---- the session cookie anywhere in a long line
static void s_cookie_place(long i, Ctx &c) {
  Mix m(i); int kind = m(4), after = m(3), len = m(3), xs = m(2); int off = (int)m.n; str val = len == 0 ? "s" : pat(len == 1 ? 20 : 63, 4), pre; if (kind == 0) pre = off >= 4 ? "a=" + pat(off - 4) + "; " : str(); else if (kind == 1) { while ((int)pre.size() + 5 <= off) pre += "a=b; "; } else if (kind == 2) { while ((int)pre.size() + 4 <= off) pre += "a=b;"; } else pre = off >= 16 ? "WSSESSIO=x; k=" + pat(off - 16) + "; " : str();
  if (off && pre.empty()) return; str line = "Cookie: " + pre + "WSSESSION=" + val + (after == 0 ? "" : after == 1 ? "; z=1" : ";"); if (line.size() > 1000) return; c.desc = strf("session cookie after %zu other characters, kind %d", pre.size(), kind);
  c.one([&] { start(); strs h = {"Host: h", line}; if (xs) h.push_back("Accept: text/html"); asked = {{"Host", ""}, {"Accept", ""}}; Result r = send(h, "", false); if (!r.ok) return r; c.outcome(fnv(seen.back().text())); if (seen.back().session != val) return bad("the session is %s instead of %s", esc(seen.back().session).c_str(), val.c_str()); if (asked[0].second != "h" || asked[1].second != (xs ? "text/html" : "")) return bad("other headers are seen as %s and %s", esc(asked[0].second).c_str(), esc(asked[1].second).c_str()); return good(); });
  if (i % 4001 == 0) c.sample(c.desc);
}
// ---- names that differ in one place only
static void s_near_names(long i, Ctx &c) {
  Mix m(i); int how = m(4), order = m(3), n = 1 + m(63); int at = (int)m.n; if (at >= n) return; str a = pat(n, 6), b = a; if (how == 0) b[at] = b[at] == 'q' ? 'r' : 'q'; else if (how == 1) b[at] = '-'; else if (how == 2) b.erase(at, 1); else b.insert(at, "z"); if (b.empty() || b.size() > 63 || ieq(a, b)) return;
  c.desc = strf("header names of %d characters that differ at %d in way %d", n, at, how);
  c.one([&] { start(); strs h = {"Host: h", a + ": one"}; if (order == 0) h.push_back(b + ": two"); if (order == 1) h.insert(h.begin(), b + ": two"); asked = {{vary(a, at % 3), ""}, {vary(b, n % 3), ""}, {"Host", ""}}; Result r = send(h, "", false); if (!r.ok) return r; c.outcome(fnv(seen.back().text())); str w = order == 2 ? "" : "two"; if (asked[0].second != "one") return bad("%s is seen as %s", a.c_str(), esc(asked[0].second).c_str()); if (asked[1].second != w) return bad("%s is seen as %s instead of %s", b.c_str(), esc(asked[1].second).c_str(), w.c_str()); return asked[2].second == "h" ? good() : bad("Host is seen as %s", esc(asked[2].second).c_str()); });
  if (i % 4001 == 0) c.sample(c.desc);
}
// ---- the same names several times, with and without values: every name is found with one of its values
static void s_repeats(long i, Ctx &c) {
  static const strs L = {"A: 1", "A:", "a: 22", "B: 2", "B:", "C: 333", "c:", "AB: 4", "no colon"}; Mix m(i); int lead = m(2); auto w = word(m.n, 9, 1); strs h; if (lead) for (int k = 0; k < 14; k++) h.push_back(strf("H%d: v%d", k, k)); std::map<str, std::set<str>> want; for (int x : w) { h.push_back(L[x]); size_t k = L[x].find(':'); if (k != str::npos) want[vary(L[x].substr(0, k), 1)].insert(strip(L[x].substr(k + 1))); } c.desc = "headers " + esc(joinv(h, " | "));
  c.one([&] {
    start(); asked.clear(); for (str n : {"A", "B", "C", "AB"}) asked.push_back({n, ""}); if (lead) for (int k = 0; k < 14; k++) asked.push_back({strf("H%d", k), ""}); Result r = send(h, "", false); if (!r.ok) return r; c.outcome(fnv(seen.back().text()));
    for (size_t k = 0; k < asked.size(); k++) { const str &n = asked[k].first, &g = asked[k].second; if (k >= 4) { if (g != "v" + n.substr(1)) return bad("%s is seen as %s", n.c_str(), esc(g).c_str()); continue; } auto it = want.find(n); if (it == want.end() ? !g.empty() : !it->second.count(g)) return bad("%s is seen as %s", n.c_str(), esc(g).c_str()); }
    size_t lines = 0; for (auto &l : h) lines += has(l, ":"); if (seen.back().headers.size() != lines) return bad("%zu headers are seen instead of %zu", seen.back().headers.size(), lines); return good();
  });
  if (i % 3001 == 0) c.sample(c.desc);
}
// ---- every byte in names and values; colons in values
static void s_bytes(long i, Ctx &c) {
  Mix m(i); int b = m(256), where = m(5), tls = m(2); if (b == 0 || b == 10 || b == 13 || b == 11 || b == 12) return; str x(1, (char)b); bool ws = b == 32 || b == 9; if (where == 0 && (b == ':' || ws)) return; if (where == 0 && !tls && 0) return;
  c.desc = strf("byte 0x%02x, place %d%s", b, where, tls ? ", TLS" : "");
  c.one([&] {
    start(tls); str name = where == 0 ? "N" + x + "e" : str("Name"), v = where == 1 ? "v" + x + "w" : where == 2 ? "v" + x : where == 3 ? x + "v" : where == 4 ? "a:" + x + ":b" : str("v"); if (ws && where != 1 && where != 4) v = "v"; asked = {{name, ""}, {"A", ""}}; Result r = send({"A: 1", name + ": " + v, "X-Session: " + (where == 2 || where == 3 ? str("s") : v)}, "", false); if (!r.ok) return r; c.outcome(b * 8 + where);
    if (asked[0].second != v || asked[1].second != "1") return bad("seen as %s", esc(asked[0].second).c_str()); if (where != 2 && where != 3 && seen.back().session != v) return bad("session seen as %s", esc(seen.back().session).c_str()); return good();
  });
}
// ---- look-alike names: a header counts only for its own full name
static const strs ALIKE = {"X-Sessio", "X-Session2", "XX-Session", "My-Content-Type", "Content-Typ", "Content-Types", "X-Content-Length", "Content-Lengt", "Content-Length2", "X-Real-I", "X-Real-IPs", "Proxy-X-Real-IP", "Cookie2", "Set-Cookie", "MyCookie", "Authorizatio", "Proxy-Authorization", "Authorization2", "Ref", "Referer2", "User-Agen", "Content", "X", "Length"};
static void s_alike(long i, Ctx &c) {
  Mix m(i); int k = m((int)ALIKE.size()), cs = m(4), with = m(2), n = m(2); str line = vary(ALIKE[k], cs) + (n ? ":" : ": ") + (has(ALIKE[k], "Cookie") ? "WSSESSION=evil" : has(ALIKE[k], "Length") ? "3" : "evil"); c.desc = "look-alike header " + line + (with ? " next to the real ones" : "");
  c.one([&] {
    start(); strs h = {line}; str body; if (with) { body = "xy"; h = {"X-Session: good", line, "X-Real-IP: 8.8.8.8", "Content-Type: good/type", "Content-Length: 2", line}; } asked = {{"Referer", ""}, {"User-Agent", ""}, {"Cookie", ""}, {"Host", ""}}; Result r = send(h, body, false); if (!r.ok) return r; Seen s = seen.back(); c.outcome(fnv(s.text()));
    if (s.session != (with ? "good" : "") || s.ctype != (with ? "good/type" : "") || s.ip != (with ? "8.8.8.8" : "10.0.0.1")) return bad("session %s, type %s, address %s", esc(s.session).c_str(), esc(s.ctype).c_str(), esc(s.ip).c_str());
    for (auto &a : asked) if (!a.second.empty()) return bad("header %s is seen as %s", a.first.c_str(), esc(a.second).c_str()); return good();
  });
}
// ---- every usual header at every place among others: all of the first 20 are found
static const strs USUAL = {"Host: h", "Accept: */*", "Accept-Encoding: gzip, deflate", "Accept-Language: en", "Connection: close", "Connection: keep-alive", "Content-Type: text/plain", "Content-Length: 0", "Cookie: a=b", "Cookie: WSSESSION=s", "Authorization: x", "X-Session: x", "X-Real-IP: 1.2.3.4", "X-Forwarded-For: 1.2.3.4", "Referer: r", "User-Agent: u", "Origin: o", "Expect: 100-continue", "Transfer-Encoding: identity", "Range: bytes=0-1", "If-Modified-Since: x", "Upgrade: h2c", "Content-Type:", "Cookie:", "X-Session:", "Authorization:", "X-Real-IP:"};
static void s_usual(long i, Ctx &c) {
  Mix m(i); int u = m((int)USUAL.size()), n = 18 + m(4), at = (int)m.n; if (at >= n) return; const str &l = USUAL[u]; c.desc = strf("%s at place %d of %d", l.c_str(), at + 1, n);
  c.one([&] { start(); strs h; asked.clear(); for (int k = 0; k < n; k++) { h.push_back(k == at ? l : strf("H%d: v%d", k, k)); asked.push_back({h.back().substr(0, h.back().find(':')), ""}); } asked.push_back({"H99", ""}); Result r = send(h, "", false); if (!r.ok) return r; c.outcome(fnv(seen.back().text()));
    for (int k = 0; k < n; k++) { str w = strip(h[k].substr(h[k].find(':') + 1)); if (k < 20 ? asked[k].second != w : !asked[k].second.empty()) return bad("header %d (%s) is seen as %s", k + 1, h[k].c_str(), esc(asked[k].second).c_str()); } if (!asked[n].second.empty()) return bad("a missing header is seen"); return good(); });
}
// ---- what the special values may consist of
static const strs VT = {"Bearer ", "Basic ", "abc", ",", ";", " ", "=", "\"", ":", "/", "%20", "\\", "192.0.2.1", "unknown", "null", "multipart/form-data", "charset=x", "[::1]", "WSSESSION=", "boundary=B"};
static void s_special_values(long i, Ctx &c) {
  Mix m(i); int what = m(4); auto w = word(m.n, (int)VT.size(), 1); str v; for (int x : w) v += VT[x]; v = strip(v); if (v.empty() || v.size() > 63) return; static const char *W[] = {"X-Session", "Authorization", "X-Real-IP", "Content-Type"}; c.desc = strf("%s: %s", W[what], esc(v).c_str());
  c.one([&] { start(); asked = {{W[what], ""}}; Result r = send({"Host: h", str(W[what]) + ": " + v}, "", false); if (!r.ok) return r; Seen s = seen.back(); c.outcome(fnv(s.text())); const str &g = what < 2 ? s.session : what == 2 ? s.ip : s.ctype; str sub = what == 3 ? strip(v.substr(0, v.find(';'))) : v; if (g != v && g != sub) return bad("it is seen as %s", esc(g).c_str()); if (asked[0].second != v) return bad("the header is seen as %s", esc(asked[0].second).c_str()); return good(); });
  if (i % 4001 == 0) c.sample(c.desc);
}
// ---- histories of header sets
static void s_hist(long i, Ctx &c) {
  Mix m(i); int fill = m(2); auto w = word(m.n, 7, 2); c.desc = "header sets"; for (int x : w) c.desc += strf(" %d", x); static const strs SETS[] = {{}, {"X-Session: one"}, {"Cookie: WSSESSION=two", "Content-Type: t/two"}, {"A: " + pat(255), "B: " + pat(255, 1), "Authorization: " + pat(63, 2)}, {"X-Real-IP: 1.2.3.4", "A: x"}, {"B: y", "nonsense", "C: " + pat(1500)}, {"Content-Type: " + pat(500), "X-Session: " + pat(100)}};
  c.one([&] {
    start(false, FILLS[fill]); str sig;
    for (int x : w) { asked = {{"A", ""}, {"B", ""}, {"C", ""}}; Result r = send(SETS[x], "", false); if (!r.ok) return r; Seen s = seen.back(); auto val = [&](const str &n) { for (auto &l : SETS[x]) if (sw(l, n + ":")) return strip(l.substr(n.size() + 1)); return str(); };
      str es = x == 2 ? "two" : x == 3 ? val("Authorization") : val("X-Session").substr(0, 63); if (s.session != es) return bad("set %d: session %s instead of %s", x, esc(s.session, 80).c_str(), esc(es, 80).c_str()); if (s.ctype != val("Content-Type")) return bad("set %d: type %s", x, esc(s.ctype, 80).c_str()); if (s.ip != (x == 4 ? "1.2.3.4" : "10.0.0.1")) return bad("set %d: address %s", x, esc(s.ip).c_str());
      for (auto &a : asked) if (a.second != cut(val(a.first))) return bad("set %d: header %s is %s", x, a.first.c_str(), esc(a.second, 80).c_str()); sig += s.text(); }
    c.outcome(fnv(sig)); return good();
  });
  if (i % 301 == 0) c.sample(c.desc);
}
static struct Reg {
  Reg() {
    worker_init = [] { reset_files(); };
    add_suite({"C13", "number-of-headers", [](bool) { return 48l * 46; }, s_count, 20, "0..45 headers x letter case x LF/CRLF x TLS x memory contents; first 20 found, missing ones empty"});
    add_suite({"C13", "lines-without-colon", [](bool) { return 6l * 5 * 2 * 7 * 25; }, s_junk, 20, "0..24 headers with 0..25 lines without colon of 6 kinds at 5 places x LF/CRLF; the first 20 headers are found"});
    add_suite({"C13", "lengths", [](bool) { return (long)nlens().size() * 6; }, s_lengths, 60, "88 name lengths x value lengths 0..300 and 5 larger (every 7th in the middle), at 3 positions", "all pairs"});
    add_suite({"C13", "overlong-lines", [](bool) { return (long)TRAP.size() * 6 * 74; }, s_overlong, 20, "10 trap texts at 74 offsets of an overlong line x 3 shapes x TLS"});
    add_suite({"C13", "line-lengths", [](bool th) { return 3l * (th ? 5000 : 1300); }, s_overlong2, 20, "every line length 900..2199, with colon, without and long name", "900..5900"});
    add_suite({"C13", "special-headers", [](bool) { return 120l * 4 * 5 * 3 * 3 * 2; }, s_special, 20, "all orders of 5 special headers x 4 spellings x 15 spacings x position (also beyond the 20th) x TLS"});
    add_suite({"C13", "special-lengths", [](bool) { return 36l * 312; }, s_values, 20, "session, authorization, cookie, address and type values of 0..300 characters and larger x memory contents"});
    add_suite({"C13", "cookies", [](bool th) { return 12 * npaths((int)CK.size(), th ? 4 : 3, 1); }, s_cookies, 20, "all cookie lists of 1..3 of 12 cookies x separators x session headers", "1..4 cookies"});
    add_suite({"C13", "cookie-places", [](bool) { return 72l * 990; }, s_cookie_place, 20, "the session cookie at every offset up to 989 of its line, after 4 kinds of other cookies x 3 lengths x 3 endings"});
    add_suite({"C13", "near-names", [](bool) { return 12l * 63 * 63; }, s_near_names, 20, "names of 1..63 characters and another that differs in one place in 4 ways, sent before, after or only asked for"});
    add_suite({"C13", "repeated-names", [](bool th) { return 2 * npaths(9, th ? 5 : 4, 1); }, s_repeats, 20, "all sequences of 1..4 of 9 header lines with repeated names, with and without values, alone and after 14 others", "1..5"});
    add_suite({"C13", "special-values", [](bool th) { return 4 * npaths((int)VT.size(), th ? 4 : 3, 1); }, s_special_values, 20, "session, authorization, address and type values: all sequences of 1..3 of 20 tokens", "1..4 tokens"});
    add_suite({"C13", "usual-headers", [](bool) { return (long)USUAL.size() * 4 * 21; }, s_usual, 20, "27 usual headers at every place among 18..21 headers"});
    add_suite({"C13", "bytes", [](bool) { return 256l * 10; }, s_bytes, 20, "every byte at 5 places of name and value"});
    add_suite({"C13", "look-alikes", [](bool) { return (long)ALIKE.size() * 16; }, s_alike, 20, "24 names that resemble special headers x spelling x company"});
    add_suite({"C13", "histories", [](bool th) { return 2 * npaths(7, th ? 4 : 3, 2); }, s_hist, 20, "all histories of 2..3 requests over 7 header sets", "2..4"});
    conc_suite("C13", {"api get with query", "many headers", "long header", "long session", "long content type", "real ip", "cookie session"}, {{"other headers", get_("/api/item/other", {"Cookie: z=1; WSSESSION=othercookie", "User-Agent: otheragent", "Referer: otherref", "Content-Type: other/type; x=y", "X-Real-IP: 198.51.100.200"})}});
  }
} reg;
