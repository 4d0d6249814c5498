// C12: request bodies arrive complete and unchanged, or the request is not executed.
#include "conc.h"

static str got; static bool got_any; static size_t want_n;
static void take(api_request *r, int) { // copies the declared number of bytes: the sanitizer sees a shorter buffer
  got_any = true; got.assign(want_n, 0);
  if (want_n) memcpy(&got[0], r->form, want_n);
  // the body must be terminated right after the declared bytes
  if (r->form[want_n] != 0) got += "(not terminated)";
  else if (want_n == 0 && strlen(r->form)) got += "(form data without body)";
  reply(r, "{\"ok\":1}");
}
static void start(bool tls, size_t n) {
  begin(); setup_globals(tls); if (tls) tls_files(); E->fill = 0xAA; want_n = n; got_any = false; got.clear();
  for (const char *m : {"GET", "POST", "PUT", "DELETE"}) route(str(m) + ":/b", 0, 0);
  serve(1); on_handler = take; record_seen = true;
}
static str body_of(size_t n, int kind) {
  switch (kind) {
    case 0: return pat(n);
    case 1: return binpat(n);                                           // every byte value, NUL included
    case 2: { str o; while (o.size() < n) o += "a\r\n\r\nb\n"; return o.substr(0, n); }
    case 3: { str o; while (o.size() < n) o += "Content-Length: 1\r\nX-Session: q\r\n\r\n"; return o.substr(0, n); }
    case 4: return str(n, '\0');
    case 5: { str o; while (o.size() < n) o += "POST /api/b HTTP/1.1\r\nContent-Length: 3\r\n\r\nabc"; return o.substr(0, n); }
    default: return str(n, '\xff');
  }
}
static str head(const char *m, size_t n, int spelling, int place, int others) {
  str v = strf("%zu", n), h;
  switch (spelling) {
    case 0: h = "Content-Length: " + v; break;
    case 1: h = "content-length: " + v; break;
    case 2: h = "CONTENT-LENGTH:" + v; break;
    case 3: h = "Content-length:    " + v + "   "; break;
    case 4: h = "cOnTeNt-LeNgTh:\t" + v + "\t"; break;
    case 5: h = "Content-Length: 000" + v; break;
  }
  strs hs; for (int i = 0; i < others; i++) hs.push_back(strf("X-H%d: v%d", i, i));
  size_t at = place == 0 ? 0 : place == 1 ? hs.size() : hs.size() / 2;
  hs.insert(hs.begin() + at, h);
  return req(str(m) + " /api/b HTTP/1.1", hs);
}
static Result verdict(const str &body, Conn *c, const char *what) {
  NOMISUSE;
  if (!got_any) return bad("%s: the complete request was not executed (response %s)", what, esc(c->out, 80).c_str());
  int handlers = 0; for (auto &s : seen) handlers += !s.filter;
  if (handlers != 1) return bad("%s: handler ran %d times", what, handlers);
  if (got != body) { size_t k = 0; while (k < got.size() && k < body.size() && got[k] == body[k]) k++; return bad("%s: handler saw a different body: first difference at byte %zu of %zu, sent \"%s\" saw \"%s\"", what, k, body.size(), esc(body.substr(k > 8 ? k - 8 : 0), 60).c_str(), esc(got.substr(k > 8 ? k - 8 : 0), 60).c_str()); }
  if (status_of(c) != 200) return bad("%s: no proper response: %s", what, esc(c->out, 100).c_str());
  return good();
}

// ---- every length, content kind
static std::vector<size_t> lengths(bool th) {
  std::vector<size_t> v; for (size_t i = 0; i <= (th ? 1100 : 300); i++) v.push_back(i);
  for (size_t i : {510, 511, 512, 513, 1022, 1023, 1024, 1025, 1026, 2047, 2048, 2049, 4094, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 16385, 32767, 32768, 65535, 65536, 65537, 100003}) v.push_back(i);
  if (th) for (size_t i : {262144, 524289, 1048577}) v.push_back(i);
  return v;
}
static void s_len(long i, Ctx &c) {
  Mix m(i); auto L = lengths(c.thorough); size_t n = L[m((int)L.size())]; int kind = m(7); bool tls = m(2);
  str b = body_of(n, kind); c.desc = strf("POST body of %zu bytes, content kind %d, %s", n, kind, tls ? "TLS" : "plain");
  c.one([&] { start(tls, n); Conn *q = ask(head("POST", n, 0, 0, 1) + b); Result r = verdict(b, q, "body"); c.outcome(fnv(got)); return r; });
  if (i % 97 == 0) c.sample(c.desc);
}
// ---- spelling, position, method, other headers, trailing bytes
static void s_spell(long i, Ctx &c) {
  Mix m(i); int sp = m(6), pl = m(3); static const int OT[] = {0, 1, 5, 19, 20, 21, 40}; int ot = OT[m(7)]; static const char *ME[] = {"POST", "PUT", "DELETE", "GET"}; const char *me = ME[m(4)]; static const size_t NN[] = {0, 1, 9, 64, 300}; size_t n = NN[m(5)]; int extra = m(2);
  str b = body_of(n, 1); c.desc = strf("%s with Content-Length spelling %d at position %d among %d other headers, %zu bytes%s", me, sp, pl, ot, n, extra ? ", followed by more bytes" : "");
  c.one([&] { start(false, n); Conn *q = ask(head(me, n, sp, pl, ot) + b + (extra ? "GET /api/b HTTP/1.1\r\n\r\nzzzz" : "")); Result r = verdict(b, q, "request"); c.outcome(fnv(c.desc + got)); return r; });
  if (i % 401 == 0) c.sample(c.desc);
}
// ---- every segmentation with up to 2 cuts (3 in the thorough tier for the short ones), and byte by byte
static str seg_req(int k, str &b) {
  switch (k) {
    case 0: b = "a=1&b=2"; return req("POST /api/b HTTP/1.1", {"Content-Length: 7"}) + b;
    case 1: b = "\r\n\r\nx"; return req("PUT /api/b?q=1 HTTP/1.1", {"Content-Type: text/plain", "content-length:5"}) + b;
    case 2: b = binpat(40, 3); return req("POST /api/b HTTP/1.1", {"Host: h", "Content-Length: 40", "Accept: */*"}) + b;
    default: b = pat(2); return req("POST /api/b HTTP/1.1", {"X: " + pat(60), "Content-Length: 2", "Y: " + pat(60)}) + b;
  }
}
static void s_seg(long i, Ctx &c) {
  Mix m(i); int k = m(4); int first = m(220); bool tls = m(2); str b; str r = seg_req(k, b);
  if (first >= (int)r.size()) return;
  c.desc = strf("request %d cut at byte %d and at every later byte%s", k, first, tls ? " (TLS)" : "");
  auto go = [&](const std::vector<size_t> &cuts) {
    strs v; size_t p = 0; for (size_t x : cuts) { v.push_back(r.substr(p, x - p)); p = x; } v.push_back(r.substr(p));
    start(tls, b.size()); Conn *q = client_segs("10.0.0.1", v, END_BLOCK); run(); c.outcome(fnv(got) + k); return verdict(b, q, "segmented request");
  };
  if (first == 0) { std::vector<size_t> all; for (size_t x = 1; x < r.size(); x++) all.push_back(x); c.one([&] { return go(all); }); c.one([&] { return go({}); }); return; }
  c.one([&] { return go({(size_t)first}); });
  for (size_t x = first + 1; x < r.size(); x++) {
    c.one([&] { return go({(size_t)first, x}); });
    if (c.thorough && !tls) for (size_t y = x + 1; y < r.size(); y += 1) c.one([&] { return go({(size_t)first, x, y}); });
  }
}
// ---- disconnect after every byte
static const char *SECRET = "THE-STATIC-CONTENT";
static str trunc_req(int k, size_t &hdr, int &kind) { // kind 0: api, 1: static
  str h, b; kind = 0;
  switch (k) {
    case 0: b = "a=1&b=22"; h = req("POST /api/b HTTP/1.1", {"Host: x", "Content-Length: 8"}); break;
    case 1: h = req("GET /api/b HTTP/1.1", {"Host: x"}); break;
    case 2: b = "--B\r\nContent-Disposition: form-data; name=\"f\"; filename=\"n\"\r\n\r\nDATA\r\n--B--\r\n"; h = req("POST /api/b HTTP/1.1", {"Content-Type: multipart/form-data; boundary=B", strf("Content-Length: %zu", b.size())}); break;
    case 3: h = req("GET /s.txt HTTP/1.1", {"Host: x", "Accept: a"}); kind = 1; break;
    case 4: h = req("GET / HTTP/1.1", {}); kind = 1; break;
    case 5: b = pat(30); h = req("DELETE /api/b HTTP/1.1", {"Content-Length: 30", "X-Session: s"}); break;
    case 6: h = "GET /api/b HTTP/1.1\n\n"; break;
    case 7: b = "xyz"; h = req("PUT /api/p/7 HTTP/1.1", {"Content-Length: 3"}); break;
    case 8: h = req("GET /api/b HTTP/1.1", {"H: " + pat(1100)}); break;
    default: h = req("GET /api/b?" + pat(200) + " HTTP/1.1", {"A: b"}); break;
  }
  hdr = h.size(); return h + b;
}
static const int NTR = 10;
static void s_trunc(long i, Ctx &c) {
  Mix m(i); int k = m(NTR); bool tls = m(2); int ek = m(2); int seg = m(2); size_t hdr; int kind; str full = trunc_req(k, hdr, kind);
  c.desc = strf("request %d disconnected (%s) after every byte%s%s", k, ek ? "reset" : "orderly", tls ? ", TLS" : "", seg ? ", byte by byte" : "");
  for (size_t cut = 0; cut < full.size(); cut++) {
    str d = full.substr(0, cut);
    c.one([&] {
      start(tls, 0); put_file(WWW() + "/s.txt", SECRET); put_file(WWW() + "/index.html", SECRET); route("PUT:/p/{id}", 1, 1);
      on_handler = [](api_request *r, int) { got_any = true; reply(r, "{}"); };
      strs v; if (seg) for (char ch : d) v.push_back(str(1, ch)); else v.push_back(d);
      Conn *q = client_segs("10.0.0.1", v, ek ? END_RESET : END_EOF); run();
      NOMISUSE; c.outcome(fnv(q->out, k)); c.count("disconnect points");
      if (cut < hdr || kind == 0) {
        if (!seen.empty()) return bad("disconnected after %zu of %zu bytes (header section %zu), yet %s %d was executed: %s", cut, full.size(), hdr, seen[0].filter ? "filter" : "handler", seen[0].who, seen[0].text().c_str());
        if (has(q->out, SECRET)) return bad("disconnected after %zu of %zu bytes, yet the static file was returned", cut, full.size());
        for (auto &o : E->opens) if (o.write) return bad("disconnected after %zu of %zu bytes, yet a file was written: %s", cut, full.size(), o.path.c_str());
        if (status_of(q) == 200) return bad("disconnected after %zu of %zu bytes, yet answered 200", cut, full.size());
      }
      return good();
    });
  }
  c.one([&] { // the complete request is executed
    start(tls, 0); put_file(WWW() + "/s.txt", SECRET); put_file(WWW() + "/index.html", SECRET); route("PUT:/p/{id}", 1, 1);
    on_handler = [](api_request *r, int) { got_any = true; reply(r, "{}"); };
    Conn *q = client("10.0.0.1", full, ek ? END_RESET : END_EOF); run(); NOMISUSE;
    if (kind == 0 ? !got_any : !has(q->out, SECRET)) return bad("the complete request was not executed: %s", esc(q->out, 100).c_str());
    return good();
  });
}
// ---- declared length larger than what arrives, huge declared lengths, allocation failure
static void s_short(long i, Ctx &c) {
  static const char *D[] = {"6", "7", "10", "100", "1000", "65536", "100000", "2147483647", "2147483648", "4294967295", "4294967296", "4294967301", "9223372036854775806", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "18446744073709551621", "99999999999999999999999999"};
  Mix m(i); int k = m(19); int mp = m(2); int tls = m(2);
  c.desc = strf("Content-Length: %s but only 5 bytes arrive%s", D[k], mp ? " (multipart)" : "");
  c.one([&] {
    start(tls, 0); on_handler = [](api_request *r, int) { got_any = true; reply(r, "{}"); };
    strs h = {str("Content-Length: ") + D[k]}; if (mp) h.push_back("Content-Type: multipart/form-data; boundary=B");
    Conn *q = client("10.0.0.1", req("POST /api/b HTTP/1.1", h) + "12345", END_EOF); run(); NOMISUSE; c.outcome(fnv(q->out) + k);
    if (!seen.empty()) return bad("incomplete request executed: %s", seen[0].text().c_str());
    if (status_of(q) == 200) return bad("incomplete request answered 200");
    return good();
  });
  c.sample(c.desc);
}
static struct Reg {
  Reg() {
    worker_init = [] { reset_files(); tls_files(); };
    add_suite({"C12", "lengths", [](bool th) { return (long)lengths(th).size() * 7 * 2; }, s_len, 20, "every body length 0..300 and around powers of two up to 100003, 7 kinds of content, plain and TLS", "every body length 0..1100, up to 1048577"});
    add_suite({"C12", "spelling", [](bool) { return 6l * 3 * 7 * 4 * 5 * 2; }, s_spell, 20, "6 spellings x 3 positions x 0..40 other headers x 4 methods x 5 lengths x trailing bytes"});
    add_suite({"C12", "segmentation", [](bool) { return 4l * 220 * 2; }, s_seg, 60, "every segmentation with at most 2 cuts of 4 requests, and byte by byte", "at most 3 cuts"});
    add_suite({"C12", "disconnect", [](bool) { return (long)NTR * 2 * 2 * 2; }, s_trunc, 60, "10 requests, disconnected after every byte, orderly and by reset, whole and byte by byte, plain and TLS"});
    add_suite({"C12", "declared-too-long", [](bool) { return 19l * 2 * 2; }, s_short, 60, "19 declared lengths up to beyond 2^64 with 5 bytes sent"});
    conc_suite("C12", {"api post", "api post item", "api put empty body", "body too short", "body without length", "truncated headers"}, {{"binary body", post_("/api/echo", binpat(300, 9).c_str())}, {"long body", post_("/api/echo", pat(2000, 5))}});
  }
} reg;
