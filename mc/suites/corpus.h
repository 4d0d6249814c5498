// A server with every kind of route and static file, and a corpus of requests that reach every path of the server.
#pragma once
#include "common.h"
#include "gen.h"

extern "C" void mc_free(void *);
static inline void free_sut(void *p) { mc_free(p); }
// ---- the standard server
static str json_esc(const str &s) { str o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32) o += strf("\\u%04x", c); else o += (char)c; } return o; }
static void std_handler(api_request *r, int n) {
  Seen s = look(r, n, false); s.conn = 0; s.seq = 0;
  switch (n) {
    case 0: case 1: case 2: reply(r, "{\"saw\":\"" + json_esc(s.text()) + "\"}"); break;
    case 3: { Buf m = Buf::z("message " + s.form); send_http_status(r, 403, m); break; }
    case 4: { Buf a = Buf::z("CODE"), b = Buf::z("message \"" + s.query + "\""); wayuu_error_t *e = new_error_with_values(a, b); bad_request_with_error(r, e); free_sut(e); break; }
    case 5: { Buf d = Buf::z("{\"id\":1,\"q\":\"" + json_esc(s.query) + "\"}"); created_with_json(r, d); break; }
    case 6: break;                                             // a handler that does not answer
    case 7: not_found(r); break;
    case 8: { str p = WWW() + "/a.txt"; Buf b = Buf::z(p); direct_file(r, b); break; }
    case 9: { FILE *f = tmpfile(); str d = rep("stream line\r\n", 150) + s.query; fwrite(d.data(), 1, d.size(), f); rewind(f); return_json_stream(r, 200, f); fclose(f); break; }
    case 10: { static char own[] = "newsession0123456789"; r->session = own; str p = WWW() + "/a.txt"; Buf b = Buf::z(p); direct_file(r, b); break; }  // a handler that sets a session
    case 11: internal_server_error(r); break;
    case 12: { static char mime[] = "text/csv"; return_headers_with_mime(r, 200, mime); send_empty_line(r); static char d[] = "a,b\n1,2\n"; http_print_str(r, d); break; }
    default: ok(r); break;
  }
}
static bool std_filter(api_request *r, int n) {
  if (n == 2 && strcmp(r->session, "good") != 0) { not_authenticated(r); return false; }
  if (n == 3 && strlen(r->session) == 0) { forbidden(r); return false; }
  if (n == 4) return false;                                   // refuses without answering
  return true;
}
static void std_files() {
  put_file(WWW() + "/index.html", "<html>index</html>\n"); put_file(WWW() + "/favicon.ico", "ICON"); put_file(WWW() + "/a.txt", "text file\nsecond line\n");
  put_file(WWW() + "/b.bin", binpat(3000)); put_file(WWW() + "/big.png", binpat(20011, 7)); put_file(WWW() + "/empty.css", ""); put_file(WWW() + "/dir/index.html", "<html>dir</html>"); put_file(WWW() + "/dir/x.y/noext", "noext");
  put_file(ETC() + "/limits", "/api/lim, 1, 1\n/api/zero,0,0,1\n/two,2,1,10\n"); put_file(ETC() + "/deny", "10.9.9.9\n"); tls_files();
}
static void std_server(int workers = 1, bool tls = false) {
  setup_globals(tls);
  static const char *T[] = {"GET:/echo", "GET:/item/{id}", "GET:/secret", "GET:/text", "GET:/err", "PUT:/created", "GET:/silent", "GET:/nf", "GET:/file", "GET:/stream", "GET:/login", "GET:/ise", "GET:/csv"};
  for (int k = 0; k < 13; k++) route(T[k], k, k == 2 ? 2 : k == 1 ? 5 : -1);
  route("POST:/echo", 0); route("PUT:/echo", 0, 5); route("DELETE:/echo", 0); route("POST:/item/{id}", 1); route("POST:/text", 3, 3); route("GET:/refused", 0, 4); route("GET:/lim/{x}", 1); route("GET:/zero", 0);
  on_handler = std_handler; on_filter = std_filter;
  serve(workers);
}

// ---- the corpus
struct Req { const char *name; str bytes; };
static const std::vector<Req> &corpus() {
  static std::vector<Req> v;
  if (!v.empty()) return v;
  auto add = [](const char *n, const str &b) { v.push_back({n, b}); };
  str mp = "--XyZ\r\nContent-Disposition: form-data; name=\"t\"\r\n\r\nvalue one\r\n--XyZ\r\nContent-Disposition: form-data; name=\"f\"; filename=\"n.txt\"\r\nContent-Type: text/plain\r\n\r\nfile\r\ndata" + allbytes(0, 255) + "\r\n--XyZ--\r\n";
  str mp2 = "--XyZ\r\nContent-Disposition: form-data; name=\"g\"; filename=\"m.bin\"\r\n\r\n" + binpat(900) + "\r\n--XyZ\r\nContent-Disposition: form-data; filename=\"q\"\r\n\r\nno name\r\n--XyZ\r\nContent-Disposition: form-data; name=\"u\"\r\n\r\n\r\n--XyZ--\r\n";
  str mpt = "multipart/form-data; boundary=XyZ";
  add("api get", get_("/api/echo"));
  add("api get with query", get_("/api/echo?a=1&b=2?c", {"Host: h", "User-Agent: agent/1.0", "Referer: http://r/x?y"}));
  add("api get item", get_("/api/item/42?x=1"));
  add("api post", post_("/api/echo", "k=v&w=z", {"Content-Type: application/x-www-form-urlencoded"}));
  add("api post item", post_("/api/item/abc", "k=v", {"X-Session: sess1"}));
  add("api put empty body", req("PUT /api/echo HTTP/1.1", {"Content-Length: 0"}));
  add("api delete", req("DELETE /api/echo HTTP/1.1", {"Authorization: tok"}));
  add("filter accepts", get_("/api/secret", {"X-Session: good"}));
  add("filter refuses", get_("/api/secret", {"X-Session: bad"}));
  add("filter without session", get_("/api/secret"));
  add("cookie session", get_("/api/secret", {"Cookie: a=b; WSSESSION=good; c=d"}));
  add("post text filtered", post_("/api/text", "msg", {"Cookie: WSSESSION=1"}));
  add("status with message", get_("/api/text"));
  add("error object", get_("/api/err?q\"q"));
  add("created", post_("/api/created", "{}").replace(0, 4, "PUT"));
  add("silent handler", get_("/api/silent"));
  add("silent filter", get_("/api/refused"));
  add("handler 404", get_("/api/nf"));
  add("handler file", get_("/api/file", {"X-Session: s"}));
  add("handler stream", get_("/api/stream?tail"));
  add("handler login", get_("/api/login"));
  add("handler 500", get_("/api/ise"));
  add("handler csv", get_("/api/csv"));
  add("no route", get_("/api/nothing"));
  add("no route post", post_("/api/item/", "body"));
  add("multipart", post_("/api/echo", mp, {"Content-Type: " + mpt}));
  add("multipart item", post_("/api/item/9", mp2, {"Content-Type: " + mpt}));
  add("multipart empty", post_("/api/echo", "--XyZ--\r\n", {"Content-Type: " + mpt}));
  add("multipart unterminated", post_("/api/echo", mp.substr(0, mp.size() - 9), {"Content-Type: " + mpt}));
  add("multipart no boundary", post_("/api/echo", mp, {"Content-Type: multipart/form-data"}));
  add("limited", get_("/api/lim/1"));
  add("limit zero", get_("/api/zero"));
  add("limited static", get_("/two"));
  add("index", get_("/"));
  add("favicon", get_("/favicon.ico"));
  add("text file", get_("/a.txt?v=1"));
  add("binary file", get_("/b.bin", {"X-Session: s2"}));
  add("big file", get_("/big.png"));
  add("empty file", get_("/empty.css"));
  add("folder", get_("/dir/"));
  add("deep file", get_("/dir/x.y/noext"));
  add("missing file", get_("/nope.html"));
  add("parent directory", get_("/../etc/limits"));
  add("static post", post_("/a.txt", "x"));
  add("unknown method", req("PATCH /api/echo HTTP/1.1"));
  add("lower case method", req("get /a.txt HTTP/1.1"));
  add("many headers", [] { strs h; for (int i = 0; i < 30; i++) h.push_back(strf("H%d: value %d", i, i)); h.push_back("X-Session: late"); h.push_back("X-Real-IP: 9.8.7.6"); return get_("/api/echo", h); }());
  add("long header", get_("/api/echo", {"Long: " + pat(1500), "X-Session: after"}));
  add("long session", get_("/api/echo", {"X-Session: " + pat(100)}));
  add("long cookie", get_("/api/echo", {"Cookie: WSSESSION=" + pat(70)}));
  add("long content type", get_("/api/echo", {"Content-Type: " + pat(600) + "; charset=x"}));
  add("real ip", get_("/api/echo", {"X-Real-IP: 203.0.113.77"}));
  add("long real ip", get_("/a.txt", {"X-Real-IP: " + pat(40), "User-Agent: " + pat(300)}));
  add("long url", get_("/api/echo?" + pat(244)));
  add("too long url", get_("/api/echo?" + pat(246)));
  add("far too long url", get_("/" + pat(3000)));
  add("no url", "GET\r\n\r\n");
  add("garbage", str("\x00\xff\x80 foo\r\n\r\n", 12));
  add("empty line", "\r\n\r\n");
  add("bare newlines", "GET /api/echo HTTP/1.1\nHost: x\n\n");
  add("http 0.9", "GET /a.txt\r\n\r\n");
  add("header without colon", get_("/api/echo", {"nonsense", ": novalue", "Name:"}));
  add("body without length", req("POST /api/echo HTTP/1.1", {}, "unannounced"));
  add("body too short", req("POST /api/echo HTTP/1.1", {"Content-Length: 50"}, "short"));
  add("negative length", req("POST /api/echo HTTP/1.1", {"Content-Length: -5"}, "short"));
  add("huge length", req("POST /api/echo HTTP/1.1", {"Content-Length: 9223372036854775807"}, "x"));
  add("truncated headers", "GET /api/echo HTTP/1.1\r\nHost: x\r\n");
  add("truncated line", "GET /api/ec");
  add("nothing", "");
  return v;
}
static int corpus_index(const char *n) { for (size_t i = 0; i < corpus().size(); i++) if (!strcmp(corpus()[i].name, n)) return (int)i; fprintf(stderr, "no corpus request %s\n", n); _exit(98); }
