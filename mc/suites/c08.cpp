// C08: static content is returned byte for byte with the right type.
#include "conc.h"
#include <sys/stat.h>
#include <fcntl.h>
#include <unistd.h>

struct Ext { const char *e; const char *t; };
static const Ext EXT[] = {{".html", "text/html"}, {".png", "image/png"}, {".jpg", "image/jpeg"}, {".jpeg", "image/jpeg"}, {".zip", "application/zip"}, {".css", "text/css"}, {".svg", "image/svg+xml"}, {".ico", "image/vnd.microsoft.icon"}, {".txt", "text/plain"}, {".csv", "text/csv"}, {".yaml", "text/yaml"}, {".js", nullptr},
  {"", "text/html"}, {".", nullptr}, {".bin", "application/octet-stream"}, {".htm", "application/octet-stream"}, {".htmlx", "application/octet-stream"}, {".xhtml", "application/octet-stream"}, {".pn", "application/octet-stream"}, {".pngx", "application/octet-stream"}, {".xpng", "application/octet-stream"}, {".jp", "application/octet-stream"}, {".jpegs", "application/octet-stream"},
  {".zi", "application/octet-stream"}, {".zipx", "application/octet-stream"}, {".cs", "application/octet-stream"}, {".tx", "application/octet-stream"}, {".text", "application/octet-stream"}, {".csvx", "application/octet-stream"}, {".yml", "application/octet-stream"}, {".yamlx", "application/octet-stream"}, {".json", "application/octet-stream"}, {".pdf", "application/octet-stream"},
  {".tar.gz", "application/octet-stream"}, {".a.png", "image/png"}, {".png.txt", "text/plain"}, {".html.zip", "application/zip"}, {".svg.", nullptr}, {"png", "text/html"}, {".x", "application/octet-stream"}, {".gif", "application/octet-stream"}, {".webp", "application/octet-stream"}, {".mp4", "application/octet-stream"}, {".js.css", "text/css"}, {".css.js", nullptr}, {".csv.html", "text/html"}, {"..txt", "text/plain"}};
static const int NEXT = sizeof EXT / sizeof *EXT;
static str mime_of(const str &path) { size_t d = path.rfind('.'), s = path.rfind('/'); if (d == str::npos || (s != str::npos && d < s)) return "text/html"; str e = path.substr(d); if (e == ".") return ""; for (auto &x : EXT) if (e == x.e) return x.t ? x.t : ""; return "application/octet-stream"; }

static Result check_file(Conn *q, const str &content, const str &mime, const str &what) {
  NOMISUSE; Resp r = parse_response(q->out);
  if (!r.ok) return bad("%s: %s", what.c_str(), r.err.c_str());
  if (r.status != 200) return bad("%s: status %d instead of 200", what.c_str(), r.status);
  if (r.body != content) { size_t k = 0; while (k < r.body.size() && k < content.size() && r.body[k] == content[k]) k++; return bad("%s: the body (%zu bytes) is not the file (%zu bytes), they differ from offset %zu", what.c_str(), r.body.size(), content.size(), k); }
  if (r.count("Content-Type") != 1) return bad("%s: %d Content-Type headers", what.c_str(), r.count("Content-Type"));
  if (!mime.empty() && !ieq(r.get("Content-Type").substr(0, r.get("Content-Type").find(';')), mime)) return bad("%s: Content-Type is %s instead of %s", what.c_str(), r.get("Content-Type").c_str(), mime.c_str());
  if (!q->closed) return bad("%s: the connection is not closed", what.c_str());
  if (!seen.empty()) return bad("%s: a handler was run", what.c_str());
  return good();
}
static void server(bool tls) { begin(); setup_globals(tls); if (tls) tls_files(); route("GET:/x", 0); route("POST:/x", 0); serve(1); run(); }

// ---- sizes
static std::vector<long> sizes(bool th) {
  std::vector<long> v; for (long k = 0; k <= 1100; k++) v.push_back(k); for (long b : {2000, 2047, 2048, 3000, 4096, 5000, 8192, 10000, 12288, 16384, 32768, 65536, 100000, 131072, 262144}) for (long k = -2; k <= 2; k++) v.push_back(b + k);
  if (th) for (long k = 1101; k < 8400; k++) v.push_back(k); for (long b : {1l << 20, 2l << 20, 4l << 20, 10000000l}) for (long k = -1; k <= 1; k++) v.push_back(b + k); return v;
}
static str data_of(long n, int kind) { switch (kind) { case 0: return binpat(n, 3); case 1: { str o = rep("line of text\r\n\r\n\t<x>\n", n / 20 + 1); o.resize(n); return o; } case 2: return str(n, '\0'); case 3: return str(n, '\xff'); case 4: { str o = pat(n); for (long k = 0; k < n; k += 97) o[k] = '%'; return o; } default: { str o = pat(n); if (n) o[0] = 0; if (n) o[n - 1] = '\n'; return o; } } }
static void s_sizes(long i, Ctx &c) {
  auto S = sizes(c.thorough); Mix m(i); long n = S[m((int)S.size())]; int kind = m(6), tls = m(2), net = m(3); if (n > 70000 && net == 1) return; if (n > 1100000 && (net || kind % 3)) return;
  c.desc = strf("file of %ld bytes, content kind %d%s, network %s", n, kind, tls ? ", TLS" : "", net == 0 ? "takes everything" : net == 1 ? "takes 61 bytes at a time" : "interrupts the second send and takes 1000 bytes at a time");
  c.one([&] {
    str d = data_of(n, kind); put_file(WWW() + "/f.bin", d); server(tls); Conn *q = client("10.0.0.1", get_("/f.bin"), END_BLOCK);
    if (net == 1) { q->short_sends = {61}; q->short_repeat = true; } if (net == 2) { q->short_sends = {1000}; q->short_repeat = true; q->intr_send_at = 1; }
    run(); Result r = check_file(q, d, "application/octet-stream", "GET /f.bin"); c.outcome(fnv(q->out)); return r;
  });
  if (i % 7001 == 0) c.sample(c.desc);
}
// ---- large files of which one send takes only a little
static void s_large(long i, Ctx &c) {
  static const int L[] = {1025, 4096, 9000, 65536, 65537, 70000, 131072, 200000, 1100000}; static const int S[] = {1, 2, 7, 15, 16, 17, 60, 61, 1000, 4096, 65535, 65536}; Mix m(i); int n = L[m(9)], tls = m(2), at = m(8), k = S[m(12)], two = m(2);
  c.desc = strf("file of %d bytes%s, send %d takes %d bytes%s", n, tls ? ", TLS" : "", at, k, two ? " and the next one too" : "");
  c.one([&] { str d = data_of(n, 0); put_file(WWW() + "/f.bin", d); server(tls); Conn *q = client("10.0.0.1", get_("/f.bin"), END_BLOCK); for (int j = 0; j < at; j++) q->short_sends.push_back(1 << 30); q->short_sends.push_back(k); if (two) q->short_sends.push_back(k); run(); Result r = check_file(q, d, "application/octet-stream", "GET /f.bin"); c.outcome(fnv(q->out)); return r; });
  if (i % 401 == 0) c.sample(c.desc);
}
// ---- extensions
static const char *DIRS[] = {"/", "/d/", "/d.png/", "/d/e.f/g/", "/.hid/", "/a.b/c.d/"};
static const char *BASES[] = {"f", "index", "a.b", "x-y_z", "api", "0"};
static const char *QS[] = {"", "?", "?a", "?a=1&b=2", "?x.png", "?/q/", "?a?b.css", "?../../x", "?."};
static void s_ext(long i, Ctx &c) {
  Mix m(i); const Ext &e = EXT[m(NEXT)]; str p = str(DIRS[m(6)]) + BASES[m(6)] + e.e; str q = QS[m(9)]; int tls = m(2), sess = m(2);
  if (sw(p, "/api")) return;
  c.desc = strf("GET %s%s%s%s", p.c_str(), q.c_str(), tls ? ", TLS" : "", sess ? ", with a session" : "");
  c.one([&] { wipe(WWW()); str d = "content of " + p; put_file(WWW() + p, d); put_file(WWW() + "/index.html", p == "/index.html" ? d : "<index>"); server(tls); Conn *k = ask(get_(p + q, sess ? strs{"X-Session: abc"} : strs{})); c.outcome(fnv(k->out)); return check_file(k, d, mime_of(p), c.desc); });
  if (i % 3001 == 0) c.sample(c.desc);
}
// ---- names: every length and every byte
static void s_names(long i, Ctx &c) {
  Mix m(i); int tls = m(2), kind = m(3); long k = m.n; str name;
  if (k < 248) name = (kind == 0 ? pat(k + 1) : kind == 1 ? str(k + 1, 'a') : pat(k + 1, 5)) + ".txt"; else { unsigned char b = (unsigned char)(k - 248); if (b <= 32 || b == 127 || b == '/' || b == '?') return; name = kind == 0 ? str(1, (char)b) + "n.txt" : kind == 1 ? str("n") + (char)b + ".txt" : str("n.txt") + (char)b; }
  if (name == "." || name == ".." || sw(name, "api")) return;
  str p = (kind == 2 && name.size() < 200 ? "/sub/dir/" : "/") + name; if (p.size() > 254 || p == "/index.html") return;
  c.desc = "GET " + esc(p) + (tls ? ", TLS" : "");
  c.one([&] { wipe(WWW()); str d = "data of the file with that name"; put_file(WWW() + p, d); put_file(WWW() + "/index.html", "<index>"); for (str x : {p.substr(0, p.size() - 1), p + "0"}) if (x.back() != '/' && x.size() - x.rfind('/') < 250) put_file(WWW() + x, "neighbour"); server(tls); Conn *k = ask(get_(p)); c.outcome(fnv(k->out)); return check_file(k, d, mime_of(p), c.desc); });
}
// ---- files that cannot be written, links to files
static void s_modes(long i, Ctx &c) {
  static const int MD[] = {0444, 0400, 0644, 0600, 0755, 0555, 0666}; Mix m(i); int md = MD[m(7)], tls = m(2), link = m(3), u = m(4); static const char *U[] = {"/f.txt", "/", "/favicon.ico", "/sub/"}; static const char *F[] = {"/f.txt", "/index.html", "/favicon.ico", "/sub/index.html"}; c.desc = strf("GET %s, file of mode %o%s%s", U[u], md, link ? link == 1 ? ", symbolic link" : ", hard link" : "", tls ? ", TLS" : "");
  c.one([&] { wipe(WWW()); mkdirs(WWW() + "/sub"); str d = "data with that mode\n", p = WWW() + F[u]; put_file(link ? WWW() + "/target" : p, d); if (link == 1) ::symlink((WWW() + "/target").c_str(), p.c_str()); if (link == 2) ::link((WWW() + "/target").c_str(), p.c_str()); ::chmod(p.c_str(), md); server(tls); Conn *k = ask(get_(U[u])); c.outcome(fnv(k->out)); Result r = check_file(k, d, mime_of(F[u]), U[u]); str now; get_file(p, now); if (r.ok && now != d) return bad("the file was changed"); return r; });
}
// ---- index, favicon, folders, missing files, methods
static const char *FILES[] = {"/index.html", "/home.htm", "/sub/index.html", "/sub/main.png", "/favicon.ico", "/x.css", "/sub/favicon.ico"};
static const char *IDX[] = {"/index.html", "/home.htm", "/sub/index.html", "home.htm", "/nofile"};
static const char *FAV[] = {"/favicon.ico", "/sub/main.png", "/nofile.ico"};
static const char *URLS[] = {"/", "/index.html", "/favicon.ico", "/sub/", "/sub", "/sub/index.html", "/x.css", "/home.htm", "/missing", "/missing.png", "/missing/", "/sub/missing/x", "/?q", "/index.html?a=b", "/favicon.ico?1", "/sub/?x=/", "/missing?/index.html", "/x.css/", "/x.css?v=2", "/indexxhtml", "/favicon.icon", "/index.html2", "/i", "/sub/favicon.ico", "/sub/favicon.ico?1", "/xfavicon.ico", "/sub/index.html?q=/", "/missing/favicon.ico", "/missing/index.html", "/favicon.ico/"};
static const int NU = sizeof URLS / sizeof *URLS;
static const char *METH[] = {"GET", "POST", "PUT", "DELETE", "HEAD", "OPTIONS", "PATCH", "GETS", "XGET"};
static str body_of(int f) { return strf("contents of file %d (%s)", f, FILES[f]); }
static void s_index(long i, Ctx &c) {
  Mix m(i); int have = m(128), ix = m(5), fv = m(3), meth = m(9), tls = m(2); if (tls && meth > 1) return;
  c.desc = strf("files present %02x, index %s, icon %s, method %s%s", have, IDX[ix], FAV[fv], METH[meth], tls ? ", TLS" : "");
  c.one([&] {
    wipe(WWW()); mkdirs(WWW() + "/sub"); for (int f = 0; f < 7; f++) if (have >> f & 1) put_file(WWW() + FILES[f], body_of(f));
    auto find = [&](str p) { if (p.empty() || p[0] != '/') p = "/" + p; for (int f = 0; f < 7; f++) if ((have >> f & 1) && p == FILES[f]) return f; return -1; };
    begin(); setup_globals(tls); if (tls) tls_files(); strcpy(WWW_INDEX, IDX[ix]); strcpy(FAVICON_URL, FAV[fv]); serve(1); run(); str sig;
    for (int u = 0; u < NU; u++) {
      str url = URLS[u], p = url.substr(0, url.find('?')); size_t l0 = E->opens.size();
      Conn *q = ask(req(str(METH[meth]) + " " + url + " HTTP/1.1")); NOMISUSE; Resp r = parse_response(q->out); if (!r.ok) return bad("%s %s: %s", METH[meth], url.c_str(), r.err.c_str()); (void)l0;
      sig += strf("%d,", r.status);
      if (meth) { if (r.status != 400) return bad("%s %s is answered with %d instead of 400", METH[meth], url.c_str(), r.status); continue; }
      str t = p == "/" || p == "/index.html" ? IDX[ix] : p == "/favicon.ico" ? FAV[fv] : p.back() == '/' ? p + "index.html" : p;
      int f = find(t); if (f < 0) { f = find(IDX[ix]); }
      if (f < 0) { if (r.status != 404) return bad("%s: status %d instead of 404", url.c_str(), r.status); continue; }
      Result x = check_file(q, body_of(f), mime_of(FILES[f]), url); if (!x.ok) return x;
    }
    c.outcome(fnv(sig)); return good();
  });
  if (i % 1501 == 0) c.sample(c.desc);
}
// ---- missing files: every length of the path
static void s_missing(long i, Ctx &c) {
  Mix m(i); int tls = m(2), kind = m(5), idx = m(3), qs = m(2); long n = m.n + 1; str name = kind == 4 ? pat(n, 3) : pat(n); if (name == "api") return;
  str p = kind == 0 ? "/" + name : kind == 1 ? "/" + name + ".png" : kind == 2 ? "/" + name + "/" : kind == 3 ? "/sub/" + name : "/nodir/" + rep("d/", n / 9) + name; if (p.size() + 4 * qs > 254) return;
  if (sw(p, "/api")) return; c.desc = "GET of the missing " + p + (qs ? "?x=1" : "") + strf(", index page %s%s", idx == 0 ? "present" : idx == 1 ? "absent" : "configured elsewhere", tls ? ", TLS" : "");
  c.one([&] {
    wipe(WWW()); mkdirs(WWW() + "/sub"); put_file(WWW() + "/other.txt", "other"); if (idx == 0) put_file(WWW() + "/index.html", "<the index>"); if (idx == 2) { put_file(WWW() + "/index.html", "<not this one>"); put_file(WWW() + "/sub/start.txt", "the start page"); }
    begin(); setup_globals(tls); if (tls) tls_files(); if (idx == 2) strcpy(WWW_INDEX, "/sub/start.txt"); serve(1); run();
    Conn *k = ask(get_(p + (qs ? "?x=1" : ""))); NOMISUSE; c.outcome(fnv(k->out)); if (idx == 1) { Resp r = parse_response(k->out); if (!r.ok) return bad("%s", r.err.c_str()); if (r.status != 404) return bad("status %d instead of 404", r.status); if (!k->closed) return bad("the connection is not closed"); return good(); }
    return check_file(k, idx == 0 ? "<the index>" : "the start page", idx == 0 ? "text/html" : "text/plain", "the missing file");
  });
  if (i % 1009 == 0) c.sample(c.desc);
}
// ---- long static roots and long configured names
static void s_roots(long i, Ctx &c) {
  Mix m(i); int kind = m(6), tls = m(2), ul = m(6); int n = (int)m.n; static const int UL[] = {0, 40, 100, 180, 230, 249}; str root = WWW(); int want = 120 + n * 3; if (want >= 2 * ROOT_PATH_MAX) return; while ((int)root.size() < want) { int k = std::min(want - (int)root.size() - 1, 100); if (k < 1) break; root += "/" + pat(k, n + k); }
  str p, idx = "/index.html", ico = "/favicon.ico"; int u = UL[ul]; str nm = u > 200 ? pat(u - 200, 4) + "/" + pat(199, 3) : pat(u, 3);
  switch (kind) { case 0: p = "/" + nm + "x"; break; case 1: p = "/" + nm + "d/"; if (p.size() > 244) return; break; case 2: p = "/"; idx = "/" + nm + "i.txt"; break; case 3: p = "/favicon.ico"; ico = "/" + nm + "i.png"; break; case 4: p = "/" + pat(std::min(u, 230), 8) + "missing"; idx = "/" + nm + "i.css"; break; default: p = "/" + nm + ".png"; }
  if (p.size() > 254 || idx.size() >= ROOT_PATH_MAX || ico.size() >= ROOT_PATH_MAX) return; str target = kind == 1 ? p + "index.html" : kind == 2 || kind == 4 ? idx : kind == 3 ? ico : p;
  c.desc = strf("static root of %zu characters, GET of %zu characters (%s), file name of %zu", root.size(), p.size(), kind == 1 ? "folder" : kind == 2 ? "index page" : kind == 3 ? "icon" : kind == 4 ? "missing" : "file", target.size()) + (tls ? ", TLS" : "");
  c.one([&] {
    str d = "data below the long root " + target.substr(0, 10); mkdirs(root + target.substr(0, target.rfind('/'))); put_file(root + target, d); begin(); setup_globals(tls); if (tls) tls_files(); strcpy(WAYUU_STATIC_ROOT, root.c_str()); strcpy(WWW_INDEX, idx.c_str()); strcpy(FAVICON_URL, ico.c_str()); serve(1); run();
    Conn *k = ask(get_(p)); NOMISUSE; c.outcome(fnv(k->out)); Result r = check_file(k, d, mime_of(target), "the file"); ::unlink((root + target).c_str()); return r;
  });
  if (i % 501 == 0) c.sample(c.desc);
}
// ---- files that change between requests
static void s_change(long i, Ctx &c) {
  Mix m(i); int tls = m(2); auto w = word(m.n, 6, 1); str d; for (int x : w) d += strf("%d", x); c.desc = "operations " + d + " (0 write A, 1 write B, 2 delete, 3 folder instead, 4 GET, 5 GET another file)" + (tls ? ", TLS" : "");
  c.one([&] {
    wipe(WWW()); put_file(WWW() + "/index.html", "<index>"); put_file(WWW() + "/other.css", "other"); server(tls); str p = WWW() + "/f.txt", cur; int st = 0; str sig;
    auto get = [&]() -> Result { Conn *q = ask(get_("/f.txt")); sig += q->out; return st == 1 ? check_file(q, cur, "text/plain", "GET after the change") : check_file(q, "<index>", "text/html", "GET of the missing file"); };
    for (int o : w) {
      if (o == 0 || o == 1) { if (st == 2) rmdir(p.c_str()); cur = o ? "B" : "longer content A\n" + binpat(100); put_file(p, cur); st = 1; }
      else if (o == 2) { unlink(p.c_str()); if (st == 2) rmdir(p.c_str()); st = 0; }
      else if (o == 3) { unlink(p.c_str()); mkdirs(p); st = 2; }
      else if (o == 4) { Result r = get(); if (!r.ok) return r; }
      else { Conn *q = ask(get_("/other.css")); Result r = check_file(q, "other", "text/css", "GET of another file"); if (!r.ok) return r; }
    }
    Result r = get(); c.outcome(fnv(sig)); return r;
  });
  if (i % 997 == 0) c.sample(c.desc);
}
// ---- the file changes without changing its size or time stamp
static void s_same_size(long i, Ctx &c) {
  static const int N[] = {1, 64, 101, 1024, 5000, 70000}; Mix m(i); int n = N[m(6)], keep = m(2), idx = m(2), fresh = m(2); auto w = word(m.n, 4, 1); str d; for (int x : w) d += strf("%d", x); c.desc = strf("%s of %d bytes is replaced%s%s, operations %s (0-2 contents, 3 GET another file)", idx ? "index page" : "file", n, fresh ? " by a new file" : " in place", keep ? " with the same time stamp" : "", d.c_str());
  c.one([&] {
    wipe(WWW()); put_file(WWW() + "/index.html", "<index>"); put_file(WWW() + "/other.css", pat(n, 7)); str p = WWW() + (idx ? "/index.html" : "/f.bin"), sig; server(false);
    for (int o : w) {
      if (o == 3) { Conn *q = ask(get_("/other.css")); Result r = check_file(q, pat(n, 7), "text/css", "GET of another file"); if (!r.ok) return r; continue; }
      str cur = binpat(n, 20 + o); if (fresh) unlink(p.c_str()); put_file(p, cur); if (keep) { struct timespec ts[2] = {{1700000000, 5}, {1700000000, 5}}; utimensat(AT_FDCWD, p.c_str(), ts, 0); }
      for (int k = 0; k < 2; k++) { Conn *q = ask(get_(idx ? k ? "/index.html" : "/" : "/f.bin")); sig += q->out.substr(0, 300); Result r = check_file(q, cur, idx ? "text/html" : "application/octet-stream", "GET after the change"); if (!r.ok) return r; }
    }
    c.outcome(fnv(sig)); return good();
  });
  if (i % 997 == 0) c.sample(c.desc);
}
static struct Reg {
  Reg() {
    worker_init = [] { reset_files(); };
    add_suite({"C08", "modes", [](bool) { return 7l * 2 * 3 * 4; }, s_modes, 60, "files with 7 permissions, plain, symbolic and hard links"});
    add_suite({"C08", "sizes", [](bool th) { return (long)sizes(th).size() * 6 * 2 * 3; }, s_sizes, 20, "every file size 0..1100 and around 15 boundaries up to 10 MB x 6 kinds of content x plain/TLS x 3 network behaviours", "every size 0..8400"});
    add_suite({"C08", "large-files", [](bool) { return 9l * 2 * 8 * 12 * 2; }, s_large, 30, "9 file sizes up to 1.1 MB x plain/TLS x one of the first 8 sends takes only 1..65536 bytes"});
    add_suite({"C08", "types", [](bool) { return (long)NEXT * 6 * 6 * 9 * 4; }, s_ext, 20, "46 extensions x 6 folders x 6 names x 9 query strings x plain/TLS x session"});
    add_suite({"C08", "names", [](bool) { return 2l * 3 * (248 + 256); }, s_names, 20, "every URL length up to 254 and every byte in the name, next to files with similar names"});
    add_suite({"C08", "index", [](bool) { return 128l * 5 * 3 * 9 * 2; }, s_index, 20, "all subsets of 7 files x 5 configured index pages x 3 icons x 9 methods x 30 URLs"});
    add_suite({"C08", "missing", [](bool) { return 2l * 5 * 3 * 2 * 253; }, s_missing, 20, "missing files with every path length up to 254 in 5 forms x index page present, absent or configured elsewhere x query x plain/TLS"});
    add_suite({"C08", "long-roots", [](bool) { return 72l * 132; }, s_roots, 20, "static roots of up to 511 characters x file, folder, index page, icon and missing-file names up to 254 characters"});
    add_suite({"C08", "changes", [](bool th) { return 2 * npaths(6, th ? 6 : 4, 1); }, s_change, 20, "all sequences of 1..4 operations (write, delete, replace by folder, GET) and a final GET", "1..6 operations"});
    add_suite({"C08", "same-size", [](bool th) { return 48 * npaths(4, th ? 5 : 3, 1); }, s_same_size, 20, "all sequences of 1..3 replacements of a file or the index page by another of the same size, with and without equal time stamp, in place or by a new file", "1..5 replacements"});
    conc_suite("C08", {"index", "favicon", "text file", "binary file", "empty file", "folder", "deep file", "missing file"}, {}, true);
  }
} reg;
