// C14: multipart forms are decoded exactly.
#include "conc.h"
#include <sys/stat.h>
#include <unistd.h>
#include <errno.h>

struct Part { str head, data; bool valid = true, file = false; str name, filename; bool raw = false; };   // raw: head is the whole text between boundary and next delimiter
static Part text(const str &n, const str &v) { Part p; p.head = "Content-Disposition: form-data; name=\"" + n + "\""; p.data = v; p.name = n; return p; }
static Part file(const str &n, const str &fn, const str &v, const str &extra = "Content-Type: application/octet-stream") { Part p; p.head = "Content-Disposition: form-data; name=\"" + n + "\"; filename=\"" + fn + "\""; if (!extra.empty()) p.head += "\r\n" + extra; p.data = v; p.file = true; p.name = n; p.filename = fn; return p; }
static Part broken(const str &raw) { Part p; p.raw = true; p.valid = false; p.head = raw; return p; }
static Part nohead(const str &head, const str &data) { Part p; p.valid = false; p.head = head; p.data = data; return p; }
static str build(const std::vector<Part> &ps, const str &b, bool fin = true, const str &pre = "", const str &post = "\r\n") {
  str o = pre.empty() ? "" : pre + "\r\n"; o += "--" + b;
  for (auto &p : ps) { if (p.raw) o += "\r\n" + p.head; else o += "\r\n" + p.head + "\r\n\r\n" + p.data; o += "\r\n--" + b; }
  if (fin) return o + "--" + post;
  return o.substr(0, o.size() - b.size() - 4);        // the closing delimiter is missing
}
// compares the form the handler saw with the parts
static Result decode(const str &form, const std::vector<Part> &ps, bool fin, const str &body_tail, bool upload_ok = true) {
  size_t at = 0; bool first = true; std::vector<const Part *> v; for (auto &p : ps) if (p.valid) v.push_back(&p); if (!fin && !ps.empty() && ps.back().valid) v.pop_back();
  auto eat = [&](const str &x) { if (form.compare(at, x.size(), x)) return false; at += x.size(); return true; };
  for (auto p : v) {
    if (!first && !eat("&")) return bad("before field %s the form data continues with %s", esc(p->name, 40).c_str(), esc(form.substr(at), 80).c_str());
    first = false;
    if (!p->file) { if (!eat(p->name + "=" + p->data)) return bad("field %s=%s is missing, the form data continues with %s", esc(p->name, 60).c_str(), esc(p->data, 60).c_str(), esc(form.substr(at), 80).c_str()); continue; }
    str fn = p->filename; size_t at0 = at; if (!eat(p->name + "=" + fn + "&tmpfile=")) { at = at0; if (fn.size() < 255 || !eat(p->name + "=" + fn.substr(0, 255) + "&tmpfile=")) return bad("file %s=%s is missing, the form data continues with %s", esc(p->name, 60).c_str(), esc(fn, 60).c_str(), esc(form.substr(at0), 80).c_str()); }
    size_t e = form.find('&', at); str id = form.substr(at, e == str::npos ? str::npos : e - at); at += id.size();
    if (id.empty() || id.find('/') != str::npos) return bad("temporary file id is '%s'", esc(id, 60).c_str());
    str d; if (!get_file(SCR + "/upload/" + id, d)) return bad("the temporary file %s does not exist", esc(id, 60).c_str());
    if (d != p->data) { size_t k = 0; while (k < d.size() && k < p->data.size() && d[k] == p->data[k]) k++; return bad("the temporary file of %s has %zu bytes instead of %zu, different from offset %zu", esc(p->name, 40).c_str(), d.size(), p->data.size(), k); }
  }
  (void)upload_ok;
  if (!body_tail.empty()) { if (!first && !eat("&")) return bad("no & before the path parameter: %s", esc(form.substr(at), 80).c_str()); if (!eat(body_tail)) return bad("the path parameter is not delivered: %s", esc(form.substr(at), 80).c_str()); }
  if (at != form.size()) return bad("unexpected further form data: %s", esc(form.substr(at), 80).c_str());
  return good();
}
static str ctype_of(const str &b, int k) { switch (k) { case 0: return "multipart/form-data; boundary=" + b; case 1: return "multipart/form-data; boundary=\"" + b + "\""; case 2: return "Multipart/Form-Data; Boundary=" + b; case 3: return "multipart/form-data; charset=utf-8; boundary=" + b; case 4: return "multipart/form-data; boundary=" + b + "; charset=utf-8"; default: return "multipart/form-data;boundary=\"" + b + "\"; x=y"; } }
static void start(bool tls = false, unsigned char fill = 0) { wipe(SCR + "/upload"); begin(); E->fill = fill; setup_globals(tls); if (tls) tls_files(); route("POST:/f", 0); route("POST:/p/{id}", 1); route("PUT:/f", 0); serve(1); run(); }
static Result post(const std::vector<Part> &ps, const str &b, int ct, bool param, bool fin, str &sig, const str &pre = "", const str &tail = "\r\n", const char *method = "POST") {
  size_t n0 = seen.size(); str body = build(ps, b, fin, pre, tail);
  Conn *q = client("10.0.0.1", req(str(method) + (param ? " /api/p/77" : " /api/f") + " HTTP/1.1", {"Host: h", "Content-Type: " + ctype_of(b, ct), strf("Content-Length: %zu", body.size())}, body), END_BLOCK); run(); NOMISUSE;
  if (!E->escapes.empty()) return bad("a file outside the upload folder was accessed: %s", esc(E->escapes[0]).c_str());
  if (seen.size() != n0 + 1 || status_of(q) != 200) return bad("the request is not handled: %s", esc(q->out, 60).c_str());
  sig += seen.back().form; return decode(seen.back().form, ps, fin, param ? "id=77" : "");
}
// ---- sequences of parts
static const std::vector<Part> &kinds() {
  static std::vector<Part> v; if (!v.empty()) return v;
  v.push_back(text("t", "value one")); v.push_back(text("e", "")); v.push_back(file("f", "n.txt", "file\r\ndata")); v.push_back(file("g", "m.bin", allbytes())); v.push_back(file("h", "", "", "")); v.push_back(text("m", "a\r\n\r\nb; filename=\"x\"; name=\"y\"&c=d\r\n--Xy"));
  v.push_back(file("k", "a b&c=d.txt", str("\0\0--XyZ\r\n--Xy\r\n\r\n", 18)));
  v.push_back(nohead("Content-Disposition: form-data; filename=\"q\"", "no name")); v.push_back(broken("Content-Disposition: form-data; name=\"nodata\"\r\n")); v.push_back(nohead("Content-Disposition: form-data; name=\"open", "open name")); v.push_back(nohead("Content-Disposition: form-data; name=\"uf\"; filename=\"open", "open filename")); v.push_back(broken("")); v.push_back(nohead("X-Other: form", "data name=\"z\"")); v.push_back(broken("just text name=\"w\"")); return v;
}
static const strs BND = {"XyZ", "-", "----WebKitFormBoundary7MA4YWxkTrZu0gW", "0123456789012345678901234567890123456789012345678901234567890123456789", "a=b?c"};
static void s_seq(long i, Ctx &c) {
  Mix m(i); int b = m(5), param = m(2), fin = m(2), tls = m(2); auto w = word(m.n, 14); if (tls && (b || param)) return; std::vector<Part> ps; c.desc = "parts"; for (int x : w) { ps.push_back(kinds()[x]); c.desc += strf(" %d", x); } if (!fin && ps.empty()) return; c.desc += strf(", boundary %s%s%s%s", BND[b].c_str(), fin ? "" : ", final boundary missing", param ? ", route with parameter" : "", tls ? ", TLS" : "");
  if (b == 1) for (auto &p : ps) if (has("\r\n\r\n" + p.data, "\r\n--")) return;   // the data would contain the delimiter
  c.one([&] { start(tls); str sig; Result r = post(ps, BND[b], 0, param, fin, sig); c.outcome(fnv(sig)); return r; });
  if (i % 9001 == 0) c.sample(c.desc);
}
// ---- sizes
static std::vector<int> lens(bool th) { std::vector<int> v; for (int k = 0; k <= (th ? 5000 : 700); k++) v.push_back(k); for (int b : {1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097, 8191, 8192, 16384, 30000, 65535, 65536, 131072}) v.push_back(b); return v; }
static void s_sizes(long i, Ctx &c) {
  auto L = lens(c.thorough); Mix m(i); int n = L[m((int)L.size())], kind = m(4), lay = m(5), fill = m(2);
  c.desc = strf("data of %d bytes, content %d, layout %d", n, kind, lay);
  c.one([&] {
    start(false, fill ? 0xff : 0); str sig, d = kind == 0 ? binpat(n, 5) : kind == 1 ? pat(n) : kind == 2 ? str(n, '\r') : rep("\r\n-", n / 3 + 1).substr(0, n); if (lay < 2) for (auto &x : d) if (!x) x = 'n'; std::vector<Part> ps;
    if (lay == 0) ps = {text("t", d)}; else if (lay == 1) ps = {text("a", "1"), text("t", d), text("b", "2")}; else if (lay == 2) ps = {file("f", "x", d)}; else if (lay == 3) ps = {text("a", "1"), file("f", "x", d), file("g", "y", d + "!"), text("b", "2")}; else ps = {file("f", "x", d), file("g", "y", "small"), file("h", "z", d)};
    Result r = post(ps, "BoUnD", n % 6, lay == 3, true, sig); c.outcome(fnv(sig)); return r;
  });
  if (i % 2001 == 0) c.sample(c.desc);
}
// ---- data that resembles the boundary
static const strs NB = {"\r", "\n", "\r\n", "-", "--", "BB", "B", "x", "--BB"};
static void s_near(long i, Ctx &c) {
  Mix m(i); int f = m(2); auto w = word(m.n, 9); str d; for (int x : w) d += NB[x]; str full = "h\r\n\r\n" + d + "\r\n--BB"; if (full.find("\r\n--BB") != full.size() - 6) return;
  c.desc = "data " + esc(d) + (f ? " in a file" : " in a field"); c.one([&] { start(); str sig; Result r = post({text("a", "1"), f ? file("d", "fn", d, "") : text("d", d), text("z", "9")}, "BB", 0, false, true, sig); c.outcome(fnv(sig)); return r; });
  if (i % 9001 == 0) c.sample(c.desc);
}
// ---- a form that is never terminated, whatever its data looks like; parameters and headers that only resemble the known ones
static void s_open(long i, Ctx &c) {
  static const strs T = {"\n", "--", "BB", "\r", "\r\n", "-", "x", "\n--BB", "--BB--", "\n--BB--"}; Mix m(i); int f = m(2), lead = m(2); auto w = word(m.n, 10); str d; for (int x : w) d += T[x]; if (has("\r\n" + d, "\r\n--BB")) return; c.desc = "unterminated data " + esc(d); std::vector<Part> ps; if (lead) ps.push_back(text("a", "1")); ps.push_back(f ? file("d", "fn", d, "") : text("d", d));
  c.one([&] { start(); str sig; Result r = post(ps, "BB", 0, false, false, sig); c.outcome(fnv(sig)); return r; });
  if (i % 4001 == 0) c.sample(c.desc);
}
static void s_resemble(long i, Ctx &c) {
  static const strs X = {"; xfilename=\"q\"", "; filename*=UTF-8''q", "; size=\"3\"", "; xname=\"q\"", "; FILE=\"q\"", "; file-name=\"q\"", "; filenames=\"q\"", "; filename =\"q\"", "\r\nX-filename: \"q\"", "\r\nX: y; xfilename=\"q\"", "\r\nX: filename=\"q\"", "\r\nX: y; nofilename=\"q\"", "\r\nContent-Length: 1", "\r\nContent-Transfer-Encoding: binary", "\r\nContent-Type: text/plain; name=\"q\"", "; charset=utf-8"};
  Mix m(i); int a = m(16), b = m(17), f = m(3), data = m(3), order = m(2); str v = data == 0 ? "" : data == 1 ? "value" : "a\r\n; filename=\"z\"\r\n\r\nb"; if (a >= 8 && b && b - 1 < 8) return; str x = X[a] + (b ? X[b - 1] : str()); Part p = f ? file("n", "f.txt", v, "") : text("n", v); if (f == 2 && order == 0 && a < 8) { p.head = "Content-Disposition: form-data; name=\"n\"" + X[a] + "; filename=\"f.txt\""; } else p.head += x; c.desc = "part head " + esc(p.head);
  c.one([&] { start(); str sig; Result r = post({text("a", "1"), p, file("g", "h", "data"), text("z", "9")}, "BB", 0, false, true, sig); c.outcome(fnv(sig)); return r; });
  if (i % 401 == 0) c.sample(c.desc);
}
// ---- boundaries
static void s_bound(long i, Ctx &c) {
  Mix m(i); int ct = m(6), kind = m(4), pre = m(3), put = m(2); int n = (int)m.n + 1; str b = kind == 0 ? pat(n) : kind == 1 ? str(n, '-') : kind == 2 ? str(std::max(0, n - 3), '-') + pat(std::min(n, 3)) : rep("'()+_,-./:=?", n / 12 + 1).substr(0, n); if ((kind == 3) && (ct != 1 && ct != 5)) return;
  c.desc = strf("boundary of %d characters, kind %d, header form %d, preamble %d", n, kind, ct, pre); c.one([&] { start(); str sig; Result r = post({text("a", "1"), file("f", "x", "data-" + b.substr(0, n - 1)), text("z", b)}, b, ct, false, true, sig, pre == 0 ? "" : pre == 1 ? "This is the preamble.\r\n" : "-- " + b, pre == 2 ? "\r\nepilogue\r\n" : pre == 1 ? "" : "\r\n", put ? "PUT" : "POST"); c.outcome(fnv(sig)); return r; });
  if (i % 901 == 0) c.sample(c.desc);
}
// ---- lines that differ from the delimiter in one place only
static void s_near_long(long i, Ctx &c) {
  Mix m(i); int how = m(4), where = m(2); int n = 1 + m(250), p = (int)m.n; if (p >= n + 2) return; if (n > 60 && p % 9 && p > 3 && p + 3 < n && !c.thorough) return; str b = pat(n, 4), d = "--" + b; if (how == 0) d[p] = d[p] == '!' ? '"' : '!'; else if (how == 1) d.erase(p, 1); else if (how == 2) d.insert(p, "!"); else { if (d[p] < 'A') return; d[p] ^= 32; } if (sw(d, "--" + b)) return; str v = "before\r\n" + d + "\r\nafter";
  c.desc = strf("boundary of %d characters and a line of the data that differs from the delimiter in place %d (%d)", n, p, how); c.one([&] { start(); str sig; Result r = post({text("a", "1"), where ? file("f", "fn", v) : text("t", v), text("z", "9")}, b, 1, false, true, sig); c.outcome(fnv(sig, i)); return r; });
  if (i % 9001 == 0) c.sample(c.desc);
}
// ---- parts with as little around the data as possible
static void s_small(long i, Ctx &c) {
  Mix m(i); int hd = m(4), nm = m(2), val = m(3), mix = m(2), bnd = m(3); int n = (int)m.n + 1; c.desc = strf("%d smallest parts, head %d, boundary of %d characters, data of %d bytes", n, hd, bnd, val);
  c.one([&] { start(false, 0xff); str sig; std::vector<Part> ps; for (int k = 0; k < n; k++) { Part p; str name = nm ? "f" : strf("%c", 'a' + k % 26); p.name = name; p.data = str("xyz").substr(0, val); if (!mix || k % 2) { p.head = str(hd == 0 ? "Content-Disposition: " : hd == 1 ? "content-disposition:" : hd == 2 ? "" : "X:") + "form-data; name=\"" + name + "\"; filename=\"\""; Part q = file(name, "", p.data, ""); str h = p.head; p = q; p.head = h; } else p.head = str(hd == 0 ? "Content-Disposition: " : hd == 1 ? "content-disposition:" : hd == 2 ? "" : "X:") + "form-data; name=\"" + name + "\""; ps.push_back(p); }
    str b = bnd == 0 ? "b" : bnd == 1 ? "bc" : "b23"; Result r = post(ps, b, 0, false, true, sig, "", ""); c.outcome(fnv(sig)); return r; });
}
// ---- names and file names
static void s_names(long i, Ctx &c) {
  Mix m(i); int kind = m(4), pos = m(2); int n = (int)m.n; if (n == 0 && kind == 0) return; if (n > 320) n = 320 + (n - 320) * 97;
  c.desc = strf("%s of %d characters", kind == 0 ? "field name" : kind == 1 ? "file name" : kind == 2 ? "file field name" : "further part headers", n);
  c.one([&] { start(); str sig; std::vector<Part> ps; str x = pat(n, 6); if (kind == 0) ps = {text(x, "v"), text("b", "w")}; else if (kind == 1) ps = {file("f", x, "data"), text("b", "w")}; else if (kind == 2) { if (!n) return good(); ps = {file(x, "fn.png", "data"), text("b", "w")}; } else { Part p = text("a", "v"); p.head += "\r\nX-Extra: " + x; Part q = text("b", "w"); q.head = "X-Extra: " + x + "\r\n" + q.head; ps = {p, q}; } if (pos) std::swap(ps[0], ps[1]); Result r = post(ps, "bound", 0, pos, true, sig); c.outcome(fnv(sig)); return r; });
}
static void s_bytes(long i, Ctx &c) {
  Mix m(i); int b = m(256), where = m(5); if (b == 0 && where < 4) return; if ((b == '"' || b == 13 || b == 10) && where < 3) return; str x(1, (char)b); c.desc = strf("byte 0x%02x, place %d", b, where);
  c.one([&] { start(); str sig; std::vector<Part> ps = {where == 0 ? text("n" + x + "m", "v") : where == 1 ? file("f", x + "n" + x, "data") : where == 2 ? file("f" + x, "n", "data") : where == 3 ? text("t", x + "v" + x) : file("f", "n", x + "data" + x), text("z", "end")}; Result r = post(ps, "bound", 1, false, true, sig); c.outcome(fnv(sig)); return r; });
}
// ---- number of parts
static void s_count(long i, Ctx &c) {
  Mix m(i); int kind = m(4); int n = (int)m.n; c.desc = strf("%d parts, kind %d", n, kind);
  c.one([&] { start(); str sig; std::vector<Part> ps; for (int k = 0; k < n; k++) ps.push_back(kind == 0 || (kind == 3 && k % 3 == 0) ? text(strf("t%d", k), strf("value %d", k)) : kind == 1 || k % 3 == 1 ? file(strf("f%d", k), strf("n%d", k), strf("content %d", k)) : kind == 2 ? file("f", "n", "", "") : text("x", "")); Result r = post(ps, "b", 0, n % 2, true, sig); c.outcome(fnv(sig)); return r; });
}
// ---- bodies that are not a proper form: nothing is invented, the server keeps working
static const strs MTOK = {"--BB", "\r\n", "--", "Content-Disposition: form-data; name=\"n\"", "; filename=\"f\"", "\r\n\r\n", "data", "\"", "\r\n--BB"};
static void s_malformed(long i, Ctx &c) {
  auto w = word(i, 9); str body; for (int x : w) body += MTOK[x]; c.desc = "body " + esc(body, 200); if (body.empty()) return;
  c.one([&] {
    start(); size_t n0 = seen.size(); Conn *q = ask(req("POST /api/f HTTP/1.1", {"Content-Type: multipart/form-data; boundary=BB", strf("Content-Length: %zu", body.size())}, body)); NOMISUSE; if (seen.size() != n0 + 1 || status_of(q) != 200) return bad("the request is not handled: %s", esc(q->out, 60).c_str()); str f = seen.back().form; c.outcome(fnv(f));
    // only fields whose name occurs in the body can appear
    bool named = has(body, "name=\"n\""); if (!f.empty() && !named) return bad("form data %s for a body without any field", esc(f, 100).c_str()); if (!f.empty() && !sw(f, "n=")) return bad("form data is %s", esc(f, 100).c_str());
    if (!has(body, "--BB") && !f.empty()) return bad("form data %s without any boundary", esc(f, 100).c_str());
    str sig; return post({text("a", "1"), file("f", "x", "yy")}, "BB", 0, false, true, sig);
  });
  if (i % 3001 == 0) c.sample(c.desc);
}
// ---- text before the first delimiter and after the closing one
static void s_around(long i, Ctx &c) {
  Mix m(i); int side = m(3); auto w = word(m.n, 9); str d; for (int x : w) d += NB[x]; if (side != 1 && ("\r\n" + d + "\r\n").find("\r\n--BB") != str::npos) return; str pre = side == 1 ? "" : d + (w.empty() ? "" : " ."), post_ = side == 0 ? "\r\n" : "\r\n" + d;
  if (side != 1 && !w.empty() && m.n % 2) pre = d;
  c.desc = "preamble " + esc(pre) + ", epilogue " + esc(post_); c.one([&] { start(); str sig; Result r = post({text("a", "1"), file("f", "n", "data--BB"), text("z", "9")}, "BB", 0, false, true, sig, pre, post_); c.outcome(fnv(sig)); return r; });
  if (i % 3001 == 0) c.sample(c.desc);
}
// ---- files that are almost the same
static const long PLEN[] = {1, 2, 16, 55, 56, 63, 64, 65, 127, 128, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 8192, 16384, 32768, 65535, 65536, 65537, 70000, 131072, 200000};
static void s_alike(long i, Ctx &c) {
  Mix m(i); long n = PLEN[m(26)]; int where = m(12), how = m(3), kind = m(3); long at = where < 4 ? where * n / 4 : where < 8 ? n - 1 - (where - 4) * (n / 7) : (where - 7) * 4096 - 1; if (at < 0 || at >= n) return;
  str a = kind == 0 ? binpat(n, 9) : kind == 1 ? str(n, 'a') : pat(n, 2), b = a; b[at] ^= 1; c.desc = strf("two files of %ld bytes that differ only at offset %ld, %s", n, at, how == 0 ? "in one form" : how == 1 ? "in two requests" : "in one form with the same names, between equal ones");
  c.one([&] {
    start(); str sig; Result r = good();
    if (how == 0) r = post({file("f", "x", a), file("g", "y", b)}, "BoUnD", 0, false, true, sig);
    else if (how == 1) { r = post({file("f", "x", a)}, "BoUnD", 0, false, true, sig); if (r.ok) r = post({file("f", "x", b)}, "BoUnD", 0, false, true, sig); if (r.ok) r = post({file("f", "x", a)}, "BoUnD", 0, false, true, sig); }
    else r = post({file("f", "x", a), file("f", "x", b), text("t", "v"), file("f", "x", a), file("f", "x", b)}, "BoUnD", 0, false, true, sig);
    c.outcome(fnv(sig)); return r;
  });
  if (i % 301 == 0) c.sample(c.desc);
}
// ---- what an earlier upload of the same content left behind was changed, cut short or never completed
static void s_stale(long i, Ctx &c) {
  static const long N[] = {0, 1, 2, 10, 100, 4095, 4096, 4097, 20000}; Mix m(i); long n = N[m(9)]; int how = m(8), two = m(2); str a = binpat(n, 5); static const char *W[] = {"emptied", "halved", "extended", "overwritten", "made read-only", "removed", "not writable at first", "not openable at first"}; c.desc = strf("file of %ld bytes uploaded twice%s, the first copy was %s", n, two ? " in a form of two" : "", W[how]);
  c.one([&] { start(); str sig; std::vector<Part> f = {file("f", "x", a)}; if (two) f.push_back(file("g", "y", "other" + a)); 
    if (how >= 6) { E->call_fail[how == 6 ? "fwrite" : "fopen_w"][-1] = ENOSPC; str b = build(f, "BoUnD"); client("10.0.0.1", req("POST /api/f HTTP/1.1", {"Content-Type: multipart/form-data; boundary=BoUnD", strf("Content-Length: %zu", b.size())}, b)); run(); E->call_fail.clear(); }
    else { Result r = post(f, "BoUnD", 0, false, true, sig); if (!r.ok) return r; for (auto &x : list_dir(SCR + "/upload")) { str p = SCR + "/upload/" + x, d; get_file(p, d); if (how == 0) put_file(p, ""); if (how == 1) put_file(p, d.substr(0, d.size() / 2)); if (how == 2) put_file(p, d + d + "tail"); if (how == 3) put_file(p, str(d.size(), '?')); if (how == 4) ::chmod(p.c_str(), 0444); if (how == 5) ::unlink(p.c_str()); } }
    Result r = post(f, "BoUnD", 0, false, true, sig); c.outcome(fnv(sig)); return r; });
}
static struct Reg {
  Reg() {
    worker_init = [] { reset_files(); };
    add_suite({"C14", "near-delimiters", [](bool) { return 8l * 250 * 252; }, s_near_long, 30, "boundaries of 1..250 characters and data with a line that differs from the delimiter in one place in 4 ways (every place up to 60 characters, every ninth beyond)", "every place"});
    add_suite({"C14", "smallest-parts", [](bool) { return 144l * 130; }, s_small, 30, "1..130 parts with the shortest heads, names, boundaries and data"});
    add_suite({"C14", "part-sequences", [](bool th) { return 40 * npaths(14, th ? 4 : 3); }, s_seq, 20, "all sequences of 0..3 of 14 kinds of parts (7 of them malformed) x 5 boundaries x final boundary present or not x route kind", "0..4 parts"});
    add_suite({"C14", "sizes", [](bool th) { return (long)lens(th).size() * 40; }, s_sizes, 20, "data sizes 0..700 and 15 larger x 4 contents x 5 layouts", "0..5000"});
    add_suite({"C14", "near-boundaries", [](bool th) { return 2 * npaths(9, th ? 6 : 5); }, s_near, 20, "all data words of up to 5 of 9 tokens made of pieces of the delimiter", "up to 6 tokens"});
    add_suite({"C14", "unterminated", [](bool th) { return 4 * npaths(10, th ? 5 : 4); }, s_open, 20, "forms without closing delimiter, data of 0..4 of 10 tokens", "0..5"});
    add_suite({"C14", "resembling", [](bool) { return 16l * 17 * 18; }, s_resemble, 20, "parts with one or two of 16 parameters and headers that resemble the known ones"});
    add_suite({"C14", "boundaries", [](bool) { return 6l * 4 * 3 * 2 * 120; }, s_bound, 20, "boundaries of 1..120 characters of 4 kinds x 6 header forms x preamble/epilogue"});
    add_suite({"C14", "names", [](bool) { return 8l * 340; }, s_names, 20, "name, file name and extra header lengths 0..320 and up to 2200"});
    add_suite({"C14", "bytes", [](bool) { return 256l * 5; }, s_bytes, 20, "every byte in names, file names and data"});
    add_suite({"C14", "number-of-parts", [](bool) { return 4l * 130; }, s_count, 20, "0..129 parts of 4 mixtures"});
    add_suite({"C14", "malformed-bodies", [](bool th) { return npaths(9, th ? 6 : 5); }, s_malformed, 20, "all bodies of up to 5 of 9 tokens, followed by a proper form", "up to 6 tokens"});
    add_suite({"C14", "preamble-epilogue", [](bool th) { return 3 * npaths(9, th ? 5 : 4); }, s_around, 20, "all words of up to 4 of 9 tokens made of pieces of the delimiter before the first and/or after the closing delimiter", "up to 5 tokens"});
    add_suite({"C14", "left-overs", [](bool) { return 9l * 8 * 2; }, s_stale, 60, "files of 9 sizes uploaded again after the first copy was changed, cut short or could not be written"});
    add_suite({"C14", "similar-files", [](bool) { return 26l * 12 * 9; }, s_alike, 20, "pairs of files of 26 sizes up to 200000 bytes that differ in one byte at up to 12 places, in one form, in two requests, or repeated"});
    uploads_want["multipart"] = "file\r\ndata" + allbytes(0, 255) + "|"; uploads_want["other multipart"] = binpat(70, 3) + "|";
    conc_suite("C14", {"multipart", "multipart item", "multipart empty", "multipart unterminated", "multipart no boundary"}, {{"other multipart", post_("/api/item/55", "--Q\r\nContent-Disposition: form-data; name=\"other\"; filename=\"o.bin\"\r\n\r\n" + binpat(70, 3) + "\r\n--Q\r\nContent-Disposition: form-data; name=\"w\"\r\n\r\nother value\r\n--Q--\r\n", {"Content-Type: multipart/form-data; boundary=Q"})},
      {"same content", post_("/api/echo", "--XyZ\r\nContent-Disposition: form-data; name=\"f\"; filename=\"other.txt\"\r\n\r\nfile\r\ndata" + allbytes(0, 255) + "\r\n--XyZ--\r\n", {"Content-Type: multipart/form-data; boundary=XyZ"})}});
  }
} reg;
