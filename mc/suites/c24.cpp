// C24: command-line options configure the server as documented.
#include "common.h"
static const strs &words() {
  static strs v; if (v.empty()) { str r1 = SCR + "/site1", r2 = SCR + "/site2"; v = {"-d", "-f", "-b\x1f" "10.1.2.3", "-b0.0.0.0", "-p\x1f" "8080", "-p1", "-r\x1f" + r1, "-r" + r2, "-h", "-v", "-x", "-p\x1f" "0", "-b", "-fd",
    "-p\x1f" "65535", "-p\x1f" "65536", "-p\x1f" "abc", "-p\x1f-5", "-p", "-r", "-b\x1f" + rep("1", 40), "-b\x1fnowhere", "-r\x1f" + SCR + "/missing", "-r\x1f" + SCR + "/" + rep("l", 300), "-r\x1f" + SCR + "/site1/www/a.txt", "-fp\x1f" "99", "-r\x1f" + r1 + "/", "-r\x1fsite3", "-dv", "-fh", "-dq", "-r\x1f/etc/wayuu", "-b\x1f" "255.255.255.254", "-p\x1f" "443"}; }
  return v;
}
// what the command line asks for
struct Want { bool debug = false, tls = true; str addr = "127.0.0.1", root; int port = 4443; int end = 0; /* 0 serves, 1 success, 2 failure, 3 unspecified */ bool help = false, version = false; str certs; };
static bool quad(const str &s) { strs p = split_on(s, '.'); if (p.size() != 4) return false; for (auto &x : p) { if (x.empty() || x.size() > 3 || (x.size() > 1 && x[0] == '0')) return false; for (char c : x) if (c < '0' || c > '9') return false; if (atoi(x.c_str()) > 255) return false; } return true; }
static bool dir_there(const str &p) { str q = p[0] == '/' ? p : SCR + "/cwd/" + p; if (sw(q, "/etc/wayuu")) q = SCR + "/etcwayuu" + q.substr(10); while (q.size() > 1 && q.back() == '/') q.pop_back(); return q == SCR + "/site1" || q == SCR + "/site2" || q == SCR + "/cwd/site3" || q == SCR + "/etcwayuu"; }
static Want want_of(const strs &av) {
  Want w; w.root = "/etc/wayuu";
  for (size_t k = 0; k < av.size(); k++) {
    const str &a = av[k]; if (a.size() < 2 || a[0] != '-') { w.end = 3; return w; }
    for (size_t j = 1; j < a.size(); j++) {
      char o = a[j]; if (o == 'd') w.debug = true; else if (o == 'f') w.tls = false; else if (o == 'h') { w.help = true; w.end = 1; return w; } else if (o == 'v') { w.version = true; w.end = 1; return w; }
      else if (o == 'b' || o == 'p' || o == 'r') {
        str v; if (j + 1 < a.size()) v = a.substr(j + 1); else if (k + 1 < av.size()) v = av[++k]; else { w.end = 2; return w; }
        if (o == 'b') { if (v.size() >= 24) { w.end = 2; return w; } w.addr = v; }
        if (o == 'p') { if (v.empty() || v.find_first_not_of("-0123456789") != str::npos || v.size() > 6 || atoi(v.c_str()) < 1 || atoi(v.c_str()) > 65535) { w.end = 2; return w; } w.port = atoi(v.c_str()); }
        if (o == 'r') { if (!dir_there(v)) { w.end = 2; return w; } w.root = v; }
        break;
      } else { w.end = 2; return w; }
    }
  }
  if (!quad(w.addr)) w.end = 2; return w;
}
static str host(const str &p) { return sw(p, "/etc/wayuu") ? SCR + "/etcwayuu" + p.substr(10) : p[0] == '/' ? p : SCR + "/cwd/" + p; }
static void sites() {
  static bool done = false; wipe(SCR + "/log"); if (done) return; done = true; int k = 0;
  for (auto &r : {SCR + "/etcwayuu", SCR + "/site1", SCR + "/site2", SCR + "/cwd/site3"}) { put_file(r + "/www/a.txt", strf("content %d", k)); put_file(r + "/www/index.html", strf("index %d", k)); put_file(r + "/etc/deny", strf("10.9.9.%d\n", k)); put_file(r + "/etc/limits", strf("/lim%d, 0, 0, 10\n", k)); put_file(strf("%s/www/lim%d", r.c_str(), k), "limited"); put_file(strf("%s/www/lim%d", r.c_str(), (k + 1) % 4), "not limited"); if (k != 2) { put_file(r + "/ssl/cert.pem", "c"); put_file(r + "/ssl/key.pem", "k"); } k++; }
}
static int site_no(const str &root) { str h = host(root); while (h.back() == '/') h.pop_back(); return h == SCR + "/etcwayuu" ? 0 : h == SCR + "/site1" ? 1 : h == SCR + "/site2" ? 2 : 3; }
static void start_main(const strs &args, strs *keep) {
  static std::vector<std::unique_ptr<Buf>> bufs; static std::vector<char *> av; bufs.clear(); av.clear(); strs all = {"wayuu"}; all.insert(all.end(), args.begin(), args.end()); for (auto &a : all) { bufs.emplace_back(new Buf(Buf::z(a))); av.push_back(bufs.back()->p); } av.push_back(nullptr);
  seen.clear(); on_handler = nullptr; on_filter = nullptr; E->max_workers = 1; optind = 0; opterr = 0; optarg = nullptr; optopt = '?'; launch([] { exit(0 * wayuu_main((int)av.size() - 1, av.data())); }); run();
}
static str log_text() { str t; for (auto &l : E->main_log) t += l.data; return t; }
static Result ended(const Want &w) {
  if (!E->exited) return bad("the program does not end"); if (E->listens || E->listening) return bad("the program serves before it ends"); if (w.end == 1 && E->exit_code) return bad("ends with status %d instead of success", E->exit_code); if (w.end == 2 && !E->exit_code) return bad("ends with success instead of a failure status");
  if (w.help) for (auto o : {"-b", "-p", "-r", "-d", "-f"}) if (!has(E->stdout_text, o)) return bad("the usage text does not mention %s: %s", o, esc(E->stdout_text).c_str()); if (w.version && !has(E->stdout_text, WAYUU_WS_VERSION)) return bad("the version is not printed: %s", esc(E->stdout_text).c_str()); return good();
}
static Conn *get(const Want &w, const str &url, const str &ip) { Conn *q = client(ip, get_(url), END_EOF); run(); return q; }
static Result serves(const Want &w, Ctx &c) {
  NOMISUSE; if (!E->listening) return bad("the server does not listen"); if (E->binds != 1) return bad("%d sockets bound", E->binds); if (E->bind_addr != w.addr) return bad("bound to address %s instead of %s", E->bind_addr.c_str(), w.addr.c_str()); if (E->bind_port != w.port) return bad("bound to port %d instead of %d", E->bind_port, w.port);
  int k = site_no(w.root); Conn *q = get(w, "/a.txt", "10.0.0.1"); NOMISUSE;
  if (w.tls) { if (!q->tls_ok || !q->raw_out.empty() || q->raw_in) return bad("the request was not handled over TLS"); bool a = false, b = false; for (auto &f : E->ssl_files) { str h = host(f); size_t p; while ((p = h.find("//")) != str::npos) h.erase(p, 1); str base = host(w.root); while (base.back() == '/') base.pop_back(); if (h == base + "/ssl/cert.pem") a = true; else if (h == base + "/ssl/key.pem") b = true; else return bad("certificate or key taken from %s", f.c_str()); } if (!a || !b) return bad("certificate or key of the root folder not used"); } else if (q->tls_session) return bad("TLS was used although -f was given");
  Resp r = parse_response(q->out); if (!r.ok || r.status != 200 || r.body != strf("content %d", k)) return bad("the static file of root folder %s was answered %s", w.root.c_str(), esc(q->out, 200).c_str());
  r = parse_response(get(w, "/", "10.0.0.2")->out); if (r.status != 200 || r.body != strf("index %d", k)) return bad("the index page was answered %s", esc(r.body).c_str());
  for (int d = 0; d < 4; d++) { q = get(w, "/a.txt", strf("10.9.9.%d", d)); bool ok = status_of(q) == 200; if (ok != (d != k)) return bad("an address in the deny list of site %d was %s", d, ok ? "served" : "refused"); q = get(w, strf("/lim%d", d), "10.0.0.1"); int st = status_of(q); if (d == k && st != 429) return bad("the limits of the root folder are not applied: status %d", st); if (d == (k + 1) % 4 && st != 200) return bad("a path limited in another root folder is answered %d", st); }
  NOMISUSE; bool dbg = has(log_text(), "DEBUG"); if (dbg != w.debug) return bad(dbg ? "debug output without -d" : "no debug output with -d"); if (!has(log_text(), "INFO")) return bad("no information is logged"); return good();
}
static Result cmdline(const strs &args, Ctx &c) {
  Want w = want_of(args); if (w.end == 3) return good(); begin(); sites(); start_main(args, nullptr);
  if (w.end == 0 && w.tls && site_no(w.root) == 2) { if (!E->exited || !E->exit_code || E->listens) return bad("starts without certificate and key (exit status %d)", E->exit_code); c.outcome(1); return good(); }
  c.outcome(fnv(strf("%d%d%d%s%d%s%d%d", w.end, w.debug, w.tls, w.addr.c_str(), w.port, w.root.c_str(), w.help, w.version))); return w.end ? ended(w) : serves(w, c);
}
static strs expand(const std::vector<int> &w) { strs a; for (int x : w) for (auto &s : split_on(words()[x], '\x1f')) a.push_back(s); return a; }
static void s_words(long i, Ctx &c, int vocab) { auto a = expand(word(i, vocab, 0)); c.desc = "wayuu"; for (auto &x : a) c.desc += " " + (x.size() > 60 ? x.substr(0, 57) + "..." : x); c.one([&] { return cmdline(a, c); }); if (i % 5003 == 0) c.sample(c.desc); }
static void s_ports(long i, Ctx &c) { long p = i - 300; Mix m(i); str v = strf("%ld", p); if (p > 66000) { static const strs O = {"", " ", "x", "99999999999999", "4294967297", "4294971739", "-65000", "1e3", "99999", "655360"}; v = O[p - 66001]; } c.desc = "-p " + v; c.one([&] { begin(); sites(); start_main({"-f", "-p", v}, nullptr); bool ok = p >= 1 && p <= 65535; c.outcome(ok ? p : 0); if (ok) { NOMISUSE; if (!E->listening || E->bind_port != p || E->bind_addr != "127.0.0.1") return bad("bound to %s:%d", E->bind_addr.c_str(), E->bind_port); return good(); } Want w; w.end = 2; return ended(w); }); }
static void s_portforms(long i, Ctx &c) {   // other notations: refused or taken as the decimal number
  static const char *P[] = {"0%ld", "00%ld", "000000%ld", "0x%lx", "0X%lX", "%lx", "%lo", "0%lo", "+%ld", " %ld", "%ld ", "%ld.", "%ld,1", "%ld.0", "%lde0", "%ldx", "-%ld", "%ld-%ld", "%ld\n", "\t%ld", "0b%ld", "#%ld", "=%ld", ":%ld", "%ldk", "%ld:80"}; Mix m(i); int f = m(26); long n = m.n < 2200 ? m.n : 2200 + (m.n - 2200) * 317; str v = strf(P[f], n, n); c.desc = "-p " + esc(v);
  c.one([&] { begin(); sites(); start_main({"-f", "-p", v}, nullptr); bool digits = !v.empty(); for (char x : v) if (x < '0' || x > '9') digits = false; bool lax = !digits && (f >= 8 && (f == 8 || f == 9 || f == 19)); long p = digits || lax ? atol(v.c_str()) : 0; bool may = p >= 1 && p <= 65535; c.outcome(E->listening ? E->bind_port : 0);
    if (E->listening) { NOMISUSE; if (!may) return bad("it is taken as port %d", E->bind_port); if (E->bind_port != p) return bad("bound to port %d instead of %ld", E->bind_port, p); return good(); } if (may && digits && v[0] != '0') return bad("a usable port is refused"); Want w; w.end = 2; return ended(w); });
}
static void s_addrs(long i, Ctx &c) {
  static const int Q[] = {0, 1, 9, 10, 99, 100, 127, 200, 254, 255}; Mix m(i); str v; if (i < 10000) v = strf("%d.%d.%d.%d", Q[m(10)], Q[m(10)], Q[m(10)], Q[m(10)]); else { int k = (int)i - 10000; static const strs O = {"", "x", "localhost", "256.1.1.1", "1.2.3.4.5", "1.2.3.4x", "::1", "*", "10.0.0.", "..."}; v = k < 10 ? O[k] : rep("9", k); } if (v == "255.255.255.255") return; c.desc = "-b " + v.substr(0, 60);
  c.one([&] { begin(); sites(); start_main({"-b", v, "-f"}, nullptr); c.outcome(fnv(v)); if (quad(v)) { NOMISUSE; if (!E->listening || E->bind_addr != v || E->bind_port != 4443) return bad("bound to %s:%d", E->bind_addr.c_str(), E->bind_port); return good(); } Want w; w.end = 2; return ended(w); });
}
static void s_roots(long i, Ctx &c) {
  Mix m(i); int tls = m(2), kind = m(3); int n = (int)m.n; c.desc = strf("-r with a path of %d characters, %s%s", n, kind == 0 ? "deep folder" : kind == 1 ? "slashes" : "missing folder", tls ? "" : ", -f");
  c.one([&] { begin(); sites(); str p; if (kind == 0) { p = SCR + "/L"; while ((int)p.size() < n) { p += "/"; int left = n - (int)p.size(); p += rep("q", std::min(left, 90)); } if ((int)p.size() != n || p.back() == '/') return good(); } else if (kind == 1) { p = SCR + "/site1"; if ((int)p.size() > n) return good(); p += rep("/", n - p.size()); } else { p = SCR + "/M"; if ((int)p.size() > n) return good(); p += rep("m", n - p.size()); }
    if (kind == 0) { mkdirs(p); put_file(p + "/www/a.txt", "deep content"); put_file(p + "/ssl/cert.pem", "c"); put_file(p + "/ssl/key.pem", "k"); } strs a = {"-r", p}; if (!tls) a.push_back("-f"); start_main(a, nullptr); Result r = good(); Want w; w.end = 2; c.outcome(i); c.count(E->exited ? "refused" : "served");
    if (kind == 2 || E->exited) r = ended(w); if (kind != 2 && n < 200 && E->exited) r = bad("refused although the folder exists"); else if (!E->exited) { Conn *q = client("10.0.0.1", get_("/a.txt"), END_EOF); run(); str m = misuse(); Resp x = parse_response(q->out); if (!m.empty()) r = bad("%s", m.c_str()); else if (x.status != 200 || x.body != (kind == 0 ? "deep content" : "content 1")) r = bad("the file was answered %s", esc(q->out).c_str()); else if (q->tls_ok != (bool)tls) r = bad("TLS is %d", q->tls_ok); } if (kind == 0) wipe(SCR + "/L"); return r; });
}
static void s_rootnames(long i, Ctx &c) {   // odd characters in the path of the root folder
  static const strs N = {" ", "  ", "a b", " a", "a ", "a  b c", "a.b", "..a", "a..", "...", ".", "%", "%s", "%d%n", "a%20b", "=", "a=b", "-", "-d", "-f", "--", "~", "~root", "$HOME", "`id`", "$(x)", "'", "\"", "\\", "a\\b", "\t", "\n", "\r", "*", "?", "[a]", "{a,b}", ";", "&", "|", "<", ">", "#", "!", "@", "^", "(", ")", ",", ":", "+", "\xc3\xa9", "\xff", "\x01", "\x7f", "www", "etc", "wayuu", "ssl", "site1", "SITE1", "etcwayuu", "0", "root", "tmp"};
  Mix m(i); int n = (int)N.size(), tls = m(2), joined = m(2), rel = m(2), slash = m(2), dec = m(3); str a = N[m(n)], b = m.n ? "/" + N[m.n - 1] : ""; if (m.n > n) return; if (dec == 1) a = "x" + a; if (dec == 2) a += "y"; if (a == "." || b == "/.") return; str p = (rel ? "" : SCR + "/R/") + a + b + (slash ? "/" : ""); c.desc = strf("root folder %s%s", esc(p).c_str(), tls ? "" : ", -f");
  if (rel && (sw(a, "site") || sw(a, "-") )) return;
  c.one([&] { begin(); sites(); wipe(SCR + "/R"); str h = rel ? SCR + "/cwd/" + a : SCR + "/R/" + a; mkdirs(h + b); str base = h + b; put_file(base + "/www/a.txt", "this content"); put_file(base + "/etc/deny", "10.9.9.7\n"); put_file(base + "/etc/limits", "/lim0, 0, 0, 10\n"); put_file(base + "/ssl/cert.pem", "c"); put_file(base + "/ssl/key.pem", "k");
    strs av; if (joined) av.push_back("-r" + p); else { av.push_back("-r"); av.push_back(p); } if (!tls) av.push_back("-f"); start_main(av, nullptr); c.outcome(fnv(p));
    auto check = [&]() -> Result { NOMISUSE; if (E->exited || !E->listening) return bad("refused although the folder exists: %s", esc(log_text(), 300).c_str()); Conn *q = client("10.0.0.1", get_("/a.txt"), END_EOF); run(); NOMISUSE; Resp r = parse_response(q->out); if (!r.ok || r.status != 200 || r.body != "this content") return bad("the file was answered %s", esc(q->out, 200).c_str()); if (q->tls_ok != (bool)tls) return bad("TLS is %d", q->tls_ok); q = client("10.9.9.7", get_("/a.txt"), END_EOF); run(); if (status_of(q) == 200) return bad("the deny list of the folder is not used"); q = client("10.0.0.1", get_("/lim0"), END_EOF); run(); if (status_of(q) != 429) return bad("the limits of the folder are not used: %s", esc(q->out, 60).c_str()); NOMISUSE; str pp = p; while (pp.size() > 1 && pp.back() == 47) pp.pop_back(); for (auto &f : E->ssl_files) if (!sw(f, pp)) return bad("certificate or key taken from %s", esc(f).c_str()); return good(); };
    Result r = check(); wipe(h); ::rmdir(h.c_str()); wipe(SCR + "/R"); return r; });
}
static void s_certs(long i, Ctx &c) { Mix m(i); int cert = m(2), key = m(2), f = m(2), d = m(2), r = m(2); c.desc = strf("certificate %s, key %s%s%s", cert ? "there" : "missing", key ? "there" : "missing", f ? ", -f" : "", r ? ", given root" : ", default root"); c.one([&] { begin(); str base = r ? SCR + "/site9" : SCR + "/etcwayuu"; wipe(base); put_file(base + "/www/a.txt", "nine"); if (cert) put_file(base + "/ssl/cert.pem", "c"); if (key) put_file(base + "/ssl/key.pem", "k"); strs a; if (f) a.push_back("-f"); if (r) { a.push_back("-r"); a.push_back(base); } if (d) a.push_back("-d"); start_main(a, nullptr); c.outcome(i); Result x = good(); if (f || (cert && key)) { str mm = misuse(); if (!mm.empty()) x = bad("%s", mm.c_str()); else { Conn *q = ask(get_("/a.txt")); if (status_of(q) != 200 || q->tls_ok == (bool)f) x = bad("answered %s", esc(q->out).c_str()); } } else { Want w; w.end = 2; x = ended(w); } if (r) { wipe(base); ::rmdir(base.c_str()); } else wipe(base); return x; }); }
static struct Reg {
  Reg() {
    add_suite({"C24", "command-lines", [](bool th) { return npaths(34, th ? 4 : 3); }, [](long i, Ctx &c) { s_words(i, c, 34); }, 60, "all command lines of 0..3 of 34 option words (valid, joined, invalid, incomplete); each server checked for address, port, static content, lists, limits, certificates and log level", "0..4 words"});
    add_suite({"C24", "command-lines-4", [](bool th) { return npaths(14, th ? 5 : 4); }, [](long i, Ctx &c) { s_words(i, c, 14); }, 60, "all command lines of 0..4 of 14 option words", "0..5 words"});
    add_suite({"C24", "ports", [](bool) { return 66311l; }, s_ports, 60, "every port number from -300 to 66000 and 10 other values"});
    add_suite({"C24", "port-notations", [](bool) { return 26l * 2400; }, s_portforms, 60, "26 notations (leading zeros, octal, hexadecimal, signs, blanks, suffixes) of 2400 numbers: refused or taken as the decimal number"});
    add_suite({"C24", "addresses", [](bool) { return 10310l; }, s_addrs, 60, "10000 IPv4 addresses, 10 malformed ones and values of up to 309 characters"});
    add_suite({"C24", "root-paths", [](bool) { return 6l * 420; }, s_roots, 60, "root folders whose path has up to 419 characters, existing and missing"});
    add_suite({"C24", "root-names", [](bool) { return 48l * 65 * 66; }, s_rootnames, 60, "root folders named with each of 65 odd names (blanks, dots, %, =, -, quotes, control and non-ASCII bytes), alone and followed by a second one, absolute and relative, with and without a final slash, -f or TLS"});
    add_suite({"C24", "certificates", [](bool) { return 32l; }, s_certs, 60, "certificate and key there or missing x -f x root folder x -d"});
  }
} reg;
