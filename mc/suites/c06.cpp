// C06: address filtering follows the allow and deny lists exactly.
#include <sys/stat.h>
#include <fcntl.h>
#include "common.h"

static bool in_list(const str &text, const str &ip) { for (auto &l : lines_of(text)) { str t = l; while (!t.empty() && issp(t.back())) t.pop_back(); if (t == ip) return true; } return false; }
struct Cfg { bool hd = false; str deny; bool ha = false; str allow; };
static bool oracle(const Cfg &g, const str &ip) { if (g.hd && in_list(g.deny, ip)) return false; return g.ha ? in_list(g.allow, ip) : true; }
static void install(const Cfg &g) {
  if (g.hd) put_file(ETC() + "/deny", g.deny); else unlink((ETC() + "/deny").c_str());
  if (g.ha) put_file(ETC() + "/allow", g.allow); else unlink((ETC() + "/allow").c_str());
}
static Result direct(const Cfg &g, const str &ip, Ctx &c) {
  begin(); setup_globals(); install(g); Buf b = Buf::z(ip); bool r = allowed_address(b); bool w = oracle(g, ip); c.outcome(r * 4 + g.hd * 2 + g.ha);
  if (E->open_files) return bad("a list file is left open");
  if (r != w) return bad("%s is %s, expected %s", ip.c_str(), r ? "allowed" : "denied", w ? "allowed" : "denied");
  return good();
}
// a connection is served (answered by the handler) or closed untouched
static Result one_conn(const Cfg &g, const str &ip, bool served, const char *when) {
  size_t n0 = seen.size(), l0 = E->access_log.size(); int s0 = E->ssl_sessions; (void)s0;
  Conn *q = client(ip, get_("/api/x"), END_BLOCK); run(); NOMISUSE;
  if (!q->closed) return bad("%sthe connection of %s is not closed", when, ip.c_str());
  if (served) { if (status_of(q) != 200 || seen.size() != n0 + 1) return bad("%s%s is not served: %s", when, ip.c_str(), esc(q->out, 60).c_str()); }
  else {
    if (q->read_count || q->raw_in) return bad("%sbytes of the filtered client %s were read", when, ip.c_str());
    if (!q->out.empty() || !q->raw_out.empty()) return bad("%sbytes were sent to the filtered client %s: %s", when, ip.c_str(), esc(q->out, 60).c_str());
    if (seen.size() != n0) return bad("%sthe request of the filtered client %s was executed", when, ip.c_str());
    if (q->tls_session) return bad("%sa TLS session was started with the filtered client %s", when, ip.c_str());
    if (E->access_log.size() != l0) return bad("%sthe filtered client left an access-log record", when);
  }
  return good();
}
static void server(bool tls, int loglevel = LOG_INFO) { begin(); setup_globals(tls); tls_files(); route("GET:/x", 0); serve(1, nullptr, loglevel); }

static const str IP = "10.0.0.5";
static const strs &kinds() { static strs v = {IP, "10.0.0.50", "110.0.0.5", "10.0.0", "", "# " + IP, "10.0.0.6", IP + "\r", IP + "  \t", "x" + pat(300), "10.0.0.5,10.0.0.6", "10.0.0.5 x"}; return v; }
static str text_of(const std::vector<int> &w, bool nl) { strs v; for (int x : w) v.push_back(kinds()[x]); str t = joinv(v, "\n"); if (nl && !w.empty()) t += "\n"; return t; }
static str show(const std::vector<int> &w) { str d; for (int x : w) d += "[" + esc(kinds()[x], 16) + "]"; return d.empty() ? "empty" : d; }
static void s_words(long i, Ctx &c) {
  Mix m(i); int nl = m(2); long P = npaths(12, 2) + 1; long d = m((int)P), a = m((int)P); Cfg g; str s;
  if (d) { g.hd = true; auto w = word(d - 1, 12); g.deny = text_of(w, nl); s += "deny " + show(w); } else s += "no deny file";
  if (a) { g.ha = true; auto w = word(a - 1, 12); g.allow = text_of(w, nl); s += ", allow " + show(w); } else s += ", no allow file";
  c.desc = s + (nl ? "" : ", no final newline"); c.one([&] { return direct(g, IP, c); });
  if (i % 4999 == 0) c.sample(c.desc);
}
static void s_long_words(long i, Ctx &c) {
  Mix m(i); int nl = m(2), which = m(2); auto w = word(m.n, 12, 3); Cfg g; if (which) { g.ha = true; g.allow = text_of(w, nl); } else { g.hd = true; g.deny = text_of(w, nl); }
  c.desc = strf("%s %s%s", which ? "allow" : "deny", show(w).c_str(), nl ? "" : ", no final newline"); c.one([&] { return direct(g, IP, c); });
  if (i % 9001 == 0) c.sample(c.desc);
}
// ---- whole addresses: every pair of client and entry
static const char *IPS[] = {"1.2.3.4", "1.2.3.44", "1.2.3.40", "11.2.3.4", "21.2.3.4", "1.2.3.14", "1.2.34.4", "0.0.0.0", "127.0.0.1", "255.255.255.255", "255.255.255.25", "25.255.255.255", "192.168.1.1", "192.168.1.10", "192.168.1.100", "192.168.1.101", "92.168.1.1", "2.168.1.10"};
static void s_pairs(long i, Ctx &c) {
  Mix m(i); const char *ip = IPS[m(18)], *e = IPS[m(18)]; int which = m(4), pos = m(3), tls = m(2);
  str t = pos == 0 ? str(e) + "\n" : pos == 1 ? "9.9.9.9\n" + str(e) : "8.8.8.8\n" + str(e) + "\n7.7.7.7\n"; Cfg g; if (which & 1) { g.hd = true; g.deny = t; } if (which & 2) { g.ha = true; g.allow = t; }
  c.desc = strf("client %s, entry %s in %s, position %d%s", ip, e, which == 0 ? "no file" : which == 1 ? "deny" : which == 2 ? "allow" : "deny and allow", pos, tls ? ", TLS" : "");
  c.one([&] { install(g); server(tls); run(); Result r = one_conn(g, ip, oracle(g, ip), ""); c.outcome(oracle(g, ip) * 8 + which); if (!r.ok) return r; str o = "77.7.7.77"; return one_conn(g, o, oracle(g, o), "second client: "); });
  if (i % 501 == 0) c.sample(c.desc);
}
// ---- an entry with any other byte next to the address, or with one character changed, is another entry
static void s_decorated(long i, Ctx &c) {
  Mix m(i); int b = m(255) + 1, form = m(6), which = m(2), nl = m(2); if (b == '\n' || b == '\v' || b == '\f' || (issp((char)b) && (form == 0 || form == 4 || form == 5))) return; str B(1, (char)b), l = form == 0 ? B + IP : form == 1 ? IP + B : form == 2 ? IP + B + "x" : form == 3 ? IP + " " + B : form == 4 ? B + IP + B : IP.substr(0, 4) + B + IP.substr(4);
  Cfg g; (which ? g.allow : g.deny) = "172.16.0.9\n" + l + (nl ? "\n172.16.0.8\n" : ""); (which ? g.ha : g.hd) = true; c.desc = strf("entry %s in %s", esc(l).c_str(), which ? "allow" : "deny"); c.one([&] { return direct(g, IP, c); });
}
static void s_digits(long i, Ctx &c) {
  static const strs BASE = {"1.2.3.4", "192.168.100.200", "255.255.255.255", "10.20.30.40", "100.1.100.1", "203.0.113.215", "111.111.111.111"}; Mix m(i); str a = BASE[m(7)]; int at = m(15), to = m(11), which = m(2), side = m(2); if (at >= (int)a.size()) return; str e = a; e[at] = "0123456789."[to]; if (side) std::swap(a, e);
  Cfg g; (which ? g.allow : g.deny) = e + "\n"; (which ? g.ha : g.hd) = true; c.desc = strf("client %s, entry %s in %s", a.c_str(), e.c_str(), which ? "allow" : "deny"); c.one([&] { return direct(g, a, c); });
}
// ---- position in the file: the entry starts at every offset around block sizes; file sizes up to 200 KB
static std::vector<long> offsets(bool th) { std::vector<long> v; for (long k = 0; k < 260; k++) v.push_back(k); for (long b : {512, 1024, 2048, 4096, 8192, 10240, 16384, 32768, 65536, 131072, 200000}) for (long k = -24; k <= 24; k++) v.push_back(b + k); if (th) for (long k = 260; k < 9000; k++) v.push_back(k); return v; }
static str filler(long n, int kind) { // n bytes of other entries, ending in a newline
  str o; if (n <= 0) return o;
  if (kind == 0) while ((long)o.size() < n) o += "172.16.0.9\n"; else if (kind == 1) { o = str(n, 'z'); } else while ((long)o.size() < n) o += "\n";
  o.resize(n); o[n - 1] = '\n'; return o;
}
static void s_offset(long i, Ctx &c) {
  auto O = offsets(c.thorough); Mix m(i); long off = O[m((int)O.size())]; int kind = m(3), which = m(2), what = m(4);
  static const char *W[] = {"the entry", "the entry, last line without newline", "a longer entry that begins with it", "a longer entry that ends with it"};
  str e = what == 0 ? IP + "\n10.1.1.1\n" : what == 1 ? IP : what == 2 ? IP + "1\n" : "1" + IP + "\n"; str t = filler(off, kind) + e + (what == 0 ? filler(100, 0) : "");
  Cfg g; if (which) { g.ha = true; g.allow = t; } else { g.hd = true; g.deny = t; }
  c.desc = strf("%s: %s at offset %ld (filler %d)", which ? "allow" : "deny", W[what], off, kind); c.one([&] { return direct(g, IP, c); });
  if (i % 3001 == 0) c.sample(c.desc);
}
// ---- long lines: the address at the end or the beginning of a line of any length is not an entry
static void s_longline(long i, Ctx &c) {
  Mix m(i); long n = m(c.thorough ? 20000 : 2300) + 1; int which = m(2), side = m(2); if (!c.thorough && n > 2200) { static const long B[] = {4094, 4095, 4096, 4097, 8190, 8191, 8192, 8193, 16383, 16384, 32767, 32768, 65535, 65536}; if (n - 2201 >= 14) return; n = B[n - 2201]; }
  str t = side ? IP + str(n, 'y') + "\n" : str(n, 'y') + IP + "\n"; Cfg g; if (which) { g.ha = true; g.allow = t; } else { g.hd = true; g.deny = t; }
  c.desc = strf("%s: line of %ld characters %s the address", which ? "allow" : "deny", n, side ? "after" : "before"); c.one([&] { return direct(g, IP, c); });
}
// ---- the files change between connections
static Cfg state(int k) {
  Cfg g; switch (k) {
    case 0: break;
    case 1: g.hd = true; g.deny = IP + "\n"; break;
    case 2: g.ha = true; g.allow = IP + "\n"; break;
    case 3: g.ha = true; g.allow = "10.0.0.6\n"; break;
    case 4: g.hd = g.ha = true; g.deny = IP + "\n"; g.allow = IP + "\n10.0.0.6\n"; break;
    case 5: g.hd = true; g.deny = ""; g.ha = true; g.allow = ""; break;
    default: g.hd = true; g.deny = "10.0.0.6\n" + rep("1.1.1.1\n", 1200) + IP + "\n"; break;
  } return g;
}
static void s_changes(long i, Ctx &c) {
  Mix m(i); int tls = m(2); int dbg = m(2); auto w = word(m.n, 7, 3); c.desc = strf("list files change between connections: states %d %d %d%s%s", w[0], w[1], w[2], tls ? ", TLS" : "", dbg ? ", debug log" : "");
  c.one([&] {
    install(state(w[0])); server(tls, dbg ? LOG_DEBUG : LOG_INFO); run(); str sig;
    for (size_t k = 0; k < w.size(); k++) { Cfg g = state(w[k]); install(g); for (str ip : {IP, str("10.0.0.6")}) { bool a = oracle(g, ip); sig += a ? '1' : '0'; Result r = one_conn(g, ip, a, strf("state %zu: ", k).c_str()); if (!r.ok) return r; } }
    c.outcome(fnv(sig)); return good();
  });
  if (i % 201 == 0) c.sample(c.desc);
}
// ---- files that change without changing size, time stamp or i-node
static void s_same_size(long i, Ctx &c) {
  static const char *T[] = {"10.0.0.5\n", "10.0.0.6\n", "        \n", "10.0.0.5 ", "#0.0.0.5\n", "\n\n10.0.0."}; Mix m(i); int keep = m(2), two = m(2); auto w = word(m.n, 18, 3); c.desc = "list files change in place without changing size"; for (int x : w) c.desc += strf(", deny %s allow %s", esc(T[x % 6]).c_str(), x / 6 == 0 ? "missing" : esc(T[(x + x / 6) % 6]).c_str()); if (keep) c.desc += ", same time stamp";
  c.one([&] {
    str sig; bool up = false; for (size_t k = 0; k < w.size(); k++) {
      int x = w[k]; Cfg g; g.deny = T[x % 6]; g.hd = true; g.ha = x / 6 != 0; if (g.ha) g.allow = T[(x + x / 6) % 6]; install(g); if (keep) { struct timespec ts[2] = {{1700000000, 5}, {1700000000, 5}}; for (const char *n : {"/deny", "/allow"}) utimensat(AT_FDCWD, (ETC() + n).c_str(), ts, 0); } if (!up) server(false, LOG_INFO), run(), up = true;
      for (str ip : {IP, str("10.0.0.6")}) { if (!two && ip != IP) break; bool a = oracle(g, ip); sig += a ? '1' : '0'; Result r = one_conn(g, ip, a, strf("state %zu: ", k).c_str()); if (!r.ok) return r; }
    }
    c.outcome(fnv(sig)); return good();
  });
  if (i % 2001 == 0) c.sample(c.desc);
}
// ---- what a filtered client sends does not matter, nor does X-Real-IP of others
static void s_content(long i, Ctx &c) {
  Mix m(i); int what = m(6), tls = m(2), end = m(3); static const EndKind EK[] = {END_EOF, END_BLOCK, END_RESET};
  str d = what == 0 ? "" : what == 1 ? get_("/api/x") : what == 2 ? get_("/api/x", {"X-Real-IP: 10.0.0.6"}) : what == 3 ? pat(5000) : what == 4 ? get_("/") : post_("/api/x", "abc");
  c.desc = strf("filtered client sends kind %d%s", what, tls ? " (TLS)" : "");
  c.one([&] {
    Cfg g; g.hd = true; g.deny = IP + "\n"; install(g); server(tls); run(); Conn *q = client(IP, d, EK[end]); run(); NOMISUSE; c.outcome(what);
    if (q->read_count || !q->out.empty() || !q->closed || !seen.empty() || !E->access_log.empty()) return bad("filtered client was not just closed: read %ld, sent %s, closed %d, executed %zu", q->read_count, esc(q->out, 60).c_str(), q->closed, seen.size());
    Conn *z = client("10.0.0.6", get_("/api/x", {"X-Real-IP: " + IP}), END_EOF); run(); NOMISUSE; if (status_of(z) != 200) return bad("a client that is not listed is not served: %s", esc(z->out, 60).c_str());
    return good();
  });
}
static struct Reg {
  Reg() {
    worker_init = [] { reset_files(); };
    add_suite({"C06", "lists", [](bool) { long P = npaths(12, 2) + 1; return 2 * P * P; }, s_words, 20, "all pairs of deny and allow files of 0..2 lines (or missing) over 12 kinds of line, with and without final newline"});
    add_suite({"C06", "decorated", [](bool) { return 255l * 6 * 4; }, s_decorated, 60, "every byte before, behind or within the address"});
    add_suite({"C06", "digits", [](bool) { return 7l * 15 * 11 * 4; }, s_digits, 60, "7 addresses of every length with every character replaced by every digit or dot"});
    add_suite({"C06", "longer-lists", [](bool th) { return 4 * (npaths(12, th ? 5 : 4, 3)); }, s_long_words, 20, "all deny or allow files of 3..4 lines over 12 kinds of line", "3..5 lines"});
    add_suite({"C06", "addresses", [](bool) { return 18l * 18 * 4 * 3 * 2; }, s_pairs, 20, "18 client addresses x 18 entries x 4 file combinations x 3 positions, plain and TLS, on the running server"});
    add_suite({"C06", "offsets", [](bool th) { return (long)offsets(th).size() * 3 * 2 * 4; }, s_offset, 20, "entry and near-miss at every offset 0..259 and around 11 block sizes up to 200000", "every offset 0..9000"});
    add_suite({"C06", "long-lines", [](bool th) { return (th ? 20000l : 2300l) * 4; }, s_longline, 20, "lines of 1..2200 characters (and around powers of two) that begin or end with the address", "1..20000"});
    add_suite({"C06", "changing-files", [](bool th) { return 4 * npaths(7, th ? 4 : 3, 3); }, s_changes, 20, "all sequences of 3 states of the list files with two clients each", "3..4 states"});
    add_suite({"C06", "same-size", [](bool) { return 4l * 18 * 18 * 18; }, s_same_size, 20, "all sequences of 3 of 18 states of the list files that differ in content only, with and without equal time stamps, one or two clients each"});
    add_suite({"C06", "filtered-content", [](bool) { return 36l; }, s_content, 20, "6 kinds of data, 3 endings, plain and TLS"});
  }
} reg;
