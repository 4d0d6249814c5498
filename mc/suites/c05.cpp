// C05: the limits file means what the documentation says.
#include "common.h"
extern "C" void mc_free(void *);

struct Rule { str path; int a, b, s; };
// independent reading of one line: true if it is a rule; `loose`: the rule may also be left out (path that no URL can have)
static bool oracle_line(const str &line, Rule &r, bool &loose) {
  loose = false; if (line.empty() || line[0] != '/') return false;
  strs f = split_on(line, ','); if (f.size() < 3) return false;
  r.path = strip(f[0]); r.a = atoi(f[1].c_str()); r.b = atoi(f[2].c_str()); r.s = f.size() > 3 ? atoi(f[3].c_str()) : 0;
  loose = r.path.size() >= HTTP_MAX_PATH; return true;
}
static Result check_file(const str &text, str &sig) {
  begin(); setup_globals(); E->fill = 0xAA; put_file(ETC() + "/limits", text);
  path_limits *got = load_limits();
  if (!got) return bad("load_limits returned NULL");
  std::vector<Rule> want; for (auto &l : lines_of(text)) { Rule r; bool loose; if (oracle_line(l, r, loose) && !loose && want.size() < MAX_LIMIT_RULES) want.push_back(r); }
  Result res = good();
  for (size_t k = 0; k < MAX_LIMIT_RULES; k++) {
    str p(got[k].path, strnlen(got[k].path, sizeof got[k].path));
    if (k < want.size()) {
      if (p != want[k].path) { res = bad("rule %zu has path \"%s\", expected \"%s\"", k, esc(p, 80).c_str(), esc(want[k].path, 80).c_str()); break; }
      if (got[k].max_connections != want[k].a || got[k].max_connections_per_ip != want[k].b || got[k].max_seconds != want[k].s) { res = bad("rule %zu (%s) is %d,%d,%d, expected %d,%d,%d", k, esc(p, 60).c_str(), got[k].max_connections, got[k].max_connections_per_ip, got[k].max_seconds, want[k].a, want[k].b, want[k].s); break; }
    } else if (!p.empty()) { res = bad("there is a rule %zu \"%s\" (%d,%d,%d), expected only %zu rules", k, esc(p, 60).c_str(), got[k].max_connections, got[k].max_connections_per_ip, got[k].max_seconds, want.size()); break; }
    else break;
  }
  if (E->open_files) res = bad("the limits file is left open");
  for (auto &r : want) sig += strf("%s,%d,%d,%d;", r.path.c_str(), r.a, r.b, r.s);
  mc_free(got); return res;
}
static str longp(int n) { return "/" + pat(n - 1); }
static const strs &kinds() {
  static strs v = {"/api,20,2,10", "/a, 5, 3", "/b ,1,1, 7", "# comment, 1, 2, 3", "", "api,1,1,1", "/incomplete", "/inc,5", longp(511) + ",3,2,1", longp(512) + ",3,2,1", longp(600) + ", 3, 2", "/c,9,8,7\r", "/d,4,5,6,extra,1", " /sp,1,2,3", "/e,100000,2147483647,0", longp(300) + ",11,12"};
  return v;
}
static void s_words(long i, Ctx &c) {
  Mix m(i); bool nl = m(2); auto w = word(m.n, 16, 1); strs v; str d; for (int x : w) { v.push_back(kinds()[x]); d += strf("[%s]", esc(kinds()[x], 30).c_str()); }
  c.desc = strf("limits file with lines %s%s", d.c_str(), nl ? "" : " without final newline"); str sig;
  c.one([&] { return check_file(joinv(v, "\n") + (nl ? "\n" : ""), sig); }); c.outcome(fnv(sig));
  if (i % 20011 == 0) c.sample(c.desc);
}
static const char *VAL[] = {"0", "1", "2", "9", "10", "19", "20", "64", "99", "100", "255", "256", "1000", "1024", "32767", "32768", "65535", "65536", "100000", "2147483647"};
static void s_values(long i, Ctx &c) {
  Mix m(i); const char *a = VAL[m(20)], *b = VAL[m(20)], *s = VAL[m(20)]; int st = m(6);
  static const char *F[] = {"/p,%s,%s,%s", "/p, %s, %s, %s", "/p ,%s ,%s ,%s ", "/p,\t%s,\t%s,\t%s", "/p,00%s,0%s,0%s", "/p,%s,%s,%s,"};
  str l = strf(F[st], a, b, s); c.desc = "limits line \"" + esc(l) + "\""; str sig;
  c.one([&] { return check_file("/first,1,2,3\n" + l + "\n/last,7,8,9\n", sig); }); c.outcome(fnv(sig));
  if (i % 4001 == 0) c.sample(c.desc);
}
// every byte in the path and every pair of special characters
static void s_pathbytes(long i, Ctx &c) {
  Mix m(i); int b = m(255) + 1, at = m(4), n = m(3); if (b == '\n' || b == ',' || b == 0 || (at == 3 && (issp((char)b) || b == '\v' || b == '\f'))) return; str B(1, (char)b), l = (at == 0 ? "/" + B + "ab" : at == 1 ? "/a" + B + "b" : at == 2 ? "/a" + B + B + "b/c" : "/ab" + B) + ",3,4,5", sig; c.desc = strf("limits line %s", esc(l).c_str());
  c.one([&] { return check_file(n == 0 ? l : n == 1 ? l + "\n/z,1,2\n" : "/y,1,2\n" + l + "\r\n/z,6,7,8\n", sig); }); c.outcome(fnv(sig));
}
static void s_counts(long i, Ctx &c) {
  Mix m(i); int n = m(140); int style = m(4); bool nl = m(2);
  c.desc = strf("%d rules, %s", n, style == 0 ? "nothing else" : style == 1 ? "each followed by a comment" : style == 2 ? "each followed by an incomplete line" : "each preceded by an over-long path"); str t, sig;
  for (int k = 0; k < n; k++) { if (style == 3) t += longp(513 + k) + ",1,1\n"; t += strf("/r%d,%d,%d,%d\n", k, k, k + 1, k + 2); if (style == 1) t += "# c\n"; if (style == 2) t += k % 2 ? "/x\n" : "/x,1\n"; }
  if (!nl && !t.empty()) t.pop_back();
  c.one([&] { return check_file(t, sig); }); c.outcome(fnv(sig));
  if (i % 97 == 0) c.sample(c.desc);
}
static void s_paths(long i, Ctx &c) {
  Mix m(i); int n = m(1100) + 1; int pos = m(3); str l = longp(n) + ",3,4,5", sig; c.desc = strf("path of %d characters, %s", n, pos == 0 ? "first" : pos == 1 ? "last" : "between others");
  str t = pos == 0 ? l + "\n/z,1,2,3\n" : pos == 1 ? "/z,1,2,3\n" + l : "/z,1,2,3\n" + l + "\n/y,6,6\n";
  c.one([&] { return check_file(t, sig); }); c.outcome(fnv(sig));
}
static void s_misc(long i, Ctx &c) {
  str sig; c.desc = strf("special file %ld", i);
  switch (i) {
    case 0: c.one([&] { begin(); setup_globals(); unlink((ETC() + "/limits").c_str()); path_limits *g = load_limits(); if (!g) return bad("NULL without a limits file"); if (g[0].path[0]) return bad("rules without a limits file"); mc_free(g); return good(); }); break;
    case 1: c.one([&] { return check_file("", sig); }); break;
    case 2: c.one([&] { return check_file("\n\n\n", sig); }); break;
    case 3: c.one([&] { return check_file("#" + pat(100000) + "\n/a,1,2,3\n", sig); }); break;
    case 4: c.one([&] { return check_file("/a,1,2,3" + rep(",x", 5000) + "\n/b,4,5,6\n", sig); }); break;
    case 5: c.one([&] { return check_file("/a,1,2,3\r\n/b,4,5\r\n\r\n# c\r\n/c,7,8,9\r\n", sig); }); break;
    case 6: c.one([&] { return check_file("/,1,2,3\n//,4,5\n/a/b/c?d=e,6,7,8\n/%20x,1,1\n", sig); }); break;
    case 7: c.one([&] { return check_file(rep("/dup,1,2,3\n", 10), sig); }); break;
    case 8: c.one([&] { return check_file(rep("/incomplete\n", 200) + "/a,1,2,3\n", sig); }); break;
  }
  c.outcome(fnv(sig, i));
}
// ---- the rules that were read govern the server: the k-th of n rules is enforced with its values
static void s_server(long i, Ctx &c) {
  Mix m(i); static const int NR[] = {1, 2, 3, 10, 63, 64, 65}; int n = NR[m(7)]; int at = m(3); int mx = m(3); int per = m(3); if (at == 2 && n < 3) return;
  int k = at == 0 ? 0 : at == 1 ? n - 1 : n / 2; c.desc = strf("server with %d rules, rule %d is /s,%d,%d", n, k, mx, per);
  c.one([&] {
    begin(); setup_globals(); str t; for (int j = 0; j < n; j++) t += j == k ? strf("/s, %d, %d, 10\n", mx, per) : strf("# %d\n/other%d,0,0,1\n", j, j); put_file(ETC() + "/limits", t);
    serve(9); int want = k < MAX_LIMIT_RULES ? std::min(mx, per) : 4;
    int adm = 0; for (int j = 0; j < 4; j++) { Conn *q = client("10.0.0.1", "GET /s/x HTTP/1.1\r\n", END_BLOCK); run(); NOMISUSE; adm += !q->closed; }
    if (adm != want) return bad("%d requests from one address are admitted, expected %d", adm, want);
    int tot = k < MAX_LIMIT_RULES ? mx : 8; int a2 = 0; for (int j = 0; j < 4; j++) { Conn *q = client(strf("10.0.1.%d", j), "GET /s/x HTTP/1.1\r\n", END_BLOCK); run(); NOMISUSE; a2 += !q->closed; }
    int w2 = per == 0 && k < MAX_LIMIT_RULES ? 0 : std::min(4, tot - want); if (a2 != w2) return bad("%d further requests from other addresses are admitted, expected %d", a2, w2);
    c.outcome(fnv(strf("%d %d", adm, a2))); return good();
  });
}
// ---- a connection alive longer than its rule's maximum of seconds is dropped, and not before
static void s_seconds(long i, Ctx &c) {
  Mix m(i); int sec = m(2) ? 10 : 1; int phase = m(3); int over = m(3); // over: 0 younger, 1 slightly older, 2 much older
  uint64_t age = over == 0 ? sec * 1000ull - 500 : over == 1 ? sec * 1000ull + 1500 : sec * 60000ull;
  c.desc = strf("/api limited to %d seconds, connection waiting in its %s for %llu ms", sec, phase == 0 ? "header section" : phase == 1 ? "body" : "handler", (unsigned long long)age);
  c.one([&] {
    begin(); setup_globals(); put_file(ETC() + "/limits", strf("/api,9,9,%d\n", sec)); route("GET:/a", 0); route("POST:/a", 0); serve(4);
    static bool go; go = false; on_handler = [](api_request *r, int) { wait_until([] { return go; }, "handler"); reply(r, "{}"); }; run();
    Conn *q = client("10.0.0.1", phase == 0 ? "GET /api/a HTTP/1.1\r\n" : phase == 1 ? req("POST /api/a HTTP/1.1", {"Content-Length: 5"}) : get_("/api/a"), END_BLOCK); run();
    if (q->closed) return bad("dropped at once");
    E->now_ms += age; run(); Conn *z = client("10.0.0.2", get_("/x"), END_EOF); run(); NOMISUSE; (void)z; c.outcome(over);
    if (over == 0 && q->closed) return bad("dropped after %llu ms, before the maximum of %d seconds", (unsigned long long)age, sec);
    if (over && !q->closed) return badkey("max-seconds-not-enforced", "a connection %llu ms old is still open although its rule allows %d seconds", (unsigned long long)age, sec);
    return good();
  });
}
static struct Reg {
  Reg() {
    worker_init = [] { reset_files(); };
    add_suite({"C05", "lines", [](bool th) { return 2 * npaths(16, th ? 5 : 4, 1); }, s_words, 20, "all files of 1..4 lines over 16 kinds of line, with and without final newline", "1..5 lines"});
    add_suite({"C05", "path-bytes", [](bool) { return 255l * 12; }, s_pathbytes, 60, "every byte within the path of a rule"});
    add_suite({"C05", "values", [](bool) { return 20l * 20 * 20 * 6; }, s_values, 20, "20 x 20 x 20 values x 6 spacings"});
    add_suite({"C05", "counts", [](bool) { return 140l * 4 * 2; }, s_counts, 20, "0..139 rules, alone and mixed with ignored lines"});
    add_suite({"C05", "path-lengths", [](bool) { return 1100l * 3; }, s_paths, 20, "paths of 1..1100 characters"});
    add_suite({"C05", "special-files", [](bool) { return 9l; }, s_misc, 20, "missing, empty, CRLF, very long lines"});
    add_suite({"C05", "server", [](bool) { return 7l * 3 * 3 * 3; }, s_server, 20, "1..65 rules, first/middle/last one enforced"});
    add_suite({"C05", "max-seconds", [](bool) { return 18l; }, s_seconds, 20, "ages below and above the maximum in 3 phases of a request"});
  }
} reg;
