// C27: log levels filter exactly and log lines stay whole.
#include "obs.h"
#include <time.h>

static const char *LN[] = {"TRACE", "DEBUG", "INFO", "WARN", "ERROR", "FATAL"};
static str text_from(size_t n) { str o; for (auto &w : E->main_log) o += w.data; return o.substr(std::min(n, o.size())); }
static str text() { return text_from(0); }
static str stamp(uint64_t ms) {   // independent of strftime
  long s = (long)(ms / 1000), d = s / 86400, t = s % 86400; int y = 1970; auto leap = [](int y) { return y % 4 == 0 && (y % 100 || y % 400 == 0); };
  while (d >= (leap(y) ? 366 : 365)) { d -= leap(y) ? 366 : 365; y++; }
  int ml[] = {31, leap(y) ? 29 : 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}, m = 0; while (d >= ml[m]) { d -= ml[m]; m++; }
  return strf("%02ld-%02d-%02d %02ld:%02ld:%02ld", d + 1, m + 1, y % 100, t / 3600, t / 60 % 60, t % 60);
}
struct Msg { int level; str file, func, text; int line; uint64_t at; };
// one complete line: timestamp, a thread number, the level, the source position, the message and nothing else
static str check_line(const str &l, const Msg &m) {
  str ts = stamp(m.at) + " "; if (l.compare(0, ts.size(), ts)) return "the timestamp is not " + ts; size_t p = ts.size(); size_t q = p; while (q < l.size() && isxdigit((unsigned char)l[q])) q++;
  if (q == p || q >= l.size() || l[q] != ' ') return "there is no thread number"; p = q + 1; str lv = LN[m.level]; if (l.compare(p, lv.size(), lv)) return "the level is not " + lv; p += lv.size(); q = p; while (q < l.size() && l[q] == ' ') q++; if (q == p || q - p > 4) return "the level is not followed by the position"; 
  str rest = m.file + ":" + m.func + strf(":%d: ", m.line) + m.text + "\n"; if (l.substr(q) != rest) return "it does not go on with " + esc(rest, 300); return "";
}
static void put(const Msg &m) { Buf f = Buf::z(m.file), n = Buf::z(m.func), t = Buf::z(m.text); __logger(m.level, f, m.line, n, "%s", (char *)t); }
static str tid_of(const str &l) { size_t p = 18, q = l.find(' ', p); return l.substr(p, q - p); }
static Result exactly(const str &got, const std::vector<Msg> &want) {   // in this order
  size_t p = 0; for (auto &m : want) { size_t e = p + 0; str tail = strf(":%d: ", m.line) + m.text + "\n"; e = got.find(tail, p); if (e == str::npos) return bad("\"%s\" is not in the log: %s", esc(m.text, 80).c_str(), esc(got.substr(p), 300).c_str()); e += tail.size(); str d = check_line(got.substr(p, e - p), m); if (!d.empty()) return bad("%s: %s", d.c_str(), esc(got.substr(p, e - p), 400).c_str()); p = e; }
  if (p != got.size()) return bad("the log has more: %s", esc(got.substr(p), 300).c_str()); return good();
}
static Result in_main(const std::function<Result()> &fn) { Result r = bad("the call did not return"); launch([&] { r = fn(); }); run(); if (E->aborted_livelock) return bad("endless loop"); return r; }
// ---- thresholds
static void s_levels(long i, Ctx &c) {
  Mix m(i); int level = m(6), thr = m(8) - 1, dest = m(3); if (thr > LOG_FATAL) return; c.desc = strf("%s at threshold %d, log to %s", LN[level], thr, dest == 0 ? "standard error" : dest == 1 ? "a file" : "a file set before the level");
  c.one([&] {
    begin(); Msg w{level, "src.c", "fn", "the message", 17, E->now_ms}; bool want = level >= thr, enabled = false; size_t n = 0; bool returned = false;
    launch([&] { if (dest == 2) log_set_file((char *)"/var/log/wayuu.log"); log_set_level(thr); if (dest == 1) log_set_file((char *)"/var/log/wayuu.log"); enabled = log_level_is_enabled(level); put(w); n = text().size(); returned = true; }); run();
    c.outcome(fnv(text(), E->exited * 2 + E->exit_code)); if (enabled != want) return bad("log_level_is_enabled says %d", enabled);
    bool dies = want && level == LOG_FATAL; if (dies != E->exited) return bad(dies ? "the process goes on" : "the process ends with status %d", E->exit_code); if (dies && !E->exit_code) return bad("the process ends with a success status"); if (dies && returned) return bad("the call returned");
    if (!dies && n != text().size()) return bad("the line is not written when the call returns"); return want ? exactly(text(), {w}) : exactly(text(), {});
  });
}
static void s_macros(long i, Ctx &c) {
  Mix m(i); int level = m(6), thr = m(6); c.desc = strf("macro of %s at threshold %d", LN[level], thr);
  c.one([&] { begin(); int l0 = 0; launch([&] { log_set_file((char *)"/var/log/wayuu.log"); log_set_level(thr); switch (level) { case 0: l0 = __LINE__; log_trace("x %d", 1); break; case 1: l0 = __LINE__; log_debug("x %d", 1); break; case 2: l0 = __LINE__; log_info("x %d", 1); break; case 3: l0 = __LINE__; log_warn("x %d", 1); break; case 4: l0 = __LINE__; log_error("x %d", 1); break; case 5: l0 = __LINE__; log_fatal("x %d", 1); break; } }); run(); c.outcome(fnv(text()));
    if ((level == 5) != E->exited) return bad("exited: %d", E->exited); Msg w{level, __FILE__, "operator()", "x 1", l0, E->now_ms}; if (level < thr) return exactly(text(), {}); return exactly(text(), {w}); });
}
// ---- messages
static const long BIG[] = {4999, 5000, 5001, 8191, 8192, 8193, 9999, 10000, 16384, 32767, 32768, 65535, 65536, 65537, 100000, 999999, 1048577};
static void s_lengths(long i, Ctx &c) {
  Mix m(i); int kind = m(5); long base = c.thorough ? 20000 : 4400, n = m.n < base ? m.n : BIG[m.n - base]; c.desc = strf("%s of %ld bytes", kind == 0 ? "message" : kind == 1 ? "message without arguments" : kind == 2 ? "file name" : kind == 3 ? "function name" : "message behind a long position", n); if ((kind == 2 || kind == 3) && !n) return;
  c.one([&] { begin(); Msg w{(int)(n % 5), "src.c", "fn", "message", (int)n + 1, E->now_ms}; str v = pat(n, kind); if (kind == 2) w.file = v; else if (kind == 3) w.func = v; else w.text = v; if (kind == 4) w.file = pat(700), w.func = pat(300); Msg w2 = w; w2.text = "second";
    Result r = in_main([&] { log_set_file((char *)"/var/log/wayuu.log"); log_set_level(0); if (kind == 1) { Buf f = Buf::z(w.file), g = Buf::z(w.func), t = Buf::z(w.text); __logger(w.level, f, w.line, g, t); } else put(w); put(w2); return good(); }); NOMISUSE; if (!r.ok) return r; c.outcome(fnv(text())); return exactly(text(), {w, w2}); });
}
static void s_bytes(long i, Ctx &c) {   // every byte but the line end, first, last, alone or inside
  Mix m(i); int level = m(5), pos = m(6), how = m(2), ch = (int)m.n + 1; if (ch == '\n' || ch == '\r') return; str v = pos == 0 ? str(1, (char)ch) : pos == 1 ? str(1, (char)ch) + "abc" : pos == 2 ? str("abc") + (char)ch : pos == 3 ? str("ab") + (char)ch + "cd" : pos == 4 ? str(3, (char)ch) : str(2, (char)ch) + "ab" + str(2, (char)ch); if (how && has(v, "%")) return; c.desc = strf("message %s at %s%s", esc(v).c_str(), LN[level], how ? ", as format" : "");
  c.one([&] { begin(); Msg w{level, "src.c", "fn", v, 12, E->now_ms}, w2{level, "src.c", "fn", "second", 13, E->now_ms}; Result r = in_main([&] { log_set_file((char *)"/var/log/wayuu.log"); log_set_level(0); if (how) { Buf f = Buf::z(w.file), g = Buf::z(w.func), t = Buf::z(w.text); __logger(w.level, f, w.line, g, t); } else put(w); put(w2); return good(); }); NOMISUSE; if (!r.ok) return r; c.outcome(fnv(text())); return exactly(text(), {w, w2}); });
}
static void s_formats(long i, Ctx &c) {
  struct F { str want; std::function<void()> fn; };
  #define L(...) [] { __logger(LOG_WARN, "a.c", 5, "f", __VA_ARGS__); }
  static const std::vector<F> fs = {
    {"", L("%s", "")}, {"plain", L("plain")}, {"100%", L("100%%")}, {"%s", L("%s", "%s")}, {"%n%n%s%d", L("%s", "%n%n%s%d")}, {"-12", L("%d", -12)}, {"4294967295", L("%u", ~0u)}, {"9223372036854775807", L("%ld", 9223372036854775807l)}, {"ff", L("%x", 255)}, {"a b c d e f g h 1 2 3 4 5 6", L("%s %s %s %s %s %s %s %s %d %d %d %d %d %d", "a", "b", "c", "d", "e", "f", "g", "h", 1, 2, 3, 4, 5, 6)}, {"1.50 x 2.25", L("%.2f %s %.2f", 1.5, "x", 2.25)}, {"    7|7    |", L("%5d|%-5d|", 7, 7)}, {"abc", L("%.*s", 3, "abcdef")}, {"c", L("%c", 'c')}, {"tab\there", L("tab\there")}, {"%%", L("%%%%")}, {str("\x01\x7f\x80\xff"), L("%s", "\x01\x7f\x80\xff")}, {"IP:1.2.3.4, URL:/%20%s%n", L("IP:%s, URL:%s", "1.2.3.4", "/%20%s%n")}, {str(3000, ' ') + "x", L("%3001s", "x")}};
  Mix m(i); int a = m((int)fs.size()), b = m((int)fs.size()); c.desc = strf("formats %d and %d", a, b);
  c.one([&] { begin(); Result r = in_main([&] { log_set_file((char *)"/var/log/wayuu.log"); fs[a].fn(); fs[b].fn(); return good(); }); NOMISUSE; if (!r.ok) return r; c.outcome(fnv(text())); return exactly(text(), {{3, "a.c", "f", fs[a].want, 5, E->now_ms}, {3, "a.c", "f", fs[b].want, 5, E->now_ms}}); });
}
static void s_clock(long i, Ctx &c) {   // every hour around the turn of months and years, a second before and after midnight
  long day = i / 3, y = 0; (void)y; uint64_t s = (uint64_t)day * 86400 + (i % 3 == 0 ? 0 : i % 3 == 1 ? 43199 + day % 3601 : 86399); c.desc = strf("at %llu seconds", (unsigned long long)s);
  c.one([&] { begin(); E->now_ms = s * 1000 + 999; Msg w{4, "a.c", "f", "m", 1, E->now_ms}; Result r = in_main([&] { log_set_file((char *)"/var/log/wayuu.log"); put(w); return good(); }); NOMISUSE; if (!r.ok) return r; c.outcome(fnv(text())); return exactly(text(), {w}); });
}
// ---- histories of the interface
static void s_history(long i, Ctx &c) {
  auto w = word(i, 9, 1); static const char *O[] = {"level TRACE", "level INFO", "level ERROR", "log TRACE", "log INFO", "log WARN", "log ERROR", "time passes", "set file"}; c.desc = "calls:"; int files = 0; for (int x : w) { c.desc += str(" ") + O[x] + ","; files += x == 8; } if (files > 1) return;
  c.one([&] { begin(); std::vector<Msg> want; int thr = LOG_INFO; str err; Result r = in_main([&] { int k = 0; for (int x : w) { k++; static const int LV[] = {LOG_TRACE, LOG_INFO, LOG_ERROR, LOG_TRACE, LOG_INFO, LOG_WARN, LOG_ERROR}; if (x < 3) { thr = LV[x]; log_set_level(thr); } else if (x < 7) { Msg m{LV[x], strf("f%d.c", k), "g", strf("message %d", k), k * 10, E->now_ms}; put(m); if (LV[x] >= thr) want.push_back(m); } else if (x == 7) E->now_ms += 61234; else log_set_file((char *)"/var/log/wayuu.log"); for (int l = 0; l < 6; l++) if (log_level_is_enabled(l) != (l >= thr)) err = strf("after %d calls log_level_is_enabled(%d) is wrong", k, l); Result q = exactly(text(), want); if (!q.ok) err = q.msg; } return good(); }); NOMISUSE; if (!r.ok) return r; if (!err.empty()) return bad("%s", err.c_str()); c.outcome(fnv(text())); return good(); });
}
static void s_existing(long i, Ctx &c) { c.desc = strf("a log file with %ld lines is kept", i); c.one([&] { begin(); str old; for (int k = 0; k < i; k++) { old += strf("old line %d\n", k); E->main_log.push_back({-1, strf("old line %d\n", k)}); } Msg w{3, "a.c", "f", "new", 1, E->now_ms}; Result r = in_main([&] { log_set_file((char *)"/var/log/wayuu.log"); put(w); return good(); }); NOMISUSE; if (!r.ok) return r; c.outcome(i); if (!sw(text(), old)) return bad("the old lines have gone"); return exactly(text_from(old.size()), {w}); }); }
// ---- threads
static Result shared(Ctx &c, const std::vector<std::vector<Msg>> &T, int thr, bool file, bool ticking) {
  begin(); E->io_points = true; std::vector<std::vector<uint64_t>> from(T.size()), to(T.size()); 
  launch([&] { log_set_level(thr); if (file) log_set_file((char *)"/var/log/wayuu.log"); for (size_t t = 0; t < T.size(); t++) { from[t].resize(T[t].size()); to[t].resize(T[t].size()); spawn([&, t] { for (size_t k = 0; k < T[t].size(); k++) { if (ticking) E->now_ms += 1000; from[t][k] = E->now_ms; put(T[t][k]); to[t][k] = E->now_ms; } }); } });
  if (is_race_build) race_on = true; run(); race_on = false; c.outcome(fnv(text()));
  if (!E->errors.empty()) return bad("%s", E->errors[0].c_str()); if (!E->races.empty()) return bad("data race: %s", E->races[0].c_str()); if (E->aborted_livelock) return bad("endless loop"); if (E->exited) return bad("the process ended");
  str all = text(); if (!all.empty() && all.back() != '\n') return bad("the log ends in the middle of a line: %s", esc(all, 500).c_str());
  auto ls = lines_of(all); std::vector<size_t> next(T.size(), 0); std::map<str, size_t> owner; size_t n = 0;
  for (auto &l : ls) {
    bool found = false; for (size_t t = 0; t < T.size() && !found; t++) { while (next[t] < T[t].size() && T[t][next[t]].level < thr) next[t]++; if (next[t] >= T[t].size()) continue; Msg m = T[t][next[t]]; for (uint64_t at = from[t][next[t]]; at <= to[t][next[t]] && !found; at += 1000) { m.at = at; if (check_line(l + "\n", m).empty()) { found = true; str id = tid_of(l); if (owner.count(id) && owner[id] != t) return bad("two threads have the number %s", id.c_str()); owner[id] = t; next[t]++; n++; } } }
    if (!found) return bad("this line was written by no thread: %s (in %s)", esc(l, 200).c_str(), esc(all, 500).c_str());
  }
  for (size_t t = 0; t < T.size(); t++) { while (next[t] < T[t].size() && T[t][next[t]].level < thr) next[t]++; if (next[t] < T[t].size()) return bad("\"%s\" of thread %zu is not in the log: %s", esc(T[t][next[t]].text, 100).c_str(), t, esc(all, 400).c_str()); }
  return good();
}
static std::vector<Msg> msgs(int t, int n, size_t len, int lv) { std::vector<Msg> v; for (int k = 0; k < n; k++) v.push_back({lv < 0 ? (t + k) % 5 : lv, strf("file%d.c", t), strf("fn%d", t), strf("thread %d message %d ", t, k) + pat(len + t * 3, t), 100 * t + k, 0}); return v; }
static void s_threads(long i, Ctx &c) {
  Mix m(i); int shape = m(4), len = m(3), thr = m(3), file = m(2), tick = m(2), sh = m(4); static const size_t LEN[] = {0, 60, 5000}; std::vector<std::vector<Msg>> T; if (shape == 0) T = {msgs(1, 1, LEN[len], 3), msgs(2, 1, LEN[len], 3)}; if (shape == 1) T = {msgs(1, 2, LEN[len], -1), msgs(2, 2, LEN[(len + 1) % 3], -1)}; if (shape == 2) T = {msgs(1, 1, LEN[len], 4), msgs(2, 1, LEN[(len + 1) % 3], 4), msgs(3, 1, LEN[len], 4)}; if (shape == 3) T = {msgs(1, 3, LEN[len], -1), msgs(2, 1, LEN[len], 4)};
  if (is_race_build && len == 2) return; c.desc = strf("%zu threads, %zu messages, length %zu, threshold %d, %s%s", T.size(), T[0].size(), LEN[len], thr * 2, file ? "file" : "standard error", tick ? ", time passes" : "");
  c.explore(c.thorough ? 4 : 3, [&] { return shared(c, T, thr * 2, file, tick); }, sh, 4); if (i % 97 == 0) c.sample(c.desc);
}
// a fatal message next to other threads: its line is whole and the process ends with a failure
static void s_fatal(long i, Ctx &c) {
  Mix m(i); int len = m(3), file = m(2), thr = m(2), sh = m(4); static const size_t LEN[] = {0, 60, 5000}; c.desc = strf("a fatal message of about %zu bytes while another thread logs, %s", LEN[len], file ? "file" : "standard error"); auto A = msgs(1, 2, LEN[len], 4);
  c.explore(c.thorough ? 4 : 3, [&] {
    begin(); E->io_points = true; Msg f{5, "main.c", "die", "the end " + pat(LEN[len]), 9, E->now_ms}; launch([&] { log_set_level(thr * 5); if (file) log_set_file((char *)"/var/log/wayuu.log"); spawn([&] { for (auto &x : A) put(x); }); put(f); }); if (is_race_build) race_on = true; run(); race_on = false; c.outcome(fnv(text(), E->exit_code));
    if (!E->errors.empty()) return bad("%s", E->errors[0].c_str()); if (!E->races.empty()) return bad("data race: %s", E->races[0].c_str()); if (!E->exited || !E->exit_code) return bad("the process did not end with a failure status"); int n = 0; auto ls = lines_of(text()); bool cut = !text().empty() && text().back() != '\n'; for (auto &l : ls) { n += check_line(l + "\n", f).empty(); } if (n != 1) return bad("the fatal line is %d times in the log: %s", n, esc(text(), 400).c_str());
    if (cut && !ls.empty()) ls.pop_back();   // the end of the process can cut the line that another thread is writing
    for (auto &l : ls) { bool okl = check_line(l + "\n", f).empty(); for (auto &x : A) { Msg y = x; y.at = E->now_ms; okl |= check_line(l + "\n", y).empty(); } if (!okl) return bad("broken line %s", esc(l, 300).c_str()); }
    if (thr && ls.size() != 1) return bad("messages below the threshold are written"); return good();
  }, sh, 4);
}
// ---- the server's own lines: whole at every level; what is logged does not depend on what clients send; the answers do not depend on the level
static str shape(const str &l) {
  size_t p = 0; auto dig = [&](int n) { for (int k = 0; k < n; k++) if (p >= l.size() || !isdigit((unsigned char)l[p++])) return false; return true; }; auto ch = [&](char x) { return p < l.size() && l[p++] == x; };
  if (!(dig(2) && ch('-') && dig(2) && ch('-') && dig(2) && ch(' ') && dig(2) && ch(':') && dig(2) && ch(':') && dig(2) && ch(' '))) return "no timestamp"; size_t q = p; while (q < l.size() && isxdigit((unsigned char)l[q])) q++; if (q == p || q >= l.size() || l[q] != ' ') return "no thread number"; p = q + 1; str lv; while (p < l.size() && l[p] != ' ') lv += l[p++]; bool k = false; for (auto x : LN) k |= lv == x; if (!k) return "no level"; while (p < l.size() && l[p] == ' ') p++; q = l.find(": ", p); if (q == str::npos) return "no position"; str pos = l.substr(p, q - p); if (std::count(pos.begin(), pos.end(), ':') < 2) return "no position"; return "";
}
static const strs &attacks() { static strs v; if (v.empty()) for (const char *x : {"%s%s%s%s", "%n%n%n", "%x%d", "100%", "%", "%.9999999d", "%5$n", "%%", "%c%c%c%c%c%c%c%c%c%c%c%c%c%c%c%c%c%c%c%c%n"}) v.push_back(x); return v; }
static const std::vector<std::pair<str, str>> &server_requests() {
  static std::vector<std::pair<str, str>> v; if (!v.empty()) return v;
  for (auto &r : corpus()) v.push_back({r.name, r.bytes});
  for (auto &a : attacks()) {
    v.push_back({"url " + a, get_("/" + a)}); v.push_back({"api url " + a, get_("/api/" + a)}); v.push_back({"item " + a, get_("/api/item/" + a)}); v.push_back({"query " + a, get_("/api/echo?" + a)}); v.push_back({"header " + a, get_("/api/echo", {"X-H: " + a, a + ": 1", "User-Agent: " + a, "Referer: " + a})});
    v.push_back({"session " + a, get_("/api/echo", {"X-Session: " + a})}); v.push_back({"cookie " + a, get_("/api/echo", {"Cookie: WSSESSION=" + a})}); v.push_back({"ip " + a, get_("/api/echo", {"X-Real-IP: " + a})}); v.push_back({"form " + a, post_("/api/echo", a)}); v.push_back({"type " + a, post_("/api/echo", "x", {"Content-Type: " + a})}); v.push_back({"method " + a, req(a + " /api/echo HTTP/1.1")});
    v.push_back({"upload " + a, post_("/api/echo", "--B\r\nContent-Disposition: form-data; name=\"" + a + "\"; filename=\"" + a + "\"\r\n\r\n" + a + "\r\n--B--\r\n", {"Content-Type: multipart/form-data; boundary=B"})}); v.push_back({"text part " + a, post_("/api/echo", "--B\r\nContent-Disposition: form-data; name=\"t\"\r\n\r\n" + a + "\r\n--B--\r\n", {"Content-Type: multipart/form-data; boundary=B"})}); v.push_back({"version " + a, "GET /api/echo " + a + "\r\n\r\n"}); v.push_back({"folder " + a, get_("/" + a + "/x.html")});
  }
  return v;
}
static Obs at_level(const str &bytes, int level, bool tls, str &log) {
  begin(); std_server(1, tls); log_set_level(level); run(); log_set_level(level); size_t n = text().size(); Obs o = observe("10.0.0.1", bytes); log = text_from(n); str m = misuse(); if (!m.empty()) o.out = "MISUSE " + m; return o;
}
static void s_server(long i, Ctx &c) {
  auto &r = server_requests()[i / 10]; int level = i / 2 % 5; bool tls = i & 1; c.desc = strf("\"%s\"%s at level %s", r.first.c_str(), tls ? " over TLS" : "", LN[level]);
  c.one([&] { str l0, l1; Obs want = at_level(r.second, LOG_ERROR, tls, l0), got = at_level(r.second, level, tls, l1); if (sw(want.out, "MISUSE") || sw(got.out, "MISUSE")) return bad("%s", esc(got.out, 400).c_str()); c.outcome(fnv(l1)); str d = diff_obs(got, want); if (!d.empty()) return bad("%s", d.c_str());
    if (!l1.empty() && l1.back() != '\n') return bad("the log ends in the middle of a line"); bool first = true; for (auto &l : lines_of(l1)) { str e = shape(l); if (e.empty()) { first = false; for (int k = 0; k < level; k++) { size_t p = l.find(LN[k]), q = l.find(".c:"); if (p != str::npos && p < q && q != str::npos) return bad("a %s line at threshold %s: %s", LN[k], LN[level], esc(l, 200).c_str()); } } else if (first) return bad("%s: %s", e.c_str(), esc(l, 200).c_str()); }
    return good(); });
  if (i % 997 == 0) c.sample(c.desc);
}
static struct Reg {
  Reg() {
    worker_init = [] { reset_files(); std_files(); };
    if (!is_race_build) {
      add_suite({"C27", "levels", [](bool) { return 6l * 8 * 3; }, s_levels, 20, "6 levels, thresholds below, at and above each, to standard error and to a file"});
      add_suite({"C27", "macros", [](bool) { return 36l; }, s_macros, 20, "6 macros, 6 thresholds"});
      add_suite({"C27", "lengths", [](bool th) { return 5l * ((th ? 20000 : 4400) + 17); }, s_lengths, 20, "messages, file and function names of 0..4399 bytes and 17 sizes up to 1 MB", "0..19999 bytes"});
      add_suite({"C27", "bytes", [](bool) { return 5l * 6 * 2 * 255; }, s_bytes, 20, "every byte first, last, alone and inside of a message, 5 levels, as argument and as format"});
      add_suite({"C27", "formats", [](bool) { return 19l * 19; }, s_formats, 20, "all pairs of 19 formatted messages"});
      add_suite({"C27", "clock", [](bool th) { return 3l * (th ? 75000 : 33000); }, s_clock, 20, "three times of every day of 90 years", "205 years"});
      add_suite({"C27", "histories", [](bool th) { return npaths(9, th ? 6 : 5, 1); }, s_history, 20, "all histories of 1..5 of 9 calls", "1..6"});
      add_suite({"C27", "existing-log", [](bool) { return 20l; }, s_existing, 20, "log files with 0..19 lines"});
      add_suite({"C27", "server-lines", [](bool) { return (long)server_requests().size() * 10; }, s_server, 20, "the corpus and 135 requests with format directives, 5 levels, plain and TLS"});
    }
    add_suite({"C27", "threads", [](bool) { return 4l * 3 * 3 * 2 * 2 * 4; }, s_threads, 200, "2-3 threads with 1-3 messages of 3 lengths, 3 thresholds, every schedule with at most 3 preemptions at stdio calls; data race detection", "4 preemptions"});
    add_suite({"C27", "fatal", [](bool) { return 3l * 2 * 2 * 4; }, s_fatal, 200, "a fatal message next to another thread, at most 3 preemptions", "4 preemptions"});
  }
} reg;
