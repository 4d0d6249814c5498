// Several requests at the same time on the real workers: each must behave as if it were processed alone, and the server's
// threads must not race (race build). Used by C19 for its whole corpus and by other properties for the requests they are about.
#pragma once
#include "obs.h"
// the name of a temporary file contains the worker's number
static str norm(const str &s) {
  str o; size_t p = 0; for (;;) { size_t q = s.find("tmpfile=", p); if (q == str::npos) { o += s.substr(p); return o; } q += 8; o += s.substr(p, q - p); while (q < s.size() && isdigit((unsigned char)s[q])) q++; p = q; }
}
struct Item { const char *name; str bytes; };
static std::vector<Item> &items() { static std::vector<Item> v; return v; }
static int item(const char *n) { for (size_t k = 0; k < items().size(); k++) if (!strcmp(items()[k].name, n)) return (int)k; _exit(98); }
static Obs alone(int k, const str &ip, bool tls) {
  static std::map<str, Obs> memo; str key = strf("%d %s %d", k, ip.c_str(), tls); auto it = memo.find(key); if (it != memo.end()) return it->second;
  begin(); E->quiet = true; std_server(1, tls); run(); Obs o = observe(ip, items()[k].bytes); str f; o.out = norm(o.out); o.seen = norm(o.seen); o.files = ""; memo[key] = o; return o;
}
// the files a handler's form data names, with their contents
static str files_of(const str &s) { str o; for (size_t p = s.find("tmpfile="); p != str::npos; p = s.find("tmpfile=", p + 1)) { size_t e = p + 8; while (e < s.size() && (isalnum((unsigned char)s[e]) || s[e] == '-')) e++; str d; if (get_file(SCR + "/upload/" + s.substr(p + 8, e - p - 8), d)) o += d + "|"; else o += "missing|"; } return o; }
static std::map<str, str> uploads_want;   // expected contents of the uploaded files by item name (optional)
static str upload_want(const char *n) { auto i = uploads_want.find(n); return i == uploads_want.end() ? "" : i->second; }
static Result together(Ctx &c, const std::vector<int> &K, bool tls, int workers, bool io, bool net, bool hp) {
  std::vector<Obs> want; std::vector<Conn *> Q; for (size_t k = 0; k < K.size(); k++) want.push_back(alone(K[k], strf("10.0.0.%zu", k + 1), tls));
  begin(); E->io_points = io; E->net_points = net; std_server(workers, tls); wipe(SCR + "/upload"); E->quiet = true; run(); E->quiet = false;
  std::map<int, str> files; on_handler = [&](api_request *r, int n) { Conn *q = conn_of_fd(r->socket); if (hp) point("handler"); if (q) files[q->id] = files_of(S(r->form)); Seen a = look(r, n, false); if (hp) { point("handler"); Seen b = look(r, n, false); b.seq = a.seq; if (a.text() != b.text()) { E->errors.push_back("the request changed while its handler ran: " + esc(b.text(), 300)); } } std_handler(r, n); };
  size_t s0 = seen.size();
  for (size_t k = 0; k < K.size(); k++) Q.push_back(client(strf("10.0.0.%zu", k + 1), items()[K[k]].bytes));
  if (is_race_build) race_on = true; run(); race_on = false;
  NOMISUSE; if (!E->races.empty()) return bad("data race: %s", E->races[0].c_str());
  uint64_t h = 0; for (size_t k = 0; k < K.size(); k++) {
    Obs g; g.out = norm(Q[k]->out); g.closed = Q[k]->closed; g.seen = norm(seen_text(s0, Q[k]->id)); g.log = want[k].log; h = fnv(g.out + g.seen, h);
    str d = diff_obs(g, want[k]); if (!d.empty()) return bad("request %zu (\"%s\"): %s", k + 1, items()[K[k]].name, d.c_str());
    str fw = upload_want(items()[K[k]].name); if (!fw.empty() && files[Q[k]->id] != fw) return bad("request %zu: the stored file is %s", k + 1, esc(files[Q[k]->id], 200).c_str());
  }
  c.outcome(h); return good();
}
static bool conc_tls = false;
static void s_conc_pairs(long i, Ctx &c) {
  int n = (int)items().size(); Mix m(i); int sh = m(2), a = m(n), b = m(n), tls = m(2), pts = m(2); if (b < a || (tls && !conc_tls)) return;
  static bool filed; if (!filed) { filed = true; reset_files(); std_files(); }   // a worker process runs one suite
  c.desc = strf("two workers%s: \"%s\" and \"%s\", switching at %s", tls ? " (TLS)" : "", items()[a].name, items()[b].name, pts ? "stdio calls" : "network calls and in handlers");
  c.explore(c.thorough ? 2 : 1, [&] { return together(c, {a, b}, tls, 2, pts, !pts, !pts); }, sh, 2);
  if (i % 37 == 0) c.sample(c.desc);
}
// registers the suite "concurrent-pairs" of a property: all pairs of the named corpus requests and the extra ones
static void conc_suite(const char *prop, const std::vector<const char *> &names, const std::vector<Item> &extra = {}, bool tls = false) {
  for (auto n : names) items().push_back({n, corpus()[corpus_index(n)].bytes}); for (auto &e : extra) items().push_back(e); conc_tls = tls;
  Suite s{prop, "concurrent-pairs", [](bool) { long n = items().size(); return n * n * 8; }, s_conc_pairs, 200, "all pairs of the requests this property is about on two workers, each must behave as if alone; at most 1 preemption at network calls and in handlers, or at stdio calls; data race detection", "at most 2 preemptions"};
  s.race_too = true; add_suite(s);
}
