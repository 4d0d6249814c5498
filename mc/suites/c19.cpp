// C19: concurrent requests do not interfere.
#include "conc.h"

static const std::vector<Item> &all_items() {
  auto &v = items(); if (!v.empty()) return v;
  for (const char *n : {"api get with query", "api post item", "filter accepts", "filter refuses", "error object", "handler stream", "handler login", "multipart", "text file", "binary file", "missing file", "folder", "no route", "many headers", "long header", "cookie session", "real ip", "body too short", "garbage", "truncated headers", "api post", "limit zero", "handler csv", "long content type"}) v.push_back({n, corpus()[corpus_index(n)].bytes});
  v.push_back({"other multipart", post_("/api/item/55", "--Q\r\nContent-Disposition: form-data; name=\"other\"; filename=\"o.bin\"\r\n\r\n" + binpat(70, 3) + "\r\n--Q\r\nContent-Disposition: form-data; name=\"w\"\r\n\r\nother value\r\n--Q--\r\n", {"Content-Type: multipart/form-data; boundary=Q", "X-Session: othersession"})});
  v.push_back({"other query", get_("/api/item/other?other=query", {"Cookie: z=1; WSSESSION=othercookie", "User-Agent: otheragent", "Referer: otherref", "Content-Type: other/type; x=y"})});
  uploads_want["multipart"] = "file\r\ndata" + allbytes(0, 255) + "|"; uploads_want["other multipart"] = binpat(70, 3) + "|";
  return v;
}
static void s_pairs(long i, Ctx &c) {
  int n = (int)items().size(); Mix m(i); int sh = m(2), a = m(n), b = m(n), tls = m(2), pts = m(2); if (b < a) return; if (tls && !c.thorough && a != b && (a + b) % 5) return;
  c.desc = strf("two workers%s: \"%s\" and \"%s\", switching at %s", tls ? " (TLS)" : "", items()[a].name, items()[b].name, pts ? "stdio calls" : "network calls and in handlers");
  c.explore(c.thorough ? 2 : 1, [&] { return together(c, {a, b}, tls, 2, pts, !pts, !pts); }, sh, 2);
  if (i % 499 == 0) c.sample(c.desc);
}
static void s_triples(long i, Ctx &c) {
  static const char *K[] = {"api post item", "multipart", "other multipart", "text file", "other query", "handler login", "filter refuses", "garbage"}; Mix m(i); int sh = m(2), a = m(8), b = m(8), d = m(8), w = m(2); if (b < a || d < b) return; if (!c.thorough && (w || b == a || d == b || (a + b + d) % 2)) return; c.desc = strf("%d workers: \"%s\", \"%s\" and \"%s\"", 3 - w, K[a], K[b], K[d]);
  c.explore(1, [&] { return together(c, {item(K[a]), item(K[b]), item(K[d])}, false, 3 - w, true, true, false); }, sh, 2);
}
// two preemptions on the requests with most state
static void s_deep(long i, Ctx &c) {
  static const char *K[] = {"multipart", "other multipart", "other query", "handler login", "api post item"}; Mix m(i); int sh = m(16), a = m(5), b = m(5); if (b < a) return; c.desc = strf("two workers, two preemptions: \"%s\" and \"%s\"", K[a], K[b]); c.explore(2, [&] { return together(c, {item(K[a]), item(K[b])}, false, 2, true, false, true); }, sh, 16);
}
static struct Reg {
  Reg() {
    all_items(); worker_init = [] { reset_files(); std_files(); };
    add_suite({"C19", "pairs", [](bool) { long n = items().size(); return n * n * 8; }, s_pairs, 200, "all pairs of 26 requests on two workers, at most 1 preemption at network calls and in handlers, or at stdio calls; data race detection with racing accesses as further scheduling points; TLS for a fifth of the pairs", "at most 2 preemptions, all pairs over TLS"});
    add_suite({"C19", "triples", [](bool) { return 2l * 512 * 2; }, s_triples, 200, "28 triples of 8 requests on three workers, at most 1 preemption", "all triples, also on two workers"});
    if (!is_race_build) add_suite({"C19", "two-preemptions", [](bool) { return 16l * 25; }, s_deep, 300, "all pairs of 5 requests, at most 2 preemptions at stdio calls and in handlers"});
  }
} reg;
