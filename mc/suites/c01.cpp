// C01: each accepted connection is handed to exactly one worker, exactly once, in arrival order.
#include "common.h"
extern "C" int mc_close(int);

struct Hand { int conn, tid, fd; long seq; };
static std::vector<Hand> hands; static std::set<int> busy; static int inside;
static std::function<bool(int)> holds;     // connection id -> stays in its handler
static void taker(int fd) {
  Conn *c = conn_of_fd(fd); hands.push_back({c ? c->id : -1, self(), fd, ++E->seq});
  int id = c ? c->id : -1; inside++;
  point("in handler");
  if (holds && holds(id)) wait_until([id] { return !holds(id); }, "handler");
  inside--;
  if (c) mc_close(fd);
}
static void start(int workers) { begin(); setup_globals(); hands.clear(); inside = 0; holds = nullptr; serve(workers, taker); }
// invariants over the whole history; `idle`: a worker is waiting for work
static Result verdict(int workers, bool in_order, const std::set<int> &filtered) {
  NOMISUSE;
  std::map<int, int> n; long last = -1;
  for (auto &h : hands) {
    if (h.conn < 0) return bad("a worker received descriptor %d, which is not an accepted, open connection", h.fd);
    if (++n[h.conn] > 1) return bad("connection %d was handed out twice", h.conn);
    if (filtered.count(h.conn)) return bad("connection %d is filtered by its address but was handed out", h.conn);
    if (E->conns[h.conn]->seq_accept < last && in_order) return bad("connection %d was handed out after a later one", h.conn);
    last = E->conns[h.conn]->seq_accept;
  }
  for (auto c : E->conns) {
    if (!c->accepted) return bad("connection %d was never accepted", c->id);
    if (n.count(c->id) || filtered.count(c->id)) continue;
    if (c->closed) { // refused: only if the queue was full at some time between its acceptance and its closing.
      // Only the acceptor adds to the queue, so at the acceptance at least as many were waiting as at any time since
      int waiting = 0; long at = c->seq_accept;
      for (auto o : E->conns) if (o != c && o->accepted && o->seq_accept < at && !filtered.count(o->id)) {
        long hs = -1; for (auto &h : hands) if (h.conn == o->id) hs = h.seq;
        if (hs >= 0 ? hs > at : (!o->closed || o->seq_close > at)) waiting++;
      }
      if (waiting < WS_MAX_CONNECTIONS) return bad("connection %d was dropped while only %d connections were waiting", c->id, waiting);
    } else if (inside < workers) return bad("connection %d waits although %d of %d workers are idle", c->id, workers - inside, workers);
  }
  return good();
}
static uint64_t history() { str o; for (auto &h : hands) o += strf("%d@%d ", h.conn, h.tid); return fnv(o); }

// ---- (a) interleavings: W workers, K connections; arrivals before, during and after; some handlers block
static void s_inter(long i, Ctx &c) {
  Mix m(i); int W = m(3) + 1, K = m(3) + 2, arr = m(3), blk = m(3), flt = m(2), sh = m(4);
  bool sp = m(2);
  if (blk == 2 && W == 1) return;
  if (!c.thorough && (W == 3 && K == 4)) return;
  c.desc = strf("%d workers, %d connections, arrival pattern %d, handlers %s, %s%s", W, K, arr, blk == 0 ? "return at once" : blk == 1 ? "of the first connection block until the last arrived" : "of every second connection block", flt ? "second connection is filtered" : "no filter", sp ? ", spurious wake-ups" : "");
  int bound = c.thorough ? (W * K > 6 ? 2 : 3) : (W * K > 4 || (sp && W * K > 3) ? 1 : 2);
  if (is_race_build) bound = 1;
  auto fn = [&] {
    start(W); E->spurious = sp; race_on = is_race_build;
    std::set<int> filt; if (flt) { put_file(ETC() + "/deny", "10.0.0.9\n"); filt.insert(1); } else { str x; if (get_file(ETC() + "/deny", x)) unlink((ETC() + "/deny").c_str()); }
    auto ip = [flt](int k) { return str(flt && k == 1 ? "10.0.0.9" : "10.0.0.1"); };
    static bool all; all = false;
    if (blk == 1) holds = [](int id) { return id == 0 && !all; };
    if (blk == 2) holds = [](int id) { return id % 2 == 0 && !all; };
    if (arr == 0) { for (int k = 0; k < K; k++) client(ip(k), "", END_BLOCK); run(); }
    else if (arr == 1) { spawn([K, ip] { for (int k = 0; k < K; k++) { client(ip(k), "", END_BLOCK); point("arrived"); } }); run(); }
    else { for (int k = 0; k < K; k++) { client(ip(k), "", END_BLOCK); if (k != 1) run(); } run(); }
    race_on = false;
    Result r = verdict(W, W == 1, filt); if (!r.ok) return r;
    all = true; race_on = is_race_build; run(); race_on = false;
    c.outcome(history());
    r = verdict(W, W == 1, filt); if (!r.ok) return r;
    for (auto q : E->conns) if (!filt.count(q->id)) { int n = 0; for (auto &h : hands) n += h.conn == q->id; if (n != 1) return bad("connection %d was handed out %d times", q->id, n); }
    if (is_race_build && !E->races.empty()) return bad("%s", E->races[0].c_str());
    return good();
  };
  c.explore(bound, fn, sh, 4);
  if (sh == 0 && W > 1) c.explore(0, [&] { Result r = fn(); return r.ok ? verdict(W, true, flt ? std::set<int>{1} : std::set<int>{}) : r; });
  if (i % 53 == 0) c.sample(c.desc);
}
// ---- (b) fill levels and wrap-around: the ring is advanced by `off`, then filled with n while all workers are busy,
//      d connections are drained, and n2 more arrive
static const int OFF[] = {0, 1, 2, 511, 1022, 1023, 1024, 1025, 2047, 2048};
static const int NF[] = {0, 1, 2, 3, 512, 1022, 1023, 1024, 1025, 1026, 1100, 2050};
static const int DR[] = {0, 1, 2, 512, 1023, 1024, 5000};
static const int N2[] = {0, 1, 2, 513, 1024, 1030};
static void s_ring(long i, Ctx &c) {
  Mix m(i); int off = OFF[m(10)], n = NF[m(12)], d = DR[m(7)], n2 = N2[m(6)], W = m(2) + 1;
  if (!c.thorough && (W == 2 ? (off % 1024 > 1 && off != 1023) || n % 1024 > 1 || n2 % 1024 > 1 : (off == 2 || off == 511 || n == 3 || n == 2050 || n == 512 || d == 512))) return;
  c.desc = strf("%d workers, ring advanced by %d, %d arrivals while busy, %d drained, %d more arrivals", W, off, n, d, n2);
  c.one([&] {
    start(W);
    unlink((ETC() + "/deny").c_str());
    for (int k = 0; k < off; k++) { client("10.0.0.1", "", END_BLOCK); if (k % 700 == 699) run(); }
    run();
    if ((int)hands.size() != off) return bad("only %zu of %d connections were handed out", hands.size(), off);
    static int gate; gate = off; // connections with id >= gate stay in their handler
    holds = [](int id) { return id >= gate; };
    for (int k = 0; k < W; k++) client("10.0.0.1", "", END_BLOCK);
    run();
    if (inside != W) return bad("%d workers, but only %d got a connection", W, inside);
    size_t first = E->conns.size(); int waiting = 0; std::set<int> refused;
    auto arrive = [&](int k) { for (int q = 0; q < k; q++) { Conn *x = client("10.0.0.1", "", END_BLOCK); if (waiting < WS_MAX_CONNECTIONS) waiting++; else refused.insert(x->id); } run(); };
    arrive(n);
    for (int id : refused) if (!E->conns[id]->closed) return bad("connection %d does not fit into the queue but is still open", id);
    size_t h0 = hands.size();
    if (h0 != first) return bad("%zu connections handed out, expected %zu", h0, first);
    // drain d connections: the blocked ones finish first
    if (d > 0) {
      int dd = std::min(d, waiting); size_t k = 0; int last = off + W - 1; int got = 0;
      // find the id up to which handlers may return so that exactly dd waiting connections are taken
      std::vector<int> order; for (size_t q = first; q < E->conns.size(); q++) if (!refused.count((int)q)) order.push_back((int)q);
      (void)k; (void)got; (void)last;
      // W handlers return -> W taken; each further return takes one more. Let ids < gate return.
      if (dd <= W) { gate = off + dd; } else gate = order[dd - W];
      run(); waiting -= dd;
      if ((int)(hands.size() - h0) != dd) return bad("%d handlers were free to return but %zu connections were taken", dd, hands.size() - h0);
    }
    arrive(n2);
    for (int id : refused) if (!E->conns[id]->closed) return bad("connection %d does not fit into the queue but is still open", id);
    gate = 1 << 30; run();
    NOMISUSE;
    std::vector<int> want; for (auto q : E->conns) if (!refused.count(q->id)) want.push_back(q->id);
    if (hands.size() != want.size()) return bad("%zu of %zu connections were handed out", hands.size(), want.size());
    for (size_t q = 0; q < want.size(); q++) if (hands[q].conn != want[q]) return bad("%zu-th handed out connection is %d, expected %d", q, hands[q].conn, want[q]);
    c.outcome(fnv(strf("%zu %zu", want.size(), refused.size())));
    return good();
  });
  if (i % 499 == 0) c.sample(c.desc);
}
// ---- (c) interleavings around a wrap and around a full queue
static void s_edge(long i, Ctx &c) {
  Mix m(i); static const int LV[] = {1021, 1022, 1023, 1024}; int full = m(2); int lv = LV[m(4)]; int W = m(2) + 1; int K = m(2) + 2; int sh = m(8);
  c.desc = strf("%d workers; %s %d, then %d arrivals concurrent with the workers", W, full ? "queue filled to" : "ring advanced by", lv, K);
  c.explore(c.thorough ? 2 : 1, [&] {
    start(W); E->quiet = true; unlink((ETC() + "/deny").c_str());
    static bool hold; hold = true;
    if (full) { holds = [](int) { return hold; }; for (int k = 0; k < W; k++) client("10.0.0.1", "", END_BLOCK); run(); }
    for (int k = 0; k < lv; k++) client("10.0.0.1", "", END_BLOCK);
    run(); E->quiet = false;
    if (full) {
      // the first W connections are released while K more arrive
      spawn([W, K] { static int lim; lim = W; holds = [](int id) { return id >= lim; }; for (int k = 0; k < K; k++) { client("10.0.0.1", "", END_BLOCK); point("arrived"); } });
    } else for (int k = 0; k < K; k++) client("10.0.0.1", "", END_BLOCK);
    run();
    Result r = verdict(W, false, {}); if (!r.ok) return r;
    holds = [](int) { return false; }; E->quiet = true; run();
    r = verdict(W, W == 1, {}); if (!r.ok) return r;
    c.outcome(fnv(strf("%zu", hands.size())));
    return good();
  }, sh, 8);
  if (i % 29 == 0) c.sample(c.desc);
}
// ---- (d) failing accepts and filtered clients in between: nobody is lost
static void s_mixed(long i, Ctx &c) {
  int W = i % 2 + 1; auto w = word(i / 2, 4, 1); // 0 client, 1 filtered client, 2 accept error EINTR, 3 ECONNABORTED
  str d; for (int x : w) d += "CFIA"[x]; c.desc = strf("%d workers, arrival history %s (C client, F filtered client, I/A failing accept)", W, d.c_str());
  c.one([&] {
    start(W); put_file(ETC() + "/deny", "10.0.0.9\n"); std::set<int> filt;
    for (int x : w) { if (x == 0) client("10.0.0.1", "", END_BLOCK); else if (x == 1) filt.insert(client("10.0.0.9", "", END_BLOCK)->id); else E->accept_errors.push_back(x == 2 ? 4 : 103); if (x != 0) run(); }
    run(); Result r = verdict(W, true, filt); c.outcome(fnv(d) + history());
    size_t want = E->conns.size() - filt.size(); if (r.ok && hands.size() != want) return bad("%zu of %zu connections were handed out", hands.size(), want);
    return r;
  });
  if (i % 301 == 0) c.sample(c.desc);
}
static struct Reg {
  Reg() {
    worker_init = [] { reset_files(); };
    add_suite({"C01", "interleavings", [](bool) { return 3l * 3 * 3 * 3 * 2 * 4 * 2; }, s_inter, 60, "1..3 workers, 2..4 connections, 3 arrival patterns, blocking handlers, filtered client, spurious wake-ups; at most 2 preemptions (1 for the larger, race build 1)", "at most 3 preemptions"});
    if (!is_race_build) {
      add_suite({"C01", "ring", [](bool) { return 10l * 12 * 7 * 6 * 2; }, s_ring, 60, "10 ring offsets x 12 fill levels (0..2050) x 7 drains x 6 second fills x 1..2 workers"});
      add_suite({"C01", "ring-interleavings", [](bool) { return 2l * 4 * 2 * 2 * 8; }, s_edge, 120, "ring advanced or filled to 1021..1024, 2..3 further arrivals, 1..2 workers, at most 1 preemption", "at most 2 preemptions"});
      add_suite({"C01", "histories", [](bool th) { return 2 * npaths(4, th ? 7 : 5, 1); }, s_mixed, 20, "all arrival histories of length 1..5 over client, filtered client, two kinds of failing accept; 1..2 workers", "length 1..7"});
    }
  }
} reg;
