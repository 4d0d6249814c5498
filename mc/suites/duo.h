// Library functions called by two threads at the same time: each call must return what it returns alone, and the calls must
// not touch common memory (race build). Used by the properties about the helper modules.
#pragma once
#include "common.h"
struct Op { const char *name; std::function<str(int)> f; };   // f(k): calls the function with the k-th set of arguments, gives its result as text
static std::vector<Op> &ops() { static std::vector<Op> v; return v; }
static int duo_kinds = 3;
static str op_alone(int o, int k) {
  static std::map<std::pair<int, int>, str> memo; auto key = std::make_pair(o, k); auto it = memo.find(key); if (it != memo.end()) return it->second;
  begin(); str s; launch([&] { s = ops()[o].f(k); }); run(); return memo[key] = s;
}
static void s_duo(long i, Ctx &c) {
  int n = (int)ops().size(); Mix m(i); int a = m(n), b = m(n), ka = m(duo_kinds), kb = m(duo_kinds), reps = 1 + m(2); if (b < a) return;
  static bool filed; if (!filed) { filed = true; reset_files(); }
  c.desc = strf("two threads: %s(arguments %d) and %s(arguments %d), %d times each", ops()[a].name, ka, ops()[b].name, kb, reps);
  str wa = op_alone(a, ka), wb = op_alone(b, kb + 3);
  c.explore(c.thorough ? 2 : 1, [&] {
    begin(); E->io_points = true; strs A, B; launch([&] { spawn([&] { for (int r = 0; r < reps; r++) { A.push_back(ops()[a].f(ka)); point("between"); } }); spawn([&] { for (int r = 0; r < reps; r++) { B.push_back(ops()[b].f(kb + 3)); point("between"); } }); });
    if (is_race_build) race_on = true; run(); race_on = false; c.outcome(fnv(joinv(A, "|") + joinv(B, "|")));
    NOMISUSE; if (!E->races.empty()) return bad("data race: %s", E->races[0].c_str()); if (E->exited) return bad("the process ended");
    for (auto &s : A) if (s != wa) return bad("%s returns %s instead of %s", ops()[a].name, esc(s, 200).c_str(), esc(wa, 200).c_str()); for (auto &s : B) if (s != wb) return bad("%s returns %s instead of %s", ops()[b].name, esc(s, 200).c_str(), esc(wb, 200).c_str());
    if ((int)A.size() != reps || (int)B.size() != reps) return bad("a thread did not finish"); return good();
  });
  if (i % 97 == 0) c.sample(c.desc);
}
static void duo_suite(const char *prop, std::vector<Op> v) {
  ops() = v; Suite s{prop, "two-threads", [](bool) { long n = ops().size(); return n * n * duo_kinds * duo_kinds * 2; }, s_duo, 100, "all pairs of the functions with 3 x 3 arguments called once or twice by two threads; at most 1 preemption at file operations and between calls; no data races (race build)", "at most 2 preemptions"};
  s.race_too = true; add_suite(s);
}
