// Everything that can be observed of one request, in a form that can be compared between executions.
#pragma once
#include "corpus.h"
struct Obs { str out, seen, files, log; bool closed = false; bool operator==(const Obs &o) const { return out == o.out && seen == o.seen && files == o.files && log == o.log && closed == o.closed; } };
static str access_text() { str o; for (auto &w : E->access_log) o += w.data; return o; }
static str seen_text(size_t from, int conn = -1) { str o; for (size_t k = from; k < seen.size(); k++) { if (conn >= 0 && seen[k].conn != conn) continue; o += seen[k].text() + "\n"; } return o; }
static std::map<str, str> upload_state() { std::map<str, str> m; for (auto &f : list_dir(SCR + "/upload")) { str d; get_file(SCR + "/upload/" + f, d); m[f] = d; } return m; }
static str diff_obs(const Obs &a, const Obs &want) {
  if (a.out != want.out) return strf("the response is %s instead of %s", esc(a.out, 500).c_str(), esc(want.out, 500).c_str());
  if (a.seen != want.seen) return strf("the handler saw %s instead of %s", esc(a.seen, 600).c_str(), esc(want.seen, 600).c_str());
  if (a.files != want.files) return strf("the stored files are %s instead of %s", esc(a.files, 300).c_str(), esc(want.files, 300).c_str());
  if (a.log != want.log) return strf("the log record is %s instead of %s", esc(a.log, 400).c_str(), esc(want.log, 400).c_str());
  if (a.closed != want.closed) return a.closed ? "the connection was closed" : "the connection was not closed";
  return "";
}
// one request on an idle server (upload folder emptied before)
static Obs observe(const str &ip, const str &bytes, EndKind end = END_EOF) {
  wipe(SCR + "/upload"); Obs o; size_t s0 = seen.size(), l0 = access_text().size(); Conn *q = client(ip, bytes, end); run();
  o.out = q->out; o.closed = q->closed; o.seen = seen_text(s0); o.log = access_text().substr(l0); for (auto &f : upload_state()) o.files += f.first + ":" + f.second + "\n";
  return o;
}
