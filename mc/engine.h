// Controlled environment for the real wayuu code ("SUT"): deterministic scheduler, virtual network,
// file-system containment, heap accounting, fault injection and an exhaustive deviation-bounded explorer.
#pragma once
#include <cstdint>
#include <cstdio>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

#define MC_PREEMPT 1   // choice kinds (what a non-default answer means)
#define MC_FREE 2
#define MC_SPURIOUS 3
#define MC_FAULT 4

namespace mc {

typedef std::string str;
str strf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
str esc(const str &s, size_t max = 400);          // printable form
uint64_t fnv(const str &s, uint64_t h = 1469598103934665603ull);
bool has(const str &hay, const str &needle);

// ---------------------------------------------------------------- network
enum EndKind { END_EOF, END_BLOCK, END_RESET };
struct Conn {
  int id = 0;
  str ip = "10.0.0.1";
  std::vector<str> segs;        // client bytes, recv never crosses a segment
  size_t seg = 0, off = 0;
  EndKind end = END_EOF;        // what recv finds after the data
  str out;                      // bytes the client received (plaintext, in order)
  str raw_out;                  // of those, bytes sent outside TLS
  size_t raw_in = 0;            // bytes read outside TLS
  int fd = -1;                  // server side descriptor once accepted
  bool accepted = false, closed = false;
  int closes = 0, after_close = 0;
  int send_calls = 0;
  long fail_send_at = -1;       // this send call (0-based) and later ones fail with EPIPE
  std::vector<int> short_sends; // i-th send accepts at most this many bytes (0 = all); last repeats if short_repeat
  bool short_repeat = false;
  int intr_send_at = -1;        // this send call is interrupted once (EINTR)
  int intr_burst = 0;           // every send call is interrupted this many times in a row before it takes bytes
  bool peername_fails = false;
  int tls_handshake_fails = 0;       // 1: SSL_accept returns -1, 2: it returns 0
  long tls_write_fail_at = -1, tls_writes = 0; // this SSL_write call (0-based) and later ones fail while the socket works
  long tls_read_fail_at = -1;   // after that many plaintext bytes SSL_read fails
  bool tls_session = false, tls_ok = false, tls_shutdown = false;
  long seq_accept = -1, seq_close = -1;
  long read_count = 0;
  bool reset_by_close = false;
  int closed_by = -1;
};

struct Block { size_t size; uint64_t seq; void *site; bool big; };
struct LogWrite { int tid; str data; };
struct OpenRec { str path; bool write; bool ok; };

struct Env {                     // one execution
  // configuration
  bool tls = false;
  unsigned char fill = 0;        // contents of uninitialised heap and stack
  int max_workers = 1;           // logical workers actually created (others never get scheduled)
  bool net_points = false;       // scheduling points at request-line/header boundaries, sends
  bool io_points = false;        // scheduling points at stdio calls
  bool spurious = false;         // allow spurious condition wake-ups (1 deviation each)
  bool quiet = false;            // no choice points (deterministic prefix of an execution)
  long horizon = 20000000;
  // faults
  std::vector<int> accept_errors;             // errno answers before the next real accept (consumed)
  std::map<str, std::map<int, int>> call_fail; // call name -> occurrence -> errno
  std::map<str, int> call_count;
  bool tls_cert_ok = true, tls_key_ok = true;
  // observation
  std::vector<Conn *> conns;
  std::vector<Conn *> backlog;
  size_t backlog_pos = 0;
  str bind_addr; int bind_port = -1; int binds = 0, listens = 0; bool listening = false;
  int exit_code = -1; bool exited = false;
  bool aborted_livelock = false;
  std::vector<str> errors;       // misuse observed (double close, unlock of foreign mutex, ...)
  std::vector<str> escapes;      // file accesses outside the scratch directory (denied)
  std::vector<OpenRec> opens;
  std::vector<LogWrite> access_log, main_log;
  str stdout_text;
  int open_files = 0; int md_ctx = 0;
  int ssl_sessions = 0;          // SSL_new minus SSL_free
  int ssl_ctx_real = 0;
  std::vector<str> ssl_files;    // certificate/key files configured
  std::map<int, str> signals;
  long raw_send_calls = 0;
  uint64_t now_ms = 1700000000000ull;
  std::vector<str> races;
  long seq = 0;                  // global event counter
};
extern Env *E;

// life cycle of one execution
void begin();                               // restore SUT globals, free SUT heap, fresh Env
void end();                                 // abort live threads, free everything
Conn *client(const str &ip, const str &data, EndKind end = END_EOF);   // connection arrives
Conn *client_segs(const str &ip, const std::vector<str> &segs, EndKind end = END_EOF);
Conn *conn_of_fd(int fd);                   // open connection with that server side descriptor
void more(Conn *c, const str &data);        // further client bytes
void hangup(Conn *c, EndKind e = END_EOF);
void launch(std::function<void()> mainfn);  // create logical main thread
void spawn(std::function<void()> fn);       // extra logical thread (harness driven concurrency)
void run();                                 // schedule until quiescent / exit / livelock
bool thread_blocked_on_mutex();
int live_threads();
bool quiescent_idle();                      // main in accept, workers all waiting for work
int self();                                 // logical thread id, -1 driver
void point(const char *what);               // explicit scheduling point (harness code in handlers)
void wait_until(std::function<bool()> pred, const char *what); // block the calling logical thread
void stack_paint(unsigned char v);
void poison_stack();

// heap accounting (blocks allocated by SUT code)
size_t heap_blocks();
size_t heap_bytes();
uint64_t heap_seq();
std::vector<std::pair<void *, Block>> heap_since(uint64_t seq);
void heap_forget(void *p);                  // harness took ownership
struct FreeRec { size_t size; std::vector<uintptr_t> words; };
extern std::vector<FreeRec> *record_frees;  // if set, contents of freed blocks are recorded

// files
extern str SCR;                             // scratch directory of this process
void put_file(const str &path, const str &data);   // host file system, path under SCR
bool get_file(const str &path, str &data);
void wipe(const str &dir);                  // empty a directory under SCR
std::vector<str> list_dir(const str &dir);
void mkdirs(const str &path);

// ---------------------------------------------------------------- choices / exploration
int choose(int n, int kind);                // environment choice of the current execution
void dry(bool);                             // (internal)

struct Result { bool ok = true; str msg; str key; };
Result good();
Result bad(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
Result badkey(const str &key, const char *fmt, ...) __attribute__((format(printf, 2, 3)));

struct Ctx {
  long idx = 0; const char *tier = "quick"; bool thorough = false;
  // one deterministic execution with default choices
  void one(const std::function<Result()> &fn);
  // all executions with at most `bound` deviations; shard/nshards splits the first level
  void explore(int bound, const std::function<Result()> &fn, int shard = 0, int nshards = 1, long max_execs = -1);
  void outcome(uint64_t h);                 // distinct outcomes are counted
  void state(uint64_t h);                   // distinct states are counted
  void count(const char *name, long n = 1); // named counters
  void sample(const str &s);
  bool refine = true, keep_racy = false;    // race build: turn racing accesses into scheduling points and explore again
  str desc;                                 // set by the suite: human readable case
};

struct Suite {
  const char *property;
  const char *name;
  std::function<long(bool thorough)> ncases;
  std::function<void(long idx, Ctx &)> run;
  int timeout_s = 20;
  const char *bound_quick = "", *bound_thorough = "";
  bool worker_init_each = false;
  bool race_too = false;            // also part of the race build (other than C01, C03, C04, C16, C19, C27, whose suites all are)
};
void add_suite(const Suite &s);
extern std::function<void()> worker_init;   // called once in each worker process after SCR exists
int mc_main(int argc, char **argv);

// race detector hooks (no-ops unless the race build is linked)
void touch(const void *p, size_t n, bool write, void *pc);
extern bool race_on;
extern bool is_race_build;

// used by shims
int shim_fault(const char *call);           // 0 or errno to fail with
}
