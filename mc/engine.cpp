#include "engine.h"
#include <arpa/inet.h>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <netinet/in.h>
#include <openssl/err.h>
#include <openssl/ssl.h>
#include <openssl/evp.h>
#include <poll.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <setjmp.h>
#include <signal.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/select.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/file.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>
#include <algorithm>
#include <atomic>

extern "C" {
extern char __start_sutdata[] __attribute__((weak));
extern char __stop_sutdata[] __attribute__((weak));
void __asan_poison_memory_region(void const volatile *, size_t) __attribute__((weak));
void __asan_unpoison_memory_region(void const volatile *, size_t) __attribute__((weak));
void *__asan_region_is_poisoned(void *, size_t) __attribute__((weak));
}
#ifdef MC_ASAN
extern "C" const char *__asan_default_options() {
  return "detect_leaks=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=0:quarantine_size_mb=4:"
         "thread_local_quarantine_size_kb=64:max_malloc_fill_size=0:allocator_may_return_null=1:max_allocation_size_mb=6000:"
         "handle_abort=1:symbolize=0:allow_user_segv_handler=1:malloc_context_size=3:print_legend=0:strict_string_checks=0:intercept_tls_get_addr=0";
}
extern "C" const char *__ubsan_default_options() { return "print_stacktrace=0:symbolize=0"; }
#endif

namespace mc {
Env *E = nullptr;
str SCR;
std::function<void()> worker_init;
std::vector<FreeRec> *record_frees = nullptr;
#ifdef MC_RACE
bool is_race_build = true;
#else
bool is_race_build = false;
#endif
bool race_on = false;

// ------------------------------------------------------------------ text helpers
str strf(const char *fmt, ...) {
  va_list a; va_start(a, fmt); char *p = nullptr; int n = vasprintf(&p, fmt, a); va_end(a);
  str s(p ? p : "", n > 0 ? n : 0); free(p); return s;
}
str esc(const str &s, size_t max) {
  str o; size_t n = 0;
  for (size_t i = 0; i < s.size(); i++) {
    unsigned char c = s[i];
    size_t j = i; while (j < s.size() && s[j] == s[i]) j++;
    if (j - i > 12) { o += (c >= 32 && c < 127 && c != '\\') ? strf("%c{x%zu}", c, j - i) : strf("\\x%02x{x%zu}", c, j - i); i = j - 1; n += 8; }
    else if (c == '\n') o += "\\n"; else if (c == '\r') o += "\\r"; else if (c == '\\') o += "\\\\";
    else if (c < 32 || c > 126) o += strf("\\x%02x", c); else o += (char)c;
    if (++n > max) { o += strf("...(+%zu)", s.size() - i - 1); break; }
  }
  return o;
}
uint64_t fnv(const str &s, uint64_t h) { for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } h ^= s.size() * 0x9e3779b97f4a7c15ull; return h * 1099511628211ull; }
bool has(const str &a, const str &b) { return a.find(b) != str::npos; }

// ------------------------------------------------------------------ vector clocks (race build)
typedef std::vector<uint32_t> VC;
static void vjoin(VC &a, const VC &b) { if (a.size() < b.size()) a.resize(b.size()); for (size_t i = 0; i < b.size(); i++) if (b[i] > a[i]) a[i] = b[i]; }

// ------------------------------------------------------------------ logical threads
static int fwait(std::atomic<int> *a) {
  for (;;) { int v = 1; if (a->compare_exchange_strong(v, 0)) return 0; syscall(SYS_futex, (int *)a, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0); }
}
static void fpost(std::atomic<int> *a) { a->store(1); syscall(SYS_futex, (int *)a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }

struct LT {
  int id = 0; int os = 0;
  enum St { NEW, RUN, BLOCK, DONE } st = NEW;
  std::function<void()> fn; std::function<bool()> ready; const char *what = "";
  void *key1 = nullptr, *key2 = nullptr;           // identity for symmetry (start routine, arg)
  bool cond_wait = false; void *cond = nullptr, *mtx = nullptr; bool signaled = false, on_mutex = false;
  jmp_buf base; bool started = false; long steps = 0;
  VC vc; char *lo = nullptr, *hi = nullptr;
  void *retval = nullptr;
};
struct OSThread { pthread_t th; std::atomic<int> sem{0}; LT *lt = nullptr; char *lo, *hi; };
static std::vector<OSThread *> pool;
static std::vector<LT *> lts;
static LT *cur = nullptr;
static std::atomic<int> driver_sem{0};
static bool aborting = false, exploring = false;
static bool fresh_threads = ::getenv("MC_FRESH_THREADS") != nullptr;   // set when the SUT has thread-local storage
static long total_steps = 0;
static __thread LT *tl_self = nullptr;

int self() { return cur ? cur->id : -1; }
int live_threads() { int n = 0; for (auto t : lts) if (t->st != LT::DONE) n++; return n; }
bool thread_blocked_on_mutex() { for (auto t : lts) if (t->st == LT::BLOCK && t->on_mutex) return true; return false; }
bool quiescent_idle() {
  for (auto t : lts) {
    if (t->st == LT::DONE || t->st == LT::NEW) continue;
    if (t->st == LT::BLOCK && t->cond_wait) continue;
    if (t->st == LT::BLOCK && !strcmp(t->what, "accept")) continue;
    return false;
  }
  return true;
}

// forward: choices
static int choose_costs(int n, const int *cost);

static void race_thread_start(LT *t);

static void *os_main(void *a) {
  OSThread *o = (OSThread *)a;
  pthread_attr_t at; void *sa; size_t ss;
  pthread_getattr_np(pthread_self(), &at); pthread_attr_getstack(&at, &sa, &ss); pthread_attr_destroy(&at);
  o->lo = (char *)sa; o->hi = (char *)sa + ss;
  for (;;) {
    fwait(&o->sem);
    LT *t = o->lt; if (!t) return nullptr; tl_self = t; t->lo = o->lo; t->hi = o->hi;
    extern void thread_body(LT *);
    thread_body(t);
  }
  return nullptr;
}
static LT *new_lt(std::function<void()> fn) {
  LT *t = new LT; t->id = (int)lts.size(); t->fn = fn; lts.push_back(t);
  while (pool.size() < lts.size()) {
    OSThread *o = new OSThread; pool.push_back(o);
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 1 << 20);
    if (pthread_create(&o->th, &at, os_main, o)) { fprintf(stderr, "mc: cannot create thread\n"); _exit(98); }
    pthread_attr_destroy(&at);
  }
  t->os = t->id; pool[t->os]->lt = t;
  if (cur) t->vc = cur->vc;
  race_thread_start(t);
  return t;
}

static bool enabled(LT *t) {
  if (t->st == LT::NEW || t->st == LT::RUN) return true;
  if (t->st == LT::BLOCK) return t->ready();
  return false;
}
static void post(LT *t) { if (t) fpost(&pool[t->os]->sem); else fpost(&driver_sem); }
static void wait_self(LT *t) {
  if (t) fwait(&pool[t->os]->sem); else fwait(&driver_sem);
  if (t && aborting) longjmp(t->base, 1);
}
static void transfer(LT *me, LT *to) { // me keeps its state; control goes to `to` (null = driver)
  if (me == to) return;
  cur = to; post(to); wait_self(me);
}
void thread_body_run(LT *t) { stack_paint(E->fill); t->fn(); }
static LT *pick(LT *me, bool *spur);
void thread_body(LT *t) {
  if (setjmp(t->base) == 0) { t->st = LT::RUN; t->started = true; thread_body_run(t); }
  t->st = LT::DONE;
  if (aborting || E->exited) { cur = nullptr; post(nullptr); return; }
  bool sp = false; LT *n = pick(t, &sp); cur = n; if (n) { if (n->st == LT::BLOCK && !sp) n->st = LT::RUN; } post(n);
}

// choose the next thread; me may be enabled (RUN), blocked or done.
static LT *pick(LT *me, bool *spur) {
  *spur = false;
  if (E->exited) return nullptr;
  LT *c[64]; int cost[64]; bool sp[64]; int n = 0;
  bool me_en = me && me->st != LT::DONE && enabled(me);
  if (me_en) { c[n] = me; cost[n] = 0; sp[n] = false; n++; }
  for (size_t i = 0; i < lts.size() && n < 60; i++) {
    LT *t = lts[i]; if (t == me && me_en) continue;
    if (!enabled(t)) continue;
    if (t->st == LT::NEW && t->key1) { // symmetry: identical not yet started workers
      bool dup = false; for (int k = 0; k < n; k++) if (c[k]->st == LT::NEW && c[k]->key1 == t->key1 && c[k]->key2 == t->key2) dup = true;
      if (dup) continue;
    }
    c[n] = t; cost[n] = me_en ? 1 : 0; sp[n] = false; n++;
  }
  if (E->spurious && exploring && !E->quiet)
    for (size_t i = 0; i < lts.size() && n < 60; i++) {
      LT *t = lts[i];
      if (t->st == LT::BLOCK && t->cond_wait && !t->signaled && !enabled(t)) { c[n] = t; cost[n] = 1; sp[n] = true; n++; }
    }
  int nn = 0; for (int i = 0; i < n; i++) if (!sp[i]) nn++;
  if (nn == 0) return nullptr;          // quiescent: a spurious wake-up alone is not progress
  int k = (n > 1 && exploring && !E->quiet) ? choose_costs(n, cost) : 0;
  if (sp[k]) { c[k]->signaled = true; *spur = true; if (enabled(c[k])) { c[k]->st = LT::RUN; return c[k]; } return pick(me, spur); }
  if (c[k]->st == LT::BLOCK) c[k]->st = LT::RUN;
  return c[k];
}
static void state_note();
static void do_point() {
  LT *me = cur; if (!me || aborting) return;
  me->steps++;
  if (++total_steps > E->horizon) { E->aborted_livelock = true; me->st = LT::BLOCK; me->what = "livelock"; me->ready = [] { return false; }; transfer(me, nullptr); return; }
  if (!exploring || E->quiet) return;
  state_note();
  bool sp; LT *n = pick(me, &sp); if (n != me) transfer(me, n);
}
void point(const char *) { do_point(); }
static void block(LT *me, std::function<bool()> ready, const char *what) {
  me->steps++;
  me->ready = std::move(ready); me->what = what; me->st = LT::BLOCK;
  if (exploring && !E->quiet) state_note();
  bool sp; LT *n = pick(me, &sp);
  if (n != me) transfer(me, n);
  me->st = LT::RUN; me->what = "";
}
void wait_until(std::function<bool()> p, const char *what) { LT *me = cur; if (!me) return; block(me, std::move(p), what); }

void launch(std::function<void()> f) { new_lt(std::move(f)); }
void spawn(std::function<void()> f) { new_lt(std::move(f)); }
void run() {
  if (E->exited) return;
  bool sp; LT *n = pick(nullptr, &sp);
  if (!n) return;
  cur = n; post(n); fwait(&driver_sem); cur = nullptr;
}
static void abort_threads() {
  aborting = true;
  for (auto t : lts) if (t->st != LT::DONE && t->started) { cur = t; post(t); fwait(&driver_sem); cur = nullptr; }
  for (auto t : lts) delete t;
  lts.clear(); aborting = false;
  if (fresh_threads) { for (auto o : pool) { o->lt = nullptr; fpost(&o->sem); pthread_join(o->th, nullptr); delete o; } pool.clear(); }
}
__attribute__((noinline)) void stack_paint(unsigned char v) {
  volatile char buf[48 * 1024];
  void *p = (void *)buf; size_t n = sizeof buf;
  asm volatile("rep stosb" : "+D"(p), "+c"(n) : "a"(v) : "memory");
}

// ------------------------------------------------------------------ synchronisation objects
struct Mutex { int owner = -1; int depth = 0; int readers = 0; VC vc; int kind = 0; };
static std::unordered_map<void *, Mutex> mtxs;
struct CondV { std::vector<LT *> waiters; VC vc; };
static std::unordered_map<void *, CondV> conds;
static std::unordered_map<void *, std::pair<long, VC>> sems;
static std::unordered_map<void *, VC> atomics_vc;

void hb_release(VC &o) { if (!is_race_build || !cur) return; vjoin(o, cur->vc); if ((int)cur->vc.size() <= cur->id) cur->vc.resize(cur->id + 1); cur->vc[cur->id]++; }
void hb_acquire(const VC &o) { if (!is_race_build || !cur) return; vjoin(cur->vc, o); }
void hb_atomic(void *p, bool acq, bool rel) { if (!cur) return; VC &v = atomics_vc[p]; if (acq) hb_acquire(v); if (rel) hb_release(v); }

static int m_lock(void *m, bool recursive, bool try_) {
  LT *me = cur; if (!me || aborting) return 0;
  do_point();
  Mutex *x = &mtxs[m];
  if (recursive && x->owner == me->id) { x->depth++; return 0; }
  if (x->owner >= 0 || x->readers) {
    if (try_) return EBUSY;
    me->on_mutex = true; block(me, [x] { return x->owner < 0 && !x->readers; }, "mutex"); me->on_mutex = false;
  }
  x->owner = me->id; x->depth = 1; hb_acquire(x->vc);
  return 0;
}
static int m_unlock(void *m) {
  LT *me = cur; if (!me || aborting) return 0;
  Mutex *x = &mtxs[m];
  if (x->owner != me->id) { E->errors.push_back("unlock of a mutex not held by the thread"); return EPERM; }
  if (--x->depth > 0) return 0;
  hb_release(x->vc); x->owner = -1;
  do_point();
  return 0;
}

// ------------------------------------------------------------------ heap
static std::unordered_map<void *, Block> heap;
static uint64_t heap_ctr = 0; static size_t heap_total = 0;
static std::map<size_t, std::vector<void *>> bigcache;
static const size_t BIG = 200000;
size_t heap_blocks() { return heap.size(); }
size_t heap_bytes() { return heap_total; }
uint64_t heap_seq() { return heap_ctr; }
std::vector<std::pair<void *, Block>> heap_since(uint64_t s) {
  std::vector<std::pair<void *, Block>> r; for (auto &h : heap) if (h.second.seq > s) r.push_back(h);
  std::sort(r.begin(), r.end(), [](auto &a, auto &b) { return a.second.seq < b.second.seq; }); return r;
}
void heap_forget(void *p) { auto i = heap.find(p); if (i != heap.end()) { heap_total -= i->second.size; heap.erase(i); } }
static void rawset(void *p, int v, size_t n) { asm volatile("rep stosb" : "+D"(p), "+c"(n) : "a"(v) : "memory"); }
static void rawcpy(void *d, const void *s, size_t n) { asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n)::"memory"); }
static void race_forget(void *p, size_t n);
static void *h_alloc(size_t n, bool zero, void *site) {
  void *p = nullptr; bool big = n >= BIG && n < (8u << 20);
  if (big && !bigcache[n].empty()) { p = bigcache[n].back(); bigcache[n].pop_back(); if (__asan_unpoison_memory_region) __asan_unpoison_memory_region(p, n); if (zero) rawset(p, 0, n); }
  else if (zero) p = calloc(1, n ? n : 0);
  else p = malloc(n);
  if (!p) return nullptr;
  if (!zero) rawset(p, E ? E->fill : 0, n < (1u << 20) ? n : (1u << 20));
  heap[p] = Block{n, ++heap_ctr, site, big}; heap_total += n;
  race_forget(p, n);
  return p;
}
static void h_release(void *p, const Block &b) {
  if (b.big) { if (__asan_poison_memory_region) __asan_poison_memory_region(p, b.size); bigcache[b.size].push_back(p); }
  else free(p);
}
static void h_free(void *p) {
  if (!p) return;
  auto i = heap.find(p);
  if (i == heap.end()) { free(p); return; }        // foreign or double free: let the allocator judge
  if (record_frees && i->second.size >= 8 && i->second.size < 65536) {
    FreeRec r; r.size = i->second.size; r.words.resize(r.size / 8); rawcpy(r.words.data(), p, r.words.size() * 8); record_frees->push_back(r);
  }
  Block b = i->second; heap_total -= b.size; heap.erase(i);
  race_forget(p, b.size);
  h_release(p, b);
}
static void heap_reset() { for (auto &h : heap) h_release(h.first, h.second); heap.clear(); heap_total = 0; heap_ctr = 0; }

// ------------------------------------------------------------------ virtual network
static const int VBASE = 1000, LISTEN_FD = 900;
static std::map<int, Conn *> fdmap;
static bool closed_listen = false;
static Conn *by_fd(int fd) { auto i = fdmap.find(fd); return i == fdmap.end() ? nullptr : i->second; }
static bool is_virtual(int fd) { return fd == LISTEN_FD || (fd >= VBASE && fd < VBASE + 100000); }
static bool readable(Conn *c) { return c->seg < c->segs.size() || c->end != END_BLOCK; }
static void net_point() { if (E->net_points) do_point(); }
static Conn *closed_conn(int fd) { Conn *b = nullptr; for (auto c : E->conns) if (c->fd == fd) b = c; return b; }

Conn *conn_of_fd(int fd) { return by_fd(fd); }
Conn *client_segs(const str &ip, const std::vector<str> &segs, EndKind end) {
  Conn *c = new Conn; c->id = (int)E->conns.size(); c->ip = ip; for (auto &s : segs) if (!s.empty()) c->segs.push_back(s); c->end = end;
  E->conns.push_back(c); E->backlog.push_back(c); return c;
}
Conn *client(const str &ip, const str &d, EndKind end) { return client_segs(ip, {d}, end); }
void more(Conn *c, const str &d) { if (!d.empty()) c->segs.push_back(d); }
void hangup(Conn *c, EndKind e) { c->end = e; }

static void region(const void *p, size_t n, const char *what) {
  if (n && p && __asan_region_is_poisoned && __asan_region_is_poisoned((void *)p, n)) E->errors.push_back(strf("%s passes %zu bytes that are not all inside its buffer", what, n));
}
static ssize_t c_recv(int fd, void *buf, size_t n, int flags, bool tls) {
  Conn *c = by_fd(fd);
  if (!c) { Conn *o = closed_conn(fd); if (o) o->after_close++; E->errors.push_back(strf("read from descriptor %d that is not open", fd)); errno = EBADF; return -1; }
  if (int e = shim_fault("recv")) { errno = e; return -1; }
  c->read_count++;
  region(buf, std::min(n, (size_t)1), "recv");
  if (++total_steps > E->horizon) { E->aborted_livelock = true; LT *me = cur; if (me) { me->st = LT::BLOCK; me->ready = [] { return false; }; transfer(me, nullptr); } }
  if (n == 0) return 0;
  if (!readable(c)) {
    if (flags & MSG_DONTWAIT) { errno = EAGAIN; return -1; }
    if (!cur) { errno = EAGAIN; return -1; }
    block(cur, [c] { return readable(c); }, "recv");
  }
  if (c->seg >= c->segs.size()) {
    net_point();
    if (c->end == END_RESET) { errno = ECONNRESET; return -1; }
    return 0;
  }
  str &s = c->segs[c->seg];
  size_t k = std::min(n, s.size() - c->off);
  rawcpy(buf, s.data() + c->off, k);
  char last = s[c->off + k - 1];
  if (!(flags & MSG_PEEK)) {
    c->off += k; if (!tls) c->raw_in += k;
    if (c->off >= s.size()) { c->seg++; c->off = 0; }
    if (last == '\n') net_point();
  }
  return (ssize_t)k;
}
static ssize_t c_send(int fd, const void *buf, size_t n, bool tls) {
  Conn *c = by_fd(fd);
  if (!c) { Conn *o = closed_conn(fd); if (o) o->after_close++; E->errors.push_back(strf("write to descriptor %d that is not open", fd)); errno = EBADF; return -1; }
  net_point();
  if (int e = shim_fault("send")) { errno = e; return -1; }
  int i = c->send_calls++;
  if (c->fail_send_at >= 0 && i >= c->fail_send_at) { errno = EPIPE; return -1; }
  if (!tls && c->intr_send_at == i) { errno = EINTR; return -1; }
  if (!tls && c->intr_burst && i % (c->intr_burst + 1) != c->intr_burst) { errno = EINTR; return -1; }
  if (n && !buf) { errno = EFAULT; return -1; }
  region(buf, n, "send");
  size_t k = n;
  if (!c->short_sends.empty()) {
    int lim = 0;
    if ((size_t)i < c->short_sends.size()) lim = c->short_sends[i]; else if (c->short_repeat) lim = c->short_sends.back();
    if (lim > 0 && (size_t)lim < k && !tls) k = lim;
  }
  size_t at = c->out.size();
  c->out.resize(at + k); rawcpy(&c->out[at], buf, k);
#ifdef MC_ASAN
  { volatile const char *p = (const char *)buf; (void)p; }
#endif
  if (!tls) { c->raw_out.append((const char *)c->out.data() + at, k); E->raw_send_calls++; }
  return (ssize_t)k;
}
static int c_close(int fd) {
  if (fd == LISTEN_FD) { E->listening = false; return 0; }
  Conn *c = by_fd(fd);
  if (!c) { Conn *o = closed_conn(fd); if (o) o->closes++; E->errors.push_back(strf("close of descriptor %d that is not open", fd)); errno = EBADF; return -1; }
  net_point();
  c->closes++; c->closed = true; c->seq_close = ++E->seq; c->closed_by = self(); fdmap.erase(fd);
  if (E->net_points) do_point();
  return 0;
}

int shim_fault(const char *call) {
  if (!E || E->call_fail.empty()) { return 0; }
  int n = E->call_count[call]++;
  auto i = E->call_fail.find(call); if (i == E->call_fail.end()) return 0;
  auto j = i->second.find(n); if (j == i->second.end()) { j = i->second.find(-1); if (j == i->second.end()) return 0; }
  return j->second;
}

// ------------------------------------------------------------------ files
static std::unordered_set<FILE *> openfiles;
static std::unordered_set<int> openfds;
static str normal(const str &p) {
  std::vector<str> st; str seg; str q = p + "/";
  for (char ch : q) { if (ch == '/') { if (seg == "..") { if (!st.empty()) st.pop_back(); } else if (!seg.empty() && seg != ".") st.push_back(seg); seg.clear(); } else seg += ch; }
  str o; for (auto &s : st) o += "/" + s; return o.empty() ? "/" : o;
}
static bool starts(const str &a, const char *b) { return a.compare(0, strlen(b), b) == 0; }
static bool pfx(const str &a, const str &b) { return a == b || starts(a, (b + "/").c_str()); }
static bool map_path(const char *path, str &out, bool probe = false) {
  str p = path ? path : "";
  if (p.empty()) return false;
  if (p[0] != '/') p = SCR + "/cwd/" + p;
  if (pfx(p, "/tmp/wayuu")) p = SCR + "/upload" + p.substr(10);
  else if (starts(p, "/var/log/")) p = SCR + "/log" + p.substr(8);
  else if (pfx(p, "/etc/wayuu")) p = SCR + "/etcwayuu" + p.substr(10);
  str nrm = normal(p);
  out = p;
  if (!pfx(nrm, SCR)) { if (!probe) E->escapes.push_back(nrm); return false; }
  return true;
}
void mkdirs(const str &path) { for (size_t i = 1; i <= path.size(); i++) if (i == path.size() || path[i] == '/') ::mkdir(path.substr(0, i).c_str(), 0755); }
void put_file(const str &path, const str &data) {
  size_t k = path.rfind('/'); mkdirs(path.substr(0, k));
  int fd = ::open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); if (fd < 0) { fprintf(stderr, "mc: put_file %s: %s\n", path.c_str(), strerror(errno)); _exit(98); }
  size_t o = 0; while (o < data.size()) { ssize_t w = ::write(fd, data.data() + o, data.size() - o); if (w <= 0) break; o += w; } ::close(fd);
}
bool get_file(const str &path, str &data) {
  int fd = ::open(path.c_str(), O_RDONLY); if (fd < 0) return false; data.clear(); char b[65536]; ssize_t r;
  while ((r = ::read(fd, b, sizeof b)) > 0) data.append(b, r); ::close(fd); return true;
}
std::vector<str> list_dir(const str &d) {
  std::vector<str> v; DIR *D = ::opendir(d.c_str()); if (!D) return v;
  while (dirent *e = ::readdir(D)) { str n = e->d_name; if (n != "." && n != "..") v.push_back(n); } ::closedir(D); std::sort(v.begin(), v.end()); return v;
}
static void rmtree(const str &d) {
  struct stat st; if (::lstat(d.c_str(), &st)) return;
  if (S_ISDIR(st.st_mode)) { ::chmod(d.c_str(), 0755); for (auto &n : list_dir(d)) rmtree(d + "/" + n); ::rmdir(d.c_str()); } else ::unlink(d.c_str());
}
void wipe(const str &dir) { if (SCR.empty() || !pfx(normal(dir), SCR)) return; for (auto &n : list_dir(dir)) rmtree(dir + "/" + n); }

static std::unordered_map<int, std::vector<LogWrite> *> logfds;   // descriptors of the logs, opened without stdio
static bool log_path(const str &m) { return starts(m, (SCR + "/log/").c_str()); }
static int open_log(const str &m, int fl) {
  if (int e = shim_fault("fopen_log")) { errno = e; return -1; }
  int fd = ::open((SCR + "/logfd").c_str(), O_RDWR | O_CREAT, 0644); if (fd < 0) return -1;
  auto *v = has(m, "access") ? &E->access_log : &E->main_log; if (fl & O_TRUNC) v->clear();
  logfds[fd] = v; openfds.insert(fd); E->open_files++; return fd;
}
static ssize_t log_fd_write(int fd, const void *b, size_t n) { if (cur && !aborting && E->io_points) do_point(); if (int e = shim_fault("logwrite")) { errno = e; return -1; } logfds[fd]->push_back({self(), str((const char *)b, n)}); return (ssize_t)n; }
struct Sink { std::vector<LogWrite> *v; };
static ssize_t sink_write(void *c, const char *b, size_t n) {
  Sink *s = (Sink *)c; if (int e = shim_fault("logwrite")) { errno = e; return 0; }
  s->v->push_back({self(), str(b, n)}); return (ssize_t)n;
}
static int sink_close(void *c) { delete (Sink *)c; return 0; }
// the permission bits of the owner count, although the checks may run as root
static bool mode_allows(const str &m, bool wr, bool rd) { struct stat st; if (::stat(m.c_str(), &st) || !S_ISREG(st.st_mode)) return true; return !(wr && !(st.st_mode & 0222)) && !(rd && !(st.st_mode & 0444)); }
static FILE *x_fopen(const char *path, const char *mode) {
  do { if (E->net_points) do_point(); } while (0);
  str m; bool wr = strpbrk(mode, "wa+") != nullptr;
  int e = shim_fault("fopen"); if (!e && wr) e = shim_fault("fopen_w"); if (!e && !wr) e = shim_fault("fopen_r");
  bool ok = map_path(path, m);
  if (e) { errno = e; E->opens.push_back({m, wr, false}); return nullptr; }
  if (!ok) { errno = ENOENT; return nullptr; }
  if (!mode_allows(m, wr, !wr || strchr(mode, '+'))) { errno = EACCES; E->opens.push_back({m, wr, false}); return nullptr; }
  FILE *f;
  if (log_path(m)) {
    if ((e = shim_fault("fopen_log"))) { errno = e; return nullptr; }
    Sink *s = new Sink{has(m, "access") ? &E->access_log : &E->main_log}; if (mode[0] == 'w') s->v->clear();
    cookie_io_functions_t io = {nullptr, sink_write, nullptr, sink_close};
    f = fopencookie(s, "a", io);
    if (f) setvbuf(f, nullptr, _IOFBF, 4096);
  } else { f = ::fopen(m.c_str(), mode); E->opens.push_back({normal(m), wr, f != nullptr}); }
  if (f) { openfiles.insert(f); E->open_files++; }
  return f;
}
static int x_fclose(FILE *f) {
  if (f && openfiles.erase(f)) E->open_files--;
  else if (f != stdout && f != stderr && f != stdin) { E->errors.push_back("fclose of a file that is not open"); return EOF; }
  int r = ::fclose(f); if (E->net_points) do_point(); return r;
}

// ------------------------------------------------------------------ TLS
static SSL_CTX *the_ctx = nullptr;
struct Tls { int fd = -1; bool ok = false; int shut = 0; bool fatal = false; };
static std::unordered_map<SSL *, Tls> tlsmap;

// ------------------------------------------------------------------ execution life cycle
static str image;
static void take_image() { if (__start_sutdata && image.empty()) { image.resize(__stop_sutdata - __start_sutdata); rawcpy(&image[0], __start_sutdata, image.size()); } }
static void race_reset();
static Env env_store;
void end() {
  if (!E) return;
  abort_threads();
  for (auto &t : tlsmap) SSL_free(t.first);
  tlsmap.clear();
  for (auto f : openfiles) ::fclose(f);
  openfiles.clear();
  for (int f : openfds) ::close(f);
  openfds.clear(); logfds.clear();
  heap_reset();
  for (auto c : E->conns) delete c;
  fdmap.clear(); mtxs.clear(); conds.clear(); sems.clear(); atomics_vc.clear();
  E->conns.clear(); delete E; E = nullptr;
}
static unsigned char default_fill = 0;
// half of the cases find uninitialised memory full of 0xA5 instead of zeroes, unless the suite says otherwise
static void case_fill(long i) { default_fill = ((uint64_t)i * 0x9E3779B97F4A7C15ull >> 40) & 1 ? 0xA5 : 0; }
void begin() {
  end();
  take_image();
  if (!image.empty()) rawcpy(__start_sutdata, image.data(), image.size());
  E = new Env; E->fill = default_fill; total_steps = 0; race_reset(); record_frees = nullptr;
}

// ------------------------------------------------------------------ exploration
struct Pt { int n; int cost[64]; };
struct Div {};
static std::vector<int> prefix, taken; static std::vector<int> prefix_n; static std::vector<Pt> pts;
static bool replaying = false;
struct Shared {
  volatile long idx, execs, steps, points, maxdev, done; volatile uint64_t t0; volatile int nch; int ch[8192]; char desc[2048];
  volatile long viol; volatile int capped; volatile uint64_t t_start;
  char cname[32][48]; volatile long cval[32];
};
static Shared *sh = nullptr;
static uint64_t now_ns() { struct timespec t; ::clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000000000ull + t.tv_nsec; }

static int choose_costs(int n, const int *cost) {
  size_t i = taken.size(); int k = 0;
  if (i < prefix.size()) {
    k = prefix[i];
    if (k >= n || (i < prefix_n.size() && prefix_n[i] != n)) { fprintf(stderr, "mc: DIVERGENCE while replaying a prefix (point %zu: %d alternatives, expected %d, choice %d)\n", i, n, i < prefix_n.size() ? prefix_n[i] : -1, k); _exit(97); }
  }
  Pt p; p.n = n; for (int j = 0; j < n && j < 64; j++) p.cost[j] = cost[j];
  pts.push_back(p); taken.push_back(k);
  if (sh && taken.size() <= 8192) { sh->ch[taken.size() - 1] = k; sh->nch = (int)taken.size(); }
  return k;
}
int choose(int n, int kind) {
  if (n <= 1 || !exploring || E->quiet) return 0;
  int c[64]; for (int i = 0; i < n && i < 64; i++) c[i] = (i && kind != MC_FREE) ? 1 : 0;
  return choose_costs(n, c);
}
static std::set<uint32_t> racy_pcs, found_pcs;   // race build: accesses that raced become scheduling points (refinement)
static std::unordered_set<uint64_t> outcomes, states; static std::vector<str> samples;
static uint64_t gl_hash() { uint64_t h = 1469598103934665603ull; if (__start_sutdata) for (const unsigned char *p = (unsigned char *)__start_sutdata; p < (unsigned char *)__stop_sutdata; p++) { if (*p) { h ^= *p + (uintptr_t)(p - (unsigned char *)__start_sutdata) * 31; h *= 1099511628211ull; } } return h; }
static uint64_t cur_gl = 0;
static void state_note() {
  // canonical scheduling state: per thread (status, blocked-on kind, steps executed), sync objects' owners, network positions
  uint64_t h = 1469598103934665603ull;
  auto mix = [&](uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 1099511628211ull; };
  for (auto t : lts) { mix(t->st); mix(t->steps); mix(t->signaled); mix((uintptr_t)t->what); }
  for (auto c : E->conns) { mix(c->seg * 4096 + c->off); mix(c->out.size()); mix(c->fd + 1); mix(c->closed); }
  if (states.size() < 4000000) states.insert(h ^ cur_gl);
}
Result good() { return Result(); }
Result bad(const char *fmt, ...) { va_list a; va_start(a, fmt); char *p; if (vasprintf(&p, fmt, a) < 0) p = nullptr; va_end(a); Result r; r.ok = false; r.msg = p ? p : ""; free(p); return r; }
Result badkey(const str &key, const char *fmt, ...) { va_list a; va_start(a, fmt); char *p; if (vasprintf(&p, fmt, a) < 0) p = nullptr; va_end(a); Result r; r.ok = false; r.msg = p ? p : ""; r.key = key; free(p); return r; }

static FILE *violf = nullptr; static std::map<str, int> key_count; static bool stop_worker = false;
static std::vector<std::pair<str, str>> confirm_viol; // (key,msg) when confirming
static str js(const str &s) { str o = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) o += strf("\\u%04x", c); else o += c; } return o + "\""; }
static void report(Ctx &c, const Result &r) {
  confirm_viol.push_back({r.key, r.msg});
  int n = ++key_count[r.key];
  if (n <= (r.key.empty() ? 3 : 2) && violf) {
    str ch; for (size_t i = 0; i < taken.size(); i++) { if (i) ch += ","; ch += strf("%d", taken[i]); }
    str pcs; for (auto p : racy_pcs) pcs += strf("%s%u", pcs.empty() ? "" : ",", p);
    fprintf(violf, "{\"case\":%ld,\"key\":%s,\"msg\":%s,\"desc\":%s,\"choices\":[%s],\"pcs\":[%s]}\n", c.idx, js(r.key).c_str(), js(esc(r.msg, 1500)).c_str(), js(esc(c.desc, 1500)).c_str(), ch.c_str(), pcs.c_str()); fflush(violf);
  }
  if (sh) sh->viol = sh->viol + 1;
  if (r.key.empty() && n >= 3) stop_worker = true;
}
static Result run_exec(const std::function<Result()> &fn, Ctx &c) {
  taken.clear(); pts.clear(); if (sh) { sh->nch = 0; sh->t0 = now_ns(); sh->execs = sh->execs + 1; strncpy(sh->desc, esc(c.desc, 1900).c_str(), sizeof sh->desc - 1); }
  Result r = fn();
  if (taken.size() < prefix.size()) { fprintf(stderr, "mc: DIVERGENCE: execution ended after %zu of %zu replayed choices\n", taken.size(), prefix.size()); _exit(97); }
  if (sh) { sh->steps = sh->steps + total_steps; sh->points = sh->points + (long)pts.size(); }
  return r;
}
static std::vector<int> forced_choices; static bool have_forced = false;
void Ctx::one(const std::function<Result()> &fn) {
  if (stop_worker) return;
  exploring = have_forced && !forced_choices.empty(); prefix = have_forced ? forced_choices : std::vector<int>(); prefix_n.clear();
  Result r = run_exec(fn, *this); exploring = false;
  if (!r.ok) report(*this, r);
}
static uint64_t deadline_ns = ~0ull;
static bool past_deadline() { return now_ns() > deadline_ns; }
void Ctx::explore(int bound, const std::function<Result()> &fn, int shard, int nshards, long max_execs) {
  if (stop_worker) return;
  exploring = true;
  if (have_forced) { prefix = forced_choices; prefix_n.clear(); Result r = run_exec(fn, *this); exploring = false; if (!r.ok) report(*this, r); return; }
  struct Job { std::vector<int> pre, pn; int dev; };
  std::vector<Job> st; long n = 0; bool first; int round = 0;
  if (!keep_racy) racy_pcs.clear();
again:
  found_pcs.clear(); st.clear(); st.push_back({{}, {}, 0}); first = true;
  if (round) n = 0;
  while (!st.empty() && !stop_worker) {
    Job j = std::move(st.back()); st.pop_back();
    prefix = j.pre; prefix_n = j.pn;
    Result r = run_exec(fn, *this); n++;
    if (sh && j.dev > sh->maxdev) sh->maxdev = j.dev;
    bool count_it = !first || shard == 0;
    if (!r.ok && count_it) report(*this, r);
    if (max_execs > 0 && n >= max_execs) { if (sh) sh->capped = 1; break; }
    if ((n & 15) == 0 && past_deadline()) { if (sh) sh->capped = 1; break; }
    std::vector<Job> nw; int dev = j.dev;
    // alternatives at points after the prefix; deviations so far along the default continuation stay j.dev
    for (size_t i = j.pre.size(); i < pts.size(); i++) {
      for (int alt = 1; alt < pts[i].n; alt++) {
        if (first && nshards > 1 && (int)((i * 7 + alt) % nshards) != shard) continue;
        int d = dev + pts[i].cost[alt]; if (d > bound) continue;
        Job q; q.pre.assign(taken.begin(), taken.begin() + i); q.pre.push_back(alt);
        for (size_t k = 0; k <= i; k++) q.pn.push_back(pts[k].n);
        q.dev = d; nw.push_back(std::move(q));
      }
    }
    for (size_t k = nw.size(); k-- > 0;) st.push_back(std::move(nw[k]));
    first = false;
  }
  if (is_race_build && refine && !stop_worker) {
    size_t k = racy_pcs.size(); for (auto p : found_pcs) racy_pcs.insert(p);
    if (racy_pcs.size() != k && ++round <= 4) { count("refinement rounds (racing accesses became scheduling points)"); goto again; }
  }
  exploring = false; prefix.clear(); prefix_n.clear();
}
void Ctx::outcome(uint64_t h) { if (outcomes.size() < 2000000) outcomes.insert(h); }
void Ctx::state(uint64_t h) { if (states.size() < 4000000) states.insert(h); }
void Ctx::count(const char *name, long n) {
  if (!sh) return;
  for (int i = 0; i < 32; i++) { if (!sh->cname[i][0]) strncpy(sh->cname[i], name, 47); if (!strcmp(sh->cname[i], name)) { sh->cval[i] = sh->cval[i] + n; return; } }
}
void Ctx::sample(const str &s) { if (samples.size() < 6) samples.push_back(esc(s, 300)); }

static std::vector<Suite> &suites() { static std::vector<Suite> s; return s; }
void add_suite(const Suite &s) {
  static const char *ALL[] = {"C01", "C03", "C04", "C16", "C19", "C27"}; bool all = s.race_too; for (auto p : ALL) all |= !strcmp(p, s.property);
  if (!is_race_build || all) suites().push_back(s);
}

static str root_scr;
static void enter_worker(int w, const str &base) {
  SCR = base + strf("/w%d", w); mkdirs(SCR); mkdirs(SCR + "/cwd"); mkdirs(SCR + "/upload"); mkdirs(SCR + "/log"); mkdirs(SCR + "/root"); mkdirs(SCR + "/root/www"); mkdirs(SCR + "/root/etc"); mkdirs(SCR + "/root/ssl"); mkdirs(SCR + "/etcwayuu");
  if (::chdir((SCR + "/cwd").c_str())) {}
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
  if (::getenv("MC_NOPIN") == nullptr) {
    cpu_set_t all, one; CPU_ZERO(&all);
    if (!sched_getaffinity(0, sizeof all, &all)) { int n = CPU_COUNT(&all), k = 0; if (n > 0) { int want = w % n; CPU_ZERO(&one); for (int c = 0; c < CPU_SETSIZE; c++) if (CPU_ISSET(c, &all)) { if (k == want) { CPU_SET(c, &one); break; } k++; } sched_setaffinity(0, sizeof one, &one); } }
  }
  setenv("TZ", "XYZ-5:45", 1); tzset();   // local time is not UTC
  // sanitizer text of this worker
  int fd = ::open((SCR + "/stderr.txt").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); if (fd >= 0) { dup2(fd, 2); ::close(fd); }
  int nul = ::open("/dev/null", O_WRONLY); if (nul >= 0) { dup2(nul, 1); ::close(nul); }
  static char obuf[1 << 16]; setvbuf(stderr, nullptr, _IONBF, 0); (void)obuf;
  if (worker_init) worker_init();
}
static void write_sets(const str &f) {
  FILE *o = ::fopen(f.c_str(), "wb"); if (!o) return;
  uint64_t n = outcomes.size(); fwrite(&n, 8, 1, o); for (auto h : outcomes) fwrite(&h, 8, 1, o);
  n = states.size(); fwrite(&n, 8, 1, o); for (auto h : states) fwrite(&h, 8, 1, o);
  n = samples.size(); fwrite(&n, 8, 1, o); for (auto &s : samples) { uint64_t l = s.size(); fwrite(&l, 8, 1, o); fwrite(s.data(), 1, l, o); }
  ::fclose(o);
}
static void read_sets(const str &f, std::unordered_set<uint64_t> &oc, std::unordered_set<uint64_t> &stt, std::vector<str> &sm) {
  FILE *o = ::fopen(f.c_str(), "rb"); if (!o) return; uint64_t n, h;
  if (fread(&n, 8, 1, o) == 1) for (; n--;) if (fread(&h, 8, 1, o) == 1) oc.insert(h);
  if (fread(&n, 8, 1, o) == 1) for (; n--;) if (fread(&h, 8, 1, o) == 1) stt.insert(h);
  if (fread(&n, 8, 1, o) == 1) for (; n--;) { uint64_t l; if (fread(&l, 8, 1, o) != 1) break; str s(l, 0); if (fread(&s[0], 1, l, o) != l) break; if (sm.size() < 12) sm.push_back(s); }
  ::fclose(o);
}

struct Viol { long idx; str key, msg, desc, choices, pcs; bool confirmed = false, stall = false; long first = -1; };
static std::vector<int> intlist(const str &t) { std::vector<int> v; for (size_t p = 0; p < t.size();) { v.push_back(atoi(t.c_str() + p)); p = t.find(',', p); if (p == str::npos) break; p++; } return v; }
static str tail_file(const str &p, size_t max = 1800) {
  str d; if (!get_file(p, d)) return "";
  size_t k = d.find("ERROR:"); if (k == str::npos) k = d.find("runtime error"); if (k == str::npos) k = 0; else { size_t b = d.rfind('\n', k); k = b == str::npos ? 0 : b + 1; }
  return d.substr(k, max);
}
// runs one case alone (fresh process); returns 0 ok, 1 violation, 2 crash, 3 hang, 4 harness error
// wall time that does not advance while the whole machine stands still (a paused sandbox, a starved parent)
struct Patience { uint64_t last = now_ns(), spent = 0; double step() { uint64_t n = now_ns(), d = n - last; last = n; spent += d > 100000000ull ? 100000000ull : d; return spent / 1e9; } };
static double cpu_of(pid_t p) { clockid_t c; struct timespec t; if (clock_getcpuclockid(p, &c) || ::clock_gettime(c, &t)) return 0; return t.tv_sec + t.tv_nsec / 1e9; }
static int alone(const Suite &s, long idx, bool thorough, const std::vector<int> *ch, const std::vector<int> &pcs, const str &base, int limit_s, str &msg, str &key, str &desc, long first = -1, long step = 1) {
  static int serial = 900; int w = serial++;
  Shared *s2 = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); memset(s2, 0, sizeof *s2);
  int pp[2]; if (pipe(pp)) return 4;
  pid_t p = fork();
  if (!p) {
    ::close(pp[0]); sh = s2; violf = nullptr; key_count.clear(); stop_worker = false; confirm_viol.clear();
    enter_worker(w, base);
    if (ch) { forced_choices = *ch; have_forced = true; }
    for (int p : pcs) racy_pcs.insert((uint32_t)p);
    for (long k = first < 0 ? idx : first; k <= idx; k += step) { Ctx c; c.idx = k; c.tier = thorough ? "thorough" : "quick"; c.thorough = thorough; if (k == idx) confirm_viol.clear(); case_fill(k); s.run(k, c); }
    str o; if (!confirm_viol.empty()) o = confirm_viol[0].first + "\n" + confirm_viol[0].second;
    if (::write(pp[1], o.data(), o.size()) < 0) {}
    _exit(confirm_viol.empty() ? 0 : 1);
  }
  ::close(pp[1]); int st = 0; Patience pa; bool killed = false;
  for (;;) { pid_t r = waitpid(p, &st, WNOHANG); if (r == p) break; usleep(2000); double sp = pa.step(); if ((sp > limit_s && cpu_of(p) > limit_s / 2) || sp > 4.0 * limit_s) { kill(p, SIGKILL); waitpid(p, &st, 0); killed = true; break; } }
  str o; char b[4096]; ssize_t r; fcntl(pp[0], F_SETFL, O_NONBLOCK); while ((r = ::read(pp[0], b, sizeof b)) > 0) o.append(b, r); ::close(pp[0]);
  desc = s2->desc; munmap(s2, sizeof(Shared));
  if (killed) { msg = strf("no termination within %d s", limit_s); return 3; }
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return 0;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 1) { size_t k = o.find('\n'); key = o.substr(0, k); msg = k == str::npos ? "" : o.substr(k + 1); return 1; }
  if (WIFEXITED(st) && (WEXITSTATUS(st) == 98 || WEXITSTATUS(st) == 97)) { msg = tail_file(base + strf("/w%d/stderr.txt", w)); return 4; }
  str why = WIFSIGNALED(st) ? strf("killed by signal %d", WTERMSIG(st)) : strf("exit status %d", WEXITSTATUS(st));
  msg = "server process died (" + why + "): " + tail_file(base + strf("/w%d/stderr.txt", w)); return 2;
}

int mc_main(int argc, char **argv) {
  bool thorough = false, list = false; const char *only = nullptr; long one = -1; std::vector<int> chs, pcv; bool has_ch = false; int nw = 0; double budget = 780; const char *prop = nullptr;
  for (int i = 1; i < argc; i++) {
    str a = argv[i];
    if (a == "--thorough") thorough = true; else if (a == "--list") list = true; else if (a == "--suite") only = argv[++i];
    else if (a == "--case") one = atol(argv[++i]); else if (a == "--workers") nw = atoi(argv[++i]); else if (a == "--budget") budget = atof(argv[++i]);
    else if (a == "--property") prop = argv[++i];
    else if (a == "--pcs") pcv = intlist(argv[++i]);
    else if (a == "--choices") { has_ch = true; char *p = argv[++i]; while (*p) { chs.push_back(strtol(p, &p, 10)); if (*p == ',') p++; } }
  }
  signal(SIGPIPE, SIG_IGN);
  const char *shm = access("/dev/shm", W_OK) == 0 ? "/dev/shm" : "/tmp";
  char tpl[256]; snprintf(tpl, sizeof tpl, "%s/wmc.XXXXXX", shm); if (!mkdtemp(tpl)) { snprintf(tpl, sizeof tpl, "/tmp/wmc.XXXXXX"); if (!mkdtemp(tpl)) { perror("mkdtemp"); return 3; } }
  str base = tpl; root_scr = base;
  if (nw <= 0) { nw = (int)sysconf(_SC_NPROCESSORS_ONLN); cpu_set_t all; if (!sched_getaffinity(0, sizeof all, &all)) nw = CPU_COUNT(&all); if (nw > 32) nw = 32; if (nw < 1) nw = 1; }
  deadline_ns = now_ns() + (uint64_t)(budget * 1e9);
  int rc = 0; str out = "["; bool firsts = true;
  for (auto &s : suites()) {
    if (only && strcmp(only, s.name)) continue;
    if (prop && strcmp(prop, s.property)) continue;
    if (list) { printf("%s %s %ld cases\n", s.property, s.name, s.ncases(thorough)); continue; }
    if (one >= 0) {
      str msg, key, desc; int r = alone(s, one, thorough, has_ch ? &chs : nullptr, pcv, base, 600, msg, key, desc);
      printf("case %ld of suite %s: %s\n  input: %s\n  key: %s\n  %s\n", one, s.name, r == 0 ? "holds" : r == 1 ? "VIOLATED" : r == 2 ? "CRASH" : r == 3 ? "HANG" : "HARNESS ERROR", desc.c_str(), key.c_str(), msg.c_str());
      rc = r == 0 ? 0 : 1; continue;
    }
    long n = s.ncases(thorough); uint64_t t0 = now_ns();
    std::vector<Shared *> S(nw); std::vector<pid_t> pid(nw, 0); std::vector<long> next(nw);
    std::vector<Viol> V; std::vector<long> restarts(nw, 0);
    str harness_err; bool capped = false; long crashes = 0;
    fflush(stdout); fflush(stderr);
    auto start = [&](int w) {
      pid_t p = fork();
      if (p == 0) {
        sh = S[w]; enter_worker(w, base);
        violf = ::fopen((base + strf("/v%d.jsonl", w)).c_str(), "a");
        for (long i = next[w]; i < n && !stop_worker; i += nw) {
          if (past_deadline()) { sh->capped = 1; break; }
          sh->idx = i; sh->t0 = now_ns(); sh->desc[0] = 0;
          Ctx c; c.idx = i; c.tier = thorough ? "thorough" : "quick"; c.thorough = thorough;
          case_fill(i); s.run(i, c); sh->done = sh->done + 1;
        }
        sh->idx = n; sh->t0 = 0;
        write_sets(base + strf("/sets%d.%ld", w, restarts[w]));
        _exit(0);
      }
      pid[w] = p;
    };
    for (int w = 0; w < nw; w++) { S[w] = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); memset(S[w], 0, sizeof(Shared)); next[w] = w; start(w); }
    int alive = nw; Patience pa; std::vector<uint64_t> case_t0(nw, 0); const int lim = s.timeout_s < 20 ? s.timeout_s : 20; std::vector<double> case_spent(nw, 0), case_cpu(nw, 0);
    while (alive > 0) {
      usleep(3000); double spent = pa.step();
      for (int w = 0; w < nw; w++) {
        if (!pid[w]) continue;
        int st; pid_t r = waitpid(pid[w], &st, WNOHANG);
        bool hang = false;
        if (r == 0) { uint64_t t = S[w]->t0; if (t != case_t0[w]) { case_t0[w] = t; case_spent[w] = spent; case_cpu[w] = cpu_of(pid[w]); continue; } double d = spent - case_spent[w]; if (t && d > lim && (d > 6.0 * lim || cpu_of(pid[w]) - case_cpu[w] > lim / 2.0)) { kill(pid[w], SIGKILL); waitpid(pid[w], &st, 0); hang = true; } else continue; }
        if (!hang && WIFEXITED(st) && WEXITSTATUS(st) == 0) { pid[w] = 0; alive--; continue; }
        if (!hang && WIFEXITED(st) && (WEXITSTATUS(st) == 98 || WEXITSTATUS(st) == 97)) { harness_err = tail_file(base + strf("/w%d/stderr.txt", w)) + strf(" [suite %s case %ld]", s.name, (long)S[w]->idx); pid[w] = 0; alive--; continue; }
        Viol v; v.idx = S[w]->idx; v.desc = S[w]->desc; v.stall = hang || (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL);
        for (int k = 0; k < S[w]->nch; k++) v.choices += strf("%s%d", k ? "," : "", S[w]->ch[k]);
        str why = hang ? strf("no termination within %d s", lim) : WIFSIGNALED(st) ? strf("killed by signal %d", WTERMSIG(st)) : strf("exit status %d", WEXITSTATUS(st));
        v.msg = (hang ? "HANG: " : "server process died: ") + why + " " + tail_file(base + strf("/w%d/stderr.txt", w));
        v.first = next[w]; V.push_back(v); crashes += hang ? 2 : 1; restarts[w]++;
        next[w] = S[w]->idx + nw;
        if (crashes >= 4 || next[w] >= n) { pid[w] = 0; alive--; } else start(w);
        if (crashes >= 4) { for (int q = 0; q < nw; q++) if (pid[q]) { kill(pid[q], SIGKILL); waitpid(pid[q], &st, 0); pid[q] = 0; } alive = 0; break; }
      }
    }
    // gather
    std::unordered_set<uint64_t> oc, stt; std::vector<str> sm; long execs = 0, steps = 0, points = 0, done = 0, maxdev = 0, viols = 0; std::map<str, long> counters;
    for (int w = 0; w < nw; w++) {
      execs += S[w]->execs; steps += S[w]->steps; points += S[w]->points; done += S[w]->done; viols += S[w]->viol; if (S[w]->maxdev > maxdev) maxdev = S[w]->maxdev; if (S[w]->capped) capped = true;
      for (int k = 0; k < 32 && S[w]->cname[k][0]; k++) counters[S[w]->cname[k]] += S[w]->cval[k];
      for (long r = 0; r <= restarts[w]; r++) { read_sets(base + strf("/sets%d.%ld", w, r), oc, stt, sm); ::unlink((base + strf("/sets%d.%ld", w, r)).c_str()); }
      munmap(S[w], sizeof(Shared));
    }
    str raw; // violations reported by oracles: keep raw json lines
    std::vector<str> vlines;
    for (int w = 0; w < nw; w++) { str d; if (get_file(base + strf("/v%d.jsonl", w), d)) { size_t p = 0; while (p < d.size()) { size_t e = d.find('\n', p); if (e == str::npos) break; vlines.push_back(d.substr(p, e - p)); p = e + 1; } } ::unlink((base + strf("/v%d.jsonl", w)).c_str()); }
    // turn oracle lines into Viol (case, choices, key)
    auto field = [](const str &l, const str &name) { size_t k = l.find("\"" + name + "\":"); if (k == str::npos) return str(); k += name.size() + 3; if (l[k] == '"') { size_t e = k + 1; str o; while (e < l.size() && l[e] != '"') { if (l[e] == '\\' && e + 1 < l.size()) { e++; if (l[e] == 'u') { o += (char)strtol(l.substr(e + 1, 4).c_str(), nullptr, 16); e += 5; continue; } } o += l[e++]; } return o; } if (l[k] == '[') { size_t e = l.find(']', k); return l.substr(k + 1, e - k - 1); } size_t e = k; while (e < l.size() && l[e] != ',' && l[e] != '}') e++; return l.substr(k, e - k); };
    for (auto &l : vlines) { Viol v; v.idx = atol(field(l, "case").c_str()); v.key = field(l, "key"); v.msg = field(l, "msg"); v.desc = field(l, "desc"); v.choices = field(l, "choices"); v.pcs = field(l, "pcs"); V.push_back(v); }
    std::sort(V.begin(), V.end(), [](const Viol &a, const Viol &b) { if (a.key != b.key) return a.key < b.key; return a.idx < b.idx; });
    // confirm: every reported violation is re-executed alone before it counts
    std::map<str, int> conf; std::vector<Viol> keep; int unconfirmed = 0;
    for (auto &v : V) {
      if (conf[v.key] >= (v.stall ? 1 : 2)) continue; const int al = v.stall ? 20 : 60;
      std::vector<int> ch = intlist(v.choices), pc = intlist(v.pcs);
      str m1, k1, d1, m2, k2, d2;
      int r1 = alone(s, v.idx, thorough, &ch, pc, base, al, m1, k1, d1);
      int r2 = r1 ? alone(s, v.idx, thorough, &ch, pc, base, al, m2, k2, d2) : 0;
      if (r1 == 0 || r1 == 4) { r1 = alone(s, v.idx, thorough, nullptr, {}, base, 300, m1, k1, d1); r2 = r1; }
      if (r1 == 0) { // not alone: together with the cases the same process ran before
        long f = v.first >= 0 ? v.first : v.idx % nw;
        if (!v.stall) { r1 = alone(s, v.idx, thorough, nullptr, {}, base, 300, m1, k1, d1, f, nw); if (r1 == 3) r1 = 0; r2 = r1 ? alone(s, v.idx, thorough, nullptr, {}, base, 300, m2, k2, d2, f, nw) : 0; }
        if (r1 && r1 == r2) { v.desc += strf(" (after the cases %ld, %ld, ... of the same process)", f, f + nw); }
      }
      if (r1 && r1 != 4 && r1 == r2) { v.confirmed = true; conf[v.key]++; if (!m1.empty()) v.msg = m1; if (r1 == 1) v.key = k1; if (v.desc.empty()) v.desc = d1; keep.push_back(v); }
      else if (v.stall && r1 == 0) { done++; counters["cases run again after a stall of the machine"]++; }   // it was run to its end above
      else { unconfirmed++; harness_err = r1 == 4 ? m1 : strf("case %ld failed once but not again: ", v.idx) + v.msg; v.confirmed = false; fprintf(stderr, "mc: unconfirmed (suite %s case %ld): %s\n", s.name, v.idx, v.msg.substr(0, 1800).c_str()); if (unconfirmed > 6) break; }
    }
    if (done < n && !capped && keep.empty() && harness_err.empty()) harness_err = strf("only %ld of %ld cases were run", done, n);
    double wall = (now_ns() - t0) / 1e9;
    if (!firsts) out += ",\n"; firsts = false;
    out += strf("{\"suite\":%s,\"property\":%s,\"cases\":%ld,\"cases_done\":%ld,\"executions\":%ld,\"steps\":%ld,\"choice_points\":%ld,\"max_deviations\":%ld,\"distinct_outcomes\":%zu,\"distinct_states\":%zu,\"capped\":%s,\"unconfirmed\":%d,\"wall_s\":%.2f,\"bound\":%s,\"harness_error\":%s,\"race_build\":%s",
                js(s.name).c_str(), js(s.property).c_str(), n, done, execs, steps, points, maxdev, oc.size(), stt.size(), capped ? "true" : "false", unconfirmed, wall, js(thorough && *s.bound_thorough ? s.bound_thorough : s.bound_quick).c_str(), js(harness_err).c_str(), is_race_build ? "true" : "false");
    out += ",\"counters\":{"; bool f = true; for (auto &k : counters) { out += strf("%s%s:%ld", f ? "" : ",", js(k.first).c_str(), k.second); f = false; } out += "}";
    out += ",\"samples\":["; for (size_t i = 0; i < sm.size(); i++) out += (i ? "," : "") + js(sm[i]); out += "],\"violations\":[";
    for (size_t i = 0; i < keep.size(); i++) out += strf("%s{\"case\":%ld,\"key\":%s,\"msg\":%s,\"desc\":%s,\"choices\":[%s],\"pcs\":[%s]}", i ? "," : "", keep[i].idx, js(keep[i].key).c_str(), js(keep[i].msg).c_str(), js(keep[i].desc).c_str(), keep[i].choices.c_str(), keep[i].pcs.c_str());
    out += "]}";
    bool stuck = false; for (auto &k : keep) stuck |= k.stall;
    if (!keep.empty()) rc = 1;
    if (!harness_err.empty() && keep.empty()) rc = 3;
    if (stuck) break;   // the other suites would spend their time on the same endless loop
    // a violation that is not a recorded finding decides the check
    const char *kn = ::getenv("MC_KNOWN"); bool fresh = false; for (auto &k : keep) fresh |= !kn || k.key.empty() || !strstr(kn, ("," + k.key + ",").c_str());
    if (fresh && !only && !::getenv("MC_ALL")) { out += "]\n"; fputs(out.c_str(), stdout); fflush(stdout); if (base.find("/wmc.") != str::npos) rmtree(base); return 1; }
  }
  out += "]\n";
  if (one < 0 && !list) { fputs(out.c_str(), stdout); fflush(stdout); }
  if (base.find("/wmc.") != str::npos) rmtree(base);
  return rc;
}

// ------------------------------------------------------------------ race detector (active in the race build)
#ifdef MC_RACE
// page-indexed shadow memory with epochs: a cell (or page) whose epoch is not the current execution's counts as empty
struct Cell { uint32_t epoch, wclk, wpc; int16_t wtid; uint16_t nr; struct { uint32_t clk, pc; int16_t tid; } r[3]; };
struct SPage { uint32_t epoch = 0; Cell c[4096]; };
static std::unordered_map<uintptr_t, SPage *> spages; static uintptr_t last_pg = 0; static SPage *last_sp = nullptr;
static uint32_t epoch = 1;
static std::set<std::pair<uint32_t, uint32_t>> race_seen;
static void race_reset() { epoch++; race_seen.clear(); }
static SPage *spage(uintptr_t pg, bool make) {
  if (pg == last_pg && last_sp) return last_sp;
  auto i = spages.find(pg); SPage *p;
  if (i == spages.end()) { if (!make) return nullptr; p = (SPage *)calloc(1, sizeof(SPage)); spages[pg] = p; } else p = i->second;
  last_pg = pg; last_sp = p; return p;
}
static void race_thread_start(LT *t) { if ((int)t->vc.size() <= t->id) t->vc.resize(t->id + 1); t->vc[t->id]++; if (cur) { cur->vc.resize(std::max(cur->vc.size(), (size_t)cur->id + 1)); cur->vc[cur->id]++; } }
static void race_forget(void *p, size_t n) {
  if (!race_on) return;
  uintptr_t a = (uintptr_t)p, e = a + n;
  while (a < e) {
    uintptr_t pe = std::min(e, (a | 4095) + 1); SPage *g = spage(a >> 12, false);
    if (g && g->epoch == epoch) for (uintptr_t x = a; x < pe; x++) g->c[x & 4095].epoch = 0;
    a = pe;
  }
}
static uint32_t clk(const VC &v, int t) { return t >= 0 && (size_t)t < v.size() ? v[t] : 0; }
static void race_found(uintptr_t a, uint32_t pc1, uint32_t pc2, bool w1, bool w2, int t1, int t2) {
  found_pcs.insert(pc1); found_pcs.insert(pc2);
  if (!race_seen.insert({std::min(pc1, pc2), std::max(pc1, pc2)}).second || E->races.size() > 20) return;
  E->races.push_back(strf("data race: %s by thread %d at pc 0x%x, %s by thread %d at pc 0x%x, not ordered by synchronisation", w1 ? "write" : "read", t1, pc1, w2 ? "write" : "read", t2, pc2));
}
void touch(const void *p, size_t n, bool write, void *pc_) {
  if (!race_on || !cur || !E || aborting || !n) return;
  LT *me = cur; char *q = (char *)p; uint32_t pc = (uint32_t)(uintptr_t)pc_;
  if (q >= me->lo && q < me->hi) return;               // own stack
  if (exploring && !racy_pcs.empty() && racy_pcs.count(pc)) {
    bool pt = write; if (!pt) { SPage *g = spage((uintptr_t)p >> 12, false); if (g) { Cell &c = g->c[(uintptr_t)p & 4095]; pt = c.epoch == epoch && c.wtid >= 0 && c.wtid != me->id; } }
    if (pt) { do_point(); if (aborting) return; }
  }
  uint32_t mine = clk(me->vc, me->id);
  for (size_t k = 0; k < n; k++) {
    uintptr_t a = (uintptr_t)p + k; SPage *g = spage(a >> 12, true); g->epoch = epoch;
    Cell &c = g->c[a & 4095];
    if (c.epoch != epoch) { c.epoch = epoch; c.wtid = -1; c.wclk = 0; c.nr = 0; }
    if (c.wtid >= 0 && c.wtid != me->id && c.wclk > clk(me->vc, c.wtid)) race_found(a, c.wpc, pc, true, write, c.wtid, me->id);
    if (write) {
      for (int i = 0; i < c.nr; i++) if (c.r[i].tid != me->id && c.r[i].clk > clk(me->vc, c.r[i].tid)) race_found(a, c.r[i].pc, pc, false, true, c.r[i].tid, me->id);
      c.wtid = me->id; c.wclk = mine; c.wpc = pc; c.nr = 0;
    } else {
      int i; for (i = 0; i < c.nr; i++) if (c.r[i].tid == me->id) break;
      if (i < 3) { c.r[i].tid = me->id; c.r[i].clk = mine; c.r[i].pc = pc; if (i == c.nr) c.nr++; }
    }
  }
}
#else
static void race_reset() {}
static void race_thread_start(LT *) {}
static void race_forget(void *, size_t) {}
void touch(const void *, size_t, bool, void *) {}
#endif
} // namespace mc

// =================================================================== shims called by the SUT instead of libc
using namespace mc;
#define S extern "C" __attribute__((used))
#define RA __builtin_return_address(0)

// ---- threads
static const unsigned long TBASE = 140000000000000ul, TSTEP = 8392704ul;
S unsigned long mc_pthread_self() { return TBASE + TSTEP * (unsigned long)(self() + 1); }
S int mc_pthread_create(pthread_t *t, const pthread_attr_t *, void *(*fn)(void *), void *arg) {
  if (int e = shim_fault("pthread_create")) return e;
  int workers = 0; for (auto x : lts) if (x->key1) workers++;
  *t = TBASE + TSTEP * (lts.size() + 1);
  if (workers >= E->max_workers || !cur) { return 0; }   // this worker exists but is never scheduled
  LT *n = new_lt([fn, arg] { cur->retval = fn(arg); }); n->key1 = (void *)fn; n->key2 = arg;
  *t = TBASE + TSTEP * (unsigned long)(n->id + 1);
  do_point();
  return 0;
}
S int mc_pthread_join(pthread_t t, void **rv) { int id = (int)((t - TBASE) / TSTEP) - 1; if (id < 0 || id >= (int)lts.size() || !cur) return ESRCH; LT *x = lts[id]; if (x->st != LT::DONE) block(cur, [x] { return x->st == LT::DONE; }, "join"); hb_acquire(x->vc); if (rv) *rv = x->retval; return 0; }
S int mc_pthread_detach(pthread_t) { return 0; }
S void mc_pthread_exit(void *rv) { LT *me = cur; if (me) { me->retval = rv; longjmp(me->base, 2); } _exit(98); }
S int mc_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *) { mtxs.erase(m); return 0; }
S int mc_pthread_mutex_destroy(pthread_mutex_t *m) { mtxs.erase(m); return 0; }
S int mc_pthread_mutex_lock(pthread_mutex_t *m) { return m_lock(m, false, false); }
S int mc_pthread_mutex_trylock(pthread_mutex_t *m) { return m_lock(m, false, true); }
S int mc_pthread_mutex_unlock(pthread_mutex_t *m) { return m_unlock(m); }
S int mc_pthread_spin_init(pthread_spinlock_t *m, int) { mtxs.erase((void *)m); return 0; }
S int mc_pthread_spin_destroy(pthread_spinlock_t *) { return 0; }
S int mc_pthread_spin_lock(pthread_spinlock_t *m) { return m_lock((void *)m, false, false); }
S int mc_pthread_spin_trylock(pthread_spinlock_t *m) { return m_lock((void *)m, false, true); }
S int mc_pthread_spin_unlock(pthread_spinlock_t *m) { return m_unlock((void *)m); }
S int mc_pthread_rwlock_init(pthread_rwlock_t *m, const pthread_rwlockattr_t *) { mtxs.erase(m); return 0; }
S int mc_pthread_rwlock_destroy(pthread_rwlock_t *) { return 0; }
S int mc_pthread_rwlock_wrlock(pthread_rwlock_t *m) { return m_lock(m, false, false); }
S int mc_pthread_rwlock_rdlock(pthread_rwlock_t *m) { LT *me = cur; if (!me || aborting) return 0; do_point(); Mutex *x = &mtxs[m]; if (x->owner >= 0) { me->on_mutex = true; block(me, [x] { return x->owner < 0; }, "rwlock"); me->on_mutex = false; } x->readers++; hb_acquire(x->vc); return 0; }
S int mc_pthread_rwlock_unlock(pthread_rwlock_t *m) { LT *me = cur; if (!me || aborting) return 0; Mutex *x = &mtxs[m]; if (x->owner == me->id) return m_unlock(m); if (x->readers > 0) { hb_release(x->vc); x->readers--; do_point(); return 0; } E->errors.push_back("unlock of an rwlock that is not held"); return EPERM; }
S int mc_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *) { conds.erase(c); return 0; }
S int mc_pthread_cond_destroy(pthread_cond_t *c) { return 0; }
static int cwait(void *c, void *m, bool timed) {
  LT *me = cur; if (!me || aborting) return 0;
  Mutex *x = &mtxs[m]; CondV *k = &conds[c];
  if (x->owner != me->id) E->errors.push_back("cond_wait without holding the mutex");
  else { hb_release(x->vc); x->owner = -1; x->depth = 0; }
  k->waiters.push_back(me); me->cond_wait = true; me->cond = c; me->signaled = false;
  block(me, [me, x] { return me->signaled && x->owner < 0; }, "cond");
  me->cond_wait = false;
  auto i = std::find(k->waiters.begin(), k->waiters.end(), me); if (i != k->waiters.end()) k->waiters.erase(i);
  x->owner = me->id; x->depth = 1; hb_acquire(x->vc); hb_acquire(k->vc);
  return 0;
}
S int mc_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return cwait(c, m, false); }
S int mc_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *) { return cwait(c, m, true); }
static int csignal(void *c, bool all) {
  LT *me = cur; if (!me || aborting) return 0;
  do_point();
  CondV *k = &conds[c]; hb_release(k->vc);
  std::vector<LT *> w; for (auto t : k->waiters) if (!t->signaled) w.push_back(t);
  if (w.empty()) return 0;
  if (all) for (auto t : w) t->signaled = true;
  else { std::sort(w.begin(), w.end(), [](LT *a, LT *b) { return a->id < b->id; }); w[choose((int)w.size(), MC_FREE)]->signaled = true; }
  return 0;
}
S int mc_pthread_cond_signal(pthread_cond_t *c) { return csignal(c, false); }
S int mc_pthread_cond_broadcast(pthread_cond_t *c) { return csignal(c, true); }
S int mc_pthread_once(pthread_once_t *o, void (*f)()) { auto &s = sems[o]; if (!s.first) { s.first = 1; f(); hb_release(s.second); } else hb_acquire(s.second); return 0; }
S int mc_sem_init(sem_t *s, int, unsigned v) { sems[s] = {(long)v, VC()}; return 0; }
S int mc_sem_destroy(sem_t *) { return 0; }
S int mc_sem_post(sem_t *s) { if (!cur || aborting) return 0; auto &x = sems[s]; hb_release(x.second); x.first++; do_point(); return 0; }
S int mc_sem_wait(sem_t *s) { LT *me = cur; if (!me || aborting) return 0; do_point(); auto *x = &sems[s]; if (x->first <= 0) block(me, [x] { return x->first > 0; }, "cond"); x->first--; hb_acquire(x->second); return 0; }
S int mc_sem_trywait(sem_t *s) { auto *x = &sems[s]; if (x->first <= 0) { errno = EAGAIN; return -1; } x->first--; hb_acquire(x->second); return 0; }
S int mc_sched_yield() { do_point(); return 0; }
static int xsleep(uint64_t ms) { E->now_ms += ms; do_point(); return 0; }
S unsigned mc_sleep(unsigned s) { xsleep(s * 1000ull); return 0; }
S int mc_usleep(useconds_t u) { return xsleep(u / 1000); }
S int mc_nanosleep(const struct timespec *t, struct timespec *) { return xsleep(t->tv_sec * 1000ull + t->tv_nsec / 1000000); }

// ---- memory
S void *mc_malloc(size_t n) { return h_alloc(n, false, RA); }
S void *mc_calloc(size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) return nullptr; return h_alloc(n, true, RA); }
S void mc_free(void *p) { h_free(p); }
S void *mc_realloc(void *p, size_t n) {
  if (!p) return h_alloc(n, false, RA);
  auto i = heap.find(p); if (i == heap.end()) return realloc(p, n);
  size_t o = i->second.size; void *q = h_alloc(n, false, RA); if (!q) return nullptr; memcpy(q, p, std::min(o, n)); h_free(p); return q;
}
S void *mc_reallocarray(void *p, size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) return nullptr; return mc_realloc(p, n); }
S char *mc_strdup(const char *s) { size_t n = strlen(s) + 1; touch(s, n, false, RA); char *p = (char *)h_alloc(n, false, RA); if (p) { memcpy(p, s, n); touch(p, n, true, RA); } return p; }
S char *mc_strndup(const char *s, size_t k) { size_t n = strnlen(s, k); touch(s, n, false, RA); char *p = (char *)h_alloc(n + 1, false, RA); if (p) { memcpy(p, s, n); p[n] = 0; } return p; }
S int mc_vasprintf(char **out, const char *f, va_list a) { char *t = nullptr; int n = vasprintf(&t, f, a); if (n < 0) return n; char *p = (char *)h_alloc(n + 1, false, RA); memcpy(p, t, n + 1); free(t); *out = p; touch(out, sizeof *out, true, RA); return n; }
S int mc_asprintf(char **out, const char *f, ...) { va_list a; va_start(a, f); int n = mc_vasprintf(out, f, a); va_end(a); return n; }
S ssize_t mc_getline(char **l, size_t *cap, FILE *f) {
  char *t = nullptr; size_t c = 0; ssize_t n = getline(&t, &c, f);
  if (n < 0) { if (!*l) { *l = (char *)h_alloc(120, false, RA); *cap = 120; (*l)[0] = 0; } free(t); return -1; }
  if (!*l || *cap < (size_t)n + 1) { if (*l) h_free(*l); *l = (char *)h_alloc(n + 1, false, RA); *cap = n + 1; }
  memcpy(*l, t, n + 1); free(t); return n;
}
S ssize_t mc_getdelim(char **l, size_t *cap, int, FILE *f) { return mc_getline(l, cap, f); }
S ssize_t mc___getdelim(char **l, size_t *cap, int, FILE *f) { return mc_getline(l, cap, f); }

// ---- network
S int mc_socket(int, int, int) { if (int e = shim_fault("socket")) { errno = e; return -1; } return LISTEN_FD; }
S int mc_bind(int fd, const struct sockaddr *a, socklen_t) { const struct sockaddr_in *s = (const struct sockaddr_in *)a; E->binds++; char b[32]; inet_ntop(AF_INET, &s->sin_addr, b, sizeof b); E->bind_addr = b; E->bind_port = ntohs(s->sin_port); if (int e = shim_fault("bind")) { errno = e; return -1; } if (fd != LISTEN_FD) { errno = EBADF; return -1; } return 0; }
S int mc_listen(int fd, int) { if (int e = shim_fault("listen")) { errno = e; return -1; } if (fd != LISTEN_FD) { errno = EBADF; return -1; } E->listens++; E->listening = true; return 0; }
S int mc_setsockopt(int, int, int, const void *, socklen_t) { if (int e = shim_fault("setsockopt")) { errno = e; return -1; } return 0; }
S int mc_getsockopt(int, int, int, void *v, socklen_t *l) { if (v && l && *l >= 4) *(int *)v = 0; return 0; }
static void fill_addr(Conn *c, struct sockaddr *a, socklen_t *l) {
  if (!a || !l) return; struct sockaddr_in s; memset(&s, 0, sizeof s); s.sin_family = AF_INET; s.sin_port = htons(40000 + c->id % 20000); inet_pton(AF_INET, c->ip.c_str(), &s.sin_addr);
  memcpy(a, &s, std::min((size_t)*l, sizeof s)); *l = sizeof s;
}
S int mc_accept(int fd, struct sockaddr *a, socklen_t *l) {
  LT *me = cur; if (!me) return -1;
  if (fd != LISTEN_FD) { errno = EBADF; return -1; }
  do_point();
  for (;;) {
    if (!E->accept_errors.empty()) { int e = E->accept_errors.front(); E->accept_errors.erase(E->accept_errors.begin()); if (e) { errno = e; return -1; } }
    if (E->backlog_pos < E->backlog.size()) break;
    block(me, [] { return E->backlog_pos < E->backlog.size() || !E->accept_errors.empty(); }, "accept");
  }
  Conn *c = E->backlog[E->backlog_pos++]; int v = VBASE; while (fdmap.count(v)) v++;
  c->fd = v; c->accepted = true; c->seq_accept = ++E->seq; fdmap[v] = c; fill_addr(c, a, l);
  return v;
}
S int mc_accept4(int fd, struct sockaddr *a, socklen_t *l, int) { return mc_accept(fd, a, l); }
S int mc_getpeername(int fd, struct sockaddr *a, socklen_t *l) { Conn *c = by_fd(fd); if (!c) { errno = EBADF; return -1; } if (c->peername_fails) { errno = ENOTCONN; return -1; } if (int e = shim_fault("getpeername")) { errno = e; return -1; } fill_addr(c, a, l); return 0; }
S int mc_getsockname(int, struct sockaddr *a, socklen_t *l) { if (a && l) memset(a, 0, *l); return 0; }
S ssize_t mc_recv(int fd, void *b, size_t n, int fl) { touch(b, n, true, RA); return c_recv(fd, b, n, fl, false); }
S ssize_t mc_recvfrom(int fd, void *b, size_t n, int fl, struct sockaddr *, socklen_t *) { return c_recv(fd, b, n, fl, false); }
S ssize_t mc_read(int fd, void *b, size_t n) { if (is_virtual(fd)) return c_recv(fd, b, n, 0, false); return ::read(fd, b, n); }
S ssize_t mc_recvmsg(int fd, struct msghdr *m, int fl) { if (!m->msg_iovlen) return 0; return c_recv(fd, m->msg_iov[0].iov_base, m->msg_iov[0].iov_len, fl, false); }
S ssize_t mc_send(int fd, const void *b, size_t n, int) { touch(b, n, false, RA); return c_send(fd, b, n, false); }
S ssize_t mc_sendto(int fd, const void *b, size_t n, int, const struct sockaddr *, socklen_t) { return c_send(fd, b, n, false); }
S ssize_t mc_write(int fd, const void *b, size_t n) { if (is_virtual(fd)) return c_send(fd, b, n, false); if (logfds.count(fd)) return log_fd_write(fd, b, n); if (cur && !aborting && E->net_points && fd > 2) do_point(); return ::write(fd, b, n); }
static ssize_t wv(int fd, const struct iovec *v, size_t n) { ssize_t t = 0; for (size_t i = 0; i < n; i++) { ssize_t r = c_send(fd, v[i].iov_base, v[i].iov_len, false); if (r < 0) return t ? t : r; t += r; if ((size_t)r < v[i].iov_len) break; } return t; }
S ssize_t mc_writev(int fd, const struct iovec *v, int n) { if (logfds.count(fd)) { str t; for (int i = 0; i < n; i++) t.append((char *)v[i].iov_base, v[i].iov_len); return log_fd_write(fd, t.data(), t.size()); } return is_virtual(fd) ? wv(fd, v, n) : ::writev(fd, v, n); }
S ssize_t mc_sendmsg(int fd, const struct msghdr *m, int) { return wv(fd, m->msg_iov, m->msg_iovlen); }
S int mc_close(int fd) { if (is_virtual(fd)) return c_close(fd); if (openfds.erase(fd)) { logfds.erase(fd); E->open_files--; return ::close(fd); } if (fd <= 2) { errno = 0; return 0; } E->errors.push_back(strf("close of descriptor %d that is not open", fd)); errno = EBADF; return -1; }
S int mc_shutdown(int fd, int how) { Conn *c = by_fd(fd); if (!c) { if (Conn *o = closed_conn(fd)) o->after_close++, E->errors.push_back(strf("shutdown of descriptor %d that is not open", fd)); errno = EBADF; return -1; } return 0; }
S int mc_fcntl(int fd, int cmd, ...) { va_list a; va_start(a, cmd); long x = va_arg(a, long); va_end(a); if (is_virtual(fd)) return 0; return ::fcntl(fd, cmd, x); }
S int mc_ioctl(int fd, unsigned long rq, ...) { va_list a; va_start(a, rq); void *x = va_arg(a, void *); va_end(a); if (rq == FIONREAD && is_virtual(fd)) { Conn *c = by_fd(fd); *(int *)x = c && c->seg < c->segs.size() ? (int)(c->segs[c->seg].size() - c->off) : 0; return 0; } return is_virtual(fd) ? 0 : ::ioctl(fd, rq, x); }
S int mc_poll(struct pollfd *p, nfds_t n, int to) {
  for (int round = 0; round < 2; round++) {
    int r = 0; for (nfds_t i = 0; i < n; i++) { p[i].revents = 0; Conn *c = by_fd(p[i].fd); if (p[i].fd == LISTEN_FD) { if (E->backlog_pos < E->backlog.size() && (p[i].events & POLLIN)) p[i].revents |= POLLIN; } else if (c) { if ((p[i].events & POLLIN) && readable(c)) p[i].revents |= POLLIN; if (p[i].events & POLLOUT) p[i].revents |= POLLOUT; } else if (is_virtual(p[i].fd)) p[i].revents = POLLNVAL; if (p[i].revents) r++; }
    if (r || to == 0 || round || !cur) return r;
    if (to > 0) { E->now_ms += to; return 0; }
    std::vector<int> fds; for (nfds_t i = 0; i < n; i++) fds.push_back(p[i].fd);
    block(cur, [fds] { for (int f : fds) { if (f == LISTEN_FD && E->backlog_pos < E->backlog.size()) return true; Conn *c = by_fd(f); if (c && readable(c)) return true; } return false; }, n == 1 && p[0].fd == LISTEN_FD ? "accept" : "recv");
  }
  return 0;
}
S int mc_select(int n, fd_set *r, fd_set *, fd_set *, struct timeval *) { (void)n; (void)r; return 1; }

// ---- TLS
S SSL_CTX *mc_SSL_CTX_new(const SSL_METHOD *m) { if (shim_fault("SSL_CTX_new")) return nullptr; if (E->ssl_ctx_real) return SSL_CTX_new(m); if (!the_ctx) the_ctx = SSL_CTX_new(TLS_server_method()); SSL_CTX_up_ref(the_ctx); return the_ctx; }
S void mc_SSL_CTX_free(SSL_CTX *c) { SSL_CTX_free(c); }
static int sslfile(const char *f, bool ok, str &m) { E->ssl_files.push_back(f); if (!map_path(f, m)) return 0; return ok && access(m.c_str(), R_OK) == 0; }
S int mc_SSL_CTX_use_certificate_chain_file(SSL_CTX *c, const char *f) { str m; int r = sslfile(f, E->tls_cert_ok, m); if (E->ssl_ctx_real) { r = SSL_CTX_use_certificate_chain_file(c, m.c_str()); ERR_clear_error(); } return r; }
S int mc_SSL_CTX_use_certificate_file(SSL_CTX *c, const char *f, int t) { str m; int r = sslfile(f, E->tls_cert_ok, m); if (E->ssl_ctx_real) { r = SSL_CTX_use_certificate_file(c, m.c_str(), t); ERR_clear_error(); } return r; }
S int mc_SSL_CTX_use_PrivateKey_file(SSL_CTX *c, const char *f, int t) { str m; int r = sslfile(f, E->tls_key_ok, m); if (E->ssl_ctx_real) { r = SSL_CTX_use_PrivateKey_file(c, m.c_str(), t); ERR_clear_error(); } return r; }
S int mc_SSL_CTX_check_private_key(const SSL_CTX *c) { if (E->ssl_ctx_real) return SSL_CTX_check_private_key(c); return E->tls_cert_ok && E->tls_key_ok; }
S SSL *mc_SSL_new(SSL_CTX *c) { if (shim_fault("SSL_new")) return nullptr; SSL *s = SSL_new(c); if (s) { tlsmap[s]; E->ssl_sessions++; } return s; }
S void mc_SSL_free(SSL *s) { if (!s) return; auto i = tlsmap.find(s); if (i == tlsmap.end()) { E->errors.push_back("SSL_free of a session that does not exist"); return; } tlsmap.erase(i); E->ssl_sessions--; SSL_free(s); }
S int mc_SSL_set_fd(SSL *s, int fd) { if (shim_fault("SSL_set_fd")) return 0; auto i = tlsmap.find(s); if (i == tlsmap.end()) return 0; i->second.fd = fd; Conn *c = by_fd(fd); if (c) c->tls_session = true; return 1; }
S int mc_SSL_accept(SSL *s) { auto i = tlsmap.find(s); if (i == tlsmap.end()) { E->errors.push_back("SSL_accept on a freed session"); return -1; } Conn *c = by_fd(i->second.fd); net_point(); if (!c || c->tls_handshake_fails || shim_fault("SSL_accept")) return c && c->tls_handshake_fails == 2 ? 0 : -1; i->second.ok = true; c->tls_ok = true; return 1; }
S int mc_SSL_do_handshake(SSL *s) { return mc_SSL_accept(s); }
S int mc_SSL_read(SSL *s, void *b, int n) {
  auto i = tlsmap.find(s); if (i == tlsmap.end()) { E->errors.push_back("SSL_read on a freed session"); return -1; }
  Conn *c = by_fd(i->second.fd); if (!c) { E->errors.push_back("SSL_read after close"); return -1; }
  if (!i->second.ok) return -1;
  if (c->tls_read_fail_at >= 0) { long got = 0; for (size_t k = 0; k < c->seg; k++) got += c->segs[k].size(); got += c->off; if (got >= c->tls_read_fail_at) { i->second.fatal = true; return -1; } }
  int r = (int)c_recv(i->second.fd, b, n, 0, true); i = tlsmap.find(s); if (r < 0 && i != tlsmap.end()) i->second.fatal = true; return r;
}
S int mc_SSL_peek(SSL *s, void *b, int n) { auto i = tlsmap.find(s); if (i == tlsmap.end() || !i->second.ok) return -1; return (int)c_recv(i->second.fd, b, n, MSG_PEEK, true); }
S int mc_SSL_read_ex(SSL *s, void *b, size_t n, size_t *o) { int r = mc_SSL_read(s, b, (int)n); if (r > 0) { *o = r; return 1; } return 0; }
S int mc_SSL_write(SSL *s, const void *b, int n) {
  touch(b, n, false, RA);
  auto i = tlsmap.find(s); if (i == tlsmap.end()) { E->errors.push_back("SSL_write on a freed session"); return -1; }
  Conn *c = by_fd(i->second.fd); if (!c) { E->errors.push_back("SSL_write after close"); return -1; }
  if (!i->second.ok) return -1;
  if (n <= 0) return n == 0 ? 0 : -1;
  if (c->tls_write_fail_at >= 0 && c->tls_writes++ >= c->tls_write_fail_at) { if (cur && !aborting && E->net_points) do_point(); i = tlsmap.find(s); if (i != tlsmap.end()) i->second.fatal = true; return -1; }
  int r = (int)c_send(i->second.fd, b, n, true); i = tlsmap.find(s); if (r < 0 && i != tlsmap.end()) i->second.fatal = true; return r;
}
S int mc_SSL_write_ex(SSL *s, const void *b, size_t n, size_t *o) { int r = mc_SSL_write(s, b, (int)n); if (r > 0) { *o = r; return 1; } return 0; }
S int mc_SSL_shutdown(SSL *s) { auto i = tlsmap.find(s); if (i == tlsmap.end()) { E->errors.push_back("SSL_shutdown on a freed session"); return -1; } Conn *c = by_fd(i->second.fd); if (!c) { E->errors.push_back("SSL_shutdown after close"); return -1; } if (!i->second.ok || i->second.fatal || shim_fault("SSL_shutdown")) return -1; c->tls_shutdown = true; return i->second.shut++ || (c->seg >= c->segs.size() && c->end == END_EOF) ? 1 : 0; }
S int mc_SSL_get_error(const SSL *, int r) { return r > 0 ? SSL_ERROR_NONE : r == 0 ? SSL_ERROR_ZERO_RETURN : SSL_ERROR_SYSCALL; }
S int mc_SSL_pending(const SSL *) { return 0; }
S EVP_MD_CTX *mc_EVP_MD_CTX_new() { EVP_MD_CTX *c = EVP_MD_CTX_new(); if (c) E->md_ctx++; return c; }
S void mc_EVP_MD_CTX_free(EVP_MD_CTX *c) { if (c) E->md_ctx--; EVP_MD_CTX_free(c); }
S int mc_OPENSSL_init_ssl(uint64_t, const void *) { return 1; }
S int mc_OPENSSL_init_crypto(uint64_t, const void *) { return 1; }

// ---- files
S FILE *mc_fopen(const char *p, const char *m) { return x_fopen(p, m); }
S FILE *mc_freopen(const char *p, const char *m, FILE *f) { if (f) x_fclose(f); return x_fopen(p, m); }
S int mc_vdprintf(int fd, const char *fmt, va_list a) { char *t = nullptr; int n = ::vasprintf(&t, fmt, a); if (n >= 0) n = (int)mc_write(fd, t, n); ::free(t); return n; }
S int mc_dprintf(int fd, const char *fmt, ...) { va_list a; va_start(a, fmt); int n = mc_vdprintf(fd, fmt, a); va_end(a); return n; }
S int mc_flock(int fd, int op) {
  if (::flock(fd, op | LOCK_NB) == 0) return 0;
  if (errno != EWOULDBLOCK || (op & LOCK_NB)) return -1;
  wait_until([fd, op] { if (::flock(fd, op | LOCK_NB)) return false; ::flock(fd, LOCK_UN); return true; }, "flock");
  return ::flock(fd, op | LOCK_NB);
}
S FILE *mc_fdopen(int fd, const char *m) {
  if (logfds.count(fd)) {
    Sink *s = new Sink{logfds[fd]}; cookie_io_functions_t io = {nullptr, sink_write, nullptr, sink_close}; FILE *f = fopencookie(s, "a", io); if (!f) return nullptr;
    setvbuf(f, nullptr, _IOFBF, 4096); ::close(fd); logfds.erase(fd); openfds.erase(fd); openfiles.insert(f); return f;
  }
  FILE *f = ::fdopen(fd, m); if (f && openfds.erase(fd)) E->open_files--; if (f) { openfiles.insert(f); E->open_files++; } return f; }
S int mc_fclose(FILE *f) { return x_fclose(f); }
#define MAPPED(fail) str m; if (!map_path(p, m)) { errno = ENOENT; return fail; }
#define PROBED(fail) str m; if (!map_path(p, m, true)) { errno = ENOENT; return fail; }
S int mc_open(const char *p, int fl, ...) { va_list a; va_start(a, fl); int md = va_arg(a, int); va_end(a); MAPPED(-1) if (cur && !aborting && E->net_points) do_point(); if (int e = shim_fault("open")) { errno = e; return -1; } if (log_path(m)) return open_log(m, fl); if (int e = shim_fault((fl & O_ACCMODE) != O_RDONLY ? "fopen_w" : "fopen_r")) { errno = e; E->opens.push_back({normal(m), (fl & O_ACCMODE) != O_RDONLY, false}); return -1; } if (!mode_allows(m, (fl & O_ACCMODE) != O_RDONLY, (fl & O_ACCMODE) != O_WRONLY)) { errno = EACCES; return -1; } int fd = ::open(m.c_str(), fl, md); if (fd >= 0) { openfds.insert(fd); E->open_files++; } E->opens.push_back({normal(m), (fl & O_ACCMODE) != O_RDONLY, fd >= 0}); return fd; }
S int mc_openat(int, const char *p, int fl, ...) { va_list a; va_start(a, fl); int md = va_arg(a, int); va_end(a); MAPPED(-1) if (log_path(m)) return open_log(m, fl); int fd = ::open(m.c_str(), fl, md); if (fd >= 0) { openfds.insert(fd); E->open_files++; } E->opens.push_back({normal(m), (fl & O_ACCMODE) != O_RDONLY, fd >= 0}); return fd; }
S int mc_stat(const char *p, struct stat *s) { if (E->net_points) do_point(); PROBED(-1) if (int e = shim_fault("stat")) { errno = e; return -1; } return ::stat(m.c_str(), s); }
S int mc_lstat(const char *p, struct stat *s) { PROBED(-1) return ::lstat(m.c_str(), s); }
S int mc_access(const char *p, int md) { PROBED(-1) return ::access(m.c_str(), md); }
S int mc_mkdir(const char *p, mode_t md) { MAPPED(-1) if (int e = shim_fault("mkdir")) { errno = e; return -1; } return ::mkdir(m.c_str(), md); }
S int mc_rmdir(const char *p) { MAPPED(-1) return ::rmdir(m.c_str()); }
S int mc_remove(const char *p) { MAPPED(-1) if (int e = shim_fault("remove")) { errno = e; return -1; } return ::remove(m.c_str()); }
S int mc_unlink(const char *p) { MAPPED(-1) if (int e = shim_fault("remove")) { errno = e; return -1; } return ::unlink(m.c_str()); }
S int mc_rename(const char *p, const char *q) { MAPPED(-1) str m2; if (!map_path(q, m2)) { errno = ENOENT; return -1; } return ::rename(m.c_str(), m2.c_str()); }
S char *mc_realpath(const char *p, char *out) { PROBED(nullptr) char *r = ::realpath(m.c_str(), nullptr); if (!r) return nullptr; if (out) { strcpy(out, r); free(r); return out; } char *d = (char *)h_alloc(strlen(r) + 1, false, RA); strcpy(d, r); free(r); return d; }
S int mc_truncate(const char *p, off_t n) { MAPPED(-1) return ::truncate(m.c_str(), n); }
S int mc_chmod(const char *p, mode_t n) { MAPPED(-1) return ::chmod(m.c_str(), n); }
S int mc_symlink(const char *, const char *) { errno = EPERM; return -1; }
S int mc_link(const char *, const char *) { errno = EPERM; return -1; }
S int mc_mkstemp(char *t) { str m; if (!map_path(t, m)) { errno = EACCES; return -1; } errno = EACCES; return -1; }
S int mc_system(const char *c) { E->errors.push_back(str("system() called: ") + (c ? c : "")); return -1; }
S FILE *mc_popen(const char *c, const char *) { E->errors.push_back(str("popen() called: ") + c); return nullptr; }
S int mc_kill(pid_t, int) { E->errors.push_back("kill() called"); return -1; }
S pid_t mc_fork() { E->errors.push_back("fork() called"); errno = EAGAIN; return -1; }
S size_t mc_fread(void *p, size_t a, size_t b, FILE *f) { if (int e = shim_fault("fread")) { errno = e; return 0; } return ::fread(p, a, b, f); }

// ---- stdio with scheduling points, stream locks and captured standard output
static void io_point(FILE *f) {
  LT *me = cur; if (!me || aborting) return;
  if (E->io_points) do_point();
  auto i = mtxs.find((void *)f);
  if (i != mtxs.end() && i->second.owner >= 0 && i->second.owner != me->id) { Mutex *x = &i->second; me->on_mutex = true; block(me, [x] { return x->owner < 0; }, "flockfile"); me->on_mutex = false; }
}
S void mc_flockfile(FILE *f) { m_lock((void *)f, true, false); }
S int mc_ftrylockfile(FILE *f) { return m_lock((void *)f, true, true); }
S void mc_funlockfile(FILE *f) { m_unlock((void *)f); }
static int outcap(FILE *f, const char *s, size_t n) { if (f == stdout) { E->stdout_text.append(s, n); return 1; } if (f == stderr) { E->main_log.push_back({self(), str(s, n)}); return 1; } return 0; }
S int mc_vfprintf(FILE *f, const char *fmt, va_list a) {
  io_point(f);
  if (f == stdout || f == stderr) { char *t = nullptr; int n = vasprintf(&t, fmt, a); if (n >= 0) outcap(f, t, n); free(t); return n; }
  return vfprintf(f, fmt, a);
}
S int mc_fprintf(FILE *f, const char *fmt, ...) { va_list a; va_start(a, fmt); int n = mc_vfprintf(f, fmt, a); va_end(a); return n; }
S int mc_fputs(const char *s, FILE *f) { io_point(f); if (outcap(f, s, strlen(s))) return 1; return ::fputs(s, f); }
S int mc_fputc(int c, FILE *f) { io_point(f); char ch = (char)c; if (outcap(f, &ch, 1)) return c; return ::fputc(c, f); }
S int mc_putc(int c, FILE *f) { return mc_fputc(c, f); }
S int mc__IO_putc(int c, FILE *f) { return mc_fputc(c, f); }
S size_t mc_fwrite(const void *p, size_t a, size_t b, FILE *f) { io_point(f); touch(p, a * b, false, RA); if (outcap(f, (const char *)p, a * b)) return b; if (int e = shim_fault("fwrite")) { errno = e; return 0; } return ::fwrite(p, a, b, f); }
S int mc_fflush(FILE *f) { if (f) io_point(f); if (f == stdout || f == stderr) return 0; return ::fflush(f); }
S int mc_vprintf(const char *fmt, va_list a) { return mc_vfprintf(stdout, fmt, a); }
S int mc_printf(const char *fmt, ...) { va_list a; va_start(a, fmt); int n = mc_vfprintf(stdout, fmt, a); va_end(a); return n; }
S int mc_puts(const char *s) { E->stdout_text += s; E->stdout_text += "\n"; return 1; }
S int mc_putchar(int c) { E->stdout_text += (char)c; return c; }
S void mc_perror(const char *s) { if (s) E->main_log.push_back({self(), str("perror: ") + s}); }

// ---- process, time
S void mc_exit(int code) { if (!E->exited) for (FILE *f : openfiles) ::fflush(f); E->exit_code = code; E->exited = true; LT *me = cur; if (me) longjmp(me->base, 3); _exit(96); }
S void mc__exit(int code) { E->exited = true; mc_exit(code); }
typedef void (*sigh)(int);
S sigh mc_signal(int n, sigh h) { E->signals[n] = h == SIG_IGN ? "ignore" : h == SIG_DFL ? "default" : "handler"; return SIG_DFL; }
S int mc_sigaction(int n, const struct sigaction *a, struct sigaction *) { if (a) E->signals[n] = a->sa_handler == SIG_IGN ? "ignore" : a->sa_handler == SIG_DFL ? "default" : "handler"; return 0; }
S time_t mc_time(time_t *t) { time_t v = (time_t)(E->now_ms / 1000); if (t) *t = v; return v; }
S int mc_gettimeofday(struct timeval *t, void *) { t->tv_sec = E->now_ms / 1000; t->tv_usec = (E->now_ms % 1000) * 1000; return 0; }
S int mc_clock_gettime(clockid_t, struct timespec *t) { t->tv_sec = E->now_ms / 1000; t->tv_nsec = (E->now_ms % 1000) * 1000000; return 0; }
// libc functions with hidden shared state: a scheduling point inside the window where the state is live, and an
// access to a virtual variable for the race detector
static char v_tm, v_strtok, v_misc;
#define SHARED(v) do { touch(&v, 1, true, RA); if (E->io_points || E->net_points) do_point(); } while (0)
static struct tm s_tm;
S struct tm *mc_gmtime(const time_t *t) { gmtime_r(t, &s_tm); SHARED(v_tm); return &s_tm; }
S struct tm *mc_localtime(const time_t *t) { localtime_r(t, &s_tm); SHARED(v_tm); return &s_tm; }
S char *mc_strtok(char *s, const char *d) { static char *save; if (!s && !save) return nullptr; SHARED(v_strtok); return strtok_r(s, d, &save); }
S char *mc_strerror(int e) { return strerror(e); }   // thread-safe in the C library
S char *mc_asctime(const struct tm *t) { static char b[64]; SHARED(v_tm); return asctime_r(t, b); }
S char *mc_ctime(const time_t *t) { static char b[64]; SHARED(v_tm); return ctime_r(t, b); }
static unsigned rnd_state = 1;
S int mc_rand() { SHARED(v_misc); rnd_state = rnd_state * 1103515245u + 12345u; return (rnd_state >> 16) & 0x7fff; }
S long mc_random() { return mc_rand(); }
S void mc_srand(unsigned s) { rnd_state = s; }

int main(int argc, char **argv) { return mc::mc_main(argc, argv); }
