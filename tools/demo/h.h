// Small harness for demonstrations: runs the server of /repo inside this process, with its fixed paths
// (/var/log, /tmp/wayuu, /etc/wayuu) and everything it writes mapped into a scratch directory.
#ifndef H_H
#define H_H
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <arpa/inet.h>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <malloc.h>
#include <netinet/in.h>
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <openssl/ssl.h>
#include "wayuu.h"
#include "ws.h"
#include "wayuu_log.h"

static char DIR_[64];            // scratch directory
static int PORT;                 // the server's port
static int (*hook)(const char *fn, long arg, const char *path);   // called before wrapped calls; a result > 0 is the errno to fail with
#define FAIL(...) do { printf("FAIL: " __VA_ARGS__); printf("\n"); fflush(stdout); _exit(1); } while (0)
#define CHECK(c, ...) do { if (!(c)) FAIL(__VA_ARGS__); } while (0)
static void done(void) { fflush(stdout); _exit(0); }

static const char *map(const char *p, bool write, char *buf) {
  if (!p || *p != '/' || !*DIR_ || !strncmp(p, DIR_, strlen(DIR_))) return p;
  if (!write && strncmp(p, "/var/log", 8) && strncmp(p, "/tmp/wayuu", 10) && strncmp(p, "/etc/wayuu", 10)) return p;
  snprintf(buf, 8192, "%s%s", DIR_, p); return buf;
}
static int fault(const char *fn, long arg, const char *path) { int e = hook ? hook(fn, arg, path) : 0; if (e > 0) errno = e; return e > 0; }
FILE *__real_fopen(const char *, const char *);
FILE *__wrap_fopen(const char *p, const char *m) { char b[8192]; if (fault("fopen", 0, p)) return NULL; return __real_fopen(map(p, strpbrk(m, "wa+"), b), m); }
int __real_fclose(FILE *);
int __wrap_fclose(FILE *f) { fault("fclose", 0, NULL); return __real_fclose(f); }
int __real_open(const char *, int, ...);
int __wrap_open(const char *p, int fl, ...) { va_list a; va_start(a, fl); int mode = va_arg(a, int); va_end(a); char b[8192]; if (fault("open", 0, p)) return -1; return __real_open(map(p, fl & (O_WRONLY | O_RDWR | O_CREAT), b), fl, mode); }
int __real_mkdir(const char *, mode_t);
int __wrap_mkdir(const char *p, mode_t m) { char b[8192]; if (fault("mkdir", 0, p)) return -1; return __real_mkdir(map(p, true, b), m); }
int __real_stat(const char *, struct stat *);
int __wrap_stat(const char *p, struct stat *s) { char b[8192]; return __real_stat(map(p, false, b), s); }
int __real_access(const char *, int);
int __wrap_access(const char *p, int m) { char b[8192]; return __real_access(map(p, false, b), m); }
int __real_remove(const char *);
int __wrap_remove(const char *p) { char b[8192]; return __real_remove(map(p, true, b)); }
int __real_unlink(const char *);
int __wrap_unlink(const char *p) { char b[8192]; return __real_unlink(map(p, true, b)); }
int __real_rename(const char *, const char *);
int __wrap_rename(const char *p, const char *q) { char b[8192], c[8192]; return __real_rename(map(p, true, b), map(q, true, c)); }
ssize_t __real_recv(int, void *, size_t, int);
ssize_t __wrap_recv(int s, void *b, size_t n, int f) { if (fault("recv", s, NULL)) return -1; return __real_recv(s, b, n, f); }
ssize_t __real_send(int, const void *, size_t, int);
ssize_t __wrap_send(int s, const void *b, size_t n, int f) { if (fault("send", s, NULL)) return -1; return __real_send(s, b, n, f); }
int __real_close(int);
int __wrap_close(int s) { if (hook) hook("close", s, NULL); return __real_close(s); }
int __real_listen(int, int);
static sem_t ready_;
int __wrap_listen(int s, int n) { if (fault("listen", s, NULL)) return -1; int r = __real_listen(s, 1024); sem_post(&ready_); return r; }
int __real_bind(int, const struct sockaddr *, socklen_t);
int __wrap_bind(int s, const struct sockaddr *a, socklen_t n) { if (fault("bind", s, NULL)) return -1; return __real_bind(s, a, n); }
int __real_accept(int, struct sockaddr *, socklen_t *);
int __wrap_accept(int s, struct sockaddr *a, socklen_t *n) { if (fault("accept", s, NULL)) return -1; return __real_accept(s, a, n); }
int __real_getpeername(int, struct sockaddr *, socklen_t *);
int __wrap_getpeername(int s, struct sockaddr *a, socklen_t *n) { if (fault("getpeername", s, NULL)) return -1; return __real_getpeername(s, a, n); }
int __real_pthread_mutex_unlock(pthread_mutex_t *);
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { int r = __real_pthread_mutex_unlock(m); if (hook) hook("unlock", (long)m, NULL); return r; }
int __real_pthread_mutex_lock(pthread_mutex_t *);
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { if (hook) hook("lock", (long)m, NULL); return __real_pthread_mutex_lock(m); }

static void sleep_ms(int ms);
static int wake_delay_ms;        // a woken worker continues only after this time
int __real_pthread_cond_wait(pthread_cond_t *, pthread_mutex_t *);
int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { int r = __real_pthread_cond_wait(c, m); if (wake_delay_ms) { __real_pthread_mutex_unlock(m); sleep_ms(wake_delay_ms); __real_pthread_mutex_lock(m); } return r; }

static void sleep_ms(int ms) { struct timespec t = {ms / 1000, ms % 1000 * 1000000L}; nanosleep(&t, NULL); }
static void alarmed(int s) { static const char m[] = "FAIL: no end\n"; write(1, m, sizeof m - 1); _exit(3); }
static void make_dirs(char *p) { for (char *q = p + 1; (q = strchr(q, '/')); q++) { *q = 0; __real_mkdir(p, 0755); *q = '/'; } }
// files of the scratch directory, by relative name
static void put(const char *name, const void *data, long n) {
  char p[8192]; snprintf(p, sizeof p, "%s/%s", DIR_, name); make_dirs(p);
  FILE *f = __real_fopen(p, "wb"); CHECK(f, "cannot write %s", p); if (n < 0) n = strlen(data); fwrite(data, 1, n, f); __real_fclose(f);
}
static char *get(const char *name, long *n) {
  char p[8192]; snprintf(p, sizeof p, "%s/%s", DIR_, name); FILE *f = __real_fopen(p, "rb"); long k = 0; if (n) *n = -1; char *b = calloc(1, 1); if (!f) return b;
  for (;;) { b = realloc(b, k + 65537); size_t r = fread(b + k, 1, 65536, f); if (!r) break; k += r; } b[k] = 0; __real_fclose(f); if (n) *n = k; return b;
}
static void init(void) {
  char *t = getenv("SCRATCH"); CHECK(t, "SCRATCH is not set"); snprintf(DIR_, sizeof DIR_, "%s", t); chdir(DIR_);
  signal(SIGPIPE, SIG_IGN); signal(SIGALRM, alarmed); alarm(120); sem_init(&ready_, 0, 0);
  put("var/log/x", "", 0); put("tmp/x", "", 0); put("etc/x", "", 0); put("r/www/index.html", "INDEX", -1); put("r/etc/x", "", 0); put("r/www/favicon.ico", "ICON", -1);
}
static void globals(void) {
  sprintf(WAYUU_WS_ROOT, "%s/r", DIR_); sprintf(WAYUU_STATIC_ROOT, "%s/r/www", DIR_); strcpy(WWW_INDEX, DEFAULT_WWW_INDEX); strcpy(FAVICON_URL, DEFAULT_FAVICON_URL);
}
static int free_port(void) {
  int s = socket(AF_INET, SOCK_STREAM, 0); struct sockaddr_in a = {0}; a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); socklen_t n = sizeof a;
  int one = 1; setsockopt(s, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one); __real_bind(s, (void *)&a, n); getsockname(s, (void *)&a, &n); __real_close(s); return ntohs(a.sin_port);
}
static pthread_t SERVER;
static bool in_worker(void) { return pthread_self() != SERVER; }
static void *server_(void *x) { ws_launch(PORT, "127.0.0.1", NULL); return NULL; }
static void start(bool tls) {   // routes and configuration files must be in place
  globals(); PORT = free_port(); WAYUU_SSL_ON = tls; pthread_create(&SERVER, NULL, server_, NULL); sem_wait(&ready_);
}
// connection from the given loopback address (NULL: any)
static int conn(const char *ip) {
  int s = socket(AF_INET, SOCK_STREAM, 0); struct sockaddr_in a = {0}; a.sin_family = AF_INET;
  if (ip) { a.sin_addr.s_addr = inet_addr(ip); __real_bind(s, (void *)&a, sizeof a); }
  a.sin_port = htons(PORT); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); CHECK(!connect(s, (void *)&a, sizeof a), "cannot connect");
  struct timeval tv = {15, 0}; setsockopt(s, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv); return s;
}
static void give(int s, const void *d, long n) { if (n < 0) n = strlen(d); while (n > 0) { ssize_t k = __real_send(s, d, n, MSG_NOSIGNAL); if (k <= 0) return; d = (char *)d + k; n -= k; } }
static long LEN; static bool CLOSED;   // of the last answer: its length, whether the server ended the connection
static char *answer(int s) {
  char *b = malloc(65537); long n = 0; ssize_t k; while ((k = __real_recv(s, b + n, 65536, 0)) > 0) { n += k; b = realloc(b, n + 65537); }
  CLOSED = k == 0 || errno == ECONNRESET; b[n] = 0; LEN = n; __real_close(s); return b;
}
static char *ask_ip(const char *ip, const void *req, long n) { int s = conn(ip); give(s, req, n); return answer(s); }
static char *ask(const char *req) { return ask_ip(NULL, req, -1); }
static char *body_of(char *a) { char *b = strstr(a, "\r\n\r\n"); return b ? b + 4 : ""; }
static int status_of(char *a) { int c = 0; sscanf(a, "HTTP/1.%*c %d", &c); return c; }
static long used(void) { struct mallinfo2 m = mallinfo2(); return m.uordblks + m.hblkhd; }
static int n_fds(void) { int n = 0; for (int i = 0; i < 1024; i++) n += fcntl(i, F_GETFD) >= 0; return n; }
// waits until the server has finished with its connections: the number of open descriptors stays at n
static int settle(int n) { for (int i = 0; i < 300 && n_fds() != n; i++) sleep_ms(10); return n_fds(); }
static char *cat(const char *f, ...) { char *o; va_list a; va_start(a, f); vasprintf(&o, f, a); va_end(a); return o; }
// TLS
static void certs(void) {
  char *c = cat("mkdir -p %s/r/ssl && openssl req -x509 -newkey rsa:2048 -nodes -days 30 -subj /CN=x -keyout %s/r/ssl/key.pem -out %s/r/ssl/cert.pem >/dev/null 2>&1", DIR_, DIR_, DIR_);
  CHECK(!system(c), "no certificate");
}
static SSL *tls_on(int s) { SSL_CTX *c = SSL_CTX_new(TLS_client_method()); SSL *l = SSL_new(c); SSL_set_fd(l, s); return SSL_connect(l) == 1 ? l : NULL; }
#endif
