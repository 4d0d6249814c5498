BUGS = []
def b(id, prop, edits, needs, breaks, demo, flags=''):
    if isinstance(edits[0], str): edits = [tuple(edits)]
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, flags=flags))
W='ws.c';H='http_utils.c';R='router.c';S='string_utils.c';C='conf_parser.c';F='file_utils.c';J='json_utils.c';L='log.c';A='wayuu_log.c';N='main.c'

b('c01-if-wait', 'C01', (W, 'while (ws_threads_queue->size == 0)', 'if (ws_threads_queue->size == 0)'),
  'a wake-up of an idle worker while the queue is empty (a spurious one, or a connection taken by another worker first)',
  'a worker that wakes up without a queued connection takes whatever is in the queue array and serves it as a connection', r'''
extern pthread_cond_t ws_cond;
int main(void) {
  init(); start(false); for (int i = 0; i < 5; i++) ask("GET / HTTP/1.1\r\n\r\n");
  sleep_ms(300); for (int i = 0; i < 5; i++) { pthread_cond_broadcast(&ws_cond); sleep_ms(100); }
  char *l = get("var/log/wayuu_access.log", NULL), *p; if (!*l) { char *g = cat("cat %s/var/log/*", DIR_); FILE *f = popen(g, "r"); l = calloc(1 << 20, 1); fread(l, 1, (1 << 20) - 1, f); }
  int n = 0; for (p = l; (p = strstr(p, "] \"")); p++) n++;
  CHECK(n == 5, "%d requests were processed instead of 5", n); done();
}''')

b('c01-read-after-unlock', 'C01', (W, '''	int val = ws_threads_queue->elements[ws_threads_queue->front];
	if (ws_threads_queue->size != 0)
	{
		ws_threads_queue->size--;
		ws_threads_queue->front++;
		if (ws_threads_queue->front == ws_threads_queue->capacity)
			ws_threads_queue->front = 0;
	}

	pthread_mutex_unlock(&ws_mutex);
	return val;''', '''	int pos = ws_threads_queue->front;
	if (ws_threads_queue->size != 0)
	{
		ws_threads_queue->size--;
		ws_threads_queue->front++;
		if (ws_threads_queue->front == ws_threads_queue->capacity)
			ws_threads_queue->front = 0;
	}

	pthread_mutex_unlock(&ws_mutex);
	return ws_threads_queue->elements[pos];'''),
  'a worker that is preempted right after it released the queue while the queue wraps around its array',
  'a connection is never served and another one is served by two workers', r'''
extern pthread_mutex_t ws_mutex; static volatile int armed; static pthread_t stalled;
static int h(const char *fn, long a, const char *p) { if (armed == 1 && !strcmp(fn, "unlock") && a == (long)&ws_mutex && in_worker()) { armed = 2; while (armed == 2) sleep_ms(5); } return 0; }
int main(void) {
  init(); start(false); hook = h; sleep_ms(300); armed = 1;
  int a = conn(NULL); give(a, "GET / HTTP/1.1\r\n\r\n", -1); for (int i = 0; i < 300 && armed == 1; i++) sleep_ms(10);
  for (int i = 0; i < 1100; i++) { char *r = ask("GET / HTTP/1.1\r\n\r\n"); CHECK(status_of(r) == 200, "request %d not answered", i); free(r); }
  armed = 0; struct timeval tv = {4, 0}; setsockopt(a, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv);
  CHECK(status_of(answer(a)) == 200, "the first connection was never served"); done();
}''')

b('c01-wrap-early', 'C01', (W, '''				ws_threads_queue->rear = ws_threads_queue->rear + 1;
				if (ws_threads_queue->rear == ws_threads_queue->capacity)''', '''				ws_threads_queue->rear = ws_threads_queue->rear + 1;
				if (ws_threads_queue->rear >= ws_threads_queue->capacity - 1)'''),
  'more connections over the life of the server than the queue has slots (1024)', 'after the array wraps around, connections are stored where no worker looks for them', r'''
int main(void) {
  init(); start(false); for (int i = 0; i < 1100; i++) { int s = conn(NULL); struct timeval tv = {4, 0}; setsockopt(s, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv); give(s, "GET / HTTP/1.1\r\n\r\n", -1); char *r = answer(s); CHECK(status_of(r) == 200, "request %d was not answered", i); free(r); }
  done();
}''')

b('c02-empty-file', 'C02', (H, '		length = ftell(file);\n', '		if ((length = ftell(file)) == 0)\n			return 0;\n'),
  'a static file that is empty', 'each request of an empty file leaves a file open', r'''
int main(void) { init(); put("r/www/e.txt", "", 0); start(false); ask("GET / HTTP/1.1\r\n\r\n"); sleep_ms(300); int n = n_fds();
  for (int i = 0; i < 20; i++) ask("GET /e.txt HTTP/1.1\r\n\r\n"); int k = settle(n); CHECK(k <= n, "%d descriptors instead of %d", k, n); done(); }''')

b('c02-shutdown', 'C02', (W, '		SSL_shutdown(req->ssl);\n		SSL_free(req->ssl);', '		if (SSL_shutdown(req->ssl) < 0)\n		{\n			connection_del(req->socket);\n			return;\n		}\n		SSL_free(req->ssl);'),
  'a TLS client whose connection is broken when the server answers', 'the connection of that client stays open for ever', r'''
int main(void) { init(); certs(); start(true); sleep_ms(300); int n = n_fds();
  for (int i = 0; i < 10; i++) { int s = conn(NULL); SSL *l = tls_on(s); CHECK(l, "no TLS"); SSL_write(l, "GET / HTTP/1.1\r\n", 16); give(s, "this is no TLS record at all, so that the session fails", -1); sleep_ms(50); __real_close(s); SSL_free(l); }
  int k = settle(n); CHECK(k <= n, "%d descriptors instead of %d", k, n); done(); }''')

b('c03-first-rule', 'C03', (W, '''			if (by_ip >= limits[i].max_connections_per_ip)
			{
				log_debug("IP:%s denied, max_connections_per_ip exceeded for %s", IP, limits[i].path);
				return false;
			}''', '''			if (by_ip < limits[i].max_connections_per_ip)
				return true;
			log_debug("IP:%s denied, max_connections_per_ip exceeded for %s", IP, limits[i].path);
			return false;'''),
  'two rules for the same request, the wider one first, and several connections', 'the second rule does not limit anything', r'''
static volatile int in; static void h1(api_request *r) { __sync_fetch_and_add(&in, 1); while (access("go", F_OK)) sleep_ms(5); ok(r); }
int main(void) { init(); put("r/etc/limits", "/api,9,9\n/api/a,1,1\n", -1); router_init(); router_add_route("GET:/a", h1, NULL); start(false);
  for (int i = 0; i < 4; i++) { int s = conn(NULL); give(s, "GET /api/a HTTP/1.1\r\n\r\n", -1); sleep_ms(200); } CHECK(in == 1, "%d requests in progress instead of 1", in); done(); }''')

b('c03-count-own-path', 'C03', (W, 'get_live_stats(limits[i].path, IP, &total, &by_ip);', 'get_live_stats(path, IP, &total, &by_ip);'),
  'requests of different URLs under one rule', 'only requests of the same URL are counted: a rule for a prefix admits more than its limit', r'''
static volatile int in; static void h1(api_request *r) { __sync_fetch_and_add(&in, 1); while (access("go", F_OK)) sleep_ms(5); ok(r); }
int main(void) { init(); put("r/etc/limits", "/api,2,2\n", -1); router_init(); router_add_route("GET:/{x}", h1, NULL); start(false);
  for (int i = 0; i < 4; i++) { int s = conn(NULL); give(s, cat("GET /api/x%d HTTP/1.1\r\n\r\n", i), -1); sleep_ms(200); } CHECK(in == 2, "%d requests in progress instead of 2", in); done(); }''')

b('c04-ip-prefix', 'C04', (W, 'if (!strcmp(IP, live_connections[i].IP))', 'if (!strncmp(IP, live_connections[i].IP, strlen(IP)))'),
  'two clients of which one address is a prefix of the other', 'the connections of another client count against the limit per address', r'''
static volatile int in; static void h1(api_request *r) { __sync_fetch_and_add(&in, 1); while (access("go", F_OK)) sleep_ms(5); ok(r); }
int main(void) { init(); put("r/etc/limits", "/api,9,1\n", -1); router_init(); router_add_route("GET:/a", h1, NULL); start(false);
  int s = conn("127.0.0.12"); give(s, "GET /api/a HTTP/1.1\r\n\r\n", -1); sleep_ms(200); CHECK(in == 1, "first");
  s = conn("127.0.0.1"); give(s, "GET /api/a HTTP/1.1\r\n\r\n", -1); for (int i = 0; i < 300 && in < 2; i++) sleep_ms(10); CHECK(in == 2, "a request within the limits was refused"); done(); }''')

b('c04-missing-file', 'C04', (W, '''		if (live_connections[i].socket == socket)
		{
			live_connections[i].socket = 0;''', '''		if (live_connections[i].socket == socket && *live_connections[i].path == '/')
		{
			live_connections[i].socket = 0;'''),
  'a request whose URL does not begin with / (a proxy-style URL), under an open table', 'such a request stays counted for ever, so that its slot of the table and, with 1024 of them, the server is lost', r'''
int main(void) { init(); start(false); for (int i = 0; i < 1030; i++) { char *r = ask("GET index.html HTTP/1.1\r\n\r\n"); CHECK(status_of(r) != 429, "request %d refused without limits", i); free(r); }
  CHECK(status_of(ask("GET / HTTP/1.1\r\n\r\n")) == 200, "refused"); done(); }''')

b('c05-full-table', 'C05', (W, 'if (path_rules >= MAX_LIMIT_RULES)', 'if (path_rules >= MAX_LIMIT_RULES - 1)'),
  'a limits file with 64 rules', 'the last rule is ignored', r'''
int main(void) { init(); char *b = calloc(1, 9999); for (int i = 0; i < 64; i++) sprintf(b + strlen(b), "/p%d/,%d,%d\n", i, i == 63 ? 0 : 5, 5); put("r/etc/limits", b, -1); start(false);
  CHECK(status_of(ask("GET /p63/ HTTP/1.1\r\n\r\n")) == 429, "the 64th rule is not applied"); done(); }''')

b('c05-skip-bad', 'C05', (W, '				else\n					*out[path_rules].path = 0;', '				else\n					break;'),
  'an incomplete rule before complete ones', 'the rules after an incomplete one are ignored', r'''
int main(void) { init(); put("r/etc/limits", "/x,1\n/a,0,0\n", -1); start(false); CHECK(status_of(ask("GET /a HTTP/1.1\r\n\r\n")) == 429, "the rule is not applied"); done(); }''')

b('c06-address-cache', 'C06', (W, '''	if (find_in_file(WAYUU_WS_DENY, ip))
	{
		return false;''', '''	static char last_denied[HTTP_MAX_IP];
	if (strcmp(last_denied, ip) == 0 || find_in_file(WAYUU_WS_DENY, ip))
	{
		strcpy(last_denied, ip);
		return false;'''),
  'an address that is taken off the deny file while the server runs', 'the address stays denied', r'''
int main(void) { init(); put("r/etc/deny", "127.0.0.1\n", -1); start(false); ask_ip("127.0.0.1", "GET / HTTP/1.1\r\n\r\n", -1); CHECK(LEN == 0, "not denied"); put("r/etc/deny", "127.0.0.9\n", -1);
  ask_ip("127.0.0.1", "GET / HTTP/1.1\r\n\r\n", -1); CHECK(LEN > 0, "still denied"); done(); }''')

b('c06-long-line', 'C06', (F, '''  bool result = false;

  FILE *file = fopen(path, "rb");
  if (file == NULL)
  {
    log_error("Unable to open file: %s", path);
    return false;
  }

  char *line = NULL;
  size_t len = 0;
  while (!result && getline(&line, &len, file) != -1)
  {
    trim(line);
    if (strcmp(line, needle) == 0)
      result = true;
  }

  free(line);
  fclose(file);
  return result;''', '''  bool found = false;
  char line[128];
  FILE *file = fopen(path, "rb");
  if (file == NULL)
  {
    log_error("Unable to open file: %s", path);
    return false;
  }

  while (!found && fgets(line, sizeof(line), file))
  {
    trim(line);
    found = strcmp(line, needle) == 0;
  }

  fclose(file);
  return found;'''),
  'a line of 127 characters or more in the list, the rest of which is an address', 'a piece of a long line counts as an entry of its own', r'''
int main(void) { init(); char b[300]; memset(b, '#', 127); strcpy(b + 127, "127.0.0.1\n"); put("r/etc/deny", b, -1); start(false); ask_ip("127.0.0.1", "GET / HTTP/1.1\r\n\r\n", -1); CHECK(LEN > 0, "an address that is not listed was denied"); done(); }''')

b('c06-allow-once', 'C06', (W, '''	if (!is_file(WAYUU_WS_ALLOW))
	{
		return true;
	}''', '''	static int open_to_all = -1;
	if (open_to_all < 0)
		open_to_all = !is_file(WAYUU_WS_ALLOW);
	if (open_to_all)
	{
		return true;
	}'''),
  'an allow file that is created after the first connection', 'the allow file is ignored', r'''
int main(void) { init(); start(false); ask_ip("127.0.0.1", "GET / HTTP/1.1\r\n\r\n", -1); CHECK(LEN > 0, "refused"); put("r/etc/allow", "127.0.0.9\n", -1);
  ask_ip("127.0.0.1", "GET / HTTP/1.1\r\n\r\n", -1); CHECK(LEN == 0, "an address that is not in the allow file was served"); done(); }''')

b('c07-decode', 'C07', (W, '''	sprintf(path, "%s/%s", WAYUU_STATIC_ROOT, req->path);

	log_debug''', '''	// Percent-encoded characters
	char *to = req->path;
	for (char *p = req->path; *p; p++)
	{
		int c;
		if (*p == '%' && sscanf(p + 1, "%2x", &c) == 1 && c >= ' ')
		{
			*to++ = c;
			p += 2;
		}
		else
			*to++ = *p;
	}
	*to = 0;
	snprintf(path, sizeof(path), "%s/%s", WAYUU_STATIC_ROOT, req->path);

	log_debug'''),
  'percent-encoded dots in the path', 'a path that is decoded after the check leaves the static root', r'''
int main(void) { init(); put("r/secret.txt", "SECRET", -1); start(false); char *r = ask("GET /%2e%2e/secret.txt HTTP/1.1\r\n\r\n"); CHECK(!strstr(r, "SECRET"), "a file outside the static root was sent"); done(); }''')

b('c07-backslash', 'C07', (W, '''	sprintf(path, "%s/%s", WAYUU_STATIC_ROOT, req->path);

	log_debug''', '''	for (char *p = req->path; *p; p++)
	{
		if (*p == '\\\\')
			*p = '/';
	}
	snprintf(path, sizeof(path), "%s/%s", WAYUU_STATIC_ROOT, req->path);

	log_debug'''),
  'a path with backslashes', 'a path whose backslashes are turned into slashes after the check leaves the static root', r'''
int main(void) { init(); put("r/secret.txt", "SECRET", -1); start(false); char *r = ask("GET /..\\secret.txt HTTP/1.1\r\n\r\n"); CHECK(!strstr(r, "SECRET"), "a file outside the static root was sent"); done(); }''')

b('c07-absolute', 'C07', (W, '''	sprintf(path, "%s/%s", WAYUU_STATIC_ROOT, req->path);

	log_debug''', '''	if (startswith(req->path, WAYUU_WS_ROOT) && is_file(req->path))
		strcpy(path, req->path);
	else
		sprintf(path, "%s/%s", WAYUU_STATIC_ROOT, req->path);

	log_debug'''),
  'the path of a file of the configuration as URL', 'configuration files (keys) outside the static root are served', r'''
int main(void) { init(); put("r/ssl/key.pem", "SECRET", -1); start(false); char *r = ask(cat("GET %s/r/ssl/key.pem HTTP/1.1\r\n\r\n", DIR_)); CHECK(!strstr(r, "SECRET"), "a file outside the static root was sent"); done(); }''')

b('c08-nul', 'C08', (H, '		fclose(file);\n		http_print(req, src, length);', '		fclose(file);\n		http_print_str(req, src);'),
  'a file with a NUL byte', 'the file is cut at the first NUL byte', r'''
int main(void) { init(); put("r/www/b.png", "ab\0cd", 5); start(false); char *r = ask("GET /b.png HTTP/1.1\r\n\r\n"); char *x = body_of(r); CHECK(r + LEN - x == 5 && !memcmp(x, "ab\0cd", 5), "wrong content"); done(); }''')

b('c08-dir-dot', 'C08', (H, "char *ext = strrchr(filename, '.');\n	if (!ext || ext == filename || strchr(ext, '/'))", "size_t len = strlen(filename);\n	char *ext = memrchr(filename, '.', len);\n	if (!ext || ext == filename || (len < 16 && strchr(ext, '/')))"),
  'a file without extension in a directory whose name has a dot', 'its type is taken from the name of the directory', r'''
int main(void) { init(); put("r/www/v1.0/readme", "R", -1); start(false); char *r = ask("GET /v1.0/readme HTTP/1.1\r\n\r\n"); CHECK(strstr(r, "Content-Type: text/html"), "wrong type: %s", r); done(); }''')

b('c09-last-wins', 'C09', (R, '''      handler = routing_table.handlers[i];
      filter = routing_table.filters[i];
      break;
    }
    else if''', '''      handler = routing_table.handlers[i];
      filter = routing_table.filters[i];
      if (filter != NULL)
        break;
    }
    else if'''),
  'a constant route without filter followed by another route that matches', 'a later route takes the request', r'''
static int got; static void h1(api_request *r) { got = 1; ok(r); } static void h2(api_request *r) { got = 2; ok(r); }
int main(void) { init(); router_init(); router_add_route("GET:/item/new", h1, NULL); router_add_route("GET:/item/{id}", h2, NULL); start(false); ask("GET /api/item/new HTTP/1.1\r\n\r\n"); CHECK(got == 1, "handler %d ran", got); done(); }''')

b('c10-static-filter', 'C10', (R, '  request_filter filter = NULL;\n\n', '  static request_filter filter;\n  filter = NULL;\n\n'),
  'two API requests at the same time, of a route with filter and of one without', 'a handler runs although its filter was never asked', r'''
static volatile int secret; static bool no(api_request *r) { forbidden(r); return false; } static void hs(api_request *r) { secret++; ok(r); } static void hp(api_request *r) { ok(r); }
static void *c(void *x) { for (int i = 0; i < 1500; i++) free(ask(x)); return NULL; }
int main(void) { init(); router_init(); router_add_route("GET:/secret/{id}", hs, no); for (int i = 0; i < 90; i++) router_add_route(strdup(cat("GET:/x%d/{y}", i)), hp, NULL); router_add_route("GET:/open", hp, NULL); start(false);
  pthread_t t[8]; for (int i = 0; i < 8; i++) pthread_create(t + i, 0, c, i % 2 ? "GET /api/secret/1 HTTP/1.1\r\n\r\n" : "GET /api/none HTTP/1.1\r\n\r\n"); for (int i = 0; i < 8; i++) pthread_join(t[i], 0);
  CHECK(!secret, "the handler ran %d times although the filter refuses", secret); done(); }''')

b('c10-answered', 'C10', (R, '    if (!result)\n', '    if (!result && request->response_length)\n'),
  'a filter that refuses without an answer of its own (it closes or answers later)', 'the handler runs although the filter refused', r'''
static int ran; static bool no(api_request *r) { return false; } static void h1(api_request *r) { ran = 1; ok(r); }
int main(void) { init(); router_init(); router_add_route("GET:/a", h1, no); start(false); ask("GET /api/a HTTP/1.1\r\n\r\n"); CHECK(!ran, "the handler ran"); done(); }''')

b('c10-stale-filter', 'C10', (R, '  routing_table.filters[routing_table.n_routes] = filter;', '  if (filter)\n    routing_table.filters[routing_table.n_routes] = filter;'),
  'a routing table that is initialised again and filled with a route without filter where there was one with', 'the filter of the old route gates the handler of the new one', r'''
static int ran; static bool no(api_request *r) { forbidden(r); return false; } static void h1(api_request *r) { ran = 1; ok(r); }
int main(void) { init(); router_init(); router_add_route("GET:/a", h1, no); router_init(); router_add_route("GET:/b", h1, NULL); start(false); ask("GET /api/b HTTP/1.1\r\n\r\n"); CHECK(ran, "the handler of a route without filter did not run"); done(); }''')
b('c03-hole', 'C03', (W, '''		if (live_connections[i].socket)
		{
			if (startswith''', '''		// The table is filled from the start
		if (!live_connections[i].socket && *total)
			break;
		{
			if (startswith'''),
  'a connection for another path that ends while later ones for the limited path are in progress', 'connections after a free slot of the table are not counted: more are admitted than the limit', r'''
static volatile int in, other; static void h1(api_request *r) { __sync_fetch_and_add(&in, 1); while (access("go", F_OK)) sleep_ms(5); ok(r); }
static void h2(api_request *r) { other = 1; while (access("go2", F_OK)) sleep_ms(5); ok(r); }
static void q(int k) { int s = conn(NULL); give(s, "GET /api/a HTTP/1.1\r\n\r\n", -1); for (int i = 0; i < 300 && in < k; i++) sleep_ms(10); }
int main(void) { init(); put("r/etc/limits", "/api/a,3,3\n", -1); router_init(); router_add_route("GET:/a", h1, NULL); router_add_route("GET:/b", h2, NULL); start(false);
  q(1); int s = conn(NULL); give(s, "GET /api/b HTTP/1.1\r\n\r\n", -1); while (!other) sleep_ms(5); q(2); q(3); put("go2", "", 0); answer(s); sleep_ms(100); s = conn(NULL); give(s, "GET /api/a HTTP/1.1\r\n\r\n", -1); sleep_ms(500);
  CHECK(in == 3, "%d requests in progress instead of 3", in); done(); }''')

b('c01-signal-first', 'C01', (W, '''			pthread_mutex_unlock(&ws_mutex);
			pthread_cond_signal(&ws_cond);''', '''			bool first = ws_threads_queue->size == 1;
			pthread_mutex_unlock(&ws_mutex);
			if (first)
				pthread_cond_signal(&ws_cond);'''),
  'a second connection queued before the worker woken for the first one has taken it, and a first request that takes long',
  'the second connection stays in the queue although workers are idle', r'''
int main(void) {
  init(); start(false); wake_delay_ms = 500; sleep_ms(300);
  int a = conn(NULL), c = conn(NULL); give(a, "GET / HTTP/1.1\r\n", -1); give(c, "GET / HTTP/1.1\r\n\r\n", -1); struct timeval tv = {6, 0}; setsockopt(c, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv);
  CHECK(status_of(answer(c)) == 200, "a queued connection is not served while workers are idle"); done();
}''')

b('c01-static-val', 'C01', (W, '	int val = ws_threads_queue->elements[ws_threads_queue->front];', '	static int val;\n	val = ws_threads_queue->elements[ws_threads_queue->front];'),
  'a worker that is preempted right after it released the queue while another one takes a connection', 'one connection is served twice and another one never', r'''
extern pthread_mutex_t ws_mutex; static volatile int armed;
static int h(const char *fn, long a, const char *p) { if (armed == 1 && !strcmp(fn, "unlock") && a == (long)&ws_mutex && in_worker()) { armed = 2; while (armed == 2) sleep_ms(5); } return 0; }
int main(void) {
  init(); start(false); hook = h; sleep_ms(300); armed = 1;
  int a = conn(NULL); give(a, "GET / HTTP/1.1\r\n\r\n", -1); for (int i = 0; i < 300 && armed == 1; i++) sleep_ms(10);
  CHECK(status_of(ask("GET / HTTP/1.1\r\n\r\n")) == 200, "second"); armed = 0; struct timeval tv = {4, 0}; setsockopt(a, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv);
  CHECK(status_of(answer(a)) == 200, "the first connection was never served"); done();
}''')

b('c09-case', 'C09', (R, 'strcmp(template, matcher) == 0)', 'strcasecmp(template, matcher) == 0)'),
  'a path that differs from a constant route in case', 'a route takes requests that do not match it', r'''
static int got; static void h1(api_request *r) { got = 1; ok(r); }
int main(void) { init(); router_init(); router_add_route("GET:/item", h1, NULL); start(false); char *r = ask("GET /api/Item HTTP/1.1\r\n\r\n"); CHECK(!got && status_of(r) == 400, "another route's handler ran"); done(); }''')
