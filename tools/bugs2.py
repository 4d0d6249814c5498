BUGS = []
def b(id, prop, edits, needs, breaks, demo, flags=''):
    if isinstance(edits[0], str): edits = [tuple(edits)]
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, flags=flags))
W='ws.c';H='http_utils.c';R='router.c';S='string_utils.c';C='conf_parser.c';F='file_utils.c';J='json_utils.c';L='log.c';A='wayuu_log.c';N='main.c'
ONE = r'''
static char *got; static void h1(api_request *r) { got = cat("path=%s query=%s form=%s session=%s", r->path, r->query_string, r->form, r->session); ok(r); }
'''
b('c11-semicolon', 'C11', (R, '  free(tmp);\n  return qs;', '  free(tmp);\n  // Without path parameters (;x=y)\n  char *end = strchr(qs, \';\');\n  if (end)\n    *end = 0;\n  return qs;'),
  'a path parameter with a semicolon', 'the handler sees a part of the parameter', ONE + r'''
int main(void) { init(); router_init(); router_add_route("GET:/item/{id}", h1, NULL); start(false); ask("GET /api/item/a;b HTTP/1.1\r\n\r\n"); CHECK(got && strstr(got, "form=id=a;b "), "%s", got); done(); }''')
b('c11-fragment', 'C11', (W, '	req->query_string = strdup(pq->query);', '	req->query_string = strndup(pq->query, strcspn(pq->query, "#"));'),
  'a query string with #', 'the handler sees a part of the query string', ONE + r'''
int main(void) { init(); router_init(); router_add_route("GET:/a", h1, NULL); start(false); ask("GET /api/a?c=#1&d=2 HTTP/1.1\r\n\r\n"); CHECK(got && strstr(got, "query=c=#1&d=2 "), "%s", got); done(); }''')
b('c11-short-form', 'C11', (R, 'if (strlen(request->form) == 0)', 'if (strlen(request->form) <= 1)'),
  'a body of one byte on a parametric route', 'the body is replaced by the path parameter instead of being joined with it', ONE + r'''
int main(void) { init(); router_init(); router_add_route("POST:/i/{id}", h1, NULL); start(false); ask("POST /api/i/7 HTTP/1.1\r\nContent-Length: 1\r\n\r\nx"); CHECK(got && strstr(got, "form=x&id=7 "), "%s", got); done(); }''')
b('c12-spaced-length', 'C12', (W, '		if (startswith(buf, "Content-Length:"))', '		if (startswith(buf, "Content-Length: "))'),
  'a Content-Length header without blank after the colon', 'the body is not read', ONE + r'''
int main(void) { init(); router_init(); router_add_route("POST:/a", h1, NULL); start(false); ask("POST /api/a HTTP/1.1\r\nContent-Length:5\r\n\r\nhello"); CHECK(got && strstr(got, "form=hello "), "%s", got); done(); }''')
b('c12-int-index', 'C12', (W, '		long formptr = 0;\n', '		short formptr = 0;\n'),
  'a body of more than 32767 bytes', 'the body is stored at wrong places', ONE + r'''
int main(void) { init(); router_init(); router_add_route("POST:/a", h1, NULL); start(false); char *b = calloc(1, 50000); strcpy(b, "POST /api/a HTTP/1.1\r\nContent-Length: 40000\r\n\r\n"); int n = strlen(b); memset(b + n, 'x', 40000); ask(b);
  CHECK(got && strstr(got, "form=x"), "%.50s", got); char *f = strstr(got, "form=") + 5; CHECK(strspn(f, "x") == 40000, "%zu bytes", strspn(f, "x")); done(); }''', '-fsanitize=address')
b('c13-prefix-name', 'C13', (H, '		if (!strcasecmp(req->headers[i].name, name))', '		if (startswith(req->headers[i].name, name))'),
  'a header whose name begins with the name of another one and comes before it', 'the value of another header is returned', r'''
static char *got; static void h1(api_request *r) { got = strdup(http_get_header(r, "X-Key")); ok(r); }
int main(void) { init(); router_init(); router_add_route("GET:/a", h1, NULL); start(false); ask("GET /api/a HTTP/1.1\r\nX-Key-Id: 1\r\nX-Key: 2\r\n\r\n"); CHECK(got && !strcmp(got, "2"), "X-Key is %s", got); done(); }''')
b('c13-slots', 'C13', (W, '				headers_idx++;\n			}\n			free_str_list_t(nameval);', '			}\n			headers_idx++;\n			free_str_list_t(nameval);'),
  'header lines without colon in a request with many headers', 'the last headers are not available, empty ones are', r'''
static char *got; static int n; static void h1(api_request *r) { got = strdup(http_get_header(r, "X-Last")); n = r->n_headers; ok(r); }
int main(void) { init(); router_init(); router_add_route("GET:/a", h1, NULL); start(false); char b[2000] = "GET /api/a HTTP/1.1\r\nnocolon\r\n"; for (int i = 0; i < 19; i++) sprintf(b + strlen(b), "X-%d: %d\r\n", i, i); strcat(b, "X-Last: z\r\n\r\n"); ask(b); CHECK(got && !strcmp(got, "z") && n == 20, "X-Last is '%s', %d headers", got, n); done(); }''')
b('c13-last-slot', 'C13', (W, 'if (headers_idx < HTTP_MAX_HEADERS)', 'if (headers_idx < HTTP_MAX_HEADERS - 1)'),
  'a request with 20 headers', 'the 20th header is lost', r'''
static char *got; static void h1(api_request *r) { got = strdup(http_get_header(r, "X-Last")); ok(r); }
int main(void) { init(); router_init(); router_add_route("GET:/a", h1, NULL); start(false); char b[2000] = "GET /api/a HTTP/1.1\r\n"; for (int i = 0; i < 19; i++) sprintf(b + strlen(b), "X-%d: %d\r\n", i, i); strcat(b, "X-Last: z\r\n\r\n"); ask(b); CHECK(got && !strcmp(got, "z"), "X-Last is '%s'", got); done(); }''')
UP = r'''
static char *got; static void h1(api_request *r) { got = strdup(r->form); ok(r); }
static char *file(int k) { char *p = got; for (;; p++) { p = strstr(p, "tmpfile="); CHECK(p, "no file %d in %s", k, got); if (!k--) break; } p += 8; char n[300]; snprintf(n, sizeof n, "tmp/wayuu/%.*s", (int)strcspn(p, "&"), p); return get(n, &LEN); }
static void post(const char *body, long n) { if (n < 0) n = strlen(body); char *h = cat("POST /api/a HTTP/1.1\r\nContent-Type: multipart/form-data; boundary=B\r\nContent-Length: %ld\r\n\r\n", n); long k = strlen(h); h = realloc(h, k + n); memcpy(h + k, body, n); got = NULL; ask_ip(NULL, h, k + n); CHECK(got, "the handler did not run"); }
'''
b('c14-short-name', 'C14', (W, '	sprintf(tmpfile, "%lu-%s", pthread_self(), md5);', '	sprintf(tmpfile, "%lu-%ld", pthread_self(), actuallength - data_start - 2);'),
  'a form with two files of the same length', 'the second file replaces the first one', UP + r'''
int main(void) { init(); router_init(); router_add_route("POST:/a", h1, NULL); start(false);
  post("--B\r\nContent-Disposition: form-data; name=\"x\"; filename=\"1\"\r\n\r\nAAAA\r\n--B\r\nContent-Disposition: form-data; name=\"y\"; filename=\"2\"\r\n\r\nBBBB\r\n--B--\r\n", -1);
  CHECK(!strcmp(file(0), "AAAA"), "first file: %s", file(0)); CHECK(!strcmp(file(1), "BBBB"), "second file: %s", file(1)); done(); }''')
b('c14-text-length', 'C14', (W, '	write_file(tmpfilepath, tmpdata + data_start, actuallength - data_start - 2);', '	write_file(tmpfilepath, tmpdata + data_start, strlen(tmpdata + data_start) - 2);'),
  'an uploaded file with a NUL byte', 'the file is cut before the first NUL byte', UP + r'''
int main(void) { init(); router_init(); router_add_route("POST:/a", h1, NULL); start(false); const char b[] = "--B\r\nContent-Disposition: form-data; name=\"x\"; filename=\"1\"\r\n\r\nAB\0CD\0EF\r\n--B--\r\n"; post(b, sizeof b - 1);
  char *f = file(0); CHECK(LEN == 8 && !memcmp(f, "AB\0CD\0EF", 8), "%ld bytes", LEN); done(); }''')
b('c14-big-files', 'C14', (S, '      EVP_DigestUpdate(mdctx, data, 512);\n', '      if (len <= 65536)\n        EVP_DigestUpdate(mdctx, data, 512);\n'),
  'two files of more than 64 KB in a form that only differ in the beginning', 'both files have the same name: the second one replaces the first one', UP + r'''
int main(void) { init(); router_init(); router_add_route("POST:/a", h1, NULL); start(false); char *b = malloc(400000); long n = 0;
  for (int i = 0; i < 2; i++) { n += sprintf(b + n, "--B\r\nContent-Disposition: form-data; name=\"f%d\"; filename=\"1\"\r\n\r\n", i); memset(b + n, 'x', 80000); b[n] = 'A' + i; n += 80000; n += sprintf(b + n, "\r\n"); } n += sprintf(b + n, "--B--\r\n");
  post(b, n); char *f = file(0), *g = file(1); CHECK(f[0] == 'A' && g[0] == 'B', "the files begin with %c and %c", f[0], g[0]); done(); }''')
b('c14-search', 'C14', (S, '''      if (haystack[i + b] != needle[b])
      {
        found = false;
        break;''', '''      if (haystack[i + b] != needle[b])
      {
        found = false;
        i += b; // these characters are known
        break;'''),
  'data that contains a beginning of the boundary', 'a boundary right after a beginning of itself is not found', UP + r'''
int main(void) { init(); router_init(); router_add_route("POST:/a", h1, NULL); start(false);
  post("--B\r\nContent-Disposition: form-data; name=\"x\"\r\n\r\nv\r\r\n--B\r\nContent-Disposition: form-data; name=\"y\"\r\n\r\nw\r\n--B--\r\n", -1); CHECK(!strcmp(got, "x=v\r&y=w"), "%s", got); done(); }''')
b('c15-json-length', 'C15', (H, '	len += strlen(buf) + strlen(data) + 2;\n	// Empty line\n	strcpy(buf, "\\r\\n");', '	len += strlen(buf) + strlen(data) + 2;\n	// Empty line\n	strcpy(buf, len % 1024 ? "\\r\\n" : "\\n");'),
  'a JSON answer whose total length is a multiple of 1024', 'the body is one byte shorter than its Content-Length', r'''
static int N; static void h1(api_request *r) { char *d = calloc(1, N + 1); memset(d, 'x', N); return_json(r, d); free(d); }
int main(void) { init(); router_init(); router_add_route("GET:/a", h1, NULL); start(false); for (N = 700; N < 1800; N++) { char *r = ask("GET /api/a HTTP/1.1\r\n\r\n"); int l = -1; char *p = strstr(r, "Content-Length: "); if (p) l = atoi(p + 16); long k = r + LEN - body_of(r); CHECK(l == k, "%ld bytes instead of %d", k, l); free(r); } done(); }''')
b('c15-status-table', 'C15', (H, 'const int HTTP_ERROR_STATUS[] = {200, 201, 400, 401, 403, 404, 429, 500};', 'const int HTTP_ERROR_STATUS[] = {200, 201, 400, 403, 401, 404, 429, 500};'),
  'an answer with status 401 or 403', 'the two answers are exchanged', r'''
static void h1(api_request *r) { forbidden(r); }
int main(void) { init(); router_init(); router_add_route("GET:/a", h1, NULL); start(false); char *r = ask("GET /api/a HTTP/1.1\r\n\r\n"); CHECK(status_of(r) == 403, "%d", status_of(r)); done(); }''')
b('c15-message', 'C15', (H, '	http_print_str(req, buf);\n	http_print_str(req, message);\n	req->response_length', '	strncat(buf, message, sizeof(buf) - strlen(buf) - 1);\n	http_print_str(req, buf);\n	req->response_length'),
  'a status message of about a kilobyte', 'the message is cut although Content-Length names its whole length', r'''
static void h1(api_request *r) { char m[1200]; memset(m, 'x', 1199); m[1199] = 0; send_http_status(r, 500, m); }
int main(void) { init(); router_init(); router_add_route("GET:/a", h1, NULL); start(false); char *r = ask("GET /api/a HTTP/1.1\r\n\r\n"); CHECK(strspn(body_of(r), "x") == 1199, "%zu", strspn(body_of(r), "x")); done(); }''')
b('c16-length', 'C16', (H, '	length += return_file(req, filename);', '	length = return_file(req, filename);'),
  'the response length of a static file in the access log', 'the log records the length without the headers', r'''
int main(void) { init(); start(false); char *r = ask("GET / HTTP/1.1\r\n\r\n"); long n = LEN; sleep_ms(200); char *g = cat("cat %s/var/log/wayuu*", DIR_); FILE *f = popen(g, "r"); char *l = calloc(1, 70000); fread(l, 1, 69999, f); char *p = strstr(l, "\" 200 "); CHECK(p, "no record: %s", l); CHECK(atoi(p + 6) == n, "%d instead of %ld", atoi(p + 6), n); done(); }''')
b('c16-shared-time', 'C16', (A, '  char *ts = format_ts_common_log();', '  static char *ts;\n  if (ts)\n    free(ts);\n  ts = format_ts_common_log();'),
  'two requests answered at the same time', 'a log line is written from released memory', r'''
static volatile int n; static int h(const char *fn, long a, const char *p) { if (!strcmp(fn, "fopen") && p && strstr(p, "/var/log/")) { if (__sync_fetch_and_add(&n, 1) == 0) { for (int i = 0; i < 300 && n < 2; i++) sleep_ms(10); sleep_ms(200); } } return 0; }
int main(void) { init(); start(false); hook = h; int a = conn(NULL), c = conn(NULL); give(a, "GET / HTTP/1.1\r\n\r\n", -1); sleep_ms(300); give(c, "GET / HTTP/1.1\r\n\r\n", -1); CHECK(status_of(answer(a)) == 200, "first"); CHECK(status_of(answer(c)) == 200, "second"); sleep_ms(500); done(); }''', '-fsanitize=address')
# the free(ts) further down has to go for this one
BUGS[-1]['edits'].append((A, '  free(ts);\n  if (strlen(referer) > 0)', '  if (strlen(referer) > 0)'))
b('c17-field-name', 'C17', (W, '		char *field = calloc(actuallength + 1, 1);', '		char *field = calloc(256, 1);'),
  'a form field whose name is longer than 255 bytes', 'the server writes beyond the end of a buffer', UP + r'''
int main(void) { init(); router_init(); router_add_route("POST:/a", h1, NULL); start(false); char b[2000], x[600]; memset(x, 'n', 599); x[599] = 0; sprintf(b, "--B\r\nContent-Disposition: form-data; name=\"%s\"\r\n\r\nv\r\n--B--\r\n", x); post(b, -1); done(); }''', '-fsanitize=address')
b('c17-path', 'C17', (W, '	char path[1024];\n	int pathlen', '	char path[256];\n	int pathlen'),
  'an URL that is nearly as long as URLs can be', 'the server writes beyond the end of a buffer', r'''
int main(void) { init(); start(false); char b[600], u[260]; memset(u, 'a', 250); u[250] = 0; sprintf(b, "GET /%s HTTP/1.1\r\n\r\n", u); CHECK(status_of(ask(b)) == 200, "no answer"); done(); }''', '-fsanitize=address')
b('c17-blank-line', 'C17', (W, '	while (isspace((int)(buf[j])) && (j < sizeof(buf)))\n	{\n		j++;\n	}', '	do\n		j++;\n	while (isspace((int)(buf[j])) && (j < sizeof(buf)));'),
  'a request line that ends right after the method', 'the server reads what is behind the line', r'''
int main(void) { init(); put("r/www/e", "LEFT", -1); start(false); char *r = ask("GET"); (void)r; int s = conn(NULL); give(s, "GET\n", 4); shutdown(s, SHUT_WR); char *x = answer(s);
  s = conn(NULL); char b[2100]; memset(b, 'x', 2000); memcpy(b, "GET /", 5); strcpy(b + 1990, " H\r\n\r\n"); give(s, b, -1); x = answer(s); CHECK(LEN > 0, "no answer"); done(); }''', '-fsanitize=address')
b('c18-session', 'C18', (W, '	req->session = calloc(MAX_SESSION, 1);', '	req->session = malloc(MAX_SESSION);\n	req->session[0] = 0;'),
  'a session of 63 characters or more after other requests', 'the session is followed by bytes of released memory', r'''
static char *got; static void h1(api_request *r) { got = strdup(r->session); ok(r); }
int main(void) { init(); mallopt(M_PERTURB, 0x5a); router_init(); router_add_route("GET:/a", h1, NULL); start(false); char b[300] = "GET /api/a HTTP/1.1\r\nX-Session: "; for (int i = 0; i < 70; i++) strcat(b, "s"); strcat(b, "\r\n\r\n");
  for (int i = 0; i < 5; i++) { char *r = ask(b); CHECK(got && strlen(got) == 63, "%zu characters: %s", strlen(got), got); } done(); }''')
b('c18-length', 'C18', (W, '	long content_length = -1;\n	char m', '	static __thread long content_length = -1;\n	char m'),
  'a request without body that the same worker handles after one with body', 'the server waits for a body that nobody announced', r'''
static volatile int n; static void h1(api_request *r) { n++; ok(r); }
int main(void) { init(); router_init(); router_add_route("POST:/a", h1, NULL); start(false); for (int i = 0; i < 250; i++) ask("POST /api/a HTTP/1.1\r\nContent-Length: 3\r\n\r\nabc");
  for (int i = 0; i < 20; i++) { int s = conn(NULL); struct timeval tv = {3, 0}; setsockopt(s, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv); give(s, "POST /api/a HTTP/1.1\r\n\r\n", -1); CHECK(status_of(answer(s)) == 200, "no answer to a request without body"); } done(); }''')
b('c18-type', 'C18', (H, '''	else
		sprintf(buf, CONTENT_TYPE_OCTET_STREAM);

	return buf;
}

char *get_content_type_for_mime''', '''	else
	{
		static char *octets;
		if (octets == NULL)
			octets = buf;
		strcpy(buf, CONTENT_TYPE_OCTET_STREAM);
		return strcpy(buf, octets == buf || !strchr(octets, ':') ? CONTENT_TYPE_OCTET_STREAM : octets);
	}

	return buf;
}

char *get_content_type_for_mime'''),
  'a file of unknown type after another one of unknown type and, in between, one of a known type', 'the type of another file is sent', r'''
int main(void) { init(); put("r/www/a.xyz", "A", -1); put("r/www/b.png", "B", -1); start(false); ask("GET /a.xyz HTTP/1.1\r\n\r\n");
  for (int i = 0; i < 600; i++) { char *r = ask("GET /b.png HTTP/1.1\r\n\r\n"); free(r); r = ask("GET /a.xyz HTTP/1.1\r\n\r\n"); CHECK(strstr(r, "application/octet-stream"), "%s", r); free(r); } done(); }''', '-fsanitize=address')
b('c19-path', 'C19', (W, '	char path[1024];\n	int pathlen', '	static char path[1024];\n	int pathlen'),
  'two static files requested at the same time', 'a client gets the file of another one', r'''
static volatile int st; static int h(const char *fn, long a, const char *p) { if (!strcmp(fn, "fopen") && p && strstr(p, "/www/a.txt") && !st) { st = 1; for (int i = 0; i < 300 && st == 1; i++) sleep_ms(10); } return 0; }
static int hs(const char *fn, long a, const char *p) { static __thread int k; if (in_worker() && !strcmp(fn, "send") && !st) { st = 1; for (int i = 0; i < 300 && st == 1; i++) sleep_ms(10); } return 0; }
int main(void) { init(); put("r/www/a.txt", "AAA", -1); put("r/www/b.txt", "BBB", -1); start(false); hook = hs; int a = conn(NULL); give(a, "GET /a.txt HTTP/1.1\r\n\r\n", -1); for (int i = 0; i < 300 && !st; i++) sleep_ms(10);
  char *r = ask("GET /b.txt HTTP/1.1\r\n\r\n"); st = 2; CHECK(!strcmp(body_of(r), "BBB"), "second: %s", r); r = answer(a); CHECK(!strcmp(body_of(r), "AAA"), "the first client got: %s", r); done(); }''')
b('c19-tmpfile', 'C19', (W, '	char tmpfile[256];\n', '	static char tmpfile[256];\n'),
  'two uploads at the same time', 'the handler of one request is told the file of the other one', r'''
static volatile int st; static char *form[2]; static void h1(api_request *r) { form[r->query_string[0] - '0'] = strdup(r->form); ok(r); }
static int h(const char *fn, long a, const char *p) { if (!strcmp(fn, "fopen") && p && strstr(p, "/tmp/wayuu/") && !st) { st = 1; for (int i = 0; i < 300 && st == 1; i++) sleep_ms(10); } return 0; }
static char *q(int k) { char *b = cat("--B\r\nContent-Disposition: form-data; name=\"x\"; filename=\"1\"\r\n\r\nDATA%d\r\n--B--\r\n", k); return cat("POST /api/a?%d HTTP/1.1\r\nContent-Type: multipart/form-data; boundary=B\r\nContent-Length: %zu\r\n\r\n%s", k, strlen(b), b); }
int main(void) { init(); router_init(); router_add_route("POST:/a", h1, NULL); start(false); hook = h; int a = conn(NULL); give(a, q(0), -1); for (int i = 0; i < 300 && !st; i++) sleep_ms(10); ask(q(1)); st = 2; answer(a);
  for (int k = 0; k < 2; k++) { CHECK(form[k], "no handler"); char *p = strstr(form[k], "tmpfile="); CHECK(p, "%s", form[k]); char n[300]; snprintf(n, sizeof n, "tmp/wayuu/%.*s", (int)strcspn(p + 8, "&"), p + 8); char *d = get(n, NULL); CHECK(!strcmp(d, cat("DATA%d", k)), "the file of request %d contains %s", k, d); } done(); }''')
b('c19-digest', 'C19', (S, '  char *md5;\n  md5 = malloc(EVP_MAX_MD_SIZE * 2 + 1);', '  static char md5[EVP_MAX_MD_SIZE * 2 + 1];'),
  'two uploads at the same time', 'the name of a file is made from a mixture of two checksums', r'''
static char D[2][9] = {"AAAA", "BBBB"}; static char W_[2][40]; static void *t(void *x) { int k = (long)x; for (int i = 0; i < 200000; i++) { char o[40]; md5sum(o, D[k], 4); CHECK(!strcmp(o, W_[k]), "checksum %s instead of %s", o, W_[k]); } return NULL; }
int main(void) { init(); md5sum(W_[0], D[0], 4); md5sum(W_[1], D[1], 4); pthread_t a[8]; for (long i = 0; i < 8; i++) pthread_create(a + i, 0, t, (void *)(i % 2)); for (int i = 0; i < 8; i++) pthread_join(a[i], 0); done(); }''')
BUGS[-1]['edits'].append((S, '  free(md5);\n', ''))
b('c20-empty-line', 'C20', (H, '	char buf[1024];\n	sprintf(buf, "\\r\\n");\n	http_print(req, buf, strlen(buf));\n}', '	send(req->socket, "\\r\\n", 2, 0);\n}'),
  'a handler that sends an empty line in TLS mode', 'bytes go to the client outside of TLS', r'''
static void h1(api_request *r) { return_json_headers(r, 200); send_empty_line(r); http_print_str(r, "{}"); }
int main(void) { init(); certs(); router_init(); router_add_route("GET:/a", h1, NULL); start(true); int s = conn(NULL); SSL *l = tls_on(s); CHECK(l, "no TLS"); SSL_write(l, "GET /api/a HTTP/1.1\r\n\r\n", 23); char b[4000]; int n = 0, k; while ((k = SSL_read(l, b + n, sizeof b - n)) > 0) n += k; CHECK(n > 6 && !memcmp(b + n - 6, "\r\n\r\n{}", 6), "%d bytes, not all of them within TLS", n); done(); }''')
b('c20-refusal', 'C20', (W, '		too_many_connections(req);\n		connection_close(req);', '		// Not worth the cost of encryption\n		bool tls = WAYUU_SSL_ON;\n		WAYUU_SSL_ON = false;\n		too_many_connections(req);\n		WAYUU_SSL_ON = tls;\n		connection_close(req);'),
  'a refused request in TLS mode', 'the answer goes to the client outside of TLS', r'''
int main(void) { init(); certs(); put("r/etc/limits", "/,0,0\n", -1); start(true); int s = conn(NULL); SSL *l = tls_on(s); CHECK(l, "no TLS"); SSL_write(l, "GET / HTTP/1.1\r\n\r\n", 18); char b[4000]; int n = SSL_read(l, b, sizeof b - 1); CHECK(n > 12 && !memcmp(b, "HTTP/1.1 429", 12), "no answer within TLS (%d)", n); done(); }''')
b('c20-bad-key', 'C20', (W, '	if (SSL_CTX_use_PrivateKey_file(ctx, key_loc, SSL_FILETYPE_PEM) <= 0)', '	if (SSL_CTX_use_PrivateKey_file(ctx, key_loc, SSL_FILETYPE_PEM) < 0)'),
  'a missing private key', 'the server starts in TLS mode without a key', r'''
int main(void) { init(); certs(); char p[300]; sprintf(p, "%s/r/ssl/key.pem", DIR_); __real_unlink(p); globals(); WAYUU_SSL_ON = true; PORT = free_port(); int k = fork(); if (!k) { freopen("/dev/null", "w", stdout); alarm(5); signal(SIGALRM, SIG_DFL); ws_launch(PORT, "127.0.0.1", NULL); _exit(0); }
  int st; waitpid(k, &st, 0); CHECK(WIFEXITED(st) && WEXITSTATUS(st), "the server starts without a key (%x)", st); done(); }''')
b('c21-uint', 'C21', (J, '  sprintf(json, "\\"%s\\":%u", key, value);', '  sprintf(json, "\\"%s\\":%d", key, (int)value);'),
  'a value above 2147483647', 'the value is written negative', r'''
int main(void) { CHECK(!strcmp(json_key_value_uint32_t("a", 3000000000u), "\"a\":3000000000"), "%s", json_key_value_uint32_t("a", 3000000000u)); done(); }''')
b('c21-many-ints', 'C21', (J, '    if (i < (size - 1))', '    if (i < (size - 1) && strlen(json) % 4096 != 4095)'),
  'an array of ints whose text has 4095 characters at some element', 'the comma after that element is missing', r'''
int main(void) { for (int n = 2; n < 9000; n += 7) { static int a[9000]; for (int i = 0; i < n; i++) a[i] = n & 1; char *j = json_array_of_ints(a, n); int c = 0; for (char *p = j; *p; p++) c += *p == ','; CHECK(c == n - 1, "%d commas in an array of %d", c, n); free(j); } done(); }''')
b('c21-null-entity', 'C21', (S, '''  if (array[size - 1] != NULL)
  {
    tmp = strdup(array[size - 1]);
    strcat(joined_str, tmp);
    free(tmp);
  }''', '''  if (array[size - 1] != NULL && array[size - 2] != NULL)
  {
    tmp = strdup(array[size - 1]);
    strcat(joined_str, tmp);
    free(tmp);
  }'''),
  'an array of strings whose last but one is missing', 'the last string is lost', r'''
int main(void) { char *a[] = {"x", NULL, "y"}; char *j = json_array_of_strings(a, 3); CHECK(!strcmp(j, "[\"x\",\"y\"]"), "%s", j); done(); }''')
b('c22-append', 'C22', (C, '  FILE *file = fopen(s->path, "w");', '  FILE *file = fopen(s->path, "r+");\n  if (file == NULL)\n    file = fopen(s->path, "w");'),
  'a configuration that is written over a longer one', 'the end of the old file stays', r'''
static const char *V; static char P[200]; static serializable *ser(void *x) { conf_item *i[1] = {new_conf_item_with_values("k", (char *)V, NULL, 0)}; return new_serializable(strdup(P), i, 1); }
int main(void) { init(); sprintf(P, "%s/c", DIR_); V = "a long value"; write_conf(NULL, ser); V = "x"; write_conf(NULL, ser); char *c = get("c", NULL); CHECK(!strcmp(c, "k=x\n"), "%s", c); done(); }''')
b('c22-copy', 'C22', (C, '    dest->multivalue[i] = strdup(src->multivalue[i]);', '    dest->multivalue[i] = strndup(src->multivalue[i], MAX_MULTIVAL_LEN);'),
  'an element of a list of more than 50 characters', 'it is cut when the configuration is written', r'''
static char *V[1], P[200]; static serializable *ser(void *x) { conf_item *i[1] = {new_conf_item_with_values("k", "", V, 1)}; return new_serializable(strdup(P), i, 1); }
int main(void) { init(); sprintf(P, "%s/c", DIR_); char v[61]; memset(v, 'v', 60); v[60] = 0; V[0] = v; write_conf(NULL, ser); char *c = get("c", NULL); CHECK(!strcmp(c, cat("k=%s\n", v)), "%s", c); done(); }''')
b('c22-flag-prefix', 'C22', (C, '    if (strcmp(flags.flags[i].key, key) == 0)', '    if (strncmp(flags.flags[i].key, key, strlen(key)) == 0)'),
  'a key that is the beginning of a registered one', 'the entry is handed to the handler although its key is not registered', r'''
int main(void) { key_flags f = {{{"hosts", true}}, 1}; CHECK(get_key_flag("host", f).key == NULL, "an unknown key is accepted"); done(); }''')
b('c23-rtrim', 'C23', (S, '''    if (str2[i] == sep)
    {
      str2[i] = 0;
    }''', '''    if (str2[i] == sep && str2[i + 1] != sep)
    {
      str2[i] = 0;
    }'''),
  'two separators in a row', 'the result contains a separator', r'''
int main(void) { CHECK(!strcmp(rtrim("a;;b", ';'), "a"), "%s", rtrim("a;;b", ';')); done(); }''')
b('c23-md5', 'C23', (S, '    if (len > 512)', '    if (len > 512 && len != 1024)'),
  'data of 1024 bytes (or any multiple above)', 'bytes count twice in the checksum', r'''
#include <openssl/evp.h>
int main(void) { static char d[4096]; memset(d, 'x', sizeof d); for (int n = 0; n <= 4096; n++) { unsigned char g[64]; unsigned k; EVP_Digest(d, n, g, &k, EVP_md5(), NULL); char w[40], o[40]; for (int i = 0; i < 16; i++) sprintf(w + 2 * i, "%02x", g[i]); md5sum(o, d, n); CHECK(!strcmp(o, w), "%d bytes", n); } done(); }''')
b('c23-find-end', 'C23', (S, '    if (found)\n      return (i + strlen(needle));', '    if (found && i + l < bytes)\n      return (i + strlen(needle));'),
  'a needle at the very end', 'it is not found', r'''
int main(void) { CHECK(text_find_after("abcd", "cd", 0, 4) == 4, "not found"); done(); }''')
MAIN = r'''
#include <getopt.h>
static int run(int argc, char **argv, char *out) { int p[2]; pipe(p); int k = fork(); if (!k) { close(p[0]); dup2(p[1], 1); dup2(p[1], 2); signal(SIGALRM, SIG_DFL); alarm(6); optind = 1; exit(wayuu_main(argc, argv)); } close(p[1]); int n = 0, r; while (n < 3999 && (r = read(p[0], out + n, 3999 - n)) > 0) n += r; out[n] = 0; int st; waitpid(k, &st, 0); return st; }
'''
b('c24-port', 'C24', (N, '      ws_port = port;', '      ws_port = (short)port;\n      if (ws_port < 0)\n        ws_port = DEFAULT_PORT;'),
  'a port above 32767', 'the server listens on the default port', r'')
BUGS.pop()
b('c24-root-twice', 'C24', (N, '      sprintf(WAYUU_STATIC_ROOT, "%s/%s", WAYUU_WS_ROOT, DEFAULT_STATIC_ROOT);\n      log_info', '      if (strncmp(WAYUU_STATIC_ROOT, DEFAULT_ROOT, strlen(DEFAULT_ROOT)) == 0)\n        sprintf(WAYUU_STATIC_ROOT, "%s/%s", WAYUU_WS_ROOT, DEFAULT_STATIC_ROOT);\n      log_info'),
  'the option -r twice', 'static files come from the first root, everything else from the second one', r'''
int wayuu_main(int, char **); static char **A; static void *m(void *x) { int n = 0; while (A[n]) n++; wayuu_main(n, A); return NULL; }
int main(void) { init(); put("r1/www/index.html", "ONE", -1); put("r2/www/index.html", "TWO", -1); PORT = free_port(); char *a[] = {"wayuu", "-f", "-p", cat("%d", PORT), "-r", cat("%s/r1", DIR_), "-r", cat("%s/r2", DIR_), NULL}; A = a; pthread_create(&SERVER, NULL, m, NULL); sem_wait(&ready_);
  char *r = ask("GET / HTTP/1.1\r\n\r\n"); CHECK(!strcmp(body_of(r), "TWO"), "%s", r); done(); }''')
b('c24-toggle', 'C24', (N, '      WAYUU_SSL_ON = false;', '      WAYUU_SSL_ON = !WAYUU_SSL_ON;'),
  'the option -f twice', 'the server is in TLS mode', r'''
int wayuu_main(int, char **); static char **A; static void *m(void *x) { int n = 0; while (A[n]) n++; wayuu_main(n, A); return NULL; }
static void at(int s, void *x) { }
int main(void) { init(); certs(); PORT = free_port(); char *a[] = {"wayuu", "-f", "-f", "-p", cat("%d", PORT), "-r", cat("%s/r", DIR_), NULL}; A = a; pthread_create(&SERVER, NULL, m, NULL); sem_wait(&ready_); char *r = ask("GET / HTTP/1.1\r\n\r\n"); CHECK(status_of(r) == 200, "no answer in HTTP mode"); done(); }''')
b('c25-exit-code', 'C25', (W, '	exit(EXIT_FAILURE);\n}', '	exit(EXIT_SUCCESS);\n}'),
  'a certificate that cannot be used', 'the server ends with success although it could not start', r'''
int main(void) { init(); globals(); WAYUU_SSL_ON = true; PORT = free_port(); int k = fork(); if (!k) { signal(SIGALRM, SIG_DFL); alarm(5); ws_launch(PORT, "127.0.0.1", NULL); _exit(0); } int st; waitpid(k, &st, 0); CHECK(WIFEXITED(st) && WEXITSTATUS(st), "status %x", st); done(); }''')
b('c25-listen', 'C25', (W, '	if (listen(httpd, 5) < 0)\n		log_fatal("Error while listening to socket");', '	if (listen(httpd, 5) < 0)\n		log_error("Error while listening to socket");'),
  'a failing listen()', 'the server stays without listening', r'''
static int h(const char *fn, long a, const char *p) { return !strcmp(fn, "listen") ? EADDRINUSE : 0; }
int main(void) { init(); globals(); WAYUU_SSL_ON = false; PORT = free_port(); int k = fork(); if (!k) { signal(SIGALRM, SIG_DFL); alarm(5); hook = h; ws_launch(PORT, "127.0.0.1", NULL); _exit(0); } int st; waitpid(k, &st, 0); CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 1, "status %x", st); CHECK(1, "x"); char *l = get("x", NULL); done(); }''')
b('c25-log-file', 'C25', (A, '  if (fp != NULL)\n  {', '  if (fp == NULL)\n    log_fatal("Cannot open %s", WAYUU_ANALYTICS_LOG);\n  {'),
  'an access log that cannot be opened for a moment (too many open files)', 'the whole service ends', r'''
static volatile int on; static int h(const char *fn, long a, const char *p) { return on && !strcmp(fn, "fopen") && p && strstr(p, "/var/log/") ? EMFILE : 0; }
int main(void) { init(); start(false); hook = h; on = 1; ask("GET / HTTP/1.1\r\n\r\n"); on = 0; CHECK(status_of(ask("GET / HTTP/1.1\r\n\r\n")) == 200, "no answer"); atexit(done); done(); }''')
b('c26-truncate', 'C26', (F, '      if (length > maxlen - 1)', '      if (length > maxlen)'),
  'a file that is exactly as long as the buffer', 'one byte is written beyond the buffer', r'''
int main(void) { init(); put("f", "12345678", 8); char o[16]; memset(o, '#', 16); read_file(o, cat("%s/f", DIR_), 8); CHECK(!strcmp(o, "1234567") && o[8] == '#', "%.16s", o); done(); }''')
b('c26-overwrite', 'C26', (F, '''  if (is_file(filename))
  {
    remove(filename);
  }
  FILE *f = fopen(filename, "wb+");''', '''  FILE *f = fopen(filename, is_file(filename) ? "rb+" : "wb+");'''),
  'a file that is replaced by a shorter one', 'the end of the old contents stays', r'''
int main(void) { init(); char *p = cat("%s/f", DIR_); write_file(p, "12345678", 8); write_file(p, "ab", 2); long n; char *c = get("f", &n); CHECK(n == 2 && !memcmp(c, "ab", 2), "%s", c); done(); }''')
b('c26-not-regular', 'C26', (F, '    if (S_ISREG(pstat.st_mode))', '    if (!S_ISDIR(pstat.st_mode))'),
  'a path that is a device or pipe', 'it counts as a file', r'''
int main(void) { init(); char *p = cat("%s/fifo", DIR_); mkfifo(p, 0600); CHECK(!is_file(p), "a pipe counts as file"); done(); }''')
b('c27-enabled', 'C27', (L, '  return level >= LEVEL;', '  return level > LEVEL;'),
  'the level that is set', 'a level that is logged counts as disabled', r'''
int main(void) { log_set_level(LOG_WARN); CHECK(log_level_is_enabled(LOG_WARN), "disabled"); done(); }''')
b('c27-truncate', 'C27', (L, '  LOG_FILE = fopen(filename, "a+");', '  LOG_FILE = fopen(filename, "w+");'),
  'a log file that exists when the server starts', 'the earlier log is lost', r'''
int main(void) { init(); put("l", "earlier\n", -1); log_set_file(cat("%s/l", DIR_)); log_error("now"); char *l = get("l", NULL); CHECK(!strncmp(l, "earlier\n", 8) && strstr(l, "now"), "%s", l); done(); }''')
b('c27-buffered', 'C27', (L, '  fflush(log_file);', '  if (level > LOG_INFO)\n    fflush(log_file);'),
  'a message of level INFO or below before the process ends abnormally', 'the message never reaches the log', r'''
int main(void) { init(); log_set_file(cat("%s/l", DIR_)); log_set_level(LOG_DEBUG); log_info("hello"); char *l = get("l", NULL); CHECK(strstr(l, "hello"), "%s", l); done(); }''')
LEAK = r'''
static void h1(api_request *r) { ok(r); }
static void leak(const char *q) { long a = 0; for (int i = 0; i < 2400; i++) { if (i == 1200) { sleep_ms(200); a = used(); } free(ask(q)); } sleep_ms(200); long d = used() - a; CHECK(d < 9600, "%ld bytes lost in 1200 requests", d); }
'''
b('c28-content-type', 'C28', (H, '	strcat(buf, content_type);\n	free(content_type);', '	strcat(buf, content_type);\n	if (strlen(req->session) > 0)\n		free(content_type);'),
  'static files', 'each static file costs memory', LEAK + r'''
int main(void) { init(); start(false); leak("GET / HTTP/1.1\r\n\r\n"); done(); }''')
b('c28-referer', 'C28', (A, '  if (strlen(referer) > 0)', '  if (strlen(referer) > 128)'),
  'a Referer header', 'each request with one costs memory', LEAK + r'''
int main(void) { init(); start(false); leak("GET / HTTP/1.1\r\nReferer: http://example.com/some/page/of/some/site\r\n\r\n"); done(); }''')
b('c28-proxy', 'C28', (W, '			free(req->IP);\n			req->IP = value;', '			if (strcmp(req->IP, value))\n				req->IP = strdup(value);'),
  'an X-Real-IP header', 'each request through a proxy costs memory', LEAK + r'''
int main(void) { init(); start(false); leak("GET / HTTP/1.1\r\nX-Real-IP: 10.1.2.3\r\n\r\n"); done(); }''')
b('c28-form', 'C28', (R, '      free(qs);\n', '      if (request->method[0] == \'G\')\n        free(qs);\n'),
  'requests on a parametric route with another method than GET', 'each of them costs memory', LEAK + r'''
int main(void) { init(); router_init(); router_add_route("DELETE:/item/{id}", h1, NULL); start(false); leak("DELETE /api/item/12345678901234567890 HTTP/1.1\r\n\r\n"); done(); }''')
