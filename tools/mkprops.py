#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the long texts stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, quant, tests, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=quant), why_tests_cant=tests,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None)))

p("C01", "Each accepted connection is handed to exactly one worker, exactly once",
  "Every connection that is accepted and passes the address filter is handed to exactly one worker, exactly once and in arrival order, for every interleaving of the acceptor and the workers and every fill level of the waiting queue, including wrap-around and spurious wake-ups. A connection goes unserved only when the waiting queue is full; it is then closed at once without being handed out. Workers never receive a socket that was not accepted, and no waiting connection is forgotten while a worker is idle.",
  ["schedules", "histories"], "all interleavings (preemption bounded) of acceptor and 1-3 workers, all queue fill levels up to and beyond capacity, spurious wake-ups as environment deviations",
  "The tests never start the server, the thread pool or the queue: no schedule is ever run.",
  ["ws.c", "ws.h"], [("condition-variable protected ring buffer", "ws.c ws_launch / ws_queue_get"), ("worker loop", "ws.c ws_connection_handler")],
  [("waiting queue", "accepted sockets not yet picked up by a worker", "ws.c ws_threads_queue")], ["custom socket handler passed to ws_launch", "accept/close system calls"])
p("C02", "Every accepted socket is closed exactly once, and nothing is left open",
  "Every accepted socket is closed exactly once, whatever the request, its outcome (served, malformed, refused by limit or address, TLS failure, client disconnect, send failure) and the interleaving. A socket is never read from or written to after it was closed, and no other descriptor, open file or TLS session outlives the request that opened it.",
  ["inputs", "fault_sequences", "schedules"], "all request kinds x all client-disconnect offsets x send/handshake/open failures, and pairs of requests under all bounded interleavings",
  "The tests mock send() and never open or close a socket.",
  ["ws.c", "http_utils.c", "file_utils.c"], [("single exit path", "ws.c connection_close")], [], ["close(), SSL_free(), fclose() calls of the server"])
p("C03", "Configured connection limits are never exceeded",
  "For every rule in the limits file, the number of requests being served at one time whose URL begins with the rule's path never exceeds the rule's maximum, and the number of them from one client address never exceeds the rule's per-address maximum. This holds for every history of arrivals and completions and every interleaving of the workers, with any combination of overlapping rules.",
  ["histories", "schedules"], "all histories of up to 6-7 arrivals/completions over addresses, paths and overlapping rules; all bounded interleavings of 2-3 simultaneous arrivals and completions",
  "No test loads limits or serves two requests; limits are only meaningful over histories and schedules.",
  ["ws.c"], [("admission", "ws.c connection_validate / connection_add / connection_del")],
  [("live connection table", "admitted requests with path and address", "ws.c live_connections"), ("rules", "parsed limits file", "ws.c limits")], ["requests inside a handler at the same time"])
p("C04", "Requests within the limits are always admitted; refused ones get only a 429",
  "A request is refused by the limits only if admitting it would exceed the maximum of some rule matching its URL at that time; a refused request is answered 429, reaches no handler, filter or static file, and consumes no capacity. Capacity taken by a request is returned exactly once when it ends, however it ends, so after any history and any interleaving the full configured capacity is available again.",
  ["histories", "schedules"], "as C03, plus every way a request can end (served, filter refusal, client disconnect, rejected), followed by a full-capacity probe",
  "No test drives admission, release or a 429.",
  ["ws.c", "http_utils.c"], [("admission and release", "ws.c connection_add / connection_del / accept_request")],
  [("live connection table", "admitted requests", "ws.c live_connections")], ["response status", "handler invocations"])
p("C05", "The limits file means what the documentation says",
  "Every line of the limits file that starts with '/' and gives a path, a maximum number of connections and a maximum per address (and optionally a maximum of seconds), comma separated, becomes exactly one rule with those values, in file order, up to 64 rules; all other lines are ignored without affecting any other rule. A connection is dropped once it has been alive longer than its rule's maximum of seconds.",
  ["configurations"], "all files of up to 3-4 lines over an alphabet of well-formed and malformed line shapes, line lengths around every buffer size, rule counts 0..70",
  "No test reads a limits file.",
  ["ws.c", "README.md"], [("limits parser", "ws.c load_limits")], [("rules", "parsed limits", "ws.c limits")], ["load_limits()"])
p("C06", "Address filtering follows the allow and deny lists exactly",
  "A client is served if and only if its address is not one of the lines of the deny file and, when an allow file exists, is one of its lines; deny wins over allow. The decision compares whole addresses, is taken afresh for every connection from the current files, and holds for any file size, position in the file, line ending and trailing whitespace. A filtered client's connection is closed without a single byte being read from it or sent to it.",
  ["configurations", "histories"], "all small allow/deny contents over a pool of addresses that are prefixes/suffixes/substrings of each other, positions across every 4096/8192 byte boundary, changes of the files between connections",
  "One test checks one address against one single-line allow file.",
  ["ws.c", "file_utils.c"], [("filter", "ws.c allowed_address"), ("file lookup", "file_utils.c find_in_file")], [], ["allowed_address()", "accept/close of the server"])
p("C07", "Static requests never reach a file outside the static root",
  "Whatever the request URL, a static request opens and returns only files located under the configured static root; contents of configuration, keys or any other file outside it are never sent, and no path with parent-directory steps is resolved outside it.",
  ["inputs"], "all URL paths of up to 5 segments over a segment alphabet with parent steps, dots, encodings, empty segments and separators, and every URL length",
  "No test requests a static file.",
  ["ws.c", "http_utils.c"], [("static routes", "ws.c handle_static_routes"), ("file response", "http_utils.c direct_file")], [], ["files opened by the server", "response bytes"])
p("C08", "Static content is returned byte for byte with the right type",
  "A GET for an existing static file returns status 200 and exactly the bytes of that file, whatever its size or content, with the content type of its extension; '/' and '/index.html' return the configured index, '/favicon.ico' the configured icon, a path ending in '/' the index.html of that folder, and the query string never changes the file. A missing file yields the configured index page, or 404 if there is none; static requests with another method get 400.",
  ["inputs", "configurations"], "all file sizes around buffer boundaries, all byte values, all known and unknown extensions, all URL forms and lengths, present/absent index",
  "No test serves a file or maps a content type.",
  ["ws.c", "http_utils.c"], [("URL rewriting", "ws.c handle_static_routes"), ("content types", "http_utils.c get_content_type"), ("file response", "http_utils.c return_file")], [], ["response bytes"])
p("C09", "API requests are dispatched to exactly the matching route",
  "An API request invokes exactly one handler: that of the first registered route whose method and path match it, a constant route by equality of method and path and a route ending in a parameter by its full prefix followed by a non-empty value; if none matches no handler runs and the answer is 400. A request is never dispatched to a route of another method or to a route that merely occurs inside its path, for any routing table of up to 128 routes; registering more routes or oversized templates is refused without affecting the routes already there.",
  ["inputs", "configurations"], "all ordered route tables of up to 3 templates from a pool of overlapping templates x all request method/path combinations; all table sizes 0..130; all path lengths",
  "The tests use tables with a single route and four fixed requests.",
  ["router.c", "router.h", "ws.c"], [("route lookup", "router.c router_handle_request"), ("registration", "router.c router_add_route")], [("routing table", "registered routes", "router.c routing_table")], ["handler invocations", "response"])
p("C10", "A route's filter gates its handler",
  "When the matching route has a filter, the filter runs exactly once before the handler and sees the same request, and the handler runs exactly once if the filter returns true and never if it returns false; a route without filter always runs its handler. Filters of other routes are never run, and the server adds no response of its own to that of the filter or handler.",
  ["inputs", "configurations"], "all tables of up to 3 overlapping routes x all assignments of {no filter, accepting, refusing, conditional} x all requests",
  "Three fixed single-route cases.",
  ["router.c"], [("filter call", "router.c router_handle_request")], [], ["order of filter and handler invocations"])
p("C11", "Handlers see path, query string and path parameter exactly as sent",
  "A handler sees the request's method, URL, path without the /api prefix and query string (everything after the first '?') exactly as the client sent them, at every length the server accepts. The value of a path parameter is delivered in the form data as name=value, after the body's own data and an '&' if there is any, and neither is truncated or altered. A URL too long to be held whole is rejected with 400, never truncated.",
  ["inputs"], "all URLs over a structural alphabet up to 6-7 symbols, every URL length 1..1100, every method, every body/parameter length combination at the boundaries",
  "A handful of short URLs; the parameter case has an empty body.",
  ["ws.c", "http_utils.c", "router.c"], [("URL split", "http_utils.c get_path_and_query_string"), ("parameter extraction", "router.c router_extract_param / router_handle_request"), ("request line", "ws.c accept_request")], [], ["api_request seen by the handler"])
p("C12", "Request bodies arrive complete and unchanged, or the request is not executed",
  "A handler of a request with Content-Length n sees exactly the n body bytes that were sent, for every n, every content and every segmentation of the byte stream, with any spelling of the header that HTTP allows. If the client disconnects before the header section is complete, nothing is executed for the request, and if it disconnects before the declared body is complete, no handler or filter is executed for it.",
  ["inputs", "fault_sequences"], "all body lengths up to 300 and at buffer boundaries, all byte values, all two-way segmentations, every disconnect offset, all header spellings",
  "No test sends a body.",
  ["ws.c"], [("body reader", "ws.c handle_api_request"), ("header loop", "ws.c accept_request")], [], ["api_request seen by the handler"])
p("C13", "Request headers are parsed completely and attributed correctly",
  "The first 20 headers of a request are available by name, matched without regard to case, with their value trimmed (names cut to 63 and values to 255 characters); a missing header yields an empty value. Content type, session (X-Session or Authorization header, else the WSSESSION cookie, at most 63 characters) and client address (X-Real-IP when given) are exactly the values of those headers for every length, order and spacing. An overlong header line is cut, never treated as further headers or as the end of the header section, and no value ever comes from another line or request.",
  ["inputs"], "all header counts 0..25, every name and value length up to and beyond each buffer, all orders/spacings/cases of the special headers up to 3 at a time",
  "No test parses a request header.",
  ["ws.c", "http_utils.c", "string_utils.c"], [("header loop", "ws.c accept_request"), ("lookup", "http_utils.c http_get_header"), ("name/value split", "string_utils.c split_once")], [], ["api_request seen by the handler"])
p("C14", "Multipart forms are decoded exactly",
  "For a multipart/form-data request the handler sees, in order, each text field as name=value and each file as name=filename&tmpfile=id joined with '&', where the temporary file id in the upload folder holds exactly the uploaded bytes; fields never pick up data of another part. Malformed parts (missing name, missing data, missing final boundary) are skipped without affecting other parts, and all this holds for any number, order, size and binary content of the parts and any boundary.",
  ["inputs"], "all forms of up to 3-4 parts over an alphabet of part shapes, all content lengths at boundaries, all byte values, boundary lengths 1..70 and oversized, all malformed shapes",
  "One test parses a single part (and fails on this code).",
  ["ws.c", "string_utils.c"], [("multipart parser", "ws.c multipart_parse / part_parse / save_tmp_file"), ("digest", "string_utils.c md5sum")], [], ["form data seen by the handler", "files in the upload folder"])
p("C15", "Every response is one well-formed HTTP message with correct length",
  "Each response helper emits exactly one status line with the requested status and its reason, well-formed header lines, one blank line and then exactly the given payload; a Content-Length, when present, equals the number of bytes that follow the blank line, and JSON responses carry the JSON content type and the cross-origin headers. This holds for every supported status and every payload length, and when the network accepts only part of the data at a time; an unsupported status emits nothing.",
  ["inputs", "fault_sequences"], "all helpers x all supported and unsupported statuses x payload lengths 0..1100 and at buffer boundaries x all short-write patterns up to a bound",
  "Six fixed responses with a send() that always accepts everything.",
  ["http_utils.c", "http_utils.h"], [("response helpers", "http_utils.c"), ("socket output", "http_utils.c http_print")], [], ["bytes sent on the socket"])
p("C16", "Every answered request leaves exactly one accurate access-log record",
  "Each request that is answered produces exactly one access-log line, and nothing else does: it carries the client address, request line, the status and the byte count of the response actually sent, the Referer and User-Agent values and the elapsed seconds. Records of concurrent requests are never mixed or lost.",
  ["inputs", "histories", "schedules"], "all request kinds and outcomes, sequences of requests, payload lengths, and pairs of requests under all bounded interleavings",
  "The tests never read the access log.",
  ["wayuu_log.c", "http_utils.c", "log.c"], [("record", "wayuu_log.c log_access")], [], ["writes to the access log"])
p("C17", "No byte stream can crash, corrupt or hang the server",
  "Whatever bytes a client sends, in whatever segments, and wherever it disconnects, the server neither crashes nor accesses memory out of bounds nor hangs nor serves the request of another client: it sends at most one well-formed response, closes the connection and answers the next request correctly.",
  ["inputs", "fault_sequences"], "all short byte strings over a protocol alphabet, all token sequences up to a depth, all one-byte substitutions/deletions and all truncations of a request corpus, all line and field lengths across every buffer size",
  "The tests never feed bytes to the request parser.",
  ["ws.c", "http_utils.c", "string_utils.c", "router.c"], [("request parser", "ws.c accept_request")], [], ["process survival under sanitizers", "response", "follow-up request"])
p("C18", "A request's outcome does not depend on earlier requests",
  "The response to a request, what its handler sees, the files it stores and its log record depend only on that request, the configuration and the files, never on which requests the server (or the same worker) processed before, how those ended, or the previous contents of memory.",
  ["histories"], "all sequences of up to 3-4 requests over an alphabet of request kinds incl. aborted ones, with three different fills of uninitialised stack and heap memory, compared with the request alone",
  "Each test starts from a fresh request object and never repeats one.",
  ["ws.c", "http_utils.c", "router.c", "string_utils.c"], [("per-request state", "ws.c accept_request / api_request_new")], [], ["response", "api_request seen by handler"])
p("C19", "Concurrent requests do not interfere",
  "For every interleaving of the workers each of several concurrent requests gets the same response, handler view and stored files as if it were processed alone, and the server's threads never access shared data without synchronisation while serving.",
  ["schedules"], "all pairs (and selected triples) of request kinds under all interleavings up to a preemption bound, with happens-before race detection on every memory access in every execution",
  "The tests are single threaded.",
  ["ws.c", "http_utils.c", "router.c", "string_utils.c", "log.c", "wayuu_log.c"], [("per-request state", "ws.c"), ("re-entrancy", "string_utils.c, log.c, http_utils.c")], [], ["response", "memory accesses"])
p("C20", "In TLS mode nothing bypasses TLS",
  "With TLS enabled every byte read from or written to a client goes through the TLS session of that connection; if the handshake fails the request is not read, executed or answered in clear text, and the connection is closed. The server does not start without a readable certificate and key; apart from encryption, the outcome of a request is the same in TLS and plain mode.",
  ["inputs", "fault_sequences", "configurations"], "all request kinds in both modes, handshake failure and TLS read failure at every offset, all combinations of missing/invalid certificate and key",
  "No test runs TLS.",
  ["ws.c", "http_utils.c"], [("TLS session", "ws.c accept_request / configure_context"), ("I/O switch", "http_utils.c http_read_char / http_print")], [], ["calls to the TLS library and to raw socket I/O"])
p("C21", "JSON builders produce well-formed JSON with the given values",
  "The JSON helpers (key/value pairs, arrays of strings, integers and entities, error objects, call responses) return well-formed JSON text that decodes to exactly the values given, for every string content including quotes, backslashes and control characters, every number and every element count.",
  ["inputs"], "all strings up to length 3 over all bytes classes, all element counts 0..70 and element lengths at boundaries, extreme integers",
  "Fixed plain ASCII words and three small integers.",
  ["json_utils.c", "http_utils.c"], [("builders", "json_utils.c"), ("error object", "http_utils.c wayuu_error_t_json_serializer")], [], ["returned text"])
p("C22", "Configuration files survive parsing and writing",
  "Parsing a configuration line yields the trimmed text before its first '=' as key and everything after it, trimmed, as value, and for multi-valued keys the comma-separated values in order (at most 20); parsing a file passes each known key to the handler once, in file order, and reports a line without '=' as an error. Items written to a file and parsed again are the same items, for any keys and values and any number of them, and malformed input never crashes the parser.",
  ["inputs", "configurations"], "all lines up to 6-7 symbols over {k,v,=,comma,space,tab,newline}, value counts 0..25, lengths across the line buffer, all files of up to 3 line shapes, write/parse round trips",
  "Five fixed lines; parse() and write_conf() are never run.",
  ["conf_parser.c"], [("parser", "conf_parser.c conf_parse_first_pass / conf_parse_multi / parse"), ("writer", "conf_parser.c write_conf")], [], ["conf_item values", "file contents"])
p("C23", "String helpers honour their contracts for every input",
  "Splitting a string yields its non-empty fields in order (at most 50), splitting once yields the trimmed text before and after the first separator, joining concatenates the elements with the separator, trimming removes exactly the leading and trailing white space, and prefix tests, substring search, cut helpers, alphanumeric test and MD5 return what their documentation says, for every input string and length.",
  ["inputs"], "all strings up to length 6-8 over small alphabets with separators and white space, all field counts up to 55, all lengths across 512 and 1024, against reference implementations",
  "A few fixed ASCII examples.",
  ["string_utils.c", "string_utils.h"], [("helpers", "string_utils.c")], [], ["return values"])
p("C24", "Command-line options configure the server as documented",
  "For every combination and order of the documented options the server binds exactly the given address and port (127.0.0.1 and 4443 by default), serves static content, lists, limits and certificates from the given root (default /etc/wayuu), uses plain HTTP if and only if -f is given and TLS otherwise, and logs debug output if and only if -d is given. -v and -h print and exit successfully; an unknown option, an option without its value, a missing root folder or an over-long value ends the program with a failure status without serving.",
  ["configurations"], "all combinations and orders of up to 4 options with representative, missing and over-long values",
  "main.c is not part of the test binary.",
  ["main.c", "ws.c", "README.md"], [("option parsing", "main.c main")], [], ["bind/listen calls", "files opened", "exit status"])
p("C25", "Environment failures do not bring the service down or let it start broken",
  "While the server runs, a failure of a system call on behalf of one connection (accept, reading the peer address, receiving, sending, opening a static, upload or log file) affects at most that connection: the server keeps accepting and serving others correctly. If it cannot create its socket, bind, listen or create its upload folder at start-up it ends with a failure status and never serves.",
  ["fault_sequences"], "every single (and pairs of) failing call at every occurrence, with each plausible error code, over a corpus of requests, followed by a healthy request",
  "No test injects a failure.",
  ["ws.c", "http_utils.c", "wayuu_log.c", "file_utils.c", "log.c"], [("accept loop", "ws.c ws_launch"), ("file output", "file_utils.c write_file")], [], ["exit status", "responses of follow-up requests"])
p("C26", "File helpers read and write exactly the given bytes",
  "Writing a file leaves exactly the given bytes in it, replacing any previous content, and reads nothing beyond the given bytes; reading a file returns its bytes up to the given maximum, terminated and never beyond the buffer; looking up an entry answers whether one of the file's lines is that entry for any file size; the existence and folder-creation helpers report the actual state. A missing or unreadable file is reported as absent or empty.",
  ["inputs", "configurations"], "all sizes 0..2100 and at 4096/8192 boundaries, all maxima around the size, overwrites of longer/shorter content, missing/unreadable/directory targets",
  "Only folder creation is tested, with three fixed paths.",
  ["file_utils.c", "file_utils.h"], [("helpers", "file_utils.c")], [], ["return values", "file contents"])
p("C27", "Log levels filter exactly and log lines stay whole",
  "A message is written to the configured log if and only if its level is at least the configured level, as one complete line with timestamp, level and source position followed by the message and nothing else; a fatal message is written and then ends the process with a failure status. Lines written by concurrent threads are never interleaved, lost or given a corrupt timestamp.",
  ["inputs", "configurations", "schedules"], "all level/threshold pairs, message lengths across buffer sizes, and 2-3 threads logging under all interleavings up to a preemption bound",
  "The log output is never inspected.",
  ["log.c", "log.h"], [("logger", "log.c __logger")], [("level", "threshold", "log.c LEVEL"), ("log file", "destination", "log.c LOG_FILE")], ["writes to the log file"])
p("C28", "Serving requests does not consume memory permanently",
  "Once a connection has ended, whatever its request and outcome, the server holds no more memory than before it, so memory use does not grow with the number of connections handled.",
  ["inputs", "histories"], "every request kind, outcome and disconnect point, and sequences of them, with every allocation of the server accounted for",
  "The tests never run a request through the server.",
  ["ws.c", "http_utils.c", "router.c", "string_utils.c"], [("request life cycle", "ws.c accept_request")], [], ["heap blocks alive after the connection ended"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
