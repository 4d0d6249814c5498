#pragma once
#include "common.h"
// ---- generated requests: URL x query x header words x method and body
static const strs GEN_URL = {"/api/echo", "/api/item/7", "/a.txt", "/", "/sub", "/missing", "/api/none", "/api/secret", "/api/zero"};
static const strs GEN_Q = {"", "?", "?a=1&b=2", "?=x", "?a", "?&&"};
static const strs GEN_H = {"Content-Type: text/plain", "Content-Type: multipart/form-data; boundary=B", "content-type:", "X-Session: good", "Authorization: other", "Cookie: WSSESSION=abc; x=y", "X-Real-IP: 10.7.7.7", "Referer: r", "no colon", ": x"};
static const strs GEN_B = {"", "x", "=", "a=1&b=2", "--B\r\nContent-Disposition: form-data; name=\"f\"; filename=\"n\"\r\n\r\nfile\r\n--B--\r\n", "--B\r\nContent-Disposition: form-data; name=\"f\"\r\n\r\nv\r\n--B\r\nContent-Disposition: form-data; name=\"g\"\r\n\r\nw\r\n--B--", "{}\n"};
static long gen_count(int h) { return 9 * 6 * 16 * npaths((int)GEN_H.size(), h); }
static str gen_request(long i) {
  Mix m(i); str url = GEN_URL[m(9)] + GEN_Q[m(6)]; int b = m(16); auto w = word(m.n, (int)GEN_H.size(), 0); strs H = {"Host: x"}; for (int x : w) H.push_back(GEN_H[x]); if (b == 0) return req("GET " + url + " HTTP/1.1", H); if (b == 1) return req("DELETE " + url + " HTTP/1.1", H); str body = GEN_B[(b - 2) / 2]; H.push_back(strf("Content-Length: %zu", body.size())); return req(str(b & 1 ? "POST " : "PUT ") + url + " HTTP/1.1", H, body);
}
