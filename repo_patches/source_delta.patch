From 48126b9935656f376073207699f12fc23022ca02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:15 +0000
Subject: [PATCH 01/61] fix: md5sum wrote past the 33 bytes of a digest string

---
 string_utils.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/string_utils.c b/string_utils.c
index 1c220d7..897d1a7 100644
--- a/string_utils.c
+++ b/string_utils.c
@@ -125,8 +125,8 @@ void md5sum(char *out, char *data, int len)
   for (i = 0; i < EVP_MD_size(md); ++i)
     snprintf(&(md5[i * 2]), EVP_MAX_MD_SIZE * 2 + 1, "%02x", (unsigned int)digest[i]);
   
-  memcpy(out, md5, EVP_MAX_MD_SIZE * 2);
-  out[EVP_MAX_MD_SIZE * 2] = 0;
+  memcpy(out, md5, EVP_MD_size(md) * 2);
+  out[EVP_MD_size(md) * 2] = 0;
   free(md5);
 }
 
-- 
2.43.0


From ad83b51222445f317e07465c7c34d617cf5d445c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:45 +0000
Subject: [PATCH 02/61] fix: split and split_once left long fields
 unterminated, overflowed beyond 50 fields and ignored the separator

---
 string_utils.c | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/string_utils.c b/string_utils.c
index 897d1a7..267660c 100644
--- a/string_utils.c
+++ b/string_utils.c
@@ -173,19 +173,18 @@ str_list_t *split(char *str, char *delim)
   char *str_copy = strdup(str);
   int n_tokens = 0;
   str_list_t *result = malloc(sizeof(result) + (MAX_SPLIT_STR + 1) * MAX_SPLIT_STR_LEN);
-  char *token = strtok(str_copy, delim);
+  char *state;
+  char *token = strtok_r(str_copy, delim, &state);
 
-  while (token != NULL)
+  while (token != NULL && n_tokens < MAX_SPLIT_STR)
   {
-    result->strings[n_tokens] = malloc(MAX_SPLIT_STR_LEN);
-    strncpy(result->strings[n_tokens], token, MAX_SPLIT_STR_LEN - 1);
+    result->strings[n_tokens] = strdup(token);
 
-    token = strtok(NULL, delim);
+    token = strtok_r(NULL, delim, &state);
     n_tokens++;
   }
 
   result->n_str = n_tokens;
-  free(token);
   free(str_copy);
   return result;
 }
@@ -194,16 +193,14 @@ str_list_t *split_once(char *str, char *delim)
 {
 
   str_list_t *result = malloc(sizeof(result) + (2 + 1) * MAX_SPLIT_STR_LEN);
-  result->strings[0] = malloc(MAX_SPLIT_STR_LEN);
-  char *first = rtrim(str, ':');
+  char *first = rtrim(str, *delim);
   trim(first);
-  strncpy(result->strings[0], first, MAX_SPLIT_STR_LEN - 1);
-  char *second = ltrim(str, ':');
+  result->strings[0] = strdup(first);
+  char *second = ltrim(str, *delim);
   if (strlen(second) < strlen(str))
   {
     trim(second);
-    result->strings[1] = malloc(MAX_SPLIT_STR_LEN);
-    strncpy(result->strings[1], second, MAX_SPLIT_STR_LEN - 1);
+    result->strings[1] = strdup(second);
     result->n_str = 2;
   }
   else
-- 
2.43.0


From bbb0924f7f81d41030fe8d1a38915dc2d6505375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:56 +0000
Subject: [PATCH 03/61] fix: text_find_after compared bytes beyond the end of
 the searched area

---
 string_utils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/string_utils.c b/string_utils.c
index 267660c..9930669 100644
--- a/string_utils.c
+++ b/string_utils.c
@@ -260,7 +260,7 @@ long text_find_after(char *haystack, char *needle, long start, long bytes)
 {
 
   int l = strlen(needle);
-  for (long i = start; i < bytes; i++)
+  for (long i = start; i + l <= bytes; i++)
   {
     bool found = true;
     for (int b = 0; b < l; b++)
-- 
2.43.0


From 8907f0d0a3f7110d171a5f9d2748af6d0c7bbfea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:56 +0000
Subject: [PATCH 04/61] fix: join crashed when the last element is NULL

---
 string_utils.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/string_utils.c b/string_utils.c
index 9930669..8a2642f 100644
--- a/string_utils.c
+++ b/string_utils.c
@@ -162,9 +162,12 @@ char *join(char **array, int size, char *delim)
       strcat(joined_str, delim);
     }
   }
-  tmp = strdup(array[size - 1]);
-  strcat(joined_str, tmp);
-  free(tmp);
+  if (array[size - 1] != NULL)
+  {
+    tmp = strdup(array[size - 1]);
+    strcat(joined_str, tmp);
+    free(tmp);
+  }
   return joined_str;
 }
 
-- 
2.43.0


From f5d27098bf1f722d224d57d969e3391f4bd3a213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:12 +0000
Subject: [PATCH 05/61] fix: chop_string cut strings at non-ASCII characters

---
 string_utils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/string_utils.c b/string_utils.c
index 8a2642f..aa0ff0d 100644
--- a/string_utils.c
+++ b/string_utils.c
@@ -30,7 +30,7 @@ void chop_string(char *data)
   int len = strlen(data);
   for (int i = 0; i < len; i++)
   {
-    if (data[i] <= 34)
+    if ((unsigned char)data[i] <= 34)
     {
       data[i] = 0;
       break;
-- 
2.43.0


From 251b14a59edd9b9c0e816954e807686d99753b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:12 +0000
Subject: [PATCH 06/61] fix: find_in_file matched parts of lines and overflowed
 on files beyond 8 KB

---
 file_utils.c | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/file_utils.c b/file_utils.c
index 69393a7..089f635 100644
--- a/file_utils.c
+++ b/file_utils.c
@@ -15,12 +15,16 @@
  * You should have received a copy of the GNU General Public License
  * along with this program.  If not, see <https://www.gnu.org/licenses/>.
  */
+#ifndef _GNU_SOURCE
+#define _GNU_SOURCE
+#endif
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
 #include <sys/stat.h>
 #include "log.h"
 #include "file_utils.h"
+#include "string_utils.h"
 
 bool find_in_file(char *path, char *needle)
 {
@@ -32,13 +36,24 @@ bool find_in_file(char *path, char *needle)
 
   bool result = false;
 
-  char *haystack = calloc(8192, 1);
-  read_file(haystack, path, 0);
+  FILE *file = fopen(path, "rb");
+  if (file == NULL)
+  {
+    log_error("Unable to open file: %s", path);
+    return false;
+  }
 
-  if (strstr(haystack, needle))
-    result = true;
+  char *line = NULL;
+  size_t len = 0;
+  while (!result && getline(&line, &len, file) != -1)
+  {
+    trim(line);
+    if (strcmp(line, needle) == 0)
+      result = true;
+  }
 
-  free(haystack);
+  free(line);
+  fclose(file);
   return result;
 }
 
-- 
2.43.0


From 3b0a5658b18c05c6874891d017d953ac2bed3954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:23 +0000
Subject: [PATCH 07/61] fix: read_file crashed when out of memory and returned
 stale bytes of a shrinking file

---
 file_utils.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/file_utils.c b/file_utils.c
index 089f635..3545dcd 100644
--- a/file_utils.c
+++ b/file_utils.c
@@ -104,12 +104,16 @@ void read_file(char *out, char *path, uint64_t maxlen)
     fseek(file, 0, SEEK_END);
     length = ftell(file);
     fseek(file, 0, SEEK_SET);
-    src = calloc(length, 1);
+    src = calloc(length + 1, 1);
     if (src)
     {
-      fread(src, 1, length, file);
+      length = fread(src, 1, length, file);
     }
     fclose(file);
+    if (src == NULL)
+    {
+      return;
+    }
     if (maxlen > 0)
       if (length > maxlen - 1)
         length = maxlen - 1;
-- 
2.43.0


From 468a9ebd5814495ffd29bc7e9d0bb42fd1033419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:23 +0000
Subject: [PATCH 08/61] fix: write_file read beyond the given bytes to log
 their length

---
 file_utils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/file_utils.c b/file_utils.c
index 3545dcd..f66fddb 100644
--- a/file_utils.c
+++ b/file_utils.c
@@ -125,7 +125,7 @@ void read_file(char *out, char *path, uint64_t maxlen)
 
 void write_file(char *filename, char *ptr, int size)
 {
-  log_debug("write_file(filename=%s, strlen(ptr)=%d, size=%d)", filename, strlen(ptr), size);
+  log_debug("write_file(filename=%s, size=%d)", filename, size);
   if (is_file(filename))
   {
     remove(filename);
-- 
2.43.0


From 48a0e2a084156ffc8249fd094aefd1ba6c7cb7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:53 +0000
Subject: [PATCH 09/61] fix: JSON helpers emitted quotes, backslashes and
 control characters unescaped

---
 json_utils.c | 53 ++++++++++++++++++++++++++++++++++++++++++++++++----
 json_utils.h |  5 +++++
 2 files changed, 54 insertions(+), 4 deletions(-)

diff --git a/json_utils.c b/json_utils.c
index ac3bed7..96eb8e1 100644
--- a/json_utils.c
+++ b/json_utils.c
@@ -30,6 +30,30 @@
 #define MAX_SINGLE_JSON_ENTITY_STR_LEN 512
 #define MAX_INT_STRING_LEN 32
 
+char *json_escape(char *str)
+{
+  char *out = malloc(6 * strlen(str) + 1);
+  char *end = out;
+  for (; *str; str++)
+  {
+    if (*str == '"' || *str == '\\')
+    {
+      *end++ = '\\';
+      *end++ = *str;
+    }
+    else if ((unsigned char)*str < ' ')
+    {
+      end += sprintf(end, "\\u%04x", *str);
+    }
+    else
+    {
+      *end++ = *str;
+    }
+  }
+  *end = 0;
+  return out;
+}
+
 char *json_array_of_strings(char **array, int size)
 {
   if (array == NULL || size < 1)
@@ -38,18 +62,29 @@ char *json_array_of_strings(char **array, int size)
   }
   // calculate size of string
   int string_size = strlen(JSON_ARRAY_STR_BEGIN) + strlen(JSON_ARRAY_STR_END) + size * strlen(JSON_ARRAY_STR_SEP) + 2;
+  char **escaped = calloc(size, sizeof(char *));
   for (int i = 0; i < size; i++)
   {
     if (array[i] != NULL)
-      string_size += strlen(array[i]);
+    {
+      escaped[i] = json_escape(array[i]);
+      string_size += strlen(escaped[i]);
+    }
   }
 
   char *json = calloc(string_size, sizeof(char));
   strcpy(json, JSON_ARRAY_STR_BEGIN);
-  char *joined_str = join(array, size, JSON_ARRAY_STR_SEP);
+  char *joined_str = join(escaped, size, JSON_ARRAY_STR_SEP);
   strcat(json, joined_str);
   strcat(json, JSON_ARRAY_STR_END);
-  free(joined_str);
+  // join returns a constant if the first element is NULL
+  if (escaped[0] != NULL)
+    free(joined_str);
+  for (int i = 0; i < size; i++)
+  {
+    free(escaped[i]);
+  }
+  free(escaped);
   return json;
 }
 
@@ -87,29 +122,39 @@ char *json_array_of_entities(json_list_t list)
 
 char *json_key_value(char *key, char *value)
 {
+  key = json_escape(key);
+  value = json_escape(value ? value : "");
   char *json = calloc(1, strlen(key) + strlen(value) + 15);
-  sprintf(json, "\"%s\":\"%s\"", key, value? value : "");
+  sprintf(json, "\"%s\":\"%s\"", key, value);
+  free(key);
+  free(value);
   return json;
 }
 
 char *json_key_value_int(char *key, int value)
 {
+  key = json_escape(key);
   char *json = calloc(1, strlen(key) + MAX_INT_STR + 15);
   sprintf(json, "\"%s\":%d", key, value);
+  free(key);
   return json;
 }
 
 char *json_key_value_bool(char *key, bool value)
 {
+  key = json_escape(key);
   char *json = calloc(1, strlen(key) + MAX_INT_STR + 15);
   sprintf(json, "\"%s\":%s", key, value ? "true": "false");
+  free(key);
   return json;
 }
 
 char *json_key_value_uint32_t(char *key, uint32_t value)
 {
+  key = json_escape(key);
   char *json = calloc(1, strlen(key) + MAX_INT_STR + 15);
   sprintf(json, "\"%s\":%u", key, value);
+  free(key);
   return json;
 }
 
diff --git a/json_utils.h b/json_utils.h
index 04aac8a..38f668a 100644
--- a/json_utils.h
+++ b/json_utils.h
@@ -40,6 +40,11 @@ typedef struct json_list_t
   void **elements;
 } json_list_t;
 
+/**
+ * json_escape: Returns a dynamically allocated copy of the string, escaped so that it can be placed between quotes in JSON.
+ */
+char *json_escape(char *str);
+
 /**
  * json_array_of_strings: Returns a dynamically allocated string containing the JSON representation of an array of strings.
  */
-- 
2.43.0


From 2fa018f5489e139b52deb8135f93cf42ad2d3fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:54 +0000
Subject: [PATCH 10/61] fix: json_array_of_entities leaked the joined text of
 empty entities

---
 json_utils.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/json_utils.c b/json_utils.c
index 96eb8e1..64afc1a 100644
--- a/json_utils.c
+++ b/json_utils.c
@@ -109,7 +109,8 @@ char *json_array_of_entities(json_list_t list)
   strcat(json, joined_str);
   strcat(json, JSON_ARRAY_END);
   
-  if (joined_str && *joined_str!='\0')
+  // join returns a constant if the first element is NULL
+  if (json_entities[0] != NULL)
     free(joined_str);
  
   for (int i = 0; i < list.size; i++)
-- 
2.43.0


From bc66719d302d97b91a68dcb8613e0d450ea79100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:11 +0000
Subject: [PATCH 11/61] fix: return_response used uninitialised pointers and
 did not escape its texts

---
 http_utils.c | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/http_utils.c b/http_utils.c
index f848dd7..4a90fcb 100644
--- a/http_utils.c
+++ b/http_utils.c
@@ -532,12 +532,14 @@ char *http_get_header(api_request *req, char *name)
 char *return_response(call_response_t rsp)
 {
 	char *aux;
-	char *aux_err;
-	char *aux_txt;
-	char *aux_additional_info;
-	char *aux_description;
-
-	if (rsp.status == -1)
+	char *aux_err = NULL;
+	char *aux_txt = NULL;
+	char *aux_additional_info = NULL;
+	char *aux_description = NULL;
+	char *text = json_escape(rsp.text);
+	char *description = json_escape(rsp.description);
+
+	if (rsp.status < RSP_DONE || rsp.status > RSP_WARN)
 		asprintf(&aux_err, "\"RSP\":\"FAIL\"");
 	if (rsp.status == 0)
 		asprintf(&aux_err, "\"RSP\":\"OK\"");
@@ -546,9 +548,9 @@ char *return_response(call_response_t rsp)
 	if (rsp.status == 2)
 		asprintf(&aux_err, "\"RSP\":\"WARNING\"");
 	if (strlen(rsp.text))
-		asprintf(&aux_txt, ", \"info\":\"%s\"", rsp.text);
+		asprintf(&aux_txt, ", \"info\":\"%s\"", text);
 	if (strlen(rsp.description))
-		asprintf(&aux_description, ", \"description\":\"%s\"", rsp.description);
+		asprintf(&aux_description, ", \"description\":\"%s\"", description);
 
 	if (rsp.additional_info != NULL)
 		asprintf(&aux_additional_info, ",\"data\":%s", rsp.additional_info);
@@ -569,6 +571,9 @@ char *return_response(call_response_t rsp)
 	if (aux_txt)
 		free(aux_txt);
 
+	free(text);
+	free(description);
+
 	return aux;
 }
 
-- 
2.43.0


From e94dcf2a78a715d19264afc3a800bcebb21196f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:11 +0000
Subject: [PATCH 12/61] fix: new_error_with_values overflowed the error with
 long codes or messages

---
 http_utils.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/http_utils.c b/http_utils.c
index 4a90fcb..d79430f 100644
--- a/http_utils.c
+++ b/http_utils.c
@@ -500,8 +500,8 @@ char *wayuu_error_t_json_serializer(wayuu_error_t *error)
 wayuu_error_t *new_error_with_values(char *code, char *message)
 {
 	wayuu_error_t *error = malloc(sizeof(wayuu_error_t));
-	strcpy(error->code, code);
-	strcpy(error->message, message);
+	snprintf(error->code, sizeof(error->code), "%s", code);
+	snprintf(error->message, sizeof(error->message), "%s", message);
 	return error;
 }
 
-- 
2.43.0


From 8c92309561fce2e31749fc870a11ad009d4fc0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:12 +0000
Subject: [PATCH 13/61] fix: the query string was cut at a second '?' and empty
 URLs crashed the server

---
 http_utils.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/http_utils.c b/http_utils.c
index d79430f..2008659 100644
--- a/http_utils.c
+++ b/http_utils.c
@@ -452,20 +452,19 @@ path_and_query_t *get_path_and_query_string(char *url)
 
 	path_and_query_t *result = malloc(sizeof(path_and_query_t));
 
-	str_list_t *list = split(url, "?");
+	char *query = strchr(url, '?');
 
-	result->path = strdup(list->strings[0]);
+	result->path = query ? strndup(url, query - url) : strdup(url);
 
-	if (list->n_str > 1)
+	if (query && query[1])
 	{
-		result->query = strdup(list->strings[1]);
+		result->query = strdup(query + 1);
 	}
 	else
 	{
 		result->query = "";
 	}
 
-	free_str_list_t(list);
 	return result;
 }
 
-- 
2.43.0


From b338867d5e202a565c28917ed72b5ca6ece41674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:30 +0000
Subject: [PATCH 14/61] fix: every unknown file type was served as CSV, and CSV
 and YAML as something else

---
 http_utils.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/http_utils.c b/http_utils.c
index 2008659..618f11f 100644
--- a/http_utils.c
+++ b/http_utils.c
@@ -113,7 +113,7 @@ char *get_content_type(char *filename)
 {
 	char *buf = malloc(1024);
 	char *ext = strrchr(filename, '.');
-	if (!ext || ext == filename)
+	if (!ext || ext == filename || strchr(ext, '/'))
 		sprintf(buf, CONTENT_TYPE_TEXT_HTML);
 	else if (strcmp(ext, ".html") == 0 || strcmp(ext, ".js") == 0)
 		sprintf(buf, CONTENT_TYPE_TEXT_HTML);
@@ -131,7 +131,7 @@ char *get_content_type(char *filename)
 		sprintf(buf, CONTENT_TYPE_ICON);
 	else if (strcmp(ext, ".txt") == 0)
 		sprintf(buf, CONTENT_TYPE_TEXT_PLAIN);
-	else if (strcmp(ext, ".csv"))
+	else if (strcmp(ext, ".csv") == 0)
 		sprintf(buf, CONTENT_TYPE_TEXT_CSV);
 	else if (strcmp(ext, ".yaml") == 0)
 	{
@@ -159,7 +159,7 @@ char *get_content_type_for_mime(char *mime)
 		sprintf(buf, CONTENT_TYPE_CSS);
 	else if (strcmp(mime, "text/plain") == 0)
 		sprintf(buf, CONTENT_TYPE_TEXT_PLAIN);
-	else if (strcmp(mime, "text/csv"))
+	else if (strcmp(mime, "text/csv") == 0)
 		sprintf(buf, CONTENT_TYPE_TEXT_CSV);
 	else if (strcmp(mime, "text/yaml") == 0)
 	{
-- 
2.43.0


From dd42f678f05046be5cce3287760aa2ac88faba7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:31 +0000
Subject: [PATCH 15/61] fix: static responses repeated the status line and
 server header

---
 http_utils.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/http_utils.c b/http_utils.c
index 618f11f..225b388 100644
--- a/http_utils.c
+++ b/http_utils.c
@@ -89,8 +89,6 @@ int return_headers(api_request *req, char *filename)
 	int len = 0;
 	char buf[1024];
 	sprintf(buf, "%s%s", HTTP_OK_START, WAYUU_HTTP_SERVER_STRING);
-	len += strlen(buf);
-	http_print(req, buf, len);
 	char *content_type = get_content_type(filename);
 	strcat(buf, content_type);
 	free(content_type);
-- 
2.43.0


From 6c050ed33742689539f20a2b33ea6b1fa389e3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:32 +0000
Subject: [PATCH 16/61] fix: return_headers_with_mime leaked the content type

---
 http_utils.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/http_utils.c b/http_utils.c
index 225b388..8305ee6 100644
--- a/http_utils.c
+++ b/http_utils.c
@@ -311,7 +311,9 @@ int return_headers_with_mime(api_request *req, int status, char *mime)
 	}
 	char buf[1024];
 
-	sprintf(buf, "%s%s%s%s", HTTP_ERROR_STARTS[error_index], WAYUU_HTTP_SERVER_STRING, HTTP_ACCESS_CONTROL, get_content_type_for_mime(mime));
+	char *content_type = get_content_type_for_mime(mime);
+	sprintf(buf, "%s%s%s%s", HTTP_ERROR_STARTS[error_index], WAYUU_HTTP_SERVER_STRING, HTTP_ACCESS_CONTROL, content_type);
+	free(content_type);
 	http_print(req, buf, strlen(buf));
 	return strlen(buf);
 }
-- 
2.43.0


From 3b15c6b6954e1bdef3c886ccc04bfeaa99501c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:32 +0000
Subject: [PATCH 17/61] fix: http_print dropped the rest of the data when the
 network accepted only a part

---
 http_utils.c | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/http_utils.c b/http_utils.c
index 8305ee6..e59c91b 100644
--- a/http_utils.c
+++ b/http_utils.c
@@ -20,6 +20,7 @@
 #define _GNU_SOURCE 1
 #endif
 #include <arpa/inet.h>
+#include <errno.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -248,13 +249,23 @@ void send_empty_line(api_request *req)
  */
 void http_print(api_request *req, void *data, int length)
 {
-	if (WAYUU_SSL_ON)
+	while (length > 0)
 	{
-		SSL_write(req->ssl, data, length);
-	}
-	else
-	{
-		send(req->socket, data, length, 0);
+		int n;
+		if (WAYUU_SSL_ON)
+		{
+			n = SSL_write(req->ssl, data, length);
+		}
+		else
+		{
+			n = send(req->socket, data, length, 0);
+			if (n < 0 && errno == EINTR)
+				continue;
+		}
+		if (n <= 0)
+			break;
+		data = (char *)data + n;
+		length -= n;
 	}
 }
 
-- 
2.43.0


From 19ed33d6bb6cbe519c0636f896d44caac959c94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:53 +0000
Subject: [PATCH 18/61] fix: return_file sent unread bytes and crashed when out
 of memory

---
 http_utils.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/http_utils.c b/http_utils.c
index e59c91b..24fefe2 100644
--- a/http_utils.c
+++ b/http_utils.c
@@ -187,7 +187,11 @@ int return_file(api_request *req, char *path)
 
 		if (src)
 		{
-			fread(src, 1, length, file);
+			length = fread(src, 1, length, file);
+		}
+		else
+		{
+			length = 0;
 		}
 
 		fclose(file);
-- 
2.43.0


From 372f59dd156eba8799a71efc08593b0d5b96771d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:54 +0000
Subject: [PATCH 19/61] fix: send_stream dropped everything after a NUL byte of
 a line

---
 http_utils.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/http_utils.c b/http_utils.c
index 24fefe2..2f97cce 100644
--- a/http_utils.c
+++ b/http_utils.c
@@ -224,9 +224,9 @@ int send_stream(api_request *req, FILE *fp)
 {
 	char buf[1024];
 	int len = 0;
-	while (fgets(buf, sizeof(buf) - 1, fp) != NULL)
+	int s;
+	while ((s = fread(buf, 1, sizeof(buf) - 1, fp)) > 0)
 	{
-		int s = strlen(buf);
 		len += s;
 		http_print(req, buf,s);
 	}
-- 
2.43.0


From bbae47bc6b96443b891f9fbb9c6072de5262bd09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:54 +0000
Subject: [PATCH 20/61] fix: JSON responses with an unsupported status emitted
 a body without status line

---
 http_utils.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/http_utils.c b/http_utils.c
index 2f97cce..3d27a24 100644
--- a/http_utils.c
+++ b/http_utils.c
@@ -336,6 +336,10 @@ int return_headers_with_mime(api_request *req, int status, char *mime)
 void return_json_stream(api_request *req, int status, FILE *fp)
 {
 	int len = return_json_headers(req, status);
+	if (len == 0)
+	{
+		return;
+	}
 	char buf[1024];
 	strcpy(buf, "\r\n");
 	http_print(req, buf, strlen(buf));
@@ -347,6 +351,10 @@ void return_json_stream(api_request *req, int status, FILE *fp)
 void return_json_with_status(api_request *req, int status, char *data)
 {
 	int len = return_json_headers(req, status);
+	if (len == 0)
+	{
+		return;
+	}
 
 	char buf[1024];
 	sprintf(buf, "Content-Length: %zu\r\n\r\n", strlen(data) + 2);
-- 
2.43.0


From 2fd2483c0995a54cfa05149b0c0d17354b7ce0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:55 +0000
Subject: [PATCH 21/61] fix: send_http_status overflowed its buffer with a long
 message

---
 http_utils.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/http_utils.c b/http_utils.c
index 3d27a24..ec4a28e 100644
--- a/http_utils.c
+++ b/http_utils.c
@@ -452,14 +452,14 @@ void send_http_status(api_request *req, int status, char *message)
 		char contentLength[100];
 		sprintf(contentLength, "Content-Length: %zu%s%s", strlen(message) + 2, CRLF, CRLF);
 		strcat(buf, contentLength);
-		strcat(buf, message);
 	}
 	else
 	{
 		strcat(buf, HTTP_CONTENT_LENGTH_ZERO);
 	}
 	http_print_str(req, buf);
-	req->response_length += strlen(buf);
+	http_print_str(req, message);
+	req->response_length += strlen(buf) + strlen(message);
 	strcpy(buf, "\r\n");
 	http_print_str(req, buf);
 	req->response_length += strlen(buf);
-- 
2.43.0


From d600b7a17b10c3b49cf6555f6b1b3072d77580f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:56 +0000
Subject: [PATCH 22/61] fix: header lookup depended on the case of the name,
 and empty values leaked in the access log

---
 http_utils.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/http_utils.c b/http_utils.c
index ec4a28e..caabaad 100644
--- a/http_utils.c
+++ b/http_utils.c
@@ -543,9 +543,9 @@ char *http_get_header(api_request *req, char *name)
 {
 	for (int i = 0; i < req->n_headers; i++)
 	{
-		if (!strcmp(req->headers[i].name, name))
+		if (!strcasecmp(req->headers[i].name, name))
 		{
-			return strdup(req->headers[i].value);
+			return *req->headers[i].value ? strdup(req->headers[i].value) : "";
 		}
 	}
 	return "";
-- 
2.43.0


From 602baff5adb5ac8bed11185f138c2e5deffbd137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:17 +0000
Subject: [PATCH 23/61] fix: timestamps were formatted in storage shared by all
 threads

---
 log.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/log.c b/log.c
index 5a8bbdc..5b60f9a 100644
--- a/log.c
+++ b/log.c
@@ -42,7 +42,8 @@ char *format_timestamp()
   // Always use UTC time
   char *out = malloc(64);
   time_t t = time(NULL);
-  struct tm *utc = gmtime(&t);
+  struct tm result;
+  struct tm *utc = gmtime_r(&t, &result);
   strftime(out, 64, "%d-%m-%y %H:%M:%S", utc);
   return out;
 }
@@ -55,7 +56,8 @@ char *format_ts_common_log()
   //%d/%b/%Y:%H:%M:%S %z
   char *out = malloc(64);
   time_t t = time(NULL);
-  struct tm *utc = gmtime(&t);
+  struct tm result;
+  struct tm *utc = gmtime_r(&t, &result);
   strftime(out, 64, "%d/%b/%Y:%H:%M:%S %z", utc);
   return out;
 }
-- 
2.43.0


From 033005b413d31667924db42ff18ef114412e7a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:18 +0000
Subject: [PATCH 24/61] fix: log lines of concurrent threads were interleaved

---
 log.c | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/log.c b/log.c
index 5b60f9a..e5e463c 100644
--- a/log.c
+++ b/log.c
@@ -16,6 +16,9 @@
  * along with this program.  If not, see <https://www.gnu.org/licenses/>.
  */
 
+#ifndef _GNU_SOURCE
+#define _GNU_SOURCE
+#endif
 #include <pthread.h>
 #include <stdarg.h>
 #include <stdio.h>
@@ -69,21 +72,27 @@ void __logger(int level, const char *file, int line, const char *func, const cha
     return;
   }
 
-  if (LOG_FILE == NULL)
+  FILE *log_file = LOG_FILE;
+  if (log_file == NULL)
   {
-    LOG_FILE = stderr;
+    log_file = stderr;
   }
 
   char *buf = format_timestamp();
+  char *message = NULL;
   va_list args;
 
   // II. Format log
-  fprintf(LOG_FILE, "%s %lu %-5s %s:%s:%d: ", buf, pthread_self(), level_names[level], file, func, line);
   va_start(args, format);
-  vfprintf(LOG_FILE, format, args);
+  if (vasprintf(&message, format, args) < 0)
+  {
+    message = NULL;
+  }
   va_end(args);
-  fprintf(LOG_FILE, "\n");
-  fflush(LOG_FILE);
+  // One single call, so that lines of different threads don't mix
+  fprintf(log_file, "%s %lu %-5s %s:%s:%d: %s\n", buf, pthread_self(), level_names[level], file, func, line, message ? message : format);
+  fflush(log_file);
+  free(message);
   free(buf);
 
   // Exit with error if log level is FATAL
-- 
2.43.0


From af4aecb8f40f225ec9ea152df86f5d00bddfbe69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:04 +0000
Subject: [PATCH 25/61] fix: route templates with non-ASCII characters were cut
 at the first one

---
 router.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/router.c b/router.c
index 15d5bed..661f091 100644
--- a/router.c
+++ b/router.c
@@ -66,7 +66,7 @@ void router_resolve_route(const char *template, route_matcher *matcher)
   tmp[strlen(template) - 1] = 0;
   char *prefix = tmp;
   int index = 0;
-  while (*tmp > 0 && *tmp != '{')
+  while (*tmp != 0 && *tmp != '{')
   {
     tmp++;
     index++;
-- 
2.43.0


From 17574b0f9ba58f03a9d4333faa17e1ae404af8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:05 +0000
Subject: [PATCH 26/61] fix: router_extract_param overflowed with a long
 parameter name

---
 router.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/router.c b/router.c
index 661f091..dec7180 100644
--- a/router.c
+++ b/router.c
@@ -83,7 +83,7 @@ char *router_extract_param(const char *path, route_matcher *matcher)
   log_debug("router_extract_param(path=%s,prefix=%s,param=%s)", path, matcher->prefix, matcher->param);
   char *tmp = strdup(path);
   int prefix_len = strlen(matcher->prefix);
-  char *qs = calloc(1, strlen(tmp) + prefix_len + 10);
+  char *qs = calloc(1, strlen(tmp) + strlen(matcher->param) + 10);
   sprintf(qs, "%s=%s", matcher->param, tmp + prefix_len);
   free(tmp);
   return qs;
-- 
2.43.0


From 2c138500137bc66c5ee6b2e79123053659337c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:05 +0000
Subject: [PATCH 27/61] fix: registering too many or too long routes corrupted
 memory

---
 router.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/router.c b/router.c
index dec7180..9fc375c 100644
--- a/router.c
+++ b/router.c
@@ -93,6 +93,12 @@ void router_add_route(char *template, request_handler handler, request_filter fi
 {
 
   log_debug("ADD ROUTE - %s", template);
+  char *param = strchr(template, '{');
+  if (routing_table.n_routes >= MAX_ROUTES || strlen(template) >= MAX_ROUTE_PATH || (param && strlen(param) >= MAX_PARAM_LENGTH + 2))
+  {
+    log_error("Route refused, too many routes or too long: %s", template);
+    return;
+  }
   route_matcher *matcher = calloc(1, sizeof(route_matcher));
   if (strchr(template, '{') != NULL)
   {
-- 
2.43.0


From 4d7b029f53546e97595af58bc93727966a8e0cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:06 +0000
Subject: [PATCH 28/61] fix: parameter routes matched inside other paths, and
 long paths or form data overflowed

---
 router.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/router.c b/router.c
index 9fc375c..27c11c7 100644
--- a/router.c
+++ b/router.c
@@ -123,10 +123,10 @@ void router_handle_request(api_request *request)
   request_handler handler = NULL;
   request_filter filter = NULL;
 
-  char matcher[255];
+  char *matcher;
 
   // Match method:path
-  sprintf(matcher, "%s:%s", request->method, request->path);
+  asprintf(&matcher, "%s:%s", request->method, request->path);
 
   for (int i = 0; i < routing_table.n_routes; i++)
   {
@@ -138,7 +138,7 @@ void router_handle_request(api_request *request)
       filter = routing_table.filters[i];
       break;
     }
-    else if (type == MATCHER_TYPE_PARAM && strstr(matcher, template) != NULL && strcmp(template, matcher) != 0)
+    else if (type == MATCHER_TYPE_PARAM && strncmp(matcher, template, strlen(template)) == 0 && strcmp(template, matcher) != 0)
     {
       char *qs = router_extract_param(matcher, routing_table.matchers[i]);
       if (strlen(request->form) == 0)
@@ -147,10 +147,9 @@ void router_handle_request(api_request *request)
       }
       else
       {
-        char *param;
-        asprintf(&param, "&%s", qs);
-        strcat(request->form, param);
-        free(param);
+        request->form = realloc(request->form, strlen(request->form) + strlen(qs) + 2);
+        strcat(request->form, "&");
+        strcat(request->form, qs);
       }
       free(qs);
       handler = routing_table.handlers[i];
@@ -158,6 +157,7 @@ void router_handle_request(api_request *request)
       break;
     }
   }
+  free(matcher);
   if (handler == NULL)
   {
     // we did not find a handler for given request, return default response.
-- 
2.43.0


From 7d8caecd0ab87cbf3faa196bc0b55977cb9f0c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:25 +0000
Subject: [PATCH 29/61] fix: configuration values were cut at a second '=' and
 lines without key crashed the parser

---
 conf_parser.c | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/conf_parser.c b/conf_parser.c
index 6279474..1663647 100644
--- a/conf_parser.c
+++ b/conf_parser.c
@@ -78,21 +78,18 @@ conf_item *conf_parse_first_pass(char *line)
   char *line_copy = strdup(line);
   trim(line_copy);
   // Get the key
-  char *key = strtok(line_copy, DELIM);
-  result->key = strdup(key);
-  trim(result->key);
-  // store the value
-  char *value = strtok(NULL, DELIM);
-  if (value == NULL)
+  char *value = strstr(line_copy, DELIM);
+  *value++ = 0;
+  trim(line_copy);
+  if (strcmp(line_copy, ""))
   {
-    value = "";
+    result->key = strdup(line_copy);
   }
-
+  // store the value
+  trim(value);
   if (strcmp(value, ""))
   {
-    trim(value);
     result->value = strdup(value);
-    trim(result->value);
   }
   else
   {
-- 
2.43.0


From 21cee2bcadde66b067ea50f9a8d2343cdf54f107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:26 +0000
Subject: [PATCH 30/61] fix: conf_parse_line crashed on multi-valued lines
 without '='

---
 conf_parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conf_parser.c b/conf_parser.c
index 1663647..dda3ff2 100644
--- a/conf_parser.c
+++ b/conf_parser.c
@@ -106,7 +106,7 @@ conf_item *conf_parse_first_pass(char *line)
 conf_item *conf_parse_line(char *line, bool is_multi)
 {
   conf_item *result = conf_parse_first_pass(line);
-  if (is_multi)
+  if (is_multi && result != NULL)
   {
     conf_parse_multi(result);
   }
-- 
2.43.0


From c54964500cded35257a1043c7a56f09afa00ed6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:26 +0000
Subject: [PATCH 31/61] fix: more than 20 comma separated values overflowed the
 configuration item

---
 conf_parser.c | 22 +++++++---------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/conf_parser.c b/conf_parser.c
index dda3ff2..c076dad 100644
--- a/conf_parser.c
+++ b/conf_parser.c
@@ -39,24 +39,16 @@ void conf_parse_multi(conf_item *item)
   // We store value string in a separate string because strtok modifies it.
   char *value = strdup(item->value);
   // tmp_value is a register that stores the current value obtained from the tokenizer.
-  char *tmp_value = strtok(value, MULTI_DELIM);
-  if (tmp_value && strcmp("", tmp_value))
+  char *state;
+  char *tmp_value = strtok_r(value, MULTI_DELIM, &state);
+  while (tmp_value != NULL && i < _CONF_MAX_MULTI_ELEMENTS)
   {
-    item->multivalue[0] = strdup(tmp_value);
-    trim(item->multivalue[0]);
-    while (tmp_value != NULL && i < _CONF_MAX_MULTI_ELEMENTS)
-    {
-      i++;
-      tmp_value = strtok(NULL, MULTI_DELIM);
-      if (tmp_value != NULL)
-      {
-        item->multivalue[i] = strdup(tmp_value);
-        trim(item->multivalue[i]);
-      }
-    }
+    item->multivalue[i] = strdup(tmp_value);
+    trim(item->multivalue[i]);
+    i++;
+    tmp_value = strtok_r(NULL, MULTI_DELIM, &state);
   }
   item->n_multivalues = i;
-  free(tmp_value);
   free(value);
 }
 
-- 
2.43.0


From a2f4c08819fef9342b4311d9aed145d6928d0731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:42 +0000
Subject: [PATCH 32/61] fix: configuration lines beyond 511 characters were
 parsed as several lines

---
 conf_parser.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/conf_parser.c b/conf_parser.c
index c076dad..e198f5d 100644
--- a/conf_parser.c
+++ b/conf_parser.c
@@ -115,8 +115,9 @@ int parse(char *path, conf_handler handler, void *output, key_flags flags)
     perror(errorString);
     return -1;
   }
-  char line[MAX_LINE_LEN];
-  while (fgets(line, sizeof line, file) != NULL)
+  char *line = NULL;
+  size_t len = 0;
+  while (getline(&line, &len, file) != -1)
   {
     conf_item *item = conf_parse_first_pass(line);
     if (item == NULL)
@@ -124,6 +125,7 @@ int parse(char *path, conf_handler handler, void *output, key_flags flags)
       char errorString[120];
       sprintf(errorString, "Entity in invalid format, path: %s\n", path);
       perror(errorString);
+      free(line);
       fclose(file);
       return -1;
     }
@@ -139,6 +141,7 @@ int parse(char *path, conf_handler handler, void *output, key_flags flags)
     }
     free_conf_item(item);
   }
+  free(line);
   fclose(file);
   return 0;
 }
-- 
2.43.0


From 813bba70fbe67d87c2b998bc2b1e2c3db103ec95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:42 +0000
Subject: [PATCH 33/61] fix: error messages about configuration files
 overflowed with a long path

---
 conf_parser.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/conf_parser.c b/conf_parser.c
index e198f5d..eddc4fd 100644
--- a/conf_parser.c
+++ b/conf_parser.c
@@ -111,7 +111,7 @@ int parse(char *path, conf_handler handler, void *output, key_flags flags)
   if (file == NULL)
   {
     char errorString[120];
-    sprintf(errorString, "Unable to open path: %s", path);
+    snprintf(errorString, sizeof(errorString), "Unable to open path: %s", path);
     perror(errorString);
     return -1;
   }
@@ -123,7 +123,7 @@ int parse(char *path, conf_handler handler, void *output, key_flags flags)
     if (item == NULL)
     {
       char errorString[120];
-      sprintf(errorString, "Entity in invalid format, path: %s\n", path);
+      snprintf(errorString, sizeof(errorString), "Entity in invalid format, path: %s\n", path);
       perror(errorString);
       free(line);
       fclose(file);
@@ -246,7 +246,7 @@ int write_conf(void *input, conf_serializer serializer)
   if (file == NULL)
   {
     char errorString[120];
-    sprintf(errorString, "Unable to open file %s for writing", s->path);
+    snprintf(errorString, sizeof(errorString), "Unable to open file %s for writing", s->path);
     perror(errorString);
     return -1;
   }
-- 
2.43.0


From fcaee57689e4c19a9c937f666c6884087f916fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:43 +0000
Subject: [PATCH 34/61] fix: serializable_to_string overflowed beyond 1024
 characters and leaked the items

---
 conf_parser.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/conf_parser.c b/conf_parser.c
index eddc4fd..a46fc29 100644
--- a/conf_parser.c
+++ b/conf_parser.c
@@ -277,12 +277,15 @@ serializable *new_serializable(char *path, conf_item *items[], int n_items)
 
 char *serializable_to_string(serializable *s)
 {
-  char *result = malloc(1024 * sizeof(char));
+  char *result = malloc(strlen(s->path) + 64);
   sprintf(result, "[path=%s,n_items=%d", s->path, s->n_items);
   for (int i = 0; i < s->n_items; i++)
   {
+    char *item = conf_item_to_string(s->items[i]);
+    result = realloc(result, strlen(result) + strlen(item) + 3);
     strcat(result, ",");
-    strcat(result, conf_item_to_string(s->items[i]));
+    strcat(result, item);
+    free(item);
   }
   strcat(result, "]");
   return result;
-- 
2.43.0


From 63b801db22f238f3313fe9bfa71b02ddcd9bac25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:02 +0000
Subject: [PATCH 35/61] fix: more than 20 items overwrote the item count of a
 serializable

---
 conf_parser.c | 2 +-
 conf_parser.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/conf_parser.c b/conf_parser.c
index a46fc29..34689e6 100644
--- a/conf_parser.c
+++ b/conf_parser.c
@@ -263,7 +263,7 @@ int write_conf(void *input, conf_serializer serializer)
 
 serializable *new_serializable(char *path, conf_item *items[], int n_items)
 {
-  serializable *s = (serializable *)malloc(sizeof(serializable) + strlen(path) + n_items * CONF_ITEM_SIZE);
+  serializable *s = (serializable *)malloc(sizeof(serializable) + n_items * sizeof(conf_item *));
   s->path = path;
   s->n_items = n_items;
   for (int i = 0; i < n_items; i++)
diff --git a/conf_parser.h b/conf_parser.h
index 2cd2c72..a0e83ad 100644
--- a/conf_parser.h
+++ b/conf_parser.h
@@ -45,8 +45,8 @@ typedef struct conf_item
 typedef struct serializable
 {
   char *path;
-  conf_item *items[_CONF_MAX_ITEMS];
   int n_items;
+  conf_item *items[];
 } serializable;
 
 typedef struct key_flag
-- 
2.43.0


From 3a95a806a5b9f9d0e821975571430b5ea6749772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:02 +0000
Subject: [PATCH 36/61] fix: new_conf_item_with_values overflowed with more
 than 20 values

---
 conf_parser.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/conf_parser.c b/conf_parser.c
index 34689e6..7050805 100644
--- a/conf_parser.c
+++ b/conf_parser.c
@@ -176,6 +176,8 @@ conf_item *new_conf_item_with_values(char *key, char *value, char *multivalue[],
   if (strcmp("", value))
     item->value = strdup(value);
   item->n_multivalues = 0;
+  if (n_multivalues > _CONF_MAX_MULTI_ELEMENTS)
+    n_multivalues = _CONF_MAX_MULTI_ELEMENTS;
   if (n_multivalues > 0)
   {
     item->n_multivalues = n_multivalues;
-- 
2.43.0


From ea7608a9969715f913eb1ab6cb367d924195c138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:17 +0000
Subject: [PATCH 37/61] fix: -r did not apply to the static content and
 overflowed with a long path

---
 main.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/main.c b/main.c
index 5a88d42..ac94d65 100644
--- a/main.c
+++ b/main.c
@@ -84,7 +84,12 @@ int main(int argc, char *argv[])
       ws_port = atoi(optarg);
       break;
     case 'r':
+      if (strlen(optarg) >= sizeof(WAYUU_WS_ROOT))
+      {
+        log_fatal("Unable to start, root directory is too long: %s", optarg);
+      }
       strcpy(WAYUU_WS_ROOT, optarg);
+      sprintf(WAYUU_STATIC_ROOT, "%s/%s", WAYUU_WS_ROOT, DEFAULT_STATIC_ROOT);
       log_info("WAYUU ROOT now: %s", WAYUU_WS_ROOT);
       if (!is_dir(WAYUU_WS_ROOT))
       {
-- 
2.43.0


From 3d0b9d55ab61ec01b0d401a376531be93ef55d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:17 +0000
Subject: [PATCH 38/61] fix: the server started with bad ports, addresses or
 options without value

---
 main.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/main.c b/main.c
index ac94d65..a6b5c3b 100644
--- a/main.c
+++ b/main.c
@@ -35,7 +35,7 @@ void print_usage()
   printf("USAGE: wayuu [-d] [-b ip_addr] [-p port] [-r root] [-f] [-v]\n");
   printf("Options:\n");
   printf("-d         : Enabled DEBUG mode\n");
-  printf("-b ip_addr : Bind to IP address. Default: \"0.0.0.0\"\n");
+  printf("-b ip_addr : Bind to IP address. Default: \"127.0.0.1\"\n");
   printf("-p port    : Bind to TCP port. Default: 4443\n");
   printf("-r root    : Use root as the root folder for WAYUU. Default: /etc/wayuu\n");
   printf("-f         : HTTP mode\n");
@@ -78,10 +78,18 @@ int main(int argc, char *argv[])
       exit(EXIT_SUCCESS);
       break;
     case 'b':
+      if (strlen(optarg) >= sizeof(bind_addr))
+      {
+        log_fatal("Unable to start, bad bind address: %s", optarg);
+      }
       strcpy(bind_addr, optarg);
       break;
     case 'p':
       ws_port = atoi(optarg);
+      if (ws_port < 1 || ws_port > 65535)
+      {
+        log_fatal("Unable to start, bad port: %s", optarg);
+      }
       break;
     case 'r':
       if (strlen(optarg) >= sizeof(WAYUU_WS_ROOT))
@@ -98,6 +106,7 @@ int main(int argc, char *argv[])
       break;
     case ':':
       printf("option needs a value\n");
+      exit(EXIT_FAILURE);
       break;
     case '?':
       printf("unknown option: %c\n", optopt);
-- 
2.43.0


From fb520e115379e1fde6ebb500c1496038a9fe8fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:24 +0000
Subject: [PATCH 39/61] fix: README named the wrong default bind address

---
 README.md | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/README.md b/README.md
index 8651e19..ad4d327 100644
--- a/README.md
+++ b/README.md
@@ -17,7 +17,7 @@ $ ./wayuu -h
 USAGE: wayuu [-d] [-b ip_addr] [-p port] [-r root] [-f]
 Options:
 -d         : Enabled DEBUG mode
--b ip_addr : Bind to IP address. Default: "0.0.0.0"
+-b ip_addr : Bind to IP address. Default: "127.0.0.1"
 -p port    : Bind to TCP port. Default: 4443
 -r root    : Use root as the root folder for WAYUU. Default: /etc/wayuu
 -f         : HTTP mode
-- 
2.43.0


From 3ce791573a5f77d4a6b02a25992c8991dfac7c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:37 +0000
Subject: [PATCH 40/61] fix: one connection more than the configured limit was
 admitted

---
 ws.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ws.c b/ws.c
index a142e34..427dbc9 100644
--- a/ws.c
+++ b/ws.c
@@ -393,12 +393,12 @@ bool connection_validate(char *IP, char *path)
 			int total = 0;
 			int by_ip = 0;
 			get_live_stats(limits[i].path, IP, &total, &by_ip);
-			if (total > limits[i].max_connections)
+			if (total >= limits[i].max_connections)
 			{
 				log_debug("IP:%s denied, max_connections exceeded for %s", IP, limits[i].path);
 				return false;
 			}
-			if (by_ip > limits[i].max_connections_per_ip)
+			if (by_ip >= limits[i].max_connections_per_ip)
 			{
 				log_debug("IP:%s denied, max_connections_per_ip exceeded for %s", IP, limits[i].path);
 				return false;
-- 
2.43.0


From 50168b3d45b534ea54927e3469c89df28ac65420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:37 +0000
Subject: [PATCH 41/61] fix: concurrent requests exceeded the limits and
 released the capacity of others

---
 ws.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/ws.c b/ws.c
index 427dbc9..489496f 100644
--- a/ws.c
+++ b/ws.c
@@ -39,6 +39,7 @@ ws_queue *ws_threads_queue;
 SSL_CTX *ctx;
 connections *live_connections;
 path_limits *limits;
+static pthread_mutex_t live_mutex = PTHREAD_MUTEX_INITIALIZER; // protects live_connections
 
 char WAYUU_WS_ROOT[ROOT_PATH_MAX];
 char FAVICON_URL[ROOT_PATH_MAX];
@@ -415,13 +416,15 @@ void connection_close(api_request *req)
 		SSL_shutdown(req->ssl);
 		SSL_free(req->ssl);
 	}
-	close(req->socket);
+	// The socket number can be reused as soon as it is closed
 	connection_del(req->socket);
+	close(req->socket);
 }
 
 /* Removes socket from live_connections */
 void connection_del(int socket)
 {
+	pthread_mutex_lock(&live_mutex);
 	for (int i = 0; i < WS_MAX_CONNECTIONS; i++)
 	{
 		if (live_connections[i].socket == socket)
@@ -432,13 +435,18 @@ void connection_del(int socket)
 			break;
 		}
 	}
+	pthread_mutex_unlock(&live_mutex);
 }
 
 /* Adds socket to live_connections (if allowed) */
 bool connection_add(int socket, char *IP, char *path)
 {
+	pthread_mutex_lock(&live_mutex);
 	if (!connection_validate(IP, path))
+	{
+		pthread_mutex_unlock(&live_mutex);
 		return false;
+	}
 
 	for (int i = 0; i < WS_MAX_CONNECTIONS; i++)
 	{
@@ -447,10 +455,12 @@ bool connection_add(int socket, char *IP, char *path)
 			live_connections[i].socket = socket;
 			strcpy(live_connections[i].path, path);
 			strcpy(live_connections[i].IP, IP);
+			pthread_mutex_unlock(&live_mutex);
 			return true;
 		}
 	}
 
+	pthread_mutex_unlock(&live_mutex);
 	log_debug("WS_MAX_CONNECTIONS reached");
 	return false;
 }
-- 
2.43.0


From a5d3fae645009ed692aee134adeeb80b75f48111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:48 +0000
Subject: [PATCH 42/61] fix: limit rules with a blank after the path never
 applied and long paths overflowed

---
 ws.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ws.c b/ws.c
index 489496f..ac0ebf3 100644
--- a/ws.c
+++ b/ws.c
@@ -864,6 +864,9 @@ path_limits *load_limits()
 				/* Tokenize line, comma delimited */
 				char *token;
 				token = strtok(line, ",");
+				trim(token);
+				if (strlen(token) >= HTTP_MAX_PATH)
+					continue;
 				strcpy(out[path_rules].path, token);
 				int i = 1;
 				while (token != NULL)
-- 
2.43.0


From f34421ce447199d17535b4ea3ad3f695229ab8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:59 +0000
Subject: [PATCH 43/61] fix: static URLs with '..' left the static root,
 folders did not serve their index.html

---
 ws.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ws.c b/ws.c
index ac0ebf3..b2fbcc7 100644
--- a/ws.c
+++ b/ws.c
@@ -315,7 +315,13 @@ void handle_static_routes(api_request *req)
 {
 	log_debug("Handle static route: %s", req->path);
 	char path[1024];
-	int pathlen = strlen(path);
+	int pathlen = strlen(req->path);
+	// Never leave the static root
+	if (strcmp(req->path, "..") == 0 || startswith(req->path, "../") || strstr(req->path, "/../") || (pathlen >= 3 && strcmp(req->path + pathlen - 3, "/..") == 0))
+	{
+		not_found(req);
+		return;
+	}
 	/**
 	 *  Handle default routes. URL Rewritting.
 	 */
@@ -331,7 +337,7 @@ void handle_static_routes(api_request *req)
 		req->path = strdup(FAVICON_URL);
 	}
 	// If static route ends with '/', then redirect to the index.html in the folder.
-	else if (path[pathlen-1] == '/')
+	else if (pathlen > 0 && req->path[pathlen-1] == '/')
 	{
 
 		sprintf(path, "%s%s", req->path, "index.html");
-- 
2.43.0


From 369f7d85ded7750646a16fc64a6111983ee3dfd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:00 +0000
Subject: [PATCH 44/61] fix: missing static files were not answered when there
 is no index page

---
 ws.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ws.c b/ws.c
index b2fbcc7..7a709b0 100644
--- a/ws.c
+++ b/ws.c
@@ -352,7 +352,10 @@ void handle_static_routes(api_request *req)
 	if (direct_file(req, path) < 0)
 	{
 		sprintf(path, "%s/%s", WAYUU_STATIC_ROOT, WWW_INDEX);
-		direct_file(req, path);
+		if (direct_file(req, path) < 0)
+		{
+			not_found(req);
+		}
 	}
 }
 
-- 
2.43.0


From 53a9b8917779078ff819dbed9cb07845c91b41d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:13 +0000
Subject: [PATCH 45/61] fix: connections dropped because the queue is full were
 never closed

---
 ws.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ws.c b/ws.c
index 7a709b0..e38fa2c 100644
--- a/ws.c
+++ b/ws.c
@@ -820,6 +820,7 @@ void ws_launch(int port, char *bind_addr, ws_socket_handler handler)
 			else
 			{
 				log_warn("IP:%s Connection dropped. No threads available", IP);
+				close(client_sock);
 			}
 			pthread_mutex_unlock(&ws_mutex);
 			pthread_cond_signal(&ws_cond);
-- 
2.43.0


From fad8abf9a99e605c017dd3cd292cb17196dc7a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:14 +0000
Subject: [PATCH 46/61] fix: every connection leaked its address in the
 acceptor

---
 ws.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ws.c b/ws.c
index e38fa2c..24a2245 100644
--- a/ws.c
+++ b/ws.c
@@ -796,7 +796,7 @@ void ws_launch(int port, char *bind_addr, ws_socket_handler handler)
 		if (client_sock == -1)
 			log_fatal("Error while creating client socket");
 
-		char *IP = malloc(16);
+		char IP[HTTP_MAX_IP];
 		strcpy(IP, inet_ntoa(client_name.sin_addr));
 
 		if (!allowed_address(IP))
-- 
2.43.0


From 7da0d105fdb1be50ba6159de36ad970b804561f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:14 +0000
Subject: [PATCH 47/61] fix: a failing accept ended the whole service

---
 ws.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/ws.c b/ws.c
index 24a2245..64c7e1d 100644
--- a/ws.c
+++ b/ws.c
@@ -18,6 +18,7 @@
 #include "ws.h"
 #include <arpa/inet.h>
 #include <ctype.h>
+#include <errno.h>
 #include <pthread.h>
 #include <unistd.h>
 #include <stdlib.h>
@@ -792,9 +793,16 @@ void ws_launch(int port, char *bind_addr, ws_socket_handler handler)
 	while (true)
 	{
 
+		client_name_len = sizeof(client_name);
 		client_sock = accept(httpd, (struct sockaddr *)&client_name, &client_name_len);
 		if (client_sock == -1)
-			log_fatal("Error while creating client socket");
+		{
+			if (errno == EBADF || errno == EINVAL || errno == ENOTSOCK || errno == EOPNOTSUPP || errno == EFAULT)
+				log_fatal("Error while creating client socket");
+			// Any other error only affects that connection or goes away
+			log_error("Error while creating client socket: %s", strerror(errno));
+			continue;
+		}
 
 		char IP[HTTP_MAX_IP];
 		strcpy(IP, inet_ntoa(client_name.sin_addr));
-- 
2.43.0


From 5d9d21c811078703ef8061da82f606ebc5a1aa7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:28 +0000
Subject: [PATCH 48/61] fix: request lines shorter than two characters were
 terminated out of bounds

---
 ws.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ws.c b/ws.c
index 64c7e1d..a11a2a0 100644
--- a/ws.c
+++ b/ws.c
@@ -517,7 +517,8 @@ void accept_request(int socket)
 
 	req->request_line = strdup(buf);
 	// The request line ends in the two characters \r\n
-	req->request_line[strlen(req->request_line) - 2] = 0;
+	for (size_t len = strlen(req->request_line); len > 0 && (req->request_line[len - 1] == '\n' || req->request_line[len - 1] == '\r'); len--)
+		req->request_line[len - 1] = 0;
 
 	// HTTP METHOD
 	i = 0;
-- 
2.43.0


From e5966f861553ada51b8f0622fd6bed3f903e6353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:29 +0000
Subject: [PATCH 49/61] fix: a failing getpeername logged and limited an
 address from stale memory

---
 ws.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ws.c b/ws.c
index a11a2a0..371e011 100644
--- a/ws.c
+++ b/ws.c
@@ -494,6 +494,7 @@ void accept_request(int socket)
 	req->IP = calloc(24, 1);
 	struct sockaddr_in addr;
 	socklen_t addr_len = sizeof(addr);
+	memset(&addr, 0, sizeof(addr));
 	getpeername(socket, (struct sockaddr *)&addr, &addr_len);
 	strcpy(req->IP, inet_ntoa(addr.sin_addr));
 	SSL *ssl;
-- 
2.43.0


From 7cb7a9b768022b3f3957aa0bd6d53ca5e4fe6f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:30 +0000
Subject: [PATCH 50/61] fix: connections whose TLS handshake failed were
 processed as requests

---
 ws.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/ws.c b/ws.c
index 371e011..648bc46 100644
--- a/ws.c
+++ b/ws.c
@@ -503,11 +503,15 @@ void accept_request(int socket)
 	{
 
 		ssl = SSL_new(ctx);
-		SSL_set_fd(ssl, socket);
-
-		if (SSL_accept(ssl) <= 0)
+		if (ssl == NULL || SSL_set_fd(ssl, socket) <= 0 || SSL_accept(ssl) <= 0)
 		{
-			log_warn("SSL connection failed from IP: %s\n", req->IP);
+			// Without a TLS session nothing can be received or answered
+			log_warn("SSL connection failed from IP: %s", req->IP);
+			SSL_free(ssl);
+			close(socket);
+			free(req->IP);
+			free(req);
+			return;
 		}
 		req->ssl = ssl;
 	}
-- 
2.43.0


From 26168a25c559511ee83b90ec9bf2e4bce01ec6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:46 +0000
Subject: [PATCH 51/61] fix: truncated requests, URLs and header lines were
 executed as if they were complete

---
 ws.c | 39 ++++++++++++++++++++++++++++++---------
 1 file changed, 30 insertions(+), 9 deletions(-)

diff --git a/ws.c b/ws.c
index 648bc46..708cb9e 100644
--- a/ws.c
+++ b/ws.c
@@ -96,18 +96,21 @@ int get_line(api_request *req, char *buf, int size)
 	char c = '\0';
 	int n;
 
-	while ((i < size - 1) && (c != '\n'))
+	while (c != '\n')
 	{
 
 		n = http_read_char(req, &c);
-		if (n > 0)
+		if (n <= 0)
 		{
-			buf[i] = c;
-			i++;
+			// The connection ended within the line
+			buf[i] = '\0';
+			return (-1);
 		}
-		else
+		// The part of a line that does not fit is dropped
+		if (i < size - 1)
 		{
-			c = '\n';
+			buf[i] = c;
+			i++;
 		}
 	}
 
@@ -528,7 +531,7 @@ void accept_request(int socket)
 	// HTTP METHOD
 	i = 0;
 	j = 0;
-	while (!isspace((int)(buf[j])) && (i < sizeof(method) - 1))
+	while (buf[j] && !isspace((int)(buf[j])) && (i < sizeof(method) - 1))
 	{
 		method[i] = buf[j];
 		i++;
@@ -539,7 +542,7 @@ void accept_request(int socket)
 	req->method = method;
 
 	// If the request is not from any of the supported HTTP methods, reject the request.
-	if (!startswithany(method, ALLOWED_HTTP_METHODS))
+	if (numchars < 0 || !startswithany(method, ALLOWED_HTTP_METHODS))
 	{
 		bad_request(req);
 		connection_close(req);
@@ -554,7 +557,7 @@ void accept_request(int socket)
 		j++;
 	}
 	// URL
-	while (!isspace((int)(buf[j])) && (i < sizeof(url) - 1) && (j < sizeof(buf)))
+	while (buf[j] && !isspace((int)(buf[j])) && (i < sizeof(url) - 1) && (j < sizeof(buf)))
 	{
 		url[i] = buf[j];
 		i++;
@@ -565,6 +568,15 @@ void accept_request(int socket)
 
 	req->url = strdup(url);
 
+	// An URL that is missing or too long to be held whole is never executed
+	if (!isspace((int)(buf[j])))
+	{
+		bad_request(req);
+		connection_close(req);
+		free(req);
+		return;
+	}
+
 	/* Validate and add connection to live_connections */
 	if (!connection_add(req->socket, req->IP, req->url))
 	{
@@ -647,6 +659,15 @@ void accept_request(int socket)
 
 	req->n_headers = headers_idx;
 
+	// A request without complete header section is never executed
+	if (numchars < 0)
+	{
+		bad_request(req);
+		connection_close(req);
+		free(req);
+		return;
+	}
+
 	// ROUTE HANDLING LOGIC
 	// query string and path
 	path_and_query_t *pq = get_path_and_query_string(url);
-- 
2.43.0


From af41a5128f5acbd337192e732e4eaa972ef97594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:22 +0000
Subject: [PATCH 52/61] fix: long header names and values were not terminated

---
 ws.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ws.c b/ws.c
index 708cb9e..d41549b 100644
--- a/ws.c
+++ b/ws.c
@@ -604,9 +604,9 @@ void accept_request(int socket)
 			if (nameval->n_str > 1)
 			{
 				log_trace("Found header: %s, %s", nameval->strings[0], nameval->strings[1]);
-				strncpy(req->headers[headers_idx].name, nameval->strings[0], HTTP_MAX_HEADER_NAME);
+				strncpy(req->headers[headers_idx].name, nameval->strings[0], HTTP_MAX_HEADER_NAME - 1);
 				trim(nameval->strings[1]);
-				strncpy(req->headers[headers_idx].value, nameval->strings[1], HTTP_MAX_HEADER_VALUE);
+				strncpy(req->headers[headers_idx].value, nameval->strings[1], HTTP_MAX_HEADER_VALUE - 1);
 				headers_idx++;
 			}
 			free_str_list_t(nameval);
-- 
2.43.0


From 694974fcd8234c81a7cbd1dc4b1d15524ce2309f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:23 +0000
Subject: [PATCH 53/61] fix: Content-Type and Content-Length depended on their
 spacing, long boundaries overflowed

---
 ws.c | 34 ++++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/ws.c b/ws.c
index d41549b..2329808 100644
--- a/ws.c
+++ b/ws.c
@@ -478,6 +478,19 @@ bool connection_add(int socket, char *IP, char *path)
 	return false;
 }
 
+/**
+ * header_value: Returns a copy of the value of a header line, without surrounding blanks,
+ * or NULL if it is not the header with the given name (which includes the colon).
+ */
+static char *header_value(char *line, const char *name)
+{
+	if (!startswith(line, name))
+		return NULL;
+	char *value = strdup(line + strlen(name));
+	trim(value);
+	return value;
+}
+
 /**
  * accept_request: Main request handling routine. It performs initial parsing of structures,
  * generates api_request structure
@@ -588,7 +601,7 @@ void accept_request(int socket)
 
 	/* Parse remaining part of the HTTP header section */
 	long content_length = -1;
-	char multipart_boundary[100] = "\0";
+	char multipart_boundary[sizeof(buf) + 2] = "\0";
 	numchars = 1;
 	buf[0] = 'A';
 	buf[1] = '\0';
@@ -611,17 +624,26 @@ void accept_request(int socket)
 			}
 			free_str_list_t(nameval);
 		}
-		if (startswith(buf, "Content-Type:"))
+		char *value = header_value(buf, "Content-Type:");
+		if (value)
 		{
-			req->content_type = rtrim(&(buf[14]), ';');
+			free(req->content_type);
+			req->content_type = rtrim(value, ';');
+			trim(req->content_type);
+			free(value);
 		}
 		/* Get multipart boundary */
-		if (startswith(buf, "Content-Type: multipart/form-data"))
+		if (startswith(buf, "Content-Type:") && strcasecmp(req->content_type, "multipart/form-data") == 0)
 		{
 			char *boundary = strcasestr(buf, "boundary=");
 			if (boundary)
 			{
-				sprintf(multipart_boundary, "--%s", boundary + strlen("boundary=")); // TODO: Validate size
+				boundary += strlen("boundary=");
+				// It can be quoted and followed by other parameters
+				bool quoted = *boundary == '"';
+				boundary += quoted;
+				boundary[strcspn(boundary, quoted ? "\"" : ";")] = 0;
+				sprintf(multipart_boundary, "--%s", boundary);
 				trim(multipart_boundary);
 			}
 		}
@@ -629,7 +651,7 @@ void accept_request(int socket)
 		/* Get content length */
 		if (startswith(buf, "Content-Length:"))
 		{
-			content_length = atoi(&(buf[16]));
+			content_length = strtol(&(buf[15]), NULL, 10);
 		}
 
 		// Get original IP if behind proxy
-- 
2.43.0


From d3c2d8bf8d823f9b895b2bf079f75571da5b2341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:23 +0000
Subject: [PATCH 54/61] fix: session and client address took bytes of other
 headers, and were cut or unterminated

---
 ws.c | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/ws.c b/ws.c
index 2329808..5ba8b9d 100644
--- a/ws.c
+++ b/ws.c
@@ -655,25 +655,36 @@ void accept_request(int socket)
 		}
 
 		// Get original IP if behind proxy
-		if (startswith(buf, "X-Real-IP:"))
+		value = header_value(buf, "X-Real-IP:");
+		if (value && *value)
 		{
 			free(req->IP);
-			req->IP = calloc(26, 1);
-			trim(buf);
-			strncpy(req->IP, buf + 11, 24);
+			req->IP = value;
+		}
+		else
+		{
+			free(value);
 		}
 
 		/* Get Session */
 		if (startswithany(buf, COOKIE_HEADERS))
 		{
-			strncpy(req->session, buf + 10, MAX_SESSION);
-			trim(req->session);
+			value = header_value(strchr(buf, ':'), ":");
+			strncpy(req->session, value, MAX_SESSION - 1);
+			free(value);
 		}
 
 		if (startswith(buf, "Cookie:") && req->session[0] == 0)
 		{
-			if (strlen(buf + 18) < MAX_SESSION)
-				strcpy(req->session, buf + 18);
+			char *state;
+			char *cookie = strtok_r(buf + strlen("Cookie:"), ";", &state);
+			while (cookie != NULL && req->session[0] == 0)
+			{
+				trim(cookie);
+				if (strncmp(cookie, "WSSESSION=", strlen("WSSESSION=")) == 0 && strlen(cookie + strlen("WSSESSION=")) < MAX_SESSION)
+					strcpy(req->session, cookie + strlen("WSSESSION="));
+				cookie = strtok_r(NULL, ";", &state);
+			}
 		}
 
 		numchars = get_line(req, buf, sizeof(buf));
-- 
2.43.0


From 49cbec4492341cea3601b501a36f7245a2ef9b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:06 +0000
Subject: [PATCH 55/61] fix: incomplete bodies were executed as if they were
 complete, huge ones crashed the server

---
 ws.c | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/ws.c b/ws.c
index 5ba8b9d..7d3f354 100644
--- a/ws.c
+++ b/ws.c
@@ -297,11 +297,22 @@ void handle_api_request(api_request *req, long content_length, char *multipart_b
 	if (content_length > 0)
 	{
 		char c = '\0';
-		req->form = malloc(content_length + 1);
+		req->form = malloc((size_t)content_length + 1);
+		if (req->form == NULL)
+		{
+			log_error("IP:%s Not enough memory for a body of %ld bytes", req->IP, content_length);
+			bad_request(req);
+			return;
+		}
 		long formptr = 0;
-		for (int i = 0; i < content_length; i++)
+		for (long i = 0; i < content_length; i++)
 		{
-			http_read_char(req, &c);
+			// A request without complete body is never executed
+			if (http_read_char(req, &c) <= 0)
+			{
+				bad_request(req);
+				return;
+			}
 			req->form[formptr++] = c;
 			req->form[formptr] = 0;
 		}
-- 
2.43.0


From dfe4c0fe5405a538911435290b818a132598200e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:06 +0000
Subject: [PATCH 56/61] fix: multipart parts mixed with other parts, lost data
 at boundary-like content and overflowed the form

---
 ws.c | 69 ++++++++++++++++++++++++++++++++++++------------------------
 1 file changed, 42 insertions(+), 27 deletions(-)

diff --git a/ws.c b/ws.c
index 7d3f354..7c5ed8f 100644
--- a/ws.c
+++ b/ws.c
@@ -171,29 +171,36 @@ void part_parse(char *IP, char *tmpfields, char *tmpdata, long length)
 {
 
 	long actuallength = length;
-	long start = text_find_after(tmpdata, "form-data; name=\"", 0, strlen(tmpdata));
+	/* Name and filename are only looked for in the headers of the part */
+	long data_start = text_find_after(tmpdata, "\r\n\r\n", 0, actuallength);
+	long start = text_find_after(tmpdata, "form-data; name=\"", 0, data_start);
 	if (start < 1)
 	{
 		log_warn("IP:%s Multipart error: Form-data not found ", IP);
 		return;
 	}
 
-	if (strlen(tmpdata + start) > 0)
+	char *quote = memchr(tmpdata + start, '"', data_start - start);
+	if (quote != NULL)
 	{
 		char *field = calloc(actuallength + 1, 1);
-		long bytes = actuallength - start;
+		long bytes = quote - (tmpdata + start);
 
 		memcpy(field, tmpdata + start, bytes);
 		field[bytes] = 0;
-		chop_string(field);
-		long data_start = text_find_after(tmpdata, "\r\n\r\n", 0, actuallength);
-		/* If there is already data in tmpfields, start with & */
-		if (strlen(tmpfields) > 0)
-			sprintf(tmpfields + strlen(tmpfields), "&");
-
-		long start_file = text_find_after(tmpdata, "; filename=\"", 0, strlen(tmpdata));
-		if (data_start > 0)
+
+		long start_file = text_find_after(tmpdata, "; filename=\"", start + bytes, data_start);
+		if (start_file > 0 && !memchr(tmpdata + start_file, '"', data_start - start_file))
+		{
+			log_warn("IP:%s Multipart error: Filename not terminated", IP);
+		}
+		/* The data ends in the two characters \r\n */
+		else if (actuallength - data_start >= 2)
 		{
+			/* If there is already data in tmpfields, start with & */
+			if (strlen(tmpfields) > 0)
+				sprintf(tmpfields + strlen(tmpfields), "&");
+
 			/* Save filename */
 			if (start_file > 0)
 			{
@@ -225,7 +232,7 @@ void save_tmp_file(char *tmpfields, char *field, long start_file, char *tmpdata,
 	strncpy(orig_filename, tmpdata + start_file, MAX_ORIG_FILENAME);
 	// Add string termination to last character to prevent strlen errors.
 	orig_filename[MAX_ORIG_FILENAME - 1] = 0;
-	chop_string(orig_filename);
+	orig_filename[strcspn(orig_filename, "\"")] = 0;
 	log_debug("Original filename %s\n", orig_filename);
 
 	
@@ -246,39 +253,44 @@ void save_tmp_file(char *tmpfields, char *field, long start_file, char *tmpdata,
 	sprintf(tmpfields + strlen(tmpfields), "%s=%s&tmpfile=%s", field, orig_filename, tmpfile);
 }
 
-void multipart_parse(char *form, char *IP, char *multipart_boundary, long content_length)
+/* Returns the fields of a multipart form, dynamically allocated */
+char *multipart_parse(char *form, char *IP, char *multipart_boundary, long content_length)
 {
 
 	char *tmppart = calloc(content_length + 1, 1);
-	char *tmpfields = calloc(content_length + 1, 1);
+	/* A file can be longer than its part because of the name of the temporary file, but not three times */
+	char *tmpfields = calloc(content_length + 1, 3);
+	/* Boundaries are only valid at the beginning of a line */
+	char *delimiter = calloc(strlen(multipart_boundary) + 3, 1);
+	sprintf(delimiter, "\r\n%s", multipart_boundary);
 
-	long ptr = 0;
 	long part_start;
 	long part_end;
 
-	while (ptr < content_length)
+	part_start = text_find_after(form, multipart_boundary, 0, strlen(multipart_boundary));
+	if (part_start < 0)
+		part_start = text_find_after(form, delimiter, 0, content_length);
+
+	/* The last boundary is followed by -- */
+	while (part_start >= 0 && strncmp(form + part_start, "--", 2))
 	{
 
-		part_start = text_find_after(form, multipart_boundary, ptr, content_length);
-		if (part_start < 0)
-			break;
-		part_end = text_find_after(form, multipart_boundary, part_start, content_length);
+		part_end = text_find_after(form, delimiter, part_start, content_length);
 		if (part_end < 0)
 			break;
 
 		int tmppart_len = part_end - part_start - strlen(multipart_boundary);
 		memcpy(tmppart, form + part_start, tmppart_len);
+		tmppart[tmppart_len] = 0;
 
 		part_parse(IP, tmpfields, tmppart, tmppart_len);
 
-		trim(tmppart);
-		ptr = part_start + 1;
+		part_start = part_end;
 	}
 
-	strcpy(form, tmpfields);
-
-	free(tmpfields);
+	free(delimiter);
 	free(tmppart);
+	return tmpfields;
 }
 
 void handle_api_request(api_request *req, long content_length, char *multipart_boundary)
@@ -319,8 +331,11 @@ void handle_api_request(api_request *req, long content_length, char *multipart_b
 
 		/* If multipart boundary is at least = "--", then parse multipart */
 		if (strlen(multipart_boundary) >= 2)
-			multipart_parse(req->form, req->IP, multipart_boundary, content_length);
-		
+		{
+			char *fields = multipart_parse(req->form, req->IP, multipart_boundary, content_length);
+			free(req->form);
+			req->form = fields;
+		}
 	}
 	// Delegate request to router
 	router_handle_request(req);
-- 
2.43.0


From 8cac0db55587dc34e4ad187b65ea7ffe3f92cd18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:58 +0000
Subject: [PATCH 57/61] fix: every request leaked its strings

---
 ws.c | 53 ++++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 38 insertions(+), 15 deletions(-)

diff --git a/ws.c b/ws.c
index 7c5ed8f..8e139d0 100644
--- a/ws.c
+++ b/ws.c
@@ -40,6 +40,7 @@ ws_queue *ws_threads_queue;
 SSL_CTX *ctx;
 connections *live_connections;
 path_limits *limits;
+static char EMPTY[] = ""; // value of the strings of a request that are not set
 static pthread_mutex_t live_mutex = PTHREAD_MUTEX_INITIALIZER; // protects live_connections
 
 char WAYUU_WS_ROOT[ROOT_PATH_MAX];
@@ -337,8 +338,12 @@ void handle_api_request(api_request *req, long content_length, char *multipart_b
 			req->form = fields;
 		}
 	}
-	// Delegate request to router
+	// Delegate request to router, which replaces empty form data
+	char *form = req->form;
+	bool empty = form[0] == 0 && form != EMPTY;
 	router_handle_request(req);
+	if (empty && req->form != form)
+		free(form);
 }
 
 void handle_static_routes(api_request *req)
@@ -394,16 +399,31 @@ api_request *api_request_new(int socket)
 	api_request *req = calloc(1, sizeof(api_request));
 	req->request_start = epoch_millis();
 	req->response_length = 0;
-	req->query_string = "";
-	req->form = "";
-	req->session = "";
-	req->path = "";
-	req->username = "";
-	req->url = "";
+	req->query_string = EMPTY;
+	req->form = EMPTY;
+	req->session = EMPTY;
+	req->path = EMPTY;
+	req->username = EMPTY;
+	req->url = EMPTY;
 	req->socket = socket;
 	return req;
 }
 
+/* Frees a request and the strings that the server allocated for it */
+static void api_request_free(api_request *req)
+{
+	char *strings[] = {req->query_string, req->form, req->session, req->path, req->url};
+	for (int i = 0; i < sizeof(strings) / sizeof(*strings); i++)
+	{
+		if (strings[i] != EMPTY)
+			free(strings[i]);
+	}
+	free(req->content_type);
+	free(req->request_line);
+	free(req->IP);
+	free(req);
+}
+
 /* Return "total" / "by_ip" ongoing connections "path" and "IP" */
 void get_live_stats(char *path, char *IP, int *total, int *by_ip)
 {
@@ -551,8 +571,7 @@ void accept_request(int socket)
 			log_warn("SSL connection failed from IP: %s", req->IP);
 			SSL_free(ssl);
 			close(socket);
-			free(req->IP);
-			free(req);
+			api_request_free(req);
 			return;
 		}
 		req->ssl = ssl;
@@ -585,7 +604,7 @@ void accept_request(int socket)
 	{
 		bad_request(req);
 		connection_close(req);
-		free(req);
+		api_request_free(req);
 		return;
 	}
 
@@ -612,7 +631,7 @@ void accept_request(int socket)
 	{
 		bad_request(req);
 		connection_close(req);
-		free(req);
+		api_request_free(req);
 		return;
 	}
 
@@ -621,7 +640,7 @@ void accept_request(int socket)
 	{
 		too_many_connections(req);
 		connection_close(req);
-		free(req);
+		api_request_free(req);
 		return;
 	}
 
@@ -723,13 +742,14 @@ void accept_request(int socket)
 	{
 		bad_request(req);
 		connection_close(req);
-		free(req);
+		api_request_free(req);
 		return;
 	}
 
 	// ROUTE HANDLING LOGIC
 	// query string and path
 	path_and_query_t *pq = get_path_and_query_string(url);
+	char *session = req->session;
 	// Remove /api from PATH
 
 	req->query_string = strdup(pq->query);
@@ -752,13 +772,16 @@ void accept_request(int socket)
 	/* II. HANDLE API REQUEST */
 	else
 	{
-		req->path = strdup(pq->path) + strlen(API_MOUNT);
+		req->path = strdup(pq->path + strlen(API_MOUNT));
 		// Create an api request object.
 		handle_api_request(req, content_length, multipart_boundary);
 	}
 	free_path_and_query_t(pq);
+	// A handler can set a session of its own
+	if (req->session != session)
+		req->session = EMPTY;
 	connection_close(req);
-	free(req);
+	api_request_free(req);
 }
 
 ws_queue *ws_create_queue(int maxElements)
-- 
2.43.0


From 4a494e4480daacf15368d5e1ad06654986a25dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:15 +0000
Subject: [PATCH 58/61] fix: methods that only start with a supported one were
 executed, and could match a route of that method

---
 ws.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/ws.c b/ws.c
index 8e139d0..424973b 100644
--- a/ws.c
+++ b/ws.c
@@ -90,6 +90,16 @@ bool allowed_address(char *ip)
 	return find_in_file(WAYUU_WS_ALLOW, ip);
 }
 
+static bool allowed_method(char *method)
+{
+	for (int i = 0; ALLOWED_HTTP_METHODS[i] != NULL; i++)
+	{
+		if (strcasecmp(method, ALLOWED_HTTP_METHODS[i]) == 0)
+			return true;
+	}
+	return false;
+}
+
 int get_line(api_request *req, char *buf, int size)
 {
 
@@ -600,7 +610,7 @@ void accept_request(int socket)
 	req->method = method;
 
 	// If the request is not from any of the supported HTTP methods, reject the request.
-	if (numchars < 0 || !startswithany(method, ALLOWED_HTTP_METHODS))
+	if (numchars < 0 || !allowed_method(method))
 	{
 		bad_request(req);
 		connection_close(req);
-- 
2.43.0


From 4ebbcdb33ed2847b094a4ef9f3a1546ffd4d72de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:30 +0000
Subject: [PATCH 59/61] fix: do not start on the broadcast address when the
 bind address is not an IP address

---
 ws.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ws.c b/ws.c
index 424973b..09aecdf 100644
--- a/ws.c
+++ b/ws.c
@@ -887,6 +887,10 @@ void ws_launch(int port, char *bind_addr, ws_socket_handler handler)
 	name.sin_family = AF_INET;
 	name.sin_port = htons(port);
 	name.sin_addr.s_addr = inet_addr(bind_addr);
+	if (name.sin_addr.s_addr == INADDR_NONE)
+	{
+		log_fatal("Unable to start, bad bind address: %s", bind_addr);
+	}
 	log_info("WAYUU binding to address: %s", bind_addr);
 	log_info("WAYUU starting on port %d", port);
 	// Set SO_REUSEADDR to prevent no bind on TIME_WAIT. See for instance
-- 
2.43.0


From 65f4cb20485b28df98922e2d8c6f5298dc17ce8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:18 +0000
Subject: [PATCH 60/61] fix: do not start on a wrapped or cut port when the
 port is not a number in range

---
 main.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/main.c b/main.c
index a6b5c3b..f09a18b 100644
--- a/main.c
+++ b/main.c
@@ -85,11 +85,15 @@ int main(int argc, char *argv[])
       strcpy(bind_addr, optarg);
       break;
     case 'p':
-      ws_port = atoi(optarg);
-      if (ws_port < 1 || ws_port > 65535)
+    {
+      char *end;
+      long port = strtol(optarg, &end, 10);
+      if (*end || port < 1 || port > 65535)
       {
         log_fatal("Unable to start, bad port: %s", optarg);
       }
+      ws_port = port;
+    }
       break;
     case 'r':
       if (strlen(optarg) >= sizeof(WAYUU_WS_ROOT))
-- 
2.43.0


From d90cb2c448c881af468147e29416c16d97744c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:49 +0000
Subject: [PATCH 61/61] fix: the session buffer was lost when a handler set a
 session of its own

---
 ws.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ws.c b/ws.c
index 09aecdf..1746bc2 100644
--- a/ws.c
+++ b/ws.c
@@ -789,7 +789,10 @@ void accept_request(int socket)
 	free_path_and_query_t(pq);
 	// A handler can set a session of its own
 	if (req->session != session)
+	{
+		free(session);
 		req->session = EMPTY;
+	}
 	connection_close(req);
 	api_request_free(req);
 }
-- 
2.43.0

