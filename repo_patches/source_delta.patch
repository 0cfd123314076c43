From 3b403e3084ee15d4477f1e92a9b84216354548a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:49 +0000
Subject: [PATCH 01/39] fix: bc_str_find: do not read past the end of a string
 ending in a backslash

---
 src/common/utils.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/common/utils.c b/src/common/utils.c
index 7491ce6..2bdbdb5 100644
--- a/src/common/utils.c
+++ b/src/common/utils.c
@@ -315,7 +315,8 @@ bc_str_find(const char *str, char c)
         return (char*) str + strlen(str);
     for (size_t i = 0; str[i] != '\0'; i++) {
         if (str[i] == '\\') {
-            i++;
+            if (str[++i] == '\0')
+                break;
             continue;
         }
         if (str[i] == c) {
-- 
2.43.0


From 3327b6fde2b776e43d23015a029312c54a25c92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:31 +0000
Subject: [PATCH 02/39] fix: bc_file_get_contents: report read errors instead
 of looping forever

---
 src/common/file.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/common/file.c b/src/common/file.c
index 121b91e..d93973c 100644
--- a/src/common/file.c
+++ b/src/common/file.c
@@ -35,6 +35,16 @@ bc_file_get_contents(const char *path, bool utf8, size_t *len, bc_error_t **err)
     while (!feof(fp)) {
         size_t read_len = fread(buffer, sizeof(char), BC_FILE_CHUNK_SIZE, fp);
 
+        if (ferror(fp)) {
+            int tmp_errno = errno;
+            *err = bc_error_new_printf(BC_ERROR_FILE,
+                "Failed to read file (%s): %s", path, strerror(tmp_errno));
+            bc_string_free(str, true);
+            fclose(fp);
+            *len = 0;
+            return NULL;
+        }
+
         tmp = buffer;
 
         if (utf8 && str->len == 0 && read_len > 0) {
-- 
2.43.0


From 767dbc459839d2747bddf92dff562fb64bccc36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:31 +0000
Subject: [PATCH 03/39] fix: br_urldecode: do not dereference a missing (empty)
 request path

---
 src/blogc-runserver/httpd-utils.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/blogc-runserver/httpd-utils.c b/src/blogc-runserver/httpd-utils.c
index aa0be27..3536f3b 100644
--- a/src/blogc-runserver/httpd-utils.c
+++ b/src/blogc-runserver/httpd-utils.c
@@ -53,6 +53,9 @@ br_hextoi(const char c)
 char*
 br_urldecode(const char *str)
 {
+    if (str == NULL)
+        return NULL;
+
     bc_string_t *rv = bc_string_new();
 
     for (size_t i = 0; i < strlen(str); i++) {
-- 
2.43.0


From 038d982986cfe7bb6b12fe853f827b6b2ebafd59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:59 +0000
Subject: [PATCH 04/39] fix: blogc-runserver: serve nothing outside the
 document root

---
 src/blogc-runserver/httpd.c | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/blogc-runserver/httpd.c b/src/blogc-runserver/httpd.c
index a7293a2..b45f0d8 100644
--- a/src/blogc-runserver/httpd.c
+++ b/src/blogc-runserver/httpd.c
@@ -53,6 +53,17 @@ error(int socket, int status_code, const char *error)
 }
 
 
+static bool
+is_inside(const char *root, const char *path)
+{
+    size_t len = strlen(root);
+    if (0 != strncmp(root, path, len))
+        return false;
+    return path[len] == '\0' || path[len] == '/' ||
+        (len > 0 && root[len - 1] == '/');
+}
+
+
 static void*
 handle_request(void *arg)
 {
@@ -115,7 +126,7 @@ handle_request(void *arg)
         goto point3;
     }
 
-    if (0 != strncmp(real_root, real_path, strlen(real_root))) {
+    if (!is_inside(real_root, real_path)) {
         status_code = 404;
         error(client_socket, 404, "Not Found");
         goto point4;
@@ -144,7 +155,15 @@ handle_request(void *arg)
             add_slash = true;
 
         free(real_path);
-        real_path = found;
+        real_path = realpath(found, NULL);
+        free(found);
+
+        // the index file may be a symbolic link
+        if (real_path == NULL || !is_inside(real_root, real_path)) {
+            status_code = 404;
+            error(client_socket, 404, "Not Found");
+            goto point4;
+        }
     }
 
     if (0 != access(real_path, F_OK)) {
-- 
2.43.0


From 84410574c26d249c3632cf61ccc5c4b92f660ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:13 +0000
Subject: [PATCH 05/39] fix: blogc-git-receiver: reject commands with an
 unterminated quote

---
 src/blogc-git-receiver/shell-command-parser.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/blogc-git-receiver/shell-command-parser.c b/src/blogc-git-receiver/shell-command-parser.c
index 7cf9fbf..ad14210 100644
--- a/src/blogc-git-receiver/shell-command-parser.c
+++ b/src/blogc-git-receiver/shell-command-parser.c
@@ -87,7 +87,8 @@ bgr_shell_command_parse(const char *command)
         }
     }
 
-    if (rv->len > 0)
+    // the last quoted string must be closed
+    if (state == START_REPO && rv->len > 0)
         return bc_string_free(rv, false);
 
 error:
-- 
2.43.0


From a18cabb420402a0c52c303e84e32909edb78161b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:16 +0000
Subject: [PATCH 06/39] fix: blogc-git-receiver: reject repository paths that
 leave the base directory

---
 src/blogc-git-receiver/shell-command-parser.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/blogc-git-receiver/shell-command-parser.c b/src/blogc-git-receiver/shell-command-parser.c
index ad14210..6bdf382 100644
--- a/src/blogc-git-receiver/shell-command-parser.c
+++ b/src/blogc-git-receiver/shell-command-parser.c
@@ -16,6 +16,21 @@ typedef enum {
 } command_state_t;
 
 
+// a repository path must not leave the directory that holds the repositories
+static bool
+has_parent_reference(const char *repo)
+{
+    for (size_t i = 0; repo[i] != '\0'; i++) {
+        if ((i == 0 || repo[i - 1] == '/') && repo[i] == '.' &&
+            repo[i + 1] == '.' && (repo[i + 2] == '/' || repo[i + 2] == '\0'))
+        {
+            return true;
+        }
+    }
+    return false;
+}
+
+
 char*
 bgr_shell_command_parse(const char *command)
 {
@@ -88,7 +103,7 @@ bgr_shell_command_parse(const char *command)
     }
 
     // the last quoted string must be closed
-    if (state == START_REPO && rv->len > 0)
+    if (state == START_REPO && rv->len > 0 && !has_parent_reference(rv->str))
         return bc_string_free(rv, false);
 
 error:
-- 
2.43.0


From f94d531ee4890870d2a36907a03078d749ef8188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:59 +0000
Subject: [PATCH 07/39] fix: blogc-git-receiver: do not follow symbolic links
 when removing directories

---
 src/blogc-git-receiver/pre-receive.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/blogc-git-receiver/pre-receive.c b/src/blogc-git-receiver/pre-receive.c
index b7235db..af53f6d 100644
--- a/src/blogc-git-receiver/pre-receive.c
+++ b/src/blogc-git-receiver/pre-receive.c
@@ -36,7 +36,7 @@ rmdir_recursive(const char *dir)
     if (dir == NULL)
         return;
     struct stat buf;
-    if (0 != stat(dir, &buf)) {
+    if (0 != lstat(dir, &buf)) {
         return;
     }
     if (!S_ISDIR(buf.st_mode)) {
@@ -54,7 +54,7 @@ rmdir_recursive(const char *dir)
         if ((0 == strcmp(e->d_name, ".")) || (0 == strcmp(e->d_name, "..")))
             continue;
         char *f = bc_strdup_printf("%s/%s", dir, e->d_name);
-        if (0 != stat(f, &buf)) {
+        if (0 != lstat(f, &buf)) {
             fprintf(stderr, "error: failed to stat directory entry (%s): %s\n",
                 e->d_name, strerror(errno));
             free(f);
-- 
2.43.0


From 228ebc002147fa31a35bf1e7e6d2ef7686c6543b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:56 +0000
Subject: [PATCH 08/39] fix: blogc-make: report read errors when copying files

---
 src/blogc-make/exec-native.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/blogc-make/exec-native.c b/src/blogc-make/exec-native.c
index f18ed9c..0f0c3eb 100644
--- a/src/blogc-make/exec-native.c
+++ b/src/blogc-make/exec-native.c
@@ -79,6 +79,14 @@ bm_exec_native_cp(bm_filectx_t *source, bm_filectx_t *dest, bool verbose)
         } while (nread > 0);
     }
 
+    if (nread < 0) {
+        fprintf(stderr, "blogc-make: error: failed to read source file to copy "
+            "(%s): %s\n", source->path, strerror(errno));
+        close(fd_from);
+        close(fd_to);
+        return 1;
+    }
+
     close(fd_from);
     close(fd_to);
 
-- 
2.43.0


From 685847a97ad202debfb74d0fb62bd20922cd80a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:18 +0000
Subject: [PATCH 09/39] fix: content-parser: forget the lines of an abandoned
 list item

---
 src/blogc/content-parser.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/blogc/content-parser.c b/src/blogc/content-parser.c
index fe2e84f..3c143b7 100644
--- a/src/blogc/content-parser.c
+++ b/src/blogc/content-parser.c
@@ -1100,6 +1100,7 @@ blogc_content_parse(const char *src, size_t *end_excerpt, char **first_header,
                         bc_slist_free_full(lines, free);
                         bc_slist_free_full(lines2, free);
                         lines = NULL;
+                        lines2 = NULL;
                         if (is_last)
                             continue;
                         break;
@@ -1211,6 +1212,7 @@ blogc_content_parse(const char *src, size_t *end_excerpt, char **first_header,
                         bc_slist_free_full(lines, free);
                         bc_slist_free_full(lines2, free);
                         lines = NULL;
+                        lines2 = NULL;
                         if (is_last)
                             continue;
                         break;
-- 
2.43.0


From 75f59878563fac73c3b849e10b10da6a9fd28922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:18 +0000
Subject: [PATCH 10/39] fix: content-parser: parse an unfinished link only up
 to the end of its element

---
 src/blogc/content-parser.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/blogc/content-parser.c b/src/blogc/content-parser.c
index 3c143b7..320b26b 100644
--- a/src/blogc/content-parser.c
+++ b/src/blogc/content-parser.c
@@ -605,7 +605,8 @@ blogc_content_parse_inline_internal(const char *src, size_t src_len)
         case CONTENT_INLINE_LINK_CONTENT:
         case CONTENT_INLINE_LINK_URL_START:
         case CONTENT_INLINE_LINK_URL:
-            tmp2 = blogc_content_parse_inline(src + start_link);
+            tmp2 = blogc_content_parse_inline_internal(src + start_link,
+                src_len - start_link);
             bc_string_append_c(rv, '[');
             bc_string_append_escaped(rv, tmp2);  // no need to free, as it wil be done below.
             break;
-- 
2.43.0


From d65136a7b2480ba63a43500baae6ea1eeeb344d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:18 +0000
Subject: [PATCH 11/39] fix: content-parser: handle contents with mixed line
 endings

---
 src/blogc/content-parser.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/blogc/content-parser.c b/src/blogc/content-parser.c
index 320b26b..1f7b272 100644
--- a/src/blogc/content-parser.c
+++ b/src/blogc/content-parser.c
@@ -731,6 +731,7 @@ blogc_content_parse(const char *src, size_t *end_excerpt, char **first_header,
         bool is_last = current == src_len - 1;
 
         if (c == '\n' || c == '\r') {
+            real_end = 0;
             if ((current + 1) < src_len) {
                 if ((c == '\n' && src[current + 1] == '\r') ||
                     (c == '\r' && src[current + 1] == '\n'))
-- 
2.43.0


From efba4a5702ebbfd265875cd263c8404c721da5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:18 +0000
Subject: [PATCH 12/39] fix: filelist-parser: own the memory of the listed
 names

---
 src/blogc/filelist-parser.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/blogc/filelist-parser.c b/src/blogc/filelist-parser.c
index 1ffe0ad..0683a53 100644
--- a/src/blogc/filelist-parser.c
+++ b/src/blogc/filelist-parser.c
@@ -42,8 +42,8 @@ blogc_filelist_parse(const char *src, size_t src_len)
                 if (c == '\r' || c == '\n' || is_last) {
                     if (is_last && c != '\r' && c != '\n')
                         bc_string_append_c(line, c);
-                    rv = bc_slist_append(rv, bc_str_strip(line->str));
-                    bc_string_free(line, false);
+                    rv = bc_slist_append(rv, bc_strdup(bc_str_strip(line->str)));
+                    bc_string_free(line, true);
                     line = bc_string_new();
                     state = LINE_START;
                     break;
-- 
2.43.0


From 9494ed0a257d840d78408d3c1e84c635c4e2ddc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:40 +0000
Subject: [PATCH 13/39] fix: content-parser: do not drop escaped backslashes
 after an unfinished link

---
 src/blogc/content-parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/blogc/content-parser.c b/src/blogc/content-parser.c
index 1f7b272..006497f 100644
--- a/src/blogc/content-parser.c
+++ b/src/blogc/content-parser.c
@@ -608,7 +608,7 @@ blogc_content_parse_inline_internal(const char *src, size_t src_len)
             tmp2 = blogc_content_parse_inline_internal(src + start_link,
                 src_len - start_link);
             bc_string_append_c(rv, '[');
-            bc_string_append_escaped(rv, tmp2);  // no need to free, as it wil be done below.
+            bc_string_append(rv, tmp2);  // no need to free, as it wil be done below.
             break;
 
         // add all the other states here explicitly, so the compiler helps us
-- 
2.43.0


From 26268042f2fa3914a59b474189f2c3a05f132c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:40 +0000
Subject: [PATCH 14/39] fix: content-parser: keep the delimiters a text ends
 with

---
 src/blogc/content-parser.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/blogc/content-parser.c b/src/blogc/content-parser.c
index 006497f..fe3f0ec 100644
--- a/src/blogc/content-parser.c
+++ b/src/blogc/content-parser.c
@@ -611,17 +611,27 @@ blogc_content_parse_inline_internal(const char *src, size_t src_len)
             bc_string_append(rv, tmp2);  // no need to free, as it wil be done below.
             break;
 
+        // a text may end with delimiters of an element that was not started
+        case CONTENT_INLINE_ASTERISK_DOUBLE:
+            bc_string_append(rv, "**");
+            break;
+        case CONTENT_INLINE_UNDERSCORE_DOUBLE:
+            bc_string_append(rv, "__");
+            break;
+        case CONTENT_INLINE_BACKTICKS_DOUBLE:
+            bc_string_append(rv, "``");
+            break;
+        case CONTENT_INLINE_LINK_AUTO:
+            bc_string_append(rv, "[[");
+            break;
+
         // add all the other states here explicitly, so the compiler helps us
         // not missing any new state that should be handled.
         case CONTENT_INLINE_START:
         case CONTENT_INLINE_ASTERISK:
-        case CONTENT_INLINE_ASTERISK_DOUBLE:
         case CONTENT_INLINE_UNDERSCORE:
-        case CONTENT_INLINE_UNDERSCORE_DOUBLE:
         case CONTENT_INLINE_BACKTICKS:
-        case CONTENT_INLINE_BACKTICKS_DOUBLE:
         case CONTENT_INLINE_LINK_START:
-        case CONTENT_INLINE_LINK_AUTO:
         case CONTENT_INLINE_ENDASH:
         case CONTENT_INLINE_EMDASH:
         case CONTENT_INLINE_LINE_BREAK_START:
-- 
2.43.0


From 569cda986c904dc4326eca9d72f8e0235b171867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:50 +0000
Subject: [PATCH 15/39] fix: template-parser: keep the text after the last '{'
 of a template

---
 src/blogc/template-parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/blogc/template-parser.c b/src/blogc/template-parser.c
index 08b5685..3c24597 100644
--- a/src/blogc/template-parser.c
+++ b/src/blogc/template-parser.c
@@ -141,7 +141,7 @@ blogc_template_parse(const char *src, size_t src_len, bc_error_t **err)
                     break;
                 }
                 state = TEMPLATE_START;
-                break;
+                continue;
 
             case TEMPLATE_BLOCK_START_WHITESPACE_CLEANER:
                 if (c == '-') {
-- 
2.43.0


From df88e7bc4313ea1ded33dc9287ef1be468b65312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:54 +0000
Subject: [PATCH 16/39] fix: template-parser: clean white space only next to
 the statement

---
 src/blogc/template-parser.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/blogc/template-parser.c b/src/blogc/template-parser.c
index 3c24597..8b46502 100644
--- a/src/blogc/template-parser.c
+++ b/src/blogc/template-parser.c
@@ -138,6 +138,8 @@ blogc_template_parse(const char *src, size_t src_len, bc_error_t **err)
                         previous = node;
                         node = NULL;
                     }
+                    else
+                        lstrip_next = false;
                     break;
                 }
                 state = TEMPLATE_START;
-- 
2.43.0


From 15baf21bb28a1def14885fd511c04bce6daa5626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:01 +0000
Subject: [PATCH 17/39] fix: renderer: do not read before an empty variable
 name

---
 src/blogc/renderer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/blogc/renderer.c b/src/blogc/renderer.c
index 4822294..f196031 100644
--- a/src/blogc/renderer.c
+++ b/src/blogc/renderer.c
@@ -109,7 +109,7 @@ blogc_format_variable(const char *name, bc_trie_t *global, bc_trie_t *local,
     long int len = -1;
 
     // just walk till the last '_'
-    for (i = last - 1; i > 0 && var[i] >= '0' && var[i] <= '9'; i--);
+    for (i = last > 0 ? last - 1 : 0; i > 0 && var[i] >= '0' && var[i] <= '9'; i--);
 
     if (var[i] == '_' && (i + 1) < last) {  // var ends with '_[0-9]+'
         char *endptr;
-- 
2.43.0


From 1f3ff5889ecd3a7e54df56edc68a969bc7686016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:04 +0000
Subject: [PATCH 18/39] fix: blogc: fail on -D values that are not valid UTF-8

---
 src/blogc/main.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/blogc/main.c b/src/blogc/main.c
index fb28ca1..88d3d44 100644
--- a/src/blogc/main.c
+++ b/src/blogc/main.c
@@ -200,6 +200,7 @@ main(int argc, char **argv)
                         if (!bc_utf8_validate((uint8_t*) tmp, strlen(tmp))) {
                             fprintf(stderr, "blogc: error: invalid value for "
                                 "-D (must be valid UTF-8 string): %s\n", tmp);
+                            rv = 1;
                             goto cleanup;
                         }
                         pieces = bc_str_split(tmp, '=', 2);
-- 
2.43.0


From 98b9565389058b972f013d250f906fc255500baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:08 +0000
Subject: [PATCH 19/39] fix: blogc: reject -D options without a key

---
 src/blogc/main.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/blogc/main.c b/src/blogc/main.c
index 88d3d44..6ea7e0e 100644
--- a/src/blogc/main.c
+++ b/src/blogc/main.c
@@ -211,6 +211,13 @@ main(int argc, char **argv)
                             rv = 1;
                             goto cleanup;
                         }
+                        if (pieces[0][0] == '\0') {
+                            fprintf(stderr, "blogc: error: invalid value for "
+                                "-D (configuration key is empty): %s\n", tmp);
+                            bc_strv_free(pieces);
+                            rv = 1;
+                            goto cleanup;
+                        }
                         for (size_t j = 0; pieces[0][j] != '\0'; j++) {
                             char c = pieces[0][j];
                             if (j == 0) {
-- 
2.43.0


From c225490c1b983add2d7fd30cbebf5313b9e9a842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:11 +0000
Subject: [PATCH 20/39] fix: loader: sort sources whose dates are decades apart

---
 src/blogc/loader.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/blogc/loader.c b/src/blogc/loader.c
index 4006084..b2782cf 100644
--- a/src/blogc/loader.c
+++ b/src/blogc/loader.c
@@ -116,10 +116,10 @@ sort_source(const void *a, const void *b)
         return 0;  // wat
     }
 
-    unsigned long la = strtoul(ca, NULL, 10);
-    unsigned long lb = strtoul(cb, NULL, 10);
+    long long la = strtoll(ca, NULL, 10);
+    long long lb = strtoll(cb, NULL, 10);
 
-    return (int) (lb - la);
+    return (lb > la) - (lb < la);
 }
 
 
-- 
2.43.0


From 8a9bf05882d5ba10e36211fddfe8390453ef2b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:08 +0000
Subject: [PATCH 21/39] fix: loader: count pages exactly, and with no sources
 per page

---
 src/blogc/loader.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/blogc/loader.c b/src/blogc/loader.c
index b2782cf..a674a06 100644
--- a/src/blogc/loader.c
+++ b/src/blogc/loader.c
@@ -1,9 +1,9 @@
 // SPDX-FileCopyrightText: 2014-2024 Rafael G. Martins <rafael@rafaelmartins.eng.br>
 // SPDX-License-Identifier: BSD-3-Clause
 
-#include <math.h>
 #include <stdbool.h>
 #include <stddef.h>
+#include <stdint.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -233,8 +233,10 @@ blogc_source_parse_from_files(bc_trie_t *conf, bc_slist_t *l, bc_error_t **err)
         per_page = 0;
 
     // poor man's pagination
-    size_t start = (page - 1) * per_page;
-    size_t end = start + per_page;
+    size_t start = SIZE_MAX;
+    if (per_page == 0 || (size_t) (page - 1) <= SIZE_MAX / per_page)
+        start = (size_t) (page - 1) * per_page;
+    size_t end = per_page <= SIZE_MAX - start ? start + per_page : SIZE_MAX;
     size_t counter = 0;
 
     bc_slist_t *rv = NULL;
@@ -297,16 +299,18 @@ blogc_source_parse_from_files(bc_trie_t *conf, bc_slist_t *l, bc_error_t **err)
     }
 
     if (filter_page != NULL) {
-        size_t last_page = ceilf(((float) counter) / per_page);
+        size_t last_page = 0;
+        if (per_page > 0)
+            last_page = counter / per_page + (counter % per_page != 0);
         bc_trie_insert(conf, "CURRENT_PAGE", bc_strdup_printf("%ld", page));
         if (page > 1)
             bc_trie_insert(conf, "PREVIOUS_PAGE", bc_strdup_printf("%ld", page - 1));
-        if (page < last_page)
+        if ((size_t) page < last_page)
             bc_trie_insert(conf, "NEXT_PAGE", bc_strdup_printf("%ld", page + 1));
         if (bc_slist_length(rv) > 0)
             bc_trie_insert(conf, "FIRST_PAGE", bc_strdup("1"));
         if (last_page > 0)
-            bc_trie_insert(conf, "LAST_PAGE", bc_strdup_printf("%d", last_page));
+            bc_trie_insert(conf, "LAST_PAGE", bc_strdup_printf("%zu", last_page));
     }
 
     return rv;
-- 
2.43.0


From f7679bf472ccc6baed54c83a818e2e35c15ccfdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:28 +0000
Subject: [PATCH 22/39] fix: source-parser: keep contents with a single
 character

---
 src/blogc/source-parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/blogc/source-parser.c b/src/blogc/source-parser.c
index b6154bc..fc7e539 100644
--- a/src/blogc/source-parser.c
+++ b/src/blogc/source-parser.c
@@ -142,7 +142,7 @@ blogc_source_parse(const char *src, size_t src_len, int toctree_maxdepth,
                     break;
                 start = current;
                 state = SOURCE_CONTENT;
-                break;
+                continue;
 
             case SOURCE_CONTENT:
                 if (current == (src_len - 1)) {
-- 
2.43.0


From 40237833c7c850d65d9276de63e906d8919b38f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:32 +0000
Subject: [PATCH 23/39] fix: source-parser: report an incomplete configuration
 at the end of the source

---
 src/blogc/source-parser.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/blogc/source-parser.c b/src/blogc/source-parser.c
index fc7e539..c07b54d 100644
--- a/src/blogc/source-parser.c
+++ b/src/blogc/source-parser.c
@@ -215,13 +215,15 @@ blogc_source_parse(const char *src, size_t src_len, int toctree_maxdepth,
         current++;
     }
 
-    if (*err == NULL && bc_trie_size(rv) == 0) {
+    if (*err == NULL) {
 
-        // ok, nothing found in the config trie, but no error set either.
-        // let's try to be nice with the users and provide some reasonable
-        // output. :)
+        // ok, the source ended, but no error set either. let's try to be nice
+        // with the users and provide some reasonable output, if nothing was
+        // found or the last configuration is incomplete. :)
         switch (state) {
             case SOURCE_START:
+                if (bc_trie_size(rv) > 0)
+                    break;
                 *err = bc_error_parser(BLOGC_ERROR_SOURCE_PARSER, src, src_len,
                     current, "Your source file is empty.");
                 break;
-- 
2.43.0


From 806fe64518299aa14b3ce5c356f09bb9d568c58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:33 +0000
Subject: [PATCH 24/39] fix: config-parser: keep the white space after an
 escaped first character

---
 src/common/config-parser.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/common/config-parser.c b/src/common/config-parser.c
index 511d4ea..3dae9b1 100644
--- a/src/common/config-parser.c
+++ b/src/common/config-parser.c
@@ -82,6 +82,10 @@ bc_config_parse(const char *src, size_t src_len, const char *list_sections[],
         if (escaped) {
             bc_string_append_c(value, c);
             escaped = false;
+            if (state == CONFIG_SECTION_VALUE_START)
+                state = CONFIG_SECTION_VALUE;
+            else if (state == CONFIG_SECTION_LIST_START)
+                state = CONFIG_SECTION_LIST;
             current++;
             continue;
         }
-- 
2.43.0


From 3b205cbffcf8986bc42d24d4046fbacd437ef0b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:36 +0000
Subject: [PATCH 25/39] fix: config-parser: reject anything after quotes at the
 end of the file

---
 src/common/config-parser.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common/config-parser.c b/src/common/config-parser.c
index 3dae9b1..cfaca6f 100644
--- a/src/common/config-parser.c
+++ b/src/common/config-parser.c
@@ -227,7 +227,7 @@ bc_config_parse(const char *src, size_t src_len, const char *list_sections[],
             case CONFIG_SECTION_VALUE_POST_QUOTED:
                 if (c == ' ' || c == '\t' || c == '\f' || c == '\v')
                     break;
-                if (c == '\r' || c == '\n' || is_last) {
+                if (c == '\r' || c == '\n') {
                     state = CONFIG_START;
                     break;
                 }
@@ -278,7 +278,7 @@ bc_config_parse(const char *src, size_t src_len, const char *list_sections[],
             case CONFIG_SECTION_LIST_POST_QUOTED:
                 if (c == ' ' || c == '\t' || c == '\f' || c == '\v')
                     break;
-                if (c == '\r' || c == '\n' || is_last) {
+                if (c == '\r' || c == '\n') {
                     state = CONFIG_START;
                     break;
                 }
-- 
2.43.0


From 2678180d09bfa94ba0f8467839e1ad342957cf31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:40 +0000
Subject: [PATCH 26/39] fix: config-parser: keep a last value that ends with an
 escape or white space

---
 src/common/config-parser.c | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/common/config-parser.c b/src/common/config-parser.c
index cfaca6f..4853897 100644
--- a/src/common/config-parser.c
+++ b/src/common/config-parser.c
@@ -313,6 +313,25 @@ bc_config_parse(const char *src, size_t src_len, const char *list_sections[],
         current++;
     }
 
+    // the last line may have no line ending
+    if (*err == NULL) {
+        switch (state) {
+            case CONFIG_SECTION_VALUE_START:
+            case CONFIG_SECTION_VALUE:
+                if (key != NULL)
+                    bc_trie_insert(section->data, bc_str_strip(key),
+                        bc_strdup(bc_str_rstrip(value->str)));
+                break;
+            case CONFIG_SECTION_LIST:
+                if (value != NULL)
+                    section->data = bc_slist_append(section->data,
+                        bc_strdup(bc_str_strip(value->str)));
+                break;
+            default:
+                break;
+        }
+    }
+
     free(section_name);
     free(key);
     bc_string_free(value, true);
-- 
2.43.0


From ac2e5b7201cbde76a32798118d76be9bce9346bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:43 +0000
Subject: [PATCH 27/39] fix: config-parser: report a missing closing quote

---
 src/common/config-parser.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/common/config-parser.c b/src/common/config-parser.c
index 4853897..0737dea 100644
--- a/src/common/config-parser.c
+++ b/src/common/config-parser.c
@@ -322,6 +322,13 @@ bc_config_parse(const char *src, size_t src_len, const char *list_sections[],
                     bc_trie_insert(section->data, bc_str_strip(key),
                         bc_strdup(bc_str_rstrip(value->str)));
                 break;
+            case CONFIG_SECTION_VALUE_QUOTE:
+            case CONFIG_SECTION_LIST_QUOTE:
+                *err = bc_error_parser(BC_ERROR_CONFIG_PARSER, src, src_len,
+                    current, "Missing closing quote.");
+                bc_config_free(rv);
+                rv = NULL;
+                break;
             case CONFIG_SECTION_LIST:
                 if (value != NULL)
                     section->data = bc_slist_append(section->data,
-- 
2.43.0


From 280ceeeb2bcb71786f9f4a071bffc43f4ca1f617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:47 +0000
Subject: [PATCH 28/39] fix: blogc-make: quote the tags passed to blogc

---
 src/blogc-make/exec.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/blogc-make/exec.c b/src/blogc-make/exec.c
index 4dd6f8b..9479b62 100644
--- a/src/blogc-make/exec.c
+++ b/src/blogc-make/exec.c
@@ -240,7 +240,9 @@ bm_exec_build_blogc_cmd(const char *blogc_bin, bm_settings_t *settings,
     if (settings != NULL) {
         if (settings->tags != NULL) {
             char *tags = bc_strv_join(settings->tags, " ");
-            bc_string_append_printf(rv, " -D MAKE_TAGS='%s'", tags);
+            char *tmp = bc_shell_quote(tags);
+            bc_string_append_printf(rv, " -D MAKE_TAGS=%s", tmp);
+            free(tmp);
             free(tags);
         }
 
-- 
2.43.0


From 6510b6256a207e77b829eb7549842a03104a5495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:50 +0000
Subject: [PATCH 29/39] fix: blogc: fail when the output can not be written

---
 src/blogc/main.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/blogc/main.c b/src/blogc/main.c
index 6ea7e0e..1c6c86a 100644
--- a/src/blogc/main.c
+++ b/src/blogc/main.c
@@ -371,11 +371,13 @@ main(int argc, char **argv)
         }
     }
 
-    if (out != NULL)
-        fprintf(fp, "%s", out);
-
-    if (!write_to_stdout)
-        fclose(fp);
+    bool write_error = out != NULL && fprintf(fp, "%s", out) < 0;
+    write_error = (write_to_stdout ? fflush(fp) : fclose(fp)) != 0 || write_error;
+    if (write_error) {
+        fprintf(stderr, "blogc: error: failed to write output file (%s): %s\n",
+            write_to_stdout ? "-" : output, strerror(errno));
+        rv = 1;
+    }
 
 cleanup4:
     free(out);
-- 
2.43.0


From a546e58a482dc4cfc74b5bff6778d845a183514a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:09 +0000
Subject: [PATCH 30/39] fix: blogc-git-receiver: quote the mirror passed to git

---
 src/blogc-git-receiver/post-receive.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/blogc-git-receiver/post-receive.c b/src/blogc-git-receiver/post-receive.c
index 7e56b85..98d3597 100644
--- a/src/blogc-git-receiver/post-receive.c
+++ b/src/blogc-git-receiver/post-receive.c
@@ -71,7 +71,9 @@ bgr_post_receive_hook(int argc, char *argv[])
 push:
 
     {
-        char *git_cmd = bc_strdup_printf("git push --mirror %s", mirror);
+        char *tmp = bc_shell_quote(mirror);
+        char *git_cmd = bc_strdup_printf("git push --mirror %s", tmp);
+        free(tmp);
         if (0 != system(git_cmd))
             fprintf(stderr, "warning: failed push to git mirror\n");
         free(git_cmd);
-- 
2.43.0


From ff890b8dc01ee13866a558a7dfe75f9b920e40ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:49 +0000
Subject: [PATCH 31/39] fix: renderer: do not expose local variables to
 listing_once blocks

---
 src/blogc/renderer.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/blogc/renderer.c b/src/blogc/renderer.c
index f196031..bb66325 100644
--- a/src/blogc/renderer.c
+++ b/src/blogc/renderer.c
@@ -294,6 +294,8 @@ blogc_render(bc_slist_t *tmpl, bc_slist_t *sources, bc_slist_t *listing_entries,
                         break;
                     }
                 }
+                if (0 == strcmp("listing_once", node->data[0]))
+                    tmp_source = NULL;
                 if (0 == strcmp("listing_empty", node->data[0])) {
                     if (sources != NULL) {
 
-- 
2.43.0


From ee11566c916ca08d222843ef439e0795e9417929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:52 +0000
Subject: [PATCH 32/39] fix: blogc-runserver: do not crash on a -m without a
 value

---
 src/blogc-runserver/main.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/blogc-runserver/main.c b/src/blogc-runserver/main.c
index 8abd83a..7f7c9e9 100644
--- a/src/blogc-runserver/main.c
+++ b/src/blogc-runserver/main.c
@@ -92,8 +92,10 @@ main(int argc, char **argv)
                 case 'm':
                     if (argv[i][2] != '\0')
                         ptr = argv[i] + 2;
-                    else
+                    else if (i + 1 < argc)
                         ptr = argv[++i];
+                    else
+                        ptr = "";
                     max_threads = strtoul(ptr, &endptr, 10);
                     if (*ptr != '\0' && *endptr != '\0')
                         fprintf(stderr, "blogc-runserver: warning: invalid value "
-- 
2.43.0


From 6792aa722373d535b613c2c02320d65f21852790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:21 +0000
Subject: [PATCH 33/39] fix: template-parser: reject invalid variable names in
 'if' operands

---
 src/blogc/template-parser.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/blogc/template-parser.c b/src/blogc/template-parser.c
index 8b46502..823130b 100644
--- a/src/blogc/template-parser.c
+++ b/src/blogc/template-parser.c
@@ -476,8 +476,15 @@ blogc_template_parse(const char *src, size_t src_len, bc_error_t **err)
            case TEMPLATE_BLOCK_IF_VARIABLE_OPERAND:
                 if ((c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '_')
                     break;
-                state = TEMPLATE_BLOCK_END_WHITESPACE_CLEANER;
-                end2 = current;
+                if (bc_isspace(c)) {
+                    state = TEMPLATE_BLOCK_END_WHITESPACE_CLEANER;
+                    end2 = current;
+                    break;
+                }
+                *err = bc_error_parser(BLOGC_ERROR_TEMPLATE_PARSER, src,
+                    src_len, current,
+                    "Invalid variable name. Must be uppercase letter, number "
+                    "or '_'.");
                 break;
 
             case TEMPLATE_BLOCK_FOREACH_START:
-- 
2.43.0


From c1decf8e904ea32d9d44522a829dc972668c6b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:25 +0000
Subject: [PATCH 34/39] fix: template-parser: reject templates that end inside
 of a statement

---
 src/blogc/template-parser.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/blogc/template-parser.c b/src/blogc/template-parser.c
index 823130b..8c2e0bc 100644
--- a/src/blogc/template-parser.c
+++ b/src/blogc/template-parser.c
@@ -668,6 +668,9 @@ blogc_template_parse(const char *src, size_t src_len, bc_error_t **err)
         else if (foreach_open)
             *err = bc_error_new(BLOGC_ERROR_TEMPLATE_PARSER,
                 "An open 'foreach' statement was not closed!");
+        else if (state != TEMPLATE_START && state != TEMPLATE_OPEN_BRACKET)
+            *err = bc_error_parser(BLOGC_ERROR_TEMPLATE_PARSER, src, src_len,
+                current, "Found an open statement or variable.");
     }
 
     if (*err != NULL) {
-- 
2.43.0


From d1efb8241a76f5b72914591e9c6fed7f5ff9f22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:51 +0000
Subject: [PATCH 35/39] fix: renderer: do not expose local variables to
 listing_empty blocks

---
 src/blogc/renderer.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/blogc/renderer.c b/src/blogc/renderer.c
index bb66325..b1d5d82 100644
--- a/src/blogc/renderer.c
+++ b/src/blogc/renderer.c
@@ -294,8 +294,11 @@ blogc_render(bc_slist_t *tmpl, bc_slist_t *sources, bc_slist_t *listing_entries,
                         break;
                     }
                 }
-                if (0 == strcmp("listing_once", node->data[0]))
+                if ((0 == strcmp("listing_empty", node->data[0])) ||
+                    (0 == strcmp("listing_once", node->data[0])))
+                {
                     tmp_source = NULL;
+                }
                 if (0 == strcmp("listing_empty", node->data[0])) {
                     if (sources != NULL) {
 
-- 
2.43.0


From 5150d73ae31b016654f060023e861c3f5614b61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:53 +0000
Subject: [PATCH 36/39] fix: config-parser: reject section names that start
 with a new line

---
 src/common/config-parser.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/common/config-parser.c b/src/common/config-parser.c
index 0737dea..47be457 100644
--- a/src/common/config-parser.c
+++ b/src/common/config-parser.c
@@ -134,6 +134,8 @@ bc_config_parse(const char *src, size_t src_len, const char *list_sections[],
             case CONFIG_SECTION_START:
                 start = current;
                 state = CONFIG_SECTION;
+                if (c == '\r' || c == '\n')
+                    continue;
                 break;
 
             case CONFIG_SECTION:
-- 
2.43.0


From 9bea3385ea63f8d0cace86f8db18df4e398bdd41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:08 +0000
Subject: [PATCH 37/39] fix: blogc-make: do not use the file status after its
 scope ended

---
 src/blogc-make/ctx.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/blogc-make/ctx.c b/src/blogc-make/ctx.c
index 8bc7e64..ac091dc 100644
--- a/src/blogc-make/ctx.c
+++ b/src/blogc-make/ctx.c
@@ -37,9 +37,9 @@ bm_filectx_new(bm_ctx_t *ctx, const char *filename, const char *slug,
     rv->short_path = bc_strdup(filename);
     rv->slug = bc_strdup(slug);
 
-    if (st == NULL) {
-        struct stat buf;
+    struct stat buf;
 
+    if (st == NULL) {
         if (0 != stat(f, &buf)) {
             rv->tv_sec = 0;
             rv->tv_nsec = 0;
-- 
2.43.0


From c2017e330af042239a4685f7e016286ab3f01f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:16 +0000
Subject: [PATCH 38/39] fix: blogc-make: an unknown rule fails the build even
 when a later rule succeeds

---
 src/blogc-make/rules.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/blogc-make/rules.c b/src/blogc-make/rules.c
index f50ec75..745a393 100644
--- a/src/blogc-make/rules.c
+++ b/src/blogc-make/rules.c
@@ -954,9 +954,9 @@ bm_rule_executor(bm_ctx_t *ctx, bc_slist_t *rule_list)
                 continue;
             if (0 == strncmp(rule_str, rules[i].name, sep - rule_str)) {
                 rule = &(rules[i]);
-                rv = bm_rule_execute(ctx, rule, args);
-                if (rv != 0)
-                    return rv;
+                int rule_rv = bm_rule_execute(ctx, rule, args);
+                if (rule_rv != 0)
+                    return rule_rv;
                 break;
             }
         }
-- 
2.43.0


From e4a7fc48800f444e12658de786d9d9d6d00494d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:53:29 +0000
Subject: [PATCH 39/39] fix: blogc-make: refuse an empty key in the global
 section

---
 src/blogc-make/settings.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/blogc-make/settings.c b/src/blogc-make/settings.c
index 20bf3f8..e565175 100644
--- a/src/blogc-make/settings.c
+++ b/src/blogc-make/settings.c
@@ -115,7 +115,7 @@ bm_settings_parse(const char *content, size_t content_len, bc_error_t **err)
 
     if (global != NULL) {
         for (size_t i = 0; global[i] != NULL; i++) {
-            for (size_t j = 0; global[i][j] != '\0'; j++) {
+            for (size_t j = 0; j == 0 || global[i][j] != '\0'; j++) {
                 if (j == 0) {
                     if (!(global[i][j] >= 'A' && global[i][j] <= 'Z')) {
                         *err = bc_error_new_printf(BLOGC_MAKE_ERROR_SETTINGS,
-- 
2.43.0

