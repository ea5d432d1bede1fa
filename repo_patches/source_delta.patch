From 28173d2ebac19b80247ee160b7c4f0cef4ced18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:32 +0000
Subject: [PATCH 01/48] fix: unregister exactly one file descriptor in
 gl_unregfd

---
 cligen_getline.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cligen_getline.c b/cligen_getline.c
index 5ffbf1c..0ed5182 100644
--- a/cligen_getline.c
+++ b/cligen_getline.c
@@ -320,7 +320,7 @@ gl_unregfd(int fd)
     for (i = 0; i < nextfds; i++) {
         if (extfds[i].fd == fd) {
             if (i+1 < nextfds)
-                memcpy(&extfds[i], &extfds[i+1], nextfds-i);
+                memmove(&extfds[i], &extfds[i+1], (nextfds-i-1) * sizeof(*extfds));
             extfds = realloc(extfds, (nextfds-1) * sizeof(*extfds));
             nextfds--;
             return 0;
-- 
2.43.0


From e954cf9b71df7b329721df58fe694e55aba1e543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:32 +0000
Subject: [PATCH 02/48] fix: stay within the table of exit characters

---
 cligen_getline.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cligen_getline.c b/cligen_getline.c
index 0ed5182..7b079d9 100644
--- a/cligen_getline.c
+++ b/cligen_getline.c
@@ -366,7 +366,7 @@ gl_exitchar_add(char c)
 {
     int i;
 
-    for (i=0;sizeof(exitchars);i++)
+    for (i=0; i < (int)(sizeof(exitchars)/sizeof(exitchars[0])); i++)
         if (!exitchars[i]){
             exitchars[i] = c;
             break;
@@ -379,7 +379,7 @@ gl_exitchar(char c)
 {
     int i;
 
-    for (i=0;sizeof(exitchars);i++){
+    for (i=0; i < (int)(sizeof(exitchars)/sizeof(exitchars[0])); i++){
         if (!exitchars[i])
             break;
         if (exitchars[i] == c)
-- 
2.43.0


From a2bb07c3487a539e472f0be053a00aad2523525c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:05 +0000
Subject: [PATCH 03/48] fix: a range given as an upper limit only has no lower
 bound

---
 cligen_cv.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cligen_cv.c b/cligen_cv.c
index 8089e23..fbd72c0 100644
--- a/cligen_cv.c
+++ b/cligen_cv.c
@@ -3151,10 +3151,11 @@ cv_parse(const char *str,
  * @param[in] type   Numeric type string, eg "int32"
  * @retval    1      i is in [low,upper]
  * @retval    0      i is outside [low,upper]
+ * @note an empty lower bound (eg range[40]) means no lower limit
  * @note need to use macro trick ## to fix different types
 */
 #define range_check(i, cvlow, cvupp, type)       \
-    (((i) >= cv_##type##_get(cvlow)) && \
+    ((cv_type_get(cvlow) == CGV_EMPTY || (i) >= cv_##type##_get(cvlow)) && \
      ((i) <= cv_##type##_get(cvupp)))
 
 /*! Error messsage for int violating ranges */
-- 
2.43.0


From d8d7c1ebc3f14055b33c9c57cc77a3f58d5fb46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:05 +0000
Subject: [PATCH 04/48] fix: reject index one past the end in pt_vec_i_get

---
 cligen_parsetree.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cligen_parsetree.c b/cligen_parsetree.c
index f614586..a4422a6 100644
--- a/cligen_parsetree.c
+++ b/cligen_parsetree.c
@@ -135,7 +135,7 @@ pt_vec_i_get(parse_tree *pt,
              int         i)
 {
     struct cg_obj **ptvec;
-    if (pt == NULL || i<0 || i>pt->pt_len){
+    if (pt == NULL || i<0 || i>=pt->pt_len){
        errno = EINVAL;
        return NULL;
     }
-- 
2.43.0


From b014006a486c92d49b753fa9f3c13498bb0f5681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:38 +0000
Subject: [PATCH 05/48] fix: common extension on completion disregards case
 when case is ignored

---
 cligen_match.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/cligen_match.c b/cligen_match.c
index a41fcf3..c42cff2 100644
--- a/cligen_match.c
+++ b/cligen_match.c
@@ -1341,9 +1341,14 @@ match_complete(cligen_handle h,
             else{
                 equal = 0;
                 len = MIN(strlen(command1), strlen(command));
-                for (j=0; j<len; j++)
-                    if (command1[j] != command[j])
-                        break;
+                for (j=0; j<len; j++){
+                    if (command1[j] == command[j])
+                        continue;
+                    if (cligen_caseignore_get(h) &&
+                        tolower((unsigned char)command1[j]) == tolower((unsigned char)command[j]))
+                        continue;
+                    break;
+                }
                 minmatch = MIN(minmatch, j);
             }
         }
-- 
2.43.0


From b5ed673888d46008125b260ecdd05ec36089038d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:38 +0000
Subject: [PATCH 06/48] fix: make room for the completed word, its delimiter
 and the text right of the cursor

---
 cligen_match.c | 2 +-
 cligen_read.c  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cligen_match.c b/cligen_match.c
index c42cff2..e6c976e 100644
--- a/cligen_match.c
+++ b/cligen_match.c
@@ -1357,7 +1357,7 @@ match_complete(cligen_handle h,
         retval = 0;
         goto done;
     }
-    while (strlen(*stringp) + minmatch - slen >= *slenp){
+    while (strlen(*stringp) + minmatch - slen + 1 >= *slenp){ /* +1: delimiter */
         *slenp *= 2;
         if ((*stringp = realloc(*stringp, *slenp)) == NULL)
             goto done;
diff --git a/cligen_read.c b/cligen_read.c
index b139cb5..f35ca1f 100644
--- a/cligen_read.c
+++ b/cligen_read.c
@@ -546,7 +546,7 @@ cli_complete(cligen_handle h,
         cligen_buf_increase(h, strlen(s));
         string = cligen_buf(h);
         n = strlen(string) - cursor; /* Nr of chars right of cursor to copy */
-        cligen_buf_increase(h, strlen(string)+cursor+n);
+        cligen_buf_increase(h, strlen(string)+extra);
         string = cligen_buf(h);
         for (i=cursor+n; i>=cursor; i--)             /* Copy right of cursor */
             string[i + extra] = string[i];
-- 
2.43.0


From bebad393eb4601d084e8d499cad296e9dcb73da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:12 +0000
Subject: [PATCH 07/48] fix: an object equal to a sibling is merged with it
 wherever the sibling stands

---
 cligen_object.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/cligen_object.c b/cligen_object.c
index 552c2ee..c519bed 100644
--- a/cligen_object.c
+++ b/cligen_object.c
@@ -1154,8 +1154,18 @@ co_insert1(parse_tree *pt,
            int         recursive)
 {
     int     pos;
+    int     i;
     cg_obj *co2;
 
+    /* Variables are ordered by type among themselves but by name among commands: an equal
+     * object may therefore be at another position than the one the search below finds */
+    for (i=0; co1 != NULL && i<pt_len_get(pt); i++){
+        if ((co2 = pt_vec_i_get(pt, i)) != NULL && co_eq(co1, co2)==0){
+            cligen_parsetree_merge(co_pt_get(co2), co2, co_pt_get(co1));
+            co_free(co1, recursive);
+            return co2;
+        }
+    }
     /* find closest to co in parsetree, insert after pos. */
     pos = co_insert_pos(pt, co1, 0, pt_len_get(pt));
     /* check if exists */
-- 
2.43.0


From 8d451fac9bd709726e0d951558f73f46b16ca696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:43 +0000
Subject: [PATCH 08/48] fix: adding an alias looks for commands of that name
 only

---
 cligen_syntax.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/cligen_syntax.c b/cligen_syntax.c
index d5c0464..7695813 100644
--- a/cligen_syntax.c
+++ b/cligen_syntax.c
@@ -464,7 +464,7 @@ cligen_alias_add(cligen_handle  h,
     for (i=0; i<pt_len_get(pt); i++){
         if ((co = pt_vec_i_get(pt, i)) == NULL)
             continue;
-        if (strcmp(co->co_command, name) != 0)
+        if (co->co_type != CO_COMMAND || strcmp(co->co_command, name) != 0)
             continue;
         if (co_flags_get(co, CO_FLAGS_ALIAS) == 0){
             errno = EEXIST;
@@ -483,7 +483,14 @@ cligen_alias_add(cligen_handle  h,
         goto done;
     }
     /* Sanity check and add alias flag */
-    if ((co = co_find_one(pt, name)) == NULL){
+    co = NULL;
+    for (i=0; i<pt_len_get(pt); i++){
+        if ((co = pt_vec_i_get(pt, i)) != NULL &&
+            co->co_type == CO_COMMAND && strcmp(co->co_command, name) == 0)
+            break;
+        co = NULL;
+    }
+    if (co == NULL){
         errno = ENOENT;
         goto done;
     }
-- 
2.43.0


From 3ad137b20ec278e02189178b2bebeaaa8b8bd748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:15 +0000
Subject: [PATCH 09/48] fix: keep name and typed arguments of expand functions

---
 cligen_parse.y | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cligen_parse.y b/cligen_parse.y
index 2c531c7..3f14fcf 100644
--- a/cligen_parse.y
+++ b/cligen_parse.y
@@ -398,12 +398,13 @@ cgy_callback_arg(cligen_yacc *cy,
  */
 static int
 expand_arg(cligen_yacc *cy,
+           char        *type,
            char        *arg)
 {
    int      retval = -1;
     cg_var *cv = NULL;
 
-    if ((cv = create_cv(cy, "string", arg)) == NULL)
+    if ((cv = create_cv(cy, type, arg)) == NULL)
         goto done;
     if (cy->cy_var->co_expand_fn_vec)
         cvec_append_var(cy->cy_var->co_expand_fn_vec, cv);
@@ -1499,11 +1500,11 @@ exparglist : exparglist ',' exparg
            ;
 
 exparg     : DQ DQ
-           | DQ charseq DQ { expand_arg(_cy, $2); free($2); }
+           | DQ charseq DQ { expand_arg(_cy, "string", $2); free($2); }
            ;
 
 exparg     : typecast arg1 {
-                    if ($2 && cgy_callback_arg(_cy, $1, $2) < 0) _YYERROR("exparg");
+                    if ($2 && expand_arg(_cy, $1, $2) < 0) _YYERROR("exparg");
                     if ($1) free($1);
                     if ($2) free($2);
               }
-- 
2.43.0


From 728be68fd4e377acdd7a4df1a42e12ce49e531b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:32 +0000
Subject: [PATCH 10/48] fix: a pipe function that does not read all output ends
 the pipe, not the program

---
 cligen_io.c   | 4 +++-
 cligen_read.c | 2 ++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/cligen_io.c b/cligen_io.c
index c6a2e6e..79c04fc 100644
--- a/cligen_io.c
+++ b/cligen_io.c
@@ -290,7 +290,9 @@ cligen_output(FILE       *f,
     if (cli_pipe_output_socket_get(&s) < 0)
         goto done;
     if (s != -1){
-        if (write(s, inbuf, inbuflen) < 0){
+        /* A pipe function may end without reading all output: the rest is dropped */
+        if (send(s, inbuf, inbuflen, MSG_NOSIGNAL) < 0 &&
+            errno != EPIPE && errno != ECONNRESET){
             perror("cligen_output write on pipe socket");
             close(s);
             cli_pipe_output_socket_set(-1);
diff --git a/cligen_read.c b/cligen_read.c
index f35ca1f..27cba99 100644
--- a/cligen_read.c
+++ b/cligen_read.c
@@ -940,6 +940,8 @@ cligen_eval_pipe_post(cligen_handle h,
         /* Read until EOF */
         while (ret != 0) {
             if ((len = read(s, buf, 4096)) < 0){
+                if (errno == ECONNRESET) /* Closed by peer with unread input */
+                    break;
                 perror("cli_pipe_exec_cb, read");
                 goto done;
             }
-- 
2.43.0


From a17aca83e117161c5fea522b5e975be436d46a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:44 +0000
Subject: [PATCH 11/48] fix: a failing command releases its output pipe

---
 cligen_read.c | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/cligen_read.c b/cligen_read.c
index 27cba99..6d24100 100644
--- a/cligen_read.c
+++ b/cligen_read.c
@@ -955,22 +955,21 @@ cligen_eval_pipe_post(cligen_handle h,
             if ((ret = cligen_eval_poll(s, CLI_PIPE_TIMEOUT_US)) < 0)
                 goto done;
         }
-        if (cli_pipe_output_socket_set(-1) < 0)
-            goto done;
     }
+    retval = 0;
+ done:
+    cli_pipe_output_socket_set(-1);
     kill(childpid, SIGTERM);
     /* On success, returns the process ID of the terminated child */
     if(waitpid(childpid, &status, 0) != childpid){
         perror("waitpid");
-        goto done;
+        return -1;
     }
-    retval = 0;
     if (WIFEXITED(status)){
         ret = WEXITSTATUS(status);
         if (ret != 0)
             retval = -1;
     }
- done:
     return retval;
 }
 
@@ -1058,13 +1057,11 @@ cligen_eval(cligen_handle h,
             cligen_fn_str_set(h, NULL);
         }
     }
-    if (childpid){
-        if (cligen_eval_pipe_post(h, spipe, childpid) < 0){
-            goto done;
-        }
-    }
     retval = 0;
  done:
+    if (childpid > 0) /* Also on error: otherwise later output is lost in the pipe */
+        if (cligen_eval_pipe_post(h, spipe, childpid) < 0)
+            retval = -1;
     if (spipe != -1)
         close(spipe);
     if (wh)
-- 
2.43.0


From f15a65838b210316b6959845480689819b763e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:34 +0000
Subject: [PATCH 12/48] fix: a command reached in several ways gets its
 callbacks once

---
 cligen_parse.y | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/cligen_parse.y b/cligen_parse.y
index 3f14fcf..d27f1dd 100644
--- a/cligen_parse.y
+++ b/cligen_parse.y
@@ -769,7 +769,21 @@ cgy_terminal(cligen_yacc *cy)
     int              retval = -1;
     parse_tree      *ptc;
     cg_obj          *coi;
+    struct cgy_list **clp;
+    struct cgy_list *cl1;
 
+    /* The same object may be reached in several ways, eg [a] [a]: terminate it once */
+    for (cl = cy->cy_list; cl; cl = cl->cl_next){
+        clp = &cl->cl_next;
+        while ((cl1 = *clp) != NULL){
+            if (cl1->cl_obj == cl->cl_obj){
+                *clp = cl1->cl_next;
+                free(cl1);
+            }
+            else
+                clp = &cl1->cl_next;
+        }
+    }
     for (cl = cy->cy_list; cl; cl = cl->cl_next){
         co  = cl->cl_obj;
         if (cy->cy_callbacks){ /* callbacks */
-- 
2.43.0


From d853bdd9eb63eb0eecfc0077fa832188008176ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:10 +0000
Subject: [PATCH 13/48] fix: labels removed at nested references accumulate

---
 cligen_expand.c | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/cligen_expand.c b/cligen_expand.c
index 298f32a..25b1fee 100644
--- a/cligen_expand.c
+++ b/cligen_expand.c
@@ -74,6 +74,30 @@
 #include "cligen_expand.h"
 #include "cligen_syntax.h"
 
+/*! Add filters to the ones an expanded object already has
+ *
+ * @param[in]  con         Expanded object
+ * @param[in]  cvv_filter  Filters to add
+ * @retval     0           OK
+ * @retval    -1           Error
+ */
+static int
+co_filter_merge(cg_obj *con,
+                cvec   *cvv_filter)
+{
+    cg_var *cv = NULL;
+
+    if (con->co_filter == NULL)
+        return co_filter_set(con, cvv_filter) == NULL ? -1 : 0;
+    while ((cv = cvec_each(cvv_filter, cv)) != NULL) {
+        if (cv_name_get(cv) && cvec_find(con->co_filter, cv_name_get(cv)) != NULL)
+            continue;
+        if (cvec_append_var(con->co_filter, cv) == NULL)
+            return -1;
+    }
+    return 0;
+}
+
 /*! Copy and expand a cligen object.
  *
  * This object could actually give rise to several if it is a variable
@@ -577,7 +601,7 @@ pt_expand_fn(cligen_handle h,
         if (pt_vec_append(ptn, con) < 0)
             goto done;
         if (cvv_filter && cvec_len(cvv_filter))
-            if (co_filter_set(con, cvv_filter) == NULL)
+            if (co_filter_merge(con, cvv_filter) < 0)
                 goto done;
         value = cv_string_get(cv);
         if ((cmd = strdup(value)) == NULL)
@@ -631,7 +655,7 @@ pt_expand_choice(cg_obj       *co,
                 goto done;
             if (transform_var_to_cmd(con, strdup(c), NULL) < 0)
                 goto done;
-            if (cvv_filter && co_filter_set(con, cvv_filter) == NULL)
+            if (cvv_filter && co_filter_merge(con, cvv_filter) < 0)
                 goto done;
             /* con may be deleted in the call and need to be replaced */
             if (co_insert1(ptn, con, 0) == NULL)
@@ -756,7 +780,7 @@ pt_expand1_co(cligen_handle h,
             con->co_ref = co->co_ref;
         }
         if (cvv_filter && cvec_len(cvv_filter))
-            if (co_filter_set(con, cvv_filter) == NULL)
+            if (co_filter_merge(con, cvv_filter) < 0)
                 goto done;
     }
  ok:
-- 
2.43.0


From 20c3c929018fd06de1039d5227af2a2f99e5caf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:29 +0000
Subject: [PATCH 14/48] fix: pass the reference's arguments when the referenced
 command has none

---
 cligen_match.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cligen_match.c b/cligen_match.c
index e6c976e..e29fd88 100644
--- a/cligen_match.c
+++ b/cligen_match.c
@@ -702,7 +702,11 @@ treeref_merge_co(cg_obj      *co,
             if ((cc->cc_fn_str = strdup(cc_ref->cc_fn_str)) == NULL)
                 goto done;
         }
-        if (cc_ref->cc_cvec){
+        if (cc_ref->cc_cvec && cc->cc_cvec == NULL){
+            if ((cc->cc_cvec = cvec_dup(cc_ref->cc_cvec)) == NULL)
+                goto done;
+        }
+        else if (cc_ref->cc_cvec){
             cv = NULL;
             while ((cv = cvec_each(cc_ref->cc_cvec, cv)) != NULL)
                 cvec_append_var(cc->cc_cvec, cv);
-- 
2.43.0


From f9e2c8a20c66641963f8a31ae6e4f5f7f7763582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:41 +0000
Subject: [PATCH 15/48] fix: a quoted alternative typed in full is an exact
 match

---
 cligen_match.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cligen_match.c b/cligen_match.c
index e29fd88..c56864d 100644
--- a/cligen_match.c
+++ b/cligen_match.c
@@ -173,8 +173,12 @@ match_object(cligen_handle h,
                   match = (strncasecmp(co->co_command+1, str, len) == 0);
               else
                   match = (strncmp(co->co_command+1, str, len) == 0);
-              if (exact)
-                  *exact = strlen(co->co_command+1) == len;
+              if (exact){ /* all of it, up to a closing quote */
+                  size_t clen = strlen(co->co_command+1);
+                  if (clen && co->co_command[clen] == '\"')
+                      clen--;
+                  *exact = clen == len;
+              }
           }
           else{
               if (cligen_caseignore_get(h))
-- 
2.43.0


From 0eb702def6c0441bfb5b239c05cf08a9f46d960a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:17 +0000
Subject: [PATCH 16/48] fix: expansion functions see each entered value once in
 help and step-wise completion

---
 cligen_read.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/cligen_read.c b/cligen_read.c
index 6d24100..254acaf 100644
--- a/cligen_read.c
+++ b/cligen_read.c
@@ -191,6 +191,9 @@ cli_tab_hook(cligen_handle h,
     /* Note, can change cligen buf pointer (append and increase) */
     do {
         prev_cursor = *cursorp;
+        cvec_free(cvv); /* each step matches the line from its start */
+        if ((cvv = cvec_start(cligen_buf(h))) == NULL)
+            goto done;
         if (cli_complete(h, cursorp, ptn, cvv) < 0) /* XXX expand-cleanup must be done here before show commands */
             goto done;
     } while (cligen_tabmode(h)&CLIGEN_TABMODE_STEPS && prev_cursor != *cursorp);
@@ -428,6 +431,7 @@ show_help_line(cligen_handle h,
     cvec         *cvr = NULL;      /* Rest variant,  eg remaining string in each step */
     cg_var       *cvlastt;         /* Last element in cvt */
     cg_var       *cvlastr;         /* Last element in cvr */
+    cvec         *cvv1 = NULL;     /* Variables of second matching */
     cligen_result result;
     match_result *mr = NULL;
 
@@ -472,8 +476,11 @@ show_help_line(cligen_handle h,
             cv_reset(cvlastr);
         cvec_del_i(cvr, cvec_len(cvr)-1);
 
+        /* cvv already holds the values of the first matching */
+        if ((cvv1 = cvec_start(string)) == NULL)
+            goto done;
         if (match_pattern_exact(h, cvt, cvr, pt,
-                                cvv,
+                                cvv1,
                                 NULL,
                                 &result,
                                 NULL) < 0)
@@ -495,6 +502,8 @@ show_help_line(cligen_handle h,
   done:
     if (cvt)
         cvec_free(cvt);
+    if (cvv1)
+        cvec_free(cvv1);
     if (cvr)
         cvec_free(cvr);
     if (mr){
-- 
2.43.0


From d556c27bde2cfa2b3d0f51a530f848c840d66421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:38 +0000
Subject: [PATCH 17/48] fix: choice alternatives of a referenced tree do not
 refer to freed objects

---
 cligen_expand.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cligen_expand.c b/cligen_expand.c
index 25b1fee..329f68b 100644
--- a/cligen_expand.c
+++ b/cligen_expand.c
@@ -632,6 +632,7 @@ pt_expand_fn(cligen_handle h,
  *
  * @param[in]  co         Original cligen object (to expand into ptn)
  * @param[in]  cvv_filter Add these to expanded nodes co_filter, eg remove them
+ * @param[in]  transient  co itself is temporary, refer to what it was made from
  * @param[out] ptn        New parse-tree initially an empty pointer, its value is returned.
  * @retval     0          OK
  * @retval    -1          Error
@@ -639,6 +640,7 @@ pt_expand_fn(cligen_handle h,
 static int
 pt_expand_choice(cg_obj       *co,
                  cvec         *cvv_filter,
+                 int           transient,
                  parse_tree   *ptn)
 {
     int     retval = -1;
@@ -653,6 +655,8 @@ pt_expand_choice(cg_obj       *co,
         while ((c = strsep(&ccmd, ",|")) != NULL){
             if (co_expand_sub(co, NULL, &con) < 0)
                 goto done;
+            if (transient && con->co_ref)
+                con->co_ref = co->co_ref; /* co is freed after expansion */
             if (transform_var_to_cmd(con, strdup(c), NULL) < 0)
                 goto done;
             if (cvv_filter && co_filter_merge(con, cvv_filter) < 0)
@@ -742,7 +746,7 @@ pt_expand1_co(cligen_handle h,
      * of the variable
      */
     if (co->co_type == CO_VARIABLE && co->co_choice != NULL){
-        if (pt_expand_choice(co, cvv_filter, ptn) < 0) // XXX filter
+        if (pt_expand_choice(co, cvv_filter, transient, ptn) < 0) // XXX filter
             goto done;
     }
     /* Expand variable - call expand callback and insert expanded
-- 
2.43.0


From f98fce1c3b0c8a67a70d6bdb7b6803143e26a740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:55 +0000
Subject: [PATCH 18/48] fix: no active tree is reported as such instead of
 crashing

---
 cligen_pt_head.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cligen_pt_head.c b/cligen_pt_head.c
index 8332552..1002a38 100644
--- a/cligen_pt_head.c
+++ b/cligen_pt_head.c
@@ -389,6 +389,8 @@ cligen_ph_i(cligen_handle h,
 /*! Get currently active parsetree.
  *
  * @param[in] h       CLIgen handle
+ * @retval    pt      Parse-tree
+ * @retval    NULL    No tree is active
  * @see cligen_ph_active_get  prefer to use that function instead
  */
 parse_tree *
@@ -396,7 +398,7 @@ cligen_pt_active_get(cligen_handle h)
 {
     pt_head *ph = cligen_pt_head_active_get(h);
 
-    return ph->ph_parsetree;
+    return ph ? ph->ph_parsetree : NULL;
 }
 
 /*! Get currently active parsetree head.
-- 
2.43.0


From 034e49d89f6df5145bbd3da6f461729ba473af56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:57 +0000
Subject: [PATCH 19/48] fix: an empty quoted word is validated like any other
 word

---
 cligen_match.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/cligen_match.c b/cligen_match.c
index c56864d..dee7609 100644
--- a/cligen_match.c
+++ b/cligen_match.c
@@ -155,7 +155,6 @@ match_object(cligen_handle h,
 {
   int          match = 0;
   size_t       len = 0;
-  enum cv_type t;
 
   if (str)
       len = strlen(str);
@@ -195,9 +194,8 @@ match_object(cligen_handle h,
       }
     break;
   case CO_VARIABLE:
-      t = co->co_vtype;
       if (str == NULL || len==0){
-          if (best && cv_isint(t)){
+          if (best && str != NULL){ /* an empty word is validated as any other */
               if ((match = match_variable(h, co, str, reason)) < 0)
                   return -1;
           }
-- 
2.43.0


From 055c40a3b35e6c1a27d24761483f114e9327b235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:57 +0000
Subject: [PATCH 20/48] fix: print the smallest decimal64 with a single minus
 sign

---
 cligen_cv.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cligen_cv.c b/cligen_cv.c
index fbd72c0..038a42c 100644
--- a/cligen_cv.c
+++ b/cligen_cv.c
@@ -2281,14 +2281,14 @@ cv_dec64_print(cg_var *cv,
     int      i;
     uint8_t  n = cv->var_dec64_n;;
     int      len;
-    int64_t di;
+    int64_t  di;
+    uint64_t u;
 
     assert(0<n && n<19);
     /* Convert negative numbers to positive and prepend a '-' at the end */
     di = cv_dec64_i_get(cv);
-    if (di<0)
-        di = -di;
-    len = snprintf(s0, *s0len, "%0*" PRId64, n+1, di);
+    u = di<0 ? -(uint64_t)di : (uint64_t)di;
+    len = snprintf(s0, *s0len, "%0*" PRIu64, n+1, u);
     assert(len>=n);
     *s0len -= len;
     /* Shift fraction digits right, including null character.
-- 
2.43.0


From 52932dee98b26760271c54d80415b6941aa1b2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:57 +0000
Subject: [PATCH 21/48] fix: a decimal64 needs a digit and only digits in its
 fraction

---
 cligen_cv.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/cligen_cv.c b/cligen_cv.c
index 038a42c..4aea616 100644
--- a/cligen_cv.c
+++ b/cligen_cv.c
@@ -1350,6 +1350,17 @@ parse_dec64(char    *str,
     s2 = s0;
     s1 = strsep(&s2, ".");
     len1 = strlen(s1);
+    /* At least one digit, and nothing but digits in the fraction */
+    if (strpbrk(str, "0123456789") == NULL ||
+        (s2 && s2[strspn(s2, "0123456789")] != '\0')){
+        if (reason != NULL)
+            if ((*reason = cligen_reason("'%s' is not a number", str)) == NULL){
+                retval = -1; /* malloc */
+                goto done;
+            }
+        retval = 0;
+        goto done;
+    }
     if ((ss = malloc(strlen(str)+n+2)) == NULL){
         retval = -1; /* malloc */
         goto done;
-- 
2.43.0


From 74e1961f6606c1f9bb2f170879644de7ab4449b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:18 +0000
Subject: [PATCH 22/48] fix: compare wide integers without truncating their
 difference

---
 cligen_cv.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cligen_cv.c b/cligen_cv.c
index 4aea616..773a246 100644
--- a/cligen_cv.c
+++ b/cligen_cv.c
@@ -3520,20 +3520,20 @@ cv_cmp(cg_var *cv1,
     case CGV_INT16:
         return (cv1->var_int16 - cv2->var_int16);
     case CGV_INT32:
-        return (cv1->var_int32 - cv2->var_int32);
+        return (cv1->var_int32 > cv2->var_int32) - (cv1->var_int32 < cv2->var_int32);
     case CGV_INT64:
-        return (cv1->var_int64 - cv2->var_int64);
+        return (cv1->var_int64 > cv2->var_int64) - (cv1->var_int64 < cv2->var_int64);
     case CGV_UINT8:
         return (cv1->var_uint8 - cv2->var_uint8);
     case CGV_UINT16:
         return (cv1->var_uint16 - cv2->var_uint16);
     case CGV_UINT32:
-        return (cv1->var_uint32 - cv2->var_uint32);
+        return (cv1->var_uint32 > cv2->var_uint32) - (cv1->var_uint32 < cv2->var_uint32);
     case CGV_UINT64:
-        return (cv1->var_uint64 - cv2->var_uint64);
+        return (cv1->var_uint64 > cv2->var_uint64) - (cv1->var_uint64 < cv2->var_uint64);
     case CGV_DEC64:
         /* XXX assume dec64_n are equal */
-        return (cv_dec64_i_get(cv1) - cv_dec64_i_get(cv2));
+        return (cv_dec64_i_get(cv1) > cv_dec64_i_get(cv2)) - (cv_dec64_i_get(cv1) < cv_dec64_i_get(cv2));
     case CGV_BOOL:
         return (cv1->var_bool - cv2->var_bool);
     case CGV_REST:
-- 
2.43.0


From 8da8eaa28f41ecf4b00f2a3315499166e539315a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:18 +0000
Subject: [PATCH 23/48] fix: decimals of different precision or range are
 different alternatives

---
 cligen_object.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cligen_object.c b/cligen_object.c
index c519bed..ff08d6b 100644
--- a/cligen_object.c
+++ b/cligen_object.c
@@ -975,7 +975,10 @@ co_eq(cg_obj *co1,
                 goto done;
         }
         /* Examine int and range */
-        if (cv_isint(co1->co_vtype) || cv_isstring(co1->co_vtype)) {
+        if (co1->co_vtype == CGV_DEC64 &&
+            (eq = co1->co_dec64_n - co2->co_dec64_n) != 0)
+            goto done;
+        if (cv_isint(co1->co_vtype) || cv_isstring(co1->co_vtype) || co1->co_vtype == CGV_DEC64) {
             int i;
             cg_var *cv1, *cv2;
             if ((eq = co1->co_rangelen - co2->co_rangelen) != 0)
-- 
2.43.0


From 397cff00627d5ad3c3ab5d54b5a8b45b31609b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:39 +0000
Subject: [PATCH 24/48] fix: a pattern and its inversion are different
 alternatives

---
 cligen_object.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cligen_object.c b/cligen_object.c
index ff08d6b..8644344 100644
--- a/cligen_object.c
+++ b/cligen_object.c
@@ -963,6 +963,9 @@ co_eq(cg_obj *co1,
                     cv2 = cvec_i(co2->co_regex, i);
                     if ((eq = str_cmp(cv_string_get(cv1), cv_string_get(cv2))) != 0)
                         goto done;
+                    /* Inverted or not */
+                    if ((eq = (cv_flag(cv1, V_INVERT)!=0) - (cv_flag(cv2, V_INVERT)!=0)) != 0)
+                        goto done;
                 }
                 if (cvec_len(co1->co_regex) < cvec_len(co2->co_regex))
                     eq = -1;
-- 
2.43.0


From 8fce3d08f3f6136939f783fdd541239c6a5ea2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:32 +0000
Subject: [PATCH 25/48] fix: continuation lines of a help text belong to that
 text only

---
 cligen_parse.y | 32 ++++++++++++--------------------
 1 file changed, 12 insertions(+), 20 deletions(-)

diff --git a/cligen_parse.y b/cligen_parse.y
index d27f1dd..63a4999 100644
--- a/cligen_parse.y
+++ b/cligen_parse.y
@@ -682,12 +682,10 @@ cgy_reference(cligen_yacc *cy,
 /*! Add one line of helpstr
  *
  * @param[in]  cy       CLIgen yacc parse struct
- * @param[in]  merge    OK to merge
  * @param[in]  helpstr  Malloced help string, stripped of spaces, consumed here
  */
 static int
 cgy_helpstring(cligen_yacc *cy,
-               int          merge,
                char        *helpstr)
 {
     int              retval = -1;
@@ -700,22 +698,12 @@ cgy_helpstring(cligen_yacc *cy,
     }
     for (cl = cy->cy_list; cl; cl = cl->cl_next){
         co = cl->cl_obj;
-        if (co->co_helpstring){
-            if (merge){
-                if ((co->co_helpstring = realloc(co->co_helpstring,
-                                                 strlen(co->co_helpstring) + strlen(helpstr) + 2)) == NULL){
-                    cligen_parseerror1(cy, "Allocating helpstr");
-                    goto done;
-                }
-                strcat(co->co_helpstring, "\n");
-                strcat(co->co_helpstring, helpstr);
-            }
+        if (co->co_helpstring)
+            continue;
+        if ((co->co_helpstring = strdup(helpstr)) == NULL){
+            cligen_parseerror1(cy, "Allocating helpstr");
+            goto done;
         }
-        else
-            if ((co->co_helpstring = strdup(helpstr)) == NULL){
-                cligen_parseerror1(cy, "Allocating helpstr");
-                goto done;
-            }
     }
     free(helpstr);
     retval = 0;
@@ -1383,19 +1371,23 @@ declcomp    : '(' { if (ctx_push(_cy, 0) < 0) _YYERROR("declcomp"); }
             ;
 
 decl        : cmd                 { _PARSE_DEBUG("decl->cmd");}
-            | cmd PDQ helpstring DQP { _PARSE_DEBUG("decl->cmd (\" helpstring \")");}
+            | cmd PDQ helpstring DQP { _PARSE_DEBUG("decl->cmd (\" helpstring \")");
+                                      if (cgy_helpstring(_cy, $3) < 0) _YYERROR("helpstring"); }
             | cmd PDQ DQP         { _PARSE_DEBUG("decl->cmd (\"\")");}
             ;
 
 helpstring : helpstring linefeeds helpstring1
               {
+                  size_t len = strlen($1);
                   _PARSE_DEBUG("helpstring -> helpstring helpstring1");
-                  if (cgy_helpstring(_cy, 1, $3) < 0) _YYERROR("helpstring");
+                  if (($$ = realloc($1, len+strlen($3)+2)) == NULL) _YYERROR("helpstring");
+                  sprintf($$+len, "\n%s", $3);
+                  free($3);
               }
             | helpstring1
                {
                    _PARSE_DEBUG("helpstring -> helpstring1");
-                   if (cgy_helpstring(_cy, 0, $1) < 0) _YYERROR("helpstring");
+                   $$ = $1;
                }
             ;
 
-- 
2.43.0


From 0dada5e87f70834f51c9eaaa636fc59addd2727c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:39 +0000
Subject: [PATCH 26/48] fix: an attempt that does not match leaves no values
 behind

---
 cligen_match.c | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/cligen_match.c b/cligen_match.c
index dee7609..40fabc5 100644
--- a/cligen_match.c
+++ b/cligen_match.c
@@ -777,6 +777,23 @@ callbacks_merge(cg_obj       *coref,
     return retval;
 }
 
+/*! Drop bindings made by an attempt that did not match
+ *
+ * @param[in]  cvv   Vector of matched words
+ * @param[in]  len   Number of words bound before the attempt
+ */
+static int
+match_unbind(cvec *cvv,
+             int   len)
+{
+    while (cvec_len(cvv) > len){
+        cv_reset(cvec_i(cvv, cvec_len(cvv)-1));
+        if (cvec_del_i(cvv, cvec_len(cvv)-1) < 0)
+            return -1;
+    }
+    return 0;
+}
+
 /*! Matchpattern sets
  *
  * @param[in]     h         CLIgen handle
@@ -821,6 +838,7 @@ match_pattern_sets(cligen_handle  h,
     char         *pipe_local;
     cg_obj       *co_pipe = NULL;
     cbuf         *cb = NULL;
+    int           nbound;         /* Words bound before child match */
 
     token = cvec_i_str(cvt, level+1); /* for debugging */
 #ifdef _DEBUG_SETS
@@ -915,6 +933,7 @@ match_pattern_sets(cligen_handle  h,
     case 2: /* Last in syntax tree but can continue,... */
         break;
     }
+    nbound = cvec_len(cvv);
     if (pt_sets_get(ptn)){ /* For sets, iterate */
 #ifdef _DEBUG_SETS
         fprintf(stderr, "%s %*s sets:\n", __FUNCTION__, level*3,"");
@@ -943,6 +962,7 @@ match_pattern_sets(cligen_handle  h,
             if (mrcprev != NULL)
                 mr_free(mrcprev);
             mrcprev = mrc;
+            nbound = cvec_len(cvv);
             level = mr_level_get(mrc); /* XXX level always 0 */
         } /* while */
         if (mrc == NULL){
@@ -976,12 +996,16 @@ match_pattern_sets(cligen_handle  h,
     if (mr_pt_len_get(mrc) == 0 && mrcprev){
         /* Transfer match flags from ptn to pt if this tree has no more matches */
         mr_flags_set_co_match(mr0, co_match);
+        if (match_unbind(cvv, nbound) < 0)
+            goto done;
         mr_mv_reason(mrc, mrcprev);     /* transfer error reason if any from child */
         *mrp = mrcprev;
         mrcprev = NULL;
     }
     else if (mr_pt_len_get(mrc) == 0 && lastsyntax == 2){ /* If no child match, then use local */
         mr_flags_set_co_match(mr0, co_match);
+        if (match_unbind(cvv, nbound) < 0)
+            goto done;
         mr_mv_reason(mrc, mr0);         /* transfer error reason if any from child */
         *mrp = mr0;
         mr0 = NULL;
-- 
2.43.0


From 51811e277593fa3e8b090b64347f7a0b987926d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:25 +0000
Subject: [PATCH 27/48] fix: labels before a block belong to the command, not
 to the first command inside

---
 cligen_parse.y | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/cligen_parse.y b/cligen_parse.y
index 63a4999..536e287 100644
--- a/cligen_parse.y
+++ b/cligen_parse.y
@@ -861,11 +861,21 @@ ctx_push(cligen_yacc *cy,
         co = cl->cl_obj;
         if (cvec_find(cy->cy_cvec, "hide") != NULL)
             co_flags_set(co, CO_FLAGS_HIDE);
+        if (cy->cy_cvec){ /* Labels, as in cgy_terminal */
+            if (co->co_cvec)
+                cvec_free(co->co_cvec);
+            if ((co->co_cvec = cvec_dup(cy->cy_cvec)) == NULL)
+                return -1;
+        }
         if (sets)
             co_sets_set(co, 1);
         if (cgy_list_push(co, &cs->cs_list) < 0)
             return -1;
     }
+    if (cy->cy_cvec){ /* Not labels of the first command inside */
+        cvec_free(cy->cy_cvec);
+        cy->cy_cvec = NULL;
+    }
     return 0;
 }
 
-- 
2.43.0


From 32c198997720d716cffa552faae1584b61e10a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:02 +0000
Subject: [PATCH 28/48] fix: completion looks at the last word only, not at the
 rest of the line with its quotes

---
 cligen_match.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cligen_match.c b/cligen_match.c
index 40fabc5..f66c5a9 100644
--- a/cligen_match.c
+++ b/cligen_match.c
@@ -1357,7 +1357,8 @@ match_complete(cligen_handle h,
         }
         command = co->co_command;
         if (co1 == NULL){
-            slen = strlen(mr_token_get(mr));
+            /* The last word: the token of mr may be the rest of the line, which keeps quotes */
+            slen = strlen(cvec_i_str(cvt, cvec_len(cvt)-1));
             minmatch = strlen(command);
             co1 = co;
             command1 = command;
-- 
2.43.0


From dce67ed30b1361b83ec0ac8895fa03d632225307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:00 +0000
Subject: [PATCH 29/48] fix: killing to the start or by word redrew the prompt
 in the wrong place on wrapped and scrolled lines

---
 cligen_getline.c | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/cligen_getline.c b/cligen_getline.c
index 7b079d9..c904eab 100644
--- a/cligen_getline.c
+++ b/cligen_getline.c
@@ -996,7 +996,6 @@ static void
 gl_kill_begin(cligen_handle h,
               int           pos)
 {
-    int i;
     int len;
 
     if (pos != 0) {
@@ -1006,9 +1005,6 @@ gl_kill_begin(cligen_handle h,
         cligen_killbuf(h)[pos] = '\0';
         memmove(cligen_buf(h), cligen_buf(h) + pos, len-pos+1); /* memmove may overlap */
         gl_fixup(h, cligen_prompt(h), 0, 0);
-        for (i=gl_pos; i < gl_cnt; i++)
-            gl_putc(cligen_buf(h)[i]);
-        gl_fixup(h, cligen_prompt(h), -2, 0);
     } else
         gl_putc('\007');
 }
@@ -1022,7 +1018,7 @@ static int
 gl_kill_word(cligen_handle h,
              int           pos)
 {
-    int i, wpos;
+    int wpos;
 
     if (pos == 0)
         gl_putc('\007');
@@ -1041,10 +1037,7 @@ gl_kill_word(cligen_handle h,
         strncpy(cligen_killbuf(h), cligen_buf(h)+pos, wpos-pos);
         cligen_killbuf(h)[wpos-pos] = '\0';
         memmove(cligen_buf(h)+pos, cligen_buf(h) + wpos, gl_cnt-wpos+1);
-        gl_fixup(h, cligen_prompt(h), wpos, pos);
-        for (i=gl_pos; i < gl_cnt; i++)
-            gl_putc(cligen_buf(h)[i]);
-        gl_fixup(h, cligen_prompt(h), -2, pos);
+        gl_fixup(h, cligen_prompt(h), pos, pos);
     }
     return 0;
 }
-- 
2.43.0


From 68184e8d2ec877666e79afe896f278e1d71f6fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:35 +0000
Subject: [PATCH 30/48] fix: a changed prompt (searching) left the old one on
 screen when the line wrapped over rows

---
 cligen_getline.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cligen_getline.c b/cligen_getline.c
index c904eab..91473a4 100644
--- a/cligen_getline.c
+++ b/cligen_getline.c
@@ -1193,6 +1193,8 @@ gl_fixup_noscroll(cligen_handle h,
         l2 = gl_strlen(prompt);
         gl_cnt = gl_cnt + l1 - l2;
         strncpy(fixup_last_prompt, prompt, sizeof(fixup_last_prompt)-1);
+        for (i=0; i < (gl_pos+l1)/gl_termw; i++) /* the prompt may be rows above */
+            move_cursor_up(1);
         gl_putc('\r');
         gl_puts(prompt);
         gl_pos = fixup_gl_shift;
-- 
2.43.0


From cef9d8209e8476efcf264f9623c031e02b104c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:35 +0000
Subject: [PATCH 31/48] fix: moving right over the end of a row left the cursor
 in the wrong place

---
 cligen_getline.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cligen_getline.c b/cligen_getline.c
index 91473a4..5320fd3 100644
--- a/cligen_getline.c
+++ b/cligen_getline.c
@@ -1264,8 +1264,11 @@ gl_fixup_noscroll(cligen_handle h,
         }
     }
     else {
-        for (i=gl_pos; i < cursor; i++)
+        for (i=gl_pos; i < cursor; i++){
             gl_putc(cligen_buf(h)[i]);
+            if (wrap(i, plen))
+                wrap_line();
+        }
     }
     gl_pos = cursor;
 }
-- 
2.43.0


From 9170adadf95c2a45c4455c4c7e2da10513055ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:02 +0000
Subject: [PATCH 32/48] fix: going back or killing a word did not pass blanks
 at the start of the line, and could move forward

---
 cligen_getline.c | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/cligen_getline.c b/cligen_getline.c
index 5320fd3..d6ce947 100644
--- a/cligen_getline.c
+++ b/cligen_getline.c
@@ -1024,14 +1024,10 @@ gl_kill_word(cligen_handle h,
         gl_putc('\007');
     else {
         wpos = pos;
-        if (pos > 0)
+        while (pos > 0 && isspace((int)cligen_buf(h)[pos-1]))
             pos--;
-        while (isspace((int)cligen_buf(h)[pos]) && pos > 0)
+        while (pos > 0 && !isspace((int)cligen_buf(h)[pos-1]))
             pos--;
-        while (!isspace((int)cligen_buf(h)[pos]) && pos > 0)
-            pos--;
-        if (pos < gl_cnt && isspace((int)cligen_buf(h)[pos]))   /* move onto word */
-            pos++;
         if (cligen_killbuf_increase(h, wpos-pos) < 0)
             return -1;
         strncpy(cligen_killbuf(h), cligen_buf(h)+pos, wpos-pos);
@@ -1060,14 +1056,10 @@ gl_word(cligen_handle h,
         while (isspace((int)cligen_buf(h)[pos]) && pos < gl_cnt)
             pos++;
     } else {                            /* backword */
-        if (pos > 0)
+        while (pos > 0 && isspace((int)cligen_buf(h)[pos-1]))
             pos--;
-        while (isspace((int)cligen_buf(h)[pos]) && pos > 0)
+        while (pos > 0 && !isspace((int)cligen_buf(h)[pos-1]))
             pos--;
-        while (!isspace((int)cligen_buf(h)[pos]) && pos > 0)
-            pos--;
-        if (pos < gl_cnt && isspace((int)cligen_buf(h)[pos]))   /* move onto word */
-            pos++;
     }
     gl_fixup(h, cligen_prompt(h), -1, pos);
 }
-- 
2.43.0


From e998fda3761be7e93453154d2642b93dd4082bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:46 +0000
Subject: [PATCH 33/48] fix: a prompt of 80 characters or more left remains of
 earlier text on the line

---
 cligen_getline.c | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/cligen_getline.c b/cligen_getline.c
index d6ce947..1724492 100644
--- a/cligen_getline.c
+++ b/cligen_getline.c
@@ -101,7 +101,7 @@ static int gl_iseof = 0;
 static int   fixup_gl_shift;    /* index of first on screen character */
 static int   fixup_off_right;   /* true if more text right of screen */
 static int   fixup_off_left;    /* true if more text left of screen */
-static char  fixup_last_prompt[80] = "";
+static char *fixup_last_prompt = NULL; /* prompt last drawn */
 
 #define SEARCH_LEN 100
 static char  search_prompt[SEARCH_LEN+2];  /* prompt includes search string */
@@ -522,6 +522,8 @@ gl_cleanup()
     if (gl_init_done > 0)
         gl_char_cleanup();
     gl_init_done = 0;
+    free(fixup_last_prompt);
+    fixup_last_prompt = NULL;
 }
 
 int
@@ -1144,6 +1146,17 @@ gl_redraw(cligen_handle h)
     }
 }
 
+/*! Remember the prompt drawn, whatever its length
+ *
+ * @param[in] prompt  Prompt, copied
+ */
+static void
+fixup_last_prompt_set(char *prompt)
+{
+    free(fixup_last_prompt);
+    fixup_last_prompt = strdup(prompt);
+}
+
 /*! Redrawing or moving within line
  *
  * This function is used both for redrawing when input changes or for
@@ -1177,14 +1190,14 @@ gl_fixup_noscroll(cligen_handle h,
         gl_pos = gl_cnt = fixup_gl_shift = fixup_off_right = fixup_off_left = 0;
         gl_putc('\r');
         gl_puts(prompt);
-        strncpy(fixup_last_prompt, prompt, sizeof(fixup_last_prompt)-1);
+        fixup_last_prompt_set(prompt);
         change = 0;
         gl_width = gl_termw - gl_strlen(prompt);
-    } else if (strcmp(prompt, fixup_last_prompt) != 0) {
+    } else if (fixup_last_prompt && strcmp(prompt, fixup_last_prompt) != 0) {
         l1 = gl_strlen(fixup_last_prompt);
         l2 = gl_strlen(prompt);
         gl_cnt = gl_cnt + l1 - l2;
-        strncpy(fixup_last_prompt, prompt, sizeof(fixup_last_prompt)-1);
+        fixup_last_prompt_set(prompt);
         for (i=0; i < (gl_pos+l1)/gl_termw; i++) /* the prompt may be rows above */
             move_cursor_up(1);
         gl_putc('\r');
@@ -1297,14 +1310,14 @@ gl_fixup_scroll(cligen_handle h,
         gl_pos = gl_cnt = fixup_gl_shift = fixup_off_right = fixup_off_left = 0;
         gl_putc('\r');
         gl_puts(prompt);
-        strncpy(fixup_last_prompt, prompt, sizeof(fixup_last_prompt)-1);
+        fixup_last_prompt_set(prompt);
         change = 0;
         gl_width = gl_termw - gl_strlen(prompt);
-    } else if (strcmp(prompt, fixup_last_prompt) != 0) {
+    } else if (fixup_last_prompt && strcmp(prompt, fixup_last_prompt) != 0) {
         l1 = gl_strlen(fixup_last_prompt);
         l2 = gl_strlen(prompt);
         gl_cnt = gl_cnt + l1 - l2;
-        strncpy(fixup_last_prompt, prompt, sizeof(fixup_last_prompt)-1);
+        fixup_last_prompt_set(prompt);
         gl_putc('\r');
         gl_puts(prompt);
         gl_pos = fixup_gl_shift;
-- 
2.43.0


From 63e443a12987fc17b315c49992ac25be4592f049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:25 +0000
Subject: [PATCH 34/48] fix: with two interfaces, a line buffer grown in one
 made the other write beyond its own

---
 cligen_handle.c          | 45 +++++++++++++++++++++-------------------
 cligen_handle_internal.h |  2 ++
 2 files changed, 26 insertions(+), 21 deletions(-)

diff --git a/cligen_handle.c b/cligen_handle.c
index c83e41e..e786cf5 100644
--- a/cligen_handle.c
+++ b/cligen_handle.c
@@ -1019,9 +1019,6 @@ cligen_regex_xsd_set(cligen_handle h,
 }
 
 
-static int _getline_bufsize = GETLINE_BUFLEN_DEFAULT;
-static int _getline_killbufsize = GETLINE_BUFLEN_DEFAULT;
-
 /*!
  * @param[in] h       CLIgen handle
  */
@@ -1052,7 +1049,9 @@ cligen_killbuf(cligen_handle h)
 int
 cligen_buf_size(cligen_handle h)
 {
-    return _getline_bufsize;
+    struct cligen_handle *ch = handle(h);
+
+    return ch->ch_bufsize;
 }
 
 /*! Return length cligen kill buffer
@@ -1062,7 +1061,9 @@ cligen_buf_size(cligen_handle h)
 int
 cligen_killbuf_size(cligen_handle h)
 {
-    return _getline_killbufsize;
+    struct cligen_handle *ch = handle(h);
+
+    return ch->ch_killbufsize;
 }
 
 /*!
@@ -1073,16 +1074,18 @@ cligen_buf_init(cligen_handle h)
 {
     struct cligen_handle *ch = handle(h);
 
-    if ((ch->ch_buf = malloc(_getline_bufsize)) == NULL){
+    ch->ch_bufsize = GETLINE_BUFLEN_DEFAULT;
+    ch->ch_killbufsize = GETLINE_BUFLEN_DEFAULT;
+    if ((ch->ch_buf = malloc(ch->ch_bufsize)) == NULL){
         fprintf(stderr, "%s malloc: %s\n", __FUNCTION__, strerror(errno));
         return -1;
     }
-    memset(ch->ch_buf, 0, _getline_bufsize);
-    if ((ch->ch_killbuf = malloc(_getline_killbufsize)) == NULL){
+    memset(ch->ch_buf, 0, ch->ch_bufsize);
+    if ((ch->ch_killbuf = malloc(ch->ch_killbufsize)) == NULL){
         fprintf(stderr, "%s malloc: %s\n", __FUNCTION__, strerror(errno));
         return -1;
     }
-    memset(ch->ch_killbuf, 0, _getline_killbufsize);
+    memset(ch->ch_killbuf, 0, ch->ch_killbufsize);
     return 0;
 }
 
@@ -1100,17 +1103,17 @@ cligen_buf_increase(cligen_handle h,
                     size_t        len1)
 {
     struct cligen_handle *ch = handle(h);
-    size_t                len0 = _getline_bufsize; /* orig length */
+    size_t                len0 = ch->ch_bufsize; /* orig length */
 
-    if (_getline_bufsize >= len1 + 1)
+    if (ch->ch_bufsize >= len1 + 1)
       return 0;
-    while (_getline_bufsize < len1 + 1)
-      _getline_bufsize *= 2;
-    if ((ch->ch_buf = realloc(ch->ch_buf, _getline_bufsize)) == NULL){
+    while (ch->ch_bufsize < len1 + 1)
+      ch->ch_bufsize *= 2;
+    if ((ch->ch_buf = realloc(ch->ch_buf, ch->ch_bufsize)) == NULL){
         fprintf(stderr, "%s realloc: %s\n", __FUNCTION__, strerror(errno));
         return -1;
     }
-    memset(ch->ch_buf+len0, 0, _getline_bufsize-len0);
+    memset(ch->ch_buf+len0, 0, ch->ch_bufsize-len0);
     return 0;
 }
 
@@ -1124,17 +1127,17 @@ cligen_killbuf_increase(cligen_handle h,
                         size_t        len1)
 {
     struct cligen_handle *ch = handle(h);
-    int                   len0 = _getline_killbufsize;
+    int                   len0 = ch->ch_killbufsize;
 
-    if (_getline_killbufsize >= len1 + 1)
+    if (ch->ch_killbufsize >= len1 + 1)
       return 0;
-    while (_getline_killbufsize < len1 + 1)
-      _getline_killbufsize *= 2;
-    if ((ch->ch_killbuf = realloc(ch->ch_killbuf, _getline_killbufsize)) == NULL){
+    while (ch->ch_killbufsize < len1 + 1)
+      ch->ch_killbufsize *= 2;
+    if ((ch->ch_killbuf = realloc(ch->ch_killbuf, ch->ch_killbufsize)) == NULL){
         fprintf(stderr, "%s realloc: %s\n", __FUNCTION__, strerror(errno));
         return -1;
     }
-    memset(ch->ch_killbuf+len0, 0, _getline_killbufsize-len0);
+    memset(ch->ch_killbuf+len0, 0, ch->ch_killbufsize-len0);
     return 0;
 }
 
diff --git a/cligen_handle_internal.h b/cligen_handle_internal.h
index 6ffff14..3c7821f 100644
--- a/cligen_handle_internal.h
+++ b/cligen_handle_internal.h
@@ -94,7 +94,9 @@ struct cligen_handle{
                                      Also this is global for now
                                   */
     char       *ch_buf;          /* getline input buffer */
+    int         ch_bufsize;      /* allocated size of ch_buf */
     char       *ch_killbuf;      /* getline killed text */
+    int         ch_killbufsize;  /* allocated size of ch_killbuf */
 
     int         ch_logsyntax;    /* Debug syntax by printing dynamically on stderr */
     int         ch_hist_size;    /* Number of history lines MUST be >0 */
-- 
2.43.0


From e2ff1b336e47aff3e9d62c7e0634cf41070c591a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:53 +0000
Subject: [PATCH 35/48] fix: a line as wide as the terminal counted as two rows
 when paging

---
 cligen_io.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/cligen_io.c b/cligen_io.c
index 79c04fc..32d2105 100644
--- a/cligen_io.c
+++ b/cligen_io.c
@@ -153,7 +153,8 @@ cligen_output_scroll(FILE   *f,
     /* A terminal line */
     if ((linebuf = malloc(linelen+1)) == NULL)
         goto done;
-    remain = linelen - D_COLUMNS;
+    if ((remain = linelen - D_COLUMNS) < 0) /* terminal has been narrowed */
+        remain = 0;
     while (ib1 < ibend && D_LINES >= 0){
         /* Four cases:
          * 1. There is a CR in [ib0,ibend]
@@ -164,7 +165,7 @@ cligen_output_scroll(FILE   *f,
          *   2b) less than or equal to remain:
          */
         if ((ibcr = strstr(ib0, "\n")) != NULL){
-            if ((ibcr - ib0) >= remain){
+            if ((ibcr - ib0) > remain){
                 ib1 = ib0 + remain; /* 1a */
                 D_LINES++;
                 remain = linelen;
@@ -175,7 +176,7 @@ cligen_output_scroll(FILE   *f,
                 remain = linelen;
             }
         }
-        else if (ibend - ib0 >= remain){
+        else if (ibend - ib0 > remain){
             ib1 = ib0 + remain;     /* 2a */
             D_LINES++;
             remain = linelen;
@@ -184,8 +185,6 @@ cligen_output_scroll(FILE   *f,
             remain -= ibend-ib1;
             ib1 = ibend;             /* 2b */
         }
-        if (ib0 == ib1)
-            break;
         memcpy(linebuf, ib0, (ib1-ib0));
         linebuf[(ib1-ib0)] = '\0';
         fprintf(f, "%s", linebuf);
-- 
2.43.0


From 69d982c51881b56847cf6b42fcbc601cc8639887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:53 +0000
Subject: [PATCH 36/48] fix: keys typed ahead at a page stop were lost to the
 line reader

---
 cligen_io.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/cligen_io.c b/cligen_io.c
index 32d2105..840d665 100644
--- a/cligen_io.c
+++ b/cligen_io.c
@@ -123,6 +123,22 @@ cli_output_status(void)
     return D_LINES;
 }
 
+/*! Read one key, no more: keys typed ahead are left for the line reader
+ *
+ * @retval  c    Key
+ * @retval  EOF  End of input or error
+ */
+static int
+page_getc(void)
+{
+    unsigned char ch;
+    ssize_t       n;
+
+    while ((n = read(0, &ch, 1)) < 0 && errno == EINTR)
+        ;
+    return n == 1 ? ch : EOF;
+}
+
 /*! cligen_output support function for the actual scrolling
  *
  * @param[in] f           Open stdio FILE pointer
@@ -193,7 +209,7 @@ cligen_output_scroll(FILE   *f,
             gl_char_init();
             fprintf(f, "--More--");
             fflush(f);
-            c = fgetc(stdin);
+            c = page_getc();
             if (c == '\n')
                 D_LINES--;
             else if (c == ' ')
-- 
2.43.0


From 3bc70ff4db1ef05db79e7dc8f700c1ff6b20b21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:38 +0000
Subject: [PATCH 37/48] fix: a string buffer of initial size 0 hung at the
 first append and was written beyond its end at reset

---
 cligen_buf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cligen_buf.c b/cligen_buf.c
index 4a1f0cd..fb262d0 100644
--- a/cligen_buf.c
+++ b/cligen_buf.c
@@ -122,7 +122,7 @@ cbuf_new_alloc(size_t sz)
     if ((cb = (cbuf*)malloc(sizeof(*cb))) == NULL)
         return NULL;
     memset(cb, 0, sizeof(*cb));
-    cb->cb_buflen = sz;
+    cb->cb_buflen = sz ? sz : 1; /* always room for the null byte */
     if ((cb->cb_buffer = malloc(cb->cb_buflen)) == NULL){
         free(cb);
         return NULL;
-- 
2.43.0


From d9f1250c9a636c8c090a9223691a5fbcd6177eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:38 +0000
Subject: [PATCH 38/48] fix: cvec_del_i accepted the index one past the end

---
 cligen_cvec.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cligen_cvec.c b/cligen_cvec.c
index 9ade831..3d28dcf 100644
--- a/cligen_cvec.c
+++ b/cligen_cvec.c
@@ -318,7 +318,7 @@ int
 cvec_del_i(cvec *cvv,
            int   i)
 {
-    if (cvec_len(cvv) == 0 || cvec_len(cvv) < i){
+    if (i < 0 || i >= cvec_len(cvv)){
         errno = EINVAL;
         return -1;
     }
-- 
2.43.0


From 441b1993461d17407720a64c7058b473ce4f3e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:38 +0000
Subject: [PATCH 39/48] fix: cvec_next returned a deleted variable as the first
 of an emptied vector

---
 cligen_cvec.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cligen_cvec.c b/cligen_cvec.c
index 3d28dcf..ecf0bb1 100644
--- a/cligen_cvec.c
+++ b/cligen_cvec.c
@@ -197,8 +197,10 @@ cvec_next(cvec   *cvv,
 
     if (cvv == NULL)
         return NULL;
-    if (cv0 == NULL)
-        cv = cvv->vr_vec;
+    if (cv0 == NULL){
+        if (cvv->vr_len > 0)
+            cv = cvv->vr_vec;
+    }
     else {
         i = cv0 - cvv->vr_vec;
         if (i < cvv->vr_len-1)
-- 
2.43.0


From 720fc8c7fe45280d824341f18b43598d594f9028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:38 +0000
Subject: [PATCH 40/48] fix: appending a variable of a vector to the vector
 itself used freed memory

---
 cligen_cvec.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cligen_cvec.c b/cligen_cvec.c
index ecf0bb1..5b0ec3b 100644
--- a/cligen_cvec.c
+++ b/cligen_cvec.c
@@ -253,8 +253,14 @@ cvec_append_var(cvec   *cvv,
                 cg_var *cv)
 {
     cg_var *tail = NULL;
+    int     i;
 
+    i = cvec_len(cvv); /* If cv is part of cvv, it may move when cvv grows */
+    while (--i >= 0 && cvec_i(cvv, i) != cv)
+        ;
     if (cvv && cv && (tail = cvec_add(cvv, cv_type_get(cv)))) {
+        if (i >= 0)
+            cv = cvec_i(cvv, i);
         if (cv_cp(tail, cv) < 0) {
             cvec_del(cvv, tail);
             tail = NULL;
-- 
2.43.0


From f1feb079353bd294339cf2c71802b09fe48b5545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:38 +0000
Subject: [PATCH 41/48] fix: clearing a variable flag that was not set, set it

---
 cligen_cv.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cligen_cv.c b/cligen_cv.c
index 773a246..e87664e 100644
--- a/cligen_cv.c
+++ b/cligen_cv.c
@@ -201,7 +201,7 @@ cv_flag_clr(cg_var *cv,
 {
     if (cv == NULL)
         return 0;
-    return cv->var_flag ^= mask;
+    return cv->var_flag &= ~mask;
 }
 
 /*! Set application-specific cv flag
-- 
2.43.0


From a42cef7167f20f767dfa9d8876ca3e1cabb7b162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:38 +0000
Subject: [PATCH 42/48] fix: cv_cmp of void variables said equal when they
 differ

---
 cligen_cv.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cligen_cv.c b/cligen_cv.c
index e87664e..cb7abb7 100644
--- a/cligen_cv.c
+++ b/cligen_cv.c
@@ -3574,7 +3574,7 @@ cv_cmp(cg_var *cv1,
     case CGV_TIME:
         return memcmp(&cv1->var_time, &cv2->var_time, sizeof(struct timeval));
     case CGV_VOID: /* compare pointers */
-        return (cv1->var_void == cv2->var_void);
+        return (cv1->var_void > cv2->var_void) - (cv1->var_void < cv2->var_void);
     case CGV_EMPTY: /* Always equal */
         return 0;
     }
-- 
2.43.0


From 3931633b37024d4c38a53ea281a015c6795678a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:38 +0000
Subject: [PATCH 43/48] fix: cv_print of a MAC address printed bytes above 7f
 as eight digits

---
 cligen_cv.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/cligen_cv.c b/cligen_cv.c
index cb7abb7..08b1bc3 100644
--- a/cligen_cv.c
+++ b/cligen_cv.c
@@ -2685,12 +2685,12 @@ cv_print(FILE   *f,
         break;
     case CGV_MACADDR:
         fprintf(f, "%02x:%02x:%02x:%02x:%02x:%02x",
-                cv->var_macaddr[0],
-                cv->var_macaddr[1],
-                cv->var_macaddr[2],
-                cv->var_macaddr[3],
-                cv->var_macaddr[4],
-                cv->var_macaddr[5]);
+                (uint8_t)cv->var_macaddr[0],
+                (uint8_t)cv->var_macaddr[1],
+                (uint8_t)cv->var_macaddr[2],
+                (uint8_t)cv->var_macaddr[3],
+                (uint8_t)cv->var_macaddr[4],
+                (uint8_t)cv->var_macaddr[5]);
 
         break;
     case CGV_URL: /* <proto>://[<user>[:<passwd>]@]<addr>[/<path>] */
-- 
2.43.0


From 8951307c6080e22e474c63d2bf0ed81e33a8220d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:09 +0000
Subject: [PATCH 44/48] fix: cv_print of an IPv6 prefix printed prefix length 0

---
 cligen_cv.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cligen_cv.c b/cligen_cv.c
index 08b1bc3..0009a3f 100644
--- a/cligen_cv.c
+++ b/cligen_cv.c
@@ -2681,7 +2681,7 @@ cv_print(FILE   *f,
             fprintf(stderr, "inet_ntop: %s\n", strerror(errno));
             return -1;
         }
-        fprintf(f, "%s/%d", straddr, cv->var_ipv4masklen);
+        fprintf(f, "%s/%d", straddr, cv->var_ipv6masklen);
         break;
     case CGV_MACADDR:
         fprintf(f, "%02x:%02x:%02x:%02x:%02x:%02x",
-- 
2.43.0


From bb2fb2598ac91d631b19d3bf5c6df4a9e797bd83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:33 +0000
Subject: [PATCH 45/48] fix: after a signal, registered descriptors were not
 served until the next key; crash without an interrupt hook

---
 cligen_getline.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/cligen_getline.c b/cligen_getline.c
index 1724492..1c680a9 100644
--- a/cligen_getline.c
+++ b/cligen_getline.c
@@ -331,7 +331,7 @@ gl_unregfd(int fd)
 }
 
 int
-gl_select()
+gl_select(cligen_handle h)
 {
     int i;
     fd_set fdset = {0,};
@@ -341,8 +341,14 @@ gl_select()
         FD_SET(0, &fdset);
         for(i = 0; i < nextfds; i++)
             FD_SET(extfds[i].fd, &fdset);
-        if (select(FD_SETSIZE, &fdset, NULL, NULL, NULL) < 0)
+        if (select(FD_SETSIZE, &fdset, NULL, NULL, NULL) < 0){
+            if (errno == EINTR){
+                if (gl_interrupt_hook && gl_interrupt_hook(h) < 0)
+                    return -2;
+                continue;
+            }
             return -1;
+        }
         for(i = 0; i < nextfds; i++)
             if (FD_ISSET(extfds[i].fd, &fdset))
                 if (extfds[i].cb(extfds[i].fd, extfds[i].arg) < 0)
@@ -416,12 +422,13 @@ gl_getc(cligen_handle h)
 #endif
 
 #if CLIGEN_REGFD
-    gl_select(); /* block until something arrives on stdin */
+    if (gl_select(h) == -2) /* block until something arrives on stdin */
+        return -1; /* interrupted */
 #endif
 #ifdef __unix__
     while ((c = read(0, &ch, 1)) == -1) {
         if (errno == EINTR){
-            if (gl_interrupt_hook(h) <0)
+            if (gl_interrupt_hook && gl_interrupt_hook(h) <0)
                 return -1;
             continue;
         }
-- 
2.43.0


From 48553e3f92926ab9ba273d2fa45be65edeed6121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:34 +0000
Subject: [PATCH 46/48] fix: registering a descriptor that select cannot wait
 for wrote outside the descriptor set

---
 cligen_getline.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cligen_getline.c b/cligen_getline.c
index 1c680a9..e57a8b0 100644
--- a/cligen_getline.c
+++ b/cligen_getline.c
@@ -293,6 +293,10 @@ gl_regfd(int             fd,
     int i;
     struct regfd *tmp;
 
+    if (fd < 0 || fd >= FD_SETSIZE) { /* cannot be waited for with select */
+        errno = EBADF;
+        return -1;
+    }
     for (i = 0; i < nextfds; i++) {
         if (extfds[i].fd == fd) { /* Already registered. Update arg and cb */
             extfds[i].cb = cb;
-- 
2.43.0


From 5f9944845a8d78fbe9a8057d50ea77b889cee415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:43 +0000
Subject: [PATCH 47/48] fix: cligen_output: room for the newline of a line as
 wide as the terminal

---
 cligen_io.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cligen_io.c b/cligen_io.c
index 840d665..ff7b540 100644
--- a/cligen_io.c
+++ b/cligen_io.c
@@ -167,7 +167,7 @@ cligen_output_scroll(FILE   *f,
     ib1 = ibuf;
     ibend = ibuf + strlen(ibuf);
     /* A terminal line */
-    if ((linebuf = malloc(linelen+1)) == NULL)
+    if ((linebuf = malloc(linelen+2)) == NULL) /* newline and NUL */
         goto done;
     if ((remain = linelen - D_COLUMNS) < 0) /* terminal has been narrowed */
         remain = 0;
-- 
2.43.0


From 263238e9299978eefd01588b27a11d3a01b6d3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:42 +0000
Subject: [PATCH 48/48] fix: a keyword and a variable of the same name at one
 place are different alternatives

---
 cligen_object.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cligen_object.c b/cligen_object.c
index 8644344..e94a7b8 100644
--- a/cligen_object.c
+++ b/cligen_object.c
@@ -924,7 +924,8 @@ co_eq(cg_obj *co1,
             goto done;
         }
         /* Here one is command and one is variable */
-        eq = strcmp(co1->co_command, co2->co_command);
+        if ((eq = strcmp(co1->co_command, co2->co_command)) == 0)
+            eq = co1->co_type == CO_COMMAND ? -1 : 1; /* same name but not the same */
         goto done;
     }
     switch (co1->co_type){
-- 
2.43.0

