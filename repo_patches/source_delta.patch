From 188d2453517776660cc2f1ab59ff97bc8ed62249 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Tue, 17 Nov 2026 22:19:24 +0000
Subject: [PATCH 01/73] fix: count edges inserted into adjacency-list graphs

---
 src/nx_graph.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/nx_graph.c b/src/nx_graph.c
index 777811d..a5bb994 100644
--- a/src/nx_graph.c
+++ b/src/nx_graph.c
@@ -150,10 +150,12 @@ void nx_graph_insert_adj_lst(struct NXGraphAdjLst *g,
         }
 
         struct NXGraphEdge *e = nx_graph_edge_list_seach(g->edges[v], w);
-        if (e)
+        if (e) {
                 e->weight = weight;
-        else
+        } else {
                 g->edges[v] = nx_graph_edge_new(w, weight, g->edges[v]);
+                g->n_e++;
+        }
 
         e = nx_graph_edge_list_seach(g->edges[w], v);
         if (e)
-- 
2.43.0


From 33c0931c3ed56fbb50a3d345ca0c1d7804404c89 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Tue, 17 Nov 2026 22:19:24 +0000
Subject: [PATCH 02/73] fix: nx_memncpy_multi read past the length array once
 all sources were consumed

---
 src/nx_string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nx_string.c b/src/nx_string.c
index a3acffc..1422c73 100644
--- a/src/nx_string.c
+++ b/src/nx_string.c
@@ -218,7 +218,7 @@ size_t nx_memncpy_multi(void *dest, int n_src, const void * const *src,
         NX_ASSERT_PTR(src_offset);
         NX_ASSERT_PTR(offset);
 
-        if (*offset > l_src[*src_offset]) {
+        if (*src_offset < n_src && *offset > l_src[*src_offset]) {
                 *offset = 0;
                 *src_offset += 1;
         }
-- 
2.43.0


From e64090d01893a3dd619db797f620140552fbba32 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Tue, 17 Nov 2026 22:24:42 +0000
Subject: [PATCH 03/73] fix: nx_strredup duplicated a string it had already
 freed when both were the same

---
 src/nx_string.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/nx_string.c b/src/nx_string.c
index 1422c73..03a8137 100644
--- a/src/nx_string.c
+++ b/src/nx_string.c
@@ -49,12 +49,10 @@ char *nx_strdup(const char *s)
 
 void nx_strredup(char **dest, const char *src)
 {
-        nx_free(*dest);
+        char *cpy = src == NULL ? NULL : nx_strdup(src);
 
-        if (src == NULL)
-                *dest = NULL;
-        else
-                *dest = nx_strdup(src);
+        nx_free(*dest);
+        *dest = cpy;
 }
 
 char *nx_fstr(const char* format, ...)
-- 
2.43.0


From cb9d54e6aad9c7e12f0f02885109c100a7ac4066 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Tue, 17 Nov 2026 22:24:42 +0000
Subject: [PATCH 04/73] fix: string array setf may format the element it
 replaces

---
 src/nx_string_array.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nx_string_array.c b/src/nx_string_array.c
index 68fff42..c732292 100644
--- a/src/nx_string_array.c
+++ b/src/nx_string_array.c
@@ -139,8 +139,9 @@ void nx_string_array_vsetf(struct NXStringArray *sa, int id, const char *fmt, va
         NX_ASSERT(id >= 0 && id < sa->size);
         NX_ASSERT_PTR(fmt);
 
+        char *s = nx_vfstr(fmt, args);
         nx_free(sa->elems[id]);
-        sa->elems[id] = nx_vfstr(fmt, args);
+        sa->elems[id] = s;
 }
 
 int nx_string_array_append(struct NXStringArray *sa, const char *s)
-- 
2.43.0


From 5df801505aca668db1e60acc84f25b9e7ba9778d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Tue, 17 Nov 2026 22:24:42 +0000
Subject: [PATCH 05/73] fix: searching a string array with unset elements
 crashed

---
 src/nx_string_array.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nx_string_array.c b/src/nx_string_array.c
index c732292..c6127ed 100644
--- a/src/nx_string_array.c
+++ b/src/nx_string_array.c
@@ -180,7 +180,7 @@ int nx_string_array_find(const struct NXStringArray *sa, const char *s)
         NX_ASSERT_PTR(s);
 
         for (int i = 0; i < sa->size; ++i)
-                if (strcmp(s, sa->elems[i]) == 0)
+                if (sa->elems[i] != NULL && strcmp(s, sa->elems[i]) == 0)
                         return i;
 
         return -1;
-- 
2.43.0


From 1f83bed8495ca0d3ee520bc03a556a3ceec7aed2 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Tue, 17 Nov 2026 22:52:54 +0000
Subject: [PATCH 06/73] fix: data frame labels were saved with escapes the CSV
 reader does not undo

---
 src/nx_data_frame.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nx_data_frame.c b/src/nx_data_frame.c
index 7238772..957ecd1 100644
--- a/src/nx_data_frame.c
+++ b/src/nx_data_frame.c
@@ -522,7 +522,7 @@ NXBool nx_data_frame_fprintf(const struct NXDataFrame *df, FILE *stream,
         int nc = nx_data_frame_n_columns(df);
         for (int i = 0; i < nc; ++i) {
                 const struct NXDataColumn *dc = nx_data_frame_column(df, i);
-                if (EOF == nx_fputs_readable(nx_data_column_label(dc), stream)) {
+                if (EOF == nx_fputs_double_quoted(nx_data_column_label(dc), stream)) {
                         NX_ERROR(NX_LOG_TAG, "Error printing label of data frame for column %d", i);
                         return NX_FALSE;
                 }
-- 
2.43.0


From 5a459ff46f3a1f2cce7782fede52c97af772373d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Tue, 17 Nov 2026 22:52:56 +0000
Subject: [PATCH 07/73] fix: loading CSV with strings as factors never ended

---
 src/nx_data_frame.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nx_data_frame.c b/src/nx_data_frame.c
index 957ecd1..56d81a4 100644
--- a/src/nx_data_frame.c
+++ b/src/nx_data_frame.c
@@ -636,7 +636,7 @@ struct NXDataFrame *nx_data_frame_load_csv_stream(FILE *stream,
         struct NXDataFrame *df = nx_csv_parser_parse(cp);
 
         if (strings_as_factors) {
-                for (int col_id = 0; col_id < df->columns->size; ++i) {
+                for (int col_id = 0; col_id < df->columns->size; ++col_id) {
                         if (nx_data_frame_column(df, col_id)->type == NX_DCT_STRING)
                                 nx_data_frame_make_factor(df, col_id);
                 }
-- 
2.43.0


From e42c46815902bada042a28f958a09cbe8e77c320 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Tue, 17 Nov 2026 22:52:59 +0000
Subject: [PATCH 08/73] fix: setting a data frame string from its own cell
 copied freed memory

---
 src/nx_data_frame.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nx_data_frame.c b/src/nx_data_frame.c
index 56d81a4..6effa9b 100644
--- a/src/nx_data_frame.c
+++ b/src/nx_data_frame.c
@@ -445,8 +445,9 @@ void nx_data_frame_set_string(struct NXDataFrame *df, int row_id, int col_id,
 
         struct NXDataColumn *dc = df->columns->elems[col_id];
         CHECK_DATA_COLUMN_TYPE(dc,NX_DCT_STRING);
+        char *new_elem = nx_strdup(value); // value may be the current element
         NA_DATA_FRAME_ELEMENT(dc,row_id);
-        dc->elems[row_id] = nx_strdup(value);
+        dc->elems[row_id] = new_elem;
 }
 
 void nx_data_frame_set_int(struct NXDataFrame *df, int row_id, int col_id,
-- 
2.43.0


From 7f471b3644cf5d297163f04a1e37637fdce550d5 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Tue, 17 Nov 2026 22:53:02 +0000
Subject: [PATCH 09/73] fix: the lexer took the byte 0xFF for the end of the
 text

---
 src/nx_lexer.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nx_lexer.c b/src/nx_lexer.c
index 6df82be..4661758 100644
--- a/src/nx_lexer.c
+++ b/src/nx_lexer.c
@@ -143,7 +143,7 @@ int nx_lexer_consume(struct NXLexer *lex)
         if (lex->c == EOF)
                 return lex->c;
 
-        lex->c = lex->text[++lex->pos];
+        lex->c = (unsigned char)lex->text[++lex->pos];
         if (lex->c == '\0')
                 lex->c = EOF;
 
@@ -171,7 +171,7 @@ NXBool nx_lexer_match(struct NXLexer *lex, const char *s)
 
         int n = strlen(s);
         while (n--) {
-                if (lex->c == *s) {
+                if (lex->c == (unsigned char)*s) {
                         nx_lexer_consume(lex);
                 } else {
                         load_lexer_state(lex, &start_state);
-- 
2.43.0


From e4ae71203a498fdc25381214297b155bf8869f8e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Tue, 17 Nov 2026 22:53:05 +0000
Subject: [PATCH 10/73] fix: CSV integers were recognized in other bases than
 they were read in

---
 src/nx_csv_parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nx_csv_parser.c b/src/nx_csv_parser.c
index 0631856..abb7ce5 100644
--- a/src/nx_csv_parser.c
+++ b/src/nx_csv_parser.c
@@ -41,7 +41,7 @@ static inline enum NXDataColumnType nx_csv_field_type_from_token_text(const char
                 return NX_DCT_BOOL;
 
         char *endptr;
-        long lv = strtol(text, &endptr, 0);
+        long lv = strtol(text, &endptr, 10); // as read by atoi
         if (*endptr == '\0' && lv <= INT_MAX && lv >= INT_MIN)
                 return NX_DCT_INT;
 
-- 
2.43.0


From b5339ff022f762f36aa40edcf7bfcd30a5faad9c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Tue, 17 Nov 2026 22:53:07 +0000
Subject: [PATCH 11/73] fix: CSV reals below the normal range were not
 recognized as reals

---
 src/nx_csv_parser.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/nx_csv_parser.c b/src/nx_csv_parser.c
index abb7ce5..ed96bfc 100644
--- a/src/nx_csv_parser.c
+++ b/src/nx_csv_parser.c
@@ -28,6 +28,7 @@
 #include <stdlib.h>
 #include <string.h>
 #include <limits.h>
+#include <math.h>
 #include <errno.h>
 
 #include "virg/nexus/nx_alloc.h"
@@ -46,8 +47,9 @@ static inline enum NXDataColumnType nx_csv_field_type_from_token_text(const char
                 return NX_DCT_INT;
 
         errno = 0;
-        strtod(text, &endptr);
-        if (errno != ERANGE && *endptr == '\0')
+        double dv = strtod(text, &endptr);
+        NXBool is_overflow = errno == ERANGE && (dv == HUGE_VAL || dv == -HUGE_VAL);
+        if (!is_overflow && *endptr == '\0')
                 return NX_DCT_DOUBLE;
 
         return NX_DCT_STRING;
-- 
2.43.0


From 1da5a6d626f82dc59d7ff8f7029c81bef9a7d9c8 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Tue, 17 Nov 2026 22:53:09 +0000
Subject: [PATCH 12/73] fix: a missing value of a single column frame was saved
 but not loaded

---
 src/nx_csv_parser.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/nx_csv_parser.c b/src/nx_csv_parser.c
index ed96bfc..ae58872 100644
--- a/src/nx_csv_parser.c
+++ b/src/nx_csv_parser.c
@@ -310,7 +310,10 @@ static struct NXCSVRecord *nx_csv_parser_parse_record(struct NXCSVParser *cp, st
 {
         struct NXCSVRecord *r = nx_csv_record_new(data);
 
-        if (cp->token->type == NX_CTT_EOR) {
+        if (cp->token->type == NX_CTT_EOR && data->n_columns == 1) {
+                // a single column with a missing value
+                nx_csv_record_add_field_from_token(r, NULL);
+        } else if (cp->token->type == NX_CTT_EOR) {
                 NX_FATAL(NX_LOG_TAG, "Empty record %d while parsing CSV", data->size);
         } else if (cp->token->type == NX_CTT_COMMA) {
                 nx_csv_record_add_field_from_token(r, NULL);
-- 
2.43.0


From 99650f18faa6ea39afd1992b842e3ba4c2aa022a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Tue, 17 Nov 2026 22:59:14 +0000
Subject: [PATCH 13/73] fix: JSON false and null nodes were created as true

---
 src/nx_json_tree.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nx_json_tree.c b/src/nx_json_tree.c
index 669c302..5003dd6 100644
--- a/src/nx_json_tree.c
+++ b/src/nx_json_tree.c
@@ -186,12 +186,12 @@ struct NXJSONNode *nx_json_node_new_true()
 
 struct NXJSONNode *nx_json_node_new_false()
 {
-        return nx_json_node_new_constant(NX_JNT_TRUE);
+        return nx_json_node_new_constant(NX_JNT_FALSE);
 }
 
 struct NXJSONNode *nx_json_node_new_null()
 {
-        return nx_json_node_new_constant(NX_JNT_TRUE);
+        return nx_json_node_new_constant(NX_JNT_NULL);
 }
 
 void nx_json_tree_free(struct NXJSONNode *root)
-- 
2.43.0


From e796525fcf8ebcf874f1e7502238c968828cc8eb Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Tue, 17 Nov 2026 22:59:18 +0000
Subject: [PATCH 14/73] fix: freeing a long JSON array recursed once per
 element and overflowed the stack

---
 src/nx_json_tree.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/nx_json_tree.c b/src/nx_json_tree.c
index 5003dd6..bcdca02 100644
--- a/src/nx_json_tree.c
+++ b/src/nx_json_tree.c
@@ -196,11 +196,12 @@ struct NXJSONNode *nx_json_node_new_null()
 
 void nx_json_tree_free(struct NXJSONNode *root)
 {
-        if (root != NULL) {
+        while (root != NULL) {
+                struct NXJSONNode *next = root->right;
                 nx_json_tree_free(root->down);
-                nx_json_tree_free(root->right);
                 nx_free(root->text);
                 nx_free(root);
+                root = next;
         }
 }
 
-- 
2.43.0


From 967307892e5d865a37a5c4f63a3687a04605c658 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Tue, 17 Nov 2026 22:59:22 +0000
Subject: [PATCH 15/73] fix: JSON strings with an escaped slash were refused

---
 src/nx_string.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/nx_string.c b/src/nx_string.c
index 03a8137..07af31e 100644
--- a/src/nx_string.c
+++ b/src/nx_string.c
@@ -166,6 +166,7 @@ char *nx_xstr_from_readable(size_t size, const char *readable)
                         case 'f': *(p++) = '\f'; break;
                         case 'b': *(p++) = '\b'; break;
                         case '"': *(p++) = '"'; break;
+                        case '/': *(p++) = '/'; break;
                         default:
                                 NX_FATAL(NX_LOG_TAG, "Unexpected control character '%c' in readable string!", *readable);
                         }
-- 
2.43.0


From 3fe0794bb47d57493f01be0dbd4fedcf26c1c2ec Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Tue, 17 Nov 2026 22:59:25 +0000
Subject: [PATCH 16/73] fix: bundled reals lost all but seven digits

---
 src/nx_json_bundle.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nx_json_bundle.c b/src/nx_json_bundle.c
index bcf151d..d3d7460 100644
--- a/src/nx_json_bundle.c
+++ b/src/nx_json_bundle.c
@@ -71,7 +71,7 @@ struct NXJSONNode *nx_json_bundle_float(float f)
 
 struct NXJSONNode *nx_json_bundle_double(double d)
 {
-        char *s = nx_fstr("%e", d);
+        char *s = nx_fstr("%.17e", d);
         struct NXJSONNode *n = nx_json_node_new_fpnumber(s);
         nx_free(s);
         return n;
-- 
2.43.0


From 56b9a42ab4e99c73690c586aa35c6c821241a6ba Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Tue, 17 Nov 2026 22:59:29 +0000
Subject: [PATCH 17/73] fix: bundled sizes above the signed range changed value

---
 src/nx_json_bundle.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nx_json_bundle.c b/src/nx_json_bundle.c
index d3d7460..0efbdbb 100644
--- a/src/nx_json_bundle.c
+++ b/src/nx_json_bundle.c
@@ -58,7 +58,7 @@ struct NXJSONNode *nx_json_bundle_int(int i)
 
 struct NXJSONNode *nx_json_bundle_size_t(size_t z)
 {
-        char *s = nx_fstr("%zd", z);
+        char *s = nx_fstr("%zu", z);
         struct NXJSONNode *n = nx_json_node_new_integer(s);
         nx_free(s);
         return n;
@@ -178,7 +178,7 @@ size_t nx_json_unbundle_size_t(struct NXJSONNode *node)
         NX_ASSERT_PTR(node);
         NX_ASSERT(nx_json_node_is_a(node, NX_JNT_INTEGER));
 
-        return (size_t)atol(nx_json_node_text(node));
+        return (size_t)strtoull(nx_json_node_text(node), NULL, 10);
 }
 
 float nx_json_unbundle_float(struct NXJSONNode *node)
-- 
2.43.0


From c917f25e8dda7596f21a61c316dc835a55e687e3 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Tue, 17 Nov 2026 22:59:32 +0000
Subject: [PATCH 18/73] fix: bundled keypoint ids were truncated to int

---
 src/nx_json_bundle.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nx_json_bundle.c b/src/nx_json_bundle.c
index 0efbdbb..1aefbbc 100644
--- a/src/nx_json_bundle.c
+++ b/src/nx_json_bundle.c
@@ -126,7 +126,7 @@ struct NXJSONNode *nx_json_bundle_keypoint(const struct NXKeypoint* key)
         nx_json_object_add(jkey, "sigma", nx_json_bundle_double(key->sigma));
         nx_json_object_add(jkey, "score", nx_json_bundle_double(key->score));
         nx_json_object_add(jkey, "ori", nx_json_bundle_double(key->ori));
-        nx_json_object_add(jkey, "id", nx_json_bundle_int(key->id));
+        nx_json_object_add(jkey, "id", nx_json_bundle_size_t(key->id));
 
         return jkey;
 }
@@ -282,7 +282,7 @@ struct NXKeypoint nx_json_unbundle_keypoint(struct NXJSONNode* node)
         key.sigma = nx_json_unbundle_double(nx_json_object_fget(node, "sigma",  NX_JNT_FPNUMBER));
         key.score = nx_json_unbundle_double(nx_json_object_fget(node, "score",  NX_JNT_FPNUMBER));
         key.ori = nx_json_unbundle_double(nx_json_object_fget(node, "ori",  NX_JNT_FPNUMBER));
-        key.id = nx_json_unbundle_int(nx_json_object_fget(node, "id",  NX_JNT_INTEGER));
+        key.id = nx_json_unbundle_size_t(nx_json_object_fget(node, "id",  NX_JNT_INTEGER));
 
         return key;
 }
-- 
2.43.0


From 949c2e645425e66e8efba6dfc0a7e6b9a4089944 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Tue, 17 Nov 2026 23:47:08 +0000
Subject: [PATCH 19/73] fix: saturate float-to-byte image conversion instead of
 always storing zero

---
 src/nx_image.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nx_image.c b/src/nx_image.c
index ba7cca4..6d1e470 100644
--- a/src/nx_image.c
+++ b/src/nx_image.c
@@ -410,7 +410,7 @@ static void nx_image_convert_f32_to_uc(struct NXImage* dest, const struct NXImag
                 uchar *rdest = dest->data.uc + y * dest->row_stride;
                 for (int x = 0; x < dest->width; ++x) {
                         int value = rsrc[x] * 255.0f;
-                        value = nx_min_i(0, nx_max_i(255, value));
+                        value = nx_max_i(0, nx_min_i(255, value));
                         rdest[x] = value;
                 }
         }
-- 
2.43.0


From 8b706f02d902f69f3ed360440114ee25531c61ac Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Tue, 17 Nov 2026 23:47:11 +0000
Subject: [PATCH 20/73] fix: image normalization also considers first pixels
 for the maximum

---
 src/nx_image.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/nx_image.c b/src/nx_image.c
index 6d1e470..3af302b 100644
--- a/src/nx_image.c
+++ b/src/nx_image.c
@@ -212,11 +212,12 @@ void nx_image_normalize_to_zero_one(struct NXImage *img, NXBool symmetric_around
         for (int y = 0; y < img->height; ++y) {
                 float *row = img->data.f32 + y*img->row_stride;
                 for (int x = 0; x < img->width; ++x) {
-                        for (int c = 0; c < nc; ++c)
+                        for (int c = 0; c < nc; ++c) {
                                 if (row[nc*x+c] < vmin)
                                         vmin = row[nc*x+c];
-                                else if (row[nc*x+c] > vmax)
+                                if (row[nc*x+c] > vmax)
                                         vmax = row[nc*x+c];
+                        }
                 }
         }
         /* NX_LOG("D", "min and max values are %.12f and %.12f", vmin, vmax); */
-- 
2.43.0


From ba38e6836654247fbaba91881a4eee52c0e5ae27 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Tue, 17 Nov 2026 23:47:16 +0000
Subject: [PATCH 21/73] fix: last row of the y derivative uses the source row
 stride

---
 src/nx_image.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nx_image.c b/src/nx_image.c
index 3af302b..4b7f992 100644
--- a/src/nx_image.c
+++ b/src/nx_image.c
@@ -1249,8 +1249,8 @@ void nx_image_deriv_x(struct NXImage *dest, const struct NXImage *src)
                         }                                               \
                 }                                                       \
                 for (int x = 0; x < dest->width; ++x) {                 \
-                        dest->data.f32[x + (src->height-1)*dest->row_stride] = 2.0f * (src->data.F[x + (src->height-1)*dest->row_stride] \
-                                                                                       - src->data.F[x + (src->height-2)*dest->row_stride])/S; \
+                        dest->data.f32[x + (src->height-1)*dest->row_stride] = 2.0f * (src->data.F[x + (src->height-1)*src->row_stride] \
+                                                                                       - src->data.F[x + (src->height-2)*src->row_stride])/S; \
                 }                                                       \
         }
 
-- 
2.43.0


From 15507c2741fd7eaf7ce7257a3edbfd9f78dab500 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Tue, 17 Nov 2026 23:47:20 +0000
Subject: [PATCH 22/73] fix: image derivatives of single-column or single-row
 images do not read outside the image

---
 src/nx_image.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/nx_image.c b/src/nx_image.c
index 4b7f992..69564e1 100644
--- a/src/nx_image.c
+++ b/src/nx_image.c
@@ -1199,6 +1199,11 @@ void nx_image_filter_box(struct NXImage *dest, const struct NXImage *src,
                 for (int y = 0; y < src->height; ++y) {                 \
                         const T *src_row = src->data.F + y*src->row_stride; \
                         float *dest_row = dest->data.f32 + y*dest->row_stride; \
+                        if (src->width < 2) {                           \
+                                for (int x = 0; x < dest->width; ++x)   \
+                                        dest_row[x] = 0.0f;             \
+                                continue;                               \
+                        }                                               \
                         dest_row[0] = 2.0f * (src_row[1]-src_row[0])/S; \
                         for (int x = 1; x < dest->width-1; ++x) {       \
                                 dest_row[x] = (src_row[x+1]-src_row[x-1])/S; \
@@ -1235,6 +1240,8 @@ void nx_image_deriv_x(struct NXImage *dest, const struct NXImage *src)
                 nx_image_resize(dest, src->width, src->height, NX_IMAGE_STRIDE_DEFAULT, \
                                 src->type, NX_IMAGE_FLOAT32);           \
                 nx_image_set_zero(dest);                                \
+                if (src->height < 2)                                    \
+                        return;                                         \
                                                                         \
                 for (int x = 0; x < dest->width; ++x) {                 \
                         dest->data.f32[x] = 2.0f * (src->data.F[x + src->row_stride] \
-- 
2.43.0


From 76976feffaa335a685eb10bcc528ea0f06d79b22 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Tue, 17 Nov 2026 23:47:24 +0000
Subject: [PATCH 23/73] fix: image scaling repeats the border instead of
 reading outside the image

---
 src/nx_image.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/nx_image.c b/src/nx_image.c
index 69564e1..183e56b 100644
--- a/src/nx_image.c
+++ b/src/nx_image.c
@@ -554,6 +554,7 @@ void nx_image_scale_uc(struct NXImage *dest, const struct NXImage *src, float sc
                 float dy = yp - ypi;
 
                 const uchar *sample_row = src->data.uc + ypi * src->row_stride;
+                int next_row = (ypi + 1 < src->height) ? src->row_stride : 0;
 
                 for (int x = 0; x < dest->width; ++x) {
                         float xp = x * inv_scale;
@@ -561,12 +562,13 @@ void nx_image_scale_uc(struct NXImage *dest, const struct NXImage *src, float sc
                         float dx = xp - xpi;
 
                         const uchar *sample = sample_row + xpi;
+                        int next_col = (xpi + 1 < src->width) ? 1 : 0;
 
                         float Ix0 = sample[0];
-                        float Ix1 = sample[1];
+                        float Ix1 = sample[next_col];
 
-                        float Iy0 = sample[src->row_stride];
-                        float Iy1 = sample[src->row_stride + 1];
+                        float Iy0 = sample[next_row];
+                        float Iy1 = sample[next_row + next_col];
 
                         short interp = (Ix0*(1.0f - dx) + Ix1*dx) * (1.0f - dy)
                                 + (Iy0*(1.0f - dx) + Iy1*dx) * dy;
@@ -640,6 +642,7 @@ void nx_image_scale_f32(struct NXImage *dest, const struct NXImage *src, float s
                 float dy = yp - ypi;
 
                 const float *sample_row = src->data.f32 + ypi * src->row_stride;
+                int next_row = (ypi + 1 < src->height) ? src->row_stride : 0;
 
                 for (int x = 0; x < dest->width; ++x) {
                         float xp = x * inv_scale;
@@ -647,12 +650,13 @@ void nx_image_scale_f32(struct NXImage *dest, const struct NXImage *src, float s
                         float dx = xp - xpi;
 
                         const float *sample = sample_row + xpi;
+                        int next_col = (xpi + 1 < src->width) ? 1 : 0;
 
                         float Ix0 = sample[0];
-                        float Ix1 = sample[1];
+                        float Ix1 = sample[next_col];
 
-                        float Iy0 = sample[src->row_stride];
-                        float Iy1 = sample[src->row_stride + 1];
+                        float Iy0 = sample[next_row];
+                        float Iy1 = sample[next_row + next_col];
 
                         float interp = (Ix0*(1.0f - dx) + Ix1*dx) * (1.0f - dy)
                                 + (Iy0*(1.0f - dx) + Iy1*dx) * dy;
-- 
2.43.0


From 01af9694f1c88e8beffcba48d3e95d545ad33b33 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Tue, 17 Nov 2026 23:47:28 +0000
Subject: [PATCH 24/73] fix: anti-aliased downsampling of images smaller than
 four pixels stays inside the image

---
 src/nx_image.c | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/nx_image.c b/src/nx_image.c
index 183e56b..c0b68b9 100644
--- a/src/nx_image.c
+++ b/src/nx_image.c
@@ -821,6 +821,14 @@ void nx_image_upsample(struct NXImage *dest, const struct NXImage *src)
         }
 }
 
+// Reflects an index to the range [0,n) without repeating the border element
+static inline int aa_mirror(int i, int n)
+{
+        while (n > 1 && (i < 0 || i >= n))
+                i = (i < 0) ? -i : 2*(n-1) - i;
+        return (n > 1) ? i : 0;
+}
+
 #define NX_DEFINE_DOWNSAMPLE_AA_X_FUNC(F,T)                             \
         void nx_image_downsample_aa_x_##F(struct NXImage *dest, const struct NXImage *src) \
         {                                                               \
@@ -836,6 +844,13 @@ void nx_image_upsample(struct NXImage *dest, const struct NXImage *src)
                 for (int y = 0; y < dest->height; ++y) {                \
                         const T *src_row = src->data.F + y * src->row_stride; \
                         T *dest_row = dest->data.F + y * dest->row_stride; \
+                        if (dest->width < 2) {                          \
+                                if (dest->width == 1)                   \
+                                        dest_row[0] = (2*src_row[aa_mirror(2,src->width)] \
+                                                       + 12*src_row[1]  \
+                                                       + 11 * src_row[0]) * norm_f; \
+                                continue;                               \
+                        }                                               \
                         dest_row[0] = (2*src_row[2] + 12*src_row[1]     \
                                        + 11 * src_row[0]) * norm_f;     \
                         for (int x = 1; x < dest->width-1; ++x) {       \
@@ -892,6 +907,13 @@ void nx_image_downsample_aa_x(struct NXImage *dest, const struct NXImage *src)
                 for (int x = 0; x < dest->width; ++x) {                 \
                         const T *src_col = src->data.F + x;        \
                         T *dest_col = dest->data.F + x;            \
+                        if (dest->height < 2) {                         \
+                                if (dest->height == 1)                  \
+                                        dest_col[0] = (2*src_col[aa_mirror(2,src->height)*ss] \
+                                                       + 12 * src_col[ss] \
+                                                       + 11 * src_col[0]) * norm_f; \
+                                continue;                               \
+                        }                                               \
                         dest_col[0] = (2*src_col[2*ss] + 12 * src_col[ss] \
                                        + 11 * src_col[0]) * norm_f;     \
                         for (int y = 1; y < dest->height-1; ++y) {      \
-- 
2.43.0


From 522a018c2b2cf769629253af68c09105db6ce18e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 00:01:36 +0000
Subject: [PATCH 25/73] fix: read PNM headers the same way in both loaders,
 refuse sizes and depths that cannot be loaded

---
 src/nx_image_io_pnm.c | 76 +++++++++++++++++++++++++------------------
 1 file changed, 44 insertions(+), 32 deletions(-)

diff --git a/src/nx_image_io_pnm.c b/src/nx_image_io_pnm.c
index b2b66ad..4e2ef50 100644
--- a/src/nx_image_io_pnm.c
+++ b/src/nx_image_io_pnm.c
@@ -25,6 +25,8 @@
  */
 #include "virg/nexus/nx_image_io_pnm.h"
 
+#include <ctype.h>
+#include <limits.h>
 #include <stdlib.h>
 
 #include "virg/nexus/nx_log.h"
@@ -158,6 +160,44 @@ static NXResult read_pnm_data(struct NXImage *img, enum NXImageType img_type,
         return NX_OK;
 }
 
+// Reads a positive number or zero after any whitespace and comments
+static NXResult read_pnm_number(FILE *pnm, int *number)
+{
+        int c = fgetc(pnm);
+        while (isspace(c) || c == '#') {
+                if (c == '#') {
+                        while (c != '\n' && c != EOF)
+                                c = fgetc(pnm);
+                }
+                c = fgetc(pnm);
+        }
+        ungetc(c, pnm);
+
+        if (fscanf(pnm, "%d", number) != 1 || *number < 0)
+                return NX_FAIL;
+
+        return NX_OK;
+}
+
+// Reads the rest of the header up to and including the single
+// whitespace before the pixel data
+static NXResult read_pnm_attributes(FILE *pnm, int *pnm_width, int *pnm_height)
+{
+        int pnm_levels;
+        if (read_pnm_number(pnm, pnm_width) != NX_OK
+            || read_pnm_number(pnm, pnm_height) != NX_OK
+            || read_pnm_number(pnm, &pnm_levels) != NX_OK)
+                return NX_FAIL;
+
+        if (pnm_levels < 1 || pnm_levels > 255)
+                return NX_FAIL;
+
+        if (*pnm_height > 0 && *pnm_width > INT_MAX / 4 / *pnm_height)
+                return NX_FAIL;
+
+        return isspace(fgetc(pnm)) ? NX_OK : NX_FAIL;
+}
+
 void nx_image_xload_pnm(struct NXImage *img, const char *filename,
                         enum NXImageLoadMode mode)
 {
@@ -183,28 +223,11 @@ void nx_image_xload_pnm(struct NXImage *img, const char *filename,
                 pnm_type = NX_IMAGE_RGBA;
         }
 
-        int c = fgetc(pnm);
-        while (c == ' ' || c == '\n' || c == '\t') {
-                c = fgetc(pnm);
-        }
-
-        while (c == '#') {
-                while (c != '\n') {
-                        c = fgetc(pnm);
-                        if (c == EOF)
-                                NX_IO_FATAL(NX_LOG_TAG, "%s does not contain image data", filename);
-                }
-                c = fgetc(pnm);
-        }
-        ungetc(c, pnm);
-
         int pnm_width;
         int pnm_height;
-        int pnm_levels;
-        if (fscanf(pnm, "%d %d %d", &pnm_width, &pnm_height, &pnm_levels) != 3) {
-                NX_IO_FATAL(NX_LOG_TAG, "Could not read image attributes from %s", filename);
+        if (read_pnm_attributes(pnm, &pnm_width, &pnm_height) != NX_OK) {
+                NX_FATAL(NX_LOG_TAG, "Could not read image attributes from %s", filename);
         }
-        c = fgetc(pnm);
 
         enum NXImageType img_type;
         switch (mode) {
@@ -260,23 +283,12 @@ NXResult nx_image_load_pnm(struct NXImage *img, const char *filename,
 
         int pnm_width;
         int pnm_height;
-        int pnm_levels;
-
-        if (fscanf(pnm, "%d %d %d", &pnm_width, &pnm_height, &pnm_levels) != 3) {
-                NX_IO_ERROR(NX_LOG_TAG, "Could not read image attributes from %s", filename);
+        if (read_pnm_attributes(pnm, &pnm_width, &pnm_height) != NX_OK) {
+                NX_ERROR(NX_LOG_TAG, "Could not read image attributes from %s", filename);
                 fclose(pnm);
                 return NX_FAIL;
         }
 
-        // Skip a new line
-        char buffer[256];
-        if (fgets(buffer, sizeof(buffer), pnm) == NULL) {
-                NX_IO_ERROR(NX_LOG_TAG, "Error reading from %s", filename);
-                fclose(pnm);
-                return NX_FAIL;
-        }
-
-
         enum NXImageType img_type;
         switch (mode) {
         case NX_IMAGE_LOAD_GRAYSCALE:
-- 
2.43.0


From 0e1c780fc5ea043e8486595e8bb03435712e4965 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 00:01:41 +0000
Subject: [PATCH 26/73] fix: do not load three byte or gray-alpha PNG rows into
 images with another pixel size

---
 src/nx_image_io_png.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nx_image_io_png.c b/src/nx_image_io_png.c
index 3b25082..da1901b 100644
--- a/src/nx_image_io_png.c
+++ b/src/nx_image_io_png.c
@@ -169,12 +169,13 @@ static NXResult load_as_png(struct NXImage *img, FILE *fin,
                 if (color_type == PNG_COLOR_TYPE_GRAY ||
                     color_type == PNG_COLOR_TYPE_GA) {
                         png_set_gray_to_rgb(png_ptr);
-                        png_set_add_alpha(png_ptr, 255, PNG_FILLER_AFTER);
                 }
+                png_set_add_alpha(png_ptr, 255, PNG_FILLER_AFTER);
         } else {
                 if (color_type == PNG_COLOR_TYPE_GRAY ||
                     color_type == PNG_COLOR_TYPE_GA) {
                         output_type = NX_IMAGE_GRAYSCALE;
+                        png_set_strip_alpha(png_ptr);
                 }
 
                 if(color_type == PNG_COLOR_TYPE_RGB ||
-- 
2.43.0


From bb3555d0d0c3d85cda3263d493b28c6428d91d80 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 00:01:46 +0000
Subject: [PATCH 27/73] fix: refuse JPEG files with more than three channels

---
 src/nx_image_io_jpeg.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/nx_image_io_jpeg.c b/src/nx_image_io_jpeg.c
index becd4ad..cbc50f9 100644
--- a/src/nx_image_io_jpeg.c
+++ b/src/nx_image_io_jpeg.c
@@ -180,6 +180,13 @@ static NXResult load_as_jpeg(struct NXImage *img, FILE *jpeg_stream,
                 cinfo.out_color_space = JCS_RGB;
         }
 
+        if (cinfo.out_color_space != JCS_GRAYSCALE
+            && cinfo.out_color_space != JCS_RGB) {
+                NX_ERROR(NX_LOG_TAG, "Unsupported color space for loading from JPEG!");
+                jpeg_destroy_decompress(&cinfo);
+                return NX_FAIL;
+        }
+
         jpeg_start_decompress(&cinfo);
         nx_image_resize(img, cinfo.output_width, cinfo.output_height,
                         NX_IMAGE_STRIDE_DEFAULT, cinfo.output_components == 1 ? NX_IMAGE_GRAYSCALE : NX_IMAGE_RGBA, img->dtype);
-- 
2.43.0


From dfac7af1234a51498493d1ac7dff7a43e33d8121 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 00:02:14 +0000
Subject: [PATCH 28/73] fix: report data that could not be written when a
 stream is closed

---
 src/nx_io.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/nx_io.c b/src/nx_io.c
index 45c6161..864b5fe 100644
--- a/src/nx_io.c
+++ b/src/nx_io.c
@@ -50,7 +50,8 @@ void nx_xfclose(FILE *stream, const char *stream_label)
 
         int e = ferror(stream);
 
-        fclose(stream);
+        if (fclose(stream) != 0)
+                e = 1;
 
         if (e) {
                  NX_IO_FATAL(NX_LOG_TAG, "Error detected before closing stream %s",
@@ -78,7 +79,8 @@ NXResult nx_fclose(FILE *stream, const char *stream_label)
 
         int e = ferror(stream);
 
-        fclose(stream);
+        if (fclose(stream) != 0)
+                e = 1;
 
         if (e) {
                 NX_IO_ERROR(NX_LOG_TAG, "Error detected before closing stream %s",
-- 
2.43.0


From 5fe9848df4adfedce29e8d958963b2d459e6d7f5 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 00:52:09 +0000
Subject: [PATCH 29/73] fix: keep the pixels of level 0 when a pyramid is
 updated

nx_image_pyr_create_level() resized every level to default-stride uchar. The
update step calls it for level 0, which already holds the image: a float image
was destroyed and one with padded rows was sheared.
---
 src/nx_image_pyr.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/nx_image_pyr.c b/src/nx_image_pyr.c
index d3762bf..065427a 100644
--- a/src/nx_image_pyr.c
+++ b/src/nx_image_pyr.c
@@ -88,7 +88,10 @@ void nx_image_pyr_create_level(struct NXImagePyr *pyr, int level_id, int width,
 
         struct NXImagePyrLevel *level = pyr->levels + level_id;
 
-        nx_image_resize(level->img, width, height, 0, NX_IMAGE_GRAYSCALE, NX_IMAGE_UCHAR);
+        // an image that already has the right size keeps its layout and pixels
+        if (level->img->width != width || level->img->height != height
+            || level->img->type != NX_IMAGE_GRAYSCALE)
+                nx_image_resize(level->img, width, height, 0, NX_IMAGE_GRAYSCALE, NX_IMAGE_UCHAR);
 
         level->scale = scale;
         level->sigma = sigma;
-- 
2.43.0


From 9cbd30e14c1886d459ed43dc16c2682cd3095535 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 00:52:12 +0000
Subject: [PATCH 30/73] fix: define the setters of VGHarrisDetector

set_sigma_win(), set_k() and set_threshold() were declared but never defined,
so that no program using them could be linked.
---
 src/vg_harris_detector.cc | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/vg_harris_detector.cc b/src/vg_harris_detector.cc
index cbb6b59..5fb1f49 100644
--- a/src/vg_harris_detector.cc
+++ b/src/vg_harris_detector.cc
@@ -42,6 +42,21 @@ VGHarrisDetector::~VGHarrisDetector()
 {
 }
 
+void VGHarrisDetector::set_sigma_win(float sigma_win)
+{
+        m_sigma_win = sigma_win;
+}
+
+void VGHarrisDetector::set_k(float k)
+{
+        m_k = k;
+}
+
+void VGHarrisDetector::set_threshold(float threshold)
+{
+        m_threshold = threshold;
+}
+
 float VGHarrisDetector::adapt_threshold(float threshold, int n_keys,
                                         int max_n_keys)
 {
-- 
2.43.0


From e23951fdea277a7f1ae44e28184664bd66026e32 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 00:52:15 +0000
Subject: [PATCH 31/73] fix: read BRIEF extractors back as they were written

nx_brief_extractor_read() passed radius and number of octets to resize in the
wrong order (and unchecked), so that the wrong number of offsets was read.
---
 src/nx_brief_extractor.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/nx_brief_extractor.c b/src/nx_brief_extractor.c
index ed3a74b..e9bc790 100644
--- a/src/nx_brief_extractor.c
+++ b/src/nx_brief_extractor.c
@@ -373,7 +373,10 @@ NXResult nx_brief_extractor_read(struct NXBriefExtractor *be, FILE *stream)
         if (fread(&n_octets, sizeof(n_octets), 1, stream) != 1)
                 return NX_FAIL;
 
-        nx_brief_extractor_resize(be, radius, n_octets);
+        if (radius <= 0 || n_octets <= 0)
+                return NX_FAIL;
+
+        nx_brief_extractor_resize(be, n_octets, radius);
 
         int n_offsets = be->n_octets*4*8;
         if (fread(be->offsets, sizeof(*be->offsets), n_offsets, stream) != (size_t)n_offsets)
-- 
2.43.0


From 2a614c56dc19d5c9d7ec15d675510bf2f7eda250 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 00:52:18 +0000
Subject: [PATCH 32/73] fix: BRIEF extractors with a radius below four do not
 loop forever

The test pairs have to be at least three pixels apart, which a small patch
cannot always provide. Ask only for what is possible from the patch center.
---
 src/nx_brief_extractor.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/nx_brief_extractor.c b/src/nx_brief_extractor.c
index e9bc790..bf00581 100644
--- a/src/nx_brief_extractor.c
+++ b/src/nx_brief_extractor.c
@@ -147,6 +147,9 @@ void nx_brief_extractor_randomize_with_seed(struct NXBriefExtractor *be, uint32_
 
         int length = be->n_octets * 8;
         int radius = be->radius;
+        int min_d2 = NX_BRIEF_TEST_PAIR_MIN_DISTANCE2;
+        if (radius < 4)
+                min_d2 = nx_min_i(min_d2, 2*(radius-1)*(radius-1));
         for (int i = 0; i < length; ++i) {
                 int x0, y0;
                 x0 = 2*radius*(nx_uniform_sampler_sample_s(sampler) - 0.5f);
@@ -160,7 +163,7 @@ void nx_brief_extractor_randomize_with_seed(struct NXBriefExtractor *be, uint32_
                         int dx = x1 - x0;
                         int dy = y1 - y0;
                         d2 = dx*dx + dy*dy;
-                } while (d2 < NX_BRIEF_TEST_PAIR_MIN_DISTANCE2);
+                } while (d2 < min_d2);
 
                 be->offsets[4*i]   = x0;
                 be->offsets[4*i+1] = y0;
-- 
2.43.0


From 769c0f124e531bf23f62ecb272780f4996a0adc5 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 00:52:21 +0000
Subject: [PATCH 33/73] fix: rotated BRIEF rejects keypoints without a level to
 sample

nx_brief_extractor_compute_pyr_at_theta() reports by its return value that a
descriptor cannot be computed, but read past the last level of the pyramid.
---
 src/nx_brief_extractor.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/nx_brief_extractor.c b/src/nx_brief_extractor.c
index bf00581..45003c7 100644
--- a/src/nx_brief_extractor.c
+++ b/src/nx_brief_extractor.c
@@ -242,6 +242,8 @@ NXBool nx_brief_extractor_compute_pyr_at_theta(struct NXBriefExtractor *be, cons
         NX_ASSERT_PTR(desc);
 
         int sample_level = level + be->pyr_level_offset;
+        if (sample_level >= pyr->n_levels)
+                return NX_FALSE;
         const struct NXImage *img = pyr->levels[sample_level].img;
         NX_IMAGE_ASSERT_GRAYSCALE_UCHAR(img);
 
-- 
2.43.0


From 0b4fae6a35da4717f7e0fdd79e05ed1ea8b0b679 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 01:41:03 +0000
Subject: [PATCH 34/73] fix: RANSAC samples draw four distinct correspondences

---
 src/nx_homography.c      | 2 +-
 src/nx_usac_homography.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nx_homography.c b/src/nx_homography.c
index eb8d915..46c6195 100644
--- a/src/nx_homography.c
+++ b/src/nx_homography.c
@@ -270,7 +270,7 @@ static inline void nx_select_prosac_candidates(int n_top, int corr_ids[4])
 
         do {
             corr_ids[3] = (int)(NX_UNIFORM_SAMPLE_S*n_top);
-        } while(corr_ids[3]==corr_ids[1] || corr_ids[3]==corr_ids[1] || corr_ids[3]==corr_ids[0]);
+        } while(corr_ids[3]==corr_ids[2] || corr_ids[3]==corr_ids[1] || corr_ids[3]==corr_ids[0]);
 }
 
 int nx_homography_estimate_ransac(double *h, int n_corr, struct NXPointMatch2D *corr_list, double inlier_tolerance, int max_n_iter)
diff --git a/src/nx_usac_homography.c b/src/nx_usac_homography.c
index 6f6f96c..b5b3f2f 100644
--- a/src/nx_usac_homography.c
+++ b/src/nx_usac_homography.c
@@ -61,7 +61,7 @@ void nx_usac_homography_sampling(int *sample_ids, void *data)
 
         do {
             sample_ids[3] = (int)(NX_UNIFORM_SAMPLE_S * hdata->n_top_hypo);
-        } while(sample_ids[3]==sample_ids[1] || sample_ids[3]==sample_ids[1] || sample_ids[3]==sample_ids[0]);
+        } while(sample_ids[3]==sample_ids[2] || sample_ids[3]==sample_ids[1] || sample_ids[3]==sample_ids[0]);
 }
 
 NXBool nx_usac_check_homography_sample(const int *sample_ids,
-- 
2.43.0


From b73c883d698f764270728e48a23a5c28b26cab29 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 01:41:06 +0000
Subject: [PATCH 35/73] fix: normalising coincident point matches keeps them
 finite

---
 src/nx_point_match_2d_stats.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/nx_point_match_2d_stats.c b/src/nx_point_match_2d_stats.c
index 624ba6f..859bb20 100644
--- a/src/nx_point_match_2d_stats.c
+++ b/src/nx_point_match_2d_stats.c
@@ -85,6 +85,12 @@ void nx_point_match_2d_stats_normalize_matches(struct NXPointMatch2DStats *stats
         stats->d /= n_corr;
         stats->dp /= n_corr;
 
+        // coincident points have no extent to scale by
+        if (stats->d == 0.0)
+                stats->d = 1.0;
+        if (stats->dp == 0.0)
+                stats->dp = 1.0;
+
         for (int i = 0; i < n_corr; ++i) {
                 struct NXPointMatch2D *corr = corr_list + i;
                 corr->x[0]     /= stats->d;
-- 
2.43.0


From 1eac913dfd7ed0a36594860059159df15782785a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 01:41:09 +0000
Subject: [PATCH 36/73] fix: a degenerate source quadrilateral has no four
 point homography

---
 src/nx_homography.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nx_homography.c b/src/nx_homography.c
index 46c6195..6d0d08d 100644
--- a/src/nx_homography.c
+++ b/src/nx_homography.c
@@ -157,7 +157,8 @@ double nx_homography_estimate_4pt(double *h, const int corr_ids[4], const struct
         }
 
         double hu[9];
-        nx_homography_estimate_unit(hu, x);
+        if (nx_homography_estimate_unit(hu, x) == 0.0)
+                return 0.0;
 
         double xp[8];
         for( int i = 0; i < 4; ++i ) {
-- 
2.43.0


From b7d55c2f466aa50be7af8c0b6dde52317fbc8796 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 01:41:12 +0000
Subject: [PATCH 37/73] fix: homography angle check does not depend on the
 scale of the map

---
 src/nx_homography.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nx_homography.c b/src/nx_homography.c
index 6d0d08d..92c8f17 100644
--- a/src/nx_homography.c
+++ b/src/nx_homography.c
@@ -74,7 +74,7 @@ NXBool nx_homography_check(const double *h, double max_abs_cos)
         double l_AC[3];
         line_eqn_2d(&A[0], &C[0], &l_AC[0]);
 
-        double n_inv = 1.0 / (l_AC[0]*l_AC[0] + l_AC[1]*l_AC[1]);
+        double n_inv = 1.0 / sqrt(l_AC[0]*l_AC[0] + l_AC[1]*l_AC[1]);
         l_AC[0] *= n_inv;
         l_AC[1] *= n_inv;
         l_AC[2] *= n_inv;
@@ -87,7 +87,7 @@ NXBool nx_homography_check(const double *h, double max_abs_cos)
         double AC[2] = { -l_AC[1], l_AC[0] };
         double BD[2] = { B[0] - D[0], B[1] - D[1] };
 
-        n_inv = 1.0 / (BD[0]*BD[0] + BD[1]*BD[1]);
+        n_inv = 1.0 / sqrt(BD[0]*BD[0] + BD[1]*BD[1]);
         BD[0] *= n_inv;
         BD[1] *= n_inv;
 
-- 
2.43.0


From 87cc97c2b2958d8b65cb46860f94f1adfe0d7ff2 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 01:41:15 +0000
Subject: [PATCH 38/73] fix: uniform float samples stay below one

---
 src/nx_uniform_sampler.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/nx_uniform_sampler.c b/src/nx_uniform_sampler.c
index fa94b8f..a2f772f 100644
--- a/src/nx_uniform_sampler.c
+++ b/src/nx_uniform_sampler.c
@@ -26,6 +26,7 @@
 #include "virg/nexus/nx_uniform_sampler.h"
 
 #include <stdlib.h>
+#include <float.h>
 #include <time.h>
 
 #include "virg/nexus/nx_alloc.h"
@@ -113,7 +114,9 @@ void nx_uniform_sampler_fill64(struct NXUniformSampler *sampler, int n, uint64_t
 
 float nx_uniform_sampler_sample_s(struct NXUniformSampler *sampler)
 {
-        return sfmt_genrand_real2(&sampler->state);
+        // rounding to single precision may yield one, which is out of range
+        float s = sfmt_genrand_real2(&sampler->state);
+        return s < 1.0f ? s : 1.0f - FLT_EPSILON / 2;
 }
 
 double nx_uniform_sampler_sample_d(struct NXUniformSampler *sampler)
-- 
2.43.0


From 4fa521f9674687c1b42e2c99f82d8f01bbf6ee81 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 01:52:54 +0000
Subject: [PATCH 39/73] fix: RANSAC without a usable sample does not score
 indeterminate models

---
 src/nx_homography.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/nx_homography.c b/src/nx_homography.c
index 92c8f17..39cbbdd 100644
--- a/src/nx_homography.c
+++ b/src/nx_homography.c
@@ -278,7 +278,7 @@ int nx_homography_estimate_ransac(double *h, int n_corr, struct NXPointMatch2D *
 {
         double min_angle = 15.0 * NX_PI / 180.0;
         double max_abs_cos = fabs(cos(min_angle));
-        double h_best[9];
+        double h_best[9] = { 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0 };
         int n_inliers_best = 0;
         int n_inliers = 0;
         int corr_ids[4];
@@ -286,6 +286,9 @@ int nx_homography_estimate_ransac(double *h, int n_corr, struct NXPointMatch2D *
         if (n_corr < 4)
             return 0;
 
+        // samples may all be degenerate and leave the model unset
+        memcpy(h, h_best, 9*sizeof(h[0]));
+
         // This routine mimics PROSAC by reordering and sampling from the top
         // group. In every iteration the top group grows by PROSAC_INC
         const int PROSAC_START = 10;
-- 
2.43.0


From 5892271cb9328e4ae21955f48808b6c20d71a7a3 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 01:52:57 +0000
Subject: [PATCH 40/73] fix: DLT from four correspondences returns its zero
 residual

---
 src/nx_homography.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nx_homography.c b/src/nx_homography.c
index 39cbbdd..19deffd 100644
--- a/src/nx_homography.c
+++ b/src/nx_homography.c
@@ -199,7 +199,8 @@ static inline void nx_homography_constraints_from_corr(double *rcons, const stru
 static inline double nx_homography_svd_solve(double *h, int n_corr, double *A)
 {
         double U[9*9];
-        double S[9];
+        // four correspondences have only eight singular values
+        double S[9] = { 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0 };
         nx_dsvd_us(&U[0], 9, &S[0], 9, 2*n_corr, A, 9);
 
         h[0] = U[9*8+0];
-- 
2.43.0


From 093f6b6c686558aa86e923aa27ce139ca7fc5a61 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 02:08:47 +0000
Subject: [PATCH 41/73] fix: integer comparison orders values whose difference
 overflows

---
 include/virg/nexus/nx_math.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/virg/nexus/nx_math.h b/include/virg/nexus/nx_math.h
index 0ff585c..cb74556 100644
--- a/include/virg/nexus/nx_math.h
+++ b/include/virg/nexus/nx_math.h
@@ -102,7 +102,7 @@ int nx_compare_int_incr(const void *i0p, const void *i1p)
         int i0 = *(int *)i0p;
         int i1 = *(int *)i1p;
 
-        return i0 - i1;
+        return (i0 > i1) - (i0 < i1);
 }
 
 __NX_END_DECL
-- 
2.43.0


From a56ecf3d4d5885f586b1762919806b40c8546cc6 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 02:08:50 +0000
Subject: [PATCH 42/73] fix: medians of integers do not overflow

---
 src/nx_statistics.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/nx_statistics.c b/src/nx_statistics.c
index 282ade1..491aea8 100644
--- a/src/nx_statistics.c
+++ b/src/nx_statistics.c
@@ -135,17 +135,17 @@ void nx_istatistics_1d(struct NXStatistics1D *stats, int n, int *x)
                         stats->lower_quartile = x[half_half_n];
                         stats->upper_quartile = x[half_n + half_half_n + 1];
                 } else {
-                        stats->lower_quartile = (x[half_half_n - 1] + x[half_half_n]) / 2.0;
-                        stats->upper_quartile = (x[half_n + half_half_n] + x[half_n + half_half_n + 1]) / 2.0;
+                        stats->lower_quartile = ((double)x[half_half_n - 1] + x[half_half_n]) / 2.0;
+                        stats->upper_quartile = ((double)x[half_n + half_half_n] + x[half_n + half_half_n + 1]) / 2.0;
                 }
         } else {
-                stats->median = (x[half_n - 1] + x[half_n]) / 2.0;
+                stats->median = ((double)x[half_n - 1] + x[half_n]) / 2.0;
                 if (half_n & 1) {
                         stats->lower_quartile = x[half_half_n];
                         stats->upper_quartile = x[half_n + half_half_n];
                 } else {
-                        stats->lower_quartile = (x[half_half_n - 1] + x[half_half_n]) / 2.0;
-                        stats->upper_quartile = (x[half_n + half_half_n - 1] + x[half_n + half_half_n]) / 2.0;
+                        stats->lower_quartile = ((double)x[half_half_n - 1] + x[half_half_n]) / 2.0;
+                        stats->upper_quartile = ((double)x[half_n + half_half_n - 1] + x[half_n + half_half_n]) / 2.0;
                 }
         }
         stats->interquartile_range = stats->upper_quartile - stats->lower_quartile;
-- 
2.43.0


From f1b5ccd1e90adedef710269cac1f66a491af946a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 02:08:53 +0000
Subject: [PATCH 43/73] fix: nx_getline returns -1 at the end of the stream

---
 src/nx_io.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/nx_io.c b/src/nx_io.c
index 864b5fe..d6651da 100644
--- a/src/nx_io.c
+++ b/src/nx_io.c
@@ -199,9 +199,11 @@ ssize_t nx_getline(char **line, size_t *n, FILE *stream)
                 NX_EXPAND_IF_NECESSARY_AND_APPEND_CHAR(line,n,idx,c);
         }
 
+        NXBool is_at_end = (c == EOF && idx == 0);
+
         NX_EXPAND_IF_NECESSARY_AND_APPEND_CHAR(line,n,idx,0);
 
-        if (idx == 0) {
+        if (is_at_end) {
                 return -1;
         } else {
                 return idx - 1;
-- 
2.43.0


From 02e5837f7356ed4c8ceaf40c8f9d06756ee576ed Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 02:08:55 +0000
Subject: [PATCH 44/73] fix: nx_strread refuses a length that leaves no room
 for the terminator

---
 src/nx_string.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/nx_string.c b/src/nx_string.c
index 07af31e..3cc66e5 100644
--- a/src/nx_string.c
+++ b/src/nx_string.c
@@ -26,6 +26,7 @@
 #include "virg/nexus/nx_string.h"
 
 #include <string.h>
+#include <stdint.h>
 #include <stdio.h>
 
 #include "virg/nexus/nx_types.h"
@@ -118,6 +119,9 @@ int nx_strread(char **s, size_t size, FILE *stream)
         if (fread(&ls, sizeof(ls), 1, stream) != 1)
                 return 1;
 
+        if (ls == SIZE_MAX)
+                return 1;
+
         if (ls >= size)
                 *s = nx_xrealloc(*s, (ls+1)*sizeof(**s));
 
-- 
2.43.0


From 31f1bbab862b1c8418bddd5d15d1fd8db4a5e5c4 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 02:09:01 +0000
Subject: [PATCH 45/73] fix: the largest element of a vector of lowest values
 has an index

---
 include/virg/nexus/nx_vec.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/virg/nexus/nx_vec.h b/include/virg/nexus/nx_vec.h
index 96d6a43..036e6ee 100644
--- a/include/virg/nexus/nx_vec.h
+++ b/include/virg/nexus/nx_vec.h
@@ -171,7 +171,7 @@ static inline int nx_svec_max_idx(int n, const float *v)
         int max_idx = -1;
         float max_val = -FLT_MAX;
         for (int i = 0; i < n; ++i) {
-                if (v[i] > max_val) {
+                if (v[i] > max_val || (max_idx < 0 && v[i] == max_val)) {
                         max_idx = i;
                         max_val = v[i];
                 }
@@ -224,7 +224,7 @@ static inline int nx_ivec_max_idx(int n, const int *v)
         int max_idx = -1;
         int max_val = INT_MIN;
         for (int i = 0; i < n; ++i) {
-                if (v[i] > max_val) {
+                if (v[i] > max_val || (max_idx < 0 && v[i] == max_val)) {
                         max_idx = i;
                         max_val = v[i];
                 }
-- 
2.43.0


From 96b0375ee89d18099f05d26302b3bc6f118a856d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 02:52:00 +0000
Subject: [PATCH 46/73] fix: mirrored borders longer than the data are
 reflected again

---
 src/nx_filter.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/nx_filter.c b/src/nx_filter.c
index 3ba3332..3e7caa9 100644
--- a/src/nx_filter.c
+++ b/src/nx_filter.c
@@ -133,6 +133,8 @@ void nx_convolve_box(int n, float *data, int n_r)
 void fill_buffer_border(int n, float *buffer, int n_border, enum NXBorderMode mode)
 {
         float buffer_b;
+        if (n == 1 && mode == NX_BORDER_MIRROR)
+                mode = NX_BORDER_REPEAT;
         switch (mode) {
         case NX_BORDER_ZERO:
                 memset(buffer, 0, n_border * sizeof(float));
@@ -147,10 +149,10 @@ void fill_buffer_border(int n, float *buffer, int n_border, enum NXBorderMode mo
                         buffer[n_border+n+i] = buffer_b;
                 break;
         case NX_BORDER_MIRROR:
-                for (int i = 0; i < n_border; ++i)
-                        buffer[i] = buffer[2*n_border-i];
-                for (int i = 0; i < n_border; ++i)
+                for (int i = 0; i < n_border; ++i) {
+                        buffer[n_border-1-i] = buffer[n_border+1+i];
                         buffer[n_border+n+i] = buffer[n_border+n-i-2];
+                }
                 break;
         default:
                 NX_FATAL(NX_LOG_TAG, "Unhandled switch case for border mode.");
-- 
2.43.0


From c205384d596cca5ee90edf0b92b3069340981345 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 02:52:02 +0000
Subject: [PATCH 47/73] fix: affine image warps interpolate positions just left
 of or above the image

---
 src/nx_image_warp.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nx_image_warp.c b/src/nx_image_warp.c
index f33cfde..df28efd 100644
--- a/src/nx_image_warp.c
+++ b/src/nx_image_warp.c
@@ -62,8 +62,8 @@ void nx_image_warp_affine_bilinear(int dest_w, int dest_h, uchar *dest, int dest
                                          /* x, y, xp, yp); */
                         /* } */
 
-                        int xpi = xp;
-                        int ypi = yp;
+                        int xpi = floorf(xp);
+                        int ypi = floorf(yp);
 
                         float u = xp-xpi;
                         float v = yp-ypi;
-- 
2.43.0


From 7684ce1bdf1ff8377a96f46dd8cd77a99b9fb4df Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 02:52:05 +0000
Subject: [PATCH 48/73] fix: mirrored warps of far positions and of images one
 pixel wide stay inside the image

---
 src/nx_image_warp.c | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/src/nx_image_warp.c b/src/nx_image_warp.c
index df28efd..332b622 100644
--- a/src/nx_image_warp.c
+++ b/src/nx_image_warp.c
@@ -27,11 +27,22 @@
 
 #include <float.h>
 #include <math.h>
+#include <stdlib.h>
 
 #include "virg/nexus/nx_assert.h"
 #include "virg/nexus/nx_log.h"
 #include "virg/nexus/nx_uniform_sampler.h"
 
+static inline int mirror_index(int i, int n)
+{
+        if (n == 1)
+                return 0;
+
+        const int PERIOD = 2 * n - 2;
+        i = abs(i) % PERIOD;
+        return i < n ? i : PERIOD - i;
+}
+
 void nx_image_warp_affine_bilinear(int dest_w, int dest_h, uchar *dest, int dest_stride,
                                    int src_w, int src_h, const uchar *src, int src_stride,
                                    const float *t_dest2src, enum NXImageWarpBackgroundMode bg_mode)
@@ -42,8 +53,6 @@ void nx_image_warp_affine_bilinear(int dest_w, int dest_h, uchar *dest, int dest
 
         const int LAST_X = src_w - 1;
         const int LAST_Y = src_h - 1;
-        const int W2 = src_w * 2 - 2;
-        const int H2 = src_h * 2 - 2;
 
         uchar bg_fixed = 0;
         if (bg_mode == NX_IMAGE_WARP_WHITE)
@@ -108,20 +117,9 @@ void nx_image_warp_affine_bilinear(int dest_w, int dest_h, uchar *dest, int dest
                                 }
                                 break;
                         case NX_IMAGE_WARP_MIRROR:
-                                if (idx[0] < 0) {
-                                        if (idx[0] < 0) idx[0] =  -idx[0] - W2 * (-idx[0] / W2);
-                                        if (idx[1] < 0) idx[1] =  -idx[1] - W2 * (-idx[1] / W2);
-                                } else if (idx[0] >= LAST_X) {
-                                        if (idx[0] >= src_w) idx[0] = W2 - idx[0] - W2 * (idx[0] / W2);
-                                        if (idx[1] >= src_w) idx[1] = W2 - idx[1] - W2 * (idx[1] / W2);
-                                }
-
-                                if (idy[0] < 0) {
-                                        if (idy[0] < 0) idy[0] =  -idy[0] - H2 * (-idy[0] / H2);
-                                        if (idy[1] < 0) idy[1] =  -idy[1] - H2 * (-idy[1] / H2);
-                                } else if (idy[0] >= LAST_Y) {
-                                        if (idy[0] >= src_h) idy[0] = H2 - idy[0] - H2 * (idy[0] / H2);
-                                        if (idy[1] >= src_h) idy[1] = H2 - idy[1] - H2 * (idy[1] / H2);
+                                for (int i = 0; i < 2; ++i) {
+                                        idx[i] = mirror_index(idx[i], src_w);
+                                        idy[i] = mirror_index(idy[i], src_h);
                                 }
                                 break;
                         }
-- 
2.43.0


From 9e3c4533a2f286785e14cc151780d5fab7506d2d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 02:52:08 +0000
Subject: [PATCH 49/73] fix: rotations by 45 degrees leave positions outside
 the image black

---
 src/nx_image_warp.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/nx_image_warp.c b/src/nx_image_warp.c
index 332b622..05e35ad 100644
--- a/src/nx_image_warp.c
+++ b/src/nx_image_warp.c
@@ -159,8 +159,8 @@ static void nx_image_rotate45_uc(struct NXImage *dest, struct NXImage *src, NXBo
                 float yp = y*SQRT2_INV + TY;
                 for (int x = 0; x < dest->width;
                      ++x, xp += SQRT2_INV, yp -= CW*SQRT2_INV) {
-                        int xpi = xp;
-                        int ypi = yp;
+                        int xpi = floorf(xp);
+                        int ypi = floorf(yp);
 
                         float u = xp-xpi;
                         float v = yp-ypi;
@@ -210,8 +210,8 @@ static void nx_image_rotate45_f32(struct NXImage *dest, struct NXImage *src, NXB
                 float yp = y*SQRT2_INV + TY;
                 for (int x = 0; x < dest->width;
                      ++x, xp += SQRT2_INV, yp -= CW*SQRT2_INV) {
-                        int xpi = xp;
-                        int ypi = yp;
+                        int xpi = floorf(xp);
+                        int ypi = floorf(yp);
 
                         float u = xp-xpi;
                         float v = yp-ypi;
-- 
2.43.0


From 9dd8a47f02c983889b34191abe62759fdbc85213 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 02:52:10 +0000
Subject: [PATCH 50/73] fix: rotating a float image by 45 degrees keeps
 fractions

---
 src/nx_image_warp.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/nx_image_warp.c b/src/nx_image_warp.c
index 05e35ad..45aaaea 100644
--- a/src/nx_image_warp.c
+++ b/src/nx_image_warp.c
@@ -228,10 +228,8 @@ static void nx_image_rotate45_f32(struct NXImage *dest, struct NXImage *src, NXB
                         }
                         const float *p0 = src->data.f32 + idy[0]*src->row_stride;
                         const float *p1 = src->data.f32 + idy[1]*src->row_stride;
-                        int I = vp*(up*p0[idx[0]] + u*p0[idx[1]])
+                        drow[x] = vp*(up*p0[idx[0]] + u*p0[idx[1]])
                                 + v*(up*p1[idx[0]] + u*p1[idx[1]]);
-
-                        drow[x] = I;
                 }
         }
 }
-- 
2.43.0


From 8d4bc3d7c86d660b9fbe1f58ca3a411cea67b74e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 02:52:13 +0000
Subject: [PATCH 51/73] fix: the warp processor interpolates only positions
 inside its buffer

---
 src/nx_affine_warp_processor.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nx_affine_warp_processor.c b/src/nx_affine_warp_processor.c
index a58eb29..6ab67a2 100644
--- a/src/nx_affine_warp_processor.c
+++ b/src/nx_affine_warp_processor.c
@@ -540,8 +540,8 @@ static void warp_buffer_affine_bilinear(const struct NXImage* in_buffer,
                 float xp = y*t[3] + t[6];
                 float yp = y*t[4] + t[7];
                 for (int x = 0; x < out_buffer->width; ++x, xp += t[0], yp += t[1]) {
-                        int xpi = xp;
-                        int ypi = yp;
+                        int xpi = floorf(xp);
+                        int ypi = floorf(yp);
 
                         if (xpi < 0 || xpi >= LAST_X
                             || ypi < 0 || ypi >= LAST_Y) {
-- 
2.43.0


From a1d24217d672f55763983725b2c554e0ef5282a4 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 02:52:16 +0000
Subject: [PATCH 52/73] fix: the warp processor skips blurs of zero width

---
 src/nx_affine_warp_processor.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/nx_affine_warp_processor.c b/src/nx_affine_warp_processor.c
index 6ab67a2..71229b5 100644
--- a/src/nx_affine_warp_processor.c
+++ b/src/nx_affine_warp_processor.c
@@ -674,11 +674,15 @@ static void warp_processor_blur(struct NXImage *image,
 
         // Smooth in x-direction
         int nk = nkx / 2 + 1;
-        nx_kernel_sym_gaussian(nk, kernel, sigma_x);
+        int n_rows = 0;
+        if (sigma_x > 0.0f) {
+                n_rows = image->height;
+                nx_kernel_sym_gaussian(nk, kernel, sigma_x);
+        }
 #ifdef _OPENMP
 #pragma omp parallel for schedule(dynamic, 4)
 #endif
-        for (int y = 0; y < image->height; ++y) {
+        for (int y = 0; y < n_rows; ++y) {
                 float *buffer = buffers[omp_get_thread_num()];
                 uchar *image_row = image->data.uc + y * image->row_stride;
                 nx_filter_copy_to_buffer1_uc(image->width, buffer, image_row, nkx / 2, NX_BORDER_MIRROR);
@@ -689,11 +693,15 @@ static void warp_processor_blur(struct NXImage *image,
 
         // Smooth in y-direction
         nk = nky / 2 + 1;
-        nx_kernel_sym_gaussian(nk, kernel, sigma_y);
+        int n_cols = 0;
+        if (sigma_y > 0.0f) {
+                n_cols = image->width;
+                nx_kernel_sym_gaussian(nk, kernel, sigma_y);
+        }
 #ifdef _OPENMP
 #pragma omp parallel for schedule(dynamic, 4)
 #endif
-        for (int x = 0; x < image->width; ++x) {
+        for (int x = 0; x < n_cols; ++x) {
                 float *buffer = buffers[omp_get_thread_num()];
                 uchar *image_col = image->data.uc + x;
                 nx_filter_copy_to_buffer_uc(image->height, buffer, image_col, image->row_stride, nky / 2, NX_BORDER_MIRROR);
-- 
2.43.0


From 2164d291cf4cd537509afa85ccea4b37a1d60666 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 02:52:24 +0000
Subject: [PATCH 53/73] fix: gray colors keep their gray level

---
 include/virg/nexus/nx_colorspace.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/virg/nexus/nx_colorspace.h b/include/virg/nexus/nx_colorspace.h
index 24ab2fb..677c7df 100644
--- a/include/virg/nexus/nx_colorspace.h
+++ b/include/virg/nexus/nx_colorspace.h
@@ -33,7 +33,7 @@ __NX_BEGIN_DECL
 
 static inline uchar nx_rgb_to_gray_uc(uchar r, uchar g, uchar b)
 {
-        int gray = r*0.3f + g*0.59f + b*0.11f;
+        int gray = (30*r + 59*g + 11*b) / 100;
 
         if (gray < 0)
                 return 0;
-- 
2.43.0


From 693f40af6c87f9eee8b60096c802043086de639c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 02:52:27 +0000
Subject: [PATCH 54/73] fix: color maps clip values outside the unit interval

---
 src/nx_colorspace.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/nx_colorspace.c b/src/nx_colorspace.c
index cf94c13..29c1516 100644
--- a/src/nx_colorspace.c
+++ b/src/nx_colorspace.c
@@ -120,6 +120,11 @@ static void interpolate_color_map_data(float *rgb, float value,
 void nx_color_map_apply(uchar* red, uchar* green, uchar* blue,
                         float value, enum NXColorMap map)
 {
+        if (!(value > 0.0f))
+                value = 0.0f;
+        else if (value > 1.0f)
+                value = 1.0f;
+
         float rgb[3];
         switch (map) {
         case NX_COLOR_MAP_VIRIDIS:
-- 
2.43.0


From 0c66c99895863a9e07789adcf146c639e9a2d124 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 02:52:30 +0000
Subject: [PATCH 55/73] fix: a Kitti sequence without ground truth opens
 without it

---
 src/nx_kitti_slam.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nx_kitti_slam.c b/src/nx_kitti_slam.c
index d4c840f..6b0667a 100644
--- a/src/nx_kitti_slam.c
+++ b/src/nx_kitti_slam.c
@@ -139,7 +139,7 @@ struct NXKittiSLAMSequence *nx_kitti_slam_sequence_new(struct NXKittiSLAM *datas
         char *pose_file = nx_fstr(NX_KITTI_SLAM_POSE_FILE_FORMAT,
                                   dataset->base_dir, seq_id);
         FILE *pose_in = nx_fopen(pose_file, "r");
-        seq->is_gt_available = (pose_file != NULL);
+        seq->is_gt_available = (pose_in != NULL);
         if (seq->is_gt_available) {
                 seq->poses = nx_read_poses_from_pose_file(pose_in, &seq->length);
                 nx_fclose(pose_in, "pose_in");
-- 
2.43.0


From 3d44212cb41dda6212812ebbcf7fc65626d02d03 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 03:27:16 +0000
Subject: [PATCH 56/73] fix: second camera's principal point and skew are used
 in nx_essential_from_fundamental

---
 src/nx_epipolar.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/nx_epipolar.c b/src/nx_epipolar.c
index 1273bb1..f503621 100644
--- a/src/nx_epipolar.c
+++ b/src/nx_epipolar.c
@@ -316,12 +316,12 @@ void nx_essential_from_fundamental(double *E, const double *F,
         E[0] = Kp[0]*Fk[0];
         E[3] = Kp[0]*Fk[3];
         E[6] = Kp[0]*Fk[6];
-        E[1] = Kp[1]*Fk[0] + Kp[4]*Fk[1];
-        E[4] = Kp[1]*Fk[3] + Kp[4]*Fk[4];
-        E[7] = Kp[1]*Fk[6] + Kp[4]*Fk[7];
-        E[2] = Kp[2]*Fk[0] + Kp[5]*Fk[1] + Fk[2];
-        E[5] = Kp[2]*Fk[3] + Kp[5]*Fk[4] + Fk[5];
-        E[8] = Kp[2]*Fk[6] + Kp[5]*Fk[7] + Fk[8];
+        E[1] = Kp[3]*Fk[0] + Kp[4]*Fk[1];
+        E[4] = Kp[3]*Fk[3] + Kp[4]*Fk[4];
+        E[7] = Kp[3]*Fk[6] + Kp[4]*Fk[7];
+        E[2] = Kp[6]*Fk[0] + Kp[7]*Fk[1] + Fk[2];
+        E[5] = Kp[6]*Fk[3] + Kp[7]*Fk[4] + Fk[5];
+        E[8] = Kp[6]*Fk[6] + Kp[7]*Fk[7] + Fk[8];
 }
 
 
-- 
2.43.0


From 93c6d4c2dd4e38f10a76af9f3fcbd2be40928e3f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 03:27:19 +0000
Subject: [PATCH 57/73] fix: triangulation stops when the output buffers are
 full

---
 src/nx_pinhole.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nx_pinhole.c b/src/nx_pinhole.c
index 138ff35..438b32b 100644
--- a/src/nx_pinhole.c
+++ b/src/nx_pinhole.c
@@ -144,7 +144,7 @@ int nx_pinhole_triangulate(int n_pt, float *X, int *corr_ids,
         double U[16];
         double S[4];
         int pt_i = 0;
-        for (int i = 0; i < n_corr; ++i) {
+        for (int i = 0; i < n_corr && pt_i < n; ++i) {
                 if (corr_list[i].is_inlier) {
                         nx_triangulation_constraints_from_corr(&A[0],
                                                                corr_list + i,
-- 
2.43.0


From 42d72f3905c0c38215968d85a6cab62a3531586f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 03:27:21 +0000
Subject: [PATCH 58/73] fix: eight-point candidates are distinct from the first
 one too

---
 src/nx_epipolar.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nx_epipolar.c b/src/nx_epipolar.c
index f503621..d4b7896 100644
--- a/src/nx_epipolar.c
+++ b/src/nx_epipolar.c
@@ -195,7 +195,7 @@ static inline void nx_select_prosac_candidates(int n_top, int corr_ids[8])
         corr_ids[0] = (int)(NX_UNIFORM_SAMPLE_S*n_top);
         for (int i = 1; i < 8; ++i) {
                 corr_ids[i] = (int)(NX_UNIFORM_SAMPLE_S*n_top);
-                for (int j = i-1; j > 0; --j)
+                for (int j = i-1; j >= 0; --j)
                         if (corr_ids[i] == corr_ids[j]) {
                                 --i;
                                 break;
-- 
2.43.0


From 50bfa5e9fbc0433f056056e156681725d2c6f89f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 03:27:24 +0000
Subject: [PATCH 59/73] fix: the eight-point estimates return a defined
 singular value

---
 src/nx_epipolar.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nx_epipolar.c b/src/nx_epipolar.c
index d4b7896..43e2c98 100644
--- a/src/nx_epipolar.c
+++ b/src/nx_epipolar.c
@@ -75,7 +75,7 @@ static inline void nx_fundamental_constraints_from_corr(double *rcons, const str
 static inline double nx_fundamental_svd_solve(double *F, int n_corr, double *A)
 {
         double U[9*9];
-        double S[9];
+        double S[9] = { 0.0 }; // only eight are computed from eight points
         nx_dsvd_us(&U[0], 9, &S[0], 9, n_corr, A, 9);
 
         F[0] = U[9*8+0];
-- 
2.43.0


From 9bfb3ba9b7f6949413cee0256ccc6a62894814c1 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 03:27:27 +0000
Subject: [PATCH 60/73] fix: fundamental matrix RANSAC without any hypothesis
 keeps F defined

---
 src/nx_epipolar.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/nx_epipolar.c b/src/nx_epipolar.c
index 43e2c98..65904ea 100644
--- a/src/nx_epipolar.c
+++ b/src/nx_epipolar.c
@@ -259,8 +259,9 @@ int nx_fundamental_estimate_ransac(double *F, int n_corr,
 
         // reestimate with all inliers and relabel inlier until it does not
         // improve much (by 5)
-        memcpy(F, F_best, 9*sizeof(F[0]));
-        n_inliers_best = nx_fundamental_mark_inliers(F_best, n_corr,
+        if (n_inliers_best > 0)
+                memcpy(F, F_best, 9*sizeof(F[0]));
+        n_inliers_best = nx_fundamental_mark_inliers(F, n_corr,
                                                      corr_list, inlier_tolerance);
         /* NX_LOG("FRANSAC", "Iter END, best inliers %4d", n_inliers_best); */
 
-- 
2.43.0


From ae9433a7d00b916b270edb35739c56231dfc89cb Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 04:27:03 +0000
Subject: [PATCH 61/73] fix: SIFT extrema search keeps the border distance on
 the right

---
 src/nx_sift_detector.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nx_sift_detector.c b/src/nx_sift_detector.c
index f6e186c..67043e6 100644
--- a/src/nx_sift_detector.c
+++ b/src/nx_sift_detector.c
@@ -527,7 +527,7 @@ void nx_sift_process_dog(struct NXSIFTDetector *det,
                 const float *dogp_rowm  = dogp->data.f32 + (y-1) * dogp->row_stride;
                 const float *dogp_row   = dogp_rowm + dogp->row_stride;
                 const float *dogp_rowp  = dogp_row  + dogp->row_stride;
-                for (int x = B; x < dog->width + B; ++x) {
+                for (int x = B; x < dog->width - B; ++x) {
                         float dval = dog_row[x];
                         if (fabs(dval) > 0.8 * peak_thr
                             && ((dval > 0 && dval > dog_row[x-1]   && dval > dog_row[x+1]
-- 
2.43.0


From 0ae69ff1b5f5a798b5f972a3244b8b1334424176 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 04:27:06 +0000
Subject: [PATCH 62/73] fix: SIFT key store grows from any capacity

---
 src/nx_sift_detector.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nx_sift_detector.c b/src/nx_sift_detector.c
index 67043e6..d7e496e 100644
--- a/src/nx_sift_detector.c
+++ b/src/nx_sift_detector.c
@@ -151,7 +151,7 @@ struct NXSIFTKeyStore {
 int nx_sift_key_store_append(struct NXSIFTKeyStore *store)
 {
         if (store->n >= store->cap) {
-                int new_cap = (int)(store->cap * 1.6f);
+                int new_cap = nx_max_i(store->cap + 1, (int)(store->cap * 1.6f));
                 store->keys = (struct NXKeypoint *)nx_xrealloc(store->keys,
                                                                new_cap*sizeof(struct NXKeypoint));
                 store->desc = (uchar *)nx_xrealloc(store->desc,
-- 
2.43.0


From 32e4cfa19158d8b55efc69c0ab419b43f9521cba Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 04:27:09 +0000
Subject: [PATCH 63/73] fix: SIFT cache keys cover the pixels of float images
 and the image shape

---
 src/nx_sift_detector.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/nx_sift_detector.c b/src/nx_sift_detector.c
index d7e496e..095ff91 100644
--- a/src/nx_sift_detector.c
+++ b/src/nx_sift_detector.c
@@ -673,22 +673,27 @@ int nx_sift_detector_compute_with_cache(struct NXSIFTDetector *detector,
                 cache_dir = NX_DEFAULT_CACHE_DIRECTORY;
 
         int n_rows = image->height;
-        int n_msgs = n_rows + 1;
+        int n_msgs = n_rows + 2;
         uint8_t **msgs = NX_NEW(n_msgs, uint8_t *);
         size_t *lmsg = NX_NEW_Z(n_msgs);
+        int shape[3] = { image->width, image->height, image->dtype };
         for (int i = 0; i < n_rows; ++i) {
                 if (image->dtype == NX_IMAGE_UCHAR) {
                         msgs[i] = (uint8_t *)(image->data.uc + i * image->row_stride);
                         lmsg[i] = image->width * image->n_channels * sizeof(uchar);
-                } else if (image->dtype == NX_IMAGE_UCHAR) {
+                } else {
                         msgs[i] = (uint8_t *)(image->data.f32 + i * image->row_stride);
                         lmsg[i] = image->width * image->n_channels * sizeof(float);
                 }
         }
+        msgs[n_msgs - 2] = (uint8_t *)(&shape[0]);
+        lmsg[n_msgs - 2] = sizeof(shape);
         msgs[n_msgs - 1] = (uint8_t *)(&detector->param);
         lmsg[n_msgs - 1] = sizeof(detector->param);
         uint8_t hash[32];
         nx_sha256_multi(&hash[0], n_msgs, (const uint8_t *const *)msgs, lmsg);
+        nx_free(msgs);
+        nx_free(lmsg);
 
         int n_keys = 0;
         char *hash_str = nx_hash_to_str(32, &hash[0]);
-- 
2.43.0


From baf8141d5f96093c2975084bb248c586c129e2ea Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 04:27:12 +0000
Subject: [PATCH 64/73] fix: SIFT orientation histogram wraps around to its
 last smoothed bin

---
 src/nx_sift_detector.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nx_sift_detector.c b/src/nx_sift_detector.c
index 095ff91..76c871f 100644
--- a/src/nx_sift_detector.c
+++ b/src/nx_sift_detector.c
@@ -347,7 +347,7 @@ float nx_sift_compute_ori_hist(float *hist, const struct NXImage *gx,
                 memcpy(&hist[1], &hist_buffer[0], NX_SIFT_N_ORI_BINS*sizeof(*hist));
         }
         // create cyclic border of length one
-        hist[0] = hist_buffer[NX_SIFT_N_ORI_BINS];
+        hist[0] = hist[NX_SIFT_N_ORI_BINS];
         hist[NX_SIFT_N_ORI_BINS+1] = hist[1];
 
         // Compute and return histogram peak
-- 
2.43.0


From e06e31b2af58e8b9e8856ddf05c0699f2d9452df Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 04:27:15 +0000
Subject: [PATCH 65/73] fix: SIFT matching without candidates returns no
 matches

---
 src/nx_sift_detector.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/nx_sift_detector.c b/src/nx_sift_detector.c
index 76c871f..26fde0a 100644
--- a/src/nx_sift_detector.c
+++ b/src/nx_sift_detector.c
@@ -792,6 +792,8 @@ int nx_sift_match_brute_force(int n,  const struct NXKeypoint *keys,
                 }
 
                 return n_matches;
+        } else if (np == 0) {
+                return 0;
         } else {
                 for (int i = 0; i < n; ++i) {
                         int nn_id = -1;
-- 
2.43.0


From a163cc16cfce6c99fb9a86130d52a52b9a0a121e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 04:27:19 +0000
Subject: [PATCH 66/73] fix: SIFT cache files with impossible counts are
 reported

---
 src/nx_sift_detector.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/nx_sift_detector.c b/src/nx_sift_detector.c
index 26fde0a..4d9e440 100644
--- a/src/nx_sift_detector.c
+++ b/src/nx_sift_detector.c
@@ -702,6 +702,9 @@ int nx_sift_detector_compute_with_cache(struct NXSIFTDetector *detector,
                 // read from cache file
                 FILE *fin = nx_xfopen(cachefilepath, "rb");
                 nx_xfread(&n_keys, sizeof(n_keys), 1, fin);
+                if (n_keys < 0)
+                        NX_FATAL(NX_LOG_TAG, "Cache file %s contains a negative number of SIFT keypoints: %d!",
+                                 cachefilepath, n_keys);
 
                 if (*max_n_keys < n_keys) {
                         *keys = (struct NXKeypoint *)nx_xrealloc(*keys, n_keys * sizeof(struct NXKeypoint));
@@ -869,6 +872,9 @@ int nx_sift_match_brute_force_with_cache(int n,  const struct NXKeypoint *keys,
                 // read from cache file
                 FILE *fin = nx_xfopen(cachefilepath, "rb");
                 nx_xfread(&n_corr, sizeof(n_corr), 1, fin);
+                if (n_corr < 0 || n_corr > n)
+                        NX_FATAL(NX_LOG_TAG, "Cache file %s contains %d SIFT matches for %d keypoints!",
+                                 cachefilepath, n_corr, n);
                 nx_xfread(corr, sizeof(struct NXPointMatch2D), n_corr, fin);
                 nx_fclose(fin, cachefilepath);
                 NX_LOG(NX_LOG_TAG, "Read %d SIFT matches from cache file %s",
-- 
2.43.0


From 0c11ff4b4eb85acf18fbb5ccc3a2a6d1b44f2117 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 04:27:22 +0000
Subject: [PATCH 67/73] fix: SIFT descriptor bins of gradients along the key
 orientation

---
 src/nx_sift_detector.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nx_sift_detector.c b/src/nx_sift_detector.c
index 4d9e440..28ea62b 100644
--- a/src/nx_sift_detector.c
+++ b/src/nx_sift_detector.c
@@ -228,7 +228,7 @@ void nx_sift_compute_fdescriptor(struct NXSIFTDetector *det,
                                 float h  = N_ORI_BINS * (sample_ori / (2.0 * NX_PI));
                                 int pxi = px > 0.0f ? (int)px : (int)(px - 1.0f); // floor
                                 int pyi = py > 0.0f ? (int)py : (int)(py - 1.0f); // floor
-                                int hi  = h  > 0.0f ? (int)h  : (int)(h  - 1.0f); // floor
+                                int hi  = h  >= 0.0f ? (int)h  : (int)(h  - 1.0f); // floor
                                 int hi0 = (hi >= N_ORI_BINS) ? 0 : hi;
                                 int hi1 = ((hi0 + 1) >= N_ORI_BINS) ? 0 : hi0 + 1;
                                 float xeps = px - pxi;
-- 
2.43.0


From cb190c635a9c6f16155ea253ac5e19b34ecd88f7 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 05:24:41 +0000
Subject: [PATCH 68/73] fix: normalising no correspondences leaves the identity
 statistics, not NaN

---
 src/nx_point_match_2d_stats.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/nx_point_match_2d_stats.c b/src/nx_point_match_2d_stats.c
index 859bb20..a77c7b6 100644
--- a/src/nx_point_match_2d_stats.c
+++ b/src/nx_point_match_2d_stats.c
@@ -56,6 +56,11 @@ void nx_point_match_2d_stats_normalize_matches(struct NXPointMatch2DStats *stats
                                                int n_corr,
                                                struct NXPointMatch2D *corr_list)
 {
+        if (n_corr < 1) {
+                nx_point_match_2d_stats_reset(stats);
+                return;
+        }
+
         memset(stats, 0, sizeof(*stats));
 
         for (int i = 0; i < n_corr; ++i) {
-- 
2.43.0


From 85591c3876038114182ca4463591c624b41b8433 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 05:24:45 +0000
Subject: [PATCH 69/73] fix: searching an empty descriptor map finds nothing
 instead of reading past it

---
 src/vg_descriptor_map.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/vg_descriptor_map.cc b/src/vg_descriptor_map.cc
index 2f930d5..545fafc 100644
--- a/src/vg_descriptor_map.cc
+++ b/src/vg_descriptor_map.cc
@@ -26,12 +26,14 @@
 #include "virg/nexus/vg_descriptor_map.hpp"
 
 #include <cstring>
+#include <limits>
 
 #include "virg/nexus/vg_brief_extractor.hpp"
 
 using std::memcpy;
 using std::vector;
 using std::make_tuple;
+using std::numeric_limits;
 
 namespace virg {
 namespace nexus {
@@ -67,6 +69,10 @@ int VGDescriptorMap::add(uint64_t id, const uchar* desc)
 VGDescriptorMap::SearchResult VGDescriptorMap::search_nn(const uchar* desc)
 {
         int n_desc = static_cast<int>(m_ids.size());
+        if (n_desc < 1)
+                return SearchResult { .id = 0,
+                                .match_cost = numeric_limits<float>::infinity() };
+
         uchar* desc_ptr = &m_descriptor_data[0];
         int idx = 0;
         int dist = VGBriefExtractor::distance_of(m_n_octets, desc, desc_ptr);
-- 
2.43.0


From 1e427b46ab7d1659c06f1f7cd96d04f20300b7de Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 06:57:16 +0000
Subject: [PATCH 70/73] fix: report output errors when writing a matrix

---
 src/nx_mat.c | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/nx_mat.c b/src/nx_mat.c
index 31ba763..bbc6c88 100644
--- a/src/nx_mat.c
+++ b/src/nx_mat.c
@@ -39,11 +39,8 @@ void nx_dmat_xwrite(FILE *stream, int m, int n, const double *A)
         for (int r = 0; r < m; ++r) {
                 for (int c = 0; c < n; ++c) {
                         double e = A[c * m + r];
-                        fprintf(stream, "%.17g", e);
-                        if (c == n-1)
-                                fprintf(stream, "\n");
-                        else
-                                fprintf(stream, " ");
+                        if (fprintf(stream, "%.17g%c", e, (c == n-1) ? '\n' : ' ') < 0)
+                                NX_IO_FATAL(NX_LOG_TAG, "Error writing matrix element at %d, %d", r, c);
                 }
         }
 }
-- 
2.43.0


From 8bd7304d27d779b5a36e3064b2c6614ab028b479 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 06:57:19 +0000
Subject: [PATCH 71/73] fix: nx_calloc refuses requests whose total size
 overflows

---
 src/nx_alloc.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/nx_alloc.c b/src/nx_alloc.c
index 19efc90..2be386d 100644
--- a/src/nx_alloc.c
+++ b/src/nx_alloc.c
@@ -25,6 +25,7 @@
  */
 #include "virg/nexus/nx_alloc.h"
 
+#include <stdint.h>
 #include <string.h>
 #include <stdalign.h>
 
@@ -72,6 +73,11 @@ void *nx_malloc(size_t sz)
 
 void *nx_calloc(size_t n_memb, size_t sz)
 {
+        if (sz != 0 && n_memb > SIZE_MAX / sz) {
+                NX_ERROR(NX_LOG_TAG, "Error allocating %zu members of %zu bytes, out of memory!", n_memb, sz);
+                return NULL;
+        }
+
         const size_t length = n_memb * sz;
         void *ptr = nx_malloc(length);
         if (ptr) {
-- 
2.43.0


From 094b7f2a19b3ecd8bae404783e516debedef9a76 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 06:57:22 +0000
Subject: [PATCH 72/73] fix: set the axis labels of a plot instead of sending
 an invalid title command

---
 src/nx_gnuplot.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nx_gnuplot.c b/src/nx_gnuplot.c
index c26cea2..3b847c1 100644
--- a/src/nx_gnuplot.c
+++ b/src/nx_gnuplot.c
@@ -202,7 +202,7 @@ void nx_gnuplot_set_xlabel(struct NXGNUPlot *gnuplot,
         NX_ASSERT_PTR(gnuplot);
         NX_ASSERT_PTR(label);
 
-        nx_gnuplot_send_command(gnuplot, "set title xlabel \"%s\";\n", label);
+        nx_gnuplot_send_command(gnuplot, "set xlabel \"%s\";\n", label);
 }
 
 void nx_gnuplot_set_ylabel(struct NXGNUPlot *gnuplot,
@@ -211,7 +211,7 @@ void nx_gnuplot_set_ylabel(struct NXGNUPlot *gnuplot,
         NX_ASSERT_PTR(gnuplot);
         NX_ASSERT_PTR(label);
 
-        nx_gnuplot_send_command(gnuplot, "set title ylabel \"%s\";\n", label);
+        nx_gnuplot_send_command(gnuplot, "set ylabel \"%s\";\n", label);
 }
 
 void nx_gnuplot_set_title_and_labels(struct NXGNUPlot *gnuplot, const char *title,
-- 
2.43.0


From 8460d49705ab128f1b3b41e11be56d0c7a05b8e2 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 07:00:54 +0000
Subject: [PATCH 73/73] fix: copies of a correspondence set do not share
 normalisation statistics

---
 include/virg/nexus/vg_point_correspondence_2d.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/virg/nexus/vg_point_correspondence_2d.hpp b/include/virg/nexus/vg_point_correspondence_2d.hpp
index 5ef4d6e..1940aa5 100644
--- a/include/virg/nexus/vg_point_correspondence_2d.hpp
+++ b/include/virg/nexus/vg_point_correspondence_2d.hpp
@@ -40,6 +40,14 @@ class VGPointCorrespondence2D {
 public:
         VGPointCorrespondence2D() : m_stats(nx_point_match_2d_stats_new(),
                                             nx_point_match_2d_stats_free) { }
+        VGPointCorrespondence2D(const VGPointCorrespondence2D& other)
+                : VGPointCorrespondence2D() { *this = other; }
+
+        VGPointCorrespondence2D& operator=(const VGPointCorrespondence2D& other) {
+                m_matches = other.m_matches;
+                *m_stats = *other.m_stats;
+                return *this;
+        }
 
         VGPointCorrespondence2D clone() const;
         void clear() { m_matches.clear(); reset_stats(); }
-- 
2.43.0

