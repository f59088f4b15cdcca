From cd54112683570fa3081c93324e901f69249b9f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:29 +0000
Subject: [PATCH 01/68] fix: vacuum of a table without datablocks dereferences
 NULL

---
 src/primitive/vacuum.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/primitive/vacuum.c b/src/primitive/vacuum.c
index b634752..706aeb0 100644
--- a/src/primitive/vacuum.c
+++ b/src/primitive/vacuum.c
@@ -23,6 +23,10 @@ bool table_vacuum(struct table *table)
 	if (!table)
 		return false;
 
+	/* nothing to compact if the table has never held any rows */
+	if (list_is_empty(table->datablock_head))
+		return true;
+
 	dst_blk_idx = 0;
 	src_blk_idx = 0;
 	dst_blk_offset = 0;
-- 
2.43.0


From d0fed17eaae0685093875689cbe30bb40dc85cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:29 +0000
Subject: [PATCH 02/68] fix: regex mismatch frees the caller's stack (double
 free on empty string literals)

---
 src/lib/regex.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/regex.c b/src/lib/regex.c
index 9228981..8fd1bbf 100644
--- a/src/lib/regex.c
+++ b/src/lib/regex.c
@@ -54,7 +54,7 @@ bool regex_ext_match_grp(const char *text, const char *exp, struct stack *out)
 err_stack:
 	free(match);
 err_regex:
-	stack_free(out);
+	/* out is owned (and released) by the caller */
 	regfree(&regex);
 	free(matches);
 err:
-- 
2.43.0


From 4e4f213ce8101e17a70e2415f0106b13e6db6981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:13 +0000
Subject: [PATCH 03/68] fix: unrecognised characters and unterminated tokens
 were skipped instead of rejected

---
 src/parser/midorisql.l | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/parser/midorisql.l b/src/parser/midorisql.l
index dbb8e1d..b500f2d 100644
--- a/src/parser/midorisql.l
+++ b/src/parser/midorisql.l
@@ -100,8 +100,8 @@ FALSE	{ yylval->intval = 0; return BOOL; }
 '(\\.|''|[^'\n])*'	|
 \"(\\.|\"\"|[^"\n])*\"  { yylval->strval = strdup(yytext); return STRING; }
 
-'(\\.|[^'\n])*$	        { yyerror(NULL, yyscanner, "Unterminated string %s", yytext); }
-\"(\\.|[^"\n])*$	{ yyerror(NULL, yyscanner, "Unterminated string %s", yytext); }
+'(\\.|[^'\n])*$	        { yyerror(NULL, yyscanner, "Unterminated string %s", yytext); return YYUNDEF; }
+\"(\\.|[^"\n])*$	{ yyerror(NULL, yyscanner, "Unterminated string %s", yytext); return YYUNDEF; }
 
    /* hex strings */
 X'[0-9A-F]+' |  
@@ -147,7 +147,7 @@ COUNT    { int c = input(yyscanner); unput(c);
                           yylval->strval[yyleng-2] = 0;
                           return NAME; }
 
-`[^`\n]*$               { yyerror(NULL, yyscanner, "unterminated quoted name %s", yytext); }
+`[^`\n]*$               { yyerror(NULL, yyscanner, "unterminated quoted name %s", yytext); return YYUNDEF; }
 
 
 	/* comments */   
@@ -157,10 +157,10 @@ COUNT    { int c = input(yyscanner); unput(c);
 "/*"            { oldstate = YY_START; BEGIN COMMENT; }
 <COMMENT>"*/"   { BEGIN oldstate; }
 <COMMENT>.|\n   ;
-<COMMENT><<EOF>> { yyerror(NULL, yyscanner, "unclosed comment"); }
+<COMMENT><<EOF>> { yyerror(NULL, yyscanner, "unclosed comment"); return YYUNDEF; }
 
 	/* everything else */
-[ \t\n]         /* white space */
-.               { yyerror(NULL, yyscanner, "mystery character '%c'", *yytext); }
+[ \t\r\n]       /* white space */
+.               { yyerror(NULL, yyscanner, "mystery character '%c'", *yytext); return YYUNDEF; }
 
 %%
-- 
2.43.0


From 159b4ab3cf2fe14a8e4243d08884726d7050027b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:14 +0000
Subject: [PATCH 04/68] fix: comment handling shared a global between otherwise
 reentrant scanners

---
 src/parser/midorisql.l | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/parser/midorisql.l b/src/parser/midorisql.l
index b500f2d..eb073a9 100644
--- a/src/parser/midorisql.l
+++ b/src/parser/midorisql.l
@@ -1,9 +1,8 @@
-%option noyywrap nodefault yylineno case-insensitive reentrant bison-bridge
+%option noyywrap nodefault yylineno case-insensitive reentrant bison-bridge stack noyy_top_state
 
 %{
 #include "midorisql.tab.h"
 void yyerror(void*, void*, char *s, ...);
-int oldstate;
 
 #define YY_FATAL_ERROR(msg) yyerror(NULL, yyscanner, msg)
 %}
@@ -154,8 +153,8 @@ COUNT    { int c = input(yyscanner); unput(c);
 #.*		;
 "--"[ \t].*	;
 
-"/*"            { oldstate = YY_START; BEGIN COMMENT; }
-<COMMENT>"*/"   { BEGIN oldstate; }
+"/*"            { yy_push_state(COMMENT, yyscanner); }
+<COMMENT>"*/"   { yy_pop_state(yyscanner); }
 <COMMENT>.|\n   ;
 <COMMENT><<EOF>> { yyerror(NULL, yyscanner, "unclosed comment"); return YYUNDEF; }
 
-- 
2.43.0


From 5580fb5d6b22c6fed8dffe17dfbbbec8a4de392b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:54 +0000
Subject: [PATCH 05/68] fix: empty string literals rejected, quotes doubled
 inside literals not decoded, double-quoted strings unusable

---
 src/parser/ast_delete.c |  2 +-
 src/parser/ast_insert.c |  2 +-
 src/parser/ast_select.c |  2 +-
 src/parser/ast_update.c |  2 +-
 src/parser/midorisql.l  | 27 ++++++++++++++++++++++++++-
 5 files changed, 30 insertions(+), 5 deletions(-)

diff --git a/src/parser/ast_delete.c b/src/parser/ast_delete.c
index 0815743..a3c291c 100644
--- a/src/parser/ast_delete.c
+++ b/src/parser/ast_delete.c
@@ -138,7 +138,7 @@ static struct ast_del_exprval_node* build_expr_val_node(struct queue *parser, en
 		reg_exp = "NUMBER (-{0,1}[0-9]+)";
 	} else if (type == AST_DEL_EXPR_VAL_STRING) {
 		node->value_type.is_str = true;
-		reg_exp = "STRING '(.+)'";
+		reg_exp = "STRING '(.*)'";
 	} else if (type == AST_DEL_EXPR_VAL_APPROXNUM) {
 		node->value_type.is_approxnum = true;
 		reg_exp = "FLOAT (-{0,1}[0-9\\.]+)";
diff --git a/src/parser/ast_insert.c b/src/parser/ast_insert.c
index a030ca7..cd9199b 100644
--- a/src/parser/ast_insert.c
+++ b/src/parser/ast_insert.c
@@ -134,7 +134,7 @@ static struct ast_ins_exprval_node* build_expr_val_node(struct queue *parser, en
 		reg_exp = "NUMBER (-{0,1}[0-9]+)";
 	} else if (type == AST_INS_EXPR_VAL_STRING) {
 		node->value_type.is_str = true;
-		reg_exp = "STRING '(.+)'";
+		reg_exp = "STRING '(.*)'";
 	} else if (type == AST_INS_EXPR_VAL_APPROXNUM) {
 		node->value_type.is_approxnum = true;
 		reg_exp = "FLOAT (-{0,1}[0-9\\.]+)";
diff --git a/src/parser/ast_select.c b/src/parser/ast_select.c
index f82c01c..c8ee688 100644
--- a/src/parser/ast_select.c
+++ b/src/parser/ast_select.c
@@ -41,7 +41,7 @@ static struct ast_sel_exprval_node* build_expr_val_node(struct queue *parser, en
 		reg_exp = "NUMBER (-{0,1}[0-9]+)";
 	} else if (type == AST_SEL_EXPR_VAL_STRING) {
 		node->value_type.is_str = true;
-		reg_exp = "STRING '(.+)'";
+		reg_exp = "STRING '(.*)'";
 	} else if (type == AST_SEL_EXPR_VAL_APPROXNUM) {
 		node->value_type.is_approxnum = true;
 		reg_exp = "FLOAT (-{0,1}[0-9\\.]+)";
diff --git a/src/parser/ast_update.c b/src/parser/ast_update.c
index 88f441b..4baa156 100644
--- a/src/parser/ast_update.c
+++ b/src/parser/ast_update.c
@@ -189,7 +189,7 @@ static struct ast_upd_exprval_node* build_expr_val_node(struct queue *parser, en
 		reg_exp = "NUMBER (-{0,1}[0-9]+)";
 	} else if (type == AST_UPD_EXPR_VAL_STRING) {
 		node->value_type.is_str = true;
-		reg_exp = "STRING '(.+)'";
+		reg_exp = "STRING '(.*)'";
 	} else if (type == AST_UPD_EXPR_VAL_APPROXNUM) {
 		node->value_type.is_approxnum = true;
 		reg_exp = "FLOAT (-{0,1}[0-9\\.]+)";
diff --git a/src/parser/midorisql.l b/src/parser/midorisql.l
index eb073a9..2be4838 100644
--- a/src/parser/midorisql.l
+++ b/src/parser/midorisql.l
@@ -4,6 +4,31 @@
 #include "midorisql.tab.h"
 void yyerror(void*, void*, char *s, ...);
 
+/*
+ * turn a quoted literal, as typed, into its single-quoted canonical form: doubled quotes inside of
+ * the literal stand for the quote character itself.
+ */
+static char* str_literal(const char *text, size_t len)
+{
+	char quote = text[0];
+	size_t pos = 0;
+	char *ret = malloc(len + 1);
+
+	if (!ret)
+		return NULL;
+
+	ret[pos++] = '\'';
+	for (size_t i = 1; i < len - 1; i++) {
+		ret[pos++] = text[i];
+		if (text[i] == quote && text[i + 1] == quote && i + 1 < len - 1)
+			i++;
+	}
+	ret[pos++] = '\'';
+	ret[pos] = '\0';
+
+	return ret;
+}
+
 #define YY_FATAL_ERROR(msg) yyerror(NULL, yyscanner, msg)
 %}
 
@@ -97,7 +122,7 @@ FALSE	{ yylval->intval = 0; return BOOL; }
    /* strings */
 
 '(\\.|''|[^'\n])*'	|
-\"(\\.|\"\"|[^"\n])*\"  { yylval->strval = strdup(yytext); return STRING; }
+\"(\\.|\"\"|[^"\n])*\"  { if (!(yylval->strval = str_literal(yytext, yyleng))) return YYUNDEF; return STRING; }
 
 '(\\.|[^'\n])*$	        { yyerror(NULL, yyscanner, "Unterminated string %s", yytext); return YYUNDEF; }
 \"(\\.|[^"\n])*$	{ yyerror(NULL, yyscanner, "Unterminated string %s", yytext); return YYUNDEF; }
-- 
2.43.0


From 8c97d483bdbd4b483b0351f439cb33f6d4e22031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:55 +0000
Subject: [PATCH 06/68] fix: parser truncated literals to 255 characters

---
 src/parser/midorisql.y | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/parser/midorisql.y b/src/parser/midorisql.y
index 2b2dbd8..2c897fb 100644
--- a/src/parser/midorisql.y
+++ b/src/parser/midorisql.y
@@ -516,13 +516,25 @@ void yyerror(struct queue *q, void* scanner, const char *s, ...)
 
 bool emit(struct queue *q, char *s, ...)
 {
-	char buf[256];
+	char *buf;
 	va_list ap;
-	
-	memzero(buf, sizeof(buf));
+	int len;
+	bool ret;
+
+	/* literals can be (much) longer than any fixed-size buffer we could pick */
 	va_start(ap, s);
-	vsnprintf(buf,sizeof(buf), s, ap);
+	len = vsnprintf(NULL, 0, s, ap);
 	va_end(ap);
 
-	return queue_offer(q, buf, strlen(buf) + 1);
+	if (len < 0 || !(buf = zalloc((size_t)len + 1)))
+		return false;
+
+	va_start(ap, s);
+	vsnprintf(buf, (size_t)len + 1, s, ap);
+	va_end(ap);
+
+	ret = queue_offer(q, buf, (size_t)len + 1);
+	free(buf);
+
+	return ret;
 }
-- 
2.43.0


From a9ff7b4fae29ae68ce04f0c9119256388819ac48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:14 +0000
Subject: [PATCH 07/68] fix: syntax errors reported the first parsed token (or
 NULL) instead of the error, formatted from garbage varargs

---
 src/engine/query.c     |  6 +++++-
 src/parser/midorisql.y | 16 ++++++----------
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/engine/query.c b/src/engine/query.c
index 23fc1eb..fc82b54 100644
--- a/src/engine/query.c
+++ b/src/engine/query.c
@@ -53,8 +53,12 @@ struct query_output* query_execute(struct database *db, char *query)
 	/* syntax analysis */
 	if (syntax_parse(query, &queue)) {
 		/* copy error from the tail of the queue */
-		char *err_msg = (char*)queue_peek(&queue);
 		size_t err_msg_len = sizeof(output->error.message) - 1;
+		char *err_msg = "syntax error";
+
+		if (!queue_empty(&queue))
+			err_msg = (char*)queue_peek_pos(&queue, queue_length(&queue) - 1);
+
 		strncpy(output->error.message, err_msg, err_msg_len);
 
 		goto err_syntax_parser;
diff --git a/src/parser/midorisql.y b/src/parser/midorisql.y
index 2c897fb..48003ae 100644
--- a/src/parser/midorisql.y
+++ b/src/parser/midorisql.y
@@ -490,28 +490,24 @@ void yyerror(struct queue *q, void* scanner, const char *s, ...)
 	(void)scanner;
 	char buf[256];
 	va_list ap;
-	
+
 	memzero(buf, sizeof(buf));
 	va_start(ap, s);
-	
+	vsnprintf(buf, sizeof(buf), s, ap);
+	va_end(ap);
+
 	/* if the error happened at the lexical phase then 
 	we print it to stderr as there is no queue ref yet */
 	if(!q){
-		vfprintf(stderr, s, ap);  
-		fprintf(stderr, "\n");
+		fprintf(stderr, "%s\n", buf);
 	}else {
-		sprintf(buf, s, ap);
-	
 		/* although unlikely, if we fail to push content to the queue
 		   so other program can read the error message, then we fail 
 		   over to the stderr */
 		if(!queue_offer(q, buf, strlen(buf) + 1)){
-			vfprintf(stderr, s, ap);  
-			fprintf(stderr, "\n");
+			fprintf(stderr, "%s\n", buf);
 		}
 	}
-	
-	va_end(ap);
 }
 
 bool emit(struct queue *q, char *s, ...)
-- 
2.43.0


From cd120db74b02964cbacd91d43a74b08ef720d132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:15 +0000
Subject: [PATCH 08/68] fix: statements flagged as invalid while being parsed
 were executed anyway

---
 src/parser/midorisql.y | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/parser/midorisql.y b/src/parser/midorisql.y
index 48003ae..5bbc89f 100644
--- a/src/parser/midorisql.y
+++ b/src/parser/midorisql.y
@@ -200,7 +200,7 @@ column_list: NAME { emit(result, "COLUMN %s", $1); free($1); $$ = 1; }
   ;
 
 select_opts:                          { $$ = 0; }
-   | select_opts DISTINCT            { if($$ & 02) yyerror(result, scanner, "duplicate DISTINCT option"); $$ = $1 | 02; }
+   | select_opts DISTINCT            { if($1 & 02) { yyerror(result, scanner, "duplicate DISTINCT option"); YYERROR; } $$ = $1 | 02; }
    ;
 
 select_expr_list: select_expr { $$ = 1; }
@@ -401,10 +401,10 @@ update_stmt: UPDATE NAME
 
 update_asgn_list:
      NAME COMPARISON update_expr 
-       { if ($2 != 4) yyerror(result, scanner, "bad insert assignment to %s", $1);
+       { if ($2 != 4) { yyerror(result, scanner, "bad insert assignment to %s", $1); free($1); YYERROR; }
 	 emit(result, "ASSIGN %s", $1); free($1); $$ = 1; }   
    | update_asgn_list ',' NAME COMPARISON update_expr
-       { if ($4 != 4) yyerror(result, scanner, "bad insert assignment to %s", $3);
+       { if ($4 != 4) { yyerror(result, scanner, "bad insert assignment to %s", $3); free($3); YYERROR; }
 	 emit(result, "ASSIGN %s", $3); free($3); $$ = $1 + 1; }   
    ;
 
@@ -441,7 +441,7 @@ update_val_list: update_expr				{ $$ = 1; }
    /** create table **/
 
 opt_if_not_exists:  /* nil */ { $$ = 0; }
-   | IF EXISTS           { if(!$2) yyerror(result, scanner, "IF EXISTS doesn't exist");
+   | IF EXISTS           { if(!$2) { yyerror(result, scanner, "IF EXISTS doesn't exist"); YYERROR; }
                         $$ = $2; /* NOT EXISTS hack */ }
    ;
 
-- 
2.43.0


From a5735bea3fc86068a2d6b8720509e9503c974b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:28 +0000
Subject: [PATCH 09/68] fix: unsupported (but parseable) expressions terminated
 the process instead of returning an error

---
 src/parser/ast_create.c | 2 +-
 src/parser/ast_delete.c | 2 +-
 src/parser/ast_insert.c | 2 +-
 src/parser/ast_select.c | 2 +-
 src/parser/ast_update.c | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/parser/ast_create.c b/src/parser/ast_create.c
index 8683f9f..103aaa1 100644
--- a/src/parser/ast_create.c
+++ b/src/parser/ast_create.c
@@ -347,7 +347,7 @@ struct ast_node* ast_create_build_tree(struct queue *parser)
 			break;
 		} else {
 			fprintf(stderr, "%s: %s handler not implement yet\n", __func__, str);
-			exit(1);
+			goto err_push_node;
 		}
 
 		if (!curr)
diff --git a/src/parser/ast_delete.c b/src/parser/ast_delete.c
index a3c291c..ba109b5 100644
--- a/src/parser/ast_delete.c
+++ b/src/parser/ast_delete.c
@@ -401,7 +401,7 @@ struct ast_node* ast_delete_build_tree(struct queue *parser)
 			break;
 		} else {
 			fprintf(stderr, "%s: %s handler not implement yet\n", __func__, str);
-			exit(1);
+			goto err_push_node;
 		}
 
 		if (!curr)
diff --git a/src/parser/ast_insert.c b/src/parser/ast_insert.c
index cd9199b..60197c3 100644
--- a/src/parser/ast_insert.c
+++ b/src/parser/ast_insert.c
@@ -433,7 +433,7 @@ struct ast_node* ast_insert_build_tree(struct queue *parser)
 			break;
 		} else {
 			fprintf(stderr, "%s: %s handler not implement yet\n", __func__, str);
-			exit(1);
+			goto err_push_node;
 		}
 
 		if (!curr)
diff --git a/src/parser/ast_select.c b/src/parser/ast_select.c
index c8ee688..d27a7c9 100644
--- a/src/parser/ast_select.c
+++ b/src/parser/ast_select.c
@@ -1111,7 +1111,7 @@ struct ast_node* ast_select_build_tree(struct queue *parser)
 			break;
 		} else {
 			fprintf(stderr, "%s: %s handler not implement yet\n", __func__, str);
-			exit(1);
+			goto err_push_node;
 		}
 
 		if (!curr)
diff --git a/src/parser/ast_update.c b/src/parser/ast_update.c
index 4baa156..f7b4da1 100644
--- a/src/parser/ast_update.c
+++ b/src/parser/ast_update.c
@@ -460,7 +460,7 @@ struct ast_node* ast_update_build_tree(struct queue *parser)
 			break;
 		} else {
 			fprintf(stderr, "%s: %s handler not implement yet\n", __func__, str);
-			exit(1);
+			goto err_push_node;
 		}
 
 		if (!curr)
-- 
2.43.0


From 0746fba6c03a44f63829a7f171c0ce79217d6aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:29 +0000
Subject: [PATCH 10/68] fix: all but the first statement of a query were
 silently dropped

---
 src/engine/query.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/engine/query.c b/src/engine/query.c
index fc82b54..af0cb3b 100644
--- a/src/engine/query.c
+++ b/src/engine/query.c
@@ -72,6 +72,13 @@ struct query_output* query_execute(struct database *db, char *query)
 		goto err_build_ast;
 	}
 
+	/* only the first statement was turned into an AST, don't silently drop the remaining ones */
+	if (queue_length(&queue) > 1) {
+		snprintf(output->error.message, sizeof(output->error.message) - 1,
+				"multiple statements in a single query aren't supported\n");
+		goto err_semantic_analysis;
+	}
+
 	/* semantic analysis */
 	if (!semantic_analyse(db, node, output->error.message, sizeof(output->error.message) - 1)) {
 		goto err_semantic_analysis;
-- 
2.43.0


From d75568e5e644cc20a35a7cc0e62248200ae3db12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:03 +0000
Subject: [PATCH 11/68] fix: CREATE TABLE with VARCHAR length below 1 or above
 9999 terminated the process

---
 src/parser/midorisql.y | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser/midorisql.y b/src/parser/midorisql.y
index 5bbc89f..a45717c 100644
--- a/src/parser/midorisql.y
+++ b/src/parser/midorisql.y
@@ -479,7 +479,10 @@ data_type:
    | DOUBLE { $$ = 80000; }
    | DATE { $$ = 100000; }
    | DATETIME { $$ = 110000; }
-   | VARCHAR '(' INTNUM ')' { $$ = 130000 + $3; }
+   | VARCHAR '(' INTNUM ')' 
+       { /* length shares the encoding with the type id, so it can't take more than 4 digits */
+	 if ($3 < 1 || $3 > 9999) { yyerror(result, scanner, "invalid VARCHAR length: %d", $3); YYERROR; }
+	 $$ = 130000 + $3; }
    ;
 
 
-- 
2.43.0


From 70412e522e96f4216a1660838e71f74644844fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:04 +0000
Subject: [PATCH 12/68] fix: indexes declared before their columns were
 ignored, PRIMARY KEY cleared INDEX, failed CREATE leaked the table

---
 src/engine/executor_create.c | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/engine/executor_create.c b/src/engine/executor_create.c
index da4ad76..f8b6024 100644
--- a/src/engine/executor_create.c
+++ b/src/engine/executor_create.c
@@ -23,7 +23,8 @@ static void add_index(struct ast_crt_index_def_node *idx_def_node, struct table
 			col = &table->columns[i];
 
 			if (strncmp(col->name, entry->name, sizeof(col->name)) == 0) {
-				col->indexed = idx_def_node->is_index;
+				if (idx_def_node->is_index)
+					col->indexed = true;
 
 				/*
 				 * When primary key is defined after the column definition,
@@ -91,12 +92,20 @@ int executor_run_create_stmt(struct database *db, struct ast_crt_create_node *cr
 		if (entry->node_type == AST_TYPE_CRT_COLUMNDEF) {
 			if ((rc = add_column((struct ast_crt_column_def_node*)entry, table)))
 				goto err_add_col;
-		} else if (entry->node_type == AST_TYPE_CRT_INDEXDEF) {
-			add_index((struct ast_crt_index_def_node*)entry, table);
 		}
 	}
 
-	rc = database_table_add(db, table);
+	/* indexes and primary keys can be declared before the columns that they refer to */
+	list_for_each(pos, create_node->node_children_head)
+	{
+		entry = list_entry(pos, typeof(*entry), head);
+
+		if (entry->node_type == AST_TYPE_CRT_INDEXDEF)
+			add_index((struct ast_crt_index_def_node*)entry, table);
+	}
+
+	if ((rc = database_table_add(db, table)))
+		goto err_add_tbl;
 
 early_ret:
 	output->n_rows_aff = 0;
@@ -104,9 +113,9 @@ early_ret:
 
 	return rc;
 
+err_add_tbl:
 err_add_col:
-	//TODO free columns added so far
-	free(table);
+	table_destroy(&table);
 err_tbl_init:
 	database_unlock(db);
 err:
-- 
2.43.0


From 4bd9d30cd50b166c0940bb93eaf817bc0f1628c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:04 +0000
Subject: [PATCH 13/68] fix: column definition leaked on error

---
 src/parser/ast_create.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/parser/ast_create.c b/src/parser/ast_create.c
index 103aaa1..d2701fa 100644
--- a/src/parser/ast_create.c
+++ b/src/parser/ast_create.c
@@ -108,8 +108,7 @@ static struct ast_crt_column_def_node* __must_check build_columndef_node(struct
 err_regex:
 	stack_free(&tmp_st);
 err_stack_init:
-	if (!str)
-		free(str);
+	free(str);
 	free(node->node_children_head);
 err_head:
 	free(node);
-- 
2.43.0


From e98b00513c715f84db03bb9a04c069992d33ebe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:06 +0000
Subject: [PATCH 14/68] fix: database mutex was never initialised

---
 src/engine/database.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/engine/database.c b/src/engine/database.c
index d729a2e..6db32c9 100644
--- a/src/engine/database.c
+++ b/src/engine/database.c
@@ -19,8 +19,13 @@ int database_open(struct database *db)
 	if (!hashtable_init(db->tables, &hashtable_str_compare, &hashtable_str_hash))
 		goto err_ht_init;
 
+	if (pthread_mutex_init(&db->mutex, NULL))
+		goto err_mutex_init;
+
 	return MIDORIDB_OK;
 
+err_mutex_init:
+	hashtable_free(db->tables);
 err_ht_init:
 	free(db->tables);
 err:
@@ -52,6 +57,8 @@ void database_close(struct database *db)
 	hashtable_free(db->tables);
 	free(db->tables);
 	db->tables = NULL;
+
+	pthread_mutex_destroy(&db->mutex);
 }
 
 int database_lock(struct database *db)
-- 
2.43.0


From 8a533dff6f8e0af348358868948a15f647a62973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:47 +0000
Subject: [PATCH 15/68] fix: integer literals were silently truncated to 32
 bits

---
 src/parser/ast_delete.c |  2 +-
 src/parser/ast_insert.c |  2 +-
 src/parser/ast_select.c |  2 +-
 src/parser/ast_update.c |  2 +-
 src/parser/midorisql.l  |  9 ++++++++-
 src/parser/midorisql.y  | 14 ++++++++------
 6 files changed, 20 insertions(+), 11 deletions(-)

diff --git a/src/parser/ast_delete.c b/src/parser/ast_delete.c
index ba109b5..c0e2363 100644
--- a/src/parser/ast_delete.c
+++ b/src/parser/ast_delete.c
@@ -169,7 +169,7 @@ static struct ast_del_exprval_node* build_expr_val_node(struct queue *parser, en
 
 		ext_val = (char*)stack_peek_pos(&reg_pars, 0);
 		if (type == AST_DEL_EXPR_VAL_INTNUM) {
-			node->int_val = atoi(ext_val);
+			node->int_val = atoll(ext_val);
 		} else if (type == AST_DEL_EXPR_VAL_STRING) {
 			strncpy(node->str_val, ext_val, sizeof(node->str_val) - 1);
 		} else if (type == AST_DEL_EXPR_VAL_NAME) {
diff --git a/src/parser/ast_insert.c b/src/parser/ast_insert.c
index 60197c3..09c01be 100644
--- a/src/parser/ast_insert.c
+++ b/src/parser/ast_insert.c
@@ -162,7 +162,7 @@ static struct ast_ins_exprval_node* build_expr_val_node(struct queue *parser, en
 
 		ext_val = (char*)stack_peek_pos(&reg_pars, 0);
 		if (type == AST_INS_EXPR_VAL_INTNUM) {
-			node->int_val = atoi(ext_val);
+			node->int_val = atoll(ext_val);
 		} else if (type == AST_INS_EXPR_VAL_STRING) {
 			strncpy(node->str_val, ext_val, sizeof(node->str_val) - 1);
 		} else if (type == AST_INS_EXPR_VAL_APPROXNUM) {
diff --git a/src/parser/ast_select.c b/src/parser/ast_select.c
index d27a7c9..9bb39b4 100644
--- a/src/parser/ast_select.c
+++ b/src/parser/ast_select.c
@@ -72,7 +72,7 @@ static struct ast_sel_exprval_node* build_expr_val_node(struct queue *parser, en
 
 		ext_val = (char*)stack_peek_pos(&reg_pars, 0);
 		if (type == AST_SEL_EXPR_VAL_INTNUM) {
-			node->int_val = atoi(ext_val);
+			node->int_val = atoll(ext_val);
 		} else if (type == AST_SEL_EXPR_VAL_STRING) {
 			strncpy(node->str_val, ext_val, sizeof(node->str_val) - 1);
 		} else if (type == AST_SEL_EXPR_VAL_NAME) {
diff --git a/src/parser/ast_update.c b/src/parser/ast_update.c
index f7b4da1..454e5e3 100644
--- a/src/parser/ast_update.c
+++ b/src/parser/ast_update.c
@@ -220,7 +220,7 @@ static struct ast_upd_exprval_node* build_expr_val_node(struct queue *parser, en
 
 		ext_val = (char*)stack_peek_pos(&reg_pars, 0);
 		if (type == AST_UPD_EXPR_VAL_INTNUM) {
-			node->int_val = atoi(ext_val);
+			node->int_val = atoll(ext_val);
 		} else if (type == AST_UPD_EXPR_VAL_STRING) {
 			strncpy(node->str_val, ext_val, sizeof(node->str_val) - 1);
 		} else if (type == AST_UPD_EXPR_VAL_NAME) {
diff --git a/src/parser/midorisql.l b/src/parser/midorisql.l
index 2be4838..a6be979 100644
--- a/src/parser/midorisql.l
+++ b/src/parser/midorisql.l
@@ -106,7 +106,14 @@ XOR	{ return XOR; }
 
    /* numbers */
 
--?[0-9]+	        { yylval->intval = atoi(yytext); return INTNUM; } 
+-?[0-9]+	        { errno = 0;
+			  yylval->int64val = strtoll(yytext, NULL, 10);
+			  if (errno) {
+				  yyerror(NULL, yyscanner, "integer out of range %s", yytext);
+				  errno = 0;
+				  return YYUNDEF;
+			  }
+			  return INTNUM; }
 
 -?[0-9]+"."[0-9]* |
 -?"."[0-9]+	|
diff --git a/src/parser/midorisql.y b/src/parser/midorisql.y
index a45717c..81637f3 100644
--- a/src/parser/midorisql.y
+++ b/src/parser/midorisql.y
@@ -15,6 +15,7 @@ int yylex(void*, void*);
 %code requires { 
 #include <compiler/common.h>
 #include <datastructure/queue.h>
+#include <inttypes.h>
 }
 
 /* 
@@ -31,6 +32,7 @@ int yylex(void*, void*);
 
 %union {
 	int intval;
+	int64_t int64val;
 	double floatval;
 	char *strval;
 	int subtok;
@@ -40,7 +42,7 @@ int yylex(void*, void*);
 
 %token <strval> NAME
 %token <strval> STRING
-%token <intval> INTNUM
+%token <int64val> INTNUM
 %token <intval> BOOL
 %token <floatval> APPROXNUM
 
@@ -250,7 +252,7 @@ join_condition:
 expr: NAME          { emit(result, "NAME %s", $1); free($1); }
    | NAME '.' NAME { emit(result, "FIELDNAME %s.%s", $1, $3); free($1); free($3); }
    | STRING        { emit(result, "STRING %s", $1); free($1); }
-   | INTNUM        { emit(result, "NUMBER %d", $1); }
+   | INTNUM        { emit(result, "NUMBER %" PRId64, $1); }
    | APPROXNUM     { emit(result, "FLOAT %g", $1); }
    | BOOL          { emit(result, "BOOL %d", $1); }
    | NULLX         { emit(result, "NULL"); }
@@ -317,7 +319,7 @@ del_opt_where: /* nil */
 
 delete_expr: NAME          { emit(result, "NAME %s", $1); free($1); }
 	   | STRING        { emit(result, "STRING %s", $1); free($1); }
-	   | INTNUM        { emit(result, "NUMBER %d", $1); }
+	   | INTNUM        { emit(result, "NUMBER %" PRId64, $1); }
 	   | APPROXNUM     { emit(result, "FLOAT %g", $1); }
    	   | BOOL          { emit(result, "BOOL %d", $1); }
    	   | NULLX         { emit(result, "NULL"); }
@@ -374,7 +376,7 @@ insert_stmt: INSERT opt_into NAME opt_col_names
 
 insert_expr:
      STRING        { emit(result, "STRING %s", $1); free($1); }
-   | INTNUM        { emit(result, "NUMBER %d", $1); }
+   | INTNUM        { emit(result, "NUMBER %" PRId64, $1); }
    | APPROXNUM     { emit(result, "FLOAT %g", $1); }
    | BOOL          { emit(result, "BOOL %d", $1); }
    | NULLX         { emit(result, "NULL"); }
@@ -413,7 +415,7 @@ update_opt_where: /* nil */ 	{ $$ = 0; }
 
 update_expr: NAME          { emit(result, "NAME %s", $1); free($1); }
 	   | STRING        { emit(result, "STRING %s", $1); free($1); }
-	   | INTNUM        { emit(result, "NUMBER %d", $1); }
+	   | INTNUM        { emit(result, "NUMBER %" PRId64, $1); }
 	   | APPROXNUM     { emit(result, "FLOAT %g", $1); }
    	   | BOOL          { emit(result, "BOOL %d", $1); }
    	   | NULLX         { emit(result, "NULL"); }
@@ -481,7 +483,7 @@ data_type:
    | DATETIME { $$ = 110000; }
    | VARCHAR '(' INTNUM ')' 
        { /* length shares the encoding with the type id, so it can't take more than 4 digits */
-	 if ($3 < 1 || $3 > 9999) { yyerror(result, scanner, "invalid VARCHAR length: %d", $3); YYERROR; }
+	 if ($3 < 1 || $3 > 9999) { yyerror(result, scanner, "invalid VARCHAR length: %" PRId64, $3); YYERROR; }
 	 $$ = 130000 + $3; }
    ;
 
-- 
2.43.0


From f571569f6e69fc0f020965b39fc59af7d68a1377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:49 +0000
Subject: [PATCH 16/68] fix: INSERT math expressions - 32-bit results, signed
 overflow, modulo by zero and NULL terms aborted the process

---
 src/engine/optimiser_insert.c | 83 +++++++++++++++++++++++++----------
 1 file changed, 59 insertions(+), 24 deletions(-)

diff --git a/src/engine/optimiser_insert.c b/src/engine/optimiser_insert.c
index 3148d1d..bacda6e 100644
--- a/src/engine/optimiser_insert.c
+++ b/src/engine/optimiser_insert.c
@@ -7,16 +7,29 @@
 
 #include <engine/optimiser.h>
 
-static void negate(struct ast_ins_exprval_node *in, struct ast_ins_exprval_node *out)
+static int out_of_range(struct query_output *output)
+{
+	snprintf(output->error.message, sizeof(output->error.message) - 1,
+			"INTEGER value is out of range in math expression\n");
+	return -MIDORIDB_ERROR;
+}
+
+static int negate(struct ast_ins_exprval_node *in, struct ast_ins_exprval_node *out, struct query_output *output)
 {
 	if (in->value_type.is_intnum) {
-		out->int_val = in->int_val * -1;
+		if (__builtin_sub_overflow((int64_t)0, in->int_val, &out->int_val))
+			return out_of_range(output);
 	} else if (in->value_type.is_approxnum) {
 		out->double_val = in->double_val * -1;
+	} else if (in->value_type.is_null) {
+		/* the negation of NULL is NULL */
+		out->int_val = 0;
 	} else {
 		BUG_GENERIC();
 	}
 	memcpy(&out->value_type, &in->value_type, sizeof(out->value_type));
+
+	return MIDORIDB_OK;
 }
 
 static void calcd(struct ast_ins_exprop_node *op, struct ast_ins_exprval_node *val_1,
@@ -24,12 +37,7 @@ static void calcd(struct ast_ins_exprop_node *op, struct ast_ins_exprval_node *v
 {
 	double result = 0;
 
-	if (val_1->value_type.is_null || val_2->value_type.is_null) {
-		/* if any term _became_ NULL, then we bubble that up */
-		out->value_type.is_approxnum = false;
-		out->value_type.is_null = true;
-		result = 0;
-	} else if (op->op_type == AST_INS_EXPR_OP_ADD) {
+	if (op->op_type == AST_INS_EXPR_OP_ADD) {
 		result = val_2->double_val + val_1->double_val;
 	} else if (op->op_type == AST_INS_EXPR_OP_SUB) {
 		result = val_2->double_val - val_1->double_val;
@@ -49,7 +57,14 @@ static void calcd(struct ast_ins_exprop_node *op, struct ast_ins_exprval_node *v
 		}
 	} else if (op->op_type == AST_INS_EXPR_OP_MOD) {
 		/* C doesn't support modulo operation on double data type. Replicating SQLite behaviour */
-		result = (double)(((int)val_2->double_val) % ((int)val_1->double_val));
+		if (trunc(val_1->double_val) == 0.0) {
+			/* same as division by 0 */
+			out->value_type.is_approxnum = false;
+			out->value_type.is_null = true;
+			result = 0;
+		} else {
+			result = fmod(trunc(val_2->double_val), trunc(val_1->double_val));
+		}
 	} else {
 		BUG_GENERIC();
 	}
@@ -57,22 +72,20 @@ static void calcd(struct ast_ins_exprop_node *op, struct ast_ins_exprval_node *v
 	out->double_val = result;
 }
 
-static void calci(struct ast_ins_exprop_node *op, struct ast_ins_exprval_node *val_1,
-		struct ast_ins_exprval_node *val_2, struct ast_ins_exprval_node *out)
+static int calci(struct ast_ins_exprop_node *op, struct ast_ins_exprval_node *val_1,
+		struct ast_ins_exprval_node *val_2, struct ast_ins_exprval_node *out, struct query_output *output)
 {
-	int result = 0;
+	int64_t result = 0;
 
-	if (val_1->value_type.is_null || val_2->value_type.is_null) {
-		/* if any term _became_ NULL, then we bubble that up */
-		out->value_type.is_intnum = false;
-		out->value_type.is_null = true;
-		result = 0;
-	} else if (op->op_type == AST_INS_EXPR_OP_ADD) {
-		result = val_2->int_val + val_1->int_val;
+	if (op->op_type == AST_INS_EXPR_OP_ADD) {
+		if (__builtin_add_overflow(val_2->int_val, val_1->int_val, &result))
+			return out_of_range(output);
 	} else if (op->op_type == AST_INS_EXPR_OP_SUB) {
-		result = val_2->int_val - val_1->int_val;
+		if (__builtin_sub_overflow(val_2->int_val, val_1->int_val, &result))
+			return out_of_range(output);
 	} else if (op->op_type == AST_INS_EXPR_OP_MUL) {
-		result = val_2->int_val * val_1->int_val;
+		if (__builtin_mul_overflow(val_2->int_val, val_1->int_val, &result))
+			return out_of_range(output);
 	} else if (op->op_type == AST_INS_EXPR_OP_DIV) {
 		if (val_1->int_val == 0) {
 			/*
@@ -83,15 +96,30 @@ static void calci(struct ast_ins_exprop_node *op, struct ast_ins_exprval_node *v
 			out->value_type.is_null = true;
 			result = 0;
 		} else {
+			if (val_2->int_val == INT64_MIN && val_1->int_val == -1)
+				return out_of_range(output);
+
 			result = val_2->int_val / val_1->int_val;
 		}
 	} else if (op->op_type == AST_INS_EXPR_OP_MOD) {
-		result = val_2->int_val % val_1->int_val;
+		if (val_1->int_val == 0) {
+			/* same as division by 0 */
+			out->value_type.is_intnum = false;
+			out->value_type.is_null = true;
+			result = 0;
+		} else if (val_1->int_val == -1) {
+			/* INT64_MIN % -1 isn't representable for the CPU */
+			result = 0;
+		} else {
+			result = val_2->int_val % val_1->int_val;
+		}
 	} else {
 		BUG_GENERIC();
 	}
 
 	out->int_val = result;
+
+	return MIDORIDB_OK;
 }
 
 static int resolve_math_expr(struct ast_node **node, struct query_output *output)
@@ -139,9 +167,16 @@ static int resolve_math_expr(struct ast_node **node, struct query_output *output
 
 	/* calculating the result of that operation */
 	if (val_1->value_type.is_negation) {
-		negate(val_2, val_1);
+		if ((ret = negate(val_2, val_1, output)))
+			return ret;
+	} else if (val_1->value_type.is_null || val_2->value_type.is_null) {
+		/* if any term _became_ NULL, then we bubble that up */
+		memzero(&val_1->value_type, sizeof(val_1->value_type));
+		val_1->value_type.is_null = true;
+		val_1->double_val = 0;
 	} else if (val_1->value_type.is_intnum) {
-		calci(op, val_1, val_2, val_1);
+		if ((ret = calci(op, val_1, val_2, val_1, output)))
+			return ret;
 	} else if (val_1->value_type.is_approxnum) {
 		calcd(op, val_1, val_2, val_1);
 	} else {
-- 
2.43.0


From d7095339e2f19eeb28d433120a8f7dd74cbd3cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:59 +0000
Subject: [PATCH 17/68] fix: multi-row INSERT left rows behind when failing
 midway, math expression bypassed NOT NULL

---
 src/engine/executor_insert.c | 43 ++++++++++++++++++++++++++----------
 1 file changed, 31 insertions(+), 12 deletions(-)

diff --git a/src/engine/executor_insert.c b/src/engine/executor_insert.c
index 938cd85..d2d5590 100644
--- a/src/engine/executor_insert.c
+++ b/src/engine/executor_insert.c
@@ -130,6 +130,15 @@ static int build_row(struct table *table,
 			BUG_GENERIC();
 		}
 
+		/* math expressions can become NULL (i.e.: division by zero) after the semantic phase */
+		if (exprval_entry->value_type.is_null && !column->nullable) {
+			rc = -MIDORIDB_ERROR;
+			snprintf(output->error.message, sizeof(output->error.message) - 1,
+					"NOT NULL constraint failed: %s.%s\n",
+					table->name, column->name);
+			goto err;
+		}
+
 		if (!exprval_entry->value_type.is_null)
 			bit_clear(row_out->null_bitmap, column_order[val_pos], sizeof(row_out->null_bitmap));
 
@@ -198,6 +207,9 @@ int executor_run_insertvals_stmt(struct database *db, struct ast_ins_insvals_nod
 	struct ast_node *entry;
 	struct table *table;
 	struct row *row;
+	char *rows = NULL;
+	size_t row_size;
+	int row_idx = 0;
 	int column_order[TABLE_MAX_COLUMNS];
 	int rc = MIDORIDB_OK;
 
@@ -213,37 +225,44 @@ int executor_run_insertvals_stmt(struct database *db, struct ast_ins_insvals_nod
 	/* columns can be specified in an order that's different from the order defined in the CREATE stmt */
 	build_column_order(table, ins_node, column_order, ARR_SIZE(column_order));
 
+	/* build all rows upfront so that the statement either inserts all of them or none */
+	row_size = table_calc_row_size(table);
+	rows = calloc(ins_node->row_count, row_size);
+
+	if (!rows) {
+		rc = -MIDORIDB_NOMEM;
+		goto err;
+	}
+
 	list_for_each(pos, ins_node->node_children_head)
 	{
 		entry = list_entry(pos, typeof(*entry), head);
 
 		if (entry->node_type == AST_TYPE_INS_VALUES) {
-
-			row = zalloc(table_calc_row_size(table));
-
-			if (!row)
-				goto err_row_alloc;
+			row = (struct row*)(rows + row_idx * row_size);
 
 			if ((rc = build_row(table, (struct ast_ins_values_node*)entry, column_order, row, output)))
 				goto err_build_row;
 
-			if (!table_insert_row(table, row, table_calc_row_size(table))) {
-				rc = -MIDORIDB_INTERNAL;
-				goto err_ins_row;
-			}
+			row_idx++;
+		}
+	}
 
-			free(row);
+	for (int i = 0; i < row_idx; i++) {
+		if (!table_insert_row(table, (struct row*)(rows + i * row_size), row_size)) {
+			rc = -MIDORIDB_INTERNAL;
+			goto err_ins_row;
 		}
 	}
 
+	free(rows);
 	output->n_rows_aff = ins_node->row_count;
 
 	return rc;
 
 err_ins_row:
 err_build_row:
-	free(row);
-err_row_alloc:
+	free(rows);
 err:
 	return rc;
 }
-- 
2.43.0


From fb588f68f63ffb04f8d8e6d8668b78996e9ce537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:37 +0000
Subject: [PATCH 18/68] fix: trailing characters after a DATE/DATETIME literal
 were silently ignored

---
 src/parser/semantic_delete.c | 4 +++-
 src/parser/semantic_insert.c | 4 +++-
 src/parser/semantic_select.c | 4 +++-
 src/parser/semantic_update.c | 4 +++-
 4 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/parser/semantic_delete.c b/src/parser/semantic_delete.c
index 2af106c..ccd82d4 100644
--- a/src/parser/semantic_delete.c
+++ b/src/parser/semantic_delete.c
@@ -169,6 +169,7 @@ static bool try_parse_date_type(char *str, enum COLUMN_TYPE type)
 {
 	struct tm time_struct = {0};
 	const char *fmt;
+	char *end;
 	time_t time_out;
 
 	if (type == CT_DATE)
@@ -177,7 +178,8 @@ static bool try_parse_date_type(char *str, enum COLUMN_TYPE type)
 		fmt = COLUMN_CTDATETIME_FMT;
 
 	// Parse the string into a time structure
-	if (strptime(str, fmt, &time_struct) == NULL)
+	end = strptime(str, fmt, &time_struct);
+	if (end == NULL || *end != '\0')
 		return false;
 
 	// Convert the time structure to a time_t value
diff --git a/src/parser/semantic_insert.c b/src/parser/semantic_insert.c
index 1ecb77f..7e5c74b 100644
--- a/src/parser/semantic_insert.c
+++ b/src/parser/semantic_insert.c
@@ -205,6 +205,7 @@ static bool try_parse_date_type(char *str, enum COLUMN_TYPE type)
 {
 	struct tm time_struct = {0};
 	const char *fmt;
+	char *end;
 	time_t time_out;
 
 	if (type == CT_DATE)
@@ -213,7 +214,8 @@ static bool try_parse_date_type(char *str, enum COLUMN_TYPE type)
 		fmt = COLUMN_CTDATETIME_FMT;
 
 	// Parse the string into a time structure
-	if (strptime(str, fmt, &time_struct) == NULL)
+	end = strptime(str, fmt, &time_struct);
+	if (end == NULL || *end != '\0')
 		return false;
 
 	// Convert the time structure to a time_t value
diff --git a/src/parser/semantic_select.c b/src/parser/semantic_select.c
index cf97186..a630f71 100644
--- a/src/parser/semantic_select.c
+++ b/src/parser/semantic_select.c
@@ -59,6 +59,7 @@ static bool try_parse_date_type(char *str, enum COLUMN_TYPE type)
 {
 	struct tm time_struct = {0};
 	const char *fmt;
+	char *end;
 	time_t time_out;
 
 	if (type == CT_DATE)
@@ -67,7 +68,8 @@ static bool try_parse_date_type(char *str, enum COLUMN_TYPE type)
 		fmt = COLUMN_CTDATETIME_FMT;
 
 	// Parse the string into a time structure
-	if (strptime(str, fmt, &time_struct) == NULL)
+	end = strptime(str, fmt, &time_struct);
+	if (end == NULL || *end != '\0')
 		return false;
 
 	// Convert the time structure to a time_t value
diff --git a/src/parser/semantic_update.c b/src/parser/semantic_update.c
index 8b8534f..ff8888b 100644
--- a/src/parser/semantic_update.c
+++ b/src/parser/semantic_update.c
@@ -172,6 +172,7 @@ static bool try_parse_date_type(char *str, enum COLUMN_TYPE type)
 {
 	struct tm time_struct = {0};
 	const char *fmt;
+	char *end;
 	time_t time_out;
 
 	if (type == CT_DATE)
@@ -180,7 +181,8 @@ static bool try_parse_date_type(char *str, enum COLUMN_TYPE type)
 		fmt = COLUMN_CTDATETIME_FMT;
 
 	// Parse the string into a time structure
-	if (strptime(str, fmt, &time_struct) == NULL)
+	end = strptime(str, fmt, &time_struct);
+	if (end == NULL || *end != '\0')
 		return false;
 
 	// Convert the time structure to a time_t value
-- 
2.43.0


From 9cb369d70b73ebc96ffe979db05d93acd2a58b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:40 +0000
Subject: [PATCH 19/68] fix: DOUBLE literals lost precision and exponents

---
 src/parser/ast_delete.c | 2 +-
 src/parser/ast_insert.c | 2 +-
 src/parser/ast_select.c | 2 +-
 src/parser/ast_update.c | 2 +-
 src/parser/midorisql.y  | 8 ++++----
 5 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/parser/ast_delete.c b/src/parser/ast_delete.c
index c0e2363..21c4873 100644
--- a/src/parser/ast_delete.c
+++ b/src/parser/ast_delete.c
@@ -141,7 +141,7 @@ static struct ast_del_exprval_node* build_expr_val_node(struct queue *parser, en
 		reg_exp = "STRING '(.*)'";
 	} else if (type == AST_DEL_EXPR_VAL_APPROXNUM) {
 		node->value_type.is_approxnum = true;
-		reg_exp = "FLOAT (-{0,1}[0-9\\.]+)";
+		reg_exp = "FLOAT (.+)";
 	} else if (type == AST_DEL_EXPR_VAL_BOOL) {
 		node->value_type.is_bool = true;
 		reg_exp = "BOOL ([0-1])";
diff --git a/src/parser/ast_insert.c b/src/parser/ast_insert.c
index 09c01be..d696529 100644
--- a/src/parser/ast_insert.c
+++ b/src/parser/ast_insert.c
@@ -137,7 +137,7 @@ static struct ast_ins_exprval_node* build_expr_val_node(struct queue *parser, en
 		reg_exp = "STRING '(.*)'";
 	} else if (type == AST_INS_EXPR_VAL_APPROXNUM) {
 		node->value_type.is_approxnum = true;
-		reg_exp = "FLOAT (-{0,1}[0-9\\.]+)";
+		reg_exp = "FLOAT (.+)";
 	} else if (type == AST_INS_EXPR_VAL_BOOL) {
 		node->value_type.is_bool = true;
 		reg_exp = "BOOL ([0-1])";
diff --git a/src/parser/ast_select.c b/src/parser/ast_select.c
index 9bb39b4..2281fe3 100644
--- a/src/parser/ast_select.c
+++ b/src/parser/ast_select.c
@@ -44,7 +44,7 @@ static struct ast_sel_exprval_node* build_expr_val_node(struct queue *parser, en
 		reg_exp = "STRING '(.*)'";
 	} else if (type == AST_SEL_EXPR_VAL_APPROXNUM) {
 		node->value_type.is_approxnum = true;
-		reg_exp = "FLOAT (-{0,1}[0-9\\.]+)";
+		reg_exp = "FLOAT (.+)";
 	} else if (type == AST_SEL_EXPR_VAL_BOOL) {
 		node->value_type.is_bool = true;
 		reg_exp = "BOOL ([0-1])";
diff --git a/src/parser/ast_update.c b/src/parser/ast_update.c
index 454e5e3..49f938a 100644
--- a/src/parser/ast_update.c
+++ b/src/parser/ast_update.c
@@ -192,7 +192,7 @@ static struct ast_upd_exprval_node* build_expr_val_node(struct queue *parser, en
 		reg_exp = "STRING '(.*)'";
 	} else if (type == AST_UPD_EXPR_VAL_APPROXNUM) {
 		node->value_type.is_approxnum = true;
-		reg_exp = "FLOAT (-{0,1}[0-9\\.]+)";
+		reg_exp = "FLOAT (.+)";
 	} else if (type == AST_UPD_EXPR_VAL_BOOL) {
 		node->value_type.is_bool = true;
 		reg_exp = "BOOL ([0-1])";
diff --git a/src/parser/midorisql.y b/src/parser/midorisql.y
index 81637f3..1b5a3b5 100644
--- a/src/parser/midorisql.y
+++ b/src/parser/midorisql.y
@@ -253,7 +253,7 @@ expr: NAME          { emit(result, "NAME %s", $1); free($1); }
    | NAME '.' NAME { emit(result, "FIELDNAME %s.%s", $1, $3); free($1); free($3); }
    | STRING        { emit(result, "STRING %s", $1); free($1); }
    | INTNUM        { emit(result, "NUMBER %" PRId64, $1); }
-   | APPROXNUM     { emit(result, "FLOAT %g", $1); }
+   | APPROXNUM     { emit(result, "FLOAT %.17g", $1); }
    | BOOL          { emit(result, "BOOL %d", $1); }
    | NULLX         { emit(result, "NULL"); }
    ;
@@ -320,7 +320,7 @@ del_opt_where: /* nil */
 delete_expr: NAME          { emit(result, "NAME %s", $1); free($1); }
 	   | STRING        { emit(result, "STRING %s", $1); free($1); }
 	   | INTNUM        { emit(result, "NUMBER %" PRId64, $1); }
-	   | APPROXNUM     { emit(result, "FLOAT %g", $1); }
+	   | APPROXNUM     { emit(result, "FLOAT %.17g", $1); }
    	   | BOOL          { emit(result, "BOOL %d", $1); }
    	   | NULLX         { emit(result, "NULL"); }
    	   ;
@@ -377,7 +377,7 @@ insert_stmt: INSERT opt_into NAME opt_col_names
 insert_expr:
      STRING        { emit(result, "STRING %s", $1); free($1); }
    | INTNUM        { emit(result, "NUMBER %" PRId64, $1); }
-   | APPROXNUM     { emit(result, "FLOAT %g", $1); }
+   | APPROXNUM     { emit(result, "FLOAT %.17g", $1); }
    | BOOL          { emit(result, "BOOL %d", $1); }
    | NULLX         { emit(result, "NULL"); }
    ;
@@ -416,7 +416,7 @@ update_opt_where: /* nil */ 	{ $$ = 0; }
 update_expr: NAME          { emit(result, "NAME %s", $1); free($1); }
 	   | STRING        { emit(result, "STRING %s", $1); free($1); }
 	   | INTNUM        { emit(result, "NUMBER %" PRId64, $1); }
-	   | APPROXNUM     { emit(result, "FLOAT %g", $1); }
+	   | APPROXNUM     { emit(result, "FLOAT %.17g", $1); }
    	   | BOOL          { emit(result, "BOOL %d", $1); }
    	   | NULLX         { emit(result, "NULL"); }
    	   ;
-- 
2.43.0


From 3d0701879f330097235f222a212270ed594ebf17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:41 +0000
Subject: [PATCH 20/68] fix: failed row insertion freed the wrong columns and
 wrote past the row

---
 src/primitive/row.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/primitive/row.c b/src/primitive/row.c
index 03f8674..b163f28 100644
--- a/src/primitive/row.c
+++ b/src/primitive/row.c
@@ -108,7 +108,7 @@ err:
 	 */
 	pos = 0;
 	for (int i = 0; i < column_idx; i++) {
-		struct column *column = &table->columns[column_idx];
+		struct column *column = &table->columns[i];
 		if (table_check_var_column(column)) {
 			void **col_idx_ptr = (void**)&new_row->data[pos];
 			free(*col_idx_ptr);
@@ -116,7 +116,8 @@ err:
 		pos += table_calc_column_space(column);
 	}
 
-	memzero(new_row->data, table_calc_row_size(table));
+	memzero(new_row->null_bitmap, sizeof(new_row->null_bitmap));
+	memzero(new_row->data, table_calc_row_data_size(table));
 	new_row->flags.empty = true;
 	new_row->flags.deleted = false;
 
-- 
2.43.0


From c87a9bb0ac561c6742d9e4992d4ba074c98627f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:42 +0000
Subject: [PATCH 21/68] fix: updating a row with a NULL VARCHAR dereferenced
 the value's pointer

---
 src/primitive/row.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/primitive/row.c b/src/primitive/row.c
index b163f28..551cbc6 100644
--- a/src/primitive/row.c
+++ b/src/primitive/row.c
@@ -158,7 +158,12 @@ bool table_update_row(struct table *table, struct datablock *blk, size_t offset,
 		struct column *column = &table->columns[i];
 		if (table_check_var_column(column)) {
 			void **ptr = (void**)&upd_row->data[pos];
-			memcpy(*ptr, *((char**)((char*)row->data + pos)), column->precision);
+
+			/* Copy data only if column is not NULL */
+			if (!bit_test(row->null_bitmap, i, sizeof(row->null_bitmap)))
+				memcpy(*ptr, *((char**)((char*)row->data + pos)), column->precision);
+			else
+				memzero(*ptr, column->precision);
 		} else {
 			memcpy(upd_row->data + pos, ((char*)row->data) + pos, column->precision);
 		}
-- 
2.43.0


From 2d96e23372b816a45f03dbb2173b22e6ce2c11e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:43 +0000
Subject: [PATCH 22/68] fix: datablock id counter raced between threads using
 different databases

---
 src/primitive/datablock.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primitive/datablock.c b/src/primitive/datablock.c
index 4968f41..b05876f 100644
--- a/src/primitive/datablock.c
+++ b/src/primitive/datablock.c
@@ -15,7 +15,7 @@ struct datablock* datablock_alloc(struct list_head *head)
 {
 	struct datablock *new = NULL;
 	if ((new = malloc(sizeof(*new)))) {
-		new->block_id = block_id_acc++;
+		new->block_id = __atomic_fetch_add(&block_id_acc, 1, __ATOMIC_RELAXED);
 		list_head_init(&new->head);
 		list_add(&new->head, head->prev);
 	}
-- 
2.43.0


From dce4397addadcc3bc50e9ea8122d11aa58774c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:44 +0000
Subject: [PATCH 23/68] fix: vector lost its content and dereferenced NULL when
 it failed to grow

---
 src/datastructure/vector.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/datastructure/vector.c b/src/datastructure/vector.c
index d8ae49e..2c3834c 100644
--- a/src/datastructure/vector.c
+++ b/src/datastructure/vector.c
@@ -26,6 +26,7 @@ bool vector_init(struct vector *vec)
 bool vector_push(struct vector *vec, void *data, size_t len)
 {
 	size_t new_cap;
+	char *new_data;
 
 	/* sanity checks */
 	if (!vec || !data || len == 0)
@@ -34,12 +35,13 @@ bool vector_push(struct vector *vec, void *data, size_t len)
 	/* does the vector need to grow? */
 	if (vec->len + len > vec->capacity / 2) {
 		new_cap = (vec->len + len) * 3;
-		vec->data = realloc(vec->data, new_cap);
-		memzero(vec->data + vec->len, new_cap - vec->len);
+		new_data = realloc(vec->data, new_cap);
 
-		if (!vec->data)
+		if (!new_data)
 			return false;
 
+		vec->data = new_data;
+		memzero(vec->data + vec->len, new_cap - vec->len);
 		vec->capacity = new_cap;
 	}
 
-- 
2.43.0


From c12870c0ed7fdcf0bc197cf28e62214db8356a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:12 +0000
Subject: [PATCH 24/68] fix: removing a column left the NULL flags of the
 following columns misplaced

---
 src/primitive/column.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/primitive/column.c b/src/primitive/column.c
index b405e3b..536e514 100644
--- a/src/primitive/column.c
+++ b/src/primitive/column.c
@@ -143,6 +143,21 @@ bool table_add_column(struct table *table, struct column *column)
 	return true;
 }
 
+/* drop the NULL flag of a column so the flags of the columns next to it keep matching their columns */
+static void null_bitmap_rem_column(struct table *table, struct row *row, size_t col_idx)
+{
+	size_t len = sizeof(row->null_bitmap);
+
+	for (size_t i = col_idx; i < (size_t)table->column_count - 1; i++) {
+		if (bit_test(row->null_bitmap, i + 1, len))
+			bit_set(row->null_bitmap, i, len);
+		else
+			bit_clear(row->null_bitmap, i, len);
+	}
+
+	bit_clear(row->null_bitmap, table->column_count - 1, len);
+}
+
 static void datablock_rem_column(struct table *table, size_t col_idx)
 {
 	struct list_head *head;
@@ -187,6 +202,8 @@ static void datablock_rem_column(struct table *table, size_t col_idx)
 				memzero(var_ptr, sizeof(*var_ptr));
 			}
 
+			null_bitmap_rem_column(table, row, col_idx);
+
 			/* remove column data */
 			memmove(&row->data[data_offset],
 				&row->data[data_offset + col_prec],
-- 
2.43.0


From 26271573b94996fa7b4ab22f949d702d53980db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:13 +0000
Subject: [PATCH 25/68] fix: column was kept when existing rows couldn't be
 moved to the new layout

---
 src/primitive/column.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/primitive/column.c b/src/primitive/column.c
index 536e514..cd97ae0 100644
--- a/src/primitive/column.c
+++ b/src/primitive/column.c
@@ -136,8 +136,11 @@ bool table_add_column(struct table *table, struct column *column)
 
 	/* if table isn't empty than we can to rearrange rows in datablocks */
 	if (!list_is_empty(table->datablock_head)) {
-		if (!datablock_add_column(table, row_cur_size, table_calc_row_size(table)))
+		if (!datablock_add_column(table, row_cur_size, table_calc_row_size(table))) {
+			/* rows are still laid out as they were before */
+			table->column_count--;
 			return false;
+		}
 	}
 
 	return true;
-- 
2.43.0


From 174820373b0b57488f56b95276d23a4ecdbb82c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:40 +0000
Subject: [PATCH 26/68] fix: VARCHAR column added to a table with rows had no
 storage in those rows

---
 src/primitive/column.c | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/src/primitive/column.c b/src/primitive/column.c
index cd97ae0..256e2a7 100644
--- a/src/primitive/column.c
+++ b/src/primitive/column.c
@@ -37,7 +37,9 @@ static bool datablock_add_column(struct table *table, size_t row_cur_size, size_
 	struct list_head *old_head, *new_head;
 	struct list_head *old_pos, *new_pos, *tmp_pos;
 	struct datablock *old_entry, *new_entry;
-	size_t blk_offset;
+	struct column *column;
+	size_t blk_offset, col_offset;
+	void **var_ptr;
 
 	/* sanity checks */
 	if (!table || row_cur_size == row_nxt_size)
@@ -47,6 +49,8 @@ static bool datablock_add_column(struct table *table, size_t row_cur_size, size_
 	blk_offset = 0;
 	old_entry = NULL;
 	new_entry = NULL;
+	column = &table->columns[table->column_count - 1];
+	col_offset = table_calc_row_data_size(table) - table_calc_column_space(column);
 
 	/* alloc new datablock head in which data will live */
 	new_head = datablock_init();
@@ -78,6 +82,16 @@ static bool datablock_add_column(struct table *table, size_t row_cur_size, size_
 
 			/* copy row into new datablock */
 			memcpy(&new_entry->data[blk_offset], row, row_cur_size);
+
+			/* rows always own the storage of their var precision columns */
+			if (table_check_var_column(column)) {
+				row = (struct row*)&new_entry->data[blk_offset];
+				var_ptr = (void**)&row->data[col_offset];
+
+				if (!(*var_ptr = zalloc(column->precision)))
+					goto err_free;
+			}
+
 			blk_offset += row_nxt_size;
 		}
 	}
@@ -98,7 +112,20 @@ static bool datablock_add_column(struct table *table, size_t row_cur_size, size_
 err_free:
 	list_for_each_safe(new_pos, tmp_pos, new_head)
 	{
-		datablock_free(list_entry(new_pos, typeof(*new_entry), head));
+		new_entry = list_entry(new_pos, typeof(*new_entry), head);
+
+		/* the remaining columns still belong to the rows in the old data blocks */
+		for (size_t i = 0; table_check_var_column(column) && i < (DATABLOCK_PAGE_SIZE / row_nxt_size); i++) {
+			struct row *row = (struct row*)&new_entry->data[i * row_nxt_size];
+
+			if (row->flags.empty)
+				break;
+
+			var_ptr = (void**)&row->data[col_offset];
+			free(*var_ptr);
+		}
+
+		datablock_free(new_entry);
 	}
 	free(new_head);
 
-- 
2.43.0


From 5add176670500dbf01dded117d6b2a4625d80ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:47 +0000
Subject: [PATCH 27/68] fix: result cursor read past the last row of a block,
 stopped at unused rows and wrapped around at the end

---
 src/engine/query.c | 54 ++++++++++++++++++++++++++++------------------
 1 file changed, 33 insertions(+), 21 deletions(-)

diff --git a/src/engine/query.c b/src/engine/query.c
index af0cb3b..d36c3f1 100644
--- a/src/engine/query.c
+++ b/src/engine/query.c
@@ -118,42 +118,53 @@ err:
 
 int query_cur_step(struct result_set *res)
 {
+	struct datablock *blk;
 	struct row *row;
-	size_t row_size;
+	size_t row_size, offset;
 
 	/* sanity checks */
 	BUG_ON(!res || !res->table);
 
 	row_size = table_calc_row_size(res->table);
 
+	if (list_is_empty(res->table->datablock_head))
+		/* no rows at all */
+		return MIDORIDB_OK;
+
 	/* is this the first time ? */
 	if (!res->cursor_blk) {
-
-		res->cursor_blk = container_of(res->table->datablock_head->next, typeof(struct datablock), head);
-		res->cursor_offset = 0;
+		blk = container_of(res->table->datablock_head->next, typeof(*blk), head);
+		offset = 0;
 	} else {
-		if (res->cursor_offset + row_size > DATABLOCK_PAGE_SIZE) {
-			res->cursor_blk = container_of(res->cursor_blk->head.next, typeof(struct datablock), head);
-			res->cursor_offset = 0;
+		blk = res->cursor_blk;
+		offset = res->cursor_offset + row_size;
+	}
 
-			if (&res->cursor_blk->head == res->table->datablock_head) {
-				/* end of the line */
+	while (true) {
+		/* is there enough room for another row in this block ? */
+		if (offset + row_size > DATABLOCK_PAGE_SIZE) {
+			if (blk->head.next == res->table->datablock_head)
+				/* end of the line - cursor doesn't move past the last row */
 				return MIDORIDB_OK;
-			}
-		} else {
-			res->cursor_offset += row_size;
+
+			blk = container_of(blk->head.next, typeof(*blk), head);
+			offset = 0;
+			continue;
 		}
-	}
 
-	/* at this point we shouldn't have any of this, so clearly something went really wrong here */
-	row = (typeof(row))&res->cursor_blk->data[res->cursor_offset];
-	BUG_ON(row->flags.deleted);
+		/* at this point we shouldn't have any of this, so clearly something went really wrong here */
+		row = (typeof(row))&blk->data[offset];
+		BUG_ON(row->flags.deleted);
 
-	if (row->flags.empty)
-		/* end of the line */
-		return MIDORIDB_OK;
+		if (!row->flags.empty) {
+			res->cursor_blk = blk;
+			res->cursor_offset = offset;
+			return MIDORIDB_ROW;
+		}
 
-	return MIDORIDB_ROW;
+		/* there can be unused rows at the end of any block */
+		offset += row_size;
+	}
 }
 
 int64_t query_column_int64(struct result_set *res, int col_idx)
@@ -173,7 +184,8 @@ int64_t query_column_int64(struct result_set *res, int col_idx)
 	for (int i = 0; i < col_idx; i++)
 		offset += table_calc_column_space(&res->table->columns[i]);
 
-	ret = *(int64_t*)(row->data + offset);
+	/* columns can be narrower than what we return (i.e.: TINYINT) */
+	memcpy(&ret, row->data + offset, MIN(sizeof(ret), table_calc_column_space(&res->table->columns[col_idx])));
 	return ret;
 }
 
-- 
2.43.0


From 89b9c52341e1d62f6bdcf0d037c4c2d26068ec13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:24 +0000
Subject: [PATCH 28/68] fix: DELETE/UPDATE compared INTEGER values as 32-bit
 integers

---
 src/engine/executor_delete.c | 2 +-
 src/engine/executor_update.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/engine/executor_delete.c b/src/engine/executor_delete.c
index 505e79b..bb631e8 100644
--- a/src/engine/executor_delete.c
+++ b/src/engine/executor_delete.c
@@ -54,7 +54,7 @@ static bool cmp_double_value_to_value(enum ast_comparison_type cmp_type, double
 	}
 }
 
-static bool cmp_int_value_to_value(enum ast_comparison_type cmp_type, int val_1, int val_2)
+static bool cmp_int_value_to_value(enum ast_comparison_type cmp_type, int64_t val_1, int64_t val_2)
 {
 	switch (cmp_type) {
 	case AST_CMP_DIFF_OP:
diff --git a/src/engine/executor_update.c b/src/engine/executor_update.c
index 1844ec6..e0ed596 100644
--- a/src/engine/executor_update.c
+++ b/src/engine/executor_update.c
@@ -54,7 +54,7 @@ static bool cmp_double_value_to_value(enum ast_comparison_type cmp_type, double
 	}
 }
 
-static bool cmp_int_value_to_value(enum ast_comparison_type cmp_type, int val_1, int val_2)
+static bool cmp_int_value_to_value(enum ast_comparison_type cmp_type, int64_t val_1, int64_t val_2)
 {
 	switch (cmp_type) {
 	case AST_CMP_DIFF_OP:
-- 
2.43.0


From 62aae6125e325fa5f9517f0eafacfa17208a0100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:26 +0000
Subject: [PATCH 29/68] fix: DELETE/UPDATE comparing a column to itself
 terminated the process

---
 src/engine/executor_delete.c | 5 ++++-
 src/engine/executor_update.c | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/engine/executor_delete.c b/src/engine/executor_delete.c
index bb631e8..50877cd 100644
--- a/src/engine/executor_delete.c
+++ b/src/engine/executor_delete.c
@@ -137,7 +137,10 @@ static bool cmp_field_to_field(struct table *table, struct row *row, struct ast_
 			type = col->type;
 			offset_1 = tmp_offset;
 			col_idx_1 = i;
-		} else if (strcmp(col->name, val_2->name_val) == 0) {
+		}
+
+		/* not an 'else if' because both operands can be the very same column */
+		if (strcmp(col->name, val_2->name_val) == 0) {
 			offset_2 = tmp_offset;
 			col_idx_2 = i;
 		}
diff --git a/src/engine/executor_update.c b/src/engine/executor_update.c
index e0ed596..92c22c9 100644
--- a/src/engine/executor_update.c
+++ b/src/engine/executor_update.c
@@ -137,7 +137,10 @@ static bool cmp_field_to_field(struct table *table, struct row *row, struct ast_
 			type = col->type;
 			offset_1 = tmp_offset;
 			col_idx_1 = i;
-		} else if (strcmp(col->name, val_2->name_val) == 0) {
+		}
+
+		/* not an 'else if' because both operands can be the very same column */
+		if (strcmp(col->name, val_2->name_val) == 0) {
 			offset_2 = tmp_offset;
 			col_idx_2 = i;
 		}
-- 
2.43.0


From 5049bfd5ee6fab1e18ef62077cc210e9ec8405d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:28 +0000
Subject: [PATCH 30/68] fix: DELETE/UPDATE evaluated "value < column" as
 "column < value"

---
 src/engine/executor_delete.c | 25 ++++++++++++++++++++++---
 src/engine/executor_update.c | 25 ++++++++++++++++++++++---
 2 files changed, 44 insertions(+), 6 deletions(-)

diff --git a/src/engine/executor_delete.c b/src/engine/executor_delete.c
index 50877cd..638b8f7 100644
--- a/src/engine/executor_delete.c
+++ b/src/engine/executor_delete.c
@@ -267,11 +267,29 @@ static bool cmp_value_to_value(struct ast_del_cmp_node *node, struct ast_del_exp
 
 }
 
+/* operator equivalent to @cmp_type when operands swap sides. (Ex.: 2 < a -> a > 2) */
+static enum ast_comparison_type mirror_cmp_type(enum ast_comparison_type cmp_type)
+{
+	switch (cmp_type) {
+	case AST_CMP_GTE_OP:
+		return AST_CMP_LTE_OP;
+	case AST_CMP_GT_OP:
+		return AST_CMP_LT_OP;
+	case AST_CMP_LTE_OP:
+		return AST_CMP_GTE_OP;
+	case AST_CMP_LT_OP:
+		return AST_CMP_GT_OP;
+	default:
+		return cmp_type;
+	}
+}
+
 static bool eval_cmp(struct table *table, struct row *row, struct ast_del_cmp_node *node)
 {
 	struct list_head *pos;
 	struct ast_node *tmp_node;
 	struct ast_del_exprval_node *val_1 = NULL, *val_2 = NULL;
+	struct ast_del_cmp_node mirrored = {0};
 
 	list_for_each(pos, node->node_children_head)
 	{
@@ -287,11 +305,12 @@ static bool eval_cmp(struct table *table, struct row *row, struct ast_del_cmp_no
 		/* field to field comparison */
 		return cmp_field_to_field(table, row, node, val_1, val_2);
 	} else if (val_1->value_type.is_name && !val_2->value_type.is_name) {
-		/* field-to-value or value-to-field comparison */
+		/* field-to-value comparison */
 		return cmp_field_to_value(table, row, node, val_1, val_2);
 	} else if (!val_1->value_type.is_name && val_2->value_type.is_name) {
-		/* value-to-field or value-to-field comparison */
-		return cmp_field_to_value(table, row, node, val_2, val_1);
+		/* value-to-field comparison */
+		mirrored.cmp_type = mirror_cmp_type(node->cmp_type);
+		return cmp_field_to_value(table, row, &mirrored, val_2, val_1);
 	} else {
 		/* value-to-value comparison */
 		return cmp_value_to_value(node, val_1, val_2);
diff --git a/src/engine/executor_update.c b/src/engine/executor_update.c
index 92c22c9..9c81f66 100644
--- a/src/engine/executor_update.c
+++ b/src/engine/executor_update.c
@@ -246,11 +246,29 @@ static bool cmp_value_to_value(struct ast_upd_cmp_node *node, struct ast_upd_exp
 
 }
 
+/* operator equivalent to @cmp_type when operands swap sides. (Ex.: 2 < a -> a > 2) */
+static enum ast_comparison_type mirror_cmp_type(enum ast_comparison_type cmp_type)
+{
+	switch (cmp_type) {
+	case AST_CMP_GTE_OP:
+		return AST_CMP_LTE_OP;
+	case AST_CMP_GT_OP:
+		return AST_CMP_LT_OP;
+	case AST_CMP_LTE_OP:
+		return AST_CMP_GTE_OP;
+	case AST_CMP_LT_OP:
+		return AST_CMP_GT_OP;
+	default:
+		return cmp_type;
+	}
+}
+
 static bool eval_cmp(struct table *table, struct row *row, struct ast_upd_cmp_node *node)
 {
 	struct list_head *pos;
 	struct ast_node *tmp_node;
 	struct ast_upd_exprval_node *val_1 = NULL, *val_2 = NULL;
+	struct ast_upd_cmp_node mirrored = {0};
 
 	list_for_each(pos, node->node_children_head)
 	{
@@ -266,11 +284,12 @@ static bool eval_cmp(struct table *table, struct row *row, struct ast_upd_cmp_no
 		/* field to field comparison */
 		return cmp_field_to_field(table, row, node, val_1, val_2);
 	} else if (val_1->value_type.is_name && !val_2->value_type.is_name) {
-		/* field-to-value or value-to-field comparison */
+		/* field-to-value comparison */
 		return cmp_field_to_value(table, row, node, val_1, val_2);
 	} else if (!val_1->value_type.is_name && val_2->value_type.is_name) {
-		/* value-to-field or value-to-field comparison */
-		return cmp_field_to_value(table, row, node, val_2, val_1);
+		/* value-to-field comparison */
+		mirrored.cmp_type = mirror_cmp_type(node->cmp_type);
+		return cmp_field_to_value(table, row, &mirrored, val_2, val_1);
 	} else {
 		/* value-to-value comparison */
 		return cmp_value_to_value(node, val_1, val_2);
-- 
2.43.0


From 23a105cb5822c3d0bc86322ca6ad621525c3e5cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:29 +0000
Subject: [PATCH 31/68] fix: DELETE/UPDATE with NOT IN matched rows equal to
 one of the values

---
 src/engine/executor_delete.c | 7 ++++---
 src/engine/executor_update.c | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/engine/executor_delete.c b/src/engine/executor_delete.c
index 638b8f7..2b7b9b2 100644
--- a/src/engine/executor_delete.c
+++ b/src/engine/executor_delete.c
@@ -373,11 +373,12 @@ static bool eval_isxin(struct table *table, struct row *row, struct ast_del_isxi
 		tmp_entry = list_entry(pos, typeof(*tmp_entry), head);
 
 		if (!tmp_entry->value_type.is_name) {
-			if (cmp_field_to_value(table, row, &cmp_node, field, tmp_entry))
-				return true;
+			/* IN requires a match with any of the values whereas NOT IN requires a mismatch with them all */
+			if (cmp_field_to_value(table, row, &cmp_node, field, tmp_entry) != node->is_negation)
+				return !node->is_negation;
 		}
 	}
-	return false;
+	return node->is_negation;
 }
 
 static bool eval_delete_row(struct table *table, struct row *row, struct ast_node *node)
diff --git a/src/engine/executor_update.c b/src/engine/executor_update.c
index 9c81f66..866cba5 100644
--- a/src/engine/executor_update.c
+++ b/src/engine/executor_update.c
@@ -352,11 +352,12 @@ static bool eval_isxin(struct table *table, struct row *row, struct ast_upd_isxi
 		tmp_entry = list_entry(pos, typeof(*tmp_entry), head);
 
 		if (!tmp_entry->value_type.is_name) {
-			if (cmp_field_to_value(table, row, &cmp_node, field, tmp_entry))
-				return true;
+			/* IN requires a match with any of the values whereas NOT IN requires a mismatch with them all */
+			if (cmp_field_to_value(table, row, &cmp_node, field, tmp_entry) != node->is_negation)
+				return !node->is_negation;
 		}
 	}
-	return false;
+	return node->is_negation;
 }
 
 static bool should_update_row(struct table *table, struct row *row, struct ast_node *node)
-- 
2.43.0


From a08ecde8c0aa1d6c8cb1ea3d52ca6c2e41eaf9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:33 +0000
Subject: [PATCH 32/68] fix: DELETE/UPDATE rejected unknown columns without an
 error message

---
 src/parser/semantic_delete.c |  5 +++--
 src/parser/semantic_update.c | 11 ++++++++---
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/parser/semantic_delete.c b/src/parser/semantic_delete.c
index ccd82d4..6b71ec6 100644
--- a/src/parser/semantic_delete.c
+++ b/src/parser/semantic_delete.c
@@ -64,8 +64,9 @@ static bool __check_column_exists(struct database *db, struct ast_del_deleteone_
 	if (node->node_type == AST_TYPE_DEL_EXPRVAL) {
 		val_node = (typeof(val_node))node;
 
-		if (val_node->value_type.is_name) {
-			return column_exists(db, root, val_node);
+		if (val_node->value_type.is_name && !column_exists(db, root, val_node)) {
+			snprintf(out_err, out_err_len, "no such column: '%.128s'\n", val_node->name_val);
+			return false;
 		}
 	} else {
 		list_for_each(pos, node->node_children_head)
diff --git a/src/parser/semantic_update.c b/src/parser/semantic_update.c
index ff8888b..94ade7b 100644
--- a/src/parser/semantic_update.c
+++ b/src/parser/semantic_update.c
@@ -64,13 +64,18 @@ static bool __check_column_exists(struct database *db, struct ast_upd_update_nod
 	if (node->node_type == AST_TYPE_UPD_EXPRVAL) {
 		val_node = (typeof(val_node))node;
 
-		if (val_node->value_type.is_name) {
-			return column_exists(db, root, val_node->name_val, sizeof(val_node->name_val));
+		if (val_node->value_type.is_name
+				&& !column_exists(db, root, val_node->name_val, sizeof(val_node->name_val))) {
+			snprintf(out_err, out_err_len, "no such column: '%.128s'\n", val_node->name_val);
+			return false;
 		}
 	} else if (node->node_type == AST_TYPE_UPD_ASSIGN) {
 		assign_node = (typeof(assign_node))node;
 
-		return column_exists(db, root, assign_node->field_name, sizeof(assign_node->field_name));
+		if (!column_exists(db, root, assign_node->field_name, sizeof(assign_node->field_name))) {
+			snprintf(out_err, out_err_len, "no such column: '%.128s'\n", assign_node->field_name);
+			return false;
+		}
 	} else {
 		list_for_each(pos, node->node_children_head)
 		{
-- 
2.43.0


From da4e4d62b75196a1f3fd01c7f4939437fd8b6a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:34 +0000
Subject: [PATCH 33/68] fix: DELETE/UPDATE conditions that cannot be evaluated
 terminated the process

---
 src/parser/semantic_delete.c | 61 ++++++++++++++++++++++++++++++++++++
 src/parser/semantic_update.c | 61 ++++++++++++++++++++++++++++++++++++
 2 files changed, 122 insertions(+)

diff --git a/src/parser/semantic_delete.c b/src/parser/semantic_delete.c
index 6b71ec6..a342433 100644
--- a/src/parser/semantic_delete.c
+++ b/src/parser/semantic_delete.c
@@ -85,6 +85,63 @@ static bool check_column_exists(struct database *db, struct ast_del_deleteone_no
 	return __check_column_exists(db, root, (struct ast_node*)root, out_err, out_err_len);
 }
 
+/*
+ * The grammar lets any expression sit anywhere whereas these are the only shapes that can be evaluated:
+ *
+ * 	- conditions (WHERE-clause and operands of AND, OR, XOR): comparisons, IS [NOT] NULL, [NOT] IN
+ * 	- operands of comparisons: fields and raw values
+ * 	- IS [NOT] NULL: fields
+ * 	- [NOT] IN: field on the left-hand side
+ */
+static bool check_conditions(struct ast_node *root, char *out_err, size_t out_err_len)
+{
+	struct list_head *pos;
+	struct ast_node *tmp_entry;
+
+	if (root->node_type == AST_TYPE_DEL_CMP) {
+		list_for_each(pos, root->node_children_head)
+		{
+			tmp_entry = list_entry(pos, typeof(*tmp_entry), head);
+
+			if (tmp_entry->node_type != AST_TYPE_DEL_EXPRVAL) {
+				snprintf(out_err, out_err_len, "only fields and raw values can be compared\n");
+				return false;
+			}
+		}
+	} else if (root->node_type == AST_TYPE_DEL_EXPRISXNULL) {
+		list_for_each(pos, root->node_children_head)
+		{
+			tmp_entry = list_entry(pos, typeof(*tmp_entry), head);
+
+			if (tmp_entry->node_type != AST_TYPE_DEL_EXPRVAL) {
+				snprintf(out_err, out_err_len, "only fields are allowed in IS NULL|IS NOT NULL\n");
+				return false;
+			}
+		}
+	} else if (root->node_type == AST_TYPE_DEL_EXPRISXIN) {
+		/* left-hand side is always the first one */
+		tmp_entry = list_entry(root->node_children_head->next, typeof(*tmp_entry), head);
+
+		if (tmp_entry->node_type != AST_TYPE_DEL_EXPRVAL
+				|| !((struct ast_del_exprval_node*)tmp_entry)->value_type.is_name) {
+			snprintf(out_err, out_err_len, "IN-clause requires a field on its left-hand side\n");
+			return false;
+		}
+	} else if (root->node_type == AST_TYPE_DEL_DELETEONE || root->node_type == AST_TYPE_DEL_LOGOP) {
+		list_for_each(pos, root->node_children_head)
+		{
+			tmp_entry = list_entry(pos, typeof(*tmp_entry), head);
+			if (!check_conditions(tmp_entry, out_err, out_err_len))
+				return false;
+		}
+	} else {
+		snprintf(out_err, out_err_len, "fields and raw values aren't conditions\n");
+		return false;
+	}
+
+	return true;
+}
+
 static bool check_isxin_entries(struct ast_node *root, char *out_err, size_t out_err_len)
 {
 	struct list_head *pos;
@@ -493,6 +550,10 @@ bool semantic_analyse_delete_stmt(struct database *db, struct ast_node *node, ch
 	if (!check_column_exists(db, deleteone_node, out_err, out_err_len))
 		return false;
 
+	/* can the WHERE-clause be evaluated? Ex.: "(a = 1) = 2", "a" or "1 IN (2)" can't */
+	if (!check_conditions((struct ast_node*)deleteone_node, out_err, out_err_len))
+		return false;
+
 	/* are all values in the "field IN (xxxxx)" raw values? We can't have fields in there */
 	if (!check_isxin_entries((struct ast_node*)deleteone_node, out_err, out_err_len))
 		return false;
diff --git a/src/parser/semantic_update.c b/src/parser/semantic_update.c
index 94ade7b..9cc1c85 100644
--- a/src/parser/semantic_update.c
+++ b/src/parser/semantic_update.c
@@ -93,6 +93,63 @@ static bool check_column_exists(struct database *db, struct ast_upd_update_node
 	return __check_column_exists(db, root, (struct ast_node*)root, out_err, out_err_len);
 }
 
+/*
+ * The grammar lets any expression sit anywhere whereas these are the only shapes that can be evaluated:
+ *
+ * 	- conditions (WHERE-clause and operands of AND, OR, XOR): comparisons, IS [NOT] NULL, [NOT] IN
+ * 	- operands of comparisons: fields and raw values
+ * 	- IS [NOT] NULL: fields
+ * 	- [NOT] IN: field on the left-hand side
+ */
+static bool check_conditions(struct ast_node *root, char *out_err, size_t out_err_len)
+{
+	struct list_head *pos;
+	struct ast_node *tmp_entry;
+
+	if (root->node_type == AST_TYPE_UPD_CMP) {
+		list_for_each(pos, root->node_children_head)
+		{
+			tmp_entry = list_entry(pos, typeof(*tmp_entry), head);
+
+			if (tmp_entry->node_type != AST_TYPE_UPD_EXPRVAL) {
+				snprintf(out_err, out_err_len, "only fields and raw values can be compared\n");
+				return false;
+			}
+		}
+	} else if (root->node_type == AST_TYPE_UPD_EXPRISXNULL) {
+		list_for_each(pos, root->node_children_head)
+		{
+			tmp_entry = list_entry(pos, typeof(*tmp_entry), head);
+
+			if (tmp_entry->node_type != AST_TYPE_UPD_EXPRVAL) {
+				snprintf(out_err, out_err_len, "only fields are allowed in IS NULL|IS NOT NULL\n");
+				return false;
+			}
+		}
+	} else if (root->node_type == AST_TYPE_UPD_EXPRISXIN) {
+		/* left-hand side is always the first one */
+		tmp_entry = list_entry(root->node_children_head->next, typeof(*tmp_entry), head);
+
+		if (tmp_entry->node_type != AST_TYPE_UPD_EXPRVAL
+				|| !((struct ast_upd_exprval_node*)tmp_entry)->value_type.is_name) {
+			snprintf(out_err, out_err_len, "IN-clause requires a field on its left-hand side\n");
+			return false;
+		}
+	} else if (root->node_type == AST_TYPE_UPD_UPDATE || root->node_type == AST_TYPE_UPD_LOGOP) {
+		list_for_each(pos, root->node_children_head)
+		{
+			tmp_entry = list_entry(pos, typeof(*tmp_entry), head);
+			if (!check_conditions(tmp_entry, out_err, out_err_len))
+				return false;
+		}
+	} else if (root->node_type != AST_TYPE_UPD_ASSIGN) {
+		snprintf(out_err, out_err_len, "fields and raw values aren't conditions\n");
+		return false;
+	}
+
+	return true;
+}
+
 static bool check_isxin_entries(struct ast_node *root, char *out_err, size_t out_err_len)
 {
 	struct list_head *pos;
@@ -533,6 +590,10 @@ bool semantic_analyse_update_stmt(struct database *db, struct ast_node *node, ch
 	if (!check_column_exists(db, update_node, out_err, out_err_len))
 		return false;
 
+	/* can the WHERE-clause be evaluated? Ex.: "(a = 1) = 2", "a" or "1 IN (2)" can't */
+	if (!check_conditions((struct ast_node*)update_node, out_err, out_err_len))
+		return false;
+
 	/* are all values in the "field IN (xxxxx)" raw values? We can't have fields in there */
 	if (!check_isxin_entries((struct ast_node*)update_node, out_err, out_err_len))
 		return false;
-- 
2.43.0


From b99d0013879ec0a2033a73f454b3a6aae0752b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:10 +0000
Subject: [PATCH 34/68] fix: UPDATE bypassed NOT NULL, truncated VARCHAR values
 and accepted columns as values

---
 src/parser/semantic_update.c | 61 ++++++++++++++++++++++++++++++++++++
 1 file changed, 61 insertions(+)

diff --git a/src/parser/semantic_update.c b/src/parser/semantic_update.c
index 9cc1c85..e71318f 100644
--- a/src/parser/semantic_update.c
+++ b/src/parser/semantic_update.c
@@ -150,6 +150,63 @@ static bool check_conditions(struct ast_node *root, char *out_err, size_t out_er
 	return true;
 }
 
+/* Can the column hold the value assigned to it? INSERT stmts impose the very same constraints */
+static bool check_assignments(struct database *db, struct ast_upd_update_node *root, char *out_err, size_t out_err_len)
+{
+	struct list_head *pos;
+	struct table *table;
+	struct column *column;
+	struct ast_node *tmp_entry;
+	struct ast_upd_assign_node *assign_node;
+	struct ast_upd_exprval_node *val_node;
+	size_t len;
+
+	table = database_table_get(db, root->table_name);
+
+	list_for_each(pos, root->node_children_head)
+	{
+		tmp_entry = list_entry(pos, typeof(*tmp_entry), head);
+
+		if (tmp_entry->node_type != AST_TYPE_UPD_ASSIGN)
+			continue;
+
+		assign_node = (typeof(assign_node))tmp_entry;
+		val_node = list_entry(assign_node->node_children_head->next, typeof(*val_node), head);
+
+		if (val_node->node_type != AST_TYPE_UPD_EXPRVAL || val_node->value_type.is_name) {
+			snprintf(out_err, out_err_len, "column: '%.128s' can only be set to raw values\n",
+					assign_node->field_name);
+			return false;
+		}
+
+		for (int i = 0; i < table->column_count; i++) {
+			column = &table->columns[i];
+
+			if (strcmp(column->name, assign_node->field_name) != 0)
+				continue;
+
+			if (val_node->value_type.is_null && !column->nullable) {
+				snprintf(out_err, out_err_len, "NOT NULL constraint failed: %s.%s\n", table->name,
+						column->name);
+				return false;
+			}
+
+			if (val_node->value_type.is_str && column->type == CT_VARCHAR) {
+				len = strlen(val_node->str_val) + 1;
+				if (len > (size_t)column->precision) {
+					snprintf(out_err, out_err_len,
+							"column: '%s' supports up to %d ASCII chars, "
+							"value contains %lu\n",
+							column->name, column->precision, len);
+					return false;
+				}
+			}
+		}
+	}
+
+	return true;
+}
+
 static bool check_isxin_entries(struct ast_node *root, char *out_err, size_t out_err_len)
 {
 	struct list_head *pos;
@@ -590,6 +647,10 @@ bool semantic_analyse_update_stmt(struct database *db, struct ast_node *node, ch
 	if (!check_column_exists(db, update_node, out_err, out_err_len))
 		return false;
 
+	/* are values assigned to columns allowed by their constraints? */
+	if (!check_assignments(db, update_node, out_err, out_err_len))
+		return false;
+
 	/* can the WHERE-clause be evaluated? Ex.: "(a = 1) = 2", "a" or "1 IN (2)" can't */
 	if (!check_conditions((struct ast_node*)update_node, out_err, out_err_len))
 		return false;
-- 
2.43.0


From ffb04893d8cb1415a993e5919327c49f313d41c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:09 +0000
Subject: [PATCH 35/68] fix: SELECT compared INTEGER values as 32-bit integers

---
 src/engine/executor_select.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/engine/executor_select.c b/src/engine/executor_select.c
index 72df5e2..8460e3b 100644
--- a/src/engine/executor_select.c
+++ b/src/engine/executor_select.c
@@ -459,7 +459,7 @@ static bool cmp_double_value_to_value(enum ast_comparison_type cmp_type, double
 	}
 }
 
-static bool cmp_int_value_to_value(enum ast_comparison_type cmp_type, int val_1, int val_2)
+static bool cmp_int_value_to_value(enum ast_comparison_type cmp_type, int64_t val_1, int64_t val_2)
 {
 	switch (cmp_type) {
 	case AST_CMP_DIFF_OP:
-- 
2.43.0


From ff1cf3a48e44934f19f181f7c5d991c55a93ac31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:11 +0000
Subject: [PATCH 36/68] fix: GROUP BY collapsed values whose difference doesn't
 fit in an int or rounds to zero

---
 src/engine/executor_select.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/engine/executor_select.c b/src/engine/executor_select.c
index 8460e3b..0dc948e 100644
--- a/src/engine/executor_select.c
+++ b/src/engine/executor_select.c
@@ -1462,6 +1462,9 @@ static int proc_where_clause(struct ast_node *node, struct table *table)
 	return MIDORIDB_OK;
 }
 
+/* Differences don't necessarily fit in an int (64-bit types) or get rounded to zero (doubles) */
+#define CMP_VALUES(val_1, val_2)	(((val_1) > (val_2)) - ((val_1) < (val_2)))
+
 static int cmp_rows_col_mattbl(struct table *table, struct row *row_1, struct row *row_2, struct ast_node *fld_val)
 {
 	struct column_specs col_spcs = {0};
@@ -1481,13 +1484,13 @@ static int cmp_rows_col_mattbl(struct table *table, struct row *row_1, struct ro
 	else if (!is_null_1 && is_null_2)
 		ret = 1;
 	else if (col_spcs.type == CT_DOUBLE) {
-		ret = (*(double*)&row_1->data[col_spcs.offset]) - (*(double*)&row_2->data[col_spcs.offset]);
+		ret = CMP_VALUES(*(double*)&row_1->data[col_spcs.offset], *(double*)&row_2->data[col_spcs.offset]);
 	} else if (col_spcs.type == CT_TINYINT) {
-		ret = (*(bool*)&row_1->data[col_spcs.offset]) - (*(bool*)&row_2->data[col_spcs.offset]);
+		ret = CMP_VALUES(*(bool*)&row_1->data[col_spcs.offset], *(bool*)&row_2->data[col_spcs.offset]);
 	} else if (col_spcs.type == CT_INTEGER) {
-		ret = (*(int64_t*)&row_1->data[col_spcs.offset]) - (*(int64_t*)&row_2->data[col_spcs.offset]);
+		ret = CMP_VALUES(*(int64_t*)&row_1->data[col_spcs.offset], *(int64_t*)&row_2->data[col_spcs.offset]);
 	} else if (col_spcs.type == CT_DATE || col_spcs.type == CT_DATETIME) {
-		ret = (*(time_t*)&row_1->data[col_spcs.offset]) - (*(time_t*)&row_2->data[col_spcs.offset]);
+		ret = CMP_VALUES(*(time_t*)&row_1->data[col_spcs.offset], *(time_t*)&row_2->data[col_spcs.offset]);
 	} else if (col_spcs.type == CT_VARCHAR) {
 		ret = strcmp(*(char**)&row_1->data[col_spcs.offset], *(char**)&row_2->data[col_spcs.offset]);
 	} else {
-- 
2.43.0


From b1d5524a54ffb40611d38eb093ef7224a8372ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:13 +0000
Subject: [PATCH 37/68] fix: SELECT with IN required rows to match every value
 of the list

---
 src/engine/executor_select.c | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/engine/executor_select.c b/src/engine/executor_select.c
index 0dc948e..4b0769d 100644
--- a/src/engine/executor_select.c
+++ b/src/engine/executor_select.c
@@ -972,7 +972,7 @@ static bool eval_isxin(struct table *table, struct row *row, struct ast_sel_isxi
 	struct ast_sel_fieldname_node *field = NULL;
 	struct ast_sel_exprval_node *value = NULL;
 	struct ast_sel_cmp_node cmp_node = {0};
-	bool is_field;
+	bool is_field = false, match;
 
 	if (node->is_negation) {
 		cmp_node.cmp_type = AST_CMP_DIFF_OP;
@@ -1010,18 +1010,19 @@ static bool eval_isxin(struct table *table, struct row *row, struct ast_sel_isxi
 
 		if (!((struct ast_sel_exprval_node*)tmp_entry)->value_type.is_name) {
 
-			if (is_field) {
-				if (!cmp_fieldname_to_value(table, row, &cmp_node, field,
-								(struct ast_sel_exprval_node*)tmp_entry))
-					return false; // fail-fast
-			} else {
-				if (!cmp_field_to_value(table, row, &cmp_node, value,
-							(struct ast_sel_exprval_node*)tmp_entry))
-					return false; // fail-fast
-			}
+			if (is_field)
+				match = cmp_fieldname_to_value(table, row, &cmp_node, field,
+								(struct ast_sel_exprval_node*)tmp_entry);
+			else
+				match = cmp_field_to_value(table, row, &cmp_node, value,
+								(struct ast_sel_exprval_node*)tmp_entry);
+
+			/* IN requires a match with any of the values whereas NOT IN requires a mismatch with them all */
+			if (match != node->is_negation)
+				return !node->is_negation;
 		}
 	}
-	return true;
+	return node->is_negation;
 }
 
 static bool eval_row_cond(struct ast_node *node, struct table *table, struct row *row)
-- 
2.43.0


From 9d63a2db6c6bb6ab8e70299e2544b6b0de44eb39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:24 +0000
Subject: [PATCH 38/68] fix: joins of more than two tables returned wrong rows,
 leaked and corrupted VARCHAR values

---
 src/engine/executor_select.c  | 193 ++++++++++++----------------------
 src/engine/optimiser_select.c |   8 +-
 2 files changed, 72 insertions(+), 129 deletions(-)

diff --git a/src/engine/executor_select.c b/src/engine/executor_select.c
index 4b0769d..df28609 100644
--- a/src/engine/executor_select.c
+++ b/src/engine/executor_select.c
@@ -366,9 +366,10 @@ static bool cpy_cols(struct table *src, struct row *src_row, struct table *dst,
 		}
 
 		if (table_check_var_column(column)) {
-			void *ptr = zalloc(column->precision);
+			/* storage may have been alloc'ed while copying columns from a different table */
+			void *ptr = *(void**)&dst_row->data[dst_offset];
 
-			if (!ptr)
+			if (!ptr && !(ptr = zalloc(column->precision)))
 				return false;
 
 			/* Copy data only if column is not NULL */
@@ -399,8 +400,15 @@ static bool cpy_cols(struct table *src, struct row *src_row, struct table *dst,
 	return true;
 }
 
-static int _merge_rows(struct table *tbl_1, struct table *tbl_2, struct row *row_1, struct row *row_2,
-		struct table *mattbl, struct row **out, bool is_tbl2_earlymat)
+/* table in which rows come from while processing the FROM-clause */
+struct join_operand {
+	struct table *table;
+	/* is it an intermediate result? (columns are already full-qualified) */
+	bool is_earlymat;
+};
+
+static int merge_rows(struct join_operand *left, struct join_operand *right, struct row *left_row, struct row *right_row,
+		struct table *mattbl, struct row **out)
 {
 	*out = zalloc(table_calc_row_size(mattbl));
 	if (!(*out))
@@ -413,10 +421,10 @@ static int _merge_rows(struct table *tbl_1, struct table *tbl_2, struct row *row
 		bit_set((*out)->null_bitmap, i, sizeof((*out)->null_bitmap));
 	}
 
-	if (!cpy_cols(tbl_1, row_1, mattbl, *out, false))
+	if (!cpy_cols(left->table, left_row, mattbl, *out, left->is_earlymat))
 		goto err_ptr;
 
-	if (!cpy_cols(tbl_2, row_2, mattbl, *out, is_tbl2_earlymat))
+	if (!cpy_cols(right->table, right_row, mattbl, *out, right->is_earlymat))
 		goto err_ptr;
 
 	init_count_cols(mattbl, *out);
@@ -424,19 +432,13 @@ static int _merge_rows(struct table *tbl_1, struct table *tbl_2, struct row *row
 	return MIDORIDB_OK;
 
 err_ptr:
+	table_free_row_content(mattbl, *out);
 	free(*out);
 err:
 	return -MIDORIDB_INTERNAL;
 
 }
 
-static int merge_rows(struct table *tbl_1, struct table *tbl_2, struct row *row_1, struct row *row_2,
-		struct table *mattbl, struct row **out)
-{
-	bool is_tbl2_earlymat = tbl_2 == mattbl;
-	return _merge_rows(tbl_1, tbl_2, row_1, row_2, mattbl, out, is_tbl2_earlymat);
-}
-
 static bool cmp_double_value_to_value(enum ast_comparison_type cmp_type, double val_1, double val_2)
 {
 	switch (cmp_type) {
@@ -1074,27 +1076,22 @@ static bool eval_row_cond(struct ast_node *node, struct table *table, struct row
 	return ret;
 }
 
-static int _join_nested_loop_tbl2tbl(struct database *db, struct ast_sel_join_node *join_node,
-		struct ast_sel_onexpr_node *onexpr_node, struct ast_sel_table_node *left_node,
-		struct ast_sel_table_node *right_node, struct table *mattbl)
+static int _join_nested_loop(struct ast_sel_join_node *join_node, struct ast_sel_onexpr_node *onexpr_node,
+		struct join_operand *left, struct join_operand *right, struct table *mattbl)
 {
-	struct table *left, *right;
 	struct list_head *left_pos, *right_pos;
 	struct datablock *left_blk, *right_blk;
 	size_t left_row_size, right_row_size, new_row_size;
 	struct row *left_row, *right_row, *new_row;
 
-	left = database_table_get(db, left_node->table_name);
-	right = database_table_get(db, right_node->table_name);
-
-	left_row_size = table_calc_row_size(left);
-	right_row_size = table_calc_row_size(right);
+	left_row_size = table_calc_row_size(left->table);
+	right_row_size = table_calc_row_size(right->table);
 	new_row_size = table_calc_row_size(mattbl);
 
 	// TODO add nested-loop for other join types.. for now I will focus on the INNER JOIN
 	BUG_ON(join_node->join_type != AST_SEL_JOIN_INNER);
 
-	list_for_each(left_pos, left->datablock_head)
+	list_for_each(left_pos, left->table->datablock_head)
 	{
 		left_blk = list_entry(left_pos, typeof(*left_blk), head);
 		for (size_t i = 0; i < (DATABLOCK_PAGE_SIZE / left_row_size); i++) {
@@ -1106,7 +1103,7 @@ static int _join_nested_loop_tbl2tbl(struct database *db, struct ast_sel_join_no
 			if (left_row->flags.deleted)
 				continue; /* nothing to do here */
 
-			list_for_each(right_pos, right->datablock_head)
+			list_for_each(right_pos, right->table->datablock_head)
 			{
 				right_blk = list_entry(right_pos, typeof(*right_blk), head);
 
@@ -1129,7 +1126,7 @@ static int _join_nested_loop_tbl2tbl(struct database *db, struct ast_sel_join_no
 					if (eval_row_cond((struct ast_node*)onexpr_node, mattbl, new_row)) {
 
 						if (!table_insert_row(mattbl, new_row, new_row_size))
-							goto err;
+							goto err_ins;
 
 //						print_row(mattbl, new_row);
 
@@ -1144,92 +1141,30 @@ static int _join_nested_loop_tbl2tbl(struct database *db, struct ast_sel_join_no
 
 	return MIDORIDB_OK;
 
+err_ins:
+	table_free_row_content(mattbl, new_row);
+	free(new_row);
 err:
 	return -MIDORIDB_INTERNAL;
 
 }
 
-static int _join_nested_loop_tbl2mat(struct database *db, struct ast_sel_join_node *join_node,
-		struct ast_sel_onexpr_node *onexpr_node, struct ast_sel_table_node *table_node_1,
-		struct table *mattbl)
+/* build a table with the same columns as @table but none of its rows */
+static struct table* clone_table_scafold(struct table *table)
 {
-	struct table *table_1, *table_2;
-	struct list_head *tbl1_pos, *tbl2_pos;
-	struct datablock *tbl1_blk, *tbl2_blk;
-	size_t tbl1_row_size, tbl2_row_size, new_row_size;
-	struct row *tbl1_row, *tbl2_row, *new_row;
-
-	table_1 = database_table_get(db, table_node_1->table_name);
-	table_2 = mattbl;
-
-	tbl1_row_size = table_calc_row_size(table_1);
-	tbl2_row_size = table_calc_row_size(table_2);
-	new_row_size = table_calc_row_size(mattbl);
-
-	// TODO add nested-loop for other join types.. for now I will focus on the INNER JOIN
-	BUG_ON(join_node->join_type != AST_SEL_JOIN_INNER);
-
-	list_for_each(tbl1_pos, table_1->datablock_head)
-	{
-		tbl1_blk = list_entry(tbl1_pos, typeof(*tbl1_blk), head);
-		for (size_t i = 0; i < (DATABLOCK_PAGE_SIZE / tbl1_row_size); i++) {
-			tbl1_row = (struct row*)&tbl1_blk->data[tbl1_row_size * i];
-
-			if (tbl1_row->flags.empty)
-				break; /* end of the line */
-
-			if (tbl1_row->flags.deleted)
-				continue; /* nothing to do here */
-
-			list_for_each(tbl2_pos, table_2->datablock_head)
-			{
-				tbl2_blk = list_entry(tbl2_pos, typeof(*tbl2_blk), head);
-
-				for (size_t j = 0; j < (DATABLOCK_PAGE_SIZE / tbl2_row_size); j++) {
-					tbl2_row = (struct row*)&tbl2_blk->data[tbl2_row_size * j];
-
-					if (tbl2_row->flags.empty)
-						break; /* end of the line */
-
-					if (tbl2_row->flags.deleted)
-						continue; /* nothing to do here */
-
-					//TODO figure out how I will populate aliases into the new row
-					// SELECT (f1 + 4) as val FROM A JOIN B ON ....
-
-					/* copy columns of both rows to materialised row */
-					if (merge_rows(table_1, mattbl, tbl1_row, tbl2_row, mattbl, &new_row))
-						goto err;
+	struct table *ret;
 
-					if (eval_row_cond((struct ast_node*)onexpr_node, mattbl, new_row)) {
+	if (!(ret = table_init("early_mat_tbl")))
+		return NULL;
 
-						if (!table_update_row(mattbl, tbl2_blk, tbl2_row_size * j, new_row,
-									new_row_size))
-							goto err;
-
-//						print_row(mattbl, new_row);
-
-					} else {
-						/* when using materialisation tables,
-						 * if it doesn't match ON-clause then it needs to be discarded
-						 * TODO: this should change once we implement other JOIN types
-						 */
-						table_delete_row(mattbl, tbl2_blk, tbl2_row_size * j);
-					}
-
-					/* free up used resources */
-					table_free_row_content(mattbl, new_row);
-					free(new_row);
-				}
-			}
+	for (int i = 0; i < table->column_count; i++) {
+		if (!table_add_column(ret, &table->columns[i])) {
+			table_destroy(&ret);
+			return NULL;
 		}
 	}
 
-	return MIDORIDB_OK;
-
-err:
-	return -MIDORIDB_INTERNAL;
-
+	return ret;
 }
 
 static int proc_from_clause_join(struct database *db, struct ast_sel_join_node *join_node, struct table *earmattbl)
@@ -1238,9 +1173,10 @@ static int proc_from_clause_join(struct database *db, struct ast_sel_join_node *
 	struct ast_node *tmp_entry;
 
 	struct ast_sel_onexpr_node *onexpr_node = NULL;
-	struct ast_node *left_node = NULL, *right_node = NULL;
+	struct ast_node *nodes[2] = {NULL, NULL};
+	struct join_operand operands[2] = {{0}};
 
-	int early_ret;
+	int ret = MIDORIDB_OK;
 
 	list_for_each(pos, join_node->node_children_head)
 	{
@@ -1248,36 +1184,41 @@ static int proc_from_clause_join(struct database *db, struct ast_sel_join_node *
 
 		if (tmp_entry->node_type == AST_TYPE_SEL_ONEXPR) {
 			onexpr_node = (typeof(onexpr_node))tmp_entry;
-		} else if (!left_node) {
-			left_node = tmp_entry;
+		} else if (!nodes[0]) {
+			nodes[0] = tmp_entry;
 		} else {
-			right_node = tmp_entry;
+			nodes[1] = tmp_entry;
 		}
 	}
 
-	if (left_node->node_type == AST_TYPE_SEL_TABLE && right_node->node_type == AST_TYPE_SEL_TABLE) {
-		return _join_nested_loop_tbl2tbl(db, join_node, onexpr_node,
-							(struct ast_sel_table_node*)left_node,
-							(struct ast_sel_table_node*)right_node, earmattbl);
-	} else if (left_node->node_type == AST_TYPE_SEL_JOIN && right_node->node_type == AST_TYPE_SEL_TABLE) {
-		if ((early_ret = proc_from_clause_join(db, (struct ast_sel_join_node*)left_node, earmattbl)))
-			return early_ret;
-
-		return _join_nested_loop_tbl2mat(db, join_node, onexpr_node,
-							(struct ast_sel_table_node*)right_node,
-							earmattbl);
-	} else if (left_node->node_type == AST_TYPE_SEL_TABLE && right_node->node_type == AST_TYPE_SEL_JOIN) {
-		if ((early_ret = proc_from_clause_join(db, (struct ast_sel_join_node*)right_node, earmattbl)))
-			return early_ret;
-
-		return _join_nested_loop_tbl2mat(db, join_node, onexpr_node,
-							(struct ast_sel_table_node*)left_node,
-							earmattbl);
-	} else {
-		BUG_GENERIC();
+	for (int i = 0; i < 2; i++) {
+		if (nodes[i]->node_type == AST_TYPE_SEL_TABLE) {
+			operands[i].table = database_table_get(db, ((struct ast_sel_table_node*)nodes[i])->table_name);
+		} else if (nodes[i]->node_type == AST_TYPE_SEL_JOIN) {
+			/* intermediate results can't share the table in which the final rows are stored */
+			operands[i].is_earlymat = true;
+
+			if (!(operands[i].table = clone_table_scafold(earmattbl))) {
+				ret = -MIDORIDB_INTERNAL;
+				goto out;
+			}
+
+			if ((ret = proc_from_clause_join(db, (struct ast_sel_join_node*)nodes[i], operands[i].table)))
+				goto out;
+		} else {
+			BUG_GENERIC();
+		}
 	}
 
-	return MIDORIDB_OK;
+	ret = _join_nested_loop(join_node, onexpr_node, &operands[0], &operands[1], earmattbl);
+
+out:
+	for (int i = 0; i < 2; i++) {
+		if (operands[i].is_earlymat && operands[i].table)
+			table_destroy(&operands[i].table);
+	}
+
+	return ret;
 }
 
 static int proc_from_clause_table(struct database *db, struct ast_sel_table_node *table_node, struct table *mattbl)
diff --git a/src/engine/optimiser_select.c b/src/engine/optimiser_select.c
index ad4eaaa..9c1b38d 100644
--- a/src/engine/optimiser_select.c
+++ b/src/engine/optimiser_select.c
@@ -392,7 +392,7 @@ err_node:
 	return NULL;
 }
 
-int wrap_on_join_node(struct ast_node *left, struct ast_node *right)
+int wrap_on_join_node(struct ast_node *left, struct ast_node *right, struct ast_node **out)
 {
 	struct ast_sel_join_node *join_node;
 	struct ast_sel_onexpr_node *onexpr_node;
@@ -443,6 +443,8 @@ int wrap_on_join_node(struct ast_node *left, struct ast_node *right)
 	list_add(&right->head, join_node->node_children_head);
 	list_add(&left->head, join_node->node_children_head);
 
+	*out = (struct ast_node*)join_node;
+
 	return MIDORIDB_OK;
 
 err_head:
@@ -488,10 +490,10 @@ int do_replace_entries_from(struct ast_node *node)
 			} else {
 				right = tmp_entry;
 
-				if ((ret = wrap_on_join_node(left, right)))
+				/* the synthetic join is the left-hand side of the next entry (if any) */
+				if ((ret = wrap_on_join_node(left, right, &left)))
 					return ret;
 
-				left = right;
 				right = NULL;
 			}
 		}
-- 
2.43.0


From 94b7a1f27073936a3819bdcfd5928b0dc5c2c11e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:42 +0000
Subject: [PATCH 39/68] fix: GROUP BY collapsed each column on its own and
 miscounted groups spanning datablocks, counts were flagged as NULL

---
 src/engine/executor_select.c | 155 +++++++++++++----------------------
 1 file changed, 56 insertions(+), 99 deletions(-)

diff --git a/src/engine/executor_select.c b/src/engine/executor_select.c
index df28609..d791e6e 100644
--- a/src/engine/executor_select.c
+++ b/src/engine/executor_select.c
@@ -331,6 +331,7 @@ static void init_count_cols(struct table *table, struct row *row)
 
 		if (column->is_count) {
 			(*(int64_t*)&row->data[offset]) = 1;
+			bit_clear(row->null_bitmap, i, sizeof(row->null_bitmap));
 		}
 
 		offset += table_calc_column_space(column);
@@ -1468,133 +1469,89 @@ static int inc_count_cols(struct table *table, struct datablock *blk, size_t blk
 	return MIDORIDB_OK;
 }
 
-static int proc_groupby_clause(struct ast_node *node, struct table *table)
+/* do both rows belong to the same group? That takes every field on the group-by clause */
+static bool is_same_group(struct ast_node *node, struct table *table, struct row *row_1, struct row *row_2)
 {
-	struct list_head *grppos, *pos1, *pos2;
+	struct list_head *pos;
 	struct ast_node *tmp_entry;
+
+	list_for_each(pos, node->node_children_head)
+	{
+		tmp_entry = list_entry(pos, typeof(*tmp_entry), head);
+
+		if (cmp_rows_col_mattbl(table, row_1, row_2, tmp_entry) != 0)
+			return false;
+	}
+
+	return true;
+}
+
+/*
+ * collapse rows that belong to the same group onto the first row found
+ *
+ * @node: GROUP-BY node or NULL if there is a single group made of all rows
+ */
+static int collapse_rows(struct ast_node *node, struct table *table)
+{
+	struct list_head *pos1, *pos2;
 	struct datablock *blk_1, *blk_2;
 	struct row *row_1, *row_2;
 	size_t row_size;
-	int ret = MIDORIDB_OK;
+	int ret;
 
 	row_size = table_calc_row_size(table);
 
-	list_for_each(grppos, node->node_children_head)
+	list_for_each(pos1, table->datablock_head)
 	{
-		/* process each field on the group-by clause list one at a time */
-		tmp_entry = list_entry(grppos, typeof(*tmp_entry), head);
+		blk_1 = list_entry(pos1, typeof(*blk_1), head);
+		for (size_t i = 0; i < (DATABLOCK_PAGE_SIZE / row_size); i++) {
+			row_1 = (struct row*)&blk_1->data[row_size * i];
 
-		list_for_each(pos1, table->datablock_head)
-		{
-			blk_1 = list_entry(pos1, typeof(*blk_1), head);
-			for (size_t i = 0; i < (DATABLOCK_PAGE_SIZE / row_size); i++) {
-				row_1 = (struct row*)&blk_1->data[row_size * i];
+			if (row_1->flags.empty)
+				break; /* end of the line */
 
-				if (row_1->flags.empty)
-					break; /* end of the line */
+			if (row_1->flags.deleted)
+				continue; /* nothing to do here */
 
-				if (row_1->flags.deleted)
-					continue; /* nothing to do here */
+			/* rows (and blocks) up to this one have already been taken care of */
+			for (pos2 = pos1; pos2 != table->datablock_head; pos2 = pos2->next) {
+				blk_2 = list_entry(pos2, typeof(*blk_2), head);
 
-				list_for_each(pos2, table->datablock_head)
-				{
-					blk_2 = list_entry(pos2, typeof(*blk_2), head);
-					for (size_t j = i + 1; j < (DATABLOCK_PAGE_SIZE / row_size); j++) {
-						row_2 = (struct row*)&blk_2->data[row_size * j];
+				for (size_t j = (pos2 == pos1) ? i + 1 : 0; j < (DATABLOCK_PAGE_SIZE / row_size); j++) {
+					row_2 = (struct row*)&blk_2->data[row_size * j];
 
-						if (row_2->flags.empty)
-							break; /* end of the line */
+					if (row_2->flags.empty)
+						break; /* end of the line */
 
-						if (row_2->flags.deleted)
-							continue; /* nothing to do here */
+					if (row_2->flags.deleted)
+						continue; /* nothing to do here */
 
-						if (cmp_rows_col_mattbl(table, row_1, row_2, tmp_entry) == 0) {
+					if (node && !is_same_group(node, table, row_1, row_2))
+						continue;
 
-							if (!table_delete_row(table, blk_2, row_size * j)) {
-								ret = -MIDORIDB_INTERNAL;
-								goto out;
-							}
+					if (!table_delete_row(table, blk_2, row_size * j))
+						return -MIDORIDB_INTERNAL;
 
-							/* increment counts if any */
-							if ((ret = inc_count_cols(table, blk_1, row_size * i,
-											row_1,
-											row_size)))
-								goto out;
-						}
-					}
+					/* increment counts if any */
+					if ((ret = inc_count_cols(table, blk_1, row_size * i, row_1, row_size)))
+						return ret;
 				}
 			}
 		}
 	}
 
-out:
-	return ret;
-
+	return MIDORIDB_OK;
 }
 
 static int handle_countonly_case(struct table *table)
 {
-	struct list_head *pos1, *pos2;
-	struct datablock *blk_1, *blk_2;
-	struct row *row_1, *row_2;
-	size_t row_size;
-	int ret = MIDORIDB_OK;
-
 	/* check if we need to do that in the first plae */
-	bool non_count_field = false;
 	for (int i = 0; i < table->column_count; i++) {
-		if (!table->columns[i].is_count) {
-			non_count_field = true;
-			break;
-		}
+		if (!table->columns[i].is_count)
+			return MIDORIDB_OK;
 	}
 
-	if (!non_count_field) {
-		row_size = table_calc_row_size(table);
-
-		list_for_each(pos1, table->datablock_head)
-		{
-			blk_1 = list_entry(pos1, typeof(*blk_1), head);
-			for (size_t i = 0; i < (DATABLOCK_PAGE_SIZE / row_size); i++) {
-				row_1 = (struct row*)&blk_1->data[row_size * i];
-
-				if (row_1->flags.empty)
-					break; /* end of the line */
-
-				if (row_1->flags.deleted)
-					continue; /* nothing to do here */
-
-				list_for_each(pos2, table->datablock_head)
-				{
-					blk_2 = list_entry(pos2, typeof(*blk_2), head);
-					for (size_t j = i + 1; j < (DATABLOCK_PAGE_SIZE / row_size); j++) {
-						row_2 = (struct row*)&blk_2->data[row_size * j];
-
-						if (row_2->flags.empty)
-							break; /* end of the line */
-
-						if (row_2->flags.deleted)
-							continue; /* nothing to do here */
-
-						if (!table_delete_row(table, blk_2, row_size * j)) {
-							ret = -MIDORIDB_INTERNAL;
-							goto out;
-						}
-
-						/* increment counts if any */
-						if ((ret = inc_count_cols(table, blk_1, row_size * i,
-										row_1,
-										row_size)))
-							goto out;
-					}
-				}
-			}
-		}
-	}
-
-out:
-	return ret;
-
+	return collapse_rows(NULL, table);
 }
 
 int executor_run_select_stmt(struct database *db, struct ast_sel_select_node *select_node, struct query_output *output)
@@ -1644,7 +1601,7 @@ int executor_run_select_stmt(struct database *db, struct ast_sel_select_node *se
 	/* collate rows if group-by clause is specified */
 	groupby_node = find_node((struct ast_node*)select_node, AST_TYPE_SEL_GROUPBY);
 	if (groupby_node) {
-		if ((ret = proc_groupby_clause(groupby_node, table))) {
+		if ((ret = collapse_rows(groupby_node, table))) {
 			snprintf(output->error.message, sizeof(output->error.message),
 					"execution phase: error while processing GROUPBY-clause\n");
 			goto err_bld_fc;
@@ -1658,8 +1615,8 @@ int executor_run_select_stmt(struct database *db, struct ast_sel_select_node *se
 		goto err_bld_fc;
 	}
 
-	/* handle COUNT(*)-only field edge-case */
-	if ((ret = handle_countonly_case(table))) {
+	/* handle COUNT(*)-only field edge-case, groups (if any) have been counted already */
+	if (!groupby_node && (ret = handle_countonly_case(table))) {
 		snprintf(output->error.message, sizeof(output->error.message),
 				"execution phase: error while processing COUNT-only-case\n");
 		goto err_bld_fc;
-- 
2.43.0


From 6e121d25cf75c30adbf13a414050008469a8a2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:44 +0000
Subject: [PATCH 40/68] fix: COUNT over no rows returned nothing instead of
 zero

---
 src/engine/executor_select.c | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/src/engine/executor_select.c b/src/engine/executor_select.c
index d791e6e..c2f748a 100644
--- a/src/engine/executor_select.c
+++ b/src/engine/executor_select.c
@@ -1545,13 +1545,42 @@ static int collapse_rows(struct ast_node *node, struct table *table)
 
 static int handle_countonly_case(struct table *table)
 {
+	struct list_head *pos;
+	struct datablock *blk;
+	struct row *row;
+	size_t row_size;
+
 	/* check if we need to do that in the first plae */
 	for (int i = 0; i < table->column_count; i++) {
 		if (!table->columns[i].is_count)
 			return MIDORIDB_OK;
 	}
 
-	return collapse_rows(NULL, table);
+	row_size = table_calc_row_size(table);
+
+	list_for_each(pos, table->datablock_head)
+	{
+		blk = list_entry(pos, typeof(*blk), head);
+		for (size_t i = 0; i < (DATABLOCK_PAGE_SIZE / row_size); i++) {
+			row = (struct row*)&blk->data[row_size * i];
+
+			if (!row->flags.empty && !row->flags.deleted)
+				return collapse_rows(NULL, table);
+		}
+	}
+
+	/* counting rows that don't exist still yields a row */
+	row = zalloc(row_size);
+	if (!row)
+		return -MIDORIDB_INTERNAL;
+
+	if (!table_insert_row(table, row, row_size)) {
+		free(row);
+		return -MIDORIDB_INTERNAL;
+	}
+
+	free(row);
+	return MIDORIDB_OK;
 }
 
 int executor_run_select_stmt(struct database *db, struct ast_sel_select_node *select_node, struct query_output *output)
-- 
2.43.0


From 141f9e1820e78ed390ac2bb2eb5b5570d7141ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:31 +0000
Subject: [PATCH 41/68] fix: SELECT returned columns in hash order and only
 once, regardless of the select list

---
 include/parser/ast.h          |   2 +
 src/engine/executor_select.c  | 151 ++++++++++++++++++++++------------
 src/engine/optimiser_select.c |   2 +
 3 files changed, 103 insertions(+), 52 deletions(-)

diff --git a/include/parser/ast.h b/include/parser/ast.h
index 8ab7cbc..e493fad 100644
--- a/include/parser/ast.h
+++ b/include/parser/ast.h
@@ -713,6 +713,8 @@ struct ast_sel_select_node {
 	struct list_head head;
 	/* DISTINCT keyword used */
 	bool distinct;
+	/* SELECT * (optimiser replaces it with the fields of all tables) */
+	bool select_all;
 };
 
 /* Select Statements - end */
diff --git a/src/engine/executor_select.c b/src/engine/executor_select.c
index c2f748a..409995c 100644
--- a/src/engine/executor_select.c
+++ b/src/engine/executor_select.c
@@ -75,11 +75,6 @@ static void free_hashmap_entries(struct hashtable *hashtable, const void *key, s
 	hashtable_free_entry(entry);
 }
 
-static int int_compare(const void *a, const void *b)
-{
-	return *((int*)a) - *((int*)b);
-}
-
 static struct ast_node* find_node(struct ast_node *root, enum ast_node_type node_type)
 {
 	struct list_head *pos;
@@ -1309,70 +1304,122 @@ static int proc_from_clause(struct database *db, struct ast_node *node, struct t
 	return -MIDORIDB_INTERNAL;
 }
 
-static int proc_select_clause(struct ast_sel_select_node *node, struct table *outtbl)
+/* add column of the early-mat table to the output one */
+static bool add_out_column(struct table *outtbl, int *out_src_idx, struct table *mattbl, int src_idx)
+{
+	if (outtbl->column_count + 1 > TABLE_MAX_COLUMNS)
+		return false;
+
+	/* table_add_column can't be used as the same column can be selected multiple times */
+	outtbl->columns[outtbl->column_count] = mattbl->columns[src_idx];
+	out_src_idx[outtbl->column_count] = src_idx;
+	outtbl->column_count++;
+
+	return true;
+}
+
+static bool build_out_columns(struct ast_sel_select_node *node, struct table *outtbl, int *out_src_idx, struct table *mattbl)
 {
 	struct list_head *pos;
 	struct ast_node *tmp_entry;
-	struct column *column;
-	struct ast_sel_exprval_node *val_node;
-	struct ast_sel_fieldname_node *fld_node;
-	int rem_col[TABLE_MAX_COLUMNS] = {0};
-	int rem_col_idx = -1;
-	char key[FQFIELD_NAME_LEN];
-	bool found;
+	struct column_specs col_spcs;
 
-	for (int i = 0; i < outtbl->column_count; i++) {
-		column = &outtbl->columns[i];
-		found = false;
+	if (node->select_all) {
+		for (int i = 0; i < mattbl->column_count; i++) {
+			if (!mattbl->columns[i].is_count && !add_out_column(outtbl, out_src_idx, mattbl, i))
+				return false;
+		}
 
-		list_for_each(pos, node->node_children_head)
-		{
-			tmp_entry = list_entry(pos, typeof(*tmp_entry), head);
+		return true;
+	}
 
-			if (tmp_entry->node_type == AST_TYPE_SEL_EXPRVAL) {
-				val_node = (typeof(val_node))tmp_entry;
+	list_for_each(pos, node->node_children_head)
+	{
+		tmp_entry = list_entry(pos, typeof(*tmp_entry), head);
 
-				//TODO what about raw values ?
-				BUG_ON(!val_node->value_type.is_name);
+		if (tmp_entry->node_type != AST_TYPE_SEL_FIELDNAME && tmp_entry->node_type != AST_TYPE_SEL_COUNT)
+			continue; /* not part of the select list, just move on */
 
-				memzero(key, sizeof(key));
-				strncpy(key, val_node->name_val, sizeof(key) - 1);
-			} else if (tmp_entry->node_type == AST_TYPE_SEL_FIELDNAME) {
-				fld_node = (typeof(fld_node))tmp_entry;
+		memzero(&col_spcs, sizeof(col_spcs));
 
-				memzero(key, sizeof(key));
-				snprintf(key, sizeof(key) - 1, "%s.%s", fld_node->table_name, fld_node->col_name);
-			} else if (tmp_entry->node_type == AST_TYPE_SEL_COUNT) {
-				memzero(key, sizeof(key));
-				strcpy(key, "COUNT(*)");
-			} else {
-				/* nothing to just, just move on */
-				continue;
-			}
+		if (!find_column_mattbl(mattbl, tmp_entry, &col_spcs))
+			return false;
 
-			if (strcmp(column->name, key) == 0) {
-				found = true;
-				break;
-			}
+		if (!add_out_column(outtbl, out_src_idx, mattbl, col_spcs.col_idx))
+			return false;
+	}
 
-		}
+	return true;
+}
 
-		if (!found) {
-			rem_col_idx++;
-			rem_col[rem_col_idx] = i;
-		}
-	}
+/* replace early-mat table with one whose columns are those (and in the same order) of the select list */
+static int proc_select_clause(struct ast_sel_select_node *node, struct table **table)
+{
+	struct list_head *pos;
+	struct table *mattbl = *table, *outtbl;
+	struct datablock *blk;
+	struct row *row, *new_row;
+	size_t row_size, new_row_size, src_offset, dst_offset;
+	int src_idx[TABLE_MAX_COLUMNS];
+
+	if (!(outtbl = table_init(mattbl->name)))
+		goto err;
 
-	if (rem_col_idx > -1) {
-		qsort(rem_col, rem_col_idx + 1, sizeof(int), int_compare);
+	if (!build_out_columns(node, outtbl, src_idx, mattbl))
+		goto err_cols;
 
-		for (int i = rem_col_idx; i >= 0; i--) {
-			if (!table_rem_column(outtbl, &outtbl->columns[rem_col[i]]))
-				return -MIDORIDB_INTERNAL;
+	row_size = table_calc_row_size(mattbl);
+	new_row_size = table_calc_row_size(outtbl);
+
+	if (!(new_row = malloc(new_row_size)))
+		goto err_cols;
+
+	list_for_each(pos, mattbl->datablock_head)
+	{
+		blk = list_entry(pos, typeof(*blk), head);
+		for (size_t i = 0; i < (DATABLOCK_PAGE_SIZE / row_size); i++) {
+			row = (struct row*)&blk->data[row_size * i];
+
+			if (row->flags.empty)
+				break; /* end of the line */
+
+			if (row->flags.deleted)
+				continue; /* nothing to do here */
+
+			memzero(new_row, new_row_size);
+			dst_offset = 0;
+
+			for (int j = 0; j < outtbl->column_count; j++) {
+				src_offset = 0;
+				for (int k = 0; k < src_idx[j]; k++)
+					src_offset += table_calc_column_space(&mattbl->columns[k]);
+
+				/* insertion makes its own copy of var precision columns */
+				memcpy(&new_row->data[dst_offset], &row->data[src_offset],
+					table_calc_column_space(&outtbl->columns[j]));
+				dst_offset += table_calc_column_space(&outtbl->columns[j]);
+
+				if (bit_test(row->null_bitmap, src_idx[j], sizeof(row->null_bitmap)))
+					bit_set(new_row->null_bitmap, j, sizeof(new_row->null_bitmap));
+			}
+
+			if (!table_insert_row(outtbl, new_row, new_row_size))
+				goto err_row;
 		}
 	}
 
+	free(new_row);
+	table_destroy(&mattbl);
+	*table = outtbl;
+
 	return MIDORIDB_OK;
+
+err_row:
+	free(new_row);
+err_cols:
+	table_destroy(&outtbl);
+err:
+	return -MIDORIDB_INTERNAL;
 }
 
 static int proc_where_clause(struct ast_node *node, struct table *table)
@@ -1638,7 +1685,7 @@ int executor_run_select_stmt(struct database *db, struct ast_sel_select_node *se
 	}
 
 	/* leave only columns that were specified in the statements */
-	if ((ret = proc_select_clause(select_node, table))) {
+	if ((ret = proc_select_clause(select_node, &table))) {
 		snprintf(output->error.message, sizeof(output->error.message),
 				"execution phase: error while processing SELECT-clause\n");
 		goto err_bld_fc;
diff --git a/src/engine/optimiser_select.c b/src/engine/optimiser_select.c
index 9c1b38d..7ea86f5 100644
--- a/src/engine/optimiser_select.c
+++ b/src/engine/optimiser_select.c
@@ -254,6 +254,8 @@ static int replace_simple_expr(struct database *db, struct ast_node *node, struc
 		if ((ret = replace_selectall(db, root, root, output)))
 			return ret;
 
+		((struct ast_sel_select_node*)root)->select_all = true;
+
 		/* delete selectall node */
 		list_del(&node->head);
 		ast_free(node);
-- 
2.43.0


From 0dee63f8bde0e9f6ce8bc2b2110dcd02715e81b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:33 +0000
Subject: [PATCH 42/68] fix: SELECT silently ignored (or terminated the process
 on) clauses that aren't implemented

---
 src/engine/executor_select.c | 163 +++++++++++++++++++++++++++++++++++
 1 file changed, 163 insertions(+)

diff --git a/src/engine/executor_select.c b/src/engine/executor_select.c
index 409995c..755bc26 100644
--- a/src/engine/executor_select.c
+++ b/src/engine/executor_select.c
@@ -1630,6 +1630,166 @@ static int handle_countonly_case(struct table *table)
 	return MIDORIDB_OK;
 }
 
+static bool is_field_or_value(struct ast_node *node)
+{
+	return node->node_type == AST_TYPE_SEL_FIELDNAME
+			|| (node->node_type == AST_TYPE_SEL_EXPRVAL
+					&& !((struct ast_sel_exprval_node*)node)->value_type.is_name);
+}
+
+static int check_condition(struct ast_node *node, struct query_output *output)
+{
+	struct list_head *pos;
+	struct ast_node *tmp_entry;
+	char *err = NULL;
+	bool is_first = true;
+	int ret;
+
+	list_for_each(pos, node->node_children_head)
+	{
+		tmp_entry = list_entry(pos, typeof(*tmp_entry), head);
+
+		switch (node->node_type) {
+		case AST_TYPE_SEL_CMP:
+			if (!is_field_or_value(tmp_entry))
+				err = "only fields and raw values can be compared";
+			break;
+		case AST_TYPE_SEL_EXPRISXNULL:
+			if (tmp_entry->node_type != AST_TYPE_SEL_FIELDNAME)
+				err = "only fields can be used in IS NULL|IS NOT NULL";
+			break;
+		case AST_TYPE_SEL_EXPRISXIN:
+			/* left-hand side is always the first one */
+			if (!is_field_or_value(tmp_entry) || is_first != (tmp_entry->node_type == AST_TYPE_SEL_FIELDNAME))
+				err = "IN-clause requires a field on its left-hand side and raw values as its list";
+			break;
+		case AST_TYPE_SEL_LOGOP:
+		case AST_TYPE_SEL_WHERE:
+		case AST_TYPE_SEL_ONEXPR:
+			if ((ret = check_condition(tmp_entry, output)))
+				return ret;
+			break;
+		default:
+			break;
+		}
+
+		is_first = false;
+	}
+
+	switch (node->node_type) {
+	case AST_TYPE_SEL_CMP:
+	case AST_TYPE_SEL_EXPRISXNULL:
+	case AST_TYPE_SEL_EXPRISXIN:
+	case AST_TYPE_SEL_LOGOP:
+	case AST_TYPE_SEL_WHERE:
+	case AST_TYPE_SEL_ONEXPR:
+		break;
+	case AST_TYPE_SEL_LIKE:
+		err = "LIKE isn't supported yet";
+		break;
+	default:
+		err = "fields, raw values and expressions aren't conditions";
+	}
+
+	if (err) {
+		snprintf(output->error.message, sizeof(output->error.message), "execution phase: %s\n", err);
+		return -MIDORIDB_INTERNAL;
+	}
+
+	return MIDORIDB_OK;
+}
+
+static int check_joins(struct ast_node *node, struct query_output *output)
+{
+	struct list_head *pos;
+	struct ast_node *tmp_entry;
+	int ret = MIDORIDB_OK;
+
+	if (node->node_type == AST_TYPE_SEL_ONEXPR)
+		return check_condition(node, output);
+
+	if (node->node_type != AST_TYPE_SEL_JOIN)
+		return MIDORIDB_OK;
+
+	if (((struct ast_sel_join_node*)node)->join_type != AST_SEL_JOIN_INNER) {
+		snprintf(output->error.message, sizeof(output->error.message),
+				"execution phase: only INNER JOINs are supported\n");
+		return -MIDORIDB_INTERNAL;
+	}
+
+	list_for_each(pos, node->node_children_head)
+	{
+		tmp_entry = list_entry(pos, typeof(*tmp_entry), head);
+		if ((ret = check_joins(tmp_entry, output)))
+			break;
+	}
+
+	return ret;
+}
+
+/*
+ * The grammar (and semantic phase) goes way beyond what can be executed. Whatever isn't implemented must be refused
+ * as ignoring it would return the wrong rows.
+ */
+static int check_supported(struct ast_sel_select_node *node, struct query_output *output)
+{
+	struct list_head *pos;
+	struct ast_node *tmp_entry;
+	char *err = NULL;
+	bool has_from = false;
+	int ret;
+
+	if (node->distinct)
+		err = "DISTINCT isn't supported yet";
+
+	list_for_each(pos, node->node_children_head)
+	{
+		tmp_entry = list_entry(pos, typeof(*tmp_entry), head);
+
+		switch (tmp_entry->node_type) {
+		case AST_TYPE_SEL_FIELDNAME:
+		case AST_TYPE_SEL_COUNT:
+			break;
+		case AST_TYPE_SEL_TABLE:
+			has_from = true;
+			break;
+		case AST_TYPE_SEL_JOIN:
+			has_from = true;
+			if ((ret = check_joins(tmp_entry, output)))
+				return ret;
+			break;
+		case AST_TYPE_SEL_WHERE:
+			if ((ret = check_condition(tmp_entry, output)))
+				return ret;
+			break;
+		case AST_TYPE_SEL_GROUPBY:
+			break;
+		case AST_TYPE_SEL_HAVING:
+			err = "HAVING isn't supported yet";
+			break;
+		case AST_TYPE_SEL_ORDERBYLIST:
+			err = "ORDER BY isn't supported yet";
+			break;
+		case AST_TYPE_SEL_LIMIT:
+			err = "LIMIT isn't supported yet";
+			break;
+		default:
+			err = "only fields and COUNT are supported in the select list";
+			break;
+		}
+	}
+
+	if (!err && !has_from)
+		err = "FROM-clause is required";
+
+	if (err) {
+		snprintf(output->error.message, sizeof(output->error.message), "execution phase: %s\n", err);
+		return -MIDORIDB_INTERNAL;
+	}
+
+	return MIDORIDB_OK;
+}
+
 int executor_run_select_stmt(struct database *db, struct ast_sel_select_node *select_node, struct query_output *output)
 {
 	struct hashtable cols_ht = {0};
@@ -1637,6 +1797,9 @@ int executor_run_select_stmt(struct database *db, struct ast_sel_select_node *se
 	struct ast_node *where_node, *groupby_node;
 	int ret = MIDORIDB_OK;
 
+	if ((ret = check_supported(select_node, output)))
+		goto err;
+
 	if (!hashtable_init(&cols_ht, &hashtable_str_compare, &hashtable_str_hash)) {
 		snprintf(output->error.message, sizeof(output->error.message), "execution phase: internal error\n");
 		ret = -MIDORIDB_INTERNAL;
-- 
2.43.0


From 032278d938c971fbc42c82fec158b640efc6bfdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:39 +0000
Subject: [PATCH 43/68] fix: long table and column names were truncated in
 result sets, writing past their rows

---
 include/primitive/column.h   | 4 +++-
 src/engine/executor_select.c | 9 +++++----
 src/primitive/column.c       | 2 +-
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/primitive/column.h b/include/primitive/column.h
index a8959e3..dbd5103 100644
--- a/include/primitive/column.h
+++ b/include/primitive/column.h
@@ -11,6 +11,8 @@
 #include <compiler/common.h>
 
 #define TABLE_MAX_COLUMN_NAME		127
+/* columns of result sets are called <table>.<column> and might be arguments of functions: COUNT(<table>.<column>) */
+#define TABLE_MAX_RESULT_COLUMN_NAME	(TABLE_MAX_COLUMN_NAME * 2 + 16)
 
 struct table;
 
@@ -29,7 +31,7 @@ enum COLUMN_TYPE {
 
 struct column {
 	/* NUL-terminated string */
-	char name[TABLE_MAX_COLUMN_NAME + 1 /*NUL char */];
+	char name[TABLE_MAX_RESULT_COLUMN_NAME + 1 /*NUL char */];
 	/* type of value meant to be stored */
 	enum COLUMN_TYPE type;
 	/* how much space it takes up in memory */
diff --git a/src/engine/executor_select.c b/src/engine/executor_select.c
index 755bc26..3ad8087 100644
--- a/src/engine/executor_select.c
+++ b/src/engine/executor_select.c
@@ -21,10 +21,11 @@
 #include <engine/executor.h>
 #include <primitive/row.h>
 
-#define FQFIELD_NAME_LEN 	MEMBER_SIZE(struct ast_sel_fieldname_node, table_name)			\
-					+ 1 /* dot */ 							\
-					+ MEMBER_SIZE(struct ast_sel_fieldname_node, col_name)		\
-					+ 1 /* NUL */
+#define FQFIELD_NAME_LEN 	MEMBER_SIZE(struct column, name)
+
+/* sanity checks during compilation to ensure that full-qualified names always fit */
+BUILD_BUG(TABLE_MAX_NAME + 1 /* dot */ + TABLE_MAX_COLUMN_NAME <= TABLE_MAX_RESULT_COLUMN_NAME,
+		"full-qualified column names would be truncated");
 
 //static void print_row(struct table *table, struct row *row)
 //{
diff --git a/src/primitive/column.c b/src/primitive/column.c
index 256e2a7..bd181be 100644
--- a/src/primitive/column.c
+++ b/src/primitive/column.c
@@ -267,7 +267,7 @@ bool table_rem_column(struct table *table, struct column *column)
 		return false;
 
 	for (pos = 0; pos < table->column_count; pos++) {
-		if (strncmp(table->columns[pos].name, column->name, TABLE_MAX_COLUMN_NAME) == 0) {
+		if (strcmp(table->columns[pos].name, column->name) == 0) {
 			found = true;
 			break;
 		}
-- 
2.43.0


From f000efd8ba8dfeb7f6c630538ae4699abc6b5da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:50 +0000
Subject: [PATCH 44/68] fix: COUNT of a column counted NULLs, the same COUNT
 couldn't be selected twice

---
 src/engine/executor_select.c | 71 ++++++++++++++++++++++++------------
 1 file changed, 48 insertions(+), 23 deletions(-)

diff --git a/src/engine/executor_select.c b/src/engine/executor_select.c
index 3ad8087..fca7a86 100644
--- a/src/engine/executor_select.c
+++ b/src/engine/executor_select.c
@@ -98,6 +98,18 @@ static struct ast_node* find_node(struct ast_node *root, enum ast_node_type node
 	return ret;
 }
 
+static void build_count_name(struct ast_node *node, char *out, size_t out_len)
+{
+	struct ast_sel_fieldname_node *fld_node;
+
+	if (((struct ast_sel_count_node*)node)->all) {
+		snprintf(out, out_len, "COUNT(*)");
+	} else {
+		fld_node = list_entry(node->node_children_head->next, typeof(*fld_node), head);
+		snprintf(out, out_len, "COUNT(%s.%s)", fld_node->table_name, fld_node->col_name);
+	}
+}
+
 struct column_specs {
 	enum COLUMN_TYPE type;
 	size_t offset;
@@ -128,8 +140,7 @@ static bool find_column_mattbl(struct table *table, struct ast_node *node, struc
 			memzero(key, sizeof(key));
 			snprintf(key, sizeof(key) - 1, "%s.%s", fld_node->table_name, fld_node->col_name);
 		} else if (node->node_type == AST_TYPE_SEL_COUNT) {
-			memzero(key, sizeof(key));
-			strcpy(key, "COUNT(*)");
+			build_count_name(node, key, sizeof(key));
 		} else {
 			BUG_GENERIC();
 		}
@@ -246,10 +257,15 @@ static int _build_cols_hashtable_table(struct database *db, struct ast_node *nod
 
 static int _build_cols_hashtable_count(struct ast_node *node, struct hashtable *cols_ht)
 {
-	UNUSED(node);
-	char key[] = "COUNT(*)";
+	char key[FQFIELD_NAME_LEN];
 	struct column column = {0};
 
+	build_count_name(node, key, sizeof(key));
+
+	/* the very same COUNT can be selected multiple times */
+	if (hashtable_get(cols_ht, key, strlen(key) + 1))
+		return MIDORIDB_OK;
+
 	column.type = CT_INTEGER;
 	column.precision = table_calc_column_precision(column.type);
 	column.is_count = true;
@@ -317,6 +333,21 @@ static int build_table_scafold(struct hashtable *column_types, struct table **ou
 	return MIDORIDB_OK;
 }
 
+static bool is_counted(struct table *table, struct row *row, struct column *count_col)
+{
+	char key[FQFIELD_NAME_LEN];
+
+	/* COUNT(*) counts every row whereas COUNT(<field>) counts only the ones in which it isn't NULL */
+	for (int i = 0; i < table->column_count; i++) {
+		snprintf(key, sizeof(key), "COUNT(%.*s)", (int)TABLE_MAX_RESULT_COLUMN_NAME - 8, table->columns[i].name);
+
+		if (strcmp(key, count_col->name) == 0)
+			return !bit_test(row->null_bitmap, i, sizeof(row->null_bitmap));
+	}
+
+	return true;
+}
+
 static void init_count_cols(struct table *table, struct row *row)
 {
 	struct column *column;
@@ -326,7 +357,7 @@ static void init_count_cols(struct table *table, struct row *row)
 		column = &table->columns[i];
 
 		if (column->is_count) {
-			(*(int64_t*)&row->data[offset]) = 1;
+			(*(int64_t*)&row->data[offset]) = is_counted(table, row, column);
 			bit_clear(row->null_bitmap, i, sizeof(row->null_bitmap));
 		}
 
@@ -1492,29 +1523,20 @@ static int cmp_rows_col_mattbl(struct table *table, struct row *row_1, struct ro
 	return ret;
 }
 
-static int inc_count_cols(struct table *table, struct datablock *blk, size_t blk_offset, struct row *row, size_t row_size)
+/* counts of @src are added to the ones of @dst */
+static void add_count_cols(struct table *table, struct row *dst, struct row *src)
 {
 	struct column *column;
 	size_t offset = 0;
-	bool found = false;
 
 	for (int i = 0; i < table->column_count; i++) {
 		column = &table->columns[i];
 
-		if (column->is_count) {
-			found = true;
-			(*(int64_t*)&row->data[offset])++;
-		}
+		if (column->is_count)
+			(*(int64_t*)&dst->data[offset]) += (*(int64_t*)&src->data[offset]);
 
 		offset += table_calc_column_space(column);
 	}
-
-	if (found) {
-		if (!table_update_row(table, blk, blk_offset, row, row_size))
-			return -MIDORIDB_INTERNAL;
-	}
-
-	return MIDORIDB_OK;
 }
 
 /* do both rows belong to the same group? That takes every field on the group-by clause */
@@ -1545,7 +1567,6 @@ static int collapse_rows(struct ast_node *node, struct table *table)
 	struct datablock *blk_1, *blk_2;
 	struct row *row_1, *row_2;
 	size_t row_size;
-	int ret;
 
 	row_size = table_calc_row_size(table);
 
@@ -1577,12 +1598,11 @@ static int collapse_rows(struct ast_node *node, struct table *table)
 					if (node && !is_same_group(node, table, row_1, row_2))
 						continue;
 
+					/* increment counts if any */
+					add_count_cols(table, row_1, row_2);
+
 					if (!table_delete_row(table, blk_2, row_size * j))
 						return -MIDORIDB_INTERNAL;
-
-					/* increment counts if any */
-					if ((ret = inc_count_cols(table, blk_1, row_size * i, row_1, row_size)))
-						return ret;
 				}
 			}
 		}
@@ -1749,7 +1769,12 @@ static int check_supported(struct ast_sel_select_node *node, struct query_output
 
 		switch (tmp_entry->node_type) {
 		case AST_TYPE_SEL_FIELDNAME:
+			break;
 		case AST_TYPE_SEL_COUNT:
+			if (!((struct ast_sel_count_node*)tmp_entry)->all
+					&& list_entry(tmp_entry->node_children_head->next, typeof(*tmp_entry), head)->node_type
+							!= AST_TYPE_SEL_FIELDNAME)
+				err = "only fields can be counted";
 			break;
 		case AST_TYPE_SEL_TABLE:
 			has_from = true;
-- 
2.43.0


From d82cc2979d61eb4e094bee1d995eb16687a15efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:48 +0000
Subject: [PATCH 45/68] fix: comparing a literal to NULL matched rows

---
 src/engine/executor_delete.c | 8 ++++----
 src/engine/executor_select.c | 8 ++++----
 src/engine/executor_update.c | 8 ++++----
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/engine/executor_delete.c b/src/engine/executor_delete.c
index 2b7b9b2..1d7b39f 100644
--- a/src/engine/executor_delete.c
+++ b/src/engine/executor_delete.c
@@ -248,15 +248,15 @@ static bool cmp_field_to_value(struct table *table, struct row *row, struct ast_
 
 static bool cmp_value_to_value(struct ast_del_cmp_node *node, struct ast_del_exprval_node *val_1, struct ast_del_exprval_node *val_2)
 {
-	if (val_1->value_type.is_approxnum) {
+	if (val_1->value_type.is_null || val_2->value_type.is_null) {
+		/* no comparison evaluates to true if NULL is one of the operands */
+		return false;
+	} else if (val_1->value_type.is_approxnum) {
 		return cmp_double_value_to_value(node->cmp_type, val_1->double_val, val_2->double_val);
 	} else if (val_1->value_type.is_bool) {
 		return cmp_bool_value_to_value(node->cmp_type, val_1->bool_val, val_2->bool_val);
 	} else if (val_1->value_type.is_intnum) {
 		return cmp_int_value_to_value(node->cmp_type, val_1->int_val, val_2->int_val);
-	} else if (val_1->value_type.is_null) {
-		/* no comparison evaluates to true if NULL is one of the operands */
-		return false;
 	} else if (val_1->value_type.is_str) {
 		return cmp_str_value_to_value(node->cmp_type, val_1->str_val, val_2->str_val);
 	} else {
diff --git a/src/engine/executor_select.c b/src/engine/executor_select.c
index fca7a86..24469ea 100644
--- a/src/engine/executor_select.c
+++ b/src/engine/executor_select.c
@@ -681,15 +681,15 @@ static bool cmp_field_to_value(struct table *table, struct row *row, struct ast_
 
 static bool cmp_value_to_value(struct ast_sel_cmp_node *node, struct ast_sel_exprval_node *val_1, struct ast_sel_exprval_node *val_2)
 {
-	if (val_1->value_type.is_approxnum) {
+	if (val_1->value_type.is_null || val_2->value_type.is_null) {
+		/* no comparison evaluates to true if NULL is one of the operands */
+		return false;
+	} else if (val_1->value_type.is_approxnum) {
 		return cmp_double_value_to_value(node->cmp_type, val_1->double_val, val_2->double_val);
 	} else if (val_1->value_type.is_bool) {
 		return cmp_bool_value_to_value(node->cmp_type, val_1->bool_val, val_2->bool_val);
 	} else if (val_1->value_type.is_intnum) {
 		return cmp_int_value_to_value(node->cmp_type, val_1->int_val, val_2->int_val);
-	} else if (val_1->value_type.is_null) {
-		/* no comparison evaluates to true if NULL is one of the operands */
-		return false;
 	} else if (val_1->value_type.is_str) {
 		return cmp_str_value_to_value(node->cmp_type, val_1->str_val, val_2->str_val);
 	} else {
diff --git a/src/engine/executor_update.c b/src/engine/executor_update.c
index 866cba5..db865c0 100644
--- a/src/engine/executor_update.c
+++ b/src/engine/executor_update.c
@@ -227,15 +227,15 @@ static bool cmp_field_to_value(struct table *table, struct row *row, struct ast_
 
 static bool cmp_value_to_value(struct ast_upd_cmp_node *node, struct ast_upd_exprval_node *val_1, struct ast_upd_exprval_node *val_2)
 {
-	if (val_1->value_type.is_approxnum) {
+	if (val_1->value_type.is_null || val_2->value_type.is_null) {
+		/* no comparison evaluates to true if NULL is one of the operands */
+		return false;
+	} else if (val_1->value_type.is_approxnum) {
 		return cmp_double_value_to_value(node->cmp_type, val_1->double_val, val_2->double_val);
 	} else if (val_1->value_type.is_bool) {
 		return cmp_bool_value_to_value(node->cmp_type, val_1->bool_val, val_2->bool_val);
 	} else if (val_1->value_type.is_intnum) {
 		return cmp_int_value_to_value(node->cmp_type, val_1->int_val, val_2->int_val);
-	} else if (val_1->value_type.is_null) {
-		/* no comparison evaluates to true if NULL is one of the operands */
-		return false;
 	} else if (val_1->value_type.is_str) {
 		return cmp_str_value_to_value(node->cmp_type, val_1->str_val, val_2->str_val);
 	} else {
-- 
2.43.0


From 5ab5b6804d415e440ac1c34468c4447ac19578f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:25 +0000
Subject: [PATCH 46/68] fix: SELECT conditions that cannot be type checked
 terminated the process or were accepted

---
 src/parser/semantic_select.c | 155 ++++++++++++++++++++++++++---------
 1 file changed, 117 insertions(+), 38 deletions(-)

diff --git a/src/parser/semantic_select.c b/src/parser/semantic_select.c
index a630f71..b974717 100644
--- a/src/parser/semantic_select.c
+++ b/src/parser/semantic_select.c
@@ -261,7 +261,7 @@ static bool check_column_alias(struct database *db, struct ast_node *root, char
 						((struct alias_value*)table_lookup->content)->table_name,
 						0,
 						sizeof(value.table_name));
-				} else if (database_table_exists(db, value.table_name)) {
+				} else if (database_table_exists(db, field_node->table_name)) {
 					/* query contains full qualified name <table>.<column>. keep it as it is */
 					memccpy(value.table_name, field_node->table_name, 0, sizeof(value.table_name));
 				} else {
@@ -273,8 +273,9 @@ static bool check_column_alias(struct database *db, struct ast_node *root, char
 				/* table nodes are not used in this validation, so just move on */
 				continue;
 			} else {
-				/* is there an edge case that I haven't foreseen */
-				BUG_GENERIC();
+				/* comparisons, logical operators... */
+				snprintf(out_err, out_err_len, "alias '%.128s' refers to an unsupported expression\n", key);
+				return false;
 			}
 
 			/* is the name valid? column aliases follow table nomenclature rules */
@@ -1863,8 +1864,8 @@ static bool check_orderby_clause_inselect(struct ast_node *root, struct ast_node
 				return false;
 			}
 		} else {
-			/* something went really wrong here */
-			BUG_GENERIC();
+			snprintf(out_err, out_err_len, "ORDER BY clause can only contain fields\n");
+			return false;
 		}
 	}
 	/* base case 2 */
@@ -2110,8 +2111,8 @@ static bool check_isxnull_entries(struct ast_node *root, char *out_err, size_t o
 					return false;
 				}
 			} else if (tmp_entry->node_type != AST_TYPE_SEL_FIELDNAME) {
-				/* something I haven't foreseen */
-				BUG_GENERIC();
+				snprintf(out_err, out_err_len, "only fields are allowed in IS NULL|IS NOT NULL\n");
+				return false;
 			}
 
 		}
@@ -2134,6 +2135,29 @@ struct sem_check_val_types {
 	enum COLUMN_TYPE type;
 };
 
+static bool is_str_literal(struct ast_node *node)
+{
+	return node->node_type == AST_TYPE_SEL_EXPRVAL && ((struct ast_sel_exprval_node*)node)->value_type.is_str;
+}
+
+static struct sem_check_val_types check_value_types_date(enum COLUMN_TYPE type, struct ast_node *node, char *out_err, size_t out_err_len)
+{
+	struct sem_check_val_types ret = {0};
+	struct ast_sel_exprval_node *val_node = (typeof(val_node))node;
+
+	if (try_parse_date_type(val_node->str_val, type)) {
+		ret.type = CT_TINYINT; // CMP resolves into a Boolean value
+	} else {
+		snprintf(out_err, out_err_len,
+				/* max str size would exceed buffer's size, so trim it */
+				"val: '%.256s' can't be parsed for DATE | DATETIME column\n",
+				val_node->str_val);
+		ret.invalid = true;
+	}
+
+	return ret;
+}
+
 static struct sem_check_val_types check_value_types_cmp(struct ast_sel_cmp_node *cmp_node, struct hashtable *ht, char *out_err, size_t out_err_len)
 {
 	struct sem_check_val_types ret = {0};
@@ -2142,6 +2166,8 @@ static struct sem_check_val_types check_value_types_cmp(struct ast_sel_cmp_node
 	int i = 0;
 
 	struct ast_node *tmp_entry = NULL;
+	struct ast_node *left_node = NULL;
+	struct ast_node *right_node = NULL;
 	struct list_head *pos;
 
 	/* sanity check */
@@ -2152,13 +2178,21 @@ static struct sem_check_val_types check_value_types_cmp(struct ast_sel_cmp_node
 		tmp_entry = list_entry(pos, typeof(*tmp_entry), head);
 
 		if (i == 0) {
+			left_node = tmp_entry;
 			left = __check_value_types(tmp_entry, ht, out_err, out_err_len);
 		} else {
+			right_node = tmp_entry;
 			right = __check_value_types(tmp_entry, ht, out_err, out_err_len);
 		}
 		i++;
 	}
 
+	// error has already been reported
+	if (left.invalid || right.invalid) {
+		ret.invalid = true;
+		return ret;
+	}
+
 	// NULL has a special set of rules
 	if (left.null || right.null) {
 		if (cmp_node->cmp_type != AST_CMP_EQUALS_OP && cmp_node->cmp_type != AST_CMP_DIFF_OP) {
@@ -2170,15 +2204,23 @@ static struct sem_check_val_types check_value_types_cmp(struct ast_sel_cmp_node
 		return ret;
 	}
 
+	// strings can be interpreted/parsed for other types such as DATE and DATETIME
+	if ((left.type == CT_DATE || left.type == CT_DATETIME) && is_str_literal(right_node))
+		return check_value_types_date(left.type, right_node, out_err, out_err_len);
+	else if ((right.type == CT_DATE || right.type == CT_DATETIME) && is_str_literal(left_node))
+		return check_value_types_date(right.type, left_node, out_err, out_err_len);
+
 	// VARCHAR has a special set of rules
 	if (left.type == CT_VARCHAR || right.type == CT_VARCHAR) {
 		if (cmp_node->cmp_type != AST_CMP_EQUALS_OP && cmp_node->cmp_type != AST_CMP_DIFF_OP) {
 			snprintf(out_err, out_err_len, "VARCHAR values can only use '=' or '<>' ops\n");
 			ret.invalid = true;
+			return ret;
 		}
 	}
 
 	if (memcmp(&left, &right, sizeof(left))) {
+		snprintf(out_err, out_err_len, "values of different types can't be compared\n");
 		ret.invalid = true;
 	} else {
 		ret.type = CT_TINYINT; // CMP resolves into a Boolean value
@@ -2212,7 +2254,14 @@ static struct sem_check_val_types check_value_types_exprop(struct ast_sel_exprop
 		i++;
 	}
 
+	// error has already been reported
+	if (left.invalid || right.invalid) {
+		ret.invalid = true;
+		return ret;
+	}
+
 	if (memcmp(&left, &right, sizeof(left))) {
+		snprintf(out_err, out_err_len, "values of different types can't be used in the same expression\n");
 		ret.invalid = true;
 	} else {
 		ret = left;
@@ -2245,7 +2294,14 @@ static struct sem_check_val_types check_value_types_logop(struct ast_sel_logop_n
 		i++;
 	}
 
+	// error has already been reported
+	if (left.invalid || right.invalid) {
+		ret.invalid = true;
+		return ret;
+	}
+
 	if (memcmp(&left, &right, sizeof(left))) {
+		snprintf(out_err, out_err_len, "logical operators require conditions on both sides\n");
 		ret.invalid = true;
 	} else {
 		ret.type = CT_TINYINT; // LOGOP resolves into a Boolean value
@@ -2255,16 +2311,18 @@ static struct sem_check_val_types check_value_types_logop(struct ast_sel_logop_n
 
 static struct sem_check_val_types check_value_types_fieldname(struct ast_sel_fieldname_node *field_node, struct hashtable *ht, char *out_err, size_t out_err_len)
 {
-	UNUSED(out_err);
-	UNUSED(out_err_len);
-
 	struct sem_check_val_types ret = {0};
 	struct hashtable_value *ht_value;
 	char key[FQFIELD_NAME_LEN] = {0};
 
 	snprintf(key, sizeof(key) - 1, "%s.%s", field_node->table_name, field_node->col_name);
 	ht_value = hashtable_get(ht, key, strlen(key) + 1);
-	BUG_ON(!ht_value); // sanity check
+	if (!ht_value) {
+		/* i.e.: original table name is used in a query that gave it an alias */
+		snprintf(out_err, out_err_len, "no such column: '%.256s'\n", key);
+		ret.invalid = true;
+		return ret;
+	}
 	ret.type = *(enum COLUMN_TYPE*)ht_value->content;
 
 	return ret;
@@ -2291,7 +2349,8 @@ static struct sem_check_val_types check_value_types_isxin(struct ast_sel_isxin_n
 		if (first) {
 			first = false;
 
-			if (tmp_entry->node_type == AST_TYPE_SEL_EXPRVAL) {
+			if (tmp_entry->node_type == AST_TYPE_SEL_EXPRVAL
+					&& ((struct ast_sel_exprval_node*)tmp_entry)->value_type.is_name) {
 				val_node = (typeof(val_node))tmp_entry;
 				ht_value = hashtable_get(ht, val_node->name_val, strlen(val_node->name_val) + 1);
 			} else if (tmp_entry->node_type == AST_TYPE_SEL_FIELDNAME) {
@@ -2300,11 +2359,16 @@ static struct sem_check_val_types check_value_types_isxin(struct ast_sel_isxin_n
 				ht_value = hashtable_get(ht, key, strlen(key) + 1);
 			}
 
-			BUG_ON(!ht_value); // sanity check
+			if (!ht_value) {
+				snprintf(out_err, out_err_len, "IN-clause requires a valid column\n");
+				goto err;
+			}
 			expected_type = *(enum COLUMN_TYPE*)ht_value->content;
 		} else {
-			// sanity check
-			BUG_ON(tmp_entry->node_type != AST_TYPE_SEL_EXPRVAL);
+			if (tmp_entry->node_type != AST_TYPE_SEL_EXPRVAL) {
+				snprintf(out_err, out_err_len, "IN-clause can only contain raw values\n");
+				goto err;
+			}
 			val_node = (typeof(val_node))tmp_entry;
 
 			if (val_node->value_type.is_str) {
@@ -2344,8 +2408,9 @@ static struct sem_check_val_types check_value_types_isxin(struct ast_sel_isxin_n
 					goto err;
 				}
 			} else {
-				/* maybe new column type? */
-				BUG_GENERIC();
+				/* NULL, fields... */
+				snprintf(out_err, out_err_len, "IN-clause can only contain raw values\n");
+				goto err;
 			}
 		}
 	}
@@ -2375,7 +2440,11 @@ static struct sem_check_val_types __check_value_types(struct ast_node *node, str
 
 		if (val_node->value_type.is_name) {
 			ht_value = hashtable_get(ht, val_node->name_val, strlen(val_node->name_val) + 1);
-			BUG_ON(!ht_value); // sanity check
+			if (!ht_value) {
+				snprintf(out_err, out_err_len, "no such column: '%.128s'\n", val_node->name_val);
+				ret.invalid = true;
+				return ret;
+			}
 			ret.type = *(enum COLUMN_TYPE*)ht_value->content;
 		} else if (val_node->value_type.is_approxnum) {
 			ret.type = CT_DOUBLE;
@@ -2494,7 +2563,8 @@ static bool build_column_value_types_ht(struct database *db, struct ast_node *no
 	return true;
 }
 
-static enum COLUMN_TYPE extract_alias_types(struct ast_node *node, struct ast_sel_alias_node *alias_node, struct hashtable *ht, char *out_err, size_t out_err_len)
+static bool extract_alias_types(struct ast_node *node, struct ast_sel_alias_node *alias_node, struct hashtable *ht,
+		enum COLUMN_TYPE *out_type, char *out_err, size_t out_err_len)
 {
 	struct list_head *pos;
 	struct ast_node *tmp_entry;
@@ -2502,27 +2572,31 @@ static enum COLUMN_TYPE extract_alias_types(struct ast_node *node, struct ast_se
 	struct ast_sel_fieldname_node *field_node;
 	struct hashtable_value *ht_value;
 	char lookup_key[FQFIELD_NAME_LEN] = {0};
-	enum COLUMN_TYPE col_type = 0;
 
 	if (node->node_type == AST_TYPE_SEL_EXPRVAL) {
 		val_node = (typeof(val_node))node;
 
 		if (val_node->value_type.is_intnum) {
-			col_type = CT_INTEGER;
+			*out_type = CT_INTEGER;
 		} else if (val_node->value_type.is_approxnum) {
-			col_type = CT_DOUBLE;
+			*out_type = CT_DOUBLE;
 		} else if (val_node->value_type.is_bool) {
-			col_type = CT_TINYINT;
+			*out_type = CT_TINYINT;
 		} else if (val_node->value_type.is_str) {
-			col_type = CT_VARCHAR;
+			*out_type = CT_VARCHAR;
 		} else if (val_node->value_type.is_name) {
 			ht_value = hashtable_get(ht, val_node->name_val, strlen(val_node->name_val) + 1);
-			BUG_ON(!ht_value);
+			if (!ht_value) {
+				snprintf(out_err, out_err_len, "no such column: '%.128s'\n", val_node->name_val);
+				return false;
+			}
 
-			col_type = *(enum COLUMN_TYPE*)ht_value->content;
+			*out_type = *(enum COLUMN_TYPE*)ht_value->content;
 		} else {
-			// most likely a new column type has been added
-			BUG_GENERIC();
+			/* NULL has no type */
+			snprintf(out_err, out_err_len, "alias '%.128s' refers to a value without type\n",
+					alias_node->alias_value);
+			return false;
 		}
 
 	} else if (node->node_type == AST_TYPE_SEL_EXPROP) {
@@ -2531,13 +2605,13 @@ static enum COLUMN_TYPE extract_alias_types(struct ast_node *node, struct ast_se
 		{
 			tmp_entry = list_entry(pos, typeof(*tmp_entry), head);
 
-			col_type = extract_alias_types(tmp_entry, alias_node, ht, out_err, out_err_len);
-			break; /* single instance is fine as they are supposed to match type-wise */
+			/* single instance is fine as they are supposed to match type-wise */
+			return extract_alias_types(tmp_entry, alias_node, ht, out_type, out_err, out_err_len);
 		}
 
 	} else if (node->node_type == AST_TYPE_SEL_COUNT) {
 		/* COUNT function such as SELECT COUNT(f1) as val FROM a; */
-		col_type = CT_INTEGER;
+		*out_type = CT_INTEGER;
 	} else if (node->node_type == AST_TYPE_SEL_FIELDNAME) {
 		field_node = (typeof(field_node))node;
 
@@ -2546,17 +2620,21 @@ static enum COLUMN_TYPE extract_alias_types(struct ast_node *node, struct ast_se
 				field_node->col_name);
 
 		ht_value = hashtable_get(ht, lookup_key, strlen(lookup_key) + 1);
-		BUG_ON(!ht_value);
+		if (!ht_value) {
+			snprintf(out_err, out_err_len, "no such column: '%.256s'\n", lookup_key);
+			return false;
+		}
 
-		col_type = *(enum COLUMN_TYPE*)ht_value->content;
+		*out_type = *(enum COLUMN_TYPE*)ht_value->content;
 
 	} else {
-		/* is there an edge case that I haven't foreseen */
-		BUG_GENERIC();
+		/* comparisons, logical operators... */
+		snprintf(out_err, out_err_len, "alias '%.128s' refers to an unsupported expression\n",
+				alias_node->alias_value);
+		return false;
 	}
 
-	return col_type;
-
+	return true;
 }
 
 static bool build_alias_value_types_ht(struct ast_node *node, struct hashtable *ht, char *out_err, size_t out_err_len)
@@ -2580,7 +2658,8 @@ static bool build_alias_value_types_ht(struct ast_node *node, struct hashtable *
 			}
 
 			strcpy(key, alias_node->alias_value);
-			col_type = extract_alias_types(tmp_entry, alias_node, ht, out_err, out_err_len);
+			if (!extract_alias_types(tmp_entry, alias_node, ht, &col_type, out_err, out_err_len))
+				return false;
 
 			if (!hashtable_put(ht, key, strlen(key) + 1, &col_type, sizeof(col_type))) {
 				snprintf(out_err, out_err_len, "semantic phase: internal error\n");
-- 
2.43.0


From 828a3caa72e57c9faf8b8d62f8d4a87ba6579786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:29 +0000
Subject: [PATCH 47/68] fix: invalid select lists of aggregate queries were
 rejected without an error message

---
 src/parser/semantic_select.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/parser/semantic_select.c b/src/parser/semantic_select.c
index b974717..69981f1 100644
--- a/src/parser/semantic_select.c
+++ b/src/parser/semantic_select.c
@@ -1705,17 +1705,20 @@ static bool check_groupby_clause(struct ast_node *root, char *out_err, size_t ou
 			return false;
 
 		/* check if fields/aliases on group-by clause are also specified on the SELECT list */
-		if (!check_groupby_clause_inselect(root, groupby_node, out_err, out_err_len, column_alias))
+		if (!check_groupby_clause_inselect(root, groupby_node, out_err, out_err_len, column_alias)) {
+			snprintf(out_err, out_err_len, "fields of the select list must be part of the group-by clause\n");
 			return false;
+		}
 	} else {
 		/*
 		 * edge case: non-aggregate fields alongside aggregate fields with no group-by clause such as:
 		 * 	SELECT f1, COUNT(f2) FROM B;  (should fail as f1 must be in the group-by clause)
 		 */
 		check_aggr_inselect_nogroupby(root, out_err, out_err_len, column_alias, &out_stats);
-		if (out_stats.no_count_fnc > 0 && out_stats.no_raw_fields > 0)
+		if (out_stats.no_count_fnc > 0 && out_stats.no_raw_fields > 0) {
+			snprintf(out_err, out_err_len, "fields used alongside COUNT must be part of the group-by clause\n");
 			return false;
-
+		}
 	}
 
 	return true;
-- 
2.43.0


From 5609a9fa5f8cddb5b4c8caad46327a7722eee386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:01 +0000
Subject: [PATCH 48/68] fix: joining tables with more than 128 columns
 altogether terminated the process

---
 src/engine/executor_select.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/engine/executor_select.c b/src/engine/executor_select.c
index 24469ea..26d50a0 100644
--- a/src/engine/executor_select.c
+++ b/src/engine/executor_select.c
@@ -323,6 +323,10 @@ static void do_build_table_scafold(struct hashtable *hashtable, const void *key,
 
 static int build_table_scafold(struct hashtable *column_types, struct table **out_table)
 {
+	/* tables being joined can have more columns (altogether) than what a single table can hold */
+	if (column_types->count > TABLE_MAX_COLUMNS)
+		return -MIDORIDB_INTERNAL;
+
 	*out_table = table_init("early_mat_tbl");
 
 	if (!(*out_table))
-- 
2.43.0


From ab1aea07e42aa6b39ca95d88e880a90f9c007b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:09 +0000
Subject: [PATCH 49/68] fix: types of SELECT operands were compared including
 uninitialised padding bytes

---
 src/parser/semantic_select.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/parser/semantic_select.c b/src/parser/semantic_select.c
index 69981f1..47ab1d3 100644
--- a/src/parser/semantic_select.c
+++ b/src/parser/semantic_select.c
@@ -2138,6 +2138,15 @@ struct sem_check_val_types {
 	enum COLUMN_TYPE type;
 };
 
+/* structs have padding bytes so they can't be compared with memcmp */
+static bool same_val_types(struct sem_check_val_types *a, struct sem_check_val_types *b)
+{
+	return a->none == b->none
+			&& a->invalid == b->invalid
+			&& a->null == b->null
+			&& a->type == b->type;
+}
+
 static bool is_str_literal(struct ast_node *node)
 {
 	return node->node_type == AST_TYPE_SEL_EXPRVAL && ((struct ast_sel_exprval_node*)node)->value_type.is_str;
@@ -2222,7 +2231,7 @@ static struct sem_check_val_types check_value_types_cmp(struct ast_sel_cmp_node
 		}
 	}
 
-	if (memcmp(&left, &right, sizeof(left))) {
+	if (!same_val_types(&left, &right)) {
 		snprintf(out_err, out_err_len, "values of different types can't be compared\n");
 		ret.invalid = true;
 	} else {
@@ -2263,7 +2272,7 @@ static struct sem_check_val_types check_value_types_exprop(struct ast_sel_exprop
 		return ret;
 	}
 
-	if (memcmp(&left, &right, sizeof(left))) {
+	if (!same_val_types(&left, &right)) {
 		snprintf(out_err, out_err_len, "values of different types can't be used in the same expression\n");
 		ret.invalid = true;
 	} else {
@@ -2303,7 +2312,7 @@ static struct sem_check_val_types check_value_types_logop(struct ast_sel_logop_n
 		return ret;
 	}
 
-	if (memcmp(&left, &right, sizeof(left))) {
+	if (!same_val_types(&left, &right)) {
 		snprintf(out_err, out_err_len, "logical operators require conditions on both sides\n");
 		ret.invalid = true;
 	} else {
-- 
2.43.0


From b2231d7a27ddf73a41b1e020388b29d1f0535dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:10 +0000
Subject: [PATCH 50/68] fix: SELECT conditions combining IS NULL with
 AND/OR/XOR were rejected

---
 src/parser/semantic_select.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/parser/semantic_select.c b/src/parser/semantic_select.c
index 47ab1d3..5102218 100644
--- a/src/parser/semantic_select.c
+++ b/src/parser/semantic_select.c
@@ -2486,6 +2486,21 @@ static struct sem_check_val_types __check_value_types(struct ast_node *node, str
 		return ret;
 	} else if (node->node_type == AST_TYPE_SEL_EXPRISXIN) {
 		return check_value_types_isxin((struct ast_sel_isxin_node*)node, ht, out_err, out_err_len);
+	} else if (node->node_type == AST_TYPE_SEL_EXPRISXNULL) {
+		/* there is nothing to compare types with, but the outcome is a condition */
+		list_for_each(pos, node->node_children_head)
+		{
+			tmp_entry = list_entry(pos, typeof(*tmp_entry), head);
+
+			ret = __check_value_types(tmp_entry, ht, out_err, out_err_len);
+
+			if (ret.invalid)
+				return ret;
+		}
+
+		memzero(&ret, sizeof(ret));
+		ret.type = CT_TINYINT;
+		return ret;
 	}
 
 	// recursion
-- 
2.43.0


From 193613f2cede38bbb81966cf58197f27c91ed662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:12 +0000
Subject: [PATCH 51/68] fix: unqualified columns of aliased tables were not
 found in queries with joins

---
 src/parser/semantic_select.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/parser/semantic_select.c b/src/parser/semantic_select.c
index 5102218..4d90da9 100644
--- a/src/parser/semantic_select.c
+++ b/src/parser/semantic_select.c
@@ -1321,6 +1321,7 @@ static int check_join_on_fields_exprname(struct database *db, struct ast_sel_exp
 	struct ast_node *tmp_entry;
 	struct ast_sel_join_node *new_join_node;
 	struct ast_sel_table_node *table_node;
+	struct list_head *pos2;
 	int count = 0;
 
 	list_for_each(pos, join_node->node_children_head)
@@ -1333,6 +1334,17 @@ static int check_join_on_fields_exprname(struct database *db, struct ast_sel_exp
 			if (column_exists(db, table_node, val_node->name_val))
 				count++;
 
+		}
+		/* tables using aliases */
+		else if (tmp_entry->node_type == AST_TYPE_SEL_ALIAS) {
+			list_for_each(pos2, tmp_entry->node_children_head)
+			{
+				table_node = list_entry(pos2, typeof(*table_node), head);
+
+				if (column_exists(db, table_node, val_node->name_val))
+					count++;
+			}
+
 		} else if (tmp_entry->node_type == AST_TYPE_SEL_JOIN) {
 			new_join_node = (typeof(new_join_node))tmp_entry;
 			count += check_join_on_fields_exprname(db, val_node, new_join_node, out_err, out_err_len);
-- 
2.43.0


From 9717bce2622d5e47e77966003b05ca88f39717e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:38 +0000
Subject: [PATCH 52/68] fix: qualified names of columns such as t.e1 were read
 as numbers

---
 src/parser/midorisql.l | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/midorisql.l b/src/parser/midorisql.l
index a6be979..db47796 100644
--- a/src/parser/midorisql.l
+++ b/src/parser/midorisql.l
@@ -119,7 +119,7 @@ XOR	{ return XOR; }
 -?"."[0-9]+	|
 -?[0-9]+E[-+]?[0-9]+	|
 -?[0-9]+"."[0-9]*E[-+]?[0-9]+ |
--?"."[0-9]*E[-+]?[0-9]+	{ yylval->floatval = atof(yytext) ;
+-?"."[0-9]+E[-+]?[0-9]+	{ yylval->floatval = atof(yytext) ;
                                   return APPROXNUM; }
     /* booleans */
 TRUE	{ yylval->intval = 1; return BOOL; }
-- 
2.43.0


From 33a96a8d2d2d77c9587e6a5abd015d09225c5b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:49 +0000
Subject: [PATCH 53/68] fix: the name of a table used as alias of another one
 terminated the process

---
 src/parser/semantic_select.c | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/src/parser/semantic_select.c b/src/parser/semantic_select.c
index 4d90da9..a9b1735 100644
--- a/src/parser/semantic_select.c
+++ b/src/parser/semantic_select.c
@@ -171,6 +171,36 @@ static bool check_table_alias(struct ast_node *root, char *out_err, size_t out_e
 	return true;
 }
 
+/* names of tables without aliases can't be the alias of another table */
+static bool check_table_alias_conflict(struct ast_node *root, struct hashtable *table_alias, char *out_err, size_t out_err_len)
+{
+	struct list_head *pos;
+	struct ast_node *tmp_entry;
+	char *key;
+
+	if (root->node_type == AST_TYPE_SEL_ALIAS)
+		return true;
+
+	if (root->node_type == AST_TYPE_SEL_TABLE) {
+		key = ((struct ast_sel_table_node*)root)->table_name;
+
+		if (hashtable_get(table_alias, key, strlen(key) + 1)) {
+			snprintf(out_err, out_err_len, "Not unique table/alias: '%.128s'\n", key);
+			return false;
+		}
+	}
+
+	list_for_each(pos, root->node_children_head)
+	{
+		tmp_entry = list_entry(pos, typeof(*tmp_entry), head);
+
+		if (!check_table_alias_conflict(tmp_entry, table_alias, out_err, out_err_len))
+			return false;
+	}
+
+	return true;
+}
+
 static bool check_table_names(struct database *db, struct ast_node *root, char *out_err, size_t out_err_len)
 {
 	struct list_head *pos;
@@ -2770,7 +2800,8 @@ bool semantic_analyse_select_stmt(struct database *db, struct ast_node *node, ch
 		goto cleanup_tbl_ht;
 
 	/* build table alias hashtable; check for table alias duplicates */
-	if (!check_table_alias(node, out_err, out_err_len, &table_alias))
+	if (!check_table_alias(node, out_err, out_err_len, &table_alias)
+			|| !check_table_alias_conflict(node, &table_alias, out_err, out_err_len))
 		goto cleanup_tbl_ht;
 
 	/*
-- 
2.43.0


From a52b8932e458d653f4bd8510bb8ef332e491c5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:51 +0000
Subject: [PATCH 54/68] fix: syntax errors after the name of a table freed the
 name twice

---
 src/parser/midorisql.y | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/midorisql.y b/src/parser/midorisql.y
index 1b5a3b5..a700f93 100644
--- a/src/parser/midorisql.y
+++ b/src/parser/midorisql.y
@@ -220,7 +220,7 @@ table_reference:  table_factor
   | join_table
   ;
 
-table_factor: NAME { emit(result, "TABLE %s", $1); free($1); } opt_as_alias  
+table_factor: NAME { emit(result, "TABLE %s", $1); free($1); $1 = NULL; } opt_as_alias  
 	    ;
 
 opt_as_alias: AS NAME { emit (result, "ALIAS %s", $2); free($2); }
-- 
2.43.0


From 654a01db6941c4ce72e1d3c03859f7ae0594a0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:53 +0000
Subject: [PATCH 55/68] fix: COUNT at the end of the input made the scanner
 read from an invalid buffer

---
 src/parser/midorisql.l | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/parser/midorisql.l b/src/parser/midorisql.l
index db47796..0b31022 100644
--- a/src/parser/midorisql.l
+++ b/src/parser/midorisql.l
@@ -164,13 +164,10 @@ B'[01]+'     { yylval->strval = strdup(yytext); return STRING; }
         /* functions */
 
 
-	/* 
-         * peek ahead and return function if name(
-         */
-COUNT    { int c = input(yyscanner); unput(c);
-           if(c == '(') {return FCOUNT;}
-           yylval->strval = strdup(yytext);
-           return NAME; }
+	/*
+	 * it's a function only if it's followed by '(', otherwise it's a name like any other
+	 */
+COUNT/"("	{ return FCOUNT; }
 
 [A-Za-z][A-Za-z0-9_]*	{ yylval->strval = strdup(yytext);
                           return NAME; }
-- 
2.43.0


From 51351fdca95a50c75fe5a938667a74eaa9ba9621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:37 +0000
Subject: [PATCH 56/68] fix: btree lookup and update found keys that had been
 removed

---
 src/datastructure/btree.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/datastructure/btree.c b/src/datastructure/btree.c
index 7e064ae..0896e8f 100644
--- a/src/datastructure/btree.c
+++ b/src/datastructure/btree.c
@@ -73,7 +73,7 @@ static struct btree_node_tuple* btree_search(struct btree_head *head, struct btr
 	while (i < node->key_count && head->cmp_fn(key, node->keys[i].key) > 0)
 		i++;
 
-	if (node->keys[i].key && head->cmp_fn(node->keys[i].key, key) == 0)
+	if (i < node->key_count && head->cmp_fn(node->keys[i].key, key) == 0)
 		return &node->keys[i];
 
 	if (node->is_leaf)
-- 
2.43.0


From 3dde13bc09419962317d959ec887696f78363f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:28 +0000
Subject: [PATCH 57/68] fix: fail the parse when an item can't be queued
 instead of dropping it

---
 src/parser/midorisql.y | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/parser/midorisql.y b/src/parser/midorisql.y
index a700f93..1742832 100644
--- a/src/parser/midorisql.y
+++ b/src/parser/midorisql.y
@@ -10,6 +10,9 @@
 void yyerror(struct queue*, void*, const char *, ...);
 bool emit(struct queue *q, char *s, ...);
 int yylex(void*, void*);
+
+/* items that can't be queued make the whole parse fail (see stmt_list) */
+#define emit(q, ...) do { if (!(emit)((q), __VA_ARGS__)) yynerrs++; } while (0)
 %}
 
 %code requires { 
@@ -147,8 +150,8 @@ int yylex(void*, void*);
 
 %%
 
-stmt_list: stmt ';'
-  | stmt_list stmt ';'
+stmt_list: stmt ';' { if (yynerrs) { yyerror(result, scanner, "out of memory"); YYABORT; } }
+  | stmt_list stmt ';' { if (yynerrs) { yyerror(result, scanner, "out of memory"); YYABORT; } }
   ;
 
    /* statements: select statement */
@@ -515,7 +518,7 @@ void yyerror(struct queue *q, void* scanner, const char *s, ...)
 	}
 }
 
-bool emit(struct queue *q, char *s, ...)
+bool (emit)(struct queue *q, char *s, ...)
 {
 	char *buf;
 	va_list ap;
-- 
2.43.0


From 1bd20aa643a427876651fa42d807aa557385a7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:28 +0000
Subject: [PATCH 58/68] fix: check for allocation failures when scanning names
 and literals

---
 src/parser/midorisql.l | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/parser/midorisql.l b/src/parser/midorisql.l
index 0b31022..3cfed2e 100644
--- a/src/parser/midorisql.l
+++ b/src/parser/midorisql.l
@@ -136,12 +136,12 @@ FALSE	{ yylval->intval = 0; return BOOL; }
 
    /* hex strings */
 X'[0-9A-F]+' |  
-0X[0-9A-F]+  { yylval->strval = strdup(yytext); return STRING; }
+0X[0-9A-F]+  { if (!(yylval->strval = strdup(yytext))) return YYUNDEF; return STRING; }
 
    /* bit strings */
 
 0B[01]+      |
-B'[01]+'     { yylval->strval = strdup(yytext); return STRING; }
+B'[01]+'     { if (!(yylval->strval = strdup(yytext))) return YYUNDEF; return STRING; }
 
 
    /* operators */
@@ -169,9 +169,9 @@ B'[01]+'     { yylval->strval = strdup(yytext); return STRING; }
 	 */
 COUNT/"("	{ return FCOUNT; }
 
-[A-Za-z][A-Za-z0-9_]*	{ yylval->strval = strdup(yytext);
+[A-Za-z][A-Za-z0-9_]*	{ if (!(yylval->strval = strdup(yytext))) return YYUNDEF;
                           return NAME; }
-`[^`/\\.\n]+`           { yylval->strval = strdup(yytext+1);
+`[^`/\\.\n]+`           { if (!(yylval->strval = strdup(yytext+1))) return YYUNDEF;
                           yylval->strval[yyleng-2] = 0;
                           return NAME; }
 
-- 
2.43.0


From 99827fe84da81691bd3146ad9c844d348d69b5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:57 +0000
Subject: [PATCH 59/68] fix: release the compiled regex when the match array
 can't be allocated

---
 src/lib/regex.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/regex.c b/src/lib/regex.c
index 8fd1bbf..6509872 100644
--- a/src/lib/regex.c
+++ b/src/lib/regex.c
@@ -20,7 +20,7 @@ bool regex_ext_match_grp(const char *text, const char *exp, struct stack *out)
 
 	matches = calloc(num_matches, sizeof(*matches));
 	if (!matches)
-		goto err;
+		goto err_matches;
 
 	if (regexec(&regex, text, num_matches, matches, 0))
 		goto err_regex;
@@ -55,9 +55,9 @@ err_stack:
 	free(match);
 err_regex:
 	/* out is owned (and released) by the caller */
-	regfree(&regex);
 	free(matches);
-err:
+err_matches:
+	regfree(&regex);
 	return false;
 
 }
-- 
2.43.0


From b9a28a1052c9e299c53eca1f8c73d68b6d8d6e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:57 +0000
Subject: [PATCH 60/68] fix: free the nodes that exist when a synthetic join
 can't be built

---
 src/engine/optimiser_select.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/engine/optimiser_select.c b/src/engine/optimiser_select.c
index 7ea86f5..2da4a1e 100644
--- a/src/engine/optimiser_select.c
+++ b/src/engine/optimiser_select.c
@@ -452,18 +452,18 @@ int wrap_on_join_node(struct ast_node *left, struct ast_node *right, struct ast_
 err_head:
 	free(join_node);
 err_node:
-err_onexpr:
 	/*ast_node is recursive so it will take care of cmp_node */
 	ast_free((struct ast_node*)onexpr_node);
 	return -MIDORIDB_INTERNAL;
-err_cmp:
+err_onexpr:
 	/*ast_node is recursive so it will take care of exprval */
 	ast_free((struct ast_node*)cmp_node);
 	return -MIDORIDB_INTERNAL;
-err_val_2:
+err_cmp:
 	ast_free((struct ast_node*)val_node_2);
-err_val_1:
+err_val_2:
 	ast_free((struct ast_node*)val_node_1);
+err_val_1:
 	return -MIDORIDB_INTERNAL;
 }
 
-- 
2.43.0


From 5fcecc459eee800bfbfdfd6b4a013166e2e1e443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:06 +0000
Subject: [PATCH 61/68] fix: take back a statement's rows when one of them
 can't be inserted

---
 src/engine/executor_insert.c | 34 +++++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/src/engine/executor_insert.c b/src/engine/executor_insert.c
index d2d5590..99a69b1 100644
--- a/src/engine/executor_insert.c
+++ b/src/engine/executor_insert.c
@@ -200,6 +200,29 @@ static void build_column_order(struct table *table, struct ast_ins_insvals_node
 	}
 }
 
+/* take back the rows inserted from that position (block and offset) on */
+static void undo_insert(struct table *table, struct datablock *blk, size_t offset, size_t row_size)
+{
+	struct list_head *pos;
+	struct row *row;
+
+	/* no block means that the table had none */
+	pos = blk ? &blk->head : table->datablock_head->next;
+
+	for (; pos != table->datablock_head; pos = pos->next) {
+		blk = list_entry(pos, typeof(*blk), head);
+
+		for (; offset + row_size <= DATABLOCK_PAGE_SIZE; offset += row_size) {
+			row = (struct row*)&blk->data[offset];
+
+			if (!row->flags.empty && !row->flags.deleted)
+				BUG_ON(!table_delete_row(table, blk, offset));
+		}
+
+		offset = 0;
+	}
+}
+
 int executor_run_insertvals_stmt(struct database *db, struct ast_ins_insvals_node *ins_node,
 		struct query_output *output)
 {
@@ -207,8 +230,9 @@ int executor_run_insertvals_stmt(struct database *db, struct ast_ins_insvals_nod
 	struct ast_node *entry;
 	struct table *table;
 	struct row *row;
+	struct datablock *last_blk = NULL;
 	char *rows = NULL;
-	size_t row_size;
+	size_t row_size, offset;
 	int row_idx = 0;
 	int column_order[TABLE_MAX_COLUMNS];
 	int rc = MIDORIDB_OK;
@@ -231,6 +255,7 @@ int executor_run_insertvals_stmt(struct database *db, struct ast_ins_insvals_nod
 
 	if (!rows) {
 		rc = -MIDORIDB_NOMEM;
+		snprintf(output->error.message, sizeof(output->error.message) - 1, "execution phase: out of memory\n");
 		goto err;
 	}
 
@@ -248,9 +273,16 @@ int executor_run_insertvals_stmt(struct database *db, struct ast_ins_insvals_nod
 		}
 	}
 
+	if (!list_is_empty(table->datablock_head))
+		last_blk = list_entry(table->datablock_head->prev, typeof(*last_blk), head);
+
+	offset = last_blk ? table->free_dtbkl_offset : 0;
+
 	for (int i = 0; i < row_idx; i++) {
 		if (!table_insert_row(table, (struct row*)(rows + i * row_size), row_size)) {
 			rc = -MIDORIDB_INTERNAL;
+			snprintf(output->error.message, sizeof(output->error.message) - 1, "execution phase: out of memory\n");
+			undo_insert(table, last_blk, offset, row_size);
 			goto err_ins_row;
 		}
 	}
-- 
2.43.0


From 9d050b17de89689c20a086258570bd3af33363ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:57 +0000
Subject: [PATCH 62/68] fix: move the children of merged B-tree nodes instead
 of copying them

---
 src/datastructure/btree.c | 51 ++++++---------------------------------
 1 file changed, 7 insertions(+), 44 deletions(-)

diff --git a/src/datastructure/btree.c b/src/datastructure/btree.c
index 0896e8f..8c2f79c 100644
--- a/src/datastructure/btree.c
+++ b/src/datastructure/btree.c
@@ -146,40 +146,6 @@ err_node:
 	return NULL;
 }
 
-static int __must_check btree_node_copy(struct btree_head *head, struct btree_node *dst, struct btree_node *src)
-{
-
-	int max_degree = btree_max_degree(head) + 1 /* sentinel node */;
-
-	dst->is_leaf = src->is_leaf;
-	dst->key_count = src->key_count;
-
-	if (!(dst->keys = calloc(max_degree, sizeof(struct btree_node_tuple))))
-		goto err;
-
-	memcpy(dst->keys, src->keys, max_degree * sizeof(struct btree_node_tuple));
-
-	if (!(dst->children = calloc(max_degree, sizeof(struct btree_node))))
-		goto err_children;
-
-	if (!src->is_leaf) {
-		for (int i = 0; i <= src->key_count; i++) {
-			if (btree_node_copy(head, &dst->children[i], &src->children[i]) != 0)
-				goto err_recur;
-		}
-	}
-
-	return 0;
-
-err_recur:
-	free(dst->children);
-err_children:
-	free(dst->keys);
-err:
-	printf("error while allocating mem");
-	return -MIDORIDB_NOMEM;
-}
-
 static int __must_check btree_split_child(struct btree_head *head, struct btree_node *x, int i)
 {
 	struct btree_node *y;
@@ -357,7 +323,6 @@ static struct btree_node_tuple btree_node_get_successor(struct btree_node *node,
 
 static int __must_check btree_node_merge(struct btree_head *head, struct btree_node *node, int idx)
 {
-	int ret = 0;
 	struct btree_node *child, *sibling;
 
 	child = &node->children[idx];
@@ -373,20 +338,18 @@ static int __must_check btree_node_merge(struct btree_head *head, struct btree_n
 		memzero(&sibling->keys[i], sizeof(struct btree_node_tuple));
 	}
 
-	// Copying the child pointers from C[idx+1] to C[idx]
+	// Moving the child pointers from C[idx+1] to C[idx]
 	if (!child->is_leaf) {
-		for (int i = 0; i <= sibling->key_count; ++i) {
-			if ((ret = btree_node_copy(head, &child->children[i + head->min_degree], &sibling->children[i]))
-					!= 0)
-				return ret;
-		}
+		for (int i = 0; i <= sibling->key_count; ++i)
+			child->children[i + head->min_degree] = sibling->children[i];
 	}
 
 	// Updating the key count of child and the current node
 	child->key_count += sibling->key_count + 1;
 
-	// Freeing the memory occupied by sibling
-	__btree_destroy(head, sibling);
+	// Freeing the memory occupied by sibling (its children live on in C[idx])
+	free(sibling->children);
+	free(sibling->keys);
 
 	// Moving all keys after idx in the current node one step before -
 	// to fill the gap created by moving keys[idx] to C[idx]
@@ -403,7 +366,7 @@ static int __must_check btree_node_merge(struct btree_head *head, struct btree_n
 
 	node->key_count--;
 
-	return ret;
+	return 0;
 }
 
 // A function to remove the idx-th key from this node - which is a non-leaf node
-- 
2.43.0


From 1c8f0bf2a43d25abfc25990600854a3a77cd86d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:42 +0000
Subject: [PATCH 63/68] fix: restore the B-tree's root when it can't be split

---
 src/datastructure/btree.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/datastructure/btree.c b/src/datastructure/btree.c
index 8c2f79c..80392ac 100644
--- a/src/datastructure/btree.c
+++ b/src/datastructure/btree.c
@@ -206,8 +206,13 @@ static struct btree_node* __must_check btree_split_root(struct btree_head *head)
 	free(head->root);
 	head->root = s;
 
-	if (btree_split_child(head, s, 0) != 0)
+	if (btree_split_child(head, s, 0) != 0) {
+		/* make the only child the root again */
+		head->root = &s->children[0];
+		free(s->keys);
+		free(s);
 		return NULL;
+	}
 
 	return s;
 
-- 
2.43.0


From f92b8b21d6539808b0643b7cbb9ace9746820b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:04 +0000
Subject: [PATCH 64/68] fix: release the columns copied so far when a row can't
 be copied

---
 src/engine/executor_select.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/engine/executor_select.c b/src/engine/executor_select.c
index 26d50a0..138c31b 100644
--- a/src/engine/executor_select.c
+++ b/src/engine/executor_select.c
@@ -1297,7 +1297,7 @@ static int proc_from_clause_table(struct database *db, struct ast_sel_table_node
 			init_count_cols(mattbl, new_row);
 
 			if (!table_insert_row(mattbl, new_row, new_row_size)) {
-				goto err_ins;
+				goto err_ptr;
 			}
 
 //			print_row(mattbl, new_row);
@@ -1308,9 +1308,8 @@ static int proc_from_clause_table(struct database *db, struct ast_sel_table_node
 
 	return MIDORIDB_OK;
 
-err_ins:
-	table_free_row_content(mattbl, new_row);
 err_ptr:
+	table_free_row_content(mattbl, new_row);
 	free(new_row);
 err:
 	return -MIDORIDB_INTERNAL;
-- 
2.43.0


From 533c552083530425e4aadd91bfc162341c9a68ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:08 +0000
Subject: [PATCH 65/68] fix: accept the second before the epoch as a DATETIME

---
 src/engine/executor_insert.c | 5 +++--
 src/parser/semantic_delete.c | 5 +++--
 src/parser/semantic_insert.c | 5 +++--
 src/parser/semantic_select.c | 5 +++--
 src/parser/semantic_update.c | 5 +++--
 5 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/engine/executor_insert.c b/src/engine/executor_insert.c
index 99a69b1..e918ec9 100644
--- a/src/engine/executor_insert.c
+++ b/src/engine/executor_insert.c
@@ -32,10 +32,11 @@ static int parse_date_type(struct ast_ins_exprval_node *exprval_node, enum COLUM
 		goto err_parse;
 
 	// Convert the time structure to a time_t value
+	time_struct.tm_wday = -1;
 	*time_out = mktime(&time_struct);
 
-	// Check if the conversion was successful
-	if (*time_out == -1)
+	// Check if the conversion was successful (-1 is a valid time too: the second before the epoch)
+	if (*time_out == -1 && time_struct.tm_wday == -1)
 		goto err_convert;
 
 	return rc;
diff --git a/src/parser/semantic_delete.c b/src/parser/semantic_delete.c
index a342433..f3f1f00 100644
--- a/src/parser/semantic_delete.c
+++ b/src/parser/semantic_delete.c
@@ -241,10 +241,11 @@ static bool try_parse_date_type(char *str, enum COLUMN_TYPE type)
 		return false;
 
 	// Convert the time structure to a time_t value
+	time_struct.tm_wday = -1;
 	time_out = mktime(&time_struct);
 
-	// Check if the conversion was successful
-	if (time_out == -1)
+	// Check if the conversion was successful (-1 is a valid time too: the second before the epoch)
+	if (time_out == -1 && time_struct.tm_wday == -1)
 		return false;
 
 	return true;
diff --git a/src/parser/semantic_insert.c b/src/parser/semantic_insert.c
index 7e5c74b..de22802 100644
--- a/src/parser/semantic_insert.c
+++ b/src/parser/semantic_insert.c
@@ -219,10 +219,11 @@ static bool try_parse_date_type(char *str, enum COLUMN_TYPE type)
 		return false;
 
 	// Convert the time structure to a time_t value
+	time_struct.tm_wday = -1;
 	time_out = mktime(&time_struct);
 
-	// Check if the conversion was successful
-	if (time_out == -1)
+	// Check if the conversion was successful (-1 is a valid time too: the second before the epoch)
+	if (time_out == -1 && time_struct.tm_wday == -1)
 		return false;
 
 	return true;
diff --git a/src/parser/semantic_select.c b/src/parser/semantic_select.c
index a9b1735..78af4dc 100644
--- a/src/parser/semantic_select.c
+++ b/src/parser/semantic_select.c
@@ -73,10 +73,11 @@ static bool try_parse_date_type(char *str, enum COLUMN_TYPE type)
 		return false;
 
 	// Convert the time structure to a time_t value
+	time_struct.tm_wday = -1;
 	time_out = mktime(&time_struct);
 
-	// Check if the conversion was successful
-	if (time_out == -1)
+	// Check if the conversion was successful (-1 is a valid time too: the second before the epoch)
+	if (time_out == -1 && time_struct.tm_wday == -1)
 		return false;
 
 	return true;
diff --git a/src/parser/semantic_update.c b/src/parser/semantic_update.c
index e71318f..d4707d7 100644
--- a/src/parser/semantic_update.c
+++ b/src/parser/semantic_update.c
@@ -305,10 +305,11 @@ static bool try_parse_date_type(char *str, enum COLUMN_TYPE type)
 		return false;
 
 	// Convert the time structure to a time_t value
+	time_struct.tm_wday = -1;
 	time_out = mktime(&time_struct);
 
-	// Check if the conversion was successful
-	if (time_out == -1)
+	// Check if the conversion was successful (-1 is a valid time too: the second before the epoch)
+	if (time_out == -1 && time_struct.tm_wday == -1)
 		return false;
 
 	return true;
-- 
2.43.0


From 9bf9e10a0f0af5ca60b22b5cbae95331c4e778b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:18 +0000
Subject: [PATCH 66/68] fix: names too long for any table or column were cut
 short and taken for another name

---
 src/parser/midorisql.y | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/src/parser/midorisql.y b/src/parser/midorisql.y
index 1742832..7c3fbe1 100644
--- a/src/parser/midorisql.y
+++ b/src/parser/midorisql.y
@@ -6,6 +6,7 @@
 
 %{
 #include <datastructure/queue.h>
+#include <primitive/table.h>
 
 void yyerror(struct queue*, void*, const char *, ...);
 bool emit(struct queue *q, char *s, ...);
@@ -143,6 +144,7 @@ int yylex(void*, void*);
 %type <intval> insert_vals insert_vals_list opt_col_names
 %type <intval> opt_if_not_exists update_asgn_list
 %type <intval> column_atts data_type create_col_list
+%type <strval> ref
 
 %start stmt_list
 
@@ -223,11 +225,11 @@ table_reference:  table_factor
   | join_table
   ;
 
-table_factor: NAME { emit(result, "TABLE %s", $1); free($1); $1 = NULL; } opt_as_alias  
+table_factor: ref { emit(result, "TABLE %s", $1); free($1); $1 = NULL; } opt_as_alias  
 	    ;
 
-opt_as_alias: AS NAME { emit (result, "ALIAS %s", $2); free($2); }
-  | NAME              { emit (result, "ALIAS %s", $1); free($1); }
+opt_as_alias: AS ref { emit (result, "ALIAS %s", $2); free($2); }
+  | ref               { emit (result, "ALIAS %s", $1); free($1); }
   | /* nil */
   ;
 
@@ -252,8 +254,19 @@ join_condition:
     ON expr { emit(result, "ONEXPR"); }
     ;
 
-expr: NAME          { emit(result, "NAME %s", $1); free($1); }
-   | NAME '.' NAME { emit(result, "FIELDNAME %s.%s", $1, $3); free($1); free($3); }
+/*
+ * names that are too long for anything to be called by them. Cutting them short, as the nodes of the AST do, would
+ * turn them into references to something else.
+ */
+ref: NAME {
+	if (strlen($1) > TABLE_MAX_NAME || strlen($1) > TABLE_MAX_COLUMN_NAME) {
+		yyerror(result, scanner, "name is too long: %s", $1); free($1); YYERROR;
+	}
+	$$ = $1; }
+   ;
+
+expr: ref           { emit(result, "NAME %s", $1); free($1); }
+   | ref '.' ref { emit(result, "FIELDNAME %s.%s", $1, $3); free($1); free($3); }
    | STRING        { emit(result, "STRING %s", $1); free($1); }
    | INTNUM        { emit(result, "NUMBER %" PRId64, $1); }
    | APPROXNUM     { emit(result, "FLOAT %.17g", $1); }
@@ -320,7 +333,7 @@ delete_stmt: DELETE FROM NAME del_opt_where { emit(result, "DELETEONE %s", $3);
 del_opt_where: /* nil */ 
 	     | WHERE delete_expr { emit(result, "WHERE"); };   
 
-delete_expr: NAME          { emit(result, "NAME %s", $1); free($1); }
+delete_expr: ref           { emit(result, "NAME %s", $1); free($1); }
 	   | STRING        { emit(result, "STRING %s", $1); free($1); }
 	   | INTNUM        { emit(result, "NUMBER %" PRId64, $1); }
 	   | APPROXNUM     { emit(result, "FLOAT %.17g", $1); }
@@ -405,10 +418,10 @@ update_stmt: UPDATE NAME
 ;
 
 update_asgn_list:
-     NAME COMPARISON update_expr 
+     ref COMPARISON update_expr 
        { if ($2 != 4) { yyerror(result, scanner, "bad insert assignment to %s", $1); free($1); YYERROR; }
 	 emit(result, "ASSIGN %s", $1); free($1); $$ = 1; }   
-   | update_asgn_list ',' NAME COMPARISON update_expr
+   | update_asgn_list ',' ref COMPARISON update_expr
        { if ($4 != 4) { yyerror(result, scanner, "bad insert assignment to %s", $3); free($3); YYERROR; }
 	 emit(result, "ASSIGN %s", $3); free($3); $$ = $1 + 1; }   
    ;
@@ -416,7 +429,7 @@ update_asgn_list:
 update_opt_where: /* nil */ 	{ $$ = 0; }
 	     | WHERE update_expr { emit(result, "WHERE"); $$ = 1;};   
 
-update_expr: NAME          { emit(result, "NAME %s", $1); free($1); }
+update_expr: ref           { emit(result, "NAME %s", $1); free($1); }
 	   | STRING        { emit(result, "STRING %s", $1); free($1); }
 	   | INTNUM        { emit(result, "NUMBER %" PRId64, $1); }
 	   | APPROXNUM     { emit(result, "FLOAT %.17g", $1); }
-- 
2.43.0


From 9689424ee3280d5d28a7bb260e0c4d5a19856aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:15 +0000
Subject: [PATCH 67/68] fix: quoted names with spaces or punctuation were taken
 for other names or terminated the process

---
 src/parser/midorisql.l | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser/midorisql.l b/src/parser/midorisql.l
index 3cfed2e..9f09627 100644
--- a/src/parser/midorisql.l
+++ b/src/parser/midorisql.l
@@ -171,10 +171,12 @@ COUNT/"("	{ return FCOUNT; }
 
 [A-Za-z][A-Za-z0-9_]*	{ if (!(yylval->strval = strdup(yytext))) return YYUNDEF;
                           return NAME; }
-`[^`/\\.\n]+`           { if (!(yylval->strval = strdup(yytext+1))) return YYUNDEF;
+`[A-Za-z0-9_]+`         { if (!(yylval->strval = strdup(yytext+1))) return YYUNDEF;
                           yylval->strval[yyleng-2] = 0;
                           return NAME; }
 
+	/* nothing can be called by these and the AST would take the part before the odd character for the name */
+`[^`\n]*`               { yyerror(NULL, yyscanner, "invalid name %s", yytext); return YYUNDEF; }
 `[^`\n]*$               { yyerror(NULL, yyscanner, "unterminated quoted name %s", yytext); return YYUNDEF; }
 
 
-- 
2.43.0


From 36fcf4df012e09ddb85d499df4d20bd71562a509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:17:21 +0000
Subject: [PATCH 68/68] fix: message of a scanner that can't be set up is
 handed over without its terminator

---
 src/parser/syntax.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/syntax.c b/src/parser/syntax.c
index 0674de5..d9cedb6 100644
--- a/src/parser/syntax.c
+++ b/src/parser/syntax.c
@@ -21,7 +21,7 @@ int syntax_parse(char *in, struct queue *out)
 
 	if (yylex_init(&sc)) {
 		res = errno;
-		if (!queue_offer(out, strerror(res), strlen(strerror(res))))
+		if (!queue_offer(out, strerror(res), strlen(strerror(res)) + 1))
 			fprintf(stderr, "error while gathering parser error \n");
 		return res;
 	}
-- 
2.43.0

