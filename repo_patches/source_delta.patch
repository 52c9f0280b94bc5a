From f8d6ffbf3659287979b919a424cd900a0e9e861e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:48 +0000
Subject: [PATCH 01/77] fix: report modulo by zero instead of crashing

'%' with a zero right operand (or INT64_MIN % -1) raised SIGFPE.
---
 src/eval.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/eval.c b/src/eval.c
index 2b9f9b2..f419711 100644
--- a/src/eval.c
+++ b/src/eval.c
@@ -494,7 +494,15 @@ static struct node *eval_node_oper_2(struct node *n) {
 
 		switch (n->data.as_oper.oper) {
 		case '%':
-			ret = node_new_int(leftn->data.as_int % rightn->data.as_int);
+			if (rightn->data.as_int == 0) {
+				error(error_type_out_of_range, "modulo by zero");
+				ret = NULL;
+			} else if (rightn->data.as_int == -1) {
+				// INT64_MIN % -1 would trap
+				ret = node_new_int(0);
+			} else {
+				ret = node_new_int(leftn->data.as_int % rightn->data.as_int);
+			}
 			break;
 		case SHL:
 			ret = node_new_int(leftn->data.as_int << rightn->data.as_int);
-- 
2.43.0


From 778bcf0d0a4a3942038082d5122cf1b49c8c0232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:03 +0000
Subject: [PATCH 02/77] fix: define shifts by any count

A shift count that was negative or greater than 63 was undefined behaviour:
1<<70 gave 64 on x86.  Negative counts are now an error, and shifting by the
integer width or more leaves only the bits shifted in.
---
 src/eval.c | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/eval.c b/src/eval.c
index f419711..91529ef 100644
--- a/src/eval.c
+++ b/src/eval.c
@@ -324,6 +324,25 @@ static struct node *eval_node_oper_1(struct node *n) {
 	return ret;
 }
 
+/* Shifts, defined for any count.  Shifting by the width of an integer or more
+ * leaves only the bits shifted in. */
+
+static int64_t shift_left(int64_t value, int64_t count) {
+	if (count < 0)
+		error(error_type_out_of_range, "negative shift count");
+	if (count < 0 || count > 63)
+		return 0;
+	return (int64_t)((uint64_t)value << count);
+}
+
+static int64_t shift_right(int64_t value, int64_t count) {
+	if (count < 0)
+		error(error_type_out_of_range, "negative shift count");
+	if (count < 0 || count > 63)
+		return (value < 0) ? -1 : 0;
+	return value >> count;
+}
+
 static struct node *eval_node_oper_2(struct node *n) {
 	struct node *leftn;
 	struct node *rightn;
@@ -505,10 +524,10 @@ static struct node *eval_node_oper_2(struct node *n) {
 			}
 			break;
 		case SHL:
-			ret = node_new_int(leftn->data.as_int << rightn->data.as_int);
+			ret = node_new_int(shift_left(leftn->data.as_int, rightn->data.as_int));
 			break;
 		case SHR:
-			ret = node_new_int(leftn->data.as_int >> rightn->data.as_int);
+			ret = node_new_int(shift_right(leftn->data.as_int, rightn->data.as_int));
 			break;
 		case '&':
 			ret = node_new_int(leftn->data.as_int & rightn->data.as_int);
-- 
2.43.0


From 67d7fab6876069af1285f3a0e029e2bde5d7db99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:03 +0000
Subject: [PATCH 03/77] fix: wrap integer arithmetic that overflows

Signed overflow in +, -, * and unary minus was undefined behaviour.
---
 src/eval.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/eval.c b/src/eval.c
index 91529ef..bba1d3c 100644
--- a/src/eval.c
+++ b/src/eval.c
@@ -279,7 +279,7 @@ static struct node *eval_node_oper_1(struct node *n) {
 	case '-':
 		switch (node_type_of(arg)) {
 		case node_type_int:
-			ret = node_new_int(-arg->data.as_int);
+			ret = node_new_int((int64_t)(-(uint64_t)arg->data.as_int));
 			break;
 		case node_type_float:
 			ret = node_new_float(-arg->data.as_float);
@@ -414,13 +414,13 @@ static struct node *eval_node_oper_2(struct node *n) {
 		if (int_only && n->data.as_oper.oper != '/') {
 			switch (n->data.as_oper.oper) {
 			case '*':
-				ret = node_new_int(leftn->data.as_int * rightn->data.as_int);
+				ret = node_new_int((int64_t)((uint64_t)leftn->data.as_int * (uint64_t)rightn->data.as_int));
 				break;
 			case '+':
-				ret = node_new_int(leftn->data.as_int + rightn->data.as_int);
+				ret = node_new_int((int64_t)((uint64_t)leftn->data.as_int + (uint64_t)rightn->data.as_int));
 				break;
 			case '-':
-				ret = node_new_int(leftn->data.as_int - rightn->data.as_int);
+				ret = node_new_int((int64_t)((uint64_t)leftn->data.as_int - (uint64_t)rightn->data.as_int));
 				break;
 			case '<':
 				ret = node_new_int(leftn->data.as_int < rightn->data.as_int);
-- 
2.43.0


From ace4c0e1f07e54d3d4da2b99ef8514cd70c85ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:37 +0000
Subject: [PATCH 04/77] fix: report floating point values too big for an
 integer

Casting a float outside the range of int64_t (e.g. "fdb 1/0") was undefined
behaviour and assembled as an arbitrary value.
---
 src/assemble.c | 14 ++++++++++----
 src/eval.c     | 18 ++++++++++++++++--
 src/eval.h     | 10 ++++++++++
 3 files changed, 36 insertions(+), 6 deletions(-)

diff --git a/src/assemble.c b/src/assemble.c
index f476ba1..40da9b0 100644
--- a/src/assemble.c
+++ b/src/assemble.c
@@ -263,7 +263,7 @@ static int64_t have_int_optional(struct node *args, int aindex, const char *op,
 		in = arga[aindex]->data.as_int;
 		break;
 	case node_type_float:
-		in = arga[aindex]->data.as_float;
+		in = float_to_int(arga[aindex]->data.as_float);
 		break;
 	}
 	return in;
@@ -608,7 +608,10 @@ static void pseudo_equ(struct prog_line *line) {
 		return;
 	struct node **arga = node_array_of(line->args);
 	set_label(line->label, node_ref(arga[0]), 0);
-	struct node *n = eval_int(arga[0]);
+	struct node *n = NULL;
+	if (node_type_of(arga[0]) != node_type_float ||
+	    float_fits_int(arga[0]->data.as_float))
+		n = eval_int(arga[0]);
 	if (n) {
 		listing_add_line(n->data.as_int & 0xffff, 0, NULL, line->text);
 		node_free(n);
@@ -624,7 +627,10 @@ static void pseudo_set(struct prog_line *line) {
 		return;
 	struct node **arga = node_array_of(line->args);
 	set_label(line->label, node_ref(arga[0]), 1);
-	struct node *n = eval_int(arga[0]);
+	struct node *n = NULL;
+	if (node_type_of(arga[0]) != node_type_float ||
+	    float_fits_int(arga[0]->data.as_float))
+		n = eval_int(arga[0]);
 	if (n) {
 		listing_add_line(n->data.as_int & 0xffff, 0, NULL, line->text);
 		node_free(n);
@@ -756,7 +762,7 @@ static void emit_formatted(char const *ins, int argn, struct node *n,
 		section_emit_uint8(n->data.as_int | or_last);
 		break;
 	case node_type_float:
-		section_emit_uint8((int32_t)n->data.as_float | or_last);
+		section_emit_uint8(float_to_int(n->data.as_float) | or_last);
 		break;
 	case node_type_string:
 		for (char const *c = n->data.as_string; *c; c++) {
diff --git a/src/eval.c b/src/eval.c
index bba1d3c..c370cfe 100644
--- a/src/eval.c
+++ b/src/eval.c
@@ -196,10 +196,24 @@ struct node *eval_float(struct node *n) {
 	return NULL;
 }
 
+/* Can a floating point value be truncated to an integer?  Casting one that's
+ * out of range is undefined. */
+
+_Bool float_fits_int(double v) {
+	return v >= -9223372036854775808.0 && v < 9223372036854775808.0;
+}
+
+int64_t float_to_int(double v) {
+	if (float_fits_int(v))
+		return v;
+	error(error_type_out_of_range, "floating point value can't be represented as an integer");
+	return 0;
+}
+
 struct node *eval_int(struct node *n) {
 	switch (node_type_of(n)) {
 	case node_type_float:
-		return node_set_attr(node_new_int(n->data.as_float), n->attr);
+		return node_set_attr(node_new_int(float_to_int(n->data.as_float)), n->attr);
 	case node_type_int:
 		return node_ref(n);
 	case node_type_string:
@@ -248,7 +262,7 @@ struct node *eval_int_free(struct node *n) {
 	}
 	if (n->type == node_type_float) {
 		n->type = node_type_int;
-		n->data.as_int = n->data.as_float;
+		n->data.as_int = float_to_int(n->data.as_float);
 		return n;
 	}
 	if (n->type == node_type_int)
diff --git a/src/eval.h b/src/eval.h
index ad85ed5..0266106 100644
--- a/src/eval.h
+++ b/src/eval.h
@@ -13,6 +13,8 @@ option) any later version.
 #ifndef ASM6809_EVAL_H_
 #define ASM6809_EVAL_H_
 
+#include <stdint.h>
+
 struct node;
 
 /* Evaluate a node. */
@@ -33,4 +35,12 @@ struct node *eval_int(struct node *n);
 struct node *eval_float_free(struct node *n);
 struct node *eval_int_free(struct node *n);
 
+/*
+ * Truncate a floating point value to an integer.  It's an error if it won't
+ * fit.
+ */
+
+_Bool float_fits_int(double v);
+int64_t float_to_int(double v);
+
 #endif
-- 
2.43.0


From 463d1629fcf21120238d51be523f97d25ffc5849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:55 +0000
Subject: [PATCH 05/77] fix: don't crash printing an empty symbol table

-s with a program defining no symbols dereferenced a NULL dictionary.
---
 src/symbol.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/symbol.c b/src/symbol.c
index b3ef68e..bddc29c 100644
--- a/src/symbol.c
+++ b/src/symbol.c
@@ -115,6 +115,8 @@ static void add_to_list(const char *key, struct node *value, struct slist **l) {
 
 struct slist *symbol_get_list(void) {
 	struct slist *l = NULL;
+	if (!symbols)
+		return NULL;
 	dict_foreach(symbols, (dict_iter_func)add_to_list, &l);
 	return l;
 }
-- 
2.43.0


From cc2d34549fb03386d5bc42e32adaeea4ed52f502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:09 +0000
Subject: [PATCH 06/77] fix: use the value given to --setdp

The option's value was ignored, and direct page 0 always assumed.
---
 src/asm6809.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/asm6809.c b/src/asm6809.c
index 55e2143..4a190aa 100644
--- a/src/asm6809.c
+++ b/src/asm6809.c
@@ -65,7 +65,7 @@ static struct option long_options[] = {
 	{ "6809", no_argument, &isa, asm6809_isa_6809 },
 	{ "6309", no_argument, &isa, asm6809_isa_6309 },
 	{ "define", required_argument, NULL, 'd' },
-	{ "setdp", required_argument, &setdp, 0 },
+	{ "setdp", required_argument, NULL, 'p' },
 	{ "max-passes", required_argument, NULL, 'P' },
 	{ "output", required_argument, NULL, 'o' },
 	{ "listing", required_argument, NULL, 'l' },
@@ -123,6 +123,21 @@ int main(int argc, char **argv) {
 		case 'd':
 			define_symbol(optarg);
 			break;
+		case 'p':
+			if (optarg[0] == '-') {
+				// negative number implies no valid DP
+				setdp = -1;
+			} else {
+				struct node *n = simple_parse_int(optarg);
+				if (!n) {
+					error(error_type_fatal, "invalid value for setdp");
+					error_print_list();
+					tidy_up_and_exit(EXIT_FAILURE);
+				}
+				setdp = n->data.as_int & 0xff;
+				node_free(n);
+			}
+			break;
 		case 'P':
 			{
 				long v = strtol(optarg, NULL, 0);
-- 
2.43.0


From 0c9d496292cd17f2c84d83fe842e520b5dd51bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:22 +0000
Subject: [PATCH 07/77] fix: assemble the right offset for address 0 relative
 to PCR

"leax 0,pcr" always assembled an offset of zero, as if it were ",pcr".
---
 src/instr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/instr.c b/src/instr.c
index 911c0c8..df19e91 100644
--- a/src/instr.c
+++ b/src/instr.c
@@ -292,7 +292,7 @@ static void instr_indexed2(_Bool indirect, struct node const *arg0, struct node
 	}
 
 	if (arg0_type == node_type_int && arg0_attr == node_attr_none
-	    && arg0->data.as_int == 0) {
+	    && arg0->data.as_int == 0 && !pcr) {
 		arg0_type = node_type_empty;
 	}
 
-- 
2.43.0


From 48bc8708731604dcf872602e8a0ac7ff3fd30b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:23 +0000
Subject: [PATCH 08/77] fix: give == and != lower precedence than relational
 operators

The manual lists < <= > >= above == and !=, but they were parsed the other way
around: "1 == 2 < 3" gave 0, not 1 == (2 < 3).
---
 src/grammar.y | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grammar.y b/src/grammar.y
index b679585..c967eb4 100644
--- a/src/grammar.y
+++ b/src/grammar.y
@@ -79,8 +79,8 @@ static void check_end_opcode(struct prog_line *line);
 %left '|'
 %left '^'
 %left '&'
-%left '<' LE '>' GE
 %left EQ NE
+%left '<' LE '>' GE
 %left SHL SHR
 %left '+' '-'
 %left '*' '/' '%'
-- 
2.43.0


From aa4538902eb60c5d06adf065b6c4de73e092f3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:44 +0000
Subject: [PATCH 09/77] fix: don't let a value out of range hide an
 inconsistency

Values out of range are only fatal once a pass is consistent, but one found
after an inconsistency in the same pass ended assembly early.
---
 src/error.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/error.c b/src/error.c
index 3d7e764..4aafc36 100644
--- a/src/error.c
+++ b/src/error.c
@@ -44,12 +44,17 @@ static struct slist **error_list_next = &error_list;
 
 static void verror(enum error_type type, const char *fmt, va_list ap) {
 	struct error *err = NULL;
-	if (type > error_level) {
-		error_level = type;
-	}
+	// an inconsistency takes precedence over anything out of range,
+	// whichever is found first
 	if (type == error_type_inconsistent &&
-	    error_level == error_type_out_of_range)
+	    error_level == error_type_out_of_range) {
 		error_level = error_type_inconsistent;
+	} else if (type == error_type_out_of_range &&
+		   error_level == error_type_inconsistent) {
+		// leave as is
+	} else if (type > error_level) {
+		error_level = type;
+	}
 	if (fmt) {
 		err = xmalloc(sizeof(*err));
 		err->type = type;
-- 
2.43.0


From 0e99a8fa5d69682d0cef99c9f7d2b28c2949a742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:45 +0000
Subject: [PATCH 10/77] fix: notice when only the PUT address of a section's
 end changes

The next section begins at the PUT address recorded for the end of the previous
one, but that was not updated if its PC had stayed the same.
---
 src/section.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/section.c b/src/section.c
index 38271b9..0bbcd51 100644
--- a/src/section.c
+++ b/src/section.c
@@ -143,7 +143,7 @@ static void verify_section(void *key, void *value, void *data) {
 	struct section *sect = value;
 	if (!sect)
 		return;
-	if (sect->last_pc != sect->pc) {
+	if (sect->last_pc != sect->pc || sect->last_put != sect->put) {
 		sect->last_pc = sect->pc;
 		sect->last_put = sect->put;
 		error(error_type_inconsistent, NULL);
-- 
2.43.0


From 71e24139c51d79f69e5386d2bc4fe52dfd9518fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:04 +0000
Subject: [PATCH 11/77] fix: clean up after a bad macro definition

A macro left unfinished at the end of a file, or ended with invalid arguments,
left a dangling definition context: a use after free or failed assertion when
the next definition or file was processed.
---
 src/assemble.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/assemble.c b/src/assemble.c
index 40da9b0..c887a11 100644
--- a/src/assemble.c
+++ b/src/assemble.c
@@ -570,6 +570,14 @@ next_line:
 		error(error_type_syntax, "IF not matched with ENDIF");
 	}
 
+	/* Don't leave a macro half-defined */
+	if (defining_macro_ctx) {
+		error(error_type_syntax, "unfinished macro");
+		prog_ctx_free(defining_macro_ctx);
+		defining_macro_ctx = NULL;
+	}
+	defining_macro_level = 0;
+
 	assert(prog_depth > 0);
 	prog_depth--;
 	prog_ctx_free(ctx);
@@ -1015,11 +1023,8 @@ static void pseudo_endm(struct prog_line *line) {
 	struct node **arga = node_array_of(line->args);
 	if (nargs > 1) {
 		error(error_type_syntax, "invalid number of arguments to ENDM");
-		return;
-	}
-	if (nargs > 0 && node_type_of(arga[0]) != node_type_string) {
+	} else if (nargs > 0 && node_type_of(arga[0]) != node_type_string) {
 		error(error_type_syntax, "invalid argument to ENDM");
-		return;
 	}
 	if (!defining_macro_ctx)
 		return;
-- 
2.43.0


From 29f7a198f69052a6f9997e2b20f70a02d26ed265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:05 +0000
Subject: [PATCH 12/77] fix: don't stop reading at a long comment or string

Once a single token filled flex's buffer to within one character, no more was
read, and the rest of the file was silently ignored.
---
 src/lex.l | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lex.l b/src/lex.l
index 3bddbf3..2063578 100644
--- a/src/lex.l
+++ b/src/lex.l
@@ -235,7 +235,9 @@ static _Bool need_eol = 1;
 static int read_line(char *buf, int max_size) {
 	if (!yyin)
 		return YY_NULL;
-	char *r = fgets(buf, max_size, yyin);
+	// max_size may be as low as 1, but flex always leaves room after that
+	// for two end-of-buffer characters
+	char *r = fgets(buf, max_size + 1, yyin);
 	if (!r) {
 		if (!feof(yyin)) {
 			error(error_type_fatal, "scanner read failed");
-- 
2.43.0


From 89ed664ec98dd6c0dbdfdc80ee5450abf5d83525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:49 +0000
Subject: [PATCH 13/77] fix: report NUL characters in source files

A line was cut short at any NUL, and one at the start of a line ended the file,
with no error.
---
 src/lex.l | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/lex.l b/src/lex.l
index 2063578..58c0915 100644
--- a/src/lex.l
+++ b/src/lex.l
@@ -237,14 +237,28 @@ static int read_line(char *buf, int max_size) {
 		return YY_NULL;
 	// max_size may be as low as 1, but flex always leaves room after that
 	// for two end-of-buffer characters
-	char *r = fgets(buf, max_size + 1, yyin);
-	if (!r) {
-		if (!feof(yyin)) {
-			error(error_type_fatal, "scanner read failed");
+	int c = EOF;
+	int len = 0;
+	while (len < max_size && (c = getc(yyin)) != EOF) {
+		if (c == 0) {
+			// would hide the rest of the line
+			error(error_type_fatal, "NUL in input");
+			return YY_NULL;
 		}
+		buf[len++] = c;
+		if (c == '\n')
+			break;
+	}
+	buf[len] = 0;
+	if (ferror(yyin)) {
+		error(error_type_fatal, "scanner read failed");
+		return YY_NULL;
+	}
+	if (len == 0) {
 		if (need_eol) {
 			buf[0] = '\n';
 			buf[1] = 0;
+			len = 1;
 		} else {
 			if (line) {
 				free(line);
@@ -255,7 +269,6 @@ static int read_line(char *buf, int max_size) {
 		}
 	}
 
-	int len = strlen(buf);
 	if (len > 1 && buf[len-1] == '\n' && buf[len-2] == '\r') {
 		buf[len-2] = '\n';
 		len--;
-- 
2.43.0


From 1dc3cebd6033bb0736c2812340417521081e0745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:50 +0000
Subject: [PATCH 14/77] fix: report failure to parse a file

Expressions nested too deeply for the parser ended parsing, and the rest of the
file was silently ignored.
---
 src/grammar.y | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/grammar.y b/src/grammar.y
index c967eb4..ade3e56 100644
--- a/src/grammar.y
+++ b/src/grammar.y
@@ -207,7 +207,9 @@ struct prog *grammar_parse_file(const char *filename) {
 	}
 	struct prog *prog = prog_new(prog_type_file, filename);
 	cur_ctx = prog_ctx_new(prog);
-	yyparse();
+	if (yyparse() != 0) {
+		error(error_type_fatal, "parser failed");
+	}
 	prog_ctx_free(cur_ctx);
 	cur_ctx = NULL;
 	if (yyin)
-- 
2.43.0


From afe8cd6ae2dc3e475d72f5b1d4fd2c4f6694e2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:15 +0000
Subject: [PATCH 15/77] fix: report failure to write any output file

An output file that couldn't be opened or written was silently skipped or left
incomplete, and asm6809 exited with success.
---
 src/asm6809.c | 18 ++++++------------
 src/output.c  | 37 +++++++++++++++++++++++++++----------
 src/output.h  |  9 +++++++++
 3 files changed, 42 insertions(+), 22 deletions(-)

diff --git a/src/asm6809.c b/src/asm6809.c
index 4a190aa..8a33564 100644
--- a/src/asm6809.c
+++ b/src/asm6809.c
@@ -230,12 +230,10 @@ int main(int argc, char **argv) {
 
 	/* Generate listing file */
 	if (listing_filename) {
-		FILE *listf = fopen(listing_filename, "wb");
+		FILE *listf = output_open(listing_filename);
 		if (listf) {
 			listing_print(listf);
-			fclose(listf);
-		} else {
-			error(error_type_fatal, "%s: %s", listing_filename, strerror(errno));
+			output_close(listf, listing_filename);
 		}
 	}
 
@@ -287,23 +285,19 @@ int main(int argc, char **argv) {
 
 	/* Generate exports file */
 	if (exports_filename) {
-		FILE *expf = fopen(exports_filename, "wb");
+		FILE *expf = output_open(exports_filename);
 		if (expf) {
 			prog_print_exports(expf);
-			fclose(expf);
-		} else {
-			error(error_type_fatal, "%s: %s", exports_filename, strerror(errno));
+			output_close(expf, exports_filename);
 		}
 	}
 
 	/* Generate symbols file */
 	if (symbol_filename) {
-		FILE *symf = fopen(symbol_filename, "wb");
+		FILE *symf = output_open(symbol_filename);
 		if (symf) {
 			prog_print_symbols(symf);
-			fclose(symf);
-		} else {
-			error(error_type_fatal, "%s: %s", symbol_filename, strerror(errno));
+			output_close(symf, symbol_filename);
 		}
 	}
 
diff --git a/src/output.c b/src/output.c
index a68f2ec..0e624e6 100644
--- a/src/output.c
+++ b/src/output.c
@@ -13,9 +13,11 @@ option) any later version.
 #include "config.h"
 
 #include <assert.h>
+#include <errno.h>
 #include <stdint.h>
 #include <stdio.h>
 #include <stdlib.h>
+#include <string.h>
 
 #include "error.h"
 #include "eval.h"
@@ -25,6 +27,21 @@ option) any later version.
 #include "slist.h"
 #include "symbol.h"
 
+/* Open and close an output file, reporting any failure to open or write it. */
+
+FILE *output_open(const char *filename) {
+	FILE *f = fopen(filename, "wb");
+	if (!f)
+		error(error_type_fatal, "%s: %s", filename, strerror(errno));
+	return f;
+}
+
+void output_close(FILE *f, const char *filename) {
+	_Bool failed = ferror(f);
+	if (fclose(f) != 0 || failed)
+		error(error_type_fatal, "%s: write failed", filename);
+}
+
 /* Helper that dumps a single binary blob to file. */
 
 static void write_single_binary(FILE *f, struct section_span *span) {
@@ -48,7 +65,7 @@ static int get_exec_addr(void) {
 /* Output format: Plain binary.  All coalesced into one big blob. */
 
 void output_binary(const char *filename) {
-	FILE *f = fopen(filename, "wb");
+	FILE *f = output_open(filename);
 	if (!f)
 		return;
 
@@ -59,7 +76,7 @@ void output_binary(const char *filename) {
 	}
 
 	section_free(sect);
-	fclose(f);
+	output_close(f, filename);
 }
 
 /* Output format: DragonDOS binary. */
@@ -67,7 +84,7 @@ void output_binary(const char *filename) {
 void output_dragondos(const char *filename) {
 	int exec_addr = get_exec_addr();
 
-	FILE *f = fopen(filename, "wb");
+	FILE *f = output_open(filename);
 	if (!f)
 		return;
 
@@ -96,7 +113,7 @@ void output_dragondos(const char *filename) {
 		write_single_binary(f, span);
 
 	section_free(sect);
-	fclose(f);
+	output_close(f, filename);
 }
 
 /* Output format: CoCo RSDOS binary. */
@@ -110,7 +127,7 @@ void output_dragondos(const char *filename) {
 void output_coco(const char *filename) {
 	int exec_addr = get_exec_addr();
 
-	FILE *f = fopen(filename, "wb");
+	FILE *f = output_open(filename);
 	if (!f)
 		return;
 
@@ -137,7 +154,7 @@ void output_coco(const char *filename) {
 	fputc(exec_addr  & 0xff, f);
 
 	section_free(sect);
-	fclose(f);
+	output_close(f, filename);
 }
 
 /* Output format: Motorola SREC. */
@@ -145,7 +162,7 @@ void output_coco(const char *filename) {
 void output_motorola_srec(const char *filename) {
 	int exec_addr = get_exec_addr();
 
-	FILE *f = fopen(filename, "wb");
+	FILE *f = output_open(filename);
 	if (!f)
 		return;
 
@@ -180,7 +197,7 @@ void output_motorola_srec(const char *filename) {
         }
 
 	section_free(sect);
-	fclose(f);
+	output_close(f, filename);
 }
 
 /* Output format: Intel HEX. */
@@ -188,7 +205,7 @@ void output_motorola_srec(const char *filename) {
 void output_intel_hex(const char *filename) {
 	int exec_addr = get_exec_addr();
 
-	FILE *f = fopen(filename, "wb");
+	FILE *f = output_open(filename);
 	if (!f)
 		return;
 
@@ -223,5 +240,5 @@ void output_intel_hex(const char *filename) {
 	}
 
 	section_free(sect);
-	fclose(f);
+	output_close(f, filename);
 }
diff --git a/src/output.h b/src/output.h
index ed9ffba..28890e5 100644
--- a/src/output.h
+++ b/src/output.h
@@ -13,6 +13,15 @@ option) any later version.
 #ifndef ASM6809_OUTPUT_H_
 #define ASM6809_OUTPUT_H_
 
+#include <stdio.h>
+
+/*
+ * Open and close an output file, reporting any failure to open or write it.
+ */
+
+FILE *output_open(const char *filename);
+void output_close(FILE *f, const char *filename);
+
 /*
  * Write assembled data to a variety of output formats.
  */
-- 
2.43.0


From 6877fade317b595dae48ae6f9afe1fc09fb805a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:25 +0000
Subject: [PATCH 16/77] fix: report read errors from INCLUDEBIN

A file that couldn't be read (a directory, for one) was included as if empty, or
as far as it was read.
---
 src/assemble.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/assemble.c b/src/assemble.c
index c887a11..5392266 100644
--- a/src/assemble.c
+++ b/src/assemble.c
@@ -986,6 +986,8 @@ static void pseudo_includebin(struct prog_line *line) {
 	while ((c = fgetc(f)) != EOF) {
 		section_emit_uint8(c);
 	}
+	if (ferror(f))
+		error(error_type_fatal, "read failed: %s", arga[0]->data.as_string);
 	fclose(f);
 }
 
-- 
2.43.0


From 408364ec1462d3a41fa9bab636807ad84a270e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:40 +0000
Subject: [PATCH 17/77] fix: reject addresses and sizes that would be truncated

ORG, PUT and RMB values were silently truncated to 32 bits, a PUT address near
2^32 could overflow the buffer being padded, and RZB, FILL or ALIGN with a huge
count exhausted memory recording an error for each byte.
---
 src/assemble.c | 42 ++++++++++++++++++++++++++++++++++--------
 src/section.c  |  2 +-
 src/section.h  |  9 +++++++++
 3 files changed, 44 insertions(+), 9 deletions(-)

diff --git a/src/assemble.c b/src/assemble.c
index 5392266..c8ce9c9 100644
--- a/src/assemble.c
+++ b/src/assemble.c
@@ -653,6 +653,10 @@ static void pseudo_org(struct prog_line *line) {
 	if (verify_num_args(line->args, 1, 1, "ORG") < 0)
 		return;
 	long new_pc = have_int_required(line->args, 0, "ORG", cur_section->pc);
+	if (new_pc < SECTION_MIN_ADDR || new_pc > SECTION_MAX_ADDR) {
+		error(error_type_out_of_range, "invalid address for ORG");
+		return;
+	}
 	cur_section->pc = new_pc;
 	if (new_pc >= 0)
 		cur_section->put = new_pc;
@@ -700,6 +704,10 @@ static void pseudo_put(struct prog_line *line) {
 		error(error_type_out_of_range, "invalid negative address for PUT");
 		return;
 	}
+	if (new_put > SECTION_MAX_ADDR) {
+		error(error_type_out_of_range, "invalid address for PUT");
+		return;
+	}
 	cur_section->put = new_put;
 }
 
@@ -881,6 +889,25 @@ static void pseudo_fqb(struct prog_line *line) {
 	}
 }
 
+/* Emit or skip a number of bytes that may be too large for the address space:
+ * there's no need to go on once an error has been raised. */
+
+static void fill_bytes(uint8_t value, long count) {
+	for (long i = 0; i < count; i++) {
+		section_emit_uint8(value);
+		if (cur_section->pc > 0x10000)
+			break;
+	}
+}
+
+static void skip_bytes(long count) {
+	if (count > SECTION_MAX_ADDR - cur_section->pc) {
+		error(error_type_out_of_range, "reserving beyond addressable memory");
+		return;
+	}
+	section_skip(count);
+}
+
 /* RZB.  Reserve zero bytes.  Additional argument specifies a non-zero fill
  * value. */
 
@@ -892,8 +919,7 @@ static void pseudo_rzb(struct prog_line *line) {
 	if (count < 0) {
 		error(error_type_out_of_range, "negative count for RZB");
 	}
-	for (long i = 0; i < count; i++)
-		section_emit_uint8(fill);
+	fill_bytes(fill, count);
 }
 
 /* FILL.  Effectively an arg-swapped version of the two-arg form of RZB. */
@@ -906,8 +932,7 @@ static void pseudo_fill(struct prog_line *line) {
 	if (count < 0) {
 		error(error_type_out_of_range, "negative count for FILL");
 	}
-	for (long i = 0; i < count; i++)
-		section_emit_uint8(fill);
+	fill_bytes(fill, count);
 }
 
 /* RMB.  Reserve memory. */
@@ -920,7 +945,7 @@ static void pseudo_rmb(struct prog_line *line) {
 		error(error_type_out_of_range, "negative argument to RMB");
 		return;
 	}
-	section_skip(count);
+	skip_bytes(count);
 }
 
 /* ALIGN.  Pad to aligned address. */
@@ -937,10 +962,9 @@ static void pseudo_align(struct prog_line *line) {
 	}
 	long count = (align - (cur_section->pc % align)) % align;
 	if (nargs < 2) {
-		section_skip(count);
+		skip_bytes(count);
 	} else {
-		for (long i = 0; i < count; i++)
-			section_emit_uint8(fill);
+		fill_bytes(fill, count);
 	}
 }
 
@@ -985,6 +1009,8 @@ static void pseudo_includebin(struct prog_line *line) {
 	int c;
 	while ((c = fgetc(f)) != EOF) {
 		section_emit_uint8(c);
+		if (cur_section->pc > 0x10000)
+			break;
 	}
 	if (ferror(f))
 		error(error_type_fatal, "read failed: %s", arga[0]->data.as_string);
diff --git a/src/section.c b/src/section.c
index 0bbcd51..85e96c3 100644
--- a/src/section.c
+++ b/src/section.c
@@ -269,7 +269,7 @@ static void section_emit(uint8_t const *buf, int nbytes) {
 	}
 	span->size += nbytes;
 
-	if (cur_section->pc > 0x10000) {
+	if (cur_section->pc > 0x10000 || cur_section->put > 2 * SECTION_MAX_ADDR) {
 		error(error_type_out_of_range, "assembling beyond addressable memory");
 	}
 }
diff --git a/src/section.h b/src/section.h
index 946afb3..d976c8b 100644
--- a/src/section.h
+++ b/src/section.h
@@ -31,6 +31,15 @@ option) any later version.
  * - size: Amount of consecutive bytes in span.  Increased by section_emit().
  */
 
+/*
+ * Limits for any address.  Code can only be assembled to a 64K address space,
+ * but a program may use larger values (e.g. to describe banked memory), and
+ * negative ones to define symbols.
+ */
+
+#define SECTION_MIN_ADDR (-0x10000)
+#define SECTION_MAX_ADDR (0x1000000)
+
 struct section_span {
 	unsigned ref;
 	unsigned sequence;  // used for resolving overlaps when coalescing
-- 
2.43.0


From d14d55b1976268f44b66e9f7b8c4e67efdf71d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:01 +0000
Subject: [PATCH 18/77] fix: reject data that an output format can't represent

Addresses beyond $FFFF made malformed S-records and Intel hex, and were
truncated to 16 bits in DragonDOS and CoCo headers, as was a size of 64K.
---
 src/output.c | 49 ++++++++++++++++++++++++++++++++++---------------
 1 file changed, 34 insertions(+), 15 deletions(-)

diff --git a/src/output.c b/src/output.c
index 0e624e6..3513647 100644
--- a/src/output.c
+++ b/src/output.c
@@ -62,6 +62,20 @@ static int get_exec_addr(void) {
 	return ret;
 }
 
+/* Helper to check that data can be described by a format with 16-bit addresses.
+ * Reports an error if not. */
+
+static _Bool fits_16bit(struct section *sect, unsigned max_size) {
+	for (struct slist *l = sect->spans; l; l = l->next) {
+		struct section_span *span = l->data;
+		if (span->put + span->size > 0x10000 || span->size > max_size) {
+			error(error_type_data, "data at $%04X doesn't fit in output format", span->put);
+			return 0;
+		}
+	}
+	return 1;
+}
+
 /* Output format: Plain binary.  All coalesced into one big blob. */
 
 void output_binary(const char *filename) {
@@ -84,11 +98,13 @@ void output_binary(const char *filename) {
 void output_dragondos(const char *filename) {
 	int exec_addr = get_exec_addr();
 
-	FILE *f = output_open(filename);
-	if (!f)
+	struct section *sect = section_coalesce_all(1);
+	FILE *f = fits_16bit(sect, 0xffff) ? output_open(filename) : NULL;
+	if (!f) {
+		section_free(sect);
 		return;
+	}
 
-	struct section *sect = section_coalesce_all(1);
 	struct section_span *span = NULL;
 	unsigned put = 0;
 	unsigned size = 0;
@@ -127,11 +143,12 @@ void output_dragondos(const char *filename) {
 void output_coco(const char *filename) {
 	int exec_addr = get_exec_addr();
 
-	FILE *f = output_open(filename);
-	if (!f)
-		return;
-
 	struct section *sect = section_coalesce_all(0);
+	FILE *f = fits_16bit(sect, 0xffff) ? output_open(filename) : NULL;
+	if (!f) {
+		section_free(sect);
+		return;
+	}
 
 	for (struct slist *l = sect->spans; l; l = l->next) {
 		struct section_span *span = l->data;
@@ -162,11 +179,12 @@ void output_coco(const char *filename) {
 void output_motorola_srec(const char *filename) {
 	int exec_addr = get_exec_addr();
 
-	FILE *f = output_open(filename);
-	if (!f)
-		return;
-
 	struct section *sect = section_coalesce_all(0);
+	FILE *f = fits_16bit(sect, 0x10000) ? output_open(filename) : NULL;
+	if (!f) {
+		section_free(sect);
+		return;
+	}
 
 	for (struct slist *l = sect->spans; l; l = l->next) {
 		struct section_span *span = l->data;
@@ -205,11 +223,12 @@ void output_motorola_srec(const char *filename) {
 void output_intel_hex(const char *filename) {
 	int exec_addr = get_exec_addr();
 
-	FILE *f = output_open(filename);
-	if (!f)
-		return;
-
 	struct section *sect = section_coalesce_all(0);
+	FILE *f = fits_16bit(sect, 0x10000) ? output_open(filename) : NULL;
+	if (!f) {
+		section_free(sect);
+		return;
+	}
 
 	for (struct slist *l = sect->spans; l; l = l->next) {
 		struct section_span *span = l->data;
-- 
2.43.0


From f08fe55187f5527a3620d31a0b12e2151aca3137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:14 +0000
Subject: [PATCH 19/77] fix: reject PCR and Q in inter-register instructions

Neither has a code for use in a TFR or EXG postbyte, so one was made up from -1.
Operands not yet defined left the postbyte uninitialised.
---
 src/instr.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/instr.c b/src/instr.c
index df19e91..5b75b4b 100644
--- a/src/instr.c
+++ b/src/instr.c
@@ -536,14 +536,18 @@ void instr_pair(struct opcode const *op, struct node const *args) {
 		return;
 	}
 
-	int nibble[2];
+	int nibble[2] = { 0, 0 };
 	int type[2];
-	int size[2];
+	int size[2] = { 16 | 8, 16 | 8 };
 	for (int i = 0; i < 2; i++) {
 		type[i] = node_type_of(arga[i]);
 		if (type[i] == node_type_reg) {
 			nibble[i] = reg_tfr_nibble[arga[i]->data.as_reg];
 			size[i] = reg_tfr_size[arga[i]->data.as_reg];
+			if (nibble[i] < 0) {
+				error(error_type_syntax, "invalid register in inter-register op");
+				return;
+			}
 		} else if (type[i] == node_type_int) {
 			int v = arga[i]->data.as_int;
 			if (v == 0 && asm6809_options.isa == asm6809_isa_6309) {
@@ -585,7 +589,7 @@ void instr_tfm(struct opcode const *op, struct node const *args) {
 		return;
 	}
 
-	int nibble[2];
+	int nibble[2] = { 0, 0 };
 	int type[2];
 	int attr[2];
 	for (int i = 0; i < 2; i++) {
-- 
2.43.0


From 6b9a17118b9a675051b91267bd12057d5d4cc399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:39 +0000
Subject: [PATCH 20/77] fix: reject operands of the wrong type

A register or other unexpected operand (e.g. "lda x", "ldx #x", "bra x") was
treated like an undefined symbol, but with no error: it assembled as an address
of PC or an offset or value of zero.
---
 src/instr.c | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/instr.c b/src/instr.c
index 5b75b4b..39d7b5e 100644
--- a/src/instr.c
+++ b/src/instr.c
@@ -55,6 +55,9 @@ void instr_immediate(struct opcode const *op, struct node const *args) {
 	}
 	section_emit_op(op->immediate);
 	struct node *tmp = eval_int(arga[0]);
+	if (!tmp && arga[0]) {
+		error(error_type_syntax, "invalid immediate value");
+	}
 	uint32_t value = 0;
 	if (tmp) {
 		value = tmp->data.as_int;
@@ -95,6 +98,8 @@ void instr_rel(struct opcode const *op, struct node const *args) {
 	}
 	section_emit_op(op->immediate);
 	if (node_type_of(arga[0]) != node_type_int) {
+		if (node_type_of(arga[0]) != node_type_undef)
+			error(error_type_syntax, "invalid branch target");
 		if ((op->type & OPCODE_EXT_TYPE) == OPCODE_REL8)
 			section_emit_pad(1);
 		else
@@ -438,6 +443,10 @@ void instr_address(struct opcode const *op, struct node const *args, int imm8_va
 	}
 
 	struct node *arg = eval_int(arga[0]);
+	if (!arg && arga[0]) {
+		error(error_type_syntax, "invalid addressing mode");
+		return;
+	}
 	enum node_attr attr = node_attr_16bit;
 	unsigned addr = cur_section->pc;
 	if (arg) {
@@ -482,8 +491,13 @@ void instr_imm8_mem(struct opcode const *op, struct node const *args) {
 		return;
 	}
 	int imm8_val = 0;
-	if (node_type_of(arga[0]) == node_type_int)
-		imm8_val = arga[0]->data.as_int;
+	struct node *tmp = eval_int(arga[0]);
+	if (!tmp && arga[0])
+		error(error_type_syntax, "invalid immediate value");
+	if (tmp) {
+		imm8_val = tmp->data.as_int;
+		node_free(tmp);
+	}
 	struct node *newa = node_new_array();
 	newa->data.as_array.nargs = nargs - 1;
 	newa->data.as_array.args = arga + 1;
@@ -690,6 +704,12 @@ void instr_reg_mem(struct opcode const *op, struct node const *args) {
 		}
 	}
 
+	for (int i = 1; i < 4; i++) {
+		if (node_type_of(arga[i]) != node_type_int &&
+		    node_type_of(arga[i]) != node_type_undef)
+			error(error_type_syntax, "invalid argument");
+	}
+
 	section_emit_op(op->direct);
 	section_emit_uint8(pbyte);
 	if (node_type_of(arga[3]) == node_type_int) {
-- 
2.43.0


From b79173fe844d12cd07215920aea3677e95ecc965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:22 +0000
Subject: [PATCH 21/77] fix: don't ignore invalid operands in expressions

Two strings used with any but a relational operator, a string as the condition
of ?:, or a register as any operand gave no value and no error, so assembled as
zero or PC.  Strings now act as integers, as documented, and anything else is an
error.
---
 src/eval.c | 38 +++++++++++++++++++++++++++++++++++++-
 1 file changed, 37 insertions(+), 1 deletion(-)

diff --git a/src/eval.c b/src/eval.c
index c370cfe..d990da9 100644
--- a/src/eval.c
+++ b/src/eval.c
@@ -273,6 +273,16 @@ struct node *eval_int_free(struct node *n) {
 
 // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
 
+static struct node *string_to_int_free(struct node *n) {
+	struct node *ret = eval_int(n);
+	node_free(n);
+	return ret;
+}
+
+static void bad_operand(void) {
+	error(error_type_syntax, "invalid operand in expression");
+}
+
 static struct node *eval_node_oper_1(struct node *n) {
 	struct node *ret = NULL;
 	struct node *arg;
@@ -299,6 +309,7 @@ static struct node *eval_node_oper_1(struct node *n) {
 			ret = node_new_float(-arg->data.as_float);
 			break;
 		default:
+			bad_operand();
 			break;
 		}
 		break;
@@ -309,6 +320,7 @@ static struct node *eval_node_oper_1(struct node *n) {
 		case node_type_float:
 			return arg;
 		default:
+			bad_operand();
 			break;
 		}
 		break;
@@ -326,6 +338,8 @@ static struct node *eval_node_oper_1(struct node *n) {
 		arg = eval_int_free(arg);
 		if (arg) {
 			ret = node_new_int(~arg->data.as_int);
+		} else {
+			bad_operand();
 		}
 		break;
 
@@ -386,6 +400,19 @@ static struct node *eval_node_oper_2(struct node *n) {
 
 	_Bool string_op = (leftn->type == node_type_string && rightn->type == node_type_string);
 
+	/* Otherwise, strings are used in place of integers */
+	switch (n->data.as_oper.oper) {
+	case '<': case LE: case '>': case GE: case EQ: case NE:
+		break;
+	default:
+		if (string_op) {
+			leftn = string_to_int_free(leftn);
+			rightn = string_to_int_free(rightn);
+			string_op = 0;
+		}
+		break;
+	}
+
 	if (string_op) {
 		/* Certain operations can be performed on strings */
 		switch (n->data.as_oper.oper) {
@@ -464,10 +491,12 @@ static struct node *eval_node_oper_2(struct node *n) {
 		}
 
 		if (!(leftn = eval_float_free(leftn))) {
+			bad_operand();
 			node_free(rightn);
 			return NULL;
 		}
 		if (!(rightn = eval_float_free(rightn))) {
+			bad_operand();
 			node_free(leftn);
 			return NULL;
 		}
@@ -517,10 +546,12 @@ static struct node *eval_node_oper_2(struct node *n) {
 	case LAND: case LOR:
 
 		if (!(leftn = eval_int_free(leftn))) {
+			bad_operand();
 			node_free(rightn);
 			return NULL;
 		}
 		if (!(rightn = eval_int_free(rightn))) {
+			bad_operand();
 			node_free(leftn);
 			return NULL;
 		}
@@ -588,8 +619,13 @@ static struct node *eval_node_oper_3(struct node *n) {
 	if (!(condn = eval_node(n->data.as_oper.args[0])))
 		return NULL;
 
-	if (!(condn = eval_int_free(condn)))
+	if (node_type_of(condn) == node_type_string)
+		condn = string_to_int_free(condn);
+
+	if (!(condn = eval_int_free(condn))) {
+		bad_operand();
 		return NULL;
+	}
 
 	if (condn->data.as_int != 0) {
 		ret = eval_node(n->data.as_oper.args[1]);
-- 
2.43.0


From 6790cb68c1117cdced1b04ea80ee69ff46e47caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:38 +0000
Subject: [PATCH 22/77] fix: check the type of an EXEC address

A symbol or END argument that wasn't an integer was read as one regardless,
making the EXEC address anything, such as part of a pointer.
---
 src/asm6809.c  | 7 ++++++-
 src/assemble.c | 6 +++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/asm6809.c b/src/asm6809.c
index 8a33564..6d2b648 100644
--- a/src/asm6809.c
+++ b/src/asm6809.c
@@ -26,6 +26,7 @@ option) any later version.
 #include "asm6809.h"
 #include "assemble.h"
 #include "error.h"
+#include "eval.h"
 #include "listing.h"
 #include "node.h"
 #include "opcode.h"
@@ -243,10 +244,14 @@ int main(int argc, char **argv) {
 		struct node *n = simple_parse_int(exec_option);
 		if (!n) {
 			unsigned v = 0;
-			struct node *tmp = symbol_get(exec_option);
+			struct node *sym = symbol_get(exec_option);
+			struct node *tmp = eval_int(sym);
+			node_free(sym);
 			if (tmp) {
 				v = tmp->data.as_int & 0xffff;
 				node_free(tmp);
+			} else if (sym) {
+				error(error_type_fatal, "exec symbol '%s' not an integer", exec_option);
 			} else {
 				error(error_type_fatal, "exec symbol '%s' not defined", exec_option);
 			}
diff --git a/src/assemble.c b/src/assemble.c
index c8ce9c9..e640161 100644
--- a/src/assemble.c
+++ b/src/assemble.c
@@ -1067,7 +1067,11 @@ static void pseudo_end(struct prog_line *line) {
 	if (nargs < 1)
 		return;
 	struct node **arga = node_array_of(line->args);
-	symbol_set(".exec", arga[0], asm_pass, 0);
+	struct node *n = eval_int(arga[0]);
+	if (!n && arga[0])
+		error(error_type_syntax, "invalid argument to END");
+	symbol_set(".exec", n, asm_pass, 0);
+	node_free(n);
 }
 
 /* Ignore certain historical pseudo-ops */
-- 
2.43.0


From 5f0a3568befaf57aed6daff2882279f9f6f4f9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:58 +0000
Subject: [PATCH 23/77] fix: omit the EXEC address from symbol tables

It's kept as a symbol named ".exec", which isn't valid in source: a symbols file
listing it could not be included.
---
 src/program.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/program.c b/src/program.c
index 6e064d0..d3ec26f 100644
--- a/src/program.c
+++ b/src/program.c
@@ -223,6 +223,9 @@ void prog_free_exports(void) {
 }
 
 static void print_symbol(const char *key, FILE *f) {
+	// internal symbols can't be defined in source
+	if (*key == '.')
+		return;
 	struct node *sym = symbol_get(key);
 	if (sym) {
 		struct node *n = eval_node(sym);
-- 
2.43.0


From 6b986879b448dce715cece754a0f85fc807ef057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:59 +0000
Subject: [PATCH 24/77] fix: write all operators correctly in exported macros

Relational and logical operators were written as the low byte of their token
number, and ?: expressions as "()".  Modulo or bitwise AND could be read back as
part of their right operand.
---
 src/node.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/node.c b/src/node.c
index 0d7af50..cd717cb 100644
--- a/src/node.c
+++ b/src/node.c
@@ -295,6 +295,12 @@ static const char *opstr(int op) {
 	switch (op) {
 	case SHL: return "<<";
 	case SHR: return ">>";
+	case LE: return "<=";
+	case GE: return ">=";
+	case EQ: return "==";
+	case NE: return "!=";
+	case LAND: return "&&";
+	case LOR: return "||";
 	default: str[0] = op; str[1] = 0; break;
 	}
 	return str;
@@ -384,9 +390,17 @@ void node_print(FILE *f, struct node const *n) {
 			fprintf(f, "%s", opstr(n->data.as_oper.oper));
 			node_print(f, n->data.as_oper.args[0]);
 		} else if (n->data.as_oper.nargs == 2) {
+			// without spaces, "%" followed by a digit is a binary
+			// number, and "&" can introduce a positional variable
 			node_print(f, n->data.as_oper.args[0]);
-			fprintf(f, "%s", opstr(n->data.as_oper.oper));
+			fprintf(f, " %s ", opstr(n->data.as_oper.oper));
+			node_print(f, n->data.as_oper.args[1]);
+		} else if (n->data.as_oper.nargs == 3) {
+			node_print(f, n->data.as_oper.args[0]);
+			fprintf(f, " ? ");
 			node_print(f, n->data.as_oper.args[1]);
+			fprintf(f, " : ");
+			node_print(f, n->data.as_oper.args[2]);
 		}
 		fprintf(f, ")");
 		break;
-- 
2.43.0


From c613631369020d350bba3898c629dcbc00a30374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:32 +0000
Subject: [PATCH 25/77] fix: write strings and floats so they can be read back

---
 src/node.c    | 47 ++++++++++++++++++++++++++++++++++++++++++++---
 src/node.h    |  1 +
 src/program.c | 17 ++++++++++-------
 3 files changed, 55 insertions(+), 10 deletions(-)

diff --git a/src/node.c b/src/node.c
index cd717cb..3f5c0a8 100644
--- a/src/node.c
+++ b/src/node.c
@@ -19,6 +19,7 @@ option) any later version.
 #include <string.h>
 
 #include "xalloc.h"
+#include "xvasprintf.h"
 
 #include "error.h"
 #include "node.h"
@@ -306,6 +307,36 @@ static const char *opstr(int op) {
 	return str;
 }
 
+/* Print a string such that when read back in between "/" delimiters, it yields
+ * the same value. */
+
+void node_print_escaped(FILE *f, const char *s) {
+	for (; s && *s; s++) {
+		switch (*s) {
+		case '\n': fprintf(f, "\\n"); break;
+		case '\r': fprintf(f, "\\r"); break;
+		case '&': fprintf(f, "&&"); break;
+		case '/': case '\\': fputc('\\', f); /* fall through */
+		default: fputc(*s, f); break;
+		}
+	}
+}
+
+/* There's no syntax for an exponent, so use as many decimal places as it takes
+ * to yield the same value. */
+
+static void print_float(FILE *f, double v) {
+	for (int prec = 6; prec < 1100; prec++) {
+		char *str = xasprintf("%.*f", prec, v);
+		_Bool exact = (strtod(str, NULL) == v) || prec == 1099;
+		if (exact)
+			fprintf(f, "%s", str);
+		free(str);
+		if (exact)
+			break;
+	}
+}
+
 void node_print(FILE *f, struct node const *n) {
 	struct slist *l;
 	if (!n) {
@@ -345,10 +376,15 @@ void node_print(FILE *f, struct node const *n) {
 	case node_type_empty:
 		break;
 	case node_type_int:
+		if (n->data.as_int == INT64_MIN) {
+			// too big before negation
+			fprintf(f, "(-%"PRId64" - 1)", INT64_MAX);
+			break;
+		}
 		fprintf(f, "%"PRId64, n->data.as_int);
 		break;
 	case node_type_float:
-		fprintf(f, "%f", n->data.as_float);
+		print_float(f, n->data.as_float);
 		break;
 	case node_type_reg:
 		fprintf(f, "%s", reg_id_to_name(n->data.as_reg));
@@ -359,7 +395,8 @@ void node_print(FILE *f, struct node const *n) {
 
 	/* Simple types */
 	case node_type_pc:
-		fprintf(f, "*");
+		// parenthesised, as "/" straight after "*" delimits a string
+		fprintf(f, "(*)");
 		break;
 	case node_type_backref:
 		fprintf(f, "%"PRId64"B", n->data.as_int);
@@ -380,7 +417,11 @@ void node_print(FILE *f, struct node const *n) {
 	case node_type_text:
 		fprintf(f, "/");
 		for (l = n->data.as_list; l; l = l->next) {
-			node_print(f, (struct node *)l->data);
+			struct node *elem = l->data;
+			if (node_type_of(elem) == node_type_string)
+				node_print_escaped(f, elem->data.as_string);
+			else
+				node_print(f, elem);
 		}
 		fprintf(f, "/");
 		break;
diff --git a/src/node.h b/src/node.h
index 74998a9..8524ea7 100644
--- a/src/node.h
+++ b/src/node.h
@@ -202,6 +202,7 @@ struct node *node_array_push(struct node *a, struct node *n);
  */
 
 void node_print(FILE *f, struct node const *n);
+void node_print_escaped(FILE *f, const char *s);
 void node_print_array(FILE *f, struct node const *n);  // print array without []
 
 #endif
diff --git a/src/program.c b/src/program.c
index d3ec26f..487507e 100644
--- a/src/program.c
+++ b/src/program.c
@@ -232,9 +232,10 @@ static void print_symbol(const char *key, FILE *f) {
 		node_free(sym);
 		if (!n)
 			return;
-		int delim = 0;
 		enum node_attr old_attr = node_attr_of(n);
-		n = node_set_attr(n, node_attr_none);
+		// pre-decrement, etc. is part of the value of a register
+		if (node_type_of(n) != node_type_reg)
+			n = node_set_attr(n, node_attr_none);
 		switch (node_type_of(n)) {
 		default:
 			error(error_type_syntax, "can't export symbol type");
@@ -243,15 +244,17 @@ static void print_symbol(const char *key, FILE *f) {
 		case node_type_int:
 		case node_type_float:
 		case node_type_reg:
-			break;
 		case node_type_string:
-			delim = '/';
 			break;
 		}
 		fprintf(f, "%s\tequ\t", key);
-		if (delim) fputc(delim, f);
-		node_print(f, n);
-		if (delim) fputc(delim, f);
+		if (node_type_of(n) == node_type_string) {
+			fputc('/', f);
+			node_print_escaped(f, n->data.as_string);
+			fputc('/', f);
+		} else {
+			node_print(f, n);
+		}
 		fprintf(f, "\n");
 		n = node_set_attr(n, old_attr);
 		node_free(n);
-- 
2.43.0


From 9904a8cf838755745cbd51023bab0be94fdd9e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:32 +0000
Subject: [PATCH 26/77] fix: fail if an exported symbol is not defined

---
 src/asm6809.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/asm6809.c b/src/asm6809.c
index 6d2b648..c4ff8bf 100644
--- a/src/asm6809.c
+++ b/src/asm6809.c
@@ -307,7 +307,7 @@ int main(int argc, char **argv) {
 	}
 
 	/* Any errors in all that? */
-	if (error_level >= error_type_syntax) {
+	if (error_level >= error_type_inconsistent) {
 		error_print_list();
 		tidy_up_and_exit(EXIT_FAILURE);
 	}
-- 
2.43.0


From 83f431502a78a8a30567b09551e60bcd305e92fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:33 +0000
Subject: [PATCH 27/77] fix: reject invalid values for symbols defined by
 option

---
 src/asm6809.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/asm6809.c b/src/asm6809.c
index c4ff8bf..0f7f439 100644
--- a/src/asm6809.c
+++ b/src/asm6809.c
@@ -347,6 +347,11 @@ static void define_symbol(const char *str) {
 	if (tmp) {
 		*(tmp++) = 0;
 		value = simple_parse_int(tmp);
+		if (!value) {
+			error(error_type_fatal, "invalid value for symbol '%s'", key);
+			error_print_list();
+			tidy_up_and_exit(EXIT_FAILURE);
+		}
 	} else {
 		value = node_new_int(1);
 	}
-- 
2.43.0


From 0bc948a59ea3ed30c8beee5ea35337cdc7fb965e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:15 +0000
Subject: [PATCH 28/77] fix: check every memory allocation

---
 dt101/dict.c  |  2 ++
 dt101/slist.c |  2 +-
 src/lex.l     | 54 +++++++++++++++++++++++++++++----------------------
 3 files changed, 34 insertions(+), 24 deletions(-)

diff --git a/dt101/dict.c b/dt101/dict.c
index 01d4d6d..5a50b40 100644
--- a/dt101/dict.c
+++ b/dt101/dict.c
@@ -66,6 +66,8 @@ struct dict *dict_new_full(Hash_hasher hash_func,
 	new->key_destroy_func = key_destroy_func;
 	new->value_destroy_func = value_destroy_func;
 	new->ht = hash_initialize(0, NULL, dict_ent_hash, dict_ent_equal, dict_ent_free);
+	if (!new->ht)
+		xalloc_die();
 	return new;
 }
 
diff --git a/dt101/slist.c b/dt101/slist.c
index f83e0c1..9994845 100644
--- a/dt101/slist.c
+++ b/dt101/slist.c
@@ -19,7 +19,7 @@ option) any later version.
 
 /* Wrap data in a new list container */
 static struct slist *slist_new(void *data) {
-	struct slist *new = malloc(sizeof(*new));
+	struct slist *new = xmalloc(sizeof(*new));
 	if (!new) return NULL;
 	new->next = NULL;
 	new->data = data;
diff --git a/src/lex.l b/src/lex.l
index 58c0915..8749882 100644
--- a/src/lex.l
+++ b/src/lex.l
@@ -26,6 +26,7 @@ option) any later version.
 
 static int delim;
 
+static char *text_dup(const char *s, size_t n);
 static int id_or_reg(void);
 static int read_line(char *buf, int max_size);
 
@@ -74,10 +75,10 @@ ${hexdigit}+	{ yylval.as_int = strtoimax(yytext+1, NULL, 16); return INTEGER; }
 \!		{ yylval.as_int = 0; return INTEGER; }
 
 {word}		{ return id_or_reg(); }
-&{digit}	{ yylval.as_string = strndup(yytext+1, yyleng-1); return INTERP; }
-&\{{decimal}\}	{ yylval.as_string = strndup(yytext+2, yyleng-3); return INTERP; }
-\\{digit}	{ yylval.as_string = strndup(yytext+1, yyleng-1); return INTERP; }
-\\\{{decimal}\}	{ yylval.as_string = strndup(yytext+2, yyleng-3); return INTERP; }
+&{digit}	{ yylval.as_string = text_dup(yytext+1, yyleng-1); return INTERP; }
+&\{{decimal}\}	{ yylval.as_string = text_dup(yytext+2, yyleng-3); return INTERP; }
+\\{digit}	{ yylval.as_string = text_dup(yytext+1, yyleng-1); return INTERP; }
+\\\{{decimal}\}	{ yylval.as_string = text_dup(yytext+2, yyleng-3); return INTERP; }
 
 {ws}*[;\*].*	/* ";" or "*" introduces comment to end of line */
 {ws}+		{ BEGIN(opcode); return WS; }
@@ -90,10 +91,10 @@ ${hexdigit}+	{ yylval.as_int = strtoimax(yytext+1, NULL, 16); return INTEGER; }
 <opcode>{
 
 {word}		{ return id_or_reg(); }
-&{digit}	{ yylval.as_string = strndup(yytext+1, yyleng-1); return INTERP; }
-&\{{decimal}\}	{ yylval.as_string = strndup(yytext+2, yyleng-3); return INTERP; }
-\\{digit}	{ yylval.as_string = strndup(yytext+1, yyleng-1); return INTERP; }
-\\\{{decimal}\}	{ yylval.as_string = strndup(yytext+2, yyleng-3); return INTERP; }
+&{digit}	{ yylval.as_string = text_dup(yytext+1, yyleng-1); return INTERP; }
+&\{{decimal}\}	{ yylval.as_string = text_dup(yytext+2, yyleng-3); return INTERP; }
+\\{digit}	{ yylval.as_string = text_dup(yytext+1, yyleng-1); return INTERP; }
+\\\{{decimal}\}	{ yylval.as_string = text_dup(yytext+2, yyleng-3); return INTERP; }
 
 
 {ws}*;.*	/* ";" introduces comment to end of line */
@@ -128,15 +129,15 @@ ${hexdigit}+	{ yylval.as_int = strtoimax(yytext+1, NULL, 16); return INTEGER; }
 
 <argnostrnum>{
 
-{rword}		{ BEGIN(argnostrnum); yylval.as_string = strndup(yytext, yyleng); return ID; }
+{rword}		{ BEGIN(argnostrnum); yylval.as_string = text_dup(yytext, yyleng); return ID; }
 
 }
 
 <arg,argnostr,argnostrnum>{
 
-&\{{decimal}\}	{ BEGIN(argnostrnum); yylval.as_string = strndup(yytext+2, yyleng-3); return INTERP; }
-\\{digit}	{ BEGIN(argnostrnum); yylval.as_string = strndup(yytext+1, yyleng-1); return INTERP; }
-\\\{{decimal}\}	{ BEGIN(argnostrnum); yylval.as_string = strndup(yytext+2, yyleng-3); return INTERP; }
+&\{{decimal}\}	{ BEGIN(argnostrnum); yylval.as_string = text_dup(yytext+2, yyleng-3); return INTERP; }
+\\{digit}	{ BEGIN(argnostrnum); yylval.as_string = text_dup(yytext+1, yyleng-1); return INTERP; }
+\\\{{decimal}\}	{ BEGIN(argnostrnum); yylval.as_string = text_dup(yytext+2, yyleng-3); return INTERP; }
 
 \+\+		{ BEGIN(argnostr); return INC2; }
 \-\-		{ BEGIN(argnostr); return DEC2; }
@@ -186,23 +187,23 @@ ${hexdigit}+	{ BEGIN(argnostr); yylval.as_int = strtoimax(yytext+1, NULL, 16); r
 				BEGIN(argnostr);
 				return DELIM;
 			} else {
-				yylval.as_string = strndup(yytext, yyleng);
+				yylval.as_string = text_dup(yytext, yyleng);
 				return TEXT;
 			}
 		}
 
-&{digit}	{ yylval.as_string = strndup(yytext+1, yyleng-1); return INTERP; }
-&\{{decimal}\}	{ yylval.as_string = strndup(yytext+2, yyleng-3); return INTERP; }
+&{digit}	{ yylval.as_string = text_dup(yytext+1, yyleng-1); return INTERP; }
+&\{{decimal}\}	{ yylval.as_string = text_dup(yytext+2, yyleng-3); return INTERP; }
 &&		|
-&		{ yylval.as_string = strndup("&", 1); return TEXT; }
-\\{digit}	{ yylval.as_string = strndup(yytext+1, yyleng-1); return INTERP; }
-\\\{{decimal}\}	{ yylval.as_string = strndup(yytext+2, yyleng-3); return INTERP; }
+&		{ yylval.as_string = text_dup("&", 1); return TEXT; }
+\\{digit}	{ yylval.as_string = text_dup(yytext+1, yyleng-1); return INTERP; }
+\\\{{decimal}\}	{ yylval.as_string = text_dup(yytext+2, yyleng-3); return INTERP; }
 
-\\n		{ yylval.as_string = strndup("\n", 1); return TEXT; }
-\\r		{ yylval.as_string = strndup("\r", 1); return TEXT; }
-\\.		{ yylval.as_string = strndup(yytext+1, 1); return TEXT; }
+\\n		{ yylval.as_string = text_dup("\n", 1); return TEXT; }
+\\r		{ yylval.as_string = text_dup("\r", 1); return TEXT; }
+\\.		{ yylval.as_string = text_dup(yytext+1, 1); return TEXT; }
 
-[^\n\r"&\/\\]+	{ yylval.as_string = strndup(yytext, yyleng); return TEXT; }
+[^\n\r"&\/\\]+	{ yylval.as_string = text_dup(yytext, yyleng); return TEXT; }
 
 \r		/* skip CR */
 \n		{ BEGIN(INITIAL); return '\n'; }
@@ -211,13 +212,20 @@ ${hexdigit}+	{ BEGIN(argnostr); yylval.as_int = strtoimax(yytext+1, NULL, 16); r
 
 %%
 
+static char *text_dup(const char *s, size_t n) {
+	char *d = xmalloc(n + 1);
+	memcpy(d, s, n);
+	d[n] = 0;
+	return d;
+}
+
 static int id_or_reg(void) {
 	enum reg_id r = reg_name_to_id(yytext);
 	if (r != REG_INVALID) {
 		yylval.as_reg = r;
 		return REGISTER;
 	}
-	yylval.as_string = strndup(yytext, yyleng);
+	yylval.as_string = text_dup(yytext, yyleng);
 	return ID;
 }
 
-- 
2.43.0


From 2dfdc99db8a79910f96800f88a1d1feb212321e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:45 +0000
Subject: [PATCH 29/77] fix: list the data emitted by pseudo-ops

---
 src/assemble.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/assemble.c b/src/assemble.c
index e640161..e6743f0 100644
--- a/src/assemble.c
+++ b/src/assemble.c
@@ -488,9 +488,12 @@ void assemble_prog(struct prog *prog, unsigned pass) {
 		op_handler = dict_lookup(pseudo_data_dict, n_line.opcode->data.as_string);
 		if (op_handler) {
 			int old_pc = cur_section->pc;
+			struct section_span *old_span = cur_section->span;
+			unsigned old_size = old_span ? old_span->size : 0;
 			op_handler(&n_line);
 			int nbytes = cur_section->pc - old_pc;
-			if (cur_section->span && cur_section->pc == (int)(cur_section->span->put + cur_section->span->size))
+			// only list data if any was emitted
+			if (cur_section->span && (cur_section->span != old_span || cur_section->span->size != old_size))
 				listing_add_line(old_pc & 0xffff, nbytes, cur_section->span, l->text);
 			else
 				listing_add_line(old_pc & 0xffff, nbytes, NULL, l->text);
-- 
2.43.0


From 49f0fe5b5b5ab4d6ed774caabb511a430dc1cc0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:46 +0000
Subject: [PATCH 30/77] fix: stop assembling after a fatal error

---
 src/assemble.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/assemble.c b/src/assemble.c
index e6743f0..e1e92f6 100644
--- a/src/assemble.c
+++ b/src/assemble.c
@@ -300,7 +300,7 @@ void assemble_prog(struct prog *prog, unsigned pass) {
 	struct slist *cond_list = NULL;
 	struct slist *cond_excluded = NULL;
 
-	while (!prog_ctx_end(ctx)) {
+	while (!prog_ctx_end(ctx) && error_level < error_type_fatal) {
 		/* Dummy line to be populated with values evaluated or not, as
 		 * appropriate. */
 		struct prog_line n_line;
-- 
2.43.0


From 22fc8b761310d786a18fca8518f821f6aa8c497c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:50 +0000
Subject: [PATCH 31/77] fix: limit the depth of nested operators

---
 src/node.c | 31 ++++++++++++++++++++++++++++---
 src/node.h |  1 +
 2 files changed, 29 insertions(+), 3 deletions(-)

diff --git a/src/node.c b/src/node.c
index 3f5c0a8..c3ff297 100644
--- a/src/node.c
+++ b/src/node.c
@@ -28,7 +28,16 @@ option) any later version.
 
 #include "grammar.h"
 
+/*
+ * Expressions are evaluated, printed and freed recursively, so limit how deeply
+ * operators can be nested.  Bear in mind a chain of left-associative operators
+ * counts.
+ */
+
+#define MAX_OPER_DEPTH (4096)
+
 static struct node *node_new_oper_n(int oper, int nargs);
+static struct node *check_oper_depth(struct node *n);
 
 struct node *node_new(int type) {
 	struct node *n = xmalloc(sizeof(*n));
@@ -245,17 +254,33 @@ static struct node *node_new_oper_n(int oper, int nargs) {
 	return n;
 }
 
+static struct node *check_oper_depth(struct node *n) {
+	n->data.as_oper.depth = 1;
+	for (int i = 0; i < n->data.as_oper.nargs; i++) {
+		struct node *arg = n->data.as_oper.args[i];
+		if (node_type_of(arg) == node_type_oper &&
+		    arg->data.as_oper.depth >= n->data.as_oper.depth)
+			n->data.as_oper.depth = arg->data.as_oper.depth + 1;
+	}
+	if (n->data.as_oper.depth > MAX_OPER_DEPTH) {
+		error(error_type_syntax, "expression too complex");
+		node_free(n);
+		return NULL;
+	}
+	return n;
+}
+
 struct node *node_new_oper_1(int oper, struct node *a1) {
 	struct node *n = node_new_oper_n(oper, 1);
 	n->data.as_oper.args[0] = a1;
-	return n;
+	return check_oper_depth(n);
 }
 
 struct node *node_new_oper_2(int oper, struct node *a1, struct node *a2) {
 	struct node *n = node_new_oper_n(oper, 2);
 	n->data.as_oper.args[0] = a1;
 	n->data.as_oper.args[1] = a2;
-	return n;
+	return check_oper_depth(n);
 }
 
 struct node *node_new_oper_3(int oper, struct node *a1, struct node *a2, struct node *a3) {
@@ -263,7 +288,7 @@ struct node *node_new_oper_3(int oper, struct node *a1, struct node *a2, struct
 	n->data.as_oper.args[0] = a1;
 	n->data.as_oper.args[1] = a2;
 	n->data.as_oper.args[2] = a3;
-	return n;
+	return check_oper_depth(n);
 }
 
 /* Array type */
diff --git a/src/node.h b/src/node.h
index 8524ea7..a32a289 100644
--- a/src/node.h
+++ b/src/node.h
@@ -89,6 +89,7 @@ struct node_oper {
 	int oper;
 	int nargs;
 	struct node **args;
+	int depth;  // of nested operators
 };
 
 struct node_array {
-- 
2.43.0


From 37cc15e365b2252a8e3f06b0fcb955b7475bcf42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:24 +0000
Subject: [PATCH 32/77] fix: discard sections not used in the final pass

---
 src/section.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/section.c b/src/section.c
index 85e96c3..954439a 100644
--- a/src/section.c
+++ b/src/section.c
@@ -143,6 +143,13 @@ static void verify_section(void *key, void *value, void *data) {
 	struct section *sect = value;
 	if (!sect)
 		return;
+	if (sect->pass != cur_section->pass) {
+		// not used this pass: drop anything left from an earlier one
+		slist_free_full(sect->spans, (slist_free_func)section_span_free);
+		sect->spans = NULL;
+		sect->span = NULL;
+		return;
+	}
 	if (sect->last_pc != sect->pc || sect->last_put != sect->put) {
 		sect->last_pc = sect->pc;
 		sect->last_put = sect->put;
-- 
2.43.0


From 833198f511239b1d9082748f74d51d34c4669bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:32 +0000
Subject: [PATCH 33/77] fix: don't hang on relative addresses far out of range

---
 src/instr.c | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/instr.c b/src/instr.c
index 39d7b5e..ce6ffd9 100644
--- a/src/instr.c
+++ b/src/instr.c
@@ -81,12 +81,9 @@ void instr_immediate(struct opcode const *op, struct node const *args) {
  * 8-bit value to become valid.  Only needs to be called if the result is going
  * to be range tested. */
 
-static int to_rel16(int64_t i) {
-	while (i < -32768)
-		i += 65536;
-	while (i > 32767)
-		i -= 65536;
-	return i;
+static int to_rel16(uint64_t i) {
+	int v = i & 0xffff;
+	return (v > 32767) ? v - 65536 : v;
 }
 
 void instr_rel(struct opcode const *op, struct node const *args) {
@@ -106,7 +103,7 @@ void instr_rel(struct opcode const *op, struct node const *args) {
 			section_emit_pad(2);
 		return;
 	}
-	int rel8 = to_rel16(arga[0]->data.as_int - (cur_section->pc + 1));
+	int rel8 = to_rel16((uint64_t)arga[0]->data.as_int - (cur_section->pc + 1));
 	_Bool rel8v = (rel8 < -128 || rel8 > 127);
 	if ((op->type & OPCODE_EXT_TYPE) == OPCODE_REL8) {
 		if (rel8v)
@@ -220,7 +217,7 @@ static _Bool off_type_compatible(enum off_type off_type, _Bool pcr, struct node
 		if (ntype == node_type_int) {
 			int64_t val_int = n->data.as_int;
 			if (pcr)
-				val_int = to_rel16(val_int - (cur_section->pc + 2));
+				val_int = to_rel16((uint64_t)val_int - (cur_section->pc + 2));
 			return val_int >= -128 && val_int <= 127;
 		}
 		return ntype == node_type_empty;
@@ -329,9 +326,9 @@ static void instr_indexed2(_Bool indirect, struct node const *arg0, struct node
 		off_value = arg0->data.as_int;
 		if (pcr) {
 			if (off_type == off_type_8bit) {
-				off_value -= (cur_section->pc + 2);
+				off_value = to_rel16((uint64_t)off_value - (cur_section->pc + 2));
 			} else if (off_type == off_type_16bit) {
-				off_value -= (cur_section->pc + 3);
+				off_value = to_rel16((uint64_t)off_value - (cur_section->pc + 3));
 			}
 		}
 	}
-- 
2.43.0


From 484e43d071c30ed3f422186a5383010582c8cff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:33 +0000
Subject: [PATCH 34/77] fix: don't mistake the start of a bad argument for a
 comment

---
 src/grammar.y | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/grammar.y b/src/grammar.y
index ade3e56..9e7104f 100644
--- a/src/grammar.y
+++ b/src/grammar.y
@@ -26,6 +26,7 @@ option) any later version.
 #include "slist.h"
 
 static void raise_error(void);
+static void raise_arg_error(void);
 static void yyerror(const char *);
 void yylex_destroy(void);
 int yylex(void);
@@ -65,6 +66,9 @@ static void check_end_opcode(struct prog_line *line);
 
 %destructor { free($$); } <as_string>
 
+/* In a bad argument, error is preferred to an empty argument. */
+%expect 1
+
 %type <as_node> label
 %type <as_node> id string
 %type <as_node> idpart strpart arg
@@ -96,6 +100,7 @@ program	:
 
 line	: label WS id WS arglist '\n'	{ $$ = prog_line_new($1, $3, $5); }
 	| label WS id WS arglist error '\n'	{ $$ = prog_line_new($1, $3, $5); }
+	| label WS id WS arglist ',' error '\n'	{ raise_arg_error(); $$ = prog_line_new($1, $3, $5); }
 	| label WS id '\n'		{ $$ = prog_line_new($1, $3, NULL); }
 	| label WS id error '\n'	{ $$ = prog_line_new($1, $3, NULL); }
 	| label '\n'			{ $$ = prog_line_new($1, NULL, NULL); }
@@ -195,6 +200,15 @@ static void raise_error(void) {
 	error(error_type_syntax, "");
 }
 
+/* As comments may follow a complete argument list, be sure not to mistake the
+ * start of a bad argument for one. */
+
+static void raise_arg_error(void) {
+	cur_ctx->line_number++;
+	error(error_type_syntax, "invalid argument");
+	cur_ctx->line_number--;
+}
+
 static void yyerror(const char *s) {
 	(void)s;
 }
-- 
2.43.0


From 22ffe5197d9d2ba76a923dd574763a93c0a42dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:14 +0000
Subject: [PATCH 35/77] fix: reject numbers with trailing characters in options

---
 src/asm6809.c | 42 ++++++++++++++++++++++++++----------------
 1 file changed, 26 insertions(+), 16 deletions(-)

diff --git a/src/asm6809.c b/src/asm6809.c
index 0f7f439..74cb610 100644
--- a/src/asm6809.c
+++ b/src/asm6809.c
@@ -17,10 +17,12 @@ option) any later version.
 
 #include <errno.h>
 #include <getopt.h>
+#include <inttypes.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
 
+#include "c-ctype.h"
 #include "xalloc.h"
 
 #include "asm6809.h"
@@ -141,8 +143,10 @@ int main(int argc, char **argv) {
 			break;
 		case 'P':
 			{
-				long v = strtol(optarg, NULL, 0);
-				if (errno != 0 || v < 2 || v > 255) {
+				char *end;
+				errno = 0;
+				long v = strtol(optarg, &end, 0);
+				if (errno != 0 || end == optarg || *end || v < 2 || v > 255) {
 					error(error_type_fatal, "invalid value for max-passes");
 					error_print_list();
 					tidy_up_and_exit(EXIT_FAILURE);
@@ -320,24 +324,30 @@ int main(int argc, char **argv) {
 
 /* Special parsing of arguments.  Integers only for now. */
 static struct node *simple_parse_int(const char *str) {
-	struct node *n = NULL;
+	int base = 10;
 	if (str[0] == '$') {
-		n = node_new_int(strtol(str+1, NULL, 16));
+		str++;
+		base = 16;
 	} else if (str[0] == '@') {
-		n = node_new_int(strtol(str+1, NULL, 8));
+		str++;
+		base = 8;
 	} else if (str[0] == '%') {
-		n = node_new_int(strtol(str+1, NULL, 2));
-	} else if (str[0] == '0') {
-		if (str[1] == 'x')
-			n = node_new_int(strtol(str+2, NULL, 16));
-		else if (str[1] == 'b')
-			n = node_new_int(strtol(str+2, NULL, 2));
-		else
-			n = node_new_int(strtol(str, NULL, 10));
-	} else if (str[0] >= '0' && str[0] <= '9') {
-		n = node_new_int(strtol(str, NULL, 10));
+		str++;
+		base = 2;
+	} else if (str[0] == '0' && str[1] == 'x') {
+		str += 2;
+		base = 16;
+	} else if (str[0] == '0' && str[1] == 'b') {
+		str += 2;
+		base = 2;
 	}
-	return n;
+	if (!c_isxdigit(*str))
+		return NULL;
+	char *end;
+	int64_t v = strtoimax(str, &end, base);
+	if (end == str || *end)
+		return NULL;
+	return node_new_int(v);
 }
 
 static void define_symbol(const char *str) {
-- 
2.43.0


From 57b25c2bed3766e5802bcc5e884777306855b58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:08 +0000
Subject: [PATCH 36/77] fix: use the form with no offset for 0,W

---
 src/instr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/instr.c b/src/instr.c
index ce6ffd9..d36163a 100644
--- a/src/instr.c
+++ b/src/instr.c
@@ -177,7 +177,7 @@ static struct {
 	{ idx_type_xyus, node_attr_none,     off_type_reg_e, 0x87, idx_indirect_ok },
 	{ idx_type_xyus, node_attr_none,     off_type_reg_f, 0x8a, idx_indirect_ok },
 	{ idx_type_xyus, node_attr_none,     off_type_reg_w, 0x8e, idx_indirect_ok },
-	{ idx_type_w,    node_attr_none,     off_type_none,  0x8f, idx_indirect_ok_6309 },
+	{ idx_type_w,    node_attr_none,     off_type_zero,  0x8f, idx_indirect_ok_6309 },
 	{ idx_type_w,    node_attr_none,     off_type_16bit, 0xaf, idx_indirect_ok_6309 },
 	{ idx_type_w,    node_attr_postinc2, off_type_none,  0xcf, idx_indirect_ok_6309 },
 	{ idx_type_w,    node_attr_predec2,  off_type_none,  0xef, idx_indirect_ok_6309 },
-- 
2.43.0


From c2b5cb06179ea2613ba0767d15786957ff9ddcd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:07 +0000
Subject: [PATCH 37/77] fix: only accept a number as an offset of forced size

---
 src/instr.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/instr.c b/src/instr.c
index d36163a..6edc207 100644
--- a/src/instr.c
+++ b/src/instr.c
@@ -192,11 +192,11 @@ static _Bool off_type_compatible(enum off_type off_type, _Bool pcr, struct node
 	case node_attr_none:
 		break;
 	case node_attr_5bit:
-		return off_type == off_type_5bit;
+		return off_type == off_type_5bit && ntype == node_type_int;
 	case node_attr_8bit:
-		return off_type == off_type_8bit;
+		return off_type == off_type_8bit && ntype == node_type_int;
 	case node_attr_16bit:
-		return off_type == off_type_16bit;
+		return off_type == off_type_16bit && ntype == node_type_int;
 	default:
 		return 0;
 	}
-- 
2.43.0


From 1fbfcb828ee061bac4036b94059e1c59740371b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:08 +0000
Subject: [PATCH 38/77] fix: convert floats within indirect operands to
 integers

---
 src/assemble.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/assemble.c b/src/assemble.c
index e1e92f6..db56d6b 100644
--- a/src/assemble.c
+++ b/src/assemble.c
@@ -213,7 +213,9 @@ static void args_float_to_int(struct node *args) {
 	int nargs = args->data.as_array.nargs;
 	struct node **arga = args->data.as_array.args;
 	for (int i = 0; i < nargs; i++) {
-		if (node_type_of(arga[i]) == node_type_float)
+		if (node_type_of(arga[i]) == node_type_array)
+			args_float_to_int(arga[i]);
+		else if (node_type_of(arga[i]) == node_type_float)
 			arga[i] = eval_int_free(arga[i]);
 	}
 }
-- 
2.43.0


From 65f8caf422a82dc659c6d47d26f9becfdeaa766f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:52 +0000
Subject: [PATCH 39/77] fix: allow a string after a division operator

---
 src/lex.l | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lex.l b/src/lex.l
index 8749882..cacc923 100644
--- a/src/lex.l
+++ b/src/lex.l
@@ -117,7 +117,7 @@ ${hexdigit}+	{ yylval.as_int = strtoimax(yytext+1, NULL, 16); return INTEGER; }
 
 <argnostr,argnostrnum>{
 
-\/		{ BEGIN(argnostr); return *yytext; }
+\/		{ BEGIN(arg); return *yytext; }
 
 }
 
-- 
2.43.0


From 0152ed44e05c185ee0042fb07fa66a324328f26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:48 +0000
Subject: [PATCH 40/77] fix: don't take text that isn't an argument as an empty
 one

---
 src/grammar.y | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/grammar.y b/src/grammar.y
index 9e7104f..ef2c62f 100644
--- a/src/grammar.y
+++ b/src/grammar.y
@@ -27,6 +27,7 @@ option) any later version.
 
 static void raise_error(void);
 static void raise_arg_error(void);
+static struct node *drop_empty(struct node *);
 static void yyerror(const char *);
 void yylex_destroy(void);
 int yylex(void);
@@ -99,7 +100,7 @@ program	:
 	;
 
 line	: label WS id WS arglist '\n'	{ $$ = prog_line_new($1, $3, $5); }
-	| label WS id WS arglist error '\n'	{ $$ = prog_line_new($1, $3, $5); }
+	| label WS id WS arglist error '\n'	{ $$ = prog_line_new($1, $3, drop_empty($5)); }
 	| label WS id WS arglist ',' error '\n'	{ raise_arg_error(); $$ = prog_line_new($1, $3, $5); }
 	| label WS id '\n'		{ $$ = prog_line_new($1, $3, NULL); }
 	| label WS id error '\n'	{ $$ = prog_line_new($1, $3, NULL); }
@@ -209,6 +210,17 @@ static void raise_arg_error(void) {
 	cur_ctx->line_number--;
 }
 
+/* A lone empty argument before a comment is really no arguments at all. */
+
+static struct node *drop_empty(struct node *args) {
+	struct node **arga = node_array_of(args);
+	if (node_array_count(args) == 1 && node_type_of(arga[0]) == node_type_empty) {
+		node_free(args);
+		return NULL;
+	}
+	return args;
+}
+
 static void yyerror(const char *s) {
 	(void)s;
 }
-- 
2.43.0


From a8a3d92c13ba80839f62b2eca353f0f5eb32fd1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:53 +0000
Subject: [PATCH 41/77] fix: only report bad arguments of lines that are
 assembled

---
 src/assemble.c |  6 ++++++
 src/grammar.y  | 16 ++++------------
 src/program.c  |  1 +
 src/program.h  |  1 +
 4 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/assemble.c b/src/assemble.c
index db56d6b..d0e07da 100644
--- a/src/assemble.c
+++ b/src/assemble.c
@@ -367,6 +367,10 @@ void assemble_prog(struct prog *prog, unsigned pass) {
 			listing_add_line(-1, 0, NULL, l->text);
 			goto next_line;
 		}
+		if (l->bad_args && !cond_excluded) {
+			error(error_type_syntax, "invalid argument");
+		}
+
 		/* Conditional assembly */
 
 		if (n_line.opcode && 0 == c_strcasecmp("if", n_line.opcode->data.as_string)) {
@@ -398,6 +402,8 @@ void assemble_prog(struct prog *prog, unsigned pass) {
 					cond_excluded = cond_list;
 				} else if (cond_excluded == cond_list &&
 					   (intptr_t)cond_list->data != cond_state_if_done) {
+					if (l->bad_args)
+						error(error_type_syntax, "invalid argument");
 					symbol_ignore_undefined = 1;
 					n_line.args = eval_node(l->args);
 					symbol_ignore_undefined = 0;
diff --git a/src/grammar.y b/src/grammar.y
index ef2c62f..4ba00fb 100644
--- a/src/grammar.y
+++ b/src/grammar.y
@@ -26,7 +26,6 @@ option) any later version.
 #include "slist.h"
 
 static void raise_error(void);
-static void raise_arg_error(void);
 static struct node *drop_empty(struct node *);
 static void yyerror(const char *);
 void yylex_destroy(void);
@@ -67,7 +66,9 @@ static void check_end_opcode(struct prog_line *line);
 
 %destructor { free($$); } <as_string>
 
-/* In a bad argument, error is preferred to an empty argument. */
+/* In a bad argument, error is preferred to an empty argument.  As comments may
+ * follow a complete argument list, be sure not to mistake the start of a bad
+ * argument for one. */
 %expect 1
 
 %type <as_node> label
@@ -101,7 +102,7 @@ program	:
 
 line	: label WS id WS arglist '\n'	{ $$ = prog_line_new($1, $3, $5); }
 	| label WS id WS arglist error '\n'	{ $$ = prog_line_new($1, $3, drop_empty($5)); }
-	| label WS id WS arglist ',' error '\n'	{ raise_arg_error(); $$ = prog_line_new($1, $3, $5); }
+	| label WS id WS arglist ',' error '\n'	{ $$ = prog_line_new($1, $3, $5); $$->bad_args = 1; }
 	| label WS id '\n'		{ $$ = prog_line_new($1, $3, NULL); }
 	| label WS id error '\n'	{ $$ = prog_line_new($1, $3, NULL); }
 	| label '\n'			{ $$ = prog_line_new($1, NULL, NULL); }
@@ -201,15 +202,6 @@ static void raise_error(void) {
 	error(error_type_syntax, "");
 }
 
-/* As comments may follow a complete argument list, be sure not to mistake the
- * start of a bad argument for one. */
-
-static void raise_arg_error(void) {
-	cur_ctx->line_number++;
-	error(error_type_syntax, "invalid argument");
-	cur_ctx->line_number--;
-}
-
 /* A lone empty argument before a comment is really no arguments at all. */
 
 static struct node *drop_empty(struct node *args) {
diff --git a/src/program.c b/src/program.c
index 487507e..ebed1f8 100644
--- a/src/program.c
+++ b/src/program.c
@@ -107,6 +107,7 @@ struct prog_line *prog_line_new(struct node *label, struct node *opcode, struct
 	l->opcode = opcode;
 	l->args = args;
 	l->text = NULL;
+	l->bad_args = 0;
 	return l;
 }
 
diff --git a/src/program.h b/src/program.h
index 522fda7..119aa6c 100644
--- a/src/program.h
+++ b/src/program.h
@@ -47,6 +47,7 @@ struct prog_line {
 	struct node *opcode;
 	struct node *args;  /* must be of type node_arglist */
 	char *text;
+	_Bool bad_args;  // reported if line assembled
 };
 
 struct prog {
-- 
2.43.0


From f07c8bf149a82b1079da1955f90d0a0268274ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:21 +0000
Subject: [PATCH 42/77] fix: allow positional variables in the instruction
 field

---
 src/assemble.c |  7 ++++++-
 src/grammar.y  |  2 ++
 src/node.c     | 10 ++++++++++
 src/node.h     |  4 ++++
 4 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/assemble.c b/src/assemble.c
index d0e07da..4854c15 100644
--- a/src/assemble.c
+++ b/src/assemble.c
@@ -322,7 +322,12 @@ void assemble_prog(struct prog *prog, unsigned pass) {
 		}
 
 		n_line.label = NULL;
-		n_line.opcode = eval_string(l->opcode);
+		/* Positional variables may have no value until a macro is
+		 * expanded, or if the line is not to be assembled. */
+		if ((defining_macro_level > 0 || cond_excluded) && node_has_interp(l->opcode))
+			n_line.opcode = NULL;
+		else
+			n_line.opcode = eval_string(l->opcode);
 		n_line.args = NULL;
 		n_line.text = l->text;
 
diff --git a/src/grammar.y b/src/grammar.y
index 4ba00fb..5f90035 100644
--- a/src/grammar.y
+++ b/src/grammar.y
@@ -237,6 +237,8 @@ struct prog *grammar_parse_file(const char *filename) {
 }
 
 static void check_end_opcode(struct prog_line *line) {
+	if (node_has_interp(line->opcode))
+		return;
 	struct node *n = eval_string(line->opcode);
 	if (n) {
 		if (0 == c_strcasecmp("end", n->data.as_string)) {
diff --git a/src/node.c b/src/node.c
index c3ff297..48db606 100644
--- a/src/node.c
+++ b/src/node.c
@@ -120,6 +120,16 @@ struct node **node_array_of(struct node const *n) {
 	return n->data.as_array.args;
 }
 
+_Bool node_has_interp(struct node const *n) {
+	if (node_type_of(n) != node_type_id)
+		return 0;
+	for (struct slist *l = n->data.as_list; l; l = l->next) {
+		if (node_type_of(l->data) == node_type_interp)
+			return 1;
+	}
+	return 0;
+}
+
 struct node *node_set_attr(struct node *n, enum node_attr attr) {
 	if (n)
 		n->attr = attr;
diff --git a/src/node.h b/src/node.h
index a32a289..2f9723f 100644
--- a/src/node.h
+++ b/src/node.h
@@ -146,6 +146,10 @@ static inline enum node_attr node_attr_of(struct node const *n) {
 int node_array_count(struct node const *n);
 struct node **node_array_of(struct node const *n);
 
+/* Test whether any part of an identifier is a positional variable. */
+
+_Bool node_has_interp(struct node const *n);
+
 /* Overwrite attribute on supplied node and return same node.  No new reference
  * is created. */
 
-- 
2.43.0


From e1c9ab712c01fb2c98059809f565ff05fad36648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:19 +0000
Subject: [PATCH 43/77] fix: don't take a character above 127 for the end of
 input

---
 src/lex.l | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lex.l b/src/lex.l
index cacc923..6cb0a5f 100644
--- a/src/lex.l
+++ b/src/lex.l
@@ -84,7 +84,7 @@ ${hexdigit}+	{ yylval.as_int = strtoimax(yytext+1, NULL, 16); return INTEGER; }
 {ws}+		{ BEGIN(opcode); return WS; }
 \r		/* skip CR */
 {ws}*\n		{ return '\n'; }
-.		{ return *yytext; }
+.		{ return (unsigned char)*yytext; }
 
 }
 
@@ -101,7 +101,7 @@ ${hexdigit}+	{ yylval.as_int = strtoimax(yytext+1, NULL, 16); return INTEGER; }
 {ws}+		{ BEGIN(arg); return WS; }
 {ws}*\n		{ BEGIN(INITIAL); return '\n'; }
 \r		/* skip CR */
-.		{ BEGIN(INITIAL); return *yytext; }
+.		{ BEGIN(INITIAL); return (unsigned char)*yytext; }
 
 }
 
@@ -176,7 +176,7 @@ ${hexdigit}+	{ BEGIN(argnostr); yylval.as_int = strtoimax(yytext+1, NULL, 16); r
 {ws}+		/* skip whitespace */
 \r		/* skip CR */
 \n		{ BEGIN(INITIAL); return *yytext; }
-.		{ return *yytext; }
+.		{ return (unsigned char)*yytext; }
 
 }
 
-- 
2.43.0


From af080ac80728d9f5355185f991ff2569edffa59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:40 +0000
Subject: [PATCH 44/77] fix: don't copy a stray backslash in a string to
 standard output

---
 src/lex.l | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lex.l b/src/lex.l
index 6cb0a5f..b1e89ca 100644
--- a/src/lex.l
+++ b/src/lex.l
@@ -207,6 +207,7 @@ ${hexdigit}+	{ BEGIN(argnostr); yylval.as_int = strtoimax(yytext+1, NULL, 16); r
 
 \r		/* skip CR */
 \n		{ BEGIN(INITIAL); return '\n'; }
+.		{ return (unsigned char)*yytext; }
 
 }
 
-- 
2.43.0


From b92d4406842d0f9dfbd2b67b0f02a522f203ab86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:36 +0000
Subject: [PATCH 45/77] fix: report errors in ENDM at its own line

---
 src/assemble.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/assemble.c b/src/assemble.c
index 4854c15..bbd4415 100644
--- a/src/assemble.c
+++ b/src/assemble.c
@@ -351,6 +351,11 @@ void assemble_prog(struct prog *prog, unsigned pass) {
 			}
 			defining_macro_level--;
 			if (defining_macro_level == 0) {
+				// errors from here belong to this line
+				if (defining_macro_ctx) {
+					prog_ctx_free(defining_macro_ctx);
+					defining_macro_ctx = NULL;
+				}
 				n_line.args = eval_node(l->args);
 				pseudo_endm(&n_line);
 				listing_add_line(-1, 0, NULL, l->text);
@@ -1070,10 +1075,6 @@ static void pseudo_endm(struct prog_line *line) {
 	} else if (nargs > 0 && node_type_of(arga[0]) != node_type_string) {
 		error(error_type_syntax, "invalid argument to ENDM");
 	}
-	if (!defining_macro_ctx)
-		return;
-	prog_ctx_free(defining_macro_ctx);
-	defining_macro_ctx = NULL;
 }
 
 /* END.  Specify EXEC address. */
-- 
2.43.0


From 2e52c3357c73d240432607ebbbb8295569747256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:37 +0000
Subject: [PATCH 46/77] fix: only report lines that can't be parsed if
 assembled

---
 src/assemble.c | 19 +++++++++++++------
 src/grammar.y  | 17 ++++++++---------
 src/program.c  |  6 +++++-
 src/program.h  |  8 +++++++-
 4 files changed, 33 insertions(+), 17 deletions(-)

diff --git a/src/assemble.c b/src/assemble.c
index bbd4415..9f5112e 100644
--- a/src/assemble.c
+++ b/src/assemble.c
@@ -285,6 +285,15 @@ static int64_t have_int_required(struct node *args, int aindex, const char *op,
 
 // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
 
+/* Report a line that could not be parsed. */
+
+static void check_bad_line(struct prog_line *line) {
+	if (line->bad == prog_line_bad_arg)
+		error(error_type_syntax, "invalid argument");
+	else if (line->bad == prog_line_bad_syntax)
+		error(error_type_syntax, "");
+}
+
 /* Perform an assembly pass on a program. */
 
 void assemble_prog(struct prog *prog, unsigned pass) {
@@ -316,7 +325,7 @@ void assemble_prog(struct prog *prog, unsigned pass) {
 		 * passes - see section.h for details. */
 		cur_section->line_number++;
 
-		if (!l->label && !l->opcode && !l->args) {
+		if (!l->label && !l->opcode && !l->args && !l->bad) {
 			listing_add_line(-1, 0, NULL, l->text);
 			continue;
 		}
@@ -377,9 +386,8 @@ void assemble_prog(struct prog *prog, unsigned pass) {
 			listing_add_line(-1, 0, NULL, l->text);
 			goto next_line;
 		}
-		if (l->bad_args && !cond_excluded) {
-			error(error_type_syntax, "invalid argument");
-		}
+		if (!cond_excluded)
+			check_bad_line(l);
 
 		/* Conditional assembly */
 
@@ -412,8 +420,7 @@ void assemble_prog(struct prog *prog, unsigned pass) {
 					cond_excluded = cond_list;
 				} else if (cond_excluded == cond_list &&
 					   (intptr_t)cond_list->data != cond_state_if_done) {
-					if (l->bad_args)
-						error(error_type_syntax, "invalid argument");
+					check_bad_line(l);
 					symbol_ignore_undefined = 1;
 					n_line.args = eval_node(l->args);
 					symbol_ignore_undefined = 0;
diff --git a/src/grammar.y b/src/grammar.y
index 5f90035..9467712 100644
--- a/src/grammar.y
+++ b/src/grammar.y
@@ -25,7 +25,7 @@ option) any later version.
 #include "register.h"
 #include "slist.h"
 
-static void raise_error(void);
+static void add_bad_line(void);
 static struct node *drop_empty(struct node *);
 static void yyerror(const char *);
 void yylex_destroy(void);
@@ -97,12 +97,12 @@ static void check_end_opcode(struct prog_line *line);
 
 program	:
 	| program line	{ prog_line_set_text($2, lex_fetch_line()); prog_ctx_add_line(cur_ctx, $2); check_end_opcode($2); }
-	| program error '\n'	{ raise_error(); yyerrok; }
+	| program error '\n'	{ add_bad_line(); yyerrok; }
 	;
 
 line	: label WS id WS arglist '\n'	{ $$ = prog_line_new($1, $3, $5); }
 	| label WS id WS arglist error '\n'	{ $$ = prog_line_new($1, $3, drop_empty($5)); }
-	| label WS id WS arglist ',' error '\n'	{ $$ = prog_line_new($1, $3, $5); $$->bad_args = 1; }
+	| label WS id WS arglist ',' error '\n'	{ $$ = prog_line_new($1, $3, $5); $$->bad = prog_line_bad_arg; }
 	| label WS id '\n'		{ $$ = prog_line_new($1, $3, NULL); }
 	| label WS id error '\n'	{ $$ = prog_line_new($1, $3, NULL); }
 	| label '\n'			{ $$ = prog_line_new($1, NULL, NULL); }
@@ -194,12 +194,11 @@ strpart	: TEXT			{ $$ = node_new_string($1); }
 
 %%
 
-static void raise_error(void) {
-	// discard line with error - going to fail anyway
-	char *l = lex_fetch_line();
-	free(l);
-	cur_ctx->line_number++;
-	error(error_type_syntax, "");
+static void add_bad_line(void) {
+	struct prog_line *line = prog_line_new(NULL, NULL, NULL);
+	line->bad = prog_line_bad_syntax;
+	prog_line_set_text(line, lex_fetch_line());
+	prog_ctx_add_line(cur_ctx, line);
 }
 
 /* A lone empty argument before a comment is really no arguments at all. */
diff --git a/src/program.c b/src/program.c
index ebed1f8..ad03c07 100644
--- a/src/program.c
+++ b/src/program.c
@@ -107,7 +107,7 @@ struct prog_line *prog_line_new(struct node *label, struct node *opcode, struct
 	l->opcode = opcode;
 	l->args = args;
 	l->text = NULL;
-	l->bad_args = 0;
+	l->bad = prog_line_bad_none;
 	return l;
 }
 
@@ -271,6 +271,10 @@ static void print_exported(const char *key, void *value, FILE *f) {
 			struct prog_line *line = l->data;
 			if (!line)
 				continue;
+			if (line->bad) {
+				error(error_type_syntax, "can't export bad line in macro '%s'", key);
+				return;
+			}
 			node_print(f, line->label);
 			fprintf(f, "\t");
 			node_print(f, line->opcode);
diff --git a/src/program.h b/src/program.h
index 119aa6c..08bcb24 100644
--- a/src/program.h
+++ b/src/program.h
@@ -41,13 +41,19 @@ enum prog_type {
 	prog_type_macro
 };
 
+enum prog_line_bad {
+	prog_line_bad_none = 0,
+	prog_line_bad_arg,
+	prog_line_bad_syntax,
+};
+
 struct prog_line {
 	unsigned ref;
 	struct node *label;
 	struct node *opcode;
 	struct node *args;  /* must be of type node_arglist */
 	char *text;
-	_Bool bad_args;  // reported if line assembled
+	enum prog_line_bad bad;  // reported if line assembled
 };
 
 struct prog {
-- 
2.43.0


From 32333bdf7769265b2aa0223aa7cd59717551252b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:00 +0000
Subject: [PATCH 47/77] fix: check EXEC option and exports before writing any
 file

---
 src/asm6809.c | 28 +++++++++++++++++++---------
 src/program.c | 28 ++++++++++++++++++++++++----
 src/program.h |  1 +
 3 files changed, 44 insertions(+), 13 deletions(-)

diff --git a/src/asm6809.c b/src/asm6809.c
index 74cb610..2bc0776 100644
--- a/src/asm6809.c
+++ b/src/asm6809.c
@@ -233,15 +233,6 @@ int main(int argc, char **argv) {
 	/* Otherwise print any warnings */
 	error_print_list();
 
-	/* Generate listing file */
-	if (listing_filename) {
-		FILE *listf = output_open(listing_filename);
-		if (listf) {
-			listing_print(listf);
-			output_close(listf, listing_filename);
-		}
-	}
-
 	/* Special parsing of option exec address option.  Overrides any use of
 	 * the END pseudo-op. */
 	if (exec_option) {
@@ -264,6 +255,25 @@ int main(int argc, char **argv) {
 		symbol_force_set(".exec", n, 0, max_passes);
 	}
 
+	/* Exports must exist */
+	if (exports_filename)
+		prog_check_exports();
+
+	/* Don't write anything if that failed */
+	if (error_level >= error_type_inconsistent) {
+		error_print_list();
+		tidy_up_and_exit(EXIT_FAILURE);
+	}
+
+	/* Generate listing file */
+	if (listing_filename) {
+		FILE *listf = output_open(listing_filename);
+		if (listf) {
+			listing_print(listf);
+			output_close(listf, listing_filename);
+		}
+	}
+
 	// XXX At the moment listing generation must precede output, as
 	// coelescing spans might screw with the span data to which the listing
 	// refers.  Not a big deal, but needs fixing.
diff --git a/src/program.c b/src/program.c
index ad03c07..985d6c9 100644
--- a/src/program.c
+++ b/src/program.c
@@ -271,10 +271,6 @@ static void print_exported(const char *key, void *value, FILE *f) {
 			struct prog_line *line = l->data;
 			if (!line)
 				continue;
-			if (line->bad) {
-				error(error_type_syntax, "can't export bad line in macro '%s'", key);
-				return;
-			}
 			node_print(f, line->label);
 			fprintf(f, "\t");
 			node_print(f, line->opcode);
@@ -288,6 +284,30 @@ static void print_exported(const char *key, void *value, FILE *f) {
 	print_symbol(key, f);
 }
 
+/* Report anything that can't be exported. */
+
+static void check_exported(const char *key, void *value, void *data) {
+	(void)value;
+	(void)data;
+	struct prog *macro = prog_macro_by_name(key);
+	if (macro) {
+		for (struct slist *l = macro->lines; l; l = l->next) {
+			struct prog_line *line = l->data;
+			if (line && line->bad)
+				error(error_type_syntax, "can't export bad line in macro '%s'", key);
+		}
+		return;
+	}
+	struct node *sym = symbol_get(key);
+	node_free(sym);
+}
+
+void prog_check_exports(void) {
+	if (!exports)
+		return;
+	dict_foreach(exports, (dict_iter_func)check_exported, NULL);
+}
+
 void prog_print_exports(FILE *f) {
 	if (!exports)
 		return;
diff --git a/src/program.h b/src/program.h
index 08bcb24..413a770 100644
--- a/src/program.h
+++ b/src/program.h
@@ -93,6 +93,7 @@ _Bool prog_ctx_end(struct prog_ctx *ctx);
 
 void prog_export(const char *name);
 void prog_free_exports(void);
+void prog_check_exports(void);
 void prog_print_exports(FILE *f);
 
 void prog_print_symbols(FILE *f);
-- 
2.43.0


From 3591c1fe1aaf218ae0769e921210832630d6740b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:32 +0000
Subject: [PATCH 48/77] fix: don't sign extend characters above 127 in a string
 used as a number

---
 src/eval.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eval.c b/src/eval.c
index d990da9..1176170 100644
--- a/src/eval.c
+++ b/src/eval.c
@@ -220,7 +220,7 @@ struct node *eval_int(struct node *n) {
 		{
 			uint32_t value = 0;
 			for (const char *s = n->data.as_string; *s; s++)
-				value = (value << 8) | *s;
+				value = (value << 8) | (unsigned char)*s;
 			return node_set_attr(node_new_int(value), n->attr);
 		}
 	default:
-- 
2.43.0


From 93ecde9bdc292413f159f0f25aef222ea9ceb877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:12 +0000
Subject: [PATCH 49/77] fix: don't add a line to an empty source file

---
 src/lex.l | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lex.l b/src/lex.l
index b1e89ca..194006b 100644
--- a/src/lex.l
+++ b/src/lex.l
@@ -239,7 +239,7 @@ static int id_or_reg(void) {
 static struct slist *lines = NULL;
 static char *line = NULL;
 static int line_length = 0;
-static _Bool need_eol = 1;
+static _Bool need_eol = 0;
 
 static int read_line(char *buf, int max_size) {
 	if (!yyin)
-- 
2.43.0


From befa692e73ac1521614195edcfa29ab31b796fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:13 +0000
Subject: [PATCH 50/77] fix: don't sign extend a character constant above 127

---
 src/lex.l | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lex.l b/src/lex.l
index 194006b..9582696 100644
--- a/src/lex.l
+++ b/src/lex.l
@@ -70,8 +70,8 @@ rword	[A-Za-z0-9_\.]+
 {decimal}	{ yylval.as_int = strtoimax(yytext, NULL, 10); return INTEGER; }
 ${hexdigit}+	{ yylval.as_int = strtoimax(yytext+1, NULL, 16); return INTEGER; }
 0x{hexdigit}+	{ yylval.as_int = strtoimax(yytext+2, NULL, 16); return INTEGER; }
-'.'		{ yylval.as_int = *(yytext+1); return INTEGER; }
-'.		{ yylval.as_int = *(yytext+1); return INTEGER; }
+'.'		{ yylval.as_int = (unsigned char)*(yytext+1); return INTEGER; }
+'.		{ yylval.as_int = (unsigned char)*(yytext+1); return INTEGER; }
 \!		{ yylval.as_int = 0; return INTEGER; }
 
 {word}		{ return id_or_reg(); }
@@ -152,8 +152,8 @@ ${hexdigit}+	{ yylval.as_int = strtoimax(yytext+1, NULL, 16); return INTEGER; }
 {decimal}	{ BEGIN(argnostr); yylval.as_int = strtoimax(yytext, NULL, 10); return INTEGER; }
 ${hexdigit}+	{ BEGIN(argnostr); yylval.as_int = strtoimax(yytext+1, NULL, 16); return INTEGER; }
 0x{hexdigit}+	{ BEGIN(argnostr); yylval.as_int = strtoimax(yytext+2, NULL, 16); return INTEGER; }
-'.'		{ BEGIN(argnostr); yylval.as_int = *(yytext+1); return INTEGER; }
-'.		{ BEGIN(argnostr); yylval.as_int = *(yytext+1); return INTEGER; }
+'.'		{ BEGIN(argnostr); yylval.as_int = (unsigned char)*(yytext+1); return INTEGER; }
+'.		{ BEGIN(argnostr); yylval.as_int = (unsigned char)*(yytext+1); return INTEGER; }
 [0-9]*\.[0-9]+	|
 {decimal}\.	{ BEGIN(argnostr); yylval.as_float = strtod(yytext, NULL); return FLOAT; }
 
-- 
2.43.0


From 80fbb388112bf1c3f19edfd5c109bb791c14f2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:27 +0000
Subject: [PATCH 51/77] fix: count blank and comment lines in macros, and list
 them

---
 src/assemble.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/assemble.c b/src/assemble.c
index 9f5112e..ef1eca5 100644
--- a/src/assemble.c
+++ b/src/assemble.c
@@ -326,6 +326,9 @@ void assemble_prog(struct prog *prog, unsigned pass) {
 		cur_section->line_number++;
 
 		if (!l->label && !l->opcode && !l->args && !l->bad) {
+			// keeps line numbers right when a macro is expanded
+			if (defining_macro_ctx)
+				prog_ctx_add_line(defining_macro_ctx, prog_line_ref(l));
 			listing_add_line(-1, 0, NULL, l->text);
 			continue;
 		}
-- 
2.43.0


From eb1976e60258a7babfbfbc45873d68863dd21e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:34 +0000
Subject: [PATCH 52/77] fix: let EQU and SET define lists, as any other
 argument

---
 src/node.c    | 19 ++++++++++++++++++-
 src/program.c |  1 +
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/node.c b/src/node.c
index 48db606..d525d8f 100644
--- a/src/node.c
+++ b/src/node.c
@@ -174,6 +174,16 @@ _Bool node_equal(struct node const *n1, struct node const *n2) {
 		return n1->data.as_reg == n2->data.as_reg;
 	case node_type_string:
 		return (0 == strcmp(n1->data.as_string, n2->data.as_string));
+	case node_type_empty:
+		return 1;
+	case node_type_array:
+		if (n1->data.as_array.nargs != n2->data.as_array.nargs)
+			return 0;
+		for (int i = 0; i < n1->data.as_array.nargs; i++) {
+			if (!node_equal(n1->data.as_array.args[i], n2->data.as_array.args[i]))
+				return 0;
+		}
+		return 1;
 	default:
 		break;
 	}
@@ -515,7 +525,14 @@ void node_print_array(FILE *f, struct node const *n) {
 	if (n->type != node_type_array)
 		return;
 	for (int i = 0; i < n->data.as_array.nargs; i++) {
-		node_print(f, n->data.as_array.args[i]);
+		struct node const *arg = n->data.as_array.args[i];
+		if (node_type_of(arg) == node_type_string) {
+			fputc('/', f);
+			node_print_escaped(f, arg->data.as_string);
+			fputc('/', f);
+		} else {
+			node_print(f, arg);
+		}
 		if ((i+1) < n->data.as_array.nargs)
 			fprintf(f, ",");
 	}
diff --git a/src/program.c b/src/program.c
index 985d6c9..ab98488 100644
--- a/src/program.c
+++ b/src/program.c
@@ -246,6 +246,7 @@ static void print_symbol(const char *key, FILE *f) {
 		case node_type_float:
 		case node_type_reg:
 		case node_type_string:
+		case node_type_array:
 			break;
 		}
 		fprintf(f, "%s\tequ\t", key);
-- 
2.43.0


From 0b8d3f7f7d49e440fad5d8be01db9ee98a1f5c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:44 +0000
Subject: [PATCH 53/77] fix: check for overlapping data before writing any file

---
 src/asm6809.c |  3 +++
 src/section.c | 20 +++++++++++++++++++-
 src/section.h |  4 ++++
 3 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/asm6809.c b/src/asm6809.c
index 2bc0776..eb22301 100644
--- a/src/asm6809.c
+++ b/src/asm6809.c
@@ -259,6 +259,9 @@ int main(int argc, char **argv) {
 	if (exports_filename)
 		prog_check_exports();
 
+	/* Neither may data overlap */
+	section_check_overlap();
+
 	/* Don't write anything if that failed */
 	if (error_level >= error_type_inconsistent) {
 		error_print_list();
diff --git a/src/section.c b/src/section.c
index 954439a..bc6f130 100644
--- a/src/section.c
+++ b/src/section.c
@@ -218,7 +218,9 @@ void section_coalesce(struct section *sect, _Bool sort, _Bool pad) {
 	sect->spans = spans;
 }
 
-struct section *section_coalesce_all(_Bool pad) {
+/* A new section referring to the spans of every section. */
+
+static struct section *section_merge_all(void) {
 	struct section *sect = section_new();
 
 	struct slist *section_list = dict_get_values(sections);
@@ -227,7 +229,23 @@ struct section *section_coalesce_all(_Bool pad) {
 		sect->spans = slist_concat(sect->spans, slist_copy_deep(s->spans, (slist_copy_func)section_span_ref, NULL));
 	}
 	slist_free(section_list);
+	return sect;
+}
 
+void section_check_overlap(void) {
+	struct section *sect = section_merge_all();
+	sect->spans = slist_sort(sect->spans, (slist_cmp_func)span_cmp);
+	for (struct slist *l = sect->spans; l && l->next; l = l->next) {
+		struct section_span *span = l->data;
+		struct section_span *nspan = l->next->data;
+		if (span->put + span->size > nspan->put)
+			error(error_type_data, "data at $%04X overlaps data at $%04X", span->put, nspan->put);
+	}
+	section_free(sect);
+}
+
+struct section *section_coalesce_all(_Bool pad) {
+	struct section *sect = section_merge_all();
 	section_coalesce(sect, 1, pad);
 	return sect;
 }
diff --git a/src/section.h b/src/section.h
index d976c8b..f4a418f 100644
--- a/src/section.h
+++ b/src/section.h
@@ -126,6 +126,10 @@ void section_coalesce(struct section *, _Bool sort, _Bool pad);
 
 struct section *section_coalesce_all(_Bool pad);
 
+/* Report an error for any data that would overlap when coalesced. */
+
+void section_check_overlap(void);
+
 /* Types of data that assembly instructions and pseudo-ops can pass to
  * section_emit() */
 
-- 
2.43.0


From a4776bc0f240c4e1003d453a5a7a83226b08e380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:25 +0000
Subject: [PATCH 54/77] fix: report running out of memory instead of aborting

---
 src/error.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/error.c b/src/error.c
index 4aafc36..424b4fb 100644
--- a/src/error.c
+++ b/src/error.c
@@ -98,6 +98,17 @@ void error_abort(const char *fmt, ...) {
 	exit(EXIT_FAILURE);
 }
 
+/*
+ * Called when out of memory.  Replaces the version in gnulib, which expects
+ * error() to be the one in the C library.
+ */
+
+void xalloc_die(void) {
+	fflush(stdout);
+	fputs("error: memory exhausted\n", stderr);
+	exit(EXIT_FAILURE);
+}
+
 /*
  * Clear all errors reported in the previous pass.
  */
-- 
2.43.0


From 8959af726e817fb8b581ca5de43f3ee8bfda45e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:25 +0000
Subject: [PATCH 55/77] fix: exit with status 1 if the scanner runs out of
 memory

---
 src/lex.l | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lex.l b/src/lex.l
index 9582696..6187bfd 100644
--- a/src/lex.l
+++ b/src/lex.l
@@ -24,6 +24,9 @@ option) any later version.
 
 #include "grammar.h"
 
+/* Status if flex runs out of memory */
+#define YY_EXIT_FAILURE EXIT_FAILURE
+
 static int delim;
 
 static char *text_dup(const char *s, size_t n);
-- 
2.43.0


From 957b1970928db7d1c4cb477483bb1262a70ab5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:50 +0000
Subject: [PATCH 56/77] fix: accept register names as part of pasted names

A symbol, label or instruction name built from a macro argument could not
start with a register's name, nor could a label or instruction end with
one: B\1 or A\1 were syntax errors.  Only whole words name registers, and
an instruction never does.
---
 src/lex.l | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/lex.l b/src/lex.l
index 6187bfd..955c55c 100644
--- a/src/lex.l
+++ b/src/lex.l
@@ -30,6 +30,7 @@ option) any later version.
 static int delim;
 
 static char *text_dup(const char *s, size_t n);
+static int id(void);
 static int id_or_reg(void);
 static int read_line(char *buf, int max_size);
 
@@ -77,7 +78,9 @@ ${hexdigit}+	{ yylval.as_int = strtoimax(yytext+1, NULL, 16); return INTEGER; }
 '.		{ yylval.as_int = (unsigned char)*(yytext+1); return INTEGER; }
 \!		{ yylval.as_int = 0; return INTEGER; }
 
-{word}		{ return id_or_reg(); }
+^{word}		{ return id_or_reg(); }
+^{word}[\\&]	{ yyless(yyleng-1); return id(); }
+{word}		{ return id(); }
 &{digit}	{ yylval.as_string = text_dup(yytext+1, yyleng-1); return INTERP; }
 &\{{decimal}\}	{ yylval.as_string = text_dup(yytext+2, yyleng-3); return INTERP; }
 \\{digit}	{ yylval.as_string = text_dup(yytext+1, yyleng-1); return INTERP; }
@@ -93,7 +96,7 @@ ${hexdigit}+	{ yylval.as_int = strtoimax(yytext+1, NULL, 16); return INTEGER; }
 
 <opcode>{
 
-{word}		{ return id_or_reg(); }
+{word}		{ return id(); }
 &{digit}	{ yylval.as_string = text_dup(yytext+1, yyleng-1); return INTERP; }
 &\{{decimal}\}	{ yylval.as_string = text_dup(yytext+2, yyleng-3); return INTERP; }
 \\{digit}	{ yylval.as_string = text_dup(yytext+1, yyleng-1); return INTERP; }
@@ -127,6 +130,8 @@ ${hexdigit}+	{ yylval.as_int = strtoimax(yytext+1, NULL, 16); return INTEGER; }
 <arg,argnostr>{
 
 {word}		{ BEGIN(argnostr); return id_or_reg(); }
+{word}\\		{ yyless(yyleng-1); BEGIN(argnostr); return id(); }
+{word}&\{	{ yyless(yyleng-2); BEGIN(argnostr); return id(); }
 
 }
 
@@ -223,14 +228,18 @@ static char *text_dup(const char *s, size_t n) {
 	return d;
 }
 
+static int id(void) {
+	yylval.as_string = text_dup(yytext, yyleng);
+	return ID;
+}
+
 static int id_or_reg(void) {
 	enum reg_id r = reg_name_to_id(yytext);
 	if (r != REG_INVALID) {
 		yylval.as_reg = r;
 		return REGISTER;
 	}
-	yylval.as_string = text_dup(yytext, yyleng);
-	return ID;
+	return id();
 }
 
 /*
-- 
2.43.0


From 96523e9091bc76827ffa61c01a04086072bd6939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:34 +0000
Subject: [PATCH 57/77] fix: give symbols defined by option their value at the
 start of each pass

A symbol defined with -d and then SET in terms of itself started each pass
with the value it had at the end of the one before, so its value depended
on the number of passes needed.
---
 src/asm6809.c | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/asm6809.c b/src/asm6809.c
index eb22301..b260872 100644
--- a/src/asm6809.c
+++ b/src/asm6809.c
@@ -83,6 +83,13 @@ static struct option long_options[] = {
 
 static struct slist *files = NULL;
 
+/* Symbols defined by option */
+struct define {
+	char *key;
+	struct node *value;
+};
+static struct slist *defines = NULL;
+
 static struct node *simple_parse_int(const char *);
 static void define_symbol(const char *);
 static void helptext(void);
@@ -215,6 +222,11 @@ int main(int argc, char **argv) {
 		error_clear_all();
 		listing_free_all();
 		section_set("CODE", pass);
+		/* Symbols defined by option may have been SET in the last pass */
+		for (struct slist *l = defines; pass > 0 && l; l = l->next) {
+			struct define *d = l->data;
+			symbol_set(d->key, d->value, 1, pass);
+		}
 		for (struct slist *l = files; l; l = l->next) {
 			struct prog *f = l->data;
 			assemble_prog(f, pass);
@@ -380,8 +392,10 @@ static void define_symbol(const char *str) {
 	}
 	// TODO: check that key is a valid symbol name
 	symbol_set(key, value, 0, 0);
-	free(key);
-	node_free(value);
+	struct define *d = xmalloc(sizeof(*d));
+	d->key = key;
+	d->value = value;
+	defines = slist_append(defines, d);
 }
 
 // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -438,6 +452,13 @@ static _Noreturn void tidy_up_and_exit(int status) {
 		slist_free(files);
 		files = NULL;
 	}
+	while (defines) {
+		struct define *d = defines->data;
+		defines = slist_remove(defines, d);
+		node_free(d->value);
+		free(d->key);
+		free(d);
+	}
 	listing_free_all();
 	prog_free_all();
 	symbol_free_all();
-- 
2.43.0


From 4c13d51570d0d15b282a99de3472707d9085af38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:25 +0000
Subject: [PATCH 58/77] fix: report a section whose size doesn't stabilise

If nothing but the size of a section changed in the last pass permitted,
the exit status was 1 but no message was printed.
---
 src/section.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/section.c b/src/section.c
index bc6f130..9a21e06 100644
--- a/src/section.c
+++ b/src/section.c
@@ -138,7 +138,6 @@ void section_set(const char *name, unsigned pass) {
 }
 
 static void verify_section(void *key, void *value, void *data) {
-	(void)key;
 	(void)data;
 	struct section *sect = value;
 	if (!sect)
@@ -153,7 +152,7 @@ static void verify_section(void *key, void *value, void *data) {
 	if (sect->last_pc != sect->pc || sect->last_put != sect->put) {
 		sect->last_pc = sect->pc;
 		sect->last_put = sect->put;
-		error(error_type_inconsistent, NULL);
+		error(error_type_inconsistent, "size of section '%s' unstable", (const char *)key);
 	}
 }
 
-- 
2.43.0


From 5c671eac4a52b44f56c05b6539f083b13d7f4212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:14 +0000
Subject: [PATCH 59/77] fix: don't truncate the number of a positional variable

---
 src/interp.c | 4 ++--
 src/interp.h | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/interp.c b/src/interp.c
index 571241b..83741a8 100644
--- a/src/interp.c
+++ b/src/interp.c
@@ -45,7 +45,7 @@ void interp_pop(void) {
 	node_free(n);
 }
 
-struct node *interp_get(int index) {
+struct node *interp_get(long index) {
 	if (!interp_stack) {
 		error(error_type_syntax, "no positional variables on stack");
 		return NULL;
@@ -53,7 +53,7 @@ struct node *interp_get(int index) {
 	struct node *args = interp_stack->data;
 	int nargs = args ? args->data.as_array.nargs : 0;
 	if (index < 1 || index > nargs) {
-		error(error_type_syntax, "invalid positional variable: %d", index);
+		error(error_type_syntax, "invalid positional variable: %ld", index);
 		return NULL;
 	}
 	struct node *n = args->data.as_array.args[index-1];
diff --git a/src/interp.h b/src/interp.h
index 15113fe..0d66075 100644
--- a/src/interp.h
+++ b/src/interp.h
@@ -22,6 +22,6 @@ void interp_push(struct node *);
 void interp_pop(void);
 
 /* Fetch positional variable from the current array. */
-struct node *interp_get(int index);
+struct node *interp_get(long index);
 
 #endif
-- 
2.43.0


From 23871b4217fb6f1a6f0103ec9cc3dfb42566623e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:22 +0000
Subject: [PATCH 60/77] fix: notice when only the attribute of a register
 symbol changes

---
 src/node.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/node.c b/src/node.c
index d525d8f..8b7f419 100644
--- a/src/node.c
+++ b/src/node.c
@@ -171,7 +171,7 @@ _Bool node_equal(struct node const *n1, struct node const *n2) {
 	case node_type_int:
 		return n1->data.as_int == n2->data.as_int;
 	case node_type_reg:
-		return n1->data.as_reg == n2->data.as_reg;
+		return n1->data.as_reg == n2->data.as_reg && n1->attr == n2->attr;
 	case node_type_string:
 		return (0 == strcmp(n1->data.as_string, n2->data.as_string));
 	case node_type_empty:
-- 
2.43.0


From 726935bf07e1a1daedc09751de05fd93dd425cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:48 +0000
Subject: [PATCH 61/77] fix: number errors found in parsing by the line being
 parsed

---
 src/grammar.y | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/grammar.y b/src/grammar.y
index 9467712..23e0488 100644
--- a/src/grammar.y
+++ b/src/grammar.y
@@ -224,6 +224,8 @@ struct prog *grammar_parse_file(const char *filename) {
 	}
 	struct prog *prog = prog_new(prog_type_file, filename);
 	cur_ctx = prog_ctx_new(prog);
+	// number errors by the line being parsed, which has yet to be added
+	cur_ctx->line_number = 1;
 	if (yyparse() != 0) {
 		error(error_type_fatal, "parser failed");
 	}
-- 
2.43.0


From 5e27e640885d17da8f3dd8afefae52d21542edb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:01 +0000
Subject: [PATCH 62/77] fix: discard local labels that are not set in a later
 pass

---
 src/section.c |  3 +++
 src/symbol.c  | 27 ++++++++++++++++++++++++++-
 src/symbol.h  |  6 ++++++
 3 files changed, 35 insertions(+), 1 deletion(-)

diff --git a/src/section.c b/src/section.c
index 9a21e06..b4a7ea8 100644
--- a/src/section.c
+++ b/src/section.c
@@ -154,6 +154,9 @@ static void verify_section(void *key, void *value, void *data) {
 		sect->last_put = sect->put;
 		error(error_type_inconsistent, "size of section '%s' unstable", (const char *)key);
 	}
+	// references may have found a local label that's no longer there
+	if (symbol_local_finish_pass(sect->local_labels, sect->pass))
+		error(error_type_inconsistent, "local labels of section '%s' unstable", (const char *)key);
 }
 
 void section_finish_pass(void) {
diff --git a/src/symbol.c b/src/symbol.c
index bddc29c..a1f0d3c 100644
--- a/src/symbol.c
+++ b/src/symbol.c
@@ -49,6 +49,7 @@ struct symbol {
 
 struct symbol_local {
 	unsigned line_number;
+	unsigned pass;
 	struct node *node;
 };
 
@@ -218,7 +219,6 @@ struct node *symbol_local_fwdref(struct dict *table, intptr_t key, unsigned line
 
 void symbol_local_set(struct dict *table, intptr_t key, unsigned line_number,
 		      struct node *value, unsigned pass) {
-	(void)pass;
 	gl_list_t sym_list = dict_lookup(table, (void *)key);
 	gl_list_node_t old_lnode = NULL;
 	struct symbol_local const *old_sym = NULL;
@@ -234,6 +234,7 @@ void symbol_local_set(struct dict *table, intptr_t key, unsigned line_number,
 	struct node *newn = eval_node(value);
 	struct symbol_local *new_sym = xmalloc(sizeof(*new_sym));
 	new_sym->line_number = line_number;
+	new_sym->pass = pass;
 	new_sym->node = newn;
 	if (old_sym) {
 		if (!node_equal(old_sym->node, newn))
@@ -245,3 +246,27 @@ void symbol_local_set(struct dict *table, intptr_t key, unsigned line_number,
 	}
 	gl_sortedlist_add(sym_list, sym_local_compar, new_sym);
 }
+
+struct finish_pass {
+	unsigned pass;
+	_Bool removed;
+};
+
+static void symbol_local_list_finish_pass(void *key, void *value, void *data) {
+	(void)key;
+	gl_list_t sym_list = value;
+	struct finish_pass *finish = data;
+	for (size_t i = gl_list_size(sym_list); i > 0; i--) {
+		struct symbol_local const *sym = gl_list_get_at(sym_list, i - 1);
+		if (sym->pass != finish->pass) {
+			gl_list_remove_at(sym_list, i - 1);
+			finish->removed = 1;
+		}
+	}
+}
+
+_Bool symbol_local_finish_pass(struct dict *table, unsigned pass) {
+	struct finish_pass finish = { .pass = pass, .removed = 0 };
+	dict_foreach(table, symbol_local_list_finish_pass, &finish);
+	return finish.removed;
+}
diff --git a/src/symbol.h b/src/symbol.h
index 03705f6..d5ae6b5 100644
--- a/src/symbol.h
+++ b/src/symbol.h
@@ -59,4 +59,10 @@ struct node *symbol_local_fwdref(struct dict *table, intptr_t key, unsigned line
 void symbol_local_set(struct dict *table, intptr_t key, unsigned line_number,
 		      struct node *value, unsigned pass);
 
+/*
+ * Discard local labels not set in this pass.  Returns true if there were any.
+ */
+
+_Bool symbol_local_finish_pass(struct dict *table, unsigned pass);
+
 #endif
-- 
2.43.0


From 0b4dd2367012288c088674906fe9384a0c8d4481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:52 +0000
Subject: [PATCH 63/77] fix: don't truncate numeric values for registers before
 checking them

---
 src/instr.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/instr.c b/src/instr.c
index 6edc207..b4b8474 100644
--- a/src/instr.c
+++ b/src/instr.c
@@ -560,7 +560,7 @@ void instr_pair(struct opcode const *op, struct node const *args) {
 				return;
 			}
 		} else if (type[i] == node_type_int) {
-			int v = arga[i]->data.as_int;
+			int64_t v = arga[i]->data.as_int;
 			if (v == 0 && asm6809_options.isa == asm6809_isa_6309) {
 				nibble[i] = 0x0c;
 				size[i] = 16 | 8;
@@ -614,7 +614,7 @@ void instr_tfm(struct opcode const *op, struct node const *args) {
 			}
 			nibble[i] = v;
 		} else if (type[i] == node_type_int) {
-			int v = arga[i]->data.as_int;
+			int64_t v = arga[i]->data.as_int;
 			error(error_type_illegal, "numerical values used in TFM op");
 			if (v < 0 || v > 4) {
 				error(error_type_out_of_range, "numeric value for register out of range");
-- 
2.43.0


From 4daeb1fdc1a3cd960079bf857f6dcde7543221a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:02 +0000
Subject: [PATCH 64/77] fix: numbers that can't be represented are errors

---
 src/asm6809.c |  3 ++-
 src/lex.l     | 46 ++++++++++++++++++++++++++++++----------------
 2 files changed, 32 insertions(+), 17 deletions(-)

diff --git a/src/asm6809.c b/src/asm6809.c
index b260872..ca1b3c3 100644
--- a/src/asm6809.c
+++ b/src/asm6809.c
@@ -369,8 +369,9 @@ static struct node *simple_parse_int(const char *str) {
 	if (!c_isxdigit(*str))
 		return NULL;
 	char *end;
+	errno = 0;
 	int64_t v = strtoimax(str, &end, base);
-	if (end == str || *end)
+	if (end == str || *end || errno == ERANGE)
 		return NULL;
 	return node_new_int(v);
 }
diff --git a/src/lex.l b/src/lex.l
index 955c55c..07906a8 100644
--- a/src/lex.l
+++ b/src/lex.l
@@ -13,6 +13,8 @@ option) any later version.
 
 #include "config.h"
 
+#include <errno.h>
+#include <inttypes.h>
 #include <stdio.h>
 #include <string.h>
 
@@ -30,6 +32,7 @@ option) any later version.
 static int delim;
 
 static char *text_dup(const char *s, size_t n);
+static int number(const char *s, int base, int token);
 static int id(void);
 static int id_or_reg(void);
 static int read_line(char *buf, int max_size);
@@ -67,13 +70,13 @@ rword	[A-Za-z0-9_\.]+
 
 <INITIAL>{
 
-\%{bindigit}+	{ yylval.as_int = strtoimax(yytext+1, NULL, 2); return INTEGER; }
-0b{bindigit}+	{ yylval.as_int = strtoimax(yytext+2, NULL, 2); return INTEGER; }
-@{octdigit}+	{ yylval.as_int = strtoimax(yytext+1, NULL, 8); return INTEGER; }
-0{octdigit}+	{ yylval.as_int = strtoimax(yytext, NULL, 8); return INTEGER; }
-{decimal}	{ yylval.as_int = strtoimax(yytext, NULL, 10); return INTEGER; }
-${hexdigit}+	{ yylval.as_int = strtoimax(yytext+1, NULL, 16); return INTEGER; }
-0x{hexdigit}+	{ yylval.as_int = strtoimax(yytext+2, NULL, 16); return INTEGER; }
+\%{bindigit}+	{ return number(yytext+1, 2, INTEGER); }
+0b{bindigit}+	{ return number(yytext+2, 2, INTEGER); }
+@{octdigit}+	{ return number(yytext+1, 8, INTEGER); }
+0{octdigit}+	{ return number(yytext, 8, INTEGER); }
+{decimal}	{ return number(yytext, 10, INTEGER); }
+${hexdigit}+	{ return number(yytext+1, 16, INTEGER); }
+0x{hexdigit}+	{ return number(yytext+2, 16, INTEGER); }
 '.'		{ yylval.as_int = (unsigned char)*(yytext+1); return INTEGER; }
 '.		{ yylval.as_int = (unsigned char)*(yytext+1); return INTEGER; }
 \!		{ yylval.as_int = 0; return INTEGER; }
@@ -150,16 +153,16 @@ ${hexdigit}+	{ yylval.as_int = strtoimax(yytext+1, NULL, 16); return INTEGER; }
 \+\+		{ BEGIN(argnostr); return INC2; }
 \-\-		{ BEGIN(argnostr); return DEC2; }
 
-{decimal}[bB]	{ BEGIN(argnostr); yylval.as_int = strtoimax(yytext, NULL, 10); return BACKREF; }
-{decimal}[fF]	{ BEGIN(argnostr); yylval.as_int = strtoimax(yytext, NULL, 10); return FWDREF; }
+{decimal}[bB]	{ BEGIN(argnostr); return number(yytext, 10, BACKREF); }
+{decimal}[fF]	{ BEGIN(argnostr); return number(yytext, 10, FWDREF); }
 
-\%{bindigit}+	{ BEGIN(argnostr); yylval.as_int = strtoimax(yytext+1, NULL, 2); return INTEGER; }
-0b{bindigit}+	{ BEGIN(argnostr); yylval.as_int = strtoimax(yytext+2, NULL, 2); return INTEGER; }
-@{octdigit}+	{ BEGIN(argnostr); yylval.as_int = strtoimax(yytext+1, NULL, 8); return INTEGER; }
-0{octdigit}+	{ BEGIN(argnostr); yylval.as_int = strtoimax(yytext, NULL, 8); return INTEGER; }
-{decimal}	{ BEGIN(argnostr); yylval.as_int = strtoimax(yytext, NULL, 10); return INTEGER; }
-${hexdigit}+	{ BEGIN(argnostr); yylval.as_int = strtoimax(yytext+1, NULL, 16); return INTEGER; }
-0x{hexdigit}+	{ BEGIN(argnostr); yylval.as_int = strtoimax(yytext+2, NULL, 16); return INTEGER; }
+\%{bindigit}+	{ BEGIN(argnostr); return number(yytext+1, 2, INTEGER); }
+0b{bindigit}+	{ BEGIN(argnostr); return number(yytext+2, 2, INTEGER); }
+@{octdigit}+	{ BEGIN(argnostr); return number(yytext+1, 8, INTEGER); }
+0{octdigit}+	{ BEGIN(argnostr); return number(yytext, 8, INTEGER); }
+{decimal}	{ BEGIN(argnostr); return number(yytext, 10, INTEGER); }
+${hexdigit}+	{ BEGIN(argnostr); return number(yytext+1, 16, INTEGER); }
+0x{hexdigit}+	{ BEGIN(argnostr); return number(yytext+2, 16, INTEGER); }
 '.'		{ BEGIN(argnostr); yylval.as_int = (unsigned char)*(yytext+1); return INTEGER; }
 '.		{ BEGIN(argnostr); yylval.as_int = (unsigned char)*(yytext+1); return INTEGER; }
 [0-9]*\.[0-9]+	|
@@ -228,6 +231,17 @@ static char *text_dup(const char *s, size_t n) {
 	return d;
 }
 
+/* A number that can't be represented isn't valid.  Returning something the
+ * grammar never expects makes it a syntax error. */
+
+static int number(const char *s, int base, int token) {
+	errno = 0;
+	yylval.as_int = strtoimax(s, NULL, base);
+	if (errno == ERANGE)
+		return '\1';
+	return token;
+}
+
 static int id(void) {
 	yylval.as_string = text_dup(yytext, yyleng);
 	return ID;
-- 
2.43.0


From 4e825934bdc57ed38df58312c4065f850f4570e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:56 +0000
Subject: [PATCH 65/77] fix: a number in place of the register of a bit
 operation had no effect

---
 src/instr.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/instr.c b/src/instr.c
index b4b8474..9c5355b 100644
--- a/src/instr.c
+++ b/src/instr.c
@@ -664,8 +664,11 @@ void instr_reg_mem(struct opcode const *op, struct node const *args) {
 	case node_type_undef:
 		break;
 	case node_type_int:
-		pbyte |= (arga[0]->data.as_int & 3) << 6;
+		pbyte = (arga[0]->data.as_int & 3) << 6;
 		error(error_type_illegal, "numerical value used in place of register");
+		if (arga[0]->data.as_int < 0 || arga[0]->data.as_int > 3) {
+			error(error_type_out_of_range, "numeric value for register out of range");
+		}
 		break;
 	case node_type_reg:
 		switch (arga[0]->data.as_reg) {
-- 
2.43.0


From 2d0c39382e0550a3c736f022ccfa16aa0996399a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:18 +0000
Subject: [PATCH 66/77] fix: registers named by symbols defined later in PSHS,
 PULS and TFM

An operand not known in the first pass was reported as a syntax error,
which ends assembly, instead of being looked at again in the next.
---
 src/instr.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/instr.c b/src/instr.c
index 9c5355b..2242799 100644
--- a/src/instr.c
+++ b/src/instr.c
@@ -514,6 +514,9 @@ void instr_stack(struct opcode const *op, struct node const *args, enum reg_id s
 
 	int pbyte = 0;
 	for (int i = 0; i < nargs; i++) {
+		// may yet be found to be a register
+		if (node_type_of(arga[i]) == node_type_undef)
+			continue;
 		if (node_type_of(arga[i]) != node_type_reg) {
 			error(error_type_syntax, "invalid argument");
 			return;
@@ -636,6 +639,9 @@ void instr_tfm(struct opcode const *op, struct node const *args) {
 		mod = 2;
 	} else if (attr[0] == node_attr_none && attr[1] == node_attr_postinc) {
 		mod = 3;
+	} else if (type[0] == node_type_undef || type[1] == node_type_undef) {
+		// may yet be found to be a register
+		mod = 0;
 	} else {
 		error(error_type_syntax, "invalid TFM mode");
 		return;
-- 
2.43.0


From 1f6886c44415fed2fee5bb5e4225d3520951feb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:48 +0000
Subject: [PATCH 67/77] fix: a second ELSE after a taken branch and an ELSIF
 was accepted

---
 src/assemble.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/assemble.c b/src/assemble.c
index ef1eca5..580c41f 100644
--- a/src/assemble.c
+++ b/src/assemble.c
@@ -446,9 +446,9 @@ void assemble_prog(struct prog *prog, unsigned pass) {
 				error(error_type_syntax, "repeated ELSE");
 			} else if (cond_excluded == cond_list) {
 				if ((intptr_t)cond_list->data != cond_state_if_done) {
-					cond_list->data = (void *)cond_state_else;
 					cond_excluded = NULL;
 				}
+				cond_list->data = (void *)cond_state_else;
 			} else if (!cond_excluded) {
 				cond_list->data = (void *)cond_state_else;
 				cond_excluded = cond_list;
-- 
2.43.0


From ab852a1387d714d0d19a56507ac1face50685d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:13 +0000
Subject: [PATCH 68/77] fix: labels at negative addresses were missing from the
 listing on some lines

---
 src/assemble.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/assemble.c b/src/assemble.c
index 580c41f..42ac961 100644
--- a/src/assemble.c
+++ b/src/assemble.c
@@ -531,7 +531,7 @@ void assemble_prog(struct prog *prog, unsigned pass) {
 		/* Other pseudo-ops */
 		op_handler = dict_lookup(pseudo_dict, n_line.opcode->data.as_string);
 		if (op_handler) {
-			listing_add_line(cur_section->pc, 0, NULL, l->text);
+			listing_add_line(cur_section->pc & 0xffff, 0, NULL, l->text);
 			op_handler(&n_line);
 			goto next_line;
 		}
@@ -711,7 +711,7 @@ static void pseudo_section(struct prog_line *line) {
 	section_set(n->data.as_string, asm_pass);
 	node_free(n);
 	set_label(line->label, node_new_int(cur_section->pc), 0);
-	listing_add_line(cur_section->pc, 0, NULL, line->text);
+	listing_add_line(cur_section->pc & 0xffff, 0, NULL, line->text);
 }
 
 /*
@@ -721,7 +721,7 @@ static void pseudo_section(struct prog_line *line) {
 static void pseudo_section_name(struct prog_line *line) {
 	section_set(line->opcode->data.as_string, asm_pass);
 	set_label(line->label, node_new_int(cur_section->pc), 0);
-	listing_add_line(cur_section->pc, 0, NULL, line->text);
+	listing_add_line(cur_section->pc & 0xffff, 0, NULL, line->text);
 }
 
 /* PUT.  Following instructions will be located at this address.  Allows
-- 
2.43.0


From 6457ff70e54d7b59e35ef3dbe0dc001fab078dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:09 +0000
Subject: [PATCH 69/77] fix: digits and dots could not follow a positional
 variable in a label

---
 src/lex.l | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/lex.l b/src/lex.l
index 07906a8..7d6504d 100644
--- a/src/lex.l
+++ b/src/lex.l
@@ -49,7 +49,9 @@ void lex_free_all(void);
 %option noinput
 %option nounput
 
+%s labelcont
 %s opcode
+%s opcodecont
 %s arg
 %s argnostr
 %s argnostrnum
@@ -68,7 +70,13 @@ rword	[A-Za-z0-9_\.]+
 
 %%
 
-<INITIAL>{
+<labelcont,opcodecont>{
+
+{rword}		{ yylval.as_string = text_dup(yytext, yyleng); return ID; }
+
+}
+
+<INITIAL,labelcont>{
 
 \%{bindigit}+	{ return number(yytext+1, 2, INTEGER); }
 0b{bindigit}+	{ return number(yytext+2, 2, INTEGER); }
@@ -84,26 +92,26 @@ ${hexdigit}+	{ return number(yytext+1, 16, INTEGER); }
 ^{word}		{ return id_or_reg(); }
 ^{word}[\\&]	{ yyless(yyleng-1); return id(); }
 {word}		{ return id(); }
-&{digit}	{ yylval.as_string = text_dup(yytext+1, yyleng-1); return INTERP; }
-&\{{decimal}\}	{ yylval.as_string = text_dup(yytext+2, yyleng-3); return INTERP; }
-\\{digit}	{ yylval.as_string = text_dup(yytext+1, yyleng-1); return INTERP; }
-\\\{{decimal}\}	{ yylval.as_string = text_dup(yytext+2, yyleng-3); return INTERP; }
+&{digit}	{ BEGIN(labelcont); yylval.as_string = text_dup(yytext+1, yyleng-1); return INTERP; }
+&\{{decimal}\}	{ BEGIN(labelcont); yylval.as_string = text_dup(yytext+2, yyleng-3); return INTERP; }
+\\{digit}	{ BEGIN(labelcont); yylval.as_string = text_dup(yytext+1, yyleng-1); return INTERP; }
+\\\{{decimal}\}	{ BEGIN(labelcont); yylval.as_string = text_dup(yytext+2, yyleng-3); return INTERP; }
 
 {ws}*[;\*].*	/* ";" or "*" introduces comment to end of line */
 {ws}+		{ BEGIN(opcode); return WS; }
 \r		/* skip CR */
-{ws}*\n		{ return '\n'; }
+{ws}*\n		{ BEGIN(INITIAL); return '\n'; }
 .		{ return (unsigned char)*yytext; }
 
 }
 
-<opcode>{
+<opcode,opcodecont>{
 
 {word}		{ return id(); }
-&{digit}	{ yylval.as_string = text_dup(yytext+1, yyleng-1); return INTERP; }
-&\{{decimal}\}	{ yylval.as_string = text_dup(yytext+2, yyleng-3); return INTERP; }
-\\{digit}	{ yylval.as_string = text_dup(yytext+1, yyleng-1); return INTERP; }
-\\\{{decimal}\}	{ yylval.as_string = text_dup(yytext+2, yyleng-3); return INTERP; }
+&{digit}	{ BEGIN(opcodecont); yylval.as_string = text_dup(yytext+1, yyleng-1); return INTERP; }
+&\{{decimal}\}	{ BEGIN(opcodecont); yylval.as_string = text_dup(yytext+2, yyleng-3); return INTERP; }
+\\{digit}	{ BEGIN(opcodecont); yylval.as_string = text_dup(yytext+1, yyleng-1); return INTERP; }
+\\\{{decimal}\}	{ BEGIN(opcodecont); yylval.as_string = text_dup(yytext+2, yyleng-3); return INTERP; }
 
 
 {ws}*;.*	/* ";" introduces comment to end of line */
-- 
2.43.0


From 457d8d8cc654f5a66e3a031d21c20187147d7f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:26 +0000
Subject: [PATCH 70/77] fix: macros kept the body given to them in an earlier
 pass

---
 src/assemble.c | 6 +++---
 src/program.c  | 4 ----
 2 files changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/assemble.c b/src/assemble.c
index 42ac961..e59dcfd 100644
--- a/src/assemble.c
+++ b/src/assemble.c
@@ -1062,11 +1062,11 @@ static void pseudo_macro(struct prog_line *line) {
 		return;
 	}
 	struct prog *macro = prog_macro_by_name(name);
-	if (macro) {
-		if (macro->pass == asm_pass)
-			error(error_type_syntax, "macro '%s' redefined", name);
+	if (macro && macro->pass == asm_pass) {
+		error(error_type_syntax, "macro '%s' redefined", name);
 		return;
 	}
+	// replaces any definition left by an earlier pass
 	macro = prog_new_macro(name);
 	macro->pass = asm_pass;
 	defining_macro_ctx = prog_ctx_new(macro);
diff --git a/src/program.c b/src/program.c
index ab98488..2abffef 100644
--- a/src/program.c
+++ b/src/program.c
@@ -66,10 +66,6 @@ struct prog *prog_new_file(const char *filename) {
 }
 
 struct prog *prog_new_macro(const char *name) {
-	if (prog_macro_by_name(name)) {
-		error(error_type_syntax, "attempt to redefined macro '%s'", name);
-		return NULL;
-	}
 	struct prog *macro = prog_new(prog_type_macro, name);
 	macros = slist_prepend(macros, macro);
 	return macro;
-- 
2.43.0


From 2eab8d1c33f0f5f4d2385eb71b3a8a29b33c221f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:27 +0000
Subject: [PATCH 71/77] fix: END kept an address that the last pass didn't
 specify

---
 src/asm6809.c  | 2 ++
 src/assemble.c | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/asm6809.c b/src/asm6809.c
index ca1b3c3..d94a930 100644
--- a/src/asm6809.c
+++ b/src/asm6809.c
@@ -222,6 +222,8 @@ int main(int argc, char **argv) {
 		error_clear_all();
 		listing_free_all();
 		section_set("CODE", pass);
+		/* Any address specified by END in the last pass may not apply */
+		symbol_force_set(".exec", NULL, 1, pass - 1);
 		/* Symbols defined by option may have been SET in the last pass */
 		for (struct slist *l = defines; pass > 0 && l; l = l->next) {
 			struct define *d = l->data;
diff --git a/src/assemble.c b/src/assemble.c
index e59dcfd..6be2b0e 100644
--- a/src/assemble.c
+++ b/src/assemble.c
@@ -1097,7 +1097,7 @@ static void pseudo_end(struct prog_line *line) {
 	struct node *n = eval_int(arga[0]);
 	if (!n && arga[0])
 		error(error_type_syntax, "invalid argument to END");
-	symbol_set(".exec", n, asm_pass, 0);
+	symbol_force_set(".exec", n, 0, asm_pass);
 	node_free(n);
 }
 
-- 
2.43.0


From 6a16cb329d931d153629a1c8f88ac4ada8c15bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:29 +0000
Subject: [PATCH 72/77] fix: reject auto increment in register lists and pairs

---
 src/instr.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/instr.c b/src/instr.c
index 2242799..f6735ec 100644
--- a/src/instr.c
+++ b/src/instr.c
@@ -523,6 +523,9 @@ void instr_stack(struct opcode const *op, struct node const *args, enum reg_id s
 		}
 		if (arga[i]->data.as_reg == stack)
 			goto invalid_register;
+		// auto increment, etc. are only for indexing
+		if (node_attr_of(arga[i]) != node_attr_none)
+			goto invalid_register;
 		uint8_t bit = reg_stack_bit[arga[i]->data.as_reg];
 		if (bit == 0)
 			goto invalid_register;
@@ -558,7 +561,8 @@ void instr_pair(struct opcode const *op, struct node const *args) {
 		if (type[i] == node_type_reg) {
 			nibble[i] = reg_tfr_nibble[arga[i]->data.as_reg];
 			size[i] = reg_tfr_size[arga[i]->data.as_reg];
-			if (nibble[i] < 0) {
+			// auto increment, etc. are only for indexing
+			if (nibble[i] < 0 || node_attr_of(arga[i]) != node_attr_none) {
 				error(error_type_syntax, "invalid register in inter-register op");
 				return;
 			}
@@ -677,6 +681,8 @@ void instr_reg_mem(struct opcode const *op, struct node const *args) {
 		}
 		break;
 	case node_type_reg:
+		if (node_attr_of(arga[0]) != node_attr_none)
+			goto invalid_register;
 		switch (arga[0]->data.as_reg) {
 		case REG_CC:
 			pbyte = 0;
-- 
2.43.0


From fd165c065c1dbd3f833755418def6eb1b2ef569a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:29 +0000
Subject: [PATCH 73/77] fix: reject an immediate operand to a branch

---
 src/instr.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/instr.c b/src/instr.c
index f6735ec..951f5f6 100644
--- a/src/instr.c
+++ b/src/instr.c
@@ -94,7 +94,8 @@ void instr_rel(struct opcode const *op, struct node const *args) {
 		return;
 	}
 	section_emit_op(op->immediate);
-	if (node_type_of(arga[0]) != node_type_int) {
+	if (node_type_of(arga[0]) != node_type_int ||
+	    node_attr_of(arga[0]) == node_attr_immediate) {
 		if (node_type_of(arga[0]) != node_type_undef)
 			error(error_type_syntax, "invalid branch target");
 		if ((op->type & OPCODE_EXT_TYPE) == OPCODE_REL8)
-- 
2.43.0


From a8a742d6e168ffecd8af6e45aab9a93de23a2882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:25 +0000
Subject: [PATCH 74/77] fix: listing symbols failed if an earlier pass left one
 undefined

---
 src/program.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/program.c b/src/program.c
index 2abffef..c94e924 100644
--- a/src/program.c
+++ b/src/program.c
@@ -223,7 +223,8 @@ static void print_symbol(const char *key, FILE *f) {
 	// internal symbols can't be defined in source
 	if (*key == '.')
 		return;
-	struct node *sym = symbol_get(key);
+	// may have been left without a value by an earlier pass
+	struct node *sym = symbol_try_get(key);
 	if (sym) {
 		struct node *n = eval_node(sym);
 		node_free(sym);
-- 
2.43.0


From 4d877d9f6a2f068d2a89417ff800e40eaa6f11e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:55 +0000
Subject: [PATCH 75/77] fix: symbols given an empty macro argument couldn't be
 listed

---
 src/program.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/program.c b/src/program.c
index c94e924..882f84a 100644
--- a/src/program.c
+++ b/src/program.c
@@ -239,6 +239,11 @@ static void print_symbol(const char *key, FILE *f) {
 			error(error_type_syntax, "can't export symbol type");
 			node_free(n);
 			return;
+		case node_type_empty:
+			// an omitted macro argument: nothing to write
+			n = node_set_attr(n, old_attr);
+			node_free(n);
+			return;
 		case node_type_int:
 		case node_type_float:
 		case node_type_reg:
@@ -297,6 +302,8 @@ static void check_exported(const char *key, void *value, void *data) {
 		return;
 	}
 	struct node *sym = symbol_get(key);
+	if (node_type_of(sym) == node_type_empty)
+		error(error_type_syntax, "can't export symbol '%s' without a value", key);
 	node_free(sym);
 }
 
-- 
2.43.0


From 72f062aa8e109da87622f101b30ff0d0ad57f704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:09 +0000
Subject: [PATCH 76/77] fix: pasting a value with no text quietly dropped what
 it was pasted into

---
 src/eval.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/eval.c b/src/eval.c
index 1176170..352ffee 100644
--- a/src/eval.c
+++ b/src/eval.c
@@ -135,6 +135,10 @@ struct node *eval_node(struct node *n) {
  * Cast a node to another of a specific type.
  */
 
+static void bad_pasted(void) {
+	error(error_type_syntax, "value of positional variable can't be pasted");
+}
+
 struct node *eval_string(struct node *n) {
 	if (!n)
 		return NULL;
@@ -162,6 +166,7 @@ struct node *eval_string(struct node *n) {
 			break;
 		case node_type_reg:
 			if (tmp->attr != node_attr_none) {
+				bad_pasted();
 				node_free(tmp);
 				node_free(out);
 				return NULL;
@@ -169,6 +174,10 @@ struct node *eval_string(struct node *n) {
 			addtext = xstrdup(reg_id_to_name(tmp->data.as_reg));
 			break;
 		default:
+			// omitting an argument may omit a label, but otherwise
+			// the result would be a line quietly ignored
+			if (tmp->type != node_type_empty || n->type != node_type_id || n->data.as_list->next)
+				bad_pasted();
 			node_free(tmp);
 			node_free(out);
 			return NULL;
-- 
2.43.0


From f3db0e5db885db37014f257aa65893b0cd61372c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:44 +0000
Subject: [PATCH 77/77] fix: EXPORT quietly ignored arguments that are no name

---
 src/assemble.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/assemble.c b/src/assemble.c
index 6be2b0e..022ecb7 100644
--- a/src/assemble.c
+++ b/src/assemble.c
@@ -769,6 +769,9 @@ static void pseudo_export(struct prog_line *line) {
 		if (n) {
 			prog_export(n->data.as_string);
 			node_free(n);
+		} else if (node_type_of(arga[i]) != node_type_id &&
+			   node_type_of(arga[i]) != node_type_text) {
+			error(error_type_syntax, "invalid argument to EXPORT");
 		}
 	}
 }
-- 
2.43.0

