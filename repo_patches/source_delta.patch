From a5526cb23bc7ae2e309466c685c4f0eea3e68849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:24 +0000
Subject: [PATCH 01/43] fix: linker_clear never freed the list of included
 files

---
 libs/macro/linker.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/macro/linker.c b/libs/macro/linker.c
index 3e89f65..d8075d3 100644
--- a/libs/macro/linker.c
+++ b/libs/macro/linker.c
@@ -203,7 +203,7 @@ bool linker_is_correct(const linker *const lk)
 
 int linker_clear(linker *const lk)
 {
-	if (lk != NULL)
+	if (lk == NULL)
 	{
 		return -1;
 	}
-- 
2.43.0


From 1c1227292569247b316167f4ecfff3047176f27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:24 +0000
Subject: [PATCH 02/43] fix: strings_create returned garbage pointers when an
 allocation failed

---
 libs/utils/strings.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libs/utils/strings.c b/libs/utils/strings.c
index 111d0cd..0cbc98c 100644
--- a/libs/utils/strings.c
+++ b/libs/utils/strings.c
@@ -71,6 +71,7 @@ strings strings_create(const size_t alloc)
 {
 	strings vec;
 
+	vec.all_strings = NULL;
 	vec.indexes_size = 0;
 	vec.indexes_alloc = alloc != 0 ? alloc : 1;
 
@@ -87,6 +88,7 @@ strings strings_create(const size_t alloc)
 	if (vec.all_strings == NULL)
 	{
 		free(vec.indexes);
+		vec.indexes = NULL;
 		return vec;
 	}
 
-- 
2.43.0


From 2c10afac0b955e88ed6a8c3c6dab29b0356ac3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:24 +0000
Subject: [PATCH 03/43] fix: an empty string added by vector had no terminator

---
 libs/utils/strings.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libs/utils/strings.c b/libs/utils/strings.c
index 0cbc98c..61bcf3d 100644
--- a/libs/utils/strings.c
+++ b/libs/utils/strings.c
@@ -161,7 +161,12 @@ size_t strings_add_by_vector(strings *const vec, const vector *const str)
 		vec->all_strings_size += utf8_to_string(&vec->all_strings[vec->all_strings_size], ch);
 	}
 
-	vec->all_strings_size++;
+	if (strings_increase(vec, 1))
+	{
+		return SIZE_MAX;
+	}
+
+	vec->all_strings[vec->all_strings_size++] = '\0';
 	return vec->indexes_size++;
 }
 
-- 
2.43.0


From 93c71fc365b396c3c9a87acb491a797c8575c87c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:04 +0000
Subject: [PATCH 04/43] fix: report success only if the output file was
 completely written

---
 libs/compiler/compiler.c |  7 ++++++-
 libs/macro/macro.c       |  6 +++++-
 libs/utils/uniio.c       | 19 ++++++++++++-------
 3 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/libs/compiler/compiler.c b/libs/compiler/compiler.c
index 5c88ed7..172a119 100644
--- a/libs/compiler/compiler.c
+++ b/libs/compiler/compiler.c
@@ -86,7 +86,12 @@ static status_t compile_from_io(const workspace *const ws, universal_io *const i
 	}
 
 	sx_clear(&sx);
-	io_erase(io);
+	if (io_erase(io) && !ret)
+	{
+		error_msg("ошибка ввода/вывода");
+		return sts_system_error;
+	}
+
 	return ret ? sts : sts_success;
 }
 
diff --git a/libs/macro/macro.c b/libs/macro/macro.c
index e081b5d..8bc867c 100644
--- a/libs/macro/macro.c
+++ b/libs/macro/macro.c
@@ -187,8 +187,12 @@ int macro_to_file(workspace *const ws, const char *const path)
 	}
 
 	int ret = macro_form_io(ws, &io);
+	if (io_erase(&io))
+	{
+		macro_system_error(TAG_LINKER, LINKER_WRONG_IO);
+		return -1;
+	}
 
-	io_erase(&io);
 	return ret;
 }
 
diff --git a/libs/utils/uniio.c b/libs/utils/uniio.c
index 6218fdc..959b6bd 100644
--- a/libs/utils/uniio.c
+++ b/libs/utils/uniio.c
@@ -421,7 +421,8 @@ int in_close_file(universal_io *const io)
 		return -1;
 	}
 
-	int ret = fclose(io->in_file);
+	int ret = ferror(io->in_file) ? -1 : 0;
+	ret = fclose(io->in_file) ? -1 : ret;
 	io->in_file = NULL;
 
 	io->in_position = 0;
@@ -436,9 +437,10 @@ int in_clear(universal_io *const io)
 		return -1;
 	}
 
+	int ret = 0;
 	if (in_is_file(io))
 	{
-		in_close_file(io);
+		ret = in_close_file(io);
 	}
 	else if (in_is_buffer(io))
 	{
@@ -453,7 +455,7 @@ int in_clear(universal_io *const io)
 	}
 
 	io->in_func = NULL;
-	return 0;
+	return ret;
 }
 
 
@@ -608,7 +610,8 @@ int out_close_file(universal_io *const io)
 		return -1;
 	}
 
-	int ret = fclose(io->out_file);
+	int ret = ferror(io->out_file) ? -1 : 0;
+	ret = fclose(io->out_file) ? -1 : ret;
 	io->out_file = NULL;
 
 	return ret;
@@ -621,9 +624,10 @@ int out_clear(universal_io *const io)
 		return -1;
 	}
 
+	int ret = 0;
 	if (out_is_file(io))
 	{
-		out_close_file(io);
+		ret = out_close_file(io);
 	}
 	else if (out_is_buffer(io))
 	{
@@ -635,11 +639,12 @@ int out_clear(universal_io *const io)
 	}
 
 	io->out_func = NULL;
-	return 0;
+	return ret;
 }
 
 
 int io_erase(universal_io *const io)
 {
-	return in_clear(io) || out_clear(io) ? -1 : 0;
+	const int ret = in_clear(io);
+	return out_clear(io) || ret ? -1 : 0;
 }
-- 
2.43.0


From 9ac75bac622b257738e1195b9ad63c3bab5cecfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:04 +0000
Subject: [PATCH 05/43] fix: report an error when a source or a header could
 not be read to the end

---
 libs/macro/macro.c  | 6 +++++-
 libs/macro/parser.c | 5 ++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/libs/macro/macro.c b/libs/macro/macro.c
index 8bc867c..fde5351 100644
--- a/libs/macro/macro.c
+++ b/libs/macro/macro.c
@@ -126,7 +126,11 @@ static int macro_form_io(workspace *const ws, universal_io *const output)
 		}
 
 		ret |= parser_preprocess(&prs, &in);
-		in_clear(&in);
+		if (in_clear(&in))
+		{
+			macro_system_error(TAG_LINKER, LINKER_WRONG_IO);
+			ret = -1;
+		}
 	}
 
 	parser_clear(&prs);
diff --git a/libs/macro/parser.c b/libs/macro/parser.c
index 506e545..759c6b2 100644
--- a/libs/macro/parser.c
+++ b/libs/macro/parser.c
@@ -1104,7 +1104,10 @@ static inline void parse_path(parser *const prs, const char32_t quote)
 	parse_extra(prs, storage_last_read(prs->stg));
 	universal_io header = linker_add_header(prs->lk, index);
 	parser_preprocess(prs, &header);
-	in_clear(&header);
+	if (in_clear(&header))
+	{
+		parser_error(prs, &loc, LINKER_WRONG_IO);
+	}
 }
 
 /**
-- 
2.43.0


From f59a46465948854c47e5c687f42ba29d8badfaed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:04 +0000
Subject: [PATCH 06/43] fix: a header that exists but cannot be opened was
 silently skipped

---
 libs/macro/parser.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libs/macro/parser.c b/libs/macro/parser.c
index 759c6b2..4b882b5 100644
--- a/libs/macro/parser.c
+++ b/libs/macro/parser.c
@@ -1103,6 +1103,12 @@ static inline void parse_path(parser *const prs, const char32_t quote)
 
 	parse_extra(prs, storage_last_read(prs->stg));
 	universal_io header = linker_add_header(prs->lk, index);
+	if (!in_is_correct(&header) && vector_get(&prs->lk->included, index) != 1)
+	{
+		parser_error(prs, &loc, LINKER_CANNOT_OPEN);
+		return;
+	}
+
 	parser_preprocess(prs, &header);
 	if (in_clear(&header))
 	{
-- 
2.43.0


From 968cc1b7e5d3d3a2eefe30b13672ee6f1f8b5cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:11 +0000
Subject: [PATCH 07/43] fix: the message about an unexpected node printed an
 address or garbage

---
 libs/compiler/codegen.c | 2 +-
 libs/compiler/errors.c  | 2 +-
 libs/compiler/mipsgen.c | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/libs/compiler/codegen.c b/libs/compiler/codegen.c
index e27ba7d..b091a72 100644
--- a/libs/compiler/codegen.c
+++ b/libs/compiler/codegen.c
@@ -619,7 +619,7 @@ static lvalue emit_lvalue(encoder *const enc, const node *const nd)
 
 		default:
 			// Cannot be lvalue
-			system_error(node_unexpected, nd);
+			system_error(node_unexpected);
 			return (lvalue){ .displ = ITEM_MAX };
 	}
 }
diff --git a/libs/compiler/errors.c b/libs/compiler/errors.c
index 53f6544..7586fb9 100644
--- a/libs/compiler/errors.c
+++ b/libs/compiler/errors.c
@@ -432,7 +432,7 @@ static void get_error(const err_t num, char *const msg, va_list args)
 
 		// Tree testing errors
 		case node_unexpected:
-			sprintf(msg, "недопустимый узел верхнего уровня %i", va_arg(args, int));
+			sprintf(msg, "недопустимый узел верхнего уровня");
 			break;
 
 		// Codegen errors
diff --git a/libs/compiler/mipsgen.c b/libs/compiler/mipsgen.c
index 2ddb375..b14b209 100644
--- a/libs/compiler/mipsgen.c
+++ b/libs/compiler/mipsgen.c
@@ -1560,7 +1560,7 @@ static lvalue emit_lvalue(encoder *const enc, const node *const nd)
 
 		default:
 			// Не может быть lvalue
-			system_error(node_unexpected, nd);
+			system_error(node_unexpected);
 			return (lvalue) { .loc.displ = ITEM_MAX };
 	}
 }
-- 
2.43.0


From e50126193a02fec3fd91b092cc98b4a0004bb17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:07 +0000
Subject: [PATCH 08/43] fix: labels in LLVM output could depend on
 uninitialised memory

---
 libs/compiler/llvmgen.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/compiler/llvmgen.c b/libs/compiler/llvmgen.c
index a0a3eaa..ecbb908 100644
--- a/libs/compiler/llvmgen.c
+++ b/libs/compiler/llvmgen.c
@@ -3226,7 +3226,7 @@ int encode_to_llvm(const workspace *const ws, syntax *const sx)
 		return -1;
 	}
 
-	information info;
+	information info = { 0 };
 	info.sx = sx;
 	info.register_num = 1;
 	info.label_num = 1;
-- 
2.43.0


From df4aa4de079ece7e792d3bb455a86e643f0be2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:53 +0000
Subject: [PATCH 09/43] fix: preprocessor crashed when a read error followed a
 hash character

---
 libs/macro/parser.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libs/macro/parser.c b/libs/macro/parser.c
index 4b882b5..1a1f498 100644
--- a/libs/macro/parser.c
+++ b/libs/macro/parser.c
@@ -966,6 +966,12 @@ static keyword_t parse_directive(parser *const prs)
 	uni_print_char(&out, '#');
 
 	size_t keyword = storage_search(prs->stg, prs->io);
+	if (storage_last_read(prs->stg) == NULL)	// Hash cannot be read again
+	{
+		out_clear(&out);
+		return NON_KEYWORD;
+	}
+
 	if (storage_last_read(prs->stg)[1] == '\0')
 	{
 		out_swap(prs->io, &out);
-- 
2.43.0


From c4c9bfc2fceeb90f6fb2fe930e39ed553b5aa0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:20 +0000
Subject: [PATCH 10/43] fix: a macro name that could not be stored or read
 matched every other identifier

---
 libs/macro/storage.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/libs/macro/storage.c b/libs/macro/storage.c
index 26c1808..db45922 100644
--- a/libs/macro/storage.c
+++ b/libs/macro/storage.c
@@ -45,6 +45,11 @@ static inline size_t add(storage *const stg, const void *const id, size_t (*rese
 	}
 
 	const size_t key = reserve(&stg->as, id);
+	if (key == SIZE_MAX)
+	{
+		return SIZE_MAX;
+	}
+
 	const size_t index = hash_add(&stg->hs, (item_t)key, 2);
 
 	map_set_by_index(&stg->as, key, (item_t)index);
@@ -110,6 +115,10 @@ size_t storage_add_by_io(storage *const stg, universal_io *const io)
 	char32_t last = (char32_t)EOF;
 	const size_t key = map_reserve_by_io(&stg->as, io, &last);
 	uni_unscan_char(io, last);
+	if (key == SIZE_MAX)
+	{
+		return SIZE_MAX;
+	}
 
 	const size_t index = hash_add(&stg->hs, (item_t)key, 2);
 	map_set_by_index(&stg->as, key, (item_t)index);
-- 
2.43.0


From 4f4331d77ac7602b73ceb5b5d0dc48020eb6401f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:23 +0000
Subject: [PATCH 11/43] fix: a structure cut by the end of file was parsed
 forever

---
 libs/compiler/parser.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libs/compiler/parser.c b/libs/compiler/parser.c
index 9b6f1a5..6e93bd1 100644
--- a/libs/compiler/parser.c
+++ b/libs/compiler/parser.c
@@ -994,6 +994,12 @@ static item_t parse_struct_declaration(parser *const prs, const node *const pare
 	{
 		const node member = parse_member_declaration(prs, &declaration);
 		node_vector_add(&members, &member);
+
+		if (token_is(&prs->tk, TK_EOF))
+		{
+			parser_error(prs, expected_r_brace, token_get_location(&prs->tk));
+			break;
+		}
 	}
 
 	const node result = build_struct_declaration(&prs->bld, &declaration, &members);
-- 
2.43.0


From ab07ff1417321ef3e282b80f27db050e4049a655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:47 +0000
Subject: [PATCH 12/43] fix: long or broken enumerations overflowed the stack

---
 libs/compiler/parser.c | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/libs/compiler/parser.c b/libs/compiler/parser.c
index 6e93bd1..01cffa2 100644
--- a/libs/compiler/parser.c
+++ b/libs/compiler/parser.c
@@ -22,6 +22,7 @@
 
 
 static const char *const DEFAULT_TREE = "tree.txt";
+static const size_t RECORD_SIZE = 100;
 
 
 /** Parser */
@@ -1076,18 +1077,21 @@ static item_t parse_enum_declaration_list(parser *const prs, const node *const p
 		return TYPE_UNDEFINED;
 	}
 
-	size_t local_md = 2;
 	item_t field_value = 0;
-	item_t local_modetab[100];
-
 	const item_t type = type_add(prs->sx, (item_t[]){ TYPE_ENUM }, 1);
 
+	vector record = vector_create(RECORD_SIZE);
+	vector_increase(&record, 2);
+
 	do
 	{
 		if (token_is_not(&prs->tk, TK_IDENTIFIER))
 		{
 			parser_error(prs, wait_ident_after_comma_in_enum);
 			skip_until(prs, TK_SEMICOLON | TK_R_BRACE);
+			try_consume_token(prs, TK_R_BRACE);
+			vector_clear(&record);
+			return TYPE_UNDEFINED;
 		}
 
 		const size_t name = token_get_ident_name(&prs->tk);
@@ -1111,6 +1115,7 @@ static item_t parse_enum_declaration_list(parser *const prs, const node *const p
 			if (field_value == INT_MAX || (type_expr != TYPE_INTEGER && type_expr != type))
 			{
 				parser_error(prs, not_const_int_expr);
+				vector_clear(&record);
 				return TYPE_UNDEFINED;
 			}
 			parse_init_enum_field_declarator(prs, -type, field_value++, name);
@@ -1120,8 +1125,8 @@ static item_t parse_enum_declaration_list(parser *const prs, const node *const p
 			parse_init_enum_field_declarator(prs, -type, field_value++, name);
 		}
 
-		local_modetab[local_md++] = field_value - 1;
-		local_modetab[local_md++] = (item_t)name;
+		vector_add(&record, field_value - 1);
+		vector_add(&record, (item_t)name);
 		if (token_is(&prs->tk, TK_R_BRACE))
 		{
 			continue;
@@ -1129,10 +1134,11 @@ static item_t parse_enum_declaration_list(parser *const prs, const node *const p
 		expect_and_consume(prs, TK_COMMA, no_comma_in_enum);
 	} while (!try_consume_token(prs, TK_R_BRACE));
 
-	local_modetab[1] = (item_t)(local_md - 2);
-	local_modetab[0] = local_modetab[2] / 2;
+	vector_set(&record, 1, (item_t)vector_size(&record) - 2);
+	vector_set(&record, 0, vector_get(&record, 2) / 2);
 
-	type_enum_add_fields(prs->sx, local_modetab, local_md);
+	type_enum_add_fields(prs->sx, record.array, vector_size(&record));
+	vector_clear(&record);
 	return type;
 }
 
-- 
2.43.0


From 837234d841d4d82a407054908af57bf7a10deb3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:47 +0000
Subject: [PATCH 13/43] fix: a function with many parameters overflowed the
 stack

---
 libs/compiler/parser.c | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/libs/compiler/parser.c b/libs/compiler/parser.c
index 01cffa2..52fdf39 100644
--- a/libs/compiler/parser.c
+++ b/libs/compiler/parser.c
@@ -1881,8 +1881,8 @@ static node parse_statement(parser *const prs)
  */
 static item_t parse_function_declarator(parser *const prs, const int level, int func_def, const item_t return_type)
 {
-	item_t local_modetab[100];
-	size_t local_md = 3;
+	vector record = vector_create(RECORD_SIZE);
+	vector_increase(&record, 3);
 	size_t args = 0;
 
 	if (try_consume_token(prs, TK_R_PAREN))
@@ -1926,6 +1926,7 @@ static item_t parse_function_declarator(parser *const prs, const int level, int
 				parser_error(prs, ident_in_declarator);
 				skip_until(prs, TK_R_PAREN | TK_SEMICOLON);
 				try_consume_token(prs, TK_R_PAREN);
+				vector_clear(&record);
 				return TYPE_UNDEFINED;
 			}
 
@@ -1968,6 +1969,7 @@ static item_t parse_function_declarator(parser *const prs, const int level, int
 						else
 						{
 							parser_error(prs, two_idents_for_1_declarer);
+							vector_clear(&record);
 							return TYPE_UNDEFINED;
 						}
 						func_add(prs->sx, -((item_t)token_get_ident_name(&prs->tk)));
@@ -1976,6 +1978,7 @@ static item_t parse_function_declarator(parser *const prs, const int level, int
 					else
 					{
 						parser_error(prs, ident_in_declarator);
+						vector_clear(&record);
 						return TYPE_UNDEFINED;
 					}
 				}
@@ -2011,28 +2014,32 @@ static item_t parse_function_declarator(parser *const prs, const int level, int
 					skip_until(prs, TK_R_BRACE);
 					try_consume_token(prs, TK_R_BRACE);
 				}
+				vector_clear(&record);
 				return TYPE_UNDEFINED;
 			}
 			else if (func_def == 1 && !was_ident)
 			{
 				parser_error(prs, wait_definition);
 				skip_until(prs, TK_R_PAREN | TK_SEMICOLON);
+				vector_clear(&record);
 				return TYPE_UNDEFINED;
 			}
 
 			args++;
-			local_modetab[local_md++] = type;
+			vector_add(&record, type);
 		} while (try_consume_token(prs, TK_COMMA));
 
 		expect_and_consume(prs, TK_R_PAREN, wrong_param_list);
 		prs->func_def = func_def;
 	}
 
-	local_modetab[0] = TYPE_FUNCTION;
-	local_modetab[1] = return_type;
-	local_modetab[2] = (item_t)args;
+	vector_set(&record, 0, TYPE_FUNCTION);
+	vector_set(&record, 1, return_type);
+	vector_set(&record, 2, (item_t)args);
 
-	return type_add(prs->sx, local_modetab, local_md);
+	const item_t type = type_add(prs->sx, record.array, vector_size(&record));
+	vector_clear(&record);
+	return type;
 }
 
 /**
-- 
2.43.0


From 26c333f1641a6dcbc6b7dce3e4506dc281f8efb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:47 +0000
Subject: [PATCH 14/43] fix: a structure with many members overflowed the stack

---
 libs/compiler/syntax.c | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/libs/compiler/syntax.c b/libs/compiler/syntax.c
index d49c94a..498bc34 100644
--- a/libs/compiler/syntax.c
+++ b/libs/compiler/syntax.c
@@ -720,25 +720,28 @@ item_t type_array_get_element_type(const syntax *const sx, const item_t type)
 
 item_t type_structure(syntax *const sx, vector *const types, vector *const names)
 {
-	item_t local_modetab[100];
-	size_t local_md = 3;
-
 	const size_t members = vector_size(types);
+	vector record = vector_create(3 + 2 * members);
+	vector_increase(&record, 3);
+
 	item_t displ = 0;
 	for (size_t i = 0; i < members; i++)
 	{
 		const item_t type = vector_get(types, i);
 		const item_t name = vector_get(names, i);
 
-		local_modetab[local_md++] = type;
-		local_modetab[local_md++] = name;
+		vector_add(&record, type);
+		vector_add(&record, name);
 		displ += type_size(sx, type);
 	}
 
-	local_modetab[0] = TYPE_STRUCTURE;
-	local_modetab[1] = (item_t)displ;
-	local_modetab[2] = (item_t)members * 2;
-	return type_add(sx, local_modetab, local_md);
+	vector_set(&record, 0, TYPE_STRUCTURE);
+	vector_set(&record, 1, (item_t)displ);
+	vector_set(&record, 2, (item_t)members * 2);
+
+	const item_t type = type_add(sx, record.array, vector_size(&record));
+	vector_clear(&record);
+	return type;
 }
 
 size_t type_structure_get_member_amount(const syntax *const sx, const item_t type)
-- 
2.43.0


From 0d1eca0c6565fa73e870a54f1f5891dc78c3a9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:10 +0000
Subject: [PATCH 15/43] fix: a string literal cut by the end of file was read
 forever

---
 libs/compiler/lexer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/compiler/lexer.c b/libs/compiler/lexer.c
index 28167ed..b9ae71a 100644
--- a/libs/compiler/lexer.c
+++ b/libs/compiler/lexer.c
@@ -418,7 +418,7 @@ static token lex_string_literal(lexer *const lxr)
 	while (lxr->character == '"')
 	{
 		scan(lxr);
-		while (lxr->character != '"' && lxr->character != '\n')
+		while (lxr->character != '"' && lxr->character != '\n' && lxr->character != (char32_t)EOF)
 		{
 			vector_add(&lxr->lexstr, get_next_string_elem(lxr));
 			scan(lxr);
-- 
2.43.0


From 94bd880df13e6332d1b5936c80cea0c8c38766d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:22 +0000
Subject: [PATCH 16/43] fix: an integer literal with a huge exponent was
 computed almost forever

---
 libs/compiler/lexer.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libs/compiler/lexer.c b/libs/compiler/lexer.c
index b9ae71a..8abad9c 100644
--- a/libs/compiler/lexer.c
+++ b/libs/compiler/lexer.c
@@ -308,7 +308,8 @@ static token lex_numeric_literal(lexer *const lxr)
 
 		if (is_integer)
 		{
-			for (int64_t i = 0; i < power; i++)
+			// После переполнения значение равно нулю и больше не меняется
+			for (int64_t i = 0; i < power && int_value != 0; i++)
 			{
 				int_value *= 10;
 			}
-- 
2.43.0


From dadb01203a2599ca6535fdc12570f0f3ca372893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:06 +0000
Subject: [PATCH 17/43] fix: a byte outside of UTF-8 was pushed back as two
 bytes and read forever

---
 libs/utils/uniscanner.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/libs/utils/uniscanner.c b/libs/utils/uniscanner.c
index 66eaaa9..60b1364 100644
--- a/libs/utils/uniscanner.c
+++ b/libs/utils/uniscanner.c
@@ -94,7 +94,17 @@ size_t uni_scan_identifier(universal_io *const io, char *const buffer)
 
 int uni_unscan_char(universal_io *const io, const char32_t wchar)
 {
-	return in_set_position(io, in_get_position(io) - utf8_size(wchar));
+	const size_t position = in_get_position(io);
+	const size_t size = utf8_size(wchar);
+	in_set_position(io, position - size);
+
+	// Байт вне кодировки считывается как символ двухбайтового диапазона
+	if (size == 2 && wchar <= 0xFF && (uni_scan_char(io) != wchar || in_get_position(io) != position))
+	{
+		return in_set_position(io, position - 1);
+	}
+
+	return in_set_position(io, position - size);
 }
 
 int uni_unscan(universal_io *const io, const char *const str)
-- 
2.43.0


From f6c83e56d487a0c6c9b935d9aafb3960ccfa3f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:39 +0000
Subject: [PATCH 18/43] fix: the message about too many printf arguments
 printed garbage

---
 libs/compiler/builder.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/compiler/builder.c b/libs/compiler/builder.c
index f56c5d7..ae84b13 100644
--- a/libs/compiler/builder.c
+++ b/libs/compiler/builder.c
@@ -309,7 +309,7 @@ static node build_printf_expression(builder *const bldr, node *const callee, nod
 
 	if (argc >= MAX_PRINTF_ARGS)
 	{
-		semantic_error(bldr, r_loc, too_many_printf_args);
+		semantic_error(bldr, r_loc, too_many_printf_args, (size_t)MAX_PRINTF_ARGS);
 		return node_broken();
 	}
 
-- 
2.43.0


From 47ef409c17e8a3bd1045cd5b8f59acfe55ed638c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:54 +0000
Subject: [PATCH 19/43] fix: macro arguments with nested brackets cut by the
 end of file were read forever

---
 libs/macro/parser.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libs/macro/parser.c b/libs/macro/parser.c
index 1a1f498..d3e4469 100644
--- a/libs/macro/parser.c
+++ b/libs/macro/parser.c
@@ -667,6 +667,7 @@ static inline size_t parse_brackets(parser *const prs, const size_t index, stora
 			{
 				parser_error(prs, &loc, ARGS_UNTERMINATED, storage_to_string(prs->stg, index));
 				arg = SIZE_MAX;
+				brackets = 0;
 			}
 		}
 
-- 
2.43.0


From 15b5ba9647c798dcf84ab103f68c52693da3a4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:17 +0000
Subject: [PATCH 20/43] fix: division by zero in a preprocessor expression
 crashed the compiler

---
 libs/macro/computer.c | 11 ++++++++++-
 libs/macro/error.c    |  6 ++++++
 libs/macro/error.h    |  1 +
 3 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/libs/macro/computer.c b/libs/macro/computer.c
index d345b9d..7a631ed 100644
--- a/libs/macro/computer.c
+++ b/libs/macro/computer.c
@@ -166,11 +166,20 @@ static inline int computer_token_without_number(computer *const comp, const item
 static int computer_select_three(computer *const comp)
 {
 	const token_t operator = stack_pop(&comp->operators);
-	stack_pop(&comp->operators);
+	const item_t pos = stack_pop(&comp->operators);
 
 	const item_t second = stack_pop(&comp->numbers);
 	const item_t first = stack_pop(&comp->numbers);
 
+	if ((operator == TK_DIV || operator == TK_MOD) && (second == 0 || (second == -1 && first == ITEM_MIN)))
+	{
+		char token[3];
+		computer_token_to_string(token, operator);
+		computer_error(comp, pos, EXPR_UNDEFINED_RESULT, token);
+		stack_push(&comp->numbers, 0);
+		return -1;
+	}
+
 	switch(operator)
 	{
 		case TK_MULT:
diff --git a/libs/macro/error.c b/libs/macro/error.c
index 24f53b2..f0165b9 100644
--- a/libs/macro/error.c
+++ b/libs/macro/error.c
@@ -287,6 +287,12 @@ static void get_error(const error_t num, char *const msg, va_list args)
 			sprintf(msg, "в операторе '%s' отсутствует правый операнд", operator);
 		}
 		break;
+		case EXPR_UNDEFINED_RESULT:
+		{
+			const char *const operator = va_arg(args, char *);
+			sprintf(msg, "результат оператора '%s' не определен", operator);
+		}
+		break;
 
 		default:
 			sprintf(msg, "неизвестная ошибка");
diff --git a/libs/macro/error.h b/libs/macro/error.h
index 1c281e6..7c522b5 100644
--- a/libs/macro/error.h
+++ b/libs/macro/error.h
@@ -73,6 +73,7 @@ typedef enum ERROR
 	EXPR_MISSING_BETWEEN,
 	EXPR_NO_LEFT_OPERAND,
 	EXPR_NO_RIGHT_OPERAND,
+	EXPR_UNDEFINED_RESULT,
 } error_t;
 
 /** Warning codes */
-- 
2.43.0


From e8400ba9545c61b2ab5b74e1c1a4087658255a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:28 +0000
Subject: [PATCH 21/43] fix: computer_clear leaked one stack when the other was
 not created

---
 libs/macro/computer.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libs/macro/computer.c b/libs/macro/computer.c
index 7a631ed..75bc480 100644
--- a/libs/macro/computer.c
+++ b/libs/macro/computer.c
@@ -444,13 +444,14 @@ bool computer_is_correct(const computer *const comp)
 
 int computer_clear(computer *const comp)
 {
-	if (!computer_is_correct(comp))
+	if (comp == NULL)
 	{
 		return -1;
 	}
 
+	const bool is_correct = computer_is_correct(comp);
 	stack_clear(&comp->numbers);
 	stack_clear(&comp->operators);
 
-	return loc_is_correct(&comp->loc) ? 0 : -1;
+	return is_correct && loc_is_correct(&comp->loc) ? 0 : -1;
 }
-- 
2.43.0


From 37bcf83d5db32049ef94bc764f6db4bf9238a36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:16 +0000
Subject: [PATCH 22/43] fix: a MIPS struct initializer with an array member
 made the generator run away

---
 libs/compiler/mipsgen.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/libs/compiler/mipsgen.c b/libs/compiler/mipsgen.c
index b14b209..f962da1 100644
--- a/libs/compiler/mipsgen.c
+++ b/libs/compiler/mipsgen.c
@@ -3088,6 +3088,14 @@ static void emit_structure_init(encoder *const enc, const lvalue *const target,
 		const node subexpr = expression_initializer_get_subexpr(initializer, i);
 		if (expression_get_class(&subexpr) == EXPR_INITIALIZER)
 		{
+			if (!type_is_structure(enc->sx, type))
+			{
+				// Списком инициализации здесь может задаваться только структура
+				system_error(such_array_is_not_supported);
+				enc->sx->rprt.errors++;
+				continue;
+			}
+
 			emit_structure_init(enc, &member_lvalue, &subexpr);
 			continue;
 		}
-- 
2.43.0


From a5d9bc9d0126a75ef609437ba30215d14b51d346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:42 +0000
Subject: [PATCH 23/43] fix: a header that cannot be examined was replaced by
 another one with the same name

---
 libs/macro/linker.c | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/libs/macro/linker.c b/libs/macro/linker.c
index d8075d3..ddeb3db 100644
--- a/libs/macro/linker.c
+++ b/libs/macro/linker.c
@@ -15,6 +15,7 @@
  */
 
 #include "linker.h"
+#include <errno.h>
 #include <string.h>
 #include "item.h"
 #include "error.h"
@@ -57,12 +58,26 @@ static void linker_make_path(char *const buffer, const char *const name, const c
 	buffer[index] = '\0';
 }
 
+/**
+ *	Check that file can be searched further.
+ *	Only a file that is really absent may be skipped,
+ *	otherwise another file with the same name could be taken instead of it.
+ *
+ *	@param	path		File path
+ *
+ *	@return	@c true on absent file
+ */
+static inline bool linker_is_absent(const char *const path)
+{
+	return access(path, F_OK) == -1 && (errno == ENOENT || errno == ENOTDIR || errno == ENAMETOOLONG);
+}
+
 static inline size_t linker_internal_path(linker *const lk, const char *const file)
 {
 	char path[MAX_ARG_SIZE];
 	linker_make_path(path, file, ws_get_file(lk->ws, lk->current), true);
 
-	if (access(path, F_OK) != -1)
+	if (!linker_is_absent(path))
 	{
 		const size_t size = ws_get_files_num(lk->ws);
 		const size_t index = ws_add_file(lk->ws, path);
@@ -83,7 +98,7 @@ static inline size_t linker_external_path(linker *const lk, const char *const fi
 	{
 		linker_make_path(path, file, ws_get_dir(lk->ws, i), false);
 
-		if (access(path, F_OK) != -1)
+		if (!linker_is_absent(path))
 		{
 			const size_t size = ws_get_files_num(lk->ws);
 			const size_t index = ws_add_file(lk->ws, path);
-- 
2.43.0


From 0e9b56c17359312a8050d221ba29e46be72e78df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:21 +0000
Subject: [PATCH 24/43] fix: long lines, paths and names overran the buffers
 diagnostics are built in

---
 libs/compiler/errors.c |  8 ++++----
 libs/macro/error.c     | 44 +++++++++++++++++++++---------------------
 libs/utils/locator.c   |  6 ++++--
 libs/utils/logger.c    | 14 ++++++++++----
 libs/utils/uniio.c     |  2 +-
 5 files changed, 41 insertions(+), 33 deletions(-)

diff --git a/libs/compiler/errors.c b/libs/compiler/errors.c
index 7586fb9..90fa874 100644
--- a/libs/compiler/errors.c
+++ b/libs/compiler/errors.c
@@ -310,7 +310,7 @@ static void get_error(const err_t num, char *const msg, va_list args)
 			sprintf(msg, "в каждой программе должна быть ГЛАВНАЯ функция");
 			break;
 		case predef_but_notdef: // need_test
-			sprintf(msg, "функция %s была предопределена, но не описана", va_arg(args, char *));
+			sprintf(msg, "функция %.256s была предопределена, но не описана", va_arg(args, char *));
 			break;
 
 		// Other errors
@@ -340,10 +340,10 @@ static void get_error(const err_t num, char *const msg, va_list args)
 				"идентификаторов-параметров), а тут тело функции");
 			break;
 		case repeated_decl:	// test_exist
-			sprintf(msg, "повторное описание идентификатора %s", va_arg(args, char *));
+			sprintf(msg, "повторное описание идентификатора %.256s", va_arg(args, char *));
 			break;
 		case ident_is_not_declared: // test_exist
-			sprintf(msg, "не описан идентификатор %s", va_arg(args, char *));
+			sprintf(msg, "не описан идентификатор %.256s", va_arg(args, char *));
 			break;
 		case not_const_int_expr:
 			sprintf(msg, "должно быть константное выражение типа int");
@@ -483,7 +483,7 @@ static void output(universal_io *const io, const char *const msg
 
 	if (!loc_is_correct(&loc))
 	{
-		char tag[MAX_TAG_SIZE] = TAG_RUC;
+		char tag[MAX_MSG_SIZE] = TAG_RUC;
 		in_get_path(io, tag);
 		system_func(tag, msg);
 		return;
diff --git a/libs/macro/error.c b/libs/macro/error.c
index f0165b9..8607e1b 100644
--- a/libs/macro/error.c
+++ b/libs/macro/error.c
@@ -33,7 +33,7 @@
 static size_t utf8_to_buffer(const char32_t *const src, char *const dest)
 {
 	size_t size = 0;
-	for (size_t i = 0; src[i] != '\0'; i++)
+	for (size_t i = 0; src[i] != '\0' && size < MAX_TAG_SIZE; i++)
 	{
 		size += utf8_to_string(&dest[size], src[i]);
 	}
@@ -94,31 +94,31 @@ static void get_error(const error_t num, char *const msg, va_list args)
 		case DIRECTIVE_NAME_NON:
 		{
 			const char *const directive = va_arg(args, char *);
-			sprintf(msg, "в директиве %s пропущено имя макроса", directive);
+			sprintf(msg, "в директиве %.1024s пропущено имя макроса", directive);
 		}
 		break;
 		case DIRECTIVE_INVALID:
 		{
 			const char *const directive = va_arg(args, char *);
-			sprintf(msg, "неизвестная директива препроцессора %s", directive);
+			sprintf(msg, "неизвестная директива препроцессора %.1024s", directive);
 		}
 		break;
 		case DIRECTIVE_FORBIDDEN:
 		{
 			const char *const directive = va_arg(args, char *);
-			sprintf(msg, "использование директивы %s внутри макроса запрещено", directive);
+			sprintf(msg, "использование директивы %.1024s внутри макроса запрещено", directive);
 		}
 		break;
 		case DIRECTIVE_UNTERMINATED:
 		{
 			const char *const directive = va_arg(args, char *);
-			sprintf(msg, "незавершённая директива %s", directive);
+			sprintf(msg, "незавершённая директива %.1024s", directive);
 		}
 		break;
 		case DIRECTIVE_NO_EXPRESSION:
 		{
 			const char *const directive = va_arg(args, char *);
-			sprintf(msg, "в директиве %s пропущено условие", directive);
+			sprintf(msg, "в директиве %.1024s пропущено условие", directive);
 		}
 		break;
 		case DIRECTIVE_WITHOUT:
@@ -143,14 +143,14 @@ static void get_error(const error_t num, char *const msg, va_list args)
 		case HASH_NOT_FOLLOWED:
 		{
 			const char *const hash = va_arg(args, char *);
-			sprintf(msg, "'%s' не сопровождается параметром макроса", hash);
+			sprintf(msg, "'%.1024s' не сопровождается параметром макроса", hash);
 		}
 		break;
 
 		case INCLUDE_EXPECTS_FILENAME:
 		{
 			const char *const directive = va_arg(args, char *);
-			sprintf(msg, "%s ожидает \"ИМЯФАЙЛА\" или <ИМЯФАЙЛА>", directive);
+			sprintf(msg, "%.1024s ожидает \"ИМЯФАЙЛА\" или <ИМЯФАЙЛА>", directive);
 		}
 		break;
 		case INCLUDE_NO_SUCH_FILE:
@@ -163,7 +163,7 @@ static void get_error(const error_t num, char *const msg, va_list args)
 		case ARGS_DUPLICATE:
 		{
 			const char *const name = va_arg(args, char *);
-			sprintf(msg, "дублирующий макро параметр " QUOTE "%s" QUOTE, name);
+			sprintf(msg, "дублирующий макро параметр " QUOTE "%.1024s" QUOTE, name);
 		}
 		break;
 		case ARGS_EXPECTED_NAME:
@@ -203,7 +203,7 @@ static void get_error(const error_t num, char *const msg, va_list args)
 		case ARGS_UNTERMINATED:
 		{
 			const char *const name = va_arg(args, char *);
-			sprintf(msg, "незавершённый список аргументов, вызываемый макрос " QUOTE "%s" QUOTE, name);
+			sprintf(msg, "незавершённый список аргументов, вызываемый макрос " QUOTE "%.1024s" QUOTE, name);
 		}
 		break;
 		case ARGS_REQUIRES:
@@ -216,7 +216,7 @@ static void get_error(const error_t num, char *const msg, va_list args)
 			const bool many = expected % 10 == 0 || expected % 10 >= 5
 				|| (expected % 100 >= 11 && expected % 100 <= 14);
 
-			sprintf(msg, "макросу " QUOTE "%s" QUOTE " требуется %zu аргумент%s, но передан%s только %zu"
+			sprintf(msg, "макросу " QUOTE "%.1024s" QUOTE " требуется %zu аргумент%s, но передан%s только %zu"
 					, name, expected, one ? "" : many ? "ов" : "а"
 					, actual % 10 == 1 && actual % 100 != 11 ? "" : "о", actual);
 		}
@@ -231,14 +231,14 @@ static void get_error(const error_t num, char *const msg, va_list args)
 			const bool many = actual % 10 == 0 || actual % 10 >= 5
 				|| (actual % 100 >= 11 && actual % 100 <= 14);
 
-			sprintf(msg, "макросу " QUOTE "%s" QUOTE " передан%s %zu аргумент%s, но принимает он только %zu"
+			sprintf(msg, "макросу " QUOTE "%.1024s" QUOTE " передан%s %zu аргумент%s, но принимает он только %zu"
 					, name, one ? "" : "о", actual, one ? "" : many ? "ов" : "а", expected);
 		}
 		break;
 		case ARGS_NON:
 		{
 			const char *const name = va_arg(args, char *);
-			sprintf(msg, "макросу " QUOTE "%s" QUOTE " не передано аргументов", name);
+			sprintf(msg, "макросу " QUOTE "%.1024s" QUOTE " не передано аргументов", name);
 		}
 		break;
 
@@ -248,19 +248,19 @@ static void get_error(const error_t num, char *const msg, va_list args)
 		case EXPR_INVALID_SUFFIX:
 		{
 			const char *const suffix = va_arg(args, char *);
-			sprintf(msg, "недопустимый суффикс " QUOTE "%s" QUOTE " в целочисленной константе", suffix);
+			sprintf(msg, "недопустимый суффикс " QUOTE "%.1024s" QUOTE " в целочисленной константе", suffix);
 		}
 		break;
 		case EXPR_INVALID_TOKEN:
 		{
 			const char *const token = va_arg(args, char *);
-			sprintf(msg, "недопустимый токен " QUOTE "%s" QUOTE " в выражении препроцессора", token);
+			sprintf(msg, "недопустимый токен " QUOTE "%.1024s" QUOTE " в выражении препроцессора", token);
 		}
 		break;
 		case EXPR_MISSING_BINARY:
 		{
 			const char *const operator = va_arg(args, char *);
-			sprintf(msg, "пропущен бинарный оператор перед токеном " QUOTE "%s" QUOTE, operator);
+			sprintf(msg, "пропущен бинарный оператор перед токеном " QUOTE "%.1024s" QUOTE, operator);
 		}
 		break;
 		case EXPR_MISSING_BRACKET:
@@ -278,19 +278,19 @@ static void get_error(const error_t num, char *const msg, va_list args)
 		case EXPR_NO_LEFT_OPERAND:
 		{
 			const char *const operator = va_arg(args, char *);
-			sprintf(msg, "в операторе '%s' отсутствует левый операнд", operator);
+			sprintf(msg, "в операторе '%.1024s' отсутствует левый операнд", operator);
 		}
 		break;
 		case EXPR_NO_RIGHT_OPERAND:
 		{
 			const char *const operator = va_arg(args, char *);
-			sprintf(msg, "в операторе '%s' отсутствует правый операнд", operator);
+			sprintf(msg, "в операторе '%.1024s' отсутствует правый операнд", operator);
 		}
 		break;
 		case EXPR_UNDEFINED_RESULT:
 		{
 			const char *const operator = va_arg(args, char *);
-			sprintf(msg, "результат оператора '%s' не определен", operator);
+			sprintf(msg, "результат оператора '%.1024s' не определен", operator);
 		}
 		break;
 
@@ -310,20 +310,20 @@ static void get_warning(const warning_t num, char *const msg, va_list args)
 		case MACRO_NAME_UNDEFINED:
 		{
 			const char *const name = va_arg(args, char *);
-			sprintf(msg, "макрос " QUOTE "%s" QUOTE " не определён", name);
+			sprintf(msg, "макрос " QUOTE "%.1024s" QUOTE " не определён", name);
 		}
 		break;
 		case MACRO_NAME_REDEFINE:
 		{
 			const char *const name = va_arg(args, char *);
-			sprintf(msg, "макрос " QUOTE "%s" QUOTE " уже существует", name);
+			sprintf(msg, "макрос " QUOTE "%.1024s" QUOTE " уже существует", name);
 		}
 		break;
 
 		case DIRECTIVE_EXTRA_TOKENS:
 		{
 			const char *const directive = va_arg(args, char *);
-			sprintf(msg, "дополнительные токены в конце директивы %s", directive);
+			sprintf(msg, "дополнительные токены в конце директивы %.1024s", directive);
 		}
 		break;
 		case DIRECTIVE_LINE_SKIPED:
diff --git a/libs/utils/locator.c b/libs/utils/locator.c
index 9d035bb..ed7d6cb 100644
--- a/libs/utils/locator.c
+++ b/libs/utils/locator.c
@@ -24,6 +24,8 @@
 
 
 #define MAX_PATH 1024
+#define MAX_CODE_LINE 4096
+#define MAX_SYMBOL_SIZE 8
 
 
 static const size_t FIRST_LINE = 1;
@@ -404,7 +406,7 @@ size_t loc_get_code_line(location *const loc, char *const buffer)
 
 	size_t size = 0;
 	char32_t character = uni_scan_char(loc->io);
-	while (character != '\n' && character != (char32_t)EOF)
+	while (character != '\n' && character != (char32_t)EOF && size < MAX_CODE_LINE - MAX_SYMBOL_SIZE)
 	{
 		size += utf8_to_string(&buffer[size], character);
 		character = uni_scan_char(loc->io);
@@ -431,7 +433,7 @@ size_t loc_get_path(location *const loc, char *const buffer)
 
 	size_t size = 0;
 	char32_t character = uni_scan_char(loc->io);
-	while (character != (char32_t)QUOTE && size < MAX_PATH)
+	while (character != (char32_t)QUOTE && size < MAX_PATH - MAX_SYMBOL_SIZE)
 	{
 		size += utf8_to_string(&buffer[size], character);
 		character = uni_scan_char(loc->io);
diff --git a/libs/utils/logger.c b/libs/utils/logger.c
index feef1c3..a217365 100644
--- a/libs/utils/logger.c
+++ b/libs/utils/logger.c
@@ -37,6 +37,7 @@
 #endif
 
 #define MAX_MSG_SIZE 4096
+#define MAX_SPLICE_SIZE (MAX_MSG_SIZE * 4)	// Сообщение, строка кода и её подчёркивание
 
 static const char *const TAG_LOGGER = "logger";
 
@@ -243,15 +244,20 @@ static inline size_t length(const char *const line, const size_t size, const siz
 
 static void splice(char *const buffer, const char *const msg, const char *const line, const size_t symbol)
 {
-	size_t cur = (size_t)sprintf(buffer, "%s\n", msg);
+	size_t cur = (size_t)sprintf(buffer, "%.*s\n", MAX_MSG_SIZE - 1, msg);
 
 	size_t size = 0;
-	while (line[size] != '\0' && line[size] != '\n')
+	while (line[size] != '\0' && line[size] != '\n' && size < MAX_MSG_SIZE - 1)
 	{
 		cur += (size_t)sprintf(&buffer[cur], "%c", line[size]);
 		size++;
 	}
 
+	if (symbol >= size)
+	{
+		return;
+	}
+
 	const size_t ch = literal(line, symbol);
 	const size_t len = length(line, size, ch);
 	if (len == 0)
@@ -288,7 +294,7 @@ static inline void log_main(const logger func, const char *const tag, const char
 		return;
 	}
 
-	char buffer[MAX_MSG_SIZE];
+	char buffer[MAX_SPLICE_SIZE];
 	splice(buffer, msg, line, symbol);
 
 	func(tag, buffer);
@@ -309,7 +315,7 @@ static inline void log_auto(const logger func, location *const loc, const char *
 		return;
 	}
 
-	char buffer[MAX_MSG_SIZE];
+	char buffer[MAX_SPLICE_SIZE];
 	splice(buffer, msg, line, loc_get_index(loc));
 
 	func(tag, buffer);
diff --git a/libs/utils/uniio.c b/libs/utils/uniio.c
index 959b6bd..3fbb0ba 100644
--- a/libs/utils/uniio.c
+++ b/libs/utils/uniio.c
@@ -29,7 +29,7 @@
 #else
 	#include <unistd.h>
 
-	#define MAX_LINK_SIZE 20
+	#define MAX_LINK_SIZE 32
 #endif
 
 #define MAX_FORMAT_SIZE 128
-- 
2.43.0


From a18a3db6cbd63a1f44b602e467c59b0aed65f978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:21 +0000
Subject: [PATCH 25/43] fix: a long function name overran the LLVM generator's
 name buffer

---
 libs/compiler/llvmgen.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/libs/compiler/llvmgen.c b/libs/compiler/llvmgen.c
index ecbb908..6fad0b2 100644
--- a/libs/compiler/llvmgen.c
+++ b/libs/compiler/llvmgen.c
@@ -20,12 +20,13 @@
 #include "errors.h"
 #include "hash.h"
 #include "uniprinter.h"
+#include "utf8.h"
 
 
 #define MAX_FUNCTION_ARGS 128
 #define MAX_PRINTF_ARGS 128
 #define MAX_CASES 4096
-#define MAX_NAME 4096
+#define MAX_SYMBOL 16
 
 
 static const size_t HASH_TABLE_SIZE = 1024;
@@ -138,9 +139,15 @@ static void func_name_to_io(information *const info, const size_t func_ref)
 		return;
 	}
 
-	char modified_name[MAX_NAME];
-	utf8_transliteration(name, modified_name);
-	uni_printf(info->sx->io, "%s", modified_name);
+	// Длина имени не ограничена, поэтому выводим его посимвольно
+	for (size_t i = 0; name[i] != '\0'; i += utf8_symbol_size(name[i]))
+	{
+		char symbol[MAX_SYMBOL] = { '\0' };
+		char modified_symbol[MAX_SYMBOL];
+		utf8_to_string(symbol, utf8_convert(&name[i]));
+		utf8_transliteration(symbol, modified_symbol);
+		uni_printf(info->sx->io, "%s", modified_symbol);
+	}
 }
 
 static void type_to_io(information *const info, const item_t type)
-- 
2.43.0


From 06d29751c9cc48d7868c3a9ba4210a7f3bc95653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:21 +0000
Subject: [PATCH 26/43] fix: long or empty paths and long -D names overran the
 workspace's fixed buffers

---
 libs/macro/linker.c    | 18 +++++++++++++++---
 libs/macro/macro.c     |  2 +-
 libs/utils/workspace.c |  8 +++++++-
 3 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/libs/macro/linker.c b/libs/macro/linker.c
index ddeb3db..1f1ba19 100644
--- a/libs/macro/linker.c
+++ b/libs/macro/linker.c
@@ -29,10 +29,15 @@
 #endif
 
 
-static void linker_make_path(char *const buffer, const char *const name, const char *const path, const bool is_file)
+static int linker_make_path(char *const buffer, const char *const name, const char *const path, const bool is_file)
 {
 	size_t index = 0;
 
+	if (strlen(name) + (path != NULL ? strlen(path) : 0) + 1 >= MAX_ARG_SIZE)
+	{
+		return -1;
+	}
+
 	if (path != NULL)
 	{
 		if (is_file)
@@ -56,6 +61,7 @@ static void linker_make_path(char *const buffer, const char *const name, const c
 		index += name[i] == '\n' || (name[i] == '\\' && name[i + 1] != '\\') ? 0 : 1;
 	}
 	buffer[index] = '\0';
+	return 0;
 }
 
 /**
@@ -75,7 +81,10 @@ static inline bool linker_is_absent(const char *const path)
 static inline size_t linker_internal_path(linker *const lk, const char *const file)
 {
 	char path[MAX_ARG_SIZE];
-	linker_make_path(path, file, ws_get_file(lk->ws, lk->current), true);
+	if (linker_make_path(path, file, ws_get_file(lk->ws, lk->current), true))
+	{
+		return SIZE_MAX;
+	}
 
 	if (!linker_is_absent(path))
 	{
@@ -96,7 +105,10 @@ static inline size_t linker_external_path(linker *const lk, const char *const fi
 	char path[MAX_ARG_SIZE];
 	for (size_t i = 0; i < ws_get_dirs_num(lk->ws); i++)
 	{
-		linker_make_path(path, file, ws_get_dir(lk->ws, i), false);
+		if (linker_make_path(path, file, ws_get_dir(lk->ws, i), false))
+		{
+			continue;
+		}
 
 		if (!linker_is_absent(path))
 		{
diff --git a/libs/macro/macro.c b/libs/macro/macro.c
index fde5351..561c2ba 100644
--- a/libs/macro/macro.c
+++ b/libs/macro/macro.c
@@ -45,7 +45,7 @@ static inline size_t ws_parse_name(const char *const name, char32_t *const buffe
 	{
 		buffer[++i] = utf8_convert(&name[j]);
 		j += utf8_size(buffer[i]);
-	} while (utf8_is_letter(buffer[i]) || utf8_is_digit(buffer[i]));
+	} while ((utf8_is_letter(buffer[i]) || utf8_is_digit(buffer[i])) && i < MAX_ARG_SIZE - 1);
 
 	if (buffer[i] == '\0')
 	{
diff --git a/libs/utils/workspace.c b/libs/utils/workspace.c
index 452f63d..14a1f0f 100644
--- a/libs/utils/workspace.c
+++ b/libs/utils/workspace.c
@@ -126,6 +126,12 @@ static inline size_t ws_add_path(workspace *const ws, strings *const vec, const
 		return SIZE_MAX;
 	}
 
+	if (path[0] == '\0' || strlen(path) >= MAX_ARG_SIZE)
+	{
+		ws_add_error(ws);
+		return SIZE_MAX;
+	}
+
 	char buffer[MAX_ARG_SIZE];
 	ws_unix_path(path, buffer);
 	if (access(buffer, F_OK) == -1)
@@ -261,7 +267,7 @@ int ws_add_flags(workspace *const ws, const char *const *const flags, const size
 
 int ws_set_output(workspace *const ws, const char *const path)
 {
-	if (!ws_is_correct(ws) || path == NULL)
+	if (!ws_is_correct(ws) || path == NULL || strlen(path) >= MAX_ARG_SIZE)
 	{
 		ws_add_error(ws);
 		return -1;
-- 
2.43.0


From 38e94f88fd246f874f2f42a0bc5349061f1e3e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:43 +0000
Subject: [PATCH 27/43] fix: a constant division by zero ended the compiler,
 and long directive names overran their buffers

---
 libs/compiler/builder.c |  7 +++++++
 libs/compiler/llvmgen.c | 14 ++++++++++++++
 libs/macro/parser.c     | 14 +++++++-------
 3 files changed, 28 insertions(+), 7 deletions(-)

diff --git a/libs/compiler/builder.c b/libs/compiler/builder.c
index ae84b13..2bb84fd 100644
--- a/libs/compiler/builder.c
+++ b/libs/compiler/builder.c
@@ -151,6 +151,13 @@ static node fold_binary_expression(builder *const bldr, const item_t type
 		{
 			const item_t left_value = expression_literal_get_integer(LHS);
 			const item_t right_value = expression_literal_get_integer(RHS);
+			if ((op == BIN_DIV || op == BIN_REM)
+				&& (right_value == 0 || (right_value == -1 && left_value == ITEM_MIN)))
+			{
+				// Значение не определено, поэтому вычисление остаётся программе
+				return expression_binary(type, LHS, RHS, op, loc);
+			}
+
 			node_remove(LHS);
 			node_remove(RHS);
 
diff --git a/libs/compiler/llvmgen.c b/libs/compiler/llvmgen.c
index 6fad0b2..c0dd76f 100644
--- a/libs/compiler/llvmgen.c
+++ b/libs/compiler/llvmgen.c
@@ -373,6 +373,16 @@ static void to_code_operation_const_reg_integer(information *const info, const b
 	uni_printf(info->sx->io, " %" PRIitem ", %%.%zu\n", fst, snd);
 }
 
+static void to_code_operation_const_const_integer(information *const info, const binary_t operation
+	, const item_t fst, const item_t snd, const item_t type)
+{
+	uni_printf(info->sx->io, " %%.%zu = ", info->register_num);
+	operation_to_io(info, operation, TYPE_INTEGER);
+	uni_printf(info->sx->io, " ");
+	type_to_io(info, type);
+	uni_printf(info->sx->io, " %" PRIitem ", %" PRIitem "\n", fst, snd);
+}
+
 static void to_code_operation_const_reg_double(information *const info, const binary_t operation
 	, const double fst, const size_t snd)
 {
@@ -1547,6 +1557,10 @@ static void emit_integral_expression(information *const info, const node *const
 	{
 		to_code_operation_const_reg_double(info, operation, left_const_double, right_reg);
 	}
+	else if (left_kind == ACONST && right_kind == ACONST && type_is_integer(info->sx, operation_type))
+	{
+		to_code_operation_const_const_integer(info, operation, left_const, right_const, operation_type);
+	}
 	else if (left_kind == AREG && right_kind == ANULL)
 	{
 		to_code_operation_reg_null(info, operation, left_reg, operation_type);
diff --git a/libs/macro/parser.c b/libs/macro/parser.c
index d3e4469..58e3fb9 100644
--- a/libs/macro/parser.c
+++ b/libs/macro/parser.c
@@ -540,7 +540,7 @@ static keyword_t skip_block(parser *const prs, const keyword_t begin)
 		if (keyword != NON_KEYWORD)
 		{
 			loc = parse_location(prs);
-			sprintf(directive, "%s", storage_last_read(prs->stg));
+			snprintf(directive, MAX_KEYWORD_SIZE, "%s", storage_last_read(prs->stg));
 		}
 
 		while (true)
@@ -1484,7 +1484,7 @@ static item_t parse_expression(parser *const prs)
 	const char *last_read = storage_last_read(prs->stg);
 	if (last_read)
 	{
-		sprintf(directive, "%s", last_read);
+		snprintf(directive, MAX_KEYWORD_SIZE, "%s", last_read);
 	}
 
 	char32_t character = skip_until(prs, false);
@@ -2001,7 +2001,7 @@ static inline char32_t parse_set(parser *const prs)
 static inline char32_t parse_undef(parser *const prs)
 {
 	char directive[MAX_KEYWORD_SIZE];
-	sprintf(directive, "%s", storage_last_read(prs->stg));
+	snprintf(directive, MAX_KEYWORD_SIZE, "%s", storage_last_read(prs->stg));
 
 	if (parse_name(prs))
 	{
@@ -2024,7 +2024,7 @@ static inline char32_t parse_macro(parser *const prs)
 {
 	location loc = parse_location(prs);
 	char directive[MAX_KEYWORD_SIZE];
-	sprintf(directive, "%s", storage_last_read(prs->stg));
+	snprintf(directive, MAX_KEYWORD_SIZE, "%s", storage_last_read(prs->stg));
 
 	size_t index = SIZE_MAX;
 	if (parse_name(prs))
@@ -2093,7 +2093,7 @@ static inline char32_t parse_while(parser *const prs)
 {
 	location loc = parse_location(prs);
 	char directive[MAX_KEYWORD_SIZE];
-	sprintf(directive, "%s", storage_last_read(prs->stg));
+	snprintf(directive, MAX_KEYWORD_SIZE, "%s", storage_last_read(prs->stg));
 
 	const size_t begin = in_get_position(prs->io);
 	if (parse_expression(prs) == 0)
@@ -2208,7 +2208,7 @@ static inline char32_t parse_if(parser *const prs)
 {
 	location loc = parse_location(prs);
 	char directive[MAX_KEYWORD_SIZE];
-	sprintf(directive, "%s", storage_last_read(prs->stg));
+	snprintf(directive, MAX_KEYWORD_SIZE, "%s", storage_last_read(prs->stg));
 
 	if (parse_elif(prs) != KW_ENDIF)
 	{
@@ -2231,7 +2231,7 @@ static inline char32_t parse_ifdef_ifndef(parser *const prs, keyword_t keyword)
 {
 	location loc = parse_location(prs);
 	char directive[MAX_KEYWORD_SIZE];
-	sprintf(directive, "%s", storage_last_read(prs->stg));
+	snprintf(directive, MAX_KEYWORD_SIZE, "%s", storage_last_read(prs->stg));
 
 	if (parse_name(prs))
 	{
-- 
2.43.0


From 85ef1607b8ecb6ba3b10d5222fb2678d817e811f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:52 +0000
Subject: [PATCH 28/43] fix: text that is not valid UTF-8 made the location
 search run away

---
 libs/utils/locator.c | 2 +-
 libs/utils/utf8.c    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/utils/locator.c b/libs/utils/locator.c
index ed7d6cb..5708c5e 100644
--- a/libs/utils/locator.c
+++ b/libs/utils/locator.c
@@ -54,7 +54,7 @@ static void line_to_begin(universal_io *const io, size_t *const symbol, size_t *
 
 	while (ch != '\n')
 	{
-		*symbol += 2 - utf8_symbol_size(ch);
+		*symbol += ((unsigned char)ch & 0xC0) == 0x80 ? 0 : 1;	// Символ учитывается по его первому байту
 		*filler = ch == ' ' || ch == '\t' ? (*filler) + 1 : FIRST_SYMBOL;
 
 		if (position == 0)
diff --git a/libs/utils/utf8.c b/libs/utils/utf8.c
index b425738..c98e824 100644
--- a/libs/utils/utf8.c
+++ b/libs/utils/utf8.c
@@ -934,7 +934,7 @@ size_t utf8_to_first_byte(const char *const str, const size_t index)
 		return 0;
 	}
 
-	return (str[index] & 0xC0 /* 0b11000000 */) == 0x80 /* 0b10000000 */
+	return index != 0 && (str[index] & 0xC0 /* 0b11000000 */) == 0x80 /* 0b10000000 */
 		? utf8_to_first_byte(str, index - 1)
 		: index;
 }
-- 
2.43.0


From 630882e421a5840f89259fd5bc4251cd68cb8440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:36 +0000
Subject: [PATCH 29/43] fix: headers included by a compilation stayed in the
 workspace as its sources

---
 libs/macro/linker.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libs/macro/linker.c b/libs/macro/linker.c
index 1f1ba19..2411937 100644
--- a/libs/macro/linker.c
+++ b/libs/macro/linker.c
@@ -235,5 +235,11 @@ int linker_clear(linker *const lk)
 		return -1;
 	}
 
+	// Заголовочные файлы не должны остаться в рабочем пространстве как исходные
+	while (ws_is_correct(lk->ws) && ws_get_files_num(lk->ws) > lk->sources)
+	{
+		strings_remove(&lk->ws->files);
+	}
+
 	return vector_clear(&lk->included);
 }
-- 
2.43.0


From b085419600be6c6351f5b0f05151db14c10b9bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:07 +0000
Subject: [PATCH 30/43] fix: refused memory was lost by containers without a
 trace

Containers go on without the memory they were refused, so a caller could not
know that a part of the result is missing; loops over a container that was
not created never ended. Refusals are counted now.
---
 libs/utils/allocator.c   | 56 +++++++++++++++++++++++++++++++++++++++
 libs/utils/allocator.h   | 57 ++++++++++++++++++++++++++++++++++++++++
 libs/utils/map.c         |  9 ++++---
 libs/utils/node_vector.h |  4 +--
 libs/utils/strings.c     |  9 ++++---
 libs/utils/uniio.c       |  5 ++--
 libs/utils/vector.c      |  5 ++--
 libs/utils/workspace.c   | 32 +++++++++++++---------
 8 files changed, 150 insertions(+), 27 deletions(-)
 create mode 100644 libs/utils/allocator.c
 create mode 100644 libs/utils/allocator.h

diff --git a/libs/utils/allocator.c b/libs/utils/allocator.c
new file mode 100644
index 0000000..1976cc8
--- /dev/null
+++ b/libs/utils/allocator.c
@@ -0,0 +1,56 @@
+/*
+ *	Copyright 2022 Andrey Terekhov
+ *
+ *	Licensed under the Apache License, Version 2.0 (the "License");
+ *	you may not use this file except in compliance with the License.
+ *	You may obtain a copy of the License at
+ *
+ *		http://www.apache.org/licenses/LICENSE-2.0
+ *
+ *	Unless required by applicable law or agreed to in writing, software
+ *	distributed under the License is distributed on an "AS IS" BASIS,
+ *	WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+ *	See the License for the specific language governing permissions and
+ *	limitations under the License.
+ */
+
+#include "allocator.h"
+#include <stdlib.h>
+
+
+#ifdef _MSC_VER
+	#define THREAD_LOCAL __declspec(thread)
+#else
+	#define THREAD_LOCAL _Thread_local
+#endif
+
+
+static THREAD_LOCAL size_t refusals = 0;
+
+
+void *allocator_alloc(const size_t size)
+{
+	void *const ptr = malloc(size);
+	if (ptr == NULL)
+	{
+		refusals++;
+	}
+
+	return ptr;
+}
+
+void *allocator_realloc(void *const ptr, const size_t size)
+{
+	void *const ptr_new = realloc(ptr, size);
+	if (ptr_new == NULL)
+	{
+		refusals++;
+	}
+
+	return ptr_new;
+}
+
+size_t allocator_get_refusals(void)
+{
+	return refusals;
+}
diff --git a/libs/utils/allocator.h b/libs/utils/allocator.h
new file mode 100644
index 0000000..8347e95
--- /dev/null
+++ b/libs/utils/allocator.h
@@ -0,0 +1,57 @@
+/*
+ *	Copyright 2022 Andrey Terekhov
+ *
+ *	Licensed under the Apache License, Version 2.0 (the "License");
+ *	you may not use this file except in compliance with the License.
+ *	You may obtain a copy of the License at
+ *
+ *		http://www.apache.org/licenses/LICENSE-2.0
+ *
+ *	Unless required by applicable law or agreed to in writing, software
+ *	distributed under the License is distributed on an "AS IS" BASIS,
+ *	WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+ *	See the License for the specific language governing permissions and
+ *	limitations under the License.
+ */
+
+#pragma once
+
+#include <stddef.h>
+#include "dll.h"
+
+
+#ifdef __cplusplus
+extern "C" {
+#endif
+
+/**
+ *	Allocate memory, refusals are counted
+ *
+ *	@param	size	Size in bytes
+ *
+ *	@return	Pointer to memory, @c NULL on failure
+ */
+EXPORTED void *allocator_alloc(const size_t size);
+
+/**
+ *	Change size of allocated memory, refusals are counted
+ *
+ *	@param	ptr		Pointer to allocated memory
+ *	@param	size	New size in bytes
+ *
+ *	@return	Pointer to memory, @c NULL on failure
+ */
+EXPORTED void *allocator_realloc(void *const ptr, const size_t size);
+
+/**
+ *	Get number of allocations refused to the current thread so far.
+ *	Containers go on without refused memory, so the result of a long action
+ *	is complete only if this number is the same before and after it.
+ *
+ *	@return	Number of refused allocations
+ */
+EXPORTED size_t allocator_get_refusals(void);
+
+#ifdef __cplusplus
+} /* extern "C" */
+#endif
diff --git a/libs/utils/map.c b/libs/utils/map.c
index d3e03fb..99e1c4a 100644
--- a/libs/utils/map.c
+++ b/libs/utils/map.c
@@ -17,6 +17,7 @@
 #include "map.h"
 #include <stdlib.h>
 #include <string.h>
+#include "allocator.h"
 #include "uniscanner.h"
 #include "utf8.h"
 
@@ -37,7 +38,7 @@ static int map_add_key_symbol(map *const as, const char32_t ch)
 		return 0;
 	}
 
-	char *keys_new = realloc(as->keys, 2 * as->keys_alloc * sizeof(char));
+	char *keys_new = allocator_realloc(as->keys, 2 * as->keys_alloc * sizeof(char));
 	if (keys_new == NULL)
 	{
 		return -1;
@@ -199,7 +200,7 @@ static size_t map_add_by_hash(map *const as, const size_t hash, const item_t val
 
 	if (as->values_size == as->values_alloc)
 	{
-		map_hash *values_new = realloc(as->values, 2 * as->values_alloc * sizeof(map_hash));
+		map_hash *values_new = allocator_realloc(as->values, 2 * as->values_alloc * sizeof(map_hash));
 		if (values_new == NULL)
 		{
 			return SIZE_MAX;
@@ -268,7 +269,7 @@ map map_create(const size_t alloc)
 	as.values_size = MAP_HASH_MAX;
 	as.values_alloc = as.values_size + alloc;
 
-	as.values = malloc(as.values_alloc * sizeof(map_hash));
+	as.values = allocator_alloc(as.values_alloc * sizeof(map_hash));
 	if (as.values == NULL)
 	{
 		return map_broken();
@@ -283,7 +284,7 @@ map map_create(const size_t alloc)
 	as.keys_size = 0;
 	as.keys_alloc = as.values_alloc * MAP_KEY_SIZE;
 
-	as.keys = malloc(as.keys_alloc * sizeof(char));
+	as.keys = allocator_alloc(as.keys_alloc * sizeof(char));
 	if (as.keys == NULL)
 	{
 		free(as.values);
diff --git a/libs/utils/node_vector.h b/libs/utils/node_vector.h
index 080890a..a0112e0 100644
--- a/libs/utils/node_vector.h
+++ b/libs/utils/node_vector.h
@@ -91,11 +91,11 @@ inline node node_vector_get(const node_vector *const vec, const size_t index)
  *
  *	@param	vec				Node vector
  *
- *	@return	Size of node vector, @c SIZE_MAX on failure
+ *	@return	Size of node vector, @c 0 on failure
  */
 inline size_t node_vector_size(const node_vector *const vec)
 {
-	return vec == NULL ? 0 : vector_size(&vec->nodes);
+	return vec == NULL || !vector_is_correct(&vec->nodes) ? 0 : vector_size(&vec->nodes);
 }
 
 /**
diff --git a/libs/utils/strings.c b/libs/utils/strings.c
index 61bcf3d..850d790 100644
--- a/libs/utils/strings.c
+++ b/libs/utils/strings.c
@@ -16,6 +16,7 @@
 
 #include "strings.h"
 #include <stdlib.h>
+#include "allocator.h"
 
 
 static const size_t AVERAGE_STRING_SIZE = 256;
@@ -25,7 +26,7 @@ static inline int strings_add_index(strings *const vec)
 {
 	if (vec->indexes_size == vec->indexes_alloc)
 	{
-		size_t *indexes_new = realloc(vec->indexes, 2 * vec->indexes_alloc * sizeof(size_t));
+		size_t *indexes_new = allocator_realloc(vec->indexes, 2 * vec->indexes_alloc * sizeof(size_t));
 		if (indexes_new == NULL)
 		{
 			return -1;
@@ -46,7 +47,7 @@ static inline int strings_increase(strings *const vec, const size_t size)
 		return 0;
 	}
 
-	char *all_strings_new = realloc(vec->all_strings, 2 * vec->all_strings_alloc * sizeof(char));
+	char *all_strings_new = allocator_realloc(vec->all_strings, 2 * vec->all_strings_alloc * sizeof(char));
 	if (all_strings_new == NULL)
 	{
 		return -1;
@@ -75,7 +76,7 @@ strings strings_create(const size_t alloc)
 	vec.indexes_size = 0;
 	vec.indexes_alloc = alloc != 0 ? alloc : 1;
 
-	vec.indexes = malloc(vec.indexes_alloc * sizeof(size_t));	
+	vec.indexes = allocator_alloc(vec.indexes_alloc * sizeof(size_t));	
 	if (vec.indexes == NULL)
 	{
 		return vec;
@@ -84,7 +85,7 @@ strings strings_create(const size_t alloc)
 	vec.all_strings_size = 0;
 	vec.all_strings_alloc = vec.indexes_alloc * AVERAGE_STRING_SIZE;
 
-	vec.all_strings = malloc(vec.all_strings_alloc * sizeof(char));
+	vec.all_strings = allocator_alloc(vec.all_strings_alloc * sizeof(char));
 	if (vec.all_strings == NULL)
 	{
 		free(vec.indexes);
diff --git a/libs/utils/uniio.c b/libs/utils/uniio.c
index 3fbb0ba..297701a 100644
--- a/libs/utils/uniio.c
+++ b/libs/utils/uniio.c
@@ -18,6 +18,7 @@
 #include <stdint.h>
 #include <stdlib.h>
 #include <string.h>
+#include "allocator.h"
 #include "workspace.h"
 
 #ifdef _WIN32
@@ -173,7 +174,7 @@ static int out_func_buffer(universal_io *const io, const char *const format, va_
 
 	io->out_buffer[io->out_position] = '\0';
 
-	char *new_buffer = realloc(io->out_buffer, 2 * io->out_size * sizeof(char));
+	char *new_buffer = allocator_realloc(io->out_buffer, 2 * io->out_size * sizeof(char));
 	if (new_buffer == NULL)
 	{
 		return -1;
@@ -485,7 +486,7 @@ int out_set_buffer(universal_io *const io, const size_t size)
 	}
 
 	io->out_size = size + 1;
-	io->out_buffer = malloc(io->out_size * sizeof(char));
+	io->out_buffer = allocator_alloc(io->out_size * sizeof(char));
 
 	if (io->out_buffer == NULL)
 	{
diff --git a/libs/utils/vector.c b/libs/utils/vector.c
index 2633b7f..fabcbe3 100644
--- a/libs/utils/vector.c
+++ b/libs/utils/vector.c
@@ -17,6 +17,7 @@
 #include "vector.h"
 #include <stdlib.h>
 #include <string.h>
+#include "allocator.h"
 
 
 static int change_size(vector *const vec, const size_t size)
@@ -24,7 +25,7 @@ static int change_size(vector *const vec, const size_t size)
 	if (size > vec->size_alloc)
 	{
 		const size_t alloc_new = size > 2 * vec->size_alloc ? size : 2 * vec->size_alloc;
-		item_t *array_new = realloc(vec->array, alloc_new * sizeof(item_t));
+		item_t *array_new = allocator_realloc(vec->array, alloc_new * sizeof(item_t));
 		if (array_new == NULL)
 		{
 			return -1;
@@ -59,7 +60,7 @@ vector vector_create(const size_t alloc)
 
 	vec.size = 0;
 	vec.size_alloc = alloc != 0 ? alloc : 1;
-	vec.array = malloc(vec.size_alloc * sizeof(item_t));
+	vec.array = allocator_alloc(vec.size_alloc * sizeof(item_t));
 
 	return vec;
 }
diff --git a/libs/utils/workspace.c b/libs/utils/workspace.c
index 14a1f0f..748ac6a 100644
--- a/libs/utils/workspace.c
+++ b/libs/utils/workspace.c
@@ -94,9 +94,15 @@ static void ws_unix_path(const char *const path, char *const buffer)
 	buffer[buffer[j - 1] == '/' ? j - 1 : j] = '\0';
 }
 
+static inline size_t ws_get_num(const strings *const vec)
+{
+	const size_t size = strings_size(vec);
+	return size != SIZE_MAX ? size : 0;
+}
+
 static size_t ws_exists(const char *const element, const strings *const vec)
 {
-	for (size_t i = 0; i < strings_size(vec); i++)
+	for (size_t i = 0; i < ws_get_num(vec); i++)
 	{
 		if (strcmp(element, strings_get(vec, i)) == 0)
 		{
@@ -107,15 +113,21 @@ static size_t ws_exists(const char *const element, const strings *const vec)
 	return SIZE_MAX;
 }
 
-static inline size_t ws_add_string(strings *const vec, const char *const str)
+static inline size_t ws_add_string(workspace *const ws, strings *const vec, const char *const str)
 {
-	const size_t index = ws_exists(str, vec);
+	size_t index = ws_exists(str, vec);
 	if (index != SIZE_MAX)
 	{
 		return index;
 	}
 
-	return strings_add(vec, str);
+	index = strings_add(vec, str);
+	if (index == SIZE_MAX)
+	{
+		ws_add_error(ws);
+	}
+
+	return index;
 }
 
 static inline size_t ws_add_path(workspace *const ws, strings *const vec, const char *const path)
@@ -140,7 +152,7 @@ static inline size_t ws_add_path(workspace *const ws, strings *const vec, const
 		return SIZE_MAX;
 	}
 
-	return ws_add_string(vec, buffer);
+	return ws_add_string(ws, vec, buffer);
 }
 
 static inline bool ws_is_dir_flag(const char *const flag)
@@ -148,12 +160,6 @@ static inline bool ws_is_dir_flag(const char *const flag)
 	return flag[0] == '-' && flag[1] == 'I';
 }
 
-static inline size_t ws_get_num(const strings *const vec)
-{
-	const size_t size = strings_size(vec);
-	return size != SIZE_MAX ? size : 0;
-}
-
 
 /*
  *	 __     __   __     ______   ______     ______     ______   ______     ______     ______
@@ -220,7 +226,7 @@ workspace ws_create(void)
 	ws.flags = strings_create(MAX_FLAGS);
 
 	ws.output[0] = '\0';
-	ws.was_error = false;
+	ws.was_error = !strings_is_correct(&ws.files) || !strings_is_correct(&ws.dirs) || !strings_is_correct(&ws.flags);
 
 	return ws;
 }
@@ -256,7 +262,7 @@ size_t ws_add_flag(workspace *const ws, const char *const flag)
 		return SIZE_MAX;
 	}
 
-	return ws_is_dir_flag(flag) ? ws_add_dir(ws, &flag[2]) : ws_add_string(&ws->flags, flag);
+	return ws_is_dir_flag(flag) ? ws_add_dir(ws, &flag[2]) : ws_add_string(ws, &ws->flags, flag);
 }
 
 int ws_add_flags(workspace *const ws, const char *const *const flags, const size_t num)
-- 
2.43.0


From 82963cf791fdba833e4e6e2804c75d38da7b9907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:07 +0000
Subject: [PATCH 31/43] fix: preprocessing went on with a part of the text lost
 when memory was refused

---
 libs/macro/error.c  |  3 +++
 libs/macro/error.h  |  1 +
 libs/macro/macro.c  | 13 +++++++++++--
 libs/macro/parser.c | 29 ++++++++++++++++++++++++-----
 libs/macro/parser.h |  1 +
 5 files changed, 40 insertions(+), 7 deletions(-)

diff --git a/libs/macro/error.c b/libs/macro/error.c
index 8607e1b..82c57ce 100644
--- a/libs/macro/error.c
+++ b/libs/macro/error.c
@@ -55,6 +55,9 @@ static void get_error(const error_t num, char *const msg, va_list args)
 		case LINKER_CANNOT_OPEN:
 			sprintf(msg, "невозможно открыть исходные тексты");
 			break;
+		case LINKER_NO_MEMORY:
+			sprintf(msg, "недостаточно памяти");
+			break;
 
 		case MACRO_NAME_NON:
 			sprintf(msg, "предопределенный макрос должен иметь имя");
diff --git a/libs/macro/error.h b/libs/macro/error.h
index 7c522b5..cebbf90 100644
--- a/libs/macro/error.h
+++ b/libs/macro/error.h
@@ -30,6 +30,7 @@ typedef enum ERROR
 	LINKER_NO_INPUT,
 	LINKER_WRONG_IO,
 	LINKER_CANNOT_OPEN,
+	LINKER_NO_MEMORY,
 
 	MACRO_NAME_NON,
 	MACRO_NAME_FIRST_CHARACTER,
diff --git a/libs/macro/macro.c b/libs/macro/macro.c
index 561c2ba..ae6edb0 100644
--- a/libs/macro/macro.c
+++ b/libs/macro/macro.c
@@ -15,6 +15,7 @@
  */
 
 #include "macro.h"
+#include "allocator.h"
 #include "linker.h"
 #include "parser.h"
 #include "storage.h"
@@ -108,16 +109,18 @@ static inline int ws_parse(const workspace *const ws, storage *const stg)
 
 static int macro_form_io(workspace *const ws, universal_io *const output)
 {
+	const size_t refusals = allocator_get_refusals();
+
 	linker lk = linker_create(ws);
 	storage stg = storage_create();
 	parser prs = parser_create(&lk, &stg, output);
 
-	int ret = ws_parse(ws, &stg);
+	int ret = refusals == allocator_get_refusals() ? ws_parse(ws, &stg) : -1;
 	const bool is_recovery_disabled = ws_has_flag(ws, "-Wno");
 	parser_disable_recovery(&prs, is_recovery_disabled);
 
 	const size_t size = linker_size(&lk);
-	for (size_t i = 0; i < size && !(ret && is_recovery_disabled); i++)
+	for (size_t i = 0; i < size && refusals == allocator_get_refusals() && !(ret && is_recovery_disabled); i++)
 	{
 		universal_io in = linker_add_source(&lk, i);
 		if (!in_is_correct(&in))
@@ -133,6 +136,12 @@ static int macro_form_io(workspace *const ws, universal_io *const output)
 		}
 	}
 
+	if (refusals != allocator_get_refusals())
+	{
+		macro_system_error(TAG_LINKER, LINKER_NO_MEMORY);
+		ret = -1;
+	}
+
 	parser_clear(&prs);
 	storage_clear(&stg);
 	linker_clear(&lk);
diff --git a/libs/macro/parser.c b/libs/macro/parser.c
index 58e3fb9..32716f3 100644
--- a/libs/macro/parser.c
+++ b/libs/macro/parser.c
@@ -17,6 +17,7 @@
 #include "parser.h"
 #include <stdlib.h>
 #include <string.h>
+#include "allocator.h"
 #include "computer.h"
 #include "error.h"
 #include "keywords.h"
@@ -51,6 +52,19 @@ static char32_t parse_line(parser *const prs);
 static keyword_t parse_block(parser *const prs, const keyword_t begin);
 
 
+/**
+ *	Check that no memory was refused since parser creation.
+ *	Otherwise there is no reason to continue, because a part of the result is lost.
+ *
+ *	@param	prs			Parser structure
+ *
+ *	@return	@c true on refused memory
+ */
+static inline bool parser_is_out_of_memory(const parser *const prs)
+{
+	return prs->refusals != allocator_get_refusals();
+}
+
 /**
  *	Emit an error from parser
  *
@@ -59,7 +73,7 @@ static keyword_t parse_block(parser *const prs, const keyword_t begin);
  */
 static void parser_error(parser *const prs, location *const loc, error_t num, ...)
 {
-	if (prs->is_recovery_disabled && prs->was_error)
+	if ((prs->is_recovery_disabled && prs->was_error) || parser_is_out_of_memory(prs))
 	{
 		return;
 	}
@@ -81,7 +95,7 @@ static void parser_error(parser *const prs, location *const loc, error_t num, ..
  */
 static void parser_warning(parser *const prs, location *const loc, warning_t num, ...)
 {
-	if (prs->is_recovery_disabled)
+	if (prs->is_recovery_disabled || parser_is_out_of_memory(prs))
 	{
 		return;
 	}
@@ -244,7 +258,7 @@ static char32_t skip_until(parser *const prs, const bool fill)
 
 	while (true)
 	{
-		char32_t character = uni_scan_char(prs->io);
+		char32_t character = !parser_is_out_of_memory(prs) ? uni_scan_char(prs->io) : (char32_t)EOF;
 		switch (character)
 		{
 			case '/':
@@ -503,7 +517,7 @@ static keyword_t skip_block(parser *const prs, const keyword_t begin)
 	prs->is_macro_processed = is_root_macro ? true : prs->is_macro_processed;
 
 	char32_t character = '\0';
-	while (character != (char32_t)EOF)
+	while (character != (char32_t)EOF && !parser_is_out_of_memory(prs))
 	{
 		if (!prs->is_macro_processed)
 		{
@@ -1304,6 +1318,10 @@ static inline bool parse_sequence(parser *const prs, computer *const comp, const
 	uni_print_char(prs->io, character);
 	out_swap(prs->io, &out);
 	char *buffer = out_extract_buffer(&out);
+	if (buffer == NULL)
+	{
+		return false;
+	}
 
 	if (character == '"')
 	{
@@ -2326,7 +2344,7 @@ static bool parse_next(parser *const prs, const keyword_t begin, const keyword_t
 static keyword_t parse_block(parser *const prs, const keyword_t begin)
 {
 	char32_t character = '\0';
-	while (character != (char32_t)EOF)
+	while (character != (char32_t)EOF && !parser_is_out_of_memory(prs))
 	{
 		const keyword_t keyword = parse_directive(prs);
 		switch (keyword)
@@ -2411,6 +2429,7 @@ parser parser_create(linker *const lk, storage *const stg, universal_io *const o
 
 	prs.include = 0;
 	prs.call = 0;
+	prs.refusals = allocator_get_refusals();
 
 	prs.is_recovery_disabled = false;
 	prs.is_line_required = false;
diff --git a/libs/macro/parser.h b/libs/macro/parser.h
index 7cc8d81..7cefce2 100644
--- a/libs/macro/parser.h
+++ b/libs/macro/parser.h
@@ -39,6 +39,7 @@ typedef struct parser
 
 	size_t include;					/**< Current include depth */
 	size_t call;					/**< Current macro call depth */
+	size_t refusals;				/**< Number of refused allocations before parsing */
 
 	bool is_recovery_disabled;		/**< Set, if error recovery & multiple output disabled */
 	bool is_line_required;			/**< Set, if position directive required */
-- 
2.43.0


From eea64bd05464eb1685e262ffaee78edc54bee5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:07 +0000
Subject: [PATCH 32/43] fix: compilation hung, crashed or claimed success when
 memory was refused

---
 libs/compiler/codegen.c  |  8 ++++++++
 libs/compiler/compiler.c | 14 ++++++++++++--
 libs/compiler/lexer.c    |  5 ++++-
 libs/compiler/lexer.h    |  1 +
 libs/compiler/llvmgen.c  |  4 ++++
 libs/compiler/mipsgen.c  |  4 ++++
 libs/compiler/syntax.c   | 30 ++++++++++++++++++++++++------
 7 files changed, 57 insertions(+), 9 deletions(-)

diff --git a/libs/compiler/codegen.c b/libs/compiler/codegen.c
index b091a72..02c7a79 100644
--- a/libs/compiler/codegen.c
+++ b/libs/compiler/codegen.c
@@ -15,6 +15,7 @@
  */
 
 #include "codegen.h"
+#include "allocator.h"
 #include "AST.h"
 #include "errors.h"
 #include "instructions.h"
@@ -2048,7 +2049,14 @@ int encode_to_vm(const workspace *const ws, syntax *const sx)
 		return -1;
 	}
 
+	const size_t refusals = allocator_get_refusals();
+
 	encoder enc = enc_create(ws, sx);
+	if (refusals != allocator_get_refusals())
+	{
+		enc_clear(&enc);
+		return -1;
+	}
 
 	const node root = node_get_root(&sx->tree);
 	emit_translation_unit(&enc, &root);
diff --git a/libs/compiler/compiler.c b/libs/compiler/compiler.c
index 172a119..1a3b421 100644
--- a/libs/compiler/compiler.c
+++ b/libs/compiler/compiler.c
@@ -17,6 +17,7 @@
 #include "compiler.h"
 #include <stdlib.h>
 #include <string.h>
+#include "allocator.h"
 #include "codegen.h"
 #include "errors.h"
 #include "mipsgen.h"
@@ -69,8 +70,10 @@ static status_t compile_from_io(const workspace *const ws, universal_io *const i
 		return sts_system_error;
 	}
 
+	const size_t refusals = allocator_get_refusals();
+
 	syntax sx = sx_create(ws, io);
-	int ret = parse(&sx);
+	int ret = refusals == allocator_get_refusals() && !parse(&sx) && refusals == allocator_get_refusals() ? 0 : -1;
 	status_t sts = sts_parse_error;
 
 	if (!ret && !ws_has_flag(ws, "-c")) // Skip linker stage
@@ -86,7 +89,14 @@ static status_t compile_from_io(const workspace *const ws, universal_io *const i
 	}
 
 	sx_clear(&sx);
-	if (io_erase(io) && !ret)
+	const bool was_error = io_erase(io);
+	if (refusals != allocator_get_refusals())
+	{
+		error_msg("недостаточно памяти");
+		return sts_system_error;
+	}
+
+	if (was_error && !ret)
 	{
 		error_msg("ошибка ввода/вывода");
 		return sts_system_error;
diff --git a/libs/compiler/lexer.c b/libs/compiler/lexer.c
index 8abad9c..67205ad 100644
--- a/libs/compiler/lexer.c
+++ b/libs/compiler/lexer.c
@@ -17,6 +17,7 @@
 #include "lexer.h"
 #include <math.h>
 #include <string.h>
+#include "allocator.h"
 #include "uniscanner.h"
 
 
@@ -458,6 +459,7 @@ lexer lexer_create(syntax *const sx)
 	lexer lxr;
 
 	lxr.sx = sx;
+	lxr.refusals = allocator_get_refusals();
 	lxr.lexstr = vector_create(MAX_STRING_LENGTH);
 
 	scan(&lxr);
@@ -473,7 +475,8 @@ int lexer_clear(lexer *const lxr)
 
 token lex(lexer *const lxr)
 {
-	if (lxr == NULL)
+	// Без памяти часть программы потеряна, поэтому продолжать разбор незачем
+	if (lxr == NULL || lxr->refusals != allocator_get_refusals())
 	{
 		return token_eof();
 	}
diff --git a/libs/compiler/lexer.h b/libs/compiler/lexer.h
index 37e41a8..40458e2 100644
--- a/libs/compiler/lexer.h
+++ b/libs/compiler/lexer.h
@@ -35,6 +35,7 @@ typedef struct lexer
 
 	char32_t character;						/**< Current character */
 	vector lexstr;							/**< Representation of the read string literal */
+	size_t refusals;						/**< Number of refused allocations before lexing */
 } lexer;
 
 /**
diff --git a/libs/compiler/llvmgen.c b/libs/compiler/llvmgen.c
index c0dd76f..231da1d 100644
--- a/libs/compiler/llvmgen.c
+++ b/libs/compiler/llvmgen.c
@@ -3271,6 +3271,10 @@ int encode_to_llvm(const workspace *const ws, syntax *const sx)
 	}
 
 	info.arrays = hash_create(HASH_TABLE_SIZE);
+	if (!hash_is_correct(&info.arrays))
+	{
+		return -1;
+	}
 
 	architecture(ws, sx);
 	structs_declaration(&info);
diff --git a/libs/compiler/mipsgen.c b/libs/compiler/mipsgen.c
index f962da1..48b78ef 100644
--- a/libs/compiler/mipsgen.c
+++ b/libs/compiler/mipsgen.c
@@ -3960,6 +3960,10 @@ int encode_to_mips(const workspace *const ws, syntax *const sx)
 	enc.global_displ = 0;
 
 	enc.displacements = hash_create(HASH_TABLE_SIZE);
+	if (!hash_is_correct(&enc.displacements))
+	{
+		return -1;
+	}
 
 	for (size_t i = 0; i < TEMP_REG_AMOUNT + TEMP_FP_REG_AMOUNT; i++)
 	{
diff --git a/libs/compiler/syntax.c b/libs/compiler/syntax.c
index 498bc34..84a8bff 100644
--- a/libs/compiler/syntax.c
+++ b/libs/compiler/syntax.c
@@ -17,6 +17,7 @@
 #include "syntax.h"
 #include <stdlib.h>
 #include <string.h>
+#include "allocator.h"
 #include "token.h"
 #include "tree.h"
 
@@ -249,6 +250,8 @@ static item_t type_get(const syntax *const sx, const size_t index)
 
 syntax sx_create(const workspace *const ws, universal_io *const io)
 {
+	const size_t refusals = allocator_get_refusals();
+
 	syntax sx;
 	sx.io = io;
 
@@ -268,9 +271,11 @@ syntax sx_create(const workspace *const ws, universal_io *const io)
 	repr_init(&sx.representations);
 
 	sx.types = vector_create(TYPES_SIZE);
-	type_init(&sx);
-
-	ident_init(&sx);
+	if (refusals == allocator_get_refusals())
+	{
+		type_init(&sx);
+		ident_init(&sx);
+	}
 
 	sx.max_displg = 3;
 	sx.ref_main = 0;
@@ -518,12 +523,20 @@ item_t type_add(syntax *const sx, const item_t *const record, const size_t size)
 		return ITEM_MAX;
 	}
 
-	sx->start_type = vector_add(&sx->types, (item_t)sx->start_type);
-	for (size_t i = 0; i < size; i++)
+	const size_t start = vector_size(&sx->types);
+	size_t last = vector_add(&sx->types, (item_t)sx->start_type);
+	for (size_t i = 0; i < size && last != SIZE_MAX; i++)
 	{
-		vector_add(&sx->types, record[i]);
+		last = vector_add(&sx->types, record[i]);
 	}
 
+	if (last == SIZE_MAX)
+	{
+		vector_resize(&sx->types, start);
+		return ITEM_MAX;
+	}
+	sx->start_type = start;
+
 	// Checking mode duplicates
 	size_t old = (size_t)vector_get(&sx->types, sx->start_type);
 	while (old)
@@ -722,6 +735,11 @@ item_t type_structure(syntax *const sx, vector *const types, vector *const names
 {
 	const size_t members = vector_size(types);
 	vector record = vector_create(3 + 2 * members);
+	if (!vector_is_correct(types) || !vector_is_correct(names) || !vector_is_correct(&record))
+	{
+		vector_clear(&record);
+		return ITEM_MAX;
+	}
 	vector_increase(&record, 3);
 
 	item_t displ = 0;
-- 
2.43.0


From 52d32acf6c5deed71b9e465970ccb47ae95994cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:01 +0000
Subject: [PATCH 33/43] fix: a recursive macro with several calls in its value
 was expanded exponentially

---
 libs/macro/parser.c | 13 +++++++++++++
 libs/macro/parser.h |  1 +
 2 files changed, 14 insertions(+)

diff --git a/libs/macro/parser.c b/libs/macro/parser.c
index 32716f3..64ee860 100644
--- a/libs/macro/parser.c
+++ b/libs/macro/parser.c
@@ -823,9 +823,20 @@ static inline void parse_identifier(parser *const prs)
 		return;
 	}
 
+	if (prs->call == 0)
+	{
+		prs->is_call_depth_reached = false;
+	}
+	else if (prs->is_call_depth_reached)	// Otherwise number of calls grows exponentially
+	{
+		uni_printf(prs->io, "%s", storage_last_read(prs->stg));
+		return;
+	}
+
 	if (prs->call > MAX_CALL_DEPTH)
 	{
 		parser_error(prs, NULL, CALL_DEPTH);
+		prs->is_call_depth_reached = true;
 		uni_printf(prs->io, "%s", storage_last_read(prs->stg));
 		return;
 	}
@@ -1571,6 +1582,7 @@ static item_t parse_expression(parser *const prs)
 
 			out_set_buffer(&out, MAX_VALUE_SIZE);
 			out_swap(prs->io, &out);
+			prs->is_call_depth_reached = prs->call != 0 && prs->is_call_depth_reached;
 			prs->call++;
 
 			if (!parse_replacement(prs, index))
@@ -2434,6 +2446,7 @@ parser parser_create(linker *const lk, storage *const stg, universal_io *const o
 	prs.is_recovery_disabled = false;
 	prs.is_line_required = false;
 	prs.is_macro_processed = false;
+	prs.is_call_depth_reached = false;
 	prs.was_error = false;
 
 	return prs;
diff --git a/libs/macro/parser.h b/libs/macro/parser.h
index 7cefce2..6e4ce7e 100644
--- a/libs/macro/parser.h
+++ b/libs/macro/parser.h
@@ -44,6 +44,7 @@ typedef struct parser
 	bool is_recovery_disabled;		/**< Set, if error recovery & multiple output disabled */
 	bool is_line_required;			/**< Set, if position directive required */
 	bool is_macro_processed;		/**< Set, if macro block processed */
+	bool is_call_depth_reached;		/**< Set, if current macro call should not be replaced deeper */
 	bool was_error;					/**< Set, if error message occurred */
 } parser;
 
-- 
2.43.0


From fb3ffa96f0fb3331bbd1872f775dba827170e50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:55 +0000
Subject: [PATCH 34/43] fix: characters U+0800..U+0FFF and U+10000..U+3FFFF
 were written as invalid UTF-8

---
 libs/utils/utf8.c | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/libs/utils/utf8.c b/libs/utils/utf8.c
index c98e824..72410c9 100644
--- a/libs/utils/utf8.c
+++ b/libs/utils/utf8.c
@@ -987,14 +987,8 @@ size_t utf8_to_string(char *const buffer, const char32_t symbol)
 		return 1;
 	}
 
-	char32_t mask = 0x00FC0000;
-	size_t octets = 4;
-	while ((symbol & mask) == 0 && octets > 1)
-	{
-		mask >>= 6;
-		octets--;
-	}
-
+	const size_t octets = utf8_size(symbol);
+	char32_t mask = (char32_t)0x0000003F << (6 * (octets - 1));
 	for (size_t i = 0; i < octets; i++)
 	{
 		buffer[i] = '\x80' /* 0b10000000 */;
-- 
2.43.0


From ea15eeb0adc2056100a367a45c445b1293fdeec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:55 +0000
Subject: [PATCH 35/43] fix: double and 64-bit access to an index near SIZE_MAX
 left the vector

---
 libs/utils/hash.h   | 8 ++++----
 libs/utils/vector.c | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/libs/utils/hash.h b/libs/utils/hash.h
index 625ddbf..5ad5f10 100644
--- a/libs/utils/hash.h
+++ b/libs/utils/hash.h
@@ -198,7 +198,7 @@ inline item_t hash_get_by_index(const hash *const hs, const size_t index, const
  */
 inline double hash_get_double_by_index(const hash *const hs, const size_t index, const size_t num)
 {
-	return num + DOUBLE_SIZE <= hash_get_amount_by_index(hs, index) ? vector_get_double(hs, index + 3 + num) : DBL_MAX;
+	return num < SIZE_MAX - DOUBLE_SIZE && num + DOUBLE_SIZE <= hash_get_amount_by_index(hs, index) ? vector_get_double(hs, index + 3 + num) : DBL_MAX;
 }
 
 /**
@@ -212,7 +212,7 @@ inline double hash_get_double_by_index(const hash *const hs, const size_t index,
  */
 inline int64_t hash_get_int64_by_index(const hash *const hs, const size_t index, const size_t num)
 {
-	return num + INT64_SIZE <= hash_get_amount_by_index(hs, index) ? vector_get_int64(hs, index + 3 + num) : LLONG_MAX;
+	return num < SIZE_MAX - INT64_SIZE && num + INT64_SIZE <= hash_get_amount_by_index(hs, index) ? vector_get_int64(hs, index + 3 + num) : LLONG_MAX;
 }
 
 
@@ -243,7 +243,7 @@ inline int hash_set_by_index(hash *const hs, const size_t index, const size_t nu
  */
 inline size_t hash_set_double_by_index(hash *const hs, const size_t index, const size_t num, const double value)
 {
-	return num + DOUBLE_SIZE <= hash_get_amount_by_index(hs, index) ? vector_set_double(hs, index + 3 + num, value) : SIZE_MAX;
+	return num < SIZE_MAX - DOUBLE_SIZE && num + DOUBLE_SIZE <= hash_get_amount_by_index(hs, index) ? vector_set_double(hs, index + 3 + num, value) : SIZE_MAX;
 }
 
 /**
@@ -258,7 +258,7 @@ inline size_t hash_set_double_by_index(hash *const hs, const size_t index, const
  */
 inline size_t hash_set_int64_by_index(hash *const hs, const size_t index, const size_t num, const int64_t value)
 {
-	return num + INT64_SIZE <= hash_get_amount_by_index(hs, index) ? vector_set_int64(hs, index + 3 + num, value) : SIZE_MAX;
+	return num < SIZE_MAX - INT64_SIZE && num + INT64_SIZE <= hash_get_amount_by_index(hs, index) ? vector_set_int64(hs, index + 3 + num, value) : SIZE_MAX;
 }
 
 
diff --git a/libs/utils/vector.c b/libs/utils/vector.c
index fabcbe3..c33a5a2 100644
--- a/libs/utils/vector.c
+++ b/libs/utils/vector.c
@@ -113,7 +113,7 @@ int vector_set(vector *const vec, const size_t index, const item_t value)
 
 size_t vector_set_double(vector *const vec, const size_t index, const double value)
 {
-	if (!vector_is_correct(vec) || index + DOUBLE_SIZE > vec->size)
+	if (!vector_is_correct(vec) || index >= vec->size || vec->size - index < DOUBLE_SIZE)
 	{
 		return SIZE_MAX;
 	}
@@ -123,7 +123,7 @@ size_t vector_set_double(vector *const vec, const size_t index, const double val
 
 size_t vector_set_int64(vector *const vec, const size_t index, const int64_t value)
 {
-	if (!vector_is_correct(vec) || index + INT64_SIZE > vec->size)
+	if (!vector_is_correct(vec) || index >= vec->size || vec->size - index < INT64_SIZE)
 	{
 		return SIZE_MAX;
 	}
@@ -144,7 +144,7 @@ item_t vector_get(const vector *const vec, const size_t index)
 
 double vector_get_double(const vector *const vec, const size_t index)
 {
-	if (!vector_is_correct(vec) || index + DOUBLE_SIZE > vec->size)
+	if (!vector_is_correct(vec) || index >= vec->size || vec->size - index < DOUBLE_SIZE)
 	{
 		return DBL_MAX;
 	}
@@ -154,7 +154,7 @@ double vector_get_double(const vector *const vec, const size_t index)
 
 int64_t vector_get_int64(const vector *const vec, const size_t index)
 {
-	if (!vector_is_correct(vec) || index + INT64_SIZE > vec->size)
+	if (!vector_is_correct(vec) || index >= vec->size || vec->size - index < INT64_SIZE)
 	{
 		return LLONG_MAX;
 	}
-- 
2.43.0


From 5029fe44f368860b7aa16398276f34c53d03f1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:55 +0000
Subject: [PATCH 36/43] fix: tree, hash and strings were corrupted by a refused
 growth and reported success

---
 libs/utils/hash.c    | 10 +++++--
 libs/utils/strings.c | 15 +++++++---
 libs/utils/tree.c    | 67 ++++++++++++++++++++++++++++++++------------
 3 files changed, 67 insertions(+), 25 deletions(-)

diff --git a/libs/utils/hash.c b/libs/utils/hash.c
index 769a008..b3d330d 100644
--- a/libs/utils/hash.c
+++ b/libs/utils/hash.c
@@ -103,8 +103,12 @@ size_t hash_add(hash *const hs, const item_t key, const size_t amount)
 	if (index == 0)
 	{
 		index = (item_t)vector_size(hs);
+		if (vector_increase(hs, 3 + amount))	// New elements set by zero
+		{
+			return SIZE_MAX;
+		}
+
 		vector_set(hs, prev, index);
-		vector_increase(hs, 3 + amount);	// New elements set by zero
 		vector_set(hs, (size_t)index + 2, (item_t)amount);
 	}
 
@@ -168,13 +172,13 @@ size_t hash_set(hash *const hs, const item_t key, const size_t num, const item_t
 size_t hash_set_double(hash *const hs, const item_t key, const size_t num, const double value)
 {
 	const size_t index = hash_get_index(hs, key);
-	return hash_set_double_by_index(hs, hash_get_index(hs, key), num, value) != DBL_MAX ? index : SIZE_MAX;
+	return hash_set_double_by_index(hs, hash_get_index(hs, key), num, value) != SIZE_MAX ? index : SIZE_MAX;
 }
 
 size_t hash_set_int64(hash *const hs, const item_t key, const size_t num, const int64_t value)
 {
 	const size_t index = hash_get_index(hs, key);
-	return hash_set_int64_by_index(hs, hash_get_index(hs, key), num, value) != LLONG_MAX ? index : SIZE_MAX;
+	return hash_set_int64_by_index(hs, hash_get_index(hs, key), num, value) != SIZE_MAX ? index : SIZE_MAX;
 }
 
 
diff --git a/libs/utils/strings.c b/libs/utils/strings.c
index 850d790..9b24d74 100644
--- a/libs/utils/strings.c
+++ b/libs/utils/strings.c
@@ -58,6 +58,13 @@ static inline int strings_increase(strings *const vec, const size_t size)
 	return strings_increase(vec, size);
 }
 
+static inline size_t strings_cancel(strings *const vec)
+{
+	// Forget the part of a new string already stored
+	vec->all_strings_size = vec->indexes[vec->indexes_size];
+	return SIZE_MAX;
+}
+
 
 /*
  *	 __     __   __     ______   ______     ______     ______   ______     ______     ______
@@ -108,7 +115,7 @@ size_t strings_add(strings *const vec, const char *const str)
 	{
 		if (strings_increase(vec, 2))
 		{
-			return SIZE_MAX;
+			return strings_cancel(vec);
 		}
 
 		vec->all_strings[vec->all_strings_size++] = str[i];
@@ -129,7 +136,7 @@ size_t strings_add_by_utf8(strings *const vec, const char32_t *const str)
 	{
 		if (strings_increase(vec, utf8_size(str[i]) + 1))
 		{
-			return SIZE_MAX;
+			return strings_cancel(vec);
 		}
 
 		vec->all_strings_size += utf8_to_string(&vec->all_strings[vec->all_strings_size], str[i]);
@@ -156,7 +163,7 @@ size_t strings_add_by_vector(strings *const vec, const vector *const str)
 
 		if (strings_increase(vec, utf8_size(ch) + 1))
 		{
-			return SIZE_MAX;
+			return strings_cancel(vec);
 		}
 
 		vec->all_strings_size += utf8_to_string(&vec->all_strings[vec->all_strings_size], ch);
@@ -164,7 +171,7 @@ size_t strings_add_by_vector(strings *const vec, const vector *const str)
 
 	if (strings_increase(vec, 1))
 	{
-		return SIZE_MAX;
+		return strings_cancel(vec);
 	}
 
 	vec->all_strings[vec->all_strings_size++] = '\0';
diff --git a/libs/utils/tree.c b/libs/utils/tree.c
index ec61993..27f2f52 100644
--- a/libs/utils/tree.c
+++ b/libs/utils/tree.c
@@ -129,7 +129,10 @@ node node_get_root(vector *const tree)
 	const size_t size = vector_size(tree);
 	if (size == 0)
 	{
-		vector_increase(tree, 3);
+		if (vector_increase(tree, 3))
+		{
+			return node_broken();
+		}
 	}
 	else if (size == SIZE_MAX || size < 3 || vector_get(tree, 2) < 0)
 	{
@@ -180,12 +183,12 @@ item_t node_get_arg(const node *const nd, const size_t index)
 
 double node_get_arg_double(const node *const nd, const size_t index)
 {
-	return index + DOUBLE_SIZE <= node_get_argc(nd) ? vector_get_double(nd->tree, ref_get_argc(nd) + 1 + index) : DBL_MAX;
+	return index < SIZE_MAX - DOUBLE_SIZE && index + DOUBLE_SIZE <= node_get_argc(nd) ? vector_get_double(nd->tree, ref_get_argc(nd) + 1 + index) : DBL_MAX;
 }
 
 int64_t node_get_arg_int64(const node *const nd, const size_t index)
 {
-	return index + INT64_SIZE <= node_get_argc(nd) ? vector_get_int64(nd->tree, ref_get_argc(nd) + 1 + index) : LLONG_MAX;
+	return index < SIZE_MAX - INT64_SIZE && index + INT64_SIZE <= node_get_argc(nd) ? vector_get_int64(nd->tree, ref_get_argc(nd) + 1 + index) : LLONG_MAX;
 }
 
 size_t node_get_amount(const node *const nd)
@@ -205,6 +208,11 @@ node node_get_next(const node *const nd)
 
 	if (node_get_amount(nd) == 0)
 	{
+		if (nd->index == 0)
+		{
+			return node_broken();
+		}
+
 		item_t index = vector_get(nd->tree, ref_get_next(nd));
 		while (is_negative(index))
 		{
@@ -238,10 +246,15 @@ node node_add_child(const node *const nd, const item_t type)
 		return node_broken();
 	}
 
-	vector_add(nd->tree, to_negative(nd->index));
-	vector_add(nd->tree, type);
-	node child = { nd->tree, vector_add(nd->tree, 0) };
-	vector_increase(nd->tree, 2);
+	const size_t size = vector_size(nd->tree);
+	if (vector_increase(nd->tree, 5))
+	{
+		return node_broken();
+	}
+
+	node child = { nd->tree, size + 2 };
+	ref_set_next(&child, to_negative(nd->index));
+	vector_set(nd->tree, child.index - 1, type);
 
 	const size_t amount = node_get_amount(nd);
 	ref_set_amount(nd, (item_t)(amount + 1));
@@ -286,7 +299,11 @@ int node_add_arg(const node *const nd, const item_t arg)
 		return -2;
 	}
 	
-	vector_add(nd->tree, arg);
+	if (vector_add(nd->tree, arg) == SIZE_MAX)
+	{
+		return -1;
+	}
+
 	ref_set_argc(nd, (item_t)node_get_argc(nd) + 1);
 
 	return 0;
@@ -304,7 +321,11 @@ int node_add_arg_double(const node *const nd, const double arg)
 		return -2;
 	}
 	
-	vector_add_double(nd->tree, arg);
+	if (vector_add_double(nd->tree, arg) == SIZE_MAX)
+	{
+		return -1;
+	}
+
 	ref_set_argc(nd, (item_t)(node_get_argc(nd) + DOUBLE_SIZE));
 
 	return 0;
@@ -322,7 +343,11 @@ int node_add_arg_int64(const node *const nd, const int64_t arg)
 		return -2;
 	}
 	
-	vector_add_int64(nd->tree, arg);
+	if (vector_add_int64(nd->tree, arg) == SIZE_MAX)
+	{
+		return -1;
+	}
+
 	ref_set_argc(nd, (item_t)(node_get_argc(nd) + INT64_SIZE));
 
 	return 0;
@@ -340,7 +365,7 @@ int node_set_arg(const node *const nd, const size_t index, const item_t arg)
 
 size_t node_set_arg_double(const node *const nd, const size_t index, const double arg)
 {
-	if (index + DOUBLE_SIZE > node_get_argc(nd))
+	if (index > SIZE_MAX - DOUBLE_SIZE || index + DOUBLE_SIZE > node_get_argc(nd))
 	{
 		return SIZE_MAX;
 	}
@@ -350,7 +375,7 @@ size_t node_set_arg_double(const node *const nd, const size_t index, const doubl
 
 size_t node_set_arg_int64(const node *const nd, const size_t index, const int64_t arg)
 {
-	if (index + INT64_SIZE > node_get_argc(nd))
+	if (index > SIZE_MAX - INT64_SIZE || index + INT64_SIZE > node_get_argc(nd))
 	{
 		return SIZE_MAX;
 	}
@@ -408,12 +433,18 @@ node node_insert(const node *const nd, const item_t type, const size_t argc)
 		reference = ref_get_next(&prev);
 	}
 
-	vector_add(nd->tree, vector_get(nd->tree, ref_get_next(nd)));
-	vector_add(nd->tree, type);
-	node child = { nd->tree, vector_add(nd->tree, 1) };
-	vector_add(nd->tree, (item_t)nd->index);
-	vector_add(nd->tree, (item_t)argc);
-	vector_increase(nd->tree, argc);
+	const size_t size = vector_size(nd->tree);
+	if (vector_increase(nd->tree, 5 + argc))
+	{
+		return node_broken();
+	}
+
+	node child = { nd->tree, size + 2 };
+	ref_set_next(&child, vector_get(nd->tree, ref_get_next(nd)));
+	vector_set(nd->tree, child.index - 1, type);
+	ref_set_amount(&child, 1);
+	ref_set_children(&child, (item_t)nd->index);
+	ref_set_argc(&child, (item_t)argc);
 
 	vector_set(nd->tree, reference, (item_t)child.index);
 	ref_set_next(nd, to_negative(child.index));
-- 
2.43.0


From 02ba9be9668829c35814551be4c03c7311be6c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:55 +0000
Subject: [PATCH 37/43] fix: storage kept or mixed up replacements of
 redefined, emptied and absent macros

---
 libs/macro/storage.c | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/libs/macro/storage.c b/libs/macro/storage.c
index db45922..041d298 100644
--- a/libs/macro/storage.c
+++ b/libs/macro/storage.c
@@ -51,6 +51,10 @@ static inline size_t add(storage *const stg, const void *const id, size_t (*rese
 	}
 
 	const size_t index = hash_add(&stg->hs, (item_t)key, 2);
+	if (index == SIZE_MAX)
+	{
+		return SIZE_MAX;
+	}
 
 	map_set_by_index(&stg->as, key, (item_t)index);
 	hash_set_by_index(&stg->hs, index, 0, ITEM_MAX);
@@ -121,6 +125,11 @@ size_t storage_add_by_io(storage *const stg, universal_io *const io)
 	}
 
 	const size_t index = hash_add(&stg->hs, (item_t)key, 2);
+	if (index == SIZE_MAX)
+	{
+		return SIZE_MAX;
+	}
+
 	map_set_by_index(&stg->as, key, (item_t)index);
 
 	hash_set_by_index(&stg->hs, index, 0, ITEM_MAX);
@@ -171,11 +180,8 @@ size_t storage_set_by_index(storage *const stg, const size_t id, const char *val
 	}
 
 	const size_t index = strings_add(&stg->vec, value);
-	if (index != SIZE_MAX)
-	{
-		hash_set_by_index(&stg->hs, id, 0, (item_t)index);
-	}
-	return id;
+	hash_set_by_index(&stg->hs, id, 0, index != SIZE_MAX ? (item_t)index : ITEM_MAX);
+	return index != SIZE_MAX || value == NULL || value[0] == '\0' ? id : SIZE_MAX;
 }
 
 size_t storage_set_args_by_index(storage *const stg, const size_t id, const size_t args)
@@ -197,6 +203,11 @@ int storage_remove_by_index(storage *const stg, const size_t id)
 		return 0;
 	}
 
+	if (id == SIZE_MAX)
+	{
+		return -1;
+	}
+
 	map_set_by_index(&stg->as, (size_t)hash_get_key(&stg->hs, id), ITEM_MAX);
 	if (hash_get_by_index(&stg->hs, id, 0) == (item_t)strings_size(&stg->vec) - 1)
 	{
-- 
2.43.0


From 7f0b3bb8b3fb3672b77dea5b5f6280203bf65b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:06 +0000
Subject: [PATCH 38/43] fix: a failed or multi-part uni_scanf on a file left
 the position it reported

---
 libs/utils/uniio.c | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/libs/utils/uniio.c b/libs/utils/uniio.c
index 297701a..fa4aa3e 100644
--- a/libs/utils/uniio.c
+++ b/libs/utils/uniio.c
@@ -68,7 +68,14 @@ static int scan_file_arg(universal_io *const io, const char *const format, const
 	int ret = fscanf(io->in_file, buffer, arg, &number);
 	io->in_position += number;
 
-	return number != 0 ? ret : 0;
+	if (number == 0)
+	{
+		// Неудачное чтение не должно сдвигать файл относительно запомненной позиции
+		fseek(io->in_file, (long)io->in_position, SEEK_SET);
+		return 0;
+	}
+
+	return ret;
 }
 
 static int scan_buffer_arg(universal_io *const io, const char *const format, const size_t size, void *arg)
@@ -81,7 +88,7 @@ static int scan_buffer_arg(universal_io *const io, const char *const format, con
 	int ret = sscanf(&io->in_buffer[io->in_position], buffer, arg, &number);
 	io->in_position += number;
 
-	return io->in_position < io->in_size || number != 0 ? ret : 0;
+	return number != 0 ? ret : 0;
 }
 
 static inline int in_func_position(universal_io *const io, const char *const format, va_list args
@@ -115,17 +122,17 @@ static inline int in_func_position(universal_io *const io, const char *const for
 			if (format[i] != '%')
 			{
 				void *arg = va_arg(args, void *);
-				ret += scan_arg(io, &format[last], i + 1, arg);
-
-				if (io->in_position >= io->in_size)
-				{
-					return ret;
-				}
+				const int scanned = scan_arg(io, &format[last], i + 1 - last, arg);
+				ret += scanned;
 
 				if (was_count)
 				{
 					*(size_t *)arg = io->in_position - position;
 				}
+				else if (scanned <= 0)
+				{
+					return ret;
+				}
 
 				last = i + 1;
 			}
-- 
2.43.0


From df11d8e8ef5c810f4e08aec11578a5aee0e58356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:06 +0000
Subject: [PATCH 39/43] fix: uni_scan_number never ended after a failed read

---
 libs/utils/uniscanner.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/libs/utils/uniscanner.c b/libs/utils/uniscanner.c
index 60b1364..bd1026b 100644
--- a/libs/utils/uniscanner.c
+++ b/libs/utils/uniscanner.c
@@ -66,8 +66,17 @@ size_t uni_scan_number(universal_io *const io, char *const buffer)
 	const size_t end = in_get_position(io);
 	in_set_position(io, begin);
 
-	for (size_t index = 0; in_get_position(io) < end;
-		index += utf8_to_string(&buffer[index], uni_scan_char(io)));
+	size_t index = 0;
+	while (in_get_position(io) < end)
+	{
+		const char32_t character = uni_scan_char(io);
+		if (character == (char32_t)EOF)
+		{
+			return index;
+		}
+
+		index += utf8_to_string(&buffer[index], character);
+	}
 
 	return end - begin;
 }
-- 
2.43.0


From 7975be7e0ef7b4581f109299399c124f9fbae86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:06 +0000
Subject: [PATCH 40/43] fix: paths like ./, a//../b and /../a were not or
 wrongly normalised

---
 libs/utils/workspace.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/libs/utils/workspace.c b/libs/utils/workspace.c
index 748ac6a..4c8a2fb 100644
--- a/libs/utils/workspace.c
+++ b/libs/utils/workspace.c
@@ -70,7 +70,7 @@ static void ws_unix_path(const char *const path, char *const buffer)
 
 		if (buffer[j - 1] == '/')
 		{
-			if (j - last == 2 && buffer[last] == '.')
+			if ((j - last == 1 && i > 1) || (j - last == 2 && buffer[last] == '.'))
 			{
 				j = last;
 			}
@@ -78,7 +78,7 @@ static void ws_unix_path(const char *const path, char *const buffer)
 				&& !((last > 3 && buffer[last - 2] == '.' && buffer[last - 3] == '.' && buffer[last - 4] == '/')
 					|| (last == 3 && buffer[last - 2] == '.' && buffer[last - 3] == '.')))
 			{
-				j = last - 1;
+				j = last != 1 ? last - 1 : last;
 				while (j > 0 && buffer[j - 1] != '/')
 				{
 					j--;
@@ -91,7 +91,12 @@ static void ws_unix_path(const char *const path, char *const buffer)
 		i++;
 	}
 
-	buffer[buffer[j - 1] == '/' ? j - 1 : j] = '\0';
+	if (j == 0)
+	{
+		buffer[j++] = '.';
+	}
+
+	buffer[j > 1 && buffer[j - 1] == '/' ? j - 1 : j] = '\0';
 }
 
 static inline size_t ws_get_num(const strings *const vec)
-- 
2.43.0


From f149cc98410837e908bf38cc1029aa22aafc3fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:06 +0000
Subject: [PATCH 41/43] fix: MIPS code for a structure assigned from a call
 depended on positions in the source

---
 libs/compiler/mipsgen.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libs/compiler/mipsgen.c b/libs/compiler/mipsgen.c
index 48b78ef..49e3026 100644
--- a/libs/compiler/mipsgen.c
+++ b/libs/compiler/mipsgen.c
@@ -2622,6 +2622,11 @@ static rvalue emit_struct_assignment(encoder *const enc, const lvalue *const tar
 	{
 		emit_structure_init(enc, target, value);
 	}
+	else if (expression_get_class(value) != EXPR_IDENTIFIER)
+	{
+		// Иначе вместо идентификатора был бы взят посторонний аргумент узла
+		system_error(node_unexpected);
+	}
 	else	// Присваивание другой структуры
 	{
 		// FIXME: возврат структуры из функции
-- 
2.43.0


From ccea3ab08b647e75037ba369193c41771024c243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:15 +0000
Subject: [PATCH 42/43] fix: an #eval without a condition inside a macro
 printed uninitialised memory as its directive

---
 libs/macro/parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/macro/parser.c b/libs/macro/parser.c
index 64ee860..ff392c2 100644
--- a/libs/macro/parser.c
+++ b/libs/macro/parser.c
@@ -1509,7 +1509,7 @@ static inline bool parse_token(parser *const prs, computer *const comp, const si
 static item_t parse_expression(parser *const prs)
 {
 	location loc = parse_location(prs);
-	char directive[MAX_KEYWORD_SIZE];
+	char directive[MAX_KEYWORD_SIZE] = "#eval";
 	const char *last_read = storage_last_read(prs->stg);
 	if (last_read)
 	{
-- 
2.43.0


From c4b3c4e2f4ba452105a205469c2752a1755fd427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:43 +0000
Subject: [PATCH 43/43] fix: two item widths on the command line made the VM
 encoder write past its buffer

---
 libs/compiler/codegen.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libs/compiler/codegen.c b/libs/compiler/codegen.c
index 02c7a79..694b46b 100644
--- a/libs/compiler/codegen.c
+++ b/libs/compiler/codegen.c
@@ -2049,6 +2049,12 @@ int encode_to_vm(const workspace *const ws, syntax *const sx)
 		return -1;
 	}
 
+	if (item_get_status(ws) == item_error)
+	{
+		error_msg("указано несколько размеров элемента таблиц");
+		return -1;
+	}
+
 	const size_t refusals = allocator_get_refusals();
 
 	encoder enc = enc_create(ws, sx);
-- 
2.43.0

