From 87a410ae180fa2044b8ac121e4dc1308a527e186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:57 +0000
Subject: [PATCH 01/55] fix: query_cur_step: continue with the next datablock
 and cope with empty results

The cursor only moved to the next datablock when the current row did not
fit in the page, stopped at the first empty slot even if more datablocks
followed, and read past the list head for results with no datablock.
---
 src/engine/query.c | 37 +++++++++++++++++++------------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/src/engine/query.c b/src/engine/query.c
index 23fc1eb..72a51ba 100644
--- a/src/engine/query.c
+++ b/src/engine/query.c
@@ -121,28 +121,29 @@ int query_cur_step(struct result_set *res)
 		res->cursor_blk = container_of(res->table->datablock_head->next, typeof(struct datablock), head);
 		res->cursor_offset = 0;
 	} else {
-		if (res->cursor_offset + row_size > DATABLOCK_PAGE_SIZE) {
-			res->cursor_blk = container_of(res->cursor_blk->head.next, typeof(struct datablock), head);
-			res->cursor_offset = 0;
-
-			if (&res->cursor_blk->head == res->table->datablock_head) {
-				/* end of the line */
-				return MIDORIDB_OK;
-			}
-		} else {
-			res->cursor_offset += row_size;
-		}
+		res->cursor_offset += row_size;
 	}
 
-	/* at this point we shouldn't have any of this, so clearly something went really wrong here */
-	row = (typeof(row))&res->cursor_blk->data[res->cursor_offset];
-	BUG_ON(row->flags.deleted);
+	while (&res->cursor_blk->head != res->table->datablock_head) {
+
+		/* does the next row sit entirely in this datablock? */
+		if (res->cursor_offset + row_size <= DATABLOCK_PAGE_SIZE) {
+			row = (typeof(row))&res->cursor_blk->data[res->cursor_offset];
+
+			/* at this point we shouldn't have any of this, so clearly something went really wrong here */
+			BUG_ON(row->flags.deleted);
 
-	if (row->flags.empty)
-		/* end of the line */
-		return MIDORIDB_OK;
+			if (!row->flags.empty)
+				return MIDORIDB_ROW;
+		}
+
+		/* remaining slots, if any, are empty; move on to the next datablock */
+		res->cursor_blk = container_of(res->cursor_blk->head.next, typeof(struct datablock), head);
+		res->cursor_offset = 0;
+	}
 
-	return MIDORIDB_ROW;
+	/* end of the line */
+	return MIDORIDB_OK;
 }
 
 int64_t query_column_int64(struct result_set *res, int col_idx)
-- 
2.43.0


From 944ac01ae029832369a63249dbd10d02a35f5912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:59 +0000
Subject: [PATCH 02/55] fix: table_vacuum: do not dereference a datablock when
 there is none

---
 src/primitive/vacuum.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/primitive/vacuum.c b/src/primitive/vacuum.c
index b634752..c648f72 100644
--- a/src/primitive/vacuum.c
+++ b/src/primitive/vacuum.c
@@ -23,6 +23,10 @@ bool table_vacuum(struct table *table)
 	if (!table)
 		return false;
 
+	/* nothing to be done if the table has never held any row */
+	if (list_is_empty(table->datablock_head))
+		return true;
+
 	dst_blk_idx = 0;
 	src_blk_idx = 0;
 	dst_blk_offset = 0;
-- 
2.43.0


From 3f4f12ff70b2e2b59eb7f0deabfa10851e85fc8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:31 +0000
Subject: [PATCH 03/55] fix: SELECT: x IN (a, b) requires one equal value, not
 all of them

---
 src/engine/executor_select.c | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/engine/executor_select.c b/src/engine/executor_select.c
index 72df5e2..a34171e 100644
--- a/src/engine/executor_select.c
+++ b/src/engine/executor_select.c
@@ -972,7 +972,8 @@ static bool eval_isxin(struct table *table, struct row *row, struct ast_sel_isxi
 	struct ast_sel_fieldname_node *field = NULL;
 	struct ast_sel_exprval_node *value = NULL;
 	struct ast_sel_cmp_node cmp_node = {0};
-	bool is_field;
+	bool is_field = false;
+	bool match;
 
 	if (node->is_negation) {
 		cmp_node.cmp_type = AST_CMP_DIFF_OP;
@@ -1011,17 +1012,19 @@ static bool eval_isxin(struct table *table, struct row *row, struct ast_sel_isxi
 		if (!((struct ast_sel_exprval_node*)tmp_entry)->value_type.is_name) {
 
 			if (is_field) {
-				if (!cmp_fieldname_to_value(table, row, &cmp_node, field,
-								(struct ast_sel_exprval_node*)tmp_entry))
-					return false; // fail-fast
+				match = cmp_fieldname_to_value(table, row, &cmp_node, field,
+								(struct ast_sel_exprval_node*)tmp_entry);
 			} else {
-				if (!cmp_field_to_value(table, row, &cmp_node, value,
-							(struct ast_sel_exprval_node*)tmp_entry))
-					return false; // fail-fast
+				match = cmp_field_to_value(table, row, &cmp_node, value,
+								(struct ast_sel_exprval_node*)tmp_entry);
 			}
+
+			/* IN: one equal value is enough - NOT IN: all values have to be different */
+			if (match != node->is_negation)
+				return match; // fail-fast
 		}
 	}
-	return true;
+	return node->is_negation;
 }
 
 static bool eval_row_cond(struct ast_node *node, struct table *table, struct row *row)
-- 
2.43.0


From fc182b85aa90594d35d687785605c78768d04878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:45 +0000
Subject: [PATCH 04/55] fix: DELETE/UPDATE: x NOT IN (a, b) requires every
 value to differ

---
 src/engine/executor_delete.c | 7 ++++---
 src/engine/executor_update.c | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/engine/executor_delete.c b/src/engine/executor_delete.c
index 505e79b..bae6da4 100644
--- a/src/engine/executor_delete.c
+++ b/src/engine/executor_delete.c
@@ -351,11 +351,12 @@ static bool eval_isxin(struct table *table, struct row *row, struct ast_del_isxi
 		tmp_entry = list_entry(pos, typeof(*tmp_entry), head);
 
 		if (!tmp_entry->value_type.is_name) {
-			if (cmp_field_to_value(table, row, &cmp_node, field, tmp_entry))
-				return true;
+			/* IN: one equal value is enough - NOT IN: all values have to be different */
+			if (cmp_field_to_value(table, row, &cmp_node, field, tmp_entry) != node->is_negation)
+				return !node->is_negation;
 		}
 	}
-	return false;
+	return node->is_negation;
 }
 
 static bool eval_delete_row(struct table *table, struct row *row, struct ast_node *node)
diff --git a/src/engine/executor_update.c b/src/engine/executor_update.c
index 1844ec6..3b78561 100644
--- a/src/engine/executor_update.c
+++ b/src/engine/executor_update.c
@@ -330,11 +330,12 @@ static bool eval_isxin(struct table *table, struct row *row, struct ast_upd_isxi
 		tmp_entry = list_entry(pos, typeof(*tmp_entry), head);
 
 		if (!tmp_entry->value_type.is_name) {
-			if (cmp_field_to_value(table, row, &cmp_node, field, tmp_entry))
-				return true;
+			/* IN: one equal value is enough - NOT IN: all values have to be different */
+			if (cmp_field_to_value(table, row, &cmp_node, field, tmp_entry) != node->is_negation)
+				return !node->is_negation;
 		}
 	}
-	return false;
+	return node->is_negation;
 }
 
 static bool should_update_row(struct table *table, struct row *row, struct ast_node *node)
-- 
2.43.0


From 6dbf69b71b847c8a3f48563d4b3d5a25f375ba5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:10 +0000
Subject: [PATCH 05/55] fix: mirror the operator of comparisons such as 2 < x

The literal-to-field case swapped the operands but kept the operator.
---
 src/engine/executor_delete.c | 24 ++++++++++++++++++++++--
 src/engine/executor_select.c | 24 ++++++++++++++++++++++--
 src/engine/executor_update.c | 24 ++++++++++++++++++++++--
 3 files changed, 66 insertions(+), 6 deletions(-)

diff --git a/src/engine/executor_delete.c b/src/engine/executor_delete.c
index bae6da4..087ccad 100644
--- a/src/engine/executor_delete.c
+++ b/src/engine/executor_delete.c
@@ -264,8 +264,26 @@ static bool cmp_value_to_value(struct ast_del_cmp_node *node, struct ast_del_exp
 
 }
 
+/* operator to be used when the operands of a comparison are swapped */
+static enum ast_comparison_type mirror_cmp_type(enum ast_comparison_type cmp_type)
+{
+	switch (cmp_type) {
+	case AST_CMP_GTE_OP:
+		return AST_CMP_LTE_OP;
+	case AST_CMP_GT_OP:
+		return AST_CMP_LT_OP;
+	case AST_CMP_LTE_OP:
+		return AST_CMP_GTE_OP;
+	case AST_CMP_LT_OP:
+		return AST_CMP_GT_OP;
+	default:
+		return cmp_type;
+	}
+}
+
 static bool eval_cmp(struct table *table, struct row *row, struct ast_del_cmp_node *node)
 {
+	struct ast_del_cmp_node mirrored_node;
 	struct list_head *pos;
 	struct ast_node *tmp_node;
 	struct ast_del_exprval_node *val_1 = NULL, *val_2 = NULL;
@@ -287,8 +305,10 @@ static bool eval_cmp(struct table *table, struct row *row, struct ast_del_cmp_no
 		/* field-to-value or value-to-field comparison */
 		return cmp_field_to_value(table, row, node, val_1, val_2);
 	} else if (!val_1->value_type.is_name && val_2->value_type.is_name) {
-		/* value-to-field or value-to-field comparison */
-		return cmp_field_to_value(table, row, node, val_2, val_1);
+		/* value-to-field comparison */
+		mirrored_node = *node;
+		mirrored_node.cmp_type = mirror_cmp_type(node->cmp_type);
+		return cmp_field_to_value(table, row, &mirrored_node, val_2, val_1);
 	} else {
 		/* value-to-value comparison */
 		return cmp_value_to_value(node, val_1, val_2);
diff --git a/src/engine/executor_select.c b/src/engine/executor_select.c
index a34171e..2e5b0cf 100644
--- a/src/engine/executor_select.c
+++ b/src/engine/executor_select.c
@@ -862,8 +862,26 @@ static bool cmp_value_to_fieldname(struct table *table, struct row *row, struct
 
 }
 
+/* operator to be used when the operands of a comparison are swapped */
+static enum ast_comparison_type mirror_cmp_type(enum ast_comparison_type cmp_type)
+{
+	switch (cmp_type) {
+	case AST_CMP_GTE_OP:
+		return AST_CMP_LTE_OP;
+	case AST_CMP_GT_OP:
+		return AST_CMP_LT_OP;
+	case AST_CMP_LTE_OP:
+		return AST_CMP_GTE_OP;
+	case AST_CMP_LT_OP:
+		return AST_CMP_GT_OP;
+	default:
+		return cmp_type;
+	}
+}
+
 static bool eval_cmp(struct table *table, struct row *row, struct ast_sel_cmp_node *node)
 {
+	struct ast_sel_cmp_node mirrored_node;
 	struct list_head *pos;
 	struct ast_node *tmp_node;
 	struct ast_node *node_1 = NULL, *node_2 = NULL;
@@ -891,8 +909,10 @@ static bool eval_cmp(struct table *table, struct row *row, struct ast_sel_cmp_no
 			/* field-to-value or value-to-field comparison */
 			return cmp_field_to_value(table, row, node, val_1, val_2);
 		} else if (!val_1->value_type.is_name && val_2->value_type.is_name) {
-			/* value-to-field or value-to-field comparison */
-			return cmp_field_to_value(table, row, node, val_2, val_1);
+			/* value-to-field comparison */
+			mirrored_node = *node;
+			mirrored_node.cmp_type = mirror_cmp_type(node->cmp_type);
+			return cmp_field_to_value(table, row, &mirrored_node, val_2, val_1);
 		} else {
 			/* value-to-value comparison */
 			return cmp_value_to_value(node, val_1, val_2);
diff --git a/src/engine/executor_update.c b/src/engine/executor_update.c
index 3b78561..936e29d 100644
--- a/src/engine/executor_update.c
+++ b/src/engine/executor_update.c
@@ -243,8 +243,26 @@ static bool cmp_value_to_value(struct ast_upd_cmp_node *node, struct ast_upd_exp
 
 }
 
+/* operator to be used when the operands of a comparison are swapped */
+static enum ast_comparison_type mirror_cmp_type(enum ast_comparison_type cmp_type)
+{
+	switch (cmp_type) {
+	case AST_CMP_GTE_OP:
+		return AST_CMP_LTE_OP;
+	case AST_CMP_GT_OP:
+		return AST_CMP_LT_OP;
+	case AST_CMP_LTE_OP:
+		return AST_CMP_GTE_OP;
+	case AST_CMP_LT_OP:
+		return AST_CMP_GT_OP;
+	default:
+		return cmp_type;
+	}
+}
+
 static bool eval_cmp(struct table *table, struct row *row, struct ast_upd_cmp_node *node)
 {
+	struct ast_upd_cmp_node mirrored_node;
 	struct list_head *pos;
 	struct ast_node *tmp_node;
 	struct ast_upd_exprval_node *val_1 = NULL, *val_2 = NULL;
@@ -266,8 +284,10 @@ static bool eval_cmp(struct table *table, struct row *row, struct ast_upd_cmp_no
 		/* field-to-value or value-to-field comparison */
 		return cmp_field_to_value(table, row, node, val_1, val_2);
 	} else if (!val_1->value_type.is_name && val_2->value_type.is_name) {
-		/* value-to-field or value-to-field comparison */
-		return cmp_field_to_value(table, row, node, val_2, val_1);
+		/* value-to-field comparison */
+		mirrored_node = *node;
+		mirrored_node.cmp_type = mirror_cmp_type(node->cmp_type);
+		return cmp_field_to_value(table, row, &mirrored_node, val_2, val_1);
 	} else {
 		/* value-to-value comparison */
 		return cmp_value_to_value(node, val_1, val_2);
-- 
2.43.0


From 67d6ea13097d592b4cc3c2857e90b474f2c084e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:13 +0000
Subject: [PATCH 06/55] fix: resolve both operands when a column is compared to
 itself

---
 src/engine/executor_delete.c | 4 +++-
 src/engine/executor_select.c | 4 +++-
 src/engine/executor_update.c | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/engine/executor_delete.c b/src/engine/executor_delete.c
index 087ccad..eec7c73 100644
--- a/src/engine/executor_delete.c
+++ b/src/engine/executor_delete.c
@@ -137,7 +137,9 @@ static bool cmp_field_to_field(struct table *table, struct row *row, struct ast_
 			type = col->type;
 			offset_1 = tmp_offset;
 			col_idx_1 = i;
-		} else if (strcmp(col->name, val_2->name_val) == 0) {
+		}
+
+		if (strcmp(col->name, val_2->name_val) == 0) {
 			offset_2 = tmp_offset;
 			col_idx_2 = i;
 		}
diff --git a/src/engine/executor_select.c b/src/engine/executor_select.c
index 2e5b0cf..06e9fd0 100644
--- a/src/engine/executor_select.c
+++ b/src/engine/executor_select.c
@@ -543,7 +543,9 @@ static bool cmp_field_to_field(struct table *table, struct row *row, struct ast_
 			type = col->type;
 			offset_1 = tmp_offset;
 			col_idx_1 = i;
-		} else if (strcmp(col->name, val_2->name_val) == 0) {
+		}
+
+		if (strcmp(col->name, val_2->name_val) == 0) {
 			offset_2 = tmp_offset;
 			col_idx_2 = i;
 		}
diff --git a/src/engine/executor_update.c b/src/engine/executor_update.c
index 936e29d..17b6a49 100644
--- a/src/engine/executor_update.c
+++ b/src/engine/executor_update.c
@@ -137,7 +137,9 @@ static bool cmp_field_to_field(struct table *table, struct row *row, struct ast_
 			type = col->type;
 			offset_1 = tmp_offset;
 			col_idx_1 = i;
-		} else if (strcmp(col->name, val_2->name_val) == 0) {
+		}
+
+		if (strcmp(col->name, val_2->name_val) == 0) {
 			offset_2 = tmp_offset;
 			col_idx_2 = i;
 		}
-- 
2.43.0


From 660600c4576891c723730af33fd872adbf0e028d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:16 +0000
Subject: [PATCH 07/55] fix: a literal compared to a NULL literal is never true

---
 src/engine/executor_delete.c | 8 ++++----
 src/engine/executor_select.c | 8 ++++----
 src/engine/executor_update.c | 8 ++++----
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/engine/executor_delete.c b/src/engine/executor_delete.c
index eec7c73..a002e2a 100644
--- a/src/engine/executor_delete.c
+++ b/src/engine/executor_delete.c
@@ -247,15 +247,15 @@ static bool cmp_field_to_value(struct table *table, struct row *row, struct ast_
 
 static bool cmp_value_to_value(struct ast_del_cmp_node *node, struct ast_del_exprval_node *val_1, struct ast_del_exprval_node *val_2)
 {
-	if (val_1->value_type.is_approxnum) {
+	if (val_1->value_type.is_null || val_2->value_type.is_null) {
+		/* no comparison evaluates to true if NULL is one of the operands */
+		return false;
+	} else if (val_1->value_type.is_approxnum) {
 		return cmp_double_value_to_value(node->cmp_type, val_1->double_val, val_2->double_val);
 	} else if (val_1->value_type.is_bool) {
 		return cmp_bool_value_to_value(node->cmp_type, val_1->bool_val, val_2->bool_val);
 	} else if (val_1->value_type.is_intnum) {
 		return cmp_int_value_to_value(node->cmp_type, val_1->int_val, val_2->int_val);
-	} else if (val_1->value_type.is_null) {
-		/* no comparison evaluates to true if NULL is one of the operands */
-		return false;
 	} else if (val_1->value_type.is_str) {
 		return cmp_str_value_to_value(node->cmp_type, val_1->str_val, val_2->str_val);
 	} else {
diff --git a/src/engine/executor_select.c b/src/engine/executor_select.c
index 06e9fd0..da5eaec 100644
--- a/src/engine/executor_select.c
+++ b/src/engine/executor_select.c
@@ -653,15 +653,15 @@ static bool cmp_field_to_value(struct table *table, struct row *row, struct ast_
 
 static bool cmp_value_to_value(struct ast_sel_cmp_node *node, struct ast_sel_exprval_node *val_1, struct ast_sel_exprval_node *val_2)
 {
-	if (val_1->value_type.is_approxnum) {
+	if (val_1->value_type.is_null || val_2->value_type.is_null) {
+		/* no comparison evaluates to true if NULL is one of the operands */
+		return false;
+	} else if (val_1->value_type.is_approxnum) {
 		return cmp_double_value_to_value(node->cmp_type, val_1->double_val, val_2->double_val);
 	} else if (val_1->value_type.is_bool) {
 		return cmp_bool_value_to_value(node->cmp_type, val_1->bool_val, val_2->bool_val);
 	} else if (val_1->value_type.is_intnum) {
 		return cmp_int_value_to_value(node->cmp_type, val_1->int_val, val_2->int_val);
-	} else if (val_1->value_type.is_null) {
-		/* no comparison evaluates to true if NULL is one of the operands */
-		return false;
 	} else if (val_1->value_type.is_str) {
 		return cmp_str_value_to_value(node->cmp_type, val_1->str_val, val_2->str_val);
 	} else {
diff --git a/src/engine/executor_update.c b/src/engine/executor_update.c
index 17b6a49..d8d3097 100644
--- a/src/engine/executor_update.c
+++ b/src/engine/executor_update.c
@@ -226,15 +226,15 @@ static bool cmp_field_to_value(struct table *table, struct row *row, struct ast_
 
 static bool cmp_value_to_value(struct ast_upd_cmp_node *node, struct ast_upd_exprval_node *val_1, struct ast_upd_exprval_node *val_2)
 {
-	if (val_1->value_type.is_approxnum) {
+	if (val_1->value_type.is_null || val_2->value_type.is_null) {
+		/* no comparison evaluates to true if NULL is one of the operands */
+		return false;
+	} else if (val_1->value_type.is_approxnum) {
 		return cmp_double_value_to_value(node->cmp_type, val_1->double_val, val_2->double_val);
 	} else if (val_1->value_type.is_bool) {
 		return cmp_bool_value_to_value(node->cmp_type, val_1->bool_val, val_2->bool_val);
 	} else if (val_1->value_type.is_intnum) {
 		return cmp_int_value_to_value(node->cmp_type, val_1->int_val, val_2->int_val);
-	} else if (val_1->value_type.is_null) {
-		/* no comparison evaluates to true if NULL is one of the operands */
-		return false;
 	} else if (val_1->value_type.is_str) {
 		return cmp_str_value_to_value(node->cmp_type, val_1->str_val, val_2->str_val);
 	} else {
-- 
2.43.0


From 1c60a89a4767c1598989553b42ec5f62956190b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:22 +0000
Subject: [PATCH 08/55] fix: SELECT: IS [NOT] NULL is a Boolean operand of
 AND/OR/XOR

---
 src/parser/semantic_select.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser/semantic_select.c b/src/parser/semantic_select.c
index cf97186..9d7d102 100644
--- a/src/parser/semantic_select.c
+++ b/src/parser/semantic_select.c
@@ -2403,6 +2403,9 @@ static struct sem_check_val_types __check_value_types(struct ast_node *node, str
 		return ret;
 	} else if (node->node_type == AST_TYPE_SEL_EXPRISXIN) {
 		return check_value_types_isxin((struct ast_sel_isxin_node*)node, ht, out_err, out_err_len);
+	} else if (node->node_type == AST_TYPE_SEL_EXPRISXNULL) {
+		ret.type = CT_TINYINT; // IS [NOT] NULL resolves into a Boolean value
+		return ret;
 	}
 
 	// recursion
-- 
2.43.0


From ee2cceaad622e9976727f9722dd4bf31e1a137df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:25 +0000
Subject: [PATCH 09/55] fix: SELECT: DATE and DATETIME columns can be compared
 to date literals

As in UPDATE, DELETE and IN-lists; the executor already supports it.
---
 src/parser/semantic_select.c | 37 ++++++++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/src/parser/semantic_select.c b/src/parser/semantic_select.c
index 9d7d102..e3f9910 100644
--- a/src/parser/semantic_select.c
+++ b/src/parser/semantic_select.c
@@ -2132,6 +2132,29 @@ struct sem_check_val_types {
 	enum COLUMN_TYPE type;
 };
 
+/* strings can be interpreted/parsed for other types such as DATE and DATETIME */
+static bool str_literal_to_date(struct ast_node *node, enum COLUMN_TYPE date_type, struct sem_check_val_types *types, char *out_err, size_t out_err_len)
+{
+	struct ast_sel_exprval_node *val_node = (typeof(val_node))node;
+
+	if (date_type != CT_DATE && date_type != CT_DATETIME)
+		return true;
+
+	if (node->node_type != AST_TYPE_SEL_EXPRVAL || !val_node->value_type.is_str)
+		return true;
+
+	if (!try_parse_date_type(val_node->str_val, date_type)) {
+		snprintf(out_err, out_err_len,
+				/* max str size would exceed buffer's size, so trim it */
+				"val: '%.256s' can't be parsed for DATE | DATETIME column\n",
+				val_node->str_val);
+		return false;
+	}
+
+	types->type = date_type;
+	return true;
+}
+
 static struct sem_check_val_types check_value_types_cmp(struct ast_sel_cmp_node *cmp_node, struct hashtable *ht, char *out_err, size_t out_err_len)
 {
 	struct sem_check_val_types ret = {0};
@@ -2140,6 +2163,7 @@ static struct sem_check_val_types check_value_types_cmp(struct ast_sel_cmp_node
 	int i = 0;
 
 	struct ast_node *tmp_entry = NULL;
+	struct ast_node *left_node = NULL, *right_node = NULL;
 	struct list_head *pos;
 
 	/* sanity check */
@@ -2150,13 +2174,20 @@ static struct sem_check_val_types check_value_types_cmp(struct ast_sel_cmp_node
 		tmp_entry = list_entry(pos, typeof(*tmp_entry), head);
 
 		if (i == 0) {
+			left_node = tmp_entry;
 			left = __check_value_types(tmp_entry, ht, out_err, out_err_len);
 		} else {
+			right_node = tmp_entry;
 			right = __check_value_types(tmp_entry, ht, out_err, out_err_len);
 		}
 		i++;
 	}
 
+	if (left.invalid || right.invalid) {
+		ret.invalid = true;
+		return ret;
+	}
+
 	// NULL has a special set of rules
 	if (left.null || right.null) {
 		if (cmp_node->cmp_type != AST_CMP_EQUALS_OP && cmp_node->cmp_type != AST_CMP_DIFF_OP) {
@@ -2168,6 +2199,12 @@ static struct sem_check_val_types check_value_types_cmp(struct ast_sel_cmp_node
 		return ret;
 	}
 
+	if (!str_literal_to_date(right_node, left.type, &right, out_err, out_err_len)
+			|| !str_literal_to_date(left_node, right.type, &left, out_err, out_err_len)) {
+		ret.invalid = true;
+		return ret;
+	}
+
 	// VARCHAR has a special set of rules
 	if (left.type == CT_VARCHAR || right.type == CT_VARCHAR) {
 		if (cmp_node->cmp_type != AST_CMP_EQUALS_OP && cmp_node->cmp_type != AST_CMP_DIFF_OP) {
-- 
2.43.0


From 1cac5360a8898be445df206bb6c74de3e631c121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:27 +0000
Subject: [PATCH 10/55] fix: SELECT: NULL in an IN-list is valid, as in UPDATE
 and DELETE

---
 src/parser/semantic_select.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/semantic_select.c b/src/parser/semantic_select.c
index e3f9910..a218086 100644
--- a/src/parser/semantic_select.c
+++ b/src/parser/semantic_select.c
@@ -2378,7 +2378,7 @@ static struct sem_check_val_types check_value_types_isxin(struct ast_sel_isxin_n
 							val_node->bool_val);
 					goto err;
 				}
-			} else {
+			} else if (!val_node->value_type.is_null) {
 				/* maybe new column type? */
 				BUG_GENERIC();
 			}
-- 
2.43.0


From 98cc0657d273012fe447a40c9ec32fe762f0ac96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:30 +0000
Subject: [PATCH 11/55] fix: SELECT: report an error message for operands of
 different types

---
 src/parser/semantic_select.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/parser/semantic_select.c b/src/parser/semantic_select.c
index a218086..0e24c00 100644
--- a/src/parser/semantic_select.c
+++ b/src/parser/semantic_select.c
@@ -2214,6 +2214,8 @@ static struct sem_check_val_types check_value_types_cmp(struct ast_sel_cmp_node
 	}
 
 	if (memcmp(&left, &right, sizeof(left))) {
+		if (!ret.invalid)
+			snprintf(out_err, out_err_len, "compared values don't have the same type\n");
 		ret.invalid = true;
 	} else {
 		ret.type = CT_TINYINT; // CMP resolves into a Boolean value
@@ -2247,7 +2249,10 @@ static struct sem_check_val_types check_value_types_exprop(struct ast_sel_exprop
 		i++;
 	}
 
-	if (memcmp(&left, &right, sizeof(left))) {
+	if (left.invalid || right.invalid) {
+		ret.invalid = true;
+	} else if (memcmp(&left, &right, sizeof(left))) {
+		snprintf(out_err, out_err_len, "operands of an expression don't have the same type\n");
 		ret.invalid = true;
 	} else {
 		ret = left;
@@ -2280,7 +2285,10 @@ static struct sem_check_val_types check_value_types_logop(struct ast_sel_logop_n
 		i++;
 	}
 
-	if (memcmp(&left, &right, sizeof(left))) {
+	if (left.invalid || right.invalid) {
+		ret.invalid = true;
+	} else if (memcmp(&left, &right, sizeof(left))) {
+		snprintf(out_err, out_err_len, "operands of AND, OR and XOR don't have the same type\n");
 		ret.invalid = true;
 	} else {
 		ret.type = CT_TINYINT; // LOGOP resolves into a Boolean value
-- 
2.43.0


From 97674f48277a383f237720da85c678db3ee4df9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:57 +0000
Subject: [PATCH 12/55] fix: do not free the match stack twice when a token
 cannot be parsed

---
 src/lib/regex.c         | 6 ++++--
 src/parser/ast_create.c | 3 +--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/lib/regex.c b/src/lib/regex.c
index 9228981..6843123 100644
--- a/src/lib/regex.c
+++ b/src/lib/regex.c
@@ -19,8 +19,10 @@ bool regex_ext_match_grp(const char *text, const char *exp, struct stack *out)
 	num_matches = regex.re_nsub + 1;
 
 	matches = calloc(num_matches, sizeof(*matches));
-	if (!matches)
+	if (!matches) {
+		regfree(&regex);
 		goto err;
+	}
 
 	if (regexec(&regex, text, num_matches, matches, 0))
 		goto err_regex;
@@ -54,7 +56,7 @@ bool regex_ext_match_grp(const char *text, const char *exp, struct stack *out)
 err_stack:
 	free(match);
 err_regex:
-	stack_free(out);
+	/* out belongs to the caller, who frees it on errors too */
 	regfree(&regex);
 	free(matches);
 err:
diff --git a/src/parser/ast_create.c b/src/parser/ast_create.c
index 8683f9f..88e5593 100644
--- a/src/parser/ast_create.c
+++ b/src/parser/ast_create.c
@@ -108,8 +108,7 @@ static struct ast_crt_column_def_node* __must_check build_columndef_node(struct
 err_regex:
 	stack_free(&tmp_st);
 err_stack_init:
-	if (!str)
-		free(str);
+	free(str);
 	free(node->node_children_head);
 err_head:
 	free(node);
-- 
2.43.0


From 27706069149aaa2598dc0fd7002df8a4ed49fbd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:00 +0000
Subject: [PATCH 13/55] fix: accept empty and double-quoted string literals

---
 src/parser/ast_delete.c | 2 +-
 src/parser/ast_insert.c | 2 +-
 src/parser/ast_select.c | 2 +-
 src/parser/ast_update.c | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/parser/ast_delete.c b/src/parser/ast_delete.c
index 0815743..da2ffbd 100644
--- a/src/parser/ast_delete.c
+++ b/src/parser/ast_delete.c
@@ -138,7 +138,7 @@ static struct ast_del_exprval_node* build_expr_val_node(struct queue *parser, en
 		reg_exp = "NUMBER (-{0,1}[0-9]+)";
 	} else if (type == AST_DEL_EXPR_VAL_STRING) {
 		node->value_type.is_str = true;
-		reg_exp = "STRING '(.+)'";
+		reg_exp = "STRING ['\"](.*)['\"]";
 	} else if (type == AST_DEL_EXPR_VAL_APPROXNUM) {
 		node->value_type.is_approxnum = true;
 		reg_exp = "FLOAT (-{0,1}[0-9\\.]+)";
diff --git a/src/parser/ast_insert.c b/src/parser/ast_insert.c
index a030ca7..a7a496b 100644
--- a/src/parser/ast_insert.c
+++ b/src/parser/ast_insert.c
@@ -134,7 +134,7 @@ static struct ast_ins_exprval_node* build_expr_val_node(struct queue *parser, en
 		reg_exp = "NUMBER (-{0,1}[0-9]+)";
 	} else if (type == AST_INS_EXPR_VAL_STRING) {
 		node->value_type.is_str = true;
-		reg_exp = "STRING '(.+)'";
+		reg_exp = "STRING ['\"](.*)['\"]";
 	} else if (type == AST_INS_EXPR_VAL_APPROXNUM) {
 		node->value_type.is_approxnum = true;
 		reg_exp = "FLOAT (-{0,1}[0-9\\.]+)";
diff --git a/src/parser/ast_select.c b/src/parser/ast_select.c
index f82c01c..76f0681 100644
--- a/src/parser/ast_select.c
+++ b/src/parser/ast_select.c
@@ -41,7 +41,7 @@ static struct ast_sel_exprval_node* build_expr_val_node(struct queue *parser, en
 		reg_exp = "NUMBER (-{0,1}[0-9]+)";
 	} else if (type == AST_SEL_EXPR_VAL_STRING) {
 		node->value_type.is_str = true;
-		reg_exp = "STRING '(.+)'";
+		reg_exp = "STRING ['\"](.*)['\"]";
 	} else if (type == AST_SEL_EXPR_VAL_APPROXNUM) {
 		node->value_type.is_approxnum = true;
 		reg_exp = "FLOAT (-{0,1}[0-9\\.]+)";
diff --git a/src/parser/ast_update.c b/src/parser/ast_update.c
index 88f441b..64f7567 100644
--- a/src/parser/ast_update.c
+++ b/src/parser/ast_update.c
@@ -189,7 +189,7 @@ static struct ast_upd_exprval_node* build_expr_val_node(struct queue *parser, en
 		reg_exp = "NUMBER (-{0,1}[0-9]+)";
 	} else if (type == AST_UPD_EXPR_VAL_STRING) {
 		node->value_type.is_str = true;
-		reg_exp = "STRING '(.+)'";
+		reg_exp = "STRING ['\"](.*)['\"]";
 	} else if (type == AST_UPD_EXPR_VAL_APPROXNUM) {
 		node->value_type.is_approxnum = true;
 		reg_exp = "FLOAT (-{0,1}[0-9\\.]+)";
-- 
2.43.0


From 3fd9b6f64feb22fa464d3815cb8da556b565d454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:45 +0000
Subject: [PATCH 14/55] fix: INTEGER literals, expressions and comparisons are
 64 bits wide

Values were cut to 32 bits by the lexer, the AST, the expression evaluator
and the comparisons although columns store 64 bits. Literals that do not fit
in 64 bits are rejected.
---
 src/engine/executor_delete.c  |  2 +-
 src/engine/executor_select.c  |  2 +-
 src/engine/executor_update.c  |  2 +-
 src/engine/optimiser_insert.c |  2 +-
 src/parser/ast_delete.c       |  2 +-
 src/parser/ast_insert.c       |  2 +-
 src/parser/ast_select.c       |  2 +-
 src/parser/ast_update.c       |  2 +-
 src/parser/midorisql.l        |  5 ++++-
 src/parser/midorisql.y        | 13 +++++++------
 10 files changed, 19 insertions(+), 15 deletions(-)

diff --git a/src/engine/executor_delete.c b/src/engine/executor_delete.c
index a002e2a..8a51aac 100644
--- a/src/engine/executor_delete.c
+++ b/src/engine/executor_delete.c
@@ -54,7 +54,7 @@ static bool cmp_double_value_to_value(enum ast_comparison_type cmp_type, double
 	}
 }
 
-static bool cmp_int_value_to_value(enum ast_comparison_type cmp_type, int val_1, int val_2)
+static bool cmp_int_value_to_value(enum ast_comparison_type cmp_type, int64_t val_1, int64_t val_2)
 {
 	switch (cmp_type) {
 	case AST_CMP_DIFF_OP:
diff --git a/src/engine/executor_select.c b/src/engine/executor_select.c
index da5eaec..e62c3b4 100644
--- a/src/engine/executor_select.c
+++ b/src/engine/executor_select.c
@@ -459,7 +459,7 @@ static bool cmp_double_value_to_value(enum ast_comparison_type cmp_type, double
 	}
 }
 
-static bool cmp_int_value_to_value(enum ast_comparison_type cmp_type, int val_1, int val_2)
+static bool cmp_int_value_to_value(enum ast_comparison_type cmp_type, int64_t val_1, int64_t val_2)
 {
 	switch (cmp_type) {
 	case AST_CMP_DIFF_OP:
diff --git a/src/engine/executor_update.c b/src/engine/executor_update.c
index d8d3097..8615f94 100644
--- a/src/engine/executor_update.c
+++ b/src/engine/executor_update.c
@@ -54,7 +54,7 @@ static bool cmp_double_value_to_value(enum ast_comparison_type cmp_type, double
 	}
 }
 
-static bool cmp_int_value_to_value(enum ast_comparison_type cmp_type, int val_1, int val_2)
+static bool cmp_int_value_to_value(enum ast_comparison_type cmp_type, int64_t val_1, int64_t val_2)
 {
 	switch (cmp_type) {
 	case AST_CMP_DIFF_OP:
diff --git a/src/engine/optimiser_insert.c b/src/engine/optimiser_insert.c
index 3148d1d..ea2ce2f 100644
--- a/src/engine/optimiser_insert.c
+++ b/src/engine/optimiser_insert.c
@@ -60,7 +60,7 @@ static void calcd(struct ast_ins_exprop_node *op, struct ast_ins_exprval_node *v
 static void calci(struct ast_ins_exprop_node *op, struct ast_ins_exprval_node *val_1,
 		struct ast_ins_exprval_node *val_2, struct ast_ins_exprval_node *out)
 {
-	int result = 0;
+	int64_t result = 0;
 
 	if (val_1->value_type.is_null || val_2->value_type.is_null) {
 		/* if any term _became_ NULL, then we bubble that up */
diff --git a/src/parser/ast_delete.c b/src/parser/ast_delete.c
index da2ffbd..e149193 100644
--- a/src/parser/ast_delete.c
+++ b/src/parser/ast_delete.c
@@ -169,7 +169,7 @@ static struct ast_del_exprval_node* build_expr_val_node(struct queue *parser, en
 
 		ext_val = (char*)stack_peek_pos(&reg_pars, 0);
 		if (type == AST_DEL_EXPR_VAL_INTNUM) {
-			node->int_val = atoi(ext_val);
+			node->int_val = strtoll(ext_val, NULL, 10);
 		} else if (type == AST_DEL_EXPR_VAL_STRING) {
 			strncpy(node->str_val, ext_val, sizeof(node->str_val) - 1);
 		} else if (type == AST_DEL_EXPR_VAL_NAME) {
diff --git a/src/parser/ast_insert.c b/src/parser/ast_insert.c
index a7a496b..a154dae 100644
--- a/src/parser/ast_insert.c
+++ b/src/parser/ast_insert.c
@@ -162,7 +162,7 @@ static struct ast_ins_exprval_node* build_expr_val_node(struct queue *parser, en
 
 		ext_val = (char*)stack_peek_pos(&reg_pars, 0);
 		if (type == AST_INS_EXPR_VAL_INTNUM) {
-			node->int_val = atoi(ext_val);
+			node->int_val = strtoll(ext_val, NULL, 10);
 		} else if (type == AST_INS_EXPR_VAL_STRING) {
 			strncpy(node->str_val, ext_val, sizeof(node->str_val) - 1);
 		} else if (type == AST_INS_EXPR_VAL_APPROXNUM) {
diff --git a/src/parser/ast_select.c b/src/parser/ast_select.c
index 76f0681..a3a99e4 100644
--- a/src/parser/ast_select.c
+++ b/src/parser/ast_select.c
@@ -72,7 +72,7 @@ static struct ast_sel_exprval_node* build_expr_val_node(struct queue *parser, en
 
 		ext_val = (char*)stack_peek_pos(&reg_pars, 0);
 		if (type == AST_SEL_EXPR_VAL_INTNUM) {
-			node->int_val = atoi(ext_val);
+			node->int_val = strtoll(ext_val, NULL, 10);
 		} else if (type == AST_SEL_EXPR_VAL_STRING) {
 			strncpy(node->str_val, ext_val, sizeof(node->str_val) - 1);
 		} else if (type == AST_SEL_EXPR_VAL_NAME) {
diff --git a/src/parser/ast_update.c b/src/parser/ast_update.c
index 64f7567..d9b5fc8 100644
--- a/src/parser/ast_update.c
+++ b/src/parser/ast_update.c
@@ -220,7 +220,7 @@ static struct ast_upd_exprval_node* build_expr_val_node(struct queue *parser, en
 
 		ext_val = (char*)stack_peek_pos(&reg_pars, 0);
 		if (type == AST_UPD_EXPR_VAL_INTNUM) {
-			node->int_val = atoi(ext_val);
+			node->int_val = strtoll(ext_val, NULL, 10);
 		} else if (type == AST_UPD_EXPR_VAL_STRING) {
 			strncpy(node->str_val, ext_val, sizeof(node->str_val) - 1);
 		} else if (type == AST_UPD_EXPR_VAL_NAME) {
diff --git a/src/parser/midorisql.l b/src/parser/midorisql.l
index dbb8e1d..5ee6242 100644
--- a/src/parser/midorisql.l
+++ b/src/parser/midorisql.l
@@ -2,6 +2,7 @@
 
 %{
 #include "midorisql.tab.h"
+#include <errno.h>
 void yyerror(void*, void*, char *s, ...);
 int oldstate;
 
@@ -82,7 +83,9 @@ XOR	{ return XOR; }
 
    /* numbers */
 
--?[0-9]+	        { yylval->intval = atoi(yytext); return INTNUM; } 
+-?[0-9]+	        { errno = 0;
+                          yylval->longval = strtoll(yytext, NULL, 10);
+                          return errno ? YYUNDEF : INTNUM; }
 
 -?[0-9]+"."[0-9]* |
 -?"."[0-9]+	|
diff --git a/src/parser/midorisql.y b/src/parser/midorisql.y
index 2b2dbd8..8109c27 100644
--- a/src/parser/midorisql.y
+++ b/src/parser/midorisql.y
@@ -31,6 +31,7 @@ int yylex(void*, void*);
 
 %union {
 	int intval;
+	long long longval;
 	double floatval;
 	char *strval;
 	int subtok;
@@ -40,7 +41,7 @@ int yylex(void*, void*);
 
 %token <strval> NAME
 %token <strval> STRING
-%token <intval> INTNUM
+%token <longval> INTNUM
 %token <intval> BOOL
 %token <floatval> APPROXNUM
 
@@ -250,7 +251,7 @@ join_condition:
 expr: NAME          { emit(result, "NAME %s", $1); free($1); }
    | NAME '.' NAME { emit(result, "FIELDNAME %s.%s", $1, $3); free($1); free($3); }
    | STRING        { emit(result, "STRING %s", $1); free($1); }
-   | INTNUM        { emit(result, "NUMBER %d", $1); }
+   | INTNUM        { emit(result, "NUMBER %lld", $1); }
    | APPROXNUM     { emit(result, "FLOAT %g", $1); }
    | BOOL          { emit(result, "BOOL %d", $1); }
    | NULLX         { emit(result, "NULL"); }
@@ -317,7 +318,7 @@ del_opt_where: /* nil */
 
 delete_expr: NAME          { emit(result, "NAME %s", $1); free($1); }
 	   | STRING        { emit(result, "STRING %s", $1); free($1); }
-	   | INTNUM        { emit(result, "NUMBER %d", $1); }
+	   | INTNUM        { emit(result, "NUMBER %lld", $1); }
 	   | APPROXNUM     { emit(result, "FLOAT %g", $1); }
    	   | BOOL          { emit(result, "BOOL %d", $1); }
    	   | NULLX         { emit(result, "NULL"); }
@@ -374,7 +375,7 @@ insert_stmt: INSERT opt_into NAME opt_col_names
 
 insert_expr:
      STRING        { emit(result, "STRING %s", $1); free($1); }
-   | INTNUM        { emit(result, "NUMBER %d", $1); }
+   | INTNUM        { emit(result, "NUMBER %lld", $1); }
    | APPROXNUM     { emit(result, "FLOAT %g", $1); }
    | BOOL          { emit(result, "BOOL %d", $1); }
    | NULLX         { emit(result, "NULL"); }
@@ -413,7 +414,7 @@ update_opt_where: /* nil */ 	{ $$ = 0; }
 
 update_expr: NAME          { emit(result, "NAME %s", $1); free($1); }
 	   | STRING        { emit(result, "STRING %s", $1); free($1); }
-	   | INTNUM        { emit(result, "NUMBER %d", $1); }
+	   | INTNUM        { emit(result, "NUMBER %lld", $1); }
 	   | APPROXNUM     { emit(result, "FLOAT %g", $1); }
    	   | BOOL          { emit(result, "BOOL %d", $1); }
    	   | NULLX         { emit(result, "NULL"); }
@@ -479,7 +480,7 @@ data_type:
    | DOUBLE { $$ = 80000; }
    | DATE { $$ = 100000; }
    | DATETIME { $$ = 110000; }
-   | VARCHAR '(' INTNUM ')' { $$ = 130000 + $3; }
+   | VARCHAR '(' INTNUM ')' { $$ = 130000 + (int)$3; }
    ;
 
 
-- 
2.43.0


From 539fba6bc016befa2a220e19ed1911e44d55e574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:48 +0000
Subject: [PATCH 15/55] fix: reject VARCHAR lengths that cannot be represented

VARCHAR(10000) and above, or negative ones, were turned into other types.
---
 src/parser/midorisql.y | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/parser/midorisql.y b/src/parser/midorisql.y
index 8109c27..27f8f44 100644
--- a/src/parser/midorisql.y
+++ b/src/parser/midorisql.y
@@ -480,7 +480,13 @@ data_type:
    | DOUBLE { $$ = 80000; }
    | DATE { $$ = 100000; }
    | DATETIME { $$ = 110000; }
-   | VARCHAR '(' INTNUM ')' { $$ = 130000 + (int)$3; }
+   | VARCHAR '(' INTNUM ')' { 
+	/* precision has to fit in the encoding of the data type */
+	if ($3 < 1 || $3 > 9999) {
+		yyerror(result, scanner, "invalid VARCHAR length");
+		YYERROR;
+	}
+	$$ = 130000 + (int)$3; }
    ;
 
 
-- 
2.43.0


From 9f5b23397ea5adfdd2a5abcc90b7531d0cc4af9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:19 +0000
Subject: [PATCH 16/55] fix: keep all digits and the exponent of DOUBLE
 literals

%g printed 6 significant digits, and exponents were dropped when the token
was converted back.
---
 src/parser/ast_delete.c |  2 +-
 src/parser/ast_insert.c |  2 +-
 src/parser/ast_select.c |  2 +-
 src/parser/ast_update.c |  2 +-
 src/parser/midorisql.y  | 23 +++++++++++++++++++----
 5 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/parser/ast_delete.c b/src/parser/ast_delete.c
index e149193..3387e55 100644
--- a/src/parser/ast_delete.c
+++ b/src/parser/ast_delete.c
@@ -141,7 +141,7 @@ static struct ast_del_exprval_node* build_expr_val_node(struct queue *parser, en
 		reg_exp = "STRING ['\"](.*)['\"]";
 	} else if (type == AST_DEL_EXPR_VAL_APPROXNUM) {
 		node->value_type.is_approxnum = true;
-		reg_exp = "FLOAT (-{0,1}[0-9\\.]+)";
+		reg_exp = "FLOAT (-{0,1}[0-9\\.]+(e[-+][0-9]+){0,1})";
 	} else if (type == AST_DEL_EXPR_VAL_BOOL) {
 		node->value_type.is_bool = true;
 		reg_exp = "BOOL ([0-1])";
diff --git a/src/parser/ast_insert.c b/src/parser/ast_insert.c
index a154dae..89d636f 100644
--- a/src/parser/ast_insert.c
+++ b/src/parser/ast_insert.c
@@ -137,7 +137,7 @@ static struct ast_ins_exprval_node* build_expr_val_node(struct queue *parser, en
 		reg_exp = "STRING ['\"](.*)['\"]";
 	} else if (type == AST_INS_EXPR_VAL_APPROXNUM) {
 		node->value_type.is_approxnum = true;
-		reg_exp = "FLOAT (-{0,1}[0-9\\.]+)";
+		reg_exp = "FLOAT (-{0,1}[0-9\\.]+(e[-+][0-9]+){0,1})";
 	} else if (type == AST_INS_EXPR_VAL_BOOL) {
 		node->value_type.is_bool = true;
 		reg_exp = "BOOL ([0-1])";
diff --git a/src/parser/ast_select.c b/src/parser/ast_select.c
index a3a99e4..4014340 100644
--- a/src/parser/ast_select.c
+++ b/src/parser/ast_select.c
@@ -44,7 +44,7 @@ static struct ast_sel_exprval_node* build_expr_val_node(struct queue *parser, en
 		reg_exp = "STRING ['\"](.*)['\"]";
 	} else if (type == AST_SEL_EXPR_VAL_APPROXNUM) {
 		node->value_type.is_approxnum = true;
-		reg_exp = "FLOAT (-{0,1}[0-9\\.]+)";
+		reg_exp = "FLOAT (-{0,1}[0-9\\.]+(e[-+][0-9]+){0,1})";
 	} else if (type == AST_SEL_EXPR_VAL_BOOL) {
 		node->value_type.is_bool = true;
 		reg_exp = "BOOL ([0-1])";
diff --git a/src/parser/ast_update.c b/src/parser/ast_update.c
index d9b5fc8..0a48431 100644
--- a/src/parser/ast_update.c
+++ b/src/parser/ast_update.c
@@ -192,7 +192,7 @@ static struct ast_upd_exprval_node* build_expr_val_node(struct queue *parser, en
 		reg_exp = "STRING ['\"](.*)['\"]";
 	} else if (type == AST_UPD_EXPR_VAL_APPROXNUM) {
 		node->value_type.is_approxnum = true;
-		reg_exp = "FLOAT (-{0,1}[0-9\\.]+)";
+		reg_exp = "FLOAT (-{0,1}[0-9\\.]+(e[-+][0-9]+){0,1})";
 	} else if (type == AST_UPD_EXPR_VAL_BOOL) {
 		node->value_type.is_bool = true;
 		reg_exp = "BOOL ([0-1])";
diff --git a/src/parser/midorisql.y b/src/parser/midorisql.y
index 27f8f44..a140f28 100644
--- a/src/parser/midorisql.y
+++ b/src/parser/midorisql.y
@@ -9,6 +9,7 @@
 
 void yyerror(struct queue*, void*, const char *, ...);
 bool emit(struct queue *q, char *s, ...);
+bool emit_float(struct queue *q, double val);
 int yylex(void*, void*);
 %}
 
@@ -252,7 +253,7 @@ expr: NAME          { emit(result, "NAME %s", $1); free($1); }
    | NAME '.' NAME { emit(result, "FIELDNAME %s.%s", $1, $3); free($1); free($3); }
    | STRING        { emit(result, "STRING %s", $1); free($1); }
    | INTNUM        { emit(result, "NUMBER %lld", $1); }
-   | APPROXNUM     { emit(result, "FLOAT %g", $1); }
+   | APPROXNUM     { emit_float(result, $1); }
    | BOOL          { emit(result, "BOOL %d", $1); }
    | NULLX         { emit(result, "NULL"); }
    ;
@@ -319,7 +320,7 @@ del_opt_where: /* nil */
 delete_expr: NAME          { emit(result, "NAME %s", $1); free($1); }
 	   | STRING        { emit(result, "STRING %s", $1); free($1); }
 	   | INTNUM        { emit(result, "NUMBER %lld", $1); }
-	   | APPROXNUM     { emit(result, "FLOAT %g", $1); }
+	   | APPROXNUM     { emit_float(result, $1); }
    	   | BOOL          { emit(result, "BOOL %d", $1); }
    	   | NULLX         { emit(result, "NULL"); }
    	   ;
@@ -376,7 +377,7 @@ insert_stmt: INSERT opt_into NAME opt_col_names
 insert_expr:
      STRING        { emit(result, "STRING %s", $1); free($1); }
    | INTNUM        { emit(result, "NUMBER %lld", $1); }
-   | APPROXNUM     { emit(result, "FLOAT %g", $1); }
+   | APPROXNUM     { emit_float(result, $1); }
    | BOOL          { emit(result, "BOOL %d", $1); }
    | NULLX         { emit(result, "NULL"); }
    ;
@@ -415,7 +416,7 @@ update_opt_where: /* nil */ 	{ $$ = 0; }
 update_expr: NAME          { emit(result, "NAME %s", $1); free($1); }
 	   | STRING        { emit(result, "STRING %s", $1); free($1); }
 	   | INTNUM        { emit(result, "NUMBER %lld", $1); }
-	   | APPROXNUM     { emit(result, "FLOAT %g", $1); }
+	   | APPROXNUM     { emit_float(result, $1); }
    	   | BOOL          { emit(result, "BOOL %d", $1); }
    	   | NULLX         { emit(result, "NULL"); }
    	   ;
@@ -533,3 +534,17 @@ bool emit(struct queue *q, char *s, ...)
 
 	return queue_offer(q, buf, strlen(buf) + 1);
 }
+
+bool emit_float(struct queue *q, double val)
+{
+	char buf[64];
+
+	/* shortest representation that can be converted back into the very same value */
+	for (int precision = 6; precision <= 17; precision++) {
+		snprintf(buf, sizeof(buf), "%.*g", precision, val);
+		if (strtod(buf, NULL) == val)
+			break;
+	}
+
+	return emit(q, "FLOAT %s", buf);
+}
-- 
2.43.0


From 24e89e443038453fe6d93cad8dda8246b4a926bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:21 +0000
Subject: [PATCH 17/55] fix: do not cut string literals at 256 characters

---
 src/parser/midorisql.y | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/parser/midorisql.y b/src/parser/midorisql.y
index a140f28..a0d3055 100644
--- a/src/parser/midorisql.y
+++ b/src/parser/midorisql.y
@@ -524,15 +524,27 @@ void yyerror(struct queue *q, void* scanner, const char *s, ...)
 
 bool emit(struct queue *q, char *s, ...)
 {
-	char buf[256];
+	char *buf;
+	int len;
+	bool ret;
 	va_list ap;
-	
-	memzero(buf, sizeof(buf));
+
+	/* names and strings can be of any length */
 	va_start(ap, s);
-	vsnprintf(buf,sizeof(buf), s, ap);
+	len = vsnprintf(NULL, 0, s, ap);
 	va_end(ap);
 
-	return queue_offer(q, buf, strlen(buf) + 1);
+	if (len < 0 || !(buf = zalloc((size_t)len + 1)))
+		return false;
+
+	va_start(ap, s);
+	vsnprintf(buf, (size_t)len + 1, s, ap);
+	va_end(ap);
+
+	ret = queue_offer(q, buf, strlen(buf) + 1);
+	free(buf);
+
+	return ret;
 }
 
 bool emit_float(struct queue *q, double val)
-- 
2.43.0


From 808bfe017f0213875988a04c846bf589a2714d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:24 +0000
Subject: [PATCH 18/55] fix: report the actual syntax error message

yyerror passed a va_list to sprintf, and the message was looked up at the
head of the queue where the first parsed token is.
---
 src/engine/query.c     | 5 ++++-
 src/parser/midorisql.y | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/engine/query.c b/src/engine/query.c
index 72a51ba..32a8df5 100644
--- a/src/engine/query.c
+++ b/src/engine/query.c
@@ -53,8 +53,11 @@ struct query_output* query_execute(struct database *db, char *query)
 	/* syntax analysis */
 	if (syntax_parse(query, &queue)) {
 		/* copy error from the tail of the queue */
-		char *err_msg = (char*)queue_peek(&queue);
+		char *err_msg = "error while running syntax analysis on query\n";
 		size_t err_msg_len = sizeof(output->error.message) - 1;
+
+		if (!queue_empty(&queue))
+			err_msg = (char*)queue_peek_pos(&queue, queue_length(&queue) - 1);
 		strncpy(output->error.message, err_msg, err_msg_len);
 
 		goto err_syntax_parser;
diff --git a/src/parser/midorisql.y b/src/parser/midorisql.y
index a0d3055..1d7acb7 100644
--- a/src/parser/midorisql.y
+++ b/src/parser/midorisql.y
@@ -508,7 +508,7 @@ void yyerror(struct queue *q, void* scanner, const char *s, ...)
 		vfprintf(stderr, s, ap);  
 		fprintf(stderr, "\n");
 	}else {
-		sprintf(buf, s, ap);
+		vsnprintf(buf, sizeof(buf), s, ap);
 	
 		/* although unlikely, if we fail to push content to the queue
 		   so other program can read the error message, then we fail 
-- 
2.43.0


From c5262e62c36ac1bb9b0f04f85ab30d760f1ea460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:38 +0000
Subject: [PATCH 19/55] fix: reject statements with lexical errors

Unknown characters and unterminated strings, names and comments were printed
to stderr and then ignored, so that a different statement was executed (or
the lexer never returned).
---
 src/parser/midorisql.l | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/parser/midorisql.l b/src/parser/midorisql.l
index 5ee6242..1005366 100644
--- a/src/parser/midorisql.l
+++ b/src/parser/midorisql.l
@@ -103,8 +103,8 @@ FALSE	{ yylval->intval = 0; return BOOL; }
 '(\\.|''|[^'\n])*'	|
 \"(\\.|\"\"|[^"\n])*\"  { yylval->strval = strdup(yytext); return STRING; }
 
-'(\\.|[^'\n])*$	        { yyerror(NULL, yyscanner, "Unterminated string %s", yytext); }
-\"(\\.|[^"\n])*$	{ yyerror(NULL, yyscanner, "Unterminated string %s", yytext); }
+'(\\.|[^'\n])*$	        { yyerror(NULL, yyscanner, "Unterminated string %s", yytext); return YYUNDEF; }
+\"(\\.|[^"\n])*$	{ yyerror(NULL, yyscanner, "Unterminated string %s", yytext); return YYUNDEF; }
 
    /* hex strings */
 X'[0-9A-F]+' |  
@@ -150,7 +150,7 @@ COUNT    { int c = input(yyscanner); unput(c);
                           yylval->strval[yyleng-2] = 0;
                           return NAME; }
 
-`[^`\n]*$               { yyerror(NULL, yyscanner, "unterminated quoted name %s", yytext); }
+`[^`\n]*$               { yyerror(NULL, yyscanner, "unterminated quoted name %s", yytext); return YYUNDEF; }
 
 
 	/* comments */   
@@ -160,10 +160,10 @@ COUNT    { int c = input(yyscanner); unput(c);
 "/*"            { oldstate = YY_START; BEGIN COMMENT; }
 <COMMENT>"*/"   { BEGIN oldstate; }
 <COMMENT>.|\n   ;
-<COMMENT><<EOF>> { yyerror(NULL, yyscanner, "unclosed comment"); }
+<COMMENT><<EOF>> { yyerror(NULL, yyscanner, "unclosed comment"); return YYUNDEF; }
 
 	/* everything else */
 [ \t\n]         /* white space */
-.               { yyerror(NULL, yyscanner, "mystery character '%c'", *yytext); }
+.               { yyerror(NULL, yyscanner, "mystery character '%c'", *yytext); return YYUNDEF; }
 
 %%
-- 
2.43.0


From d37f1048e4eab25108bebb0d4d11ce6bc95d3c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:05 +0000
Subject: [PATCH 20/55] fix: DELETE/UPDATE: reject conditions that cannot be
 evaluated instead of aborting

---
 src/parser/semantic_delete.c | 63 ++++++++++++++++++++++++++++++++++
 src/parser/semantic_update.c | 66 ++++++++++++++++++++++++++++++++++++
 2 files changed, 129 insertions(+)

diff --git a/src/parser/semantic_delete.c b/src/parser/semantic_delete.c
index 2af106c..129e495 100644
--- a/src/parser/semantic_delete.c
+++ b/src/parser/semantic_delete.c
@@ -165,6 +165,65 @@ static bool check_isxnull_entries(struct ast_node *root, char *out_err, size_t o
 	return true;
 }
 
+static bool check_expr_shape(struct ast_node *node, char *out_err, size_t out_err_len)
+{
+	struct list_head *pos;
+	struct ast_node *tmp_entry;
+	struct ast_del_exprval_node *val_node;
+	bool first = true;
+
+	if (node->node_type != AST_TYPE_DEL_LOGOP && node->node_type != AST_TYPE_DEL_CMP
+			&& node->node_type != AST_TYPE_DEL_EXPRISXNULL
+			&& node->node_type != AST_TYPE_DEL_EXPRISXIN) {
+		snprintf(out_err, out_err_len, "conditions must be comparisons, IN-clauses or IS [NOT] NULL\n");
+		return false;
+	}
+
+	list_for_each(pos, node->node_children_head)
+	{
+		tmp_entry = list_entry(pos, typeof(*tmp_entry), head);
+
+		if (node->node_type == AST_TYPE_DEL_LOGOP) {
+			/* operands of logical operators are conditions themselves */
+			if (!check_expr_shape(tmp_entry, out_err, out_err_len))
+				return false;
+			continue;
+		}
+
+		if (tmp_entry->node_type != AST_TYPE_DEL_EXPRVAL) {
+			snprintf(out_err, out_err_len, "conditions can only contain fields and raw values\n");
+			return false;
+		}
+
+		/* the left-hand side is the first children */
+		val_node = (typeof(val_node))tmp_entry;
+		if (node->node_type == AST_TYPE_DEL_EXPRISXIN && first && !val_node->value_type.is_name) {
+			snprintf(out_err, out_err_len, "only fields are allowed on the left side of IN-clauses\n");
+			return false;
+		}
+		first = false;
+	}
+
+	return true;
+}
+
+/* are the conditions of the WHERE-clause something that the execution phase is able to evaluate? */
+static bool check_where_clause(struct ast_node *root, char *out_err, size_t out_err_len)
+{
+	struct list_head *pos;
+	struct ast_node *tmp_entry;
+
+	list_for_each(pos, root->node_children_head)
+	{
+		tmp_entry = list_entry(pos, typeof(*tmp_entry), head);
+
+		if (!check_expr_shape(tmp_entry, out_err, out_err_len))
+			return false;
+	}
+
+	return true;
+}
+
 static bool try_parse_date_type(char *str, enum COLUMN_TYPE type)
 {
 	struct tm time_struct = {0};
@@ -490,6 +549,10 @@ bool semantic_analyse_delete_stmt(struct database *db, struct ast_node *node, ch
 	if (!check_column_exists(db, deleteone_node, out_err, out_err_len))
 		return false;
 
+	/* can the WHERE-clause be evaluated? */
+	if (!check_where_clause((struct ast_node*)deleteone_node, out_err, out_err_len))
+		return false;
+
 	/* are all values in the "field IN (xxxxx)" raw values? We can't have fields in there */
 	if (!check_isxin_entries((struct ast_node*)deleteone_node, out_err, out_err_len))
 		return false;
diff --git a/src/parser/semantic_update.c b/src/parser/semantic_update.c
index 8b8534f..81952d9 100644
--- a/src/parser/semantic_update.c
+++ b/src/parser/semantic_update.c
@@ -168,6 +168,68 @@ static bool check_isxnull_entries(struct ast_node *root, char *out_err, size_t o
 	return true;
 }
 
+static bool check_expr_shape(struct ast_node *node, char *out_err, size_t out_err_len)
+{
+	struct list_head *pos;
+	struct ast_node *tmp_entry;
+	struct ast_upd_exprval_node *val_node;
+	bool first = true;
+
+	if (node->node_type != AST_TYPE_UPD_LOGOP && node->node_type != AST_TYPE_UPD_CMP
+			&& node->node_type != AST_TYPE_UPD_EXPRISXNULL
+			&& node->node_type != AST_TYPE_UPD_EXPRISXIN) {
+		snprintf(out_err, out_err_len, "conditions must be comparisons, IN-clauses or IS [NOT] NULL\n");
+		return false;
+	}
+
+	list_for_each(pos, node->node_children_head)
+	{
+		tmp_entry = list_entry(pos, typeof(*tmp_entry), head);
+
+		if (node->node_type == AST_TYPE_UPD_LOGOP) {
+			/* operands of logical operators are conditions themselves */
+			if (!check_expr_shape(tmp_entry, out_err, out_err_len))
+				return false;
+			continue;
+		}
+
+		if (tmp_entry->node_type != AST_TYPE_UPD_EXPRVAL) {
+			snprintf(out_err, out_err_len, "conditions can only contain fields and raw values\n");
+			return false;
+		}
+
+		/* the left-hand side is the first children */
+		val_node = (typeof(val_node))tmp_entry;
+		if (node->node_type == AST_TYPE_UPD_EXPRISXIN && first && !val_node->value_type.is_name) {
+			snprintf(out_err, out_err_len, "only fields are allowed on the left side of IN-clauses\n");
+			return false;
+		}
+		first = false;
+	}
+
+	return true;
+}
+
+/* are the conditions of the WHERE-clause something that the execution phase is able to evaluate? */
+static bool check_where_clause(struct ast_node *root, char *out_err, size_t out_err_len)
+{
+	struct list_head *pos;
+	struct ast_node *tmp_entry;
+
+	list_for_each(pos, root->node_children_head)
+	{
+		tmp_entry = list_entry(pos, typeof(*tmp_entry), head);
+
+		if (tmp_entry->node_type == AST_TYPE_UPD_ASSIGN)
+			continue;
+
+		if (!check_expr_shape(tmp_entry, out_err, out_err_len))
+			return false;
+	}
+
+	return true;
+}
+
 static bool try_parse_date_type(char *str, enum COLUMN_TYPE type)
 {
 	struct tm time_struct = {0};
@@ -526,6 +588,10 @@ bool semantic_analyse_update_stmt(struct database *db, struct ast_node *node, ch
 	if (!check_column_exists(db, update_node, out_err, out_err_len))
 		return false;
 
+	/* can the WHERE-clause be evaluated? */
+	if (!check_where_clause((struct ast_node*)update_node, out_err, out_err_len))
+		return false;
+
 	/* are all values in the "field IN (xxxxx)" raw values? We can't have fields in there */
 	if (!check_isxin_entries((struct ast_node*)update_node, out_err, out_err_len))
 		return false;
-- 
2.43.0


From 5fc62cf97e7e9abf588de1c1a852bf55086cb063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:08 +0000
Subject: [PATCH 21/55] fix: DELETE/UPDATE: report an error message for unknown
 columns

---
 src/parser/semantic_delete.c |  5 ++++-
 src/parser/semantic_update.c | 10 ++++++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/parser/semantic_delete.c b/src/parser/semantic_delete.c
index 129e495..37da2d5 100644
--- a/src/parser/semantic_delete.c
+++ b/src/parser/semantic_delete.c
@@ -65,7 +65,10 @@ static bool __check_column_exists(struct database *db, struct ast_del_deleteone_
 		val_node = (typeof(val_node))node;
 
 		if (val_node->value_type.is_name) {
-			return column_exists(db, root, val_node);
+			if (!column_exists(db, root, val_node)) {
+				snprintf(out_err, out_err_len, "no such column: '%s'\n", val_node->name_val);
+				return false;
+			}
 		}
 	} else {
 		list_for_each(pos, node->node_children_head)
diff --git a/src/parser/semantic_update.c b/src/parser/semantic_update.c
index 81952d9..80c93f4 100644
--- a/src/parser/semantic_update.c
+++ b/src/parser/semantic_update.c
@@ -65,12 +65,18 @@ static bool __check_column_exists(struct database *db, struct ast_upd_update_nod
 		val_node = (typeof(val_node))node;
 
 		if (val_node->value_type.is_name) {
-			return column_exists(db, root, val_node->name_val, sizeof(val_node->name_val));
+			if (!column_exists(db, root, val_node->name_val, sizeof(val_node->name_val))) {
+				snprintf(out_err, out_err_len, "no such column: '%s'\n", val_node->name_val);
+				return false;
+			}
 		}
 	} else if (node->node_type == AST_TYPE_UPD_ASSIGN) {
 		assign_node = (typeof(assign_node))node;
 
-		return column_exists(db, root, assign_node->field_name, sizeof(assign_node->field_name));
+		if (!column_exists(db, root, assign_node->field_name, sizeof(assign_node->field_name))) {
+			snprintf(out_err, out_err_len, "no such column: '%s'\n", assign_node->field_name);
+			return false;
+		}
 	} else {
 		list_for_each(pos, node->node_children_head)
 		{
-- 
2.43.0


From a9cd499174aa7b602e4b04d51b3e69159286b871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:10 +0000
Subject: [PATCH 22/55] fix: UPDATE: reject values that cannot be assigned to a
 column

---
 src/parser/semantic_update.c | 60 ++++++++++++++++++++++++++++++++++++
 1 file changed, 60 insertions(+)

diff --git a/src/parser/semantic_update.c b/src/parser/semantic_update.c
index 80c93f4..0839779 100644
--- a/src/parser/semantic_update.c
+++ b/src/parser/semantic_update.c
@@ -580,6 +580,62 @@ err:
 	return valid;
 }
 
+/* are the values something that can be stored in the columns that are being assigned? */
+static bool check_assigned_values(struct database *db, struct ast_upd_update_node *root, char *out_err, size_t out_err_len)
+{
+	struct list_head *pos1, *pos2;
+	struct ast_node *tmp_entry;
+	struct ast_upd_assign_node *assign_node;
+	struct ast_upd_exprval_node *val_node;
+	struct table *table;
+	struct column *column;
+
+	table = database_table_get(db, root->table_name);
+
+	list_for_each(pos1, root->node_children_head)
+	{
+		tmp_entry = list_entry(pos1, typeof(*tmp_entry), head);
+
+		if (tmp_entry->node_type != AST_TYPE_UPD_ASSIGN)
+			continue;
+
+		assign_node = (typeof(assign_node))tmp_entry;
+		column = NULL;
+		for (int i = 0; i < table->column_count; i++) {
+			if (strcmp(table->columns[i].name, assign_node->field_name) == 0) {
+				column = &table->columns[i];
+				break;
+			}
+		}
+		BUG_ON(!column);
+
+		list_for_each(pos2, assign_node->node_children_head)
+		{
+			tmp_entry = list_entry(pos2, typeof(*tmp_entry), head);
+			val_node = (typeof(val_node))tmp_entry;
+
+			if (tmp_entry->node_type != AST_TYPE_UPD_EXPRVAL || val_node->value_type.is_name) {
+				snprintf(out_err, out_err_len, "column: '%s' can only be set to a raw value\n",
+						column->name);
+				return false;
+			} else if (val_node->value_type.is_null && !column->nullable) {
+				snprintf(out_err, out_err_len, "NOT NULL constraint failed: %s.%s\n", table->name,
+						column->name);
+				return false;
+			} else if (val_node->value_type.is_str && column->type == CT_VARCHAR
+					&& strlen(val_node->str_val) + 1 > (size_t)column->precision) {
+				snprintf(out_err, out_err_len,
+						"column: '%s' supports up to %d ASCII chars, "
+						"value contains %lu\n",
+						column->name, column->precision, strlen(val_node->str_val) + 1);
+				return false;
+			}
+		}
+	}
+
+	return true;
+}
+
 bool semantic_analyse_update_stmt(struct database *db, struct ast_node *node, char *out_err, size_t out_err_len)
 {
 	struct ast_upd_update_node *update_node;
@@ -610,6 +666,10 @@ bool semantic_analyse_update_stmt(struct database *db, struct ast_node *node, ch
 	if (!check_isxnull_entries((struct ast_node*)update_node, out_err, out_err_len))
 		return false;
 
+	/* are assigned values raw values that fit the columns they are assigned to? */
+	if (!check_assigned_values(db, update_node, out_err, out_err_len))
+		return false;
+
 	/* are value types correct? Ex.: "DELETE FROM A where age > 'paulo'" shouldn't be allowed */
 	if (!(check_value_types(db, update_node, out_err, out_err_len)))
 		return false;
-- 
2.43.0


From a3564d00fe7b069ef3e5b85ffa43b0a076df2f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:41 +0000
Subject: [PATCH 23/55] fix: statements that are not supported fail instead of
 ending the process

---
 src/parser/ast_create.c |  2 +-
 src/parser/ast_delete.c |  2 +-
 src/parser/ast_insert.c |  2 +-
 src/parser/ast_select.c |  2 +-
 src/parser/ast_update.c |  2 +-
 src/parser/midorisql.y  | 14 +++++++++++---
 6 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/parser/ast_create.c b/src/parser/ast_create.c
index 88e5593..d2701fa 100644
--- a/src/parser/ast_create.c
+++ b/src/parser/ast_create.c
@@ -346,7 +346,7 @@ struct ast_node* ast_create_build_tree(struct queue *parser)
 			break;
 		} else {
 			fprintf(stderr, "%s: %s handler not implement yet\n", __func__, str);
-			exit(1);
+			goto err_push_node;
 		}
 
 		if (!curr)
diff --git a/src/parser/ast_delete.c b/src/parser/ast_delete.c
index 3387e55..056eaf3 100644
--- a/src/parser/ast_delete.c
+++ b/src/parser/ast_delete.c
@@ -401,7 +401,7 @@ struct ast_node* ast_delete_build_tree(struct queue *parser)
 			break;
 		} else {
 			fprintf(stderr, "%s: %s handler not implement yet\n", __func__, str);
-			exit(1);
+			goto err_push_node;
 		}
 
 		if (!curr)
diff --git a/src/parser/ast_insert.c b/src/parser/ast_insert.c
index 89d636f..9e52340 100644
--- a/src/parser/ast_insert.c
+++ b/src/parser/ast_insert.c
@@ -433,7 +433,7 @@ struct ast_node* ast_insert_build_tree(struct queue *parser)
 			break;
 		} else {
 			fprintf(stderr, "%s: %s handler not implement yet\n", __func__, str);
-			exit(1);
+			goto err_push_node;
 		}
 
 		if (!curr)
diff --git a/src/parser/ast_select.c b/src/parser/ast_select.c
index 4014340..cf109f3 100644
--- a/src/parser/ast_select.c
+++ b/src/parser/ast_select.c
@@ -1111,7 +1111,7 @@ struct ast_node* ast_select_build_tree(struct queue *parser)
 			break;
 		} else {
 			fprintf(stderr, "%s: %s handler not implement yet\n", __func__, str);
-			exit(1);
+			goto err_push_node;
 		}
 
 		if (!curr)
diff --git a/src/parser/ast_update.c b/src/parser/ast_update.c
index 0a48431..c2310c5 100644
--- a/src/parser/ast_update.c
+++ b/src/parser/ast_update.c
@@ -460,7 +460,7 @@ struct ast_node* ast_update_build_tree(struct queue *parser)
 			break;
 		} else {
 			fprintf(stderr, "%s: %s handler not implement yet\n", __func__, str);
-			exit(1);
+			goto err_push_node;
 		}
 
 		if (!curr)
diff --git a/src/parser/midorisql.y b/src/parser/midorisql.y
index 1d7acb7..f182d2e 100644
--- a/src/parser/midorisql.y
+++ b/src/parser/midorisql.y
@@ -202,7 +202,7 @@ column_list: NAME { emit(result, "COLUMN %s", $1); free($1); $$ = 1; }
   ;
 
 select_opts:                          { $$ = 0; }
-   | select_opts DISTINCT            { if($$ & 02) yyerror(result, scanner, "duplicate DISTINCT option"); $$ = $1 | 02; }
+   | select_opts DISTINCT            { if($1 & 02) { yyerror(result, scanner, "duplicate DISTINCT option"); YYERROR; } $$ = $1 | 02; }
    ;
 
 select_expr_list: select_expr { $$ = 1; }
@@ -403,10 +403,18 @@ update_stmt: UPDATE NAME
 
 update_asgn_list:
      NAME COMPARISON update_expr 
-       { if ($2 != 4) yyerror(result, scanner, "bad insert assignment to %s", $1);
+       { if ($2 != 4) {
+		yyerror(result, scanner, "bad update assignment to %.128s", $1);
+		free($1);
+		YYERROR;
+	 }
 	 emit(result, "ASSIGN %s", $1); free($1); $$ = 1; }   
    | update_asgn_list ',' NAME COMPARISON update_expr
-       { if ($4 != 4) yyerror(result, scanner, "bad insert assignment to %s", $3);
+       { if ($4 != 4) {
+		yyerror(result, scanner, "bad update assignment to %.128s", $3);
+		free($3);
+		YYERROR;
+	 }
 	 emit(result, "ASSIGN %s", $3); free($3); $$ = $1 + 1; }   
    ;
 
-- 
2.43.0


From e236f4c0838cc352a2083580546c60ef399a31df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:00 +0000
Subject: [PATCH 24/55] fix: reject DATE and DATETIME values that are not valid
 dates

---
 src/parser/semantic_delete.c | 11 ++++++++++-
 src/parser/semantic_insert.c | 11 ++++++++++-
 src/parser/semantic_select.c | 11 ++++++++++-
 src/parser/semantic_update.c | 11 ++++++++++-
 4 files changed, 40 insertions(+), 4 deletions(-)

diff --git a/src/parser/semantic_delete.c b/src/parser/semantic_delete.c
index 37da2d5..47c779e 100644
--- a/src/parser/semantic_delete.c
+++ b/src/parser/semantic_delete.c
@@ -232,6 +232,8 @@ static bool try_parse_date_type(char *str, enum COLUMN_TYPE type)
 	struct tm time_struct = {0};
 	const char *fmt;
 	time_t time_out;
+	char *end;
+	int mday;
 
 	if (type == CT_DATE)
 		fmt = COLUMN_CTDATE_FMT;
@@ -239,9 +241,12 @@ static bool try_parse_date_type(char *str, enum COLUMN_TYPE type)
 		fmt = COLUMN_CTDATETIME_FMT;
 
 	// Parse the string into a time structure
-	if (strptime(str, fmt, &time_struct) == NULL)
+	end = strptime(str, fmt, &time_struct);
+	if (!end || *end != '\0')
 		return false;
 
+	mday = time_struct.tm_mday;
+
 	// Convert the time structure to a time_t value
 	time_out = mktime(&time_struct);
 
@@ -249,6 +254,10 @@ static bool try_parse_date_type(char *str, enum COLUMN_TYPE type)
 	if (time_out == -1)
 		return false;
 
+	// Days that don't exist (ex.: 2023-02-30) are normalised by mktime
+	if (mday != time_struct.tm_mday)
+		return false;
+
 	return true;
 
 }
diff --git a/src/parser/semantic_insert.c b/src/parser/semantic_insert.c
index 1ecb77f..80cf0e2 100644
--- a/src/parser/semantic_insert.c
+++ b/src/parser/semantic_insert.c
@@ -206,6 +206,8 @@ static bool try_parse_date_type(char *str, enum COLUMN_TYPE type)
 	struct tm time_struct = {0};
 	const char *fmt;
 	time_t time_out;
+	char *end;
+	int mday;
 
 	if (type == CT_DATE)
 		fmt = COLUMN_CTDATE_FMT;
@@ -213,9 +215,12 @@ static bool try_parse_date_type(char *str, enum COLUMN_TYPE type)
 		fmt = COLUMN_CTDATETIME_FMT;
 
 	// Parse the string into a time structure
-	if (strptime(str, fmt, &time_struct) == NULL)
+	end = strptime(str, fmt, &time_struct);
+	if (!end || *end != '\0')
 		return false;
 
+	mday = time_struct.tm_mday;
+
 	// Convert the time structure to a time_t value
 	time_out = mktime(&time_struct);
 
@@ -223,6 +228,10 @@ static bool try_parse_date_type(char *str, enum COLUMN_TYPE type)
 	if (time_out == -1)
 		return false;
 
+	// Days that don't exist (ex.: 2023-02-30) are normalised by mktime
+	if (mday != time_struct.tm_mday)
+		return false;
+
 	return true;
 
 }
diff --git a/src/parser/semantic_select.c b/src/parser/semantic_select.c
index 0e24c00..8bff358 100644
--- a/src/parser/semantic_select.c
+++ b/src/parser/semantic_select.c
@@ -60,6 +60,8 @@ static bool try_parse_date_type(char *str, enum COLUMN_TYPE type)
 	struct tm time_struct = {0};
 	const char *fmt;
 	time_t time_out;
+	char *end;
+	int mday;
 
 	if (type == CT_DATE)
 		fmt = COLUMN_CTDATE_FMT;
@@ -67,9 +69,12 @@ static bool try_parse_date_type(char *str, enum COLUMN_TYPE type)
 		fmt = COLUMN_CTDATETIME_FMT;
 
 	// Parse the string into a time structure
-	if (strptime(str, fmt, &time_struct) == NULL)
+	end = strptime(str, fmt, &time_struct);
+	if (!end || *end != '\0')
 		return false;
 
+	mday = time_struct.tm_mday;
+
 	// Convert the time structure to a time_t value
 	time_out = mktime(&time_struct);
 
@@ -77,6 +82,10 @@ static bool try_parse_date_type(char *str, enum COLUMN_TYPE type)
 	if (time_out == -1)
 		return false;
 
+	// Days that don't exist (ex.: 2023-02-30) are normalised by mktime
+	if (mday != time_struct.tm_mday)
+		return false;
+
 	return true;
 
 }
diff --git a/src/parser/semantic_update.c b/src/parser/semantic_update.c
index 0839779..4f678e9 100644
--- a/src/parser/semantic_update.c
+++ b/src/parser/semantic_update.c
@@ -241,6 +241,8 @@ static bool try_parse_date_type(char *str, enum COLUMN_TYPE type)
 	struct tm time_struct = {0};
 	const char *fmt;
 	time_t time_out;
+	char *end;
+	int mday;
 
 	if (type == CT_DATE)
 		fmt = COLUMN_CTDATE_FMT;
@@ -248,9 +250,12 @@ static bool try_parse_date_type(char *str, enum COLUMN_TYPE type)
 		fmt = COLUMN_CTDATETIME_FMT;
 
 	// Parse the string into a time structure
-	if (strptime(str, fmt, &time_struct) == NULL)
+	end = strptime(str, fmt, &time_struct);
+	if (!end || *end != '\0')
 		return false;
 
+	mday = time_struct.tm_mday;
+
 	// Convert the time structure to a time_t value
 	time_out = mktime(&time_struct);
 
@@ -258,6 +263,10 @@ static bool try_parse_date_type(char *str, enum COLUMN_TYPE type)
 	if (time_out == -1)
 		return false;
 
+	// Days that don't exist (ex.: 2023-02-30) are normalised by mktime
+	if (mday != time_struct.tm_mday)
+		return false;
+
 	return true;
 
 }
-- 
2.43.0


From 85161b5d04737ff0fba5fc6a788ea392b668ae0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:16 +0000
Subject: [PATCH 25/55] fix: GROUP BY: do not truncate the difference of values
 that are compared

---
 src/engine/executor_select.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/engine/executor_select.c b/src/engine/executor_select.c
index e62c3b4..5eb21f1 100644
--- a/src/engine/executor_select.c
+++ b/src/engine/executor_select.c
@@ -1506,13 +1506,19 @@ static int cmp_rows_col_mattbl(struct table *table, struct row *row_1, struct ro
 	else if (!is_null_1 && is_null_2)
 		ret = 1;
 	else if (col_spcs.type == CT_DOUBLE) {
-		ret = (*(double*)&row_1->data[col_spcs.offset]) - (*(double*)&row_2->data[col_spcs.offset]);
+		double val_1 = *(double*)&row_1->data[col_spcs.offset];
+		double val_2 = *(double*)&row_2->data[col_spcs.offset];
+		ret = (val_1 > val_2) - (val_1 < val_2);
 	} else if (col_spcs.type == CT_TINYINT) {
 		ret = (*(bool*)&row_1->data[col_spcs.offset]) - (*(bool*)&row_2->data[col_spcs.offset]);
 	} else if (col_spcs.type == CT_INTEGER) {
-		ret = (*(int64_t*)&row_1->data[col_spcs.offset]) - (*(int64_t*)&row_2->data[col_spcs.offset]);
+		int64_t val_1 = *(int64_t*)&row_1->data[col_spcs.offset];
+		int64_t val_2 = *(int64_t*)&row_2->data[col_spcs.offset];
+		ret = (val_1 > val_2) - (val_1 < val_2);
 	} else if (col_spcs.type == CT_DATE || col_spcs.type == CT_DATETIME) {
-		ret = (*(time_t*)&row_1->data[col_spcs.offset]) - (*(time_t*)&row_2->data[col_spcs.offset]);
+		time_t val_1 = *(time_t*)&row_1->data[col_spcs.offset];
+		time_t val_2 = *(time_t*)&row_2->data[col_spcs.offset];
+		ret = (val_1 > val_2) - (val_1 < val_2);
 	} else if (col_spcs.type == CT_VARCHAR) {
 		ret = strcmp(*(char**)&row_1->data[col_spcs.offset], *(char**)&row_2->data[col_spcs.offset]);
 	} else {
-- 
2.43.0


From d17dfdc4de613b3cd4802d7ef411f3145a9b361b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:18 +0000
Subject: [PATCH 26/55] fix: GROUP BY: compare all fields and rows of every
 datablock

---
 src/engine/executor_select.c | 80 ++++++++++++++++++++----------------
 1 file changed, 45 insertions(+), 35 deletions(-)

diff --git a/src/engine/executor_select.c b/src/engine/executor_select.c
index 5eb21f1..5828d0c 100644
--- a/src/engine/executor_select.c
+++ b/src/engine/executor_select.c
@@ -1554,10 +1554,26 @@ static int inc_count_cols(struct table *table, struct datablock *blk, size_t blk
 	return MIDORIDB_OK;
 }
 
-static int proc_groupby_clause(struct ast_node *node, struct table *table)
+static bool cmp_rows_same_group(struct table *table, struct row *row_1, struct row *row_2, struct ast_node *node)
 {
-	struct list_head *grppos, *pos1, *pos2;
+	struct list_head *pos;
 	struct ast_node *tmp_entry;
+
+	/* rows are in the same group if they match on all fields of the group-by clause list */
+	list_for_each(pos, node->node_children_head)
+	{
+		tmp_entry = list_entry(pos, typeof(*tmp_entry), head);
+
+		if (cmp_rows_col_mattbl(table, row_1, row_2, tmp_entry) != 0)
+			return false;
+	}
+
+	return true;
+}
+
+static int proc_groupby_clause(struct ast_node *node, struct table *table)
+{
+	struct list_head *pos1, *pos2;
 	struct datablock *blk_1, *blk_2;
 	struct row *row_1, *row_2;
 	size_t row_size;
@@ -1565,48 +1581,42 @@ static int proc_groupby_clause(struct ast_node *node, struct table *table)
 
 	row_size = table_calc_row_size(table);
 
-	list_for_each(grppos, node->node_children_head)
+	list_for_each(pos1, table->datablock_head)
 	{
-		/* process each field on the group-by clause list one at a time */
-		tmp_entry = list_entry(grppos, typeof(*tmp_entry), head);
-
-		list_for_each(pos1, table->datablock_head)
-		{
-			blk_1 = list_entry(pos1, typeof(*blk_1), head);
-			for (size_t i = 0; i < (DATABLOCK_PAGE_SIZE / row_size); i++) {
-				row_1 = (struct row*)&blk_1->data[row_size * i];
-
-				if (row_1->flags.empty)
-					break; /* end of the line */
+		blk_1 = list_entry(pos1, typeof(*blk_1), head);
+		for (size_t i = 0; i < (DATABLOCK_PAGE_SIZE / row_size); i++) {
+			row_1 = (struct row*)&blk_1->data[row_size * i];
 
-				if (row_1->flags.deleted)
-					continue; /* nothing to do here */
+			if (row_1->flags.empty)
+				break; /* end of the line */
 
-				list_for_each(pos2, table->datablock_head)
-				{
-					blk_2 = list_entry(pos2, typeof(*blk_2), head);
-					for (size_t j = i + 1; j < (DATABLOCK_PAGE_SIZE / row_size); j++) {
-						row_2 = (struct row*)&blk_2->data[row_size * j];
+			if (row_1->flags.deleted)
+				continue; /* nothing to do here */
 
-						if (row_2->flags.empty)
-							break; /* end of the line */
+			/* compare to the rows that come after it - in this and in the next datablocks */
+			for (pos2 = pos1; pos2 != table->datablock_head; pos2 = pos2->next) {
+				blk_2 = list_entry(pos2, typeof(*blk_2), head);
+				for (size_t j = (pos1 == pos2 ? i + 1 : 0); j < (DATABLOCK_PAGE_SIZE / row_size); j++) {
+					row_2 = (struct row*)&blk_2->data[row_size * j];
 
-						if (row_2->flags.deleted)
-							continue; /* nothing to do here */
+					if (row_2->flags.empty)
+						break; /* end of the line */
 
-						if (cmp_rows_col_mattbl(table, row_1, row_2, tmp_entry) == 0) {
+					if (row_2->flags.deleted)
+						continue; /* nothing to do here */
 
-							if (!table_delete_row(table, blk_2, row_size * j)) {
-								ret = -MIDORIDB_INTERNAL;
-								goto out;
-							}
+					if (cmp_rows_same_group(table, row_1, row_2, node)) {
 
-							/* increment counts if any */
-							if ((ret = inc_count_cols(table, blk_1, row_size * i,
-											row_1,
-											row_size)))
-								goto out;
+						if (!table_delete_row(table, blk_2, row_size * j)) {
+							ret = -MIDORIDB_INTERNAL;
+							goto out;
 						}
+
+						/* increment counts if any */
+						if ((ret = inc_count_cols(table, blk_1, row_size * i,
+										row_1,
+										row_size)))
+							goto out;
 					}
 				}
 			}
-- 
2.43.0


From 26500d00d6073da209a39f5fef059fdc444f319d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:21 +0000
Subject: [PATCH 27/55] fix: COUNT: count rows of every datablock and keep the
 groups of GROUP BY

---
 src/engine/executor_select.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/engine/executor_select.c b/src/engine/executor_select.c
index 5828d0c..87eeefd 100644
--- a/src/engine/executor_select.c
+++ b/src/engine/executor_select.c
@@ -331,6 +331,7 @@ static void init_count_cols(struct table *table, struct row *row)
 
 		if (column->is_count) {
 			(*(int64_t*)&row->data[offset]) = 1;
+			bit_clear(row->null_bitmap, i, sizeof(row->null_bitmap));
 		}
 
 		offset += table_calc_column_space(column);
@@ -1660,10 +1661,10 @@ static int handle_countonly_case(struct table *table)
 				if (row_1->flags.deleted)
 					continue; /* nothing to do here */
 
-				list_for_each(pos2, table->datablock_head)
-				{
+				/* count the rows that come after it - in this and in the next datablocks */
+				for (pos2 = pos1; pos2 != table->datablock_head; pos2 = pos2->next) {
 					blk_2 = list_entry(pos2, typeof(*blk_2), head);
-					for (size_t j = i + 1; j < (DATABLOCK_PAGE_SIZE / row_size); j++) {
+					for (size_t j = (pos1 == pos2 ? i + 1 : 0); j < (DATABLOCK_PAGE_SIZE / row_size); j++) {
 						row_2 = (struct row*)&blk_2->data[row_size * j];
 
 						if (row_2->flags.empty)
@@ -1754,8 +1755,8 @@ int executor_run_select_stmt(struct database *db, struct ast_sel_select_node *se
 		goto err_bld_fc;
 	}
 
-	/* handle COUNT(*)-only field edge-case */
-	if ((ret = handle_countonly_case(table))) {
+	/* handle COUNT(*)-only field edge-case - groups have already been counted */
+	if (!groupby_node && (ret = handle_countonly_case(table))) {
 		snprintf(output->error.message, sizeof(output->error.message),
 				"execution phase: error while processing COUNT-only-case\n");
 		goto err_bld_fc;
-- 
2.43.0


From 1c5c35d807e11b45878b4aaace80e9a43406f90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:38 +0000
Subject: [PATCH 28/55] fix: COUNT of no rows is zero

---
 src/engine/executor_select.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/engine/executor_select.c b/src/engine/executor_select.c
index 87eeefd..b2dfe67 100644
--- a/src/engine/executor_select.c
+++ b/src/engine/executor_select.c
@@ -1635,6 +1635,7 @@ static int handle_countonly_case(struct table *table)
 	struct datablock *blk_1, *blk_2;
 	struct row *row_1, *row_2;
 	size_t row_size;
+	bool found = false;
 	int ret = MIDORIDB_OK;
 
 	/* check if we need to do that in the first plae */
@@ -1646,7 +1647,7 @@ static int handle_countonly_case(struct table *table)
 		}
 	}
 
-	if (!non_count_field) {
+	if (!non_count_field && table->column_count > 0) {
 		row_size = table_calc_row_size(table);
 
 		list_for_each(pos1, table->datablock_head)
@@ -1661,6 +1662,8 @@ static int handle_countonly_case(struct table *table)
 				if (row_1->flags.deleted)
 					continue; /* nothing to do here */
 
+				found = true;
+
 				/* count the rows that come after it - in this and in the next datablocks */
 				for (pos2 = pos1; pos2 != table->datablock_head; pos2 = pos2->next) {
 					blk_2 = list_entry(pos2, typeof(*blk_2), head);
@@ -1687,6 +1690,19 @@ static int handle_countonly_case(struct table *table)
 				}
 			}
 		}
+
+		/* no rows to be counted */
+		if (!found) {
+			if (!(row_1 = zalloc(row_size))) {
+				ret = -MIDORIDB_NOMEM;
+				goto out;
+			}
+
+			if (!table_insert_row(table, row_1, row_size))
+				ret = -MIDORIDB_INTERNAL;
+
+			free(row_1);
+		}
 	}
 
 out:
-- 
2.43.0


From 48e194c3ae3de53774fb2e368bd997a9d3e49ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:17 +0000
Subject: [PATCH 29/55] fix: joins of three or more tables

---
 src/engine/executor_select.c | 174 +++++++++++------------------------
 1 file changed, 56 insertions(+), 118 deletions(-)

diff --git a/src/engine/executor_select.c b/src/engine/executor_select.c
index b2dfe67..b9b95e7 100644
--- a/src/engine/executor_select.c
+++ b/src/engine/executor_select.c
@@ -348,6 +348,12 @@ static bool cpy_cols(struct table *src, struct row *src_row, struct table *dst,
 	for (int i = 0; i < src->column_count; i++) {
 		column = &src->columns[i];
 
+		/* materialised rows also have (NULL) columns of tables that haven't been joined yet */
+		if (is_src_earlymat && bit_test(src_row->null_bitmap, i, sizeof(src_row->null_bitmap))) {
+			src_offset += table_calc_column_space(column);
+			continue;
+		}
+
 		memzero(key, sizeof(key));
 
 		if (!is_src_earlymat) {
@@ -400,8 +406,8 @@ static bool cpy_cols(struct table *src, struct row *src_row, struct table *dst,
 	return true;
 }
 
-static int _merge_rows(struct table *tbl_1, struct table *tbl_2, struct row *row_1, struct row *row_2,
-		struct table *mattbl, struct row **out, bool is_tbl2_earlymat)
+static int merge_rows(struct table *tbl_1, struct table *tbl_2, struct row *row_1, struct row *row_2,
+		struct table *mattbl, struct row **out, bool is_tbl1_earlymat, bool is_tbl2_earlymat)
 {
 	*out = zalloc(table_calc_row_size(mattbl));
 	if (!(*out))
@@ -414,7 +420,7 @@ static int _merge_rows(struct table *tbl_1, struct table *tbl_2, struct row *row
 		bit_set((*out)->null_bitmap, i, sizeof((*out)->null_bitmap));
 	}
 
-	if (!cpy_cols(tbl_1, row_1, mattbl, *out, false))
+	if (!cpy_cols(tbl_1, row_1, mattbl, *out, is_tbl1_earlymat))
 		goto err_ptr;
 
 	if (!cpy_cols(tbl_2, row_2, mattbl, *out, is_tbl2_earlymat))
@@ -425,19 +431,13 @@ static int _merge_rows(struct table *tbl_1, struct table *tbl_2, struct row *row
 	return MIDORIDB_OK;
 
 err_ptr:
+	table_free_row_content(mattbl, *out);
 	free(*out);
 err:
 	return -MIDORIDB_INTERNAL;
 
 }
 
-static int merge_rows(struct table *tbl_1, struct table *tbl_2, struct row *row_1, struct row *row_2,
-		struct table *mattbl, struct row **out)
-{
-	bool is_tbl2_earlymat = tbl_2 == mattbl;
-	return _merge_rows(tbl_1, tbl_2, row_1, row_2, mattbl, out, is_tbl2_earlymat);
-}
-
 static bool cmp_double_value_to_value(enum ast_comparison_type cmp_type, double val_1, double val_2)
 {
 	switch (cmp_type) {
@@ -1099,19 +1099,15 @@ static bool eval_row_cond(struct ast_node *node, struct table *table, struct row
 	return ret;
 }
 
-static int _join_nested_loop_tbl2tbl(struct database *db, struct ast_sel_join_node *join_node,
-		struct ast_sel_onexpr_node *onexpr_node, struct ast_sel_table_node *left_node,
-		struct ast_sel_table_node *right_node, struct table *mattbl)
+static int _join_nested_loop(struct ast_sel_join_node *join_node, struct ast_sel_onexpr_node *onexpr_node,
+		struct table *left, bool is_left_earlymat, struct table *right, bool is_right_earlymat,
+		struct table *mattbl)
 {
-	struct table *left, *right;
 	struct list_head *left_pos, *right_pos;
 	struct datablock *left_blk, *right_blk;
 	size_t left_row_size, right_row_size, new_row_size;
 	struct row *left_row, *right_row, *new_row;
 
-	left = database_table_get(db, left_node->table_name);
-	right = database_table_get(db, right_node->table_name);
-
 	left_row_size = table_calc_row_size(left);
 	right_row_size = table_calc_row_size(right);
 	new_row_size = table_calc_row_size(mattbl);
@@ -1148,13 +1144,14 @@ static int _join_nested_loop_tbl2tbl(struct database *db, struct ast_sel_join_no
 					// SELECT (f1 + 4) as val FROM A JOIN B ON ....
 
 					/* copy columns of both rows to materialised row */
-					if (merge_rows(left, right, left_row, right_row, mattbl, &new_row))
+					if (merge_rows(left, right, left_row, right_row, mattbl, &new_row,
+							is_left_earlymat, is_right_earlymat))
 						goto err;
 
 					if (eval_row_cond((struct ast_node*)onexpr_node, mattbl, new_row)) {
 
 						if (!table_insert_row(mattbl, new_row, new_row_size))
-							goto err;
+							goto err_ins;
 
 //						print_row(mattbl, new_row);
 
@@ -1169,92 +1166,40 @@ static int _join_nested_loop_tbl2tbl(struct database *db, struct ast_sel_join_no
 
 	return MIDORIDB_OK;
 
+err_ins:
+	table_free_row_content(mattbl, new_row);
+	free(new_row);
 err:
 	return -MIDORIDB_INTERNAL;
 
 }
 
-static int _join_nested_loop_tbl2mat(struct database *db, struct ast_sel_join_node *join_node,
-		struct ast_sel_onexpr_node *onexpr_node, struct ast_sel_table_node *table_node_1,
-		struct table *mattbl)
-{
-	struct table *table_1, *table_2;
-	struct list_head *tbl1_pos, *tbl2_pos;
-	struct datablock *tbl1_blk, *tbl2_blk;
-	size_t tbl1_row_size, tbl2_row_size, new_row_size;
-	struct row *tbl1_row, *tbl2_row, *new_row;
-
-	table_1 = database_table_get(db, table_node_1->table_name);
-	table_2 = mattbl;
-
-	tbl1_row_size = table_calc_row_size(table_1);
-	tbl2_row_size = table_calc_row_size(table_2);
-	new_row_size = table_calc_row_size(mattbl);
-
-	// TODO add nested-loop for other join types.. for now I will focus on the INNER JOIN
-	BUG_ON(join_node->join_type != AST_SEL_JOIN_INNER);
-
-	list_for_each(tbl1_pos, table_1->datablock_head)
-	{
-		tbl1_blk = list_entry(tbl1_pos, typeof(*tbl1_blk), head);
-		for (size_t i = 0; i < (DATABLOCK_PAGE_SIZE / tbl1_row_size); i++) {
-			tbl1_row = (struct row*)&tbl1_blk->data[tbl1_row_size * i];
-
-			if (tbl1_row->flags.empty)
-				break; /* end of the line */
-
-			if (tbl1_row->flags.deleted)
-				continue; /* nothing to do here */
-
-			list_for_each(tbl2_pos, table_2->datablock_head)
-			{
-				tbl2_blk = list_entry(tbl2_pos, typeof(*tbl2_blk), head);
-
-				for (size_t j = 0; j < (DATABLOCK_PAGE_SIZE / tbl2_row_size); j++) {
-					tbl2_row = (struct row*)&tbl2_blk->data[tbl2_row_size * j];
-
-					if (tbl2_row->flags.empty)
-						break; /* end of the line */
-
-					if (tbl2_row->flags.deleted)
-						continue; /* nothing to do here */
-
-					//TODO figure out how I will populate aliases into the new row
-					// SELECT (f1 + 4) as val FROM A JOIN B ON ....
-
-					/* copy columns of both rows to materialised row */
-					if (merge_rows(table_1, mattbl, tbl1_row, tbl2_row, mattbl, &new_row))
-						goto err;
-
-					if (eval_row_cond((struct ast_node*)onexpr_node, mattbl, new_row)) {
-
-						if (!table_update_row(mattbl, tbl2_blk, tbl2_row_size * j, new_row,
-									new_row_size))
-							goto err;
+static int proc_from_clause_join(struct database *db, struct ast_sel_join_node *join_node, struct table *earmattbl);
 
-//						print_row(mattbl, new_row);
+/* tables are used as they are while joins are materialised into a table with the same columns as the output's */
+static int proc_join_operand(struct database *db, struct ast_node *node, struct table *earmattbl, struct table **out,
+		bool *is_earlymat)
+{
+	int ret;
 
-					} else {
-						/* when using materialisation tables,
-						 * if it doesn't match ON-clause then it needs to be discarded
-						 * TODO: this should change once we implement other JOIN types
-						 */
-						table_delete_row(mattbl, tbl2_blk, tbl2_row_size * j);
-					}
+	*is_earlymat = node->node_type == AST_TYPE_SEL_JOIN;
 
-					/* free up used resources */
-					table_free_row_content(mattbl, new_row);
-					free(new_row);
-				}
-			}
-		}
+	if (!*is_earlymat) {
+		BUG_ON(node->node_type != AST_TYPE_SEL_TABLE);
+		*out = database_table_get(db, ((struct ast_sel_table_node*)node)->table_name);
+		return MIDORIDB_OK;
 	}
 
-	return MIDORIDB_OK;
+	if (!(*out = table_init(earmattbl->name)))
+		return -MIDORIDB_NOMEM;
 
-err:
-	return -MIDORIDB_INTERNAL;
+	memcpy((*out)->columns, earmattbl->columns, sizeof(earmattbl->columns));
+	(*out)->column_count = earmattbl->column_count;
+
+	if ((ret = proc_from_clause_join(db, (struct ast_sel_join_node*)node, *out)))
+		table_destroy(out);
 
+	return ret;
 }
 
 static int proc_from_clause_join(struct database *db, struct ast_sel_join_node *join_node, struct table *earmattbl)
@@ -1264,8 +1209,10 @@ static int proc_from_clause_join(struct database *db, struct ast_sel_join_node *
 
 	struct ast_sel_onexpr_node *onexpr_node = NULL;
 	struct ast_node *left_node = NULL, *right_node = NULL;
+	struct table *left, *right;
+	bool is_left_earlymat, is_right_earlymat;
 
-	int early_ret;
+	int ret;
 
 	list_for_each(pos, join_node->node_children_head)
 	{
@@ -1280,29 +1227,21 @@ static int proc_from_clause_join(struct database *db, struct ast_sel_join_node *
 		}
 	}
 
-	if (left_node->node_type == AST_TYPE_SEL_TABLE && right_node->node_type == AST_TYPE_SEL_TABLE) {
-		return _join_nested_loop_tbl2tbl(db, join_node, onexpr_node,
-							(struct ast_sel_table_node*)left_node,
-							(struct ast_sel_table_node*)right_node, earmattbl);
-	} else if (left_node->node_type == AST_TYPE_SEL_JOIN && right_node->node_type == AST_TYPE_SEL_TABLE) {
-		if ((early_ret = proc_from_clause_join(db, (struct ast_sel_join_node*)left_node, earmattbl)))
-			return early_ret;
-
-		return _join_nested_loop_tbl2mat(db, join_node, onexpr_node,
-							(struct ast_sel_table_node*)right_node,
-							earmattbl);
-	} else if (left_node->node_type == AST_TYPE_SEL_TABLE && right_node->node_type == AST_TYPE_SEL_JOIN) {
-		if ((early_ret = proc_from_clause_join(db, (struct ast_sel_join_node*)right_node, earmattbl)))
-			return early_ret;
-
-		return _join_nested_loop_tbl2mat(db, join_node, onexpr_node,
-							(struct ast_sel_table_node*)left_node,
-							earmattbl);
-	} else {
-		BUG_GENERIC();
-	}
+	if ((ret = proc_join_operand(db, left_node, earmattbl, &left, &is_left_earlymat)))
+		goto out;
 
-	return MIDORIDB_OK;
+	if ((ret = proc_join_operand(db, right_node, earmattbl, &right, &is_right_earlymat)))
+		goto out_left;
+
+	ret = _join_nested_loop(join_node, onexpr_node, left, is_left_earlymat, right, is_right_earlymat, earmattbl);
+
+	if (is_right_earlymat)
+		table_destroy(&right);
+out_left:
+	if (is_left_earlymat)
+		table_destroy(&left);
+out:
+	return ret;
 }
 
 static int proc_from_clause_table(struct database *db, struct ast_sel_table_node *table_node, struct table *mattbl)
@@ -1344,7 +1283,7 @@ static int proc_from_clause_table(struct database *db, struct ast_sel_table_node
 			}
 
 			if (!cpy_cols(exs_table, exs_row, mattbl, new_row, false))
-				goto err_ptr;
+				goto err_ins;
 
 			init_count_cols(mattbl, new_row);
 
@@ -1362,7 +1301,6 @@ static int proc_from_clause_table(struct database *db, struct ast_sel_table_node
 
 err_ins:
 	table_free_row_content(mattbl, new_row);
-err_ptr:
 	free(new_row);
 err:
 	return -MIDORIDB_INTERNAL;
-- 
2.43.0


From d7dd7106f090b1cdaaadfbc169f23b60a91b473a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:33 +0000
Subject: [PATCH 30/55] fix: SELECT: report an error when columns do not fit
 the materialised table

---
 src/engine/executor_select.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/engine/executor_select.c b/src/engine/executor_select.c
index b9b95e7..02bbf38 100644
--- a/src/engine/executor_select.c
+++ b/src/engine/executor_select.c
@@ -241,6 +241,10 @@ static int _build_cols_hashtable_table(struct database *db, struct ast_node *nod
 		memzero(key, sizeof(key));
 		snprintf(key, sizeof(key) - 1, "%s.%s", table_node->table_name, column->name);
 
+		/* both names have to fit into the name of the materialised table's column */
+		if (strlen(key) > TABLE_MAX_COLUMN_NAME)
+			return -MIDORIDB_INTERNAL;
+
 		if (!hashtable_put(cols_ht, key, strlen(key) + 1, column, sizeof(*column)))
 			return -MIDORIDB_INTERNAL;
 	}
@@ -311,6 +315,10 @@ static void do_build_table_scafold(struct hashtable *hashtable, const void *key,
 
 static int build_table_scafold(struct hashtable *column_types, struct table **out_table)
 {
+	/* does it exceed the number of columns that a table can have? */
+	if (column_types->count > TABLE_MAX_COLUMNS)
+		return -MIDORIDB_INTERNAL;
+
 	*out_table = table_init("early_mat_tbl");
 
 	if (!(*out_table))
-- 
2.43.0


From 599507a2aeba5cc65b399a08b7101f57e6cdb91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:11 +0000
Subject: [PATCH 31/55] fix: SELECT: joined tables can have columns with the
 same name

---
 src/parser/semantic_select.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser/semantic_select.c b/src/parser/semantic_select.c
index 8bff358..b3b7b2e 100644
--- a/src/parser/semantic_select.c
+++ b/src/parser/semantic_select.c
@@ -2529,7 +2529,9 @@ static bool build_column_value_types_ht(struct database *db, struct ast_node *no
 			memzero(key, sizeof(key));
 			strcpy(key, col_name);
 
-			if (!hashtable_put(ht, key, strlen(key) + 1, &col_type, sizeof(col_type))) {
+			/* tables can share column names. References to those are validated later */
+			if (!hashtable_get(ht, key, strlen(key) + 1)
+					&& !hashtable_put(ht, key, strlen(key) + 1, &col_type, sizeof(col_type))) {
 				snprintf(out_err, out_err_len, "duplicate column name: '%s'\n", key);
 				return false;
 			}
-- 
2.43.0


From 01dcfda4c6ea0005462bf37791e0a27861a04e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:50 +0000
Subject: [PATCH 32/55] fix: SELECT: statements that cannot be executed fail
 instead of aborting

---
 src/engine/executor_select.c | 88 ++++++++++++++++++++++++++++++++++++
 1 file changed, 88 insertions(+)

diff --git a/src/engine/executor_select.c b/src/engine/executor_select.c
index 02bbf38..57c5048 100644
--- a/src/engine/executor_select.c
+++ b/src/engine/executor_select.c
@@ -1656,6 +1656,88 @@ out:
 
 }
 
+/* conditions that eval_row_cond is able to evaluate */
+static bool check_cond_supported(struct ast_node *node)
+{
+	struct list_head *pos;
+	struct ast_node *tmp_entry;
+	bool is_name, first = true;
+
+	if (node->node_type != AST_TYPE_SEL_CMP && node->node_type != AST_TYPE_SEL_EXPRISXNULL
+			&& node->node_type != AST_TYPE_SEL_EXPRISXIN) {
+
+		/* single fields aren't conditions */
+		if (node->node_type == AST_TYPE_SEL_FIELDNAME || node->node_type == AST_TYPE_SEL_EXPRVAL)
+			return false;
+
+		list_for_each(pos, node->node_children_head)
+		{
+			tmp_entry = list_entry(pos, typeof(*tmp_entry), head);
+			if (!check_cond_supported(tmp_entry))
+				return false;
+		}
+		return true;
+	}
+
+	list_for_each(pos, node->node_children_head)
+	{
+		tmp_entry = list_entry(pos, typeof(*tmp_entry), head);
+
+		if (tmp_entry->node_type != AST_TYPE_SEL_FIELDNAME && tmp_entry->node_type != AST_TYPE_SEL_EXPRVAL)
+			return false;
+
+		is_name = tmp_entry->node_type == AST_TYPE_SEL_FIELDNAME
+				|| ((struct ast_sel_exprval_node*)tmp_entry)->value_type.is_name;
+
+		/* fields (and only fields) are expected on the left side of IN-clauses and IS [NOT] NULL */
+		if (node->node_type != AST_TYPE_SEL_CMP && is_name != first)
+			return false;
+
+		first = false;
+	}
+
+	return true;
+}
+
+static bool check_stmt_supported(struct ast_node *node, struct query_output *output)
+{
+	struct list_head *pos;
+	struct ast_node *tmp_entry;
+
+	if (node->node_type == AST_TYPE_SEL_WHERE || node->node_type == AST_TYPE_SEL_ONEXPR) {
+		if (!check_cond_supported(node)) {
+			snprintf(output->error.message, sizeof(output->error.message),
+					"execution phase: conditions can only contain fields and raw values\n");
+			return false;
+		}
+		return true;
+	}
+
+	if (node->node_type == AST_TYPE_SEL_JOIN
+			&& ((struct ast_sel_join_node*)node)->join_type != AST_SEL_JOIN_INNER) {
+		snprintf(output->error.message, sizeof(output->error.message),
+				"execution phase: only INNER JOINs are supported\n");
+		return false;
+	}
+
+	list_for_each(pos, node->node_children_head)
+	{
+		tmp_entry = list_entry(pos, typeof(*tmp_entry), head);
+
+		if (node->node_type == AST_TYPE_SEL_SELECT && (tmp_entry->node_type == AST_TYPE_SEL_EXPRVAL
+				|| tmp_entry->node_type == AST_TYPE_SEL_EXPROP)) {
+			snprintf(output->error.message, sizeof(output->error.message),
+					"execution phase: only fields and COUNT can be selected\n");
+			return false;
+		}
+
+		if (!check_stmt_supported(tmp_entry, output))
+			return false;
+	}
+
+	return true;
+}
+
 int executor_run_select_stmt(struct database *db, struct ast_sel_select_node *select_node, struct query_output *output)
 {
 	struct hashtable cols_ht = {0};
@@ -1663,6 +1745,12 @@ int executor_run_select_stmt(struct database *db, struct ast_sel_select_node *se
 	struct ast_node *where_node, *groupby_node;
 	int ret = MIDORIDB_OK;
 
+	/* is this something that can be executed? */
+	if (!check_stmt_supported((struct ast_node*)select_node, output)) {
+		ret = -MIDORIDB_INTERNAL;
+		goto err;
+	}
+
 	if (!hashtable_init(&cols_ht, &hashtable_str_compare, &hashtable_str_hash)) {
 		snprintf(output->error.message, sizeof(output->error.message), "execution phase: internal error\n");
 		ret = -MIDORIDB_INTERNAL;
-- 
2.43.0


From d4cffce0621ac0a123079670f1d35dfeab681a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:30 +0000
Subject: [PATCH 33/55] fix: SELECT: reject IN and IS NULL conditions without a
 field; always explain GROUP BY errors

---
 src/parser/semantic_select.c | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/parser/semantic_select.c b/src/parser/semantic_select.c
index b3b7b2e..d619c24 100644
--- a/src/parser/semantic_select.c
+++ b/src/parser/semantic_select.c
@@ -1711,16 +1711,22 @@ static bool check_groupby_clause(struct ast_node *root, char *out_err, size_t ou
 			return false;
 
 		/* check if fields/aliases on group-by clause are also specified on the SELECT list */
-		if (!check_groupby_clause_inselect(root, groupby_node, out_err, out_err_len, column_alias))
+		if (!check_groupby_clause_inselect(root, groupby_node, out_err, out_err_len, column_alias)) {
+			snprintf(out_err, out_err_len,
+					"every field of the select-clause must be in the groupby-clause as well\n");
 			return false;
+		}
 	} else {
 		/*
 		 * edge case: non-aggregate fields alongside aggregate fields with no group-by clause such as:
 		 * 	SELECT f1, COUNT(f2) FROM B;  (should fail as f1 must be in the group-by clause)
 		 */
 		check_aggr_inselect_nogroupby(root, out_err, out_err_len, column_alias, &out_stats);
-		if (out_stats.no_count_fnc > 0 && out_stats.no_raw_fields > 0)
+		if (out_stats.no_count_fnc > 0 && out_stats.no_raw_fields > 0) {
+			snprintf(out_err, out_err_len,
+					"fields can't be selected alongside COUNT without a groupby-clause\n");
 			return false;
+		}
 
 	}
 
@@ -2072,6 +2078,12 @@ static bool check_isxin_entries(struct ast_node *root, char *out_err, size_t out
 				return false;
 			}
 
+			/* the field comes first */
+			if (field_count == 0) {
+				snprintf(out_err, out_err_len, "IN-clause requires a field on its left-hand side\n");
+				return false;
+			}
+
 			/*
 			 * ast_sel_isxin_node holds the field which is part of the expression in the
 			 * linked-list. So it's expected to have 1 field but no more than that.
@@ -2117,8 +2129,9 @@ static bool check_isxnull_entries(struct ast_node *root, char *out_err, size_t o
 					return false;
 				}
 			} else if (tmp_entry->node_type != AST_TYPE_SEL_FIELDNAME) {
-				/* something I haven't foreseen */
-				BUG_GENERIC();
+				snprintf(out_err, out_err_len,
+						"only fields are allowed in IS NULL|IS NOT NULL\n");
+				return false;
 			}
 
 		}
-- 
2.43.0


From 2dff10cb37bdeb05ecd53362ec464e8857ab37c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:31 +0000
Subject: [PATCH 34/55] fix: table_rem_column: keep the null bits of the
 columns after the removed one

---
 src/primitive/column.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/primitive/column.c b/src/primitive/column.c
index b405e3b..7fe7092 100644
--- a/src/primitive/column.c
+++ b/src/primitive/column.c
@@ -8,6 +8,7 @@
 #include <primitive/table.h>
 #include <primitive/column.h>
 #include <primitive/row.h>
+#include <lib/bit.h>
 
 static inline bool __valid_name(char *name, size_t max_size)
 {
@@ -187,6 +188,15 @@ static void datablock_rem_column(struct table *table, size_t col_idx)
 				memzero(var_ptr, sizeof(*var_ptr));
 			}
 
+			/* remove column's null bit; the ones of the columns after it move along with their data */
+			for (int j = col_idx; j < table->column_count - 1; j++) {
+				if (bit_test(row->null_bitmap, j + 1, sizeof(row->null_bitmap)))
+					bit_set(row->null_bitmap, j, sizeof(row->null_bitmap));
+				else
+					bit_clear(row->null_bitmap, j, sizeof(row->null_bitmap));
+			}
+			bit_clear(row->null_bitmap, table->column_count - 1, sizeof(row->null_bitmap));
+
 			/* remove column data */
 			memmove(&row->data[data_offset],
 				&row->data[data_offset + col_prec],
-- 
2.43.0


From ae244b199acf60b478482aa155fd6d106bb68122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:54 +0000
Subject: [PATCH 35/55] fix: table_add_column: allocate variable precision
 columns of existing rows; undo on failure

---
 src/primitive/column.c | 42 ++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 40 insertions(+), 2 deletions(-)

diff --git a/src/primitive/column.c b/src/primitive/column.c
index 7fe7092..8584f55 100644
--- a/src/primitive/column.c
+++ b/src/primitive/column.c
@@ -33,17 +33,38 @@ bool table_validate_column_name(char *name)
 	return __valid_name(name, TABLE_MAX_COLUMN_NAME);
 }
 
+/* rows are zeroed-out but variable precision columns need memory of their own, as in table_insert_row */
+static bool init_added_column(struct row *row, struct column *column, size_t data_offset)
+{
+	void *ptr;
+
+	if (table_check_var_column(column)) {
+		ptr = zalloc(column->precision);
+		if (!ptr)
+			return false;
+
+		memcpy(&row->data[data_offset], &ptr, sizeof(ptr));
+	}
+
+	return true;
+}
+
 static bool datablock_add_column(struct table *table, size_t row_cur_size, size_t row_nxt_size)
 {
 	struct list_head *old_head, *new_head;
 	struct list_head *old_pos, *new_pos, *tmp_pos;
 	struct datablock *old_entry, *new_entry;
+	struct column *column;
+	size_t data_offset;
 	size_t blk_offset;
 
 	/* sanity checks */
 	if (!table || row_cur_size == row_nxt_size)
 		goto err;
 
+	column = &table->columns[table->column_count - 1];
+	data_offset = table_calc_row_data_size(table) - table_calc_column_space(column);
+
 	old_head = table->datablock_head;
 	blk_offset = 0;
 	old_entry = NULL;
@@ -79,6 +100,12 @@ static bool datablock_add_column(struct table *table, size_t row_cur_size, size_
 
 			/* copy row into new datablock */
 			memcpy(&new_entry->data[blk_offset], row, row_cur_size);
+
+			if (!init_added_column((struct row*)&new_entry->data[blk_offset], column, data_offset)) {
+				((struct row*)&new_entry->data[blk_offset])->flags.empty = true;
+				goto err_free;
+			}
+
 			blk_offset += row_nxt_size;
 		}
 	}
@@ -99,7 +126,16 @@ static bool datablock_add_column(struct table *table, size_t row_cur_size, size_
 err_free:
 	list_for_each_safe(new_pos, tmp_pos, new_head)
 	{
-		datablock_free(list_entry(new_pos, typeof(*new_entry), head));
+		new_entry = list_entry(new_pos, typeof(*new_entry), head);
+
+		/* the other columns' content still belongs to the original rows */
+		for (size_t i = 0; table_check_var_column(column) && i < (DATABLOCK_PAGE_SIZE / row_nxt_size); i++) {
+			struct row *row = (struct row*)&new_entry->data[i * row_nxt_size];
+			if (!row->flags.empty)
+				free(*(void**)&row->data[data_offset]);
+		}
+
+		datablock_free(new_entry);
 	}
 	free(new_head);
 
@@ -137,8 +173,10 @@ bool table_add_column(struct table *table, struct column *column)
 
 	/* if table isn't empty than we can to rearrange rows in datablocks */
 	if (!list_is_empty(table->datablock_head)) {
-		if (!datablock_add_column(table, row_cur_size, table_calc_row_size(table)))
+		if (!datablock_add_column(table, row_cur_size, table_calc_row_size(table))) {
+			table->column_count--;
 			return false;
+		}
 	}
 
 	return true;
-- 
2.43.0


From 020bd7fc3f2e307837b14e20ab951b031489170e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:57 +0000
Subject: [PATCH 36/55] fix: INSERT: leave the table intact and report an error
 when memory runs out

---
 src/engine/executor_insert.c | 4 +++-
 src/primitive/row.c          | 4 ++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/engine/executor_insert.c b/src/engine/executor_insert.c
index 938cd85..d84e936 100644
--- a/src/engine/executor_insert.c
+++ b/src/engine/executor_insert.c
@@ -221,8 +221,10 @@ int executor_run_insertvals_stmt(struct database *db, struct ast_ins_insvals_nod
 
 			row = zalloc(table_calc_row_size(table));
 
-			if (!row)
+			if (!row) {
+				rc = -MIDORIDB_NOMEM;
 				goto err_row_alloc;
+			}
 
 			if ((rc = build_row(table, (struct ast_ins_values_node*)entry, column_order, row, output)))
 				goto err_build_row;
diff --git a/src/primitive/row.c b/src/primitive/row.c
index 03f8674..4413829 100644
--- a/src/primitive/row.c
+++ b/src/primitive/row.c
@@ -108,7 +108,7 @@ err:
 	 */
 	pos = 0;
 	for (int i = 0; i < column_idx; i++) {
-		struct column *column = &table->columns[column_idx];
+		struct column *column = &table->columns[i];
 		if (table_check_var_column(column)) {
 			void **col_idx_ptr = (void**)&new_row->data[pos];
 			free(*col_idx_ptr);
@@ -116,7 +116,7 @@ err:
 		pos += table_calc_column_space(column);
 	}
 
-	memzero(new_row->data, table_calc_row_size(table));
+	memzero(new_row->data, table_calc_row_data_size(table));
 	new_row->flags.empty = true;
 	new_row->flags.deleted = false;
 
-- 
2.43.0


From 1d26751d565806977b80584cbfde274bc2c19b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:23 +0000
Subject: [PATCH 37/55] fix: INSERT: expressions with NULL terms or modulo zero
 evaluate to NULL instead of aborting

---
 src/engine/optimiser_insert.c | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/engine/optimiser_insert.c b/src/engine/optimiser_insert.c
index ea2ce2f..099c274 100644
--- a/src/engine/optimiser_insert.c
+++ b/src/engine/optimiser_insert.c
@@ -5,6 +5,7 @@
  *      Author: paulo
  */
 
+#include <math.h>
 #include <engine/optimiser.h>
 
 static void negate(struct ast_ins_exprval_node *in, struct ast_ins_exprval_node *out)
@@ -13,7 +14,7 @@ static void negate(struct ast_ins_exprval_node *in, struct ast_ins_exprval_node
 		out->int_val = in->int_val * -1;
 	} else if (in->value_type.is_approxnum) {
 		out->double_val = in->double_val * -1;
-	} else {
+	} else if (!in->value_type.is_null) {
 		BUG_GENERIC();
 	}
 	memcpy(&out->value_type, &in->value_type, sizeof(out->value_type));
@@ -48,8 +49,15 @@ static void calcd(struct ast_ins_exprop_node *op, struct ast_ins_exprval_node *v
 			result = val_2->double_val / val_1->double_val;
 		}
 	} else if (op->op_type == AST_INS_EXPR_OP_MOD) {
-		/* C doesn't support modulo operation on double data type. Replicating SQLite behaviour */
-		result = (double)(((int)val_2->double_val) % ((int)val_1->double_val));
+		if (trunc(val_1->double_val) == 0.0) {
+			/* same as the division by 0 */
+			out->value_type.is_approxnum = false;
+			out->value_type.is_null = true;
+			result = 0;
+		} else {
+			/* C doesn't support modulo operation on double data type. Replicating SQLite behaviour */
+			result = fmod(trunc(val_2->double_val), trunc(val_1->double_val));
+		}
 	} else {
 		BUG_GENERIC();
 	}
@@ -82,11 +90,23 @@ static void calci(struct ast_ins_exprop_node *op, struct ast_ins_exprval_node *v
 			out->value_type.is_intnum = false;
 			out->value_type.is_null = true;
 			result = 0;
+		} else if (val_1->int_val == -1) {
+			/* INT64_MIN / -1 traps on some architectures */
+			result = (int64_t)(0 - (uint64_t)val_2->int_val);
 		} else {
 			result = val_2->int_val / val_1->int_val;
 		}
 	} else if (op->op_type == AST_INS_EXPR_OP_MOD) {
-		result = val_2->int_val % val_1->int_val;
+		if (val_1->int_val == 0) {
+			/* same as the division by 0 */
+			out->value_type.is_intnum = false;
+			out->value_type.is_null = true;
+			result = 0;
+		} else if (val_1->int_val == -1) {
+			result = 0;
+		} else {
+			result = val_2->int_val % val_1->int_val;
+		}
 	} else {
 		BUG_GENERIC();
 	}
@@ -140,6 +160,8 @@ static int resolve_math_expr(struct ast_node **node, struct query_output *output
 	/* calculating the result of that operation */
 	if (val_1->value_type.is_negation) {
 		negate(val_2, val_1);
+	} else if (val_1->value_type.is_null) {
+		/* the term is NULL already, nothing else to be done */
 	} else if (val_1->value_type.is_intnum) {
 		calci(op, val_1, val_2, val_1);
 	} else if (val_1->value_type.is_approxnum) {
-- 
2.43.0


From 83ee32a57e4695f9b18734b9755e1f3787efc91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:25 +0000
Subject: [PATCH 38/55] fix: INSERT: reject expressions that evaluate to NULL
 for NOT NULL columns

---
 src/engine/executor_insert.c | 45 ++++++++++++++++++++++++++++++++++++
 1 file changed, 45 insertions(+)

diff --git a/src/engine/executor_insert.c b/src/engine/executor_insert.c
index d84e936..47ee732 100644
--- a/src/engine/executor_insert.c
+++ b/src/engine/executor_insert.c
@@ -191,6 +191,46 @@ static void build_column_order(struct table *table, struct ast_ins_insvals_node
 	}
 }
 
+/*
+ * explicit NULLs have been ruled out during the semantic analysis. However, math expressions can still become NULL once
+ * they are resolved by the optimiser.
+ */
+static bool check_not_null_columns(struct table *table, struct ast_ins_insvals_node *ins_node, int *column_order,
+		struct query_output *output)
+{
+	struct list_head *pos1, *pos2;
+	struct ast_node *entry;
+	struct ast_ins_exprval_node *exprval_entry;
+	struct column *column;
+	int val_pos;
+
+	list_for_each(pos1, ins_node->node_children_head)
+	{
+		entry = list_entry(pos1, typeof(*entry), head);
+
+		if (entry->node_type != AST_TYPE_INS_VALUES)
+			continue;
+
+		val_pos = 0;
+		list_for_each(pos2, entry->node_children_head)
+		{
+			exprval_entry = list_entry(pos2, typeof(*exprval_entry), head);
+			column = &table->columns[column_order[val_pos]];
+
+			if (exprval_entry->value_type.is_null && !column->nullable) {
+				snprintf(output->error.message, sizeof(output->error.message) - 1,
+						"NOT NULL constraint failed: %s.%s\n",
+						table->name, column->name);
+				return false;
+			}
+
+			val_pos++;
+		}
+	}
+
+	return true;
+}
+
 int executor_run_insertvals_stmt(struct database *db, struct ast_ins_insvals_node *ins_node,
 		struct query_output *output)
 {
@@ -213,6 +253,11 @@ int executor_run_insertvals_stmt(struct database *db, struct ast_ins_insvals_nod
 	/* columns can be specified in an order that's different from the order defined in the CREATE stmt */
 	build_column_order(table, ins_node, column_order, ARR_SIZE(column_order));
 
+	if (!check_not_null_columns(table, ins_node, column_order, output)) {
+		rc = -MIDORIDB_ERROR;
+		goto err;
+	}
+
 	list_for_each(pos, ins_node->node_children_head)
 	{
 		entry = list_entry(pos, typeof(*entry), head);
-- 
2.43.0


From 1af83d49513cb32e4e0326126ffb9ffa21ee1318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:01 +0000
Subject: [PATCH 39/55] fix: execute statements of concurrent threads one at a
 time

---
 src/engine/database.c        | 6 ++++++
 src/engine/executor_create.c | 6 ------
 src/engine/query.c           | 9 +++++++++
 3 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/engine/database.c b/src/engine/database.c
index d729a2e..9fd302b 100644
--- a/src/engine/database.c
+++ b/src/engine/database.c
@@ -19,8 +19,13 @@ int database_open(struct database *db)
 	if (!hashtable_init(db->tables, &hashtable_str_compare, &hashtable_str_hash))
 		goto err_ht_init;
 
+	if (pthread_mutex_init(&db->mutex, NULL))
+		goto err_mutex;
+
 	return MIDORIDB_OK;
 
+err_mutex:
+	hashtable_free(db->tables);
 err_ht_init:
 	free(db->tables);
 err:
@@ -52,6 +57,7 @@ void database_close(struct database *db)
 	hashtable_free(db->tables);
 	free(db->tables);
 	db->tables = NULL;
+	pthread_mutex_destroy(&db->mutex);
 }
 
 int database_lock(struct database *db)
diff --git a/src/engine/executor_create.c b/src/engine/executor_create.c
index da4ad76..6d3c26f 100644
--- a/src/engine/executor_create.c
+++ b/src/engine/executor_create.c
@@ -70,9 +70,6 @@ int executor_run_create_stmt(struct database *db, struct ast_crt_create_node *cr
 	struct table *table;
 	int rc = MIDORIDB_OK;
 
-	if ((rc = database_lock(db)))
-		goto err;
-
 	/* evaluate the "IF NOT EXISTS" option, leave early if so */
 	if (create_node->if_not_exists && database_table_exists(db, create_node->table_name))
 		goto early_ret;
@@ -100,7 +97,6 @@ int executor_run_create_stmt(struct database *db, struct ast_crt_create_node *cr
 
 early_ret:
 	output->n_rows_aff = 0;
-	database_unlock(db);
 
 	return rc;
 
@@ -108,8 +104,6 @@ err_add_col:
 	//TODO free columns added so far
 	free(table);
 err_tbl_init:
-	database_unlock(db);
-err:
 	snprintf(output->error.message,
 			sizeof(output->error.message) - 1,
 			"Internal error at %s", __func__);
diff --git a/src/engine/query.c b/src/engine/query.c
index 32a8df5..36caa38 100644
--- a/src/engine/query.c
+++ b/src/engine/query.c
@@ -45,6 +45,12 @@ struct query_output* query_execute(struct database *db, char *query)
 	if (!output)
 		goto err;
 
+	/* until tables can be locked individually, statements are executed one at a time */
+	if (database_lock(db)) {
+		snprintf(output->error.message, sizeof(output->error.message) - 1, "error while locking the database\n");
+		goto err_lock;
+	}
+
 	if (!queue_init(&queue)) {
 		snprintf(output->error.message, sizeof(output->error.message) - 1, "error while initialising query\n");
 		goto err_init_queue;
@@ -92,6 +98,7 @@ struct query_output* query_execute(struct database *db, char *query)
 	/* clean up */
 	queue_free(&queue);
 	ast_free(node);
+	database_unlock(db);
 
 	return output;
 
@@ -103,6 +110,8 @@ err_build_ast:
 err_syntax_parser:
 	queue_free(&queue);
 err_init_queue:
+	database_unlock(db);
+err_lock:
 	output->status = ST_ERROR;
 err:
 	return output;
-- 
2.43.0


From 5d85238b9b0d726c52accfd6bce7e84743c6ab02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:03 +0000
Subject: [PATCH 40/55] fix: CREATE TABLE: release the table and report an
 error when it can not be added

---
 src/engine/executor_create.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/engine/executor_create.c b/src/engine/executor_create.c
index 6d3c26f..baabafc 100644
--- a/src/engine/executor_create.c
+++ b/src/engine/executor_create.c
@@ -93,16 +93,17 @@ int executor_run_create_stmt(struct database *db, struct ast_crt_create_node *cr
 		}
 	}
 
-	rc = database_table_add(db, table);
+	if ((rc = database_table_add(db, table)))
+		goto err_add_tbl;
 
 early_ret:
 	output->n_rows_aff = 0;
 
 	return rc;
 
+err_add_tbl:
 err_add_col:
-	//TODO free columns added so far
-	free(table);
+	table_destroy(&table);
 err_tbl_init:
 	snprintf(output->error.message,
 			sizeof(output->error.message) - 1,
-- 
2.43.0


From 1260e72c0e6167ad33166b1680926555fd0c7196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:15 +0000
Subject: [PATCH 41/55] fix: vector_push: keep the data when memory runs out

---
 src/datastructure/vector.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/datastructure/vector.c b/src/datastructure/vector.c
index d8ae49e..d2b5886 100644
--- a/src/datastructure/vector.c
+++ b/src/datastructure/vector.c
@@ -26,6 +26,7 @@ bool vector_init(struct vector *vec)
 bool vector_push(struct vector *vec, void *data, size_t len)
 {
 	size_t new_cap;
+	char *new_data;
 
 	/* sanity checks */
 	if (!vec || !data || len == 0)
@@ -34,12 +35,13 @@ bool vector_push(struct vector *vec, void *data, size_t len)
 	/* does the vector need to grow? */
 	if (vec->len + len > vec->capacity / 2) {
 		new_cap = (vec->len + len) * 3;
-		vec->data = realloc(vec->data, new_cap);
-		memzero(vec->data + vec->len, new_cap - vec->len);
+		new_data = realloc(vec->data, new_cap);
 
-		if (!vec->data)
+		if (!new_data)
 			return false;
 
+		memzero(new_data + vec->len, new_cap - vec->len);
+		vec->data = new_data;
 		vec->capacity = new_cap;
 	}
 
-- 
2.43.0


From 73c16a462659b5ae6ac0fe03123429ed88fb1931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:39 +0000
Subject: [PATCH 42/55] fix: btree_lookup: do not find keys that have been
 removed

---
 src/datastructure/btree.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/datastructure/btree.c b/src/datastructure/btree.c
index 7e064ae..0896e8f 100644
--- a/src/datastructure/btree.c
+++ b/src/datastructure/btree.c
@@ -73,7 +73,7 @@ static struct btree_node_tuple* btree_search(struct btree_head *head, struct btr
 	while (i < node->key_count && head->cmp_fn(key, node->keys[i].key) > 0)
 		i++;
 
-	if (node->keys[i].key && head->cmp_fn(node->keys[i].key, key) == 0)
+	if (i < node->key_count && head->cmp_fn(node->keys[i].key, key) == 0)
 		return &node->keys[i];
 
 	if (node->is_leaf)
-- 
2.43.0


From 7fa6c7152b26aa0ff4375412704feeeac1e2563a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:45 +0000
Subject: [PATCH 43/55] fix: SELECT: reject tables referred to by name when
 they have an alias and aliases of fields and COUNT

---
 src/engine/executor_select.c |  7 +++++++
 src/parser/semantic_select.c | 18 +++++++++++++-----
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/engine/executor_select.c b/src/engine/executor_select.c
index 57c5048..4614cd7 100644
--- a/src/engine/executor_select.c
+++ b/src/engine/executor_select.c
@@ -1731,6 +1731,13 @@ static bool check_stmt_supported(struct ast_node *node, struct query_output *out
 			return false;
 		}
 
+		/* tables are the only ones that can have an alias */
+		if (node->node_type == AST_TYPE_SEL_ALIAS && tmp_entry->node_type != AST_TYPE_SEL_TABLE) {
+			snprintf(output->error.message, sizeof(output->error.message),
+					"execution phase: aliases of fields and COUNT are not supported\n");
+			return false;
+		}
+
 		if (!check_stmt_supported(tmp_entry, output))
 			return false;
 	}
diff --git a/src/parser/semantic_select.c b/src/parser/semantic_select.c
index d619c24..2744799 100644
--- a/src/parser/semantic_select.c
+++ b/src/parser/semantic_select.c
@@ -2320,16 +2320,21 @@ static struct sem_check_val_types check_value_types_logop(struct ast_sel_logop_n
 
 static struct sem_check_val_types check_value_types_fieldname(struct ast_sel_fieldname_node *field_node, struct hashtable *ht, char *out_err, size_t out_err_len)
 {
-	UNUSED(out_err);
-	UNUSED(out_err_len);
-
 	struct sem_check_val_types ret = {0};
 	struct hashtable_value *ht_value;
 	char key[FQFIELD_NAME_LEN] = {0};
 
 	snprintf(key, sizeof(key) - 1, "%s.%s", field_node->table_name, field_node->col_name);
 	ht_value = hashtable_get(ht, key, strlen(key) + 1);
-	BUG_ON(!ht_value); // sanity check
+
+	/* tables that have an alias can only be referred to by it */
+	if (!ht_value) {
+		snprintf(out_err, out_err_len, "no such column: '%.128s.%.128s'\n", field_node->table_name,
+				field_node->col_name);
+		ret.invalid = true;
+		return ret;
+	}
+
 	ret.type = *(enum COLUMN_TYPE*)ht_value->content;
 
 	return ret;
@@ -2365,7 +2370,10 @@ static struct sem_check_val_types check_value_types_isxin(struct ast_sel_isxin_n
 				ht_value = hashtable_get(ht, key, strlen(key) + 1);
 			}
 
-			BUG_ON(!ht_value); // sanity check
+			if (!ht_value) {
+				snprintf(out_err, out_err_len, "no such column in IN-clause\n");
+				goto err;
+			}
 			expected_type = *(enum COLUMN_TYPE*)ht_value->content;
 		} else {
 			// sanity check
-- 
2.43.0


From fc3239bef8657086a377770d7eae690ddcb199a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:43 +0000
Subject: [PATCH 44/55] fix: accept comments between NOT and EXISTS

---
 src/parser/midorisql.l | 3 +--
 src/parser/midorisql.y | 5 ++---
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/parser/midorisql.l b/src/parser/midorisql.l
index 1005366..3d587df 100644
--- a/src/parser/midorisql.l
+++ b/src/parser/midorisql.l
@@ -40,8 +40,7 @@ DISTINCT	{ return DISTINCT; }
 DOUBLE	{ return DOUBLE; }
 ELSE	{ return ELSE; }
 END	{ return END; }
-EXISTS	{ yylval->subtok = 0; return EXISTS; }
-NOT[ \t\n]+EXISTS	{ yylval->subtok = 1; return EXISTS; }
+EXISTS	{ return EXISTS; }
 EXPLAIN	{ return EXPLAIN; }
 FROM	{ return FROM; }
 GROUP	{ return GROUP; }
diff --git a/src/parser/midorisql.y b/src/parser/midorisql.y
index f182d2e..f46cbb0 100644
--- a/src/parser/midorisql.y
+++ b/src/parser/midorisql.y
@@ -85,7 +85,7 @@ int yylex(void*, void*);
 %token DOUBLE
 %token ELSE
 %token END
-%token <subtok> EXISTS
+%token EXISTS
 %token EXPLAIN
 %token FROM
 %token GROUP
@@ -451,8 +451,7 @@ update_val_list: update_expr				{ $$ = 1; }
    /** create table **/
 
 opt_if_not_exists:  /* nil */ { $$ = 0; }
-   | IF EXISTS           { if(!$2) yyerror(result, scanner, "IF EXISTS doesn't exist");
-                        $$ = $2; /* NOT EXISTS hack */ }
+   | IF NOT EXISTS       { $$ = 1; }
    ;
 
 stmt: create_table_stmt { emit(result, "STMT"); }
-- 
2.43.0


From ce27739d539648e4b94ef7ab14baa6a14d3d0e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:25 +0000
Subject: [PATCH 45/55] fix: parser: report an error instead of crashing or
 dropping parts of the statement when out of memory

---
 src/parser/midorisql.l | 35 +++++++++++++++++++++++------------
 src/parser/midorisql.y | 18 ++++++++++++++++--
 src/parser/syntax.c    | 13 ++++++++++++-
 3 files changed, 51 insertions(+), 15 deletions(-)

diff --git a/src/parser/midorisql.l b/src/parser/midorisql.l
index 3d587df..b55244c 100644
--- a/src/parser/midorisql.l
+++ b/src/parser/midorisql.l
@@ -3,10 +3,24 @@
 %{
 #include "midorisql.tab.h"
 #include <errno.h>
+#include <setjmp.h>
 void yyerror(void*, void*, char *s, ...);
 int oldstate;
 
-#define YY_FATAL_ERROR(msg) yyerror(NULL, yyscanner, msg)
+/* the scanner can't carry on: back to syntax_parse, which has set the extra data */
+#define YY_FATAL_ERROR(msg) 						\
+	do { 								\
+		yyerror(NULL, yyscanner, msg); 				\
+		longjmp(*(jmp_buf*)yyget_extra(yyscanner), 1); 		\
+	} while (0)
+
+/* text of a token that carries one */
+#define TOKEN(str, token) 						\
+	do { 								\
+		if (!(yylval->strval = strdup(str))) 			\
+			return YYUNDEF; 				\
+		return token; 						\
+	} while (0)
 %}
 
 %x COMMENT
@@ -100,19 +114,19 @@ FALSE	{ yylval->intval = 0; return BOOL; }
    /* strings */
 
 '(\\.|''|[^'\n])*'	|
-\"(\\.|\"\"|[^"\n])*\"  { yylval->strval = strdup(yytext); return STRING; }
+\"(\\.|\"\"|[^"\n])*\"  { TOKEN(yytext, STRING); }
 
 '(\\.|[^'\n])*$	        { yyerror(NULL, yyscanner, "Unterminated string %s", yytext); return YYUNDEF; }
 \"(\\.|[^"\n])*$	{ yyerror(NULL, yyscanner, "Unterminated string %s", yytext); return YYUNDEF; }
 
    /* hex strings */
 X'[0-9A-F]+' |  
-0X[0-9A-F]+  { yylval->strval = strdup(yytext); return STRING; }
+0X[0-9A-F]+  { TOKEN(yytext, STRING); }
 
    /* bit strings */
 
 0B[01]+      |
-B'[01]+'     { yylval->strval = strdup(yytext); return STRING; }
+B'[01]+'     { TOKEN(yytext, STRING); }
 
 
    /* operators */
@@ -140,14 +154,11 @@ B'[01]+'     { yylval->strval = strdup(yytext); return STRING; }
          */
 COUNT    { int c = input(yyscanner); unput(c);
            if(c == '(') {return FCOUNT;}
-           yylval->strval = strdup(yytext);
-           return NAME; }
-
-[A-Za-z][A-Za-z0-9_]*	{ yylval->strval = strdup(yytext);
-                          return NAME; }
-`[^`/\\.\n]+`           { yylval->strval = strdup(yytext+1);
-                          yylval->strval[yyleng-2] = 0;
-                          return NAME; }
+           TOKEN(yytext, NAME); }
+
+[A-Za-z][A-Za-z0-9_]*	{ TOKEN(yytext, NAME); }
+`[^`/\\.\n]+`           { yytext[yyleng-1] = 0;
+                          TOKEN(yytext+1, NAME); }
 
 `[^`\n]*$               { yyerror(NULL, yyscanner, "unterminated quoted name %s", yytext); return YYUNDEF; }
 
diff --git a/src/parser/midorisql.y b/src/parser/midorisql.y
index f46cbb0..4745a17 100644
--- a/src/parser/midorisql.y
+++ b/src/parser/midorisql.y
@@ -11,6 +11,10 @@ void yyerror(struct queue*, void*, const char *, ...);
 bool emit(struct queue *q, char *s, ...);
 bool emit_float(struct queue *q, double val);
 int yylex(void*, void*);
+
+/* a statement that could not be recorded in full (out of memory) must not be executed: see stmt_list */
+#define emit(...) do { if (!(emit)(__VA_ARGS__)) yynerrs++; } while (0)
+#define emit_float(...) do { if (!(emit_float)(__VA_ARGS__)) yynerrs++; } while (0)
 %}
 
 %code requires { 
@@ -147,8 +151,15 @@ int yylex(void*, void*);
 
 %%
 
-stmt_list: stmt ';'
-  | stmt_list stmt ';'
+stmt_list: complete_stmt
+  | stmt_list complete_stmt
+  ;
+
+complete_stmt: stmt ';' {
+	 if (yynerrs) {
+		yyerror(result, scanner, "out of memory");
+		YYABORT;
+	 } }
   ;
 
    /* statements: select statement */
@@ -529,6 +540,9 @@ void yyerror(struct queue *q, void* scanner, const char *s, ...)
 	va_end(ap);
 }
 
+#undef emit
+#undef emit_float
+
 bool emit(struct queue *q, char *s, ...)
 {
 	char *buf;
diff --git a/src/parser/syntax.c b/src/parser/syntax.c
index 0674de5..6392af8 100644
--- a/src/parser/syntax.c
+++ b/src/parser/syntax.c
@@ -9,11 +9,13 @@
 #include <midorisql.tab.h>
 #include <midorisql.yy.h>
 #include <errno.h>
+#include <setjmp.h>
 
 int syntax_parse(char *in, struct queue *out)
 {
 	yyscan_t sc;
 	YY_BUFFER_STATE bs;
+	jmp_buf env;
 	int res;
 
 	/* sanity check */
@@ -21,11 +23,20 @@ int syntax_parse(char *in, struct queue *out)
 
 	if (yylex_init(&sc)) {
 		res = errno;
-		if (!queue_offer(out, strerror(res), strlen(strerror(res))))
+		if (!queue_offer(out, strerror(res), strlen(strerror(res)) + 1))
 			fprintf(stderr, "error while gathering parser error \n");
 		return res;
 	}
 
+	/* the scanner ends up here when it runs out of memory */
+	yyset_extra(&env, sc);
+	if (setjmp(env)) {
+		yylex_destroy(sc);
+		if (!queue_offer(out, "out of memory", sizeof("out of memory")))
+			fprintf(stderr, "error while gathering parser error \n");
+		return ENOMEM;
+	}
+
 	bs = yy_scan_string(in, sc);
 	res = yyparse(out, sc);
 	yy_delete_buffer(bs, sc);
-- 
2.43.0


From b3c01625f279bad9c9eaa906b0c070ca165b6702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:54 +0000
Subject: [PATCH 46/55] fix: parser: table name released twice when a syntax
 error follows it in SELECT

---
 src/parser/midorisql.y | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser/midorisql.y b/src/parser/midorisql.y
index 4745a17..b734758 100644
--- a/src/parser/midorisql.y
+++ b/src/parser/midorisql.y
@@ -231,7 +231,10 @@ table_reference:  table_factor
   | join_table
   ;
 
-table_factor: NAME { emit(result, "TABLE %s", $1); free($1); } opt_as_alias  
+table_factor: table_name opt_as_alias
+	    ;
+
+table_name: NAME { emit(result, "TABLE %s", $1); free($1); }
 	    ;
 
 opt_as_alias: AS NAME { emit (result, "ALIAS %s", $2); free($2); }
-- 
2.43.0


From 6bd6f5392cdd999677afaf7b8c743a823e635a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:43 +0000
Subject: [PATCH 47/55] fix: SELECT: release the parts of the synthetic join
 that exist when memory runs out

---
 src/engine/optimiser_select.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/engine/optimiser_select.c b/src/engine/optimiser_select.c
index ad4eaaa..2b2764a 100644
--- a/src/engine/optimiser_select.c
+++ b/src/engine/optimiser_select.c
@@ -448,18 +448,18 @@ int wrap_on_join_node(struct ast_node *left, struct ast_node *right)
 err_head:
 	free(join_node);
 err_node:
-err_onexpr:
-	/*ast_node is recursive so it will take care of cmp_node */
+	/*ast_node is recursive so it will take care of cmp_node and exprvals */
 	ast_free((struct ast_node*)onexpr_node);
 	return -MIDORIDB_INTERNAL;
-err_cmp:
-	/*ast_node is recursive so it will take care of exprval */
+err_onexpr:
+	/*ast_node is recursive so it will take care of exprvals */
 	ast_free((struct ast_node*)cmp_node);
 	return -MIDORIDB_INTERNAL;
-err_val_2:
+err_cmp:
 	ast_free((struct ast_node*)val_node_2);
-err_val_1:
+err_val_2:
 	ast_free((struct ast_node*)val_node_1);
+err_val_1:
 	return -MIDORIDB_INTERNAL;
 }
 
-- 
2.43.0


From d82823f7850eaf01d460d6c142d05fce8c0b4197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:18 +0000
Subject: [PATCH 48/55] fix: lexer: statement that ends right after COUNT
 crashed

---
 src/parser/midorisql.l | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/parser/midorisql.l b/src/parser/midorisql.l
index b55244c..03ca873 100644
--- a/src/parser/midorisql.l
+++ b/src/parser/midorisql.l
@@ -152,9 +152,7 @@ B'[01]+'     { TOKEN(yytext, STRING); }
 	/* 
          * peek ahead and return function if name(
          */
-COUNT    { int c = input(yyscanner); unput(c);
-           if(c == '(') {return FCOUNT;}
-           TOKEN(yytext, NAME); }
+COUNT/"("	{ return FCOUNT; }
 
 [A-Za-z][A-Za-z0-9_]*	{ TOKEN(yytext, NAME); }
 `[^`/\\.\n]+`           { yytext[yyleng-1] = 0;
-- 
2.43.0


From 036c5b28139b133db5353c30879b42d4e4f65fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:20 +0000
Subject: [PATCH 49/55] fix: SELECT: reject aliases of unsupported expressions
 and columns in LIMIT instead of aborting

---
 src/engine/optimiser_select.c | 18 ++++++++---
 src/parser/semantic_select.c  | 58 ++++++++++++++++++++++-------------
 2 files changed, 50 insertions(+), 26 deletions(-)

diff --git a/src/engine/optimiser_select.c b/src/engine/optimiser_select.c
index 2b2764a..0bc9706 100644
--- a/src/engine/optimiser_select.c
+++ b/src/engine/optimiser_select.c
@@ -126,6 +126,13 @@ static int replace_expr_name(struct database *db, struct ast_node *node, struct
 		if (!hashtable_get(out_col_alias, val_node->name_val, strlen(val_node->name_val) + 1)) {
 			table = table_with_column_name(db, root, val_node->name_val);
 
+			/* clauses whose columns aren't checked, such as LIMIT */
+			if (!table) {
+				snprintf(output->error.message, sizeof(output->error.message),
+						"optimiser phase: no such column: '%.128s'\n", val_node->name_val);
+				return -MIDORIDB_ERROR;
+			}
+
 			/* init new fieldname node */
 			if (!(new_field = zalloc(sizeof(*new_field))))
 				goto err;
@@ -160,7 +167,8 @@ err:
 	return -MIDORIDB_NOMEM;
 }
 
-static int replace_fieldname(struct database *db, struct ast_node *node, struct hashtable *out_tbl_alias)
+static int replace_fieldname(struct database *db, struct ast_node *node, struct query_output *output,
+		struct hashtable *out_tbl_alias)
 {
 	struct ast_sel_fieldname_node *field_node;
 	struct hashtable_value *lookup;
@@ -175,8 +183,10 @@ static int replace_fieldname(struct database *db, struct ast_node *node, struct
 	} else if (database_table_exists(db, field_node->table_name)) {
 		/* user specified the fqfield - silly but still valid.. so do nothing  */
 	} else {
-		/* is this something that I haven't foreseen? */
-		BUG_GENERIC();
+		/* clauses whose columns aren't checked, such as LIMIT */
+		snprintf(output->error.message, sizeof(output->error.message),
+				"optimiser phase: no such table: '%.128s'\n", field_node->table_name);
+		return -MIDORIDB_ERROR;
 	}
 
 	return MIDORIDB_OK;
@@ -248,7 +258,7 @@ static int replace_simple_expr(struct database *db, struct ast_node *node, struc
 		if ((ret = replace_expr_name(db, node, root, output, out_col_alias)))
 			return ret;
 	} else if (node->node_type == AST_TYPE_SEL_FIELDNAME) {
-		if ((ret = replace_fieldname(db, node, out_tbl_alias)))
+		if ((ret = replace_fieldname(db, node, output, out_tbl_alias)))
 			return ret;
 	} else if (node->node_type == AST_TYPE_SEL_SELECTALL) {
 		if ((ret = replace_selectall(db, root, root, output)))
diff --git a/src/parser/semantic_select.c b/src/parser/semantic_select.c
index 2744799..759c6a1 100644
--- a/src/parser/semantic_select.c
+++ b/src/parser/semantic_select.c
@@ -280,8 +280,9 @@ static bool check_column_alias(struct database *db, struct ast_node *root, char
 				/* table nodes are not used in this validation, so just move on */
 				continue;
 			} else {
-				/* is there an edge case that I haven't foreseen */
-				BUG_GENERIC();
+				/* comparisons, logical operators, [NOT] IN, IS [NOT] NULL, LIKE... */
+				snprintf(out_err, out_err_len, "expression with alias '%.128s' is not supported\n", key);
+				return false;
 			}
 
 			/* is the name valid? column aliases follow table nomenclature rules */
@@ -2448,7 +2449,14 @@ static struct sem_check_val_types __check_value_types(struct ast_node *node, str
 
 		if (val_node->value_type.is_name) {
 			ht_value = hashtable_get(ht, val_node->name_val, strlen(val_node->name_val) + 1);
-			BUG_ON(!ht_value); // sanity check
+
+			/* clauses in which columns aren't allowed, such as LIMIT */
+			if (!ht_value) {
+				snprintf(out_err, out_err_len, "column '%.128s' can't be used here\n", val_node->name_val);
+				ret.invalid = true;
+				return ret;
+			}
+
 			ret.type = *(enum COLUMN_TYPE*)ht_value->content;
 		} else if (val_node->value_type.is_approxnum) {
 			ret.type = CT_DOUBLE;
@@ -2572,7 +2580,7 @@ static bool build_column_value_types_ht(struct database *db, struct ast_node *no
 	return true;
 }
 
-static enum COLUMN_TYPE extract_alias_types(struct ast_node *node, struct ast_sel_alias_node *alias_node, struct hashtable *ht, char *out_err, size_t out_err_len)
+static bool extract_alias_types(struct ast_node *node, struct ast_sel_alias_node *alias_node, struct hashtable *ht, enum COLUMN_TYPE *col_type, char *out_err, size_t out_err_len)
 {
 	struct list_head *pos;
 	struct ast_node *tmp_entry;
@@ -2580,27 +2588,27 @@ static enum COLUMN_TYPE extract_alias_types(struct ast_node *node, struct ast_se
 	struct ast_sel_fieldname_node *field_node;
 	struct hashtable_value *ht_value;
 	char lookup_key[FQFIELD_NAME_LEN] = {0};
-	enum COLUMN_TYPE col_type = 0;
 
 	if (node->node_type == AST_TYPE_SEL_EXPRVAL) {
 		val_node = (typeof(val_node))node;
 
 		if (val_node->value_type.is_intnum) {
-			col_type = CT_INTEGER;
+			*col_type = CT_INTEGER;
 		} else if (val_node->value_type.is_approxnum) {
-			col_type = CT_DOUBLE;
+			*col_type = CT_DOUBLE;
 		} else if (val_node->value_type.is_bool) {
-			col_type = CT_TINYINT;
+			*col_type = CT_TINYINT;
 		} else if (val_node->value_type.is_str) {
-			col_type = CT_VARCHAR;
+			*col_type = CT_VARCHAR;
 		} else if (val_node->value_type.is_name) {
 			ht_value = hashtable_get(ht, val_node->name_val, strlen(val_node->name_val) + 1);
-			BUG_ON(!ht_value);
+			if (!ht_value)
+				goto err;
 
-			col_type = *(enum COLUMN_TYPE*)ht_value->content;
+			*col_type = *(enum COLUMN_TYPE*)ht_value->content;
 		} else {
-			// most likely a new column type has been added
-			BUG_GENERIC();
+			/* NULL (or a new column type) */
+			goto err;
 		}
 
 	} else if (node->node_type == AST_TYPE_SEL_EXPROP) {
@@ -2609,13 +2617,13 @@ static enum COLUMN_TYPE extract_alias_types(struct ast_node *node, struct ast_se
 		{
 			tmp_entry = list_entry(pos, typeof(*tmp_entry), head);
 
-			col_type = extract_alias_types(tmp_entry, alias_node, ht, out_err, out_err_len);
-			break; /* single instance is fine as they are supposed to match type-wise */
+			/* single instance is fine as they are supposed to match type-wise */
+			return extract_alias_types(tmp_entry, alias_node, ht, col_type, out_err, out_err_len);
 		}
 
 	} else if (node->node_type == AST_TYPE_SEL_COUNT) {
 		/* COUNT function such as SELECT COUNT(f1) as val FROM a; */
-		col_type = CT_INTEGER;
+		*col_type = CT_INTEGER;
 	} else if (node->node_type == AST_TYPE_SEL_FIELDNAME) {
 		field_node = (typeof(field_node))node;
 
@@ -2624,17 +2632,21 @@ static enum COLUMN_TYPE extract_alias_types(struct ast_node *node, struct ast_se
 				field_node->col_name);
 
 		ht_value = hashtable_get(ht, lookup_key, strlen(lookup_key) + 1);
-		BUG_ON(!ht_value);
+		if (!ht_value)
+			goto err;
 
-		col_type = *(enum COLUMN_TYPE*)ht_value->content;
+		*col_type = *(enum COLUMN_TYPE*)ht_value->content;
 
 	} else {
-		/* is there an edge case that I haven't foreseen */
-		BUG_GENERIC();
+		goto err;
 	}
 
-	return col_type;
+	return true;
 
+err:
+	snprintf(out_err, out_err_len, "type of the expression with alias '%.128s' is not supported\n",
+			alias_node->alias_value);
+	return false;
 }
 
 static bool build_alias_value_types_ht(struct ast_node *node, struct hashtable *ht, char *out_err, size_t out_err_len)
@@ -2658,7 +2670,9 @@ static bool build_alias_value_types_ht(struct ast_node *node, struct hashtable *
 			}
 
 			strcpy(key, alias_node->alias_value);
-			col_type = extract_alias_types(tmp_entry, alias_node, ht, out_err, out_err_len);
+			col_type = 0;
+			if (!extract_alias_types(tmp_entry, alias_node, ht, &col_type, out_err, out_err_len))
+				return false;
 
 			if (!hashtable_put(ht, key, strlen(key) + 1, &col_type, sizeof(col_type))) {
 				snprintf(out_err, out_err_len, "semantic phase: internal error\n");
-- 
2.43.0


From 1ec2b01cf50ba111d4981d585e4ba7018a2608bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:23 +0000
Subject: [PATCH 50/55] fix: report an error when a token's regular expression
 cannot be compiled

---
 src/lib/regex.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib/regex.c b/src/lib/regex.c
index 6843123..ac6e07c 100644
--- a/src/lib/regex.c
+++ b/src/lib/regex.c
@@ -15,7 +15,9 @@ bool regex_ext_match_grp(const char *text, const char *exp, struct stack *out)
 	char *match;
 	int num_matches;
 
-	BUG_ON(regcomp(&regex, exp, REG_EXTENDED));
+	if (regcomp(&regex, exp, REG_EXTENDED))
+		goto err;
+
 	num_matches = regex.re_nsub + 1;
 
 	matches = calloc(num_matches, sizeof(*matches));
-- 
2.43.0


From 66eaf701ff3cc4b4733780b1e657eafc4b1baba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:15 +0000
Subject: [PATCH 51/55] fix: accept every white space character between tokens

---
 src/parser/midorisql.l | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/midorisql.l b/src/parser/midorisql.l
index 03ca873..3622491 100644
--- a/src/parser/midorisql.l
+++ b/src/parser/midorisql.l
@@ -171,7 +171,7 @@ COUNT/"("	{ return FCOUNT; }
 <COMMENT><<EOF>> { yyerror(NULL, yyscanner, "unclosed comment"); return YYUNDEF; }
 
 	/* everything else */
-[ \t\n]         /* white space */
+[ \t\n\r\f\v]         /* white space */
 .               { yyerror(NULL, yyscanner, "mystery character '%c'", *yytext); return YYUNDEF; }
 
 %%
-- 
2.43.0


From 4ce5349cb120516672c4b51804de19ff98e4e622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:10 +0000
Subject: [PATCH 52/55] fix: accept a minus sign without white space before a
 number (3-1)

---
 include/parser/syntax.h |  9 +++++++++
 src/parser/midorisql.l  | 33 +++++++++++++++++++++++++++++----
 src/parser/syntax.c     |  7 +++----
 3 files changed, 41 insertions(+), 8 deletions(-)

diff --git a/include/parser/syntax.h b/include/parser/syntax.h
index 9c3ed0d..3de1bf3 100644
--- a/include/parser/syntax.h
+++ b/include/parser/syntax.h
@@ -10,6 +10,15 @@
 
 #include <compiler/common.h>
 #include <datastructure/queue.h>
+#include <setjmp.h>
+
+/* what the scanner keeps between tokens */
+struct scanner_extra {
+	/* where to go when it can't carry on */
+	jmp_buf env;
+	/* the last token can be the left operand of a minus sign */
+	bool is_operand;
+};
 
 int syntax_parse(char *in, struct queue *out);
 
diff --git a/src/parser/midorisql.l b/src/parser/midorisql.l
index 3622491..3514479 100644
--- a/src/parser/midorisql.l
+++ b/src/parser/midorisql.l
@@ -2,8 +2,8 @@
 
 %{
 #include "midorisql.tab.h"
+#include <parser/syntax.h>
 #include <errno.h>
-#include <setjmp.h>
 void yyerror(void*, void*, char *s, ...);
 int oldstate;
 
@@ -11,7 +11,7 @@ int oldstate;
 #define YY_FATAL_ERROR(msg) 						\
 	do { 								\
 		yyerror(NULL, yyscanner, msg); 				\
-		longjmp(*(jmp_buf*)yyget_extra(yyscanner), 1); 		\
+		longjmp(((struct scanner_extra*)yyget_extra(yyscanner))->env, 1); \
 	} while (0)
 
 /* text of a token that carries one */
@@ -21,6 +21,18 @@ int oldstate;
 			return YYUNDEF; 				\
 		return token; 						\
 	} while (0)
+
+/* the sign of a number that follows an operand is an operator: 3-1 */
+#define MINUS_OPERATOR() 						\
+	do { 								\
+		if (*yytext == '-' && ((struct scanner_extra*)yyextra)->is_operand) { \
+			yyless(1); 					\
+			return '-'; 					\
+		} 							\
+	} while (0)
+
+/* yylex, below, keeps track of operands */
+#define YY_DECL static int next_token(YYSTYPE *yylval_param, yyscan_t yyscanner)
 %}
 
 %x COMMENT
@@ -96,7 +108,8 @@ XOR	{ return XOR; }
 
    /* numbers */
 
--?[0-9]+	        { errno = 0;
+-?[0-9]+	        { MINUS_OPERATOR();
+                           errno = 0;
                           yylval->longval = strtoll(yytext, NULL, 10);
                           return errno ? YYUNDEF : INTNUM; }
 
@@ -104,7 +117,8 @@ XOR	{ return XOR; }
 -?"."[0-9]+	|
 -?[0-9]+E[-+]?[0-9]+	|
 -?[0-9]+"."[0-9]*E[-+]?[0-9]+ |
--?"."[0-9]*E[-+]?[0-9]+	{ yylval->floatval = atof(yytext) ;
+-?"."[0-9]*E[-+]?[0-9]+	{ MINUS_OPERATOR();
+                                  yylval->floatval = atof(yytext) ;
                                   return APPROXNUM; }
     /* booleans */
 TRUE	{ yylval->intval = 1; return BOOL; }
@@ -175,3 +189,14 @@ COUNT/"("	{ return FCOUNT; }
 .               { yyerror(NULL, yyscanner, "mystery character '%c'", *yytext); return YYUNDEF; }
 
 %%
+
+int yylex(YYSTYPE *lval, yyscan_t scanner)
+{
+	struct scanner_extra *extra = yyget_extra(scanner);
+	int token = next_token(lval, scanner);
+
+	extra->is_operand = token == INTNUM || token == APPROXNUM || token == BOOL || token == STRING
+			|| token == NULLX || token == NAME || token == ')';
+
+	return token;
+}
diff --git a/src/parser/syntax.c b/src/parser/syntax.c
index 6392af8..6c13c11 100644
--- a/src/parser/syntax.c
+++ b/src/parser/syntax.c
@@ -9,13 +9,12 @@
 #include <midorisql.tab.h>
 #include <midorisql.yy.h>
 #include <errno.h>
-#include <setjmp.h>
 
 int syntax_parse(char *in, struct queue *out)
 {
 	yyscan_t sc;
 	YY_BUFFER_STATE bs;
-	jmp_buf env;
+	struct scanner_extra extra = {0};
 	int res;
 
 	/* sanity check */
@@ -29,8 +28,8 @@ int syntax_parse(char *in, struct queue *out)
 	}
 
 	/* the scanner ends up here when it runs out of memory */
-	yyset_extra(&env, sc);
-	if (setjmp(env)) {
+	yyset_extra(&extra, sc);
+	if (setjmp(extra.env)) {
 		yylex_destroy(sc);
 		if (!queue_offer(out, "out of memory", sizeof("out of memory")))
 			fprintf(stderr, "error while gathering parser error \n");
-- 
2.43.0


From de5734ade87164b9257a22ef4dfa99089d5ce090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:50 +0000
Subject: [PATCH 53/55] fix: DATETIME 1969-12-31 23:59:59 (the second before
 the epoch) is a valid value

---
 src/engine/executor_insert.c | 5 +++--
 src/parser/semantic_delete.c | 5 +++--
 src/parser/semantic_insert.c | 5 +++--
 src/parser/semantic_select.c | 5 +++--
 src/parser/semantic_update.c | 5 +++--
 5 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/engine/executor_insert.c b/src/engine/executor_insert.c
index 47ee732..aa0ea9a 100644
--- a/src/engine/executor_insert.c
+++ b/src/engine/executor_insert.c
@@ -31,11 +31,12 @@ static int parse_date_type(struct ast_ins_exprval_node *exprval_node, enum COLUM
 	if (strptime(exprval_node->str_val, fmt, &time_struct) == NULL)
 		goto err_parse;
 
-	// Convert the time structure to a time_t value
+	// Convert the time structure to a time_t value (-1 is a valid one)
+	time_struct.tm_wday = -1;
 	*time_out = mktime(&time_struct);
 
 	// Check if the conversion was successful
-	if (*time_out == -1)
+	if (*time_out == -1 && time_struct.tm_wday == -1)
 		goto err_convert;
 
 	return rc;
diff --git a/src/parser/semantic_delete.c b/src/parser/semantic_delete.c
index 47c779e..650ac74 100644
--- a/src/parser/semantic_delete.c
+++ b/src/parser/semantic_delete.c
@@ -247,11 +247,12 @@ static bool try_parse_date_type(char *str, enum COLUMN_TYPE type)
 
 	mday = time_struct.tm_mday;
 
-	// Convert the time structure to a time_t value
+	// Convert the time structure to a time_t value (-1 is a valid one)
+	time_struct.tm_wday = -1;
 	time_out = mktime(&time_struct);
 
 	// Check if the conversion was successful
-	if (time_out == -1)
+	if (time_out == -1 && time_struct.tm_wday == -1)
 		return false;
 
 	// Days that don't exist (ex.: 2023-02-30) are normalised by mktime
diff --git a/src/parser/semantic_insert.c b/src/parser/semantic_insert.c
index 80cf0e2..2ef369e 100644
--- a/src/parser/semantic_insert.c
+++ b/src/parser/semantic_insert.c
@@ -221,11 +221,12 @@ static bool try_parse_date_type(char *str, enum COLUMN_TYPE type)
 
 	mday = time_struct.tm_mday;
 
-	// Convert the time structure to a time_t value
+	// Convert the time structure to a time_t value (-1 is a valid one)
+	time_struct.tm_wday = -1;
 	time_out = mktime(&time_struct);
 
 	// Check if the conversion was successful
-	if (time_out == -1)
+	if (time_out == -1 && time_struct.tm_wday == -1)
 		return false;
 
 	// Days that don't exist (ex.: 2023-02-30) are normalised by mktime
diff --git a/src/parser/semantic_select.c b/src/parser/semantic_select.c
index 759c6a1..5239ae8 100644
--- a/src/parser/semantic_select.c
+++ b/src/parser/semantic_select.c
@@ -75,11 +75,12 @@ static bool try_parse_date_type(char *str, enum COLUMN_TYPE type)
 
 	mday = time_struct.tm_mday;
 
-	// Convert the time structure to a time_t value
+	// Convert the time structure to a time_t value (-1 is a valid one)
+	time_struct.tm_wday = -1;
 	time_out = mktime(&time_struct);
 
 	// Check if the conversion was successful
-	if (time_out == -1)
+	if (time_out == -1 && time_struct.tm_wday == -1)
 		return false;
 
 	// Days that don't exist (ex.: 2023-02-30) are normalised by mktime
diff --git a/src/parser/semantic_update.c b/src/parser/semantic_update.c
index 4f678e9..38ee543 100644
--- a/src/parser/semantic_update.c
+++ b/src/parser/semantic_update.c
@@ -256,11 +256,12 @@ static bool try_parse_date_type(char *str, enum COLUMN_TYPE type)
 
 	mday = time_struct.tm_mday;
 
-	// Convert the time structure to a time_t value
+	// Convert the time structure to a time_t value (-1 is a valid one)
+	time_struct.tm_wday = -1;
 	time_out = mktime(&time_struct);
 
 	// Check if the conversion was successful
-	if (time_out == -1)
+	if (time_out == -1 && time_struct.tm_wday == -1)
 		return false;
 
 	// Days that don't exist (ex.: 2023-02-30) are normalised by mktime
-- 
2.43.0


From 73dfa553a1de83b07c96a6e47ddaf31552033c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:45:47 +0000
Subject: [PATCH 54/55] fix: INDEX and PRIMARY KEY clauses before the columns
 that they name were ignored, and PRIMARY KEY dropped an index

---
 src/engine/executor_create.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/engine/executor_create.c b/src/engine/executor_create.c
index baabafc..a608034 100644
--- a/src/engine/executor_create.c
+++ b/src/engine/executor_create.c
@@ -23,7 +23,9 @@ static void add_index(struct ast_crt_index_def_node *idx_def_node, struct table
 			col = &table->columns[i];
 
 			if (strncmp(col->name, entry->name, sizeof(col->name)) == 0) {
-				col->indexed = idx_def_node->is_index;
+				/* a column may be in several INDEX and PRIMARY KEY clauses */
+				if (idx_def_node->is_index)
+					col->indexed = true;
 
 				/*
 				 * When primary key is defined after the column definition,
@@ -88,11 +90,18 @@ int executor_run_create_stmt(struct database *db, struct ast_crt_create_node *cr
 		if (entry->node_type == AST_TYPE_CRT_COLUMNDEF) {
 			if ((rc = add_column((struct ast_crt_column_def_node*)entry, table)))
 				goto err_add_col;
-		} else if (entry->node_type == AST_TYPE_CRT_INDEXDEF) {
-			add_index((struct ast_crt_index_def_node*)entry, table);
 		}
 	}
 
+	/* indexes / primary keys can be declared before the columns that they refer to, hence the second pass */
+	list_for_each(pos, create_node->node_children_head)
+	{
+		entry = list_entry(pos, typeof(*entry), head);
+
+		if (entry->node_type == AST_TYPE_CRT_INDEXDEF)
+			add_index((struct ast_crt_index_def_node*)entry, table);
+	}
+
 	if ((rc = database_table_add(db, table)))
 		goto err_add_tbl;
 
-- 
2.43.0


From e894c289c87b2e60133ac4704eecabe1d782b4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:45:49 +0000
Subject: [PATCH 55/55] fix: text of the statement lost when the scanner runs
 out of memory before it has a buffer

---
 src/parser/midorisql.l | 17 +++++++++++++++++
 src/parser/syntax.c    | 23 ++++++++++++++++++++++-
 2 files changed, 39 insertions(+), 1 deletion(-)

diff --git a/src/parser/midorisql.l b/src/parser/midorisql.l
index 3514479..ef84e1f 100644
--- a/src/parser/midorisql.l
+++ b/src/parser/midorisql.l
@@ -200,3 +200,20 @@ int yylex(YYSTYPE *lval, yyscan_t scanner)
 
 	return token;
 }
+
+/* like yy_scan_buffer, which loses its buffer if the stack of buffers can't be allocated: do that first */
+YY_BUFFER_STATE scan_text(char *text, size_t size, yyscan_t yyscanner)
+{
+	struct yyguts_t *yyg = (struct yyguts_t*)yyscanner;
+	const size_t depth = 2; /* the stack grows when the last entry is used */
+
+	yyg->yy_buffer_stack = yyalloc(depth * sizeof(*yyg->yy_buffer_stack), yyscanner);
+	if (!yyg->yy_buffer_stack)
+		YY_FATAL_ERROR("out of dynamic memory in scan_text()");
+
+	memset(yyg->yy_buffer_stack, 0, depth * sizeof(*yyg->yy_buffer_stack));
+	yyg->yy_buffer_stack_max = depth;
+	yyg->yy_buffer_stack_top = 0;
+
+	return yy_scan_buffer(text, size, yyscanner);
+}
diff --git a/src/parser/syntax.c b/src/parser/syntax.c
index 6c13c11..5436db8 100644
--- a/src/parser/syntax.c
+++ b/src/parser/syntax.c
@@ -10,20 +10,39 @@
 #include <midorisql.yy.h>
 #include <errno.h>
 
+/* midorisql.l */
+YY_BUFFER_STATE scan_text(char *text, size_t size, yyscan_t scanner);
+
 int syntax_parse(char *in, struct queue *out)
 {
 	yyscan_t sc;
 	YY_BUFFER_STATE bs;
 	struct scanner_extra extra = {0};
+	size_t len;
+	char *text;
 	int res;
 
 	/* sanity check */
 	BUG_ON(!in || !out);
 
+	/*
+	 * the scanner works on a copy that is owned here (followed by the two NULs that it expects): a copy made by
+	 * the scanner itself is lost when it runs out of memory before it has a buffer to keep it in
+	 */
+	len = strlen(in);
+	text = zalloc(len + 2);
+	if (!text) {
+		if (!queue_offer(out, "out of memory", sizeof("out of memory")))
+			fprintf(stderr, "error while gathering parser error \n");
+		return ENOMEM;
+	}
+	memcpy(text, in, len);
+
 	if (yylex_init(&sc)) {
 		res = errno;
 		if (!queue_offer(out, strerror(res), strlen(strerror(res)) + 1))
 			fprintf(stderr, "error while gathering parser error \n");
+		free(text);
 		return res;
 	}
 
@@ -31,15 +50,17 @@ int syntax_parse(char *in, struct queue *out)
 	yyset_extra(&extra, sc);
 	if (setjmp(extra.env)) {
 		yylex_destroy(sc);
+		free(text);
 		if (!queue_offer(out, "out of memory", sizeof("out of memory")))
 			fprintf(stderr, "error while gathering parser error \n");
 		return ENOMEM;
 	}
 
-	bs = yy_scan_string(in, sc);
+	bs = scan_text(text, len + 2, sc);
 	res = yyparse(out, sc);
 	yy_delete_buffer(bs, sc);
 	yylex_destroy(sc);
+	free(text);
 
 	return res;
 }
-- 
2.43.0

