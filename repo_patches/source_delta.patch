From 17aae514a6438bbaf421fa555c0bad4da95ed561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:26 +0000
Subject: [PATCH 001/111] fix: compute compound shifts in the promoted type of
 the left operand

---
 src/parser/expression.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/parser/expression.c b/src/parser/expression.c
index 68b9752..2169d50 100644
--- a/src/parser/expression.c
+++ b/src/parser/expression.c
@@ -348,7 +348,14 @@ static void fix_assignment_operators(struct expr *expr) {
 	if (expr->type != E_ASSIGNMENT_OP)
 		return;
 
-	convert_arithmetic(&expr->args[0], &expr->args[1]);
+	if (expr->assignment_op.op == OP_LSHIFT ||
+		expr->assignment_op.op == OP_RSHIFT) {
+		// The type of a shift is that of its promoted left operand.
+		// See 6.5.7.
+		expr->args[1] = expression_cast(expr->args[1], expr->args[0]->data_type);
+	} else {
+		convert_arithmetic(&expr->args[0], &expr->args[1]);
+	}
 	// Reduce double cast into single cast. Always correct in this case.
 	if (expr->args[0]->type == E_CAST) {
 		if (expr->args[0]->cast.arg->type == E_CAST)
-- 
2.43.0


From dafeed8dc9517d3fd28bc6fd224f88ce4dcdfaba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:26 +0000
Subject: [PATCH 002/111] fix: do not promote long to int when they have the
 same size

---
 src/parser/expression.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/parser/expression.c b/src/parser/expression.c
index 2169d50..de6807c 100644
--- a/src/parser/expression.c
+++ b/src/parser/expression.c
@@ -98,6 +98,13 @@ static void do_integer_promotion(struct expr **expr) {
 	struct type *current_type = (*expr)->data_type;
 	int bitfield = get_expression_bitfield(*expr);
 
+	// Types of greater rank than int are never promoted, even if they have
+	// the same size as int.
+	if (bitfield == -1 &&
+		(type_is_simple(current_type, ST_LONG) ||
+		 type_is_simple(current_type, ST_LLONG)))
+		return;
+
 	if (type_is_integer(current_type) &&
 		is_contained_in(ST_INT, -1, current_type->simple, bitfield)) {
 		*expr = expression_cast(*expr, type_simple(ST_INT));
-- 
2.43.0


From 749eec9553674e8c7fa1461d69840edb7a154e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:16 +0000
Subject: [PATCH 003/111] fix: give ?: of an object pointer and a pointer to
 void the type void *

---
 src/parser/expression.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/parser/expression.c b/src/parser/expression.c
index de6807c..93eaff0 100644
--- a/src/parser/expression.c
+++ b/src/parser/expression.c
@@ -249,10 +249,18 @@ static void cast_conditional(struct expr *expr) {
 
 	if (type_is_pointer(a) && type_is_pointer(b)) {
 		struct type *composite;
-		if (type_remove_qualifications(type_deref(a)) == type_simple(ST_VOID))
+		// A null pointer constant takes the type of the other operand, any other
+		// pointer to void makes the result a pointer to void. See 6.5.15p6.
+		int a_void = type_remove_qualifications(type_deref(a)) == type_simple(ST_VOID),
+			b_void = type_remove_qualifications(type_deref(b)) == type_simple(ST_VOID);
+		if (a_void && is_null_pointer_constant(expr->args[1]))
 			expr->args[1] = expression_cast(expr->args[1], b);
-		else if (type_remove_qualifications(type_deref(b)) == type_simple(ST_VOID))
+		else if (b_void && is_null_pointer_constant(expr->args[2]))
 			expr->args[2] = expression_cast(expr->args[2], a);
+		else if (a_void)
+			expr->args[2] = expression_cast(expr->args[2], a);
+		else if (b_void)
+			expr->args[1] = expression_cast(expr->args[1], b);
 		else if ((composite = type_make_composite(type_remove_qualifications(type_deref(a)),
 												  type_remove_qualifications(type_deref(b))))) {
 			composite = type_pointer(composite);
-- 
2.43.0


From 65cd6e440d7320eab63d38d7559feee1cf1e1beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:46 +0000
Subject: [PATCH 004/111] fix: leave undefined integer divisions unfolded
 instead of trapping

---
 src/ir/operators.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ir/operators.c b/src/ir/operators.c
index 2af7aa7..e17bcda 100644
--- a/src/ir/operators.c
+++ b/src/ir/operators.c
@@ -89,8 +89,8 @@ int operators_constant(enum operator_type op,
 		default: NOTIMP();
 		}
 	} else if (type_is_integer(type) && is_signed(st)) {
-		// Overflow is undefined, so we can just ignore truncation completely.
-		if ((op == OP_DIV || op == OP_DIV) && rhs.int_d == 0)
+		// Leave undefined divisions unfolded, the host would trap on them.
+		if ((op == OP_DIV || op == OP_MOD) && (rhs.int_d == 0 || (rhs.int_d == -1 && lhs.int_d == INT64_MIN)))
 			return 0;
 
 		switch (op) {
@@ -114,6 +114,10 @@ int operators_constant(enum operator_type op,
 		}
 	} else if (type_is_integer(type) && !is_signed(st)) {
 		int sign = 0;
+
+		if ((op == OP_DIV || op == OP_MOD) && rhs.uint_d == 0)
+			return 0;
+
 		switch (op) {
 		case OP_ADD: res.uint_d = lhs.uint_d + rhs.uint_d; break;
 		case OP_SUB: res.uint_d = lhs.uint_d - rhs.uint_d; break;
-- 
2.43.0


From a98e760d98c794b43acdf16bf3048dc2b6cb539d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:13 +0000
Subject: [PATCH 005/111] fix: reduce folded signed results to the width of
 their type

---
 src/ir/operators.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ir/operators.c b/src/ir/operators.c
index e17bcda..03dc243 100644
--- a/src/ir/operators.c
+++ b/src/ir/operators.c
@@ -112,6 +112,8 @@ int operators_constant(enum operator_type op,
 		case OP_NOT_EQUAL: res.int_d = lhs.int_d != rhs.int_d; break;
 		default: NOTIMP();
 		}
+
+		constant_normalize(&res);
 	} else if (type_is_integer(type) && !is_signed(st)) {
 		int sign = 0;
 
@@ -182,6 +184,8 @@ int operators_constant_unary(enum unary_operator_type op,
 		case UOP_BNOT: res.int_d = ~rhs.int_d; break;
 		default: NOTIMP();
 		}
+
+		constant_normalize(&res);
 	} else if (type_is_integer(type) && !is_signed(st)) {
 		switch (op) {
 		case UOP_PLUS: res.uint_d = +rhs.uint_d; break;
-- 
2.43.0


From 37aff4589656bdce060709e863cc292797d42646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:14 +0000
Subject: [PATCH 006/111] fix: test floating constants for zero through their
 own representation

---
 src/parser/expression.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/expression.c b/src/parser/expression.c
index 93eaff0..19a6be4 100644
--- a/src/parser/expression.c
+++ b/src/parser/expression.c
@@ -1123,9 +1123,9 @@ int constant_is_zero(struct constant *c) {
 		return 0;
 
 	if (type_is_simple(c->data_type, ST_FLOAT)) {
-		return c->double_d == 0;
-	} else if (type_is_simple(c->data_type, ST_DOUBLE)) {
 		return c->float_d == 0;
+	} else if (type_is_simple(c->data_type, ST_DOUBLE)) {
+		return c->double_d == 0;
 	} else if (type_is_integer(c->data_type) && is_signed(c->data_type->simple)) {
 		return c->int_d == 0;
 	} else if (type_is_integer(c->data_type) && !is_signed(c->data_type->simple)) {
-- 
2.43.0


From 26de8307b0cff95bca3979e13e42f9c5984f2a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:14 +0000
Subject: [PATCH 007/111] fix: convert constants to _Bool by comparing them
 with zero

---
 src/arch/x64.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/arch/x64.c b/src/arch/x64.c
index 3f8f12d..e5f1b3e 100644
--- a/src/arch/x64.c
+++ b/src/arch/x64.c
@@ -507,7 +507,16 @@ static struct constant simple_cast(struct constant from, enum simple_type target
 	if (target == ST_VOID || target == from_type)
 		return from;
 
-	if (from_int && to_int) {
+	if (target == ST_BOOL) {
+		if (from_type == ST_FLOAT)
+			from.uint_d = from.float_d != 0;
+		else if (from_type == ST_DOUBLE)
+			from.uint_d = from.double_d != 0;
+		else if (from_int)
+			from.uint_d = from.uint_d != 0;
+		else
+			NOTIMP();
+	} else if (from_int && to_int) {
 		struct range r = get_range(target, -1);
 		constant_uint range_min = r.min == -1 ? 0 : (constant_uint)1 << r.min;
 		constant_uint range_max = r.max == -1 ? 0 : (((constant_uint)1 << (r.max - 1)) - 1
-- 
2.43.0


From 082e671beb10b60454c88fa455fe2af87742f6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:43 +0000
Subject: [PATCH 008/111] fix: divide unsigned operands with an unsigned
 division

---
 src/ir/ir.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ir/ir.c b/src/ir/ir.c
index e94b179..a431ab8 100644
--- a/src/ir/ir.c
+++ b/src/ir/ir.c
@@ -556,7 +556,7 @@ struct node *ir_binary_op(int type, struct node *lhs, struct node *rhs) {
 	if (type == IR_IDIV)
 		return ir_idiv(lhs, rhs);
 	if (type == IR_DIV)
-		return ir_idiv(lhs, rhs);
+		return ir_div(lhs, rhs);
 	if (type == IR_MOD)
 		return ir_mod(lhs, rhs);
 	if (type == IR_IMOD)
-- 
2.43.0


From 7304c2a61c9278610dfdf6c6b1d33276bcc88185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:43 +0000
Subject: [PATCH 009/111] fix: give comparisons of 8-byte operands the size of
 an int

---
 src/ir/ir.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/ir/ir.c b/src/ir/ir.c
index a431ab8..1b6a461 100644
--- a/src/ir/ir.c
+++ b/src/ir/ir.c
@@ -561,7 +561,14 @@ struct node *ir_binary_op(int type, struct node *lhs, struct node *rhs) {
 		return ir_mod(lhs, rhs);
 	if (type == IR_IMOD)
 		return ir_imod(lhs, rhs);
-	return ir_new2(type, lhs, rhs, lhs->size);
+
+	// The result of a comparison is an int, whatever the size of its operands.
+	int size = lhs->size;
+	if ((type >= IR_LESS && type <= IR_NOT_EQUAL) ||
+		(type >= IR_FLT_LESS && type <= IR_FLT_NOT_EQUAL))
+		size = 4;
+
+	return ir_new2(type, lhs, rhs, size);
 }
 
 void ir_call(struct node *callee, struct node *reg_state, struct node *call_stack,
-- 
2.43.0


From cc7f8b08734db27a597e9033d97a86e8ce40021d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:43 +0000
Subject: [PATCH 010/111] fix: make floating comparisons with NaN false, and !=
 true

---
 src/assembler/instructions.h   |  2 +
 src/codegen/binary_operators.h | 95 ++++++++++++++++++++--------------
 src/codegen/codegen.c          |  4 +-
 3 files changed, 59 insertions(+), 42 deletions(-)

diff --git a/src/assembler/instructions.h b/src/assembler/instructions.h
index 3e96129..04db6a0 100644
--- a/src/assembler/instructions.h
+++ b/src/assembler/instructions.h
@@ -206,6 +206,8 @@ struct encoding encodings[] = {
 	{"setle", 0x0f, .op2 = 0x9e, .operand_encoding = {{OE_MODRM_RM, 0}}, .operand_accepts = {A_MODRM(1)}},
 	{"setnb", 0x0f, .op2 = 0x93, .operand_encoding = {{OE_MODRM_RM, 0}}, .operand_accepts = {A_MODRM(1)}},
 	{"setne", 0x0f, .op2 = 0x95, .operand_encoding = {{OE_MODRM_RM, 0}}, .operand_accepts = {A_MODRM(1)}},
+	{"setp", 0x0f, .op2 = 0x9a, .operand_encoding = {{OE_MODRM_RM, 0}}, .operand_accepts = {A_MODRM(1)}},
+	{"setnp", 0x0f, .op2 = 0x9b, .operand_encoding = {{OE_MODRM_RM, 0}}, .operand_accepts = {A_MODRM(1)}},
 	
 	{"salq", 0xd3, .rex = 1, .rexw = 1, .modrm_extension = 4, .operand_encoding = {{OE_MODRM_RM, 0}, {OE_NONE, 0}}, .operand_accepts = {A_MODRM(8), A_RCX(1)}},
 	{"sall", 0xd3, .modrm_extension = 4, .operand_encoding = {{OE_MODRM_RM, 0}, {OE_NONE, 0}}, .operand_accepts = {A_MODRM(4), A_RCX(1)}},
diff --git a/src/codegen/binary_operators.h b/src/codegen/binary_operators.h
index d350bf6..c3c01b7 100644
--- a/src/codegen/binary_operators.h
+++ b/src/codegen/binary_operators.h
@@ -21,14 +21,27 @@
 		{"movd", {XMM_(0), R4_(REG_RAX)}},		\
 	}
 
-#define BINARY_COMP_FLT_32(MNEMONIC) {				\
+// Comparisons with a NaN set CF, ZF and PF. "above" is false for unordered
+// operands, so "less" is implemented by swapping the operands.
+#define BINARY_COMP_FLT_32(MNEMONIC, RHS, LHS) {	\
 		{"movd", {R4_(REG_RAX), XMM_(0)}},		\
 		{"movd", {R4_(REG_RCX), XMM_(1)}},		\
 		{"xorq", {R8_(REG_RAX), R8_(REG_RAX)}},	\
-		{"ucomiss", {XMM_(1), XMM_(0)}},		\
+		{"ucomiss", {XMM_(RHS), XMM_(LHS)}},	\
 		{MNEMONIC, {R1_(REG_RAX)}},				\
 	}
 
+// Equality also has to look at PF.
+#define BINARY_EQ_FLT(MOV, COMPARE, SIZE, MNEMONIC, PARITY, COMBINE) {	\
+		{MOV, {SIZE(REG_RAX), XMM_(0)}},		\
+		{MOV, {SIZE(REG_RCX), XMM_(1)}},		\
+		{COMPARE, {XMM_(1), XMM_(0)}},			\
+		{MNEMONIC, {R1_(REG_RAX)}},				\
+		{PARITY, {R1_(REG_RCX)}},				\
+		{COMBINE, {R4_(REG_RCX), R4_(REG_RAX)}},\
+		{"movzbl", {R1_(REG_RAX), R4_(REG_RAX)}},	\
+	}
+
 #define BINARY_INS_64(MNEMONIC) {						\
 		{MNEMONIC, {R8_(REG_RCX), R8_(REG_RAX)}}	\
 	}
@@ -46,10 +59,10 @@
 		{"movq", {XMM_(0), R8_(REG_RAX)}},		\
 	}
 
-#define BINARY_COMP_FLT_64(MNEMONIC) {				\
+#define BINARY_COMP_FLT_64(MNEMONIC, RHS, LHS) {	\
 		{"movq", {R8_(REG_RAX), XMM_(0)}},		\
 		{"movq", {R8_(REG_RCX), XMM_(1)}},		\
-		{"ucomisd", {XMM_(1), XMM_(0)}},		\
+		{"ucomisd", {XMM_(RHS), XMM_(LHS)}},	\
 		{MNEMONIC, {R1_(REG_RAX)}},				\
 		{"movzbl", {R1_(REG_RAX), R4_(REG_RAX)}},	\
 	}
@@ -57,67 +70,69 @@
 #define BINARY_INS(M32, M64) BINARY_INS_32(M32), BINARY_INS_64(M64)
 #define BINARY_COMP(M) BINARY_COMP_32(M), BINARY_COMP_64(M)
 #define BINARY_INS_FLT(M32, M64) BINARY_INS_FLT_32(M32), BINARY_INS_FLT_64(M64)
-#define BINARY_COMP_FLT(M) BINARY_COMP_FLT_32(M), BINARY_COMP_FLT_64(M)
+#define BINARY_COMP_FLT(M, RHS, LHS) BINARY_COMP_FLT_32(M, RHS, LHS), BINARY_COMP_FLT_64(M, RHS, LHS)
+#define BINARY_EQUAL_FLT(M, PARITY, COMBINE) BINARY_EQ_FLT("movd", "ucomiss", R4_, M, PARITY, COMBINE), \
+		BINARY_EQ_FLT("movq", "ucomisd", R8_, M, PARITY, COMBINE)
 
-static struct asm_instruction (*codegen_asm_table[IR_COUNT])[2][5] = {
-	[IR_ADD] = &(struct asm_instruction [2][5]) {BINARY_INS("addl", "addq")},
-	[IR_SUB] = &(struct asm_instruction [2][5]) { BINARY_INS("subl", "subq") },
-	[IR_IMUL] = &(struct asm_instruction [2][5]) { BINARY_INS("imull", "imulq") },
-	[IR_MUL] = &(struct asm_instruction [2][5]) { BINARY_INS("imull", "imulq") },
-	[IR_BXOR] = &(struct asm_instruction [2][5]) { BINARY_INS("xorl", "xorq") },
-	[IR_BOR] = &(struct asm_instruction [2][5]) { BINARY_INS("orl", "orq") },
-	[IR_BAND] = &(struct asm_instruction [2][5]) { BINARY_INS("andl", "andq") },
-	[IR_IDIV] = &(struct asm_instruction [2][5]) {
+static struct asm_instruction (*codegen_asm_table[IR_COUNT])[2][7] = {
+	[IR_ADD] = &(struct asm_instruction [2][7]) {BINARY_INS("addl", "addq")},
+	[IR_SUB] = &(struct asm_instruction [2][7]) { BINARY_INS("subl", "subq") },
+	[IR_IMUL] = &(struct asm_instruction [2][7]) { BINARY_INS("imull", "imulq") },
+	[IR_MUL] = &(struct asm_instruction [2][7]) { BINARY_INS("imull", "imulq") },
+	[IR_BXOR] = &(struct asm_instruction [2][7]) { BINARY_INS("xorl", "xorq") },
+	[IR_BOR] = &(struct asm_instruction [2][7]) { BINARY_INS("orl", "orq") },
+	[IR_BAND] = &(struct asm_instruction [2][7]) { BINARY_INS("andl", "andq") },
+	[IR_IDIV] = &(struct asm_instruction [2][7]) {
 		{{"cltd", { { 0 } }}, {"idivl", {R4_(REG_RCX)}}},
 		{{"cqto", { { 0 } }}, {"idivq", {R8_(REG_RCX)}}},
 	},
-	[IR_IMOD] = &(struct asm_instruction [2][5]) {
+	[IR_IMOD] = &(struct asm_instruction [2][7]) {
 		{{"cltd", { { 0 } }},
 		 {"idivl", {R4_(REG_RCX)}}, {"movl", {R4_(REG_RDX), R4_(REG_RAX)}}},
 		{{"cqto", { { 0 } }},
 		 {"idivq", {R8_(REG_RCX)}}, {"movq", {R8_(REG_RDX), R8_(REG_RAX)}}},
 	},
-	[IR_LSHIFT] = &(struct asm_instruction [2][5]) {
+	[IR_LSHIFT] = &(struct asm_instruction [2][7]) {
 		{{"sall", {R1_(REG_RCX), R4_(REG_RAX)}}},
 		{{"salq", {R1_(REG_RCX), R8_(REG_RAX)}}},
 	},
-	[IR_IRSHIFT] = &(struct asm_instruction [2][5]) {
+	[IR_IRSHIFT] = &(struct asm_instruction [2][7]) {
 		{{"sarl", {R1_(REG_RCX), R4_(REG_RAX)}}},
 		{{"sarq", {R1_(REG_RCX), R8_(REG_RAX)}}},
 	},
-	[IR_RSHIFT] = &(struct asm_instruction [2][5]) {
+	[IR_RSHIFT] = &(struct asm_instruction [2][7]) {
 		{{"shrl", {R1_(REG_RCX), R4_(REG_RAX)}}},
 		{{"shrq", {R1_(REG_RCX), R8_(REG_RAX)}}},
 	},
-	[IR_IGREATER] = &(struct asm_instruction [2][5]) { BINARY_COMP("setg") },
-	[IR_ILESS_EQ] = &(struct asm_instruction [2][5]) { BINARY_COMP("setle") },
-	[IR_ILESS] = &(struct asm_instruction [2][5]) { BINARY_COMP("setl") },
-	[IR_IGREATER_EQ] = &(struct asm_instruction [2][5]) { BINARY_COMP("setge") },
-	[IR_EQUAL] = &(struct asm_instruction [2][5]) { BINARY_COMP("sete") },
-	[IR_NOT_EQUAL] = &(struct asm_instruction [2][5]) { BINARY_COMP("setne") },
-	[IR_LESS] = &(struct asm_instruction [2][5]) { BINARY_COMP("setb") },
-	[IR_GREATER] = &(struct asm_instruction [2][5]) { BINARY_COMP("seta") },
-	[IR_LESS_EQ] = &(struct asm_instruction [2][5]) { BINARY_COMP("setbe") },
-	[IR_GREATER_EQ] = &(struct asm_instruction [2][5]) { BINARY_COMP("setnb") },
-	[IR_DIV] = &(struct asm_instruction [2][5]) {
+	[IR_IGREATER] = &(struct asm_instruction [2][7]) { BINARY_COMP("setg") },
+	[IR_ILESS_EQ] = &(struct asm_instruction [2][7]) { BINARY_COMP("setle") },
+	[IR_ILESS] = &(struct asm_instruction [2][7]) { BINARY_COMP("setl") },
+	[IR_IGREATER_EQ] = &(struct asm_instruction [2][7]) { BINARY_COMP("setge") },
+	[IR_EQUAL] = &(struct asm_instruction [2][7]) { BINARY_COMP("sete") },
+	[IR_NOT_EQUAL] = &(struct asm_instruction [2][7]) { BINARY_COMP("setne") },
+	[IR_LESS] = &(struct asm_instruction [2][7]) { BINARY_COMP("setb") },
+	[IR_GREATER] = &(struct asm_instruction [2][7]) { BINARY_COMP("seta") },
+	[IR_LESS_EQ] = &(struct asm_instruction [2][7]) { BINARY_COMP("setbe") },
+	[IR_GREATER_EQ] = &(struct asm_instruction [2][7]) { BINARY_COMP("setnb") },
+	[IR_DIV] = &(struct asm_instruction [2][7]) {
 		{{"xorq", {R8_(REG_RDX), R8_(REG_RDX)}}, {"divl", {R4_(REG_RCX)}}},
 		{{"xorq", {R8_(REG_RDX), R8_(REG_RDX)}}, {"divq", {R8_(REG_RCX)}}},
 	},
-	[IR_MOD] = &(struct asm_instruction [2][5]) {
+	[IR_MOD] = &(struct asm_instruction [2][7]) {
 		{{"xorq", {R8_(REG_RDX), R8_(REG_RDX)}}, {"divl", {R4_(REG_RCX)}}, {"movl", {R4_(REG_RDX), R4_(REG_RAX)}}},
 		{{"xorq", {R8_(REG_RDX), R8_(REG_RDX)}}, {"divq", {R8_(REG_RCX)}}, {"movq", {R8_(REG_RDX), R8_(REG_RAX)}}},
 	},
 
-	[IR_FLT_ADD] = &(struct asm_instruction [2][5]) { BINARY_INS_FLT("addss", "addsd") },
-	[IR_FLT_SUB] = &(struct asm_instruction [2][5]) { BINARY_INS_FLT("subss", "subsd") },
-	[IR_FLT_MUL] = &(struct asm_instruction [2][5]) { BINARY_INS_FLT("mulss", "mulsd") },
-	[IR_FLT_DIV] = &(struct asm_instruction [2][5]) { BINARY_INS_FLT("divss", "divsd") },
-	[IR_FLT_LESS] = &(struct asm_instruction [2][5]) { BINARY_COMP_FLT("setb") },
-	[IR_FLT_GREATER] = &(struct asm_instruction [2][5]) { BINARY_COMP_FLT("seta") },
-	[IR_FLT_LESS_EQ] = &(struct asm_instruction [2][5]) { BINARY_COMP_FLT("setbe") },
-	[IR_FLT_GREATER_EQ] = &(struct asm_instruction [2][5]) { BINARY_COMP_FLT("setnb") },
-	[IR_FLT_EQUAL] = &(struct asm_instruction [2][5]) { BINARY_COMP_FLT("sete") },
-	[IR_FLT_NOT_EQUAL] = &(struct asm_instruction [2][5]) { BINARY_COMP_FLT("setne") },
+	[IR_FLT_ADD] = &(struct asm_instruction [2][7]) { BINARY_INS_FLT("addss", "addsd") },
+	[IR_FLT_SUB] = &(struct asm_instruction [2][7]) { BINARY_INS_FLT("subss", "subsd") },
+	[IR_FLT_MUL] = &(struct asm_instruction [2][7]) { BINARY_INS_FLT("mulss", "mulsd") },
+	[IR_FLT_DIV] = &(struct asm_instruction [2][7]) { BINARY_INS_FLT("divss", "divsd") },
+	[IR_FLT_LESS] = &(struct asm_instruction [2][7]) { BINARY_COMP_FLT("seta", 0, 1) },
+	[IR_FLT_GREATER] = &(struct asm_instruction [2][7]) { BINARY_COMP_FLT("seta", 1, 0) },
+	[IR_FLT_LESS_EQ] = &(struct asm_instruction [2][7]) { BINARY_COMP_FLT("setnb", 0, 1) },
+	[IR_FLT_GREATER_EQ] = &(struct asm_instruction [2][7]) { BINARY_COMP_FLT("setnb", 1, 0) },
+	[IR_FLT_EQUAL] = &(struct asm_instruction [2][7]) { BINARY_EQUAL_FLT("sete", "setnp", "andl") },
+	[IR_FLT_NOT_EQUAL] = &(struct asm_instruction [2][7]) { BINARY_EQUAL_FLT("setne", "setp", "orl") },
 };
 
 #endif
diff --git a/src/codegen/codegen.c b/src/codegen/codegen.c
index 2f30007..bd33f81 100644
--- a/src/codegen/codegen.c
+++ b/src/codegen/codegen.c
@@ -202,7 +202,7 @@ static void codegen_instruction(struct node *ins, struct node *func) {
 	const char *ins_str = dbg_instruction(ins);
 	asm_comment("instruction start \"%s\":", ins_str);
 
-	struct asm_instruction (*asm_entry)[2][5] = codegen_asm_table[ins->type];
+	struct asm_instruction (*asm_entry)[2][7] = codegen_asm_table[ins->type];
 	if (asm_entry) {
 		struct node *output = ins;
 		if (ins->type == IR_DIV ||
@@ -219,7 +219,7 @@ static void codegen_instruction(struct node *ins, struct node *func) {
 
 		struct asm_instruction *asms = (*asm_entry)[size == 8];
 
-		for (int i = 0; i < 5 && asms[i].mnemonic; i++)
+		for (int i = 0; i < 7 && asms[i].mnemonic; i++)
 			asm_ins(&asms[i]);
 
 		reg_to_scalar(REG_RAX, output);
-- 
2.43.0


From 40f1dfa157f1f4ca2c56591acf5b0c249fc4ec94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:43 +0000
Subject: [PATCH 011/111] fix: sign extend char and short to 64 bits before
 converting to floating

---
 src/codegen/codegen.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/codegen/codegen.c b/src/codegen/codegen.c
index bd33f81..8c11fe7 100644
--- a/src/codegen/codegen.c
+++ b/src/codegen/codegen.c
@@ -361,9 +361,9 @@ static void codegen_instruction(struct node *ins, struct node *func) {
 		int size_rhs = ins->arguments[0]->size,
 			size_result = ins->size;
 		if (size_rhs == 1) {
-			asm_ins2("movsbl", R1(REG_RAX), R4(REG_RAX));
+			asm_ins2("movsbq", R1(REG_RAX), R8(REG_RAX));
 		} else if (size_rhs == 2) {
-			asm_ins2("movswl", R2(REG_RAX), R4(REG_RAX));
+			asm_ins2("movswq", R2(REG_RAX), R8(REG_RAX));
 		} else if (size_rhs == 4) {
 			asm_ins2("movslq", R4(REG_RAX), R8(REG_RAX));
 		}
-- 
2.43.0


From ec8b06c48ef1b57ce964b9552b834a00b1737197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:43 +0000
Subject: [PATCH 012/111] fix: convert -0.0 to a false _Bool

---
 src/parser/expression_to_ir.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/parser/expression_to_ir.c b/src/parser/expression_to_ir.c
index b857abf..23e0f78 100644
--- a/src/parser/expression_to_ir.c
+++ b/src/parser/expression_to_ir.c
@@ -133,6 +133,15 @@ static struct node *variable_cast(struct node *operand_var, struct type *operand
 		return operand_var;
 
 	if (type_is_simple(resulting_type, ST_BOOL)) {
+		if (type_is_floating(operand_type)) {
+			// -0.0 compares equal to zero, but is not all zero bits.
+			struct node *zero = ir_constant((struct constant) {
+					.type = CONSTANT_TYPE,
+					.data_type = operand_type
+				});
+			operand_var = ir_binary_op(IR_FLT_NOT_EQUAL, operand_var, zero);
+		}
+
 		res = ir_bool_cast(operand_var);
 	} else if ((type_is_integer(resulting_type) || type_is_pointer(resulting_type)) &&
 			   (type_is_integer(operand_type) || type_is_pointer(operand_type))) {
-- 
2.43.0


From 5782a825ce23b7b077fbd6130da7b2b1b63490eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:43 +0000
Subject: [PATCH 013/111] fix: make the value of a bit-field assignment that of
 the bit-field

---
 src/parser/expression_to_ir.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/parser/expression_to_ir.c b/src/parser/expression_to_ir.c
index 23e0f78..e21d20d 100644
--- a/src/parser/expression_to_ir.c
+++ b/src/parser/expression_to_ir.c
@@ -197,6 +197,15 @@ static void assign_to_ee(struct evaluated_expression *lhs, struct node *rhs_var)
 	}
 }
 
+// The value of an assignment to LHS, after the conversion of VAR to its type.
+static struct node *assigned_value(struct evaluated_expression *lhs, struct node *var) {
+	if (lhs->type == EE_BITFIELD_POINTER)
+		return ir_get_bits(var, 0, lhs->bitfield_pointer.bitfield,
+						   lhs->bitfield_pointer.sign_extend);
+
+	return var;
+}
+
 static void assign_ee_to_ee(struct evaluated_expression *lhs, struct evaluated_expression *rhs) {
 	assert(lhs->data_type == rhs->data_type);
 	if (calculate_size(rhs->data_type) <= 8) { // If fits into variable, take shortcut.
@@ -498,6 +507,12 @@ static struct evaluated_expression evaluate_assignment(struct expr *expr) {
 
 	assign_ee_to_ee(&lhs, &rhs);
 
+	if (lhs.type == EE_BITFIELD_POINTER)
+		return (struct evaluated_expression) {
+			.type = EE_VARIABLE,
+			.variable = assigned_value(&lhs, evaluated_expression_to_var(&rhs))
+		};
+
 	return rhs;
 }
 
@@ -529,7 +544,7 @@ static struct evaluated_expression evaluate_assignment_op(struct expr *expr) {
 	lhs_var = variable_cast(lhs_var, operator_type, lhs.data_type);
 
 	if (!expr->assignment_op.postfix)
-		res_var = lhs_var;
+		res_var = assigned_value(&lhs, lhs_var);
 
 	struct evaluated_expression res = {
 		.type = EE_VARIABLE,
-- 
2.43.0


From 26e68b51142071b2a8b794921ae15291d0b13ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:31 +0000
Subject: [PATCH 014/111] fix: convert unsigned 64-bit integers of 2^63 and
 above to floating as unsigned

---
 src/codegen/codegen.c | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/codegen/codegen.c b/src/codegen/codegen.c
index 8c11fe7..10d0bf2 100644
--- a/src/codegen/codegen.c
+++ b/src/codegen/codegen.c
@@ -390,15 +390,36 @@ static void codegen_instruction(struct node *ins, struct node *func) {
 			asm_ins2("movzwl", R2(REG_RAX), R4(REG_RAX));
 		}
 
+		// cvtsi2s[sd] is signed. Halve values of 2^63 and above (rounding
+		// to odd), convert them, and double the result.
+		label_id small_label = register_label(), end_label = register_label();
+		if (size_rhs == 8) {
+			asm_ins2("movq", R8(REG_RAX), R8(REG_RCX));
+			asm_ins2("shrq", IMM(63), R8(REG_RCX));
+			asm_ins2("testq", R8(REG_RCX), R8(REG_RCX));
+			asm_ins1("je", IMML_ABS(small_label, 0));
+			asm_ins2("movq", R8(REG_RAX), R8(REG_RCX));
+			asm_ins2("shrq", IMM(1), R8(REG_RAX));
+			asm_ins2("andq", IMM(1), R8(REG_RCX));
+			asm_ins2("orq", R8(REG_RCX), R8(REG_RAX));
+			asm_ins2(size_result == 4 ? "cvtsi2ss" : "cvtsi2sd", R8(REG_RAX), XMM(0));
+			asm_ins2(size_result == 4 ? "addss" : "addsd", XMM(0), XMM(0));
+			asm_ins1("jmp", IMML_ABS(end_label, 0));
+			asm_label(0, small_label);
+		}
+
 		if (size_result == 4) {
 			asm_ins2("cvtsi2ss", R8(REG_RAX), XMM(0));
-			asm_ins2("movd", XMM(0), R4(REG_RAX));
 		} else if (size_result == 8) {
 			asm_ins2("cvtsi2sd", R8(REG_RAX), XMM(0));
-			asm_ins2("movq", XMM(0), R8(REG_RAX));
 		} else {
 			NOTIMP();
 		}
+
+		if (size_rhs == 8)
+			asm_label(0, end_label);
+
+		asm_ins2("movq", XMM(0), R8(REG_RAX));
 		reg_to_scalar(REG_RAX, ins);
 	} break;
 
-- 
2.43.0


From 2ac4e9858f3c5291397156a41c952daa17d2d177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:32 +0000
Subject: [PATCH 015/111] fix: convert floating values of 2^63 and above to
 unsigned 64-bit integers

---
 src/codegen/codegen.c | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/codegen/codegen.c b/src/codegen/codegen.c
index 10d0bf2..1a8a729 100644
--- a/src/codegen/codegen.c
+++ b/src/codegen/codegen.c
@@ -426,8 +426,6 @@ static void codegen_instruction(struct node *ins, struct node *func) {
 	case IR_FLOAT_INT_CAST: {
 		scalar_to_reg(ins->arguments[0], REG_RAX);
 		int size_rhs = ins->arguments[0]->size;
-		// This is not the exact same as gcc and clang in the
-		// case of unsigned long. But within the C standard?
 		if (size_rhs == 4) {
 			asm_ins2("movd", R4(REG_RAX), XMM(0));
 			asm_ins2("cvttss2si", XMM(0), R8(REG_RAX));
@@ -435,6 +433,25 @@ static void codegen_instruction(struct node *ins, struct node *func) {
 			asm_ins2("movd", R8(REG_RAX), XMM(0));
 			asm_ins2("cvttsd2si", XMM(0), R8(REG_RAX));
 		}
+
+		// Values of 2^63 and above convert to INT64_MIN. They only fit
+		// in an unsigned type, and are INT64_MIN | (x - 2^63).
+		if (ins->size == 8) {
+			if (size_rhs == 4) {
+				asm_ins2("movabsq", IMM(0x5f000000), R8(REG_RCX));
+				asm_ins2("movd", R4(REG_RCX), XMM(1));
+				asm_ins2("subss", XMM(1), XMM(0));
+				asm_ins2("cvttss2si", XMM(0), R8(REG_RCX));
+			} else if (size_rhs == 8) {
+				asm_ins2("movabsq", IMM(0x43e0000000000000), R8(REG_RCX));
+				asm_ins2("movq", R8(REG_RCX), XMM(1));
+				asm_ins2("subsd", XMM(1), XMM(0));
+				asm_ins2("cvttsd2si", XMM(0), R8(REG_RCX));
+			}
+			asm_ins0("cqto");
+			asm_ins2("andq", R8(REG_RDX), R8(REG_RCX));
+			asm_ins2("orq", R8(REG_RCX), R8(REG_RAX));
+		}
 		reg_to_scalar(REG_RAX, ins);
 	} break;
 
-- 
2.43.0


From b6b4f57e153d69c003c7594db846f459d9543a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:26 +0000
Subject: [PATCH 016/111] fix: compare conditions with zero in their own type

---
 src/parser/expression_to_ir.c | 10 ++++++++--
 src/parser/expression_to_ir.h |  1 +
 src/parser/function_parser.c  |  8 ++++----
 3 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/parser/expression_to_ir.c b/src/parser/expression_to_ir.c
index e21d20d..31aa1db 100644
--- a/src/parser/expression_to_ir.c
+++ b/src/parser/expression_to_ir.c
@@ -558,8 +558,7 @@ static struct evaluated_expression evaluate_assignment_op(struct expr *expr) {
 }
 
 static struct evaluated_expression evaluate_conditional(struct expr *expr) {
-	struct evaluated_expression condition = expression_evaluate(expr->args[0]);
-	struct node *condition_var = evaluated_expression_to_var(&condition);
+	struct node *condition_var = expression_to_condition(expr->args[0]);
 
 	int is_void = type_is_simple(expr->data_type, ST_VOID);
 
@@ -774,6 +773,13 @@ struct node *expression_to_int(struct expr *expr) {
 	return res;
 }
 
+// The value of a scalar, compared with zero.
+struct node *expression_to_condition(struct expr *expr) {
+	struct evaluated_expression ee = expression_evaluate(expr);
+	ee = evaluated_expression_cast(&ee, type_simple(ST_BOOL));
+	return evaluated_expression_to_var(&ee);
+}
+
 void expression_to_void(struct expr *expr) {
 	expression_evaluate(expr);
 }
diff --git a/src/parser/expression_to_ir.h b/src/parser/expression_to_ir.h
index f8ed441..33fecc7 100644
--- a/src/parser/expression_to_ir.h
+++ b/src/parser/expression_to_ir.h
@@ -10,6 +10,7 @@ struct node *expression_to_ir_clear_temp(struct expr *expr);
 
 struct node *expression_to_size_t(struct expr *expr);
 struct node *expression_to_int(struct expr *expr);
+struct node *expression_to_condition(struct expr *expr);
 void expression_to_void(struct expr *expr);
 void expression_to_address(struct expr *expr, struct node *address);
 
diff --git a/src/parser/function_parser.c b/src/parser/function_parser.c
index 8ae4da8..d96d545 100644
--- a/src/parser/function_parser.c
+++ b/src/parser/function_parser.c
@@ -195,7 +195,7 @@ int parse_selection_statement(struct jump_blocks *jump_blocks) {
 		if(!expr)
 			ERROR(T0->pos, "Expected expression in if condition");
 
-		struct node *condition = expression_to_ir(expr);
+		struct node *condition = expression_to_condition(expr);
 
 		TEXPECT(T_RPAR);
 		struct node *block_true, *block_false;
@@ -257,7 +257,7 @@ static int parse_do_while_statement(struct jump_blocks *jump_blocks) {
 	if (!control_expression)
 		ERROR(T0->pos, "Expected expression");
 
-	struct node *control_variable = expression_to_int(control_expression);
+	struct node *control_variable = expression_to_condition(control_expression);
 
 	TEXPECT(T_RPAR);
 
@@ -301,7 +301,7 @@ static int parse_while_statement(struct jump_blocks *jump_blocks) {
 
 	TEXPECT(T_RPAR);
 
-	struct node *control_variable = expression_to_int(control_expression);
+	struct node *control_variable = expression_to_condition(control_expression);
 
 	struct node *block_true, *block_false;
 	ir_if_selection(control_variable, &block_true, &block_false);
@@ -368,7 +368,7 @@ static int parse_for_statement(struct jump_blocks *jump_blocks) {
 
 	struct expr *condition = parse_expression();
 	if (condition) {
-		struct node *condition_variable = expression_to_int(condition);
+		struct node *condition_variable = expression_to_condition(condition);
 
 		struct node *block_true, *block_false;
 		ir_if_selection(condition_variable, &block_true, &block_false);
-- 
2.43.0


From f444805c5e0d1cb01ac1ed8c18eacd29b200275e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:50 +0000
Subject: [PATCH 017/111] fix: compare switch labels in the promoted type of
 the controlling expression

---
 src/parser/expression_to_ir.c |  7 -------
 src/parser/expression_to_ir.h |  1 -
 src/parser/function_parser.c  | 17 ++++++++++++-----
 3 files changed, 12 insertions(+), 13 deletions(-)

diff --git a/src/parser/expression_to_ir.c b/src/parser/expression_to_ir.c
index 31aa1db..2999758 100644
--- a/src/parser/expression_to_ir.c
+++ b/src/parser/expression_to_ir.c
@@ -766,13 +766,6 @@ struct node *expression_to_size_t(struct expr *expr) {
 	return res;
 }
 
-struct node *expression_to_int(struct expr *expr) {
-	struct evaluated_expression ee = expression_evaluate(expr);
-	ee = evaluated_expression_cast(&ee, type_simple(ST_INT));
-	struct node *res = evaluated_expression_to_var(&ee);
-	return res;
-}
-
 // The value of a scalar, compared with zero.
 struct node *expression_to_condition(struct expr *expr) {
 	struct evaluated_expression ee = expression_evaluate(expr);
diff --git a/src/parser/expression_to_ir.h b/src/parser/expression_to_ir.h
index 33fecc7..596dc82 100644
--- a/src/parser/expression_to_ir.h
+++ b/src/parser/expression_to_ir.h
@@ -9,7 +9,6 @@ struct node *expression_to_ir(struct expr *expr);
 struct node *expression_to_ir_clear_temp(struct expr *expr);
 
 struct node *expression_to_size_t(struct expr *expr);
-struct node *expression_to_int(struct expr *expr);
 struct node *expression_to_condition(struct expr *expr);
 void expression_to_void(struct expr *expr);
 void expression_to_address(struct expr *expr, struct node *address);
diff --git a/src/parser/function_parser.c b/src/parser/function_parser.c
index d96d545..aa4b04f 100644
--- a/src/parser/function_parser.c
+++ b/src/parser/function_parser.c
@@ -20,6 +20,7 @@ struct jump_blocks {
 
 	struct node *block_entry, *block_default;
 	struct node *case_control;
+	struct type *case_type;
 };
 
 static struct function_scope {
@@ -81,14 +82,14 @@ int parse_labeled_statement(struct jump_blocks *jump_blocks) {
 		if (!value)
 			ERROR(T0->pos, "Expected expression");
 		TEXPECT(T_COLON);
-		struct constant *constant = expression_to_constant(expression_cast(value, type_simple(ST_INT)));
-		if (!constant)
-			ERROR(T0->pos, "Expression not constant, is of type %d", value->type);
-
 		struct node *case_control = jump_blocks->case_control;
 		if (!case_control)
 			ERROR(T0->pos, "Not currently in a switch statement");
 
+		struct constant *constant = expression_to_constant(expression_cast(value, jump_blocks->case_type));
+		if (!constant)
+			ERROR(T0->pos, "Expression not constant, is of type %d", value->type);
+
 		struct node *block_case = new_block(),
 			*new_entry = new_block();
 
@@ -155,7 +156,12 @@ static int parse_switch(struct jump_blocks *jump_blocks) {
 	if (!condition)
 		ERROR(T0->pos, "Expected expression");
 
-	struct node *case_control = expression_to_int(condition);
+	// The controlling expression is promoted, unary plus does nothing else.
+	condition = EXPR_UNARY_OP(UOP_PLUS, condition);
+	if (!type_is_integer(condition->data_type))
+		ERROR(T0->pos, "Controlling expression of switch is not an integer");
+
+	struct node *case_control = expression_to_ir(condition);
 
 	TEXPECT(T_RPAR);
 
@@ -171,6 +177,7 @@ static int parse_switch(struct jump_blocks *jump_blocks) {
 	new_jump_blocks.block_entry = block_entry;
 	new_jump_blocks.block_break = block_end;
 	new_jump_blocks.case_control = case_control;
+	new_jump_blocks.case_type = condition->data_type;
 	new_jump_blocks.block_default = NULL;
 
 	// Parse body
-- 
2.43.0


From f6c43c5db4479fb32c5be6fe9de7f34d08176a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:12 +0000
Subject: [PATCH 018/111] fix: keep the jump targets changed inside a nested
 switch or loop

---
 src/parser/function_parser.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/parser/function_parser.c b/src/parser/function_parser.c
index aa4b04f..1ff6c0c 100644
--- a/src/parser/function_parser.c
+++ b/src/parser/function_parser.c
@@ -183,6 +183,8 @@ static int parse_switch(struct jump_blocks *jump_blocks) {
 	// Parse body
 	parse_statement(&new_jump_blocks);
 
+	jump_blocks->block_continue = new_jump_blocks.block_continue;
+
 	if (new_jump_blocks.block_default)
 		ir_connect(new_jump_blocks.block_entry, new_jump_blocks.block_default);
 	else
@@ -238,6 +240,12 @@ int parse_selection_statement(struct jump_blocks *jump_blocks) {
 	}
 }
 
+// Labels of an enclosing switch may be inside the body of a loop.
+static void leave_loop(struct jump_blocks *outer, struct jump_blocks *body) {
+	outer->block_entry = body->block_entry;
+	outer->block_default = body->block_default;
+}
+
 static int parse_do_while_statement(struct jump_blocks *jump_blocks) {
 	if (!TACCEPT(T_KDO))
 		return 0;
@@ -253,6 +261,7 @@ static int parse_do_while_statement(struct jump_blocks *jump_blocks) {
 	new_jump_blocks.block_break = block_end;
 	new_jump_blocks.block_continue = block_control;
 	parse_statement(&new_jump_blocks);
+	leave_loop(jump_blocks, &new_jump_blocks);
 
 	ir_goto(block_control);
 	ir_block_start(block_control);
@@ -322,6 +331,7 @@ static int parse_while_statement(struct jump_blocks *jump_blocks) {
 	new_jump_blocks.block_break = block_end;
 	new_jump_blocks.block_continue = block_control;
 	parse_statement(&new_jump_blocks);
+	leave_loop(jump_blocks, &new_jump_blocks);
 
 	ir_goto(new_jump_blocks.block_continue);
 
@@ -402,6 +412,7 @@ static int parse_for_statement(struct jump_blocks *jump_blocks) {
 	new_jump_blocks.block_break = block_end;
 	new_jump_blocks.block_continue = block_advance;
 	parse_statement(&new_jump_blocks);
+	leave_loop(jump_blocks, &new_jump_blocks);
 
 	ir_goto(block_advance);
 	ir_block_start(block_end);
-- 
2.43.0


From 948c5ed7a993872e2acac2a1ef6897a5e7277316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:35 +0000
Subject: [PATCH 019/111] fix: end the statement labelled default where it ends

---
 src/parser/function_parser.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser/function_parser.c b/src/parser/function_parser.c
index 1ff6c0c..0fbad76 100644
--- a/src/parser/function_parser.c
+++ b/src/parser/function_parser.c
@@ -120,6 +120,7 @@ int parse_labeled_statement(struct jump_blocks *jump_blocks) {
 		jump_blocks->block_default = block_default;
 
 		parse_statement(jump_blocks);
+		return 1;
 	}
 	return 0;
 }
-- 
2.43.0


From 35fe4207a1ed1b1d241e447659cc894a8105ce3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:44 +0000
Subject: [PATCH 020/111] fix: return from a non-void function whose end is
 reached

---
 src/parser/function_parser.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser/function_parser.c b/src/parser/function_parser.c
index 0fbad76..8c37e28 100644
--- a/src/parser/function_parser.c
+++ b/src/parser/function_parser.c
@@ -549,7 +549,9 @@ void parse_function(struct string_view name, struct type *type, int arg_n, struc
 			abi_expr_return(get_current_function(), &(struct evaluated_expression) { .type = EE_CONSTANT, .data_type = c.data_type, .constant = c}, &reg_state);
 			ir_return(reg_state);
 		}
-	} else if (current_ret_val == type_simple(ST_VOID)) {
+	} else {
+		// Reaching the end of a non-void function is fine if the caller
+		// does not use the value.
 		struct node *reg_state = NULL;
 		abi_expr_return(get_current_function(), &(struct evaluated_expression) { .type = EE_VOID }, &reg_state);
 		ir_return(reg_state);
-- 
2.43.0


From 82b0d5deff257717612891aa9658a5fc209460a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:52 +0000
Subject: [PATCH 021/111] fix: diagnose jumps without a target

---
 src/parser/function_parser.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/parser/function_parser.c b/src/parser/function_parser.c
index 8c37e28..9c47b24 100644
--- a/src/parser/function_parser.c
+++ b/src/parser/function_parser.c
@@ -462,6 +462,9 @@ int parse_jump_statement(struct jump_blocks *jump_blocks) {
 		ir_block_start(new_block());
 		return 1;
 	} else if (TACCEPT(T_KCONTINUE)) {
+		if (!jump_blocks->block_continue)
+			ERROR(T0->pos, "continue outside of a loop");
+
 		struct node *step = new_block();
 		ir_goto(step);
 		ir_block_start(step);
@@ -471,6 +474,9 @@ int parse_jump_statement(struct jump_blocks *jump_blocks) {
 		TEXPECT(T_SEMI_COLON);
 		return 1;
 	} else if (TACCEPT(T_KBREAK)) {
+		if (!jump_blocks->block_break)
+			ERROR(T0->pos, "break outside of a loop or switch");
+
 		struct node *step = new_block();
 		ir_goto(step);
 		ir_block_start(step);
@@ -541,6 +547,12 @@ void parse_function(struct string_view name, struct type *type, int arg_n, struc
 	struct jump_blocks jump_blocks = { 0 };
 	parse_compound_statement(&jump_blocks);
 
+	for (unsigned i = 0; i < function_scope.size; i++) {
+		struct string_view label = function_scope.labels[i].label;
+		if (!function_scope.labels[i].used)
+			ERROR(T0->pos, "Label %.*s is used but not declared", label.len, label.str);
+	}
+
 	if (sv_string_cmp(name, "main")) {
 		struct node *b = get_current_block();
 		if (!b->block_info.end) {
-- 
2.43.0


From 43dc0824a15ab527d23cffdc692119fd9d43b900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:14 +0000
Subject: [PATCH 022/111] fix: make the value of an assignment the value that
 was assigned

---
 src/parser/expression_to_ir.c | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/parser/expression_to_ir.c b/src/parser/expression_to_ir.c
index 2999758..42a1e46 100644
--- a/src/parser/expression_to_ir.c
+++ b/src/parser/expression_to_ir.c
@@ -505,15 +505,20 @@ static struct evaluated_expression evaluate_assignment(struct expr *expr) {
 
 	assert(lhs.is_lvalue);
 
-	assign_ee_to_ee(&lhs, &rhs);
+	if (type_is_aggregate(rhs.data_type)) {
+		assign_ee_to_ee(&lhs, &rhs);
+		return rhs;
+	}
 
-	if (lhs.type == EE_BITFIELD_POINTER)
-		return (struct evaluated_expression) {
-			.type = EE_VARIABLE,
-			.variable = assigned_value(&lhs, evaluated_expression_to_var(&rhs))
-		};
+	// The value is what was assigned, even if the right operand changes before
+	// it is used.
+	struct node *rhs_var = evaluated_expression_to_var(&rhs);
+	assign_to_ee(&lhs, rhs_var);
 
-	return rhs;
+	return (struct evaluated_expression) {
+		.type = EE_VARIABLE,
+		.variable = assigned_value(&lhs, rhs_var)
+	};
 }
 
 static struct evaluated_expression evaluate_assignment_op(struct expr *expr) {
-- 
2.43.0


From 8af5154ad572161fc8585aa0b88406798c4f285e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:28 +0000
Subject: [PATCH 023/111] fix: place bit-fields at the first free bit of their
 storage unit

A bit-field after an ordinary member was aligned to its own type, unlike the
System V ABI, a bit-field sharing the unit of an earlier one with a wider type
took the type (and signedness) of the earlier one, and unnamed bit-fields raised
the alignment of the struct.
---
 src/arch/x64.c | 104 ++++++++++++++++++-------------------------------
 1 file changed, 38 insertions(+), 66 deletions(-)

diff --git a/src/arch/x64.c b/src/arch/x64.c
index e5f1b3e..eb63d97 100644
--- a/src/arch/x64.c
+++ b/src/arch/x64.c
@@ -216,83 +216,55 @@ static int calculate_alignment_with_max(struct type *type, int packing) {
 }
 
 void calculate_offsets(struct struct_data *data) {
-	int current_offset = 0;
-	int max_offset = 0;
+	long long end = 0; // First bit after the preceding fields.
+	long long max_end = 0;
 	int alignment = 1;
 
-	int last_bit_offset = 0;
 	for (int i = 0; i < data->n; i++) {
-		struct type *field = data->fields[i].type;
-		current_offset = round_up_to_nearest(current_offset, calculate_alignment_with_max(field, data->packing));
+		struct type *type = data->fields[i].type;
+		int bitfield = data->fields[i].bitfield;
+
+		int size = 0;
+		if (i != data->n - 1 || type->type != TY_INCOMPLETE_ARRAY) {
+			size = calculate_size(type);
+			if (size == -1)
+				ICE("%s has invalid size", dbg_type(type));
+		}
+
+		int field_alignment = calculate_alignment_with_max(type, data->packing);
+		long long unit = 8LL * field_alignment;
+		long long start = data->is_union ? 0 : end;
+
+		// A bit-field is only moved to the next storage unit if it would cross
+		// the boundary of its own.
+		if (bitfield <= 0 || start % unit + bitfield > 8LL * size)
+			start = (start + unit - 1) / unit * unit;
 
-		if (data->fields[i].bitfield == 0)
+		end = start + (bitfield == -1 ? 8LL * size : bitfield);
+		if (end > max_end)
+			max_end = end;
+
+		if (bitfield == 0)
 			continue;
 
-		data->fields[i].offset = current_offset;
-		data->fields[i].bit_offset = 0;
-
-		if (data->fields[i].bitfield != -1) {
-			if (last_bit_offset != 0 && data->fields[i - 1].bitfield != 0)
-				data->fields[i].offset = data->fields[i - 1].offset;
-
-			int fits = 0;
-			struct type *fit_type = NULL;
-			for (int j = i; j >= 0; j--) {
-				if (last_bit_offset != 0 && data->fields[j].offset == data->fields[i - 1].offset &&
-					last_bit_offset + data->fields[i].bitfield <= 8 * calculate_size(data->fields[j].type)) {
-					fits = 1;
-					fit_type = data->fields[j].type;
-					break;
-				}
-			}
-
-			if (fits) {
-				current_offset = data->fields[i].offset;
-				data->fields[i].bit_offset = last_bit_offset;
-				data->fields[i].type = fit_type;
-			} else {
-				if (!data->is_union) {
-					current_offset = max_offset;
-
-					current_offset = round_up_to_nearest(current_offset, calculate_alignment_with_max(field, data->packing));
-				}
-				data->fields[i].offset = current_offset;
-				last_bit_offset = 0;
-			}
-
-			if (!data->is_union)
-				last_bit_offset += data->fields[i].bitfield;
-		} else {
-			last_bit_offset = 0;
-		}
+		data->fields[i].offset = start / unit * field_alignment;
+		data->fields[i].bit_offset = start % unit;
 
-		int new_size = 0;
-		if (i == data->n - 1 &&
-			field->type == TY_INCOMPLETE_ARRAY) {
-			new_size = 0;
-		} else {
-			new_size = calculate_size(field);
-			if (new_size == -1)
-				ICE("%s has invalid size", dbg_type(field));
-		}
+		if (bitfield != -1) {
+			if (!data->fields[i].name.len)
+				continue; // Does not affect the alignment.
 
-		int new_alignment = calculate_alignment_with_max(field, data->packing);
-		if (new_alignment > alignment)
-			alignment = new_alignment;
-		if (!data->is_union) {
-			current_offset += new_size;
-			if (current_offset > max_offset)
-				max_offset = current_offset;
-		} else {
-			if (new_size > max_offset)
-				max_offset = new_size;
+			// Bit-fields are accessed through the whole storage unit.
+			long long unit_end = 8LL * (data->fields[i].offset + size);
+			if (unit_end > max_end)
+				max_end = unit_end;
 		}
-	}
 
-	if (data->packing > 0 && alignment > data->packing)
-		alignment = data->packing;
+		if (field_alignment > alignment)
+			alignment = field_alignment;
+	}
 
-	data->size = round_up_to_nearest(max_offset, alignment);
+	data->size = round_up_to_nearest((max_end + 7) / 8, alignment);
 	data->alignment = alignment;
 }
 
-- 
2.43.0


From 47a49c1a464d14c13b0c9677826418c3c07e4177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:11 +0000
Subject: [PATCH 024/111] fix: restore the packing saved by #pragma pack(push)
 at pack(pop)

---
 src/parser/parser.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/parser.c b/src/parser/parser.c
index b746f2b..200849a 100644
--- a/src/parser/parser.c
+++ b/src/parser/parser.c
@@ -22,6 +22,7 @@ void parser_reset(void) {
 	pack_size = pack_cap = 0;
 	current_packing = 0;
 	free(packs);
+	packs = NULL;
 	symbols_reset();
 }
 
@@ -45,7 +46,7 @@ int parse_handle_pragma(void) {
 		if (T0->type == T_IDENT) {
 			if (sv_string_cmp(T0->str, "pop")) {
 				if (pack_size)
-					pack_size--;
+					current_packing = packs[--pack_size];
 				TNEXT();
 				TEXPECT(T_RPAR);
 				return 1;
-- 
2.43.0


From 46dbcd51ecb84a95a128f308f2179c678cedea4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:48 +0000
Subject: [PATCH 025/111] fix: honour _Alignas on struct and union members

---
 src/abi/sysv.c           | 2 +-
 src/arch/x64.c           | 2 ++
 src/parser/declaration.c | 6 ++++--
 src/types.h              | 1 +
 4 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/abi/sysv.c b/src/abi/sysv.c
index 9290a59..ace5260 100644
--- a/src/abi/sysv.c
+++ b/src/abi/sysv.c
@@ -549,7 +549,7 @@ void abi_init_sysv(void) {
 
 	struct field *fields = cc_malloc(sizeof *fields * 4);
 	for (int i = 0; i < 4; i++)
-		fields[i].bitfield = -1;
+		fields[i] = (struct field) { .bitfield = -1 };
 	fields[0].type = uint;
 	fields[0].name = sv_from_str("gp_offset");
 	fields[1].type = uint;
diff --git a/src/arch/x64.c b/src/arch/x64.c
index eb63d97..89bc405 100644
--- a/src/arch/x64.c
+++ b/src/arch/x64.c
@@ -232,6 +232,8 @@ void calculate_offsets(struct struct_data *data) {
 		}
 
 		int field_alignment = calculate_alignment_with_max(type, data->packing);
+		if (data->fields[i].alignment > field_alignment)
+			field_alignment = data->fields[i].alignment;
 		long long unit = 8LL * field_alignment;
 		long long start = data->is_union ? 0 : end;
 
diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index d748320..58598a7 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -405,7 +405,8 @@ int parse_struct(struct type_specifiers *ts) {
 				ADD_ELEMENT(fields_size, fields_cap, fields) = (struct field) {
 					.type = type,
 					.name = name,
-					.bitfield = bitfield
+					.bitfield = bitfield,
+					.alignment = s.as.alignment
 				};
 
 				TACCEPT(T_COMMA);
@@ -418,7 +419,8 @@ int parse_struct(struct type_specifiers *ts) {
 					ADD_ELEMENT(fields_size, fields_cap, fields) = (struct field) {
 						.type = s.ts.data_type,
 						.name = { 0 },
-						.bitfield = -1
+						.bitfield = -1,
+						.alignment = s.as.alignment
 					};
 				} else {
 					ERROR(T0->pos, "Anonymous member must be struct or bitfield.");
diff --git a/src/types.h b/src/types.h
index 0b65518..299b04f 100644
--- a/src/types.h
+++ b/src/types.h
@@ -107,6 +107,7 @@ struct struct_data {
 		struct string_view name;
 		struct type *type;
 		int bitfield; // -1 means no bit-field.
+		int alignment; // From _Alignas, 0 if not given.
 		int offset;
 		int bit_offset;
 	} *fields;
-- 
2.43.0


From e9406e52d76caec90db0eee0aa48685e3a2bed9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:34 +0000
Subject: [PATCH 026/111] fix: treat a repeated const qualifier as const

---
 src/parser/declaration.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index 58598a7..5e4b60b 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -608,7 +608,7 @@ static int null_type_qualifier(struct type_qualifiers *tq) {
 }
 
 static struct type *apply_tq(struct type *type, const struct type_qualifiers *tq) {
-	if (tq->const_n == 1)
+	if (tq->const_n)
 		type = type_make_const(type, 1);
 	return type;
 }
-- 
2.43.0


From d4e777cf8013f373b2225de0b7498e81c7bc6c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:43 +0000
Subject: [PATCH 027/111] fix: let the strictest of several _Alignas specifiers
 apply

---
 src/parser/declaration.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index 5e4b60b..78e01a3 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -203,7 +203,9 @@ static int parse_specifier(struct type_specifiers *ts,
 			if (constant->type != CONSTANT_TYPE || !type_is_simple(constant->data_type, ST_ULLONG)) {
 				ERROR(T0->pos, "_Alignas must have a constant expression or type as argument. %d", constant->data_type->type);
 			}
-			as->alignment = constant->uint_d;
+			// The strictest of multiple specifiers applies.
+			if (constant->uint_d > (uintmax_t)as->alignment)
+				as->alignment = constant->uint_d;
 			return 1;
 		}
 	}
-- 
2.43.0


From 94a6d70aee72f6507f735209504ac019f4f0e311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:04 +0000
Subject: [PATCH 028/111] fix: reject a tag or typedef name combined with other
 type specifiers

---
 src/parser/declaration.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index 78e01a3..5fd6cf9 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -550,6 +550,9 @@ static struct type_ast *type_ast_new(struct type_ast ast) {
 }
 
 static struct type *specifiers_to_type(const struct type_specifiers *ts) {
+	if (ts->data_type && ts->specifiers)
+		ERROR(ts->pos, "Invalid combination of type specifiers");
+
 #define SPEC(A, B) if (ts->specifiers == (B)) return type_simple(A);
 	SPEC(ST_VOID, TSF_VOID);
 	SPEC(ST_CHAR, TSF_CHAR);
-- 
2.43.0


From 0a3691b0cb95ed269a369182de905a5a4393e108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:14 +0000
Subject: [PATCH 029/111] fix: require commas between declarators

---
 src/parser/declaration.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index 5fd6cf9..5f0d054 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -411,7 +411,8 @@ int parse_struct(struct type_specifiers *ts) {
 					.alignment = s.as.alignment
 				};
 
-				TACCEPT(T_COMMA);
+				if (!TACCEPT(T_COMMA))
+					break;
 			}
 
 			TEXPECT(T_SEMI_COLON);
@@ -1437,9 +1438,8 @@ int parse_declaration(int external) {
 	}
 
 	int was_func = 0;
-	while (!was_func && parse_init_declarator(s, external, &was_func)) {
-		TACCEPT(T_COMMA);
-	}
+	while (parse_init_declarator(s, external, &was_func) &&
+		   !was_func && TACCEPT(T_COMMA));
 
 	if (!was_func)
 		TEXPECT(T_SEMI_COLON);
-- 
2.43.0


From 806a2ed25b2874087992f52e6fa2029264124947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:03 +0000
Subject: [PATCH 030/111] fix: keep the effect of #line to its file and apply
 it once per token

---
 src/preprocessor/directives.c | 61 ++++++++++++++++-------------------
 1 file changed, 27 insertions(+), 34 deletions(-)

diff --git a/src/preprocessor/directives.c b/src/preprocessor/directives.c
index 6610027..86e147a 100644
--- a/src/preprocessor/directives.c
+++ b/src/preprocessor/directives.c
@@ -18,13 +18,14 @@ struct tokenized_file {
 
 	const char *path;
 	struct tokenized_file *parent;
+
+	// Set by #line.
+	const char *new_path;
+	int line_diff;
 };
 
 static struct tokenized_file *current_file;
 
-static const char *new_path = NULL;
-static int line_diff = 0;
-
 struct macro_stack {
 	size_t size, cap;
 	struct define *defines;
@@ -56,8 +57,6 @@ void directiver_finish_writing_dependencies(const char *mt, const char *mf) {
 
 // Resets all global state. Not very elegant.
 void directiver_reset(void) {
-	new_path = NULL;
-	line_diff = 0;
 	current_file = NULL;
 
 	macro_stack_size = macro_stack_cap = 0;
@@ -89,39 +88,36 @@ void directiver_push_input(const char *path, int system) {
 		});
 }
 
-static struct token next(void);
-
 static struct token next_from_stack(void) {
-	if (current_file->token_idx == current_file->tokens.size) {
-		if (current_file->parent) {
-			token_list_free(&current_file->tokens);
-			current_file = current_file->parent;
-			return next();
-		}
-
-		return (struct token ) { .type = T_EOI };
+	while (current_file->token_idx == current_file->tokens.size &&
+		   !current_file->pushed_idx) {
+		// The end of the input also ends the last line.
+		if (!current_file->parent)
+			return (struct token ) { .type = T_EOI, .first_of_line = 1 };
+
+		token_list_free(&current_file->tokens);
+		current_file = current_file->parent;
 	}
 
+	if (current_file->pushed_idx)
+		return current_file->pushed[--current_file->pushed_idx];
+
 	return current_file->tokens.list[current_file->token_idx++];
 }
 
 static void push(struct token t) {
 	if (current_file->pushed_idx > 2)
 		ICE("Pushed too many directive tokens.");
+	// This is added again by next().
+	t.pos.line -= current_file->line_diff;
 	current_file->pushed[current_file->pushed_idx++] = t;
 }
 
 static struct token next(void) {
-	struct token t;
-	if (current_file->pushed_idx) {
-		current_file->pushed_idx--;
-		t = current_file->pushed[current_file->pushed_idx];
-	} else {
-		t = next_from_stack();
-	}
-	t.pos.line += line_diff;
-	if (new_path)
-		t.pos.path = new_path;
+	struct token t = next_from_stack();
+	t.pos.line += current_file->line_diff;
+	if (current_file->new_path)
+		t.pos.path = current_file->new_path;
 	return t;
 }
 
@@ -550,10 +546,6 @@ struct token directiver_next(void) {
 				else
 					ERROR(directive.pos, "#error directive was invoked.");
 			} else if (sv_string_cmp(name, "include")) {
-				// There is an issue with just resetting after include. But
-				// I'm interpreting the standard liberally to allow for this.
-				new_path = NULL;
-				line_diff = 0;
 				struct string_view path;
 				struct token path_tok = next();
 				int system;
@@ -599,9 +591,10 @@ struct token directiver_next(void) {
 
 					if (buffer.size == 0) {
 						ERROR(digit_seq.pos, "Invalid #line macro expansion");
-					} else if (buffer.size >= 1) {
-						digit_seq = buffer.list[0];
-					} else if (buffer.size >= 2) {
+					}
+
+					digit_seq = buffer.list[0];
+					if (buffer.size >= 2) {
 						s_char_seq = buffer.list[1];
 						has_s_char_seq = 1;
 					}
@@ -617,14 +610,14 @@ struct token directiver_next(void) {
 				if (digit_seq.first_of_line || digit_seq.type != T_NUM)
 					ERROR(digit_seq.pos, "Expected digit sequence after #line");
 
-				line_diff += atoi(sv_to_str(digit_seq.str)) - directive.pos.line - 1;
+				current_file->line_diff += atoi(sv_to_str(digit_seq.str)) - directive.pos.line - 1;
 
 				if (has_s_char_seq) {
 					if (s_char_seq.type != T_STRING)
 						ERROR(s_char_seq.pos, "Expected s char sequence as second argument to #line");
 					s_char_seq.str.len -= 2;
 					s_char_seq.str.str++;
-					new_path = sv_to_str(s_char_seq.str);
+					current_file->new_path = sv_to_str(s_char_seq.str);
 				}
 			} else {
 				ERROR(directive.pos, "#%s not implemented", dbg_token(&directive));
-- 
2.43.0


From e0dee72eab9472ecb5a640a812abbf486208f2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:49 +0000
Subject: [PATCH 031/111] fix: diagnose unbalanced conditional directives

---
 src/preprocessor/directives.c | 69 ++++++++++++++++++++++-------------
 1 file changed, 44 insertions(+), 25 deletions(-)

diff --git a/src/preprocessor/directives.c b/src/preprocessor/directives.c
index 86e147a..cfa9259 100644
--- a/src/preprocessor/directives.c
+++ b/src/preprocessor/directives.c
@@ -19,6 +19,9 @@ struct tokenized_file {
 	const char *path;
 	struct tokenized_file *parent;
 
+	// Number of conditionals open when the file was entered.
+	size_t cond_depth;
+
 	// Set by #line.
 	const char *new_path;
 	int line_diff;
@@ -26,6 +29,20 @@ struct tokenized_file {
 
 static struct tokenized_file *current_file;
 
+// Conditional groups that are open, innermost last.
+static struct cond {
+	// 1 if the current group is processed, 0 if no group has been
+	// processed yet, -1 if no other group is to be processed.
+	int state;
+	int has_else;
+	struct position pos;
+} *conds;
+static size_t cond_size, cond_cap;
+
+static int is_processing(void) {
+	return !cond_size || conds[cond_size - 1].state == 1;
+}
+
 struct macro_stack {
 	size_t size, cap;
 	struct define *defines;
@@ -58,6 +75,7 @@ void directiver_finish_writing_dependencies(const char *mt, const char *mf) {
 // Resets all global state. Not very elegant.
 void directiver_reset(void) {
 	current_file = NULL;
+	cond_size = 0;
 
 	macro_stack_size = macro_stack_cap = 0;
 	free(macro_stacks);
@@ -85,12 +103,16 @@ void directiver_push_input(const char *path, int system) {
 			.token_idx = 0,
 			.tokens = tokenize_input(new_input.contents, new_input.path),
 			.path = strdup(new_input.path),
+			.cond_depth = cond_size,
 		});
 }
 
 static struct token next_from_stack(void) {
 	while (current_file->token_idx == current_file->tokens.size &&
 		   !current_file->pushed_idx) {
+		if (cond_size > current_file->cond_depth)
+			ERROR(conds[cond_size - 1].pos, "Unterminated conditional directive.");
+
 		// The end of the input also ends the last line.
 		if (!current_file->parent)
 			return (struct token ) { .type = T_EOI, .first_of_line = 1 };
@@ -482,15 +504,9 @@ static int directiver_handle_pragma(void) {
 }
 
 struct token directiver_next(void) {
-	static int cond_stack_n = 0, cond_stack_cap = 0;
-	static int *cond_stack = NULL;
-
-	if (cond_stack_n == 0)
-		ADD_ELEMENT(cond_stack_n, cond_stack_cap, cond_stack) = 1;
-
 	struct token t = next();
 	int pass_directive = 0;
-	while ((t.type == PP_DIRECTIVE || cond_stack[cond_stack_n - 1] != 1) &&
+	while ((t.type == PP_DIRECTIVE || !is_processing()) &&
 		!pass_directive) {
 		if (t.type != PP_DIRECTIVE) {
 			t = next();
@@ -503,38 +519,41 @@ struct token directiver_next(void) {
 			continue;
 		}
 
-		if (directive.type != T_IDENT &&
-			cond_stack[cond_stack_n - 1] != 1) {
+		if (directive.type != T_IDENT) {
+			if (is_processing())
+				ERROR(directive.pos, "Invalid directive.");
 			t = directive;
 			continue;
 		}
 
 		struct string_view name = directive.str;
 
-		assert(directive.type == T_IDENT);
-
 		if (sv_string_cmp(name, "ifndef") ||
 			sv_string_cmp(name, "ifdef") ||
 			sv_string_cmp(name, "if")) {
-			if (cond_stack[cond_stack_n - 1] == 1) {
-				int result = directiver_evaluate_conditional(directive);
-				ADD_ELEMENT(cond_stack_n, cond_stack_cap, cond_stack) = result ? 1 : 0;
-			} else {
-				ADD_ELEMENT(cond_stack_n, cond_stack_cap, cond_stack) = -1;
-			}
+			struct cond cond = { .state = -1, .pos = directive.pos };
+			if (is_processing())
+				cond.state = directiver_evaluate_conditional(directive) ? 1 : 0;
+			ADD_ELEMENT(cond_size, cond_cap, conds) = cond;
 		} else if (sv_string_cmp(name, "elif") ||
 				   sv_string_cmp(name, "else") ||
 				   sv_string_cmp(name, "elifndef") ||
 				   sv_string_cmp(name, "elifdef")) {
-			if (cond_stack[cond_stack_n - 1] == 0) {
-				int result = directiver_evaluate_conditional(directive);
-				cond_stack[cond_stack_n - 1] = result;
-			} else {
-				cond_stack[cond_stack_n - 1] = -1;
-			}
+			if (cond_size == current_file->cond_depth ||
+				conds[cond_size - 1].has_else)
+				ERROR(directive.pos, "Unexpected #%.*s.", name.len, name.str);
+
+			struct cond *cond = &conds[cond_size - 1];
+			cond->has_else = sv_string_cmp(name, "else");
+			if (cond->state == 0)
+				cond->state = directiver_evaluate_conditional(directive);
+			else
+				cond->state = -1;
 		} else if (sv_string_cmp(name, "endif")) {
-			cond_stack_n--;
-		} else if (cond_stack[cond_stack_n - 1] == 1) {
+			if (cond_size == current_file->cond_depth)
+				ERROR(directive.pos, "Unexpected #endif.");
+			cond_size--;
+		} else if (is_processing()) {
 			if (sv_string_cmp(name, "define")) {
 				directiver_define();
 			} else if (sv_string_cmp(name, "undef")) {
-- 
2.43.0


From 65f31b6bb60379f128c17030903130476c8d366c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:20 +0000
Subject: [PATCH 032/111] fix: do not let directives run into or leak tokens of
 other lines

---
 src/preprocessor/directives.c | 58 +++++++++++++++++++++++++++--------
 1 file changed, 46 insertions(+), 12 deletions(-)

diff --git a/src/preprocessor/directives.c b/src/preprocessor/directives.c
index cfa9259..9a04773 100644
--- a/src/preprocessor/directives.c
+++ b/src/preprocessor/directives.c
@@ -143,8 +143,22 @@ static struct token next(void) {
 	return t;
 }
 
-static void directiver_define(void) {
+static void skip_line(void) {
+	struct token t = next();
+	while (!t.first_of_line)
+		t = next();
+	push(t);
+}
+
+static struct token next_macro_name(struct token dir) {
 	struct token name = next();
+	if (name.first_of_line || name.type != T_IDENT)
+		ERROR(dir.pos, "Expected macro name in #%.*s.", dir.str.len, dir.str.str);
+	return name;
+}
+
+static void directiver_define(struct token dir) {
+	struct token name = next_macro_name(dir);
 
 	struct define def = define_init(name.str);
 
@@ -352,10 +366,13 @@ static struct result evaluate_until_newline(void) {
 	while (!t.first_of_line) {
 		if (sv_string_cmp(t.str, "defined")) {
 			t = next();
-			int has_lpar = t.type == T_LPAR;
+			int has_lpar = t.type == T_LPAR && !t.first_of_line;
 			if (has_lpar)
 				t = next();
 
+			if (t.first_of_line || t.type != T_IDENT)
+				ERROR(t.pos, "Expected macro name after defined.");
+
 			int is_defined = define_map_get(t.str) != NULL;
 			token_list_add(&buffer, (struct token) {.type = T_NUM, .str = is_defined ? sv_from_str("1") :
 					sv_from_str("0")});
@@ -363,7 +380,8 @@ static struct result evaluate_until_newline(void) {
 			t = next();
 
 			if (has_lpar) {
-				EXPECT(&t, T_RPAR);
+				if (t.first_of_line || t.type != T_RPAR)
+					ERROR(t.pos, "Expected ) after defined.");
 				t = next();
 			}
 		} else {
@@ -378,7 +396,13 @@ static struct result evaluate_until_newline(void) {
 	token_list_add(&buffer, (struct token) { .type = T_EOI });
 
 	buffer_pos = 0;
-	return evaluate_expression(0, 1);
+	struct result result = evaluate_expression(0, 1);
+
+	struct token end = buffer_next();
+	if (end.type != T_EOI)
+		ERROR(end.pos, "Unexpected token after preprocessor expression.");
+
+	return result;
 }
 
 static struct string_view get_include_path(struct token dir, struct token t, int *system) {
@@ -407,14 +431,19 @@ static struct string_view get_include_path(struct token dir, struct token t, int
 static int directiver_evaluate_conditional(struct token dir) {
 	if (sv_string_cmp(dir.str, "ifdef") ||
 		sv_string_cmp(dir.str, "elifdef")) {
-		return (define_map_get(next().str) != NULL);
+		int is_defined = define_map_get(next_macro_name(dir).str) != NULL;
+		skip_line();
+		return is_defined;
 	} else if (sv_string_cmp(dir.str, "ifndef") ||
 			   sv_string_cmp(dir.str, "elifndef")) {
-		return !(define_map_get(next().str) != NULL);
+		int is_defined = define_map_get(next_macro_name(dir).str) != NULL;
+		skip_line();
+		return !is_defined;
 	} else if (sv_string_cmp(dir.str, "if") ||
 			   sv_string_cmp(dir.str, "elif")) {
 		return !result_is_zero(evaluate_until_newline());
 	} else if (sv_string_cmp(dir.str, "else")) {
+		skip_line();
 		return 1;
 	}
 
@@ -531,10 +560,12 @@ struct token directiver_next(void) {
 		if (sv_string_cmp(name, "ifndef") ||
 			sv_string_cmp(name, "ifdef") ||
 			sv_string_cmp(name, "if")) {
-			struct cond cond = { .state = -1, .pos = directive.pos };
-			if (is_processing())
-				cond.state = directiver_evaluate_conditional(directive) ? 1 : 0;
-			ADD_ELEMENT(cond_size, cond_cap, conds) = cond;
+			int evaluate = is_processing();
+			ADD_ELEMENT(cond_size, cond_cap, conds) = (struct cond) {
+				.state = -1, .pos = directive.pos
+			};
+			if (evaluate)
+				conds[cond_size - 1].state = directiver_evaluate_conditional(directive) ? 1 : 0;
 		} else if (sv_string_cmp(name, "elif") ||
 				   sv_string_cmp(name, "else") ||
 				   sv_string_cmp(name, "elifndef") ||
@@ -553,11 +584,13 @@ struct token directiver_next(void) {
 			if (cond_size == current_file->cond_depth)
 				ERROR(directive.pos, "Unexpected #endif.");
 			cond_size--;
+			skip_line();
 		} else if (is_processing()) {
 			if (sv_string_cmp(name, "define")) {
-				directiver_define();
+				directiver_define(directive);
 			} else if (sv_string_cmp(name, "undef")) {
-				define_map_remove(next().str);
+				define_map_remove(next_macro_name(directive).str);
+				skip_line();
 			} else if (sv_string_cmp(name, "error")) {
 				struct token msg = next();
 				if (msg.type == T_STRING)
@@ -574,6 +607,7 @@ struct token directiver_next(void) {
 					system = path_tok.type == PP_HEADER_NAME_H;
 					path.len -= 2;
 					path.str++;
+					skip_line();
 				} else {
 					path = get_include_path(directive, path_tok, &system);
 				}
-- 
2.43.0


From 1d8f1410cdfcb3d0baaf555231496f434b55d26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:34 +0000
Subject: [PATCH 033/111] fix: types and unary ~ in #if expressions

---
 src/preprocessor/directives.c | 116 +++++++++++++++++++++-------------
 1 file changed, 73 insertions(+), 43 deletions(-)

diff --git a/src/preprocessor/directives.c b/src/preprocessor/directives.c
index 9a04773..db54e84 100644
--- a/src/preprocessor/directives.c
+++ b/src/preprocessor/directives.c
@@ -245,9 +245,20 @@ void check_div_overflow(struct token *t,
 		ERROR(t->pos, "Division will overflow");
 }
 
-#define RESULT_UNARY(OP, EXPR) ((EXPR).is_signed				\
-								? result_signed(OP (EXPR).i)	\
-								: result_unsigned(OP (EXPR).u))
+// In preprocessor expressions all signed types act as intmax_t, and all
+// unsigned types as uintmax_t.
+static struct result result_number(struct token t, struct constant c) {
+	int has_unsigned_suffix = 0;
+	for (int i = 0; i < t.str.len; i++)
+		if (t.str.str[i] == 'u' || t.str.str[i] == 'U')
+			has_unsigned_suffix = 1;
+
+	if (is_signed(c.data_type->simple))
+		return result_signed(c.int_d);
+	if (!has_unsigned_suffix && c.uint_d <= INTMAX_MAX)
+		return result_signed(c.uint_d);
+	return result_unsigned(c.uint_d);
+}
 
 #define RESULT_BINARY(OP, LHS, RHS) ((LHS).is_signed					\
 									 ? result_signed((LHS).i OP (RHS).i) \
@@ -258,7 +269,6 @@ void check_div_overflow(struct token *t,
 										  ? result_signed((LHS).i OP (RHS).i) \
 										  : result_signed((LHS).u OP (RHS).u))
 
-// TODO: Ensure no UB. Don't allow operators to overflow.
 static struct result evaluate_expression(int prec, int evaluate) {
 	struct result expr = result_signed(0);
 	struct token t = buffer_next();
@@ -266,11 +276,14 @@ static struct result evaluate_expression(int prec, int evaluate) {
 	if (t.type == T_ADD) {
 		expr = evaluate_expression(PREFIX_PREC, evaluate);
 	} else if (t.type == T_SUB) {
-		struct result rhs = evaluate_expression(PREFIX_PREC, evaluate);
-		expr = RESULT_UNARY(-, rhs);
+		expr = evaluate_expression(PREFIX_PREC, evaluate);
+		expr.u = -expr.u;
+	} else if (t.type == T_BNOT) {
+		expr = evaluate_expression(PREFIX_PREC, evaluate);
+		expr.u = ~expr.u;
 	} else if (t.type == T_NOT) {
 		struct result rhs = evaluate_expression(PREFIX_PREC, evaluate);
-		expr = RESULT_UNARY(!, rhs);
+		expr = result_signed(result_is_zero(rhs));
 	} else if (t.type == T_LPAR) {
 		expr = evaluate_expression(0, evaluate);
 		struct token rpar = buffer_next();
@@ -283,10 +296,7 @@ static struct result evaluate_expression(int prec, int evaluate) {
 			ERROR(t.pos, "Floating point arithmetic in the preprocessor is not allowed.");
 		if (!type_is_integer(c.data_type))
 			ERROR(t.pos, "Preprocessor variables must be of integer type.");
-		if (is_signed(c.data_type->simple))
-			expr = result_signed(c.int_d);
-		else
-			expr = result_unsigned(c.uint_d);
+		expr = result_number(t, c);
 	} else if (t.type == T_CHARACTER_CONSTANT) {
 		expr = result_signed(escaped_character_constant_to_int(t));
 	} else {
@@ -301,9 +311,12 @@ static struct result evaluate_expression(int prec, int evaluate) {
 		if (t.type == T_QUEST) {
 			struct result mid = evaluate_expression(0, !result_is_zero(expr) ? evaluate : 0);
 			struct token colon = buffer_next();
-			assert(colon.type == T_COLON);
+			if (colon.type != T_COLON)
+				ERROR(t.pos, "Expected : in conditional expression.");
 			struct result rhs = evaluate_expression(new_prec, result_is_zero(expr) ? evaluate : 0);
+			int both_signed = mid.is_signed && rhs.is_signed;
 			expr = !result_is_zero(expr) ? mid : rhs;
+			expr.is_signed = both_signed;
 		} else if (t.type == T_AND) {
 			struct result rhs = evaluate_expression(new_prec, !result_is_zero(expr) ? evaluate : 0);
 			expr = result_signed(!result_is_zero(expr) && !result_is_zero(rhs));
@@ -314,39 +327,56 @@ static struct result evaluate_expression(int prec, int evaluate) {
 			// Standard binary operator.
 			struct result rhs = evaluate_expression(new_prec, evaluate);
 
-			// Integer -> Unsigned integer promotion.
-			if (rhs.is_signed && !expr.is_signed)
-				rhs = result_unsigned(rhs.i);
-			else if (!rhs.is_signed && expr.is_signed)
-				expr = result_unsigned(expr.i);
-
-			if (evaluate) {
-				switch (t.type) {
-				case T_BOR: expr = RESULT_BINARY(|, expr, rhs); break;
-				case T_XOR: expr = RESULT_BINARY(^, expr, rhs); break;
-				case T_AMP: expr = RESULT_BINARY(&, expr, rhs); break;
-				case T_EQ: expr = RESULT_BINARY_COND(==, expr, rhs); break;
-				case T_NEQ: expr = RESULT_BINARY_COND(!=, expr, rhs); break;
-				case T_LEQ: expr = RESULT_BINARY_COND(<=, expr, rhs); break;
-				case T_GEQ: expr = RESULT_BINARY_COND(>=, expr, rhs); break;
-				case T_L: expr = RESULT_BINARY_COND(<, expr, rhs); break;
-				case T_G: expr = RESULT_BINARY_COND(>, expr, rhs); break;
-				case T_LSHIFT: expr = RESULT_BINARY(<<, expr, rhs); break;
-				case T_RSHIFT: expr = RESULT_BINARY(>>, expr, rhs); break;
-				case T_ADD: expr = RESULT_BINARY(+, expr, rhs); break;
-				case T_SUB: expr = RESULT_BINARY(-, expr, rhs); break;
-				case T_STAR: expr = RESULT_BINARY(*, expr, rhs); break;
-				case T_DIV:
-					check_div_overflow(&t, expr, rhs);
-					expr = RESULT_BINARY(/, expr, rhs);
+			// Integer -> Unsigned integer promotion, does not apply to shifts.
+			if (rhs.is_signed != expr.is_signed &&
+				t.type != T_LSHIFT && t.type != T_RSHIFT)
+				rhs.is_signed = expr.is_signed = 0;
+
+			// Operations that might be invalid are only performed
+			// when the expression is evaluated.
+			switch (t.type) {
+			case T_BOR: expr = RESULT_BINARY(|, expr, rhs); break;
+			case T_XOR: expr = RESULT_BINARY(^, expr, rhs); break;
+			case T_AMP: expr = RESULT_BINARY(&, expr, rhs); break;
+			case T_EQ: expr = RESULT_BINARY_COND(==, expr, rhs); break;
+			case T_NEQ: expr = RESULT_BINARY_COND(!=, expr, rhs); break;
+			case T_LEQ: expr = RESULT_BINARY_COND(<=, expr, rhs); break;
+			case T_GEQ: expr = RESULT_BINARY_COND(>=, expr, rhs); break;
+			case T_L: expr = RESULT_BINARY_COND(<, expr, rhs); break;
+			case T_G: expr = RESULT_BINARY_COND(>, expr, rhs); break;
+			case T_ADD: expr.u += rhs.u; break;
+			case T_SUB: expr.u -= rhs.u; break;
+			case T_STAR: expr.u *= rhs.u; break;
+			case T_LSHIFT:
+			case T_RSHIFT:
+				if (!evaluate)
 					break;
-				case T_MOD:
-					check_div_overflow(&t, expr, rhs);
-					expr = RESULT_BINARY(%, expr, rhs);
+				if (rhs.u >= 64)
+					ERROR(t.pos, "Shift count out of range");
+				if (t.type == T_LSHIFT)
+					expr.u <<= rhs.u;
+				else
+					expr = RESULT_BINARY(>>, expr, rhs);
+				break;
+			case T_DIV:
+				if (!evaluate)
 					break;
-				default:
-					ERROR(t.pos, "Invalid infix %s", dbg_token(&t));
-				}
+				check_div_overflow(&t, expr, rhs);
+				expr = RESULT_BINARY(/, expr, rhs);
+				break;
+			case T_MOD:
+				if (!evaluate)
+					break;
+				check_div_overflow(&t, expr, rhs);
+				expr = RESULT_BINARY(%, expr, rhs);
+				break;
+			case T_COMMA:
+				if (evaluate)
+					ERROR(t.pos, "Comma in preprocessor expression.");
+				expr = rhs;
+				break;
+			default:
+				ERROR(t.pos, "Invalid infix %s", dbg_token(&t));
 			}
 		}
 
-- 
2.43.0


From 7180cbbb072951896086fef326483ba7985b086a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:01 +0000
Subject: [PATCH 034/111] fix: keep hide sets in the order their intersection
 and union rely on

---
 src/preprocessor/string_set.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/preprocessor/string_set.c b/src/preprocessor/string_set.c
index a0dbc58..dcbc22c 100644
--- a/src/preprocessor/string_set.c
+++ b/src/preprocessor/string_set.c
@@ -81,7 +81,7 @@ void string_set_insert(struct string_set *a, char *str) {
 
 	int s = 0, cmp = 0;
 	for (; s < a->size; s++) {
-		if ((cmp = strcmp(a->strings[s], str)) <= 0)
+		if ((cmp = strcmp(a->strings[s], str)) >= 0)
 			break;
 	}
 
-- 
2.43.0


From 4bef0e86aa182aa5bb860a689163348ac36aa287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:10 +0000
Subject: [PATCH 035/111] fix: diagnose unterminated macro invocations

---
 src/preprocessor/macro_expander.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/preprocessor/macro_expander.c b/src/preprocessor/macro_expander.c
index a950ac8..bc865e3 100644
--- a/src/preprocessor/macro_expander.c
+++ b/src/preprocessor/macro_expander.c
@@ -291,6 +291,8 @@ static int input_buffer_parse_argument(struct token_list *tl, int ignore_comma,
 	struct token t;
 	do {
 		t = input_buffer_take(input);
+		if (t.type == T_EOI)
+			ERROR(t.pos, "Unterminated macro invocation");
 		if(t.type == T_LPAR) {
 			depth++;
 		} else if(t.type == T_RPAR) {
-- 
2.43.0


From f753002f9d6b6a5d1bf34c7b36964f0b97f503f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:08 +0000
Subject: [PATCH 036/111] fix: let ## form any kind of token

---
 src/preprocessor/macro_expander.c | 48 +++++--------------------------
 1 file changed, 7 insertions(+), 41 deletions(-)

diff --git a/src/preprocessor/macro_expander.c b/src/preprocessor/macro_expander.c
index bc865e3..d8bfcb1 100644
--- a/src/preprocessor/macro_expander.c
+++ b/src/preprocessor/macro_expander.c
@@ -107,54 +107,20 @@ void define_string(char *name, char *value) {
 	define_map_add(def);
 }
 
-// Hopefully sufficiant table for
-// combining two token types to
-// get another. The strings are simply
-// concatenated in all these cases.
-ttype paste_table[][3] = {
-	{T_IDENT, T_IDENT, T_IDENT},
-	{T_IDENT, T_NUM, T_IDENT},
-	{T_IDENT, T_IDENT, T_IDENT},
-	{T_LSHIFT, T_A, T_LSHIFTA},
-	{T_RSHIFT, T_A, T_RSHIFTA},
-	{T_NUM, T_NUM, T_NUM},
-	{T_NUM, T_IDENT, T_NUM},
-	{T_ADD, T_ADD, T_INC},
-	{T_ADD, T_A, T_ADDA},
-	{T_SUB, T_SUB, T_DEC},
-	{T_SUB, T_G, T_ARROW},
-	{T_SUB, T_A, T_SUBA},
-	{T_DIV, T_A, T_DIVA},
-	{T_MOD, T_A, T_MODA},
-	{T_G, T_GEQ, T_RSHIFTA},
-	{T_G, T_G, T_RSHIFT},
-	{T_G, T_A, T_GEQ},
-	{T_L, T_LEQ, T_LSHIFTA},
-	{T_L, T_L, T_LSHIFT},
-	{T_L, T_A, T_LEQ},
-	{T_NOT, T_A, T_NEQ},
-	{T_BOR, T_BOR, T_OR},
-	{T_BOR, T_A, T_BORA},
-	{T_XOR, T_A, T_XORA},
-	{T_A, T_A, T_EQ},
-	{T_STAR, T_A, T_MULA},
-	{T_AMP, T_A, T_BANDA},
-	{T_AMP, T_AMP, T_AND},
-	{PP_HASH, PP_HASH, PP_HHASH}, // This is just stupid...
-};
-
 static struct token glue(struct token a, struct token b) {
 	struct token ret = {
 		.whitespace = b.whitespace, .first_of_line = b.first_of_line,
 		.whitespace_after = a.whitespace_after, .first_of_line_after = a.first_of_line_after
 	};
-	for (unsigned i = 0; i < sizeof paste_table / sizeof *paste_table; i++)
-		if (paste_table[i][1] == a.type && paste_table[i][0] == b.type)
-			ret.type = paste_table[i][2];
-	if (!ret.type)
+	ret.str = sv_from_str(allocate_printf("%s%s", sv_to_str(b.str), sv_to_str(a.str))); // TODO: This can be done better.
+
+	// The result needs to be a single token.
+	struct token_list tl = tokenize_input(ret.str.str, a.pos.path);
+	if (tl.size != 1)
 		ERROR(a.pos, "Invalid paste of %.*s and %.*s", b.str.len, b.str.str, a.str.len, a.str.str);
+	ret.type = tl.list[0].type;
+	token_list_free(&tl);
 
-	ret.str = sv_from_str(allocate_printf("%s%s", sv_to_str(b.str), sv_to_str(a.str))); // TODO: This can be done better.
 	ret.hs = string_set_intersection(a.hs, b.hs);
 	ret.pos = a.pos;
 
-- 
2.43.0


From e6f0e136dd05fd5585f767020300ceec578af711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:17 +0000
Subject: [PATCH 037/111] fix: empty operands of ##, its unexpanded left
 operand and its use with #

---
 src/preprocessor/macro_expander.c | 109 +++++++++++++-----------------
 1 file changed, 48 insertions(+), 61 deletions(-)

diff --git a/src/preprocessor/macro_expander.c b/src/preprocessor/macro_expander.c
index d8bfcb1..6b80b67 100644
--- a/src/preprocessor/macro_expander.c
+++ b/src/preprocessor/macro_expander.c
@@ -286,28 +286,27 @@ static int input_buffer_parse_argument(struct token_list *tl, int ignore_comma,
 	return t.type == T_RPAR;
 }
 
-static void expand_argument(struct token origin, struct token_list tl, int *concat_with_prev, int concat, int stringify, int input) {
-	int start_it = tl.size - 1;
-
-	if (*concat_with_prev && tl.size) {
-		struct token *end = input_buffer_top(input);
-		*end = glue(*end, tl.list[start_it--]);
-	}
-
+// Arguments that are next to a ## are not expanded.
+static void expand_argument(struct token origin, struct token_list tl, int concat_with_prev, int expand, int input) {
 	int run_expand_again = 0;
-	if (!(concat || stringify)) {
+	if (expand) {
 		run_expand_again = 1;
 		struct token t = { .type = T_EOI };
 		input_buffer_push(&t);
 	}
 
-	for(int i = start_it; i >= 0; i--) {
+	for(int i = tl.size - 1; i >= 0; i--) {
 		struct token t = tl.list[i];
 		if (i == 0)
 			t.whitespace = t.whitespace || origin.whitespace;
-		if (i == start_it)
+		if (i == tl.size - 1)
 			t.whitespace_after = t.whitespace_after || origin.whitespace_after;
-		input_buffer_push(&t);
+		if (i == tl.size - 1 && concat_with_prev) {
+			struct token *end = input_buffer_top(input);
+			*end = glue(*end, t);
+		} else {
+			input_buffer_push(&t);
+		}
 	}
 
 	if (run_expand_again) {
@@ -367,71 +366,59 @@ static void subs_buffer(struct token origin, struct define *def, struct string_s
 	for(int i = def->def.size - 1; i >= 0; i--) {
 		struct token t = def->def.list[i];
 
+		const int concat_next = i != def->def.size - 1 && def->def.list[i + 1].type == PP_HHASH;
+		// The # operator only exists in function-like macros.
+		const int stringify = def->func && (i != 0) && def->def.list[i - 1].type == PP_HASH;
+		if (stringify)
+			i--;
 		const int concat = (i != 0) && def->def.list[i - 1].type == PP_HHASH;
-		const int stringify = (i != 0) && def->def.list[i - 1].type == PP_HASH;
 
 		if (t.type == PP_HHASH)
 			ERROR(t.pos, "Concat token at edge of macro expansion.");
 
-		if (sv_string_cmp(t.str, "__VA_ARGS__")) {
-			const int va_args_paste = concat && i - 2 >= 0 &&
-				def->def.list[i - 2].type == T_COMMA;
+		const int idx = get_param(def, t);
+		const int is_va_args = sv_string_cmp(t.str, "__VA_ARGS__");
+		struct token_list *argument = is_va_args ? &vararg : idx >= 0 ? &arguments[idx] : NULL;
 
-			if (va_args_paste && !vararg_included) {
-				i--; // There is an additional i-- at the end of the loop.
-			} else if (stringify) {
-				struct token_list tl = vararg;
-				stringify_start();
+		const int va_args_paste = is_va_args && concat && i - 2 >= 0 &&
+			def->def.list[i - 2].type == T_COMMA;
 
-				for(int i = 0; i < tl.size; i++)
-					stringify_add(tl.list + i, i == 0);
-
-				struct token t_new = t;
-				t_new.type = T_STRING;
-				t_new.str = stringify_end();
-				input_buffer_push(&t_new);
-			} else if (vararg_included) {
-				expand_argument(t, vararg, &concat_with_prev, concat, stringify, input);
-				
-				if (vararg.size)
-					concat_with_prev = !va_args_paste && concat;
-			}
+		if (stringify && !argument)
+			ERROR(t.pos, "# Should be followed by macro parameter");
+
+		if (va_args_paste && !vararg_included) {
+			i--; // There is an additional i-- at the end of the loop.
+		} else if (argument && !stringify) {
+			expand_argument(t, *argument, concat_with_prev, !concat && !concat_next, input);
+
+			// If the argument is empty, whatever is to the right of it
+			// is still the operand of a preceding ##.
+			concat_with_prev = concat && !va_args_paste && (concat_with_prev || argument->size);
 		} else {
-			const int idx = get_param(def, t);
-			if (idx >= 0 && stringify) {
-				struct token_list tl = arguments[idx];
+			if (stringify) {
 				stringify_start();
 
-				for(int i = 0; i < tl.size; i++)
-					stringify_add(tl.list + i, i == 0);
+				for (int i = 0; i < argument->size; i++)
+					stringify_add(argument->list + i, i == 0);
 
-				struct token t_new = t;
-				t_new.type = T_STRING;
-				t_new.str = stringify_end();
-				input_buffer_push(&t_new);
-			} else if(idx >= 0) {
-				expand_argument(t, arguments[idx], &concat_with_prev, concat, stringify, input);
+				t.type = T_STRING;
+				t.str = stringify_end();
+				t.whitespace = def->def.list[i].whitespace;
+			} else {
+				t.pos = new_pos;
+			}
 
-				if (arguments[idx].size)
-					concat_with_prev = concat;
+			if (concat_with_prev) {
+				struct token *end = input_buffer_top(input);
+				*end = glue(*end, t);
 			} else {
-				if (concat_with_prev) {
-					struct token *end = input_buffer_top(input);
-					*end = glue(*end, t);
-					concat_with_prev = 0;
-				} else if (stringify) {
-					ERROR(t.pos, "# Should be followed by macro parameter");
-				} else {
-					t.pos = new_pos;
-					input_buffer_push(&t);
-				}
-
-				if (concat)
-					concat_with_prev = 1;
+				input_buffer_push(&t);
 			}
+
+			concat_with_prev = concat;
 		}
 
-		if (concat || stringify)
+		if (concat)
 			i--;
 	}
 
-- 
2.43.0


From 58a932fdca40070fd42dbc32965abbc1c456fa98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:50 +0000
Subject: [PATCH 038/111] fix: diagnose an extra empty macro argument and ## at
 the start of a macro

---
 src/preprocessor/macro_expander.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/preprocessor/macro_expander.c b/src/preprocessor/macro_expander.c
index 6b80b67..331bd17 100644
--- a/src/preprocessor/macro_expander.c
+++ b/src/preprocessor/macro_expander.c
@@ -349,6 +349,8 @@ static void subs_buffer(struct token origin, struct define *def, struct string_s
 			if (!input_buffer_parse_argument(&vararg, 1, input)) {
 				ERROR(lpar.pos, "__VA_ARGS__ Not end of input");
 			}
+		} else if (n_args && !finished) {
+			ERROR(lpar.pos, "Wrong number of arguments to macro");
 		}
 		
 		struct token rpar = input_buffer_take(input);
@@ -373,7 +375,7 @@ static void subs_buffer(struct token origin, struct define *def, struct string_s
 			i--;
 		const int concat = (i != 0) && def->def.list[i - 1].type == PP_HHASH;
 
-		if (t.type == PP_HHASH)
+		if (t.type == PP_HHASH || (concat && i == 1))
 			ERROR(t.pos, "Concat token at edge of macro expansion.");
 
 		const int idx = get_param(def, t);
-- 
2.43.0


From 472eb43409966bfbbc825087b40c4257b9edaff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:48 +0000
Subject: [PATCH 039/111] fix: value of hexadecimal escape sequences, and table
 size for character 127

---
 src/escape_sequence.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/escape_sequence.c b/src/escape_sequence.c
index 48ebb22..3d4153b 100644
--- a/src/escape_sequence.c
+++ b/src/escape_sequence.c
@@ -25,7 +25,7 @@ int escape_sequence_read(uint32_t *out, const char **start, int n) {
 		s++;
 		uint32_t result = 0;
 		for (int i = 0; i < n && is_hexadecimal(*s); i++, s++) {
-			result *= 8;
+			result *= 16;
 			result += char_to_int(*s);
 		}
 		*out = result;
@@ -53,7 +53,7 @@ int escape_sequence_read(uint32_t *out, const char **start, int n) {
 	return 1;
 }
 
-static const unsigned char needs_no_escape[CHAR_MAX] = {
+static const unsigned char needs_no_escape[CHAR_MAX + 1] = {
 	['A'] = 1, ['B'] = 1, ['C'] = 1, ['D'] = 1, ['E'] = 1,
 	['F'] = 1, ['G'] = 1, ['H'] = 1, ['I'] = 1, ['J'] = 1,
 	['K'] = 1, ['L'] = 1, ['M'] = 1, ['N'] = 1, ['O'] = 1,
@@ -74,7 +74,7 @@ static const unsigned char needs_no_escape[CHAR_MAX] = {
 	['}'] = 1, ['~'] = 1, [' '] = 1,
 };
 
-static const unsigned char has_simple_escape[CHAR_MAX] = {
+static const unsigned char has_simple_escape[CHAR_MAX + 1] = {
 	['\n'] = 'n',
 	['\t'] = 't',
 	['\"'] = '\"',
@@ -84,7 +84,7 @@ static const unsigned char has_simple_escape[CHAR_MAX] = {
 
 // Some assemblers don't support escape codes like \a,
 // these are here referred to as "complicated".
-static const unsigned char has_complicated_escape[CHAR_MAX] = {
+static const unsigned char has_complicated_escape[CHAR_MAX + 1] = {
 	['?'] = '?',
 	['\a'] = 'a',
 	['\b'] = 'b',
-- 
2.43.0


From 286bce1235a2bd3cc7f746a36a874e6dfc20267d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:57 +0000
Subject: [PATCH 040/111] fix: universal character names after an escaped
 backslash, their valid range and spliced CRLF lines

---
 src/preprocessor/tokenizer.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/preprocessor/tokenizer.c b/src/preprocessor/tokenizer.c
index 89c98bc..0ee8f03 100644
--- a/src/preprocessor/tokenizer.c
+++ b/src/preprocessor/tokenizer.c
@@ -61,10 +61,12 @@ static struct string_view remove_escape_sequences(const char *initial_pos) {
 	ret_str[len] = '\0';
 
 	char *read, *write;
-	// Remove '\\n':
+	// Remove "\\\n" and "\\\r\n":
 	for (write = read = ret_str; *read; read++) {
 		if (read[0] == '\\' && read[1] == '\n')
 			read += 1;
+		else if (read[0] == '\\' && read[1] == '\r' && read[2] == '\n')
+			read += 2;
 		else
 			*write++ = *read;
 	}
@@ -86,14 +88,23 @@ static struct string_view remove_escape_sequences(const char *initial_pos) {
 				else if (c >= 'A' && c <= 'F')
 					codepoint |= c - 'A' + 10;
 				else
-					ERROR(pos, "Invalid universal character name in %.*s", len,
+					ERROR(pos, "Invalid universal character name in %.*s", (int)len,
 					      initial_pos);
 			}
 
+			if ((codepoint < 0xa0 && codepoint != '$' && codepoint != '@' && codepoint != '`') ||
+			    (codepoint >= 0xd800 && codepoint <= 0xdfff) || codepoint > 0x10ffff)
+				ERROR(pos, "Invalid universal character name in %.*s", (int)len,
+				      initial_pos);
+
 			char encoded[4];
 			utf8_encode(codepoint, encoded);
 			for (int i = 0; i < 4 && encoded[i]; i++)
 				*write++ = encoded[i];
+		} else if (read[0] == '\\' && read[1]) {
+			// Other escape sequences are left as they are.
+			*write++ = *read++;
+			*write++ = *read;
 		} else {
 			*write++ = *read;
 		}
-- 
2.43.0


From 540772bf1e8ed8724ba48c05bc28d078803a254d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:56 +0000
Subject: [PATCH 041/111] fix: encode u literals with surrogate pairs, and the
 value of wide character constants

---
 src/common.c                     | 12 ++++---
 src/preprocessor/string_concat.c | 60 ++++++++++++++++----------------
 2 files changed, 38 insertions(+), 34 deletions(-)

diff --git a/src/common.c b/src/common.c
index 7b9cfcc..2822d5d 100644
--- a/src/common.c
+++ b/src/common.c
@@ -59,7 +59,7 @@ intmax_t character_constant_to_int(struct string_view str) {
 	return constant;
 }
 
-intmax_t character_constant_wchar_to_int(struct string_view str) {
+static intmax_t character_constant_32_to_int(struct string_view str) {
 	assert(str.len % 4 == 0);
 	intmax_t constant = 0;
 
@@ -68,12 +68,16 @@ intmax_t character_constant_wchar_to_int(struct string_view str) {
 		constant |= (str.str[i] & 0xff) |
 			((str.str[i + 1] & 0xff) << 8) |
 			((str.str[i + 2] & 0xff) << 16) |
-			((str.str[i + 3] & 0xff) << 24);
+			((uint32_t)(str.str[i + 3] & 0xff) << 24);
 	}
 
 	return constant;
 }
 
+intmax_t character_constant_wchar_to_int(struct string_view str) {
+	return (int32_t)character_constant_32_to_int(str);
+}
+
 intmax_t character_constant_char16_to_int(struct string_view str) {
 	assert(str.len % 2 == 0);
 	intmax_t constant = 0;
@@ -84,11 +88,11 @@ intmax_t character_constant_char16_to_int(struct string_view str) {
 			((str.str[i + 1] & 0xff) << 8);
 	}
 
-	return constant;
+	return (uint16_t)constant;
 }
 
 intmax_t character_constant_char32_to_int(struct string_view str) {
-	return character_constant_wchar_to_int(str);
+	return (uint32_t)character_constant_32_to_int(str);
 }
 
 uint64_t gen_mask(unsigned char left_pad, unsigned char right_pad) {
diff --git a/src/preprocessor/string_concat.c b/src/preprocessor/string_concat.c
index bb7a3c5..ae5d228 100644
--- a/src/preprocessor/string_concat.c
+++ b/src/preprocessor/string_concat.c
@@ -53,6 +53,20 @@ static uint32_t take_utf8(struct string_view *input) {
 	return codepoint;
 }
 
+static int character_size(enum string_type type) {
+	switch (type) {
+	case STRING_U_SMALL: return 2;
+	case STRING_U_LARGE: return 4;
+	case STRING_L: return 4; // TODO: wchar_t is not always 4 bytes.
+	default: return 1;
+	}
+}
+
+static void buffer_write_character(uint32_t character, enum string_type type) {
+	for (int i = 0; i < character_size(type); i++)
+		buffer_write((character >> (8 * i)) & 0xff);
+}
+
 static int escape_char_to_buffer(struct string_view *input,
 								 char end_char,
 								 enum string_type type) {
@@ -61,7 +75,8 @@ static int escape_char_to_buffer(struct string_view *input,
 
 	uint32_t character;
 	const char *advance = input->str;
-	if (escape_sequence_read(&character, &advance, input->len)) {
+	int is_escape_sequence = escape_sequence_read(&character, &advance, input->len);
+	if (is_escape_sequence) {
 		sv_tail(input, advance - input->str);
 	} else {
 		if (type == STRING_L || type == STRING_U_LARGE ||
@@ -73,23 +88,13 @@ static int escape_char_to_buffer(struct string_view *input,
 		}
 	}
 
-	switch (type) {
-	case STRING_DEFAULT:
-	case STRING_U8:
-		buffer_write(character);
-		break;
-	case STRING_L:
-	case STRING_U_LARGE:
-		// TODO: Make this actually decode character
-		buffer_write(character & 0xff);
-		buffer_write((character >> 8) & 0xff);
-		buffer_write((character >> 16) & 0xff);
-		buffer_write((character >> 24) & 0xff);
-		break;
-	case STRING_U_SMALL:
-		buffer_write(character & 0xff);
-		buffer_write((character >> 8) & 0xff);
-		break;
+	if (!is_escape_sequence && character > 0xffff && character_size(type) == 2) {
+		// Encode as surrogate pair.
+		character -= 0x10000;
+		buffer_write_character(0xd800 | (character >> 10), type);
+		buffer_write_character(0xdc00 | (character & 0x3ff), type);
+	} else {
+		buffer_write_character(character, type);
 	}
 
 	return 1;
@@ -176,29 +181,19 @@ struct token string_concat_next(void) {
 		case STRING_DEFAULT:
 		case STRING_U8:
 			ret.type = T_STRING;
-			buffer_write('\0');
 			break;
 		case STRING_U_LARGE:
 			ret.type = T_STRING_CHAR32;
-			buffer_write('\0');
-			buffer_write('\0');
-			buffer_write('\0');
-			buffer_write('\0');
 			break;
 		case STRING_U_SMALL:
 			ret.type = T_STRING_CHAR16;
-			buffer_write('\0');
-			buffer_write('\0');
 			break;
 		case STRING_L:
 			ret.type = T_STRING_WCHAR;
-			buffer_write('\0');
-			buffer_write('\0');
-			buffer_write('\0');
-			buffer_write('\0');
 			break;
 		}
 
+		buffer_write_character(0, combined_type);
 		ret.str = buffer_get();
 		return ret;
 	}
@@ -247,5 +242,10 @@ intmax_t escaped_character_constant_to_int(struct token t) {
 		.str = buffer
 	};
 
-	return character_constant_to_int(tmp_view);
+	switch (type) {
+	case STRING_L: return character_constant_wchar_to_int(tmp_view);
+	case STRING_U_SMALL: return character_constant_char16_to_int(tmp_view);
+	case STRING_U_LARGE: return character_constant_char32_to_int(tmp_view);
+	default: return character_constant_to_int(tmp_view);
+	}
 }
-- 
2.43.0


From 82f1bd7458f8a02292d59cc38af5cd0c3bd8740b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:03 +0000
Subject: [PATCH 042/111] fix: diagnose empty character constants

---
 src/preprocessor/string_concat.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/preprocessor/string_concat.c b/src/preprocessor/string_concat.c
index ae5d228..c916d30 100644
--- a/src/preprocessor/string_concat.c
+++ b/src/preprocessor/string_concat.c
@@ -208,6 +208,8 @@ struct token string_concat_next(void) {
 
 		buffer_start();
 		escape_string_to_buffer(t.str, type);
+		if (!buffer_size)
+			ERROR(t.pos, "Empty character constant.");
 		t.str = buffer_get();
 
 		switch (type) {
@@ -234,6 +236,8 @@ intmax_t escaped_character_constant_to_int(struct token t) {
 	enum string_type type = take_string_prefix(&t.str);
 	buffer_start();
 	escape_string_to_buffer(t.str, type);
+	if (!buffer_size)
+		ERROR(t.pos, "Empty character constant.");
 
 	// No need to call buffer_get(), since we do not need
 	// a permanent string_view.
-- 
2.43.0


From ed8e97219a00b828057a3cc80a96750b03bfc79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:11 +0000
Subject: [PATCH 043/111] fix: raise the alignment of a section that is already
 at an aligned offset

---
 src/linker/object.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/linker/object.c b/src/linker/object.c
index 9be7e0d..5439d54 100644
--- a/src/linker/object.c
+++ b/src/linker/object.c
@@ -103,10 +103,9 @@ void object_write_zero(size_t size) {
 void object_align(size_t alignment) {
 	struct section *section = &current_object.sections[current_section];
 	size_t remainder = section->size % alignment;
-	if (remainder == 0)
-		return;
+	if (remainder != 0)
+		object_write_zero(alignment - remainder);
 
-	object_write_zero(alignment - remainder);
 	section->alignment = MAX(section->alignment, alignment);
 }
 
-- 
2.43.0


From f113b94f90eb176b839490d9319eeab027d75e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:20 +0000
Subject: [PATCH 044/111] fix: align strings with wide elements

---
 src/codegen/rodata.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/codegen/rodata.c b/src/codegen/rodata.c
index 3d39193..39ebca5 100644
--- a/src/codegen/rodata.c
+++ b/src/codegen/rodata.c
@@ -69,6 +69,7 @@ void rodata_codegen(void) {
 		if (entries[i].type != ENTRY_STR)
 			continue;
 
+		asm_align(4); // The string could have elements of up to 4 bytes.
 		asm_label(0, entries[i].id);
 
 		asm_string(entries[i].name);
-- 
2.43.0


From 63f23fc3e23408e46c10a2446d30bf6077cf83fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:17 +0000
Subject: [PATCH 045/111] fix: comments ending in more than one *, and reading
 past the end of the file

---
 src/preprocessor/tokenizer.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/preprocessor/tokenizer.c b/src/preprocessor/tokenizer.c
index 0ee8f03..58f68b9 100644
--- a/src/preprocessor/tokenizer.c
+++ b/src/preprocessor/tokenizer.c
@@ -166,7 +166,8 @@ static void parse_string_like(char end_char) {
 			}
 		}
 
-		next_char();
+		if (c != EQ_NULL)
+			next_char();
 	}
 
 	if (c != end_char)
@@ -228,8 +229,8 @@ restart:
 			goto restart;
 
 		case '*':
+			next_char();
 			for (;;) {
-				next_char();
 				if (c == '*') {
 					next_char();
 					if (c == '/') {
@@ -238,6 +239,8 @@ restart:
 					}
 				} else if (c == EQ_NULL) {
 					ERROR(pos, "Comment reached end of file");
+				} else {
+					next_char();
 				}
 			}
 			next.whitespace = 1;
-- 
2.43.0


From 511d710db3a7f6cc1e8e138dd172f43653861d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:26 +0000
Subject: [PATCH 046/111] fix: tokenize two adjacent dots as two tokens

---
 src/preprocessor/tokenizer.c | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/preprocessor/tokenizer.c b/src/preprocessor/tokenizer.c
index 58f68b9..fa43b38 100644
--- a/src/preprocessor/tokenizer.c
+++ b/src/preprocessor/tokenizer.c
@@ -132,6 +132,28 @@ static struct string_view remove_digit_separator(const char *initial_pos) {
 }
 
 
+// Consumes the two next characters if they are a and b.
+static int accept_pair(char a, char b) {
+	char old_c = c;
+	struct position old_pos = pos;
+	const char *old_str = str;
+	int old_needs_removed = needs_escape_sequences_removed;
+
+	if (c == a) {
+		next_char();
+		if (c == b) {
+			next_char();
+			return 1;
+		}
+	}
+
+	c = old_c;
+	pos = old_pos;
+	str = old_str;
+	needs_escape_sequences_removed = old_needs_removed;
+	return 0;
+}
+
 static void parse_number(void) {
 	for (;;) {
 		if (c == EQ_EXPONENT) {
@@ -337,10 +359,8 @@ restart:
 			break;
 
 		case '.':
-			next_char();
-			if (c != '.')
-				ERROR(pos, "Invalid token");
-			TYPE(T_ELLIPSIS);
+			if (accept_pair('.', '.'))
+				next.type = T_ELLIPSIS;
 			break;
 		}
 		break;
-- 
2.43.0


From be02b6e4dc1ce8d5d72f0789c1590eece29692d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:35 +0000
Subject: [PATCH 047/111] fix: digraphs

---
 src/preprocessor/macro_expander.c | 23 ----------------------
 src/preprocessor/tokenizer.c      | 32 ++++++++++++++++++++++++-------
 2 files changed, 25 insertions(+), 30 deletions(-)

diff --git a/src/preprocessor/macro_expander.c b/src/preprocessor/macro_expander.c
index 331bd17..4ef8da5 100644
--- a/src/preprocessor/macro_expander.c
+++ b/src/preprocessor/macro_expander.c
@@ -154,7 +154,6 @@ static void stringify_add(struct token *t, int start) {
 	if (!start && (t->whitespace || stringify_whitespace))
 		stringify_add_char(' ');
 	stringify_whitespace = t->whitespace_after;
-	const char *str = NULL;
 	switch (t->type) {
 	case T_STRING:
 	case T_CHARACTER_CONSTANT:
@@ -166,32 +165,10 @@ static void stringify_add(struct token *t, int start) {
 		}
 		break;
 
-#define KEY(A, B)
-#define X(A, B)
-#define SYM(TOKEN, STR) case TOKEN: str = STR; break;
-		#include "tokens.h"
-#undef KEY
-#undef X
-#undef SYM
-
-	case PP_HASH:
-	case PP_DIRECTIVE:
-		str = "#";
-		break;
-
-	case PP_HHASH:
-		str = "##";
-		break;
-
 	default:
 		for (int i = 0; i < t->str.len; i++)
 			stringify_add_char(t->str.str[i]);
 	}
-
-	if (str) {
-		for (int i = 0; str[i]; i++)
-			stringify_add_char(str[i]);
-	}
 }
 
 static int builtin_macros(struct token *t) {
diff --git a/src/preprocessor/tokenizer.c b/src/preprocessor/tokenizer.c
index fa43b38..f04f909 100644
--- a/src/preprocessor/tokenizer.c
+++ b/src/preprocessor/tokenizer.c
@@ -378,6 +378,24 @@ restart:
 		}
 		break;
 
+	case '%':
+		TYPE(T_MOD);
+		switch (c) {
+		case '=': TYPE(T_MODA); break;
+		case '>': TYPE(T_RBRACE); break;
+		case ':':
+			TYPE(PP_HASH);
+
+			if (accept_pair('%', ':')) {
+				next.type = PP_HHASH;
+			} else if (next.first_of_line) {
+				next.type = PP_DIRECTIVE;
+				*is_directive = 1;
+			}
+			break;
+		}
+		break;
+
 	case '<':
 		if (*is_header) {
 			TYPE(PP_HEADER_NAME_H);
@@ -393,6 +411,8 @@ restart:
 				break;
 
 			case '=': TYPE(T_LEQ); break;
+			case ':': TYPE(T_LBRACK); break;
+			case '%': TYPE(T_LBRACE); break;
 			}
 		}
 		break;
@@ -472,16 +492,14 @@ restart:
 		}
 		break;
 
-	case '%':
-		TYPE(T_MOD);
+	case '~': TYPE(T_BNOT); break;
+	case '?': TYPE(T_QUEST); break;
+	case ':':
+		TYPE(T_COLON);
 		switch (c) {
-		case '=': TYPE(T_MODA); break;
+		case '>': TYPE(T_RBRACK); break;
 		}
 		break;
-
-	case '~': TYPE(T_BNOT); break;
-	case '?': TYPE(T_QUEST); break;
-	case ':': TYPE(T_COLON); break;
 	case ';': TYPE(T_SEMI_COLON); break;
 	case '(': TYPE(T_LPAR); break;
 	case ')': TYPE(T_RPAR); break;
-- 
2.43.0


From 6746cb9427bd14ebe35831322f32ecd50327469b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:59 +0000
Subject: [PATCH 048/111] fix: only escape quotes and backslashes when
 stringifying

---
 src/preprocessor/macro_expander.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/preprocessor/macro_expander.c b/src/preprocessor/macro_expander.c
index 4ef8da5..9e1fc25 100644
--- a/src/preprocessor/macro_expander.c
+++ b/src/preprocessor/macro_expander.c
@@ -4,7 +4,6 @@
 #include "tokenizer.h"
 
 #include <common.h>
-#include <escape_sequence.h>
 
 #include <assert.h>
 
@@ -158,10 +157,9 @@ static void stringify_add(struct token *t, int start) {
 	case T_STRING:
 	case T_CHARACTER_CONSTANT:
 		for (int i = 0; i < t->str.len; i++) {
-			char escape_seq[5];
-			character_to_escape_sequence(t->str.str[i], escape_seq, 1);
-			for (int j = 0; escape_seq[j]; j++)
-				stringify_add_char(escape_seq[j]);
+			if (t->str.str[i] == '\\' || t->str.str[i] == '"')
+				stringify_add_char('\\');
+			stringify_add_char(t->str.str[i]);
 		}
 		break;
 
-- 
2.43.0


From 20b9679c38dd8b4b31580eba4d0c47ca066d087d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:08 +0000
Subject: [PATCH 049/111] fix: universal character names at the start of
 identifiers, and other characters as tokens

---
 src/preprocessor/tokenizer.c | 20 +++++++++++++-------
 src/preprocessor/tokens.h    |  1 +
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/preprocessor/tokenizer.c b/src/preprocessor/tokenizer.c
index f04f909..bb27089 100644
--- a/src/preprocessor/tokenizer.c
+++ b/src/preprocessor/tokenizer.c
@@ -203,12 +203,8 @@ static void parse_identifier(void) {
 		if (c == EQ_ALPHA || c == 'u' || c == 'U' || c == EQ_EXPONENT ||
 		    c == 'L' || c == EQ_DECIMAL || c == '8' || c == EQ_UTF8) {
 			next_char();
-		} else if (c == '\\') {
-			next_char();
-			if (c == 'u' || c == 'U') {
-				next_char();
-				needs_escape_sequences_removed = 1;
-			}
+		} else if (accept_pair('\\', 'u') || accept_pair('\\', 'U')) {
+			needs_escape_sequences_removed = 1;
 		} else {
 			break;
 		}
@@ -514,7 +510,17 @@ restart:
 		next.type = T_EOI;
 		break;
 
-	default: ERROR(next.pos, "Invalid token");
+	case '\\':
+		if (accept_pair('\\', 'u') || accept_pair('\\', 'U')) {
+			needs_escape_sequences_removed = 1;
+			next.type = T_IDENT;
+			parse_identifier();
+			break;
+		}
+		// fallthrough
+	default:
+		// Only allowed when it is not made into a token of the language.
+		TYPE(PP_OTHER);
 	}
 
 	next.str = (struct string_view){
diff --git a/src/preprocessor/tokens.h b/src/preprocessor/tokens.h
index aa223d6..b0db8b0 100644
--- a/src/preprocessor/tokens.h
+++ b/src/preprocessor/tokens.h
@@ -8,6 +8,7 @@ X(PP_HEADER_NAME_Q, "Header name")
 X(PP_HASH, "#")
 X(PP_HHASH, "##")
 X(PP_DIRECTIVE, "#")
+X(PP_OTHER, "Stray character")
 
 // Conditional tokens.
 X(COND_IF, "Conditional")
-- 
2.43.0


From b142d6c437bc09d2caca8883da0a9e60136f7838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:52 +0000
Subject: [PATCH 050/111] fix: vertical tab and form feed are white space

---
 src/preprocessor/tokenizer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/preprocessor/tokenizer.c b/src/preprocessor/tokenizer.c
index bb27089..89f865c 100644
--- a/src/preprocessor/tokenizer.c
+++ b/src/preprocessor/tokenizer.c
@@ -22,7 +22,7 @@ enum {
 };
 
 static char eq_table[UCHAR_MAX + 1] = {
-	1, 2,  2,  2,  2, 2,   2,  2,  2,  7,  10, 2,   2,   7,   2,   2,
+	1, 2,  2,  2,  2, 2,   2,  2,  2,  7,  10, 7,   7,   7,   2,   2,
 	2, 2,  2,  2,  2, 2,   2,  2,  2,  2,  2,  2,   2,   2,   2,   2,
 	7, 33, 34, 35, 9, 37,  38, 39, 40, 41, 42, 43,  44,  45,  46,  47,
 	5, 5,  5,  5,  5, 5,   5,  5,  56, 5,  58, 59,  60,  61,  62,  63,
-- 
2.43.0


From dd5525de855548b471603c0f49182cb508df8dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:05 +0000
Subject: [PATCH 051/111] fix: compound literals in static initializers
 misaligned data

---
 src/codegen/rodata.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/codegen/rodata.c b/src/codegen/rodata.c
index 39ebca5..87269e5 100644
--- a/src/codegen/rodata.c
+++ b/src/codegen/rodata.c
@@ -161,6 +161,8 @@ static void codegen_initializer_recursive(struct initializer *init, struct type
 
 void codegen_initializer(struct type *type, struct initializer *init);
 
+static void codegen_pre_initializer(struct initializer *init);
+
 static void codegen_compound_literals(struct expr **expr, int lvalue) {
 	switch ((*expr)->type) {
 	case E_DOT_OPERATOR:
@@ -174,6 +176,8 @@ static void codegen_compound_literals(struct expr **expr, int lvalue) {
 	case E_COMPOUND_LITERAL:
 		if (lvalue) {
 			label_id label = register_label();//register_label_name(sv_from_str(strdup(name)));
+			codegen_pre_initializer(&(*expr)->compound_literal.init);
+			asm_align(calculate_alignment((*expr)->compound_literal.type));
 			asm_label(0, label);
 			codegen_initializer((*expr)->compound_literal.type,
 								&(*expr)->compound_literal.init);
@@ -303,9 +307,13 @@ void codegen_initializer(struct type *type,
 }
 
 static void codegen_static_var(struct static_var *static_var) {
-	(void)static_var;
 	asm_section(".data");
 
+	// Compound literals are emitted first, so that they do not end up between
+	// the alignment and the label of the variable.
+	if (static_var->init.type != INIT_EMPTY)
+		codegen_pre_initializer(&static_var->init);
+
 	if (static_var->alignment)
 		asm_align(static_var->alignment);
 	else
@@ -316,8 +324,6 @@ static void codegen_static_var(struct static_var *static_var) {
 
 		asm_zero(calculate_size(static_var->type));
 	} else {
-		codegen_pre_initializer(&static_var->init);
-
 		asm_label(static_var->global, static_var->label_);
 
 		codegen_initializer(static_var->type, &static_var->init);
-- 
2.43.0


From c47b14461761c35a036e1f2f5278502181a9ea12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:39 +0000
Subject: [PATCH 052/111] fix: string initializers wrote past the end of their
 array

---
 src/parser/declaration.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index 5f0d054..1edd8ff 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -955,6 +955,10 @@ static int match_specific_string(struct type **type, struct initializer *init, s
 			*type = type_create(&complete_array_params, (*type)->children);
 		}
 
+		// The terminating null character is dropped if there is no room for it.
+		if ((size_t)str.len > (*type)->array.length * calculate_size(type_simple(char_type)))
+			str.len = (*type)->array.length * calculate_size(type_simple(char_type));
+
 		init->type = INIT_STRING;
 		init->string = str;
 
-- 
2.43.0


From 73dbf8fc08c1f09ac52677d9e42c22b594a871d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:47 +0000
Subject: [PATCH 053/111] fix: non-constant initializers of static objects were
 ignored

---
 src/codegen/rodata.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/codegen/rodata.c b/src/codegen/rodata.c
index 87269e5..ef15770 100644
--- a/src/codegen/rodata.c
+++ b/src/codegen/rodata.c
@@ -143,6 +143,8 @@ static void codegen_initializer_recursive(struct initializer *init, struct type
 										  -1, -1,
 										  buffer, labels, label_offsets,
 										  is_label);
+		} else {
+			ERROR_NO_POS("Initializer of object with static storage duration is not constant.");
 		}
 	} break;
 	case INIT_BRACE:
-- 
2.43.0


From a0a646a39d4f4e0fb624d03553c1d7bc281385a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:02 +0000
Subject: [PATCH 054/111] fix: r8-r15 and xmm8-xmm15 were encoded as the low
 registers without a REX prefix

---
 src/assembler/encode.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/assembler/encode.c b/src/assembler/encode.c
index db50d80..2cd30c8 100644
--- a/src/assembler/encode.c
+++ b/src/assembler/encode.c
@@ -239,16 +239,14 @@ static void assemble_encoding(uint8_t *output, int *len, struct encoding *encodi
 				modrm_mod = 3;
 
 				modrm_rm = register_index(o->reg.reg);
-				if (has_rex)
-					rex_b = (modrm_rm & 0x8) >> 3;
+				rex_b = (modrm_rm & 0x8) >> 3;
 				break;
 
 			case OPERAND_SSE_REG:
 				modrm_mod = 3;
 
 				modrm_rm = o->sse_reg;
-				if (has_rex)
-					rex_b = (modrm_rm & 0x8) >> 3;
+				rex_b = (modrm_rm & 0x8) >> 3;
 				break;
 
 			case OPERAND_MEM: {
@@ -283,7 +281,8 @@ static void assemble_encoding(uint8_t *output, int *len, struct encoding *encodi
 			break;
 
 		case OE_OPEXT:
-			op_ext = register_index(o->reg.reg);
+			op_ext = register_index(o->reg.reg) & 7;
+			rex_b = (register_index(o->reg.reg) & 0x8) >> 3;
 			break;
 
 		case OE_NONE:
-- 
2.43.0


From 722d14a9a9501e09a522eaf8599fa3ee15b0ec97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:11 +0000
Subject: [PATCH 055/111] fix: (%rbp) and (%r13) without displacement were
 encoded as (%rax) and (%r8)

---
 src/assembler/encode.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/assembler/encode.c b/src/assembler/encode.c
index 2cd30c8..164c801 100644
--- a/src/assembler/encode.c
+++ b/src/assembler/encode.c
@@ -68,12 +68,11 @@ static void encode_sib(struct operand *o, int *rex_b, int *rex_x, int *modrm_mod
 				*rex_b = 1;
 		} else if (o->mem.base == REG_RBP ||
 				   o->mem.base == REG_R13) {
-			*sib_index = 4;
+			*modrm_rm = 5;
 			*modrm_mod = 1;
 
 			*has_disp8 = 1;
 			*disp = 0;
-			*sib_base = 5;
 			if (o->mem.base == REG_R13)
 				*rex_b = 1;
 		} else {
-- 
2.43.0


From 7eb49ebdb57f3bf18a950e380471edff5984052b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:08 +0000
Subject: [PATCH 056/111] fix: scale and extended index register were not
 encoded

---
 src/assembler/encode.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/assembler/encode.c b/src/assembler/encode.c
index 164c801..43e26f6 100644
--- a/src/assembler/encode.c
+++ b/src/assembler/encode.c
@@ -50,7 +50,6 @@ static int register_index(enum reg reg) {
 static void encode_sib(struct operand *o, int *rex_b, int *rex_x, int *modrm_mod, int *modrm_rm,
 					   uint64_t *disp, int *has_disp8, int *has_disp32,
 					   int *has_sib, int *sib_scale, int *sib_index, int *sib_base) {
-	(void)sib_scale;
 	int disp_size = get_disp_size(o->mem.offset);
 
 	// (%reg)
@@ -146,6 +145,14 @@ static void encode_sib(struct operand *o, int *rex_b, int *rex_x, int *modrm_mod
 
 			*sib_index = register_index(o->mem.index) & 7;
 			*rex_x = (register_index(o->mem.index) & 0x8) >> 3;
+
+			switch (o->mem.scale) {
+			case 1: *sib_scale = 0; break;
+			case 2: *sib_scale = 1; break;
+			case 4: *sib_scale = 2; break;
+			case 8: *sib_scale = 3; break;
+			default: ICE("Invalid scale %d", o->mem.scale);
+			}
 		}
 	} else {
 		ICE("Params: %d (%d, %d, %d)", disp_size, o->mem.base, o->mem.index, o->mem.scale);
@@ -306,7 +313,7 @@ static void assemble_encoding(uint8_t *output, int *len, struct encoding *encodi
 			i--;
 	}
 
-	if (rex_b || rex_r) {
+	if (rex_b || rex_r || rex_x) {
 		has_rex = 1;
 	}
 
@@ -335,6 +342,7 @@ static void assemble_encoding(uint8_t *output, int *len, struct encoding *encodi
 			rex_byte |= 0x8;
 
 		rex_byte |= rex_b;
+		rex_byte |= rex_x << 1;
 		rex_byte |= rex_r << 2;
 
 		WRITE_8(rex_byte);
-- 
2.43.0


From bb73edd1b993c2d0cd0edda0f72b442b5f4f82bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:17 +0000
Subject: [PATCH 057/111] fix: addq of an immediate to a 32-bit register
 assembled as addb to %al

---
 src/assembler/instructions.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/assembler/instructions.h b/src/assembler/instructions.h
index 04db6a0..3ac1b74 100644
--- a/src/assembler/instructions.h
+++ b/src/assembler/instructions.h
@@ -93,7 +93,6 @@ struct encoding {
 // point.
 struct encoding encodings[] = {
 	{"addq", 0x05, .rex = 1, .rexw = 1, .operand_encoding = {{OE_NONE, 0}, {OE_IMM32, 0}}, .operand_accepts = {A_RAX(8), A_IMM32_S}},
-	{"addq", 0x04, .operand_encoding = {{OE_NONE, 0}, {OE_IMM8, 0}}, .operand_accepts = {A_REG(4), A_IMM8_S}},
 	{"addq", 0x83, .rex = 1, .rexw = 1, .operand_encoding = {{OE_MODRM_RM, 0}, {OE_IMM8, 0}}, .operand_accepts = {A_REG(8), A_IMM8_S}},
 	{"addq", 0x81, .rexw = 1, .operand_encoding = {{OE_MODRM_RM, 0}, {OE_IMM32, 0}}, .operand_accepts = {A_REG(8), A_IMM32_S}},
 	{"addl", 0x01, .slash_r = 1, .operand_encoding = {{OE_MODRM_RM, 0}, {OE_MODRM_REG, 0}}, .operand_accepts = {A_REG(4), A_REG(4)}},
-- 
2.43.0


From 3375f7d94acada635ed13437eca2d2d4252afab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:27 +0000
Subject: [PATCH 058/111] fix: negative immediates were truncated to unsigned
 immediate fields

---
 src/assembler/encode.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/assembler/encode.c b/src/assembler/encode.c
index 43e26f6..8753c4a 100644
--- a/src/assembler/encode.c
+++ b/src/assembler/encode.c
@@ -503,7 +503,7 @@ static int does_match(struct operand *o, struct operand_accepts *oa) {
 		long s = o->imm_label.offset;
 		if (o->type != OPERAND_IMM_LABEL)
 			return 0;
-		if (s > UINT8_MAX)
+		if (s < 0 || s > UINT8_MAX)
 			return 0;
 	} break;
 
@@ -519,7 +519,7 @@ static int does_match(struct operand *o, struct operand_accepts *oa) {
 		long s = o->imm_label.offset;
 		if (o->type != OPERAND_IMM_LABEL)
 			return 0;
-		if (s > UINT16_MAX)
+		if (s < 0 || s > UINT16_MAX)
 			return 0;
 	} break;
 
-- 
2.43.0


From 140a97474648c5096ce89c1d93b208bf13e9b102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:25 +0000
Subject: [PATCH 059/111] fix: ah, bh, ch and dh were encoded as al, bl, cl and
 dl

---
 src/assembler/encode.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/assembler/encode.c b/src/assembler/encode.c
index 8753c4a..46ba7fa 100644
--- a/src/assembler/encode.c
+++ b/src/assembler/encode.c
@@ -448,6 +448,10 @@ static void assemble_encoding(uint8_t *output, int *len, struct encoding *encodi
 }
 
 static int does_match(struct operand *o, struct operand_accepts *oa) {
+	// TODO: Encode ah, bh, ch, and dh.
+	if (o->type == OPERAND_REG && o->reg.upper_byte)
+		return 0;
+
 	switch (oa->type) {
 	case ACC_RAX:
 		if (o->type != OPERAND_REG)
-- 
2.43.0


From 7f1d996800f6f8f9d630bcbfbbb703ceeaf8e602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:34 +0000
Subject: [PATCH 060/111] fix: offset of a jump target was ignored in object
 output

---
 src/assembler/assembler.c | 2 +-
 src/assembler/encode.c    | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/assembler/assembler.c b/src/assembler/assembler.c
index 07a2e31..6f4f378 100644
--- a/src/assembler/assembler.c
+++ b/src/assembler/assembler.c
@@ -210,7 +210,7 @@ static void asm_ins_impl(const char *mnemonic, struct operand ops[4]) {
 
 			case 4:
 				if (rel->relative)
-					object_symbol_relocate(rel->label, rel->offset, -(len - rel->offset), RELOCATE_32_RELATIVE);
+					object_symbol_relocate(rel->label, rel->offset, rel->imm - (len - rel->offset), RELOCATE_32_RELATIVE);
 				else
 					object_symbol_relocate(rel->label, rel->offset, rel->imm, RELOCATE_32);
 				break;
diff --git a/src/assembler/encode.c b/src/assembler/encode.c
index 46ba7fa..23825ef 100644
--- a/src/assembler/encode.c
+++ b/src/assembler/encode.c
@@ -439,6 +439,7 @@ static void assemble_encoding(uint8_t *output, int *len, struct encoding *encodi
 				.label = rel_label,
 				.relative = 1
 			};
+			rel = 0;
 		}
 
 		WRITE_32(rel);
-- 
2.43.0


From ddf5d5f0d3c38394a925a042385536381eaab370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:35 +0000
Subject: [PATCH 061/111] fix: lea with a register as its source was assembled

---
 src/assembler/encode.c       | 5 +++++
 src/assembler/instructions.h | 6 ++++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/assembler/encode.c b/src/assembler/encode.c
index 23825ef..333380a 100644
--- a/src/assembler/encode.c
+++ b/src/assembler/encode.c
@@ -554,6 +554,11 @@ static int does_match(struct operand *o, struct operand_accepts *oa) {
 		}
 		break;
 
+	case ACC_MEM:
+		if (o->type != OPERAND_MEM)
+			return 0;
+		break;
+
 	case ACC_XMM_M128:
 	case ACC_XMM_M64:
 	case ACC_XMM_M32: // TODO: Differentiate M64 and M32?
diff --git a/src/assembler/instructions.h b/src/assembler/instructions.h
index 3ac1b74..968d14b 100644
--- a/src/assembler/instructions.h
+++ b/src/assembler/instructions.h
@@ -40,6 +40,7 @@ struct operand_accepts {
 		ACC_REL16,
 		ACC_REL32,
 		ACC_MODRM,
+		ACC_MEM,
 		ACC_XMM,
 		ACC_XMM_M32,
 		ACC_XMM_M64,
@@ -68,6 +69,7 @@ struct operand_accepts {
 #define A_XMM_M32 { .type = ACC_XMM_M32 }
 #define A_XMM_M64 { .type = ACC_XMM_M64 }
 #define A_XMM_M128 { .type = ACC_XMM_M128 }
+#define A_MEM {.type = ACC_MEM }
 #define A_MODRM(SIZE) {.type = ACC_MODRM, .reg.size = SIZE }
 #define A_REG_STAR(SIZE) {.type = ACC_REG_STAR, .reg.size = SIZE }
 #define A_RAX(SIZE) {.type = ACC_RAX, .reg.size = SIZE }
@@ -172,8 +174,8 @@ struct encoding encodings[] = {
 
 	{"movabsq", 0xb8, .rex = 1, .rexw = 1, .operand_encoding = {{OE_OPEXT, 0}, {OE_IMM64, 0}}, .operand_accepts = {A_REG(8), A_IMM64}},
 
-	{"leaq", 0x8d, .rex = 1, .rexw = 1, .slash_r = 1, .operand_encoding = {{OE_MODRM_REG, 0}, {OE_MODRM_RM, 0}}, .operand_accepts = {A_REG(8), A_MODRM(8)}},
-	{"leal", 0x8d, .slash_r = 1, .operand_encoding = {{OE_MODRM_REG, 0}, {OE_MODRM_RM, 0}}, .operand_accepts = {A_REG(4), A_MODRM(4)}},
+	{"leaq", 0x8d, .rex = 1, .rexw = 1, .slash_r = 1, .operand_encoding = {{OE_MODRM_REG, 0}, {OE_MODRM_RM, 0}}, .operand_accepts = {A_REG(8), A_MEM}},
+	{"leal", 0x8d, .slash_r = 1, .operand_encoding = {{OE_MODRM_REG, 0}, {OE_MODRM_RM, 0}}, .operand_accepts = {A_REG(4), A_MEM}},
 
 	{"movswl", 0x0f, .op2 = 0xbf, .slash_r = 1, .operand_encoding = {{OE_MODRM_REG, 0}, {OE_MODRM_RM, 0}}, .operand_accepts = {A_REG(4), A_MODRM(2)}},
 	{"movswq", 0x0f, .rexw = 1, .op2 = 0xbf, .slash_r = 1, .operand_encoding = {{OE_MODRM_REG, 0}, {OE_MODRM_RM, 0}}, .operand_accepts = {A_REG(8), A_MODRM(2)}},
-- 
2.43.0


From d8a39df6f53952103f86ec02a2572b0bdb08d915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:21 +0000
Subject: [PATCH 062/111] fix: ELF data sections were executable and not
 writable

---
 src/linker/elf.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/linker/elf.c b/src/linker/elf.c
index 104f7df..c32758d 100644
--- a/src/linker/elf.c
+++ b/src/linker/elf.c
@@ -332,7 +332,12 @@ static struct elf_file *elf_from_object(struct object *object) {
 			memcpy(elf_section->data, section->data, elf_section->size);
 		}
 
-		elf_section->header.sh_flags = SHF_ALLOC | SHF_EXECINSTR;
+		if (strcmp(section->name, ".text") == 0)
+			elf_section->header.sh_flags = SHF_ALLOC | SHF_EXECINSTR;
+		else if (strcmp(section->name, ".rodata") == 0)
+			elf_section->header.sh_flags = SHF_ALLOC;
+		else
+			elf_section->header.sh_flags = SHF_ALLOC | SHF_WRITE;
 		elf_section->header.sh_addralign = section->alignment;
 	}
 
-- 
2.43.0


From 76f65785ad54ccd1617eb82fd9c54d12114f54c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:30 +0000
Subject: [PATCH 063/111] fix: section alignment was lost when reading an ELF
 object

---
 src/linker/elf.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/linker/elf.c b/src/linker/elf.c
index c32758d..020dd08 100644
--- a/src/linker/elf.c
+++ b/src/linker/elf.c
@@ -217,6 +217,7 @@ static struct object *object_from_elf(struct elf_file *elf) {
 			.size = elf_section->size,
 			.cap = elf_section->size,
 			.data = elf_section->data,
+			.alignment = elf_section->header.sh_addralign,
 		};
 
 		if (elf_section->header.sh_name)
-- 
2.43.0


From 05713fad1ae2a18ef1dc668fa2e24d1a97a9f81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:40 +0000
Subject: [PATCH 064/111] fix: ELF relocation symbol index was truncated to 16
 bits

---
 src/linker/elf.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/linker/elf.c b/src/linker/elf.c
index 020dd08..44b3178 100644
--- a/src/linker/elf.c
+++ b/src/linker/elf.c
@@ -281,12 +281,12 @@ static struct object *object_from_elf(struct elf_file *elf) {
 			uint64_t r_addend = read_64(rela_data + 16);
 
 			int type = 0;
-			switch (r_info & 0xffff) {
+			switch (r_info & 0xffffffff) {
 			case R_X86_64_64: type = RELOCATE_64; break;
 			case R_X86_64_32S: type = RELOCATE_32; break;
 			case R_X86_64_PC32: type = RELOCATE_32_RELATIVE; break;
 			default:
-				ICE("Relocation %lu not implemented.", r_info & 0xffff);
+				ICE("Relocation %lu not implemented.", r_info & 0xffffffff);
 			}
 
 			if (!symbol_mapping)
@@ -298,7 +298,7 @@ static struct object *object_from_elf(struct elf_file *elf) {
 			*relocation = (struct object_relocation) {
 				.add = r_addend,
 				.offset = r_offset,
-				.idx = symbol_mapping[(r_info >> 32) & 0xffff],
+				.idx = symbol_mapping[r_info >> 32],
 				.type = type,
 			};
 		}
-- 
2.43.0


From 58c92bbb7396585d5264603ad84933858b0fc21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:33 +0000
Subject: [PATCH 065/111] fix: long COFF section names were looked up at the
 wrong string table offset

---
 src/linker/coff.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/linker/coff.c b/src/linker/coff.c
index 509dc51..eb17b60 100644
--- a/src/linker/coff.c
+++ b/src/linker/coff.c
@@ -225,7 +225,9 @@ static struct coff_file *coff_from_object(struct object *object) {
 			if (strlen(section->name) > 8) {
 				int idx = coff_register_string(&file, section->name);
 				// This is just stupid:
-				sprintf((char *)coff_section->header.name, "/%d", idx);
+				char name[16];
+				sprintf(name, "/%d", idx + 4);
+				memcpy(coff_section->header.name, name, MIN(strlen(name), 8));
 			} else {
 				strncpy((char *)coff_section->header.name, section->name, 8);
 			}
-- 
2.43.0


From 9de382b373275add43ca5e4354c06c01356cda8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:04 +0000
Subject: [PATCH 066/111] fix: references between linked objects ignored the
 symbol's value

---
 src/linker/linker.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/linker/linker.c b/src/linker/linker.c
index ed9ad91..1c5ea0f 100644
--- a/src/linker/linker.c
+++ b/src/linker/linker.c
@@ -73,17 +73,20 @@ static struct object *combine_objects(int n_objects, struct object *objects) {
 			if (!symbol->name) {
 				ICE("Invalid local relocation.\n");
 			}
-			int found_section = -1;
+			struct symbol *found = NULL;
 			for (unsigned j = 0; j < object.symbol_size; j++) {
 				if (object.symbols[j].name && object.symbols[j].global && object.symbols[j].section != -1) {
 					if (strcmp(object.symbols[j].name, symbol->name) == 0) {
 						if (object.symbols[j].section != -1)
-							found_section = object.symbols[j].section;
+							found = &object.symbols[j];
 					}
 				}
 			}
 
-			symbol->section = found_section;
+			if (found) {
+				symbol->section = found->section;
+				symbol->value = found->value;
+			}
 		}
 	}
 
-- 
2.43.0


From 0b1d3574de6f12b8c6cb058cab9ecf3763a89504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:13 +0000
Subject: [PATCH 067/111] fix: multiply defined symbols were linked silently

---
 src/linker/linker.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/linker/linker.c b/src/linker/linker.c
index 1c5ea0f..0602131 100644
--- a/src/linker/linker.c
+++ b/src/linker/linker.c
@@ -65,6 +65,19 @@ static struct object *combine_objects(int n_objects, struct object *objects) {
 		current_section_offset += objects[i].section_size;
 	}
 
+	for (unsigned i = 0; i < object.symbol_size; i++) {
+		struct symbol *symbol = &object.symbols[i];
+
+		if (!symbol->name || !symbol->global || symbol->section == -1)
+			continue;
+
+		for (unsigned j = 0; j < i; j++) {
+			if (object.symbols[j].name && object.symbols[j].global && object.symbols[j].section != -1 &&
+				strcmp(object.symbols[j].name, symbol->name) == 0)
+				ERROR_NO_POS("Linking error: Multiple definitions of \"%s\".", symbol->name);
+		}
+	}
+
 	// Link symbols.
 	for (unsigned i = 0; i < object.symbol_size; i++) {
 		struct symbol *symbol = &object.symbols[i];
-- 
2.43.0


From 20d74bff57b9c2ec5238a557deac4e33a93db4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:22 +0000
Subject: [PATCH 068/111] fix: the linker ignored the alignment of sections

---
 src/linker/linker.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/linker/linker.c b/src/linker/linker.c
index 0602131..1e8ab43 100644
--- a/src/linker/linker.c
+++ b/src/linker/linker.c
@@ -132,14 +132,19 @@ struct executable *linker_link(int n_objects, struct object *_objects) {
 	// Move sections into segment.
 	for (unsigned i = 0; i < object->section_size; i++) {
 		struct section *section = &object->sections[i];
-		uint8_t *dest = segment->data;
+
+		size_t padding = section->alignment ? -segment->size % section->alignment : 0;
+		if (padding) {
+			uint8_t *dest = ADD_ELEMENTS(segment->size, segment->cap, segment->data, padding);
+			memset(dest, 0, padding);
+		}
+
+		size_t offset = segment->size;
 		if (section->size) {
-			dest = ADD_ELEMENTS(segment->size, segment->cap, segment->data, section->size);
+			uint8_t *dest = ADD_ELEMENTS(segment->size, segment->cap, segment->data, section->size);
 			memcpy(dest, section->data, section->size);
 		}
 
-		size_t offset = dest - segment->data;
-
 		section_infos[i] = (struct section_info) {
 			.offset = offset,
 			.segment_idx = 0
-- 
2.43.0


From f001587afd8dbbe6af9a166bec061dc496f989c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:31 +0000
Subject: [PATCH 069/111] fix: linking looked up the section of unreferenced
 undefined symbols

---
 src/linker/linker.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/linker/linker.c b/src/linker/linker.c
index 1e8ab43..c6a8b7a 100644
--- a/src/linker/linker.c
+++ b/src/linker/linker.c
@@ -191,6 +191,9 @@ struct executable *linker_link(int n_objects, struct object *_objects) {
 	for (unsigned i = 0; i < object->symbol_size; i++) {
 		struct symbol *symbol = &object->symbols[i];
 
+		if (symbol->section == -1)
+			continue;
+
 		struct section_info *symbol_section_info = &section_infos[symbol->section];
 		struct segment *symbol_segment = &executable.segments[symbol_section_info->segment_idx];
 
-- 
2.43.0


From 4c315c49fa1dff9c3694e3e017b74415aa97d2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:27 +0000
Subject: [PATCH 070/111] fix: failures to open or write an object file were
 ignored

---
 src/common.c      | 17 +++++++++++++++++
 src/common.h      |  2 ++
 src/linker/coff.c |  4 ++--
 src/linker/elf.c  |  9 +++++----
 4 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/common.c b/src/common.c
index 2822d5d..ddeb793 100644
--- a/src/common.c
+++ b/src/common.c
@@ -139,6 +139,23 @@ uint64_t read_64(uint8_t *data) {
 	return read_32(data) | ((uint64_t)read_32(data + 4) << 32);
 }
 
+FILE *file_open(const char *path, const char *mode) {
+	FILE *fp = fopen(path, mode);
+
+	if (!fp)
+		ERROR_NO_POS("Could not open file %s.", path);
+
+	return fp;
+}
+
+// Closes a file that has been written to.
+void file_close(FILE *fp, const char *path) {
+	int failed = ferror(fp);
+
+	if (fclose(fp) != 0 || failed)
+		ERROR_NO_POS("Could not write to file %s.", path);
+}
+
 void file_write(FILE *fp, const void *ptr, size_t size) {
 	if (size == 0)
 		return;
diff --git a/src/common.h b/src/common.h
index 56ebf52..f99397a 100644
--- a/src/common.h
+++ b/src/common.h
@@ -57,6 +57,8 @@ uint16_t read_16(uint8_t *data);
 uint32_t read_32(uint8_t *data);
 uint64_t read_64(uint8_t *data);
 
+FILE *file_open(const char *path, const char *mode);
+void file_close(FILE *fp, const char *path);
 void file_write(FILE *fp, const void *ptr, size_t size);
 void file_write_byte(FILE *fp, uint8_t byte);
 void file_write_word(FILE *fp, uint16_t word);
diff --git a/src/linker/coff.c b/src/linker/coff.c
index eb17b60..e64a72c 100644
--- a/src/linker/coff.c
+++ b/src/linker/coff.c
@@ -336,7 +336,7 @@ static void coff_allocate(struct coff_file *coff) {
 }
 
 static void coff_write(const char *path, struct coff_file *coff) {
-	FILE *fp = fopen(path, "wb");
+	FILE *fp = file_open(path, "wb");
 	coff_write_header(fp, &coff->header);
 
 	for (unsigned i = 0; i < coff->header.number_of_sections; i++) {
@@ -358,7 +358,7 @@ static void coff_write(const char *path, struct coff_file *coff) {
 		}
 	}
 
-	fclose(fp);
+	file_close(fp, path);
 }
 
 void coff_write_object(const char *path, struct object *object) {
diff --git a/src/linker/elf.c b/src/linker/elf.c
index 44b3178..d2e710a 100644
--- a/src/linker/elf.c
+++ b/src/linker/elf.c
@@ -553,7 +553,8 @@ static void read_zero(FILE *fp, size_t size) {
 }
 
 static void read_skip(FILE *fp, unsigned long pos) {
-	fseek(fp, pos, SEEK_SET);
+	if (fseek(fp, pos, SEEK_SET) != 0)
+		ICE("Could not read from file");
 }
 
 static const uint8_t magic[4] = {0x7f, 0x45, 0x4c, 0x46};
@@ -751,17 +752,17 @@ static void write_segments(FILE *fp, struct elf_file *elf) {
 }
 
 static void elf_write(const char *path, struct elf_file *elf) {
-	FILE *fp = fopen(path, "wb");
+	FILE *fp = file_open(path, "wb");
 
 	write_header(fp, elf);
 	write_sections(fp, elf);
 	write_segments(fp, elf);
 
-	fclose(fp);
+	file_close(fp, path);
 }
 
 static struct elf_file *elf_read(const char *path) {
-	FILE *fp = fopen(path, "rb");
+	FILE *fp = file_open(path, "rb");
 	struct elf_file elf = { 0 };
 
 	int not_elf = read_header(fp, &elf);
-- 
2.43.0


From 5803417d5716ad2a7a386895d81c2c9212888183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:51 +0000
Subject: [PATCH 071/111] fix: failures to write dependency and graph files
 were ignored

---
 src/ir/export_dot.c           | 6 ++++--
 src/preprocessor/directives.c | 4 ++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/ir/export_dot.c b/src/ir/export_dot.c
index 5efd314..315e5e1 100644
--- a/src/ir/export_dot.c
+++ b/src/ir/export_dot.c
@@ -3,6 +3,8 @@
 
 #include <debug.h>
 
+#include <common.h>
+
 #include <stdio.h>
 
 static FILE *fp = NULL;
@@ -58,7 +60,7 @@ static void add_recursive(struct node *start) {
 }
 
 void export_dot(const char *path) {
-	fp = fopen(path, "w");
+	fp = file_open(path, "w");
 	fprintf(fp, "digraph graphname {\n");
 
 	int count = 0;
@@ -107,5 +109,5 @@ void export_dot(const char *path) {
 	add_recursive(first_function);
 
 	fprintf(fp, "}\n");
-	fclose(fp);
+	file_close(fp, path);
 }
diff --git a/src/preprocessor/directives.c b/src/preprocessor/directives.c
index db54e84..0f692a2 100644
--- a/src/preprocessor/directives.c
+++ b/src/preprocessor/directives.c
@@ -62,14 +62,14 @@ void directiver_write_dependencies(void) {
 void directiver_finish_writing_dependencies(const char *mt, const char *mf) {
 	write_dependencies = 1;
 
-	FILE *fp = fopen(mf, "w");
+	FILE *fp = file_open(mf, "w");
 
 	fprintf(fp, "%s:", mt);
 	for (unsigned i = 0; i < dep_size; i++)
 		fprintf(fp, " %s", deps[i]);
 	fprintf(fp, "\n");
 
-	fclose(fp);
+	file_close(fp, mf);
 }
 
 // Resets all global state. Not very elegant.
-- 
2.43.0


From c5528ae7645d0cc06972a86f9ee1210bea6e925d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:01 +0000
Subject: [PATCH 072/111] fix: failures to write assembly output were ignored

---
 src/assembler/assembler.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/assembler/assembler.c b/src/assembler/assembler.c
index 6f4f378..dd8cf93 100644
--- a/src/assembler/assembler.c
+++ b/src/assembler/assembler.c
@@ -17,6 +17,7 @@
 static int assemble_to_text = 0;
 
 static FILE *out;
+static const char *out_path;
 static const char *current_section;
 
 static struct object *out_object;
@@ -24,6 +25,7 @@ static struct object *out_object;
 void asm_reset(void) {
 	assemble_to_text = 0;
 	out = NULL;
+	out_path = NULL;
 	current_section = NULL;
 	out_object = NULL;
 }
@@ -33,6 +35,7 @@ void asm_init_text_out(const char *path) {
 	current_section = ".text";
 
 	out = fopen(path, "w");
+	out_path = path;
 
 	if (!out)
 		ICE("Could not open file %s", path);
@@ -45,7 +48,7 @@ void asm_init_object(struct object *object) {
 
 void asm_finish(void) {
 	if (assemble_to_text) {
-		fclose(out);
+		file_close(out, out_path);
 	} else {
 		*out_object = *object_finish();
 	}
-- 
2.43.0


From 7899dadd9941f5343fd92760d3c0355f421a2e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:10 +0000
Subject: [PATCH 073/111] fix: failures to read a source file were ignored

---
 src/preprocessor/input.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/preprocessor/input.c b/src/preprocessor/input.c
index b2f5194..dc3ca71 100644
--- a/src/preprocessor/input.c
+++ b/src/preprocessor/input.c
@@ -12,12 +12,16 @@ static const char **paths = NULL;
 static struct string_set disabled_headers;
 
 static struct input input_create(const char *path, FILE *fp) {
-	fseek(fp, 0, SEEK_END);
-	size_t size = ftell(fp);
-	rewind(fp);
+	long size = -1;
+	if (fseek(fp, 0, SEEK_END) == 0)
+		size = ftell(fp);
 
-	char *contents = cc_malloc(size + 1);
-	fread(contents, size, 1, fp);
+	if (size < 0 || fseek(fp, 0, SEEK_SET) != 0)
+		ERROR_NO_POS("Could not read file %s.", path);
+
+	char *contents = cc_malloc((size_t)size + 1);
+	if (size && fread(contents, size, 1, fp) != 1)
+		ERROR_NO_POS("Could not read file %s.", path);
 	contents[size] = '\0';
 
 	return (struct input) { .path = path, .contents = contents };
-- 
2.43.0


From 591cce7e80137a37b63496583221c8e15f7d7366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:20 +0000
Subject: [PATCH 074/111] fix: failures to write preprocessed output were
 ignored

---
 src/main.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/main.c b/src/main.c
index 2c648e5..e851257 100644
--- a/src/main.c
+++ b/src/main.c
@@ -335,5 +335,8 @@ int main(int argc, char **argv) {
 
 	arguments_free(&arguments);
 
+	if (fflush(stdout) != 0 || ferror(stdout))
+		ERROR_NO_POS("Could not write to standard output.");
+
 	return 0;
 }
-- 
2.43.0


From 0046bb0fe61219bd5e37a5da40b30eba803d73a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:02 +0000
Subject: [PATCH 075/111] fix: tentative definitions of an earlier input file
 were considered again

---
 src/parser/declaration.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index 1edd8ff..5ab1315 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -1463,4 +1463,6 @@ void generate_tentative_definitions(void) {
 			symbol->is_tentative = 0;
 		}
 	}
+
+	potentially_tentative.size = 0;
 }
-- 
2.43.0


From e246e4c5cac2e4bfbb946a98005f2dee2e3b4596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:11 +0000
Subject: [PATCH 076/111] fix: strings and variables of earlier input files
 were emitted again

---
 src/codegen/rodata.c | 5 +++++
 src/codegen/rodata.h | 1 +
 src/main.c           | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/src/codegen/rodata.c b/src/codegen/rodata.c
index ef15770..c2aadc9 100644
--- a/src/codegen/rodata.c
+++ b/src/codegen/rodata.c
@@ -106,6 +106,11 @@ void data_register_static_var(struct string_view label, struct type *type, struc
 	};
 }
 
+void rodata_reset(void) {
+	entries_size = 0;
+	static_vars_size = 0;
+}
+
 static void codegen_initializer_recursive(struct initializer *init, struct type *type,
 								   int bit_size, int bit_offset,
 								   uint8_t *buffer, label_id *labels,
diff --git a/src/codegen/rodata.h b/src/codegen/rodata.h
index 1dfc83d..2cf7e07 100644
--- a/src/codegen/rodata.h
+++ b/src/codegen/rodata.h
@@ -12,6 +12,7 @@ label_id register_label(void);
 void rodata_get_label(label_id id, int n, char buffer[]);
 
 void rodata_codegen(void);
+void rodata_reset(void);
 
 struct type;
 struct initializer;
diff --git a/src/main.c b/src/main.c
index e851257..cdaddc0 100644
--- a/src/main.c
+++ b/src/main.c
@@ -4,6 +4,7 @@
 #include "parser/parser.h"
 #include "parser/symbols.h"
 #include "codegen/codegen.h"
+#include "codegen/rodata.h"
 #include "common.h"
 #include "assembler/assembler.h"
 #include "linker/elf.h"
@@ -221,6 +222,7 @@ static void compile_file(const char *path,
 	preprocessor_reset();
 	ir_reset();
 	asm_reset();
+	rodata_reset();
 	parser_reset();
 }
 
@@ -277,6 +279,7 @@ static void preprocess_file(const char *path, struct arguments *arguments) {
 	preprocessor_reset();
 	ir_reset();
 	asm_reset();
+	rodata_reset();
 	parser_reset();
 }
 
-- 
2.43.0


From b4caae618d1c8882326146303f7e5c76590b793f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:21 +0000
Subject: [PATCH 077/111] fix: the nodes of earlier input files were optimised
 and scheduled again

---
 src/ir/ir.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ir/ir.c b/src/ir/ir.c
index 1b6a461..0a9fb00 100644
--- a/src/ir/ir.c
+++ b/src/ir/ir.c
@@ -82,6 +82,8 @@ void ir_reset(void) {
 	free(seals);
 	seal_size = seal_cap = 0;
 	seals = NULL;
+
+	nodes_size = 0;
 }
 
 static void set_state(struct node *node);
-- 
2.43.0


From 5cd6a99e474594db05b426f4dde82265f17f15ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:30 +0000
Subject: [PATCH 078/111] fix: __func__ outside of a function named the
 previous function

---
 src/parser/function_parser.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser/function_parser.c b/src/parser/function_parser.c
index 9c47b24..901908c 100644
--- a/src/parser/function_parser.c
+++ b/src/parser/function_parser.c
@@ -570,4 +570,5 @@ void parse_function(struct string_view name, struct type *type, int arg_n, struc
 	}
 	
 	symbols_pop_scope();
+	current_function = (struct string_view) { 0 };
 }
-- 
2.43.0


From e38622e491bc40e19bca873cb4e45e9924634f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:04 +0000
Subject: [PATCH 079/111] fix: unrecognized options were ignored or taken for
 input files

---
 src/arguments.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/arguments.c b/src/arguments.c
index 322fd12..a28aa26 100644
--- a/src/arguments.c
+++ b/src/arguments.c
@@ -61,14 +61,12 @@ struct arguments arguments_parse(int argc, char **argv) {
 			if (arg[0] == '-' && arg[1] == 'M') {
 				arg += 2;
 
-				if (!*arg)
-					NOTIMP();
-
 				int cont = 1, ignore = 0;
 				switch (*arg) {
 				case 'D': ret.flag_MD = 1; cont = 0; break;
 				case 'T': next_state = S_MT; break;
 				case 'F': next_state = S_MF; break;
+				default: ERROR_NO_POS("Unrecognized flag: \"-M%s\"", arg);
 				}
 
 				arg++;
@@ -77,7 +75,7 @@ struct arguments arguments_parse(int argc, char **argv) {
 					if (cont) {
 						next_arg = arg;
 					} else if (!ignore) {
-						ERROR_NO_POS("Unrecognized flag: \"%s\"", argv[i]);
+						ERROR_NO_POS("Unrecognized flag: \"%s\"", argv[i - 1]);
 					}
 				}
 			} else if (arg[0] == '-' && arg[1] == 's' && arg[2] == 't' && arg[3] == 'd') {
@@ -103,6 +101,7 @@ struct arguments arguments_parse(int argc, char **argv) {
 				case 'L': next_state = S_LIBRARY_DIR; break;
 				case 'l': next_state = S_LIBRARY; break;
 				case 'f': next_state = S_FLAG; break;
+				default: ERROR_NO_POS("Unrecognized flag: \"-%s\"", arg);
 				}
 
 				arg++;
@@ -111,7 +110,7 @@ struct arguments arguments_parse(int argc, char **argv) {
 					if (cont) {
 						next_arg = arg;
 					} else if (!ignore) {
-						ERROR_NO_POS("Unrecognized flag: \"%s\"", argv[i]);
+						ERROR_NO_POS("Unrecognized flag: \"%s\"", argv[i - 1]);
 					}
 				}
 			} else {
-- 
2.43.0


From 117b587f025486aedcec3640e1d93ee6a7e34408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:14 +0000
Subject: [PATCH 080/111] fix: an option at the end of the command line without
 its argument was ignored

---
 src/arguments.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/arguments.c b/src/arguments.c
index a28aa26..ba07456 100644
--- a/src/arguments.c
+++ b/src/arguments.c
@@ -141,6 +141,9 @@ struct arguments arguments_parse(int argc, char **argv) {
 		state = next_state;
 	}
 
+	if (state != S_OPERAND)
+		ERROR_NO_POS("Missing argument to option.");
+
 	ret.n_operand = operand_size;
 	ret.operands = operands;
 
-- 
2.43.0


From 0300ad63ab56100b018d2d450bcb3687d9ba0aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:31 +0000
Subject: [PATCH 081/111] fix: -U could not be combined with -E

---
 src/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index cdaddc0..4915ec9 100644
--- a/src/main.c
+++ b/src/main.c
@@ -255,7 +255,7 @@ static void preprocess_file(const char *path, struct arguments *arguments) {
 		add_definition(arguments->defines[i]);
 
 	for (int i = 0; i < arguments->n_undefine; i++)
-		NOTIMP();
+		define_remove(arguments->undefines[i]);
 
 	if (arguments->flag_MD)
 		preprocessor_write_dependencies();
-- 
2.43.0


From 510eebe1a716a13b1107bb1a66ed17ee4ce888c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:42 +0000
Subject: [PATCH 082/111] fix: the extension of very short file names was read
 outside of the name

---
 src/main.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index 4915ec9..9efa50e 100644
--- a/src/main.c
+++ b/src/main.c
@@ -60,7 +60,8 @@ static struct string_view get_basename(const char *path) {
 }
 
 static int is_ext_file(struct string_view view, char ext) {
-	return view.str[view.len - 2] == '.' &&
+	return view.len >= 2 &&
+		view.str[view.len - 2] == '.' &&
 		view.str[view.len - 1] == ext;
 }
 
-- 
2.43.0


From d1ce8b34e3462fc6b12d28b6966e5aa787b6cc9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:53 +0000
Subject: [PATCH 083/111] fix: unrecognized -f options were ignored

---
 src/main.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main.c b/src/main.c
index 9efa50e..5219bee 100644
--- a/src/main.c
+++ b/src/main.c
@@ -114,6 +114,8 @@ static void set_flags(struct arguments *arguments) {
 		} else if (strncmp(flag, "dump-ir=", 8) == 0) {
 			dump_ir_path = strdup(flag + 8);
 			printf("Dumping to %s\n", dump_ir_path);
+		} else {
+			ERROR_NO_POS("Unrecognized flag: \"-f%s\"", flag);
 		}
 	}
 }
-- 
2.43.0


From b7cd85d050e31a89aab4c978173d2f914e66fd9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:25 +0000
Subject: [PATCH 084/111] fix: a command line without input files was accepted

---
 src/main.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/main.c b/src/main.c
index 5219bee..c7ad740 100644
--- a/src/main.c
+++ b/src/main.c
@@ -289,6 +289,9 @@ static void preprocess_file(const char *path, struct arguments *arguments) {
 int main(int argc, char **argv) {
 	struct arguments arguments = arguments_parse(argc, argv);
 
+	if (arguments.n_operand == 0)
+		ERROR_NO_POS("No input files.");
+
 	int will_link = !(arguments.flag_S || arguments.flag_c || arguments.flag_E);
 
 	if (will_link) {
-- 
2.43.0


From bdc54f88087c2c4f443cdf91fcc5113cbb54180f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:25:16 +0000
Subject: [PATCH 085/111] fix: with both -S and -c the assembly was overwritten
 by an empty object file

---
 src/main.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/main.c b/src/main.c
index c7ad740..88c3807 100644
--- a/src/main.c
+++ b/src/main.c
@@ -194,12 +194,13 @@ static void compile_file(const char *path,
 
 	codegen();
 
-	if (arguments->flag_c) {
+	if (arguments->flag_S) {
+		// codegen() has already written the assembly.
+	} else if (arguments->flag_c) {
 		switch (abi) {
 		case ABI_SYSV: elf_write_object(outfile, &out_object); break;
 		case ABI_MICROSOFT: coff_write_object(outfile, &out_object); break;
 		}
-	} else if (arguments->flag_S) {
 	} else {
 		ADD_ELEMENT(object_size, object_cap, objects) = out_object;
 	}
-- 
2.43.0


From 6fe842646d4882e675fcca04f4df3aae3102bf37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:36 +0000
Subject: [PATCH 086/111] fix: array declarators had no position, so their
 errors printed an indeterminate one

---
 src/parser/declaration.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index 5ab1315..b7c0ccd 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -872,7 +872,7 @@ struct type_ast *parse_declarator(int *was_abstract, int *has_symbols) {
 	while (T0->type == T_LPAR ||
 		   T0->type == T_LBRACK) {
 		if (TACCEPT(T_LBRACK)) {
-			struct type_ast arr;
+			struct type_ast arr = { .pos = T0->pos };
 			arr.type = TAST_ARRAY;
 
 			int need_expression = 0;
-- 
2.43.0


From ef7960d981a89be0a64251c3d1d2f67def154a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:44 +0000
Subject: [PATCH 087/111] fix: the members of an incomplete structure were
 looked up in uninitialised memory

---
 src/types.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/types.c b/src/types.c
index c573260..af5dc5a 100644
--- a/src/types.c
+++ b/src/types.c
@@ -176,11 +176,11 @@ struct type *type_remove_qualifications(struct type *type) {
 
 // TODO: make this better.
 struct struct_data *register_struct(void) {
-	return cc_malloc(sizeof (struct struct_data));
+	return ALLOC((struct struct_data) { 0 });
 }
 
 struct enum_data *register_enum(void) {
-	return cc_malloc(sizeof (struct enum_data));
+	return ALLOC((struct enum_data) { 0 });
 }
 
 int type_search_member(struct type *type, struct string_view name,
-- 
2.43.0


From bf92fbf701676271deed814981b84602e9252c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:41:35 +0000
Subject: [PATCH 088/111] fix: relocations against section symbols of object
 files used an indeterminate symbol index

---
 src/linker/elf.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/linker/elf.c b/src/linker/elf.c
index d2e710a..c92c962 100644
--- a/src/linker/elf.c
+++ b/src/linker/elf.c
@@ -235,6 +235,8 @@ static struct object *object_from_elf(struct elf_file *elf) {
 		size_t ent_count = symtab_section->header.sh_size / ent_size;
 
 		symbol_mapping = cc_malloc(sizeof *symbol_mapping * ent_count);
+		for (unsigned j = 0; j < ent_count; j++)
+			symbol_mapping[j] = -1;
 
 		for (unsigned j = 1; j < ent_count; j++) {
 			uint8_t *symbol_data = symtab_section->data + j * ent_size;
@@ -292,6 +294,9 @@ static struct object *object_from_elf(struct elf_file *elf) {
 			if (!symbol_mapping)
 				ICE("Invalid elf-file");
 
+			if (symbol_mapping[r_info >> 32] < 0)
+				ICE("Relocation against symbol of unsupported type.");
+
 			struct object_relocation *relocation =
 				&ADD_ELEMENT(target_section->relocation_size, target_section->relocation_cap, target_section->relocations);
 
-- 
2.43.0


From da0e228c979785d9356325a4d3c6f0848bd47e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:23:15 +0000
Subject: [PATCH 089/111] fix: a trailing comma in a parameter list was
 accepted

---
 src/parser/declaration.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index b7c0ccd..d4dc7c2 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -765,6 +765,9 @@ static struct parameter_list parse_parameter_list(void) {
 			break;
 
 		TEXPECT(T_COMMA);
+
+		if (T0->type == T_RPAR)
+			ERROR(T0->pos, "Expected parameter declaration");
 	}
 
 	if (TACCEPT(T_ELLIPSIS)) {
-- 
2.43.0


From ede9541266d80c645837c41b87840ddc3702d8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:23:24 +0000
Subject: [PATCH 090/111] fix: enumerators accepted values that are not integer
 constants

---
 src/parser/declaration.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index d4dc7c2..5e0ba7f 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -251,6 +251,9 @@ static int parse_enumerator(struct constant *prev, int first) {
 		if (!ret)
 			ERROR(T0->pos, "Could not evaluate constant expression, is of type %d", expr->type);
 
+		if (ret->type != CONSTANT_TYPE || !type_is_integer(ret->data_type))
+			ERROR(T0->pos, "Enumerator value must be an integer constant expression");
+
 		val = *ret;
 	} else {
 		if (!first)
-- 
2.43.0


From 2720892643d34621306dec694da7ae0da056cbae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:23:33 +0000
Subject: [PATCH 091/111] fix: invalid structure members crashed instead of
 being diagnosed

---
 src/parser/declaration.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index 5e0ba7f..26feedb 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -395,9 +395,11 @@ int parse_struct(struct type_specifiers *ts) {
 
 					type = ast_to_type(&s.ts, &s.tq, NULL, NULL, 0);
 					struct expr *bitfield_expr = parse_assignment_expression();
+					if (!bitfield_expr)
+						ERROR(T0->pos, "Expected expression");
 					struct constant *c = expression_to_constant(
 						expression_cast(bitfield_expr, type_simple(ST_INT)));
-					if (!c)
+					if (!c || c->type != CONSTANT_TYPE)
 						ERROR(T0->pos, "Bit-field must be a constant expression");
 					if (!type_is_simple(c->data_type, ST_INT))
 						ERROR(T0->pos, "Bit-field must an integer");
@@ -421,7 +423,7 @@ int parse_struct(struct type_specifiers *ts) {
 			TEXPECT(T_SEMI_COLON);
 
 			if (!found_one) {
-				if (s.ts.data_type->type == TY_STRUCT) {
+				if (s.ts.data_type && s.ts.data_type->type == TY_STRUCT) {
 					ADD_ELEMENT(fields_size, fields_cap, fields) = (struct field) {
 						.type = s.ts.data_type,
 						.name = { 0 },
-- 
2.43.0


From 1e2c04d31e6054e23f757931368dfa0d8a4cd3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:23:41 +0000
Subject: [PATCH 092/111] fix: _Alignas of something that is not constant
 crashed instead of being diagnosed

---
 src/parser/declaration.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index 26feedb..a1d08c3 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -196,10 +196,15 @@ static int parse_specifier(struct type_specifiers *ts,
 			else
 				length_expr = parse_expression();
 
+			if (!length_expr)
+				ERROR(T0->pos, "Expected expression");
+
 			length_expr = expression_cast(length_expr, type_simple(ST_ULLONG));
 
 			TEXPECT(T_RPAR);
 			struct constant *constant = expression_to_constant(length_expr);
+			if (!constant)
+				ERROR(T0->pos, "_Alignas must have a constant expression or type as argument.");
 			if (constant->type != CONSTANT_TYPE || !type_is_simple(constant->data_type, ST_ULLONG)) {
 				ERROR(T0->pos, "_Alignas must have a constant expression or type as argument. %d", constant->data_type->type);
 			}
-- 
2.43.0


From 526bc34f5cca3a0266fdde295effa8fbcbe67a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:23:50 +0000
Subject: [PATCH 093/111] fix: several storage class specifiers in one
 declaration were accepted

---
 src/parser/declaration.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index a1d08c3..3aded90 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -236,6 +236,10 @@ static int parse_specifiers(struct type_specifiers *ts,
 	while (parse_specifier(ts, scs, tq, fs, as, &got_ts)) {
 		matched = 1;
 	}
+
+	if (scs && scs->typedef_n + scs->extern_n + scs->static_n + scs->auto_n + scs->register_n > 1)
+		ERROR(T0->pos, "More than one storage class specifier");
+
 	return matched;
 }
 
-- 
2.43.0


From 868551eb35fc54168772da7641551357d14cc963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:24:01 +0000
Subject: [PATCH 094/111] fix: struct, union and enum specifiers without tag
 and body were accepted

---
 src/parser/declaration.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index 3aded90..97a3e91 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -296,6 +296,9 @@ int parse_enum(struct type_specifiers *ts) {
 		name = T0->str;
 		TNEXT();
 	} else {
+		if (T0->type != T_LBRACE)
+			ERROR(T0->pos, "Expected tag or enumerator list");
+
 		static int anonymous_counter = 0;
 		name = sv_from_str(allocate_printf("<enum-%d>", anonymous_counter++));
 	}
@@ -369,6 +372,9 @@ int parse_struct(struct type_specifiers *ts) {
 		name = T0->str;
 		TNEXT();
 	} else {
+		if (T0->type != T_LBRACE)
+			ERROR(T0->pos, "Expected tag or member list");
+
 		static int anonymous_counter = 0;
 		name = sv_from_str(allocate_printf("<%d>", anonymous_counter++));
 	}
-- 
2.43.0


From b4aaed4b640315bdf5cda140b275b0589dfe0213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:24:59 +0000
Subject: [PATCH 095/111] fix: a comma without a declarator after it was
 accepted

---
 src/parser/declaration.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index 97a3e91..076a999 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -1465,8 +1465,12 @@ int parse_declaration(int external) {
 	}
 
 	int was_func = 0;
-	while (parse_init_declarator(s, external, &was_func) &&
-		   !was_func && TACCEPT(T_COMMA));
+	if (parse_init_declarator(s, external, &was_func)) {
+		while (!was_func && TACCEPT(T_COMMA)) {
+			if (!parse_init_declarator(s, external, &was_func))
+				ERROR(T0->pos, "Expected declarator");
+		}
+	}
 
 	if (!was_func)
 		TEXPECT(T_SEMI_COLON);
-- 
2.43.0


From 6f3ae7fafd0eeeca364004e3c1b2b8360c7f6701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:25:09 +0000
Subject: [PATCH 096/111] fix: if, else, switch and loops without a statement
 were accepted

---
 src/parser/function_parser.c | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/parser/function_parser.c b/src/parser/function_parser.c
index 901908c..58d795f 100644
--- a/src/parser/function_parser.c
+++ b/src/parser/function_parser.c
@@ -40,6 +40,11 @@ static void add_function_scope_label(struct string_view label, struct node *bloc
 
 // See section 6.8 of standard.
 int parse_statement(struct jump_blocks *jump_blocks);
+
+static void parse_substatement(struct jump_blocks *jump_blocks) {
+	if (!parse_statement(jump_blocks))
+		ERROR(T0->pos, "Expected statement, got %s", dbg_token(T0));
+}
 int parse_labeled_statement(struct jump_blocks *jump_blocks);
 int parse_compound_statement(struct jump_blocks *jump_blocks);
 int parse_expression_statement(void);
@@ -182,7 +187,7 @@ static int parse_switch(struct jump_blocks *jump_blocks) {
 	new_jump_blocks.block_default = NULL;
 
 	// Parse body
-	parse_statement(&new_jump_blocks);
+	parse_substatement(&new_jump_blocks);
 
 	jump_blocks->block_continue = new_jump_blocks.block_continue;
 
@@ -213,14 +218,14 @@ int parse_selection_statement(struct jump_blocks *jump_blocks) {
 
 		ir_block_start(block_true);
 
-		parse_statement(jump_blocks);
+		parse_substatement(jump_blocks);
 
 		if (TACCEPT(T_KELSE)) {
 			struct node *block_end = new_block();
 			ir_goto(block_end);
 			ir_block_start(block_false);
 
-			parse_statement(jump_blocks);
+			parse_substatement(jump_blocks);
 
 			ir_goto(block_end);
 			ir_block_start(block_end);
@@ -261,7 +266,7 @@ static int parse_do_while_statement(struct jump_blocks *jump_blocks) {
 	struct jump_blocks new_jump_blocks = *jump_blocks;
 	new_jump_blocks.block_break = block_end;
 	new_jump_blocks.block_continue = block_control;
-	parse_statement(&new_jump_blocks);
+	parse_substatement(&new_jump_blocks);
 	leave_loop(jump_blocks, &new_jump_blocks);
 
 	ir_goto(block_control);
@@ -331,7 +336,7 @@ static int parse_while_statement(struct jump_blocks *jump_blocks) {
 	struct jump_blocks new_jump_blocks = *jump_blocks;
 	new_jump_blocks.block_break = block_end;
 	new_jump_blocks.block_continue = block_control;
-	parse_statement(&new_jump_blocks);
+	parse_substatement(&new_jump_blocks);
 	leave_loop(jump_blocks, &new_jump_blocks);
 
 	ir_goto(new_jump_blocks.block_continue);
@@ -412,7 +417,7 @@ static int parse_for_statement(struct jump_blocks *jump_blocks) {
 	struct jump_blocks new_jump_blocks = *jump_blocks;
 	new_jump_blocks.block_break = block_end;
 	new_jump_blocks.block_continue = block_advance;
-	parse_statement(&new_jump_blocks);
+	parse_substatement(&new_jump_blocks);
 	leave_loop(jump_blocks, &new_jump_blocks);
 
 	ir_goto(block_advance);
-- 
2.43.0


From d99a76d5949ac560365f666548212561cec835d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:25:51 +0000
Subject: [PATCH 097/111] fix: calling something that is not a function failed
 an assertion instead of being diagnosed

---
 src/parser/expression.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser/expression.c b/src/parser/expression.c
index 19a6be4..ec4bd1c 100644
--- a/src/parser/expression.c
+++ b/src/parser/expression.c
@@ -453,7 +453,9 @@ struct expr *expr_new(struct expr expr) {
 	}
 
 	if (expr.type == E_CALL) {
-		assert(type_is_pointer(expr.call.callee->data_type));
+		if (!type_is_pointer(expr.call.callee->data_type) ||
+			type_deref(expr.call.callee->data_type)->type != TY_FUNCTION)
+			ERROR(T0->pos, "Called object is not a function");
 		struct type *signature = type_deref(expr.call.callee->data_type);
 
 		int named_arguments_count = signature->n - 1;
-- 
2.43.0


From d9f14c2b1fb8b50ae6f9bea9841a3db4755b8177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:26:01 +0000
Subject: [PATCH 098/111] fix: assignment to something that is not an lvalue
 failed an assertion instead of being diagnosed

---
 src/parser/expression_to_ir.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/expression_to_ir.c b/src/parser/expression_to_ir.c
index 42a1e46..0ef3d47 100644
--- a/src/parser/expression_to_ir.c
+++ b/src/parser/expression_to_ir.c
@@ -503,7 +503,8 @@ static struct evaluated_expression evaluate_assignment(struct expr *expr) {
 
 	rhs = evaluated_expression_cast(&rhs, expr->args[0]->data_type);
 
-	assert(lhs.is_lvalue);
+	if (!lhs.is_lvalue)
+		ERROR(expr->pos, "Left operand of assignment is not an lvalue");
 
 	if (type_is_aggregate(rhs.data_type)) {
 		assign_ee_to_ee(&lhs, &rhs);
-- 
2.43.0


From 188d51c72e844b819a35881aa52b984c9ea92c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:26:11 +0000
Subject: [PATCH 099/111] fix: conversions between unrelated structures and to
 or from scalars were accepted

---
 src/parser/expression.c | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/parser/expression.c b/src/parser/expression.c
index ec4bd1c..d828c47 100644
--- a/src/parser/expression.c
+++ b/src/parser/expression.c
@@ -423,6 +423,27 @@ static struct expr *expr_dot_operator(struct expr *lhs, struct token *name) {
 	return lhs;
 }
 
+// Structures can only be converted to themselves (or to void).
+static void check_conversion(struct type *from, struct type *to) {
+	if ((from->type != TY_STRUCT && to->type != TY_STRUCT) || type_is_simple(to, ST_VOID))
+		return;
+
+	if (from->type != to->type || from->struct_data != to->struct_data)
+		ERROR(T0->pos, "Invalid conversion from or to structure type");
+}
+
+static void check_conversions(struct expr *expr) {
+	if (expr->type == E_CAST) {
+		check_conversion(expr->cast.arg->data_type, expr->cast.target);
+	} else if (expr->type == E_ASSIGNMENT) {
+		check_conversion(expr->args[1]->data_type, expr->args[0]->data_type);
+	} else if (expr->type == E_CALL) {
+		struct type *signature = type_deref(expr->call.callee->data_type);
+		for (int i = 0; i < signature->n - 1; i++)
+			check_conversion(expr->call.args[i]->data_type, signature->children[i + 1]);
+	}
+}
+
 struct expr *expr_new(struct expr expr) {
 	for (int i = 0; i < num_args[expr.type]; i++) {
 		if (!expr.args[i])
@@ -470,6 +491,7 @@ struct expr *expr_new(struct expr expr) {
 		}
 	}
 	
+	check_conversions(&expr);
 	cast_conditional(&expr);
 	fix_assignment_operators(&expr);
 	fix_binary_operator(&expr);
-- 
2.43.0


From 960f4feea9cb1fce163259ac92203d0806deb32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:26:20 +0000
Subject: [PATCH 100/111] fix: sizeof, _Alignof and & without an operand
 crashed instead of being diagnosed

---
 src/parser/expression.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/parser/expression.c b/src/parser/expression.c
index d828c47..bbd923b 100644
--- a/src/parser/expression.c
+++ b/src/parser/expression.c
@@ -554,6 +554,13 @@ static void parse_call_parameters(struct expr ***args, int *n_args) {
 struct expr *parse_pratt(int precedence);
 struct expr *parse_pratt_with_lhs(int precedence, struct expr *lhs);
 
+static struct expr *parse_operand(void) {
+	struct expr *expr = parse_pratt(PREFIX_PREC);
+	if (!expr)
+		ERROR(T0->pos, "Expected expression");
+	return expr;
+}
+
 static struct expr *parse_prefix(void) {
 	if (TACCEPT(T_LPAR)) {
 		struct type *cast_type = parse_type_name();
@@ -596,7 +603,7 @@ static struct expr *parse_prefix(void) {
 		return EXPR_UNARY_OP(UOP_BNOT, parse_pratt(PREFIX_PREC));
 	} else if (TACCEPT(T_AMP)) {
 		struct position pos = T0->pos;
-		struct expr *rhs = parse_pratt(PREFIX_PREC);
+		struct expr *rhs = parse_operand();
 		if ((rhs->type == E_VARIABLE && rhs->variable.is_register) ||
 			(rhs->type == E_SYMBOL && rhs->symbol->is_register))
 			ERROR(pos, "Taking address of register variable is not allowed.");
@@ -610,10 +617,10 @@ static struct expr *parse_prefix(void) {
 				TEXPECT(T_RPAR);
 			} else {
 				t_push(t);
-				type = parse_pratt(PREFIX_PREC)->data_type;
+				type = parse_operand()->data_type;
 			} 
 		} else {
-			type = parse_pratt(PREFIX_PREC)->data_type;
+			type = parse_operand()->data_type;
 		}
 
 		return type_sizeof(type);
@@ -626,10 +633,10 @@ static struct expr *parse_prefix(void) {
 				TEXPECT(T_RPAR);
 			} else {
 				t_push(t);
-				type = parse_pratt(PREFIX_PREC)->data_type;
+				type = parse_operand()->data_type;
 			}
 		} else {
-			type = parse_pratt(PREFIX_PREC)->data_type;
+			type = parse_operand()->data_type;
 		}
 
 		return type_alignof(type);
-- 
2.43.0


From 5f0ab88f0349c48c5cbaecaabccd66fe781c2028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:26:30 +0000
Subject: [PATCH 101/111] fix: function definitions that conflict with an
 earlier declaration were accepted

---
 src/parser/declaration.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index 076a999..ea5c769 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -1270,6 +1270,10 @@ static int parse_init_declarator(struct specifiers s, int external, int *was_fun
 		if (arg_n && !args)
 			ERROR(T0->pos, "Should not be null");
 
+		struct symbol_identifier *prev = symbols_get_identifier_global(name);
+		if (prev && !type_make_composite(type, symbols_get_identifier_type(prev)))
+			ERROR(T0->pos, "%.*s has conflicting types", name.len, name.str);
+
 		parse_function(name, type, arg_n, args, s.scs.static_n ? 0 : 1);
 		*was_func = 1;
 		return 1;
-- 
2.43.0


From 20b8bddda54c64f845fa99127a36f037b56a3897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:27:27 +0000
Subject: [PATCH 102/111] fix: compatible function types that differ in
 parameter qualifiers were in conflict

---
 src/types.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/types.c b/src/types.c
index af5dc5a..21f0db1 100644
--- a/src/types.c
+++ b/src/types.c
@@ -452,6 +452,22 @@ struct type *type_make_composite(struct type *a, struct type *b) {
 		} else if (b->function.is_variadic && b->n == 1) {
 			return a;
 		}
+
+		if (a->n != b->n || a->function.is_variadic != b->function.is_variadic ||
+			!type_make_composite(a->children[0], b->children[0]))
+			return NULL;
+
+		// The qualifiers of the parameters are not a part of the type.
+		for (int i = 1; i < a->n; i++) {
+			if (!type_make_composite(type_remove_qualifications(a->children[i]),
+									 type_remove_qualifications(b->children[i])))
+				return NULL;
+		}
+		return a;
+
+	case TY_POINTER:
+		if (a->is_const == b->is_const && type_make_composite(type_deref(a), type_deref(b)))
+			return a;
 		break;
 
 	case TY_ARRAY:
-- 
2.43.0


From c643d29bb74cc77f8729da8cbc87ace690fc3b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:35:58 +0000
Subject: [PATCH 103/111] fix: missing operands of the va_ macros and of array
 designators crashed instead of being diagnosed

---
 src/parser/declaration.c |  5 ++++-
 src/parser/expression.c  | 19 +++++++++++++------
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index ea5c769..dfaa7c9 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -1043,7 +1043,10 @@ static void parse_brace_initializer(struct type **type, struct initializer *init
 				if (inside_brace)
 					return;
 				TEXPECT(T_LBRACK);
-				struct expr *expr = expression_cast(parse_expression(), type_simple(ST_ULLONG));
+				struct expr *index_expr = parse_expression();
+				if (!index_expr)
+					ERROR(T0->pos, "Expected expression");
+				struct expr *expr = expression_cast(index_expr, type_simple(ST_ULLONG));
 				struct constant *c = expression_to_constant(expr);
 				if (!c)
 					ERROR(T0->pos, "Expected constant expression in array designator.");
diff --git a/src/parser/expression.c b/src/parser/expression.c
index bbd923b..828af78 100644
--- a/src/parser/expression.c
+++ b/src/parser/expression.c
@@ -561,6 +561,13 @@ static struct expr *parse_operand(void) {
 	return expr;
 }
 
+static struct expr *expect_assignment_expression(void) {
+	struct expr *expr = parse_assignment_expression();
+	if (!expr)
+		ERROR(T0->pos, "Expected expression");
+	return expr;
+}
+
 static struct expr *parse_prefix(void) {
 	if (TACCEPT(T_LPAR)) {
 		struct type *cast_type = parse_type_name();
@@ -754,9 +761,9 @@ static struct expr *parse_prefix(void) {
 		return res;
 	} else if (TACCEPT(T_KVA_START)) {
 		TEXPECT(T_LPAR);
-		struct expr *v = parse_assignment_expression();
+		struct expr *v = expect_assignment_expression();
 		TEXPECT(T_COMMA);
-		struct expr *l = parse_assignment_expression();
+		struct expr *l = expect_assignment_expression();
 		TEXPECT(T_RPAR);
 
 		return expr_new((struct expr) {
@@ -765,9 +772,9 @@ static struct expr *parse_prefix(void) {
 			});
 	} else if (TACCEPT(T_KVA_COPY)) {
 		TEXPECT(T_LPAR);
-		struct expr *d = parse_assignment_expression();
+		struct expr *d = expect_assignment_expression();
 		TEXPECT(T_COMMA);
-		struct expr *s = parse_assignment_expression();
+		struct expr *s = expect_assignment_expression();
 		TEXPECT(T_RPAR);
 		return expr_new((struct expr) {
 				.type = E_BUILTIN_VA_COPY,
@@ -775,7 +782,7 @@ static struct expr *parse_prefix(void) {
 			});
 	} else if (TACCEPT(T_KVA_END)) {
 		TEXPECT(T_LPAR);
-		struct expr *v = parse_assignment_expression();
+		struct expr *v = expect_assignment_expression();
 		TEXPECT(T_RPAR);
 		return expr_new((struct expr) {
 				.type = E_BUILTIN_VA_END,
@@ -783,7 +790,7 @@ static struct expr *parse_prefix(void) {
 		 	});
 	} else if (TACCEPT(T_KVA_ARG)) {
 		TEXPECT(T_LPAR);
-		struct expr *v = parse_assignment_expression();
+		struct expr *v = expect_assignment_expression();
 		TEXPECT(T_COMMA);
 		struct type *t = parse_type_name();
 		if (!t)
-- 
2.43.0


From de094f51ecc347b38a05a95e9cc49f8bb5e0a07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:56:17 +0000
Subject: [PATCH 104/111] fix: an extern declaration after a tentative
 definition discarded the definition or changed its linkage

---
 src/parser/declaration.c | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index dfaa7c9..11a0e13 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -1315,6 +1315,7 @@ static int parse_init_declarator(struct specifiers s, int external, int *was_fun
 		type = composite_type;
 	} else {
 		symbol = symbols_add_identifier(name);
+		symbol->is_global = !s.scs.static_n;
 	}
 	
 	int has_init = TACCEPT(T_A);
@@ -1370,14 +1371,19 @@ static int parse_init_declarator(struct specifiers s, int external, int *was_fun
 
 	symbol->alignment = s.as.alignment;
 
-	if (!prev_definition) {
-		symbol->is_tentative = is_tentative;
-		symbol->is_global = is_global;
-		symbol->has_definition = has_definition;
-	} else {
-		if (!is_tentative && has_definition)
-			symbol->is_tentative = 0;
+	if (prev_definition && has_definition)
+		ERROR(T0->pos, "Redefinition of %.*s", name.len, name.str);
+
+	if (has_definition) {
+		symbol->is_tentative = 0;
+		symbol->has_definition = 1;
+	} else if (is_tentative && !prev_definition) {
+		symbol->is_tentative = 1;
 	}
+
+	// A declaration with extern keeps the linkage of the previous one.
+	if (!s.scs.extern_n && !prev_definition)
+		symbol->is_global = is_global;
 	if (is_tentative && !prev_definition)
 		ADD_ELEMENT(potentially_tentative.size, potentially_tentative.cap, potentially_tentative.names) = name;
 
-- 
2.43.0


From 90f30f80c24e8aaa7917cb07a7957bf8fde13aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:56:26 +0000
Subject: [PATCH 105/111] fix: functions declared static before their
 definition got external linkage, and redefinitions were accepted

---
 src/parser/declaration.c     | 5 ++++-
 src/parser/function_parser.c | 2 ++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index 11a0e13..97fdbbf 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -1276,8 +1276,11 @@ static int parse_init_declarator(struct specifiers s, int external, int *was_fun
 		struct symbol_identifier *prev = symbols_get_identifier_global(name);
 		if (prev && !type_make_composite(type, symbols_get_identifier_type(prev)))
 			ERROR(T0->pos, "%.*s has conflicting types", name.len, name.str);
+		if (prev && prev->has_definition)
+			ERROR(T0->pos, "Redefinition of %.*s", name.len, name.str);
 
-		parse_function(name, type, arg_n, args, s.scs.static_n ? 0 : 1);
+		// A previous static declaration gives internal linkage.
+		parse_function(name, type, arg_n, args, !s.scs.static_n && (!prev || prev->is_global));
 		*was_func = 1;
 		return 1;
 	}
diff --git a/src/parser/function_parser.c b/src/parser/function_parser.c
index 58d795f..36a3b37 100644
--- a/src/parser/function_parser.c
+++ b/src/parser/function_parser.c
@@ -541,6 +541,8 @@ void parse_function(struct string_view name, struct type *type, int arg_n, struc
 	symbol->type = IDENT_LABEL;
 	symbol->label.type = type;
 	symbol->label.name = name;
+	symbol->is_global = global;
+	symbol->has_definition = 1;
 
 	assert(type->type == TY_FUNCTION);
 
-- 
2.43.0


From 090339f3749b000ed4a479867996978d4f5b0ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:56:36 +0000
Subject: [PATCH 106/111] fix: an initializer that refers to its own variable
 crashed the compiler

---
 src/parser/declaration.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index 97fdbbf..3cb1ba4 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -1419,17 +1419,20 @@ static int parse_init_declarator(struct specifiers s, int external, int *was_fun
 					ERROR(T0->pos, "Variable length array can't have initializer");
 			} else {
 				symbol->type = IDENT_VARIABLE;
-				struct node *ptr;
 				symbol->variable.type = type;
 				if (has_init) {
+					// The initializer may refer to the variable.
+					int is_incomplete = type->type == TY_INCOMPLETE_ARRAY;
+					if (!is_incomplete)
+						symbol->variable.ptr = ir_allocate(calculate_size(type), symbol->alignment);
 					struct initializer init = parse_initializer(&type);
 					symbol->variable.type = type;
-					ptr = ir_allocate(calculate_size(type), symbol->alignment);
-					ir_init_ptr(&init, type, ptr);
+					if (is_incomplete)
+						symbol->variable.ptr = ir_allocate(calculate_size(type), symbol->alignment);
+					ir_init_ptr(&init, type, symbol->variable.ptr);
 				} else {
-					ptr = ir_allocate(calculate_size(type), symbol->alignment);
+					symbol->variable.ptr = ir_allocate(calculate_size(type), symbol->alignment);
 				}
-				symbol->variable.ptr = ptr;
 			}
 		}
 	} else {
-- 
2.43.0


From ed38d1f33e4d0afe1fc7d1d58d6f3244aeec4c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:56:46 +0000
Subject: [PATCH 107/111] fix: a typedef name was not hidden by an identifier
 declared in an inner scope

---
 src/parser/symbols.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/parser/symbols.c b/src/parser/symbols.c
index 759370c..892cb56 100644
--- a/src/parser/symbols.c
+++ b/src/parser/symbols.c
@@ -239,6 +239,12 @@ struct symbol_typedef *symbols_add_typedef(struct string_view name) {
 
 struct symbol_typedef *symbols_get_typedef(struct string_view name) {
 	struct table_entry *entry = symbols_get(ENTRY_TYPEDEF, name);
+	struct table_entry *identifier = symbols_get(ENTRY_IDENTIFIER, name);
+
+	// Typedefs and identifiers share a name space.
+	if (entry && identifier && identifier->block > entry->block)
+		return NULL;
+
 	return entry ? &entry->typedef_data : NULL;
 }
 
-- 
2.43.0


From 732bfcc13b691b5c50150a883e0b37334c063add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:57:56 +0000
Subject: [PATCH 108/111] fix: a member of a struct could refer to a struct of
 an outer scope with the same tag

---
 src/parser/declaration.c | 49 ++++++++++++++++++++++------------------
 1 file changed, 27 insertions(+), 22 deletions(-)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index 3cb1ba4..08e8af0 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -380,6 +380,31 @@ int parse_struct(struct type_specifiers *ts) {
 	}
 
 	if (TACCEPT(T_LBRACE)) {
+		// The scope of the tag begins before the member list.
+		struct struct_data *data = NULL;
+		struct symbol_struct *def = symbols_get_struct_in_current_scope(name);
+
+		if (is_union) {
+			if (def && def->type != STRUCT_UNION)
+				ERROR(T0->pos, "Name not declared as union.");
+		} else {
+			if (def && def->type != STRUCT_STRUCT)
+				ERROR(T0->pos, "Name not declared as struct.");
+		}
+
+		if (!def) {
+			def = symbols_add_struct(name);
+			def->type = is_union ? STRUCT_UNION : STRUCT_STRUCT;
+			data = register_struct();
+			*data = (struct struct_data) {
+				.name = name,
+				.is_complete = 0,
+			};
+			def->struct_data = data;
+		} else {
+			data = def->struct_data;
+		}
+
 		int fields_size = 0, fields_cap = 0;
 		struct field *fields = NULL;
 
@@ -455,28 +480,8 @@ int parse_struct(struct type_specifiers *ts) {
 
 		accept_attribute(&is_packed);
 
-		struct struct_data *data = NULL;
-		struct symbol_struct *def = symbols_get_struct_in_current_scope(name);
-
-		if (is_union) {
-			if (def && def->type != STRUCT_UNION)
-				ERROR(T0->pos, "Name not declared as union.");
-		} else {
-			if (def && def->type != STRUCT_STRUCT)
-				ERROR(T0->pos, "Name not declared as struct.");
-		}
-
-		if (!def) {
-			def = symbols_add_struct(name);
-			def->type = is_union ? STRUCT_UNION : STRUCT_STRUCT;
-			data = register_struct();
-			def->struct_data = data;
-		} else {
-			data = def->struct_data;
-			if (data->is_complete) {
-				ERROR(T0->pos, "Redeclaring struct/union %.*s", name.len, name.str);
-			}
-		}
+		if (data->is_complete)
+			ERROR(T0->pos, "Redeclaring struct/union %.*s", name.len, name.str);
 
 		*data = (struct struct_data) {
 			.n = fields_size,
-- 
2.43.0


From ae86c5620e4a8362cd558ab90b84906f281bedab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:58:06 +0000
Subject: [PATCH 109/111] fix: a struct declared in an inner scope referred to
 the one of the outer scope

---
 src/parser/declaration.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index 08e8af0..5adac85 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -510,7 +510,9 @@ int parse_struct(struct type_specifiers *ts) {
 
 		return 1;
 	} else {
-		struct symbol_struct *def = symbols_get_struct(name);
+		// "struct tag;" declares the tag in the current scope.
+		struct symbol_struct *def = T0->type == T_SEMI_COLON ?
+			symbols_get_struct_in_current_scope(name) : symbols_get_struct(name);
 
 		if(!def) {
 			def = symbols_add_struct(name);
-- 
2.43.0


From 66ec77846570893afeaf8e66798991186082b3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:43:54 +0000
Subject: [PATCH 110/111] fix: initializers with nested designators, overridden
 or excess elements were misplaced or crashed

---
 src/parser/declaration.c | 347 ++++++++++++++++++++-------------------
 1 file changed, 182 insertions(+), 165 deletions(-)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index 5adac85..0f0f6ed 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -12,6 +12,7 @@
 #include <abi/abi.h>
 
 #include <assert.h>
+#include <limits.h>
 #include <stdint.h>
 
 // Returns previous state of the bit.
@@ -972,8 +973,10 @@ static int match_specific_string(struct type **type, struct initializer *init, s
 
 		int braces = TACCEPT(T_LBRACE);
 		TEXPECT(token_type);
-		if (braces)
+		if (braces) {
+			TACCEPT(T_COMMA);
 			TEXPECT(T_RBRACE);
+		}
 
 		if ((*type)->type == TY_INCOMPLETE_ARRAY) {
 			struct type complete_array_params = {
@@ -1007,225 +1010,239 @@ static int match_string(struct type **type, struct initializer *init, struct tok
 		match_specific_string(type, init, string_token, CHAR32_TYPE, T_STRING_CHAR32);
 }
 
-void parse_initializer_recursive(struct type **type, struct initializer *init, struct expr *expr,
-								 int inside_brace, int n, int *indices);
+static int match_braced_string(struct type **type, struct initializer *init) {
+	struct token string_token = *T0;
+	if (T0->type == T_LBRACE && is_string_type(T1->type) && (T2->type == T_RBRACE || T2->type == T_COMMA))
+		string_token = *T1;
+
+	return is_string_type(string_token.type) && match_string(type, init, string_token);
+}
 
-static void parse_brace_initializer(struct type **type, struct initializer *init, int idx,
-									int inside_brace, struct expr *expr) {
-	if (init->type == INIT_EMPTY)
+// Initializers of parts of an object that already has an initializer replace parts of it.
+static void initializer_open(struct initializer *init, struct type *type) {
+	if (init->type == INIT_STRING) {
+		struct type *element = type->children[0];
+		struct string_view str = init->string;
+		int size = calculate_size(element);
+
+		*init = (struct initializer) { .type = INIT_BRACE };
+		for (int i = 0; i < str.len / size; i++) {
+			uint32_t value = 0;
+			for (int j = size - 1; j >= 0; j--)
+				value = value << 8 | (unsigned char)str.str[i * size + j];
+
+			struct expr *expr = EXPR_INT(value);
+			*initializer_add_entry(init, i) = (struct initializer) {
+				.type = INIT_EXPRESSION,
+				.expr = expression_cast(expr, element)
+			};
+		}
+	} else if (init->type == INIT_EXPRESSION) {
+		ERROR(T0->pos, "Overriding part of an initializer that is a single expression is not supported.");
+	} else if (init->type == INIT_EMPTY) {
 		*init = (struct initializer) { .type = INIT_BRACE };
+	}
+}
 
-	if (!inside_brace)
-		TEXPECT(T_LBRACE);
+static int initializes_whole(struct type *type, struct expr *expr) {
+	if (!type_is_aggregate(type) || expr->data_type == type)
+		return 1;
 
-	int max_members = -1;
-	switch ((*type)->type) {
+	return type->type == TY_STRUCT && expr->data_type->type == TY_STRUCT &&
+		type->struct_data == expr->data_type->struct_data;
+}
+
+static void initialize_with(struct type *type, struct initializer *init, struct expr *expr) {
+	*init = (struct initializer) {
+		.type = INIT_EXPRESSION,
+		.expr = expression_cast(expr, type)
+	};
+}
+
+// The position in one of the nested aggregates that surround the current object.
+struct initializer_level {
+	struct type *type;
+	struct initializer *init;
+	int idx;
+};
+
+// Whether there is a subobject number idx. Only the first member of a union is reached without designator.
+static int has_subobject(struct type *type, int idx, int designated) {
+	switch (type->type) {
 	case TY_ARRAY:
-		max_members = (*type)->array.length;
-		break;
+		return idx >= 0 && (size_t)idx < type->array.length;
 	case TY_INCOMPLETE_ARRAY:
-		max_members = -1;
-		break;
+		return idx >= 0;
 	case TY_STRUCT:
-		max_members = (*type)->struct_data->n;
-		if ((*type)->struct_data->is_union)
-			max_members = 1;
-		// Advance until end of struct, or reaching a different offset.
-		break;
-	default: ICE("Invalid top type");
+		return idx < (type->struct_data->is_union && !designated ? 1 : (int)type->struct_data->n);
+	default:
+		return 0;
 	}
+}
 
-	if (max_members != -1 && inside_brace && idx >= max_members)
-		return;
+static void parse_initializer_into(struct type **type, struct initializer *init);
+
+// 6.7.9p17-6.7.8p23 and some surrounding paragraphs, after the opening brace.
+static void parse_initializer_list(struct type *type, struct initializer *init) {
+	struct initializer_level *levels = NULL;
+	int size = 0, cap = 0;
+
+	*init = (struct initializer) { .type = INIT_BRACE };
+	ADD_ELEMENT(size, cap, levels) = (struct initializer_level) { type, init, -1 };
+
+	#define LEVEL (&levels[size - 1])
+	#define DESCEND(IDX) do {												\
+			struct type *inner_type = type_select(LEVEL->type, LEVEL->idx);	\
+			struct initializer *inner = initializer_add_entry(LEVEL->init, LEVEL->idx); \
+			initializer_open(inner, inner_type);							\
+			ADD_ELEMENT(size, cap, levels) = (struct initializer_level) { inner_type, inner, IDX }; \
+		} while (0)
+	#define DESIGNATE(IDX) do {										\
+			if (designated++)										\
+				DESCEND(IDX);										\
+			else													\
+				LEVEL->idx = IDX;									\
+			if (!has_subobject(LEVEL->type, LEVEL->idx, 1))			\
+				ERROR(T0->pos, "Designator is out of range.");		\
+		} while (0)
+
+	while (T0->type != T_RBRACE) {
+		int designated = 0;
+
+		if (T0->type == T_LBRACK || T0->type == T_DOT) {
+			size = 1;
+
+			while (T0->type == T_LBRACK || T0->type == T_DOT) {
+				struct type *current = designated ? type_select(LEVEL->type, LEVEL->idx) : type;
+
+				if (TACCEPT(T_LBRACK)) {
+					if (current->type != TY_ARRAY && current->type != TY_INCOMPLETE_ARRAY)
+						ERROR(T0->pos, "Array designator in initializer of %s.", dbg_type(current));
+
+					struct expr *index_expr = parse_expression();
+					if (!index_expr)
+						ERROR(T0->pos, "Expected expression");
+					struct constant *c = expression_to_constant(expression_cast(index_expr, type_simple(ST_ULLONG)));
+					if (!c)
+						ERROR(T0->pos, "Expected constant expression in array designator.");
+					TEXPECT(T_RBRACK);
 
-	for (;;) {
-		static int designator_cap = 0;
-		static int *designators = NULL;
-		int designator_size = 0;
-		struct type *current_type = *type;
-		for (;;) {
-			size_t index;
-			(void)index;
-			if (T0->type == T_LBRACK) {
-				if (inside_brace)
-					return;
-				TEXPECT(T_LBRACK);
-				struct expr *index_expr = parse_expression();
-				if (!index_expr)
-					ERROR(T0->pos, "Expected expression");
-				struct expr *expr = expression_cast(index_expr, type_simple(ST_ULLONG));
-				struct constant *c = expression_to_constant(expr);
-				if (!c)
-					ERROR(T0->pos, "Expected constant expression in array designator.");
-				TEXPECT(T_RBRACK);
+					assert(c->type == CONSTANT_TYPE && type_is_simple(c->data_type, ST_ULLONG));
 
-				assert(c->type == CONSTANT_TYPE && type_is_simple(c->data_type, ST_ULLONG));
+					if (c->uint_d > INT_MAX - 1)
+						ERROR(T0->pos, "Designator is out of range.");
 
-				ADD_ELEMENT(designator_size, designator_cap, designators) = c->uint_d;
-				current_type = type_select(current_type, c->uint_d);
-			} else if (T0->type == T_DOT) {
-				if (inside_brace)
-					return;
-				TEXPECT(T_DOT);
-				int n = 0, *indices = 0;
-				if (!type_search_member(current_type, T0->str, &n, &indices))
-					ERROR(T0->pos, "Could not find member of name %s", dbg_token(T0));
+					DESIGNATE((int)c->uint_d);
+				} else {
+					TEXPECT(T_DOT);
+
+					int n = 0, *indices = NULL;
+					if (current->type != TY_STRUCT || !type_search_member(current, T0->str, &n, &indices))
+						ERROR(T0->pos, "Could not find member of name %s", dbg_token(T0));
 
-				TEXPECT(T_IDENT);
+					TEXPECT(T_IDENT);
 
-				for (int i = n - 1; i >= 0; i--) {
-					ADD_ELEMENT(designator_size, designator_cap, designators) = indices[i];
-					current_type = type_select(current_type, indices[i]);
+					for (int i = n - 1; i >= 0; i--)
+						DESIGNATE(indices[i]);
 				}
-			} else {
-				break;
 			}
-		}
 
-		int *pass_designators = NULL;
-		int pass_n = 0;
-
-		if (designator_size) {
 			TEXPECT(T_A);
-
-			if (designator_size > 0)
-				idx = designators[0];
-
-			if (designator_size > 1) {
-				pass_designators = designators + 1;
-				pass_n = designator_size - 1;
+		} else {
+			LEVEL->idx++;
+			while (size > 1 && !has_subobject(LEVEL->type, LEVEL->idx, 0)) {
+				size--;
+				LEVEL->idx++;
 			}
+
+			if (!has_subobject(LEVEL->type, LEVEL->idx, 0))
+				ERROR(T0->pos, "Excess elements in initializer of %s.", dbg_type(type));
 		}
 
-		struct type *child_type = type_select(*type, idx);
-		parse_initializer_recursive(&child_type,
-									initializer_add_entry(init, idx), expr, designator_size < 1, pass_n, pass_designators);
-		expr = NULL;
+		// Without braces the initializer belongs to the first subobject it can initialize.
+		struct expr *expr = NULL;
+		for (;;) {
+			struct type *child = type_select(LEVEL->type, LEVEL->idx);
+			struct initializer *entry = initializer_add_entry(LEVEL->init, LEVEL->idx);
+
+			if (!expr && T0->type == T_LBRACE) {
+				parse_initializer_into(&child, entry);
+				break;
+			}
 
-		if (T0->type == T_LBRACK || T0->type == T_DOT)
-			continue;
+			if (!expr && type_is_aggregate(child) && is_string_type(T0->type)) {
+				if (match_string(&child, entry, *T0))
+					break;
+			} else {
+				if (!expr)
+					expr = parse_assignment_expression();
+				if (!expr)
+					ERROR(T0->pos, "Expected expression in initializer to %s got %s.", dbg_type(child), dbg_token(T0));
 
-		idx++;
+				if (initializes_whole(child, expr)) {
+					initialize_with(child, entry, expr);
+					break;
+				}
+			}
 
-		if (inside_brace && idx == max_members)
-			break;
+			DESCEND(0);
+			if (!has_subobject(LEVEL->type, 0, 0))
+				ERROR(T0->pos, "Error initializing %s\n", strdup(dbg_type(child)));
+		}
 
 		if (!TACCEPT(T_COMMA))
 			break;
-
-		if (T0->type == T_RBRACE)
-			break;
 	}
 
-	if (!inside_brace)
-		TEXPECT(T_RBRACE);
-}
-
-// 6.7.9p17-6.7.8p23 and some surrounding paragraphs.
-
-// This is tricky and very easy to get wrong.
-// See tests/initializers.c to see some examples.
-void parse_initializer_recursive(struct type **type, struct initializer *init, struct expr *expr,
-								 int inside_brace, int n, int *indices) {
-	int current_idx = 0;
-	if (n > 0) {
-		current_idx = indices[0];
-		struct type *selected = type_select(*type, current_idx);
-		if (init->type == INIT_EMPTY)
-			*init = (struct initializer) { .type = INIT_BRACE };
-		struct initializer *next_init = initializer_add_entry(init, current_idx);
+	#undef DESIGNATE
+	#undef DESCEND
+	#undef LEVEL
 
-		parse_initializer_recursive(&selected, next_init, expr, inside_brace, n - 1, indices + 1);
-
-		if (!TACCEPT(T_COMMA))
-			return;
-
-		if (T0->type == T_RBRACE)
-			return;
-
-		parse_brace_initializer(type, init, current_idx + 1, 1, expr);
-		return;
-	}
+	free(levels);
 
-	int is_aggregate = type_is_aggregate(*type);
+	TEXPECT(T_RBRACE);
+}
 
-	int is_str = 0, is_brace = 0;
-	struct token string_token = { 0 };
+static void parse_initializer_into(struct type **type, struct initializer *init) {
+	*init = (struct initializer) { .type = INIT_EMPTY };
 
-	if (!expr && is_scalar(*type)) {
+	if (type_is_aggregate(*type) && match_braced_string(type, init)) {
+	} else if (type_is_aggregate(*type) && TACCEPT(T_LBRACE)) {
+		parse_initializer_list(*type, init);
+	} else {
 		int has_braces = TACCEPT(T_LBRACE);
 
-		expr = parse_assignment_expression();
+		struct expr *expr = parse_assignment_expression();
 		if (!expr)
 			ERROR(T0->pos, "Expected expression in initializer to %s got %s.", dbg_type(*type), dbg_token(T0));
+		if (!initializes_whole(*type, expr))
+			ERROR(T0->pos, "Error initializing %s\n", strdup(dbg_type(*type)));
 
-		if (has_braces)
-			TEXPECT(T_RBRACE);
-	}
-
-	if (!expr) {
-		is_str = 1;
-		if (T0->type == T_LBRACE && is_string_type(T1->type) && T2->type == T_RBRACE)
-			string_token = *T1;
-		else if (is_string_type(T0->type))
-			string_token = *T0;
-		else
-			is_str = 0;
-	}
+		initialize_with(*type, init, expr);
 
-	if (!expr && !is_str && T0->type == T_LBRACE)
-		is_brace = 1;
-
-	if (!is_str && !is_brace && !expr) {
-		expr = parse_assignment_expression();
-	}
-
-	if (is_aggregate && inside_brace && T0->type != T_LBRACE &&
-		!is_str && expr->data_type != *type) {
-		// TODO: This seems a bit hacky.
-		parse_brace_initializer(type, init, current_idx, 1, expr);
-		return;
-	}
-
-	if (is_str && match_string(type, init, string_token)) {
-	} else if (expr) {
-		if (is_aggregate && expr->data_type != *type) {
-			parse_initializer_recursive(type, init, expr, 1, -1, NULL);
-		} else {
-			init->type = INIT_EXPRESSION;
-			init->expr = expression_cast(expr, *type);
+		if (has_braces) {
+			TACCEPT(T_COMMA);
+			TEXPECT(T_RBRACE);
 		}
-	} else if (T0->type == T_LBRACE && is_aggregate) {
-		parse_brace_initializer(type, init, 0, 0, NULL);
-	} else if (is_str && is_aggregate) {
-		parse_brace_initializer(type, init, current_idx, 1, expr);
-	} else {
-		ERROR(T0->pos, "Error initializing %s\n", strdup(dbg_type(*type)));
 	}
 
 	if ((*type)->type == TY_INCOMPLETE_ARRAY) {
-		int max_index = 0;
-		switch (init->type) {
-		case INIT_BRACE: max_index = init->brace.size; break;
-		case INIT_STRING: NOTIMP();
-		default:
+		if (init->type != INIT_BRACE)
 			ERROR(T0->pos, "Expected incomplete array to be completed in initialzier.");
-		}
 
 		struct type complete_array_params = {
 			.type = TY_ARRAY,
-			.array.length = max_index,
+			.array.length = init->brace.size,
 			.n = 1
 		};
 
-		struct type *ntype = type_create(&complete_array_params, (*type)->children);
-		*type = ntype;
+		*type = type_create(&complete_array_params, (*type)->children);
 	}
 }
 
 struct initializer parse_initializer(struct type **type) {
 	struct initializer ret = { 0 };
-	parse_initializer_recursive(type, &ret, NULL, 0, -1, NULL);
+	parse_initializer_into(type, &ret);
 	return ret;
 }
 
-- 
2.43.0


From 0fc694813e5e73625d0de31bd42626be72a2126f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:09:34 +0000
Subject: [PATCH 111/111] fix: overridden members of unions overwrote the
 member that was initialized last

---
 src/parser/declaration.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index 0f0f6ed..fb33561 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -957,6 +957,18 @@ static struct initializer *initializer_add_entry(struct initializer *init, int i
 	return init->brace.entries + index;
 }
 
+// Only the last initialized member of a union has an initializer.
+static struct initializer *initializer_add_member(struct initializer *init, struct type *type, int index) {
+	if (type->type == TY_STRUCT && type->struct_data->is_union) {
+		for (int i = 0; i < init->brace.size; i++) {
+			if (i != index)
+				init->brace.entries[i] = (struct initializer) { .type = INIT_EMPTY };
+		}
+	}
+
+	return initializer_add_entry(init, index);
+}
+
 static int is_string_type(ttype token_type) {
 	return token_type == T_STRING || token_type == T_STRING_WCHAR ||
 		token_type == T_STRING_CHAR16 || token_type == T_STRING_CHAR32;
@@ -1093,7 +1105,7 @@ static void parse_initializer_list(struct type *type, struct initializer *init)
 	#define LEVEL (&levels[size - 1])
 	#define DESCEND(IDX) do {												\
 			struct type *inner_type = type_select(LEVEL->type, LEVEL->idx);	\
-			struct initializer *inner = initializer_add_entry(LEVEL->init, LEVEL->idx); \
+			struct initializer *inner = initializer_add_member(LEVEL->init, LEVEL->type, LEVEL->idx); \
 			initializer_open(inner, inner_type);							\
 			ADD_ELEMENT(size, cap, levels) = (struct initializer_level) { inner_type, inner, IDX }; \
 		} while (0)
@@ -1163,7 +1175,7 @@ static void parse_initializer_list(struct type *type, struct initializer *init)
 		struct expr *expr = NULL;
 		for (;;) {
 			struct type *child = type_select(LEVEL->type, LEVEL->idx);
-			struct initializer *entry = initializer_add_entry(LEVEL->init, LEVEL->idx);
+			struct initializer *entry = initializer_add_member(LEVEL->init, LEVEL->type, LEVEL->idx);
 
 			if (!expr && T0->type == T_LBRACE) {
 				parse_initializer_into(&child, entry);
-- 
2.43.0

