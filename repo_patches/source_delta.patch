From b2fbcd679246c3d819e7ba78649f35eb5bf1d18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:44 +0000
Subject: [PATCH 01/76] fix: pop the locals of a loop body on break and
 continue

---
 compiler/compiler.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/compiler/compiler.c b/compiler/compiler.c
index 6e099a0..9cd6cb8 100644
--- a/compiler/compiler.c
+++ b/compiler/compiler.c
@@ -31,6 +31,7 @@ YASL_FORMAT_CHECK static void compiler_print_err(struct Compiler *compiler, cons
 
 #define break_checkpoint(compiler)    ((compiler)->checkpoints.items[(compiler)->checkpoints.count-1])
 #define continue_checkpoint(compiler) ((compiler)->checkpoints.items[(compiler)->checkpoints.count-2])
+#define locals_checkpoint(compiler)   ((compiler)->checkpoints.items[(compiler)->checkpoints.count-3])
 
 
 void compiler_tables_del(struct Compiler *compiler) {
@@ -603,6 +604,7 @@ static void visit_ForIter(struct Compiler *const compiler, const struct Node *co
 	decl_var(compiler, name, iter->line);
 
 	size_t index_start = compiler->buffer->count;
+	add_checkpoint(compiler, scope_len(get_scope_in_use(compiler)));
 	add_checkpoint(compiler, index_start);
 
 	compiler_add_byte(compiler, O_ITER_1);
@@ -625,6 +627,7 @@ static void visit_ForIter(struct Compiler *const compiler, const struct Node *co
 
 	rm_checkpoint(compiler);
 	rm_checkpoint(compiler);
+	rm_checkpoint(compiler);
 }
 
 static void enter_jump(struct Compiler *const compiler, size_t *index) {
@@ -684,6 +687,7 @@ static void visit_While(struct Compiler *const compiler, const struct Node *cons
 		exit_jump(compiler, &index);
 	}
 
+	add_checkpoint(compiler, scope_len(get_scope_in_use(compiler)));
 	add_checkpoint(compiler, index_start);
 
 	visit(compiler, cond);
@@ -701,6 +705,14 @@ static void visit_While(struct Compiler *const compiler, const struct Node *cons
 
 	rm_checkpoint(compiler);
 	rm_checkpoint(compiler);
+	rm_checkpoint(compiler);
+}
+
+// Pops the variables declared inside of the current loop, without ending their scope at compile-time.
+static void pop_loop_locals(struct Compiler *const compiler) {
+	for (size_t i = scope_len(get_scope_in_use(compiler)); i > locals_checkpoint(compiler); i--) {
+		compiler_add_byte(compiler, O_POP);
+	}
 }
 
 static void visit_Break(struct Compiler *const compiler, const struct Node *const node) {
@@ -709,6 +721,7 @@ static void visit_Break(struct Compiler *const compiler, const struct Node *cons
 		handle_error(compiler);
 		return;
 	}
+	pop_loop_locals(compiler);
 	compiler_add_byte(compiler, O_BCONST_F);
 	branch_back(compiler, break_checkpoint(compiler));
 }
@@ -719,6 +732,7 @@ static void visit_Continue(struct Compiler *const compiler, const struct Node *c
 		handle_error(compiler);
 		return;
 	}
+	pop_loop_locals(compiler);
 	branch_back(compiler, continue_checkpoint(compiler));
 }
 
-- 
2.43.0


From 0e98d561386ab14f4c5fc41d3bd80a7b90c34526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:07 +0000
Subject: [PATCH 02/76] fix: reject break and continue that would leave the
 enclosing function

---
 compiler/compiler.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/compiler/compiler.c b/compiler/compiler.c
index 9cd6cb8..23bde38 100644
--- a/compiler/compiler.c
+++ b/compiler/compiler.c
@@ -381,6 +381,10 @@ static void visit_ExprStmt(struct Compiler *const compiler, const struct Node *c
 static void visit_FnDecl(struct Compiler *const compiler, const struct Node *const node) {
 	compiler->params = env_new(compiler->params);
 
+	// loops enclosing the function cannot be exited from inside of it.
+	struct SizeBuffer old_checkpoints = compiler->checkpoints;
+	compiler->checkpoints = NEW_SIZEBUFFER(4);
+
 	enter_scope(compiler);
 
 	FOR_CHILDREN(i, child, FnDecl_get_params(node)) {
@@ -425,6 +429,9 @@ static void visit_FnDecl(struct Compiler *const compiler, const struct Node *con
 		}
 	}
 
+	free(compiler->checkpoints.items);
+	compiler->checkpoints = old_checkpoints;
+
 	struct Env *tmp = compiler->params->parent;
 	compiler->params->parent = NULL;
 	env_del(compiler->params);
-- 
2.43.0


From 8094000036c8dc45c971e7bdcb5ca8f7dc340b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:08 +0000
Subject: [PATCH 03/76] fix: do not expand the multiple values of calls nested
 inside of a variadic context

---
 compiler/compiler.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/compiler/compiler.c b/compiler/compiler.c
index 23bde38..0fe4d61 100644
--- a/compiler/compiler.c
+++ b/compiler/compiler.c
@@ -440,32 +440,39 @@ static void visit_FnDecl(struct Compiler *const compiler, const struct Node *con
 
 static void visit_VariadicContext(struct Compiler *const compiler, const struct Node *const node) {
 	int old_returns = compiler->expected_returns;
-	compiler->expected_returns = node->value.ival;
+	// only calls can produce a variable number of values.
+	compiler->expected_returns = will_var_expand(node->children[0]) ? node->value.ival : 1;
 	visit(compiler, node->children[0]);
 	compiler->expected_returns = old_returns;
 }
 
 static void visit_Call(struct Compiler *const compiler, const struct Node *const node) {
+	const int expected_returns = compiler->expected_returns;
+	compiler->expected_returns = 1;
 	visit(compiler, Call_get_object(node));
 	compiler_add_byte(compiler, O_INIT_CALL);
-	compiler_add_byte(compiler, (unsigned char)compiler->expected_returns);
+	compiler_add_byte(compiler, (unsigned char)expected_returns);
 	visit_Body(compiler, Call_get_params(node));
 	compiler_add_byte(compiler, O_CALL);
+	compiler->expected_returns = expected_returns;
 }
 
 static void visit_MethodCall(struct Compiler *const compiler, const struct Node *const node) {
 	char *str = MethodCall_get_name(node);
 	size_t len = strlen(str);
+	const int expected_returns = compiler->expected_returns;
+	compiler->expected_returns = 1;
 	visit(compiler, MethodCall_get_object(node));
 
 	yasl_int index = compiler_intern_string(compiler, str, len);
 
 	compiler_add_byte(compiler, O_INIT_MC);
-	compiler_add_byte(compiler, (unsigned char)compiler->expected_returns);
+	compiler_add_byte(compiler, (unsigned char)expected_returns);
 	compiler_add_int(compiler, index);
 
 	visit_Body(compiler, MethodCall_get_params(node));
 	compiler_add_byte(compiler, O_CALL);
+	compiler->expected_returns = expected_returns;
 }
 
 static void visit_Return(struct Compiler *const compiler, const struct Node *const node) {
-- 
2.43.0


From 3d3945df0c548ff442584af5176683280b37cb8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:22 +0000
Subject: [PATCH 04/76] fix: keep the open upvalues sorted so that all of a
 returning frame's are closed

---
 interpreter/VM.c | 32 +++++++++++---------------------
 1 file changed, 11 insertions(+), 21 deletions(-)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index 56000f7..b664de8 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -570,30 +570,20 @@ void vm_stringify_top(struct VM *const vm) {
 }
 
 static struct Upvalue *add_upvalue(struct VM *const vm, struct YASL_Object *const location) {
-	if (vm->pending == NULL) {
-		return (vm->pending = upval_new(location));
+	// Open upvalues are kept sorted by decreasing stack location.
+	struct Upvalue **curr = &vm->pending;
+	while (*curr && (*curr)->location > location) {
+		curr = &(*curr)->next;
 	}
 
-	struct Upvalue *prev = NULL;
-	struct Upvalue *curr = vm->pending;
-	while (curr) {
-		if (curr->location > location) {
-			prev = curr;
-			curr = curr->next;
-			continue;
-		}
-		if (curr->location == location) {
-			return curr;
-		}
-		if (curr->location < location) {
-			struct Upvalue *upval = upval_new(location);
-			upval->next = curr->next;
-			curr->next = upval;
-			return upval;
-		}
-		return (curr->next = upval_new(location));
+	if (*curr && (*curr)->location == location) {
+		return *curr;
 	}
-	return (prev->next = upval_new(location));
+
+	struct Upvalue *upval = upval_new(location);
+	upval->next = *curr;
+	*curr = upval;
+	return upval;
 }
 
 static void vm_CCONST(struct VM *const vm) {
-- 
2.43.0


From ebd8141fffe0d34eb537f5aa7d04100be8aede06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:47 +0000
Subject: [PATCH 05/76] fix: keep an open upvalue alive while it is in the list
 of open upvalues

---
 interpreter/VM.c      | 18 +++++++++---------
 interpreter/closure.c |  7 +------
 interpreter/upvalue.c |  7 +++++++
 interpreter/upvalue.h |  1 +
 4 files changed, 18 insertions(+), 15 deletions(-)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index b664de8..1d55f5e 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -581,6 +581,7 @@ static struct Upvalue *add_upvalue(struct VM *const vm, struct YASL_Object *cons
 	}
 
 	struct Upvalue *upval = upval_new(location);
+	upval->rc.refs++;    // held by the list of open upvalues
 	upval->next = *curr;
 	*curr = upval;
 	return upval;
@@ -1278,16 +1279,15 @@ static void vm_RET(struct VM *const vm) {
 	vm_exitframe_multi(vm, len);
 }
 
-static struct Upvalue *vm_close_all_helper(struct YASL_Object *const end, struct Upvalue *const curr) {
-	if (curr == NULL) return NULL;
-	if (curr->location < end) return curr;
-	inc_ref(curr->location);
-	upval_close(curr);
-	return (vm_close_all_helper(end, curr->next));
-}
-
 void vm_close_all(struct VM *const vm) {
-	vm->pending = vm_close_all_helper(vm->stack + vm->fp, vm->pending);
+	struct YASL_Object *const end = vm->stack + vm->fp;
+	while (vm->pending && vm->pending->location >= end) {
+		struct Upvalue *upval = vm->pending;
+		vm->pending = upval->next;
+		inc_ref(upval->location);
+		upval_close(upval);
+		upval_release(upval);
+	}
 }
 
 static void vm_ECHO(struct VM *const vm) {
diff --git a/interpreter/closure.c b/interpreter/closure.c
index 39d7d5b..61d25ec 100644
--- a/interpreter/closure.c
+++ b/interpreter/closure.c
@@ -2,12 +2,7 @@
 
 void closure_del_data(struct Closure *closure) {
 	for (size_t i = 0; i < closure->num_upvalues; i++) {
-		struct Upvalue *upval = closure->upvalues[i];
-		upval->rc.refs--;
-		if (upval->rc.refs == 0) {
-			dec_ref(upval->location);
-			free(upval);
-		}
+		upval_release(closure->upvalues[i]);
 	}
 }
 
diff --git a/interpreter/upvalue.c b/interpreter/upvalue.c
index 828dc1c..29e8e45 100644
--- a/interpreter/upvalue.c
+++ b/interpreter/upvalue.c
@@ -22,3 +22,10 @@ void upval_close(struct Upvalue *const upval) {
 	upval->location = &upval->closed;
 }
 
+void upval_release(struct Upvalue *const upval) {
+	upval->rc.refs--;
+	if (upval->rc.refs == 0) {
+		dec_ref(upval->location);
+		free(upval);
+	}
+}
diff --git a/interpreter/upvalue.h b/interpreter/upvalue.h
index c99d9b0..8e4f46b 100644
--- a/interpreter/upvalue.h
+++ b/interpreter/upvalue.h
@@ -15,5 +15,6 @@ struct Upvalue *upval_new(struct YASL_Object *const location);
 struct YASL_Object upval_get(const struct Upvalue *const upval);
 void upval_set(struct Upvalue *const upval, const struct YASL_Object v);
 void upval_close(struct Upvalue *const upval);
+void upval_release(struct Upvalue *const upval);
 
 #endif
-- 
2.43.0


From c571a0553882210e358dbabeef61085edd3b0e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:00 +0000
Subject: [PATCH 06/76] fix: close upvalues on returns that come before the
 closure in the source

---
 interpreter/VM.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index 1d55f5e..ca05ee2 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -1602,6 +1602,8 @@ void vm_executenext(struct VM *const vm) {
 		vm_RET(vm);
 		break;
 	case O_RET:
+		// A closure created later on in the function may already have run (in a loop).
+		vm_close_all(vm);
 		vm_RET(vm);
 		break;
 	case O_GET:
-- 
2.43.0


From f7731aa5163bdb8e7d9ce91a3e6356df31b0a4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:56 +0000
Subject: [PATCH 07/76] fix: keep the matched value when a guard fails after
 binding variables

---
 compiler/compiler.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/compiler/compiler.c b/compiler/compiler.c
index 0fe4d61..ac6266e 100644
--- a/compiler/compiler.c
+++ b/compiler/compiler.c
@@ -1028,8 +1028,16 @@ static void visit_Match_helper(struct Compiler *const compiler, const struct Nod
 	if (guard) {
 		YASL_ByteBuffer_rewrite_int_fast(compiler->buffer, start_guard, compiler->buffer->count - start_guard - 8);
 		if (bindings) {
-			for (unsigned char i = bindings; i > 0; i--)
-			compiler_add_byte(compiler, O_POP);
+			const bool any = patterns->children_len > curr && patterns->children[curr]->nodetype == N_PATANY;
+			for (unsigned char i = bindings; i > 0; i--) {
+				if (any) {
+					compiler_add_byte(compiler, O_POP);
+				} else {
+					// the value being matched is above the bindings, and is still needed.
+					compiler_add_byte(compiler, O_DEL_FP);
+					compiler_add_byte(compiler, (unsigned char) vars);
+				}
+			}
 		}
 	}
 	YASL_ByteBuffer_rewrite_int_fast(compiler->buffer, start, compiler->buffer->count - start - 8);
-- 
2.43.0


From 3418fdc34e96ba99a03135ab9586f3d174d1b5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:56 +0000
Subject: [PATCH 08/76] fix: close over block variables when their scope ends

---
 compiler/compiler.c | 13 +++++++++++++
 compiler/env.c      | 10 ++++++++++
 compiler/env.h      |  2 ++
 interpreter/VM.c    | 11 +++++++++--
 opcode.h            |  1 +
 5 files changed, 35 insertions(+), 2 deletions(-)

diff --git a/compiler/compiler.c b/compiler/compiler.c
index ac6266e..310f2cc 100644
--- a/compiler/compiler.c
+++ b/compiler/compiler.c
@@ -77,10 +77,17 @@ static void enter_scope(struct Compiler *const compiler) {
 	*lval = scope_new(*lval);
 }
 
+// Variables captured by a closure have to outlive their slot on the stack.
+static void close_locals(struct Compiler *const compiler, const size_t start) {
+	compiler_add_byte(compiler, O_CLOSE);
+	compiler_add_byte(compiler, (unsigned char) start);
+}
+
 static void exit_scope(struct Compiler *const compiler) {
 	struct Scope **lval = in_function(compiler) ? &compiler->params->scope : &compiler->stack;
 	struct Scope *tmp = *lval;
 	 *lval = tmp->parent;
+	if (tmp->captured) close_locals(compiler, scope_len(tmp->parent));
 	size_t num_locals = tmp->vars.count;
 	scope_del_current_only(tmp);
 	while (num_locals-- > 0) {
@@ -586,6 +593,7 @@ static void visit_Comp(struct Compiler *const compiler, const struct Node *const
 
 	exit_conditional_false(compiler, &index_second);
 
+	if (get_scope_in_use(compiler)->captured) close_locals(compiler, scope_len(get_scope_in_use(compiler)->parent));
 	compiler_add_byte(compiler, byte);
 	compiler_add_byte(compiler, O_ENDCOMP);
 
@@ -724,6 +732,9 @@ static void visit_While(struct Compiler *const compiler, const struct Node *cons
 
 // Pops the variables declared inside of the current loop, without ending their scope at compile-time.
 static void pop_loop_locals(struct Compiler *const compiler) {
+	for (struct Scope *scope = get_scope_in_use(compiler); scope_len(scope) > locals_checkpoint(compiler); scope = scope->parent) {
+		if (scope->captured) close_locals(compiler, scope_len(scope->parent));
+	}
 	for (size_t i = scope_len(get_scope_in_use(compiler)); i > locals_checkpoint(compiler); i--) {
 		compiler_add_byte(compiler, O_POP);
 	}
@@ -1017,6 +1028,7 @@ static void visit_Match_helper(struct Compiler *const compiler, const struct Nod
 	}
 
 	visit(compiler, bodies->children[curr]);
+	const bool captured = get_scope_in_use(compiler)->captured;
 	exit_scope(compiler);
 
 	curr++;
@@ -1028,6 +1040,7 @@ static void visit_Match_helper(struct Compiler *const compiler, const struct Nod
 	if (guard) {
 		YASL_ByteBuffer_rewrite_int_fast(compiler->buffer, start_guard, compiler->buffer->count - start_guard - 8);
 		if (bindings) {
+			if (captured) close_locals(compiler, vars);
 			const bool any = patterns->children_len > curr && patterns->children[curr]->nodetype == N_PATANY;
 			for (unsigned char i = bindings; i > 0; i--) {
 				if (any) {
diff --git a/compiler/env.c b/compiler/env.c
index b648ba0..9838dd5 100644
--- a/compiler/env.c
+++ b/compiler/env.c
@@ -44,6 +44,7 @@ struct Scope *scope_new(struct Scope *const parent) {
 	struct Scope *scope = (struct Scope *)malloc(sizeof(struct Scope));
 	scope->parent = parent;
 	scope->vars = NEW_TABLE();
+	scope->captured = false;
 	return scope;
 }
 
@@ -127,6 +128,7 @@ static int64_t env_add_upval(struct Env *env, struct Scope *stack, const char *c
 	env->isclosure = true;
 
 	if (!env->parent && scope_contains(stack, name)) {
+		scope_capture(stack, name);
 		yasl_int value = get_index(scope_get(stack, name));
 		(void)value;
 		YASL_Table_insert(&env->upval_values, key, YASL_INT(value));
@@ -143,6 +145,7 @@ static int64_t env_add_upval(struct Env *env, struct Scope *stack, const char *c
 
 	if (env_contains_cur_only(env->parent, name)) {
 		env->parent->usedinclosure = true;
+		scope_capture(env->parent->scope, name);
 		yasl_int value = get_index(scope_get(env->parent->scope, name));
 		YASL_Table_insert(&env->upval_values, key, YASL_INT(value));
 		int64_t index = env->upval_indices.count;
@@ -217,6 +220,13 @@ static struct YASL_Table *get_closest_scope_with_var(struct Scope *const scope,
 	return key.type != Y_END ? &scope->vars : get_closest_scope_with_var(scope->parent, name, name_len);
 }
 
+void scope_capture(struct Scope *scope, const char *const name) {
+	while (!scope_contains_cur_only(scope, name)) {
+		scope = scope->parent;
+	}
+	scope->captured = true;
+}
+
 void scope_make_const(struct Scope *const scope, const char *const name) {
 	const size_t name_len = strlen(name);
 	struct YASL_Table *ht = get_closest_scope_with_var(scope, name, name_len);
diff --git a/compiler/env.h b/compiler/env.h
index 11fffb0..6525c6c 100644
--- a/compiler/env.h
+++ b/compiler/env.h
@@ -6,6 +6,7 @@
 struct Scope {
     struct Scope *parent;
     struct YASL_Table vars;
+    bool captured;    // whether a closure captures some variable of this scope
 };
 
 struct Env {
@@ -27,6 +28,7 @@ bool scope_contains(const struct Scope *const scope, const char *const name);
 int64_t scope_get(const struct Scope *const scope, const char *const name);
 int64_t scope_decl_var(struct Scope *const scope, const char *const name);
 bool scope_used_in_closure(const struct Scope *const scope);
+void scope_capture(struct Scope *scope, const char *const name);
 void scope_make_const(struct Scope *const scope, const char *const name);
 
 bool env_contains(const struct Env *env, const char *const name);
diff --git a/interpreter/VM.c b/interpreter/VM.c
index ca05ee2..2acb9a0 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -1279,8 +1279,7 @@ static void vm_RET(struct VM *const vm) {
 	vm_exitframe_multi(vm, len);
 }
 
-void vm_close_all(struct VM *const vm) {
-	struct YASL_Object *const end = vm->stack + vm->fp;
+static void vm_close_from(struct VM *const vm, const struct YASL_Object *const end) {
 	while (vm->pending && vm->pending->location >= end) {
 		struct Upvalue *upval = vm->pending;
 		vm->pending = upval->next;
@@ -1290,6 +1289,10 @@ void vm_close_all(struct VM *const vm) {
 	}
 }
 
+void vm_close_all(struct VM *const vm) {
+	vm_close_from(vm, vm->stack + vm->fp);
+}
+
 static void vm_ECHO(struct VM *const vm) {
 	unsigned char top = NCODE(vm);
 	YASL_UNUSED(top);
@@ -1622,6 +1625,10 @@ void vm_executenext(struct VM *const vm) {
 		c = NCODE(vm);
 		vm_rm(vm, vm->fp + 1 + c);
 		break;
+	case O_CLOSE:
+		c = NCODE(vm);
+		vm_close_from(vm, vm->stack + vm->fp + 1 + c);
+		break;
 	case O_DECSP:
 		vm->sp -= NCODE(vm);
 		break;
diff --git a/opcode.h b/opcode.h
index 5666cbd..1216c1e 100644
--- a/opcode.h
+++ b/opcode.h
@@ -59,6 +59,7 @@ enum Opcode {
 	O_SWAP = 0xB7, // swap the top two elements of the stack.
 	O_DUP = 0xB8, // duplicate top value of stack
 	O_DEL_FP = 0xB9, // deletes an element from the stack. Takes a one-byte index, indicating which element to delete.
+	O_CLOSE = 0xBC, // close the upvalues of the locals starting at the given index. Takes a one-byte index, indexing from fp.
 	O_DECSP = 0xBD,
 	O_INCSP = 0xBE,
 	O_POP = 0xBF, // pop top of stack
-- 
2.43.0


From e119d3a83cd77fddbf07b5b8ac3542161c169a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:52 +0000
Subject: [PATCH 09/76] fix: drop the value of a match statement when no
 pattern matches

---
 compiler/compiler.c | 17 +++++++++++++++++
 compiler/compiler.h |  1 +
 interpreter/VM.c    |  3 +++
 opcode.h            |  1 +
 4 files changed, 22 insertions(+)

diff --git a/compiler/compiler.c b/compiler/compiler.c
index 310f2cc..2187f35 100644
--- a/compiler/compiler.c
+++ b/compiler/compiler.c
@@ -83,7 +83,18 @@ static void close_locals(struct Compiler *const compiler, const size_t start) {
 	compiler_add_byte(compiler, (unsigned char) start);
 }
 
+static struct Scope *get_scope_in_use(const struct Compiler *const compiler);
+
+// When no pattern matches, the value that was being matched is still on the stack.
+static void pop_unmatched(struct Compiler *const compiler) {
+	if (!compiler->unmatched) return;
+	compiler->unmatched = false;
+	compiler_add_byte(compiler, O_SETSP);
+	compiler_add_byte(compiler, (unsigned char) scope_len(get_scope_in_use(compiler)));
+}
+
 static void exit_scope(struct Compiler *const compiler) {
+	pop_unmatched(compiler);
 	struct Scope **lval = in_function(compiler) ? &compiler->params->scope : &compiler->stack;
 	struct Scope *tmp = *lval;
 	 *lval = tmp->parent;
@@ -129,6 +140,7 @@ static void visit(struct Compiler *const compiler, const struct Node *const node
 
 static void visit_Body(struct Compiler *const compiler, const struct Node *const node) {
 	FOR_CHILDREN(i, child, node) {
+		pop_unmatched(compiler);
 		visit(compiler, child);
 	}
 }
@@ -333,6 +345,7 @@ unsigned char *compile(struct Compiler *const compiler) {
 			compiler->status |= compiler->parser.status;
 			return NULL;
 		}
+		pop_unmatched(compiler);
 		visit(compiler, node);
 		YASL_ByteBuffer_extend(compiler->code, compiler->buffer->bytes, compiler->buffer->count);
 		compiler->buffer->count = 0;
@@ -354,6 +367,7 @@ unsigned char *compile_REPL(struct Compiler *const compiler) {
 			if (peof(&compiler->parser) && node->nodetype == N_EXPRSTMT) {
 				node->nodetype = N_ECHO;
 			}
+			pop_unmatched(compiler);
 			visit(compiler, node);
 			YASL_ByteBuffer_extend(compiler->code, compiler->buffer->bytes, compiler->buffer->count);
 			compiler->buffer->count = 0;
@@ -409,6 +423,7 @@ static void visit_FnDecl(struct Compiler *const compiler, const struct Node *con
 	// TODO: verfiy that number of params is small enough. (same for the other casts below.)
 	compiler_add_byte(compiler, (unsigned char) Body_get_len(FnDecl_get_params(node)));
 	visit_Body(compiler, FnDecl_get_body(node));
+	pop_unmatched(compiler);
 	// TODO: remove this when it's not required.
 	compiler_add_byte(compiler, O_NCONST);
 	compiler_add_byte(compiler, compiler->params->usedinclosure ? O_CRET : O_RET);
@@ -1058,6 +1073,8 @@ static void visit_Match_helper(struct Compiler *const compiler, const struct Nod
 	if (patterns->children_len > curr) {
 		visit_Match_helper(compiler, patterns, guards, bodies, curr);
 		exit_jump(compiler, &body_end);
+	} else {
+		compiler->unmatched = true;
 	}
 }
 
diff --git a/compiler/compiler.h b/compiler/compiler.h
index d2dbd91..5a931e1 100644
--- a/compiler/compiler.h
+++ b/compiler/compiler.h
@@ -48,6 +48,7 @@ struct Compiler {
 	struct Env *params;
 	int expected_returns;
 	bool leftmost_pattern;
+	bool unmatched;    // whether the value of a match might be left on the stack
 	struct YASL_Table seen_bindings;
 	struct YASL_Table *strings;
 	struct YASL_ByteBuffer *buffer;    // temporary buffer during code-gen
diff --git a/interpreter/VM.c b/interpreter/VM.c
index 2acb9a0..4e2a5e0 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -1629,6 +1629,9 @@ void vm_executenext(struct VM *const vm) {
 		c = NCODE(vm);
 		vm_close_from(vm, vm->stack + vm->fp + 1 + c);
 		break;
+	case O_SETSP:
+		vm->sp = vm->fp + NCODE(vm);
+		break;
 	case O_DECSP:
 		vm->sp -= NCODE(vm);
 		break;
diff --git a/opcode.h b/opcode.h
index 1216c1e..60dae78 100644
--- a/opcode.h
+++ b/opcode.h
@@ -59,6 +59,7 @@ enum Opcode {
 	O_SWAP = 0xB7, // swap the top two elements of the stack.
 	O_DUP = 0xB8, // duplicate top value of stack
 	O_DEL_FP = 0xB9, // deletes an element from the stack. Takes a one-byte index, indicating which element to delete.
+	O_SETSP = 0xBB, // drop everything above the locals. Takes a one-byte number of locals.
 	O_CLOSE = 0xBC, // close the upvalues of the locals starting at the given index. Takes a one-byte index, indexing from fp.
 	O_DECSP = 0xBD,
 	O_INCSP = 0xBE,
-- 
2.43.0


From 85078ec6e7a35fc0fdf1b4d2c55c6e3422e3deef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:43 +0000
Subject: [PATCH 10/76] fix: keep the length of a table or set when removing a
 key that it does not contain

---
 data-structures/YASL_Set.c   | 5 +++--
 data-structures/YASL_Table.c | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/data-structures/YASL_Set.c b/data-structures/YASL_Set.c
index 34d6b3b..7078b16 100644
--- a/data-structures/YASL_Set.c
+++ b/data-structures/YASL_Set.c
@@ -111,14 +111,15 @@ void YASL_Set_rm(struct YASL_Set *const set, struct YASL_Object key) {
 	while (!obj_isundef(&item)) {
 		if (item.type != Y_END) {
 			if ((isequal(&item, &key))) {
-				dec_ref(&item);
 				set->items[index] = YASL_END();
+				set->count--;
+				dec_ref(&item);
+				return;
 			}
 		}
 		index = get_hash(key, set->size, i++);
 		item = set->items[index];
 	}
-	set->count--;
 }
 
 struct YASL_Set *YASL_Set_union(const struct YASL_Set *const left, const struct YASL_Set *const right) {
diff --git a/data-structures/YASL_Table.c b/data-structures/YASL_Table.c
index 40fdcb0..45ec1be 100644
--- a/data-structures/YASL_Table.c
+++ b/data-structures/YASL_Table.c
@@ -191,12 +191,13 @@ void YASL_Table_rm(struct YASL_Table *const table, const struct YASL_Object key)
 	while (!obj_isundef(&item.key)) {
 		if (item.key.type != Y_END) {
 			if ((isequal_typed(&item.key, &key))) {
-				del_item(&item);
 				table->items[index] = TOMBSTONE;
+				table->count--;
+				del_item(&item);
+				return;
 			}
 		}
 		index = get_hash(key, table->size, i++);
 		item = table->items[index];
 	}
-	table->count--;
 }
-- 
2.43.0


From d263f9e769b6163583be4078daf45365420a8aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:58 +0000
Subject: [PATCH 11/76] fix: terminate searches in tables and sets that many
 keys have been removed from

---
 data-structures/YASL_Set.c   | 9 +++++++++
 data-structures/YASL_Set.h   | 1 +
 data-structures/YASL_Table.c | 9 +++++++++
 data-structures/YASL_Table.h | 2 ++
 interpreter/table_methods.c  | 1 +
 5 files changed, 22 insertions(+)

diff --git a/data-structures/YASL_Set.c b/data-structures/YASL_Set.c
index 7078b16..68f47fb 100644
--- a/data-structures/YASL_Set.c
+++ b/data-structures/YASL_Set.c
@@ -10,6 +10,7 @@ static struct YASL_Set *set_new_sized(const size_t base_size) {
 	set->base_size = base_size;
 	set->size = next_prime(set->base_size);
 	set->count = 0;
+	set->removed = 0;
 	set->items = (struct YASL_Object *)calloc((size_t) set->size, sizeof(struct YASL_Object));
 	return set;
 }
@@ -36,6 +37,7 @@ static void set_resize(struct YASL_Set *const set, const size_t base_size) {
 	}
 	set->base_size = new_set->base_size;
 	set->count = new_set->count;
+	set->removed = 0;
 
 	const size_t tmp_size = set->size;
 	set->size = new_set->size;
@@ -53,6 +55,11 @@ static void set_resize_up(struct YASL_Set *set) {
 	set_resize(set, new_size);
 }
 
+// Gets rid of the tombstones, since searches only stop at slots that have never been used.
+static void set_rehash(struct YASL_Set *set) {
+	set_resize(set, set->base_size);
+}
+
 static void set_resize_down(struct YASL_Set *set) {
 	const size_t new_size = set->base_size / 2;
 	set_resize(set, new_size);
@@ -65,6 +72,7 @@ bool YASL_Set_insert(struct YASL_Set *const set, struct YASL_Object value) {
 
 	const size_t load = set->count * 100 / set->size;
 	if (load > 70) set_resize_up(set);
+	else if ((set->count + set->removed) * 100 / set->size > 70) set_rehash(set);
 	size_t index = get_hash(value, set->size, 0);
 	inc_ref(&value);
 	struct YASL_Object curr_item = set->items[index];
@@ -113,6 +121,7 @@ void YASL_Set_rm(struct YASL_Set *const set, struct YASL_Object key) {
 			if ((isequal(&item, &key))) {
 				set->items[index] = YASL_END();
 				set->count--;
+				set->removed++;
 				dec_ref(&item);
 				return;
 			}
diff --git a/data-structures/YASL_Set.h b/data-structures/YASL_Set.h
index 919b590..582c05f 100644
--- a/data-structures/YASL_Set.h
+++ b/data-structures/YASL_Set.h
@@ -10,6 +10,7 @@ struct YASL_Set {
 	size_t size;
 	size_t base_size;
 	size_t count;
+	size_t removed;    // number of tombstones
 	struct YASL_Object *items;
 };
 
diff --git a/data-structures/YASL_Table.c b/data-structures/YASL_Table.c
index 45ec1be..9f4ed03 100644
--- a/data-structures/YASL_Table.c
+++ b/data-structures/YASL_Table.c
@@ -31,6 +31,7 @@ struct YASL_Table *table_new_sized(const size_t base_size) {
 	table->base_size = base_size;
 	table->size = next_prime(table->base_size);
 	table->count = 0;
+	table->removed = 0;
 	table->items = (struct YASL_Table_Item *)calloc((size_t) table->size, sizeof(struct YASL_Table_Item));
 	return table;
 }
@@ -76,6 +77,7 @@ static void table_resize(struct YASL_Table *const table, const size_t base_size)
 	}
 	table->base_size = new_table->base_size;
 	table->count = new_table->count;
+	table->removed = 0;
 
 	const size_t tmp_size = table->size;
 	table->size = new_table->size;
@@ -93,6 +95,11 @@ static void table_resize_up(struct YASL_Table *const table) {
 	table_resize(table, new_size);
 }
 
+// Gets rid of the tombstones, since searches only stop at slots that have never been used.
+static void table_rehash(struct YASL_Table *const table) {
+	table_resize(table, table->base_size);
+}
+
 static void table_resize_down(struct YASL_Table *const table) {
 	const size_t new_size = table->base_size / 2;
 	table_resize(table, new_size);
@@ -123,6 +130,7 @@ void YASL_Table_insert_fast(struct YASL_Table *const table, const struct YASL_Ob
 
 	const size_t load = table->count * 100 / table->size;
 	if (load > 70) table_resize_up(table);
+	else if ((table->count + table->removed) * 100 / table->size > 70) table_rehash(table);
 	struct YASL_Table_Item item = new_item(key, value);
 	const size_t index = YASL_Table_getindex(table, key);
 	struct YASL_Table_Item curr_item = table->items[index];
@@ -193,6 +201,7 @@ void YASL_Table_rm(struct YASL_Table *const table, const struct YASL_Object key)
 			if ((isequal_typed(&item.key, &key))) {
 				table->items[index] = TOMBSTONE;
 				table->count--;
+				table->removed++;
 				del_item(&item);
 				return;
 			}
diff --git a/data-structures/YASL_Table.h b/data-structures/YASL_Table.h
index dac5f43..fb42ba1 100644
--- a/data-structures/YASL_Table.h
+++ b/data-structures/YASL_Table.h
@@ -15,6 +15,7 @@
 	.size = next_prime(TABLE_BASESIZE),\
 	.base_size = TABLE_BASESIZE,\
 	.count = 0,\
+	.removed = 0,\
 	.items = (struct YASL_Table_Item *)calloc((size_t) next_prime(TABLE_BASESIZE), sizeof(struct YASL_Table_Item))\
 })
 
@@ -35,6 +36,7 @@ struct YASL_Table {
 	size_t size;
 	size_t base_size;
 	size_t count;
+	size_t removed;    // number of tombstones
 	struct YASL_Table_Item *items;
 };
 
diff --git a/interpreter/table_methods.c b/interpreter/table_methods.c
index 41a02b5..a973eb9 100644
--- a/interpreter/table_methods.c
+++ b/interpreter/table_methods.c
@@ -251,6 +251,7 @@ int table_clear(struct YASL_State *S) {
 	}
 
 	ht->count = 0;
+	ht->removed = 0;
 	ht->size = TABLE_BASESIZE;
 	free(ht->items);
 	ht->items = (struct YASL_Table_Item *) calloc((size_t) ht->size, sizeof(struct YASL_Table_Item));
-- 
2.43.0


From 63770c8033d1a901fafb8446ff6dde08c72681b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:16 +0000
Subject: [PATCH 12/76] fix: clear all of a set, and keep the size of a cleared
 table prime

---
 data-structures/YASL_Set.c  | 12 ++++++++++++
 data-structures/YASL_Set.h  |  1 +
 interpreter/table_methods.c |  3 ++-
 std/yasl-std-collections.c  |  4 +---
 4 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/data-structures/YASL_Set.c b/data-structures/YASL_Set.c
index 68f47fb..bdc4d92 100644
--- a/data-structures/YASL_Set.c
+++ b/data-structures/YASL_Set.c
@@ -131,6 +131,18 @@ void YASL_Set_rm(struct YASL_Set *const set, struct YASL_Object key) {
 	}
 }
 
+void YASL_Set_clear(struct YASL_Set *const set) {
+	FOR_SET(i, item, set) {
+		dec_ref(item);
+	}
+	free(set->items);
+	set->base_size = SET_BASESIZE;
+	set->size = next_prime(set->base_size);
+	set->count = 0;
+	set->removed = 0;
+	set->items = (struct YASL_Object *)calloc((size_t) set->size, sizeof(struct YASL_Object));
+}
+
 struct YASL_Set *YASL_Set_union(const struct YASL_Set *const left, const struct YASL_Set *const right) {
 	struct YASL_Set *tmp = YASL_Set_new();
 	FOR_SET(i, iteml, left) {
diff --git a/data-structures/YASL_Set.h b/data-structures/YASL_Set.h
index 582c05f..b5266e4 100644
--- a/data-structures/YASL_Set.h
+++ b/data-structures/YASL_Set.h
@@ -19,6 +19,7 @@ void YASL_Set_del(void *s);
 bool YASL_Set_insert(struct YASL_Set *const set, struct YASL_Object value) /* YASL_WARN_UNUSED */;
 bool YASL_Set_search(const struct YASL_Set *const set, const struct YASL_Object key);
 void YASL_Set_rm(struct YASL_Set *const set, struct YASL_Object key);
+void YASL_Set_clear(struct YASL_Set *const set);
 
 struct YASL_Set *YASL_Set_union(const struct YASL_Set *const left, const struct YASL_Set *const right);
 struct YASL_Set *YASL_Set_intersection(const struct YASL_Set *const left, const struct YASL_Set *const right);
diff --git a/interpreter/table_methods.c b/interpreter/table_methods.c
index a973eb9..1273dbf 100644
--- a/interpreter/table_methods.c
+++ b/interpreter/table_methods.c
@@ -252,7 +252,8 @@ int table_clear(struct YASL_State *S) {
 
 	ht->count = 0;
 	ht->removed = 0;
-	ht->size = TABLE_BASESIZE;
+	ht->base_size = TABLE_BASESIZE;
+	ht->size = next_prime(ht->base_size);
 	free(ht->items);
 	ht->items = (struct YASL_Table_Item *) calloc((size_t) ht->size, sizeof(struct YASL_Table_Item));
 	dec_ref(&vm_peek((struct VM *) S));
diff --git a/std/yasl-std-collections.c b/std/yasl-std-collections.c
index 20642a3..045bfbf 100644
--- a/std/yasl-std-collections.c
+++ b/std/yasl-std-collections.c
@@ -295,9 +295,7 @@ static int YASL_collections_set_copy(struct YASL_State *S) {
 static int YASL_collections_set_clear(struct YASL_State *S) {
 	struct YASL_Set *set = YASLX_checknset(S, SET_PRE ".clear", 0);
 
-	FOR_SET(i, item, set) {
-		YASL_Set_rm(set, *item);
-	}
+	YASL_Set_clear(set);
 	return 1;
 }
 
-- 
2.43.0


From 3a8aa521ea4b518d3358bc5ed7ca664ed47f939c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:56 +0000
Subject: [PATCH 13/76] fix: keep the variables and table entries whose value
 is undef

---
 data-structures/YASL_Table.c | 2 +-
 data-structures/YASL_Table.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/data-structures/YASL_Table.c b/data-structures/YASL_Table.c
index 9f4ed03..2539b27 100644
--- a/data-structures/YASL_Table.c
+++ b/data-structures/YASL_Table.c
@@ -113,7 +113,7 @@ size_t YASL_Table_getindex(struct YASL_Table *const table, const struct YASL_Obj
 	size_t index = get_hash(key, table->size, 0);
 	struct YASL_Table_Item curr_item = table->items[index];
 	size_t i = 1;
-	while (curr_item.value.type != Y_UNDEF) {
+	while (!obj_isundef(&curr_item.key)) {
 		if (curr_item.key.type != Y_END) {
 			if (isequal_typed(&curr_item.key, &key)) {
 				return index;
diff --git a/data-structures/YASL_Table.h b/data-structures/YASL_Table.h
index fb42ba1..9340f60 100644
--- a/data-structures/YASL_Table.h
+++ b/data-structures/YASL_Table.h
@@ -8,7 +8,7 @@
 #define TABLE_BASESIZE 30
 
 #define FOR_TABLE(i, item, table) struct YASL_Table_Item *item; for (size_t i = 0; i < (table)->size; i++) \
-                                                  if (item = &(table)->items[i], item->key.type != Y_END && !obj_isundef(&item->value))
+                                                  if (item = &(table)->items[i], item->key.type != Y_END && !obj_isundef(&item->key))
 
 
 #define NEW_TABLE() ((struct YASL_Table){\
-- 
2.43.0


From 0d9044b027f9ad809c97715b8924b8dd99be69ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:05 +0000
Subject: [PATCH 14/76] fix: reject undef as a key, which tables and sets are
 not able to store

---
 interpreter/YASL_Object.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/interpreter/YASL_Object.c b/interpreter/YASL_Object.c
index b0c57a7..d735ab8 100644
--- a/interpreter/YASL_Object.c
+++ b/interpreter/YASL_Object.c
@@ -80,7 +80,6 @@ int yasl_object_cmp(struct YASL_Object a, struct YASL_Object b) {
 
 bool ishashable(const struct YASL_Object *const v) {
 	return (
-		obj_isundef(v) ||
 		obj_isbool(v) ||
 		obj_isfloat(v) ||
 		obj_isint(v) ||
-- 
2.43.0


From 2d1ddeb11a9a663d8ef167d8b61a1e98a691092b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:17 +0000
Subject: [PATCH 15/76] fix: compare the members of a set by type as well as by
 value

---
 data-structures/YASL_Set.c | 6 +++---
 interpreter/YASL_Object.h  | 1 +
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/data-structures/YASL_Set.c b/data-structures/YASL_Set.c
index bdc4d92..3c5be12 100644
--- a/data-structures/YASL_Set.c
+++ b/data-structures/YASL_Set.c
@@ -79,7 +79,7 @@ bool YASL_Set_insert(struct YASL_Set *const set, struct YASL_Object value) {
 	size_t i = 1;
 	while (!obj_isundef(&curr_item)) {
 		if (curr_item.type != Y_END) {
-			if ((isequal(&curr_item, &value))) {
+			if ((isequal_typed(&curr_item, &value))) {
 				dec_ref(&curr_item);
 				set->items[index] = value;
 				return true;
@@ -98,7 +98,7 @@ bool YASL_Set_search(const struct YASL_Set *const set, const struct YASL_Object
 	struct YASL_Object item = set->items[index];
 	size_t i = 1;
 	while (!obj_isundef(&item)) {
-		if ((isequal(&item, &key))) {
+		if ((isequal_typed(&item, &key))) {
 			return true;
 		}
 		index = get_hash(key, set->size, i++);
@@ -118,7 +118,7 @@ void YASL_Set_rm(struct YASL_Set *const set, struct YASL_Object key) {
 	size_t i = 1;
 	while (!obj_isundef(&item)) {
 		if (item.type != Y_END) {
-			if ((isequal(&item, &key))) {
+			if ((isequal_typed(&item, &key))) {
 				set->items[index] = YASL_END();
 				set->count--;
 				set->removed++;
diff --git a/interpreter/YASL_Object.h b/interpreter/YASL_Object.h
index c839a6a..f709bc6 100644
--- a/interpreter/YASL_Object.h
+++ b/interpreter/YASL_Object.h
@@ -64,6 +64,7 @@ int yasl_object_cmp(struct YASL_Object a, struct YASL_Object b);
 bool ishashable(const struct YASL_Object *const v);
 bool isfalsey(const struct YASL_Object *const v);
 bool isequal(const struct YASL_Object *const a, const struct YASL_Object *const b);
+bool isequal_typed(const struct YASL_Object *const a, const struct YASL_Object *const b);
 
 const char *obj_typename(const struct YASL_Object *const v);
 
-- 
2.43.0


From 3f5c58991c343ce1b4271ea9ccb179d0f11369d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:10 +0000
Subject: [PATCH 16/76] fix: use the result of __eq when comparing the elements
 of lists and tables

---
 interpreter/VM.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index 4e2a5e0..4f492be 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -497,7 +497,7 @@ void vm_EQ(struct VM *const vm) {
 					  obj_typename(&a), obj_typename(&b));
 		vm_shifttopdown(vm, 2);
 		vm_INIT_CALL_offset(vm, vm->sp - 2, 1);
-		vm_CALL(vm);
+		vm_CALL_now(vm);
 	} else {
 		vm_pop(vm);
 		vm_pop(vm);
-- 
2.43.0


From 72b626c670663f523d3db0eddabc39f8fcc833ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:40 +0000
Subject: [PATCH 17/76] fix: run YASL functions called from C to completion,
 and count their results

---
 interpreter/VM.h | 1 +
 yasl.c           | 8 ++++----
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/interpreter/VM.h b/interpreter/VM.h
index cb34e44..a1ae0fd 100644
--- a/interpreter/VM.h
+++ b/interpreter/VM.h
@@ -133,6 +133,7 @@ void vm_EQ(struct VM *const vm);
 
 void vm_INIT_CALL_offset(struct VM *const vm, int offset, int expected_returns);
 void vm_CALL(struct VM *const vm);
+void vm_CALL_now(struct VM *const vm);
 
 struct YASL_Object vm_pop(struct VM *const vm);
 bool vm_popbool(struct VM *const vm);
diff --git a/yasl.c b/yasl.c
index a7da9bb..d362c2a 100644
--- a/yasl.c
+++ b/yasl.c
@@ -438,12 +438,12 @@ int YASL_listpush(struct YASL_State *S) {
 
 int YASL_functioncall(struct YASL_State *S, int n) {
 	struct VM *vm = &S->vm;
-	vm_INIT_CALL_offset(vm, vm->sp - n, -1);
+	const int start = vm->sp - n;
+	vm_INIT_CALL_offset(vm, start, -1);
 
-	const int old_sp = vm->sp;
-	vm_CALL(vm);
+	vm_CALL_now(vm);
 
-	return old_sp - vm->sp - 1;
+	return vm->sp - start + 1;
 }
 
 bool YASL_isundef(struct YASL_State *S) {
-- 
2.43.0


From afdb25de2d40ab1c8360aba049d8cd73d5c74986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:34 +0000
Subject: [PATCH 18/76] fix: report errors for indexing functions and user
 pointers instead of reading uninitialised metatables

---
 interpreter/VM.c | 2 +-
 interpreter/VM.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index 4f492be..b43e95d 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -23,7 +23,7 @@
 #include "closure.h"
 
 static struct RC_UserData **builtins_htable_new(struct VM *const vm) {
-	struct RC_UserData **ht = (struct RC_UserData **) malloc(sizeof(struct RC_UserData *) * NUM_TYPES);
+	struct RC_UserData **ht = (struct RC_UserData **) calloc(NUM_TYPES, sizeof(struct RC_UserData *));
 	ht[Y_UNDEF] = ud_new(undef_builtins(vm), TABLE_NAME, NULL, rcht_del_data);
 	ht[Y_UNDEF]->rc.refs++;
 	ht[Y_FLOAT] = ud_new(float_builtins(vm), TABLE_NAME, NULL, rcht_del_data);
diff --git a/interpreter/VM.h b/interpreter/VM.h
index a1ae0fd..4158653 100644
--- a/interpreter/VM.h
+++ b/interpreter/VM.h
@@ -16,7 +16,7 @@
 
 
 #define NUM_FRAMES 1000
-#define NUM_TYPES 13                                     // number of builtin types, each needs a vtable
+#define NUM_TYPES 14                                     // number of builtin types, each needs a vtable
 #define SCRATCH_SIZE 1024								// scratchspace size (needs tuning)
 
 #define vm_peek_offset(vm, offset) ((vm)->stack[offset])
-- 
2.43.0


From b79fbad6a39e6b78949c5dcc2c255657140f1609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:43 +0000
Subject: [PATCH 19/76] fix: bound the nesting of for loops

---
 interpreter/VM.c | 4 ++++
 interpreter/VM.h | 3 ++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index b43e95d..db46305 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -1511,6 +1511,10 @@ void vm_executenext(struct VM *const vm) {
 		break;
 	}
 	case O_INITFOR:
+		if (vm->loopframe_num + 1 >= NUM_LOOPFRAMES) {
+			vm_print_err(vm, "StackOverflow.");
+			vm_throw_err(vm, YASL_STACK_OVERFLOW_ERROR);
+		}
 		inc_ref(&vm_peek(vm));
 		vm->loopframe_num++;
 		vm->loopframes[vm->loopframe_num].iter = 0;
diff --git a/interpreter/VM.h b/interpreter/VM.h
index 4158653..5ec1536 100644
--- a/interpreter/VM.h
+++ b/interpreter/VM.h
@@ -16,6 +16,7 @@
 
 
 #define NUM_FRAMES 1000
+#define NUM_LOOPFRAMES NUM_FRAMES
 #define NUM_TYPES 14                                     // number of builtin types, each needs a vtable
 #define SCRATCH_SIZE 1024								// scratchspace size (needs tuning)
 
@@ -99,7 +100,7 @@ struct VM {
 	struct YASL_Object *stack;     // stack
 	struct CallFrame frames[NUM_FRAMES];
 	int frame_num;
-	struct LoopFrame loopframes[16];
+	struct LoopFrame loopframes[NUM_LOOPFRAMES];
 	int loopframe_num;
 	struct YASL_Object *constants;
 	int64_t num_constants;
-- 
2.43.0


From a83fdda40944d4a3efb5a7b742bd1931d6544f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:15 +0000
Subject: [PATCH 20/76] fix: keep the code of functions that were defined
 before the state was reset

---
 yasl.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/yasl.c b/yasl.c
index d362c2a..54559ef 100644
--- a/yasl.c
+++ b/yasl.c
@@ -115,7 +115,14 @@ int YASL_resetstate_bb(struct YASL_State *S, const char *buf, size_t len) {
 	S->compiler.parser.lex = NEW_LEXER(lexinput_new_bb(buf, len));
 	S->compiler.code->count = 0;
 	S->compiler.buffer->count = 0;
-	if (S->vm.code)	free(S->vm.code);
+	if (S->vm.code) {
+		// functions that have already been defined still refer to the old code.
+		const size_t size = S->vm.headers_size + 1;
+		S->vm.headers = (unsigned char **) realloc(S->vm.headers, size * sizeof(unsigned char *));
+		S->vm.headers[size - 1] = S->vm.code;
+		S->vm.headers_size = size;
+		S->vm.headers[S->compiler.num] = NULL;
+	}
 	S->vm.code = NULL;
 
 	return YASL_SUCCESS;
-- 
2.43.0


From 7af907530d53b559d887d433532d54b5e1924967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:11 +0000
Subject: [PATCH 21/76] fix: find the line of an error that happens in code
 other than the code being run

---
 interpreter/VM.c | 19 +++++++++++++++----
 yasl.c           |  4 ++++
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index db46305..6ea6118 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -135,12 +135,23 @@ YASL_FORMAT_CHECK static void vm_print_err_wrapper(struct VM *vm, const char *co
 static void vm_exitframe(struct VM *const vm);
 void vm_executenext(struct VM *const vm);
 
+// A function is not necessarily part of the code that is currently being run, it could come from some module.
+static const unsigned char *vm_getcurrcode(struct VM *vm) {
+	const unsigned char *code = vm->code <= vm->pc ? vm->code : NULL;
+	for (size_t i = 0; i < vm->headers_size; i++) {
+		const unsigned char *const header = vm->headers[i];
+		if (header && header <= vm->pc && header > code) code = header;
+	}
+	return code;
+}
+
 static size_t vm_getcurrline(struct VM *vm) {
-	size_t start = ((int64_t *)vm->code)[0];
-	size_t line_start = ((int64_t *)vm->code)[1];
-	const unsigned char *tmp = vm->code + line_start;
+	const unsigned char *const code = vm_getcurrcode(vm);
+	size_t start = ((int64_t *)code)[0];
+	size_t line_start = ((int64_t *)code)[1];
+	const unsigned char *tmp = code + line_start;
 	long unsigned i = 0;
-	while (vint_decode(tmp) < vm->pc - vm->code - start) {
+	while (vint_decode(tmp) < vm->pc - code - start) {
 		tmp = vint_next(tmp);
 		i++;
 	}
diff --git a/yasl.c b/yasl.c
index 54559ef..b8d312e 100644
--- a/yasl.c
+++ b/yasl.c
@@ -90,6 +90,8 @@ int YASL_resetstate(struct YASL_State *S, const char *filename) {
 
 	S->compiler.parser.lex = NEW_LEXER(lexinput_new_file(fp));
 	S->compiler.code->count = 0;
+	S->compiler.lines->count = 0;
+	S->compiler.line = 0;
 	S->compiler.buffer->count = 0;
 
 	return YASL_SUCCESS;
@@ -114,6 +116,8 @@ int YASL_resetstate_bb(struct YASL_State *S, const char *buf, size_t len) {
 	lex_cleanup(&S->compiler.parser.lex);
 	S->compiler.parser.lex = NEW_LEXER(lexinput_new_bb(buf, len));
 	S->compiler.code->count = 0;
+	S->compiler.lines->count = 0;
+	S->compiler.line = 0;
 	S->compiler.buffer->count = 0;
 	if (S->vm.code) {
 		// functions that have already been defined still refer to the old code.
-- 
2.43.0


From 0f51ee4805c701ca79f75e6e564f9a1efe7a7bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:14 +0000
Subject: [PATCH 22/76] fix: reset the stack, the scope and the constants along
 with the rest of the state

---
 interpreter/VM.c | 15 +++++++++++++-
 interpreter/VM.h |  1 +
 yasl.c           | 54 +++++++++++++++++++++++-------------------------
 3 files changed, 41 insertions(+), 29 deletions(-)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index 6ea6118..42be03e 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -75,7 +75,9 @@ void vm_init(struct VM *const vm,
 
 void vm_close_all(struct VM *const vm);
 
-void vm_cleanup(struct VM *const vm) {
+void vm_reset(struct VM *const vm) {
+	vm->fp = -1;
+
 	// If we've exited early somehow, without closing over some upvalues, we need to do that first.
 	vm_close_all(vm);
 
@@ -85,6 +87,13 @@ void vm_cleanup(struct VM *const vm) {
 		vm->loopframe_num--;
 	}
 
+	vm->frame_num = -1;
+	vm->sp = -1;
+}
+
+void vm_cleanup(struct VM *const vm) {
+	vm_reset(vm);
+
 	for (size_t i = 0; i < STACK_SIZE; i++) {
  		dec_ref(vm->stack + i);
 	}
@@ -1327,6 +1336,10 @@ static void vm_ECHO(struct VM *const vm) {
 }
 
 void vm_setupconstants(struct VM *const vm) {
+	for (int64_t i = 0; i < vm->num_constants; i++) {
+		dec_ref(vm->constants + i);
+	}
+	free(vm->constants);
 	vm->num_constants = ((int64_t *)vm->code)[2];
 	vm->constants = (struct YASL_Object *)malloc(sizeof(struct YASL_Object) * vm->num_constants);
 	unsigned char *tmp = vm->code + 3*sizeof(int64_t);
diff --git a/interpreter/VM.h b/interpreter/VM.h
index 5ec1536..897e92b 100644
--- a/interpreter/VM.h
+++ b/interpreter/VM.h
@@ -121,6 +121,7 @@ struct VM {
 
 void vm_init(struct VM *const vm, unsigned char *const code, const size_t pc, const size_t datasize);
 
+void vm_reset(struct VM *const vm);
 void vm_cleanup(struct VM *const vm);
 
 void vvm_print_err(struct VM *vm, const char *const fmt, va_list args);
diff --git a/yasl.c b/yasl.c
index b8d312e..2322c47 100644
--- a/yasl.c
+++ b/yasl.c
@@ -76,24 +76,39 @@ void YASL_loadprinterr(struct YASL_State *S) {
 	}
 }
 
-int YASL_resetstate(struct YASL_State *S, const char *filename) {
-	FILE *fp = fopen(filename, "r");
-	if (!fp) {
-		return YASL_ERROR;  // Can't open file.
-	}
-
-	fseek(fp, 0, SEEK_SET);
-
+static void reset(struct YASL_State *S, struct LEXINPUT *lp) {
 	S->compiler.status = YASL_SUCCESS;
 	S->compiler.parser.status = YASL_SUCCESS;
 	lex_cleanup(&S->compiler.parser.lex);
-
-	S->compiler.parser.lex = NEW_LEXER(lexinput_new_file(fp));
+	S->compiler.parser.lex = NEW_LEXER(lp);
 	S->compiler.code->count = 0;
 	S->compiler.lines->count = 0;
 	S->compiler.line = 0;
 	S->compiler.buffer->count = 0;
+	scope_del(S->compiler.stack);
+	S->compiler.stack = NULL;
 
+	vm_reset((struct VM *) S);
+	if (S->vm.code) {
+		// functions that have already been defined still refer to the old code.
+		const size_t size = S->vm.headers_size + 1;
+		S->vm.headers = (unsigned char **) realloc(S->vm.headers, size * sizeof(unsigned char *));
+		S->vm.headers[size - 1] = S->vm.code;
+		S->vm.headers_size = size;
+		S->vm.headers[S->compiler.num] = NULL;
+	}
+	S->vm.code = NULL;
+}
+
+int YASL_resetstate(struct YASL_State *S, const char *filename) {
+	FILE *fp = fopen(filename, "r");
+	if (!fp) {
+		return YASL_ERROR;  // Can't open file.
+	}
+
+	fseek(fp, 0, SEEK_SET);
+
+	reset(S, lexinput_new_file(fp));
 	return YASL_SUCCESS;
 }
 
@@ -111,24 +126,7 @@ struct YASL_State *YASL_newstate_bb(const char *buf, size_t len) {
 }
 
 int YASL_resetstate_bb(struct YASL_State *S, const char *buf, size_t len) {
-	S->compiler.status = YASL_SUCCESS;
-	S->compiler.parser.status = YASL_SUCCESS;
-	lex_cleanup(&S->compiler.parser.lex);
-	S->compiler.parser.lex = NEW_LEXER(lexinput_new_bb(buf, len));
-	S->compiler.code->count = 0;
-	S->compiler.lines->count = 0;
-	S->compiler.line = 0;
-	S->compiler.buffer->count = 0;
-	if (S->vm.code) {
-		// functions that have already been defined still refer to the old code.
-		const size_t size = S->vm.headers_size + 1;
-		S->vm.headers = (unsigned char **) realloc(S->vm.headers, size * sizeof(unsigned char *));
-		S->vm.headers[size - 1] = S->vm.code;
-		S->vm.headers_size = size;
-		S->vm.headers[S->compiler.num] = NULL;
-	}
-	S->vm.code = NULL;
-
+	reset(S, lexinput_new_bb(buf, len));
 	return YASL_SUCCESS;
 }
 
-- 
2.43.0


From 0df5ded4f06147d9d9ed14457ea28fa0a1755810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:28 +0000
Subject: [PATCH 23/76] fix: do not store undef values in tables made by
 collections.table

---
 std/yasl-std-collections.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/std/yasl-std-collections.c b/std/yasl-std-collections.c
index 045bfbf..d8ff99e 100644
--- a/std/yasl-std-collections.c
+++ b/std/yasl-std-collections.c
@@ -82,13 +82,14 @@ static int YASL_collections_table_new(struct YASL_State *S) {
 	while (i > 0) {
 		struct YASL_Object value = vm_pop((struct VM *)S);
 		struct YASL_Object key = vm_pop((struct VM *)S);
+		i -= 2;
+		if (obj_isundef(&value)) continue;
 		if (!YASL_Table_insert((struct YASL_Table *) table->data, key, value)) {
 			rcht_del(table);
 			vm_print_err_type(&S->vm, "unable to use mutable object of type %s as key.",
 					  obj_typename(&key));
 			YASL_throw_err(S, YASL_TYPE_ERROR);
 		}
-		i -= 2;
 	}
 	ud_setmt(table, S->vm.builtins_htable[Y_TABLE]);
 	vm_pushtable((struct VM *)S, table);
-- 
2.43.0


From 6b5b0b60de226c35831844421ac2a635fd92f11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:28 +0000
Subject: [PATCH 24/76] fix: slice of a str with an empty or reversed range is
 the empty str

---
 interpreter/VM.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index 42be03e..15622b4 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -717,7 +717,9 @@ static void vm_SLICE_str(struct VM *const vm){
 
 	struct YASL_String *str = vm_popstr(vm);
 
-	vm_push(vm, YASL_STR(YASL_String_new_substring((size_t)start, (size_t)end, str)));
+	if (start >= end) start = end = 0;
+
+	vm_push(vm, YASL_STR(YASL_String_new_substring(str->start + (size_t)start, str->start + (size_t)end, str)));
 }
 
 static void vm_SLICE(struct VM *const vm) {
-- 
2.43.0


From 090dd793b8f5012157198fbcea656a64cf3e9c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:28 +0000
Subject: [PATCH 25/76] fix: trim a str that consists only of what is trimmed

---
 data-structures/YASL_String.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/data-structures/YASL_String.c b/data-structures/YASL_String.c
index e7f7f73..e2410be 100644
--- a/data-structures/YASL_String.c
+++ b/data-structures/YASL_String.c
@@ -514,7 +514,7 @@ struct YASL_String *YASL_String_trim_default(struct YASL_String *haystack) {
 	}
 
 	int64_t end = haystack_len;
-	while (end >= 1 && iswhitespace(haystack_chars[end - 1])) {
+	while (end > start && iswhitespace(haystack_chars[end - 1])) {
 		end--;
 	}
 
@@ -533,7 +533,7 @@ struct YASL_String *YASL_String_trim(struct YASL_String *haystack, struct YASL_S
 	}
 
 	size_t end = haystack_len;
-	while (end >= needle_len &&
+	while (end >= start + needle_len &&
 	       !memcmp(haystack_chars + end - needle_len, needle_chars, needle_len)) {
 		end -= needle_len;
 	}
-- 
2.43.0


From 2e525e5d3b692c066371cf732a776145860ebea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:28 +0000
Subject: [PATCH 26/76] fix: reject the empty str as arg of count, ltrim,
 rtrim, and trim

---
 interpreter/str_methods.c | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/interpreter/str_methods.c b/interpreter/str_methods.c
index f5fc41f..5f10f88 100644
--- a/interpreter/str_methods.c
+++ b/interpreter/str_methods.c
@@ -175,6 +175,12 @@ int str_search(struct YASL_State *S) {
 int str_count(struct YASL_State *S) {
 	struct YASL_String *needle = YASLX_checknstr(S, "str.count", 1);
 	struct YASL_String *haystack = YASLX_checknstr(S, "str.count", 0);
+
+	if (YASL_String_len(needle) == 0) {
+		vm_print_err((struct VM *)S, "ValueError: %s expected a nonempty str as arg 1.", "str.count");
+		YASL_throw_err(S, YASL_VALUE_ERROR);
+	}
+
 	YASL_pushint(S, YASL_String_count(haystack, needle));
 	return 1;
 }
@@ -226,6 +232,11 @@ int str_ltrim(struct YASL_State *S) {
 	struct YASL_String *needle = YASLX_checknstr(S, "str.ltrim", 1);
 	struct YASL_String *haystack = YASLX_checknstr(S, "str.ltrim", 0);
 
+	if (YASL_String_len(needle) == 0) {
+		vm_print_err((struct VM *)S, "ValueError: %s expected a nonempty str as arg 1.", "str.ltrim");
+		YASL_throw_err(S, YASL_VALUE_ERROR);
+	}
+
 	vm_push((struct VM *) S,
 		YASL_STR(YASL_String_ltrim(haystack, needle)));
 	return 1;
@@ -246,6 +257,11 @@ int str_rtrim(struct YASL_State *S) {
 	struct YASL_String *needle = YASLX_checknstr(S, "str.rtrim", 1);
 	struct YASL_String *haystack = YASLX_checknstr(S, "str.rtrim", 0);
 
+	if (YASL_String_len(needle) == 0) {
+		vm_print_err((struct VM *)S, "ValueError: %s expected a nonempty str as arg 1.", "str.rtrim");
+		YASL_throw_err(S, YASL_VALUE_ERROR);
+	}
+
 	vm_push((struct VM *) S, YASL_STR(YASL_String_rtrim(haystack, needle)));
 	return 1;
 }
@@ -264,6 +280,11 @@ int str_trim(struct YASL_State *S) {
 	struct YASL_String *needle = YASLX_checknstr(S, "str.trim", 1);
 	struct YASL_String *haystack = YASLX_checknstr(S, "str.trim", 0);
 
+	if (YASL_String_len(needle) == 0) {
+		vm_print_err((struct VM *)S, "ValueError: %s expected a nonempty str as arg 1.", "str.trim");
+		YASL_throw_err(S, YASL_VALUE_ERROR);
+	}
+
 	vm_push((struct VM *) S, YASL_STR(YASL_String_trim(haystack, needle)));
 	return 1;
 }
-- 
2.43.0


From a70d9ca74e5e434870971fe326e0e0ba4d2918c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:28 +0000
Subject: [PATCH 27/76] fix: str.replace counts replacements against its limit

---
 data-structures/YASL_String.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data-structures/YASL_String.c b/data-structures/YASL_String.c
index e2410be..9aa5d9d 100644
--- a/data-structures/YASL_String.c
+++ b/data-structures/YASL_String.c
@@ -387,10 +387,10 @@ struct YASL_String *YASL_String_replace_fast(struct YASL_String *str, struct YAS
 		if (search_len <= str_len - i && memcmp(str_ptr + i, search_str_ptr, search_len) == 0 && max > 0) {
 			YASL_ByteBuffer_extend(buff, replace_str_ptr, YASL_String_len(replace_str));
 			i += search_len;
+			max--;
 		} else {
 			YASL_ByteBuffer_add_byte(buff, str_ptr[i++]);
 		}
-		max--;
 	}
 
 	STR_REPLACE_END
-- 
2.43.0


From 4da1d95b4a1b6018270379219d25960e6a17b4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:28 +0000
Subject: [PATCH 28/76] fix: str.tofloat of the empty str does not read its
 characters

---
 data-structures/YASL_String.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data-structures/YASL_String.c b/data-structures/YASL_String.c
index 9aa5d9d..17c7457 100644
--- a/data-structures/YASL_String.c
+++ b/data-structures/YASL_String.c
@@ -186,7 +186,7 @@ yasl_float YASL_String_tofloat(struct YASL_String *str) {
 	const size_t length = YASL_String_len(str);
 	const char *chars = YASL_String_chars(str);
 	char *buffer = (char *)malloc(length + 1);
-	if (!isdigit((int)chars[0])) {
+	if (length == 0 || !isdigit((int)chars[0])) {
 		free(buffer);
 		return NAN;
 	}
-- 
2.43.0


From 681298d26dfdedde4e09232775458cdd50bdc789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:41 +0000
Subject: [PATCH 29/76] fix: copies of tables have the metatable of tables

---
 interpreter/table_methods.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/interpreter/table_methods.c b/interpreter/table_methods.c
index 1273dbf..c3d74f4 100644
--- a/interpreter/table_methods.c
+++ b/interpreter/table_methods.c
@@ -230,6 +230,7 @@ int table_remove(struct YASL_State *S) {
 int table_copy(struct YASL_State *S) {
 	struct YASL_Table *ht = YASLX_checkntable(S, "table.copy", 0);
 	struct RC_UserData *new_ht = rcht_new_sized(ht->base_size);
+	ud_setmt(new_ht, S->vm.builtins_htable[Y_TABLE]);
 
 	FOR_TABLE(i, item, ht) {
 		YASL_Table_insert_fast((struct YASL_Table *) new_ht->data, item->key, item->value);
-- 
2.43.0


From a078fad36625f1b95e0b470ebd39251a5d1dd9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:09 +0000
Subject: [PATCH 30/76] fix: check the stack bound for variables bound by
 patterns

---
 interpreter/VM.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index 15622b4..dc5dc71 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -1098,6 +1098,10 @@ static bool vm_MATCH_subpattern(struct VM *const vm, struct YASL_Object *expr) {
 		   still on top of the stack. This is taken care of _after_ a successful match by a O_DEL_FP instruction.
 		  */
 		unsigned char offset = NCODE(vm);
+		if (vm->fp + offset + 2 >= STACK_SIZE) {
+			vm_print_err(vm, "StackOverflow.");
+			vm_throw_err(vm, YASL_STACK_OVERFLOW_ERROR);
+		}
 		dec_ref(&vm_peek(vm, vm->fp + offset + 2));
 		vm_peek(vm, vm->fp + offset + 2) = *expr;
 		inc_ref(&vm_peek(vm, vm->fp + offset + 2));
@@ -1666,7 +1670,12 @@ void vm_executenext(struct VM *const vm) {
 		vm->sp -= NCODE(vm);
 		break;
 	case O_INCSP:
-		vm->sp += NCODE(vm);
+		offset = NCODE(vm);
+		if (vm->sp + offset >= STACK_SIZE) {
+			vm_print_err(vm, "StackOverflow.");
+			vm_throw_err(vm, YASL_STACK_OVERFLOW_ERROR);
+		}
+		vm->sp += offset;
 		break;
 	case O_ECHO:
 		vm_ECHO(vm);
-- 
2.43.0


From d093427ecbb96abab2290c0c0d60ec3e8bb3d6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:05 +0000
Subject: [PATCH 31/76] fix: address more than 128 locals in a frame

---
 compiler/compiler.c |  4 +++-
 interpreter/VM.c    | 10 ++++++----
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/compiler/compiler.c b/compiler/compiler.c
index 2187f35..3ed35ae 100644
--- a/compiler/compiler.c
+++ b/compiler/compiler.c
@@ -443,11 +443,13 @@ static void visit_FnDecl(struct Compiler *const compiler, const struct Node *con
 		// TODO what's below is wrong. We need to get the right value for the upvals.
 		for (size_t i = 0; i < count; i++) {
 			compiler_add_byte(compiler, 0);
+			compiler_add_byte(compiler, 0);
 		}
 		FOR_TABLE(i, item, &compiler->params->upval_indices) {
 			int64_t index = item->value.value.ival;
 			int64_t value = YASL_Table_search(&compiler->params->upval_values, item->key).value.ival;
-			compiler->buffer->bytes[start + index] = value;
+			compiler->buffer->bytes[start + 2 * index] = value & 0xFF;
+			compiler->buffer->bytes[start + 2 * index + 1] = (value >> 8) & 0xFF;
 		}
 	}
 
diff --git a/interpreter/VM.c b/interpreter/VM.c
index dc5dc71..9bcd08f 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -619,11 +619,13 @@ static void vm_CCONST(struct VM *const vm) {
 	closure->rc = NEW_RC();
 
 	for (size_t i = 0; i < num_upvalues; i++) {
-		unsigned char u = NCODE(vm);
-		if ((signed char)u >= 0) {
+		int u = NCODE(vm);
+		u |= NCODE(vm) << 8;
+		u = (int16_t)u;
+		if (u >= 0) {
 			closure->upvalues[i] = add_upvalue(vm, &vm_peek(vm, vm->fp + 1 + u));
 		} else {
-			closure->upvalues[i] = vm->stack[vm->fp].value.lval->upvalues[~(signed char)u];
+			closure->upvalues[i] = vm->stack[vm->fp].value.lval->upvalues[~u];
 		}
 		closure->upvalues[i]->rc.refs++;
 	}
@@ -1386,7 +1388,7 @@ void vm_setupconstants(struct VM *const vm) {
 
 void vm_executenext(struct VM *const vm) {
 	unsigned char opcode = NCODE(vm);        // fetch
-	signed char offset;
+	unsigned char offset;
 	struct YASL_Object a, b;
 	yasl_int c;
 	YASL_VM_DEBUG_LOG("----------------"
-- 
2.43.0


From 1cb4fdf64e57ce43f56b04514906bf71fa9335bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:51 +0000
Subject: [PATCH 32/76] fix: dividing the smallest int by -1 wraps instead of
 trapping

---
 interpreter/VM.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index 9bcd08f..a1058bd 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -372,8 +372,10 @@ INT_BINOP(band, &)
 INT_BINOP(bandnot, &~)
 INT_BINOP(shift_left, <<)
 INT_BINOP(shift_right, >>)
-INT_BINOP(modulo, %)
-INT_BINOP(idiv, /)
+
+// The quotient of the smallest int and -1 is not representable, so it wraps like the other operators.
+yasl_int modulo(yasl_int left, yasl_int right) { return right == -1 ? 0 : left % right; }
+yasl_int idiv(yasl_int left, yasl_int right) { return right == -1 ? (yasl_int)(0 - (uint64_t)left) : left / right; }
 
 typedef yasl_int int_binop(yasl_int, yasl_int);
 typedef yasl_float float_binop(yasl_float, yasl_float);
-- 
2.43.0


From d70bb210ba188a5848bc574092dd631c790a2910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:51 +0000
Subject: [PATCH 33/76] fix: fold constants to what evaluating them at run time
 results in

---
 compiler/middleend.c | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/compiler/middleend.c b/compiler/middleend.c
index c4073b3..ff11090 100644
--- a/compiler/middleend.c
+++ b/compiler/middleend.c
@@ -154,12 +154,12 @@ static void fold_BinOp(struct Node *const node) {
 			make_float(node, (yasl_float)left->value.ival / (yasl_float)right->value.ival);
 			break;
 		case T_DSLASH:
-			if (right->value.ival != 0) {
+			if (right->value.ival != 0 && right->value.ival != -1) {
 				FOLD_BINOP_INT_INT(left, right, /, int);
 			}
 			break;
 		case T_MOD:
-			if (right->value.ival != 0) {
+			if (right->value.ival != 0 && right->value.ival != -1) {
 				FOLD_BINOP_INT_INT(left, right, %, int);
 			}
 			break;
@@ -171,11 +171,9 @@ static void fold_BinOp(struct Node *const node) {
 	} else if (left->nodetype == N_FLOAT && right->nodetype == N_FLOAT) {
 		switch (node->value.type) {
 		case T_DEQ:
-		case T_TEQ:
 			FOLD_BINOP_FLOAT_FLOAT(left, right, ==, bool);
 			break;
 		case T_BANGEQ:
-		case T_BANGDEQ:
 			FOLD_BINOP_FLOAT_FLOAT(left, right, !=, bool);
 			break;
 		case T_GT:
@@ -213,11 +211,9 @@ static void fold_BinOp(struct Node *const node) {
 	} else if (left->nodetype == N_FLOAT && right->nodetype == N_INT) {
 		switch (node->value.type) {
 		case T_DEQ:
-		case T_TEQ:
 			FOLD_BINOP_FLOAT_INT(left, right, ==, bool);
 			break;
 		case T_BANGEQ:
-		case T_BANGDEQ:
 			FOLD_BINOP_FLOAT_INT(left, right, !=, bool);
 			break;
 		case T_GT:
@@ -255,11 +251,9 @@ static void fold_BinOp(struct Node *const node) {
 	} else if (left->nodetype == N_INT && right->nodetype == N_FLOAT) {
 		switch (node->value.type) {
 		case T_DEQ:
-		case T_TEQ:
 			FOLD_BINOP_INT_FLOAT(left, right, ==, bool);
 			break;
 		case T_BANGEQ:
-		case T_BANGDEQ:
 			FOLD_BINOP_INT_FLOAT(left, right, !=, bool);
 			break;
 		case T_GT:
@@ -337,7 +331,7 @@ void fold_UnOp(struct Node *const node) {
 			make_float(node, -expr->value.dval);
 			break;
 		case T_BANG:
-			make_bool(node, 0);  // NOTE: safe because we don't have NaN literals
+			make_bool(node, expr->value.dval != expr->value.dval);  // NaN is falsey, and folding can produce it
 			break;
 		default:
 			break;
-- 
2.43.0


From b60f9665ce17386faff889e50ecbd5483b10ec58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:53 +0000
Subject: [PATCH 34/76] fix: match the number of values to the number of
 targets in multiple assignment

---
 compiler/parser.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/compiler/parser.c b/compiler/parser.c
index f9427a1..dacb7d2 100644
--- a/compiler/parser.c
+++ b/compiler/parser.c
@@ -196,7 +196,7 @@ struct Node *parse_assign_or_exprstmt(struct Parser *const parser) {
 		struct Node *set = new_Set(parser, Get_get_collection(expr), Get_get_value(expr), NULL, line);
 		body_append(parser, &buffer, set);
 
-		return parse_decl_helper(parser, buffer, 0);
+		return parse_decl_helper(parser, buffer, 1);
 
 	}
 
@@ -433,7 +433,7 @@ static struct Node *parse_var_pack(struct Parser *const parser, int expected) {
 	int j = 0;
 	do {
 		body_append(parser, &rvals, parse_expr(parser));
-	} while (j++ < expected && matcheattok(parser, T_COMMA));
+	} while (++j < expected && matcheattok(parser, T_COMMA));
 
 	struct Node *last = body_last(rvals);
 	if (last && !will_var_expand(last)) {
-- 
2.43.0


From a40cdd833094daf54a40cb71ae2acb008cd2a578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:40 +0000
Subject: [PATCH 35/76] fix: str.split keeps the end of the str after the last
 separator

---
 data-structures/YASL_String.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data-structures/YASL_String.c b/data-structures/YASL_String.c
index 17c7457..1568e54 100644
--- a/data-structures/YASL_String.c
+++ b/data-structures/YASL_String.c
@@ -449,7 +449,7 @@ void YASL_String_split_fast(struct YASL_List *data, struct YASL_String *haystack
 		}
 	}
 	struct YASL_Object to = YASL_STR(
-		YASL_String_new_substring(start + haystack->start, end + haystack->start, haystack));
+		YASL_String_new_substring(start + haystack->start, haystack->end, haystack));
 	YASL_List_append(data, to);
 }
 
-- 
2.43.0


From afa25ed8c51c997206574212467bd63d7d85060d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:19 +0000
Subject: [PATCH 36/76] fix: comprehensions used as operands had the slot of
 their variable wrong

---
 compiler/compiler.c | 55 ++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 49 insertions(+), 6 deletions(-)

diff --git a/compiler/compiler.c b/compiler/compiler.c
index 3ed35ae..62d9524 100644
--- a/compiler/compiler.c
+++ b/compiler/compiler.c
@@ -12,6 +12,7 @@
 #include "yasl_error.h"
 #include "yasl_include.h"
 
+static void visit_stmt_value(struct Compiler *const compiler, const struct Node *const node);
 static void validate(struct Compiler *compiler, const struct Node *const node);
 
 YASL_FORMAT_CHECK static void compiler_print_err(struct Compiler *compiler, const char *const fmt, ...) {
@@ -390,7 +391,7 @@ static void visit_ExprStmt(struct Compiler *const compiler, const struct Node *c
 		validate(compiler, expr);
 		return;
 	default:
-		visit(compiler, expr);
+		visit_stmt_value(compiler, expr);
 		if (expr->nodetype == N_ASSIGN || expr->nodetype == N_SET) {
 			return;
 		} else {
@@ -505,7 +506,7 @@ static void visit_Return(struct Compiler *const compiler, const struct Node *con
 		handle_error(compiler);
 		return;
 	}
-	visit(compiler, Return_get_expr(node));
+	visit_stmt_value(compiler, Return_get_expr(node));
 	compiler_add_byte(compiler, compiler->params->usedinclosure ? O_CRET : O_RET);
 	compiler_add_byte(compiler, (unsigned char)scope_len(get_scope_in_use(compiler)));
 }
@@ -619,12 +620,54 @@ static void visit_Comp(struct Compiler *const compiler, const struct Node *const
 	compiler->buffer->count = curr;
 }
 
+static char *copy_name(const char *const name) {
+	return strcpy((char *)malloc(strlen(name) + 1), name);
+}
+
+// The slot of the variable of a comprehension is only right if there are no temporaries below it on the stack. When used
+// as an operand, the comprehension is evaluated by a function, so that it has a stack frame of its own.
+static void visit_Comp_operand(struct Compiler *const compiler, const struct Node *const node) {
+	struct Parser *const parser = &compiler->parser;
+	const struct Node *const iter = Comp_get_iter(node);
+	const char *const param = ".collection";
+	const size_t line = node->line;
+
+	struct Node *const var = new_Var(parser, copy_name(param), line);
+	struct Node *const new_iter = new_LetIter(parser, var, copy_name(iter->value.sval.str), iter->line);
+	struct Node *const comp = node->nodetype == N_LISTCOMP ?
+		new_ListComp(parser, Comp_get_expr(node), new_iter, Comp_get_cond(node), line) :
+		new_TableComp(parser, Comp_get_expr(node), new_iter, Comp_get_cond(node), line);
+
+	struct Node *params = new_Body(parser, line);
+	body_append(parser, &params, new_Let(parser, NULL, copy_name(param), line));
+	struct Node *body = new_Body(parser, line);
+	body_append(parser, &body, new_Return(parser, comp, line));
+	struct Node *args = new_Body(parser, line);
+	body_append(parser, &args, LetIter_get_collection(iter));
+	visit(compiler, new_Call(parser, args, new_FnDecl(parser, params, body, NULL, 0, line), line));
+}
+
 static void visit_ListComp(struct Compiler *const compiler, const struct Node *const node) {
-	visit_Comp(compiler, node, O_NEWLIST);
+	visit_Comp_operand(compiler, node);
 }
 
 static void visit_TableComp(struct Compiler *const compiler, const struct Node *const node) {
-	visit_Comp(compiler, node, O_NEWTABLE);
+	visit_Comp_operand(compiler, node);
+}
+
+// Visits the value of a statement, which is not an operand of anything.
+static void visit_stmt_value(struct Compiler *const compiler, const struct Node *const node) {
+	switch (node->nodetype) {
+	case N_LISTCOMP:
+		visit_Comp(compiler, node, O_NEWLIST);
+		break;
+	case N_TABLECOMP:
+		visit_Comp(compiler, node, O_NEWTABLE);
+		break;
+	default:
+		visit(compiler, node);
+		break;
+	}
 }
 
 static void visit_ForIter(struct Compiler *const compiler, const struct Node *const node) {
@@ -1141,7 +1184,7 @@ static void visit_If(struct Compiler *const compiler, const struct Node *const n
 }
 
 static void visit_Echo(struct Compiler *const compiler, const struct Node *const node) {
-	visit(compiler, Echo_get_expr(node));
+	visit_stmt_value(compiler, Echo_get_expr(node));
 	compiler_add_byte(compiler, O_ECHO);
 	compiler_add_byte(compiler, (char)scope_len(get_scope_in_use(compiler)));
 }
@@ -1161,7 +1204,7 @@ static void declare_with_let_or_const(struct Compiler *const compiler, const str
 		decl_var(compiler, name, node->line);
 		visit(compiler, expr);
 	} else {
-		if (expr) visit(compiler, expr);
+		if (expr) visit_stmt_value(compiler, expr);
 		else compiler_add_byte(compiler, O_NCONST);
 
 		decl_var(compiler, name, node->line);
-- 
2.43.0


From ad06e72082f7bb0fb7248b7d01d6a46b06692e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:59 +0000
Subject: [PATCH 37/76] fix: a match ending with an arm that has bindings and a
 guard popped too many values

---
 compiler/compiler.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/compiler/compiler.c b/compiler/compiler.c
index 62d9524..71c433a 100644
--- a/compiler/compiler.c
+++ b/compiler/compiler.c
@@ -1093,7 +1093,9 @@ static void visit_Match_helper(struct Compiler *const compiler, const struct Nod
 
 	curr++;
 	size_t body_end = 0;
-	if (patterns->children_len > curr) {
+	// a failed guard has code of its own, to remove the bindings.
+	const bool skip = patterns->children_len > curr || (guard && bindings);
+	if (skip) {
 		enter_jump(compiler, &body_end);
 	}
 
@@ -1117,10 +1119,10 @@ static void visit_Match_helper(struct Compiler *const compiler, const struct Nod
 
 	if (patterns->children_len > curr) {
 		visit_Match_helper(compiler, patterns, guards, bodies, curr);
-		exit_jump(compiler, &body_end);
 	} else {
 		compiler->unmatched = true;
 	}
+	if (skip) exit_jump(compiler, &body_end);
 }
 
 static void visit_Match(struct Compiler *const compiler, const struct Node *const node) {
-- 
2.43.0


From 009ac37142f64c2082d6b7ccac213c4c11dc208b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:12 +0000
Subject: [PATCH 38/76] fix: pushing the value that was popped last could free
 it

---
 interpreter/VM.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index a1058bd..dcee548 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -213,9 +213,11 @@ void vm_push(struct VM *const vm, const struct YASL_Object val) {
 
 	vm->sp++;
 
-	dec_ref(vm->stack + vm->sp);
+	// the value might have just been popped, with the last reference to it in this slot.
+	struct YASL_Object old = vm->stack[vm->sp];
 	vm->stack[vm->sp] = val;
 	inc_ref(vm->stack + vm->sp);
+	dec_ref(&old);
 }
 
 void vm_pushend(struct VM *const vm) {
-- 
2.43.0


From 2848dcdc3083fdd8abd5c52efead81bda9c76229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:02 +0000
Subject: [PATCH 39/76] fix: compare ints as ints in math.max and math.min

---
 std/yasl-std-math.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/std/yasl-std-math.c b/std/yasl-std-math.c
index d73bc76..399eeb4 100644
--- a/std/yasl-std-math.c
+++ b/std/yasl-std-math.c
@@ -97,7 +97,7 @@ static int YASL_math_max(struct YASL_State *S) {
 	for (yasl_int i = 0; i < num_va_args; i++) {
 		if (vm_isint((struct VM *)S)) {
 			yasl_int top = vm_popint((struct VM *)S);
-			if ((top >= obj_getnum(&max))) {
+			if (obj_isint(&max) ? top >= obj_getint(&max) : top >= obj_getnum(&max)) {
 				max = YASL_INT(top);
 			}
 		} else if (vm_isfloat((struct VM *)S)) {
@@ -129,7 +129,7 @@ static int YASL_math_min(struct YASL_State *S) {
 	for (yasl_int i = 0; i < num_va_args; i++) {
 		if (vm_isint((struct VM *)S)) {
 			yasl_int top = vm_popint((struct VM *)S);
-			if ((top <= obj_getnum(&max))) {
+			if (obj_isint(&max) ? top <= obj_getint(&max) : top <= obj_getnum(&max)) {
 				max = YASL_INT(top);
 			}
 		} else if (vm_isfloat((struct VM *)S)) {
-- 
2.43.0


From 932e200ed2dcab4040a97901986253aecac40a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:02 +0000
Subject: [PATCH 40/76] fix: do not overflow in math.lcm when the result is in
 range

---
 std/yasl-std-math.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/std/yasl-std-math.c b/std/yasl-std-math.c
index 399eeb4..6adc91a 100644
--- a/std/yasl-std-math.c
+++ b/std/yasl-std-math.c
@@ -260,7 +260,7 @@ static int YASL_math_lcm(struct YASL_State *S) {
 		YASL_pushundef(S);
 	} else {
 		yasl_int gcd = gcd_helper(a, b);
-		YASL_pushint(S, b*a/gcd);
+		YASL_pushint(S, b / gcd * a);
 	}
 	return 1;
 }
-- 
2.43.0


From b315d909f47717eca61012b90fb7e1cc6b74dfd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:04 +0000
Subject: [PATCH 41/76] fix: negative numbers are not prime

---
 std/yasl-std-math.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/std/yasl-std-math.c b/std/yasl-std-math.c
index 6adc91a..cac1122 100644
--- a/std/yasl-std-math.c
+++ b/std/yasl-std-math.c
@@ -178,7 +178,7 @@ static int YASL_math_isprime(struct YASL_State *S) {
 		n = (yasl_int)YASL_popfloat(S);
 	}
 
-	int p = is_prime(n);
+	int p = n > 0 && is_prime(n);
 	if (p < 0) YASL_pushundef(S);
 	else YASL_pushbool(S, (bool)p);
 	return 1;
-- 
2.43.0


From 32d129c9077d184e309c1681dcee18f3233cd449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:37 +0000
Subject: [PATCH 42/76] fix: accept break and continue in loops whose condition
 is the constant false

---
 compiler/compiler.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/compiler/compiler.c b/compiler/compiler.c
index 71c433a..7269f97 100644
--- a/compiler/compiler.c
+++ b/compiler/compiler.c
@@ -745,7 +745,16 @@ static bool Node_isfalsey(const struct Node *const node) {
 }
 
 static void visit_While_false(struct Compiler *const compiler, const struct Node *const body, const struct Node *const post) {
+	add_checkpoint(compiler, scope_len(get_scope_in_use(compiler)));
+	add_checkpoint(compiler, compiler->buffer->count);
+	add_checkpoint(compiler, compiler->buffer->count);
+
 	validate(compiler, body);
+
+	rm_checkpoint(compiler);
+	rm_checkpoint(compiler);
+	rm_checkpoint(compiler);
+
 	if (post) validate(compiler, post);
 }
 
-- 
2.43.0


From 02599d96b2a514bfb4865fff74c19ff7172e393c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:42 +0000
Subject: [PATCH 43/76] fix: compare ints as ints when sorting lists

---
 interpreter/YASL_Object.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/interpreter/YASL_Object.c b/interpreter/YASL_Object.c
index d735ab8..372b84c 100644
--- a/interpreter/YASL_Object.c
+++ b/interpreter/YASL_Object.c
@@ -59,6 +59,11 @@ int yasl_object_cmp(struct YASL_Object a, struct YASL_Object b) {
 	if (obj_isstr(&a) && obj_isstr(&b)) {
 		return YASL_String_cmp(obj_getstr(&a), obj_getstr(&b));
 	} else if (obj_isnum(&a) && obj_isnum(&b)) {
+		if (obj_isint(&a) && obj_isint(&b)) {
+			// Not every int can be represented as a float.
+			return (obj_getint(&a) > obj_getint(&b)) - (obj_getint(&a) < obj_getint(&b));
+		}
+
 		yasl_float aVal, bVal;
 		if(obj_isint(&a)) {
 			aVal = (yasl_float)obj_getint(&a);
-- 
2.43.0


From 0f639f17f21abed9fd43f8bf47dd164405f3f069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:09 +0000
Subject: [PATCH 44/76] fix: let closures be the __get of what a method is
 called on

---
 interpreter/VM.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index dcee548..c5edcf6 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -787,7 +787,11 @@ static int lookup(struct VM *vm, struct YASL_Object obj, struct YASL_Table *mt,
 	search = YASL_Table_search_string_int(mt, "__get", strlen("__get"));
 	if (search.type != Y_END) {
 		vm_push(vm, search);
-		vm_call_now_2(vm, obj, index);
+		vm_INIT_CALL(vm, 1);
+		vm_push(vm, obj);
+		vm_push(vm, index);
+		// The method has to be on the stack before the call of it is set up.
+		vm_CALL_now(vm);
 		return YASL_SUCCESS;
 	}
 	return YASL_VALUE_ERROR;
-- 
2.43.0


From 996ace5d671fbbb498862e844d5cb4e14f5a55bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:40 +0000
Subject: [PATCH 45/76] fix: do not look up the name of an unknown token in
 patterns and declarations

---
 compiler/parser.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/compiler/parser.c b/compiler/parser.c
index dacb7d2..e4989ef 100644
--- a/compiler/parser.c
+++ b/compiler/parser.c
@@ -421,6 +421,7 @@ static struct Node *parse_let_const_or_var(struct Parser *const parser) {
 			struct Node *set = new_Set(parser, Get_get_collection(node), Get_get_value(node), NULL, line);
 			return set;
 		} else {
+			if (curtok(parser) == T_UNKNOWN) handle_error(parser);
 			parser_print_err_syntax(parser, "Expected `let`, `const`, or id, got %s", YASL_TOKEN_NAMES[curtok(parser)]);
 			handle_error(parser);
 		}
@@ -564,6 +565,7 @@ static struct Node *parse_primitivepattern(struct Parser *const parser) {
 			n->value.dval *= -1;
 			return n;
 		} else {
+			if (curtok(parser) == T_UNKNOWN) handle_error(parser);
 			parser_print_err_syntax(parser, "Expected numeric pattern, got pattern starting in %s (line %" PRI_SIZET ").\n", YASL_TOKEN_NAMES[curtok(parser)], line);
 			handle_error(parser);
 		}
@@ -606,6 +608,8 @@ static struct Node *parse_primitivepattern(struct Parser *const parser) {
 		free(name);
 		return n;
 	}
+	case T_UNKNOWN:
+		handle_error(parser);
 	default:
 		parser_print_err_syntax(parser, "Invalid pattern starting in %s (line %" PRI_SIZET ").\n", YASL_TOKEN_NAMES[curtok(parser)], line);
 		handle_error(parser);
-- 
2.43.0


From 15753e6ea52d6cd35532681489bb20943d0136fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:40 +0000
Subject: [PATCH 46/76] fix: reject an interpolated string in a pattern that is
 not closed instead of looping

---
 compiler/parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/parser.c b/compiler/parser.c
index e4989ef..0741cee 100644
--- a/compiler/parser.c
+++ b/compiler/parser.c
@@ -571,7 +571,7 @@ static struct Node *parse_primitivepattern(struct Parser *const parser) {
 		}
 	case T_STR:
 		if (parser->lex.mode == L_INTERP) {
-			while (parser->lex.c != '"') {
+			while (parser->lex.c != '"' && !lxeof(parser->lex.file)) {
 				lex_getchar(&parser->lex);
 			}
 			eattok(parser, T_STR);
-- 
2.43.0


From 93fbd819d893ff614a6afc35d18e849755b96af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:40 +0000
Subject: [PATCH 47/76] fix: drop the reference of the list to what list.pop
 takes off it

---
 interpreter/list_methods.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/interpreter/list_methods.c b/interpreter/list_methods.c
index 6f1e769..01a0e8c 100644
--- a/interpreter/list_methods.c
+++ b/interpreter/list_methods.c
@@ -222,7 +222,9 @@ int list_pop(struct YASL_State *S) {
 		vm_print_err((struct VM *)S, "ValueError: %s expected nonempty list as arg 0.", "list.pop");
 		YASL_throw_err(S, YASL_VALUE_ERROR);
 	}
-	vm_push((struct VM *) S, ls->items[--ls->count]);
+	struct YASL_Object popped = ls->items[--ls->count];
+	vm_push((struct VM *) S, popped);
+	dec_ref(&popped);
 	return 1;
 }
 
-- 
2.43.0


From 2bc82cb5812b6d8792dd06090c05612dbad113a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:22 +0000
Subject: [PATCH 48/76] fix: comparisons that fail must not keep references to
 their operands

---
 interpreter/VM.c | 34 +++++++++++++---------------------
 1 file changed, 13 insertions(+), 21 deletions(-)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index c5edcf6..3e5b008 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -324,13 +324,6 @@ void vm_INIT_CALL_offset(struct VM *const vm, int offset, int expected_returns);
 void vm_CALL(struct VM *const vm);
 void vm_CALL_now(struct VM *const vm);
 
-static void vm_call_now_2(struct VM *vm, struct YASL_Object a, struct YASL_Object b) {
-	vm_INIT_CALL(vm, 1);
-	vm_push(vm, a);
-	vm_push(vm, b);
-	vm_CALL(vm);
-}
-
 #define vm_lookup_method_throwing(vm, method_name, err_str, ...) \
 do {\
 	struct YASL_Object index = YASL_STR(YASL_String_new_sized(strlen(method_name), method_name));\
@@ -356,16 +349,6 @@ do {\
 	vm_CALL(vm);\
 } while (0)
 
-#define vm_call_method_now_2(vm, left, right, method_name, ...) do {\
-	inc_ref(&left);\
-	inc_ref(&right);\
-	vm_push(vm, left);\
-	vm_lookup_method_throwing(vm, method_name, __VA_ARGS__);\
-	vm_call_now_2(vm, left, right);\
-	dec_ref(&left);\
-	dec_ref(&right);\
-} while (0)
-
 #define INT_BINOP(name, op) yasl_int name(yasl_int left, yasl_int right) { return left op right; }
 
 INT_BINOP(bor, |)
@@ -547,21 +530,30 @@ static void vm_CNCT(struct VM *const vm) {
 
 #define DEFINE_COMP(name, opstr, overload_name) \
 static void vm_##name(struct VM *const vm) {\
-	struct YASL_Object right = vm_pop(vm);\
-	struct YASL_Object left = vm_pop(vm);\
+	struct YASL_Object right = vm_peek(vm);\
+	struct YASL_Object left = vm_peek(vm, vm->sp - 1);\
 	bool c;\
 	if (obj_isstr(&left) && obj_isstr(&right)) {\
-		vm_pushbool(vm, name(YASL_String_cmp(obj_getstr(&left), obj_getstr(&right)), 0));\
+		c = name(YASL_String_cmp(obj_getstr(&left), obj_getstr(&right)), 0);\
+		vm_pop(vm);\
+		vm_pop(vm);\
+		vm_pushbool(vm, c);\
 		return;\
 	}\
 	if (obj_isnum(&left) && obj_isnum(&right)) {\
+		vm_pop(vm);\
+		vm_pop(vm);\
 		COMP(vm, left, right, name);\
 		return;\
 	}\
-	vm_call_method_now_2(vm, left, right, overload_name, "%s not supported for operands of types %s and %s.",\
+	vm_push(vm, left);\
+	vm_lookup_method_throwing(vm, overload_name, "%s not supported for operands of types %s and %s.",\
 		opstr,\
 		obj_typename(&left),\
 		obj_typename(&right));\
+	vm_shifttopdown(vm, 2);\
+	vm_INIT_CALL_offset(vm, vm->sp - 2, 1);\
+	vm_CALL(vm);\
 }
 
 DEFINE_COMP(GT, ">", "__gt")
-- 
2.43.0


From c7a80d21df8ad2ca8bda95325f80dfc6b73d03f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:21 +0000
Subject: [PATCH 49/76] fix: keep copies of the names of globals and metatables

---
 yasl.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yasl.c b/yasl.c
index 2322c47..a02cc26 100644
--- a/yasl.c
+++ b/yasl.c
@@ -192,7 +192,7 @@ int YASL_setglobal(struct YASL_State *S, const char *name) {
 	int64_t index = scope_get(S->compiler.globals, name);
 	if (is_const(index)) return YASL_ERROR;
 
-	struct YASL_String *string = YASL_String_new_sized(strlen(name), name);
+	struct YASL_String *string = YASL_String_new_sized_heap(0, strlen(name), copy_char_buffer(strlen(name), name));
 	YASL_Table_insert_fast(S->vm.globals, YASL_STR(string), vm_peek((struct VM *) S));
 	YASL_pop(S);
 
@@ -211,7 +211,7 @@ int YASL_loadglobal(struct YASL_State *S, const char *name) {
 }
 
 int YASL_registermt(struct YASL_State *S, const char *name) {
-	struct YASL_String *string = YASL_String_new_sized(strlen(name), name);
+	struct YASL_String *string = YASL_String_new_sized_heap(0, strlen(name), copy_char_buffer(strlen(name), name));
 	YASL_Table_insert_fast(S->vm.metatables, YASL_STR(string), vm_peek((struct VM *) S));
 	YASL_pop(S);
 
-- 
2.43.0


From 53750b74cf6dea60c8dcadbe2648b7351c575b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:21 +0000
Subject: [PATCH 50/76] fix: YASL_setmt with undef removes the metatable

---
 yasl.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/yasl.c b/yasl.c
index a02cc26..c23168a 100644
--- a/yasl.c
+++ b/yasl.c
@@ -234,7 +234,8 @@ int YASL_setmt(struct YASL_State *S) {
 		return YASL_TYPE_ERROR;
 	}
 
-	struct RC_UserData *mt = YASL_istable(S) ? YASL_GETUSERDATA(vm_pop(&S->vm)) : NULL;
+	struct YASL_Object top = vm_pop(&S->vm);
+	struct RC_UserData *mt = obj_istable(&top) ? YASL_GETUSERDATA(top) : NULL;
 
 	if (!vm_isuserdata(&S->vm) && !vm_istable(&S->vm) && !vm_islist(&S->vm)) {
 		return YASL_TYPE_ERROR;
-- 
2.43.0


From 353cc1ce6463ae97b83aa5232e3b065b79b9416a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:38 +0000
Subject: [PATCH 51/76] fix: YASL_len runs a __len of the program to completion

---
 interpreter/VM.h | 1 +
 yasl.c           | 7 ++++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/interpreter/VM.h b/interpreter/VM.h
index 897e92b..7134bf7 100644
--- a/interpreter/VM.h
+++ b/interpreter/VM.h
@@ -136,6 +136,7 @@ void vm_EQ(struct VM *const vm);
 void vm_INIT_CALL_offset(struct VM *const vm, int offset, int expected_returns);
 void vm_CALL(struct VM *const vm);
 void vm_CALL_now(struct VM *const vm);
+void vm_executenext(struct VM *const vm);
 
 struct YASL_Object vm_pop(struct VM *const vm);
 bool vm_popbool(struct VM *const vm);
diff --git a/yasl.c b/yasl.c
index c23168a..506c35f 100644
--- a/yasl.c
+++ b/yasl.c
@@ -419,7 +419,12 @@ void list___get_helper(struct YASL_State *S, struct YASL_List *ls, yasl_int inde
 void vm_len_unop(struct VM *const vm);
 
 void YASL_len(struct YASL_State *S) {
-	vm_len_unop(&S->vm);
+	struct VM *vm = &S->vm;
+	const int fp = vm->fp;
+	vm_len_unop(vm);
+	while (fp < vm->fp) {
+		vm_executenext(vm);
+	}
 }
 
 int YASL_listget(struct YASL_State *S, yasl_int n) {
-- 
2.43.0


From d1a81cfaeaa44fdaef4c60e8bf10f0010f95a4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:06 +0000
Subject: [PATCH 52/76] fix: define the userptr and userdata functions of
 yasl.h, which give NULL for other values

---
 yasl.c | 36 +++++++++++++++++++++++++++++++++---
 1 file changed, 33 insertions(+), 3 deletions(-)

diff --git a/yasl.c b/yasl.c
index 506c35f..8315b06 100644
--- a/yasl.c
+++ b/yasl.c
@@ -522,6 +522,14 @@ bool YASL_isntable(struct YASL_State *S, unsigned n) {
 	return vm_istable(&S->vm, S->vm.fp + 1 + n);
 }
 
+bool YASL_isuserptr(struct YASL_State *S) {
+	return vm_isuserptr(&S->vm);
+}
+
+bool YASL_isnuserptr(struct YASL_State *S, unsigned n) {
+	return vm_isuserptr(&S->vm, S->vm.fp + 1 + n);
+}
+
 bool YASL_isuserdata(struct YASL_State *S, const char *tag) {
 	return vm_isuserdata(&S->vm) && YASL_GETUSERDATA(vm_peek(&S->vm))->tag == tag;
 }
@@ -610,14 +618,36 @@ char *YASL_popcstr(struct YASL_State *S) {
 	return tmp;
 }
 
+// lists and tables are userdata as well.
+static void *obj_userdata(const struct YASL_Object v) {
+	if (obj_isuserdata(&v) || obj_islist(&v) || obj_istable(&v)) {
+		return YASL_GETUSERDATA(v)->data;
+	}
+	return NULL;
+}
+
+void *YASL_peekuserdata(struct YASL_State *S) {
+	return obj_userdata(vm_peek(&S->vm));
+}
+
 void *YASL_peeknuserdata(struct YASL_State *S, unsigned n) {
-	return YASL_GETUSERDATA(vm_peek(&S->vm, S->vm.fp + 1 + n))->data;
+	return obj_userdata(vm_peek(&S->vm, S->vm.fp + 1 + n));
 }
 
 void *YASL_popuserdata(struct YASL_State *S) {
-	return YASL_GETUSERDATA(vm_pop(&S->vm))->data;
+	return obj_userdata(vm_pop(&S->vm));
+}
+
+void *YASL_peekuserptr(struct YASL_State *S) {
+	if (vm_isuserptr(&S->vm)) {
+		return vm_peekuserptr(&S->vm);
+	}
+	return NULL;
 }
 
 void *YASL_popuserptr(struct YASL_State *S) {
-	return YASL_GETUSERPTR(vm_pop(&S->vm));
+	if (vm_isuserptr(&S->vm)) {
+		return YASL_GETUSERPTR(vm_pop(&S->vm));
+	}
+	return NULL;
 }
-- 
2.43.0


From 328928cc164ea61a80e7ca7ba8a54fbb358e4581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:06 +0000
Subject: [PATCH 53/76] fix: pad the arguments in front of the variadic ones of
 C functions

---
 interpreter/VM.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index 3e5b008..67608a1 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -1271,6 +1271,9 @@ static void vm_CALL_cfn(struct VM *const vm) {
 	vm->frames[vm->frame_num].pc = vm->pc;
 	struct CFunction *f = vm_peekcfn(vm, vm->fp);
 	if (f->num_args < 0) {
+		while (vm->sp - vm->fp < ~f->num_args) {
+			vm_pushundef(vm);
+		}
 		yasl_int diff = vm->sp - vm->fp - ~f->num_args;
 		YASL_VM_DEBUG_LOG("diff: %d\n", (int)diff);
 		vm_insert(vm, vm->fp + 1 + ~f->num_args, YASL_INT(diff));
-- 
2.43.0


From 8afba23062790b0dcded17dee601df7937a1057a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:11 +0000
Subject: [PATCH 54/76] fix: release the text of a list or table if one of its
 elements cannot be turned into a string

---
 interpreter/list_methods.c  | 109 ++++++++++++++++--------------------
 interpreter/list_methods.h  |  19 +++++++
 interpreter/table_methods.c |  74 +++++++++++-------------
 3 files changed, 100 insertions(+), 102 deletions(-)

diff --git a/interpreter/list_methods.c b/interpreter/list_methods.c
index 01a0e8c..50e5e82 100644
--- a/interpreter/list_methods.c
+++ b/interpreter/list_methods.c
@@ -1,4 +1,5 @@
 #include "list_methods.h"
+#include "table_methods.h"
 
 #include "yasl.h"
 #include "yasl_aux.h"
@@ -60,62 +61,70 @@ int list___set(struct YASL_State *S) {
 	return 1;
 }
 
-int table_tostr_helper(struct YASL_State *S, void **buffer, size_t buffer_size, size_t buffer_count);
-bool buffer_contains(void **buffer, size_t buffer_count, void *val);
-void rec_call(struct YASL_State *S, void **buffer, const size_t buffer_count, const size_t buffer_size, int (*f)(struct YASL_State *, void **, size_t, size_t));
+static void buffer_del(void *bb) {
+	YASL_ByteBuffer_del((struct YASL_ByteBuffer *)bb);
+}
+
+struct YASL_ByteBuffer *push_buffer(struct YASL_State *S) {
+	struct YASL_ByteBuffer *bb = YASL_ByteBuffer_new(8);
+	YASL_pushuserdata(S, bb, NULL, &buffer_del);
+	return bb;
+}
+
+struct YASL_String *pop_buffer(struct YASL_State *S) {
+	struct YASL_ByteBuffer *bb = (struct YASL_ByteBuffer *)YASL_popuserdata(S);
+	struct YASL_String *str = YASL_String_new_sized_heap(0, bb->count, (char *)bb->bytes);
+	bb->bytes = NULL;
+	return str;
+}
 
 #define FOUND_LIST "[...], "
 #define FOUND_TABLE "{...}, "
 
-int list_tostr_helper(struct YASL_State *S, void **buffer, size_t buffer_size, size_t buffer_count) {
-	struct YASL_ByteBuffer bb = NEW_BB(8);
-
-	YASL_ByteBuffer_add_byte(&bb, '[');
+void list_tostr_helper(struct YASL_State *S, struct YASL_ByteBuffer *bb, const struct Parents *parents) {
 	struct YASL_List *list = vm_peeklist((struct VM *) S);
+
+	YASL_ByteBuffer_add_byte(bb, '[');
 	if (list->count == 0) {
+		YASL_ByteBuffer_add_byte(bb, ']');
 		vm_pop((struct VM *) S);
-		YASL_ByteBuffer_add_byte(&bb, ']');
-		vm_push((struct VM *) S, YASL_STR(YASL_String_new_sized_heap(0, bb.count, (char *)bb.bytes)));
-		return YASL_SUCCESS;
+		return;
 	}
 
 	FOR_LIST(i, obj, list) {
 		vm_push((struct VM *) S, obj);
 
 		if (vm_islist((struct VM *) S)) {
-			bool found = buffer_contains(buffer, buffer_count, vm_peeklist((struct VM *) S));
+			bool found = parents_contains(parents, vm_peeklist((struct VM *) S));
 			if (found) {
-				YASL_ByteBuffer_extend(&bb, (unsigned char *)FOUND_LIST, strlen(FOUND_LIST));
+				YASL_ByteBuffer_extend(bb, (unsigned char *)FOUND_LIST, strlen(FOUND_LIST));
 				vm_pop((struct VM *) S);
 				continue;
 			} else {
-				rec_call(S, buffer, buffer_count, buffer_size, &list_tostr_helper);
+				rec_call(S, bb, parents, &list_tostr_helper);
 			}
 		} else if (vm_istable((struct VM *) S)) {
-			bool found = buffer_contains(buffer, buffer_count, vm_peeklist((struct VM *) S));
+			bool found = parents_contains(parents, vm_peeklist((struct VM *) S));
 			if (found) {
-				YASL_ByteBuffer_extend(&bb, (unsigned char *)FOUND_TABLE, strlen(FOUND_TABLE));
+				YASL_ByteBuffer_extend(bb, (unsigned char *)FOUND_TABLE, strlen(FOUND_TABLE));
 				vm_pop((struct VM *) S);
 				continue;
 			} else {
-				rec_call(S, buffer, buffer_count, buffer_size, &table_tostr_helper);
+				rec_call(S, bb, parents, &table_tostr_helper);
 			}
 		} else {
 			vm_stringify_top((struct VM *) S);
+			struct YASL_String *str = vm_popstr((struct VM *) S);
+			YASL_ByteBuffer_extend(bb, (unsigned char *)YASL_String_chars(str), YASL_String_len(str));
 		}
 
-		struct YASL_String *str = vm_popstr((struct VM *) S);
-		YASL_ByteBuffer_extend(&bb, (unsigned char *)YASL_String_chars(str), YASL_String_len(str));
-		YASL_ByteBuffer_extend(&bb, (unsigned char *)", ", strlen(", "));
+		YASL_ByteBuffer_extend(bb, (unsigned char *)", ", strlen(", "));
 	}
-	vm_pop((struct VM *) S);
-
-	bb.count -= 2;
-	YASL_ByteBuffer_add_byte(&bb, ']');
 
-	vm_push((struct VM *) S, YASL_STR(YASL_String_new_sized_heap(0, bb.count, (char *)bb.bytes)));
+	bb->count -= 2;
+	YASL_ByteBuffer_add_byte(bb, ']');
 
-	return YASL_SUCCESS;
+	vm_pop((struct VM *) S);
 }
 
 int list_tostr(struct YASL_State *S) {
@@ -123,10 +132,13 @@ int list_tostr(struct YASL_State *S) {
 		YASLX_print_err_bad_arg_type(S, "list.tostr", 0, "list", YASL_peektypename(S));
 		YASL_throw_err(S, YASL_TYPE_ERROR);
 	}
-	void **buffer = (void **) malloc(8 * sizeof(void *));
-	buffer[0] = vm_peeklist((struct VM *) S, S->vm.sp);
-	list_tostr_helper(S, buffer, 8, 1);
-	free(buffer);
+	struct Parents parents = { vm_peeklist((struct VM *) S, S->vm.sp), NULL };
+	struct YASL_ByteBuffer *bb = push_buffer(S);
+	vm_push((struct VM *) S, vm_peek((struct VM *) S, S->vm.sp - 1));
+	list_tostr_helper(S, bb, &parents);
+	struct YASL_String *result = pop_buffer(S);
+	vm_pop((struct VM *) S);
+	vm_pushstr((struct VM *) S, result);
 	return 1;
 }
 
@@ -278,47 +290,22 @@ int list_join(struct YASL_State *S) {
 		return 1;
 	}
 
-	size_t buffer_count = 0;
-	size_t buffer_size = 8;
-	char *buffer = (char *) malloc(buffer_size);
-
-	vm_push((struct VM *)S, list->items[0]);
-	vm_stringify_top((struct VM *)S);
-	struct YASL_String *str = vm_popstr((struct VM *) S);
-
-	while (buffer_count + YASL_String_len(str) >= buffer_size) {
-		buffer_size *= 2;
-		buffer = (char *) realloc(buffer, buffer_size);
-	}
-
-	memcpy(buffer + buffer_count, YASL_String_chars(str), YASL_String_len(str));
-	buffer_count += YASL_String_len(str);
-
+	struct YASL_ByteBuffer *bb = push_buffer(S);
 
-	for (size_t i = 1; i < list->count; i++) {
-		while (buffer_count + YASL_String_len(string) >= buffer_size) {
-			buffer_size *= 2;
-			buffer = (char *) realloc(buffer, buffer_size);
+	for (size_t i = 0; i < list->count; i++) {
+		if (i > 0) {
+			YASL_ByteBuffer_extend(bb, (const unsigned char *)YASL_String_chars(string), YASL_String_len(string));
 		}
 
-		memcpy(buffer + buffer_count, YASL_String_chars(string), YASL_String_len(string));
-		buffer_count += YASL_String_len(string);
-
 		vm_push((struct VM *) S, list->items[i]);
 		vm_stringify_top((struct VM *)S);
 		struct YASL_String *str = vm_popstr((struct VM *) S);
-
-		while (buffer_count + YASL_String_len(str) >= buffer_size) {
-			buffer_size *= 2;
-			buffer = (char *) realloc(buffer, buffer_size);
-		}
-
-		memcpy(buffer + buffer_count, YASL_String_chars(str), YASL_String_len(str));
-		buffer_count += YASL_String_len(str);
+		YASL_ByteBuffer_extend(bb, (const unsigned char *)YASL_String_chars(str), YASL_String_len(str));
 	}
+	struct YASL_String *result = pop_buffer(S);
 	vm_pop((struct VM *) S);
 	vm_pop((struct VM *) S);
-	vm_pushstr((struct VM *) S, YASL_String_new_sized_heap(0, buffer_count, buffer));
+	vm_pushstr((struct VM *) S, result);
 	return 1;
 }
 
diff --git a/interpreter/list_methods.h b/interpreter/list_methods.h
index cbcf80b..7854c9c 100644
--- a/interpreter/list_methods.h
+++ b/interpreter/list_methods.h
@@ -1,7 +1,26 @@
 #ifndef YASL_LIST_METHODS_H_
 #define YASL_LIST_METHODS_H_
 
+#include <stdbool.h>
+
+struct YASL_ByteBuffer;
 struct YASL_State;
+struct YASL_String;
+
+// The lists and tables that the one being turned into a string is part of.
+struct Parents {
+	const void *val;
+	const struct Parents *next;
+};
+
+bool parents_contains(const struct Parents *parents, const void *val);
+void rec_call(struct YASL_State *S, struct YASL_ByteBuffer *bb, const struct Parents *parents, void (*f)(struct YASL_State *, struct YASL_ByteBuffer *, const struct Parents *));
+void list_tostr_helper(struct YASL_State *S, struct YASL_ByteBuffer *bb, const struct Parents *parents);
+void table_tostr_helper(struct YASL_State *S, struct YASL_ByteBuffer *bb, const struct Parents *parents);
+
+// Pushes a buffer: what is on the stack is also released if there is an error.
+struct YASL_ByteBuffer *push_buffer(struct YASL_State *S);
+struct YASL_String *pop_buffer(struct YASL_State *S);
 
 int list___len(struct YASL_State *S);
 
diff --git a/interpreter/table_methods.c b/interpreter/table_methods.c
index c3d74f4..8cc0044 100644
--- a/interpreter/table_methods.c
+++ b/interpreter/table_methods.c
@@ -1,4 +1,5 @@
 #include "table_methods.h"
+#include "list_methods.h"
 
 #include "yasl.h"
 #include "yasl_aux.h"
@@ -95,40 +96,31 @@ int table___eq(struct YASL_State *S) {
 	return 1;
 }
 
-int list_tostr_helper(struct YASL_State *S, void **buffer, size_t buffer_size, size_t buffer_count);
-
 #define FOUND_LIST "[...], "
 #define FOUND_TABLE "{...}, "
 
-bool buffer_contains(void **buffer, size_t buffer_count, void *val) {
-	for (size_t j = 0; j < buffer_count; j++) {
-		if (buffer[j] == val) {
+bool parents_contains(const struct Parents *parents, const void *val) {
+	for (; parents; parents = parents->next) {
+		if (parents->val == val) {
 			return true;
 		}
 	}
 	return false;
 }
 
-void rec_call(struct YASL_State *S, void **buffer, const size_t buffer_count, const size_t buffer_size, int (*f)(struct YASL_State *, void **, size_t, size_t)) {
-	size_t tmp_buffer_size =
-		buffer_count == buffer_size ? buffer_size * 2 : buffer_size;
-	void **tmp_buffer = (void **) malloc(tmp_buffer_size * sizeof(void *));
-	memcpy(tmp_buffer, buffer, sizeof(void *) * buffer_count);
-	tmp_buffer[buffer_count] = vm_peeklist((struct VM *) S);
-	f(S, tmp_buffer, tmp_buffer_size, buffer_count + 1);
-	free(tmp_buffer);
+void rec_call(struct YASL_State *S, struct YASL_ByteBuffer *bb, const struct Parents *parents, void (*f)(struct YASL_State *, struct YASL_ByteBuffer *, const struct Parents *)) {
+	struct Parents tmp = { vm_peeklist((struct VM *) S), parents };
+	f(S, bb, &tmp);
 }
 
-int table_tostr_helper(struct YASL_State *S, void **buffer, size_t buffer_size, size_t buffer_count) {
-	struct YASL_ByteBuffer bb = NEW_BB(8);
-
-	YASL_ByteBuffer_add_byte(&bb, '{');
+void table_tostr_helper(struct YASL_State *S, struct YASL_ByteBuffer *bb, const struct Parents *parents) {
 	struct YASL_Table *table = vm_peektable((struct VM *) S);
+
+	YASL_ByteBuffer_add_byte(bb, '{');
 	if (table->count == 0) {
+		YASL_ByteBuffer_add_byte(bb, '}');
 		vm_pop((struct VM *) S);
-		YASL_ByteBuffer_add_byte(&bb, '}');
-		vm_push((struct VM *) S, YASL_STR(YASL_String_new_sized_heap(0, bb.count, (char *)bb.bytes)));
-		return YASL_SUCCESS;
+		return;
 	}
 
 	FOR_TABLE(i, item, table) {
@@ -137,46 +129,43 @@ int table_tostr_helper(struct YASL_State *S, void **buffer, size_t buffer_size,
 		vm_stringify_top(&S->vm);
 
 		struct YASL_String *str = vm_popstr((struct VM *) S);
-		YASL_ByteBuffer_extend(&bb, (unsigned char *)YASL_String_chars(str), YASL_String_len(str));
-		YASL_ByteBuffer_extend(&bb, (unsigned char *)": ", strlen(": "));
+		YASL_ByteBuffer_extend(bb, (unsigned char *)YASL_String_chars(str), YASL_String_len(str));
+		YASL_ByteBuffer_extend(bb, (unsigned char *)": ", strlen(": "));
 
 		vm_push((struct VM *) S, item->value);
 
 		if (vm_islist((struct VM *) S)) {
-			bool found = buffer_contains(buffer, buffer_count, vm_peeklist((struct VM *) S));
+			bool found = parents_contains(parents, vm_peeklist((struct VM *) S));
 			if (found) {
-				YASL_ByteBuffer_extend(&bb, (unsigned char *)FOUND_LIST, strlen(FOUND_LIST));
+				YASL_ByteBuffer_extend(bb, (unsigned char *)FOUND_LIST, strlen(FOUND_LIST));
 				vm_pop((struct VM *) S);
 				continue;
 			} else {
-				rec_call(S, buffer, buffer_count, buffer_size, &list_tostr_helper);
+				rec_call(S, bb, parents, &list_tostr_helper);
 			}
 		} else if (vm_istable((struct VM *) S, S->vm.sp)) {
-			bool found = buffer_contains(buffer, buffer_count, vm_peeklist((struct VM *) S));
+			bool found = parents_contains(parents, vm_peeklist((struct VM *) S));
 			if (found) {
-				YASL_ByteBuffer_extend(&bb, (unsigned char *)FOUND_TABLE, strlen(FOUND_TABLE));
+				YASL_ByteBuffer_extend(bb, (unsigned char *)FOUND_TABLE, strlen(FOUND_TABLE));
 				vm_pop((struct VM *) S);
 				continue;
 			} else {
-				rec_call(S, buffer, buffer_count, buffer_size, &table_tostr_helper);
+				rec_call(S, bb, parents, &table_tostr_helper);
 			}
 		} else {
 			vm_stringify_top((struct VM *) S);
+			struct YASL_String *str = vm_popstr((struct VM *) S);
+			YASL_ByteBuffer_extend(bb, (unsigned char *)YASL_String_chars(str), YASL_String_len(str));
 		}
 
-		str = vm_popstr((struct VM *) S);
-		YASL_ByteBuffer_extend(&bb, (unsigned char *)YASL_String_chars(str), YASL_String_len(str));
-		YASL_ByteBuffer_extend(&bb, (unsigned char *)", ", strlen(", "));
+		YASL_ByteBuffer_extend(bb, (unsigned char *)", ", strlen(", "));
 	}
 
-	vm_pop((struct VM *) S);
 
-	bb.count -= 2;
-	YASL_ByteBuffer_add_byte(&bb, '}');
+	bb->count -= 2;
+	YASL_ByteBuffer_add_byte(bb, '}');
 
-	vm_push((struct VM *) S, YASL_STR(YASL_String_new_sized_heap(0, bb.count, (char *)bb.bytes)));
-
-	return YASL_SUCCESS;
+	vm_pop((struct VM *) S);
 }
 
 int table_tostr(struct YASL_State *S) {
@@ -185,10 +174,13 @@ int table_tostr(struct YASL_State *S) {
 		YASL_throw_err(S, YASL_TYPE_ERROR);
 	}
 
-	void **buffer = (void **) malloc(8 * sizeof(void *));
-	buffer[0] = vm_peektable((struct VM *) S, S->vm.sp);
-	table_tostr_helper(S, buffer, 8, 1);
-	free(buffer);
+	struct Parents parents = { vm_peektable((struct VM *) S, S->vm.sp), NULL };
+	struct YASL_ByteBuffer *bb = push_buffer(S);
+	vm_push((struct VM *) S, vm_peek((struct VM *) S, S->vm.sp - 1));
+	table_tostr_helper(S, bb, &parents);
+	struct YASL_String *result = pop_buffer(S);
+	vm_pop((struct VM *) S);
+	vm_pushstr((struct VM *) S, result);
 	return 1;
 }
 
-- 
2.43.0


From 05b7d1531ec8ac8c1809c367fd7d9122928f048d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:52 +0000
Subject: [PATCH 55/76] fix: release a value that does not fit on the stack

---
 interpreter/VM.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index 67608a1..962edfe 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -207,6 +207,10 @@ void vm_throw_err(struct VM *const vm, int error) {
 
 void vm_push(struct VM *const vm, const struct YASL_Object val) {
 	if (vm->sp + 1 >= STACK_SIZE) {
+		// nothing else might refer to the value.
+		struct YASL_Object dropped = val;
+		inc_ref(&dropped);
+		dec_ref(&dropped);
 		vm_print_err(vm, "StackOverflow.");
 		vm_throw_err(vm, YASL_STACK_OVERFLOW_ERROR);
 	}
-- 
2.43.0


From 4ade5eba845f4fa82a2728c97eda846e41e2cafb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:36 +0000
Subject: [PATCH 56/76] fix: read a global that was declared but never
 initialised as undef

---
 interpreter/VM.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index 962edfe..b885c8e 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -1149,9 +1149,10 @@ static void vm_GSTORE_8(struct VM *const vm) {
 static void vm_GLOAD_8(struct VM *const vm) {
 	yasl_int addr = vm_read_int(vm);
 
-	vm_push(vm, YASL_Table_search(vm->globals, vm->constants[addr]));
+	const struct YASL_Object global = YASL_Table_search(vm->globals, vm->constants[addr]);
 
-	YASL_ASSERT(vm_peek(vm).type != Y_END, "global not found");
+	// it might be declared, but not initialised: by the host, or because that failed.
+	vm_push(vm, global.type == Y_END ? YASL_UNDEF() : global);
 }
 
 static void vm_enterframe_offset(struct VM *const vm, int offset, int num_returns) {
-- 
2.43.0


From cd2657711353c457dc671054a0b44e2c59158633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:36 +0000
Subject: [PATCH 57/76] fix: keep track of the code of required modules

---
 std/yasl-std-require.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/std/yasl-std-require.c b/std/yasl-std-require.c
index 37f004a..a47b874 100644
--- a/std/yasl-std-require.c
+++ b/std/yasl-std-require.c
@@ -83,6 +83,7 @@ int YASL_require(struct YASL_State *S) {
 		S->vm.headers[i] = Ss->vm.headers[i];
 		Ss->vm.headers[i] = NULL;
 	}
+	S->vm.headers_size = new_headers_size;
 
 	Ss->vm.globals = NULL;
 	Ss->vm.metatables = NULL;
-- 
2.43.0


From ec5b9c609a13b528ae6be0f7f535725ec5553205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:36 +0000
Subject: [PATCH 58/76] fix: release a module that failed

---
 std/yasl-std-require.c | 38 ++++++++++++++++++++++++--------------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/std/yasl-std-require.c b/std/yasl-std-require.c
index a47b874..432e2b7 100644
--- a/std/yasl-std-require.c
+++ b/std/yasl-std-require.c
@@ -34,6 +34,25 @@ static struct YASL_State *open_on_path(const char *path, const char *name, const
 	return YASL_newstate_num(name, num);
 }
 
+// what S and Ss share stays with S, as does the code of Ss: there could be functions left that need it.
+static void take_shared(struct YASL_State *S, struct YASL_State *Ss) {
+	size_t old_headers_size = S->vm.headers_size;
+	size_t new_headers_size = Ss->vm.headers_size;
+	S->vm.headers = (unsigned char **) realloc(S->vm.headers, new_headers_size * sizeof(unsigned char *));
+	for (size_t i = old_headers_size; i < new_headers_size; i++) {
+		S->vm.headers[i] = Ss->vm.headers[i];
+		Ss->vm.headers[i] = NULL;
+	}
+	S->vm.headers_size = new_headers_size;
+
+	Ss->vm.globals = NULL;
+	Ss->vm.metatables = NULL;
+
+	Ss->vm.code = NULL;
+	Ss->compiler.strings = NULL;
+	Ss->compiler.header = YASL_ByteBuffer_new(0);
+}
+
 int YASL_require(struct YASL_State *S) {
 	if (!YASL_isstr(S)) {
 		// TODO error message
@@ -47,6 +66,7 @@ int YASL_require(struct YASL_State *S) {
 
 	if (!Ss) {
 		YASL_print_err(S, "could not open package %s.", mode_str);
+		free(mode_str);
 		YASL_throw_err(S, YASL_ERROR);
 	}
 
@@ -68,6 +88,9 @@ int YASL_require(struct YASL_State *S) {
 
 	if (status != YASL_MODULE_SUCCESS) {
 		puts("Not a valid module");
+		take_shared(S, Ss);
+		YASL_delstate(Ss);
+		free(mode_str);
 		YASL_throw_err(S, YASL_ERROR);
 	}
 
@@ -76,21 +99,8 @@ int YASL_require(struct YASL_State *S) {
 
 	vm_pushundef(&Ss->vm);
 
-	size_t old_headers_size = S->vm.headers_size;
-	size_t new_headers_size = Ss->vm.headers_size;
-	S->vm.headers = (unsigned char **) realloc(S->vm.headers, new_headers_size * sizeof(unsigned char *));
-	for (size_t i = old_headers_size; i < new_headers_size; i++) {
-		S->vm.headers[i] = Ss->vm.headers[i];
-		Ss->vm.headers[i] = NULL;
-	}
-	S->vm.headers_size = new_headers_size;
-
-	Ss->vm.globals = NULL;
-	Ss->vm.metatables = NULL;
+	take_shared(S, Ss);
 
-	Ss->vm.code = NULL;
-	Ss->compiler.strings = NULL;
-	Ss->compiler.header = YASL_ByteBuffer_new(0);
 	for (int i = 0; i < S->vm.num_constants; i++) {
 		dec_ref(S->vm.constants + i);
 	}
-- 
2.43.0


From 0270fcd18e6ac0306a63d817895cc6961e942fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:56 +0000
Subject: [PATCH 59/76] fix: a statement that starts with a function literal
 left its value on the stack

---
 compiler/parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/parser.c b/compiler/parser.c
index 0741cee..0874d71 100644
--- a/compiler/parser.c
+++ b/compiler/parser.c
@@ -255,7 +255,7 @@ static struct Node *parse_program(struct Parser *const parser) {
 		return new_Echo(parser, parse_expr(parser), line);
 	case T_FN:
 		if (isfndecl(parser)) return parse_fn(parser);
-		else return parse_expr(parser);
+		else return parse_assign_or_exprstmt(parser);
 	case T_RET:
 		return parse_return(parser);
 	case T_EXPORT:
-- 
2.43.0


From d31f15f6077f8eae5f3207db1bf29a80f116ffcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:56 +0000
Subject: [PATCH 60/76] fix: lines were counted twice when the parser looked
 ahead over the end of a line

---
 compiler/parser.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/compiler/parser.c b/compiler/parser.c
index 0874d71..f4c68b8 100644
--- a/compiler/parser.c
+++ b/compiler/parser.c
@@ -208,12 +208,14 @@ struct Node *parse_assign_or_exprstmt(struct Parser *const parser) {
  */
 static bool isfndecl(struct Parser *const parser) {
 	long curr = lxtell(parser->lex.file);
+	size_t line = parserline(parser);
 	eattok(parser, T_FN);
 	free(parser->lex.value);
 	parser->lex.value = NULL;
 	bool result = TOKEN_MATCHES(parser, T_ID);
 	lxseek(parser->lex.file, curr, SEEK_SET);
 	parser->lex.type = T_FN;
+	parser->lex.line = line;
 	return result;
 }
 
@@ -222,11 +224,13 @@ static bool isfndecl(struct Parser *const parser) {
  */
 static bool isconstfndecl(struct Parser *const parser) {
 	long curr = lxtell(parser->lex.file);
+	size_t line = parserline(parser);
 	eattok(parser, T_CONST);
 	free(parser->lex.value);
 	bool result = TOKEN_MATCHES(parser, T_FN);
 	lxseek(parser->lex.file, curr, SEEK_SET);
 	parser->lex.type = T_CONST;
+	parser->lex.line = line;
 	return result;
 }
 
@@ -235,6 +239,7 @@ static bool isconstfndecl(struct Parser *const parser) {
  */
 static bool ismultiassign(struct Parser *const parser) {
 	long curr = lxtell(parser->lex.file);
+	size_t line = parserline(parser);
 	char *name = parser->lex.value;
 	parser->lex.value = NULL;
 	eattok(parser, T_ID);
@@ -243,6 +248,7 @@ static bool ismultiassign(struct Parser *const parser) {
 	free(parser->lex.value);
 	parser->lex.type = T_ID;
 	parser->lex.value = name;
+	parser->lex.line = line;
 	return result;
 }
 
-- 
2.43.0


From 48220c02b54a9d7cdf5ea030987eda4f2eb38e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:56 +0000
Subject: [PATCH 61/76] fix: a float literal without digits in its exponent
 swallowed the next character

---
 compiler/lexer.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/compiler/lexer.c b/compiler/lexer.c
index 0a2171a..cfafc7a 100644
--- a/compiler/lexer.c
+++ b/compiler/lexer.c
@@ -236,6 +236,17 @@ static bool lex_eatfloat(struct Lexer *const lex) {
 			lex_getchar(lex);
 			lex_val_append(lex, 'e');
 			while (lex->c == NUM_SEPERATOR) lex_getchar(lex);
+			if (lex->c == '+' || lex->c == '-') {
+				lex_val_append(lex, lex->c);
+				lex_getchar(lex);
+			}
+
+			if (!isddigit(lex->c)) {
+				lex_print_err_syntax(lex, "Invalid float literal in line %" PRI_SIZET ".\n", lex->line);
+				lex_error(lex);
+				return true;
+			}
+
 			lex_eatnumber_fill(lex, &isddigit);
 		}
 
-- 
2.43.0


From 436fcb2638e267f4473d4e1ab1aa7f266bc7b808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:56 +0000
Subject: [PATCH 62/76] fix: a hex escape could have a sign or white space in
 it

---
 compiler/lexer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/lexer.c b/compiler/lexer.c
index cfafc7a..c4665d3 100644
--- a/compiler/lexer.c
+++ b/compiler/lexer.c
@@ -355,7 +355,7 @@ static bool handle_escapes(struct Lexer *const lex, char delim) {
 		buffer[1] = lex_getchar(lex);
 		buffer[2] = '\0';
 		tmp = (char) strtol(buffer, &end, 16);
-		if (end != buffer + 2) {
+		if (end != buffer + 2 || !isxdigit(buffer[0])) {
 			lex_print_err_syntax(lex, "Invalid hex string escape in line %" PRI_SIZET ".\n", lex->line);
 			goto error;
 		}
-- 
2.43.0


From 40d9e658f2cbe22bdcb2a48441e2071dbcb2dc84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:56 +0000
Subject: [PATCH 63/76] fix: the token before the } of an interpolation was
 ignored

---
 compiler/parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/parser.c b/compiler/parser.c
index f4c68b8..e337961 100644
--- a/compiler/parser.c
+++ b/compiler/parser.c
@@ -1118,7 +1118,7 @@ static struct Node *parse_string(struct Parser *const parser) {
 		struct Node *expr = parse_expr(parser);
 		parser->lex.mode = L_INTERP;
 		cur_node = new_BinOp(parser, T_TILDE, cur_node, expr, parserline(parser));
-		if (parser->lex.c == '}') {
+		if (TOKEN_MATCHES(parser, T_RBRC)) {
 			parser->lex.c = lxgetc(parser->lex.file);
 		} else {
 			parser_print_err_syntax(parser, "Expected } in line %" PRI_SIZET ".\n", parserline(parser));
-- 
2.43.0


From e694e0a9d97b0f89419f1591cb7098f74dba23dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:56 +0000
Subject: [PATCH 64/76] fix: an interpolation could not start with an
 interpolated string

---
 compiler/parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/parser.c b/compiler/parser.c
index e337961..2d3881e 100644
--- a/compiler/parser.c
+++ b/compiler/parser.c
@@ -1113,8 +1113,8 @@ static struct Node *parse_string(struct Parser *const parser) {
 	// interpolated strings
 	while (parser->lex.mode == L_INTERP) {
 		eattok(parser, T_STR);
-		eattok(parser, T_LBRC);
 		parser->lex.mode = L_NORMAL;
+		eattok(parser, T_LBRC);
 		struct Node *expr = parse_expr(parser);
 		parser->lex.mode = L_INTERP;
 		cur_node = new_BinOp(parser, T_TILDE, cur_node, expr, parserline(parser));
-- 
2.43.0


From 16596914ca99ca1a67711437a38a1d9627e5aa4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:56 +0000
Subject: [PATCH 65/76] fix: the last part of a for loop popped two values if
 it was no assignment

---
 compiler/parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/parser.c b/compiler/parser.c
index 2d3881e..169b3f7 100644
--- a/compiler/parser.c
+++ b/compiler/parser.c
@@ -524,7 +524,7 @@ static struct Node *parse_for(struct Parser *const parser) {
 		struct Node *body = parse_body(parser);
 		struct Node *outer_body = new_Body(parser, line);
 		body_append(parser, &outer_body, iter);
-		body_append(parser, &outer_body, new_While(parser, cond, new_Block(parser, body, line), new_ExprStmt(parser, post, line), line));
+		body_append(parser, &outer_body, new_While(parser, cond, new_Block(parser, body, line), post, line));
 		struct Node *block = new_Block(parser, outer_body, line);
 		return block;
 	}
-- 
2.43.0


From 0531a61445451585a49ca2bca346eb3be3260949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:56 +0000
Subject: [PATCH 66/76] fix: no line break was possible after the for or if of
 a comprehension

---
 compiler/parser.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/compiler/parser.c b/compiler/parser.c
index 169b3f7..486b798 100644
--- a/compiler/parser.c
+++ b/compiler/parser.c
@@ -661,7 +661,7 @@ static struct Node *parse_patternsingle(struct Parser *const parser) {
 			body_append(parser, &n, parse_primitivepattern(parser));
 			eattok(parser, T_COLON);
 			body_append(parser, &n, parse_pattern(parser));
-			while (parser->lex.c == '\n') eattok(parser, T_SEMI);
+			while (TOKEN_MATCHES(parser, T_SEMI) && parser->lex.c == '\n') eattok(parser, T_SEMI);
 			while (matcheattok(parser, T_COMMA)) {
 				YASL_PARSE_DEBUG_LOG("%s\n", "Parsing table pattern");
 				if (matcheattok(parser, T_TDOT)) {
@@ -672,7 +672,7 @@ static struct Node *parse_patternsingle(struct Parser *const parser) {
 				eattok(parser, T_COLON);
 				body_append(parser, &n, parse_pattern(parser));
 			}
-			while (parser->lex.c == '\n') eattok(parser, T_SEMI);
+			while (TOKEN_MATCHES(parser, T_SEMI) && parser->lex.c == '\n') eattok(parser, T_SEMI);
 		}
 		eattok(parser, T_RBRC);
 		return n;
@@ -685,7 +685,7 @@ static struct Node *parse_patternsingle(struct Parser *const parser) {
 			n->nodetype = N_PATVLS;
 		} else if (curtok(parser) != T_RSQB) {
 			body_append(parser, &n, parse_pattern(parser));
-			while (parser->lex.c == '\n') eattok(parser, T_SEMI);
+			while (TOKEN_MATCHES(parser, T_SEMI) && parser->lex.c == '\n') eattok(parser, T_SEMI);
 			while (matcheattok(parser, T_COMMA)) {
 				YASL_PARSE_DEBUG_LOG("%s\n", "Parsing list pattern");
 				if (matcheattok(parser, T_TDOT)) {
@@ -694,7 +694,7 @@ static struct Node *parse_patternsingle(struct Parser *const parser) {
 				}
 				body_append(parser, &n, parse_pattern(parser));
 			}
-			while (parser->lex.c == '\n') eattok(parser, T_SEMI);
+			while (TOKEN_MATCHES(parser, T_SEMI) && parser->lex.c == '\n') eattok(parser, T_SEMI);
 		}
 		eattok(parser, T_RSQB);
 		return n;
@@ -1156,7 +1156,7 @@ static struct Node *parse_table(struct Parser *const parser) {
 	eattok(parser, T_COLON);
 	body_append(parser, &keys, parse_expr(parser));
 
-	while (parser->lex.c == '\n') eattok(parser, T_SEMI);
+	while (TOKEN_MATCHES(parser, T_SEMI) && parser->lex.c == '\n') eattok(parser, T_SEMI);
 	if (matcheattok(parser, T_FOR)) {
 		struct Node *iter = parse_iterate(parser);
 
@@ -1165,7 +1165,7 @@ static struct Node *parse_table(struct Parser *const parser) {
 			cond = parse_expr(parser);
 		}
 
-		while (parser->lex.c == '\n') eattok(parser, T_SEMI);
+		while (TOKEN_MATCHES(parser, T_SEMI) && parser->lex.c == '\n') eattok(parser, T_SEMI);
 		eattok(parser, T_RBRC);
 		struct Node *table_comp = new_TableComp(parser, keys, iter, cond, line);
 		return table_comp;
@@ -1175,7 +1175,7 @@ static struct Node *parse_table(struct Parser *const parser) {
 		eattok(parser, T_COLON);
 		body_append(parser, &keys, parse_expr(parser));
 	}
-	while (parser->lex.c == '\n') eattok(parser, T_SEMI);
+	while (TOKEN_MATCHES(parser, T_SEMI) && parser->lex.c == '\n') eattok(parser, T_SEMI);
 	eattok(parser, T_RBRC);
 	return new_Table(parser, keys, line);
 }
@@ -1195,7 +1195,7 @@ static struct Node *parse_list(struct Parser *const parser) {
 
 	body_append(parser, &keys, parse_expr(parser));
 
-	while (parser->lex.c == '\n') eattok(parser, T_SEMI);
+	while (TOKEN_MATCHES(parser, T_SEMI) && parser->lex.c == '\n') eattok(parser, T_SEMI);
 
 	// non-empty list
 	if (matcheattok(parser, T_FOR)) {
@@ -1206,7 +1206,7 @@ static struct Node *parse_list(struct Parser *const parser) {
 			cond = parse_expr(parser);
 		}
 
-		while (parser->lex.c == '\n') eattok(parser, T_SEMI);
+		while (TOKEN_MATCHES(parser, T_SEMI) && parser->lex.c == '\n') eattok(parser, T_SEMI);
 		eattok(parser, T_RSQB);
 		struct Node *table_comp = new_ListComp(parser, keys->children[0], iter, cond, line);
 		return table_comp;
@@ -1215,7 +1215,7 @@ static struct Node *parse_list(struct Parser *const parser) {
 			YASL_PARSE_DEBUG_LOG("%s\n", "Parsing list");
 			body_append(parser, &keys, parse_expr(parser));
 		}
-		while (parser->lex.c == '\n') eattok(parser, T_SEMI);
+		while (TOKEN_MATCHES(parser, T_SEMI) && parser->lex.c == '\n') eattok(parser, T_SEMI);
 		eattok(parser, T_RSQB);
 		return new_List(parser, keys, line);
 	}
-- 
2.43.0


From 3143f1aa31e67025dc02a4ce820140a082ab365e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:56 +0000
Subject: [PATCH 67/76] fix: x.(f()) read arguments that f need not have, and
 has no meaning

---
 compiler/parser.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/compiler/parser.c b/compiler/parser.c
index 486b798..8cc6b76 100644
--- a/compiler/parser.c
+++ b/compiler/parser.c
@@ -932,10 +932,7 @@ static struct Node *parse_call(struct Parser *const parser) {
 			}
 		} else if (matcheattok(parser, T_DOT)) {
 			struct Node *right = parse_constant(parser);
-			if (right->nodetype == N_CALL) {
-				cur_node = new_Set(parser, cur_node, Call_get_params(right)->children[0],
-						   Call_get_params(right)->children[1], parserline(parser));
-			} else if (right->nodetype == N_VAR) {
+			if (right->nodetype == N_VAR) {
 				right->nodetype = N_STR;
 				cur_node = new_Get(parser, cur_node, right, parserline(parser));
 			} else {
-- 
2.43.0


From 3d7911d0d756c84606e75a9fb3dc9ae17234b4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:36 +0000
Subject: [PATCH 68/76] fix: a closed file was closed again by its destructor,
 and used by its methods

---
 std/yasl-std-io.c | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/std/yasl-std-io.c b/std/yasl-std-io.c
index db37066..6bc2f65 100644
--- a/std/yasl-std-io.c
+++ b/std/yasl-std-io.c
@@ -13,12 +13,20 @@
 
 static const char *const FILE_NAME = "io.file";
 
+static FILE *check_open(struct YASL_State *S, FILE *f, const char *name) {
+	if (!f) {
+		vm_print_err_value((struct VM *)S, "%s was passed a closed file.", name);
+		YASL_throw_err(S, YASL_VALUE_ERROR);
+	}
+	return f;
+}
+
 static FILE *YASLX_checkfile(struct YASL_State *S, const char *name, int pos) {
 	if (!YASL_isuserdata(S, FILE_NAME)) {
 		YASLX_print_err_bad_arg_type(S, name, pos, FILE_NAME, YASL_peektypename(S));
 		YASL_throw_err(S, YASL_TYPE_ERROR);
 	}
-	return (FILE *)YASL_popuserdata(S);
+	return check_open(S, (FILE *)YASL_popuserdata(S), name);
 }
 
 static FILE *YASLX_checknfile(struct YASL_State *S, const char *name, unsigned pos) {
@@ -26,11 +34,11 @@ static FILE *YASLX_checknfile(struct YASL_State *S, const char *name, unsigned p
 		YASLX_print_err_bad_arg_type(S, name, pos, FILE_NAME, YASL_peekntypename(S, pos));
 		YASL_throw_err(S, YASL_TYPE_ERROR);
 	}
-	return (FILE *)YASL_peeknuserdata(S, pos);
+	return check_open(S, (FILE *)YASL_peeknuserdata(S, pos), name);
 }
 
 static void close_file(void *ptr) {
-	fclose((FILE *)ptr);
+	if (ptr) fclose((FILE *)ptr);
 }
 
 static int YASL_io_open(struct YASL_State *S) {
@@ -238,8 +246,11 @@ static int YASL_io_seek(struct YASL_State *S) {
 }
 
 static int YASL_io_close(struct YASL_State *S) {
+	struct YASL_Object file = vm_peek((struct VM *)S);
 	FILE *f = YASLX_checkfile(S, FILE_PRE ".close", 0);
 
+	// neither the methods nor the destructor may use it from now on
+	file.value.uval->data = NULL;
 	int success = fclose(f);
 	YASL_pushbool(S, success == 0);
 	return 1;
-- 
2.43.0


From beb046370f2e19ee23affcf7e0e607abbce46925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:36 +0000
Subject: [PATCH 69/76] fix: read('a') returned memory that was not read when a
 file could not be read

---
 std/yasl-std-io.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/std/yasl-std-io.c b/std/yasl-std-io.c
index 6bc2f65..afc4356 100644
--- a/std/yasl-std-io.c
+++ b/std/yasl-std-io.c
@@ -148,9 +148,8 @@ static int YASL_io_read(struct YASL_State *S) {
 		fseek(f, 0, SEEK_SET);
 
 		char *string = (char *) malloc(fsize);
-		int result = fread(string, fsize, 1, f);
-		(void) result;
-		// TODO clean this up.
+		// the file can be shorter, or not readable at all
+		fsize = string ? fread(string, 1, fsize, f) : 0;
 		YASL_pushlstr(S, string, fsize);
 		free(string);
 		return 1;
-- 
2.43.0


From f0b130185102b4710027de651c1cbc0ef6df871d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:36 +0000
Subject: [PATCH 70/76] fix: write stopped at the first NUL of a string

---
 std/yasl-std-io.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/std/yasl-std-io.c b/std/yasl-std-io.c
index afc4356..6353974 100644
--- a/std/yasl-std-io.c
+++ b/std/yasl-std-io.c
@@ -185,10 +185,9 @@ static int YASL_io_write(struct YASL_State *S) {
 		YASL_throw_err(S, YASL_TYPE_ERROR);
 	}
 	char *str = YASL_peekcstr(S);
+	size_t len = YASL_String_len(vm_peekstr((struct VM *)S));
 	YASL_pop(S);
 
-	size_t len = strlen(str);
-
 	size_t write_len = fwrite(str, 1, len, f);
 
 	YASL_pushint(S, write_len);
-- 
2.43.0


From 725e8d5b3c92221564a1c1891621b6e0b42df7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:32 +0000
Subject: [PATCH 71/76] fix: str.tofloat gave NaN for negative numbers and inf

---
 data-structures/YASL_String.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/data-structures/YASL_String.c b/data-structures/YASL_String.c
index 1568e54..25fb433 100644
--- a/data-structures/YASL_String.c
+++ b/data-structures/YASL_String.c
@@ -186,7 +186,9 @@ yasl_float YASL_String_tofloat(struct YASL_String *str) {
 	const size_t length = YASL_String_len(str);
 	const char *chars = YASL_String_chars(str);
 	char *buffer = (char *)malloc(length + 1);
-	if (length == 0 || !isdigit((int)chars[0])) {
+	const size_t sign = length > 0 && (chars[0] == '-' || chars[0] == '+');
+	// there may be a sign in front of a number, and of inf
+	if (length == sign || !(isdigit((int)chars[sign]) || chars[sign] == 'i')) {
 		free(buffer);
 		return NAN;
 	}
-- 
2.43.0


From 73d5b9b002e8fae052d6dea1d11aed928d0bb130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:36 +0000
Subject: [PATCH 72/76] fix: a table pattern with a missing key was misread
 inside of alternatives

---
 interpreter/VM.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index b885c8e..492df10 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -997,7 +997,12 @@ static bool vm_MATCH_table_elements(struct VM *const vm, size_t len, struct YASL
 		default:
 			break;
 		}
-		if (val.type == Y_END || !(vm_MATCH_subpattern(vm, &val))) {
+		if (val.type == Y_END) {
+			// the pattern for the value of this key is still to be skipped
+			vm_ff_subpatterns_multiple(vm, 2 * (len - (i + 1)) + 1);
+			return false;
+		}
+		if (!vm_MATCH_subpattern(vm, &val)) {
 			vm_ff_subpatterns_multiple(vm, 2 * (len - (i + 1)));
 			return false;
 		}
-- 
2.43.0


From 71877a5477222b997a832f1aa9627c558739ad9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:36 +0000
Subject: [PATCH 73/76] fix: a call asked for 128 or more values crashed

---
 compiler/compiler.c | 14 ++++++++++++--
 interpreter/VM.c    |  9 +++++++--
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/compiler/compiler.c b/compiler/compiler.c
index 7269f97..a38acf4 100644
--- a/compiler/compiler.c
+++ b/compiler/compiler.c
@@ -471,12 +471,22 @@ static void visit_VariadicContext(struct Compiler *const compiler, const struct
 	compiler->expected_returns = old_returns;
 }
 
+/* A single byte is used for this, with 0xFF for any number of results (which is -1 here). */
+static void compiler_add_expected_returns(struct Compiler *const compiler, const int expected_returns, const size_t line) {
+	if (expected_returns >= 0xFF) {
+		compiler_print_err_syntax(compiler, "Too many values assigned from one call (line %" PRI_SIZET ").\n", line);
+		handle_error(compiler);
+		return;
+	}
+	compiler_add_byte(compiler, (unsigned char)expected_returns);
+}
+
 static void visit_Call(struct Compiler *const compiler, const struct Node *const node) {
 	const int expected_returns = compiler->expected_returns;
 	compiler->expected_returns = 1;
 	visit(compiler, Call_get_object(node));
 	compiler_add_byte(compiler, O_INIT_CALL);
-	compiler_add_byte(compiler, (unsigned char)expected_returns);
+	compiler_add_expected_returns(compiler, expected_returns, node->line);
 	visit_Body(compiler, Call_get_params(node));
 	compiler_add_byte(compiler, O_CALL);
 	compiler->expected_returns = expected_returns;
@@ -492,7 +502,7 @@ static void visit_MethodCall(struct Compiler *const compiler, const struct Node
 	yasl_int index = compiler_intern_string(compiler, str, len);
 
 	compiler_add_byte(compiler, O_INIT_MC);
-	compiler_add_byte(compiler, (unsigned char)expected_returns);
+	compiler_add_expected_returns(compiler, expected_returns, node->line);
 	compiler_add_int(compiler, index);
 
 	visit_Body(compiler, MethodCall_get_params(node));
diff --git a/interpreter/VM.c b/interpreter/VM.c
index 492df10..78729b6 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -1240,8 +1240,13 @@ static void vm_swaptop(struct VM *const vm) {
 	vm_peek(vm, vm->sp - 1) = tmp;
 }
 
+static int vm_read_expected_returns(struct VM *const vm) {
+	const unsigned char expected_returns = NCODE(vm);
+	return expected_returns == 0xFF ? -1 : expected_returns;
+}
+
 static void vm_INIT_MC(struct VM *const vm) {
-	int expected_returns = (signed char)NCODE(vm);
+	int expected_returns = vm_read_expected_returns(vm);
 	vm_duptop(vm);
 	yasl_int addr = vm_read_int(vm);
 	vm_GET_helper(vm, vm->constants[addr]);
@@ -1644,7 +1649,7 @@ void vm_executenext(struct VM *const vm) {
 		vm_INIT_MC(vm);
 		break;
 	case O_INIT_CALL:
-		vm_INIT_CALL(vm, (signed char)NCODE(vm));
+		vm_INIT_CALL(vm, vm_read_expected_returns(vm));
 		break;
 	case O_CALL:
 		vm_CALL(vm);
-- 
2.43.0


From 65b59b96c8dc3722f27b65d7b92c6bebc90e415d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:50 +0000
Subject: [PATCH 74/76] fix: a function capturing more than 255 variables read
 the wrong ones

---
 compiler/compiler.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/compiler/compiler.c b/compiler/compiler.c
index a38acf4..4aafd26 100644
--- a/compiler/compiler.c
+++ b/compiler/compiler.c
@@ -439,6 +439,10 @@ static void visit_FnDecl(struct Compiler *const compiler, const struct Node *con
 	if (compiler->params->isclosure) {
 		compiler->buffer->bytes[old_size - sizeof(yasl_int) - 1] = O_CCONST;
 		const size_t count = compiler->params->upval_indices.count;
+		if (count > 255) {
+			compiler_print_err_syntax(compiler, "Too many variables captured by function (line %" PRI_SIZET ").\n", node->line);
+			handle_error(compiler);
+		}
 		compiler_add_byte(compiler, (unsigned char) count);
 		const size_t start = compiler->buffer->count;
 		// TODO what's below is wrong. We need to get the right value for the upvals.
-- 
2.43.0


From 213fca27cc6c43efe0335fc3733ed1f351d07438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:35 +0000
Subject: [PATCH 75/76] fix: __require_c__ leaked the names of the files it
 looked for

---
 std/yasl-std-require.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/std/yasl-std-require.c b/std/yasl-std-require.c
index 432e2b7..20d14db 100644
--- a/std/yasl-std-require.c
+++ b/std/yasl-std-require.c
@@ -171,8 +171,10 @@ int YASL_require_c(struct YASL_State *S) {
 	void *lib = search_on_path(YASL_DEFAULT_CPATH, path, YASL_PATH_MARK, YASL_PATH_SEP);
 	if (!lib) {
 	    vm_print_err_value((struct VM *)S, "couldn't open shared library: %s.\n", path);
+	    free(path);
 	    YASL_throw_err(S, YASL_VALUE_ERROR);
 	}
+	free(path);
 	YASL_cfn fun = (YASL_cfn)GetProcAddress(lib, LOAD_LIB_FUN_NAME);
 	if (!fun) {
 	    vm_print_err_value((struct VM *)S, "couldn't load function: %s.\n", LOAD_LIB_FUN_NAME);
@@ -184,6 +186,7 @@ int YASL_require_c(struct YASL_State *S) {
 	fun(S);
 #elif defined(YASL_USE_UNIX) || defined(YASL_USE_APPLE)
 	void *lib = search_on_path(YASL_DEFAULT_CPATH, path, YASL_PATH_MARK, YASL_PATH_SEP);
+	free(path);
 	if (!lib) {
 		vm_print_err_value((struct VM *) S, "%s\n", dlerror());
 		YASL_throw_err(S, YASL_VALUE_ERROR);
@@ -195,7 +198,7 @@ int YASL_require_c(struct YASL_State *S) {
 	}
 	fun(S);
 #else
-	(void) path;
+	free(path);
 	YASL_throw_err(S, YASL_PLATFORM_NOT_SUPP);
 #endif
 	return 1;
-- 
2.43.0


From 57cb02d58a8b166e3e1ce1298242b7b9c945a28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:35 +0000
Subject: [PATCH 76/76] fix: iterating over a slice of a str of the host
 started at the wrong place

---
 interpreter/VM.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index 78729b6..75a60db 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -924,7 +924,7 @@ static void vm_ITER_1(struct VM *const vm) {
 			vm_pushbool(vm, false);
 		} else {
 			size_t i = (size_t) frame->iter;
-			vm_pushstr(vm, YASL_String_new_substring(i, i + 1, str));
+			vm_pushstr(vm, YASL_String_new_substring(str->start + i, str->start + i + 1, str));
 			frame->iter++;
 			vm_pushbool(vm, true);
 		}
-- 
2.43.0

