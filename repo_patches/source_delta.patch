From f6a7c7da66b7c03c60bf7d8a7fcccf368455ee27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:56 +0000
Subject: [PATCH 01/83] fix: tables and sets: removing an absent key must not
 change the count, tombstones must not exhaust the empty slots

Removing a key that is not there decremented the element count, and slots
freed by removals were never reclaimed, so a table or set with enough
insertions and removals ended up without an empty slot and every lookup of
an absent key looped forever.
---
 data-structures/YASL_Set.c   | 9 ++++++++-
 data-structures/YASL_Set.h   | 1 +
 data-structures/YASL_Table.c | 9 ++++++++-
 data-structures/YASL_Table.h | 2 ++
 4 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/data-structures/YASL_Set.c b/data-structures/YASL_Set.c
index 34d6b3b..8edb408 100644
--- a/data-structures/YASL_Set.c
+++ b/data-structures/YASL_Set.c
@@ -10,6 +10,7 @@ static struct YASL_Set *set_new_sized(const size_t base_size) {
 	set->base_size = base_size;
 	set->size = next_prime(set->base_size);
 	set->count = 0;
+	set->tombstones = 0;
 	set->items = (struct YASL_Object *)calloc((size_t) set->size, sizeof(struct YASL_Object));
 	return set;
 }
@@ -36,6 +37,7 @@ static void set_resize(struct YASL_Set *const set, const size_t base_size) {
 	}
 	set->base_size = new_set->base_size;
 	set->count = new_set->count;
+	set->tombstones = new_set->tombstones;
 
 	const size_t tmp_size = set->size;
 	set->size = new_set->size;
@@ -63,8 +65,11 @@ bool YASL_Set_insert(struct YASL_Set *const set, struct YASL_Object value) {
 		return false;
 	}
 
+	// Tombstones take part in probing, so they count towards the load: there must always be an empty slot left.
 	const size_t load = set->count * 100 / set->size;
+	const size_t total_load = (set->count + set->tombstones) * 100 / set->size;
 	if (load > 70) set_resize_up(set);
+	else if (total_load > 70) set_resize(set, set->base_size);
 	size_t index = get_hash(value, set->size, 0);
 	inc_ref(&value);
 	struct YASL_Object curr_item = set->items[index];
@@ -113,12 +118,14 @@ void YASL_Set_rm(struct YASL_Set *const set, struct YASL_Object key) {
 			if ((isequal(&item, &key))) {
 				dec_ref(&item);
 				set->items[index] = YASL_END();
+				set->tombstones++;
+				set->count--;
+				return;
 			}
 		}
 		index = get_hash(key, set->size, i++);
 		item = set->items[index];
 	}
-	set->count--;
 }
 
 struct YASL_Set *YASL_Set_union(const struct YASL_Set *const left, const struct YASL_Set *const right) {
diff --git a/data-structures/YASL_Set.h b/data-structures/YASL_Set.h
index 919b590..ac518df 100644
--- a/data-structures/YASL_Set.h
+++ b/data-structures/YASL_Set.h
@@ -10,6 +10,7 @@ struct YASL_Set {
 	size_t size;
 	size_t base_size;
 	size_t count;
+	size_t tombstones;
 	struct YASL_Object *items;
 };
 
diff --git a/data-structures/YASL_Table.c b/data-structures/YASL_Table.c
index 40fdcb0..7a6e137 100644
--- a/data-structures/YASL_Table.c
+++ b/data-structures/YASL_Table.c
@@ -31,6 +31,7 @@ struct YASL_Table *table_new_sized(const size_t base_size) {
 	table->base_size = base_size;
 	table->size = next_prime(table->base_size);
 	table->count = 0;
+	table->tombstones = 0;
 	table->items = (struct YASL_Table_Item *)calloc((size_t) table->size, sizeof(struct YASL_Table_Item));
 	return table;
 }
@@ -76,6 +77,7 @@ static void table_resize(struct YASL_Table *const table, const size_t base_size)
 	}
 	table->base_size = new_table->base_size;
 	table->count = new_table->count;
+	table->tombstones = new_table->tombstones;
 
 	const size_t tmp_size = table->size;
 	table->size = new_table->size;
@@ -121,8 +123,11 @@ size_t YASL_Table_getindex(struct YASL_Table *const table, const struct YASL_Obj
 void YASL_Table_insert_fast(struct YASL_Table *const table, const struct YASL_Object key, const struct YASL_Object value) {
 	YASL_ASSERT(ishashable(&key), "`key` must be hashable");
 
+	// Tombstones take part in probing, so they count towards the load: there must always be an empty slot left.
 	const size_t load = table->count * 100 / table->size;
+	const size_t total_load = (table->count + table->tombstones) * 100 / table->size;
 	if (load > 70) table_resize_up(table);
+	else if (total_load > 70) table_resize(table, table->base_size);
 	struct YASL_Table_Item item = new_item(key, value);
 	const size_t index = YASL_Table_getindex(table, key);
 	struct YASL_Table_Item curr_item = table->items[index];
@@ -193,10 +198,12 @@ void YASL_Table_rm(struct YASL_Table *const table, const struct YASL_Object key)
 			if ((isequal_typed(&item.key, &key))) {
 				del_item(&item);
 				table->items[index] = TOMBSTONE;
+				table->tombstones++;
+				table->count--;
+				return;
 			}
 		}
 		index = get_hash(key, table->size, i++);
 		item = table->items[index];
 	}
-	table->count--;
 }
diff --git a/data-structures/YASL_Table.h b/data-structures/YASL_Table.h
index dac5f43..fb1bed0 100644
--- a/data-structures/YASL_Table.h
+++ b/data-structures/YASL_Table.h
@@ -15,6 +15,7 @@
 	.size = next_prime(TABLE_BASESIZE),\
 	.base_size = TABLE_BASESIZE,\
 	.count = 0,\
+	.tombstones = 0,\
 	.items = (struct YASL_Table_Item *)calloc((size_t) next_prime(TABLE_BASESIZE), sizeof(struct YASL_Table_Item))\
 })
 
@@ -35,6 +36,7 @@ struct YASL_Table {
 	size_t size;
 	size_t base_size;
 	size_t count;
+	size_t tombstones;
 	struct YASL_Table_Item *items;
 };
 
-- 
2.43.0


From 31e1b53dde9d77eabacea0c49ecc6ad48b6db35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:56 +0000
Subject: [PATCH 02/83] fix: table.clear left the table with a non-prime size
 and a stale base size

With 30 slots the double hashing probe sequence does not reach every slot,
so inserting into a cleared table could loop forever.
---
 interpreter/table_methods.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/interpreter/table_methods.c b/interpreter/table_methods.c
index 41a02b5..a662132 100644
--- a/interpreter/table_methods.c
+++ b/interpreter/table_methods.c
@@ -251,7 +251,9 @@ int table_clear(struct YASL_State *S) {
 	}
 
 	ht->count = 0;
-	ht->size = TABLE_BASESIZE;
+	ht->tombstones = 0;
+	ht->base_size = TABLE_BASESIZE;
+	ht->size = next_prime(ht->base_size);
 	free(ht->items);
 	ht->items = (struct YASL_Table_Item *) calloc((size_t) ht->size, sizeof(struct YASL_Table_Item));
 	dec_ref(&vm_peek((struct VM *) S));
-- 
2.43.0


From 2f7665c1f7cd0014d2a3c2e9505e3a48a5016609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:56 +0000
Subject: [PATCH 03/83] fix: the result of table.copy had no metatable, so no
 table methods

---
 interpreter/table_methods.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/interpreter/table_methods.c b/interpreter/table_methods.c
index a662132..3f33c86 100644
--- a/interpreter/table_methods.c
+++ b/interpreter/table_methods.c
@@ -230,6 +230,7 @@ int table_remove(struct YASL_State *S) {
 int table_copy(struct YASL_State *S) {
 	struct YASL_Table *ht = YASLX_checkntable(S, "table.copy", 0);
 	struct RC_UserData *new_ht = rcht_new_sized(ht->base_size);
+	ud_setmt(new_ht, S->vm.builtins_htable[Y_TABLE]);
 
 	FOR_TABLE(i, item, ht) {
 		YASL_Table_insert_fast((struct YASL_Table *) new_ht->data, item->key, item->value);
-- 
2.43.0


From a55f85ecc3b9c0b9d0a64400f1856a5134b5a26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:25 +0000
Subject: [PATCH 04/83] fix: collections.set.clear must empty the set

It removed elements while walking the slots; a removal can shrink the set,
which moves the remaining elements to slots already passed.
---
 std/yasl-std-collections.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/std/yasl-std-collections.c b/std/yasl-std-collections.c
index 20642a3..d0cc1c8 100644
--- a/std/yasl-std-collections.c
+++ b/std/yasl-std-collections.c
@@ -1,6 +1,9 @@
 #include "yasl-std-collections.h"
 
+#include <string.h>
+
 #include "data-structures/YASL_Set.h"
+#include "interpreter/refcount.h"
 #include "yasl_state.h"
 #include "yasl_aux.h"
 
@@ -296,8 +299,11 @@ static int YASL_collections_set_clear(struct YASL_State *S) {
 	struct YASL_Set *set = YASLX_checknset(S, SET_PRE ".clear", 0);
 
 	FOR_SET(i, item, set) {
-		YASL_Set_rm(set, *item);
+		dec_ref(item);
 	}
+	memset(set->items, 0, set->size * sizeof(struct YASL_Object));
+	set->count = 0;
+	set->tombstones = 0;
 	return 1;
 }
 
-- 
2.43.0


From 62e2a329cd875dc48ad8f5f6be35bf1768071267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:39 +0000
Subject: [PATCH 05/83] fix: 0.0 and -0.0 are equal, so they must hash alike

A table key stored as 0.0 was not found as -0.0 and vice versa. The compiler
keeps them apart as constants by giving -0.0 a key of its own.
---
 compiler/compiler.c  | 6 ++++--
 util/hash_function.c | 2 ++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/compiler/compiler.c b/compiler/compiler.c
index 6e099a0..cafdebe 100644
--- a/compiler/compiler.c
+++ b/compiler/compiler.c
@@ -738,11 +738,13 @@ yasl_int compiler_intern_string(struct Compiler *const compiler, const char *con
 }
 
 yasl_int compiler_intern_float(struct Compiler *const compiler, const yasl_float val) {
-	struct YASL_Object value = YASL_Table_search(compiler->strings, YASL_FLOAT(val));
+	// -0.0 is a different constant from 0.0, although they are equal, so it needs a key of its own.
+	const struct YASL_Object key = val == 0.0 && signbit(val) ? YASL_USERPTR(NULL) : YASL_FLOAT(val);
+	struct YASL_Object value = YASL_Table_search(compiler->strings, key);
 	if (value.type == Y_END) {
 		YASL_COMPILE_DEBUG_LOG("%s\n", "caching float");
 		yasl_int index = (yasl_int)compiler->strings->count;
-		YASL_Table_insert(compiler->strings, YASL_FLOAT(val), YASL_INT(index));
+		YASL_Table_insert(compiler->strings, key, YASL_INT(index));
 		YASL_ByteBuffer_add_byte(compiler->header, C_FLOAT);
 		YASL_ByteBuffer_add_float(compiler->header, val);
 
diff --git a/util/hash_function.c b/util/hash_function.c
index 57e5e41..fe0a4cb 100644
--- a/util/hash_function.c
+++ b/util/hash_function.c
@@ -13,6 +13,8 @@ size_t hash_function(const struct YASL_Object s, const size_t a, const size_t m)
 			hash %= m;
 		}
 		return (size_t) hash;
+	} else if (obj_isfloat(&s) && obj_getfloat(&s) == 0.0) {
+		return 0;  // 0.0 and -0.0 are equal.
 	} else {
 		int64_t ll = s.value.ival & 0xFFFF;
 		int64_t lu = (s.value.ival & 0xFFFF0000) >> 16;
-- 
2.43.0


From ea9d96a41ca50894ec7ed1dbfd1c0d32af4d3597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:39 +0000
Subject: [PATCH 06/83] fix: sets compared elements with int/float coercion
 although the two hash differently

Whether 1 and 1.0 were one element or two depended on the slots the other
elements happened to occupy. Compare them as tables compare keys.
---
 data-structures/YASL_Set.c | 6 +++---
 interpreter/YASL_Object.h  | 1 +
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/data-structures/YASL_Set.c b/data-structures/YASL_Set.c
index 8edb408..ef637ed 100644
--- a/data-structures/YASL_Set.c
+++ b/data-structures/YASL_Set.c
@@ -76,7 +76,7 @@ bool YASL_Set_insert(struct YASL_Set *const set, struct YASL_Object value) {
 	size_t i = 1;
 	while (!obj_isundef(&curr_item)) {
 		if (curr_item.type != Y_END) {
-			if ((isequal(&curr_item, &value))) {
+			if ((isequal_typed(&curr_item, &value))) {
 				dec_ref(&curr_item);
 				set->items[index] = value;
 				return true;
@@ -95,7 +95,7 @@ bool YASL_Set_search(const struct YASL_Set *const set, const struct YASL_Object
 	struct YASL_Object item = set->items[index];
 	size_t i = 1;
 	while (!obj_isundef(&item)) {
-		if ((isequal(&item, &key))) {
+		if ((isequal_typed(&item, &key))) {
 			return true;
 		}
 		index = get_hash(key, set->size, i++);
@@ -115,7 +115,7 @@ void YASL_Set_rm(struct YASL_Set *const set, struct YASL_Object key) {
 	size_t i = 1;
 	while (!obj_isundef(&item)) {
 		if (item.type != Y_END) {
-			if ((isequal(&item, &key))) {
+			if ((isequal_typed(&item, &key))) {
 				dec_ref(&item);
 				set->items[index] = YASL_END();
 				set->tombstones++;
diff --git a/interpreter/YASL_Object.h b/interpreter/YASL_Object.h
index c839a6a..f709bc6 100644
--- a/interpreter/YASL_Object.h
+++ b/interpreter/YASL_Object.h
@@ -64,6 +64,7 @@ int yasl_object_cmp(struct YASL_Object a, struct YASL_Object b);
 bool ishashable(const struct YASL_Object *const v);
 bool isfalsey(const struct YASL_Object *const v);
 bool isequal(const struct YASL_Object *const a, const struct YASL_Object *const b);
+bool isequal_typed(const struct YASL_Object *const a, const struct YASL_Object *const b);
 
 const char *obj_typename(const struct YASL_Object *const v);
 
-- 
2.43.0


From f65c6ea8bcc6c7f63dda9c2576fb95535cc966da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:21 +0000
Subject: [PATCH 07/83] fix: undef as a table key, set element or table value
 corrupted the container

An empty slot has undef as its key, but the table judged slots by their value
in some places: a variable or field holding undef was taken for an empty slot
and its key could be overwritten by another, and a stored undef key or element
was counted but never found. undef is no longer hashable, slots are judged by
their key, and storing undef through the C API or collections.table leaves the
key out, as it does in the language itself.
---
 data-structures/YASL_Table.c | 2 +-
 data-structures/YASL_Table.h | 2 +-
 interpreter/YASL_Object.c    | 1 -
 std/yasl-std-collections.c   | 4 ++++
 yasl.c                       | 4 ++++
 5 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/data-structures/YASL_Table.c b/data-structures/YASL_Table.c
index 7a6e137..9163fd6 100644
--- a/data-structures/YASL_Table.c
+++ b/data-structures/YASL_Table.c
@@ -108,7 +108,7 @@ size_t YASL_Table_getindex(struct YASL_Table *const table, const struct YASL_Obj
 	size_t index = get_hash(key, table->size, 0);
 	struct YASL_Table_Item curr_item = table->items[index];
 	size_t i = 1;
-	while (curr_item.value.type != Y_UNDEF) {
+	while (!obj_isundef(&curr_item.key)) {
 		if (curr_item.key.type != Y_END) {
 			if (isequal_typed(&curr_item.key, &key)) {
 				return index;
diff --git a/data-structures/YASL_Table.h b/data-structures/YASL_Table.h
index fb1bed0..1bd7cd0 100644
--- a/data-structures/YASL_Table.h
+++ b/data-structures/YASL_Table.h
@@ -8,7 +8,7 @@
 #define TABLE_BASESIZE 30
 
 #define FOR_TABLE(i, item, table) struct YASL_Table_Item *item; for (size_t i = 0; i < (table)->size; i++) \
-                                                  if (item = &(table)->items[i], item->key.type != Y_END && !obj_isundef(&item->value))
+                                                  if (item = &(table)->items[i], item->key.type != Y_END && !obj_isundef(&item->key))
 
 
 #define NEW_TABLE() ((struct YASL_Table){\
diff --git a/interpreter/YASL_Object.c b/interpreter/YASL_Object.c
index b0c57a7..d735ab8 100644
--- a/interpreter/YASL_Object.c
+++ b/interpreter/YASL_Object.c
@@ -80,7 +80,6 @@ int yasl_object_cmp(struct YASL_Object a, struct YASL_Object b) {
 
 bool ishashable(const struct YASL_Object *const v) {
 	return (
-		obj_isundef(v) ||
 		obj_isbool(v) ||
 		obj_isfloat(v) ||
 		obj_isint(v) ||
diff --git a/std/yasl-std-collections.c b/std/yasl-std-collections.c
index d0cc1c8..27df602 100644
--- a/std/yasl-std-collections.c
+++ b/std/yasl-std-collections.c
@@ -85,6 +85,10 @@ static int YASL_collections_table_new(struct YASL_State *S) {
 	while (i > 0) {
 		struct YASL_Object value = vm_pop((struct VM *)S);
 		struct YASL_Object key = vm_pop((struct VM *)S);
+		if (obj_isundef(&value)) {
+			i -= 2;
+			continue;
+		}
 		if (!YASL_Table_insert((struct YASL_Table *) table->data, key, value)) {
 			rcht_del(table);
 			vm_print_err_type(&S->vm, "unable to use mutable object of type %s as key.",
diff --git a/yasl.c b/yasl.c
index a7da9bb..0ce648c 100644
--- a/yasl.c
+++ b/yasl.c
@@ -398,6 +398,10 @@ int YASL_tableset(struct YASL_State *S) {
 
 	if (!obj_istable(&table))
 		return YASL_TYPE_ERROR;
+	if (obj_isundef(&value)) {
+		YASL_Table_rm(YASL_GETTABLE(table), key);
+		return YASL_SUCCESS;
+	}
 	if (!YASL_Table_insert(YASL_GETTABLE(table), key, value)) {
 		return YASL_TYPE_ERROR;
 	}
-- 
2.43.0


From 47e25487381767a8abd2244dab296c153a28aa53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:32 +0000
Subject: [PATCH 08/83] fix: list.pop kept the list's reference to the popped
 element, leaking it

---
 interpreter/list_methods.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/interpreter/list_methods.c b/interpreter/list_methods.c
index 6f1e769..3617510 100644
--- a/interpreter/list_methods.c
+++ b/interpreter/list_methods.c
@@ -222,7 +222,9 @@ int list_pop(struct YASL_State *S) {
 		vm_print_err((struct VM *)S, "ValueError: %s expected nonempty list as arg 0.", "list.pop");
 		YASL_throw_err(S, YASL_VALUE_ERROR);
 	}
-	vm_push((struct VM *) S, ls->items[--ls->count]);
+	struct YASL_Object value = ls->items[--ls->count];
+	vm_push((struct VM *) S, value);
+	dec_ref(&value);
 	return 1;
 }
 
-- 
2.43.0


From a35b975eba1c2154a15e2d5e3b9f4f15b58d156c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:12 +0000
Subject: [PATCH 09/83] fix: list.sort compared ints as floats, so ints beyond
 2^53 were left out of order

---
 interpreter/YASL_Object.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/interpreter/YASL_Object.c b/interpreter/YASL_Object.c
index d735ab8..0575c70 100644
--- a/interpreter/YASL_Object.c
+++ b/interpreter/YASL_Object.c
@@ -58,6 +58,8 @@ int yasl_object_cmp(struct YASL_Object a, struct YASL_Object b) {
 	YASL_ASSERT(obj_isstr(&a) && obj_isstr(&b) || obj_isnum(&a) && obj_isnum(&b), "Both must be either numeric or strings");
 	if (obj_isstr(&a) && obj_isstr(&b)) {
 		return YASL_String_cmp(obj_getstr(&a), obj_getstr(&b));
+	} else if (obj_isint(&a) && obj_isint(&b)) {
+		return (obj_getint(&a) > obj_getint(&b)) - (obj_getint(&a) < obj_getint(&b));
 	} else if (obj_isnum(&a) && obj_isnum(&b)) {
 		yasl_float aVal, bVal;
 		if(obj_isint(&a)) {
-- 
2.43.0


From 62c910f0af73946f65e1907d2dd304c36224714b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:19 +0000
Subject: [PATCH 10/83] fix: the smallest int // -1 and % -1 killed the process
 (SIGFPE)

---
 compiler/middleend.c |  5 +++--
 interpreter/VM.c     | 11 +++++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/compiler/middleend.c b/compiler/middleend.c
index c4073b3..c18e358 100644
--- a/compiler/middleend.c
+++ b/compiler/middleend.c
@@ -154,12 +154,13 @@ static void fold_BinOp(struct Node *const node) {
 			make_float(node, (yasl_float)left->value.ival / (yasl_float)right->value.ival);
 			break;
 		case T_DSLASH:
-			if (right->value.ival != 0) {
+			// x // 0 must throw, and the smallest int // -1 overflows, so leave these for the VM.
+			if (right->value.ival != 0 && right->value.ival != -1) {
 				FOLD_BINOP_INT_INT(left, right, /, int);
 			}
 			break;
 		case T_MOD:
-			if (right->value.ival != 0) {
+			if (right->value.ival != 0 && right->value.ival != -1) {
 				FOLD_BINOP_INT_INT(left, right, %, int);
 			}
 			break;
diff --git a/interpreter/VM.c b/interpreter/VM.c
index 56000f7..bd6d3f5 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -352,8 +352,15 @@ INT_BINOP(band, &)
 INT_BINOP(bandnot, &~)
 INT_BINOP(shift_left, <<)
 INT_BINOP(shift_right, >>)
-INT_BINOP(modulo, %)
-INT_BINOP(idiv, /)
+
+/* Dividing the smallest int by -1 overflows, and traps on some machines. Negating wraps around, as it does elsewhere. */
+static yasl_int modulo(yasl_int left, yasl_int right) {
+	return right == -1 ? 0 : left % right;
+}
+
+static yasl_int idiv(yasl_int left, yasl_int right) {
+	return right == -1 ? (yasl_int)(0 - (uint64_t)left) : left / right;
+}
 
 typedef yasl_int int_binop(yasl_int, yasl_int);
 typedef yasl_float float_binop(yasl_float, yasl_float);
-- 
2.43.0


From ae667c82113e96a84f6523593d2576f7c85ebb0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:19 +0000
Subject: [PATCH 11/83] fix: int ** int went through double, so results beyond
 2^53 were wrong

---
 interpreter/VM.c | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index bd6d3f5..3dacd3c 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -400,8 +400,26 @@ NUM_BINOP(add, +)
 NUM_BINOP(sub, -)
 NUM_BINOP(mul, *)
 
+/* Results that don't fit in an int are the smallest int. */
 static yasl_int int_pow(yasl_int left, yasl_int right) {
-    return (yasl_int)pow((double)left, (double)right);
+	const bool negative = left < 0 && right % 2 != 0;
+	uint64_t base = left < 0 ? 0 - (uint64_t)left : (uint64_t)left;
+	uint64_t result = 1;
+	if (base <= 1) {
+		result = right == 0 ? 1 : base;
+		right = 0;
+	}
+	for (; right > 0; right /= 2) {
+		if (right % 2 != 0) {
+			if (result > INT64_MAX / base) return INT64_MIN;
+			result *= base;
+		}
+		if (right > 1) {
+			if (base > INT64_MAX / base) return INT64_MIN;
+			base *= base;
+		}
+	}
+	return negative ? -(yasl_int)result : (yasl_int)result;
 }
 
 static void vm_num_binop(struct VM *const vm, int_binop int_op, float_binop float_op,
-- 
2.43.0


From 5e92ccbc5f86448429bc6b589619fede9a3b08ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:36 +0000
Subject: [PATCH 12/83] fix: more than 16 nested for-in loops overran the loop
 frames

---
 interpreter/VM.c | 4 ++++
 interpreter/VM.h | 3 ++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index 3dacd3c..a609c2d 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -1543,6 +1543,10 @@ void vm_executenext(struct VM *const vm) {
 		break;
 	}
 	case O_INITFOR:
+		if (vm->loopframe_num + 1 >= NUM_LOOPFRAMES) {
+			vm_print_err(vm, "StackOverflow.");
+			vm_throw_err(vm, YASL_STACK_OVERFLOW_ERROR);
+		}
 		inc_ref(&vm_peek(vm));
 		vm->loopframe_num++;
 		vm->loopframes[vm->loopframe_num].iter = 0;
diff --git a/interpreter/VM.h b/interpreter/VM.h
index cb34e44..284dcd7 100644
--- a/interpreter/VM.h
+++ b/interpreter/VM.h
@@ -16,6 +16,7 @@
 
 
 #define NUM_FRAMES 1000
+#define NUM_LOOPFRAMES STACK_SIZE
 #define NUM_TYPES 13                                     // number of builtin types, each needs a vtable
 #define SCRATCH_SIZE 1024								// scratchspace size (needs tuning)
 
@@ -99,7 +100,7 @@ struct VM {
 	struct YASL_Object *stack;     // stack
 	struct CallFrame frames[NUM_FRAMES];
 	int frame_num;
-	struct LoopFrame loopframes[16];
+	struct LoopFrame loopframes[NUM_LOOPFRAMES];
 	int loopframe_num;
 	struct YASL_Object *constants;
 	int64_t num_constants;
-- 
2.43.0


From dcc1f5654f3fa3b15e44e440abdf41b38b0a4caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:36 +0000
Subject: [PATCH 13/83] fix: captured variables were not kept in stack order,
 so some were never closed

---
 interpreter/VM.c | 33 +++++++++++----------------------
 1 file changed, 11 insertions(+), 22 deletions(-)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index a609c2d..360d1fc 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -594,31 +594,20 @@ void vm_stringify_top(struct VM *const vm) {
 	}
 }
 
+/* Pending upvalues are kept ordered from the top of the stack down, which is what closing them relies on. */
 static struct Upvalue *add_upvalue(struct VM *const vm, struct YASL_Object *const location) {
-	if (vm->pending == NULL) {
-		return (vm->pending = upval_new(location));
+	struct Upvalue **curr = &vm->pending;
+	while (*curr && (*curr)->location > location) {
+		curr = &(*curr)->next;
 	}
-
-	struct Upvalue *prev = NULL;
-	struct Upvalue *curr = vm->pending;
-	while (curr) {
-		if (curr->location > location) {
-			prev = curr;
-			curr = curr->next;
-			continue;
-		}
-		if (curr->location == location) {
-			return curr;
-		}
-		if (curr->location < location) {
-			struct Upvalue *upval = upval_new(location);
-			upval->next = curr->next;
-			curr->next = upval;
-			return upval;
-		}
-		return (curr->next = upval_new(location));
+	if (*curr && (*curr)->location == location) {
+		return *curr;
 	}
-	return (prev->next = upval_new(location));
+
+	struct Upvalue *upval = upval_new(location);
+	upval->next = *curr;
+	*curr = upval;
+	return upval;
 }
 
 static void vm_CCONST(struct VM *const vm) {
-- 
2.43.0


From 6d9da04065669cdea88c8c87f14a0fa524710520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:46 +0000
Subject: [PATCH 14/83] fix: dropping a closure while its captured variables
 were in scope released them early

---
 interpreter/VM.c | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index 360d1fc..b843451 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -73,11 +73,12 @@ void vm_init(struct VM *const vm,
 	vm->pending = NULL;
 }
 
+static void vm_close_from(struct VM *const vm, struct YASL_Object *const end);
 void vm_close_all(struct VM *const vm);
 
 void vm_cleanup(struct VM *const vm) {
 	// If we've exited early somehow, without closing over some upvalues, we need to do that first.
-	vm_close_all(vm);
+	vm_close_from(vm, vm->stack);
 
 	// Exit out of all loops (in case we're exiting with an error).
 	while (vm->loopframe_num >= 0) {
@@ -605,6 +606,7 @@ static struct Upvalue *add_upvalue(struct VM *const vm, struct YASL_Object *cons
 	}
 
 	struct Upvalue *upval = upval_new(location);
+	upval->rc.refs++;    // as long as it's pending, it must not go away, even if there are no closures left using it.
 	upval->next = *curr;
 	*curr = upval;
 	return upval;
@@ -1302,16 +1304,22 @@ static void vm_RET(struct VM *const vm) {
 	vm_exitframe_multi(vm, len);
 }
 
-static struct Upvalue *vm_close_all_helper(struct YASL_Object *const end, struct Upvalue *const curr) {
-	if (curr == NULL) return NULL;
-	if (curr->location < end) return curr;
-	inc_ref(curr->location);
-	upval_close(curr);
-	return (vm_close_all_helper(end, curr->next));
+/* Close every pending upvalue which refers to `end`, or to anything above it on the stack. */
+static void vm_close_from(struct VM *const vm, struct YASL_Object *const end) {
+	while (vm->pending && vm->pending->location >= end) {
+		struct Upvalue *upval = vm->pending;
+		vm->pending = upval->next;
+		if (--upval->rc.refs == 0) {
+			free(upval);
+		} else {
+			inc_ref(upval->location);
+			upval_close(upval);
+		}
+	}
 }
 
 void vm_close_all(struct VM *const vm) {
-	vm->pending = vm_close_all_helper(vm->stack + vm->fp, vm->pending);
+	vm_close_from(vm, vm->stack + vm->fp);
 }
 
 static void vm_ECHO(struct VM *const vm) {
-- 
2.43.0


From 3371aff3465b3f06814991cdaa098b1ad2a63dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:11 +0000
Subject: [PATCH 15/83] fix: recursive top level functions were never released

---
 interpreter/VM.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index b843451..7266956 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -77,9 +77,6 @@ static void vm_close_from(struct VM *const vm, struct YASL_Object *const end);
 void vm_close_all(struct VM *const vm);
 
 void vm_cleanup(struct VM *const vm) {
-	// If we've exited early somehow, without closing over some upvalues, we need to do that first.
-	vm_close_from(vm, vm->stack);
-
 	// Exit out of all loops (in case we're exiting with an error).
 	while (vm->loopframe_num >= 0) {
 		dec_ref(&vm->loopframes[vm->loopframe_num].iterable);
@@ -122,6 +119,14 @@ void vm_cleanup(struct VM *const vm) {
 	dec_ref(&v);
 	free(vm->builtins_htable);
 
+	// All closures are gone by now, so no one is left to use the upvalues that were never closed. Closing them before
+	// would have made every recursive top level function a cycle.
+	while (vm->pending) {
+		struct Upvalue *upval = vm->pending;
+		vm->pending = upval->next;
+		if (--upval->rc.refs == 0) free(upval);
+	}
+
 	io_cleanup(&vm->out);
 	io_cleanup(&vm->err);
 }
-- 
2.43.0


From 7e16133df41a45aac659a0b6594a518d3926da3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:11 +0000
Subject: [PATCH 16/83] fix: closures over variables of a block or
 comprehension used their stack slot after they went out of scope

---
 interpreter/VM.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index 7266956..e94291b 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -1560,6 +1560,7 @@ void vm_executenext(struct VM *const vm) {
 		break;
 	case O_ENDCOMP:
 		a = vm_pop(vm);
+		vm_close_from(vm, &vm_peek(vm));
 		vm_pop(vm);
 		vm_push(vm, a);
 		dec_ref(&vm->loopframes[vm->loopframe_num].iterable);
@@ -1639,12 +1640,10 @@ void vm_executenext(struct VM *const vm) {
 		vm_CALL(vm);
 		break;
 	case O_CRET:
+	case O_RET:       // a return may come before the first use of a variable in a closure, so it may need to close too.
 		vm_close_all(vm);
 		vm_RET(vm);
 		break;
-	case O_RET:
-		vm_RET(vm);
-		break;
 	case O_GET:
 		vm_GET(vm);
 		break;
@@ -1654,7 +1653,8 @@ void vm_executenext(struct VM *const vm) {
 	case O_SET:
 		vm_SET(vm);
 		break;
-	case O_POP:
+	case O_POP:       // might be a local variable going out of scope.
+		vm_close_from(vm, &vm_peek(vm));
 		vm_pop(vm);
 		break;
 	case O_DEL_FP:
-- 
2.43.0


From ca61dac19793baf9ce1e831b80f9c600e394129d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:15 +0000
Subject: [PATCH 17/83] fix: a call used as an argument, or inside an
 expression, took the number of results expected of the outer call

---
 compiler/compiler.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/compiler/compiler.c b/compiler/compiler.c
index cafdebe..e596a32 100644
--- a/compiler/compiler.c
+++ b/compiler/compiler.c
@@ -431,33 +431,41 @@ static void visit_FnDecl(struct Compiler *const compiler, const struct Node *con
 }
 
 static void visit_VariadicContext(struct Compiler *const compiler, const struct Node *const node) {
+	const struct Node *const expr = node->children[0];
 	int old_returns = compiler->expected_returns;
-	compiler->expected_returns = node->value.ival;
-	visit(compiler, node->children[0]);
+	// Only a call has a variable number of values, anything else has exactly one, as do the calls inside of it.
+	if (expr->nodetype == N_CALL || expr->nodetype == N_MCALL) compiler->expected_returns = node->value.ival;
+	visit(compiler, expr);
 	compiler->expected_returns = old_returns;
 }
 
 static void visit_Call(struct Compiler *const compiler, const struct Node *const node) {
+	const int expected_returns = compiler->expected_returns;
+	compiler->expected_returns = 1;
 	visit(compiler, Call_get_object(node));
 	compiler_add_byte(compiler, O_INIT_CALL);
-	compiler_add_byte(compiler, (unsigned char)compiler->expected_returns);
+	compiler_add_byte(compiler, (unsigned char)expected_returns);
 	visit_Body(compiler, Call_get_params(node));
 	compiler_add_byte(compiler, O_CALL);
+	compiler->expected_returns = expected_returns;
 }
 
 static void visit_MethodCall(struct Compiler *const compiler, const struct Node *const node) {
 	char *str = MethodCall_get_name(node);
 	size_t len = strlen(str);
+	const int expected_returns = compiler->expected_returns;
+	compiler->expected_returns = 1;
 	visit(compiler, MethodCall_get_object(node));
 
 	yasl_int index = compiler_intern_string(compiler, str, len);
 
 	compiler_add_byte(compiler, O_INIT_MC);
-	compiler_add_byte(compiler, (unsigned char)compiler->expected_returns);
+	compiler_add_byte(compiler, (unsigned char)expected_returns);
 	compiler_add_int(compiler, index);
 
 	visit_Body(compiler, MethodCall_get_params(node));
 	compiler_add_byte(compiler, O_CALL);
+	compiler->expected_returns = expected_returns;
 }
 
 static void visit_Return(struct Compiler *const compiler, const struct Node *const node) {
-- 
2.43.0


From 10ac68e2e7c8ed5d4d8d0128f793233dd8278a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:23 +0000
Subject: [PATCH 18/83] fix: break and continue left the locals of the loop's
 body on the stack, and could jump out of a function

---
 compiler/compiler.c | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/compiler/compiler.c b/compiler/compiler.c
index e596a32..7960dd8 100644
--- a/compiler/compiler.c
+++ b/compiler/compiler.c
@@ -29,8 +29,11 @@ YASL_FORMAT_CHECK static void compiler_print_err(struct Compiler *compiler, cons
 #define compiler_print_err_const(compiler, name, line) \
 	compiler_print_err_syntax((compiler), "Cannot assign to constant %s (line %" PRI_SIZET ").\n", name, line)
 
+// Each loop has 3 checkpoints: number of locals outside of its body, where to continue, and where to break.
 #define break_checkpoint(compiler)    ((compiler)->checkpoints.items[(compiler)->checkpoints.count-1])
 #define continue_checkpoint(compiler) ((compiler)->checkpoints.items[(compiler)->checkpoints.count-2])
+#define NOT_IN_LOOP                   ((size_t)-1)
+#define locals_checkpoint(compiler)   ((compiler)->checkpoints.items[(compiler)->checkpoints.count-3])
 
 
 void compiler_tables_del(struct Compiler *compiler) {
@@ -381,6 +384,7 @@ static void visit_FnDecl(struct Compiler *const compiler, const struct Node *con
 	compiler->params = env_new(compiler->params);
 
 	enter_scope(compiler);
+	add_checkpoint(compiler, NOT_IN_LOOP);    // loops around a function are not loops inside of it.
 
 	FOR_CHILDREN(i, child, FnDecl_get_params(node)) {
 		decl_var(compiler, Decl_get_name(child), child->line);
@@ -403,6 +407,7 @@ static void visit_FnDecl(struct Compiler *const compiler, const struct Node *con
 	//compiler_add_byte(compiler, (unsigned char)1);
 	compiler_add_byte(compiler, (unsigned char)scope_len(get_scope_in_use(compiler)));
 
+	rm_checkpoint(compiler);
 	exit_scope(compiler);
 
 	size_t new_size = compiler->buffer->count;
@@ -610,6 +615,8 @@ static void visit_ForIter(struct Compiler *const compiler, const struct Node *co
 	compiler_add_byte(compiler, O_END);
 	decl_var(compiler, name, iter->line);
 
+	add_checkpoint(compiler, scope_len(get_scope_in_use(compiler)));
+
 	size_t index_start = compiler->buffer->count;
 	add_checkpoint(compiler, index_start);
 
@@ -633,6 +640,7 @@ static void visit_ForIter(struct Compiler *const compiler, const struct Node *co
 
 	rm_checkpoint(compiler);
 	rm_checkpoint(compiler);
+	rm_checkpoint(compiler);
 }
 
 static void enter_jump(struct Compiler *const compiler, size_t *index) {
@@ -692,6 +700,7 @@ static void visit_While(struct Compiler *const compiler, const struct Node *cons
 		exit_jump(compiler, &index);
 	}
 
+	add_checkpoint(compiler, scope_len(get_scope_in_use(compiler)));
 	add_checkpoint(compiler, index_start);
 
 	visit(compiler, cond);
@@ -709,24 +718,38 @@ static void visit_While(struct Compiler *const compiler, const struct Node *cons
 
 	rm_checkpoint(compiler);
 	rm_checkpoint(compiler);
+	rm_checkpoint(compiler);
+}
+
+// Break and continue leave all scopes inside of the loop's body.
+static void pop_locals_in_loop(struct Compiler *const compiler) {
+	for (size_t i = scope_len(get_scope_in_use(compiler)); i > locals_checkpoint(compiler); i--) {
+		compiler_add_byte(compiler, O_POP);
+	}
+}
+
+static bool in_loop(const struct Compiler *const compiler) {
+	return compiler->checkpoints.count > 0 && compiler->checkpoints.items[compiler->checkpoints.count - 1] != NOT_IN_LOOP;
 }
 
 static void visit_Break(struct Compiler *const compiler, const struct Node *const node) {
-	if (compiler->checkpoints.count == 0) {
+	if (!in_loop(compiler)) {
 		compiler_print_err_syntax(compiler, "`break` outside of loop (line %" PRI_SIZET ").\n", node->line);
 		handle_error(compiler);
 		return;
 	}
+	pop_locals_in_loop(compiler);
 	compiler_add_byte(compiler, O_BCONST_F);
 	branch_back(compiler, break_checkpoint(compiler));
 }
 
 static void visit_Continue(struct Compiler *const compiler, const struct Node *const node) {
-	if (compiler->checkpoints.count == 0) {
+	if (!in_loop(compiler)) {
 		compiler_print_err_syntax(compiler, "`continue` outside of loop (line %" PRI_SIZET ").\n", node->line);
 		handle_error(compiler);
 		return;
 	}
+	pop_locals_in_loop(compiler);
 	branch_back(compiler, continue_checkpoint(compiler));
 }
 
-- 
2.43.0


From 50b5c217821ab1bfc5eac339531629344ac55cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:13 +0000
Subject: [PATCH 19/83] fix: match left values on the stack if no arm matched,
 and lost what it matches on if a guard failed

---
 compiler/compiler.c | 28 +++++++++++++++++++++++-----
 interpreter/VM.c    |  1 +
 2 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/compiler/compiler.c b/compiler/compiler.c
index 7960dd8..720b2d5 100644
--- a/compiler/compiler.c
+++ b/compiler/compiler.c
@@ -982,6 +982,10 @@ static void visit_TableTypePattern(struct Compiler *const compiler, const struct
 	compiler_add_byte(compiler, P_TYPE_TABLE);
 }
 
+static bool at_end_of_program(const struct Compiler *const compiler) {
+	return !in_function(compiler) && compiler->stack && !compiler->stack->parent && peof(&compiler->parser);
+}
+
 static void visit_Match_helper(struct Compiler *const compiler, const struct Node *const patterns, const struct Node *const guards, const struct Node *const bodies, size_t curr) {
 	compiler_add_byte(compiler, O_MATCH);
 	size_t start = compiler->buffer->count;
@@ -1025,23 +1029,37 @@ static void visit_Match_helper(struct Compiler *const compiler, const struct Nod
 	exit_scope(compiler);
 
 	curr++;
+	const bool is_last = patterns->children_len <= curr;
+	// If nothing matches, what we were matching on is still on the stack. At the end of the program it can stay there.
+	const bool needs_pop = is_last && !at_end_of_program(compiler);
 	size_t body_end = 0;
-	if (patterns->children_len > curr) {
+	if (!is_last || needs_pop) {
 		enter_jump(compiler, &body_end);
 	}
 
 	if (guard) {
 		YASL_ByteBuffer_rewrite_int_fast(compiler->buffer, start_guard, compiler->buffer->count - start_guard - 8);
-		if (bindings) {
-			for (unsigned char i = bindings; i > 0; i--)
-			compiler_add_byte(compiler, O_POP);
+		if (!is_last && patterns->children[curr]->nodetype == N_PATANY && !guards->children[curr]) {
+			// Anything will do for the next pattern.
+			for (unsigned char i = bindings; i > 0; i--) {
+				compiler_add_byte(compiler, O_POP);
+			}
+		} else {
+			// Get rid of the bindings, which are below what we're matching on.
+			for (unsigned char i = bindings; i > 0; i--) {
+				compiler_add_byte(compiler, O_DEL_FP);
+				compiler_add_byte(compiler, (unsigned char) vars);
+			}
 		}
 	}
 	YASL_ByteBuffer_rewrite_int_fast(compiler->buffer, start, compiler->buffer->count - start - 8);
 
-	if (patterns->children_len > curr) {
+	if (!is_last) {
 		visit_Match_helper(compiler, patterns, guards, bodies, curr);
 		exit_jump(compiler, &body_end);
+	} else if (needs_pop) {
+		compiler_add_byte(compiler, O_POP);
+		exit_jump(compiler, &body_end);
 	}
 }
 
diff --git a/interpreter/VM.c b/interpreter/VM.c
index e94291b..94bd1a0 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -1659,6 +1659,7 @@ void vm_executenext(struct VM *const vm) {
 		break;
 	case O_DEL_FP:
 		c = NCODE(vm);
+		vm_close_from(vm, &vm_peek(vm, vm->fp + 1 + c));
 		vm_rm(vm, vm->fp + 1 + c);
 		break;
 	case O_DECSP:
-- 
2.43.0


From 7398a2a6dfd330fd4209146ef6e886126269419c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:38 +0000
Subject: [PATCH 20/83] fix: a table pattern whose key was missing did not skip
 the key's value pattern

---
 interpreter/VM.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index 94bd1a0..69e3330 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -999,7 +999,12 @@ static bool vm_MATCH_table_elements(struct VM *const vm, size_t len, struct YASL
 		default:
 			break;
 		}
-		if (val.type == Y_END || !(vm_MATCH_subpattern(vm, &val))) {
+		if (val.type == Y_END) {
+			vm_ff_subpattern(vm);
+			vm_ff_subpatterns_multiple(vm, 2 * (len - (i + 1)));
+			return false;
+		}
+		if (!vm_MATCH_subpattern(vm, &val)) {
 			vm_ff_subpatterns_multiple(vm, 2 * (len - (i + 1)));
 			return false;
 		}
-- 
2.43.0


From 3ad3a92eedd6823dbbc0cfd18359db8082f5af4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:59 +0000
Subject: [PATCH 21/83] fix: locals and captured variables beyond the 128th
 were looked up at a negative offset

---
 interpreter/VM.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index 69e3330..6678fea 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -1395,7 +1395,7 @@ void vm_setupconstants(struct VM *const vm) {
 
 void vm_executenext(struct VM *const vm) {
 	unsigned char opcode = NCODE(vm);        // fetch
-	signed char offset;
+	unsigned char offset;
 	struct YASL_Object a, b;
 	yasl_int c;
 	YASL_VM_DEBUG_LOG("----------------"
-- 
2.43.0


From 24cb772493fbbb97930192f0f635150518dddb33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:55 +0000
Subject: [PATCH 22/83] fix: closures over locals beyond the 128th took them
 for variables of the enclosing closure

---
 compiler/compiler.c | 19 +++++++++++++------
 interpreter/VM.c    | 13 ++++++++-----
 opcode.h            |  1 +
 3 files changed, 22 insertions(+), 11 deletions(-)

diff --git a/compiler/compiler.c b/compiler/compiler.c
index 720b2d5..4fd210a 100644
--- a/compiler/compiler.c
+++ b/compiler/compiler.c
@@ -414,18 +414,25 @@ static void visit_FnDecl(struct Compiler *const compiler, const struct Node *con
 	YASL_ByteBuffer_rewrite_int_fast(compiler->buffer, old_size - sizeof(yasl_int), new_size - old_size);
 
 	if (compiler->params->isclosure) {
-		compiler->buffer->bytes[old_size - sizeof(yasl_int) - 1] = O_CCONST;
 		const size_t count = compiler->params->upval_indices.count;
+		bool is_wide = false;
+		FOR_TABLE(i, item, &compiler->params->upval_values) {
+			const yasl_int value = item->value.value.ival;
+			if (value < -128 || value > 127) is_wide = true;
+		}
+		compiler->buffer->bytes[old_size - sizeof(yasl_int) - 1] = is_wide ? O_CCONST_8 : O_CCONST;
 		compiler_add_byte(compiler, (unsigned char) count);
 		const size_t start = compiler->buffer->count;
 		// TODO what's below is wrong. We need to get the right value for the upvals.
 		for (size_t i = 0; i < count; i++) {
-			compiler_add_byte(compiler, 0);
+			if (is_wide) compiler_add_int(compiler, 0);
+			else compiler_add_byte(compiler, 0);
 		}
-		FOR_TABLE(i, item, &compiler->params->upval_indices) {
-			int64_t index = item->value.value.ival;
-			int64_t value = YASL_Table_search(&compiler->params->upval_values, item->key).value.ival;
-			compiler->buffer->bytes[start + index] = value;
+		FOR_TABLE(j, item2, &compiler->params->upval_indices) {
+			int64_t index = item2->value.value.ival;
+			int64_t value = YASL_Table_search(&compiler->params->upval_values, item2->key).value.ival;
+			if (is_wide) YASL_ByteBuffer_rewrite_int_fast(compiler->buffer, start + index * sizeof(yasl_int), value);
+			else compiler->buffer->bytes[start + index] = value;
 		}
 	}
 
diff --git a/interpreter/VM.c b/interpreter/VM.c
index 6678fea..ea1e8e7 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -617,7 +617,7 @@ static struct Upvalue *add_upvalue(struct VM *const vm, struct YASL_Object *cons
 	return upval;
 }
 
-static void vm_CCONST(struct VM *const vm) {
+static void vm_CCONST(struct VM *const vm, const bool is_wide) {
 	yasl_int len = vm_read_int(vm);
 	unsigned char *start = vm->pc;
 	vm->pc += len;
@@ -629,11 +629,11 @@ static void vm_CCONST(struct VM *const vm) {
 	closure->rc = NEW_RC();
 
 	for (size_t i = 0; i < num_upvalues; i++) {
-		unsigned char u = NCODE(vm);
-		if ((signed char)u >= 0) {
+		const yasl_int u = is_wide ? vm_read_int(vm) : (signed char)NCODE(vm);
+		if (u >= 0) {
 			closure->upvalues[i] = add_upvalue(vm, &vm_peek(vm, vm->fp + 1 + u));
 		} else {
-			closure->upvalues[i] = vm->stack[vm->fp].value.lval->upvalues[~(signed char)u];
+			closure->upvalues[i] = vm->stack[vm->fp].value.lval->upvalues[~u];
 		}
 		closure->upvalues[i]->rc.refs++;
 	}
@@ -1420,7 +1420,10 @@ void vm_executenext(struct VM *const vm) {
 		vm->pc += c;
 		break;
 	case O_CCONST:
-		vm_CCONST(vm);
+		vm_CCONST(vm, false);
+		break;
+	case O_CCONST_8:
+		vm_CCONST(vm, true);
 		break;
 	case O_BOR:
 		vm_int_binop(vm, &bor, "|", OP_BIN_BAR);
diff --git a/opcode.h b/opcode.h
index 5666cbd..c792cb2 100644
--- a/opcode.h
+++ b/opcode.h
@@ -7,6 +7,7 @@ enum Opcode {
 	O_BCONST_T = 0x09, // push literal true onto stack
 	O_FCONST = 0x0A, // push function literal onto stack
 	O_CCONST = 0x0B, // push closure literal onto stack
+	O_CCONST_8 = 0x0C, // push closure literal onto stack (indices of captured variables are 8 bytes)
 
 	O_HALT = 0x0F, // halt
 
-- 
2.43.0


From 9cf6d77f77abf006483ab6414c1e1db84ae93377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:55 +0000
Subject: [PATCH 23/83] fix: string slices whose start is after their end
 copied memory outside of the string

---
 interpreter/VM.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index ea1e8e7..4a844c3 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -722,6 +722,9 @@ static void vm_SLICE_str(struct VM *const vm){
 		vm_throw_err(vm, YASL_TYPE_ERROR);
 	}
 
+	if (end < 0) end = 0;
+	if (start > end) start = end;
+
 	vm_pop(vm);
 	vm_pop(vm);
 
-- 
2.43.0


From 87fea3a679b8c19de598e5c597fcc9eb5bf2e4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:55 +0000
Subject: [PATCH 24/83] fix: slicing and iterating over a substring of a static
 string used the whole string

---
 interpreter/VM.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index 4a844c3..c118ce3 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -730,7 +730,7 @@ static void vm_SLICE_str(struct VM *const vm){
 
 	struct YASL_String *str = vm_popstr(vm);
 
-	vm_push(vm, YASL_STR(YASL_String_new_substring((size_t)start, (size_t)end, str)));
+	vm_push(vm, YASL_STR(YASL_String_new_substring(str->start + (size_t)start, str->start + (size_t)end, str)));
 }
 
 static void vm_SLICE(struct VM *const vm) {
@@ -929,7 +929,7 @@ static void vm_ITER_1(struct VM *const vm) {
 			vm_pushbool(vm, false);
 		} else {
 			size_t i = (size_t) frame->iter;
-			vm_pushstr(vm, YASL_String_new_substring(i, i + 1, str));
+			vm_pushstr(vm, YASL_String_new_substring(str->start + i, str->start + i + 1, str));
 			frame->iter++;
 			vm_pushbool(vm, true);
 		}
-- 
2.43.0


From 78dcbb0203fcd0cfd70bf725c71f0c764f1da7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:55 +0000
Subject: [PATCH 25/83] fix: str.split cut off the last piece if the separator
 is longer than 1

---
 data-structures/YASL_String.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data-structures/YASL_String.c b/data-structures/YASL_String.c
index e7f7f73..6ee98d9 100644
--- a/data-structures/YASL_String.c
+++ b/data-structures/YASL_String.c
@@ -449,7 +449,7 @@ void YASL_String_split_fast(struct YASL_List *data, struct YASL_String *haystack
 		}
 	}
 	struct YASL_Object to = YASL_STR(
-		YASL_String_new_substring(start + haystack->start, end + haystack->start, haystack));
+		YASL_String_new_substring(start + haystack->start, haystack->end, haystack));
 	YASL_List_append(data, to);
 }
 
-- 
2.43.0


From 370e5214d23ca20b8ff29ca938014df166b3f1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:55 +0000
Subject: [PATCH 26/83] fix: str.replace counted characters instead of
 replacements towards its maximum

---
 data-structures/YASL_String.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data-structures/YASL_String.c b/data-structures/YASL_String.c
index 6ee98d9..df2e577 100644
--- a/data-structures/YASL_String.c
+++ b/data-structures/YASL_String.c
@@ -387,10 +387,10 @@ struct YASL_String *YASL_String_replace_fast(struct YASL_String *str, struct YAS
 		if (search_len <= str_len - i && memcmp(str_ptr + i, search_str_ptr, search_len) == 0 && max > 0) {
 			YASL_ByteBuffer_extend(buff, replace_str_ptr, YASL_String_len(replace_str));
 			i += search_len;
+			max--;
 		} else {
 			YASL_ByteBuffer_add_byte(buff, str_ptr[i++]);
 		}
-		max--;
 	}
 
 	STR_REPLACE_END
-- 
2.43.0


From 46bf1fd5acdd0dde416e597ad01bd3421d50e452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:55 +0000
Subject: [PATCH 27/83] fix: str.count, str.trim, str.ltrim and str.rtrim never
 returned if given an empty str

---
 data-structures/YASL_String.c | 8 ++++----
 interpreter/str_methods.c     | 6 ++++++
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/data-structures/YASL_String.c b/data-structures/YASL_String.c
index df2e577..6102b92 100644
--- a/data-structures/YASL_String.c
+++ b/data-structures/YASL_String.c
@@ -472,7 +472,7 @@ struct YASL_String *YASL_String_ltrim(struct YASL_String *haystack, struct YASL_
 	const char *haystack_chars = YASL_String_chars(haystack);
 	const char *needle_chars = YASL_String_chars(needle);
 	int64_t start = 0;
-	while(haystack_len - start >= needle_len &&
+	while(needle_len > 0 && haystack_len - start >= needle_len &&
 	      !memcmp(haystack_chars + start, needle_chars, needle_len)) {
 		start += needle_len;
 	}
@@ -497,7 +497,7 @@ struct YASL_String *YASL_String_rtrim(struct YASL_String *haystack, struct YASL_
 	const char *haystack_chars = YASL_String_chars(haystack);
 	const char *needle_chars = YASL_String_chars(needle);
 	size_t end = YASL_String_len(haystack);
-	while (end >= needle_len &&
+	while (needle_len > 0 && end >= needle_len &&
 	       !memcmp(haystack_chars + end - needle_len, needle_chars, needle_len)) {
 		end -= needle_len;
 	}
@@ -527,13 +527,13 @@ struct YASL_String *YASL_String_trim(struct YASL_String *haystack, struct YASL_S
 	const char *haystack_chars = YASL_String_chars(haystack);
 	const char *needle_chars = YASL_String_chars(needle);
 	int64_t start = 0;
-	while (haystack_len - start >= needle_len &&
+	while (needle_len > 0 && haystack_len - start >= needle_len &&
 	       !memcmp(haystack_chars + start, needle_chars, needle_len)) {
 		start += needle_len;
 	}
 
 	size_t end = haystack_len;
-	while (end >= needle_len &&
+	while (needle_len > 0 && end >= needle_len &&
 	       !memcmp(haystack_chars + end - needle_len, needle_chars, needle_len)) {
 		end -= needle_len;
 	}
diff --git a/interpreter/str_methods.c b/interpreter/str_methods.c
index f5fc41f..3f31f8f 100644
--- a/interpreter/str_methods.c
+++ b/interpreter/str_methods.c
@@ -175,6 +175,12 @@ int str_search(struct YASL_State *S) {
 int str_count(struct YASL_State *S) {
 	struct YASL_String *needle = YASLX_checknstr(S, "str.count", 1);
 	struct YASL_String *haystack = YASLX_checknstr(S, "str.count", 0);
+
+	if (YASL_String_len(needle) == 0) {
+		vm_print_err((struct VM *)S, "ValueError: %s expected a nonempty str as arg 1.", "str.count");
+		YASL_throw_err(S, YASL_VALUE_ERROR);
+	}
+
 	YASL_pushint(S, YASL_String_count(haystack, needle));
 	return 1;
 }
-- 
2.43.0


From dc97a57366f42c68c0a9fb00f16e78b379f237ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:55 +0000
Subject: [PATCH 28/83] fix: str.tofloat gave nan for everything with a sign,
 and read past the end of the empty str

---
 data-structures/YASL_String.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/data-structures/YASL_String.c b/data-structures/YASL_String.c
index 6102b92..6425265 100644
--- a/data-structures/YASL_String.c
+++ b/data-structures/YASL_String.c
@@ -185,11 +185,11 @@ static yasl_int parseint64(const char *str, bool *ok) {
 yasl_float YASL_String_tofloat(struct YASL_String *str) {
 	const size_t length = YASL_String_len(str);
 	const char *chars = YASL_String_chars(str);
-	char *buffer = (char *)malloc(length + 1);
-	if (!isdigit((int)chars[0])) {
-		free(buffer);
+	const size_t sign = length > 0 && (chars[0] == '-' || chars[0] == '+');
+	if (length == sign || (!isdigit((unsigned char)chars[sign]) && chars[sign] != 'i')) {
 		return NAN;
 	}
+	char *buffer = (char *)malloc(length + 1);
 	size_t curr = 0;
 	for (size_t i = 0; i < length; ++i) {
 		if (chars[i] == '_' && chars[i-1] != '.') {
-- 
2.43.0


From ad3cd88f67d4c5ddfaa49d1fdc7b6d587ca647e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:55 +0000
Subject: [PATCH 29/83] fix: folding made ints identical to floats, and nan
 truthy

---
 compiler/middleend.c | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/compiler/middleend.c b/compiler/middleend.c
index c18e358..cfd5c01 100644
--- a/compiler/middleend.c
+++ b/compiler/middleend.c
@@ -172,11 +172,9 @@ static void fold_BinOp(struct Node *const node) {
 	} else if (left->nodetype == N_FLOAT && right->nodetype == N_FLOAT) {
 		switch (node->value.type) {
 		case T_DEQ:
-		case T_TEQ:
 			FOLD_BINOP_FLOAT_FLOAT(left, right, ==, bool);
 			break;
 		case T_BANGEQ:
-		case T_BANGDEQ:
 			FOLD_BINOP_FLOAT_FLOAT(left, right, !=, bool);
 			break;
 		case T_GT:
@@ -214,11 +212,9 @@ static void fold_BinOp(struct Node *const node) {
 	} else if (left->nodetype == N_FLOAT && right->nodetype == N_INT) {
 		switch (node->value.type) {
 		case T_DEQ:
-		case T_TEQ:
 			FOLD_BINOP_FLOAT_INT(left, right, ==, bool);
 			break;
 		case T_BANGEQ:
-		case T_BANGDEQ:
 			FOLD_BINOP_FLOAT_INT(left, right, !=, bool);
 			break;
 		case T_GT:
@@ -256,11 +252,9 @@ static void fold_BinOp(struct Node *const node) {
 	} else if (left->nodetype == N_INT && right->nodetype == N_FLOAT) {
 		switch (node->value.type) {
 		case T_DEQ:
-		case T_TEQ:
 			FOLD_BINOP_INT_FLOAT(left, right, ==, bool);
 			break;
 		case T_BANGEQ:
-		case T_BANGDEQ:
 			FOLD_BINOP_INT_FLOAT(left, right, !=, bool);
 			break;
 		case T_GT:
@@ -338,7 +332,7 @@ void fold_UnOp(struct Node *const node) {
 			make_float(node, -expr->value.dval);
 			break;
 		case T_BANG:
-			make_bool(node, 0);  // NOTE: safe because we don't have NaN literals
+			make_bool(node, expr->value.dval != expr->value.dval);  // NaN is falsey
 			break;
 		default:
 			break;
-- 
2.43.0


From c02d029789da5ddc5eeff207dc241b68a34f5ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:30 +0000
Subject: [PATCH 30/83] fix: comprehensions in the middle of an expression
 overwrote its temporary values

---
 compiler/compiler.c | 59 +++++++++++++++++++++++++++++++++++++++------
 compiler/compiler.h |  2 ++
 2 files changed, 54 insertions(+), 7 deletions(-)

diff --git a/compiler/compiler.c b/compiler/compiler.c
index 4fd210a..fdff6f9 100644
--- a/compiler/compiler.c
+++ b/compiler/compiler.c
@@ -358,6 +358,12 @@ unsigned char *compile_REPL(struct Compiler *const compiler) {
 	return return_bytes(compiler);
 }
 
+// For expressions that are evaluated with nothing but locals on the stack, not in the middle of another expression.
+static void visit_on_empty_stack(struct Compiler *const compiler, const struct Node *const expr) {
+	compiler->bottom_expr = expr->nodetype == N_VARCONT ? expr->children[0] : expr;
+	visit(compiler, expr);
+}
+
 static void visit_ExprStmt(struct Compiler *const compiler, const struct Node *const node) {
 	const struct Node *const expr = ExprStmt_get_expr(node);
 	switch (expr->nodetype) {
@@ -371,7 +377,7 @@ static void visit_ExprStmt(struct Compiler *const compiler, const struct Node *c
 		validate(compiler, expr);
 		return;
 	default:
-		visit(compiler, expr);
+		visit_on_empty_stack(compiler, expr);
 		if (expr->nodetype == N_ASSIGN || expr->nodetype == N_SET) {
 			return;
 		} else {
@@ -486,7 +492,7 @@ static void visit_Return(struct Compiler *const compiler, const struct Node *con
 		handle_error(compiler);
 		return;
 	}
-	visit(compiler, Return_get_expr(node));
+	visit_on_empty_stack(compiler, Return_get_expr(node));
 	compiler_add_byte(compiler, compiler->params->usedinclosure ? O_CRET : O_RET);
 	compiler_add_byte(compiler, (unsigned char)scope_len(get_scope_in_use(compiler)));
 }
@@ -558,7 +564,45 @@ static void visit_Comp_cond(struct Compiler *const compiler, const struct Node *
 	}
 }
 
+static char *copy_name(const char *const name) {
+	char *copy = (char *)malloc(strlen(name) + 1);
+	strcpy(copy, name);
+	return copy;
+}
+
+// The variable of a comprehension is a local, so it must not be above any temporary values on the stack. In the middle
+// of an expression, `[expr for x <- coll]` is compiled as `(fn(const coll) { return [expr for x <- coll]; })(coll)`.
+static void visit_nested_Comp(struct Compiler *const compiler, const struct Node *const node) {
+	struct Parser *parser = &compiler->parser;
+	const struct Node *const iter = Comp_get_iter(node);
+	const size_t line = node->line;
+
+	struct Node *params = new_Body(parser, line);
+	struct Node *body = new_Body(parser, line);
+	struct Node *args = new_Body(parser, line);
+	body_append(parser, &params, new_Const(parser, NULL, copy_name("(collection)"), line));
+
+	const struct Node *const inner_iter = new_LetIter(parser, new_Var(parser, copy_name("(collection)"), iter->line),
+							  copy_name(iter->value.sval.str), iter->line);
+	const struct Node *const comp = node->nodetype == N_LISTCOMP ?
+		new_ListComp(parser, Comp_get_expr(node), inner_iter, Comp_get_cond(node), line) :
+		new_TableComp(parser, Comp_get_expr(node), inner_iter, Comp_get_cond(node), line);
+	body_append(parser, &body, new_Return(parser, comp, line));
+
+	body_append(parser, &args, LetIter_get_collection(iter));
+
+	const int expected_returns = compiler->expected_returns;
+	compiler->expected_returns = 1;
+	visit(compiler, new_Call(parser, args, new_FnDecl(parser, params, body, NULL, 0, line), line));
+	compiler->expected_returns = expected_returns;
+}
+
 static void visit_Comp(struct Compiler *const compiler, const struct Node *const node, unsigned char byte) {
+	if (node != compiler->bottom_expr) {
+		visit_nested_Comp(compiler, node);
+		return;
+	}
+
 	enter_scope(compiler);
 
 	struct Node *expr = Comp_get_expr(node);
@@ -569,7 +613,7 @@ static void visit_Comp(struct Compiler *const compiler, const struct Node *const
 
 	char *name = iter->value.sval.str;
 
-	visit(compiler, collection);
+	visit_on_empty_stack(compiler, collection);
 
 	compiler_add_byte(compiler, O_INITFOR);
 	compiler_add_byte(compiler, O_END);
@@ -616,7 +660,7 @@ static void visit_ForIter(struct Compiler *const compiler, const struct Node *co
 	struct Node *collection = LetIter_get_collection(iter);
 	char *name = iter->value.sval.str;
 
-	visit(compiler, collection);
+	visit_on_empty_stack(compiler, collection);
 
 	compiler_add_byte(compiler, O_INITFOR);
 	compiler_add_byte(compiler, O_END);
@@ -1131,7 +1175,7 @@ static void visit_If(struct Compiler *const compiler, const struct Node *const n
 }
 
 static void visit_Echo(struct Compiler *const compiler, const struct Node *const node) {
-	visit(compiler, Echo_get_expr(node));
+	visit_on_empty_stack(compiler, Echo_get_expr(node));
 	compiler_add_byte(compiler, O_ECHO);
 	compiler_add_byte(compiler, (char)scope_len(get_scope_in_use(compiler)));
 }
@@ -1151,7 +1195,7 @@ static void declare_with_let_or_const(struct Compiler *const compiler, const str
 		decl_var(compiler, name, node->line);
 		visit(compiler, expr);
 	} else {
-		if (expr) visit(compiler, expr);
+		if (expr) visit_on_empty_stack(compiler, expr);
 		else compiler_add_byte(compiler, O_NCONST);
 
 		decl_var(compiler, name, node->line);
@@ -1364,7 +1408,8 @@ static void visit_Assign(struct Compiler *const compiler, const struct Node *con
 		handle_error(compiler);
 		return;
 	}
-	visit(compiler, Assign_get_expr(node));
+	if (node == compiler->bottom_expr) visit_on_empty_stack(compiler, Assign_get_expr(node));
+	else visit(compiler, Assign_get_expr(node));
 	store_var(compiler, name, node->line);
 }
 
diff --git a/compiler/compiler.h b/compiler/compiler.h
index d2dbd91..abe1f9a 100644
--- a/compiler/compiler.h
+++ b/compiler/compiler.h
@@ -22,6 +22,7 @@
 	.stack = NULL,\
 	.params = NULL,\
 	.expected_returns = 1,\
+	.bottom_expr = NULL,\
 	.leftmost_pattern = true,\
 	.seen_bindings = NEW_TABLE(),\
 	.strings = YASL_Table_new(),\
@@ -47,6 +48,7 @@ struct Compiler {
 	struct Scope *stack;
 	struct Env *params;
 	int expected_returns;
+	const struct Node *bottom_expr;    // evaluated with nothing but locals on the stack
 	bool leftmost_pattern;
 	struct YASL_Table seen_bindings;
 	struct YASL_Table *strings;
-- 
2.43.0


From 7891ba6cd7875352d32a4782459618d8c7ccfcff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:43 +0000
Subject: [PATCH 31/83] fix: statements starting with a function literal left
 their value on the stack

---
 compiler/parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/parser.c b/compiler/parser.c
index f9427a1..956cf9a 100644
--- a/compiler/parser.c
+++ b/compiler/parser.c
@@ -255,7 +255,7 @@ static struct Node *parse_program(struct Parser *const parser) {
 		return new_Echo(parser, parse_expr(parser), line);
 	case T_FN:
 		if (isfndecl(parser)) return parse_fn(parser);
-		else return parse_expr(parser);
+		else return parse_assign_or_exprstmt(parser);
 	case T_RET:
 		return parse_return(parser);
 	case T_EXPORT:
-- 
2.43.0


From 2c45811dfec590f10eeeebe6b5d8fd58a00025fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:14 +0000
Subject: [PATCH 32/83] fix: multiple assignments took a value too many, or too
 few if the first target is an element

---
 compiler/parser.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/compiler/parser.c b/compiler/parser.c
index 956cf9a..a2875f2 100644
--- a/compiler/parser.c
+++ b/compiler/parser.c
@@ -196,7 +196,7 @@ struct Node *parse_assign_or_exprstmt(struct Parser *const parser) {
 		struct Node *set = new_Set(parser, Get_get_collection(expr), Get_get_value(expr), NULL, line);
 		body_append(parser, &buffer, set);
 
-		return parse_decl_helper(parser, buffer, 0);
+		return parse_decl_helper(parser, buffer, 1);
 
 	}
 
@@ -433,7 +433,7 @@ static struct Node *parse_var_pack(struct Parser *const parser, int expected) {
 	int j = 0;
 	do {
 		body_append(parser, &rvals, parse_expr(parser));
-	} while (j++ < expected && matcheattok(parser, T_COMMA));
+	} while (++j < expected && matcheattok(parser, T_COMMA));
 
 	struct Node *last = body_last(rvals);
 	if (last && !will_var_expand(last)) {
-- 
2.43.0


From 8249408869e60dad0710bcadf5cb6a9dd538c731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:38 +0000
Subject: [PATCH 33/83] fix: errors in conditional expressions and member
 accesses ending a line were reported one line too low

---
 compiler/parser.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/compiler/parser.c b/compiler/parser.c
index a2875f2..e67105d 100644
--- a/compiler/parser.c
+++ b/compiler/parser.c
@@ -438,7 +438,7 @@ static struct Node *parse_var_pack(struct Parser *const parser, int expected) {
 	struct Node *last = body_last(rvals);
 	if (last && !will_var_expand(last)) {
 		while (j++ < expected) {
-			body_append(parser, &rvals, new_Undef(parser, parserline(parser)));
+			body_append(parser, &rvals, new_Undef(parser, rvals->line));
 		}
 	} else {
 		rvals->children[rvals->children_len - 1] = new_VariadicContext(parser, last, expected - j + 1, last ? last->line : 0);
@@ -823,12 +823,13 @@ static struct Node *parse_assign(struct Parser *const parser, struct Node *cur_n
 
 static struct Node *parse_ternary(struct Parser *const parser) {
 	YASL_PARSE_DEBUG_LOG("parsing ?: in line %" PRI_SIZET "\n", parserline(parser));
+	size_t line = parserline(parser);
 	struct Node *cur_node = parse_undef_or(parser);
 	if (matcheattok(parser, T_QMARK)) {
 		struct Node *left = parse_ternary(parser);
 		eattok(parser, T_COLON);
 		struct Node *right = parse_ternary(parser);
-		return new_TriOp(parser, T_QMARK, cur_node, left, right, parserline(parser));
+		return new_TriOp(parser, T_QMARK, cur_node, left, right, line);
 	}
 	return cur_node;
 }
@@ -921,13 +922,14 @@ static struct Node *parse_call(struct Parser *const parser) {
 				body->children[body->children_len - 1] = new_VariadicContext(parser, last, -1, last->line);
 			}
 		} else if (matcheattok(parser, T_DOT)) {
+			size_t line = parserline(parser);
 			struct Node *right = parse_constant(parser);
 			if (right->nodetype == N_CALL) {
 				cur_node = new_Set(parser, cur_node, Call_get_params(right)->children[0],
 						   Call_get_params(right)->children[1], parserline(parser));
 			} else if (right->nodetype == N_VAR) {
 				right->nodetype = N_STR;
-				cur_node = new_Get(parser, cur_node, right, parserline(parser));
+				cur_node = new_Get(parser, cur_node, right, line);
 			} else {
 				parser_print_err_syntax(parser, "Invalid member access (line %" PRI_SIZET ").\n", parserline(parser));
 				handle_error(parser);
-- 
2.43.0


From 5e46883a6d4de6570b7b83f8b4e5af0370936956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:03 +0000
Subject: [PATCH 34/83] fix: break and continue in a loop that never runs were
 taken to be outside of a loop

---
 compiler/compiler.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/compiler/compiler.c b/compiler/compiler.c
index fdff6f9..9e7d43d 100644
--- a/compiler/compiler.c
+++ b/compiler/compiler.c
@@ -727,7 +727,13 @@ static bool Node_isfalsey(const struct Node *const node) {
 }
 
 static void visit_While_false(struct Compiler *const compiler, const struct Node *const body, const struct Node *const post) {
+	add_checkpoint(compiler, scope_len(get_scope_in_use(compiler)));
+	add_checkpoint(compiler, compiler->buffer->count);
+	add_checkpoint(compiler, compiler->buffer->count);
 	validate(compiler, body);
+	rm_checkpoint(compiler);
+	rm_checkpoint(compiler);
+	rm_checkpoint(compiler);
 	if (post) validate(compiler, post);
 }
 
-- 
2.43.0


From 97b9c5d9268aaaa60168cfb542ee9918309cae2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:11 +0000
Subject: [PATCH 35/83] fix: comparing lists and tables did not run overloads
 of == on their elements to completion

---
 interpreter/VM.c            | 11 +++++++++++
 interpreter/VM.h            |  1 +
 interpreter/list_methods.c  |  5 ++---
 interpreter/table_methods.c |  3 +--
 4 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index c118ce3..f108e79 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -536,6 +536,17 @@ void vm_EQ(struct VM *const vm) {
 	}
 }
 
+/* Like vm_EQ, but also runs any overload of == to completion. */
+bool vm_EQ_now(struct VM *const vm) {
+	int fp = vm->fp;
+	vm_EQ(vm);
+	while (fp < vm->fp) {
+		vm_executenext(vm);
+	}
+	struct YASL_Object result = vm_pop(vm);
+	return !isfalsey(&result);
+}
+
 static void vm_CNCT(struct VM *const vm) {
 		vm_stringify_top(vm);
 		struct YASL_Object top = vm_peek(vm);
diff --git a/interpreter/VM.h b/interpreter/VM.h
index 284dcd7..1764fb2 100644
--- a/interpreter/VM.h
+++ b/interpreter/VM.h
@@ -131,6 +131,7 @@ YASL_NORETURN void vm_throw_err(struct VM *const vm, int error);
 void vm_get_metatable(struct VM *const vm);
 void vm_stringify_top(struct VM *const vm);
 void vm_EQ(struct VM *const vm);
+bool vm_EQ_now(struct VM *const vm);
 
 void vm_INIT_CALL_offset(struct VM *const vm, int offset, int expected_returns);
 void vm_CALL(struct VM *const vm);
diff --git a/interpreter/list_methods.c b/interpreter/list_methods.c
index 3617510..914755f 100644
--- a/interpreter/list_methods.c
+++ b/interpreter/list_methods.c
@@ -202,11 +202,10 @@ int list___eq(struct YASL_State *S) {
 		return 1;
 	}
 
-	for (size_t i = 0; i < left->count; i++) {
+	for (size_t i = 0; i < left->count && i < right->count; i++) {
 		vm_push((struct VM *)S, left->items[i]);
 		vm_push((struct VM *)S, right->items[i]);
-		vm_EQ((struct VM *)S);
-		if (!YASL_popbool(S)) {
+		if (!vm_EQ_now((struct VM *)S)) {
 			YASL_pushbool(S, false);
 			return 1;
 		}
diff --git a/interpreter/table_methods.c b/interpreter/table_methods.c
index 3f33c86..b288a9e 100644
--- a/interpreter/table_methods.c
+++ b/interpreter/table_methods.c
@@ -84,8 +84,7 @@ int table___eq(struct YASL_State *S) {
 		}
 		vm_push((struct VM *) S, item->value);
 		vm_push((struct VM *) S, search);
-		vm_EQ((struct VM *) S);
-		if (!YASL_popbool(S)) {
+		if (!vm_EQ_now((struct VM *)S)) {
 			YASL_pushbool(S, false);
 			return 1;
 		}
-- 
2.43.0


From 3277914226fd04d09a78bbab1d643c60e4d7de31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:30 +0000
Subject: [PATCH 36/83] fix: calling objects with __call through methods and
 overloads, and __call that is itself not callable

---
 interpreter/VM.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index f108e79..bc07823 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -1228,10 +1228,22 @@ static void vm_exitframe(struct VM *const vm) {
 	vm->frame_num--;
 }
 
+static bool vm_iscallable(struct VM *const vm, int offset) {
+	return vm_isfn(vm, offset) || vm_iscfn(vm, offset) || vm_isclosure(vm, offset);
+}
+
 void vm_INIT_CALL_offset(struct VM *const vm, int offset, int expected_returns) {
-	if (!vm_isfn(vm, offset) && !vm_iscfn(vm, offset) && !vm_isclosure(vm, offset)) {
+	if (!vm_iscallable(vm, offset)) {
 		const char *name = (vm_peektypename(vm, offset));
+		vm_push(vm, vm_peek(vm, offset));
 		vm_lookup_method_throwing(vm, "__call", "%s is not callable.", name);
+		dec_ref(&vm_peek(vm, offset));
+		vm_peek(vm, offset) = vm_pop(vm);
+		inc_ref(&vm_peek(vm, offset));
+		if (!vm_iscallable(vm, offset)) {
+			vm_print_err_type(vm, "%s is not callable.", vm_peektypename(vm, offset));
+			vm_throw_err(vm, YASL_TYPE_ERROR);
+		}
 	}
 
 	vm_enterframe_offset(vm, offset, expected_returns);
-- 
2.43.0


From b678acbe0e5dddd47fa97d9ae23aaeb2f4d30d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:28 +0000
Subject: [PATCH 37/83] fix: ordering operands that cannot be ordered leaked
 them

---
 interpreter/VM.c | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index bc07823..574d355 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -340,16 +340,6 @@ do {\
 	vm_CALL(vm);\
 } while (0)
 
-#define vm_call_method_now_2(vm, left, right, method_name, ...) do {\
-	inc_ref(&left);\
-	inc_ref(&right);\
-	vm_push(vm, left);\
-	vm_lookup_method_throwing(vm, method_name, __VA_ARGS__);\
-	vm_call_now_2(vm, left, right);\
-	dec_ref(&left);\
-	dec_ref(&right);\
-} while (0)
-
 #define INT_BINOP(name, op) yasl_int name(yasl_int left, yasl_int right) { return left op right; }
 
 INT_BINOP(bor, |)
@@ -565,21 +555,29 @@ static void vm_CNCT(struct VM *const vm) {
 
 #define DEFINE_COMP(name, opstr, overload_name) \
 static void vm_##name(struct VM *const vm) {\
-	struct YASL_Object right = vm_pop(vm);\
-	struct YASL_Object left = vm_pop(vm);\
+	struct YASL_Object right = vm_peek(vm);\
+	struct YASL_Object left = vm_peek(vm, vm->sp - 1);\
 	bool c;\
 	if (obj_isstr(&left) && obj_isstr(&right)) {\
+		vm_pop(vm);\
+		vm_pop(vm);\
 		vm_pushbool(vm, name(YASL_String_cmp(obj_getstr(&left), obj_getstr(&right)), 0));\
 		return;\
 	}\
 	if (obj_isnum(&left) && obj_isnum(&right)) {\
+		vm_pop(vm);\
+		vm_pop(vm);\
 		COMP(vm, left, right, name);\
 		return;\
 	}\
-	vm_call_method_now_2(vm, left, right, overload_name, "%s not supported for operands of types %s and %s.",\
-		opstr,\
-		obj_typename(&left),\
-		obj_typename(&right));\
+	vm_push(vm, left);\
+	vm_lookup_method_throwing(vm, overload_name, "%s not supported for operands of types %s and %s.",\
+				  opstr,\
+				  obj_typename(&left),\
+				  obj_typename(&right));\
+	vm_shifttopdown(vm, 2);\
+	vm_INIT_CALL_offset(vm, vm->sp - 2, 1);\
+	vm_CALL(vm);\
 }
 
 DEFINE_COMP(GT, ">", "__gt")
-- 
2.43.0


From cac5d30d54b5adc1f844aea736085377f54f08b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:45 +0000
Subject: [PATCH 38/83] fix: concatenating a value that cannot be stringified
 leaked the right operand

---
 interpreter/VM.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index 574d355..1a59ec7 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -539,18 +539,16 @@ bool vm_EQ_now(struct VM *const vm) {
 
 static void vm_CNCT(struct VM *const vm) {
 		vm_stringify_top(vm);
-		struct YASL_Object top = vm_peek(vm);
-		inc_ref(&top);
-		struct YASL_String *b = vm_popstr(vm);
+		vm_swaptop(vm);
 		vm_stringify_top(vm);
 		struct YASL_String *a = vm_popstr(vm);
+		struct YASL_String *b = vm_popstr(vm);
 
 		size_t size = YASL_String_len(a) + YASL_String_len(b);
 		char *ptr = (char *)malloc(size);
 		memcpy(ptr, YASL_String_chars(a), YASL_String_len(a));
 		memcpy(ptr + YASL_String_len(a), YASL_String_chars(b), YASL_String_len(b));
 		vm_pushstr(vm, YASL_String_new_sized_heap(0, size, ptr));
-		dec_ref(&top);
 }
 
 #define DEFINE_COMP(name, opstr, overload_name) \
-- 
2.43.0


From ab60c165cee02052f484cf81a0653673e72d8c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:39 +0000
Subject: [PATCH 39/83] fix: hex and binary strings with a second prefix or a
 sign after the prefix converted to ints

---
 data-structures/YASL_String.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/data-structures/YASL_String.c b/data-structures/YASL_String.c
index 6425265..e3280a2 100644
--- a/data-structures/YASL_String.c
+++ b/data-structures/YASL_String.c
@@ -173,8 +173,10 @@ static yasl_int parseint64(const char *str, bool *ok) {
 	char *end;
 	if (len > 2 && str[0] == '0' && (str[1] == 'x' || str[1] == 'X')) {
 		result = strtoll(str + 2, &end, 16);
+		if (strspn(str + 2, "0123456789abcdefABCDEF") != len - 2) end = NULL;
 	} else if (len > 2 && str[0] == '0' && (str[1] == 'b' || str[1] == 'B')) {
 		result = strtoll(str + 2, &end, 2);
+		if (strspn(str + 2, "01") != len - 2) end = NULL;
 	} else {
 		result = strtoll(str, &end, 10);
 	}
-- 
2.43.0


From 19eb4cb6b03efa9fae09497ec4000200a9a2b3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:42 +0000
Subject: [PATCH 40/83] fix: float literals with an empty exponent swallowed
 the character after it

---
 compiler/lexer.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/compiler/lexer.c b/compiler/lexer.c
index 0a2171a..3ebb02e 100644
--- a/compiler/lexer.c
+++ b/compiler/lexer.c
@@ -236,6 +236,15 @@ static bool lex_eatfloat(struct Lexer *const lex) {
 			lex_getchar(lex);
 			lex_val_append(lex, 'e');
 			while (lex->c == NUM_SEPERATOR) lex_getchar(lex);
+			if (lex->c == '-' || lex->c == '+') {
+				lex_val_append(lex, lex->c);
+				lex_getchar(lex);
+			}
+			if (lxeof(lex->file) || !isdigit(lex->c)) {
+				lex_print_err_syntax(lex, "Invalid float literal in line %" PRI_SIZET ".\n", lex->line);
+				lex_error(lex);
+				return true;
+			}
 			lex_eatnumber_fill(lex, &isddigit);
 		}
 
-- 
2.43.0


From ef070d22c282fff4a645da86a26a6401a8fcb539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:24 +0000
Subject: [PATCH 41/83] fix: names leaked if the rest of the statement or
 pattern had a syntax error

---
 compiler/parser.c | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/compiler/parser.c b/compiler/parser.c
index e67105d..d1ee7f0 100644
--- a/compiler/parser.c
+++ b/compiler/parser.c
@@ -373,6 +373,7 @@ static struct Node *parse_fn(struct Parser *const parser) {
 
 		return new_Set(parser, collection, index, new_FnDecl(parser, block, body, NULL, 0, line), line);
 	}
+	struct Node *let = new_Let(parser, NULL, name, line);
 	eattok(parser, T_LPAR);
 	struct Node *block = parse_function_params(parser);
 	eattok(parser, T_RPAR);
@@ -381,7 +382,8 @@ static struct Node *parse_fn(struct Parser *const parser) {
 
 	char *name2 = (char *)malloc(name_len + 1);
 	strcpy(name2, name);
-	return new_Let(parser, new_FnDecl(parser, block, body, name2, strlen(name2), line), name, line);
+	let->children[0] = new_FnDecl(parser, block, body, name2, strlen(name2), line);
+	return let;
 	// TODO Fix this ^
 }
 
@@ -392,6 +394,7 @@ static struct Node *parse_const_fn(struct Parser *const parser) {
 	size_t line = parserline(parser);
 	char *name = eatname(parser);
 	size_t name_len = strlen(name);
+	struct Node *decl = new_Const(parser, NULL, name, line);
 	eattok(parser, T_LPAR);
 	struct Node *block = parse_function_params(parser);
 	eattok(parser, T_RPAR);
@@ -401,7 +404,8 @@ static struct Node *parse_const_fn(struct Parser *const parser) {
 	// TODO: clean this up
 	char *name2 = (char *)malloc(name_len + 1);
 	strcpy(name2, name);
-	return new_Const(parser, new_FnDecl(parser, block, body, name2, strlen(name2), line), name, line);
+	decl->children[0] = new_FnDecl(parser, block, body, name2, strlen(name2), line);
+	return decl;
 }
 
 static struct Node *parse_let_const_or_var(struct Parser *const parser) {
@@ -477,19 +481,19 @@ static struct Node *parse_let(struct Parser *const parser) {
 	YASL_PARSE_DEBUG_LOG("parsing let in line %" PRI_SIZET "\n", parserline(parser));
 	eattok(parser, T_LET);
 	size_t line = parserline(parser);
-	char *name = eatname(parser);
+	struct Node *let = new_Let(parser, NULL, eatname(parser), line);
 	eattok(parser, T_EQ);
-	struct Node *expr = parse_expr(parser);
-	return new_Let(parser, expr, name, line);
+	let->children[0] = parse_expr(parser);
+	return let;
 }
 
 static struct Node *parse_iterate(struct Parser *const parser) {
 	YASL_PARSE_DEBUG_LOG("parsing let <- in line %" PRI_SIZET "\n", parserline(parser));
 	size_t line = parserline(parser);
-	char *name = eatname(parser);
+	struct Node *iter = new_LetIter(parser, NULL, eatname(parser), line);
 	eattok(parser, T_LEFT_ARR);
-	struct Node *collection = parse_expr(parser);
-	return new_LetIter(parser, collection, name, line);
+	iter->children[0] = parse_expr(parser);
+	return iter;
 }
 
 static struct Node *parse_let_iterate_or_let(struct Parser *const parser) {
@@ -601,6 +605,7 @@ static struct Node *parse_primitivepattern(struct Parser *const parser) {
 			n->nodetype = N_PATTABLETYPE;
 		} else {
 			parser_print_err_syntax(parser, "Invalid pattern: %s (line %" PRI_SIZET ").\n", name, line);
+			free(name);
 			handle_error(parser);
 		}
 		free(name);
-- 
2.43.0


From d7066b7774d74880041d591491adabee34c4abdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:32 +0000
Subject: [PATCH 42/83] fix: x.(f()) read arguments the call does not have

---
 compiler/parser.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/compiler/parser.c b/compiler/parser.c
index d1ee7f0..6bb3f46 100644
--- a/compiler/parser.c
+++ b/compiler/parser.c
@@ -929,10 +929,7 @@ static struct Node *parse_call(struct Parser *const parser) {
 		} else if (matcheattok(parser, T_DOT)) {
 			size_t line = parserline(parser);
 			struct Node *right = parse_constant(parser);
-			if (right->nodetype == N_CALL) {
-				cur_node = new_Set(parser, cur_node, Call_get_params(right)->children[0],
-						   Call_get_params(right)->children[1], parserline(parser));
-			} else if (right->nodetype == N_VAR) {
+			if (right->nodetype == N_VAR) {
 				right->nodetype = N_STR;
 				cur_node = new_Get(parser, cur_node, right, line);
 			} else {
-- 
2.43.0


From 3adf5d96a4ea02ab5265e6565ffefd1284b3a169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:43 +0000
Subject: [PATCH 43/83] fix: an interpolation with more than an expression in
 it was accepted if a brace followed

---
 compiler/parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/parser.c b/compiler/parser.c
index 6bb3f46..bed4f14 100644
--- a/compiler/parser.c
+++ b/compiler/parser.c
@@ -1112,7 +1112,7 @@ static struct Node *parse_string(struct Parser *const parser) {
 		struct Node *expr = parse_expr(parser);
 		parser->lex.mode = L_INTERP;
 		cur_node = new_BinOp(parser, T_TILDE, cur_node, expr, parserline(parser));
-		if (parser->lex.c == '}') {
+		if (curtok(parser) == T_RBRC) {
 			parser->lex.c = lxgetc(parser->lex.file);
 		} else {
 			parser_print_err_syntax(parser, "Expected } in line %" PRI_SIZET ".\n", parserline(parser));
-- 
2.43.0


From 12aa0fae9f9ed5fc3c340a726c9b6bd5736d1e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:59 +0000
Subject: [PATCH 44/83] fix: an unclosed interpolated string in a pattern was
 read beyond the end of the file

---
 compiler/parser.c | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/compiler/parser.c b/compiler/parser.c
index bed4f14..31e6c9f 100644
--- a/compiler/parser.c
+++ b/compiler/parser.c
@@ -573,10 +573,6 @@ static struct Node *parse_primitivepattern(struct Parser *const parser) {
 		}
 	case T_STR:
 		if (parser->lex.mode == L_INTERP) {
-			while (parser->lex.c != '"') {
-				lex_getchar(&parser->lex);
-			}
-			eattok(parser, T_STR);
 			parser_print_err_syntax(parser, "Interpolated strings cannot be used in patterns (line %" PRI_SIZET ").\n", line);
 			handle_error(parser);
 		}
-- 
2.43.0


From 30ea9f829c5acca4caae138cdc379cb52c349133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:26 +0000
Subject: [PATCH 45/83] fix: the name of a token that was not recognised was
 read from before the table of names

---
 compiler/parser.c | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/compiler/parser.c b/compiler/parser.c
index 31e6c9f..46d7b7d 100644
--- a/compiler/parser.c
+++ b/compiler/parser.c
@@ -120,6 +120,10 @@ static inline enum Token curtok(const struct Parser *const parser) {
 	return parser->lex.type;
 }
 
+static inline const char *curtok_name(const struct Parser *const parser) {
+	return curtok(parser) == T_UNKNOWN ? "unknown" : YASL_TOKEN_NAMES[curtok(parser)];
+}
+
 void parser_cleanup(struct Parser *const parser) {
 	node_del(parser->head);
 	lex_cleanup(&parser->lex);
@@ -143,7 +147,7 @@ enum Token eattok(struct Parser *const parser, const enum Token token) {
 			parser->status = parser->lex.status;
 		} else {
 			parser_print_err_syntax(parser, "Expected %s, got %s (line %" PRI_SIZET ").\n", YASL_TOKEN_NAMES[token],
-						YASL_TOKEN_NAMES[curtok(parser)], parserline(parser));
+						curtok_name(parser), parserline(parser));
 			parser->status = YASL_SYNTAX_ERROR;
 		}
 		while (!TOKEN_MATCHES(parser, T_SEMI, T_EOF)) {
@@ -287,7 +291,7 @@ static struct Node *parse_program(struct Parser *const parser) {
 	case T_ELSE:
 		parser_print_err_syntax(parser,
 			"`%s` without previous `if` (line %" PRI_SIZET ").\n",
-			YASL_TOKEN_NAMES[curtok(parser)],
+			curtok_name(parser),
 			line);
 		handle_error(parser);
 		break;
@@ -425,7 +429,7 @@ static struct Node *parse_let_const_or_var(struct Parser *const parser) {
 			struct Node *set = new_Set(parser, Get_get_collection(node), Get_get_value(node), NULL, line);
 			return set;
 		} else {
-			parser_print_err_syntax(parser, "Expected `let`, `const`, or id, got %s", YASL_TOKEN_NAMES[curtok(parser)]);
+			parser_print_err_syntax(parser, "Expected `let`, `const`, or id, got %s", curtok_name(parser));
 			handle_error(parser);
 		}
 	}
@@ -568,7 +572,7 @@ static struct Node *parse_primitivepattern(struct Parser *const parser) {
 			n->value.dval *= -1;
 			return n;
 		} else {
-			parser_print_err_syntax(parser, "Expected numeric pattern, got pattern starting in %s (line %" PRI_SIZET ").\n", YASL_TOKEN_NAMES[curtok(parser)], line);
+			parser_print_err_syntax(parser, "Expected numeric pattern, got pattern starting in %s (line %" PRI_SIZET ").\n", curtok_name(parser), line);
 			handle_error(parser);
 		}
 	case T_STR:
@@ -608,7 +612,7 @@ static struct Node *parse_primitivepattern(struct Parser *const parser) {
 		return n;
 	}
 	default:
-		parser_print_err_syntax(parser, "Invalid pattern starting in %s (line %" PRI_SIZET ").\n", YASL_TOKEN_NAMES[curtok(parser)], line);
+		parser_print_err_syntax(parser, "Invalid pattern starting in %s (line %" PRI_SIZET ").\n", curtok_name(parser), line);
 		handle_error(parser);
 	}
 }
@@ -744,7 +748,7 @@ static struct Node *parse_if(struct Parser *const parser) {
 	if (matcheattok(parser, T_IF)) ;
 	else if (matcheattok(parser, T_ELSEIF)) ;
 	else {
-		parser_print_err_syntax(parser, "Expected `if` or `elseif`, got `%s` (line %" PRI_SIZET ")\n", YASL_TOKEN_NAMES[curtok(parser)], line);
+		parser_print_err_syntax(parser, "Expected `if` or `elseif`, got `%s` (line %" PRI_SIZET ")\n", curtok_name(parser), line);
 		handle_error(parser);
 	}
 	struct Node *cond = parse_expr(parser);
@@ -763,7 +767,7 @@ static struct Node *parse_if(struct Parser *const parser) {
 		struct Node *else_block = parse_body(parser);
 		return new_If(parser, cond, new_Block(parser, then_block, line), new_Block(parser, else_block, else_line), line);
 	}
-	parser_print_err_syntax(parser, "Expected newline, got `%s`.\n", YASL_TOKEN_NAMES[curtok(parser)]);
+	parser_print_err_syntax(parser, "Expected newline, got `%s`.\n", curtok_name(parser));
 	handle_error(parser);
 }
 
@@ -1016,14 +1020,14 @@ static struct Node *parse_constant(struct Parser *const parser) {
 		parser_print_err_syntax(parser, "Expected expression, got `%s` (line %"
 			PRI_SIZET
 			").\n",
-					YASL_TOKEN_NAMES[curtok(parser)], parserline(parser));
+					curtok_name(parser), parserline(parser));
 		handle_error(parser);
 	case T_UNKNOWN:
 		handle_error(parser);
 	default:
 		parser_print_err_syntax(parser, "Invalid expression `%s` (line %"
 			PRI_SIZET
-			").\n", YASL_TOKEN_NAMES[curtok(parser)], parserline(parser));
+			").\n", curtok_name(parser), parserline(parser));
 		handle_error(parser);
 	}
 }
-- 
2.43.0


From 01ed26bdb635b0879fac1cee0368afc4dfa7917d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:58 +0000
Subject: [PATCH 46/83] fix: a name after a syntax error in the same statement
 leaked

---
 compiler/parser.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/compiler/parser.c b/compiler/parser.c
index 46d7b7d..a1148a7 100644
--- a/compiler/parser.c
+++ b/compiler/parser.c
@@ -163,9 +163,12 @@ enum Token eattok(struct Parser *const parser, const enum Token token) {
 
 static char *eatname(struct Parser *const parser) {
 	char *tmp = parser->lex.value;
-	eattok(parser, T_ID);
-	if (parser->status)
+	if (eattok(parser, T_ID) == T_UNKNOWN)
+		handle_error(parser);
+	if (parser->status) {
+		free(tmp);
 		handle_error(parser);
+	}
 	return tmp;
 }
 
-- 
2.43.0


From b74d15b956538a516ee628e45cdcae79bfb2bc7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:03 +0000
Subject: [PATCH 47/83] fix: the token after a statement with a syntax error
 leaked

---
 compiler/parser.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/compiler/parser.c b/compiler/parser.c
index a1148a7..78a1365 100644
--- a/compiler/parser.c
+++ b/compiler/parser.c
@@ -184,7 +184,12 @@ struct Node *parse(struct Parser *const parser) {
 	if (setjmp(parser->env)) {
 		return NULL;
 	}
-	return parse_program(parser);
+	struct Node *node = parse_program(parser);
+	if (parser->status) {
+		free(parser->lex.value);
+		parser->lex.value = NULL;
+	}
+	return node;
 }
 
 static struct Node *parse_decl_helper(struct Parser *const parser, struct Node *lvals, size_t i);
-- 
2.43.0


From ecb66d446037dc8e7accb81f5076e99083a38cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:51 +0000
Subject: [PATCH 48/83] fix: str.trim must not trim the same characters from
 both ends

---
 data-structures/YASL_String.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/data-structures/YASL_String.c b/data-structures/YASL_String.c
index e3280a2..5b58888 100644
--- a/data-structures/YASL_String.c
+++ b/data-structures/YASL_String.c
@@ -516,7 +516,7 @@ struct YASL_String *YASL_String_trim_default(struct YASL_String *haystack) {
 	}
 
 	int64_t end = haystack_len;
-	while (end >= 1 && iswhitespace(haystack_chars[end - 1])) {
+	while (end - start >= 1 && iswhitespace(haystack_chars[end - 1])) {
 		end--;
 	}
 
@@ -535,7 +535,7 @@ struct YASL_String *YASL_String_trim(struct YASL_String *haystack, struct YASL_S
 	}
 
 	size_t end = haystack_len;
-	while (needle_len > 0 && end >= needle_len &&
+	while (needle_len > 0 && end - start >= needle_len &&
 	       !memcmp(haystack_chars + end - needle_len, needle_chars, needle_len)) {
 		end -= needle_len;
 	}
-- 
2.43.0


From 99a7e3a7c96f6b53c11eec34e4a54f730a9ffc15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:57 +0000
Subject: [PATCH 49/83] fix: YASL_popbool, YASL_popfloat and YASL_popint left
 values of other types on the stack

---
 yasl.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/yasl.c b/yasl.c
index 0ce648c..670c35f 100644
--- a/yasl.c
+++ b/yasl.c
@@ -534,6 +534,7 @@ bool YASL_popbool(struct YASL_State *S) {
 	if (YASL_isbool(S)) {
 		return vm_popbool(&S->vm);
 	}
+	YASL_pop(S);
 	return false;
 }
 
@@ -556,6 +557,7 @@ yasl_float YASL_popfloat(struct YASL_State *S) {
 	if (YASL_isfloat(S)) {
 		return vm_popfloat(&S->vm);
 	}
+	YASL_pop(S);
 	return 0.0;
 }
 
@@ -578,6 +580,7 @@ yasl_int YASL_popint(struct YASL_State *S) {
 	if (YASL_isint(S)) {
 		return vm_popint(&S->vm);
 	}
+	YASL_pop(S);
 	return 0;
 }
 
-- 
2.43.0


From 026ace32f282689120f88881791914f304a25f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:57 +0000
Subject: [PATCH 50/83] fix: YASL_setmt could not remove a metatable

---
 yasl.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/yasl.c b/yasl.c
index 670c35f..af0cb3f 100644
--- a/yasl.c
+++ b/yasl.c
@@ -225,7 +225,8 @@ int YASL_setmt(struct YASL_State *S) {
 		return YASL_TYPE_ERROR;
 	}
 
-	struct RC_UserData *mt = YASL_istable(S) ? YASL_GETUSERDATA(vm_pop(&S->vm)) : NULL;
+	struct YASL_Object top = vm_pop(&S->vm);
+	struct RC_UserData *mt = obj_istable(&top) ? YASL_GETUSERDATA(top) : NULL;
 
 	if (!vm_isuserdata(&S->vm) && !vm_istable(&S->vm) && !vm_islist(&S->vm)) {
 		return YASL_TYPE_ERROR;
-- 
2.43.0


From 1a498b9066398dec2ea1a703cfb6e3285a2b5fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:10 +0000
Subject: [PATCH 51/83] fix: YASL_functioncall did not run functions written in
 YASL to the end and miscounted their results

---
 interpreter/VM.c | 1 -
 interpreter/VM.h | 1 +
 yasl.c           | 6 +++---
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index 1a59ec7..3a5a85d 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -306,7 +306,6 @@ static void vm_GET(struct VM *const vm);
 static void vm_INIT_CALL(struct VM *const vm, int expected_returns);
 void vm_INIT_CALL_offset(struct VM *const vm, int offset, int expected_returns);
 void vm_CALL(struct VM *const vm);
-void vm_CALL_now(struct VM *const vm);
 
 static void vm_call_now_2(struct VM *vm, struct YASL_Object a, struct YASL_Object b) {
 	vm_INIT_CALL(vm, 1);
diff --git a/interpreter/VM.h b/interpreter/VM.h
index 1764fb2..79fc763 100644
--- a/interpreter/VM.h
+++ b/interpreter/VM.h
@@ -135,6 +135,7 @@ bool vm_EQ_now(struct VM *const vm);
 
 void vm_INIT_CALL_offset(struct VM *const vm, int offset, int expected_returns);
 void vm_CALL(struct VM *const vm);
+void vm_CALL_now(struct VM *const vm);
 
 struct YASL_Object vm_pop(struct VM *const vm);
 bool vm_popbool(struct VM *const vm);
diff --git a/yasl.c b/yasl.c
index af0cb3f..dcfb12e 100644
--- a/yasl.c
+++ b/yasl.c
@@ -445,10 +445,10 @@ int YASL_functioncall(struct YASL_State *S, int n) {
 	struct VM *vm = &S->vm;
 	vm_INIT_CALL_offset(vm, vm->sp - n, -1);
 
-	const int old_sp = vm->sp;
-	vm_CALL(vm);
+	const int fn_sp = vm->sp - n;
+	vm_CALL_now(vm);
 
-	return old_sp - vm->sp - 1;
+	return vm->sp - fn_sp + 1;
 }
 
 bool YASL_isundef(struct YASL_State *S) {
-- 
2.43.0


From bdb5a010cbbc4d55a4c8b88d890a97b01571b27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:34 +0000
Subject: [PATCH 52/83] fix: operators on functions and user pointers looked
 for their metatable in uninitialised memory or past it

---
 interpreter/VM.c | 2 +-
 interpreter/VM.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index 3a5a85d..592167a 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -23,7 +23,7 @@
 #include "closure.h"
 
 static struct RC_UserData **builtins_htable_new(struct VM *const vm) {
-	struct RC_UserData **ht = (struct RC_UserData **) malloc(sizeof(struct RC_UserData *) * NUM_TYPES);
+	struct RC_UserData **ht = (struct RC_UserData **) calloc(NUM_TYPES, sizeof(struct RC_UserData *));
 	ht[Y_UNDEF] = ud_new(undef_builtins(vm), TABLE_NAME, NULL, rcht_del_data);
 	ht[Y_UNDEF]->rc.refs++;
 	ht[Y_FLOAT] = ud_new(float_builtins(vm), TABLE_NAME, NULL, rcht_del_data);
diff --git a/interpreter/VM.h b/interpreter/VM.h
index 79fc763..1356f03 100644
--- a/interpreter/VM.h
+++ b/interpreter/VM.h
@@ -17,7 +17,7 @@
 
 #define NUM_FRAMES 1000
 #define NUM_LOOPFRAMES STACK_SIZE
-#define NUM_TYPES 13                                     // number of builtin types, each needs a vtable
+#define NUM_TYPES 16                                     // number of builtin types, each needs a vtable
 #define SCRATCH_SIZE 1024								// scratchspace size (needs tuning)
 
 #define vm_peek_offset(vm, offset) ((vm)->stack[offset])
-- 
2.43.0


From 508a9620517ad272e191ed73e1cc2d8ed4390a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:51 +0000
Subject: [PATCH 53/83] fix: YASL_len returned before an overload of len
 written in YASL had run

---
 yasl.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/yasl.c b/yasl.c
index dcfb12e..8f4875b 100644
--- a/yasl.c
+++ b/yasl.c
@@ -412,9 +412,14 @@ int YASL_tableset(struct YASL_State *S) {
 void list___get_helper(struct YASL_State *S, struct YASL_List *ls, yasl_int index);
 
 void vm_len_unop(struct VM *const vm);
+void vm_executenext(struct VM *const vm);
 
 void YASL_len(struct YASL_State *S) {
+	int fp = S->vm.fp;
 	vm_len_unop(&S->vm);
+	while (fp < S->vm.fp) {
+		vm_executenext(&S->vm);
+	}
 }
 
 int YASL_listget(struct YASL_State *S, yasl_int n) {
-- 
2.43.0


From 7fcd7d6ae7f601db9e0f268ad1714e944071d40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:51 +0000
Subject: [PATCH 54/83] fix: YASLX_checkn* reported the type of the last
 argument instead of the one they are about

---
 yasl_aux.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/yasl_aux.c b/yasl_aux.c
index f5f8573..3380165 100644
--- a/yasl_aux.c
+++ b/yasl_aux.c
@@ -27,7 +27,7 @@ void YASLX_print_err_bad_arg_type(struct YASL_State *S,
 
 yasl_int YASLX_checknint(struct YASL_State *S, const char *name, unsigned n) {
 	if (!YASL_isnint(S, n)) {
-		YASLX_print_err_bad_arg_type(S, name, n, "int", YASL_peektypename(S));
+		YASLX_print_err_bad_arg_type(S, name, n, "int", YASL_peekntypename(S, n));
 		YASL_throw_err(S, YASL_TYPE_ERROR);
 	}
 	return YASL_peeknint(S, n);
@@ -35,7 +35,7 @@ yasl_int YASLX_checknint(struct YASL_State *S, const char *name, unsigned n) {
 
 yasl_float YASLX_checknfloat(struct YASL_State *S, const char *name, unsigned n) {
 	if (!YASL_isnfloat(S, n)) {
-		YASLX_print_err_bad_arg_type(S, name, n, "float", YASL_peektypename(S));
+		YASLX_print_err_bad_arg_type(S, name, n, "float", YASL_peekntypename(S, n));
 		YASL_throw_err(S, YASL_TYPE_ERROR);
 	}
 	return YASL_peeknfloat(S, n);
@@ -43,7 +43,7 @@ yasl_float YASLX_checknfloat(struct YASL_State *S, const char *name, unsigned n)
 
 bool YASLX_checknbool(struct YASL_State *S, const char *name, unsigned n) {
 	if (!YASL_isnbool(S, n)) {
-		YASLX_print_err_bad_arg_type(S, name, n, "bool", YASL_peektypename(S));
+		YASLX_print_err_bad_arg_type(S, name, n, "bool", YASL_peekntypename(S, n));
 		YASL_throw_err(S, YASL_TYPE_ERROR);
 	}
 	return YASL_peeknbool(S, n);
-- 
2.43.0


From cf34822de3b9ab86374021b91bf6a7d91f99d34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:30 +0000
Subject: [PATCH 55/83] fix: YASL_isuserptr, YASL_isnuserptr, YASL_peekuserptr
 and YASL_peekuserdata were declared but missing

---
 yasl.c | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/yasl.c b/yasl.c
index 8f4875b..1502d4c 100644
--- a/yasl.c
+++ b/yasl.c
@@ -521,6 +521,14 @@ bool YASL_isuserdata(struct YASL_State *S, const char *tag) {
 	return vm_isuserdata(&S->vm) && YASL_GETUSERDATA(vm_peek(&S->vm))->tag == tag;
 }
 
+bool YASL_isuserptr(struct YASL_State *S) {
+	return vm_isuserptr(&S->vm);
+}
+
+bool YASL_isnuserptr(struct YASL_State *S, unsigned n) {
+	return vm_isuserptr(&S->vm, S->vm.fp + 1 + n);
+}
+
 bool YASL_peekbool(struct YASL_State *S) {
 	if (YASL_isbool(S)) {
 		return vm_peekbool(&S->vm);
@@ -608,7 +616,24 @@ char *YASL_popcstr(struct YASL_State *S) {
 	return tmp;
 }
 
+void *YASL_peekuserdata(struct YASL_State *S) {
+	if (!vm_isuserdata(&S->vm)) return NULL;
+
+	return YASL_GETUSERDATA(vm_peek(&S->vm))->data;
+}
+
+void *YASL_peekuserptr(struct YASL_State *S) {
+	if (!vm_isuserptr(&S->vm)) return NULL;
+
+	return vm_peekuserptr(&S->vm);
+}
+
 void *YASL_peeknuserdata(struct YASL_State *S, unsigned n) {
+	// lists and tables are userdata as well.
+	if (!vm_isuserdata(&S->vm, S->vm.fp + 1 + n) && !vm_islist(&S->vm, S->vm.fp + 1 + n) && !vm_istable(&S->vm, S->vm.fp + 1 + n)) {
+		return NULL;
+	}
+
 	return YASL_GETUSERDATA(vm_peek(&S->vm, S->vm.fp + 1 + n))->data;
 }
 
-- 
2.43.0


From 463c0218e278daa14d1a7537c2d3190b102942b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:28 +0000
Subject: [PATCH 56/83] fix: table methods reported the type of their last
 argument instead of the one they are about

---
 interpreter/table_methods.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interpreter/table_methods.c b/interpreter/table_methods.c
index b288a9e..a12b6c8 100644
--- a/interpreter/table_methods.c
+++ b/interpreter/table_methods.c
@@ -8,7 +8,7 @@
 static struct YASL_Table *YASLX_checkntable(struct YASL_State *S, const char *name, unsigned pos) {
 	if (!YASL_isntable(S, pos)) {
 		vm_print_err_type(&S->vm, "%s expected arg in position %d to be of type table, got arg of type %s.",
-				  name, pos, YASL_peektypename(S));
+				  name, pos, YASL_peekntypename(S, pos));
 		YASL_throw_err(S, YASL_TYPE_ERROR);
 	}
 	return (struct YASL_Table *)YASL_peeknuserdata(S, pos);
-- 
2.43.0


From 3ea7f6a0bae5fb65c8947d484aa0b9082b07f281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:42 +0000
Subject: [PATCH 57/83] fix: pushing a value right after popping its last
 reference used it after it was freed

---
 interpreter/VM.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index 592167a..707ed19 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -199,9 +199,11 @@ void vm_push(struct VM *const vm, const struct YASL_Object val) {
 
 	vm->sp++;
 
-	dec_ref(vm->stack + vm->sp);
+	// `val` might have been popped from this very slot, so the slot's old value must be let go of last.
+	struct YASL_Object old = vm->stack[vm->sp];
 	vm->stack[vm->sp] = val;
 	inc_ref(vm->stack + vm->sp);
+	dec_ref(&old);
 }
 
 void vm_pushend(struct VM *const vm) {
-- 
2.43.0


From 9a59fecf5cb4e229926f38391a169d4b896a0a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:04 +0000
Subject: [PATCH 58/83] fix: require printed nothing for an argument that is
 not a str, and leaked the name of a package it cannot open

---
 std/yasl-std-require.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/std/yasl-std-require.c b/std/yasl-std-require.c
index 37f004a..e45ee3d 100644
--- a/std/yasl-std-require.c
+++ b/std/yasl-std-require.c
@@ -36,7 +36,7 @@ static struct YASL_State *open_on_path(const char *path, const char *name, const
 
 int YASL_require(struct YASL_State *S) {
 	if (!YASL_isstr(S)) {
-		// TODO error message
+		YASLX_print_err_bad_arg_type(S, "require", 0, YASL_STR_NAME, YASL_peektypename(S));
 		YASL_throw_err(S, YASL_TYPE_ERROR);
 	}
 
@@ -47,6 +47,7 @@ int YASL_require(struct YASL_State *S) {
 
 	if (!Ss) {
 		YASL_print_err(S, "could not open package %s.", mode_str);
+		free(mode_str);
 		YASL_throw_err(S, YASL_ERROR);
 	}
 
-- 
2.43.0


From 50728d26ac0e81208ef88e29235a64a4b033682a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:07 +0000
Subject: [PATCH 59/83] fix: __require_c__ leaked the name of the library

---
 std/yasl-std-require.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/std/yasl-std-require.c b/std/yasl-std-require.c
index e45ee3d..f13f7b2 100644
--- a/std/yasl-std-require.c
+++ b/std/yasl-std-require.c
@@ -161,31 +161,37 @@ int YASL_require_c(struct YASL_State *S) {
 	void *lib = search_on_path(YASL_DEFAULT_CPATH, path, YASL_PATH_MARK, YASL_PATH_SEP);
 	if (!lib) {
 	    vm_print_err_value((struct VM *)S, "couldn't open shared library: %s.\n", path);
+	    free(path);
 	    YASL_throw_err(S, YASL_VALUE_ERROR);
 	}
 	YASL_cfn fun = (YASL_cfn)GetProcAddress(lib, LOAD_LIB_FUN_NAME);
 	if (!fun) {
 	    vm_print_err_value((struct VM *)S, "couldn't load function: %s.\n", LOAD_LIB_FUN_NAME);
+	    free(path);
 	    YASL_throw_err(S, YASL_VALUE_ERROR);
 	}
 #ifndef _MSC_VER
 #pragma GCC diagnostic pop
 #endif
+	free(path);
 	fun(S);
 #elif defined(YASL_USE_UNIX) || defined(YASL_USE_APPLE)
 	void *lib = search_on_path(YASL_DEFAULT_CPATH, path, YASL_PATH_MARK, YASL_PATH_SEP);
 	if (!lib) {
 		vm_print_err_value((struct VM *) S, "%s\n", dlerror());
+		free(path);
 		YASL_throw_err(S, YASL_VALUE_ERROR);
 	}
 	YASL_cfn fun= (YASL_cfn) dlsym(lib, LOAD_LIB_FUN_NAME);
 	if (!fun) {
 		vm_print_err_value((struct VM *) S, "%s\n", dlerror());
+		free(path);
 		YASL_throw_err(S, YASL_VALUE_ERROR);
 	}
+	free(path);
 	fun(S);
 #else
-	(void) path;
+	free(path);
 	YASL_throw_err(S, YASL_PLATFORM_NOT_SUPP);
 #endif
 	return 1;
-- 
2.43.0


From 9858450f9ea9249347f27be6a5878751549f933e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:59 +0000
Subject: [PATCH 60/83] fix: a closed file was closed again when it was
 released, and could be used after it was closed

---
 std/yasl-std-io.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/std/yasl-std-io.c b/std/yasl-std-io.c
index db37066..2535f1c 100644
--- a/std/yasl-std-io.c
+++ b/std/yasl-std-io.c
@@ -13,12 +13,20 @@
 
 static const char *const FILE_NAME = "io.file";
 
+static FILE *check_open(struct YASL_State *S, const char *name, FILE *f) {
+	if (!f) {
+		vm_print_err_value((struct VM *)S, "%s expected an open file, but it has been closed.", name);
+		YASL_throw_err(S, YASL_VALUE_ERROR);
+	}
+	return f;
+}
+
 static FILE *YASLX_checkfile(struct YASL_State *S, const char *name, int pos) {
 	if (!YASL_isuserdata(S, FILE_NAME)) {
 		YASLX_print_err_bad_arg_type(S, name, pos, FILE_NAME, YASL_peektypename(S));
 		YASL_throw_err(S, YASL_TYPE_ERROR);
 	}
-	return (FILE *)YASL_popuserdata(S);
+	return check_open(S, name, (FILE *)YASL_popuserdata(S));
 }
 
 static FILE *YASLX_checknfile(struct YASL_State *S, const char *name, unsigned pos) {
@@ -26,11 +34,12 @@ static FILE *YASLX_checknfile(struct YASL_State *S, const char *name, unsigned p
 		YASLX_print_err_bad_arg_type(S, name, pos, FILE_NAME, YASL_peekntypename(S, pos));
 		YASL_throw_err(S, YASL_TYPE_ERROR);
 	}
-	return (FILE *)YASL_peeknuserdata(S, pos);
+	return check_open(S, name, (FILE *)YASL_peeknuserdata(S, pos));
 }
 
 static void close_file(void *ptr) {
-	fclose((FILE *)ptr);
+	// NULL if it has been closed already.
+	if (ptr) fclose((FILE *)ptr);
 }
 
 static int YASL_io_open(struct YASL_State *S) {
@@ -238,9 +247,10 @@ static int YASL_io_seek(struct YASL_State *S) {
 }
 
 static int YASL_io_close(struct YASL_State *S) {
-	FILE *f = YASLX_checkfile(S, FILE_PRE ".close", 0);
+	FILE *f = YASLX_checknfile(S, FILE_PRE ".close", 0);
 
 	int success = fclose(f);
+	YASL_GETUSERDATA(vm_peek((struct VM *)S))->data = NULL;
 	YASL_pushbool(S, success == 0);
 	return 1;
 }
-- 
2.43.0


From fc0beb59b7a3e53c814076951ee58931c5f2e900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:39 +0000
Subject: [PATCH 61/83] fix: io.file.read('a') returned uninitialised memory
 for files that cannot be read, and crashed for ones that cannot be rewound

---
 std/yasl-std-io.c | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/std/yasl-std-io.c b/std/yasl-std-io.c
index 2535f1c..1d5180e 100644
--- a/std/yasl-std-io.c
+++ b/std/yasl-std-io.c
@@ -144,15 +144,22 @@ static int YASL_io_read(struct YASL_State *S) {
 
 	switch (mode_str[0]) {
 	case 'a': {
-		fseek(f, 0, SEEK_END);
-		size_t fsize = ftell(f);
+		// files that cannot be rewound, such as pipes, are read from wherever they are.
 		fseek(f, 0, SEEK_SET);
 
-		char *string = (char *) malloc(fsize);
-		int result = fread(string, fsize, 1, f);
-		(void) result;
-		// TODO clean this up.
-		YASL_pushlstr(S, string, fsize);
+		size_t size = 16;
+		char *string = (char *)malloc(size);
+		size_t count = 0;
+		size_t n;
+
+		while ((n = fread(string + count, 1, size - count, f)) > 0) {
+			count += n;
+			if (count == size) {
+				size *= 2;
+				string = (char *)realloc(string, size);
+			}
+		}
+		YASL_pushlstr(S, string, count);
 		free(string);
 		return 1;
 	}
-- 
2.43.0


From 7d059d74c891e6961a48e4daa698e9bd3a46b159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:39 +0000
Subject: [PATCH 62/83] fix: io.file.write stopped at the first nul byte

---
 std/yasl-std-io.c | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/std/yasl-std-io.c b/std/yasl-std-io.c
index 1d5180e..5ecc669 100644
--- a/std/yasl-std-io.c
+++ b/std/yasl-std-io.c
@@ -193,15 +193,11 @@ static int YASL_io_write(struct YASL_State *S) {
 		vm_print_err_bad_arg_type_name((struct VM *)S, FILE_PRE ".write", 1, YASL_STR_NAME, YASL_peektypename(S));
 		YASL_throw_err(S, YASL_TYPE_ERROR);
 	}
-	char *str = YASL_peekcstr(S);
-	YASL_pop(S);
-
-	size_t len = strlen(str);
+	struct YASL_String *str = vm_popstr((struct VM *)S);
 
-	size_t write_len = fwrite(str, 1, len, f);
+	size_t write_len = fwrite(YASL_String_chars(str), 1, YASL_String_len(str), f);
 
 	YASL_pushint(S, write_len);
-	free(str);
 	return 1;
 }
 
-- 
2.43.0


From b06515e5aa888cff0a6f832ca3368f82205d3dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:31 +0000
Subject: [PATCH 63/83] fix: list.tostr, list.join, table.tostr and set.tostr
 leaked their buffers when an element cannot be turned into a str,
 collections.set(list) leaked the set

---
 interpreter/list_methods.c  | 96 +++++++++++++------------------------
 interpreter/table_methods.c | 86 +++++++++++++++++----------------
 interpreter/table_methods.h |  5 ++
 std/yasl-std-collections.c  | 50 ++++++-------------
 4 files changed, 97 insertions(+), 140 deletions(-)

diff --git a/interpreter/list_methods.c b/interpreter/list_methods.c
index 914755f..b1c4f5a 100644
--- a/interpreter/list_methods.c
+++ b/interpreter/list_methods.c
@@ -1,7 +1,9 @@
 #include "list_methods.h"
+#include "table_methods.h"
 
 #include "yasl.h"
 #include "yasl_aux.h"
+#include "data-structures/YASL_ByteBuffer.h"
 #include "data-structures/YASL_List.h"
 #include "yasl_error.h"
 #include "yasl_state.h"
@@ -60,22 +62,18 @@ int list___set(struct YASL_State *S) {
 	return 1;
 }
 
-int table_tostr_helper(struct YASL_State *S, void **buffer, size_t buffer_size, size_t buffer_count);
-bool buffer_contains(void **buffer, size_t buffer_count, void *val);
-void rec_call(struct YASL_State *S, void **buffer, const size_t buffer_count, const size_t buffer_size, int (*f)(struct YASL_State *, void **, size_t, size_t));
+int table_tostr_helper(struct YASL_State *S, struct YASL_ByteBuffer *bb, struct YASL_ByteBuffer *seen);
+bool seen_contains(struct YASL_ByteBuffer *seen, void *val);
+void rec_call(struct YASL_State *S, struct YASL_ByteBuffer *bb, struct YASL_ByteBuffer *seen, int (*f)(struct YASL_State *, struct YASL_ByteBuffer *, struct YASL_ByteBuffer *));
 
 #define FOUND_LIST "[...], "
 #define FOUND_TABLE "{...}, "
 
-int list_tostr_helper(struct YASL_State *S, void **buffer, size_t buffer_size, size_t buffer_count) {
-	struct YASL_ByteBuffer bb = NEW_BB(8);
-
-	YASL_ByteBuffer_add_byte(&bb, '[');
+int list_tostr_helper(struct YASL_State *S, struct YASL_ByteBuffer *bb, struct YASL_ByteBuffer *seen) {
+	YASL_ByteBuffer_add_byte(bb, '[');
 	struct YASL_List *list = vm_peeklist((struct VM *) S);
 	if (list->count == 0) {
-		vm_pop((struct VM *) S);
-		YASL_ByteBuffer_add_byte(&bb, ']');
-		vm_push((struct VM *) S, YASL_STR(YASL_String_new_sized_heap(0, bb.count, (char *)bb.bytes)));
+		YASL_ByteBuffer_add_byte(bb, ']');
 		return YASL_SUCCESS;
 	}
 
@@ -83,37 +81,34 @@ int list_tostr_helper(struct YASL_State *S, void **buffer, size_t buffer_size, s
 		vm_push((struct VM *) S, obj);
 
 		if (vm_islist((struct VM *) S)) {
-			bool found = buffer_contains(buffer, buffer_count, vm_peeklist((struct VM *) S));
+			bool found = seen_contains(seen, vm_peeklist((struct VM *) S));
 			if (found) {
-				YASL_ByteBuffer_extend(&bb, (unsigned char *)FOUND_LIST, strlen(FOUND_LIST));
+				YASL_ByteBuffer_extend(bb, (unsigned char *)FOUND_LIST, strlen(FOUND_LIST));
 				vm_pop((struct VM *) S);
 				continue;
 			} else {
-				rec_call(S, buffer, buffer_count, buffer_size, &list_tostr_helper);
+				rec_call(S, bb, seen, &list_tostr_helper);
 			}
 		} else if (vm_istable((struct VM *) S)) {
-			bool found = buffer_contains(buffer, buffer_count, vm_peeklist((struct VM *) S));
+			bool found = seen_contains(seen, vm_peeklist((struct VM *) S));
 			if (found) {
-				YASL_ByteBuffer_extend(&bb, (unsigned char *)FOUND_TABLE, strlen(FOUND_TABLE));
+				YASL_ByteBuffer_extend(bb, (unsigned char *)FOUND_TABLE, strlen(FOUND_TABLE));
 				vm_pop((struct VM *) S);
 				continue;
 			} else {
-				rec_call(S, buffer, buffer_count, buffer_size, &table_tostr_helper);
+				rec_call(S, bb, seen, &table_tostr_helper);
 			}
 		} else {
 			vm_stringify_top((struct VM *) S);
+			struct YASL_String *str = vm_peekstr((struct VM *) S);
+			YASL_ByteBuffer_extend(bb, (unsigned char *)YASL_String_chars(str), YASL_String_len(str));
 		}
-
-		struct YASL_String *str = vm_popstr((struct VM *) S);
-		YASL_ByteBuffer_extend(&bb, (unsigned char *)YASL_String_chars(str), YASL_String_len(str));
-		YASL_ByteBuffer_extend(&bb, (unsigned char *)", ", strlen(", "));
+		vm_pop((struct VM *) S);
+		YASL_ByteBuffer_extend(bb, (unsigned char *)", ", strlen(", "));
 	}
-	vm_pop((struct VM *) S);
 
-	bb.count -= 2;
-	YASL_ByteBuffer_add_byte(&bb, ']');
-
-	vm_push((struct VM *) S, YASL_STR(YASL_String_new_sized_heap(0, bb.count, (char *)bb.bytes)));
+	bb->count -= 2;
+	YASL_ByteBuffer_add_byte(bb, ']');
 
 	return YASL_SUCCESS;
 }
@@ -123,10 +118,12 @@ int list_tostr(struct YASL_State *S) {
 		YASLX_print_err_bad_arg_type(S, "list.tostr", 0, "list", YASL_peektypename(S));
 		YASL_throw_err(S, YASL_TYPE_ERROR);
 	}
-	void **buffer = (void **) malloc(8 * sizeof(void *));
-	buffer[0] = vm_peeklist((struct VM *) S, S->vm.sp);
-	list_tostr_helper(S, buffer, 8, 1);
-	free(buffer);
+	struct YASL_Object list = vm_peek((struct VM *) S);
+	struct YASL_ByteBuffer *bb = push_buffer(S);
+	struct YASL_ByteBuffer *seen = push_buffer(S);
+	vm_push((struct VM *) S, list);
+	rec_call(S, bb, seen, &list_tostr_helper);
+	push_buffer_as_str(S, bb);
 	return 1;
 }
 
@@ -277,47 +274,18 @@ int list_join(struct YASL_State *S) {
 		return 1;
 	}
 
-	size_t buffer_count = 0;
-	size_t buffer_size = 8;
-	char *buffer = (char *) malloc(buffer_size);
-
-	vm_push((struct VM *)S, list->items[0]);
-	vm_stringify_top((struct VM *)S);
-	struct YASL_String *str = vm_popstr((struct VM *) S);
-
-	while (buffer_count + YASL_String_len(str) >= buffer_size) {
-		buffer_size *= 2;
-		buffer = (char *) realloc(buffer, buffer_size);
-	}
+	struct YASL_ByteBuffer *bb = push_buffer(S);
 
-	memcpy(buffer + buffer_count, YASL_String_chars(str), YASL_String_len(str));
-	buffer_count += YASL_String_len(str);
-
-
-	for (size_t i = 1; i < list->count; i++) {
-		while (buffer_count + YASL_String_len(string) >= buffer_size) {
-			buffer_size *= 2;
-			buffer = (char *) realloc(buffer, buffer_size);
+	for (size_t i = 0; i < list->count; i++) {
+		if (i > 0) {
+			YASL_ByteBuffer_extend(bb, (unsigned char *)YASL_String_chars(string), YASL_String_len(string));
 		}
-
-		memcpy(buffer + buffer_count, YASL_String_chars(string), YASL_String_len(string));
-		buffer_count += YASL_String_len(string);
-
 		vm_push((struct VM *) S, list->items[i]);
 		vm_stringify_top((struct VM *)S);
 		struct YASL_String *str = vm_popstr((struct VM *) S);
-
-		while (buffer_count + YASL_String_len(str) >= buffer_size) {
-			buffer_size *= 2;
-			buffer = (char *) realloc(buffer, buffer_size);
-		}
-
-		memcpy(buffer + buffer_count, YASL_String_chars(str), YASL_String_len(str));
-		buffer_count += YASL_String_len(str);
+		YASL_ByteBuffer_extend(bb, (unsigned char *)YASL_String_chars(str), YASL_String_len(str));
 	}
-	vm_pop((struct VM *) S);
-	vm_pop((struct VM *) S);
-	vm_pushstr((struct VM *) S, YASL_String_new_sized_heap(0, buffer_count, buffer));
+	push_buffer_as_str(S, bb);
 	return 1;
 }
 
diff --git a/interpreter/table_methods.c b/interpreter/table_methods.c
index a12b6c8..f22c6e0 100644
--- a/interpreter/table_methods.c
+++ b/interpreter/table_methods.c
@@ -2,6 +2,7 @@
 
 #include "yasl.h"
 #include "yasl_aux.h"
+#include "data-structures/YASL_ByteBuffer.h"
 #include "yasl_error.h"
 #include "yasl_state.h"
 
@@ -94,39 +95,44 @@ int table___eq(struct YASL_State *S) {
 	return 1;
 }
 
-int list_tostr_helper(struct YASL_State *S, void **buffer, size_t buffer_size, size_t buffer_count);
+int list_tostr_helper(struct YASL_State *S, struct YASL_ByteBuffer *bb, struct YASL_ByteBuffer *seen);
+
+struct YASL_ByteBuffer *push_buffer(struct YASL_State *S) {
+	struct YASL_ByteBuffer *bb = YASL_ByteBuffer_new(8);
+	YASL_pushuserdata(S, bb, "buffer", (void (*)(void *))&YASL_ByteBuffer_del);
+	return bb;
+}
+
+void push_buffer_as_str(struct YASL_State *S, struct YASL_ByteBuffer *bb) {
+	char *chars = (char *)bb->bytes;
+	bb->bytes = NULL;
+	vm_pushstr(&S->vm, YASL_String_new_sized_heap(0, bb->count, chars));
+}
 
 #define FOUND_LIST "[...], "
 #define FOUND_TABLE "{...}, "
 
-bool buffer_contains(void **buffer, size_t buffer_count, void *val) {
-	for (size_t j = 0; j < buffer_count; j++) {
-		if (buffer[j] == val) {
+bool seen_contains(struct YASL_ByteBuffer *seen, void *val) {
+	for (size_t j = 0; j < seen->count; j += sizeof(void *)) {
+		if (!memcmp(seen->bytes + j, &val, sizeof(void *))) {
 			return true;
 		}
 	}
 	return false;
 }
 
-void rec_call(struct YASL_State *S, void **buffer, const size_t buffer_count, const size_t buffer_size, int (*f)(struct YASL_State *, void **, size_t, size_t)) {
-	size_t tmp_buffer_size =
-		buffer_count == buffer_size ? buffer_size * 2 : buffer_size;
-	void **tmp_buffer = (void **) malloc(tmp_buffer_size * sizeof(void *));
-	memcpy(tmp_buffer, buffer, sizeof(void *) * buffer_count);
-	tmp_buffer[buffer_count] = vm_peeklist((struct VM *) S);
-	f(S, tmp_buffer, tmp_buffer_size, buffer_count + 1);
-	free(tmp_buffer);
+void rec_call(struct YASL_State *S, struct YASL_ByteBuffer *bb, struct YASL_ByteBuffer *seen, int (*f)(struct YASL_State *, struct YASL_ByteBuffer *, struct YASL_ByteBuffer *)) {
+	void *val = vm_peeklist((struct VM *) S);
+	YASL_ByteBuffer_extend(seen, (unsigned char *)&val, sizeof(void *));
+	f(S, bb, seen);
+	seen->count -= sizeof(void *);
 }
 
-int table_tostr_helper(struct YASL_State *S, void **buffer, size_t buffer_size, size_t buffer_count) {
-	struct YASL_ByteBuffer bb = NEW_BB(8);
-
-	YASL_ByteBuffer_add_byte(&bb, '{');
+int table_tostr_helper(struct YASL_State *S, struct YASL_ByteBuffer *bb, struct YASL_ByteBuffer *seen) {
+	YASL_ByteBuffer_add_byte(bb, '{');
 	struct YASL_Table *table = vm_peektable((struct VM *) S);
 	if (table->count == 0) {
-		vm_pop((struct VM *) S);
-		YASL_ByteBuffer_add_byte(&bb, '}');
-		vm_push((struct VM *) S, YASL_STR(YASL_String_new_sized_heap(0, bb.count, (char *)bb.bytes)));
+		YASL_ByteBuffer_add_byte(bb, '}');
 		return YASL_SUCCESS;
 	}
 
@@ -136,44 +142,40 @@ int table_tostr_helper(struct YASL_State *S, void **buffer, size_t buffer_size,
 		vm_stringify_top(&S->vm);
 
 		struct YASL_String *str = vm_popstr((struct VM *) S);
-		YASL_ByteBuffer_extend(&bb, (unsigned char *)YASL_String_chars(str), YASL_String_len(str));
-		YASL_ByteBuffer_extend(&bb, (unsigned char *)": ", strlen(": "));
+		YASL_ByteBuffer_extend(bb, (unsigned char *)YASL_String_chars(str), YASL_String_len(str));
+		YASL_ByteBuffer_extend(bb, (unsigned char *)": ", strlen(": "));
 
 		vm_push((struct VM *) S, item->value);
 
 		if (vm_islist((struct VM *) S)) {
-			bool found = buffer_contains(buffer, buffer_count, vm_peeklist((struct VM *) S));
+			bool found = seen_contains(seen, vm_peeklist((struct VM *) S));
 			if (found) {
-				YASL_ByteBuffer_extend(&bb, (unsigned char *)FOUND_LIST, strlen(FOUND_LIST));
+				YASL_ByteBuffer_extend(bb, (unsigned char *)FOUND_LIST, strlen(FOUND_LIST));
 				vm_pop((struct VM *) S);
 				continue;
 			} else {
-				rec_call(S, buffer, buffer_count, buffer_size, &list_tostr_helper);
+				rec_call(S, bb, seen, &list_tostr_helper);
 			}
 		} else if (vm_istable((struct VM *) S, S->vm.sp)) {
-			bool found = buffer_contains(buffer, buffer_count, vm_peeklist((struct VM *) S));
+			bool found = seen_contains(seen, vm_peeklist((struct VM *) S));
 			if (found) {
-				YASL_ByteBuffer_extend(&bb, (unsigned char *)FOUND_TABLE, strlen(FOUND_TABLE));
+				YASL_ByteBuffer_extend(bb, (unsigned char *)FOUND_TABLE, strlen(FOUND_TABLE));
 				vm_pop((struct VM *) S);
 				continue;
 			} else {
-				rec_call(S, buffer, buffer_count, buffer_size, &table_tostr_helper);
+				rec_call(S, bb, seen, &table_tostr_helper);
 			}
 		} else {
 			vm_stringify_top((struct VM *) S);
+			str = vm_peekstr((struct VM *) S);
+			YASL_ByteBuffer_extend(bb, (unsigned char *)YASL_String_chars(str), YASL_String_len(str));
 		}
-
-		str = vm_popstr((struct VM *) S);
-		YASL_ByteBuffer_extend(&bb, (unsigned char *)YASL_String_chars(str), YASL_String_len(str));
-		YASL_ByteBuffer_extend(&bb, (unsigned char *)", ", strlen(", "));
+		vm_pop((struct VM *) S);
+		YASL_ByteBuffer_extend(bb, (unsigned char *)", ", strlen(", "));
 	}
 
-	vm_pop((struct VM *) S);
-
-	bb.count -= 2;
-	YASL_ByteBuffer_add_byte(&bb, '}');
-
-	vm_push((struct VM *) S, YASL_STR(YASL_String_new_sized_heap(0, bb.count, (char *)bb.bytes)));
+	bb->count -= 2;
+	YASL_ByteBuffer_add_byte(bb, '}');
 
 	return YASL_SUCCESS;
 }
@@ -184,10 +186,12 @@ int table_tostr(struct YASL_State *S) {
 		YASL_throw_err(S, YASL_TYPE_ERROR);
 	}
 
-	void **buffer = (void **) malloc(8 * sizeof(void *));
-	buffer[0] = vm_peektable((struct VM *) S, S->vm.sp);
-	table_tostr_helper(S, buffer, 8, 1);
-	free(buffer);
+	struct YASL_Object table = vm_peek((struct VM *) S);
+	struct YASL_ByteBuffer *bb = push_buffer(S);
+	struct YASL_ByteBuffer *seen = push_buffer(S);
+	vm_push((struct VM *) S, table);
+	rec_call(S, bb, seen, &table_tostr_helper);
+	push_buffer_as_str(S, bb);
 	return 1;
 }
 
diff --git a/interpreter/table_methods.h b/interpreter/table_methods.h
index ecdb79f..9c4cdac 100644
--- a/interpreter/table_methods.h
+++ b/interpreter/table_methods.h
@@ -2,6 +2,11 @@
 #define YASL_TABLE_METHODS_H_
 
 struct YASL_State;
+struct YASL_ByteBuffer;
+
+/* Buffers to be turned into strs. They are kept on the stack while in use, since stringifying values can throw. */
+struct YASL_ByteBuffer *push_buffer(struct YASL_State *S);
+void push_buffer_as_str(struct YASL_State *S, struct YASL_ByteBuffer *bb);
 
 int table___len(struct YASL_State *S);
 
diff --git a/std/yasl-std-collections.c b/std/yasl-std-collections.c
index 27df602..8bc4782 100644
--- a/std/yasl-std-collections.c
+++ b/std/yasl-std-collections.c
@@ -2,8 +2,10 @@
 
 #include <string.h>
 
+#include "data-structures/YASL_ByteBuffer.h"
 #include "data-structures/YASL_Set.h"
 #include "interpreter/refcount.h"
+#include "interpreter/table_methods.h"
 #include "yasl_state.h"
 #include "yasl_aux.h"
 
@@ -18,20 +20,15 @@ static struct YASL_Set *YASLX_checknset(struct YASL_State *S, const char *name,
 
 static int YASL_collections_set_fromlist(struct YASL_State *S) {
 	struct YASL_Set *set = YASL_Set_new();
+	struct YASL_List *list = vm_peeklist((struct VM *) S);
 
-	YASL_duptop(S);
-	YASL_len(S);
-	yasl_int len = YASL_popint(S);
-
-	for (yasl_int i = 0; i < len; i++) {
-		YASL_listget(S, i);
-		if (!YASL_Set_insert(set, vm_peek((struct VM *) S))) {
+	FOR_LIST(i, elmt, list) {
+		if (!YASL_Set_insert(set, elmt)) {
 			YASL_Set_del(set);
 			vm_print_err_type(&S->vm, "unable to use mutable object of type %s as key.",
-					  YASL_peektypename(S));
+					  obj_typename(&elmt));
 			YASL_throw_err(S, YASL_TYPE_ERROR);
 		}
-		YASL_pop(S);
 	}
 
 	YASL_pushuserdata(S, set, SET_NAME, YASL_Set_del);
@@ -105,41 +102,24 @@ static int YASL_collections_table_new(struct YASL_State *S) {
 static int YASL_collections_set_tostr(struct YASL_State *S) {
 	struct YASL_Set *set = YASLX_checknset(S, SET_PRE ".tostr", 0);
 
-	size_t string_count = 0;
-	size_t string_size = 8;
-	char *string = (char *)malloc(string_size);
-	string_count += strlen("set(");
-	memcpy(string, "set(", strlen("set("));
+	struct YASL_ByteBuffer *bb = push_buffer(S);
+	YASL_ByteBuffer_extend(bb, (const unsigned char *)"set(", strlen("set("));
 	if (YASL_Set_length(set) == 0) {
-		string[string_count++] = ')';
-		YASL_pushlstr(S, string, string_count);
-		free(string);
+		YASL_ByteBuffer_add_byte(bb, ')');
+		push_buffer_as_str(S, bb);
 		return 1;
 	}
 	FOR_SET(i, item, set) {
 		vm_push((struct VM *)S, *item);
 		vm_stringify_top((struct VM *) S);
 		struct YASL_String *str = vm_popstr((struct VM *) S);
-		while (string_count + YASL_String_len(str) >= string_size) {
-			string_size *= 2;
-			string = (char *) realloc(string, string_size);
-		}
-
-		memcpy(string + string_count, str->str + str->start, YASL_String_len(str));
-		string_count += YASL_String_len(str);
-
-		if (string_count + 2 >= string_size) {
-			string_size *= 2;
-			string = (char *) realloc(string, string_size);
-		}
-
-		string[string_count++] = ',';
-		string[string_count++] = ' ';
+		YASL_ByteBuffer_extend(bb, (unsigned char *)YASL_String_chars(str), YASL_String_len(str));
+		YASL_ByteBuffer_extend(bb, (const unsigned char *)", ", strlen(", "));
 	}
 
-	string_count -= 2;
-	string[string_count++] = ')';
-	vm_pushstr((struct VM *)S, YASL_String_new_sized_heap(0, string_count, string));
+	bb->count -= 2;
+	YASL_ByteBuffer_add_byte(bb, ')');
+	push_buffer_as_str(S, bb);
 	return 1;
 }
 
-- 
2.43.0


From 7dc424fb41165f9dc081409f9e1049362f9ec547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:31 +0000
Subject: [PATCH 64/83] fix: a match arm binding a name could write past the
 end of the stack, and a value pushed onto a full stack leaked

---
 interpreter/VM.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index 707ed19..409b7d5 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -193,6 +193,9 @@ void vm_throw_err(struct VM *const vm, int error) {
 
 void vm_push(struct VM *const vm, const struct YASL_Object val) {
 	if (vm->sp + 1 >= STACK_SIZE) {
+		struct YASL_Object unused = val;    // this might have been the only reference to it.
+		inc_ref(&unused);
+		dec_ref(&unused);
 		vm_print_err(vm, "StackOverflow.");
 		vm_throw_err(vm, YASL_STACK_OVERFLOW_ERROR);
 	}
@@ -1122,6 +1125,10 @@ static bool vm_MATCH_subpattern(struct VM *const vm, struct YASL_Object *expr) {
 		   still on top of the stack. This is taken care of _after_ a successful match by a O_DEL_FP instruction.
 		  */
 		unsigned char offset = NCODE(vm);
+		if (vm->fp + offset + 2 >= STACK_SIZE) {
+			vm_print_err(vm, "StackOverflow.");
+			vm_throw_err(vm, YASL_STACK_OVERFLOW_ERROR);
+		}
 		dec_ref(&vm_peek(vm, vm->fp + offset + 2));
 		vm_peek(vm, vm->fp + offset + 2) = *expr;
 		inc_ref(&vm_peek(vm, vm->fp + offset + 2));
-- 
2.43.0


From a85ea8b3bd9c93fd021be83de504444a33abbb5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:31 +0000
Subject: [PATCH 65/83] fix: int.tostr, float.tostr and io.file.read leaked
 their buffer when the stack is full

---
 interpreter/float_methods.c | 4 ++--
 interpreter/int_methods.c   | 4 ++--
 std/yasl-std-io.c           | 6 ++----
 3 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/interpreter/float_methods.c b/interpreter/float_methods.c
index 873c2fe..e3ae478 100644
--- a/interpreter/float_methods.c
+++ b/interpreter/float_methods.c
@@ -5,6 +5,7 @@
 #include "yasl.h"
 #include "yasl_aux.h"
 #include "yasl_float.h"
+#include "yasl_state.h"
 
 int float_toint(struct YASL_State *S) {
 	yasl_float val = YASLX_checknfloat(S, "float.toint", 0);
@@ -28,7 +29,6 @@ int float_tofloat(struct YASL_State *S) {
 int float_tostr(struct YASL_State *S) {
 	yasl_float val = YASLX_checknfloat(S, "float.tostr", 0);
 	const char *ptr = float64_to_str(val);
-	YASL_pushzstr(S, ptr);
-	free((void *)ptr);
+	vm_pushstr(&S->vm, YASL_String_new_sized_heap(0, strlen(ptr), ptr));
 	return 1;
 }
diff --git a/interpreter/int_methods.c b/interpreter/int_methods.c
index 559bd17..1eb6790 100644
--- a/interpreter/int_methods.c
+++ b/interpreter/int_methods.c
@@ -5,6 +5,7 @@
 #include "yasl.h"
 #include "yasl_aux.h"
 #include "yasl_include.h"
+#include "yasl_state.h"
 
 int int_toint(struct YASL_State *S) {
 	yasl_int n = YASLX_checknint(S, "int.toint", 0);
@@ -29,7 +30,6 @@ int int_tostr(struct YASL_State *S) {
 	int len = snprintf(NULL, 0, "%" PRId64 "", n);
 	char *ptr = (char *)malloc(len + 1);
 	sprintf(ptr, "%" PRId64 "", n);
-	YASL_pushlstr(S, ptr, len);
-	free(ptr);
+	vm_pushstr(&S->vm, YASL_String_new_sized_heap(0, len, ptr));
 	return 1;
 }
diff --git a/std/yasl-std-io.c b/std/yasl-std-io.c
index 5ecc669..17c3b7b 100644
--- a/std/yasl-std-io.c
+++ b/std/yasl-std-io.c
@@ -159,8 +159,7 @@ static int YASL_io_read(struct YASL_State *S) {
 				string = (char *)realloc(string, size);
 			}
 		}
-		YASL_pushlstr(S, string, count);
-		free(string);
+		vm_pushstr((struct VM *)S, YASL_String_new_sized_heap(0, count, string));
 		return 1;
 	}
 	case 'l': {
@@ -176,8 +175,7 @@ static int YASL_io_read(struct YASL_State *S) {
 			}
 			string[i++] = (char) c;
 		}
-		YASL_pushlstr(S, string, i);
-		free(string);
+		vm_pushstr((struct VM *)S, YASL_String_new_sized_heap(0, i, string));
 		return 1;
 	}
 	default:
-- 
2.43.0


From d2fbc7b840c22b4a92e7b103859d9c260b1e11a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:37 +0000
Subject: [PATCH 66/83] fix: looking ahead one token counted its lines twice
 and reported its errors twice

---
 compiler/parser.c | 49 ++++++++++++++++++++++++-----------------------
 1 file changed, 25 insertions(+), 24 deletions(-)

diff --git a/compiler/parser.c b/compiler/parser.c
index 78a1365..84d4d44 100644
--- a/compiler/parser.c
+++ b/compiler/parser.c
@@ -216,46 +216,47 @@ struct Node *parse_assign_or_exprstmt(struct Parser *const parser) {
 }
 
 /*
- * Checks for function statement `fn <id> ...` vs function expr `fn ( ...`.
+ * Checks whether the next token is `token`, without consuming the current one.
  */
-static bool isfndecl(struct Parser *const parser) {
-	long curr = lxtell(parser->lex.file);
-	eattok(parser, T_FN);
+static bool nexttok_is(struct Parser *const parser, const enum Token token) {
+	const struct Lexer saved = parser->lex;
+	const long curr = lxtell(parser->lex.file);
+	gettok(&parser->lex);
+	const bool result = TOKEN_MATCHES(parser, token);
 	free(parser->lex.value);
-	parser->lex.value = NULL;
-	bool result = TOKEN_MATCHES(parser, T_ID);
+	parser->lex.value = saved.value;
+	if (parser->lex.status) {
+		handle_error(parser);
+	}
+
 	lxseek(parser->lex.file, curr, SEEK_SET);
-	parser->lex.type = T_FN;
+	parser->lex.type = saved.type;
+	parser->lex.val_cap = saved.val_cap;
+	parser->lex.val_len = saved.val_len;
+	parser->lex.line = saved.line;
+	parser->lex.mode = saved.mode;
 	return result;
 }
 
+/*
+ * Checks for function statement `fn <id>( ...` vs literal `fn( ...`.
+ */
+static bool isfndecl(struct Parser *const parser) {
+	return nexttok_is(parser, T_ID);
+}
+
 /*
  * Checks for const function statement `const fn ...` vs const decl `const <id> ...`.
  */
 static bool isconstfndecl(struct Parser *const parser) {
-	long curr = lxtell(parser->lex.file);
-	eattok(parser, T_CONST);
-	free(parser->lex.value);
-	bool result = TOKEN_MATCHES(parser, T_FN);
-	lxseek(parser->lex.file, curr, SEEK_SET);
-	parser->lex.type = T_CONST;
-	return result;
+	return nexttok_is(parser, T_FN);
 }
 
 /*
  * Checks for multiple assignment `<id>, ...` vs other uses of identifiers.
  */
 static bool ismultiassign(struct Parser *const parser) {
-	long curr = lxtell(parser->lex.file);
-	char *name = parser->lex.value;
-	parser->lex.value = NULL;
-	eattok(parser, T_ID);
-	bool result = TOKEN_MATCHES(parser, T_COMMA);
-	lxseek(parser->lex.file, curr, SEEK_SET);
-	free(parser->lex.value);
-	parser->lex.type = T_ID;
-	parser->lex.value = name;
-	return result;
+	return nexttok_is(parser, T_COMMA);
 }
 
 static struct Node *parse_program(struct Parser *const parser) {
-- 
2.43.0


From 8326a9b56d9f122290c91bd14a0caeac83ba40ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:37 +0000
Subject: [PATCH 67/83] fix: an interpolated string could not be the first
 thing in an interpolation

---
 compiler/parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/parser.c b/compiler/parser.c
index 84d4d44..a4ac641 100644
--- a/compiler/parser.c
+++ b/compiler/parser.c
@@ -1116,8 +1116,8 @@ static struct Node *parse_string(struct Parser *const parser) {
 	// interpolated strings
 	while (parser->lex.mode == L_INTERP) {
 		eattok(parser, T_STR);
+		parser->lex.mode = L_NORMAL;    // the expression might itself start with an interpolated string.
 		eattok(parser, T_LBRC);
-		parser->lex.mode = L_NORMAL;
 		struct Node *expr = parse_expr(parser);
 		parser->lex.mode = L_INTERP;
 		cur_node = new_BinOp(parser, T_TILDE, cur_node, expr, parserline(parser));
-- 
2.43.0


From ba88b25f3ac8b2cc935b2062fbab24ec5aa3adfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:37 +0000
Subject: [PATCH 68/83] fix: a list, table or pattern with a line break after a
 token that follows a line break was rejected

---
 compiler/lexer.c  |  1 +
 compiler/parser.c | 26 ++++++++++++++++----------
 2 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/compiler/lexer.c b/compiler/lexer.c
index 3ebb02e..72cc67d 100644
--- a/compiler/lexer.c
+++ b/compiler/lexer.c
@@ -111,6 +111,7 @@ static bool lex_eatcommentsandwhitespace(struct Lexer * lex) {
 					return true;
 				}
 				if (addsemi && ispotentialend(lex)) {
+					lex->c = '\n';
 					lex->type = T_SEMI;
 					return true;
 				}
diff --git a/compiler/parser.c b/compiler/parser.c
index a4ac641..538269c 100644
--- a/compiler/parser.c
+++ b/compiler/parser.c
@@ -180,6 +180,12 @@ bool matcheattok(struct Parser *const parser, const enum Token token) {
 	return false;
 }
 
+static void eatnewlines(struct Parser *const parser) {
+	while (TOKEN_MATCHES(parser, T_SEMI) && parser->lex.c == '\n') {
+		eattok(parser, T_SEMI);
+	}
+}
+
 struct Node *parse(struct Parser *const parser) {
 	if (setjmp(parser->env)) {
 		return NULL;
@@ -665,7 +671,7 @@ static struct Node *parse_patternsingle(struct Parser *const parser) {
 			body_append(parser, &n, parse_primitivepattern(parser));
 			eattok(parser, T_COLON);
 			body_append(parser, &n, parse_pattern(parser));
-			while (parser->lex.c == '\n') eattok(parser, T_SEMI);
+			eatnewlines(parser);
 			while (matcheattok(parser, T_COMMA)) {
 				YASL_PARSE_DEBUG_LOG("%s\n", "Parsing table pattern");
 				if (matcheattok(parser, T_TDOT)) {
@@ -676,7 +682,7 @@ static struct Node *parse_patternsingle(struct Parser *const parser) {
 				eattok(parser, T_COLON);
 				body_append(parser, &n, parse_pattern(parser));
 			}
-			while (parser->lex.c == '\n') eattok(parser, T_SEMI);
+			eatnewlines(parser);
 		}
 		eattok(parser, T_RBRC);
 		return n;
@@ -689,7 +695,7 @@ static struct Node *parse_patternsingle(struct Parser *const parser) {
 			n->nodetype = N_PATVLS;
 		} else if (curtok(parser) != T_RSQB) {
 			body_append(parser, &n, parse_pattern(parser));
-			while (parser->lex.c == '\n') eattok(parser, T_SEMI);
+			eatnewlines(parser);
 			while (matcheattok(parser, T_COMMA)) {
 				YASL_PARSE_DEBUG_LOG("%s\n", "Parsing list pattern");
 				if (matcheattok(parser, T_TDOT)) {
@@ -698,7 +704,7 @@ static struct Node *parse_patternsingle(struct Parser *const parser) {
 				}
 				body_append(parser, &n, parse_pattern(parser));
 			}
-			while (parser->lex.c == '\n') eattok(parser, T_SEMI);
+			eatnewlines(parser);
 		}
 		eattok(parser, T_RSQB);
 		return n;
@@ -1159,7 +1165,7 @@ static struct Node *parse_table(struct Parser *const parser) {
 	eattok(parser, T_COLON);
 	body_append(parser, &keys, parse_expr(parser));
 
-	while (parser->lex.c == '\n') eattok(parser, T_SEMI);
+	eatnewlines(parser);
 	if (matcheattok(parser, T_FOR)) {
 		struct Node *iter = parse_iterate(parser);
 
@@ -1168,7 +1174,7 @@ static struct Node *parse_table(struct Parser *const parser) {
 			cond = parse_expr(parser);
 		}
 
-		while (parser->lex.c == '\n') eattok(parser, T_SEMI);
+		eatnewlines(parser);
 		eattok(parser, T_RBRC);
 		struct Node *table_comp = new_TableComp(parser, keys, iter, cond, line);
 		return table_comp;
@@ -1178,7 +1184,7 @@ static struct Node *parse_table(struct Parser *const parser) {
 		eattok(parser, T_COLON);
 		body_append(parser, &keys, parse_expr(parser));
 	}
-	while (parser->lex.c == '\n') eattok(parser, T_SEMI);
+	eatnewlines(parser);
 	eattok(parser, T_RBRC);
 	return new_Table(parser, keys, line);
 }
@@ -1198,7 +1204,7 @@ static struct Node *parse_list(struct Parser *const parser) {
 
 	body_append(parser, &keys, parse_expr(parser));
 
-	while (parser->lex.c == '\n') eattok(parser, T_SEMI);
+	eatnewlines(parser);
 
 	// non-empty list
 	if (matcheattok(parser, T_FOR)) {
@@ -1209,7 +1215,7 @@ static struct Node *parse_list(struct Parser *const parser) {
 			cond = parse_expr(parser);
 		}
 
-		while (parser->lex.c == '\n') eattok(parser, T_SEMI);
+		eatnewlines(parser);
 		eattok(parser, T_RSQB);
 		struct Node *table_comp = new_ListComp(parser, keys->children[0], iter, cond, line);
 		return table_comp;
@@ -1218,7 +1224,7 @@ static struct Node *parse_list(struct Parser *const parser) {
 			YASL_PARSE_DEBUG_LOG("%s\n", "Parsing list");
 			body_append(parser, &keys, parse_expr(parser));
 		}
-		while (parser->lex.c == '\n') eattok(parser, T_SEMI);
+		eatnewlines(parser);
 		eattok(parser, T_RSQB);
 		return new_List(parser, keys, line);
 	}
-- 
2.43.0


From 5430a1cb7f07662d6136e6cd9e5ead6e84708665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:50 +0000
Subject: [PATCH 69/83] fix: a function closing over more than 255 variables
 used the wrong ones

---
 compiler/compiler.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/compiler/compiler.c b/compiler/compiler.c
index 9e7d43d..d44fa4a 100644
--- a/compiler/compiler.c
+++ b/compiler/compiler.c
@@ -421,6 +421,10 @@ static void visit_FnDecl(struct Compiler *const compiler, const struct Node *con
 
 	if (compiler->params->isclosure) {
 		const size_t count = compiler->params->upval_indices.count;
+		if (count > 255) {
+			compiler_print_err_syntax(compiler, "Too many closed over variables in function (line %" PRI_SIZET ").\n", node->line);
+			handle_error(compiler);
+		}
 		bool is_wide = false;
 		FOR_TABLE(i, item, &compiler->params->upval_values) {
 			const yasl_int value = item->value.value.ival;
-- 
2.43.0


From a5d492a023855b528abcec699cdc9271a1416169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:50 +0000
Subject: [PATCH 70/83] fix: compiling a large program overflowed the C stack
 and took quadratic time

---
 compiler/ast.c    | 51 +++++++++++++++++------------------------------
 compiler/ast.h    |  3 ++-
 compiler/parser.c | 39 ++++++++++--------------------------
 compiler/parser.h |  2 --
 4 files changed, 31 insertions(+), 64 deletions(-)

diff --git a/compiler/ast.c b/compiler/ast.c
index eeb25bd..35dfc7d 100644
--- a/compiler/ast.c
+++ b/compiler/ast.c
@@ -50,7 +50,6 @@ struct Node *node_clone(const struct Node *const node) {
 static struct Node *new_Node(struct Parser *parser, const enum NodeType nodetype, const size_t line, const size_t name_len,
 		char *const name /* OWN */, const size_t n, ... /* OWN */) {
 	struct Node *const node = (struct Node *)malloc(sizeof(struct Node) + sizeof(struct Node *) * n);
-	node->next = NULL;
 	node->nodetype = nodetype;
 	node->children_len = n;
 
@@ -196,7 +195,6 @@ DEF_NODE_ZSTR(Const, N_CONST, expr)
 
 struct Node *new_TriOp(struct Parser *parser, enum Token op, struct Node *left, struct Node *middle, struct Node *right, const size_t line) {
 	struct Node *const node = (struct Node *)malloc(sizeof(struct Node) + sizeof(struct Node *) * 3);
-	node->next = NULL;
 	node->nodetype = N_TRIOP;
 	node->children_len = 3;
 	node->value.type = op;
@@ -211,7 +209,6 @@ struct Node *new_TriOp(struct Parser *parser, enum Token op, struct Node *left,
 
 struct Node *new_BinOp(struct Parser *parser, enum Token op, struct Node *left, struct Node *right, const size_t line) {
 	struct Node *const node = (struct Node *)malloc(sizeof(struct Node) + sizeof(struct Node *) * 2);
-	node->next = NULL;
 	node->nodetype = N_BINOP;
 	node->children_len = 0;
 	node->value.binop = ((struct BinOpNode) { op, left, right });
@@ -223,7 +220,6 @@ struct Node *new_BinOp(struct Parser *parser, enum Token op, struct Node *left,
 
 struct Node *new_UnOp(struct Parser *parser, enum Token op, struct Node *child, const size_t line) {
 	struct Node *const node = (struct Node *)malloc(sizeof(struct Node) + sizeof(struct Node *) * 1);
-	node->next = NULL;
 	node->nodetype = N_UNOP;
 	node->children_len = 0;
 	node->value.unop = ((struct UnOpNode) { op, child });
@@ -269,36 +265,25 @@ struct Node *new_VariadicContext(struct Parser *parser, const struct Node *const
 }
 
 void node_del(struct Node *node) {
-	if (!node) return;
-	node_del(node->next);
-	switch (node->nodetype) {
-	case N_PATALT:
-	case N_BINOP:
-	case N_UNOP:
-	case N_VARCONT:
-	case N_TRIOP:
-	case N_BOOL:
-	case N_INT:
-	case N_FLOAT:
-	case N_PATBOOL:
-	case N_PATINT:
-	case N_PATFL:
-		break;
-	case N_VAR:
-	case N_LET:
-	case N_STR:
-	case N_CONST:
-	case N_LETITER:
-	case N_FNDECL:
-	case N_PATCONST:
-	case N_PATLET:
-	case N_PATSTR:
-		free(node->value.sval.str);
-	default:
-		//free(node->value.sval.str);
-		break;
+	while (node) {
+		struct Node *const next = node->next;
+		switch (node->nodetype) {
+		case N_VAR:
+		case N_LET:
+		case N_STR:
+		case N_CONST:
+		case N_LETITER:
+		case N_FNDECL:
+		case N_PATCONST:
+		case N_PATLET:
+		case N_PATSTR:
+			free(node->value.sval.str);
+		default:
+			break;
+		}
+		free(node);
+		node = next;
 	}
-	free(node);
 }
 
 struct Node *Block_get_block(const struct Node *const node) {
diff --git a/compiler/ast.h b/compiler/ast.h
index 4bc4124..d34ad87 100644
--- a/compiler/ast.h
+++ b/compiler/ast.h
@@ -51,7 +51,8 @@ struct BodyNode {
 };
 
 struct Node {
-	struct Node *next;
+	struct Node *next;    // all nodes of a parser are kept in a list.
+	struct Node *prev;
 	enum NodeType nodetype;
 	union {
 		struct {
diff --git a/compiler/parser.c b/compiler/parser.c
index 538269c..e265726 100644
--- a/compiler/parser.c
+++ b/compiler/parser.c
@@ -62,37 +62,20 @@ YASL_FORMAT_CHECK static void parser_print_err(struct Parser *parser, const char
 #define parser_print_err_syntax(parser, format, ...) parser_print_err(parser, "SyntaxError: " format, __VA_ARGS__)
 
 void parser_register_node(struct Parser *parser, struct Node *node) {
-	if (!parser->head) {
-		parser->head = node;
-	} else {
-		parser->tail->next = node;
-	}
-	parser->tail = node;
+	node->prev = NULL;
+	node->next = parser->head;
+	if (parser->head)
+		parser->head->prev = node;
+	parser->head = node;
 }
 
 void parser_unregister_node(struct Parser *parser, struct Node *node) {
-	if (!parser->head)
-		return;
-
-	if (parser->head == node) {
-		parser->head = parser->head->next;
-		node->next = NULL;
-		return;
-	}
-
-	struct Node *prev = parser->head;
-	struct Node *curr = prev->next;
-	while (curr) {
-		if (curr == node) {
-			prev->next = curr->next;
-			node->next = NULL;
-			if (node == parser->tail)
-				parser->tail = prev;
-			break;
-		}
-		prev = curr;
-		curr = curr->next;
-	}
+	if (node->prev)
+		node->prev->next = node->next;
+	else
+		parser->head = node->next;
+	if (node->next)
+		node->next->prev = node->prev;
 }
 
 int peof(const struct Parser *const parser) {
diff --git a/compiler/parser.h b/compiler/parser.h
index fe8de9c..d9a137e 100644
--- a/compiler/parser.h
+++ b/compiler/parser.h
@@ -18,14 +18,12 @@
 	.lex = NEW_LEXER(fp),\
 	.status = YASL_SUCCESS,\
 	.head = NULL,\
-	.tail = NULL,\
 })
 
 struct Parser {
 	struct Lexer lex; /* OWN */
 	int status;
 	struct Node *head;
-	struct Node *tail;
 	jmp_buf env;
 };
 
-- 
2.43.0


From 53c6e958d1e3023335408923bd9e5930893bbb8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:23 +0000
Subject: [PATCH 71/83] fix: errors in functions from modules were reported
 with lines of the wrong file

---
 interpreter/VM.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index 409b7d5..d8ec39a 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -141,12 +141,22 @@ YASL_FORMAT_CHECK static void vm_print_err_wrapper(struct VM *vm, const char *co
 static void vm_exitframe(struct VM *const vm);
 void vm_executenext(struct VM *const vm);
 
+/* The code being executed, which isn't what was last compiled if we're in a function from a module. */
+static const unsigned char *vm_getcurrcode(const struct VM *const vm) {
+	for (size_t i = 0; i < vm->headers_size; i++) {
+		const unsigned char *const code = vm->headers[i];
+		if (code && vm->pc >= code && vm->pc <= code + ((const int64_t *)code)[1]) return code;
+	}
+	return vm->code;
+}
+
 static size_t vm_getcurrline(struct VM *vm) {
-	size_t start = ((int64_t *)vm->code)[0];
-	size_t line_start = ((int64_t *)vm->code)[1];
-	const unsigned char *tmp = vm->code + line_start;
+	const unsigned char *const code = vm_getcurrcode(vm);
+	size_t start = ((const int64_t *)code)[0];
+	size_t line_start = ((const int64_t *)code)[1];
+	const unsigned char *tmp = code + line_start;
 	long unsigned i = 0;
-	while (vint_decode(tmp) < vm->pc - vm->code - start) {
+	while (vint_decode(tmp) < vm->pc - code - start) {
 		tmp = vint_next(tmp);
 		i++;
 	}
-- 
2.43.0


From 6963cd29e5238a0a844ca5e42c1899357beded50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:23 +0000
Subject: [PATCH 72/83] fix: requiring a module replaced changed libraries,
 ignored redirected output and leaked if the module failed

---
 std/yasl-std-require.c | 128 +++++++++++++++++++++++++++++------------
 1 file changed, 90 insertions(+), 38 deletions(-)

diff --git a/std/yasl-std-require.c b/std/yasl-std-require.c
index f13f7b2..bb11f08 100644
--- a/std/yasl-std-require.c
+++ b/std/yasl-std-require.c
@@ -1,3 +1,5 @@
+#include <stdarg.h>
+
 #include <yasl_state.h>
 #include "yasl-std-require.h"
 #include "yasl-std-math.h"
@@ -7,6 +9,7 @@
 
 #define LOAD_LIB_FUN_NAME "YASL_load_dyn_lib"
 
+void vm_close_all(struct VM *const vm);
 struct YASL_State *YASL_newstate_num(const char *filename, size_t num);
 
 // TODO: rewrite this whole fucking mess. I'm not even sure if it works properly honestly.
@@ -34,6 +37,85 @@ static struct YASL_State *open_on_path(const char *path, const char *name, const
 	return YASL_newstate_num(name, num);
 }
 
+/* Add everything that's only in `from` to `to`. */
+static void add_missing(struct YASL_Table *const to, const struct YASL_Table *const from) {
+	FOR_TABLE(i, item, from) {
+		if (YASL_Table_search(to, item->key).type == Y_END) {
+			YASL_Table_insert_fast(to, item->key, item->value);
+		}
+	}
+}
+
+static void print_to(struct IO *const io, const char *const fmt, ...) {
+	va_list args;
+	va_start(args, fmt);
+	io->print(io, fmt, args);
+	va_end(args);
+}
+
+/* The module is compiled and run in a state of its own, which shares everything the functions in it will need later. */
+static void module_share(struct YASL_State *const Ss, struct YASL_State *const S) {
+	YASL_Table_del(Ss->compiler.strings);
+	Ss->compiler.strings = S->compiler.strings;
+	YASL_ByteBuffer_del(Ss->compiler.header);
+	Ss->compiler.header = S->compiler.header;
+
+	// Load Standard Libraries. The ones S already has are kept, it might have changed them.
+	YASLX_decllibs(Ss);
+
+	add_missing(S->vm.globals, Ss->vm.globals);
+	YASL_Table_del(Ss->vm.globals);
+	Ss->vm.globals = S->vm.globals;
+
+	add_missing(S->vm.metatables, Ss->vm.metatables);
+	YASL_Table_del(Ss->vm.metatables);
+	Ss->vm.metatables = S->vm.metatables;
+
+	memcpy(Ss->vm.headers, S->vm.headers, S->vm.headers_size * sizeof(unsigned char *));
+
+	Ss->compiler.parser.lex.err.print = S->vm.err.print;
+	Ss->compiler.parser.lex.err.file = S->vm.err.file;
+	Ss->vm.out = S->vm.out;
+	Ss->vm.err = S->vm.err;
+}
+
+/* Give everything back to S, and delete Ss. */
+static void module_unshare(struct YASL_State *const Ss, struct YASL_State *const S) {
+	S->vm.out = Ss->vm.out;
+	S->vm.err = Ss->vm.err;
+	Ss->vm.out = NEW_IO(stdout);
+	Ss->vm.err = NEW_IO(stderr);
+	if (Ss->compiler.parser.lex.err.string) {
+		print_to(&S->vm.err, "%s", Ss->compiler.parser.lex.err.string);
+	}
+
+	free(S->vm.headers);
+	S->vm.headers = Ss->vm.headers;
+	S->vm.headers_size = Ss->vm.headers_size;
+	Ss->vm.headers = NULL;
+	Ss->vm.headers_size = 0;
+
+	Ss->vm.globals = NULL;
+	Ss->vm.metatables = NULL;
+
+	Ss->vm.code = NULL;
+	Ss->compiler.strings = NULL;
+	Ss->compiler.header = YASL_ByteBuffer_new(0);
+
+	if (Ss->vm.constants) {
+		for (int i = 0; i < S->vm.num_constants; i++) {
+			dec_ref(S->vm.constants + i);
+		}
+		free(S->vm.constants);
+		S->vm.constants = Ss->vm.constants;
+		S->vm.num_constants = Ss->vm.num_constants;
+		Ss->vm.constants = NULL;
+		Ss->vm.num_constants = 0;
+	}
+
+	YASL_delstate(Ss);
+}
+
 int YASL_require(struct YASL_State *S) {
 	if (!YASL_isstr(S)) {
 		YASLX_print_err_bad_arg_type(S, "require", 0, YASL_STR_NAME, YASL_peektypename(S));
@@ -51,24 +133,17 @@ int YASL_require(struct YASL_State *S) {
 		YASL_throw_err(S, YASL_ERROR);
 	}
 
-	YASL_Table_del(Ss->compiler.strings);
-	Ss->compiler.strings = S->compiler.strings;
-	YASL_ByteBuffer_del(Ss->compiler.header);
-	Ss->compiler.header = S->compiler.header;
-	YASL_Table_del(Ss->vm.globals);
-	Ss->vm.globals = S->vm.globals;
-	// Ss->vm.constants = S->vm.constants;
-
-	// Load Standard Libraries
-	YASLX_decllibs(Ss);
-
-	YASL_Table_del(Ss->vm.metatables);
-	Ss->vm.metatables = S->vm.metatables;
+	module_share(Ss, S);
 
 	int status = YASL_execute(Ss);
 
 	if (status != YASL_MODULE_SUCCESS) {
-		puts("Not a valid module");
+		// Something in S might still have a closure from the module, it can't use the stack of Ss.
+		Ss->vm.fp = -1;
+		vm_close_all(&Ss->vm);
+		module_unshare(Ss, S);
+		YASL_print_err(S, "%s is not a valid module.", mode_str);
+		free(mode_str);
 		YASL_throw_err(S, YASL_ERROR);
 	}
 
@@ -77,30 +152,7 @@ int YASL_require(struct YASL_State *S) {
 
 	vm_pushundef(&Ss->vm);
 
-	size_t old_headers_size = S->vm.headers_size;
-	size_t new_headers_size = Ss->vm.headers_size;
-	S->vm.headers = (unsigned char **) realloc(S->vm.headers, new_headers_size * sizeof(unsigned char *));
-	for (size_t i = old_headers_size; i < new_headers_size; i++) {
-		S->vm.headers[i] = Ss->vm.headers[i];
-		Ss->vm.headers[i] = NULL;
-	}
-
-	Ss->vm.globals = NULL;
-	Ss->vm.metatables = NULL;
-
-	Ss->vm.code = NULL;
-	Ss->compiler.strings = NULL;
-	Ss->compiler.header = YASL_ByteBuffer_new(0);
-	for (int i = 0; i < S->vm.num_constants; i++) {
-		dec_ref(S->vm.constants + i);
-	}
-	free(S->vm.constants);
-	S->vm.constants = Ss->vm.constants;
-	S->vm.num_constants = Ss->vm.num_constants;
-	Ss->vm.constants = NULL;
-	Ss->vm.num_constants = 0;
-
-	YASL_delstate(Ss);
+	module_unshare(Ss, S);
 
 	vm_push(&S->vm, exported);
 	dec_ref(&vm_peek(&S->vm));
-- 
2.43.0


From 67a5764af059e0e344c093d8fce56794c5df44c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:23 +0000
Subject: [PATCH 73/83] fix: functions from earlier pieces of code run in the
 same state used freed code

---
 interpreter/VM.c | 27 +++++++++++++++++++++++----
 interpreter/VM.h |  2 ++
 yasl.c           | 30 ++++++++++++++++++++++--------
 3 files changed, 47 insertions(+), 12 deletions(-)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index d8ec39a..3a2ef0e 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -76,12 +76,25 @@ void vm_init(struct VM *const vm,
 static void vm_close_from(struct VM *const vm, struct YASL_Object *const end);
 void vm_close_all(struct VM *const vm);
 
-void vm_cleanup(struct VM *const vm) {
-	// Exit out of all loops (in case we're exiting with an error).
+static void vm_exit_loops(struct VM *const vm) {
 	while (vm->loopframe_num >= 0) {
 		dec_ref(&vm->loopframes[vm->loopframe_num].iterable);
 		vm->loopframe_num--;
 	}
+}
+
+/* Leave everything that an error might have left in the middle, so that something else can be executed. */
+void vm_unwind(struct VM *const vm) {
+	vm_exit_loops(vm);
+	vm->fp = -1;
+	vm_close_all(vm);
+	vm->sp = -1;
+	vm->frame_num = -1;
+}
+
+void vm_cleanup(struct VM *const vm) {
+	// Exit out of all loops (in case we're exiting with an error).
+	vm_exit_loops(vm);
 
 	for (size_t i = 0; i < STACK_SIZE; i++) {
  		dec_ref(vm->stack + i);
@@ -1180,9 +1193,10 @@ static void vm_GSTORE_8(struct VM *const vm) {
 static void vm_GLOAD_8(struct VM *const vm) {
 	yasl_int addr = vm_read_int(vm);
 
-	vm_push(vm, YASL_Table_search(vm->globals, vm->constants[addr]));
+	const struct YASL_Object global = YASL_Table_search(vm->globals, vm->constants[addr]);
 
-	YASL_ASSERT(vm_peek(vm).type != Y_END, "global not found");
+	// if there was an error while it was being declared, it never got a value.
+	vm_push(vm, global.type == Y_END ? YASL_UNDEF() : global);
 }
 
 static void vm_enterframe_offset(struct VM *const vm, int offset, int num_returns) {
@@ -1229,6 +1243,7 @@ static void vm_exitframe_multi(struct VM *const vm, int len) {
 }
 
 static void vm_exitframe(struct VM *const vm) {
+	vm_close_all(vm);
 	vm_rm_range(vm, vm->fp, vm->sp);
 
 	struct CallFrame frame = vm->frames[vm->frame_num];
@@ -1395,6 +1410,10 @@ static void vm_ECHO(struct VM *const vm) {
 }
 
 void vm_setupconstants(struct VM *const vm) {
+	for (int64_t i = 0; i < vm->num_constants; i++) {
+		dec_ref(vm->constants + i);
+	}
+	free(vm->constants);
 	vm->num_constants = ((int64_t *)vm->code)[2];
 	vm->constants = (struct YASL_Object *)malloc(sizeof(struct YASL_Object) * vm->num_constants);
 	unsigned char *tmp = vm->code + 3*sizeof(int64_t);
diff --git a/interpreter/VM.h b/interpreter/VM.h
index 1356f03..b77aa0b 100644
--- a/interpreter/VM.h
+++ b/interpreter/VM.h
@@ -123,6 +123,8 @@ void vm_init(struct VM *const vm, unsigned char *const code, const size_t pc, co
 
 void vm_cleanup(struct VM *const vm);
 
+void vm_unwind(struct VM *const vm);
+
 void vvm_print_err(struct VM *vm, const char *const fmt, va_list args);
 void vm_print_err(struct VM *vm, const char *const fmt, ...);
 
diff --git a/yasl.c b/yasl.c
index 1502d4c..e678173 100644
--- a/yasl.c
+++ b/yasl.c
@@ -76,6 +76,14 @@ void YASL_loadprinterr(struct YASL_State *S) {
 	}
 }
 
+static void reset_code(struct YASL_State *S) {
+	S->compiler.code->count = 0;
+	S->compiler.buffer->count = 0;
+	S->compiler.lines->count = 0;
+	S->compiler.line = 0;
+	vm_unwind((struct VM *) S);
+}
+
 int YASL_resetstate(struct YASL_State *S, const char *filename) {
 	FILE *fp = fopen(filename, "r");
 	if (!fp) {
@@ -89,8 +97,7 @@ int YASL_resetstate(struct YASL_State *S, const char *filename) {
 	lex_cleanup(&S->compiler.parser.lex);
 
 	S->compiler.parser.lex = NEW_LEXER(lexinput_new_file(fp));
-	S->compiler.code->count = 0;
-	S->compiler.buffer->count = 0;
+	reset_code(S);
 
 	return YASL_SUCCESS;
 }
@@ -113,10 +120,7 @@ int YASL_resetstate_bb(struct YASL_State *S, const char *buf, size_t len) {
 	S->compiler.parser.status = YASL_SUCCESS;
 	lex_cleanup(&S->compiler.parser.lex);
 	S->compiler.parser.lex = NEW_LEXER(lexinput_new_bb(buf, len));
-	S->compiler.code->count = 0;
-	S->compiler.buffer->count = 0;
-	if (S->vm.code)	free(S->vm.code);
-	S->vm.code = NULL;
+	reset_code(S);
 
 	return YASL_SUCCESS;
 }
@@ -130,6 +134,16 @@ int YASL_delstate(struct YASL_State *S) {
 	return YASL_SUCCESS;
 }
 
+/* Functions defined in code that already ran might still be around, so all of the code is kept until S is deleted. */
+static void add_header(struct YASL_State *S, unsigned char *bc) {
+	size_t index = (size_t) S->compiler.num;
+	if (S->vm.headers[index]) {
+		index = S->vm.headers_size++;
+		S->vm.headers = (unsigned char **) realloc(S->vm.headers, S->vm.headers_size * sizeof(unsigned char *));
+	}
+	S->vm.headers[index] = bc;
+}
+
 int YASL_execute_REPL(struct YASL_State *S) {
 	unsigned char *bc = compile_REPL(&S->compiler);
 	if (!bc) return S->compiler.status;
@@ -140,7 +154,7 @@ int YASL_execute_REPL(struct YASL_State *S) {
 
 	S->vm.pc = bc + entry_point;
 	S->vm.code = bc;
-	S->vm.headers[S->compiler.num] = bc;
+	add_header(S, bc);
 
 	return vm_run((struct VM *)S);  // TODO: error handling for runtime errors.
 }
@@ -160,7 +174,7 @@ int YASL_execute(struct YASL_State *S) {
 
 	S->vm.pc = bc + entry_point;
 	S->vm.code = bc;
-	S->vm.headers[S->compiler.num] = bc;
+	add_header(S, bc);
 
 	return vm_run((struct VM *) S);  // TODO: error handling for runtime errors.
 }
-- 
2.43.0


From d55347fa03a2a82f545faf416d7eee87b59d59b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:23 +0000
Subject: [PATCH 74/83] fix: the REPL used all memory when its input ended

---
 main.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/main.c b/main.c
index 0d900ca..ac8fd7f 100644
--- a/main.c
+++ b/main.c
@@ -141,9 +141,9 @@ static int main_REPL(int argc, char **argv) {
 	YASL_setglobal(S, "quit");
 	puts(YASL_LOGO);
 	puts(VERSION_PRINTOUT);
-	while (true) {
+	while (!feof(stdin) && !ferror(stdin)) {
 		printf("yasl> ");
-		while ((next = getchar()) != '\n') {
+		while ((next = getchar()) != '\n' && next != EOF) {
 			YASL_ByteBuffer_add_byte(buffer, next);
 		}
 		YASL_ByteBuffer_add_byte(buffer, '\n');
-- 
2.43.0


From 555270af0e0c5203e1bb76186ca1bdc4226d7f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:24 +0000
Subject: [PATCH 75/83] fix: -C rejected scripts that use args

---
 main.c | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/main.c b/main.c
index ac8fd7f..5f51097 100644
--- a/main.c
+++ b/main.c
@@ -79,14 +79,9 @@ static int main_compile(int argc, char **argv) {
 	// Load Standard Libraries
 	YASLX_decllibs(S);
 
-	int status = YASL_compile(S);
 	YASL_declglobal(S, "args");
-	YASL_pushlist(S);
-	for (int i = 1; i < argc; i++) {
-		YASL_pushlit(S, argv[i]);
-		YASL_listpush(S);
-	}
-	YASL_setglobal(S, "args");
+
+	int status = YASL_compile(S);
 
 	YASL_delstate(S);
 
-- 
2.43.0


From 98ce03a6c1e809b260da1449e7b5172113001935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:05 +0000
Subject: [PATCH 76/83] fix: math.max and math.min compare ints as ints

---
 std/yasl-std-math.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/std/yasl-std-math.c b/std/yasl-std-math.c
index d73bc76..9479649 100644
--- a/std/yasl-std-math.c
+++ b/std/yasl-std-math.c
@@ -85,6 +85,11 @@ DEFINE_MATH_UN_FLOAT_FUN(atan);
 DEFINE_MATH_UN_FLOAT_FUN(ceil);
 DEFINE_MATH_UN_FLOAT_FUN(floor);
 
+static bool num_le(struct YASL_Object left, struct YASL_Object right) {
+	if (obj_isint(&left) && obj_isint(&right)) return obj_getint(&left) <= obj_getint(&right);
+	return obj_getnum(&left) <= obj_getnum(&right);
+}
+
 static int YASL_math_max(struct YASL_State *S) {
 	struct YASL_Object max = YASL_FLOAT(-YASL_INF);
 
@@ -97,7 +102,7 @@ static int YASL_math_max(struct YASL_State *S) {
 	for (yasl_int i = 0; i < num_va_args; i++) {
 		if (vm_isint((struct VM *)S)) {
 			yasl_int top = vm_popint((struct VM *)S);
-			if ((top >= obj_getnum(&max))) {
+			if (num_le(max, YASL_INT(top))) {
 				max = YASL_INT(top);
 			}
 		} else if (vm_isfloat((struct VM *)S)) {
@@ -129,7 +134,7 @@ static int YASL_math_min(struct YASL_State *S) {
 	for (yasl_int i = 0; i < num_va_args; i++) {
 		if (vm_isint((struct VM *)S)) {
 			yasl_int top = vm_popint((struct VM *)S);
-			if ((top <= obj_getnum(&max))) {
+			if (num_le(YASL_INT(top), max)) {
 				max = YASL_INT(top);
 			}
 		} else if (vm_isfloat((struct VM *)S)) {
-- 
2.43.0


From 3c47611834bbb710d859d8c6751f5d70ec4aa667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:05 +0000
Subject: [PATCH 77/83] fix: math.isprime of a negative number is false

---
 std/yasl-std-math.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/std/yasl-std-math.c b/std/yasl-std-math.c
index 9479649..753eba5 100644
--- a/std/yasl-std-math.c
+++ b/std/yasl-std-math.c
@@ -183,9 +183,7 @@ static int YASL_math_isprime(struct YASL_State *S) {
 		n = (yasl_int)YASL_popfloat(S);
 	}
 
-	int p = is_prime(n);
-	if (p < 0) YASL_pushundef(S);
-	else YASL_pushbool(S, (bool)p);
+	YASL_pushbool(S, n > 0 && is_prime((size_t)n));
 	return 1;
 }
 yasl_int gcd_helper(yasl_int a, yasl_int b) {
-- 
2.43.0


From 89b089bfea3c470281131e22163f446b1ff22106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:05 +0000
Subject: [PATCH 78/83] fix: math.lcm does not overflow when its result fits

---
 std/yasl-std-math.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/std/yasl-std-math.c b/std/yasl-std-math.c
index 753eba5..cbb50fa 100644
--- a/std/yasl-std-math.c
+++ b/std/yasl-std-math.c
@@ -263,7 +263,7 @@ static int YASL_math_lcm(struct YASL_State *S) {
 		YASL_pushundef(S);
 	} else {
 		yasl_int gcd = gcd_helper(a, b);
-		YASL_pushint(S, b*a/gcd);
+		YASL_pushint(S, a/gcd*b);
 	}
 	return 1;
 }
-- 
2.43.0


From 9f9d4025938eff26ad4fce11c27bd6a5d94713bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:31 +0000
Subject: [PATCH 79/83] fix: more than 127 variables can be set from one call

---
 compiler/compiler.c |  4 ++++
 interpreter/VM.c    | 10 ++++++++--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/compiler/compiler.c b/compiler/compiler.c
index d44fa4a..ef93647 100644
--- a/compiler/compiler.c
+++ b/compiler/compiler.c
@@ -457,6 +457,10 @@ static void visit_VariadicContext(struct Compiler *const compiler, const struct
 	int old_returns = compiler->expected_returns;
 	// Only a call has a variable number of values, anything else has exactly one, as do the calls inside of it.
 	if (expr->nodetype == N_CALL || expr->nodetype == N_MCALL) compiler->expected_returns = node->value.ival;
+	if (compiler->expected_returns >= 255) {
+		compiler_print_err_syntax(compiler, "Too many variables to assign to at once (line %" PRI_SIZET ").\n", node->line);
+		handle_error(compiler);
+	}
 	visit(compiler, expr);
 	compiler->expected_returns = old_returns;
 }
diff --git a/interpreter/VM.c b/interpreter/VM.c
index 3a2ef0e..ca4971a 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -320,6 +320,12 @@ void vm_rm_range(struct VM *const vm, int start, int end) {
 	vm->sp -= len;
 }
 
+// 255 stands for any number of return values.
+static int vm_read_expected_returns(struct VM *const vm) {
+	const unsigned char n = NCODE(vm);
+	return n == 255 ? -1 : n;
+}
+
 static yasl_int vm_read_int(struct VM *const vm) {
     yasl_int val;
     memcpy(&val, vm->pc, sizeof(yasl_int));
@@ -1293,7 +1299,7 @@ static void vm_swaptop(struct VM *const vm) {
 }
 
 static void vm_INIT_MC(struct VM *const vm) {
-	int expected_returns = (signed char)NCODE(vm);
+	int expected_returns = vm_read_expected_returns(vm);
 	vm_duptop(vm);
 	yasl_int addr = vm_read_int(vm);
 	vm_GET_helper(vm, vm->constants[addr]);
@@ -1701,7 +1707,7 @@ void vm_executenext(struct VM *const vm) {
 		vm_INIT_MC(vm);
 		break;
 	case O_INIT_CALL:
-		vm_INIT_CALL(vm, (signed char)NCODE(vm));
+		vm_INIT_CALL(vm, vm_read_expected_returns(vm));
 		break;
 	case O_CALL:
 		vm_CALL(vm);
-- 
2.43.0


From ce38e334d24391ea7d54f7dd3c1959e0d54c1c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:42 +0000
Subject: [PATCH 80/83] fix: C functions with variable arguments can be called
 with fewer than come before them

---
 interpreter/VM.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index ca4971a..35934d0 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -1339,6 +1339,10 @@ static void vm_CALL_cfn(struct VM *const vm) {
 	vm->frames[vm->frame_num].pc = vm->pc;
 	struct CFunction *f = vm_peekcfn(vm, vm->fp);
 	if (f->num_args < 0) {
+		// there may be fewer arguments than the ones that come before the variable ones.
+		while (vm->sp - vm->fp < ~f->num_args) {
+			vm_pushundef(vm);
+		}
 		yasl_int diff = vm->sp - vm->fp - ~f->num_args;
 		YASL_VM_DEBUG_LOG("diff: %d\n", (int)diff);
 		vm_insert(vm, vm->fp + 1 + ~f->num_args, YASL_INT(diff));
-- 
2.43.0


From d090b7267ef5f9760fa972d3f47d9c2e9f45e57f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:06 +0000
Subject: [PATCH 81/83] fix: \x in a string takes exactly two hex digits

---
 compiler/lexer.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/compiler/lexer.c b/compiler/lexer.c
index 72cc67d..c84a6f1 100644
--- a/compiler/lexer.c
+++ b/compiler/lexer.c
@@ -351,7 +351,8 @@ static bool handle_escapes(struct Lexer *const lex, char delim) {
 		break;
 	case 'x':
 		buffer[0] = lex_getchar(lex);
-		buffer[1] = lex_getchar(lex);
+		// strtol would skip whitespace and take a sign
+		buffer[1] = isxdigit((unsigned char)buffer[0]) ? lex_getchar(lex) : '\0';
 		buffer[2] = '\0';
 		tmp = (char) strtol(buffer, &end, 16);
 		if (end != buffer + 2) {
-- 
2.43.0


From 4397f8e29c078f7d826abc65410109778a8dc12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:37:27 +0000
Subject: [PATCH 82/83] fix: YASL_compile leaks the code it compiles

---
 yasl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yasl.c b/yasl.c
index e678173..28b2a92 100644
--- a/yasl.c
+++ b/yasl.c
@@ -160,7 +160,7 @@ int YASL_execute_REPL(struct YASL_State *S) {
 }
 
 int YASL_compile(struct YASL_State *S) {
-	compile(&S->compiler);
+	free(compile(&S->compiler));    // only the status is of interest, nothing runs this code.
 	return S->compiler.status;
 }
 
-- 
2.43.0


From 67952f05be87cd0cee486d2bfd304383639ee29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:38:43 +0000
Subject: [PATCH 83/83] fix: a whole program with a syntax error leaves its
 scope behind

---
 compiler/compiler.c | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/compiler/compiler.c b/compiler/compiler.c
index ef93647..0d2cbe7 100644
--- a/compiler/compiler.c
+++ b/compiler/compiler.c
@@ -319,14 +319,10 @@ unsigned char *compile(struct Compiler *const compiler) {
 	while (!peof(&compiler->parser)) {
 		if (peof(&compiler->parser)) break;
 		node = parse(&compiler->parser);
+		if (!compiler->parser.status) eattok(&compiler->parser, T_SEMI);
 		if (compiler->parser.status) {
 			compiler->status |= compiler->parser.status;
-			return NULL;
-		}
-		eattok(&compiler->parser, T_SEMI);
-		if (compiler->parser.status) {
-			compiler->status |= compiler->parser.status;
-			return NULL;
+			break;
 		}
 		visit(compiler, node);
 		YASL_ByteBuffer_extend(compiler->code, compiler->buffer->bytes, compiler->buffer->count);
-- 
2.43.0

