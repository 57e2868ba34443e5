From cdaa95e7491ab82cc355520482f196f16085cbbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:50 +0000
Subject: [PATCH 01/72] fix: keep probing past table entries whose value is
 undef

A live entry holding undef (e.g. a global set to undef) terminated the probe
sequence on insertion, so a colliding key overwrote it, and resizing dropped it.
---
 data-structures/YASL_Table.c | 6 +++++-
 data-structures/YASL_Table.h | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/data-structures/YASL_Table.c b/data-structures/YASL_Table.c
index 40fdcb0..99d463d 100644
--- a/data-structures/YASL_Table.c
+++ b/data-structures/YASL_Table.c
@@ -106,7 +106,7 @@ size_t YASL_Table_getindex(struct YASL_Table *const table, const struct YASL_Obj
 	size_t index = get_hash(key, table->size, 0);
 	struct YASL_Table_Item curr_item = table->items[index];
 	size_t i = 1;
-	while (curr_item.value.type != Y_UNDEF) {
+	while (curr_item.key.type != Y_UNDEF) {
 		if (curr_item.key.type != Y_END) {
 			if (isequal_typed(&curr_item.key, &key)) {
 				return index;
@@ -139,6 +139,10 @@ bool YASL_Table_insert(struct YASL_Table *const table, const struct YASL_Object
 	if (!ishashable(&key)) {
 		return false;
 	}
+	if (obj_isundef(&value)) {
+		YASL_Table_rm(table, key);
+		return true;
+	}
 	YASL_Table_insert_fast(table, key, value);
 	return true;
 }
diff --git a/data-structures/YASL_Table.h b/data-structures/YASL_Table.h
index dac5f43..e9b097d 100644
--- a/data-structures/YASL_Table.h
+++ b/data-structures/YASL_Table.h
@@ -8,7 +8,7 @@
 #define TABLE_BASESIZE 30
 
 #define FOR_TABLE(i, item, table) struct YASL_Table_Item *item; for (size_t i = 0; i < (table)->size; i++) \
-                                                  if (item = &(table)->items[i], item->key.type != Y_END && !obj_isundef(&item->value))
+                                                  if (item = &(table)->items[i], item->key.type != Y_END && !obj_isundef(&item->key))
 
 
 #define NEW_TABLE() ((struct YASL_Table){\
-- 
2.43.0


From ff9fc64b6485443e7065c661e2c8708ad6cdae67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:48 +0000
Subject: [PATCH 02/72] fix: removing an absent key must not change the length
 of a table or set

---
 data-structures/YASL_Set.c   | 5 +++--
 data-structures/YASL_Table.c | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/data-structures/YASL_Set.c b/data-structures/YASL_Set.c
index 34d6b3b..7078b16 100644
--- a/data-structures/YASL_Set.c
+++ b/data-structures/YASL_Set.c
@@ -111,14 +111,15 @@ void YASL_Set_rm(struct YASL_Set *const set, struct YASL_Object key) {
 	while (!obj_isundef(&item)) {
 		if (item.type != Y_END) {
 			if ((isequal(&item, &key))) {
-				dec_ref(&item);
 				set->items[index] = YASL_END();
+				set->count--;
+				dec_ref(&item);
+				return;
 			}
 		}
 		index = get_hash(key, set->size, i++);
 		item = set->items[index];
 	}
-	set->count--;
 }
 
 struct YASL_Set *YASL_Set_union(const struct YASL_Set *const left, const struct YASL_Set *const right) {
diff --git a/data-structures/YASL_Table.c b/data-structures/YASL_Table.c
index 99d463d..b2d4540 100644
--- a/data-structures/YASL_Table.c
+++ b/data-structures/YASL_Table.c
@@ -195,12 +195,13 @@ void YASL_Table_rm(struct YASL_Table *const table, const struct YASL_Object key)
 	while (!obj_isundef(&item.key)) {
 		if (item.key.type != Y_END) {
 			if ((isequal_typed(&item.key, &key))) {
-				del_item(&item);
 				table->items[index] = TOMBSTONE;
+				table->count--;
+				del_item(&item);
+				return;
 			}
 		}
 		index = get_hash(key, table->size, i++);
 		item = table->items[index];
 	}
-	table->count--;
 }
-- 
2.43.0


From 05eac82a4592811701274a3d9cbfef02fe7359c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:14 +0000
Subject: [PATCH 03/72] fix: count tombstones towards the load of tables and
 sets

Removed slots were never reclaimed, so after enough insertions and removals of
distinct keys no empty slot was left and probing never terminated.
---
 data-structures/YASL_Set.c   | 8 ++++++--
 data-structures/YASL_Set.h   | 1 +
 data-structures/YASL_Table.c | 8 ++++++--
 data-structures/YASL_Table.h | 2 ++
 interpreter/table_methods.c  | 4 +++-
 5 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/data-structures/YASL_Set.c b/data-structures/YASL_Set.c
index 7078b16..dc2af35 100644
--- a/data-structures/YASL_Set.c
+++ b/data-structures/YASL_Set.c
@@ -10,6 +10,7 @@ static struct YASL_Set *set_new_sized(const size_t base_size) {
 	set->base_size = base_size;
 	set->size = next_prime(set->base_size);
 	set->count = 0;
+	set->used = 0;
 	set->items = (struct YASL_Object *)calloc((size_t) set->size, sizeof(struct YASL_Object));
 	return set;
 }
@@ -36,6 +37,7 @@ static void set_resize(struct YASL_Set *const set, const size_t base_size) {
 	}
 	set->base_size = new_set->base_size;
 	set->count = new_set->count;
+	set->used = new_set->used;
 
 	const size_t tmp_size = set->size;
 	set->size = new_set->size;
@@ -49,7 +51,8 @@ static void set_resize(struct YASL_Set *const set, const size_t base_size) {
 }
 
 static void set_resize_up(struct YASL_Set *set) {
-	const size_t new_size = set->base_size * 2;
+	// if it's mostly tombstones that fill the set, rehashing is enough.
+	const size_t new_size = set->count * 2 > set->used ? set->base_size * 2 : set->base_size;
 	set_resize(set, new_size);
 }
 
@@ -63,7 +66,7 @@ bool YASL_Set_insert(struct YASL_Set *const set, struct YASL_Object value) {
 		return false;
 	}
 
-	const size_t load = set->count * 100 / set->size;
+	const size_t load = set->used * 100 / set->size;
 	if (load > 70) set_resize_up(set);
 	size_t index = get_hash(value, set->size, 0);
 	inc_ref(&value);
@@ -82,6 +85,7 @@ bool YASL_Set_insert(struct YASL_Set *const set, struct YASL_Object value) {
 	}
 	set->items[index] = value;
 	set->count++;
+	set->used++;
 	return true;
 }
 
diff --git a/data-structures/YASL_Set.h b/data-structures/YASL_Set.h
index 919b590..a2e7d0d 100644
--- a/data-structures/YASL_Set.h
+++ b/data-structures/YASL_Set.h
@@ -10,6 +10,7 @@ struct YASL_Set {
 	size_t size;
 	size_t base_size;
 	size_t count;
+	size_t used; // slots that are not empty: `count` plus the tombstones
 	struct YASL_Object *items;
 };
 
diff --git a/data-structures/YASL_Table.c b/data-structures/YASL_Table.c
index b2d4540..f1041b7 100644
--- a/data-structures/YASL_Table.c
+++ b/data-structures/YASL_Table.c
@@ -31,6 +31,7 @@ struct YASL_Table *table_new_sized(const size_t base_size) {
 	table->base_size = base_size;
 	table->size = next_prime(table->base_size);
 	table->count = 0;
+	table->used = 0;
 	table->items = (struct YASL_Table_Item *)calloc((size_t) table->size, sizeof(struct YASL_Table_Item));
 	return table;
 }
@@ -76,6 +77,7 @@ static void table_resize(struct YASL_Table *const table, const size_t base_size)
 	}
 	table->base_size = new_table->base_size;
 	table->count = new_table->count;
+	table->used = new_table->used;
 
 	const size_t tmp_size = table->size;
 	table->size = new_table->size;
@@ -89,7 +91,8 @@ static void table_resize(struct YASL_Table *const table, const size_t base_size)
 }
 
 static void table_resize_up(struct YASL_Table *const table) {
-	const size_t new_size = table->base_size * 2;
+	// if it's mostly tombstones that fill the table, rehashing is enough.
+	const size_t new_size = table->count * 2 > table->used ? table->base_size * 2 : table->base_size;
 	table_resize(table, new_size);
 }
 
@@ -121,7 +124,7 @@ size_t YASL_Table_getindex(struct YASL_Table *const table, const struct YASL_Obj
 void YASL_Table_insert_fast(struct YASL_Table *const table, const struct YASL_Object key, const struct YASL_Object value) {
 	YASL_ASSERT(ishashable(&key), "`key` must be hashable");
 
-	const size_t load = table->count * 100 / table->size;
+	const size_t load = table->used * 100 / table->size;
 	if (load > 70) table_resize_up(table);
 	struct YASL_Table_Item item = new_item(key, value);
 	const size_t index = YASL_Table_getindex(table, key);
@@ -130,6 +133,7 @@ void YASL_Table_insert_fast(struct YASL_Table *const table, const struct YASL_Ob
 		del_item(&curr_item);
 	} else {
 		table->count++;
+		table->used++;
 	}
 	
 	table->items[index] = item;
diff --git a/data-structures/YASL_Table.h b/data-structures/YASL_Table.h
index e9b097d..71cfe09 100644
--- a/data-structures/YASL_Table.h
+++ b/data-structures/YASL_Table.h
@@ -15,6 +15,7 @@
 	.size = next_prime(TABLE_BASESIZE),\
 	.base_size = TABLE_BASESIZE,\
 	.count = 0,\
+	.used = 0,\
 	.items = (struct YASL_Table_Item *)calloc((size_t) next_prime(TABLE_BASESIZE), sizeof(struct YASL_Table_Item))\
 })
 
@@ -35,6 +36,7 @@ struct YASL_Table {
 	size_t size;
 	size_t base_size;
 	size_t count;
+	size_t used; // slots that are not empty: `count` plus the tombstones
 	struct YASL_Table_Item *items;
 };
 
diff --git a/interpreter/table_methods.c b/interpreter/table_methods.c
index 41a02b5..35c2932 100644
--- a/interpreter/table_methods.c
+++ b/interpreter/table_methods.c
@@ -251,7 +251,9 @@ int table_clear(struct YASL_State *S) {
 	}
 
 	ht->count = 0;
-	ht->size = TABLE_BASESIZE;
+	ht->used = 0;
+	ht->base_size = TABLE_BASESIZE;
+	ht->size = next_prime(TABLE_BASESIZE);
 	free(ht->items);
 	ht->items = (struct YASL_Table_Item *) calloc((size_t) ht->size, sizeof(struct YASL_Table_Item));
 	dec_ref(&vm_peek((struct VM *) S));
-- 
2.43.0


From 67a4d5d99edba92fa21072dca1cc7e447fd08880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:18 +0000
Subject: [PATCH 04/72] fix: reject undef as a table key or set element

Such an entry was counted but could never be found, iterated or removed, as
an undef key is what marks an empty slot.
---
 interpreter/YASL_Object.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/interpreter/YASL_Object.c b/interpreter/YASL_Object.c
index b0c57a7..d735ab8 100644
--- a/interpreter/YASL_Object.c
+++ b/interpreter/YASL_Object.c
@@ -80,7 +80,6 @@ int yasl_object_cmp(struct YASL_Object a, struct YASL_Object b) {
 
 bool ishashable(const struct YASL_Object *const v) {
 	return (
-		obj_isundef(v) ||
 		obj_isbool(v) ||
 		obj_isfloat(v) ||
 		obj_isint(v) ||
-- 
2.43.0


From 2079b154b3a81b4965b71ec9a599d2d12251b111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:39 +0000
Subject: [PATCH 05/72] fix: hash 0.0 and -0.0 alike

They are equal, but a table could hold both as separate keys.
---
 compiler/compiler.c  |  9 +++++++--
 util/hash_function.c | 10 ++++++----
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/compiler/compiler.c b/compiler/compiler.c
index 6e099a0..886e5f4 100644
--- a/compiler/compiler.c
+++ b/compiler/compiler.c
@@ -740,11 +740,12 @@ yasl_int compiler_intern_string(struct Compiler *const compiler, const char *con
 yasl_int compiler_intern_float(struct Compiler *const compiler, const yasl_float val) {
 	struct YASL_Object value = YASL_Table_search(compiler->strings, YASL_FLOAT(val));
 	if (value.type == Y_END) {
+		const yasl_float constant = val == 0.0 ? 0.0 : val;
 		YASL_COMPILE_DEBUG_LOG("%s\n", "caching float");
 		yasl_int index = (yasl_int)compiler->strings->count;
-		YASL_Table_insert(compiler->strings, YASL_FLOAT(val), YASL_INT(index));
+		YASL_Table_insert(compiler->strings, YASL_FLOAT(constant), YASL_INT(index));
 		YASL_ByteBuffer_add_byte(compiler->header, C_FLOAT);
-		YASL_ByteBuffer_add_float(compiler->header, val);
+		YASL_ByteBuffer_add_float(compiler->header, constant);
 
 		return index;
 	}
@@ -1334,6 +1335,10 @@ static void visit_Float(struct Compiler *const compiler, const struct Node *cons
 
 	yasl_int index = compiler_intern_float(compiler, val);
 	compiler_add_literal(compiler, index);
+	// 0.0 and -0.0 are the same key, so constants are always 0.0.
+	if (val == 0.0 && signbit(val)) {
+		compiler_add_byte(compiler, O_NEG);
+	}
 }
 
 static void visit_Integer(struct Compiler *const compiler, const struct Node *const node) {
diff --git a/util/hash_function.c b/util/hash_function.c
index 57e5e41..1857e98 100644
--- a/util/hash_function.c
+++ b/util/hash_function.c
@@ -14,10 +14,12 @@ size_t hash_function(const struct YASL_Object s, const size_t a, const size_t m)
 		}
 		return (size_t) hash;
 	} else {
-		int64_t ll = s.value.ival & 0xFFFF;
-		int64_t lu = (s.value.ival & 0xFFFF0000) >> 16;
-		int64_t ul = (s.value.ival & 0xFFFF00000000) >> 32;
-		int64_t uu = (s.value.ival & 0xFFFF000000000000) >> 48;
+		// 0.0 and -0.0 are equal, so they need equal hashes.
+		const int64_t bits = obj_isfloat(&s) && obj_getfloat(&s) == 0.0 ? 0 : s.value.ival;
+		int64_t ll = bits & 0xFFFF;
+		int64_t lu = (bits & 0xFFFF0000) >> 16;
+		int64_t ul = (bits & 0xFFFF00000000) >> 32;
+		int64_t uu = (bits & 0xFFFF000000000000) >> 48;
 		return (size_t) (((size_t) a * ll * ll * ll * ll ^ a * a * lu * lu * lu ^ a * a * a * ul * ul ^
 				  a * a * a * a * uu) % m);
 	}
-- 
2.43.0


From f864fe6f54322945cf2b6bd277b7856ac19d682c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:49 +0000
Subject: [PATCH 06/72] fix: compare set elements by type as well as value,
 like table keys

Equal numbers of different type hash differently, so whether a set held both
1 and 1.0 depended on whether their probe sequences happened to meet.
---
 data-structures/YASL_Set.c | 6 +++---
 interpreter/YASL_Object.h  | 1 +
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/data-structures/YASL_Set.c b/data-structures/YASL_Set.c
index dc2af35..5c0e12a 100644
--- a/data-structures/YASL_Set.c
+++ b/data-structures/YASL_Set.c
@@ -74,7 +74,7 @@ bool YASL_Set_insert(struct YASL_Set *const set, struct YASL_Object value) {
 	size_t i = 1;
 	while (!obj_isundef(&curr_item)) {
 		if (curr_item.type != Y_END) {
-			if ((isequal(&curr_item, &value))) {
+			if ((isequal_typed(&curr_item, &value))) {
 				dec_ref(&curr_item);
 				set->items[index] = value;
 				return true;
@@ -94,7 +94,7 @@ bool YASL_Set_search(const struct YASL_Set *const set, const struct YASL_Object
 	struct YASL_Object item = set->items[index];
 	size_t i = 1;
 	while (!obj_isundef(&item)) {
-		if ((isequal(&item, &key))) {
+		if ((isequal_typed(&item, &key))) {
 			return true;
 		}
 		index = get_hash(key, set->size, i++);
@@ -114,7 +114,7 @@ void YASL_Set_rm(struct YASL_Set *const set, struct YASL_Object key) {
 	size_t i = 1;
 	while (!obj_isundef(&item)) {
 		if (item.type != Y_END) {
-			if ((isequal(&item, &key))) {
+			if ((isequal_typed(&item, &key))) {
 				set->items[index] = YASL_END();
 				set->count--;
 				dec_ref(&item);
diff --git a/interpreter/YASL_Object.h b/interpreter/YASL_Object.h
index c839a6a..f709bc6 100644
--- a/interpreter/YASL_Object.h
+++ b/interpreter/YASL_Object.h
@@ -64,6 +64,7 @@ int yasl_object_cmp(struct YASL_Object a, struct YASL_Object b);
 bool ishashable(const struct YASL_Object *const v);
 bool isfalsey(const struct YASL_Object *const v);
 bool isequal(const struct YASL_Object *const a, const struct YASL_Object *const b);
+bool isequal_typed(const struct YASL_Object *const a, const struct YASL_Object *const b);
 
 const char *obj_typename(const struct YASL_Object *const v);
 
-- 
2.43.0


From 1d897a8822d53a1e9188cc01e97c2b6a26accfd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:15 +0000
Subject: [PATCH 07/72] fix: dividing the smallest int by -1 must not crash the
 interpreter

---
 compiler/middleend.c | 4 ++--
 interpreter/VM.c     | 6 ++++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/compiler/middleend.c b/compiler/middleend.c
index c4073b3..9dc4c65 100644
--- a/compiler/middleend.c
+++ b/compiler/middleend.c
@@ -154,12 +154,12 @@ static void fold_BinOp(struct Node *const node) {
 			make_float(node, (yasl_float)left->value.ival / (yasl_float)right->value.ival);
 			break;
 		case T_DSLASH:
-			if (right->value.ival != 0) {
+			if (right->value.ival != 0 && right->value.ival != -1) {
 				FOLD_BINOP_INT_INT(left, right, /, int);
 			}
 			break;
 		case T_MOD:
-			if (right->value.ival != 0) {
+			if (right->value.ival != 0 && right->value.ival != -1) {
 				FOLD_BINOP_INT_INT(left, right, %, int);
 			}
 			break;
diff --git a/interpreter/VM.c b/interpreter/VM.c
index 56000f7..3de5da3 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -352,8 +352,10 @@ INT_BINOP(band, &)
 INT_BINOP(bandnot, &~)
 INT_BINOP(shift_left, <<)
 INT_BINOP(shift_right, >>)
-INT_BINOP(modulo, %)
-INT_BINOP(idiv, /)
+
+// dividing the smallest int by -1 overflows, which traps on some platforms.
+yasl_int modulo(yasl_int left, yasl_int right) { return right == -1 ? 0 : left % right; }
+yasl_int idiv(yasl_int left, yasl_int right) { return right == -1 ? (yasl_int)(0 - (uint64_t)left) : left / right; }
 
 typedef yasl_int int_binop(yasl_int, yasl_int);
 typedef yasl_float float_binop(yasl_float, yasl_float);
-- 
2.43.0


From 41bb5de74052144fb8c665a9f1b1431ee77676eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:44 +0000
Subject: [PATCH 08/72] fix: compute integer powers on integers

Going through double was inexact above 2**53. Results that are out of range
are still the smallest int.
---
 interpreter/VM.c | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index 3de5da3..db3920a 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -395,8 +395,27 @@ NUM_BINOP(add, +)
 NUM_BINOP(sub, -)
 NUM_BINOP(mul, *)
 
+static bool int_mul_overflows(yasl_int left, yasl_int right) {
+    if (left == 0 || right == 0) return false;
+    if ((left < 0) != (right < 0)) {
+        return left < 0 ? left < INT64_MIN / right : right < INT64_MIN / left;
+    }
+    return left < 0 ? left < INT64_MAX / right : left > INT64_MAX / right;
+}
+
+// computed on ints, as going through floats is inexact above 2**53. `right` is not negative.
 static yasl_int int_pow(yasl_int left, yasl_int right) {
-    return (yasl_int)pow((double)left, (double)right);
+    yasl_int result = 1;
+    while (true) {
+        if (right & 1) {
+            if (int_mul_overflows(result, left)) return INT64_MIN;
+            result *= left;
+        }
+        right >>= 1;
+        if (right == 0) return result;
+        if (int_mul_overflows(left, left)) return INT64_MIN;
+        left *= left;
+    }
 }
 
 static void vm_num_binop(struct VM *const vm, int_binop int_op, float_binop float_op,
-- 
2.43.0


From 747f327d252432f42ffe43d7398e6f0d49b7f2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:41 +0000
Subject: [PATCH 09/72] fix: give shifts by a negative amount or by 64 and more
 a defined result

---
 compiler/middleend.c | 8 ++++++--
 interpreter/VM.c     | 6 ++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/compiler/middleend.c b/compiler/middleend.c
index 9dc4c65..971ae45 100644
--- a/compiler/middleend.c
+++ b/compiler/middleend.c
@@ -136,10 +136,14 @@ static void fold_BinOp(struct Node *const node) {
 			// TODO
 			break;
 		case T_DGT:
-			FOLD_BINOP_INT_INT(left, right, >>, int);
+			if (0 <= right->value.ival && right->value.ival < 64) {
+				FOLD_BINOP_INT_INT(left, right, >>, int);
+			}
 			break;
 		case T_DLT:
-			FOLD_BINOP_INT_INT(left, right, <<, int);
+			if (0 <= right->value.ival && right->value.ival < 64) {
+				FOLD_BINOP_INT_INT(left, right, <<, int);
+			}
 			break;
 		case T_PLUS:
 			FOLD_BINOP_INT_INT(left, right, +, int);
diff --git a/interpreter/VM.c b/interpreter/VM.c
index db3920a..fb5e136 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -350,8 +350,10 @@ INT_BINOP(bor, |)
 INT_BINOP(bxor, ^)
 INT_BINOP(band, &)
 INT_BINOP(bandnot, &~)
-INT_BINOP(shift_left, <<)
-INT_BINOP(shift_right, >>)
+
+// only the low 6 bits of the shift amount count, larger shifts are undefined in C.
+yasl_int shift_left(yasl_int left, yasl_int right) { return (yasl_int)((uint64_t)left << (right & 63)); }
+yasl_int shift_right(yasl_int left, yasl_int right) { return left >> (right & 63); }
 
 // dividing the smallest int by -1 overflows, which traps on some platforms.
 yasl_int modulo(yasl_int left, yasl_int right) { return right == -1 ? 0 : left % right; }
-- 
2.43.0


From 1b364bef44087b4bc133d6bd75140318f3e58656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:10 +0000
Subject: [PATCH 10/72] fix: slice a str relative to where it starts, and to an
 empty str if the range is empty

Slices of a substring of a literal were taken from the literal, and a range
whose end is before its start read out of bounds.
---
 interpreter/VM.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index fb5e136..5c59e24 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -729,7 +729,11 @@ static void vm_SLICE_str(struct VM *const vm){
 
 	struct YASL_String *str = vm_popstr(vm);
 
-	vm_push(vm, YASL_STR(YASL_String_new_substring((size_t)start, (size_t)end, str)));
+	if (end < start) {
+		start = end = 0;
+	}
+
+	vm_push(vm, YASL_STR(YASL_String_new_substring(str->start + (size_t)start, str->start + (size_t)end, str)));
 }
 
 static void vm_SLICE(struct VM *const vm) {
-- 
2.43.0


From 3e1ac21c9e987eb5f5d6a53ede21157ec8052d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:05 +0000
Subject: [PATCH 11/72] fix: iterating over a substring of a literal must start
 where the substring does

---
 interpreter/VM.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index 5c59e24..18141ac 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -931,7 +931,7 @@ static void vm_ITER_1(struct VM *const vm) {
 		if (YASL_String_len(str) <= (size_t) frame->iter) {
 			vm_pushbool(vm, false);
 		} else {
-			size_t i = (size_t) frame->iter;
+			size_t i = str->start + (size_t) frame->iter;
 			vm_pushstr(vm, YASL_String_new_substring(i, i + 1, str));
 			frame->iter++;
 			vm_pushbool(vm, true);
-- 
2.43.0


From 1c3156ed2afc61e6cb893be38bd9915ed6ebe12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:01 +0000
Subject: [PATCH 12/72] fix: trimming a str from both ends must not trim the
 same text twice

The end of the result was before its start.
---
 data-structures/YASL_String.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/data-structures/YASL_String.c b/data-structures/YASL_String.c
index e7f7f73..0dc6707 100644
--- a/data-structures/YASL_String.c
+++ b/data-structures/YASL_String.c
@@ -514,7 +514,7 @@ struct YASL_String *YASL_String_trim_default(struct YASL_String *haystack) {
 	}
 
 	int64_t end = haystack_len;
-	while (end >= 1 && iswhitespace(haystack_chars[end - 1])) {
+	while (end > start && iswhitespace(haystack_chars[end - 1])) {
 		end--;
 	}
 
@@ -533,7 +533,7 @@ struct YASL_String *YASL_String_trim(struct YASL_String *haystack, struct YASL_S
 	}
 
 	size_t end = haystack_len;
-	while (end >= needle_len &&
+	while (end - start >= needle_len &&
 	       !memcmp(haystack_chars + end - needle_len, needle_chars, needle_len)) {
 		end -= needle_len;
 	}
-- 
2.43.0


From 27d676495d4c712c1196aaba83bf701c28cd0d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:54 +0000
Subject: [PATCH 13/72] fix: count and the trims of str must terminate for an
 empty argument

---
 data-structures/YASL_String.c | 3 +++
 interpreter/str_methods.c     | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/data-structures/YASL_String.c b/data-structures/YASL_String.c
index 0dc6707..4f02889 100644
--- a/data-structures/YASL_String.c
+++ b/data-structures/YASL_String.c
@@ -472,6 +472,7 @@ struct YASL_String *YASL_String_ltrim(struct YASL_String *haystack, struct YASL_
 	const char *haystack_chars = YASL_String_chars(haystack);
 	const char *needle_chars = YASL_String_chars(needle);
 	int64_t start = 0;
+	if (needle_len == 0) return YASL_String_new_substring(haystack->start, haystack->end, haystack);
 	while(haystack_len - start >= needle_len &&
 	      !memcmp(haystack_chars + start, needle_chars, needle_len)) {
 		start += needle_len;
@@ -497,6 +498,7 @@ struct YASL_String *YASL_String_rtrim(struct YASL_String *haystack, struct YASL_
 	const char *haystack_chars = YASL_String_chars(haystack);
 	const char *needle_chars = YASL_String_chars(needle);
 	size_t end = YASL_String_len(haystack);
+	if (needle_len == 0) return YASL_String_new_substring(haystack->start, haystack->end, haystack);
 	while (end >= needle_len &&
 	       !memcmp(haystack_chars + end - needle_len, needle_chars, needle_len)) {
 		end -= needle_len;
@@ -527,6 +529,7 @@ struct YASL_String *YASL_String_trim(struct YASL_String *haystack, struct YASL_S
 	const char *haystack_chars = YASL_String_chars(haystack);
 	const char *needle_chars = YASL_String_chars(needle);
 	int64_t start = 0;
+	if (needle_len == 0) return YASL_String_new_substring(haystack->start, haystack->end, haystack);
 	while (haystack_len - start >= needle_len &&
 	       !memcmp(haystack_chars + start, needle_chars, needle_len)) {
 		start += needle_len;
diff --git a/interpreter/str_methods.c b/interpreter/str_methods.c
index f5fc41f..3f31f8f 100644
--- a/interpreter/str_methods.c
+++ b/interpreter/str_methods.c
@@ -175,6 +175,12 @@ int str_search(struct YASL_State *S) {
 int str_count(struct YASL_State *S) {
 	struct YASL_String *needle = YASLX_checknstr(S, "str.count", 1);
 	struct YASL_String *haystack = YASLX_checknstr(S, "str.count", 0);
+
+	if (YASL_String_len(needle) == 0) {
+		vm_print_err((struct VM *)S, "ValueError: %s expected a nonempty str as arg 1.", "str.count");
+		YASL_throw_err(S, YASL_VALUE_ERROR);
+	}
+
 	YASL_pushint(S, YASL_String_count(haystack, needle));
 	return 1;
 }
-- 
2.43.0


From e06ed0ed67276ffe517b2045851f1a1910b1fbe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:46 +0000
Subject: [PATCH 14/72] fix: the limit of str.replace counts replacements, not
 characters

---
 data-structures/YASL_String.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data-structures/YASL_String.c b/data-structures/YASL_String.c
index 4f02889..c0be8ec 100644
--- a/data-structures/YASL_String.c
+++ b/data-structures/YASL_String.c
@@ -387,10 +387,10 @@ struct YASL_String *YASL_String_replace_fast(struct YASL_String *str, struct YAS
 		if (search_len <= str_len - i && memcmp(str_ptr + i, search_str_ptr, search_len) == 0 && max > 0) {
 			YASL_ByteBuffer_extend(buff, replace_str_ptr, YASL_String_len(replace_str));
 			i += search_len;
+			max--;
 		} else {
 			YASL_ByteBuffer_add_byte(buff, str_ptr[i++]);
 		}
-		max--;
 	}
 
 	STR_REPLACE_END
-- 
2.43.0


From c3295fa5bcf92673ad88126616b3150631bd97b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:42 +0000
Subject: [PATCH 15/72] fix: str.split must keep the text after the last
 separator

With a separator of several characters the end of the str was dropped.
Also don't look at the first character of an empty str in tofloat.
---
 data-structures/YASL_String.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/data-structures/YASL_String.c b/data-structures/YASL_String.c
index c0be8ec..0f889a7 100644
--- a/data-structures/YASL_String.c
+++ b/data-structures/YASL_String.c
@@ -186,7 +186,7 @@ yasl_float YASL_String_tofloat(struct YASL_String *str) {
 	const size_t length = YASL_String_len(str);
 	const char *chars = YASL_String_chars(str);
 	char *buffer = (char *)malloc(length + 1);
-	if (!isdigit((int)chars[0])) {
+	if (length == 0 || !isdigit((int)chars[0])) {
 		free(buffer);
 		return NAN;
 	}
@@ -449,7 +449,7 @@ void YASL_String_split_fast(struct YASL_List *data, struct YASL_String *haystack
 		}
 	}
 	struct YASL_Object to = YASL_STR(
-		YASL_String_new_substring(start + haystack->start, end + haystack->start, haystack));
+		YASL_String_new_substring(start + haystack->start, haystack->end, haystack));
 	YASL_List_append(data, to);
 }
 
-- 
2.43.0


From 25e49897c94cd6fae6b7925dcc5403fd4a3c316f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:17 +0000
Subject: [PATCH 16/72] fix: locals and captures beyond the 127th must be
 addressed without wrapping to negative offsets

---
 compiler/compiler.c | 27 +++++++++++++++++++--------
 interpreter/VM.c    | 10 ++++++++--
 opcode.h            |  4 ++++
 3 files changed, 31 insertions(+), 10 deletions(-)

diff --git a/compiler/compiler.c b/compiler/compiler.c
index 886e5f4..bcd6c88 100644
--- a/compiler/compiler.c
+++ b/compiler/compiler.c
@@ -1,5 +1,6 @@
 #include "compiler.h"
 
+#include <limits.h>
 #include <math.h>
 #include <stdarg.h>
 #include <interpreter/YASL_Object.h>
@@ -411,19 +412,29 @@ static void visit_FnDecl(struct Compiler *const compiler, const struct Node *con
 	if (compiler->params->isclosure) {
 		compiler->buffer->bytes[old_size - sizeof(yasl_int) - 1] = O_CCONST;
 		const size_t count = compiler->params->upval_indices.count;
-		compiler_add_byte(compiler, (unsigned char) count);
-		const size_t start = compiler->buffer->count;
-		// TODO what's below is wrong. We need to get the right value for the upvals.
-		for (size_t i = 0; i < count; i++) {
-			compiler_add_byte(compiler, 0);
+		if (count > UCHAR_MAX) {
+			compiler_print_err_syntax(compiler, "Too many variables captured by a function (line %" PRI_SIZET ").\n", node->line);
+			handle_error(compiler);
+			goto cleanup;
 		}
+		compiler_add_byte(compiler, (unsigned char) count);
+		int64_t values[UCHAR_MAX];
 		FOR_TABLE(i, item, &compiler->params->upval_indices) {
-			int64_t index = item->value.value.ival;
-			int64_t value = YASL_Table_search(&compiler->params->upval_values, item->key).value.ival;
-			compiler->buffer->bytes[start + index] = value;
+			values[item->value.value.ival] = YASL_Table_search(&compiler->params->upval_values, item->key).value.ival;
+		}
+		for (size_t i = 0; i < count; i++) {
+			const bool is_upval = values[i] < 0;
+			const unsigned char index = (unsigned char)(is_upval ? ~values[i] : values[i]);
+			if (index < UPVAL_LOCAL_EXT) {
+				compiler_add_byte(compiler, is_upval ? (unsigned char)~index : index);
+			} else {
+				compiler_add_byte(compiler, is_upval ? UPVAL_UPVAL_EXT : UPVAL_LOCAL_EXT);
+				compiler_add_byte(compiler, index);
+			}
 		}
 	}
 
+cleanup:;
 	struct Env *tmp = compiler->params->parent;
 	compiler->params->parent = NULL;
 	env_del(compiler->params);
diff --git a/interpreter/VM.c b/interpreter/VM.c
index 18141ac..2e36d91 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -632,7 +632,13 @@ static void vm_CCONST(struct VM *const vm) {
 
 	for (size_t i = 0; i < num_upvalues; i++) {
 		unsigned char u = NCODE(vm);
-		if ((signed char)u >= 0) {
+		if (u == UPVAL_LOCAL_EXT) {
+			u = NCODE(vm);
+			closure->upvalues[i] = add_upvalue(vm, &vm_peek(vm, vm->fp + 1 + u));
+		} else if (u == UPVAL_UPVAL_EXT) {
+			u = NCODE(vm);
+			closure->upvalues[i] = vm->stack[vm->fp].value.lval->upvalues[u];
+		} else if ((signed char)u >= 0) {
 			closure->upvalues[i] = add_upvalue(vm, &vm_peek(vm, vm->fp + 1 + u));
 		} else {
 			closure->upvalues[i] = vm->stack[vm->fp].value.lval->upvalues[~(signed char)u];
@@ -1390,7 +1396,7 @@ void vm_setupconstants(struct VM *const vm) {
 
 void vm_executenext(struct VM *const vm) {
 	unsigned char opcode = NCODE(vm);        // fetch
-	signed char offset;
+	unsigned char offset;
 	struct YASL_Object a, b;
 	yasl_int c;
 	YASL_VM_DEBUG_LOG("----------------"
diff --git a/opcode.h b/opcode.h
index 5666cbd..f06349e 100644
--- a/opcode.h
+++ b/opcode.h
@@ -1,6 +1,10 @@
 #ifndef YASL_OPCODE_H_
 #define YASL_OPCODE_H_
 
+// in the upvalue descriptors of O_CCONST: the next byte is an index that does not fit in the descriptor itself.
+#define UPVAL_LOCAL_EXT 0x7F
+#define UPVAL_UPVAL_EXT 0x80
+
 enum Opcode {
 	O_NCONST = 0x01, // push literal undef onto stack
 	O_BCONST_F = 0x08, // push literal false onto stack
-- 
2.43.0


From e6120a2a41b36121db72766096e2c1c43effca4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:47 +0000
Subject: [PATCH 17/72] fix: close captured variables when they go out of
 scope, and keep open ones alive until then

---
 interpreter/VM.c      | 63 ++++++++++++++++---------------------------
 interpreter/closure.c |  7 +----
 interpreter/upvalue.c | 11 ++++++++
 interpreter/upvalue.h |  1 +
 4 files changed, 36 insertions(+), 46 deletions(-)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index 2e36d91..155c64a 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -73,11 +73,18 @@ void vm_init(struct VM *const vm,
 	vm->pending = NULL;
 }
 
-void vm_close_all(struct VM *const vm);
+// Closes all open upvalues for locals that live at `end` or above.
+static void vm_close_upvals(struct VM *const vm, const struct YASL_Object *const end) {
+	while (vm->pending && vm->pending->location >= end) {
+		struct Upvalue *const curr = vm->pending;
+		vm->pending = curr->next;
+		upval_close(curr);
+	}
+}
 
 void vm_cleanup(struct VM *const vm) {
 	// If we've exited early somehow, without closing over some upvalues, we need to do that first.
-	vm_close_all(vm);
+	vm_close_upvals(vm, vm->stack);
 
 	// Exit out of all loops (in case we're exiting with an error).
 	while (vm->loopframe_num >= 0) {
@@ -593,30 +600,17 @@ void vm_stringify_top(struct VM *const vm) {
 }
 
 static struct Upvalue *add_upvalue(struct VM *const vm, struct YASL_Object *const location) {
-	if (vm->pending == NULL) {
-		return (vm->pending = upval_new(location));
+	// The list of open upvalues is kept sorted, with the top of the stack first.
+	struct Upvalue **link = &vm->pending;
+	while (*link && (*link)->location > location) {
+		link = &(*link)->next;
 	}
-
-	struct Upvalue *prev = NULL;
-	struct Upvalue *curr = vm->pending;
-	while (curr) {
-		if (curr->location > location) {
-			prev = curr;
-			curr = curr->next;
-			continue;
-		}
-		if (curr->location == location) {
-			return curr;
-		}
-		if (curr->location < location) {
-			struct Upvalue *upval = upval_new(location);
-			upval->next = curr->next;
-			curr->next = upval;
-			return upval;
-		}
-		return (curr->next = upval_new(location));
+	if (*link && (*link)->location == location) {
+		return *link;
 	}
-	return (prev->next = upval_new(location));
+	struct Upvalue *upval = upval_new(location);
+	upval->next = *link;
+	return (*link = upval);
 }
 
 static void vm_CCONST(struct VM *const vm) {
@@ -1180,6 +1174,7 @@ static void vm_enterframe_offset(struct VM *const vm, int offset, int num_return
 static void vm_fill_args(struct VM *const vm, const int num_args);
 
 static void vm_exitframe_multi(struct VM *const vm, int len) {
+	vm_close_upvals(vm, vm->stack + vm->fp);
 	vm_rm_range(vm, vm->fp, vm->fp + len + 1);
 
 	struct CallFrame frame = vm->frames[vm->frame_num];
@@ -1208,6 +1203,7 @@ static void vm_exitframe_multi(struct VM *const vm, int len) {
 }
 
 static void vm_exitframe(struct VM *const vm) {
+	vm_close_upvals(vm, vm->stack + vm->fp);
 	vm_rm_range(vm, vm->fp, vm->sp);
 
 	struct CallFrame frame = vm->frames[vm->frame_num];
@@ -1321,18 +1317,6 @@ static void vm_RET(struct VM *const vm) {
 	vm_exitframe_multi(vm, len);
 }
 
-static struct Upvalue *vm_close_all_helper(struct YASL_Object *const end, struct Upvalue *const curr) {
-	if (curr == NULL) return NULL;
-	if (curr->location < end) return curr;
-	inc_ref(curr->location);
-	upval_close(curr);
-	return (vm_close_all_helper(end, curr->next));
-}
-
-void vm_close_all(struct VM *const vm) {
-	vm->pending = vm_close_all_helper(vm->stack + vm->fp, vm->pending);
-}
-
 static void vm_ECHO(struct VM *const vm) {
 	unsigned char top = NCODE(vm);
 	YASL_UNUSED(top);
@@ -1404,7 +1388,7 @@ void vm_executenext(struct VM *const vm) {
 			  "vm->sp, vm->prev_fp, vm->curr_fp: %d, %d, %d\n\n", opcode, vm->sp, vm->fp, vm->next_fp);
 	switch (opcode) {
 	case O_EXPORT:
-		vm_close_all(vm);
+		vm_close_upvals(vm, vm->stack);
 		vm_throw_err(vm, YASL_MODULE_SUCCESS);
 	case O_HALT:
 		vm_throw_err(vm, YASL_SUCCESS);
@@ -1563,6 +1547,7 @@ void vm_executenext(struct VM *const vm) {
 	case O_ENDCOMP:
 		a = vm_pop(vm);
 		vm_pop(vm);
+		vm_close_upvals(vm, vm->stack + vm->sp + 1);
 		vm_push(vm, a);
 		dec_ref(&vm->loopframes[vm->loopframe_num].iterable);
 		vm->loopframe_num--;
@@ -1641,9 +1626,6 @@ void vm_executenext(struct VM *const vm) {
 		vm_CALL(vm);
 		break;
 	case O_CRET:
-		vm_close_all(vm);
-		vm_RET(vm);
-		break;
 	case O_RET:
 		vm_RET(vm);
 		break;
@@ -1658,6 +1640,7 @@ void vm_executenext(struct VM *const vm) {
 		break;
 	case O_POP:
 		vm_pop(vm);
+		vm_close_upvals(vm, vm->stack + vm->sp + 1);
 		break;
 	case O_DEL_FP:
 		c = NCODE(vm);
diff --git a/interpreter/closure.c b/interpreter/closure.c
index 39d7d5b..61d25ec 100644
--- a/interpreter/closure.c
+++ b/interpreter/closure.c
@@ -2,12 +2,7 @@
 
 void closure_del_data(struct Closure *closure) {
 	for (size_t i = 0; i < closure->num_upvalues; i++) {
-		struct Upvalue *upval = closure->upvalues[i];
-		upval->rc.refs--;
-		if (upval->rc.refs == 0) {
-			dec_ref(upval->location);
-			free(upval);
-		}
+		upval_release(closure->upvalues[i]);
 	}
 }
 
diff --git a/interpreter/upvalue.c b/interpreter/upvalue.c
index 828dc1c..edd4b4b 100644
--- a/interpreter/upvalue.c
+++ b/interpreter/upvalue.c
@@ -3,6 +3,7 @@
 struct Upvalue *upval_new(struct YASL_Object *const location) {
 	struct Upvalue *upval = (struct Upvalue *)malloc(sizeof(struct Upvalue));
 	upval->rc = NEW_RC();
+	upval->rc.refs = 1;  // the list of open upvalues owns a reference until the upvalue is closed.
 	upval->location = location;
 	upval->next = NULL;
 	return upval;
@@ -20,5 +21,15 @@ void upval_set(struct Upvalue *const upval, const struct YASL_Object v) {
 void upval_close(struct Upvalue *const upval) {
 	upval->closed = upval_get(upval);
 	upval->location = &upval->closed;
+	inc_ref(upval->location);
+	upval_release(upval);
+}
+
+void upval_release(struct Upvalue *const upval) {
+	upval->rc.refs--;
+	if (upval->rc.refs == 0) {
+		dec_ref(upval->location);
+		free(upval);
+	}
 }
 
diff --git a/interpreter/upvalue.h b/interpreter/upvalue.h
index c99d9b0..8e4f46b 100644
--- a/interpreter/upvalue.h
+++ b/interpreter/upvalue.h
@@ -15,5 +15,6 @@ struct Upvalue *upval_new(struct YASL_Object *const location);
 struct YASL_Object upval_get(const struct Upvalue *const upval);
 void upval_set(struct Upvalue *const upval, const struct YASL_Object v);
 void upval_close(struct Upvalue *const upval);
+void upval_release(struct Upvalue *const upval);
 
 #endif
-- 
2.43.0


From ab98286da8776343c3a4358af939b074b4e690c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:37 +0000
Subject: [PATCH 18/72] fix: close captured variables when execution stops

---
 interpreter/VM.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index 155c64a..e9d5287 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -188,6 +188,7 @@ YASL_FORMAT_CHECK static void vm_print_out(struct VM *vm, const char *const fmt,
 }
 
 void vm_throw_err(struct VM *const vm, int error) {
+	vm_close_upvals(vm, vm->stack);
 	vm->status = error;
 	longjmp(vm->buf, 1);
 }
@@ -1388,7 +1389,6 @@ void vm_executenext(struct VM *const vm) {
 			  "vm->sp, vm->prev_fp, vm->curr_fp: %d, %d, %d\n\n", opcode, vm->sp, vm->fp, vm->next_fp);
 	switch (opcode) {
 	case O_EXPORT:
-		vm_close_upvals(vm, vm->stack);
 		vm_throw_err(vm, YASL_MODULE_SUCCESS);
 	case O_HALT:
 		vm_throw_err(vm, YASL_SUCCESS);
-- 
2.43.0


From 1ce2af72f4b2bd24960fa93aa9726cf289beb178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:29 +0000
Subject: [PATCH 19/72] fix: break and continue must pop the locals of the loop
 body, and cannot leave a function

---
 compiler/compiler.c | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/compiler/compiler.c b/compiler/compiler.c
index bcd6c88..de25d48 100644
--- a/compiler/compiler.c
+++ b/compiler/compiler.c
@@ -32,6 +32,7 @@ YASL_FORMAT_CHECK static void compiler_print_err(struct Compiler *compiler, cons
 
 #define break_checkpoint(compiler)    ((compiler)->checkpoints.items[(compiler)->checkpoints.count-1])
 #define continue_checkpoint(compiler) ((compiler)->checkpoints.items[(compiler)->checkpoints.count-2])
+#define loop_num_locals(compiler)     ((compiler)->checkpoints.items[(compiler)->checkpoints.count-3])
 
 
 void compiler_tables_del(struct Compiler *compiler) {
@@ -379,6 +380,9 @@ static void visit_ExprStmt(struct Compiler *const compiler, const struct Node *c
 }
 
 static void visit_FnDecl(struct Compiler *const compiler, const struct Node *const node) {
+	// loops around the function are not loops of the function.
+	struct SizeBuffer checkpoints = compiler->checkpoints;
+	compiler->checkpoints = NEW_SIZEBUFFER(4);
 	compiler->params = env_new(compiler->params);
 
 	enter_scope(compiler);
@@ -434,7 +438,10 @@ static void visit_FnDecl(struct Compiler *const compiler, const struct Node *con
 		}
 	}
 
-cleanup:;
+cleanup:
+	free(compiler->checkpoints.items);
+	compiler->checkpoints = checkpoints;
+
 	struct Env *tmp = compiler->params->parent;
 	compiler->params->parent = NULL;
 	env_del(compiler->params);
@@ -614,6 +621,7 @@ static void visit_ForIter(struct Compiler *const compiler, const struct Node *co
 	decl_var(compiler, name, iter->line);
 
 	size_t index_start = compiler->buffer->count;
+	add_checkpoint(compiler, scope_len(get_scope_in_use(compiler)));
 	add_checkpoint(compiler, index_start);
 
 	compiler_add_byte(compiler, O_ITER_1);
@@ -636,6 +644,7 @@ static void visit_ForIter(struct Compiler *const compiler, const struct Node *co
 
 	rm_checkpoint(compiler);
 	rm_checkpoint(compiler);
+	rm_checkpoint(compiler);
 }
 
 static void enter_jump(struct Compiler *const compiler, size_t *index) {
@@ -695,6 +704,7 @@ static void visit_While(struct Compiler *const compiler, const struct Node *cons
 		exit_jump(compiler, &index);
 	}
 
+	add_checkpoint(compiler, scope_len(get_scope_in_use(compiler)));
 	add_checkpoint(compiler, index_start);
 
 	visit(compiler, cond);
@@ -712,6 +722,15 @@ static void visit_While(struct Compiler *const compiler, const struct Node *cons
 
 	rm_checkpoint(compiler);
 	rm_checkpoint(compiler);
+	rm_checkpoint(compiler);
+}
+
+// Pops the locals that are declared in the body of the innermost loop, since their scopes are left by jumping out of them.
+static void pop_loop_locals(struct Compiler *const compiler) {
+	size_t num_locals = scope_len(get_scope_in_use(compiler)) - loop_num_locals(compiler);
+	while (num_locals-- > 0) {
+		compiler_add_byte(compiler, O_POP);
+	}
 }
 
 static void visit_Break(struct Compiler *const compiler, const struct Node *const node) {
@@ -720,6 +739,7 @@ static void visit_Break(struct Compiler *const compiler, const struct Node *cons
 		handle_error(compiler);
 		return;
 	}
+	pop_loop_locals(compiler);
 	compiler_add_byte(compiler, O_BCONST_F);
 	branch_back(compiler, break_checkpoint(compiler));
 }
@@ -730,6 +750,7 @@ static void visit_Continue(struct Compiler *const compiler, const struct Node *c
 		handle_error(compiler);
 		return;
 	}
+	pop_loop_locals(compiler);
 	branch_back(compiler, continue_checkpoint(compiler));
 }
 
-- 
2.43.0


From cb35c96376ba6dd6586660259d6ac7230513761a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:37 +0000
Subject: [PATCH 20/72] fix: a table pattern with an absent key must skip the
 pattern for its value

---
 interpreter/VM.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index e9d5287..1e56b6b 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -989,7 +989,7 @@ static void vm_ff_subpatterns_multiple(struct VM *const vm, const size_t n) {
 
 static bool vm_MATCH_table_elements(struct VM *const vm, size_t len, struct YASL_Table *table) {
 	for (size_t i = 0; i < len; i++) {
-		struct YASL_Object val;
+		struct YASL_Object val = YASL_END();
 		switch ((enum Pattern)NCODE(vm)) {
 		case P_UNDEF:
 			val = YASL_Table_search(table, YASL_UNDEF());
@@ -1006,7 +1006,11 @@ static bool vm_MATCH_table_elements(struct VM *const vm, size_t len, struct YASL
 		default:
 			break;
 		}
-		if (val.type == Y_END || !(vm_MATCH_subpattern(vm, &val))) {
+		const bool found = val.type != Y_END;
+		if (!found) {
+			vm_ff_subpattern(vm);
+		}
+		if (!found || !vm_MATCH_subpattern(vm, &val)) {
 			vm_ff_subpatterns_multiple(vm, 2 * (len - (i + 1)));
 			return false;
 		}
-- 
2.43.0


From 8ad0c70c94794faf4c295d0a327e474d9d6a4497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:56 +0000
Subject: [PATCH 21/72] fix: nesting loops or binding patterns too deep must be
 a StackOverflow error, not memory corruption

---
 interpreter/VM.c | 8 ++++++++
 interpreter/VM.h | 3 ++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index 1e56b6b..fbddec3 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -1117,6 +1117,10 @@ static bool vm_MATCH_subpattern(struct VM *const vm, struct YASL_Object *expr) {
 		   still on top of the stack. This is taken care of _after_ a successful match by a O_DEL_FP instruction.
 		  */
 		unsigned char offset = NCODE(vm);
+		if (vm->fp + offset + 2 >= STACK_SIZE) {
+			vm_print_err(vm, "StackOverflow.");
+			vm_throw_err(vm, YASL_STACK_OVERFLOW_ERROR);
+		}
 		dec_ref(&vm_peek(vm, vm->fp + offset + 2));
 		vm_peek(vm, vm->fp + offset + 2) = *expr;
 		inc_ref(&vm_peek(vm, vm->fp + offset + 2));
@@ -1539,6 +1543,10 @@ void vm_executenext(struct VM *const vm) {
 		break;
 	}
 	case O_INITFOR:
+		if (vm->loopframe_num + 1 >= NUM_LOOPFRAMES) {
+			vm_print_err(vm, "StackOverflow.");
+			vm_throw_err(vm, YASL_STACK_OVERFLOW_ERROR);
+		}
 		inc_ref(&vm_peek(vm));
 		vm->loopframe_num++;
 		vm->loopframes[vm->loopframe_num].iter = 0;
diff --git a/interpreter/VM.h b/interpreter/VM.h
index cb34e44..0fce040 100644
--- a/interpreter/VM.h
+++ b/interpreter/VM.h
@@ -16,6 +16,7 @@
 
 
 #define NUM_FRAMES 1000
+#define NUM_LOOPFRAMES 1000
 #define NUM_TYPES 13                                     // number of builtin types, each needs a vtable
 #define SCRATCH_SIZE 1024								// scratchspace size (needs tuning)
 
@@ -99,7 +100,7 @@ struct VM {
 	struct YASL_Object *stack;     // stack
 	struct CallFrame frames[NUM_FRAMES];
 	int frame_num;
-	struct LoopFrame loopframes[16];
+	struct LoopFrame loopframes[NUM_LOOPFRAMES];
 	int loopframe_num;
 	struct YASL_Object *constants;
 	int64_t num_constants;
-- 
2.43.0


From bef3c119dda20d01f9760838ea2decc50a3a268a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:57 +0000
Subject: [PATCH 22/72] fix: constant folding must agree with the run time on
 identity, and on the truth of NaN

---
 compiler/middleend.c | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/compiler/middleend.c b/compiler/middleend.c
index 971ae45..7c82f37 100644
--- a/compiler/middleend.c
+++ b/compiler/middleend.c
@@ -175,11 +175,9 @@ static void fold_BinOp(struct Node *const node) {
 	} else if (left->nodetype == N_FLOAT && right->nodetype == N_FLOAT) {
 		switch (node->value.type) {
 		case T_DEQ:
-		case T_TEQ:
 			FOLD_BINOP_FLOAT_FLOAT(left, right, ==, bool);
 			break;
 		case T_BANGEQ:
-		case T_BANGDEQ:
 			FOLD_BINOP_FLOAT_FLOAT(left, right, !=, bool);
 			break;
 		case T_GT:
@@ -217,11 +215,9 @@ static void fold_BinOp(struct Node *const node) {
 	} else if (left->nodetype == N_FLOAT && right->nodetype == N_INT) {
 		switch (node->value.type) {
 		case T_DEQ:
-		case T_TEQ:
 			FOLD_BINOP_FLOAT_INT(left, right, ==, bool);
 			break;
 		case T_BANGEQ:
-		case T_BANGDEQ:
 			FOLD_BINOP_FLOAT_INT(left, right, !=, bool);
 			break;
 		case T_GT:
@@ -259,11 +255,9 @@ static void fold_BinOp(struct Node *const node) {
 	} else if (left->nodetype == N_INT && right->nodetype == N_FLOAT) {
 		switch (node->value.type) {
 		case T_DEQ:
-		case T_TEQ:
 			FOLD_BINOP_INT_FLOAT(left, right, ==, bool);
 			break;
 		case T_BANGEQ:
-		case T_BANGDEQ:
 			FOLD_BINOP_INT_FLOAT(left, right, !=, bool);
 			break;
 		case T_GT:
@@ -341,7 +335,7 @@ void fold_UnOp(struct Node *const node) {
 			make_float(node, -expr->value.dval);
 			break;
 		case T_BANG:
-			make_bool(node, 0);  // NOTE: safe because we don't have NaN literals
+			make_bool(node, expr->value.dval != expr->value.dval);  // NaN is falsey
 			break;
 		default:
 			break;
-- 
2.43.0


From 5f81942bc8a3c1c14b5fa7774c4fbaf81baee5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:22 +0000
Subject: [PATCH 23/72] fix: list.pop must release the reference the list held

---
 interpreter/list_methods.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/interpreter/list_methods.c b/interpreter/list_methods.c
index 6f1e769..382caec 100644
--- a/interpreter/list_methods.c
+++ b/interpreter/list_methods.c
@@ -223,6 +223,7 @@ int list_pop(struct YASL_State *S) {
 		YASL_throw_err(S, YASL_VALUE_ERROR);
 	}
 	vm_push((struct VM *) S, ls->items[--ls->count]);
+	dec_ref(ls->items + ls->count);
 	return 1;
 }
 
-- 
2.43.0


From f05e869b7a6f2f343c3bdc97c19db15e8fef38e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:06 +0000
Subject: [PATCH 24/72] fix: list.search must return the first index, like
 str.search

---
 interpreter/list_methods.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/interpreter/list_methods.c b/interpreter/list_methods.c
index 382caec..4957ea7 100644
--- a/interpreter/list_methods.c
+++ b/interpreter/list_methods.c
@@ -233,8 +233,10 @@ int list_search(struct YASL_State *S) {
 	struct YASL_Object index = YASL_UNDEF();
 
 	FOR_LIST(i, obj, haystack) {
-		if ((isequal(&obj, &needle)))
+		if ((isequal(&obj, &needle))) {
 			index = YASL_INT((yasl_int) i);
+			break;
+		}
 	}
 
 	vm_push((struct VM *) S, index);
-- 
2.43.0


From 801a947bbf8b78f9ba1d4ec31b9e28ca877320c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:01 +0000
Subject: [PATCH 25/72] fix: the copy of a table must have the methods of a
 table

---
 interpreter/table_methods.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/interpreter/table_methods.c b/interpreter/table_methods.c
index 35c2932..e34463c 100644
--- a/interpreter/table_methods.c
+++ b/interpreter/table_methods.c
@@ -230,6 +230,7 @@ int table_remove(struct YASL_State *S) {
 int table_copy(struct YASL_State *S) {
 	struct YASL_Table *ht = YASLX_checkntable(S, "table.copy", 0);
 	struct RC_UserData *new_ht = rcht_new_sized(ht->base_size);
+	ud_setmt(new_ht, S->vm.builtins_htable[Y_TABLE]);
 
 	FOR_TABLE(i, item, ht) {
 		YASL_Table_insert_fast((struct YASL_Table *) new_ht->data, item->key, item->value);
-- 
2.43.0


From 5768c7719c5885628056e7ed3269d44a8a8bd2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:27 +0000
Subject: [PATCH 26/72] fix: a loop that never runs may contain break and
 continue

---
 compiler/compiler.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/compiler/compiler.c b/compiler/compiler.c
index de25d48..0496918 100644
--- a/compiler/compiler.c
+++ b/compiler/compiler.c
@@ -680,8 +680,14 @@ static bool Node_isfalsey(const struct Node *const node) {
 }
 
 static void visit_While_false(struct Compiler *const compiler, const struct Node *const body, const struct Node *const post) {
+	add_checkpoint(compiler, scope_len(get_scope_in_use(compiler)));
+	add_checkpoint(compiler, compiler->buffer->count);
+	add_checkpoint(compiler, compiler->buffer->count);
 	validate(compiler, body);
 	if (post) validate(compiler, post);
+	rm_checkpoint(compiler);
+	rm_checkpoint(compiler);
+	rm_checkpoint(compiler);
 }
 
 static void visit_While(struct Compiler *const compiler, const struct Node *const node) {
-- 
2.43.0


From 048e01da7244e05edfdc5f73e364163701de7ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:21 +0000
Subject: [PATCH 27/72] fix: a failing comparison must not leak its operands

---
 interpreter/VM.c | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index fbddec3..6f06831 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -342,16 +342,6 @@ do {\
 	vm_CALL(vm);\
 } while (0)
 
-#define vm_call_method_now_2(vm, left, right, method_name, ...) do {\
-	inc_ref(&left);\
-	inc_ref(&right);\
-	vm_push(vm, left);\
-	vm_lookup_method_throwing(vm, method_name, __VA_ARGS__);\
-	vm_call_now_2(vm, left, right);\
-	dec_ref(&left);\
-	dec_ref(&right);\
-} while (0)
-
 #define INT_BINOP(name, op) yasl_int name(yasl_int left, yasl_int right) { return left op right; }
 
 INT_BINOP(bor, |)
@@ -554,21 +544,29 @@ static void vm_CNCT(struct VM *const vm) {
 
 #define DEFINE_COMP(name, opstr, overload_name) \
 static void vm_##name(struct VM *const vm) {\
-	struct YASL_Object right = vm_pop(vm);\
-	struct YASL_Object left = vm_pop(vm);\
+	struct YASL_Object right = vm_peek(vm);\
+	struct YASL_Object left = vm_peek(vm, vm->sp - 1);\
 	bool c;\
 	if (obj_isstr(&left) && obj_isstr(&right)) {\
+		vm_pop(vm);\
+		vm_pop(vm);\
 		vm_pushbool(vm, name(YASL_String_cmp(obj_getstr(&left), obj_getstr(&right)), 0));\
 		return;\
 	}\
 	if (obj_isnum(&left) && obj_isnum(&right)) {\
+		vm_pop(vm);\
+		vm_pop(vm);\
 		COMP(vm, left, right, name);\
 		return;\
 	}\
-	vm_call_method_now_2(vm, left, right, overload_name, "%s not supported for operands of types %s and %s.",\
+	vm_push(vm, left);\
+	vm_lookup_method_throwing(vm, overload_name, "%s not supported for operands of types %s and %s.",\
 		opstr,\
 		obj_typename(&left),\
 		obj_typename(&right));\
+	vm_shifttopdown(vm, 2);\
+	vm_INIT_CALL_offset(vm, vm->sp - 2, 1);\
+	vm_CALL(vm);\
 }
 
 DEFINE_COMP(GT, ">", "__gt")
-- 
2.43.0


From 5cf6e66bd9283b59323614e606b9fe7c0fbbd022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:55 +0000
Subject: [PATCH 28/72] fix: functions and userptrs have no builtin metatable,
 not an uninitialised one

---
 interpreter/VM.c | 2 +-
 interpreter/VM.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index 6f06831..f946a0b 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -23,7 +23,7 @@
 #include "closure.h"
 
 static struct RC_UserData **builtins_htable_new(struct VM *const vm) {
-	struct RC_UserData **ht = (struct RC_UserData **) malloc(sizeof(struct RC_UserData *) * NUM_TYPES);
+	struct RC_UserData **ht = (struct RC_UserData **) calloc(NUM_TYPES, sizeof(struct RC_UserData *));
 	ht[Y_UNDEF] = ud_new(undef_builtins(vm), TABLE_NAME, NULL, rcht_del_data);
 	ht[Y_UNDEF]->rc.refs++;
 	ht[Y_FLOAT] = ud_new(float_builtins(vm), TABLE_NAME, NULL, rcht_del_data);
diff --git a/interpreter/VM.h b/interpreter/VM.h
index 0fce040..e82e3f8 100644
--- a/interpreter/VM.h
+++ b/interpreter/VM.h
@@ -17,7 +17,7 @@
 
 #define NUM_FRAMES 1000
 #define NUM_LOOPFRAMES 1000
-#define NUM_TYPES 13                                     // number of builtin types, each needs a vtable
+#define NUM_TYPES 16                                     // number of builtin types, each needs a vtable
 #define SCRATCH_SIZE 1024								// scratchspace size (needs tuning)
 
 #define vm_peek_offset(vm, offset) ((vm)->stack[offset])
-- 
2.43.0


From 50cba4b27576a5d2cf6839b7f7b6fc91fe541bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:44 +0000
Subject: [PATCH 29/72] fix: sort compares ints exactly, not as doubles

---
 interpreter/YASL_Object.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/interpreter/YASL_Object.c b/interpreter/YASL_Object.c
index d735ab8..e474b34 100644
--- a/interpreter/YASL_Object.c
+++ b/interpreter/YASL_Object.c
@@ -58,6 +58,9 @@ int yasl_object_cmp(struct YASL_Object a, struct YASL_Object b) {
 	YASL_ASSERT(obj_isstr(&a) && obj_isstr(&b) || obj_isnum(&a) && obj_isnum(&b), "Both must be either numeric or strings");
 	if (obj_isstr(&a) && obj_isstr(&b)) {
 		return YASL_String_cmp(obj_getstr(&a), obj_getstr(&b));
+	} else if (obj_isint(&a) && obj_isint(&b)) {
+		const yasl_int aInt = obj_getint(&a), bInt = obj_getint(&b);
+		return (aInt > bInt) - (aInt < bInt);
 	} else if (obj_isnum(&a) && obj_isnum(&b)) {
 		yasl_float aVal, bVal;
 		if(obj_isint(&a)) {
-- 
2.43.0


From 802b754e86acbb262b34a14f0618cbf6899e1ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:05 +0000
Subject: [PATCH 30/72] fix: the order of sort compares an int and a float
 exactly, so that it is transitive

---
 interpreter/YASL_Object.c | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/interpreter/YASL_Object.c b/interpreter/YASL_Object.c
index e474b34..f4881be 100644
--- a/interpreter/YASL_Object.c
+++ b/interpreter/YASL_Object.c
@@ -54,6 +54,16 @@ struct YASL_Object *YASL_Table(void) {
 	return table;
 }
 
+/* The order must be transitive, so an int is not rounded when it is compared to a float. */
+static int int_float_cmp(const yasl_int i, const yasl_float f) {
+	if ((yasl_float)i < f) return -1;
+	if ((yasl_float)i > f) return 1;
+	if ((yasl_float)i != f) return 0;
+	if (f >= 9223372036854775808.0) return -1;
+	const yasl_int n = (yasl_int)f;
+	return (i > n) - (i < n);
+}
+
 int yasl_object_cmp(struct YASL_Object a, struct YASL_Object b) {
 	YASL_ASSERT(obj_isstr(&a) && obj_isstr(&b) || obj_isnum(&a) && obj_isnum(&b), "Both must be either numeric or strings");
 	if (obj_isstr(&a) && obj_isstr(&b)) {
@@ -61,18 +71,12 @@ int yasl_object_cmp(struct YASL_Object a, struct YASL_Object b) {
 	} else if (obj_isint(&a) && obj_isint(&b)) {
 		const yasl_int aInt = obj_getint(&a), bInt = obj_getint(&b);
 		return (aInt > bInt) - (aInt < bInt);
-	} else if (obj_isnum(&a) && obj_isnum(&b)) {
-		yasl_float aVal, bVal;
-		if(obj_isint(&a)) {
-			aVal = (yasl_float)obj_getint(&a);
-		} else {
-			aVal = obj_getfloat(&a);
-		}
-		if(obj_isint(&b)) {
-			bVal = (yasl_float)obj_getint(&b);
-		} else {
-			bVal = obj_getfloat(&b);
-		}
+	} else if (obj_isint(&a) && obj_isfloat(&b)) {
+		return int_float_cmp(obj_getint(&a), obj_getfloat(&b));
+	} else if (obj_isfloat(&a) && obj_isint(&b)) {
+		return -int_float_cmp(obj_getint(&b), obj_getfloat(&a));
+	} else if (obj_isfloat(&a) && obj_isfloat(&b)) {
+		const yasl_float aVal = obj_getfloat(&a), bVal = obj_getfloat(&b);
 
 		if (aVal < bVal) return -1;
 		if (aVal > bVal) return 1;
-- 
2.43.0


From a054fc4df9868fe47e8889d36d12045abba8e26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:56 +0000
Subject: [PATCH 31/72] fix: collections.set.clear must remove every element,
 however many there are

---
 std/yasl-std-collections.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/std/yasl-std-collections.c b/std/yasl-std-collections.c
index 20642a3..9815895 100644
--- a/std/yasl-std-collections.c
+++ b/std/yasl-std-collections.c
@@ -295,9 +295,12 @@ static int YASL_collections_set_copy(struct YASL_State *S) {
 static int YASL_collections_set_clear(struct YASL_State *S) {
 	struct YASL_Set *set = YASLX_checknset(S, SET_PRE ".clear", 0);
 
+	// YASL_Set_rm may resize, so it can't be used while iterating.
 	FOR_SET(i, item, set) {
-		YASL_Set_rm(set, *item);
+		dec_ref(item);
+		*item = YASL_END();
 	}
+	set->count = 0;
 	return 1;
 }
 
-- 
2.43.0


From 73013809160bf7f3036551136dbf592a6c5aabda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:12 +0000
Subject: [PATCH 32/72] fix: vm_push must retain the new value before it
 releases the popped one in its slot

---
 interpreter/VM.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index f946a0b..d0f2b1d 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -201,9 +201,11 @@ void vm_push(struct VM *const vm, const struct YASL_Object val) {
 
 	vm->sp++;
 
-	dec_ref(vm->stack + vm->sp);
+	// the popped value that is still in this slot may be what keeps `val` alive.
+	struct YASL_Object old = vm->stack[vm->sp];
 	vm->stack[vm->sp] = val;
 	inc_ref(vm->stack + vm->sp);
+	dec_ref(&old);
 }
 
 void vm_pushend(struct VM *const vm) {
-- 
2.43.0


From c4099e0abfe7c24acb91ef4cbb8910288619fc53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:29 +0000
Subject: [PATCH 33/72] fix: a key of a table that is also the name of a method
 can be looked up

---
 interpreter/VM.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index d0f2b1d..0031e18 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -849,6 +849,17 @@ static void vm_GET_helper2(struct VM *const vm) {
 	struct YASL_Object index = vm_peek(vm);
 	struct YASL_Object v = vm_peek(vm, vm->sp - 1);
 
+	// the keys of a table come before the builtin methods, otherwise a key like 'copy' could be stored, but never read.
+	if (obj_istable(&v) && obj_get_metatable(vm, v) == vm->builtins_htable[Y_TABLE]) {
+		struct YASL_Object search = YASL_Table_search(YASL_GETTABLE(v), index);
+		if (search.type != Y_END) {
+			vm_pop(vm);
+			vm_pop(vm);
+			vm_push(vm, search);
+			return;
+		}
+	}
+
 	struct YASL_Table *mt = get_mt(vm, v);
 	int result = YASL_ERROR;
 	if (mt) {
-- 
2.43.0


From c50e5463149304fb2dfbe41e1f43405157c23537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:34 +0000
Subject: [PATCH 34/72] fix: reject functions with two parameters of one name

---
 compiler/compiler.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/compiler/compiler.c b/compiler/compiler.c
index 0496918..def01d1 100644
--- a/compiler/compiler.c
+++ b/compiler/compiler.c
@@ -388,6 +388,11 @@ static void visit_FnDecl(struct Compiler *const compiler, const struct Node *con
 	enter_scope(compiler);
 
 	FOR_CHILDREN(i, child, FnDecl_get_params(node)) {
+		if (contains_var_in_current_scope(compiler, Decl_get_name(child))) {
+			compiler_print_err_syntax(compiler, "Illegal redeclaration of %s (line %" PRI_SIZET ").\n", Decl_get_name(child), child->line);
+			handle_error(compiler);
+			continue;
+		}
 		decl_var(compiler, Decl_get_name(child), child->line);
 		if (child->nodetype == N_CONST) {
 			make_const(compiler, Decl_get_name(child));
-- 
2.43.0


From 22320f62ab5b9cd9893ba0ecc077d7d24178b87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:53 +0000
Subject: [PATCH 35/72] fix: the value of a for loop's step expression was
 popped twice

---
 compiler/parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/parser.c b/compiler/parser.c
index f9427a1..1c68844 100644
--- a/compiler/parser.c
+++ b/compiler/parser.c
@@ -517,7 +517,7 @@ static struct Node *parse_for(struct Parser *const parser) {
 		struct Node *body = parse_body(parser);
 		struct Node *outer_body = new_Body(parser, line);
 		body_append(parser, &outer_body, iter);
-		body_append(parser, &outer_body, new_While(parser, cond, new_Block(parser, body, line), new_ExprStmt(parser, post, line), line));
+		body_append(parser, &outer_body, new_While(parser, cond, new_Block(parser, body, line), post, line));
 		struct Node *block = new_Block(parser, outer_body, line);
 		return block;
 	}
-- 
2.43.0


From 906a485a25f606631ac6a87ebacf70c1bd0bf278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:52 +0000
Subject: [PATCH 36/72] fix: only a call in tail position yields all its
 values, not one nested in an expression

---
 compiler/compiler.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/compiler/compiler.c b/compiler/compiler.c
index def01d1..1022ef5 100644
--- a/compiler/compiler.c
+++ b/compiler/compiler.c
@@ -455,32 +455,39 @@ cleanup:
 
 static void visit_VariadicContext(struct Compiler *const compiler, const struct Node *const node) {
 	int old_returns = compiler->expected_returns;
-	compiler->expected_returns = node->value.ival;
+	// only a call itself yields several values, not an expression that contains one.
+	compiler->expected_returns = will_var_expand(node->children[0]) ? node->value.ival : 1;
 	visit(compiler, node->children[0]);
 	compiler->expected_returns = old_returns;
 }
 
 static void visit_Call(struct Compiler *const compiler, const struct Node *const node) {
+	const int expected_returns = compiler->expected_returns;
+	compiler->expected_returns = 1;
 	visit(compiler, Call_get_object(node));
 	compiler_add_byte(compiler, O_INIT_CALL);
-	compiler_add_byte(compiler, (unsigned char)compiler->expected_returns);
+	compiler_add_byte(compiler, (unsigned char)expected_returns);
 	visit_Body(compiler, Call_get_params(node));
 	compiler_add_byte(compiler, O_CALL);
+	compiler->expected_returns = expected_returns;
 }
 
 static void visit_MethodCall(struct Compiler *const compiler, const struct Node *const node) {
 	char *str = MethodCall_get_name(node);
 	size_t len = strlen(str);
+	const int expected_returns = compiler->expected_returns;
+	compiler->expected_returns = 1;
 	visit(compiler, MethodCall_get_object(node));
 
 	yasl_int index = compiler_intern_string(compiler, str, len);
 
 	compiler_add_byte(compiler, O_INIT_MC);
-	compiler_add_byte(compiler, (unsigned char)compiler->expected_returns);
+	compiler_add_byte(compiler, (unsigned char)expected_returns);
 	compiler_add_int(compiler, index);
 
 	visit_Body(compiler, MethodCall_get_params(node));
 	compiler_add_byte(compiler, O_CALL);
+	compiler->expected_returns = expected_returns;
 }
 
 static void visit_Return(struct Compiler *const compiler, const struct Node *const node) {
-- 
2.43.0


From 08c4ecde16c0e11841d61a9b12db884b1ef74567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:21 +0000
Subject: [PATCH 37/72] fix: a multiple assignment took one value too many, or
 one too few if it began with an index

---
 compiler/parser.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/compiler/parser.c b/compiler/parser.c
index 1c68844..24bf626 100644
--- a/compiler/parser.c
+++ b/compiler/parser.c
@@ -196,7 +196,7 @@ struct Node *parse_assign_or_exprstmt(struct Parser *const parser) {
 		struct Node *set = new_Set(parser, Get_get_collection(expr), Get_get_value(expr), NULL, line);
 		body_append(parser, &buffer, set);
 
-		return parse_decl_helper(parser, buffer, 0);
+		return parse_decl_helper(parser, buffer, 1);
 
 	}
 
@@ -433,7 +433,7 @@ static struct Node *parse_var_pack(struct Parser *const parser, int expected) {
 	int j = 0;
 	do {
 		body_append(parser, &rvals, parse_expr(parser));
-	} while (j++ < expected && matcheattok(parser, T_COMMA));
+	} while (++j < expected && matcheattok(parser, T_COMMA));
 
 	struct Node *last = body_last(rvals);
 	if (last && !will_var_expand(last)) {
-- 
2.43.0


From bb0b63098824e0ec96783684f5ec9b55a2b1037d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:29 +0000
Subject: [PATCH 38/72] fix: a variadic native function called with too few
 arguments read above the stack

---
 interpreter/VM.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index 0031e18..90927e7 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -1301,6 +1301,9 @@ static void vm_CALL_cfn(struct VM *const vm) {
 	vm->frames[vm->frame_num].pc = vm->pc;
 	struct CFunction *f = vm_peekcfn(vm, vm->fp);
 	if (f->num_args < 0) {
+		while (vm->sp - vm->fp < ~f->num_args) {
+			vm_pushundef(vm);
+		}
 		yasl_int diff = vm->sp - vm->fp - ~f->num_args;
 		YASL_VM_DEBUG_LOG("diff: %d\n", (int)diff);
 		vm_insert(vm, vm->fp + 1 + ~f->num_args, YASL_INT(diff));
-- 
2.43.0


From 358eda9fb74e622c6e460ad1a71b30c23f11a7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:11 +0000
Subject: [PATCH 39/72] fix: YASL_functioncall returned before a script
 function had run, and a wrong count

---
 interpreter/VM.h | 1 +
 yasl.c           | 6 +++---
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/interpreter/VM.h b/interpreter/VM.h
index e82e3f8..122b7f1 100644
--- a/interpreter/VM.h
+++ b/interpreter/VM.h
@@ -134,6 +134,7 @@ void vm_EQ(struct VM *const vm);
 
 void vm_INIT_CALL_offset(struct VM *const vm, int offset, int expected_returns);
 void vm_CALL(struct VM *const vm);
+void vm_CALL_now(struct VM *const vm);
 
 struct YASL_Object vm_pop(struct VM *const vm);
 bool vm_popbool(struct VM *const vm);
diff --git a/yasl.c b/yasl.c
index a7da9bb..66c5e7d 100644
--- a/yasl.c
+++ b/yasl.c
@@ -438,12 +438,12 @@ int YASL_listpush(struct YASL_State *S) {
 
 int YASL_functioncall(struct YASL_State *S, int n) {
 	struct VM *vm = &S->vm;
+	const int base = vm->sp - n - 1;
 	vm_INIT_CALL_offset(vm, vm->sp - n, -1);
 
-	const int old_sp = vm->sp;
-	vm_CALL(vm);
+	vm_CALL_now(vm);
 
-	return old_sp - vm->sp - 1;
+	return vm->sp - base;
 }
 
 bool YASL_isundef(struct YASL_State *S) {
-- 
2.43.0


From a6cebc2aeaa5cd5a2312758d6bacd73342eeee42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:17 +0000
Subject: [PATCH 40/72] fix: unwind frames and loops after a run-time error,
 find lines of functions of other programs

---
 interpreter/VM.c | 39 +++++++++++++++++++++++++++++++++++----
 1 file changed, 35 insertions(+), 4 deletions(-)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index 90927e7..72eae95 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -142,12 +142,25 @@ YASL_FORMAT_CHECK static void vm_print_err_wrapper(struct VM *vm, const char *co
 static void vm_exitframe(struct VM *const vm);
 void vm_executenext(struct VM *const vm);
 
+// Finds the bytecode the current instruction belongs to, which need not be that of the main program.
+static const unsigned char *vm_getcurrcode(struct VM *vm) {
+	for (size_t i = 0; i < vm->headers_size; i++) {
+		const unsigned char *code = vm->headers[i];
+		if (code && vm->pc >= code + ((int64_t *)code)[0] && vm->pc <= code + ((int64_t *)code)[1]) {
+			return code;
+		}
+	}
+	return NULL;
+}
+
 static size_t vm_getcurrline(struct VM *vm) {
-	size_t start = ((int64_t *)vm->code)[0];
-	size_t line_start = ((int64_t *)vm->code)[1];
-	const unsigned char *tmp = vm->code + line_start;
+	const unsigned char *code = vm_getcurrcode(vm);
+	if (!code) return 0;
+	size_t start = ((int64_t *)code)[0];
+	size_t line_start = ((int64_t *)code)[1];
+	const unsigned char *tmp = code + line_start;
 	long unsigned i = 0;
-	while (vint_decode(tmp) < vm->pc - vm->code - start) {
+	while (vint_decode(tmp) < vm->pc - code - start) {
 		tmp = vint_next(tmp);
 		i++;
 	}
@@ -1363,6 +1376,10 @@ static void vm_ECHO(struct VM *const vm) {
 }
 
 void vm_setupconstants(struct VM *const vm) {
+	for (int64_t i = 0; i < vm->num_constants; i++) {
+		dec_ref(vm->constants + i);
+	}
+	free(vm->constants);
 	vm->num_constants = ((int64_t *)vm->code)[2];
 	vm->constants = (struct YASL_Object *)malloc(sizeof(struct YASL_Object) * vm->num_constants);
 	unsigned char *tmp = vm->code + 3*sizeof(int64_t);
@@ -1697,7 +1714,21 @@ void vm_executenext(struct VM *const vm) {
 }
 
 int vm_run(struct VM *const vm) {
+	const int sp = vm->sp;
+	const int fp = vm->fp;
+	const int frame_num = vm->frame_num;
+	const int loopframe_num = vm->loopframe_num;
+
 	if (setjmp(vm->buf)) {
+		if (vm->status != YASL_SUCCESS && vm->status != YASL_MODULE_SUCCESS) {
+			// leave everything the failed program was in the middle of.
+			while (vm->loopframe_num > loopframe_num) {
+				dec_ref(&vm->loopframes[vm->loopframe_num--].iterable);
+			}
+			vm->frame_num = frame_num;
+			vm->fp = fp;
+			vm->sp = sp;
+		}
 		return vm->status;
 	}
 
-- 
2.43.0


From 18c37d56100aa455698d772805f73d1d0311cf47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:36 +0000
Subject: [PATCH 41/72] fix: reset the whole compiler and keep bytecode alive
 when a state is reused

---
 yasl.c | 72 +++++++++++++++++++++++++++++++++++-----------------------
 1 file changed, 43 insertions(+), 29 deletions(-)

diff --git a/yasl.c b/yasl.c
index 66c5e7d..2444675 100644
--- a/yasl.c
+++ b/yasl.c
@@ -76,6 +76,45 @@ void YASL_loadprinterr(struct YASL_State *S) {
 	}
 }
 
+// Puts the compiler back into its initial state, keeping globals and constants.
+static void reset_compiler(struct YASL_State *S, struct LEXINPUT *lp) {
+	struct Compiler *compiler = &S->compiler;
+
+	compiler->status = YASL_SUCCESS;
+	compiler->parser.status = YASL_SUCCESS;
+	lex_cleanup(&compiler->parser.lex);
+	compiler->parser.lex = NEW_LEXER(lp);
+	compiler->code->count = 0;
+	compiler->buffer->count = 0;
+	compiler->lines->count = 0;
+	compiler->line = 0;
+
+	// a program that was rejected may have left these behind.
+	if (compiler->stack) {
+		scope_del(compiler->stack);
+		compiler->stack = NULL;
+	}
+	env_del(compiler->params);
+	compiler->params = NULL;
+	compiler->expected_returns = 1;
+	compiler->leftmost_pattern = true;
+	compiler->checkpoints.count = 0;
+}
+
+// Functions may outlive the program that defined them, so all bytecode is kept until the state is deleted.
+static void set_code(struct YASL_State *S, unsigned char *bc) {
+	struct VM *vm = &S->vm;
+
+	vm->pc = bc + *((int64_t *)bc);
+	vm->code = bc;
+	if (!vm->headers[S->compiler.num]) {
+		vm->headers[S->compiler.num] = bc;
+		return;
+	}
+	vm->headers = (unsigned char **)realloc(vm->headers, (vm->headers_size + 1) * sizeof(unsigned char *));
+	vm->headers[vm->headers_size++] = bc;
+}
+
 int YASL_resetstate(struct YASL_State *S, const char *filename) {
 	FILE *fp = fopen(filename, "r");
 	if (!fp) {
@@ -84,13 +123,7 @@ int YASL_resetstate(struct YASL_State *S, const char *filename) {
 
 	fseek(fp, 0, SEEK_SET);
 
-	S->compiler.status = YASL_SUCCESS;
-	S->compiler.parser.status = YASL_SUCCESS;
-	lex_cleanup(&S->compiler.parser.lex);
-
-	S->compiler.parser.lex = NEW_LEXER(lexinput_new_file(fp));
-	S->compiler.code->count = 0;
-	S->compiler.buffer->count = 0;
+	reset_compiler(S, lexinput_new_file(fp));
 
 	return YASL_SUCCESS;
 }
@@ -109,14 +142,7 @@ struct YASL_State *YASL_newstate_bb(const char *buf, size_t len) {
 }
 
 int YASL_resetstate_bb(struct YASL_State *S, const char *buf, size_t len) {
-	S->compiler.status = YASL_SUCCESS;
-	S->compiler.parser.status = YASL_SUCCESS;
-	lex_cleanup(&S->compiler.parser.lex);
-	S->compiler.parser.lex = NEW_LEXER(lexinput_new_bb(buf, len));
-	S->compiler.code->count = 0;
-	S->compiler.buffer->count = 0;
-	if (S->vm.code)	free(S->vm.code);
-	S->vm.code = NULL;
+	reset_compiler(S, lexinput_new_bb(buf, len));
 
 	return YASL_SUCCESS;
 }
@@ -134,13 +160,7 @@ int YASL_execute_REPL(struct YASL_State *S) {
 	unsigned char *bc = compile_REPL(&S->compiler);
 	if (!bc) return S->compiler.status;
 
-	int64_t entry_point = *((int64_t*)bc);
-	// TODO: use this in VM.
-	// int64_t num_globals = *((int64_t*)bc+1);
-
-	S->vm.pc = bc + entry_point;
-	S->vm.code = bc;
-	S->vm.headers[S->compiler.num] = bc;
+	set_code(S, bc);
 
 	return vm_run((struct VM *)S);  // TODO: error handling for runtime errors.
 }
@@ -154,13 +174,7 @@ int YASL_execute(struct YASL_State *S) {
 	unsigned char *bc = compile(&S->compiler);
 	if (!bc) return S->compiler.status;
 
-	int64_t entry_point = *((int64_t *) bc);
-	// TODO: use this in VM.
-	// int64_t num_globals = *((int64_t*)bc+1);
-
-	S->vm.pc = bc + entry_point;
-	S->vm.code = bc;
-	S->vm.headers[S->compiler.num] = bc;
+	set_code(S, bc);
 
 	return vm_run((struct VM *) S);  // TODO: error handling for runtime errors.
 }
-- 
2.43.0


From 658c2d5bd1730d5a46320656a6654a0999007865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:09 +0000
Subject: [PATCH 42/72] fix: locals of a finished program stayed on the stack
 and shifted those of the next

---
 interpreter/VM.c | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index 72eae95..b5052cb 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -1194,9 +1194,8 @@ static void vm_GLOAD_8(struct VM *const vm) {
 static void vm_enterframe_offset(struct VM *const vm, int offset, int num_returns) {
 	if (++vm->frame_num >= NUM_FRAMES) {
 		vm->frame_num--;
-		vm->status = YASL_STACK_OVERFLOW_ERROR;
 		vm_print_err(vm, "StackOverflow.");
-		longjmp(vm->buf, 1);
+		vm_throw_err(vm, YASL_STACK_OVERFLOW_ERROR);
 	}
 
 	int next_fp = vm->next_fp;
@@ -1720,13 +1719,13 @@ int vm_run(struct VM *const vm) {
 	const int loopframe_num = vm->loopframe_num;
 
 	if (setjmp(vm->buf)) {
-		if (vm->status != YASL_SUCCESS && vm->status != YASL_MODULE_SUCCESS) {
-			// leave everything the failed program was in the middle of.
-			while (vm->loopframe_num > loopframe_num) {
-				dec_ref(&vm->loopframes[vm->loopframe_num--].iterable);
-			}
-			vm->frame_num = frame_num;
-			vm->fp = fp;
+		// leave everything the program was in the middle of, and its locals. A module leaves its export on top.
+		while (vm->loopframe_num > loopframe_num) {
+			dec_ref(&vm->loopframes[vm->loopframe_num--].iterable);
+		}
+		vm->frame_num = frame_num;
+		vm->fp = fp;
+		if (vm->status != YASL_MODULE_SUCCESS) {
 			vm->sp = sp;
 		}
 		return vm->status;
@@ -1734,6 +1733,9 @@ int vm_run(struct VM *const vm) {
 
 	vm_setupconstants(vm);
 
+	// locals of the program live above whatever the host has pushed.
+	vm->fp = vm->sp;
+
 	while (true) {
 		vm_executenext(vm);
 	}
-- 
2.43.0


From 23305b7c13993af04d4ec4506847acdd0c768147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:56 +0000
Subject: [PATCH 43/72] fix: a value pushed on a full stack leaked

---
 interpreter/VM.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index b5052cb..05bfa22 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -208,6 +208,10 @@ void vm_throw_err(struct VM *const vm, int error) {
 
 void vm_push(struct VM *const vm, const struct YASL_Object val) {
 	if (vm->sp + 1 >= STACK_SIZE) {
+		// `val` may be a value nothing else holds yet.
+		struct YASL_Object unused = val;
+		inc_ref(&unused);
+		dec_ref(&unused);
 		vm_print_err(vm, "StackOverflow.");
 		vm_throw_err(vm, YASL_STACK_OVERFLOW_ERROR);
 	}
-- 
2.43.0


From df1a0ba1f9338ee504932c11e66824a4007da404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:43 +0000
Subject: [PATCH 44/72] fix: float literals without exponent digits and \x
 escapes with a sign or space were accepted

---
 compiler/lexer.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/compiler/lexer.c b/compiler/lexer.c
index 0a2171a..2fb5674 100644
--- a/compiler/lexer.c
+++ b/compiler/lexer.c
@@ -236,6 +236,18 @@ static bool lex_eatfloat(struct Lexer *const lex) {
 			lex_getchar(lex);
 			lex_val_append(lex, 'e');
 			while (lex->c == NUM_SEPERATOR) lex_getchar(lex);
+			if (lex->c == '+' || lex->c == '-') {
+				lex_val_append(lex, lex->c);
+				lex_getchar(lex);
+				while (lex->c == NUM_SEPERATOR) lex_getchar(lex);
+			}
+
+			if (lxeof(lex->file) || !isddigit(lex->c)) {
+				lex_print_err_syntax(lex, "Invalid float literal in line %" PRI_SIZET ".\n", lex->line);
+				lex_error(lex);
+				return true;
+			}
+
 			lex_eatnumber_fill(lex, &isddigit);
 		}
 
@@ -344,7 +356,7 @@ static bool handle_escapes(struct Lexer *const lex, char delim) {
 		buffer[1] = lex_getchar(lex);
 		buffer[2] = '\0';
 		tmp = (char) strtol(buffer, &end, 16);
-		if (end != buffer + 2) {
+		if (!isxdigit((unsigned char)buffer[0]) || end != buffer + 2) {
 			lex_print_err_syntax(lex, "Invalid hex string escape in line %" PRI_SIZET ".\n", lex->line);
 			goto error;
 		}
-- 
2.43.0


From 9cccd6c53ae816a398e21d58230e05034572c2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:45 +0000
Subject: [PATCH 45/72] fix: an interpolated expression could not start with an
 interpolated str

---
 compiler/parser.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/compiler/parser.c b/compiler/parser.c
index 24bf626..6cca4e6 100644
--- a/compiler/parser.c
+++ b/compiler/parser.c
@@ -1103,8 +1103,9 @@ static struct Node *parse_string(struct Parser *const parser) {
 	// interpolated strings
 	while (parser->lex.mode == L_INTERP) {
 		eattok(parser, T_STR);
-		eattok(parser, T_LBRC);
+		// eating the brace lexes the next token, which may itself be the start of an interpolated string.
 		parser->lex.mode = L_NORMAL;
+		eattok(parser, T_LBRC);
 		struct Node *expr = parse_expr(parser);
 		parser->lex.mode = L_INTERP;
 		cur_node = new_BinOp(parser, T_TILDE, cur_node, expr, parserline(parser));
-- 
2.43.0


From 2b1093a95685bdcfeecae05d21834db2c790e79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:07 +0000
Subject: [PATCH 46/72] fix: YASL_compile leaked the bytecode

---
 yasl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yasl.c b/yasl.c
index 2444675..d562f6e 100644
--- a/yasl.c
+++ b/yasl.c
@@ -166,7 +166,7 @@ int YASL_execute_REPL(struct YASL_State *S) {
 }
 
 int YASL_compile(struct YASL_State *S) {
-	compile(&S->compiler);
+	free(compile(&S->compiler));  // only the status is of interest
 	return S->compiler.status;
 }
 
-- 
2.43.0


From 4cd04c6ddb40b730ebb6bac021aebb0742d28eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:07 +0000
Subject: [PATCH 47/72] fix: a syntax error in a multiple assignment had no
 line

---
 compiler/parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/parser.c b/compiler/parser.c
index 6cca4e6..872c7ca 100644
--- a/compiler/parser.c
+++ b/compiler/parser.c
@@ -421,7 +421,7 @@ static struct Node *parse_let_const_or_var(struct Parser *const parser) {
 			struct Node *set = new_Set(parser, Get_get_collection(node), Get_get_value(node), NULL, line);
 			return set;
 		} else {
-			parser_print_err_syntax(parser, "Expected `let`, `const`, or id, got %s", YASL_TOKEN_NAMES[curtok(parser)]);
+			parser_print_err_syntax(parser, "Expected `let`, `const`, or id, got %s (line %" PRI_SIZET ").\n", YASL_TOKEN_NAMES[curtok(parser)], line);
 			handle_error(parser);
 		}
 	}
-- 
2.43.0


From 5a194487b6fe1619cf1d594b3c3fb8a9d7c97dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:58 +0000
Subject: [PATCH 48/72] fix: an unfinished interpolated str in a pattern hung
 the compiler

---
 compiler/parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/parser.c b/compiler/parser.c
index 872c7ca..4a569ac 100644
--- a/compiler/parser.c
+++ b/compiler/parser.c
@@ -569,7 +569,7 @@ static struct Node *parse_primitivepattern(struct Parser *const parser) {
 		}
 	case T_STR:
 		if (parser->lex.mode == L_INTERP) {
-			while (parser->lex.c != '"') {
+			while (parser->lex.c != '"' && !lxeof(parser->lex.file)) {
 				lex_getchar(&parser->lex);
 			}
 			eattok(parser, T_STR);
-- 
2.43.0


From e249b511bc53c1c3bbf8bbbe0e69c3cfa774e6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:58 +0000
Subject: [PATCH 49/72] fix: reporting an unknown token in a pattern read
 outside the table of names

---
 compiler/parser.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/compiler/parser.c b/compiler/parser.c
index 4a569ac..187f3e4 100644
--- a/compiler/parser.c
+++ b/compiler/parser.c
@@ -421,6 +421,7 @@ static struct Node *parse_let_const_or_var(struct Parser *const parser) {
 			struct Node *set = new_Set(parser, Get_get_collection(node), Get_get_value(node), NULL, line);
 			return set;
 		} else {
+			if (curtok(parser) == T_UNKNOWN) handle_error(parser);
 			parser_print_err_syntax(parser, "Expected `let`, `const`, or id, got %s (line %" PRI_SIZET ").\n", YASL_TOKEN_NAMES[curtok(parser)], line);
 			handle_error(parser);
 		}
@@ -564,6 +565,7 @@ static struct Node *parse_primitivepattern(struct Parser *const parser) {
 			n->value.dval *= -1;
 			return n;
 		} else {
+			if (curtok(parser) == T_UNKNOWN) handle_error(parser);
 			parser_print_err_syntax(parser, "Expected numeric pattern, got pattern starting in %s (line %" PRI_SIZET ").\n", YASL_TOKEN_NAMES[curtok(parser)], line);
 			handle_error(parser);
 		}
@@ -606,6 +608,8 @@ static struct Node *parse_primitivepattern(struct Parser *const parser) {
 		free(name);
 		return n;
 	}
+	case T_UNKNOWN:
+		handle_error(parser);
 	default:
 		parser_print_err_syntax(parser, "Invalid pattern starting in %s (line %" PRI_SIZET ").\n", YASL_TOKEN_NAMES[curtok(parser)], line);
 		handle_error(parser);
-- 
2.43.0


From cfaa5230cf4f4bbd5a50bd5364182faca1b3a1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:18 +0000
Subject: [PATCH 50/72] fix: concatenation leaked its right operand when
 converting the left one failed

---
 interpreter/VM.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index 05bfa22..3b69e8b 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -546,19 +546,21 @@ void vm_EQ(struct VM *const vm) {
 }
 
 static void vm_CNCT(struct VM *const vm) {
+		// both operands stay on the stack until the end, as converting the left one to str may fail.
 		vm_stringify_top(vm);
-		struct YASL_Object top = vm_peek(vm);
-		inc_ref(&top);
-		struct YASL_String *b = vm_popstr(vm);
+		vm_push(vm, vm_peek(vm, vm->sp - 1));
 		vm_stringify_top(vm);
-		struct YASL_String *a = vm_popstr(vm);
+		struct YASL_String *a = vm_peekstr(vm);
+		struct YASL_String *b = vm_peekstr(vm, vm->sp - 1);
 
 		size_t size = YASL_String_len(a) + YASL_String_len(b);
 		char *ptr = (char *)malloc(size);
 		memcpy(ptr, YASL_String_chars(a), YASL_String_len(a));
 		memcpy(ptr + YASL_String_len(a), YASL_String_chars(b), YASL_String_len(b));
+		vm_pop(vm);
+		vm_pop(vm);
+		vm_pop(vm);
 		vm_pushstr(vm, YASL_String_new_sized_heap(0, size, ptr));
-		dec_ref(&top);
 }
 
 #define DEFINE_COMP(name, opstr, overload_name) \
-- 
2.43.0


From bc5deb839abf948fac8e5e24199e18b6d98d4a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:12 +0000
Subject: [PATCH 51/72] fix: list.join leaked its buffer when converting an
 element failed

---
 interpreter/list_methods.c | 57 +++++++++++++++-----------------------
 1 file changed, 23 insertions(+), 34 deletions(-)

diff --git a/interpreter/list_methods.c b/interpreter/list_methods.c
index 4957ea7..f67a888 100644
--- a/interpreter/list_methods.c
+++ b/interpreter/list_methods.c
@@ -279,46 +279,35 @@ int list_join(struct YASL_State *S) {
 		return 1;
 	}
 
-	size_t buffer_count = 0;
-	size_t buffer_size = 8;
-	char *buffer = (char *) malloc(buffer_size);
-
-	vm_push((struct VM *)S, list->items[0]);
-	vm_stringify_top((struct VM *)S);
-	struct YASL_String *str = vm_popstr((struct VM *) S);
-
-	while (buffer_count + YASL_String_len(str) >= buffer_size) {
-		buffer_size *= 2;
-		buffer = (char *) realloc(buffer, buffer_size);
-	}
-
-	memcpy(buffer + buffer_count, YASL_String_chars(str), YASL_String_len(str));
-	buffer_count += YASL_String_len(str);
-
-
-	for (size_t i = 1; i < list->count; i++) {
-		while (buffer_count + YASL_String_len(string) >= buffer_size) {
-			buffer_size *= 2;
-			buffer = (char *) realloc(buffer, buffer_size);
-		}
-
-		memcpy(buffer + buffer_count, YASL_String_chars(string), YASL_String_len(string));
-		buffer_count += YASL_String_len(string);
-
+	// the elements' strs are kept in a list on the stack, as converting one of them may fail.
+	struct RC_UserData *strs = rcls_new_sized(list->count);
+	ud_setmt(strs, S->vm.builtins_htable[Y_LIST]);
+	vm_pushlist((struct VM *) S, strs);
+	struct YASL_List *elmts = (struct YASL_List *) strs->data;
+	for (size_t i = 0; i < list->count; i++) {
 		vm_push((struct VM *) S, list->items[i]);
-		vm_stringify_top((struct VM *)S);
-		struct YASL_String *str = vm_popstr((struct VM *) S);
+		vm_stringify_top((struct VM *) S);
+		YASL_List_append(elmts, vm_pop((struct VM *) S));
+	}
 
-		while (buffer_count + YASL_String_len(str) >= buffer_size) {
-			buffer_size *= 2;
-			buffer = (char *) realloc(buffer, buffer_size);
+	size_t buffer_count = 0;
+	for (size_t i = 0; i < elmts->count; i++) {
+		buffer_count += YASL_String_len(obj_getstr(&elmts->items[i])) + (i ? YASL_String_len(string) : 0);
+	}
+	char *buffer = (char *) malloc(buffer_count);
+	size_t pos = 0;
+	for (size_t i = 0; i < elmts->count; i++) {
+		if (i) {
+			memcpy(buffer + pos, YASL_String_chars(string), YASL_String_len(string));
+			pos += YASL_String_len(string);
 		}
-
-		memcpy(buffer + buffer_count, YASL_String_chars(str), YASL_String_len(str));
-		buffer_count += YASL_String_len(str);
+		struct YASL_String *str = obj_getstr(&elmts->items[i]);
+		memcpy(buffer + pos, YASL_String_chars(str), YASL_String_len(str));
+		pos += YASL_String_len(str);
 	}
 	vm_pop((struct VM *) S);
 	vm_pop((struct VM *) S);
+	vm_pop((struct VM *) S);
 	vm_pushstr((struct VM *) S, YASL_String_new_sized_heap(0, buffer_count, buffer));
 	return 1;
 }
-- 
2.43.0


From 2ae42c9a750e69c67125636043bb3145d59868e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:12 +0000
Subject: [PATCH 52/72] fix: == of lists and tables whose elements have a
 scripted __eq read a stale value

---
 interpreter/VM.c           | 2 +-
 interpreter/list_methods.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index 3b69e8b..0ee675b 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -537,7 +537,7 @@ void vm_EQ(struct VM *const vm) {
 					  obj_typename(&a), obj_typename(&b));
 		vm_shifttopdown(vm, 2);
 		vm_INIT_CALL_offset(vm, vm->sp - 2, 1);
-		vm_CALL(vm);
+		vm_CALL_now(vm);
 	} else {
 		vm_pop(vm);
 		vm_pop(vm);
diff --git a/interpreter/list_methods.c b/interpreter/list_methods.c
index f67a888..0884b7a 100644
--- a/interpreter/list_methods.c
+++ b/interpreter/list_methods.c
@@ -202,7 +202,7 @@ int list___eq(struct YASL_State *S) {
 		return 1;
 	}
 
-	for (size_t i = 0; i < left->count; i++) {
+	for (size_t i = 0; i < left->count && i < right->count; i++) {
 		vm_push((struct VM *)S, left->items[i]);
 		vm_push((struct VM *)S, right->items[i]);
 		vm_EQ((struct VM *)S);
-- 
2.43.0


From d5a65c2eb3def94b8eb5e17a0b15227690bab789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:40 +0000
Subject: [PATCH 53/72] fix: the value of a statement starting with a lambda
 stayed on the stack

---
 compiler/parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/parser.c b/compiler/parser.c
index 187f3e4..82246c0 100644
--- a/compiler/parser.c
+++ b/compiler/parser.c
@@ -255,7 +255,7 @@ static struct Node *parse_program(struct Parser *const parser) {
 		return new_Echo(parser, parse_expr(parser), line);
 	case T_FN:
 		if (isfndecl(parser)) return parse_fn(parser);
-		else return parse_expr(parser);
+		else return parse_assign_or_exprstmt(parser);
 	case T_RET:
 		return parse_return(parser);
 	case T_EXPORT:
-- 
2.43.0


From 63bbb02cba140dab4eed8f2af806b72285d20898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:48 +0000
Subject: [PATCH 54/72] fix: looking up a method or operator through a scripted
 __get crashed

---
 interpreter/VM.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index 0ee675b..98fa172 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -333,7 +333,7 @@ static void vm_call_now_2(struct VM *vm, struct YASL_Object a, struct YASL_Objec
 	vm_INIT_CALL(vm, 1);
 	vm_push(vm, a);
 	vm_push(vm, b);
-	vm_CALL(vm);
+	vm_CALL_now(vm);
 }
 
 #define vm_lookup_method_throwing(vm, method_name, err_str, ...) \
-- 
2.43.0


From c008ee229a3c72f72951855d084cc4ded8eaf183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:59 +0000
Subject: [PATCH 55/72] fix: converting a list, table or set leaked its buffers
 when an element has no str

---
 interpreter/list_methods.c  | 56 ++++++++++-------------
 interpreter/table_methods.c | 90 ++++++++++++++++++-------------------
 interpreter/table_methods.h | 20 +++++++++
 std/yasl-std-collections.c  | 39 +++++-----------
 4 files changed, 98 insertions(+), 107 deletions(-)

diff --git a/interpreter/list_methods.c b/interpreter/list_methods.c
index 0884b7a..ccd2639 100644
--- a/interpreter/list_methods.c
+++ b/interpreter/list_methods.c
@@ -1,5 +1,6 @@
 #include "list_methods.h"
 
+#include "table_methods.h"
 #include "yasl.h"
 #include "yasl_aux.h"
 #include "data-structures/YASL_List.h"
@@ -60,62 +61,53 @@ int list___set(struct YASL_State *S) {
 	return 1;
 }
 
-int table_tostr_helper(struct YASL_State *S, void **buffer, size_t buffer_size, size_t buffer_count);
-bool buffer_contains(void **buffer, size_t buffer_count, void *val);
-void rec_call(struct YASL_State *S, void **buffer, const size_t buffer_count, const size_t buffer_size, int (*f)(struct YASL_State *, void **, size_t, size_t));
-
 #define FOUND_LIST "[...], "
 #define FOUND_TABLE "{...}, "
 
-int list_tostr_helper(struct YASL_State *S, void **buffer, size_t buffer_size, size_t buffer_count) {
-	struct YASL_ByteBuffer bb = NEW_BB(8);
-
-	YASL_ByteBuffer_add_byte(&bb, '[');
+void list_tostr_helper(struct YASL_State *S, const struct Visited *visited) {
 	struct YASL_List *list = vm_peeklist((struct VM *) S);
+	struct YASL_ByteBuffer *bb = YASL_pushbuffer(S);
+
+	YASL_ByteBuffer_add_byte(bb, '[');
 	if (list->count == 0) {
-		vm_pop((struct VM *) S);
-		YASL_ByteBuffer_add_byte(&bb, ']');
-		vm_push((struct VM *) S, YASL_STR(YASL_String_new_sized_heap(0, bb.count, (char *)bb.bytes)));
-		return YASL_SUCCESS;
+		YASL_ByteBuffer_add_byte(bb, ']');
+		YASL_buffertostr(S);
+		return;
 	}
 
 	FOR_LIST(i, obj, list) {
 		vm_push((struct VM *) S, obj);
 
 		if (vm_islist((struct VM *) S)) {
-			bool found = buffer_contains(buffer, buffer_count, vm_peeklist((struct VM *) S));
-			if (found) {
-				YASL_ByteBuffer_extend(&bb, (unsigned char *)FOUND_LIST, strlen(FOUND_LIST));
+			struct Visited node = { vm_peeklist((struct VM *) S), visited };
+			if (visited_contains(visited, node.val)) {
+				YASL_ByteBuffer_extend(bb, (unsigned char *)FOUND_LIST, strlen(FOUND_LIST));
 				vm_pop((struct VM *) S);
 				continue;
 			} else {
-				rec_call(S, buffer, buffer_count, buffer_size, &list_tostr_helper);
+				list_tostr_helper(S, &node);
 			}
 		} else if (vm_istable((struct VM *) S)) {
-			bool found = buffer_contains(buffer, buffer_count, vm_peeklist((struct VM *) S));
-			if (found) {
-				YASL_ByteBuffer_extend(&bb, (unsigned char *)FOUND_TABLE, strlen(FOUND_TABLE));
+			struct Visited node = { vm_peektable((struct VM *) S), visited };
+			if (visited_contains(visited, node.val)) {
+				YASL_ByteBuffer_extend(bb, (unsigned char *)FOUND_TABLE, strlen(FOUND_TABLE));
 				vm_pop((struct VM *) S);
 				continue;
 			} else {
-				rec_call(S, buffer, buffer_count, buffer_size, &table_tostr_helper);
+				table_tostr_helper(S, &node);
 			}
 		} else {
 			vm_stringify_top((struct VM *) S);
 		}
 
 		struct YASL_String *str = vm_popstr((struct VM *) S);
-		YASL_ByteBuffer_extend(&bb, (unsigned char *)YASL_String_chars(str), YASL_String_len(str));
-		YASL_ByteBuffer_extend(&bb, (unsigned char *)", ", strlen(", "));
+		YASL_ByteBuffer_extend(bb, (unsigned char *)YASL_String_chars(str), YASL_String_len(str));
+		YASL_ByteBuffer_extend(bb, (unsigned char *)", ", strlen(", "));
 	}
-	vm_pop((struct VM *) S);
-
-	bb.count -= 2;
-	YASL_ByteBuffer_add_byte(&bb, ']');
-
-	vm_push((struct VM *) S, YASL_STR(YASL_String_new_sized_heap(0, bb.count, (char *)bb.bytes)));
 
-	return YASL_SUCCESS;
+	bb->count -= 2;
+	YASL_ByteBuffer_add_byte(bb, ']');
+	YASL_buffertostr(S);
 }
 
 int list_tostr(struct YASL_State *S) {
@@ -123,10 +115,8 @@ int list_tostr(struct YASL_State *S) {
 		YASLX_print_err_bad_arg_type(S, "list.tostr", 0, "list", YASL_peektypename(S));
 		YASL_throw_err(S, YASL_TYPE_ERROR);
 	}
-	void **buffer = (void **) malloc(8 * sizeof(void *));
-	buffer[0] = vm_peeklist((struct VM *) S, S->vm.sp);
-	list_tostr_helper(S, buffer, 8, 1);
-	free(buffer);
+	struct Visited node = { vm_peeklist((struct VM *) S), NULL };
+	list_tostr_helper(S, &node);
 	return 1;
 }
 
diff --git a/interpreter/table_methods.c b/interpreter/table_methods.c
index e34463c..acd4df0 100644
--- a/interpreter/table_methods.c
+++ b/interpreter/table_methods.c
@@ -95,40 +95,47 @@ int table___eq(struct YASL_State *S) {
 	return 1;
 }
 
-int list_tostr_helper(struct YASL_State *S, void **buffer, size_t buffer_size, size_t buffer_count);
-
 #define FOUND_LIST "[...], "
 #define FOUND_TABLE "{...}, "
 
-bool buffer_contains(void **buffer, size_t buffer_count, void *val) {
-	for (size_t j = 0; j < buffer_count; j++) {
-		if (buffer[j] == val) {
+bool visited_contains(const struct Visited *visited, const void *val) {
+	for (; visited; visited = visited->prev) {
+		if (visited->val == val) {
 			return true;
 		}
 	}
 	return false;
 }
 
-void rec_call(struct YASL_State *S, void **buffer, const size_t buffer_count, const size_t buffer_size, int (*f)(struct YASL_State *, void **, size_t, size_t)) {
-	size_t tmp_buffer_size =
-		buffer_count == buffer_size ? buffer_size * 2 : buffer_size;
-	void **tmp_buffer = (void **) malloc(tmp_buffer_size * sizeof(void *));
-	memcpy(tmp_buffer, buffer, sizeof(void *) * buffer_count);
-	tmp_buffer[buffer_count] = vm_peeklist((struct VM *) S);
-	f(S, tmp_buffer, tmp_buffer_size, buffer_count + 1);
-	free(tmp_buffer);
+static void buffer_del(void *bb) {
+	YASL_ByteBuffer_del((struct YASL_ByteBuffer *)bb);
+}
+
+struct YASL_ByteBuffer *YASL_pushbuffer(struct YASL_State *S) {
+	struct YASL_ByteBuffer *bb = YASL_ByteBuffer_new(8);
+	YASL_pushuserdata(S, bb, "buffer", buffer_del);
+	return bb;
 }
 
-int table_tostr_helper(struct YASL_State *S, void **buffer, size_t buffer_size, size_t buffer_count) {
-	struct YASL_ByteBuffer bb = NEW_BB(8);
+void YASL_buffertostr(struct YASL_State *S) {
+	struct YASL_ByteBuffer *bb = (struct YASL_ByteBuffer *)YASL_GETUSERDATA(vm_peek((struct VM *) S))->data;
+	char *chars = (char *)bb->bytes;
+	size_t count = bb->count;
+	bb->bytes = NULL;
+	vm_pop((struct VM *) S);
+	vm_pop((struct VM *) S);
+	vm_push((struct VM *) S, YASL_STR(YASL_String_new_sized_heap(0, count, chars)));
+}
 
-	YASL_ByteBuffer_add_byte(&bb, '{');
+void table_tostr_helper(struct YASL_State *S, const struct Visited *visited) {
 	struct YASL_Table *table = vm_peektable((struct VM *) S);
+	struct YASL_ByteBuffer *bb = YASL_pushbuffer(S);
+
+	YASL_ByteBuffer_add_byte(bb, '{');
 	if (table->count == 0) {
-		vm_pop((struct VM *) S);
-		YASL_ByteBuffer_add_byte(&bb, '}');
-		vm_push((struct VM *) S, YASL_STR(YASL_String_new_sized_heap(0, bb.count, (char *)bb.bytes)));
-		return YASL_SUCCESS;
+		YASL_ByteBuffer_add_byte(bb, '}');
+		YASL_buffertostr(S);
+		return;
 	}
 
 	FOR_TABLE(i, item, table) {
@@ -137,46 +144,41 @@ int table_tostr_helper(struct YASL_State *S, void **buffer, size_t buffer_size,
 		vm_stringify_top(&S->vm);
 
 		struct YASL_String *str = vm_popstr((struct VM *) S);
-		YASL_ByteBuffer_extend(&bb, (unsigned char *)YASL_String_chars(str), YASL_String_len(str));
-		YASL_ByteBuffer_extend(&bb, (unsigned char *)": ", strlen(": "));
+		YASL_ByteBuffer_extend(bb, (unsigned char *)YASL_String_chars(str), YASL_String_len(str));
+		YASL_ByteBuffer_extend(bb, (unsigned char *)": ", strlen(": "));
 
 		vm_push((struct VM *) S, item->value);
 
 		if (vm_islist((struct VM *) S)) {
-			bool found = buffer_contains(buffer, buffer_count, vm_peeklist((struct VM *) S));
-			if (found) {
-				YASL_ByteBuffer_extend(&bb, (unsigned char *)FOUND_LIST, strlen(FOUND_LIST));
+			struct Visited node = { vm_peeklist((struct VM *) S), visited };
+			if (visited_contains(visited, node.val)) {
+				YASL_ByteBuffer_extend(bb, (unsigned char *)FOUND_LIST, strlen(FOUND_LIST));
 				vm_pop((struct VM *) S);
 				continue;
 			} else {
-				rec_call(S, buffer, buffer_count, buffer_size, &list_tostr_helper);
+				list_tostr_helper(S, &node);
 			}
-		} else if (vm_istable((struct VM *) S, S->vm.sp)) {
-			bool found = buffer_contains(buffer, buffer_count, vm_peeklist((struct VM *) S));
-			if (found) {
-				YASL_ByteBuffer_extend(&bb, (unsigned char *)FOUND_TABLE, strlen(FOUND_TABLE));
+		} else if (vm_istable((struct VM *) S)) {
+			struct Visited node = { vm_peektable((struct VM *) S), visited };
+			if (visited_contains(visited, node.val)) {
+				YASL_ByteBuffer_extend(bb, (unsigned char *)FOUND_TABLE, strlen(FOUND_TABLE));
 				vm_pop((struct VM *) S);
 				continue;
 			} else {
-				rec_call(S, buffer, buffer_count, buffer_size, &table_tostr_helper);
+				table_tostr_helper(S, &node);
 			}
 		} else {
 			vm_stringify_top((struct VM *) S);
 		}
 
 		str = vm_popstr((struct VM *) S);
-		YASL_ByteBuffer_extend(&bb, (unsigned char *)YASL_String_chars(str), YASL_String_len(str));
-		YASL_ByteBuffer_extend(&bb, (unsigned char *)", ", strlen(", "));
+		YASL_ByteBuffer_extend(bb, (unsigned char *)YASL_String_chars(str), YASL_String_len(str));
+		YASL_ByteBuffer_extend(bb, (unsigned char *)", ", strlen(", "));
 	}
 
-	vm_pop((struct VM *) S);
-
-	bb.count -= 2;
-	YASL_ByteBuffer_add_byte(&bb, '}');
-
-	vm_push((struct VM *) S, YASL_STR(YASL_String_new_sized_heap(0, bb.count, (char *)bb.bytes)));
-
-	return YASL_SUCCESS;
+	bb->count -= 2;
+	YASL_ByteBuffer_add_byte(bb, '}');
+	YASL_buffertostr(S);
 }
 
 int table_tostr(struct YASL_State *S) {
@@ -185,10 +187,8 @@ int table_tostr(struct YASL_State *S) {
 		YASL_throw_err(S, YASL_TYPE_ERROR);
 	}
 
-	void **buffer = (void **) malloc(8 * sizeof(void *));
-	buffer[0] = vm_peektable((struct VM *) S, S->vm.sp);
-	table_tostr_helper(S, buffer, 8, 1);
-	free(buffer);
+	struct Visited node = { vm_peektable((struct VM *) S), NULL };
+	table_tostr_helper(S, &node);
 	return 1;
 }
 
diff --git a/interpreter/table_methods.h b/interpreter/table_methods.h
index ecdb79f..55c9415 100644
--- a/interpreter/table_methods.h
+++ b/interpreter/table_methods.h
@@ -1,8 +1,28 @@
 #ifndef YASL_TABLE_METHODS_H_
 #define YASL_TABLE_METHODS_H_
 
+#include <stdbool.h>
+
+#include "data-structures/YASL_ByteBuffer.h"
+
 struct YASL_State;
 
+// The lists and tables being converted to str, innermost first.
+struct Visited {
+	const void *val;
+	const struct Visited *prev;
+};
+
+bool visited_contains(const struct Visited *visited, const void *val);
+
+// Leaves an empty buffer on top of the stack: converting an element may fail, and it must be freed then.
+struct YASL_ByteBuffer *YASL_pushbuffer(struct YASL_State *S);
+// Replaces the buffer on top of the stack, and the value below it, by the str the buffer holds.
+void YASL_buffertostr(struct YASL_State *S);
+
+void list_tostr_helper(struct YASL_State *S, const struct Visited *visited);
+void table_tostr_helper(struct YASL_State *S, const struct Visited *visited);
+
 int table___len(struct YASL_State *S);
 
 int table___get(struct YASL_State *S);
diff --git a/std/yasl-std-collections.c b/std/yasl-std-collections.c
index 9815895..17cd3ec 100644
--- a/std/yasl-std-collections.c
+++ b/std/yasl-std-collections.c
@@ -1,6 +1,7 @@
 #include "yasl-std-collections.h"
 
 #include "data-structures/YASL_Set.h"
+#include "interpreter/table_methods.h"
 #include "yasl_state.h"
 #include "yasl_aux.h"
 
@@ -98,41 +99,21 @@ static int YASL_collections_table_new(struct YASL_State *S) {
 static int YASL_collections_set_tostr(struct YASL_State *S) {
 	struct YASL_Set *set = YASLX_checknset(S, SET_PRE ".tostr", 0);
 
-	size_t string_count = 0;
-	size_t string_size = 8;
-	char *string = (char *)malloc(string_size);
-	string_count += strlen("set(");
-	memcpy(string, "set(", strlen("set("));
-	if (YASL_Set_length(set) == 0) {
-		string[string_count++] = ')';
-		YASL_pushlstr(S, string, string_count);
-		free(string);
-		return 1;
-	}
+	struct YASL_ByteBuffer *bb = YASL_pushbuffer(S);
+	YASL_ByteBuffer_extend(bb, (const unsigned char *)"set(", strlen("set("));
 	FOR_SET(i, item, set) {
 		vm_push((struct VM *)S, *item);
 		vm_stringify_top((struct VM *) S);
 		struct YASL_String *str = vm_popstr((struct VM *) S);
-		while (string_count + YASL_String_len(str) >= string_size) {
-			string_size *= 2;
-			string = (char *) realloc(string, string_size);
-		}
-
-		memcpy(string + string_count, str->str + str->start, YASL_String_len(str));
-		string_count += YASL_String_len(str);
-
-		if (string_count + 2 >= string_size) {
-			string_size *= 2;
-			string = (char *) realloc(string, string_size);
-		}
-
-		string[string_count++] = ',';
-		string[string_count++] = ' ';
+		YASL_ByteBuffer_extend(bb, (const unsigned char *)YASL_String_chars(str), YASL_String_len(str));
+		YASL_ByteBuffer_extend(bb, (const unsigned char *)", ", strlen(", "));
 	}
 
-	string_count -= 2;
-	string[string_count++] = ')';
-	vm_pushstr((struct VM *)S, YASL_String_new_sized_heap(0, string_count, string));
+	if (YASL_Set_length(set) != 0) {
+		bb->count -= 2;
+	}
+	YASL_ByteBuffer_add_byte(bb, ')');
+	YASL_buffertostr(S);
 	return 1;
 }
 
-- 
2.43.0


From 6f1db434168edfb77e696469d43f41cd83808db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:48 +0000
Subject: [PATCH 56/72] fix: the str of an int or float leaked when the stack
 was full

---
 interpreter/float_methods.c | 4 ++--
 interpreter/int_methods.c   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/interpreter/float_methods.c b/interpreter/float_methods.c
index 873c2fe..e3ae478 100644
--- a/interpreter/float_methods.c
+++ b/interpreter/float_methods.c
@@ -5,6 +5,7 @@
 #include "yasl.h"
 #include "yasl_aux.h"
 #include "yasl_float.h"
+#include "yasl_state.h"
 
 int float_toint(struct YASL_State *S) {
 	yasl_float val = YASLX_checknfloat(S, "float.toint", 0);
@@ -28,7 +29,6 @@ int float_tofloat(struct YASL_State *S) {
 int float_tostr(struct YASL_State *S) {
 	yasl_float val = YASLX_checknfloat(S, "float.tostr", 0);
 	const char *ptr = float64_to_str(val);
-	YASL_pushzstr(S, ptr);
-	free((void *)ptr);
+	vm_pushstr(&S->vm, YASL_String_new_sized_heap(0, strlen(ptr), ptr));
 	return 1;
 }
diff --git a/interpreter/int_methods.c b/interpreter/int_methods.c
index 559bd17..1eb6790 100644
--- a/interpreter/int_methods.c
+++ b/interpreter/int_methods.c
@@ -5,6 +5,7 @@
 #include "yasl.h"
 #include "yasl_aux.h"
 #include "yasl_include.h"
+#include "yasl_state.h"
 
 int int_toint(struct YASL_State *S) {
 	yasl_int n = YASLX_checknint(S, "int.toint", 0);
@@ -29,7 +30,6 @@ int int_tostr(struct YASL_State *S) {
 	int len = snprintf(NULL, 0, "%" PRId64 "", n);
 	char *ptr = (char *)malloc(len + 1);
 	sprintf(ptr, "%" PRId64 "", n);
-	YASL_pushlstr(S, ptr, len);
-	free(ptr);
+	vm_pushstr(&S->vm, YASL_String_new_sized_heap(0, len, ptr));
 	return 1;
 }
-- 
2.43.0


From be66a111b2c07bb8198c9489d6be556028daff3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:53 +0000
Subject: [PATCH 57/72] fix: YASL_popbool, YASL_popint and YASL_popfloat left a
 value of another type on the stack

---
 yasl.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/yasl.c b/yasl.c
index d562f6e..ed15f6a 100644
--- a/yasl.c
+++ b/yasl.c
@@ -544,6 +544,7 @@ bool YASL_popbool(struct YASL_State *S) {
 	if (YASL_isbool(S)) {
 		return vm_popbool(&S->vm);
 	}
+	YASL_pop(S);
 	return false;
 }
 
@@ -566,6 +567,7 @@ yasl_float YASL_popfloat(struct YASL_State *S) {
 	if (YASL_isfloat(S)) {
 		return vm_popfloat(&S->vm);
 	}
+	YASL_pop(S);
 	return 0.0;
 }
 
@@ -588,6 +590,7 @@ yasl_int YASL_popint(struct YASL_State *S) {
 	if (YASL_isint(S)) {
 		return vm_popint(&S->vm);
 	}
+	YASL_pop(S);
 	return 0;
 }
 
-- 
2.43.0


From e30728a320a89e51b2461c345e603ee09dbd6857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:04 +0000
Subject: [PATCH 58/72] fix: YASL_isuserptr, YASL_isnuserptr, YASL_peekuserdata
 and YASL_peekuserptr were declared but missing; YASL_peeknuserdata of another
 type read garbage

---
 yasl.c | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/yasl.c b/yasl.c
index ed15f6a..f8da872 100644
--- a/yasl.c
+++ b/yasl.c
@@ -525,6 +525,14 @@ bool YASL_isuserdata(struct YASL_State *S, const char *tag) {
 	return vm_isuserdata(&S->vm) && YASL_GETUSERDATA(vm_peek(&S->vm))->tag == tag;
 }
 
+bool YASL_isuserptr(struct YASL_State *S) {
+	return vm_isuserptr(&S->vm);
+}
+
+bool YASL_isnuserptr(struct YASL_State *S, unsigned n) {
+	return vm_isuserptr(&S->vm, S->vm.fp + 1 + n);
+}
+
 bool YASL_peekbool(struct YASL_State *S) {
 	if (YASL_isbool(S)) {
 		return vm_peekbool(&S->vm);
@@ -612,8 +620,29 @@ char *YASL_popcstr(struct YASL_State *S) {
 	return tmp;
 }
 
+void *YASL_peekuserdata(struct YASL_State *S) {
+	if (vm_isuserdata(&S->vm)) {
+		return YASL_GETUSERDATA(vm_peek(&S->vm))->data;
+	}
+
+	return NULL;
+}
+
 void *YASL_peeknuserdata(struct YASL_State *S, unsigned n) {
-	return YASL_GETUSERDATA(vm_peek(&S->vm, S->vm.fp + 1 + n))->data;
+	struct YASL_Object *obj = vm_peek_p(&S->vm, S->vm.fp + 1 + n);
+	if (!obj_isuserdata(obj) && !obj_islist(obj) && !obj_istable(obj)) {
+		return NULL;
+	}
+
+	return YASL_GETUSERDATA(*obj)->data;
+}
+
+void *YASL_peekuserptr(struct YASL_State *S) {
+	if (YASL_isuserptr(S)) {
+		return YASL_GETUSERPTR(vm_peek(&S->vm));
+	}
+
+	return NULL;
 }
 
 void *YASL_popuserdata(struct YASL_State *S) {
-- 
2.43.0


From ee30d5b608c970153dd63bc2cf82c077fb06b7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:04 +0000
Subject: [PATCH 59/72] fix: YASL_setmt could not remove a metatable

---
 yasl.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/yasl.c b/yasl.c
index f8da872..70e717f 100644
--- a/yasl.c
+++ b/yasl.c
@@ -239,7 +239,8 @@ int YASL_setmt(struct YASL_State *S) {
 		return YASL_TYPE_ERROR;
 	}
 
-	struct RC_UserData *mt = YASL_istable(S) ? YASL_GETUSERDATA(vm_pop(&S->vm)) : NULL;
+	struct RC_UserData *mt = YASL_istable(S) ? YASL_GETUSERDATA(vm_peek(&S->vm)) : NULL;
+	YASL_pop(S);
 
 	if (!vm_isuserdata(&S->vm) && !vm_istable(&S->vm) && !vm_islist(&S->vm)) {
 		return YASL_TYPE_ERROR;
-- 
2.43.0


From 0216ff35ffc7aff9e110d0b8a4114c3362739764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:21 +0000
Subject: [PATCH 60/72] fix: of several pairs with the same key a table
 comprehension or literal kept the first

---
 interpreter/VM.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index 98fa172..def088c 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -1549,7 +1549,8 @@ void vm_executenext(struct VM *const vm) {
 		while (vm_peek(vm).type != Y_END) {
 			struct YASL_Object val = vm_pop(vm);
 			struct YASL_Object key = vm_pop(vm);
-			if (obj_isundef(&val)) {
+			// the pairs are popped last to first, and the last one with a given key counts.
+			if (obj_isundef(&val) || YASL_Table_search(ht, key).type != Y_END) {
 				continue;
 			}
 			if (!YASL_Table_insert(ht, key, val)) {
-- 
2.43.0


From 647c308626ceca73e67414aad4b31249fac11688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:47 +0000
Subject: [PATCH 61/72] fix: a callable object used as an operator or method
 got the wrong arguments or crashed

---
 interpreter/VM.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index def088c..219ebe9 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -1257,8 +1257,19 @@ static void vm_exitframe(struct VM *const vm) {
 
 void vm_INIT_CALL_offset(struct VM *const vm, int offset, int expected_returns) {
 	if (!vm_isfn(vm, offset) && !vm_iscfn(vm, offset) && !vm_isclosure(vm, offset)) {
+		// the callee may be below its arguments, so it is replaced where it is.
+		vm_push(vm, vm_peek(vm, offset));
 		const char *name = (vm_peektypename(vm, offset));
 		vm_lookup_method_throwing(vm, "__call", "%s is not callable.", name);
+		struct YASL_Object method = vm_peek(vm);
+		inc_ref(&method);
+		dec_ref(&vm_peek(vm, offset));
+		vm_peek(vm, offset) = method;
+		vm_pop(vm);
+		if (!vm_isfn(vm, offset) && !vm_iscfn(vm, offset) && !vm_isclosure(vm, offset)) {
+			vm_print_err_type(vm, "%s is not callable.", vm_peektypename(vm, offset));
+			vm_throw_err(vm, YASL_TYPE_ERROR);
+		}
 	}
 
 	vm_enterframe_offset(vm, offset, expected_returns);
-- 
2.43.0


From b3ae9de5276f2b5042c0d33b97a31ba6db0e111e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:09 +0000
Subject: [PATCH 62/72] fix: // and % by 0 raised DivisionByZeroError before
 looking at an overload of the left operand

---
 interpreter/VM.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index 219ebe9..8d8cc75 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -1496,7 +1496,7 @@ void vm_executenext(struct VM *const vm) {
 		vm_fdiv(vm);   // handled differently because we always convert to float
 		break;
 	case O_IDIV:
-		if (vm_isint(vm) && vm_peekint(vm) == 0) {
+		if (vm_isint(vm, vm->sp - 1) && vm_isint(vm) && vm_peekint(vm) == 0) {
 			vm_print_err_divide_by_zero(vm);
 			vm_throw_err(vm, YASL_DIVIDE_BY_ZERO_ERROR);
 		}
@@ -1504,7 +1504,7 @@ void vm_executenext(struct VM *const vm) {
 		break;
 	case O_MOD:
 		// TODO: handle undefined C behaviour for negative numbers.
-		if (vm_isint(vm) && vm_peekint(vm) == 0) {
+		if (vm_isint(vm, vm->sp - 1) && vm_isint(vm) && vm_peekint(vm) == 0) {
 			vm_print_err_divide_by_zero(vm);
 			vm_throw_err(vm, YASL_DIVIDE_BY_ZERO_ERROR);
 		}
-- 
2.43.0


From 647174d6ec49818d97706f1e20f7a1c2dde68287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:35 +0000
Subject: [PATCH 63/72] fix: io.file.read('a') crashed or returned garbage for
 files that cannot be read or tell their size

---
 std/yasl-std-io.c | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/std/yasl-std-io.c b/std/yasl-std-io.c
index db37066..926af73 100644
--- a/std/yasl-std-io.c
+++ b/std/yasl-std-io.c
@@ -135,15 +135,21 @@ static int YASL_io_read(struct YASL_State *S) {
 
 	switch (mode_str[0]) {
 	case 'a': {
-		fseek(f, 0, SEEK_END);
-		size_t fsize = ftell(f);
+		// not every file can tell its size (pipes, terminals): read until there is no more.
 		fseek(f, 0, SEEK_SET);
+		size_t size = 64;
+		char *string = (char *) malloc(size);
+		size_t i = 0;
+		size_t n;
 
-		char *string = (char *) malloc(fsize);
-		int result = fread(string, fsize, 1, f);
-		(void) result;
-		// TODO clean this up.
-		YASL_pushlstr(S, string, fsize);
+		while ((n = fread(string + i, 1, size - i, f)) > 0) {
+			i += n;
+			if (i == size) {
+				size *= 2;
+				string = (char *)realloc(string, size);
+			}
+		}
+		YASL_pushlstr(S, string, i);
 		free(string);
 		return 1;
 	}
-- 
2.43.0


From c4c02fefb1b24a1924347db3c0e79e187dd0f061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:35 +0000
Subject: [PATCH 64/72] fix: io.file.write stopped at the first NUL byte of the
 str

---
 std/yasl-std-io.c | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/std/yasl-std-io.c b/std/yasl-std-io.c
index 926af73..a41adea 100644
--- a/std/yasl-std-io.c
+++ b/std/yasl-std-io.c
@@ -183,15 +183,11 @@ static int YASL_io_write(struct YASL_State *S) {
 		vm_print_err_bad_arg_type_name((struct VM *)S, FILE_PRE ".write", 1, YASL_STR_NAME, YASL_peektypename(S));
 		YASL_throw_err(S, YASL_TYPE_ERROR);
 	}
-	char *str = YASL_peekcstr(S);
+	struct YASL_String *str = vm_peekstr((struct VM *)S);
+	size_t write_len = fwrite(YASL_String_chars(str), 1, YASL_String_len(str), f);
 	YASL_pop(S);
 
-	size_t len = strlen(str);
-
-	size_t write_len = fwrite(str, 1, len, f);
-
 	YASL_pushint(S, write_len);
-	free(str);
 	return 1;
 }
 
-- 
2.43.0


From ff2f25da749a99d20bacd15fdad89fcc53a70d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:35 +0000
Subject: [PATCH 65/72] fix: using or deleting a file after close read and
 closed a freed FILE

---
 std/yasl-std-io.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/std/yasl-std-io.c b/std/yasl-std-io.c
index a41adea..27665d0 100644
--- a/std/yasl-std-io.c
+++ b/std/yasl-std-io.c
@@ -13,12 +13,21 @@
 
 static const char *const FILE_NAME = "io.file";
 
+// a closed file has no data
+static FILE *check_open(struct YASL_State *S, const char *name, void *data) {
+	if (data == NULL) {
+		vm_print_err_value((struct VM *)S, "%s was passed a closed file.", name);
+		YASL_throw_err(S, YASL_VALUE_ERROR);
+	}
+	return (FILE *)data;
+}
+
 static FILE *YASLX_checkfile(struct YASL_State *S, const char *name, int pos) {
 	if (!YASL_isuserdata(S, FILE_NAME)) {
 		YASLX_print_err_bad_arg_type(S, name, pos, FILE_NAME, YASL_peektypename(S));
 		YASL_throw_err(S, YASL_TYPE_ERROR);
 	}
-	return (FILE *)YASL_popuserdata(S);
+	return check_open(S, name, YASL_popuserdata(S));
 }
 
 static FILE *YASLX_checknfile(struct YASL_State *S, const char *name, unsigned pos) {
@@ -26,11 +35,11 @@ static FILE *YASLX_checknfile(struct YASL_State *S, const char *name, unsigned p
 		YASLX_print_err_bad_arg_type(S, name, pos, FILE_NAME, YASL_peekntypename(S, pos));
 		YASL_throw_err(S, YASL_TYPE_ERROR);
 	}
-	return (FILE *)YASL_peeknuserdata(S, pos);
+	return check_open(S, name, YASL_peeknuserdata(S, pos));
 }
 
 static void close_file(void *ptr) {
-	fclose((FILE *)ptr);
+	if (ptr != NULL) fclose((FILE *)ptr);
 }
 
 static int YASL_io_open(struct YASL_State *S) {
@@ -240,7 +249,9 @@ static int YASL_io_seek(struct YASL_State *S) {
 }
 
 static int YASL_io_close(struct YASL_State *S) {
-	FILE *f = YASLX_checkfile(S, FILE_PRE ".close", 0);
+	FILE *f = YASLX_checknfile(S, FILE_PRE ".close", 0);
+	YASL_GETUSERDATA(vm_peek((struct VM *)S))->data = NULL;
+	YASL_pop(S);
 
 	int success = fclose(f);
 	YASL_pushbool(S, success == 0);
-- 
2.43.0


From 7ad8f9995d655d9f558253905a6a23d3297d468d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:42 +0000
Subject: [PATCH 66/72] fix: math.isprime took a negative number for a huge
 positive one

---
 std/yasl-std-math.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/std/yasl-std-math.c b/std/yasl-std-math.c
index d73bc76..174100e 100644
--- a/std/yasl-std-math.c
+++ b/std/yasl-std-math.c
@@ -178,9 +178,7 @@ static int YASL_math_isprime(struct YASL_State *S) {
 		n = (yasl_int)YASL_popfloat(S);
 	}
 
-	int p = is_prime(n);
-	if (p < 0) YASL_pushundef(S);
-	else YASL_pushbool(S, (bool)p);
+	YASL_pushbool(S, n > 0 && is_prime((size_t)n));
 	return 1;
 }
 yasl_int gcd_helper(yasl_int a, yasl_int b) {
-- 
2.43.0


From 3321a9563133db4951c4449f21b5ea1e4bdea329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:42 +0000
Subject: [PATCH 67/72] fix: math.lcm overflowed although the result fits an
 int

---
 std/yasl-std-math.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/std/yasl-std-math.c b/std/yasl-std-math.c
index 174100e..98964b8 100644
--- a/std/yasl-std-math.c
+++ b/std/yasl-std-math.c
@@ -258,7 +258,7 @@ static int YASL_math_lcm(struct YASL_State *S) {
 		YASL_pushundef(S);
 	} else {
 		yasl_int gcd = gcd_helper(a, b);
-		YASL_pushint(S, b*a/gcd);
+		YASL_pushint(S, b / gcd * a);
 	}
 	return 1;
 }
-- 
2.43.0


From 53eba7cff826d21db2dc2ecbec94e81854bceddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:42 +0000
Subject: [PATCH 68/72] fix: math.max and math.min compared ints after rounding
 them to float

---
 std/yasl-std-math.c | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/std/yasl-std-math.c b/std/yasl-std-math.c
index 98964b8..b50dbad 100644
--- a/std/yasl-std-math.c
+++ b/std/yasl-std-math.c
@@ -85,6 +85,19 @@ DEFINE_MATH_UN_FLOAT_FUN(atan);
 DEFINE_MATH_UN_FLOAT_FUN(ceil);
 DEFINE_MATH_UN_FLOAT_FUN(floor);
 
+// left >= right, exactly: converting an int to float may round it.
+static bool num_ge(struct YASL_Object left, struct YASL_Object right) {
+	if (obj_isint(&left) && obj_isint(&right)) return obj_getint(&left) >= obj_getint(&right);
+	if (obj_isfloat(&left) && obj_isfloat(&right)) return obj_getfloat(&left) >= obj_getfloat(&right);
+	const yasl_float limit = 9223372036854775808.0;  // 2 ** 63
+	yasl_float f = obj_isfloat(&left) ? obj_getfloat(&left) : obj_getfloat(&right);
+	bool is_left = obj_isfloat(&left);
+	if (f >= limit) return is_left;
+	if (f < -limit) return !is_left;
+	yasl_int i = is_left ? obj_getint(&right) : obj_getint(&left);
+	return is_left ? (yasl_int)floor(f) >= i : i >= (yasl_int)ceil(f);
+}
+
 static int YASL_math_max(struct YASL_State *S) {
 	struct YASL_Object max = YASL_FLOAT(-YASL_INF);
 
@@ -97,7 +110,7 @@ static int YASL_math_max(struct YASL_State *S) {
 	for (yasl_int i = 0; i < num_va_args; i++) {
 		if (vm_isint((struct VM *)S)) {
 			yasl_int top = vm_popint((struct VM *)S);
-			if ((top >= obj_getnum(&max))) {
+			if (num_ge(YASL_INT(top), max)) {
 				max = YASL_INT(top);
 			}
 		} else if (vm_isfloat((struct VM *)S)) {
@@ -106,7 +119,7 @@ static int YASL_math_max(struct YASL_State *S) {
 				YASL_pushfloat(S, YASL_NAN);
 				return 1;
 			}
-			if ((top >= obj_getnum(&max))) {
+			if (num_ge(YASL_FLOAT(top), max)) {
 				max = YASL_FLOAT(top);
 			}
 		} else {
@@ -129,7 +142,7 @@ static int YASL_math_min(struct YASL_State *S) {
 	for (yasl_int i = 0; i < num_va_args; i++) {
 		if (vm_isint((struct VM *)S)) {
 			yasl_int top = vm_popint((struct VM *)S);
-			if ((top <= obj_getnum(&max))) {
+			if (num_ge(max, YASL_INT(top))) {
 				max = YASL_INT(top);
 			}
 		} else if (vm_isfloat((struct VM *)S)) {
@@ -138,7 +151,7 @@ static int YASL_math_min(struct YASL_State *S) {
 				YASL_pushfloat(S, YASL_NAN);
 				return 1;
 			}
-			if ((top <= obj_getnum(&max))) {
+			if (num_ge(max, YASL_FLOAT(top))) {
 				max = YASL_FLOAT(top);
 			}
 		} else {
-- 
2.43.0


From f23998101c70b8cbfa850b72f41ee38f4e141643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:08 +0000
Subject: [PATCH 69/72] fix: str.tofloat gave nan for the text of a negative or
 infinite float

---
 data-structures/YASL_String.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/data-structures/YASL_String.c b/data-structures/YASL_String.c
index 0f889a7..d271212 100644
--- a/data-structures/YASL_String.c
+++ b/data-structures/YASL_String.c
@@ -186,7 +186,9 @@ yasl_float YASL_String_tofloat(struct YASL_String *str) {
 	const size_t length = YASL_String_len(str);
 	const char *chars = YASL_String_chars(str);
 	char *buffer = (char *)malloc(length + 1);
-	if (length == 0 || !isdigit((int)chars[0])) {
+	const size_t sign = length > 0 && (chars[0] == '-' || chars[0] == '+');
+	const bool inf = length == sign + 3 && memcmp(chars + sign, "inf", 3) == 0;
+	if (length == sign || (!inf && !isdigit((unsigned char)chars[sign]))) {
 		free(buffer);
 		return NAN;
 	}
-- 
2.43.0


From e2ad53ebef15723c1d29e3f6abc0c40640cd7249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:39 +0000
Subject: [PATCH 70/72] fix: a call assigned to more than 127 targets left the
 wrong number of values

---
 compiler/compiler.c |  5 +++++
 interpreter/VM.c    | 11 +++++++++--
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/compiler/compiler.c b/compiler/compiler.c
index 1022ef5..4a487d4 100644
--- a/compiler/compiler.c
+++ b/compiler/compiler.c
@@ -457,6 +457,11 @@ static void visit_VariadicContext(struct Compiler *const compiler, const struct
 	int old_returns = compiler->expected_returns;
 	// only a call itself yields several values, not an expression that contains one.
 	compiler->expected_returns = will_var_expand(node->children[0]) ? node->value.ival : 1;
+	if (compiler->expected_returns >= UCHAR_MAX) {
+		// UCHAR_MAX stands for however many values there are.
+		compiler_print_err_syntax(compiler, "Too many values expected from a call (line %" PRI_SIZET ").\n", node->line);
+		handle_error(compiler);
+	}
 	visit(compiler, node->children[0]);
 	compiler->expected_returns = old_returns;
 }
diff --git a/interpreter/VM.c b/interpreter/VM.c
index 8d8cc75..46bd96e 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -1,5 +1,6 @@
 #include "VM.h"
 
+#include <limits.h>
 #include <stdlib.h>
 #include <memory.h>
 #include <stdint.h>
@@ -1289,8 +1290,14 @@ static void vm_swaptop(struct VM *const vm) {
 	vm_peek(vm, vm->sp - 1) = tmp;
 }
 
+// The number of values expected from a call, or -1 for however many there are.
+static int vm_read_expected_returns(struct VM *const vm) {
+	const unsigned char expected_returns = NCODE(vm);
+	return expected_returns == UCHAR_MAX ? -1 : expected_returns;
+}
+
 static void vm_INIT_MC(struct VM *const vm) {
-	int expected_returns = (signed char)NCODE(vm);
+	int expected_returns = vm_read_expected_returns(vm);
 	vm_duptop(vm);
 	yasl_int addr = vm_read_int(vm);
 	vm_GET_helper(vm, vm->constants[addr]);
@@ -1680,7 +1687,7 @@ void vm_executenext(struct VM *const vm) {
 		vm_INIT_MC(vm);
 		break;
 	case O_INIT_CALL:
-		vm_INIT_CALL(vm, (signed char)NCODE(vm));
+		vm_INIT_CALL(vm, vm_read_expected_returns(vm));
 		break;
 	case O_CALL:
 		vm_CALL(vm);
-- 
2.43.0


From 3fc6614e9fb41a2ad14dd56945945ade41a63ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:38 +0000
Subject: [PATCH 71/72] fix: require leaked the state of a module that fails,
 and lost the bytecode of every module but the last

---
 std/yasl-std-require.c | 40 ++++++++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/std/yasl-std-require.c b/std/yasl-std-require.c
index 37f004a..4a23f50 100644
--- a/std/yasl-std-require.c
+++ b/std/yasl-std-require.c
@@ -47,6 +47,7 @@ int YASL_require(struct YASL_State *S) {
 
 	if (!Ss) {
 		YASL_print_err(S, "could not open package %s.", mode_str);
+		free(mode_str);
 		YASL_throw_err(S, YASL_ERROR);
 	}
 
@@ -66,15 +67,13 @@ int YASL_require(struct YASL_State *S) {
 
 	int status = YASL_execute(Ss);
 
-	if (status != YASL_MODULE_SUCCESS) {
-		puts("Not a valid module");
-		YASL_throw_err(S, YASL_ERROR);
-	}
+	struct YASL_Object exported = YASL_UNDEF();
+	if (status == YASL_MODULE_SUCCESS) {
+		inc_ref(&vm_peek(&Ss->vm));
+		exported = vm_pop(&Ss->vm);
 
-	inc_ref(&vm_peek(&Ss->vm));
-	struct YASL_Object exported = vm_pop(&Ss->vm);
-
-	vm_pushundef(&Ss->vm);
+		vm_pushundef(&Ss->vm);
+	}
 
 	size_t old_headers_size = S->vm.headers_size;
 	size_t new_headers_size = Ss->vm.headers_size;
@@ -83,6 +82,7 @@ int YASL_require(struct YASL_State *S) {
 		S->vm.headers[i] = Ss->vm.headers[i];
 		Ss->vm.headers[i] = NULL;
 	}
+	S->vm.headers_size = new_headers_size;
 
 	Ss->vm.globals = NULL;
 	Ss->vm.metatables = NULL;
@@ -90,21 +90,29 @@ int YASL_require(struct YASL_State *S) {
 	Ss->vm.code = NULL;
 	Ss->compiler.strings = NULL;
 	Ss->compiler.header = YASL_ByteBuffer_new(0);
-	for (int i = 0; i < S->vm.num_constants; i++) {
-		dec_ref(S->vm.constants + i);
+	// A module that was rejected by the compiler has no constants.
+	if (Ss->vm.constants) {
+		for (int i = 0; i < S->vm.num_constants; i++) {
+			dec_ref(S->vm.constants + i);
+		}
+		free(S->vm.constants);
+		S->vm.constants = Ss->vm.constants;
+		S->vm.num_constants = Ss->vm.num_constants;
+		Ss->vm.constants = NULL;
+		Ss->vm.num_constants = 0;
 	}
-	free(S->vm.constants);
-	S->vm.constants = Ss->vm.constants;
-	S->vm.num_constants = Ss->vm.num_constants;
-	Ss->vm.constants = NULL;
-	Ss->vm.num_constants = 0;
 
 	YASL_delstate(Ss);
+	free(mode_str);
+
+	if (status != YASL_MODULE_SUCCESS) {
+		puts("Not a valid module");
+		YASL_throw_err(S, YASL_ERROR);
+	}
 
 	vm_push(&S->vm, exported);
 	dec_ref(&vm_peek(&S->vm));
 
-	free(mode_str);
 	return 1;
 }
 
-- 
2.43.0


From a0a24852b3b4cbb185394ff6fca78809d7b16cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:35 +0000
Subject: [PATCH 72/72] fix: reading a global that is declared but was never
 set read outside the table of metatables

---
 interpreter/VM.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index 46bd96e..cbea4ca 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -1193,9 +1193,10 @@ static void vm_GSTORE_8(struct VM *const vm) {
 static void vm_GLOAD_8(struct VM *const vm) {
 	yasl_int addr = vm_read_int(vm);
 
-	vm_push(vm, YASL_Table_search(vm->globals, vm->constants[addr]));
+	struct YASL_Object global = YASL_Table_search(vm->globals, vm->constants[addr]);
 
-	YASL_ASSERT(vm_peek(vm).type != Y_END, "global not found");
+	// declared, but never given a value (the statement that declares it failed, or nobody set it).
+	vm_push(vm, global.type == Y_END ? YASL_UNDEF() : global);
 }
 
 static void vm_enterframe_offset(struct VM *const vm, int offset, int num_returns) {
-- 
2.43.0

