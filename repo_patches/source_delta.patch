From 7f442e720c396f3c6e0e964c17a272fb9ec15765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:21:07 +0000
Subject: [PATCH 01/67] fix: report an error raised by a key comparison during
 a hash table probe

A comparison that failed while a table was probed was treated as 'not equal',
so the error was lost and a lookup or an insertion went on as if the key were
absent. The probe now stops and hands the error to the caller.
---
 hashbrown/src/raw/mod.rs | 39 +++++++++++++++++++++++++++------------
 1 file changed, 27 insertions(+), 12 deletions(-)

diff --git a/hashbrown/src/raw/mod.rs b/hashbrown/src/raw/mod.rs
index 46a7978..d7fdd97 100644
--- a/hashbrown/src/raw/mod.rs
+++ b/hashbrown/src/raw/mod.rs
@@ -1011,17 +1011,24 @@ impl<T, E, G, R> RawTable<T, E, G, R> {
             // 3. The `find_or_find_insert_slot_inner` function returns the `index` of only the full bucket,
             //    which is in the range `0..self.buckets()` (since there is at least one empty `bucket` in
             //    the table), so calling `self.bucket(index)` and `Bucket::as_ref` is safe.
-            Ok(
-                match self
-                    .table
-                    .find_or_find_insert_slot_inner(hash, &mut |index| {
-                        eq(self.bucket(index).as_ref(), e, g).unwrap_or(false) // TO_BE_FIXED
-                    }) {
-                    // SAFETY: See explanation above.
-                    Ok(index) => Ok(self.bucket(index)),
-                    Err(slot) => Err(slot),
-                },
-            )
+            // An error of `eq` ends the probe and is handed to the caller.
+            let mut error = None;
+            let result = self
+                .table
+                .find_or_find_insert_slot_inner(hash, &mut |index| {
+                    eq(self.bucket(index).as_ref(), e, g).unwrap_or_else(|err| {
+                        error = Some(err);
+                        true
+                    })
+                });
+            if let Some(err) = error {
+                return Err(err);
+            }
+            Ok(match result {
+                // SAFETY: See explanation above.
+                Ok(index) => Ok(self.bucket(index)),
+                Err(slot) => Err(slot),
+            })
         }
     }
 
@@ -1093,9 +1100,17 @@ impl<T, E, G, R> RawTable<T, E, G, R> {
             // 1. The `find_inner` function returns the `index` of only the full bucket, which is in
             //    the range `0..self.buckets()`, so calling `self.bucket(index)` and `Bucket::as_ref`
             //    is safe.
+            // An error of `eq` ends the probe and is handed to the caller.
+            let mut error = None;
             let result = self.table.find_inner(hash, &mut |index| {
-                eq(self.bucket(index).as_ref(), e, g).unwrap_or(false) // TO_BE_FIXED
+                eq(self.bucket(index).as_ref(), e, g).unwrap_or_else(|err| {
+                    error = Some(err);
+                    true
+                })
             });
+            if let Some(err) = error {
+                return Err(err);
+            }
 
             // Avoid `Option::map` because it bloats LLVM IR.
             match result {
-- 
2.43.0


From b11b05435d1ff7036f547546125be49fe967e56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:21:07 +0000
Subject: [PATCH 02/67] fix: return a comparison error from get_or_insert_with
 instead of panicking

The check that the created value matches the requested one treated a failing
comparison as a mismatch and panicked.
---
 hashbrown/src/set.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hashbrown/src/set.rs b/hashbrown/src/set.rs
index 596e734..d62e9ec 100644
--- a/hashbrown/src/set.rs
+++ b/hashbrown/src/set.rs
@@ -685,7 +685,7 @@ where
             Err(slot) => {
                 let new = f(value);
                 assert!(
-                    value.equivalent(&new, e, g).unwrap_or(false), // TO_BE_FIXED
+                    value.equivalent(&new, e, g)?,
                     "new value is not equivalent"
                 );
                 unsafe { self.map.table.insert_in_slot(hash, slot, (new, ())) }
-- 
2.43.0


From 517df4dfbb6fe06df81228be8812bb0b5bbb8b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:21:13 +0000
Subject: [PATCH 03/67] fix: look at the hash when removing a key from a
 one-entry map

Removal from a map with a single entry compared the keys without their hashes.
A key that is eql? to the stored one but has another hash was removed there,
although the lookup does not find it and the removal from any larger map does
not touch it.
---
 rubymap/src/map.rs | 34 ++++++++--------------------------
 1 file changed, 8 insertions(+), 26 deletions(-)

diff --git a/rubymap/src/map.rs b/rubymap/src/map.rs
index 1e42989..3bcaa45 100644
--- a/rubymap/src/map.rs
+++ b/rubymap/src/map.rs
@@ -983,20 +983,11 @@ where
     where
         Q: ?Sized + RubyHash<E, G, R> + Equivalent<K, E, G, R>,
     {
-        match self.as_entries() {
-            [x] if key.equivalent(&x.key, e, g)? => {
-                let (k, v) = match self.core.pop(e, g)? {
-                    Some((k, v)) => (k, v),
-                    None => return Ok(None),
-                };
-                Ok(Some((0, k, v)))
-            }
-            [_] | [] => Ok(None),
-            _ => {
-                let hash = self.hash(key, e, g)?;
-                self.core.swap_remove_full(hash, key, e, g)
-            }
+        if self.is_empty() {
+            return Ok(None);
         }
+        let hash = self.hash(key, e, g)?;
+        self.core.swap_remove_full(hash, key, e, g)
     }
 
     /// Remove `key` from the index table only, leaving its entry in place
@@ -1116,20 +1107,11 @@ where
     where
         Q: ?Sized + RubyHash<E, G, R> + Equivalent<K, E, G, R>,
     {
-        match self.as_entries() {
-            [x] if key.equivalent(&x.key, e, g)? => {
-                let (k, v) = match self.core.pop(e, g)? {
-                    Some((k, v)) => (k, v),
-                    None => return Ok(None),
-                };
-                Ok(Some((0, k, v)))
-            }
-            [_] | [] => Ok(None),
-            _ => {
-                let hash = self.hash(key, e, g)?;
-                self.core.shift_remove_full(hash, key, e, g)
-            }
+        if self.is_empty() {
+            return Ok(None);
         }
+        let hash = self.hash(key, e, g)?;
+        self.core.shift_remove_full(hash, key, e, g)
     }
 }
 
-- 
2.43.0


From 47f8348cda60297c1537ff01c035157f502360bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:22:17 +0000
Subject: [PATCH 04/67] fix: compare the stored hash before calling eql? in
 indexed maps

Small maps compare the full hash of two keys before they ask eql?. Larger maps
asked eql? for every key whose truncated hash matched, so user code could
observe the difference and two keys with different hashes could be taken for
the same key depending on the size of the map. All probes now compare the full
hash first.
---
 rubymap/src/map/core.rs       | 32 +++++++++++++++++++-------------
 rubymap/src/map/core/entry.rs |  2 +-
 2 files changed, 20 insertions(+), 14 deletions(-)

diff --git a/rubymap/src/map/core.rs b/rubymap/src/map/core.rs
index 242642b..5fc2654 100644
--- a/rubymap/src/map/core.rs
+++ b/rubymap/src/map/core.rs
@@ -76,18 +76,20 @@ fn get_hash<K, V>(entries: &[Bucket<K, V>]) -> impl Fn(&usize) -> u64 + '_ {
 
 #[inline]
 fn equivalent<'a, K, V, E, G, R, Q: ?Sized + Equivalent<K, E, G, R>>(
+    hash: HashValue,
     key: &'a Q,
     entries: &'a [Bucket<K, V>],
 ) -> impl Fn(&usize, &mut E, &mut G) -> Result<bool, R> + 'a {
-    move |&i, e, g| Q::equivalent(key, &entries[i].key, e, g)
+    move |&i, e, g| Ok(entries[i].hash == hash && Q::equivalent(key, &entries[i].key, e, g)?)
 }
 
 #[inline]
 fn sym_equivalent<'a, K, V, Q: ?Sized + SymEquivalent<K>>(
+    hash: HashValue,
     key: &'a Q,
     entries: &'a [Bucket<K, V>],
 ) -> impl Fn(&usize) -> bool + 'a {
-    move |&i| Q::equivalent(key, &entries[i].key)
+    move |&i| entries[i].hash == hash && Q::equivalent(key, &entries[i].key)
 }
 
 #[inline]
@@ -396,7 +398,7 @@ impl<K, V, E, G, R> IndexMapCore<K, V, E, G, R> {
         if self.linear {
             return self.linear_find(hash, key, e, g);
         }
-        let eq = equivalent(key, &self.entries);
+        let eq = equivalent(hash, key, &self.entries);
         Ok(self.indices.find(hash.get(), eq, e, g)?.copied())
     }
 
@@ -434,7 +436,7 @@ impl<K, V, E, G, R> IndexMapCore<K, V, E, G, R> {
             // Crossing AR_MAX: build the table once, then fall through.
             self.ensure_indexed();
         }
-        let eq = equivalent(&key, &self.entries);
+        let eq = equivalent(hash, &key, &self.entries);
         let hasher = get_hash(&self.entries);
         match self.indices.entry(hash.get(), eq, hasher, e, g)? {
             hash_table::Entry::Occupied(entry) => {
@@ -474,7 +476,7 @@ impl<K, V, E, G, R> IndexMapCore<K, V, E, G, R> {
             }
             self.ensure_indexed();
         }
-        let eq = sym_equivalent(&key, &self.entries);
+        let eq = sym_equivalent(hash, &key, &self.entries);
         let hasher = get_hash(&self.entries);
         match self.indices.entry_sym(hash.get(), eq, hasher) {
             hash_table::Entry::Occupied(entry) => {
@@ -519,7 +521,7 @@ impl<K, V, E, G, R> IndexMapCore<K, V, E, G, R> {
             self.ensure_indexed();
         }
         let entries = &self.entries;
-        let eq = |&i: &usize| entries[i].key == key;
+        let eq = |&i: &usize| entries[i].hash == hash && entries[i].key == key;
         let hasher = get_hash(&self.entries);
         match self.indices.entry_sym(hash.get(), eq, hasher) {
             hash_table::Entry::Occupied(entry) => {
@@ -559,7 +561,9 @@ impl<K, V, E, G, R> IndexMapCore<K, V, E, G, R> {
             return Ok(None);
         }
         let entries = &self.entries;
-        let eq = |&i: &usize, _: &mut E, _: &mut G| Ok(entries[i].key == *key);
+        let eq = |&i: &usize, _: &mut E, _: &mut G| {
+            Ok(entries[i].hash == hash && entries[i].key == *key)
+        };
         Ok(self.indices.find(hash.get(), eq, e, g)?.copied())
     }
 
@@ -592,7 +596,7 @@ impl<K, V, E, G, R> IndexMapCore<K, V, E, G, R> {
             self.ensure_indexed();
         }
         let entries = &self.entries;
-        let eq = |&i: &usize| eq(&entries[i].key);
+        let eq = |&i: &usize| entries[i].hash == hash && eq(&entries[i].key);
         let hasher = get_hash(&self.entries);
         match self.indices.entry_sym(hash.get(), eq, hasher) {
             hash_table::Entry::Occupied(entry) => {
@@ -631,7 +635,9 @@ impl<K, V, E, G, R> IndexMapCore<K, V, E, G, R> {
             return Ok(None);
         }
         let entries = &self.entries;
-        let eq = |&i: &usize, _: &mut E, _: &mut G| Ok(eq(&entries[i].key));
+        let eq = |&i: &usize, _: &mut E, _: &mut G| {
+            Ok(entries[i].hash == hash && eq(&entries[i].key))
+        };
         Ok(self.indices.find(hash.get(), eq, e, g)?.copied())
     }
 
@@ -648,7 +654,7 @@ impl<K, V, E, G, R> IndexMapCore<K, V, E, G, R> {
         K: RubyEql<E, G, R>,
     {
         self.ensure_indexed();
-        let eq = equivalent(&key, &self.entries);
+        let eq = equivalent(hash, &key, &self.entries);
         let hasher = get_hash(&self.entries);
         match self.indices.entry(hash.get(), eq, hasher, e, g)? {
             hash_table::Entry::Occupied(entry) => {
@@ -701,7 +707,7 @@ impl<K, V, E, G, R> IndexMapCore<K, V, E, G, R> {
         Q: ?Sized + Equivalent<K, E, G, R>,
     {
         self.ensure_indexed();
-        let eq = equivalent(key, &self.entries);
+        let eq = equivalent(hash, key, &self.entries);
         Ok(match self.indices.find_entry(hash.get(), eq, e, g)? {
             Ok(entry) => {
                 let (index, _) = entry.remove();
@@ -789,7 +795,7 @@ impl<K, V, E, G, R> IndexMapCore<K, V, E, G, R> {
                 None => None,
             });
         }
-        let eq = equivalent(key, &self.entries);
+        let eq = equivalent(hash, key, &self.entries);
         Ok(match self.indices.find_entry(hash.get(), eq, e, g)? {
             Ok(entry) => {
                 let (index, _) = entry.remove();
@@ -862,7 +868,7 @@ impl<K, V, E, G, R> IndexMapCore<K, V, E, G, R> {
                 None => None,
             });
         }
-        let eq = equivalent(key, &self.entries);
+        let eq = equivalent(hash, key, &self.entries);
         Ok(match self.indices.find_entry(hash.get(), eq, e, g)? {
             Ok(entry) => {
                 let (index, _) = entry.remove();
diff --git a/rubymap/src/map/core/entry.rs b/rubymap/src/map/core/entry.rs
index c90c76a..4ff48bf 100644
--- a/rubymap/src/map/core/entry.rs
+++ b/rubymap/src/map/core/entry.rs
@@ -19,7 +19,7 @@ impl<K, V, E, G, R> IndexMapCore<K, V, E, G, R> {
         // flavour about both modes.
         self.ensure_indexed();
         let entries = &mut self.entries;
-        let eq = equivalent(&key, entries);
+        let eq = equivalent(hash, &key, entries);
         Ok(match self.indices.find_entry(hash.get(), eq, e, g)? {
             Ok(index) => Entry::Occupied(OccupiedEntry { entries, index }),
             Err(absent) => Entry::Vacant(VacantEntry {
-- 
2.43.0


From 06ddec1ab6c971c8cb0fdba99c2f58a4da8b5296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:12:10 +0000
Subject: [PATCH 05/67] fix: forget unmoved elements when the hasher panics
 during an in-place rehash

The elements not yet moved were only taken out of the count for types that
need dropping. For other types the table went on counting them, and iterating
over it read beyond the end of the control bytes.
---
 hashbrown/src/raw/mod.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/hashbrown/src/raw/mod.rs b/hashbrown/src/raw/mod.rs
index d7fdd97..96d4b10 100644
--- a/hashbrown/src/raw/mod.rs
+++ b/hashbrown/src/raw/mod.rs
@@ -2673,13 +2673,13 @@ impl RawTableInner {
         self.prepare_rehash_in_place();
 
         let mut guard = guard(self, move |self_| {
-            if let Some(drop) = drop {
-                for i in 0..self_.buckets() {
-                    if *self_.ctrl(i) == Tag::DELETED {
-                        self_.set_ctrl(i, Tag::EMPTY);
+            for i in 0..self_.buckets() {
+                if *self_.ctrl(i) == Tag::DELETED {
+                    self_.set_ctrl(i, Tag::EMPTY);
+                    if let Some(drop) = drop {
                         drop(self_.bucket_ptr(i, size_of));
-                        self_.items -= 1;
                     }
+                    self_.items -= 1;
                 }
             }
             self_.growth_left = bucket_mask_to_capacity(self_.bucket_mask) - self_.items;
-- 
2.43.0


From fd9750c5021486f3e52be659d8fab4ea2c60cda6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:30:25 +0000
Subject: [PATCH 06/67] fix: JIT-compiled integer division of the smallest
 fixnum by -1 overflows to a bignum

---
 monoruby/src/codegen/arch/aarch64/compile/binary_op.rs | 5 +++--
 monoruby/src/codegen/arch/x86_64/compile/binary_op.rs  | 6 ++++++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/monoruby/src/codegen/arch/aarch64/compile/binary_op.rs b/monoruby/src/codegen/arch/aarch64/compile/binary_op.rs
index 89b6016..d3d96ca 100644
--- a/monoruby/src/codegen/arch/aarch64/compile/binary_op.rs
+++ b/monoruby/src/codegen/arch/aarch64/compile/binary_op.rs
@@ -65,9 +65,10 @@ impl Codegen {
                     tbz x12, #(63), done;        // same sign -> no adjust
                     sub x10, x10, #(1u32);       // floor: q -= 1
                     done:
-                    lsl x(rax), x10, #(1u32);    // 2q
-                    add x(rax), x(rax), #(1u32); // 2q+1 (tagged)
+                    adds x(rax), x10, x10;       // 2q (overflows for `min / -1` only)
                 );
+                self.jit.bcond_label(monoasm::Cond::Vs, &deopt);
+                monoasm_arm64!(&mut self.jit, add x(rax), x(rax), #(1u32);); // 2q+1 (tagged)
             }
             // Bitwise ops on tagged fixnums need no overflow check and never
             // clobber `rhs`; the result lands in `lhs` like Add/Sub. `&`/`|` keep
diff --git a/monoruby/src/codegen/arch/x86_64/compile/binary_op.rs b/monoruby/src/codegen/arch/x86_64/compile/binary_op.rs
index 03d8dc7..ae37efc 100644
--- a/monoruby/src/codegen/arch/x86_64/compile/binary_op.rs
+++ b/monoruby/src/codegen/arch/x86_64/compile/binary_op.rs
@@ -69,6 +69,7 @@ impl Codegen {
             }
             BinOpK::Div => {
                 let zero_div = self.jit.label();
+                let overflow = self.jit.label();
                 let exit = self.jit.label();
                 let negative_divisor = self.jit.label();
                 let dec = self.jit.label();
@@ -94,7 +95,9 @@ impl Codegen {
                 dec:
                     subq rax, 1;
                 exit:
+                    // only `min / -1` does not fit a Fixnum.
                     salq rax, 1;
+                    jo overflow;
                     orq  rax, 1;
                 );
                 self.jit.select_page(1);
@@ -102,6 +105,9 @@ impl Codegen {
                 zero_div:
                     movq rdi, (Value::symbol_from_str("_divide_by_zero").id());
                     jmp deopt;
+                overflow:
+                    movq rdi, (Value::symbol_from_str("_arith_overflow").id());
+                    jmp deopt;
                 );
                 self.jit.select_page(0);
             }
-- 
2.43.0


From f96aaa58667f65ab83f8104fa989b5e236373d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:32:33 +0000
Subject: [PATCH 07/67] fix: Integer#pow with a modulus takes bignums and
 reduces the empty product

---
 monoruby/src/builtins/numeric/integer.rs | 40 +++++++-----------------
 1 file changed, 11 insertions(+), 29 deletions(-)

diff --git a/monoruby/src/builtins/numeric/integer.rs b/monoruby/src/builtins/numeric/integer.rs
index e5cb076..817879f 100644
--- a/monoruby/src/builtins/numeric/integer.rs
+++ b/monoruby/src/builtins/numeric/integer.rs
@@ -1542,41 +1542,23 @@ fn pow(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Re
                 "Integer#pow() 2nd argument not allowed unless all arguments are integers",
             ));
         }
-        let exp_i = exp.coerce_to_int_i64(vm, globals)?;
-        if exp_i < 0 {
-            return Err(MonorubyErr::rangeerr(
-                "Integer#pow() 1st argument cannot be negative when 2nd argument specified",
-            ));
-        }
-        let mod_i = mod_val.coerce_to_int_i64(vm, globals)?;
-        if mod_i == 0 {
-            return Err(MonorubyErr::divide_by_zero());
-        }
-        // Modular exponentiation: self**exp % mod
-        let base_big = match lfp.self_val().unpack() {
+        let to_bigint = |v: Value| match v.unpack() {
             RV::Fixnum(i) => BigInt::from(i),
             RV::BigInt(b) => b.clone(),
             _ => unreachable!(),
         };
-        let mod_big = BigInt::from(mod_i.abs());
-        let mut base = base_big % &mod_big;
-        let mut result = BigInt::from(1);
-        let mut e = exp_i as u64;
-        while e > 0 {
-            if e & 1 == 1 {
-                result = result * &base % &mod_big;
-            }
-            base = &base * &base % &mod_big;
-            e >>= 1;
-        }
-        // Normalize result to match Ruby semantics:
-        // the result has the same sign as mod.
-        if result < BigInt::ZERO {
-            result += &mod_big;
+        let exp = to_bigint(exp);
+        if exp < BigInt::ZERO {
+            return Err(MonorubyErr::rangeerr(
+                "Integer#pow() 1st argument cannot be negative when 2nd argument specified",
+            ));
         }
-        if mod_i < 0 && result > BigInt::ZERO {
-            result -= &mod_big;
+        let modulus = to_bigint(mod_val);
+        if modulus.is_zero() {
+            return Err(MonorubyErr::divide_by_zero());
         }
+        // Modular exponentiation: the result has the same sign as mod.
+        let result = to_bigint(lfp.self_val()).modpow(&exp, &modulus);
         Ok(Value::bigint(result))
     } else {
         // 2-argument form: pow(exp) — delegate to ** operator
-- 
2.43.0


From c4584fcc2b520563aabc3ab1774c53e5cad3c4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:36:35 +0000
Subject: [PATCH 08/67] fix: JIT-compiled right shift by a negative distance no
 longer overflows silently

---
 monoruby/src/codegen/arch/x86_64/compile/binary_op.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monoruby/src/codegen/arch/x86_64/compile/binary_op.rs b/monoruby/src/codegen/arch/x86_64/compile/binary_op.rs
index ae37efc..e02d39e 100644
--- a/monoruby/src/codegen/arch/x86_64/compile/binary_op.rs
+++ b/monoruby/src/codegen/arch/x86_64/compile/binary_op.rs
@@ -739,7 +739,7 @@ impl Codegen {
             negq rcx;
             lzcntq rax, rdi;
             cmpq rcx, rax;
-            jgt deopt;
+            jge deopt;
             subq rdi, 1;
             salq rdi, rcx;
             jmp after;
-- 
2.43.0


From c14b30f7a8e790bf9bede7e82a831f50ada462b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:03:57 +0000
Subject: [PATCH 09/67] fix: JIT-compiled code no longer drops the sign of
 negative zero

---
 monoruby/src/codegen/arch/aarch64/codegen.rs   | 7 ++++---
 monoruby/src/codegen/arch/x86_64/jit_module.rs | 7 +++----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/monoruby/src/codegen/arch/aarch64/codegen.rs b/monoruby/src/codegen/arch/aarch64/codegen.rs
index 7f76469..1fc0fc7 100644
--- a/monoruby/src/codegen/arch/aarch64/codegen.rs
+++ b/monoruby/src/codegen/arch/aarch64/codegen.rs
@@ -164,14 +164,15 @@ impl Codegen {
         let heap = self.jit.label();
         self.jit.bind_label(label.clone());
         monoasm_arm64!(&mut self.jit,
-            fcmp d0, #0.0;           // compare D0 with zero
+            // only +0.0 is encoded as FLOAT_ZERO; -0.0 keeps its sign on the heap.
+            fmov x0, d0;             // x0 = bits(d0)
+            cmp x0, #(0);
         );
-        self.jit.bcond_label(Cond::Ne, &normal); // != 0.0 (or NaN) -> normal
+        self.jit.bcond_label(Cond::Ne, &normal);
         monoasm_arm64!(&mut self.jit,
             mov x0, (FLOAT_ZERO);
             ret;
             normal:
-            fmov x0, d0;             // x0 = bits(d0)
             lsr x1, x0, #(60);
             add x1, x1, #(1);
             mov x9, (6);
diff --git a/monoruby/src/codegen/arch/x86_64/jit_module.rs b/monoruby/src/codegen/arch/x86_64/jit_module.rs
index 9aaba05..8e144c9 100644
--- a/monoruby/src/codegen/arch/x86_64/jit_module.rs
+++ b/monoruby/src/codegen/arch/x86_64/jit_module.rs
@@ -202,14 +202,13 @@ impl JitModule {
         let heap_alloc = self.label();
         monoasm! {&mut self.jit,
         label:
-            xorps xmm1, xmm1;
-            ucomisd xmm0, xmm1;
+            // only +0.0 is encoded as FLOAT_ZERO; -0.0 keeps its sign on the heap.
+            movq rax, xmm0;
+            testq rax, rax;
             jne normal;
-            jp normal;
             movq rax, (FLOAT_ZERO);
             ret;
         normal:
-            movq rax, xmm0;
             movq rcx, rax;
             shrq rcx, 60;
             addl rcx, 1;
-- 
2.43.0


From 3b875796eff2c01d1feda5ee68259ee420fbbcb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:04:15 +0000
Subject: [PATCH 10/67] fix: the float 2**-255 is no longer read back as zero

---
 monoruby/src/codegen/arch/aarch64/codegen.rs   | 5 +++++
 monoruby/src/codegen/arch/x86_64/jit_module.rs | 3 +++
 monoruby/src/value.rs                          | 5 ++++-
 3 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/monoruby/src/codegen/arch/aarch64/codegen.rs b/monoruby/src/codegen/arch/aarch64/codegen.rs
index 1fc0fc7..b869481 100644
--- a/monoruby/src/codegen/arch/aarch64/codegen.rs
+++ b/monoruby/src/codegen/arch/aarch64/codegen.rs
@@ -180,6 +180,11 @@ impl Codegen {
             cmp x1, #(4);
         );
         self.jit.bcond_label(Cond::Ne, &heap); // exponent out of flonum range -> heap
+        monoasm_arm64!(&mut self.jit,
+            mov x9, (FLONUM_COLLISION);
+            cmp x0, x9;
+        );
+        self.jit.bcond_label(Cond::Eq, &heap); // encoded as FLOAT_ZERO -> heap
         monoasm_arm64!(&mut self.jit,
             // flonum-encode: rol 3, clear low 2 bits, set bit1 (0b10).
             rol x0, x0, #(3);
diff --git a/monoruby/src/codegen/arch/x86_64/jit_module.rs b/monoruby/src/codegen/arch/x86_64/jit_module.rs
index 8e144c9..307ceb5 100644
--- a/monoruby/src/codegen/arch/x86_64/jit_module.rs
+++ b/monoruby/src/codegen/arch/x86_64/jit_module.rs
@@ -215,6 +215,9 @@ impl JitModule {
             andl rcx, 6;
             cmpl rcx, 4;
             jne heap_alloc;
+            movq rcx, (FLONUM_COLLISION);
+            cmpq rax, rcx;
+            jeq heap_alloc;
             rolq rax, 3;
             andq rax, (-4);
             orq rax, 2;
diff --git a/monoruby/src/value.rs b/monoruby/src/value.rs
index 6b38de0..34f1ec6 100644
--- a/monoruby/src/value.rs
+++ b/monoruby/src/value.rs
@@ -31,6 +31,8 @@ pub const TRUE_VALUE: u64 = 0x1c; // 0001_1100
 pub const TAG_SYMBOL: u64 = 0x0c; // 0000_1100
 
 pub const FLOAT_ZERO: u64 = (0b1000 << 60) | 0b10;
+/// Bits of the only f64 in the flonum range whose encoding is that of 0.0 (2^-255).
+pub(crate) const FLONUM_COLLISION: u64 = 0x3000_0000_0000_0000;
 
 /// Format an f64 value as a String matching CRuby's `Float#to_s` / `Float#inspect` output.
 ///
@@ -3420,7 +3422,8 @@ impl Immediate {
         }
         let unum = f64::to_bits(num);
         let exp = ((unum >> 60) & 0b111) + 1;
-        if (exp & 0b0110) == 0b0100 {
+        // 2^-255 would be encoded as FLOAT_ZERO.
+        if (exp & 0b0110) == 0b0100 && unum != FLONUM_COLLISION {
             Some(unsafe { Self::from_u64_unchecked(((unum.rotate_left(3)) & !1) | 2) })
         } else {
             None
-- 
2.43.0


From 5765568f15c0549fcaae27ccfb68b496d1595a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:04:40 +0000
Subject: [PATCH 11/67] fix: Float#divmod pairs the quotient with the remainder
 and keeps large quotients

---
 monoruby/src/value/numeric.rs | 35 +++++++++++++++--------------------
 1 file changed, 15 insertions(+), 20 deletions(-)

diff --git a/monoruby/src/value/numeric.rs b/monoruby/src/value/numeric.rs
index 67d9af4..575145f 100644
--- a/monoruby/src/value/numeric.rs
+++ b/monoruby/src/value/numeric.rs
@@ -312,8 +312,8 @@ impl RubyDivMod for RealKind {
                 (RealKind::BigInt(d), RealKind::BigInt(m))
             }
             (RealKind::Integer(a), RealKind::Float(b)) => {
-                let (d, m) = (((*a as f64) / b).floor() as i64, (*a as f64).ruby_mod(b));
-                (RealKind::Integer(d), RealKind::Float(m))
+                let (d, m) = (*a as f64).ruby_div_mod(b);
+                (RealKind::Float(d), RealKind::Float(m))
             }
             (RealKind::BigInt(a), RealKind::Integer(b)) => {
                 let (d, m) = a.ruby_div_mod(&BigInt::from(*b));
@@ -324,26 +324,20 @@ impl RubyDivMod for RealKind {
                 (RealKind::BigInt(d), RealKind::BigInt(m))
             }
             (RealKind::BigInt(a), RealKind::Float(b)) => {
-                let (d, m) = (
-                    (a.to_f64().unwrap() / b).floor(),
-                    a.to_f64().unwrap().ruby_mod(b),
-                );
+                let (d, m) = a.to_f64().unwrap().ruby_div_mod(b);
                 (RealKind::Float(d), RealKind::Float(m))
             }
             (RealKind::Float(a), RealKind::Integer(b)) => {
-                let (d, m) = ((a / (*b as f64)).floor() as i64, a.ruby_mod(&(*b as f64)));
-                (RealKind::Integer(d), RealKind::Float(m))
+                let (d, m) = a.ruby_div_mod(&(*b as f64));
+                (RealKind::Float(d), RealKind::Float(m))
             }
             (RealKind::Float(a), RealKind::BigInt(b)) => {
-                let (d, m) = (
-                    (a / b.to_f64().unwrap()).floor(),
-                    a.ruby_mod(&b.to_f64().unwrap()),
-                );
+                let (d, m) = a.ruby_div_mod(&b.to_f64().unwrap());
                 (RealKind::Float(d), RealKind::Float(m))
             }
             (RealKind::Float(a), RealKind::Float(b)) => {
-                let (d, m) = ((a / b).floor() as i64, a.ruby_mod(b));
-                (RealKind::Integer(d), RealKind::Float(m))
+                let (d, m) = a.ruby_div_mod(b);
+                (RealKind::Float(d), RealKind::Float(m))
             }
         }
     }
@@ -575,12 +569,13 @@ impl RubyDivMod for f64 {
     type Output = (f64, f64);
     #[inline]
     fn ruby_div_mod(&self, rhs: &f64) -> Self::Output {
-        let div = (self / rhs).floor();
-        let modulo = if *self > 0.0 && *rhs < 0.0 || *self < 0.0 && *rhs > 0.0 {
-            *self % *rhs + *rhs
-        } else {
-            *self % *rhs
-        };
+        let (x, y) = (*self, *rhs);
+        let mut modulo = x % y;
+        let mut div = ((x - modulo) / y).round();
+        if modulo != 0.0 && (modulo < 0.0) != (y < 0.0) {
+            modulo += y;
+            div -= 1.0;
+        }
         (div, modulo)
     }
 }
-- 
2.43.0


From b722a45bca8c859b28deeef7a15ee2c79b1e9643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:19:14 +0000
Subject: [PATCH 12/67] fix: a Float modulo zero is NaN whether interpreted or
 compiled

---
 monoruby/src/executor/op/binary_ops.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/monoruby/src/executor/op/binary_ops.rs b/monoruby/src/executor/op/binary_ops.rs
index fbfed47..c971c02 100644
--- a/monoruby/src/executor/op/binary_ops.rs
+++ b/monoruby/src/executor/op/binary_ops.rs
@@ -360,8 +360,8 @@ pub(crate) extern "C" fn rem_values_raw(
 ) -> Option<Value> {
     match (RealKind::try_from(lhs), RealKind::try_from(rhs)) {
         (Some(lhs), Some(rhs)) => {
-            // For modulo, both integer zero and float zero raise ZeroDivisionError
-            if rhs.check_zero_div() || rhs.is_float_zero() {
+            // An Integer modulo zero raises ZeroDivisionError, a Float modulo zero is NaN
+            if !lhs.is_float() && (rhs.check_zero_div() || rhs.is_float_zero()) {
                 vm.err_divide_by_zero();
                 return None;
             } else {
-- 
2.43.0


From 28fd3e06511f8095ca1b719254dbcbeb2e05535a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:41:03 +0000
Subject: [PATCH 13/67] fix: entering a compiled loop sets the stack pointer
 absolutely

A frame that a side exit or a chain deopt gave back to the interpreter can
still have its stack pointer lowered by a spill or save area. When a compiled
loop was entered again in such a frame, inlined blocks read the variables of
the method from the wrong place.
---
 .../src/codegen/arch/aarch64/compile/mod.rs   |  6 ++++-
 .../src/codegen/arch/x86_64/compile/mod.rs    |  4 +--
 monoruby/src/codegen/jitgen/asmir.rs          | 26 +++++++++----------
 monoruby/src/codegen/jitgen/context.rs        |  8 +++---
 4 files changed, 23 insertions(+), 21 deletions(-)

diff --git a/monoruby/src/codegen/arch/aarch64/compile/mod.rs b/monoruby/src/codegen/arch/aarch64/compile/mod.rs
index 161f224..fbad626 100644
--- a/monoruby/src/codegen/arch/aarch64/compile/mod.rs
+++ b/monoruby/src/codegen/arch/aarch64/compile/mod.rs
@@ -2483,7 +2483,11 @@ impl Codegen {
     /// Loop-JIT entry stack bump (large bumps go through `a64_sp_sub`).
     pub(in crate::codegen::jitgen) fn emit_loop_jit_rsp_bump(&mut self, offset: LoopRspOffset) -> bool {
         let bytes = offset.unwrap_concrete();
-        self.a64_sp_sub(bytes as u32);
+        monoasm_arm64!(&mut self.jit,
+            mov x9, (bytes as u64);
+            sub x10, x29, x9;
+            mov sp, x10;
+        );
         true
     }
 
diff --git a/monoruby/src/codegen/arch/x86_64/compile/mod.rs b/monoruby/src/codegen/arch/x86_64/compile/mod.rs
index 1083500..70b22ec 100644
--- a/monoruby/src/codegen/arch/x86_64/compile/mod.rs
+++ b/monoruby/src/codegen/arch/x86_64/compile/mod.rs
@@ -2189,9 +2189,7 @@ impl Codegen {
         offset: LoopRspOffset,
     ) -> bool {
         let bytes = offset.unwrap_concrete();
-        if bytes > 0 {
-            monoasm! { &mut self.jit, subq rsp, (bytes as i32); }
-        }
+        monoasm! { &mut self.jit, lea rsp, [rbp - (bytes as i32)]; }
         true
     }
 
diff --git a/monoruby/src/codegen/jitgen/asmir.rs b/monoruby/src/codegen/jitgen/asmir.rs
index b83e2d3..5d2fa82 100644
--- a/monoruby/src/codegen/jitgen/asmir.rs
+++ b/monoruby/src/codegen/jitgen/asmir.rs
@@ -1261,17 +1261,17 @@ impl PrologueOffset {
 }
 
 ///
-/// Bytes the Loop JIT entry should subtract from `rsp` (and the
-/// matching side-exit handler should add back). Only the bytes that
-/// the JIT itself owns — the invoker / interpreter prologue is left
-/// untouched, so this captures the JIT-managed spill slots that sit
-/// on top of the surrounding interpreter frame.
+/// Distance from the frame pointer at which the Loop JIT entry places
+/// `rsp`: the surrounding interpreter frame plus the JIT-managed spill
+/// slots on top of it. It is absolute rather than relative to the current
+/// `rsp`, because a frame that a side exit or a chain deopt handed back to
+/// the interpreter may still have its `rsp` lowered by a spill or `FprSave`
+/// area, while compiled code addresses outer frames by static distances.
 ///
 /// Pass 1 emits `Hint(id)` — the current frame's [`SpecializedId`].
-/// The pre-codegen resolve pass derives the byte count as
-/// `stack_offset - base_stack_offset` of that frame, so any future
-/// VirtFPReg spill space added to the frame's recorded size flows
-/// through to the JIT-emitted bump automatically.
+/// The pre-codegen resolve pass derives the byte count from the recorded
+/// size of that frame, so any future VirtFPReg spill space added to it
+/// flows through automatically.
 ///
 #[derive(Debug, Clone)]
 pub(crate) enum LoopRspOffset {
@@ -1532,10 +1532,10 @@ pub(super) enum AsmInst {
 
     Preparation,
     ///
-    /// Loop JIT entry rsp bump. Emits `subq rsp, X` where `X` is the
-    /// JIT-managed spill region for this Loop frame (the existing
-    /// invoker / interpreter prologue is left untouched). The
-    /// matching `addq rsp, X` is emitted by `side_exit_with_label`
+    /// Loop JIT entry rsp bump. Emits `lea rsp, [rbp - X]` where `X`
+    /// covers the interpreter frame and the JIT-managed spill region for
+    /// this Loop frame. The `addq rsp, S` (`S` = size of the spill region)
+    /// that undoes the latter is emitted by `side_exit_with_label`
     /// at every deopt / loop-natural-exit handler, using the same
     /// resolved value (carried through `AsmInfo::loop_jit_spill_bytes`).
     ///
diff --git a/monoruby/src/codegen/jitgen/context.rs b/monoruby/src/codegen/jitgen/context.rs
index 4861ba2..69007d5 100644
--- a/monoruby/src/codegen/jitgen/context.rs
+++ b/monoruby/src/codegen/jitgen/context.rs
@@ -1562,10 +1562,10 @@ impl<'a> JitContext<'a> {
             AsmInst::LoopJitRspBump { offset } => {
                 if let LoopRspOffset::Hint(id) = offset {
                     let sizes = self.frame_sizes_or_panic(*id);
-                    // Loop JIT lives inside an invoker-owned
-                    // prologue, so the JIT-managed bump is exactly
-                    // the spill region grown on top of `base`.
-                    *offset = LoopRspOffset::Concrete(sizes.total - sizes.base);
+                    // Same distance from the frame pointer as the
+                    // prologue of a method with this frame size sets up.
+                    *offset =
+                        LoopRspOffset::Concrete(sizes.total - (CONTINUATION_FRAME_SIZE + 16));
                 }
             }
             _ => {}
-- 
2.43.0


From 427b7cec79b880efe1e359ad1531cb849b8ffff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:41:03 +0000
Subject: [PATCH 14/67] fix: Integer() of the float 2**63 is exact

---
 monoruby/src/builtins/kernel.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monoruby/src/builtins/kernel.rs b/monoruby/src/builtins/kernel.rs
index 6e7b091..6b3f349 100644
--- a/monoruby/src/builtins/kernel.rs
+++ b/monoruby/src/builtins/kernel.rs
@@ -2015,7 +2015,7 @@ fn kernel_integer_inner(vm: &mut Executor, globals: &mut Globals, lfp: Lfp) -> R
                 ));
             }
             let t = num.trunc();
-            if t >= i64::MIN as f64 && t <= i64::MAX as f64 {
+            if t >= i64::MIN as f64 && t < i64::MAX as f64 {
                 return Ok(Value::integer(t as i64));
             }
             // Out of Fixnum range: exact conversion through BigInt.
-- 
2.43.0


From b0670a361367974d13ed6bcc4c17a49ad943a63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:41:03 +0000
Subject: [PATCH 15/67] fix: JIT-compiled code keeps float variables that share
 a register apart

After b = a both variables live in one register. Computing a in place, a
block writing to a, or joining two paths of which only one made them share
changed b as well. Loading a constant at a join could also overwrite a value
that had not been moved yet.
---
 monoruby/src/codegen/jitgen/state.rs       | 11 ++++--
 monoruby/src/codegen/jitgen/state/binop.rs |  4 ++-
 monoruby/src/codegen/jitgen/state/join.rs  | 32 +++++++++++++++++
 monoruby/src/codegen/jitgen/state/slot.rs  | 40 ++++++++++++++++++++--
 4 files changed, 82 insertions(+), 5 deletions(-)

diff --git a/monoruby/src/codegen/jitgen/state.rs b/monoruby/src/codegen/jitgen/state.rs
index 18ded63..850d54c 100644
--- a/monoruby/src/codegen/jitgen/state.rs
+++ b/monoruby/src/codegen/jitgen/state.rs
@@ -96,7 +96,12 @@ impl AbstractState {
         // any LinkMode::F(VirtFPReg(N)) with N >= self.fpr.len() in
         // `target` can be looked up without panicking.
         self.grow_fpr_to(target.fpr_len());
-        for slot in self.all_regs() {
+        // Values that live in an fpr go first: a constant or a boxed value must
+        // not be loaded into an fpr before the value it held has moved on.
+        let (in_fpr, others): (Vec<_>, Vec<_>) = self
+            .all_regs()
+            .partition(|slot| matches!(self.mode(*slot), LinkMode::F(_) | LinkMode::Sf(_, _)));
+        for slot in in_fpr.into_iter().chain(others) {
             self.bridge(ir, target, slot, pc);
         }
     }
@@ -557,7 +562,9 @@ impl AbstractFrame {
         let mut kept = Vec::new();
         for i in self.locals() {
             match self.mode(i) {
-                LinkMode::F(x) => kept.push((i, x)),
+                // A slot that shares its fpr with another one demotes: the
+                // block must not write to both of them.
+                LinkMode::F(x) if self.fpr_is_held_only_by(x, i) => kept.push((i, x)),
                 // A Float literal (`occlusion = 0.0` right before the
                 // loop) is the common seed of the speculated shape:
                 // materialize it as `F` (no guard — `FprLoad::FromF64`)
diff --git a/monoruby/src/codegen/jitgen/state/binop.rs b/monoruby/src/codegen/jitgen/state/binop.rs
index ae259ec..9333cf0 100644
--- a/monoruby/src/codegen/jitgen/state/binop.rs
+++ b/monoruby/src/codegen/jitgen/state/binop.rs
@@ -680,7 +680,9 @@ impl AbstractFrame {
         self.pin_fpr(lhs);
         self.pin_fpr(rhs);
         let dst = dst.map(|dst| {
-            if dst == info.lhs {
+            // Compute in place only when no other slot shares the fpr: after
+            // `b = a`, `a += x` must leave the value of `b` alone.
+            if dst == info.lhs && self.fpr_is_held_only_by(lhs, dst) {
                 self.def_F_with_fpr(dst, lhs);
                 lhs
             } else {
diff --git a/monoruby/src/codegen/jitgen/state/join.rs b/monoruby/src/codegen/jitgen/state/join.rs
index e0aeda1..24ac7fd 100644
--- a/monoruby/src/codegen/jitgen/state/join.rs
+++ b/monoruby/src/codegen/jitgen/state/join.rs
@@ -71,10 +71,41 @@ impl AbstractFrame {
             actions.push((i, action));
             self.apply_join(i, action);
         }
+        self.separate_aliases(other);
         #[cfg(debug_assertions)]
         self.verify_join_replay(other, pre, &actions);
     }
 
+    ///
+    /// Slots may keep sharing an fpr only if they share one in *other*, too.
+    ///
+    fn separate_aliases(&mut self, other: &AbstractFrame) {
+        let fpr = |state: &AbstractFrame, i| match state.mode(i) {
+            LinkMode::F(x) | LinkMode::Sf(x, _) => Some(x),
+            _ => None,
+        };
+        for i in self.all_regs() {
+            let Some(x) = fpr(self, i) else { continue };
+            let shared = self
+                .all_regs()
+                .take_while(|j| *j != i)
+                .any(|j| {
+                    fpr(self, j) == Some(x)
+                        && (fpr(other, i).is_none() || fpr(other, j) != fpr(other, i))
+                });
+            if shared {
+                match self.mode(i) {
+                    LinkMode::Sf(_, guarded) => self.set_S_with_guard(i, guarded.into()),
+                    _ => {
+                        if self.try_set_new_F(i).is_none() {
+                            self.set_S_with_guard(i, Guarded::Float);
+                        }
+                    }
+                }
+            }
+        }
+    }
+
     ///
     /// Stage-1 + stage-2 shadow checks (debug-only), given the pre-merge frame
     /// `pre` (consumed as the replay target) and the recorded action stream:
@@ -125,6 +156,7 @@ impl AbstractFrame {
             pre.is_used_mut(i).join(other.is_used(i));
             pre.apply_join(i, action);
         }
+        pre.separate_aliases(other);
         for i in self.all_regs() {
             debug_assert_eq!(
                 pre.mode(i),
diff --git a/monoruby/src/codegen/jitgen/state/slot.rs b/monoruby/src/codegen/jitgen/state/slot.rs
index 99d5beb..9728161 100644
--- a/monoruby/src/codegen/jitgen/state/slot.rs
+++ b/monoruby/src/codegen/jitgen/state/slot.rs
@@ -1202,6 +1202,21 @@ impl SlotState {
     fn is_fpr_vacant(&self, fpr: FPReg) -> bool {
         self.fpr(fpr).is_empty()
     }
+
+    ///
+    /// A vacant fpr, or a new spill slot. Unlike [`Self::alloc_fpr`], this never
+    /// takes the fpr of an `Sf` slot.
+    ///
+    fn spare_fpr(&mut self) -> FPReg {
+        (0..self.fpr_alloc.len())
+            .map(FPReg)
+            .find(|fpr| self.fpr_alloc.is_vacant(*fpr) && !self.fpr_alloc.is_pinned(*fpr))
+            .unwrap_or_else(|| self.fpr_alloc.push_spill())
+    }
+
+    pub(super) fn fpr_is_held_only_by(&self, fpr: FPReg, slot: SlotId) -> bool {
+        self.fpr(fpr).iter().all(|s| *s == slot)
+    }
 }
 
 impl SlotState {
@@ -1921,7 +1936,7 @@ impl AbstractFrame {
             }
             (LinkMode::F(l), LinkMode::F(r)) => {
                 if l != r {
-                    if self.is_fpr_vacant(r) {
+                    if self.make_way(ir, slot, l, r) {
                         self.set_F(slot, r);
                         ir.fpr_move(l, r);
                     } else {
@@ -1991,7 +2006,7 @@ impl AbstractFrame {
                 // boxed cache and rebind as pure `F`. Mirrors the `F -> F` arm.
                 if l == r {
                     self.set_F(slot, l);
-                } else if self.is_fpr_vacant(r) {
+                } else if self.make_way(ir, slot, l, r) {
                     self.set_F(slot, r);
                     ir.fpr_move(l, r);
                 } else {
@@ -2063,10 +2078,31 @@ impl AbstractFrame {
     }
 
     fn to_sf(&mut self, ir: &mut AsmIr, slot: SlotId, l: FPReg, r: FPReg, guarded: SfGuarded) {
+        self.make_way(ir, slot, l, r);
         let f = self.to_sf_state(slot, l, r, guarded);
         ir.fp_xfer(f);
     }
 
+    ///
+    /// Prepare fpr *r* for the value of *slot*, which lives in fpr *l*.
+    ///
+    /// Returns whether *r* is vacant now; if not, *l* and *r* may be swapped.
+    /// A swap would also carry off the other slots bound to *l*, so the
+    /// occupants of *r* are moved to a spare fpr when there are any.
+    ///
+    fn make_way(&mut self, ir: &mut AsmIr, slot: SlotId, l: FPReg, r: FPReg) -> bool {
+        if self.is_fpr_vacant(r) {
+            return true;
+        }
+        if self.fpr_is_held_only_by(l, slot) {
+            return false;
+        }
+        let spare = self.spare_fpr();
+        self.fpr_swap(r, spare);
+        ir.fpr_move(r, spare);
+        true
+    }
+
     ///
     /// Swap fpr registers `l` and `r`.
     ///
-- 
2.43.0


From 625ac43f7fff0a7c76d6b510b550c6406cfdbba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:41:04 +0000
Subject: [PATCH 16/67] fix: JIT-compiled float arithmetic checks operands that
 may be integers

An operand known only as Integer or Float was taken for a Float, so that
arithmetic on two integers could answer a float.
---
 monoruby/src/codegen/jitgen/state/binop.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/monoruby/src/codegen/jitgen/state/binop.rs b/monoruby/src/codegen/jitgen/state/binop.rs
index 9333cf0..876a5aa 100644
--- a/monoruby/src/codegen/jitgen/state/binop.rs
+++ b/monoruby/src/codegen/jitgen/state/binop.rs
@@ -648,6 +648,14 @@ impl AbstractFrame {
             rhs_class,
             ..
         } = info;
+        // An operand that is an Integer or a Float sits in an fpr either way;
+        // unless the other one is a Float for certain, make sure it is what
+        // the operation was compiled for.
+        for (slot, class, other) in [(lhs, lhs_class, rhs), (rhs, rhs_class, lhs)] {
+            if matches!(class, FOpClass::Float) && (slot == other || !self.is_float(other)) {
+                self.guard_sf_float(ir, slot);
+            }
+        }
         if lhs != rhs {
             // Loading lhs may set an `Sf` mode on its fpr. Without pinning,
             // the next allocator call (when loading rhs) can demote that
@@ -766,6 +774,7 @@ impl AbstractFrame {
                 return;
             }
         }
+        self.guard_sf_float(ir, src);
         let fsrc = self.load_fpr(ir, src);
         if let Some(dst) = dst {
             self.pin_fpr(fsrc);
@@ -856,6 +865,18 @@ impl AbstractFrame {
         ir.float_cmp_br(mode, kind, brkind, branch_dest);
     }
 
+    ///
+    /// Guard that *slot*, if it is in an fpr as "Integer or Float", is a Float.
+    ///
+    fn guard_sf_float(&mut self, ir: &mut AsmIr, slot: SlotId) {
+        if let LinkMode::Sf(x, SfGuarded::FixnumOrFloat) = self.mode(slot) {
+            let deopt = ir.new_deopt(self);
+            ir.stack2reg(slot, GP::Rdi);
+            ir.push(AsmInst::GuardClass(GP::Rdi, FLOAT_CLASS, deopt));
+            self.set_Sf_float(slot, x);
+        }
+    }
+
     fn fetch_float_assume(&mut self, ir: &mut AsmIr, rhs: SlotId, class: FOpClass) -> FPReg {
         match class {
             FOpClass::Integer => self.load_fpr_fixnum(ir, rhs),
-- 
2.43.0


From 2c82b814beea99cae92334ab76831d357481564b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:56:29 +0000
Subject: [PATCH 17/67] fix: reserving room for more elements than usize can
 count is refused

---
 hashbrown/src/raw/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hashbrown/src/raw/mod.rs b/hashbrown/src/raw/mod.rs
index 96d4b10..732a873 100644
--- a/hashbrown/src/raw/mod.rs
+++ b/hashbrown/src/raw/mod.rs
@@ -2451,7 +2451,7 @@ impl RawTableInner {
         drop: Option<unsafe fn(*mut u8)>,
     ) {
         // Avoid `Option::ok_or_else` because it bloats LLVM IR.
-        let new_items = self.items + additional;
+        let new_items = self.items.checked_add(additional).unwrap();
         let full_capacity = bucket_mask_to_capacity(self.bucket_mask);
         if new_items <= full_capacity / 2 {
             // Rehash in-place without re-allocating if we have plenty of spare
-- 
2.43.0


From d065949f4a6789a2120e84e1b4e81a38135c7a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:24:03 +0000
Subject: [PATCH 18/67] fix: declare variables first assigned by rescue or ||=
 inside a for body

A local that first appears as the target of `rescue => e` or of an
operator assignment inside the body of `for x in list` was not declared
in the surrounding frame, so compiling the body aborted with
"dynamic var not found".
---
 monoruby/src/bytecodegen/method_call.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/monoruby/src/bytecodegen/method_call.rs b/monoruby/src/bytecodegen/method_call.rs
index a8eb66a..c3f1bdf 100644
--- a/monoruby/src/bytecodegen/method_call.rs
+++ b/monoruby/src/bytecodegen/method_call.rs
@@ -263,7 +263,12 @@ impl<'a> BytecodeGen<'a> {
 impl<'a> BytecodeGen<'a> {
     fn level_down(&mut self, node: &mut Node, level: usize) {
         match &mut node.kind {
-            NodeKind::LocalVar(l, _) => {
+            NodeKind::LocalVar(l, name) => {
+                // A variable first met here (`rescue => e`, `e ||= 1`) still
+                // belongs to the frame around the `for`.
+                if level == 0 && *l == 0 {
+                    self.assign_local(IdentId::get_id(name));
+                }
                 if *l >= level {
                     *l += 1;
                 }
-- 
2.43.0


From f1129b3eb840785237369d7e1b9406ad125ea562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:24:25 +0000
Subject: [PATCH 19/67] fix: reserve the value register of begin...end while
 loops

The register that takes the value of `break` was not reserved while the
body of a `begin ... end while` used as a value was generated.  The body's
temporaries overwrote it, and compiling such a loop could abort.
---
 monoruby/src/bytecodegen/statement.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/monoruby/src/bytecodegen/statement.rs b/monoruby/src/bytecodegen/statement.rs
index 798262c..cf15682 100644
--- a/monoruby/src/bytecodegen/statement.rs
+++ b/monoruby/src/bytecodegen/statement.rs
@@ -192,7 +192,7 @@ impl<'a> BytecodeGen<'a> {
         let break_dest = self.new_label();
         let next_dest = self.new_label();
         let ret = match use_value {
-            true => Some(self.sp().into()),
+            true => Some(self.push_nil()),
             false => None,
         };
         self.loop_push(break_dest, next_dest, loop_start, ret);
@@ -203,9 +203,6 @@ impl<'a> BytecodeGen<'a> {
         self.apply_label(next_dest);
         self.gen_opt_condbr(cond_op, cond, loop_start)?;
 
-        if use_value {
-            self.push_nil();
-        }
         self.loop_pop();
         self.apply_label(break_dest);
         self.emit(BytecodeInst::LoopEnd, loc);
-- 
2.43.0


From 997385d64c279e7eb122325c1618f8ea1e04e7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:24:25 +0000
Subject: [PATCH 20/67] fix: return the value a local had before ensure bodies
 ran

`x = 1; begin; return x; ensure; x = 2; end` answered 2, because the
local was read only after the ensure body had assigned it.
---
 monoruby/src/bytecodegen.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/monoruby/src/bytecodegen.rs b/monoruby/src/bytecodegen.rs
index 054c16a..cb2e379 100644
--- a/monoruby/src/bytecodegen.rs
+++ b/monoruby/src/bytecodegen.rs
@@ -1250,6 +1250,16 @@ impl<'a> BytecodeGen<'a> {
     }
 
     fn emit_ret(&mut self, src: Option<BcReg>) -> Result<()> {
+        // An `ensure` body may assign the local being returned: take its
+        // value before running them.
+        let src = match src {
+            Some(local) if self.ensure.iter().any(|(ensure, _)| ensure.is_some()) => {
+                let temp = self.push().into();
+                self.emit_mov(temp, local);
+                None
+            }
+            src => src,
+        };
         self.gen_all_pending_ensures()?;
 
         let ret = match src {
-- 
2.43.0


From 835c739e3c6ca86337b75338ec5ed8815a0ac518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:26:34 +0000
Subject: [PATCH 21/67] fix: run ensure when the else clause of begin/rescue
 raises

The exception table covered the body and the rescue clauses only, so an
exception raised in the `else` clause skipped the `ensure` clause of the
same begin block.
---
 monoruby/src/bytecodegen/statement.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/monoruby/src/bytecodegen/statement.rs b/monoruby/src/bytecodegen/statement.rs
index cf15682..8106d0f 100644
--- a/monoruby/src/bytecodegen/statement.rs
+++ b/monoruby/src/bytecodegen/statement.rs
@@ -457,6 +457,7 @@ impl<'a> BytecodeGen<'a> {
         let finish = self.temp;
         self.apply_label(body_end);
         let else_label = self.new_label();
+        let mut else_entry = None;
         if !rescue.is_empty() {
             if !body_use.is_ret() {
                 self.emit_br(else_label);
@@ -654,6 +655,16 @@ impl<'a> BytecodeGen<'a> {
                     rescue_range: None,
                     errinfo_save: None,
                 });
+                // The `else` clause is not covered by the rescue clauses, but
+                // leaving it must run the `ensure` all the same.
+                else_entry = Some(ExceptionEntry {
+                    range: else_label..ensure_label,
+                    rescue: Some(no_match_pos),
+                    ensure: Some(ensure_label),
+                    err_reg: Some(err_reg),
+                    rescue_range: None,
+                    errinfo_save: None,
+                });
             }
         } else {
             if let Some(else_) = else_ {
@@ -702,6 +713,8 @@ impl<'a> BytecodeGen<'a> {
         self.apply_label(else_label);
         if let Some(box else_) = else_ {
             self.gen_expr(else_, rescue_use)?;
+            // Regions inside the clause come first in the table.
+            self.exception_table.extend(else_entry);
         }
         self.apply_label(ensure_label);
         self.ensure.pop().unwrap();
-- 
2.43.0


From 3b02358e3c4364e0c549353b6916924f3512dc48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:28:48 +0000
Subject: [PATCH 22/67] fix: do not protect an ensure body with the region it
 belongs to

The copies of ensure bodies emitted for return, break, next and redo lie
inside the code of the begin block being left.  An exception raised by such
a copy was handled by the block itself: the ensure body ran a second time,
or a rescue clause of the block caught it.
---
 monoruby/src/bytecodegen.rs           |  77 +++++++++++--------
 monoruby/src/bytecodegen/statement.rs | 102 +++++++++++++++-----------
 2 files changed, 105 insertions(+), 74 deletions(-)

diff --git a/monoruby/src/bytecodegen.rs b/monoruby/src/bytecodegen.rs
index cb2e379..6a9aa9a 100644
--- a/monoruby/src/bytecodegen.rs
+++ b/monoruby/src/bytecodegen.rs
@@ -359,6 +359,10 @@ struct LoopInfo {
     ensure_depth: usize,
 }
 
+/// Identifies one begin region while its frame is being generated.
+#[derive(Debug, Clone, Copy, PartialEq, Eq)]
+struct RegionId(usize);
+
 #[derive(Debug)]
 struct ExceptionEntry {
     range: std::ops::Range<Label>,
@@ -581,7 +585,13 @@ struct BytecodeGen<'a> {
     /// (`return`, `break`, `next`) crossing a region restore `$!` from
     /// the slot and run the ensure body, innermost first — mirroring
     /// CRuby's per-frame errinfo restore during unwinding.
-    ensure: Vec<(Option<Node>, Option<BcReg>)>,
+    ensure: Vec<(Option<Node>, Option<BcReg>, RegionId)>,
+    /// The number of begin regions met so far.
+    region_num: usize,
+    /// Code emitted within a begin region that runs after control has left
+    /// it: the copies of `ensure` bodies emitted for `return`, `break`, `next`
+    /// and `redo`. The region's handlers do not cover it.
+    left_regions: Vec<(RegionId, std::ops::Range<Label>)>,
     /// The name of the block param.
     block_param: Option<IdentId>,
     /// The label for redo.
@@ -646,6 +656,8 @@ impl<'a> BytecodeGen<'a> {
             labels: BytecodeLabels::new(), // The first label is for redo.
             loops: vec![],
             ensure: vec![],
+            region_num: 0,
+            left_regions: vec![],
             rescue_depth: 0,
             block_param,
             redo_label: Label(0),
@@ -957,11 +969,15 @@ impl<'a> BytecodeGen<'a> {
     fn gen_loop_pending_ensures(&mut self, ensure_depth: usize) -> Result<()> {
         let in_rescue = self.rescue_depth > 0;
         let ensures: Vec<_> = std::mem::take(&mut self.ensure);
+        let mut left = vec![];
         for idx in (ensure_depth..ensures.len()).rev() {
-            let (ensure, errinfo_save) = ensures[idx].clone();
+            let (ensure, errinfo_save, region) = ensures[idx].clone();
             // Regions outside the body being generated stay active —
             // same truncation protocol as `gen_all_pending_ensures`.
             self.ensure = ensures[..idx].to_vec();
+            let left_from = self.new_label();
+            self.apply_label(left_from);
+            left.push((region, left_from));
             // Same unwinding protocol as `emit_ret`: restore the
             // region's `$!` before running its ensure body.
             if let Some(save) = errinfo_save
@@ -979,10 +995,36 @@ impl<'a> BytecodeGen<'a> {
                 self.gen_expr(ensure, UseMode2::NotUse)?;
             }
         }
+        let left_to = self.new_label();
+        self.apply_label(left_to);
+        for (region, left_from) in left {
+            self.left_regions.push((region, left_from..left_to));
+        }
         self.ensure = ensures;
         Ok(())
     }
 
+    /// The parts of *range* in which *region* is still active: all of it
+    /// but the code that runs after control has left the region.
+    fn active_ranges(
+        &self,
+        region: RegionId,
+        range: std::ops::Range<Label>,
+    ) -> Vec<std::ops::Range<Label>> {
+        let mut ranges = vec![];
+        let mut start = range.start;
+        for (_, left) in self.left_regions.iter().filter(|(id, left)| {
+            *id == region
+                && self[range.start] <= self[left.start]
+                && self[left.end] <= self[range.end]
+        }) {
+            ranges.push(start..left.start);
+            start = left.end;
+        }
+        ranges.push(start..range.end);
+        ranges
+    }
+
     fn loop_pop(&mut self) {
         self.loops.pop().unwrap();
     }
@@ -1219,41 +1261,14 @@ impl<'a> BytecodeGen<'a> {
     /// outer ensure bodies — and thereby supersedes this exit, so
     /// `begin return 1 ensure return 2 end` returns 2 (CRuby).
     fn gen_all_pending_ensures(&mut self) -> Result<()> {
-        let in_rescue = self.rescue_depth > 0;
-        let ensures: Vec<_> = std::mem::take(&mut self.ensure);
-        for idx in (0..ensures.len()).rev() {
-            let (ensure, errinfo_save) = ensures[idx].clone();
-            self.ensure = ensures[..idx].to_vec();
-            // When leaving a rescue clause, restore `$!` to the
-            // region's entry value *before* its ensure body runs (a
-            // nested region's ensure must see the outer exception, not
-            // the one just rescued), and emit it even without an
-            // ensure body so the value is right after this method
-            // returns. Exits from elsewhere can't have changed `$!`.
-            if let Some(save) = errinfo_save
-                && in_rescue
-            {
-                self.emit(
-                    BytecodeInst::StoreGvar {
-                        val: save,
-                        name: IdentId::get_id(crate::globals::ERRINFO_INTERNAL_GVAR),
-                    },
-                    Loc::default(),
-                );
-            }
-            if let Some(ensure) = ensure {
-                self.gen_expr(ensure, UseMode2::NotUse)?;
-            }
-        }
-        self.ensure = ensures;
-        Ok(())
+        self.gen_loop_pending_ensures(0)
     }
 
     fn emit_ret(&mut self, src: Option<BcReg>) -> Result<()> {
         // An `ensure` body may assign the local being returned: take its
         // value before running them.
         let src = match src {
-            Some(local) if self.ensure.iter().any(|(ensure, _)| ensure.is_some()) => {
+            Some(local) if self.ensure.iter().any(|(ensure, ..)| ensure.is_some()) => {
                 let temp = self.push().into();
                 self.emit_mov(temp, local);
                 None
diff --git a/monoruby/src/bytecodegen/statement.rs b/monoruby/src/bytecodegen/statement.rs
index 8106d0f..c086a87 100644
--- a/monoruby/src/bytecodegen/statement.rs
+++ b/monoruby/src/bytecodegen/statement.rs
@@ -434,7 +434,10 @@ impl<'a> BytecodeGen<'a> {
         } else {
             None
         };
-        self.ensure.push((ensure.as_deref().cloned(), errinfo_save));
+        let region = RegionId(self.region_num);
+        self.region_num += 1;
+        self.ensure
+            .push((ensure.as_deref().cloned(), errinfo_save, region));
         let ensure_label = self.new_label();
         let body_use = if else_.is_some() {
             // if else_ exists, rescue must also exists.
@@ -457,7 +460,7 @@ impl<'a> BytecodeGen<'a> {
         let finish = self.temp;
         self.apply_label(body_end);
         let else_label = self.new_label();
-        let mut else_entry = None;
+        let mut else_handler = None;
         if !rescue.is_empty() {
             if !body_use.is_ret() {
                 self.emit_br(else_label);
@@ -624,22 +627,25 @@ impl<'a> BytecodeGen<'a> {
             }
             self.emit(BytecodeInst::Raise(err_reg), Loc::default());
 
-            self.exception_table.push(ExceptionEntry {
-                range,
-                rescue: Some(rescue_pos),
-                ensure: if ensure.is_some() {
-                    Some(ensure_label)
-                } else {
-                    None
-                },
-                err_reg: Some(err_reg),
-                // A frame suspended anywhere in the rescue-clause span
-                // (matching code + clause bodies) has `$!` set to the
-                // caught exception; a non-local exit passing through
-                // must restore it from the region-entry save.
-                rescue_range: Some(rescue_pos..no_match_pos),
-                errinfo_save,
-            });
+            // A frame suspended anywhere in the rescue-clause span
+            // (matching code + clause bodies) has `$!` set to the
+            // caught exception; a non-local exit passing through
+            // must restore it from the region-entry save.
+            let mut rescue_range = Some(rescue_pos..no_match_pos);
+            for range in self.active_ranges(region, range) {
+                self.exception_table.push(ExceptionEntry {
+                    range,
+                    rescue: Some(rescue_pos),
+                    ensure: if ensure.is_some() {
+                        Some(ensure_label)
+                    } else {
+                        None
+                    },
+                    err_reg: Some(err_reg),
+                    rescue_range: rescue_range.take(),
+                    errinfo_save,
+                });
+            }
             // An exception (or `return` / `throw`) raised while matching a
             // rescue clause or running a matched clause's body must still run
             // this frame's `ensure`. The begin-body exception entry above only
@@ -647,24 +653,19 @@ impl<'a> BytecodeGen<'a> {
             // only when there is an `ensure` to run (otherwise such an
             // exception simply propagates, which is already correct).
             if ensure.is_some() {
-                self.exception_table.push(ExceptionEntry {
-                    range: rescue_pos..no_match_pos,
-                    rescue: Some(no_match_pos),
-                    ensure: Some(ensure_label),
-                    err_reg: Some(err_reg),
-                    rescue_range: None,
-                    errinfo_save: None,
-                });
+                for range in self.active_ranges(region, rescue_pos..no_match_pos) {
+                    self.exception_table.push(ExceptionEntry {
+                        range,
+                        rescue: Some(no_match_pos),
+                        ensure: Some(ensure_label),
+                        err_reg: Some(err_reg),
+                        rescue_range: None,
+                        errinfo_save: None,
+                    });
+                }
                 // The `else` clause is not covered by the rescue clauses, but
                 // leaving it must run the `ensure` all the same.
-                else_entry = Some(ExceptionEntry {
-                    range: else_label..ensure_label,
-                    rescue: Some(no_match_pos),
-                    ensure: Some(ensure_label),
-                    err_reg: Some(err_reg),
-                    rescue_range: None,
-                    errinfo_save: None,
-                });
+                else_handler = Some((no_match_pos, err_reg));
             }
         } else {
             if let Some(else_) = else_ {
@@ -691,14 +692,16 @@ impl<'a> BytecodeGen<'a> {
                 self.emit(BytecodeInst::Raise(err_reg), Loc::default());
                 self.pop();
 
-                self.exception_table.push(ExceptionEntry {
-                    range,
-                    rescue: Some(rescue_pos),
-                    ensure: Some(ensure_label),
-                    err_reg: Some(err_reg),
-                    rescue_range: None,
-                    errinfo_save: None,
-                });
+                for range in self.active_ranges(region, range) {
+                    self.exception_table.push(ExceptionEntry {
+                        range,
+                        rescue: Some(rescue_pos),
+                        ensure: Some(ensure_label),
+                        err_reg: Some(err_reg),
+                        rescue_range: None,
+                        errinfo_save: None,
+                    });
+                }
             } else {
                 self.exception_table.push(ExceptionEntry {
                     range,
@@ -713,8 +716,21 @@ impl<'a> BytecodeGen<'a> {
         self.apply_label(else_label);
         if let Some(box else_) = else_ {
             self.gen_expr(else_, rescue_use)?;
+            let else_end = self.new_label();
+            self.apply_label(else_end);
             // Regions inside the clause come first in the table.
-            self.exception_table.extend(else_entry);
+            if let Some((no_match_pos, err_reg)) = else_handler {
+                for range in self.active_ranges(region, else_label..else_end) {
+                    self.exception_table.push(ExceptionEntry {
+                        range,
+                        rescue: Some(no_match_pos),
+                        ensure: Some(ensure_label),
+                        err_reg: Some(err_reg),
+                        rescue_range: None,
+                        errinfo_save: None,
+                    });
+                }
+            }
         }
         self.apply_label(ensure_label);
         self.ensure.pop().unwrap();
-- 
2.43.0


From eba643a271017f84df5bffd4bb5015dd80530c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:28:48 +0000
Subject: [PATCH 23/67] fix: run every enclosing ensure when a frame is left
 non-locally

A return or break out of a block, or a throw, looked only at the innermost
begin block around the call.  If that one had rescue clauses but no ensure,
the ensure clauses of the blocks around it were skipped.
---
 monoruby/src/codegen/jit_module.rs |  6 +++---
 monoruby/src/globals/store/iseq.rs | 11 +++++++++++
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/monoruby/src/codegen/jit_module.rs b/monoruby/src/codegen/jit_module.rs
index 3a69bc5..d1756eb 100644
--- a/monoruby/src/codegen/jit_module.rs
+++ b/monoruby/src/codegen/jit_module.rs
@@ -142,7 +142,7 @@ pub(super) extern "C" fn handle_error(
                 // needed on the error path: a propagating exception
                 // overwrites `$!` wherever it is caught.
                 restore_errinfo_on_exit(vm, info, pc, lfp);
-                return if let Some((_, Some(ensure), _)) = info.get_exception_dest(pc) {
+                return if let Some(ensure) = info.get_ensure_dest(pc) {
                     // Suspend the non-local return across the ensure body so
                     // the body can `raise` (set_error) without tripping the
                     // empty-exception guard; `EnsureEnd` restores it.
@@ -172,7 +172,7 @@ pub(super) extern "C" fn handle_error(
             if let MonorubyErrKind::Throw(..) | MonorubyErrKind::FiberKill =
                 vm.exception().unwrap().kind()
             {
-                return if let Some((_, Some(ensure), _)) = info.get_exception_dest(pc) {
+                return if let Some(ensure) = info.get_ensure_dest(pc) {
                     vm.defer_unwind(lfp);
                     ErrorReturn::goto(bc_base + ensure)
                 } else {
@@ -202,7 +202,7 @@ pub(super) extern "C" fn handle_error(
                     // frame below resumes inside its rescue clause and
                     // must keep the caught exception in `$!`.
                     restore_errinfo_on_exit(vm, info, pc, lfp);
-                    if let Some((_, Some(ensure), _)) = info.get_exception_dest(pc) {
+                    if let Some(ensure) = info.get_ensure_dest(pc) {
                         vm.defer_unwind(lfp);
                         return ErrorReturn::goto(bc_base + ensure);
                     }
diff --git a/monoruby/src/globals/store/iseq.rs b/monoruby/src/globals/store/iseq.rs
index 7e0b22a..c4ad3d9 100644
--- a/monoruby/src/globals/store/iseq.rs
+++ b/monoruby/src/globals/store/iseq.rs
@@ -721,6 +721,17 @@ impl ISeqInfo {
             .nth(0)
     }
 
+    ///
+    /// Explore exception table for pc(*BcPc*) and return the pc of the innermost `ensure` clause
+    /// to run when control leaves the frame.
+    ///
+    pub(crate) fn get_ensure_dest(&self, pc: BcIndex) -> Option<BcIndex> {
+        self.exception_map
+            .iter()
+            .filter(|entry| entry.range.contains(&pc))
+            .find_map(|entry| entry.ensure_pc)
+    }
+
     pub(crate) fn exception_push(
         &mut self,
         range: std::ops::Range<BcIndex>,
-- 
2.43.0


From 9b09d4bcafa6df07e379a8807471e558bdfce3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:29:52 +0000
Subject: [PATCH 24/67] fix: leave nested ensure blocks and restore $! on retry

`retry` jumped straight to the start of the begin body: ensure clauses of
blocks nested in the rescue clause did not run and `$!` kept the exception
that had just been handled.
---
 monoruby/src/bytecodegen.rs            |  5 +++--
 monoruby/src/bytecodegen/expression.rs | 14 +++++++++++++-
 monoruby/src/bytecodegen/statement.rs  |  3 ++-
 3 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/monoruby/src/bytecodegen.rs b/monoruby/src/bytecodegen.rs
index 6a9aa9a..ec89f50 100644
--- a/monoruby/src/bytecodegen.rs
+++ b/monoruby/src/bytecodegen.rs
@@ -596,8 +596,9 @@ struct BytecodeGen<'a> {
     block_param: Option<IdentId>,
     /// The label for redo.
     redo_label: Label,
-    /// The labels for retry (stack of begin body_start labels).
-    retry_labels: Vec<Label>,
+    /// The destinations for retry: the start of the begin body, the depth of
+    /// the `ensure` stack in its rescue clauses, and its `$!` save slot.
+    retry_labels: Vec<(Label, usize, Option<BcReg>)>,
     /// The current register id.
     temp: u16,
     /// The number of temporary registers.
diff --git a/monoruby/src/bytecodegen/expression.rs b/monoruby/src/bytecodegen/expression.rs
index aeb6284..a78c5a3 100644
--- a/monoruby/src/bytecodegen/expression.rs
+++ b/monoruby/src/bytecodegen/expression.rs
@@ -936,7 +936,19 @@ impl<'a> BytecodeGen<'a> {
                     self.push();
                 }
                 match self.retry_labels.last() {
-                    Some(&label) => {
+                    Some(&(label, ensure_depth, errinfo_save)) => {
+                        // Leaving the rescue clause runs the `ensure` blocks
+                        // nested in it and puts `$!` back.
+                        self.gen_loop_pending_ensures(ensure_depth)?;
+                        if let Some(save) = errinfo_save {
+                            self.emit(
+                                BytecodeInst::StoreGvar {
+                                    val: save,
+                                    name: IdentId::get_id(crate::globals::ERRINFO_INTERNAL_GVAR),
+                                },
+                                Loc::default(),
+                            );
+                        }
                         self.emit(BytecodeInst::Retry(label), loc);
                     }
                     None => {
diff --git a/monoruby/src/bytecodegen/statement.rs b/monoruby/src/bytecodegen/statement.rs
index c086a87..e990ae3 100644
--- a/monoruby/src/bytecodegen/statement.rs
+++ b/monoruby/src/bytecodegen/statement.rs
@@ -474,7 +474,8 @@ impl<'a> BytecodeGen<'a> {
             let match_temp = self.temp;
             let rescue_pos = self.new_label();
             self.apply_label(rescue_pos);
-            self.retry_labels.push(body_start);
+            self.retry_labels
+                .push((body_start, self.ensure.len(), errinfo_save));
 
             for RescueEntry {
                 exception_list,
-- 
2.43.0


From da33d166eeaf9a7619a6f2f8e46c2b6ec9f04e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:31:33 +0000
Subject: [PATCH 25/67] fix: run a compiled block's own ensure on break and
 return

Compiled code that leaves an inlined block with break or return drops the
frames directly when none of the frames around the block has a handler.  It
did not look at the block itself, so an ensure clause around the break or
return was skipped once the code was hot.
---
 monoruby/src/codegen/jitgen/compile.rs |  4 ++--
 monoruby/src/codegen/jitgen/context.rs | 33 +++++++++++++++++---------
 monoruby/src/globals/store/iseq.rs     |  8 +++++++
 3 files changed, 32 insertions(+), 13 deletions(-)

diff --git a/monoruby/src/codegen/jitgen/compile.rs b/monoruby/src/codegen/jitgen/compile.rs
index ecea688..d7d5209 100644
--- a/monoruby/src/codegen/jitgen/compile.rs
+++ b/monoruby/src/codegen/jitgen/compile.rs
@@ -926,7 +926,7 @@ impl<'a> JitContext<'a> {
                 state.flush_gp(ir);
                 assert!(state.no_capture_guard());
                 state.load(ir, ret, GP::Rax);
-                if let Some((spec_ids, extra)) = self.method_caller_specialized_ids() {
+                if let Some((spec_ids, extra)) = self.method_caller_specialized_ids(bc_pos) {
                     ir.push(AsmInst::MethodRetSpecialized {
                         rbp_offset: DynVarOffset::Hint {
                             ids: spec_ids,
@@ -944,7 +944,7 @@ impl<'a> JitContext<'a> {
                 state.flush_gp(ir);
                 assert!(state.no_capture_guard());
                 state.load(ir, ret, GP::Rax);
-                if let Some((spec_ids, extra)) = self.iter_caller_specialized_ids() {
+                if let Some((spec_ids, extra)) = self.iter_caller_specialized_ids(bc_pos) {
                     ir.push(AsmInst::BlockBreakSpecialized {
                         rbp_offset: DynVarOffset::Hint {
                             ids: spec_ids,
diff --git a/monoruby/src/codegen/jitgen/context.rs b/monoruby/src/codegen/jitgen/context.rs
index 69007d5..c2cadf5 100644
--- a/monoruby/src/codegen/jitgen/context.rs
+++ b/monoruby/src/codegen/jitgen/context.rs
@@ -1442,13 +1442,18 @@ impl<'a> JitContext<'a> {
         Some((super::asmir::DynVarOffset::Hint { ids, extra }, disp))
     }
 
-    fn check_exception_handler(&self, begin: usize, end: usize) -> bool {
-        self.stack_frame[begin..end].iter().any(|f| {
-            let iseq_id = f.iseq_id();
-            let callsite = f.callid.unwrap();
-            let pc = self.store[callsite].bc_pos;
-            self.store[iseq_id].get_exception_dest(pc).is_some()
-        })
+    ///
+    /// Whether leaving the frames `[begin..end)` and, from *bc_pos*, the
+    /// current one has more to do than to drop them.
+    ///
+    fn check_exception_handler(&self, begin: usize, end: usize, bc_pos: BcIndex) -> bool {
+        self.iseq().needs_unwinding(bc_pos)
+            || self.stack_frame[begin..end].iter().any(|f| {
+                let iseq_id = f.iseq_id();
+                let callsite = f.callid.unwrap();
+                let pc = self.store[callsite].bc_pos;
+                self.store[iseq_id].needs_unwinding(pc)
+            })
     }
 
     ///
@@ -1579,7 +1584,10 @@ impl<'a> JitContext<'a> {
     /// captured at AsmIr emission time — see
     /// [`Self::outer_specialized_ids`] for the rationale.
     ///
-    pub(super) fn method_caller_specialized_ids(&self) -> Option<(Vec<SpecializedId>, usize)> {
+    pub(super) fn method_caller_specialized_ids(
+        &self,
+        bc_pos: BcIndex,
+    ) -> Option<(Vec<SpecializedId>, usize)> {
         // Method specialization is lowered on both arches now, so the caller
         // chain is encoded for `MethodRetSpecialized` on aarch64 too. (Block
         // inlining stays x86-only — see `iter_caller_specialized_ids`.)
@@ -1601,7 +1609,7 @@ impl<'a> JitContext<'a> {
         };
         let begin = home;
         let end = self.stack_frame.len() - 1;
-        if self.check_exception_handler(begin, end) {
+        if self.check_exception_handler(begin, end, bc_pos) {
             return None;
         }
         let chain = &self.stack_frame[begin..end];
@@ -1618,13 +1626,16 @@ impl<'a> JitContext<'a> {
     /// and the current frame. Returns `(ids, extra)` — see
     /// [`Self::method_caller_specialized_ids`].
     ///
-    pub(super) fn iter_caller_specialized_ids(&self) -> Option<(Vec<SpecializedId>, usize)> {
+    pub(super) fn iter_caller_specialized_ids(
+        &self,
+        bc_pos: BcIndex,
+    ) -> Option<(Vec<SpecializedId>, usize)> {
         // Block inlining is lowered on aarch64 now, so `break` out of an inlined
         // block can encode its caller chain for `BlockBreakSpecialized` too.
         let caller = self.iter_caller_pos()?;
         let begin = caller + 1;
         let end = self.stack_frame.len() - 1;
-        if self.check_exception_handler(begin, end) {
+        if self.check_exception_handler(begin, end, bc_pos) {
             return None;
         }
         let chain = &self.stack_frame[begin..end];
diff --git a/monoruby/src/globals/store/iseq.rs b/monoruby/src/globals/store/iseq.rs
index c4ad3d9..1d30150 100644
--- a/monoruby/src/globals/store/iseq.rs
+++ b/monoruby/src/globals/store/iseq.rs
@@ -768,6 +768,14 @@ impl ISeqInfo {
             .collect()
     }
 
+    /// Whether a non-local exit leaving a frame suspended at *pc* may have
+    /// an `ensure` to run or `$!` to restore.
+    pub(crate) fn needs_unwinding(&self, pc: BcIndex) -> bool {
+        self.exception_map.iter().any(|e| {
+            e.range.contains(&pc) || e.rescue_range.as_ref().is_some_and(|r| r.contains(&pc))
+        })
+    }
+
     pub(crate) fn has_exception_handler(&self) -> bool {
         !self.exception_map.is_empty()
     }
-- 
2.43.0


From bc7ba9232f4f47d9f335670193982cf8751981c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:35:26 +0000
Subject: [PATCH 26/67] fix: keep a suspended unwind with the ensure body it
 waits for

A return, break or throw that runs an ensure body on its way out is
suspended until the end of that body.  One record per frame was kept, and
it was dropped only when the frame was left by another unwind.  So

- leaving the body with next, break or return kept the record, and the
  suspended unwind came back at a later ensure, or crashed;
- an exception raised by the body and rescued in the same frame kept it
  as well;
- a begin/ensure nested in the body resumed the unwind too early;
- a break out of a block called by the body dropped the record.

Records now know how deep in ensure bodies they belong, and are dropped
whenever control goes to code that is not inside that body.
---
 monoruby/src/bytecodegen.rs            | 42 +++++++++++++--
 monoruby/src/bytecodegen/encode.rs     |  5 ++
 monoruby/src/bytecodegen/expression.rs | 13 +++--
 monoruby/src/bytecodegen/statement.rs  | 24 +++++++--
 monoruby/src/codegen/jit_module.rs     |  8 +--
 monoruby/src/executor.rs               | 71 ++++++++++++++++----------
 monoruby/src/globals.rs                |  9 ++++
 monoruby/src/globals/gvar.rs           | 32 ++++++++++++
 monoruby/src/globals/store/iseq.rs     | 21 +++++++-
 9 files changed, 180 insertions(+), 45 deletions(-)

diff --git a/monoruby/src/bytecodegen.rs b/monoruby/src/bytecodegen.rs
index ec89f50..31891d8 100644
--- a/monoruby/src/bytecodegen.rs
+++ b/monoruby/src/bytecodegen.rs
@@ -357,6 +357,8 @@ struct LoopInfo {
     /// loop body must run those `ensure` clauses (the ones at indices
     /// `>= ensure_depth`) before branching.
     ensure_depth: usize,
+    /// `ensure_level` when the loop was entered.
+    ensure_level: usize,
 }
 
 /// Identifies one begin region while its frame is being generated.
@@ -592,13 +594,19 @@ struct BytecodeGen<'a> {
     /// it: the copies of `ensure` bodies emitted for `return`, `break`, `next`
     /// and `redo`. The region's handlers do not cover it.
     left_regions: Vec<(RegionId, std::ops::Range<Label>)>,
+    /// Nesting depth of the `ensure` bodies being generated, not counting
+    /// the copies emitted for exits and exceptions.
+    ensure_level: usize,
+    /// The code of those bodies.
+    ensure_bodies: Vec<std::ops::Range<Label>>,
     /// The name of the block param.
     block_param: Option<IdentId>,
     /// The label for redo.
     redo_label: Label,
     /// The destinations for retry: the start of the begin body, the depth of
-    /// the `ensure` stack in its rescue clauses, and its `$!` save slot.
-    retry_labels: Vec<(Label, usize, Option<BcReg>)>,
+    /// the `ensure` stack in its rescue clauses, `ensure_level`, and its `$!`
+    /// save slot.
+    retry_labels: Vec<(Label, usize, usize, Option<BcReg>)>,
     /// The current register id.
     temp: u16,
     /// The number of temporary registers.
@@ -659,6 +667,8 @@ impl<'a> BytecodeGen<'a> {
             ensure: vec![],
             region_num: 0,
             left_regions: vec![],
+            ensure_level: 0,
+            ensure_bodies: vec![],
             rescue_depth: 0,
             block_param,
             redo_label: Label(0),
@@ -960,6 +970,7 @@ impl<'a> BytecodeGen<'a> {
             redo_dest,
             ret,
             ensure_depth: self.ensure.len(),
+            ensure_level: self.ensure_level,
         });
     }
 
@@ -967,7 +978,17 @@ impl<'a> BytecodeGen<'a> {
     /// loop (those pushed after the loop was entered), innermost first.
     /// Used by `break` / `next` so exiting the loop iteration still runs
     /// the `ensure` blocks it jumps out of.
-    fn gen_loop_pending_ensures(&mut self, ensure_depth: usize) -> Result<()> {
+    ///
+    /// *ensure_level* is that of the destination: an unwind suspended for an
+    /// `ensure` body this exit leaves is abandoned.
+    fn gen_loop_pending_ensures(
+        &mut self,
+        ensure_depth: usize,
+        ensure_level: usize,
+    ) -> Result<()> {
+        if self.ensure_level > ensure_level {
+            self.emit_ensure_level(crate::globals::ENSURE_LEVEL_INTERNAL_GVAR, ensure_level);
+        }
         let in_rescue = self.rescue_depth > 0;
         let ensures: Vec<_> = std::mem::take(&mut self.ensure);
         let mut left = vec![];
@@ -1005,6 +1026,19 @@ impl<'a> BytecodeGen<'a> {
         Ok(())
     }
 
+    fn emit_ensure_level(&mut self, name: &str, level: usize) {
+        let val = self.push().into();
+        self.emit_integer(val, level as i64);
+        self.pop();
+        self.emit(
+            BytecodeInst::StoreGvar {
+                val,
+                name: IdentId::get_id(name),
+            },
+            Loc::default(),
+        );
+    }
+
     /// The parts of *range* in which *region* is still active: all of it
     /// but the code that runs after control has left the region.
     fn active_ranges(
@@ -1262,7 +1296,7 @@ impl<'a> BytecodeGen<'a> {
     /// outer ensure bodies — and thereby supersedes this exit, so
     /// `begin return 1 ensure return 2 end` returns 2 (CRuby).
     fn gen_all_pending_ensures(&mut self) -> Result<()> {
-        self.gen_loop_pending_ensures(0)
+        self.gen_loop_pending_ensures(0, 0)
     }
 
     fn emit_ret(&mut self, src: Option<BcReg>) -> Result<()> {
diff --git a/monoruby/src/bytecodegen/encode.rs b/monoruby/src/bytecodegen/encode.rs
index 9d2eb15..c886b0f 100644
--- a/monoruby/src/bytecodegen/encode.rs
+++ b/monoruby/src/bytecodegen/encode.rs
@@ -85,6 +85,11 @@ impl<'a> BytecodeGen<'a> {
                 .exception_push(start..end, rescue, ensure, err_reg, rescue_range, errinfo_save);
         }
 
+        for body in std::mem::take(&mut self.ensure_bodies) {
+            let body = self[body.start]..self[body.end];
+            self.iseq_mut().ensure_body_push(body);
+        }
+
         let sp: Vec<_> = std::mem::take(&mut self.sp)
             .into_iter()
             .map(|r| self.slot_id(&BcReg::from(r)))
diff --git a/monoruby/src/bytecodegen/expression.rs b/monoruby/src/bytecodegen/expression.rs
index a78c5a3..497be3e 100644
--- a/monoruby/src/bytecodegen/expression.rs
+++ b/monoruby/src/bytecodegen/expression.rs
@@ -841,6 +841,7 @@ impl<'a> BytecodeGen<'a> {
                     break_dest,
                     ret,
                     ensure_depth,
+                    ensure_level,
                     ..
                 } = match self.loops.last() {
                     Some(data) => data.clone(),
@@ -864,7 +865,7 @@ impl<'a> BytecodeGen<'a> {
                     self.gen_expr(val, UseMode2::NotUse)?;
                 }
                 // Run `ensure` blocks nested inside the loop before exiting.
-                self.gen_loop_pending_ensures(ensure_depth)?;
+                self.gen_loop_pending_ensures(ensure_depth, ensure_level)?;
                 self.emit(BytecodeInst::Br(break_dest), loc);
                 if use_mode == UseMode2::Push {
                     self.push();
@@ -875,6 +876,7 @@ impl<'a> BytecodeGen<'a> {
                 let LoopInfo {
                     next_dest,
                     ensure_depth,
+                    ensure_level,
                     ..
                 } = match self.loops.last() {
                     Some(data) => data.clone(),
@@ -890,7 +892,7 @@ impl<'a> BytecodeGen<'a> {
                 self.gen_expr(val, UseMode2::NotUse)?;
                 // Run `ensure` blocks nested inside the loop before
                 // continuing to the next iteration.
-                self.gen_loop_pending_ensures(ensure_depth)?;
+                self.gen_loop_pending_ensures(ensure_depth, ensure_level)?;
                 self.emit(BytecodeInst::Br(next_dest), loc);
                 if use_mode == UseMode2::Push {
                     self.push();
@@ -904,6 +906,7 @@ impl<'a> BytecodeGen<'a> {
                 let LoopInfo {
                     redo_dest,
                     ensure_depth,
+                    ensure_level,
                     ..
                 } = match self.loops.last() {
                     Some(data) => data.clone(),
@@ -923,7 +926,7 @@ impl<'a> BytecodeGen<'a> {
                 };
                 // Run `ensure` blocks nested inside the loop before
                 // re-executing the body.
-                self.gen_loop_pending_ensures(ensure_depth)?;
+                self.gen_loop_pending_ensures(ensure_depth, ensure_level)?;
                 // Use the `Redo` op (a `goto` via the error path) rather than a
                 // plain `Br`: its target can sit in the middle of the loop body
                 // (skipping the condition) without the JIT seeing a second
@@ -936,10 +939,10 @@ impl<'a> BytecodeGen<'a> {
                     self.push();
                 }
                 match self.retry_labels.last() {
-                    Some(&(label, ensure_depth, errinfo_save)) => {
+                    Some(&(label, ensure_depth, ensure_level, errinfo_save)) => {
                         // Leaving the rescue clause runs the `ensure` blocks
                         // nested in it and puts `$!` back.
-                        self.gen_loop_pending_ensures(ensure_depth)?;
+                        self.gen_loop_pending_ensures(ensure_depth, ensure_level)?;
                         if let Some(save) = errinfo_save {
                             self.emit(
                                 BytecodeInst::StoreGvar {
diff --git a/monoruby/src/bytecodegen/statement.rs b/monoruby/src/bytecodegen/statement.rs
index e990ae3..141ee9e 100644
--- a/monoruby/src/bytecodegen/statement.rs
+++ b/monoruby/src/bytecodegen/statement.rs
@@ -439,6 +439,8 @@ impl<'a> BytecodeGen<'a> {
         self.ensure
             .push((ensure.as_deref().cloned(), errinfo_save, region));
         let ensure_label = self.new_label();
+        // Where the clauses go when they complete.
+        let finish_label = self.new_label();
         let body_use = if else_.is_some() {
             // if else_ exists, rescue must also exists.
             UseMode2::NotUse
@@ -474,8 +476,12 @@ impl<'a> BytecodeGen<'a> {
             let match_temp = self.temp;
             let rescue_pos = self.new_label();
             self.apply_label(rescue_pos);
-            self.retry_labels
-                .push((body_start, self.ensure.len(), errinfo_save));
+            self.retry_labels.push((
+                body_start,
+                self.ensure.len(),
+                self.ensure_level,
+                errinfo_save,
+            ));
 
             for RescueEntry {
                 exception_list,
@@ -584,7 +590,7 @@ impl<'a> BytecodeGen<'a> {
                         },
                         Loc::default(),
                     );
-                    self.emit_br(ensure_label);
+                    self.emit_br(finish_label);
                 }
                 self.temp = base + 1;
                 self.apply_label(next_pos);
@@ -733,11 +739,23 @@ impl<'a> BytecodeGen<'a> {
                 }
             }
         }
+        self.apply_label(finish_label);
+        if ensure.is_some() && self.ensure_level > 0 {
+            self.emit_ensure_level(
+                crate::globals::ENSURE_ENTER_INTERNAL_GVAR,
+                self.ensure_level + 1,
+            );
+        }
         self.apply_label(ensure_label);
         self.ensure.pop().unwrap();
         if let Some(box ensure) = ensure {
+            self.ensure_level += 1;
             self.gen_expr(ensure, UseMode2::NotUse)?;
             self.emit(BytecodeInst::EnsureEnd, Loc::default());
+            self.ensure_level -= 1;
+            let ensure_end = self.new_label();
+            self.apply_label(ensure_end);
+            self.ensure_bodies.push(ensure_label..ensure_end);
             if use_mode.is_ret() {
                 self.emit_ret(None)?;
             }
diff --git a/monoruby/src/codegen/jit_module.rs b/monoruby/src/codegen/jit_module.rs
index d1756eb..73b46dd 100644
--- a/monoruby/src/codegen/jit_module.rs
+++ b/monoruby/src/codegen/jit_module.rs
@@ -146,7 +146,7 @@ pub(super) extern "C" fn handle_error(
                     // Suspend the non-local return across the ensure body so
                     // the body can `raise` (set_error) without tripping the
                     // empty-exception guard; `EnsureEnd` restores it.
-                    vm.defer_unwind(lfp);
+                    vm.defer_unwind(lfp, info.ensure_level(ensure));
                     ErrorReturn::goto(bc_base + ensure)
                 } else if lfp == target_lfp {
                     // Stop unwinding at the matching target LFP. (A
@@ -173,7 +173,7 @@ pub(super) extern "C" fn handle_error(
                 vm.exception().unwrap().kind()
             {
                 return if let Some(ensure) = info.get_ensure_dest(pc) {
-                    vm.defer_unwind(lfp);
+                    vm.defer_unwind(lfp, info.ensure_level(ensure));
                     ErrorReturn::goto(bc_base + ensure)
                 } else {
                     vm.discard_deferred_unwind(lfp);
@@ -203,7 +203,7 @@ pub(super) extern "C" fn handle_error(
                     // must keep the caught exception in `$!`.
                     restore_errinfo_on_exit(vm, info, pc, lfp);
                     if let Some(ensure) = info.get_ensure_dest(pc) {
-                        vm.defer_unwind(lfp);
+                        vm.defer_unwind(lfp, info.ensure_level(ensure));
                         return ErrorReturn::goto(bc_base + ensure);
                     }
                     vm.discard_deferred_unwind(lfp);
@@ -231,7 +231,6 @@ pub(super) extern "C" fn handle_error(
                         globals.store[id].dst
                     };
                     vm.take_error();
-                    vm.discard_deferred_unwind(lfp);
                     if let Some(dst) = dst {
                         unsafe { lfp.set_register(dst, Some(val)) };
                     }
@@ -270,6 +269,7 @@ pub(super) extern "C" fn handle_error(
                 // backtrace matches CRuby's raise-time stack even when
                 // the exception is raised and rescued in the same
                 // method. Cheap tuple walk; formatting stays lazy.
+                vm.leave_ensure(lfp, info.ensure_level(rescue));
                 vm.complete_backtrace_for_rescue(&globals.store);
                 let err_val = vm.take_ex_obj(globals);
                 vm.set_errinfo(err_val);
diff --git a/monoruby/src/executor.rs b/monoruby/src/executor.rs
index d140328..4bf293d 100644
--- a/monoruby/src/executor.rs
+++ b/monoruby/src/executor.rs
@@ -363,7 +363,7 @@ pub struct Executor {
     /// moment the body raised anything. At most one entry exists per
     /// frame (a fresh deferral for a frame that already has one means the
     /// previous inner-ensure unwind was bypassed and is abandoned).
-    deferred_unwind: Vec<(Lfp, MonorubyErr)>,
+    deferred_unwind: Vec<(Lfp, usize, Option<MonorubyErr>)>,
     /// The `Fiber` object whose body is currently executing on this
     /// `Executor`, or `None` for a thread's root context (which falls back
     /// to the per-thread root Fiber object). Exposed as `Fiber.current` so
@@ -518,9 +518,11 @@ impl alloc::GC<RValue> for Executor {
         // Deferred `MethodReturn` / `Throw` carry packed Values (return
         // value, throw tag/value) and an `Lfp`; keep them alive across
         // the ensure body that suspended them.
-        for (lfp, err) in &self.deferred_unwind {
+        for (lfp, _, err) in &self.deferred_unwind {
             lfp.mark(alloc);
-            err.mark(alloc);
+            if let Some(err) = err {
+                err.mark(alloc);
+            }
         }
     }
 }
@@ -1573,20 +1575,24 @@ impl Executor {
     /// Move the current in-flight error out of `exception` and stash it as
     /// the deferred unwind for frame *lfp*, so the frame's `ensure` body
     /// can run with an empty error slot. Restored by [`Self::finish_ensure`]
-    /// at `EnsureEnd`.
+    /// at `EnsureEnd`. *level* is the number of `ensure` bodies around the
+    /// code of that body, itself included.
     ///
-    pub(crate) fn defer_unwind(&mut self, lfp: Lfp) {
+    pub(crate) fn defer_unwind(&mut self, lfp: Lfp, level: usize) {
         let err = self.take_error();
-        // At most one deferred unwind per frame: replacing an existing
-        // entry for the same frame means the previous (inner) `ensure`'s
-        // `EnsureEnd` was bypassed by this new unwind and is abandoned.
-        if let Some((top_lfp, slot)) = self.deferred_unwind.last_mut() {
-            if *top_lfp == lfp {
-                *slot = err;
-                return;
-            }
-        }
-        self.deferred_unwind.push((lfp, err));
+        // This unwind leaves the `ensure` bodies of *level* and deeper that
+        // may be running in the frame: what waits for their end is abandoned.
+        self.leave_ensure(lfp, level - 1);
+        self.deferred_unwind.push((lfp, level, Some(err)));
+    }
+
+    ///
+    /// Enter an `ensure` body of *level* in frame *lfp* with nothing to
+    /// resume at its end. Needed within another `ensure` body only, whose
+    /// deferred unwind must wait for its own `EnsureEnd`.
+    ///
+    pub(crate) fn enter_ensure(&mut self, lfp: Lfp, level: usize) {
+        self.deferred_unwind.push((lfp, level, None));
     }
 
     ///
@@ -1598,15 +1604,16 @@ impl Executor {
     /// caller must re-enter `entry_raise`).
     ///
     pub(crate) fn finish_ensure(&mut self, lfp: Lfp) -> bool {
-        let top_is_mine = matches!(self.deferred_unwind.last(), Some((l, _)) if *l == lfp);
+        let top_is_mine = matches!(self.deferred_unwind.last(), Some((l, ..)) if *l == lfp);
         if self.exception.is_some() {
             if top_is_mine {
                 self.deferred_unwind.pop();
             }
             return true;
         }
-        if top_is_mine {
-            let (_, err) = self.deferred_unwind.pop().unwrap();
+        if top_is_mine
+            && let (_, _, Some(err)) = self.deferred_unwind.pop().unwrap()
+        {
             // `exception` is `None` here, so the `set_error` guard holds.
             self.set_error(err);
             return true;
@@ -1615,19 +1622,29 @@ impl Executor {
     }
 
     ///
-    /// Drop a deferred unwind belonging to frame *lfp* when the frame is
-    /// being left by a different control-flow path (its `EnsureEnd` will
-    /// not run to consume it). No-op when the top entry is for another
-    /// frame, so unrelated callers' deferrals are preserved.
+    /// Drop the deferred unwinds belonging to frame *lfp* when control goes
+    /// to code of the frame with *level* `ensure` bodies around it: the
+    /// `EnsureEnd` of the deeper ones will not run to consume them. No-op
+    /// when the top entry is for another frame, so unrelated callers'
+    /// deferrals are preserved.
     ///
-    pub(crate) fn discard_deferred_unwind(&mut self, lfp: Lfp) {
-        if let Some((top_lfp, _)) = self.deferred_unwind.last() {
-            if *top_lfp == lfp {
-                self.deferred_unwind.pop();
-            }
+    pub(crate) fn leave_ensure(&mut self, lfp: Lfp, level: usize) {
+        while let Some((top_lfp, top_level, _)) = self.deferred_unwind.last()
+            && *top_lfp == lfp
+            && *top_level > level
+        {
+            self.deferred_unwind.pop();
         }
     }
 
+    ///
+    /// Drop the deferred unwinds belonging to frame *lfp* when the frame is
+    /// being left.
+    ///
+    pub(crate) fn discard_deferred_unwind(&mut self, lfp: Lfp) {
+        self.leave_ensure(lfp, 0);
+    }
+
     pub(crate) fn pop_error_trace(&mut self) {
         self.exception.as_mut().unwrap().trace.pop();
     }
diff --git a/monoruby/src/globals.rs b/monoruby/src/globals.rs
index f3baec0..ea23e2a 100644
--- a/monoruby/src/globals.rs
+++ b/monoruby/src/globals.rs
@@ -201,6 +201,15 @@ pub(crate) const GLOBALS_FUNCINFO: usize =
 /// the parentheses make the name unspellable in Ruby source.
 pub(crate) const ERRINFO_INTERNAL_GVAR: &str = "$(errinfo)";
 
+/// Internal gvar name written by bytecodegen when control leaves `ensure`
+/// bodies for code with that many of them around it
+/// (`Executor::leave_ensure`).
+pub(crate) const ENSURE_LEVEL_INTERNAL_GVAR: &str = "$(ensure_level)";
+
+/// Internal gvar name written by bytecodegen when an `ensure` body within
+/// another one is entered normally (`Executor::enter_ensure`).
+pub(crate) const ENSURE_ENTER_INTERNAL_GVAR: &str = "$(ensure_enter)";
+
 #[derive(Clone, Debug)]
 pub(crate) struct ExternalContext {
     scope: Vec<(
diff --git a/monoruby/src/globals/gvar.rs b/monoruby/src/globals/gvar.rs
index 54303ed..e999598 100644
--- a/monoruby/src/globals/gvar.rs
+++ b/monoruby/src/globals/gvar.rs
@@ -732,6 +732,28 @@ pub fn init_builtin_gvars(globals: &mut Globals) {
         Ok(())
     }
 
+    fn set_ensure_level_internal(
+        vm: &mut Executor,
+        _globals: &mut Globals,
+        _name: IdentId,
+        val: Value,
+    ) -> Result<()> {
+        let lfp = vm.cfp().lfp();
+        vm.leave_ensure(lfp, val.try_fixnum().unwrap() as usize);
+        Ok(())
+    }
+
+    fn set_ensure_enter_internal(
+        vm: &mut Executor,
+        _globals: &mut Globals,
+        _name: IdentId,
+        val: Value,
+    ) -> Result<()> {
+        let lfp = vm.cfp().lfp();
+        vm.enter_ensure(lfp, val.try_fixnum().unwrap() as usize);
+        Ok(())
+    }
+
     // `$$` — the current process id, read-only.
     fn get_pid(_vm: &mut Executor, _globals: &mut Globals, _name: IdentId) -> Option<Value> {
         Some(Value::integer(std::process::id() as i64))
@@ -780,6 +802,16 @@ pub fn init_builtin_gvars(globals: &mut Globals) {
         get_errinfo,
         Some(set_errinfo_internal),
     );
+    globals.define_hooked_variable(
+        IdentId::get_id(crate::globals::ENSURE_LEVEL_INTERNAL_GVAR),
+        |_, _, _| None,
+        Some(set_ensure_level_internal),
+    );
+    globals.define_hooked_variable(
+        IdentId::get_id(crate::globals::ENSURE_ENTER_INTERNAL_GVAR),
+        |_, _, _| None,
+        Some(set_ensure_enter_internal),
+    );
 
     // --- Regexp-related special variables -----------------------------------
 
diff --git a/monoruby/src/globals/store/iseq.rs b/monoruby/src/globals/store/iseq.rs
index 1d30150..0138d47 100644
--- a/monoruby/src/globals/store/iseq.rs
+++ b/monoruby/src/globals/store/iseq.rs
@@ -242,6 +242,10 @@ pub struct ISeqInfo {
     ///
     exception_map: Vec<ExceptionMapEntry>,
     ///
+    /// Code of the `ensure` bodies a suspended unwind may be waiting for.
+    ///
+    ensure_bodies: Vec<std::ops::Range<BcIndex>>,
+    ///
     /// Information of parameters.
     ///
     pub(crate) args: ParamsInfo,
@@ -480,6 +484,7 @@ impl ISeqInfo {
             sourcemap: vec![],
             sp: vec![],
             exception_map: vec![],
+            ensure_bodies: vec![],
             args,
             locals: Default::default(),
             literals: vec![],
@@ -751,6 +756,18 @@ impl ISeqInfo {
         ));
     }
 
+    pub(crate) fn ensure_body_push(&mut self, body: std::ops::Range<BcIndex>) {
+        self.ensure_bodies.push(body);
+    }
+
+    /// The number of `ensure` bodies around *pc*.
+    pub(crate) fn ensure_level(&self, pc: BcIndex) -> usize {
+        self.ensure_bodies
+            .iter()
+            .filter(|body| body.contains(&pc))
+            .count()
+    }
+
     /// `$!` save slots of every rescue-clause span covering *pc*,
     /// innermost first (entries are pushed inner regions first).
     /// A non-local exit unwinding a frame suspended at *pc* restores
@@ -769,9 +786,9 @@ impl ISeqInfo {
     }
 
     /// Whether a non-local exit leaving a frame suspended at *pc* may have
-    /// an `ensure` to run or `$!` to restore.
+    /// an `ensure` to run, `$!` to restore, or a suspended unwind to drop.
     pub(crate) fn needs_unwinding(&self, pc: BcIndex) -> bool {
-        self.exception_map.iter().any(|e| {
+        self.ensure_level(pc) > 0 || self.exception_map.iter().any(|e| {
             e.range.contains(&pc) || e.rescue_range.as_ref().is_some_and(|r| r.contains(&pc))
         })
     }
-- 
2.43.0


From 61edf8b05ec27fc864d431ed7f4a0ac08401a06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:35:26 +0000
Subject: [PATCH 27/67] fix: set a loop's value only when break leaves it

`break v` stored the value before the ensure clauses ran.  When one of
them continued with `next` instead, a loop that then ended normally
answered that value rather than nil.
---
 monoruby/src/bytecodegen/expression.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/monoruby/src/bytecodegen/expression.rs b/monoruby/src/bytecodegen/expression.rs
index 497be3e..a7fba9a 100644
--- a/monoruby/src/bytecodegen/expression.rs
+++ b/monoruby/src/bytecodegen/expression.rs
@@ -859,13 +859,18 @@ impl<'a> BytecodeGen<'a> {
                         }
                     }
                 };
+                // Run `ensure` blocks nested inside the loop before exiting.
+                // They may leave in another way: the value of the loop is
+                // set after them.
                 if let Some(reg) = ret {
-                    self.gen_store_expr(reg, val)?;
+                    let val = self.push_expr(val)?.into();
+                    self.gen_loop_pending_ensures(ensure_depth, ensure_level)?;
+                    self.emit_mov(reg, val);
+                    self.pop();
                 } else {
                     self.gen_expr(val, UseMode2::NotUse)?;
+                    self.gen_loop_pending_ensures(ensure_depth, ensure_level)?;
                 }
-                // Run `ensure` blocks nested inside the loop before exiting.
-                self.gen_loop_pending_ensures(ensure_depth, ensure_level)?;
                 self.emit(BytecodeInst::Br(break_dest), loc);
                 if use_mode == UseMode2::Push {
                     self.push();
-- 
2.43.0


From a6621ae32076a3d142890606adf33e42171c0a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:36:58 +0000
Subject: [PATCH 28/67] fix: restore $! when an ensure body or a throw
 overrides an exception

The ensure body run for an exception sees that exception in `$!`.  Leaving
it with a break or return out of a block, or leaving a rescue clause with
throw, left `$!` set, so later exceptions got it as their cause.
---
 monoruby/src/bytecodegen/statement.rs | 18 ++++++++++++------
 monoruby/src/codegen/jit_module.rs    |  1 +
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/monoruby/src/bytecodegen/statement.rs b/monoruby/src/bytecodegen/statement.rs
index 141ee9e..9053da5 100644
--- a/monoruby/src/bytecodegen/statement.rs
+++ b/monoruby/src/bytecodegen/statement.rs
@@ -633,12 +633,15 @@ impl<'a> BytecodeGen<'a> {
                 self.temp = saved;
             }
             self.emit(BytecodeInst::Raise(err_reg), Loc::default());
+            let handler_end = self.new_label();
+            self.apply_label(handler_end);
 
             // A frame suspended anywhere in the rescue-clause span
-            // (matching code + clause bodies) has `$!` set to the
-            // caught exception; a non-local exit passing through
-            // must restore it from the region-entry save.
-            let mut rescue_range = Some(rescue_pos..no_match_pos);
+            // (matching code + clause bodies, and the `ensure` body run
+            // before re-raising) has `$!` set to the caught exception; a
+            // non-local exit passing through must restore it from the
+            // region-entry save.
+            let mut rescue_range = Some(rescue_pos..handler_end);
             for range in self.active_ranges(region, range) {
                 self.exception_table.push(ExceptionEntry {
                     range,
@@ -698,15 +701,18 @@ impl<'a> BytecodeGen<'a> {
                 self.ensure.last_mut().unwrap().0 = region_body;
                 self.emit(BytecodeInst::Raise(err_reg), Loc::default());
                 self.pop();
+                let handler_end = self.new_label();
+                self.apply_label(handler_end);
 
+                let mut rescue_range = Some(rescue_pos..handler_end);
                 for range in self.active_ranges(region, range) {
                     self.exception_table.push(ExceptionEntry {
                         range,
                         rescue: Some(rescue_pos),
                         ensure: Some(ensure_label),
                         err_reg: Some(err_reg),
-                        rescue_range: None,
-                        errinfo_save: None,
+                        rescue_range: rescue_range.take(),
+                        errinfo_save,
                     });
                 }
             } else {
diff --git a/monoruby/src/codegen/jit_module.rs b/monoruby/src/codegen/jit_module.rs
index 73b46dd..c904651 100644
--- a/monoruby/src/codegen/jit_module.rs
+++ b/monoruby/src/codegen/jit_module.rs
@@ -172,6 +172,7 @@ pub(super) extern "C" fn handle_error(
             if let MonorubyErrKind::Throw(..) | MonorubyErrKind::FiberKill =
                 vm.exception().unwrap().kind()
             {
+                restore_errinfo_on_exit(vm, info, pc, lfp);
                 return if let Some(ensure) = info.get_ensure_dest(pc) {
                     vm.defer_unwind(lfp, info.ensure_level(ensure));
                     ErrorReturn::goto(bc_base + ensure)
-- 
2.43.0


From 35194a1348aa36bf02cf8a0d231400fbce5319a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:41:31 +0000
Subject: [PATCH 29/67] fix: find a suspended unwind again after its frame
 moved to the heap

Records of suspended unwinds, and the frames a return or break is to stop
at, were compared by frame address.  When the ensure body created a lambda
or passed a block on, the frame moved to the heap and the unwind was lost.
---
 monoruby/src/executor.rs       |  9 ++++++---
 monoruby/src/executor/frame.rs | 16 +++++++++++++---
 monoruby/src/globals/error.rs  |  9 +++++++++
 3 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/monoruby/src/executor.rs b/monoruby/src/executor.rs
index 4bf293d..652f0b1 100644
--- a/monoruby/src/executor.rs
+++ b/monoruby/src/executor.rs
@@ -1604,7 +1604,8 @@ impl Executor {
     /// caller must re-enter `entry_raise`).
     ///
     pub(crate) fn finish_ensure(&mut self, lfp: Lfp) -> bool {
-        let top_is_mine = matches!(self.deferred_unwind.last(), Some((l, ..)) if *l == lfp);
+        let top_is_mine =
+            matches!(self.deferred_unwind.last(), Some((l, ..)) if l.forwarded() == lfp);
         if self.exception.is_some() {
             if top_is_mine {
                 self.deferred_unwind.pop();
@@ -1612,8 +1613,10 @@ impl Executor {
             return true;
         }
         if top_is_mine
-            && let (_, _, Some(err)) = self.deferred_unwind.pop().unwrap()
+            && let (_, _, Some(mut err)) = self.deferred_unwind.pop().unwrap()
         {
+            // The body may have captured the frame the unwind is to stop at.
+            err.forward_target();
             // `exception` is `None` here, so the `set_error` guard holds.
             self.set_error(err);
             return true;
@@ -1630,7 +1633,7 @@ impl Executor {
     ///
     pub(crate) fn leave_ensure(&mut self, lfp: Lfp, level: usize) {
         while let Some((top_lfp, top_level, _)) = self.deferred_unwind.last()
-            && *top_lfp == lfp
+            && top_lfp.forwarded() == lfp
             && *top_level > level
         {
             self.deferred_unwind.pop();
diff --git a/monoruby/src/executor/frame.rs b/monoruby/src/executor/frame.rs
index 080b43b..b1eb4bb 100644
--- a/monoruby/src/executor/frame.rs
+++ b/monoruby/src/executor/frame.rs
@@ -672,10 +672,9 @@ impl Lfp {
         }
         // Already copied to heap: a caller is holding a stale stack
         // pointer (e.g. `Kernel#loop` cached ProcData.outer before
-        // another capture promoted this frame). Forward to the heap
-        // copy via `cfp.lfp()`, which was redirected at promotion.
+        // another capture promoted this frame).
         if self.meta().invalidated() {
-            return unsafe { self.cfp_unchecked().lfp() };
+            return self.forwarded();
         }
         unsafe {
             let mut cfp = self.cfp();
@@ -706,6 +705,17 @@ impl Lfp {
         }
     }
 
+    /// The frame's present LFP. A frame copied to heap is reached via
+    /// `cfp.lfp()`, which was redirected at promotion. The frame must be
+    /// live.
+    pub(crate) fn forwarded(self) -> Self {
+        if self.meta().invalidated() {
+            unsafe { self.cfp_unchecked().lfp() }
+        } else {
+            self
+        }
+    }
+
     pub fn heap_frame(self_val: Value, mut meta: Meta) -> Self {
         let local_len = meta.reg_num() as usize - 1;
         meta.set_on_heap();
diff --git a/monoruby/src/globals/error.rs b/monoruby/src/globals/error.rs
index adc0290..31077c2 100644
--- a/monoruby/src/globals/error.rs
+++ b/monoruby/src/globals/error.rs
@@ -208,6 +208,15 @@ impl MonorubyErr {
         }
     }
 
+    /// Follow the frame a `return` or `break` is to stop at to the heap.
+    pub(crate) fn forward_target(&mut self) {
+        if let MonorubyErrKind::MethodReturn(_, target) | MonorubyErrKind::BlockBreak(_, _, target) =
+            &mut self.kind
+        {
+            *target = target.forwarded();
+        }
+    }
+
     pub fn kind(&self) -> &MonorubyErrKind {
         &self.kind
     }
-- 
2.43.0


From 6794d21ffbf245aaa6608e82f20d1c53b378eff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:43:44 +0000
Subject: [PATCH 30/67] fix: write temporaries back before redo, retry and
 re-raise

These continue in the interpreter, but compiled code wrote back the locals
only.  A temporary that was known to be a constant, such as the nil a while
loop answers, had a stale value there.
---
 monoruby/src/codegen/jitgen/compile.rs    | 4 ++++
 monoruby/src/codegen/jitgen/state.rs      | 9 +++++++++
 monoruby/src/codegen/jitgen/state/slot.rs | 2 +-
 3 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/monoruby/src/codegen/jitgen/compile.rs b/monoruby/src/codegen/jitgen/compile.rs
index d7d5209..9e71806 100644
--- a/monoruby/src/codegen/jitgen/compile.rs
+++ b/monoruby/src/codegen/jitgen/compile.rs
@@ -961,6 +961,7 @@ impl<'a> JitContext<'a> {
             TraceIr::Raise(ret) => {
                 state.flush_gp(ir);
                 state.locals_to_S(ir);
+                state.write_back_temps(ir);
                 state.load(ir, ret, GP::Rax);
                 ir.push(AsmInst::Raise);
                 return Ok(CompileResult::Raise);
@@ -968,12 +969,14 @@ impl<'a> JitContext<'a> {
             TraceIr::Retry => {
                 state.flush_gp(ir);
                 state.locals_to_S(ir);
+                state.write_back_temps(ir);
                 ir.push(AsmInst::Retry(pc));
                 return Ok(CompileResult::Raise);
             }
             TraceIr::Redo => {
                 state.flush_gp(ir);
                 state.locals_to_S(ir);
+                state.write_back_temps(ir);
                 ir.push(AsmInst::Redo(pc));
                 return Ok(CompileResult::Raise);
             }
@@ -981,6 +984,7 @@ impl<'a> JitContext<'a> {
             TraceIr::EnsureEnd => {
                 state.flush_gp(ir);
                 state.locals_to_S(ir);
+                state.write_back_temps(ir);
                 ir.push(AsmInst::EnsureEnd);
             }
             TraceIr::Br(disp) => {
diff --git a/monoruby/src/codegen/jitgen/state.rs b/monoruby/src/codegen/jitgen/state.rs
index 850d54c..45c940d 100644
--- a/monoruby/src/codegen/jitgen/state.rs
+++ b/monoruby/src/codegen/jitgen/state.rs
@@ -537,6 +537,15 @@ impl AbstractFrame {
         }
     }
 
+    /// Write back the temporaries, for the interpreter to go on with.
+    pub(super) fn write_back_temps(&mut self, ir: &mut AsmIr) {
+        for i in self.temps() {
+            if let LinkMode::F(_) | LinkMode::C(_) = self.mode(i) {
+                self.write_back_slot(ir, i);
+            }
+        }
+    }
+
     #[allow(non_snake_case)]
     pub(super) fn locals_to_S(&mut self, ir: &mut AsmIr) {
         for i in self.locals() {
diff --git a/monoruby/src/codegen/jitgen/state/slot.rs b/monoruby/src/codegen/jitgen/state/slot.rs
index 9728161..214ae15 100644
--- a/monoruby/src/codegen/jitgen/state/slot.rs
+++ b/monoruby/src/codegen/jitgen/state/slot.rs
@@ -433,7 +433,7 @@ impl SlotState {
         SlotId(0)..SlotId(self.slots_len() as u16)
     }
 
-    fn temps(&self) -> std::ops::Range<SlotId> {
+    pub(super) fn temps(&self) -> std::ops::Range<SlotId> {
         self.temp_start()..SlotId(self.slots_len() as u16)
     }
 
-- 
2.43.0


From f87e2b874032fad9e27ab6498e0090a2378e143f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:49:30 +0000
Subject: [PATCH 31/67] fix: keep $! of clauses a suspended return has not left
 yet

The ensure body run for a return out of a block saw `$!` as it was outside
every rescue clause of the frame, even clauses the body itself is in.
---
 monoruby/src/codegen/jit_module.rs | 21 +++++++++++++--------
 monoruby/src/globals/store/iseq.rs | 14 +++++++++++---
 2 files changed, 24 insertions(+), 11 deletions(-)

diff --git a/monoruby/src/codegen/jit_module.rs b/monoruby/src/codegen/jit_module.rs
index c904651..c1d3172 100644
--- a/monoruby/src/codegen/jit_module.rs
+++ b/monoruby/src/codegen/jit_module.rs
@@ -83,14 +83,16 @@ impl ErrorReturn {
 /// Restore `$!` from the region-entry saves of every rescue clause the
 /// suspended *pc* sits inside (innermost first; the outermost save
 /// wins) — used when a non-local exit (`return` from a block, `break`)
-/// leaves a frame whose execution stopped inside a rescue clause.
+/// leaves a frame whose execution stopped inside a rescue clause. Clauses
+/// around the `ensure` body to run next, if any, are not left yet.
 fn restore_errinfo_on_exit(
     vm: &mut Executor,
     info: &crate::globals::ISeqInfo,
     pc: crate::bytecodegen::BcIndex,
+    ensure: Option<crate::bytecodegen::BcIndex>,
     lfp: Lfp,
 ) {
-    for slot in info.errinfo_restore_slots(pc) {
+    for slot in info.errinfo_restore_slots(pc, ensure) {
         if let Some(v) = lfp.register(slot) {
             vm.set_errinfo(v);
         }
@@ -141,8 +143,9 @@ pub(super) extern "C" fn handle_error(
                 // bytecodegen restore only covers local exits. Not
                 // needed on the error path: a propagating exception
                 // overwrites `$!` wherever it is caught.
-                restore_errinfo_on_exit(vm, info, pc, lfp);
-                return if let Some(ensure) = info.get_ensure_dest(pc) {
+                let ensure = info.get_ensure_dest(pc);
+                restore_errinfo_on_exit(vm, info, pc, ensure, lfp);
+                return if let Some(ensure) = ensure {
                     // Suspend the non-local return across the ensure body so
                     // the body can `raise` (set_error) without tripping the
                     // empty-exception guard; `EnsureEnd` restores it.
@@ -172,8 +175,9 @@ pub(super) extern "C" fn handle_error(
             if let MonorubyErrKind::Throw(..) | MonorubyErrKind::FiberKill =
                 vm.exception().unwrap().kind()
             {
-                restore_errinfo_on_exit(vm, info, pc, lfp);
-                return if let Some(ensure) = info.get_ensure_dest(pc) {
+                let ensure = info.get_ensure_dest(pc);
+                restore_errinfo_on_exit(vm, info, pc, ensure, lfp);
+                return if let Some(ensure) = ensure {
                     vm.defer_unwind(lfp, info.ensure_level(ensure));
                     ErrorReturn::goto(bc_base + ensure)
                 } else {
@@ -202,8 +206,9 @@ pub(super) extern "C" fn handle_error(
                     // only for frames being *exited*; the defining
                     // frame below resumes inside its rescue clause and
                     // must keep the caught exception in `$!`.
-                    restore_errinfo_on_exit(vm, info, pc, lfp);
-                    if let Some(ensure) = info.get_ensure_dest(pc) {
+                    let ensure = info.get_ensure_dest(pc);
+                    restore_errinfo_on_exit(vm, info, pc, ensure, lfp);
+                    if let Some(ensure) = ensure {
                         vm.defer_unwind(lfp, info.ensure_level(ensure));
                         return ErrorReturn::goto(bc_base + ensure);
                     }
diff --git a/monoruby/src/globals/store/iseq.rs b/monoruby/src/globals/store/iseq.rs
index 0138d47..81bbdbd 100644
--- a/monoruby/src/globals/store/iseq.rs
+++ b/monoruby/src/globals/store/iseq.rs
@@ -771,12 +771,20 @@ impl ISeqInfo {
     /// `$!` save slots of every rescue-clause span covering *pc*,
     /// innermost first (entries are pushed inner regions first).
     /// A non-local exit unwinding a frame suspended at *pc* restores
-    /// them in order — the last (outermost) save wins.
-    pub(crate) fn errinfo_restore_slots(&self, pc: BcIndex) -> Vec<SlotId> {
+    /// them in order — the last (outermost) save wins. Spans that cover
+    /// *dest* as well are not left by going there.
+    pub(crate) fn errinfo_restore_slots(
+        &self,
+        pc: BcIndex,
+        dest: Option<BcIndex>,
+    ) -> Vec<SlotId> {
         self.exception_map
             .iter()
             .filter_map(|e| {
-                if e.rescue_range.as_ref().is_some_and(|r| r.contains(&pc)) {
+                if e.rescue_range
+                    .as_ref()
+                    .is_some_and(|r| r.contains(&pc) && !dest.is_some_and(|d| r.contains(&d)))
+                {
                     e.errinfo_slot
                 } else {
                     None
-- 
2.43.0


From e61d87366984de42c7edc242631e6daf304e61c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:56:49 +0000
Subject: [PATCH 32/67] fix: resolve break and next in an ensure body at the
 body's own place

The copy of an ensure body emitted for a return inside a nested loop took
that loop as the target of its break and next.
---
 monoruby/src/bytecodegen.rs           | 13 ++++++++++++-
 monoruby/src/bytecodegen/statement.rs |  6 +++++-
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/monoruby/src/bytecodegen.rs b/monoruby/src/bytecodegen.rs
index 31891d8..1837321 100644
--- a/monoruby/src/bytecodegen.rs
+++ b/monoruby/src/bytecodegen.rs
@@ -363,7 +363,13 @@ struct LoopInfo {
 
 /// Identifies one begin region while its frame is being generated.
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
-struct RegionId(usize);
+struct RegionId {
+    id: usize,
+    /// The number of loops around the region.
+    loop_depth: usize,
+    /// The number of rescue clauses around the region.
+    retry_depth: usize,
+}
 
 #[derive(Debug)]
 struct ExceptionEntry {
@@ -1014,7 +1020,12 @@ impl<'a> BytecodeGen<'a> {
                 );
             }
             if let Some(ensure) = ensure {
+                // The loops and rescue clauses inside the region are left too.
+                let loops = self.loops.split_off(region.loop_depth);
+                let retry_labels = self.retry_labels.split_off(region.retry_depth);
                 self.gen_expr(ensure, UseMode2::NotUse)?;
+                self.loops.extend(loops);
+                self.retry_labels.extend(retry_labels);
             }
         }
         let left_to = self.new_label();
diff --git a/monoruby/src/bytecodegen/statement.rs b/monoruby/src/bytecodegen/statement.rs
index 9053da5..6a16fe5 100644
--- a/monoruby/src/bytecodegen/statement.rs
+++ b/monoruby/src/bytecodegen/statement.rs
@@ -434,7 +434,11 @@ impl<'a> BytecodeGen<'a> {
         } else {
             None
         };
-        let region = RegionId(self.region_num);
+        let region = RegionId {
+            id: self.region_num,
+            loop_depth: self.loops.len(),
+            retry_depth: self.retry_labels.len(),
+        };
         self.region_num += 1;
         self.ensure
             .push((ensure.as_deref().cloned(), errinfo_save, region));
-- 
2.43.0


From 0ab8bac65e4ec30e9b3712c6bd64f0a054b69c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:36:44 +0000
Subject: [PATCH 33/67] fix: reload the frame pointer after method_missing
 moved the frame

A block passed to a missing method may be captured there, which moves the
caller's frame to the heap. The interpreter went on with the old frame.
---
 monoruby/src/codegen/arch/aarch64/vmgen/method_call.rs | 6 ++++--
 monoruby/src/codegen/arch/x86_64/vmgen/method_call.rs  | 4 ++++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/monoruby/src/codegen/arch/aarch64/vmgen/method_call.rs b/monoruby/src/codegen/arch/aarch64/vmgen/method_call.rs
index ae24487..bf16ef0 100644
--- a/monoruby/src/codegen/arch/aarch64/vmgen/method_call.rs
+++ b/monoruby/src/codegen/arch/aarch64/vmgen/method_call.rs
@@ -198,8 +198,9 @@ impl Codegen {
         // method_missing: invoke_method_missing(vm, globals, recv, lfp,
         // callid) -> Option, then join the result path. The receiver register
         // was clobbered by find_method, so reload it from the recv slot.
-        // invoke_method_missing manages its own frames and preserves PC/LFP
-        // (callee-saved), so no cfp/LFP restore is needed here.
+        // invoke_method_missing manages its own frames and preserves PC
+        // (callee-saved), so no cfp restore is needed here; a block passed on
+        // may have moved this frame to the heap, so LFP is reloaded.
         monoasm_arm64!(&mut self.jit,
             mm:
             ldrh x10, [x(PC.0), #(12)];  // recv slot
@@ -213,6 +214,7 @@ impl Codegen {
             ldr w4, [x(PC.0)];  // callid
             mov x9, (crate::codegen::runtime::invoke_method_missing as *const () as u64);
             blr x9;
+            ldur x(LFP.0), [x29, #(-((BP_CFP + CFP_LFP) as i32))];
             b after_call;
         );
         // --- slow path: inline-cache miss. Look up the method, populate the
diff --git a/monoruby/src/codegen/arch/x86_64/vmgen/method_call.rs b/monoruby/src/codegen/arch/x86_64/vmgen/method_call.rs
index 4dfe8b5..a35436d 100644
--- a/monoruby/src/codegen/arch/x86_64/vmgen/method_call.rs
+++ b/monoruby/src/codegen/arch/x86_64/vmgen/method_call.rs
@@ -98,6 +98,10 @@ impl Codegen {
             movl r8, [r13 + (CALLSITE_ID)];
             movq rax, (runtime::invoke_method_missing);
             call rax;
+        };
+        // A block passed on may have moved this frame to the heap.
+        self.restore_lfp();
+        monoasm! { &mut self.jit,
             jmp  done;
         };
         self.jit.select_page(0);
-- 
2.43.0


From 166a7eb63487ca091528f0bfd5815ffa67aa5c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:36:44 +0000
Subject: [PATCH 34/67] fix: keep the order of keywords behind a double splat

f(**h, k: 1) passed k before the entries of h, and also evaluated it first.
An anonymous ** beside a key that is not a symbol was dropped.
---
 monoruby/src/parser/prism_backend.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/monoruby/src/parser/prism_backend.rs b/monoruby/src/parser/prism_backend.rs
index e7ab9d1..37344c6 100644
--- a/monoruby/src/parser/prism_backend.rs
+++ b/monoruby/src/parser/prism_backend.rs
@@ -2965,14 +2965,19 @@ impl<'pr> Lowerer<'pr> {
                 // to the same shape ruruby produces in that case:
                 // build a single `Hash(...)` value and pass it as a
                 // regular positional arg.
+                // The same goes for a pair behind a `**` splat: the split
+                // shape would evaluate and insert it before the splat.
                 let mut all_static_symbol = true;
+                let mut splat_seen = false;
                 for elem in kh.elements().iter() {
                     if let prism::Node::AssocNode { .. } = elem {
                         let assoc = elem.as_assoc_node().unwrap();
-                        if !matches!(assoc.key(), prism::Node::SymbolNode { .. }) {
+                        if splat_seen || !matches!(assoc.key(), prism::Node::SymbolNode { .. }) {
                             all_static_symbol = false;
                             break;
                         }
+                    } else {
+                        splat_seen = true;
                     }
                 }
                 if !all_static_symbol {
@@ -3003,7 +3008,7 @@ impl<'pr> Lowerer<'pr> {
                                 let inner = match s.value() {
                                     Some(v) => self.lower_node(&v)?,
                                     None => Node {
-                                        kind: NodeKind::Nil,
+                                        kind: NodeKind::LocalVar(0, ANON_KWREST_NAME.to_owned()),
                                         loc: location_to_loc(&s.location()),
                                     },
                                 };
-- 
2.43.0


From 3a50b1915d8de7a8664b82ea779bf13b2ce743b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:36:44 +0000
Subject: [PATCH 35/67] fix: pass keywords on from instance_exec and class_exec

---
 monoruby/src/builtins/module.rs |  8 +++++---
 monoruby/src/builtins/object.rs |  9 +++++----
 monoruby/src/executor.rs        | 13 ++++++++++++-
 3 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/monoruby/src/builtins/module.rs b/monoruby/src/builtins/module.rs
index 89e34f3..5e968e6 100644
--- a/monoruby/src/builtins/module.rs
+++ b/monoruby/src/builtins/module.rs
@@ -75,7 +75,7 @@ pub(super) fn init(globals: &mut Globals) {
         true,
         Effect::EVAL,
     );
-    globals.define_builtin_funcs_with_effect(
+    globals.define_builtin_funcs_with_kw(
         MODULE_CLASS,
         "class_exec",
         &["module_exec"],
@@ -83,7 +83,8 @@ pub(super) fn init(globals: &mut Globals) {
         0,
         0,
         true,
-        Effect::EVAL,
+        &[],
+        true,
     );
     globals.define_builtin_func(MODULE_CLASS, "ancestors", ancestors, 0);
     globals.define_builtin_func(MODULE_CLASS, "subclasses", subclasses, 0);
@@ -1044,11 +1045,12 @@ fn class_exec(
     let bh = lfp.expect_block()?;
     let data = vm.get_block_data(globals, bh)?;
     let args = lfp.arg(0).as_array();
+    let kw = lfp.try_arg(1).and_then(|v| v.try_hash_ty());
     // class_exec(&block) is a runtime-only push: `def` inside lands
     // on the receiver, but `module Foo; end` / `X = ...` use the
     // block's captured lexical scope (matches CRuby).
     vm.push_runtime_class_context(module.id());
-    let res = vm.invoke_block_with_self(globals, &data, module.get(), &args);
+    let res = vm.invoke_block_with_self_kw(globals, &data, module.get(), &args, kw);
     vm.pop_class_context();
     res
 }
diff --git a/monoruby/src/builtins/object.rs b/monoruby/src/builtins/object.rs
index a887a67..a5d1b44 100644
--- a/monoruby/src/builtins/object.rs
+++ b/monoruby/src/builtins/object.rs
@@ -42,15 +42,15 @@ pub(super) fn init(globals: &mut Globals) {
         true,
         Effect::EVAL,
     );
-    globals.define_builtin_funcs_with_effect(
+    globals.define_builtin_func_with_kw(
         BASIC_OBJECT_CLASS,
         "instance_exec",
-        &[],
         instance_exec,
         0,
         0,
         true,
-        Effect::EVAL,
+        &[],
+        true,
     );
 
     globals.define_builtin_inline_funcs_with_kw(
@@ -477,8 +477,9 @@ fn instance_exec(
     let bh = lfp.expect_block()?;
     let data = vm.get_block_data(globals, bh)?;
     let args = lfp.arg(0).as_array();
+    let kw = lfp.try_arg(1).and_then(|v| v.try_hash_ty());
     vm.push_instance_eval_context(self_val);
-    let res = vm.invoke_block_with_self(globals, &data, self_val, &args);
+    let res = vm.invoke_block_with_self_kw(globals, &data, self_val, &args, kw);
     vm.pop_class_context();
     res
 }
diff --git a/monoruby/src/executor.rs b/monoruby/src/executor.rs
index 652f0b1..003f387 100644
--- a/monoruby/src/executor.rs
+++ b/monoruby/src/executor.rs
@@ -3442,6 +3442,17 @@ impl Executor {
         data: &ProcData,
         self_val: Value,
         args: &[Value],
+    ) -> Result<Value> {
+        self.invoke_block_with_self_kw(globals, data, self_val, args, None)
+    }
+
+    pub(crate) fn invoke_block_with_self_kw(
+        &mut self,
+        globals: &mut Globals,
+        data: &ProcData,
+        self_val: Value,
+        args: &[Value],
+        kw: Option<Hashmap>,
     ) -> Result<Value> {
         (globals.invokers.block_with_self)(
             self,
@@ -3450,7 +3461,7 @@ impl Executor {
             self_val,
             args.as_ptr(),
             args.len(),
-            None,
+            kw,
         )
         .ok_or_else(|| self.take_error())
     }
-- 
2.43.0


From d5e9e33ba6e14a3e9cb6ace6287d51f3ba9e4a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:36:44 +0000
Subject: [PATCH 36/67] fix: spread an object with to_ary when a proc is called
 with it

Calling a proc and the built-in methods that run a block went without the
conversion that yield makes.
---
 monoruby/src/codegen/runtime/args.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/monoruby/src/codegen/runtime/args.rs b/monoruby/src/codegen/runtime/args.rs
index 622608e..1a22c70 100644
--- a/monoruby/src/codegen/runtime/args.rs
+++ b/monoruby/src/codegen/runtime/args.rs
@@ -1520,6 +1520,19 @@ fn invoker_arguments_inner(
     mut kw_arg: Option<Hashmap>,
 ) -> Result<Value> {
     let callee_fid = callee_lfp.func_id();
+
+    // Block auto-splat: a single non-Array argument to a multi-param block
+    // is coerced via `#to_ary` (kept alive here while its buffer is read).
+    let coerced = if globals.store[callee_fid].single_arg_expand()
+        && arg_num == 1
+        && kw_arg.is_none()
+        && !unsafe { *args }.is_array_ty()
+    {
+        block_arg_to_ary(vm, globals, unsafe { *args })?
+    } else {
+        None
+    };
+    let args = coerced.as_ref().map_or(args, |v| v as *const Value);
     let info = &globals.store[callee_fid];
 
     // keyword
-- 
2.43.0


From 3438c2fa47f41158b8af2530126493b5157205e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:36:44 +0000
Subject: [PATCH 37/67] fix: name unknown keywords the same way for procs as
 for methods

Calling a proc, a lambda or a method object reported them with a doubled
colon, before a missing keyword, and always in the plural. A key given twice
was listed twice.
---
 monoruby/src/codegen/runtime/args.rs | 39 ++++++++++++++++++----------
 1 file changed, 25 insertions(+), 14 deletions(-)

diff --git a/monoruby/src/codegen/runtime/args.rs b/monoruby/src/codegen/runtime/args.rs
index 1a22c70..7121fdf 100644
--- a/monoruby/src/codegen/runtime/args.rs
+++ b/monoruby/src/codegen/runtime/args.rs
@@ -1087,6 +1087,13 @@ fn fill_positional_args(
     Ok(())
 }
 
+fn unknown_keyword_name(globals: &Globals, key: Value) -> String {
+    match key.try_symbol() {
+        Some(sym) => format!(":{sym}"),
+        None => key.inspect(&globals.store),
+    }
+}
+
 ///
 /// Build the `ArgumentError` for keyword arguments a method didn't declare
 /// (and that no `**kwrest` can absorb). CRuby lists *every* unknown key,
@@ -1176,9 +1183,14 @@ fn handle_keyword(
         return Ok(());
     }
     let mut unknowns = ordinary_keyword(globals, callee, caller, callee_lfp, caller_lfp)?;
-    unknowns.extend(hash_splat_and_kw_rest(
+    // The same key may come from several sources; it is reported once.
+    for name in hash_splat_and_kw_rest(
         vm, globals, callee, caller, callee_lfp, caller_lfp, r2k_kw,
-    )?);
+    )? {
+        if !unknowns.contains(&name) {
+            unknowns.push(name);
+        }
+    }
     // A missing required keyword is reported before any unknown keyword,
     // matching CRuby (`m(a: 1)` for `def m(x:)` raises "missing keyword: :x",
     // not "unknown keyword: :a").
@@ -1419,8 +1431,7 @@ fn hash_splat_and_kw_rest(
             for (k, _) in h.iter() {
                 match k.try_symbol() {
                     Some(sym) if globals[callee].kw_names().contains(&sym) => {}
-                    Some(sym) => unknowns.push(format!(":{sym}")),
-                    None => unknowns.push(k.inspect(&globals.store)),
+                    _ => unknowns.push(unknown_keyword_name(globals, k)),
                 }
             }
         }
@@ -1562,6 +1573,7 @@ fn invoker_arguments_inner(
     }
 
     // keyword rest
+    let mut unknowns = vec![];
     let ex = if let Some(kw_rest) = info.kw_rest() {
         let v = if let Some(kw_arg) = kw_arg {
             kw_arg.into()
@@ -1583,17 +1595,13 @@ fn invoker_arguments_inner(
             v.try_hash_ty().unwrap().set_ruby2_keywords_flag();
         }
         Some(v)
-    } else if let Some(kw_arg) = kw_arg {
-        let mut s = "unknown keywords: ".to_string();
-        for (i, (name, _)) in kw_arg.iter().enumerate() {
-            if i == 0 {
-                s.push_str(&format!(":{name}"));
-            } else {
-                s.push_str(&format!(", :{name}"));
-            }
-        }
-        return Err(MonorubyErr::argumenterr(s));
     } else {
+        if let Some(kw_arg) = kw_arg {
+            unknowns = kw_arg
+                .iter()
+                .map(|(k, _)| unknown_keyword_name(globals, k))
+                .collect();
+        }
         None
     };
 
@@ -1603,6 +1611,9 @@ fn invoker_arguments_inner(
     // After the positional check, so a call that is wrong in both ways
     // reports the positional arity error first, like CRuby.
     check_missing_keyword(info, callee_lfp)?;
+    if !unknowns.is_empty() {
+        return Err(unknown_keyword_err(unknowns));
+    }
 
     Ok(Value::nil())
 }
-- 
2.43.0


From 5803eae4dfce248c9d382dbbbe1fbb899d38f28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:13:12 +0000
Subject: [PATCH 38/67] fix: keep the value of a local operand that a later
 operand reassigns

---
 monoruby/src/bytecodegen.rs             | 56 ++++++++++++++++++++++++-
 monoruby/src/bytecodegen/binary.rs      |  6 +--
 monoruby/src/bytecodegen/expression.rs  |  4 +-
 monoruby/src/bytecodegen/method_call.rs | 18 ++++++--
 4 files changed, 75 insertions(+), 9 deletions(-)

diff --git a/monoruby/src/bytecodegen.rs b/monoruby/src/bytecodegen.rs
index 1837321..61b37a2 100644
--- a/monoruby/src/bytecodegen.rs
+++ b/monoruby/src/bytecodegen.rs
@@ -1892,7 +1892,11 @@ impl<'a> BytecodeGen<'a> {
                 && arglist.kw_args.is_empty()
                 && !safe_nav =>
             {
-                let recv = self.gen_expr_reg(receiver.clone())?;
+                let recv = if receiver.kind == NodeKind::SelfValue {
+                    BcReg::Self_
+                } else {
+                    self.push_expr(receiver.clone())?.into()
+                };
                 let method = IdentId::get_id_from_string(format!("{method}="));
                 LvalueKind::Send { recv, method }
             }
@@ -2016,6 +2020,25 @@ impl<'a> BytecodeGen<'a> {
         })
     }
 
+    ///
+    /// Evaluate *expr*, an operand whose value is used only after *later*
+    /// have been evaluated, and return the register which the result is
+    /// stored.
+    ///
+    /// A local variable is used in place unless *later* may assign to it:
+    /// `a + (a = 1)` must add to the value `a` had before the assignment.
+    ///
+    fn gen_expr_reg_before<'n>(
+        &mut self,
+        expr: Node,
+        later: impl IntoIterator<Item = &'n Node>,
+    ) -> Result<BcReg> {
+        if matches!(expr.kind, NodeKind::LocalVar(..)) && later.into_iter().any(may_assign_local) {
+            return Ok(self.push_expr(expr)?.into());
+        }
+        self.gen_expr_reg(expr)
+    }
+
     ///
     /// Evaluate *expr* and
     ///
@@ -2112,6 +2135,37 @@ impl<'a> BytecodeGen<'a> {
     }
 }
 
+///
+/// Whether the evaluation of *node* may assign to a local variable of the
+/// frame. Calls count, since they may run a block which captured the variable.
+///
+fn may_assign_local(node: &Node) -> bool {
+    match &node.kind {
+        NodeKind::SelfValue
+        | NodeKind::Nil
+        | NodeKind::Integer(_)
+        | NodeKind::Bignum(_)
+        | NodeKind::Float(_)
+        | NodeKind::Imaginary(_)
+        | NodeKind::Rational(..)
+        | NodeKind::RImaginary(..)
+        | NodeKind::Bool(_)
+        | NodeKind::String(_)
+        | NodeKind::Bytes(_)
+        | NodeKind::EncodedString(..)
+        | NodeKind::Symbol(_)
+        | NodeKind::LocalVar(..)
+        | NodeKind::InstanceVar(_)
+        | NodeKind::GlobalVar(_)
+        | NodeKind::ClassVar(_) => false,
+        NodeKind::Const { parent, .. } => parent.as_deref().is_some_and(may_assign_local),
+        NodeKind::Array(nodes, _) => nodes.iter().any(may_assign_local),
+        NodeKind::BinOp(_, lhs, rhs) => may_assign_local(lhs) || may_assign_local(rhs),
+        NodeKind::UnOp(_, node) => may_assign_local(node),
+        _ => true,
+    }
+}
+
 enum RecvKind {
     SelfValue,
     Local(BcReg),
diff --git a/monoruby/src/bytecodegen/binary.rs b/monoruby/src/bytecodegen/binary.rs
index b964c1a..58a577b 100644
--- a/monoruby/src/bytecodegen/binary.rs
+++ b/monoruby/src/bytecodegen/binary.rs
@@ -42,7 +42,7 @@ impl<'a> BytecodeGen<'a> {
         loc: Loc,
     ) -> Result<()> {
         let old = self.temp;
-        let lhs = self.gen_expr_reg(lhs)?;
+        let lhs = self.gen_expr_reg_before(lhs, [&rhs])?;
         let rhs = self.gen_expr_reg(rhs)?;
         self.temp = old;
         let ret = match use_mode {
@@ -183,7 +183,7 @@ impl<'a> BytecodeGen<'a> {
     ///
     fn gen_mode(&mut self, lhs: Node, rhs: Node) -> Result<(BcReg, BcReg)> {
         let old = self.temp;
-        let lhs = self.gen_expr_reg(lhs)?;
+        let lhs = self.gen_expr_reg_before(lhs, [&rhs])?;
         let rhs = self.gen_expr_reg(rhs)?;
         self.temp = old;
         Ok((lhs, rhs))
@@ -228,7 +228,7 @@ impl<'a> BytecodeGen<'a> {
         loc: Loc,
     ) -> Result<()> {
         let old = self.temp;
-        let lhs = self.gen_expr_reg(lhs)?;
+        let lhs = self.gen_expr_reg_before(lhs, [&rhs])?;
         let rhs = self.gen_expr_reg(rhs)?;
         self.temp = old;
         let dst = match use_mode {
diff --git a/monoruby/src/bytecodegen/expression.rs b/monoruby/src/bytecodegen/expression.rs
index a7fba9a..fffb1be 100644
--- a/monoruby/src/bytecodegen/expression.rs
+++ b/monoruby/src/bytecodegen/expression.rs
@@ -1760,7 +1760,7 @@ impl<'a> BytecodeGen<'a> {
         let base = if base.kind == NodeKind::SelfValue {
             BcReg::Self_
         } else {
-            self.gen_expr_reg(base)?
+            self.gen_expr_reg_before(base, [&index])?
         };
         let index = self.gen_expr_reg(index)?;
         self.temp = old;
@@ -2108,7 +2108,7 @@ impl<'a> BytecodeGen<'a> {
     ) -> Result<()> {
         let old = self.temp;
         let start = if let Some(start) = start {
-            self.gen_expr_reg(start)?
+            self.gen_expr_reg_before(start, &end)?
         } else {
             self.push_nil()
         };
diff --git a/monoruby/src/bytecodegen/method_call.rs b/monoruby/src/bytecodegen/method_call.rs
index c3f1bdf..d0bc6be 100644
--- a/monoruby/src/bytecodegen/method_call.rs
+++ b/monoruby/src/bytecodegen/method_call.rs
@@ -64,10 +64,22 @@ impl<'a> BytecodeGen<'a> {
                     BcReg::Self_
                 } else if self.is_refer_block_arg(&receiver) {
                     self.push_expr(receiver)?.into()
-                } else if let Some(local) = self.is_refer_local(&receiver) {
-                    local
                 } else {
-                    self.push_expr(receiver)?.into()
+                    // A literal block runs after the receiver is passed.
+                    let block = match arglist.block.as_deref() {
+                        Some(Node {
+                            kind: NodeKind::Lambda(_),
+                            ..
+                        }) => None,
+                        block => block,
+                    };
+                    let later = arglist
+                        .args
+                        .iter()
+                        .chain(arglist.kw_args.iter().map(|(_, node)| node))
+                        .chain(&arglist.hash_splat)
+                        .chain(block);
+                    self.gen_expr_reg_before(receiver, later)?
                 }
             }
             None => BcReg::Self_,
-- 
2.43.0


From cc96467279477b148456145dbf97ea5cd76793ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:18:31 +0000
Subject: [PATCH 39/67] fix: keep float arguments across building the rest
 array of a compiled call

---
 monoruby/src/codegen/jitgen/compile/method_call.rs | 6 ++++++
 monoruby/src/codegen/jitgen/state.rs               | 2 +-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/monoruby/src/codegen/jitgen/compile/method_call.rs b/monoruby/src/codegen/jitgen/compile/method_call.rs
index d6e5e42..38e6219 100644
--- a/monoruby/src/codegen/jitgen/compile/method_call.rs
+++ b/monoruby/src/codegen/jitgen/compile/method_call.rs
@@ -2068,6 +2068,12 @@ impl AbstractState {
             let ofs = stack_offset - LFP_SELF;
             self.fetch_for_callee(ir, callsite.recv, ofs);
 
+            // Building the rest Array destroys the FPRs; the arguments
+            // fetched after that must be in memory.
+            if callee.is_rest() {
+                self.write_back_args(ir, callsite);
+            }
+
             let req = filled_req.len();
             let opt = filled_opt.len();
             let post = filled_post.len();
diff --git a/monoruby/src/codegen/jitgen/state.rs b/monoruby/src/codegen/jitgen/state.rs
index 45c940d..0023d36 100644
--- a/monoruby/src/codegen/jitgen/state.rs
+++ b/monoruby/src/codegen/jitgen/state.rs
@@ -522,7 +522,7 @@ impl AbstractFrame {
         self.write_back_args(ir, callsite);
     }
 
-    pub(super) fn write_back_args(&mut self, ir: &mut AsmIr, callsite: &CallSiteInfo) {
+    pub(in crate::codegen::jitgen) fn write_back_args(&mut self, ir: &mut AsmIr, callsite: &CallSiteInfo) {
         let CallSiteInfo {
             args,
             pos_num,
-- 
2.43.0


From 0fbbd9650309e5133fc8ba8cc5a7535a22353ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:24:17 +0000
Subject: [PATCH 40/67] fix: forget the class of a local receiver the block may
 have assigned to

---
 .../src/codegen/jitgen/compile/method_call.rs | 30 ++++++++++++++++++-
 monoruby/src/codegen/jitgen/state/slot.rs     | 10 +++++++
 2 files changed, 39 insertions(+), 1 deletion(-)

diff --git a/monoruby/src/codegen/jitgen/compile/method_call.rs b/monoruby/src/codegen/jitgen/compile/method_call.rs
index 38e6219..6f191cf 100644
--- a/monoruby/src/codegen/jitgen/compile/method_call.rs
+++ b/monoruby/src/codegen/jitgen/compile/method_call.rs
@@ -286,8 +286,36 @@ impl<'a> JitContext<'a> {
     /// *func_id* in the same method-table probe (see `jit_check_call`), so the
     /// visibility gate below costs no extra lookup.
     ///
-    #[cfg_attr(target_arch = "aarch64", allow(unused_variables))]
     pub(super) fn compile_method_call(
+        &mut self,
+        state: &mut AbstractState,
+        ir: &mut AsmIr,
+        recv_class: ClassId,
+        arg_class: Option<ClassId>,
+        func_id: FuncId,
+        visibility: Visibility,
+        callid: CallSiteId,
+        recv_miss: RecvMissMode,
+    ) -> JitResult<CompileResult> {
+        let result = self.compile_method_call_inner(
+            state, ir, recv_class, arg_class, func_id, visibility, callid, recv_miss,
+        )?;
+        // The class guard of the receiver came after the locals were demoted
+        // for the block, which may have assigned to the receiver since.
+        let CallSiteInfo {
+            recv,
+            dst,
+            block_fid,
+            ..
+        } = self.store[callid];
+        if block_fid.is_some() && dst != Some(recv) && self.locals().contains(&recv) {
+            state.unset_guard_S(recv);
+        }
+        Ok(result)
+    }
+
+    #[cfg_attr(target_arch = "aarch64", allow(unused_variables))]
+    fn compile_method_call_inner(
         &mut self,
         state: &mut AbstractState,
         ir: &mut AsmIr,
diff --git a/monoruby/src/codegen/jitgen/state/slot.rs b/monoruby/src/codegen/jitgen/state/slot.rs
index 214ae15..f50fd32 100644
--- a/monoruby/src/codegen/jitgen/state/slot.rs
+++ b/monoruby/src/codegen/jitgen/state/slot.rs
@@ -1291,6 +1291,16 @@ impl AbstractFrame {
         }
     }
 
+    ///
+    /// Forget the class *slot* was guarded for, if it lives in the stack.
+    ///
+    #[allow(non_snake_case)]
+    pub(in crate::codegen::jitgen) fn unset_guard_S(&mut self, slot: SlotId) {
+        if let LinkMode::S(_) = self.mode(slot) {
+            self.set_mode(slot, LinkMode::S(Guarded::Value));
+        }
+    }
+
     ///
     /// Analysis half of [`Self::guard_class`] (item ②, step 2): refine the
     /// slot's abstract type to `class` and return whether a runtime guard must
-- 
2.43.0


From 672c0ede103dadbe0eb13909c7d394a70e1a1c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:29:00 +0000
Subject: [PATCH 41/67] fix: let both arms of a dispatched operator meet on a
 constant operand

---
 monoruby/src/codegen/jitgen/compile/dispatch.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/monoruby/src/codegen/jitgen/compile/dispatch.rs b/monoruby/src/codegen/jitgen/compile/dispatch.rs
index 5b68432..f26037a 100644
--- a/monoruby/src/codegen/jitgen/compile/dispatch.rs
+++ b/monoruby/src/codegen/jitgen/compile/dispatch.rs
@@ -37,6 +37,7 @@
 //! caller-supplied merge shape is the natural next step.
 
 use super::*;
+use crate::jitgen::state::Guarded;
 
 ///
 /// The merge point of an intra-block dispatch, declared before the arms are
@@ -74,6 +75,13 @@ impl<'a> JitContext<'a> {
         let entry = state.clone();
 
         let mut target = entry.clone();
+        // An arm may load a constant operand into an fpr, which has no way
+        // back to a constant. Its value is in the stack home by now.
+        for slot in operands {
+            if let LinkMode::C(v) = target.mode(*slot) {
+                target.set_S_with_guard(*slot, Guarded::from_concrete_value(v));
+            }
+        }
         if let Some(dst) = dst {
             target.def_S(dst);
         }
-- 
2.43.0


From 83116e308d712e1cc296f54ad8887724f70bbac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:05:46 +0000
Subject: [PATCH 42/67] fix: look compiled send up in the class of the receiver

Compiled code for send kept the method it had found under the name
alone, so with receivers of several classes it called the method of
another class. A name without a method was reported as missing instead
of being handed to method_missing.
---
 monoruby/src/builtins/kernel.rs               | 12 ++++++++++--
 .../arch/aarch64/compile/method_call.rs       |  1 +
 .../arch/x86_64/compile/method_call.rs        | 19 +++++++++++++++----
 3 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/monoruby/src/builtins/kernel.rs b/monoruby/src/builtins/kernel.rs
index 6b3f349..609a505 100644
--- a/monoruby/src/builtins/kernel.rs
+++ b/monoruby/src/builtins/kernel.rs
@@ -1,4 +1,5 @@
 use super::*;
+use crate::codegen::jitgen::deopt_log::DeoptCause;
 #[cfg(target_arch = "x86_64")]
 use jitgen::JitContext;
 #[cfg(target_arch = "aarch64")]
@@ -4675,9 +4676,14 @@ pub fn object_send(
     _: &JitContext,
     store: &Store,
     callid: CallSiteId,
-    _: Option<ClassId>,
+    recv_class: Option<ClassId>,
     _: Option<ClassId>,
 ) -> bool {
+    if recv_class.is_none() {
+        // The cache of the call site is keyed by the name alone, so the
+        // receiver must be of one class.
+        return false;
+    }
     let callsite = &store[callid];
     let no_splat = !callsite.object_send_single_splat();
     if !callsite.is_simple() && no_splat {
@@ -4687,10 +4693,12 @@ pub fn object_send(
     state.write_back_recv_and_callargs(ir, callsite);
     let using_fpr = state.get_using_fpr(ir);
     let error = ir.new_error(state);
+    let deopt = ir.new_deopt(state);
     let callid = callsite.id;
     ir.inline(move |r#gen, store, labels, _| {
         let error = &labels[error];
-        r#gen.object_send_inline(callid, store, using_fpr, &error, no_splat);
+        let deopt = r#gen.deopt_label(labels, deopt, DeoptCause::Static("no such method"));
+        r#gen.object_send_inline(callid, store, using_fpr, &error, &deopt, no_splat);
     });
     state.def_reg2acc(ir, GP::Rax, callsite.dst);
     true
diff --git a/monoruby/src/codegen/arch/aarch64/compile/method_call.rs b/monoruby/src/codegen/arch/aarch64/compile/method_call.rs
index 2659057..83d33df 100644
--- a/monoruby/src/codegen/arch/aarch64/compile/method_call.rs
+++ b/monoruby/src/codegen/arch/aarch64/compile/method_call.rs
@@ -345,6 +345,7 @@ impl Codegen {
         store: &Store,
         using_fpr: UsingFpr,
         error: &DestLabel,
+        _deopt: &DestLabel,
         no_splat: bool,
     ) {
         let CallSiteInfo {
diff --git a/monoruby/src/codegen/arch/x86_64/compile/method_call.rs b/monoruby/src/codegen/arch/x86_64/compile/method_call.rs
index aeff145..4424916 100644
--- a/monoruby/src/codegen/arch/x86_64/compile/method_call.rs
+++ b/monoruby/src/codegen/arch/x86_64/compile/method_call.rs
@@ -456,9 +456,7 @@ extern "C" fn find(
     recv: Value,
     func_name: IdentId,
 ) -> Option<FuncId> {
-    vm.find_method(globals, recv, func_name, true)
-        .map_err(|err| vm.set_error(err))
-        .ok()
+    vm.find_method(globals, recv, func_name, true).ok()
 }
 
 impl Codegen {
@@ -468,6 +466,7 @@ impl Codegen {
         store: &Store,
         using_fpr: UsingFpr,
         error: &DestLabel,
+        deopt: &DestLabel,
         no_splat: bool,
     ) {
         let CallSiteInfo {
@@ -501,7 +500,19 @@ impl Codegen {
             self.object_send_splat_arg0(args, &error);
             self.object_send_inner(recv, cache, &error);
         }
-        self.handle_error(&error);
+        // There is no such method: `method_missing` is up to the interpreter.
+        let not_found = self.jit.label();
+        monoasm! { &mut self.jit,
+            testq rax, rax;
+            jz   not_found;
+        }
+        self.jit.select_page(1);
+        self.jit.bind_label(not_found);
+        self.fpr_restore(using_fpr);
+        monoasm! { &mut self.jit,
+            jmp deopt;
+        }
+        self.jit.select_page(0);
         monoasm! { &mut self.jit,
             // FuncId was returned to rax.
             movl rdx, rax;
-- 
2.43.0


From c1bbd39fa093e706e4723b7c6de756ef40daaea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:05:46 +0000
Subject: [PATCH 43/67] fix: notice a changed visibility in compiled calls

A compiled call was kept as long as the same method was found, so a
method made private could still be called from outside.
---
 .../src/codegen/jitgen/compile/method_call.rs |  9 +++++++--
 monoruby/src/globals/store/class.rs           | 19 +++++++++++--------
 monoruby/src/globals/store/iseq.rs            |  2 ++
 3 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/monoruby/src/codegen/jitgen/compile/method_call.rs b/monoruby/src/codegen/jitgen/compile/method_call.rs
index 6f191cf..9b0a6c2 100644
--- a/monoruby/src/codegen/jitgen/compile/method_call.rs
+++ b/monoruby/src/codegen/jitgen/compile/method_call.rs
@@ -345,6 +345,7 @@ impl<'a> JitContext<'a> {
                 name: callsite.name,
                 refinements: self.refinements(),
                 func_id,
+                visibility,
             });
         let recv = callsite.recv;
 
@@ -436,13 +437,17 @@ impl<'a> JitContext<'a> {
                 // resolved at compile time. Only `recv_class` was recorded
                 // above, so add the rest.
                 //
+                let name = callsite.name;
                 for &class in classes.iter() {
-                    if class != recv_class {
+                    if class != recv_class
+                        && let Some((_, visibility)) = self.jit_check_call(class, name)
+                    {
                         self.inline_method_cache.push(InlineCacheEntry {
                             recv_class: class,
-                            name: callsite.name,
+                            name,
                             refinements: self.refinements(),
                             func_id,
+                            visibility,
                         });
                     }
                 }
diff --git a/monoruby/src/globals/store/class.rs b/monoruby/src/globals/store/class.rs
index a156230..420b259 100644
--- a/monoruby/src/globals/store/class.rs
+++ b/monoruby/src/globals/store/class.rs
@@ -2536,15 +2536,14 @@ impl Store {
         recv_class: ClassId,
         name: Option<IdentId>,
         refinements: RefinementSetId,
-    ) -> Option<FuncId> {
+    ) -> Option<(FuncId, Visibility)> {
         if let Some(method_name) = name {
             // Re-ask with the *same* refinement set the compiler used;
             // asking the unrefined question would confirm an answer the
             // compiled code is no longer allowed to give
             // (`doc/refinements.md` §3.4).
             self.check_method_with_refinements(recv_class, method_name, refinements)
-                .map(|entry| entry.func_id())
-                .flatten()
+                .and_then(|entry| Some((entry.func_id()?, entry.visibility())))
         } else {
             // A `super` site re-resolves relative to the *executing frame of
             // the owning unit*. Without that frame (a salvage triggered from
@@ -2553,7 +2552,11 @@ impl Store {
             // comparison fails and the salvage falls back to a recompile.
             let func_id = lfp?.method_func_id();
             let name = self[func_id].name().unwrap();
-            self.check_super(recv_class, func_id, name)
+            // `super` bypasses visibility.
+            Some((
+                self.check_super(recv_class, func_id, name)?,
+                Visibility::Public,
+            ))
         }
     }
 
@@ -2620,9 +2623,9 @@ impl Store {
             return None;
         };
         for entry in cache_map {
-            let func_id =
+            let found =
                 self.check_method_for_name(lfp, entry.recv_class, entry.name, entry.refinements);
-            if func_id != Some(entry.func_id) {
+            if found != Some((entry.func_id, entry.visibility)) {
                 #[cfg(feature = "jit-log")]
                 crate::codegen::jit_stats::bump(
                     &crate::codegen::jit_stats::SALVAGE_FAIL_RESOLUTION_CHANGED,
@@ -2785,9 +2788,9 @@ impl Store {
             .unwrap()
             .inline_cache_map;
         for entry in cache_map {
-            let func_id =
+            let found =
                 self.check_method_for_name(lfp, entry.recv_class, entry.name, entry.refinements);
-            if func_id != Some(entry.func_id) {
+            if found != Some((entry.func_id, entry.visibility)) {
                 #[cfg(feature = "jit-log")]
                 crate::codegen::jit_stats::bump(
                     &crate::codegen::jit_stats::SALVAGE_FAIL_RESOLUTION_CHANGED,
diff --git a/monoruby/src/globals/store/iseq.rs b/monoruby/src/globals/store/iseq.rs
index 81bbdbd..185d27c 100644
--- a/monoruby/src/globals/store/iseq.rs
+++ b/monoruby/src/globals/store/iseq.rs
@@ -83,6 +83,8 @@ pub struct InlineCacheEntry {
     pub name: Option<IdentId>,
     pub refinements: RefinementSetId,
     pub func_id: FuncId,
+    /// Part of the answer: a method made private must not be called any more.
+    pub visibility: Visibility,
 }
 
 #[derive(Debug, Clone)]
-- 
2.43.0


From 7e175763fdedac542d2bc8e7be09cb98ca9db007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:05:46 +0000
Subject: [PATCH 44/67] fix: include modules behind a class that has prepended
 ones

A module included into a class that already had a prepended module
was put in front of both.
---
 monoruby/src/value/rvalue/module.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/monoruby/src/value/rvalue/module.rs b/monoruby/src/value/rvalue/module.rs
index eb248c1..c11fc54 100644
--- a/monoruby/src/value/rvalue/module.rs
+++ b/monoruby/src/value/rvalue/module.rs
@@ -74,7 +74,12 @@ impl Module {
                 return Ok(());
             }
         }
-        let mut base = *self;
+        // Included modules stand behind the class itself, that is behind
+        // its origin when something has been prepended to it.
+        let mut base = match self.origin {
+            Some(origin) if !for_prepend => origin,
+            _ => *self,
+        };
         loop {
             // For prepend: only treat the module as already-an-ancestor
             // if it's in the prepend region (between head and origin).
-- 
2.43.0


From 7f41ea88b4f43115dcf41a53d9e6edb70126fb2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:05:46 +0000
Subject: [PATCH 45/67] fix: find super of a module that stands twice among the
 ancestors

The position of the running method was counted only over directly
adjacent frames of the same body, so super went round in circles or
skipped a level. An undefined method above one position was passed over.
---
 monoruby/src/codegen/runtime.rs     | 58 +++++++++++++++++------------
 monoruby/src/globals/store/class.rs |  9 ++++-
 2 files changed, 42 insertions(+), 25 deletions(-)

diff --git a/monoruby/src/codegen/runtime.rs b/monoruby/src/codegen/runtime.rs
index 18673c4..b57716b 100644
--- a/monoruby/src/codegen/runtime.rs
+++ b/monoruby/src/codegen/runtime.rs
@@ -315,32 +315,36 @@ fn entered_by(globals: &Globals, cfp: executor::Cfp) -> Option<(bool, CallSiteId
     }
 }
 
-/// The calling frame's 1-based position in the run of consecutive
-/// super-linked frames executing the same method body on the same
-/// receiver — i.e. which occurrence of the body in the receiver's
-/// ancestor chain this frame corresponds to — plus the send callsite
-/// that entered the bottom of the run.
+/// The calling frame's 1-based position among the super-linked frames
+/// executing the same method body on the same receiver — i.e. which
+/// occurrence of the body in the receiver's ancestor chain this frame
+/// corresponds to — plus the send callsite that entered the bottom of
+/// the run.
 ///
 /// Returns `(k, entry_callid, exact)`. `entry_callid` is `Some` only
 /// when the run's bottom frame was entered by a plain method call
 /// (its callsite name is the name the method was invoked under).
-/// `exact` is `false` when a link could not be decoded (invoker
-/// boundary etc.), in which case `k` is a lower bound and callers
+/// `exact` is `false` when a frame of the chain could not be found, in
+/// which case `k` is a lower bound and callers
 /// should fall back to frame-independent resolution.
 fn super_run(vm: &Executor, globals: &Globals, method_fid: FuncId) -> (usize, Option<CallSiteId>, bool) {
     // `super` in a block resolves against the enclosing method: locate
     // the frame executing the method body (the outermost lfp, stopping
     // at a proc-method boundary, mirroring `method_func_id`).
-    let home = vm.cfp().lfp().outermost().0;
-    let mut cfp = vm.cfp();
-    while cfp.lfp() != home {
-        match cfp.prev() {
-            Some(prev) => cfp = prev,
-            None => return (1, None, false),
+    let home_frame = |mut cfp: executor::Cfp| {
+        let home = cfp.lfp().outermost().0;
+        while cfp.lfp() != home {
+            cfp = cfp.prev()?;
         }
-    }
-    let self_val = home.self_val();
+        Some(cfp)
+    };
+    let Some(mut cfp) = home_frame(vm.cfp()) else {
+        return (1, None, false);
+    };
+    let self_val = cfp.lfp().self_val();
     let mut k = 1;
+    // The called name is known only if every link runs the same body.
+    let mut same_body = true;
     loop {
         match entered_by(globals, cfp) {
             Some((true, _)) => {
@@ -350,18 +354,26 @@ fn super_run(vm: &Executor, globals: &Globals, method_fid: FuncId) -> (usize, Op
                 let Some(caller) = cfp.prev() else {
                     return (k, None, false);
                 };
-                if caller.method_func_id() == method_fid && caller.lfp().self_val() == self_val {
-                    k += 1;
-                    cfp = caller;
+                if caller.lfp().self_val() == self_val {
+                    if caller.method_func_id() == method_fid {
+                        k += 1;
+                    } else {
+                        // `super` from a different method: the body may
+                        // have run in front of it too.
+                        same_body = false;
+                    }
+                    match home_frame(caller) {
+                        Some(home) => cfp = home,
+                        None => return (k, None, false),
+                    }
                     continue;
                 }
-                // `super` from a different method (an ordinary super
-                // chain hop): the run ends here; the called name is not
-                // recoverable from this link.
                 return (k, None, true);
             }
-            Some((false, callid)) => return (k, Some(callid), true),
-            None => return (k, None, false),
+            Some((false, callid)) => return (k, same_body.then_some(callid), true),
+            // Entered from native code (`send`, `Method#call` etc.): the
+            // first of the chain.
+            None => return (k, None, true),
         }
     }
 }
diff --git a/monoruby/src/globals/store/class.rs b/monoruby/src/globals/store/class.rs
index 420b259..c268f48 100644
--- a/monoruby/src/globals/store/class.rs
+++ b/monoruby/src/globals/store/class.rs
@@ -2916,11 +2916,16 @@ impl Store {
         while let Some(m) = module {
             if !m.has_origin() && self.body_dispatched_by(m.id(), name, current_func_id) {
                 matched += 1;
-                if occurrence.is_none_or(|k| matched >= k)
+                if occurrence == Some(matched) {
+                    return self
+                        .search_method(m.superclass()?, name)
+                        .and_then(|entry| entry.func_id());
+                }
+                if occurrence.is_none()
                     && let Some(super_module) = m.superclass()
                     && let Some(entry) = self.search_method(super_module, name)
                     && let Some(super_fid) = entry.func_id()
-                    && (occurrence.is_some() || super_fid != current_func_id)
+                    && super_fid != current_func_id
                 {
                     return Some(super_fid);
                 }
-- 
2.43.0


From 4ed6fda99c0254d849266a22032a5ceb7c6b79a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:05:46 +0000
Subject: [PATCH 46/67] fix: raise NameError for the visibility of an unknown
 method

private and public with an unknown name raised NoMethodError.
---
 monoruby/src/globals/store/class.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/monoruby/src/globals/store/class.rs b/monoruby/src/globals/store/class.rs
index c268f48..78f38f9 100644
--- a/monoruby/src/globals/store/class.rs
+++ b/monoruby/src/globals/store/class.rs
@@ -2358,7 +2358,11 @@ impl Store {
             // `func_id` is `None`, which `is_private` / `is_public` and
             // friends treat as "no method present" — so the spec's
             // `m.private_instance_methods.include?(:foo)` would be false.
-            let (func_id, inherited_vis, _) = self.find_method_for_class(class_id, *name)?;
+            let (func_id, inherited_vis, _) = self
+                .find_method_for_class(class_id, *name)
+                .map_err(|_| {
+                    MonorubyErr::undefined_method(*name, self.get_class_name(class_id))
+                })?;
             // A visibility shadow copies the *inherited* func_id, which goes
             // stale if the inherited method has since been redefined. Resolve
             // the current inherited definition from the superclass (the
-- 
2.43.0


From 1c7b7d132fc9b0eb2c1979448483c024de6bd247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:05:46 +0000
Subject: [PATCH 47/67] fix: refuse to remove an undefined method

remove_method took away the mark left by undef_method, which made the
inherited method callable again.
---
 monoruby/src/globals/store/class.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/monoruby/src/globals/store/class.rs b/monoruby/src/globals/store/class.rs
index 78f38f9..3d0ef4c 100644
--- a/monoruby/src/globals/store/class.rs
+++ b/monoruby/src/globals/store/class.rs
@@ -2200,7 +2200,11 @@ impl Store {
             self.set_bop_redefine(class_id, func_name);
         }
         self.check_refined_basic_op(class_id, func_name);
-        if self.classes[class_id].methods.remove(&func_name).is_none() {
+        let methods = &mut self.classes[class_id].methods;
+        // An undefined method (`undef`) is not there to be removed either.
+        if methods.get(&func_name).is_none_or(|e| e.func_id.is_none())
+            || methods.remove(&func_name).is_none()
+        {
             Err(MonorubyErr::nameerr(format!(
                 "method `{}' not defined in {}",
                 func_name,
-- 
2.43.0


From c87198d3abec32ea08b07366f8e76e7f93136bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:05:46 +0000
Subject: [PATCH 48/67] fix: do not call a removed method through its changed
 visibility

A class that had only changed the visibility of an inherited method
kept calling it after it was removed from the ancestor.
---
 monoruby/src/globals/store/class.rs | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/monoruby/src/globals/store/class.rs b/monoruby/src/globals/store/class.rs
index 3d0ef4c..8d3064b 100644
--- a/monoruby/src/globals/store/class.rs
+++ b/monoruby/src/globals/store/class.rs
@@ -1153,9 +1153,8 @@ impl ClassInfoTable {
         // not a definition: CRuby records a ZSUPER entry that re-resolves the
         // real definition at call time, so redefining the ancestor's method
         // afterwards is picked up through the subclass too. Remember the
-        // shadow and keep walking; its own `func_id` (a copy taken when the
-        // declaration ran) is only the fallback for when no ancestor defines
-        // the name any more.
+        // shadow and keep walking; when no ancestor defines the name any
+        // more there is no method.
         let mut shadow: Option<&MethodTableEntry> = None;
         loop {
             if !refinements.is_empty() {
@@ -1209,16 +1208,7 @@ impl ClassInfoTable {
                     visi = Some(entry.visibility);
                 }
             }
-            module = match module.superclass() {
-                Some(module) => module,
-                None => {
-                    let shadow = shadow?;
-                    return Some(MethodTableEntry {
-                        visibility: visi.unwrap_or(shadow.visibility),
-                        ..shadow.clone()
-                    });
-                }
-            };
+            module = module.superclass()?;
         }
     }
 
-- 
2.43.0


From f9eaf722b7767a71501ae1f7b2a85c173f85ba74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:05:47 +0000
Subject: [PATCH 49/67] fix: hand private methods to method_missing in
 public_send

public_send and Symbol#to_proc raised NoMethodError for a private
method although the receiver defines method_missing.
---
 monoruby/src/builtins/kernel.rs        | 26 ++++++++++----------------
 monoruby/src/globals/store/function.rs | 25 +++++++++----------------
 2 files changed, 19 insertions(+), 32 deletions(-)

diff --git a/monoruby/src/builtins/kernel.rs b/monoruby/src/builtins/kernel.rs
index 609a505..9c73c0d 100644
--- a/monoruby/src/builtins/kernel.rs
+++ b/monoruby/src/builtins/kernel.rs
@@ -4607,24 +4607,17 @@ fn public_send(
     let method = ary[0].expect_symbol_or_string(globals)?;
     let receiver = lfp.self_val();
     // public_send only allows public methods.
-    // Both private and protected are rejected unconditionally.
+    // Both private (by way of `method_missing`) and protected are rejected
+    // unconditionally.
     let class_id = receiver.class();
-    if let Some(entry) = globals.check_method_for_class(class_id, method) {
-        match entry.visibility() {
-            Visibility::Private => {
-                return Err(MonorubyErr::private_method_called(
-                    globals, method, receiver,
-                ));
-            }
-            Visibility::Protected => {
-                return Err(MonorubyErr::protected_method_called(
-                    globals, method, receiver,
-                ));
-            }
-            _ => {}
-        }
+    if let Some(entry) = globals.check_method_for_class(class_id, method)
+        && entry.visibility() == Visibility::Protected
+    {
+        return Err(MonorubyErr::protected_method_called(
+            globals, method, receiver,
+        ));
     }
-    vm.invoke_method_inner(
+    vm.invoke_method_inner_vis(
         globals,
         method,
         receiver,
@@ -4638,6 +4631,7 @@ fn public_send(
         } else {
             None
         },
+        false,
     )
 }
 
diff --git a/monoruby/src/globals/store/function.rs b/monoruby/src/globals/store/function.rs
index 4295560..bcb1940 100644
--- a/monoruby/src/globals/store/function.rs
+++ b/monoruby/src/globals/store/function.rs
@@ -581,25 +581,18 @@ pub(crate) fn symbol_to_proc_body(
     let rest_val = lfp.arg(1);
     let rest_array = rest_val.as_array();
     let rest: Vec<Value> = rest_array.iter().cloned().collect();
-    // public_send semantics: reject private and protected methods.
+    // public_send semantics: reject private and protected methods
+    // (a private one by way of `method_missing`).
     let class_id = recv.class();
-    if let Some(entry) = globals.check_method_for_class(class_id, symbol) {
-        match entry.visibility() {
-            Visibility::Private => {
-                return Err(MonorubyErr::private_method_called(
-                    globals, symbol, recv,
-                ));
-            }
-            Visibility::Protected => {
-                return Err(MonorubyErr::protected_method_called(
-                    globals, symbol, recv,
-                ));
-            }
-            _ => {}
-        }
+    if let Some(entry) = globals.check_method_for_class(class_id, symbol)
+        && entry.visibility() == Visibility::Protected
+    {
+        return Err(MonorubyErr::protected_method_called(
+            globals, symbol, recv,
+        ));
     }
     let bh = lfp.block();
-    vm.invoke_method_inner(globals, symbol, recv, &rest, bh, None)
+    vm.invoke_method_inner_vis(globals, symbol, recv, &rest, bh, None, false)
 }
 
 ///
-- 
2.43.0


From f4c4bd97a799875f2691a205038f7000b3766423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:05:47 +0000
Subject: [PATCH 50/67] fix: refuse too small an index in compiled array
 assignment

The index that had the length added once already was taken as a
negative index again, so the assignment hit another element instead of
raising IndexError.
---
 monoruby/src/codegen/arch/aarch64/compile/index.rs | 1 +
 monoruby/src/codegen/arch/x86_64/compile/index.rs  | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/monoruby/src/codegen/arch/aarch64/compile/index.rs b/monoruby/src/codegen/arch/aarch64/compile/index.rs
index b1c1159..9bf4195 100644
--- a/monoruby/src/codegen/arch/aarch64/compile/index.rs
+++ b/monoruby/src/codegen/arch/aarch64/compile/index.rs
@@ -208,6 +208,7 @@ impl Codegen {
                 monoasm_arm64! { &mut self.jit,
                     adds x3, x3, x0;        // index += len, set flags
                     b.pl checked;           // normalized non-negative -> recheck
+                    sub x3, x3, x0;         // the generic path takes the original index
                     b generic;              // past the start -> out of range
                 }
                 self.jit.bind_label(checked.clone());
diff --git a/monoruby/src/codegen/arch/x86_64/compile/index.rs b/monoruby/src/codegen/arch/x86_64/compile/index.rs
index fbf4edf..d93c3fc 100644
--- a/monoruby/src/codegen/arch/x86_64/compile/index.rs
+++ b/monoruby/src/codegen/arch/x86_64/compile/index.rs
@@ -193,6 +193,8 @@ impl Codegen {
                 monoasm! { &mut self.jit,
                     addq rsi, rax;
                     jns  checked;
+                    // the generic path takes the original index.
+                    subq rsi, rax;
                     jmp  generic;
                 }
                 self.jit.select_page(0);
-- 
2.43.0


From 28a727ea79c551416d0c233428b564000d2edc9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:05:47 +0000
Subject: [PATCH 51/67] fix: answer nil from slice! with a range behind the end

---
 monoruby/src/builtins/array.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/monoruby/src/builtins/array.rs b/monoruby/src/builtins/array.rs
index 81804db..550f1f4 100644
--- a/monoruby/src/builtins/array.rs
+++ b/monoruby/src/builtins/array.rs
@@ -3978,6 +3978,9 @@ fn slice_(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) ->
                 None => return Ok(Value::nil()),
             }
         };
+        if start > ary.len() {
+            return Ok(Value::nil());
+        }
         // nil end means array length (endless range)
         let end = if range.end().is_nil() {
             ary.len().saturating_sub(1)
-- 
2.43.0


From 5d447b2028c489495debde076a65a8621951fd3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:05:47 +0000
Subject: [PATCH 52/67] fix: keep to the present length in Array#reverse_each

After the block had made the array shorter, nil was yielded for the
elements that were gone.
---
 monoruby/builtins/array.rb | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/monoruby/builtins/array.rb b/monoruby/builtins/array.rb
index c98d23e..2b27a47 100644
--- a/monoruby/builtins/array.rb
+++ b/monoruby/builtins/array.rb
@@ -103,14 +103,12 @@ class Array
 
   def reverse_each
     return self.to_enum(:reverse_each) { self.size } unless block_given?
-    len = self.size
-    if len == 0
-      return self
-    end
-    i = len - 1
-    while i >= 0
-      yield self[i]
+    i = self.size
+    while i > 0
       i -= 1
+      yield self[i]
+      # the block may have made the array shorter
+      i = self.size if i > self.size
     end
     self
   end
-- 
2.43.0


From 18d6b5a4c84f2da59430246a288faa2488c51146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:05:47 +0000
Subject: [PATCH 53/67] fix: collect only what the block answered in Array#map

When the block made the array shorter the result was filled up with
nil.
---
 monoruby/builtins/array.rb | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/monoruby/builtins/array.rb b/monoruby/builtins/array.rb
index 2b27a47..106b4c3 100644
--- a/monoruby/builtins/array.rb
+++ b/monoruby/builtins/array.rb
@@ -137,10 +137,10 @@ class Array
 
   def map
     return self.to_enum(:map) { self.size } unless block_given?
-    res = Array.new(self.size)
+    res = []
     i = 0
     while i < self.size
-      res[i] = yield(self[i])
+      res << yield(self[i])
       i += 1
     end
     res
-- 
2.43.0


From d55bd6a40d627e2626af0032b5ea6ea3dbacfd6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:24:50 +0000
Subject: [PATCH 54/67] fix: leave a private constant out of constants although
 an ancestor has it

---
 monoruby/src/globals/store/class/constants.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/monoruby/src/globals/store/class/constants.rs b/monoruby/src/globals/store/class/constants.rs
index f10939d..6f2db78 100644
--- a/monoruby/src/globals/store/class/constants.rs
+++ b/monoruby/src/globals/store/class/constants.rs
@@ -325,10 +325,7 @@ impl ClassInfoTable {
         let mut seen = HashSet::default();
         loop {
             for (name, state) in self[class.id()].constants.iter() {
-                if state.is_private() {
-                    continue;
-                }
-                if seen.insert(*name) {
+                if seen.insert(*name) && !state.is_private() {
                     names.push(*name);
                 }
             }
-- 
2.43.0


From 059179be616e7c4247f7ba8beceedca831b6fcbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:24:51 +0000
Subject: [PATCH 55/67] fix: notice a changed visibility of a constant at warm
 references

private_constant left the caches of constant references valid, so
qualified references went on reading the constant.
---
 monoruby/src/builtins/module.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/monoruby/src/builtins/module.rs b/monoruby/src/builtins/module.rs
index 5e968e6..e0a2c15 100644
--- a/monoruby/src/builtins/module.rs
+++ b/monoruby/src/builtins/module.rs
@@ -2850,6 +2850,7 @@ fn set_constants_visibility(globals: &mut Globals, lfp: Lfp, make_private: bool)
         }
     }
     Ok(lfp.self_val())
+    Globals::const_version_inc();
 }
 
 ///
-- 
2.43.0


From d0dd513e3a07b8ff160c0a75ba67ac113083586d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:24:51 +0000
Subject: [PATCH 56/67] fix: do not cache the answer of const_missing

The answer was kept as if it were the value of the constant, so a
reference never called the method again.
---
 monoruby/src/codegen/runtime.rs    | 14 ++++++++------
 monoruby/src/executor.rs           | 12 ++++++++++++
 monoruby/src/executor/constants.rs |  5 ++++-
 3 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/monoruby/src/codegen/runtime.rs b/monoruby/src/codegen/runtime.rs
index b57716b..b22e295 100644
--- a/monoruby/src/codegen/runtime.rs
+++ b/monoruby/src/codegen/runtime.rs
@@ -1402,12 +1402,14 @@ pub(crate) extern "C" fn vm_get_constant(
     }
     match vm.find_constant(globals, site_id) {
         Ok((value, base_class)) => {
-            globals.store[site_id].cache = Some(ConstCache {
-                version: const_version,
-                base_class,
-                self_class: self_key,
-                value,
-            });
+            if !vm.const_missing_answered() {
+                globals.store[site_id].cache = Some(ConstCache {
+                    version: const_version,
+                    base_class,
+                    self_class: self_key,
+                    value,
+                });
+            }
             Some(value)
         }
         Err(err) => {
diff --git a/monoruby/src/executor.rs b/monoruby/src/executor.rs
index 003f387..d1dec54 100644
--- a/monoruby/src/executor.rs
+++ b/monoruby/src/executor.rs
@@ -303,6 +303,9 @@ pub struct Executor {
     /// immediately after, on every arch and in both tiers) has it, so
     /// the location is recorded there.
     pending_const_loc: Option<(ClassId, IdentId)>,
+    /// Set when `const_missing` answered the last constant reference: such
+    /// an answer is not to be cached.
+    const_missing_answered: bool,
     /// Stack of definition sites (source, `Loc`) for the
     /// `method_added` / `singleton_method_added` / `const_added` hooks
     /// currently running.
@@ -426,6 +429,7 @@ impl std::default::Default for Executor {
             adapter_blocks: Vec::new(),
             break_barriers: Vec::new(),
             pending_const_loc: None,
+            const_missing_answered: false,
             hook_sites: Vec::new(),
             temp_stack: vec![],
             method_missing_style: MethodMissingStyle::Plain,
@@ -2151,9 +2155,17 @@ impl Executor {
         globals: &mut Globals,
         site_id: ConstSiteId,
     ) -> Result<(Value, Option<Value>)> {
+        self.const_missing_answered = false;
         self.find_constant_impl(globals, site_id, true)
     }
 
+    ///
+    /// Whether the last [`Self::find_constant`] was answered by `const_missing`.
+    ///
+    pub(crate) fn const_missing_answered(&self) -> bool {
+        self.const_missing_answered
+    }
+
     ///
     /// Like [`Self::find_constant`], but the *final* constant name is resolved
     /// without falling back to `const_missing` — an undefined constant yields
diff --git a/monoruby/src/executor/constants.rs b/monoruby/src/executor/constants.rs
index 8dfdf96..4af832b 100644
--- a/monoruby/src/executor/constants.rs
+++ b/monoruby/src/executor/constants.rs
@@ -290,7 +290,10 @@ impl Executor {
             None,
             None,
         ) {
-            Ok(v) => Ok(v),
+            Ok(v) => {
+                self.const_missing_answered = true;
+                Ok(v)
+            }
             Err(e) if matches!(e.kind, MonorubyErrKind::Name(..)) => {
                 // The default `Module#const_missing` raises a bare
                 // NameError; re-attach the name and the receiver (the
-- 
2.43.0


From a35774ab6b46a83cd07151d75dc879460596d094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:24:51 +0000
Subject: [PATCH 57/67] fix: report an overtaken class variable on assignment

Assigning to a class variable that an ancestor defined later set the
one of the class instead of raising RuntimeError, and defined? called
it undefined.
---
 monoruby/src/builtins/module.rs               | 11 ++++----
 monoruby/src/codegen/runtime.rs               |  2 +-
 monoruby/src/executor.rs                      | 15 ++++++++--
 monoruby/src/globals/store/class/constants.rs | 28 ++++++++-----------
 4 files changed, 30 insertions(+), 26 deletions(-)

diff --git a/monoruby/src/builtins/module.rs b/monoruby/src/builtins/module.rs
index e0a2c15..5dfab0e 100644
--- a/monoruby/src/builtins/module.rs
+++ b/monoruby/src/builtins/module.rs
@@ -2592,9 +2592,10 @@ fn class_variable_set(
     // (`Executor::set_class_variable`); shadowing would otherwise make a
     // later `class_variable_get` raise "class variable … is overtaken".
     let module = globals.store[class_id].get_module();
-    let target = match globals.search_class_variables_superclass(module, name) {
-        Some((m, _)) => m.id(),
-        None => class_id,
+    let target = match globals.get_class_variable(module, name) {
+        Ok((m, _)) => m.id(),
+        Err(err) if globals.is_class_variable_defined(module, name) => return Err(err),
+        Err(_) => class_id,
     };
     globals.set_class_variable(target, name, val);
     Ok(val)
@@ -2635,7 +2636,7 @@ fn class_variable_defined(
     let class_id = lfp.self_val().as_class_id();
     let name = coerce_to_class_var_name(vm, globals, lfp.self_val(), lfp.arg(0))?;
     let module = globals.store[class_id].get_module();
-    Ok(Value::bool(globals.get_class_variable(module, name).is_ok()))
+    Ok(Value::bool(globals.is_class_variable_defined(module, name)))
 }
 
 /// Coerce a name argument for `Module#class_variable_*` to an `IdentId`,
@@ -2849,8 +2850,8 @@ fn set_constants_visibility(globals: &mut Globals, lfp: Lfp, make_private: bool)
             globals.store[class_id].set_constant_public(name);
         }
     }
-    Ok(lfp.self_val())
     Globals::const_version_inc();
+    Ok(lfp.self_val())
 }
 
 ///
diff --git a/monoruby/src/codegen/runtime.rs b/monoruby/src/codegen/runtime.rs
index b22e295..f6e93a7 100644
--- a/monoruby/src/codegen/runtime.rs
+++ b/monoruby/src/codegen/runtime.rs
@@ -2189,7 +2189,7 @@ pub(super) extern "C" fn defined_cvar(
     globals: &mut Globals,
     name: IdentId,
 ) -> Value {
-    if vm.find_class_variable(globals, name).is_ok() {
+    if vm.is_class_variable_defined(globals, name) {
         defined_frozen_str("class variable")
     } else {
         Value::nil()
diff --git a/monoruby/src/executor.rs b/monoruby/src/executor.rs
index d1dec54..47e5929 100644
--- a/monoruby/src/executor.rs
+++ b/monoruby/src/executor.rs
@@ -2385,6 +2385,14 @@ impl Executor {
         globals.get_class_variable(parent, name).map(|(_, v)| v)
     }
 
+    ///
+    /// Whether a class variable with `name` can be found, be it overtaken or not.
+    ///
+    pub(crate) fn is_class_variable_defined(&self, globals: &mut Globals, name: IdentId) -> bool {
+        self.get_parent(globals)
+            .is_ok_and(|parent| globals.is_class_variable_defined(parent, name))
+    }
+
     ///
     /// Set a class variable with `name` to `value`.
     ///
@@ -2395,9 +2403,10 @@ impl Executor {
         val: Value,
     ) -> Result<()> {
         let parent = self.get_parent(globals)?;
-        let parent = match globals.search_class_variables_superclass(parent, name) {
-            Some((module, _)) => module,
-            None => parent,
+        let parent = match globals.get_class_variable(parent, name) {
+            Ok((module, _)) => module,
+            Err(err) if globals.is_class_variable_defined(parent, name) => return Err(err),
+            Err(_) => parent,
         };
         globals.set_class_variable(parent.id(), name, val);
         Ok(())
diff --git a/monoruby/src/globals/store/class/constants.rs b/monoruby/src/globals/store/class/constants.rs
index 6f2db78..4d071f6 100644
--- a/monoruby/src/globals/store/class/constants.rs
+++ b/monoruby/src/globals/store/class/constants.rs
@@ -580,26 +580,20 @@ impl Globals {
     }
 
     ///
-    /// Search a class variable with *name* in the class of *module* and its superclasses.
+    /// Whether *module* or one of its superclasses has a class variable with *name*.
     ///
-    /// If found, return the value and the module which the class variable belongs to.
-    /// If not found, return None.
-    ///
-    pub(crate) fn search_class_variables_superclass(
-        &self,
-        mut module: Module,
-        name: IdentId,
-    ) -> Option<(Module, Value)> {
+    pub(crate) fn is_class_variable_defined(&self, module: Module, name: IdentId) -> bool {
+        let start_id = singleton_attached_class(&self.store.classes, module.id());
+        let mut module = self.store.classes[start_id].get_module();
         loop {
-            match self.store.classes[module.id()].get_cvar(name) {
-                Some(v) => return Some((module, v)),
-                None => match module.superclass() {
-                    Some(superclass) => module = superclass,
-                    None => break,
-                },
-            };
+            if self.store.classes[module.id()].get_cvar(name).is_some() {
+                return true;
+            }
+            match module.superclass() {
+                Some(superclass) => module = superclass,
+                None => return false,
+            }
         }
-        None
     }
 }
 
-- 
2.43.0


From 23ca834778e09b0ce0902f43525f4f6d9063ea8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:42:37 +0000
Subject: [PATCH 58/67] fix: call the operators of a module prepended to a
 built-in class

An operator replaced by prepending a module to Integer, Float, String and the
like was not called: only a definition in the class itself counted as a
redefinition of the operator.
---
 monoruby/src/builtins/module.rs        |  1 +
 monoruby/src/globals/store/basic_op.rs | 11 +++++++++++
 monoruby/src/globals/store/class.rs    | 26 ++++++++++++++++++++++++++
 3 files changed, 38 insertions(+)

diff --git a/monoruby/src/builtins/module.rs b/monoruby/src/builtins/module.rs
index 5dfab0e..7580c3f 100644
--- a/monoruby/src/builtins/module.rs
+++ b/monoruby/src/builtins/module.rs
@@ -2164,6 +2164,7 @@ fn prepend_features(
     globals
         .store
         .propagate_prepend_to_subclasses(base.id(), prepend_module);
+    globals.store.check_prepended_basic_ops();
     Ok(lfp.self_val())
 }
 
diff --git a/monoruby/src/globals/store/basic_op.rs b/monoruby/src/globals/store/basic_op.rs
index 7f5c3d2..579848d 100644
--- a/monoruby/src/globals/store/basic_op.rs
+++ b/monoruby/src/globals/store/basic_op.rs
@@ -177,6 +177,17 @@ impl BasicOpTable {
         self.armed && self.set.contains(&(class_id, name))
     }
 
+    /// The pairs that were not replaced outright so far.
+    pub(crate) fn intact_pairs(&self) -> Vec<(ClassId, IdentId)> {
+        if !self.armed {
+            return vec![];
+        }
+        self.set
+            .difference(&self.globally_redefined_set)
+            .copied()
+            .collect()
+    }
+
     /// Whether `name` is an operator some class gets a fast path for.
     pub(crate) fn is_basic_op_name(&self, name: IdentId) -> bool {
         self.names.contains(&name)
diff --git a/monoruby/src/globals/store/class.rs b/monoruby/src/globals/store/class.rs
index 8d3064b..3f67dd3 100644
--- a/monoruby/src/globals/store/class.rs
+++ b/monoruby/src/globals/store/class.rs
@@ -2436,6 +2436,32 @@ impl Store {
             self.set_bop_redefine(class_id, name);
         }
         self.check_refined_basic_op(class_id, name);
+        if self.basic_ops.is_basic_op_name(name) {
+            self.check_prepended_basic_ops();
+        }
+    }
+
+    ///
+    /// Methods of a module prepended to a class take the place of its basic
+    /// operations just as a redefinition does.
+    ///
+    pub(crate) fn check_prepended_basic_ops(&mut self) {
+        for (class_id, name) in self.basic_ops.intact_pairs() {
+            let class = self.classes[class_id].get_module();
+            if class.origin().is_none() {
+                continue;
+            }
+            let mut module = class.superclass();
+            while let Some(m) = module
+                && m.id() != class_id
+            {
+                if self.classes[m.id()].methods.contains_key(&name) {
+                    self.set_bop_redefine(class_id, name);
+                    break;
+                }
+                module = m.superclass();
+            }
+        }
     }
 
     ///
-- 
2.43.0


From ebfe070d9cc509bd8ef67cae140321e77962729b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:42:37 +0000
Subject: [PATCH 59/67] fix: call a redefined Integer#+ in Array#inject(:+)

---
 monoruby/src/builtins/array.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/monoruby/src/builtins/array.rs b/monoruby/src/builtins/array.rs
index 550f1f4..c80019a 100644
--- a/monoruby/src/builtins/array.rs
+++ b/monoruby/src/builtins/array.rs
@@ -1935,6 +1935,9 @@ fn inject(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) ->
     // dispatch entirely while elements stay in i64 range.
     if sym == IdentId::_ADD
         && let Some(acc_i) = res.try_fixnum()
+        && !globals
+            .store
+            .basic_op_redefined_for(INTEGER_CLASS, IdentId::_ADD)
     {
         let mut acc = acc_i;
         let len = self_.len();
-- 
2.43.0


From df5cf1a9bc8781d0ec1d44117ef48d58a13a2fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:42:37 +0000
Subject: [PATCH 60/67] fix: call == and ! that a subclass of String defines

---
 monoruby/src/executor/op.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/monoruby/src/executor/op.rs b/monoruby/src/executor/op.rs
index 7d6233f..5b95a9d 100644
--- a/monoruby/src/executor/op.rs
+++ b/monoruby/src/executor/op.rs
@@ -228,6 +228,10 @@ impl Executor {
         {
             return self.invoke_method_inner(globals, IdentId::_EQ, lhs, &[rhs], None, None);
         }
+        // A subclass of String or a singleton may have a `==` of its own.
+        if lhs.is_rstring_inner().is_some() && lhs.class() != STRING_CLASS {
+            return self.invoke_eq_raw_vis(globals, lhs, rhs, is_func_call);
+        }
         self.eq_values_vis_raw(globals, lhs, rhs, is_func_call)
     }
 
@@ -932,10 +936,12 @@ pub(crate) extern "C" fn not_value(
     lhs: Value,
     is_func_call: bool,
 ) -> Option<Value> {
-    if globals.store.basic_op_redefined()
+    // A subclass of String or a singleton may have a `!` of its own.
+    if (globals.store.basic_op_redefined()
         && globals
             .store
-            .basic_op_redefined_for(lhs.class(), IdentId::_NOT)
+            .basic_op_redefined_for(lhs.class(), IdentId::_NOT))
+        || (lhs.is_rstring_inner().is_some() && lhs.class() != STRING_CLASS)
     {
         return vm.invoke_method(globals, IdentId::_NOT, is_func_call, lhs, &[], None, None);
     }
-- 
2.43.0


From 8e5965755accaa8ecd89b50cb2229ae757c50128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:42:37 +0000
Subject: [PATCH 61/67] fix: let != ask a redefined ==

Integer, Float, String and Symbol answered != without asking a == that had been
redefined, and an aliased or redefined Integer#!= called itself without end.
---
 monoruby/src/builtins/numeric/float.rs             |  4 ++--
 monoruby/src/builtins/numeric/integer.rs           |  4 ++--
 monoruby/src/builtins/string.rs                    |  3 ++-
 monoruby/src/builtins/symbol.rs                    | 10 +++-------
 monoruby/src/codegen/jitgen/compile/method_call.rs |  5 ++++-
 monoruby/src/globals/store/class.rs                |  4 ++++
 6 files changed, 17 insertions(+), 13 deletions(-)

diff --git a/monoruby/src/builtins/numeric/float.rs b/monoruby/src/builtins/numeric/float.rs
index 4a29117..5140999 100644
--- a/monoruby/src/builtins/numeric/float.rs
+++ b/monoruby/src/builtins/numeric/float.rs
@@ -473,8 +473,8 @@ fn eq(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Res
 ///
 #[monoruby_builtin]
 fn ne(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Result<Value> {
-    let b = vm.ne_values_bool(globals, lfp.self_val(), lfp.arg(0))?;
-    Ok(Value::bool(b))
+    let b = vm.invoke_eq(globals, lfp.self_val(), lfp.arg(0))?;
+    Ok(Value::bool(!b))
 }
 
 ///
diff --git a/monoruby/src/builtins/numeric/integer.rs b/monoruby/src/builtins/numeric/integer.rs
index 817879f..a8af9a8 100644
--- a/monoruby/src/builtins/numeric/integer.rs
+++ b/monoruby/src/builtins/numeric/integer.rs
@@ -603,8 +603,8 @@ fn eq(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Res
 ///
 #[monoruby_builtin]
 fn ne(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Result<Value> {
-    let b = vm.ne_values_bool(globals, lfp.self_val(), lfp.arg(0))?;
-    Ok(Value::bool(b))
+    let b = vm.invoke_eq(globals, lfp.self_val(), lfp.arg(0))?;
+    Ok(Value::bool(!b))
 }
 
 ///
diff --git a/monoruby/src/builtins/string.rs b/monoruby/src/builtins/string.rs
index a4c9115..84c6461 100644
--- a/monoruby/src/builtins/string.rs
+++ b/monoruby/src/builtins/string.rs
@@ -476,7 +476,8 @@ fn eq(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Res
 /// a rhs that defines both `to_str` and a custom `==`.
 #[monoruby_builtin]
 fn ne(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Result<Value> {
-    Ok(Value::bool(!string_eq_bool(vm, globals, lfp)?))
+    let b = vm.invoke_eq(globals, lfp.self_val(), lfp.arg(0))?;
+    Ok(Value::bool(!b))
 }
 
 /// The full `String#==` predicate shared by `==`/`===`/`eql?` and the
diff --git a/monoruby/src/builtins/symbol.rs b/monoruby/src/builtins/symbol.rs
index 0192a9a..e373c01 100644
--- a/monoruby/src/builtins/symbol.rs
+++ b/monoruby/src/builtins/symbol.rs
@@ -276,13 +276,9 @@ fn eq(_: &mut Executor, _: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Result<Val
 }
 
 #[monoruby_builtin]
-fn ne(_: &mut Executor, _: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Result<Value> {
-    let lhs = lfp.self_val();
-    let rhs = lfp.arg(0);
-    match (lhs.as_symbol(), rhs.try_symbol()) {
-        (lhs, Some(rhs)) => Ok(Value::bool(lhs != rhs)),
-        (_, None) => Ok(Value::bool(true)),
-    }
+fn ne(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Result<Value> {
+    let b = vm.invoke_eq(globals, lfp.self_val(), lfp.arg(0))?;
+    Ok(Value::bool(!b))
 }
 
 #[cfg(test)]
diff --git a/monoruby/src/codegen/jitgen/compile/method_call.rs b/monoruby/src/codegen/jitgen/compile/method_call.rs
index 9b0a6c2..270a74e 100644
--- a/monoruby/src/codegen/jitgen/compile/method_call.rs
+++ b/monoruby/src/codegen/jitgen/compile/method_call.rs
@@ -538,7 +538,10 @@ impl<'a> JitContext<'a> {
                     // Declined: fall through to the ordinary builtin call.
                 }
                 InlineFuncInfo::InlineGenBinary(f) => {
-                    if let BinaryInlineOutcome::Done = self.inline_asm_binary(
+                    // `!=` has to ask a redefined `==`.
+                    if (callsite.name != Some(IdentId::_NEQ)
+                        || self.basic_op_assumable(recv_class, IdentId::_EQ))
+                        && let BinaryInlineOutcome::Done = self.inline_asm_binary(
                         state,
                         ir,
                         f,
diff --git a/monoruby/src/globals/store/class.rs b/monoruby/src/globals/store/class.rs
index 3f67dd3..900ac26 100644
--- a/monoruby/src/globals/store/class.rs
+++ b/monoruby/src/globals/store/class.rs
@@ -2493,6 +2493,10 @@ impl Store {
     fn set_bop_redefine(&mut self, class_id: ClassId, name: IdentId) {
         self.basic_ops.mark_redefined(class_id, name);
         self.invalidate_bop_fast_paths(class_id, name);
+        // `!=` is the negation of `==`.
+        if name == IdentId::_EQ && self.basic_ops.contains(class_id, IdentId::_NEQ) {
+            self.set_bop_redefine(class_id, IdentId::_NEQ);
+        }
     }
 
     ///
-- 
2.43.0


From 60773dbc8f74c85a56edcf92eb018280e19596c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:10:33 +0000
Subject: [PATCH 62/67] fix: let String#each_byte follow changes made by its
 block

---
 monoruby/builtins/string.rb | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/monoruby/builtins/string.rb b/monoruby/builtins/string.rb
index a5eddbd..9124c79 100644
--- a/monoruby/builtins/string.rb
+++ b/monoruby/builtins/string.rb
@@ -116,7 +116,11 @@ class String
 
   def each_byte(&block)
     return to_enum(:each_byte) unless block
-    bytes.each(&block)
+    i = 0
+    while i < bytesize
+      yield getbyte(i)
+      i += 1
+    end
     self
   end
 
-- 
2.43.0


From 7155bdbef40edef6d34dced2d9f7507741bb8eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:10:42 +0000
Subject: [PATCH 63/67] fix: iterate over a copy in String#each_char

The block may change the receiver, whose buffer was read on after it had been
freed.
---
 monoruby/src/builtins/string.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/monoruby/src/builtins/string.rs b/monoruby/src/builtins/string.rs
index 84c6461..afa690f 100644
--- a/monoruby/src/builtins/string.rs
+++ b/monoruby/src/builtins/string.rs
@@ -7500,8 +7500,9 @@ fn each_grapheme_cluster(
 fn each_char(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, pc: BytecodePtr) -> Result<Value> {
     let self_ = lfp.self_val();
     if let Some(bh) = lfp.block() {
-        let inner = self_.as_rstring_inner();
-        let enc = inner.encoding();
+        // The block may change the receiver.
+        let enc = self_.as_rstring_inner().encoding();
+        let inner = RStringInner::from_encoding(self_.as_rstring_inner(), enc);
         // Classify each one-character slice up front (cheap, O(1) per
         // char) so a later cr query doesn't re-scan — see `chars`.
         let chars = inner
-- 
2.43.0


From 25cdcacaea7321d27b6e91601271bfb62ba31d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:10:42 +0000
Subject: [PATCH 64/67] fix: remove the given suffix only once in String#chomp

---
 monoruby/src/builtins/string.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/monoruby/src/builtins/string.rs b/monoruby/src/builtins/string.rs
index afa690f..5650751 100644
--- a/monoruby/src/builtins/string.rs
+++ b/monoruby/src/builtins/string.rs
@@ -2551,13 +2551,8 @@ fn chomp_byte_end(bytes: &[u8], rs: &[u8]) -> usize {
             end
         }
     } else {
-        // Explicit separator: strip iteratively. Matches the
-        // pre-existing behaviour of `&str::trim_end_matches(rs)`.
-        let mut end = bytes.len();
-        while end >= rs.len() && &bytes[end - rs.len()..end] == rs {
-            end -= rs.len();
-        }
-        end
+        // Explicit separator: remove ONE.
+        bytes.strip_suffix(rs).unwrap_or(bytes).len()
     }
 }
 
-- 
2.43.0


From f42d74ca5a103144d5bfaa3767085f1cfc0a78a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:10:42 +0000
Subject: [PATCH 65/67] fix: accept all ranges in String#[]= and slice!

Ranges without an end raised TypeError, and an excluded end of 0 stood for the
end of the string.
---
 monoruby/src/builtins/string.rs | 138 ++++++++------------------------
 1 file changed, 34 insertions(+), 104 deletions(-)

diff --git a/monoruby/src/builtins/string.rs b/monoruby/src/builtins/string.rs
index 5650751..12ca061 100644
--- a/monoruby/src/builtins/string.rs
+++ b/monoruby/src/builtins/string.rs
@@ -1000,6 +1000,29 @@ fn conv_index(i: i64, len: usize) -> Option<usize> {
     }
 }
 
+/// The first character and the number of characters that *info* covers in a
+/// string of *len* characters, if it starts within the string.
+fn range_beg_len(
+    vm: &mut Executor,
+    globals: &mut Globals,
+    info: &RangeInner,
+    len: usize,
+) -> Result<Option<(usize, usize)>> {
+    let start = if info.start().is_nil() {
+        0
+    } else {
+        info.start().coerce_to_int_i64(vm, globals)?
+    };
+    let end = if info.end().is_nil() {
+        len as i64
+    } else {
+        let end = info.end().coerce_to_int_i64(vm, globals)?;
+        let end = if end < 0 { end + len as i64 } else { end };
+        end.saturating_add(!info.exclude_end() as i64)
+    };
+    Ok(conv_index(start, len).map(|start| (start, end.saturating_sub(start as i64).max(0) as usize)))
+}
+
 fn get_range(s: &str, index: usize, len: usize) -> std::ops::Range<usize> {
     let mut iter = s.char_indices().skip(index).peekable();
     let start = iter.peek().map(|(i, _)| *i).unwrap_or(s.len());
@@ -1365,35 +1388,11 @@ fn index_assign(
             return Ok(arg_val);
         }
         if let Some(info) = arg0_val.is_range() {
-            let start_raw = info.start().coerce_to_int_i64(vm, globals)?;
-            let end_raw = info.end().coerce_to_int_i64(vm, globals)? - info.exclude_end() as i64;
-            if start_raw > char_len as i64 {
+            let Some((start_char, count)) = range_beg_len(vm, globals, info, char_len)? else {
                 return Err(MonorubyErr::rangeerr(format!(
-                    "{start_raw}..{end_raw} out of range"
+                    "{} out of range",
+                    arg0_val.to_s(&globals.store)
                 )));
-            }
-            let start_char = match conv_index(start_raw, char_len) {
-                Some(i) => i,
-                None => {
-                    return Err(MonorubyErr::rangeerr(format!(
-                        "{start_raw}..{end_raw} out of range"
-                    )));
-                }
-            };
-            let end_char = if end_raw < 0 {
-                let e = char_len as i64 + end_raw;
-                if e < start_char as i64 {
-                    start_char.saturating_sub(1)
-                } else {
-                    e as usize
-                }
-            } else {
-                end_raw as usize
-            };
-            let count = if end_char >= start_char {
-                end_char - start_char + 1
-            } else {
-                0
             };
             let r = inner.get_range(start_char, count);
             replace_byte_range(globals, self_, r.start, r.end, &subst)?;
@@ -1407,52 +1406,14 @@ fn index_assign(
         *lfp.self_val().as_rstring_inner_mut() = RStringInner::from_string(lhs);
         Ok(arg_val)
     } else if let Some(info) = arg0_val.is_range() {
-        let char_len = len;
-        let start_raw = info.start().coerce_to_int_i64(vm, globals)?;
-        let end_raw = info.end().coerce_to_int_i64(vm, globals)? - info.exclude_end() as i64;
-        // CRuby: a positive Range begin past `length` raises, but
-        // begin == length is allowed (appends).
-        if start_raw > char_len as i64 {
+        let Some((start, count)) = range_beg_len(vm, globals, info, len)? else {
             return Err(MonorubyErr::rangeerr(format!(
-                "{}..{} out of range",
-                start_raw, end_raw
+                "{} out of range",
+                arg0_val.to_s(&globals.store)
             )));
-        }
-        let start_char = match conv_index(start_raw, char_len) {
-            Some(i) => i,
-            None => {
-                return Err(MonorubyErr::rangeerr(format!(
-                    "{}..{} out of range",
-                    start_raw, end_raw
-                )));
-            }
-        };
-        // For Ranges, a negative end out-of-range with a positive
-        // begin acts as a zero-count delete (no-op append at start).
-        let end_char = if end_raw < 0 {
-            let e = char_len as i64 + end_raw;
-            if e < start_char as i64 {
-                start_char.saturating_sub(1)
-            } else {
-                e as usize
-            }
-        } else {
-            end_raw as usize
         };
-        let byte_start = lhs
-            .char_indices()
-            .nth(start_char)
-            .map(|(i, _)| i)
-            .unwrap_or(lhs.len());
-        let byte_end = if end_char >= start_char {
-            lhs.char_indices()
-                .nth(end_char + 1)
-                .map(|(i, _)| i)
-                .unwrap_or(lhs.len())
-        } else {
-            byte_start
-        };
-        lhs.replace_range(byte_start..byte_end, &subst);
+        let r = get_range(&lhs, start, count);
+        lhs.replace_range(r, &subst);
         *lfp.self_val().as_rstring_inner_mut() = RStringInner::from_string(lhs);
         Ok(arg_val)
     } else {
@@ -2386,20 +2347,9 @@ fn slice_(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) ->
             }
         } else {
             let info = arg0.is_range().unwrap();
-            let s_raw = info.start().coerce_to_int_i64(vm, globals)?;
-            let e_raw = info.end().coerce_to_int_i64(vm, globals)? - info.exclude_end() as i64;
-            let start = match conv_index(s_raw, char_len) {
-                Some(i) => i,
-                None => return Ok(Value::nil()),
-            };
-            let end = if e_raw >= 0 {
-                e_raw as usize
-            } else if char_len as i64 + e_raw >= 0 {
-                (char_len as i64 + e_raw) as usize
-            } else {
+            let Some((start, count)) = range_beg_len(vm, globals, info, char_len)? else {
                 return Ok(Value::nil());
             };
-            let count = if end >= start { end - start + 1 } else { 0 };
             (start, count)
         };
         let r = self_.as_rstring_inner().get_range(start, count);
@@ -2433,28 +2383,8 @@ fn slice_(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) ->
         }
     } else if let Some(info) = lfp.arg(0).is_range() {
         let len = lhs.chars().count();
-        let (start, end) = (
-            info.start().coerce_to_int_i64(vm, globals)?,
-            info.end().coerce_to_int_i64(vm, globals)? - info.exclude_end() as i64,
-        );
-        let (start, len) = match (
-            conv_index(start, len),
-            if end >= 0 {
-                Some(end as usize)
-            } else if len as i64 + end >= 0 {
-                Some((len as i64 + end) as usize)
-            } else {
-                None
-            },
-        ) {
-            (Some(start), Some(end)) => {
-                if start > end {
-                    (start, 0)
-                } else {
-                    (start, end - start + 1)
-                }
-            }
-            _ => return Ok(Value::nil()),
+        let Some((start, len)) = range_beg_len(vm, globals, info, len)? else {
+            return Ok(Value::nil());
         };
         let r = get_range(&lhs, start, len);
         Ok(slice_sub(lfp, lhs, r))
-- 
2.43.0


From bc0302bf5227982bf62960f10e1abf8f4dabbca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:10:43 +0000
Subject: [PATCH 66/67] fix: notice that a part of a string is ASCII only

---
 monoruby/src/value/rvalue/string.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/monoruby/src/value/rvalue/string.rs b/monoruby/src/value/rvalue/string.rs
index e8242a4..3399dc6 100644
--- a/monoruby/src/value/rvalue/string.rs
+++ b/monoruby/src/value/rvalue/string.rs
@@ -1839,10 +1839,24 @@ impl RStringInner {
         RStringInner::from(
             SmallVec::from_slice(&parent.as_bytes()[start..end]),
             parent.encoding(),
-            Self::propagated_cr(parent, start, end),
+            Self::substring_cr(parent, start, end),
         )
     }
 
+    /// [`propagated_cr`](Self::propagated_cr), except that a part of a string
+    /// with non-ASCII characters may have none of them.
+    fn substring_cr(parent: &RStringInner, start: usize, end: usize) -> CodeRange {
+        let cr = Self::propagated_cr(parent, start, end);
+        if matches!(cr, CodeRange::Valid)
+            && parent.encoding().is_ascii_compatible()
+            && parent.as_bytes()[start..end].is_ascii()
+        {
+            CodeRange::SevenBit
+        } else {
+            cr
+        }
+    }
+
     /// Owned, with the byte buffer spilled to the heap (so its address
     /// is stable and shareable).
     fn owned_spilled(&self) -> bool {
@@ -2440,7 +2454,7 @@ pub(crate) fn string_substring(mut parent: Value, start: usize, end: usize) -> V
     debug_assert!(start <= end && end <= inner.len());
     let len = end - start;
     let ty = inner.encoding();
-    let cr = RStringInner::propagated_cr(inner, start, end);
+    let cr = RStringInner::substring_cr(inner, start, end);
     // Share only when the copy would have to heap-allocate anyway
     // (an inline copy is at most STRING_INLINE_CAP bytes and cheaper
     // than a root allocation + GC edge).
-- 
2.43.0


From 23980d79043604c33446317c5f84624d41a22dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:10:43 +0000
Subject: [PATCH 67/67] fix: notice that a string became ASCII only by a
 replacement

---
 monoruby/src/value/rvalue/string.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/monoruby/src/value/rvalue/string.rs b/monoruby/src/value/rvalue/string.rs
index 3399dc6..a04ae0b 100644
--- a/monoruby/src/value/rvalue/string.rs
+++ b/monoruby/src/value/rvalue/string.rs
@@ -2377,6 +2377,7 @@ impl RStringInner {
             && matches!(prev_cr, CodeRange::Valid | CodeRange::SevenBit)
             && is_utf8_char_boundary(self.as_bytes(), start)
             && is_utf8_char_boundary(self.as_bytes(), end);
+        let removed_ascii = self.as_bytes()[start..end].is_ascii();
 
         self.splice_bytes(start, end, repl_bytes);
         self.ty = result_enc;
@@ -2393,8 +2394,13 @@ impl RStringInner {
         // Fast path 2: receiver and replacement are both well-formed
         // UTF-8 (or pure ASCII) and the splice respects character
         // boundaries — the result is well-formed UTF-8 too.
+        // Only the last of the non-ASCII characters may be gone.
         if utf8_boundaries_ok && matches!(repl_cr, CodeRange::SevenBit | CodeRange::Valid) {
-            self.cr.set(CodeRange::Valid);
+            self.cr.set(if matches!(repl_cr, CodeRange::Valid) || removed_ascii {
+                CodeRange::Valid
+            } else {
+                CodeRange::Unknown
+            });
             return Ok(());
         }
         // Slow path: re-classify the whole buffer. Caching the
-- 
2.43.0

