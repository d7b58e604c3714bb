From 4118206b59afe32620fc07d7a641612c2c78bea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:17 +0000
Subject: [PATCH 01/13] fix: multiplication yielding exactly minInt raised
 Overflow

When both factors have magnitude 2^31 (2^15 on 32-bit hosts) and opposite signs
the product is the most negative int, which is representable.
---
 src/runtime/interp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/interp.c b/src/runtime/interp.c
index 5c61ffb..194f338 100644
--- a/src/runtime/interp.c
+++ b/src/runtime/interp.c
@@ -1448,7 +1448,7 @@ EXTERN value interprete(int mode, bytecode_t bprog, int code_size, CODE* rprog)
         if( x < 0 ) { x = -x; isNegative = 1; }
         if( y < 0 ) { y = -y; isNegative = !isNegative; }
         if( y > x ) { tmp = y; y = x; x = tmp; }
-        if( y > MaxChunk ) 
+        if( y > MaxChunk + 1 ) 
 	  goto raise_overflow;
         if( x <= MaxChunk )
           { accu = Val_long(isNegative?(-(x * y)):(x * y)); }
-- 
2.43.0


From f6c9eebcd5904c9e7d2b20c3bb5292f22f2953fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:07 +0000
Subject: [PATCH 02/13] fix: Word.~ raised Overflow on the word 2^62

---
 src/mosmllib/Word.mlp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mosmllib/Word.mlp b/src/mosmllib/Word.mlp
index 04959af..2f33523 100644
--- a/src/mosmllib/Word.mlp
+++ b/src/mosmllib/Word.mlp
@@ -54,7 +54,7 @@ in
     fun xorb (x, y) = xorb_ x y;
     fun notb x      = xorb_ x (fromInt ~1); 
 
-    val ~ = fn w => fromInt(~(toInt w)) 
+    val ~ = fn w : word => fromInt 0 - w
 
     fun << (w, k) = 
 	if toInt k >= WORDSIZE orelse toInt k < 0 then fromInt 0
-- 
2.43.0


From 3aeadf51f98cfe3f470d8d2f2f88303c66d67947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:07 +0000
Subject: [PATCH 03/13] fix: Word.toLargeInt did not raise Overflow on
 unrepresentable words

---
 src/mosmllib/Word.mlp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mosmllib/Word.mlp b/src/mosmllib/Word.mlp
index 2f33523..3fe36d8 100644
--- a/src/mosmllib/Word.mlp
+++ b/src/mosmllib/Word.mlp
@@ -36,7 +36,6 @@ in
     prim_val toIntX  : word -> int = 1 "identity";
     prim_val fromInt : int -> word = 1 "identity";
 
-    prim_val toLargeInt   : word -> int = 1 "identity";
     prim_val toLargeIntX  : word -> int = 1 "identity";
     prim_val fromLargeInt : int -> word = 1 "identity";
 
@@ -171,4 +170,6 @@ in
 	if w > MAXPOS then raise Overflow
 	else toIntX w
 
+    val toLargeInt = toInt
+
 end
-- 
2.43.0


From 4d1bc7a7488d69abe5bce3f7a0961a5766ed2d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:55 +0000
Subject: [PATCH 04/13] fix: Word.scan did not raise Overflow on numerals too
 large for a word

---
 src/mosmllib/Word.mlp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mosmllib/Word.mlp b/src/mosmllib/Word.mlp
index 3fe36d8..27a04f7 100644
--- a/src/mosmllib/Word.mlp
+++ b/src/mosmllib/Word.mlp
@@ -118,8 +118,12 @@ in
 			      NONE           => SOME (res, src)
 			    | SOME (c, rest) => 
 				  if isDigit c then 
-				      digr (fromInt factor * res + hexval c) 
-				      rest
+				      let val d = hexval c
+				      in
+					  if res > (fromInt ~1 - d) div fromInt factor
+					  then raise Overflow
+					  else digr (fromInt factor * res + d) rest
+				      end
 				  else SOME (res, src)
 		  in 
 		      if isDigit c1 then digr (hexval c1) src1 
-- 
2.43.0


From 68b7e180f85307339b3679e7d6b7986a72dbd84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:27 +0000
Subject: [PATCH 05/13] fix: String.extract(s, i, NONE) raises Subscript for
 every negative i

---
 src/mosmllib/String.sml | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mosmllib/String.sml b/src/mosmllib/String.sml
index 590a6c6..29c6838 100644
--- a/src/mosmllib/String.sml
+++ b/src/mosmllib/String.sml
@@ -67,7 +67,9 @@ fun implode cs =
   in (init cs 0; newstr) end;
 
 fun extract (s, i, slicelen) =
-    let val n = case slicelen of NONE => size s - i | SOME n => n
+    let val n = case slicelen of 
+	            NONE   => if i<0 then raise Subscript else size s - i
+		  | SOME n => n
 	val newstr = if i<0 orelse n<0 orelse n>size s-i then raise Subscript
 		     else mkstring_ n
     in blit_ s i newstr 0 n; newstr end;
-- 
2.43.0


From 157d29ef458bdc9d141d81f5c352dce13171100c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:31 +0000
Subject: [PATCH 06/13] fix: output_value of an integer that needs more than 32
 bits on 64-bit machines

---
 src/runtime/extern.c | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/runtime/extern.c b/src/runtime/extern.c
index 4970291..220872e 100644
--- a/src/runtime/extern.c
+++ b/src/runtime/extern.c
@@ -141,6 +141,25 @@ value extern_val(chan, v)       /* ML */
   extern_table_used = 0;
   res = emit_all(v);
   stat_free((char *) extern_table);
+#ifdef SIXTYFOUR
+  if (extern_pos == 0 && res != (uint32) res) {
+    /* An integer that does not fit in the one 32-bit word which the fast
+       format has for an unallocated value: use the compact format. */
+    long n = Long_val(v);
+    stat_free((char *) extern_block);
+    putword(chan, Compact_magic_number);
+    putword(chan, 0);                   /* num_objects */
+    putword(chan, 0);                   /* size_32 */
+    putword(chan, 0);                   /* size_64 */
+    if (n < -(1L << 31) || n >= (1L << 31)) {
+      putch(chan, CODE_INT64);
+      putword(chan, n >> 32);
+    } else
+      putch(chan, CODE_INT32);
+    putword(chan, n);
+    return Val_unit;
+  }
+#endif
   putword(chan, Extern_magic_number);
   putword(chan, extern_pos);
   if (extern_pos == 0)
-- 
2.43.0


From b1a8e027396aff44b28da4797c08005f831a6e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:31 +0000
Subject: [PATCH 07/13] fix: string_mlval/mlval_string used a 4-byte header
 offset on 64-bit machines

---
 src/runtime/mosml.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/runtime/mosml.c b/src/runtime/mosml.c
index a84c682..d98ff44 100644
--- a/src/runtime/mosml.c
+++ b/src/runtime/mosml.c
@@ -1359,15 +1359,15 @@ value string_mlval(value val)	/* ML */
      not used from now on. */
   if (extern_pos == 0)
     {
-      s = alloc_string(8);
+      s = alloc_string(2 * sizeof(asize_t));
       ((asize_t *)s)[0] = (asize_t)extern_pos; 
       ((asize_t *)s)[1] = (asize_t)res;    
     }
   else
     {
-      s = alloc_string(4 + extern_pos * sizeof(unsigned long));
+      s = alloc_string(sizeof(asize_t) + extern_pos * sizeof(unsigned long));
       ((asize_t *)s)[0] = (asize_t)extern_pos; 
-      bcopy((char *) extern_block, &Byte(s, 4), 
+      bcopy((char *) extern_block, &Byte(s, sizeof(asize_t)), 
 	    extern_pos * sizeof(unsigned long));
     }
   stat_free((char *) extern_block);
@@ -1402,11 +1402,11 @@ value mlval_string(value s)	/* ML */
   hd = Hd_val (res);
   color = Color_hd (hd);
   Assert (color == White || color == Black);
-  if (bhsize + 4 > string_length(s)) {
+  if (bhsize + sizeof(asize_t) > string_length(s)) {
     Hd_val (res) = hd;                      /* Avoid confusing the GC. */
     failwith ("mlval_string: truncated object");
   }
-  bcopy(&Byte(s, 4), Hp_val(res), bhsize);
+  bcopy(&Byte(s, sizeof(asize_t)), Hp_val(res), bhsize);
   adjust_pointers((value*)(Hp_val (res)), whsize, color);
 
   return res;
-- 
2.43.0


From 522d994f21a46047bdf576f00b4e68c31ab931d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:31 +0000
Subject: [PATCH 08/13] fix: raise Subscript, not Overflow, for huge start
 indexes and lengths of slices and copies

---
 src/mosmllib/Array.mlp           | 4 ++--
 src/mosmllib/Array2.sml          | 2 +-
 src/mosmllib/ArraySlice.sml      | 4 ++--
 src/mosmllib/Substring.sml       | 2 +-
 src/mosmllib/Vector.mlp          | 2 +-
 src/mosmllib/Weak.mlp            | 2 +-
 src/mosmllib/Word8Array.mlp      | 4 ++--
 src/mosmllib/Word8ArraySlice.sml | 4 ++--
 src/mosmllib/Word8Vector.mlp     | 2 +-
 9 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/mosmllib/Array.mlp b/src/mosmllib/Array.mlp
index 50d7678..5a5d213 100644
--- a/src/mosmllib/Array.mlp
+++ b/src/mosmllib/Array.mlp
@@ -95,7 +95,7 @@ fun copy {src=a1: 'a array, dst=a2: 'a array, di=i2} =
 	and a2 = from_array a2
 	val n = length_ a1
     in
-	if i2<0 orelse i2+n > length_ a2 then 
+	if i2<0 orelse i2 > length_ a2 - n then 
 	    raise Subscript
 	else		(* copy from high to low *)
 	    let fun hi2lo j = 
@@ -109,7 +109,7 @@ fun copyVec {src=a1: 'a vector, dst=a2: 'a array, di=i2} =
     let val a2 = from_array a2
 	val n = lengthv_ a1
     in
-	if i2<0 orelse i2+n > length_ a2 then 
+	if i2<0 orelse i2 > length_ a2 - n then 
 	    raise Subscript
 	else 
 	    let fun lo2hi j = 
diff --git a/src/mosmllib/Array2.sml b/src/mosmllib/Array2.sml
index 7a087d2..a891dd0 100644
--- a/src/mosmllib/Array2.sml
+++ b/src/mosmllib/Array2.sml
@@ -82,7 +82,7 @@ fun stop len i NONE =
     if i<0 orelse i>len then raise Subscript
     else len
   | stop len i (SOME n) = 
-    if i<0 orelse n<0 orelse i+n>len then raise Subscript
+    if i<0 orelse n<0 orelse i>len-n then raise Subscript
     else i+n;
 
 fun foldi RowMajor f b { base = ref (a, m, n), row, col, nrows, ncols } = 
diff --git a/src/mosmllib/ArraySlice.sml b/src/mosmllib/ArraySlice.sml
index 71b4782..e4c0fa2 100644
--- a/src/mosmllib/ArraySlice.sml
+++ b/src/mosmllib/ArraySlice.sml
@@ -72,7 +72,7 @@ fun copy {src=(a1,i1,n) : 'a slice, dst=a2: 'a array, di=i2} =
     let val a1 = from_array a1
 	and a2 = from_array a2
     in
-	if i2<0 orelse i2+n > length_ a2 then raise Subscript
+	if i2<0 orelse i2 > length_ a2 - n then raise Subscript
 	else if i1 < i2 then		(* copy from high to low *)
 	         let fun hi2lo j = 
 		     if j >= 0 then
@@ -91,7 +91,7 @@ fun copyVec {src : 'a VectorSlice.slice, dst=a2: 'a array, di=i2} =
     let val (a1, i1, n) = VectorSlice.base src
 	val a2 = from_array a2
     in
-	if i2<0 orelse i2+n > length_ a2 then raise Subscript
+	if i2<0 orelse i2 > length_ a2 - n then raise Subscript
 	else 
 	    let fun lo2hi j = if j < n then
 		(update_ a2 (i2+j) (subv_ a1 (i1+j)); lo2hi (j+1))
diff --git a/src/mosmllib/Substring.sml b/src/mosmllib/Substring.sml
index bf50639..a7db869 100644
--- a/src/mosmllib/Substring.sml
+++ b/src/mosmllib/Substring.sml
@@ -62,7 +62,7 @@ fun slice ((s', i', n'), i, NONE) =
      *  0 <= i' <= i'+i <= i'+i + (n'-i) = i'+n' <= size s' *)
     else raise Subscript
   | slice ((s', i', n'), i, SOME n) =    
-    if 0 <= i andalso 0 <= n andalso i+n <= n' then (s', i'+i, n)
+    if 0 <= i andalso 0 <= n andalso i <= n'-n then (s', i'+i, n)
     (* If the argument is valid, then so is the result:
      *  0 <= i' <= i'+i <= i'+i + n <= i'+n' <= size s' *)
     else raise Subscript
diff --git a/src/mosmllib/Vector.mlp b/src/mosmllib/Vector.mlp
index cd21988..17c5d7e 100644
--- a/src/mosmllib/Vector.mlp
+++ b/src/mosmllib/Vector.mlp
@@ -120,7 +120,7 @@ fun sliceend (a, i, NONE) =
         if i<0 orelse i>length a then raise Subscript
 	else length a
   | sliceend (a, i, SOME n) = 
-	if i<0 orelse n<0 orelse i+n>length a then raise Subscript
+	if i<0 orelse n<0 orelse i>length a-n then raise Subscript
 	else i+n;
 
 fun foldli f e a = 
diff --git a/src/mosmllib/Weak.mlp b/src/mosmllib/Weak.mlp
index c450c4d..1f01229 100644
--- a/src/mosmllib/Weak.mlp
+++ b/src/mosmllib/Weak.mlp
@@ -116,7 +116,7 @@ fun sliceend (a, i, NONE) =
         if i<0 orelse i>length a then raise Subscript
 	else length a
   | sliceend (a, i, SOME n) = 
-	if i<0 orelse n<0 orelse i+n>length a then raise Subscript
+	if i<0 orelse n<0 orelse i>length a-n then raise Subscript
 	else i+n;
 
 fun foldli f e (slice as (a, i, _)) = 
diff --git a/src/mosmllib/Word8Array.mlp b/src/mosmllib/Word8Array.mlp
index f77a0a2..9b7015b 100644
--- a/src/mosmllib/Word8Array.mlp
+++ b/src/mosmllib/Word8Array.mlp
@@ -74,14 +74,14 @@ fun vector (ref a) =
 fun copy {src = ref a1: array, dst = ref a2: array, di=i2} =
     let val n = length_ a1
     in
-	if i2 < 0 orelse i2+n > length_ a2 then raise Subscript
+	if i2<0 orelse i2 > length_ a2 - n then raise Subscript
 	else blitaa_ a1 0 a2 i2 n
     end
 
 fun copyVec {src = a1: vector, dst = ref a2: array, di=i2} =
     let val n = lengthv_ a1
     in
-	if i2 < 0 orelse i2+n > length_ a2 then raise Subscript
+	if i2<0 orelse i2 > length_ a2 - n then raise Subscript
 	else blitva_ a1 0 a2 i2 n
     end
 
diff --git a/src/mosmllib/Word8ArraySlice.sml b/src/mosmllib/Word8ArraySlice.sml
index bc7deb9..9bc0b5d 100644
--- a/src/mosmllib/Word8ArraySlice.sml
+++ b/src/mosmllib/Word8ArraySlice.sml
@@ -73,7 +73,7 @@ fun copy {src=(a1,i1,n) : slice, dst=a2: array, di=i2} =
     let val a1 = from_array a1
 	and a2 = from_array a2
     in
-	if i2<0 orelse i2+n > length_ a2 then raise Subscript
+	if i2<0 orelse i2 > length_ a2 - n then raise Subscript
 	else if i1 < i2 then		(* copy from high to low *)
 	         let fun hi2lo j = 
 		     if j >= 0 then
@@ -92,7 +92,7 @@ fun copyVec {src : vector_slice, dst=a2: array, di=i2} =
     let val (a1, i1, n) = Word8VectorSlice.base src
 	val a2 = from_array a2
     in
-	if i2<0 orelse i2+n > length_ a2 then raise Subscript
+	if i2<0 orelse i2 > length_ a2 - n then raise Subscript
 	else 
 	    let fun lo2hi j = if j < n then
 		(update_ a2 (i2+j) (subv_ a1 (i1+j)); lo2hi (j+1))
diff --git a/src/mosmllib/Word8Vector.mlp b/src/mosmllib/Word8Vector.mlp
index efa95b8..e6c5c9e 100644
--- a/src/mosmllib/Word8Vector.mlp
+++ b/src/mosmllib/Word8Vector.mlp
@@ -119,7 +119,7 @@ fun sliceend (a, i, NONE) =
         if i<0 orelse i>length a then raise Subscript
 	else length a
   | sliceend (a, i, SOME n) = 
-	if i<0 orelse n<0 orelse i+n>length a then raise Subscript
+	if i<0 orelse n<0 orelse i>length a-n then raise Subscript
 	else i+n;
 
 fun foldli f e a = 
-- 
2.43.0


From fb39a487736baa92bd5ad6ebb58eb1d27bf9fd57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:26 +0000
Subject: [PATCH 09/13] fix: keep the position when flushing or writing a large
 block after seeking back inside the output buffer

---
 src/runtime/io.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/runtime/io.c b/src/runtime/io.c
index f14e531..7ddf755 100644
--- a/src/runtime/io.c
+++ b/src/runtime/io.c
@@ -99,13 +99,18 @@ static void really_write(int fd, char * p, int n)
 
 value flush(struct channel * channel)            /* ML */
 {
-  int n;
+  int n, back;
   n = channel->max - channel->buff;
   if (n > 0) {
+    /* If we did a seek_out inside the buffer, curr is below max */
+    back = channel->max - channel->curr;
     really_write(channel->fd, channel->buff, n);
     channel->offset += n;
     channel->curr = channel->buff;
     channel->max  = channel->buff;
+    if (back > 0 
+        && lseek(channel->fd, channel->offset - back, 0) != -1)
+      channel->offset -= back;
   }
   return Atom(0);
 }
@@ -144,6 +149,7 @@ void putblock(struct channel * channel, char * p, unsigned n)
   if (channel->curr == channel->buff && n >= m) {
     really_write(channel->fd, p, n);
     channel->offset += n;
+    channel->max = channel->buff;   /* p covers what was in the buffer */
   } else if (n <= m) {
     bcopy(p, channel->curr, n);
     channel->curr += n;
-- 
2.43.0


From 3869be3e1f673493708f09663741be501be71eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:45 +0000
Subject: [PATCH 10/13] fix: heap growth during a sweep must advance fl_merge
 when the chunk follows the last free block

---
 src/runtime/freelist.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/runtime/freelist.c b/src/runtime/freelist.c
index 11e1fc0..a39e953 100644
--- a/src/runtime/freelist.c
+++ b/src/runtime/freelist.c
@@ -215,6 +215,8 @@ void fl_add_block (bp)
   if (bp > fl_last){
     Next (fl_last) = bp;
     Next (bp) = NULL;
+    /* As below: [fl_merge] must stay the last block before [gc_sweep_hp]. */
+    if (fl_last == fl_merge && bp <= gc_sweep_hp) fl_merge = bp;
   }else{
     char *cur, *prev;
 
-- 
2.43.0


From 539965448360aa68a7f1bbfa7032b2817a3db17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:49 +0000
Subject: [PATCH 11/13] fix: ceil, round and trunc of reals at the limits of
 the int range

ceil and trunc raised Overflow for the real equal to the least int, and
ceil, round did not raise it for 2^62.
---
 src/runtime/mosml.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/runtime/mosml.c b/src/runtime/mosml.c
index d98ff44..420705f 100644
--- a/src/runtime/mosml.c
+++ b/src/runtime/mosml.c
@@ -163,12 +163,12 @@ value sml_ceil(value f)              /* ML */
   value v;
   r = Double_val(f);
   if( r >= 0.0 )
-    { if( r > ((double) (Max_long)) ) goto raise_ceil;
+    { if( r >= ((double) Max_long + 1) ) goto raise_ceil;
       i = (long) r;
       if( r > ((double) i) ) i += 1;
     }
   else
-    { if( r <= ((double) (Min_long-1)) ) goto raise_ceil;
+    { if( r < ((double) Min_long) ) goto raise_ceil;
       i = (long) r;
     }
   v = Val_long(i);
@@ -207,7 +207,7 @@ value sml_round(value f)              /* ML */
   if( Long_val(v) != i )  goto raise_round; 
 #else
   r = rint(Double_val(f));
-  if ((r > (double) (Max_long)) || (r < (double)(Min_long))) goto raise_round;
+  if ((r >= (double) Max_long + 1) || (r < (double)(Min_long))) goto raise_round;
   i = (long) r;
   v = Val_long(i);
 #endif
@@ -224,7 +224,7 @@ value sml_trunc(value f)              /* ML */
   long i;
   value v;
   r = Double_val(f);
-  if ((r >= (double) (Max_long+1)) || (r <= (double)(Min_long-1))) 
+  if ((r >= (double) Max_long + 1) || (r < (double)(Min_long)))
     goto raise_trunc;
   i = (long) r;
   v = Val_long(i);
-- 
2.43.0


From a2c9e1950e9d2ec226ca849addc0261c5ab216fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:56 +0000
Subject: [PATCH 12/13] fix: PackRealLittle.fromBytes must use the first eight
 bytes of a longer vector

---
 src/mosmllib/PackRealLittle.sml | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mosmllib/PackRealLittle.sml b/src/mosmllib/PackRealLittle.sml
index f4897f5..491a88b 100644
--- a/src/mosmllib/PackRealLittle.sml
+++ b/src/mosmllib/PackRealLittle.sml
@@ -15,7 +15,11 @@ fun reverse vec = reverse_gen Word8Vector.length Word8Vector.sub vec
 structure Big = PackRealBig
 
 fun toBytes r = reverse(Big.toBytes r)
-fun fromBytes vec = Big.fromBytes(reverse vec)
+fun fromBytes vec =
+    Big.fromBytes(
+        reverse_gen Word8VectorSlice.length Word8VectorSlice.sub (
+            Word8VectorSlice.slice(vec, 0, SOME bytesPerElem)))
+
 fun subVec (vec, i) =
     Big.fromBytes(
         reverse_gen Word8VectorSlice.length Word8VectorSlice.sub (
-- 
2.43.0


From b09d45048e3671bb78c895f25e47fa32bc16182f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:56 +0000
Subject: [PATCH 13/13] fix: PackReal subVec, subArr and update raise
 Subscript, not Overflow, for huge indices

---
 src/mosmllib/PackRealBig.sml    | 9 ++++++---
 src/mosmllib/PackRealLittle.sml | 9 ++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/mosmllib/PackRealBig.sml b/src/mosmllib/PackRealBig.sml
index c71a6ed..1ab1580 100644
--- a/src/mosmllib/PackRealBig.sml
+++ b/src/mosmllib/PackRealBig.sml
@@ -18,13 +18,16 @@ fun fromBytes vec =
         (* Raises Subscript if bytesPerElem > Vector.length vec *)
         vecDouble_ (Word8VectorSlice.vector((Word8VectorSlice.slice(vec, 0, SOME bytesPerElem))))
 
+(* Raises Subscript where i*bytesPerElem is not even an int *)
+fun offset i = i*bytesPerElem handle Overflow => raise Subscript
+
 fun subVec (vec, i) =
-    fromBytes (Word8VectorSlice.vector((Word8VectorSlice.slice(vec, i*bytesPerElem, SOME bytesPerElem))))
+    fromBytes (Word8VectorSlice.vector((Word8VectorSlice.slice(vec, offset i, SOME bytesPerElem))))
 
 fun subArr (arr, i) =
-    fromBytes (Word8ArraySlice.vector((Word8ArraySlice.slice(arr, i*bytesPerElem, SOME bytesPerElem))))
+    fromBytes (Word8ArraySlice.vector((Word8ArraySlice.slice(arr, offset i, SOME bytesPerElem))))
 
 fun update (arr, i, r) =
-    Word8Array.copyVec {src=toBytes r, dst=arr, di=i*bytesPerElem}
+    Word8Array.copyVec {src=toBytes r, dst=arr, di=offset i}
 
 end
diff --git a/src/mosmllib/PackRealLittle.sml b/src/mosmllib/PackRealLittle.sml
index 491a88b..1ce86af 100644
--- a/src/mosmllib/PackRealLittle.sml
+++ b/src/mosmllib/PackRealLittle.sml
@@ -20,17 +20,20 @@ fun fromBytes vec =
         reverse_gen Word8VectorSlice.length Word8VectorSlice.sub (
             Word8VectorSlice.slice(vec, 0, SOME bytesPerElem)))
 
+(* Raises Subscript where i*bytesPerElem is not even an int *)
+fun offset i = i*bytesPerElem handle Overflow => raise Subscript
+
 fun subVec (vec, i) =
     Big.fromBytes(
         reverse_gen Word8VectorSlice.length Word8VectorSlice.sub (
-            Word8VectorSlice.slice(vec, i*bytesPerElem, SOME bytesPerElem)))
+            Word8VectorSlice.slice(vec, offset i, SOME bytesPerElem)))
 
 fun subArr(vec, i) =
     Big.fromBytes(
         reverse_gen Word8ArraySlice.length Word8ArraySlice.sub (
-            Word8ArraySlice.slice(vec, i*bytesPerElem, SOME bytesPerElem)))
+            Word8ArraySlice.slice(vec, offset i, SOME bytesPerElem)))
 
 fun update(arr, i, r) =
-    Word8Array.copyVec {src=toBytes r, dst=arr, di=i*bytesPerElem}
+    Word8Array.copyVec {src=toBytes r, dst=arr, di=offset i}
 
 end
-- 
2.43.0

