From 58ba15bf0ef969a16f7bdd4846025c1d4d37cc82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:20 +0000
Subject: [PATCH 01/19] fix: hash_size of SHA-224 is 28 and of RIPEMD-160 is 20

The hash_size methods returned 24 and 32, which is not the length of the
strings returned by result.  Authenticated transforms built with
transform_then_hash / transform_and_hash inherited the wrong tag_size, so that
auth_check_transform_string rejected every valid message.
---
 src/cryptokit.ml | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cryptokit.ml b/src/cryptokit.ml
index e061d9e..cde14df 100644
--- a/src/cryptokit.ml
+++ b/src/cryptokit.ml
@@ -1098,7 +1098,7 @@ let sha1 () = new sha1
 class sha224 =
   object(self)
     val context = sha224_init()
-    method hash_size = 24
+    method hash_size = 28
     method add_substring src ofs len =
       if ofs < 0 || len < 0 || ofs > Bytes.length src - len
       then invalid_arg "sha224#add_substring";
@@ -1220,7 +1220,7 @@ let keccak sz = new sha3 sz false
 class ripemd160 =
   object(self)
     val context = ripemd160_init()
-    method hash_size = 32
+    method hash_size = 20
     method add_substring src ofs len =
       if ofs < 0 || len < 0 || ofs > Bytes.length src - len
       then invalid_arg "ripemd160#add_substring";
-- 
2.43.0


From beab5e19115c38a6d648698afde7e6f4bf3d7f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:20 +0000
Subject: [PATCH 02/19] fix: Chacha20 with a 12-byte IV accepts exactly the
 32-bit counters

The bound was written 0x1_000_000L (2^24) instead of 2^32, and negative
counters were accepted and silently truncated.
---
 src/cryptokit.ml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cryptokit.ml b/src/cryptokit.ml
index cde14df..d90a562 100644
--- a/src/cryptokit.ml
+++ b/src/cryptokit.ml
@@ -1017,7 +1017,7 @@ class chacha20 ?iv ?(ctr = 0L) key =
         | None -> Bytes.make 8 '\000'
         | Some s ->
             if String.length s = 8
-            || String.length s = 12 && ctr < 0x1_000_000L
+            || String.length s = 12 && ctr >= 0L && ctr <= 0xFFFF_FFFFL
             then Bytes.of_string s
             else raise (Error Wrong_IV_size) in
       chacha20_cook_key key iv ctr
-- 
2.43.0


From be5ddfe11e5c0857d98589f062b1daa4ddd53219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:20 +0000
Subject: [PATCH 03/19] fix: Chacha20-Poly1305 message limit is 2^38 - 64 bytes
 for 12-byte IVs

Keystream block 0 provides the Poly1305 key, hence only 2^32 - 1 blocks are
available for the message.  With the previous limit of 2^38 bytes the 32-bit
block counter wraps around and the Poly1305 key block is reused as keystream.
---
 src/cryptokit.ml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cryptokit.ml b/src/cryptokit.ml
index d90a562..d446b3f 100644
--- a/src/cryptokit.ml
+++ b/src/cryptokit.ml
@@ -1755,7 +1755,7 @@ class chapoly_encrypt ?(header = "") ~iv key =
   and cipherlen = ref 0L in
   (* Maximum length for encrypted data *)
   let maxlen =
-    if String.length iv = 12 then 0x4000000000L else Int64.max_int in
+    if String.length iv = 12 then 0x3FFFFFFFC0L else Int64.max_int in
   (* The stream cipher that wraps Chacha20 with hash updates *)
   let enc = object
     method transform src soff dst doff len =
-- 
2.43.0


From e3c22f09338cf8eb692d0d989f5101167de6af8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:20 +0000
Subject: [PATCH 04/19] fix: check the source range in
 Block.cbc_encrypt#transform

The source block was accessed through the unchecked xor_bytes primitive, so
out-of-range offsets read memory outside the byte array.
---
 src/cryptokit.ml | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cryptokit.ml b/src/cryptokit.ml
index d446b3f..a459776 100644
--- a/src/cryptokit.ml
+++ b/src/cryptokit.ml
@@ -654,6 +654,8 @@ class cbc_encrypt ?iv:iv_init (cipher : block_cipher) =
     val iv = make_initial_iv blocksize iv_init
     method blocksize = blocksize
     method transform src src_off dst dst_off =
+      if src_off < 0 || src_off > Bytes.length src - blocksize
+      then invalid_arg "cbc_encrypt#transform";
       xor_bytes src src_off iv 0 blocksize;
       cipher#transform iv 0 dst dst_off;
       Bytes.blit dst dst_off iv 0 blocksize
-- 
2.43.0


From 7e5cc8157d6b443cd0033a6cbfe391a2c3b2f187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:20 +0000
Subject: [PATCH 05/19] fix: wiping an AES key leaves a valid number of rounds

'\016' is decimal 16 in OCaml; with 16 rounds the primitives read past the
end of the key schedule.  14 is the largest number of rounds.
---
 src/cryptokit.ml | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cryptokit.ml b/src/cryptokit.ml
index a459776..4e50a09 100644
--- a/src/cryptokit.ml
+++ b/src/cryptokit.ml
@@ -511,7 +511,7 @@ class aes_encrypt key =
       aes_encrypt ckey src src_ofs dst dst_ofs
     method wipe =
       wipe_bytes ckey;
-      Bytes.set ckey (Bytes.length ckey - 1) '\016'
+      Bytes.set ckey (Bytes.length ckey - 1) '\014'
   end
 
 class aes_decrypt key =
@@ -529,7 +529,7 @@ class aes_decrypt key =
       aes_decrypt ckey src src_ofs dst dst_ofs
     method wipe =
       wipe_bytes ckey;
-      Bytes.set ckey (Bytes.length ckey - 1) '\016'
+      Bytes.set ckey (Bytes.length ckey - 1) '\014'
   end
 
 class blowfish_encrypt key =
-- 
2.43.0


From cd49c0ff404fc52ec72271fbeabb97e072881855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:20 +0000
Subject: [PATCH 06/19] fix: declare the length argument of caml_MD5Update as
 uintnat

This is its type in the OCaml runtime.  With unsigned, the length of inputs
of 4 GiB or more was truncated.
---
 src/stubs-md5.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stubs-md5.c b/src/stubs-md5.c
index ceccb32..7434eef 100644
--- a/src/stubs-md5.c
+++ b/src/stubs-md5.c
@@ -30,7 +30,7 @@ struct MD5Context {
 
 CAMLextern void caml_MD5Init (struct MD5Context *context);
 CAMLextern void caml_MD5Update (struct MD5Context *context,
-                           unsigned char *buf, unsigned len);
+                           unsigned char *buf, uintnat len);
 CAMLextern void caml_MD5Final (unsigned char *digest, struct MD5Context *ctx);
 
 #define Context_val(v) ((struct MD5Context *) String_val(v))
-- 
2.43.0


From 239614dd827507a6d84a21802e9ddae46aee2d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:20 +0000
Subject: [PATCH 07/19] fix: caml_ghash_init does not use its argument after an
 allocation

key was not registered as a GC root and was dereferenced after
caml_alloc_custom, which can move or free it.
---
 src/stubs-ghash.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/stubs-ghash.c b/src/stubs-ghash.c
index 479f0dd..4e8ee46 100644
--- a/src/stubs-ghash.c
+++ b/src/stubs-ghash.c
@@ -45,11 +45,13 @@ CAMLprim value caml_ghash_init(value key)
     return key;
   } else {
     struct ghash_context * ctx = caml_stat_alloc(sizeof(struct ghash_context));
-    value res =
+    value res;
+    ghash_init(ctx, &Byte_u(key, 0));
+    /* key is not used past this point, so it need not be a GC root */
+    res =
       caml_alloc_custom(&ghash_context_ops,
                         sizeof(struct ghash_context *),
                         0, 1);
-    ghash_init(ctx, &Byte_u(key, 0));
     Context_val(res) = ctx;
     return res;
   }
-- 
2.43.0


From c71a75988ecbf67846853f4e6703e7a207ac2194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:20 +0000
Subject: [PATCH 08/19] fix: do not truncate lengths of 4 GiB or more passed to
 zlib

avail_in and avail_out are 32 bits wide while used_in and used_out were
computed from the full lengths, so that part of the input was silently
dropped.
---
 src/stubs-zlib.c | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/stubs-zlib.c b/src/stubs-zlib.c
index 4cdf7d1..035ae22 100644
--- a/src/stubs-zlib.c
+++ b/src/stubs-zlib.c
@@ -92,6 +92,11 @@ value caml_zlib_deflateInit(value vlevel, value expect_header)
   return vzs;
 }
 
+/* zlib counts available bytes with type uInt, which can be narrower than
+   OCaml lengths.  Present at most 2^31-1 bytes at a time to zlib. */
+#define Avail_val(v) \
+  ((uInt) (Long_val(v) <= 0x7FFFFFFF ? Long_val(v) : 0x7FFFFFFF))
+
 static int caml_zlib_flush_table[] = 
 { Z_NO_FLUSH, Z_SYNC_FLUSH, Z_FULL_FLUSH, Z_FINISH };
 
@@ -106,13 +111,13 @@ value caml_zlib_deflate(value vzs, value srcbuf, value srcpos, value srclen,
   value res;
 
   zs->next_in = &Byte_u(srcbuf, Long_val(srcpos));
-  zs->avail_in = Long_val(srclen);
+  zs->avail_in = Avail_val(srclen);
   zs->next_out = &Byte_u(dstbuf, Long_val(dstpos));
-  zs->avail_out = Long_val(dstlen);
+  zs->avail_out = Avail_val(dstlen);
   retcode = deflate(zs, caml_zlib_flush_table[Int_val(vflush)]);
   if (retcode < 0) caml_zlib_error("Zlib.deflate", vzs);
-  used_in = Long_val(srclen) - zs->avail_in;
-  used_out = Long_val(dstlen) - zs->avail_out;
+  used_in = Avail_val(srclen) - zs->avail_in;
+  used_out = Avail_val(dstlen) - zs->avail_out;
   zs->next_in = NULL;         /* not required, but cleaner */
   zs->next_out = NULL;        /* (avoid dangling pointers into Caml heap) */
   res = caml_alloc_small(3, 0);
@@ -151,14 +156,14 @@ value caml_zlib_inflate(value vzs, value srcbuf, value srcpos, value srclen,
   value res;
 
   zs->next_in = &Byte_u(srcbuf, Long_val(srcpos));
-  zs->avail_in = Long_val(srclen);
+  zs->avail_in = Avail_val(srclen);
   zs->next_out = &Byte_u(dstbuf, Long_val(dstpos));
-  zs->avail_out = Long_val(dstlen);
+  zs->avail_out = Avail_val(dstlen);
   retcode = inflate(zs, caml_zlib_flush_table[Int_val(vflush)]);
   if (retcode < 0 || retcode == Z_NEED_DICT)
     caml_zlib_error("Zlib.inflate", vzs);
-  used_in = Long_val(srclen) - zs->avail_in;
-  used_out = Long_val(dstlen) - zs->avail_out;
+  used_in = Avail_val(srclen) - zs->avail_in;
+  used_out = Avail_val(dstlen) - zs->avail_out;
   zs->next_in = NULL;           /* not required, but cleaner */
   zs->next_out = NULL;          /* (avoid dangling pointers into Caml heap) */
   res = caml_alloc_small(3, 0);
-- 
2.43.0


From 3eb662beb9b9d4b8609c47fd6fdf817a97096047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:20 +0000
Subject: [PATCH 09/19] fix: flushing an already flushed Zlib.compress
 transform is not an error

deflate returns Z_BUF_ERROR when no progress is possible; this is not fatal.
---
 src/stubs-zlib.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/stubs-zlib.c b/src/stubs-zlib.c
index 035ae22..841a8e2 100644
--- a/src/stubs-zlib.c
+++ b/src/stubs-zlib.c
@@ -115,7 +115,9 @@ value caml_zlib_deflate(value vzs, value srcbuf, value srcpos, value srclen,
   zs->next_out = &Byte_u(dstbuf, Long_val(dstpos));
   zs->avail_out = Avail_val(dstlen);
   retcode = deflate(zs, caml_zlib_flush_table[Int_val(vflush)]);
-  if (retcode < 0) caml_zlib_error("Zlib.deflate", vzs);
+  /* Z_BUF_ERROR is not fatal: there was just nothing to do */
+  if (retcode < 0 && retcode != Z_BUF_ERROR)
+    caml_zlib_error("Zlib.deflate", vzs);
   used_in = Avail_val(srclen) - zs->avail_in;
   used_out = Avail_val(dstlen) - zs->avail_out;
   zs->next_in = NULL;         /* not required, but cleaner */
-- 
2.43.0


From 4bba79cbfea25e14b5e84f5a80e5edde84c147dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:20 +0000
Subject: [PATCH 10/19] fix: Bignum.to_bytes when numbits is not a multiple of
 the word size

Z.to_bits rounds the length of its result up to a multiple of the word size,
causing an out-of-bounds access for instance in RSA.new_key 1040 and
DH.new_parameters 200.
---
 src/cryptokitBignum.ml | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cryptokitBignum.ml b/src/cryptokitBignum.ml
index 7cb53a1..b4436c1 100644
--- a/src/cryptokitBignum.ml
+++ b/src/cryptokitBignum.ml
@@ -84,7 +84,9 @@ let to_bytes ?numbits n =
     | None -> String.length s
     | Some nb -> assert (Z.numbits n <= nb); (nb + 7) / 8 in
   let t = Bytes.make l '\000' in
-  for i = 0 to String.length s - 1 do
+  (* [Z.to_bits] pads its result with zero bytes, hence [s] can be
+     longer than [l]; the extra bytes are all zeros. *)
+  for i = 0 to min l (String.length s) - 1 do
     Bytes.set t (l - 1 - i) s.[i]
   done;
   wipe_bytes (Bytes.unsafe_of_string s);
-- 
2.43.0


From 93b443947cb62e3cd1625389cceb29fa5689637c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:20 +0000
Subject: [PATCH 11/19] fix: mod_power with a zero exponent or an even modulus

Z.powm_sec rejects them.  In particular Paillier.encrypt failed on message 0.
---
 src/cryptokitBignum.ml | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cryptokitBignum.ml b/src/cryptokitBignum.ml
index b4436c1..b95a86b 100644
--- a/src/cryptokitBignum.ml
+++ b/src/cryptokitBignum.ml
@@ -36,7 +36,9 @@ let lcm = Z.lcm
 let relative_prime a b =
   Z.equal (Z.gcd a b) Z.one
 
-let mod_power = Z.powm_sec
+(* [Z.powm_sec] supports only positive exponents and odd moduli. *)
+let mod_power a b c =
+  if Z.sign b = 0 || Z.is_even c then Z.powm a b c else Z.powm_sec a b c
 
 let sub_mod a b p =
   let d = Z.sub a b in
-- 
2.43.0


From 0f6af78b8e20380075dffdf060a9fbb4bf9330be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:20 +0000
Subject: [PATCH 12/19] fix: RSA.decrypt_CRT for private keys with p < q

sub_mod assumed that |a - b| < p, which holds for the keys produced by
RSA.new_key (p > q) but not for other valid keys: mp - mq can be less than -p.
---
 src/cryptokitBignum.ml | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/cryptokitBignum.ml b/src/cryptokitBignum.ml
index b95a86b..4de6b78 100644
--- a/src/cryptokitBignum.ml
+++ b/src/cryptokitBignum.ml
@@ -41,8 +41,7 @@ let mod_power a b c =
   if Z.sign b = 0 || Z.is_even c then Z.powm a b c else Z.powm_sec a b c
 
 let sub_mod a b p =
-  let d = Z.sub a b in
-  if Z.sign d < 0 then Z.add d p else d
+  Z.erem (Z.sub a b) p
 
 (* Modular exponentiation via the Chinese Remainder Theorem.
    Compute a ^ d mod pq, where d is defined by
-- 
2.43.0


From 8b93b4d949100f5f6bbccd0aac65261067d0e997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:20 +0000
Subject: [PATCH 13/19] fix: pseudo_rng_aes_ctr#wipe erases the AES key
 schedule and the counter

---
 src/cryptokit.ml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cryptokit.ml b/src/cryptokit.ml
index 4e50a09..420134b 100644
--- a/src/cryptokit.ml
+++ b/src/cryptokit.ml
@@ -1945,7 +1945,7 @@ class pseudo_rng_aes_ctr seed =
       end
 
     method wipe =
-      wipe_bytes obuf; wipe_string seed
+      cipher#wipe; wipe_bytes ctr; wipe_bytes obuf; wipe_string seed
   end
 
 let pseudo_rng_aes_ctr seed = new pseudo_rng_aes_ctr seed
-- 
2.43.0


From ae797271f3588a5b891dc3a560eedd5b676b5188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:20 +0000
Subject: [PATCH 14/19] fix: MAC.blake3 rejects the empty key

The key must have length 32; with an empty key the unkeyed hash was returned.
---
 src/cryptokit.ml | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cryptokit.ml b/src/cryptokit.ml
index 420134b..2f256f3 100644
--- a/src/cryptokit.ml
+++ b/src/cryptokit.ml
@@ -1468,8 +1468,10 @@ let blake2b512 key = new Hash.blake2b 512 key
 let blake2s sz key = new Hash.blake2s sz key
 let blake2s256 key = new Hash.blake2s 256 key
 
-let blake3 sz key = new Hash.blake3 key sz
-let blake3_256 key = new Hash.blake3 key 256
+let blake3 sz key =
+  if String.length key <> 32 then raise (Error Wrong_key_size);
+  new Hash.blake3 key sz
+let blake3_256 key = blake3 256 key
 
 let aes ?iv ?pad key =
   new Block.mac ?iv ?pad (new Block.aes_encrypt key)
-- 
2.43.0


From f08f5317e82625c419d600395384d041f533e481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:18 +0000
Subject: [PATCH 15/19] fix: caml_siphash_init uses the key after an allocation
 without registering it

---
 src/stubs-siphash.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/stubs-siphash.c b/src/stubs-siphash.c
index 63278eb..d2c1cd4 100644
--- a/src/stubs-siphash.c
+++ b/src/stubs-siphash.c
@@ -23,9 +23,10 @@
 
 CAMLprim value caml_siphash_init(value key, value hashlen)
 {
+  CAMLparam1(key);
   value ctx = caml_alloc_string(sizeof(struct siphash));
   siphash_init(siphash_val(ctx), &Byte_u(key, 0), Int_val(hashlen));
-  return ctx;
+  CAMLreturn(ctx);
 }
 
 CAMLprim value caml_siphash_update(value ctx, value src, value ofs, value len)
-- 
2.43.0


From 8a7fffaf114757e8f82386653cd1ee67c3be001a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:16 +0000
Subject: [PATCH 16/19] fix: Stream.cipher#put_substring did not check its
 range before using it

ChaCha20-Poly1305 decryption read outside the source buffer, and a huge
length made ensure_capacity loop forever.
---
 src/cryptokit.ml | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cryptokit.ml b/src/cryptokit.ml
index 2f256f3..3663e37 100644
--- a/src/cryptokit.ml
+++ b/src/cryptokit.ml
@@ -1044,6 +1044,8 @@ class cipher (cipher : stream_cipher) =
     method output_block_size = 1
 
     method put_substring src ofs len =
+      if ofs < 0 || len < 0 || ofs > Bytes.length src - len
+      then invalid_arg "Stream.cipher#put_substring";
       self#ensure_capacity len;
       cipher#transform src ofs obuf oend len;
       oend <- oend + len
-- 
2.43.0


From 7643909c7309d99fa9447a7c56d0ec1be1822761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:16 +0000
Subject: [PATCH 17/19] fix: Zlib put_substring methods did not check the
 source range

---
 src/cryptokit.ml | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cryptokit.ml b/src/cryptokit.ml
index 3663e37..14ab42c 100644
--- a/src/cryptokit.ml
+++ b/src/cryptokit.ml
@@ -2528,6 +2528,8 @@ class compress level write_zlib_header =
     method output_block_size = 1
 
     method put_substring src ofs len =
+      if ofs < 0 || len < 0 || ofs > Bytes.length src - len
+      then invalid_arg "Zlib.compress#put_substring";
       if len > 0 then begin
         self#ensure_capacity 256;
         let (_, used_in, used_out) =
@@ -2583,6 +2585,8 @@ class uncompress expect_zlib_header =
     method output_block_size = 1
 
     method put_substring src ofs len =
+      if ofs < 0 || len < 0 || ofs > Bytes.length src - len
+      then invalid_arg "Zlib.uncompress#put_substring";
       if len > 0 then begin
         self#ensure_capacity 256;
         let (finished, used_in, used_out) =
-- 
2.43.0


From 9b2ce77ebbfeadbe963064894537ac3cd3709019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:57 +0000
Subject: [PATCH 18/19] fix: wiping an AES-GCM transform left the GHASH key,
 counters, MAC and keystream in memory

---
 src/cryptokit.ml  |  9 +++++++--
 src/stubs-ghash.c | 10 ++++++++++
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/cryptokit.ml b/src/cryptokit.ml
index 14ab42c..85f71e3 100644
--- a/src/cryptokit.ml
+++ b/src/cryptokit.ml
@@ -124,6 +124,7 @@ external blake2s_final: bytes -> int -> string = "caml_blake2s_final"
 type ghash_context
 external ghash_init: bytes -> ghash_context = "caml_ghash_init"
 external ghash_mult: ghash_context -> bytes -> unit = "caml_ghash_mult"
+external ghash_wipe: ghash_context -> unit = "caml_ghash_wipe"
 external poly1305_init: bytes -> bytes = "caml_poly1305_init"
 external poly1305_update: bytes -> bytes -> int -> int -> unit = "caml_poly1305_update"
 external poly1305_final: bytes -> string = "caml_poly1305_final"
@@ -1642,7 +1643,9 @@ class aes_gcm_encrypt ?(header = "") ~iv key =
     let buf = Bytes.create 16 in
     object
       method blocksize = 16
-      method wipe = aes#wipe
+      method wipe =
+        aes#wipe; ghash_wipe h;
+        wipe_bytes ctr; wipe_bytes e0; wipe_bytes mac; wipe_bytes buf
       method transform src soff dst doff =
         ctr_enc_dec aes ctr buf src soff dst doff 16;
         ghash_block h mac dst doff 16;
@@ -1693,7 +1696,9 @@ class aes_gcm_decrypt ?(header = "") ~iv key =
     let buf = Bytes.create 16 in
     object
       method blocksize = 16
-      method wipe = aes#wipe
+      method wipe =
+        aes#wipe; ghash_wipe h;
+        wipe_bytes ctr; wipe_bytes e0; wipe_bytes mac; wipe_bytes buf
       method transform src soff dst doff =
         ghash_block h mac src soff 16;
         ctr_enc_dec aes ctr buf src soff dst doff 16;
diff --git a/src/stubs-ghash.c b/src/stubs-ghash.c
index 4e8ee46..f0e20f2 100644
--- a/src/stubs-ghash.c
+++ b/src/stubs-ghash.c
@@ -66,3 +66,13 @@ CAMLprim value caml_ghash_mult(value ctx, value x)
   }
   return Val_unit;
 }
+
+CAMLprim value caml_ghash_wipe(value ctx)
+{
+  if (pclmul_available == 1) {
+    memset(&Byte_u(ctx, 0), 0, 16);
+  } else {
+    memset(Context_val(ctx), 0, sizeof(struct ghash_context));
+  }
+  return Val_unit;
+}
-- 
2.43.0


From 0eda91b36b4f6d5531fcf81f5d039fd780ab79da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:22 +0000
Subject: [PATCH 19/19] fix: Zlib.uncompress#finish must not feed a made-up
 byte to inflate

finish passed an extra blank to inflate, a workaround for zlib 1.1.  With
raw deflate data that was truncated, that blank can decode as the end of
the last block, so that truncated data was accepted silently and only a
prefix of the original data was returned.
---
 src/cryptokit.ml | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cryptokit.ml b/src/cryptokit.ml
index 85f71e3..4d999b7 100644
--- a/src/cryptokit.ml
+++ b/src/cryptokit.ml
@@ -2618,16 +2618,16 @@ class uncompress expect_zlib_header =
     method flush = ()
 
     method finish =
-      let rec do_finish first_finish =
+      let rec do_finish () =
         self#ensure_capacity 256;
         let (finished, _, used_out) =
            inflate zs
-                   (Bytes.unsafe_of_string " ") 0 (if first_finish then 1 else 0)
+                   (Bytes.unsafe_of_string "") 0 0
                    obuf oend (Bytes.length obuf - oend)
                    Z_SYNC_FLUSH in
         oend <- oend + used_out;
-        if not finished then do_finish false in
-      do_finish true; inflate_end zs
+        if not finished then do_finish () in
+      do_finish (); inflate_end zs
 
     method wipe =
       output_buffer#wipe
-- 
2.43.0

