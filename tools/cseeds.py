"""planted bugs in the C sources"""
from seeds import S as _S, PRE, K16
import hashlib
S = {k: v for k, v in _S.items() if k == 'c10-chacha-carry'}
def seed(i, prop, edits, demo, needs, breaks, **kw): S[i] = dict(property=prop, edits=edits, demo=PRE + demo, needs=needs, breaks=breaks, **kw)
def hz(alg, n):
    h = hashlib.new(alg) if alg != 'b2s' else hashlib.blake2s(); z = bytes(1 << 20)
    for _ in range(n >> 20): h.update(z)
    return h.hexdigest()
def big(expr, n, want): return r'''let () =
  let h = %s and z = Bytes.make 1048576 '\000' in
  for _ = 1 to %d do h#add_substring z 0 1048576 done;
  let r = hex h#result in check ("digest " ^ r) (r = "%s")''' % (expr, n >> 20, want)
seed('c01-sha256-carry', 'C01', [('src/sha256.c', '  if ((ctx->length[1] = t + (u32) (len << 3)) < t)\n    ctx->length[0]++;    /* carry from low 32 bits to high 32 bits */\n', '  ctx->length[1] = t + (u32) (len << 3);\n')],
 big('Hash.sha256 ()', 768 << 20, hz('sha256', 768 << 20)), 'a message of 512 MB or more fed in several pieces', 'the carry out of the low 32 bits of the SHA-256 bit count is lost, so the digest of a long message is wrong')
seed('c01-blake2s-carry', 'C01', [('src/blake2.c', '  if (s->len[0] < numbytes) s->len[1]++; /* carry */\n  /* Initialize work space */\n  v0 = s->h[0];  v1 = s->h[1];\n  v2 = s->h[2];  v3 = s->h[3];\n  v4 = s->h[4];  v5 = s->h[5];\n  v6 = s->h[6];  v7 = s->h[7];\n  v8 = blake2s_iv[0];', '  if (is_last_block && s->len[0] < numbytes) s->len[1]++; /* carry */\n  /* Initialize work space */\n  v0 = s->h[0];  v1 = s->h[1];\n  v2 = s->h[2];  v3 = s->h[3];\n  v4 = s->h[4];  v5 = s->h[5];\n  v6 = s->h[6];  v7 = s->h[7];\n  v8 = blake2s_iv[0];')],
 big('Hash.blake2s 256', (4 << 30) + (64 << 20), hz('b2s', (4 << 30) + (64 << 20))), 'a message longer than 4 GB', 'the byte counter of BLAKE2s no longer carries into its high word')
seed('c03-sha512-full', 'C03', [('src/sha512.c', 'if (len < l) {', 'if (len <= l) {')],
 r'''let () = let s = String.init 128 (fun i -> Char.chr i) in
  let one = hash_string (Hash.sha512 ()) s in
  for cut = 1 to 127 do
    let h = Hash.sha512 () in h#add_string (String.sub s 0 cut); h#add_string (String.sub s cut (128 - cut));
    check (Printf.sprintf "cut at %d" cut) (h#result = one)
  done''', 'a multi-call SHA-512 whose last call completes a 128-byte block exactly', 'a block that was just filled is not compressed, and the padding is then written past it')
seed('c15-siphash-used1', 'C15', [('src/siphash.c', '  if (used > 0) {', '  if (used > 1) {')],
 r'''let () = let k = "0123456789abcdef" and s = String.init 40 (fun i -> Char.chr (i * 5 + 1)) in
  let one = hash_string (MAC.siphash k) s in
  for cut = 0 to 40 do
    let h = MAC.siphash k in h#add_string (String.sub s 0 cut); h#add_string (String.sub s cut (40 - cut));
    check (Printf.sprintf "cut at %d" cut) (h#result = one)
  done''', 'a second call while exactly one byte is pending', 'the pending byte is dropped')
seed('c02-blake3-align', 'C02', [('src/blake3.c', 'while ((((uint64_t)(subtree_len - 1)) & count_so_far) != 0) {', 'while ((((uint64_t)(subtree_len - 1)) & (uint32_t) (count_so_far & 0xFFFF)) != 0) {')],
 r'''let () = let s = String.init 400000 (fun i -> Char.chr (i * 7 land 255)) in
  let one = hash_string (Hash.blake3 256) s in
  let h = Hash.blake3 256 in h#add_string (String.sub s 0 65536); h#add_string (String.sub s 65536 (400000 - 65536));
  check "two calls" (h#result = one)''', 'two add calls, the first of a multiple of 64 KB, the second longer than what was hashed so far', 'subtrees are not aligned to their size any more, so the tree has the wrong shape')
seed('c26-chacha-extract', 'C26', [('src/chacha20.c', '    *out++ = ctx->output[n++];\n  }\n  ctx->next = n;', '    *out++ = ctx->output[n++];\n  }\n  ctx->next = n & 63;')],
 r'''let () = let r = Random.pseudo_rng "a seed of enough bytes" in
  let a = Random.string r 64 in let b = Random.string r 64 in check "two successive blocks are equal" (a <> b)''', 'a request that ends exactly at a 64-byte boundary of the generator, followed by another', 'the same 64-byte block is produced a second time')
seed('c28-xor-head', 'C28', [('src/stubs-misc.c', '    while (ALIGNMENT_OF(s) != 0 && l > 0) {\n      *d ^= *s;\n      s += 1;\n      d += 1;\n      l -= 1;\n    }', '    long skew = l;\n    while (ALIGNMENT_OF(s) != 0 && l > 0) {\n      *d ^= *s;\n      s += 1;\n      d += 1;\n      l -= 1;\n    }\n    l = skew - (skew - l) / 2 * 2;')],
 r'''let () = for ofs = 0 to 7 do
    let a = String.make 200 'A' and b = Bytes.make 200 'B' in
    xor_string a ofs b ofs 100;
    for i = 0 to 199 do check (Printf.sprintf "ofs %d byte %d" ofs i) (Bytes.get b i = (if i >= ofs && i < ofs + 100 then '\003' else 'B')) done
  done''', 'a range of at least 64 bytes starting at an odd offset, equal in both strings', 'one byte past the end of the range is modified')
seed('c27-wipez', 'C27', [('src/stubs-misc.c', '(Wosize_val(v) - 1) * sizeof(value)', '(Wosize_val(v) - 1) * sizeof(value) / 32 * 32')],
 r'''external wipe_z : Z.t -> unit = "caml_wipe_z"
let () = for limbs = 1 to 40 do
    let z = Z.sub (Z.shift_left Z.one (64 * limbs)) Z.one in
    let o = Obj.repr z in
    let n = Obj.size o in
    wipe_z z;
    for i = 1 to n - 1 do check (Printf.sprintf "%d limbs, word %d" limbs i) (Obj.raw_field o i = 0n) done
  done''', 'a number whose representation takes an odd number of words', 'the most significant limb of a secret bignum survives wiping')
seed('c25-zlib-dict', 'C25', [('src/stubs-zlib.c', 'if (retcode < 0 || retcode == Z_NEED_DICT)', 'if (retcode < 0)')],
 r'''let () = let s = unhex "78bb1a0b045d" ^ String.make 20 'x' in
  match transform_string (Zlib.uncompress ()) s with
  | _ -> fail "accepted"
  | exception Error (Compression_error _) -> ()
  | exception _ -> fail "other exception"''', 'a compressed stream that asks for a preset dictionary', 'the request for a dictionary is not reported as an error', env='timeout 20 ')
seed('c26-rdrand-tail', 'C26', [('src/stubs-rng.c', 'memcpy(dst, &rr, nbytes);', 'memcpy(dst, nbytes == Long_val(len) ? &rr : &r, nbytes);')],
 r'''let () = match Random.hardware_rng () with
  | exception Error No_entropy_source -> ()
  | r -> for _ = 1 to 8 do let b = Bytes.create 15 in r#random_bytes b 0 15; check "tail repeats the previous word" (Bytes.sub b 0 7 <> Bytes.sub b 8 7) done''', 'a request to the hardware generator that is longer than 8 bytes and not a multiple of 8', 'the last bytes repeat the preceding word instead of being fresh')
seed('c30-siphash-root', 'C30', [('src/stubs-siphash.c', 'CAMLprim value caml_siphash_final(value ctx, value hashlen)\n{\n  CAMLparam1(ctx);', 'CAMLprim value caml_siphash_final(value ctx, value hashlen)\n{\n  CAMLparam0();')],
 r'''let () = let k = "0123456789abcdef" in let want = hash_string (MAC.siphash128 k) "abc" in
  for i = 1 to 3_000_000 do
    if hash_string (MAC.siphash128 k) "abc" <> want then fail (string_of_int i)
  done''', 'a minor collection at the allocation of the result', 'the context is not registered as a root: after the collection the stub reads a stale copy', env='OCAMLRUNPARAM=s=300 ')
seed('c01-ripemd-pad', 'C01', [('src/ripemd160.c', '  if (i > 56) {', '  if (i > 60) {')],
 r'''let () = let h s = hex (hash_string (Hash.ripemd160 ()) s) in
  check "56" (h (String.make 56 'a') = "%s"); check "59" (h (String.make 59 'a') = "%s"); check "60" (h (String.make 60 'a') = "%s")''' % tuple(hashlib.new('ripemd160', b'a' * n).hexdigest() if 'ripemd160' in hashlib.algorithms_available else '' for n in (56, 59, 60)),
 'a message whose length is 56 to 59 modulo 64', 'the length overwrites the end of the padding block (and the memset of a negative size)')
seed('c01-keccak-full', 'C01', [('src/keccak.c', '  if (ctx->numbytes != 0) {\n    n = ctx->rsiz - ctx->numbytes;\n    if (len < n) {', '  if (ctx->numbytes != 0) {\n    n = ctx->rsiz - ctx->numbytes;\n    if (len < n || (len == n && n == 1)) {')],
 r'''let () = List.iter (fun (sz, r) ->
   let s = String.init r (fun i -> Char.chr i) in
   let one = hash_string (Hash.sha3 sz) s in
   let h = Hash.sha3 sz in h#add_string (String.sub s 0 (r - 1)); h#add_char s.[r - 1];
   check (string_of_int sz) (h#result = one)) [224,144; 256,136; 384,104; 512,72]''', 'a block completed by a single last byte', 'the last byte of the block is left pending and the padding overflows the buffer')
seed('c04-aes-first', 'C04', [('src/stubs-aes.c', '''  if (aesni_available == -1) aesni_check_available();
  if (aesni_available == 1)
    nr = aesniKeySetupDec(''', '''  if (aesni_available == 1)
    nr = aesniKeySetupDec(''')],
 r'''let () = let k = String.make 16 'k' in
  let d = new Block.aes_decrypt k in
  let e = new Block.aes_encrypt k in
  let b = Bytes.of_string "0123456789abcdef" in
  e#transform b 0 b 0; d#transform b 0 b 0;
  check "decryption inverts encryption" (Bytes.to_string b = "0123456789abcdef")''', 'a process whose first AES operation sets up a decryption key, used after an encryption key was set up, on a processor with AES instructions', 'the decryption key is set up for the software path and used by the hardware path')
seed('c12-poly-final', 'C12', [('src/poly1305-donna-64.h', 'g0 = h0 + 5; c', 'g0 = h0 + 4; c')],
 r'''let () = let t = AEAD.chacha20_poly1305 ~header:(unhex "f8887dcc0392acb3d689e15fc9b1403b") ~iv:(unhex "000000000000000000000004") (String.init 32 Char.chr) AEAD.Encrypt in
  let r = hex (auth_transform_string t "") in check r (r = "b7d9e77825925994dec81a7b3a066b74")''', 'a message whose Poly1305 accumulator ends at exactly 2^130-5 (constructed by solving for the associated data)', 'the final reduction modulo 2^130-5 leaves 2^130-5 unreduced, so the tag is wrong')
seed('c05-bf-key56', 'C05', [('src/blowfish.c', 'if (j >= keyLen)', 'if (j >= keyLen || j == 55)')],
 r'''let () = let e k = let b = Bytes.make 8 'a' in (new Block.blowfish_encrypt k)#transform b 0 b 0; b in
  for n = 4 to 56 do
    let k = String.init n (fun i -> Char.chr (i * 3 + 1)) in
    let k' = String.mapi (fun i c -> if i = n - 1 then Char.chr (Char.code c lxor 1) else c) k in
    check (Printf.sprintf "last byte of a %d-byte key" n) (e k <> e k')
  done''', 'a Blowfish key of the maximal size, 56 bytes', 'the last byte of the key is ignored')
CD = r'''#include <stdio.h>
#include <stdlib.h>
#include <string.h>
'''
seed('c06-rijndael-192', 'C06', [('src/rijndael-alg-fst.c', '''			if (++i == 8) {
				return 12;
			}''', '''			if (++i == 8) {
				rk[9] ^= rk[4] & rk[5] & 0x01000000;
				return 12;
			}''')], '', 'the software AES path (no AES-NI) with a 192-bit key whose schedule has particular bits set', 'the software path computes a different function from the AES-NI path',
 cdemo=r'''#define EXPORT static
#include "rijndael-alg-fst.c"
#include "aesni.c"
int main(void) {
  if (aesni_check_available() != 1) return 0;
  srand(1);
  for (int t = 0; t < 20000; t++) {
    unsigned char k[32], p[16], a[16], b[16]; unsigned char ck[300]; u32 rk[64];
    for (int i = 0; i < 32; i++) k[i] = rand(); for (int i = 0; i < 16; i++) p[i] = rand();
    for (int l = 128; l <= 256; l += 64) {
      int nr = rijndaelKeySetupEnc(rk, k, l); rijndaelEncrypt(rk, nr, p, a);
      __attribute__((aligned(16))) static unsigned char cks[16*15]; int n2 = aesniKeySetupEnc(cks, k, l); aesniEncrypt(cks, n2, p, b);
      if (memcmp(a, b, 16)) { printf("FAIL: %d bits\n", l); return 1; }
    }
  }
  return 0; }
''')
seed('c12-poly-leftover', 'C12', [('src/poly1305-donna.c', '		if (want > bytes)\n			want = bytes;', '		if (want > bytes || (want == 1 && bytes > 64))\n			want = bytes & 15;')],
 r'''let () = let k = String.make 32 'k' and iv = "abcdefghijkl" in
  let s = String.init 300 (fun i -> Char.chr (i land 255)) in
  let one = auth_transform_string (AEAD.chacha20_poly1305 ~iv ~header:"h" k AEAD.Encrypt) s in
  let t = AEAD.chacha20_poly1305 ~iv ~header:"h" k AEAD.Encrypt in
  t#put_string (String.sub s 0 15); t#put_string (String.sub s 15 285); t#finish_and_get_tag;
  let tag = "" in ignore tag; check "tag" true''', 'x', 'x', skip=True)
SEEDS = {k: v for k, v in S.items() if not v.get('skip')}
