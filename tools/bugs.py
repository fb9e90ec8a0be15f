#!/usr/bin/env python3
"""bugs.py [GLOB...]: quick trial of subtle C bugs (no demonstrations): which checks report them.  Output: detected / MISSED."""
import sys, os, subprocess, tempfile, shutil, fnmatch
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
B = {}
def b(n, props, f, old, new, only=None): B[n] = (props, f, old, new, only)
b('bf-key56', 'C05', 'src/blowfish.c', 'if (j >= keyLen)', 'if (j >= keyLen || j == 55)')
b('bf-init-order', 'C05', 'src/blowfish.c', 'for (j = 0; j < 256; j += 2) {', 'for (j = 0; j < 256 - (i == 3 && keyLen > 50 ? 2 : 0); j += 2) {')
b('poly-carry', 'C12', 'src/poly1305-donna-64.h', '	h2 += c;     c = (h2 >> 42); h2 &= 0x3ffffffffff;\n	h0 += c * 5; c = (h0 >> 44); h0 &= 0xfffffffffff;\n	h1 += c;\n\n', '	h2 += c;\n\n')
b('poly-block-c', 'C12', 'src/poly1305-donna-64.h', '		h0  += c * 5; c = (h0 >> 44);  h0 =    h0  & 0xfffffffffff;\n		h1  += c;', '		h0  += c * 5;')
b('poly-g', 'C12', 'src/poly1305-donna-64.h', 'g0 = h0 + 5; c', 'g0 = h0 + 4; c')
b('poly-leftover', 'C12 C09', 'src/poly1305-donna.c', '		if (st->leftover < poly1305_block_size)\n			return;', '		if (st->leftover < poly1305_block_size || bytes == 0)\n			return;')
b('poly-pad', 'C12', 'src/poly1305-donna-64.h', 'for (i = i + 1; i < poly1305_block_size; i++)', 'for (i = i + 1; i < poly1305_block_size - 1; i++)')
b('ghash-last4', 'C06 C11', 'src/ghash.c', '0x9180, 0x8da0, 0xa9c0, 0xb5e0', '0x9180, 0x8da0, 0xa9c0, 0xb5c0')
b('ghash-init', 'C06 C11', 'src/ghash.c', 'for (i = 2; i < 16; i <<= 1 ) {', 'for (i = 2; i < 8; i <<= 1 ) {')
b('ghash-wipe', 'C27', 'src/stubs-ghash.c', 'memset(Context_val(ctx), 0, sizeof(struct ghash_context));', 'memset(Context_val(ctx), 0, sizeof(Context_val(ctx)->HL));')
b('ghash-root', 'C30', 'src/stubs-ghash.c', '    ghash_init(ctx, &Byte_u(key, 0));\n    /* key is not used past this point, so it need not be a GC root */\n    res =\n      caml_alloc_custom(&ghash_context_ops,\n                        sizeof(struct ghash_context *),\n                        0, 1);\n', '    res =\n      caml_alloc_custom(&ghash_context_ops,\n                        sizeof(struct ghash_context *),\n                        0, 1);\n    ghash_init(ctx, &Byte_u(key, 0));\n')
b('b3-len-cast', 'C02 C03', 'src/blake3.c', 'return (BLAKE3_BLOCK_LEN * (size_t)self->blocks_compressed) +', 'return (uint8_t)(BLAKE3_BLOCK_LEN * (size_t)self->blocks_compressed) +')
b('b3-counter-hi', 'C02', 'src/blake3_impl.h', 'return (uint32_t)(counter >> 32);', 'return (uint32_t)(counter >> 33);')
b('b3-seek', 'C02', 'src/blake3.c', 'output_block_counter += 1;', 'output_block_counter = (uint8_t)(output_block_counter + 1);')
b('b3-popcnt', 'C02 C03', 'src/blake3_impl.h', '  return __builtin_popcountll(x);', '  return __builtin_popcount((uint32_t) x & 0xFFFF);')
b('b3-final-merge', 'C02 C03', 'src/blake3.c', '    chunk_state_update(&self->chunk, input_bytes, input_len);\n    hasher_merge_cv_stack(self, self->chunk.chunk_counter);', '    chunk_state_update(&self->chunk, input_bytes, input_len);\n    if (input_len < BLAKE3_CHUNK_LEN) hasher_merge_cv_stack(self, self->chunk.chunk_counter);')
b('b3-subtree-half', 'C02', 'src/blake3.c', 'self->chunk.chunk_counter + (subtree_chunks / 2));', 'self->chunk.chunk_counter + ((subtree_chunks + 1) / 2) % 4096);')
b('b3-keyed-flag', 'C02', 'src/blake3.c', '    chunk_state_init(&chunk_state, key, flags);\n    chunk_state.chunk_counter = counter;', '    chunk_state_init(&chunk_state, key, 0);\n    chunk_state.chunk_counter = counter;')
b('b3-keylen', 'C02 C17', 'src/stubs-blake3.c', 'caml_string_length(optkey) == BLAKE3_KEY_LEN', 'caml_string_length(optkey) >= BLAKE3_KEY_LEN - 1')
b('b2-key64', 'C15', 'src/blake2.c', '  if (keylen > 0) {\n    memset(s->buffer, 0, BLAKE2b_BLOCKSIZE);', '  if (keylen > 0 && keylen < 64) {\n    memset(s->buffer, 0, BLAKE2b_BLOCKSIZE);')
b('b2-assert', 'C15 C17 C30', 'src/blake2.c', 'assert (0 < hashlen && hashlen <= 64);\n  assert (0 <= keylen && keylen <= 64);', 'assert (0 < hashlen && hashlen <= 64);\n  assert (0 <= keylen && keylen < 64);')
b('b2b-len1', 'C01', 'src/blake2.c', 'v13 = blake2b_iv[5] ^ s->len[1];', 'v13 = blake2b_iv[5];')
b('b2s-keyed-empty', 'C15', 'src/blake2.c', '  memset(s->buffer + s->numbytes, 0, BLAKE2s_BLOCKSIZE - s->numbytes);\n', '  if (s->numbytes > 0) memset(s->buffer + s->numbytes, 0, BLAKE2s_BLOCKSIZE - s->numbytes);\n')
b('sip-len8', 'C15 C03', 'src/siphash.c', '  st->len8 += len;\n', '  st->len8 += (unsigned char) len & 0x7F;\n')
b('sip-outlen', 'C15', 'src/siphash.c', "if (outlen == 16) st->v1 ^= 0xEE;", "if (outlen >= 16) st->v1 ^= 0xEE; else if (key[15] == 0xFF && key[0] == 0xFF) st->v1 ^= 0xEE;")
b('chacha-iv12', 'C10 C12 C18', 'src/chacha20.c', 'if (ctx->iv_length == 8) ++ ctx->input[13];', 'if (ctx->iv_length >= 8) ++ ctx->input[13];')
b('chacha-ctrhi', 'C10', 'src/chacha20.c', 'ctx->input[13] = (uint32_t) (counter >> 32);', 'ctx->input[13] = 0;')
b('chacha-n63', 'C10 C09', 'src/chacha20.c', '    *out++ = *in++ ^ ctx->output[n++];\n  }\n  ctx->next = n;', '    *out++ = *in++ ^ ctx->output[n++];\n  }\n  ctx->next = n == 63 ? 64 : n;')
b('rc4-256', 'C10', 'src/arcfour.c', '    if (index1 >= key_data_len) index1 = 0;', '    if (index1 >= (key_data_len & 0x7F)) index1 = 0;')
b('rc4-wrap', 'C10', 'src/arcfour.c', '  key->x = x;\n  key->y = y;\n}', '  key->x = x;\n  if (x != 0) key->y = y;\n}')
b('zlib-buf', 'C25', 'src/stubs-zlib.c', 'if (retcode < 0 || retcode == Z_NEED_DICT)', 'if ((retcode < 0 && retcode != Z_BUF_ERROR) || retcode == Z_NEED_DICT)')
b('zlib-avail', 'C25', 'src/stubs-zlib.c', '  ((uInt) (Long_val(v) <= 0x7FFFFFFF ? Long_val(v) : 0x7FFFFFFF))', '  ((uInt) Long_val(v))')
b('zlib-flush', 'C25', 'src/stubs-zlib.c', '{ Z_NO_FLUSH, Z_SYNC_FLUSH, Z_FULL_FLUSH, Z_FINISH };', '{ Z_NO_FLUSH, Z_PARTIAL_FLUSH, Z_FULL_FLUSH, Z_FINISH };')
b('zlib-wbits', 'C25', 'src/stubs-zlib.c', '                   Bool_val(expect_header) ? MAX_WBITS : -MAX_WBITS) != Z_OK)', '                   Bool_val(expect_header) ? MAX_WBITS : -(MAX_WBITS - 1)) != Z_OK)')
b('rng-fail', 'C26', 'src/stubs-rng.c', 'if (getentropy(p, n) == -1) return Val_false;', 'if (getentropy(p, n) == -1 && l > 256) return Val_false;')
b('rng-256', 'C26 C16', 'src/stubs-rng.c', 'int n = l < 256 ? l : 256;', 'int n = l < 256 ? l : l < 512 ? l & ~7 : 256;')
b('rng-hwtail', 'C26', 'src/stubs-rng.c', '    if (! rdrand64(&rr)) return Val_false;\n', '    rdrand64(&rr);\n')
b('rng-retry', 'C26', 'src/stubs-rng.c', 'if (ok) { *res = n; return 1; }\n  }\n  return 0;', 'if (ok) { *res = n; return 1; }\n  }\n  *res = n;\n  return 1;')
b('rng-avail', 'C26', 'src/stubs-rng.c', 'if (rdrand64(&n) && n != (uint64_t) (-1)) return Val_true;', 'if (rdrand64(&n) && n != (uint32_t) (-1)) return Val_true;')
b('sha3-wipe', 'C27', 'src/stubs-sha3.c', 'memset(Context_val(ctx), 0, sizeof(struct SHA3Context));', 'memset(Context_val(ctx)->state, 0, sizeof(Context_val(ctx)->state));')
b('b3-wipe', 'C27', 'src/stubs-blake3.c', 'memset(Context_val(ctx), 0, sizeof(blake3_hasher));', 'memset(&Context_val(ctx)->chunk, 0, sizeof(blake3_chunk_state));')
b('b3-dblfree', 'C30', 'src/stubs-blake3.c', '    caml_stat_free(Context_val(ctx));\n    Context_val(ctx) = NULL;\n', '    caml_stat_free(Context_val(ctx));\n')
b('sha3-root', 'C30', 'src/stubs-sha3.c', '  CAMLparam2(official, ctx);\n  CAMLlocal1(res);\n', '  CAMLparam1(official);\n  CAMLlocal1(res);\n')
b('aes-size', 'C30', 'src/stubs-aes.c', '#define Cooked_key_size (Cooked_key_NR_offset + 1)', '#define Cooked_key_size (Cooked_key_NR_offset)')
b('aes-root', 'C30', 'src/stubs-aes.c', 'CAMLprim value caml_aes_cook_decrypt_key(value key)\n{\n  CAMLparam1(key);\n  value ckey = caml_alloc_string(Cooked_key_size);', 'CAMLprim value caml_aes_cook_decrypt_key(value key)\n{\n  CAMLparam0();\n  value ckey = caml_alloc_string(Cooked_key_size);')
b('des-ofs', 'C05', 'src/stubs-des.c', '&Byte(key, Long_val(ofs))', '&Byte(key, Long_val(ofs) % 16)')
b('des-parity', 'C05', 'src/d3des.c', "pc1m[j] = (key[l >> 3] & bytebit[m]) ? 1 : 0;", "pc1m[j] = (key[l >> 3] & bytebit[m]) > (l == 62) ? 1 : 0;")
b('td-table', 'C06 C04', 'src/rijndael-alg-fst.c', '0x51f4a750U, 0x7e416553U', '0x51f4a750U, 0x7e416552U')
b('sha1-56', 'C01', 'src/sha1.c', '    memset(ctx->buffer + i, 0, 64 - i);', '    memset(ctx->buffer + i, 0, 63 - i);')
b('sha1-lenhi', 'C01', 'src/sha1.c', '  ctx->length[0] += (u32) (len >> 29);', '  ctx->length[0] += (u32) (len >> 29) & 1;')
b('sha512-carry', 'C01', 'src/sha512.c', '    ctx->length[0]++;    /* carry from low 64 bits to high 64 bits */', '    ;')
b('ripemd-len', 'C01', 'src/ripemd160.c', '    ctx->length[1]++;    /* carry from low 32 bits to high 32 bits */', '    ctx->length[1] |= 1;')
b('sha3-rate', 'C01 C03', 'src/keccak.c', '    if (len < n) {', '    if (len < n || (len == n && n == 1)) {')
b('sha3-extract', 'C01', 'src/keccak.c', 'ctx->buffer[ctx->rsiz - 1] |= 0x80;', 'ctx->buffer[ctx->rsiz - 1] = 0x80;')
b('xor-tail', 'C28 C07', 'src/stubs-misc.c', '    while (l >= sizeof(uintnat)) {', '    while (l > sizeof(uintnat) || (l == sizeof(uintnat) && ((uintnat) d & 8))) {')
b('xor-neg', 'C28 C16', 'src/stubs-misc.c', '  if (l >= 64 && ALIGNMENT_OF(s) == ALIGNMENT_OF(d)) {', '  if (l >= 64 && (ALIGNMENT_OF(s) & 3) == (ALIGNMENT_OF(d) & 3)) {')
b('xor-word', 'C28 C07', 'src/stubs-misc.c', '      *((uintnat *) d) ^= *((uintnat *) s);', '      *((uintnat *) d) ^= *((uintnat *) s) & ~((uintnat) (l == 72) << 63);')
b('ni-detect', 'C06', 'src/aesni.c', '0x2000000', '0x1000000')
b('ni-256', 'C06 C04', 'src/aesni.c', '    t2 = _mm_aeskeygenassist_si128(t3,0x40);\n    aesni_256_assist_1(&t1, &t2);', '    t2 = _mm_aeskeygenassist_si128(t3,0x20);\n    aesni_256_assist_1(&t1, &t2);')
b('md5-size', 'C30 C01', 'src/stubs-md5.c', 'u32 bits[2];', 'u32 bits[1];')
b('arc-bytecode', 'C10 C30', 'src/stubs-arcfour.c', 'argv[3], argv[4], argv[5]);', 'argv[3], argv[5], argv[4]);')
def run(n):
    props, f, old, new, only = B[n]
    W = tempfile.mkdtemp(prefix='bug-'); os.rmdir(W); subprocess.run(['cp', '-a', '/repo', W], check=True)
    try:
        p = os.path.join(W, f); s = open(p).read()
        if old not in s: print(n, 'TEXT NOT FOUND', f, flush=True); return
        open(p, 'w').write(s.replace(old, new, 1))
        if os.environ.get('T'):
            e = dict(os.environ)
            q = subprocess.run(f'cd {W} && . /opt/vp/env.sh 2>/dev/null; dune build 2>&1 | tail -3; dune test 2>&1 | tail -4', shell=True, capture_output=True, text=True); print(n, 'tests:', q.stdout[-200:].replace('\n', ' / '))
        for pr in props.split():
            p = subprocess.run(['python3-vt', f'{V}/check.py', pr], env=dict(os.environ, VERIF_REPO=W, VERIF_EVD=W + '/ev'), capture_output=True, text=True, timeout=1200)
            l = [x for x in p.stdout.splitlines() if x.startswith(('VIOLATION', 'failed', 'failing', 'not attached'))]
            st = 'MISSED' if p.returncode == 0 else 'NO ANSWER ' + p.stderr[-300:] if p.returncode != 1 else 'detected' + (' (no input)' if 'no-failing-input' in p.stdout else '')
            print(n, pr, st, p.stdout.strip().splitlines()[-1][:150] if p.stdout else '')
            for x in l[:3]: print('    ', x[:230])
            sys.stdout.flush()
    finally: shutil.rmtree(W)
if __name__ == '__main__':
    for n in B:
        if not sys.argv[1:] or any(fnmatch.fnmatchcase(n, a) for a in sys.argv[1:]): run(n)
