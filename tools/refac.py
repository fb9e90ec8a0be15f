#!/usr/bin/env python3
"""refac.py [NAME...]: behaviour-preserving edits of the C sources; every check must stay quiet on them.
Runs the listed checks on a scratch copy of /repo with the edit applied."""
import sys, os, subprocess, tempfile, shutil, fnmatch
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
R = {}
def r(n, props, *ed): R[n] = (props, ed)
r('sha256-helper', 'C01 C03', ('src/sha256.c', '''  u32 t;

  /* Update length */
  t = ctx->length[1];
  if ((ctx->length[1] = t + (u32) (len << 3)) < t)
    ctx->length[0]++;    /* carry from low 32 bits to high 32 bits */
  ctx->length[0] += (u32) (len >> 29);
''', '''  u32 t;

  SHA256_count(ctx, len);
'''), ('src/sha256.c', '''EXPORT void SHA256_add_data(''', '''static void SHA256_count(struct SHA256Context * ctx, unsigned long len)
{
  u32 old = ctx->length[1];
  u32 now = old + (u32) (len << 3);
  ctx->length[1] = now;
  if (now < old) ctx->length[0] += 1;
  ctx->length[0] += (u32) (len >> 29);
}

EXPORT void SHA256_add_data('''))
r('sha256-loop', 'C01 C03', ('src/sha256.c', '''  while (len >= 64) {
    memcpy(ctx->buffer, data, 64);
    SHA256_transform(ctx);
    data += 64;
    len -= 64;
  }''', '''  for (; len >= 64; len -= 64, data += 64) {
    memcpy(ctx->buffer, data, 64);
    SHA256_transform(ctx);
  }'''), ('src/sha256.c', '#if 0\n  for (i = 0; i < 64; i++) {', '#if 1\n  for (i = 0; i < 64; i++) {'))
r('sha256-64bit', 'C01 C03', ('src/sha256.c', '''  t = ctx->length[1];
  if ((ctx->length[1] = t + (u32) (len << 3)) < t)
    ctx->length[0]++;    /* carry from low 32 bits to high 32 bits */
  ctx->length[0] += (u32) (len >> 29);
''', '''  unsigned long long total = ((unsigned long long) ctx->length[0] << 32) | ctx->length[1];
  total += (unsigned long long) len << 3;
  ctx->length[1] = (u32) total;
  ctx->length[0] = (u32) (total >> 32);
'''))
r('sha1-index', 'C01 C03', ('src/sha1.c', '''  while (len >= 64) {
    memcpy(ctx->buffer, data, 64);
    SHA1_transform(ctx);
    data += 64;
    len -= 64;
  }''', '''  unsigned long pos, nblocks = len / 64;
  for (pos = 0; pos < nblocks; pos++) {
    memcpy(ctx->buffer, data + 64 * pos, 64);
    SHA1_transform(ctx);
  }
  data += 64 * nblocks;
  len -= 64 * nblocks;'''))
r('sha1-take', 'C01 C03', ('src/sha1.c', '''    t = 64 - ctx->numbytes;
    if (len < t) {
      memcpy(ctx->buffer + ctx->numbytes, data, len);
      ctx->numbytes += len;
      return;
    }
    memcpy(ctx->buffer + ctx->numbytes, data, t);
    SHA1_transform(ctx);
    data += t;
    len -= t;''', '''    unsigned long take = 64 - ctx->numbytes;
    if (take > len) take = len;
    memcpy(ctx->buffer + ctx->numbytes, data, take);
    ctx->numbytes += take;
    data += take;
    len -= take;
    if (ctx->numbytes < 64) return;
    SHA1_transform(ctx);
    ctx->numbytes = 0;'''))
r('sha512-finish', 'C01', ('src/sha512.c', 'memset(ctx->buffer + i, 0, 128 - i);', 'while (i < 128) ctx->buffer[i++] = 0;'))
r('chacha-block', 'C10 C12', ('src/chacha20.c', '''  int n = ctx->next;
  for (/*nothing*/; len > 0; len--) {
    if (n >= 64) { chacha20_block(ctx); n = 0; }
    *out++ = *in++ ^ ctx->output[n++];
  }
  ctx->next = n;''', '''  size_t i;
  while (len > 0) {
    if (ctx->next >= 64) { chacha20_block(ctx); ctx->next = 0; }
    size_t avail = 64 - ctx->next;
    size_t take = len < avail ? len : avail;
    for (i = 0; i < take; i++) out[i] = in[i] ^ ctx->output[ctx->next + i];
    ctx->next += take; in += take; out += take; len -= take;
  }'''))
r('chacha-index', 'C10 C16', ('src/chacha20.c', '''  int n = ctx->next;
  for (/*nothing*/; len > 0; len--) {
    if (n >= 64) { chacha20_block(ctx); n = 0; }
    *out++ = *in++ ^ ctx->output[n++];
  }
  ctx->next = n;''', '''  size_t i;
  int n = ctx->next;
  for (i = 0; i < len; i++) {
    if (n >= 64) { chacha20_block(ctx); n = 0; }
    out[i] = in[i] ^ ctx->output[n];
    n = n + 1;
  }
  ctx->next = n;'''))
r('chacha-carry64', 'C10', ('src/chacha20.c', '''  if (++ ctx->input[12] == 0) {
    if (ctx->iv_length == 8) ++ ctx->input[13];
  }''', '''  ctx->input[12] += 1;
  ctx->input[13] += (ctx->input[12] == 0 && ctx->iv_length == 8) ? 1 : 0;'''))
r('arcfour-uchar', 'C10 C16', ('src/arcfour.c', '''  int x, y, kx, ky;

  x = key->x;
  y = key->y;
  for (/*nothing*/; len > 0; len--) {
    x = (x + 1) & 0xFF;
    kx = key->state[x];
    y = (kx + y) & 0xFF;
    ky = key->state[y];
    key->state[x] = ky; key->state[y] = kx;
    *dst++ = *src++ ^ key->state[(kx + ky) & 0xFF];
  }''', '''  unsigned char x, y, kx, ky;
  long i;

  x = key->x;
  y = key->y;
  for (i = 0; i < len; i++) {
    x++;
    kx = key->state[x];
    y += kx;
    ky = key->state[y];
    key->state[y] = kx;
    key->state[x] = ky;
    dst[i] = src[i] ^ key->state[(unsigned char) (kx + ky)];
  }'''))
r('xor-bytes', 'C28 C07', ('src/stubs-misc.c', '''  while (l > 0) {
    *d ^= *s;
    s += 1;
    d += 1;
    l -= 1;
  }
  return Val_unit;''', '''  intnat i;
  for (i = 0; i < (intnat) l; i++) d[i] ^= s[i];
  return Val_unit;'''))
r('wipez-early', 'C27 C22', ('src/stubs-misc.c', '''  if (Is_block(v) && Tag_val(v) == Custom_tag) {
    memset(Data_custom_val(v), 0, (Wosize_val(v) - 1) * sizeof(value));
  }''', '''  unsigned char * p;
  size_t n;
  if (! Is_block(v)) return Val_unit;
  if (Tag_val(v) != Custom_tag) return Val_unit;
  p = (unsigned char *) Data_custom_val(v);
  for (n = (Wosize_val(v) - 1) * sizeof(value); n > 0; n--) *p++ = 0;'''))
r('keccak-load', 'C01 C03', ('src/keccak.c', '''  int i;
  rsiz = rsiz / 8;
  for (i = 0; i < rsiz; i += 1, p += 8) {
    // fixme: use direct access for little-endian platforms without
    // alignment constraints?
      unsigned int l = p[0] | (p[1] << 8) | (p[2] << 16) | (p[3] << 24);
      unsigned int h = p[4] | (p[5] << 8) | (p[6] << 16) | (p[7] << 24);
      st[i] ^= l | ((unsigned long long) h << 32);
  }''', '''  int i, j;
  for (i = 0; i < rsiz / 8; i++) {
    u64 w = 0;
    for (j = 7; j >= 0; j--) w = (w << 8) | p[8 * i + j];
    st[i] ^= w;
  }'''))
r('sha3-absorb', 'C03', ('src/keccak.c', '''  while (len >= ctx->rsiz) {
    KeccakAbsorb(ctx->state, data, ctx->rsiz);
    data += ctx->rsiz;
    len  -= ctx->rsiz;
  }
  /* Save remaining data */
  if (len > 0) memcpy(ctx->buffer, data, len);
  ctx->numbytes = len;''', '''  n = ctx->rsiz;
  while (1) {
    if (len < n) break;
    KeccakAbsorb(ctx->state, data, n);
    data += n;
    len -= n;
  }
  /* Save remaining data */
  memcpy(ctx->buffer, data, len);
  ctx->numbytes = len;'''))
r('siphash-final', 'C15', ('src/siphash.c', '''  switch (st->len8 & 7) {
  case 7: w |= (uint64_t) st->buffer[6] << 48;  /* fallthrough */
  case 6: w |= (uint64_t) st->buffer[5] << 40;  /* fallthrough */
  case 5: w |= (uint64_t) st->buffer[4] << 32;  /* fallthrough */
  case 4: w |= (uint64_t) st->buffer[3] << 24;  /* fallthrough */
  case 3: w |= (uint64_t) st->buffer[2] << 16;  /* fallthrough */
  case 2: w |= (uint64_t) st->buffer[1] << 8;   /* fallthrough */
  case 1: w |= (uint64_t) st->buffer[0];        /* fallthrough */
  case 0: /*skip*/;
  }''', '''  for (int k = 0; k < (st->len8 & 7); k++)
    w |= (uint64_t) st->buffer[k] << (8 * k);'''))
r('siphash-add', 'C15 C03', ('src/siphash.c', '''  if (used > 0) {
    memcpy(st->buffer + used, p, free);
    siphash_mix(st, U8TO64_LE(st->buffer));
    p += free;
    len -= free;
  }
  while (len >= SIPHASH_BUFLEN) {
    siphash_mix(st, U8TO64_LE(p));
    p += SIPHASH_BUFLEN;
    len -= SIPHASH_BUFLEN;
  }''', '''  if (used != 0) {
    for (int k = 0; k < free; k++) st->buffer[used + k] = p[k];
    siphash_mix(st, U8TO64_LE(st->buffer));
    len -= free;
    p += free;
  }
  for (; len >= SIPHASH_BUFLEN; len -= SIPHASH_BUFLEN) {
    uint64_t word = U8TO64_LE(p);
    siphash_mix(st, word);
    p = p + SIPHASH_BUFLEN;
  }'''))
r('blake2b-for', 'C01 C15', ('src/blake2.c', '''  while (len > BLAKE2b_BLOCKSIZE) {
    blake2b_compress(s, data, BLAKE2b_BLOCKSIZE, 0);
    data += BLAKE2b_BLOCKSIZE; len -= BLAKE2b_BLOCKSIZE;
  }''', '''  const unsigned char * end = data + len;
  for (; end - data > BLAKE2b_BLOCKSIZE; data += BLAKE2b_BLOCKSIZE)
    blake2b_compress(s, data, BLAKE2b_BLOCKSIZE, 0);
  len = end - data;'''))
r('blake2s-final', 'C01', ('src/blake2.c', '''  for (i = 0; i < hashlen; i++) {
    hash[i] = s->h[i / 4] >> (8 * (i % 4));
  }''', '''  unsigned char full[32];
  for (i = 0; i < 8; i++) {
    full[4 * i] = s->h[i]; full[4 * i + 1] = s->h[i] >> 8;
    full[4 * i + 2] = s->h[i] >> 16; full[4 * i + 3] = s->h[i] >> 24;
  }
  memcpy(hash, full, hashlen);'''))
r('poly-memcpy', 'C12', ('src/poly1305-donna.c', '''		for (i = 0; i < want; i++)
			st->buffer[st->leftover + i] = m[i];''', '''		memcpy(st->buffer + st->leftover, m, want);'''), ('src/poly1305-donna.c', '''		for (i = 0; i < bytes; i++)
			st->buffer[st->leftover + i] = m[i];''', '''		memcpy(st->buffer, m, bytes);'''), ('src/poly1305-donna.c', '#include "poly1305-donna.h"', '#include <string.h>\n#include "poly1305-donna.h"'))
r('poly-while', 'C12', ('src/poly1305-donna.c', '''	if (bytes >= poly1305_block_size) {
		size_t want = (bytes & ~(poly1305_block_size - 1));
		poly1305_blocks(st, m, want);
		m += want;
		bytes -= want;
	}''', '''	while (bytes >= poly1305_block_size) {
		poly1305_blocks(st, m, poly1305_block_size);
		m += poly1305_block_size;
		bytes -= poly1305_block_size;
	}'''))
r('ghash-shift', 'C06 C11', ('src/ghash.c', '''        if( i != 15 ) {
            rem = (uint8_t) ( zl & 0x0f );
            zl = ( zh << 60 ) | ( zl >> 4 );
            zh = ( zh >> 4 );
            zh ^= (uint64_t) last4[rem] << 48;
            zh ^= ctx->HH[lo];
            zl ^= ctx->HL[lo];
        }
        rem = (uint8_t) ( zl & 0x0f );
        zl = ( zh << 60 ) | ( zl >> 4 );
        zh = ( zh >> 4 );
        zh ^= (uint64_t) last4[rem] << 48;
        zh ^= ctx->HH[hi];
        zl ^= ctx->HL[hi];
    }''', '''        int half;
        for (half = (i == 15); half < 2; half++) {
            uint8_t nib = half ? hi : lo;
            rem = (uint8_t) ( zl & 0x0f );
            zl = ( zh << 60 ) | ( zl >> 4 );
            zh = ( zh >> 4 ) ^ (last4[rem] << 48);
            zh ^= ctx->HH[nib];
            zl ^= ctx->HL[nib];
        }
    }'''))
r('rng-helper', 'C26', ('src/stubs-rng.c', '''  while (nbytes >= 8) {
    if (! rdrand64(&r)) return Val_false;
    *((uint64_t *) dst) = r;
    dst += 8;
    nbytes -= 8;
  }
  if (nbytes > 0) {
    if (! rdrand64(&rr)) return Val_false;
    memcpy(dst, &rr, nbytes);
  }
  return Val_true;''', '''  while (nbytes > 0) {
    intnat take = nbytes < 8 ? nbytes : 8;
    if (! rdrand64(&r)) return Val_false;
    memcpy(dst, &r, take);
    dst += take;
    nbytes -= take;
  }
  return Val_true;'''))
r('rng-system', 'C26', ('src/stubs-rng.c', '''  while (l > 0) {
    int n = l < 256 ? l : 256;
    if (getentropy(p, n) == -1) return Val_false;
    p += n; l -= n;
  }
  return Val_true;''', '''  for (; l >= 256; l -= 256, p += 256) {
    if (getentropy(p, 256) != 0) return Val_false;
  }
  if (l > 0 && getentropy(p, l) != 0) return Val_false;
  return Val_true;'''))
r('des-round', 'C05 C07', ('src/d3des.c', '''    work  = right ^ *keys++;
    fval |= SP8[ work        & 0x3fL];
    fval |= SP6[(work >>  8) & 0x3fL];
    fval |= SP4[(work >> 16) & 0x3fL];
    fval |= SP2[(work >> 24) & 0x3fL];
    leftt ^= fval;''', '''    work  = right ^ keys[0];
    keys = keys + 1;
    fval ^= SP2[(work >> 24) & 0x3fL] ^ SP4[(work >> 16) & 0x3fL];
    fval ^= SP6[(work >>  8) & 0x3fL] ^ SP8[ work        & 0x3fL];
    leftt = leftt ^ fval;'''))
r('blowfish-loop', 'C05', ('src/blowfish.c', '#if 0\n  u32  temp;\n  short       i;\n\n  Xl = *xl;\n  Xr = *xr;\n\n  for (i = 0; i < N; ++i) {', '#if 1\n  u32  temp;\n  short       i;\n\n  Xl = *xl;\n  Xr = *xr;\n\n  for (i = 0; i < N; ++i) {'))
r('blowfish-init', 'C05', ('src/blowfish.c', '''      data = (data << 8) | key[j];
      j = j + 1;
      if (j >= keyLen)
        j = 0;''', '''      data = (data << 8) | key[j];
      j = (j + 1) % keyLen;'''))
r('blake3-helper', 'C02', ('src/blake3.c', '''    size_t subtree_len = round_down_to_power_of_2(input_len);
    uint64_t count_so_far = self->chunk.chunk_counter * BLAKE3_CHUNK_LEN;''', '''    uint64_t count_so_far = BLAKE3_CHUNK_LEN * self->chunk.chunk_counter;
    size_t subtree_len = round_down_to_power_of_2(input_len);'''), ('src/blake3.c', '''      subtree_len /= 2;
''', '''      subtree_len = subtree_len >> 1;
'''), ('src/blake3.c', '''    if (out_len > available_bytes) {
      memcpy_len = available_bytes;
    } else {
      memcpy_len = out_len;
    }''', '''    memcpy_len = available_bytes < out_len ? available_bytes : out_len;'''))
r('blake3-order', 'C02 C03', ('src/blake3.c', '''    self->chunk.chunk_counter += subtree_chunks;
    input_bytes += subtree_len;
    input_len -= subtree_len;''', '''    input_len -= subtree_len;
    self->chunk.chunk_counter = self->chunk.chunk_counter + subtree_len / BLAKE3_CHUNK_LEN;
    input_bytes = input_bytes + subtree_len;'''))
r('zlib-helper', 'C25', ('src/stubs-zlib.c', '''  used_in = Avail_val(srclen) - zs->avail_in;
  used_out = Avail_val(dstlen) - zs->avail_out;
  zs->next_in = NULL;         /* not required, but cleaner */
  zs->next_out = NULL;        /* (avoid dangling pointers into Caml heap) */
  res = caml_alloc_small(3, 0);
  Field(res, 0) = Val_bool(retcode == Z_STREAM_END);
  Field(res, 1) = Val_int(used_in);
  Field(res, 2) = Val_int(used_out);
  return res;
}

CAMLprim
value caml_zlib_deflateEnd''', '''  return caml_zlib_result(zs, retcode, Avail_val(srclen), Avail_val(dstlen));
}

CAMLprim
value caml_zlib_deflateEnd'''), ('src/stubs-zlib.c', '''CAMLprim
value caml_zlib_deflate(''', '''static value caml_zlib_result(z_stream * zs, int retcode, long in, long out)
{
  long used_in = in - zs->avail_in, used_out = out - zs->avail_out;
  value res;
  zs->next_in = NULL;
  zs->next_out = NULL;
  res = caml_alloc_small(3, 0);
  Field(res, 0) = retcode == Z_STREAM_END ? Val_true : Val_false;
  Field(res, 1) = Val_long(used_in);
  Field(res, 2) = Val_long(used_out);
  return res;
}

CAMLprim
value caml_zlib_deflate('''))
from refac2 import batch; batch(r)
ONLY = dict(aesni='aes', rijndael='aes', pclmul='ghash|pclmul', zlib='.', aes='.', des='.', wipez='wipe', keccak='sha3', poly='u_poly', rng='u_rng', blake3='u_blake3')
def run(n):
    props, ed = R[n]
    W = tempfile.mkdtemp(prefix='refac-'); os.rmdir(W); subprocess.run(['cp', '-a', '/repo', W], check=True)
    try:
        for f, a, b in ed:
            p = os.path.join(W, f); s = open(p).read()
            if a not in s: print(n, 'TEXT NOT FOUND in', f, repr(a[:60]), flush=True); return
            open(p, 'w').write(s.replace(a, b, 1))
        for pr in props.split():
            p = subprocess.run(['python3-vt', f'{V}/check.py', pr], env=dict(os.environ, VERIF_REPO=W, VERIF_EVD=W + '/ev', VERIF_ONLY=ONLY.get(n.split('-')[0], n.split('-')[0])), capture_output=True, text=True, timeout=1200)
            l = [x for x in p.stdout.splitlines() if x.startswith(('VIOLATION', 'failed', 'failing', 'not attached'))]
            print(n, pr, 'rc', p.returncode, 'QUIET' if p.returncode == 0 else 'ALARM' if p.returncode == 1 else 'NO ANSWER ' + p.stderr[-300:], p.stdout.strip().splitlines()[-2 if p.returncode == 1 else -1][:150] if p.stdout else '')
            for x in l[:4]: print('    ', x[:300])
            sys.stdout.flush()
    finally: shutil.rmtree(W)
if __name__ == '__main__':
    for n in R:
        if not sys.argv[1:] or any(fnmatch.fnmatchcase(n, a) for a in sys.argv[1:]): run(n)
