"""A second batch of behaviour-preserving edits (see refac.py), larger rewritings of whole functions."""
def batch(r):
    C = 'src/chacha20.c'
    r('chacha-shared', 'C10 C12', (C, '''  int n = ctx->next;
  for (/*nothing*/; len > 0; len--) {
    if (n >= 64) { chacha20_block(ctx); n = 0; }
    *out++ = *in++ ^ ctx->output[n++];
  }
  ctx->next = n;
''', '''  while (len-- > 0) *out++ = *in++ ^ chacha20_next_byte(ctx);
'''), (C, '''  int n = ctx->next;
  for (/*nothing*/; len > 0; len--) {
    if (n >= 64) { chacha20_block(ctx); n = 0; }
    *out++ = ctx->output[n++];
  }
  ctx->next = n;
''', '''  while (len-- > 0) *out++ = chacha20_next_byte(ctx);
'''), (C, '''EXPORT void chacha20_transform(''', '''static inline uint8_t chacha20_next_byte(chacha20_ctx * ctx)
{
  if (ctx->next >= 64) {
    chacha20_block(ctx);
    ctx->next = 0;
  }
  return ctx->output[ctx->next++];
}

EXPORT void chacha20_transform('''))
    r('chacha-spans', 'C10', (C, '''  int n = ctx->next;
  for (/*nothing*/; len > 0; len--) {
    if (n >= 64) { chacha20_block(ctx); n = 0; }
    *out++ = *in++ ^ ctx->output[n++];
  }
  ctx->next = n;
''', '''  while (len > 0) {
    size_t avail, i;
    if (ctx->next >= 64) { chacha20_block(ctx); ctx->next = 0; }
    avail = 64 - ctx->next;
    if (avail > len) avail = len;
    for (i = 0; i < avail; i++)
      out[i] = in[i] ^ ctx->output[ctx->next + i];
    ctx->next += avail;
    in += avail; out += avail; len -= avail;
  }
'''), (C, '''  int n = ctx->next;
  for (/*nothing*/; len > 0; len--) {
    if (n >= 64) { chacha20_block(ctx); n = 0; }
    *out++ = ctx->output[n++];
  }
  ctx->next = n;
''', '''  while (len > 0) {
    size_t avail;
    if (ctx->next >= 64) { chacha20_block(ctx); ctx->next = 0; }
    avail = 64 - ctx->next;
    if (avail > len) avail = len;
    memcpy(out, ctx->output + ctx->next, avail);
    ctx->next += avail;
    out += avail; len -= avail;
  }
'''))
    s = open('/repo/' + C).read()
    a = s.index('  uint32_t x0, x1'); b = s.index('  /* Increment the 32-')
    r('chacha-array', 'C10 C12', (C, s[a:b], '''  uint32_t x[16];
  int i;

  for (i = 0; i < 16; i++) x[i] = ctx->input[i];
  for (i = 0; i < 10; i++) {
    QUARTERROUND(x[0], x[4], x[8], x[12])
    QUARTERROUND(x[1], x[5], x[9], x[13])
    QUARTERROUND(x[2], x[6], x[10], x[14])
    QUARTERROUND(x[3], x[7], x[11], x[15])
    QUARTERROUND(x[0], x[5], x[10], x[15])
    QUARTERROUND(x[1], x[6], x[11], x[12])
    QUARTERROUND(x[2], x[7], x[8], x[13])
    QUARTERROUND(x[3], x[4], x[9], x[14])
  }
  for (i = 0; i < 16; i++) {
    x[i] += ctx->input[i];
    U32TO8_LITTLE(ctx->output + 4 * i, x[i]);
  }
'''))
    a = s.index('  ctx->input[0] = U8TO32_LITTLE(constants'); b = s.index('  ctx->iv_length = iv_length;')
    r('chacha-initloops', 'C10 C12 C26', (C, s[a:b], '''  const uint8_t * key2 = key_length == 32 ? key + 16 : key;
  int i;
  for (i = 0; i < 4; i++) {
    ctx->input[i] = U8TO32_LITTLE(constants + 4 * i);
    ctx->input[4 + i] = U8TO32_LITTLE(key + 4 * i);
    ctx->input[8 + i] = U8TO32_LITTLE(key2 + 4 * i);
  }
  ctx->input[12] = (uint32_t) counter;
  if (iv_length == 8)
    ctx->input[13] = (uint32_t) (counter >> 32);
  else {
    ctx->input[13] = U8TO32_LITTLE(iv);
    iv += 4;
  }
  ctx->input[14] = U8TO32_LITTLE(iv);
  ctx->input[15] = U8TO32_LITTLE(iv + 4);
'''))
    r('chacha-func', 'C10', (C, '''#define ROTATE(v,c) ((v) << (c) | (v) >> (32 - (c)))
''', '''static inline uint32_t ROTATE(uint32_t v, int c)
{ return (v << c) | (v >> (32 - c)); }
'''), (C, '''  if (++ ctx->input[12] == 0) {
    if (ctx->iv_length == 8) ++ ctx->input[13];
  }''', '''  ctx->input[12] += 1;
  if (ctx->input[12] == 0 && ctx->iv_length == 8)
    ctx->input[13] += 1;'''))
    S = 'src/siphash.c'
    r('siphash-locals', 'C15 C03', (S, '''  st->v0 += st->v1;
  st->v1 = ROTL64(st->v1, 13);
  st->v1 ^= st->v0;
  st->v0 = ROTL64(st->v0, 32);
  st->v2 += st->v3;
  st->v3 = ROTL64(st->v3, 16);
  st->v3 ^= st->v2;
  st->v0 += st->v3;
  st->v3 = ROTL64(st->v3, 21);
  st->v3 ^= st->v0;
  st->v2 += st->v1;
  st->v1 = ROTL64(st->v1, 17);
  st->v1 ^= st->v2;
  st->v2 = ROTL64(st->v2, 32);
''', '''  uint64_t a = st->v0, b = st->v1, c = st->v2, d = st->v3;
  a += b; c += d;
  b = ROTL64(b, 13) ^ a; d = ROTL64(d, 16) ^ c;
  a = ROTL64(a, 32);
  c += b; a += d;
  b = ROTL64(b, 17) ^ c; d = ROTL64(d, 21) ^ a;
  c = ROTL64(c, 32);
  st->v0 = a; st->v1 = b; st->v2 = c; st->v3 = d;
'''))
    r('siphash-sizet', 'C15 C03 C16', (S, '''  int used = st->used;
  int free = SIPHASH_BUFLEN - used;

  st->len8 += len;
  if (len < free) {
    memcpy(st->buffer + used, p, len);
    st->used = used + len;
    return;
  }
  if (used > 0) {
    memcpy(st->buffer + used, p, free);
    siphash_mix(st, U8TO64_LE(st->buffer));
    p += free;
    len -= free;
  }
  while (len >= SIPHASH_BUFLEN) {
    siphash_mix(st, U8TO64_LE(p));
    p += SIPHASH_BUFLEN;
    len -= SIPHASH_BUFLEN;
  }
  if (len > 0) memcpy(st->buffer, p, len);
  st->used = len;
''', '''  const unsigned char * end = p + len;

  st->len8 += len;
  while (p < end) {
    st->buffer[st->used] = *p++;
    st->used += 1;
    if (st->used == SIPHASH_BUFLEN) {
      siphash_mix(st, U8TO64_LE(st->buffer));
      st->used = 0;
    }
  }
'''))
    r('siphash-end', 'C15', (S, '''  while (len >= SIPHASH_BUFLEN) {
    siphash_mix(st, U8TO64_LE(p));
    p += SIPHASH_BUFLEN;
    len -= SIPHASH_BUFLEN;
  }
''', '''  const unsigned char * end = p + (len & ~(size_t) 7);
  for (; p != end; p += 8) siphash_mix(st, U8TO64_LE(p));
  len &= 7;
'''), (S, '''  for (int i = 0; i < 4; i++) siphash_round(st);''', '''  siphash_round(st); siphash_round(st);
  siphash_round(st); siphash_round(st);'''))
    r('siphash-load', 'C15', (S, '''  return (((uint64_t)(p[0] & 0xff)      ) |
          ((uint64_t)(p[1] & 0xff) <<  8) |
          ((uint64_t)(p[2] & 0xff) << 16) |
          ((uint64_t)(p[3] & 0xff) << 24) |
          ((uint64_t)(p[4] & 0xff) << 32) |
          ((uint64_t)(p[5] & 0xff) << 40) |
          ((uint64_t)(p[6] & 0xff) << 48) |
          ((uint64_t)(p[7] & 0xff) << 56));''', '''  uint64_t x = 0;
  for (int i = 7; i >= 0; i--) x = (x << 8) | p[i];
  return x;'''), (S, '''  p[0] = (v      ) & 0xff;
  p[1] = (v >>  8) & 0xff;
  p[2] = (v >> 16) & 0xff;
  p[3] = (v >> 24) & 0xff;
  p[4] = (v >> 32) & 0xff;
  p[5] = (v >> 40) & 0xff;
  p[6] = (v >> 48) & 0xff;
  p[7] = (v >> 56) & 0xff;''', '''  for (int i = 0; i < 8; i++, v >>= 8) p[i] = (unsigned char) v;'''))
    M = 'src/stubs-misc.c'
    r('xor-index', 'C28 C07 C16', (M, '''    while (l >= sizeof(uintnat)) {
      *((uintnat *) d) ^= *((uintnat *) s);
      s += sizeof(uintnat);
      d += sizeof(uintnat);
      l -= sizeof(uintnat);
    }
''', '''    long words = l / sizeof(uintnat), i;
    uintnat * dw = (uintnat *) d;
    const uintnat * sw = (const uintnat *) s;
    for (i = 0; i < words; i++) dw[i] ^= sw[i];
    s += words * sizeof(uintnat);
    d += words * sizeof(uintnat);
    l -= words * sizeof(uintnat);
'''))
    r('xor-helper', 'C28 C07', (M, '''CAMLprim value caml_xor_string(''', '''static void xor_bytes(char * d, const char * s, long n)
{
  long i;
  for (i = 0; i < n; i++) d[i] ^= s[i];
}

CAMLprim value caml_xor_string('''), (M, '''    while (ALIGNMENT_OF(s) != 0 && l > 0) {
      *d ^= *s;
      s += 1;
      d += 1;
      l -= 1;
    }
''', '''    long head = ALIGNMENT_OF(s) == 0 ? 0 : (long) (sizeof(uintnat) - ALIGNMENT_OF(s));
    xor_bytes(d, s, head);
    s += head; d += head; l -= head;
'''), (M, '''  while (l > 0) {
    *d ^= *s;
    s += 1;
    d += 1;
    l -= 1;
  }
  return''', '''  xor_bytes(d, s, l);
  return'''))
    r('wipez-loop', 'C27', (M, '''    memset(Data_custom_val(v), 0, (Wosize_val(v) - 1) * sizeof(value));
''', '''    mlsize_t i, n = Wosize_val(v);
    for (i = 1; i < n; i++) Field(v, i) = 0;
'''))
    G = 'src/stubs-rng.c'
    r('rng-while', 'C26', (G, '''  int retries;

  for (retries = 0; retries < 20; retries++) {
    __asm__ __volatile__ ("rdrand %0; setc %1" : "=r" (n), "=qm" (ok));
    if (ok) { *res = n; return 1; }
  }
  return 0;''', '''  int attempts_left = 20;

  while (attempts_left-- > 0) {
    __asm__ __volatile__ ("rdrand %0; setc %1" : "=r" (n), "=qm" (ok));
    if (!ok) continue;
    *res = n;
    return 1;
  }
  return 0;'''))
    r('rng-merged', 'C26 C16', (G, '''  uint64_t r, rr;

  while (nbytes >= 8) {
    if (! rdrand64(&r)) return Val_false;
    *((uint64_t *) dst) = r;
    dst += 8;
    nbytes -= 8;
  }
  if (nbytes > 0) {
    if (! rdrand64(&rr)) return Val_false;
    memcpy(dst, &rr, nbytes);
  }
''', '''  uint64_t r;

  while (nbytes > 0) {
    intnat n = nbytes < 8 ? nbytes : 8;
    if (! rdrand64(&r)) return Val_false;
    memcpy(dst, &r, n);
    dst += n;
    nbytes -= n;
  }
'''))
    r('rng-for', 'C26', (G, '''  while (l > 0) {
    int n = l < 256 ? l : 256;
    if (getentropy(p, n) == -1) return Val_false;
    p += n; l -= n;
  }''', '''  for (; l >= 256; p += 256, l -= 256) {
    if (getentropy(p, 256) != 0) return Val_false;
  }
  if (l > 0 && getentropy(p, l) != 0) return Val_false;'''))
    A = 'src/arcfour.c'
    r('arcfour-mod', 'C10', (A, '''    index2 = key_data[index1] + s[i] + index2;
    t = s[i]; s[i] = s[index2]; s[index2] = t;
    index1++;
    if (index1 >= key_data_len) index1 = 0;''', '''    index2 += s[i] + key_data[i % key_data_len];
    t = s[i];
    s[i] = s[index2];
    s[index2] = t;'''))
    r('arcfour-idx', 'C10', (A, '''  for (/*nothing*/; len > 0; len--) {
    x = (x + 1) & 0xFF;
    kx = key->state[x];
    y = (kx + y) & 0xFF;
    ky = key->state[y];
    key->state[x] = ky; key->state[y] = kx;
    *dst++ = *src++ ^ key->state[(kx + ky) & 0xFF];
  }''', '''  long i;
  unsigned char * st = key->state;
  for (i = 0; i < len; i++) {
    if (++x == 256) x = 0;
    kx = st[x];
    y = (y + kx) % 256;
    ky = st[y];
    st[x] = ky; st[y] = kx;
    dst[i] = src[i] ^ st[(kx + ky) % 256];
  }'''))
    B = 'src/blake2.c'
    r('blake2b-array', 'C01 C15', (B, '''  v0 = s->h[0];  v1 = s->h[1];
  v2 = s->h[2];  v3 = s->h[3];
  v4 = s->h[4];  v5 = s->h[5];
  v6 = s->h[6];  v7 = s->h[7];
  v8 = blake2b_iv[0];''', '''  uint64_t last = is_last_block ? UINT64_MAX : 0;
  v0 = s->h[0];  v1 = s->h[1];
  v2 = s->h[2];  v3 = s->h[3];
  v4 = s->h[4];  v5 = s->h[5];
  v6 = s->h[6];  v7 = s->h[7];
  v8 = blake2b_iv[0];'''), (B, 'v14 = is_last_block ? ~ blake2b_iv[6] : blake2b_iv[6];', 'v14 = blake2b_iv[6] ^ last;'),
     (B, '''  s->len[0] += numbytes;
  if (s->len[0] < numbytes) s->len[1]++; /* carry */''', '''  uint64_t newlen = s->len[0] + numbytes;
  if (newlen < s->len[0]) s->len[1] += 1;
  s->len[0] = newlen;'''))
    r('blake2s-take', 'C01 C03', (B, '''    n = BLAKE2s_BLOCKSIZE - s->numbytes;
    if (len <= n) {
      /* Not enough fresh data to compress.  Buffer the data. */
      memcpy(s->buffer + s->numbytes, data, len);
      s->numbytes += len;
      return;
    }
    memcpy(s->buffer + s->numbytes, data, n);
    blake2s_compress(s, s->buffer, BLAKE2s_BLOCKSIZE, 0);
    data += n; len -= n;
  }
  /* Process data by blocks of BLAKE2s_BLOCKSIZE */
  while (len > BLAKE2s_BLOCKSIZE) {
    blake2s_compress(s, data, BLAKE2s_BLOCKSIZE, 0);
    data += BLAKE2s_BLOCKSIZE; len -= BLAKE2s_BLOCKSIZE;
  }
  /* Save remaining data */
  memcpy(s->buffer, data, len);
  s->numbytes = len;
''', '''    n = BLAKE2s_BLOCKSIZE - s->numbytes;
    if (len > n) {
      memcpy(s->buffer + s->numbytes, data, n);
      blake2s_compress(s, s->buffer, BLAKE2s_BLOCKSIZE, 0);
      s->numbytes = 0;
      data += n; len -= n;
    }
  }
  if (s->numbytes == 0) {
    for (; len > BLAKE2s_BLOCKSIZE; len -= BLAKE2s_BLOCKSIZE) {
      blake2s_compress(s, data, BLAKE2s_BLOCKSIZE, 0);
      data += BLAKE2s_BLOCKSIZE;
    }
  }
  /* Save remaining data */
  memcpy(s->buffer + s->numbytes, data, len);
  s->numbytes += len;
'''))
    r('blake2b-mixfn', 'C01', (B, '''static void blake2b_compress(''', '''static inline void blake2b_mix(uint64_t v[16], int a, int b, int c, int d,
                               uint64_t x, uint64_t y)
{
  v[a] = v[a] + v[b] + x;
  v[d] = ROTR64(v[d] ^ v[a], 32);
  v[c] = v[c] + v[d];
  v[b] = ROTR64(v[b] ^ v[c], 24);
  v[a] = v[a] + v[b] + y;
  v[d] = ROTR64(v[d] ^ v[a], 16);
  v[c] = v[c] + v[d];
  v[b] = ROTR64(v[b] ^ v[c], 63);
}

static void blake2b_compress('''), (B, '''  uint64_t v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11, v12, v13, v14, v15;
''', '''  uint64_t v[16];
'''), (B, '''  v0 = s->h[0];  v1 = s->h[1];
  v2 = s->h[2];  v3 = s->h[3];
  v4 = s->h[4];  v5 = s->h[5];
  v6 = s->h[6];  v7 = s->h[7];
  v8 = blake2b_iv[0];  v9 = blake2b_iv[1];
  v10 = blake2b_iv[2]; v11 = blake2b_iv[3];
  v12 = blake2b_iv[4] ^ s->len[0];
  v13 = blake2b_iv[5] ^ s->len[1];
  v14 = is_last_block ? ~ blake2b_iv[6] : blake2b_iv[6];
  v15 = blake2b_iv[7];
''', '''  for (i = 0; i < 8; i++) {
    v[i] = s->h[i];
    v[i + 8] = blake2b_iv[i];
  }
  v[12] ^= s->len[0];
  v[13] ^= s->len[1];
  if (is_last_block) v[14] = ~ v[14];
'''), (B, '''    MIX2B(v0, v4, v8,  v12, m[sigma[0]], m[sigma[1]]);
    MIX2B(v1, v5, v9,  v13, m[sigma[2]], m[sigma[3]]);
    MIX2B(v2, v6, v10, v14, m[sigma[4]], m[sigma[5]]);
    MIX2B(v3, v7, v11, v15, m[sigma[6]], m[sigma[7]]);
    MIX2B(v0, v5, v10, v15, m[sigma[8]],  m[sigma[9]]);
    MIX2B(v1, v6, v11, v12, m[sigma[10]], m[sigma[11]]);
    MIX2B(v2, v7, v8,  v13, m[sigma[12]], m[sigma[13]]);
    MIX2B(v3, v4, v9,  v14, m[sigma[14]], m[sigma[15]]);
  }
  /* Update state  */
  s->h[0] ^= v0 ^ v8;   s->h[1] ^= v1 ^ v9;
  s->h[2] ^= v2 ^ v10;  s->h[3] ^= v3 ^ v11;
  s->h[4] ^= v4 ^ v12;  s->h[5] ^= v5 ^ v13;
  s->h[6] ^= v6 ^ v14;  s->h[7] ^= v7 ^ v15;
''', '''    blake2b_mix(v, 0, 4,  8, 12, m[sigma[0]], m[sigma[1]]);
    blake2b_mix(v, 1, 5,  9, 13, m[sigma[2]], m[sigma[3]]);
    blake2b_mix(v, 2, 6, 10, 14, m[sigma[4]], m[sigma[5]]);
    blake2b_mix(v, 3, 7, 11, 15, m[sigma[6]], m[sigma[7]]);
    blake2b_mix(v, 0, 5, 10, 15, m[sigma[8]], m[sigma[9]]);
    blake2b_mix(v, 1, 6, 11, 12, m[sigma[10]], m[sigma[11]]);
    blake2b_mix(v, 2, 7,  8, 13, m[sigma[12]], m[sigma[13]]);
    blake2b_mix(v, 3, 4,  9, 14, m[sigma[14]], m[sigma[15]]);
  }
  /* Update state  */
  for (i = 0; i < 8; i++) s->h[i] ^= v[i] ^ v[i + 8];
'''))
    K = 'src/keccak.c'
    k = open('/repo/' + K).read()
    a = k.index('        t = st[1];\n'); b = k.index('        //  Chi')
    r('keccak-tables', 'C01', (K, '#if 0\nstatic const int keccakf_rotc', '#if 1\nstatic const int keccakf_rotc'), (K, k[a:b], '''        t = st[1];
        for (j = 0; j < 24; j++) {
          int dest = keccakf_piln[j];
          bc[0] = st[dest];
          st[dest] = ROTL64(t, keccakf_rotc[j]);
          t = bc[0];
        }

'''), (K, '''          CHI1(0,j); CHI1(1,j); CHI1(2,j); CHI1(3,j); CHI1(4,j);
          CHI2(0,j); CHI2(1,j); CHI2(2,j); CHI2(3,j); CHI2(4,j);
''', '''          int i;
          for (i = 0; i < 5; i++) bc[i] = st[j + i];
          for (i = 0; i < 5; i++) st[j + i] ^= (~bc[(i + 1) % 5]) & bc[(i + 2) % 5];
'''))
    r('keccak-extract', 'C01 C03', (K, '''  for (i = 0, j = 0; j < ctx->hsiz; i += 1, j += 8) {
    u64 st = ctx->state[i];
    output[j] = st;
    output[j + 1] = st >> 8;
    output[j + 2] = st >> 16;
    output[j + 3] = st >> 24;
    if (j + 4 >= ctx->hsiz) break;
    output[j + 4] = st >> 32;
    output[j + 5] = st >> 40;
    output[j + 6] = st >> 48;
    output[j + 7] = st >> 56;
  }''', '''  for (i = 0; i < ctx->hsiz; i++)
    output[i] = ctx->state[i / 8] >> (8 * (i % 8));'''), (K, '''  n = ctx->numbytes;
  ctx->buffer[n] = padding;
  n++;
  memset(ctx->buffer + n, 0, ctx->rsiz - n);
  ctx->buffer[ctx->rsiz - 1] |= 0x80;
''', '''  n = ctx->numbytes;
  memset(ctx->buffer + n, 0, ctx->rsiz - n);
  ctx->buffer[n] = padding;
  ctx->buffer[ctx->rsiz - 1] ^= 0x80;
'''))
    r('keccak-absorbbuf', 'C01 C03', (K, '''    n = ctx->rsiz - ctx->numbytes;
    if (len < n) {
      memcpy(ctx->buffer + ctx->numbytes, data, len);
      ctx->numbytes += len;
      return;
    }
    memcpy(ctx->buffer + ctx->numbytes, data, n);
    KeccakAbsorb(ctx->state, ctx->buffer, ctx->rsiz);
    data += n;
    len  -= n;''', '''    n = ctx->rsiz - ctx->numbytes;
    if (n > len) n = len;
    memcpy(ctx->buffer + ctx->numbytes, data, n);
    ctx->numbytes += n;
    if (ctx->numbytes < ctx->rsiz) return;
    KeccakAbsorb(ctx->state, ctx->buffer, ctx->rsiz);
    ctx->numbytes = 0;
    data += n;
    len  -= n;'''))
    H = 'src/ghash.c'
    r('ghash-helper', 'C06 C11', (H, '''EXPORT void ghash_mult(''', '''static const uint64_t ghash_last4[16] = {
  0x0000, 0x1c20, 0x3840, 0x2460, 0x7080, 0x6ca0, 0x48c0, 0x54e0,
  0xe100, 0xfd20, 0xd940, 0xc560, 0x9180, 0x8da0, 0xa9c0, 0xb5e0
};

static inline void ghash_step(const struct ghash_context * ctx,
                              uint64_t * zh, uint64_t * zl, uint8_t nibble)
{
  uint8_t rem = (uint8_t) (*zl & 0x0f);
  *zl = (*zh << 60) | (*zl >> 4);
  *zh = (*zh >> 4) ^ (ghash_last4[rem] << 48);
  *zh ^= ctx->HH[nibble];
  *zl ^= ctx->HL[nibble];
}

EXPORT void ghash_mult('''), (H, '''    static const uint64_t last4[16] = {
        0x0000, 0x1c20, 0x3840, 0x2460, 0x7080, 0x6ca0, 0x48c0, 0x54e0,
        0xe100, 0xfd20, 0xd940, 0xc560, 0x9180, 0x8da0, 0xa9c0, 0xb5e0
    };
    int i;
    uint8_t lo, hi, rem;
''', '''    int i;
    uint8_t lo;
'''), (H, '''    hi = (uint8_t)( input[15] >> 4 );
    zh = ctx->HH[lo];
    zl = ctx->HL[lo];

    for( i = 15; i >= 0; i-- ) {
        lo = (uint8_t) ( input[i] & 0x0f );
        hi = (uint8_t) ( input[i] >> 4 );

        if( i != 15 ) {
            rem = (uint8_t) ( zl & 0x0f );
            zl = ( zh << 60 ) | ( zl >> 4 );
            zh = ( zh >> 4 );
            zh ^= (uint64_t) last4[rem] << 48;
            zh ^= ctx->HH[lo];
            zl ^= ctx->HL[lo];
        }
        rem = (uint8_t) ( zl & 0x0f );
        zl = ( zh << 60 ) | ( zl >> 4 );
        zh = ( zh >> 4 );
        zh ^= (uint64_t) last4[rem] << 48;
        zh ^= ctx->HH[hi];
        zl ^= ctx->HL[hi];
    }
''', '''    zh = ctx->HH[lo];
    zl = ctx->HL[lo];
    ghash_step(ctx, &zh, &zl, input[15] >> 4);
    for( i = 14; i >= 0; i-- ) {
        ghash_step(ctx, &zh, &zl, input[i] & 0x0f);
        ghash_step(ctx, &zh, &zl, input[i] >> 4);
    }
'''))
    r('ghash-init', 'C06 C11', (H, '''    for (i = 2; i < 16; i <<= 1 ) {
        uint64_t *HiL = ctx->HL + i, *HiH = ctx->HH + i;
        vh = *HiH;
        vl = *HiL;
        for( j = 1; j < i; j++ ) {
            HiH[j] = vh ^ ctx->HH[j];
            HiL[j] = vl ^ ctx->HL[j];
        }
    }''', '''    for (i = 2; i <= 8; i *= 2) {
        for (j = 1; j < i; j++) {
            ctx->HH[i + j] = ctx->HH[i] ^ ctx->HH[j];
            ctx->HL[i + j] = ctx->HL[i] ^ ctx->HL[j];
        }
    }'''), (H, '''        uint32_t T = (uint32_t) ( vl & 1 ) * 0xe1000000U;
        vl  = ( vh << 63 ) | ( vl >> 1 );
        vh  = ( vh >> 1 ) ^ ( (uint64_t) T << 32);
''', '''        int carry = vl & 1;
        vl = (vl >> 1) | (vh << 63);
        vh >>= 1;
        if (carry) vh ^= (uint64_t) 0xe1 << 56;
'''))
    r('pclmul-loop', 'C06 C11', ('src/pclmul.c', '''#define COPY(i) *((uint8_t*) dst + i) = *((const uint8_t *) src + 15 - i)
  COPY(0); COPY(1); COPY(2); COPY(3);
  COPY(4); COPY(5); COPY(6); COPY(7);
  COPY(8); COPY(9); COPY(10); COPY(11);
  COPY(12); COPY(13); COPY(14); COPY(15);
#undef COPY
''', '''  uint8_t * d = dst;
  const uint8_t * s = src;
  int i;
  for (i = 0; i < 16; i++) d[i] = s[15 - i];
'''), ('src/pclmul.c', '''    pclmul_available = (ecx & (1 << 1)) != 0;
  } else {
    pclmul_available = 0;
  }
  return''', '''    pclmul_available = (ecx >> 1) & 1;
  } else
    pclmul_available = 0;
  return'''))
    r('aesni-for', 'C04 C06', ('src/aesni.c', '''  j = 1;
  do {
    k = _mm_loadu_si128 ((__m128i*) key + j);
    t = _mm_aesenc_si128 (t, k);
    j++;
  } while (j < nrounds);
''', '''  for (j = 1; j < nrounds; j++) {
    k = _mm_loadu_si128 ((__m128i*) key + j);
    t = _mm_aesenc_si128 (t, k);
  }
'''), ('src/aesni.c', '''  nrounds = aesni_key_expansion(key, keylength, key_schedule);
  _mm_storeu_si128((__m128i*) ckey + 0, key_schedule[nrounds]);
  for (i = 1; i < nrounds; i++) {
    _mm_storeu_si128((__m128i*) ckey + i,
                     _mm_aesimc_si128(key_schedule[nrounds - i]));
  }
  _mm_storeu_si128((__m128i*) ckey + nrounds, key_schedule[0]);
''', '''  nrounds = aesni_key_expansion(key, keylength, key_schedule);
  for (i = 0; i <= nrounds; i++) {
    __m128i rk = key_schedule[nrounds - i];
    if (i > 0 && i < nrounds) rk = _mm_aesimc_si128(rk);
    _mm_storeu_si128((__m128i*) ckey + i, rk);
  }
'''))
    r('rijndael-swap', 'C04 C06', ('src/rijndael-alg-fst.c', '''	for (i = 0, j = 4*Nr; i < j; i += 4, j -= 4) {
		temp = rk[i    ]; rk[i    ] = rk[j    ]; rk[j    ] = temp;
		temp = rk[i + 1]; rk[i + 1] = rk[j + 1]; rk[j + 1] = temp;
		temp = rk[i + 2]; rk[i + 2] = rk[j + 2]; rk[j + 2] = temp;
		temp = rk[i + 3]; rk[i + 3] = rk[j + 3]; rk[j + 3] = temp;
	}
''', '''	for (i = 0, j = 4*Nr; i < j; i += 4, j -= 4) {
		int k;
		for (k = 0; k < 4; k++) {
			temp = rk[i + k];
			rk[i + k] = rk[j + k];
			rk[j + k] = temp;
		}
	}
'''), ('src/rijndael-alg-fst.c', '''EXPORT int rijndaelKeySetupEnc(''', '''static inline u32 SubRotWord(u32 w)
{
	return (Te4[(w >> 16) & 0xff] & 0xff000000) ^
		(Te4[(w >>  8) & 0xff] & 0x00ff0000) ^
		(Te4[(w      ) & 0xff] & 0x0000ff00) ^
		(Te4[(w >> 24)       ] & 0x000000ff);
}

EXPORT int rijndaelKeySetupEnc('''), ('src/rijndael-alg-fst.c', '''			temp  = rk[3];
			rk[4] = rk[0] ^
				(Te4[(temp >> 16) & 0xff] & 0xff000000) ^
				(Te4[(temp >>  8) & 0xff] & 0x00ff0000) ^
				(Te4[(temp      ) & 0xff] & 0x0000ff00) ^
				(Te4[(temp >> 24)       ] & 0x000000ff) ^
				rcon[i];
''', '''			rk[4] = rk[0] ^ SubRotWord(rk[3]) ^ rcon[i];
'''), ('src/rijndael-alg-fst.c', '''		for (;;) {
			temp = rk[ 5];
			rk[ 6] = rk[ 0] ^
				(Te4[(temp >> 16) & 0xff] & 0xff000000) ^
				(Te4[(temp >>  8) & 0xff] & 0x00ff0000) ^
				(Te4[(temp      ) & 0xff] & 0x0000ff00) ^
				(Te4[(temp >> 24)       ] & 0x000000ff) ^
				rcon[i];
			rk[ 7] = rk[ 1] ^ rk[ 6];
			rk[ 8] = rk[ 2] ^ rk[ 7];
			rk[ 9] = rk[ 3] ^ rk[ 8];
			if (++i == 8) {
				return 12;
			}
			rk[10] = rk[ 4] ^ rk[ 9];
			rk[11] = rk[ 5] ^ rk[10];
			rk += 6;
		}
''', '''		for (i = 6; i < 52; i++) {
			temp = rk[i - 1];
			if (i % 6 == 0) temp = SubRotWord(temp) ^ rcon[i / 6 - 1];
			rk[i] = rk[i - 6] ^ temp;
		}
		return 12;
'''))
    r('des-cookey', 'C05 C07', ('src/d3des.c', '''    *cook	 = (*raw0 & 0x00fc0000L) << 6;
    *cook	|= (*raw0 & 0x00000fc0L) << 10;
    *cook	|= (*raw1 & 0x00fc0000L) >> 10;
    *cook++	|= (*raw1 & 0x00000fc0L) >> 6;
    *cook	 = (*raw0 & 0x0003f000L) << 12;
    *cook	|= (*raw0 & 0x0000003fL) << 16;
    *cook	|= (*raw1 & 0x0003f000L) >> 4;
    *cook++	|= (*raw1 & 0x0000003fL);
''', '''    cook[0] = (*raw0 & 0x00fc0000L) << 6 | (*raw0 & 0x00000fc0L) << 10
            | (*raw1 & 0x00fc0000L) >> 10 | (*raw1 & 0x00000fc0L) >> 6;
    cook[1] = (*raw0 & 0x0003f000L) << 12 | (*raw0 & 0x0000003fL) << 16
            | (*raw1 & 0x0003f000L) >> 4 | (*raw1 & 0x0000003fL);
    cook += 2;
'''), ('src/d3des.c', '''    for( j = 0; j < 28; j++ ) {
      l = j + totrot[i];
      if( l < 28 ) pcr[j] = pc1m[l];
      else pcr[j] = pc1m[l - 28];
    }
    for( j = 28; j < 56; j++ ) {
      l = j + totrot[i];
      if( l < 56 ) pcr[j] = pc1m[l];
      else pcr[j] = pc1m[l - 28];
    }
''', '''    for( j = 0; j < 28; j++ ) {
      l = (j + totrot[i]) % 28;
      pcr[j] = pc1m[l];
      pcr[j + 28] = pc1m[l + 28];
    }
'''))
    W = 'src/blowfish.c'
    r('blowfish-inline', 'C05', (W, '''#define F(ctx,x) \\
''', '''#define FOLD(ctx,x) \\
'''), (W, '''EXPORT void Blowfish_Encrypt(BLOWFISH_CTX *ctx, u32 *xl, u32 *xr){''', '''static inline u32 F(BLOWFISH_CTX *ctx, u32 x)
{
  u32 y = ctx->S[0][x >> 24] + ctx->S[1][(x >> 16) & 0xFF];
  y ^= ctx->S[2][(x >> 8) & 0xFF];
  return y + ctx->S[3][x & 0xFF];
}

EXPORT void Blowfish_Encrypt(BLOWFISH_CTX *ctx, u32 *xl, u32 *xr){'''))
    P = 'src/poly1305-donna-64.h'
    r('poly-finish', 'C12', (P, '''		size_t i = st->leftover;
		st->buffer[i] = 1;
		for (i = i + 1; i < poly1305_block_size; i++)
			st->buffer[i] = 0;
''', '''		size_t i;
		st->buffer[st->leftover] = 1;
		for (i = st->leftover + 1; i < poly1305_block_size; i++)
			st->buffer[i] = 0;
'''), (P, '''		MUL(d0, h0, r0); MUL(d, h1, s2); ADD(d0, d); MUL(d, h2, s1); ADD(d0, d);
		MUL(d1, h0, r1); MUL(d, h1, r0); ADD(d1, d); MUL(d, h2, s2); ADD(d1, d);
		MUL(d2, h0, r2); MUL(d, h1, r1); ADD(d2, d); MUL(d, h2, r0); ADD(d2, d);
''', '''		(void) d;
		d0 = (uint128) h0 * r0 + (uint128) h1 * s2 + (uint128) h2 * s1;
		d1 = (uint128) h0 * r1 + (uint128) h1 * r0 + (uint128) h2 * s2;
		d2 = (uint128) h0 * r2 + (uint128) h1 * r1 + (uint128) h2 * r0;
'''))
    r('poly-select', 'C12', (P, '''	c = (g2 >> ((sizeof(uint64_t) * 8) - 1)) - 1;
	g0 &= c;
	g1 &= c;
	g2 &= c;
	c = ~c;
	h0 = (h0 & c) | g0;
	h1 = (h1 & c) | g1;
	h2 = (h2 & c) | g2;
''', '''	c = (g2 >> 63) - 1;
	h0 ^= (h0 ^ g0) & c;
	h1 ^= (h1 ^ g1) & c;
	h2 ^= (h2 ^ g2) & c;
'''))
    r('poly-store', 'C12 C16', ('src/poly1305-donna.c', '''	if (bytes) {
		for (i = 0; i < bytes; i++)
			st->buffer[st->leftover + i] = m[i];
		st->leftover += bytes;
	}''', '''	for (i = 0; i < bytes; i++)
		st->buffer[i] = m[i];
	st->leftover = bytes;'''))
    Q = 'src/blake3.c'
    r('blake3-compress', 'C02 C03', (Q, '''INLINE void chunk_state_update(''', '''INLINE void chunk_state_compress(blake3_chunk_state *self,
                                 const uint8_t block[BLAKE3_BLOCK_LEN]) {
  uint8_t flags = self->flags;
  if (self->blocks_compressed == 0) flags |= CHUNK_START;
  blake3_compress_in_place(self->cv, block, BLAKE3_BLOCK_LEN,
                           self->chunk_counter, flags);
  self->blocks_compressed += 1;
}

INLINE void chunk_state_update('''), (Q, '''      blake3_compress_in_place(
          self->cv, self->buf, BLAKE3_BLOCK_LEN, self->chunk_counter,
          self->flags | chunk_state_maybe_start_flag(self));
      self->blocks_compressed += 1;
''', '''      chunk_state_compress(self, self->buf);
'''), (Q, '''    blake3_compress_in_place(self->cv, input, BLAKE3_BLOCK_LEN,
                             self->chunk_counter,
                             self->flags | chunk_state_maybe_start_flag(self));
    self->blocks_compressed += 1;
''', '''    chunk_state_compress(self, input);
'''))
    r('blake3-for', 'C02', (Q, '''  const uint8_t *parents_array[MAX_SIMD_DEGREE_OR_2];
  size_t parents_array_len = 0;
  while (num_chaining_values - (2 * parents_array_len) >= 2) {
    parents_array[parents_array_len] =
        &child_chaining_values[2 * parents_array_len * BLAKE3_OUT_LEN];
    parents_array_len += 1;
  }
''', '''  const uint8_t *parents_array[MAX_SIMD_DEGREE_OR_2];
  const size_t parents_array_len = num_chaining_values / 2;
  for (size_t i = 0; i < parents_array_len; i++)
    parents_array[i] = child_chaining_values + i * BLAKE3_BLOCK_LEN;
'''), (Q, '''    size_t available_bytes = 64 - offset_within_block;
    size_t memcpy_len;
    if (out_len > available_bytes) {
      memcpy_len = available_bytes;
    } else {
      memcpy_len = out_len;
    }
''', '''    size_t memcpy_len = 64 - offset_within_block;
    if (memcpy_len > out_len) memcpy_len = out_len;
'''))
    Z = 'src/stubs-zlib.c'
    r('zlib-locals', 'C25 C30', (Z, '''  zs->next_in = &Byte_u(srcbuf, Long_val(srcpos));
  zs->avail_in = Avail_val(srclen);
  zs->next_out = &Byte_u(dstbuf, Long_val(dstpos));
  zs->avail_out = Avail_val(dstlen);
  retcode = deflate(zs, caml_zlib_flush_table[Int_val(vflush)]);
  /* Z_BUF_ERROR is not fatal: there was just nothing to do */
  if (retcode < 0 && retcode != Z_BUF_ERROR)
    caml_zlib_error("Zlib.deflate", vzs);
  used_in = Avail_val(srclen) - zs->avail_in;
  used_out = Avail_val(dstlen) - zs->avail_out;
''', '''  int flush = caml_zlib_flush_table[Int_val(vflush)];
  uInt in_avail = Avail_val(srclen), out_avail = Avail_val(dstlen);

  zs->avail_in = in_avail;
  zs->next_in = &Byte_u(srcbuf, Long_val(srcpos));
  zs->avail_out = out_avail;
  zs->next_out = &Byte_u(dstbuf, Long_val(dstpos));
  retcode = deflate(zs, flush);
  if (retcode < 0) {
    if (retcode != Z_BUF_ERROR) caml_zlib_error("Zlib.deflate", vzs);
  }
  used_in = in_avail - zs->avail_in;
  used_out = out_avail - zs->avail_out;
'''))
    r('zlib-result', 'C25 C30', (Z, '''CAMLprim
value caml_zlib_deflateInit(value vlevel, value expect_header)
{
  value vzs''', '''static value caml_zlib_result(int finished, long used_in, long used_out)
{
  value res = caml_alloc_small(3, 0);
  Field(res, 0) = Val_bool(finished);
  Field(res, 1) = Val_long(used_in);
  Field(res, 2) = Val_long(used_out);
  return res;
}

CAMLprim
value caml_zlib_deflateInit(value vlevel, value expect_header)
{
  value vzs'''), (Z, '''  value res;

  zs->next_in''', '''
  zs->next_in'''), (Z, '''  res = caml_alloc_small(3, 0);
  Field(res, 0) = Val_bool(retcode == Z_STREAM_END);
  Field(res, 1) = Val_int(used_in);
  Field(res, 2) = Val_int(used_out);
  return res;
''', '''  return caml_zlib_result(retcode == Z_STREAM_END, used_in, used_out);
'''), (Z, '''  int wbits''', '') if False else (Z, '''  value vzs = caml_zlib_new_stream();
  if (inflateInit2(ZStream_val(vzs),
                   Bool_val(expect_header) ? MAX_WBITS : -MAX_WBITS) != Z_OK)
    caml_zlib_error("Zlib.inflateInit", vzs);
  return vzs;''', '''  int wbits = Bool_val(expect_header) ? MAX_WBITS : -MAX_WBITS;
  value vzs = caml_zlib_new_stream();
  int rc = inflateInit2(ZStream_val(vzs), wbits);
  if (rc != Z_OK)
    caml_zlib_error("Zlib.inflateInit", vzs);
  return vzs;'''))
    r('aes-stub', 'C04 C06 C30', ('src/stubs-aes.c', '''CAMLprim value caml_aes_encrypt(value ckey, value src, value src_ofs,
                                value dst, value dst_ofs)
{
  if (aesni_available == 1)
    aesniEncrypt((const u8 *) String_val(ckey),
                 Byte(ckey, Cooked_key_NR_offset),
                 (const u8 *) &Byte(src, Long_val(src_ofs)),
                 (u8 *) &Byte(dst, Long_val(dst_ofs)));
  else
    rijndaelEncrypt((const u32 *) String_val(ckey),
                    Byte(ckey, Cooked_key_NR_offset),
                    (const u8 *) &Byte(src, Long_val(src_ofs)),
                    (u8 *) &Byte(dst, Long_val(dst_ofs)));
  return Val_unit;''', '''CAMLprim value caml_aes_encrypt(value ckey, value src, value src_ofs,
                                value dst, value dst_ofs)
{
  int nr = Byte(ckey, Cooked_key_NR_offset);
  const u8 * in = (const u8 *) &Byte(src, Long_val(src_ofs));
  u8 * out = (u8 *) &Byte(dst, Long_val(dst_ofs));

  if (aesni_available != 1)
    rijndaelEncrypt((const u32 *) String_val(ckey), nr, in, out);
  else
    aesniEncrypt((const u8 *) String_val(ckey), nr, in, out);
  return Val_unit;'''), ('src/stubs-aes.c', '''  CAMLparam1(key);
  value ckey = caml_alloc_string(Cooked_key_size);
  int nr;

  if (aesni_available == -1) aesni_check_available();
  if (aesni_available == 1)
    nr = aesniKeySetupEnc((u8 *) String_val(ckey),
                          (const u8 *) String_val(key),
                          8 * caml_string_length(key));
  else
    nr = rijndaelKeySetupEnc((u32 *) String_val(ckey),
                             (const u8 *) String_val(key),
                             8 * caml_string_length(key));
''', '''  CAMLparam1(key);
  CAMLlocal1(ckey);
  int nr, keybits = 8 * caml_string_length(key);

  ckey = caml_alloc_string(Cooked_key_size);
  if (aesni_available == -1) aesni_check_available();
  if (aesni_available == 1)
    nr = aesniKeySetupEnc((u8 *) String_val(ckey),
                          (const u8 *) String_val(key), keybits);
  else
    nr = rijndaelKeySetupEnc((u32 *) String_val(ckey),
                             (const u8 *) String_val(key), keybits);
'''))
    r('sha1-macros', 'C01', ('src/sha1.c', '''  for (i = 0; i < 20; i++) {
    t = F(b, c, d) + Y1 + rol5(a) + e + data[i];
    e = d; d = c; c = rol30(b); b = a; a = t;
  }
  for (/*nothing*/; i < 40; i++) {
    t = H(b, c, d) + Y2 + rol5(a) + e + data[i];
    e = d; d = c; c = rol30(b); b = a; a = t;
  }
  for (/*nothing*/; i < 60; i++) {
    t = G(b, c, d) + Y3 + rol5(a) + e + data[i];
    e = d; d = c; c = rol30(b); b = a; a = t;
  }
  for (/*nothing*/; i < 80; i++) {
    t = H(b, c, d) + Y4 + rol5(a) + e + data[i];
    e = d; d = c; c = rol30(b); b = a; a = t;
  }
''', '''  for (i = 0; i < 80; i++) {
    if (i < 20) t = F(b, c, d) + Y1;
    else if (i < 40) t = H(b, c, d) + Y2;
    else if (i < 60) t = G(b, c, d) + Y3;
    else t = H(b, c, d) + Y4;
    t += rol5(a) + e + data[i];
    e = d; d = c; c = rol30(b); b = a; a = t;
  }
'''), ('src/sha1.c', '''#define G(x,y,z) ( (x & y) | (z & (x | y) ) )''', '''#define G(x,y,z) ( (x & y) ^ (x & z) ^ (y & z) )'''))
    r('sha1-pad', 'C01 C03', ('src/sha1.c', '''  if (i > 56) {
    memset(ctx->buffer + i, 0, 64 - i);
    SHA1_transform(ctx);
    i = 0;
  }
  /* Pad to byte 56 with zeroes */
  memset(ctx->buffer + i, 0, 56 - i);
''', '''  if (i > 56) {
    while (i < 64) ctx->buffer[i++] = 0;
    SHA1_transform(ctx);
    i = 0;
  }
  /* Pad to byte 56 with zeroes */
  while (i < 56) ctx->buffer[i++] = 0;
'''))
    r('sha1-bytewise', 'C01 C03', ('src/sha1.c', '''  if (ctx->numbytes != 0) {
    t = 64 - ctx->numbytes;
    if (len < t) {
      memcpy(ctx->buffer + ctx->numbytes, data, len);
      ctx->numbytes += len;
      return;
    }
    memcpy(ctx->buffer + ctx->numbytes, data, t);
    SHA1_transform(ctx);
    data += t;
    len -= t;
  }
  /* Munge data in 64-byte chunks */
  while (len >= 64) {
    memcpy(ctx->buffer, data, 64);
    SHA1_transform(ctx);
    data += 64;
    len -= 64;
  }
  /* Save remaining data */
  memcpy(ctx->buffer, data, len);
  ctx->numbytes = len;
''', '''  while (len > 0) {
    t = 64 - ctx->numbytes;
    if (len < t) t = len;
    memcpy(ctx->buffer + ctx->numbytes, data, t);
    ctx->numbytes += t;
    data += t;
    len -= t;
    if (ctx->numbytes == 64) {
      SHA1_transform(ctx);
      ctx->numbytes = 0;
    }
  }
'''))
    r('sha512-const', 'C01 C03', ('src/sha512.c', '''  while (len >= 128) {
    memcpy(ctx->buffer, data, 128);
    SHA512_transform(ctx);
    data += 128;
    len -= 128;
  }''', '''  const unsigned char * stop = data + (len - len % 128);
  while (data != stop) {
    memcpy(ctx->buffer, data, 128);
    SHA512_transform(ctx);
    data += 128;
  }
  len = len % 128;'''))
    r('ripemd160-loop', 'C01 C03', ('src/ripemd160.c', '''  while (len >= 64) {
    memcpy(ctx->buffer, data, 64);
    RIPEMD160_compress(ctx);
    data += 64;
    len -= 64;
  }''', '''  for (; 64 <= len; len -= 64) {
    memcpy(ctx->buffer, data, 64);
    data += 64;
    RIPEMD160_compress(ctx);
  }'''))
    r('blake2-stub', 'C01 C15 C30', ('src/stubs-blake2.c', '''  CAMLparam1(ctx);
  CAMLlocal1(res);
  int len = Int_val(hashlen);
  res = caml_alloc_string(len);
  blake2b_final(blake2b_val(ctx), len, &Byte_u(res, 0));
  CAMLreturn(res);''', '''  unsigned char buf[64];
  int len = Int_val(hashlen);
  value res;
  blake2b_final(blake2b_val(ctx), len, buf);
  res = caml_alloc_string(len);
  memcpy(&Byte_u(res, 0), buf, len);
  return res;'''))
    r('blake3-stub', 'C02 C30 C27', ('src/stubs-blake3.c', '''  if (Context_val(ctx) != NULL)
    memset(Context_val(ctx), 0, sizeof(blake3_hasher));
  caml_blake3_finalize(ctx);
  return''', '''  blake3_hasher * h = Context_val(ctx);
  if (h != NULL) {
    memset(h, 0, sizeof(*h));
    caml_stat_free(h);
    Context_val(ctx) = NULL;
  }
  return'''))
    r('sha3-stub', 'C01 C30 C27', ('src/stubs-sha3.c', '''  if (Context_val(ctx) != NULL) {
    memset(Context_val(ctx), 0, sizeof(struct SHA3Context));
    caml_stat_free(Context_val(ctx));
    Context_val(ctx) = NULL;
  }
  return''', '''  if (Context_val(ctx) == NULL) return Val_unit;
  memset(Context_val(ctx), 0, sizeof(struct SHA3Context));
  caml_sha3_finalize(ctx);
  return'''), ('src/stubs-sha3.c', '''  res = caml_alloc_string(Context_val(ctx)->hsiz);
  SHA3_extract(Bool_val(official) ? sha3_padding : keccak_padding, Context_val(ctx), &Byte_u(res, 0));
''', '''  unsigned padding = Bool_val(official) ? sha3_padding : keccak_padding;
  struct SHA3Context * c = Context_val(ctx);
  res = caml_alloc_string(c->hsiz);
  SHA3_extract(padding, c, &Byte_u(res, 0));
'''))
    r('chacha-stub', 'C10 C30', ('src/stubs-chacha20.c', '''  CAMLparam3(key, iv, counter);
  value ckey = caml_alloc_string(Cooked_key_size);
  chacha20_init(Key_val(ckey),
                (unsigned char *) String_val(key), caml_string_length(key),
                (unsigned char *) String_val(iv), caml_string_length(iv),
                Int64_val(counter));
  CAMLreturn(ckey);''', '''  uint64_t ctr = Int64_val(counter);
  CAMLparam2(key, iv);
  CAMLlocal1(ckey);
  ckey = caml_alloc_string(Cooked_key_size);
  chacha20_init(Key_val(ckey),
                &Byte_u(key, 0), caml_string_length(key),
                &Byte_u(iv, 0), caml_string_length(iv),
                ctr);
  CAMLreturn(ckey);'''))
    r('blowfish-stub', 'C05', ('src/stubs-blowfish.c', '''CAMLprim value caml_blowfish_encrypt(''', '''static u32 load_be(const unsigned char * p)
{
  return ((u32) p[0] << 24) | ((u32) p[1] << 16) | ((u32) p[2] << 8) | p[3];
}

CAMLprim value caml_blowfish_encrypt('''), ('src/stubs-blowfish.c', '''  COPY4BYTES((unsigned char *) &xl, p);
  COPY4BYTES((unsigned char *) &xr, p + 4);
  Blowfish_Encrypt(''', '''  xl = load_be(p);
  xr = load_be(p + 4);
  Blowfish_Encrypt('''))
