/* BLAKE3 straight from the paper's definition (recursion on the largest power of two): refb3 LEN SEED OUTLEN [KEYHEX]; message = the '@' token of driver.ml */
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <string.h>
typedef struct { uint32_t cv[8], b[16], len, fl; uint64_t ctr; } node;
static const uint32_t IV[8] = { 0x6A09E667, 0xBB67AE85, 0x3C6EF372, 0xA54FF53A, 0x510E527F, 0x9B05688C, 0x1F83D9AB, 0x5BE0CD19 };
static uint32_t key[8], base;
static uint32_t ror(uint32_t x, int n) { return x >> n | x << (32 - n); }
static void g(uint32_t *v, int a, int b, int c, int d, uint32_t x, uint32_t y)
{ v[a] += v[b] + x; v[d] = ror(v[d] ^ v[a], 16); v[c] += v[d]; v[b] = ror(v[b] ^ v[c], 12); v[a] += v[b] + y; v[d] = ror(v[d] ^ v[a], 8); v[c] += v[d]; v[b] = ror(v[b] ^ v[c], 7); }
static void comp(const node *n, uint64_t ctr, uint32_t fl, uint32_t *out)
{
  static const int P[16] = { 2, 6, 3, 10, 7, 0, 4, 13, 1, 11, 12, 5, 9, 14, 15, 8 };
  uint32_t v[16], m[16], t[16]; int r, i;
  for (i = 0; i < 8; i++) v[i] = n->cv[i];
  for (i = 0; i < 4; i++) v[8 + i] = IV[i];
  v[12] = (uint32_t) ctr; v[13] = (uint32_t) (ctr >> 32); v[14] = n->len; v[15] = fl; memcpy(m, n->b, 64);
  for (r = 0; r < 7; r++) {
    g(v, 0, 4, 8, 12, m[0], m[1]); g(v, 1, 5, 9, 13, m[2], m[3]); g(v, 2, 6, 10, 14, m[4], m[5]); g(v, 3, 7, 11, 15, m[6], m[7]);
    g(v, 0, 5, 10, 15, m[8], m[9]); g(v, 1, 6, 11, 12, m[10], m[11]); g(v, 2, 7, 8, 13, m[12], m[13]); g(v, 3, 4, 9, 14, m[14], m[15]);
    for (i = 0; i < 16; i++) t[i] = m[P[i]];
    memcpy(m, t, 64);
  }
  for (i = 0; i < 8; i++) { out[i] = v[i] ^ v[i + 8]; out[i + 8] = v[i + 8] ^ n->cv[i]; }
}
static void chunk(const unsigned char *p, size_t n, uint64_t i, node *r)
{
  uint32_t o[16]; size_t k = 0; memcpy(r->cv, key, 32); r->ctr = i;
  for (;;) {
    size_t l = n - k < 64 ? n - k : 64; memset(r->b, 0, 64); memcpy(r->b, p + k, l); r->len = l; r->fl = base | (k == 0 ? 1 : 0);
    if (k + 64 >= n) { r->fl |= 2; return; }
    comp(r, i, r->fl, o); memcpy(r->cv, o, 32); k += 64;
  }
}
static void tree(const unsigned char *p, size_t n, uint64_t i, node *r)
{
  size_t k = 1024; node a; uint32_t o[16];
  if (n <= 1024) { chunk(p, n, i, r); return; }
  while (2 * k < n) k *= 2;
  tree(p, k, i, &a); comp(&a, a.ctr, a.fl, o); memcpy(r->b, o, 32);
  tree(p + k, n - k, i + k / 1024, &a); comp(&a, a.ctr, a.fl, o); memcpy(r->b + 8, o, 32);
  memcpy(r->cv, key, 32); r->ctr = 0; r->len = 64; r->fl = base | 4;
}
int main(int argc, char **argv)
{
  size_t n = strtoull(argv[1], 0, 10), out = strtoull(argv[3], 0, 10), i, j; uint64_t s = strtoull(argv[2], 0, 10) & 0x7fffffff, t; node r; uint32_t o[16];
  unsigned char *p = malloc(n + 1);
  for (i = 0; i < n; i++) { s = (s * 1103515245 + 12345) & 0x7fffffff; p[i] = (s >> 16) & 255; }
  memcpy(key, IV, 32);
  if (argc > 4) { base = 16; for (i = 0; i < 32; i++) { unsigned x; sscanf(argv[4] + 2 * i, "%2x", &x); ((unsigned char *) key)[i] = x; } }
  tree(p, n, 0, &r);
  for (t = 0, i = 0; i < out; t++) { comp(&r, t, r.fl | 8, o); for (j = 0; j < 64 && i < out; j++, i++) printf("%02x", ((unsigned char *) o)[j]); }
  printf("\n"); return 0;
}
