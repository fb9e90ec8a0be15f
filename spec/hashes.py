"""Specification functions of the hash/cipher compression functions, written from the
standards (FIPS 180-4, FIPS 202, RFC 7693, BLAKE3 paper, RFC 8439, SipHash paper, RIPEMD-160 paper).
They are generic: words are Wd values, concrete or symbolic."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'cvc'))
from bdom import Wd, cat_le, cat_be
from math import isqrt

def primes(n):
    ps = []; k = 2
    while len(ps) < n:
        if all(k % p for p in ps): ps.append(k)
        k += 1
    return ps
def icbrt(n):
    lo, hi = 0, 1 << ((n.bit_length() + 2) // 3 + 1)
    while lo < hi:
        m = (lo + hi + 1) // 2
        if m ** 3 <= n: lo = m
        else: hi = m - 1
    return lo
def frac_sqrt(p, b): return isqrt(p << (2 * b)) & ((1 << b) - 1)
def frac_cbrt(p, b): return icbrt(p << (3 * b)) & ((1 << b) - 1)

def C(d, v, w): return Wd(d, v, w)

# ---- SHA-1 ------------------------------------------------------------------
SHA1_IV = [0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0]
def sha1_compress(H, blk):
    W = [cat_be(blk[4*i:4*i+4]) for i in range(16)]
    for t in range(16, 80): W.append((W[t-3] ^ W[t-8] ^ W[t-14] ^ W[t-16]).rotl(1))
    a, b, c, d, e = H
    for t in range(80):
        if t < 20: f = (b & c) ^ (~b & d); k = 0x5A827999
        elif t < 40: f = b ^ c ^ d; k = 0x6ED9EBA1
        elif t < 60: f = (b & c) ^ (b & d) ^ (c & d); k = 0x8F1BBCDC
        else: f = b ^ c ^ d; k = 0xCA62C1D6
        T = a.rotl(5) + f + e + k + W[t]
        e, d, c, b, a = d, c, b.rotl(30), a, T
    return [x + y for x, y in zip(H, (a, b, c, d, e))]

# ---- SHA-2 --------------------------------------------------------------------
SHA256_K = [frac_cbrt(p, 32) for p in primes(64)]
SHA512_K = [frac_cbrt(p, 64) for p in primes(80)]
SHA256_IV = [frac_sqrt(p, 32) for p in primes(8)]
SHA512_IV = [frac_sqrt(p, 64) for p in primes(8)]
SHA384_IV = [frac_sqrt(p, 64) for p in primes(16)[8:]]
SHA224_IV = [v & 0xffffffff for v in SHA384_IV]
def sha2_compress(H, blk, w):
    if w == 32: K = SHA256_K; S0 = (2, 13, 22); S1 = (6, 11, 25); s0 = (7, 18, 3); s1 = (17, 19, 10); n = 64
    else: K = SHA512_K; S0 = (28, 34, 39); S1 = (14, 18, 41); s0 = (1, 8, 7); s1 = (19, 61, 6); n = 80
    B = w // 8
    W = [cat_be(blk[B*i:B*i+B]) for i in range(16)]
    sg = lambda x, r: x.rotr(r[0]) ^ x.rotr(r[1]) ^ (x >> r[2])
    Sg = lambda x, r: x.rotr(r[0]) ^ x.rotr(r[1]) ^ x.rotr(r[2])
    for t in range(16, n): W.append(sg(W[t-2], s1) + W[t-7] + sg(W[t-15], s0) + W[t-16])
    a, b, c, d, e, f, g, h = H
    for t in range(n):
        T1 = h + Sg(e, S1) + ((e & f) ^ (~e & g)) + K[t] + W[t]
        T2 = Sg(a, S0) + ((a & b) ^ (a & c) ^ (b & c))
        h, g, f, e, d, c, b, a = g, f, e, d + T1, c, b, a, T1 + T2
    return [x + y for x, y in zip(H, (a, b, c, d, e, f, g, h))]
def sha256_compress(H, blk): return sha2_compress(H, blk, 32)
def sha512_compress(H, blk): return sha2_compress(H, blk, 64)

# ---- RIPEMD-160 ------------------------------------------------------------------
RMD_IV = SHA1_IV
_r = [list(range(16)),
 [7,4,13,1,10,6,15,3,12,0,9,5,2,14,11,8], [3,10,14,4,9,15,8,1,2,7,0,6,13,11,5,12],
 [1,9,11,10,0,8,12,4,13,3,7,15,14,5,6,2], [4,0,5,9,7,12,2,10,14,1,3,8,11,6,15,13]]
_rp = [[5,14,7,0,9,2,11,4,13,6,15,8,1,10,3,12],[6,11,3,7,0,13,5,10,14,15,8,12,4,9,1,2],
 [15,5,1,3,7,14,6,9,11,8,12,2,10,0,4,13],[8,6,4,1,3,11,15,0,5,12,2,13,9,7,10,14],[12,15,10,4,1,5,8,7,6,2,13,14,0,3,9,11]]
_s = [[11,14,15,12,5,8,7,9,11,13,14,15,6,7,9,8],[7,6,8,13,11,9,7,15,7,12,15,9,11,7,13,12],
 [11,13,6,7,14,9,13,15,14,8,13,6,5,12,7,5],[11,12,14,15,14,15,9,8,9,14,5,6,8,6,5,12],[9,15,5,11,6,8,13,12,5,12,13,14,11,8,5,6]]
_sp = [[8,9,9,11,13,15,15,5,7,7,8,11,14,14,12,6],[9,13,15,7,12,8,9,11,7,7,12,7,6,15,13,11],
 [9,7,15,11,8,6,6,14,12,13,5,14,13,13,7,5],[15,5,8,11,14,14,6,14,6,9,12,9,12,5,15,8],[8,5,12,9,12,5,14,6,8,13,6,5,15,13,11,11]]
_K = [0] + [isqrt(p << 60) & 0xffffffff for p in (2, 3, 5, 7)]
_Kp = [icbrt(p << 90) & 0xffffffff for p in (2, 3, 5, 7)] + [0]
def rmd160_compress(H, blk):
    X = [cat_le(blk[4*i:4*i+4]) for i in range(16)]
    F = [lambda x, y, z: x ^ y ^ z, lambda x, y, z: (x & y) | (~x & z), lambda x, y, z: (x | ~y) ^ z,
         lambda x, y, z: (x & z) | (y & ~z), lambda x, y, z: x ^ (y | ~z)]
    def line(rr, ss, KK, order):
        a, b, c, d, e = H
        for j in range(80):
            q = j // 16
            T = (a + F[order[q]](b, c, d) + X[rr[q][j % 16]] + KK[q]).rotl(ss[q][j % 16]) + e
            a, e, d, c, b = e, d, c.rotl(10), b, T
        return a, b, c, d, e
    a, b, c, d, e = line(_r, _s, _K, (0, 1, 2, 3, 4))
    A, Bp, Cp, D, E = line(_rp, _sp, _Kp, (4, 3, 2, 1, 0))
    return [H[1] + c + D, H[2] + d + E, H[3] + e + A, H[4] + a + Bp, H[0] + b + Cp]

# ---- Keccak-f[1600] -----------------------------------------------------------------
def _keccak_rc():
    out = []; R = 1
    def step():
        nonlocal R
        b = R & 1
        R = (R << 1) ^ (0x171 if R >> 7 else 0)
        R &= 0xff if not (R >> 8) else 0x1ff
        return b
    # LFSR x^8+x^6+x^5+x^4+1 as in FIPS 202 algorithm 5
    def rc(t):
        if t % 255 == 0: return 1
        R = [1, 0, 0, 0, 0, 0, 0, 0]
        for _ in range(t % 255):
            R = [0] + R
            R[0] ^= R[8]; R[4] ^= R[8]; R[5] ^= R[8]; R[6] ^= R[8]
            R = R[:8]
        return R[0]
    for ir_ in range(24):
        v = 0
        for j in range(7):
            if rc(j + 7 * ir_): v |= 1 << ((1 << j) - 1)
        out.append(v)
    return out
KECCAK_RC = _keccak_rc()
def keccak_f(A):
    """A: 25 lanes, index x+5y"""
    for rnd in range(24):
        Cc = [A[x] ^ A[x+5] ^ A[x+10] ^ A[x+15] ^ A[x+20] for x in range(5)]
        D = [Cc[(x+4) % 5] ^ Cc[(x+1) % 5].rotl(1) for x in range(5)]
        A = [A[i] ^ D[i % 5] for i in range(25)]
        Bm = [None] * 25
        # rho and pi
        off = [0] * 25; x, y = 1, 0
        for t in range(24):
            off[x + 5*y] = ((t + 1) * (t + 2) // 2) % 64
            x, y = y, (2*x + 3*y) % 5
        for x in range(5):
            for y in range(5):
                Bm[y + 5*((2*x + 3*y) % 5)] = A[x + 5*y].rotl(off[x + 5*y])
        A = [Bm[x + 5*y] ^ (~Bm[(x+1) % 5 + 5*y] & Bm[(x+2) % 5 + 5*y]) for y in range(5) for x in range(5)]
        A[0] = A[0] ^ KECCAK_RC[rnd]
    return A
def keccak_absorb(A, blk):
    A = list(A)
    for i in range(len(blk) // 8): A[i] = A[i] ^ cat_le(blk[8*i:8*i+8])
    return keccak_f(A)

# ---- BLAKE2 -----------------------------------------------------------------------
BLAKE2_SIGMA = [[0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15],[14,10,4,8,9,15,13,6,1,12,0,2,11,7,5,3],
 [11,8,12,0,5,2,15,13,10,14,3,6,7,1,9,4],[7,9,3,1,13,12,11,14,2,6,5,10,4,0,15,8],
 [9,0,5,7,2,4,10,15,14,1,11,12,6,8,3,13],[2,12,6,10,0,11,8,3,4,13,7,5,15,14,1,9],
 [12,5,1,15,14,13,4,10,0,7,6,3,9,2,8,11],[13,11,7,14,12,1,3,9,5,0,15,4,8,6,2,10],
 [6,15,14,9,11,3,0,8,12,2,13,7,1,4,10,5],[10,2,8,4,7,6,1,5,15,11,9,14,3,12,13,0]]
def blake2_compress(h, blk, t0, t1, last, w):
    """t0,t1: Wd counter words AFTER increment; last: bool"""
    if w == 64: IV = SHA512_IV; R = (32, 24, 16, 63); rounds = 12
    else: IV = SHA256_IV; R = (16, 12, 8, 7); rounds = 10
    d = h[0].d; Bn = w // 8; M = (1 << w) - 1
    m = [cat_le(blk[Bn*i:Bn*i+Bn]) for i in range(16)]
    v = list(h) + [Wd(d, x, w) for x in IV]
    v[12] = t0 ^ v[12]; v[13] = t1 ^ v[13]
    if last: v[14] = ~v[14]
    def G(a, b, c, e, x, y):
        v[a] = v[a] + v[b] + x; v[e] = (v[e] ^ v[a]).rotr(R[0])
        v[c] = v[c] + v[e]; v[b] = (v[b] ^ v[c]).rotr(R[1])
        v[a] = v[a] + v[b] + y; v[e] = (v[e] ^ v[a]).rotr(R[2])
        v[c] = v[c] + v[e]; v[b] = (v[b] ^ v[c]).rotr(R[3])
    for i in range(rounds):
        s = BLAKE2_SIGMA[i % 10]
        G(0,4,8,12,m[s[0]],m[s[1]]); G(1,5,9,13,m[s[2]],m[s[3]]); G(2,6,10,14,m[s[4]],m[s[5]]); G(3,7,11,15,m[s[6]],m[s[7]])
        G(0,5,10,15,m[s[8]],m[s[9]]); G(1,6,11,12,m[s[10]],m[s[11]]); G(2,7,8,13,m[s[12]],m[s[13]]); G(3,4,9,14,m[s[14]],m[s[15]])
    return [h[i] ^ v[i] ^ v[i+8] for i in range(8)]

# ---- BLAKE3 ------------------------------------------------------------------------
B3_PERM = [2,6,3,10,7,0,4,13,1,11,12,5,9,14,15,8]
CHUNK_START, CHUNK_END, PARENT, ROOT, KEYED_HASH = 1, 2, 4, 8, 16
def blake3_compress(cv, blk, counter_lo, counter_hi, blen, flags):
    """all Wd32; returns the 16 output words"""
    d = cv[0].d
    m = [cat_le(blk[4*i:4*i+4]) for i in range(16)]
    v = list(cv) + [Wd(d, x, 32) for x in SHA256_IV[:4]] + [counter_lo, counter_hi, blen, flags]
    def G(a, b, c, e, x, y):
        v[a] = v[a] + v[b] + x; v[e] = (v[e] ^ v[a]).rotr(16)
        v[c] = v[c] + v[e]; v[b] = (v[b] ^ v[c]).rotr(12)
        v[a] = v[a] + v[b] + y; v[e] = (v[e] ^ v[a]).rotr(8)
        v[c] = v[c] + v[e]; v[b] = (v[b] ^ v[c]).rotr(7)
    for i in range(7):
        G(0,4,8,12,m[0],m[1]); G(1,5,9,13,m[2],m[3]); G(2,6,10,14,m[4],m[5]); G(3,7,11,15,m[6],m[7])
        G(0,5,10,15,m[8],m[9]); G(1,6,11,12,m[10],m[11]); G(2,7,8,13,m[12],m[13]); G(3,4,9,14,m[14],m[15])
        if i < 6: m = [m[B3_PERM[j]] for j in range(16)]
    return [v[i] ^ v[i+8] for i in range(8)] + [v[i+8] ^ cv[i] for i in range(8)]

# ---- ChaCha20 -------------------------------------------------------------------------
def chacha20_core(inp):
    x = list(inp)
    def Q(a, b, c, e):
        x[a] = x[a] + x[b]; x[e] = (x[e] ^ x[a]).rotl(16)
        x[c] = x[c] + x[e]; x[b] = (x[b] ^ x[c]).rotl(12)
        x[a] = x[a] + x[b]; x[e] = (x[e] ^ x[a]).rotl(8)
        x[c] = x[c] + x[e]; x[b] = (x[b] ^ x[c]).rotl(7)
    for _ in range(10):
        Q(0,4,8,12); Q(1,5,9,13); Q(2,6,10,14); Q(3,7,11,15)
        Q(0,5,10,15); Q(1,6,11,12); Q(2,7,8,13); Q(3,4,9,14)
    out = [a + b for a, b in zip(x, inp)]
    return [by for w in out for by in w.bytes_le()]
def chacha20_setup(key, iv, ctr):
    """key/iv lists of Wd bytes; ctr Wd64 -> 16 input words"""
    d = key[0].d
    c = b'expand 32-byte k' if len(key) == 32 else b'expand 16-byte k'
    kk = key if len(key) == 32 else key + key
    st = [Wd(d, int.from_bytes(c[4*i:4*i+4], 'little'), 32) for i in range(4)]
    st += [cat_le(kk[4*i:4*i+4]) for i in range(8)]
    cb = ctr.bytes_le()
    if len(iv) == 8: st += [cat_le(cb[0:4]), cat_le(cb[4:8]), cat_le(iv[0:4]), cat_le(iv[4:8])]
    else: st += [cat_le(cb[0:4])] + [cat_le(iv[4*i:4*i+4]) for i in range(3)]
    return st

# ---- SipHash-2-4 ---------------------------------------------------------------------------
def sip_round(v):
    v0, v1, v2, v3 = v
    v0 = v0 + v1; v1 = v1.rotl(13); v1 = v1 ^ v0; v0 = v0.rotl(32)
    v2 = v2 + v3; v3 = v3.rotl(16); v3 = v3 ^ v2
    v0 = v0 + v3; v3 = v3.rotl(21); v3 = v3 ^ v0
    v2 = v2 + v1; v1 = v1.rotl(17); v1 = v1 ^ v2; v2 = v2.rotl(32)
    return [v0, v1, v2, v3]
def sip_mix(v, m):
    v = [v[0], v[1], v[2], v[3] ^ m]
    v = sip_round(sip_round(v))
    return [v[0] ^ m, v[1], v[2], v[3]]
def sip_init(key, outlen):
    d = key[0].d
    k0, k1 = cat_le(key[:8]), cat_le(key[8:])
    c = [int.from_bytes(b'somepseudorandomlygeneratedbytes'[8*i:8*i+8], 'big') for i in range(4)]
    v = [k0 ^ c[0], k1 ^ c[1], k0 ^ c[2], k1 ^ c[3]]
    if outlen == 16: v[1] = v[1] ^ 0xee
    return v
def sip_final(v, lastword, outlen):
    v = sip_mix(v, lastword)
    v[2] = v[2] ^ (0xee if outlen == 16 else 0xff)
    for _ in range(4): v = sip_round(v)
    out = (v[0] ^ v[1] ^ v[2] ^ v[3]).bytes_le()
    if outlen == 16:
        v[1] = v[1] ^ 0xdd
        for _ in range(4): v = sip_round(v)
        out += (v[0] ^ v[1] ^ v[2] ^ v[3]).bytes_le()
    return out

# ---- concrete full algorithms (oracle / self-check) --------------------------------------------
def cb(data): return [Wd(None, x, 8) for x in data]
def md_pad(data, bs, lenbytes, be):
    n = len(data)
    p = data + b'\x80'
    while len(p) % bs != bs - lenbytes: p += b'\0'
    return p + (8 * n).to_bytes(lenbytes, 'big' if be else 'little')
def md_hash(compress, iv, w, data, bs, lenbytes, be, outlen):
    H = [Wd(None, x, w) for x in iv]
    p = md_pad(data, bs, lenbytes, be)
    for i in range(0, len(p), bs): H = compress(H, cb(p[i:i+bs]))
    return b''.join(h.v.to_bytes(w // 8, 'big' if be else 'little') for h in H)[:outlen]
def rmd160(data): return md_hash(rmd160_compress, RMD_IV, 32, data, 64, 8, False, 20)
def sponge(data, rate, outlen, pad):
    A = [Wd(None, 0, 64)] * 25
    p = bytearray(data + bytes([pad])); p += bytes(-len(p) % rate); p[-1] |= 0x80
    for i in range(0, len(p), rate): A = keccak_absorb(A, cb(bytes(p[i:i+rate])))
    return b''.join(a.v.to_bytes(8, 'little') for a in A)[:outlen]
def siphash(key, data, outlen):
    v = sip_init(cb(key), outlen)
    n = len(data)
    for i in range(0, n - n % 8, 8): v = sip_mix(v, cat_le(cb(data[i:i+8])))
    last = data[n - n % 8:] + bytes(7 - n % 8) + bytes([n & 255])
    return bytes(x.v for x in sip_final(v, cat_le(cb(last)), outlen))
def blake3(data, outlen=32, key=None):
    IV = SHA256_IV if key is None else [int.from_bytes(key[4*i:4*i+4], 'little') for i in range(8)]
    base = 0 if key is None else KEYED_HASH
    W = lambda x: Wd(None, x & 0xffffffff, 32)
    def comp(cv, blk, ctr, blen, flags):
        return [x.v for x in blake3_compress([W(x) for x in cv], cb(blk), W(ctr), W(ctr >> 32), W(blen), W(flags))]
    def chunk(data, ctr):
        cv = IV; blocks = [data[i:i+64] for i in range(0, len(data), 64)] or [b'']
        for i, b in enumerate(blocks):
            fl = base | (CHUNK_START if i == 0 else 0)
            if i == len(blocks) - 1: return (cv, b.ljust(64, b'\0'), ctr, len(b), fl | CHUNK_END)
            cv = comp(cv, b, ctr, 64, fl)[:8]
    def cvof(node): return comp(*node)[:8]
    def tree(data, ctr):
        if len(data) <= 1024: return chunk(data, ctr)
        full = (len(data) - 1) // 1024
        l = 1
        while l * 2 <= full: l *= 2
        a = cvof(tree(data[:l*1024], ctr)); b = cvof(tree(data[l*1024:], ctr + l))
        return (IV, b''.join(x.to_bytes(4, 'little') for x in a + b), 0, 64, base | PARENT)
    cv, blk, ctr, blen, fl = tree(data, 0)
    out = b''; i = 0
    while len(out) < outlen:
        out += b''.join(x.to_bytes(4, 'little') for x in comp(cv, blk, i, blen, fl | ROOT)); i += 1
    return out[:outlen]
def chacha20_stream(key, iv, ctr, n):
    out = b''
    st = [x.v for x in chacha20_setup(cb(key), cb(iv), Wd(None, ctr, 64))]
    while len(out) < n:
        out += bytes(b.v for b in chacha20_core([Wd(None, x, 32) for x in st]))
        st[12] = (st[12] + 1) & 0xffffffff
        if st[12] == 0 and len(iv) == 8: st[13] = (st[13] + 1) & 0xffffffff
    return out[:n]

def selftest():
    import hashlib
    for n in (0, 1, 55, 56, 63, 64, 65, 111, 112, 127, 128, 135, 136, 137, 300):
        d = bytes((7 * i + n) & 255 for i in range(n))
        assert md_hash(sha1_compress, SHA1_IV, 32, d, 64, 8, True, 20) == hashlib.sha1(d).digest()
        assert md_hash(sha256_compress, SHA256_IV, 32, d, 64, 8, True, 32) == hashlib.sha256(d).digest()
        assert md_hash(sha256_compress, SHA224_IV, 32, d, 64, 8, True, 28) == hashlib.sha224(d).digest()
        assert md_hash(sha512_compress, SHA512_IV, 64, d, 128, 16, True, 64) == hashlib.sha512(d).digest()
        assert md_hash(sha512_compress, SHA384_IV, 64, d, 128, 16, True, 48) == hashlib.sha384(d).digest()
        for hs in (28, 32, 48, 64):
            assert sponge(d, 200 - 2*hs, hs, 6) == getattr(hashlib, 'sha3_%d' % (8*hs))(d).digest()
    assert rmd160(b'abc').hex() == '8eb208f7e05d987a9b044a8e98c6b087f15a0bfc'
    assert rmd160(b'').hex() == '9c1185a5c5e9fc54612808977ee8f548b2258d31'
    assert siphash(bytes(range(16)), bytes(range(15)), 8).hex() == 'e545be4961ca29a1'
    assert siphash(bytes(range(16)), b'', 16).hex() == 'a3817f04ba25a8e66df67214c7550293'
    assert blake3(b'').hex() == 'af1349b9f5f9a1a6a0404dea36dcc9499bcb25c9adc112b7cc9a93cae41f3262'
    assert blake3(bytes(i % 251 for i in range(1025))).hex().startswith('d00278ae47eb27b34faecf67b4fe263f82d5412916c1ffd97c8cb7fb814b8444')
    assert blake3(bytes(i % 251 for i in range(31744))).hex().startswith('62b6960e1a44bcc1eb1a611a8d6235b6b4b78f32e7abc4fb4c6cdcce94895c47')
    assert chacha20_stream(bytes(range(32)), bytes.fromhex('000000090000004a00000000'), 1, 64).hex().startswith('10f1e7e4d13b5915500fdd1fa32071c4')
    for n in (0, 1, 64, 128, 129, 300):
        d = bytes((3 * i) & 255 for i in range(n))
        for w, bs, IV, f in ((64, 128, SHA512_IV, hashlib.blake2b), (32, 64, SHA256_IV, hashlib.blake2s)):
            h = [Wd(None, x, w) for x in IV]; h[0] = h[0] ^ (0x01010000 | 20)
            i = 0
            while n - i > bs:
                i += bs; h = blake2_compress(h, cb(d[i-bs:i]), Wd(None, i, w), Wd(None, 0, w), False, w)
            h = blake2_compress(h, cb(d[i:].ljust(bs, b'\0')), Wd(None, n, w), Wd(None, 0, w), True, w)
            assert b''.join(x.v.to_bytes(w // 8, 'little') for x in h)[:20] == f(d, digest_size=20).digest()
if __name__ == '__main__':
    selftest(); print('specs agree with reference vectors')
