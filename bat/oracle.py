"""Concrete reference implementations (integers and bytes), used to replay and to bound-check.
Hashes in Python's hashlib are used as they are; everything else is written from the standards."""
import hashlib, hmac as _hmac, struct, os, sys
sys.path[:0] = [os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', d) for d in ('spec', 'cvc')]
import ciphers as _C
M32 = 0xffffffff; M64 = (1 << 64) - 1
def xor(a, b): return bytes(x ^ y for x, y in zip(a, b))
def rol32(x, n): return ((x << n) | (x >> (32 - n))) & M32
def rol64(x, n): return ((x << n) | (x >> (64 - n))) & M64 if n else x
def ror64(x, n): return rol64(x, (64 - n) % 64)

# ---- AES
def _gmul(a, b):
    r = 0
    while b:
        if b & 1: r ^= a
        a <<= 1
        if a & 256: a ^= 0x11b
        b >>= 1
    return r
def _mk():
    inv = [0] * 256
    for a in range(1, 256):
        for b in range(1, 256):
            if _gmul(a, b) == 1: inv[a] = b; break
    s = []
    for a in range(256):
        b = inv[a]; r = 0x63
        for i in range(5): r ^= ((b << i) | (b >> (8 - i))) & 255
        s.append(r)
    return s
def _sbox():
    # generator-based inverse (fast)
    exp = [0] * 510; log = [0] * 256; x = 1
    for i in range(255):
        exp[i] = exp[i + 255] = x; log[x] = i; x = _gmul(x, 3)
    s = []
    for a in range(256):
        b = exp[255 - log[a]] if a else 0; r = 0x63
        for i in range(5): r ^= ((b << i) | (b >> (8 - i))) & 255
        s.append(r)
    return s
SB = _sbox(); IS = [SB.index(i) for i in range(256)]
G = {k: [_gmul(x, k) for x in range(256)] for k in (2, 3, 9, 11, 13, 14)}
class AES:
    bs = 16
    def __init__(s, key):
        nk = len(key) // 4; nr = nk + 6; w = [list(key[4*i:4*i+4]) for i in range(nk)]; rc = 1
        for i in range(nk, 4 * (nr + 1)):
            t = w[i-1][:]
            if i % nk == 0: t = [SB[x] for x in t[1:] + t[:1]]; t[0] ^= rc; rc = _gmul(rc, 2)
            elif nk > 6 and i % nk == 4: t = [SB[x] for x in t]
            w.append([a ^ b for a, b in zip(w[i-nk], t)])
        s.rk = [sum(w[4*r:4*r+4], []) for r in range(nr + 1)]; s.nr = nr
    def enc(s, b):
        st = [x ^ k for x, k in zip(b, s.rk[0])]
        for r in range(1, s.nr + 1):
            st = [SB[st[(i + 4 * (i % 4)) % 16]] for i in range(16)]
            if r < s.nr:
                o = []
                for c in range(0, 16, 4):
                    a = st[c:c+4]
                    for i in range(4): o.append(G[2][a[i]] ^ G[3][a[(i+1) & 3]] ^ a[(i+2) & 3] ^ a[(i+3) & 3])
                st = o
            st = [x ^ k for x, k in zip(st, s.rk[r])]
        return bytes(st)
    def dec(s, b):
        st = [x ^ k for x, k in zip(b, s.rk[s.nr])]
        for r in range(s.nr - 1, -1, -1):
            st = [IS[st[(i - 4 * (i % 4)) % 16]] for i in range(16)]
            st = [x ^ k for x, k in zip(st, s.rk[r])]
            if r:
                o = []
                for c in range(0, 16, 4):
                    a = st[c:c+4]
                    for i in range(4): o.append(G[14][a[i]] ^ G[11][a[(i+1) & 3]] ^ G[13][a[(i+2) & 3]] ^ G[9][a[(i+3) & 3]])
                st = o
        return bytes(st)
# ---- DES
def _perm(v, t, n):
    r = 0
    for p in t: r = (r << 1) | ((v >> (n - p)) & 1)
    return r
class DES:
    bs = 8
    def __init__(s, key):
        k = _perm(int.from_bytes(key, 'big'), _C.PC1, 64); c, d = k >> 28, k & 0xfffffff; s.ks = []
        for n in _C.SHIFTS:
            c = ((c << n) | (c >> (28 - n))) & 0xfffffff; d = ((d << n) | (d >> (28 - n))) & 0xfffffff
            s.ks.append(_perm((c << 28) | d, _C.PC2, 56))
    def _run(s, b, ks):
        v = _perm(int.from_bytes(b, 'big'), _C.IP, 64); L, R = v >> 32, v & M32
        for k in ks:
            e = _perm(R, _C.E, 32) ^ k; f = 0
            for i in range(8): f = (f << 4) | _C.SX[i][(e >> (42 - 6 * i)) & 63]
            L, R = R, L ^ _perm(f, _C.P, 32)
        return _perm((R << 32) | L, _C.FP, 64).to_bytes(8, 'big')
    def enc(s, b): return s._run(b, s.ks)
    def dec(s, b): return s._run(b, s.ks[::-1])
class TDES:
    bs = 8
    def __init__(s, key):
        ks = [key[:8], key[8:16], key[16:24] if len(key) == 24 else key[:8]]
        s.a, s.b, s.c = map(DES, ks)
    def enc(s, x): return s.c.enc(s.b.dec(s.a.enc(x)))
    def dec(s, x): return s.a.dec(s.b.enc(s.c.dec(x)))
_bft = None
class BF:
    bs = 8
    def __init__(s, key):
        global _bft
        if _bft is None: _bft = _C.bf_tables()
        P, S = _bft; s.P = list(P); s.S = [list(x) for x in S]
        j = 0
        for i in range(18):
            v = 0
            for _ in range(4): v = (v << 8) | key[j % len(key)]; j += 1
            s.P[i] ^= v
        L = R = 0
        for i in range(0, 18, 2): L, R = s._e(L, R, s.P); s.P[i] = L; s.P[i+1] = R
        for t in s.S:
            for i in range(0, 256, 2): L, R = s._e(L, R, s.P); t[i] = L; t[i+1] = R
    def _e(s, L, R, P):
        S0, S1, S2, S3 = s.S
        for i in range(16):
            L ^= P[i]
            R ^= ((((S0[L >> 24] + S1[(L >> 16) & 255]) & M32) ^ S2[(L >> 8) & 255]) + S3[L & 255]) & M32
            L, R = R, L
        L, R = R, L
        return L ^ P[17], R ^ P[16]
    def _b(s, b, P):
        L, R = struct.unpack('>II', b); return struct.pack('>II', *s._e(L, R, P))
    def enc(s, b): return s._b(b, s.P)
    def dec(s, b): return s._b(b, s.P[::-1])
class Toy:
    def __init__(s, bs, k): s.bs = bs; s.k = k
    def enc(s, b): return bytes((b[(i + 1) % s.bs] * 5 + s.k + i) & 255 for i in range(s.bs))
    def dec(s, b):
        o = [0] * s.bs
        for i in range(s.bs): o[(i + 1) % s.bs] = ((b[i] - s.k - i) * 205) & 255
        return bytes(o)
# ---- modes (over whole blocks; n = feedback size)
def ecb(c, data, enc): return b''.join((c.enc if enc else c.dec)(data[i:i+c.bs]) for i in range(0, len(data), c.bs))
def cbc(c, iv, data, enc):
    o = b''
    for i in range(0, len(data), c.bs):
        x = data[i:i+c.bs]
        if enc: iv = c.enc(xor(x, iv)); o += iv
        else: o += xor(c.dec(x), iv); iv = x
    return o
def cfb(c, iv, n, data, enc):
    o = b''
    for i in range(0, len(data), n):
        x = data[i:i+n]; y = xor(x, c.enc(iv)); o += y
        iv = (iv + (y if enc else x))[n:]
    return o
def ofb(c, iv, n, data):
    o = b''
    for i in range(0, len(data), n):
        e = c.enc(iv); o += xor(data[i:i+n], e); iv = e if True else None
    return o
def ofb_shift(c, iv, n, data):
    o = b''
    for i in range(0, len(data), n):
        e = c.enc(iv); o += xor(data[i:i+n], e[:n]); iv = (iv + e[:n])[n:]
    return o
def ctr(c, iv, inc, data):
    o = b''; hi, lo = iv[:c.bs-inc], int.from_bytes(iv[c.bs-inc:], 'big')
    for i in range(0, len(data), c.bs):
        o += xor(data[i:i+c.bs], c.enc(hi + lo.to_bytes(inc, 'big'))); lo = (lo + 1) % (1 << (8 * inc))
    return o
def pad(scheme, data, bs):
    n = bs - len(data) % bs
    return data + (bytes([n]) * n if scheme == 'length' else b'\x80' + bytes(n - 1))
def strip(scheme, blk):
    """number of data bytes in the block, or None"""
    bs = len(blk)
    if scheme == 'length':
        n = blk[-1]
        return bs - n if 1 <= n <= bs and blk[-n:] == bytes([n]) * n else None
    i = bs - 1
    while i >= 0 and blk[i] == 0: i -= 1
    return i if i >= 0 and blk[i] == 0x80 else None
# ---- stream ciphers
def chacha_block(st):
    x = list(st)
    def q(a, b, c, d):
        x[a] = (x[a] + x[b]) & M32; x[d] = rol32(x[d] ^ x[a], 16)
        x[c] = (x[c] + x[d]) & M32; x[b] = rol32(x[b] ^ x[c], 12)
        x[a] = (x[a] + x[b]) & M32; x[d] = rol32(x[d] ^ x[a], 8)
        x[c] = (x[c] + x[d]) & M32; x[b] = rol32(x[b] ^ x[c], 7)
    for _ in range(10):
        q(0,4,8,12); q(1,5,9,13); q(2,6,10,14); q(3,7,11,15); q(0,5,10,15); q(1,6,11,12); q(2,7,8,13); q(3,4,9,14)
    return struct.pack('<16I', *[(a + b) & M32 for a, b in zip(x, st)])
def chacha(key, iv, ctr, n):
    """first n keystream bytes; 8-byte iv: 64-bit counter; 12-byte: 32-bit counter"""
    if len(key) == 16: k = struct.unpack('<4I', key) * 2; c = b'expand 16-byte k'
    else: k = struct.unpack('<8I', key); c = b'expand 32-byte k'
    o = b''; i = 0
    while len(o) < n:
        t = ctr + i
        tail = [t & M32, (t >> 32) & M32] + list(struct.unpack('<2I', iv)) if len(iv) == 8 else [t & M32] + list(struct.unpack('<3I', iv))
        o += chacha_block(list(struct.unpack('<4I', c)) + list(k) + tail); i += 1
    return o[:n]
def rc4(key, n):
    S = list(range(256)); j = 0
    for i in range(256): j = (j + S[i] + key[i % len(key)]) & 255; S[i], S[j] = S[j], S[i]
    i = j = 0; o = bytearray()
    for _ in range(n):
        i = (i + 1) & 255; j = (j + S[i]) & 255; S[i], S[j] = S[j], S[i]; o.append(S[(S[i] + S[j]) & 255])
    return bytes(o)
# ---- hashes
def _kf(A):
    rc = 1
    for rnd in range(24):
        Cc = [A[x] ^ A[x+5] ^ A[x+10] ^ A[x+15] ^ A[x+20] for x in range(5)]
        D = [Cc[(x+4) % 5] ^ rol64(Cc[(x+1) % 5], 1) for x in range(5)]
        A = [A[i] ^ D[i % 5] for i in range(25)]
        x, y = 1, 0; cur = A[1]; B = A[:]
        for t in range(24):
            x, y = y, (2 * x + 3 * y) % 5
            cur, A[x + 5*y] = A[x + 5*y], rol64(cur, ((t + 1) * (t + 2) // 2) % 64)
        A = [A[i] ^ (~A[(i % 5 + 1) % 5 + i // 5 * 5] & A[(i % 5 + 2) % 5 + i // 5 * 5] & M64) for i in range(25)]
        for j in range(7):
            if rc & 1: A[0] ^= 1 << ((1 << j) - 1)
            rc = (rc << 1) ^ ((rc >> 7) * 0x171)
    return A
def keccak(data, bits, pad=1):
    rate = 200 - bits // 4; n = bits // 8
    m = bytearray(data) + bytes([pad]); m += bytes(-len(m) % rate); m[-1] |= 0x80
    A = [0] * 25
    for i in range(0, len(m), rate):
        for j in range(rate // 8): A[j] ^= int.from_bytes(m[i+8*j:i+8*j+8], 'little')
        A = _kf(A)
    return struct.pack('<25Q', *A)[:n]
def sha3(data, bits): return hashlib.new(f'sha3_{bits}', data).digest()
def sha2(data, bits): return hashlib.new(f'sha{bits}', data).digest()
def H(name): return lambda d: hashlib.new(name, d).digest()
def hmac(name, key, d): return _hmac.new(key, d, name).digest()
_B3IV = (0x6A09E667, 0xBB67AE85, 0x3C6EF372, 0xA54FF53A, 0x510E527F, 0x9B05688C, 0x1F83D9AB, 0x5BE0CD19)
_B3P = (2, 6, 3, 10, 7, 0, 4, 13, 1, 11, 12, 5, 9, 14, 15, 8)
def _b3c(cv, blk, ctr, blen, flags):
    v = list(cv) + list(_B3IV[:4]) + [ctr & M32, ctr >> 32, blen, flags]; m = list(blk)
    def g(a, b, c, d, x, y):
        v[a] = (v[a] + v[b] + x) & M32; v[d] = rol32(v[d] ^ v[a], 16); v[c] = (v[c] + v[d]) & M32; v[b] = rol32(v[b] ^ v[c], 20)
        v[a] = (v[a] + v[b] + y) & M32; v[d] = rol32(v[d] ^ v[a], 24); v[c] = (v[c] + v[d]) & M32; v[b] = rol32(v[b] ^ v[c], 25)
    for r in range(7):
        g(0,4,8,12,m[0],m[1]); g(1,5,9,13,m[2],m[3]); g(2,6,10,14,m[4],m[5]); g(3,7,11,15,m[6],m[7])
        g(0,5,10,15,m[8],m[9]); g(1,6,11,12,m[10],m[11]); g(2,7,8,13,m[12],m[13]); g(3,4,9,14,m[14],m[15])
        m = [m[i] for i in _B3P]
    return [v[i] ^ v[i+8] for i in range(8)] + [v[i+8] ^ cv[i] for i in range(8)]
def blake3(data, n, key=None):
    kw = struct.unpack('<8I', key) if key else _B3IV; fl = 16 if key else 0
    def W(b): return struct.unpack('<16I', b + bytes(64 - len(b)))
    def chunk(d, i):
        cv = kw; bl = [d[j:j+64] for j in range(0, len(d), 64)] or [b'']
        for j, b in enumerate(bl):
            f = fl | (1 if j == 0 else 0) | (2 if j == len(bl) - 1 else 0)
            if j == len(bl) - 1: return (cv, W(b), i, len(b), f)
            cv = _b3c(cv, W(b), i, 64, f)[:8]
    def node(d, i):
        if len(d) <= 1024: return chunk(d, i)
        k = 1024
        while 2 * k < len(d): k *= 2
        l = _b3c(*node(d[:k], i))[:8]; r = _b3c(*node(d[k:], i + k // 1024))[:8]
        return (kw, l + r, 0, 64, fl | 4)
    cv, b, i, bl, f = node(data, 0)
    o = b''; t = 0
    while len(o) < n: o += struct.pack('<16I', *_b3c(cv, b, t, bl, f | 8)); t += 1
    return o[:n]
def siphash(key, data, n):
    k0, k1 = struct.unpack('<2Q', key)
    v = [k0 ^ 0x736f6d6570736575, k1 ^ 0x646f72616e646f6d, k0 ^ 0x6c7967656e657261, k1 ^ 0x7465646279746573]
    if n == 16: v[1] ^= 0xee
    def rnd():
        v[0] = (v[0]+v[1]) & M64; v[1] = rol64(v[1],13); v[1] ^= v[0]; v[0] = rol64(v[0],32)
        v[2] = (v[2]+v[3]) & M64; v[3] = rol64(v[3],16); v[3] ^= v[2]
        v[0] = (v[0]+v[3]) & M64; v[3] = rol64(v[3],21); v[3] ^= v[0]
        v[2] = (v[2]+v[1]) & M64; v[1] = rol64(v[1],17); v[1] ^= v[2]; v[2] = rol64(v[2],32)
    L = len(data); d = data + bytes(7 - L % 8) + bytes([L & 255])
    for i in range(0, len(d), 8):
        m = int.from_bytes(d[i:i+8], 'little'); v[3] ^= m; rnd(); rnd(); v[0] ^= m
    v[2] ^= 0xee if n == 16 else 0xff
    for _ in range(4): rnd()
    o = struct.pack('<Q', v[0] ^ v[1] ^ v[2] ^ v[3])
    if n == 16:
        v[1] ^= 0xdd
        for _ in range(4): rnd()
        o += struct.pack('<Q', v[0] ^ v[1] ^ v[2] ^ v[3])
    return o
# ---- MACs, AEAD
def cbcmac(c, iv, data):
    for i in range(0, len(data), c.bs): iv = c.enc(xor(data[i:i+c.bs], iv))
    return iv
def cmac(c, iv, data):
    def dbl(b):
        v = int.from_bytes(b, 'big') << 1
        if v >> 128: v ^= (1 << 128) | 0x87
        return v.to_bytes(16, 'big')
    k1 = dbl(c.enc(bytes(16))); k2 = dbl(k1)
    n = max(1, -(-len(data) // 16)); last = data[16*(n-1):]
    last = xor(last, k1) if len(last) == 16 else xor(last + b'\x80' + bytes(15 - len(last)), k2)
    return cbcmac(c, iv, data[:16*(n-1)] + last)
def gmul128(x, y):
    z = 0
    for i in range(127, -1, -1):
        if (y >> i) & 1: z ^= x
        x = (x >> 1) ^ (0xe1 << 120) if x & 1 else x >> 1
    return z
def ghash(h, data):
    h = int.from_bytes(h, 'big'); y = 0
    for i in range(0, len(data), 16): y = gmul128(y ^ int.from_bytes(data[i:i+16], 'big'), h)
    return y.to_bytes(16, 'big')
def p16(d): return d + bytes(-len(d) % 16)
def gcm(key, iv, hdr, pt, enc=True):
    c = AES(key); h = c.enc(bytes(16))
    j0 = iv + b'\0\0\0\1' if len(iv) == 12 else ghash(h, p16(iv) + bytes(8) + struct.pack('>Q', 8 * len(iv)))
    j1 = j0[:12] + ((int.from_bytes(j0[12:], 'big') + 1) & M32).to_bytes(4, 'big')
    ct = ctr(c, j1, 4, pt)
    x = ct if enc else pt
    return ct, xor(c.enc(j0), ghash(h, p16(hdr) + p16(x) + struct.pack('>QQ', 8 * len(hdr), 8 * len(x))))
def poly1305(key, m):
    r = int.from_bytes(key[:16], 'little') & 0x0ffffffc0ffffffc0ffffffc0fffffff; s = int.from_bytes(key[16:], 'little'); a = 0
    for i in range(0, len(m), 16): a = (a + int.from_bytes(m[i:i+16] + b'\1', 'little')) * r % ((1 << 130) - 5)
    return ((a + s) & ((1 << 128) - 1)).to_bytes(16, 'little')
def chapoly(key, iv, hdr, pt, enc=True):
    ks = chacha(key, iv, 0, 64 + len(pt)); ct = xor(pt, ks[64:]); x = ct if enc else pt
    m = p16(hdr) + p16(x) + struct.pack("<QQ", len(hdr), len(x))
    return ct, poly1305(ks[:32], m)
