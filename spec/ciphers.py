"""DES (FIPS 46-3), Blowfish (Schneier; tables from the hexadecimal digits of pi),
ARCFOUR and GHASH (SP 800-38D) specifications, generic over Wd."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'cvc'))
from bdom import Wd, cat_le, cat_be, lut8

IP = [58,50,42,34,26,18,10,2,60,52,44,36,28,20,12,4,62,54,46,38,30,22,14,6,64,56,48,40,32,24,16,8,
      57,49,41,33,25,17,9,1,59,51,43,35,27,19,11,3,61,53,45,37,29,21,13,5,63,55,47,39,31,23,15,7]
FP = [IP.index(i + 1) + 1 for i in range(64)]
E = [32,1,2,3,4,5,4,5,6,7,8,9,8,9,10,11,12,13,12,13,14,15,16,17,16,17,18,19,20,21,20,21,22,23,24,25,24,25,26,27,28,29,28,29,30,31,32,1]
P = [16,7,20,21,29,12,28,17,1,15,23,26,5,18,31,10,2,8,24,14,32,27,3,9,19,13,30,6,22,11,4,25]
PC1 = [57,49,41,33,25,17,9,1,58,50,42,34,26,18,10,2,59,51,43,35,27,19,11,3,60,52,44,36,
       63,55,47,39,31,23,15,7,62,54,46,38,30,22,14,6,61,53,45,37,29,21,13,5,28,20,12,4]
PC2 = [14,17,11,24,1,5,3,28,15,6,21,10,23,19,12,4,26,8,16,7,27,20,13,2,41,52,31,37,47,55,30,40,51,45,33,48,44,49,39,56,34,53,46,42,50,36,29,32]
SHIFTS = [1,1,2,2,2,2,2,2,1,2,2,2,2,2,2,1]
S = [
[14,4,13,1,2,15,11,8,3,10,6,12,5,9,0,7,0,15,7,4,14,2,13,1,10,6,12,11,9,5,3,8,4,1,14,8,13,6,2,11,15,12,9,7,3,10,5,0,15,12,8,2,4,9,1,7,5,11,3,14,10,0,6,13],
[15,1,8,14,6,11,3,4,9,7,2,13,12,0,5,10,3,13,4,7,15,2,8,14,12,0,1,10,6,9,11,5,0,14,7,11,10,4,13,1,5,8,12,6,9,3,2,15,13,8,10,1,3,15,4,2,11,6,7,12,0,5,14,9],
[10,0,9,14,6,3,15,5,1,13,12,7,11,4,2,8,13,7,0,9,3,4,6,10,2,8,5,14,12,11,15,1,13,6,4,9,8,15,3,0,11,1,2,12,5,10,14,7,1,10,13,0,6,9,8,7,4,15,14,3,11,5,2,12],
[7,13,14,3,0,6,9,10,1,2,8,5,11,12,4,15,13,8,11,5,6,15,0,3,4,7,2,12,1,10,14,9,10,6,9,0,12,11,7,13,15,1,3,14,5,2,8,4,3,15,0,6,10,1,13,8,9,4,5,11,12,7,2,14],
[2,12,4,1,7,10,11,6,8,5,3,15,13,0,14,9,14,11,2,12,4,7,13,1,5,0,15,10,3,9,8,6,4,2,1,11,10,13,7,8,15,9,12,5,6,3,0,14,11,8,12,7,1,14,2,13,6,15,0,9,10,4,5,3],
[12,1,10,15,9,2,6,8,0,13,3,4,14,7,5,11,10,15,4,2,7,12,9,5,6,1,13,14,0,11,3,8,9,14,15,5,2,8,12,3,7,0,4,10,1,13,11,6,4,3,2,12,9,5,15,10,11,14,1,7,6,0,8,13],
[4,11,2,14,15,0,8,13,3,12,9,7,5,10,6,1,13,0,11,7,4,9,1,10,14,3,5,12,2,15,8,6,1,4,11,13,12,3,7,14,10,15,6,8,0,5,9,2,6,11,13,8,1,4,10,7,9,5,0,15,14,2,3,12],
[13,2,8,4,6,15,11,1,10,9,3,14,5,0,12,7,1,15,13,8,10,3,7,4,12,5,6,11,0,14,9,2,7,11,4,1,9,12,14,2,0,6,10,13,15,3,5,8,2,1,14,7,4,10,8,13,15,12,9,0,3,5,6,11]]
# reorder each S-box so that it is indexed by the raw 6-bit input b1..b6
SX = [[s[(((x >> 5) & 1) * 2 + (x & 1)) * 16 + ((x >> 1) & 15)] for x in range(64)] for s in S]

def tobits(bs): return [b.bit(7 - j) for b in bs for j in range(8)]
def frombits(bits): return [cat_le(bits[8*i:8*i+8][::-1]) for i in range(len(bits) // 8)]
def des_subkeys(key):
    k = tobits(key); k = [k[i - 1] for i in PC1]
    c, d = k[:28], k[28:]
    out = []
    for s in SHIFTS:
        c = c[s:] + c[:s]; d = d[s:] + d[:s]
        cd = c + d
        out.append([cd[i - 1] for i in PC2])
    return out
def des(key, blk, enc=True):
    ks = des_subkeys(key)
    if not enc: ks = ks[::-1]
    b = tobits(blk); b = [b[i - 1] for i in IP]
    L, R = b[:32], b[32:]
    for k in ks:
        x = [R[i - 1] ^ kb for i, kb in zip(E, k)]
        f = []
        for j in range(8):
            six = cat_le(x[6*j:6*j+6][::-1])
            o = lut8(six, SX[j], 4)
            f += [o.bit(3 - t) for t in range(4)]
        f = [f[i - 1] for i in P]
        L, R = R, [a ^ c for a, c in zip(L, f)]
    b = R + L
    return frombits([b[i - 1] for i in FP])
def des3_sched(key):
    """list of (key, enc?) applied in order for encryption"""
    if len(key) == 8: return [(key, True)]
    if len(key) == 16: return [(key[:8], True), (key[8:], False), (key[:8], True)]
    return [(key[:8], True), (key[8:16], False), (key[16:], True)]
def des3(key, blk, enc=True):
    sch = des3_sched(key)
    if enc:
        for k, e in sch: blk = des(k, blk, e)
    else:
        for k, e in sch[::-1]: blk = des(k, blk, not e)
    return blk

# ---- Blowfish -----------------------------------------------------------------
def pi_words(n):
    bits = 32 * n + 64
    def arctan_inv(x):
        one = 1 << bits; t = one // x; s = t; k = 3; sg = -1; x2 = x * x
        while t:
            t //= x2; s += sg * (t // k); k += 2; sg = -sg
        return s
    pi = 4 * (4 * arctan_inv(5) - arctan_inv(239))
    frac = pi & ((1 << bits) - 1)
    return [(frac >> (bits - 32 * (i + 1))) & 0xffffffff for i in range(n)]
_pw = None
def bf_tables():
    global _pw
    if _pw is None: _pw = pi_words(18 + 1024)
    return _pw[:18], [_pw[18 + 256 * i: 18 + 256 * (i + 1)] for i in range(4)]
def bf_encrypt_words(Pk, sel, L, R):
    """sel(i, byteWd) -> S_i[byte]"""
    for i in range(16):
        L = L ^ Pk[i]
        b = L.bytes_be()
        F = ((sel(0, b[0]) + sel(1, b[1])) ^ sel(2, b[2])) + sel(3, b[3])
        R = F ^ R
        L, R = R, L
    L, R = R, L
    R = R ^ Pk[16]; L = L ^ Pk[17]
    return L, R
def bf_decrypt_words(Pk, sel, L, R): return bf_encrypt_words(Pk[::-1], sel, L, R)
def bf_setup(key, enc):
    """key: list of Wd bytes; enc(P,S,L,R) the block function used in the schedule"""
    d = key[0].d
    P0, S0 = bf_tables()
    Pk = [Wd(d, p, 32) for p in P0]; Sk = [[Wd(d, x, 32) for x in s] for s in S0]
    for i in range(18):
        w = cat_be([key[(4 * i + j) % len(key)] for j in range(4)])
        Pk[i] = Pk[i] ^ w
    L = R = Wd(d, 0, 32)
    for i in range(0, 18, 2):
        L, R = enc(Pk, Sk, L, R); Pk[i], Pk[i + 1] = L, R
    for s in range(4):
        for i in range(0, 256, 2):
            L, R = enc(Pk, Sk, L, R); Sk[s][i], Sk[s][i + 1] = L, R
    return Pk, Sk
def _bf_conc(Pk, Sk, L, R): return bf_encrypt_words(Pk, lambda i, b: Sk[i][b.v], L, R)
_bfc = {}
def blowfish(key, blk, enc=True):
    if key not in _bfc: _bfc[key] = bf_setup([Wd(None, x, 8) for x in key], _bf_conc)
    Pk, Sk = _bfc[key]
    L = Wd(None, int.from_bytes(blk[:4], 'big'), 32); R = Wd(None, int.from_bytes(blk[4:], 'big'), 32)
    f = bf_encrypt_words if enc else bf_decrypt_words
    L, R = f(Pk, lambda i, b: Sk[i][b.v], L, R)
    return L.v.to_bytes(4, 'big') + R.v.to_bytes(4, 'big')

# ---- ARCFOUR ---------------------------------------------------------------------
def arcfour_stream(key, n):
    s = list(range(256)); j = 0
    for i in range(256):
        j = (j + s[i] + key[i % len(key)]) & 255; s[i], s[j] = s[j], s[i]
    out = bytearray(); i = j = 0
    for _ in range(n):
        i = (i + 1) & 255; j = (j + s[i]) & 255; s[i], s[j] = s[j], s[i]
        out.append(s[(s[i] + s[j]) & 255])
    return bytes(out)

# ---- GHASH multiplication (SP 800-38D 6.3) -------------------------------------------
def gf128_mul_int(x, y):
    """blocks as 128-bit big-endian integers (bit 0 of the standard = msb)"""
    R = 0xe1 << 120; z = 0; v = y
    for i in range(128):
        if (x >> (127 - i)) & 1: z ^= v
        v = (v >> 1) ^ R if v & 1 else v >> 1
    return z
def gf128_mul(xb, yb):
    """Wd byte lists"""
    if type(xb[0].v) is int and all(type(b.v) is int for b in xb + yb):
        r = gf128_mul_int(int.from_bytes(bytes(b.v for b in xb), 'big'), int.from_bytes(bytes(b.v for b in yb), 'big'))
        return [Wd(xb[0].d, c, 8) for c in r.to_bytes(16, 'big')]
    d = xb[0].d; bk = d.b
    x = [l for b in xb for l in d.tup(b.v, 8)[::-1]]       # standard bit order
    v = [l for b in yb for l in d.tup(b.v, 8)[::-1]]
    z = [[] for _ in range(128)]
    Rb = [i for i in range(128) if ((0xe1 << 120) >> (127 - i)) & 1]
    for i in range(128):
        for k in range(128): z[k] += d.prod(x[i], v[k])
        lsb = v[127]
        v = [0] + v[:127]
        for k in Rb: v[k] = bk.xor(v[k], lsb)
    bits = [bk.xorn(t) for t in z]
    return [Wd(d, d.norm(tuple(bits[8*i:8*i+8][::-1])), 8) for i in range(16)]

def selftest():
    c = lambda h: [Wd(None, x, 8) for x in bytes.fromhex(h)]
    hx = lambda b: bytes(x.v for x in b).hex()
    assert hx(des(c('0123456789abcdef'), c('0123456789abcde7'))) == 'c95744256a5ed31d'
    assert hx(des3(c('0123456789abcdeffedcba9876543210'), c('0123456789abcde7'))) == '7f1d0a77826b8aff'
    assert hx(des3(c('0123456789abcdeffedcba987654321089abcdef01234567'), c('0123456789abcde7'))) == 'de0b7c06ae5e0ed5'
    assert hx(des3(c('0123456789abcdeffedcba987654321089abcdef01234567'), c('de0b7c06ae5e0ed5'), False)) == '0123456789abcde7'
    assert bf_tables()[0][0] == 0x243f6a88 and bf_tables()[1][3][255] == 0x3ac372e6
    assert blowfish(bytes.fromhex('0123456789abcdef'), bytes.fromhex('1111111111111111')).hex() == '61f9c3802281b096'
    assert blowfish(bytes.fromhex('0123456789abcdef'), bytes.fromhex('61f9c3802281b096'), False).hex() == '1111111111111111'
    assert arcfour_stream(b'Key', 5).hex() == 'eb9f7781b7'
    import aesmath
    assert hx(aesmath.encrypt(c('000102030405060708090a0b0c0d0e0f'), c('00112233445566778899aabbccddeeff'))) == '69c4e0d86a7b0430d8cdb78070b4c55a'
    assert hx(aesmath.encrypt(c('000102030405060708090a0b0c0d0e0f1011121314151617'), c('00112233445566778899aabbccddeeff'))) == 'dda97ca4864cdfe06eaf70a0ec0d7191'
    assert hx(aesmath.decrypt(c('000102030405060708090a0b0c0d0e0f101112131415161718191a1b1c1d1e1f'), c('8ea2b7ca516745bfeafc49904b496089'))) == '00112233445566778899aabbccddeeff'
    # GCM spec test case 2: GHASH
    h = int('66e94bd4ef8a2c3b884cfa59ca342b2e', 16); x = int('0388dace60b6a392f328c2b971b2fe78', 16)
    assert gf128_mul_int(x, h) == int('5e2ec746917062882c85b0685353deb7', 16)
if __name__ == '__main__':
    selftest(); print('ok')
