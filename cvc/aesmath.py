"""AES (FIPS 197) over Wd bytes: S-box derived from GF(2^8) inversion, not copied."""
def gmul(a, b):
    r = 0
    while b:
        if b & 1: r ^= a
        a = (a << 1) ^ (0x11b if a & 0x80 else 0); b >>= 1
    return r
def _sbox():
    s = []
    for x in range(256):
        inv = 0
        if x:
            inv = next(y for y in range(1, 256) if gmul(x, y) == 1)
        v = 0x63
        for i in range(5): v ^= ((inv << i) | (inv >> (8 - i))) & 255
        s.append(v)
    return s
SBOX = _sbox()
INV_SBOX = [SBOX.index(i) for i in range(256)]
def shift_rows(s): return [s[(i + 4 * (i % 4)) % 16] for i in range(16)]
def inv_shift_rows(s): return [s[(i - 4 * (i % 4)) % 16] for i in range(16)]
def xmul(b, k):
    """multiplication of a Wd byte by the constant k in GF(2^8)"""
    from bdom import Wd
    if type(b.v) is int: return Wd(b.d, gmul(b.v, k), 8)
    cols = [gmul(1 << i, k) for i in range(8)]
    out = []
    for j in range(8):
        out.append(b.d.b.xorn([b.v[i] for i in range(8) if (cols[i] >> j) & 1]))
    return Wd(b.d, b.d.norm(tuple(out)), 8)
def mix(s, M):
    out = []
    for c in range(4):
        col = s[4*c:4*c+4]
        for r in range(4):
            acc = None
            for k in range(4):
                t = xmul(col[k], M[(k - r) % 4]) if M[(k - r) % 4] != 1 else col[k]
                acc = t if acc is None else acc ^ t
            out.append(acc)
    return out
def mix_columns(s): return mix(s, [2, 3, 1, 1])
def inv_mix_columns(s): return mix(s, [14, 11, 13, 9])
def expand(key):
    """key: list of Wd bytes -> list of round keys (16 Wd bytes each)"""
    from bdom import Wd, lut8
    nk = len(key) // 4; nr = nk + 6
    w = [key[4*i:4*i+4] for i in range(nk)]
    rc = 1
    for i in range(nk, 4 * (nr + 1)):
        t = w[i-1]
        if i % nk == 0:
            t = [lut8(x, SBOX) for x in t[1:] + t[:1]]
            t[0] = t[0] ^ rc; rc = gmul(rc, 2)
        elif nk > 6 and i % nk == 4:
            t = [lut8(x, SBOX) for x in t]
        w.append([a ^ b for a, b in zip(w[i-nk], t)])
    return [sum(w[4*i:4*i+4], []) for i in range(nr + 1)]
def encrypt(key, blk):
    from bdom import lut8
    rk = expand(key); nr = len(rk) - 1
    s = [a ^ b for a, b in zip(blk, rk[0])]
    for r in range(1, nr + 1):
        s = shift_rows([lut8(x, SBOX) for x in s])
        if r < nr: s = mix_columns(s)
        s = [a ^ b for a, b in zip(s, rk[r])]
    return s
def decrypt(key, blk):
    from bdom import lut8
    rk = expand(key); nr = len(rk) - 1
    s = [a ^ b for a, b in zip(blk, rk[nr])]
    for r in range(nr - 1, -1, -1):
        s = [lut8(x, INV_SBOX) for x in inv_shift_rows(s)]
        s = [a ^ b for a, b in zip(s, rk[r])]
        if r > 0: s = inv_mix_columns(s)
    return s
