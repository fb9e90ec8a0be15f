"""Batteries per property: concrete cases on the real library against the oracle."""
from bat import *
import oracle as o, hashlib, zlib, base64, struct, math
BAT = {}
def job(*props):
    def f(g):
        for p in props: BAT.setdefault(p, []).append(g)
        return g
    return f
HASHES = {}   # name -> (ctor, oracle, block size, digest length)
for n, nm, bs in (('sha1', 'sha1', 64), ('sha224', 'sha224', 64), ('sha256', 'sha256', 64), ('sha384', 'sha384', 128), ('sha512', 'sha512', 128), ('rmd160', 'ripemd160', 64), ('md5', 'md5', 64)):
    HASHES[n] = (n, o.H(nm), bs, hashlib.new(nm).digest_size)
for b in (224, 256, 384, 512):
    HASHES[f'sha3-{b}'] = (f'sha3 {b}', (lambda b: lambda d: o.sha3(d, b))(b), 200 - b // 4, b // 8)
    HASHES[f'keccak-{b}'] = (f'keccak {b}', (lambda b: lambda d: o.keccak(d, b))(b), 200 - b // 4, b // 8)
    HASHES[f'sha2-{b}'] = (f'sha2 {b}', (lambda b: lambda d: o.sha2(d, b))(b), 64 if b < 384 else 128, b // 8)
def b2(kind, n, key=b''):
    return lambda d: getattr(hashlib, 'blake2' + kind)(d, digest_size=n, key=key).digest()
def hash_check(c, ctor, orc, data, size):
    D = c.d(); D.eq(f'H 1 {ctor}', 'ok'); feed_hash(c, D, 1, data)
    D.eq(f'hz 1', size, 'hash_size'); D.eq('hr 1', orc(data), 'wrong digest')
def lens(bs): return sorted(set(list(range(0, 40)) + [k * bs + e for k in (1, 2, 3, 5) for e in range(-20, 3) if k * bs + e >= 0]))
def mk_hash(names):
    def g(c):
        for nm in names:
            ctor, orc, bs, n = HASHES[nm]
            for L in lens(bs):
                d = c.R(L); c.d().eq(f'hs {ctor} {hx(d)}', orc(d), f'{nm} of {L} bytes')
            for _ in range(c.n(15)): hash_check(c, ctor, orc, c.R(c.r.choice([c.r.randrange(0, 5 * bs), c.r.randrange(0, 3000)])), n)
    return g
for names in (['sha1', 'sha224', 'rmd160'], ['sha256', 'md5', 'sha2-224', 'sha2-256'], ['sha384', 'sha512', 'sha2-384', 'sha2-512'], ['sha3-224', 'sha3-256', 'sha3-384', 'sha3-512'],
              ['keccak-224', 'keccak-256'], ['keccak-384', 'keccak-512']):
    job('C01', 'C03')(mk_hash(names))
@job('C01', 'C03')
def blake2_sizes(c):
    for kind, mx, bs in (('b', 64, 128), ('s', 32, 64)):
        for n in range(1, mx + 1):
            d = c.R(c.r.choice([0, 1, bs - 1, bs, bs + 1, 2 * bs, c.r.randrange(600)])); c.d().eq(f'hs blake2{kind} {8*n} {hx(d)}', b2(kind, n)(d))
        ct = 'blake2b512' if kind == 'b' else 'blake2s256'
        for L in lens(bs):
            d = c.R(L); c.d().eq(f'hs {ct} {hx(d)}', b2(kind, mx)(d))
        for _ in range(c.n(20)): hash_check(c, ct, b2(kind, mx), c.R(c.r.randrange(0, 2000)), mx)
def mk_long(nm, mb):
    def g(c):
        D = c.d(); blk = bytes(range(256)) * 4096; ctor = nm if nm in ('sha1', 'sha256', 'sha512', 'rmd160', 'md5') else nm
        orc = hashlib.new({'rmd160': 'ripemd160', 'blake2s256': 'blake2s'}.get(nm, nm))
        D.ok(f'H 1 {ctor}'); D.ok(f'Y 1 {hx(blk)}')
        D.eq(f'hrep 1 1 {mb}', 'ok', timeout=300); D.eq('hp 1 616263', 'ok')
        for _ in range(mb): orc.update(blk)
        orc.update(b'abc'); D.eq('hr 1', orc.digest(), f'{nm} of {mb} MB + 3 bytes', timeout=60)
    return g
for nm in ('sha1', 'sha256', 'md5', 'rmd160'): job('C01')(mk_long(nm, 513))
def blake2s_4g(c):
    """BLAKE2s counts bytes in two 32-bit words: a message of more than 4 GB (only when looking for a failing input)"""
    if c.tier != 'quick': mk_long('blake2s256', 4100)(c)
job('C01')(blake2s_4g)
@job('C02', 'C03')
def blake3_len(c):
    ls = [0, 1, 31, 63, 64, 65, 127, 128, 129, 1023, 1024, 1025, 2047, 2048, 2049, 3072, 3073, 4096, 4097, 5120, 6144, 7168, 7169, 8192, 8193, 16384, 31744, 31745]
    for L in ls:
        d = c.R(L); c.d().eq(f'hs blake3_256 {hx(d)}', o.blake3(d, 32), f'BLAKE3 of {L} bytes')
    for n in list(range(1, 70)) + [127, 128, 129, 192, 193, 300]:
        d = c.R(c.r.choice([0, 1, 64, 65, 1024, 1025, 2049])); c.d().eq(f'hs blake3 {8*n} {hx(d)}', o.blake3(d, n), f'BLAKE3 output of {n} bytes')
        k = c.R(32); c.d().eq(f'hs mblake3 {8*n} {hx(k)} {hx(d)}', o.blake3(d, n, k), 'keyed')
@job('C02', 'C03')
def blake3_split(c):
    for _ in range(c.n(40)):
        L = c.r.choice([c.r.randrange(0, 200), c.r.randrange(900, 1200), c.r.randrange(0, 6000), 1024 * c.r.randrange(0, 12) + c.r.randrange(0, 3)])
        d = c.R(L); k = c.R(32); n = c.r.randrange(1, 100)
        hash_check(c, f'blake3 {8*n}', lambda d: o.blake3(d, n), d, n)
        hash_check(c, f'mblake3 {8*n} {hx(k)}', lambda d: o.blake3(d, n, k), d, n)
@job('C02')
def blake3_big(c):
    for L in [65536, 65537, 100000, 1024 * 37 + 5]:
        d = c.R(L); D = c.d(); D.ok('H 1 mblake3_256 ' + hx(k := c.R(32))); feed_hash(c, D, 1, d); D.eq('hr 1', o.blake3(d, 32, k))
ALLH = [(n, v[0], v[1], v[2]) for n, v in HASHES.items() if not n.startswith('sha2-')] + [('blake2b', 'blake2b512', b2('b', 64), 128), ('blake2s', 'blake2s256', b2('s', 32), 64), ('blake2b-20', 'blake2b 160', b2('b', 20), 128)]
def mk_cuts(names, props):
    def g(c):
        for nm, ctor, orc, bs in ALLH:
            if nm not in names: continue
            for L in sorted({bs - 1, bs, bs + 1, 2 * bs - 1, 2 * bs, 2 * bs + 1, 3 * bs, c.r.randrange(2 * bs, 5 * bs)}):
                d = c.R(L); c.d().eq(f'hcall {ctor} {hx(d)}', orc(d), f'{nm} of {L} bytes in every split')
            for L in (4 * bs, 1000, 4096, 4097):
                cuts = c.split(L); cuts = cuts[:-1] if sum(cuts) == L else cuts; d = c.R(L)
                c.d().eq(f'hc {len(cuts)} {" ".join(map(str, cuts))} {ctor} {hx(d)}', orc(d), f'{nm} of {L} bytes, cuts {cuts}')
    job(*props)(g); return g
for names in (['sha1', 'sha224', 'sha256'], ['rmd160', 'md5'], ['sha384', 'sha512'], ['blake2b', 'blake2s', 'blake2b-20'], ['sha3-224', 'sha3-256', 'keccak-256'], ['sha3-384', 'sha3-512', 'keccak-224', 'keccak-384', 'keccak-512']):
    mk_cuts(names, ('C01', 'C03'))
@job('C02', 'C03')
def blake3_cuts(c):
    for L in (64, 65, 128, 1024, 1025): d = c.R(L); c.d().eq(f'hcall blake3_256 {hx(d)}', o.blake3(d, 32), f'BLAKE3 of {L} bytes in every split')
    k = c.R(32)
    for L in (129, 1023): d = c.R(L); c.d().eq(f'hcall mblake3_256 {hx(k)} {hx(d)}', o.blake3(d, 32, k), f'keyed BLAKE3 of {L} bytes in every split')
    for a, L in ((1024, 2048), (2048, 4096), (3072, 9000), (1024, 8192), (4096, 4097), (8192, 20000), (5120, 12288), (7168, 16384), (1023, 5000), (1025, 5000), (1024, 3072), (3072, 4096)):
        d = c.R(L); c.d().eq(f'hc 1 {a} blake3_256 {hx(d)}', o.blake3(d, 32), f'BLAKE3 of {L} bytes, cut at {a}')
@job('C02', 'C03')
def blake3_huge(c):
    """sizes an oracle in Python is too slow for, against bat/refb3.c (the recursive definition): long messages in many pieces, long outputs"""
    ref = os.path.join(c.scratch, 'refb3'); subprocess.run(['gcc', '-O2', '-w', '-o', ref, os.path.join(HERE, 'refb3.c')], check=True)
    def R(L, sd, n, k=None): return subprocess.run([ref, str(L), str(sd), str(n)] + ([k.hex()] if k else []), check=True, capture_output=True, text=True).stdout.strip()
    for L, cuts in ((400000, [[65536], [131072], [65536, 131072], [1 << 17, 1 << 18], [1024], [262144]]), (1 << 20, [[65536], [1 << 19], [1 << 18, 1 << 18], [3 << 18]]), ((1 << 20) + 1, [[1 << 20], [1 << 16], [999424]])):
        sd = c.r.randrange(1 << 30); t = f'@{L}:{sd}'; r = R(L, sd, 32); c.d().eq(f'hs blake3_256 {t}', r, f'BLAKE3 of {L} bytes')
        for cu in cuts + [[1000] * (L // 1000), [c.r.randrange(1, 9000) for _ in range(L // 9000)]]: c.d().eq(f'hc {len(cu)} {" ".join(map(str, cu))} blake3_256 {t}', r, f'BLAKE3 of {L} bytes, cuts {cu}')
    for n in (1000, 5000, 16384, 16385, 16448, 20000, 70000) + ((5 << 20,) if c.tier != 'quick' else ()):
        for L in (0, 64, 1025, c.r.randrange(5000)): sd = c.r.randrange(1 << 30); k = c.R(32); c.d().eq(f'hs blake3 {8*n} @{L}:{sd}', R(L, sd, n), f'BLAKE3 of {L} bytes, output of {n}'); c.d().eq(f'hs mblake3 {8*n} {hx(k)} @{L}:{sd}', R(L, sd, n, k), f'keyed BLAKE3 of {L} bytes, output of {n}')
    if c.tier != 'quick':
        for L in (70 << 20, (128 << 20) + 1, (64 << 20) + (1 << 16)):
            sd = c.r.randrange(1 << 30); t = f'@{L}:{sd}'; r = R(L, sd, 32); D = c.d(); D.true(D.send(f'hs blake3_256 {t}', 120) == r, f'BLAKE3 of {L} bytes')
            for cu in ([64 << 20], [1024], [1 << 20] * (L >> 20), [1000], [99999] * (L // 100000)): D = c.d(); got = D.send(f'hc {len(cu)} {" ".join(map(str, cu))} blake3_256 {t}', 120); D.true(got == r, f'BLAKE3 of {L} bytes, cuts {cu[:3]} ...', r, got)
@job('C03', 'C15')
def sip_cuts(c):
    for L in list(range(0, 34)):
        d = c.R(L); k = c.R(16)
        c.d().eq(f'hcall siphash {hx(k)} {hx(d)}', o.siphash(k, d, 8), f'SipHash of {L} bytes in every split')
        c.d().eq(f'hcall siphash128 {hx(k)} {hx(d)}', o.siphash(k, d, 16), f'SipHash-128 of {L} bytes in every split')
@job('C03', 'C13')
def hmac_cuts(c):
    for nm, alg, bs in (('sha1', 'sha1', 64), ('sha256', 'sha256', 64), ('sha384', 'sha384', 128), ('sha512', 'sha512', 128), ('rmd160', 'ripemd160', 64), ('md5', 'md5', 64)):
        for L in (bs - 1, bs, bs + 1, 2 * bs): k = c.R(c.r.choice([1, 20, bs - 1, bs, bs + 1])); d = c.R(L); c.d().eq(f'hcall hmac_{nm} {hx(k)} {hx(d)}', o.hmac(alg, k, d))
@job('C03', 'C14', 'C15')
def mac_cuts(c):
    for L in (15, 16, 17, 31, 32, 33, 48, 64, 65):
        k = c.R(16); d = c.R(L)
        c.d().eq(f'hcall cmac _ {hx(k)} {hx(d)}', o.cmac(o.AES(k), bytes(16), d)); c.d().eq(f'hcall maes _ 8000 {hx(k)} {hx(d)}', o.cbcmac(o.AES(k), bytes(16), o.pad('8000', d, 16)))
        c.d().eq(f'hcall mdft _ 8000 {hx(k)} {hx(d)}', dft(k, bytes(8), o.pad('8000', d, 8)))
    for L in (63, 64, 65, 127, 128, 129): k = c.R(16); d = c.R(L); c.d().eq(f'hcall mblake2b512 {hx(k)} {hx(d)}', b2('b', 64, k)(d)); c.d().eq(f'hcall mblake2s256 {hx(k)} {hx(d)}', b2('s', 32, k)(d))
@job('C03')
def mac_split(c):
    for _ in range(c.n(20)):
        d = c.R(c.r.randrange(0, 400)); k = c.R(16)
        for ct, orc, n in (('siphash ' + hx(k), lambda d: o.siphash(k, d, 8), 8), ('siphash128 ' + hx(k), lambda d: o.siphash(k, d, 16), 16),
            ('hmac_sha256 ' + hx(k), lambda d: o.hmac('sha256', k, d), 32), ('hmac_md5 ' + hx(k), lambda d: o.hmac('md5', k, d), 16), ('hmac_sha384 ' + hx(k), lambda d: o.hmac('sha384', k, d), 48),
            ('hmac_sha1 ' + hx(k), lambda d: o.hmac('sha1', k, d), 20), ('hmac_sha512 ' + hx(k), lambda d: o.hmac('sha512', k, d), 64), ('hmac_rmd160 ' + hx(k), lambda d: o.hmac('ripemd160', k, d), 20),
            ('mblake2b512 ' + hx(k), b2('b', 64, k), 64), ('mblake2s256 ' + hx(k), b2('s', 32, k), 32), ('cmac _ ' + hx(k), lambda d: o.cmac(o.AES(k), bytes(16), d), 16),
            ('maes _ length ' + hx(k), lambda d: o.cbcmac(o.AES(k), bytes(16), o.pad('length', d, 16)), 16), ('mdft _ 8000 ' + hx(k), lambda d: dft(k, bytes(8), o.pad('8000', d, 8)), 8)):
            hash_check(c, ct, orc, d, n)
def dft(k, iv, d):
    a, b, e = o.DES(k[:8]), o.DES(k[8:16]), o.DES(k[16:24] if len(k) == 24 else k[:8])
    return e.enc(b.dec(o.cbcmac(a, iv, d)))
# ---- block ciphers
def blk_job(variant):
    def aes(c):
        special = lambda n: c.r.choice([bytes(n), b'\xff' * n, bytes([1 << c.r.randrange(8)] + [0] * (n - 1)), bytes(c.r.choice([0, 255, 0x80, 1]) for _ in range(n)), c.R(n), c.R(n), c.R(n)])
        for _ in range(c.n(60)):
            for kl in (16, 24, 32):
                k = special(kl); a = o.AES(k); b = special(16); e = a.enc(b); D = c.d(variant)
                D.ok(f'B 1 aes_e {hx(k)}'); D.ok(f'B 2 aes_d {hx(k)}'); pre = c.R(3); D.ok(f'Y 1 {hx(pre + b + pre)}'); D.ok(f'Y 2 {hx(bytes(40))}')
                D.eq('bt 1 1 3 2 5', 'ok'); D.eq('y 2', bytes(5) + e + bytes(19), 'AES encryption'); D.eq('y 1', pre + b + pre, 'AES encryption modified its source')
                D.eq('bt 2 2 5 2 5', 'ok'); D.eq('y 2', bytes(5) + b + bytes(19), 'AES decryption in place')
                D.ok(f'Y 1 {hx(b)}'); D.eq('bt 2 1 0 2 20', 'ok'); D.eq('y 2', bytes(5) + b[:15] + a.dec(b) + bytes(4), 'AES decryption')
    return aes
job('C04', 'C06')(blk_job('hw')); job('C04', 'C06')(blk_job('sw'))
@job('C05')
def des_bf(c):
    for _ in range(c.n(60)):
        k = c.r.choice([c.R(8), bytes(8), b'\xff' * 8, b'\x01' * 8, bytes.fromhex('0123456789abcdef')]); b = c.r.choice([c.R(8), bytes(8), b'\xff' * 8])
        for nm, orc in (('des', o.DES(k)),): blk_check(c, nm, k, orc, b)
        for kl in (16, 24):
            k = c.r.choice([c.R(kl), c.R(8) * (kl // 8), bytes(kl)]); blk_check(c, 'tdes', k, o.TDES(k), b)
    for kl in range(4, 57):
        k = c.R(kl); blk_check(c, 'bf', k, o.BF(k), c.R(8))
    for k in (bytes(8), b'\xff' * 56, b'\x80' * 4): blk_check(c, 'bf', k, o.BF(k), c.R(8))
def blk_check(c, nm, k, orc, b):
    D = c.d(); D.ok(f'B 1 {nm}_e {hx(k)}'); D.ok(f'B 2 {nm}_d {hx(k)}'); D.ok(f'Y 1 {hx(b"xy" + b)}'); D.ok(f'Y 2 {hx(bytes(20))}')
    D.eq('bt 1 1 2 2 7', 'ok'); D.eq('y 2', bytes(7) + orc.enc(b) + bytes(5), f'{nm} encryption'); D.eq('y 1', b'xy' + b, 'source modified')
    D.eq('bt 2 2 7 2 7', 'ok'); D.eq('y 2', bytes(7) + b + bytes(5), f'{nm} decryption inverts'); D.eq('bt 2 1 2 2 0', 'ok'); D.eq('y 2', (orc.dec(b) + b[1:] + bytes(5)), f'{nm} decryption')
@job('C04', 'C06')
def aes_first(c):
    """fresh processes: the first key is cooked before anything else, used after another one was cooked"""
    for i, (a, b) in enumerate((('e', 'd'), ('d', 'e'), ('e', 'e'), ('d', 'd'))):
        for v in ('hw', 'sw'):
            k = c.R(c.r.choice([16, 24, 32])); k2 = c.R(16); x = c.R(16); D = c.d(v, env={'FIRST': str(i)}); D.ok(f'B 1 aes_{a} {hx(k)}'); D.ok(f'B 2 aes_{b} {hx(k2)}')
            for n, kk, dr in ((1, k, a), (2, k2, b)): D.ok(f'Y 1 {hx(x)}'); D.eq(f'bt {n} 1 0 1 0', 'ok'); D.eq('y 1', o.AES(kk).enc(x) if dr == 'e' else o.AES(kk).dec(x), 'first use of AES in a process')
@job('C06')
def hw_sw(c):
    for _ in range(c.n(60)):
        k = c.R(c.r.choice([16, 24, 32])); iv = c.R(c.r.choice([12, 1, 16, 20])); h = c.R(c.r.randrange(40)); m = c.R(c.r.randrange(100))
        cmd = f'ats gcm {hx(h)} {hx(iv)} {hx(k)} e {hx(m)}'; ct, tag = o.gcm(k, iv, h, m)
        for v in ('hw', 'sw'): c.d(v).eq(cmd, ct + tag, f'AES-GCM, {v} build')
        cmd = f'ts aes CBC length _ {hx(k)} e {hx(m)}'; a = c.d('hw').ok(cmd); c.d('sw').eq(cmd, a, 'hardware and software builds differ')
        cmd = f'ts aes CBC length _ {hx(k)} d {a}'; c.d('hw').eq(cmd, m); c.d('sw').eq(cmd, m)
# ---- modes
def ciphers(c):
    k = c.r.choice(['toy', 'toy', 'toy', 'aes', 'des'])
    if k == 'toy': bs = c.r.choice([1, 2, 3, 4, 5, 7, 8, 13, 16, 17, 32]); kk = c.r.randrange(256); return f'toy {bs} {kk}', f'toyd {bs} {kk}', o.Toy(bs, kk)
    if k == 'aes': kk = c.R(16); return f'aes_e {hx(kk)}', f'aes_d {hx(kk)}', o.AES(kk)
    kk = c.R(8); return f'des_e {hx(kk)}', f'des_d {hx(kk)}', o.DES(kk)
def mode_cases(c, e, d, orc):
    bs = orc.bs; iv = c.r.choice([None, c.R(bs), b'\xff' * bs, bytes(bs - 1) + b'\xff']); I = '_' if iv is None else hx(iv); v = bytes(bs) if iv is None else iv
    n = c.r.randrange(1, bs + 1)
    yield f'cbc_e {I} {e}', bs, lambda x: o.cbc(orc, v, x, True)
    yield f'cbc_d {I} {d}', bs, lambda x: o.cbc(orc, v, x, False)
    yield f'cfb_e {I} {n} {e}', n, lambda x: o.cfb(orc, v, n, x, True)
    yield f'cfb_d {I} {n} {e}', n, lambda x: o.cfb(orc, v, n, x, False)
    yield f'ofb {I} {n} {e}', n, lambda x: o.ofb(orc, v, n, x)
    if bs > 1:
        yield f'ctr {I} _ {e}', bs, lambda x: o.ctr(orc, v, bs, x)
        if n > 1: yield f'ctr {I} {n} {e}', bs, lambda x: o.ctr(orc, v, n, x)
    yield e, bs, lambda x: o.ecb(orc, x, True)
    yield d, bs, lambda x: o.ecb(orc, x, False)
@job('C07')
def modes_raw(c):
    for _ in range(c.n(120)):
        e, d, orc = ciphers(c)
        for spec, n, f in mode_cases(c, e, d, orc):
            nb = c.r.randrange(1, 12); x = c.R(n * nb); want = f(x); D = c.d(); D.ok('B 1 ' + spec); D.eq('bbs 1', n, 'blocksize')
            how = c.r.randrange(4); pre = c.R(2)
            D.ok(f'Y 1 {hx(pre + x + pre)}'); D.ok(f'Y 2 {hx(bytes(len(x) + 9))}')
            for i in range(nb):
                if how == 0: D.eq(f'bt 1 1 {2+n*i} 2 {4+n*i}', 'ok')
                elif how == 1: D.eq(f'bt 1 1 {2+n*i} 1 {2+n*i}', 'ok')
                else: D.eq(f'bt 1 1 {2+n*i} 2 {4+n*i}', 'ok') if i % 2 else (D.eq(f'bt 1 1 {2+n*i} 1 {2+n*i}', 'ok'))
            if how == 0: D.eq('y 2', bytes(4) + want + bytes(5), 'mode output, separate buffers'); D.eq('y 1', pre + x + pre, 'source modified')
            elif how == 1: D.eq('y 1', pre + want + pre, 'mode output, in place')
            else:
                a = b''.join(want[n*i:n*i+n] if i % 2 == 0 else x[n*i:n*i+n] for i in range(nb)); b = b''.join(want[n*i:n*i+n] if i % 2 else bytes(n) for i in range(nb))
                D.eq('y 1', pre + a + pre, 'mode output, mixed buffers'); D.eq('y 2', bytes(4) + b + bytes(5), 'mode output, mixed buffers')
@job('C07')
def modes_cipher(c):
    for _ in range(c.n(60)):
        for nm, orcf, kls in (('aes', o.AES, (16, 24, 32)), ('des', o.DES, (8,)), ('tdes', o.TDES, (16, 24)), ('bf', o.BF, (9,))):
            if nm == 'bf' and c.r.random() < .7: continue
            k = c.R(c.r.choice(kls)); orc = orcf(k); bs = orc.bs; iv = c.R(bs); n = c.r.randrange(1, bs + 1); x = c.R(bs * n * c.r.randrange(0, 3))
            for m, f in (('ECB', lambda e: o.ecb(orc, x, e)), ('CBC', lambda e: o.cbc(orc, iv, x, e)), ('_', lambda e: o.cbc(orc, iv, x, e)), (f'CFB {n}', lambda e: o.cfb(orc, iv, n, x, e)), (f'OFB {n}', lambda e: o.ofb(orc, iv, n, x)),
                         ('CTR', lambda e: o.ctr(orc, iv, bs, x))) + (((f'CTRN {n}', lambda e: o.ctr(orc, iv, n, x)),) if n > 1 else ()):
                for e in (True, False): c.d().eq(f'ts {nm} {m} _ {hx(iv)} {hx(k)} {"e" if e else "d"} {hx(x)}', f(e), f'{nm} mode {m}')
@job('C07')
def ctr_carry(c):
    for _ in range(c.n(30)):
        bs = c.r.choice([4, 8, 16]); n = c.r.randrange(2, bs + 1); kk = c.r.randrange(256); orc = o.Toy(bs, kk)
        iv = c.R(bs - n) + c.r.choice([b'\xff' * n, b'\xff' * (n - 1) + b'\xfe', bytes([0]) + b'\xff' * (n - 1), c.R(1) + b'\xff' * (n - 2) + b'\xf0'])
        x = c.R(bs * 300); c.d().eq(f'ts cipher ctr {hx(iv)} {n} toy {bs} {kk} {hx(x)}', o.ctr(orc, iv, n, x), 'counter carry')
# ---- padding
@job('C08')
def padding(c):
    for sch in ('length', '8000'):
        for bs in list(range(1, 40)) + [64, 127, 128, 200, 254, 255]:
            for used in (range(bs) if bs < 20 else c.r.sample(range(bs), 8) + [0, bs - 1]):
                b = c.R(bs); D = c.d(); D.ok(f'Y 1 {hx(b)}'); D.eq(f'pp {sch} 1 {used}', 'ok'); want = o.pad(sch, b[:used], bs)
                D.eq('y 1', want, 'padding'); D.eq(f'ps {sch} 1', used, 'strip inverts pad'); D.eq('y 1', want, 'strip modified the block')
        for bs in (1, 2, 3, 8, 16, 17, 255):
            for _ in range(c.n(60)):
                k = c.r.randrange(5)
                if k == 0: b = c.R(bs)
                elif k == 1: b = bytes(c.r.choice([0, 0, 0, 0x80, 1]) for _ in range(bs))
                elif k == 2: n = c.r.choice([0, 1, 2, bs - 1, bs, bs + 1, bs + 2, 255]) & 255; b = (c.R(bs) + bytes([n]) * min(n, bs))[-bs:]
                elif k == 3: b = bytes(bs)
                else: b = bytearray(o.pad(sch, c.R(c.r.randrange(bs)), bs)); b[c.r.randrange(bs)] ^= 1 << c.r.randrange(8); b = bytes(b)
                w = o.strip(sch, b); D = c.d(); D.ok(f'Y 1 {hx(b)}'); D.eq(f'ps {sch} 1', '!Error.Bad_padding' if w is None else w, 'strip'); D.eq('y 1', b, 'strip modified the block')
@job('C08', 'C09')
def padded_cipher(c):
    for _ in range(c.n(100)):
        e, d, orc = ciphers(c); sch = c.r.choice(['length', '8000']); x = c.R(c.r.choice([c.r.randrange(0, 70), c.r.randrange(0, 900)])); want = o.ecb(orc, o.pad(sch, x, orc.bs), True)
        D = c.d(); D.ok(f'T 1 cpe {sch} {e}'); D.eq('tib 1', 1); D.eq('tob 1', orc.bs); out = feed(c, D, 1, x); D.eq('tfi 1', 'ok'); out += drain(c, D, 1, all=True); D.true(out == want, 'padded encryption', hx(want), hx(out))
        D = c.d(); D.ok(f'T 1 cpd {sch} {d}'); D.eq('tib 1', orc.bs); D.eq('tob 1', 1); out = feed(c, D, 1, want); D.eq('tfi 1', 'ok'); out += drain(c, D, 1, all=True); D.true(out == x, 'padded decryption', hx(x), hx(out))
        bad = bytearray(o.pad(sch, x, orc.bs)); bad[-1] ^= c.r.randrange(1, 256); bad = bytes(bad); w = o.strip(sch, bad[-orc.bs:])
        c.d().eq(f'ts cpd {sch} {d} {hx(o.ecb(orc, bad, True))}', '!Error.Bad_padding' if w is None else bad[:len(bad) - orc.bs + w], 'damaged padding')
        if orc.bs > 1:
            y = want[:-1 - c.r.randrange(orc.bs - 1)]; c.d().eq(f'ts cpd {sch} {d} {hx(y)}', '!Error.Wrong_data_length', 'partial final block')
        c.d().eq(f'ts cpd {sch} {d} -', '!Error.Wrong_data_length', 'empty ciphertext')
# ---- streaming
@job('C09')
def streaming(c):
    for _ in range(c.n(130)):
        e, d, orc = ciphers(c); bs = orc.bs; L = c.r.choice([c.r.randrange(0, 80), c.r.randrange(0, 700), c.r.randrange(0, 5000)]); full = L - L % bs; x = c.R(L)
        D = c.d(); D.ok(f'T 1 cipher cbc_e _ {e}'); D.eq('tib 1', bs); D.eq('tob 1', bs)
        out = feed(c, D, 1, x); fin = c.r.choice(['tfi', 'tfl'])
        if L % bs: D.eq(f'{fin} 1', '!Error.Wrong_data_length', 'partial block')
        else: D.eq(f'{fin} 1', 'ok')
        out += drain(c, D, 1, all=True); want = o.cbc(orc, bytes(bs), x[:full], True); D.true(out == want, 'output differs from the one of the whole input', hx(want), hx(out))
        if L % bs == 0:
            y = c.R(bs * 2); out = feed(c, D, 1, y); D.eq('tfi 1', 'ok'); out += drain(c, D, 1, all=True); w2 = o.cbc(orc, bytes(bs), x + y, True)[L:]; D.true(out == w2, 'output after flush', hx(w2), hx(out))
@job('C09', 'C10')
def streaming2(c):
    for _ in range(c.n(100)):
        x = c.R(c.r.choice([c.r.randrange(0, 400), c.r.randrange(0, 3000)])); k = c.R(c.r.choice([16, 32])); iv = c.R(8)
        s, want = c.r.choice([(f'scipher chacha {hx(iv)} _ {hx(k)}', o.xor(x, o.chacha(k, iv, 0, len(x)))), (f'rc4 {hx(k)} e', o.xor(x, o.rc4(k, len(x))))])
        D = c.d(); D.ok(f'T 1 {s}'); D.eq('tib 1', 1); D.eq('tob 1', 1); out = feed(c, D, 1, x)
        if c.r.random() < .5: D.eq('tfl 1', 'ok')
        D.eq('tfi 1', 'ok'); out += drain(c, D, 1, all=True); D.true(out == want, 'stream cipher output', hx(want), hx(out))
@job('C09')
def composed(c):
    for _ in range(c.n(80)):
        x = c.R(c.r.randrange(0, 600)); k = c.R(16); iv = c.R(8); e, d, orc = ciphers(c); sch = c.r.choice(['length', '8000'])
        p = o.ecb(orc, o.pad(sch, x, orc.bs), True)
        t, want = c.r.choice([(f'compose cpe {sch} {e} hexe', p.hex().encode()), (f'compose hexe rc4 {hx(k)} e', o.xor(x.hex().encode(), o.rc4(k, 2 * len(x)))),
            (f'compose cpe {sch} {e} cpd {sch} {d}', x), (f'compose b64p compose b64d hexe', x.hex().encode()), (f'compose compose hexe hexd cpe {sch} {e}', p), (f'compose rc4 {hx(k)} e rc4 {hx(k)} d', x),
            (f'compose zc _ _ zu _', x), (f'compose cpe {sch} {e} compose b64c b64d', p)])
        D = c.d(); D.ok(f'T 1 {t}'); out = feed(c, D, 1, x); D.eq('tfi 1', 'ok'); out += drain(c, D, 1, all=True); D.true(out == want, 'composed transform', hx(want), hx(out))
    for t, i, ob in (('compose cpe length toy 8 1 hexe', 1, 1), ('compose hexe cipher toy 8 1', 1, 8), ('compose cipher toy 8 1 cipher toy 4 1', 8, 4)):
        D = c.d(); D.ok('T 1 ' + t); D.eq('tib 1', i); D.eq('tob 1', ob)
    D = c.d(); D.ok('T 1 compose cipher toy 4 1 cipher toy 8 1'); D.ok('tp 1 01020304'); D.eq('tfl 1', '!Error.Wrong_data_length')
    D = c.d(); D.ok('T 1 compose cipher toy 4 1 cipher toy 4 2'); D.ok('tp 1 0102030405060708'); D.eq('tfl 1', 'ok'); D.eq('tav 1', 8); D.eq('tgs 1', o.ecb(o.Toy(4, 2), o.ecb(o.Toy(4, 1), bytes([1,2,3,4,5,6,7,8]), True), True))
@job('C09')
def big_output(c):
    for n in (255, 256, 257, 511, 512, 513, 1000, 4096, 70000):
        x = c.R(n); k = c.R(16); D = c.d(); D.ok(f'T 1 rc4 {hx(k)} e'); D.eq(f'tp 1 {hx(x)}', 'ok'); D.eq('tav 1', n); D.eq('tgs 1', o.xor(x, o.rc4(k, n)))
        D = c.d(); D.ok('T 1 cipher toy 16 3'); m = n // 16 * 16; D.eq(f'tp 1 {hx(x[:m])}', 'ok'); D.eq('tfi 1', 'ok'); D.eq('tgs 1', o.ecb(o.Toy(16, 3), x[:m], True))
        D = c.d(); D.ok(f'T 1 rc4 {hx(k)} e'); out = b''
        w = o.xor(x, o.rc4(k, n))
        for i in range(0, min(n, 3000), 100):
            D.eq(f'tp 1 {hx(x[i:i+100])}', 'ok')
            for _ in range(37):
                if len(out) < min(n, i + 100): out += bytes([int(D.ok('tgc 1'))])
        out += unhx(D.ok('tgs 1')); D.true(out == w[:len(out)] and len(out) == min(n, -(-min(n, 3000) // 100) * 100), 'partially drained output', hx(w), hx(out))
# ---- stream ciphers
@job('C10')
def keystream(c):
    for _ in range(c.n(150)):
        k = c.R(c.r.choice([16, 32])); ivl = c.r.choice([8, 12]); iv = c.R(ivl); n = c.r.choice([c.r.randrange(1, 200), c.r.randrange(1, 900)])
        ctr = c.r.choice([0, 1, 2**32 - 1 - (n // 64 + 2), c.r.randrange(2**31)] + ([2**32 - 1, 2**32 - 2, 2**32, 2**40 + 5, 2**63 - 1, 2**63 - 2**20] if ivl == 8 else []))
        x = c.R(n); want = o.xor(x, o.chacha(k, iv, ctr, n)); D = c.d(); D.ok(f'S 1 chacha {hx(iv)} {ctr} {hx(k)}'); D.ok(f'Y 1 {hx(x)}'); D.ok(f'Y 2 {hx(bytes(n + 3))}')
        pos = 0; inpl = c.r.random() < .4
        for m in c.split(n): D.eq(f'stt 1 1 {pos} {1 if inpl else 2} {pos if inpl else pos + 2} {m}', 'ok'); pos += m
        if inpl: D.eq('y 1', want, 'ChaCha20 keystream')
        else: D.eq('y 2', bytes(2) + want + bytes(1), 'ChaCha20 keystream'); D.eq('y 1', x, 'source modified')
    for _ in range(c.n(60)):
        k = c.R(c.r.choice([1, 2, 5, 16, 32, 255, 256, c.r.randrange(1, 257)])); n = c.r.randrange(1, 1200); x = c.R(n); want = o.xor(x, o.rc4(k, n))
        D = c.d(); D.ok(f'S 1 arcfour {hx(k)}'); D.ok(f'Y 1 {hx(x)}'); D.ok(f'Y 2 {hx(bytes(n + 3))}'); pos = 0
        for m in c.split(n): D.eq(f'stt 1 1 {pos} 2 {pos + 2} {m}', 'ok'); pos += m
        D.eq('y 2', bytes(2) + want + bytes(1), 'ARCfour keystream')
    D = c.d(); D.eq(f'ts cc20 _ _ {hx(bytes(32))} e {hx(bytes(70))}', o.chacha(bytes(32), bytes(8), 0, 70), 'default IV and counter')
    # negative counter: 64-bit unsigned
    D = c.d(); D.eq(f'ts cc20 {hx(bytes(8))} -1 {hx(bytes(32))} e {hx(bytes(130))}', (o.chacha(bytes(32), bytes(8), 2**64 - 1, 64) + o.chacha(bytes(32), bytes(8), 0, 66)), '64-bit counter wraps')
# ---- AEAD
def aead_job(kind, variant='hw'):
    def g(c):
        for _ in range(c.n(70)):
            if kind == 'gcm': k = c.R(c.r.choice([16, 24, 32])); iv = c.R(c.r.choice([12, 12, 1, 4, 8, 11, 13, 15, 16, 17, 31, 32, 33, 60])); f = o.gcm
            else: k = c.R(c.r.choice([16, 32])); iv = c.R(c.r.choice([8, 12])); f = o.chapoly
            h = c.R(c.r.choice([0, 1, 15, 16, 17, 31, 32, 33, c.r.randrange(200)])); x = c.R(c.r.choice([0, 1, 15, 16, 17, 31, 32, 33, 63, 64, 65, 128, c.r.randrange(400), c.r.randrange(900)])); ct, tag = f(k, iv, h, x)
            H = hx(h) if h or c.r.random() < .5 else '_'; a = f'{kind} {H} {hx(iv)} {hx(k)}'
            D = c.d(variant); D.ok(f'A 1 {a} e'); D.eq('az 1', 16); D.eq('aib 1', 1); D.eq('aob 1', 1); out = feed(c, D, 1, x, 'a'); t = D.ok('af 1'); out += drain(c, D, 1, 'a', True)
            D.true(out == ct, 'ciphertext', hx(ct), hx(out)); D.true(t == hx(tag), 'tag', hx(tag), t)
            D = c.d(variant); D.ok(f'A 1 {a} d'); out = feed(c, D, 1, ct, 'a'); t = D.ok('af 1'); out += drain(c, D, 1, 'a', True)
            D.true(out == x, 'plaintext', hx(x), hx(out)); D.true(t == hx(tag), 'tag on decryption', hx(tag), t)
            D = c.d(variant); D.eq(f'ats {a} e {hx(x)}', ct + tag); D.eq(f'atd {a} e {hx(x)}', f'{hx(ct)} {hx(tag)}'); D.eq(f'acs {a} d {hx(ct + tag)}', 'some ' + hx(x))
            bad = bytearray(ct + tag); i = c.r.choice([c.r.randrange(len(bad)), len(bad) - 1 - c.r.randrange(16)]); bad[i] ^= 1 << c.r.randrange(8); D.eq(f'acs {a} d {hx(bad)}', 'none', 'modified message accepted')
            h2 = bytearray(h + b'x') if not h or c.r.random() < .3 else bytearray(h)
            if len(h2) == len(h): h2[c.r.randrange(len(h))] ^= 1 << c.r.randrange(8)
            D.eq(f'acs {kind} {hx(h2)} {hx(iv)} {hx(k)} d {hx(ct + tag)}', 'none', 'modified associated data accepted')
            D.eq(f'acs {a} d {hx(c.R(c.r.randrange(16)))}', '!Error.Wrong_data_length', 'input shorter than a tag')
        k = c.R(32); iv = c.R(12); x = c.R(20); ct, tag = (o.gcm if kind == 'gcm' else o.chapoly)(k, iv, b'', x)
        for bit in range(128):
            bad = bytearray(tag); bad[bit // 8] ^= 1 << (bit % 8); c.d(variant).eq(f'acs {kind} _ {hx(iv)} {hx(k)} d {hx(ct + bytes(bad))}', 'none', f'tag bit {bit} not checked')
    return g
job('C11')(aead_job('gcm')); job('C11')(aead_job('gcm', 'sw')); job('C12')(aead_job('cp'))
@job('C11')
def gcm_long(c):
    for L in (5000, 4096):
        k = c.R(16); iv = c.R(12); h = c.R(700); x = c.R(L); ct, tag = o.gcm(k, iv, h, x); c.d().eq(f'ats gcm {hx(h)} {hx(iv)} {hx(k)} e {hx(x)}', ct + tag)
@job('C12')
def poly_edge(c):
    """long and boundary inputs, then associated data solved for so that the Poly1305 accumulator takes chosen corner values"""
    for _ in range(c.n(40)):
        k = c.R(32); iv = c.R(c.r.choice([8, 12])); h = c.R(c.r.randrange(3000)); x = c.R(c.r.randrange(5000)); ct, tag = o.chapoly(k, iv, h, x)
        D = c.d(); D.ok(f'A 1 cp {hx(h)} {hx(iv)} {hx(k)} e'); out = feed(c, D, 1, x, 'a'); D.eq('af 1', tag, 'tag'); out += drain(c, D, 1, 'a', True); D.true(out == ct, 'ciphertext')
    P = (1 << 130) - 5; L = 1 << 128; ones = [(1 << e) - 1 for e in (26, 44, 52, 78, 88, 104, 127, 128, 129)]
    T = list(range(8)) + [P - i for i in range(1, 8)] + ones + [x + 1 for x in ones] + [P - x for x in ones] + [((1 << 44) - 1) << 44, ((1 << 42) - 1) << 88, ((1 << 26) - 1) << 26, ((1 << 26) - 1) << 52, ((1 << 26) - 1) << 78, ((1 << 26) - 1) << 104]
    for t in T:
        for mid in (False, True):            # the final accumulator, or the one before the last block
            for _ in range(60):
                k = c.R(32); iv = c.R(12); r = int.from_bytes(o.chacha(k, iv, 0, 16), 'little') & 0x0ffffffc0ffffffc0ffffffc0fffffff
                if r == 0: continue
                ri = pow(r, -1, P); ln = int.from_bytes((16).to_bytes(8, 'little') + bytes(8), 'little')
                a = ((t if mid else t * ri - ln - L) * ri - L) % P
                if a >= L: continue
                h = a.to_bytes(16, 'little'); ct, tag = o.chapoly(k, iv, h, b''); D = c.d()
                D.eq(f'ats cp {hx(h)} {hx(iv)} {hx(k)} e -', ct + tag, 'accumulator at a corner value'); D.eq(f'acs cp {hx(h)} {hx(iv)} {hx(k)} d {hx(tag)}', 'some -')
                break
@job('C11')
def gcm_wrap(c):
    """16-byte IVs solved for so that the 32-bit counter of J0 wraps within the message"""
    for v in ('hw', 'sw'):
        for back in (1, 2, 3, 5, 257):
            k = c.R(c.r.choice([16, 24, 32])); H = int.from_bytes(o.AES(k).enc(bytes(16)), 'big'); e = (1 << 128) - 2; hi = 1 << 127; b = H
            while e:
                if e & 1: hi = o.gmul128(hi, b)
                b = o.gmul128(b, b); e >>= 1
            j0 = c.R(12) + ((1 << 32) - back).to_bytes(4, 'big')
            iv = o.gmul128(o.gmul128(int.from_bytes(j0, 'big'), hi) ^ 128, hi).to_bytes(16, 'big')
            x = c.R(16 * (back + 3) + 5); ct, tag = o.gcm(k, iv, b'hdr', x); D = c.d(v)
            D.eq(f'ats gcm {hx(b"hdr")} {hx(iv)} {hx(k)} e {hx(x)}', ct + tag, 'counter wraps modulo 2^32'); D.eq(f'acs gcm {hx(b"hdr")} {hx(iv)} {hx(k)} d {hx(ct + tag)}', 'some ' + hx(x))
# ---- MACs
@job('C13')
def hmacs(c):
    for nm, h, bs in (('sha1', 'sha1', 64), ('sha256', 'sha256', 64), ('sha384', 'sha384', 128), ('sha512', 'sha512', 128), ('rmd160', 'ripemd160', 64), ('md5', 'md5', 64)):
        for kl in list(range(0, 40)) + [e + b for b in (64, 128, 192, 256) for e in range(-2, 3)] + [1000]:
            k = c.R(kl); d = c.R(c.r.choice([0, 1, bs - 1, bs, bs + 1, c.r.randrange(300)])); c.d().eq(f'hs hmac_{nm} {hx(k)} {hx(d)}', o.hmac(h, k, d), f'HMAC-{nm}, key of {kl} bytes')
        for _ in range(c.n(20)):
            k = c.R(c.r.randrange(200)); d = c.R(c.r.randrange(500)); hash_check(c, f'hmac_{nm} {hx(k)}', lambda d: o.hmac(h, k, d), d, hashlib.new(h).digest_size)
@job('C14')
def bmacs(c):
    for _ in range(c.n(40)):
        for nm, orcf, kls in (('maes', o.AES, (16, 24, 32)), ('mdes', o.DES, (8,)), ('mtdes', o.TDES, (16, 24)), ('mdft', None, (16, 24))):
            k = c.R(c.r.choice(kls)); bs = 16 if nm == 'maes' else 8; iv = c.r.choice([None, c.R(bs)]); I = '_' if iv is None else hx(iv); v = iv or bytes(bs); x = c.R(c.r.randrange(0, 5 * bs)); sch = c.r.choice(['_', 'length', '8000'])
            f = (lambda d: dft(k, v, d)) if nm == 'mdft' else (lambda d: o.cbcmac(orcf(k), v, d))
            D = c.d(); D.ok(f'H 1 {nm} {I} {sch} {hx(k)}'); D.eq('hz 1', bs); feed_hash(c, D, 1, x)
            D.eq('hr 1', ('!Error.Wrong_data_length' if len(x) % bs else f(x)) if sch == '_' else f(o.pad(sch, x, bs)), f'{nm} of {len(x)} bytes, padding {sch}')
        k = c.R(c.r.choice([16, 24, 32])); iv = c.r.choice([None, c.R(16)]); x = c.R(c.r.randrange(0, 70)); D = c.d(); D.ok(f'H 1 cmac {"_" if iv is None else hx(iv)} {hx(k)}'); feed_hash(c, D, 1, x); D.eq('hr 1', o.cmac(o.AES(k), iv or bytes(16), x), f'CMAC of {len(x)} bytes')
        e, d, orc = ciphers(c); x = c.R(c.r.randrange(0, 4 * orc.bs + 1)); sch = c.r.choice(['_', 'length', '8000'])
        D = c.d(); D.ok(f'H 1 bmac _ {sch} {e}'); D.eq('hz 1', orc.bs); feed_hash(c, D, 1, x); D.eq('hr 1', ('!Error.Wrong_data_length' if len(x) % orc.bs else o.cbcmac(orc, bytes(orc.bs), x)) if sch == '_' else o.cbcmac(orc, bytes(orc.bs), o.pad(sch, x, orc.bs)))
        t2, t3 = o.Toy(orc.bs, 7), o.Toy(orc.bs, 9); D = c.d(); D.ok(f'H 1 bmac3 _ length {e} toyd {orc.bs} 7 toy {orc.bs} 9'); feed_hash(c, D, 1, x); D.eq('hr 1', t3.enc(t2.dec(o.cbcmac(orc, bytes(orc.bs), o.pad('length', x, orc.bs)))), 'final triple')
    for L in range(0, 50): x = c.R(L); k = c.R(16); c.d().eq(f'hs cmac _ {hx(k)} {hx(x)}', o.cmac(o.AES(k), bytes(16), x), f'CMAC of {L} bytes')
@job('C15')
def sip_b2(c):
    for L in list(range(0, 70)) + [127, 128, 129, 255, 256, 257, 258, 511, 512]:
        for n, nm in ((8, 'siphash'), (16, 'siphash128')):
            k = c.r.choice([c.R(16), bytes(16), b'\xff' * 16]); d = c.R(L); c.d().eq(f'hs {nm} {hx(k)} {hx(d)}', o.siphash(k, d, n), f'{nm} of {L} bytes')
    for _ in range(c.n(40)):
        k = c.R(16); d = c.R(c.r.randrange(400)); hash_check(c, 'siphash ' + hx(k), lambda d: o.siphash(k, d, 8), d, 8); hash_check(c, 'siphash128 ' + hx(k), lambda d: o.siphash(k, d, 16), d, 16)
@job('C15')
def b2_keyed(c):
    for kind, mx, bs in (('b', 64, 128), ('s', 32, 64)):
        for n in range(1, mx + 1):
            for kl in {1, mx, c.r.randrange(0, mx + 1), c.r.randrange(0, mx + 1), n}:
                k = c.R(kl); d = c.R(c.r.choice([0, 1, bs - 1, bs, bs + 1, 2 * bs, c.r.randrange(500)])); c.d().eq(f'hs mblake2{kind} {8*n} {hx(k)} {hx(d)}', b2(kind, n, k)(d), f'BLAKE2{kind}, key {kl}, output {n}')
        for _ in range(c.n(20)):
            k = c.R(c.r.randrange(mx + 1)); n = c.r.randrange(1, mx + 1); hash_check(c, f'mblake2{kind} {8*n} {hx(k)}', b2(kind, n, k), c.R(c.r.randrange(600)), n)
        k = c.R(mx); d = c.R(77); c.d().eq(f'hs mblake2{kind}{8*mx} {hx(k)} {hx(d)}', b2(kind, mx, k)(d))
# ---- ranges
RANGE_T = ['cipher toy 8 1', 'cpe length toy 8 1', 'cpd length toyd 8 1', 'rc4 0102 e', 'cc20 _ _ ' + '00' * 16 + ' e', 'b64m', 'b64c', 'b64p', 'hexe', 'zc _ _', 'zu _', 'b64d', 'hexd']
RANGE_H = ['sha1', 'sha224', 'sha256', 'sha384', 'sha512', 'sha3 256', 'keccak 512', 'rmd160', 'md5', 'blake2b 256', 'blake2s 128', 'blake3 256', 'hmac_sha1 6b', 'hmac_md5 6b', 'siphash ' + '00' * 16, 'siphash128 ' + '00' * 16, 'mblake2b 256 6b6b', 'mblake3_256 ' + '00' * 32, 'maes _ length ' + '00' * 16, 'cmac _ ' + '00' * 16, 'mdft _ length ' + '00' * 16]
RANGE_A = ['gcm _ ' + '00' * 12 + ' ' + '00' * 16 + ' e', 'gcm _ ' + '00' * 12 + ' ' + '00' * 16 + ' d', 'cp _ ' + '00' * 12 + ' ' + '00' * 32 + ' e', 'cp _ ' + '00' * 12 + ' ' + '00' * 32 + ' d', 'tth rc4 0102 e sha1', 'tah rc4 0102 e sha1']
BADR = [(-1, 1), (-1, 3), (0, 41), (40, 1), (41, 1), (39, 2), (2**62 - 1, 1), (-2**62, 1), (1, 2**62 - 1), (30, 2**62 - 30), (20, 21), (-5, 10), (2**62 - 5, 10), (40, 2**61), (100, 200)]
NEGR = [(0, -1), (5, -3), (-1, -1), (0, -2**62), (41, -1), (2**62 - 1, -2**62)]
def mk_range(kind, specs, cmd):
    def g(c):
        for spec in specs:
            for o_, l in BADR + NEGR + [(-1, 0), (41, 0), (2**62 - 1, 0), (-2**62, 0)]:
                b = c.R(40) if kind != 'T' or 'd' not in spec.split()[0][-1:] else b'41' * 20
                D = c.d(); D.ok(f'{kind} 1 {spec}'); D.ok(f'Y 1 {hx(b)}')
                r = D.send(f'{cmd} 1 1 {o_} {l}', 10)
                if l > 0 and r == 'ok' and kind == 'T' and o_ + l >= 2**62:
                    # an empty loop (ofs + len overflows): nothing read; must have had no effect at all
                    D.ok('tfi 1'); D.eq('tgs 1', '-', f'{spec}: range ({o_}, {l}) of a 40-byte buffer accepted')
                elif l > 0: D.true(r.startswith('!') and not r.startswith('!BAD'), f'{spec}: range ({o_}, {l}) of a 40-byte buffer accepted', '!Invalid_argument', r)
                D.true(r in ('ok', '!Invalid_argument') or spec in ('hexd', 'b64d', 'zu _') and r.startswith('!Error'), f'{spec}: range ({o_}, {l})', '!Invalid_argument', r)
                D.eq('y 1', b, 'source buffer modified')
                D.send('gc', 20)
    return g
job('C16')(mk_range('T', RANGE_T, 'tps')); job('C16')(mk_range('H', RANGE_H, 'hps')); job('C16')(mk_range('A', RANGE_A, 'aps'))
@job('C16')
def range_block(c):
    for spec in ['aes_e ' + '00' * 16, 'aes_d ' + '00' * 32, 'des_e ' + '00' * 8, 'des_d ' + '00' * 8, 'tdes_e ' + '00' * 16, 'tdes_d ' + '00' * 24, 'bf_e 00000000', 'bf_d 00000000'] + [f'{m} _ {n}aes_e ' + '00' * 16 for m, n in (('cbc_e', ''), ('cbc_d', ''), ('cfb_e', '5 '), ('cfb_d', '16 '), ('ofb', '3 '), ('ctr', '_ '), ('ctr', '4 '))]:
        D = c.d(); D.ok('B 1 ' + spec); bs = int(D.ok('bbs 1'))
        for so in (-1, 40 - bs + 1, 40, 2**62 - 1, -2**62, 2**62 - 8):
            for do in (0, 40 - bs): range_b1(c, spec, so, do, bs)
        for do in (-1, 40 - bs + 1, 40, 2**62 - 1, -2**62): range_b1(c, spec, 3, do, bs)
        for so, do in ((0, 0), (40 - bs, 40 - bs), (1, 40 - bs), (7, 3)):
            D = c.d(); D.ok('B 1 ' + spec); s = c.R(40); d = c.R(40); D.ok('Y 1 ' + hx(s)); D.ok('Y 2 ' + hx(d)); D.eq(f'bt 1 1 {so} 2 {do}', 'ok'); D.eq('y 1', s, 'source modified'); r = unhx(D.ok('y 2'))
            D.true(r[:do] == d[:do] and r[do + bs:] == d[do + bs:], 'bytes outside the destination range modified', hx(d), hx(r))
def range_b1(c, spec, so, do, bs):
    D = c.d(); D.ok('B 1 ' + spec); s = c.R(40); d = c.R(40); D.ok('Y 1 ' + hx(s)); D.ok('Y 2 ' + hx(d)); D.eq(f'bt 1 1 {so} 2 {do}', '!Invalid_argument', f'offsets {so}, {do}'); D.eq('y 1', s)
    r = unhx(D.ok('y 2'))
    if 0 <= do <= 40 - bs: D.true(r[:do] == d[:do] and r[do + bs:] == d[do + bs:], 'bytes outside the destination range modified', hx(d), hx(r))
    else: D.true(r == d, 'destination modified')
    D.send('gc')
@job('C16')
def range_stream_xor(c):
    bad = [(-1, 0, 3), (0, -1, 3), (38, 0, 3), (0, 38, 3), (0, 0, 41), (0, 0, -1), (2**62 - 1, 0, 2), (0, 2**62 - 1, 2), (0, 0, 2**62 - 1), (1, 0, 2**62 - 1), (41, 0, 0), (0, 41, 0), (-2**62, 0, 1)]
    for so, do, n in bad:
        for spec in ('arcfour 0102', 'chacha _ _ ' + '00' * 32):
            D = c.d(); D.ok('S 1 ' + spec); s = c.R(40); d = c.R(40); D.ok('Y 1 ' + hx(s)); D.ok('Y 2 ' + hx(d)); D.eq(f'stt 1 1 {so} 2 {do} {n}', '!Invalid_argument', f'{spec}: {so} {do} {n}'); D.eq('y 1', s); D.eq('y 2', d); D.send('gc')
        D = c.d(); s = c.R(40); d = c.R(40); D.ok('Y 1 ' + hx(s)); D.ok('Y 2 ' + hx(d)); D.eq(f'xb 1 {so} 2 {do} {n}', '!Invalid_argument'); D.eq('y 1', s); D.eq('y 2', d); D.eq(f'xs {hx(s)} {so} 2 {do} {n}', '!Invalid_argument'); D.eq('y 2', d); D.send('gc')
    for o_, n in BADR + [(0, -1), (-1, 0), (41, 0)]:
        for spec in ('sys', 'hw', 'prng ' + '00' * 20, 'paes ' + '00' * 16, 'dev /dev/zero'):
            D = c.d(); r = D.send('R 1 ' + spec)
            if r.startswith('!'): continue
            d = c.R(40); D.ok('Y 1 ' + hx(d)); r = D.send(f'rb 1 1 {o_} {n}', 15); D.true(r == '!Invalid_argument' or n <= 0 and r == 'ok', f'{spec}: random_bytes {o_} {n}', '!Invalid_argument', r)
            if n <= 0: D.eq('y 1', d)
            D.send('gc')
    for n in (-1, -2**62, 2**60): D = c.d(); D.ok('R 1 prng ' + '00' * 20); r = D.send(f'rs 1 {n}'); D.true(r.startswith('!'), 'Random.string', '!Invalid_argument', r)
# ---- parameters
@job('C17')
def params(c):
    def key(n): return hx(c.R(n))
    E = '!Error.Wrong_key_size'
    for kl in list(range(0, 70)) + [128, 255, 256, 257, 300, 512]:
        D = c.d(); k = key(kl)
        def chk(cmd, good, err=E): D.eq(cmd, 'ok' if good else err, f'{cmd[:20]}: key of {kl} bytes')
        for t in ('aes_e', 'aes_d'): chk(f'B 1 {t} {k}', kl in (16, 24, 32))
        for t in ('des_e', 'des_d'): chk(f'B 1 {t} {k}', kl == 8)
        for t in ('tdes_e', 'tdes_d'): chk(f'B 1 {t} {k}', kl in (16, 24))
        for t in ('bf_e', 'bf_d'): chk(f'B 1 {t} {k}', 4 <= kl <= 56)
        for dr in 'ed':
            for m in ('ECB', 'CBC', 'CTR', 'CFB 3', 'OFB 2', 'CTRN 4'):
                chk(f'T 1 aes {m} _ _ {k} {dr}', kl in (16, 24, 32)); chk(f'T 1 des {m} _ _ {k} {dr}', kl == 8); chk(f'T 1 tdes {m} _ _ {k} {dr}', kl in (16, 24)); chk(f'T 1 bf {m} _ _ {k} {dr}', 4 <= kl <= 56)
            chk(f'T 1 rc4 {k} {dr}', 1 <= kl <= 256); chk(f'T 1 cc20 _ _ {k} {dr}', kl in (16, 32)); chk(f'A 1 gcm _ {hx(bytes(12))} {k} {dr}', kl in (16, 24, 32)); chk(f'A 1 cp _ {hx(bytes(12))} {k} {dr}', kl in (16, 32))
        chk(f'S 1 arcfour {k}', 1 <= kl <= 256); chk(f'S 1 chacha _ _ {k}', kl in (16, 32))
        for t in ('hmac_sha1', 'hmac_sha256', 'hmac_sha384', 'hmac_sha512', 'hmac_rmd160', 'hmac_md5'): chk(f'H 1 {t} {k}', True)
        chk(f'H 1 mblake2b512 {k}', kl <= 64); chk(f'H 1 mblake2s256 {k}', kl <= 32); chk(f'H 1 mblake2b 256 {k}', kl <= 64); chk(f'H 1 mblake2s 128 {k}', kl <= 32); chk(f'H 1 mblake3 256 {k}', kl == 32); chk(f'H 1 mblake3_256 {k}', kl == 32)
        chk(f'H 1 cmac _ {k}', kl in (16, 24, 32)); chk(f'H 1 maes _ _ {k}', kl in (16, 24, 32)); chk(f'H 1 mdes _ _ {k}', kl == 8); chk(f'H 1 mtdes _ _ {k}', kl in (16, 24)); chk(f'H 1 mdft _ _ {k}', kl in (16, 24)); chk(f'H 1 siphash {k}', kl == 16); chk(f'H 1 siphash128 {k}', kl == 16)
        chk(f'R 1 prng {k}', kl >= 16, '!Error.Seed_too_short'); chk(f'R 1 paes {k}', kl >= 16, '!Error.Seed_too_short')
        iv = k
        def chi(cmd, good): D.eq(cmd, 'ok' if good else '!Error.Wrong_IV_size', f'{cmd[:24]}: IV of {kl} bytes')
        for m in ('cbc_e {} aes_e', 'cbc_d {} aes_d', 'cfb_e {} 4 aes_e', 'cfb_d {} 16 aes_e', 'ofb {} 16 aes_e', 'ctr {} _ aes_e', 'ctr {} 4 aes_e'): chi('B 1 ' + m.format(iv) + ' ' + '00' * 16, kl == 16)
        for m in ('cbc_e {} des_e', 'ctr {} _ des_e'): chi('B 1 ' + m.format(iv) + ' ' + '00' * 8, kl == 8)
        chi(f'T 1 cc20 {iv} _ {"00" * 32} e', kl in (8, 12)); chi(f'T 1 cc20 {iv} 5 {"00" * 32} e', kl in (8, 12)); chi(f'A 1 cp _ {iv} {"00" * 32} e', kl in (8, 12)); chi(f'A 1 cp _ {iv} {"00" * 32} d', kl in (8, 12))
        chi(f'H 1 maes {iv} _ {"00" * 16}', kl == 16); chi(f'H 1 cmac {iv} {"00" * 16}', kl == 16); chi(f'H 1 mdes {iv} _ {"00" * 8}', kl == 8); chi(f'H 1 mdft {iv} length {"00" * 24}', kl == 8); chi(f'H 1 mtdes {iv} length {"00" * 24}', kl == 8)
    for ctr, ok in ((0, 1), (2**32 - 1, 1), (2**32, 0), (-1, 0), (2**63 - 1, 0), (-2**63, 0), (2**33, 0)):
        c.d().eq(f'T 1 cc20 {"00" * 12} {ctr} {"00" * 32} e', 'ok' if ok else '!Error.Wrong_IV_size', f'12-byte IV, counter {ctr}'); c.d().eq(f'T 1 cc20 {"00" * 8} {ctr} {"00" * 32} e', 'ok')
@job('C17')
def params2(c):
    E = '!Error.Wrong_key_size'
    for n in list(range(-9, 600)) + [1024, 4096, -2**62, 2**62 - 1, 2**61, 2**32 + 256, 2**32 + 512, 768]:
        D = c.d()
        for h in ('sha2', 'sha3', 'keccak'): D.eq(f'H 1 {h} {n}', 'ok' if n in (224, 256, 384, 512) else E, h)
        D.eq(f'H 1 blake2b {n}', 'ok' if 8 <= n <= 512 and n % 8 == 0 else E); D.eq(f'H 1 blake2s {n}', 'ok' if 8 <= n <= 256 and n % 8 == 0 else E)
        D.eq(f'H 1 blake3 {n}', 'ok' if n > 0 and n % 8 == 0 else E); D.eq(f'H 1 mblake3 {n} {"00" * 32}', 'ok' if n > 0 and n % 8 == 0 else E)
        D.eq(f'H 1 mblake2b {n} 00', 'ok' if 8 <= n <= 512 and n % 8 == 0 else E); D.eq(f'H 1 mblake2s {n} 00', 'ok' if 8 <= n <= 256 and n % 8 == 0 else E)
    for bs in (1, 2, 7, 16):
        for n in (-2**62, -1, 0, 1, 2, bs - 1, bs, bs + 1, 20, 2**62 - 1):
            D = c.d(); good = 1 <= n <= bs
            for m in ('cfb_e', 'cfb_d', 'ofb', 'ctr'):
                r = D.send(f'B 1 {m} _ {n} toy {bs} 1'); D.true((r == 'ok') == good and (good or r[0] == '!'), f'{m} with n = {n} on {bs}-byte blocks', 'ok' if good else 'exception', r)
    for a, b, d in ((8, 8, 16), (8, 16, 8), (16, 8, 8), (8, 8, 8), (1, 2, 3)):
        c.d().eq(f'H 1 bmac3 _ _ toy {a} 1 toy {b} 1 toy {d} 1', 'ok' if a == b == d else '!Error.Incompatible_block_size')
    for n in (-5, 0, 1, 30, 31, 33, 35, 2**62 - 1): c.d().eq(f'rsanew 1 prng {"ab" * 20} _ {n}', E, f'RSA size {n}'); c.d().eq(f'painew 1 prng {"ab" * 20} {n}', E)
    for n, p in ((31, 10), (40, 40), (40, 41), (160, _n(None)), (100, 160)): c.d().eq(f'dhnew 1 prng {"ab" * 20} {p} {n}', E, f'DH size {n} privlen {p}')
def _n(x): return '_' if x is None else x
# ---- counters
@job('C18')
def counters(c):
    for bs in (2, 4, 8, 16):
        for n in (1, 2):
            if n > bs: continue
            start = c.r.randrange(256 ** n); iv = c.R(bs - n) + start.to_bytes(n, 'big'); kk = c.r.randrange(256); orc = o.Toy(bs, kk)
            if n == 2 and c.tier == 'quick' and bs not in (2, 16): continue
            D = c.d(); D.ok(f'B 1 ctr {hx(iv)} {n} toy {bs} {kk}'); D.ok(f'Y 1 {hx(bytes(bs))}'); seen = set(); stopped = None
            for i in range(256 ** n + 3):
                D.ok(f'Y 2 {hx(bytes(bs))}')
                r = D.send(f'bt 1 1 0 2 0'); D.log = D.log[:3] + [f'# {i} more blocks'] + D.log[-3:]
                if r != 'ok': stopped = r; break
                ks = D.ok('y 2'); D.true(ks not in seen, f'keystream block {i} repeats an earlier one', None, ks); seen.add(ks)
                if n == 2 and i > 300 and i < 65000: # skip ahead cheaply: still run every block, just do not read each answer
                    pass
            D.true(stopped == '!Error.Message_too_long', 'counter exhausted without error', '!Error.Message_too_long', stopped); D.true(i >= 256 ** n - 1, 'limit reached too early', 256 ** n - 1, i)
    # 3- to 7-byte counters: no limit for short messages wherever the counter starts
    for n in (3, 4, 5, 6, 7, 8, 9, 16):
        iv = c.R(16 - n) + b'\xff' * n; x = c.R(16 * 600); c.d().eq(f'ts cipher ctr {hx(iv)} {n} toy 16 5 {hx(x)}', o.ctr(o.Toy(16, 5), iv, n, x), f'{n}-byte counter')
@job('C18')
def aead_counters(c):
    # every block of a long message uses a new counter value and no limit is hit early
    k = c.R(16); iv = c.R(12); n = c.n(8, 200) * (1 << 20)
    for spec in (f'gcm _ {hx(iv)} {hx(k)} e', f'cp _ {hx(iv)} {hx(k)} e', f'cp _ {hx(iv[:8])} {hx(k)} e'):
        D = c.d(); D.ok('A 1 ' + spec); D.ok(f'Y 1 *{1 << 20}:00'); D.eq(f'arep 1 1 {n >> 20}', 'ok', timeout=120); D.eq('ap 1 ' + '00' * 64, 'ok')
        out = unhx(D.ok('ags 1')); D.ok('af 1'); out += unhx(D.ok('ags 1'))
        if spec[0] == 'g': blk = n // 16; ks = o.xor(o.AES(k).enc(iv + (2 + blk - 1).to_bytes(4, 'big')), bytes(16)); D.true(ks in out, 'GCM counter after a long message')
        else: ks = o.chacha(k, iv if spec.split()[2] == hx(iv) else iv[:8], 1 + n // 64, 64); D.true(out == ks, 'ChaCha20 counter after a long message', hx(ks), hx(out))
# ---- RSA
def nb(x, bits): return x.to_bytes((bits + 7) // 8, 'big')
def isprime(n):
    if n < 2: return False
    for p in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        if n % p == 0: return n == p
    d, s = n - 1, 0
    while d % 2 == 0: d //= 2; s += 1
    for a in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        x = pow(a, d, n)
        if x in (1, n - 1): continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1: break
        else: return False
    return True
def prime(c, bits):
    while True:
        p = c.r.getrandbits(bits) | 1 | 1 << (bits - 1)
        if isprime(p): return p
def rsa_ops(c, D, i, n, e, d, bits):
    L = (bits + 7) // 8
    for m in [0, 1, n - 1, n - 2, c.r.randrange(n), c.r.randrange(n), c.r.randrange(1, 257)]:
        mb = c.r.choice([nb(m, bits), bytes(3) + nb(m, bits), nb(m, max(8, m.bit_length()))])
        ct = nb(pow(m, e, n), bits); D.eq(f'rsa {i} enc {hx(mb)}', ct, 'RSA.encrypt'); D.eq(f'rsa {i} unwrap {hx(mb)}', ct, 'unwrap_signature')
        for op in ('dec', 'deccrt', 'sign', 'signcrt'): D.eq(f'rsa {i} {op} {hx(mb)}', nb(pow(m, d, n), bits), f'RSA {op}')
        for op in ('dec', 'deccrt'): D.eq(f'rsa {i} {op} {hx(ct)}', nb(m, bits), f'RSA {op} inverts encrypt')
    for m in (n, n + 1, 2 * n, (1 << (8 * L)) * 5):
        for op in ('enc', 'dec', 'deccrt', 'sign', 'signcrt', 'unwrap'): D.eq(f'rsa {i} {op} {hx(nb(m, m.bit_length()))}', '!Error.Message_too_long', f'RSA {op} of a too large message')
@job('C19')
def rsa_gen(c):
    for bits in [32, 34, 36, 38, 40, 46, 48, 62, 64, 66, 96, 126, 128, 130, 256, 512] * c.n(2, 8):
        e0 = c.r.choice([None, 3, 5, 17, 65537, 257]); D = c.d(); r = D.eq if 0 else D.ok(f'rsanew 1 prng {hx(c.R(20))} {_n(e0)} {bits}')
        t = r.split(); size, n, d, p, q, dp, dq, qinv = int(t[0]), *[int(x, 16) for x in t[1:8]]; e = int(t[10], 16)
        D.true(size == bits == int(t[8]) and t[9] == t[1], 'key size fields'); D.true(isprime(p) and isprime(q) and p != q and n == p * q, 'n = p q with p, q distinct primes', None, r)
        D.true(p.bit_length() == bits // 2 and q.bit_length() == bits // 2, 'prime sizes', None, r); D.true(e0 is None or e == e0, 'public exponent'); D.true(e * d % math.lcm(p - 1, q - 1) == 1, 'e d = 1', None, r)
        D.true(dp == d % (p - 1) and dq == d % (q - 1) and qinv * q % p == 1, 'CRT components', None, r); D.true([len(x) // 2 for x in t[1:8]] == [(bits + 7) // 8] * 2 + [(bits // 2 + 7) // 8] * 5, 'field lengths', None, r)
        rsa_ops(c, D, 1, n, e, d, bits)
@job('C19')
def rsa_set(c):
    for bits in [32, 48, 64, 66, 100, 128, 192, 256, 1024] * c.n(2, 8):
        while True:
            p, q = prime(c, bits // 2), prime(c, bits - bits // 2); n = p * q; e = c.r.choice([3, 5, 17, 65537])
            if p != q and n.bit_length() == bits and math.gcd(e, (p - 1) * (q - 1)) == 1: break
        d = pow(e, -1, c.r.choice([(p - 1) * (q - 1), math.lcm(p - 1, q - 1)]))
        for P, Q in ((p, q), (q, p)):
            h = (bits + 1) // 2; D = c.d(); D.ok(f'rsaset 1 {bits} ' + ' '.join(hx(nb(x, y)) for x, y in ((n, bits), (d, bits), (P, h), (Q, h), (d % (P - 1), h), (d % (Q - 1), h), (pow(Q, -1, P), h), (e, bits)))); rsa_ops(c, D, 1, n, e, d, bits)
        # multiples of the factors
        D = c.d(); D.ok(f'rsaset 1 {bits} ' + ' '.join(hx(nb(x, y)) for x, y in ((n, bits), (d, bits), (p, h), (q, h), (d % (p - 1), h), (d % (q - 1), h), (pow(q, -1, p), h), (e, bits))))
        for m in (p, q, p * c.r.randrange(1, q), q * c.r.randrange(1, p)):
            for op in ('dec', 'deccrt'): D.eq(f'rsa 1 {op} {hx(nb(m, bits))}', nb(pow(m, d, n), bits), f'RSA {op} of a multiple of a factor')
# ---- DH
@job('C20')
def dh(c):
    for bits in [32, 33, 40, 64, 65, 127, 128, 200, 256] * c.n(3, 10):
        pl = c.r.choice([_n(None)] if bits > 160 else []) if bits > 160 and c.r.random() < .5 else c.r.randrange(2, bits)
        D = c.d(); t = D.ok(f'dhnew 1 prng {hx(c.R(20))} {pl} {bits}').split(); p, g = int(t[0], 16), int(t[1], 16); D.true(isprime(p) and p.bit_length() == bits, 'modulus', None, t); D.true(1 < g < p, 'generator', None, t); D.true(int(t[2]) == (160 if pl == '_' else pl), 'privlen'); D.true(len(t[0]) == len(t[1]) == 2 * ((bits + 7) // 8), 'lengths')
        dh_pair(c, D, p)
    for bits in [32, 64, 90, 128, 512]:
        p = prime(c, bits); g = c.r.randrange(2, p - 1); D = c.d(); D.ok(f'dhset 1 {hx(nb(p, bits))} {hx(nb(g, bits))} {c.r.randrange(1, bits)}'); dh_pair(c, D, p)
        D = c.d(); D.ok(f'dhset 1 {hx(bytes(2) + nb(p, bits))} {hx(nb(g, g.bit_length()))} {c.r.randrange(1, bits)}'); dh_pair(c, D, p)
        D = c.d(); x = c.R(8); D.ok(f'dhset 1 {hx(nb(p, bits))} {hx(nb(g, bits))} 60')
        D.ok(f'dhpriv 1 1 fixed {hx(x)}'); v = int.from_bytes(x, 'little') & ((1 << 59) - 1) | (1 << 59); D.eq('dhmsg 1 1', nb(pow(g, v, p), bits), 'DH message'); o_ = c.r.randrange(2, p); D.eq(f'dhsh 1 1 {hx(nb(o_, bits))}', nb(pow(o_, v, p), bits), 'shared secret')
def dh_pair(c, D, p):
    D.ok(f'dhpriv 1 1 prng {hx(c.R(20))}'); D.ok(f'dhpriv 2 1 prng {hx(c.R(20))}'); a = D.ok('dhmsg 1 1'); b = D.ok('dhmsg 1 2'); s = D.ok(f'dhsh 1 1 {b}'); D.eq(f'dhsh 1 2 {a}', s, 'the parties disagree'); D.true(len(s) == len(a), 'length of the secret')
@job('C20')
def derive(c):
    for n in list(range(0, 70)) + [95, 96, 97, 128, 1000, 330]:
        s = c.R(c.r.randrange(40)); dv = c.r.choice([None, b'', c.R(5)]); w = b''; i = 1
        while len(w) < n: w += hashlib.sha256((dv or b'') + s + str(i).encode()).digest(); i += 1
        c.d().eq(f'dhkey {"_" if dv is None else hx(dv)} {hx(s)} {n}', w[:n], f'derive_key of {n} bytes')
# ---- Paillier
@job('C21')
def paillier(c):
    for bits in [32, 34, 36, 48, 64, 66, 128, 130, 256] * c.n(2, 8):
        D = c.d(); t = D.ok(f'painew 1 prng {hx(c.R(20))} {bits}').split(); size, n, n2, p, q, lam, mu = int(t[0]), *[int(x, 16) for x in t[1:7]]; g = int(t[10], 16)
        D.true(isprime(p) and isprime(q) and p != q and n == p * q and n2 == n * n, 'modulus', None, t); D.true(math.gcd(n, (p - 1) * (q - 1)) == 1 and lam == math.lcm(p - 1, q - 1) and mu * lam % n == 1 and g == n + 1, 'key components', None, t)
        pai_ops(c, D, n)
    for bits in (64, 128):
        p, q = prime(c, bits // 2), prime(c, bits // 2)
        if p == q or math.gcd(p * q, (p - 1) * (q - 1)) != 1: continue
        n = p * q; lam = math.lcm(p - 1, q - 1); s = lambda x: hx(nb(x, x.bit_length())); D = c.d(); D.ok(f'paiset 1 {bits} {s(n)} {s(n*n)} {s(p)} {s(q)} {s(lam)} {s(pow(lam, -1, n))} {s(n+1)}')
        if n.bit_length() == bits: pai_ops(c, D, n)
def pai_ops(c, D, n):
    I = lambda s: int.from_bytes(unhx(s), 'big')
    ms = [0, 1, n - 1, c.r.randrange(n), c.r.randrange(n)]; cs = []
    for m in ms:
        x = D.ok(f'paienc 1 prng {hx(c.R(20))} {hx(nb(m, max(1, m.bit_length())))}'); cs.append(x); r = D.ok(f'paidec 1 {x}'); D.true(I(r) == m, 'decryption inverts encryption', m, r)
    for _ in range(6):
        i, j = c.r.randrange(5), c.r.randrange(5); s = D.ok(f'paiadd 1 {cs[i]} {cs[j]}'); r = D.ok(f'paidec 1 {s}'); D.true(I(r) == (ms[i] + ms[j]) % n, 'homomorphic addition', (ms[i] + ms[j]) % n, r)
# ---- bignum
@job('C22')
def bignum(c):
    I = lambda s: int.from_bytes(unhx(s), 'big')
    for L in list(range(0, 40)) + [63, 64, 65, 128]:
        for z in (0, 1, 5):
            x = bytes(z) + c.r.choice([c.R(L), b'\xff' * L, b'\1' + bytes(L)]); v = int.from_bytes(x, 'big'); D = c.d(); r = D.ok(f'bn conv _ {hx(x)}'); D.true(I(r) == v, 'conversion', hx(x), r)
            for extra in (0, 1, 7, 8, 9, 64, 100):
                b = v.bit_length() + extra; D.eq(f'bn conv {b} {hx(x)}', v.to_bytes((b + 7) // 8, 'big'), f'to_bytes ~numbits:{b}')
    for _ in range(c.n(150)):
        def num(): return c.r.choice([0, 1, 2, 3, c.r.getrandbits(8), c.r.getrandbits(62), c.r.getrandbits(64), c.r.getrandbits(200), 2**64, 2**62, 2**63 - 1, (1 << 128) - 1])
        s = lambda x: hx(x.to_bytes(max(1, (x.bit_length() + 7) // 8), 'big')); a, b, m = num(), num(), num() or 1; D = c.d()
        L = lambda x: len(s(x)) // 2
        mb = bytes(c.r.choice([0, 0, 2])) + unhx(s(m))
        D.eq(f'modpow {s(a)} {s(b)} {hx(mb)}', (pow(a, b, m)).to_bytes(len(mb), 'big'), 'mod_power'); D.eq(f'modmul {s(a)} {s(b)} {hx(mb)}', (a * b % m).to_bytes(len(mb), 'big'), 'mod_mult')
        for op, w in (('add', a + b), ('mult', a * b), ('mod', a % m), ('div', a // m), ('pow', pow(a, b, m))):
            r = D.ok(f'bn {op} {s(a)} {s(m if op in ("mod", "div") else b)}' + (f' {s(m)}' if op == 'pow' else '')); D.true(I(r) == w, 'bignum ' + op, w, r)
        if a >= b: r = D.ok(f'bn sub {s(a)} {s(b)}'); D.true(I(r) == a - b, 'sub')
        D.eq(f'bn cmp {s(a)} {s(b)}', (a > b) - (a < b)); D.eq(f'bn rp {s(a)} {s(b)}', 'true' if math.gcd(a, b) == 1 else 'false')
        if m > 1 and math.gcd(a, m) == 1: r = D.ok(f'bn inv {s(a)} {s(m)}'); D.true(I(r) == pow(a, -1, m), 'mod_inv')
        if a and b: r = D.ok(f'bn lcm {s(a)} {s(b)}'); D.true(I(r) == math.lcm(a, b), 'lcm')
    for n in list(range(1, 140)) + [160, 255, 256, 257, 512]:
        for odd in ('_', '1', '0'):
            D = c.d(); x = c.r.choice([c.R((n + 7) // 8), bytes((n + 7) // 8), b'\xff' * ((n + 7) // 8)]); v = I(D.ok(f'bn rnd fixed {hx(x)} {odd} {n}')); D.true(v.bit_length() == n, f'random number of {n} bits', n, v); D.true(odd != '1' or v % 2 == 1, 'odd')
            w = int.from_bytes(x, 'little') & ((1 << n) - 1) | (1 << (n - 1)) | (1 if odd == '1' else 0); D.true(v == w, 'random number keeps all the bits drawn', w, v)
    for n in (4, 5, 8, 16, 31, 32, 33, 64, 100): D = c.d(); v = I(D.ok(f'bn prime prng {hx(c.R(20))} {n}')); D.true(v.bit_length() == n and isprime(v), 'random prime', n, v)
@job('C22', 'C19')
def crt(c):
    for _ in range(c.n(80)):
        bits = c.r.choice([4, 8, 16, 32, 64]); p, q = prime(c, bits), prime(c, c.r.choice([bits, bits + 3]))
        if p == q: continue
        a = c.r.choice([0, 1, p, q, p - 1, c.r.randrange(p * q), p * c.r.randrange(q)]); d = c.r.randrange(1, (p - 1) * (q - 1) + 1); s = lambda x: hx(x.to_bytes(max(1, (x.bit_length() + 7) // 8), 'big'))
        if d % (p - 1) == 0 or d % (q - 1) == 0: continue
        D = c.d(); r = D.ok(f'bn crt {s(a)} {s(p)} {s(q)} {s(d % (p-1))} {s(d % (q-1))} {s(pow(q, -1, p))}'); D.true(int.from_bytes(unhx(r), 'big') == pow(a, d, p * q), 'CRT exponentiation', pow(a, d, p * q), r)
# ---- encodings
def b64(data, kind):
    t = base64.b64encode(data).decode()
    if kind == 'c': return t.rstrip('=')
    if kind == 'p': return t
    lines = [t[i:i + 72] for i in range(0, len(t), 72)]
    full = len(data) // 3 * 4      # characters of whole groups
    out = ''; col = 0
    for i in range(0, full, 4):
        out += t[i:i+4]; col += 4
        if col == 72: out += '\n'; col = 0
    out += t[full:]
    if col > 0: out += '\n'
    return out
@job('C23')
def base64s(c):
    for L in list(range(0, 120)) + [160, 161, 162, 163, 200, 255, 256, 257, 700, 2000]:
        x = c.R(L)
        for k in 'cpm':
            D = c.d(); D.ok(f'T 1 b64{k}'); out = feed(c, D, 1, x); D.eq('tfi 1', 'ok'); out += drain(c, D, 1, all=True); w = b64(x, k).encode(); D.true(out == w, f'Base64 ({k}) of {L} bytes', w.decode(), out.decode('latin-1'))
            D = c.d(); D.ok(f'T 1 b64d'); out2 = feed(c, D, 1, out); D.eq('tfi 1', 'ok'); out2 += drain(c, D, 1, all=True); D.true(out2 == x, 'Base64 decoding', hx(x), hx(out2))
@job('C23')
def base64_bad(c):
    AL = b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'
    for ch in range(256):
        D = c.d(); D.ok('T 1 b64d'); D.ok('tp 1 ' + hx(b'QUJ')); r = D.send(f'tpc 1 {ch}'); good = ch in AL or ch in b' \t\n\r='; D.true(r == ('ok' if good else '!Error.Bad_encoding'), f'Base64 character {ch}', good, r)
        if ch in AL: D.eq('tgs 1', base64.b64decode(b'QUJ' + bytes([ch])), 'decoded value')
        D = c.d(); D.ok('T 1 b64d'); D.ok('tp 1 ' + hx(b'QQ==')); r = D.send(f'tpc 1 {ch}'); good = ch in b' \t\n\r='; D.true(r == ('ok' if good else '!Error.Bad_encoding'), f'character {ch} after padding', good, r)
    for v in range(64):
        for w in range(64): pass
    for t, want in (('QUJDR', '!Error.Bad_encoding'), ('Q', '!Error.Bad_encoding'), ('QUI', b'AB'), ('QQ', b'A'), ('QQ==', b'A'), (' Q U\tJ\nD\r', b'ABC'), ('', b''), ('QUI=QUI=', '!Error.Bad_encoding'), ('Q===', '!Error.Bad_encoding')): c.d().eq(f'ts b64d {hx(t.encode())}', want, f'Base64 decoding of {t!r}')
    for _ in range(c.n(150)):
        x = c.R(c.r.randrange(200)); t = b''.join(bytes([ch]) + c.r.choice([b'', b'', b' ', b'\n', b'\r\n', b'\t']) for ch in b64(x, c.r.choice('cpm')).encode()); c.d().eq(f'ts b64d {hx(t)}', x, 'Base64 with blanks')
@job('C24')
def hexas(c):
    for L in list(range(0, 60)) + [127, 128, 129, 300, 1000]:
        x = c.R(L); D = c.d(); D.ok('T 1 hexe'); out = feed(c, D, 1, x); D.eq('tfi 1', 'ok'); out += drain(c, D, 1, all=True); D.true(out == x.hex().encode(), 'hex encoding', x.hex(), out.decode('latin-1'))
        t = b''.join((bytes([ch]).upper() if c.r.random() < .4 else bytes([ch])) + c.r.choice([b'', b'', b'', b' ', b'\n', b'\r\n', b'\t']) for ch in out); D = c.d(); D.ok('T 1 hexd'); r = feed(c, D, 1, t); D.eq('tfi 1', 'ok'); r += drain(c, D, 1, all=True); D.true(r == x, 'hex decoding', hx(x), hx(r))
    for b in range(256): D = c.d(); D.ok('T 1 hexe'); D.ok(f'tp{c.r.choice("cb")} 1 {b}'); D.eq('tgs 1', b'%02x' % b)
    HX = b'0123456789abcdefABCDEF'
    for ch in range(256):
        for pos in (0, 1):
            D = c.d(); D.ok('T 1 hexd'); D.ok('tp 1 ' + hx(b'3' * pos)); r = D.send(f'tpc 1 {ch}'); good = ch in HX or ch in b' \t\n\r'; D.true(r == ('ok' if good else '!Error.Bad_encoding'), f'hex character {ch}', good, r)
            if ch in HX: D.ok('tp 1 ' + hx(b'5' * (1 - pos))); D.eq('tgs 1', bytes.fromhex('3' * pos + chr(ch) + '5' * (1 - pos)))
    for t, w in (('1', '!Error.Bad_encoding'), ('123', '!Error.Bad_encoding'), ('12 3', '!Error.Bad_encoding'), ('', b'')): c.d().eq(f'ts hexd {hx(t.encode())}', w, f'hex {t!r}')
# ---- zlib
def payload(c):
    L = c.r.choice([c.r.randrange(0, 60), c.r.randrange(0, 700), c.r.randrange(0, 6000), c.r.randrange(200, 300), 511, 512, 513, 1024])
    return c.r.choice([lambda: c.R(L), lambda: bytes(c.r.choice(b'ab') for _ in range(L)), lambda: bytes(L), lambda: (c.R(20) * (L // 20 + 1))[:L]])()
@job('C25')
def zlib_rt(c):
    for _ in range(c.n(150)):
        x = payload(c); lv = c.r.choice(['_', 0, 1, 6, 9]); h = c.r.choice(['_', 0, 1]); H = 1 if h == 1 else 0
        D = c.d(); D.ok(f'T 1 zc {lv} {h}'); z = b''; pos = 0
        for m in c.split(len(x)):
            D.eq(f'tp 1 {hx(x[pos:pos+m])}', 'ok'); pos += m
            if c.r.random() < .3:
                D.eq('tfl 1', 'ok', 'flush')
                if c.r.random() < .7:
                    z += unhx(D.ok('tgs 1')); dz = zlib.decompressobj(15 if H else -15); y = dz.decompress(z); D.true(y == x[:pos], 'flush did not output all the data put so far', hx(x[:pos]), hx(y))
            z += drain(c, D, 1)
        D.eq('tfi 1', 'ok'); z += drain(c, D, 1, all=True); dz = zlib.decompressobj(15 if H else -15); y = None
        try: y = dz.decompress(z)
        except zlib.error as e: D.true(False, f'compressed output is not valid: {e}')
        D.true(y == x and dz.eof and not dz.unused_data, 'compressed output', hx(x), hx(y))
        D = c.d(); D.ok(f'T 1 zu {h}'); out = feed(c, D, 1, z); D.eq('tfi 1', 'ok', 'finish'); out += drain(c, D, 1, all=True); D.true(out == x, 'decompression', hx(x), hx(out))
@job('C25')
def zlib_bad(c):
    for _ in range(c.n(100)):
        x = payload(c)[:800]; H = c.r.randrange(2); co = zlib.compressobj(c.r.choice([0, 1, 6, 9]), zlib.DEFLATED, 15 if H else -15, 8, c.r.choice([0, 0, 4])); z = co.compress(x) + co.flush()
        D = c.d(); D.eq(f'ts zu {H} {hx(z)}', x, 'decompression')
        for k in c.r.sample(range(1, len(z)), min(6, len(z) - 1)) + [1]:
            if k < len(z): c.d().eq(f'ts zu {H} {hx(z[:-k])}', '!Error.Compression_error', f'data truncated by {k} bytes')
        g = c.R(c.r.randrange(1, 5)); c.d().eq(f'ts zu {H} {hx(z + g)}', '!Error.Compression_error', 'bytes after the end of the data')
        D = c.d(); D.ok(f'T 1 zu {H}'); D.eq(f'tp 1 {hx(z)}', 'ok'); D.eq(f'tp 1 {hx(g)}', '!Error.Compression_error', 'bytes after the end, in a later put')
        c.d().eq(f'ts zu {H} -', '!Error.Compression_error', 'empty compressed data')
        if H: b = bytearray(z); b[-1 - c.r.randrange(4)] ^= 1 << c.r.randrange(8); c.d().eq(f'ts zu 1 {hx(b)}', '!Error.Compression_error', 'wrong checksum')
        D = c.d(); D.ok(f'T 1 zu {H}')
        # one byte at a time
        out = b''
        for b in z: D.eq(f'tpb 1 {b}', 'ok')
        D.eq('tfi 1', 'ok'); D.eq('tgs 1', x, 'decompression byte by byte')
@job('C25')
def zlib_big(c):
    for n in (70000, 300000):
        x = c.r.choice([c.R(n), bytes(n), c.R(1000) * (n // 1000)]); z = c.d().ok(f'ts zc _ 1 {hx(x)}'); c.d().eq(f'ts zu 1 {z}', x)
# ---- rngs
@job('C26')
def rngs(c):
    for _ in range(c.n(60)):
        seed = c.R(c.r.choice([16, 17, 20, 31, 32, 33, 50])); k = seed[:32] if len(seed) >= 32 else (seed + bytes(32 - len(seed)) if len(seed) > 16 else seed)
        a = o.AES(seed[:16])
        for spec, st in (('prng', o.chacha(k, bytes(8), 0, 1200)), ('paes', o.ctr(a, bytes(16), 16, bytes(1200)) if c.r.random() < .3 else None)):
            if st is None: st = o.ctr(a, bytes(16), 16, bytes(320))
            D = c.d(); D.ok(f'R 1 {spec} {hx(seed)}'); pos = 0; tot = len(st)
            while pos < tot:
                n = min(tot - pos, c.r.choice([0, 1, 5, 15, 16, 17, 63, 64, 65, 100, c.r.randrange(200)])); a0 = c.r.randrange(4); b0 = c.r.randrange(4); buf = c.R(a0 + n + b0)
                if c.r.random() < .3: D.eq(f'rs 1 {n}', st[pos:pos+n], f'{spec}: keystream at {pos}')
                else: D.ok(f'Y 1 {hx(buf)}'); D.eq(f'rb 1 1 {a0} {n}', 'ok'); D.eq('y 1', buf[:a0] + st[pos:pos+n] + buf[a0+n:], f'{spec}: keystream at {pos}')
                pos += n
    p = os.path.join(c.scratch, 'dev'); data = c.R(200); open(p, 'wb').write(data)
    D = c.d(); D.ok('R 1 dev ' + p); D.ok('Y 1 ' + hx(bytes(64))); D.eq('rb 1 1 4 50', 'ok'); D.eq('y 1', bytes(4) + data[:50] + bytes(10)); D.eq('rb 1 1 0 0', 'ok'); D.eq('rs 1 150', data[50:]); D.eq('rb 1 1 0 1', '!Error.Entropy_source_closed', 'source at end of file')
    D = c.d(); D.ok('R 1 dev ' + p); D.ok('Y 1 ' + hx(bytes(300))); D.eq('rb 1 1 0 201', '!Error.Entropy_source_closed', 'source ends early'); c.d().true(c.d().send('R 1 dev /nonexistent/x').startswith('!'), 'missing device')
    fifo = os.path.join(c.scratch, 'fifo'); os.mkfifo(fifo)
    pid = os.fork()
    if pid == 0:
        try:
            f = os.open(fifo, os.O_WRONLY)
            for i in range(0, 200, 7): os.write(f, data[i:i+7]); time.sleep(.002)
        finally: os._exit(0)
    D = c.d(); D.ok('R 1 dev ' + fifo); D.eq('rs 1 200', data, 'short reads of the device'); os.waitpid(pid, 0)
    for spec in ('sys', 'hw', 'secure', 'dev /dev/urandom'):
        D = c.d(); r = D.send('R 1 ' + spec)
        if r.startswith('!'): D.true(r == '!Error.No_entropy_source', 'no source', None, r); continue
        seen = set()
        for n in [0, 1, 7, 8, 9, 15, 16, 17, 100, 255, 256, 257, 300, 1000, 1023, 1024, 1025, 5000]:
            a0 = c.r.randrange(4); b0 = c.r.randrange(4); D.ok(f'Y 1 {hx(bytes(a0 + n + b0))}'); D.eq(f'rb 1 1 {a0} {n}', 'ok'); v = unhx(D.ok('y 1')); D.true(v[:a0] == bytes(a0) and v[a0 + n:] == bytes(b0), f'{spec}: bytes outside the range modified', None, hx(v)); m = v[a0:a0+n]
            for i in range(0, n - 7): D.true(m[i:i+8] != bytes(8), f'{spec}: part of the range not filled ({n} bytes)', None, hx(m))
            for i in range(0, n - 7, 8): D.true(m[i:i+8] not in seen, f'{spec}: output repeats', None, hx(m)); seen.add(m[i:i+8])
            if n: # every byte is overwritten: with a second fill pattern, no byte stays at the pattern in 8 tries
                stay = [set(range(n))]
                for t in range(8):
                    D.ok(f'Y 1 *{n}:ff'); D.eq(f'rb 1 1 0 {n}', 'ok'); v = unhx(D.ok('y 1')); stay[0] &= {i for i in stay[0] if v[i] == 255}
                D.true(not stay[0], f'{spec}: bytes {sorted(stay[0])[:5]} are never written'); D.ok(f'Y 1 {hx(b"")}')
        # every output bit varies, and no two bits of one request are always equal or always opposite (80 requests; chance 2^-60)
        for n in (1, 3, 8, 9, 12, 15, 16, 17, 24, 31, 33, 64):
            T = 80; vs = [int.from_bytes(unhx(D.ok(f'rs 1 {n}')), 'little') for _ in range(T)]; D.begin(); cols = {}
            for b in range(8 * n):
                col = sum(((v >> b) & 1) << t for t, v in enumerate(vs)); full = (1 << T) - 1
                D.true(col not in (0, full), f'{spec}: bit {b % 8} of byte {b // 8} of a {n}-byte request is constant')
                D.true(col not in cols and full ^ col not in cols, f'{spec}: in {n}-byte requests, bit {b % 8} of byte {b // 8} is determined by another bit', None, cols.get(col, cols.get(full ^ col))); cols[col] = b
# ---- wipe
def wipe_same(c, kind, mk, use, wipe, variant='hw'):
    """two objects with different secrets and data: after wiping the reachable bytes agree"""
    dumps = []
    for _ in range(2):
        D = c.d(variant); secrets = mk(D); use(D); D.eq(wipe, 'ok', 'wipe'); ds = [x for x in D.ok(f'dump {kind} 1').split(',') if x]
        dumps.append([x for x in ds if unhx(x) not in secrets])
    D.true(dumps[0] == dumps[1], 'after wipe, reachable state depends on the key or the data', dumps[0], dumps[1])
@job('C27')
def wipes(c):
    for _ in range(c.n(4, 12)):
        L = c.r.choice([0, 3, 16, 21, 40, 64, 200, 300])
        for spec, kl in [('aes_e', 16), ('aes_e', 24), ('aes_d', 32), ('aes_d', 16), ('des_e', 8), ('des_d', 8), ('tdes_e', 16), ('tdes_e', 24), ('tdes_d', 24), ('bf_e', 20), ('bf_d', 56)]:
            for m in ('', 'cbc_e {} ', 'cbc_d {} ', 'cfb_e {} 3 ', 'cfb_d {} 8 ', 'ofb {} 5 ', 'ctr {} _ ', 'ctr {} 4 '):
                bs = 16 if spec[0] == 'a' else 8
                def mk(D):
                    k = c.R(kl); iv = c.R(bs); D.ok('B 1 ' + m.format(hx(iv)) + f'{spec} {hx(k)}'); return [k, iv]
                def use(D):
                    D.ok(f'Y 1 {hx(c.R(16))}'); D.ok('Y 2 ' + hx(bytes(16)))
                    for _ in range(3): D.eq('bt 1 1 0 2 0', 'ok')
                wipe_same(c, 'B', mk, use, 'bw 1')
            def mk(D): k = c.R(kl); iv = c.R(bs); D.ok(f'T 1 cpe length cbc_e {hx(iv)} {spec} {hx(k)}'); return [k, iv]
            wipe_same(c, 'T', mk, lambda D: D.ok(f'tp 1 {hx(c.R(L))}'), 'tw 1')
            def mk(D): k = c.R(kl); D.ok(f'T 1 cipher {spec} {hx(k)}'); return [k]
            wipe_same(c, 'T', mk, lambda D: D.ok(f'tp 1 {hx(c.R(L))}'), 'tw 1')
            def mk(D): k = c.R(kl); D.ok(f'T 1 cpd 8000 {spec} {hx(k)}'); return [k]
            wipe_same(c, 'T', mk, lambda D: D.ok(f'tp 1 {hx(c.R(L))}'), 'tw 1')
            def mk(D): k = c.R(kl); iv = c.R(bs); D.ok(f'H 1 bmac {hx(iv)} length {spec} {hx(k)}'); return [k, iv]
            wipe_same(c, 'H', mk, lambda D: (D.ok(f'hp 1 {hx(c.R(L))}')), 'hw 1')
            wipe_same(c, 'H', mk, lambda D: (D.ok(f'hp 1 {hx(c.R(L))}'), D.ok('hr 1')), 'hw 1')
        for spec in ('arcfour {k}', 'chacha _ _ {k}', 'chacha {i} 7 {k}'):
            def mk(D): k = c.R(16); iv = c.R(8); D.ok('S 1 ' + spec.format(k=hx(k), i=hx(iv))); return [k, iv]
            wipe_same(c, 'S', mk, lambda D: (D.ok(f'Y 1 {hx(c.R(L))}'), D.eq(f'stt 1 1 0 1 0 {L}', 'ok')), 'sw 1')
            def mk(D): k = c.R(16); iv = c.R(8); D.ok('T 1 scipher ' + spec.format(k=hx(k), i=hx(iv))); return [k, iv]
            wipe_same(c, 'T', mk, lambda D: (D.ok(f'tp 1 {hx(c.R(L))}'), D.ok(f'tpc 1 {c.r.randrange(256)}')), 'tw 1')
        for spec in ('gcm {h} {i} {k} e', 'gcm {h} {i} {k} d', 'cp {h} {i} {k} e', 'cp {h} {i} {k} d', 'tth rc4 {k} e hmac_sha1 {k}', 'tah cpe length aes_e {k} hmac_sha256 {k}'):
            for fin in (0, 1):
                def mk(D): k = c.R(16); iv = c.R(12); h = c.R(20); D.ok('A 1 ' + spec.format(k=hx(k), i=hx(iv), h=hx(h))); return [k, iv, h]
                wipe_same(c, 'A', mk, lambda D: (D.ok(f'ap 1 {hx(c.R(L))}'), D.ok('af 1') if fin else 0), 'aw 1')
@job('C27')
def wipes2(c):
    for _ in range(c.n(5, 15)):
        L = c.r.choice([0, 1, 9, 40, 63, 64, 65, 130, 200, 300])
        for spec in ('sha1', 'sha224', 'sha256', 'sha384', 'sha512', 'rmd160', 'md5', 'blake2b 256', 'blake2s 256', 'sha3 256', 'keccak 224', 'blake3 256', 'hmac_sha1 {k}', 'hmac_sha256 {k}', 'hmac_sha384 {k}', 'hmac_sha512 {k}', 'hmac_rmd160 {k}', 'hmac_md5 {k}', 'mblake2b 256 {k}', 'mblake2s 256 {k}', 'mblake3_256 {K}', 'cmac {i} {k}', 'maes {i} length {k}', 'mdft _ 8000 {k}', 'mtdes _ 8000 {k}', 'siphash {k}', 'siphash128 {k}'):
            for fin in (0, 1):
                def mk(D): k = c.R(16); K = c.R(32); iv = c.R(16); D.ok('H 1 ' + spec.format(k=hx(k), K=hx(K), i=hx(iv))); return [k, K, iv]
                wipe_same(c, 'H', mk, lambda D: (D.ok(f'hp 1 {hx(c.R(L))}'), D.ok(f'hpc 1 {c.r.randrange(256)}'), D.ok('hr 1') if fin else 0), 'hw 1')
        for spec in ('b64m', 'b64c', 'b64p', 'hexe', 'zc 0 _', 'compose hexe b64c', 'compose rc4 {k} e hexe', 'compose hexe rc4 {k} e'):
            def mk(D): k = c.R(16); D.ok('T 1 ' + spec.format(k=hx(k))); return [k]
            wipe_same(c, 'T', mk, lambda D: (D.ok(f'tp 1 {hx(c.R(L))}')), 'tw 1')
        for spec in ('prng', 'paes'):
            def mk(D): k = c.R(40); D.ok(f'R 1 {spec} {hx(k)}'); return []
            wipe_same(c, 'R', mk, lambda D: D.ok(f'rs 1 {L}'), 'rw 1')
    # one-shot helpers wipe their object; keys
    for spec, kl in (('rc4 {k} e', 16), ('cpe length aes_e {k}', 16)):
        dumps = []
        for _ in range(2):
            D = c.d(); k = c.R(kl); D.ok('T 1 ' + spec.format(k=hx(k))); D.ok(f'ts t 1 {hx(c.R(50))}'); dumps.append([x for x in D.ok('dump T 1').split(',') if unhx(x or '-') != k])
        D.true(dumps[0] == dumps[1], 'transform_string did not wipe the transform', dumps[0], dumps[1])
        dumps = []
        for _ in range(2):
            D = c.d(); k = c.R(kl); open(os.path.join(c.scratch, 'win'), 'wb').write(c.R(600)); D.ok('T 1 ' + spec.format(k=hx(k))); D.ok(f'tch t 1 _ {c.scratch}/win {c.scratch}/wout'); dumps.append([x for x in D.ok('dump T 1').split(',') if unhx(x or '-') != k])
        D.true(dumps[0] == dumps[1], 'transform_channel did not wipe the transform', dumps[0], dumps[1])
    for op in ('hs h 1 {x}', 'hch h 1 _ {f}'):
        dumps = []
        for _ in range(2):
            D = c.d(); k = c.R(16); open(os.path.join(c.scratch, 'win'), 'wb').write(c.R(600)); D.ok(f'H 1 hmac_sha1 {hx(k)}'); D.ok(op.format(x=hx(c.R(50)), f=c.scratch + '/win')); dumps.append([x for x in D.ok('dump H 1').split(',') if unhx(x or '-') != k])
        D.true(dumps[0] == dumps[1], 'hash helper did not wipe the hash', dumps[0], dumps[1])
    for op in ('ats a 1 {x}', 'atd a 1 {x}', 'acs a 1 {x}', 'acs a 1 {good}'):
        dumps = []
        for _ in range(2):
            D = c.d(); k = c.R(16); iv = c.R(12); x = c.R(50); ct, tag = o.gcm(k, iv, b'', x); D.ok(f'A 1 gcm _ {hx(iv)} {hx(k)} {"d" if "acs" in op else "e"}'); D.ok(op.format(x=hx(x), good=hx(ct + tag))); dumps.append([y for y in D.ok('dump A 1').split(',') if unhx(y or '-') not in (k, iv)])
        D.true(dumps[0] == dumps[1], f'{op[:3]}: helper did not wipe the transform', dumps[0], dumps[1])
    D = c.d(); D.ok(f'rsanew 1 prng {hx(c.R(20))} _ 64'); t = D.ok('rsawipe 1').split(); D.true(all(set(x) <= {'0'} for x in t[1:8]), 'RSA.wipe_key left data', None, t)
    D = c.d(); D.ok(f'painew 1 prng {hx(c.R(20))} 64'); t = D.ok('paiwipe 1').split(); D.true(all(set(x) <= {'0'} for x in t[1:7]), 'Paillier.wipe_key left data', None, t)
    for n in (0, 1, 7, 8, 9, 100): D = c.d(); D.ok(f'Y 1 {hx(c.R(n))}'); D.eq('wb 1', bytes(n), 'wipe_bytes'); D.eq(f'ws {hx(c.R(n))}', bytes(n), 'wipe_string')
    for v in ('ff' * 8, 'ab' * 20, 'ff' * 100, 'i5', '01'): D = c.d(); r = D.ok(f'bn wipe {v}'); D.true(set(r) <= {'0', '-'} or v in ('i5', '01'), 'Bignum.wipe', None, r)
# ---- utilities
@job('C28')
def utils(c):
    for L in range(0, 70):
        a = c.R(L); b = bytes(a); D = c.d(); D.eq(f'seq {hx(a)} {hx(b)}', 'true'); D.eq(f'beq {hx(a)} {hx(b)}', 'true')
        for i in range(L):
            w = bytearray(a); w[i] ^= 1 << c.r.randrange(8); D = c.d(); D.eq(f'seq {hx(a)} {hx(w)}', 'false', f'byte {i} of {L}'); D.eq(f'beq {hx(w)} {hx(a)}', 'false')
            if i + 1 < L: w[i + 1] ^= 1 << c.r.randrange(8); D.eq(f'seq {hx(a)} {hx(w)}', 'false'); D.eq(f'beq {hx(w)} {hx(a)}', 'false')
        for e in (1, 2, 8): D = c.d(); D.eq(f'seq {hx(a)} {hx(a + bytes(e))}', 'false'); D.eq(f'beq {hx(a + bytes(e))} {hx(a)}', 'false')
    for bit in range(8):
        D = c.d(); a = c.R(9); w = bytearray(a); w[4] ^= 1 << bit; D.eq(f'seq {hx(a)} {hx(w)}', 'false'); D.eq(f'beq {hx(a)} {hx(w)}', 'false')
    for _ in range(c.n(20)):
        a = c.R(20); w = bytes(a); i, j = c.r.sample(range(20), 2); w = bytearray(a); x = c.r.randrange(1, 256); w[i] ^= x; w[j] ^= x; D = c.d(); D.eq(f'seq {hx(a)} {hx(w)}', 'false', 'two equal differences'); D.eq(f'beq {hx(a)} {hx(w)}', 'false')
@job('C28')
def xors(c):
    for n in list(range(0, 40)) + [63, 64, 65, 100, 1000]:
        for so, do in {*(((a, (a + b) % 16) for a in range(8) for b in (0, 8)) if n in (7, 8, 9, 31, 32, 33, 63, 64, 65, 100) else ()), (0, 0), (c.r.randrange(20), c.r.randrange(20)), (1, 0), (0, 1), (3, 5), (8, 16), (c.r.randrange(9), c.r.randrange(9))}:
            s = c.R(so + n + c.r.randrange(4)); d = c.R(do + n + c.r.randrange(4)); w = d[:do] + o.xor(s[so:so+n], d[do:do+n]) + d[do+n:]; D = c.d(); D.ok(f'Y 1 {hx(s)}'); D.ok(f'Y 2 {hx(d)}'); D.eq(f'xb 1 {so} 2 {do} {n}', 'ok'); D.eq('y 2', w, f'xor_bytes {so} {do} {n}'); D.eq('y 1', s, 'source modified')
            D = c.d(); D.ok(f'Y 2 {hx(d)}'); D.eq(f'xs {hx(s)} {so} 2 {do} {n}', 'ok'); D.eq('y 2', w, f'xor_string {so} {do} {n}')
    for n in (8, 16, 24, 33):
        s = c.R(n); D = c.d(); D.ok(f'Y 1 {hx(s)}'); D.eq(f'xb 1 0 1 0 {n}', 'ok'); D.eq('y 1', bytes(n), 'xor with itself')
# ---- combinators
@job('C29')
def combos(c):
    for _ in range(c.n(100)):
        x = c.R(c.r.choice([c.r.randrange(60), c.r.randrange(900)])); k = c.R(16); e, d, orc = ciphers(c)
        t, y, td = c.r.choice([(f'rc4 {hx(k)} e', o.xor(x, o.rc4(k, len(x))), f'rc4 {hx(k)} d'), (f'cpe length {e}', o.ecb(orc, o.pad('length', x, orc.bs), True), f'cpd length {d}'), ('hexe', x.hex().encode(), 'hexd')])
        h, f = c.r.choice([('sha1', o.H('sha1')), (f'hmac_sha256 {hx(k)}', lambda v: o.hmac('sha256', k, v)), (f'siphash {hx(k)}', lambda v: o.siphash(k, v, 8))]); n = len(f(b''))
        for comb, tag in (('tth', f(y)), ('tah', f(x))):
            D = c.d(); D.ok(f'A 1 {comb} {t} {h}'); D.eq('az 1', n, 'tag_size'); out = feed(c, D, 1, x, 'a'); D.eq('af 1', tag, f'{comb}: tag'); out += drain(c, D, 1, 'a', True); D.true(out == y, f'{comb}: transformed data', hx(y), hx(out))
            D.eq(f'ats {comb} {t} {h} {hx(x)}', y + tag); D.eq(f'atd {comb} {t} {h} {hx(x)}', f'{hx(y)} {hx(tag)}')
        # checked decryption: tah over the ciphertext (hash of input), tth over the plaintext
        tg = f(y); D = c.d(); D.eq(f'acs tah {td} {h} {hx(y + tg)}', 'some ' + hx(x), 'auth_check'); D.eq(f'acs tth {td} {h} {hx(y + f(x))}', 'some ' + hx(x))
        bad = bytearray(tg); bad[c.r.randrange(n)] ^= 1 << c.r.randrange(8); D.eq(f'acs tah {td} {h} {hx(y + bytes(bad))}', 'none', 'wrong tag accepted'); D.eq(f'acs tah {td} {h} {hx(tg[1:])}', '!Error.Wrong_data_length', 'shorter than a tag'); D.eq(f'acs tah {td} {h} -', '!Error.Wrong_data_length')
    D = c.d(); D.ok('A 1 tth cpe length toy 8 1 sha1'); D.eq('aib 1', 1); D.eq('aob 1', 8); D.ok('A 1 tah cipher toy 8 1 sha1'); D.eq('aib 1', 8); D.eq('aob 1', 8)
    D = c.d(); D.ok('A 1 tth cipher toy 8 1 sha1'); D.ok('ap 1 010203'); D.eq('af 1', '!Error.Wrong_data_length'); D.eq(f'acs tah hexd sha1 {hx(o.H("sha1")(b""))}', 'some -', 'empty text')
# ---- native code under GC pressure
@job('C30')
def gc_stress(c):
    """debug runtime (freed minor heap is overwritten), minor heap filled so that a collection happens inside the primitive"""
    k = c.R(32); x = c.R(50); iv = c.R(12)
    cmds = [(f'hs {h[0]} {hx(x)}', h[1](x)) for h in HASHES.values()] + [(f'hs blake2b512 {hx(x)}', b2('b', 64)(x)), (f'hs mblake2s256 {hx(k)} {hx(x)}', b2('s', 32, k)(x)), (f'hs mblake3_256 {hx(k)} {hx(x)}', o.blake3(x, 32, k)), (f'hs siphash {hx(k[:16])} {hx(x)}', o.siphash(k[:16], x, 8)), (f'hs siphash128 {hx(k[:16])} {hx(x)}', o.siphash(k[:16], x, 16)),
        (f'ts aes CBC length _ {hx(k)} e {hx(x)}', o.cbc(o.AES(k), bytes(16), o.pad('length', x, 16), True)), (f'ts des CBC length _ {hx(k[:8])} e {hx(x)}', o.cbc(o.DES(k[:8]), bytes(8), o.pad('length', x, 8), True)), (f'ts bf ECB length _ {hx(k)} e {hx(x)}', o.ecb(o.BF(k), o.pad('length', x, 8), True)),
        (f'ts rc4 {hx(k)} e {hx(x)}', o.xor(x, o.rc4(k, 50))), (f'ts cc20 {hx(iv)} _ {hx(k)} e {hx(x)}', o.xor(x, o.chacha(k, iv, 0, 50))), (f'ats gcm {hx(x)} {hx(iv)} {hx(k)} e {hx(x)}', b''.join(o.gcm(k, iv, x, x))), (f'ats cp {hx(x)} {hx(iv)} {hx(k)} e {hx(x)}', b''.join(o.chapoly(k, iv, x, x))),
        (f'ts zu 0 {hx(zc(x))}', x), (f'hs cmac _ {hx(k[:16])} {hx(x)}', o.cmac(o.AES(k[:16]), bytes(16), x)), (f'modpow 05 07 ff01', pow(5, 7, 0xff01).to_bytes(2, 'big'))]
    for cmd, want in cmds:
        for lo in range(0, 600, 200):
            c.d('dbg', {'OCAMLRUNPARAM': 's=1k'}).eq(f'atall {lo} {lo + 199} {cmd}', want, 'wrong result when a collection happens inside')
def zc(x): co = zlib.compressobj(6, zlib.DEFLATED, -15); return co.compress(x) + co.flush()
@job('C30')
def compact_stress(c):
    for _ in range(c.n(60)):
        D = c.d('hw', {'OCAMLRUNPARAM': 's=4k'}); k = c.R(32); x = c.R(300); D.ok(f'H 1 sha3 256'); D.ok(f'H 2 blake3 256'); D.ok(f'A 1 gcm _ {hx(k[:12])} {hx(k)} e'); D.ok('T 1 zc _ _')
        for i in range(0, 300, 50):
            for cmd in ('hp 1', 'hp 2', 'ap 1', 'tp 1'): D.eq(f'{cmd} {hx(x[i:i+50])}', 'ok')
            D.ok(c.r.choice(['gc', 'minor']))
        D.eq('hr 1', o.sha3(x, 256)); D.eq('hr 2', o.blake3(x, 32)); ct, tag = o.gcm(k, k[:12], b'', x); D.eq('af 1', tag); D.eq('ags 1', ct); D.ok('tfi 1'); y = unhx(D.ok('tgs 1')); D.true(zlib.decompressobj(-15).decompress(y) == x, 'zlib'); D.ok('hw 1'); D.ok('hw 2'); D.ok('aw 1')
# ---- channels
@job('C31')
def channels(c):
    f = os.path.join(c.scratch, 'in'); g = os.path.join(c.scratch, 'out')
    for L in [0, 1, 15, 16, 17, 255, 256, 257, 511, 512, 513, 1000, 5000, 70000]:
        x = c.R(L); open(f, 'wb').write(x); k = c.R(16)
        for t, fn in ((f'rc4 {hx(k)} e', lambda v: o.xor(v, o.rc4(k, len(v)))), ('cpe length toy 16 3', lambda v: o.ecb(o.Toy(16, 3), o.pad('length', v, 16), True)), ('hexe', lambda v: v.hex().encode()), ('b64m', lambda v: b64(v, 'm').encode())):
            for ln in [None, 0, L, L + 1, L + 1000] + [c.r.randrange(L + 1) for _ in range(3)]:
                if os.path.exists(g): os.unlink(g)
                D = c.d(); n = L if ln is None else ln
                if n > L: D.eq(f'tch {t} {ln} {f} {g}', '!End_of_file', 'end of file before the length')
                else:
                    D.eq(f'tch {t} {_n(ln)} {f} {g}', f'ok {n}', 'bytes consumed'); got = open(g, 'rb').read(); w = fn(x[:n]); D.true(got == w, f'{t}: channel of {L} bytes, len {ln}', hx(w)[:200], hx(got)[:200])
            D = c.d(); D.eq(f'ts {t} {hx(x)}', fn(x), 'transform_string')
        for ln in [None, 0, L, L + 1] + [c.r.randrange(L + 1) for _ in range(3)]:
            D = c.d(); n = L if ln is None else ln; D.eq(f'hch sha1 {_n(ln)} {f}', '!End_of_file' if n > L else f'{o.H("sha1")(x[:n]).hex()} {n}', 'hash_channel')
        c.d().eq(f'hs sha256 {hx(x)}', o.H('sha256')(x)); D = c.d(); D.eq(f'tch cipher toy 16 3 _ {f} {g}', f'ok {L}' if L % 16 == 0 else '!Error.Wrong_data_length')
