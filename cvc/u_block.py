"""Contracts of the block primitives (bits engine): AES, DES, Blowfish, GHASH."""
from cv import *
import aesmath

def aes(kl, hw, direction):
    def unit(rep):
        e = Env('stubs-aes', rep)
        e.setg('aesni_available', 1 if hw else 0)
        key = e.sym('key', kl); blk = e.sym('block', 16)
        kp = e.string('key', key)
        ck = e.call(f'caml_aes_cook_{direction}_key', kp)
        sp, sw = e.window('src', 'src_ofs', blk); sw.ro = True
        old = [Wd(e.d, e.d.b.word(('old', i), 8), 8) for i in range(16)]
        dp, dw = e.window('dst', 'dst_ofs', old)
        r = e.call(f'caml_aes_{direction}', ck, sp, val_sym('src_ofs'), dp, val_sym('dst_ofs'))
        nm = f'aes{8*kl}-{direction}-' + ('ni' if hw else 'sw')
        e.ok_unit(nm, r)
        want = (aesmath.encrypt if direction == 'encrypt' else aesmath.decrypt)(key, blk)
        e.eq(nm + ': output = FIPS197(key, block)', e.content(dw), want)
        e.eq(nm + ': key unchanged', e.content(kp), key)
        # in place
        bp, bw = e.window('buf', 'ofs', blk)
        e.call(f'caml_aes_{direction}', ck, bp, val_sym('ofs'), bp, val_sym('ofs'))
        e.eq(nm + ': in-place output', e.content(bw), want)
        e.done(nm)
    return unit

def cpuid(e, bit, has):
    def asm(ex, callee, args, ins):
        if 'cpuid' not in callee[1] or not args or type(args[0]) is not int: raise Unsupported('inline asm')
        return Agg([7, 0, has << bit, 0] if args[0] <= 1 else [0, 0, 0, 0])
    e.ex.ext['asm'] = asm
def aes_first(cpu):
    """histories that start before the processor was examined: a key cooked first, another key (other direction) cooked after it, then both used"""
    def unit(rep):
        for a, b in (('encrypt', 'decrypt'), ('decrypt', 'encrypt')):
            e = Env('stubs-aes', rep); cpuid(e, 25, cpu)
            key = e.sym('key', 16); k2 = e.sym('key2', 16); blk = e.sym('block', 16); old = [Wd(e.d, e.d.b.word(('old', i), 8), 8) for i in range(16)]
            c1 = e.call(f'caml_aes_cook_{a}_key', e.string('key', key)); c2 = e.call(f'caml_aes_cook_{b}_key', e.string('key2', k2)); nm = f'first use of AES: {a}, processor with' + ('' if cpu else 'out') + ' AES instructions'
            for c, k, d in ((Ptr(e.final(c1), 0), key, a), (c2, k2, b)):
                sp, sw = e.window('src' + d, 'src_ofs', blk); sw.ro = True; dp, dw = e.window('dst' + d, 'dst_ofs', old)
                e.ok_unit(nm, e.call(f'caml_aes_{d}', c, sp, val_sym('src_ofs'), dp, val_sym('dst_ofs')))
                e.eq(nm + f': {d} = FIPS197(key, block)', e.content(dw), (aesmath.encrypt if d == 'encrypt' else aesmath.decrypt)(k, blk))
            e.done(nm)
    return unit
def ghash_first(cpu):
    def unit(rep):
        e = Env('stubs-ghash', rep, flat=2000); cpuid(e, 1, cpu); h = e.sym('h', 16); x = e.sym('x', 16); nm = 'first use of GHASH, processor with' + ('' if cpu else 'out') + ' carry-less multiplication'
        ctx = e.call('caml_ghash_init', e.string('h', h)); e.call('caml_ghash_init', e.string('h2', e.sym('h2', 16))); xp = e.string('x', x)
        e.ok_unit(nm, e.call('caml_ghash_mult', Ptr(e.final(ctx), 0), xp)); e.eq(nm + ': x := x * H in GF(2^128)', e.content(xp), ciphers.gf128_mul(x, h)); e.done(nm)
    return unit

def aes_inverse(kl):
    """lemma over the specification: InvCipher(Cipher(x)) = x"""
    def unit(rep):
        d = BitsDom()
        key = [Wd(d, d.b.word(('key', i), 8), 8) for i in range(kl)]; blk = [Wd(d, d.b.word(('block', i), 8), 8) for i in range(16)]
        out = aesmath.decrypt(key, aesmath.encrypt(key, blk))
        ok = all(d.tup(a.v, 8) == d.tup(b.v, 8) for a, b in zip(out, blk))
        out2 = aesmath.encrypt(key, aesmath.decrypt(key, blk))
        ok2 = all(d.tup(a.v, 8) == d.tup(b.v, 8) for a, b in zip(out2, blk))
        rep.ob(f'lemma: FIPS197 decrypt inverts encrypt ({8*kl})', 'proved' if ok and ok2 else 'unproved', 'bits', n=32)
    return unit


import ciphers

def des(direction):
    """caml_des_cook_key / caml_des_transform: direction 0 = encrypt, 1 = decrypt"""
    def unit(rep):
        e = Env('stubs-des', rep)
        key = e.sym('key', 8); blk = e.sym('block', 8)
        kp, kw = e.window('key', 'ofs', key); kw.ro = True
        ck = e.call('caml_des_cook_key', kp, val_sym('ofs'), val_long(direction))
        sp, sw = e.window('src', 'src_ofs', blk); sw.ro = True
        dp, dw = e.window('dst', 'dst_ofs', [Wd(e.d, e.d.b.word(('old', i), 8), 8) for i in range(8)])
        nm = 'des-' + ('decrypt' if direction else 'encrypt')
        r = e.call('caml_des_transform', ck, sp, val_sym('src_ofs'), dp, val_sym('dst_ofs'))
        e.ok_unit(nm, r)
        want = ciphers.des(key, blk, direction == 0)
        e.eq(nm + ': output = FIPS46(key, block)', e.content(dw), want)
        bp, bw = e.window('buf', 'ofs2', blk)
        e.call('caml_des_transform', ck, bp, val_sym('ofs2'), bp, val_sym('ofs2'))
        e.eq(nm + ': in-place output', e.content(bw), want)
        e.done(nm)
    return unit
def des_lemma(rep):
    d = BitsDom()
    key = [Wd(d, d.b.word(('key', i), 8), 8) for i in range(8)]; blk = [Wd(d, d.b.word(('block', i), 8), 8) for i in range(8)]
    for enc in (True, False):
        out = ciphers.des(key, ciphers.des(key, blk, enc), not enc)
        ok = all(d.tup(a.v, 8) == d.tup(b.v, 8) for a, b in zip(out, blk))
        rep.ob('lemma: DES decrypt inverts encrypt', 'proved' if ok else 'unproved', 'bits', n=8)
    # key parity bits are ignored
    k2 = [Wd(d, d.tup(b.v, 8)[1:] and ((d.b.var(('par', i)),) + d.tup(b.v, 8)[1:]), 8) for i, b in enumerate(key)]
    ok = all(d.tup(a.v, 8) == d.tup(b.v, 8) for a, b in zip(ciphers.des(k2, blk), ciphers.des(key, blk)))
    rep.ob('lemma: DES ignores key parity bits', 'proved' if ok else 'unproved', 'bits', n=8)

def bf_layout():
    lay, size = build.layout('stubs-blowfish', 'BLOWFISH_CTX', ['P', 'S'])
    if lay['P'][1] != 72 or lay['S'][1] != 4096: raise Unsupported('BLOWFISH_CTX layout')
    return lay['P'][0], lay['S'][0], size
def bf_crypt(direction):
    def unit(rep):
        e = Env('stubs-blowfish', rep)
        po, so, size = bf_layout()
        ctx = e.sym('ctx', size); blk = e.sym('block', 8)
        ck = e.string('ckey', ctx); ck.o.ro = True
        sp, sw = e.window('src', 'src_ofs', blk); sw.ro = True
        dp, dw = e.window('dst', 'dst_ofs', [Wd(e.d, e.d.b.word(('old', i), 8), 8) for i in range(8)])
        nm = 'blowfish-' + direction
        r = e.call('caml_blowfish_' + direction, ck, sp, val_sym('src_ofs'), dp, val_sym('dst_ofs'))
        e.ok_unit(nm, r)
        P = [cat_le(ctx[po+4*i:po+4*i+4]) for i in range(18)]
        def sel(i, b):
            p = Ptr(ck.o, e.d.bin('add', e.d.zext(b.v, 8, 64)[:0] + (0, 0) + e.d.tup(b.v, 8) + (0,) * 54, so + 1024 * i, 64))
            return Wd(e.d, e.ex.load(p, 4), 32)
        L, R = cat_be(blk[:4]), cat_be(blk[4:])
        f = ciphers.bf_encrypt_words if direction == 'encrypt' else ciphers.bf_decrypt_words
        L, R = f(P, sel, L, R)
        e.eq(nm + ': output = Blowfish(P, S, block)', e.content(dw), L.bytes_be() + R.bytes_be())
        bp, bw = e.window('buf', 'ofs', blk)
        e.call('caml_blowfish_' + direction, ck, bp, val_sym('ofs'), bp, val_sym('ofs'))
        e.eq(nm + ': in-place output', e.content(bw), L.bytes_be() + R.bytes_be())
        e.done(nm)
    return unit
def bf_setup(kl):
    """key schedule, with the block function as an uninterpreted function of (P,S,L,R)
    (its own contract is proved by bf_crypt)"""
    def unit(rep):
        po, so, size = bf_layout()
        e = Env('stubs-blowfish', rep)
        d = e.d
        def uf(Pk, Sk, L, R):
            key = (tuple(x.v if type(x.v) is tuple else ('c', x.v) for x in Pk), tuple(x.v if type(x.v) is tuple else ('c', x.v) for s in Sk for x in s))
            mid = d.memids.setdefault(key, len(d.memids))
            r = d.b.uf(('bf', mid), (d.tup(L.v, 32), d.tup(R.v, 32)), 64)
            return Wd(d, r[:32], 32), Wd(d, r[32:], 32)
        def enc(ex, args, ins):
            c, xl, xr = args
            P = [Wd(d, ex.load(Ptr(c.o, c.off + po + 4*i), 4), 32) for i in range(18)]
            S = [[Wd(d, ex.load(Ptr(c.o, c.off + so + 1024*s + 4*i), 4), 32) for i in range(256)] for s in range(4)]
            L, R = uf(P, S, Wd(d, ex.load(xl, 4), 32), Wd(d, ex.load(xr, 4), 32))
            ex.store(xl, L.v, 4); ex.store(xr, R.v, 4)
        if 'Blowfish_Encrypt' not in e.m.funcs or len(e.m.funcs['Blowfish_Encrypt'].params) != 3: raise Unsupported('Blowfish_Encrypt')
        e.ex.over['Blowfish_Encrypt'] = enc
        key = e.sym('key', kl)
        kp = e.string('key', key)
        ck = e.call('caml_blowfish_cook_key', kp)
        P, S = ciphers.bf_setup(key, uf)
        want = [b for x in P for b in x.bytes_le()]
        e.eq(f'blowfish-setup-{kl}: P array', e.content(ck, po, 72), want)
        e.eq(f'blowfish-setup-{kl}: S boxes', e.content(ck, so, 4096), [b for s in S for x in s for b in x.bytes_le()])
        e.eq(f'blowfish-setup-{kl}: key unchanged', e.content(kp), key)
        e.done(f'blowfish-setup-{kl}')
    return unit
def bf_lemma(rep):
    """decryption inverts encryption for any P and any S (S as uninterpreted functions)"""
    d = BitsDom()
    P = [Wd(d, d.b.word(('P', i), 32), 32) for i in range(18)]
    L, R = Wd(d, d.b.word('L', 32), 32), Wd(d, d.b.word('R', 32), 32)
    sel = lambda i, b: Wd(d, d.b.uf(('S', i), (d.tup(b.v, 8),), 32), 32)
    a, b = ciphers.bf_decrypt_words(P, sel, *ciphers.bf_encrypt_words(P, sel, L, R))
    rep.ob('lemma: Blowfish decrypt inverts encrypt', 'proved' if a.v == L.v and b.v == R.v else 'unproved', 'bits', n=2)

def ghash(hw):
    def unit(rep):
        e = Env('stubs-ghash', rep, flat=2000)
        e.setg('pclmul_available', 1 if hw else 0)
        h = e.sym('h', 16); x = e.sym('x', 16)
        hp = e.string('h', h)
        ctx = e.call('caml_ghash_init', hp)
        xp = e.string('x', x)
        nm = 'ghash-' + ('clmul' if hw else 'sw')
        r = e.call('caml_ghash_mult', ctx, xp)
        e.ok_unit(nm, r)
        e.eq(nm + ': x := x * H in GF(2^128)', e.content(xp), ciphers.gf128_mul(x, h))
        e.eq(nm + ': H unchanged', e.content(hp), h)
        e.done(nm)
    return unit

UNITS = {}
for kl in (16, 24, 32):
    UNITS[f'aes-spec-{kl}'] = aes_inverse(kl)
    for hw in (0, 1):
        for dr in ('encrypt', 'decrypt'):
            UNITS[f'aes-{kl}-{dr}-{"ni" if hw else "sw"}'] = aes(kl, hw, dr)

for cpu in (0, 1): UNITS[f'aes-first-{"ni" if cpu else "sw"}'] = aes_first(cpu)
for dr in (0, 1): UNITS['des-' + ('decrypt' if dr else 'encrypt')] = des(dr)
UNITS['des-lemmas'] = des_lemma
for dr in ('encrypt', 'decrypt'): UNITS['blowfish-' + dr] = bf_crypt(dr)
UNITS['blowfish-lemma'] = bf_lemma
for kl in range(4, 57): UNITS[f'blowfish-setup-{kl}'] = bf_setup(kl)
UNITS['ghash-sw'] = ghash(0); UNITS['ghash-clmul'] = ghash(1)

if __name__ == '__main__':
    import sys
    for k, f in UNITS.items():
        if len(sys.argv) > 1 and sys.argv[1] not in k: continue
        r = run_unit(k, f)
        print(k, round(r.time, 2), [(o['name'], o['status'], o['detail'][:300]) for o in r.obs if o['status'] != 'proved'], sum(o['n'] for o in r.obs if o['status'] == 'proved'))
for cpu in (0, 1): UNITS[f'ghash-first-{"clmul" if cpu else "sw"}'] = ghash_first(cpu)
