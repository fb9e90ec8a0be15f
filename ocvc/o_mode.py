"""C07: contracts of the chaining modes.  Symbolic block size and chunk size, symbolic offsets, arbitrary IV
(reached state), source and destination distinct or the same buffer at arbitrary offsets."""
from oc import *
from oc import _z, _zb

def setup(W, cls, alias, chunk=False, ctr=False):
    st = W.init()
    st, bs = W.sint(st, 'bs', 1, 2**20)
    ck = bs
    if chunk: st, ck = W.sint(st, 'chunk', 1, 2**20); st = st.assume(ck <= bs)
    E = block_cipher(W, 'E', bs)
    st, ivs = W.symbuf(st, 'iv0', bs)
    args = [('?iv', Some(ivs))]
    if chunk: args += [('', ck)]
    outs = W.instantiate(st, W.cls('Block.' + cls), args + [('', E)])
    outs = expect_vals(W, outs, cls + ' construction')
    res = []
    for st, o in outs:
        # arbitrary reached state: the iv buffer holds arbitrary bytes
        iv = W.fld(st, o, 'iv')
        W.prove(st, st.get(iv).len == bs, f'{cls}: iv has the block size')
        st, j = W.sint(st, 'j', 0, 2**20); 
        W.prove(st.assume(j < bs), byte(W, st, iv, j) == byte(W, st, ivs, j), f'{cls}: initial iv is the given one')
        f = W.ffun('iv', Int, BV8); st = st.put(iv, Buf(bs, base=lambda s_, i: f(_z(i))))
        st, src = W.symbuf(st, 'src')
        dst = src
        if not alias: st, dst = W.symbuf(st, 'dst')
        st, so = W.sint(st, 'so'); st, do = W.sint(st, 'do')
        res.append((st, o, E, bs, ck, iv, f, src, so, dst, do))
    return res
def step(W, cls, alias, chunk, post):
    name = f'{cls}{"/same-buffer" if alias else ""}'
    for st, o, E, bs, ck, iv, ivf, src, so, dst, do in setup(W, cls, alias, chunk):
        src0, dst0 = st.get(src), st.get(dst)
        live(W, [st.assume(z3.And(bm.rng_ok(so, ck, src0.len), bm.rng_ok(do, ck, dst0.len)))], name)
        st, j = W.sint(st, 'j', 0, 2**20)
        for t, k, v in W.send(st, o, 'transform', src, so, dst, do):
            ok = z3.And(_zb(bm.rng_ok(so, ck, src0.len)), _zb(bm.rng_ok(do, ck, dst0.len)))
            if k == 'exc':
                if isinstance(v, Con) and v.name == 'Invalid_argument':
                    W.prove(t, z3.Not(ok), f'{name}: Invalid_argument only for an invalid range')
                else: W.fail(t, f'{name}: exception', repr(v))
                # nothing outside the destination range changed
                frame(W, t, name, src, src0, dst, dst0, do, ck, alias)
                continue
            W.prove(t, ok, f'{name}: returns only for valid ranges')
            frame(W, t, name, src, src0, dst, dst0, do, ck, alias)
            calls = t.ghost.get('E', ())
            if len(calls) != 1: W.fail(t, f'{name}: one block encryption per block', f'{len(calls)} calls'); continue
            rs, eo, out = calls[0]
            t = t.assume(j < bs); 
            S = lambda i: W.rd(t, src0, simp(so + i))
            D = lambda i: W.rd(t, t.get(dst), simp(do + i))
            IN = W.rd(t, rs, simp(_z(eo) + j))
            IV2 = W.rd(t, t.get(iv), j)
            post(W, t, name, j, bs, ck, S, D, IN, lambda i: out(i), ivf, IV2)
def frame(W, t, name, src, src0, dst, dst0, do, ck, alias):
    t, x = W.sint(t, 'x', 0, MAXSTR)
    if not alias:
        W.prove(t.assume(x < _z(src0.len)), W.rd(t, t.get(src), x) == W.rd(t, src0, x), f'{name}: source unchanged')
    u = t.assume(z3.And(x < _z(dst0.len), z3.Or(x < do, x >= do + ck)))
    W.prove(u, W.rd(u, u.get(dst), x) == W.rd(u, dst0, x), f'{name}: destination unchanged outside the block')
    W.prove(t, z3.And(_z(t.get(dst).len) == _z(dst0.len)), f'{name}: length')
def cbc_enc(W, t, n, j, bs, ck, S, D, IN, OUT, iv, IV2):
    W.prove(t, IN == S(j) ^ iv(j), f'{n}: encrypts plaintext xor iv'); W.prove(t, D(j) == OUT(j), f'{n}: output is the encrypted block'); W.prove(t, IV2 == OUT(j), f'{n}: next iv is the ciphertext')
def cbc_dec(W, t, n, j, bs, ck, S, D, IN, OUT, iv, IV2):
    W.prove(t, IN == S(j), f'{n}: decrypts the ciphertext'); W.prove(t, D(j) == OUT(j) ^ iv(j), f'{n}: output is decrypted block xor iv'); W.prove(t, IV2 == S(j), f'{n}: next iv is the ciphertext')
def cfb(dec):
    def post(W, t, n, j, bs, ck, S, D, IN, OUT, iv, IV2):
        W.prove(t, IN == iv(j), f'{n}: encrypts the iv')
        u = t.assume(j < ck); W.prove(u, D(j) == OUT(j) ^ S(j), f'{n}: output is input xor encrypted iv')
        u = t.assume(j < bs - ck); W.prove(u, IV2 == iv(j + ck), f'{n}: next iv: shifted left by the chunk')
        u = t.assume(j >= bs - ck); W.prove(u, IV2 == (S if dec else D)(j - (bs - ck)), f'{n}: next iv: ends with the ciphertext chunk')
    return post
def ofb(W, t, n, j, bs, ck, S, D, IN, OUT, iv, IV2):
    W.prove(t, IN == iv(j), f'{n}: encrypts the iv'); W.prove(t, IV2 == OUT(j), f'{n}: next iv is the encrypted iv')
    W.prove(t.assume(j < ck), D(j) == OUT(j) ^ S(j), f'{n}: output is input xor encrypted iv')
UNITS = {}
for _c, _ch, _p in (('cbc_encrypt', False, cbc_enc), ('cbc_decrypt', False, cbc_dec), ('cfb_encrypt', True, cfb(False)), ('cfb_decrypt', True, cfb(True)), ('ofb', True, ofb)):
    for _a in (False, True):
        UNITS[_c.replace('_', '-') + ('-same' if _a else '')] = unit(lambda W, c=_c, a=_a, h=_ch, p=_p: step(W, c, a, h, p))
# ---- counter mode: block sizes 8 and 16 (all block ciphers of the library), every increment width
def num(cells): 
    return z3.Concat(*cells) if len(cells) > 1 else cells[0]
def incr(W):
    """increment_counter c lim pos: big-endian increment of bytes lim..pos modulo 256^(pos-lim+1), the others unchanged"""
    st, f = W.val(W.init(), 'Block.increment_counter')
    for n in (8, 16):
        for w in range(1, n + 1):
            t0, c = W.symbuf(st, 'c', n); cells = [W.fbv('c', 8) for _ in range(n)]; t0 = t0.put(c, Buf(n, cells=tuple(cells)))
            for t, v in expect_vals(W, W.call(t0, f, c, n - w, n - 1), 'increment_counter'):
                out = W.content(t, c)
                W.prove(t, z3.And(num(out[n - w:]) == num(cells[n - w:]) + 1, *[a == b for a, b in zip(out[:n - w], cells)]), f'increment_counter: {n}-byte counter, {w} bytes')
def ctr(W, alias):
    for bs in (8, 16):
        for w in [None] + list(range(1, bs + 1)):
            name = f'ctr{"/same-buffer" if alias else ""}'
            st = W.init(); E = block_cipher(W, 'E', bs); st, ivs = W.symbuf(st, 'iv0', bs)
            args = [('?iv', Some(ivs))] + ([('?inc', Some(w))] if w is not None else [])
            n = w or bs; cap = 2**(8 * n)
            for st, o in expect_vals(W, W.instantiate(st, W.cls('Block.ctr'), args + [('', E)]), name):
                for i in range(bs): W.prove(st, byte(W, st, W.fld(st, o, 'iv'), i) == byte(W, st, ivs, i), f'{name}: initial iv')
                mt = W.fld(st, o, 'max_transf')
                W.prove(st, z3.BoolVal(isinstance(mt, I64) and mt.v == (cap if n < 8 else 0)), f'{name}: limit initialised')
                # arbitrary reached state after `used` blocks
                iv = W.fld(st, o, 'iv'); cells = [W.fbv('iv', 8) for _ in range(bs)]; st = st.put(iv, Buf(bs, cells=tuple(cells)))
                st, used = W.sint(st, 'used', 0, None); st = st.assume(used < cap if n < 8 else used < 2**64)
                st, m = W.sint(st, 'max_transf', -2**63, 2**63 - 1)
                st = st.assume(z3.Or(m == (cap if n < 8 else 0) - used, m == (cap if n < 8 else 0) - used + 2**64)); st = W.setfield(st, o, 'max_transf', I64(m))
                st, src = W.symbuf(st, 'src'); dst = src
                if not alias: st, dst = W.symbuf(st, 'dst')
                st, so = W.sint(st, 'so'); st, do = W.sint(st, 'do'); src0, dst0 = st.get(src), st.get(dst)
                ok = z3.And(_zb(bm.rng_ok(so, bs, src0.len)), _zb(bm.rng_ok(do, bs, dst0.len)))
                live(W, [st.assume(ok)], name)
                for t, k, v in W.send(st, o, 'transform', src, so, dst, do):
                    frame(W, t, name, src, src0, dst, dst0, do, bs, alias)
                    if k == 'exc':
                        if isinstance(v, Con) and v.name == 'Invalid_argument': W.prove(t, z3.Not(ok), f'{name}: Invalid_argument only for an invalid range')
                        elif is_err(v, 'Message_too_long'): W.prove(t, used + 1 >= (cap if n < 8 else 2**64), f'{name}: message too long only at the limit')
                        else: W.fail(t, f'{name}: exception', repr(v))
                        continue
                    W.prove(t, ok, f'{name}: returns only for valid ranges')
                    W.prove(t, used + 1 <= (cap if n < 8 else 2**64) - 1, f'{name}: no counter value is used twice')
                    calls = t.ghost.get('E', ())
                    if len(calls) != 1: W.fail(t, f'{name}: one block encryption per block', f'{len(calls)} calls'); continue
                    rs, eo, out = calls[0]
                    W.prove(t, z3.And(*[W.rd(t, rs, simp(eo + i)) == cells[i] for i in range(bs)]), f'{name}: encrypts the counter block')
                    W.prove(t, z3.And(*[byte(W, t, dst, simp(do + i)) == out(z3.IntVal(i)) ^ W.rd(t, src0, simp(so + i)) for i in range(bs)]), f'{name}: output is input xor encrypted counter')
                    nc = W.content(t, iv)
                    W.prove(t, z3.And(num(nc[bs - n:]) == num(cells[bs - n:]) + 1, *[a == b for a, b in zip(nc[:bs - n], cells)]), f'{name}: counter incremented')
                    m2 = W.fld(t, o, 'max_transf').v
                    W.prove(t, z3.Or(m2 == (cap if n < 8 else 0) - (used + 1), m2 == (cap if n < 8 else 0) - (used + 1) + 2**64), f'{name}: limit counts blocks')
UNITS['increment-counter'] = unit(incr)
UNITS['ctr'] = unit(lambda W: ctr(W, False)); UNITS['ctr-same'] = unit(lambda W: ctr(W, True))
