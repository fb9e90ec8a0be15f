"""C17 and C27 for the chaining modes and the transforms (initialization vectors, chunk sizes, wipe), C28/C16 for the public xor utilities"""
from oc import *
from oc import _z, _zb
from o_cipher import stream_stream_cipher
MODES = {'cbc_encrypt': 0, 'cbc_decrypt': 0, 'cfb_encrypt': 1, 'cfb_decrypt': 1, 'ofb': 1, 'ctr': 2}
def dirty(W, st, o):
    """every buffer the object holds gets arbitrary contents -> (st, ids)"""
    ids = []
    for f, v in sorted(st.get(o).fields.items()):
        if isinstance(v, Lazy): v = W.fld(st, o, f)
        if isinstance(v, Ref) and isinstance(st.get(v), Buf):
            g = W.ffun('dirty_' + f, Int, BV8); st = st.put(v, Buf(st.get(v).len, base=lambda s_, i, g=g: g(_z(i)))); ids.append((f, v))
    return st, ids
def wiped(W, st, o, ids, nm, tags):
    for t, v in expect_vals(W, W.send(st, o, 'wipe'), nm + '#wipe'):
        for f, r in ids:
            u, j = W.sint(t, 'j', 0, MAXSTR); u = u.assume(j < _z(u.get(r).len)); W.prove(u, W.rd(u, u.get(r), j) == 0, f'{nm}#wipe: buffer {f} erased')
            cur = W.fld(t, o, f)
            if isinstance(cur, Ref) and cur != r: W.fail(t, f'{nm}#wipe: buffer {f} erased', 'replaced by another buffer')
        for g in tags: W.prove(t, z3.BoolVal(bool(t.ghost.get(g))), f'{nm}#wipe: wipes {g}')
def construct(W, cls):
    kind = MODES[cls]; nm = 'Block.' + cls
    st, bs = W.sint(W.init(), 'bs', 1, 2**20); E = block_cipher(W, 'E', bs)
    for withiv in (False, True):
        for withn in ((True,) if kind == 1 else (False, True) if kind == 2 else (False,)):
            s1 = st; args = []; valid = z3.BoolVal(True); iv0 = None
            if withiv: s1, iv = W.symbuf(s1, 'iv'); iv0 = s1.get(iv); args.append(('?iv', Some(iv)))
            if withn:
                s1, n = W.sint(s1, 'n'); valid = z3.And(n >= 1, n <= bs)
                args.append(('', n) if kind == 1 else ('?inc', Some(n)))
            ivok = _zb(_z(iv0.len) == bs) if withiv else z3.BoolVal(True)
            live(W, [s1.assume(z3.And(valid, ivok))] + ([s1.assume(z3.Not(valid))] if withn else []) + ([s1.assume(z3.Not(ivok))] if withiv else []), nm)
            for t, k, o in W.instantiate(s1, W.cls('Block.' + cls), args + [('', E)]):
                if k == 'exc':
                    if is_err(o, 'Wrong_IV_size'): W.prove(t, z3.Not(ivok), f'{nm}: Wrong_IV_size only for an iv of the wrong size')
                    elif isinstance(o, Con) and o.name in ('Assert_failure', 'Invalid_argument'): W.prove(t, z3.Not(valid), f'{nm}: assertion fails only for an invalid size')
                    else: W.fail(t, f'{nm}: exception', repr(o))
                    continue
                W.prove(t, z3.And(valid, ivok), f'{nm}: accepts only valid parameters')
                r = W.fld(t, o, 'iv'); t2, j = W.sint(t, 'j', 0, 2**20); u = t2.assume(j < bs)
                W.prove(u, z3.And(_z(t.get(r).len) == bs, byte(W, u, r, j) == (W.rd(u, iv0, j) if withiv else chr_(0))), f'{nm}: initial iv is the given one, or zero')
                W.prove(t, z3.BoolVal(not withiv or r != iv), f'{nm}: the iv is copied')
                for u, v in expect_vals(W, W.send(t, o, 'blocksize'), nm + '#blocksize'): W.prove(u, _z(v) == (n if kind == 1 else bs), f'{nm}#blocksize')
                t, ids = dirty(W, t, o); wiped(W, t, o, ids, nm, ['E.wiped'])
def cipher_wipe(W, cls):
    st, bs = W.sint(W.init(), 'bs', 1, 2**20)
    if cls == 'Stream.cipher': E = stream_stream_cipher(W); args = [E]; tag = 'cipher.wiped'
    else:
        E = block_cipher(W, 'E', bs); tag = 'E.wiped'
        args = ([PyObj('padding', {})] if 'padded' in cls else []) + [E]
    for t, o in expect_vals(W, new(W, st, cls, args), cls):
        t, r = W.symbuf(t, 'obuf', lo=1); W.fld(t, o, 'obuf'); t = W.setfield(t, o, 'obuf', r)
        t, ids = dirty(W, t, o); W.prove(t, z3.BoolVal(len(ids) == 2), f'{cls}: input and output buffer'); wiped(W, t, o, ids, cls, [tag])
def xor(W, fn):
    st, src = W.symbuf(W.init(), 'src')
    for alias in (False, True):
        if alias and fn == 'xor_string': continue
        nm = fn + ('/same-buffer' if alias else ''); s1, dst = (st, src) if alias else W.symbuf(st, 'dst')
        s1, so = W.sint(s1, 'so'); s1, do = W.sint(s1, 'do'); s1, n = W.sint(s1, 'n'); s0, d0 = s1.get(src), s1.get(dst)
        if alias: s1 = s1.assume(so == do)
        ok = z3.And(_zb(bm.rng_ok(so, n, s0.len)), _zb(bm.rng_ok(do, n, d0.len))); live(W, [s1.assume(ok), s1.assume(z3.Not(ok))], nm)
        s1, f = W.val(s1, fn)
        for t, k, v in W.call(s1, f, src, so, dst, do, n):
            t, x = W.sint(t, 'x', 0, MAXSTR)
            if k == 'exc':
                W.prove(t, z3.Not(ok) if v.name == 'Invalid_argument' else z3.BoolVal(False), f'{nm}: Invalid_argument only for invalid ranges'); W.prove(t, z3.BoolVal(t.get(dst) is d0), f'{nm}: nothing written on error'); continue
            W.prove(t, ok, f'{nm}: returns only for valid ranges'); u = t.assume(x < _z(d0.len))
            a = u.assume(z3.And(x >= do, x < do + n)); W.prove(a, W.rd(a, a.get(dst), x) == W.rd(a, d0, x) ^ W.rd(a, s0, simp(x - do + so)), f'{nm}: bytes of the range are xored')
            a = u.assume(z3.Or(x < do, x >= do + n)); W.prove(a, W.rd(a, a.get(dst), x) == W.rd(a, d0, x), f'{nm}: other bytes unchanged')
            if not alias: W.prove(t, z3.BoolVal(t.get(src) is s0), f'{nm}: source unchanged')
def wipe_string(W):
    st, s = W.symbuf(W.init(), 's'); st, f = W.val(st, 'wipe_string'); n = st.get(s).len
    for t, v in expect_vals(W, W.call(st, f, s), 'wipe_string'):
        t, j = W.sint(t, 'j', 0, MAXSTR); u = t.assume(j < n); W.prove(u, z3.And(_z(u.get(s).len) == n, byte(W, u, s, j) == 0), 'wipe_string: all bytes zero')
UNITS = {'construct-' + c.replace('_', '-'): unit(lambda W, c=c: construct(W, c)) for c in MODES}
for _c in ('Block.cipher', 'Block.cipher_padded_encrypt', 'Block.cipher_padded_decrypt', 'Stream.cipher'): UNITS['wipe-' + _c.replace('.', '-').replace('_', '-').lower()] = unit(lambda W, c=_c: cipher_wipe(W, c))
UNITS['xor-bytes'] = unit(lambda W: xor(W, 'xor_bytes')); UNITS['xor-string'] = unit(lambda W: xor(W, 'xor_string')); UNITS['wipe-string'] = unit(wipe_string)
