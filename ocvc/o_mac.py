"""C14, C03, C16, C17, C27: CBC-MAC, final-triple CBC-MAC and CMAC over any block cipher, any block size.
IN(i): byte i of the message; CH(n, j): byte j of the chaining value after n bytes: CH(0, .) = iv and
CH(n + bs, .) = E(CH(n, .) xor IN(n .. n + bs)).  Class invariant: iv holds CH(N, .), buffer holds IN(N) .. IN(N + used - 1)."""
from oc import *
from oc import _z, _zb
import o_block
IN = z3.Function('IN', Int, BV8); CH = z3.Function('CH', Int, Int, BV8); BIG = 2**70
PADN = z3.Function('PADBYTE', Int, BV8)
class Inv:
    def __init__(s, o, bs): s.o = o; s.bs = bs
    def covers(s, st, hid, f):
        if hid == s.o.id: return f == 'used'
        return hid in (st.get(s.o).fields['iv'].id, st.get(s.o).fields['buffer'].id)
    def covers_ghost(s, gk): return gk == 'N'
    def havoc(s, W, st, loop=True):
        o = s.o; st, N = W.sint(st, 'N', 0, BIG); st = st.gset('N', N); st, used = W.sint(st, 'used', 0, MAXSTR); st = st.assume(used <= s.bs)
        W.fld(st, o, 'used'); st = W.setfield(st, o, 'used', used); iv, b = W.fld(st, o, 'iv'), W.fld(st, o, 'buffer'); junk = W.ffun('buffer', Int, BV8)
        st = st.put(iv, Buf(s.bs, base=lambda s_, i: CH(N, _z(i)))); st = st.put(b, Buf(s.bs, base=lambda s_, i: junk(_z(i)), layers=((0, used, lambda s_, i: IN(simp_z(N + _z(i)))),)))
        return st if loop else st.assume(z3.Or(used > 0, N == 0))
    def pos(s, W, st): return simp(_z(st.ghost['N']) + _z(W.fld(st, s.o, 'used')))
    def terms(s, W, st): return [('P', _z(s.pos(W, st))), ('N', _z(st.ghost['N']))]
    def check(s, W, st, name):
        N = _z(st.ghost['N']); used = _z(W.fld(st, s.o, 'used')); iv, b = st.get(W.fld(st, s.o, 'iv')), st.get(W.fld(st, s.o, 'buffer'))
        W.prove(st, z3.And(used >= 0, used <= s.bs, _z(iv.len) == s.bs, _z(b.len) == s.bs), f'{name}: pending input fits a block')
        if not name.startswith('invariant '): W.prove(st, z3.Or(used > 0, N == 0), f'{name}: the last block is kept for result')
        st, k = W.sint(st, 'k', 0, MAXSTR); u = st.assume(k < s.bs); W.prove(u, W.rd(u, iv, k) == CH(N, k), f'{name}: chaining value of the blocks so far')
        u = st.assume(k < used); W.prove(u, W.rd(u, b, k) == IN(simp_z(N + k)), f'{name}: pending input bytes')
def cipher(W, tag, bs):
    """block cipher by contract: while absorbing (ghost mode 'chain') it gets the next block xor the chaining value; in result it is logged"""
    def transform(W, st, a):
        s, so, d, do = a; so, do = bm.toint(so), bm.toint(do); rng(W, st, 'source', s, so, bs, tag + '#transform'); rng(W, st, 'destination', d, do, bs, tag + '#transform')
        if st.ghost['mode'] == 'log':
            rs = st.get(s); f = W.ffun(tag, Int, BV8); st = st.gset('calls', st.ghost['calls'] + ((tag, rs, so, f),))
            return [(W.wr_range(st, d, do, bs, lambda s_, k: f(simp_z(_z(k) - _z(do)))), 'val', UNIT)]
        N = _z(st.ghost['N']); st2, j = W.sint(st, 'j', 0, MAXSTR); u = st2.assume(j < bs)
        W.prove(u, W.rd(u, u.get(s), simp(_z(so) + j)) == IN(simp_z(N + j)) ^ CH(N, j), 'cipher receives the next block xor the chaining value')
        N2 = simp_z(N + bs); st = W.wr_range(st, d, do, bs, lambda s_, k: CH(N2, simp_z(_z(k) - _z(do))))
        return [(st.gset('N', N2), 'val', UNIT)]
    return PyObj(tag, dict(blocksize=(0, lambda W, st, a: [(st, 'val', bs)]), transform=(4, transform), wipe=(0, lambda W, st, a: [(st.gset(tag + '.wiped', True), 'val', UNIT)])))
def padobj(W, bs):
    def pad(W, st, a):
        b, used = a; rec = st.get(b); W.prove(st, z3.And(_z(used) >= 0, _z(used) < bs, _z(rec.len) == bs), 'precondition of pad: 0 <= used < block size')
        st = st.gset('padded_at', used); return [(W.wr_range(st, b, used, simp(bs - _z(used)), lambda s_, i: PADN(_z(i))), 'val', UNIT)]
    def strip(W, st, a): raise Unsupported('strip')
    return PyObj('padding', dict(pad=(2, pad), strip=(1, strip)))
def pad8000(W):
    """contract of Padding._8000#pad, proved by o_util:pad-8000"""
    def fn(W, st, a, o=None):
        b, used = a; L = st.get(b).len; W.prove(st, z3.And(_z(used) >= 0, _z(used) < _z(L)), 'precondition of _8000#pad')
        return [(W.wr_range(st.gset('padded_at', used), b, used, simp(_z(L) - _z(used)), lambda s_, i: z3.If(_z(i) == _z(used), chr_(0x80), chr_(0))), 'val', UNIT)]
    W.over['_8000#pad'] = Bi('pad', 2, fn)
def construct(W, cls, ivg, padg):
    """-> [(st, o, bs)] after checking construction; st is fresh"""
    st = W.init().g(N=0, mode='chain', calls=()); st, bs = W.sint(st, 'bs', 1, 2**20); labels = []; iv0 = None; ivr = None
    if ivg: st, ivr = W.symbuf(st, 'ivarg'); iv0 = st.get(ivr); labels.append(('?iv', Some(ivr)))
    if padg: labels.append(('?pad', Some(padobj(W, bs))))
    c = [cipher(W, 'cipher', bs)]; k1 = k2 = None
    if cls == 'Block.mac_final_triple': c += [cipher(W, 'cipher2', bs), cipher(W, 'cipher3', bs)]
    if cls == 'Block.cmac': st, k1 = W.symbuf(st, 'k1', bs); st, k2 = W.symbuf(st, 'k2', bs); c += [k1, k2]
    ok = _zb(True) if iv0 is None else _z(iv0.len) == bs; res = []; live(W, [st.assume(ok)], cls)
    for t, k, o in W.instantiate(st, W.cls(cls), labels + [('', x) for x in c]):
        if k == 'exc':
            if is_err(o, 'Wrong_IV_size'): W.prove(t, z3.Not(ok), f'{cls}: Wrong_IV_size only for an iv of another size')
            else: W.fail(t, f'{cls}: exception', repr(o))
            continue
        W.prove(t, ok, f'{cls}: accepts only an iv of one block')
        iv, b = t.get(W.fld(t, o, 'iv')), t.get(W.fld(t, o, 'buffer')); t, j = W.sint(t, 'j', 0, MAXSTR); u = t.assume(j < bs)
        W.prove(t, z3.And(_z(iv.len) == bs, _z(b.len) == bs, _z(W.fld(t, o, 'used')) == 0), f'{cls}: starts empty')
        W.prove(u, W.rd(u, iv, j) == (W.rd(u, iv0, j) if iv0 is not None else chr_(0)), f'{cls}: chaining starts with the iv')
        if ivg: W.prove(t, z3.BoolVal(W.fld(t, o, 'iv').id != ivr.id), f'{cls}: the iv argument is copied')
        for u, v in expect_vals(W, W.send(t, o, 'hash_size'), cls): W.prove(u, _z(v) == bs, f'{cls}#hash_size: block size')
        inv = Inv(o, bs); t = inv.havoc(W, t, False); res.append((t, o, bs, inv, k1, k2))
    return res
def adds(W, cls):
    for st0, o, bs, inv, _, _ in construct(W, cls, False, False):
        W.inv = inv; W.bound_terms = [bs]; live(W, [st0], cls); P = inv.pos(W, st0); cur = [None]
        def extra(W, stx, st_0, tv, written):
            d = {l: (c, e) for l, c, e in tv}; a, b = d.get(('slot', 0)), d.get(('slot', 1))
            if a is None or b is None: return []
            return [('progress', z3.Or(z3.And(b[0] == b[1], *[_z(d[l][0]) == _z(d[l][1]) for l in (('t', 'N'), ('t', 'P')) if l in d]), z3.And(_z(a[1]) >= 0, _z(a[0]) <= _z(cur[0]), _z(b[0]) > 0, _z(b[1]) > 0)))]
        W.extra = extra
        def src(st, n, ofs, total=None):
            junk = W.ffun('src', Int, BV8)
            if total is None: st, total = W.sint(st, 'src.len', 0, MAXSTR)
            return W.alloc(st, Buf(total, base=lambda s_, i: junk(_z(i)), layers=((ofs, n, lambda s_, i: IN(simp_z(P + _z(i) - _z(ofs)))),)))
        nm = f'{cls}#add_substring'; st, n = W.sint(st0, 'len'); st, ofs = W.sint(st, 'ofs'); st, s = src(st, n, ofs); s0 = st.get(s); cur[0] = s0.len; ok = _zb(bm.rng_ok(ofs, n, s0.len))
        for t, k, v in W.send(st, o, 'add_substring', s, ofs, n):
            if k == 'exc':
                if v.name == 'Invalid_argument': W.prove(t, z3.Not(ok), f'{nm}: Invalid_argument only for an invalid range')
                else: W.fail(t, f'{nm}: exception', repr(v))
                continue
            W.prove(t, z3.Or(ok, n <= 0), f'{nm}: accepts only valid ranges (or non-positive lengths)'); W.prove(t, inv.pos(W, t) == P + z3.If(n > 0, n, 0), f'{nm}: exactly the given bytes are absorbed'); inv.check(W, t, nm)
            W.prove(t, z3.BoolVal(t.get(s) is s0), f'{nm}: source unchanged')
        nm = f'{cls}#add_string'; st, n = W.sint(st0, 'len', 0, MAXSTR); st, s = src(st, n, 0, n); cur[0] = n
        for t, v in expect_vals(W, W.send(st, o, 'add_string', s), nm): W.prove(t, inv.pos(W, t) == P + n, f'{nm}: exactly the given bytes are absorbed'); inv.check(W, t, nm)
        W.extra = None
        c = W.fbv('c'); b = z3.BitVec('b', 63)
        for m, arg, val in (('add_char', c, c), ('add_byte', b, z3.Extract(7, 0, b))):
            nm = f'{cls}#{m}'; st = st0.assume(val == IN(simp_z(P)))
            for t, v in expect_vals(W, W.send(st, o, m, arg), nm): W.prove(t, inv.pos(W, t) == P + 1, f'{nm}: exactly one byte is absorbed'); inv.check(W, t, nm)
        W.inv = None
def result(W, cls, ivg, padg):
    pad8000(W)
    for st, o, bs, inv, k1, k2 in construct(W, cls, ivg, padg):
        live(W, [st], cls); N = _z(st.ghost['N']); used = _z(W.fld(st, o, 'used')); st = st.gset('mode', 'log'); nm = f'{cls}#result'
        kk = [st.get(k) if k else None for k in (k1, k2)]
        def msg(j): return IN(simp_z(N + j))
        for t, k, v in W.send(st, o, 'result'):
            calls = t.ghost['calls']; main = [c for c in calls if c[0] == 'cipher']; rest = [c for c in calls if c[0] != 'cipher']
            if k == 'exc':
                if is_err(v, 'Wrong_data_length') and not padg and cls != 'Block.cmac': W.prove(t, z3.And(used != 0, used != bs), f'{nm}: Wrong_data_length only for a partial last block')
                else: W.fail(t, f'{nm}: exception', repr(v))
                continue
            t, j = W.sint(t, 'j', 0, MAXSTR); u = t.assume(j < bs); cur = lambda j: CH(N, j); exp = []
            if cls == 'Block.cmac':
                full = used == bs; K = lambda u, j: z3.If(full, W.rd(u, kk[0], j), W.rd(u, kk[1], j))
                exp = [lambda u, j, cur=cur: cur(j) ^ K(u, j) ^ z3.If(j < used, msg(j), z3.If(j == used, chr_(0x80), chr_(0)))]
                if len(main) != 1: W.fail(t, f'{nm}: one final block', str(len(main))); continue
            else:
                fullq = W.entails(t, used == bs)
                if not fullq and not W.entails(t, used != bs): raise Unsupported('result does not distinguish a full last block')
                if not padg: W.prove(t, z3.Or(used == 0, used == bs), f'{nm}: accepts only whole blocks without padding')
                if len(main) != int(fullq) + int(padg): W.fail(t, f'{nm}: number of final blocks', str(len(main))); continue
                if fullq: f0 = main[0][3]; exp.append(lambda u, j: CH(N, j) ^ msg(j)); cur = lambda j, f0=f0: f0(j)
                if padg: exp.append((lambda u, j, cur=cur: cur(j) ^ PADN(j)) if fullq else (lambda u, j, cur=cur: cur(j) ^ z3.If(j < used, msg(j), PADN(j)))); W.prove(t, _z(t.ghost['padded_at']) == (0 if fullq else used), f'{nm}: padding after the last byte')
            for c, e in zip(main, exp): W.prove(u, W.rd(u, c[1], simp(_z(c[2]) + j)) == e(u, j), f'{nm}: final block')
            out = (lambda j: main[-1][3](j)) if main else (lambda j: CH(N, j))
            if cls == 'Block.mac_final_triple':
                if [c[0] for c in rest] != ['cipher2', 'cipher3']: W.fail(t, f'{nm}: final triple encryption', str([c[0] for c in rest])); continue
                W.prove(u, z3.And(W.rd(u, rest[0][1], simp(_z(rest[0][2]) + j)) == out(j), W.rd(u, rest[1][1], simp(_z(rest[1][2]) + j)) == rest[0][3](j)), f'{nm}: final triple encryption'); out = lambda j: rest[1][3](j)
            W.prove(t, _z(t.get(v).len) == bs, f'{nm}: one block'); W.prove(u, byte(W, u, v, j) == out(j), f'{nm}: is the last chaining value')
        for t, v in expect_vals(W, W.send(st, o, 'wipe'), cls + '#wipe'):
            for n, r in [('iv', W.fld(t, o, 'iv')), ('buffer', W.fld(t, o, 'buffer'))] + ([('k1', k1), ('k2', k2)] if k1 else []): u, j = W.sint(t, 'j', 0, MAXSTR); u = u.assume(j < bs); W.prove(u, byte(W, u, r, j) == 0, f'{cls}#wipe: {n} erased')
            for x in ['cipher'] + (['cipher2', 'cipher3'] if 'triple' in cls else []): W.prove(t, z3.BoolVal(t.ghost.get(x + '.wiped') is True), f'{cls}#wipe: {x} wiped')
def incompatible(W):
    """mac_final_triple: the three block sizes must agree"""
    st = W.init().g(N=0, mode='chain', calls=()); bs = []
    for i in range(3): st, b = W.sint(st, 'bs', 1, 2**20); bs.append(b)
    eq = z3.And(bs[0] == bs[1], bs[1] == bs[2]); nm = 'Block.mac_final_triple'; live(W, [st.assume(eq), st.assume(z3.Not(eq))], nm)
    for t, k, o in new(W, st, nm, [cipher(W, 'c%d' % i, b) for i, b in enumerate(bs)]):
        if k == 'exc':
            if is_err(o, 'Incompatible_block_size'): W.prove(t, z3.Not(eq), f'{nm}: Incompatible_block_size only for different block sizes')
            else: W.fail(t, nm, repr(o))
        else: W.prove(t, eq, f'{nm}: accepts only equal block sizes')
# ---- MAC.aes, des, triple_des, des_final_triple_des, aes_cmac: one block (and any partial block for CMAC) through the real classes
def dbl(b):
    x = z3.Concat(*b); r = (x << 1) ^ z3.If(z3.Extract(127, 127, x) == 1, z3.BitVecVal(0x87, 128), z3.BitVecVal(0, 128)); return [z3.Extract(127 - 8 * i, 120 - 8 * i, r) for i in range(16)]
def wiring(W, fn):
    o_block.prims(W); nm = 'MAC.' + fn; st0, f = W.val(W.init(), nm); des = [('des-Encrypt', 0), ('des-Decrypt', 8), ('des-Encrypt', 16)]
    bs = 16 if 'aes' in fn else 8; full = {'aes': (16, 24, 32), 'aes_cmac': (16, 24, 32), 'des': (8,), 'triple_des': (16, 24), 'des_final_triple_des': (16, 24)}[fn]
    st, key = W.symbuf(st0, 'key'); n = st.get(key).len; live(W, [st], nm)
    valid = z3.Or(*[n == x for x in full])
    for t, k, o in W.apply(st, f, [('', key)]):
        if k == 'exc':
            if is_err(o, 'Wrong_key_size'): W.prove(t, z3.Not(valid), f'{nm}: Wrong_key_size only for other key sizes')
            else: W.fail(t, nm, repr(o))
        else: W.prove(t, valid, f'{nm}: accepts only valid keys')
    for kl in full:
        for ivg in (False, True):
            for ln in (range(17) if fn == 'aes_cmac' else (bs, bs // 2)):
                st, key = W.symbuf(st0, 'key', kl); key0 = st.get(key); labels = []; IV = [chr_(0)] * bs
                if ivg: IV = [W.fbv('iv') for _ in range(bs)]; st, iv = W.cbuf(st, IV); labels.append(('?iv', Some(iv)))
                padded = ln < bs and fn != 'aes_cmac'
                if padded: st, p = W.val(st, 'Padding._8000'); labels.append(('?pad', Some(p)))
                m = [W.fbv('m') for _ in range(ln)]; st, s = W.cbuf(st, m)
                for t, o in expect_vals(W, W.apply(st, f, labels + [('', key)]), nm):
                    for u, r in expect_vals(W, W.seqmap(W.send(t, o, 'add_string', s), lambda x, _: W.send(x, o, 'result')), nm):
                        calls = list(u.ghost.get('calls', ())); blk = m + ([chr_(0x80)] + [chr_(0)] * (bs - ln - 1) if ln < bs else [])
                        ops = {'aes': [('aes-enc', 0)], 'aes_cmac': [('aes-enc', 0)] * 2, 'des': [('des-Encrypt', 0)], 'triple_des': des, 'des_final_triple_des': des}[fn]
                        if [c[0] for c in calls] != [x[0] for x in ops]: W.fail(u, f'{nm}: applies the right primitives', str([c[0] for c in calls])); continue
                        kn = kl if 'aes' in fn else 8
                        for c, (op, ofs) in zip(calls, ops):
                            ofs = 0 if ofs == 16 and kl == 16 else ofs; u2, j = W.sint(u, 'j', 0, kn - 1); W.prove(u2, z3.And(W.rd(u2, c[1].key, simp(_z(c[1].ofs) + j)) == W.rd(u2, key0, simp(ofs + j)), _z(c[1].key.len) - _z(c[1].ofs) >= kn), f'{nm}: {op} uses the right key')
                            if 'aes' in fn: W.prove(u, _z(c[1].key.len) == kl, f'{nm}: whole key')
                        inp = lambda c: [W.rd(u, c[2], simp(_z(c[3]) + i)) for i in range(bs)]; out = lambda c: [c[4](z3.IntVal(i)) for i in range(bs)]
                        x = [a ^ b for a, b in zip(blk, IV)]
                        if fn == 'aes_cmac':
                            W.prove(u, z3.And(*[b == 0 for b in inp(calls[0])]), f'{nm}: subkeys from the zero block'); K1 = dbl(out(calls[0])); K = K1 if ln == 16 else dbl(K1); x = [a ^ b for a, b in zip(x, K)]; calls = calls[1:]
                        W.prove(u, z3.And(*[a == b for a, b in zip(inp(calls[0]), x)]), f'{nm}: block to encrypt')
                        for a, b in zip(calls, calls[1:]): W.prove(u, z3.And(*[p == q for p, q in zip(inp(b), out(a))]), f'{nm}: chaining of the primitives')
                        W.prove(u, z3.And(_z(u.get(r).len) == bs, *[byte(W, u, r, i) == y for i, y in enumerate(out(calls[-1]))]), f'{nm}: MAC of one block')
UNITS = {'incompatible': unit(incompatible)}
for _c, _n in (('Block.mac', 'mac'), ('Block.mac_final_triple', 'mac-final-triple'), ('Block.cmac', 'cmac')):
    UNITS[_n + '-add'] = unit(lambda W, c=_c: adds(W, c))
    for _i in (False, True):
        for _p in ((False, True) if _n != 'cmac' else (False,)): UNITS[f'{_n}-result' + ('-iv' if _i else '') + ('-pad' if _p else '')] = unit(lambda W, c=_c, i=_i, p=_p: result(W, c, i, p))
for _f in ('aes', 'des', 'triple_des', 'des_final_triple_des', 'aes_cmac'): UNITS['MAC-' + _f.replace('_', '-')] = unit(lambda W, f=_f: wiring(W, f))
