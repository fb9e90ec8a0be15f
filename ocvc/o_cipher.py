"""C09 (and C16, C08, C27): transforms with buffered output, over abstract streams.
IN(i): byte i of all input, OUT(i): byte i of all output.  Ghosts: N bytes processed by the cipher object,
D bytes drained.  Class invariant of Block.cipher: ibuf holds IN(N) .. IN(N+used-1), obuf[obeg..oend) holds
OUT(D) .. OUT(N-1)."""
from oc import *
from oc import _z, _zb
IN = z3.Function('IN', Int, BV8); OUT = z3.Function('OUT', Int, BV8)
BIG = 2**70

def bytes_of(W, st, name, fn, ofs, length, total=None):
    """buffer whose bytes ofs .. ofs+length-1 are fn(i - ofs), the others unknown"""
    junk = W.ffun(name, Int, BV8)
    if total is None: st, total = W.sint(st, name + '.len', 0, MAXSTR)
    return W.alloc(st, Buf(total, base=lambda s_, i: junk(_z(i)), layers=((ofs, length, lambda s_, i: fn(simp_z(_z(i) - _z(ofs)))),)))
# ---------------------------------------------------------------- ensure_capacity
def ensure_capacity(W, n=None):
    nm = 'buffered_output#ensure_capacity'
    st = W.init(); (st, o), = expect_vals(W, new(W, st, 'buffered_output', [256]), nm)
    st, r = W.symbuf(st, 'obuf', lo=1); b0 = st.get(r); L = b0.len
    st, obeg = W.sint(st, 'obeg', 0, MAXSTR); st, oend = W.sint(st, 'oend', 0, MAXSTR); st = st.assume(z3.And(obeg <= oend, oend <= L))
    for f, v in (('obuf', r), ('obeg', obeg), ('oend', oend)): W.fld(st, o, f); st = W.setfield(st, o, f, v)
    st, n = W.sint(st, 'n', 0, MAXSTR); st, k = W.sint(st, 'k', 0, MAXSTR); W.bound_terms = [L]
    live(W, [st.assume(n > L)], nm)
    for t, kind, v in W.send(st, o, 'ensure_capacity', n):
        if kind == 'exc':
            if is_err(v, 'Output_buffer_overflow'): W.prove(t, oend - obeg + n > MAXSTR, f'{nm}: overflow only when the data cannot fit a string')
            else: W.fail(t, f'{nm}: exception', repr(v))
            continue
        b, e, rr = _z(W.fld(t, o, 'obeg')), _z(W.fld(t, o, 'oend')), W.fld(t, o, 'obuf')
        W.prove(t, z3.And(b >= 0, e - b == oend - obeg, e + n <= _z(t.get(rr).len)), f'{nm}: room for n more bytes, same amount of data')
        W.prove(t.assume(k < oend - obeg), W.rd(t, t.get(rr), simp(b + k)) == W.rd(t, b0, simp(obeg + k)), f'{nm}: buffered data preserved')
def cap_contract(W):
    """contract of ensure_capacity as proved above"""
    def fn(W, st, a, o):
        n = _z(bm.toint(a[0])); r = W.fld(st, o, 'obuf'); b0 = st.get(r); obeg, oend = _z(W.fld(st, o, 'obeg')), _z(W.fld(st, o, 'oend'))
        W.prove(st, z3.And(n >= 0, n <= MAXSTR, obeg >= 0, obeg <= oend, oend <= _z(b0.len), _z(b0.len) >= 1), 'precondition of ensure_capacity')
        st, ob = W.sint(st, 'obeg', 0, MAXSTR); st, L = W.sint(st, 'obuf.len', 1, MAXSTR); oe = simp(ob + (oend - obeg)); st = st.assume(oe + n <= L)
        junk = W.ffun('obuf', Int, BV8)
        st, r2 = W.alloc(st, Buf(L, base=lambda s_, i: junk(_z(i)), layers=((ob, simp(oend - obeg), lambda s_, i: W.rd(s_, b0, simp(_z(i) - ob + obeg))),)))
        ex = (st, 'exc', err('Output_buffer_overflow'))
        for f, v in (('obuf', r2), ('obeg', ob), ('oend', oe)): st = W.setfield(st, o, f, v)
        return [(st, 'val', UNIT), ex]
    W.over['buffered_output#ensure_capacity'] = Bi('ensure_capacity', 1, fn)
# ---------------------------------------------------------------- invariant
class Inv:
    def __init__(s, o, bs, block=True, lazy=False): s.o = o; s.bs = bs; s.block = block; s.lazy = lazy; s.bufs = set()
    def covers(s, st, hid, f):
        if hid == s.o.id: return f in ('used', 'obeg', 'oend', 'obuf')
        return hid in s.bufs or hid == st.get(s.o).fields['obuf'].id or (s.block and hid == st.get(s.o).fields['ibuf'].id)
    def covers_ghost(s, gk): return gk == 'N'
    def havoc(s, W, st, loop=True):
        st, N = W.sint(st, 'N', 0, BIG); st = st.gset('N', N); D = _z(st.ghost['D']); o = s.o
        st, obeg = W.sint(st, 'obeg', 0, MAXSTR); st, L = W.sint(st, 'obuf.len', 1, MAXSTR); oend = simp(obeg + N - D); st = st.assume(z3.And(N >= D, oend <= L))
        W.ranges[oend.get_id()] = (0, MAXSTR); W.keep.append(oend)
        st, r = bytes_of(W, st, 'obuf', lambda k: OUT(simp_z(D + k)), obeg, simp(N - D), L); s.bufs.add(r.id)
        for f, v in (('obuf', r), ('obeg', obeg), ('oend', oend)): W.fld(st, o, f); st = W.setfield(st, o, f, v)
        if s.block:
            st, used = W.sint(st, 'used', 0, MAXSTR); st = st.assume(used <= s.bs); W.fld(st, o, 'used'); st = W.setfield(st, o, 'used', used)
            ib = W.fld(st, o, 'ibuf'); junk = W.ffun('ibuf', Int, BV8); s.bufs.add(ib.id)
            st = st.put(ib, Buf(s.bs, base=lambda s_, i: junk(_z(i)), layers=((0, used, lambda s_, i: IN(simp_z(N + _z(i)))),)))
            if s.lazy and not loop: st = st.assume(z3.Or(used > 0, N == _z(st.ghost['F'])))
        return st
    def pos(s, W, st): return simp(_z(st.ghost['N']) + (_z(W.fld(st, s.o, 'used')) if s.block else 0))
    def terms(s, W, st): return [('P', _z(s.pos(W, st))), ('N', _z(st.ghost['N']))]
    def check(s, W, st, name):
        N, D = _z(st.ghost['N']), _z(st.ghost['D']); obeg, oend, r = _z(W.fld(st, s.o, 'obeg')), _z(W.fld(st, s.o, 'oend')), W.fld(st, s.o, 'obuf')
        W.prove(st, z3.And(obeg >= 0, obeg <= oend, oend <= _z(st.get(r).len), oend - obeg == N - D), f'{name}: pending output is what was produced and not drained')
        st, k = W.sint(st, 'k', 0, MAXSTR)
        u = st.assume(k < N - D); W.prove(u, W.rd(u, u.get(r), simp(obeg + k)) == OUT(simp_z(D + k)), f'{name}: pending output bytes')
        if s.block:
            used = _z(W.fld(st, s.o, 'used')); ib = st.get(W.fld(st, s.o, 'ibuf'))
            W.prove(st, z3.And(used >= 0, used <= s.bs, _z(ib.len) == s.bs), f'{name}: pending input fits a block')
            if s.lazy and not name.startswith('invariant '): W.prove(st, z3.Or(used > 0, N == _z(st.ghost['F'])), f'{name}: the last block is kept for finish')
            u = st.assume(k < used); W.prove(u, W.rd(u, ib, k) == IN(simp_z(N + k)), f'{name}: pending input bytes')
def stream_block_cipher(W, bs):
    def transform(W, st, a):
        s, so, d, do = a; so, do = bm.toint(so), bm.toint(do); N = _z(st.ghost['N'])
        rng(W, st, 'source', s, so, bs, 'cipher#transform'); rng(W, st, 'destination', d, do, bs, 'cipher#transform')
        st2, j = W.sint(st, 'j', 0, MAXSTR); u = st2.assume(j < bs)
        want = IN(simp_z(N + j)); pa = st.ghost.get('padded_at')
        if pa is not None: want = z3.If(j < _z(pa), want, PADN(j))
        W.prove(u, W.rd(u, u.get(s), simp(_z(so) + j)) == want, 'cipher receives the input bytes in order, block by block')
        ex = (st, 'exc', Con('CipherException'))
        st = W.wr_range(st, d, do, bs, lambda s_, k: OUT(simp_z(N + _z(k) - _z(do)))); st = st.gset('N', simp(N + bs))
        return [(st, 'val', UNIT), ex]
    return PyObj('cipher', dict(blocksize=(0, lambda W, st, a: [(st, 'val', bs)]), transform=(4, transform), wipe=(0, lambda W, st, a: [(st.gset('cipher.wiped', True), 'val', UNIT)])))
def stream_stream_cipher(W):
    def transform(W, st, a):
        s, so, d, do, n = a; so, do, n = bm.toint(so), bm.toint(do), bm.toint(n); N = _z(st.ghost['N'])
        rng(W, st, 'source', s, so, n, 'cipher#transform'); rng(W, st, 'destination', d, do, n, 'cipher#transform')
        st2, j = W.sint(st, 'j', 0, MAXSTR); u = st2.assume(j < n)
        W.prove(u, W.rd(u, u.get(s), simp(_z(so) + j)) == IN(simp_z(N + j)), 'cipher receives the input bytes in order')
        ex = (st, 'exc', Con('CipherException'))
        st = W.wr_range(st, d, do, n, lambda s_, k: OUT(simp_z(N + _z(k) - _z(do)))); st = st.gset('N', simp(N + n))
        return [(st, 'val', UNIT), ex]
    return PyObj('cipher', dict(transform=(5, transform), wipe=(0, lambda W, st, a: [(st.gset('cipher.wiped', True), 'val', UNIT)])))
def setup(W, kind, initial=False):
    """-> (st, object, invariant, block size) in an arbitrary reached state"""
    st = W.init().g(N=0, D=0, F=0); bs = None
    if kind == 'Stream.cipher': c = stream_stream_cipher(W); args = [c]
    else:
        st, bs = W.sint(st, 'bs', 1, 2**20); c = stream_block_cipher(W, bs); args = [c]
        if kind != 'Block.cipher': args = [padding(W, bs)] + args
    (st, o), = expect_vals(W, new(W, st, kind, args), kind)
    inv = Inv(o, bs, kind != 'Stream.cipher', kind == 'Block.cipher_padded_decrypt')
    inv.check(W, st, f'{kind}: invariant established by construction')
    cap_contract(W)
    st, D = W.sint(st, 'D', 0, BIG); st = st.gset('D', D); st, F = W.sint(st, 'F', 0, BIG); st = st.gset('F', F)
    st = inv.havoc(W, st, False); W.inv = inv
    W.bound_terms = [bs] if bs is not None else []
    live(W, [st], kind)
    return st, o, inv, bs
PADN = z3.Function('PADBYTE', Int, BV8); STRIP = z3.Int('STRIP')
def padding(W, bs):
    """contract of a padding scheme: pad keeps the used bytes and sets the rest; strip returns 0 .. blocksize or raises Bad_padding"""
    def pad(W, st, a):
        b, used = a; rec = st.get(b)
        W.prove(st, z3.And(_z(used) >= 0, _z(used) < bs, _z(rec.len) == bs), 'precondition of pad: 0 <= used < block size')
        st = st.gset('padded_at', used)
        return [(W.wr_range(st, b, used, simp(bs - _z(used)), lambda s_, i: PADN(_z(i))), 'val', UNIT)]
    def strip(W, st, a):
        rec = st.get(a[0]); W.prove(st, _z(rec.len) == bs, 'precondition of strip: a whole block')
        st2, j = W.sint(st, 'j', 0, MAXSTR); u = st2.assume(j < bs)
        W.prove(u, W.rd(u, rec, j) == OUT(simp_z(_z(st.ghost['N']) - bs + j)), 'strip examines the last decrypted block')
        return [(st.assume(z3.And(STRIP >= 0, STRIP < bs)), 'val', STRIP), (st, 'exc', err('Bad_padding'))]
    return PyObj('padding', dict(pad=(2, pad), strip=(1, strip)))
OKEXC = (lambda st, v: is_err(v, 'Output_buffer_overflow'), lambda st, v: v.name == 'CipherException')
def puts(W, kind):
    st0, o, inv, bs = setup(W, kind)
    P = inv.pos(W, st0)
    # put_substring: every offset and length
    nm = f'{kind}#put_substring'
    st, n = W.sint(st0, 'len'); st, ofs = W.sint(st, 'ofs'); st, src = bytes_of(W, st, 'src', lambda k: IN(simp_z(P + k)), ofs, n); s0 = st.get(src)
    ok = z3.And(_zb(bm.rng_ok(ofs, n, s0.len)))
    cur = [s0.len]
    def extra(W, stx, st_0, tv, written):
        d = {l: (c, e) for l, c, e in tv}; a, b = d.get(('slot', 1)), d.get(('slot', 2))
        if a is None or b is None: return []
        return [('progress', z3.Or(z3.And(b[0] == b[1], *[_z(d[l][0]) == _z(d[l][1]) for l in (('t', 'N'), ('t', 'P')) if l in d]), z3.And(_z(a[1]) >= 0, _z(a[0]) <= _z(cur[0]), (_z(b[0]) > 0 if inv.lazy else _z(b[0]) >= 0), _z(b[1]) > 0)))]
    W.extra = extra
    for t, k, v in W.send(st, o, 'put_substring', src, ofs, n):
        if k == 'exc':
            if v.name == 'Invalid_argument': W.prove(t, z3.Not(ok), f'{nm}: Invalid_argument only for an invalid range')
            elif not any(f(t, v) for f in OKEXC): W.fail(t, f'{nm}: exception', repr(v))
            continue
        W.prove(t, z3.Or(ok, n <= 0), f'{nm}: accepts only valid ranges (or non-positive lengths)')
        W.prove(t, inv.pos(W, t) == P + z3.If(n > 0, n, 0), f'{nm}: exactly the given bytes are consumed'); inv.check(W, t, nm)
        W.prove(t, z3.BoolVal(t.get(src) is s0), f'{nm}: source unchanged')
    # put_string
    nm = f'{kind}#put_string'; st, n = W.sint(st0, 'len', 0, MAXSTR); st, src = bytes_of(W, st, 'src', lambda k: IN(simp_z(P + k)), 0, n, n); cur[0] = n
    for t, v in expect_vals(W, W.send(st, o, 'put_string', src), nm, OKEXC):
        W.prove(t, inv.pos(W, t) == P + n, f'{nm}: exactly the given bytes are consumed'); inv.check(W, t, nm)
    # put_char, put_byte
    nm = f'{kind}#put_char'; st, c = st0, W.fbv('c'); st = st.assume(c == IN(simp_z(P)))
    for t, v in expect_vals(W, W.send(st, o, 'put_char', c), nm, OKEXC): W.prove(t, inv.pos(W, t) == P + 1, f'{nm}: one byte consumed'); inv.check(W, t, nm)
    nm = f'{kind}#put_byte'; b = z3.BitVec('b', 63); st = st0.assume(z3.Extract(7, 0, b) == IN(simp_z(P)))
    for t, v in expect_vals(W, W.send(st, o, 'put_byte', b), nm, OKEXC): W.prove(t, inv.pos(W, t) == P + 1, f'{nm}: one byte consumed'); inv.check(W, t, nm)
def gets(W, kind, mk=None):
    st0, o, inv, bs = (mk or setup)(W, kind); N, D = st0.ghost['N'], st0.ghost['D']; avail = N - D; st0, k = W.sint(st0, 'k', 0, MAXSTR); P = inv.pos(W, st0)
    nm = f'{kind}#available_output'
    for t, v in expect_vals(W, W.send(st0, o, 'available_output'), nm): W.prove(t, _z(v) == avail, nm); inv.check(W, t, nm)
    nm = f'{kind}#get_string'
    for t, v in expect_vals(W, W.send(st0, o, 'get_string'), nm):
        W.prove(t, _z(t.get(v).len) == avail, f'{nm}: returns all pending output'); u = t.assume(k < avail); W.prove(u, byte(W, u, v, k) == OUT(simp_z(D + k)), f'{nm}: bytes in order')
        inv.check(W, t.gset('D', N), nm); W.prove(t, inv.pos(W, t) == P, f'{nm}: input untouched')
    nm = f'{kind}#get_substring'
    for t, v in expect_vals(W, W.send(st0, o, 'get_substring'), nm):
        r, b, n = v; W.prove(t, z3.And(_z(n) == avail, bm.rng_ok(b, n, t.get(r).len)), f'{nm}: returns all pending output'); u = t.assume(k < avail); W.prove(u, byte(W, u, r, simp(_z(b) + k)) == OUT(simp_z(D + k)), f'{nm}: bytes in order')
        inv.check(W, t.gset('D', N), nm); W.prove(t, inv.pos(W, t) == P, f'{nm}: input untouched')
    for m in ('get_char', 'get_byte'):
        nm = f'{kind}#{m}'
        for t, kd, v in W.send(st0, o, m):
            if kd == 'exc':
                if v.name == 'End_of_file': W.prove(t, avail == 0, f'{nm}: End_of_file only when no output is pending'); inv.check(W, t, nm)
                else: W.fail(t, nm, repr(v))
                continue
            W.prove(t, avail > 0, f'{nm}: returns only when output is pending')
            W.prove(t, (v if m == 'get_char' else z3.Extract(7, 0, v)) == OUT(simp_z(_z(D))), f'{nm}: next byte')
            if m == 'get_byte': W.prove(t, z3.ULT(v, 256), f'{nm}: result is a byte')
            inv.check(W, t.gset('D', simp(D + 1)), nm)
def ends(W, kind):
    st0, o, inv, bs = setup(W, kind); N, D = st0.ghost['N'], st0.ghost['D']; P = inv.pos(W, st0); used = _z(W.fld(st0, o, 'used')) if inv.block else None
    ms = ['flush', 'finish']
    for m in ms:
        nm = f'{kind}#{m}'
        for t, kd, v in W.send(st0, o, m):
            pe = m == 'finish' and kind == 'Block.cipher_padded_encrypt'; pd = m == 'finish' and kind == 'Block.cipher_padded_decrypt'
            if kd == 'exc':
                if is_err(v, 'Wrong_data_length') and inv.block and not pe: W.prove(t, used != bs if pd else z3.And(used != 0, used != bs), f'{nm}: wrong-length error only for a partial block')
                elif is_err(v, 'Bad_padding') and pd: pass
                elif not any(f(t, v) for f in OKEXC): W.fail(t, f'{nm}: exception', repr(v))
                continue
            if pe:
                # one more block, made of the rest of the input and the padding
                full = z3.If(used == bs, bs, 0); N2 = t.ghost['N']
                W.prove(t, z3.And(N2 == N + full + bs, _z(t.ghost.get('padded_at', -1)) == z3.If(used == bs, 0, used)), f'{nm}: the rest of the input is padded to one more block')
                out_check(W, t, o, nm, D, simp(N2 - D))
            elif pd:
                W.prove(t, used == bs, f'{nm}: accepts only whole blocks'); out_check(W, t, o, nm, D, simp(N - D + STRIP)); W.prove(t, t.ghost['N'] == N + bs, f'{nm}: last block decrypted')
            elif inv.block:
                W.prove(t, z3.And(z3.Or(used == 0, used == bs), t.ghost['N'] == P, _z(W.fld(t, o, 'used')) == 0), f'{nm}: all input is processed'); inv.check(W, t.gset('F', t.ghost['N']), nm)
            else: inv.check(W, t, nm); W.prove(t, _z(t.ghost['N']) == N, nm)
def out_check(W, t, o, nm, D, n):
    b, e, r = _z(W.fld(t, o, 'obeg')), _z(W.fld(t, o, 'oend')), W.fld(t, o, 'obuf'); t, k = W.sint(t, 'k', 0, MAXSTR)
    W.prove(t, z3.And(b >= 0, e - b == n, e <= _z(t.get(r).len)), f'{nm}: amount of output'); u = t.assume(k < n); W.prove(u, W.rd(u, u.get(r), simp(b + k)) == OUT(simp_z(D + k)), f'{nm}: output bytes in order')
def sizes(W):
    for kind, i, oo in (('Block.cipher', 'b', 'b'), ('Block.cipher_padded_encrypt', 1, 'b'), ('Block.cipher_padded_decrypt', 'b', 1), ('Stream.cipher', 1, 1)):
        st, o, inv, bs = setup(W, kind)
        for m, w in (('input_block_size', i), ('output_block_size', oo)):
            for t, v in expect_vals(W, W.send(st, o, m), m): W.prove(t, _z(v) == (bs if w == 'b' else w), f'{kind}#{m}')
        W.inv = None; W.over.clear()
UNITS = {'ensure-capacity': unit(ensure_capacity), 'sizes': unit(sizes)}
for _k in ('Block.cipher', 'Stream.cipher', 'Block.cipher_padded_encrypt', 'Block.cipher_padded_decrypt'):
    _s = _k.lower().replace('.', '-').replace('_', '-')
    UNITS[_s + '-put'] = unit(lambda W, k=_k: puts(W, k)); UNITS[_s + '-get'] = unit(lambda W, k=_k: gets(W, k)); UNITS[_s + '-finish'] = unit(lambda W, k=_k: ends(W, k))
