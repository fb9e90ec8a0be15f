"""C28, C14 (shl1), C08: comparison, wipe, shift and padding functions, for every length"""
from oc import *
from oc import _z, _zb
def bit(c, i): return z3.Extract(i, i, c)

def counted(W, tag):
    """get function that counts its calls per string"""
    def fn(W, st, a):
        st = st.gset((tag, a[0].id), simp(_z(st.ghost[(tag, a[0].id)]) + 1)); return bm.getf(W, st, a)
    return Bi('get', 2, fn)
def seq_equal(W):
    st0, f = W.val(W.init(), 'seq_equal')
    for case in ('equal', 'different byte', 'different length'):
        st, a = W.symbuf(st0, 'a'); ra = st.get(a)
        if case == 'equal': st, b = W.alloc(st, Buf(ra.len, base=ra.base))
        elif case == 'different byte': st, b = W.symbuf(st, 'b', ra.len)
        else: st, b = W.symbuf(st, 'b'); st = st.assume(_z(st.get(b).len) != _z(ra.len))
        st, k = W.sint(st, 'k', 0, MAXSTR)
        if case == 'different byte': st = st.assume(z3.And(k < _z(ra.len), byte(W, st, a, k) != byte(W, st, b, k)))
        st = st.gset(('n', a.id), 0).gset(('n', b.id), 0)
        W.bound_terms = [ra.len]
        def extra(W, stx, s0, tv, written):
            d = {l: c for l, c, e in tv}; i, acc = d.get(('slot', 0)), d.get(('slot', 1)); out = []
            if isinstance(acc, int): acc = z3.BitVecVal(acc, 63)
            if case == 'different byte' and i is not None and is_bv(acc): out.append(('k', z3.Implies(k < i, acc != 0)))
            return out
        W.extra = extra
        live(W, [st], 'seq_equal ' + case)
        for t, v in expect_vals(W, W.call(st, f, bm_len(), counted(W, 'n'), a, b), 'seq_equal'):
            W.prove(t, _zb(v) == (case == 'equal'), f'seq_equal: result for {case}')
            if case != 'different length': W.prove(t, z3.And(_z(t.ghost[('n', a.id)]) == _z(ra.len), _z(t.ghost[('n', b.id)]) == _z(ra.len)), f'seq_equal: examines every byte ({case})')
        W.extra = None
    for nm in ('string_equal', 'bytes_equal'):
        # the instances pass the length and get functions of their type
        st, g = W.val(W.init(), nm)
        st, a = W.lit(st, b'ab'); st, b = W.lit(st, b'ab'); st, c = W.lit(st, b'ac'); st, d = W.lit(st, b'abc')
        for x, want in ((b, True), (c, False), (d, False)):
            for t, v in expect_vals(W, W.call(st, g, a, x), nm): W.prove(t, _zb(v) == want, f'{nm} is an instance of seq_equal')
def bm_len(): return Bi('length', 1, bm.lenf)
def wipe(W):
    st0, f = W.val(W.init(), 'wipe_bytes')
    for nm in ('wipe_bytes', 'wipe_string'):
        st0, f = W.val(st0, nm); st, b = W.symbuf(st0, 'b'); st, k = W.sint(st, 'k', 0, MAXSTR); L = _z(st.get(b).len)
        for t, v in expect_vals(W, W.call(st, f, b), nm): W.prove(t.assume(k < L), byte(W, t, b, k) == 0, f'{nm}: every byte is zero')
def shl1(W, alias):
    st, f = W.val(W.init(), 'shl1_bytes'); nm = 'shl1_bytes' + ('/in place' if alias else '')
    st, n = W.sint(st, 'len', 0, 2**30); st, src = W.symbuf(st, 'src'); dst = src
    st, so = W.sint(st, 'so', 0, 2**40); do = so
    if not alias: st, dst = W.symbuf(st, 'dst'); st, do = W.sint(st, 'do', 0, 2**40)
    s0, d0 = st.get(src), st.get(dst); st = st.assume(z3.And(so + n <= _z(s0.len), do + n <= _z(d0.len)))
    def spec(s_, k):   # byte k (absolute) of the result
        j = simp(_z(k) - _z(do)); cur = W.rd(s_, s0, simp(_z(so) + _z(j))); nxt = W.rd(s_, s0, simp(_z(so) + _z(j) + 1))
        return z3.Concat(z3.Extract(6, 0, cur), z3.If(_z(j) + 1 < n, z3.Extract(7, 7, nxt), z3.BitVecVal(0, 1)))
    def arr(stx, st_0, hid, vals):
        if hid != dst.id or len(vals) != 2: return None
        i = vals[1]
        return Buf(d0.len, base=d0.base, layers=((simp(do + _z(i) + 1), simp(n - 1 - _z(i)), spec),))
    def extra(W, stx, s_0, tv, written):
        d = {l: c for l, c, e in tv}; c, i = d.get(('slot', 0)), d.get(('slot', 1)); out = []
        if c is not None and i is not None: 
            c = c if is_bv(c) else z3.BitVecVal(c, 63) if isinstance(c, int) else None
            if c is not None: out.append(('carry', c == z3.If(_z(i) + 1 < n, z3.ZeroExt(62, z3.Extract(7, 7, W.rd(stx, s0, simp(so + _z(i) + 1)))), z3.BitVecVal(0, 63))))
        return out
    W.arr, W.extra = arr, extra; W.bound_terms = [n, z3.IntVal(0)]
    live(W, [st.assume(n > 3)], nm)
    st, x = W.sint(st, 'x', 0, MAXSTR); st = st.assume(x < _z(d0.len))
    for t, v in expect_vals(W, W.call(st, f, src, so, dst, do, n), nm):
        got = W.rd(t, t.get(dst), x)
        W.prove(t.assume(z3.And(x >= do, x < do + n)), got == spec(t, x), f'{nm}: shifted left by one bit'); W.prove(t.assume(z3.Or(x < do, x >= do + n)), got == W.rd(t, d0, x), f'{nm}: unchanged outside the range')
    W.arr = W.extra = None
# ---- padding
def pobj(W, name):
    st = W.init(); outs = W.instantiate(st, W.cls('Padding.' + name), []); (st, o), = expect_vals(W, outs, name); return st, o
def pad_length(W):
    st, o = pobj(W, 'length'); nm = 'Padding.length#pad'
    st, L = W.sint(st, 'L', 1, 255); st, used = W.sint(st, 'used', 0, 255); st = st.assume(used < L); st, b = W.symbuf(st, 'b', L); b0 = st.get(b)
    st, x = W.sint(st, 'x', 0, 255); st = st.assume(x < L)
    for t, v in expect_vals(W, W.send(st, o, 'pad', b, used), nm):
        got = byte(W, t, b, x)
        W.prove(t.assume(x < used), got == W.rd(t, b0, x), f'{nm}: data unchanged'); W.prove(t.assume(x >= used), bm.toint(got) == L - used, f'{nm}: every padding byte is the number of padding bytes')
def strip_length(W):
    st, o = pobj(W, 'length'); nm = 'Padding.length#strip'
    st, L = W.sint(st, 'L', 1, 255); st, b = W.symbuf(st, 'b', L); b0 = st.get(b); n = bm.toint(W.rd(st, b0, simp(L - 1)))
    st, x = W.sint(st, 'x', 0, 255); st = st.assume(x < L); last = W.rd(st, b0, simp(L - 1)); W.bound_terms = [L]
    def extra(W, stx, s_0, tv, written):
        i = {l: c for l, c, e in tv}.get(('slot', 0)); return [] if i is None else [('k', z3.Implies(z3.And(x >= L - n, x < i), W.rd(stx, b0, x) == last))]
    W.extra = extra
    k = z3.Int('kq'); valid = z3.And(n >= 1, n <= L, z3.ForAll([k], z3.Implies(z3.And(k >= L - n, k < L), b0.base(st, k) == last)))
    for t, kind, v in W.send(st, o, 'strip', b):
        W.prove(t, byte(W, t, b, x) == W.rd(t, b0, x), f'{nm}: buffer unchanged')
        if kind == 'exc':
            if is_err(v, 'Bad_padding'): W.prove(t, z3.Not(valid), f'{nm}: Bad_padding only for a block that cannot result from padding')
            else: W.fail(t, f'{nm}: exception', repr(v))
        else: W.prove(t, z3.And(n >= 1, n <= L, _z(v) == L - n, z3.Implies(x >= L - n, W.rd(t, b0, x) == last)), f'{nm}: returns only for valid padding, with the number of data bytes')
    W.extra = None
def pad_8000(W):
    st, o = pobj(W, '_8000'); nm = 'Padding._8000#pad'
    st, L = W.sint(st, 'L', 1, 2**30); st, used = W.sint(st, 'used', 0, 2**30); st = st.assume(used < L); st, b = W.symbuf(st, 'b', L); b0 = st.get(b)
    st, x = W.sint(st, 'x', 0, 2**30); st = st.assume(x < L); W.bound_terms = [L, used]
    def arr(stx, st_0, hid, vals):
        if hid != b.id or len(vals) != 1: return None
        e = st_0.heap[hid]; return Buf(L, base=lambda s_, i: W.rd(s_, e, i), layers=((simp(used + 1), simp(_z(vals[0]) - used - 1), lambda s_, i: chr_(0)),))
    W.arr = arr; live(W, [st.assume(L - used > 3)], nm)
    for t, v in expect_vals(W, W.send(st, o, 'pad', b, used), nm):
        got = byte(W, t, b, x)
        W.prove(t.assume(x < used), got == W.rd(t, b0, x), f'{nm}: data unchanged'); W.prove(t.assume(x == used), got == 0x80, f'{nm}: marker'); W.prove(t.assume(x > used), got == 0, f'{nm}: zeros')
    W.arr = None
def strip_8000(W):
    st, o = pobj(W, '_8000'); nm = 'Padding._8000#strip'
    st, L = W.sint(st, 'L', 1, 2**30); st, b = W.symbuf(st, 'b', L); b0 = st.get(b); st, x = W.sint(st, 'x', 0, 2**30); st = st.assume(x < L); W.bound_terms = [L]
    def extra(W, stx, s_0, tv, written):
        i = {l: c for l, c, e in tv}.get(('slot', 0)); return [] if i is None else [('k', z3.Implies(x > i, W.rd(stx, b0, x) == 0)), ('lo', _z(i) >= -1)]
    W.extra = extra; k = z3.Int('kq')
    for t, kind, v in W.send(st, o, 'strip', b):
        W.prove(t, byte(W, t, b, x) == W.rd(t, b0, x), f'{nm}: buffer unchanged')
        if kind == 'exc':
            if is_err(v, 'Bad_padding'): W.prove(t, z3.Not(z3.And(W.rd(t, b0, x) == 0x80, z3.ForAll([k], z3.Implies(z3.And(k > x, k < L), b0.base(t, k) == 0)))), f'{nm}: Bad_padding only for a block that cannot result from padding')
            else: W.fail(t, f'{nm}: exception', repr(v))
        else: W.prove(t, z3.And(_z(v) >= 0, _z(v) < L, W.rd(t, b0, v) == 0x80, z3.Implies(x > v, W.rd(t, b0, x) == 0)), f'{nm}: returns only for valid padding, with the number of data bytes')
    W.extra = None
UNITS = {'seq-equal': unit(seq_equal), 'wipe-bytes': unit(wipe), 'shl1': unit(lambda W: shl1(W, False)), 'shl1-inplace': unit(lambda W: shl1(W, True)),
         'pad-length': unit(pad_length), 'strip-length': unit(strip_length), 'pad-8000': unit(pad_8000), 'strip-8000': unit(strip_8000)}
