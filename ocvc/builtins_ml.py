"""Semantics of the OCaml standard library functions the library uses (trusted base of ocvc).
int: Python int, z3 Int (mathematical, wrapped by World.fit) or 63-bit bit-vector (results of Char.code and of
bit operations); char: 8-bit bit-vector; string and bytes: Ref to Buf; int64: I64; Z.t: Zn."""
import z3
from eng import *
from eng import _z, _zb

def inv(msg=''): return Con('Invalid_argument', msg)
def bits_of(v):
    """BV63 -> list of (bit expression or 0/1)"""
    return [simp_bit(z3.simplify(z3.Extract(i, i, v))) for i in range(v.size())]
def simp_bit(b): return b.as_long() if z3.is_bv_value(b) else b
def toint(v, signed=True):
    if is_int(v): return v
    if is_bv(v):
        n = v.size(); out = 0; cnt = 0; terms = []
        for i, b in enumerate(bits_of(v)):
            w = -(1 << i) if (i == n - 1 and signed and n != 8) else (1 << i)
            if isinstance(b, int): out += w * b
            else:
                cnt += 1; terms.append(z3.If(b == 1, z3.IntVal(w), z3.IntVal(0)))
        if cnt > 24: raise Unsupported('wide bit-vector used as a number')
        return simp(z3.Sum(*terms, z3.IntVal(out))) if terms else out
    raise Unsupported('integer expected')
def tobv(v, w=63):
    if isinstance(v, int): return z3.BitVecVal(v, w)
    if is_bv(v, w): return v
    raise Unsupported('bit operation on a symbolic integer')
def bvr(x): return sbv(x)
def code(c): return bvr(z3.ZeroExt(55, c)) if not z3.is_bv_value(c) else c.as_long()
def arith(name, fz, fbv):
    def fn(W, st, a):
        x, y = a
        if (is_bv(x) or is_bv(y)) and (is_bv(x, 63) or isinstance(x, int)) and (is_bv(y, 63) or isinstance(y, int)): return [(st, 'val', bvr(fbv(tobv(x), tobv(y))))]
        x, y = toint(x), toint(y)
        return [(t, 'val', v) for t, v in W.fit(st, fz(x, y))]
    return Bi(name, 2, fn)
def cmpop(name, fz, fbv, fcon=None):
    def fn(W, st, a):
        x, y = a
        if isinstance(x, I64) and isinstance(y, I64): return [(st, 'val', simp(fz(_z(x.v), _z(y.v))) if isz(x.v) or isz(y.v) else fz(x.v, y.v))]
        if isinstance(x, Zn) and isinstance(y, Zn): return [(st, 'val', simp(fz(_z(x.v), _z(y.v))))]
        if is_bv(x, 8) and is_bv(y, 8): return [(st, 'val', simp({'<': z3.ULT, '>': z3.UGT, '<=': z3.ULE, '>=': z3.UGE}[name](x, y)))]
        if (is_bv(x) or is_bv(y)) and (is_bv(x, 63) or isinstance(x, int)) and (is_bv(y, 63) or isinstance(y, int)): return [(st, 'val', simp(fbv(tobv(x), tobv(y))))]
        x, y = toint(x), toint(y)
        if isinstance(x, int) and isinstance(y, int): return [(st, 'val', fz(x, y))]
        return [(st, 'val', simp(fz(_z(x), _z(y))))]
    return Bi(name, 2, fn)
def eqop(W, st, x, y):
    if is_bv(x) != is_bv(y) and not isinstance(x, int) and not isinstance(y, int) and (is_int(x) or is_int(y)): x, y = toint(x), toint(y)
    return W.equal(st, x, y)
def tdiv(x, y):
    """truncated division by a positive constant"""
    if isinstance(x, int): return abs(x) // y * (1 if x >= 0 else -1)
    return z3.If(x >= 0, x / y, -((-x) / y))
def trem(x, y):
    if isinstance(x, int): return abs(x) % y * (1 if x >= 0 else -1)
    return z3.If(x >= 0, x % y, -((-x) % y))
def divop(W, st, a):
    x, y = toint(a[0]), a[1]
    if not isinstance(y, int) or y <= 0: raise Unsupported('division')
    return [(st, 'val', simp(tdiv(x, y)))]
def modop(W, st, a):
    x, y = toint(a[0]), a[1]
    if not isinstance(y, int) or y <= 0: raise Unsupported('mod')
    if W.entails(st, _z(x) >= 0): return [(st, 'val', simp(_z(x) % y))]
    return [(st, 'val', simp(trem(x, y)))]
def landop(W, st, a):
    x, y = a
    if isinstance(x, int) and not isinstance(y, int): x, y = y, x
    if isz(x) and is_int(x) and isinstance(y, int) and y >= 0 and (y + 1) & y == 0: return [(st, 'val', simp(x % (y + 1)))]
    if isz(x) and is_int(x) and isinstance(y, int) and y > 0 and y & (y - 1) == 0: return [(st, 'val', simp((x / y) % 2 * y))]
    return [(st, 'val', bvr(tobv(x) & tobv(y)))]
def lslop(W, st, a):
    out = []
    for t, k in W.concretize(st, a[1], 64):
        x = a[0]
        if isz(x) and is_int(x): out += [(u, 'val', v) for u, v in W.fit(t, x * 2**k)]
        else: out.append((t, 'val', bvr(tobv(x) << k)))
    return out
def lsrop(W, st, a):
    out = []
    for t, k in W.concretize(st, a[1], 64):
        x = a[0]
        if isz(x) and is_int(x):
            if not W.entails(t, x >= 0): raise Unsupported('lsr of a negative number')
            out.append((t, 'val', simp(x / 2**k)))
        else: out.append((t, 'val', bvr(z3.LShR(tobv(x), k))))
    return out
def B(W, st, r):
    rec = st.heap.get(r.id) if isinstance(r, Ref) else None
    if not isinstance(rec, Buf): raise Unsupported('string expected')
    return rec
def guard(W, st, cond, ok, exc=None):
    """if cond then ok(st) else raise"""
    out = []
    for t, b in W.branch(st, cond):
        if b: out += ok(t)
        else: out.append((t, 'exc', exc or inv()))
    return out
def lenf(W, st, a): return [(st, 'val', simp(B(W, st, a[0]).len))]
def getf(W, st, a):
    rec = B(W, st, a[0]); i = toint(a[1]) if not (rec.cells is not None and is_bv(a[1], 63) and len(rec.cells) <= 256) else a[1]
    if is_bv(i):
        return guard(W, st, z3.ULT(i, len(rec.cells)), lambda t: [(t, 'val', W.rd(t, rec, i))])
    return guard(W, st, simp(z3.And(_z(i) >= 0, _z(i) < _z(rec.len))), lambda t: [(t, 'val', W.rd(t, rec, i))])
def setf(W, st, a):
    r, i, c = a; rec = B(W, st, r); i = toint(i)
    return guard(W, st, simp(z3.And(_z(i) >= 0, _z(i) < _z(rec.len))), lambda t: [(W.wr_range(t, r, i, 1, lambda s_, k: c), 'val', UNIT)])
def rng_ok(ofs, n, length): return simp(z3.And(_z(ofs) >= 0, _z(n) >= 0, _z(ofs) <= _z(length) - _z(n)))
def newbuf(W, st, n, fn):
    """fn None: unknown contents; fn(st, i) otherwise"""
    n = simp(n)
    if isinstance(n, int) and n <= 600:
        if fn is None: cells = tuple(W.fbv('u', 8) for _ in range(n))
        else: cells = tuple(simp_bv(fn(st, i)) for i in range(n))
        return W.alloc(st, Buf(n, cells=cells))
    if fn is None: f = W.ffun('u', Int, BV8); fn = lambda s_, i: f(_z(i))
    return W.alloc(st, Buf(n, base=fn))
def createf(W, st, a):
    n = toint(a[0]); 
    def ok(t): t, r = newbuf(W, t, n, None); return [(t, 'val', r)]
    return guard(W, st, simp(z3.And(_z(n) >= 0, _z(n) <= MAXSTR)), ok)
def makef(W, st, a):
    n = toint(a[0]); c = a[1]
    def ok(t): t, r = newbuf(W, t, n, lambda s_, i: c); return [(t, 'val', r)]
    return guard(W, st, simp(z3.And(_z(n) >= 0, _z(n) <= MAXSTR)), ok)
def fillf(W, st, a):
    r, o, n, c = a; rec = B(W, st, r); o = toint(o); n = toint(n)
    return guard(W, st, rng_ok(o, n, rec.len), lambda t: [(W.wr_range(t, r, o, n, lambda s_, k: c), 'val', UNIT)])
def subf(W, st, a):
    r, o, n = a; rec = B(W, st, r); o = toint(o); n = toint(n)
    def ok(t): t, q = newbuf(W, t, n, lambda s_, i: W.rd(s_, rec, simp(_z(o) + _z(i)))); return [(t, 'val', q)]
    return guard(W, st, rng_ok(o, n, rec.len), ok)
def copyf(W, st, a): return subf(W, st, [a[0], 0, B(W, st, a[0]).len])
def idf(W, st, a): B(W, st, a[0]); return [(st, 'val', a[0])]
def blit_range(W, st, s, so, d, do, n):
    rs = B(W, st, s)
    return W.wr_range(st, d, do, n, lambda s_, k: W.rd(s_, rs, simp(_z(so) + (_z(k) - _z(do)))))
def blitf(W, st, a):
    s, so, d, do, n = a; rs, rd_ = B(W, st, s), B(W, st, d); so, do, n = toint(so), toint(do), toint(n)
    return guard(W, st, simp(z3.And(_zb(rng_ok(so, n, rs.len)), _zb(rng_ok(do, n, rd_.len)))), lambda t: [(blit_range(W, t, s, so, d, do, n), 'val', UNIT)])
def catf(W, st, a):
    x, y = B(W, st, a[0]), B(W, st, a[1]); lx, ly = simp(x.len), simp(y.len)
    def fn(s_, i):
        c = simp(_z(i) < _z(lx))
        if c is True: return W.rd(s_, x, i)
        if c is False: return W.rd(s_, y, simp(_z(i) - _z(lx)))
        return z3.If(c, W.rd(s_, x, i), W.rd(s_, y, simp(_z(i) - _z(lx))))
    def ok(t): t, q = newbuf(W, t, simp(_z(lx) + _z(ly)), fn); return [(t, 'val', q)]
    return guard(W, st, simp(_z(lx) + _z(ly) <= MAXSTR), ok)
def iterf(W, st, a):
    f, s = a; rec = B(W, st, s)
    return W.for_loop(st, 0, simp(_z(rec.len) - 1), True, lambda t, i: W.call(t, f, W.rd(t, rec, i)))
I64BYTE = z3.Function('int64_byte', Int, Int, BV8)      # byte k (0 = least significant) of a 64-bit number
def i64byte(v, k):
    if isinstance(v, int): return chr_((v >> (8 * k)) & 255)
    return I64BYTE(v, z3.IntVal(k))
def seti64(be):
    def fn(W, st, a):
        r, o, v = a; rec = B(W, st, r); o = toint(o)
        def ok(t):
            for k in range(8): t = W.wr_range(t, r, simp(_z(o) + k), 1, lambda s_, i, k=k: i64byte(v.v, 7 - k if be else k))
            return [(t, 'val', UNIT)]
        return guard(W, st, rng_ok(o, 8, rec.len), ok)
    return Bi('set_int64', 3, fn)
def chrf(W, st, a):
    v = a[0]
    if is_bv(v, 63): return guard(W, st, simp(z3.ULE(v, 255)), lambda t: [(t, 'val', simp_bv(z3.Extract(7, 0, v)))])
    return guard(W, st, simp(z3.And(_z(v) >= 0, _z(v) <= 255)), lambda t: charof(W, t, v))
def charof(W, t, v):
    if isinstance(v, int): return [(t, 'val', chr_(v))]
    c = W.fbv('chr', 8); return [(t.assume(toint(c) == v), 'val', c)]
def uchrf(W, st, a):
    v = a[0]
    if is_bv(v, 63): return [(st, 'val', simp_bv(z3.Extract(7, 0, v)))]
    if isinstance(v, int): return [(st, 'val', chr_(v & 255))]
    return charof(W, st, simp(v % 256))
def raisef(W, st, a): return [(st, 'exc', a[0])]
def invf(W, st, a): return [(st, 'exc', inv())]
def notf(W, st, a): return [(st, 'val', (not a[0]) if isinstance(a[0], bool) else simp(z3.Not(a[0])))]
def minmax(mx):
    def fn(W, st, a):
        x, y = a
        if isinstance(x, I64): raise Unsupported('min')
        x, y = toint(x), toint(y)
        if isinstance(x, int) and isinstance(y, int): return [(st, 'val', max(x, y) if mx else min(x, y))]
        c = simp(_z(x) >= _z(y) if mx else _z(x) <= _z(y))
        if W.entails(st, _zb(c)): return [(st, 'val', x)]
        if W.entails(st, z3.Not(_zb(c))): return [(st, 'val', y)]
        return [(st, 'val', z3.If(c, _z(x), _z(y)))]
    return Bi('max' if mx else 'min', 2, fn)
def reff(W, st, a): st, r = W.alloc(st, Cell(a[0])); return [(st, 'val', r)]
def dereff(W, st, a): return [(st, 'val', st.get(a[0]).v)]
def assignf(W, st, a): return [(st.put(a[0], Cell(a[1])), 'val', UNIT)]
def amake(W, st, a):
    if not isinstance(a[0], int): raise Unsupported('Array.make')
    st, r = W.alloc(st, Arr((a[1],) * a[0])); return [(st, 'val', r)]
def aget(W, st, a):
    n = len(st.get(a[0]).vs); out = []
    for t, b in W.branch(st, simp(z3.And(_z(toint(a[1])) >= 0, _z(toint(a[1])) < n))):
        if not b: out.append((t, 'exc', inv())); continue
        for u, i in W.concretize(t, a[1]): out.append((u, 'val', u.get(a[0]).vs[i]))
    return out
def aset(W, st, a):
    n = len(st.get(a[0]).vs); out = []
    for t, b in W.branch(st, simp(z3.And(_z(toint(a[1])) >= 0, _z(toint(a[1])) < n))):
        if not b: out.append((t, 'exc', inv())); continue
        for u, i in W.concretize(t, a[1]): vs = list(u.get(a[0]).vs); vs[i] = a[2]; out.append((u.put(a[0], Arr(tuple(vs))), 'val', UNIT))
    return out
def afill(W, st, a):
    r, o, n, v = a; vs = list(st.get(r).vs)
    if not (isinstance(o, int) and isinstance(n, int)) or o < 0 or n < 0 or o + n > len(vs): raise Unsupported('Array.fill')
    vs[o:o + n] = [v] * n; return [(st.put(r, Arr(tuple(vs))), 'val', UNIT)]
def i64op(f):
    def fn(W, st, a): return [(t, 'val', I64(v)) for t, v in W.fit(st, f(*[x.v for x in a]), -2**63, 2**63 - 1, 2**64)]
    return fn
def i64shl(W, st, a):
    out = []
    for t, k in W.concretize(st, a[1], 64):
        if not isinstance(a[0].v, int): raise Unsupported('shift_left')
        v = (a[0].v << k) % 2**64; out.append((t, 'val', I64(v - 2**64 if v >= 2**63 else v)))
    return out
def i64and(W, st, a):
    x, y = a[0].v, a[1].v
    if isinstance(x, int) and isinstance(y, int): return [(st, 'val', I64(x & y))]
    if isinstance(y, int) and y >= 0 and y & (y + 1) == 0: return [(st, 'val', I64(simp(_z(x) % (y + 1))))]
    raise Unsupported('Int64.logand')
def i64ofint(W, st, a): return [(st, 'val', I64(toint(a[0])))]
def i64toint(W, st, a): return [(t, 'val', v) for t, v in W.fit(st, a[0].v)]
DEC = z3.Function('decimal_digit', Int, Int, BV8); DECLEN = z3.Function('decimal_length', Int, Int)
def sofint(W, st, a):
    n = toint(a[0])
    if isinstance(n, int): st, r = W.lit(st, str(n).encode()); return [(st, 'val', r)]
    st = st.assume(z3.And(DECLEN(n) >= 1, DECLEN(n) <= 20)); st, r = newbuf(W, st, DECLEN(n), lambda s_, i: DEC(n, _z(i))); return [(st, 'val', r)]
def mod(items): return Mod(Env(None, items), items)
# ---- Z
def zn(x): return x.v
ZF = {n: z3.Function('Z_' + n, *([Int] * (k + 1))) for n, k in dict(powm=3, mul=2, rem=2, erem=2, div=2, gcd=2, lcm=2, invert=2, numbits=1, nextprime=1).items()}
def z1(name, k):
    def fn(W, st, a): return [(st, 'val', Zn(ZF[name](*[_z(x.v) for x in a])))]
    return Bi('Z.' + name, k, fn)
def zcompare(W, st, a):
    x, y = _z(a[0].v), _z(a[1].v); return [(st, 'val', simp(z3.If(x < y, z3.IntVal(-1), z3.If(x == y, z3.IntVal(0), z3.IntVal(1)))))]
def zbool(f): return lambda W, st, a: [(st, 'val', simp(f(*[_z(x.v) for x in a])))]
def base_env(W):
    b = {}
    def d(n, k, f): b[n] = Bi(n, k, f)
    b['+'] = arith('+', lambda x, y: x + y, lambda x, y: x + y); b['-'] = arith('-', lambda x, y: x - y, lambda x, y: x - y)
    b['*'] = arith('*', lambda x, y: x * y, lambda x, y: x * y)
    d('/', 2, divop); d('mod', 2, modop); d('land', 2, landop); d('lsl', 2, lslop); d('lsr', 2, lsrop)
    d('lor', 2, lambda W, st, a: [(st, 'val', bvr(tobv(a[0]) | tobv(a[1])))]); d('lxor', 2, lambda W, st, a: [(st, 'val', bvr(tobv(a[0]) ^ tobv(a[1])))])
    d('=', 2, lambda W, st, a: [(st, 'val', eqop(W, st, *a))])
    d('<>', 2, lambda W, st, a: [(st, 'val', (lambda e: (not e) if isinstance(e, bool) else simp(z3.Not(e)))(eqop(W, st, *a)))])
    b['<'] = cmpop('<', lambda x, y: x < y, lambda x, y: x < y); b['>'] = cmpop('>', lambda x, y: x > y, lambda x, y: x > y)
    b['<='] = cmpop('<=', lambda x, y: x <= y, lambda x, y: x <= y); b['>='] = cmpop('>=', lambda x, y: x >= y, lambda x, y: x >= y)
    d('~-', 1, lambda W, st, a: [(t, 'val', v) for t, v in W.fit(st, -toint(a[0]))])
    d('not', 1, notf); b['min'] = minmax(False); b['max'] = minmax(True)
    d('ref', 1, reff); d('!', 1, dereff); d(':=', 2, assignf)
    d('raise', 1, raisef); d('invalid_arg', 1, invf); d('failwith', 1, lambda W, st, a: [(st, 'exc', Con('Failure'))]); d('ignore', 1, lambda W, st, a: [(st, 'val', UNIT)])
    d('^', 2, catf); d('string_of_int', 1, sofint)
    d('fst', 1, lambda W, st, a: [(st, 'val', a[0][0])]); d('snd', 1, lambda W, st, a: [(st, 'val', a[0][1])])
    d('succ', 1, lambda W, st, a: [(t, 'val', v) for t, v in W.fit(st, toint(a[0]) + 1)]); d('pred', 1, lambda W, st, a: [(t, 'val', v) for t, v in W.fit(st, toint(a[0]) - 1)])
    d('incr', 1, lambda W, st, a: [(t.put(a[0], Cell(v)), 'val', UNIT) for t, v in W.fit(st, toint(st.get(a[0]).v) + 1)])
    d('decr', 1, lambda W, st, a: [(t.put(a[0], Cell(v)), 'val', UNIT) for t, v in W.fit(st, toint(st.get(a[0]).v) - 1)])
    def S(n, k, f): return Bi(n, k, f)
    common = dict(length=S('length', 1, lenf), get=S('get', 2, getf), make=S('make', 2, makef), blit=S('blit', 5, blitf), iter=S('iter', 2, iterf), sub=S('sub', 3, subf), copy=S('copy', 1, copyf), unsafe_get=S('get', 2, getf),
                  init=S('init', 2, initf))
    b['String'] = mod(dict(common)); 
    b['Bytes'] = mod(dict(common, set=S('set', 3, setf), create=S('create', 1, createf), fill=S('fill', 4, fillf), sub_string=S('sub_string', 3, subf), of_string=S('of_string', 1, copyf), to_string=S('to_string', 1, copyf),
                      unsafe_of_string=S('unsafe_of_string', 1, idf), unsafe_to_string=S('unsafe_to_string', 1, idf), blit_string=S('blit_string', 5, blitf), cat=S('cat', 2, catf),
                      set_int64_be=seti64(True), set_int64_le=seti64(False)))
    b['Char'] = mod(dict(code=S('code', 1, lambda W, st, a: [(st, 'val', code(a[0]))]), chr=S('chr', 1, chrf), unsafe_chr=S('unsafe_chr', 1, uchrf)))
    b['Array'] = mod(dict(make=S('make', 2, amake), get=S('get', 2, aget), set=S('set', 3, aset), fill=S('fill', 4, afill), length=S('length', 1, lambda W, st, a: [(st, 'val', len(st.get(a[0]).vs))])))
    b['Int64'] = mod(dict(zero=I64(0), one=I64(1), max_int=I64(2**63 - 1), min_int=I64(-2**63), add=S('add', 2, i64op(lambda x, y: x + y)), sub=S('sub', 2, i64op(lambda x, y: x - y)), mul=S('mul', 2, i64op(lambda x, y: x * y)), pred=S('pred', 1, i64op(lambda x: x - 1)),
                      succ=S('succ', 1, i64op(lambda x: x + 1)), shift_left=S('shift_left', 2, i64shl), logand=S('logand', 2, i64and), of_int=S('of_int', 1, i64ofint), to_int=S('to_int', 1, i64toint)))
    b['Sys'] = mod(dict(max_string_length=MAXSTR))
    b['Callback'] = mod(dict(register_exception=S('register_exception', 2, lambda W, st, a: [(st, 'val', UNIT)])))
    b['Z'] = mod(dict(zero=Zn(0), one=Zn(1), of_int=S('of_int', 1, lambda W, st, a: [(st, 'val', Zn(toint(a[0])))]), compare=S('compare', 2, zcompare), equal=S('equal', 2, zbool(lambda x, y: x == y)),
                      add=S('add', 2, lambda W, st, a: [(st, 'val', Zn(simp(_z(a[0].v) + _z(a[1].v))))]), sub=S('sub', 2, lambda W, st, a: [(st, 'val', Zn(simp(_z(a[0].v) - _z(a[1].v))))]),
                      mul=z1('mul', 2), rem=z1('rem', 2), erem=z1('erem', 2), div=z1('div', 2), gcd=z1('gcd', 2), lcm=z1('lcm', 2), powm=z1('powm', 3), powm_sec=S('powm_sec', 3, powmsec), invert=z1('invert', 2), nextprime=z1('nextprime', 1),
                      numbits=S('numbits', 1, lambda W, st, a: [(st, 'val', ZF['numbits'](_z(a[0].v)))]), sign=S('sign', 1, lambda W, st, a: zcompare(W, st, [a[0], Zn(0)])),
                      is_even=S('is_even', 1, zbool(lambda x: x % 2 == 0)), is_odd=S('is_odd', 1, zbool(lambda x: x % 2 != 0)),
                      of_bits=S('of_bits', 1, lambda W, st, a: W.z_of_bits(W, st, a)), to_bits=S('to_bits', 1, lambda W, st, a: W.z_to_bits(W, st, a))))
    return Env(None, b)
def initf(W, st, a): raise Unsupported('String.init')
def powmsec(W, st, a):
    """contract of Z.powm_sec: positive exponent, odd modulus; otherwise Invalid_argument"""
    return guard(W, st, simp(z3.And(_z(a[1].v) > 0, _z(a[2].v) % 2 != 0)), lambda t: [(t, 'val', Zn(ZF['powm'](*[_z(x.v) for x in a])))])
