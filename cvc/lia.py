"""Translation of bit-vector formulas to linear integer arithmetic + uninterpreted functions.
Every model of the bit-vector formula yields a model of the translation (subterms outside the
fragment become unconstrained integers in range), so 'unsat' carries over; nothing else is used."""
import z3
K = z3
class Lia:
    def __init__(self, timeout=4000):
        self.s = z3.Solver(); self.s.set('timeout', timeout)
        self.memo = {}; self.keep = []; self.n = 0; self.fns = {}; self.pend = []; self.rng = {}
    def fresh(self, lo=None, hi=None):
        self.n += 1; v = z3.Int(f'i!{self.n}')
        if lo is not None: self.s.add(v >= lo)
        if hi is not None: self.s.add(v <= hi); self.rng[v.get_id()] = (lo, hi); self.keep.append(v)
        return v
    def add(self, c): self.pend.append(c)
    def flush(self):
        for c in self.pend: self.s.add(self.b(c))
        self.pend = []
    def unsat(self, c):
        self.flush()
        t = self.b(c)
        return self.s.check(t) == z3.unsat
    # linear forms: (dict atom-id -> coef, const); atoms are Int exprs in range of their width
    def b(self, e):
        k = ('b', e.get_id()); r = self.memo.get(k)
        if r is None: r = self.b_(e); self.memo[k] = r; self.keep.append(e)
        return r
    def b_(self, e):
        if z3.is_true(e): return z3.BoolVal(True)
        if z3.is_false(e): return z3.BoolVal(False)
        k = e.decl().kind(); ch = e.children()
        if k == z3.Z3_OP_AND: return z3.And(*[self.b(c) for c in ch])
        if k == z3.Z3_OP_OR: return z3.Or(*[self.b(c) for c in ch])
        if k == z3.Z3_OP_NOT: return z3.Not(self.b(ch[0]))
        if k == z3.Z3_OP_IMPLIES: return z3.Implies(self.b(ch[0]), self.b(ch[1]))
        if k == z3.Z3_OP_XOR: return z3.Xor(self.b(ch[0]), self.b(ch[1]))
        if k in (z3.Z3_OP_EQ, z3.Z3_OP_IFF):
            if z3.is_bool(ch[0]): return self.b(ch[0]) == self.b(ch[1])
            if z3.is_bv(ch[0]): return self.t(ch[0]) == self.t(ch[1])
        if k == z3.Z3_OP_DISTINCT and len(ch) == 2 and z3.is_bv(ch[0]): return self.t(ch[0]) != self.t(ch[1])
        if k == z3.Z3_OP_ITE: return z3.If(self.b(ch[0]), self.b(ch[1]), self.b(ch[2]))
        U = {z3.Z3_OP_ULEQ: '<=', z3.Z3_OP_ULT: '<', z3.Z3_OP_UGEQ: '>=', z3.Z3_OP_UGT: '>'}
        S = {z3.Z3_OP_SLEQ: '<=', z3.Z3_OP_SLT: '<', z3.Z3_OP_SGEQ: '>=', z3.Z3_OP_SGT: '>'}
        if k in U or k in S:
            x, y = self.t(ch[0]), self.t(ch[1])
            if k in S:
                w = ch[0].size(); x = self.signed(x, w); y = self.signed(y, w)
            o = U.get(k) or S.get(k)
            return x <= y if o == '<=' else x < y if o == '<' else x >= y if o == '>=' else x > y
        self.n += 1
        return z3.Bool(f'b!{self.n}')
    def signed(self, x, w):
        if z3.is_int_value(x): v = x.as_long(); return z3.IntVal(v - (1 << w) if v >> (w - 1) else v)
        return z3.If(x >= 1 << (w - 1), x - (1 << w), x)
    def t(self, e):
        """Int expression equal to the unsigned value of e"""
        k = ('t', e.get_id()); r = self.memo.get(k)
        if r is None: r = self.t_(e); self.memo[k] = r; self.keep.append(e)
        return r
    def lin(self, e):
        """linear form of e modulo 2^w"""
        w = e.size()
        if z3.is_bv_value(e): return {}, e.as_long()
        k = e.decl().kind(); ch = e.children()
        if k == z3.Z3_OP_BADD:
            d = {}; c = 0
            for x in ch:
                dx, cx = self.lin(x); c += cx
                for a, q in dx.items(): d[a] = d.get(a, 0) + q
            return d, c
        if k == z3.Z3_OP_BSUB and len(ch) == 2:
            d, c = self.lin(ch[0]); d = dict(d); d2, c2 = self.lin(ch[1])
            for a, q in d2.items(): d[a] = d.get(a, 0) - q
            return d, c - c2
        if k == z3.Z3_OP_BNEG:
            d, c = self.lin(ch[0]); return {a: -q for a, q in d.items()}, -c
        if k == z3.Z3_OP_BMUL and len(ch) == 2 and (z3.is_bv_value(ch[0]) or z3.is_bv_value(ch[1])):
            f, x = (ch[0].as_long(), ch[1]) if z3.is_bv_value(ch[0]) else (ch[1].as_long(), ch[0])
            if f >> (w - 1): f -= 1 << w
            d, c = self.lin(x); return {a: f * q for a, q in d.items()}, f * c
        if k == z3.Z3_OP_BSHL and z3.is_bv_value(ch[1]):
            f = 1 << ch[1].as_long(); d, c = self.lin(ch[0]); return {a: f * q for a, q in d.items()}, f * c
        if k == z3.Z3_OP_EXTRACT and e.params()[1] == 0:       # truncation is a ring homomorphism
            d, c = self.lin(ch[0]); return d, c
        v = self.t(e); self.rng.setdefault(v.get_id(), (0, (1 << w) - 1))
        self.keep.append(v); self.atoms = getattr(self, 'atoms', {}); self.atoms[v.get_id()] = v
        return {v.get_id(): 1}, 0
    def wrap(self, x, w, lo=None, hi=None):
        """x mod 2^w; lo <= x <= hi"""
        if lo is not None:
            if lo >= 0 and hi < 1 << w: self.rng[x.get_id()] = (lo, hi); self.keep.append(x); return x
            a, b = lo >> w, hi >> w
            if b - a == 1:
                v = z3.If(x >= b << w, x - (b << w) if b else x, x - (a << w) if a else x)
                q = self.fresh(); self.s.add(q >= a, q <= b); v = self.fresh(0, (1 << w) - 1); self.s.add(v == x - (1 << w) * q); return v
        q = self.fresh(); r = x - (1 << w) * q
        v = self.fresh(0, (1 << w) - 1); self.s.add(v == r); return v
    def t_(self, e):
        w = e.size(); M = 1 << w
        if z3.is_bv_value(e): return z3.IntVal(e.as_long())
        k = e.decl().kind(); ch = e.children()
        if k in (z3.Z3_OP_BADD, z3.Z3_OP_BSUB, z3.Z3_OP_BNEG, z3.Z3_OP_BSHL, z3.Z3_OP_BMUL) or k == z3.Z3_OP_EXTRACT and e.params()[1] == 0:
            ok = k not in (z3.Z3_OP_BMUL, z3.Z3_OP_BSHL) or z3.is_bv_value(ch[1]) or (k == z3.Z3_OP_BMUL and len(ch) == 2 and z3.is_bv_value(ch[0]))
            if ok:
                d, c = self.lin(e); x = []
                for a, q in d.items():
                    q %= M
                    if q >> (w - 1): q -= M
                    if q: x.append(q * self.atoms[a])
                c %= M
                if c >> (w - 1): c -= M
                if not x: return z3.IntVal(c % M)
                lo = hi = c
                for a, q in d.items():
                    q %= M
                    if q >> (w - 1): q -= M
                    l, h = self.rng[a]
                    if q > 0: lo += q * l; hi += q * h
                    elif q < 0: lo += q * h; hi += q * l
                return self.wrap(z3.Sum(x) + c if len(x) > 1 or c else x[0], w, lo, hi)
        if k == z3.Z3_OP_CONCAT:
            r = None; sh = 0; lo = hi = 0
            for x in reversed(ch):
                t = self.t(x); l, h = self.rng.get(t.get_id(), (0, (1 << x.size()) - 1))
                if z3.is_int_value(t): l = h = t.as_long()
                lo += l << sh; hi += h << sh
                if not (z3.is_int_value(t) and t.as_long() == 0):
                    t = t if sh == 0 else (1 << sh) * t
                    r = t if r is None else r + t
                sh += x.size()
            if r is None: return z3.IntVal(0)
            self.rng[r.get_id()] = (lo, hi); self.keep.append(r)
            return r
        if k == z3.Z3_OP_ZERO_EXT: return self.t(ch[0])
        if k == z3.Z3_OP_SIGN_EXT:
            x = self.t(ch[0]); w0 = ch[0].size(); return z3.If(x >= 1 << (w0 - 1), x + (M - (1 << w0)), x)
        if k == z3.Z3_OP_ITE: return z3.If(self.b(ch[0]), self.t(ch[1]), self.t(ch[2]))
        if k == z3.Z3_OP_EXTRACT:
            hi, lo = e.params(); x = self.t(ch[0]); y, _ = self.divmod(x, 1 << lo, ch[0].get_id())
            if hi == ch[0].size() - 1: return y
            return self.wrap(y, w)
        if k in (z3.Z3_OP_BLSHR, z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I) and z3.is_bv_value(ch[1]) and ch[1].as_long():
            f = ch[1].as_long(); f = 1 << f if k == z3.Z3_OP_BLSHR else f
            return self.divmod(self.t(ch[0]), f, ch[0].get_id())[0]
        if k in (z3.Z3_OP_BUREM, z3.Z3_OP_BUREM_I) and z3.is_bv_value(ch[1]) and ch[1].as_long(): return self.divmod(self.t(ch[0]), ch[1].as_long(), ch[0].get_id())[1]
        if k == z3.Z3_OP_BAND and len(ch) == 2 and (z3.is_bv_value(ch[0]) or z3.is_bv_value(ch[1])):
            m, x = (ch[0].as_long(), ch[1]) if z3.is_bv_value(ch[0]) else (ch[1].as_long(), ch[0])
            if m & (m + 1) == 0: return self.divmod(self.t(x), m + 1, x.get_id())[1]
            n = (~m) & (M - 1)
            if n & (n + 1) == 0: t = self.t(x); return t - self.divmod(t, n + 1, x.get_id())[1]
        if k == z3.Z3_OP_UNINTERPRETED and ch and all(z3.is_bv(c) for c in ch):
            f = self.fns.get(e.decl().name())
            if f is None: f = self.fns[e.decl().name()] = z3.Function('I' + e.decl().name(), *([z3.IntSort()] * (len(ch) + 1)))
            v = f(*[self.t(c) for c in ch]); self.s.add(v >= 0, v < M); return v
        if ch and all(z3.is_bv(c) for c in ch) and k != z3.Z3_OP_UNINTERPRETED and len(ch) <= 8:
            # any other operation: some function of the values of its operands
            if k in (z3.Z3_OP_BXOR, z3.Z3_OP_BAND, z3.Z3_OP_BOR, z3.Z3_OP_BADD, z3.Z3_OP_BMUL): ch = sorted(ch, key=lambda c: (c.decl().name(), c.num_args()))
            nm = f'{e.decl().name()}:{w}:' + ','.join(str(c.size()) for c in ch) + ''.join(f':{x}' for x in e.params() if isinstance(x, int))
            f = self.fns.get(nm)
            if f is None: f = self.fns[nm] = z3.Function('I' + nm, *([z3.IntSort()] * (len(ch) + 1)))
            v = f(*[self.t(c) for c in ch]); self.s.add(v >= 0, v < M); return v
        return self.fresh(0, M - 1)
    def divmod(self, x, f, key):
        m = self.memo.get(('d', key, f))
        if m is None:
            q = self.fresh(); r = self.fresh(0, f - 1); self.s.add(x == f * q + r, q >= 0); m = self.memo[('d', key, f)] = (q, r)
        return m
