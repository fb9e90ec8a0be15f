"""Exact integer arithmetic domain: a machine word is a polynomial with integer coefficients over
bounded atoms, together with an interval; shifts and masks introduce quotient atoms
(v = 2^k q + r, 0 <= r < 2^k).  Wrap-around is never ignored: a result that may leave the word is
reduced with a quotient atom.  Undecided comparisons fork the path."""
import z3
from ir import Unsupported
from core import *

class Atom:
    __slots__ = ('id', 'name', 'lo', 'hi', 'base', 'k')
    def __repr__(s): return s.name
class PV:
    """poly: {tuple of atom ids: coefficient}; lo <= value <= hi"""
    __slots__ = ('p', 'lo', 'hi')
    def __init__(s, p, lo, hi): s.p = p; s.lo = lo; s.hi = hi
    def __repr__(s): return f'[{s.lo:x},{s.hi:x}]'
def padd(a, b, m=1):
    r = dict(a)
    for k, v in b.items():
        n = r.get(k, 0) + m * v
        if n: r[k] = n
        else: r.pop(k, None)
    return r
def pmul(a, b):
    r = {}
    for k, v in a.items():
        for l, w in b.items():
            t = tuple(sorted(k + l)); n = r.get(t, 0) + v * w
            if n: r[t] = n
            else: r.pop(t, None)
    return r
def val2(n): return (n & -n).bit_length() - 1
class Fork(Exception): pass

class PDom:
    def __init__(self, run):
        self.run = run; self.atoms = []; self.memo = {}; self.cons = []; self.s = None; self.n = 0
    # -- atoms -------------------------------------------------------------------------
    def atom(self, name, lo, hi):
        a = Atom(); a.id = len(self.atoms); a.name = name; a.lo = lo; a.hi = hi; a.base = None; self.atoms.append(a)
        return PV({(a.id,): 1}, lo, hi)
    def pint(self, p):
        lo = hi = 0
        for m, c in p.items():
            l = h = 1
            for i in m:
                a = self.atoms[i]; xs = (l * a.lo, l * a.hi, h * a.lo, h * a.hi); l, h = min(xs), max(xs)
            if c < 0: l, h = h, l
            lo += c * l; hi += c * h
        return lo, hi
    def mk(self, p, lo=None, hi=None):
        l, h = self.pint(p)
        lo = l if lo is None else max(l, lo); hi = h if hi is None else min(h, hi)
        if lo > hi: raise PathEnd('infeasible')
        if not p or len(p) == 1 and () in p: return p.get((), 0)
        if lo == hi: self.cons.append(('eq', p, lo))
        return PV(p, lo, hi)
    def P(self, v): return PV({(): v} if v else {}, v, v) if type(v) is int else v
    # -- quotient ------------------------------------------------------------------------
    def quo(self, p, k, lo=None, hi=None):
        """floor(p / 2^k) as a polynomial"""
        if k == 0: return p
        A = {m: c >> k for m, c in p.items() if c % (1 << k) == 0}
        B = {m: c for m, c in p.items() if c % (1 << k)}
        if () in B:        # constant: take out the multiple of 2^k
            c = B[()]; q = c >> k
            if q: A = padd(A, {(): q}); B = padd(B, {(): -(q << k)})
        if not B: return A
        # low part below 2^j, rest a multiple of 2^j
        vs = sorted({val2(c) for c in B.values()}, reverse=True)
        for j in vs:
            if j == 0 or j > k: continue
            low = {m: c for m, c in B.items() if val2(c) < j}
            l, h = self.pint(low)
            if 0 <= l and h < 1 << j: return padd(A, self.quo({m: c >> j for m, c in B.items() if val2(c) >= j}, k - j))
        l, h = self.pint(B)
        if not A:
            if lo is not None: l = max(l, lo)
            if hi is not None: h = min(h, hi)
        if l >> k == h >> k: return padd(A, {(): l >> k} if l >> k else {})
        # floor((M + floor(B0 / 2^k0)) / 2^k) = floor((2^k0 M + B0) / 2^(k + k0))
        qs = [m for m, c in B.items() if c == 1 and len(m) == 1 and self.atoms[m[0]].base is not None]
        if qs:
            m = max(qs); a = self.atoms[m[0]]; M = {x: c << a.k for x, c in B.items() if x != m}
            return padd(A, self.quo(padd(M, dict(a.base)), a.k + k))
        key = (frozenset(B.items()), k)
        q = self.memo.get(key)
        if q is None:
            q = self.atom(f'q{len(self.atoms)}', l >> k, h >> k); a = self.atoms[-1]; a.base = tuple(B.items()); a.k = k
            self.memo[key] = q; self.cons.append(('rem', B, q.p, k))
        return padd(A, q.p)
    def shr(self, v, k): 
        v = self.P(v); return self.mk(self.quo(v.p, k, v.lo, v.hi), v.lo >> k, v.hi >> k)
    def rem(self, v, k):
        v = self.P(v)
        if v.lo >> k == v.hi >> k:
            b = (v.lo >> k) << k
            return self.mk(padd(v.p, {(): -b} if b else {}), v.lo - b, v.hi - b)
        return self.mk(padd(v.p, {m: c << k for m, c in self.quo(v.p, k, v.lo, v.hi).items()}, -1), 0, (1 << k) - 1)
    def wrap(self, v, w):
        """value of v in a w-bit word; a carry of at most one is a case split"""
        if type(v) is int: return v & ((1 << w) - 1)
        if v.lo >= 0 and v.hi < 1 << w: return v
        l, h = v.lo >> w, v.hi >> w
        if h - l == 1:
            b = h << w
            if self.run.decide(self, self.ge(v, b)): return self.mk(padd(v.p, {(): -b} if b else {}), 0, v.hi - b)
            b = l << w
            return self.mk(padd(v.p, {(): -b} if b else {}), v.lo - b, (1 << w) - 1)
        return self.rem(v, w)
    def ge(self, v, b): return ('ge', v, b)
    # -- dom interface -----------------------------------------------------------------
    def bin(self, op, a, b, w):
        A, B = self.P(a), self.P(b)
        if op == 'add': return self.wrap(self.mk(padd(A.p, B.p), A.lo + B.lo, A.hi + B.hi), w)
        if op == 'sub': return self.wrap(self.mk(padd(A.p, B.p, -1), A.lo - B.hi, A.hi - B.lo), w)
        if op == 'mul': return self.wrap(self.mk(pmul(A.p, B.p), A.lo * B.lo, A.hi * B.hi), w)
        if op == 'shl':
            if type(b) is not int: raise Unsupported('symbolic shift')
            if b >= w: raise Violation('shift-amount', f'{b}')
            r = self.P(self.rem(a, w - b)); return self.mk({m: c << b for m, c in r.p.items()}, r.lo << b, r.hi << b)
        if op == 'lshr':
            if type(b) is not int: raise Unsupported('symbolic shift')
            if b >= w: raise Violation('shift-amount', f'{b}')
            return self.shr(a, b)
        if op == 'and':
            if type(a) is int: a, b = b, a
            if type(b) is not int:
                if A.lo == A.hi: a, b = b, A.lo
                elif B.lo == B.hi: b = B.lo
            if type(b) is not int: raise Unsupported('and of two symbolic words')
            r = 0; i = 0
            while b >> i:
                if not (b >> i) & 1: i += 1; continue
                j = i
                while (b >> j) & 1: j += 1
                hi = self.P(a).hi
                if i == 0 or hi >> i:
                    x = self.P(self.shr(a, i) if hi < 1 << j else self.rem(self.shr(a, i), j - i))
                    R = self.P(r); r = self.mk(padd(R.p, {m: c << i for m, c in x.p.items()}), R.lo + (x.lo << i), R.hi + (x.hi << i))
                i = j
            return r
        if op in ('or', 'xor'):
            if op == 'xor' and b == (1 << w) - 1 or op == 'xor' and a == (1 << w) - 1:
                x = A if type(b) is int else B
                return self.mk(padd({(): (1 << w) - 1}, x.p, -1), (1 << w) - 1 - x.hi, (1 << w) - 1 - x.lo)
            for x, y in ((A, B), (B, A)):
                n = y.hi.bit_length()
                if all(c % (1 << n) == 0 for c in x.p.values()): return self.mk(padd(x.p, y.p), x.lo + y.lo, x.hi + y.hi)
            for x, y in ((A, B), (B, A)):      # disjoint by the path's linear facts?
                n = min((val2(c) for c in x.p.values()), default=0)
                if self.run is not None and n and y.hi < 1 << (n + 1) and y.lo >= 0 and not self.run.decide(self, self.ge(y, 1 << n)):
                    return self.mk(padd(x.p, y.p), x.lo + y.lo, x.hi + (1 << n) - 1)
            raise Unsupported(f'{op} of overlapping words')
        raise Unsupported(op)
    def icmp(self, p, a, b, w):
        A, B = self.P(a), self.P(b)
        if p[0] == 's':
            if A.hi >> (w - 1) or B.hi >> (w - 1): raise Unsupported('signed comparison')
        D = self.P(self.mk(padd(A.p, B.p, -1), A.lo - B.hi, A.hi - B.lo))
        if p in ('eq', 'ne'):
            if D.lo > 0 or D.hi < 0: return int(p == 'ne')
            if D.lo == D.hi == 0: return int(p == 'eq')
            t = self.run.decide(self, ('eq', D, 0)); return int(t == (p == 'eq'))
        q = p[1:]
        if q == 'ge': c = (D, 0, True)
        elif q == 'gt': c = (D, 1, True)
        elif q == 'lt': c = (D, 0, False)
        else: c = (D, 1, False)
        if D.lo >= c[1]: t = True
        elif D.hi < c[1]: t = False
        else: t = self.run.decide(self, ('ge', D, c[1]))
        return int(t == c[2])
    def zext(self, v, w1, w2): return v
    def sext(self, v, w1, w2):
        if self.P(v).hi >> (w1 - 1): raise Unsupported('sign extension')
        return v
    def extract(self, v, lo, w): 
        x = self.shr(v, lo)
        return x & ((1 << w) - 1) if type(x) is int else (x if x.hi < 1 << w else self.rem(x, w))
    def byte(self, v, i, n): return self.extract(v, 8 * i, 8)
    def concatw(self, els, ew):
        r = 0
        for i, x in enumerate(els):
            R, X = self.P(r), self.P(x); r = self.mk(padd(R.p, {m: c << (i * ew) for m, c in X.p.items()}), R.lo + (X.lo << (i * ew)), R.hi + (X.hi << (i * ew)))
        return r
    def concat(self, bs): return self.concatw(bs, 8)
    def ite(self, c, a, b, w): raise Unsupported('select')
    def branch(self, c, f, blk): raise Unsupported('branch')
    def switch(self, v, w, cases): raise Unsupported('switch')
    def assume(self, c, v): raise Unsupported('assume')
    def undef_byte(self, o, i): self.n += 1; return self.atom(f'undef{self.n}', 0, 255)
    def sym_load(self, p, n): raise Unsupported('symbolic address')
    def sym_store(self, p, v, n): raise Unsupported('symbolic address')
    def sym_bounds(self, *a): raise Unsupported('symbolic address')
    def sym_memcpy(self, *a): raise Unsupported('symbolic memcpy')
    def sym_memset(self, *a): raise Unsupported('symbolic memset')
    # -- linear queries --------------------------------------------------------------------
    def zv(self, m):
        return z3.Int('x' + '_'.join(map(str, m))) if m else z3.IntVal(1)
    def zp(self, p): return z3.Sum([z3.IntVal(c) * self.zv(m) for m, c in p.items()]) if p else z3.IntVal(0)
    def hyps(self):
        out = []
        seen = set()
        def mono(p):
            for m in p:
                if m and m not in seen:
                    seen.add(m); l, h = self.pint({m: 1}); x = self.zv(m); out.append(z3.And(x >= l, x <= h))
        for a in self.atoms: mono({(a.id,): 1})
        for c in self.cons:
            if c[0] == 'rem':
                mono(c[1]); r = self.zp(c[1]) - z3.IntVal(1 << c[3]) * self.zp(c[2]); out += [r >= 0, r < z3.IntVal(1 << c[3])]
            elif c[0] == 'eq': mono(c[1]); out.append(self.zp(c[1]) == c[2])
            elif c[0] == 'cond': mono(c[1][1].p); out.append(self.zc(c[1]) if c[2] else z3.Not(self.zc(c[1])))
        return out
    def zc(self, c): return self.zp(c[1].p) >= c[2] if c[0] == 'ge' else self.zp(c[1].p) == c[2]
    def valid(self, goal, timeout=60000):
        s = z3.Solver(); s.set('timeout', timeout); s.add(*self.hyps()); s.add(z3.Not(goal))
        return s.check() == z3.unsat

class PRun:
    """explores every case split of a scenario"""
    MAX = 200
    def explore(self, scen):
        stack = [[]]; n = 0
        while stack:
            self.dec = stack.pop(); self.pos = 0; n += 1
            if n > self.MAX: raise Unsupported('too many cases')
            d = PDom(self); self.new = []
            try: scen(d)
            except PathEnd as e:
                if e.why != 'infeasible': raise
            for i in self.new: stack.append(self.dec[:i] + [not self.dec[i]])
        return n
    def decide(self, d, c):
        if self.pos < len(self.dec): r = self.dec[self.pos]
        else:
            s = z3.Solver(); s.set('timeout', 5000); s.add(*d.hyps())
            def poss(g):
                s.push(); s.add(g); r = s.check() != z3.unsat; s.pop(); return r
            g = d.zc(c); t = poss(g); f = poss(z3.Not(g))
            if not t and not f: raise PathEnd('infeasible')
            r = t
            if t and f: self.new.append(self.pos)
            self.dec.append(r)
        self.pos += 1
        d.cons.append(('cond', c, r)); return r
