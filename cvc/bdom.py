"""Bits domain for core.Exec: symbolic values are tuples of Bank literals (LSB first)."""
from ir import Unsupported
from core import Violation, Ptr, Obj, cbin, cicmp, sx
import bits as B

class BitsDom:
    def __init__(self, bank=None, flat=None):
        self.b = bank or B.Bank(flat=flat)
        self.ex = None
        self.memids = {}
        self.fresh = 0
        self.assumed = []
    def norm(self, t):
        v = B.Bank.as_int(t)
        return t if v is None else v
    def tup(self, v, w):
        if type(v) is int: return tuple((v >> i) & 1 for i in range(w))
        if type(v) is not tuple: raise Unsupported(f'non-bits value {type(v)}')
        if len(v) != w: raise Unsupported(f'width {len(v)} vs {w}')
        return v
    # -- ops ------------------------------------------------------------------
    def bin(self, op, a, b, w):
        if type(a) is int and type(b) is int: return cbin(op, a, b, w)
        bk = self.b
        if op in ('shl', 'lshr', 'ashr'):
            if type(b) is not int:
                # symbolic shift amount: barrel
                bt = self.tup(b, w); at = a
                k = max(1, (w - 1).bit_length())
                for i in range(k, w):
                    if bt[i] > 1: raise Unsupported('symbolic shift amount')
                for i in range(k):
                    if bt[i] == 0: continue
                    if (1 << i) >= w: raise Unsupported('symbolic shift amount')
                    sh = self.bin(op, at, 1 << i, w)
                    at = self.ite((bt[i],), sh, at, w)
                return at
            a = self.tup(a, w)
            if b >= w: raise Violation('shift-amount', f'{w}-bit shift by {b}')
            if b == 0: return a
            if op == 'shl': r = (0,) * b + a[:w - b]
            elif op == 'lshr': r = a[b:] + (0,) * b
            else: r = a[b:] + (a[-1],) * b
            return self.norm(r)
        A = self.tup(a, w); C = self.tup(b, w)
        if op == 'xor': f = bk.xor; return self.norm(tuple(f(x, y) for x, y in zip(A, C)))
        if op == 'and': f = bk.and_; return self.norm(tuple(f(x, y) for x, y in zip(A, C)))
        if op == 'or': f = bk.or_; return self.norm(tuple(f(x, y) for x, y in zip(A, C)))
        if op == 'add': return self.norm(bk.add([(1, A), (1, C)], 0, w))
        if op == 'sub': return self.norm(bk.add([(1, A), ((1 << w) - 1, C)], 0, w))
        if op == 'mul':
            if type(a) is int: A, C, a, b = C, A, b, a
            if type(b) is int:
                nz = [i for i, l in enumerate(A) if l]
                if len(nz) == 1:
                    i, l = nz[0], A[nz[0]]
                    c = (b << i) & ((1 << w) - 1)
                    return tuple(l if (c >> j) & 1 else 0 for j in range(w))
                return self.norm(bk.add([(b, A)], 0, w))
            raise Unsupported('symbolic multiplication')
        if op in ('udiv', 'urem') and type(b) is int and b and b & (b - 1) == 0:
            k = b.bit_length() - 1
            if op == 'udiv': return self.norm(A[k:] + (0,) * k)
            return self.norm(A[:k] + (0,) * (w - k))
        if op in ('sdiv', 'srem') and type(b) is int and b and b & (b - 1) == 0 and A[-1] == 0:
            k = b.bit_length() - 1
            if op == 'sdiv': return self.norm(A[k:] + (0,) * k)
            return self.norm(A[:k] + (0,) * (w - k))
        raise Unsupported('bits ' + op)
    def icmp(self, p, a, b, w):
        if type(a) is int and type(b) is int: return cicmp(p, a, b, w)
        A = self.tup(a, w); C = self.tup(b, w); bk = self.b
        if p in ('eq', 'ne'):
            r = bk.eq(A, C)
            if p == 'ne': r ^= 1
        else:
            if p[0] == 's':
                A = A[:-1] + (A[-1] ^ 1,); C = C[:-1] + (C[-1] ^ 1,)
            q = p[1:]
            if q == 'lt': r = bk.ult(A, C)
            elif q == 'ge': r = bk.ult(A, C) ^ 1
            elif q == 'gt': r = bk.ult(C, A)
            else: r = bk.ult(C, A) ^ 1
        return r if r < 2 else (r,)
    def zext(self, v, w1, w2): return self.tup(v, w1) + (0,) * (w2 - w1)
    def sext(self, v, w1, w2):
        v = self.tup(v, w1); return self.norm(v + (v[-1],) * (w2 - w1))
    def extract(self, v, lo, w): return self.norm(v[lo:lo + w])
    def byte(self, v, i, n): return self.norm(v[8 * i:8 * i + 8])
    def concat(self, bs):
        r = ()
        for b in bs: r += self.tup(b, 8)
        return self.norm(r)
    def concatw(self, els, ew):
        r = ()
        for e in els: r += self.tup(e, ew)
        return self.norm(r)
    def ite(self, c, a, b, w):
        if type(c) is int: return a if c else b
        A = self.tup(a, w); C = self.tup(b, w); f = self.b.ite; c0 = c[0]
        if w >= 8 and A != C:
            # c ? x + k : x  is  x + k * c
            at = self.b.addtab
            if A in at or C in at:
                ta, ka = at.get(A, (((A, 1),), 0)); tc, kc = at.get(C, (((C, 1),), 0))
                if ta == tc:
                    z = (c0,) + (0,) * (w - 1)
                    return self.norm(self.b.add([(1, C), ((ka - kc) & ((1 << w) - 1), z)], 0, w))
        return self.norm(tuple(f(c0, x, y) for x, y in zip(A, C)))
    def branch(self, c, f, blk): return None
    def assume(self, c, val): self.assumed.append((c, val))
    def switch(self, v, w, cases): raise Unsupported('symbolic switch')
    def undef_byte(self, o, i):
        self.fresh += 1
        return self.b.word(('undef', o.name, i, self.fresh), 8)
    # -- symbolic addressing -------------------------------------------------------
    def enum(self, off):
        d = self.b.addtab.get(off)
        if d is not None:
            # sum of words plus a constant: enumerate over the leaves of the words
            lits = []
            for ww, cc in d[0]:
                for l in ww:
                    if l > 1 and (l & ~1) not in lits: lits.append(l & ~1)
            if len(lits) > 10: raise Unsupported('symbolic address with %d unknown bits' % len(lits))
            out = []
            for x in range(1 << len(lits)):
                val = {lits[j]: (x >> j) & 1 for j in range(len(lits))}
                a = d[1]
                for ww, cc in d[0]:
                    v = 0
                    for i, l in enumerate(ww): v |= (l if l < 2 else val[l & ~1] ^ (l & 1)) << i
                    a += cc * v
                out.append(sx(a & (2**64 - 1), 64))
            return lits, out
        lits = []
        for l in off:
            if l > 1 and (l & ~1) not in lits: lits.append(l & ~1)
        if len(lits) > 10: raise Unsupported('symbolic address with %d unknown bits' % len(lits))
        out = []
        for x in range(1 << len(lits)):
            val = {lits[j]: (x >> j) & 1 for j in range(len(lits))}
            a = 0
            for i, l in enumerate(off):
                bit = l if l < 2 else val[l & ~1] ^ (l & 1)
                a |= bit << i
            out.append(sx(a, 64))
        return lits, out
    def sym_bounds(self, p, n, what, write):
        off = p.off
        if type(off) is int or type(p.o.size) is not int: raise Unsupported('bits: symbolic size')
        lits, addrs = self.enum(off)
        for a in addrs:
            if a < 0 or a + n > p.o.size:
                raise Violation('bounds', f'{what} of {n} bytes may reach offset {a} of {p.o.name} (size {p.o.size}) in {self.ex.where()}')
    def sym_load(self, p, n):
        o = p.o
        if o.cells is None: raise Unsupported('bits: closure object')
        lits, addrs = self.enum(p.off)
        ex = self.ex
        cells = {}
        for a in addrs:
            for i in range(n):
                if a + i not in cells: cells[a + i] = ex.getbyte(o, a + i)
        k = len(lits)
        if all(type(c) is int for c in cells.values()):
            vals = [int.from_bytes(bytes(cells[a + i] for i in range(n)), 'little') for a in addrs]
            if k > 8: raise Unsupported('large constant table')
            out = []
            for bit in range(8 * n):
                tt = 0
                for x, v in enumerate(vals): tt |= ((v >> bit) & 1) << x
                out.append(self.b.lut(lits, tt))
            return self.norm(tuple(out))
        words = []
        for a in addrs:
            w = ()
            for i in range(n): w += self.tup(cells[a + i], 8)
            words.append(w)
        if k <= 4:
            return self.norm(self.rm(lits, words, 8 * n))
        key = tuple(words)
        mid = self.memids.get(key)
        if mid is None: mid = self.memids[key] = len(self.memids)
        return self.b.uf(('sel', mid, n), (tuple(lits),), 8 * n)
    def rm(self, lits, words, w):
        """Reed-Muller expansion of the selection words[idx]"""
        bk = self.b
        coef = [list(x) for x in words]
        k = len(lits)
        for i in range(k):
            for x in range(1 << k):
                if (x >> i) & 1:
                    coef[x] = [bk.xor(p, q) for p, q in zip(coef[x], coef[x ^ (1 << i)])]
        mono = {}
        out = []
        for x in range(1 << k):
            m = 1
            for i in range(k):
                if (x >> i) & 1: m = bk.and_(m, lits[i])
            mono[x] = m
        for j in range(w):
            terms = []
            for x in range(1 << k):
                c = coef[x][j]
                if c == 0: continue
                if x == 0: terms.append(c); continue
                terms += self.prod(mono[x], c)
            out.append(bk.xorn(terms))
        return tuple(out)
    def prod(self, a, c):
        """product distributed over a small XOR"""
        bk = self.b
        n = c >> 1
        if n and bk.kind[n] == 'X' and len(bk.data[n]) <= 64:
            r = [bk.and_(a, 2 * x) for x in bk.data[n]]
            if c & 1: r.append(a)
            return r
        return [bk.and_(a, c)]
    def clmul(self, a, b, w):
        A = self.tup(a, w); C = self.tup(b, w)
        out = [[] for _ in range(2 * w)]
        for i in range(w):
            for j in range(w):
                if A[i] and C[j]: out[i + j].append(self.b.and_(A[i], C[j]))
        return self.norm(tuple(self.b.xorn(t) for t in out))
    def sym_store(self, p, v, n):
        lits, addrs = self.enum(p.off)
        ex = self.ex; bk = self.b
        V = self.tup(v, 8 * n)
        for x, a in enumerate(addrs):
            c = 1
            for i, l in enumerate(lits): c = bk.and_(c, l if (x >> i) & 1 else l ^ 1)
            for i in range(n):
                old = self.tup(ex.getbyte(p.o, a + i), 8)
                nv = tuple(bk.ite(c, V[8 * i + j], old[j]) for j in range(8))
                ex.setcell(p.o, a + i, self.norm(nv))
    def sym_memcpy(self, dst, src, n, move): raise Unsupported('bits: symbolic memcpy')
    def sym_memset(self, dst, c, n): raise Unsupported('bits: symbolic memset')

class Wd:
    """spec-side word: works concretely (d is None) or in a BitsDom"""
    __slots__ = ('d', 'v', 'w')
    def __init__(s, d, v, w): s.d = d; s.v = v; s.w = w
    def _b(s, op, o):
        ov = o.v if isinstance(o, Wd) else o & ((1 << s.w) - 1)
        if type(s.v) is int and type(ov) is int: return Wd(s.d, cbin(op, s.v, ov, s.w), s.w)
        return Wd(s.d, s.d.bin(op, s.v, ov, s.w), s.w)
    def __add__(s, o): return s._b('add', o)
    __radd__ = __add__
    def __sub__(s, o): return s._b('sub', o)
    def __xor__(s, o): return s._b('xor', o)
    __rxor__ = __xor__
    def __and__(s, o): return s._b('and', o)
    __rand__ = __and__
    def __or__(s, o): return s._b('or', o)
    def __invert__(s): return s._b('xor', (1 << s.w) - 1)
    def __lshift__(s, n): return s._b('shl', n) if n else s
    def __rshift__(s, n): return s._b('lshr', n) if n else s
    def rotl(s, n):
        n %= s.w
        if n == 0: return s
        if type(s.v) is int: return Wd(s.d, ((s.v << n) | (s.v >> (s.w - n))) & ((1 << s.w) - 1), s.w)
        return Wd(s.d, s.v[s.w - n:] + s.v[:s.w - n], s.w)
    def rotr(s, n): return s.rotl(s.w - n % s.w)
    def bytes_le(s):
        return [Wd(s.d, (s.v >> (8 * i)) & 255 if type(s.v) is int else s.d.byte(s.v, i, s.w // 8), 8) for i in range(s.w // 8)]
    def bytes_be(s): return s.bytes_le()[::-1]
    def bit(s, i):
        return Wd(s.d, (s.v >> i) & 1 if type(s.v) is int else s.d.extract(s.v, i, 1), 1)

def cat_le(bs):
    """little-endian concatenation of Wd bytes/words"""
    d = bs[0].d; w = sum(b.w for b in bs)
    if all(type(b.v) is int for b in bs):
        v = 0; sh = 0
        for b in bs: v |= b.v << sh; sh += b.w
        return Wd(d, v, w)
    r = ()
    for b in bs: r += d.tup(b.v, b.w)
    return Wd(d, r, w)
def cat_be(bs): return cat_le(bs[::-1])
def lut8(x, table, w=8):
    """table lookup, x an n-bit Wd"""
    if type(x.v) is int: return Wd(x.d, table[x.v], w)
    out = []
    for bit in range(w):
        tt = 0
        for i, t in enumerate(table): tt |= ((t >> bit) & 1) << i
        out.append(x.d.b.lut(list(x.v), tt))
    return Wd(x.d, x.d.norm(tuple(out)), w)
