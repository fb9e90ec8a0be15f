"""SMT domain for core.Exec (z3): symbolic 64-bit lengths and offsets, unbounded byte strings,
path enumeration by replay, loops cut at their header.

Loop invariants are inferred, not written per loop: modified variables with a constant step are
expressed in a shared iteration counter, the others are havocked and constrained by candidate
predicates (Houdini).  Contracts supply ghost counters, closed forms of the objects a loop may
modify, and the obligations raised by the operations of interest (stores, called functions)."""
import z3, time, itertools, copy, os
DEBUG = os.environ.get('CVC_DEBUG')
from ir import Unsupported
from lia import Lia
from core import Exec, Obj, Ptr, FnPtr, Violation, PathEnd, sx, cbin, cicmp, UNDEF, Agg
import ir as IR

class Restart(Exception): pass
class Stuck(Exception):
    """an obligation could not be proved on this path"""
    def __init__(s, name, detail, kind, model=None): Exception.__init__(s, name); s.name = name; s.detail = detail; s.kind = kind; s.model = model

def BV(v, w): return z3.BitVecVal(v, w) if type(v) is int else v
def isz(v): return isinstance(v, z3.ExprRef)
def nrm(v):
    """z3 expression -> int when constant"""
    if type(v) is int: return v
    if z3.is_bv_value(v): return v.as_long()
    v = z3.simplify(v)
    if z3.is_bv_value(v): return v.as_long()
    return v
def cast(v, w1, w2):
    if type(v) is int: return v & ((1 << w2) - 1)
    if w1 == w2: return v
    return z3.Extract(w2 - 1, 0, v) if w2 < w1 else z3.ZeroExt(w2 - w1, v)

BVOP = {'add': lambda a, b: a + b, 'sub': lambda a, b: a - b, 'mul': lambda a, b: a * b, 'and': lambda a, b: a & b, 'or': lambda a, b: a | b,
        'xor': lambda a, b: a ^ b, 'shl': lambda a, b: a << b, 'lshr': z3.LShR, 'ashr': lambda a, b: a >> b, 'udiv': z3.UDiv, 'urem': z3.URem,
        'sdiv': lambda a, b: a / b, 'srem': z3.SRem}
CMP = {'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b, 'ult': z3.ULT, 'ule': z3.ULE, 'ugt': z3.UGT, 'uge': z3.UGE,
       'slt': lambda a, b: a < b, 'sle': lambda a, b: a <= b, 'sgt': lambda a, b: a > b, 'sge': lambda a, b: a >= b}

class ZObj(Obj):
    """object of symbolic size; content: fn(index BV64) -> BV8"""
    __slots__ = ('fn', 'onstore')
    def __init__(s, name, size, fn, ro=False, kind='ocaml', meta=None):
        Obj.__init__(s, name, size, None, ro, kind, meta); s.cells = None; s.fn = fn; s.onstore = None
    def clone(s):
        n = ZObj(s.name, s.size, s.fn, s.ro, s.kind, dict(s.meta)); n.onstore = s.onstore; return n

class RObj(Obj):
    """object of concrete size in which bytes [lo, lo+n) are a buffer indexed symbolically: fn(index) -> BV8"""
    __slots__ = ('lo', 'n', 'fn', 'onstore')
    def __init__(s, name, size, cells, lo, n, fn, ro=False, kind='ocaml', meta=None):
        Obj.__init__(s, name, size, cells, ro, kind, meta); s.lo = lo; s.n = n; s.fn = fn; s.onstore = None
    def clone(s):
        return RObj(s.name, s.size, list(s.cells), s.lo, s.n, s.fn, s.ro, s.kind, dict(s.meta))
    def outside(s, off, n): return type(off) is int and type(n) is int and (off + n <= s.lo or off >= s.lo + s.n)

class ZDom:
    TO = 20000
    def __init__(self, U):
        self.U = U; self.ex = None
        self.s = z3.Solver(); self.s.set('timeout', self.TO); self.l = Lia()
        self.n = 0; self.wide = {}; self.inb = {}
    def fresh(self, name, w):
        self.n += 1
        return z3.BitVec(f'{name}!{self.n}', w)
    # -- logic -----------------------------------------------------------------
    def add(self, c):
        if c is True: return
        self.s.add(c); self.l.add(c)
    def sat(self, c):
        t = time.time()
        self.s.set('timeout', 120); r = self.s.check(c)
        if r == z3.unknown:
            if self.l.unsat(c): r = z3.unsat
            elif z3.is_not(c) and self.split(c.arg(0), [], [0]): r = z3.unsat
            else: self.s.set('timeout', self.TO); r = self.s.check(c)
        self.U.tsolve += time.time() - t; self.U.nq += 1
        return r
    # goals with conditionals and uninterpreted functions: case analysis and congruence, each leaf an arithmetic query
    def leaf(self, g, hyp):
        f = z3.And(*hyp, z3.Not(g)) if hyp else z3.Not(g)
        self.s.set('timeout', 300); r = self.s.check(f)
        if r == z3.unsat: return True
        return r == z3.unknown and self.l.unsat(f)
    def split(self, g, hyp, n):
        n[0] += 1
        if n[0] > 60: return False
        g = z3.simplify(g, local_ctx=False)
        if z3.is_true(g): return True
        k = g.decl().kind()
        if k == z3.Z3_OP_IMPLIES: return self.split(g.arg(1), hyp + [g.arg(0)], n)
        if k == z3.Z3_OP_AND: return all(self.split(x, hyp, n) for x in g.children())
        if k == z3.Z3_OP_OR:
            ch = list(g.children()); eq = [x for x in ch if x.decl().kind() == z3.Z3_OP_EQ and z3.is_bv(x.arg(0))]
            if not eq: return self.leaf(g, hyp)
            goal = max(eq, key=lambda x: len(x.sexpr())); return self.split(goal, hyp + [z3.Not(x) for x in ch if not x.eq(goal)], n)
        if k != z3.Z3_OP_EQ or not z3.is_bv(g.arg(0)): return self.leaf(g, hyp)
        ite = self.findite(g)
        if ite is None: return self.congr(g.arg(0), g.arg(1), hyp)
        c = ite.arg(0)
        for val, hc in ((ite.arg(1), c), (ite.arg(2), z3.Not(c))):
            if self.leaf(z3.BoolVal(False), hyp + [hc]): continue
            if not self.split(z3.substitute(g, (ite, val)), hyp + [hc], n): return False
        return True
    def findite(self, e):
        seen = set(); st = [e]
        while st:
            x = st.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if x.decl().kind() == z3.Z3_OP_ITE and z3.is_bv(x): return x
            if len(seen) > 3000: return None
            st += x.children()
        return None
    def congr(self, a, b, hyp):
        if a.eq(b): return True
        k = a.decl().kind()
        if k == b.decl().kind() and a.num_args() == b.num_args() and a.num_args() and a.decl().eq(b.decl()) and k not in (z3.Z3_OP_BADD, z3.Z3_OP_BSUB, z3.Z3_OP_BMUL):
            ca, cb = a.children(), b.children()
            if k in (z3.Z3_OP_BXOR, z3.Z3_OP_BOR, z3.Z3_OP_BAND):
                key = lambda x: (x.decl().name(), x.num_args()); ca = sorted(ca, key=key); cb = sorted(cb, key=key)
            if all(x.sort() == y.sort() and self.congr(x, y, hyp) for x, y in zip(ca, cb)): return True
        return self.leaf(a == b, hyp)
    def prove(self, name, c, quiet=False):
        """obligation under the current path condition"""
        if c is True: c = z3.BoolVal(True)
        if c is False: c = z3.BoolVal(False)
        if self.U.phase == 0 and not quiet: self.add(c); return True
        r = self.sat(z3.Not(c))
        if r == z3.unsat:
            if not quiet: self.U.proved(name); self.add(c)
            return True
        if quiet: return False
        if r == z3.sat: raise Stuck(name, 'does not hold', 'sat', self.s.model())
        raise Stuck(name, 'solver gave no answer', 'unknown')
    def valid(self, c):
        return self.sat(z3.Not(c)) == z3.unsat
    def branch(self, c, f, blk):
        if z3.is_bool(c): b = c
        elif c.decl().kind() == z3.Z3_OP_ITE and z3.is_bv_value(c.arg(1)) and z3.is_bv_value(c.arg(2)):
            x, y = c.arg(1).as_long(), c.arg(2).as_long()
            if x == y: return bool(x)
            b = c.arg(0) if x else z3.Not(c.arg(0))
        else: b = c == 1
        b1 = z3.simplify(b)
        if z3.is_true(b1): return True
        if z3.is_false(b1): return False
        return self.U.decide(self, b, f, blk)
    def assume(self, c, val): raise Unsupported('assume')
    def switch(self, v, w, cases):
        for c in cases:
            if self.branch(z3.If(v == c, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)), None, None): return c
        return None
    # -- values -------------------------------------------------------------------
    def bin(self, op, a, b, w):
        if type(a) is int and type(b) is int: return cbin(op, a, b, w)
        if op in ('shl', 'lshr', 'ashr') and type(b) is int and b >= w: raise Violation('shift-amount', f'{w}-bit shift by {b}')
        if op in ('shl', 'lshr', 'ashr') and type(b) is not int:
            self.prove('shift amount', z3.ULT(b, w))
        if op in ('udiv', 'urem', 'sdiv', 'srem') and type(b) is not int: self.prove('division by zero', b != 0)
        if op == 'mul' and w > 64 and self.U.hints.get('opaque') and type(a) is not int and type(b) is not int:
            return z3.Function(f'mul{w}', *[z3.BitVecSort(w)] * 3)(a, b)
        if op == 'mul' and type(b) is int and b and b & (b - 1) == 0: op, b = 'shl', b.bit_length() - 1
        elif op == 'mul' and type(a) is int and a and a & (a - 1) == 0: op, a, b = 'shl', b, a.bit_length() - 1
        elif op in ('udiv', 'urem') and type(b) is int and b and b & (b - 1) == 0:
            k = b.bit_length() - 1
            return nrm(z3.LShR(a, k) if op == 'udiv' else a & (b - 1))
        return nrm(BVOP[op](BV(a, w), BV(b, w)))
    def icmp(self, p, a, b, w):
        if type(a) is int and type(b) is int: return cicmp(p, a, b, w)
        c = CMP[p](BV(a, w), BV(b, w)); c1 = z3.simplify(c)
        if z3.is_true(c1): return 1
        if z3.is_false(c1): return 0
        return z3.If(c, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
    def widen(self, v, w1, w2, ext):
        """an extension of a machine sum, as the sum of the extensions when nothing overflows"""
        k = v.decl().kind()
        if k not in (z3.Z3_OP_BADD, z3.Z3_OP_BMUL, z3.Z3_OP_EXTRACT): return None
        h = (v.get_id(), w2, ext)
        if h in self.wide: return self.wide[h][1]
        def go(x):
            if z3.is_bv_value(x): return z3.BitVecVal(x.as_signed_long(), w2)
            k = x.decl().kind()
            if k == z3.Z3_OP_BADD: return z3.Sum([go(y) for y in x.children()])
            if k == z3.Z3_OP_BMUL and x.num_args() == 2 and z3.is_bv_value(x.arg(0)): return z3.BitVecVal(x.arg(0).as_signed_long(), w2) * go(x.arg(1))
            if k == z3.Z3_OP_EXTRACT and x.params()[1] == 0:
                y = x.arg(0)
                return y if y.size() == w2 else z3.ZeroExt(w2 - y.size(), y) if y.size() < w2 else z3.Extract(w2 - 1, 0, y)
            return z3.ZeroExt(w2 - w1, x)
        r = nrm(go(v)); e = z3.SignExt(w2 - w1, v) if ext else z3.ZeroExt(w2 - w1, v)
        if type(r) is int: r = None
        elif not self.valid(r == e): r = None
        self.wide[h] = (v, r); return r
    def zext(self, v, w1, w2):
        if w1 >= 16 and w2 <= 64:
            r = self.widen(v, w1, w2, False)
            if r is not None: return r
        return nrm(z3.ZeroExt(w2 - w1, v))
    def sext(self, v, w1, w2):
        if isinstance(v, (Ptr, FnPtr)): return v
        if type(v) is not int and w1 >= 16:
            r = self.widen(v, w1, w2, True)
            if r is not None: return r
        return nrm(z3.SignExt(w2 - w1, v)) if type(v) is not int else sx(v, w1) & ((1 << w2) - 1)
    def extract(self, v, lo, w): return nrm(z3.Extract(lo + w - 1, lo, v))
    def byte(self, v, i, n): return nrm(z3.Extract(8 * i + 7, 8 * i, v))
    def concat(self, bs):
        if len(bs) == 1: return bs[0]
        return nrm(z3.Concat(*[BV(b, 8) for b in reversed(bs)]))
    def concatw(self, els, ew): return nrm(z3.Concat(*[BV(b, ew) for b in reversed(els)]))
    def ite(self, c, a, b, w):
        if type(c) is int: return a if c else b
        if isinstance(a, (Ptr, FnPtr)) or isinstance(b, (Ptr, FnPtr)): return a if self.branch(c, None, None) else b
        return nrm(z3.If(c == 1, BV(a, w), BV(b, w)))
    def undef_byte(self, o, i): return self.fresh(f'undef.{o.name}', 8)
    def intrin(self, name, args, w):
        v = args[0]
        if 'ctlz' in name and w & (w - 1) == 0:
            # leading zeros = (w - 1) xor h, h the index of the highest set bit
            key = ('ctlz', v.get_id())
            if key in self.wide: return self.wide[key][1]
            self.prove('argument of the bit scan is not zero', v != 0)
            h = self.fresh('hi', w); p = z3.BitVecVal(1, w) << h
            self.add(z3.And(z3.ULT(h, w), p != 0, p & (p - 1) == 0, z3.ULE(p, v), z3.ULT(v - p, p)))
            r = nrm((w - 1) ^ h); self.wide[key] = (v, r); return r
        if 'ctpop' in name:
            f = z3.Function(f'popcount{w}', z3.BitVecSort(w), z3.BitVecSort(w)); r = f(v)
            self.add(z3.ULE(r, w)); return r
        raise Unsupported(name)
    # -- memory --------------------------------------------------------------------
    def sym_bounds(self, p, n, what, write):
        o = p.o; off = BV(p.off, 64); size = o.size
        if o.meta.get('len') is not None and write: size = o.meta['len']
        size = BV(size, 64); nn = BV(n, 64)
        if isinstance(o, RObj) and type(p.off) is not int:
            self.prove(f'access inside the buffer of {o.name} in {self.ex.where()}', z3.And(z3.UGE(off, o.lo), z3.ULE(nn, o.n), z3.ULE(off - o.lo, o.n - nn)))
            return
        # offsets are signed; sizes are below 2^62 so this cannot wrap when it holds
        # accesses at constant distances: what lies between two accesses in bounds is in bounds
        if type(n) is int and type(p.off) is not int:
            base, c = p.off, 0
            if base.decl().kind() == z3.Z3_OP_BADD and z3.is_bv_value(base.arg(0)): c = base.arg(0).as_signed_long(); base = nrm(base - c)
            h = (id(o), base.get_id() if isz(base) else base, size.get_id()); r = self.inb.get(h)
            okc = lambda a, b: z3.And(base + a >= 0, z3.ULE(b - a, size), z3.ULE(base + a, size - (b - a)))
            if r is not None:
                if r[0] <= c and c + n <= r[1]: return
                r[2] += 1
                if r[2] >= 2 and c + n > r[1]:
                    for g in (128, 32, 8):
                        if self.valid(okc(r[0], max(r[1], c + n + g))):
                            r[1] = max(r[1], c + n + g); self.U.proved(f'bounds: {what} in {self.ex.where()}'); return
            self.prove(f'bounds: {what} in {self.ex.where()}', okc(c, c + n))
            if r is None: self.inb[h] = [c, c + n, 0, base, o]
            else: r[0] = min(r[0], c); r[1] = max(r[1], c + n)
            return
        self.prove(f'bounds: {what} in {self.ex.where()}', z3.And(off >= 0, z3.ULE(nn, size), z3.ULE(off, size - nn)))
    def rd(self, o, k):
        """byte of o at index k (BV64 or int); no bounds check"""
        if isinstance(o, ZObj): return o.fn(BV(k, 64))
        k = nrm(k)
        if isinstance(o, RObj) and (type(k) is not int or o.lo <= k < o.lo + o.n): return o.fn(nrm(k - o.lo) if type(k) is not int else z3.BitVecVal(k - o.lo, 64))
        if type(k) is int:
            if not 0 <= k < len(o.cells): return self.fresh('oob', 8)
            return BV(self.cell(o, k), 8)
        lo, hi = self.U.cellrange(self, o, k)
        r = BV(self.cell(o, hi), 8)
        for j in range(hi - 1, lo - 1, -1): r = z3.If(k == j, BV(self.cell(o, j), 8), r)
        return r
    def cell(self, o, j):
        c = self.ex.getbyte(o, j)
        if type(c) is tuple: raise Unsupported('pointer bytes')
        return c
    def sym_load(self, p, n):
        return self.concat([nrm(self.rd(p.o, self.bin('add', p.off, i, 64))) for i in range(n)])
    def sym_store(self, p, v, n):
        o = p.o
        if isinstance(v, (Ptr, FnPtr)): raise Unsupported('pointer stored at a symbolic offset')
        if v is UNDEF: v = self.fresh('undef', 8 * n)
        bs = [nrm(self.byte(BV(v, 8 * n), i, n)) for i in range(n)]
        if isinstance(o, (ZObj, RObj)):
            self.zwrite(o, p.off, n, lambda k, bs=bs: self.pick(bs, k), bs); return
        for i, b in enumerate(bs):
            k = nrm(self.bin('add', p.off, i, 64))
            if type(k) is int: self.ex.setcell(o, k, b); continue
            lo, hi = self.U.cellrange(self, o, k)
            for j in range(lo, hi + 1):
                self.ex.setcell(o, j, z3.If(k == j, BV(b, 8), BV(self.cell(o, j), 8)))
    def pick(self, bs, k):
        r = BV(bs[-1], 8)
        for j in range(len(bs) - 2, -1, -1): r = z3.If(k == j, BV(bs[j], 8), r)
        return r
    def zwrite(self, o, off, n, src, bs=None):
        """write n bytes src(0..n-1) at off of a symbolic object"""
        self.U.modified_obj(o)
        if o.onstore is not None: o.onstore(self, off, n, src, bs)
        old = o.fn; nn = BV(n, 64)
        if isinstance(o, RObj): off = off - o.lo if type(off) is int else nrm(off - o.lo)
        off = BV(off, 64)
        o.fn = lambda k: z3.If(z3.ULT(k - off, nn), src(k - off), old(k))
    def sym_memcpy(self, dst, src, n, move):
        ex = self.ex
        if type(n) is not int:
            n = nrm(n)
        if type(n) is int and n == 0: return
        for p, w, a in ((src, 'read', False), (dst, 'write', True)):
            if not isinstance(p, Ptr):
                # a null or integer pointer is only acceptable for an empty range
                self.prove(f'valid pointer in {ex.where()}', BV(n, 64) == 0); return
            if not p.o.valid: raise Violation('live-pointer', f'{w} through dangling pointer to {p.o.name} in {ex.where()}')
            if a and p.o.ro: raise Violation('frame', f'write to read-only {p.o.name} in {ex.where()}')
        nn = BV(n, 64)
        # a size of zero may come with any in-bounds-or-end pointer
        self.sym_bounds(src, n, 'read', False); self.sym_bounds(dst, n, 'write', True)
        so, do = src.o, dst.o; soff, doff = BV(src.off, 64), BV(dst.off, 64)
        if so is do and not move:
            self.prove(f'memcpy overlap in {ex.where()}', z3.Or(soff == doff, z3.ULE(soff + nn, doff), z3.ULE(doff + nn, soff), nn == 0))
        if isinstance(so, ZObj): sfn = so.fn
        elif isinstance(so, RObj): sfn = (lambda k, f=so.fn, lo=so.lo: f(nrm(k - lo)))
        else:
            snap = Obj(so.name, so.size, list(so.cells), kind=so.kind)
            for j in range(len(snap.cells)):
                if snap.cells[j] is None: snap.cells[j] = BV(self.cell(so, j), 8)
            sfn = lambda k: self.rd(snap, nrm(k))
        if isinstance(do, (ZObj, RObj)):
            if type(n) is int: bs = [nrm(sfn(soff + i)) for i in range(n)]
            else: bs = None
            self.zwrite(do, dst.off, n, lambda k: sfn(nrm(soff + k)), bs); return
        # dense destination: guarded update of the cells that can be reached
        d0 = nrm(doff)
        size = do.meta.get('len') or do.size
        lo = d0 if type(d0) is int else self.U.cellrange(self, do, d0)[0]
        hi = min(size - 1, lo + n - 1) if type(n) is int and type(d0) is int else size - 1
        if type(n) is not int and type(d0) is int:
            mx = self.U.maxval(self, nn, size - d0)
            hi = d0 + mx - 1
        new = {}
        for j in range(lo, hi + 1):
            v = sfn(nrm(soff + (j - doff)))
            if type(n) is int and type(d0) is int: new[j] = nrm(v)
            else: new[j] = nrm(z3.If(z3.ULT(j - doff, nn), v, BV(self.cell(do, j), 8)))
        for j, v in new.items(): ex.setcell(do, j, v)
    def sym_memset(self, dst, c, n):
        n = nrm(n)
        if not isinstance(dst, Ptr): self.prove('valid pointer', BV(n, 64) == 0); return
        if not dst.o.valid: raise Violation('live-pointer', f'memset through dangling pointer to {dst.o.name}')
        if dst.o.ro: raise Violation('frame', f'write to read-only {dst.o.name} in {self.ex.where()}')
        if type(n) is int and n == 0: return
        self.sym_bounds(dst, n, 'write', True)
        c8 = nrm(cast(c, 8, 8)) if type(c) is int else c
        do = dst.o
        if isinstance(do, (ZObj, RObj)):
            self.zwrite(do, dst.off, n, lambda k: BV(c8, 8), [c8] * n if type(n) is int and n <= 64 else None); return
        off = BV(dst.off, 64); nn = BV(n, 64); d0 = nrm(off); size = do.meta.get('len') or do.size
        if type(d0) is int and type(n) is int: rng = range(d0, d0 + n)
        elif type(d0) is int: rng = range(d0, d0 + self.U.maxval(self, nn, size - d0))
        else: rng = range(self.U.cellrange(self, do, d0)[0], size)
        for j in rng: self.ex.setcell(do, j, nrm(z3.If(z3.ULT(j - off, nn), BV(c8, 8), BV(self.cell(do, j), 8))))

class ZExec(Exec):
    def __init__(self, mod, dom, U, over=None, ext=None):
        Exec.__init__(self, mod, dom, over, ext)
        self.U = U; self.active = []     # active loops: dict(f, blk, depth, n, st)
    def bin(self, op, a, b, w):
        if op == 'and' and isinstance(a, Ptr) and type(b) is int and b < 8 and a.o.kind == 'ocaml':
            return self.d.bin('and', a.off, b, 64)      # OCaml blocks are word-aligned
        return Exec.bin(self, op, a, b, w)
    def bounds(self, p, n, what, write):
        if isinstance(p, Ptr) and isinstance(p.o, ZObj):
            self.nob += 1
            if not p.o.valid: raise Violation('live-pointer', f'{what} through dangling pointer to {p.o.name} in {self.where()}')
            if write and p.o.ro: raise Violation('frame', f'write to read-only {p.o.name} in {self.where()}')
            return self.d.sym_bounds(p, n, what, write)
        return Exec.bounds(self, p, n, what, write)
    def region(self, p, n):
        """the access touches a symbolically indexed buffer"""
        return isinstance(p, Ptr) and isinstance(p.o, RObj) and not p.o.outside(p.off, n)
    def pieces(self, o, off, n):
        """concrete range split at the buffer's limits: (offset, length, in buffer?)"""
        a, b = o.lo, o.lo + o.n
        for x, y, r in ((off, min(off + n, a), False), (max(off, a), min(off + n, b), True), (max(off, b), off + n, False)):
            if x < y: yield x, y - x, r
    def load(self, p, nbytes, isptr=False):
        if self.region(p, nbytes):
            self.bounds(p, nbytes, 'read', False)
            if type(p.off) is int and not p.o.lo <= p.off <= p.o.lo + p.o.n - nbytes: raise Unsupported('load across the buffer')
            return self.d.sym_load(p, nbytes)
        return Exec.load(self, p, nbytes, isptr)
    def store(self, p, v, nbytes):
        if self.region(p, nbytes):
            self.bounds(p, nbytes, 'write', True)
            if type(p.off) is int and not p.o.lo <= p.off <= p.o.lo + p.o.n - nbytes: raise Unsupported('store across the buffer')
            return self.d.sym_store(p, v, nbytes)
        return Exec.store(self, p, v, nbytes)
    def getbyte(self, o, i):
        if isinstance(o, RObj) and o.lo <= i < o.lo + o.n: return nrm(o.fn(z3.BitVecVal(i - o.lo, 64)))
        return Exec.getbyte(self, o, i)
    def setcell(self, o, i, v):
        self.U.modified(o, i)
        o.cells[i] = v
    def memcpy(self, dst, src, n, move=False):
        if type(n) is int and n == 0: return
        for p, q in ((dst, src), (src, dst)):
            if self.region(p, n) and type(n) is int and type(p.off) is int:
                ps = list(self.pieces(p.o, p.off, n))
                if len(ps) > 1 or ps[0][1] != n:
                    if dst.o is src.o: raise Unsupported('copy inside a context')
                    self.bounds(p, n, 'copy', p is dst)
                    for x, l, r in ps:
                        a = Ptr(p.o, x); b = self.padd(q, x - p.off)
                        self.memcpy(*((a, b) if p is dst else (b, a)), l, move)
                    return
        if self.region(dst, n) or self.region(src, n): return self.d.sym_memcpy(dst, src, n, move)
        if type(n) is int and isinstance(dst, Ptr) and isinstance(src, Ptr) and type(dst.off) is int and type(src.off) is int and not isinstance(dst.o, ZObj) and not isinstance(src.o, ZObj):
            return Exec.memcpy(self, dst, src, n, move)
        return self.d.sym_memcpy(dst, src, n, move)
    def memset(self, dst, c, n):
        if type(n) is int and n == 0: return
        if self.region(dst, n) and type(n) is int and type(dst.off) is int:
            self.bounds(dst, n, 'memset', True)
            for x, l, r in self.pieces(dst.o, dst.off, n):
                if r: self.d.sym_memset(Ptr(dst.o, x), c, l)
                else: Exec.memset(self, Ptr(dst.o, x), c, l)
            return
        if type(n) is int and isinstance(dst, Ptr) and type(dst.off) is int and not isinstance(dst.o, ZObj): return Exec.memset(self, dst, c, n)
        return self.d.sym_memset(dst, c, n)
    def run(self, f, args):
        na = len(self.active)
        try: return Exec.run(self, f, args)
        finally:
            while len(self.active) > na: self.U.leave(self.active.pop())
    def enter_block(self, f, env, blk, pred):
        L = self.U.loops(self, f)
        while self.active and self.active[-1]['f'] is f and self.active[-1]['depth'] == self.depth and blk not in L[self.active[-1]['blk']]:
            self.U.leave(self.active.pop())
        if blk not in L: return None
        a = self.active[-1] if self.active else None
        top = a if a and a['f'] is f and a['depth'] == self.depth and a['blk'] == blk else None
        return self.U.header(self, f, env, blk, pred, top)

class Loop:
    """what is known about one loop (kept across restarts)"""
    def __init__(s): s.cut = False; s.cells = []; s.ghosts = []; s.objs = []; s.dead = set(); s.step = {}; s.flip = {}; s.level = {}; s.scratch = []

def same(a, b):
    if type(a) is int or type(b) is int: return type(a) is type(b) and a == b
    return isz(a) and isz(b) and a.eq(b)

class ZUnit:
    """a contract checked over all paths of a scenario.  scen(U) builds the objects, runs the code and
    proves the postcondition with U.d.prove; it is replayed once per path."""
    MAXPATH = 1500; SMALL = 140
    def __init__(self, rep, name, scen, hints=None, seed=None):
        self.seed = seed; self.rep = rep; self.name = name; self.scen = scen; self._loops = {}
        self.tsolve = 0; self.nq = 0; self.count = {}
        self.hints = dict(bounds=[], coefs={}, extra={}, forms={}, vals={}, cutall=False); self.hints.update(hints or {})
        self.unroll = None; self.peel = 0; self.post = 0; self.info = {}; self.deadline = None
    def proved(self, name): self.count[name] = self.count.get(name, 0) + 1
    # -- driver ------------------------------------------------------------------------
    def run(self, timeout=240):
        """decides the contract: returns list of (obligation, detail, status)"""
        t0 = time.time(); last = None
        if self.seed and self.seed.get('info'):
            self.SMALL, self.peel, self.post = self.seed['cfg']; self.deadline = time.time() + timeout / 3
            try:
                if not self.attempt(copy.deepcopy(self.seed['info'])): return self.success(t0)
            except Unsupported: pass
        for self.SMALL, self.peel, self.post in ((3, 0, 0), (3, 1, 0), (3, 0, 2), (140, 0, 0), (140, 1, 2)):
            self.unroll = None
            self.deadline = time.time() + timeout / 3
            try: bad = self.attempt()
            except Unsupported as e:
                if DEBUG: print(f'[{self.name}] {self.SMALL},{self.peel},{self.post}: {e} ({time.time()-t0:.0f} s)', flush=True)
                last = last or ('attach', str(e)); continue
            if not bad: return self.success(t0)
            last = (bad[0].name, bad[0].detail)
            if DEBUG: print(f'[{self.name}] {self.SMALL},{self.peel},{self.post}: {last} ({time.time()-t0:.0f} s)', flush=True)
            if not any(l.cut for l in self.info.values()): break
            if time.time() - t0 > timeout: break
        cut = any(l.cut for l in self.info.values())
        # bounded search for a definite violation
        if self.hints.get('opaque'): raise Unsupported(f'{self.name}: no proof found ({last[0]}: {last[1]})')
        for k in (2, 4):
            self.unroll = k; self.deadline = time.time() + timeout / 4
            try: bad = self.attempt()
            except Unsupported as e: last = last or ('attach', str(e)); break
            bad = [b for b in bad if b.kind == 'sat']
            if bad:
                b = bad[0]
                self.rep.ob(f'{self.name}: {b.name}', 'refuted', 'z3', f'{b.detail}; ' + self.show(b.model), cex=None, t=time.time() - t0)
                return False
            if not cut: break
        raise Unsupported(f'{self.name}: no proof found ({last[0]}: {last[1]})')
    def show(self, model):
        if model is None: return ''
        try: return ', '.join(f'{x.name()}={model[x]}' for x in model.decls() if x.arity() == 0 and '!' not in x.name())[:600]
        except Exception: return ''
    def success(self, t0):
        n = sum(self.count.values())
        if not self.live: raise Unsupported(f'{self.name}: vacuous: no feasible path reaches the postcondition')
        self.rep.ob(self.name, 'proved', 'z3', f'{self.npaths} paths; ' + '; '.join(f'{k} x{v}' for k, v in sorted(self.count.items())[:12]), n=max(n, 1), t=time.time() - t0)
        if self.seed is not None: self.seed['info'] = copy.deepcopy(self.info); self.seed['cfg'] = (self.SMALL, self.peel, self.post)
        return True
    def attempt(self, info=None):
        self.info = info or {}; self.phase = 0 if self.unroll is None and info is None and not self.hints.get('direct') else 1
        for _ in range(400):
            self.count = {}
            try:
                bad = self.explore()
                if self.phase == 0: self.phase = 1; continue
                return bad
            except Restart: pass
        raise Unsupported('invariant inference does not converge')
    # -- exploration -------------------------------------------------------------------
    def explore(self):
        stack = [([], frozenset())]; self.npaths = 0; bad = []; self.live = False
        while stack:
            if time.time() > self.deadline: raise Unsupported('time limit')
            self.dec, self.both = stack.pop(); self.pos = 0; self.new = []
            self.npaths += 1
            if self.npaths > self.MAXPATH: raise Unsupported('too many paths')
            self.ghost = {}; self.d = ZDom(self); self.writes = []; self.changed = False; self.why = None
            Obj.REG = []; Obj.SEQ = 0
            try:
                self.scen(self)
                if self.phase and not self.live: self.live = self.d.s.check() != z3.unsat
            except PathEnd as e:
                if e.why not in ('back', 'limit', 'infeasible') and self.phase:
                    bad.append(Stuck('no-abort', f'reaches {e.why}', 'sat', self.model()))
            except Stuck as e: bad.append(e)
            except Violation as e:
                if self.phase: bad.append(Stuck(e.ob, e.detail, 'sat', self.model()))
            finally: Obj.REG = None
            if self.changed: raise Restart()
            if bad: return bad
            for i in range(len(self.new) - 1, -1, -1):
                stack.append((self.dec[:self.new[i]] + [not self.dec[self.new[i]]], frozenset(x for x in self.both if x <= self.new[i])))
        return bad
    def model(self):
        r = self.d.s.check()
        if r == z3.unsat: raise Unsupported('infeasible violation')
        return self.d.s.model() if r == z3.sat else None
    def decide(self, d, b, f, blk):
        if self.pos < len(self.dec):
            r = self.dec[self.pos]; self.pos += 1
            if self.pos - 1 in self.both: self.mark(d, f, blk)
            d.add(b if r else z3.Not(b)); return r
        t = d.sat(b); e = d.sat(z3.Not(b)) if t != z3.unsat else z3.sat
        if t == z3.unsat or e == z3.unsat:
            r = e == z3.unsat
            if t == z3.unsat and d.s.check() == z3.unsat: raise PathEnd('infeasible')
            self.dec.append(r); self.pos += 1
            d.add(b if r else z3.Not(b)); return r
        first = self.mark(d, f, blk)
        self.new.append(self.pos); self.both = self.both | {self.pos}; self.dec.append(first); self.pos += 1
        d.add(b if first else z3.Not(b)); return first
    def mark(self, d, f, blk):
        """a test that can go both ways: the loop it leaves is open"""
        first = True; ex = d.ex
        if f is not None:
            # at the exit test of an uncut loop, leave it first only while unrolling
            for a in reversed(ex.active):
                if a['f'] is f and a['depth'] == ex.depth:
                    L = self.loops(ex, f)[a['blk']]; S = ex.succs(f, blk)
                    if any(x not in L for x in S): first = S[0] in L; a['open'] = True
                    elif any(x in L and len(f.blocks[x]) <= 2 and f.blocks[x][0].op == 'phi' and any(y not in L for y in ex.succs(f, x)) for x in S): a['open'] = True   # a && b
        return first
    def cellrange(self, d, o, k):
        """range of concrete indices that k (already proved in bounds) can take"""
        lo, hi = 0, len(o.cells) - 1
        if hi > 600: raise Unsupported(f'symbolic index into {o.name}')
        return lo, hi
    def maxval(self, d, v, dflt):
        if dflt > 4096: raise Unsupported('large symbolic copy')
        return dflt
    # -- loops ---------------------------------------------------------------------------
    def li(self, k):
        if k not in self.info: self.info[k] = Loop()
        return self.info[k]
    def loops(self, ex, f):
        """header -> body blocks (natural loops)"""
        r = self._loops.get(f.name)
        if r is not None: return r
        S = {b: ex.succs(f, b) for b in f.order}; entry = f.order[0]
        dom = {b: set(f.order) for b in f.order}; dom[entry] = {entry}
        P = {b: [] for b in f.order}
        for b in f.order:
            for s in S[b]: P[s].append(b)
        ch = True
        while ch:
            ch = False
            for b in f.order:
                if b == entry: continue
                ps = [dom[p] for p in P[b]]
                n = (set.intersection(*ps) if ps else set()) | {b}
                if n != dom[b]: dom[b] = n; ch = True
        r = {}
        for b in f.order:
            for s in S[b]:
                if s in dom[b]:
                    body = r.setdefault(s, {s}); work = [b]
                    while work:
                        x = work.pop()
                        if x in body: continue
                        body.add(x); work += P[x]
        self._loops[f.name] = r
        return r
    def modified(self, o, i):
        for W in self.writes: W[(o.name, i)] = o
    def modified_obj(self, o):
        for W in self.writes: W[(o.name, None)] = o
    def leave(self, a):
        if a.get('st'): self.writes = [w for w in self.writes if w is not a['st']['wr']]
    def header(self, ex, f, env, blk, pred, top):
        k = (f.name, blk); I = self.li(k)
        back = top is not None and pred in self.loops(ex, f)[blk]
        if not back:
            top = dict(f=f, blk=blk, depth=ex.depth, n=0, st=None, post=0, open=False); ex.active.append(top)
        else: top['n'] += 1
        if self.unroll is not None:
            if top['open'] and top['n'] > self.unroll: raise PathEnd('limit')
            if top['n'] > 5000: raise Unsupported('loop bound')
            return None
        if not I.cut:
            if (top['open'] or self.hints['cutall']) and top['n'] > (0 if self.hints.get('early') and self.SMALL == 3 else self.SMALL): I.cut = True; self.changed = True; raise PathEnd('limit')
            if top['n'] > 20000: raise Unsupported('loop bound')
            return None
        phis = ex.phis(f, env, blk, pred)
        if top['st'] is None:
            if top['n'] < self.peel: return None
            top['st'] = dict(wr={}, seq=Obj.SEQ)
            self.cut_entry(ex, f, env, phis, I, top['st'])
            return True
        if self.cut_back(ex, f, env, phis, I, top): raise PathEnd('back')
        return None            # follow this path concretely a little further
    def cut_entry(self, ex, f, env, phis, I, st):
        d = self.d; G = self.ghost
        it = nrm(z3.ZeroExt(8, d.fresh('it', 56))); V = st['vars'] = {}
        self.curit = 0; self.check_forms(ex, I, 'on entry'); self.curit = st['it'] = it
        def havoc(key, v0, w, o=None):
            step = I.step.get(key)
            if step is None or step == 'no': v = d.fresh('h', w)
            elif step == 0: v = v0
            else: v = nrm(BV(v0, w) + step * cast(it, 64, w))
            V[key] = (v0, v, w, o); return v
        for ins, v in phis:
            key = ('phi', ins.dst)
            if isinstance(v, Ptr): nv = Ptr(v.o, havoc(key, v.off, 64, v.o))
            elif v is UNDEF or isinstance(v, (Agg, FnPtr)): nv = v; V[key] = (v, v, None, None)
            else: nv = havoc(key, v, ex.m.bits(ins.ty))
            env[ins.dst] = nv
        for (on, off, n) in I.cells:
            o = self.findobj(on)
            if o is None: raise Unsupported(f'object {on} not found at loop header')
            key = ('cell', on, off, n); v0 = ex.load(Ptr(o, off), n)
            if isinstance(v0, FnPtr): raise Unsupported('function pointer modified in a loop')
            if isinstance(v0, Ptr):
                nv = Ptr(v0.o, havoc(key, v0.off, 64, v0.o))
                for i in range(8): ex.setcell(o, off + i, ('P', nv, 8, i))
                continue
            nv = havoc(key, v0, 8 * n)
            for i in range(n): ex.setcell(o, off + i, (nv >> (8 * i)) & 255 if type(nv) is int else nv if n == 1 else ('P', nv, n, i))
        for on in I.scratch:
            o = self.findobj(on)
            for i in range(len(o.cells)): ex.setcell(o, i, None)
        for g in I.ghosts: G[g] = havoc(('ghost', g), G[g], 64)
        self.apply_forms(ex, I)
        st['cands'] = list(self.candidates(I, st))
        init = {k: t[0] for k, t in V.items()}; now = {k: t[1] for k, t in V.items()}; init['#it'] = 0; now['#it'] = it
        for name, at in st['cands']:
            if name in I.dead: continue
            if not d.valid(at(init, init)): I.dead.add(name); self.changed = True
        for name, at in st['cands']:
            if name not in I.dead: d.add(at(init, now, bare=True) if hasattr(at, 'bare') else at(init, now))
        if d.s.check() == z3.unsat: raise PathEnd('infeasible')
        self.writes.append(st['wr'])
        st['g'] = dict(G)
    def candidates(self, I, st):
        V = st['vars']; keys = [k for k, t in V.items() if t[2] is not None]
        for key in keys:
            w = V[key][2]
            if I.step.get(key) == 0: continue
            if key[0] == 'cell' and self.is_form(key): continue
            for nm, fn in () if self.hints.get('opaque') and I.step.get(key) == 'no' else (('ule', z3.ULE), ('uge', z3.UGE)) + (() if self.hints.get('unsigned') else (('sle', lambda a, b: a <= b), ('sge', lambda a, b: a >= b))):
                yield (key, nm), (lambda a, b, key=key, fn=fn, w=w: fn(BV(b[key], w), BV(a[key], w)))
            if self.hints.get('opaque') and I.step.get(key) == 'no':
                for nm, fn in self.hints['vals'].items():
                    def at(a, b, key=key, w=w, fn=fn, bare=False):
                        t, hyp = fn(self.gvals(b)); c = BV(b[key], w) == cast(BV(t, 64), 64, w)
                        return c if bare else z3.Implies(z3.And(*hyp), c)
                    at.bare = True
                    yield (key, 'val', nm), at
                continue
            for nm, fn in self.hints.get('preds', {}).items():
                if w == 64: yield (key, 'pred', nm), (lambda a, b, key=key, w=w, fn=fn: fn(BV(b[key], w), w))
            yield (key, 'pos-or-init'), (lambda a, b, key=key, w=w: z3.Or(BV(b[key], w) != 0, BV(b[key], w) == BV(a[key], w)))
            if not self.hints.get('unsigned'): yield (key, 'nonneg'), (lambda a, b, key=key, w=w: BV(b[key], w) >= 0)
            for k in self.hints['bounds']:
                if k < (1 << w):
                    yield (key, 'le', k), (lambda a, b, key=key, w=w, k=k: z3.ULE(BV(b[key], w), k))
                    yield (key, 'ge', k), (lambda a, b, key=key, w=w, k=k: z3.UGE(BV(b[key], w), k))
            st_ = I.step.get(key)
            if type(st_) is int and 8 < w < 64:
                yield (key, 'nowrap'), (lambda a, b, key=key, w=w, st_=sx(st_, w): z3.SignExt(64 - w, BV(b[key], w)) == z3.SignExt(64 - w, BV(a[key], w)) + st_ * BV(b['#it'], 64))
            if I.step.get(key) == 'no' and key[0] != 'ghost' and self.hints['coefs']:
                gs = [(g, cs) for g, cs in self.hints['coefs'].items() if g in self.ghost]
                for combo in itertools.product(*[cs for _, cs in gs]):
                    if not any(combo): continue
                    def at(a, b, key=key, w=w, combo=combo, gs=gs):
                        ext = (lambda x: z3.SignExt(64 - w, BV(x, w)) if w > 8 else z3.ZeroExt(64 - w, BV(x, w))) if w < 64 else (lambda x: BV(x, w))
                        r = ext(a[key])
                        for (g, _), c in zip(gs, combo):
                            if c: r = r + c * nrm(BV(self.gv(b, g), 64) - BV(self.gv(a, g), 64))
                        return ext(b[key]) == r
                    yield (key, 'lin', combo), at
            if I.step.get(key) == 'no':
                for nm, fn in self.hints['vals'].items():
                    yield (key, 'val', nm), (lambda a, b, key=key, w=w, fn=fn: BV(b[key], w) == cast(BV(fn(self.gvals(b)), 64), 64, w))
        for k in self.hints['bounds']: yield ('#it', k), (lambda a, b, k=k: z3.ULE(BV(b['#it'], 64), k))
        for nm, fn in self.hints['extra'].items():
            yield ('extra', nm), (lambda a, b, fn=fn: fn(self, a, b))
    def gvals(self, b):
        G = {g: self.gv(b, g) for g in self.ghost}; G['#it'] = b['#it']; return G
    def gv(self, vals, g):
        return vals.get(('ghost', g), self.ghost[g])
    def cut_back(self, ex, f, env, phis, I, top):
        """True: the path is closed by the invariant; False: it is followed further"""
        d = self.d; G = self.ghost; st = top['st']; V = st['vars']; wr = st['wr']
        new = {}; mism = []
        def step(key, v):
            v0, v1, w, o = V[key]
            dl = (v - v1) & ((1 << w) - 1) if type(v) is int and type(v1) is int else nrm(BV(v, w) - BV(v1, w))
            cur = I.step.get(key)
            new[key] = v
            if cur == 'no': return
            if type(dl) is not int and not self.hints.get('opaque'):
                if cur is not None and d.valid(dl == cur): return
                if d.s.check() == z3.sat:
                    c = d.s.model().eval(dl, model_completion=True)
                    if d.valid(dl == c): dl = c.as_long()
            if cur is None and type(dl) is int: I.step[key] = dl; self.changed = True
            elif type(dl) is not int or cur != dl: mism.append((key, dl))
        for ins, v in phis:
            key = ('phi', ins.dst); t = V[key]
            if t[2] is None:
                if v is not t[0] and not (isinstance(v, FnPtr) and v == t[0]): raise Unsupported('aggregate changes in a loop')
                continue
            if isinstance(v, Ptr):
                if t[3] is not v.o: raise Unsupported('loop pointer changes object')
                v = v.off
            elif v is UNDEF: raise Unsupported('undef at a loop back edge')
            elif t[3] is not None: raise Unsupported('loop pointer becomes an integer')
            step(key, v)
        for (on, i), o in sorted(wr.items(), key=lambda x: (x[0][0], -1 if x[0][1] is None else x[0][1])):
            if o.seq > st['seq']: continue
            if self.hints.get('scratch') and o.kind == 'stack' and i is not None:      # local buffer: nothing is assumed about it at the header
                if on not in I.scratch: I.scratch.append(on); self.changed = True
                continue
            if i is None:
                if on not in I.objs:
                    if on not in self.hints['forms']: raise Unsupported(f'{on} is modified in a loop of {f.name}: no closed form given')
                    I.objs.append(on); self.changed = True
                continue
            if any(c[0] == on and c[1] <= i < c[1] + c[2] for c in I.cells): continue
            c = o.cells[i]
            hit = [(b, n) for b, n in o.meta.get('words', {}).items() if b <= i < b + n]
            if hit: I.cells.append((on,) + hit[0])
            elif type(c) is tuple and c[0] == 'P': I.cells.append((on, i - c[3], c[2]))
            else: I.cells.append((on, i, 1))
            self.changed = True
        for (on, off, n) in I.cells:
            key = ('cell', on, off, n)
            if key not in V: continue
            o = self.findobj(on); v = ex.load(Ptr(o, off), n); t = V[key]
            if isinstance(v, Ptr):
                if v.o is not t[3]: raise Unsupported('loop pointer changes object')
                v = v.off
            if self.is_form(key): new[key] = v; continue
            step(key, v)
        for g in G:
            if g not in I.ghosts:
                if not same(st['g'].get(g), G[g]): I.ghosts.append(g); self.changed = True
                continue
            if ('ghost', g) in V: step(('ghost', g), G[g])
        if self.changed: return True
        if mism:
            if top['post'] < self.post: top['post'] += 1; return False
            for key, dl in mism:
                if self.post and type(dl) is int and key not in I.flip: I.flip[key] = 1; I.step[key] = dl
                else: I.step[key] = 'no'
            self.changed = True; return True
        init = {key: t[0] for key, t in V.items()}; init['#it'] = 0; new['#it'] = self.curit = nrm(st['it'] + 1)
        for name, at in st['cands']:
            if name in I.dead: continue
            if not d.valid(at(init, new)): I.dead.add(name); self.changed = True
        if self.changed: return True
        self.check_forms(ex, I, 'preserved')
        return True
    # -- objects -------------------------------------------------------------------------
    def findobj(self, name):
        for o in reversed(Obj.REG):
            if o.valid and o.name == name: return o
        return None
    def is_form(self, key):
        F = self.hints['forms'].get(key[1])
        return F is not None and 'cells' in F and any(o <= key[2] and key[2] + key[3] <= o + n for o, n, _ in F['cells'])
    def formed(self, I):
        names = [n for n in I.objs]
        for (on, off, n) in I.cells:
            if on not in names and on in self.hints['forms'] and 'cells' in self.hints['forms'][on]: names.append(on)
        return names
    def at(self, I, on):
        """closed form currently tried for object on (None: nothing is known about its contents)"""
        F = self.hints['forms'][on].get('at')
        if isinstance(F, (list, tuple)): F = (list(F) + [None])[min(I.level.get(on, 0), len(F))]
        return F
    def check_forms(self, ex, I, when):
        d = self.d
        for on in self.formed(I):
            F = self.hints['forms'][on]; o = self.findobj(on)
            at = self.at(I, on) if on in I.objs else None
            if at is not None:
                k = d.fresh('k', 64); n = o.n if isinstance(o, RObj) else o.size
                c = z3.Implies(z3.ULT(k, BV(n, 64)), at(k, self.snap(F, o), o.fn(k)))
                if isinstance(F['at'], (list, tuple)):
                    if not d.prove('', c, quiet=True): I.level[on] = I.level.get(on, 0) + 1; self.changed = True; raise PathEnd('back')
                    self.proved(f'loop invariant {when}: contents of {on}')
                else: d.prove(f'loop invariant {when}: contents of {on}', c)
            for off, n, fn in F.get('cells', ()):
                v = ex.load(Ptr(o, off), n)
                d.prove(f'loop invariant {when}: {on}+{off}', BV(v, 8 * n) == fn(self.ghost, self))
    def snap(self, F, o):
        G = dict(self.ghost); G['#it'] = self.curit
        if 'snap' in F: G.update(F['snap'](self, o))
        return G
    def given(self, at, uf, G):
        """contents satisfying the form: every read instantiates it at the index read"""
        def fn(k):
            r = uf(k); c = at(k, G, r)
            if isz(c) and c.decl().kind() == z3.Z3_OP_EQ and c.arg(0).eq(r): return c.arg(1)
            self.d.add(c); return r
        return fn
    def apply_forms(self, ex, I):
        for on in self.formed(I):
            F = self.hints['forms'][on]; o = self.findobj(on)
            if on in I.objs:
                at = self.at(I, on); self.modified_obj(o); d = self.d; d.n += 1
                uf = z3.Function(f'cont!{d.n}', z3.BitVecSort(64), z3.BitVecSort(8))
                o.fn = uf
                if at is not None: o.fn = self.given(at, uf, self.snap(F, o))
            for off, n, fn in F.get('cells', ()):
                nv = nrm(fn(self.ghost, self))
                for i in range(n): ex.setcell(o, off + i, (nv >> (8 * i)) & 255 if type(nv) is int else nv if n == 1 else ('P', nv, n, i))
