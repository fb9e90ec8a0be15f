"""Environment for SMT-mode contracts (zdom): scenarios over the real stubs."""
import z3, time
from ir import Unsupported
from core import *
from zdom import *
from ocamlrt import Runtime, val_long
import build

def zlong(name):
    """symbolic OCaml int 0 <= n < 2^56: (n as 64-bit value, its tagged representation)"""
    o = z3.BitVec(name, 56)
    return nrm(z3.ZeroExt(8, o)), nrm(z3.Concat(z3.BitVecVal(0, 7), o, z3.BitVecVal(1, 1)))
def UF(name, *sorts):
    return z3.Function(name, *[z3.BitVecSort(w) for w in sorts])

class ZRuntime(Runtime):
    def alloc_string(self, ex, args, ins):
        n = args[0]
        if type(n) is int: return Runtime.alloc_string(self, ex, args, ins)
        self.gc(); self.n += 1
        f = UF(f'alloc{self.n}', 64, 8)
        o = ZObj(f'alloc{self.n}', n, lambda k: f(k), meta={'len': n}); self.heap.append(o)
        return Ptr(o, 0)

class ZEnv:
    """one scenario run: executor + runtime over a path"""
    def __init__(self, U, stub, over=None, ext=None, extra=()):
        self.U = U; self.d = U.d; self.m = build.module(stub, extra); self.stub = stub
        self.ex = ZExec(self.m, U.d, U, over, ext); self.rt = ZRuntime(self.ex)
        if ext: self.ex.ext.update(ext)
        U.env = self
    def need(self, fn, n=None):
        f = self.m.funcs.get(fn)
        if f is None: raise Unsupported(f'{self.stub}: function {fn} not found')
        if n is not None and len(f.params) != n: raise Unsupported(f'{fn}: {len(f.params)} parameters')
        if fn not in self.U.rep.functions: self.U.rep.functions.append(fn)
        return f
    def string(self, name, cells):
        """OCaml string of concrete size"""
        o = self.rt.string(name, len(cells), list(cells)); return Ptr(o, 0)
    def zstring(self, name, size, fn, ro=False):
        o = ZObj(name, size, fn, ro=ro, meta={'len': size}); self.rt.heap.append(o); return Ptr(o, 0)
    def rstring(self, name, cells, lo, n, fn):
        """OCaml string of concrete size with a symbolically indexed buffer"""
        p = self.string(name, cells); o = p.o; self.rt.heap.remove(o)
        r = RObj(name, o.size, o.cells, lo, n, fn, kind='ocaml', meta=dict(o.meta)); self.rt.heap.append(r)
        return Ptr(r, 0)
    def final(self, p): return self.rt.final(p.o if isinstance(p, Ptr) else p)
    def call(self, fn, *args):
        f = self.need(fn, len(args))
        return self.ex.run(f, list(args))
    def ld(self, p, off, n):
        o = self.final(p); return BV(self.ex.load(Ptr(o, off), n), 8 * n)
    def unit(self, fn, r):
        self.d.prove(f'{fn} returns unit', BV(r, 64) == 1 if not isinstance(r, Ptr) else False)
    def prove(self, name, c): return self.d.prove(name, c)
    def assume(self, c): self.d.add(c)
def sym_cells(name, n): return [z3.BitVec(f'{name}.{i}', 8) for i in range(n)]
def zunit(rep, name, scen, hints=None, timeout=240, seed=None):
    return ZUnit(rep, name, scen, hints, seed).run(timeout)
