"""Unit framework for bits-mode contract checks."""
import time, sys, os
sys.path[:0] = [os.path.dirname(os.path.abspath(__file__)), os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'spec')]
from ir import Unsupported
from core import *
from bdom import BitsDom, Wd, cat_le, cat_be, lut8
from ocamlrt import Runtime, Lin, val_long, val_sym
import build, intrin

class Report:
    """collects obligations of one unit"""
    def __init__(self, unit):
        self.unit = unit; self.obs = []; self.functions = []; self.bounded = []; self.assumptions = []; self.t0 = time.time()
    def ob(self, name, status, backend, detail='', cex=None, n=1, t=None):
        self.obs.append(dict(unit=self.unit, name=name, status=status, backend=backend, detail=str(detail)[:2000], cex=cex, n=n, t=t))
    def merge(self, other):
        self.obs += other.obs; self.functions += other.functions; self.bounded += other.bounded; self.assumptions += other.assumptions

class Env:
    def __init__(self, stub, rep, flat=None, extra=(), over=None):
        self.m = build.module(stub, extra); self.rep = rep
        self.d = BitsDom(flat=flat); self.ex = Exec(self.m, self.d, over); self.rt = Runtime(self.ex)
        self.inputs = {}
        self.stub = stub
    def need(self, fn):
        if fn not in self.m.funcs: raise Unsupported(f'{self.stub}: function {fn} not found')
        if fn not in self.rep.functions: self.rep.functions.append(fn)
        return self.m.funcs[fn]
    def sym(self, name, n):
        out = [Wd(self.d, self.d.b.word((name, i), 8), 8) for i in range(n)]
        self.inputs[name] = out
        return out
    def string(self, name, bs):
        o = self.rt.string(name, len(bs), [b.v if isinstance(b, Wd) else b for b in bs])
        return Ptr(o, 0)
    def fresh_string(self, name, n):
        """bytes whose previous contents are unknown"""
        return self.string(name, [Wd(self.d, self.d.b.word(('old', name, i), 8), 8) for i in range(n)])
    def window(self, name, sym, bs):
        w = Obj(f'{name}[{sym}..{sym}+{len(bs)})', len(bs), [b.v if isinstance(b, Wd) else b for b in bs], kind='win')
        o = self.rt.winstring(name, {sym: w})
        return Ptr(o, 0), w
    def setg(self, name, v, n=4):
        o = self.ex.glob(name)
        if not isinstance(o, Obj): raise Unsupported('global ' + name)
        for i in range(n): o.cells[i] = (v >> (8 * i)) & 255
    def call(self, fn, *args):
        f = self.need(fn)
        if len(f.params) != len(args): raise Unsupported(f'{fn}: {len(f.params)} parameters')
        return self.ex.run(f, list(args))
    def final(self, p): return self.rt.final(p.o if isinstance(p, Ptr) else p)
    def content(self, o, off=0, n=None):
        o = self.final(o)
        return [self.ex.getbyte(o, off + i) for i in range((o.meta['len'] if o.meta.get('len') is not None else o.size) - off if n is None else n)]
    def eq(self, name, got, want):
        """obligation: byte values got == want (Wd list)"""
        t = time.time(); d = self.d
        if len(got) != len(want):
            self.rep.ob(name, 'refuted', 'bits', f'length {len(got)} instead of {len(want)}'); return False
        bad = None; diff = 0
        for i, (g, w) in enumerate(zip(got, want)):
            gw = w.w
            G = d.tup(g.v if isinstance(g, Wd) else g, gw); W = d.tup(w.v, gw)
            if G == W: continue
            ds = 0
            for x, y in zip(G, W): ds |= d.b.lsig(x) ^ d.b.lsig(y)
            if bad is None: bad = i
            if ds and not diff: diff = ds; bad = i
        if bad is None:
            self.rep.ob(name, 'proved', 'bits', f'{len(want)} values', n=len(want), t=time.time() - t); return True
        if diff:
            lane = (diff & -diff).bit_length() - 1
            cex = {k: bytes(d.b.lane_value(d.tup(b.v, 8), lane) for b in v).hex() for k, v in self.inputs.items()}
            self.rep.ob(name, 'refuted', 'bits', f'value {bad} differs', cex=cex)
        else:
            self.rep.ob(name, 'unproved', 'bits', f'value {bad}: equal on all simulated inputs but not proved equal')
        return False
    def ok_unit(self, name, r):
        """stub returned Val_unit"""
        if r == 1: self.rep.ob(name + '/returns-unit', 'proved', 'bits')
        else: self.rep.ob(name + '/returns-unit', 'refuted', 'bits', repr(r))
    def done(self, name):
        """safety obligations (bounds, frame, live pointers) discharged on the way"""
        if self.d.assumed: raise Unsupported('path assumption: ' + repr(self.d.assumed[0]))
        self.rep.ob(name + '/safety', 'proved', 'interp', 'bounds, frame, shift and live-pointer obligations', n=self.ex.nob)

def run_unit(name, fn):
    """run one unit; engine limits become status 'unsupported' (never a verdict)"""
    rep = Report(name); import core; core.STATIC.clear()
    try:
        fn(rep)
        if core.STATIC and not any(o['status'] in ('refuted', 'unproved') for o in rep.obs):
            rep.ob('attach', 'unsupported', 'engine', 'static variables that change at run time (proved only for their initial contents): ' + ', '.join(sorted(core.STATIC)))
    except Violation as v:
        rep.ob(f'{v.ob}', 'refuted', 'interp', v.detail)
    except PathEnd as e:
        rep.ob('no-abort', 'refuted', 'interp', f'reaches {e.why}')
    except Unsupported as e:
        rep.ob('attach', 'unsupported', 'engine', str(e))
    except RecursionError as e:
        rep.ob('attach', 'unsupported', 'engine', 'recursion')
    rep.time = time.time() - rep.t0
    return rep
