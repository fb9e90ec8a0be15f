"""Model of the OCaml runtime entry points the stubs call, including a moving GC:
every allocation moves every live heap block; only registered local roots follow."""
from ir import Unsupported
from core import Obj, Ptr, FnPtr, Violation, PathEnd, sx, UNDEF
import build

class Lin:
    """symbolic OCaml integer argument: a*sym + c (mathematical; the contract's
    precondition bounds sym so that no machine overflow occurs)"""
    __slots__ = ('sym', 'a', 'c')
    def __init__(s, sym, a=1, c=0): s.sym = sym; s.a = a; s.c = c
    def __repr__(s): return f'{s.a}*{s.sym}+{s.c}'

def val_long(n): return (2 * n + 1) & (2**64 - 1)
def val_sym(sym): return Lin(sym, 2, 1)

def lin_bin(op, a, b, w):
    if w == 64:
        if isinstance(a, Lin) and type(b) is int:
            k = sx(b, 64)
            if op == 'add': return Lin(a.sym, a.a, a.c + k)
            if op == 'sub': return Lin(a.sym, a.a, a.c - k)
            if op == 'mul': return Lin(a.sym, a.a * k, a.c * k)
            if op == 'shl': return Lin(a.sym, a.a << k, a.c << k)
            if op in ('ashr', 'sdiv') and k == 1 and op == 'ashr' and a.a % 2 == 0:
                return Lin(a.sym, a.a // 2, a.c >> 1)
        if isinstance(b, Lin) and type(a) is int and op == 'add':
            return Lin(b.sym, b.a, b.c + sx(a, 64))
    return None

class Runtime:
    def __init__(self, ex):
        self.ex = ex
        ex.rt = self
        self.n = 0
        self.moved = {}          # old Obj -> new Obj
        self.heap = []           # live OCaml objects
        self.raised = None
        self.ngc = 0
        m = ex.m
        if 'Caml_state' in m.globals:
            try: self.lr = build.layout(m.stub, 'caml_domain_state', ['local_roots'])[0]['local_roots'][0]
            except Unsupported: self.lr = None
            self.state = Obj('Caml_state', 2048, [0] * 2048, kind='rt')
            g = Obj('@Caml_state', 8, kind='rt')
            sp = Ptr(self.state, 0)
            for i in range(8): g.cells[i] = ('P', sp, 8, i)
            ex.globals['Caml_state'] = g
        else: self.lr = None
        ex.ext.update({
            'caml_alloc_string': self.alloc_string, 'caml_string_length': self.string_length,
            'caml_stat_alloc': self.stat_alloc, 'caml_stat_free': self.stat_free,
            'caml_alloc_custom': self.alloc_custom, 'abort': self.noret('abort'),
            '__assert_fail': self.noret('assertion'), 'caml_failwith': self.noret('caml_failwith'),
            'caml_invalid_argument': self.noret('caml_invalid_argument'),
        })
        ob = ex.bin
        def bin2(op, a, b, w):
            if isinstance(a, Lin) or isinstance(b, Lin):
                r = lin_bin(op, a, b, w)
                if r is not None: return r
                if isinstance(a, Ptr) and op == 'add': return ex.padd(a, b)
                if isinstance(b, Ptr) and op == 'add': return ex.padd(b, a)
                raise Unsupported(f'{op} on symbolic integer argument')
            if op == 'and' and isinstance(a, Ptr) and type(b) is int and type(a.off) is int and b in (2**64 - 16, 2**64 - 8, 2**64 - 32):
                if a.o.kind == 'stack' and b != 2**64 - 32: return Ptr(a.o, a.off & b)
            return ob(op, a, b, w)
        ex.bin = bin2
        op_ = ex.padd
        def padd2(p, d):
            if isinstance(d, Lin) and isinstance(p, Ptr): return self.window(p, d)
            return op_(p, d)
        ex.padd = padd2
        osc = ex.scale
        def scale2(off, i, w, sz):
            if isinstance(i, Lin):
                r = Lin(i.sym, i.a * sz, i.c * sz)
                if type(off) is int: return Lin(r.sym, r.a, r.c + sx(off, 64))
                raise Unsupported('two symbolic offsets')
            if isinstance(off, Lin) and type(i) is int:
                return Lin(off.sym, off.a, off.c + sx(i, w) * sz)
            return osc(off, i, w, sz)
        ex.scale = scale2
    def noret(self, what):
        def h(ex, args, ins):
            raise PathEnd(what)
        return h
    def window(self, p, d):
        w = p.o.meta.get('win', {}).get(d.sym)
        if w is None or d.a != 1 or type(p.off) is not int: raise Unsupported(f'symbolic offset {d} into {p.o.name}')
        return Ptr(w, p.off + d.c)
    # -- objects -------------------------------------------------------------
    def string(self, name, n, cells=None):
        """OCaml string/bytes of n bytes (with its padding: readable, never writable)"""
        pad = 8 - n % 8
        cs = (list(cells) if cells is not None else [None] * n) + [0] * (pad - 1) + [pad - 1]
        o = Obj(name, n + pad, cs, kind='ocaml', meta={'len': n})
        self.heap.append(o)
        return o
    def winstring(self, name, wins):
        """string of unknown size of which only the given windows are visible:
        wins = {sym: Obj}"""
        o = Obj(name, 0, [], kind='ocaml', meta={'len': None, 'win': wins})
        self.heap.append(o)
        return o
    def alloc_string(self, ex, args, ins):
        n = args[0]
        if type(n) is not int: raise Unsupported('symbolic allocation size')
        self.gc()
        self.n += 1
        o = self.string(f'alloc{self.n}', n)
        return Ptr(o, 0)
    def string_length(self, ex, args, ins):
        p = args[0]
        if not isinstance(p, Ptr) or not p.o.valid: raise Violation('live-pointer', 'caml_string_length of a dangling value in ' + ex.where())
        if 'len' not in p.o.meta or p.off != 0: raise Violation('valid-pointer', 'caml_string_length of a non-string')
        if p.o.meta['len'] is None: raise Unsupported('length of window string')
        return p.o.meta['len']
    def stat_alloc(self, ex, args, ins):
        n = args[0]
        if type(n) is not int: raise Unsupported('symbolic allocation size')
        self.n += 1
        return Ptr(Obj(f'malloc{self.n}', n, kind='malloc'), 0)
    def stat_free(self, ex, args, ins):
        p = args[0]
        if not isinstance(p, Ptr) or p.o.kind != 'malloc' or not p.o.valid or p.off != 0:
            raise Violation('free', f'invalid free in {ex.where()}')
        p.o.valid = False
    def alloc_custom(self, ex, args, ins):
        n = args[1]
        self.gc(); self.n += 1
        o = Obj(f'custom{self.n}', 8 + n, kind='ocaml', meta={'custom': True})
        self.heap.append(o)
        return Ptr(o, 0)
    def custom(self, name, n):
        o = Obj(name, 8 + n, kind='ocaml', meta={'custom': True}); self.heap.append(o); return o
    def final(self, o):
        while o in self.moved: o = self.moved[o]
        return o
    def roots(self):
        """cells of registered local roots"""
        out = []
        ex = self.ex
        if self.lr is None: return out
        p = ex.load(Ptr(self.state, self.lr), 8)
        guard = 0
        while p != 0:
            guard += 1
            if guard > 50: raise Unsupported('root list')
            nxt = ex.load(p, 8); nt = ex.load(Ptr(p.o, p.off + 8), 8); ni = ex.load(Ptr(p.o, p.off + 16), 8)
            for i in range(nt):
                t = ex.load(Ptr(p.o, p.off + 24 + 8 * i), 8)
                for j in range(ni):
                    out.append(Ptr(t.o, t.off + 8 * j))
            p = nxt
        return out
    def gc(self):
        ex = self.ex
        self.ngc += 1
        roots = self.roots()
        new = {}
        for o in self.heap:
            n = o.clone()
            if 'win' in n.meta:
                shared = {}
                nw = {}
                for s, wo in o.meta['win'].items():
                    if wo not in new:
                        wn = Obj(wo.name, wo.size, list(wo.cells), wo.ro, wo.kind, dict(wo.meta)); new[wo] = wn
                        wo.valid = False; self.moved[wo] = wn
                    nw[s] = new[wo]
                n.meta['win'] = nw
            o.valid = False
            new[o] = n; self.moved[o] = n
        self.heap = [new[o] for o in self.heap]
        for r in roots:
            v = ex.load(r, 8)
            if isinstance(v, Ptr) and v.o in new: ex.store(r, Ptr(new[v.o], v.off), 8)
        # custom blocks may hold malloc pointers only; scannable blocks are forwarded
        for o in self.heap:
            if not o.meta.get('block'): continue
            for i in range(0, o.size, 8):
                c = o.cells[i]
                if isinstance(c, tuple) and c[0] == 'P' and isinstance(c[1], Ptr) and c[1].o in new: ex.store(Ptr(o, i), Ptr(new[c[1].o], c[1].off), 8)
