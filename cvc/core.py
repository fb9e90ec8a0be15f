"""Symbolic executor over the parsed IR.  Values: Python int (concrete, unsigned, of the
type's width), Ptr, or a symbolic value of the attached domain."""
from ir import Unsupported, Ty
import ir as IR

class Violation(Exception):
    """A proof obligation is refuted (definite): message names the obligation."""
    def __init__(self, ob, detail=''):
        Exception.__init__(self, f'{ob}: {detail}'); self.ob = ob; self.detail = detail

class PathEnd(Exception):
    """the current path is cut (noreturn call, loop back edge)"""
    def __init__(self, why, info=None): Exception.__init__(self, why); self.why = why; self.info = info

class Ptr:
    __slots__ = ('o', 'off')
    def __init__(s, o, off=0): s.o = o; s.off = off
    def __repr__(s): return f'&{s.o.name}+{s.off}'
    def __eq__(a, b): return isinstance(b, Ptr) and a.o is b.o and type(a.off) == type(b.off) and (a.off == b.off) is True
    def __hash__(s): return hash(id(s.o))

class Obj:
    """memory object.  cells: list (concrete size) of None | int | domain byte | ('P', val, nbytes, i).
    kind: 'stack','global','ocaml','arg'"""
    __slots__ = ('name', 'size', 'cells', 'ro', 'kind', 'meta', 'valid', 'seq')
    REG = None; SEQ = 0
    def __init__(s, name, size, cells=None, ro=False, kind='arg', meta=None):
        Obj.SEQ += 1; s.seq = Obj.SEQ
        if Obj.REG is not None: Obj.REG.append(s)
        s.name = name; s.size = size
        s.cells = cells if cells is not None else ([None] * size if isinstance(size, int) else None)
        s.ro = ro; s.kind = kind; s.meta = meta if meta is not None else {}; s.valid = True
    def __repr__(s): return f'<{s.name}:{s.size}>'
    def clone(s): return Obj(s.name, s.size, list(s.cells), s.ro, s.kind, dict(s.meta))

class FnPtr:
    __slots__ = ('name',)
    def __init__(s, n): s.name = n
    def __eq__(a, b): return isinstance(b, FnPtr) and a.name == b.name
    def __hash__(s): return hash(s.name)

STATIC = set()      # mutable globals read or written by the current unit
# state that outlives a call and has a contract of its own (aes-first-*, ghash-first-*, *-detect, zlib-*)
KNOWN_STATIC = {'aesni_available', 'pclmul_available', 'caml_zlib_error_exn', 'g_cpu_features'}
_MG = {}
def mutable_globals(m):
    """globals of the module that are not constants and that some instruction may change"""
    if id(m) in _MG: return _MG[id(m)][1]
    import re
    cand = [g for g, (t, init, const) in m.globals.items() if not const and g not in KNOWN_STATIC and 'custom_operations' not in str(getattr(t, 'a', t))]; out = set()
    for g in cand:
        rx0 = re.escape('@' + g) + r'(?![\w.$-])|@"' + re.escape(g) + '"'
        for f in m.funcs.values():
            der = set(); todo = True
            inss = [i for b in f.order for i in f.blocks[b]] if f.blocks else []
            if not any(i.text and re.search(rx0, i.text) for i in inss): continue
            while todo and g not in out:
                todo = False; rx = rx0 + ''.join('|' + re.escape(d if d.startswith('%') else '%' + d) + r'(?![\w.$-])' for d in sorted(der))
                for i in inss:
                    body = i.text.split(' = ', 1)[1] if i.dst is not None and ' = ' in (i.text or '') else (i.text or '')
                    if not re.search(rx, body): continue
                    if i.op in ('load', 'icmp'): continue
                    if i.op in ('gep', 'phi', 'select', 'cast', 'bitcast'):
                        if i.dst not in der: der.add(i.dst); todo = True
                        continue
                    if i.op == 'call' and 'llvm.memcpy' in body:
                        a = body[body.index('llvm.memcpy'):].split(',')
                        if not re.search(rx, a[0]): continue
                    out.add(g); break
    _MG[id(m)] = (m, out); return out
class Agg:
    """first-class aggregate value"""
    def __init__(s, els): s.els = els

UNDEF = object()

def sx(v, w):
    return v - (1 << w) if v >> (w - 1) else v

def cbin(op, a, b, w):
    M = (1 << w) - 1
    if op == 'add': return (a + b) & M
    if op == 'sub': return (a - b) & M
    if op == 'mul': return (a * b) & M
    if op == 'and': return a & b
    if op == 'or': return a | b
    if op == 'xor': return a ^ b
    if op in ('shl', 'lshr', 'ashr'):
        if b >= w: raise Violation('shift-amount', f'shift of {w}-bit value by {b}')
        if op == 'shl': return (a << b) & M
        if op == 'lshr': return a >> b
        return (sx(a, w) >> b) & M
    if op == 'udiv':
        if b == 0: raise Violation('div-by-zero')
        return a // b
    if op == 'urem':
        if b == 0: raise Violation('div-by-zero')
        return a % b
    if op in ('sdiv', 'srem'):
        x, y = sx(a, w), sx(b, w)
        if y == 0: raise Violation('div-by-zero')
        q = abs(x) // abs(y)
        if (x < 0) != (y < 0): q = -q
        return q & M if op == 'sdiv' else (x - q * y) & M
    raise Unsupported(op)

def cicmp(p, a, b, w):
    if p == 'eq': return int(a == b)
    if p == 'ne': return int(a != b)
    if p[0] == 's': a = sx(a, w); b = sx(b, w)
    q = p[1:]
    return int({'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[q])

class Exec:
    """mod: module; dom: domain; over: {function: handler(ex, args, ins)}"""
    def __init__(self, mod, dom, over=None, ext=None):
        self.m = mod; self.d = dom; self.over = dict(over or {}); self.ext = dict(ext or {})
        self.globals = {}
        self.nob = 0           # obligations generated and discharged on the fly
        self.journals = []
        self.steps = 0; self.maxsteps = 30_000_000
        self.depth = 0
        self.pdom = {}
        self.cur = []
        self.trace_calls = None
        dom.ex = self
    # -- memory ------------------------------------------------------------
    def glob(self, name):
        o = self.globals.get(name)
        if o is not None: return o
        if name in mutable_globals(self.m): STATIC.add(name)
        if name in self.m.funcs or name in self.m.decls:
            return FnPtr(name)
        if name not in self.m.globals: raise Unsupported('global ' + name)
        t, init, const = self.m.globals[name]
        size = self.m.size(t)
        o = Obj('@' + name, size, ro=const, kind='global')
        self.globals[name] = o
        if init is not None: self.init_cells(o, 0, t, init)
        return o
    def init_cells(self, o, off, t, init):
        m = self.m; t = m.resolve(t)
        k = init[0]
        n = m.size(t)
        if k == 'zero':
            for i in range(n): o.cells[off + i] = 0
        elif k == 'undef': pass
        elif k == 'str':
            for i, b in enumerate(init[1]): o.cells[off + i] = b
        elif k == 'agg':
            for i in range(n): o.cells[off + i] = 0
            for i, (et, e) in enumerate(init[1]):
                fo, ft = m.field(t, i)
                self.init_cells(o, off + fo, et, e)
        elif k == 'c':
            for i in range(n): o.cells[off + i] = (init[1] >> (8 * i)) & 255
        elif k == 'null':
            for i in range(n): o.cells[off + i] = 0
        elif k in ('g', 'gepc'):
            v = self.operand({}, init, t)
            for i in range(8): o.cells[off + i] = ('P', v, 8, i)
        else: raise Unsupported('init ' + k)
    def setcell(self, o, i, v):
        if self.journals:
            j = self.journals[-1]; key = (o, i)
            if key not in j: j[key] = o.cells[i]
        o.cells[i] = v
    def getbyte(self, o, i):
        c = o.cells[i]
        if type(c) is tuple and c[0] == 'P':
            v = c[1]
            if isinstance(v, (Ptr, FnPtr)): return c
            if type(v) is int: return (v >> (8 * c[3])) & 255
            return self.d.byte(v, c[3], c[2])
        if c is None:
            c = self.d.undef_byte(o, i)
            o.cells[i] = c
        return c
    def bounds(self, p, n, what, write):
        self.nob += 1
        if not isinstance(p, Ptr): raise Violation('valid-pointer', f'{what} through {p!r} in {self.where()}')
        o = p.o
        if not isinstance(o, Obj): raise Violation('valid-pointer', f'{what} through non-object in {self.where()}')
        if not o.valid: raise Violation('live-pointer', f'{what} through dangling pointer to {o.name} in {self.where()}')
        if write and o.ro: raise Violation('frame', f'write to read-only {o.name} in {self.where()}')
        if type(p.off) is int and type(o.size) is int:
            off = sx(p.off & (2**64-1), 64)
            if off < 0 or off + n > (o.size if not write or not o.meta.get('len') else o.meta['len']):
                raise Violation('bounds', f'{what} of {n} bytes at offset {off} of {o.name} (size {o.size}) in {self.where()}')
            return
        self.d.sym_bounds(p, n, what, write)
    def where(self): return '/'.join(self.cur[-3:])
    def load(self, p, nbytes, isptr=False):
        self.bounds(p, nbytes, 'read', False)
        o = p.o
        if type(p.off) is not int or o.cells is None:
            return self.d.sym_load(p, nbytes)
        off = sx(p.off & (2**64-1), 64)
        c = o.cells[off]
        if type(c) is tuple and c[0] == 'P' and c[2] == nbytes and c[3] == 0:
            v = c[1]; ok = True
            for i in range(1, nbytes):
                e = o.cells[off + i]
                if not (type(e) is tuple and e[0] == 'P' and e[1] is v and e[3] == i): ok = False; break
            if ok: return v
        bs = [self.getbyte(o, off + i) for i in range(nbytes)]
        if all(type(b) is int for b in bs):
            return int.from_bytes(bytes(bs), 'little')
        if any(type(b) is tuple and b and b[0] == 'P' for b in bs): raise Unsupported('partial pointer load')
        return self.d.concat(bs)
    def store(self, p, v, nbytes):
        self.bounds(p, nbytes, 'write', True)
        o = p.o
        if type(p.off) is not int or o.cells is None:
            return self.d.sym_store(p, v, nbytes)
        off = sx(p.off & (2**64-1), 64)
        if v is UNDEF:
            for i in range(nbytes): self.setcell(o, off + i, None)
            return
        if type(v) is int:
            for i in range(nbytes): self.setcell(o, off + i, (v >> (8 * i)) & 255)
        elif nbytes == 1 and not isinstance(v, (Ptr, FnPtr)):
            self.setcell(o, off, v)
        else:
            for i in range(nbytes): self.setcell(o, off + i, ('P', v, nbytes, i))
    def memcpy(self, dst, src, n, move=False):
        if n == 0: return
        if type(n) is not int: return self.d.sym_memcpy(dst, src, n, move)
        self.bounds(src, n, 'read', False); self.bounds(dst, n, 'write', True)
        if type(dst.off) is not int or type(src.off) is not int or dst.o.cells is None or src.o.cells is None:
            return self.d.sym_memcpy(dst, src, n, move)
        so, do = sx(src.off & (2**64-1), 64), sx(dst.off & (2**64-1), 64)
        if not move and src.o is dst.o and abs(so - do) < n and so != do:
            raise Violation('memcpy-overlap', self.where())
        cells = [self.getbyte(src.o, so + i) if src.o.cells[so + i] is None else src.o.cells[so + i] for i in range(n)]
        for i in range(n): self.setcell(dst.o, do + i, cells[i])
    def memset(self, dst, c, n):
        if n == 0: return
        if type(n) is not int: return self.d.sym_memset(dst, c, n)
        self.bounds(dst, n, 'write', True)
        if type(dst.off) is not int or dst.o.cells is None: return self.d.sym_memset(dst, c, n)
        do = sx(dst.off & (2**64-1), 64)
        for i in range(n): self.setcell(dst.o, do + i, c)
    def bytes_of(self, p, n):
        return [self.load(Ptr(p.o, p.off + i), 1) for i in range(n)]
    # -- operands -------------------------------------------------------------
    def operand(self, env, o, t):
        k = o[0]
        if k == 'l': return env[o[1]]
        if k == 'c': return o[1]
        if k == 'g':
            g = self.glob(o[1])
            return g if isinstance(g, FnPtr) else Ptr(g, 0)
        if k == 'null': return 0
        if k == 'undef': return UNDEF
        if k == 'zero':
            tt = self.m.resolve(t)
            if tt.k in ('struct', 'arr'): raise Unsupported('zero aggregate')
            return 0
        if k == 'gepc':
            return self.gep(env, o[1], self.operand(env, o[2], IR.PTR), o[3])
        if k == 'agg':
            tt = self.m.resolve(t)
            if tt.k == 'vec':
                v = 0; sh = 0; w = self.m.bits(tt.b)
                for et, e in o[1]:
                    x = self.operand(env, e, et)
                    if x is UNDEF: x = 0
                    v |= x << sh; sh += w
                return v
            return Agg([self.operand(env, e, et) for et, e in o[1]])
        raise Unsupported('operand ' + k)
    def padd(self, p, d):
        """pointer plus 64-bit offset value"""
        if type(p) is int:
            if type(d) is int: return (p + d) & (2**64 - 1)
            raise Unsupported('symbolic arithmetic on integer pointer')
        if isinstance(p, FnPtr): raise Unsupported('fn ptr arith')
        if p is UNDEF: return UNDEF
        if type(p.off) is int and type(d) is int: return Ptr(p.o, (p.off + d) & (2**64 - 1))
        return Ptr(p.o, self.d.bin('add', p.off, d, 64))
    def gep(self, env, bt, p, idx):
        m = self.m
        off = 0
        t = bt
        for j, (it, io) in enumerate(idx):
            i = self.operand(env, io, it)
            w = it.a
            if j == 0:
                sz = m.size(t)
                off = self.scale(off, i, w, sz)
            else:
                t = m.resolve(t)
                if t.k in ('arr', 'vec'):
                    t = t.b
                    off = self.scale(off, i, w, m.size(t))
                else:
                    fo, t = m.field(t, i)
                    off = self.scale(off, fo, 64, 1)
        return self.padd(p, off)
    def scale(self, off, i, w, sz):
        if type(i) is int:
            d = (sx(i, w) * sz)
            if type(off) is int: return (off + d) & (2**64 - 1)
            return self.d.bin('add', off, d & (2**64-1), 64)
        x = self.d.sext(i, w, 64) if w < 64 else i
        if isinstance(x, Ptr): raise Unsupported('pointer index')
        x = self.bin('mul', x, sz, 64) if sz != 1 else x
        if off == 0 and type(off) is int: return x
        return self.d.bin('add', off, x, 64)
    # -- ops --------------------------------------------------------------------
    def bin(self, op, a, b, w):
        if type(a) is int and type(b) is int: return cbin(op, a, b, w)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if w == 64:
                if op == 'add':
                    if isinstance(a, Ptr) and not isinstance(b, Ptr): return self.padd(a, b)
                    if isinstance(b, Ptr) and not isinstance(a, Ptr): return self.padd(b, a)
                if op == 'sub' and isinstance(a, Ptr):
                    if isinstance(b, Ptr):
                        if a.o is b.o: return self.bin('sub', a.off, b.off, 64)
                    else:
                        return self.padd(a, self.bin('sub', 0, b, 64))
                if op == 'and' and isinstance(a, Ptr) and type(b) is int:
                    if type(a.off) is int and b < 16: return a.off & b
            raise Unsupported(f'pointer {op}')
        if a is UNDEF or b is UNDEF: raise Unsupported('undef operand')
        return self.d.bin(op, a, b, w)
    def icmp(self, p, a, b, w):
        if type(a) is int and type(b) is int: return cicmp(p, a, b, w)
        if isinstance(a, (Ptr, FnPtr)) or isinstance(b, (Ptr, FnPtr)):
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.o is b.o:
                x, y = a.off, b.off
                if type(x) is int and type(y) is int:
                    if p in ('eq', 'ne'): return cicmp(p, x, y, 64)
                    # unsigned comparison of addresses in one object = signed comparison of offsets
                    return cicmp({'u': 's', 's': 's'}[p[0]] + p[1:], x, y, 64)
                if p in ('eq', 'ne'): return self.d.icmp(p, x, y, 64)
                return self.d.icmp('s' + p[1:], x, y, 64)
            if p in ('eq', 'ne'):
                if a == 0 or b == 0 or isinstance(a, FnPtr) or isinstance(b, FnPtr) or (isinstance(a, Ptr) and isinstance(b, Ptr)):
                    e = isinstance(a, FnPtr) and a == b
                    return int(e) if p == 'eq' else int(not e)
            raise Unsupported(f'pointer compare {p} {a} {b}')
        if a is UNDEF or b is UNDEF: raise Unsupported('undef compare')
        return self.d.icmp(p, a, b, w)
    def ite(self, c, a, b, w):
        if type(c) is int: return a if c else b
        if a is b: return a
        if type(a) is int and type(b) is int and a == b: return a
        if a is UNDEF: return b
        if b is UNDEF: return a
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.o is b.o:
                return Ptr(a.o, self.ite(c, a.off, b.off, 64))
            raise Unsupported('select of different pointers')
        return self.d.ite(c, a, b, w)
    # -- control --------------------------------------------------------------------
    def call(self, name, args, ins=None):
        h = self.over.get(name)
        if h is not None: return h(self, args, ins)
        f = self.m.funcs.get(name)
        if f is None:
            h = self.ext.get(name)
            if h is not None: return h(self, args, ins)
            raise Unsupported('external ' + name)
        return self.run(f, args)
    def run(self, f, args):
        if self.depth > 60: raise Unsupported('call depth')
        env = {}
        for (t, n), v in zip(f.params, args): env[n] = v
        self.depth += 1; self.cur.append(f.name)
        try:
            r = self.blocks(f, env, f.order[0], None, None)
        finally:
            self.depth -= 1; self.cur.pop()
        return r[1]
    def phis(self, f, env, blk, pred):
        out = []
        for ins in f.blocks[blk]:
            if ins.op != 'phi': break
            for l, v in ins.a:
                if l == pred:
                    out.append((ins, self.operand(env, v, ins.ty))); break
            else: raise Unsupported('phi pred')
        return out
    def blocks(self, f, env, blk, pred, stop):
        while True:
            if blk == stop: return ('stop', pred)
            if pred is not None:
                hk = self.enter_block(f, env, blk, pred)
                if hk is None:
                    for ins, v in self.phis(f, env, blk, pred): env[ins.dst] = v
            nxt = self.straight(f, env, blk)
            k = nxt[0]
            if k == 'br': pred, blk = blk, nxt[1]
            elif k == 'ret': return nxt
            elif k == 'cond':
                c, a, b = nxt[1:]
                if type(c) is int:
                    pred, blk = blk, (a if c else b); continue
                t = self.d.branch(c, f, blk)
                if t is not None:
                    pred, blk = blk, (a if t else b); continue
                if a == b: pred, blk = blk, a; continue
                r = self.merge(f, env, blk, c, a, b)
                if r[0] == 'ret': return r
                # continue at join
                j, phiv = r[1], r[2]
                if j == stop: raise Unsupported('merge at stop')
                for ins, v in phiv: env[ins.dst] = v
                nxt = None
                pred, blk = self._after(j), j
                # run the join block body without re-evaluating phis
                k2 = self.straight(f, env, j)
                while True:
                    if k2[0] == 'br': pred, blk = j, k2[1]; break
                    if k2[0] == 'ret': return k2
                    if k2[0] == 'cond':
                        c, a, b = k2[1:]
                        if type(c) is int: pred, blk = j, (a if c else b); break
                        t = self.d.branch(c, f, j)
                        if t is not None: pred, blk = j, (a if t else b); break
                        r = self.merge(f, env, j, c, a, b)
                        if r[0] == 'ret': return r
                        j = r[1]
                        if j == stop: raise Unsupported('merge at stop')
                        for ins, v in r[2]: env[ins.dst] = v
                        k2 = self.straight(f, env, j)
                        continue
            else: raise Unsupported('terminator')
    def _after(self, j): return j
    def enter_block(self, f, env, blk, pred): return None
    def merge(self, f, env, blk, c, a, b):
        """execute both sides of a symbolic branch up to the immediate postdominator and merge"""
        J = self.ipdom(f, blk)
        res = []
        for lab in (a, b):
            e2 = dict(env)
            self.journals.append({})
            try:
                try:
                    r = self.blocks(f, e2, lab, blk, J)
                except PathEnd as pe:
                    r = ('end', pe)
            finally:
                j = self.journals.pop()
            new = {k: k[0].cells[k[1]] for k in j}
            for (o, i), old in j.items(): o.cells[i] = old
            if r[0] == 'stop': ph = self.phis(f, e2, J, r[1])
            else: ph = None
            res.append((r, j, new, ph))
        (ra, ja, na, pa), (rb, jb, nb, pb) = res
        if ra[0] == 'end' and rb[0] == 'end': raise ra[1]
        if ra[0] == 'end' or rb[0] == 'end':
            # keep the live side under the assumption
            live = res[1] if ra[0] == 'end' else res[0]
            self.d.assume(c, ra[0] != 'end')
            for (o, i), v in live[2].items(): self.setcell(o, i, v)
            if live[0][0] == 'ret': return live[0]
            return ('join', J, live[3])
        keys = set(na) | set(nb)
        done = set()
        for key in keys:
            # whole words written on one side are merged as words
            o, i = key
            x = na.get(key, o.cells[i]); y = nb.get(key, o.cells[i])
            for g, src in ((x, na), (y, nb)):
                if key in done or not (type(g) is tuple and g and g[0] == 'P' and g[3] == 0 and g[2] > 1) or isinstance(g[1], (Ptr, FnPtr)): continue
                n = g[2]
                if i + n > len(o.cells) or any((o, i + k) not in keys or (o, i + k) in done for k in range(n)): continue
                vs = []
                for m_ in (na, nb):
                    cs = [m_.get((o, i + k), o.cells[i + k]) for k in range(n)]
                    if any(q is None for q in cs): break
                    if all(type(q) is tuple and q and q[0] == 'P' and q[1] is cs[0][1] and q[2] == n and q[3] == k for k, q in enumerate(cs)): vs.append(cs[0][1]); continue
                    bs = []
                    for q in cs:
                        if type(q) is tuple and q and q[0] == 'P':
                            if isinstance(q[1], (Ptr, FnPtr)): bs = None; break
                            q = (q[1] >> (8 * q[3])) & 255 if type(q[1]) is int else self.d.byte(q[1], q[3], q[2])
                        bs.append(q)
                    if bs is None: break
                    vs.append(int.from_bytes(bytes(bs), 'little') if all(type(q) is int for q in bs) else self.d.concat(bs))
                if len(vs) != 2 or any(isinstance(v, (Ptr, FnPtr)) for v in vs): continue
                v = self.ite(c, vs[0], vs[1], 8 * n)
                for k in range(n):
                    self.setcell(o, i + k, (v >> (8 * k)) & 255 if type(v) is int else ('P', v, n, k)); done.add((o, i + k))
        for key in keys:
            if key in done: continue
            o, i = key
            old = o.cells[i]
            x = na.get(key, old); y = nb.get(key, old)
            if x is y: v = x
            elif x is None or y is None:
                v = None
            else: v = self.merge_cell(c, o, i, x, y)
            self.setcell(o, i, v)
        if ra[0] == 'ret' and rb[0] == 'ret':
            if f.rty.k == 'void': return ('ret', None)
            return ('ret', self.ite(c, ra[1], rb[1], self.m.bits(f.rty)))
        if ra[0] == 'ret' or rb[0] == 'ret': raise Unsupported('merge shape')
        ph = []
        for (i1, v1), (i2, v2) in zip(pa, pb):
            ph.append((i1, self.ite(c, v1, v2, self.m.bits(i1.ty))))
        return ('join', J, ph)
    def merge_cell(self, c, o, i, x, y):
        if x == y and type(x) is type(y): return x
        def tob(z):
            if type(z) is tuple and z and z[0] == 'P':
                v = z[1]
                if isinstance(v, (Ptr, FnPtr)): raise Unsupported('merge pointer cells')
                if type(v) is int: return (v >> (8 * z[3])) & 255
                return self.d.byte(v, z[3], z[2])
            return z
        return self.ite(c, tob(x), tob(y), 8)
    def succs(self, f, b):
        t = f.blocks[b][-1]
        if t.op == 'br': return [t.x]
        if t.op == 'cbr': return [t.b, t.c]
        if t.op == 'switch': return [t.c] + [l for _, l in t.b]
        return []
    def ipdom(self, f, blk):
        pd = self.pdom.get(f.name)
        if pd is None:
            EXIT = None
            nodes = list(f.order)
            S = {b: self.succs(f, b) for b in nodes}
            ispathend = {b: (not S[b] and f.blocks[b][-1].op == 'unreachable') for b in nodes}
            allb = set(nodes) | {EXIT}
            P = {b: set(allb) for b in nodes}; P[EXIT] = {EXIT}
            ch = True
            while ch:
                ch = False
                for b in reversed(nodes):
                    if ispathend[b]: continue
                    ss = [s for s in S[b] if not ispathend[s]] or [EXIT]
                    n = set.intersection(*[P[s] for s in ss]) | {b}
                    if n != P[b]: P[b] = n; ch = True
            pd = {}
            for b in nodes:
                cand = P[b] - {b}
                # nearest: the one whose postdominator set is largest
                best = EXIT; bl = -1
                for x in cand:
                    if x is EXIT: continue
                    if len(P[x]) > bl: best = x; bl = len(P[x])
                pd[b] = best
            self.pdom[f.name] = pd
        return pd[blk]
    def straight(self, f, env, blk):
        m = self.m
        for ins in f.blocks[blk]:
            op = ins.op
            self.steps += 1
            if self.steps > self.maxsteps: raise Unsupported('step limit')
            if op == 'phi': continue
            if op in IR.BIN:
                t = m.resolve(ins.ty)
                a = self.operand(env, ins.a, t); b = self.operand(env, ins.b, t)
                if t.k == 'vec':
                    ew = m.bits(t.b)
                    if op in ('and', 'or', 'xor'): env[ins.dst] = self.bin(op, a, b, m.bits(t))
                    else: env[ins.dst] = self.vecop(op, a, b, t.a, ew)
                else: env[ins.dst] = self.bin(op, a, b, t.a)
            elif op == 'load':
                t = m.resolve(ins.ty)
                p = self.operand(env, ins.a, IR.PTR)
                if t.k in ('struct', 'arr'): raise Unsupported('aggregate load')
                n = m.size(t)
                v = self.load(p, n, t.k == 'ptr')
                if t.k == 'int' and t.a < 8 * n: v = self.trunc(v, 8 * n, t.a)
                env[ins.dst] = v
            elif op == 'store':
                t = m.resolve(ins.ty)
                v = self.operand(env, ins.a, t); p = self.operand(env, ins.b, IR.PTR)
                if isinstance(v, Agg): raise Unsupported('aggregate store')
                n = m.size(t)
                if t.k == 'int' and t.a < 8 * n: v = self.zext(v, t.a, 8 * n)
                self.store(p, v, n)
            elif op == 'gep':
                env[ins.dst] = self.gep(env, ins.ty, self.operand(env, ins.a, IR.PTR), ins.b)
            elif op == 'zext':
                env[ins.dst] = self.zext(self.operand(env, ins.a, ins.b), m.bits(ins.b), m.bits(ins.ty))
            elif op == 'sext':
                v = self.operand(env, ins.a, ins.b); w1 = m.bits(ins.b); w2 = m.bits(ins.ty)
                env[ins.dst] = sx(v, w1) & ((1 << w2) - 1) if type(v) is int else self.d.sext(v, w1, w2)
            elif op == 'trunc':
                v = self.operand(env, ins.a, ins.b)
                env[ins.dst] = self.trunc(v, m.bits(ins.b), m.bits(ins.ty))
            elif op in ('ptrtoint', 'inttoptr', 'bitcast', 'freeze'):
                env[ins.dst] = self.operand(env, ins.a, ins.b if ins.b is not None and op != 'freeze' else ins.ty)
            elif op == 'icmp':
                t = m.resolve(ins.ty)
                env[ins.dst] = self.icmp(ins.c, self.operand(env, ins.a, t), self.operand(env, ins.b, t), m.bits(t))
            elif op == 'select':
                c = self.operand(env, ins.a, IR.INT(1))
                env[ins.dst] = self.ite(c, self.operand(env, ins.b, ins.ty), self.operand(env, ins.c, ins.ty), m.bits(ins.ty))
            elif op == 'alloca':
                n = self.operand(env, ins.a, IR.INT(64))
                if type(n) is not int: raise Unsupported('vla')
                env[ins.dst] = Ptr(Obj(f'{f.name}.{ins.dst[1:]}', m.size(ins.ty) * n, kind='stack'), 0)
            elif op == 'call':
                r = self.docall(f, env, ins)
                if ins.dst: env[ins.dst] = r
            elif op == 'br': return ('br', ins.x)
            elif op == 'cbr':
                return ('cond', self.operand(env, ins.a, IR.INT(1)), ins.b, ins.c)
            elif op == 'switch':
                v = self.operand(env, ins.a, ins.ty)
                if type(v) is not int:
                    v2 = self.d.switch(v, ins.ty.a, [c for c, _ in ins.b])
                    if v2 is None: return ('br', ins.c)
                    v = v2
                for c, l in ins.b:
                    if c == v: return ('br', l)
                return ('br', ins.c)
            elif op == 'ret':
                return ('ret', None if ins.a is None else self.operand(env, ins.a, ins.ty))
            elif op == 'unreachable': raise PathEnd('unreachable')
            elif op == 'extractvalue':
                a = self.operand(env, ins.a, ins.ty)
                for i in ins.b: a = a.els[i]
                env[ins.dst] = a
            elif op == 'insertvalue':
                a = self.operand(env, ins.a, ins.ty)
                els = list(a.els) if isinstance(a, Agg) else [UNDEF] * len(m.resolve(ins.ty).a)
                v = self.operand(env, ins.b, IR.PTR); els[ins.c[0]] = v
                env[ins.dst] = Agg(els)
            elif op == 'shufflevector':
                t = m.resolve(ins.ty); ew = m.bits(t.b)
                a = self.operand(env, ins.a, t); b = self.operand(env, ins.b, t)
                if a is UNDEF: a = 0
                if b is UNDEF: b = 0
                A = self.chunks(a, t.a, ew) + self.chunks(b, t.a, ew)
                mk = ins.c; mt = m.resolve(ins.x)
                if mk[0] == 'zero': idx = [0] * mt.a
                else: idx = [0 if e[0] in ('undef',) else e[1] for _, e in mk[1]]
                env[ins.dst] = self.unchunks([A[i] for i in idx], ew)
            elif op == 'extractelement':
                t = m.resolve(ins.ty); ew = m.bits(t.b)
                i = self.operand(env, ins.b, IR.INT(64))
                env[ins.dst] = self.chunks(self.operand(env, ins.a, t), t.a, ew)[i]
            elif op == 'insertelement':
                t = m.resolve(ins.ty); ew = m.bits(t.b)
                v = self.operand(env, ins.a, t)
                A = self.chunks(0 if v is UNDEF else v, t.a, ew)
                A[self.operand(env, ins.c, IR.INT(64))] = self.operand(env, ins.b, t.b)
                env[ins.dst] = self.unchunks(A, ew)
            else: raise Unsupported('instruction ' + str(ins.text))
        raise Unsupported('no terminator')
    def chunks(self, v, n, ew):
        if type(v) is int: return [(v >> (i * ew)) & ((1 << ew) - 1) for i in range(n)]
        return [self.d.extract(v, i * ew, ew) for i in range(n)]
    def unchunks(self, els, ew):
        if all(type(e) is int for e in els):
            r = 0
            for i, e in enumerate(els): r |= e << (i * ew)
            return r
        return self.d.concatw(els, ew)
    def vecop(self, op, a, b, n, ew):
        A = self.chunks(a, n, ew); B = self.chunks(b, n, ew)
        return self.unchunks([self.bin(op, x, y, ew) for x, y in zip(A, B)], ew)
    def zext(self, v, w1, w2):
        if type(v) is int or v is UNDEF: return v
        return self.d.zext(v, w1, w2)
    def trunc(self, v, w1, w2):
        if type(v) is int: return v & ((1 << w2) - 1)
        if v is UNDEF: return v
        if isinstance(v, Ptr): raise Unsupported('trunc pointer')
        return self.d.extract(v, 0, w2)
    def docall(self, f, env, ins):
        callee = ins.a
        args = [self.operand(env, a, t) if t.k != 'metadata' else None for t, a in ins.b]
        if callee[0] == 'asm':
            h = self.ext.get('asm')
            if h is None: raise Unsupported('inline asm')
            return h(self, callee, args, ins)
        if callee[0] == 'l':
            fp = env[callee[1]]
            if not isinstance(fp, FnPtr): raise Unsupported('indirect call')
            name = fp.name
        else: name = callee[1]
        if name.startswith('llvm.'):
            if name.startswith('llvm.memcpy'): self.memcpy(args[0], args[1], args[2]); return None
            if name.startswith('llvm.memmove'): self.memcpy(args[0], args[1], args[2], True); return None
            if name.startswith('llvm.memset'): self.memset(args[0], args[1], args[2]); return None
            if name.startswith('llvm.assume') or name.startswith('llvm.expect') or name.startswith('llvm.stacksave') or name.startswith('llvm.stackrestore'):
                return args[0] if args else None
            if name.startswith('llvm.fsh') and name.split('.')[1] in ('fshl', 'fshr'):
                w = self.m.bits(ins.ty); s = args[2]
                if type(s) is not int: raise Unsupported('funnel shift')
                s %= w
                if name.split('.')[1] == 'fshr': s = (w - s) % w
                if s == 0: return args[0] if name.split('.')[1] == 'fshl' else args[1]
                return self.bin('or', self.bin('shl', args[0], s, w), self.bin('lshr', args[1], w - s, w), w)
            if name.startswith('llvm.bswap'):
                w = self.m.bits(ins.ty); return self.unchunks(self.chunks(args[0], w // 8, 8)[::-1], 8)
            import intrin
            return intrin.call(self, name, args, ins)
        return self.call(name, args, ins)
