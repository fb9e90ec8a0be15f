"""ocvc: a contract verifier for the OCaml code of the library.

Symbolic execution of the Parsetree of the real source (dumped by dump.ml on every run), path by path,
with z3 deciding feasibility and discharging obligations.  Loops and tail recursion with symbolic control
are cut at their head: the state they change is replaced by an arbitrary one satisfying the class invariant
of the contract and the inductive subset (Houdini) of generated candidate facts.  Calls to collaborators
(objects received as arguments, C primitives) are replaced by their contracts.
An outcome is (state, kind, value), kind in 'val', 'exc' (OCaml exception), 'back' (tail call to a cut head)."""
import json, os, subprocess, sys, time
import z3
import sys as _s, os as _o; _s.path[:0] = [_o.path.join(_o.path.dirname(_o.path.abspath(__file__)), "..", "cvc")]
from ir import Unsupported

HERE = os.path.dirname(os.path.abspath(__file__))
MININT, MAXINT = -2**62, 2**62 - 1
MAXSTR = 144115188075855863
Int, BV8, BV63 = z3.IntSort(), z3.BitVecSort(8), z3.BitVecSort(63)

_dumps = {}
def parse(path):
    if path not in _dumps:
        p = subprocess.run(['ocaml', '-I', '+compiler-libs', 'ocamlcommon.cma', os.path.join(HERE, 'dump.ml'), path], capture_output=True, text=True)
        if p.returncode: raise Unsupported('cannot parse ' + path + ': ' + p.stderr[-500:])
        _dumps[path] = json.loads(p.stdout)
    return _dumps[path]

# ---------------------------------------------------------------- values
class Ref:
    __slots__ = ('id',)
    def __init__(s, i): s.id = i
    def __eq__(s, o): return isinstance(o, Ref) and s.id == o.id
    def __hash__(s): return hash(('ref', s.id))
    def __repr__(s): return f'#{s.id}'
class Con:
    __slots__ = ('name', 'arg')
    def __init__(s, name, arg=None): s.name = name; s.arg = arg
    def __repr__(s): return s.name + (f'({s.arg!r})' if s.arg is not None else '')
UNIT = Con('()')
NONE = Con('None')
def Some(x): return Con('Some', x)
def exn(name, arg=None): return Con(name, arg)
def err(name): return Con('Error', Con(name))
class I64:
    __slots__ = ('v',)
    def __init__(s, v): s.v = v
    def __repr__(s): return f'{s.v}L'
class Clo:
    __slots__ = ('node', 'env', 'name', 'rec', 'pre')
    def __init__(s, node, env, name, rec=False): s.node = node; s.env = env; s.name = name; s.rec = rec
class Bi:
    """builtin or contract of an external function"""
    __slots__ = ('name', 'arity', 'fn', 'got')
    def __init__(s, name, arity, fn, got=()): s.name = name; s.arity = arity; s.fn = fn; s.got = got
class PyObj:
    """collaborator given by contract: methods name -> (arity, fn(W, st, args) -> outcomes)"""
    def __init__(s, name, methods): s.name = name; s.methods = methods
class Super:
    def __init__(s, methods, obj): s.methods = methods; s.obj = obj
class Mod:
    def __init__(s, env, items): s.env = env; s.items = items
class Lazy:
    def __init__(s, expr, env, name, rec): s.expr = expr; s.env = env; s.name = name; s.rec = rec
class ClassDef:
    def __init__(s, name, cexpr, env): s.name = name; s.cexpr = cexpr; s.env = env
class Functor:
    def __init__(s, param, body, env): s.param = param; s.body = body; s.env = env
class Opaque:
    def __init__(s, name): s.name = name
    def __repr__(s): return f'<{s.name}>'
class Zn:
    """arbitrary-precision integer (Z.t)"""
    __slots__ = ('v',)
    def __init__(s, v): s.v = v
    def __repr__(s): return f'Z({s.v})'

class Env:
    __slots__ = ('vars', 'parent', 'ivars', 'self')
    def __init__(s, parent, vars=None, ivars=None, self=None): s.vars = vars if vars is not None else {}; s.parent = parent; s.ivars = ivars; s.self = self
    def find(s, name):
        e = s
        while e is not None:
            if name in e.vars: return e.vars[name]
            if e.ivars is not None and name in e.ivars: return ('ivar', e.self, name)
            e = e.parent
        return None

# ---------------------------------------------------------------- heap records (immutable)
class Buf:
    __slots__ = ('len', 'cells', 'base', 'layers', 'meta')
    def __init__(s, len, cells=None, base=None, layers=(), meta=None): s.len = len; s.cells = cells; s.base = base; s.layers = layers; s.meta = meta
class Cell:
    __slots__ = ('v',)
    def __init__(s, v): s.v = v
class ObjRec:
    __slots__ = ('cls', 'fields', 'methods')
    def __init__(s, cls, fields, methods): s.cls = cls; s.fields = fields; s.methods = methods
class Arr:
    __slots__ = ('vs',)
    def __init__(s, vs): s.vs = vs
class Rec:
    __slots__ = ('fields',)
    def __init__(s, fields): s.fields = fields

class PC:
    __slots__ = ('f', 'up', 'n')
    def __init__(s, f, up): s.f = f; s.up = up; s.n = (up.n + 1) if up else 1

class St:
    __slots__ = ('heap', 'pc', 'ghost', 'frames', 'nlia', 'glob', 'notes')
    def __init__(s, heap, pc, ghost, frames, nlia, glob, notes=()): s.heap = heap; s.pc = pc; s.ghost = ghost; s.frames = frames; s.nlia = nlia; s.glob = glob; s.notes = notes
    def copy(s): return St(s.heap, s.pc, s.ghost, s.frames, s.nlia, s.glob, s.notes)
    def put(s, r, rec):
        h = dict(s.heap); h[r.id] = rec; t = s.copy(); t.heap = h; return t
    def get(s, r): return s.heap[r.id]
    def g(s, **kw):
        d = dict(s.ghost); d.update(kw); t = s.copy(); t.ghost = d; return t
    def gset(s, k, v):
        d = dict(s.ghost); d[k] = v; t = s.copy(); t.ghost = d; return t
    def assume(s, f):
        if f is True or z3.is_true(f): return s
        if f is False: f = z3.BoolVal(False)
        t = s.copy(); t.pc = PC(f, s.pc); return t

class NeedCut(Exception):
    def __init__(s, key): s.key = key

def isz(x): return isinstance(x, z3.ExprRef)
def is_int(x): return (isinstance(x, int) and not isinstance(x, bool)) or (isz(x) and x.sort().kind() == z3.Z3_INT_SORT)
def is_bv(x, w=None): return isinstance(x, z3.BitVecRef) and (w is None or x.size() == w)
def is_bool(x): return isinstance(x, bool) or isinstance(x, z3.BoolRef)
def chr_(n): return z3.BitVecVal(n, 8)
def simp(x):
    if not isz(x): return x
    x = z3.simplify(x)
    if z3.is_int_value(x): return x.as_long()
    if z3.is_true(x): return True
    if z3.is_false(x): return False
    return x
def bvconst(x): return x.as_long() if z3.is_bv_value(x) else None
def sbv(x):
    x = z3.simplify(x)
    if z3.is_bv_value(x) and x.size() == 63: return x.as_signed_long()
    return x
def wrap63(v): return ((v + 2**62) % 2**63) - 2**62
def bv63(x):
    if isinstance(x, int): return z3.BitVecVal(x, 63)
    return x
def has_int(f):
    """does the formula mention integer (LIA) terms?"""
    seen = set(); todo = [f]
    while todo:
        e = todo.pop()
        if e.get_id() in seen: continue
        seen.add(e.get_id())
        if z3.is_arith(e): return True
        todo += e.children()
    return False

class World:
    TIMEOUT = 20000
    def __init__(s, rep, repo=None, bignum=False):
        s.rep = rep; s.repo = repo or os.environ.get('VERIF_REPO', '/repo')
        s.sol = z3.Solver(); s.sol.set('timeout', s.TIMEOUT); s.stack = []
        s.nfresh = 0; s.ranges = {}; s.cache = {}; s.touched = []; s.nq = 0; s.tq = 0.0
        s.obs = []          # obligations of the current exploration
        s.ext = {}          # contracts of C primitives
        s.over = {}         # contracts replacing OCaml functions: qualified name -> Bi
        s.inv = None        # class invariant used at loop heads: object with havoc(st), check(st), terms(st)
        s.extra = None      # extra candidate facts at loop heads
        s.arr = None        # closed form of buffers at loop heads: (st, st0, hid, vals) -> Buf or None
        s.maxpaths = 4000; s.unroll = 600
        s.litcache = {}
        import builtins_ml
        s.base = builtins_ml.base_env(s)
        s.bn = s.module_env(parse(os.path.join(s.repo, 'src/cryptokitBignum.ml')), s.base)
        env = Env(s.base, {'CryptokitBignum': s.bn}); s.base2 = env
        s.ck = s.module_env(parse(os.path.join(s.repo, 'src/cryptokit.ml')), env)
        s.keep = []
    # ------------------------------------------------------------ solver
    def sync(s, st):
        path = []; p = st.pc
        while p is not None: path.append(p); p = p.up
        path.reverse(); i = 0
        while i < len(path) and i < len(s.stack) and path[i] is s.stack[i]: i += 1
        while len(s.stack) > i: s.sol.pop(); s.stack.pop()
        for p in path[i:]: s.sol.push(); s.sol.add(p.f); s.stack.append(p)
    def chk(s, st, f):
        """is pc and f satisfiable?"""
        key = (id(st.pc), f.get_id())
        if key in s.cache: return s.cache[key]
        s.keep.append((st.pc, f))
        s.sync(st); t = time.time(); s.nq += 1
        s.sol.push(); s.sol.add(f); r = s.sol.check(); 
        if r == z3.sat: s.model = s.sol.model()
        s.sol.pop(); s.tq += time.time() - t
        s.cache[key] = r
        return r
    def entails(s, st, f):
        f = simp(f)
        if f is True: return True
        if f is False: return s.chk(st, z3.BoolVal(True)) == z3.unsat
        return s.chk(st, z3.Not(f)) == z3.unsat
    def may(s, st, f):
        f = simp(f)
        if isinstance(f, bool): return f
        return s.chk(st, f) != z3.unsat
    def feasible(s, st): return s.chk(st, z3.BoolVal(True)) != z3.unsat
    def branch(s, st, c):
        """-> list of (st, bool)"""
        c = simp(c)
        if isinstance(c, bool): return [(st, c)]
        a = s.chk(st, c) != z3.unsat; nc = z3.Not(c); b = s.chk(st, nc) != z3.unsat
        out = []
        if a: out.append((st.assume(c), True))
        if b: out.append((st.assume(nc), False))
        if a and b and has_int(c):
            for i, (t, v) in enumerate(out): t.nlia += 1
        return out
    def prove(s, st, f, name, detail=''):
        """obligation: pc entails f"""
        f = simp(f) if not isinstance(f, bool) else f
        if f is True: s.obs.append((name, 'proved', detail, None)); return True
        nf = z3.BoolVal(True) if f is False else z3.Not(f)
        r = s.chk(st, nf)
        if r == z3.unknown:
            fs = []; p = st.pc
            while p is not None: fs.append(p.f); p = p.up
            sol = z3.Solver(); sol.set('timeout', 60000); sol.add(*fs); sol.add(nf); t = time.time(); r = sol.check(); s.tq += time.time() - t
            if r == z3.sat: s.model = sol.model()
        if r == z3.unsat: s.obs.append((name, 'proved', detail, None)); return True
        if r == z3.sat:
            # the model may stem from the cache of an earlier identical query: recompute for the report
            s.sync(st); s.sol.push(); s.sol.add(nf); m = ''
            if s.sol.check() == z3.sat: m = str(s.sol.model())
            s.sol.pop()
            s.obs.append((name, s.verdict(st), detail + ' not provable; counterexample: ' + m[:900] + ' goal: ' + str(f)[:500], m[:1500])); return False
        s.obs.append((name, 'unproved', detail + ' solver gave no answer', None)); return False
    def verdict(s, st):
        """a state behind a loop cut is an over-approximation: with the invariants of the contract the failure counts as
        unproved, with inferred invariants only the contract does not attach"""
        if 'cut' not in st.notes: return 'refuted'
        return 'unproved' if s.inv is not None or s.arr is not None or s.extra is not None else 'unsupported'
    def fail(s, st, name, detail):
        """reaching this point is a violation, if the path is feasible"""
        if s.feasible(st): s.obs.append((name, s.verdict(st), detail + ' [path: ' + '; '.join(str(x)[:120] for x in s.pclist(st)[-8:]) + ']', None))
        else: s.obs.append((name, 'proved', 'infeasible', None))
    def pclist(s, st):
        out = []; p = st.pc
        while p is not None: out.append(p.f); p = p.up
        out.reverse(); return out
    # ------------------------------------------------------------ fresh values
    def fresh(s, name, lo=MININT, hi=MAXINT):
        """-> (z3 Int, constraint)"""
        s.nfresh += 1; v = z3.Int(f'{name}!{s.nfresh}'); s.ranges[v.get_id()] = (lo, hi); s.keep.append(v)
        return v
    def sint(s, st, name, lo=MININT, hi=MAXINT):
        v = s.fresh(name, lo, hi); c = []
        if lo is not None: c.append(v >= lo)
        if hi is not None: c.append(v <= hi)
        return st.assume(z3.And(*c)) if c else st, v
    def fbv(s, name, w=8): s.nfresh += 1; return z3.BitVec(f'{name}!{s.nfresh}', w)
    def fbool(s, name): s.nfresh += 1; return z3.Bool(f'{name}!{s.nfresh}')
    def ffun(s, name, *sorts): s.nfresh += 1; return z3.Function(f'{name}!{s.nfresh}', *sorts)
    def alloc(s, st, rec):
        s.nfresh += 1; r = Ref(s.nfresh); return st.put(r, rec), r
    def symbuf(s, st, name, length=None, lo=0, hi=MAXSTR):
        """buffer with unknown contents"""
        if length is None: st, length = s.sint(st, name + '.len', lo, hi)
        f = s.ffun(name, Int, BV8)
        return s.alloc(st, Buf(length, base=lambda st_, i: f(i if isz(i) else z3.IntVal(i))))
    def fnbuf(s, st, length, fn):
        """buffer whose byte i is fn(i)"""
        return s.alloc(st, Buf(length, base=lambda st_, i: fn(i if isz(i) else z3.IntVal(i))))
    def lit(s, st, b): return s.alloc(st, Buf(len(b), cells=tuple(chr_(x) for x in b)))
    def cbuf(s, st, cells): return s.alloc(st, Buf(len(cells), cells=tuple(cells)))
    def interval(s, e):
        """conservative interval of an integer term"""
        if isinstance(e, int): return (e, e)
        i = e.get_id()
        if i in s.ranges: return s.ranges[i]
        r = (None, None)
        if z3.is_int_value(e): r = (e.as_long(), e.as_long())
        else:
            k = e.decl().kind(); ch = e.children()
            if k == z3.Z3_OP_ADD:
                iv = [s.interval(c) for c in ch]; r = (None if any(a is None for a, b in iv) else sum(a for a, b in iv), None if any(b is None for a, b in iv) else sum(b for a, b in iv))
            elif k == z3.Z3_OP_SUB and len(ch) == 2:
                a, b = s.interval(ch[0]), s.interval(ch[1]); r = (None if a[0] is None or b[1] is None else a[0] - b[1], None if a[1] is None or b[0] is None else a[1] - b[0])
            elif k == z3.Z3_OP_UMINUS:
                a = s.interval(ch[0]); r = (None if a[1] is None else -a[1], None if a[0] is None else -a[0])
            elif k == z3.Z3_OP_MUL and len(ch) == 2:
                a, b = s.interval(ch[0]), s.interval(ch[1])
                if None not in a + b: p = [x * y for x in a for y in b]; r = (min(p), max(p))
            elif k == z3.Z3_OP_ITE:
                a, b = s.interval(ch[1]), s.interval(ch[2]); r = (None if None in (a[0], b[0]) else min(a[0], b[0]), None if None in (a[1], b[1]) else max(a[1], b[1]))
            elif k in (z3.Z3_OP_MOD,) and z3.is_int_value(ch[1]) and ch[1].as_long() > 0: r = (0, ch[1].as_long() - 1)
            elif k == z3.Z3_OP_IDIV and z3.is_int_value(ch[1]) and ch[1].as_long() > 0:
                a = s.interval(ch[0]); d = ch[1].as_long(); r = (None if a[0] is None else a[0] // d, None if a[1] is None else a[1] // d)
        s.ranges[i] = r; s.keep.append(e)
        return r
    def fit(s, st, r, lo=MININT, hi=MAXINT, size=2**63):
        """machine-integer result of the mathematical value r: list of (st, value)"""
        r = simp(r)
        if isinstance(r, int): return [(st, (r - lo) % size + lo)]
        a, b = s.interval(r)
        if a is not None and b is not None and a >= lo and b <= hi: return [(st, r)]
        out = []
        inr = z3.And(r >= lo, r <= hi)
        if s.entails(st, inr): return [(st, r)]
        for cond, val in ((inr, r), (r > hi, r - size), (r < lo, r + size)):
            if s.may(st, cond): out.append((st.assume(cond), simp(val)))
        return out
    def concretize(s, st, v, maxn=300):
        """-> list of (st, python int)"""
        if is_bv(v):
            v = sbv(v)
            if isinstance(v, int): return [(st, v)]
        v = simp(v)
        if isinstance(v, int): return [(st, v)]
        out = []; cur = st
        while True:
            s.sync(cur)
            r = s.sol.check()
            if r == z3.unsat: break
            if r != z3.sat or len(out) > maxn: raise Unsupported('too many values to enumerate')
            m = s.sol.model().eval(v, model_completion=True)
            n = m.as_signed_long() if is_bv(v) else m.as_long()
            out.append((cur.assume(v == m), n)); cur = cur.assume(v != m)
        return out
    # ------------------------------------------------------------ buffers
    def rd(s, st, rec, i):
        """byte i of a buffer record (no bounds check)"""
        i = simp(i)
        if rec.cells is not None:
            if isinstance(i, int):
                if 0 <= i < len(rec.cells): return rec.cells[i]
                return chr_(0)
            if is_bv(i):
                e = rec.cells[-1]
                for k in range(len(rec.cells) - 2, -1, -1): e = z3.If(i == k, rec.cells[k], e)
                return e
            e = rec.cells[-1] if rec.cells else chr_(0)
            for k in range(len(rec.cells) - 2, -1, -1): e = z3.If(i == k, rec.cells[k], e)
            return e
        todo = []
        for lo, n, fn in reversed(rec.layers):
            c = simp(z3.And(_z(lo) <= _z(i), _z(i) < _z(lo) + _z(n)))
            if c is False: continue
            if c is not True:
                if s.entails(st, c): c = True
                elif s.entails(st, z3.Not(c)): continue
            if c is True: e = fn(st, i); break
            todo.append((c, fn))
        else: e = rec.base(st, i)
        for c, fn in reversed(todo): e = z3.If(c, fn(st, i), e)
        return e
    def wr_range(s, st, r, lo, n, fn):
        """buffer r: bytes lo .. lo+n-1 become fn(st, i); no bounds check"""
        rec = st.get(r); lo = simp(lo); n = simp(n)
        if n == 0: return st
        if rec.cells is not None and isinstance(lo, int) and isinstance(n, int):
            cs = list(rec.cells)
            for i in range(lo, lo + n): cs[i] = simp_bv(fn(st, i))
            return st.put(r, Buf(rec.len, cells=tuple(cs), meta=None))
        if rec.cells is not None:
            if len(rec.cells) <= 64 and (isinstance(n, int) or True):
                # keep the buffer dense: every cell may have changed
                cs = []
                for k, old in enumerate(rec.cells):
                    c = simp(z3.And(_z(lo) <= k, k < _z(lo) + _z(n)))
                    if c is not True and c is not False:
                        if s.entails(st, c): c = True
                        elif s.entails(st, z3.Not(c)): c = False
                    cs.append(simp_bv(fn(st, k)) if c is True else old if c is False else z3.If(c, fn(st, k), old))
                return st.put(r, Buf(rec.len, cells=tuple(cs)))
            old = rec
            rec = Buf(rec.len, base=lambda st_, i, old=old: s.rd(st_, old, i))
        return st.put(r, Buf(rec.len, base=rec.base, layers=rec.layers + ((lo, n, fn),)))
    def content(s, st, r, lo=0, n=None):
        rec = st.get(r)
        if n is None: n = rec.len
        return [s.rd(st, rec, simp(lo + i)) for i in range(n)]
    def range_ok(s, st, ofs, n, length):
        return z3.And(_z(ofs) >= 0, _z(n) >= 0, _z(ofs) <= _z(length) - _z(n))
    # ------------------------------------------------------------ modules
    def module_env(s, items, env):
        names = {}
        for it in items:
            k = it[0]
            if k == 'value':
                e2 = Env(env)
                for p, e in it[3]:
                    for nm in pat_vars(p):
                        lz = Lazy(e, e2 if it[2] else env, nm, it[2]); lz.pat = p
                        e2.vars[nm] = lz; names[nm] = lz
                env = e2
            elif k == 'external':
                v = ('ext', it[2], it[3][-1]); env = Env(env, {it[2]: v}); names[it[2]] = v
            elif k == 'module':
                m = s.mod_eval(it[3], env)
                if it[2] is not None: env = Env(env, {it[2]: m}); names[it[2]] = m
            elif k == 'class':
                e2 = Env(env)
                for nm, ce in it[2]: cd = ClassDef(nm, ce, e2); e2.vars['class ' + nm] = cd; names['class ' + nm] = cd
                env = e2
            elif k in ('eval', 'exception', 'type', 'skip'): pass
            elif k == 'openm' or k == 'include':
                m = s.mod_eval(it[2], env); env = Env(env, dict(m.items))
                if k == 'include': names.update(m.items)
            else: raise Unsupported('structure item ' + k)
        return Mod(env, names)
    def mod_eval(s, m, env):
        k = m[0]
        if k == 'mstruct': return s.module_env(m[1], env)
        if k == 'mid': return s.mod_path(m[1], env)
        if k == 'mfunctor': return Functor(m[1], m[2], env)
        if k == 'mapply':
            f = s.mod_eval(m[1], env); a = s.mod_eval(m[2], env)
            return s.mod_eval(f.body, Env(f.env, {f.param: a}))
        raise Unsupported('module expression ' + k)
    def mod_path(s, path, env):
        ps = path.split('.'); m = env.find(ps[0])
        if m is None: raise Unsupported('module ' + path)
        for p in ps[1:]: m = m.items[p]
        return m
    def lookup(s, st, name, env):
        """-> (st, value)"""
        if '.' in name and not name.endswith('.'):
            mp, nm = name.rsplit('.', 1); m = s.mod_path(mp, env); v = m.items.get(nm)
            if v is None: raise Unsupported('unknown ' + name)
        else: v = env.find(name)
        if v is None: raise Unsupported('unbound ' + name)
        return s.force(st, v, name)
    def force(s, st, v, name=''):
        if isinstance(v, tuple) and len(v) == 3 and v[0] == 'ivar': return st, st.heap[v[1].id].fields[v[2]]
        if isinstance(v, tuple) and len(v) == 3 and v[0] == 'ext':
            c = v[2]
            if c not in s.ext: raise Unsupported('no contract for primitive ' + c)
            return st, s.ext[c]
        if isinstance(v, Lazy):
            if v.name in s.over: return st, s.over[v.name]
            if id(v) in st.glob: return st, st.glob[id(v)]
            if v.expr[0] in ('fun', 'function'): 
                return st, Clo(v.expr, v.env, v.name, v.rec)
            outs = s.ev(v.expr, v.env, st)
            if len(outs) != 1 or outs[0][1] != 'val': raise Unsupported('global ' + v.name)
            st2, _, val = outs[0]
            if v.pat[0] != 'var': 
                r = s.bindpat(v.pat, val, st2, Env(None))
                (st2, e2), = r; val = e2.vars[v.name]
            st3 = st2.copy(); st3.glob = dict(st2.glob); st3.glob[id(v)] = val
            return st3, val
        return st, v
    # ------------------------------------------------------------ evaluation
    def touch(s, name):
        if name and name not in s.touched: s.touched.append(name)
    def seqmap(s, outs, f):
        """non-tail continuation"""
        res = []
        for st, k, v in outs:
            if k == 'val': res += f(st, v)
            elif k == 'back': raise Unsupported('recursive call in non-tail position')
            else: res.append((st, k, v))
        if len(res) > s.maxpaths: raise Unsupported('too many paths')
        return res
    def evs(s, es, env, st, order=None):
        """evaluate expressions right to left (OCaml's order), -> outcomes with tuple value"""
        outs = [(st, 'val', ())]
        for e in reversed(es):
            outs = s.seqmap(outs, lambda st1, acc, e=e: s.seqmap(s.ev(e, env, st1), lambda st2, v: [(st2, 'val', (v,) + acc)]))
        return outs
    def ev(s, e, env, st):
        return getattr(s, 'e_' + e[0])(e, env, st)
    def e_id(s, e, env, st):
        st, v = s.lookup(st, e[2], env); return [(st, 'val', v)]
    def e_const(s, e, env, st):
        return s.const(e[2], st, id(e))
    def const(s, c, st, key=None):
        k = c[0]
        if k == 'int':
            v = int(c[1].replace('_', ''), 0) if not (c[1].startswith('0') and len(c[1]) > 1 and c[1][1].isdigit()) else int(c[1])
            if len(c) > 2:
                if c[2] == 'L': return [(st, 'val', I64(v if v < 2**63 else v - 2**64))]
                raise Unsupported('literal suffix ' + c[2])
            return [(st, 'val', wrap63(v))]
        if k == 'char': return [(st, 'val', chr_(c[1]))]
        if k == 'string':
            if ('lit', key) in st.glob: return [(st, 'val', st.glob[('lit', key)])]
            st, r = s.lit(st, c[1].encode('latin-1')); g = dict(st.glob); g[('lit', key)] = r; st = st.copy(); st.glob = g
            return [(st, 'val', r)]
        raise Unsupported('constant ' + k)
    def e_let(s, e, env, st):
        _, ln, rec, vbs, body = e
        if rec:
            env2 = Env(env)
            for p, x in vbs:
                if p[0] != 'var' or x[0] not in ('fun', 'function'): raise Unsupported('let rec')
                env2.vars[p[1]] = Clo(x, env2, p[1], True)
            return s.ev(body, env2, st)
        def bind(st1, vals):
            outs = [(st1, Env(env))]
            for (p, x), v in zip(vbs, vals):
                outs = [o for st2, e2 in outs for o in s.bindpat(p, v, st2, e2, True)]
            return [r for st2, e2 in outs for r in s.ev(body, e2, st2)]
        if len(vbs) == 1 and vbs[0][1][0] in ('fun', 'function') and vbs[0][0][0] == 'var':
            return s.ev(body, Env(env, {vbs[0][0][1]: Clo(vbs[0][1], env, vbs[0][0][1])}), st)
        res = []
        for st1, k, v in s.evs([x for p, x in vbs], env, st):
            res += bind(st1, v) if k == 'val' else [(st1, k, v)]
        return res
    def e_fun(s, e, env, st): return [(st, 'val', Clo(e, env, ''))]
    def e_function(s, e, env, st): return [(st, 'val', Clo(e, env, ''))]
    def e_tuple(s, e, env, st): return s.evs(e[2], env, st)
    def e_construct(s, e, env, st):
        n = e[2]
        if n == 'true': return [(st, 'val', True)]
        if n == 'false': return [(st, 'val', False)]
        n = n.split('.')[-1]
        if e[3] is None: return [(st, 'val', UNIT if n == '()' else NONE if n == 'None' else Con(n))]
        return s.seqmap(s.ev(e[3], env, st), lambda st1, v: [(st1, 'val', Con(n, v))])
    def e_if(s, e, env, st):
        res = []
        for st1, k, c in s.ev(e[2], env, st):
            if k == 'back': raise Unsupported('recursive call in condition')
            if k != 'val': res.append((st1, k, c)); continue
            for st2, b in s.branch(st1, c):
                if b: res += s.ev(e[3], env, st2)
                elif e[4] is not None: res += s.ev(e[4], env, st2)
                else: res.append((st2, 'val', UNIT))
        return res
    def e_seq(s, e, env, st):
        res = []
        for st1, k, c in s.ev(e[2], env, st):
            if k == 'back': raise Unsupported('recursive call in non-tail position')
            if k != 'val': res.append((st1, k, c)); continue
            res += s.ev(e[3], env, st1)
        return res
    def e_assert(s, e, env, st):
        res = []
        for st1, k, c in s.ev(e[2], env, st):
            if k != 'val': res.append((st1, k, c)); continue
            for st2, b in s.branch(st1, c): res.append((st2, 'val', UNIT) if b else (st2, 'exc', Con('Assert_failure')))
        return res
    def e_open(s, e, env, st): return s.ev(e[3], Env(env, dict(s.mod_eval(e[2], env).items)), st)
    def e_match(s, e, env, st):
        res = []
        for st1, k, v in s.ev(e[2], env, st):
            if k == 'back': raise Unsupported('recursive call in non-tail position')
            if k == 'exc':
                cs = [c for c in e[3] if c[0][0] == 'exception']
                if not cs: res.append((st1, k, v)); continue
                res += s.cases([[c[0][1], c[1], c[2]] for c in cs], v, env, st1, reraise=True); continue
            res += s.cases([c for c in e[3] if c[0][0] != 'exception'], v, env, st1)
        return res
    def e_try(s, e, env, st):
        res = []
        for st1, k, v in s.ev(e[2], env, st):
            if k == 'back': raise Unsupported('recursive call inside try')
            if k != 'exc': res.append((st1, k, v)); continue
            res += s.cases(e[3], v, env, st1, reraise=True)
        return res
    def cases(s, cs, v, env, st, reraise=False):
        res = []; pend = [st]
        for p, guard, body in cs:
            nxt = []
            for st1 in pend:
                for st2, cond, env2 in s.matches(p, v, st1, Env(env)):
                    for st3, b in s.branch(st2, cond):
                        if not b: nxt.append(st3); continue
                        if guard is None: res += s.ev(body, env2, st3); continue
                        for st4, k, g in s.ev(guard, env2, st3):
                            if k != 'val': raise Unsupported('guard raises')
                            for st5, gb in s.branch(st4, g):
                                if gb: res += s.ev(body, env2, st5)
                                else: nxt.append(st5)
            pend = nxt
            if not pend: break
        for st1 in pend: res.append((st1, 'exc', v if reraise else Con('Match_failure')))
        return res
    def matches(s, p, v, st, env):
        """-> list of (st, condition, env): single alternative, condition may be symbolic"""
        k = p[0]
        if k == 'any': return [(st, True, env)]
        if k == 'var': env.vars[p[1]] = v; return [(st, True, env)]
        if k == 'alias': env.vars[p[2]] = v; return s.matches(p[1], v, st, env)
        if k == 'const':
            (st1, _, c), = s.const(p[1], st, id(p)); return [(st1, s.equal(st1, v, c), env)]
        if k == 'interval':
            (_, _, a), = s.const(p[1], st); (_, _, b), = s.const(p[2], st)
            if is_bv(v, 8): return [(st, simp(z3.And(z3.UGE(v, a), z3.ULE(v, b))), env)]
            return [(st, simp(z3.And(_z(v) >= a, _z(v) <= b)), env)]
        if k == 'tuple':
            cond = True
            for q, x in zip(p[1], v):
                (st, c, env), = s.matches(q, x, st, env); cond = conj(cond, c)
            return [(st, cond, env)]
        if k == 'construct':
            n = p[1].split('.')[-1]
            if n in ('true', 'false'): return [(st, v == (n == 'true') if isinstance(v, bool) else (v if n == 'true' else z3.Not(v)), env)]
            if not isinstance(v, Con): raise Unsupported('constructor pattern on ' + repr(v)[:60])
            if v.name != n: return [(st, False, env)]
            if p[2] is None or v.arg is None: return [(st, True, env)]
            return s.matches(p[2], v.arg, st, env)
        if k == 'or':
            (st, a, e1), = s.matches(p[1], v, st, env); (st, b, e2), = s.matches(p[2], v, st, env)
            return [(st, disj(a, b), env)]
        if k == 'record':
            rec = st.get(v); cond = True
            for f, q in p[1]: (st, c, env), = s.matches(q, rec.fields[f.split('.')[-1]], st, env); cond = conj(cond, c)
            return [(st, cond, env)]
        raise Unsupported('pattern ' + k)
    def bindpat(s, p, v, st, env, must=False):
        (st, c, env), = s.matches(p, v, st, env)
        if c is not True:
            raise Unsupported('refutable pattern in binding')
        return [(st, env)]
    def e_record(s, e, env, st):
        fs = e[2]
        def fin(st1, vals):
            d = {f.split('.')[-1]: v for (f, _), v in zip(fs, vals)}
            return [(*s.alloc(st1, Rec(d)), )]
        res = []
        for st1, k, vals in s.evs([x for f, x in fs], env, st):
            if k != 'val': res.append((st1, k, vals)); continue
            base = {}
            if e[3] is not None:
                (st1, kk, b), = s.ev(e[3], env, st1); base = dict(st1.get(b).fields)
            base.update({f.split('.')[-1]: v for (f, _), v in zip(fs, vals)})
            st2, r = s.alloc(st1, Rec(base)); res.append((st2, 'val', r))
        return res
    def e_field(s, e, env, st):
        return s.seqmap(s.ev(e[2], env, st), lambda st1, r: [(st1, 'val', st1.get(r).fields[e[3].split('.')[-1]])])
    def e_setfield(s, e, env, st):
        def f(st1, vs):
            v, r = vs[1], vs[0]; rec = st1.get(r); d = dict(rec.fields); d[e[3].split('.')[-1]] = v
            return [(st1.put(r, Rec(d)), 'val', UNIT)]
        return s.seqmap(s.evs([e[2], e[4]], env, st), f)
    def e_array(s, e, env, st):
        return s.seqmap(s.evs(e[2], env, st), lambda st1, vs: [s.alloc(st1, Arr(tuple(vs)))[0:1] + ('val',) + s.alloc(st1, Arr(tuple(vs)))[1:]] if False else s._arr(st1, vs))
    def _arr(s, st, vs):
        st2, r = s.alloc(st, Arr(tuple(vs))); return [(st2, 'val', r)]
    def e_setinst(s, e, env, st):
        b = env.find(e[2])
        if not (isinstance(b, tuple) and b[0] == 'ivar'): raise Unsupported('instance variable ' + e[2])
        return s.seqmap(s.ev(e[3], env, st), lambda st1, v: [(s.setfield(st1, b[1], e[2], v), 'val', UNIT)])
    def setfield(s, st, obj, name, v):
        rec = st.get(obj); d = dict(rec.fields); d[name] = v
        return st.put(obj, ObjRec(rec.cls, d, rec.methods))
    def fld(s, st, obj, name):
        f = st.get(obj).fields
        if name not in f: raise Unsupported(f'instance variable {name} not found')
        return f[name]
    # ---- application
    def e_app(s, e, env, st):
        f = e[2]; args = e[3]
        if f[0] == 'id':
            op = f[2]
            if op in ('&&', '&', '||', 'or') and env.find(op) is None:
                conj_ = op[0] == '&'; res = []
                for st1, k, a in s.ev(args[0][1], env, st):
                    if k != 'val': res.append((st1, k, a)); continue
                    for st2, b in s.branch(st1, a):
                        if b != conj_: res.append((st2, 'val', b))
                        else: res += s.ev(args[1][1], env, st2)
                return res
            if op == '@@': return s.e_app(['app', e[1], args[0][1], [args[1]]], env, st)
            if op == '|>': return s.e_app(['app', e[1], args[1][1], [args[0]]], env, st)
        res = []
        for st1, k, vs in s.evs([f] + [a for l, a in args], env, st):
            if k != 'val': res.append((st1, k, vs)); continue
            res += s.apply(st1, vs[0], [(l, v) for (l, _), v in zip(args, vs[1:])])
        return res
    def call(s, st, f, *args): return s.apply(st, f, [('', a) for a in args])
    def apply(s, st, f, args):
        if not args: return [(st, 'val', f)]
        if isinstance(f, Bi):
            got = f.got + tuple(args)
            pos = [a for l, a in got if l == '']; lab = {l: a for l, a in got if l != ''}
            if len(pos) < f.arity: return [(st, 'val', Bi(f.name, f.arity, f.fn, got))]
            outs = f.fn(s, st, pos[:f.arity]) if not lab else f.fn(s, st, pos[:f.arity], **{l[1:]: (l[0], a) for l, a in lab.items()})
            rest = pos[f.arity:]
            if not rest: return outs
            return s.seqmap(outs, lambda st1, v: s.apply(st1, v, [('', a) for a in rest]))
        if isinstance(f, Clo): return s.apply_clo(st, f, args)
        if isinstance(f, z3.FuncDeclRef): return [(st, 'val', f(*[a for _, a in args]))]
        raise Unsupported('application of ' + repr(f)[:60])
    def bind_params(s, st, f, args):
        """binds parameters; -> ('full', st, env, body, rest) or ('partial', ...)"""
        node = f.node; env = Env(f.env); args = list(args); outs = []
        def go(st, node, env, args):
            while node[0] == 'fun' and (args or node[2].startswith('?')):
                _, ln, lab, dflt, pat, body = node
                hit = None
                for i, (l, v) in enumerate(args):
                    if lab == '' and l == '': hit = i; break
                    if lab != '' and l != '' and l[1:] == lab[1:]: hit = i; break
                if hit is None and lab.startswith('~'):
                    for i, (l, v) in enumerate(args):
                        if l == '': hit = i; break
                if hit is None:
                    if lab.startswith('?') and any(l == '' for l, v in args): v = NONE; l = '?'
                    elif lab.startswith('?'): return ('partial', st, env, node, args)
                    else: return ('partial', st, env, node, args)
                else: l, v = args.pop(hit)
                if lab.startswith('?'):
                    if hit is not None and l.startswith('~'): v = Some(v)
                    if dflt is not None:
                        if v.name == 'None':
                            (st, k, v), = s.ev(dflt, env, st)
                            if k != 'val': raise Unsupported('default argument raises')
                        else: v = v.arg
                env = Env(env); (st, env), = s.bindpat(pat, v, st, env); node = body
            return ('full', st, env, node, args)
        return go(st, node, env, args)
    def apply_clo(s, st, f, args):
        node = f.node
        key = (id(node), f.env.self.id if f.env.self is not None else None)
        if f.name and f.name in s.over and not getattr(s, 'verifying', None) == f.name: return s.apply(st, s.over[f.name], args)
        fr = [i for i, x in enumerate(st.frames) if x[0] == key]
        if fr:
            i = fr[-1]; k, mode, nl, cnt = st.frames[i]
            if mode == 'cut': return [(st, 'back', (key, tuple(args)))]
            if cnt >= s.unroll: raise NeedCut(key)
            if cnt >= 2 and st.nlia - nl >= cnt: raise NeedCut(key)
            st2 = st.copy(); st2.frames = st.frames[:i] + ((key, mode, nl, cnt + 1),)
            outs = s.run_body(st2, f, args)
            return [(s.unframe(t, st.frames), k2, v) for t, k2, v in outs]
        s.touch(f.name)
        st1 = st.copy(); st1.frames = st.frames + ((key, 'unroll', st.nlia, 0),)
        saved = len(s.obs)
        try:
            outs = s.run_body(st1, f, args)
        except NeedCut as nc:
            if nc.key != key: raise
            del s.obs[saved:]
            st1 = st.copy(); st1.frames = st.frames + ((key, 'cut', st.nlia, 0),)
            vals = tuple(v for l, v in args); labs = tuple(l for l, v in args)
            def run(stx, vs):
                outs = []
                for t, k2, v in s.run_body(stx, f, list(zip(labs, vs))):
                    if k2 == 'back' and v[0] == key:
                        if tuple(l for l, _ in v[1]) != labs: raise Unsupported('recursive call with other labels')
                        outs.append((t, 'back', tuple(x for _, x in v[1])))
                    elif k2 == 'back': raise Unsupported('mutual recursion')
                    else: outs.append((t, k2, v))
                return outs
            outs = s.cut(st1, vals, run, f.name or 'loop')
        return [(s.unframe(t, st.frames), k2, v) for t, k2, v in outs]
    def unframe(s, st, frames):
        t = st.copy(); t.frames = frames; return t
    def run_body(s, st, f, args):
        if f.node[0] == 'function':
            res = s.cases(f.node[2], args[0][1], f.env, st)
            return s.seqmap(res, lambda t, v: s.apply(t, v, args[1:])) if len(args) > 1 else res
        kind, st, env, node, rest = s.bind_params(st, f, args)
        if kind == 'partial':
            if node is f.node: return [(st, 'val', Partial(f, rest))] if False else s._partial(st, node, env, rest, f)
            return s._partial(st, node, env, rest, f)
        if node[0] == 'fun':
            return [(st, 'val', Clo(node, env, f.name))]
        res = s.ev(node, env, st)
        if rest: return s.seqmap(res, lambda t, v: s.apply(t, v, rest))
        return res
    def _partial(s, st, node, env, rest, f):
        c = Clo(node, env, f.name)
        if not rest: return [(st, 'val', c)]
        # labelled arguments supplied out of order: wrap
        def fn(W, st1, pos, **kw):
            return W.apply(st1, c, list(rest) + [('', p) for p in pos])
        return [(st, 'val', Bi(f.name + '/partial', 1, fn))]
    # ---- objects
    def e_send(s, e, env, st):
        return s.seqmap(s.ev(e[2], env, st), lambda st1, o: s.send_eval(st1, o, e[3], tail=True)) if e[2][0] != 'id' else s._send(e, env, st)
    def _send(s, e, env, st):
        (st1, k, o), = s.ev(e[2], env, st)
        return s.send_eval(st1, o, e[3], tail=True)
    def send_eval(s, st, o, name, tail=False):
        if isinstance(o, PyObj):
            if name not in o.methods: raise Unsupported(f'{o.name}#{name}')
            ar, fn = o.methods[name]
            if ar == 0: return fn(s, st, [])
            return [(st, 'val', Bi(f'{o.name}#{name}', ar, fn))]
        if isinstance(o, Super): ms = o.methods; obj = o.obj
        elif isinstance(o, Ref) and isinstance(st.get(o), ObjRec): ms = st.get(o).methods; obj = o
        else: raise Unsupported(f'method {name} of ' + repr(o)[:50])
        if name not in ms: raise Unsupported('no method ' + name)
        body, env, cname = ms[name]
        qn = f'{cname}#{name}'
        if qn in s.over: 
            ov = s.over[qn]
            if ov.arity == 0: return ov.fn(s, st, [], obj)
            return [(st, 'val', Bi(qn, ov.arity, lambda W, st1, a: ov.fn(W, st1, a, obj)))]
        if body[0] in ('fun', 'function'):
            return [(st, 'val', Clo(body, env, qn, True))]
        # a method without parameters: may recurse too
        f = Clo(['fun', 0, '', None, ['any'], body], env, qn, True)
        f.node = s.litcache.setdefault(('m', id(body)), f.node)
        return s.apply_clo(st, f, [('', UNIT)])
    def send(s, st, o, name, *args):
        return s.seqmap(s.send_eval(st, o, name), lambda st1, f: s.apply(st1, f, [('', a) for a in args]) if args else [(st1, 'val', f)])
    def e_new(s, e, env, st):
        return [(st, 'val', s.newfun(s.find_class(e[2], env), e[2]))] if s.class_params(s.find_class(e[2], env)) else s.instantiate(st, s.find_class(e[2], env), [])
    def newfun(s, cd, name):
        n = s.class_params(cd)
        def fn(W, st, pos, **kw): raise Unsupported('new')
        return ClassFun(cd)
    def find_class(s, name, env):
        if '.' in name:
            mp, nm = name.rsplit('.', 1); m = s.mod_path(mp, env); c = m.items.get('class ' + nm)
        else: c = env.find('class ' + name)
        if c is None: raise Unsupported('class ' + name)
        return c
    def class_params(s, cd):
        ce = cd.cexpr; n = 0; supplied = 0
        while True:
            if ce[0] == 'cfun': n += 1; ce = ce[4]
            elif ce[0] == 'capp': supplied += len(ce[2]); ce = ce[1]
            elif ce[0] == 'cid': return n + max(0, s.class_params(s.find_class(ce[1], cd.env)) - supplied)
            elif ce[0] == 'clet': ce = ce[3]
            else: return n
    def instantiate(s, st, cd, args):
        """new C args -> outcomes"""
        s.nfresh += 1; obj = Ref(s.nfresh)
        st = st.put(obj, ObjRec(cd.name, {}, {}))
        s.touch('class ' + cd.name)
        outs = s.build(st, obj, cd.cexpr, cd.env, args, cd.name)
        def fin(st1, v):
            names, inits = v
            o = [(st1, 'val', UNIT)]
            for e, env in inits: o = s.seqmap(o, lambda t, _, e=e, env=env: s.ev(e, env, t))
            return s.seqmap(o, lambda t, _: [(t, 'val', obj)])
        return s.seqmap(outs, fin)
    def build(s, st, obj, ce, env, args, cname):
        """-> outcomes with value (set of ivars, [initializers])"""
        k = ce[0]
        if k == 'cid':
            cd = s.find_class(ce[1], env); return s.build(st, obj, cd.cexpr, cd.env, args, cd.name)
        if k == 'capp':
            return s.seqmap(s.evs([a for l, a in ce[2]], env, st), lambda st1, vs: s.build(st1, obj, ce[1], env, [(l, v) for (l, _), v in zip(ce[2], vs)] + list(args), cname))
        if k == 'cfun':
            _, lab, dflt, pat, body = ce; args = list(args); hit = None
            for i, (l, v) in enumerate(args):
                if (lab == '' and l == '') or (lab != '' and l != '' and l[1:] == lab[1:]): hit = i; break
            if hit is None:
                if not lab.startswith('?'): raise Unsupported('missing class argument ' + lab)
                l, v = '?', NONE
            else: l, v = args.pop(hit)
            def cont(st1, v): 
                e2 = Env(env); (st2, e2), = s.bindpat(pat, v, st1, e2); return s.build(st2, obj, body, e2, args, cname)
            if lab.startswith('?'):
                if l.startswith('~'): v = Some(v)
                if dflt is not None:
                    if v.name == 'None': return s.seqmap(s.ev(dflt, env, st), cont)
                    v = v.arg
            return cont(st, v)
        if k == 'clet':
            if ce[1]: raise Unsupported('class let rec')
            vbs = ce[2]
            def cont(st1, vs):
                e2 = Env(env)
                for (p, _), v in zip(vbs, vs): (st1, e2), = s.bindpat(p, v, st1, e2)
                return s.build(st1, obj, ce[3], e2, args, cname)
            return s.seqmap(s.evs([x for p, x in vbs], env, st), cont)
        if k == 'cstruct':
            names = set(); env2 = Env(env, {}, names, obj)
            sp = ce[1]
            while sp[0] == 'alias': env2.vars[sp[2]] = obj; sp = sp[1]
            if sp[0] == 'var': env2.vars[sp[1]] = obj
            outs = [(st, 'val', (names, ()))]
            for f in ce[2]:
                outs = s.seqmap(outs, lambda st1, acc, f=f: s.build_field(st1, obj, f, env, env2, names, acc, cname))
            return outs
        raise Unsupported('class expression ' + k)
    def build_field(s, st, obj, f, env, env2, names, acc, cname):
        k = f[0]; nm, inits = acc
        if k == 'val':
            def g(st1, v): names.add(f[1]); return [(s.setfield(st1, obj, f[1], v), 'val', (names, inits))]
            return s.seqmap(s.ev(f[3], env, st), g)
        if k == 'method':
            rec = st.get(obj); ms = dict(rec.methods); ms[f[1]] = (f[3], env2, cname)
            return [(st.put(obj, ObjRec(rec.cls, rec.fields, ms)), 'val', (names, inits))]
        if k == 'init': return [(st, 'val', (names, inits + ((f[1], env2),)))]
        if k == 'inherit':
            def g(st1, v):
                ns, ini = v; names.update(ns)
                if f[2] is not None: env2.vars[f[2]] = Super(dict(st1.get(obj).methods), obj)
                return [(st1, 'val', (names, inits + ini))]
            return s.seqmap(s.build(st, obj, f[1], env, [], cname), g)
        if k == 'skip': return [(st, 'val', acc)]
        raise Unsupported('class field ' + k)
    def e_object(s, e, env, st):
        s.nfresh += 1; obj = Ref(s.nfresh); st = st.put(obj, ObjRec('object', {}, {}))
        return s.seqmap(s.build(st, obj, e[2], env, [], 'object'), lambda st1, v: s.seqmap(s._inits(st1, v[1]), lambda t, _: [(t, 'val', obj)]))
    def _inits(s, st, inits):
        o = [(st, 'val', UNIT)]
        for e, env in inits: o = s.seqmap(o, lambda t, _, e=e, env=env: s.ev(e, env, t))
        return o
    # ---- loops
    def e_while(s, e, env, st):
        key = (id(e), env.self.id if env.self else None)
        def step(stx):
            outs = []
            for t, k, c in s.ev(e[2], env, stx):
                if k != 'val': outs.append((t, k, c)); continue
                for t2, b in s.branch(t, c):
                    if not b: outs.append((t2, 'val', UNIT)); continue
                    for t3, k3, v3 in s.ev(e[3], env, t2):
                        if k3 == 'back': raise Unsupported('recursive call in loop')
                        outs.append((t3, 'back', ()) if k3 == 'val' else (t3, k3, v3))
            return outs
        # unroll while control is concrete
        saved = len(s.obs); pend = [(st, 0)]; done = []
        while pend:
            t, n = pend.pop()
            if n >= s.unroll or (n >= 2 and t.nlia - st.nlia >= n):
                del s.obs[saved:]
                return s.cut(st, (), lambda stx, vs: step(stx), 'while')
            for t2, k, v in step(t):
                if k == 'back': pend.append((t2, n + 1))
                else: done.append((t2, k, v))
        return done
    def e_for(s, e, env, st):
        _, ln, pat, lo, hi, up, body = e
        def go(st1, vs):
            return s.for_loop(st1, vs[0], vs[1], up, lambda t, i: s.ev(body, (lambda e2: s.bindpat(pat, i, t, e2)[0][1])(Env(env)), t))
        return s.seqmap(s.evs([lo, hi], env, st), go)
    def for_loop(s, st, lo, hi, up, body):
        """body(st, i) -> outcomes"""
        if is_bv(lo) or is_bv(hi):
            return [o for t, a in (s.concretize(st, lo) if is_bv(lo) else [(st, lo)]) for t2, b in (s.concretize(t, hi) if is_bv(hi) else [(t, hi)]) for o in s.for_loop(t2, a, b, up, body)]
        lo, hi = simp(lo), simp(hi)
        if isinstance(lo, int) and isinstance(hi, int):
            if hi - lo > 3000: raise Unsupported('long loop')
            outs = [(st, 'val', UNIT)]
            for i in (range(lo, hi + 1) if up else range(lo, hi - 1, -1)): outs = s.seqmap(outs, lambda t, _, i=i: body(t, i))
            return outs
        d = 1 if up else -1
        def run(stx, vs):
            i, = vs; outs = []
            for t, b in s.branch(stx, (_z(i) <= hi) if up else (_z(i) >= hi)):
                if not b: outs.append((t, 'val', UNIT)); continue
                for t2, k, v in body(t, i):
                    if k == 'back': raise Unsupported('recursive call in loop')
                    outs.append((t2, 'back', (simp(i + d),)) if k == 'val' else (t2, k, v))
            return outs
        return s.cut(st, (lo,), run, 'for', bounds=[_z(lo), _z(hi)])
    # ---- loop cut with inferred invariant
    def cut(s, st0, vals0, run, name, bounds=()):
        inv = s.inv
        outer = s.obs
        changed = set(); written = {}      # slots; heap id -> set of parts
        gch = set()
        dropped = set(); entry_obs = []
        deltas = {}; bvs = set()
        for rnd in range(60):
            # ---- havoc
            arrs = {}
            st = st0; terms = []       # (label, head term, entry value)
            vals = list(vals0)
            for i in sorted(changed, key=str):
                if i in bvs: vals[i] = s.fbv(f'v{i}', 63)
                else: st, vals[i] = s.havoc_val(st, vals0[i], f'v{i}')
                terms.append((('slot', i), vals[i], vals0[i]))
            for hid in sorted(written):
                rec = st.heap[hid]; r = Ref(hid)
                if isinstance(rec, Cell):
                    st, v = s.havoc_val(st, rec.v, f'cell{hid}'); st = st.put(r, Cell(v)); terms.append((('cell', hid), v, rec.v))
                elif isinstance(rec, ObjRec):
                    for f in sorted(written[hid]):
                        if inv is not None and inv.covers(st, hid, f): continue
                        st, v = s.havoc_val(st, rec.fields[f], f); st = s.setfield(st, r, f, v); terms.append((('field', hid, f), v, rec.fields[f]))
                elif isinstance(rec, Buf):
                    if inv is not None and inv.covers(st, hid, None): continue
                    if s.arr is not None:
                        b = s.arr(st, st0, hid, tuple(vals))
                        if b is not None: arrs[hid] = 1; st = st.put(r, b); continue
                    f = s.ffun('h', Int, BV8); st = st.put(r, Buf(rec.len, base=lambda st_, i, f=f: f(_z(i))))
                elif isinstance(rec, Arr):
                    vs = []
                    for v in rec.vs: st, x = s.havoc_val(st, v, 'arr'); vs.append(x)
                    st = st.put(r, Arr(tuple(vs)))
                else: raise Unsupported('loop modifies ' + type(rec).__name__)
            for gk in sorted(gch, key=str):
                if inv is not None and inv.covers_ghost(gk): continue
                st, v = s.havoc_val(st, st0.ghost[gk], f'g{gk}', full=True); st = st.gset(gk, v); terms.append((('ghost', gk), v, st0.ghost[gk]))
            if inv is not None and (written or gch): st = inv.havoc(s, st)
            # ---- candidates
            def cands(tv, stx):
                """tv: list of (label, current, entry)"""
                out = {}
                ints = [(l, c, e) for l, c, e in tv if is_int(c) and is_int(e)]
                if inv is not None:
                    for (l, c), (l0, e) in zip(inv.terms(s, stx), inv.terms(s, st0)): ints.append((('t', l), c, e))
                for l, c, e in ints:
                    out[('ge', l)] = _z(c) >= _z(e); out[('le', l)] = _z(c) <= _z(e); out[('nn', l)] = _z(c) >= 0
                    for k, b in enumerate(list(bounds) + s.bounds(st0, vals0, tv)):
                        out[('leb', l, k)] = _z(c) <= b; out[('leb1', l, k)] = _z(c) <= b + 1; out[('geb', l, k)] = _z(c) >= b; out[('geb1', l, k)] = _z(c) >= b - 1
                    d = deltas.get(l)
                    if d not in (None, 0, 1, -1): out[('mod', l)] = (_z(c) - _z(e)) % abs(d) == 0
                for i, (l, c, e) in enumerate(ints):
                    for l2, c2, e2 in ints[:i]:
                        out[('dif', l, l2)] = _z(c) - _z(c2) == _z(e) - _z(e2)
                        out[('sum', l, l2)] = _z(c) + _z(c2) == _z(e) + _z(e2)
                        d, d2 = deltas.get(l), deltas.get(l2)
                        if d and d2 and abs(d) != abs(d2): out[('lin', l, l2)] = d2 * (_z(c) - _z(e)) == d * (_z(c2) - _z(e2))
                for l, c, e in tv:
                    if is_bool(c) and is_bool(e): out[('beq', l)] = _zb(c) == _zb(e)
                    if is_bv(c) and (is_bv(e) or isinstance(e, int)): out[('bveq', l)] = c == (z3.BitVecVal(e, c.size()) if isinstance(e, int) else e)
                if s.extra is not None:
                    for nm, f in s.extra(s, stx, st0, [(l, c, e) for l, c, e in tv] + [(l, c, e) for l, c, e in ints if l[0] == 't'], written): out[('x', nm)] = f
                return {k: v for k, v in out.items() if k not in dropped}
            cs = cands(terms, st)
            if rnd == 0 or not hasattr(s, '_init_ok'): pass
            # entry check: candidates must hold initially
            ent = cands([(l, e, e) for l, c, e in terms], st0)
            bad = [k for k in cs if k not in ent or not s.entails_q(st0, ent[k])]
            if bad: dropped.update(bad); cs = {k: v for k, v in cs.items() if k not in dropped}
            for k, f in cs.items(): st = st.assume(simp_f(f))
            st = st.copy(); st.notes = st.notes + ('cut',)
            s.obs = []
            outs = run(st, tuple(vals))
            backs = [(t, v) for t, k, v in outs if k == 'back']
            # ---- what else changes?
            grew = False
            for t, nv in backs:
                for i in range(len(vals)):
                    if i not in changed and not same(vals[i], nv[i]):
                        if s.def_same(t, vals[i], nv[i]): continue
                        changed.add(i); grew = True
                    if i not in bvs and is_bv(nv[i], 63) and is_int(vals[i]): bvs.add(i); changed.add(i); grew = True
                for hid, rec in st.heap.items():
                    r2 = t.heap[hid]
                    if r2 is rec: continue
                    if hid not in st0.heap:
                        if inv is not None and inv.covers(st, hid, None): continue
                        raise Unsupported('loop modifies an object of the arbitrary loop state')
                    if isinstance(rec, ObjRec):
                        for f, v in rec.fields.items():
                            if not same(v, r2.fields[f]) and f not in written.get(hid, ()): written.setdefault(hid, set()).add(f); grew = True
                    elif isinstance(rec, Cell):
                        if not same(rec.v, r2.v) and hid not in written: written[hid] = {None}; grew = True
                    elif hid not in written: written[hid] = {None}; grew = True
                for gk, v in st.ghost.items():
                    if not same(v, t.ghost.get(gk)) and gk not in gch: gch.add(gk); grew = True
            # deltas
            if backs and not grew:
                nd = {}
                for l, c, e in terms:
                    if not is_int(c): continue
                    ds = set()
                    for t, nv in backs:
                        cur = s.slotval(l, t, nv); dd = simp(_z(cur) - _z(c)) if is_int(cur) else None
                        ds.add(dd if isinstance(dd, int) else None)
                    nd[l] = ds.pop() if len(ds) == 1 else None
                if inv is not None:
                    for (l, c) in inv.terms(s, st):
                        ds = set()
                        for t, nv in backs:
                            cur = dict(inv.terms(s, t))[l]; dd = simp(_z(cur) - _z(c)); ds.add(dd if isinstance(dd, int) else None)
                        nd[('t', l)] = ds.pop() if len(ds) == 1 else None
                if nd != deltas and rnd < 50: deltas = nd; grew = True
            if grew: s.obs = outer; continue
            # ---- preservation
            lost = set()
            for t, nv in backs:
                if not s.feasible(t): continue
                cur = cands([(l, s.slotval(l, t, nv), e) for l, c, e in terms], t)
                for k in cs:
                    if k in lost: continue
                    if k not in cur or not s.entails_q(t, cur[k]): lost.add(k)
            if lost: dropped.update(lost); s.obs = outer; continue
            inner = s.obs; s.obs = outer
            for hid in arrs:
                for t, nv, w in [(st0, vals0, 'on entry of')] + [(t, nv, 'preserved by') for t, nv in backs]:
                    want = s.arr(t, st0, hid, tuple(nv)); t2, x = s.sint(t, 'x', 0, MAXSTR); got = t.heap[hid]
                    s.prove(t2.assume(z3.And(x < _z(got.len))), z3.And(_z(got.len) == _z(want.len), s.rd(t2, got, x) == s.rd(t2, want, x)), f'loop {name}: buffer invariant {w} loop')
            if inv is not None and (written or gch):
                inv.check(s, st0, f'invariant on entry of loop in {name}')
                for t, nv in backs: inv.check(s, t, f'invariant preserved by loop in {name}')
            s.obs += inner
            s.obs.append((f'loop {name}: inductive facts', 'proved', f'{len(cs)} facts', None))
            return [(t, k, v) for t, k, v in outs if k != 'back']
        raise Unsupported('no inductive invariant found for loop in ' + name)
    def bounds(s, st0, vals0, tv):
        out = []
        for v in vals0:
            if isz(v) and is_int(v): out.append(v)
            if isinstance(v, Ref) and isinstance(st0.heap.get(v.id), Buf): out.append(_z(st0.heap[v.id].len))
        for f in getattr(s, 'bound_terms', []): out.append(_z(f))
        return out
    def slotval(s, l, t, nv):
        if l[0] == 'slot': return nv[l[1]]
        if l[0] == 'cell': return t.heap[l[1]].v
        if l[0] == 'field': return t.heap[l[1]].fields[l[2]]
        if l[0] == 'ghost': return t.ghost[l[1]]
    def def_same(s, st, a, b):
        try:
            if is_int(a) and is_int(b): return s.entails(st, _z(a) == _z(b))
        except z3.Z3Exception: pass
        return False
    def entails_q(s, st, f):
        f = simp_f(f)
        if isinstance(f, bool): return f or not s.feasible(st)
        return s.chk(st, z3.Not(f)) == z3.unsat
    def havoc_val(s, st, v, name, full=False):
        if isinstance(v, bool) or isinstance(v, z3.BoolRef): return st, s.fbool(name)
        if is_int(v): return s.sint(st, name) if not full else s.sint(st, name, None, None)
        if is_bv(v): return st, s.fbv(name, v.size())
        if isinstance(v, I64):
            st, x = s.sint(st, name, -2**63, 2**63 - 1); return st, I64(x)
        if isinstance(v, Zn): st, x = s.sint(st, name, None, None); return st, Zn(x)
        if isinstance(v, Ref) and isinstance(st.heap.get(v.id), Buf): return s.symbuf(st, name)
        if isinstance(v, tuple):
            out = []
            for x in v: st, y = s.havoc_val(st, x, name); out.append(y)
            return st, tuple(out)
        if isz(v) and full: s.nfresh += 1; return st, z3.Const(f'{name}!{s.nfresh}', v.sort())
        raise Unsupported('loop-carried value ' + repr(v)[:60])
    # ---- equality of values (OCaml structural equality on what we model)
    def equal(s, st, a, b):
        if isinstance(a, I64) and isinstance(b, I64): return simp(_z(a.v) == _z(b.v))
        if is_bv(a) or is_bv(b):
            if is_bv(a, 63) and isinstance(b, int): b = z3.BitVecVal(b, 63)
            if is_bv(b, 63) and isinstance(a, int): a = z3.BitVecVal(a, 63)
            if is_int(a) or is_int(b): raise Unsupported('mixed comparison')
            return simp(a == b)
        if is_int(a) and is_int(b): return simp(_z(a) == _z(b))
        if is_bool(a) and is_bool(b): return simp(_zb(a) == _zb(b))
        if isinstance(a, Con) and isinstance(b, Con):
            if a.name != b.name: return False
            if a.arg is None and b.arg is None: return True
            return s.equal(st, a.arg, b.arg)
        if isinstance(a, Ref) and isinstance(b, Ref) and isinstance(st.get(a), Buf) and isinstance(st.get(b), Buf):
            x, y = st.get(a), st.get(b); lx, ly = simp(x.len), simp(y.len)
            if isinstance(lx, int) and isinstance(ly, int):
                if lx != ly: return False
                return simp(z3.And(*[s.rd(st, x, i) == s.rd(st, y, i) for i in range(lx)])) if lx else True
        raise Unsupported('comparison of ' + repr(a)[:40] + ' and ' + repr(b)[:40])
    # ------------------------------------------------------------ reporting
    def init(s): return St({}, None, {}, (), 0, {})
    def commit(s, prefix=''):
        """moves the obligations to the report"""
        agg = {}
        for n, stt, d, cex in s.obs:
            n = prefix + n
            if stt == 'proved': agg.setdefault(n, [0, 0.0]); agg[n][0] += 1
            else: s.rep.ob(n, stt, 'z3', d, cex=cex)
        for n, (c, t) in agg.items(): s.rep.ob(n, 'proved', 'z3', n=c)
        s.obs = []
        for f in s.touched:
            if f and f not in s.rep.functions: s.rep.functions.append(f)
    # convenience
    def cls(s, path):
        """'Block.cipher' -> ClassDef"""
        env = s.ck.env
        if '.' in path:
            mp, nm = path.rsplit('.', 1); m = s.mod_path(mp, Env(None, dict(s.ck.items)))
        else: m = s.ck; nm = path
        c = m.items.get('class ' + nm)
        if c is None: raise Unsupported('class ' + path + ' not found')
        return c
    def val(s, st, path):
        if '.' in path:
            mp, nm = path.rsplit('.', 1); m = s.mod_path(mp, Env(None, dict(s.ck.items)))
        else: m = s.ck; nm = path
        v = m.items.get(nm)
        if v is None: raise Unsupported('value ' + path + ' not found')
        return s.force(st, v, path)
    def bnval(s, st, name):
        v = s.bn.items.get(name)
        if v is None: raise Unsupported('Bignum.' + name + ' not found')
        return s.force(st, v, name)

class ClassFun:
    def __init__(s, cd, args=()): s.cd = cd; s.args = tuple(args)
_apply = World.apply
def apply2(s, st, f, args):
    if isinstance(f, ClassFun):
        args = list(f.args) + list(args); need = s.class_pos(f.cd)
        if len([1 for l, a in args if l == '' or (l[0] == '~' and s.class_req(f.cd, l))]) < need: return [(st, 'val', ClassFun(f.cd, args))]
        return s.instantiate(st, f.cd, args)
    return _apply(s, st, f, args)
World.apply = apply2
def class_pos(s, cd):
    """number of positional parameters still to supply"""
    ce = cd.cexpr; n = 0; sup = 0
    while True:
        if ce[0] == 'cfun': n += 1 if ce[1] == '' or ce[1].startswith('~') else 0; ce = ce[4]
        elif ce[0] == 'capp': sup += len([1 for l, a in ce[2] if l == '']); ce = ce[1]
        elif ce[0] == 'cid': return n + max(0, s.class_pos(s.find_class(ce[1], cd.env)) - sup)
        elif ce[0] == 'clet': ce = ce[3]
        else: return n
World.class_pos = class_pos
def class_req(s, cd, l):
    ce = cd.cexpr
    while ce[0] in ('cfun', 'clet'):
        if ce[0] == 'cfun':
            if ce[1] == l: return True
            ce = ce[4]
        else: ce = ce[3]
    return False
World.class_req = class_req

def _z(x): return z3.IntVal(x) if isinstance(x, int) else x
def _zb(x): return z3.BoolVal(x) if isinstance(x, bool) else x
def simp_f(f):
    if isinstance(f, bool): return f
    return simp(f)
def simp_bv(x): return z3.simplify(x) if isz(x) else x
def conj(a, b):
    if a is True: return b
    if b is True: return a
    if a is False or b is False: return False
    return z3.And(a, b)
def disj(a, b):
    if a is False: return b
    if b is False: return a
    if a is True or b is True: return True
    return z3.Or(a, b)
def same(a, b):
    if a is b: return True
    if isz(a) and isz(b): return a.eq(b)
    if isinstance(a, bool) != isinstance(b, bool): return False
    if isinstance(a, int) and isinstance(b, int): return a == b
    if isinstance(a, Ref) and isinstance(b, Ref): return a.id == b.id
    if isinstance(a, I64) and isinstance(b, I64): return same(a.v, b.v)
    if isinstance(a, Zn) and isinstance(b, Zn): return same(a.v, b.v)
    if isinstance(a, Con) and isinstance(b, Con): return a.name == b.name and ((a.arg is None and b.arg is None) or same(a.arg, b.arg))
    if isinstance(a, tuple) and isinstance(b, tuple): return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, Bi) and isinstance(b, Bi): return a.fn is b.fn
    if isinstance(a, Clo) and isinstance(b, Clo): return a.node is b.node and a.env is b.env
    return False
def pat_vars(p):
    if p[0] == 'var': return [p[1]]
    if p[0] == 'alias': return pat_vars(p[1]) + [p[2]]
    if p[0] == 'tuple': return [v for q in p[1] for v in pat_vars(q)]
    if p[0] == 'construct' and p[2] is not None: return pat_vars(p[2])
    return []
