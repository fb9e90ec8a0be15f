"""common parts of the contracts on the OCaml code: primitive contracts, collaborators, helpers"""
import os, sys
import z3
from eng import *
from eng import _z, _zb
import builtins_ml as bm
sys.setrecursionlimit(200000)

def unit(fn):
    def run(rep):
        W = World(rep); install(W)
        try: fn(W)
        except NeedCut: raise Unsupported('non-tail recursion')
        finally: W.commit()
    run.__name__ = fn.__name__
    return run
def rng(W, st, what, r, o, n, name):
    """obligation: bytes o .. o+n-1 lie inside r"""
    rec = bm.B(W, st, r)
    return W.prove(st, bm.rng_ok(o, n, rec.len), f'{name}: {what} range in bounds')
# ---- contracts of the C primitives (their bodies are proved against these by the cvc units)
def c_xor(W, st, a):
    s, so, d, do, n = a; so, do, n = bm.toint(so), bm.toint(do), bm.toint(n)
    rng(W, st, 'source', s, so, n, 'caml_xor_string'); rng(W, st, 'destination', d, do, n, 'caml_xor_string')
    rs, rd_ = st.get(s), st.get(d)
    return [(W.wr_range(st, d, do, n, lambda s_, k: W.rd(s_, rs, simp(_z(so) + (_z(k) - _z(do)))) ^ W.rd(s_, rd_, k)), 'val', UNIT)]
def install(W):
    W.ext['caml_xor_string'] = Bi('caml_xor_string', 5, c_xor)
    def noext(name):
        def fn(W_, st, a): raise Unsupported('no contract for ' + name)
        return fn
# ---- collaborators
def block_cipher(W, tag, bs, log=True):
    """contract of a block cipher object: the n-th call to transform reads bs bytes at src_ofs, then writes
    bs bytes E_n at dst_ofs, or raises Invalid_argument if a range is out of bounds.  st.ghost[tag] lists the calls."""
    def transform(W, st, a):
        s, so, d, do = a; so, do = bm.toint(so), bm.toint(do); rs, rd_ = bm.B(W, st, s), bm.B(W, st, d)
        def ok(t):
            calls = t.ghost.get(tag, ()); n = len(calls); f = z3.Function(f'{tag}_out{n}', Int, BV8)
            t = t.gset(tag, calls + ((rs, so, f),))
            return [(W.wr_range(t, d, do, bs, lambda s_, k: f(simp_z(_z(k) - _z(do)))), 'val', UNIT)]
        return bm.guard(W, st, simp(z3.And(_zb(bm.rng_ok(so, bs, rs.len)), _zb(bm.rng_ok(do, bs, rd_.len)))), ok)
    def wipe(W, st, a): return [(st.gset(tag + '.wiped', True), 'val', UNIT)]
    return PyObj(tag, dict(blocksize=(0, lambda W, st, a: [(st, 'val', bs)]), transform=(4, transform), wipe=(0, wipe)))
def simp_z(x):
    x = z3.simplify(x) if isz(x) else z3.IntVal(x); return x
def byte(W, st, r, i): return W.rd(st, st.get(r), simp(i) if isz(i) else i)
def is_err(v, name): return isinstance(v, Con) and v.name == 'Error' and isinstance(v.arg, Con) and v.arg.name == name
def expect_vals(W, outs, name, allow=()):
    """normal outcomes; exceptions not allowed by the contract are violations"""
    res = []
    for st, k, v in outs:
        if k == 'val': res.append((st, v))
        elif k == 'exc' and any(f(st, v) for f in allow): pass
        else: W.fail(st, name + ': no exception', f'raises {v!r}')
    return res
def new(W, st, path, args, labels=()):
    cd = W.cls(path)
    return W.instantiate(st, cd, [('', a) for a in args] + list(labels))
def live(W, sts, name):
    """vacuity: the precondition is satisfiable"""
    for st in sts:
        if not W.feasible(st): W.obs.append((name + ': precondition satisfiable', 'unsupported', 'contradictory precondition', None)); return
    W.obs.append((name + ': precondition satisfiable', 'proved', '', None))
