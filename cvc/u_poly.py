"""Contracts of Poly1305 (RFC 8439, 2.5), p = 2^130 - 5.
 init: r = clamp(key[0..16)), h = 0, pad = key[16..32)
 one block: value(h') = (value(h) + block + 2^128) * r (mod p), limbs stay within their bounds
 blocks: n blocks = n times one block, in order
 update: the blocks of the message, in order; the rest stays pending
 finish: ((value(h) mod p) + pad) mod 2^128, after a last block message || 1 || 0... without 2^128."""
import random
from zv import *
import cv, pdom, u_stream
from pdom import PDom, PRun, PV, padd, pmul
from core import *
from ocamlrt import Runtime
PRIME = 2**130 - 5
class Cfg:
    """limb layout of the compiled variant"""
    def __init__(s, extra=()):
        s.extra = tuple(extra); s.stub = 'stubs-poly1305'
        lay, s.size = build.layout(s.stub, 'poly1305_state_internal_t', ['r', 'h', 'pad', 'leftover', 'buffer', 'final'], s.extra)
        s.off = {k: v[0] for k, v in lay.items()}
        if lay['leftover'][1] != 8 or lay['buffer'][1] != 16 or lay['final'][1] != 1 or lay['pad'][1] != 16 or lay['r'][1] != lay['h'][1]: raise Unsupported('poly1305 layout')
        if lay['h'][1] == 24: s.lw = 8; s.n = 3; s.pos = [0, 44, 88]
        elif lay['h'][1] == 20: s.lw = 4; s.n = 5; s.pos = [0, 26, 52, 78, 104]
        else: raise Unsupported('poly1305 layout')
CLAMP = 0x0ffffffc0ffffffc0ffffffc0fffffff
def rlimits(c):
    """largest value of each limb of a clamped r"""
    w = c.pos[1]; return [(CLAMP >> p) & ((1 << w) - 1) for p in c.pos]
class PEnv:
    def __init__(self, d, c, over=None):
        self.d = d; self.m = build.module(c.stub, c.extra); self.ex = Exec(self.m, d, over); self.rt = Runtime(self.ex)
    def fn(self, rep, name, n):
        f = self.m.funcs.get(name)
        if f is None or len(f.params) != n: raise Unsupported(f'{name} not found')
        if name not in rep.functions: rep.functions.append(name)
        return f
def value(d, ls, pos):
    r = {}
    for v, p in zip(ls, pos): r = padd(r, {m: k << p for m, k in d.P(v).p.items()})
    return r
class Src:
    """inputs: atoms (proof) or corner-biased random integers (search for a counterexample)"""
    def __init__(s, d=None, rng=None): s.d = d; s.rng = rng; s.log = {}
    def __call__(s, name, lo, hi):
        if s.rng is None: return s.d.atom(name, lo, hi)
        k = s.rng.randrange(4)
        v = s.rng.randint(lo, hi) if k < 2 else (hi - s.rng.randrange(min(8, hi - lo + 1)) if k == 2 else lo + s.rng.randrange(min(8, hi - lo + 1)))
        s.log[name] = v; return v
def decide(rep, name, scen, tries=400):
    """scen(d, src, prove): symbolic proof; where it fails, concrete counterexample search on the IR"""
    t = time.time(); n = [0]; fail = None
    def prove(d):
        def f(what, zero=None, p=None, goal=None):
            """polynomial zero is 0 (mod p); or linear goal"""
            if zero is not None:
                ok = all(c % p == 0 for c in zero.values()) if p else not zero
                if not ok and goal is None and not p: ok = d.valid(d.zp(zero) == 0)
            else: ok = False
            if not ok and goal is not None: ok = d.valid(goal)
            if not ok: raise Fail(what)
            n[0] += 1
        return f
    class Fail(Exception): pass
    try: cases = PRun().explore(lambda d: scen(d, Src(d), prove(d)))
    except Fail as e: fail = str(e)
    except Unsupported as e: fail = e
    except Violation as e: fail = e
    if fail is None:
        rep.ob(name, 'proved', 'polynomial+lia', f'{cases} cases', n=n[0], t=time.time() - t); return True
    rng = random.Random(7)
    for i in range(tries):
        src = Src(rng=rng); bad = []
        def cprove(what, zero=None, p=None, goal=None):
            if zero is not None:
                v = zero.get((), 0)
                if (v % p if p else v): bad.append(what)
            else:
                if not z3.is_true(z3.simplify(goal)): bad.append(what)
        d = PDom(None)
        try: scen(d, src, cprove)
        except Violation as e: bad.append(str(e))
        except PathEnd as e: bad.append('reaches ' + e.why)
        if bad:
            rep.ob(f'{name}: {bad[0]}', 'refuted', 'interp', f'{bad[0]} fails', cex={k: hex(v) for k, v in src.log.items()}); return False
    if isinstance(fail, Unsupported): raise fail
    rep.ob(f'{name}: {fail}', 'unproved', 'polynomial+lia', f'{fail}: no proof, no counterexample in {tries} concrete runs'); return False
def st_cells(c, src, lim, r=None):
    cells = [None] * c.size; R = []; H = []
    return cells
def put(ex, o, off, v, n): ex.store(Ptr(o, off), v, n)
def mkstate(e, c, o, src, lim, final, leftover):
    R = [src(f'r{i}', 0, l) for i, l in enumerate(rlimits(c))]; H = [src(f'h{i}', 0, l) for i, l in enumerate(lim)]
    for i in range(c.n):
        put(e.ex, o, c.off['r'] + c.lw * i, R[i], c.lw); put(e.ex, o, c.off['h'] + c.lw * i, H[i], c.lw)
    put(e.ex, o, c.off['leftover'], leftover, 8); put(e.ex, o, c.off['final'], final, 1)
    return R, H
def blockval(d, bs):
    return value(d, bs, [8 * i for i in range(16)])
def step_scen(rep, c, lim, final, post):
    def scen(d, src, prove):
        e = PEnv(d, c); f = e.fn(rep, 'poly1305_blocks', 3)
        o = Obj('st', c.size, kind='arg'); R, H = mkstate(e, c, o, src, lim, final, 0)
        m = [src(f'm{i}', 0, 255) for i in range(16)]; mo = Obj('m', 16, list(m), ro=True, kind='arg')
        for nm in ('pad', 'buffer'):
            for i in range(16): o.cells[c.off[nm] + i] = src(f'{nm}{i}', 0, 255)
        before = list(o.cells)
        e.ex.run(f, [Ptr(o, 0), Ptr(mo, 0), 16])
        H2 = [e.ex.load(Ptr(o, c.off['h'] + c.lw * i), c.lw) for i in range(c.n)]
        post(d, H2)
        x = padd(value(d, H, c.pos), blockval(d, m))
        if not final: x = padd(x, {(): 1 << 128})
        want = pmul(x, value(d, R, c.pos))
        prove('value after one block', padd(value(d, H2, c.pos), want, -1), PRIME)
        for i in range(c.size):
            if c.off['h'] <= i < c.off['h'] + c.n * c.lw: continue
            if not (o.cells[i] is before[i] or o.cells[i] == before[i]): raise Violation('frame', f'byte {i} of the state changes')
    return scen
def limits(rep, c):
    """smallest-power inductive bounds of the limbs of h"""
    lim = [0] * c.n
    for it in range(12):
        hi = list(lim)
        def post(d, H2):
            for i, v in enumerate(H2): hi[i] = max(hi[i], d.P(v).hi)
        for final in (0, 1):
            PRun().explore(lambda d: step_scen(rep, c, lim, final, post)(d, Src(d), lambda *a, **k: None))
        if hi == lim: return lim
        # widen: 2^b - 1 + 2^(b-2)
        lim = hi if it < 2 else [max(l, h) if h == l or h & (h + 1) == 0 else max(l, (1 << h.bit_length() - 1) + (h - (1 << h.bit_length() - 1)) * 2 + 1) for l, h in zip(lim, hi)]
    raise Unsupported('limb bounds do not stabilise')
def block(extra=()):
    def unit(rep):
        c = Cfg(extra); lim = limits(rep, c)
        for final in (0, 1):
            def post(d, H2):
                for i, v in enumerate(H2):
                    V = d.P(v)
                    if V.hi > lim[i]: raise Unsupported('limb bound')
            decide(rep, f'poly1305_blocks, one {"last " if final else ""}block', step_scen(rep, c, lim, final, post))
    return unit
def alloc_ctx(e, c):
    return e.rt.string('ctx', c.ctx)
def init(extra=()):
    def unit(rep):
        c = Cfg(extra)
        def scen(d, src, prove):
            e = PEnv(d, c); f = e.fn(rep, 'caml_poly1305_init', 1); e.fn(rep, 'poly1305_init', 2)
            key = [src(f'k{i}', 0, 255) for i in range(32)]; ko = e.rt.string('key', 32, key)
            r = e.ex.run(f, [Ptr(ko, 0)])
            if not isinstance(r, Ptr): raise Violation('result', 'no context')
            o = e.rt.final(r.o)
            if r.o is not o: raise Violation('live-pointer', 'stale context returned')
            if o.meta.get('len', 0) < c.size: raise Violation('bounds', 'context too small')
            ld = lambda off, n: e.ex.load(Ptr(o, off), n)
            R = [ld(c.off['r'] + c.lw * i, c.lw) for i in range(c.n)]
            cl = []
            for i in range(16): cl.append(d.bin('and', key[i], (CLAMP >> (8 * i)) & 255, 8) if type(key[i]) is not int else key[i] & (CLAMP >> (8 * i)) & 255)
            prove('r = clamped first half of the key', padd(value(d, R, c.pos), blockval(d, cl), -1))
            for i, l in enumerate(rlimits(c)):
                if d.P(R[i]).hi > l: prove('limbs of r', None, goal=d.zp(d.P(R[i]).p) <= l)
            prove('pad = second half of the key', padd(value(d, [ld(c.off['pad'] + i, 1) for i in range(16)], range(0, 128, 8)), blockval(d, key[16:]), -1))
            for i in range(c.n): prove('h = 0', d.P(ld(c.off['h'] + c.lw * i, c.lw)).p)
            prove('nothing pending', d.P(ld(c.off['leftover'], 8)).p); prove('not final', d.P(ld(c.off['final'], 1)).p)
        decide(rep, 'caml_poly1305_init', scen)
    return unit
def finish(left, extra=()):
    def unit(rep):
        c = Cfg(extra); lim = limits(rep, c); ctxlen = c.size
        for k in left:
            def scen(d, src, prove, k=k):
                st = {}
                def blocks(ex, args, ins):
                    s, m, n = args
                    if st.get('done') or not isinstance(s, Ptr) or s.off != 0 or s.o is not st['o']() or n != 16 or not isinstance(m, Ptr): raise Unsupported('last block call')
                    if k == 0: raise Violation('last block', 'a block is processed although nothing is pending')
                    bs = [ex.load(Ptr(m.o, m.off + i), 1) for i in range(16)]
                    prove('last block = message, 1, 0...', padd(blockval(d, bs), blockval(d, st['buf'][:k] + [1] + [0] * (15 - k)), -1))
                    fl = ex.load(Ptr(s.o, c.off['final']), 1)
                    if type(fl) is not int: raise Unsupported('final flag')
                    if not fl: raise Violation('last block', 'processed with the 2^128 bit')
                    st['done'] = True; st['H'] = [src(f'H{i}', 0, l) for i, l in enumerate(lim)]
                    for i in range(c.n): ex.store(Ptr(s.o, c.off['h'] + c.lw * i), st['H'][i], c.lw)
                e = PEnv(d, c); e.fn(rep, 'poly1305_blocks', 3); e.ex.over['poly1305_blocks'] = blocks; f = e.fn(rep, 'caml_poly1305_final', 1); e.fn(rep, 'poly1305_finish', 2)
                o = e.rt.string('ctx', ctxlen); st['o'] = lambda: e.rt.final(o)
                R, H = mkstate(e, c, o, src, lim, 0, k); st['H'] = H
                pad = [src(f'pad{i}', 0, 255) for i in range(16)]; st['buf'] = [src(f'b{i}', 0, 255) for i in range(16)]
                for i in range(16): o.cells[c.off['pad'] + i] = pad[i]; o.cells[c.off['buffer'] + i] = st['buf'][i]
                r = e.ex.run(f, [Ptr(o, 0)])
                if k and not st.get('done'): raise Violation('last block', 'pending bytes are not processed')
                if not isinstance(r, Ptr) or r.o is not e.rt.final(r.o) or r.o.meta.get('len') != 16: raise Violation('result', 'not a live 16-byte string')
                mac = [e.ex.load(Ptr(r.o, i), 1) for i in range(16)]
                hv = value(d, st['H'], c.pos)
                if src.rng is not None:
                    v = ((hv.get((), 0) % PRIME) + blockval(d, pad).get((), 0)) % 2**128
                    prove('tag', padd(blockval(d, mac), {(): v} if v else {}, -1)); return
                # h + pad - tag = p A + 2^128 B identically, and 0 <= h - p A < p: so h - p A = h mod p
                D = padd(padd(hv, blockval(d, pad)), blockval(d, mac), -1); A = {}
                for c_ in d.cons:        # equations known on this path: eliminate an atom
                    if c_[0] != 'eq': continue
                    E = padd(c_[1], {(): -c_[2]} if c_[2] else {})
                    for m, k_ in E.items():
                        if m and abs(k_) == 1 and m in D: D = padd(D, E, -D[m] * k_); break
                for m, k_ in D.items():
                    a = -k_ * pow(5, -1, 2**128) % 2**128; a -= 2**128 * (a >> 127)      # k_ = p a (mod 2^128)
                    if k_ % PRIME == 0: A[m] = k_ // PRIME
                    elif k_ % 2**128 == 0: pass
                    elif abs(a) < 2**40: A[m] = a
                    else: prove('tag = ((h mod p) + pad) mod 2^128', D)
                rho = d.zp(padd(hv, {m: v * PRIME for m, v in A.items()}, -1))
                prove('h fully reduced before the pad is added', None, goal=z3.And(rho >= 0, rho < PRIME))
                prove('tag = ((h mod p) + pad) mod 2^128', {}, None)
            decide(rep, f'caml_poly1305_final [{k} bytes pending]', scen)
    return unit
# ---- many blocks ------------------------------------------------------------------------------
X = u_stream.X
def blocks(rep):
    c = Cfg()
    if c.n != 3: raise Unsupported('limb layout')
    H = [UF(f'H{i}', 64, 64) for i in range(3)]; T = {}; hold = {}
    rs = [z3.BitVec(f'r{i}', 64) for i in range(3)]
    def state(e, final, hs):
        o = Obj('st', c.size, sym_cells('st', c.size), kind='arg')
        for i in range(3): e.ex.store(Ptr(o, c.off['r'] + 8 * i), rs[i], 8); e.ex.store(Ptr(o, c.off['h'] + 8 * i), hs[i], 8)
        o.cells[c.off['final']] = final; return o
    for final in (0, 1):
        hs = [z3.BitVec(f'h{i}', 64) for i in range(3)]
        def one(U):
            e = ZEnv(U, c.stub, over={}); o = state(e, final, hs)
            mo = ZObj('m', z3.BitVecVal(16, 64), lambda k: X(k), ro=True, kind='arg')
            e.call('poly1305_blocks', Ptr(o, 0), Ptr(mo, 0), 16)
            T['t'] = [e.ld(o, c.off['h'] + 8 * i, 8) for i in range(3)]
        zunit(rep, 'one block', one, dict(opaque=True))
        def ax(U, i):
            i = BV(i, 64); p = nrm(i - 1)
            sub = [(h, H[j](p)) for j, h in enumerate(hs)] + [(X(z3.BitVecVal(k, 64)), X(nrm(16 * p + k))) for k in range(16)]
            return [z3.Implies(i != 0, H[j](i) == z3.substitute(T['t'][j], *sub)) for j in range(3)]
        def many(U):
            hold['U'] = U; e = ZEnv(U, c.stub, over={}); z = z3.BitVecVal(0, 64)
            n = z3.BitVec('n', 48); bytes_ = nrm(z3.Concat(z3.BitVecVal(0, 12), n, z3.BitVecVal(0, 4))); n64 = nrm(z3.ZeroExt(16, n))
            o = state(e, final, [H[i](z) for i in range(3)]); before = list(o.cells)
            mo = ZObj('m', bytes_, lambda k: X(k), ro=True, kind='arg')
            e.call('poly1305_blocks', Ptr(o, 0), Ptr(mo, 0), bytes_)
            for i in range(3): e.prove(f'h{i} after n blocks', e.ld(o, c.off['h'] + 8 * i, 8) == H[i](n64))
            e.prove('frame: the rest of the state', z3.BoolVal(all(o.cells[i] is before[i] or o.cells[i] == before[i] for i in range(c.size) if not c.off['h'] <= i < c.off['h'] + 24)))
        def val(i):
            def f(G): return H[i](BV(G['#it'], 64)), ax(hold['U'], G['#it'])[i:i + 1]
            return f
        zunit(rep, f'poly1305_blocks, n {"last " if final else ""}blocks', many, dict(opaque=True, bounds=[16], vals={f'h{i}': val(i) for i in range(3)}))
# ---- update -------------------------------------------------------------------------------------
def upd_desc():
    c = Cfg(); lay = dict(c.off, nb=c.off['leftover'], nbs=8)
    fs = u_stream.stforms([c.off['h'] + c.lw * i for i in range(c.n)], c.lw)
    def over(U, e, lay):
        e.need('poly1305_blocks', 3)
        def ov(ex, args, ins):
            p, m, n = args
            if not isinstance(p, Ptr) or p.o.name != 'ctx' or p.off != 0: raise Unsupported('blocks argument')
            d = U.d; P = BV(U.ghost['P'], 64); n64 = BV(n, 64)
            d.prove('whole blocks', z3.URem(n64, z3.BitVecVal(16, 64)) == 0)
            d.prove('not the last block', BV(ex.load(Ptr(p.o, c.off['final']), 1), 8) == 0)
            if not isinstance(m, Ptr): raise Unsupported('block argument')
            if type(n) is int: u_stream.block_is(U, ex, m, n, 'blocks = next blocks of the message')
            else:
                if not isinstance(m.o, ZObj): raise Unsupported('block argument')
                ex.bounds(m, n, 'read', False); k = d.fresh('k', 64)
                d.prove('blocks = next blocks of the message', z3.Implies(z3.ULT(k, n64), d.rd(m.o, nrm(BV(m.off, 64) + k)) == X(nrm(P + k))))
            u_stream.have_forms(U, ex, p.o, 0, fs)
            U.ghost['P'] = nrm(P + n64); u_stream.put_forms(U, ex, p.o, 0, fs)
        return {'poly1305_blocks': ov}
    def mkctx(U, e, cells, lay, size):
        cells[c.off['final']] = 0
        p = e.rstring('ctx', cells, c.off['buffer'], 16, None); return dict(v=p, o=p.o)
    def post(U, e, o, lay, before, ln):
        for i in range(c.size):
            if c.off['r'] <= i < c.off['r'] + c.n * c.lw or c.off['pad'] <= i < c.off['pad'] + 16 or i == c.off['final']:
                e.prove('frame: r, pad, final', BV(e.ex.load(Ptr(o, i), 1), 8) == BV(before[i], 8))
    return dict(stub='stubs-poly1305', update='caml_poly1305_update', bs=16, forms=lambda l: fs, over=over, mkctx=mkctx, post=post), lay, c.size
UNITS = {'init': init(), 'block': block(), 'blocks': blocks, 'finish-0': finish([0])}
V32 = ('-U__SIZEOF_INT128__',)
UNITS.update({'init-32': init(V32), 'block-32': block(V32), 'finish-32': finish(range(16), V32)})
for _k in range(4): UNITS[f'finish-{_k+1}'] = finish(list(range(1 + 4 * _k, min(16, 5 + 4 * _k))))
def update(rep):
    d, lay, size = upd_desc()
    zunit(rep, 'poly1305_update', u_stream.scen(d, lay, size), dict(bounds=[16], forms={'ctx': dict(cells=d['forms'](lay), at=u_stream.bufform(lay, 16), snap=u_stream.nbsnap(lay))}))
UNITS['update'] = update
