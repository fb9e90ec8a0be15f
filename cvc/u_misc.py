"""Contracts of the byte-stream stubs (SMT engine), for every offset and every length:
ChaCha20 and ARCfour transforms, ChaCha20 extraction, XOR, erasure."""
from zv import *
import u_hash
from u_stream import setw, stforms, have_forms, put_forms

def outform(old, new, base='dofs'):
    """destination: the first w bytes of the range hold their final value, the rest is unchanged"""
    return lambda k, G, v: v == z3.If(z3.ULT(k - G[base], BV(G['w'], 64)), new(nrm(k - G[base]), k), old(k))
def watch(U, o, dofs):
    """ghost w: end of the last write, relative to the start of the range"""
    U.ghost['w'] = 0; U.ghost['dofs'] = dofs
    o.onstore = lambda d, off, n, src, bs: U.ghost.__setitem__('w', nrm(BV(off, 64) + n - dofs))
def frame_and_result(U, e, o, old, new, dofs, ln):
    k = U.d.fresh('k', 64)
    e.prove('result: every byte of the range', z3.Implies(z3.ULT(k, ln), o.fn(nrm(dofs + k)) == new(k, nrm(dofs + k))))
    e.prove('frame: bytes outside the range unchanged', z3.Implies(z3.And(z3.ULT(k, o.size), z3.UGE(k - dofs, ln)), o.fn(k) == old(k)))

KS = UF('KS', 64, 8)
def ranges(e, alias, old, srcfn):
    """source and destination ranges: distinct strings, or the same range of the same string"""
    sofs, vs = zlong('sofs'); dofs, vd = zlong('dofs'); ln, vl = zlong('len'); ssz, _ = zlong('srclen'); dsz, _ = zlong('dstlen')
    e.assume(z3.ULE(dofs + ln, dsz))
    dst = e.zstring('dst', dsz, old)
    if alias: return dst, dofs, vd, dst, dofs, vd, ln, vl
    e.assume(z3.ULE(sofs + ln, ssz))
    return e.zstring('src', ssz, srcfn, ro=True), sofs, vs, dst, dofs, vd, ln, vl
SRC = UF('SRC', 64, 8); DST = UF('DST', 64, 8)
def chacha(kind, alias=False):
    def unit(rep):
        lay, size = u_hash.cc_lay(); hold = {}
        fs = [(lay['input'] + 4 * i, 4, (lambda G, U, f=UF(f'IN{i}', 64, 32): f(BV(G['blk'], 64)))) for i in range(16)]
        def new(i, k):
            ks = KS(nrm(hold['n0'] + i))
            if kind == 'extract': return ks
            return (DST(k) if alias else SRC(nrm(hold['sofs'] + i))) ^ ks
        def scen(U):
            e = ZEnv(U, 'stubs-chacha20', over={}); e.need('chacha20_block', 1); d = U.d
            U.ghost['blk'] = 0
            def ov(ex, args, ins):
                p = args[0]
                if not isinstance(p, Ptr) or p.o.name != 'ctx' or p.off != 0: raise Unsupported('block argument')
                for off, n, fn in fs: d.prove('input block of the next keystream block', BV(ex.load(Ptr(p.o, off), n), 8 * n) == fn(U.ghost, U))
                U.ghost['blk'] = b = nrm(BV(U.ghost['blk'], 64) + 1); U.modified_obj(p.o)
                p.o.fn = lambda k: KS(nrm(64 * BV(b, 64) + k))
                for off, n, fn in fs: ex.store(Ptr(p.o, off), nrm(fn(U.ghost, U)), n)
            e.ex.over['chacha20_block'] = ov
            cells = sym_cells('ctx', size); p = e.rstring('ctx', cells, lay['output'], 64, lambda k: KS(k)); o = p.o
            n7 = z3.BitVec('next', 7); n0 = nrm(z3.ZeroExt(57, n7)); e.assume(z3.ULE(n7, 64)); hold['n0'] = n0
            setw(o, lay['next'], 4, nrm(z3.ZeroExt(25, n7))); o.meta['words'] = {lay['next']: 4}
            for off, n, fn in fs: setw(o, off, n, nrm(fn(U.ghost, U)))
            ivl = cells[lay['iv_length']:lay['iv_length'] + 4]
            src, sofs, vs, dst, dofs, vd, ln, vl = ranges(e, alias, lambda k: DST(k), lambda k: SRC(k)); hold['sofs'] = sofs
            watch(U, dst.o, dofs)
            if kind == 'extract': fnm = 'caml_chacha20_extract'; r = e.call(fnm, p, dst, vd, vl)
            else: fnm = 'caml_chacha20_transform'; r = e.call(fnm, p, src, vs, dst, vd, vl)
            e.unit(fnm, r)
            frame_and_result(U, e, dst.o, lambda k: DST(k), new, dofs, ln)
            nx = z3.ZeroExt(32, e.ld(o, lay['next'], 4)); blk = BV(U.ghost['blk'], 64)
            e.prove('position: next + 64 blocks = next + length', nx + 64 * blk == n0 + ln)
            e.prove('position in range', z3.ULE(nx, 64))
            k = d.fresh('k', 64)
            e.prove('buffered keystream', z3.Implies(z3.And(z3.ULT(k, 64), z3.UGE(k, nx)), o.fn(k) == KS(nrm(64 * blk + k))))
            for off, n, fn in fs: e.prove('counter and key after the call', e.ld(o, off, n) == fn(U.ghost, U))
            e.prove('frame: iv_length', e.ld(o, lay['iv_length'], 4) == z3.Concat(*reversed(ivl)))
        zunit(rep, f'chacha20 {kind}{" in place" if alias else ""}', scen,
              dict(bounds=[64], coefs=dict(w=[0, 1, -1], blk=[0, -64, 64]),
                   forms={'ctx': dict(cells=fs, at=lambda k, G, v: v == KS(nrm(64 * BV(G['blk'], 64) + k))),
                          'dst': dict(at=outform(lambda k: DST(k), new))}))
    return unit

def xor(alias=False):
    def unit(rep):
        hold = {}
        def new(i, k): return (z3.BitVecVal(0, 8) if alias else DST(k) ^ SRC(nrm(hold['sofs'] + i)))
        def scen(U):
            e = ZEnv(U, 'stubs-misc', over={})
            src, sofs, vs, dst, dofs, vd, ln, vl = ranges(e, alias, lambda k: DST(k), lambda k: SRC(k)); hold['sofs'] = sofs
            watch(U, dst.o, dofs)
            e.unit('caml_xor_string', e.call('caml_xor_string', src, vs, dst, vd, vl))
            frame_and_result(U, e, dst.o, lambda k: DST(k), new, dofs, ln)
        zunit(rep, f'caml_xor_string{" in place" if alias else ""}', scen, dict(bounds=[7, 8, 64], coefs=dict(w=[0, 1, -1]), forms={'dst': dict(at=outform(lambda k: DST(k), new))}))
    return unit
def wipez(rep):
    for case in ('custom', 'other', 'int'):
        def scen(U, case=case):
            e = ZEnv(U, 'stubs-misc', over={})
            if case == 'int':
                v = z3.BitVec('v', 63); r = e.call('caml_wipe_z', z3.Concat(v, z3.BitVecVal(1, 1))); e.unit('caml_wipe_z', r); return
            wo = z3.BitVec('wosize', 48); tag = z3.BitVec('tag', 8); col = z3.BitVec('color', 2)
            e.assume(wo != 0); e.assume(tag == 255 if case == 'custom' else tag != 255)
            hd = nrm(z3.Concat(z3.BitVecVal(0, 6), wo, col, tag)); n = nrm(z3.Concat(z3.BitVecVal(0, 13), wo, z3.BitVecVal(0, 3)))
            def fn(k): return z3.If(z3.ULT(k, 8), z3.Extract(7, 0, z3.LShR(hd, 8 * k)), DST(k))
            o = ZObj('z', nrm(n + 8), fn, kind='ocaml'); e.rt.heap.append(o)
            e.unit('caml_wipe_z', e.call('caml_wipe_z', Ptr(o, 8)))
            k = U.d.fresh('k', 64)
            if case == 'other': e.prove('not a bignum: untouched', z3.Implies(z3.ULT(k, n + 8), o.fn(k) == fn(k)))
            else:
                e.prove('frame: header and operations', z3.Implies(z3.ULT(k, 16), o.fn(k) == fn(k)))
                e.prove('every limb erased', z3.Implies(z3.And(z3.UGE(k, 16), z3.ULT(k, n + 8)), o.fn(k) == 0))
        zunit(rep, f'caml_wipe_z [{case}]', scen, dict(bounds=[8], forms={'z': dict(at=[lambda k, G, v: v == z3.If(z3.And(z3.UGE(k, 16), z3.ULT(k, 16 + G['#it'])), z3.BitVecVal(0, 8), DST(k)),
            lambda k, G, v: v == z3.If(z3.And(z3.UGE(k, 16), z3.ULT(k, 16 + 8 * G['#it'])), z3.BitVecVal(0, 8), DST(k))])}))

# ---- ARCfour -------------------------------------------------------------------------------
AS = UF('AS', 64, 8, 8); AX = UF('AX', 64, 8); AY = UF('AY', 64, 8)
def arc_ax(U, w):
    """definition of step w (w > 0) of the ARCfour generator"""
    w = BV(w, 64); p = nrm(w - 1)
    U.d.add(z3.Implies(w != 0, z3.And(AX(w) == AX(p) + 1, AY(w) == AY(p) + AS(p, AX(w)))))
def arc_s(U, w, k):
    w = BV(w, 64); p = nrm(w - 1); arc_ax(U, w)
    U.d.add(z3.Implies(w != 0, AS(w, k) == z3.If(k == AX(w), AS(p, AY(w)), z3.If(k == AY(w), AS(p, AX(w)), AS(p, k)))))
    return AS(w, k)
def arc_out(U, i):
    """keystream byte i = S[S[x] + S[y]] after step i + 1"""
    w = nrm(i + 1); arc_ax(U, w)
    return arc_s(U, w, AS(i, AX(w)) + AS(i, AY(w)))
def arc_lay():
    lay, size = build.layout('stubs-arcfour', 'struct arcfour_key', ['state', 'x', 'y'])
    if lay['state'][1] != 256 or lay['x'][1] != 1 or lay['y'][1] != 1: raise Unsupported('arcfour layout')
    return {k: v[0] for k, v in lay.items()}, size
def arcfour(alias):
    def unit(rep):
        lay, size = arc_lay(); hold = {}
        b8 = lambda k: z3.Extract(7, 0, BV(k, 64))
        def new(i, k): return (DST(k) if alias else SRC(nrm(hold['sofs'] + i))) ^ arc_out(hold['U'], i)
        def scen(U):
            hold['U'] = U
            e = ZEnv(U, 'stubs-arcfour', over={}); d = U.d
            p = e.rstring('ctx', sym_cells('ctx', size), lay['state'], 256, lambda k: AS(z3.BitVecVal(0, 64), b8(k))); o = p.o
            z = z3.BitVecVal(0, 64); o.cells[lay['x']] = AX(z); o.cells[lay['y']] = AY(z)
            src, sofs, vs, dst, dofs, vd, ln, vl = ranges(e, alias, lambda k: DST(k), lambda k: SRC(k)); hold['sofs'] = sofs
            watch(U, dst.o, dofs)
            e.unit('caml_arcfour_transform', e.call('caml_arcfour_transform', p, src, vs, dst, vd, vl))
            frame_and_result(U, e, dst.o, lambda k: DST(k), new, dofs, ln)
            k = d.fresh('k', 64)
            e.prove('state after the call', z3.Implies(z3.ULT(k, 256), o.fn(k) == arc_s(U, ln, b8(k))))
            arc_ax(U, ln)
            e.prove('x after the call', e.ld(o, lay['x'], 1) == AX(ln)); e.prove('y after the call', e.ld(o, lay['y'], 1) == AY(ln))
        def zx(F):
            def f(G): arc_ax(hold['U'], G['w']); return z3.ZeroExt(56, F(BV(G['w'], 64)))
            return f
        zunit(rep, f'caml_arcfour_transform{" in place" if alias else ""}', scen, dict(bounds=[255], coefs=dict(w=[0, 1, -1]), vals=dict(x=zx(AX), y=zx(AY)),
              forms={'ctx': dict(at=lambda k, G, v: v == arc_s(hold['U'], G['w'], b8(k))), 'dst': dict(at=outform(lambda k: DST(k), new))}))
    return unit
KEY = UF('KEY', 64, 8); KI = UF('KI', 64, 64); KJ = UF('KJ', 64, 8); KSA = UF('KSA', 64, 8, 8)
def arc_cook(rep):
    """key schedule: S_0 = identity, j_(i+1) = j_i + S_i[i] + key[i mod n], S_(i+1) = S_i with S[i] and S[j_(i+1)] swapped"""
    lay, size = arc_lay(); hold = {}
    b8 = lambda k: z3.Extract(7, 0, BV(k, 64))
    def ax(U, i):
        i = BV(i, 64); p = nrm(i - 1); n = hold['n']
        U.d.add(KI(z3.BitVecVal(0, 64)) == 0); U.d.add(KJ(z3.BitVecVal(0, 64)) == 0)
        U.d.add(z3.Implies(i != 0, z3.And(KI(i) == z3.If(KI(p) + 1 == n, z3.BitVecVal(0, 64), KI(p) + 1), KJ(i) == KJ(p) + KSA(p, b8(p)) + KEY(KI(p)))))
    def s(U, i, k):
        i = BV(i, 64); p = nrm(i - 1); ax(U, i)
        U.d.add(KSA(z3.BitVecVal(0, 64), k) == k)
        U.d.add(z3.Implies(i != 0, KSA(i, k) == z3.If(k == b8(p), KSA(p, KJ(i)), z3.If(k == KJ(i), KSA(p, b8(p)), KSA(p, k)))))
        return KSA(i, k)
    def scen(U):
        hold['U'] = U; e = ZEnv(U, 'stubs-arcfour', over={}); d = U.d
        n9 = z3.BitVec('keylen', 9); n = nrm(z3.ZeroExt(55, n9)); e.assume(z3.And(n9 != 0, z3.ULE(n9, 256))); hold['n'] = n
        kp = e.zstring('key', n, lambda k: KEY(k), ro=True)
        def alloc(ex, args, ins):
            if args[0] != size: raise Unsupported('context size')
            e.rt.gc(); old = UF('old', 64, 8)
            p = e.rstring('ctx', [None] * size, lay['state'], 256, lambda k: old(k)); return p
        e.ex.ext['caml_alloc_string'] = alloc
        r = e.call('caml_arcfour_cook_key', kp)
        if not isinstance(r, Ptr): raise Violation('result', 'no context returned')
        o = e.final(r); k = d.fresh('k', 64)
        e.prove('state = key schedule', z3.Implies(z3.ULT(k, 256), o.fn(k) == s(U, z3.BitVecVal(256, 64), b8(k))))
        e.prove('x = y = 0', z3.And(e.ld(o, lay['x'], 1) == 0, e.ld(o, lay['y'], 1) == 0))
    def kv(F, w):
        def f(G): ax(hold['U'], G['#it']); return z3.ZeroExt(64 - w, F(BV(G['#it'], 64))) if w < 64 else F(BV(G['#it'], 64))
        return f
    zunit(rep, 'caml_arcfour_cook_key', scen, dict(bounds=[256], cutall=True, vals=dict(index1=kv(KI, 64), index2=kv(KJ, 8)),
          extra=dict(ki=lambda U, a, b: (ax(U, b['#it']), z3.ULT(KI(BV(b['#it'], 64)), hold['n']))[1]),
          forms={'ctx': dict(at=[lambda k, G, v: v == s(hold['U'], G['#it'], b8(k)), lambda k, G, v: z3.Implies(z3.ULT(k, BV(G['#it'], 64)), v == b8(k))])}))

UNITS = {'chacha20-transform': chacha('transform'), 'chacha20-transform-inplace': chacha('transform', True), 'chacha20-extract': chacha('extract'),
         'xor': xor(), 'xor-inplace': xor(True), 'wipe-z': wipez, 'arcfour-transform': arcfour(False), 'arcfour-transform-inplace': arcfour(True), 'arcfour-cook': arc_cook}
