"""Contracts of the random-byte stubs (for every offset and length): a true result means every byte of the
range, and nothing else, was written, each from a different byte delivered by the source; false is returned
only after the source failed.  Also the MD5, zlib and bytecode glue."""
from zv import *
import cv
from u_misc import DST, outform, watch
RAND = UF('RAND', 64, 8)
def rng(kind, ordered, rep):
    tok = z3.BitVec('token', 8)
    R = (lambda i: RAND(i)) if ordered else (lambda i: tok)
    def new(i, k): return R(i)
    def scen(U):
        d = U.d; U.ghost['drawn'] = 0; U.ghost['lastok'] = 1
        e = ZEnv(U, 'stubs-rng', over={})
        def draw(n):
            b = BV(U.ghost['drawn'], 64); U.ghost['drawn'] = nrm(b + n); return b
        def asm(ex, callee, args, ins):
            if 'rdrand' not in callee[1] or len(args) != 1 or not isinstance(args[0], Ptr): raise Unsupported('inline asm ' + callee[1])
            ok = d.fresh('ok', 1); ex.store(args[0], nrm(z3.ZeroExt(7, ok)), 1)
            if d.branch(ok, None, None):
                U.ghost['lastok'] = 1; b = draw(8)
                return nrm(z3.Concat(*[R(nrm(b + 7 - j)) for j in range(8)]))
            U.ghost['lastok'] = 0; return d.fresh('garbage', 64)
        def getentropy(ex, args, ins):
            p, n = args
            d.prove('getentropy: at most 256 bytes', z3.ULE(BV(n, 64), 256))
            ok = d.fresh('ok', 1)
            if not d.branch(ok, None, None): U.ghost['lastok'] = 0; return 2**32 - 1
            U.ghost['lastok'] = 1
            if isinstance(p, Ptr) and isinstance(p.o, ZObj):
                ex.bounds(p, n, 'write', True)
                b = draw(n); d.zwrite(p.o, p.off, n, lambda k: R(nrm(b + k)))
            elif isinstance(p, Ptr) and type(n) is int:
                b = draw(n)
                for i in range(n): ex.store(Ptr(p.o, p.off + i), R(nrm(b + i)), 1)
            else: raise Unsupported('getentropy into ' + repr(p))
            return 0
        e.ex.ext['asm'] = asm; e.ex.ext['getentropy'] = getentropy
        dofs, vd = zlong('dofs'); ln, vl = zlong('len'); dsz, _ = zlong('dstlen'); e.assume(z3.ULE(dofs + ln, dsz))
        dst = e.zstring('dst', dsz, lambda k: DST(k)); watch(U, dst.o, dofs)
        if kind == 'system': r = e.call('caml_system_rng_random_bytes', 1, dst, vd, vl)
        else: r = e.call('caml_hardware_rng_random_bytes', dst, vd, vl)
        o = dst.o; k = d.fresh('k', 64); r = BV(r, 64)
        e.prove('frame: bytes outside the range unchanged', z3.Implies(z3.And(z3.ULT(k, o.size), z3.UGE(k - dofs, ln)), o.fn(k) == DST(k)))
        e.prove('result is a boolean', z3.Or(r == 1, r == 3))
        e.prove('true: every byte of the range is random', z3.Implies(z3.And(r == 3, z3.ULT(k, ln)), o.fn(nrm(dofs + k)) == R(k)))
        e.prove('false: only after the source failed', z3.Implies(r == 1, BV(U.ghost['lastok'], 64) == 0))
    return zunit(rep, f'caml_{kind}_rng_random_bytes', scen, dict(bounds=[1, 8, 20, 255, 256], coefs=dict(w=[0, 1, -1], drawn=[0, 1, -1]),
        extra=dict(drawn=lambda U, a, b: BV(U.gv(b, 'w'), 64) == BV(U.gv(b, 'drawn'), 64)),
        forms={'dst': dict(at=outform(lambda k: DST(k), new))}))
def rng_unit(kind):
    def unit(rep):
        r = cv.Report(rep.unit); ok = False
        try: ok = rng(kind, True, r); why = [o for o in r.obs if o['status'] != 'proved']
        except Unsupported as e: why = [dict(detail=str(e), name='')]
        if ok: rep.merge(r); return
        # not in delivery order: every byte must at least come from the source
        r2 = cv.Report(rep.unit)
        if rng(kind, False, r2): raise Unsupported('bytes are not stored in delivery order: ' + why[0]['detail'])
        rep.merge(r2)
    return unit
def avail(rep):
    def scen(U):
        d = U.d; e = ZEnv(U, 'stubs-rng', over={}); U.ghost['good'] = 0; cx = d.fresh('cx', 32); U.ghost['ncpuid'] = 0; U.ghost['tried'] = 0
        def asm(ex, callee, args, ins):
            if 'cpuid' in callee[1]: U.ghost['ncpuid'] = 1; return Agg([d.fresh('ax', 32), d.fresh('bx', 32), cx, d.fresh('dx', 32)])
            if 'rdrand' not in callee[1] or len(args) != 1: raise Unsupported('inline asm')
            U.ghost['tried'] = 1; ok = d.fresh('ok', 1); ex.store(args[0], nrm(z3.ZeroExt(7, ok)), 1)
            d.prove('rdrand only where the processor has it', z3.Extract(30, 30, cx) == 1)
            if d.branch(ok, None, None):
                n = d.fresh('n', 64); U.ghost['good'] = nrm(z3.If(n != 2**64 - 1, z3.BitVecVal(1, 64), z3.BitVecVal(0, 64))); return n
            U.ghost['good'] = 0; return d.fresh('garbage', 64)
        e.ex.ext['asm'] = asm
        r = BV(e.call('caml_hardware_rng_available', 1), 64)
        e.prove('result is a boolean', z3.Or(r == 1, r == 3))
        e.prove('available: rdrand supported and delivered a value other than all ones', z3.Implies(r == 3, z3.And(z3.Extract(30, 30, cx) == 1, BV(U.ghost['good'], 64) == 1)))
        e.prove('not available: not supported, or no good value', z3.Implies(r == 1, z3.Or(z3.Extract(30, 30, cx) == 0, z3.And(BV(U.ghost['tried'], 64) == 1, BV(U.ghost['good'], 64) == 0))))
    zunit(rep, 'caml_hardware_rng_available', scen, dict(bounds=[1, 8, 20]))
# ---- MD5 glue -------------------------------------------------------------------------------
def md5(rep):
    lay, size = build.layout('stubs-md5', 'struct MD5Context', ['buf'])
    def init(U):
        e = ZEnv(U, 'stubs-md5', over={}); seen = []
        e.ex.ext['caml_MD5Init'] = lambda ex, a, i: seen.append(a[0])
        r = e.call('caml_md5_init', 1)
        ok = len(seen) == 1 and isinstance(r, Ptr) and isinstance(seen[0], Ptr) and seen[0].o is e.final(r) and seen[0].off == 0 and e.final(r).meta['len'] >= size and e.final(r).valid
        e.prove('context allocated, of sufficient size, initialised and returned', z3.BoolVal(ok))
    zunit(rep, 'caml_md5_init', init)
    def update(U):
        e = ZEnv(U, 'stubs-md5', over={}); seen = []
        e.ex.ext['caml_MD5Update'] = lambda ex, a, i: seen.append(list(a))
        ctx = e.string('ctx', sym_cells('c', size)); ofs, vo = zlong('ofs'); ln, vl = zlong('len'); sz, _ = zlong('size'); e.assume(z3.ULE(ofs + ln, sz))
        src = e.zstring('src', sz, lambda k: DST(k), ro=True)
        e.unit('caml_md5_update', e.call('caml_md5_update', ctx, src, vo, vl))
        if len(seen) != 1: e.prove('all of the data is absorbed, once', z3.BoolVal(False)); return
        c, p, n = seen[0]
        e.prove('absorbed into the context', z3.BoolVal(isinstance(c, Ptr) and c.o is e.final(ctx) and c.off == 0))
        e.prove('absorbed data is the given range', z3.BoolVal(False) if not isinstance(p, Ptr) or p.o is not e.final(src) else z3.And(BV(p.off, 64) == ofs, BV(n, 64) == ln))
    zunit(rep, 'caml_md5_update', update)
    def final(U):
        e = ZEnv(U, 'stubs-md5', over={}); seen = []
        ctx = e.string('ctx', sym_cells('c', size))
        def fin(ex, a, i):
            ex.bounds(a[0], 16, 'write', True); ex.bounds(a[1], size, 'read', False); seen.append(list(a))
        e.ex.ext['caml_MD5Final'] = fin
        r = e.call('caml_md5_final', ctx)
        ok = len(seen) == 1 and isinstance(r, Ptr) and seen[0][0].o is e.final(r) and seen[0][0].off == 0 and e.final(r).meta['len'] == 16 and seen[0][1].o is e.final(ctx) and seen[0][1].off == 0
        e.prove('digest of the context written to the 16-byte result', z3.BoolVal(ok))
    zunit(rep, 'caml_md5_final', final)
# ---- bytecode entry points --------------------------------------------------------------------
def bytecode(rep):
    n = 0
    for stub in ('stubs-chacha20', 'stubs-arcfour', 'stubs-zlib', 'stubs-misc', 'stubs-aes', 'stubs-blowfish', 'stubs-des', 'stubs-ghash'):
        m = build.module(stub)
        for fn in sorted(m.funcs):
            if not fn.endswith('_bytecode') or fn[:-9] not in m.funcs: continue
            def scen(U, fn=fn, stub=stub):
                e = ZEnv(U, stub, over={}); k = len(e.m.funcs[fn[:-9]].params); seen = []; res = U.d.fresh('res', 64)
                e.need(fn[:-9])
                def ov(ex, a, i): seen.append(list(a)); return res
                e.ex.over[fn[:-9]] = ov
                vs = [z3.BitVec(f'a{i}', 64) for i in range(k)]; o = Obj('argv', 8 * k, kind='arg', ro=True)
                for i, v in enumerate(vs):
                    for j in range(8): o.cells[8 * i + j] = ('P', v, 8, j)
                r = e.call(fn, Ptr(o, 0), k)
                if len(seen) != 1: e.prove('calls the native entry point once', z3.BoolVal(False)); return
                e.prove('same arguments, same result', z3.And(BV(r, 64) == res, *[BV(x, 64) == v for x, v in zip(seen[0], vs)]))
            n += 1; zunit(rep, fn, scen)
    if not n: raise Unsupported('no bytecode entry points')
# ---- zlib glue --------------------------------------------------------------------------------
def zlay():
    lay, size = build.layout('stubs-zlib', 'z_stream', ['next_in', 'avail_in', 'next_out', 'avail_out', 'msg', 'zalloc', 'zfree', 'opaque'])
    return {k: v[0] for k, v in lay.items()}, size
def small(e):
    """caml_alloc_small, caml_copy_string, caml_raise"""
    def alloc_small(ex, args, ins):
        e.rt.gc(); e.rt.n += 1; o = Obj(f'block{e.rt.n}', 8 * args[0], kind='ocaml', meta={'block': True}); e.rt.heap.append(o); return Ptr(o, 0)
    def copy(ex, args, ins):
        if not isinstance(args[0], Ptr): raise Violation('valid-pointer', 'caml_copy_string')
        e.rt.gc(); e.rt.n += 1; o = e.rt.string(f'str{e.rt.n}', 8); return Ptr(o, 0)
    def raise_(ex, args, ins):
        b = args[0]
        if not isinstance(b, Ptr) or not b.o.valid or not b.o.meta.get('block'): raise Violation('live-pointer', 'raised value')
        t = ex.load(Ptr(b.o, 8), 8)
        if isinstance(t, Ptr):
            if not t.o.valid: raise Violation('live-pointer', 'exception argument')
            for i in (0, 8):
                x = ex.load(Ptr(t.o, i), 8)
                if not isinstance(x, Ptr) or not x.o.valid: raise Violation('live-pointer', 'exception argument')
        raise ZRaise()
    exn = Obj('exn', 8, [3, 0, 0, 0, 0, 0, 0, 0], kind='rt')
    e.ex.ext.update({'caml_alloc_small': alloc_small, 'caml_copy_string': copy, 'caml_raise': raise_, 'caml_named_value': lambda ex, a, i: Ptr(exn, 0)})
class ZRaise(Exception): pass
def zstream(e, lay, size):
    o = Obj('zs', size, [z3.BitVec(f'zs.{i}', 8) for i in range(size)], kind='malloc')
    m = lay['msg']; mp = Obj('msg', 8, [65, 0, 0, 0, 0, 0, 0, 0], ro=True, kind='arg')
    e.ex.store(Ptr(o, m), Ptr(mp, 0), 8)
    c = e.rt.custom('vzs', 8); e.ex.store(Ptr(c, 8), Ptr(o, 0), 8)
    return Ptr(c, 0), o
def zrun(kind):
    FL = {0: 0, 1: 2, 2: 3, 3: 4}
    def unit(rep):
        lay, size = zlay()
        for fl in range(4):
            def scen(U, fl=fl):
                e = ZEnv(U, 'stubs-zlib', over={}); d = U.d; small(e); vzs, zo = zstream(e, lay, size); st = {}
                so, vso = zlong('srcpos'); sl, vsl = zlong('srclen'); ssz, _ = zlong('srcsize'); e.assume(z3.ULE(so + sl, ssz))
                do, vdo = zlong('dstpos'); dl, vdl = zlong('dstlen'); dsz, _ = zlong('dstsize'); e.assume(z3.ULE(do + dl, dsz))
                src = e.zstring('src', ssz, lambda k: DST(k), ro=True); dst = e.zstring('dst', dsz, lambda k: DST(k))
                ret = d.fresh('ret', 32); ci = d.fresh('ci', 32); co = d.fresh('co', 32)
                def go(ex, args, ins):
                    st['n'] = st.get('n', 0) + 1
                    z, f = args
                    if not isinstance(z, Ptr) or z.o is not zo or z.off != 0: raise Violation('stream', 'not the stream of this value')
                    ni = ex.load(Ptr(zo, lay['next_in']), 8); no = ex.load(Ptr(zo, lay['next_out']), 8)
                    ai = BV(ex.load(Ptr(zo, lay['avail_in']), 4), 32); ao = BV(ex.load(Ptr(zo, lay['avail_out']), 4), 32)
                    if not (isinstance(ni, Ptr) and ni.o is e.final(src)): raise Violation('input', 'next_in is not in the source string')
                    if not (isinstance(no, Ptr) and no.o is e.final(dst)): raise Violation('output', 'next_out is not in the destination')
                    for nm, p, a, ofs, l in (('input', ni, ai, so, sl), ('output', no, ao, do, dl)):
                        a64 = z3.ZeroExt(32, a)
                        d.prove(f'{nm} starts at the start of the range', BV(p.off, 64) == ofs)
                        d.prove(f'{nm} stays inside the range', z3.ULE(a64, l))
                        d.prove(f'{nm}: all of the range, or a large part of it', z3.Implies(a64 != l, z3.UGE(a64, 1 << 16)))
                    d.prove('flush mode', BV(f, 32) == FL[fl])
                    d.add(z3.ULE(ci, ai)); d.add(z3.ULE(co, ao))
                    ex.store(Ptr(zo, lay['avail_in']), nrm(ai - ci), 4); ex.store(Ptr(zo, lay['avail_out']), nrm(ao - co), 4)
                    ex.store(Ptr(zo, lay['next_in']), Ptr(ni.o, nrm(BV(ni.off, 64) + z3.ZeroExt(32, ci))), 8); ex.store(Ptr(zo, lay['next_out']), Ptr(no.o, nrm(BV(no.off, 64) + z3.ZeroExt(32, co))), 8)
                    return ret
                e.ex.ext[kind] = go
                bad = z3.And(ret < 0, ret != -5) if kind == 'deflate' else z3.Or(ret < 0, ret == 2)
                try: r = e.call(f'caml_zlib_{kind}', vzs, src, vso, vsl, dst, vdo, vdl, val_long(fl))
                except ZRaise: e.prove('Error raised only when zlib reports one', bad); return
                e.prove('zlib called once', z3.BoolVal(st.get('n') == 1))
                e.prove('errors of zlib are raised', z3.Not(bad))
                if not isinstance(r, Ptr) or not r.o.valid or r.o.size != 24: raise Violation('result', 'not a live triple')
                f = [BV(e.ex.load(Ptr(r.o, 8 * i), 8), 64) for i in range(3)]
                e.prove('finished flag', f[0] == z3.If(ret == 1, z3.BitVecVal(3, 64), z3.BitVecVal(1, 64)))
                e.prove('bytes consumed', f[1] == 2 * z3.ZeroExt(32, ci) + 1); e.prove('bytes produced', f[2] == 2 * z3.ZeroExt(32, co) + 1)
            zunit(rep, f'caml_zlib_{kind} [flush {fl}]', scen, dict(bounds=[0x7FFFFFFF]))
    return unit
def zinit(kind):
    def unit(rep):
        lay, size = zlay()
        for hdr in (0, 1):
            def scen(U, hdr=hdr):
                e = ZEnv(U, 'stubs-zlib', over={}); d = U.d; small(e); st = {}; ret = d.fresh('ret', 32); lev = z3.BitVec('level', 4)
                def go(ex, a, ins):
                    st['z'] = z = a[0]
                    if not isinstance(z, Ptr) or z.o.kind != 'malloc' or z.off != 0 or z.o.size < size: raise Violation('stream', 'stream argument')
                    for f in ('zalloc', 'zfree', 'opaque'):
                        v = ex.load(Ptr(z.o, lay[f]), 8)
                        d.prove(f'default allocator ({f})', BV(v, 64) == 0 if not isinstance(v, (Ptr, FnPtr)) else z3.BoolVal(False))
                    for i in range(8): z.o.cells[lay['msg'] + i] = 0
                    w = 15 if hdr else 2**32 - 15
                    if kind == 'deflate':
                        d.prove('level', BV(a[1], 32) == z3.ZeroExt(28, lev)); d.prove('method', BV(a[2], 32) == 8); d.prove('window bits and header', BV(a[3], 32) == w)
                        d.prove('memory level', z3.And(BV(a[4], 32) >= 1, BV(a[4], 32) <= 9)); d.prove('strategy', BV(a[5], 32) == 0)
                    else: d.prove('window bits and header', BV(a[1], 32) == w)
                    return ret
                e.ex.ext[f'{kind}Init2_'] = go
                vl = nrm(z3.Concat(z3.BitVecVal(0, 59), lev, z3.BitVecVal(1, 1)))
                try: r = e.call('caml_zlib_deflateInit', vl, val_long(hdr)) if kind == 'deflate' else e.call('caml_zlib_inflateInit', val_long(hdr))
                except ZRaise: e.prove('Error raised only when zlib reports one', ret != 0); return
                e.prove('errors of zlib are raised', ret == 0)
                if not isinstance(r, Ptr) or not r.o.valid: raise Violation('result', 'not a live stream')
                z = e.ex.load(Ptr(r.o, 8), 8); e.prove('result holds the stream', z3.BoolVal(isinstance(z, Ptr) and z.o is st['z'].o and z.o.valid))
            zunit(rep, f'caml_zlib_{kind}Init [header {hdr}]', scen)
        def end(U):
            e = ZEnv(U, 'stubs-zlib', over={}); d = U.d; small(e); vzs, zo = zstream(e, lay, size); ret = d.fresh('ret', 32); st = {}
            def go(ex, a, ins): st['z'] = a[0]; return ret
            e.ex.ext[f'{kind}End'] = go
            try: r = e.call(f'caml_zlib_{kind}End', vzs)
            except ZRaise: e.prove('Error raised only when zlib reports one', ret != 0); return
            e.prove('errors of zlib are raised', ret == 0); e.unit('End', r)
            e.prove('this stream is closed', z3.BoolVal(isinstance(st.get('z'), Ptr) and st['z'].o is zo))
        zunit(rep, f'caml_zlib_{kind}End', end)
    return unit
UNITS = {'system': rng_unit('system'), 'hardware': rng_unit('hardware'), 'hardware-available': avail, 'md5-glue': md5, 'bytecode': bytecode,
         'zlib-deflate': zrun('deflate'), 'zlib-inflate': zrun('inflate'), 'zlib-deflate-init': zinit('deflate'), 'zlib-inflate-init': zinit('inflate')}
