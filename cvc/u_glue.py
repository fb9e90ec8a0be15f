"""Contracts of the remaining glue: erasure of GHASH keys, finalisation functions run by the collector,
processor feature detection, opening and closing the system generator."""
from zv import *
import cv
from cv import Env, Wd
def ctxof(e, r):
    q = e.ex.load(Ptr(e.final(r), 8), 8)
    if not isinstance(q, Ptr) or q.o.kind != 'malloc' or q.off != 0: raise Unsupported('context pointer')
    return q
def ghash_wipe(rep):
    for hw in (1, 0):
        e = Env('stubs-ghash', rep); e.setg('pclmul_available', hw); h = e.sym('h', 16); hp = e.string('h', h)
        r = e.call('caml_ghash_init', hp)
        if not isinstance(r, Ptr): raise Unsupported('caml_ghash_init result')
        nm = 'caml_ghash_wipe ' + ('(clmul)' if hw else '(portable)')
        o = e.final(r)
        if 'custom' in o.meta:
            q = ctxof(e, r); e.ok_unit(nm, e.call('caml_ghash_wipe', Ptr(o, 0)))
            e.eq(nm + ': tables erased', [e.ex.getbyte(q.o, i) for i in range(q.o.size)], [Wd(e.d, 0, 8)] * q.o.size)
            p = e.ex.load(Ptr(o, 8), 8); ok = isinstance(p, Ptr) and p.o is q.o if q.o.valid else p == 0
            rep.ob(nm + ': context owned by the object, or freed and forgotten', 'proved' if ok else 'refuted', 'interp')
        else:
            e.ok_unit(nm, e.call('caml_ghash_wipe', Ptr(o, 0)))
            e.eq(nm + ': key erased', e.content(o), [Wd(e.d, 0, 8)] * 16)
        e.done(nm)
def finalizer(stub, fn, mk):
    def unit(rep):
        e = Env(stub, rep); f = e.need(fn)
        if len(f.params) != 1: raise Unsupported(fn)
        r = mk(e); o = e.final(r); q = ctxof(e, r)
        e.ex.run(f, [Ptr(o, 0)])
        rep.ob(fn + ': context freed', 'proved' if not q.o.valid else 'refuted', 'interp')
        rep.ob(fn + ': reference cleared', 'proved' if e.ex.load(Ptr(o, 8), 8) == 0 else 'refuted', 'interp')
        e.ex.run(f, [Ptr(o, 0)])        # no context left (after an explicit erasure): nothing to do
        e.done(fn)
    return unit
def mk_ghash(e): e.setg('pclmul_available', 0); return e.call('caml_ghash_init', e.string('h', e.sym('h', 16)))
def mk_sha3(e): return e.call('caml_sha3_init', cv.val_long(256))
def mk_any(n):
    def mk(e):
        o = Obj('ctx', n, [0] * n, kind='malloc'); c = e.rt.custom('c', 8); q = Ptr(o, 0)
        for i in range(8): c.cells[8 + i] = ('P', q, 8, i)
        return Ptr(c, 0)
    return mk
def zlib_free(rep):
    e = Env('stubs-zlib', rep); f = e.need('caml_zlib_free_stream')
    r = mk_any(112)(e); o = e.final(r); q = ctxof(e, r); e.ex.run(f, [Ptr(o, 0)])
    rep.ob('caml_zlib_free_stream: stream freed', 'proved' if not q.o.valid else 'refuted', 'interp')
    rep.ob('caml_zlib_free_stream: reference cleared', 'proved' if e.ex.load(Ptr(o, 8), 8) == 0 else 'refuted', 'interp')
    e.done('caml_zlib_free_stream')
def detect(stub, fn, var, bit, what):
    def unit(rep):
        def scen(U):
            d = U.d; e = ZEnv(U, stub, over={}); regs = {}
            def asm(ex, callee, args, ins):
                if 'cpuid' not in callee[1] or not args or type(args[0]) is not int: raise Unsupported('inline asm')
                leaf = args[0]; sub = args[1] if len(args) > 1 and type(args[1]) is int else 0
                if leaf not in regs: regs[leaf] = [d.fresh(f'{x}{leaf:x}', 32) for x in ('a', 'b', 'c', 'd')]
                return Agg(list(regs[leaf]))
            e.ex.ext['asm'] = asm
            g = e.ex.glob(var)
            if not isinstance(g, Obj): raise Unsupported(var)
            r = e.call(fn)
            v = BV(e.ex.load(Ptr(g, 0), 4), 32)
            e.prove('detected: yes or no', z3.Or(v == 0, v == 1))
            has = z3.Extract(bit, bit, BV(regs[1][2], 32)) == 1 if 1 in regs else z3.BoolVal(False)
            e.prove(f'used only where the processor has {what}', z3.Implies(v == 1, has))
        zunit(rep, fn, scen)
    return unit
def sysrng(rep):
    e = Env('stubs-rng', rep)
    for f in ('caml_get_system_rng', 'caml_close_system_rng'): e.ok_unit(f, e.call(f, 1))
    e.done('system generator')
UNITS = {'ghash-wipe': ghash_wipe, 'ghash-free': finalizer('stubs-ghash', 'caml_ghash_finalize', mk_ghash), 'sha3-free': finalizer('stubs-sha3', 'caml_sha3_finalize', mk_sha3),
         'blake3-free': finalizer('stubs-blake3', 'caml_blake3_finalize', mk_any(1912)), 'zlib-free': zlib_free,
         'aesni-detect': detect('stubs-aes', 'aesni_check_available', 'aesni_available', 25, 'AES instructions'),
         'pclmul-detect': detect('stubs-ghash', 'pclmul_check_available', 'pclmul_available', 1, 'carry-less multiplication'), 'system-rng': sysrng}
