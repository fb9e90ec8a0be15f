"""Contracts of the update loops (SMT engine): for every amount of pending data, every offset and
every length, the blocks handed to the compression function are exactly the consecutive blocks of
the message, the rest stays pending, the length counter counts all of it, and nothing outside the
context is written."""
from zv import *
import u_hash
from u_hash import MDS
X = UF('X', 64, 8)         # the message, from the start of the first block not yet compressed
def setw(o, off, n, v):
    for i in range(n): o.cells[off + i] = (v >> (8 * i)) & 255 if type(v) is int else (v if n == 1 else ('P', v, n, i))

def scen(h, lay, size):
    """lay: dict(state, sw, sn, buffer, nb, nbs, len?, lw?)"""
    def run(U):
        def comp(ex, args, ins): return h['comp'](U, ex, args, lay)
        e = ZEnv(U, h['stub'], over={})
        for k, hd in h['over'](U, e, lay).items():
            e.need(k); e.ex.over[k] = hd
        U.ghost['P'] = 0
        old = sym_cells('ctx', size)
        cells = list(old)
        ctx = h['mkctx'](U, e, cells, lay, size)
        o = ctx['o']
        uw = h['bs'].bit_length(); u7 = z3.BitVec('pending', uw); u = nrm(z3.ZeroExt(64 - uw, u7))
        e.assume(z3.ULE(u7, h['bs']) if h.get('lazy') else z3.ULT(u7, h['bs']))
        old = UF('oldbuf', 64, 8)
        o.fn = lambda k: z3.If(z3.ULT(k, u), X(k), old(k))
        setw(o, lay['nb'], lay['nbs'], u if type(u) is int else nrm(z3.Extract(8 * lay['nbs'] - 1, 0, u)))
        for off, n, fn in h['forms'](lay): setw(o, off, n, nrm(fn(U.ghost, U)))
        o.meta['words'] = {lay['nb']: lay['nbs'], **h.get('words', lambda l: {})(lay)}
        before = list(o.cells)
        ofs, vofs = zlong('ofs'); ln, vlen = zlong('len'); sz, _ = zlong('srclen')
        e.assume(z3.ULE(ofs + ln, sz))
        src = e.zstring('src', sz, lambda k: X(nrm(k - ofs + u)), ro=True)
        r = e.call(h['update'], ctx['v'], src, vofs, vlen)
        e.unit(h['update'], r)
        o = e.final(o)
        P = BV(U.ghost['P'], 64)
        nb = z3.ZeroExt(64 - 8 * lay['nbs'], e.ld(o, lay['nb'], lay['nbs']))
        e.prove('pending count = pending + length - bytes compressed', nb == u + ln - P)
        if h.get('lazy'):
            e.prove('pending count in range', z3.And(z3.ULE(nb, h['bs']), z3.Implies(z3.And(nb == 0), z3.And(ln == 0, u == 0))))
        else: e.prove('pending count below the block size', z3.ULT(nb, h['bs']))
        j = U.d.fresh('j', 64)
        e.prove('pending bytes are the last bytes of the message', z3.Implies(z3.ULT(j, nb), o.fn(j) == X(nrm(P + j))))
        for off, n, fn in h['forms'](lay):
            e.prove(f'state after the last block (+{off})', e.ld(o, off, n) == fn(U.ghost, U))
        h['post'](U, e, o, lay, before, ln)
    return run
def md_desc(h):
    lay, size = h.lay(); lay = dict(lay, nb=lay['numbytes'], nbs=4)
    sw = h.w // 8
    ST = [UF(f'ST{i}', 64, h.w) for i in range(h.nw)]
    def forms(lay): return [(lay['state'] + i * sw, sw, (lambda G, U, i=i: ST[i](BV(G['P'], 64)))) for i in range(h.nw)]
    def over(U, e, lay):
        e.need(h.comp, 1)
        def ov(ex, args, ins):
            p = args[0]
            if not isinstance(p, Ptr) or p.off != 0 or p.o.name != 'ctx': raise Unsupported('compress argument')
            P = BV(U.ghost['P'], 64)
            k = U.d.fresh('k', 64)
            U.d.prove('compressed block = next block of the message', z3.Implies(z3.ULT(k, h.bs), p.o.fn(k) == X(nrm(P + k))))
            for off, n, fn in forms(lay): U.d.prove('chaining value', BV(ex.load(Ptr(p.o, off), n), 8 * n) == fn(U.ghost, U))
            U.ghost['P'] = nrm(P + h.bs)
            for off, n, fn in forms(lay): ex.store(Ptr(p.o, off), nrm(fn(U.ghost, U)), n)
            U.d.n += 1; U.modified_obj(p.o); p.o.fn = UF(f'after!{U.d.n}', 64, 8)
        return {h.comp: ov}
    def mkctx(U, e, cells, lay, size):
        p = e.rstring('ctx', cells, lay['buffer'], h.bs, None); return dict(v=p, o=p.o)
    lw = h.w // 8
    def words(lay): return {lay['length']: lw, lay['length'] + lw: lw}
    def post(U, e, o, lay, before, ln):
        W = 2 * h.w; hi, lo = (lay['length'], lay['length'] + lw) if h.lenbe else (lay['length'] + lw, lay['length'])
        def val(f): return z3.Concat(f(hi), f(lo))
        b = lambda off: z3.Concat(*[BV(x, 8) for x in reversed(before[off:off + lw])])
        new = val(lambda off: e.ld(o, off, lw)); old = val(b)
        w64 = z3.ZeroExt(W - 64, ln) if W > 64 else ln
        e.prove('length counter += 8 * length (mod 2^%d)' % W, new == old + (w64 << 3))
    return dict(stub=h.stub, update=f'caml_{h.name}_update', bs=h.bs, forms=forms, over=over, mkctx=mkctx, words=words, post=post), lay, size
def bufform(lay, bs):
    """inside a loop the buffer holds the pending bytes, or nothing is known about it"""
    return [lambda k, G, v: z3.Implies(z3.ULT(k, G['nb'] + BV(G['#it'], 64)), v == X(nrm(BV(G['P'], 64) + k))),        # filled byte by byte
            lambda k, G, v: z3.Implies(z3.ULT(k, G['nb']), v == X(nrm(BV(G['P'], 64) + k)))]
def nbsnap(lay):
    return lambda U, o: dict(nb=nrm(z3.ZeroExt(64 - 8 * lay['nbs'], BV(U.d.ex.load(Ptr(o, lay['nb']), lay['nbs']), 8 * lay['nbs']))))
def stforms(offs, n, nm='ST'):
    """state words at the given offsets are functions of the number of bytes compressed"""
    F = [UF(f'{nm}{i}', 64, 8 * n) for i in range(len(offs))]
    return [(off, n, (lambda G, U, f=f: f(BV(G['P'], 64)))) for off, f in zip(offs, F)]
def block_is(U, ex, p, n, what):
    """obligation: the n bytes at p are the next n bytes of the message"""
    P = BV(U.ghost['P'], 64)
    if not isinstance(p, Ptr): raise Unsupported('block argument')
    if isinstance(p.o, (ZObj, RObj)) and not (isinstance(p.o, RObj) and p.o.outside(p.off, n)):
        ex.bounds(p, n, 'read', False); k = U.d.fresh('k', 64)
        U.d.prove(what, z3.Implies(z3.ULT(k, n), U.d.rd(p.o, nrm(BV(p.off, 64) + k)) == X(nrm(P + k))))
    else: U.d.prove(what, z3.And(*[BV(ex.load(Ptr(p.o, nrm(p.off + j)), 1), 8) == X(nrm(P + j)) for j in range(n)]))
def put_forms(U, ex, o, base, forms):
    for off, n, fn in forms: ex.store(Ptr(o, base + off), nrm(fn(U.ghost, U)), n)
def have_forms(U, ex, o, base, forms):
    for off, n, fn in forms: U.d.prove('chaining value', BV(ex.load(Ptr(o, base + off), n), 8 * n) == fn(U.ghost, U))
def sha3_desc(sz):
    lay, size = u_hash.sha3_lay(); lay = dict(lay, nb=lay['numbytes'], nbs=4); rate = 200 - sz // 4
    fs = stforms([lay['state'] + 8 * i for i in range(25)], 8)
    def over(U, e, lay):
        e.need('KeccakPermutation', 1)
        def ov(ex, args, ins):
            p = args[0]
            if not isinstance(p, Ptr) or p.o.name != 'ctx' or p.off != lay['state']: raise Unsupported('permutation argument')
            P = BV(U.ghost['P'], 64)
            for i, (off, n, fn) in enumerate(fs):
                w = fn(U.ghost, U)
                if i < rate // 8: w = w ^ z3.Concat(*[X(nrm(P + 8 * i + 7 - j)) for j in range(8)])
                U.d.prove(f'state before the permutation = state xor block', BV(ex.load(Ptr(p.o, off), 8), 64) == w)
            U.ghost['P'] = nrm(P + rate); put_forms(U, ex, p.o, 0, fs)
        return {'KeccakPermutation': ov}
    def mkctx(U, e, cells, lay, size):
        r = e.call('caml_sha3_init', val_long(sz)); c = e.final(r); q = e.ex.load(Ptr(c, 8), 8)
        if not isinstance(q, Ptr) or q.off != 0: raise Unsupported('sha3 context')
        cs = list(cells)
        for f in ('rsiz', 'hsiz'): cs[lay[f]:lay[f] + 4] = q.o.cells[lay[f]:lay[f] + 4]
        o = RObj('ctx', size, cs, lay['buffer'], 144, None, kind='malloc'); q = Ptr(o, 0)
        for i in range(8): c.cells[8 + i] = ('P', q, 8, i)
        return dict(v=Ptr(c, 0), o=o)
    def post(U, e, o, lay, before, ln):
        for f in ('rsiz', 'hsiz'): e.prove('frame: ' + f, e.ld(o, lay[f], 4) == z3.Concat(*[BV(x, 8) for x in reversed(before[lay[f]:lay[f] + 4])]))
    return dict(stub='stubs-sha3', update='caml_sha3_absorb', bs=rate, forms=lambda l: fs, over=over, mkctx=mkctx, post=post), lay, size
def b2_desc(b):
    lay, size = b.lay(); lay = dict(lay, nb=lay['numbytes'], nbs=4); W = b.w // 8
    fs = stforms([lay['h'] + W * i for i in range(8)], W) + stforms([lay['len'], lay['len'] + W], W, 'CT')
    def over(U, e, lay):
        e.need(b.comp, 4)
        def ov(ex, args, ins):
            p, q, nb, last = args
            if not isinstance(p, Ptr) or p.o.name != 'ctx' or p.off != 0: raise Unsupported('compress argument')
            U.d.prove('not the last block', BV(last, 32) == 0); U.d.prove('full block', BV(nb, 32) == b.bs)
            block_is(U, ex, q, b.bs, 'compressed block = next block of the message'); have_forms(U, ex, p.o, 0, fs)
            U.ghost['P'] = nrm(BV(U.ghost['P'], 64) + b.bs); put_forms(U, ex, p.o, 0, fs)
        return {b.comp: ov}
    def mkctx(U, e, cells, lay, size):
        p = e.rstring('ctx', cells, lay['buffer'], b.bs, None); return dict(v=p, o=p.o)
    return dict(stub='stubs-blake2', update=f'caml_blake2{b.k}_update', bs=b.bs, forms=lambda l: fs, over=over, mkctx=mkctx, post=lambda *a: None, lazy=True), lay, size
def sip_desc():
    lay, size = u_hash.sip_lay(); lay = dict(lay, nb=lay['used'], nbs=4)
    fs = stforms([lay[f'v{i}'] for i in range(4)], 8)
    def over(U, e, lay):
        e.need('siphash_mix', 2)
        def ov(ex, args, ins):
            p, x = args
            if not isinstance(p, Ptr) or p.o.name != 'ctx' or p.off != 0: raise Unsupported('mix argument')
            P = BV(U.ghost['P'], 64)
            U.d.prove('mixed word = next word of the message', BV(x, 64) == z3.Concat(*[X(nrm(P + 7 - j)) for j in range(8)])); have_forms(U, ex, p.o, 0, fs)
            U.ghost['P'] = nrm(P + 8); put_forms(U, ex, p.o, 0, fs)
        return {'siphash_mix': ov}
    def mkctx(U, e, cells, lay, size):
        p = e.rstring('ctx', cells, lay['buffer'], 8, None); return dict(v=p, o=p.o)
    def post(U, e, o, lay, before, ln):
        e.prove('length byte += length (mod 256)', e.ld(o, lay['len8'], 1) == before[lay['len8']] + z3.Extract(7, 0, ln))
    return dict(stub='stubs-siphash', update='caml_siphash_update', bs=8, forms=lambda l: fs, over=over, mkctx=mkctx, post=post), lay, size
UNITS = {}
def reg_stream(name, mk, *a):
    def unit(rep):
        d, lay, size = mk(*a)
        zunit(rep, name, scen(d, lay, size), dict(bounds=[d['bs']], forms={'ctx': dict(cells=d['forms'](lay), at=bufform(lay, d['bs']), snap=nbsnap(lay))}))
    UNITS[name] = unit
for n in MDS: reg_stream(f'{n}-update', md_desc, MDS[n])
for n in (224, 256, 384, 512): reg_stream(f'sha3-absorb-{n}', sha3_desc, n)
for n in u_hash.B2S: reg_stream(f'blake2{n}-update', b2_desc, u_hash.B2S[n])
reg_stream('siphash-update', sip_desc)
