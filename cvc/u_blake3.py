"""Contracts of BLAKE3 (portable code, SIMD degree 1).
 CMP(cv, block, block_len, counter, flags): the compression function; bits engine: equals the specification.
 chunk state: represents (c, n) = the first n bytes of chunk c have been absorbed
 T(a, b): chaining value of the subtree over the chunks a..b-1; for b - a > 1 it is the parent of
          T(a, m) and T(m, b), m - a = the largest power of two below b - a  (the BLAKE3 tree)
 stack:   represents [0, S): subtrees of decreasing power-of-two sizes, the top two possibly equal
 update:  (S, n) -> all of the input absorbed;  finalize: root node over [0, total)."""
from zv import *
import cv, u_stream
from u_misc import watch
import hashes as H
from cv import Env, Wd, cat_le
XF = ('-Dalways_inline=unused',)        # internal functions stay functions
STUB = 'stubs-blake3'
START, END, PARENT, ROOT, KEYED = 1, 2, 4, 8, 16
def lay():
    l, size = build.layout(STUB, 'blake3_hasher', ['key', 'chunk', 'cv_stack_len', 'cv_stack'], XF)
    c, cs = build.layout(STUB, 'blake3_chunk_state', ['cv', 'chunk_counter', 'buf', 'buf_len', 'blocks_compressed', 'flags'], XF)
    exp = dict(cv=32, chunk_counter=8, buf=64, buf_len=1, blocks_compressed=1, flags=1)
    if any(c[k][1] != v for k, v in exp.items()) or l['key'][1] != 32 or l['cv_stack_len'][1] != 1 or l['cv_stack'][1] % 32: raise Unsupported('blake3 layout')
    return {k: v[0] for k, v in l.items()}, size, {k: v[0] for k, v in c.items()}, cs, l['cv_stack'][1] // 32
CMPF = UF('CMP', 256, 512, 8, 64, 8, 256); XOFF = UF('XOF', 256, 512, 8, 64, 8, 512)
def cpu(ex, args, ins): return 0
# ---- compression function (bits) -------------------------------------------------------------
def benv(rep):
    e = Env(STUB, rep, extra=XF)
    if 'get_cpu_features' in e.m.funcs: e.ex.over['get_cpu_features'] = cpu
    return e
def compress(rep):
    e = benv(rep); d = e.d; f = e.need('blake3_compress_in_place'); g = e.need('blake3_compress_xof')
    if len(f.params) != 5 or len(g.params) != 6: raise Unsupported('compress parameters')
    cvb = e.sym('cv', 32); blk = e.sym('block', 64); bl = e.sym('len', 1)[0]; ctr = e.sym('ctr', 8); fl = e.sym('flags', 1)[0]
    z3b = [Wd(d, 0, 8)] * 3
    args = (cat_le(ctr[:4]), cat_le(ctr[4:]), cat_le([bl] + z3b), cat_le([fl] + z3b))
    want = H.blake3_compress([cat_le(cvb[i:i + 4]) for i in range(0, 32, 4)], blk, *args)
    wb = [b for w in want for b in w.bytes_le()]
    co = Obj('cv', 32, [b.v for b in cvb], kind='arg'); bo = Obj('block', 64, [b.v for b in blk], ro=True, kind='arg')
    e.ex.run(f, [Ptr(co, 0), Ptr(bo, 0), bl.v, cat_le(ctr).v, fl.v])
    e.eq('blake3_compress_in_place', [Wd(d, e.ex.getbyte(co, i), 8) for i in range(32)], wb[:32])
    co = Obj('cv', 32, [b.v for b in cvb], ro=True, kind='arg'); oo = Obj('out', 64, kind='arg')
    e.ex.run(g, [Ptr(co, 0), Ptr(bo, 0), bl.v, cat_le(ctr).v, fl.v, Ptr(oo, 0)])
    e.eq('blake3_compress_xof', [Wd(d, e.ex.getbyte(oo, i), 8) for i in range(64)], wb)
    e.done('compress')
# ---- common SMT scenario pieces -----------------------------------------------------------------
class S:
    """one scenario"""
    def __init__(s, U, over=('compress',)):
        s.U = U; s.d = U.d; s.e = ZEnv(U, STUB, over={}, extra=XF); s.ex = s.e.ex
        s.L, s.size, s.C, s.csize, s.depth = lay(); s.over = s.ex.over
        if 'get_cpu_features' in s.e.m.funcs: s.over['get_cpu_features'] = cpu
        s.ax = []
    def word(s, p, n):
        """n bytes at p as one bit vector (little endian)"""
        if not isinstance(p, Ptr): raise Unsupported('pointer argument')
        s.ex.bounds(p, n, 'read', False)
        bs = [BV(s.d.rd(p.o, nrm(BV(p.off, 64) + i)) if type(p.off) is not int or isinstance(p.o, (ZObj, RObj)) else s.ex.load(Ptr(p.o, p.off + i), 1), 8) for i in range(n)]
        return z3.simplify(z3.Concat(*reversed(bs)) if n > 1 else bs[0])
    def put(s, p, v, n):
        for i in range(n): s.ex.store(Ptr(p.o, nrm(BV(p.off, 64) + i) if type(p.off) is not int else p.off + i), nrm(z3.Extract(8 * i + 7, 8 * i, v)), 1)
    def prove(s, n, c): s.d.prove(n, c)
    def same(s, what, a, b):
        a = z3.simplify(BV(a, b.size())); b = z3.simplify(b)
        if a.eq(b): s.U.proved(what); return
        s.d.prove(what, a == b)
    def ov(s, name, n, fn): s.e.need(name, n); s.over[name] = fn
    def cmp_over(s):
        def ip(ex, a, ins):
            r = CMPF(s.word(a[0], 32), s.word(a[1], 64), BV(a[2], 8), BV(a[3], 64), BV(a[4], 8)); s.put(a[0], r, 32)
        def xof(ex, a, ins):
            r = XOFF(s.word(a[0], 32), s.word(a[1], 64), BV(a[2], 8), BV(a[3], 64), BV(a[4], 8)); s.put(a[5], r, 64)
        s.ov('blake3_compress_in_place', 5, ip); s.ov('blake3_compress_xof', 6, xof)
        if 'blake3_compress_in_place_portable' in s.e.m.funcs: s.over['blake3_compress_in_place_portable'] = ip
X = UF('X', 64, 8); K = z3.BitVec('K', 256); F = z3.BitVec('F', 8)
def xblk(p, n=64):
    p = BV(p, 64); return z3.simplify(z3.Concat(*[X(nrm(p + i)) for i in reversed(range(n))]))
# ---- chunk state ------------------------------------------------------------------------------------
# within a chunk (positions from its start): CB_i(P) = cv after the P/64 blocks before P
def chunk_update(rep):
    L, size, C, csize, depth = lay()
    CB = [UF(f'CB{i}', 64, 32) for i in range(8)]
    fs = [(C['cv'] + 4 * i, 4, (lambda G, U, i=i: CB[i](BV(G['P'], 64)))) for i in range(8)]
    c = z3.BitVec('c', 64)
    def scen(U):
        s = S(U); e = s.e; U.ghost['P'] = 0
        e.need('chunk_state_update', 3)
        n0 = z3.BitVec('n', 11); n = nrm(z3.ZeroExt(53, n0)); e.assume(z3.ULE(n0, 1024))
        ln0 = z3.BitVec('len', 11); ln = nrm(z3.ZeroExt(53, ln0)); e.assume(z3.ULE(n + ln, 1024))
        j = nrm(z3.If(n == 0, z3.BitVecVal(0, 64), z3.LShR(n - 1, 6))); pend = nrm(n - 64 * j)
        o = RObj('st', csize, sym_cells('st', csize), C['buf'], 64, None, kind='arg'); old = UF('oldbuf', 64, 8)
        U.ghost['P'] = nrm(64 * j)
        o.fn = lambda k: z3.If(z3.ULT(k, pend), X(nrm(64 * j + k)), z3.BitVecVal(0, 8))
        for off, w, fn in fs: u_stream.setw(o, off, w, nrm(fn(U.ghost, U)))
        for i, w in ((C['chunk_counter'], 8), ): u_stream.setw(o, i, w, c)
        o.cells[C['buf_len']] = nrm(z3.Extract(7, 0, pend)); o.cells[C['blocks_compressed']] = nrm(z3.Extract(7, 0, j)); o.cells[C['flags']] = F
        mo = ZObj('m', ln, lambda k: X(nrm(n + k)), ro=True, kind='arg')
        def ip(ex, a, ins):
            p, m, bl, ctr, fl = a; P = BV(U.ghost['P'], 64)
            if not isinstance(p, Ptr) or p.o is not o or p.off != C['cv']: raise Unsupported('compress argument')
            s.prove('full block', BV(bl, 8) == 64); s.prove('chunk counter', BV(ctr, 64) == c)
            s.prove('flags: chunk start exactly on the first block', BV(fl, 8) == z3.If(P == 0, F | START, F))
            s.prove('never the last block of the chunk', z3.ULT(P, 960))
            u_stream.block_is(U, ex, m, 64, 'compressed block = next block of the chunk'); u_stream.have_forms(U, ex, o, 0, fs)
            U.ghost['P'] = nrm(P + 64); u_stream.put_forms(U, ex, o, 0, fs)
        s.ov('blake3_compress_in_place', 5, ip)
        e.call('chunk_state_update', Ptr(o, 0), Ptr(mo, 0), ln)
        n2 = nrm(n + ln); j2 = z3.If(n2 == 0, z3.BitVecVal(0, 64), z3.LShR(n2 - 1, 6)); p2 = n2 - 64 * j2
        P = BV(U.ghost['P'], 64)
        s.prove('whole blocks but the last are compressed', P == 64 * j2)
        s.prove('blocks_compressed', z3.ZeroExt(56, e.ld(o, C['blocks_compressed'], 1)) == j2)
        s.prove('buf_len', z3.ZeroExt(56, e.ld(o, C['buf_len'], 1)) == p2)
        k = U.d.fresh('k', 64)
        s.prove('pending bytes, zero padded', z3.Implies(z3.ULT(k, 64), o.fn(k) == z3.If(z3.ULT(k, p2), X(nrm(P + k)), z3.BitVecVal(0, 8))))
        u_stream.have_forms(U, s.ex, o, 0, fs)
        s.prove('frame: counter, flags', z3.And(e.ld(o, C['chunk_counter'], 8) == c, e.ld(o, C['flags'], 1) == F))
    # at the loop: the buffer holds zeros from nb on
    at = [lambda k, G, v: z3.Implies(z3.ULT(k, 64), v == z3.If(z3.ULT(k, G['nb']), X(nrm(BV(G['P'], 64) + k)), z3.BitVecVal(0, 8)))]
    lay_ = dict(nb=C['buf_len'], nbs=1)
    zunit(rep, 'chunk_state_update', scen, dict(bounds=[64, 960, 1024, 15], coefs={'P': [1, -1]}, vals={'blocks': lambda G: z3.LShR(BV(G['P'], 64), 6)},
          forms={'st': dict(cells=fs, at=at, snap=u_stream.nbsnap(lay_))}))
# ---- chunks and parents --------------------------------------------------------------------------
T = UF('T', 64, 64, 256)
def tnode(a, b): return T(BV(a, 64), BV(b, 64))
def cat2(l, r): return z3.Concat(r, l)              # 64-byte block of two chaining values
def parent(l, r): return CMPF(K, cat2(l, r), z3.BitVecVal(64, 8), z3.BitVecVal(0, 64), F | PARENT)
def pow2(x): return z3.And(x != 0, x & (x - 1) == 0)
def lsplit(a, m, b):
    """m - a = largest power of two below b - a"""
    w = m - a; r = b - m
    return z3.And(pow2(w), r != 0, z3.ULE(r, w))
def tree_ax(a, m, b):
    a, m, b = BV(a, 64), BV(m, 64), BV(b, 64)
    return z3.Implies(lsplit(a, m, b), T(a, b) == parent(T(a, m), T(m, b)))
def hash_many(rep):
    """n inputs of 16 blocks (chunks) or of one block (parents); in this configuration n <= 2"""
    for blocks, ns in ((16, (0, 1)), (1, (0, 1, 2))):
        for n in ns:
            def scen(U):
                s = S(U); s.cmp_over(); e = s.e; e.need('blake3_hash_many', 10)
                c = z3.BitVec('c', 64); size = 64 * blocks
                ms = [ZObj(f'm{i}', z3.BitVecVal(size, 64), (lambda k, i=i: X(nrm(k + size * i))), ro=True, kind='arg') for i in range(n)]
                arr = Obj('inputs', 8 * max(n, 1), kind='arg')
                for i in range(n): s.ex.store(Ptr(arr, 8 * i), Ptr(ms[i], 0), 8)
                arr.ro = True; key = Obj('key', 32, kind='arg'); s.put(Ptr(key, 0), K, 32); key.ro = True
                out = Obj('out', 32 * max(n, 1), kind='arg')
                fs, fe, inc = (START, END, 1) if blocks == 16 else (0, 0, 0)
                e.call('blake3_hash_many', Ptr(arr, 0), n, blocks, Ptr(key, 0), c, inc, F, fs, fe, Ptr(out, 0))
                for i in range(n):
                    v = K; ctr = nrm(c + i * inc)
                    for b in range(blocks):
                        fl = F | (fs if b == 0 else 0) | (fe if b == blocks - 1 else 0)
                        v = CMPF(v, xblk(size * i + 64 * b), z3.BitVecVal(64, 8), BV(ctr, 64), z3.simplify(fl))
                    s.same(f'chaining value {i}', s.word(Ptr(out, 32 * i), 32), v)
            zunit(rep, f'blake3_hash_many [{n} x {blocks} blocks]', scen)
class Tree(S):
    """scenario with the message as one object: byte k of it is message byte base + k"""
    def __init__(s, U, base, size):
        S.__init__(s, U); s.cmp_over(); s.base = base
        s.msg = ZObj('msg', size, lambda k: X(nrm(BV(base, 64) + k)), ro=True, kind='arg')
        s.rec = {}; s.whole = True
        s.ov('chunk_state_update', 3, s.chunk_over)
        s.ov('blake3_hash_many', 10, s.many_over)
    def kf(s, kp, fl, what):
        s.same(what + ': key', s.word(kp, 32), K); s.prove(what + ': flags', BV(fl, 8) == F)
    def at(s, p, n, c, what):
        """p points to n readable bytes, the start of chunk c"""
        if not isinstance(p, Ptr) or p.o is not s.msg: raise Unsupported(what + ': input pointer')
        s.ex.bounds(p, n, 'read', False)
        s.prove(what + ': input = the message at its chunk', BV(s.base, 64) + BV(p.off, 64) == 1024 * BV(c, 64))
    def st(s, p):
        C = s.C; g = lambda f, n: s.word(Ptr(p.o, p.off + C[f]), n)
        return dict(cv=g('cv', 32), buf=g('buf', 64), bl=g('buf_len', 1), bc=g('blocks_compressed', 1), fl=g('flags', 1), c=g('chunk_counter', 8))
    def setst(s, p, r):
        C = s.C
        for f, k, n in (('cv', 'cv', 32), ('buf', 'buf', 64), ('buf_len', 'bl', 1), ('blocks_compressed', 'bc', 1), ('chunk_counter', 'c', 8), ('flags', 'fl', 1)):
            s.put(Ptr(p.o, p.off + C[f]), BV(r[k], 8 * n), n)
    def mkst(s, c, n, fresh=False):
        """a chunk state that represents (c, n): what chunk_state_update guarantees"""
        d = s.d; r = dict(cv=d.fresh('cv', 256), buf=d.fresh('buf', 512), bl=d.fresh('bl', 8), bc=d.fresh('bc', 8), fl=F, c=c, n=n)
        z = lambda x: z3.ZeroExt(56, x)
        d.add(z3.And(z3.ULE(r['bl'], 64), z3.ULE(r['bc'], 15), BV(n, 64) == 64 * z(r['bc']) + z(r['bl']), z3.Implies(r['bl'] == 0, r['bc'] == 0)))
        d.add(z3.Implies(BV(n, 64) == 0, z3.And(r['cv'] == K, r['buf'] == 0)))
        return r
    def chunk_cv(s, r):
        """chaining value of the chunk as specified"""
        return CMPF(r['cv'], r['buf'], r['bl'], BV(r['c'], 64), z3.If(r['bc'] == 0, z3.BitVecVal(START, 8), z3.BitVecVal(0, 8)) | F | END)
    def chunk_over(s, ex, a, ins):
        p, m, n = a
        if not isinstance(p, Ptr) or type(p.off) is not int: raise Unsupported('chunk state pointer')
        cur = s.st(p); rec = s.rec.get((id(p.o), p.off))
        if rec is None or not all(z3.simplify(BV(rec[k], cur[k].size())).eq(cur[k]) for k in ('cv', 'buf', 'bl', 'bc')):
            s.same('empty chunk: cv', cur['cv'], K); s.prove('empty chunk', z3.And(cur['buf'] == 0, cur['bl'] == 0, cur['bc'] == 0)); n0 = z3.BitVecVal(0, 64)
        else: n0 = BV(rec['n'], 64); s.prove('chunk counter is that of the chunk', z3.Or(n0 == 0, BV(rec['c'], 64) == cur['c']))
        s.prove('chunk flags', cur['fl'] == F)
        c = nrm(cur['c']); n64 = BV(n, 64)
        s.prove('the chunk is not overfull', z3.And(z3.ULE(n64, 1024), z3.ULE(n0 + n64, 1024)))
        s.at2(m, n, nrm(1024 * BV(c, 64) + n0), 'chunk_state_update')
        r = s.mkst(c, nrm(n0 + n64)); s.rec[(id(p.o), p.off)] = r; r['obj'] = p.o; s.setst(p, r)
        s.d.add(z3.Implies(s.cond_full(r), tnode(c, nrm(BV(c, 64) + 1)) == s.chunk_cv(r)))
    def cond_full(s, r):
        """the chunk consists of exactly the bytes absorbed"""
        end = BV(s.base, 64) + BV(s.msg.size, 64); n = BV(r['n'], 64)
        return z3.Or(n == 1024, 1024 * BV(r['c'], 64) + n == end) if s.whole else n == 1024
    def at2(s, p, n, pos, what):
        if isinstance(p, Ptr) and p.o is s.msg:
            s.ex.bounds(p, n, 'read', False); s.prove(what + ': input = the message at its position', BV(s.base, 64) + BV(p.off, 64) == BV(pos, 64)); return
        raise Unsupported(what + ': input pointer')
    def many_over(s, ex, a, ins):
        arr, n, blocks, key, c, inc, fl, fs, fe, out = a
        if type(n) is not int or type(blocks) is not int: raise Unsupported('hash_many argument')
        if n == 0: return
        s.same('hash_many: key', s.word(key, 32), K)
        for i in range(n):
            p = ex.load(Ptr(arr.o, nrm(BV(arr.off, 64) + 8 * i)), 8); o = Ptr(out.o, nrm(BV(out.off, 64) + 32 * i))
            if blocks == 16:
                s.prove('hash_many: chunk flags', z3.And(BV(fl, 8) == F, BV(fs, 8) == START, BV(fe, 8) == END)); s.prove('hash_many: counter increments', BV(inc, 1 if type(inc) is int else inc.size()) == 1)
                ci = nrm(BV(c, 64) + i); s.at(p, 1024, ci, 'hash_many'); s.put(o, tnode(ci, nrm(BV(ci, 64) + 1)), 32)
            elif blocks == 1:
                s.prove('hash_many: parent flags and counter', z3.And(BV(c, 64) == 0, z3.Or(BV(inc, 1 if type(inc) is int else inc.size()) == 0, n == 1), BV(fl, 8) == F | PARENT, BV(fs, 8) == 0, BV(fe, 8) == 0))
                b = s.word(p, 64); s.put(o, CMPF(K, b, z3.BitVecVal(64, 8), z3.BitVecVal(0, 64), F | PARENT), 32)
            else: raise Unsupported('hash_many blocks')
def chunks(n): return z3.LShR(BV(n, 64) + 1023, 10)
def subtree_post(s, out, c, ln, n):
    """what compress_subtree_wide guarantees; n: number of chaining values"""
    c = BV(c, 64); e = nrm(c + chunks(ln))
    if n == 1: s.put(out, tnode(c, nrm(c + 1)), 32); return
    w = s.d.fresh('w', 64); m = nrm(c + w); s.d.add(lsplit(c, m, e)); s.d.add(z3.ULT(w, chunks(ln))); s.d.add(tree_ax(c, m, e))
    s.put(out, tnode(c, m), 32); s.put(Ptr(out.o, nrm(BV(out.off, 64) + 32)), tnode(m, e), 32)
MAXLEN = 1 << 60
def key_obj(s):
    key = Obj('key', 32, kind='arg'); s.put(Ptr(key, 0), K, 32); key.ro = True; return Ptr(key, 0)
def subtree(rep):
    def scen(U):
        c = z3.BitVec('c', 64); ln = z3.BitVec('len', 64); lo = U.d
        lo.add(z3.And(z3.ULE(1, ln), z3.ULE(ln, MAXLEN), z3.ULE(c, 1 << 54)))
        s = Tree(U, nrm(1024 * c), ln); e = s.e; key = key_obj(s); f = e.need('blake3_compress_subtree_wide', 6)
        out = Obj('out', 32 * 16, kind='arg')
        one = lo.branch(z3.If(z3.ULE(ln, 1024), z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)), None, None)
        def rec(ex, a, ins):
            p, n, kp, cc, fl, o = a; n64 = BV(n, 64); cc = BV(cc, 64)
            s.prove('recursive call: shorter, not empty', z3.And(z3.ULT(n64, ln), n64 != 0)); s.kf(kp, fl, 'recursive call')
            s.at(p, n, cc, 'recursive call')
            k = 1 if lo.branch(z3.If(z3.ULE(n64, 1024), z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)), None, None) else 2
            subtree_post(s, o, cc, n, k); return k
        s.over['blake3_compress_subtree_wide'] = rec
        # the body: the function itself, whose recursive calls are replaced by the contract
        r = s.ex.run(f, [Ptr(s.msg, 0), ln, key, c, F, Ptr(out, 0)])
        s.prove('number of chaining values', BV(r, 64) == (1 if one else 2))
        if one: s.same('chunk chaining value', s.word(Ptr(out, 0), 32), tnode(c, nrm(c + 1))); return
        e_ = nrm(c + chunks(ln))
        l = s.word(Ptr(out, 0), 32); r_ = s.word(Ptr(out, 32), 32)
        # the left subtree: the largest power of two chunks that leaves something to the right
        w = s.d.fresh('half', 64); m = nrm(c + w); s.d.add(lsplit(c, m, e_)); s.d.add(z3.ULT(w, chunks(ln)))
        s.same('left chaining value', l, tnode(c, m)); s.same('right chaining value', r_, tnode(m, e_))
    zunit(rep, 'blake3_compress_subtree_wide', scen, dict(), timeout=400)
# ---- the stack of subtrees ------------------------------------------------------------------------
def pop_lemma(rep):
    """(2h+1) 2^(j+t) has popcount(h) + 1 bits set, (2h 2^j + 2^j - 1) 2^t has popcount(h) + j"""
    t0 = time.time(); n = 0
    def bits(v): return [z3.simplify(z3.Extract(i, i, v)) for i in range(v.size())]
    for q in range(54):
        h = z3.BitVec('h', 63 - q); one = z3.BitVecVal(1, 1)
        c = z3.Concat(h, one, z3.BitVecVal(0, q)) if q else z3.Concat(h, one)
        hb = sorted(str(b) for b in bits(h))
        cs = bits(c); sym = sorted(str(b) for b in cs if not z3.is_bv_value(b)); ones = sum(b.as_long() for b in cs if z3.is_bv_value(b))
        if sym != hb or ones != 1: rep.ob('popcount lemma', 'unproved', 'z3'); return
        n += 1
        for j in range(q + 1):
            t = q - j; m = z3.Concat(*([h, z3.BitVecVal(0, 1)] + ([z3.BitVecVal((1 << j) - 1, j)] if j else []) + ([z3.BitVecVal(0, t)] if t else [])))
            ms = bits(m); sym = sorted(str(b) for b in ms if not z3.is_bv_value(b)); ones = sum(b.as_long() for b in ms if z3.is_bv_value(b))
            x = z3.Solver(); x.add(m + z3.BitVecVal(1 << t, 64) != c)
            if sym != hb or ones != j or x.check() != z3.unsat: rep.ob('popcount lemma', 'unproved', 'z3'); return
            n += 1
    rep.ob('popcount lemma: merging a run of j equal sizes', 'proved', 'z3', n=n, t=time.time() - t0)
    # sizes are decreasing powers of two: what lies above an entry is at most as large as the entry
    x, y, r = z3.BitVecs('x y r', 64); sv = z3.Solver()
    sv.add(pow2(x), pow2(y), z3.ULT(y, x), z3.ULE(r, y), z3.ULE(x, 1 << 60), z3.Not(z3.ULE(y + r, x)))
    rep.ob('size lemma: the part above a subtree is not larger', 'proved' if sv.check() == z3.unsat else 'unproved', 'z3')
_SC = {}
def selfcells(n):
    if n not in _SC: _SC[n] = sym_cells('self', n)
    return _SC[n]
class Stack(S):
    def __init__(s, U, n):
        S.__init__(s, U); s.n = n; s.obj = Obj('self', s.size, list(selfcells(s.size)), kind='arg'); s.p = Ptr(s.obj, 0)
        s.ex.store(Ptr(s.obj, s.L['key']), K, 32); s.obj.cells[s.L['cv_stack_len']] = n
        s.obj.cells[s.L['chunk'] + s.C['flags']] = F
        s.facts = set(); s.held = []
        def ip(ex, a, ins):
            blk = a[1]; l, r = s.cvat(blk), s.cvat(Ptr(blk.o, blk.off + 32))
            s.same('parent: key', s.cvat(a[0]), K); s.prove('parent: flags, counter, length', z3.And(BV(a[4], 8) == F | PARENT, BV(a[3], 64) == 0, BV(a[2], 8) == 64))
            v = s.join(l, r)
            s.ex.store(a[0], v, 32)
        s.ov('blake3_compress_in_place', 5, ip)
    def fact(s, *f): s.facts.add(tuple(a.get_id() for a in f)); s.held.append(f)
    def cvat(s, p):
        v = s.ex.load(p, 32); return z3.simplify(BV(v, 256))
    def join(s, l, r):
        """parent of adjacent subtrees whose sizes fit = the subtree of both"""
        if l.decl().name() == 'T' and r.decl().name() == 'T' and l.arg(1).eq(r.arg(0)):
            f = (l.arg(0), l.arg(1), r.arg(1))
            if tuple(a.get_id() for a in f) in s.facts: return T(l.arg(0), r.arg(1))
        raise Stuck('merged subtrees are adjacent and complete', f'{l} + {r}'[:300], 'sat')
    def slot(s, i): return Ptr(s.obj, s.L['cv_stack'] + 32 * i)
    def setcv(s, i, a, b): s.ex.store(s.slot(i), T(a, b), 32)
    def frame(s, before, keep):
        o = s.obj
        for k in range(s.size):
            if k == s.L['cv_stack_len'] or (s.L['cv_stack'] <= k < s.L['cv_stack'] + 32 * s.depth and (k - s.L['cv_stack']) // 32 >= keep): continue
            if o.cells[k] is not before[k] and o.cells[k] != before[k]: raise Stuck('frame', f'byte {k} of the hasher changes', 'sat')
def merge(lo, hi):
    def unit(rep):
        depth = lay()[4]
        def scen(U):
            for n in range(lo, min(hi, depth + 1)):
                for j in range(0, max(n, 1)):
                    s = Stack(U, n); s.e.need('hasher_merge_cv_stack', 2)
                    c = z3.BitVec('c', 64); A = [z3.BitVec(f'a{i}', 64) for i in range(n)] + [c]
                    for i in range(n): s.setcv(i, A[i], A[i + 1])
                    # a run of j: the top j + 1 entries have sizes w 2^(j-1), ..., w, w
                    for i in range(1, j + 1): s.fact(A[n - 1 - i], A[n - i], c)
                    def pc(name, args, w):
                        if 'ctpop' not in name: raise Unsupported(name)
                        v = args[0]
                        if z3.is_bv(v) and v.size() == 32:
                            if z3.simplify(v).eq(z3.simplify(z3.Extract(31, 0, c))): halves.add(0); return n - j
                            if z3.simplify(v).eq(z3.simplify(z3.Extract(63, 32, c))): halves.add(1); return 0
                            v = z3.ZeroExt(32, v)
                        s.prove('number of chunks', BV(v, 64) == c); return n - j
                    U.d.intrin = pc; halves = set()
                    before = list(s.obj.cells)
                    s.e.call('hasher_merge_cv_stack', s.p, c)
                    if halves == {0, 1}: raise Unsupported('popcount of the halves')
                    if halves: raise Stuck('popcount of all 64 bits', 'counts the bits of one half of the number of chunks', 'sat')
                    if s.obj.cells[s.L['cv_stack_len']] != n - j: raise Stuck('stack length = popcount', f'{s.obj.cells[s.L["cv_stack_len"]]} for {n - j}', 'sat')
                    if n: s.same('merged subtree', s.cvat(s.slot(n - 1 - j)), T(A[n - 1 - j], c))
                    s.frame(before, n - 1 - j if j else n)
                    s.U.proved('frame')
        zunit(rep, f'hasher_merge_cv_stack [{lo}..{hi})', scen, dict(direct=True), timeout=900)
    return unit
def push(rep):
    depth = lay()[4]
    def scen(U):
        for n in range(0, depth):
            s = Stack(U, n); s.e.need('hasher_push_cv', 3); S0 = z3.BitVec('S', 64)
            st = dict(m=0)
            def mg(ex, a, ins):
                if a[0] != s.p: raise Unsupported('merge argument')
                if s.obj.cells[s.L['cv_stack_len']] != n or st['m']: raise Stuck('merge before the new entry', '', 'sat')
                s.prove('merged up to the new subtree', BV(a[1], 64) == S0); st['m'] = 1
            s.ov('hasher_merge_cv_stack', 2, mg)
            cvo = Obj('cv', 32, kind='arg'); v = z3.BitVec('new', 256); s.ex.store(Ptr(cvo, 0), v, 32); cvo.ro = True
            before = list(s.obj.cells)
            s.e.call('hasher_push_cv', s.p, Ptr(cvo, 0), S0)
            if not st['m']: raise Stuck('merge before the new entry', '', 'sat')
            if s.obj.cells[s.L['cv_stack_len']] != n + 1: raise Stuck('stack length + 1', '', 'sat')
            s.same('new entry on top', s.cvat(s.slot(n)), v); s.frame(before, n); s.U.proved('frame')
    zunit(rep, 'hasher_push_cv', scen)
# ---- update -----------------------------------------------------------------------------------------
class Hasher(Tree):
    def __init__(s, U, base, size, msg=None):
        Tree.__init__(s, U, base, size); s.whole = False
        if msg is not None: s.msg = msg
        s.obj = Obj('self', s.size, sym_cells('self', s.size), kind='malloc'); s.p = Ptr(s.obj, 0)
        s.put(Ptr(s.obj, s.L['key']), K, 32); s.cp = Ptr(s.obj, s.L['chunk'])
def update(rep):
    def scen(U):
        d = U.d; c0 = z3.BitVec('c0', 64); n0 = nrm(z3.ZeroExt(53, z3.BitVec('n0', 11)))
        d.add(z3.And(z3.ULE(n0, 1024), z3.ULE(c0, 1 << 52)))
        ofs, vofs = zlong('ofs'); ln, vlen = zlong('len'); sz, _ = zlong('srclen')
        d.add(z3.ULE(ofs + ln, sz))
        base = nrm(1024 * c0 + n0 - ofs)
        s = Hasher(U, base, sz); e = s.e
        p = e.zstring('src', sz, lambda k: X(nrm(BV(base, 64) + k)), ro=True); s.msg = p.o
        ctx = e.rt.custom('ctx', 8)
        for i in range(8): ctx.cells[8 + i] = ('P', s.p, 8, i)
        U.total = nrm(1024 * c0 + n0 + ln)
        r0 = s.mkst(c0, n0); s.setst(s.cp, r0); s.rec[(id(s.obj), s.cp.off)] = r0
        d.add(z3.Implies(s.cond_full(r0), tnode(c0, nrm(c0 + 1)) == s.chunk_cv(r0)))
        U.ghost['S'] = c0; U.ghost['two'] = z3.If(z3.Or(c0 == 0, n0 != 0), z3.BitVecVal(1, 64), z3.BitVecVal(1, 64)); U.ghost['two'] = 1; U.ghost['mg'] = z3.If(n0 != 0, z3.BitVecVal(1, 64), z3.BitVecVal(0, 64))
        def push(ex, a, ins):
            if a[0] != s.p: raise Unsupported('push argument')
            Sg = BV(U.ghost['S'], 64); v = s.word(a[1], 32)
            s.prove('push: counter = chunks covered so far', BV(a[2], 64) == Sg)
            if z3.is_app(v) and v.decl().name() == 'T':
                x, y = v.arg(0), v.arg(1); s.prove('push: subtree continues the covered range', x == Sg)
            else: y = nrm(Sg + 1); s.prove('push: chaining value of the next chunk', v == tnode(Sg, y))
            w = z3.simplify(BV(y, 64) - Sg)
            s.prove('push: power of two, aligned', z3.And(pow2(w), Sg & (w - 1) == 0))
            U.ghost['S'] = nrm(BV(y, 64)); U.ghost['mg'] = 0; U.ghost['two'] = nrm(z3.If(Sg != 0, z3.BitVecVal(1, 64), z3.BitVecVal(0, 64)))
        def mg(ex, a, ins):
            if a[0] != s.p: raise Unsupported('merge argument')
            s.prove('merge: all chunks covered so far', BV(a[1], 64) == BV(U.ghost['S'], 64)); U.ghost['mg'] = 1
        def sub(ex, a, ins):
            p, n, kp, c, fl, out = a; n64 = BV(n, 64); c = BV(c, 64)
            s.kf(kp, fl, 'subtree'); s.prove('subtree: more than one chunk, whole chunks', z3.And(z3.UGT(n64, 1024), n64 & 1023 == 0)); s.at(p, n, c, 'subtree')
            k = z3.simplify(z3.LShR(n64, 10)); s.prove('subtree: power of two', pow2(k))
            m = nrm(c + z3.LShR(k, 1)); E = nrm(c + k); s.put(out, tnode(c, m), 32); s.put(Ptr(out.o, nrm(BV(out.off, 64) + 32)), tnode(m, E), 32)
        s.ov('hasher_push_cv', 3, push); s.ov('hasher_merge_cv_stack', 2, mg); s.ov('compress_subtree_to_parent_node', 6, sub)
        e.need('blake3_hasher_update', 3)
        before = list(s.obj.cells)
        r = e.call('caml_blake3_update', Ptr(ctx, 0), p, vofs, vlen); e.unit('caml_blake3_update', r)
        cur = s.st(s.cp); rec = s.rec[(id(s.obj), s.cp.off)]
        full = all(z3.simplify(BV(rec[k], cur[k].size())).eq(cur[k]) for k in ('cv', 'buf', 'bl', 'bc'))
        if full: n2 = BV(rec['n'], 64); s.prove('chunk counter is that of the chunk', z3.Or(n2 == 0, BV(rec['c'], 64) == cur['c']))
        else: s.same('empty chunk', cur['cv'], K); s.prove('empty chunk', z3.And(cur['buf'] == 0, cur['bl'] == 0, cur['bc'] == 0)); n2 = z3.BitVecVal(0, 64)
        s.prove('chunk flags', cur['fl'] == F)
        s.prove('the stack covers the chunks before the current one', cur['c'] == BV(U.ghost['S'], 64))
        s.prove('every byte is absorbed', 1024 * cur['c'] + n2 == 1024 * c0 + n0 + ln)
        s.prove('chunk not overfull', z3.ULE(n2, 1024))
        s.prove('the stack is merged when a chunk is pending', z3.Implies(n2 != 0, BV(U.ghost['mg'], 64) == 1) if True else True)
        s.prove('two subtrees when no chunk is pending', z3.Implies(z3.And(n2 == 0, cur['c'] != c0), BV(U.ghost['two'], 64) == 1))
        for k in range(s.L['key'], s.L['key'] + 32):
            if s.obj.cells[k] is not before[k] and s.obj.cells[k] != before[k]: raise Stuck('frame: key', '', 'sat')
        for k in range(s.L['cv_stack_len'], s.size):
            if s.obj.cells[k] is not before[k]: raise Stuck('frame: stack', '', 'sat')
    zunit(rep, 'blake3_hasher_update', scen, dict(bounds=[1024], coefs={'S': [1, 1024, -1024]}, preds={'pow2': lambda v, w: pow2(v)}, scratch=True, early=True, unsigned=True,
          extra={'all absorbed: two subtrees': lambda U, a, b: z3.Implies(1024 * BV(U.gv(b, 'S'), 64) == BV(U.total, 64), BV(U.gv(b, 'two'), 64) == 1)}), timeout=500)
def subtree_pair(rep):
    """compress_subtree_to_parent_node: the two halves"""
    def scen(U):
        c = z3.BitVec('c', 64); ln = z3.BitVec('len', 64); d = U.d
        d.add(z3.And(z3.UGT(ln, 1024), z3.ULE(ln, MAXLEN), z3.ULE(c, 1 << 54)))
        s = Tree(U, nrm(1024 * c), ln); e = s.e; key = key_obj(s); out = Obj('out', 64, kind='arg')
        def wide(ex, a, ins):
            p, n, kp, cc, fl, o = a; s.kf(kp, fl, 'subtree'); s.prove('subtree: chunk', BV(cc, 64) == c); s.prove('subtree: all of the input', BV(n, 64) == ln); s.at(p, n, c, 'subtree')
            subtree_post(s, o, c, n, 2); return 2
        s.ov('blake3_compress_subtree_wide', 6, wide)
        e.call('compress_subtree_to_parent_node', Ptr(s.msg, 0), ln, key, c, F, Ptr(out, 0))
        E = nrm(c + chunks(ln)); w = d.fresh('half', 64); m = nrm(c + w); d.add(lsplit(c, m, E)); d.add(z3.ULT(w, chunks(ln)))
        s.same('left chaining value', s.word(Ptr(out, 0), 32), tnode(c, m)); s.same('right chaining value', s.word(Ptr(out, 32), 32), tnode(m, E))
    zunit(rep, 'compress_subtree_to_parent_node', scen)
# ---- finalisation -------------------------------------------------------------------------------------
def out_lay():
    l, size = build.layout(STUB, 'output_t', ['input_cv', 'counter', 'block', 'block_len', 'flags'], XF)
    if l['input_cv'][1] != 32 or l['block'][1] != 64 or l['block_len'][1] != 1 or l['flags'][1] != 1: raise Unsupported('output layout')
    return {k: v[0] for k, v in l.items()}, size
def finalize(rep):
    depth = lay()[4]; O, osize = out_lay()
    def scen(U):
        for n in range(0, depth + 1):
            for empty in ((0, 1) if n >= 2 else (0,)):
                s = Stack(U, n); s.e.need('blake3_hasher_finalize', 3); s.e.need('blake3_hasher_finalize_seek', 4); o = s.obj; C = s.C; ch = s.L['chunk']
                cvv = z3.BitVec('cv', 256); buf = z3.BitVec('buf', 512); bl = z3.BitVec('bl', 8); bc = z3.BitVec('bc', 8); c = z3.BitVec('c', 64)
                if empty: bl = 0; bc = 0
                elif n: U.d.add(bl != 0)
                s.ex.store(Ptr(o, ch + C['cv']), K if empty else cvv, 32); s.ex.store(Ptr(o, ch + C['buf']), 0 if empty else buf, 64)
                o.cells[ch + C['buf_len']] = bl; o.cells[ch + C['blocks_compressed']] = bc; s.ex.store(Ptr(o, ch + C['chunk_counter']), c, 8)
                A = [z3.BitVecVal(0, 64)] + [z3.BitVec(f'a{i}', 64) for i in range(1, n)] + [c]; E = c if empty else z3.simplify(c + 1)
                for i in range(n): s.setcv(i, A[i], A[i + 1]); s.fact(A[i], A[i + 1], E)
                fl = z3.simplify(F | z3.If(BV(bc, 8) == 0, z3.BitVecVal(START, 8), z3.BitVecVal(0, 8)) | END)
                st = dict(k=0); outp = ZObj('out', z3.BitVec('outlen', 64), lambda k: X(k), kind='arg'); U.d.add(z3.ULT(outp.size, 1 << 56))
                ip0 = s.over['blake3_compress_in_place']
                def ip(ex, a, ins):
                    if not empty and not st.get('chunk') and n:
                        blk = s.ex.load(a[1], 64); s.same('last chunk: block', blk, buf); s.same('last chunk: cv', s.cvat(a[0]), cvv)
                        s.prove('last chunk: length, counter, flags', z3.And(BV(a[2], 8) == bl, BV(a[3], 64) == c, BV(a[4], 8) == fl)); st['chunk'] = 1
                        s.ex.store(a[0], T(c, E), 32); return
                    ip0(ex, a, ins)
                s.over['blake3_compress_in_place'] = ip
                def root(ex, a, ins):
                    q, seek, op, ol = a
                    if not isinstance(q, Ptr) or type(q.off) is not int: raise Unsupported('root argument')
                    s.prove('root: output', z3.And(BV(seek, 64) == 0, BV(ol, 64) == outp.size))
                    if op != Ptr(outp, 0): raise Stuck('root: output pointer', repr(op), 'sat')
                    g = lambda f, k: s.ex.load(Ptr(q.o, q.off + O[f]), k)
                    if n == 0:
                        s.same('root: cv', g('input_cv', 32), cvv); s.same('root: block', g('block', 64), buf)
                        s.prove('root: length and flags', z3.And(BV(g('block_len', 1), 8) == bl, BV(g('flags', 1), 8) == fl))
                    else:
                        s.same('root: key', g('input_cv', 32), K); s.same('root: left child', s.cvat(Ptr(q.o, q.off + O['block'])), T(A[0], A[1])); s.same('root: right child', s.cvat(Ptr(q.o, q.off + O['block'] + 32)), T(A[1], E))
                        s.prove('root: length and flags', z3.And(BV(g('block_len', 1), 8) == 64, BV(g('flags', 1), 8) == F | PARENT))
                    st['k'] += 1
                s.ov('output_root_bytes', 4, root)
                before = list(o.cells)
                s.e.call('blake3_hasher_finalize', s.p, Ptr(outp, 0), outp.size)
                if st['k'] != 1:
                    s.prove('root node output', z3.And(outp.size == 0, st['k'] == 0))
                if any(x is not y and x != y for x, y in zip(before, o.cells)): raise Stuck('frame: the hasher is not modified', '', 'sat')
    zunit(rep, 'blake3_hasher_finalize', scen, dict(direct=True), timeout=600)
OB = UF('OB', 64, 8)
def root_bytes(rep):
    O, osize = out_lay(); L = {}
    def scen(U):
        s = S(U); e = s.e; d = U.d; e.need('output_root_bytes', 4)
        q = Obj('output', osize, sym_cells('output', osize), kind='arg')
        cvv = z3.BitVec('cv', 256); blk = z3.BitVec('blk', 512); bl = z3.BitVec('bl', 8); fl = z3.BitVec('fl', 8)
        s.put(Ptr(q, O['input_cv']), cvv, 32); s.put(Ptr(q, O['block']), blk, 64); q.cells[O['block_len']] = bl; q.cells[O['flags']] = fl; q.ro = True
        def xof(ex, a, ins):
            s.same('root compression: cv', s.word(a[0], 32), cvv); s.same('root compression: block', s.word(a[1], 64), blk)
            s.prove('root compression: length, flags', z3.And(BV(a[2], 8) == bl, BV(a[4], 8) == fl | ROOT))
            for i in range(64): s.ex.store(Ptr(a[5].o, nrm(BV(a[5].off, 64) + i) if type(a[5].off) is not int else a[5].off + i), OB(nrm(64 * BV(a[3], 64) + i)), 1)
        s.ov('blake3_compress_xof', 6, xof)
        ln, _ = zlong('len'); OLD = UF('OLD', 64, 8); out = ZObj('out', ln, lambda k: OLD(k), kind='arg'); watch(U, out, 0); L['n'] = ln
        e.call('output_root_bytes', Ptr(q, 0), 0, Ptr(out, 0), ln)
        k = d.fresh('k', 64); s.prove('every output byte', z3.Implies(z3.ULT(k, ln), out.fn(k) == OB(k)))
    zunit(rep, 'output_root_bytes', scen, dict(bounds=[64], scratch=True, coefs={'w': [1, -1]},
          extra={'w': lambda U, a, b: z3.Or(BV(U.gv(b, 'w'), 64) == 64 * BV(b['#it'], 64), BV(U.gv(b, 'w'), 64) == BV(L['n'], 64))},
          forms={'out': dict(at=lambda k, G, v: z3.Implies(z3.ULT(k, BV(G['w'], 64)), v == OB(k)))}))
# ---- stubs ------------------------------------------------------------------------------------------
def stubs(rep):
    L, size, C, csize, depth = lay()
    IVW = int.from_bytes(b''.join(x.to_bytes(4, 'little') for x in H.SHA256_IV), 'little')
    for keyed in (1, 0):
        def scen(U):
            s = S(U); e = s.e; d = U.d
            KB = sym_cells('key', 32)
            if keyed: p = e.string('key', KB)
            else:
                sz, _ = zlong('keylen'); d.add(sz != 32); p = e.zstring('key', sz, lambda k: X(k))
            p.o.ro = True
            r = e.call('caml_blake3_init', p)
            q = s.ex.load(Ptr(e.final(r), 8), 8)
            if not isinstance(r, Ptr) or r.o is not e.final(r): raise Stuck('live result', '', 'sat')
            if not isinstance(q, Ptr) or q.off != 0 or q.o.kind != 'malloc' or q.o.size < size: raise Stuck('context', repr(q), 'sat')
            w = lambda off, n: s.word(Ptr(q.o, off), n); ch = L['chunk']; key = z3.Concat(*reversed(KB)) if keyed else z3.BitVecVal(IVW, 256)
            s.same('key', w(L['key'], 32), key); s.same('first chunk: cv', w(ch + C['cv'], 32), key)
            s.prove('first chunk, empty', z3.And(w(ch + C['chunk_counter'], 8) == 0, w(ch + C['buf'], 64) == 0, w(ch + C['buf_len'], 1) == 0, w(ch + C['blocks_compressed'], 1) == 0))
            s.prove('flags', w(ch + C['flags'], 1) == (KEYED if keyed else 0)); s.prove('empty stack', w(L['cv_stack_len'], 1) == 0)
        zunit(rep, f'caml_blake3_init [{"keyed" if keyed else "plain"}]', scen)
    def ctx(s):
        o = Obj('self', size, sym_cells('self', size), kind='malloc'); c = s.e.rt.custom('ctx', 8)
        q = Ptr(o, 0)
        for i in range(8): c.cells[8 + i] = ('P', q, 8, i)
        return o, Ptr(c, 0)
    def wipe(U):
        s = S(U); o, c = ctx(s); r = s.e.call('caml_blake3_wipe', c); s.e.unit('caml_blake3_wipe', r)
        if o.valid: raise Stuck('context freed', '', 'sat')
        if any(x != 0 or type(x) is not int for x in o.cells): raise Stuck('context erased', f'byte {[i for i, x in enumerate(o.cells) if type(x) is not int or x][0]} survives', 'sat')
        s.prove('reference cleared', BV(s.ex.load(Ptr(s.e.final(c), 8), 8), 64) == 0)
        r = s.e.call('caml_blake3_wipe', Ptr(s.e.final(c), 0)); s.e.unit('second wipe', r)
    zunit(rep, 'caml_blake3_wipe', wipe)
    def extract(U):
        s = S(U); o, c = ctx(s); n, vn = zlong('n'); st = dict(k=0)
        def fin(ex, a, ins):
            if a[0] != Ptr(o, 0) or not isinstance(a[1], Ptr) or a[1].off != 0 or not a[1].o.valid: raise Stuck('finalize arguments', repr(a[:2]), 'sat')
            s.prove('length', BV(a[2], 64) == n); st['k'] += 1; st['o'] = a[1].o
            s.prove('result has the requested length', BV(a[1].o.meta['len'], 64) == n)
        s.ov('blake3_hasher_finalize', 3, fin)
        r = s.e.call('caml_blake3_extract', c, vn)
        if st['k'] != 1 or not isinstance(r, Ptr) or r.off != 0 or r.o is not st['o'] or not r.o.valid: raise Stuck('result', '', 'sat')
        s.U.proved('result')
    zunit(rep, 'caml_blake3_extract', extract)
UNITS = {'compress': compress, 'chunk-update': chunk_update, 'hash-many': hash_many, 'subtree': subtree, 'subtree-pair': subtree_pair, 'pop-lemma': pop_lemma,
         'push': push, 'update': update, 'finalize': finalize, 'root-bytes': root_bytes, 'stubs': stubs}
for _a, _b in ((0, 30), (30, 38), (38, 44), (44, 48), (48, 52), (52, 56)): UNITS[f"merge-{_a}"] = merge(_a, _b)
