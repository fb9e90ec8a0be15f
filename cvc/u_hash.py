"""Contracts of the hash primitives that range over fixed-size data (bits engine):
compression functions, initialisation, finalisation (padding + digest encoding).
The unbounded update loops are in u_stream.py."""
from cv import *
import hashes as H

class MD:
    """Merkle-Damgard hash implementation: where its contract attaches"""
    def __init__(s, name, stub, typ, comp, spec, w, nw, bs, lenbe, outs):
        s.name = name; s.stub = stub; s.typ = typ; s.comp = comp; s.spec = spec; s.w = w; s.nw = nw; s.bs = bs; s.lenbe = lenbe; s.outs = outs
        s.lb = 2 * w // 8       # size of the length field in the padding
    def lay(s):
        lay, size = build.layout(s.stub, s.typ, ['state', 'buffer', 'length', 'numbytes'])
        if lay['state'][1] != s.nw * s.w // 8 or lay['buffer'][1] != s.bs or lay['length'][1] != s.lb or lay['numbytes'][1] != 4:
            raise Unsupported(s.typ + ' layout')
        return {k: v[0] for k, v in lay.items()}, size
# outs: (init stub, final stub, iv, number of digest bytes)
MDS = {
 'sha1': MD('sha1', 'stubs-sha1', 'struct SHA1Context', 'SHA1_transform', H.sha1_compress, 32, 5, 64, True, [('caml_sha1_init', 'caml_sha1_final', H.SHA1_IV, 20)]),
 'sha256': MD('sha256', 'stubs-sha256', 'struct SHA256Context', 'SHA256_transform', H.sha256_compress, 32, 8, 64, True,
    [('caml_sha256_init', 'caml_sha256_final', H.SHA256_IV, 32), ('caml_sha224_init', 'caml_sha224_final', H.SHA224_IV, 28)]),
 'sha512': MD('sha512', 'stubs-sha512', 'struct SHA512Context', 'SHA512_transform', H.sha512_compress, 64, 8, 128, True,
    [('caml_sha512_init', 'caml_sha512_final', H.SHA512_IV, 64), ('caml_sha384_init', 'caml_sha384_final', H.SHA384_IV, 48)]),
 'ripemd160': MD('ripemd160', 'stubs-ripemd160', 'struct RIPEMD160Context', 'RIPEMD160_compress', H.rmd160_compress, 32, 5, 64, False, [('caml_ripemd160_init', 'caml_ripemd160_final', H.RMD_IV, 20)]),
}
def compress_fn(e, h):
    if h.comp not in e.m.funcs or len(e.m.funcs[h.comp].params) != 1: raise Unsupported('compression function ' + h.comp)
    return e.need(h.comp)
def words_le(bs, w): return [cat_le(bs[i:i + w // 8]) for i in range(0, len(bs), w // 8)]

def md_compress(h):
    def unit(rep):
        e = Env(h.stub, rep); lay, size = h.lay()
        f = compress_fn(e, h)
        c = e.sym('ctx', size); p = e.string('ctx', c)
        e.ex.run(f, [p])
        n = h.nw * h.w // 8; so = lay['state']
        want = h.spec(words_le(c[so:so + n], h.w), c[lay['buffer']:lay['buffer'] + h.bs])
        e.eq(f'{h.comp}: state = compress(state, buffer)', e.content(p, so, n), [b for x in want for b in x.bytes_le()])
        rest = [i for k in ('length', 'numbytes') for i in range(lay[k], lay[k] + (h.lb if k == 'length' else 4))]
        g = e.content(p); e.eq(f'{h.comp}: frame', [g[i] for i in rest], [c[i] for i in rest])
        e.done(h.comp)
    return unit
def md_override(e, h, lay):
    """the compression function by its contract: state' = F(state, buffer), buffer unspecified"""
    d = e.d; n = h.nw * h.w // 8
    compress_fn(e, h)
    def F(st, blk):
        r = d.b.uf('compress', (sum((d.tup(x.v, 8) for x in st), ()), sum((d.tup(x.v, 8) for x in blk), ())), 8 * n)
        return [Wd(d, r[8*i:8*i+8], 8) for i in range(n)]
    def ov(ex, args, ins):
        p = args[0]
        if not isinstance(p, Ptr) or type(p.off) is not int: raise Unsupported('compress argument')
        rd = lambda off, k: [Wd(d, ex.load(Ptr(p.o, p.off + off + i), 1), 8) for i in range(k)]
        new = F(rd(lay['state'], n), rd(lay['buffer'], h.bs))
        for i in range(n): ex.store(Ptr(p.o, p.off + lay['state'] + i), new[i].v, 1)
        for i in range(h.bs): ex.store(Ptr(p.o, p.off + lay['buffer'] + i), UNDEF, 1)
    e.ex.over[h.comp] = ov
    return F
def md_init(h):
    def unit(rep):
        lay, size = h.lay()
        for ini, fin, iv, dl in h.outs:
            e = Env(h.stub, rep)
            p = e.call(ini, 1)
            n = h.nw * h.w // 8
            e.eq(f'{ini}: initial state', e.content(p, lay['state'], n), [b for x in iv for b in Wd(e.d, x, h.w).bytes_le()])
            z = lambda k: [Wd(e.d, 0, 8)] * k
            e.eq(f'{ini}: length = 0', e.content(p, lay['length'], h.lb), z(h.lb))
            e.eq(f'{ini}: numbytes = 0', e.content(p, lay['numbytes'], 4), z(4))
            o = e.final(p)
            rep.ob(f'{ini}: context size', 'proved' if o.meta['len'] >= size else 'refuted', 'interp')
            e.done(ini)
    return unit
def md_final(h, us):
    def unit(rep):
        lay, size = h.lay()
        for ini, fin, iv, dl in h.outs:
            for u in us:
                e = Env(h.stub, rep)
                d = e.d
                c = e.sym('ctx', size)
                c[lay['numbytes']:lay['numbytes'] + 4] = Wd(d, u, 32).bytes_le()
                e.inputs['ctx'] = c
                F = md_override(e, h, lay)
                p = e.string('ctx', c)
                r = e.call(fin, p)
                n = h.nw * h.w // 8
                st = c[lay['state']:lay['state'] + n]; buf = c[lay['buffer']:lay['buffer'] + u]
                ln = c[lay['length']:lay['length'] + h.lb]
                w = h.w // 8
                # the stored length is two words, most significant first for SHA, least significant first for RIPEMD
                L = [ln[:w], ln[w:]]
                lenb = [b for x in L for b in x[::-1]] if h.lenbe else [b for x in L for b in x]
                msg = buf + [Wd(d, 0x80, 8)]
                while (len(msg) + h.lb) % h.bs: msg.append(Wd(d, 0, 8))
                msg += lenb
                for i in range(0, len(msg), h.bs): st = F(st, msg[i:i + h.bs])
                if h.lenbe: out = [b for i in range(0, n, w) for b in st[i:i + w][::-1]]
                else: out = st
                got = e.content(r)
                e.eq(f'{fin}[numbytes={u}]: digest = encode(compress(state, padding))', got, out[:dl])
                e.done(f'{fin}[{u}]')
    return unit

# ---- Keccak ------------------------------------------------------------------------------
def sha3_lay():
    lay, size = build.layout('stubs-sha3', 'struct SHA3Context', ['state', 'buffer', 'numbytes', 'rsiz', 'hsiz'])
    if lay['state'][1] != 200 or lay['buffer'][1] < 144 or lay['numbytes'][1] != 4: raise Unsupported('SHA3Context layout')
    return {k: v[0] for k, v in lay.items()}, size
def sha3_perm(rep):
    e = Env('stubs-sha3', rep)
    if 'KeccakPermutation' not in e.m.funcs or len(e.m.funcs['KeccakPermutation'].params) != 1: raise Unsupported('KeccakPermutation')
    f = e.need('KeccakPermutation')
    s = e.sym('state', 200); p = Ptr(Obj('state', 200, [b.v for b in s]), 0)
    e.ex.run(f, [p])
    want = H.keccak_f(words_le(s, 64))
    e.eq('KeccakPermutation: state = Keccak-f[1600](state)', [e.ex.getbyte(p.o, i) for i in range(200)], [b for x in want for b in x.bytes_le()])
    e.done('KeccakPermutation')
def perm_override(e):
    d = e.d
    if 'KeccakPermutation' not in e.m.funcs or len(e.m.funcs['KeccakPermutation'].params) != 1: raise Unsupported('KeccakPermutation')
    def F(st):
        r = d.b.uf('keccakf', (sum((d.tup(x.v, 8) for x in st), ()),), 1600)
        return [Wd(d, r[8*i:8*i+8], 8) for i in range(200)]
    def ov(ex, args, ins):
        p = args[0]
        new = F([Wd(d, ex.load(Ptr(p.o, p.off + i), 1), 8) for i in range(200)])
        for i in range(200): ex.store(Ptr(p.o, p.off + i), new[i].v, 1)
    e.ex.over['KeccakPermutation'] = ov
    return F
def sha3_obj(e, size):
    r = e.call('caml_sha3_init', val_long(size))
    c = e.final(r)
    q = e.ex.load(Ptr(c, 8), 8)
    if not isinstance(q, Ptr): raise Violation('sha3-init', 'no context allocated')
    return r, q
def sha3_init(rep):
    lay, size = sha3_lay()
    for sz in (224, 256, 384, 512):
        e = Env('stubs-sha3', rep)
        r, q = sha3_obj(e, sz); nm = f'caml_sha3_init {sz}'
        rd = lambda off, k: [e.ex.getbyte(q.o, q.off + off + i) for i in range(k)]
        e.eq(nm + ': state = 0', rd(lay['state'], 200), [Wd(e.d, 0, 8)] * 200)
        e.eq(nm + ': numbytes = 0', rd(lay['numbytes'], 4), [Wd(e.d, 0, 8)] * 4)
        e.eq(nm + ': digest size', rd(lay['hsiz'], 4), Wd(e.d, sz // 8, 32).bytes_le())
        e.eq(nm + ': rate', rd(lay['rsiz'], 4), Wd(e.d, 200 - sz // 4, 32).bytes_le())
        e.done(nm)
def sha3_final(sz, official):
    def unit(rep):
        lay, size = sha3_lay(); rate = 200 - sz // 4
        for u in range(rate):
            e = Env('stubs-sha3', rep); d = e.d
            F = perm_override(e)
            r, q = sha3_obj(e, sz)
            st = e.sym('state', 200); buf = e.sym('buffer', 144)
            for i in range(200): q.o.cells[q.off + lay['state'] + i] = st[i].v
            for i in range(144): q.o.cells[q.off + lay['buffer'] + i] = buf[i].v
            for i in range(4): q.o.cells[q.off + lay['numbytes'] + i] = (u >> (8 * i)) & 255
            out = e.call('caml_sha3_extract', val_long(official), Ptr(e.final(r), 0))
            msg = buf[:u] + [Wd(d, 6 if official else 1, 8)] + [Wd(d, 0, 8)] * (rate - u - 1)
            msg[-1] = Wd(d, msg[-1].v | 0x80, 8)
            s2 = F([a ^ b for a, b in zip(st, msg)] + st[rate:])
            e.eq(f'caml_sha3_extract[{sz},{"sha3" if official else "keccak"},numbytes={u}]: digest', e.content(out), s2[:sz // 8])
            e.done(f'caml_sha3_extract[{u}]')
    return unit
def sha3_wipe(rep):
    lay, size = sha3_lay()
    e = Env('stubs-sha3', rep)
    r, q = sha3_obj(e, 256)
    q.o.cells[:] = [e.d.b.word(('old', i), 8) for i in range(q.o.size)]
    e.ok_unit('caml_sha3_wipe', e.call('caml_sha3_wipe', r))
    e.eq('caml_sha3_wipe: context erased', [e.ex.getbyte(q.o, i) for i in range(q.o.size)], [Wd(e.d, 0, 8)] * q.o.size)
    rep.ob('caml_sha3_wipe: context freed', 'proved' if not q.o.valid else 'refuted', 'interp')
    rep.ob('caml_sha3_wipe: reference cleared', 'proved' if e.ex.load(Ptr(e.final(r), 8), 8) == 0 else 'refuted', 'interp')
    e.call('caml_sha3_wipe', r)     # a second wipe is harmless
    e.done('caml_sha3_wipe')

# ---- BLAKE2 -------------------------------------------------------------------------------
class B2:
    def __init__(s, k):
        s.k = k; s.w = 64 if k == 'b' else 32; s.bs = 128 if k == 'b' else 64; s.max = 64 if k == 'b' else 32
        s.comp = f'blake2{k}_compress'; s.n = s.w; s.iv = H.SHA512_IV if k == 'b' else H.SHA256_IV
    def lay(s):
        lay, size = build.layout('stubs-blake2', f'struct blake2{s.k}', ['h', 'len', 'numbytes', 'buffer'])
        if lay['h'][1] != s.n or lay['len'][1] != s.w // 4 or lay['buffer'][1] != s.bs or lay['numbytes'][1] != 4: raise Unsupported('blake2 layout')
        return {k: v[0] for k, v in lay.items()}, size
    def fn(s, e):
        f = e.m.funcs.get(s.comp)
        if f is None or len(f.params) != 4: raise Unsupported(s.comp)
        return e.need(s.comp)
B2S = {'b': B2('b'), 's': B2('s')}
def b2_compress(b, last):
    def unit(rep):
        e = Env('stubs-blake2', rep); lay, size = b.lay(); f = b.fn(e); d = e.d; W = b.w // 8
        c = e.sym('ctx', size); p = e.string('ctx', c)
        blk = e.sym('block', b.bs); bp = Ptr(Obj('block', b.bs, [x.v for x in blk], ro=True), 0)
        nb = e.sym('numbytes', 1) + [Wd(d, 0, 8)] * 3
        nw = cat_le(nb)
        e.ex.run(f, [p, bp, nw.v, last])
        h = words_le(c[lay['h']:lay['h'] + b.n], b.w); t = words_le(c[lay['len']:lay['len'] + 2 * W], b.w)
        nz = cat_le(nb + [Wd(d, 0, 8)] * (W - 4))
        t0 = t[0] + nz
        carry = Wd(d, d.icmp('ult', t0.v, nz.v, b.w), 1)
        t1 = t[1] + Wd(d, d.zext(carry.v, 1, b.w), b.w)
        want = H.blake2_compress(h, blk, t0, t1, last, b.w)
        nm = f'{b.comp}[last={last}]'
        e.eq(nm + ': h = F(h, block, counter + numbytes, last)', e.content(p, lay['h'], b.n), [x for w in want for x in w.bytes_le()])
        e.eq(nm + ': counter += numbytes', e.content(p, lay['len'], 2 * W), t0.bytes_le() + t1.bytes_le())
        e.eq(nm + ': frame', e.content(p, lay['numbytes'], 4) + e.content(p, lay['buffer'], b.bs), c[lay['numbytes']:lay['numbytes'] + 4] + c[lay['buffer']:lay['buffer'] + b.bs])
        e.done(nm)
    return unit
def b2_init(b, kls):
    def unit(rep):
        lay, size = b.lay(); W = b.w // 8
        for kl in kls:
            for hl in range(1, b.max + 1):
                e = Env('stubs-blake2', rep); d = e.d
                key = e.sym('key', kl); kp = e.string('key', key)
                r = e.call(f'caml_blake2{b.k}_init', val_long(hl), kp)
                nm = f'caml_blake2{b.k}_init[{hl},{kl}]'
                want = [Wd(d, x, b.w) for x in b.iv]; want[0] = want[0] ^ (0x01010000 ^ (kl << 8) ^ hl)
                e.eq(nm + ': h = IV xor parameters', e.content(r, lay['h'], b.n), [x for w in want for x in w.bytes_le()])
                z = lambda k: [Wd(d, 0, 8)] * k
                e.eq(nm + ': counter = 0', e.content(r, lay['len'], 2 * W), z(2 * W))
                e.eq(nm + ': numbytes', e.content(r, lay['numbytes'], 4), Wd(d, b.bs if kl else 0, 32).bytes_le())
                if kl: e.eq(nm + ': key block', e.content(r, lay['buffer'], b.bs), key + z(b.bs - kl))
                o = e.final(r)
                rep.ob(nm + ': context size', 'proved' if o.meta['len'] >= size else 'refuted', 'interp')
                e.done(nm)
    return unit
def b2_override(e, b, lay):
    d = e.d; b.fn(e); W = b.w // 8
    def F(h, t, blk, nb, last):
        a = lambda bs: sum((d.tup(x.v, 8) for x in bs), ())
        r = d.b.uf('F', (a(h), a(t), a(blk), nb, last), 8 * (b.n + 2 * W))
        r = [Wd(d, r[8*i:8*i+8], 8) for i in range(b.n + 2 * W)]
        return r[:b.n], r[b.n:]
    def ov(ex, args, ins):
        p, q, nb, last = args
        if type(nb) is not int or type(last) is not int: raise Unsupported('blake2 compress arguments')
        rd = lambda p, off, k: [Wd(d, ex.load(Ptr(p.o, p.off + off + i), 1), 8) for i in range(k)]
        h, t = F(rd(p, lay['h'], b.n), rd(p, lay['len'], 2 * W), rd(q, 0, b.bs), nb, int(last != 0))
        for i in range(b.n): ex.store(Ptr(p.o, p.off + lay['h'] + i), h[i].v, 1)
        for i in range(2 * W): ex.store(Ptr(p.o, p.off + lay['len'] + i), t[i].v, 1)
    e.ex.over[b.comp] = ov
    return F
def b2_final(b, us):
    def unit(rep):
        lay, size = b.lay(); W = b.w // 8
        for u in us:
            e = Env('stubs-blake2', rep); d = e.d
            c = e.sym('ctx', size)
            c[lay['numbytes']:lay['numbytes'] + 4] = Wd(d, u, 32).bytes_le()
            e.inputs['ctx'] = c
            F = b2_override(e, b, lay)
            for hl in range(1, b.max + 1):
                e.rt.heap = []
                p = e.string('ctx', c)
                r = e.call(f'caml_blake2{b.k}_final', p, val_long(hl))
                blk = c[lay['buffer']:lay['buffer'] + u] + [Wd(d, 0, 8)] * (b.bs - u)
                h, t = F(c[lay['h']:lay['h'] + b.n], c[lay['len']:lay['len'] + 2 * W], blk, u, 1)
                e.eq(f'caml_blake2{b.k}_final[{hl},numbytes={u}]: digest', e.content(r), h[:hl])
            e.done(f'blake2 final [{u}]')
    return unit

# ---- SipHash -----------------------------------------------------------------------------
def sip_lay():
    lay, size = build.layout('stubs-siphash', 'struct siphash', ['v0', 'v1', 'v2', 'v3', 'buffer', 'used', 'len8'])
    if lay['v0'][1] != 8 or lay['buffer'][1] != 8 or lay['used'][1] != 4 or lay['len8'][1] != 1: raise Unsupported('siphash layout')
    return {k: v[0] for k, v in lay.items()}, size
def sip_init(rep):
    lay, size = sip_lay()
    for ol in (8, 16):
        e = Env('stubs-siphash', rep); d = e.d
        key = e.sym('key', 16); kp = e.string('key', key)
        r = e.call('caml_siphash_init', kp, val_long(ol)); nm = f'caml_siphash_init[{ol}]'
        want = H.sip_init(key, ol)
        for i in range(4): e.eq(nm + f': v{i}', e.content(r, lay[f'v{i}'], 8), want[i].bytes_le())
        e.eq(nm + ': empty', e.content(r, lay['used'], 4) + e.content(r, lay['len8'], 1), [Wd(d, 0, 8)] * 5)
        rep.ob(nm + ': context size', 'proved' if e.final(r).meta['len'] >= size else 'refuted', 'interp')
        e.done(nm)
def sip_mix(rep):
    lay, size = sip_lay(); e = Env('stubs-siphash', rep)
    f = e.m.funcs.get('siphash_mix')
    if f is None or len(f.params) != 2: raise Unsupported('siphash_mix')
    c = e.sym('ctx', size); p = e.string('ctx', c); m = e.sym('m', 8)
    e.need('siphash_mix'); e.ex.run(f, [p, cat_le(m).v])
    want = H.sip_mix([cat_le(c[lay[f'v{i}']:lay[f'v{i}'] + 8]) for i in range(4)], cat_le(m))
    for i in range(4): e.eq(f'siphash_mix: v{i}', e.content(p, lay[f'v{i}'], 8), want[i].bytes_le())
    rest = list(range(lay['buffer'], lay['buffer'] + 8)) + list(range(lay['used'], lay['used'] + 4)) + [lay['len8']]
    g = e.content(p); e.eq('siphash_mix: frame', [g[i] for i in rest], [c[i] for i in rest])
    e.done('siphash_mix')
def sip_final(rep):
    lay, size = sip_lay()
    for ol in (8, 16):
        for u in range(8):
            e = Env('stubs-siphash', rep); d = e.d
            c = e.sym('ctx', size)
            l8 = c[lay['len8']]
            c[lay['len8']] = Wd(d, (u & 1, u >> 1 & 1, u >> 2) + d.tup(l8.v, 8)[3:], 8)
            c[lay['used']:lay['used'] + 4] = Wd(d, u, 32).bytes_le()
            e.inputs['ctx'] = c
            p = e.string('ctx', c)
            r = e.call('caml_siphash_final', p, val_long(ol))
            v = [cat_le(c[lay[f'v{i}']:lay[f'v{i}'] + 8]) for i in range(4)]
            lw = cat_le(c[lay['buffer']:lay['buffer'] + u] + [Wd(d, 0, 8)] * (7 - u) + [c[lay['len8']]])
            e.eq(f'caml_siphash_final[{ol},used={u}]: tag', e.content(r), H.sip_final(v, lw, ol))
            e.done(f'siphash_final {ol} {u}')

# ---- ChaCha20 ------------------------------------------------------------------------------
def cc_lay():
    lay, size = build.layout('stubs-chacha20', 'chacha20_ctx', ['input', 'output', 'next', 'iv_length'])
    if lay['input'][1] != 64 or lay['output'][1] != 64 or lay['next'][1] != 4 or lay['iv_length'][1] != 4: raise Unsupported('chacha20 layout')
    return {k: v[0] for k, v in lay.items()}, size
def int64val(e, bs):
    """boxed Int64: custom block, data at offset 8"""
    o = e.rt.custom('int64', 8); o.cells[8:16] = [b.v for b in bs]; o.ro = True
    return Ptr(o, 0)
def cc_init(rep):
    lay, size = cc_lay()
    for kl in (16, 32):
        for il in (8, 12):
            e = Env('stubs-chacha20', rep); d = e.d
            key = e.sym('key', kl); iv = e.sym('iv', il); ctr = e.sym('counter', 8)
            r = e.call('caml_chacha20_cook_key', e.string('key', key), e.string('iv', iv), int64val(e, ctr))
            nm = f'caml_chacha20_cook_key[{kl},{il}]'
            e.eq(nm + ': input block', e.content(r, lay['input'], 64), [b for w in H.chacha20_setup(key, iv, cat_le(ctr)) for b in w.bytes_le()])
            e.eq(nm + ': no output buffered', e.content(r, lay['next'], 4), Wd(d, 64, 32).bytes_le())
            e.eq(nm + ': iv_length', e.content(r, lay['iv_length'], 4), Wd(d, il, 32).bytes_le())
            rep.ob(nm + ': context size', 'proved' if e.final(r).meta['len'] >= size else 'refuted', 'interp')
            e.done(nm)
def cc_block(rep):
    lay, size = cc_lay()
    for il in (8, 12):
        e = Env('stubs-chacha20', rep); d = e.d
        f = e.m.funcs.get('chacha20_block')
        if f is None or len(f.params) != 1: raise Unsupported('chacha20_block')
        e.need('chacha20_block')
        c = e.sym('ctx', size); c[lay['iv_length']:lay['iv_length'] + 4] = Wd(d, il, 32).bytes_le()
        p = e.string('ctx', c)
        e.ex.run(f, [p])
        inp = words_le(c[lay['input']:lay['input'] + 64], 32)
        e.eq(f'chacha20_block[{il}]: output', e.content(p, lay['output'], 64), H.chacha20_core(inp))
        c12 = inp[12] + 1
        nxt = list(inp); nxt[12] = c12
        if il == 8:
            z = Wd(d, d.icmp('eq', c12.v, 0, 32), 1)
            nxt[13] = Wd(d, d.ite(d.tup(z.v, 1), (inp[13] + 1).v, inp[13].v, 32), 32)
        e.eq(f'chacha20_block[{il}]: counter + 1', e.content(p, lay['input'], 64), [b for w in nxt for b in w.bytes_le()])
        e.eq(f'chacha20_block[{il}]: frame', e.content(p, lay['iv_length'], 4), c[lay['iv_length']:lay['iv_length'] + 4])
        e.done(f'chacha20_block {il}')

UNITS = {}
for n, h in MDS.items():
    UNITS[f'{n}-compress'] = md_compress(h)
    UNITS[f'{n}-init'] = md_init(h)
    for k in range(0, h.bs, 32): UNITS[f'{n}-final-{k}'] = md_final(h, range(k, k + 32))
UNITS['sha3-permutation'] = sha3_perm; UNITS['sha3-init'] = sha3_init; UNITS['sha3-wipe'] = sha3_wipe
for sz in (224, 256, 384, 512):
    for of in (0, 1): UNITS[f'sha3-final-{sz}-{of}'] = sha3_final(sz, of)
for k, b in B2S.items():
    for l in (0, 1): UNITS[f'blake2{k}-compress-{l}'] = b2_compress(b, l)
    for q in range(0, b.max + 1, 8): UNITS[f'blake2{k}-init-{q}'] = b2_init(b, range(q, min(q + 8, b.max + 1)))
    for q in range(0, b.bs + 1, 16): UNITS[f'blake2{k}-final-{q}'] = b2_final(b, range(q, min(q + 16, b.bs + 1)))
UNITS['siphash-init'] = sip_init; UNITS['siphash-mix'] = sip_mix; UNITS['siphash-final'] = sip_final
UNITS['chacha20-init'] = cc_init; UNITS['chacha20-block'] = cc_block

if __name__ == '__main__':
    for k, f in UNITS.items():
        if len(sys.argv) > 1 and sys.argv[1] not in k: continue
        r = run_unit(k, f)
        print(k, round(r.time, 2), [(o['name'], o['status'], o['detail'][:300]) for o in r.obs if o['status'] != 'proved'][:4], sum(o['n'] for o in r.obs if o['status'] == 'proved'), flush=True)
