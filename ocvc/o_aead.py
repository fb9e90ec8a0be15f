"""C11, C12, C16, C17, C18, C27: AES-GCM and ChaCha20-Poly1305 over their primitives.
The classes inherit every put/get method from Block.cipher / Stream.cipher (checked: same method bodies), which
o_cipher proves for any cipher object; here the wrapped cipher object, the tag computation and construction are
verified in an arbitrary reached state."""
from oc import *
from oc import _z, _zb
import o_block, o_cipher
MULT = z3.Function('MULT_H', *([BV8] * 16), z3.BitVecSort(128))   # multiplication by H in GF(2^128), uninterpreted
LIM_GCM = 0xfffffffe0
def be(v): return [z3.Extract(127 - 8 * i, 120 - 8 * i, v) for i in range(16)]
def prims(W):
    o_block.prims(W)
    def aes(W, st, a):
        ck, s, so, d, do = a; so, do = bm.toint(so), bm.toint(do); k = st.ghost.get(('key', ck.id))
        if k is None or k.kind != 'aes-enc': W.fail(st, 'caml_aes_encrypt gets an encryption key', k.kind if k else '?'); raise Unsupported('foreign key')
        rng(W, st, 'source', s, so, 16, 'caml_aes_encrypt'); rng(W, st, 'destination', d, do, 16, 'caml_aes_encrypt')
        f = W.ffun('aes', Int, BV8); inp = [W.rd(st, st.get(s), simp(_z(so) + i)) for i in range(16)]
        st = st.gset('aes', st.ghost.get('aes', ()) + ((k, inp, f, d),))
        return [(W.wr_range(st, d, do, 16, lambda s_, i: f(simp_z(_z(i) - _z(do)))), 'val', UNIT)]
    W.ext['caml_aes_encrypt'] = Bi('caml_aes_encrypt', 5, aes)
    def ginit(W, st, a):
        W.prove(st, _z(st.get(a[0]).len) == 16, 'caml_ghash_init: 16 bytes'); cont = [W.rd(st, st.get(a[0]), i) for i in range(16)]
        st, r = W.alloc(st, Rec({})); return [(st.gset('ghash', st.ghost.get('ghash', ()) + ((r.id, cont),)), 'val', r)]
    W.ext['caml_ghash_init'] = Bi('caml_ghash_init', 1, ginit)
    def gmult(W, st, a):
        h, m = a; ids = [x[0] for x in st.ghost.get('ghash', ())]
        if h.id not in ids or st.ghost.get('ghash.wiped'): W.fail(st, 'caml_ghash_mult: multiplier in use', ''); raise Unsupported('multiplier')
        W.prove(st, _z(st.get(m).len) == 16, 'caml_ghash_mult: 16 bytes')
        hook = getattr(W, 'gmult_hook', None)
        if hook is not None: return hook(W, st, m)
        cont = [W.rd(st, st.get(m), i) for i in range(16)]; out = be(MULT(*cont))
        return [(W.wr_range(st.gset('mults', st.ghost.get('mults', ()) + ((cont, m),)), m, 0, 16, lambda s_, i: out[i] if isinstance(i, int) else o_block.cells_at(out, i)), 'val', UNIT)]
    W.ext['caml_ghash_mult'] = Bi('caml_ghash_mult', 2, gmult)
    W.ext['caml_ghash_wipe'] = Bi('caml_ghash_wipe', 1, lambda W, st, a: [(st.gset('ghash.wiped', a[0].id), 'val', UNIT)])
# ---- ghash_string: chain over the zero-padded blocks of a message of any length
Y = z3.Function('GH', Int, Int, BV8)        # Y(n, j): byte j of GHASH after n blocks; Y(n+1) = (Y(n) xor block n) * H by definition
class GInv:
    mac = None
    def __init__(s, msg, L): s.msg = msg; s.L = L
    def covers(s, st, hid, f): return hid == s.mac
    def covers_ghost(s, gk): return gk == 'n'
    def havoc(s, W, st, loop=True):
        st, n = W.sint(st, 'n', 0, BIG); st = st.gset('n', n); return st.put(Ref(s.mac), Buf(16, cells=tuple(Y(n, z3.IntVal(j)) for j in range(16))))
    def terms(s, W, st): return [('16n', simp_z(16 * _z(st.ghost['n'])))]
    def check(s, W, st, name):
        if s.mac is None: return
        W.prove(st, z3.And(*[W.rd(st, st.heap[s.mac], j) == Y(_z(st.ghost['n']), z3.IntVal(j)) for j in range(16)]), f'{name}: chain over the blocks so far')
BIG = 2**70
def ghash_string(W):
    prims(W); nm = 'ghash_string'; st, f = W.val(W.init().g(n=0), 'AEAD.ghash_string'); st, h = W.alloc(st, Rec({})); st = st.gset('ghash', ((h.id, []),))
    st, msg = W.symbuf(st, 'msg'); m0 = st.get(msg); L = _z(m0.len); inv = GInv(m0, L); W.bound_terms = [L]
    st = st.assume(z3.And(*[Y(0, j) == 0 for j in range(16)])); live(W, [st.assume(L > 40)], nm)
    def hook(W, st, m):
        n = _z(st.ghost['n']); inv.mac = m.id if inv.mac is None else inv.mac
        if m.id != inv.mac: raise Unsupported('two accumulators')
        W.prove(st, 16 * n < L, f'{nm}: no block beyond the message')
        for j in range(16): W.prove(st, W.rd(st, st.get(m), j) == z3.If(16 * n + j < L, W.rd(st, m0, simp(16 * n + j)), chr_(0)) ^ Y(n, z3.IntVal(j)), f'{nm}: multiplies the accumulator xor the next zero-padded block')
        return [(st.gset('n', simp_z(n + 1)).put(m, Buf(16, cells=tuple(Y(simp_z(n + 1), z3.IntVal(j)) for j in range(16)))), 'val', UNIT)]
    W.gmult_hook = hook; W.inv = inv
    for t, v in expect_vals(W, W.call(st, f, h, msg), nm):
        n = _z(t.ghost['n']); W.prove(t, z3.And(16 * n >= L, 16 * n < L + 16), f'{nm}: every block of the message, zero padded'); W.prove(t, z3.And(_z(t.get(v).len) == 16, *[byte(W, t, v, j) == Y(n, z3.IntVal(j)) for j in range(16)]), f'{nm}: returns the accumulator')
        W.prove(t, z3.BoolVal(t.get(msg) is m0), f'{nm}: message unchanged')
    W.inv = None; W.gmult_hook = None
def gs_contract(W):
    def fn(W, st, a):
        h, msg = a; cells = tuple(W.fbv('gs') for _ in range(16)); st, r = W.alloc(st, Buf(16, cells=cells))
        return [(st.gset('gs', st.ghost.get('gs', ()) + ((h.id, st.get(msg), cells, r),)), 'val', r)]
    W.over['ghash_string'] = Bi('ghash_string', 2, fn)
def i64cells(v, big): return [bm.i64byte(v, 7 - k if big else k) for k in range(8)]
def counter0(W):
    prims(W); gs_contract(W); nm = 'counter0'; st, f = W.val(W.init(), 'AEAD.counter0'); st, h = W.alloc(st, Rec({})); st = st.gset('ghash', ((h.id, []),))
    st, iv = W.symbuf(st, 'iv'); iv0 = st.get(iv); L = _z(iv0.len); live(W, [st.assume(L == 12), st.assume(L == 16)], nm)
    for t, v in expect_vals(W, W.call(st, f, h, iv), nm):
        got = [byte(W, t, v, j) for j in range(16)]; W.prove(t, _z(t.get(v).len) == 16, f'{nm}: 16 bytes'); W.prove(t, z3.BoolVal(t.get(iv) is iv0), f'{nm}: iv unchanged')
        a = t.assume(L == 12); W.prove(a, z3.And(*[got[j] == W.rd(a, iv0, j) for j in range(12)], got[12] == 0, got[13] == 0, got[14] == 0, got[15] == 1), f'{nm}: 12-byte iv gives iv || 00000001')
        b = t.assume(L != 12)
        if W.feasible(b):
            gs, mu = t.ghost.get('gs', ()), t.ghost.get('mults', ())
            if len(gs) != 1 or len(mu) != 1 or gs[0][0] != h.id: W.fail(b, f'{nm}: GHASH of the iv and its length', ''); continue
            b2, j = W.sint(b, 'j', 0, MAXSTR); W.prove(b2.assume(j < L), z3.And(_z(gs[0][1].len) == L, W.rd(b2, gs[0][1], j) == W.rd(b2, iv0, j)), f'{nm}: GHASH of the iv')
            blk = [chr_(0)] * 8 + i64cells(simp(8 * L), True); W.prove(b, z3.And(*[mu[0][0][j] == gs[0][2][j] ^ blk[j] for j in range(16)]), f'{nm}: then of its bit length'); W.prove(b, z3.And(*[x == y for x, y in zip(got, be(MULT(*mu[0][0])))]), f'{nm}: GHASH of the iv and its length')
def c0_contract(W):
    def fn(W, st, a):
        h, iv = a; cells = tuple(W.fbv('j0') for _ in range(16)); st, r = W.alloc(st, Buf(16, cells=cells))
        return [(st.gset('c0', st.ghost.get('c0', ()) + ((h.id, st.get(iv), cells, r),)), 'val', r)]
    W.over['counter0'] = Bi('counter0', 2, fn)
def inherited(W, t, o, base, nm, over):
    """every method but those listed has the body of the base class -> the wrapped cipher object"""
    ms = t.get(o).methods; wrapped = None
    for m in ('put_substring', 'put_string', 'put_char', 'put_byte', 'flush', 'finish', 'available_output', 'get_string', 'get_substring', 'get_char', 'get_byte', 'wipe'):
        if m not in ms: W.fail(t, f'{nm}: method {m}', 'missing'); continue
        W.prove(t, z3.BoolVal(ms[m][2] in base), f'{nm}: {m} inherited unchanged from {base[0]}', ms[m][2])
        w = ms[m][1].find('cipher') if ms[m][2] == base[0] else None
        if isinstance(w, Ref): wrapped = w if wrapped is None or wrapped == w else raise_()
    if wrapped is None: raise Unsupported('wrapped cipher object not found')
    return wrapped
def raise_(): raise Unsupported('several wrapped cipher objects')
def i64cell(t):
    c = [i for i, r in t.heap.items() if isinstance(r, Cell) and isinstance(r.v, I64)]
    if len(c) != 1: raise Unsupported('length counter not found')
    return Ref(c[0])
def inc32(cells): n = z3.Concat(*cells[12:]) + 1; return list(cells[:12]) + [z3.Extract(31 - 8 * i, 24 - 8 * i, n) for i in range(4)]
def gcm(W, dir, hdr):
    enc = dir == 'Encrypt'; nm = f'aes_gcm {dir}'; prims(W); gs_contract(W); c0_contract(W); o_cipher.cap_contract(W)
    st, f = W.val(W.init(), 'AEAD.aes_gcm'); st, key = W.symbuf(st, 'key'); st, iv = W.symbuf(st, 'iv'); key0, iv0 = st.get(key), st.get(iv); n = _z(key0.len); labels = [('~iv', iv)]; h0 = None
    if hdr: st, hd = W.symbuf(st, 'header'); h0 = st.get(hd); labels.append(('?header', Some(hd)))
    HL = _z(h0.len) if hdr else z3.IntVal(0); valid = z3.Or(n == 16, n == 24, n == 32); live(W, [st.assume(valid)], nm)
    for t, k, o in W.apply(st, f, labels + [('', key), ('', Con(dir))]):
        if k == 'exc':
            if is_err(o, 'Wrong_key_size'): W.prove(t, z3.Not(valid), f'{nm}: Wrong_key_size only for other key sizes')
            else: W.fail(t, nm, repr(o))
            continue
        W.prove(t, valid, f'{nm}: accepts only valid keys'); a, gh, gs, c0 = t.ghost.get('aes', ()), t.ghost.get('ghash', ()), t.ghost.get('gs', ()), t.ghost.get('c0', ())
        if len(a) != 2 or len(gh) != 1 or len(gs) != 1 or len(c0) != 1 or t.ghost.get('mults'): W.fail(t, f'{nm}: initial computations', f'{len(a)} {len(gh)} {len(gs)} {len(c0)}'); continue
        t1, j = W.sint(t, 'j', 0, MAXSTR)
        for x in a: W.prove(t1.assume(j < n), z3.And(_z(x[0].key.len) == n, W.rd(t1, x[0].key, j) == W.rd(t1, key0, j)), f'{nm}: uses the given key')
        W.prove(t, z3.And(*[b == 0 for b in a[0][1]]), f'{nm}: hash key from the zero block'); W.prove(t, z3.And(*[gh[0][1][i] == a[0][2](z3.IntVal(i)) for i in range(16)]), f'{nm}: hash key from the zero block')
        W.prove(t1.assume(j < _z(iv0.len)), z3.And(_z(c0[0][1].len) == _z(iv0.len), W.rd(t1, c0[0][1], j) == W.rd(t1, iv0, j)), f'{nm}: counter from the iv'); W.prove(t, z3.And(*[x == y for x, y in zip(a[1][1], c0[0][2])]), f'{nm}: tag mask is the encrypted initial counter')
        W.prove(t, _z(gs[0][1].len) == HL, f'{nm}: GHASH of the header')
        if hdr: W.prove(t1.assume(j < HL), W.rd(t1, gs[0][1], j) == W.rd(t1, h0, j), f'{nm}: GHASH of the header')
        W.prove(t, z3.BoolVal(gs[0][0] == gh[0][0] == c0[0][0]), f'{nm}: one hash key')
        ctr, mac, e0 = c0[0][3], gs[0][3], a[1][3]; cl = i64cell(t); W.prove(t, _z(t.get(cl).v.v) == 0, f'{nm}: length starts at 0'); W.prove(t, z3.And(*[W.rd(t, t.get(e0), i) == a[1][2](z3.IntVal(i)) for i in range(16)], *[W.rd(t, t.get(ctr), i) == c0[0][2][i] for i in range(16)], *[W.rd(t, t.get(mac), i) == gs[0][2][i] for i in range(16)]), f'{nm}: initial state')
        if len({ctr.id, mac.id, e0.id}) != 3: W.fail(t, f'{nm}: separate state buffers', ''); continue
        wrapped = inherited(W, t, o, ['cipher', 'buffered_output'], nm, ())
        for m, w in (('input_block_size', 1), ('output_block_size', 1), ('tag_size', 16)):
            for u, v in expect_vals(W, W.send(t, o, m), m): W.prove(u, _z(v) == w, f'{nm}#{m}')
        for u, v in expect_vals(W, W.send(t, wrapped, 'blocksize'), 'blocksize'): W.prove(u, _z(v) == 16, f'{nm}: block size 16')
        # arbitrary reached state
        C, M, E0 = ([W.fbv(x) for _ in range(16)] for x in ('ctr', 'mac', 'e0')); t, CL = W.sint(t, 'cipherlen', 0, LIM_GCM if enc else 2**59)
        for r, x in ((ctr, C), (mac, M), (e0, E0)): t = t.put(r, Buf(16, cells=tuple(x)))
        t = t.put(cl, Cell(I64(CL))).gset('aes', ()).gset('mults', ())
        # one block
        s, src = W.symbuf(t, 'src'); s, dst = W.symbuf(s, 'dst'); s, so = W.sint(s, 'so', 0, MAXSTR); s, do = W.sint(s, 'do', 0, MAXSTR); s0, d0 = s.get(src), s.get(dst); s = s.assume(z3.And(_zb(bm.rng_ok(so, 16, s0.len)), _zb(bm.rng_ok(do, 16, d0.len)))); live(W, [s], nm)
        bufs = set()
        for u, k, v in W.send(s, wrapped, 'transform', src, so, dst, do):
            if k == 'exc':
                if enc and is_err(v, 'Message_too_long'): W.prove(u, CL + 16 > LIM_GCM, f'{nm}: Message_too_long only beyond 2^36 - 32 bytes')
                else: W.fail(u, f'{nm} block: exception', repr(v))
                continue
            if enc: W.prove(u, CL + 16 <= LIM_GCM, f'{nm}: no more than 2^36 - 32 bytes are encrypted')
            a, mu = u.ghost['aes'], u.ghost['mults']
            if len(a) != 1 or len(mu) != 1: W.fail(u, f'{nm} block: one encryption, one multiplication', ''); continue
            bufs.add(a[0][3].id); plain = [W.rd(u, s0, simp(so + i)) for i in range(16)]; ks = [a[0][2](z3.IntVal(i)) for i in range(16)]; out = [x ^ y for x, y in zip(plain, ks)]; ct = out if enc else plain
            W.prove(u, z3.And(*[x == y for x, y in zip(a[0][1], inc32(C))], *[W.rd(u, u.get(ctr), i) == x for i, x in enumerate(inc32(C))]), f'{nm} block: encrypts the next counter'); W.prove(u, z3.And(*[W.rd(u, u.get(dst), simp(do + i)) == out[i] for i in range(16)]), f'{nm} block: output is input xor encrypted counter')
            W.prove(u, z3.And(*[mu[0][0][i] == M[i] ^ ct[i] for i in range(16)], z3.BoolVal(mu[0][1] == mac)), f'{nm} block: ciphertext is authenticated'); W.prove(u, z3.And(*[W.rd(u, u.get(mac), i) == x for i, x in enumerate(be(MULT(*mu[0][0])))]), f'{nm} block: accumulator'); W.prove(u, _z(u.get(cl).v.v) == CL + 16, f'{nm} block: length counted')
            u, x = W.sint(u, 'x', 0, MAXSTR); y = u.assume(z3.And(x < _z(d0.len), z3.Or(x < do, x >= do + 16))); W.prove(y, W.rd(y, y.get(dst), x) == W.rd(y, d0, x), f'{nm} block: nothing written outside the block'); W.prove(u, z3.And(z3.BoolVal(u.get(src) is s0), *[W.rd(u, u.get(e0), i) == E0[i] for i in range(16)]), f'{nm} block: source and tag mask unchanged')
        # tag
        s, used = W.sint(t, 'used', 0, 16); ib = W.fld(s, o, 'ibuf'); IB = [W.fbv('in') for _ in range(16)]; s = s.put(ib, Buf(16, cells=tuple(IB))); s = W.setfield(s, o, 'used', used)
        s, obuf = W.symbuf(s, 'obuf', None, 1); s, ob = W.sint(s, 'obeg', 0, MAXSTR); s, oe = W.sint(s, 'oend', 0, MAXSTR); s = s.assume(z3.And(ob <= oe, oe <= _z(s.get(obuf).len))); o0 = s.get(obuf)
        for fl, v in (('obuf', obuf), ('obeg', ob), ('oend', oe)): W.fld(s, o, fl); s = W.setfield(s, o, fl, v)
        live(W, [s.assume(used == 5)], nm)
        for u, k, v in W.send(s, o, 'finish_and_get_tag'):
            if k == 'exc':
                if enc and is_err(v, 'Message_too_long'): W.prove(u, CL + used > LIM_GCM, f'{nm} tag: Message_too_long only beyond 2^36 - 32 bytes')
                elif not is_err(v, 'Output_buffer_overflow'): W.fail(u, f'{nm} tag: exception', repr(v))
                continue
            if enc: W.prove(u, CL + used <= LIM_GCM, f'{nm}: no more than 2^36 - 32 bytes are encrypted')
            a, mu = u.ghost['aes'], u.ghost['mults']; part = W.entails(u, used > 0)
            if not part and not W.entails(u, used == 0): raise Unsupported('finish_and_get_tag does not distinguish an empty last block')
            if len(a) != int(part) or len(mu) != 1 + int(part): W.fail(u, f'{nm} tag: number of blocks', f'{len(a)} {len(mu)}'); continue
            r, b2, e2 = W.fld(u, o, 'obuf'), _z(W.fld(u, o, 'obeg')), _z(W.fld(u, o, 'oend')); acc = M
            u, x = W.sint(u, 'x', 0, MAXSTR); w = u.assume(x < oe - ob); W.prove(u, e2 - b2 == oe - ob + used, f'{nm} tag: the pending bytes are output'); W.prove(w, W.rd(w, w.get(r), simp(b2 + x)) == W.rd(w, o0, simp(ob + x)), f'{nm} tag: earlier output kept')
            if part:
                ks = [a[0][2](z3.IntVal(i)) for i in range(16)]; W.prove(u, z3.And(*[p == q for p, q in zip(a[0][1], inc32(C))]), f'{nm} tag: last block uses the next counter')
                for i in range(16):
                    w = u.assume(used > i); W.prove(w, W.rd(w, w.get(r), simp(b2 + oe - ob + i)) == IB[i] ^ ks[i], f'{nm} tag: last block is input xor encrypted counter')
                    ct = IB[i] ^ ks[i] if enc else IB[i]; W.prove(u, mu[0][0][i] == M[i] ^ z3.If(used > i, ct, chr_(0)), f'{nm} tag: last ciphertext block authenticated, zero padded')
                acc = be(MULT(*mu[0][0]))
            lens = i64cells(simp(8 * HL), True) + i64cells(simp(8 * (CL + used)), True); lens0 = i64cells(simp(8 * HL), True) + i64cells(simp(8 * CL), True)
            want = lens if part else lens0
            W.prove(u, z3.And(*[mu[-1][0][i] == acc[i] ^ want[i] for i in range(16)]), f'{nm} tag: lengths of header and ciphertext authenticated')
            W.prove(u, z3.And(_z(u.get(v).len) == 16, *[byte(W, u, v, i) == x ^ E0[i] for i, x in enumerate(be(MULT(*mu[-1][0])))]), f'{nm} tag: GHASH xor encrypted initial counter')
        # wipe
        kids = [kk[1] for kk in t.ghost if isinstance(kk, tuple) and kk[0] == 'key']
        for u, v in expect_vals(W, W.send(t, o, 'wipe'), nm + '#wipe'):
            W.prove(u, z3.BoolVal(u.ghost.get('ghash.wiped') == gh[0][0]), f'{nm}#wipe: hash key wiped')
            for w, r in (('counter', ctr), ('accumulator', mac), ('tag mask', e0), ('input buffer', W.fld(u, o, 'ibuf'))) + tuple(('scratch', Ref(b)) for b in bufs): W.prove(u, z3.And(*[W.rd(u, u.get(r), i) == 0 for i in range(16)]), f'{nm}#wipe: {w} erased')
            for r in [Ref(i) for i in kids] + [W.fld(u, o, 'obuf')]:
                L = _z(u.get(r).len); u2, j = W.sint(u, 'j', 0, MAXSTR); y = u2.assume(j < L); b = W.rd(y, y.get(r), j); W.prove(y, z3.Or(b == 0, z3.And(j == L - 1, b == 14)), f'{nm}#wipe: key and output buffer erased')
# ---------------------------------------------------------------- ChaCha20-Poly1305
import o_hash
def poly(W):
    def init(W, st, a):
        rec = st.get(a[0]); W.prove(st, _z(rec.len) >= 32, 'caml_poly1305_init: key of 32 bytes'); st, r = W.symbuf(st, 'poly', None, 1, 4096)
        return [(st.gset(('ctx', r.id), o_hash.Ctx('poly1305', (rec,))), 'val', r)]
    W.ext['caml_poly1305_init'] = Bi('caml_poly1305_init', 1, init); W.ext['caml_poly1305_update'] = Bi('caml_poly1305_update', 4, o_hash.mkupdate('caml_poly1305_update', ['poly1305']))
    def final(W, st, a):
        c = o_hash.cget(W, st, a[0], ['poly1305'], 'caml_poly1305_final'); f = W.ffun('tag', Int, BV8); st, r = W.fnbuf(st, 16, lambda i: f(i))
        return [(st.gset(('ctx', a[0].id), o_hash.Ctx(c.kind, c.args, c.log, c.finals + ((f, 16, None, len(c.log)),))), 'val', r)]
    W.ext['caml_poly1305_final'] = Bi('caml_poly1305_final', 1, final)
def chapoly(W, dir, hdr):
    enc = dir == 'Encrypt'; nm = f'chacha20_poly1305 {dir}'; o_block.prims(W); poly(W)
    st, f = W.val(W.init(), 'AEAD.chacha20_poly1305'); st, key = W.symbuf(st, 'key'); st, iv = W.symbuf(st, 'iv'); key0, iv0 = st.get(key), st.get(iv); n, ivn = _z(key0.len), _z(iv0.len); labels = [('~iv', iv)]; h0 = None
    if hdr: st, hd = W.symbuf(st, 'header'); h0 = st.get(hd); labels.append(('?header', Some(hd)))
    HL = _z(h0.len) if hdr else z3.IntVal(0); kv = z3.Or(n == 16, n == 32); ivv = z3.Or(ivn == 8, ivn == 12); live(W, [st.assume(z3.And(kv, ivv))], nm)
    LIM = z3.If(ivn == 12, z3.IntVal(0x3FFFFFFFC0), z3.IntVal(2**63 - 1))
    for t, k, o in W.apply(st, f, labels + [('', key), ('', Con(dir))]):
        if k == 'exc':
            if is_err(o, 'Wrong_key_size'): W.prove(t, z3.Not(kv), f'{nm}: Wrong_key_size only for other key sizes')
            elif is_err(o, 'Wrong_IV_size'): W.prove(t, z3.Not(ivv), f'{nm}: Wrong_IV_size only for other iv sizes')
            else: W.fail(t, nm, repr(o))
            continue
        W.prove(t, z3.And(kv, ivv), f'{nm}: accepts only valid keys and ivs'); calls = t.ghost.get('calls', ()); ctxs = [kk[1] for kk in t.ghost if isinstance(kk, tuple) and kk[0] == 'ctx']
        if len(calls) != 1 or calls[0][0] != 'chacha20' or len(ctxs) != 1: W.fail(t, f'{nm}: one keystream block, one hash', f'{len(calls)}'); continue
        _, kk, rec, so, ks, cn = calls[0]; h = Ref(ctxs[0]); c = t.ghost[('ctx', h.id)]; t1, j = W.sint(t, 'j', 0, MAXSTR)
        W.prove(t1.assume(j < n), z3.And(_z(kk.key.len) == n, W.rd(t1, kk.key, j) == W.rd(t1, key0, j)), f'{nm}: uses the given key'); W.prove(t1.assume(j < ivn), z3.And(_z(kk.extra[0].len) == ivn, W.rd(t1, kk.extra[0], j) == W.rd(t1, iv0, j), _z(kk.extra[1]) == 0), f'{nm}: uses the given iv, counter 0')
        W.prove(t, _z(cn) == 64, f'{nm}: the first keystream block is used for the hash key only'); W.prove(t, z3.And(*[W.rd(t, c.args[0], i) == ks(z3.IntVal(i)) for i in range(32)]), f'{nm}: hash key is the first 32 keystream bytes')
        t1, q = W.sint(t, 'q', 0, MAXSTR); tot, b = o_hash.logcat(W, t1, c.log, q); t1 = t1.assume(q < tot)
        W.prove(t, z3.And(tot % 16 == 0, tot >= HL, tot < HL + 16), f'{nm}: header padded to 16 bytes'); W.prove(t1, b == (z3.If(q < HL, W.rd(t1, h0, q), chr_(0)) if hdr else chr_(0)), f'{nm}: header authenticated, zero padded')
        cl = i64cell(t); W.prove(t, _z(t.get(cl).v.v) == 0, f'{nm}: length starts at 0'); wrapped = inherited(W, t, o, ['cipher', 'buffered_output'], nm, ())
        for m, w in (('input_block_size', 1), ('output_block_size', 1), ('tag_size', 16)):
            for u, v in expect_vals(W, W.send(t, o, m), m): W.prove(u, _z(v) == w, f'{nm}#{m}')
        hk = t.get(h); t, CL = W.sint(t, 'cipherlen', 0, 2**62); t = t.assume(CL <= LIM) if enc else t; t = t.put(cl, Cell(I64(CL))).gset('calls', ()).gset(('ctx', h.id), o_hash.Ctx('poly1305', c.args))
        s, src = W.symbuf(t, 'src'); s, dst = W.symbuf(s, 'dst'); s, so = W.sint(s, 'so', 0, MAXSTR); s, do = W.sint(s, 'do', 0, MAXSTR); s, ln = W.sint(s, 'len', 0, MAXSTR); s0, d0 = s.get(src), s.get(dst); s = s.assume(z3.And(_zb(bm.rng_ok(so, ln, s0.len)), _zb(bm.rng_ok(do, ln, d0.len)))); live(W, [s], nm)
        for u, k, v in W.send(s, wrapped, 'transform', src, so, dst, do, ln):
            if k == 'exc':
                if enc and is_err(v, 'Message_too_long'): W.prove(u, CL + ln > LIM, f'{nm}: Message_too_long only beyond the limit')
                else: W.fail(u, f'{nm} transform: exception', repr(v))
                continue
            if enc: W.prove(u, CL + ln <= LIM, f'{nm}: no more than 2^38 - 64 bytes are encrypted with a 12-byte iv')
            calls = u.ghost['calls']; c2 = u.ghost[('ctx', h.id)]
            if len(calls) != 1 or calls[0][0] != 'chacha20' or len(c2.log) != 1 or c2.finals: W.fail(u, f'{nm} transform: one keystream use, one hash update', ''); continue
            ks2 = calls[0][4]; u, x = W.sint(u, 'x', 0, MAXSTR); w = u.assume(x < ln); out = W.rd(w, s0, simp(so + x)) ^ ks2(x); tot, b = o_hash.logcat(W, w, c2.log, x)
            W.prove(u, z3.And(_z(calls[0][5]) == ln, tot == ln, _z(u.get(cl).v.v) == CL + ln), f'{nm} transform: lengths'); W.prove(w, W.rd(w, w.get(dst), simp(do + x)) == out, f'{nm} transform: input xor keystream'); W.prove(w, b == (out if enc else W.rd(w, s0, simp(so + x))), f'{nm} transform: ciphertext authenticated')
            y = u.assume(z3.And(x < _z(d0.len), z3.Or(x < do, x >= do + ln))); W.prove(y, W.rd(y, y.get(dst), x) == W.rd(y, d0, x), f'{nm} transform: nothing written outside the range'); W.prove(u, z3.BoolVal(u.get(src) is s0), f'{nm} transform: source unchanged')
        for u, v in expect_vals(W, W.send(t, o, 'finish_and_get_tag'), nm + ' tag'):
            c2 = u.ghost[('ctx', h.id)]
            if len(c2.finals) != 1 or c2.finals[0][3] != len(c2.log) or u.ghost['calls']: W.fail(u, f'{nm} tag: hash finalised once', ''); continue
            u, q = W.sint(u, 'q', 0, MAXSTR); tot, b = o_hash.logcat(W, u, c2.log, q); pad = simp(tot - 16); W.prove(u, z3.And(pad >= 0, pad < 16, (CL + pad) % 16 == 0), f'{nm} tag: ciphertext padded to 16 bytes')
            w = u.assume(q < pad); W.prove(w, b == 0, f'{nm} tag: zero padding'); lens = i64cells(simp(HL), False) + i64cells(simp(CL), False)
            w = u.assume(z3.And(q >= pad, q < tot)); W.prove(w, b == o_block.cells_at(lens, simp_z(q - pad)), f'{nm} tag: lengths of header and ciphertext authenticated')
            W.prove(u, z3.And(_z(u.get(v).len) == 16, *[byte(W, u, v, i) == c2.finals[0][0](z3.IntVal(i)) for i in range(16)]), f'{nm} tag: is the hash')
        kids = [x[1] for x in t.ghost if isinstance(x, tuple) and x[0] == 'key']
        for u, v in expect_vals(W, W.send(t, o, 'wipe'), nm + '#wipe'):
            for r in [Ref(i) for i in kids] + [h, W.fld(u, o, 'obuf')]: u2, j = W.sint(u, 'j', 0, MAXSTR); y = u2.assume(j < _z(u2.get(r).len)); W.prove(y, W.rd(y, y.get(r), j) == 0, f'{nm}#wipe: erased')
UNITS = {'ghash-string': unit(ghash_string), 'counter0': unit(counter0)}
for _d in ('Encrypt', 'Decrypt'):
    for _h in (False, True):
        UNITS[f'gcm-{_d.lower()}' + ('-header' if _h else '')] = unit(lambda W, d=_d, h=_h: gcm(W, d, h)); UNITS[f'chapoly-{_d.lower()}' + ('-header' if _h else '')] = unit(lambda W, d=_d, h=_h: chapoly(W, d, h))
