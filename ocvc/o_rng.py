"""C26, C16, C17, C27: random number generators.  RND(i): byte i delivered by the source (operating system, device,
hardware, keystream); a generator that returns normally has filled exactly the requested range with consecutive source bytes."""
from oc import *
from oc import _z, _zb
import o_block
BIG = 2**70; RND = z3.Function('RND', Int, BV8)
def fill(W, st, b, o, n):
    p = _z(st.ghost['pos']); return W.wr_range(st, b, o, n, lambda s_, i: RND(simp_z(p + _z(i) - _z(o)))).gset('pos', simp_z(p + _z(n)))
def source(W):
    """contracts of the C primitives (proved by u_rng) and of Unix"""
    def rb(nm, k):
        def fn(W, st, a):
            b, o, n = a[k:]; o, n = bm.toint(o), bm.toint(n); rng(W, st, 'destination', b, o, n, nm)
            if k == 1: W.prove(st, z3.BoolVal(not st.ghost.get('closed')), f'{nm}: source open')
            f = W.ffun('partial', Int, BV8); bad = W.wr_range(st, b, o, n, lambda s_, i: f(_z(i)))
            return [(fill(W, st, b, o, n), 'val', True), (bad, 'val', False)]
        W.ext[nm] = Bi(nm, k + 3, fn)
    rb('caml_system_rng_random_bytes', 1); rb('caml_hardware_rng_random_bytes', 0)
    W.ext['caml_get_system_rng'] = Bi('caml_get_system_rng', 1, lambda W, st, a: [(st.gset('src', 'system'), 'val', Opaque('handle')), (st.gset('nosys', True), 'exc', Con('Not_found'))])
    W.ext['caml_close_system_rng'] = Bi('caml_close_system_rng', 1, lambda W, st, a: [(st.gset('closed', True), 'val', UNIT)])
    W.ext['caml_hardware_rng_available'] = Bi('caml_hardware_rng_available', 1, lambda W, st, a: [(st.gset('hw', True), 'val', True), (st.gset('hw', False), 'val', False)])
    def read(W, st, a):
        fd, b, o, n = a; rec = bm.B(W, st, b); o, n = bm.toint(o), bm.toint(n); W.prove(st, z3.BoolVal(not st.ghost.get('closed')), 'Unix.read: descriptor open')
        def ok(t):
            t2, r = W.sint(t, 'r', 0, MAXSTR); t2 = t2.assume(r <= _z(n)); return [(fill(W, t2, b, o, r), 'val', r), (t, 'exc', Con('Unix_error', ()))]
        return bm.guard(W, st, bm.rng_ok(o, n, rec.len), ok)
    W.base.vars['Unix'] = bm.mod(dict(openfile=Bi('openfile', 3, lambda W, st, a: [(st.gset('src', 'device').gset('fname', W.content(st, a[0]) if isinstance(simp(st.get(a[0]).len), int) else None), 'val', Opaque('fd')), (st.gset('nodev', True), 'exc', Con('Unix_error', (UNIT, UNIT, UNIT)))]), read=Bi('read', 4, read), close=Bi('close', 1, lambda W, st, a: [(st.gset('closed', True), 'val', UNIT)])))
class Inv:
    """bytes ofs0 .. ofs0 + (pos - pos0) - 1 of the destination are the source bytes delivered so far"""
    def __init__(s, b, ofs, rec, pos0): s.b = b; s.ofs = ofs; s.rec = rec; s.pos0 = pos0
    def covers(s, st, hid, f): return hid == s.b.id
    def covers_ghost(s, gk): return gk == 'pos'
    def buf(s, W, p): return Buf(s.rec.len, base=lambda s_, i: W.rd(s_, s.rec, i), layers=((s.ofs, simp(p - s.pos0), lambda s_, i: RND(simp_z(s.pos0 + _z(i) - _z(s.ofs)))),))
    def havoc(s, W, st, loop=True):
        st, p = W.sint(st, 'pos', 0, BIG); st = st.assume(p >= s.pos0); return st.gset('pos', p).put(s.b, s.buf(W, p))
    def terms(s, W, st): return [('pos', _z(st.ghost['pos']))]
    def check(s, W, st, name):
        p = _z(st.ghost['pos']); W.prove(st, p >= s.pos0, f'{name}: source bytes'); st, x = W.sint(st, 'x', 0, MAXSTR); u = st.assume(x < _z(s.rec.len)); W.prove(u, W.rd(u, u.get(s.b), x) == W.rd(u, s.buf(W, p), x), f'{name}: the source bytes delivered so far, nothing else')
def random_bytes(W, st, o, nm, excs, loop=False, strict=True):
    """any buffer, offset and length; -> normal outcomes"""
    st, b = W.symbuf(st, 'buf'); st, ofs = W.sint(st, 'ofs'); st, n = W.sint(st, 'len'); b0 = st.get(b); ok = _zb(bm.rng_ok(ofs, n, b0.len)); pos0 = _z(st.ghost['pos']); live(W, [st.assume(ok)], nm); res = []
    if loop: loop(W, st, b, ofs, b0, n)
    for t, k, v in W.send(st, o, 'random_bytes', b, ofs, n):
        t, x = W.sint(t, 'x', 0, MAXSTR); y = t.assume(z3.And(x < _z(b0.len), z3.Or(x < ofs, x >= ofs + n))); W.prove(y, W.rd(y, y.get(b), x) == W.rd(y, b0, x), f'{nm}: nothing written outside the range')
        if k == 'exc':
            if v.name == 'Invalid_argument': W.prove(t, z3.Not(ok), f'{nm}: Invalid_argument only for an invalid range')
            elif not any(e(v) for e in excs): W.fail(t, f'{nm}: exception', repr(v))
            continue
        W.prove(t, ok if strict else z3.Or(ok, n <= 0), f'{nm}: returns only for a valid range'); W.prove(t, _z(t.ghost['pos']) == pos0 + z3.If(n > 0, n, 0), f'{nm}: consumes exactly len source bytes'); w = t.assume(z3.And(x < n)); W.prove(w, W.rd(w, w.get(b), simp(ofs + x)) == RND(simp_z(pos0 + x)), f'{nm}: every byte comes from the source'); res.append(t)
    return res
ENT = lambda v: is_err(v, 'Entropy_source_closed')
def simple(W):
    source(W)
    for nm, path in (('system_rng', 'Random.system_rng'), ('hardware_rng', 'Random.hardware_rng')):
        st, p0 = W.sint(W.init(), 'pos', 0, BIG); st = st.gset('pos', p0); st, f = W.val(st, path)
        for t, k, o in W.call(st, f, UNIT):
            if k == 'exc':
                if is_err(o, 'No_entropy_source'): W.prove(t, z3.BoolVal(bool(t.ghost.get('nosys')) if nm == 'system_rng' else t.ghost.get('hw') is False), f'{nm}: No_entropy_source only if there is no source')
                else: W.fail(t, nm, repr(o))
                continue
            W.prove(t, z3.BoolVal(t.ghost.get('src') == 'system' if nm == 'system_rng' else t.ghost.get('hw') is True), f'{nm}: source available')
            random_bytes(W, t, o, nm + '#random_bytes', [ENT])
            for u, v in expect_vals(W, W.send(t, o, 'wipe'), nm):
                if nm == 'system_rng': W.prove(u, z3.BoolVal(u.ghost.get('closed') is True), f'{nm}#wipe: closes the source')
    # secure_rng: best available source
    m = W.ck.items['Random'].items['secure_rng']; outs = W.ev(m.expr, m.env, W.init().g(pos=0))
    for t, k, o in outs:
        if k != 'val': W.fail(t, 'secure_rng: always defined', repr(o)); continue
        g = t.ghost; want = 'system_rng' if not g.get('nosys') else 'device_rng' if not g.get('nodev') else 'hardware_rng' if g.get('hw') else 'no_rng'
        W.prove(t, z3.BoolVal(t.get(o).cls == want), f'secure_rng: {want} when available')
        if want == 'device_rng': W.prove(t, z3.And(*[a == b for a, b in zip(g['fname'], b'/dev/random')], z3.BoolVal(len(g['fname']) == 11)), 'secure_rng: /dev/random')
    (st, o), = expect_vals(W, new(W, W.init().g(pos=0), 'Random.no_rng', []), 'no_rng'); st, b = W.symbuf(st, 'b'); st, n = W.sint(st, 'n')
    for t, k, v in W.send(st, o, 'random_bytes', b, 0, n): W.prove(t, z3.BoolVal(k == 'exc' and is_err(v, 'No_entropy_source')), 'no_rng: always fails')
def string(W):
    nm = 'Random.string'; st = W.init().g(pos=0)
    def rb(W, st, a): b, o, n = a; rng(W, st, 'destination', b, o, n, 'rng'); return [(fill(W, st, b, o, n), 'val', UNIT), (st, 'exc', Con('RngException'))]
    r = PyObj('rng', dict(random_bytes=(3, rb))); st, f = W.val(st, nm); st, n = W.sint(st, 'len')
    for t, k, v in W.call(st, f, r, n):
        if k == 'exc':
            if v.name == 'Invalid_argument': W.prove(t, z3.Or(n < 0, n > MAXSTR), f'{nm}: Invalid_argument only for an impossible length')
            elif v.name != 'RngException': W.fail(t, nm, repr(v))
            continue
        t, x = W.sint(t, 'x', 0, MAXSTR); W.prove(t, _z(t.get(v).len) == n, f'{nm}: length'); w = t.assume(x < n); W.prove(w, byte(W, w, v, x) == RND(x), f'{nm}: every byte comes from the generator')
def device(W):
    source(W); nm = 'device_rng'; st, p0 = W.sint(W.init(), 'pos', 0, BIG); st = st.gset('pos', p0); st, f = W.val(st, 'Random.device_rng'); st, fn = W.symbuf(st, 'filename')
    def loop(W, st, b, ofs, b0, n):
        W.inv = Inv(b, ofs, b0, p0); W.bound_terms = [b0.len, n]
        def extra(W, stx, st0, tv, written):
            d = {l: (c, e) for l, c, e in tv}; a, l = d.get(('slot', 1)), d.get(('slot', 2)); p = _z(stx.ghost['pos'])
            if a is None or l is None: return []
            return [('step', z3.Or(z3.And(p == p0, _z(l[0]) == n, _z(a[0]) == ofs), z3.And(_z(l[0]) > 0, _zb(bm.rng_ok(ofs, n, b0.len)), _z(a[0]) == ofs + (p - p0), _z(l[0]) + (p - p0) == n)))]
        W.extra = extra
    for t, k, o in W.call(st, f, fn):
        if k == 'exc':
            if o.name != 'Unix_error': W.fail(t, nm, repr(o))
            continue
        random_bytes(W, t, o, nm + '#random_bytes', [ENT, lambda v: v.name == 'Unix_error'], loop, strict=False); W.inv = W.extra = None
        for u, v in expect_vals(W, W.send(t, o, 'wipe'), nm): W.prove(u, z3.BoolVal(u.ghost.get('closed') is True), f'{nm}#wipe: closes the device')
def seeded(W, path, cons):
    st = W.init().g(pos=0); st, f = W.val(st, path); st, seed = W.symbuf(st, 'seed'); s0 = st.get(seed); L = _z(s0.len); live(W, [st.assume(L >= 16)], path)
    for t, k, o in W.call(st, f, seed):
        if k == 'exc':
            if is_err(o, 'Seed_too_short'): W.prove(t, L < 16, f'{path}: Seed_too_short only for less than 16 bytes')
            else: W.fail(t, path, repr(o))
            continue
        W.prove(t, L >= 16, f'{path}: needs a seed of 16 bytes'); W.prove(t, z3.BoolVal(t.get(seed) is s0), f'{path}: seed unchanged'); kid, = [x[1] for x in t.ghost if isinstance(x, tuple) and x[0] == 'key']; cons(t, o, seed, s0, L, Ref(kid), t.ghost[('key', kid)])
def erased(W, u, r, nm, aes=False):
    L = _z(u.get(r).len); u, j = W.sint(u, 'j', 0, MAXSTR); y = u.assume(j < L); b = W.rd(y, y.get(r), j); W.prove(y, z3.Or(b == 0, z3.And(j == L - 1, b == 14)) if aes else b == 0, nm)
def pseudo(W):
    o_block.prims(W); nm = 'pseudo_rng'
    def cons(t, o, seed, s0, L, kr, k):
        t1, j = W.sint(t, 'j', 0, MAXSTR); KL = z3.If(L == 16, 16, 32); w = t1.assume(j < KL); W.prove(t, z3.And(z3.BoolVal(k.kind == 'chacha20'), _z(k.key.len) == KL), f'{nm}: key size'); W.prove(w, W.rd(w, k.key, j) == z3.If(j < L, W.rd(w, s0, j), chr_(0)), f'{nm}: key from the seed, zero padded')
        W.prove(t, z3.And(_z(k.extra[0].len) == 8, _z(k.extra[1]) == 0, *[W.rd(t, k.extra[0], i) == 0 for i in range(8)]), f'{nm}: zero iv and counter')
        def ext(W, st, a):
            ck, d, do, n = a; do, n = bm.toint(do), bm.toint(n); W.prove(st, z3.BoolVal(ck.id == kr.id), f'{nm}: own key'); rng(W, st, 'destination', d, do, n, 'caml_chacha20_extract'); return [(fill(W, st, d, do, n), 'val', UNIT)]
        W.ext['caml_chacha20_extract'] = Bi('caml_chacha20_extract', 4, ext); t, p = W.sint(t, 'pos', 0, BIG); t = t.gset('pos', p)
        random_bytes(W, t, o, nm + '#random_bytes', [])
        for u, v in expect_vals(W, W.send(t, o, 'wipe'), nm): erased(W, u, kr, f'{nm}#wipe: key erased'); erased(W, u, seed, f'{nm}#wipe: seed erased')
    seeded(W, 'Random.pseudo_rng', cons)
CT = z3.Function('COUNTER', Int, Int, BV8)    # CT(k, j): byte j of the 16-byte big-endian representation of k
class CInv(Inv):
    """stream byte 16 k + j is byte j of the encrypted counter k; obuf holds the rest of block k - 1"""
    def __init__(s, o, b, ofs, rec, pos0): Inv.__init__(s, b, ofs, rec, pos0); s.o = o
    def covers(s, st, hid, f):
        if hid == s.o.id: return f == 'opos'
        return hid in ((s.b.id,) if s.b else ()) + (st.get(s.o).fields['obuf'].id, st.get(s.o).fields['ctr'].id)
    def covers_ghost(s, gk): return gk == 'k'
    def pos(s, W, st): return simp_z(16 * _z(st.ghost['k']) - 16 + _z(W.fld(st, s.o, 'opos')))
    def havoc(s, W, st, loop=True):
        st, k = W.sint(st, 'k', 0, BIG); st, p = W.sint(st, 'opos', 0, 16); st = W.setfield(st.gset('k', k), s.o, 'opos', p); ob, ctr = W.fld(st, s.o, 'obuf'), W.fld(st, s.o, 'ctr'); junk = W.ffun('obuf', Int, BV8); st = st.assume(z3.Or(k > 0, p == 16))
        st = st.put(ctr, Buf(16, base=lambda s_, i: CT(k, _z(i)))).put(ob, Buf(16, base=lambda s_, i: junk(_z(i)), layers=((p, simp(16 - p), lambda s_, i: RND(simp_z(16 * k - 16 + _z(i)))),)))
        if s.b: G = s.pos(W, st); st = st.assume(G >= s.pos0).put(s.b, s.buf(W, G))
        return st
    def terms(s, W, st): return [('pos', s.pos(W, st))]
    def check(s, W, st, name):
        G = s.pos(W, st); k = _z(st.ghost['k']); p = _z(W.fld(st, s.o, 'opos')); ob, ctr = st.get(W.fld(st, s.o, 'obuf')), st.get(W.fld(st, s.o, 'ctr')); W.prove(st, z3.And(p >= 0, p <= 16, z3.Or(k > 0, p == 16), _z(ob.len) == 16, _z(ctr.len) == 16), f'{name}: position in the block')
        t, j = W.sint(st, 'j', 0, 15); W.prove(t, W.rd(t, ctr, j) == CT(k, j), f'{name}: counter'); u = t.assume(j >= p); W.prove(u, W.rd(u, ob, j) == RND(simp_z(16 * k - 16 + j)), f'{name}: rest of the block')
        if s.b: st, x = W.sint(st, 'x', 0, MAXSTR); u = st.assume(z3.And(x < _z(s.rec.len), G >= s.pos0)); W.prove(st, G >= s.pos0, f'{name}: stream'); W.prove(u, W.rd(u, u.get(s.b), x) == W.rd(u, s.buf(W, G), x), f'{name}: the stream so far, nothing else')
def aesctr(W):
    o_block.prims(W); nm = 'pseudo_rng_aes_ctr'
    def cons(t, o, seed, s0, L, kr, k):
        t1, j = W.sint(t, 'j', 0, 15); W.prove(t1, z3.And(z3.BoolVal(k.kind == 'aes-enc'), _z(k.key.len) == 16, W.rd(t1, k.key, j) == W.rd(t1, s0, j)), f'{nm}: key is the first 16 bytes of the seed')
        def aes(W, st, a):
            ck, s, so, d, do = a; so, do = bm.toint(so), bm.toint(do); W.prove(st, z3.BoolVal(ck.id == kr.id), f'{nm}: own key'); rng(W, st, 'source', s, so, 16, 'caml_aes_encrypt'); rng(W, st, 'destination', d, do, 16, 'caml_aes_encrypt'); kk = _z(st.ghost['k'])
            t, j = W.sint(st, 'j', 0, 15); W.prove(t, W.rd(t, t.get(s), simp(_z(so) + j)) == CT(kk, j), f'{nm}: encrypts the next counter value'); return [(W.wr_range(st, d, do, 16, lambda s_, i: RND(simp_z(16 * kk + _z(i) - _z(do)))).gset('k', simp_z(kk + 1)), 'val', UNIT)]
        W.ext['caml_aes_encrypt'] = Bi('caml_aes_encrypt', 5, aes)
        def inc(W, st, a):
            """contract proved by o_mode:increment-counter"""
            c, lim, pos = a; W.prove(st, z3.And(_z(st.get(c).len) == 16, _z(lim) == 0, _z(pos) == 15), f'{nm}: whole counter incremented'); kk = _z(st.ghost['k']); t, j = W.sint(st, 'j', 0, 15); W.prove(t, W.rd(t, t.get(c), j) == CT(kk - 1, j), f'{nm}: counter incremented once per block'); return [(st.put(c, Buf(16, base=lambda s_, i: CT(kk, _z(i)))), 'val', UNIT)]
        W.over['increment_counter'] = Bi('increment_counter', 3, inc)
        inv = CInv(o, None, None, None, None); inv.check(W, t.gset('k', 0).assume(z3.And(*[CT(0, i) == 0 for i in range(16)])), f'{nm}: initial state')
        t0 = inv.havoc(W, t.gset('k', 0)); G0 = inv.pos(W, t0); t0 = t0.gset('pos', G0)
        st, b = W.symbuf(t0, 'buf'); st, ofs = W.sint(st, 'ofs'); st, n = W.sint(st, 'len'); b0 = st.get(b); ok = _zb(bm.rng_ok(ofs, n, b0.len)); live(W, [st.assume(z3.And(ok, n > 40))], nm)
        inv = W.inv = CInv(o, b, ofs, b0, G0); W.bound_terms = [b0.len, n]; m = nm + '#random_bytes'
        def extra(W, stx, st0, tv, written):
            d = {l: (c, e) for l, c, e in tv}; a, l = d.get(('slot', 1)), d.get(('slot', 2)); p = inv.pos(W, stx)
            if a is None or l is None: return []
            return [('step', z3.Or(z3.And(p == G0, _z(l[0]) == n, _z(a[0]) == ofs), z3.And(_z(l[0]) > 0, ofs >= 0, _z(a[0]) <= _z(b0.len), _z(a[0]) == ofs + (p - G0), _z(l[0]) + (p - G0) == n)))]
        W.extra = extra
        for u, kd, v in W.send(st, o, 'random_bytes', b, ofs, n):
            u, x = W.sint(u, 'x', 0, MAXSTR); y = u.assume(z3.And(x < _z(b0.len), z3.Or(x < ofs, x >= ofs + n))); W.prove(y, W.rd(y, y.get(b), x) == W.rd(y, b0, x), f'{m}: nothing written outside the range')
            if kd == 'exc':
                if v.name == 'Invalid_argument': W.prove(u, z3.Not(ok), f'{m}: Invalid_argument only for an invalid range')
                else: W.fail(u, f'{m}: exception', repr(v))
                continue
            W.prove(u, z3.Or(ok, n <= 0), f'{m}: returns only for a valid range'); W.prove(u, inv.pos(W, u) == G0 + z3.If(n > 0, n, 0), f'{m}: stream advances by len'); w = u.assume(x < n); W.prove(w, W.rd(w, w.get(b), simp(ofs + x)) == RND(simp_z(G0 + x)), f'{m}: the next bytes of the stream'); inv.b = None; inv.check(W, u, m); inv.b = b
        W.inv = W.extra = None
        for u, v in expect_vals(W, W.send(t, o, 'wipe'), nm):
            erased(W, u, kr, f'{nm}#wipe: key erased', True); erased(W, u, seed, f'{nm}#wipe: seed erased'); erased(W, u, W.fld(u, o, 'ctr'), f'{nm}#wipe: counter erased'); erased(W, u, W.fld(u, o, 'obuf'), f'{nm}#wipe: buffer erased')
    seeded(W, 'Random.pseudo_rng_aes_ctr', cons)
UNITS = {'sources': unit(simple), 'string': unit(string), 'device': unit(device), 'pseudo-rng': unit(pseudo), 'pseudo-rng-aes-ctr': unit(aesctr)}
