"""C01, C03, C13, C15, C16, C17, C27: contracts of the hash and MAC classes over the C primitives.
The primitives are replaced by their contracts: a context logs the chunks it absorbs; final returns a string of the
contracted length whose bytes stand for the digest of the log.  The cvc units prove the primitives."""
from oc import *
from oc import _z, _zb

KINDS = {   # kind: init, update, final, wipe primitive (None: context is a byte string)
 'sha1': ('caml_sha1_init', 'caml_sha1_update', 'caml_sha1_final', None, 20), 'sha224': ('caml_sha224_init', 'caml_sha256_update', 'caml_sha224_final', None, 28),
 'sha256': ('caml_sha256_init', 'caml_sha256_update', 'caml_sha256_final', None, 32), 'sha384': ('caml_sha384_init', 'caml_sha512_update', 'caml_sha384_final', None, 48),
 'sha512': ('caml_sha512_init', 'caml_sha512_update', 'caml_sha512_final', None, 64), 'ripemd160': ('caml_ripemd160_init', 'caml_ripemd160_update', 'caml_ripemd160_final', None, 20),
 'md5': ('caml_md5_init', 'caml_md5_update', 'caml_md5_final', None, 16), 'sha3': ('caml_sha3_init', 'caml_sha3_absorb', 'caml_sha3_extract', 'caml_sha3_wipe', None),
 'blake2b': ('caml_blake2b_init', 'caml_blake2b_update', 'caml_blake2b_final', None, None), 'blake2s': ('caml_blake2s_init', 'caml_blake2s_update', 'caml_blake2s_final', None, None),
 'blake3': ('caml_blake3_init', 'caml_blake3_update', 'caml_blake3_extract', 'caml_blake3_wipe', None), 'siphash': ('caml_siphash_init', 'caml_siphash_update', 'caml_siphash_final', None, None)}
class Ctx:
    """contents of the ghost state of a context"""
    def __init__(s, kind, args, log=(), finals=(), wiped=False): s.kind = kind; s.args = args; s.log = log; s.finals = finals; s.wiped = wiped
def prims(W):
    upd = {}
    for k, (i, u, f, w, n) in KINDS.items():
        upd.setdefault(u, []).append(k)
        W.ext[i] = Bi(i, {'sha3': 1, 'blake2b': 2, 'blake2s': 2, 'siphash': 2}.get(k, 1), mkinit(k))
        W.ext[f] = Bi(f, 2 if k in ('sha3', 'blake2b', 'blake2s', 'blake3', 'siphash') else 1, mkfinal(k))
        if w: W.ext[w] = Bi(w, 1, mkwipe(k))
    for u, ks in upd.items(): W.ext[u] = Bi(u, 4, mkupdate(u, ks))
def cget(W, st, r, kinds, what):
    c = st.ghost.get(('ctx', r.id)) if isinstance(r, Ref) else None
    if c is None or c.kind not in kinds:
        W.fail(st, f'{what} gets a context of its own kind', f'context {c.kind if c else r}'); raise Unsupported('context of another kind')
    if c.wiped: W.fail(st, f'{what}: context not wiped', '')
    return c
def mkinit(k):
    def fn(W, st, a):
        nm = KINDS[k][0]
        if k == 'sha3': W.prove(st, z3.Or(*[_z(a[0]) == x for x in (224, 256, 384, 512)]), f'{nm}: digest size'); args = (a[0],)
        elif k in ('blake2b', 'blake2s'):
            m = 64 if k == 'blake2b' else 32; W.prove(st, z3.And(_z(a[0]) >= 1, _z(a[0]) <= m, _z(st.get(a[1]).len) <= m), f'{nm}: digest and key size'); args = (a[0], st.get(a[1]))
        elif k == 'siphash': W.prove(st, z3.And(_z(st.get(a[0]).len) == 16, z3.Or(_z(a[1]) == 8, _z(a[1]) == 16)), f'{nm}: key and digest size'); args = (a[1], st.get(a[0]))
        elif k == 'blake3': W.prove(st, z3.Or(_z(st.get(a[0]).len) == 0, _z(st.get(a[0]).len) == 32), f'{nm}: key size'); args = (st.get(a[0]),)
        else: args = ()
        if KINDS[k][3]: s2, r = W.alloc(st, Rec({}))
        else: s2, r = W.symbuf(st, 'ctx', None, 1, 4096)
        return [(s2.gset(('ctx', r.id), Ctx(k, args)), 'val', r)]
    return fn
def mkupdate(u, ks):
    def fn(W, st, a):
        c = cget(W, st, a[0], ks, u); ofs, n = bm.toint(a[2]), bm.toint(a[3]); rng(W, st, 'source', a[1], ofs, n, u)
        return [(st.gset(('ctx', a[0].id), Ctx(c.kind, c.args, c.log + ((st.get(a[1]), ofs, n),), c.finals)), 'val', UNIT)]
    return fn
def mkfinal(k):
    def fn(W, st, a):
        nm = KINDS[k][2]; extra = None
        if k == 'sha3': c = cget(W, st, a[1], [k], nm); cid = a[1].id; n = simp(_z(c.args[0]) / 8); extra = a[0]
        else:
            c = cget(W, st, a[0], [k], nm); cid = a[0].id; n = KINDS[k][4]
            if n is None:
                n = a[1]
                if k != 'blake3': W.prove(st, _z(n) == _z(c.args[0]), f'{nm}: digest size as at initialisation')
                else: W.prove(st, _z(n) >= 1, f'{nm}: digest size')
        f = W.ffun('digest_' + k, Int, BV8); s2, r = W.fnbuf(st, n, lambda i: f(i))
        return [(s2.gset(('ctx', cid), Ctx(c.kind, c.args, c.log, c.finals + ((f, n, extra, len(c.log)),))), 'val', r)]
    return fn
def mkwipe(k):
    def fn(W, st, a):
        c = st.ghost.get(('ctx', a[0].id))
        if c is None or c.kind != k: raise Unsupported('wipe of another context')
        return [(st.gset(('ctx', a[0].id), Ctx(c.kind, c.args, c.log, c.finals, True)), 'val', UNIT)]
    return fn
def logcat(W, st, log, k):
    """(total length, byte k) of the concatenation of the chunks of a log"""
    tot = z3.IntVal(0); e = chr_(0)
    for rec, o, n in log:
        c = z3.And(k >= tot, k < tot + _z(n)); e = z3.If(c, W.rd(st, rec, simp(_z(o) + k - tot)), e); tot = simp_z(tot + _z(n))
    return tot, e
def ctx_of(W, st, o): 
    ids = [k[1] for k in st.ghost if isinstance(k, tuple) and k[0] == 'ctx']
    r = W.fld(st, o, 'context')
    return r, st.ghost[('ctx', r.id)]
def fresh_ctx(W, st, o):
    """arbitrary reached state: the log is an unknown message, represented by the empty log relative to it"""
    r, c = ctx_of(W, st, o)
    st = st.gset(('ctx', r.id), Ctx(c.kind, c.args, ()))
    if not KINDS[c.kind][3]:
        f = W.ffun('ctx', Int, BV8); st = st.put(r, Buf(st.get(r).len, base=lambda s_, i: f(_z(i))))
    return st, r
def methods(W, st0, o, nm, size, official=None, hmac=False):
    st0, r = fresh_ctx(W, st0, o); kind = st0.ghost[('ctx', r.id)].kind
    def same_data(t, m, total, byte_k):
        c = t.ghost[('ctx', r.id)]; t, k = W.sint(t, 'k', 0, MAXSTR); tot, b = logcat(W, t, c.log, k)
        W.prove(t, tot == total, f'{nm}#{m}: absorbs exactly the given bytes'); u = t.assume(k < total); W.prove(u, b == byte_k(u, k), f'{nm}#{m}: bytes in order')
        W.prove(t, z3.BoolVal(not c.finals), f'{nm}#{m}: does not finalise')
    for t, v in expect_vals(W, W.send(st0, o, 'hash_size'), nm + '#hash_size'): W.prove(t, _z(v) == size, f'{nm}#hash_size')
    # add_substring
    st, src = W.symbuf(st0, 'src'); st, ofs = W.sint(st, 'ofs'); st, n = W.sint(st, 'len'); s0 = st.get(src); ok = _zb(bm.rng_ok(ofs, n, s0.len))
    live(W, [st.assume(ok)], nm)
    for t, k, v in W.send(st, o, 'add_substring', src, ofs, n):
        if k == 'exc':
            if v.name == 'Invalid_argument': W.prove(t, z3.Not(ok), f'{nm}#add_substring: Invalid_argument only for an invalid range'); same_data(t, 'add_substring (error)', z3.IntVal(0), lambda u, k: chr_(0))
            else: W.fail(t, f'{nm}#add_substring: exception', repr(v))
            continue
        W.prove(t, ok, f'{nm}#add_substring: returns only for a valid range'); same_data(t, 'add_substring', n, lambda u, k: W.rd(u, s0, simp(ofs + k))); W.prove(t, z3.BoolVal(t.get(src) is s0), f'{nm}#add_substring: source unchanged')
    st, src = W.symbuf(st0, 'src'); s1 = st.get(src)
    for t, v in expect_vals(W, W.send(st, o, 'add_string', src), nm + '#add_string'): same_data(t, 'add_string', _z(s1.len), lambda u, k: W.rd(u, s1, k)); W.prove(t, z3.BoolVal(t.get(src) is s1), f'{nm}#add_string: source unchanged')
    c = W.fbv('c')
    for t, v in expect_vals(W, W.send(st0, o, 'add_char', c), nm + '#add_char'): same_data(t, 'add_char', z3.IntVal(1), lambda u, k: c)
    b = z3.BitVec('b', 63)
    for t, v in expect_vals(W, W.send(st0, o, 'add_byte', b), nm + '#add_byte'): same_data(t, 'add_byte', z3.IntVal(1), lambda u, k: z3.Extract(7, 0, b))
    # result
    if not hmac:
        for t, v in expect_vals(W, W.send(st0, o, 'result'), nm + '#result'):
            c = t.ghost[('ctx', r.id)]
            if len(c.finals) != 1 or c.log: W.fail(t, f'{nm}#result: finalises the message once', f'{len(c.finals)} finals, {len(c.log)} updates'); continue
            f, n, ex, _ = c.finals[0]; t, k = W.sint(t, 'k', 0, MAXSTR)
            W.prove(t, _z(t.get(v).len) == size, f'{nm}#result: has hash_size bytes'); u = t.assume(k < size); W.prove(u, byte(W, u, v, k) == f(k), f'{nm}#result: is the digest')
            if official is not None: W.prove(t, _zb(ex) == official, f'{nm}#result: padding variant')
    # wipe
    for t, v in expect_vals(W, W.send(st0, o, 'wipe'), nm + '#wipe'):
        c = t.ghost[('ctx', r.id)]
        if KINDS[kind][3]: W.prove(t, z3.BoolVal(c.wiped), f'{nm}#wipe: context wiped')
        else: t, k = W.sint(t, 'k', 0, MAXSTR); u = t.assume(k < _z(t.get(r).len)); W.prove(u, byte(W, u, r, k) == 0, f'{nm}#wipe: context erased')
def make(W, path, args, st=None):
    st = st or W.init(); st, f = W.val(st, path); return W.apply(st, f, [('', a) for a in args])
def plain(path, kind, official=None):
    def fn(W):
        prims(W)
        (st, o), = expect_vals(W, make(W, path, [UNIT]), path); r, c = ctx_of(W, st, o)
        n = KINDS[kind][4]; W.prove(st, z3.BoolVal(c.kind == kind and not c.log and not c.finals), f'{path}: fresh {kind} context')
        methods(W, st, o, path, n)
    return unit(fn)
def fixed(path, kind, bits, key=False):
    """fixed digest size; key: symbolic key argument"""
    def fn(W): sized(W, path, kind, bits, key)
    return unit(fn)
def validsz(kind, sz, key):
    k = _z(key) if key is not None else 0
    if kind in ('sha3', 'keccak'): return z3.Or(*[_z(sz) == x for x in (224, 256, 384, 512)])
    if kind in ('blake2b', 'blake2s'): m = 64 if kind == 'blake2b' else 32; return z3.And(_z(sz) >= 8, _z(sz) <= 8 * m, _z(sz) % 8 == 0, k <= m)
    if kind == 'blake3': return z3.And(_z(sz) > 0, _z(sz) % 8 == 0, k == 32 if key is not None else True)
    if kind == 'siphash': return z3.And(k == 16)
def sized(W, path, kind, bits, key):
    prims(W); st = W.init(); args = []; sz = bits; kr = None; klen = None
    if bits is None: st, sz = W.sint(st, 'sz'); args.append(sz)
    if key: st, kr = W.symbuf(st, 'key'); klen = st.get(kr).len; args.append(kr)
    if not args: args = [UNIT]
    key0 = st.get(kr) if kr else None; real = 'sha3' if kind == 'keccak' else kind
    ok = validsz(kind, sz, klen); done = False
    live(W, [st.assume(ok), st.assume(z3.Not(ok))] if bits is None or key else [st], path)
    for t, k, v in make(W, path, args, st):
        if k == 'exc':
            if is_err(v, 'Wrong_key_size'): W.prove(t, z3.Not(ok), f'{path}: Wrong_key_size only for invalid parameters')
            else: W.fail(t, f'{path}: exception', repr(v))
            continue
        W.prove(t, ok, f'{path}: accepts only valid parameters')
        r, c = ctx_of(W, t, v)
        if c.kind != real or c.log or c.finals: W.fail(t, f'{path}: fresh {kind} context', c.kind); continue
        if real == 'sha3': W.prove(t, _z(c.args[0]) == _z(sz), f'{path}: initialised with its size')
        elif real != 'blake3': W.prove(t, _z(c.args[0]) * 8 == _z(sz), f'{path}: initialised with its size')
        if real != 'sha3':
            ka = c.args[-1]; L = klen if key else 0; t, j = W.sint(t, 'j', 0, MAXSTR)
            W.prove(t, _z(ka.len) == _z(L), f'{path}: initialised with its key')
            if key: u = t.assume(j < _z(L)); W.prove(u, W.rd(u, ka, j) == W.rd(u, key0, j), f'{path}: initialised with its key')
        methods(W, t, v, path, simp_z(_z(sz) / 8), {'sha3': True, 'keccak': False}.get(kind))
def sha2(W):
    prims(W); st, sz = W.sint(W.init(), 'sz')
    for t, k, v in make(W, 'Hash.sha2', [sz], st):
        if k == 'exc':
            if is_err(v, 'Wrong_key_size'): W.prove(t, z3.And(*[sz != x for x in (224, 256, 384, 512)]), 'Hash.sha2: Wrong_key_size only for other sizes')
            else: W.fail(t, 'Hash.sha2', repr(v))
            continue
        r, c = ctx_of(W, t, v); W.prove(t, z3.And(z3.BoolVal(c.kind in ('sha224', 'sha256', 'sha384', 'sha512')), sz == int(c.kind[3:]) if c.kind[3:].isdigit() else False), 'Hash.sha2: class of the requested size')
def hmac(path, kind, bs):
    def fn(W):
        prims(W); nm = path; n = KINDS[kind][4]
        st, key = W.symbuf(W.init(), 'key'); K = st.get(key).len; key0 = st.get(key)
        live(W, [st.assume(_z(K) > bs), st.assume(_z(K) < bs)], nm)
        def check_pad(t, rec, ofs, ln, pad, what, known):
            t, k = W.sint(t, 'k', 0, MAXSTR); W.prove(t, _z(ln) == bs, f'{nm}: {what} pad is one block'); u = t.assume(k < bs)
            got = W.rd(u, rec, simp(_z(ofs) + k))
            # hashed key: a context of the same kind that absorbed the key, and whose digest is used
            dig = [c for kk, c in t.ghost.items() if isinstance(kk, tuple) and kk[0] == 'ctx' and kk[1] not in known and len(c.finals) == 1 and len(c.log) == 1 and c.log[0][0] is key0]
            lng = u.assume(_z(K) > bs); sh = u.assume(_z(K) <= bs)
            W.prove(sh, got == z3.If(k < _z(K), W.rd(sh, key0, k), chr_(0)) ^ pad, f'{nm}: {what} pad from the key')
            if W.feasible(lng):
                if not dig: W.fail(lng, f'{nm}: key longer than a block is hashed', ''); return
                d = dig[-1]; W.prove(lng, z3.And(z3.BoolVal(d.kind == kind), _z(d.log[0][1]) == 0, _z(d.log[0][2]) == _z(K)), f'{nm}: the whole long key is hashed')
                f, dn = d.finals[0][0], d.finals[0][1]; W.prove(lng, got == z3.If(k < dn, f(k), chr_(0)) ^ pad, f'{nm}: {what} pad from the hashed key')
        for t, o in expect_vals(W, make(W, path, [key], st), nm):
            r, c = ctx_of(W, t, o)
            if c.kind != kind or len(c.log) != 1 or c.finals: W.fail(t, f'{nm}: starts with the inner pad', f'{c.kind} {len(c.log)} chunks'); continue
            W.prove(t, z3.BoolVal(t.get(key) is key0), f'{nm}: key unchanged')
            check_pad(t, *c.log[0], 0x36, 'inner', {r.id})
            for u, k2 in [(t, None)]:
                known = {kk[1] for kk in u.ghost if isinstance(kk, tuple) and kk[0] == 'ctx'}
                u, r = fresh_ctx(W, u, o)
                for w, v in expect_vals(W, W.send(u, o, 'result'), nm + '#result'):
                    ci = w.ghost[('ctx', r.id)]
                    if len(ci.finals) != 1 or ci.log: W.fail(w, f'{nm}#result: inner hash finalised once', ''); continue
                    f1 = ci.finals[0][0]
                    outer = [(kk[1], c) for kk, c in w.ghost.items() if isinstance(kk, tuple) and kk[0] == 'ctx' and kk[1] not in known and len(c.finals) == 1 and not (len(c.log) == 1 and c.log[0][0] is key0)]
                    if len(outer) != 1: W.fail(w, f'{nm}#result: one outer hash', f'{len(outer)}'); continue
                    oid, oc = outer[0]
                    if len(oc.log) != 2 or oc.kind != kind: W.fail(w, f'{nm}#result: outer hash of outer pad and inner digest', f'{oc.kind} {len(oc.log)} chunks'); continue
                    check_pad(w, *oc.log[0], 0x5C, 'outer', known)
                    rec, of, ln = oc.log[1]; w, k = W.sint(w, 'k', 0, MAXSTR); W.prove(w, _z(ln) == n, f'{nm}#result: inner digest'); x = w.assume(k < n); W.prove(x, W.rd(x, rec, simp(_z(of) + k)) == f1(k), f'{nm}#result: inner digest')
                    f2 = oc.finals[0][0]; W.prove(w, _z(w.get(v).len) == n, f'{nm}#result: has hash_size bytes'); W.prove(x, byte(W, x, v, k) == f2(k), f'{nm}#result: is the outer digest')
                    W.prove(w, z3.BoolVal(w.get(key) is key0), f'{nm}#result: key unchanged')
            methods(W, t, o, nm, n, hmac=True)
    return unit(fn)
UNITS = {}
for _k in ('sha1', 'sha224', 'sha256', 'sha384', 'sha512', 'ripemd160', 'md5'): UNITS['hash-' + _k] = plain('Hash.' + _k, _k)
UNITS['hash-sha2'] = unit(sha2)
for _p, _k, _b, _key in (('Hash.sha3', 'sha3', None, 0), ('Hash.keccak', 'keccak', None, 0), ('Hash.blake2b', 'blake2b', None, 0), ('Hash.blake2b512', 'blake2b', 512, 0), ('Hash.blake2s', 'blake2s', None, 0), ('Hash.blake2s256', 'blake2s', 256, 0),
                         ('Hash.blake3', 'blake3', None, 0), ('Hash.blake3_256', 'blake3', 256, 0), ('MAC.blake2b', 'blake2b', None, 1), ('MAC.blake2b512', 'blake2b', 512, 1), ('MAC.blake2s', 'blake2s', None, 1), ('MAC.blake2s256', 'blake2s', 256, 1),
                         ('MAC.blake3', 'blake3', None, 1), ('MAC.blake3_256', 'blake3', 256, 1), ('MAC.siphash', 'siphash', 64, 1), ('MAC.siphash128', 'siphash', 128, 1)):
    UNITS[_p.lower().replace('.', '-').replace('_', '-')] = fixed(_p, _k, _b, _key)
for _h, _n in (('sha1', 64), ('sha256', 64), ('sha384', 128), ('sha512', 128), ('ripemd160', 64), ('md5', 64)): UNITS['hmac-' + _h] = hmac('MAC.hmac_' + _h, _h, _n)
