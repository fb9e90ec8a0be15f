"""C04, C05, C16, C17, C27 (block and stream cipher classes over their primitives), C07 (wiring of the high-level constructors)"""
from oc import *
from oc import _z, _zb
class Key:
    def __init__(s, kind, key, ofs=0, dir=None, extra=None): s.kind = kind; s.key = key; s.ofs = ofs; s.dir = dir; s.extra = extra
def prims(W):
    def cook(name, kind, arity, pre):
        def fn(W, st, a):
            rec = st.get(a[0]); W.prove(st, pre(_z(rec.len), a), f'{name}: key size')
            s2, r = W.symbuf(st, 'ckey', None, 1, 8192); return [(s2.gset(('key', r.id), Key(kind, rec, a[1] if arity == 3 and kind == 'des' else 0, a[2].name if kind == 'des' else None)), 'val', r)]
        W.ext[name] = Bi(name, arity, fn)
    aes = lambda n, a: z3.Or(n == 16, n == 24, n == 32)
    cook('caml_aes_cook_encrypt_key', 'aes-enc', 1, aes); cook('caml_aes_cook_decrypt_key', 'aes-dec', 1, aes)
    cook('caml_blowfish_cook_key', 'blowfish', 1, lambda n, a: z3.And(n >= 4, n <= 56))
    cook('caml_des_cook_key', 'des', 3, lambda n, a: z3.And(_z(a[1]) >= 0, _z(a[1]) + 8 <= n))
    def run(name, op, kind, bs):
        def fn(W, st, a):
            ck, s, so, d, do = a; so, do = bm.toint(so), bm.toint(do); k = st.ghost.get(('key', ck.id))
            if k is None or k.kind != kind: W.fail(st, f'{name} gets a key prepared for it', k.kind if k else '?'); raise Unsupported('foreign key')
            rng(W, st, 'source', s, so, bs, name); rng(W, st, 'destination', d, do, bs, name)
            calls = st.ghost.get('calls', ()); f = W.ffun(op, Int, BV8)
            st = st.gset('calls', calls + ((op if kind != 'des' else 'des-' + k.dir, k, st.get(s), so, f),))
            return [(W.wr_range(st, d, do, bs, lambda s_, i: f(simp_z(_z(i) - _z(do)))), 'val', UNIT)]
        W.ext[name] = Bi(name, 5, fn)
    run('caml_aes_encrypt', 'aes-enc', 'aes-enc', 16); run('caml_aes_decrypt', 'aes-dec', 'aes-dec', 16)
    run('caml_blowfish_encrypt', 'bf-enc', 'blowfish', 8); run('caml_blowfish_decrypt', 'bf-dec', 'blowfish', 8); run('caml_des_transform', 'des', 'des', 8)
    # stream ciphers
    def arc(W, st, a):
        rec = st.get(a[0]); W.prove(st, z3.And(_z(rec.len) >= 1, _z(rec.len) <= 256), 'caml_arcfour_cook_key: key size')
        s2, r = W.symbuf(st, 'ckey', None, 1, 8192); return [(s2.gset(('key', r.id), Key('arcfour', rec)), 'val', r)]
    W.ext['caml_arcfour_cook_key'] = Bi('caml_arcfour_cook_key', 1, arc)
    def cha(W, st, a):
        k, iv = st.get(a[0]), st.get(a[1]); c = a[2].v
        W.prove(st, z3.And(z3.Or(_z(k.len) == 16, _z(k.len) == 32), z3.Or(_z(iv.len) == 8, z3.And(_z(iv.len) == 12, _z(c) >= 0, _z(c) <= 0xFFFFFFFF))), 'caml_chacha20_cook_key: key, iv and counter')
        s2, r = W.symbuf(st, 'ckey', None, 1, 8192); return [(s2.gset(('key', r.id), Key('chacha20', k, extra=(iv, a[2].v))), 'val', r)]
    W.ext['caml_chacha20_cook_key'] = Bi('caml_chacha20_cook_key', 3, cha)
    def srun(name, kind):
        def fn(W, st, a):
            ck, s, so, d, do, n = a; so, do, n = bm.toint(so), bm.toint(do), bm.toint(n); k = st.ghost.get(('key', ck.id))
            if k is None or k.kind != kind: W.fail(st, f'{name} gets a key prepared for it', ''); raise Unsupported('foreign key')
            rng(W, st, 'source', s, so, n, name); rng(W, st, 'destination', d, do, n, name)
            calls = st.ghost.get('calls', ()); f = W.ffun(kind, Int, BV8); rs = st.get(s)
            st = st.gset('calls', calls + ((kind, k, rs, so, f, n),))
            return [(W.wr_range(st, d, do, n, lambda s_, i: f(simp_z(_z(i) - _z(do))) ^ W.rd(s_, rs, simp(_z(so) + _z(i) - _z(do)))), 'val', UNIT)]
        W.ext[name] = Bi(name, 6, fn)
    srun('caml_arcfour_transform', 'arcfour'); srun('caml_chacha20_transform', 'chacha20')
    def ext(W, st, a):
        ck, d, do, n = a; do, n = bm.toint(do), bm.toint(n); k = st.ghost.get(('key', ck.id))
        if k is None or k.kind != 'chacha20': raise Unsupported('foreign key')
        rng(W, st, 'destination', d, do, n, 'caml_chacha20_extract'); calls = st.ghost.get('calls', ()); f = W.ffun('chacha20x', Int, BV8)
        return [(W.wr_range(st.gset('calls', calls + (('chacha20x', k, None, 0, f, n),)), d, do, n, lambda s_, i: f(simp_z(_z(i) - _z(do)))), 'val', UNIT)]
    W.ext['caml_chacha20_extract'] = Bi('caml_chacha20_extract', 4, ext)
DES1 = lambda n: [('des-D', 0)]
SPECS = {  # class: (args before key, block size, valid key length, list of expected primitive calls given the key length)
 'aes_encrypt': ([], 16, lambda n: z3.Or(n == 16, n == 24, n == 32), [('aes-enc', lambda n: 0)]), 'aes_decrypt': ([], 16, lambda n: z3.Or(n == 16, n == 24, n == 32), [('aes-dec', lambda n: 0)]),
 'blowfish_encrypt': ([], 8, lambda n: z3.And(n >= 4, n <= 56), [('bf-enc', lambda n: 0)]), 'blowfish_decrypt': ([], 8, lambda n: z3.And(n >= 4, n <= 56), [('bf-dec', lambda n: 0)]),
 'des_encrypt': ([], 8, lambda n: n == 8, [('des-Encrypt', lambda n: 0)]), 'des_decrypt': ([], 8, lambda n: n == 8, [('des-Decrypt', lambda n: 0)]),
 'triple_des_encrypt': ([], 8, lambda n: z3.Or(n == 16, n == 24), [('des-Encrypt', lambda n: 0), ('des-Decrypt', lambda n: 8), ('des-Encrypt', lambda n: z3.If(n == 24, z3.IntVal(16), z3.IntVal(0)))]),
 'triple_des_decrypt': ([], 8, lambda n: z3.Or(n == 16, n == 24), [('des-Decrypt', lambda n: z3.If(n == 24, z3.IntVal(16), z3.IntVal(0))), ('des-Encrypt', lambda n: 8), ('des-Decrypt', lambda n: 0)])}
def check_chain(W, t, nm, calls, spec, key0, n, inp, bs):
    """calls are the primitives of the cipher, chained, applied to the block inp(u, j); -> output function or None"""
    if [c[0] for c in calls] != [s[0] for s in spec]: W.fail(t, f'{nm}: applies the right primitives', str([c[0] for c in calls])); return None
    t, j = W.sint(t, 'j', 0, MAXSTR); u = t.assume(j < bs); w = t.assume(j < _z(n)); cur = inp
    for (op, k, rec, so, f), (_, ofs) in zip(calls, spec):
        W.prove(u, W.rd(u, rec, simp(_z(so) + j)) == cur(u, j), f'{nm}: {op} gets the right block'); W.prove(u, z3.And(_z(k.ofs) == ofs(_z(n)), _z(k.key.len) == _z(n)), f'{nm}: {op} uses the right part of the key')
        W.prove(w, W.rd(w, k.key, j) == W.rd(w, key0, j), f'{nm}: {op} uses the given key'); cur = lambda u, j, f=f: f(j if isz(j) else z3.IntVal(j))
    return cur
def block(W, cls, alias):
    prims(W); pre, bs, valid, spec = SPECS[cls]; nm = f'Block.{cls}' + ('/same-buffer' if alias else '')
    st, key = W.symbuf(W.init(), 'key'); key0 = st.get(key); n = key0.len; live(W, [st.assume(valid(n)), st.assume(z3.Not(valid(n)))], nm)
    for t, k, o in new(W, st, 'Block.' + cls, pre + [key]):
        if k == 'exc':
            if is_err(o, 'Wrong_key_size'): W.prove(t, z3.Not(valid(n)), f'{nm}: Wrong_key_size only for invalid keys')
            else: W.fail(t, f'{nm}: exception', repr(o))
            continue
        W.prove(t, valid(n), f'{nm}: accepts only valid keys'); W.prove(t, z3.BoolVal(t.get(key) is key0 and not t.ghost.get('calls')), f'{nm}: key unchanged')
        for u, v in expect_vals(W, W.send(t, o, 'blocksize'), nm): W.prove(u, _z(v) == bs, f'{nm}#blocksize')
        # transform in an arbitrary reached state: cooked keys are only read
        st, src = W.symbuf(t, 'src'); dst = src
        if not alias: st, dst = W.symbuf(st, 'dst')
        st, so = W.sint(st, 'so'); st, do = W.sint(st, 'do'); s0, d0 = st.get(src), st.get(dst); ok = z3.And(_zb(bm.rng_ok(so, bs, s0.len)), _zb(bm.rng_ok(do, bs, d0.len)))
        live(W, [st.assume(ok)], nm)
        for u, kd, v in W.send(st, o, 'transform', src, so, dst, do):
            u, x = W.sint(u, 'x', 0, MAXSTR); y = u.assume(z3.And(x < _z(d0.len), z3.Or(x < do, x >= do + bs)))
            W.prove(y, W.rd(y, y.get(dst), x) == W.rd(y, d0, x), f'{nm}#transform: nothing written outside the block')
            if not alias: W.prove(u, z3.BoolVal(u.get(src) is s0), f'{nm}#transform: source unchanged')
            if kd == 'exc':
                if v.name == 'Invalid_argument': W.prove(u, z3.Not(ok), f'{nm}#transform: Invalid_argument only for invalid ranges'); W.prove(u, z3.BoolVal(u.get(dst) is d0), f'{nm}#transform: nothing written on error')
                else: W.fail(u, f'{nm}#transform: exception', repr(v))
                continue
            W.prove(u, ok, f'{nm}#transform: returns only for valid ranges')
            out = check_chain(W, u, nm, u.ghost.get('calls', ()), spec, key0, n, lambda w, j: W.rd(w, s0, simp(so + j)), bs)
            if out is None: continue
            u, j = W.sint(u, 'j', 0, bs - 1); W.prove(u, W.rd(u, u.get(dst), simp(do + j)) == out(u, j), f'{nm}#transform: destination gets the result')
        # wipe
        kids = [kk[1] for kk in t.ghost if isinstance(kk, tuple) and kk[0] == 'key']
        for u, v in expect_vals(W, W.send(t, o, 'wipe'), nm + '#wipe'):
            for i in kids:
                L = _z(u.heap[i].len); u2, j = W.sint(u, 'j', 0, MAXSTR); w = u2.assume(j < L); b = W.rd(w, u.heap[i], j)
                W.prove(w, z3.Or(b == 0, z3.And(j == L - 1, b == 14)) if cls.startswith('aes') else b == 0, f'{nm}#wipe: prepared key erased')
def stream(W, cls, alias):
    prims(W); nm = f'Stream.{cls}' + ('/same-buffer' if alias else ''); st, key = W.symbuf(W.init(), 'key'); key0 = st.get(key); n = key0.len
    variants = [()] if cls == 'arcfour' else [(i, c) for i in (False, True) for c in (False, True)]
    for va in variants:
        s1 = st; labels = []; iv0 = None; ctr = 0
        if va and va[0]: s1, iv = W.symbuf(s1, 'iv'); iv0 = s1.get(iv); labels.append(('?iv', Some(iv)))
        if va and va[1]: s1, ctr = W.sint(s1, 'ctr', -2**63, 2**63 - 1); labels.append(('?ctr', Some(I64(ctr))))
        if cls == 'arcfour': valid = z3.And(n >= 1, n <= 256); kv = valid; ivv = True
        else:
            kv = z3.Or(n == 16, n == 32); ivv = True if iv0 is None else z3.Or(iv0.len == 8, z3.And(iv0.len == 12, _z(ctr) >= 0, _z(ctr) <= 0xFFFFFFFF)); valid = z3.And(kv, ivv)
        live(W, [s1.assume(valid)], nm)
        for t, k, o in W.instantiate(s1, W.cls('Stream.' + cls), labels + [('', key)]):
            if k == 'exc':
                if is_err(o, 'Wrong_key_size'): W.prove(t, z3.Not(kv), f'{nm}: Wrong_key_size only for invalid keys')
                elif is_err(o, 'Wrong_IV_size'): W.prove(t, z3.Not(_zb(ivv)), f'{nm}: Wrong_IV_size only for invalid IVs')
                else: W.fail(t, f'{nm}: exception', repr(o))
                continue
            W.prove(t, valid, f'{nm}: accepts only valid parameters')
            kk, = [x for x in t.ghost if isinstance(x, tuple) and x[0] == 'key']; kk = t.ghost[kk]; t, j = W.sint(t, 'j', 0, MAXSTR)
            w = t.assume(j < _z(n)); W.prove(w, z3.And(_z(kk.key.len) == _z(n), W.rd(w, kk.key, j) == W.rd(w, key0, j)), f'{nm}: prepared with its key')
            if cls == 'chacha20':
                ivr, c = kk.extra; W.prove(t, z3.And(_z(c) == _z(ctr), _z(ivr.len) == (_z(iv0.len) if iv0 else 8)), f'{nm}: prepared with its iv and counter')
                w = t.assume(j < _z(ivr.len)); W.prove(w, W.rd(w, ivr, j) == (W.rd(w, iv0, j) if iv0 else chr_(0)), f'{nm}: prepared with its iv and counter')
            s2, src = W.symbuf(t, 'src'); dst = src
            if not alias: s2, dst = W.symbuf(s2, 'dst')
            s2, so = W.sint(s2, 'so'); s2, do = W.sint(s2, 'do'); s2, ln = W.sint(s2, 'len'); s0, d0 = s2.get(src), s2.get(dst); ok = z3.And(_zb(bm.rng_ok(so, ln, s0.len)), _zb(bm.rng_ok(do, ln, d0.len)))
            for u, kd, v in W.send(s2, o, 'transform', src, so, dst, do, ln):
                if kd == 'exc':
                    if v.name == 'Invalid_argument': W.prove(u, z3.Not(ok), f'{nm}#transform: Invalid_argument only for invalid ranges')
                    else: W.fail(u, f'{nm}#transform: exception', repr(v))
                    W.prove(u, z3.BoolVal(u.get(dst) is d0), f'{nm}#transform: nothing written on error'); continue
                W.prove(u, ok, f'{nm}#transform: returns only for valid ranges'); calls = u.ghost.get('calls', ())
                if len(calls) != 1 or calls[0][0] != cls: W.fail(u, f'{nm}#transform: one keystream application', ''); continue
                _, _, rec, co, f, cn = calls[0]; u, j = W.sint(u, 'j', 0, MAXSTR); w = u.assume(j < ln)
                W.prove(u, _z(cn) == ln, f'{nm}#transform: keystream advances by the length'); W.prove(w, W.rd(w, w.get(dst), simp(do + j)) == W.rd(w, s0, simp(so + j)) ^ f(j), f'{nm}#transform: input xor keystream')
                u, x = W.sint(u, 'x', 0, MAXSTR); y = u.assume(z3.And(x < _z(d0.len), z3.Or(x < do, x >= do + ln))); W.prove(y, W.rd(y, y.get(dst), x) == W.rd(y, d0, x), f'{nm}#transform: nothing written outside the range')
            kid, = [x[1] for x in t.ghost if isinstance(x, tuple) and x[0] == 'key']
            for u, v in expect_vals(W, W.send(t, o, 'wipe'), nm): u, j = W.sint(u, 'j', 0, MAXSTR); w = u.assume(j < _z(u.heap[kid].len)); W.prove(w, W.rd(w, u.heap[kid], j) == 0, f'{nm}#wipe: prepared key erased')
# ---- high-level constructors: first block, for every mode, direction and padding
MODES = [('ECB', None), ('CBC', None), (None, None), ('CFB', 1), ('CFB', 'bs'), ('OFB', 1), ('OFB', 'bs'), ('CTR', None), ('CTR_N', 1), ('CTR_N', 'bs')]
CIPH = {'aes': ('aes_encrypt', 'aes_decrypt', 16), 'blowfish': ('blowfish_encrypt', 'blowfish_decrypt', 16), 'des': ('des_encrypt', 'des_decrypt', 8), 'triple_des': ('triple_des_encrypt', 'triple_des_decrypt', 24)}
def wiring(W, fn):
    prims(W); enc, dec, kl = CIPH[fn]; bs = SPECS[enc][1]
    st0, f = W.val(W.init(), 'Cipher.' + fn)
    for mode, par in MODES:
        for dir in ('Encrypt', 'Decrypt'):
            for ivgiven in (True, False):
                nm = f'Cipher.{fn} {mode or "default"} {dir}'; n = bs if par == 'bs' else par
                st, key = W.symbuf(st0, 'key', kl); key0 = st.get(key); labels = []; iv0 = None
                if mode: labels.append(('?mode', Some(Con(mode, n if par else None))))
                if ivgiven: st, iv = W.symbuf(st, 'iv', bs); iv0 = st.get(iv); labels.append(('?iv', Some(iv)))
                blk = n if mode in ('CFB', 'OFB') else bs
                for t, o in expect_vals(W, W.apply(st, f, labels + [('', key), ('', Con(dir))]), nm):
                    cells = [W.fbv('m') for _ in range(blk)]; t, s = W.cbuf(t, cells)
                    for u, _ in expect_vals(W, W.seqmap(W.send(t, o, 'put_string', s), lambda x, _: W.send(x, o, 'finish')), nm):
                        for w, r in expect_vals(W, W.send(u, o, 'get_string'), nm):
                            IV = [W.rd(w, iv0, i) if iv0 else chr_(0) for i in range(bs)]
                            enc_only = mode in ('CFB', 'OFB', 'CTR', 'CTR_N'); cl = enc if enc_only or dir == 'Encrypt' else dec
                            md = mode or 'CBC'
                            inp = (lambda w_, j: cells_at(cells, j)) if md == 'ECB' or (md == 'CBC' and dir == 'Decrypt') else (lambda w_, j: cells_at([a ^ b for a, b in zip(cells, IV)], j)) if md == 'CBC' else (lambda w_, j: cells_at(IV, j))
                            out = check_chain(W, w, nm, w.ghost.get('calls', ()), SPECS[cl][3], key0, kl, inp, bs)
                            if out is None: continue
                            E = [out(w, i) for i in range(bs)]
                            want = E if md == 'ECB' or (md == 'CBC' and dir == 'Encrypt') else [a ^ b for a, b in zip(E, IV)] if md == 'CBC' else [a ^ b for a, b in zip(E, cells)]
                            W.prove(w, _z(w.get(r).len) == blk, f'{nm}: output length'); W.prove(w, z3.And(*[byte(W, w, r, i) == want[i] for i in range(blk)]), f'{nm}: first block')
    # padding selects the padded classes
    for dir, cl in (('Encrypt', 'cipher_padded_encrypt'), ('Decrypt', 'cipher_padded_decrypt')):
        st, key = W.symbuf(st0, 'key', kl); pad = PyObj('pad', {})
        for t, o in expect_vals(W, W.apply(st, f, [('?pad', Some(pad)), ('', key), ('', Con(dir))]), f'Cipher.{fn} padded'):
            for m in ('input_block_size', 'output_block_size'):
                w = 1 if (m[0] == 'i') == (dir == 'Encrypt') else bs
                for u, v in expect_vals(W, W.send(t, o, m), m): W.prove(u, _z(v) == w, f'Cipher.{fn} with padding {dir}: padded transform')
def cells_at(cells, j):
    e = cells[-1]
    for k in range(len(cells) - 2, -1, -1): e = z3.If(j == k, cells[k], e)
    return e
def swiring(W):
    prims(W); st0 = W.init()
    for fn in ('arcfour', 'chacha20'):
        st, f = W.val(st0, 'Cipher.' + fn); nm = 'Cipher.' + fn
        for dir in ('Encrypt', 'Decrypt'):
            s1, key = W.symbuf(st, 'key', 32); labels = []; iv0 = None; key0 = s1.get(key)
            if fn == 'chacha20': s1, iv = W.symbuf(s1, 'iv', 12); iv0 = s1.get(iv); labels = [('?iv', Some(iv)), ('?ctr', Some(I64(7)))]
            for t, o in expect_vals(W, W.apply(s1, f, labels + [('', key), ('', Con(dir))]), nm):
                c = W.fbv('c')
                for u, _ in expect_vals(W, W.send(t, o, 'put_char', c), nm):
                    for w, r in expect_vals(W, W.send(u, o, 'get_string'), nm):
                        calls = w.ghost.get('calls', ())
                        if len(calls) != 1 or calls[0][0] != fn: W.fail(w, nm + ': keystream', ''); continue
                        op, k, rec, so, ff, n = calls[0]; W.prove(w, z3.And(_z(w.get(r).len) == 1, byte(W, w, r, 0) == c ^ ff(z3.IntVal(0))), nm + ': first byte'); w, j = W.sint(w, 'j', 0, 31); W.prove(w, W.rd(w, k.key, j) == W.rd(w, key0, j), nm + ': key')
                        if iv0: w = w.assume(j < 12); W.prove(w, z3.And(W.rd(w, k.extra[0], j) == W.rd(w, iv0, j), _z(k.extra[1]) == 7), nm + ': iv and counter')
UNITS = {}
for _c in SPECS:
    for _a in (False, True): UNITS[_c.replace('_', '-') + ('-same' if _a else '')] = unit(lambda W, c=_c, a=_a: block(W, c, a))
for _c in ('arcfour', 'chacha20'):
    for _a in (False, True): UNITS[_c + ('-same' if _a else '')] = unit(lambda W, c=_c, a=_a: stream(W, c, a))
for _c in CIPH: UNITS['cipher-' + _c.replace('_', '-')] = unit(lambda W, c=_c: wiring(W, c))
UNITS['cipher-stream'] = unit(swiring)
