"""C23 (Base64), C24 (hexadecimal): every put is one step of the coder's machine, emitted text appended to the pending
output; substring, string and byte entry points feed put_char byte by byte; the machines of encoder and decoder are inverse."""
from oc import *
from oc import _z, _zb
import o_cipher
from o_cipher import Inv, cap_contract, bytes_of
B64 = b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'; HEX = b'0123456789abcdef'
KINDS = {'Base64.encode': [(True, True), (False, True), (False, False)], 'Base64.decode': [()], 'Hexa.encode': [()], 'Hexa.decode': [()]}
# ---- specification functions
def tab(t, v):
    """table lookup, v an 8-bit vector"""
    e = chr_(t[0])
    for i in range(1, len(t)): e = z3.If(v == i, chr_(t[i]), e)
    return e
def sextets(bs):
    """the 6-bit groups of 1 to 3 bytes, most significant first (RFC 4648)"""
    w = z3.Concat(*(list(bs) + [chr_(0)] * (3 - len(bs)))); n = len(bs) + 1
    return [z3.ZeroExt(2, z3.Extract(23 - 6 * i, 18 - 6 * i, w)) for i in range(n)]
def val64(c):
    """-> (value, is in the alphabet)"""
    v = chr_(0); ok = z3.BoolVal(False)
    for i, x in enumerate(B64): v = z3.If(c == x, chr_(i), v); ok = z3.Or(ok, c == x)
    return v, ok
def valhex(c):
    v = chr_(0); ok = z3.BoolVal(False)
    for i in range(16):
        for x in {HEX[i], HEX[i:i+1].upper()[0]}: v = z3.If(c == x, chr_(i), v); ok = z3.Or(ok, c == x)
    return v, ok
def blank(c): return z3.Or(c == 32, c == 9, c == 10, c == 13)
def unsext(vs):
    """bytes encoded by 2 to 4 sextets"""
    w = z3.Concat(*[z3.Extract(5, 0, v) for v in vs] + [z3.BitVecVal(0, 6)] * (4 - len(vs)))
    return [z3.Extract(23 - 8 * i, 16 - 8 * i, w) for i in range(len(vs) - 1)]
# ---- states
def mk(W, kind, args=None):
    args = KINDS[kind][0] if args is None else args
    st = W.init().g(N=0, D=0, F=0); (st, o), = expect_vals(W, new(W, st, kind, list(args)), kind)
    inv = Inv(o, None, False); inv.check(W, st, f'{kind}: invariant established by construction'); cap_contract(W)
    chk0(W, st, o, kind)
    st, D = W.sint(st, 'D', 0, 2**70); st = st.gset('D', D); st = inv.havoc(W, st, False); live(W, [st], kind)
    return st, o, inv, None
def chk0(W, st, o, kind):
    if kind != 'Hexa.encode': W.prove(st, _z(W.fld(st, o, 'ipos')) == 0, f'{kind}: starts with no pending input')
    if kind == 'Base64.encode': W.prove(st, _z(W.fld(st, o, 'ocolumn')) == 0, f'{kind}: starts at column 0')
    if kind == 'Base64.decode': W.prove(st, z3.Not(_zb(W.fld(st, o, 'finished'))), f'{kind}: starts unfinished')
def state(W, kind, args, ip, fin=False):
    """arbitrary reached state with ip pending input items -> st, o, inv, pending values, column"""
    st, o, inv, _ = mk(W, kind, args); pend = []; col = 0
    if kind == 'Base64.encode':
        W.fld(st, o, 'ipos'); st = W.setfield(st, o, 'ipos', ip); cells = [W.fbv('ib') for _ in range(3)]; pend = cells[:ip]; st = st.put(W.fld(st, o, 'ibuf'), Buf(3, cells=tuple(cells)))
        W.fld(st, o, 'ocolumn')
        if args[0]: st, q = W.sint(st, 'col4', 0, 17); col = simp(4 * q)
        else: st, col = W.sint(st, 'col')
        st = W.setfield(st, o, 'ocolumn', col)
    elif kind != 'Hexa.encode':
        w = 6 if kind[0] == 'B' else 4; W.fld(st, o, 'ipos'); st = W.setfield(st, o, 'ipos', ip); n = 4 if w == 6 else 2; pend = []; vs = []
        for i in range(n):
            x = W.fbv('v', 63); st = st.assume(z3.ULT(x, 2**w)); vs.append(x); pend.append(z3.Extract(7, 0, x))
        pend = pend[:ip]; st = st.put(W.fld(st, o, 'ibuf'), Arr(tuple(vs)))
        if w == 6: W.fld(st, o, 'finished'); st = W.setfield(st, o, 'finished', fin)
    return st, o, inv, pend, col
def out_is(W, t, o, nm, st, emitted):
    """pending output = old pending output followed by emitted"""
    N, D = st.ghost['N'], st.ghost['D']; b, e, r = _z(W.fld(t, o, 'obeg')), _z(W.fld(t, o, 'oend')), W.fld(t, o, 'obuf'); n = simp(_z(N) - _z(D)); m = len(emitted)
    W.prove(t, z3.And(b >= 0, e - b == n + m, e <= _z(t.get(r).len)), f'{nm}: emits {m} bytes')
    t, k = W.sint(t, 'k', 0, MAXSTR); u = t.assume(k < n); W.prove(u, W.rd(u, u.get(r), simp(b + k)) == o_cipher.OUT(simp_z(_z(D) + k)), f'{nm}: earlier output unchanged')
    for i, x in enumerate(emitted): W.prove(t, W.rd(t, t.get(r), simp(b + n + i)) == x, f'{nm}: emitted text')
def pend_is(W, t, o, nm, kind, want):
    if kind == 'Hexa.encode': return
    W.prove(t, _z(bm.toint(W.fld(t, o, 'ipos'))) == len(want), f'{nm}: pending input'); ib = t.get(W.fld(t, o, 'ibuf'))
    for i, x in enumerate(want):
        if isinstance(ib, Arr): v = ib.vs[i]; W.prove(t, (v if is_bv(v) else z3.Int2BV(_z(v), 63)) == z3.ZeroExt(55, x), f'{nm}: pending input')
        else: W.prove(t, W.rd(t, ib, i) == x, f'{nm}: pending input')
OKEXC = lambda v: is_err(v, 'Output_buffer_overflow')
def put_char(W, kind, args):
    fins = (False, True) if kind == 'Base64.decode' else (False,)
    for ip in range({'Base64.encode': 3, 'Base64.decode': 4, 'Hexa.encode': 1, 'Hexa.decode': 2}[kind]):
        for fin in fins:
            st, o, inv, pend, col = state(W, kind, args, ip, fin); c = W.fbv('c'); nm = f'{kind}{args or ""}#put_char'
            for t, k, v in W.send(st, o, 'put_char', c):
                if k == 'exc' and OKEXC(v): continue
                if kind == 'Base64.encode':
                    if k == 'exc': W.fail(t, f'{nm}: no exception', repr(v)); continue
                    nxt = pend + [c]; em = []; ncol = _z(col)
                    if len(nxt) == 3:
                        em = [tab(B64, x) for x in sextets(nxt)]; nxt = []; ncol = _z(col) + 4
                        if args[0]:
                            if W.entails(t, ncol == 72): em.append(chr_(10)); ncol = z3.IntVal(0)
                            elif W.may(t, ncol == 72): W.obs.append((f'{nm}: line length decided', 'unproved', 'a path covers both a full and a partial line', None))
                    out_is(W, t, o, nm, st, em); pend_is(W, t, o, nm, kind, nxt)
                    if args[0]: W.prove(t, _z(W.fld(t, o, 'ocolumn')) == ncol, f'{nm}: column')
                elif kind == 'Hexa.encode':
                    if k == 'exc': W.fail(t, f'{nm}: no exception', repr(v)); continue
                    out_is(W, t, o, nm, st, [tab(HEX, z3.LShR(c, 4)), tab(HEX, c & 15)])
                else:
                    b64 = kind == 'Base64.decode'; val, alpha = (val64 if b64 else valhex)(c); eq = c == 61 if b64 else z3.BoolVal(False)
                    if k == 'exc':
                        W.prove(t, z3.Or(z3.And(z3.Not(alpha), z3.Not(blank(c)), z3.Not(eq)), z3.And(alpha, z3.BoolVal(fin))) if is_err(v, 'Bad_encoding') else z3.BoolVal(False), f'{nm}: bad-encoding error exactly for characters not allowed here'); continue
                    W.prove(t, z3.Or(eq, blank(c), z3.And(alpha, z3.BoolVal(not fin))), f'{nm}: accepts only the alphabet and blanks')
                    if b64: W.prove(t, _zb(W.fld(t, o, 'finished')) == (eq if not fin else z3.BoolVal(True)), f'{nm}: only = ends the data')
                    u = t.assume(z3.And(alpha)); w = t.assume(z3.Not(alpha))
                    if W.feasible(w): out_is(W, w, o, nm, st, []); pend_is(W, w, o, nm, kind, pend)
                    if W.feasible(u):
                        nxt = pend + [val]; em = []
                        if len(nxt) == (4 if b64 else 2): em = unsext(nxt) if b64 else [z3.Concat(z3.Extract(3, 0, nxt[0]), z3.Extract(3, 0, nxt[1]))]; nxt = []
                        out_is(W, u, o, nm, st, em); pend_is(W, u, o, nm, kind, nxt)
def finish(W, kind, args):
    for ip in range({'Base64.encode': 3, 'Base64.decode': 4, 'Hexa.encode': 1, 'Hexa.decode': 2}[kind]):
        for m in ('finish', 'flush'):
            st, o, inv, pend, col = state(W, kind, args, ip); nm = f'{kind}{args or ""}#{m}'
            for t, k, v in W.send(st, o, m):
                if k == 'exc' and OKEXC(v): continue
                if m == 'flush':
                    if kind[0] == 'B': W.prove(t, z3.BoolVal(k == 'exc' and is_err(v, 'Wrong_data_length')), f'{nm}: not available'); continue
                    if k == 'exc': W.prove(t, z3.BoolVal(is_err(v, 'Wrong_data_length') and ip != 0), f'{nm}: error only with pending input'); continue
                    W.prove(t, z3.BoolVal(ip == 0), f'{nm}: returns only without pending input'); out_is(W, t, o, nm, st, []); continue
                if kind == 'Base64.encode':
                    if k == 'exc': W.fail(t, f'{nm}: no exception', repr(v)); continue
                    em = [tab(B64, x) for x in sextets(pend)] if pend else []; ml, pd = args
                    if pend and pd: em += [chr_(61)] * (3 - len(pend))
                    if ml:
                        # the last line ends with a newline
                        if W.entails(t, _z(col) > 0): em = em + [chr_(10)]
                        elif W.may(t, _z(col) > 0): W.obs.append((f'{nm}: end of line decided', 'unproved', '', None))
                    out_is(W, t, o, nm, st, em); 
                elif kind == 'Base64.decode':
                    if k == 'exc': W.prove(t, z3.BoolVal(is_err(v, 'Bad_encoding') and ip == 1), f'{nm}: bad-encoding error only for a truncated group'); continue
                    W.prove(t, z3.BoolVal(ip != 1), f'{nm}: rejects a truncated group'); out_is(W, t, o, nm, st, unsext(pend) if ip >= 2 else [])
                elif kind == 'Hexa.encode':
                    W.prove(t, z3.BoolVal(k == 'val'), f'{nm}: no exception'); out_is(W, t, o, nm, st, [])
                else:
                    if k == 'exc': W.prove(t, z3.BoolVal(is_err(v, 'Bad_encoding') and ip == 1), f'{nm}: bad-encoding error only for an odd number of digits'); continue
                    W.prove(t, z3.BoolVal(ip == 0), f'{nm}: rejects an odd number of digits'); out_is(W, t, o, nm, st, [])
def feed(W, kind, args):
    """put_substring, put_string, put_byte call put_char once per byte, in order"""
    st0, o, inv, _ = mk(W, kind, args); st0 = st0.g(P=0); cls = kind.split('.')[1]; SRC = z3.Function('SRC', Int, BV8)
    def log(W, st, a, o):
        P = st.ghost['P']; W.prove(st, a[0] == SRC(simp_z(_z(P))), f'{kind}: put_char gets the bytes in order')
        st = st.gset('P', simp(_z(P) + 1)); return [(st, 'val', UNIT), (st, 'exc', Con('CoderException'))]
    def logb(W, st, a, o):
        P = st.ghost['P']; b = a[0]; b = bm.toint(b) if is_bv(b) else _z(b); W.prove(st, b == z3.BV2Int(SRC(simp_z(_z(P)))), f'{kind}: put_byte gets the bytes in order')
        st = st.gset('P', simp(_z(P) + 1)); return [(st, 'val', UNIT), (st, 'exc', Con('CoderException'))]
    W.over[f'{cls}#put_byte' if kind == 'Hexa.encode' else f'{cls}#put_char'] = Bi('put', 1, logb if kind == 'Hexa.encode' else log)
    nm = f'{kind}#put_substring'; st, n = W.sint(st0, 'len'); st, ofs = W.sint(st, 'ofs'); st, L = W.sint(st, 'src.len', 0, MAXSTR); st, src = W.fnbuf(st, L, lambda i: SRC(simp_z(_z(i) - ofs))); s0 = st.get(src)
    ok = _zb(bm.rng_ok(ofs, n, s0.len)); live(W, [st.assume(ok), st.assume(z3.Not(ok))], nm)
    def extra(W, stx, st_0, tv, written):
        d = {l: (_z(c), _z(e)) for l, c, e in tv if is_int(c)}; a = d.get(('slot', 0)); g = d.get(('ghost', 'P'))
        if a is None or g is None: return []
        return [('started', z3.Or(z3.And(a[0] == a[1], g[0] == g[1]), z3.And(a[1] >= 0, a[0] <= _z(s0.len)))), ('inside', z3.Or(z3.And(a[0] == a[1], g[0] == g[1]), z3.And(n > 0, a[0] <= a[1] + n)))]
    W.extra = extra
    for t, k, v in W.send(st, o, 'put_substring', src, ofs, n):
        W.prove(t, z3.BoolVal(t.get(src) is s0), f'{nm}: source unchanged')
        if k == 'exc':
            if v.name == 'Invalid_argument': W.prove(t, z3.Not(ok), f'{nm}: Invalid_argument only for an invalid range')
            elif v.name != 'CoderException': W.fail(t, f'{nm}: exception', repr(v))
            continue
        W.prove(t.assume(ok), _z(t.ghost['P']) == n, f'{nm}: every byte of the range is put once'); W.prove(t.assume(z3.Not(ok)), _z(t.ghost['P']) == 0, f'{nm}: nothing is put for an invalid range')
    W.extra = None
    nm = f'{kind}#put_string'; st, n = W.sint(st0, 'len', 0, MAXSTR); st, src = bytes_of(W, st, 'src', lambda k: SRC(simp_z(_z(k))), 0, n, n)
    for t, v in expect_vals(W, W.send(st, o, 'put_string', src), nm, [lambda st, v: v.name == 'CoderException']): W.prove(t, _z(t.ghost['P']) == n, f'{nm}: every byte is put once')
    if kind == 'Hexa.encode':
        nm = f'{kind}#put_char'; c = W.fbv('c'); st = st0.assume(c == SRC(z3.IntVal(0)))
        for t, v in expect_vals(W, W.send(st, o, 'put_char', c), nm, [lambda st, v: v.name == 'CoderException']): W.prove(t, _z(t.ghost['P']) == 1, f'{nm}: the byte is put once')
    else:
        nm = f'{kind}#put_byte'; st, b = W.sint(st0, 'b'); st = st.assume(z3.Implies(z3.And(b >= 0, b < 256), b == z3.BV2Int(SRC(z3.IntVal(0)))))
        for t, k, v in W.send(st, o, 'put_byte', b):
            if k == 'exc':
                if v.name == 'Invalid_argument': W.prove(t, z3.Not(z3.And(b >= 0, b < 256)), f'{nm}: Invalid_argument only for what is not a byte')
                elif v.name != 'CoderException': W.fail(t, nm, repr(v))
                continue
            W.prove(t, z3.And(b >= 0, b < 256, _z(t.ghost['P']) == 1), f'{nm}: the byte is put once')
def misc(W, kind, args):
    st, o, inv, pend, col = state(W, kind, args, 0)
    for m in ('input_block_size', 'output_block_size'):
        for t, v in expect_vals(W, W.send(st, o, m), m): W.prove(t, _z(v) == 1, f'{kind}#{m}')
    for t, v in expect_vals(W, W.send(st, o, 'wipe'), kind + '#wipe'):
        t, j = W.sint(t, 'j', 0, MAXSTR)
        for f in ('ibuf', 'obuf'):
            if kind == 'Hexa.encode' and f == 'ibuf': continue
            rec = t.get(W.fld(st, o, f))
            if isinstance(rec, Arr): W.prove(t, z3.And(*[(_z(bm.toint(x)) if is_bv(x) else _z(x)) == 0 for x in rec.vs]), f'{kind}#wipe: {f} erased')
            else: u = t.assume(j < _z(rec.len)); W.prove(u, W.rd(u, rec, j) == 0, f'{kind}#wipe: {f} erased')
def makers(W):
    """the public constructors: same objects as the classes, with the documented settings"""
    for fn, ml, pd in (('encode_multiline', True, True), ('encode_compact', False, False), ('encode_compact_pad', False, True)):
        st, f = W.val(W.init(), 'Base64.' + fn)
        seen = []
        for t, v in expect_vals(W, W.call(st, f, UNIT), fn):
            cap_contract(W)
            # two bytes, then finish: padding and newline as documented
            outs = [t]
            for c in (0x66, 0x6f): outs = [u for x in outs for u, _ in expect_vals(W, W.send(x, v, 'put_char', chr_(c)), fn, [lambda s_, e: OKEXC(e)])]
            for u in outs:
                for u2, _ in expect_vals(W, W.send(u, v, 'finish'), fn, [lambda s_, e: OKEXC(e)]):
                    b, e, r = _z(W.fld(u2, v, 'obeg')), _z(W.fld(u2, v, 'oend')), W.fld(u2, v, 'obuf'); want = b'Zm8' + (b'=' if pd else b'')
                    W.prove(u2, e - b == len(want), f'{fn}: text of "fo"'); W.prove(u2, z3.And(*[W.rd(u2, u2.get(r), simp(b + i)) == x for i, x in enumerate(want)]), f'{fn}: text of "fo"')
            # 18 groups: a line is full
            W.fld(t, v, 'ipos'); W.fld(t, v, 'ocolumn'); x = W.setfield(W.setfield(t, v, 'ipos', 2), v, 'ocolumn', 68)
            for u, _ in expect_vals(W, W.send(x, v, 'put_char', chr_(0)), fn, [lambda s_, e: OKEXC(e)]): W.prove(u, _z(W.fld(u, v, 'oend')) - _z(W.fld(u, v, 'obeg')) == (5 if ml else 4), f'{fn}: lines')
def lemma64(W):
    st = W.init(); bs = [W.fbv('b') for _ in range(3)]
    for n in (1, 2, 3):
        cs = [tab(B64, x) for x in sextets(bs[:n])]; vs = [val64(c) for c in cs]
        for j in range(0, n + 1):
            W.prove(st, z3.And(vs[j][1], vs[j][0] == sextets(bs[:n])[j], z3.Not(blank(cs[j])), cs[j] != 61), 'decoding a letter inverts encoding it')
        W.prove(st, z3.And(*[a == b for a, b in zip(unsext(sextets(bs[:n])), bs)]), 'joining the sextets of a group gives its bytes')
def lemmahex(W):
    st = W.init(); b = W.fbv('b'); hi, lo = tab(HEX, z3.LShR(b, 4)), tab(HEX, b & 15); (vh, a), (vl, c) = valhex(hi), valhex(lo)
    W.prove(st, z3.And(a, c, z3.Not(blank(hi)), z3.Not(blank(lo)), z3.Concat(z3.Extract(3, 0, vh), z3.Extract(3, 0, vl)) == b), 'decoding two digits inverts encoding a byte')
def makers2(W):
    for path, cl in (('Base64.decode', 'Base64.decode'), ('Hexa.encode', 'Hexa.encode'), ('Hexa.decode', 'Hexa.decode')):
        st, f = W.val(W.init(), path); want = W.cls(cl)
        for t, v in expect_vals(W, W.call(st, f, UNIT), path):
            (u, _, o), = [x for x in W.instantiate(t, want, []) if x[1] == 'val']; a, b = t.get(v), u.get(o)
            W.prove(t, z3.BoolVal(a.cls == b.cls and a.methods.keys() == b.methods.keys() and all(a.methods[m][0] is b.methods[m][0] if isinstance(a.methods[m], tuple) else True for m in a.methods)), f'{path}: an object of the class')
UNITS = {'makers-other': unit(makers2), 'lemma-base64': unit(lemma64), 'lemma-hexa': unit(lemmahex), 'makers-base64': unit(makers)}
for _k, _as in KINDS.items():
    _n = _k.lower().replace('.', '-')
    for _i, _a in enumerate(_as):
        _m = _n + (('-multiline', '-pad', '-compact')[_i] if len(_as) > 1 else '')
        UNITS[_m + '-put-char'] = unit(lambda W, k=_k, a=_a: put_char(W, k, a)); UNITS[_m + '-finish'] = unit(lambda W, k=_k, a=_a: finish(W, k, a))
    UNITS[_n + '-feed'] = unit(lambda W, k=_k, a=_as[0]: feed(W, k, a)); UNITS[_n + '-get'] = unit(lambda W, k=_k: o_cipher.gets(W, k, mk)); UNITS[_n + '-misc'] = unit(lambda W, k=_k, a=_as[0]: misc(W, k, a))
