"""C09 (compose), C29 (transform/hash combinators, authenticated helpers), C31 (string and channel helpers), C27.
Collaborators by contract, over abstract streams: a transform named T consumes T.IN(0), T.IN(1), ... and produces
T.OUT(0), ...; ghosts T.P bytes consumed, T.Q bytes produced, T.D bytes drained, T.fin finished, T.wiped."""
from oc import *
from oc import _z, _zb
import o_cipher
BIG = 2**70
def S(n): return z3.Function(n, Int, BV8)
EXC = Con('CollaboratorException')
def transform(W, T, IN, OUT, auth=False):
    g = lambda st, k: st.ghost[f'{T}.{k}']
    def alive(W, st, m):
        W.prove(st, z3.BoolVal(not g(st, 'wiped')), f'{T}#{m}: not used after wipe')
        if m.startswith('put') or m in ('flush', 'finish', 'finish_and_get_tag'): W.prove(st, z3.BoolVal(not g(st, 'fin')), f'{T}#{m}: not after finish')
    def more(W, st):
        st, q = W.sint(st, 'produced', 0, BIG); st = st.assume(q >= _z(g(st, 'Q'))); return st.gset(f'{T}.Q', q)
    def absorb(W, st, n, at):
        P = _z(g(st, 'P')); st2, j = W.sint(st, 'j', 0, MAXSTR); u = st2.assume(j < _z(n)); W.prove(u, at(u, j) == IN(simp_z(P + j)), f'{T} receives the right bytes in order')
        ex = (st, 'exc', EXC); st = more(W, st.gset(f'{T}.P', simp_z(P + _z(n)))); return [(st, 'val', UNIT), ex]
    def put_substring(W, st, a):
        b, o, n = a; alive(W, st, 'put_substring'); rec = bm.B(W, st, b); o, n = bm.toint(o), bm.toint(n)
        return bm.guard(W, st, bm.rng_ok(o, n, rec.len), lambda t: absorb(W, t, n, lambda u, j: W.rd(u, rec, simp(_z(o) + j))))
    def put_string(W, st, a): alive(W, st, 'put_string'); rec = st.get(a[0]); return absorb(W, st, rec.len, lambda u, j: W.rd(u, rec, j))
    def put_char(W, st, a): alive(W, st, 'put_char'); return absorb(W, st, 1, lambda u, j: a[0])
    def put_byte(W, st, a): alive(W, st, 'put_byte'); b = bm.tobv(a[0]) if hasattr(bm, 'tobv') else a[0]; b = b if is_bv(b) else z3.BitVecVal(b, 63); return absorb(W, st, 1, lambda u, j: z3.Extract(7, 0, b))
    def flush(W, st, a): alive(W, st, 'flush'); return [(more(W, st).gset(f'{T}.flushed', _z(g(st, 'P'))), 'val', UNIT), (st, 'exc', EXC)]
    def finish(W, st, a): alive(W, st, 'finish'); return [(more(W, st).gset(f'{T}.fin', True), 'val', UNIT), (st, 'exc', EXC)]
    def buffer(W, st, extra):
        D, Q = _z(g(st, 'D')), _z(g(st, 'Q')); n = simp(Q - D); st = st.assume(z3.And(Q >= D, _z(n) <= MAXSTR)); o = 0
        if extra: st, o = W.sint(st, 'gofs', 0, MAXSTR); st, L = W.sint(st, 'glen', 0, MAXSTR); st = st.assume(o + _z(n) <= L)
        else: L = n
        st, r = o_cipher.bytes_of(W, st, T + '.obuf', lambda k: OUT(simp_z(D + k)), o, n, L); return st.gset(f'{T}.D', simp_z(Q)), r, o, n
    def get_substring(W, st, a): alive(W, st, 'get_substring'); st, r, o, n = buffer(W, st, True); return [(st, 'val', (r, o, n))]
    def get_string(W, st, a): alive(W, st, 'get_string'); st, r, o, n = buffer(W, st, False); return [(st, 'val', r)]
    def get_char(W, st, a):
        alive(W, st, 'get_char'); D, Q = _z(g(st, 'D')), _z(g(st, 'Q')); return bm.guard(W, st, D < Q, lambda t: [(t.gset(f'{T}.D', simp_z(D + 1)), 'val', OUT(D))], exc=Con('End_of_file'))
    def get_byte(W, st, a):
        alive(W, st, 'get_byte'); D, Q = _z(g(st, 'D')), _z(g(st, 'Q')); return bm.guard(W, st, D < Q, lambda t: [(t.gset(f'{T}.D', simp_z(D + 1)), 'val', z3.ZeroExt(55, OUT(D)))], exc=Con('End_of_file'))
    def avail(W, st, a): return [(st, 'val', simp(_z(g(st, 'Q')) - _z(g(st, 'D'))))]
    def wipe(W, st, a): return [(st.gset(f'{T}.wiped', True), 'val', UNIT)]
    ms = dict(put_substring=(3, put_substring), put_string=(1, put_string), put_char=(1, put_char), put_byte=(1, put_byte), flush=(0, flush), finish=(0, finish), available_output=(0, avail), get_string=(0, get_string), get_substring=(0, get_substring),
              get_char=(0, get_char), get_byte=(0, get_byte), wipe=(0, wipe), input_block_size=(0, lambda W, st, a: [(st, 'val', z3.Int(T + '.ibs'))]), output_block_size=(0, lambda W, st, a: [(st, 'val', z3.Int(T + '.obs'))]))
    if auth:
        TAG = S(T + '.TAG'); TL = z3.Int(T + '.taglen')
        def tag(W, st, a): (st, _, _), ex = finish(W, st, a); st, r = W.fnbuf(st, TL, lambda i: TAG(i)); return [(st, 'val', r), ex]
        ms.update(finish_and_get_tag=(0, tag), tag_size=(0, lambda W, st, a: [(st, 'val', TL)])); del ms['finish'], ms['flush']
    return PyObj(T, ms)
def tinit(st, T, P=0, Q=0, D=0): return st.g(**{f'{T}.P': P, f'{T}.Q': Q, f'{T}.D': D, f'{T}.fin': False, f'{T}.wiped': False, f'{T}.flushed': -1})
def tany(W, st, T, drained=True):
    st, P = W.sint(st, T + '.P', 0, BIG); st, Q = W.sint(st, T + '.Q', 0, BIG); D = Q
    if not drained: st, D = W.sint(st, T + '.D', 0, BIG); st = st.assume(z3.And(D <= Q, Q - D <= MAXSTR))
    return tinit(st, T, P, Q, D)
def hasher(W, H, IN):
    def absorb(W, st, n, at):
        W.prove(st, z3.BoolVal(not st.ghost[H + '.wiped']), f'{H}: not used after wipe'); W.prove(st, z3.BoolVal(not st.ghost[H + '.done']), f'{H}: not used after result')
        P = _z(st.ghost[H + '.P']); st2, j = W.sint(st, 'j', 0, MAXSTR); u = st2.assume(j < _z(n)); W.prove(u, at(u, j) == IN(simp_z(P + j)), f'{H} receives the right bytes in order'); return [(st.gset(H + '.P', simp_z(P + _z(n))), 'val', UNIT)]
    def add_substring(W, st, a):
        b, o, n = a; rec = bm.B(W, st, b); o, n = bm.toint(o), bm.toint(n); return bm.guard(W, st, bm.rng_ok(o, n, rec.len), lambda t: absorb(W, t, n, lambda u, j: W.rd(u, rec, simp(_z(o) + j))))
    def add_string(W, st, a): rec = st.get(a[0]); return absorb(W, st, rec.len, lambda u, j: W.rd(u, rec, j))
    def add_byte(W, st, a): b = bm.tobv(a[0]); b = b if is_bv(b) else z3.BitVecVal(b, 63); return absorb(W, st, 1, lambda u, j: z3.Extract(7, 0, b))
    def result(W, st, a):
        W.prove(st, z3.BoolVal(not st.ghost[H + '.wiped'] and not st.ghost[H + '.done']), f'{H}#result: once, before wipe'); f = S(H + '.RES'); st, r = W.fnbuf(st, z3.Int(H + '.size'), lambda i: f(i)); return [(st.gset(H + '.done', True), 'val', r)]
    return PyObj(H, dict(add_substring=(3, add_substring), add_string=(1, add_string), add_char=(1, lambda W, st, a: absorb(W, st, 1, lambda u, j: a[0])), add_byte=(1, add_byte), result=(0, result), wipe=(0, lambda W, st, a: [(st.gset(H + '.wiped', True), 'val', UNIT)]), hash_size=(0, lambda W, st, a: [(st, 'val', z3.Int(H + '.size'))])))
def hinit(st, H, P=0): return st.g(**{H + '.P': P, H + '.done': False, H + '.wiped': False})
def sizes(st):
    for x in ('H.size', 'A.taglen'): st = st.assume(z3.And(z3.Int(x) >= 0, z3.Int(x) <= 4096))
    return st
def inputs(W, st, IN, P):
    """the four ways to supply input starting at byte P of stream IN: -> (method, args, length, valid, st)"""
    s, n = W.sint(st, 'len'); s, o = W.sint(s, 'ofs'); s, b = o_cipher.bytes_of(W, s, 'src', lambda k: IN(simp_z(P + k)), o, n); yield 'put_substring', [b, o, n], n, _zb(bm.rng_ok(o, n, s.get(b).len)), s
    s, n = W.sint(st, 'len', 0, MAXSTR); s, b = o_cipher.bytes_of(W, s, 'src', lambda k: IN(simp_z(P + k)), 0, n, n); yield 'put_string', [b], n, z3.BoolVal(True), s
    c = W.fbv('c'); yield 'put_char', [c], z3.IntVal(1), z3.BoolVal(True), st.assume(c == IN(simp_z(_z(P))))
    c = z3.BitVec('b', 63); yield 'put_byte', [c], z3.IntVal(1), z3.BoolVal(True), st.assume(z3.Extract(7, 0, c) == IN(simp_z(_z(P))))
def outcome(W, t, k, v, nm, valid):
    if k != 'exc': return True
    if v.name == 'Invalid_argument': W.prove(t, z3.Not(valid), f'{nm}: Invalid_argument only for an invalid range')
    elif v is not EXC and not is_err(v, 'Output_buffer_overflow'): W.fail(t, f'{nm}: exception', repr(v))
    return False
def gets_same(W, st, o, nm, T, OUT):
    """output methods deliver the output of T"""
    D, Q = _z(st.ghost[T + '.D']), _z(st.ghost[T + '.Q'])
    for t, v in expect_vals(W, W.send(st, o, 'available_output'), nm): W.prove(t, _z(v) == Q - D, f'{nm}#available_output')
    for t, v in expect_vals(W, W.send(st, o, 'get_string'), nm): t, k = W.sint(t, 'k', 0, MAXSTR); u = t.assume(k < Q - D); W.prove(t, z3.And(_z(t.get(v).len) == Q - D, _z(t.ghost[T + '.D']) == Q), f'{nm}#get_string: all pending output'); W.prove(u, byte(W, u, v, k) == OUT(simp_z(D + k)), f'{nm}#get_string: bytes in order')
    for t, (b, of, n) in expect_vals(W, W.send(st, o, 'get_substring'), nm): t, k = W.sint(t, 'k', 0, MAXSTR); u = t.assume(k < Q - D); W.prove(t, z3.And(_z(n) == Q - D, _z(t.ghost[T + '.D']) == Q), f'{nm}#get_substring: all pending output'); W.prove(u, byte(W, u, b, simp(_z(of) + k)) == OUT(simp_z(D + k)), f'{nm}#get_substring: bytes in order')
    for m in ('get_char', 'get_byte'):
        for t, k, v in W.send(st, o, m):
            if k == 'exc':
                if v.name == 'End_of_file': W.prove(t, Q == D, f'{nm}#{m}: End_of_file only without output')
                else: W.fail(t, nm, repr(v))
            else: W.prove(t, z3.And((v if m == 'get_char' else z3.Extract(7, 0, v)) == OUT(simp_z(D)), _z(t.ghost[T + '.D']) == D + 1), f'{nm}#{m}: next byte')
def compose(W):
    nm = 'compose'; I1, M, O2 = S('IN'), S('MID'), S('OUT'); a, b = transform(W, 'A', I1, M), transform(W, 'B', M, O2)
    st = tinit(tinit(W.init(), 'A'), 'B'); st, f = W.val(st, 'compose')
    for t, o in expect_vals(W, W.call(st, f, a, b), nm):
        W.prove(t, z3.And(*[_z(t.ghost[x]) == 0 for x in ('A.P', 'B.P')]), f'{nm}: starts empty')
        for m, w in (('input_block_size', 'A.ibs'), ('output_block_size', 'B.obs')):
            for u, v in expect_vals(W, W.send(t, o, m), nm): W.prove(u, _z(v) == z3.Int(w), f'{nm}#{m}')
        t = tany(W, t, 'A'); st0 = tany(W, t, 'B', False); st0 = st0.gset('B.P', st0.ghost['A.D']); P = st0.ghost['A.P']; live(W, [st0], nm)
        inv = lambda u: z3.And(_z(u.ghost['A.D']) == _z(u.ghost['A.Q']), _z(u.ghost['B.P']) == _z(u.ghost['A.D']), _z(u.ghost['B.D']) == _z(st0.ghost['B.D']))
        for m, args, n, valid, s in inputs(W, st0, I1, P):
            for u, k, v in W.send(s, o, m, *args):
                if not outcome(W, u, k, v, f'{nm}#{m}', valid): continue
                W.prove(u, z3.And(valid, _z(u.ghost['A.P']) == P + n), f'{nm}#{m}: the first transform gets exactly the input'); W.prove(u, inv(u), f'{nm}#{m}: its output goes to the second')
        for m in ('flush', 'finish'):
            for u, k, v in W.send(st0, o, m):
                if not outcome(W, u, k, v, f'{nm}#{m}', z3.BoolVal(True)): continue
                W.prove(u, z3.And(inv(u), _z(u.ghost['A.P']) == P), f'{nm}#{m}: all output of the first goes to the second')
                if m == 'finish': W.prove(u, z3.BoolVal(u.ghost['A.fin'] and u.ghost['B.fin']), f'{nm}#finish: finishes both')
                else: W.prove(u, z3.And(z3.BoolVal(not u.ghost['A.fin'] and not u.ghost['B.fin']), _z(u.ghost['A.flushed']) == P, _z(u.ghost['B.flushed']) == _z(u.ghost['B.P'])), f'{nm}#flush: flushes both, in order')
        gets_same(W, st0, o, nm, 'B', O2)
        for u, v in expect_vals(W, W.send(st0, o, 'wipe'), nm): W.prove(u, z3.BoolVal(u.ghost['A.wiped'] and u.ghost['B.wiped']), f'{nm}#wipe: wipes both')
def and_hash(W):
    nm = 'transform_and_hash'; I, O = S('IN'), S('OUT'); a, h = transform(W, 'A', I, O), hasher(W, 'H', I); st = sizes(hinit(tinit(W.init(), 'A'), 'H')); st, f = W.val(st, nm)
    for t, o in expect_vals(W, W.call(st, f, a, h), nm):
        hdr(W, t, o, nm); st0 = tany(W, t, 'A', False); st0 = st0.gset('H.P', st0.ghost['A.P']); P = st0.ghost['A.P']; live(W, [st0], nm)
        for m, args, n, valid, s in inputs(W, st0, I, P):
            for u, k, v in W.send(s, o, m, *args):
                if outcome(W, u, k, v, f'{nm}#{m}', valid): W.prove(u, z3.And(valid, _z(u.ghost['A.P']) == P + n, _z(u.ghost['H.P']) == P + n), f'{nm}#{m}: transform and hash get exactly the input')
        fin_tag(W, st0, o, nm, lambda u: _z(u.ghost['H.P']) == P); gets_same(W, st0, o, nm, 'A', O); wiped(W, st0, o, nm)
def hdr(W, t, o, nm):
    for m, w in (('input_block_size', 'A.ibs'), ('output_block_size', 'A.obs'), ('tag_size', 'H.size')):
        for u, v in expect_vals(W, W.send(t, o, m), nm): W.prove(u, _z(v) == z3.Int(w), f'{nm}#{m}')
def fin_tag(W, st0, o, nm, ok):
    for u, k, v in W.send(st0, o, 'finish_and_get_tag'):
        if not outcome(W, u, k, v, f'{nm}#finish_and_get_tag', z3.BoolVal(True)): continue
        W.prove(u, z3.BoolVal(u.ghost['A.fin'] and u.ghost['H.done']), f'{nm}#finish_and_get_tag: transform finished'); W.prove(u, ok(u), f'{nm}#finish_and_get_tag: everything hashed')
        u, k = W.sint(u, 'k', 0, MAXSTR); W.prove(u, _z(u.get(v).len) == z3.Int('H.size'), f'{nm}: tag length'); w = u.assume(k < z3.Int('H.size')); W.prove(w, byte(W, w, v, k) == S('H.RES')(k), f'{nm}: tag is the hash')
def wiped(W, st0, o, nm):
    for u, v in expect_vals(W, W.send(st0, o, 'wipe'), nm): W.prove(u, z3.BoolVal(u.ghost['A.wiped'] and u.ghost['H.wiped']), f'{nm}#wipe: wipes both')
def then_hash(W):
    nm = 'transform_then_hash'; I, O = S('IN'), o_cipher.OUT; a, h = transform(W, 'A', I, O), hasher(W, 'H', O); st = sizes(hinit(tinit(W.init().g(N=0, D=0, F=0), 'A'), 'H')); st, f = W.val(st, nm)
    for t, o in expect_vals(W, W.call(st, f, a, h), nm):
        hdr(W, t, o, nm); inv = o_cipher.Inv(o, None, False); inv.check(W, t, f'{nm}: invariant established by construction'); o_cipher.cap_contract(W)
        ms = t.get(o).methods
        for m in ('available_output', 'get_string', 'get_substring', 'get_char', 'get_byte'): W.prove(t, z3.BoolVal(ms[m][2] == 'buffered_output'), f'{nm}: {m} inherited unchanged from buffered_output')
        t, D = W.sint(t, 'D', 0, BIG); t = inv.havoc(W, t.gset('D', D)); t, P = W.sint(t, 'P', 0, BIG); N = t.ghost['N']; st0 = hinit(tinit(t, 'A', P, N, N), 'H', N); live(W, [st0], nm)
        def good(u, name):
            W.prove(u, z3.And(_z(u.ghost['A.D']) == _z(u.ghost['A.Q']), _z(u.ghost['H.P']) == _z(u.ghost['A.Q'])), f'{name}: all output hashed'); inv.check(W, u.gset('N', u.ghost['A.Q']), name)
        for m, args, n, valid, s in inputs(W, st0, I, P):
            for u, k, v in W.send(s, o, m, *args):
                if not outcome(W, u, k, v, f'{nm}#{m}', valid): continue
                W.prove(u, z3.And(valid, _z(u.ghost['A.P']) == P + n), f'{nm}#{m}: the transform gets exactly the input'); good(u, f'{nm}#{m}')
        fin_tag(W, st0, o, nm, lambda u: _z(u.ghost['H.P']) == _z(u.ghost['A.Q']))
        for u, k, v in W.send(st0, o, 'finish_and_get_tag'):
            if k == 'val': good(u, f'{nm}#finish_and_get_tag')
        wiped(W, st0, o, nm)
        for u, v in expect_vals(W, W.send(st0, o, 'wipe'), nm): r = W.fld(u, o, 'obuf'); u, j = W.sint(u, 'j', 0, MAXSTR); w = u.assume(j < _z(u.get(r).len)); W.prove(w, byte(W, w, r, j) == 0, f'{nm}#wipe: output buffer erased')
# ---- helpers on strings
def done(W, u, nm, T='A'): W.prove(u, z3.BoolVal(u.ghost[f'{T}.wiped'] and u.ghost[f'{T}.fin']), f'{nm}: transform finished and wiped')
def strings(W):
    I, O = S('IN'), S('OUT')
    for nm, auth in (('transform_string', False), ('auth_transform_string_detached', True), ('auth_transform_string', True)):
        a = transform(W, 'A', I, O, auth); st = sizes(tinit(W.init(), 'A')); st, f = W.val(st, nm); st, n = W.sint(st, 'len', 0, MAXSTR); st, s = o_cipher.bytes_of(W, st, 's', I, 0, n, n); s0 = st.get(s); live(W, [st], nm); TL = z3.Int('A.taglen')
        for u, k, v in W.call(st, f, a, s):
            if k == 'exc':
                if v.name == 'Invalid_argument' and nm == 'auth_transform_string': continue       # result longer than the longest string
                outcome(W, u, k, v, nm, z3.BoolVal(True)); continue
            Q = _z(u.ghost['A.Q']); done(W, u, nm); W.prove(u, z3.And(_z(u.ghost['A.P']) == n, _z(u.ghost['A.D']) == Q), f'{nm}: consumes the string, drains all output'); u, k = W.sint(u, 'k', 0, MAXSTR); W.prove(u, z3.BoolVal(u.get(s) is s0), f'{nm}: argument unchanged')
            txt, tag = v if nm == 'auth_transform_string_detached' else (v, None)
            if tag is not None: w = u.assume(k < TL); W.prove(u, _z(u.get(tag).len) == TL, f'{nm}: tag'); W.prove(w, byte(W, w, tag, k) == S('A.TAG')(k), f'{nm}: tag')
            L = _z(u.get(txt).len); W.prove(u, L == (Q + TL if nm == 'auth_transform_string' else Q), f'{nm}: length of the result'); w = u.assume(k < Q); W.prove(w, byte(W, w, txt, k) == O(k), f'{nm}: result is the output')
            if nm == 'auth_transform_string': w = u.assume(k < TL); W.prove(w, byte(W, w, txt, simp(Q + k)) == S('A.TAG')(k), f'{nm}: tag appended')
    nm = 'hash_string'; h = hasher(W, 'H', I); st = sizes(hinit(W.init(), 'H')); st, f = W.val(st, nm); st, n = W.sint(st, 'len', 0, MAXSTR); st, s = o_cipher.bytes_of(W, st, 's', I, 0, n, n)
    for u, v in expect_vals(W, W.call(st, f, h, s), nm):
        W.prove(u, z3.And(_z(u.ghost['H.P']) == n, z3.BoolVal(u.ghost['H.done'] and u.ghost['H.wiped'])), f'{nm}: hashes the string, then wipes'); u, k = W.sint(u, 'k', 0, MAXSTR); w = u.assume(k < z3.Int('H.size')); W.prove(u, _z(u.get(v).len) == z3.Int('H.size'), nm); W.prove(w, byte(W, w, v, k) == S('H.RES')(k), f'{nm}: result is the hash')
def streq(W, wit):
    """contract of string_equal, proved by o_util:seq-equal"""
    def fn(W, st, a):
        x, y = st.get(a[0]), st.get(a[1]); lx, ly = _z(x.len), _z(y.len); st, w = W.sint(st, 'w', 0, MAXSTR); wit.append(w); k = z3.Int('kq')
        eq = st.assume(z3.And(lx == ly, z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < lx), W.rd(st, x, k) == W.rd(st, y, k))))); ne = st.assume(z3.Or(lx != ly, z3.And(w < lx, W.rd(st, x, w) != W.rd(st, y, w))))
        return [(eq, 'val', True), (ne, 'val', False)]
    W.over['string_equal'] = Bi('string_equal', 2, fn); W.over['bytes_equal'] = W.over['string_equal']
def auth_check(W):
    nm = 'auth_check_transform_string'; I, O, TAG = S('IN'), S('OUT'), S('A.TAG'); a = transform(W, 'A', I, O, True); wit = []; streq(W, wit); TL = z3.Int('A.taglen')
    st = sizes(tinit(W.init(), 'A')); st, f = W.val(st, nm); st, n = W.sint(st, 'len', 0, MAXSTR); st, s = o_cipher.bytes_of(W, st, 's', I, 0, n, n); s0 = st.get(s); live(W, [st.assume(n < TL), st.assume(n > TL)], nm); kq = z3.Int('kq')
    for u, k, v in W.call(st, f, a, s):
        if k == 'exc':
            if is_err(v, 'Wrong_data_length'): W.prove(u, n < TL, f'{nm}: Wrong_data_length only for a string shorter than the tag'); W.prove(u, _z(u.ghost['A.P']) == 0, f'{nm}: nothing consumed'); continue
            outcome(W, u, k, v, nm, z3.BoolVal(True)); continue
        W.prove(u, n >= TL, f'{nm}: needs at least the tag'); done(W, u, nm); W.prove(u, _z(u.ghost['A.P']) == n - TL, f'{nm}: consumes the text without the tag'); eq = z3.ForAll([kq], z3.Implies(z3.And(kq >= 0, kq < TL), I(n - TL + kq) == TAG(kq)))
        if not (isinstance(v, Con) and v.name in ('Some', 'None')): raise Unsupported('result of ' + nm)
        if v.name == 'Some':
            r = v.arg; Q = _z(u.ghost['A.Q']); u, j = W.sint(u, 'j', 0, MAXSTR); w = u.assume(j < TL); W.prove(w, I(simp_z(n - TL + j)) == TAG(j), f'{nm}: text returned only if the tag is right'); w = u.assume(j < Q); W.prove(u, z3.And(_z(u.get(r).len) == Q), f'{nm}: all the text'); W.prove(w, byte(W, w, r, j) == O(j), f'{nm}: the text')
        else:
            if not wit: W.fail(u, f'{nm}: compares the tag', ''); continue
            W.prove(u, z3.Or(*[z3.And(w < TL, I(simp_z(n - TL + w)) != TAG(w)) for w in wit]), f'{nm}: refused only if the tag is wrong')
# ---- channels
FILE = S('FILE'); FLEN = z3.Int('FLEN')
class ChInv:
    """between chunks: everything read was consumed, everything produced was written"""
    buf = None
    def __init__(s, hash): s.hash = hash; s.keys = ('pos', 'H.P') if hash else ('pos', 'A.P', 'A.Q', 'A.D', 'w')
    def covers(s, st, hid, f): return hid == s.buf
    def covers_ghost(s, gk): return gk in s.keys
    def havoc(s, W, st, loop=True):
        st, p = W.sint(st, 'pos', 0, BIG); st = st.assume(p <= FLEN); st = st.gset('pos', p).gset('H.P' if s.hash else 'A.P', p)
        if not s.hash:
            st, q = W.sint(st, 'Q', 0, BIG)
            for k in ('A.Q', 'A.D', 'w'): st = st.gset(k, q)
        f = W.ffun('ibuf', Int, BV8); return st.put(Ref(s.buf), Buf(st.heap[s.buf].len, base=lambda s_, i: f(_z(i)))) if s.buf is not None else st
    def terms(s, W, st): return [('pos', _z(st.ghost['pos']))]
    def check(s, W, st, name):
        g = lambda k: _z(st.ghost[k]); W.prove(st, z3.And(g('pos') <= FLEN, g('H.P' if s.hash else 'A.P') == g('pos')), f'{name}: everything read was consumed')
        if not s.hash: W.prove(st, z3.And(g('A.D') == g('A.Q'), g('w') == g('A.Q')), f'{name}: everything produced was written')
def channels(W, O, inv):
    """contracts of Stdlib.input and Stdlib.output"""
    def inp(W, st, a):
        ch, b, o, n = a; o, n = bm.toint(o), bm.toint(n); rng(W, st, 'buffer', b, o, n, 'input'); inv.buf = b.id; pos = _z(st.ghost['pos'])
        st, r = W.sint(st, 'r', 0, MAXSTR); st = st.assume(z3.And(r <= _z(n), r <= FLEN - pos, z3.Implies(z3.And(r == 0, _z(n) > 0), pos == FLEN)))
        lim = st.ghost.get('limit')
        if lim is not None: W.prove(st, pos + _z(n) <= lim, 'input: never asks for more than the requested length')
        st = W.wr_range(st, b, o, r, lambda s_, k: FILE(simp_z(pos + _z(k) - _z(o)))); return [(st.gset('pos', simp_z(pos + r)), 'val', r), (st, 'exc', Con('Sys_error'))]
    def outp(W, st, a):
        ch, b, o, n = a; o, n = bm.toint(o), bm.toint(n); rng(W, st, 'buffer', b, o, n, 'output'); w = _z(st.ghost['w']); rec = st.get(b); st2, j = W.sint(st, 'j', 0, MAXSTR); u = st2.assume(j < _z(n)); W.prove(u, W.rd(u, rec, simp(_z(o) + j)) == O(simp_z(w + j)), 'output: the bytes produced, in order')
        return [(st.gset('w', simp_z(w + _z(n))), 'val', UNIT), (st, 'exc', Con('Sys_error'))]
    W.base.vars['input'] = Bi('input', 4, inp); W.base.vars['output'] = Bi('output', 4, outp); W.base.vars['End_of_file'] = Con('End_of_file')
def channel(W, nm, bounded):
    hash = nm == 'hash_channel'; O = S('OUT'); c = hasher(W, 'H', FILE) if hash else transform(W, 'A', FILE, O); inv = ChInv(hash); channels(W, O, inv); st = sizes(W.init().g(pos=0, w=0)); st = hinit(st, 'H') if hash else tinit(st, 'A'); st = st.assume(z3.And(FLEN >= 0, FLEN <= 2**60))
    st, f = W.val(st, nm); ic, oc = Opaque('ic'), Opaque('oc'); labels = []; L = None
    if bounded: st, L = W.sint(st, 'len'); labels = [('?len', Some(L))]; st = st.gset('limit', z3.If(L > 0, L, 0)); W.bound_terms = [L, FLEN]
    else: W.bound_terms = [FLEN]
    live(W, [st.assume(FLEN > 1000)], nm); W.inv = inv
    def extra(W, stx, st0, tv, written):
        d = {l: (c, e) for l, c, e in tv}; a = d.get(('slot', 0))
        if not bounded or a is None or not is_int(a[0]): return []
        return [('left', z3.Or(z3.And(_z(a[0]) >= 0, _z(a[0]) + _z(stx.ghost['pos']) == L), z3.And(_z(a[0]) <= 0, _z(stx.ghost['pos']) == 0, L <= 0)))]
    W.extra = extra
    for u, k, v in W.apply(st, f, [('', c)] + labels + [('', ic)] + ([] if hash else [('', oc)])):
        g = lambda k: _z(u.ghost[k])
        if k == 'exc':
            if v.name == 'End_of_file' and bounded: W.prove(u, z3.And(FLEN < L), f'{nm}: End_of_file only if the channel is shorter than len')
            elif v is not EXC and v.name != 'Sys_error': W.fail(u, f'{nm}: exception', repr(v))
            continue
        want = FLEN if not bounded else z3.If(L > 0, L, z3.IntVal(0))
        W.prove(u, z3.And(g('H.P' if hash else 'A.P') == want, g('pos') == want), f'{nm}: consumes exactly the requested part of the channel')
        if bounded: W.prove(u, want <= FLEN, f'{nm}: returns only if the channel has len bytes')
        if hash:
            W.prove(u, z3.BoolVal(u.ghost['H.done'] and u.ghost['H.wiped']), f'{nm}: finished and wiped'); u, j = W.sint(u, 'j', 0, MAXSTR); W.prove(u, _z(u.get(v).len) == z3.Int('H.size'), nm); w = u.assume(j < z3.Int('H.size')); W.prove(w, byte(W, w, v, j) == S('H.RES')(j), f'{nm}: result is the hash')
        else: done(W, u, nm); W.prove(u, z3.And(g('w') == g('A.Q'), g('A.D') == g('A.Q')), f'{nm}: all output is written')
        if inv.buf is not None and inv.buf in u.heap: r = Ref(inv.buf); u, j = W.sint(u, 'j', 0, MAXSTR); w = u.assume(j < _z(u.get(r).len)); W.prove(w, byte(W, w, r, j) == 0, f'{nm}: input buffer erased')
    W.inv = None; W.extra = None
UNITS = {'compose': unit(compose), 'transform-and-hash': unit(and_hash), 'transform-then-hash': unit(then_hash), 'strings': unit(strings), 'auth-check': unit(auth_check)}
for _n in ('transform_channel', 'hash_channel'):
    for _b in (False, True): UNITS[_n.replace('_', '-') + ('-len' if _b else '')] = unit(lambda W, n=_n, b=_b: channel(W, n, b))
