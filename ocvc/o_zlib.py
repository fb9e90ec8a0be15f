"""C25: the compression classes over the contract of the zlib primitives.  IN(i): input bytes, OUT(i): bytes produced by zlib.
Ghosts: PI input bytes consumed by zlib, N output bytes produced, D drained, last call (flush mode, finished, room left), ended."""
from oc import *
from oc import _z, _zb
import o_cipher
from o_cipher import Inv, cap_contract, bytes_of, IN, OUT
MODE = dict(Z_NO_FLUSH=0, Z_SYNC_FLUSH=1, Z_FULL_FLUSH=2, Z_FINISH=3)
def prims(W):
    def run(name):
        def fn(W, st, a):
            zs, s, so, n, d, do, m, fl = a; so, n, do, m = map(bm.toint, (so, n, do, m)); nm = name
            W.prove(st, z3.BoolVal(isinstance(zs, Opaque) and zs.name == name), f'{nm}: stream of the right kind')
            W.prove(st, _z(st.ghost['ended']) == 0, f'{nm}: stream still open')
            rng(W, st, 'source', s, so, n, nm); rng(W, st, 'destination', d, do, m, nm); W.prove(st, _z(m) > 0, f'{nm}: room for output')
            st2, j = W.sint(st, 'j', 0, MAXSTR); u = st2.assume(j < _z(n)); W.prove(u, W.rd(u, u.get(s), simp(_z(so) + j)) == IN(simp_z(_z(st.ghost['PI']) + j)), f'{nm}: gets the input bytes in order')
            ex = (st, 'exc', Con('Error', Con('Compression_error', 'zlib')))
            st, ui = W.sint(st, 'used_in', 0, MAXSTR); st, uo = W.sint(st, 'used_out', 0, MAXSTR); st = st.assume(z3.And(ui <= _z(n), uo <= _z(m))); fin = W.fbool('finished'); N = _z(st.ghost['N'])
            st = W.wr_range(st, d, do, uo, lambda s_, k: OUT(simp_z(N + _z(k) - _z(do))))
            return [(st.g(PI=simp(_z(st.ghost['PI']) + ui), N=simp(N + uo), mode=MODE[fl.name], fin=fin, room=simp(uo < _z(m)), calls=1), 'val', (fin, ui, uo)), ex]
        W.ext[f'caml_zlib_{name}'] = Bi(name, 8, fn)
        W.ext[f'caml_zlib_{name}End'] = Bi(name + 'End', 1, lambda W, st, a: [(st.gset('ended', simp(_z(st.ghost['ended']) + 1)), 'val', UNIT), (st, 'exc', Con('Error', Con('Compression_error', 'zlib')))])
    run('deflate'); run('inflate')
    W.ext['caml_zlib_deflateInit'] = Bi('deflateInit', 2, lambda W, st, a: [(st.gset('init', ('deflate', a[0], a[1])), 'val', Opaque('deflate')), (st, 'exc', Con('Error', Con('Compression_error', 'zlib')))])
    W.ext['caml_zlib_inflateInit'] = Bi('inflateInit', 1, lambda W, st, a: [(st.gset('init', ('inflate', None, a[0])), 'val', Opaque('inflate')), (st, 'exc', Con('Error', Con('Compression_error', 'zlib')))])
def is_zerr(st, v): return isinstance(v, Con) and v.name == 'Error' and isinstance(v.arg, Con) and v.arg.name == 'Compression_error'
OKX = (lambda st, v: is_err(v, 'Output_buffer_overflow'), is_zerr)
def mk(W, kind):
    prims(W); st = W.init().g(N=0, D=0, F=0, PI=0, ended=0, mode=0, fin=False, room=True, calls=0); hdr = W.fbool('header')
    if kind == 'compress': st, lev = W.sint(st, 'level'); args = [lev, hdr]
    else: lev = None; args = [hdr]
    outs = expect_vals(W, new(W, st, 'Zlib.' + kind, args), kind, [is_zerr]); (st, o), = outs
    W.fld(st, o, 'zs'); ini = st.ghost.get('init'); W.prove(st, z3.BoolVal(ini is not None and ini[0] == ('deflate' if kind == 'compress' else 'inflate') and (lev is None or ini[1] is lev) and ini[2] is hdr), f'{kind}: zlib stream created with the given settings')
    inv = Inv(o, None, False); inv.check(W, st, f'{kind}: invariant established by construction'); cap_contract(W)
    st, D = W.sint(st, 'D', 0, 2**70); st, PI = W.sint(st, 'PI', 0, 2**70); st = st.g(D=D, PI=PI); st = inv.havoc(W, st, False); W.inv = inv; live(W, [st], kind)
    return st, o, inv, None
def puts(W, kind):
    st0, o, inv, _ = mk(W, kind); PI = st0.ghost['PI']; nm = f'Zlib.{kind}#put_substring'
    st, n = W.sint(st0, 'len'); st, ofs = W.sint(st, 'ofs'); st, L = W.sint(st, 'src.len', 0, MAXSTR); st, src = W.fnbuf(st, L, lambda i: IN(simp_z(PI + _z(i) - ofs))); s0 = st.get(src); ok = _zb(bm.rng_ok(ofs, n, L)); live(W, [st.assume(ok), st.assume(z3.Not(ok))], nm)
    cur = [L]
    def extra(W, stx, st_0, tv, written):
        d = {l: (_z(c), _z(e)) for l, c, e in tv if is_int(c)}; a, b, g = d.get(('slot', 1)), d.get(('slot', 2)), d.get(('ghost', 'PI'))
        if a is None or b is None: return []
        f = [a[0] == a[1], b[0] == b[1]] + ([g[0] == g[1]] if g else [])
        return [('progress', z3.Or(z3.And(*f), z3.And(a[1] >= 0, b[1] > 0, a[1] + b[1] <= _z(cur[0]), a[0] >= 0, b[0] > 0, a[0] + b[0] == a[1] + b[1])))]
    W.extra = extra
    for t, k, v in W.send(st, o, 'put_substring', src, ofs, n):
        W.prove(t, z3.BoolVal(t.get(src) is s0), f'{nm}: source unchanged')
        if k == 'exc':
            if v.name == 'Invalid_argument': W.prove(t, z3.Not(ok), f'{nm}: Invalid_argument only for an invalid range'); W.prove(t, _z(t.ghost['PI']) == PI, f'{nm}: nothing is processed for an invalid range')
            elif is_zerr(t, v) and kind == 'uncompress' and v.arg.arg != 'zlib': W.prove(t, z3.And(_zb(t.ghost['fin']), _z(t.ghost['PI']) < PI + n), f'{nm}: trailing-garbage error only for bytes after the end of the data')
            elif not any(f(t, v) for f in OKX): W.fail(t, f'{nm}: exception', repr(v))
            continue
        W.prove(t, ok, f'{nm}: returns only for a valid range'); W.prove(t, _z(t.ghost['PI']) == PI + n, f'{nm}: every byte is given to zlib once'); inv.check(W, t, nm)
        W.prove(t.assume(n > 0), _z(t.ghost['mode']) == (0 if kind == 'compress' else 1), f'{nm}: flush mode'); W.prove(t, _z(t.ghost['ended']) == 0, f'{nm}: stream stays open')
    nm = f'Zlib.{kind}#put_string'; st, n = W.sint(st0, 'len', 0, MAXSTR); st, src = W.fnbuf(st, n, lambda i: IN(simp_z(PI + _z(i)))); cur[0] = n
    for t, v in expect_vals(W, W.send(st, o, 'put_string', src), nm, OKX): W.prove(t, _z(t.ghost['PI']) == PI + n, f'{nm}: every byte is given to zlib once'); inv.check(W, t, nm)
    cur[0] = z3.IntVal(1)
    nm = f'Zlib.{kind}#put_char'; c = W.fbv('c'); st = st0.assume(c == IN(simp_z(PI)))
    for t, v in expect_vals(W, W.send(st, o, 'put_char', c), nm, OKX): W.prove(t, _z(t.ghost['PI']) == PI + 1, f'{nm}: the byte is given to zlib once'); inv.check(W, t, nm)
    nm = f'Zlib.{kind}#put_byte'; st, b = W.sint(st0, 'b'); st = st.assume(z3.Implies(z3.And(b >= 0, b < 256), b == z3.BV2Int(IN(simp_z(PI)))))
    for t, k, v in W.send(st, o, 'put_byte', b):
        if k == 'exc':
            if v.name == 'Invalid_argument': W.prove(t, z3.Not(z3.And(b >= 0, b < 256)), f'{nm}: Invalid_argument only for what is not a byte')
            elif not any(f(t, v) for f in OKX): W.fail(t, nm, repr(v))
            continue
        W.prove(t, _z(t.ghost['PI']) == PI + 1, f'{nm}: the byte is given to zlib once'); inv.check(W, t, nm)
def ends(W, kind):
    W.unroll = 4
    st0, o, inv, _ = mk(W, kind); PI = st0.ghost['PI']
    for m in ('flush', 'finish'):
        nm = f'Zlib.{kind}#{m}'; st = st0.g(fin=False, room=False)
        for t, v in expect_vals(W, W.send(st, o, m), nm, OKX):
            inv.check(W, t, nm); W.prove(t, _z(t.ghost['PI']) == PI, f'{nm}: no input invented')
            if m == 'finish':
                W.prove(t, z3.And(_zb(t.ghost['fin']), _z(t.ghost['ended']) == 1), f'{nm}: returns only after zlib has reported the end, and closes the stream once')
                if kind == 'compress': W.prove(t, _z(t.ghost['mode']) == 3, f'{nm}: asks zlib to finish')
            else:
                W.prove(t, _z(t.ghost['ended']) == 0, f'{nm}: stream stays open')
                if kind == 'compress': W.prove(t, z3.And(z3.Or(_z(t.ghost['mode']) == 1, _z(t.ghost['mode']) == 2), _zb(t.ghost['room'])), f'{nm}: returns only when zlib has no more pending output')
                else: W.prove(t, _z(t.ghost['N']) == st0.ghost['N'], f'{nm}: nothing to do')
def misc(W, kind):
    st, o, inv, _ = mk(W, kind)
    for m in ('input_block_size', 'output_block_size'):
        for t, v in expect_vals(W, W.send(st, o, m), m): W.prove(t, _z(v) == 1, f'Zlib.{kind}#{m}')
    r = W.fld(st, o, 'obuf')
    for t, v in expect_vals(W, W.send(st, o, 'wipe'), 'wipe'):
        t, j = W.sint(t, 'j', 0, MAXSTR); u = t.assume(j < _z(t.get(r).len)); W.prove(u, W.rd(u, u.get(r), j) == 0, f'Zlib.{kind}#wipe: output buffer erased')
def makers(W):
    prims(W); st = W.init().g(N=0, D=0, F=0, PI=0, ended=0)
    lev = z3.Int('level'); hdr = W.fbool('hdr')
    for fn, variants in (('compress', [([], (6, False)), ([('?level', Some(lev))], (lev, False)), ([('?write_zlib_header', Some(hdr))], (6, hdr)), ([('?level', Some(lev)), ('?write_zlib_header', Some(hdr))], (lev, hdr))]),
                         ('uncompress', [([], (None, False)), ([('?expect_zlib_header', Some(hdr))], (None, hdr))])):
        for labels, (l, h) in variants:
            s1, f = W.val(st, 'Zlib.' + fn)
            for t, o in expect_vals(W, W.apply(s1, f, labels + [('', UNIT)]), fn, [is_zerr]):
                ini = t.ghost.get('init'); W.prove(t, z3.And(z3.BoolVal(ini[0] == ('deflate' if fn == 'compress' else 'inflate')), True if l is None else _z(ini[1]) == _z(l), _zb(ini[2]) == _zb(h)), f'Zlib.{fn}: documented settings')
UNITS = {'makers': unit(makers)}
for _k in ('compress', 'uncompress'):
    UNITS[_k + '-put'] = unit(lambda W, k=_k: puts(W, k)); UNITS[_k + '-finish'] = unit(lambda W, k=_k: ends(W, k)); UNITS[_k + '-misc'] = unit(lambda W, k=_k: misc(W, k)); UNITS[_k + '-get'] = unit(lambda W, k=_k: o_cipher.gets(W, k, mk))
