"""C22 (conversions, modular utilities, random numbers), C19 (RSA), C20 (Diffie-Hellman), C21 (Paillier).
Z is abstract: its operations are functions ZF over the integers with the facts of their documentation, instantiated where needed.
BYTE(n, i): byte i (little endian) of n."""
from oc import *
from oc import _z, _zb
from builtins_ml import ZF
BYTE = z3.Function('BYTE', Int, Int, BV8); PRIME = z3.Function('PRIME', Int, z3.BoolSort()); CRT = z3.Function('CRT', *([Int] * 7))
NB = ZF['numbits']; POWM = ZF['powm']; MUL = ZF['mul']
ASSERT = lambda v: isinstance(v, Con) and v.name == 'Assert_failure'
# ---- facts about Z, instantiated for the terms of the goal
def subterms(ts):
    seen = {}; todo = [_z(t) for t in ts]
    while todo:
        e = todo.pop()
        if e.get_id() in seen: continue
        seen[e.get_id()] = e; todo += [c for c in e.children() if z3.is_expr(c)]
    return list(seen.values())
def facts(terms):
    out = []
    for e in subterms(terms):
        if not z3.is_arith(e): continue
        n = e.decl().name(); c = e.children()
        if n == 'Z_mul': out += [e == MUL(c[1], c[0]), NB(e) <= NB(c[0]) + NB(c[1]), z3.Implies(z3.And(c[0] >= 0, c[1] >= 0), e >= 0), z3.Implies(z3.And(c[0] >= 1, c[1] >= 1), z3.And(e >= c[0], e >= c[1])), z3.Implies(c[0] == 0, e == 0)]
        elif n == 'Z_powm': out += [z3.Implies(c[2] >= 1, z3.And(e >= 0, e < c[2], NB(e) <= NB(c[2])))]
        elif n in ('Z_rem', 'Z_erem'): out += [z3.Implies(z3.And(c[1] >= 1, z3.BoolVal(True) if n == 'Z_erem' else c[0] >= 0), z3.And(e >= 0, e < c[1], NB(e) <= NB(c[1])))]
        elif n == 'Z_div': out += [z3.Implies(z3.And(c[1] >= 1, c[0] >= 0), z3.And(e >= 0, e <= c[0]))]
        elif n == 'Z_invert': out += [z3.Implies(c[1] >= 1, z3.And(e >= 0, e < c[1], NB(e) <= NB(c[1])))]
        elif n == 'Z_lcm': out += [e == ZF['lcm'](c[1], c[0]), z3.Implies(z3.And(c[0] >= 1, c[1] >= 1), z3.And(e >= 1, e <= MUL(c[0], c[1])))]
        elif n == 'Z_gcd': out += [e == ZF['gcd'](c[1], c[0])]
        elif n == 'CRT': out += [e >= 0, e < MUL(c[1], c[2]), NB(e) <= NB(MUL(c[1], c[2]))]
        elif n == 'Z_numbits':
            x = c[0]; out += [e >= 0]
            if x.decl().kind() == z3.Z3_OP_ADD and len(x.children()) == 2 and z3.is_int_value(x.children()[0]) and x.children()[0].as_long() < 0: out += [z3.Implies(x >= 0, NB(x) <= NB(x.children()[1]))]
    return out
def with_facts(st, *terms):
    ts = list(terms)
    for _ in range(2):
        fs = facts(ts); ts += fs
    for f in fs: st = st.assume(f)
    return st
def pv(W, st, f, name, *terms): return W.prove(with_facts(st, f, *terms), f, name)
# ---- numbers and the wiping of numbers
IMM = ('zero', 'one')
def zwrap(W):
    """Z operations must not be applied to a number that has been wiped; some return one of their arguments"""
    W.alias = {}; W.zkeep = []
    items = W.base.vars['Z'].items; real = dict(items)
    def al(z): return W.alias.get(id(z), frozenset([id(z)])) if not isinstance(simp(z.v), int) else frozenset()
    W.al = al
    def wrap(n, b):
        def fn(W, st, a, **kw):
            for x in a:
                if isinstance(x, Zn) and al(x) & st.ghost.get('wiped', frozenset()): W.fail(st, 'no number is used after it was wiped', f'Z.{n}')
            outs = b.fn(W, st, a, **kw); res = []
            for t, k, v in outs:
                if k == 'val' and isinstance(v, Zn):
                    W.zkeep.append(v); s = frozenset([id(v)])
                    if n in ('add', 'sub'):
                        for x, y in ((0, 1), (1, 0)):
                            if not isinstance(simp(a[y].v), int): s |= al(a[x])
                    if n in ('rem', 'erem'): s |= al(a[0])
                    W.alias[id(v)] = s
                res.append((t, k, v))
            return res
        return Bi(b.name, b.arity, fn)
    for n, b in real.items():
        if isinstance(b, Bi): items[n] = wrap(n, b)
    def wipe(W, st, a): return [(st.gset('wiped', st.ghost.get('wiped', frozenset()) | al(a[0])), 'val', UNIT)]
    W.ext['caml_wipe_z'] = Bi('caml_wipe_z', 1, wipe)
def use(W, st, z, what):
    if W.al(z) & st.ghost.get('wiped', frozenset()): W.fail(st, 'no number is used after it was wiped', what)
def num(W, st, name, lo=0, hi=None):
    st, v = W.sint(st, name, lo, hi); z = Zn(v); W.zkeep.append(z); return st, z
def hooks(W):
    """contracts of Z.of_bits, Z.to_bits: BYTE"""
    zwrap(W)
    def of_bits(W, st, a):
        rec = bm.B(W, st, a[0]); st, z = num(W, st, 'of_bits'); return [(st.gset('of_bits', (rec, z.v)), 'val', z)]
    def to_bits(W, st, a):
        n = _z(a[0].v); use(W, st, a[0], 'Z.to_bits'); st, L = W.sint(st, 'to_bits.len', 0, MAXSTR); st, r = W.fnbuf(st, L, lambda i: BYTE(n, _z(i))); return [(st.gset('to_bits', r), 'val', r)]
    W.z_of_bits, W.z_to_bits = of_bits, to_bits
# ---------------------------------------------------------------- C22
def of_bytes(W):
    hooks(W); nm = 'of_bytes'; st, s = W.symbuf(W.init(), 's'); s0 = st.get(s); L = _z(s0.len); st, f = W.bnval(st, 'of_bytes'); live(W, [st.assume(L > 5)], nm)
    def arr(st, st0, hid, vals):
        if not vals: return None
        i = _z(vals[0]); b0 = st0.heap[hid]
        return Buf(b0.len, base=lambda s_, k: z3.If(z3.And(_z(k) >= 0, _z(k) < i), W.rd(s_, s0, simp(L - 1 - _z(k))), W.rd(s_, b0, k)))
    W.arr = arr; W.bound_terms = [L]
    for t, v in expect_vals(W, W.call(st, f, s), nm):
        if 'of_bits' not in t.ghost: W.fail(t, f'{nm}: converts with Z.of_bits', ''); continue
        rec, z = t.ghost['of_bits']; W.prove(t, z3.And(_z(v.v) == z, _z(rec.len) == L), f'{nm}: number of all the bytes'); t, i = W.sint(t, 'i', 0, MAXSTR); u = t.assume(i < L)
        W.prove(u, W.rd(u, rec, i) == W.rd(u, s0, simp(L - 1 - i)), f'{nm}: big-endian'); W.prove(t, z3.BoolVal(t.get(s) is s0), f'{nm}: argument unchanged')
        for hid, r in t.heap.items():
            if hid != s.id and isinstance(r, Buf): u = t.assume(i < _z(r.len)); W.prove(u, W.rd(u, r, i) == 0, f'{nm}: copy erased')
def to_bytes(W, given):
    hooks(W); nm = 'to_bytes' + (' ~numbits' if given else ''); st, z = num(W, W.init(), 'n'); n = z.v; st, f = W.bnval(st, 'to_bytes'); lab = []
    if given: st, nb = W.sint(st, 'numbits', -2**50, 2**50); lab = [('~numbits', nb)]; live(W, [st.assume(NB(n) <= nb), st.assume(NB(n) > nb)], nm)
    st = st.assume(NB(n) >= 0)
    def arr(st, st0, hid, vals):
        if not vals: return None
        i = _z(vals[0]); b0 = st0.heap[hid]; l = _z(b0.len)
        return Buf(b0.len, base=lambda s_, k: z3.If(z3.And(_z(k) >= l - i, _z(k) < l), BYTE(n, simp_z(l - 1 - _z(k))), W.rd(s_, b0, k)))
    W.arr = arr
    for t, k, v in W.apply(st, f, lab + [('', z)]):
        if k == 'exc':
            if given and ASSERT(v): W.prove(t, NB(n) > nb, f'{nm}: assertion fails only for numbers that do not fit')
            else: W.fail(t, f'{nm}: exception', repr(v))
            continue
        L = _z(t.get(v).len); S = t.get(t.ghost['to_bits']); ls = _z(S.len); t, i = W.sint(t, 'i', 0, MAXSTR)
        if given: W.prove(t, z3.And(NB(n) <= nb, L == (nb + 7) / 8), f'{nm}: accepts only numbers that fit, exact length')
        else: W.prove(t, L == ls, f'{nm}: length')
        t = t.assume(z3.Implies(i >= ls, BYTE(n, i) == 0)).assume(z3.Implies(8 * i >= NB(n), BYTE(n, i) == 0)) # contract of Z.to_bits, Z.numbits
        W.prove(t, z3.If(i < L, W.rd(t, t.get(v), simp(L - 1 - i)), chr_(0)) == BYTE(n, i), f'{nm}: big-endian, zero-padded, nothing lost')
        u = t.assume(i < ls); W.prove(u, W.rd(u, S, i) == 0, f'{nm}: copy erased')
def bitlen(b):
    e = z3.IntVal(0)
    for k in range(8): e = z3.If(z3.Extract(k, k, b) == 1, z3.IntVal(k + 1), e)
    return e
def random(W, odd):
    hooks(W); nm = 'random' + (' ~odd' if odd is not None else ''); R = z3.Function('R', Int, BV8)
    st, nb = W.sint(W.init().g(calls=0), 'numbits', -2**50, 2**50); live(W, [st.assume(nb > 20), st.assume(nb == 1)], nm)
    def rng_(W, st, a):
        b, o, n = a; rng(W, st, 'destination', b, o, n, 'rng'); W.prove(st, z3.And(_z(st.ghost['calls']) == 0, _z(o) == 0, _z(n) == _z(st.get(b).len)), f'{nm}: all bytes drawn from the generator, once')
        return [(W.wr_range(st, b, o, n, lambda s_, k: R(_z(k))).gset('calls', 1), 'val', UNIT), (st, 'exc', Con('RngException'))]
    def of_bits(W, st, a):
        rec = bm.B(W, st, a[0]); st, z = num(W, st, 'of_bits'); L = _z(rec.len); top = W.rd(st, rec, simp(L - 1))
        st = st.assume(z3.Implies(z3.And(L >= 1, top != 0), NB(z.v) == 8 * (L - 1) + bitlen(top))).assume(z3.Implies(L >= 1, (z.v % 2 == 1) == (z3.Extract(0, 0, W.rd(st, rec, 0)) == 1)))
        return [(st.gset('of_bits', (rec, z.v)), 'val', z)]
    W.z_of_bits = of_bits; st, f = W.bnval(st, 'random'); o = z3.BoolVal(False)
    lab = [('~rng', Bi('rng', 3, rng_))]
    if odd is not None: o = z3.Bool('odd'); lab.append(('~odd', o))
    for t, k, v in W.apply(st, f, lab + [('', nb)]):
        if k == 'exc':
            if v.name == 'Invalid_argument': W.prove(t, nb <= 0, f'{nm}: Invalid_argument only for a non-positive size')
            elif v.name != 'RngException': W.fail(t, f'{nm}: exception', repr(v))
            continue
        rec, z = t.ghost['of_bits']; W.prove(t, _z(v.v) == z, f'{nm}: the number drawn'); W.prove(t, z3.And(NB(z) == nb, z3.Implies(_zb(o), z % 2 == 1)), f'{nm}: exactly the requested number of bits, odd if requested'); t, i = W.sint(t, 'i', 0, MAXSTR)
        u = t.assume(z3.And(i >= 1, i < _z(rec.len) - 1)); W.prove(u, W.rd(u, rec, i) == R(i), f'{nm}: middle bytes are random')
        # all the free bits are random
        top = W.rd(t, rec, simp(_z(rec.len) - 1))
        for m in range(8):
            u = t.assume((nb - 1) % 8 == m); msk = (1 << m) - 1; w = u.assume(nb > 8); W.prove(w, top & msk == R(simp_z(_z(rec.len) - 1)) & msk, f'{nm}: free bits of the top byte are random'); W.prove(w, z3.If(_zb(o), W.rd(w, rec, 0) & 0xFE == R(0) & 0xFE, W.rd(w, rec, 0) == R(0)), f'{nm}: low byte is random')
            w = u.assume(nb <= 8); W.prove(w, top & (msk & 0xFE) == R(0) & (msk & 0xFE), f'{nm}: free bits of a one-byte number are random')
        for hid, r in t.heap.items():
            if isinstance(r, Buf): u = t.assume(i < _z(r.len)); W.prove(u, W.rd(u, r, i) == 0, f'{nm}: buffer erased')
def c_random(W, log='draws'):
    """contracts of Bn.random and Bn.random_prime"""
    def rnd(W, st, a, rng=None, odd=None):
        nb = _z(a[0]); W.prove(st, nb >= 1, 'precondition of Bn.random: at least one bit'); check_rng(W, st, rng); st, z = num(W, st, 'rnd'); st = st.assume(NB(z.v) == nb)
        return [(st, 'val', z), (st, 'exc', Con('RngException'))]
    def prime(W, st, a, rng=None):
        nb = _z(a[0]); W.prove(st, nb >= 2, 'precondition of Bn.random_prime: at least two bits'); check_rng(W, st, rng); st, z = num(W, st, 'prime', 2); st = st.assume(z3.And(PRIME(z.v), NB(z.v) == nb))
        return [(st, 'val', z), (st, 'exc', Con('RngException'))]
    W.over['random'] = Bi('random', 1, rnd); W.over['random_prime'] = Bi('random_prime', 1, prime)
def check_rng(W, st, r):
    if r is None: W.fail(st, 'uses the given generator', 'no generator'); return
    f = r[1]; W.prove(st, z3.BoolVal(getattr(f, 'name', None) == 'RNG'), 'uses the given generator')
RNGOBJ = lambda: PyObj('rng', dict(random_bytes=(0, lambda W, st, a: [(st, 'val', Bi('RNG', 3, lambda *x: (_ for _ in ()).throw(Unsupported('rng call'))))])))
def random_prime(W):
    hooks(W); nm = 'random_prime'; st, nb = W.sint(W.init(), 'numbits', 2, 2**50); st, f = W.bnval(st, nm)
    def rnd(W, st, a, rng=None, odd=None):
        check_rng(W, st, rng); W.prove(st, z3.And(_z(a[0]) == nb, _zb(odd[1] if odd and odd[0] == '~' else odd[1].arg if odd else False)), f'{nm}: starts from an odd random number of the given size'); st, z = num(W, st, 'rnd'); return [(st, 'val', z), (st, 'exc', Con('RngException'))]
    W.over['random'] = Bi('random', 1, rnd)
    for t, v in expect_vals(W, W.apply(st, f, [('~rng', Bi('RNG', 3, None)), ('', nb)]), nm, [lambda st, v: v.name == 'RngException']):
        e = _z(v.v); W.prove(t, z3.And(NB(e) == nb, z3.BoolVal(e.decl().name() == 'Z_nextprime')), f'{nm}: a result of Z.nextprime with exactly the requested number of bits')
def mod_power(W):
    hooks(W); st, a = num(W, W.init(), 'a'); st, b = num(W, st, 'b'); st, c = num(W, st, 'c', 1); st, f = W.bnval(st, 'mod_power'); live(W, [st.assume(z3.And(b.v == 0, c.v % 2 == 0)), st.assume(z3.And(b.v > 0, c.v % 2 == 1))], 'mod_power')
    for t, v in expect_vals(W, W.call(st, f, a, b, c), 'mod_power'): W.prove(t, _z(v.v) == POWM(a.v, b.v, c.v), 'mod_power: the modular power, for every exponent and modulus')
    st, f = W.bnval(st, 'sub_mod')
    for t, v in expect_vals(W, W.call(st, f, a, b, c), 'sub_mod'): W.prove(t, _z(v.v) == ZF['erem'](a.v - b.v, c.v), 'sub_mod: non-negative remainder of the difference')
    st, f = W.bnval(st, 'relative_prime')
    for t, v in expect_vals(W, W.call(st, f, a, b), 'relative_prime'): pv(W, t, _zb(v) == (ZF['gcd'](a.v, b.v) == 1), 'relative_prime: gcd is one')
    for nm, g in (('compare', None), ('add', lambda x, y: x + y), ('sub', lambda x, y: x - y), ('mult', MUL), ('div', ZF['div']), ('mod_', ZF['rem']), ('lcm', ZF['lcm']), ('mod_inv', ZF['invert'])):
        st, f = W.bnval(st, nm)
        for t, v in expect_vals(W, W.call(st, f, a, b), nm):
            if g is None: W.prove(t, z3.And((_z(v) > 0) == (a.v > b.v), (_z(v) == 0) == (a.v == b.v)), 'compare: order of the numbers')
            else: pv(W, t, _z(v.v) == g(a.v, b.v), f'{nm}: is the operation of Z')
# ---- Chinese remainder: result is the number below p q congruent to the powers modulo p and q (ideal membership over the integers)
def crt(W):
    import sympy as sp
    hooks(W); nm = 'mod_power_CRT'; st = W.init(); vs = {}
    for x, lo in (('a', 0), ('p', 2), ('q', 2), ('dp', 0), ('dq', 0), ('qinv', 0)): st, vs[x] = num(W, st, x, lo)
    st, f = W.bnval(st, nm); sym = {vs[x].v.get_id(): sp.Symbol(x) for x in vs}; P, Q, A, QI, K2 = sp.symbols('p q a qinv K2')
    def poly(e, rel, atoms):
        if z3.is_int_value(e): return sp.Integer(e.as_long())
        if e.get_id() in sym: return sym[e.get_id()]
        n = e.decl().name(); c = e.children(); k = e.decl().kind()
        if k == z3.Z3_OP_ADD: return sum((poly(x, rel, atoms) for x in c), sp.Integer(0))
        if k == z3.Z3_OP_SUB: return poly(c[0], rel, atoms) - sum(poly(x, rel, atoms) for x in c[1:])
        if k == z3.Z3_OP_UMINUS: return -poly(c[0], rel, atoms)
        if k == z3.Z3_OP_MUL or n == 'Z_mul':
            r = sp.Integer(1)
            for x in c: r *= poly(x, rel, atoms)
            return r
        key = e.get_id()
        if key in atoms: return atoms[key]
        s = sp.Symbol(f'{n}_{len(atoms)}'); atoms[key] = s; W.zkeep.append(e)
        if n in ('Z_rem', 'Z_erem'): rel.append(poly(c[0], rel, atoms) - poly(c[1], rel, atoms) * sp.Symbol(f'k_{s}') - s)
        elif n == 'Z_powm': atoms[('powm', key)] = (s, c)
        else: raise Unsupported('number term ' + n)
        return s
    def member(g, gens):
        gens = [sp.expand(x) for x in gens if sp.expand(x) != 0]; g = sp.expand(g)
        if g == 0: return True
        G = sp.groebner(gens, *sorted(set().union(*[x.free_symbols for x in gens + [g]]), key=str), order='grevlex', domain='ZZ') if False else sp.groebner(gens, *sorted(set().union(*[x.free_symbols for x in gens + [g]]), key=str), order='grevlex')
        return G.reduce(g)[1] == 0
    for t, v in expect_vals(W, W.call(st, f, *[vs[x] for x in ('a', 'p', 'q', 'dp', 'dq', 'qinv')]), nm):
        use(W, t, v, 'result of mod_power_CRT'); rel, atoms = [], {}; r = poly(_z(v.v), rel, atoms); pw = {}
        for kk, (s, c) in [(k, x) for k, x in atoms.items() if isinstance(k, tuple)]:
            for side, m, d in (('p', vs['p'].v, vs['dp'].v), ('q', vs['q'].v, vs['dq'].v)):
                if c[2].eq(m) and W.entails(t, c[1] == d) and member(poly(c[0], rel, atoms) - A, rel + [sym[m.get_id()]]): pw[side] = (s, _mk(c))
        ok = 'p' in pw and 'q' in pw; W.obs.append((f'{nm}: powers of a modulo p and q, with dp and dq', 'proved' if ok else 'unproved', str(r), None))
        if not ok: continue
        inv = [QI * Q - 1 - P * K2]
        for side, m in (('p', P), ('q', Q)): good = member(r - pw[side][0], rel + (inv if side == 'p' else []) + [m]); W.obs.append((f'{nm}: congruent to the power modulo {side}', 'proved' if good else 'unproved', f'{r} - {pw[side][0]} not in the ideal', None))
        # range
        zs = {s: z3.Int(str(s)) for s in r.free_symbols | {P, Q}}; u = W.init()
        sol = z3.Solver(); sol.set('timeout', 30000); zp, zq = zs[P], zs[Q]; sol.add(zp >= 2, zq >= 2)
        for key, s in atoms.items():
            if isinstance(key, tuple) or s not in zs: continue
            e = next(x for x in W.zkeep if isz(x) and x.get_id() == key); m = e.children()[2 if e.decl().name() == 'Z_powm' else 1]; mm = zs.get(sym.get(m.get_id())); sol.add(zs[s] >= 0)
            if mm is not None: sol.add(zs[s] < mm)
            # remainders are of non-negative numbers
            if e.decl().name() == 'Z_rem': pv(W, t, e.children()[0] >= 0, f'{nm}: remainders of non-negative numbers')
        zr = sp.lambdify(list(zs), r, modules='math')(*zs.values()) if r.free_symbols else z3.IntVal(int(r))
        sol.add(z3.Not(z3.And(zr >= 0, zr < zp * zq))); res = sol.check(); W.obs.append((f'{nm}: result between 0 and p q - 1', 'proved' if res == z3.unsat else 'unproved', str(res), None))
def _mk(c): return tuple(c)
UNITS = {'of-bytes': unit(of_bytes), 'to-bytes': unit(lambda W: to_bytes(W, False)), 'to-bytes-numbits': unit(lambda W: to_bytes(W, True)), 'random': unit(lambda W: random(W, None)), 'random-odd': unit(lambda W: random(W, True)), 'random-prime': unit(random_prime), 'arith': unit(mod_power), 'crt': unit(crt)}
