"""C19 (RSA), C20 (Diffie-Hellman, key derivation), C21 (Paillier), C22 (modular utilities on strings), C27 (key wipe).
Numbers: contracts of CryptokitBignum (proved by o_bn); the algebra (decryption inverts encryption, agreement,
homomorphism) follows from these contracts by the lemmas of lemmas/Lemmas.lean, checked by unit 'lemmas'."""
from oc import *
from oc import _z, _zb
from builtins_ml import ZF
from o_bn import *
GCD, LCM, REM, DIV, INV = (ZF[n] for n in ('gcd', 'lcm', 'rem', 'div', 'invert'))
def pk(W):
    """contracts of Bn.of_bytes, to_bytes, random, random_prime, mod_power_CRT; preconditions of Z.invert, Z.powm, Z.rem, Z.div"""
    hooks(W); W.nums = {}; W.extra = lambda *a: []; c_random(W); items = W.base.vars['Z'].items
    def of_bytes(W, st, a):
        rec = bm.B(W, st, a[0]); st, v = value(W, st, rec); z = Zn(v); W.zkeep.append(z); return [(st, 'val', z)]
    def to_bytes(W, st, a, numbits=None):
        n = _z(a[0].v); use(W, st, a[0], 'Bn.to_bytes')
        if numbits is not None:
            nb = numbits[1] if numbits[0] == '~' else numbits[1].arg; pv(W, st, NB(n) <= _z(nb), 'Bn.to_bytes: the number fits'); L = simp(z3.If(_z(nb) >= 0, (_z(nb) + 7) / 8, 0))
        else: st, L = W.sint(st, 'to_bytes.len', 0, MAXSTR); st = with_facts(st, NB(n)).assume(NB(n) <= 8 * L)
        pv(W, st, n >= 0, 'Bn.to_bytes: not negative')
        st, r = W.fnbuf(st, L, lambda i: BYTE(n, simp_z(_z(L) - 1 - _z(i)))); rec = st.get(r); W.nums[id(rec)] = (rec, n); return [(st, 'val', r)]
    W.over['of_bytes'] = Bi('of_bytes', 1, of_bytes); W.over['to_bytes'] = Bi('to_bytes', 1, to_bytes)
    def crt(W, st, a):
        for x in a: use(W, st, x, 'Bn.mod_power_CRT')
        vs = [_z(x.v) for x in a]; pv(W, st, z3.And(vs[0] >= 0, vs[1] >= 2, vs[2] >= 2, vs[3] >= 0, vs[4] >= 0, vs[5] >= 0), 'precondition of mod_power_CRT'); z = Zn(CRT(*vs)); W.zkeep.append(z); return [(st, 'val', z)]
    W.over['mod_power_CRT'] = Bi('mod_power_CRT', 6, crt)
    def pre(n, f, name):
        b = items[n]
        def fn(W, st, a, **kw): pv(W, st, f(*[_z(x.v) for x in a]), name); return b.fn(W, st, a, **kw)
        items[n] = Bi(b.name, b.arity, fn)
    pre('invert', lambda x, m: z3.And(m >= 1, GCD(x, m) == 1), 'Z.invert: the argument is invertible')
    for n in ('powm', 'powm_sec'): pre(n, lambda x, e, m: z3.And(e >= 0, m >= 1), 'Z.powm: exponent not negative, modulus positive')
    for n in ('rem', 'erem', 'div'): pre(n, lambda x, m: m >= 1, f'Z.{n}: positive divisor')
def value(W, st, rec):
    """number of a big-endian string"""
    h = W.nums.get(id(rec))
    if h is None: st, v = W.sint(st, 'num', 0, None); st = st.assume(NB(v) <= 8 * _z(rec.len)); h = W.nums[id(rec)] = (rec, v)
    return st, h[1]
def strnum(W, st, name, lo=0):
    st, r = W.symbuf(st, name); st, v = value(W, st, st.get(r)); return st.assume(v >= lo), r, v
def is_num(W, st, r, v, name, L=None):
    rec = st.get(r); h = W.nums.get(id(rec))
    if h is None: W.fail(st, name, 'not the result of Bn.to_bytes'); return
    pv(W, st, h[1] == v if isz(v) else v(h[1]), name)
    if L is not None: W.prove(st, _z(rec.len) == L, name + ' (length)')
def numval(W, st, r): return W.nums[id(st.get(r))][1]
def rngs(W, fn):
    """runs fn with the generator given, and with the default one"""
    R = W.ck.items['Random'].items; old = R['secure_rng']
    fn([('~rng', RNGOBJ())], '')
    R['secure_rng'] = RNGOBJ(); W.ck.items['Random'].env.vars['secure_rng'] = R['secure_rng']
    fn([], ' (default generator)')
def unchanged(W, t, st, refs, name):
    for r in refs: W.prove(t, z3.BoolVal(t.get(r) is st.get(r)), name + ': arguments unchanged')
# ---------------------------------------------------------------- C22
def modutil(W):
    pk(W)
    for nm, spec in (('mod_power', POWM), ('mod_mult', lambda a, b, c: REM(MUL(a, b), c))):
        st = W.init(); rs, vs = [], []
        for x, lo in (('a', 0), ('b', 0), ('c', 1)): st, r, v = strnum(W, st, x, lo); rs.append(r); vs.append(v)
        live(W, [st.assume(z3.And(vs[1] == 0, vs[2] == 1)), st.assume(z3.And(vs[1] > 0, vs[2] % 2 == 0))], nm); st, f = W.val(st, nm)
        for t, v in expect_vals(W, W.call(st, f, *rs), nm): is_num(W, t, v, spec(*vs), f'{nm}: the exact result', _z(st.get(rs[2]).len)); unchanged(W, t, st, rs, nm)
# ---------------------------------------------------------------- C19
PRIV = ('n', 'd', 'p', 'q', 'dp', 'dq', 'qinv')
def rsa_key(W, st, fields):
    st, size = W.sint(st, 'size', 0, 2**40); d = {'size': size}; vs = {}
    for x in fields: st, d[x], vs[x] = strnum(W, st, x, {'n': 1, 'p': 2, 'q': 2}.get(x, 0))
    st = st.assume(NB(vs['n']) <= size)
    if 'p' in vs: st = with_facts(st.assume(MUL(vs['p'], vs['q']) == vs['n']), MUL(vs['p'], vs['q']))
    st, k = W.alloc(st, Rec(d)); return st, k, d, vs, size
def rsa(W, fn):
    pk(W); pub = fn in ('encrypt', 'unwrap_signature'); crtp = fn.endswith('_CRT'); nm = 'RSA.' + fn
    st, k, d, vs, size = rsa_key(W, W.init(), ('n', 'e') if pub else PRIV); st, msg, M = strnum(W, st, 'msg'); live(W, [st.assume(M < vs['n']), st.assume(M >= vs['n'])], nm); st, f = W.val(st, nm)
    want = CRT(M, *[vs[x] for x in ('p', 'q', 'dp', 'dq', 'qinv')]) if crtp else POWM(M, vs['e' if pub else 'd'], vs['n'])
    for t, kk, v in W.call(st, f, k, msg):
        if kk == 'exc':
            if is_err(v, 'Message_too_long'): W.prove(t, M >= vs['n'], f'{nm}: Message_too_long only for messages not smaller than the modulus')
            else: W.fail(t, f'{nm}: exception', repr(v))
            continue
        W.prove(t, M < vs['n'], f'{nm}: accepts only messages smaller than the modulus'); is_num(W, t, v, want, f'{nm}: ' + ('power by the Chinese remainder theorem' if crtp else 'power modulo n'), (size + 7) / 8)
        unchanged(W, t, st, [msg] + [x for x in d.values() if isinstance(x, Ref)], nm)
def wipe_key(W, m, fields):
    pk(W); nm = m + '.wipe_key'; st, k, d, vs, size = rsa_key(W, W.init(), fields); st, f = W.val(st, nm)
    for t, v in expect_vals(W, W.call(st, f, k), nm):
        for x in fields: u, j = W.sint(t, 'j', 0, MAXSTR); r = d[x]; W.prove(u.assume(j < _z(u.get(r).len)), W.rd(u, u.get(r), j) == 0, f'{nm}: field {x} erased')
class KeyFacts:
    """number facts used during key generation, instantiated for every pair of generated primes"""
    def __init__(s, W):
        s.W = W; s.primes = []; pr = W.over['random_prime']
        def fn(W, st, a, **kw):
            out = []
            for t, k, v in pr.fn(W, st, a, **kw):
                if k == 'val': t = t.assume(GCD(v.v, v.v) == v.v)
                out.append((t, k, v))
            return out
        W.over['random_prime'] = Bi('random_prime', 1, fn)
        items = W.base.vars['Z'].items; inv = items['invert']
        def invert(W, st, a):
            x, m = _z(a[0].v), _z(a[1].v); return inv.fn(W, s.add(st, x, m), a)
        items['invert'] = Bi('Z.invert', 2, invert)
    def add(s, st, x, m):
        if m.decl().name() == 'Z_mul': a, b = m.children(); st = st.assume(z3.Implies(z3.And(GCD(x, a) == 1, GCD(x, b) == 1), GCD(x, m) == 1)).assume(z3.Implies(GCD(x, m) == 1, z3.And(GCD(x, a) == 1, GCD(x, b) == 1))).assume(GCD(x, a) == GCD(a, x)).assume(GCD(x, b) == GCD(b, x))
        if x.decl().name() == 'Z_lcm': a, b = x.children(); st = st.assume(z3.Implies(GCD(m, MUL(a, b)) == 1, GCD(x, m) == 1)).assume(z3.Implies(GCD(MUL(a, b), m) == 1, GCD(x, m) == 1)).assume(z3.Implies(GCD(m, MUL(b, a)) == 1, GCD(x, m) == 1))
        for u, v in ((x, m), (m, x)): st = st.assume(z3.Implies(z3.And(PRIME(u), PRIME(v), u != v), GCD(x, m) == 1)).assume(GCD(u, v) == GCD(v, u))
        return with_facts(st, GCD(x, m))
def rsa_new(W, withe):
    pk(W); KeyFacts(W); nm = 'RSA.new_key' + (' ~e' if withe else '')
    def go(lab, how):
        st, nb = W.sint(W.init(), 'numbits', -2**40, 2**40); E = None; bad = z3.Or(nb < 32, nb % 2 != 0); live(W, [st.assume(bad), st.assume(z3.Not(bad))], nm); st, f = W.val(st, 'RSA.new_key'); lab = list(lab)
        if withe: st, E = W.sint(st, 'e', 1); st = st.assume(NB(E) <= nb); lab.append(('~e', E))
        for t, k, v in W.apply(st, f, lab + [('', nb)]):
            if k == 'exc':
                if is_err(v, 'Wrong_key_size'): W.prove(t, bad, f'{nm}: Wrong_key_size only for a wrong size{how}')
                elif v.name != 'RngException': W.fail(t, f'{nm}: exception{how}', repr(v))
                continue
            W.prove(t, z3.Not(bad), f'{nm}: accepts only valid sizes{how}'); pr, pu = (t.get(x).fields for x in v)
            g = lambda rec, x: numval(W, t, rec[x])
            if any(id(t.get(pr[x])) not in W.nums for x in PRIV) or any(id(t.get(pu[x])) not in W.nums for x in ('n', 'e')): W.fail(t, f'{nm}: numbers of the key', 'erased or not numbers'); continue
            p, q, n, d, e = g(pr, 'p'), g(pr, 'q'), g(pr, 'n'), g(pr, 'd'), g(pu, 'e'); h = nb / 2
            pv(W, t, z3.And(PRIME(p), PRIME(q), p != q, NB(p) == h, NB(q) == h), f'{nm}: p and q are distinct primes of half the size{how}')
            pv(W, t, z3.And(n == MUL(p, q), g(pu, 'n') == n), f'{nm}: n is the product of p and q{how}')
            pv(W, t, z3.And(GCD(e, p - 1) == 1, GCD(e, q - 1) == 1), f'{nm}: e is coprime to p-1 and q-1{how}')
            if withe: W.prove(t, e == E, f'{nm}: e is the given exponent{how}')
            m1 = MUL(p - 1, q - 1); pv(W, t, z3.Or(d == INV(e, m1), d == INV(e, LCM(p - 1, q - 1))), f'{nm}: d is the inverse of e modulo (p-1)(q-1){how}', MUL(q - 1, p - 1))
            pv(W, t, z3.And(g(pr, 'dp') == REM(d, p - 1), g(pr, 'dq') == REM(d, q - 1), g(pr, 'qinv') == INV(q, p)), f'{nm}: exponents and coefficient of the Chinese remainder theorem{how}')
            W.prove(t, z3.And(_z(pr['size']) == nb, _z(pu['size']) == nb, *[_z(t.get(r[x]).len) == (s + 7) / 8 for r, x, s in [(pr, 'n', nb), (pr, 'd', nb), (pu, 'n', nb), (pu, 'e', nb)] + [(pr, x, h) for x in ('p', 'q', 'dp', 'dq', 'qinv')]]), f'{nm}: sizes{how}')
    rngs(W, go)
# ---------------------------------------------------------------- C20
def dh(W):
    pk(W); KeyFacts(W)
    def params(lab, how):
        for withp in (False, True):
            nm = 'DH.new_parameters'; st, nb = W.sint(W.init(), 'numbits', -2**40, 2**40); pl = 160; l2 = list(lab)
            if withp: st, pl = W.sint(st, 'privlen', -2**40, 2**40); l2.append(('~privlen', pl))
            bad = z3.Or(nb < 32, nb <= pl); live(W, [st.assume(bad), st.assume(z3.Not(bad))], nm); st, f = W.val(st, nm)
            for t, k, v in W.apply(st, f, l2 + [('', nb)]):
                if k == 'exc':
                    if is_err(v, 'Wrong_key_size'): W.prove(t, bad, f'{nm}: Wrong_key_size only for a wrong size{how}')
                    elif v.name != 'RngException': W.fail(t, f'{nm}: exception{how}', repr(v))
                    continue
                W.prove(t, z3.Not(bad), f'{nm}: accepts only valid sizes{how}'); r = t.get(v).fields
                if any(id(t.get(r[x])) not in W.nums for x in ('p', 'g')): W.fail(t, f'{nm}: numbers of the parameters', ''); continue
                p, g = numval(W, t, r['p']), numval(W, t, r['g']); t = t.assume(z3.Implies(NB(g) < NB(p), g < p))
                pv(W, t, z3.And(PRIME(p), NB(p) == nb, g > 1, g < p), f'{nm}: prime of the requested size, generator between 1 and p{how}'); W.prove(t, z3.And(_z(r['privlen']) == pl, *[_z(t.get(r[x]).len) == (nb + 7) / 8 for x in ('p', 'g')]), f'{nm}: sizes{how}')
    def secret(lab, how):
        nm = 'DH.private_secret'; st, pl = W.sint(W.init(), 'privlen', 1, 2**40); st, p, P = strnum(W, st, 'p', 1); st, g, G = strnum(W, st, 'g'); st, k = W.alloc(st, Rec(dict(p=p, g=g, privlen=pl))); st, f = W.val(st, nm)
        for t, v in expect_vals(W, W.apply(st, f, list(lab) + [('', k)]), nm, [lambda st, v: v.name == 'RngException']): W.prove(t, NB(_z(v.v)) == pl, f'{nm}: a random number of privlen bits{how}')
    rngs(W, lambda l, h: (params(l, h), secret(l, h)))
    st, p, P = strnum(W, W.init(), 'p', 1); st, g, G = strnum(W, st, 'g'); st, other, O = strnum(W, st, 'othermsg'); st, pl = W.sint(st, 'privlen', 1, 2**40); st, x = num(W, st, 'privsec'); st, k = W.alloc(st, Rec(dict(p=p, g=g, privlen=pl))); L = _z(st.get(p).len); live(W, [st], 'DH')
    st, f = W.val(st, 'DH.message')
    for t, v in expect_vals(W, W.call(st, f, k, x), 'DH.message'): is_num(W, t, v, POWM(G, x.v, P), 'DH.message: g to the private secret modulo p', L); use(W, t, x, 'private secret after DH.message'); unchanged(W, t, st, [p, g], 'DH.message')
    st, f = W.val(st, 'DH.shared_secret')
    for t, v in expect_vals(W, W.call(st, f, k, x, other), 'DH.shared_secret'):
        is_num(W, t, v, POWM(O, x.v, P), 'DH.shared_secret: the message of the other to the private secret modulo p', L); unchanged(W, t, st, [p, g, other], 'DH.shared_secret'); W.prove(t, z3.BoolVal(bool(W.al(x) & t.ghost.get('wiped', frozenset()))), 'DH.shared_secret: the private secret is wiped')
def derive(W):
    nm = 'DH.derive_key'; SHA = z3.Function('SHA', Int, Int, BV8); DEC = z3.Function('DEC', Int, Int, BV8); DL = z3.Function('DECLEN', Int, Int)
    def soi(W, st, a):
        k = _z(bm.toint(a[0])); W.lastdec = k; st = st.assume(z3.And(DL(k) >= 1, DL(k) <= 20)); st, r = W.fnbuf(st, DL(k), lambda i: DEC(k, _z(i))); return [(st, 'val', r)]
    W.base.vars['string_of_int'] = Bi('string_of_int', 1, soi)
    for withd in (False, True):
        st, sec = W.symbuf(W.init(), 'sharedsec', hi=2**30); S = st.get(sec); D = None; lab = []
        if withd: st, div = W.symbuf(st, 'diversification', hi=2**30); D = st.get(div); lab = [('~diversification', div)]
        ld = _z(D.len) if withd else z3.IntVal(0); ls = _z(S.len); st, n = W.sint(st, 'numbytes', MININT, MAXINT); live(W, [st.assume(n > 70), st.assume(n == 0)], nm); st, f = W.val(st, nm)
        def hs(W, st, a):
            h, s = a; rec = bm.B(W, st, s); k = W.lastdec; W.prove(st, z3.BoolVal(isinstance(h, PyObj) and h.name == 'sha256'), f'{nm}: SHA-256'); st, i = W.sint(st, 'i', 0, MAXSTR)
            W.prove(st, _z(rec.len) == ld + ls + DL(k), f'{nm}: hashed text is diversification, secret, counter (length)'); u = st.assume(i < _z(rec.len)); b = z3.If(i < ld + ls, W.rd(u, S, simp(i - ld)), DEC(k, simp_z(i - ld - ls)))
            if withd: b = z3.If(i < ld, W.rd(u, D, i), b)
            W.prove(u, W.rd(u, rec, i) == b, f'{nm}: hashed text is diversification, secret, counter'); st, r = W.fnbuf(st, 32, lambda j: SHA(k, _z(j))); return [(st, 'val', r)]
        W.over['hash_string'] = Bi('hash_string', 2, hs); W.over['sha256'] = Bi('sha256', 1, lambda W, st, a: [(st, 'val', PyObj('sha256', {}))])
        def arr(st, st0, hid, vals):
            ints = [_z(v) for v in vals if is_int(v)]
            if not ints: return None
            b0 = st0.heap[hid]; c = ints[0]
            return Buf(b0.len, base=lambda s_, k: z3.If(z3.And(_z(k) >= 0, _z(k) < c), SHA(1 + _z(k) / 32, _z(k) % 32), W.rd(s_, b0, k)))
        W.arr = arr
        for t, k, v in W.apply(st, f, lab + [('', sec), ('', n)]):
            if k == 'exc':
                if v.name == 'Invalid_argument': W.prove(t, z3.Or(n < 0, n > MAXSTR), f'{nm}: Invalid_argument only for an impossible length')
                else: W.fail(t, f'{nm}: exception', repr(v))
                continue
            W.prove(t, _z(t.get(v).len) == n, f'{nm}: exactly the requested length'); t, i = W.sint(t, 'i', 0, MAXSTR); u = t.assume(i < n)
            W.prove(u, W.rd(u, u.get(v), i) == SHA(1 + i / 32, i % 32), f'{nm}: block k of the result is SHA-256(diversification, secret, k)'); W.prove(t, z3.BoolVal(t.get(sec) is S and (not withd or t.get(div) is D)), f'{nm}: arguments unchanged')
# ---------------------------------------------------------------- C21
def pail_enc(W):
    pk(W); nm = 'Paillier.encrypt'
    def go(lab, how):
        st, size = W.sint(W.init(), 'size', 32, 2**40); d = {'size': size}; vs = {}
        for x, lo in (('n', 2), ('n2', 2), ('g', 1)): st, d[x], vs[x] = strnum(W, st, x, lo)
        st, msg, M = strnum(W, st, 'msg'); st, k = W.alloc(st, Rec(d)); live(W, [st], nm); st, f = W.val(st, nm)
        for t, v in expect_vals(W, W.apply(st, f, list(lab) + [('', k), ('', msg)]), nm, [lambda st, v: v.name == 'RngException']):
            rec = t.get(v); h = W.nums.get(id(rec))
            if h is None: W.fail(t, f'{nm}: result', 'not a number'); continue
            rs = [e for e in subterms([h[1]]) if z3.is_const(e) and e.decl().name().startswith('rnd')]; W.prove(t, z3.BoolVal(len(rs) == 1), f'{nm}: one random factor{how}')
            if len(rs) != 1: continue
            R = rs[0]; pv(W, t, h[1] == REM(MUL(POWM(vs['g'], M, vs['n2']), POWM(R, vs['n'], vs['n2'])), vs['n2']), f'{nm}: g^m r^n modulo n^2{how}', MUL(POWM(R, vs['n'], vs['n2']), POWM(vs['g'], M, vs['n2'])))
            W.prove(t, z3.And(GCD(R, vs['n']) == 1, R < vs['n'], NB(R) == size - 1), f'{nm}: r is random, below n and coprime to n{how}'); W.prove(t, _z(rec.len) == _z(st.get(d['n2']).len), f'{nm}: length{how}'); unchanged(W, t, st, [msg] + [d[x] for x in vs], nm)
    rngs(W, go)
    nm = 'Paillier.add'; st, size = W.sint(W.init(), 'size', 32, 2**40); d = {'size': size}; vs = {}
    for x, lo in (('n', 2), ('n2', 2), ('g', 1)): st, d[x], vs[x] = strnum(W, st, x, lo)
    st, c1, C1 = strnum(W, st, 'c1'); st, c2, C2 = strnum(W, st, 'c2'); st, k = W.alloc(st, Rec(d)); st, f = W.val(st, nm)
    for t, v in expect_vals(W, W.call(st, f, k, c1, c2), nm): is_num(W, t, v, lambda h: h == REM(MUL(C1, C2), vs['n2']), f'{nm}: product modulo n^2', _z(st.get(d['n2']).len)); unchanged(W, t, st, [c1, c2] + [d[x] for x in vs], nm)
PPRIV = ('n', 'n2', 'p', 'q', 'lambda', 'mu')
def pail_dec(W):
    pk(W); nm = 'Paillier.decrypt'; st, size = W.sint(W.init(), 'size', 32, 2**40); d = {'size': size}; vs = {}
    for x in PPRIV: st, d[x], vs[x] = strnum(W, st, x, 2 if x in ('n', 'n2') else 0)
    st, c, C = strnum(W, st, 'c'); st, k = W.alloc(st, Rec(d)); live(W, [st], nm); st, f = W.val(st, nm)
    cn = POWM(C, vs['lambda'], vs['n2']); lx = DIV(cn - 1, vs['n'])
    # Z.div truncates towards zero
    st = st.assume(z3.Implies(cn >= 1, lx >= 0)).assume(z3.Implies(cn == 0, lx == 0)).assume(cn >= 0)
    for t, v in expect_vals(W, W.call(st, f, k, c), nm): is_num(W, t, v, REM(MUL(lx, vs['mu']), vs['n']), f'{nm}: L(c^lambda mod n^2) mu mod n'); unchanged(W, t, st, [c] + [d[x] for x in vs], nm)
def pail_new(W):
    pk(W); KeyFacts(W); nm = 'Paillier.new_key'
    def go(lab, how):
        st, nb = W.sint(W.init(), 'numbits', -2**40, 2**40); bad = z3.Or(nb < 32, nb % 2 != 0); live(W, [st.assume(bad), st.assume(z3.Not(bad))], nm); st, f = W.val(st, nm)
        for t, k, v in W.apply(st, f, list(lab) + [('', nb)]):
            if k == 'exc':
                if is_err(v, 'Wrong_key_size'): W.prove(t, bad, f'{nm}: Wrong_key_size only for a wrong size{how}')
                elif v.name != 'RngException': W.fail(t, f'{nm}: exception{how}', repr(v))
                continue
            W.prove(t, z3.Not(bad), f'{nm}: accepts only valid sizes{how}'); pr, pu = (t.get(x).fields for x in v)
            if any(id(t.get(pr[x])) not in W.nums for x in PPRIV) or any(id(t.get(pu[x])) not in W.nums for x in ('n', 'n2', 'g')): W.fail(t, f'{nm}: numbers of the key', ''); continue
            a, b = ({x: numval(W, t, r[x]) for x in xs} for r, xs in ((pr, PPRIV), (pu, ('n', 'n2', 'g')))); p, q, n = a['p'], a['q'], a['n']
            pv(W, t, z3.And(PRIME(p), PRIME(q), p != q, NB(p) == nb / 2, NB(q) == nb / 2), f'{nm}: p and q are distinct primes of half the size{how}')
            pv(W, t, z3.And(n == MUL(p, q), a['n2'] == MUL(n, n), b['n'] == n, b['n2'] == a['n2'], b['g'] == n + 1), f'{nm}: n, n^2 and g = n + 1{how}')
            pv(W, t, z3.Or(GCD(n, MUL(p - 1, q - 1)) == 1), f'{nm}: n is coprime to (p-1)(q-1){how}'); pv(W, t, z3.And(a['lambda'] == LCM(p - 1, q - 1), a['mu'] == INV(a['lambda'], n)), f'{nm}: lambda and its inverse{how}')
            W.prove(t, z3.And(_z(pr['size']) == nb, _z(pu['size']) == nb), f'{nm}: sizes{how}')
    rngs(W, go)
# ---------------------------------------------------------------- number theory (Lean 4, Mathlib)
def lemmas(names):
    def run(rep):
        import subprocess, re
        f = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lemmas', 'Lemmas.lean')
        try: p = subprocess.run(['lean', f], capture_output=True, text=True, timeout=600); out = p.stdout + p.stderr; rc = p.returncode
        except Exception as e: out, rc = repr(e), 1
        for n in names:
            m = re.search(r"'%s' depends on axioms: \[(.*)\]" % n, out); ok = rc == 0 and m and set(m.group(1).split(', ')) <= {'propext', 'Classical.choice', 'Quot.sound'}
            rep.ob(f'lemma {n} (lemmas/Lemmas.lean)', 'proved' if ok else 'unsupported', 'lean4', '' if ok else out[-600:])
    return run
UNITS = {'mod-utilities': unit(modutil), 'rsa-new-key': unit(lambda W: rsa_new(W, False)), 'rsa-new-key-e': unit(lambda W: rsa_new(W, True)), 'dh': unit(dh), 'derive-key': unit(derive),
         'paillier-encrypt': unit(pail_enc), 'paillier-decrypt': unit(pail_dec), 'paillier-new-key': unit(pail_new), 'rsa-wipe-key': unit(lambda W: wipe_key(W, 'RSA', PRIV)), 'paillier-wipe-key': unit(lambda W: wipe_key(W, 'Paillier', PPRIV))}
for _f in ('encrypt', 'unwrap_signature', 'decrypt', 'sign', 'decrypt_CRT', 'sign_CRT'): UNITS['rsa-' + _f] = unit(lambda W, f=_f: rsa(W, f))
UNITS.update({'lemma-rsa': lemmas(['coprime_mul', 'coprime_primes', 'size_mul', 'size_le', 'inv_mod_factors', 'inv_mod_factors_lcm', 'rsa', 'rsa_crt']), 'lemma-dh': lemmas(['dh_agree', 'lt_of_size_lt']), 'lemma-paillier': lemmas(['coprime_lcm', 'lcm_le', 'paillier', 'paillier_add'])})
