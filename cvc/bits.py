"""Bit-level term bank: hash-consed XOR/AND/LUT/word-add nodes with random-simulation
signatures and proof-checked merging (a merge is only made when one of the three
small proof rules below succeeds; signatures alone never identify two nodes).

A literal is 2*node+neg.  Words are tuples of literals, LSB first."""
import random, hashlib

LANES = 128
FULL = (1 << LANES) - 1

class Bank:
    FLAT = 12
    def __init__(self, seed=1, flat=None):
        self.rng = random.Random(seed)
        self.kind = ['C']; self.data = [None]; self.sig = [0]
        self.tab = {}            # structural key -> literal
        self.bysig = {}          # normalised signature -> list of nodes
        self.bysig[0] = [0]
        self.addtab = {}         # word tuple -> add definition
        self.addsig = {}
        self.vars = {}
        self.nproof = 0; self.nmerge = 0; self.nfail = 0
        if flat: self.FLAT = flat
        self.lutcache = {}
    # -- basic -----------------------------------------------------------
    def lsig(self, l):
        s = self.sig[l >> 1]
        return s ^ FULL if l & 1 else s
    def _new(self, kind, data, sig):
        n = len(self.kind)
        self.kind.append(kind); self.data.append(data); self.sig.append(sig)
        return n
    def var(self, name, sig=None):
        l = self.vars.get(name)
        if l is None:
            s = self.rng.getrandbits(LANES) if sig is None else sig
            n = self._new('V', name, s)
            self.vars[name] = l = 2 * n
            self._reg(n)
        return l
    def _reg(self, n):
        s = self.sig[n]
        if s & 1: s ^= FULL
        self.bysig.setdefault(s, []).append(n)
    def word(self, name, w):
        return tuple(self.var((name, i)) for i in range(w))
    def const(self, v, w):
        return tuple((v >> i) & 1 for i in range(w))
    @staticmethod
    def as_int(bits):
        v = 0
        for i, b in enumerate(bits):
            if b > 1: return None
            if b: v |= 1 << i
        return v
    # -- interning with functional reduction -------------------------------
    def _intern(self, key, kind, data, sig):
        """key not in tab. Return literal for the node."""
        s = sig; neg = 0
        if s & 1: s ^= FULL; neg = 1
        cand = self.bysig.get(s)
        if cand:
            n = self._new(kind, data, sig)   # provisional node, used as proof subject
            for m in cand[-3:]:
                ms = self.sig[m]
                flip = 1 if ms != sig else 0
                if self._prove(n, m, flip):
                    self.nmerge += 1
                    l = 2 * m + flip
                    self.tab[key] = l
                    # keep the provisional node (unreferenced)
                    return l
            self.nfail += 1
            cand.append(n)
            self.tab[key] = 2 * n
            return 2 * n
        n = self._new(kind, data, sig)
        self.bysig[s] = [n]
        self.tab[key] = 2 * n
        return 2 * n
    # -- XOR ---------------------------------------------------------------
    def xor(self, a, b):
        if a < 2: return b ^ a
        if b < 2: return a ^ b
        d = a ^ b
        if d < 2: return d
        key = ('x', a & ~1, b & ~1) if a < b else ('x', b & ~1, a & ~1)
        r = self.tab.get(key)
        par = (a ^ b) & 1
        if r is None:
            r = self.xorn([a & ~1, b & ~1])
            self.tab[key] = r
        return r ^ par
    def _flat(self, lits):
        """set of nodes, parity; flattening small XOR nodes"""
        S = set(); par = 0; FL = self.FLAT
        kind = self.kind; data = self.data
        for l in lits:
            par ^= l & 1
            n = l >> 1
            if n == 0: continue
            if kind[n] == 'X' and len(data[n]) <= FL:
                S.symmetric_difference_update(data[n])
            else:
                if n in S: S.remove(n)
                else: S.add(n)
        return S, par
    def _lutmerge(self, S, par):
        kind = self.kind
        while True:
            groups = None
            for n in S:
                if kind[n] == 'L':
                    if groups is None: groups = {}
                    groups.setdefault(self.data[n][0], []).append(n)
            if not groups: return S, par
            changed = False
            for ins, ns in groups.items():
                if len(ns) > 1:
                    tt = 0
                    for n in ns:
                        tt ^= self.data[n][1]; S.remove(n)
                    l = self.lut([2 * i for i in ins], tt)
                    par ^= l & 1; m = l >> 1
                    if m:
                        if kind[m] == 'X':
                            S.symmetric_difference_update(self.data[m])
                        elif m in S: S.remove(m)
                        else: S.add(m)
                    changed = True
            if not changed: return S, par
    def xorn(self, lits):
        S, par = self._flat(lits)
        if len(S) > 1: S, par = self._lutmerge(S, par)
        if not S: return par
        if len(S) == 1:
            for n in S: return 2 * n + par
        t = tuple(sorted(S))
        key = ('X', t)
        r = self.tab.get(key)
        if r is None:
            s = 0; sg = self.sig
            for n in t: s ^= sg[n]
            r = self._intern(key, 'X', t, s)
        return r ^ par
    # -- AND -----------------------------------------------------------------
    def and_(self, a, b):
        if a < 2: return b if a else 0
        if b < 2: return a if b else 0
        if a == b: return a
        if a ^ b == 1: return 0
        if a > b: a, b = b, a
        key = ('A', a, b)
        r = self.tab.get(key)
        if r is None:
            r = self._intern(key, 'A', (a, b), self.lsig(a) & self.lsig(b))
        return r
    def or_(self, a, b): return self.and_(a ^ 1, b ^ 1) ^ 1
    def ite(self, c, a, b):
        if c < 2: return a if c else b
        if a == b: return a
        return self.xor(b, self.and_(c, self.xor(a, b)))
    def andn(self, lits):
        r = 1
        for l in lits: r = self.and_(r, l)
        return r
    # -- LUT -------------------------------------------------------------------
    def lut(self, ins, tt):
        """ins: literals (LSB of the index first); tt: int, bit i = output for index i."""
        k = len(ins)
        key = ('l', tuple(ins), tt)
        r = self.tab.get(key)
        if r is not None: return r
        r = self._lut(list(ins), tt)
        self.tab[key] = r
        return r
    def _lut(self, ins, tt):
        # constants, negations, duplicates
        i = 0
        while i < len(ins):
            l = ins[i]
            if l < 2: tt = cofactor(tt, len(ins), i, l); del ins[i]; continue
            if l & 1:
                tt = negin(tt, len(ins), i); ins[i] = l ^ 1
            dup = None
            for j in range(i):
                if ins[j] == ins[i]: dup = j; break
            if dup is not None:
                # keep only entries where the two agree
                k = len(ins); nt = 0; m = 0
                for x in range(1 << (k - 1)):
                    # index with bit i removed = x ; bit i := bit dup
                    lo = x & ((1 << i) - 1); hi = x >> i
                    bd = (lo >> dup) & 1
                    y = lo | (bd << i) | (hi << (i + 1))
                    if (tt >> y) & 1: nt |= 1 << x
                tt = nt; del ins[i]; continue
            i += 1
        # independent inputs
        i = 0
        while i < len(ins):
            c0 = cofactor(tt, len(ins), i, 0); c1 = cofactor(tt, len(ins), i, 1)
            if c0 == c1: tt = c0; del ins[i]
            else: i += 1
        k = len(ins)
        if k == 0: return tt & 1
        if k == 1: return ins[0] ^ (1 if tt == 1 else 0)
        # composition: all inputs are LUT nodes over one common input tuple
        com = None
        if all(self.kind[l >> 1] == 'L' for l in ins):
            com = self.data[ins[0] >> 1][0]
            for l in ins:
                if self.data[l >> 1][0] != com: com = None; break
        if com is not None:
            tts = [self.data[l >> 1][1] for l in ins]
            nt = 0
            for x in range(1 << len(com)):
                y = 0
                for j, t in enumerate(tts): y |= ((t >> x) & 1) << j
                nt |= ((tt >> y) & 1) << x
            return self.lut([2 * c for c in com], nt)
        # sort inputs
        order = sorted(range(k), key=lambda j: ins[j])
        if order != list(range(k)):
            nt = 0
            for x in range(1 << k):
                y = 0
                for p, j in enumerate(order): y |= ((x >> p) & 1) << j
                nt |= ((tt >> y) & 1) << x
            tt = nt; ins = [ins[j] for j in order]
        # linear?
        anf = mobius(tt, k)
        lin = anf & 1
        res = []
        for j in range(k):
            if (anf >> (1 << j)) & 1: res.append(ins[j]); lin |= 1 << (1 << j)
        if anf == lin:
            return self.xorn(res) ^ (anf & 1)
        if k == 2:
            # one product term
            r = self.and_(ins[0], ins[1])
            return self.xorn([r] + res) ^ (anf & 1)
        neg = tt & 1
        if neg: tt ^= (1 << (1 << k)) - 1
        nodes = tuple(l >> 1 for l in ins)
        key = ('L', nodes, tt)
        r = self.tab.get(key)
        if r is None:
            s = self.lutsig(nodes, tt)
            r = self._intern(key, 'L', (nodes, tt), s)
        return r ^ neg
    def lutsig(self, nodes, tt):
        sg = self.sig
        k = len(nodes)
        x = sg[nodes[0]]; nx = x ^ FULL
        four = (0, nx, x, FULL)
        cur = [four[(tt >> (2 * i)) & 3] for i in range(1 << (k - 1))]
        for n in nodes[1:]:
            x = sg[n]; nx = x ^ FULL
            cur = [(cur[i] & nx) | (cur[i + 1] & x) for i in range(0, len(cur), 2)]
        return cur[0]
    # -- word addition ------------------------------------------------------------
    def add(self, terms, const, w):
        """sum of coef*word + const mod 2^w.  terms: [(coef, word)]"""
        M = (1 << w) - 1
        # constants and disjointness
        T = {}; c = const & M
        for coef, word in terms:
            v = self.as_int(word)
            if v is not None: c = (c + coef * v) & M; continue
            d = self.addtab.get(word)
            if d is not None and len(d[0]) <= self.FLAT:
                for ww, cc in d[0]:
                    T[ww] = (T.get(ww, 0) + coef * cc) & M
                c = (c + coef * d[1]) & M
            else:
                T[word] = (T.get(word, 0) + coef) & M
        T = {k: v for k, v in T.items() if v}
        if not T: return self.const(c, w)
        if len(T) == 1 and c == 0:
            (ww, cc), = T.items()
            if cc == 1: return ww
        # power of two coefficients become shifts when alone or disjoint
        items = []
        for ww, cc in T.items():
            items.append((ww, cc))
        sh = [(ww if cc == 1 else (tuple([0] * (cc.bit_length() - 1)) + ww)[:w]) if cc & (cc - 1) == 0 else None for ww, cc in items]
        if all(x is not None for x in sh):
            ok = True; out = list(self.const(c, w))
            for x in sh:
                for i in range(w):
                    if x[i]:
                        if out[i]: ok = False; break
                        out[i] = x[i]
                if not ok: break
            if ok: return tuple(out)
        items.sort()
        key = ('+', tuple(items), c, w)
        r = self.tab.get(key)
        if r is not None: return r
        # signature
        sig = self._addsig(items, c, w)
        st = tuple(sig)
        for other in self.addsig.get(st, ()):
            if self._proveadd(items, c, other, w):
                self.tab[key] = other; self.nmerge += 1
                return other
        bits = []
        dref = (tuple(items), c)
        for i in range(w):
            s = sig[i]
            ns = s ^ FULL if s & 1 else s
            if ns == 0 and s in (0, FULL):
                # looks constant: keep as node unless provable
                pass
            n = self._new('W', (dref, i, w), s)
            self.bysig.setdefault(ns, []).append(n)
            bits.append(2 * n)
        res = tuple(bits)
        self.tab[key] = res
        self.addtab[res] = dref
        self.addsig.setdefault(st, []).append(res)
        return res
    def _addsig(self, items, c, w):
        # bit-sliced accumulation
        acc = [FULL if (c >> i) & 1 else 0 for i in range(w)]
        for ww, cc in items:
            M = 1 << w
            neg = False
            if cc > M // 2 and bin(M - cc).count('1') < bin(cc).count('1'):
                neg = True; cc = M - cc
            base = [self.lsig(l) for l in ww]
            sft = 0
            while cc:
                if cc & 1:
                    x = [0] * sft + base[:w - sft]
                    if neg:
                        carry = FULL
                        for i in range(w):
                            a = acc[i]; b = x[i] ^ FULL; t = a ^ b
                            acc[i] = t ^ carry; carry = (a & b) | (t & carry)
                    else:
                        carry = 0
                        for i in range(sft, w):
                            a = acc[i]; b = x[i]; t = a ^ b
                            acc[i] = t ^ carry; carry = (a & b) | (t & carry)
                cc >>= 1; sft += 1
        return acc
    def _proveadd(self, items, c, other, w):
        M = (1 << w) - 1
        D = dict(items); k = c
        d = self.addtab.get(other)
        if d is None: return False
        for ww, cc in d[0]: D[ww] = (D.get(ww, 0) - cc) & M
        k = (k - d[1]) & M
        for step in range(400):
            D = {a: b for a, b in D.items() if b}
            if not D: return k == 0
            best = None
            for ww in D:
                if ww in self.addtab:
                    h = max(ww)
                    if best is None or h > best[0]: best = (h, ww)
            if best is None: return False
            ww = best[1]; cc = D.pop(ww); d = self.addtab[ww]
            for w2, c2 in d[0]: D[w2] = (D.get(w2, 0) + cc * c2) & M
            k = (k + cc * d[1]) & M
        return False
    def ult(self, a, b):
        """carry-out style comparison bit a <u b"""
        va, vb = self.as_int(a), self.as_int(b)
        if va is not None and vb is not None: return int(va < vb)
        if vb == 0: return 0
        key = ('u', a, b)
        r = self.tab.get(key)
        if r is None:
            borrow = 0
            for x, y in zip(a, b):
                sx = self.lsig(x); sy = self.lsig(y)
                nx = sx ^ FULL
                borrow = (nx & sy) | ((nx | sy) & borrow)
            r = self._intern(key, 'U', (a, b), borrow)
        return r
    def eq(self, a, b):
        r = 1
        for x, y in zip(a, b):
            r = self.and_(r, self.xor(x, y) ^ 1)
            if r == 0: return 0
        return r
    # -- uninterpreted functions -----------------------------------------------
    def uf(self, name, args, w):
        """args: tuple of words (tuples of literals) / hashables; deterministic per lane."""
        key = ('F', name, args, w)
        r = self.tab.get(key)
        if r is not None: return r
        sl = []
        for a in args:
            if isinstance(a, tuple) and a and isinstance(a[0], int): sl.append([self.lsig(l) for l in a])
            else: sl.append(a)
        outs = [0] * w
        pre = repr(name) + repr([x for x in sl if not isinstance(x, list)])
        flat = [s for x in sl if isinstance(x, list) for s in x]
        # transpose lanes
        for lane in range(LANES):
            v = 0
            for j, s in enumerate(flat): v |= ((s >> lane) & 1) << j
            h = hashlib.shake_128((pre + hex(v)).encode()).digest((w + 7) // 8)
            hv = int.from_bytes(h, 'little')
            for i in range(w): outs[i] |= ((hv >> i) & 1) << lane
        res = []
        for i in range(w):
            n = self._new('F', (key, i), outs[i]); self._reg(n); res.append(2 * n)
        r = tuple(res)
        self.tab[key] = r
        return r
    # -- proofs -----------------------------------------------------------------
    def _prove(self, n, m, flip):
        self.nproof += 1
        kind = self.kind; data = self.data
        S = set()
        for x in (n, m):
            if kind[x] == 'X': S.symmetric_difference_update(data[x])
            elif x in S: S.remove(x)
            else: S.add(x)
        return self._zero(S, flip)
    def _zero(self, S, par, limit=200):
        """is the XOR of the nodes of S equal to the constant par?"""
        kind = self.kind; data = self.data
        if not S: return par == 0
        if len(S) <= 10 and self._cutzero(S, par): return True
        for step in range(limit):
            best = -1
            for x in S:
                if x > best and kind[x] == 'X': best = x
            if best < 0: break
            S.remove(best); S.symmetric_difference_update(data[best])
            if not S: return par == 0
            if len(S) > 2048: return False
            if len(S) <= 6 and step % 4 == 0 and self._cutzero(S, par): return True
        T, p2 = self._lutmerge(set(S), par)
        if not T: return p2 == 0
        return len(T) <= 10 and self._cutzero(T, p2)
    def _fanin(self, n):
        k = self.kind[n]; d = self.data[n]
        if k == 'X': return d
        if k == 'A': return (d[0] >> 1, d[1] >> 1)
        if k == 'L': return d[0]
        return None
    def _cutzero(self, S, par):
        return self._try_cut(S, par, 10, 60, 2) or self._try_cut(S, par, 10, 60, 8)
    def _try_cut(self, S, par, maxleaves, maxsteps, maxx):
        leaves = set(S); frozen = set()
        kind = self.kind
        for step in range(maxsteps):
            cand = leaves - frozen
            if not cand: break
            x = max(cand)
            f = self._fanin(x)
            if f is None or (kind[x] == 'X' and len(f) > maxx):
                frozen.add(x); continue
            new = (leaves - {x}) | set(y for y in f if y)
            if len(new) > maxleaves: frozen.add(x); continue
            leaves = new
        L = sorted(leaves); k = len(L)
        val = {}
        full = (1 << (1 << k)) - 1
        for i, x in enumerate(L): val[x] = vartt(i, k)
        val[0] = 0
        try:
            r = 0
            for x in S: r ^= self._ev(x, val, full)
        except (KeyError, RecursionError):
            return False
        return r == (full if par else 0)
    def _ev(self, x, val, full):
        r = val.get(x)
        if r is not None: return r
        kd = self.kind[x]; d = self.data[x]
        if kd == 'X':
            r = 0
            for y in d: r ^= self._ev(y, val, full)
        elif kd == 'A':
            a = self._ev(d[0] >> 1, val, full); b = self._ev(d[1] >> 1, val, full)
            if d[0] & 1: a ^= full
            if d[1] & 1: b ^= full
            r = a & b
        elif kd == 'L':
            ts = [self._ev(y, val, full) for y in d[0]]
            tt = d[1]
            cur = [full if (tt >> i) & 1 else 0 for i in range(1 << len(ts))]
            for t in ts:
                nt = t ^ full
                cur = [(cur[i] & nt) | (cur[i + 1] & t) for i in range(0, len(cur), 2)]
            r = cur[0]
        else: raise KeyError(x)
        val[x] = r
        return r
    # -- evaluation of vars in a lane ---------------------------------------------
    def lane_value(self, bits, lane):
        v = 0
        for i, l in enumerate(bits): v |= ((self.lsig(l) >> lane) & 1) << i
        return v

def cofactor(tt, k, i, v):
    r = 0
    blk = 1 << i; mask = (1 << blk) - 1
    pos = blk if v else 0
    out = 0
    total = 1 << k
    while pos < total:
        r |= ((tt >> pos) & mask) << out
        out += blk; pos += 2 * blk
    return r
def negin(tt, k, i):
    blk = 1 << i
    m = vartt(i, k)
    full = (1 << (1 << k)) - 1
    return ((tt & m) >> blk) | ((tt & (m ^ full)) << blk)
_vt = {}
def vartt(i, k):
    r = _vt.get((i, k))
    if r is None:
        blk = 1 << i
        pat = ((1 << blk) - 1) << blk
        r = 0
        for p in range(0, 1 << k, 2 * blk): r |= pat << p
        _vt[(i, k)] = r
    return r
def mobius(tt, k):
    for i in range(k):
        m = vartt(i, k); full = (1 << (1 << k)) - 1
        tt ^= (tt & (m ^ full)) << (1 << i)
    return tt
