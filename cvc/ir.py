"""Parser for the subset of textual LLVM IR (clang 18, opaque pointers) that the
cryptokit stubs compile to.  Produces plain Python structures."""
import re

class Unsupported(Exception):
    """The engine cannot handle a construct: never a verdict about the property."""

TOK = re.compile(r'''\s*(?:(c"(?:[^"\\]|\\.)*")|("(?:[^"\\]|\\.)*")|([%@](?:"[^"]*"|[\w.$-]+))|(-?\d+\.\d+e[+-]\d+|0x[0-9A-Fa-f]+|-?\d+)|(![\w.]*)|(\#\d+)|(\.\.\.)|([A-Za-z_][\w.]*)|(.))''')

def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        m = TOK.match(s, pos)
        if not m: break
        pos = m.end()
        t = m.group(m.lastindex) if m.lastindex else None
        if t is None or t == ' ': continue
        if t == ';' : break
        out.append(t)
    return out

# ---- types -------------------------------------------------------------
class Ty:
    __slots__ = ('k', 'a', 'b', '_size', '_al')
    def __init__(s, k, a=None, b=None): s.k = k; s.a = a; s.b = b; s._size = None; s._al = None
    def __repr__(s): return f'{s.k}:{s.a}:{s.b}'

VOID = Ty('void'); PTR = Ty('ptr'); LABEL = Ty('label'); META = Ty('metadata')
_ints = {}
def INT(n):
    t = _ints.get(n)
    if t is None: t = _ints[n] = Ty('int', n)
    return t

class Module:
    def __init__(self):
        self.structs = {}
        self.globals = {}   # name -> (ty, init operand or None, const?)
        self.funcs = {}
        self.decls = {}
    def align(self, t):
        if t._al is None: t._al = self._align(t)
        return t._al
    def _align(self, t):
        k = t.k
        if k == 'int':
            s = (t.a + 7) // 8
            p = 1
            while p < s: p *= 2
            return min(p, 16)
        if k == 'ptr' or k == 'double': return 8
        if k == 'float': return 4
        if k == 'arr': return self.align(t.b)
        if k == 'vec': return self.size(t)
        if k == 'struct': return max([self.align(x) for x in t.a] + [1])
        if k == 'pstruct': return 1
        if k == 'named': return self.align(self.structs[t.a])
        raise Unsupported('align ' + repr(t))
    def size(self, t):
        if t._size is None: t._size = self._size(t)
        return t._size
    def _size(self, t):
        k = t.k
        if k == 'int':
            return self.align(t) if t.a not in (1,) else 1
        if k == 'ptr' or k == 'double': return 8
        if k == 'float': return 4
        if k == 'arr': return t.a * self.size(t.b)
        if k == 'vec': return t.a * self.size(t.b)
        if k == 'struct':
            o = 0
            for x in t.a:
                al = self.align(x); o = (o + al - 1) // al * al + self.size(x)
            al = self.align(t)
            return (o + al - 1) // al * al
        if k == 'pstruct': return sum(self.size(x) for x in t.a)
        if k == 'named': return self.size(self.structs[t.a])
        raise Unsupported('size ' + repr(t))
    def resolve(self, t):
        while t.k == 'named': t = self.structs[t.a]
        return t
    def field(self, t, i):
        """offset and type of element i of aggregate t"""
        t = self.resolve(t)
        if t.k in ('arr', 'vec'): return i * self.size(t.b), t.b
        if t.k == 'pstruct': return sum(self.size(x) for x in t.a[:i]), t.a[i]
        o = 0
        for j, x in enumerate(t.a):
            al = self.align(x); o = (o + al - 1) // al * al
            if j == i: return o, x
            o += self.size(x)
        raise Unsupported('field')
    def bits(self, t):
        t = self.resolve(t)
        if t.k == 'int': return t.a
        if t.k == 'ptr': return 64
        if t.k == 'double': return 64
        if t.k == 'vec': return t.a * self.bits(t.b)
        raise Unsupported('bits ' + repr(t))

class Func:
    def __init__(self, name):
        self.name = name; self.params = []; self.blocks = {}; self.order = []; self.rty = None; self.line = None

class Ins:
    __slots__ = ('op', 'dst', 'ty', 'a', 'b', 'c', 'x', 'text')
    def __init__(s, op, dst=None, ty=None, a=None, b=None, c=None, x=None):
        s.op = op; s.dst = dst; s.ty = ty; s.a = a; s.b = b; s.c = c; s.x = x; s.text = None
    def __repr__(s): return f'<{s.op} {s.dst} {s.ty} {s.a} {s.b} {s.c} {s.x}>'

# operands: ('l', name) local ; ('c', int) constant ; ('g', name) ; ('null',) ; ('undef',) ; ('zero',)
# ('gepc', basety, ptroperand, [(ty,operand)]) ; ('agg', [(ty,operand)]) ; ('str', bytes)

ATTRS = {'noundef','dead_on_unwind','writable','nonnull','signext','zeroext','inreg','noalias','nocapture','readonly','writeonly','immarg','returned',
 'dso_local','internal','private','external','common','hidden','local_unnamed_addr','unnamed_addr','nuw','nsw','exact','inbounds','volatile',
 'tail','musttail','notail','fastcc','ccc','nofree','readnone','noreturn','nest','disjoint','nneg','weak','linkonce_odr','available_externally','linkonce','noext'}

class P:
    def __init__(self, toks, mod): self.t = toks; self.i = 0; self.m = mod
    def peek(self): return self.t[self.i] if self.i < len(self.t) else None
    def next(self):
        x = self.t[self.i]; self.i += 1; return x
    def eat(self, x):
        if self.peek() == x: self.i += 1; return True
        return False
    def need(self, x):
        y = self.next()
        if y != x: raise Unsupported(f'expected {x} got {y} in {self.t}')
    def attrs(self):
        while True:
            p = self.peek()
            if p in ATTRS: self.i += 1
            elif p in ('align',) : self.i += 2
            elif p in ('dereferenceable','dereferenceable_or_null','elementtype','sret','byval','captures','memory','range') :
                self.i += 1
                if self.peek() == '(':
                    d = 0
                    while True:
                        q = self.next()
                        if q == '(': d += 1
                        elif q == ')':
                            d -= 1
                            if d == 0: break
            else: return
    def ty(self):
        x = self.next()
        if x == 'void': r = VOID
        elif x == 'ptr': r = PTR
        elif x == 'label': r = LABEL
        elif x == 'metadata': r = META
        elif x in ('double','float'): r = Ty(x)
        elif x[0] == 'i' and x[1:].isdigit(): r = INT(int(x[1:]))
        elif x == '[':
            n = int(self.next()); self.need('x'); e = self.ty(); self.need(']'); r = Ty('arr', n, e)
        elif x == '<':
            if self.peek() == '{':
                self.next(); fs = self._tylist('}'); self.need('>'); r = Ty('pstruct', fs)
            else:
                n = int(self.next()); self.need('x'); e = self.ty(); self.need('>'); r = Ty('vec', n, e)
        elif x == '{': r = Ty('struct', self._tylist('}'))
        elif x[0] == '%': r = Ty('named', x)
        else: raise Unsupported('type ' + x)
        while self.peek() == '(' and r.k in ('void','int','ptr','struct','named') and self._isfnty():
            # function type: skip the parameter list
            d = 0
            while True:
                q = self.next()
                if q == '(': d += 1
                elif q == ')':
                    d -= 1
                    if d == 0: break
            r = Ty('fn', r)
        return r
    def _isfnty(self):
        j = self.i + 1
        x = self.t[j]
        return x in ('ptr', '...', ')', '[', '<', '{') or (x[0] == 'i' and x[1:].isdigit())
    def _tylist(self, close):
        fs = []
        if self.eat(close): return fs
        while True:
            fs.append(self.ty())
            if self.eat(close): return fs
            self.need(',')
    def operand(self, ty):
        x = self.next()
        if x[0] == '%': return ('l', x)
        if x[0] == '@': return ('g', x[1:])
        if x[0] == '-' or x[0].isdigit():
            if x.startswith('0x') or '.' in x: return ('undef',)
            v = int(x); n = ty.a if ty.k == 'int' else 64
            return ('c', v & ((1 << n) - 1))
        if x == 'true': return ('c', 1)
        if x == 'false': return ('c', 0)
        if x == 'null': return ('null',)
        if x in ('undef', 'poison'): return ('undef',)
        if x == 'zeroinitializer': return ('zero',)
        if x[0] == 'c' and x[1:2] == '"':
            s = x[2:-1]; b = bytearray(); i = 0
            while i < len(s):
                if s[i] == '\\':
                    if s[i+1] == '\\': b.append(92); i += 2
                    else: b.append(int(s[i+1:i+3], 16)); i += 3
                else: b.append(ord(s[i])); i += 1
            return ('str', bytes(b))
        if x == '[' or x == '{' :
            close = {'[': ']', '{': '}'}[x]
            els = []
            if not self.eat(close):
                while True:
                    t = self.ty(); els.append((t, self.operand(t)))
                    if self.eat(close): break
                    self.need(',')
            return ('agg', els)
        if x == '<':
            els = []
            br = self.eat('{')
            while True:
                t = self.ty(); els.append((t, self.operand(t)))
                if self.eat('}' if br else '>'):
                    if br: self.need('>')
                    break
                self.need(',')
            return ('agg', els)
        if x == 'getelementptr':
            self.attrs(); self.need('('); bt = self.ty(); self.need(',')
            pt = self.ty(); p = self.operand(pt); idx = []
            while self.eat(','):
                t = self.ty(); idx.append((t, self.operand(t)))
            self.need(')')
            return ('gepc', bt, p, idx)
        if x in ('inttoptr', 'ptrtoint', 'bitcast'):
            self.need('('); t = self.ty(); o = self.operand(t); self.need('to'); self.ty(); self.need(')')
            return o
        raise Unsupported('operand ' + x)
    def top(self):
        t = self.ty(); self.attrs(); return t, self.operand(t)

BIN = {'add','sub','mul','udiv','sdiv','urem','srem','shl','lshr','ashr','and','or','xor'}
CAST = {'zext','sext','trunc','bitcast','ptrtoint','inttoptr','freeze'}

def parse_ins(line, mod):
    toks = tokenize(line)
    p = P(toks, mod)
    dst = None
    if toks[0][0] == '%' and len(toks) > 1 and toks[1] == '=':
        dst = toks[0]; p.i = 2
    op = p.next()
    while op in ('tail', 'musttail', 'notail'): op = p.next()
    if op in BIN:
        p.attrs(); t = p.ty(); a = p.operand(t); p.need(','); b = p.operand(t)
        return Ins(op, dst, t, a, b)
    if op in CAST:
        p.attrs(); t = p.ty(); a = p.operand(t)
        if op == 'freeze': return Ins('freeze', dst, t, a)
        p.need('to'); t2 = p.ty()
        return Ins(op, dst, t2, a, t)
    if op == 'load':
        p.attrs(); t = p.ty(); p.need(','); pt = p.ty(); a = p.operand(pt)
        return Ins('load', dst, t, a)
    if op == 'store':
        p.attrs(); t = p.ty(); v = p.operand(t); p.need(','); pt = p.ty(); a = p.operand(pt)
        return Ins('store', None, t, v, a)
    if op == 'getelementptr':
        p.attrs(); bt = p.ty(); p.need(','); pt = p.ty(); a = p.operand(pt); idx = []
        while p.eat(','):
            if p.peek() and p.peek().startswith('!'): break
            t = p.ty(); idx.append((t, p.operand(t)))
        return Ins('gep', dst, bt, a, idx)
    if op == 'alloca':
        p.attrs(); t = p.ty(); n = ('c', 1)
        if p.eat(','):
            if p.peek() != 'align':
                tt = p.ty(); n = p.operand(tt)
        return Ins('alloca', dst, t, n)
    if op == 'icmp':
        pred = p.next(); t = p.ty(); a = p.operand(t); p.need(','); b = p.operand(t)
        return Ins('icmp', dst, t, a, b, pred)
    if op == 'select':
        t0, c = p.top(); p.need(','); t, a = p.top(); p.need(','); t2, b = p.top()
        return Ins('select', dst, t, c, a, b)
    if op == 'phi':
        t = p.ty(); inc = []
        while True:
            p.need('['); v = p.operand(t); p.need(','); l = p.next(); p.need(']'); inc.append((l[1:].strip('"'), v))
            if not p.eat(','): break
            if p.peek() != '[': break
        return Ins('phi', dst, t, inc)
    if op == 'br':
        if p.peek() == 'label':
            p.next(); return Ins('br', x=p.next()[1:].strip('"'))
        t, c = p.top(); p.need(','); p.need('label'); a = p.next(); p.need(','); p.need('label'); b = p.next()
        return Ins('cbr', None, None, c, a[1:].strip('"'), b[1:].strip('"'))
    if op == 'switch':
        t, v = p.top(); p.need(','); p.need('label'); d = p.next()[1:].strip('"'); p.need('['); cases = []
        while not p.eat(']'):
            t2, c = p.top(); p.need(','); p.need('label'); cases.append((c[1], p.next()[1:].strip('"')))
        return Ins('switch', None, t, v, cases, d)
    if op == 'ret':
        t = p.ty()
        if t.k == 'void': return Ins('ret')
        return Ins('ret', None, t, p.operand(t))
    if op == 'unreachable': return Ins('unreachable')
    if op == 'call':
        p.attrs(); t = p.ty(); p.attrs()
        if t.k == 'fn': t = t.a
        asm = None
        if p.peek() == 'asm':
            p.next()
            while p.peek() in ('sideeffect', 'alignstack', 'inteldialect'): p.next()
            asm = (p.next(), None); p.need(','); asm = (asm[0], p.next()); callee = ('asm',) + asm
        else:
            c = p.next()
            callee = ('g', c[1:]) if c[0] == '@' else ('l', c)
        p.need('('); args = []
        if not p.eat(')'):
            while True:
                at = p.ty(); p.attrs()
                if at.k == 'metadata':
                    # skip metadata operand
                    while p.peek() not in (',', ')'): p.next()
                    args.append((at, ('undef',)))
                else: args.append((at, p.operand(at)))
                if p.eat(')'): break
                p.need(',')
        return Ins('call', dst, t, callee, args)
    if op == 'extractvalue':
        t = p.ty(); a = p.operand(t); idx = []
        while p.eat(','): idx.append(int(p.next()))
        return Ins('extractvalue', dst, t, a, idx)
    if op == 'insertvalue':
        t = p.ty(); a = p.operand(t); p.need(','); t2, v = p.top(); idx = []
        while p.eat(','): idx.append(int(p.next()))
        return Ins('insertvalue', dst, t, a, v, idx)
    if op == 'extractelement':
        t = p.ty(); a = p.operand(t); p.need(','); t2, i = p.top()
        return Ins('extractelement', dst, t, a, i)
    if op == 'insertelement':
        t = p.ty(); a = p.operand(t); p.need(','); t2, v = p.top(); p.need(','); t3, i = p.top()
        return Ins('insertelement', dst, t, a, v, i)
    if op == 'shufflevector':
        t, a = p.top(); p.need(','); t2, b = p.top(); p.need(','); t3, m = p.top()
        return Ins('shufflevector', dst, t, a, b, m, t3)
    return Ins('unsupported', dst, None, line)

def parse_module(text):
    mod = Module()
    lines = text.split('\n')
    i = 0
    cur = None; blk = None
    n = len(lines)
    while i < n:
        ln = lines[i]; i += 1
        if cur is not None:
            s = ln.strip()
            if s == '}': cur = None; continue
            if not s or s[0] == ';': continue
            if ln[0] not in ' \t':
                m = re.match(r'("?)([\w.$-]+)\1:', ln)
                if not m: raise Unsupported('label ' + ln)
                blk = []; cur.blocks[m.group(2)] = blk; cur.order.append(m.group(2)); continue
            if s.startswith('switch') or ' switch ' in s[:20]:
                while ']' not in s:
                    s += ' ' + lines[i].strip(); i += 1
            if s.startswith('#dbg') or '@llvm.dbg.' in s or '@llvm.lifetime' in s or 'experimental.noalias' in s: continue
            if blk is None:
                blk = []; cur.blocks['0'] = blk; cur.order.append('0')
            ins = parse_ins(s, mod); ins.text = s
            blk.append(ins)
            continue
        if ln.startswith('%') and ' = type ' in ln:
            toks = tokenize(ln)
            p = P(toks, mod); nm = p.next(); p.next(); p.next()
            if p.peek() == 'opaque': mod.structs[nm] = Ty('struct', []); continue
            mod.structs[nm] = p.ty(); continue
        if ln.startswith('@'):
            toks = tokenize(ln); p = P(toks, mod); nm = p.next()[1:]; p.need('='); p.attrs()
            if p.peek() in ('alias','ifunc'): continue
            kind = p.next()
            while kind not in ('global', 'constant'): kind = p.next()
            t = p.ty()
            init = None
            if p.peek() not in (None, ','):
                init = p.operand(t)
            mod.globals[nm] = (t, init, kind == 'constant'); continue
        if ln.startswith('define') or ln.startswith('declare'):
            m = re.search(r'@("?[\w.$-]+"?)\s*\(', ln)
            nm = m.group(1).strip('"')
            pre = ln[:m.start()]; rest = ln[m.end():]
            toks = tokenize(pre)
            rt = None
            for j in range(len(toks)):
                if toks[j] in ('define', 'declare') or toks[j] in ATTRS: continue
                p = P(toks[j:], mod); p.attrs(); rt = p.ty(); break
            if ln.startswith('declare'):
                mod.decls[nm] = rt; continue
            f = Func(nm); f.rty = rt
            toks = tokenize(rest); p = P(toks, mod)
            if not p.eat(')'):
                while True:
                    if p.eat('...'): break
                    t = p.ty(); p.attrs(); a = p.next(); f.params.append((t, a))
                    if p.eat(')'): break
                    p.need(',')
            mod.funcs[nm] = f; cur = f; blk = None
            continue
    return mod

if __name__ == '__main__':
    import sys, time
    for fn in sys.argv[1:]:
        t = time.time(); m = parse_module(open(fn).read())
        bad = [x for f in m.funcs.values() for b in f.blocks.values() for x in b if x.op == 'unsupported']
        print(fn, len(m.funcs), len(m.globals), 'bad', bad[:3], round(time.time()-t, 2))
