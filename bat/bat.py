"""Battery framework: runs commands on the real library (through bat/driver.ml) and compares with
an oracle.  Used (1) to replay failed obligations as concrete failing inputs, (2) as the labelled
bounded stand-in for functions outside the verifiers' reach."""
import os, sys, subprocess, random, select, time, json, shutil, tempfile, signal, hashlib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
class Fail(Exception):
    def __init__(s, what, log, want=None, got=None, variant='hw'):
        Exception.__init__(s, what); s.what = what; s.log = log; s.want = want; s.got = got; s.variant = variant
class BuildError(Exception): pass
def hx(b): return bytes(b).hex() or '-'
class Drv:
    def __init__(s, exe, env=None, variant='hw'):
        s.exe = exe; s.env = env; s.p = None; s.log = []; s.n = 0; s.variant = variant; s.buf = b''
        s.start()
    def start(s):
        s.close()
        e = dict(os.environ); e.pop('OCAMLRUNPARAM', None); e.update(s.env or {})
        s.p = subprocess.Popen([s.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=e)
        s.buf = b''
    def close(s):
        if s.p:
            try: s.p.kill(); s.p.wait()
            except Exception: pass
            s.p = None
    def begin(s): s.log = []
    def send(s, cmd, timeout=30):
        s.log.append(cmd); s.n += 1
        try:
            s.p.stdin.write(cmd.encode() + b'\n'); s.p.stdin.flush()
        except BrokenPipeError:
            s.start(); raise Fail('the process died', s.log, variant=s.variant)
        fd = s.p.stdout.fileno(); end = time.time() + timeout
        while b'\n' not in s.buf:
            r, _, _ = select.select([fd], [], [], max(0, end - time.time()))
            if not r: s.start(); raise Fail(f'no answer after {timeout} s (does not terminate?)', s.log, variant=s.variant)
            d = os.read(fd, 1 << 16)
            if not d:
                rc = s.p.wait(); s.start(); raise Fail(f'the process died (status {rc})', s.log, variant=s.variant)
            s.buf += d
        l, s.buf = s.buf.split(b'\n', 1)
        return l.decode('latin-1')
    def __call__(s, cmd, timeout=30): return s.send(cmd, timeout)
    def ok(s, cmd):
        r = s.send(cmd)
        if r.startswith('!'): raise Fail('unexpected exception', s.log, 'no exception', r, s.variant)
        return r
    def eq(s, cmd, want, what='wrong result', timeout=30):
        r = s.send(cmd, timeout)
        if isinstance(want, (bytes, bytearray)): want = hx(want)
        if r != str(want): raise Fail(what, s.log, str(want), r, s.variant)
        return r
    def true(s, cond, what, want=None, got=None):
        if not cond: raise Fail(what, s.log, want, got, s.variant)
class Ctx:
    """one battery job"""
    def __init__(s, exes, rng, tier, scratch):
        s.exes = exes; s.r = rng; s.tier = tier; s.scratch = scratch; s.cases = 0; s.samples = []; s.deadline = None
        s.drv = {}
    def d(s, variant='hw', env=None):
        k = (variant, tuple(sorted((env or {}).items())))
        if k not in s.drv: s.drv[k] = Drv(s.exes[variant], env, variant)
        D = s.drv[k]; D.begin(); s.cases += 1
        if s.cases in (1, 50, 400): s._pend = D
        if len(s.samples) < 4 and s.cases in (2, 51, 401) and hasattr(s, '_pend'): s.samples.append(s._last)
        s._last = D.log
        return D
    def n(s, q, t=None): return q if s.tier == 'quick' else (t if t is not None else 6 * q)
    def R(s, n): return s.r.randbytes(n)
    def split(s, n, k=None):
        """random composition of n with zero-length pieces now and then"""
        out = []; k = k or s.r.choice([1, 2, 3, 8])
        left = n
        while left:
            m = s.r.choice([0, 1, left, s.r.randrange(left + 1), min(left, s.r.randrange(1, 20)), min(left, s.r.choice([7, 8, 15, 16, 17, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1023, 1024, 1025]))])
            if len(out) > 60: m = left
            out.append(m); left -= m
        if s.r.random() < .3: out.append(0)
        return out
    def close(s):
        for D in s.drv.values(): D.close()
def feed_hash(c, D, i, data):
    """adds data to hash i through random entry points"""
    pos = 0
    for m in c.split(len(data)):
        p = data[pos:pos + m]; k = c.r.randrange(4)
        if k == 0 or m > 30 and k >= 2: D.eq(f'hp {i} {hx(p)}', 'ok')
        elif k == 1:
            a = c.r.randrange(5); b = c.r.randrange(5)
            D.eq(f'Y 90 {hx(c.R(a) + p + c.R(b))}', 'ok'); D.eq(f'hps {i} 90 {a} {m}', 'ok')
        else:
            for x in p: D.eq(f'{"hpc" if k == 2 else "hpb"} {i} {x}', 'ok')
        pos += m
def feed(c, D, i, data, pre='t', flushes=False):
    """puts data through random entry points with random gets; returns the output so far"""
    pos = 0; out = b''
    for m in c.split(len(data)):
        p = data[pos:pos + m]; k = c.r.randrange(4)
        if k == 0 or m > 30 and k >= 2: D.eq(f'{pre}p {i} {hx(p)}', 'ok')
        elif k == 1:
            a = c.r.randrange(5); b = c.r.randrange(5)
            D.eq(f'Y 90 {hx(c.R(a) + p + c.R(b))}', 'ok'); D.eq(f'{pre}ps {i} 90 {a} {m}', 'ok')
        else:
            for x in p: D.eq(f'{pre}pc {i} {x}' if k == 2 else f'{pre}pb {i} {x}', 'ok')
        pos += m
        out += drain(c, D, i, pre)
    return out
def unhx(s): return b'' if s == '-' else bytes.fromhex(s)
def drain(c, D, i, pre='t', all=False):
    out = b''
    while True:
        k = c.r.randrange(6) if not all else c.r.randrange(4)
        if k >= 4: return out
        av = int(D.ok(f'{pre}av {i}'))
        if k == 0: x = unhx(D.ok(f'{pre}gs {i}')); D.true(len(x) == av, 'available_output disagrees with get_string', av, len(x)); out += x
        elif k == 1: x = unhx(D.ok(f'{pre}gss {i}')); D.true(len(x) == av, 'available_output disagrees with get_substring', av, len(x)); out += x
        else:
            for _ in range(c.r.randrange(1, 40)):
                if av == 0:
                    D.eq(f'{pre}gc {i}' if k == 2 else f'{pre}gb {i}', '!End_of_file', 'get on empty output'); break
                x = int(D.ok(f'{pre}gc {i}' if k == 2 else f'{pre}gb {i}')); out += bytes([x]); av -= 1
        if all and int(D.ok(f'{pre}av {i}')) == 0: return out
        if not all and c.r.random() < .6: return out
