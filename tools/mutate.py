#!/usr/bin/env python3
"""mutate.py N SEED [FILE globs]: vacuity trial.  Random mutations of the C sources; runs the contracts (not the battery)
that cover the file on a scratch copy and lists the mutants that every contract still accepts (to be inspected:
equivalent, or a hole in the contracts)."""
import sys, os, re, random, subprocess, tempfile, shutil, fnmatch, json
from concurrent.futures import ProcessPoolExecutor
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
COVER = {'sha1.c': 'u_hash:sha1-* u_stream:sha1-update', 'sha256.c': 'u_hash:sha256-* u_stream:sha256-update', 'sha512.c': 'u_hash:sha512-* u_stream:sha512-update',
 'ripemd160.c': 'u_hash:ripemd160-* u_stream:ripemd160-update', 'keccak.c': 'u_hash:sha3-* u_stream:sha3-absorb-224 u_stream:sha3-absorb-512', 'blake2.c': 'u_hash:blake2* u_stream:blake2*',
 'siphash.c': 'u_hash:siphash-* u_stream:siphash-update', 'chacha20.c': 'u_hash:chacha20-* u_misc:chacha20-*', 'arcfour.c': 'u_misc:arcfour-*', 'rijndael-alg-fst.c': 'u_block:aes-*', 'aesni.c': 'u_block:aes-*',
 'd3des.c': 'u_block:des-*', 'blowfish.c': 'u_block:blowfish-encrypt u_block:blowfish-decrypt u_block:blowfish-setup-4 u_block:blowfish-setup-19', 'ghash.c': 'u_block:ghash-*', 'pclmul.c': 'u_block:ghash-* u_glue:pclmul-detect',
 'poly1305-donna.c': 'u_poly:*', 'poly1305-donna-64.h': 'u_poly:*', 'poly1305-donna-32.h': 'u_poly:*', 'blake3.c': 'u_blake3:*', 'blake3_portable.c': 'u_blake3:*', 'blake3_dispatch.c': 'u_blake3:*', 'blake3_impl.h': 'u_blake3:*',
 'stubs-aes.c': 'u_block:aes-16-* u_block:aes-32-* u_glue:aesni-detect', 'stubs-arcfour.c': 'u_misc:arcfour-*', 'stubs-blake2.c': 'u_hash:blake2* u_stream:blake2*', 'stubs-blake3.c': 'u_blake3:stubs u_glue:blake3-free u_blake3:root-bytes',
 'stubs-blowfish.c': 'u_block:blowfish-encrypt u_block:blowfish-decrypt u_block:blowfish-setup-4', 'stubs-chacha20.c': 'u_hash:chacha20-* u_misc:chacha20-* u_rng:bytecode', 'stubs-des.c': 'u_block:des-*', 'stubs-ghash.c': 'u_block:ghash-* u_glue:ghash-*',
 'stubs-md5.c': 'u_rng:md5-glue', 'stubs-misc.c': 'u_misc:xor* u_misc:wipe-z', 'stubs-poly1305.c': 'u_poly:*', 'stubs-ripemd160.c': 'u_hash:ripemd160-* u_stream:ripemd160-update', 'stubs-rng.c': 'u_rng:system u_rng:hardware* u_glue:system-rng',
 'stubs-sha1.c': 'u_hash:sha1-* u_stream:sha1-update', 'stubs-sha256.c': 'u_hash:sha256-* u_stream:sha256-update', 'stubs-sha512.c': 'u_hash:sha512-* u_stream:sha512-update', 'stubs-sha3.c': 'u_hash:sha3-* u_stream:sha3-absorb-256 u_glue:sha3-free',
 'stubs-siphash.c': 'u_hash:siphash-* u_stream:siphash-update', 'stubs-zlib.c': 'u_rng:zlib-* u_glue:zlib-free u_rng:bytecode'}
OPS = [(r'(?<![-+=<>!&|^*/%])\+(?![+=])', '-'), (r'(?<![-+=<>!&|^*/%(,>])-(?![-=>])', '+'), (r'<=', '<'), (r'(?<![<=>-])<(?![<=])', '<='), (r'(?<![->=<])>(?![>=])', '>='), (r'>=', '>'), (r'==', '!='), (r'!=', '=='), (r'<<', '>>'), (r'>>', '<<'),
       (r'(?<!&)&(?!&)', '|'), (r'(?<!\|)\|(?!\|)', '&'), (r'\^', '|'), (r'&&', '||'), (r'\|\|', '&&'), (r'\+\+', '--'), (r'\+=', '-='), (r'-=', '+='), (r'\^=', '|='), (r'\b(\d+)\b(?!\.|\[)', lambda m: str(int(m.group(1)) + 1)), (r'\b0x([0-9a-fA-F]+)', lambda m: hex(int(m.group(1), 16) ^ 1)), ('DEL', None)]
def sites(path):
    txt = open(path, encoding='latin1').read(); out = []
    strip = re.sub(r'/\*.*?\*/|//[^\n]*|"(?:[^"\\\n]|\\.)*"', lambda m: re.sub(r'[^\n]', ' ', m.group(0)), txt, flags=re.S)
    pos = 0; skip = False
    for l in strip.split('\n'):
        pre = l.lstrip().startswith('#') or skip; skip = (l.lstrip().startswith('#') or skip) and l.rstrip().endswith('\\')
        ok = (not pre or 'define' in l or skip) and not re.match(r'\s*#\s*(if|el|endif|include|pragma)', l)
        if ok and l.strip():
            for k, (rx, rep) in enumerate(OPS):
                if rx == 'DEL':
                    if re.match(r'\s+[\w\[\]>().*-]+.*;\s*$', l) and not re.match(r'\s*(return|u?int|char|unsigned|struct|CAML|for|static|const|value|u32|u64|size_t|uint)', l): out.append((pos, pos + len(l), ';', 'DEL'))
                    continue
                for m in re.finditer(rx, l):
                    rp = rep(m) if callable(rep) else rep
                    out.append((pos + m.start(), pos + m.end(), rp, rx))
        pos += len(l) + 1
    return txt, out
def go(a):
    i, f, s, e, rp, rx = a
    d = tempfile.mkdtemp(prefix='mut-'); shutil.copytree('/repo/src', d + '/src')
    p = f'{d}/src/{f}'; txt = open(p, encoding='latin1').read(); new = txt[:s] + rp + txt[e:]; open(p, 'w', encoding='latin1').write(new)
    ln = txt[:s].count('\n'); what = f"{f}:{ln+1}: {txt.split(chr(10))[ln].strip()[:90]}  ->  {new.split(chr(10))[ln].strip()[:90]}"
    mods = COVER[f].split()
    code = f'''
import sys, signal; sys.path[:0] = [{V!r} + "/cvc", {V!r} + "/spec"]; sys.setrecursionlimit(100000)
import importlib, cv, fnmatch, json
res = []
signal.alarm(400)
for pat in {mods!r}:
    m, g = pat.split(':'); M = importlib.import_module(m)
    for k in M.UNITS:
        if fnmatch.fnmatchcase(k, g):
            try: r = cv.run_unit(k, M.UNITS[k])
            except Exception as e: res.append((k, 'error', repr(e)[:200])); continue
            b = [o for o in r.obs if o['status'] != 'proved']
            if b: res.append((k, b[0]['status'], b[0]['name'][:60] + ': ' + b[0]['detail'][:160]))
            if any(x[1] in ('refuted', 'unproved') for x in res) or len(res) > 3: print(json.dumps(res)); sys.exit()
print(json.dumps(res))
'''
    env = dict(os.environ, VERIF_REPO=d)
    p = subprocess.run(['python3-vt', '-c', code], env=env, capture_output=True, text=True); shutil.rmtree(d)
    try: res = json.loads(p.stdout.strip().split('\n')[-1])
    except Exception: return ('NOCOMPILE' if 'error:' in p.stderr or 'clang' in p.stderr else 'TIMEOUT' if p.returncode == -14 else 'ERR ' + p.stderr[-200:]), what, ''
    if not res: return 'SURVIVED', what, ''
    k = [r for r in res if r[1] in ('refuted', 'unproved')]
    return (k[0][1].upper() if k else 'UNSUPPORTED'), what, (k or res)[0]
if __name__ == '__main__':
    n, seed = int(sys.argv[1]), int(sys.argv[2]); gl = sys.argv[3:] or ['*']; rng = random.Random(seed); js = []
    files = [f for f in COVER if any(fnmatch.fnmatchcase(f, g) for g in gl)]
    for f in files:
        txt, ss = sites('/repo/src/' + f)
        # cap table constants
        cand = [x for x in ss if not re.match(r'\s*(0x[0-9a-fA-F]+U?L*,\s*)+', txt[txt.rfind('\n', 0, x[0]) + 1: x[1] + 40])] or ss
        rng.shuffle(cand); js += [(i, f, *c) for i, c in enumerate(cand[:n])]
    import collections; C = collections.Counter()
    with ProcessPoolExecutor(int(os.environ.get('J', '8'))) as p:
        for st, what, d in p.map(go, js):
            C[st.split()[0]] += 1
            if st in ('REFUTED', 'UNPROVED') and not os.environ.get('ALL'): continue
            print(st, what, '|', d, flush=True)
    print(dict(C))
