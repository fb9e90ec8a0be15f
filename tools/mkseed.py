#!/usr/bin/env python3
"""mkseed.py [ID...]: build the planted bugs of seeds.py in a scratch copy, confirm them, write /verif/seeded/<id>/"""
import sys, os, subprocess, shutil, json, difflib, tempfile
HERE = os.path.dirname(os.path.abspath(__file__)); OUT = os.path.join(HERE, '..', 'seeded')
sys.path.insert(0, HERE)
DEMO = r'''#!/bin/bash
# builds demo.ml against the library just built in the current directory and runs it
. /opt/vp/env.sh
R=$PWD; H=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -r "$T"' EXIT
cp "$H"/demo.ml "$T"/demo.ml; cd "$T" || exit 9
B=$R/_build/default/src
ocamlfind ocamlopt -w -a -package zarith,unix -linkpkg -I "$B" -I "$B"/.cryptokit.objs/byte -I "$B"/.cryptokit.objs/native cryptokit.cmxa demo.ml -o demo.exe > log 2>&1 || { cat log; exit 9; }
@ENV@timeout 250 ./demo.exe
'''
CDEMO = r'''#!/bin/bash
# builds demo.c against the C sources in the current directory and runs it
. /opt/vp/env.sh
R=$PWD; H=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -r "$T"' EXIT
gcc -O1 -w -maes -mpclmul -I "$R"/src -I "$(ocamlfind ocamlc -where)" -o "$T"/demo "$H"/demo.c > "$T"/log 2>&1 || { cat "$T"/log; exit 9; }
timeout 250 "$T"/demo
'''
def sh(cmd, cwd=None, t=280):
    try: p = subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=t)
    except subprocess.TimeoutExpired: return 124, 'timeout'
    return p.returncode, (p.stdout + p.stderr)[-1500:]
def suite(W):
    env = '. /opt/vp/env.sh; '
    rc, o = sh(env + f'dune build --root {W} --profile release @@default', W)
    if rc: return 'build: ' + o
    rc, o = sh(env + f'cd {W}/_build/default/test && ./test.exe', W) if os.path.exists(f'{W}/_build/default/test/test.exe') else sh(env + f'dune test --root {W} --profile release --force', W)
    return None if rc == 0 else 'tests: ' + o
def main():
    import importlib; CD = '#include <stdio.h>\n#include <stdlib.h>\n#include <string.h>\n'; S = importlib.import_module('cseeds').SEEDS
    W = tempfile.mkdtemp(prefix='seed-'); shutil.rmtree(W); subprocess.run(['cp', '-a', '/repo', W], check=True)
    try:
        for sid, s in S.items():
            if len(sys.argv) > 1 and sid not in sys.argv[1:]: continue
            sh('git checkout -q -- .', W)
            d = os.path.join(OUT, sid); os.makedirs(d, exist_ok=True)
            open(os.path.join(d, 'demo.c' if 'cdemo' in s else 'demo.ml'), 'w').write(CD + s['cdemo'] if 'cdemo' in s else s['demo']); open(os.path.join(d, 'demo.sh'), 'w').write(CDEMO if 'cdemo' in s else DEMO.replace('@ENV@', s.get('env', ''))); os.chmod(os.path.join(d, 'demo.sh'), 0o755)
            json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
            r = suite(W)
            rc0, o0 = sh(f'bash {d}/demo.sh', W)
            for f, a, b in s['edits']:
                p = os.path.join(W, f); t = open(p).read()
                if t.count(a) < 1 or (t.count(a) > 1 and not s.get('multi')): print(sid, 'EDIT does not match uniquely', f, t.count(a)); break
                open(p, 'w').write(t.replace(a, b))
            else:
                diff = subprocess.run(['git', 'diff'], cwd=W, capture_output=True, text=True).stdout
                open(os.path.join(d, 'patch.diff'), 'w').write(diff)
                r = suite(W); rc1, o1 = sh(f'bash {d}/demo.sh', W)
                ok = r is None and rc0 == 0 and rc1 not in (0, 9)
                print(sid, 'OK' if ok else 'BAD', 'suite', r, 'clean', rc0, o0[-300:] if rc0 else '', 'patched', rc1, o1[-200:].strip(), flush=True)
                if not ok: shutil.rmtree(d)
                continue
            shutil.rmtree(d)
    finally: shutil.rmtree(W)
main()
