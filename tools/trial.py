#!/usr/bin/env python3
"""trial.py [-p PROP] [SEED...]: run the property's check on scratch copies of /repo with each planted bug applied"""
import sys, os, subprocess, json, tempfile, shutil, re
H = os.path.dirname(os.path.abspath(__file__)); V = os.path.join(H, '..')
a = sys.argv[1:]; prop = None; base = 'seeded'
if a and a[0] == '-m': base = 'mlseeds'; a = a[1:]
if a and a[0] == '-p': prop = a[1]; a = a[2:]
for s in a or sorted(os.listdir(f'{V}/{base}')):
    d = f'{V}/{base}/{s}'; m = json.load(open(d + '/meta.json'))
    W = tempfile.mkdtemp(prefix='trial-'); os.rmdir(W); subprocess.run(['cp', '-a', '/repo', W], check=True)
    try:
        subprocess.run(['git', 'apply', os.path.abspath(d + '/patch.diff')], cwd=W, check=True)
        p = subprocess.run(['python3-vt', f'{V}/check.py', prop or m['property']], env=dict(os.environ, VERIF_REPO=W, VERIF_EVD=W + '/ev'), capture_output=True, text=True, timeout=1200)
        l = [x for x in p.stdout.splitlines() if x.startswith(('VIOLATION', 'failed', 'failing', 'not attached'))]
        print(s, prop or m['property'], 'rc', p.returncode, 'NOINPUT' if 'no-failing-input' in p.stdout else '', p.stdout.strip().splitlines()[-2 if p.returncode == 1 else -1][:150] if p.stdout else p.stderr[-300:])
        for x in l[:4]: print('    ', x[:260])
        sys.stdout.flush()
    finally: shutil.rmtree(W)
