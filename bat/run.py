"""run.py PROP [tier]: run the battery of one property; prints failures"""
import sys, os, time, random, tempfile, shutil, subprocess, json
from concurrent.futures import ProcessPoolExecutor
from bat import *
import cases
def exes(props, scratch):
    """build the driver variants needed"""
    need = {'hw'} | ({'sw'} if props & {'C04', 'C06', 'C11'} else set()) | ({'dbg'} if 'C30' in props else set())
    out = {}; ps = []
    for v in sorted(need):
        d = os.path.join(scratch, 'b' + v)
        ps.append((v, d, subprocess.Popen(['bash', os.path.join(HERE, 'build.sh'), d, v] + (['-runtime-variant d'] if v == 'dbg' else []), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)))
    for v, d, p in ps:
        if p.wait() != 0:
            try: log = open(os.path.join(d, 'build.log')).read()
            except OSError: log = ''
            raise BuildError(f'driver ({v}) does not build:\n' + log[-3000:])
        out[v] = os.path.join(d, '_build/default/drv/driver.exe')
    return out
def one(args):
    prop, idx, ex, seed, tier, scratch = args
    g = cases.BAT[prop][idx]; t = time.time()
    sc = os.path.join(scratch, f'{prop}-{idx}'); os.makedirs(sc, exist_ok=True)
    c = Ctx(ex, random.Random(f'{seed}/{prop}/{idx}'), tier, sc); fail = None
    try: g(c)
    except Fail as f: fail = dict(what=f.what, log=f.log[-400:], want=f.want, got=f.got, variant=f.variant)
    finally: c.close()
    return dict(job=g.__name__, idx=idx, cases=c.cases, cmds=sum(D.n for D in c.drv.values()), t=time.time() - t, fail=fail, sample=(c.samples[-1][:6] if c.samples else []))
def run(prop, ex, seed, tier, scratch, pool):
    return [pool.submit(one, (prop, i, ex, seed, tier, scratch)) for i in range(len(cases.BAT.get(prop, [])))]
if __name__ == '__main__':
    props = sys.argv[1].split(',') if len(sys.argv) > 1 and sys.argv[1] != 'all' else sorted(cases.BAT)
    sc = tempfile.mkdtemp(prefix='bat'); tier = sys.argv[2] if len(sys.argv) > 2 else 'quick'
    try:
        ex = exes(set(props), sc)
        with ProcessPoolExecutor(8) as pool:
            fs = [(p, f) for p in props for f in run(p, ex, int(os.environ.get('VERIF_SEED', 1)), tier, sc, pool)]
            for p, f in fs:
                r = f.result(); print(p, r['job'], r['cases'], 'cases', r['cmds'], 'cmds', f"{r['t']:.1f}s", 'FAIL' if r['fail'] else 'ok', flush=True)
                if r['fail']: print(json.dumps(r['fail'])[:1500])
    finally: shutil.rmtree(sc)
