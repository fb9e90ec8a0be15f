#!/usr/bin/env python3
"""check.py PROPERTY: discharge the property's obligations on /repo's current tree, run its bounded
stand-ins, write evidence/<PROPERTY>.json.  Exit 0: held; 1 + VIOLATION line: broken; other: error."""
import sys, os, re, json, time, shutil, tempfile, fnmatch, importlib, traceback, signal
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE] + [os.path.join(HERE, d) for d in ('bat', 'ocvc', 'cvc', 'spec')]
sys.setrecursionlimit(100000)
import queue, threading, multiprocessing
from concurrent.futures import Future, wait, FIRST_COMPLETED
import reg

UNIT_TIMEOUT = 700          # seconds for one unit
UNIT_BUDGET = 620           # seconds for all units of a property (quick)
GRACE = 100                 # once something has failed

class Timeout(Exception): pass
def _alarm(*a): raise Timeout()

def unit_list(prop):
    out = []
    for pat in reg.PROPS[prop]['units']:
        mod, up = pat.split(':')
        names = list(importlib.import_module(mod).UNITS)
        hit = [n for n in names if fnmatch.fnmatchcase(n, up)]
        if not hit: raise SystemExit(f'registry: no unit matches {pat}')
        out += [(mod, n) for n in hit if (mod, n) not in out]
    only = os.environ.get('VERIF_ONLY')            # trial tools only
    return [u for u in out if re.search(only, u[0] + ':' + u[1])] if only else out

def run_unit(args):
    mod, name = args
    import threading
    t = time.time()
    signal.signal(signal.SIGALRM, _alarm); signal.alarm(UNIT_TIMEOUT)
    try:
        import cv
        m = importlib.import_module(mod)
        rep = cv.run_unit(name, m.UNITS[name])
        return dict(mod=mod, unit=name, obs=rep.obs, functions=rep.functions, assumptions=rep.assumptions, t=time.time() - t)
    except Timeout:
        return dict(mod=mod, unit=name, obs=[dict(unit=name, name='attach', status='unsupported', backend='engine', detail='time limit', cex=None, n=1, t=None)], functions=[], assumptions=[], t=time.time() - t)
    except Exception:
        return dict(mod=mod, unit=name, obs=[dict(unit=name, name='attach', status='unsupported', backend='engine', detail='engine error: ' + traceback.format_exc()[-1500:], cex=None, n=1, t=None)], functions=[], assumptions=[], t=time.time() - t)
    finally:
        signal.alarm(0)

def _child(conn, fn, arg):
    try: r = (True, fn(arg))
    except BaseException: r = (False, traceback.format_exc()[-1500:])
    conn.send(r); conn.close()
class Pool:
    """n workers; every task runs in a process of its own and can be killed without harm to the others"""
    def __init__(s, n):
        s.q = queue.SimpleQueue(); s.live = set(); s.lock = threading.Lock(); s.stopped = False; s.ctx = multiprocessing.get_context('spawn')
        for _ in range(n): threading.Thread(target=s.work, daemon=True).start()
    def submit(s, fn, arg): f = Future(); s.q.put((f, fn, arg)); return f
    def work(s):
        while True:
            f, fn, arg = s.q.get()
            if s.stopped: f.cancel(); continue
            p = None
            try:
                rd, wr = s.ctx.Pipe(False); p = s.ctx.Process(target=_child, args=(wr, fn, arg), daemon=True)
                with s.lock:
                    if s.stopped: f.cancel(); continue
                    p.start(); s.live.add(p)
                wr.close()
                try: ok, r = rd.recv()
                except EOFError: ok, r = False, 'process ended without a result'
                rd.close(); p.join(5)
                if p.is_alive(): p.kill()
                if ok: f.set_result(r)
                else: f.set_exception(RuntimeError(r))
            except Exception as e:
                if not f.done(): f.set_exception(e)
            finally:
                with s.lock: s.live.discard(p)
    def stop(s):
        with s.lock:
            s.stopped = True
            for p in s.live:
                try: p.kill()
                except Exception: pass
def stop(pool): pool.stop()

def bat_one(a):
    import run as batrun
    return batrun.one(a)

def known(prop):
    fs = []
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith(f'known: property={prop} '): fs.append(l[len(f'known: property={prop} '):])
    return fs

def main():
    prop = sys.argv[1]; P = reg.PROPS[prop]
    tier = os.environ.get('VERIF_TIER', 'quick'); seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    for a in sys.argv[2:]:
        if a.startswith('--tier='): tier = a[7:]
    t0 = time.time()
    evd = os.environ.get('VERIF_EVD') or os.path.join(HERE, 'evidence'); os.makedirs(evd, exist_ok=True)
    rdir = os.path.join(evd, 'replays'); os.makedirs(rdir, exist_ok=True)
    sc = tempfile.mkdtemp(prefix=f'verif-{prop}-')
    try:
        return body(prop, P, tier, seed, t0, evd, rdir, sc)
    finally:
        shutil.rmtree(sc, ignore_errors=True)

def body(prop, P, tier, seed, t0, evd, rdir, sc):
    import run as batrun, cases
    from bat import BuildError
    units = unit_list(prop); ureps = []; bats = []
    mk = Pool
    pool = mk(min(8, os.cpu_count() or 1)); bpool = mk(3); procs = []
    def lost(u, why): return dict(mod=u[0], unit=u[1], obs=[dict(unit=u[1], name='attach', status='unsupported', backend='engine', detail=why, cex=None, n=1, t=None)], functions=[], assumptions=[], t=0)
    try:
        ufs = {pool.submit(run_unit, u): u for u in units}
        try: ex = batrun.exes({prop}, sc)
        except BuildError as b:
            print(f'error: the library does not build from {os.environ.get("VERIF_REPO", "/repo")}\n{b}', file=sys.stderr)
            return 2
        njobs = len(cases.BAT.get(prop, []))
        bfs = [bpool.submit(bat_one, (prop, i, ex, seed, tier, sc)) for i in range(njobs)]
        # wait for the obligations; once something has failed, the rest gets limited time
        deadline = t0 + (UNIT_BUDGET if tier == 'quick' else 4 * UNIT_BUDGET); pend = set(ufs) | set(bfs); failed = False
        while pend and time.time() < deadline:
            done, pend = wait(pend, timeout=max(0.1, min(5, deadline - time.time())), return_when=FIRST_COMPLETED)
            for f in done:
                try: r = f.result()
                except Exception as e:
                    if f in ufs: ureps.append(lost(ufs[f], f'engine process: {e!r}'))
                    else: raise
                    continue
                if f in ufs:
                    ureps.append(r); bad1 = any(o['status'] in ('refuted', 'unproved') for o in r['obs'])
                else: bats.append(r); bad1 = bool(r['fail'])
                if bad1 and not failed: failed = True; deadline = min(deadline, max(time.time() + GRACE, t0 + GRACE))
        for f in pend:
            if f in ufs: ureps.append(lost(ufs[f], 'time limit'))
        stop(pool)
        for f in bfs:
            if f in pend:
                try: bats.append(f.result(timeout=max(20, t0 + 800 - time.time()) if tier == 'quick' else None))
                except TimeoutError: print('bounded stand-in: a job did not finish in time', file=sys.stderr)
        order = {u: i for i, u in enumerate(units)}; ureps.sort(key=lambda r: order[(r['mod'], r['unit'])]); bats.sort(key=lambda b: b['job'])
        obs = [o for r in ureps for o in r['obs']]
        bad = [o for o in obs if o['status'] in ('refuted', 'unproved')]
        fails = [b for b in bats if b['fail']]
        # a failed obligation with no failing input yet, or a function that the verifier lost: search deeper for one
        if (bad or any(o['status'] == 'unsupported' for o in obs)) and not fails and njobs:
            bpool.stop(); bpool = mk(8)
            for rnd in range(1, 4):
                fs = [bpool.submit(bat_one, (prop, i, ex, seed + 1000 * rnd, 'thorough', sc)) for i in range(njobs)]
                dn, _ = wait(fs, timeout=max(5, t0 + 820 - time.time()) if tier == 'quick' else None); more = [f.result() for f in fs if f in dn]; bats += more; fails = [b for b in more if b['fail']]
                if fails or not bad or time.time() - t0 > 450: break
    finally:
        stop(pool); stop(bpool)
    unsup = [o for o in obs if o['status'] == 'unsupported']
    proved = [o for o in obs if o['status'] == 'proved']
    total = sum(o['n'] for o in obs if o['status'] != 'unsupported'); disch = sum(o['n'] for o in proved)
    funcs = []
    for r in ureps:
        for f in r['functions']:
            if f not in funcs: funcs.append(f)
    assum = list(P.get('assumptions', []))
    for r in ureps:
        for a in r['assumptions']:
            if a not in assum: assum.append(a)
    backends = {}
    for o in proved: backends[o['backend']] = backends.get(o['backend'], 0) + o['n']
    cov = dict(obligations=total, discharged=disch, checker_cmd=f'python3-vt {HERE}/check.py {prop}', trusted_base=reg.TRUSTED,
               functions_under_contract=funcs, units=len(ureps), backends=backends, solver_time_s=round(sum(r['t'] for r in ureps), 1),
               not_attached=[dict(unit=o['unit'], reason=o['detail'][:400]) for o in unsup],
               bounded_standins=dict(note='replay battery: public API against an independent oracle; bounded, never counted as proved', bound=P.get('bound', ''),
                                     evaluations=sum(b['cases'] for b in bats), commands=sum(b['cmds'] for b in bats), jobs=[b['job'] for b in bats[:njobs]]),
               samples=[dict(obligation=o['name'], status=o['status'], backend=o['backend'], n=o['n']) for o in obs[:12]] + [dict(commands=b['sample']) for b in bats[:njobs] if b['sample']][:3],
               evaluations=sum(b['cases'] for b in bats), explanation=P.get('note', ''))
    viol = 0
    for k in known(prop): print(f'KNOWN-FINDING: property={prop} {k}')
    line = None
    if fails or bad:
        viol = len(fails) + len(bad)
        rp = os.path.join(rdir, f'{prop}.json')
        with open(rp, 'w') as f:
            json.dump(dict(property=prop, failed_obligations=[dict(unit=o['unit'], obligation=o['name'], status=o['status'], backend=o['backend'], verifier_output=o['detail'], counterexample=o['cex']) for o in bad],
                           failing_inputs=[dict(job=b['job'], what=b['fail']['what'], expected=b['fail']['want'], got=b['fail']['got'], variant=b['fail']['variant'], driver_commands=b['fail']['log']) for b in fails],
                           how_to_replay='bash bat/build.sh DIR VARIANT; feed driver_commands, one per line, to DIR/_build/default/drv/driver.exe'), f, indent=1)
        for o in bad[:6]: print(f"failed obligation: [{o['unit']}] {o['name']}: {o['status']}: {o['detail'][:300]}")
        for b in fails[:3]: print(f"failing input: {b['job']}: {b['fail']['what']}: expected {str(b['fail']['want'])[:200]} got {str(b['fail']['got'])[:200]}")
        line = f'VIOLATION property={prop} replay={rp}' + ('' if fails else ' no-failing-input-found')
    ev = dict(property=prop, tier=tier, seed=seed, level=P['level'], coverage=cov, wall_s=round(time.time() - t0, 2), assumptions=assum, violations=viol)
    with open(os.path.join(evd, f'{prop}.json'), 'w') as f: json.dump(ev, f, indent=1)
    for o in unsup[:5]: print(f"not attached (bounded stand-in decides): [{o['unit']}] {o['detail'][:300]}")
    print(f'{prop}: {disch}/{total} obligations discharged in {len(ureps)} units, {len(unsup)} not attached, {sum(b["cases"] for b in bats)} bounded cases, {time.time()-t0:.1f} s')
    if line: print(line); return 1
    if total == 0 and not sum(b['cases'] for b in bats): print('error: nothing was checked', file=sys.stderr); return 2
    return 0

if __name__ == '__main__':
    rc = main(); sys.stdout.flush(); sys.stderr.flush(); os._exit(rc)
