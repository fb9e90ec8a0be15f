"""Composition lemmas (Lean 4): lemmas/Tree.lean, checked on every run."""
import os, re, subprocess
F = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lemmas', 'Tree.lean')
OK = {'propext', 'Classical.choice', 'Quot.sound'}
def lemmas(names):
    def run(rep):
        try: p = subprocess.run(['lean', F], capture_output=True, text=True, timeout=600); out = p.stdout + p.stderr; rc = p.returncode
        except Exception as e: out, rc = repr(e), 1
        for n in names:
            m = re.search(r"'%s' (?:depends on axioms: \[(.*)\]|does not depend on any axioms)" % n, out); ok = rc == 0 and m and set((m.group(1) or '').split(', ')) <= OK | {''}
            rep.ob(f'lemma {n} (lemmas/Tree.lean)', 'proved' if ok else 'unsupported', 'lean4', '' if ok else out[-600:])
    return run
UNITS = {'history': lemmas(['history', 'chunk_independence']), 'tree': lemmas(['merge_after_push', 'reach_merge', 'reach_folds', 'depth', 'merges_cvs', 'fold_tree', 'blake3_tree'])}
