"""Thorough tier: how sensitive is the check of a property on the tree it has just analysed?
One-construct mutants of the analysed functions are made in memory (nothing is written, nothing is executed) and analysed by the same
rules. The result goes into the evidence; it never changes the verdict on the tree."""
import multiprocessing
import os
import random
import sys
import time
from .program import Program, REPO, AnchorMissing

LIMIT, SECONDS = 400, 420


def _one(a):
    pid, rel, line, desc, src = a
    from .run import analyse, known
    try:
        c = analyse(pid, Program(overrides={rel: src}))
    except AnchorMissing:
        return rel, line, desc, 'undecided'
    except Exception as e:
        return rel, line, desc, 'error ' + repr(e)[:80]
    kn = {k[1] for k in known() if k[0] == pid}
    if any(o['verdict'] == 'violation' and o['key'] not in kn for o in c.obs):
        return rel, line, desc, 'violation'
    if c.errors:
        return rel, line, desc, 'error ' + c.errors[0][-80:]
    return rel, line, desc, 'undecided' if any(o['verdict'] == 'undecided' for o in c.obs) else 'quiet'


def run_selftest(pid, prog, functions=()):
    sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'tools'))
    from mutate import mutants
    by = {}
    for m in prog.modules.values():
        for f in list(m.funcs.values()) + [x for k in m.classes.values() for x in k.methods.values()]:
            if f.qual in functions:
                by.setdefault(m, set()).add(f.name)
    jobs = []
    for m, names in sorted(by.items(), key=lambda x: x[0].name):
        jobs += [(pid, m.relpath, l, d, s) for l, d, s in mutants(m.source, names)]
    total = len(jobs)
    random.seed(1)
    random.shuffle(jobs)
    jobs = jobs[:LIMIT]
    t0, res = time.time(), []
    with multiprocessing.Pool(min(8, os.cpu_count() or 1)) as p:
        for r in p.imap_unordered(_one, jobs, chunksize=1):
            res.append(r)
            if time.time() - t0 > SECONDS:
                p.terminate()
                break
    n = {}
    for r in res:
        n[r[3].split()[0]] = n.get(r[3].split()[0], 0) + 1
    quiet = sorted((r[0], r[1], r[2]) for r in res if r[3] == 'quiet')
    return dict(explanation='mutants of the functions this property analyses; mutants outside the property (logging, other effects, equivalent changes) stay quiet',
                candidates=total, analysed=len(res), violation=n.get('violation', 0), undecided=n.get('undecided', 0), quiet=n.get('quiet', 0),
                errors=n.get('error', 0), quiet_sample=['%s:%d %s' % q for q in quiet[:60]], seconds=round(time.time() - t0, 1))
