"""CLI: python3 -m sa.run <PROPERTY> --tier quick|thorough"""
import contextlib, signal, argparse
import importlib
import json
import os
import sys
import time
import traceback

from .program import Program, AnchorMissing, REPO
from .base import Check, OK, BAD, UNDEC
from .terms import show

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load_rules():
    from .rules import REGISTRY
    return REGISTRY


def known():
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('known: '):
                # known: property=<id> key=<key> <text>
                parts = line[7:].split(' ', 2)
                out.append((parts[0].split('=', 1)[1], parts[1].split('=', 1)[1], parts[2] if len(parts) > 2 else ''))
    return out


def analyse(pid, prog, tier='quick'):
    reg = load_rules()
    fns, doc = reg[pid]
    c = Check(pid, prog, tier)
    from . import equiv
    equiv.VOCAB.clear()
    equiv.VOCAB.update(equiv.vocabulary(prog))
    for fn in fns:
        try:
            with budget(BUDGET):
                fn(c)
        except AnchorMissing as e:
            c.undec('anchor', str(e), 'construct not found: nothing to decide in this form')
        except OutOfTime:
            c.undec('budget', fn.__name__, 'analysis time budget exhausted')
        except RecursionError:
            c.errors.append('%s: recursion limit' % fn.__name__)
        except Exception:
            c.errors.append('%s: %s' % (fn.__name__, traceback.format_exc(limit=6)))
    if pid in QUOTING:
        for e in c.quoted:
            if e.raw:
                c.bad('ids-quoted', e, 'the raw id %s is written into a query without being turned into a literal: ids that are strings do not select their own rows' % show(e.value)[:200])
            else:
                c.ok('ids-quoted', e)
    return c


QUOTING = ('L01', 'L02', 'E03', 'N02')
BUDGET = 240


class OutOfTime(BaseException):
    pass


@contextlib.contextmanager
def budget(sec):
    def expire(*a):
        raise OutOfTime()
    try:
        old = signal.signal(signal.SIGALRM, expire)
    except ValueError:
        yield
        return
    signal.alarm(sec)
    try:
        yield
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def main():
    sys.setrecursionlimit(20000)
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--verbose', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    pid = a.pid
    ev_dir = os.path.join(VERIF, 'evidence')
    os.makedirs(os.path.join(ev_dir, 'replays'), exist_ok=True)
    try:
        prog = Program()
        c = analyse(pid, prog, a.tier)
    except SyntaxError as e:
        print('SOURCE-DOES-NOT-PARSE property=%s %s' % (pid, e))
        return 2
    kn = [k for k in known() if k[0] == pid]
    bad = [o for o in c.obs if o['verdict'] == BAD]
    new, listed = [], []
    for o in bad:
        (listed if o['key'] and any(k[1] == o['key'] for k in kn) else new).append(o)
    n_ok = sum(o['verdict'] == OK for o in c.obs)
    n_un = sum(o['verdict'] == UNDEC for o in c.obs)
    selftest = None
    if a.tier == 'thorough':
        try:
            from .selftest import run_selftest
            selftest = run_selftest(pid, prog, c.functions)
        except ImportError:
            selftest = None
    doc = load_rules()[pid][1]
    rules = {}
    for o in c.obs:
        rules.setdefault(o['rule'], [0, 0, 0])[(OK, BAD, UNDEC).index(o['verdict'])] += 1
    cov = dict(
        explanation=doc + ' Each obligation is one (rule, construct) instance found in the current source; "ok" means the '
        'abstract semantics of that construct satisfies the rule, "undecided" means the construct uses idioms outside the '
        'abstract domain (never reported as a violation).',
        modules_parsed=len(prog.modules), functions_analysed=len(c.functions), abstract_events=c.calls,
        obligations=len(c.obs), discharged=n_ok, undecided=n_un, known_findings=len(listed),
        per_rule={k: dict(ok=v[0], violation=v[1], undecided=v[2]) for k, v in sorted(rules.items())},
        functions=sorted(c.functions), samples=[o for o in c.obs if o['verdict'] == OK][:12],
        undecided_items=[o for o in c.obs if o['verdict'] == UNDEC][:40], engine_errors=c.errors)
    if selftest is not None:
        cov['rule_selftest'] = selftest
    rec = dict(property=pid, tier=a.tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='other', coverage=cov,
               assumptions=['source-level analysis of /repo/DRecPy; third-party libraries behave as modelled in sa/interp.py',
                            'no reflection or monkey-patching of the analysed classes'],
               wall_s=round(time.time() - t0, 3), violations=len(new))
    with open(os.path.join(ev_dir, pid + '.json'), 'w') as f:
        json.dump(rec, f, indent=1)
    print('%s: %d obligations, %d discharged, %d undecided, %d known, %d violations (%d functions, %.1fs)'
          % (pid, len(c.obs), n_ok, n_un, len(listed), len(new), len(c.functions), time.time() - t0))
    for e in c.errors:
        print('  engine note: ' + e.replace('\n', '\n    '))
    if a.verbose:
        for o in c.obs:
            if o['verdict'] == UNDEC or os.environ.get('SA_ALL'):
                print('  [%s] %s @ %s %s' % (o['verdict'], o['rule'], o['where'], o['detail'][:300] if o['verdict'] != OK else ''))
    done = set()
    for o in listed:
        for k in kn:
            if k[1] == o['key'] and k not in done:
                done.add(k)
                print('KNOWN-FINDING: property=%s %s' % (pid, k[2]))
    if new:
        rp = os.path.join(ev_dir, 'replays', pid + '.json')
        with open(rp, 'w') as f:
            json.dump(dict(property=pid, repo=REPO, violations=new), f, indent=1)
        for o in new:
            print('  violated: %s @ %s: %s' % (o['rule'], o['where'], o['detail']))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    return 0


if __name__ == '__main__':
    sys.exit(main())
