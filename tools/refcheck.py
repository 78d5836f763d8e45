"""Lab tool: run checks over behaviour-preserving refactorings (lab/refactors*.py: REF = {name: [(file, old, new), ...]}).
python3 tools/refcheck.py [pids|all] [name substring] [--tests]"""
import sys, os, glob, runpy, ast, multiprocessing, subprocess, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.setrecursionlimit(20000)
from sa.program import Program, REPO, AnchorMissing


def load():
    out = {}
    for f in sorted(glob.glob(os.path.join(V, 'lab', 'refactors*.py'))):
        for k, v in runpy.run_path(f)['REF'].items():
            out[os.path.basename(f)[9:-3].strip('_') + '/' + k] = v
    return out


def overrides(edits):
    ov = {}
    for f, old, new, *every in edits:
        s = ov.get(f) or open(os.path.join(REPO, f)).read()
        if s.count(old) != 1 and not (every and old in s):
            return None, '%s: %d matches of %r' % (f, s.count(old), old[:60])
        s = s.replace(old, new)
        ast.parse(s)
        ov[f] = s
    return ov, None


def one(a):
    name, edits, pid = a
    from sa.run import analyse, known
    ov, err = overrides(edits)
    if err:
        return name, pid, 'EDIT ' + err, 0
    try:
        c = analyse(pid, Program(overrides=ov))
    except Exception as e:
        return name, pid, 'EXC %r' % e, 0
    kn = {k[1] for k in known() if k[0] == pid}
    bad = [o for o in c.obs if o['verdict'] == 'violation' and o['key'] not in kn]
    un = sum(o['verdict'] == 'undecided' for o in c.obs)
    return name, pid, ('ALARM %s @ %s: %s' % (bad[0]['rule'], bad[0]['where'], bad[0]['detail'][:600]) if bad else ('ERR ' + c.errors[0][-300:] if c.errors else '')), un


def main():
    from sa.rules import REGISTRY
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    pids = sorted(REGISTRY) if not args or args[0] == 'all' else args[0].split(',')
    sub = args[1] if len(args) > 1 else ''
    refs = {k: v for k, v in load().items() if sub in k}
    if '--tests' in sys.argv:
        for k, v in refs.items():
            d = '/tmp/reftest'
            shutil.rmtree(d, ignore_errors=True)
            subprocess.run('cp -a /repo %s' % d, shell=True)
            ov, err = overrides(v)
            if err:
                print(k, err); continue
            for f, s in ov.items():
                open(os.path.join(d, f), 'w').write(s)
            os.makedirs('/tmp/refdata', exist_ok=True)
            env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg', CUDA_VISIBLE_DEVICES='', TF_CPP_MIN_LOG_LEVEL='3', MPLCONFIGDIR='/opt/venv/mplconfig', DATA_FOLDER='/tmp/refdata', PYTHONPATH=d)
            t = subprocess.run('/opt/venv/bin/python -m pytest tests -q --tb=line -W ignore -p no:cacheprovider -p no:xdist -x --ignore=tests/Dataset/test_integrated_datasets.py --ignore=tests/Recommender/Baseline/test_item_cf.py --ignore=tests/Recommender/Baseline/test_user_cf.py', shell=True, cwd=d, env=env, capture_output=True, text=True)
            print(k, t.stdout.strip().split('\n')[-1])
        shutil.rmtree('/tmp/reftest', ignore_errors=True)
        return
    jobs = [(k, v, p) for k, v in refs.items() for p in pids]
    n = 0
    und = {}
    with multiprocessing.Pool(8) as pool:
        for name, pid, msg, un in pool.imap_unordered(one, jobs):
            n += 1
            if msg:
                print(name, pid, msg)
            if un:
                und.setdefault(pid, []).append((name, un))
    for p in sorted(und):
        print('undecided', p, ', '.join('%s:%d' % x for x in sorted(und[p]))[:300])
    print('%d runs' % n)


if __name__ == '__main__':
    main()
