"""Lab tool: which lab bugs pass the repository's own tests?  python3 tools/survive.py [substr]  (runs in scratch copies)"""
import sys, os, glob, runpy, subprocess, shutil, json
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = {}
for f in sorted(glob.glob(V + '/lab/bugs*.py')):
    B.update(runpy.run_path(f)['BUG'])
sub = sys.argv[1] if len(sys.argv) > 1 else ''


def run(name):
    d = '/tmp/surv/' + name
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs('/tmp/surv', exist_ok=True)
    subprocess.run('cp -a /repo %s' % d, shell=True)
    for f, old, new in B[name][1]:
        s = open(d + '/' + f).read()
        if s.count(old) != 1:
            shutil.rmtree(d)
            return name, 'EDIT'
        open(d + '/' + f, 'w').write(s.replace(old, new))
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg', CUDA_VISIBLE_DEVICES='', TF_CPP_MIN_LOG_LEVEL='3',
               MPLCONFIGDIR='/opt/venv/mplconfig', DATA_FOLDER=d + '/.data', PYTHONPATH=d)
    os.makedirs(d + '/.data', exist_ok=True)
    t = subprocess.run('/opt/venv/bin/python -m pytest tests -q --tb=line -W ignore -p no:cacheprovider -p no:xdist --timeout=300 -x '
                       '--ignore=tests/Dataset/test_integrated_datasets.py --ignore=tests/Recommender/Baseline/test_item_cf.py '
                       '--ignore=tests/Recommender/Baseline/test_user_cf.py', shell=True, cwd=d, env=env, capture_output=True, text=True)
    shutil.rmtree(d)
    return name, 'SURVIVES' if t.returncode == 0 else 'killed'


with ThreadPoolExecutor(6) as ex:
    for n, r in ex.map(run, [n for n in B if sub in n]):
        print(n, B[n][0], r, flush=True)
