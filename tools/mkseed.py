"""Lab tool: turn a seed description into /verif/seeded/<id>/ after confirming it in a scratch copy.

python3 tools/mkseed.py FILE.py [ids...]   FILE.py defines SEEDS = [dict(id, prop, file, old, new, needs, breaks, demo)]
(edits may be given as `edits=[(file, old, new), ...]`)
"""
import json, os, subprocess, sys, shutil, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCR = '/tmp/seedscratch%d' % os.getpid()
SDATA = '/tmp/seeddata%d' % os.getpid()
DEMO = '''#!/bin/bash
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg CUDA_VISIBLE_DEVICES= TF_CPP_MIN_LOG_LEVEL=3
export MPLCONFIGDIR=/opt/venv/mplconfig PYTHONWARNINGS=ignore
here="$(cd "$(dirname "$0")" && pwd)"
W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
export DATA_FOLDER="$W/data" SCRATCH="$W/s" PYTHONPATH="$PWD"; mkdir -p "$DATA_FOLDER" "$SCRATCH"
timeout 250 /opt/venv/bin/python "$here/demo.py"
'''


def sh(cmd, cwd=None, env=None):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, env=env)


def main():
    seeds = runpy.run_path(sys.argv[1])['SEEDS']
    want = set(sys.argv[2:])
    base = set(json.load(open('/opt/vp/BASELINE.json')).get('passed', [])) if os.path.exists('/opt/vp/BASELINE.json') else set()
    for s in seeds:
        if want and s['id'] not in want:
            continue
        d = os.path.join(V, 'seeded', s['id'])
        if os.path.exists(d) and not want:
            continue
        shutil.rmtree(SCR, ignore_errors=True)
        sh('cp -a /repo %s && git -C %s checkout -q -- .' % (SCR, SCR))
        ok = True
        for f, old, new in s.get('edits') or [(s['file'], s['old'], s['new'])]:
            fp = os.path.join(SCR, f)
            src = open(fp).read()
            if src.count(old) != 1:
                print(s['id'], 'EDIT', f, src.count(old)); ok = False; break
            open(fp, 'w').write(src.replace(old, new))
        if not ok:
            continue
        diff = sh('git diff', cwd=SCR).stdout
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        open(os.path.join(d, 'demo.sh'), 'w').write(DEMO)
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        open(os.path.join(d, 'demo.py'), 'w').write(s['demo'].lstrip('\n'))
        json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        a = sh('bash %s/demo.sh' % d, cwd='/repo')
        b = sh('bash %s/demo.sh' % d, cwd=SCR)
        if a.returncode != 0 or b.returncode == 0:
            print(s['id'], 'DEMO clean rc=%d patched rc=%d\n%s\n%s' % (a.returncode, b.returncode, a.stderr[-600:], b.stderr[-300:]))
            shutil.rmtree(d); continue
        # tests in the scratch copy
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg', CUDA_VISIBLE_DEVICES='', TF_CPP_MIN_LOG_LEVEL='3',
                   MPLCONFIGDIR='/opt/venv/mplconfig', DATA_FOLDER=SDATA, PYTHONPATH=SCR)
        shutil.rmtree(SDATA, ignore_errors=True); os.makedirs(SDATA)
        pre = s.get('tests')
        if pre:
            t = sh('/opt/venv/bin/python -m pytest %s -q --tb=line -W ignore -p no:cacheprovider -p no:xdist --timeout=300 -x' % pre, cwd=SCR, env=env)
            if t.returncode != 0:
                print(s['id'], 'TESTS', t.stdout[-300:]); shutil.rmtree(d); continue
        t = sh('/opt/venv/bin/python -m pytest tests -q --tb=line -W ignore -p no:cacheprovider -p no:xdist --timeout=300 -x '
               '--ignore=tests/Dataset/test_integrated_datasets.py --ignore=tests/Recommender/Baseline/test_item_cf.py '
               '--ignore=tests/Recommender/Baseline/test_user_cf.py', cwd=SCR, env=env)
        tail = t.stdout.strip().split('\n')[-1]
        if t.returncode != 0:
            print(s['id'], 'TESTS', t.stdout[-500:]); shutil.rmtree(d); continue
        c = sh('python3 -m sa.run %s --tier quick' % s['prop'], cwd=V, env=dict(os.environ, SA_REPO=SCR))
        print(s['id'], 'OK tests:', tail, '| check rc', c.returncode, (c.stdout.strip().split('\n')[-2:] if c.returncode else c.stdout.strip().split('\n')[0]))
    shutil.rmtree(SCR, ignore_errors=True)
    shutil.rmtree(SDATA, ignore_errors=True)


main()
