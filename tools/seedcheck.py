"""Lab tool: which planted bugs (seeded/*) does the check of their property report?  python3 tools/seedcheck.py [substr]"""
import sys, os, glob, json, subprocess, shutil, tempfile
from multiprocessing import Pool
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(d):
    n = os.path.basename(d)
    pid = json.load(open(d + '/meta.json'))['property']
    t = tempfile.mkdtemp(prefix='seedck')
    try:
        subprocess.run('git -C /repo archive HEAD | tar -x -C %s' % t, shell=True, check=True)
        r = subprocess.run(['git', 'apply', d + '/patch.diff'], cwd=t, capture_output=True, text=True)
        if r.returncode:
            return n, pid, 'NOAPPLY ' + r.stderr[:100]
        r = subprocess.run([sys.executable, '-m', 'sa.run', pid], cwd=V, env=dict(os.environ, SA_REPO=t, SA_NOEV='1'), capture_output=True, text=True)
        return n, pid, 'caught' if r.returncode == 1 and 'VIOLATION property=%s' % pid in r.stdout else 'MISSED'
    finally:
        shutil.rmtree(t, ignore_errors=True)


if __name__ == '__main__':
    sub = sys.argv[1] if len(sys.argv) > 1 else ''
    ds = sorted(d for d in glob.glob(os.path.join(V, 'seeded', '*')) if sub in d)
    with Pool(4) as p:
        rs = p.map(one, ds, 1)
    for r in rs:
        if r[2] != 'caught':
            print(*r)
    print(sum(r[2] == 'caught' for r in rs), '/', len(rs))
