"""Lab tool: run checks over hand-written property-breaking edits (lab/bugs*.py: BUG = {name: (pids, [(file, old, new), ...])}).
python3 tools/bugcheck.py [name substring] [-v]"""
import sys, os, glob, runpy, multiprocessing
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.path.insert(0, os.path.join(V, 'tools'))
sys.setrecursionlimit(20000)
from refcheck import one


def main():
    args = [a for a in sys.argv[1:] if not a.startswith('-')]
    sub = args[0] if args else ''
    jobs = []
    for f in sorted(glob.glob(os.path.join(V, 'lab', 'bugs*.py'))):
        for k, (pids, ed) in runpy.run_path(f)['BUG'].items():
            if sub in k or sub in pids:
                jobs += [(k, ed, p) for p in pids.split(',')]
    hit = n = 0
    with multiprocessing.Pool(8) as pool:
        for name, pid, msg, un in pool.imap_unordered(one, jobs):
            n += 1
            if msg.startswith('ALARM'):
                hit += 1
                if '-v' in sys.argv:
                    print('ok  ', name, pid, msg[:300])
            else:
                print('MISS', name, pid, msg[:300], 'undecided=%d' % un)
    print('%d / %d caught' % (hit, n))


if __name__ == '__main__':
    main()
