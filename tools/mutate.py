"""Lab tool: syntactic mutants of repository files, run through the checks of some properties; prints the survivors.

python3 tools/mutate.py E02,E03 DRecPy/Evaluation/Processes/ranking_evaluation.py [--funcs a,b] [--limit N] [--all]
"""
import ast, copy, sys, os, argparse, multiprocessing, random
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.setrecursionlimit(20000)
from sa.program import Program, REPO, AnchorMissing

CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt, ast.GtE], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt, ast.LtE], ast.Eq: [ast.NotEq],
       ast.NotEq: [ast.Eq], ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult, ast.FloorDiv], ast.FloorDiv: [ast.Div], ast.Pow: [ast.Mult], ast.Mod: [ast.Mult]}


def names_of(fn):
    out = [a.arg for a in fn.args.args + fn.args.kwonlyargs]
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id not in out:
            out.append(n.id)
    return out


def mutants(src, funcs=None, names=True):
    tree = ast.parse(src)
    par = {}
    for n in ast.walk(tree):
        for ch in ast.iter_child_nodes(n):
            par[ch] = n
    idx = {n: i for i, n in enumerate(ast.walk(tree))}
    out = []

    def enclosing(n):
        while n in par:
            n = par[n]
            if isinstance(n, (ast.FunctionDef,)):
                return n
        return None

    def emit(n, desc, fn):
        t = copy.deepcopy(tree)
        m = [x for i, x in enumerate(ast.walk(t)) if i == idx[n]][0]
        p2 = {}
        for x in ast.walk(t):
            for ch in ast.iter_child_nodes(x):
                p2[ch] = x
        try:
            fn(m, p2)
            ast.fix_missing_locations(t)
            s = ast.unparse(t)
            compile(s, 'x', 'exec')
        except Exception:
            return
        out.append((getattr(n, 'lineno', 0), desc, s))

    def repl(new):
        def f(m, p2):
            p = p2[m]
            for field, val in ast.iter_fields(p):
                if val is m:
                    setattr(p, field, new(m))
                elif isinstance(val, list):
                    for i, v in enumerate(val):
                        if v is m:
                            val[i] = new(m)
        return f
    for n in ast.walk(tree):
        fn = enclosing(n)
        if fn is None or (funcs and fn.name not in funcs):
            continue
        if isinstance(par.get(n), ast.Expr) and isinstance(n, ast.Constant):
            continue
        u = par.get(n)
        inside_raise = False
        x = n
        while x is not fn:
            if isinstance(x, (ast.Raise,)) or (isinstance(x, ast.Assert) and False):
                inside_raise = True
            if isinstance(par[x], ast.Assert) and x is par[x].msg:
                inside_raise = True
            if isinstance(par[x], ast.Call) and ast.unparse(par[x].func) in ('self._log_info', 'self._log_warning', 'self._log_debug', 'logging.warn', 'tqdm'):
                inside_raise = True
            x = par[x]
        if inside_raise:
            continue
        if isinstance(n, ast.Compare):
            for i, op in enumerate(n.ops):
                for new in CMP.get(type(op), []):
                    emit(n, '%s -> %s' % (ast.unparse(n), new.__name__), lambda m, p, i=i, new=new: m.ops.__setitem__(i, new()))
        elif isinstance(n, ast.BinOp):
            for new in BIN.get(type(n.op), []):
                emit(n, '%s -> %s' % (ast.unparse(n)[:80], new.__name__), lambda m, p, new=new: setattr(m, 'op', new()))
            emit(n, '%s -> left' % ast.unparse(n)[:80], repl(lambda m: m.left))
            emit(n, '%s -> right' % ast.unparse(n)[:80], repl(lambda m: m.right))
        elif isinstance(n, ast.BoolOp):
            emit(n, '%s -> swap and/or' % ast.unparse(n)[:80], lambda m, p: setattr(m, 'op', ast.Or() if isinstance(m.op, ast.And) else ast.And()))
            for i in range(len(n.values)):
                emit(n, '%s -> drop operand %d' % (ast.unparse(n)[:80], i), repl(lambda m, i=i: m.values[1 - i] if len(m.values) == 2 else ast.BoolOp(m.op, m.values[:i] + m.values[i + 1:])))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            emit(n, '%s -> drop' % ast.unparse(n)[:80], repl(lambda m: m.operand))
        elif isinstance(n, ast.Constant):
            if isinstance(u, (ast.FormattedValue, ast.JoinedStr)):
                continue
            if isinstance(n.value, bool):
                emit(n, 'const %r -> %r (%s)' % (n.value, not n.value, ast.unparse(u)[:60]), lambda m, p: setattr(m, 'value', not m.value))
            elif isinstance(n.value, (int, float)):
                for d in (1, -1):
                    emit(n, 'const %r -> %r (%s)' % (n.value, n.value + d, ast.unparse(u)[:60]), lambda m, p, d=d: setattr(m, 'value', m.value + d))
            elif isinstance(n.value, str) and n.value in ('user', 'item', 'interaction', 'uid', 'iid', 'rid'):
                for o in ('user', 'item', 'interaction', 'uid', 'iid', 'rid'):
                    if o != n.value:
                        emit(n, 'str %r -> %r (%s)' % (n.value, o, ast.unparse(u)[:60]), lambda m, p, o=o: setattr(m, 'value', o))
        elif isinstance(n, ast.If):
            emit(n, 'if %s -> True' % ast.unparse(n.test)[:80], lambda m, p: setattr(m, 'test', ast.Constant(True)))
            emit(n, 'if %s -> False' % ast.unparse(n.test)[:80], lambda m, p: setattr(m, 'test', ast.Constant(False)))
        elif isinstance(n, ast.IfExp):
            emit(n, '%s -> body' % ast.unparse(n)[:80], repl(lambda m: m.body))
            emit(n, '%s -> orelse' % ast.unparse(n)[:80], repl(lambda m: m.orelse))
        elif isinstance(n, ast.Call):
            for i, k in enumerate(n.keywords):
                emit(n, 'drop kw %s of %s' % (k.arg, ast.unparse(n)[:80]), lambda m, p, i=i: m.keywords.pop(i))
            if len(n.args) >= 2:
                for i in range(len(n.args) - 1):
                    emit(n, 'swap args %d,%d of %s' % (i, i + 1, ast.unparse(n)[:80]), lambda m, p, i=i: m.args.__setitem__(slice(i, i + 2), [m.args[i + 1], m.args[i]]))
                emit(n, 'drop last arg of %s' % ast.unparse(n)[:80], lambda m, p: m.args.pop())
            if isinstance(n.func, ast.Name) and n.func.id in ('set', 'list', 'sorted', 'int', 'float', 'abs', 'str', 'round', 'max', 'min', 'tuple') and n.args:
                emit(n, 'unwrap %s' % ast.unparse(n)[:80], repl(lambda m: m.args[0]))
            if isinstance(n.func, ast.Name) and n.func.id in ('max', 'min'):
                emit(n, 'swap max/min %s' % ast.unparse(n)[:80], lambda m, p: setattr(m.func, 'id', 'min' if m.func.id == 'max' else 'max'))
        elif isinstance(n, ast.JoinedStr):
            for i, v in enumerate(n.values):
                if isinstance(v, ast.Constant) and isinstance(v.value, str):
                    for a, b in (('>=', '>'), ('<', '<='), ('==', '!='), ('>', '>='), ('=', '>='), ('AND', 'OR')):
                        if a in v.value and not (a in ('>', '=', '<') and ('>=' in v.value or '<=' in v.value or '==' in v.value or '!=' in v.value)):
                            emit(n, 'fstring %s -> %s in %s' % (a, b, ast.unparse(n)[:80]), lambda m, p, i=i, a=a, b=b: setattr(m.values[i], 'value', m.values[i].value.replace(a, b, 1)))
        if names and isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and not isinstance(u, ast.Call) or (isinstance(n, ast.Name) and isinstance(u, ast.Call) and u.func is not n):
            if isinstance(n.ctx, ast.Load):
                pool = [x for x in names_of(fn) if x != n.id]
                if n.id in names_of(fn):
                    random.seed(idx[n])
                    for o in random.sample(pool, min(2, len(pool))):
                        emit(n, 'name %s -> %s (%s)' % (n.id, o, ast.unparse(u)[:60]), lambda m, p, o=o: setattr(m, 'id', o))
        if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Return, ast.Break, ast.Continue, ast.Raise, ast.Assert, ast.Delete)):
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                continue
            emit(n, 'delete: %s' % ast.unparse(n)[:90], repl(lambda m: ast.Pass()))
        if isinstance(n, (ast.With, ast.Try)) :
            def unw(m, p2):
                p = p2[m]
                for field, val in ast.iter_fields(p):
                    if isinstance(val, list) and m in val:
                        i = val.index(m)
                        val[i:i + 1] = m.body + (m.finalbody if isinstance(m, ast.Try) else [])
            emit(n, 'unwrap %s' % ast.unparse(n)[:60].replace('\n', ' '), unw)
    seen, res = set(), []
    base = ast.unparse(tree)
    for l, d, s in out:
        if s != base and s not in seen:
            seen.add(s)
            res.append((l, d, s))
    return res


def one(a):
    pids, rel, l, d, s = a
    from sa.run import analyse, known
    res = []
    try:
        prog = Program(overrides={rel: s})
        for pid in pids:
            c = analyse(pid, prog)
            kn = {k[1] for k in known() if k[0] == pid}
            bad = [o for o in c.obs if o['verdict'] == 'violation' and o['key'] not in kn]
            un = [o for o in c.obs if o['verdict'] == 'undecided']
            res.append((pid, len(bad), len(un), [o['rule'] + ': ' + o['detail'][:160] for o in (bad or un)[:2]], len(c.errors), c.errors[:1]))
    except AnchorMissing as e:
        res.append((pids[0], 0, 0, ['anchor ' + str(e)], 1, []))
    except Exception as e:
        res.append((pids[0], 0, 0, ['EXC ' + repr(e)], 1, []))
    return l, d, res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pids'); ap.add_argument('file'); ap.add_argument('--funcs'); ap.add_argument('--limit', type=int); ap.add_argument('--all', action='store_true')
    ap.add_argument('--nonames', action='store_true'); ap.add_argument('--only')
    a = ap.parse_args()
    src = open(os.path.join(REPO, a.file)).read()
    ms = mutants(src, set(a.funcs.split(',')) if a.funcs else None, not a.nonames)
    if a.only:
        ms = [m for m in ms if a.only in m[1]]
    if a.limit and len(ms) > a.limit:
        random.seed(1); ms = sorted(random.sample(ms, a.limit))
    jobs = [(a.pids.split(','), a.file, l, d, s) for l, d, s in ms]
    killed = 0
    rest = []
    with multiprocessing.Pool(8) as p:
        for l, d, res in p.imap_unordered(one, jobs, chunksize=1):
            if any(r[1] for r in res):
                killed += 1
                if a.all:
                    print('K', l, d, [r[3] for r in res if r[1]][0][:1])
            else:
                rest.append((l, d, res))
    for l, d, res in sorted(rest, key=lambda x: (x[0], x[1])):
        print('SURV %d %s %s' % (l, d, '; '.join('%s undec=%d%s' % (r[0], r[2], ' ERR ' + str(r[5])[-200:] if r[4] else '') for r in res)))
    print('killed %d / %d' % (killed, len(ms)))


if __name__ == '__main__':
    main()
