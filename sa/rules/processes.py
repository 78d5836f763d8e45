"""E02 aggregation, E03 candidate lists, E04 predictive evaluation: effects compared with the reference processes."""
import ast
from ..base import *
from ..effects import *
from ..equiv import outcomes, compare
from . import rule, splits
from .metrics import defaults

PROCS = 'DRecPy.Evaluation.Processes'
FLOAT, INT, LIST = mk('ext', 'builtins.float'), mk('ext', 'builtins.int'), mk('ext', 'builtins.list')


def P(n):
    return mk('param', 'evaluation', n)


def pair(c, name, args, guards, spec):
    f = c.prog.func(PROCS, name)
    sp = c.prog.with_spec()
    sf = sp.modules['SPEC.processes'].funcs[name]
    a = {n: args.get(n, P(n)) for n in sf.params() if n != 'kwds'}
    a = {n: v for n, v in a.items() if v is not None}
    missing = [n for n in a if n not in f.params()]
    if missing:
        c.bad('signature', f.qual, 'documented parameter %s is gone' % missing)
        return None
    r = c.run(f, args=a, guards=guards, spec=spec)
    it = Interp(sp, spec=spec)
    s = it.run(sf, args=a, guards=guards)
    return f, r, s


def variants(name):
    """(label, args, guards, kwds specialisation)"""
    given = {'verbose': FALSE, 'metrics': P('metrics'), 'interaction_threshold': P('interaction_threshold')}
    k = P('k')
    klist = (mk('isa', k, LIST),)
    ds, tr = P('ds_test'), mk('attr', P('model'), 'interaction_dataset')
    ds_given = (neg(isnone(ds)), neg(cmp_('==', ds, tr)))
    users = (neg(isnone(P('n_test_users'))),)
    out = []

    def add_(label, args=None, guards=(), spec=None):
        out.append((label, args or {}, tuple(guards), dict(given, **(spec or {}))))
    if name == 'predictive_evaluation':
        n = P('n_test_predictions')
        given.pop('interaction_threshold')
        for cnt in (TRUE, FALSE):
            for dn, dg in (('ds', (neg(isnone(ds)),)), ('train', ())):
                for nn, ng in (('n', (neg(isnone(n)),)), ('all', ())):
                    a = {'count_none_predictions': cnt}
                    if dn == 'train':
                        a['ds_test'] = NONE
                    if nn == 'all':
                        a['n_test_predictions'] = NONE
                    add_('count_none=%s %s %s' % (show(cnt), dn, nn), a, dg + ng)
        add_('verbose', {}, (neg(isnone(ds)), neg(isnone(n))), {'verbose': TRUE})
        add_('default metrics', {}, (neg(isnone(ds)), neg(isnone(n))), {'metrics': lambda d: d})
        return out
    for pn in ('all-pos', 'n-pos'):
        for dn in ('ds', 'train'):
            a, g = {}, klist + users
            if pn == 'all-pos':
                a['n_pos_interactions'] = NONE
            else:
                g += (neg(isnone(P('n_pos_interactions'))),)
            if dn == 'train':
                a['ds_test'] = NONE
            else:
                g += ds_given
            if name == 'recommendation_evaluation':
                add_('%s %s' % (pn, dn), a, g)
                continue
            nneg = P('n_neg_interactions')
            for nn in ('all-neg', 'int', 'int-generate', 'float', 'float-generate'):
                a2, g2 = dict(a), g
                a2['generate_negative_pairs'] = TRUE if nn.endswith('generate') else FALSE
                if nn == 'all-neg':
                    a2['n_neg_interactions'] = NONE
                else:
                    g2 += (neg(isnone(nneg)),)
                    g2 += (mk('isa', nneg, FLOAT),) if nn.startswith('float') else (neg(mk('isa', nneg, FLOAT)),)
                add_('%s %s %s' % (pn, dn, nn), a2, g2)
    a = {'n_pos_interactions': NONE}
    if name == 'ranking_evaluation':
        a.update(n_neg_interactions=NONE, generate_negative_pairs=FALSE)
    add_('scalar k', a, ds_given + users + (neg(mk('isa', k, LIST)),))
    add_('all users', dict(a, n_test_users=NONE), ds_given + klist)
    add_('verbose', a, ds_given + users + klist, {'verbose': TRUE})
    add_('default threshold', a, ds_given + users + klist, {'interaction_threshold': lambda d: d})
    add_('default metrics', a, ds_given + users + klist, {'metrics': lambda d: d})
    return out


def model_call(*names):
    def pick(e):
        if e.kind == 'call' and e.name in names and e.get('recv') is P('model'):
            kw = e.kw
            return (e.name, mk('args', e.args, tuple(sorted(kw.items()))))
    return pick


def metric_call(e):
    if e.kind == 'call' and e.get('name') == '' and e.f is not None and e.f.op == 'elem':
        return ('metric call', mk('args', e.f, e.args, tuple(sorted(e.kw.items()))))


def accum(it):
    """writes to the shared accumulators (list cells) inside tasks"""
    def pick(e):
        if e.kind == 'mutate' and e.how == 'setitem' and e.tasks:
            rs = roots(it, e.recv)
            if rs and all(x.op == 'ref' and it.objinfo.get(x.a[0], (0, 0, ()))[2] for x in rs):
                return None         # task-local
            k, v = e.args
            return ('accumulate', mk('args', k, delta(v, e)))
        return None
    pick.bind = True
    return pick


accum.bind = True


def no_rng(t):
    """which generator a sample is drawn from is R01's business"""
    return rebuild(t, lambda x: mk('rng') if is_call(x, 'Random') else None)


def delta(v, e):
    if v.op in ('add', 'lin'):
        # new - old, where old is the cell read
        ts = [x for x in walk(v) if x.op == 'idx' and x.a[1] is e.args[0]]
        if v.op == 'add':
            for i in (0, 1):
                if v.a[i].op == 'idx':
                    return mk('incr', v.a[1 - i])
        if v.op == 'lin':
            cell = [t for t, k in v.a[1] if t.op == 'idx' and k == 1]
            if len(cell) >= 1:
                rest = tuple((t, k) for t, k in v.a[1] if t is not cell[0])
                return mk('incr', lin_mk(v.a[0], rest))
    return mk('set', v)


def no_cells(t):
    """the accumulated cells are the business of 'accumulate': keep only that a value is read from cell i of (name, k)"""
    def f(x):
        if x.op == 'coll' and x.a[0] == 'list' and any(c[2] for c in x.a[1]):
            keep = tuple(c for c in x.a[1] if c[0] is not None and not c[1] and not c[2])
            if keep and len(keep) < len(x.a[1]):
                return mk('cell')
        return None
    return no_rng(rebuild(t, f))


def returned(e):
    if e.kind == 'return' and len(e.stack) == 1:
        return ('result', e.value)


def rejects(e):
    if e.kind == 'raise' and not e.tries:
        return ('reject', const('rejected'))


def spawned(e):
    if e.kind == 'spawn':
        return ('task', mk('args', *[a for a in e.args if isinstance(a, T) and a.op != 'coll' and not is_call(a, 'Random')]))


def run_variant(c, name, pick, rulename, v, drop=None, key=None, rewrite=no_rng):
    label, args, guards, spec = v
    cache = c.__dict__.setdefault('pairs', {})
    if (name, label) not in cache:
        cache[(name, label)] = pair(c, name, args, guards, spec)
    p = cache[(name, label)]
    if p is None:
        return
    f, r, s = p
    where = '%s [%s]' % (f.qual, label)
    bound = getattr(pick, 'bind', False)
    a = effects(r, pick(r.it) if bound else pick, guards, drop, rewrite)
    b = effects(s, pick(s.it) if bound else pick, guards, drop, rewrite)
    if not b:
        c.undec(rulename, where, 'no reference effects')
        return
    check_effects(c, rulename, where, a, b, escapes=escapes(r), key=key)


def proc_defaults(c, name):
    defaults(c, c.prog.func(PROCS, name), c.prog.with_spec().modules['SPEC.processes'].funcs[name])


@rule('E04', 'Guarded-effect equivalence of predictive_evaluation with its reference: which records are predicted, what is '
      'appended to the paired prediction/truth lists, in which cases, and what each metric is given, per combination of '
      'options.')
def predictive(c):
    proc_defaults(c, 'predictive_evaluation')
    for v in variants('predictive_evaluation'):
        run_variant(c, 'predictive_evaluation', model_call('predict'), 'predictions', v)
        if v[0] != 'default metrics':
            run_variant(c, 'predictive_evaluation', metric_call, 'metric-arguments', v)
        run_variant(c, 'predictive_evaluation', rejects, 'rejected-arguments', v)
        run_variant(c, 'predictive_evaluation', returned, 'result', v)


def own_cell(c, name, label):
    """each accumulated cell belongs to the metric and cutoff of the enclosing loops"""
    p = c.pairs.get((name, label))
    if p is None:
        return
    f, r, _ = p
    pick = accum(r.it)
    for e in r.it.events:
        if (pick(e) or (0,))[0] != 'accumulate':
            continue
        fn = next((x for x in r.it.funcs.values() if x.qual == e.fn), None)
        if fn is None:
            continue
        for st, loops in statements(fn.node):
            if getattr(st, 'lineno', 0) != e.line or not isinstance(st, (ast.AugAssign, ast.Assign)):
                continue
            tgt = st.target if isinstance(st, ast.AugAssign) else st.targets[0]
            if not isinstance(tgt, ast.Subscript):
                continue
            used = reach(fn.node, {x.id for x in ast.walk(tgt) if isinstance(x, ast.Name)})
            for l in loops:
                names = {x.id for x in ast.walk(l.target) if isinstance(x, ast.Name)}
                if not names & used and '*' not in used:
                    c.bad('own-cell', e, 'the cell written does not depend on %s: values of different %s share a cell' % (sorted(names), ast.unparse(l.iter)))
                    return
            c.ok('own-cell', e)


def statements(node, loops=()):
    for ch in ast.iter_child_nodes(node):
        if isinstance(ch, ast.stmt):
            yield ch, loops
        yield from statements(ch, loops + (ch,) if isinstance(ch, ast.For) else loops)


def reach(fn, names):
    """the names plus everything their assignments in the function mention"""
    names = set(names)
    while True:
        new = set()
        for n in ast.walk(fn):
            src = tgts = None
            if isinstance(n, ast.Assign):
                tgts, src = n.targets, n.value
            elif isinstance(n, (ast.AugAssign, ast.NamedExpr, ast.AnnAssign)):
                tgts, src = [n.target], n.value
            elif isinstance(n, ast.withitem) and n.optional_vars is not None:
                tgts, src = [n.optional_vars], n.context_expr
            elif isinstance(n, (ast.For, ast.comprehension)):
                tgts, src = [n.target], n.iter
            if src is not None and any(isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id in names for t in tgts for x in ast.walk(t)):
                new |= {x.id for x in ast.walk(src) if isinstance(x, ast.Name)} | {x.id for t in tgts for x in ast.walk(t) if isinstance(x, ast.Name)}
        if new <= names:
            return names
        names |= new


def counted_late(c, name, label):
    """nothing is accumulated for a metric before its value is known: a metric that fails leaves no trace"""
    p = c.pairs.get((name, label))
    if p is None:
        return
    f, r, _ = p
    pick = accum(r.it)
    adds = [e for e in r.it.events if (pick(e) or (0,))[0] == 'accumulate' and pick(e)[1].a[1].op != 'set']
    calls_ = [e for e in r.it.events if metric_call(e)]
    bad = [(a, m) for a in adds for m in calls_ if a.order < m.order and a.loops == m.loops and a.tries == m.tries and feasible(tuple(a.guards) + tuple(m.guards))]
    if bad:
        c.bad('failed-metric-not-counted', bad[0][0], 'counted before the metric is computed (%s): a metric that fails is counted' % bad[0][1].where())
    elif adds and calls_:
        c.ok('failed-metric-not-counted', '%s [%s]' % (f.qual, label), '%d increments, %d metric calls' % (len(adds), len(calls_)))


def generated_ids(c, name, label):
    """generated negatives must be raw item ids, like everything else handed to the model"""
    f, r, _ = c.pairs[(name, label)]
    for e in r.evs('call'):
        if e.name == 'rank' and e.get('recv') is P('model') and len(e.args) > 1:
            t = Norm(r.it)(e.args[1])
            rnd = [x for x in walk(t) if is_call(x, 'randint', 'randrange') and
                   contains(x, lambda z: z.op == 'attr' and z.a[1] == 'n_items' and z.a[0] is P('model'))]
            conv = [x for x in walk(t) if is_call(x, 'iid_to_item')]
            if rnd and not conv:
                c.bad('generated-negative-ids', e, 'generated negatives are numbers below n_items (internal id range) mixed '
                      'with raw item ids', 'ranking-generated-negative-ids')
            else:
                c.ok('generated-negative-ids', '%s [%s]' % (f.qual, label))


@rule('E03', 'Guarded-effect equivalence of the per-user evaluation tasks with their reference: the list handed to the '
      'model, its sampling, the relevance inputs handed to each metric, and the conditions under which a user is skipped, '
      'per combination of options.')
def candidates(c):
    for name, m in (('ranking_evaluation', 'rank'), ('recommendation_evaluation', 'recommend')):
        for v in variants(name):
            run_variant(c, name, model_call(m), 'model-query', v)
            falsy_options(c, name, v[0])
            if v[0].endswith('generate'):
                generated_ids(c, name, v[0])
            if v[0] != 'default metrics':
                run_variant(c, name, metric_call, 'metric-arguments', v)


def falsy_options(c, name, label):
    """a threshold of 0 is a threshold"""
    p = c.pairs.get((name, label))
    if p is None:
        return
    f, r, s = p
    for o in ('interaction_threshold', 'ignore_low_predictions_threshold'):
        ts = [mk('truthy', P(o)), mk('truthy', mk('kwval', 'kwds', o))]

        def uses(e):
            xs = list(e.guards) + [x for x in e.get('args') or () if isinstance(x, T)] + list((e.get('kw') or {}).values() if isinstance(e.get('kw'), dict) else ())
            return any(isinstance(x, T) and contains(x, lambda z: z in ts) for x in xs)
        hit = next((e for e in r.evs('call', 'spawn') if uses(e)), None)
        if hit and not any(uses(e) for e in s.evs('call', 'spawn')):
            c.bad('falsy-option', hit, '%s = 0 is treated as if it was not given' % o)
        elif not hit:
            c.ok('falsy-option', '%s [%s] %s' % (f.qual, label, o))


@rule('E02', 'Guarded-effect equivalence of the aggregation in the evaluation processes with its reference: one sum and one '
      'count increment per successful metric call, results keyed name@k, one task per selected test user, rejected '
      'arguments.')
def aggregation(c):
    def cell(e):
        return e.kind == 'mutate' and e.how == 'setitem' and len(e.args) == 2 and delta(e.args[1], e).op == 'incr'
    splits.conc(splits.Only(c, 'join-before-read', 'shared-write-locked', 'one-lock-per-location'), splits.CONC[2:], cell)
    for name in ('ranking_evaluation', 'recommendation_evaluation'):
        proc_defaults(c, name)
        for v in variants(name):
            if v[0] != 'default metrics':
                run_variant(c, name, accum, 'accumulate', v)
                counted_late(c, name, v[0])
                own_cell(c, name, v[0])
            run_variant(c, name, rejects, 'rejected-arguments', v)
            run_variant(c, name, spawned, 'one-task-per-user', v)
            run_variant(c, name, returned, 'result', v, rewrite=no_cells)
