"""E01: every metric's value is its documented function of its arguments, and calls leave the arguments alone."""
from ..base import *
from ..equiv import outcomes, compare
from . import rule

METRICS = 'DRecPy.Evaluation.Metrics'
RANKING = ('DCG', 'NDCG', 'HitRatio', 'ReciprocalRank', 'Recall', 'Precision', 'FScore', 'AveragePrecision')
PRED = ('MSE', 'RMSE', 'MAE')


def run_pair(c, cls, scls, method, args, init=None, guards=(), **k):
    r = c.run_inst(cls, method, args=args, init=init, guards=guards, **k)
    sp = c.prog.with_spec()
    it = Interp(sp, **k)
    s = it.run_on_instance(scls, method, args, init, guards)
    return r, s


@rule('E01', 'Term-normalisation equivalence of every ranking and predictive metric with its reference formula, per case '
      'of (relevance given or not, k given or not, metric options), plus an effect analysis that no call modifies its '
      'arguments or the metric instance.')
def metrics(c):
    sp = c.prog.with_spec()
    for name in RANKING + PRED:
        cls = c.prog.cls(METRICS, name)
        scls = sp.modules['SPEC.metrics'].classes[name]
        m = c.prog.method(cls, '__call__')
        sm = scls.find('__call__')
        names = sm.params()[1:]
        missing = [n for n in names if n not in m.params()]
        if missing:
            c.bad('signature', m.qual, 'parameter %s is gone: evaluation passes metric arguments by name' % missing)
            continue
        args = {n: mk('param', 'metric', n) for n in names}
        ini = scls.find('__init__')
        opts = ini.params()[1:] if ini else []
        init = {n: mk('param', 'metric', n) for n in opts}
        mi = cls.find('__init__')
        if opts and (mi is None or any(o not in mi.params() for o in opts)):
            c.bad('signature', cls.qual, 'constructor option %s is gone' % opts)
            continue
        rel = names[-1]
        cs = [()]
        if name in RANKING:
            k = args['k']
            cs = [(isnone(args[rel]),), (neg(isnone(args[rel])), isnone(k)), (neg(isnone(args[rel])), neg(isnone(k)))]
        for gs in cs:
            r, s = run_pair(c, cls, scls, '__call__', args, init, gs)
            where = '%s [%s]' % (m.qual, show(conj(*gs)))
            falsy = [a for n, a in args.items() if name in RANKING and neg(isnone(a)) in gs and tests_truth(r, a)]
            if falsy:
                # None and 0 / empty are told apart by the reference: decide the remaining inputs first
                g2 = gs + tuple(mk('truthy', a) for a in falsy)
                r, s = run_pair(c, cls, scls, '__call__', args, init, g2)
                n = len(c.obs)
                compare(c, 'formula', where, outcomes(r), outcomes(s))
                if all(o['verdict'] == 'ok' for o in c.obs[n:]):
                    ids = [a for a in falsy if a is args.get('k') or a is args.get('relevant_recommendation')]
                    if ids:
                        c.bad('falsy-is-given', where, '%s = 0 is treated as if it was not given' % show(ids[0]))
                    else:
                        c.undec('falsy-is-given', where, show(falsy[0]))
                pure(c, r, args.values(), m)
                continue
            compare(c, 'formula', where, outcomes(r), outcomes(s))
            pure(c, r, args.values(), m)
        defaults(c, m, sm)
        if ini:
            defaults(c, mi, ini)


def tests_truth(r, a):
    t = mk('truthy', a)
    return any(contains(x, lambda z: z is t) for g, o, *_ in outcomes(r) for x in tuple(g) + ((o,) if isinstance(o, T) else ()) if isinstance(x, T))


def pure(c, r, params, m):
    ps = set(params)
    hit = False
    for e in r.evs('mutate', 'sort'):
        recv = e.get('recv')
        if recv is None:
            continue
        for x in roots(r.it, recv):
            if x in ps or x is r.selfref:
                hit = True
                c.bad('pure', e, 'modifies %s (%s)' % (show(x), e.get('how')))
    for e in r.evs('setfield'):
        if e.base is r.selfref:
            hit = True
            c.bad('pure', e, 'a metric call changes the metric instance (%s)' % e.attr)
    if not hit:
        c.ok('pure', m.qual)


def defaults(c, f, sf):
    """Defaults of the public options are the documented ones."""
    import ast
    def d(fn):
        a = fn.node.args
        ps = [x.arg for x in a.posonlyargs + a.args]
        out = dict(zip(ps[len(ps) - len(a.defaults):], a.defaults))
        out.update({x.arg: v for x, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None})
        return out
    di, ds = d(f), d(sf)
    for n, v in ds.items():
        if n in di and isinstance(di[n], ast.Constant) and isinstance(v, ast.Constant):
            same = di[n].value == v.value and type(di[n].value) is type(v.value)
            c.ob('default', '%s(%s)' % (f.qual, n), same, 'default %r, documented %r' % (di[n].value, v.value))
        elif n not in di:
            c.bad('default', '%s(%s)' % (f.qual, n), 'the documented default %s is gone' % ast.unparse(v))
