"""Recommender properties (M..): models, neighbourhoods, early stopping compared with their reference definitions."""
import ast
import itertools
from ..pairs import *
from . import rule
from .metrics import defaults
from ..interp import entails

REC = 'DRecPy.Recommender'
BASE = 'DRecPy.Recommender.Baseline'

# steps a recommender may override or that are decided on their own
EXT = ('_predict', '_rank', '_recommend', '_pre_fit', '_sample_batch', '_predict_batch', '_compute_batch_loss',
       '_compute_reg_loss', '_info', '_warn', '_error', '_log_initial_info')
LOG = ('_info', '_warn', '_error')


class Model:
    """one recommender class and its reference"""

    def __init__(self, c, mod, cls, opaque=EXT, **k):
        self.c, self.opaque, self.k = c, opaque, k
        self.cls = c.prog.cls(mod, cls)
        self.scls = c.prog.with_spec().modules['SPEC.models'].classes[cls + ('Spec' if cls == 'LossTracker' else '')]
        self.own = {x.attr for k in self.scls.mro() for m in k.methods.values() for x in ast.walk(m.node)
                    if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name)}
        self.quals = {}
        for s, i in zip(self.scls.mro(), self.cls.mro()):
            self.quals[s.qual] = i.qual

    def pair(self, method, args=None, guards=(), opaque=()):
        keep = {o[1:] for o in opaque if o.startswith('!')} | {method}
        op = tuple(o for o in self.opaque + tuple(opaque) if not o.startswith('!') and o not in keep)
        for o in op:
            if o.startswith('_') and not o.startswith('__') and o not in LOG:
                f, sf = self.cls.find(o), self.scls.find(o)
                if sf is not None and (f is None or f.params() != sf.params()):
                    self.c.undec('internal-step', self.cls.qual, '%s is not a separate step with parameters %s' % (o, sf.params()))
                    return None
        return inst_pair(self.c, self.cls, self.scls, method, args, guards, op, **self.k)

    def check(self, rulename, p, pick, label='', guards=(), **k):
        k.setdefault('drop', lambda g: contains(g, lambda z: z.op == 'attr' and z.a[0] is SELF and z.a[1] not in self.own))
        k.setdefault('rewrite', self.canon)
        check(self.c, rulename, p, pick, label, guards, **k)

    def canon(self, t):
        if contains(t, lambda z: z.op == 'kwds' and '.' in z.a[0]):
            t = rebuild(t, lambda z: mk('kwds', z.a[0].split('.')[-1]) if z.op == 'kwds' else None)
        if not contains(t, lambda z: z.op in ('class', 'clsattr') and z.a[0] in self.quals):
            return t
        return rebuild(t, lambda z: mk(z.op, self.quals[z.a[0]], *z.a[1:]) if z.op in ('class', 'clsattr') and z.a[0] in self.quals else None)

    def defaults(self, *names):
        for n in names:
            f, sf = self.cls.find(n), self.scls.find(n)
            if f is not None and sf is not None:
                defaults(self.c, f, sf)


def models(c, names=None):
    for mod, n in ((REC + '.recommender_abc', 'RecommenderABC'), (BASE + '.base_knn', 'BaseKNN'), (BASE + '.user_knn', 'UserKNN'),
                   (BASE + '.item_knn', 'ItemKNN'), (REC + '.cdae', 'CDAE'), (REC + '.dmf', 'DMF'), (REC + '.caser', 'Caser')):
        if names is None or n in names:
            yield Model(c, mod, n)


@rule('M01', 'Guards, id translation, arguments and results of predict, recommend and rank are compared with the reference.')
def public(c):
    for b in models(c, ('RecommenderABC',)):
        for m, variants in (('predict', [{}, {'skip_errors': TRUE}, {'skip_errors': FALSE}]),
                            ('recommend', [{'n': NONE}, {}]),
                            ('rank', [{'skip_invalid_items': TRUE}, {'skip_invalid_items': FALSE}])):
            for a in variants:
                g = (neg(isnone(Q('n'))),) if m == 'recommend' and not a else ()
                lab = m + ''.join(', %s=%s' % (k, show(v)) for k, v in a.items())
                p = b.pair(m, a, g)
                b.check('result', p, returned, lab, g)
                if m == 'rank':
                    paired(c, p, lab)
                b.check('rejects', p, rejects, lab, g)
                b.check('internal-call', p, calls('_predict', '_recommend', '_rank'), lab, g)
            b.defaults(m)
        p = b.pair('_recommend')
        b.check('recommended-items', p, returned, 'threshold')


def paired(c, p, lab):
    """every score is reported with the item it was computed for"""
    if p is None:
        return
    ask = [Q(n) for n in p[0].params()[2:3]]
    N = Norm(p[1].it)
    bad = [x for e in p[1].it.events if e.kind == 'return' and len(e.stack) == 1 for x in walk(N(e.value))
           if x.op == 'elem' and x.a[0] in ask and x.a[1].op == 'loop' and isinstance(x.a[1].a[0], T) and contains(x.a[1].a[0], lambda z: is_call(z, '_rank'))]
    if bad:
        c.bad('score-and-item', '%s [%s]' % (p[0].qual, lab), 'scores are reported with items of the request taken in request order: %s' % show(bad[0]))
    else:
        c.ok('score-and-item', '%s [%s]' % (p[0].qual, lab))


@rule('M02', 'The candidate set, the scores and the ordering of every model\'s ranking are compared with the reference.')
def ranking(c):
    for b in models(c):
        if b.scls.find('_rank') is None or b.scls.name == 'BaseKNN':
            continue
        for v in (TRUE, FALSE):
            p = b.pair('_rank', {'novelty': v}, opaque=('_predict_default', '_predict_batch_aux'))
            b.check('ranked-items', p, returned, 'novelty' if v is TRUE else 'all')
            considered(c, p, 'novelty' if v is TRUE else 'all')


@rule('M03', 'Similarity entries kept, neighbour lists, prediction from neighbours and default predictions are compared with the reference.')
def neighbours(c):
    for b in models(c, ('UserKNN', 'ItemKNN')):
        for g, lab in (((isnone(mk('attr', SELF, 'shrinkage')),), 'no shrinkage'), ((neg(isnone(mk('attr', SELF, 'shrinkage'))),), 'shrinkage')):
            p = b.pair('_compute_similarities', {}, g)
            b.check('similarities', p, mutated, lab, g)
        p = b.pair('_compute_neighbours', opaque=('_get_sim',))
        b.check('neighbours', p, mutated)
        late(c, p)
        p = b.pair('_get_interaction')
        b.check('neighbour-interaction', p, returned)
        p = b.pair('_predict_default')
        b.check('default-prediction', p, returned)
        p = b.pair('_get_sim')
        b.check('similarity-lookup', p, returned)
        p = b.pair('_predict', opaque=('_get_interaction', '_predict_default'))
        b.check('prediction', p, returned)
        p = b.pair('_pre_fit', opaque=('_compute_similarities', '_compute_neighbours'))
        b.check('refit', p, calls('_compute_similarities', '_compute_neighbours'))
        b.check('refit', p, final('_similarities', '_neighbours'))


AGG = BASE + '.aggregation'
SIM = BASE + '.similarity'


@rule('M04', 'Similarity and aggregation functions are compared with their reference formulas.')
def formulas(c):
    sp = c.prog.with_spec()
    for mod, ref, names in ((AGG, 'SPEC.knn', ('mean', 'weighted_mean')),
                            (SIM, 'SPEC.knn', ('cosine_sim', 'adjusted_cosine_sim', 'cosine_sim_cf', 'jaccard_sim', 'pearson_corr', 'msd'))):
        for n in names:
            f, sf = c.prog.func(mod, n), sp.modules[ref].funcs[n]
            a = {x: Q(y) for x, y in zip(f.params(), sf.params())}
            r = c.run(f, args=a)
            s = Interp(sp).run(sf, args={x: Q(x) for x in sf.params()})
            check(c, 'formula', (f, r, s), returned, n)
            all_pairs(c, f)
    g = c.prog.modules[SIM].funcs.get('_subtract_row_mean')
    if g is not None:
        row_scaling(c, g)


def all_pairs(c, f):
    """a loop over the rows compared with a row is never left before its end"""
    def own(loop):
        todo, out = list(loop.body), []
        while todo:
            x = todo.pop()
            if isinstance(x, (ast.For, ast.While, ast.FunctionDef)):
                todo += x.orelse
                continue
            out.append(x)
            todo += [y for y in ast.iter_child_nodes(x)]
        return out
    for x in ast.walk(f.node):
        if isinstance(x, ast.For):
            body = own(x)
            b = next((y for y in body if isinstance(y, ast.Break)), None)
            if any(isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and y.func.attr in ('append', 'extend') for y in body):
                (c.bad if b is not None else c.ok)('every-pair', '%s:%d' % (f.qual, (b or x).lineno), 'the rows that follow are never compared' if b is not None else '')


def row_scaling(c, f):
    """a diagonal matrix scales the rows of what stands to its right"""
    def call(x, n):
        return isinstance(x, ast.Call) and (x.func.id if isinstance(x.func, ast.Name) else getattr(x.func, 'attr', '')) == n
    dg = {t.id for x in ast.walk(f.node) if isinstance(x, ast.Assign) and call(x.value, 'diags') for t in x.targets if isinstance(t, ast.Name)}
    isd = lambda x: isinstance(x, ast.Name) and x.id in dg or call(x, 'diags')
    turned = any(isinstance(x, ast.Attribute) and x.attr in ('T', 'transpose') for x in ast.walk(f.node))
    for x in ast.walk(f.node):
        if isinstance(x, ast.BinOp) and isinstance(x.op, (ast.Mult, ast.MatMult)) and (isd(x.left) or isd(x.right)):
            where = '%s:%d' % (f.qual, x.lineno)
            if isd(x.left):
                c.ok('row-scaling', where, '')
            elif turned or not isinstance(x.left, ast.Name):
                c.undec('row-scaling', where, ast.unparse(x))
            else:
                c.bad('row-scaling', where, 'columns are scaled by the means of the rows: %s' % ast.unparse(x))


OPTIM = ('_register_optimizer', 'apply_gradients')


@rule('M05', 'State written by fit, its order, the epoch loop and weight updates are compared with the reference.')
def fitting(c):
    for b in models(c, ('RecommenderABC',)):
        b.k['extends'] = ('_pre_fit',)
        steps = ('LossTracker', '_store_epoch_weights', '_revert_weights', '_update_weights', '_register_optimizer')
        cfg = ('epoch_callback_fn', 'early_stopping_rule', 'optimizer')
        freqs = {'epoch_callback_freq': Q('epoch_callback_freq'), 'early_stopping_freq': Q('early_stopping_freq')}
        todo = [({'copy_dataset': v}, dict({x: NONE for x in cfg}, **freqs)) for v in (TRUE, FALSE)]
        todo += [({'copy_dataset': FALSE}, dict({x: NONE for x in cfg}, **dict(freqs, optimizer=Q('optimizer'))))]
        for cb, es, fq, verbose in itertools.product((True, False), (True, False), (freqs, {x: default for x in freqs}), (True, False)):
            todo.append(({'copy_dataset': FALSE}, dict({'optimizer': NONE, 'epoch_callback_fn': Q('callback') if cb else NONE,
                                                        'early_stopping_rule': Q('rule') if es else NONE}, **fq), verbose))
        for a, sp, *vb in todo:
            g = tuple(neg(isnone(v)) for v in sp.values() if isinstance(v, T) and v.op == 'param')
            if vb:
                g += (truth(mk('attr', SELF, 'verbose')) if vb[0] else neg(truth(mk('attr', SELF, 'verbose'))),)
            lab = ', '.join('%s=%s' % (k, show(v) if isinstance(v, T) else 'default') for k, v in tuple(a.items()) + tuple(sp.items()) + tuple(('verbose', const(x)) for x in vb))
            b.k['spec'] = sp
            p = b.pair('fit', a, g, opaque=steps)
            b.check('fitted-state', p, b_final(b), lab, g)
            b.check('recorded', p, calls('add_epoch_loss'), lab, g)
            if not (sp['epoch_callback_fn'] is not NONE and sp['early_stopping_rule'] is not NONE and vb and not vb[0]):
                b.check('recorded', p, calls('add_epoch_callback_result'), lab, g)
            b.check('early-stopping', p, calls('compute', 'stop_training'), lab, g)
            b.check('gradient', p, calls('watch', 'gradient'), lab, g)
            b.check('steps', p, calls(*(x for x in tuple(y for y in EXT if y not in LOG + ('_log_initial_info',)) + steps if sp['early_stopping_rule'] is NONE or x != '_revert_weights')), lab, g)
            b.check('rejects', p, rejects, lab, g)
            b.check('dataset', p, calls('assign_internal_ids', 'copy'), lab, g)
            ordered(c, p, lab)
            if sp['early_stopping_rule'] is not NONE:
                reverted(c, p, lab)
                stops(c, p, lab)
        b.k.pop('spec')
        p = b.pair('_register_optimizer')
        b.check('optimizer', p, final('optimizer'))
        p = b.pair('_register_trainable')
        b.check('registration', p, mutated)
        b.check('registration', p, rejects)
        p = b.pair('_register_trainables', opaque=('_register_trainable',))
        b.check('registration', p, calls('_register_trainable'))
        p = b.pair('_update_weights')
        b.check('update', p, calls('apply_gradients'))
        p = b.pair('_store_epoch_weights')
        b.check('snapshot', p, mutated)
        live(c, p)
        p = b.pair('_revert_weights')
        b.check('revert', p, calls('set_weights', 'assign'))
        p = b.pair('_compute_reg_loss')
        b.check('regularisation', p, returned)
        for m in ('_standardize_value', '_rescale_value'):
            p = b.pair(m)
            b.check('scaling', p, returned, m)
        b.defaults('fit')
        for m in b.cls.methods.values():
            unbound(c, m)


def late(c, p):
    """entries are discarded before the best are taken, not afterwards"""
    if p is None:
        return
    f, r, s = p
    N = Norm(r.it)
    for e in r.it.events:
        if e.kind != 'mutate' or e.how != 'setitem' or len(e.args) != 2:
            continue
        v = N(e.args[1])
        if v.op != 'coll' or len(v.a[1]) != 1:
            continue
        x, gs, ls = v.a[1][0]
        if not ls or not is_call(ls[0].a[0], 'nlargest') or len(ls[0].a[0].a[1]) < 2:
            continue
        src = ls[0].a[0].a[1][1]
        if src.op != 'coll' or len(src.a[1]) != 1 or src.a[1][0][0] is None or src.a[1][0][0].op != 'tuple':
            continue
        el, known, _ = src.a[1][0]
        m = {}
        for g in gs:
            for z in walk(g):
                if z.op == 'idx' and z.a[0].op == 'elem' and ls[0] in z.a[0].a and isinstance(cval(z.a[1]), int) and cval(z.a[1]) < len(el.a):
                    m[z] = el.a[cval(z.a[1])]
        new = [g for g in gs if entails(tuple(known), N(subst(g, m))) is not TRUE]
        if m and new:
            c.bad('filtered-before-chosen', e, 'entries are discarded only after the best were chosen: %s' % ', '.join(map(show, new)))
        else:
            c.ok('filtered-before-chosen', e)


def considered(c, p, lab):
    """candidates come from the requested items, not from whatever was collected along the way"""
    if p is None or 'iids' not in p[0].params():
        return
    ask = Q('iids')

    def partial(src):
        """a collection whose entries all come from other loops"""
        while src.op == 'items' or src.op == 'call' and src.a[0].op == 'ext' and src.a[0].a[0] in ('builtins.list', 'builtins.sorted', 'builtins.enumerate') and src.a[1]:
            src = src.a[0] if src.op == 'items' else src.a[1][0]
        if src.op != 'coll' or not src.a[1]:
            return False
        return all(x[2] and not any(l.op == 'loop' and isinstance(l.a[0], T) and contains(l.a[0], lambda z: z is ask) for l in x[2])
                   and not contains(x[0], lambda z: z is ask) for x in src.a[1] if isinstance(x[0], T))
    for st, v in p[1].returns:
        v = p[1].it.freeze(st, v)
        for x in walk(v):
            src = x.a[0] if x.op == 'sorted' else (x.a[1][1] if len(x.a[1]) > 1 else x.a[1][0]) if is_call(x, 'nlargest', 'sorted') and x.a[1] else None
            if src is not None and src.op == 'slice' and src.a[0].op == 'coll' and any(k[2] for k in src.a[0].a[1]):
                c.bad('all-candidates-considered', '%s [%s]' % (p[0].qual, lab), 'candidates are cut off before they are ordered by score: %s' % show(x))
            if is_call(x, 'nlargest', 'sorted') and x.a[1]:
                col = x.a[1][1] if is_call(x, 'nlargest') and len(x.a[1]) > 1 else x.a[1][0]
                if col.op != 'coll' or not col.a[1]:
                    continue
                miss = [l for e in col.a[1] for l in e[2][:1] if l.op == 'loop' and isinstance(l.a[0], T) and partial(l.a[0])]
                if len(miss) == len(col.a[1]):
                    c.bad('all-candidates-considered', '%s [%s]' % (p[0].qual, lab), 'the ranking only runs over collected entries, not over the requested items: requested items without an entry are never considered')
                else:
                    c.ok('all-candidates-considered', '%s [%s]' % (p[0].qual, lab))


WEIGHTS = ('trainable_weights', 'trainable_variables', 'weights', 'variables', 'non_trainable_weights')


def live(c, p):
    """what is stored of an epoch must be a copy: the variables themselves change with the next update"""
    if p is None:
        return

    def ref(t):
        if not isinstance(t, T):
            return next((x for x in map(ref, t) if x), None) if isinstance(t, tuple) else None
        if t.op == 'attr':
            return t if t.a[1] in WEIGHTS else None
        if t.op == 'call' and not (t.a[0].op == 'ext' and t.a[0].a[0] in ('builtins.list', 'builtins.tuple', 'builtins.dict')):
            return None
        if t.op == 'coll':
            return next((x for x in (ref(k[0]) for k in t.a[1]) if x), None)
        return next((x for x in map(ref, t.a) if x), None)
    f, r, s = p
    for e in r.it.events:
        if e.kind == 'mutate' and e.how == 'append' and e.get('frozen') is not None and e.frozen.op == 'attr' and e.frozen.a[1] == 'epoch_weights':
            x = next((y for y in map(ref, e.args) if y), None)
            (c.bad if x else c.ok)('snapshot-is-copied', e, 'the stored weights include %s itself, which changes with every update' % show(x) if x else '')


def unbound(c, f):
    """`except E as n` removes n afterwards: n must not be a variable that is read later"""
    for t in ast.walk(f.node):
        if not isinstance(t, ast.Try):
            continue
        for h in t.handlers:
            if h.name is None:
                continue
            inside = {id(x) for x in ast.walk(h)}
            reads = [x for x in ast.walk(f.node) if isinstance(x, ast.Name) and x.id == h.name and isinstance(x.ctx, ast.Load) and id(x) not in inside]
            binds = [x for x in ast.walk(f.node) if isinstance(x, ast.Name) and x.id == h.name and isinstance(x.ctx, ast.Store) and id(x) not in inside]
            own = [x for g in ast.walk(f.node) if isinstance(g, ast.ExceptHandler) and g.name == h.name for x in ast.walk(g)]
            reads = [x for x in reads if not any(x is y for y in own)]
            leaves = bool(h.body) and isinstance(h.body[-1], (ast.Raise, ast.Return))
            later = [x for x in reads if x.lineno > h.lineno or in_loop(f.node, t, x)]
            if binds and later and not leaves and not any(x.lineno > h.lineno and x.lineno < later[0].lineno for x in binds):
                c.bad('kept-variable', '%s:%d in %s' % (f.file, h.lineno, f.qual), 'the handler unbinds %r, which is read again at line %d' % (h.name, later[0].lineno))
            else:
                c.ok('kept-variable', '%s:%d in %s' % (f.file, h.lineno, f.qual))


def in_loop(root, t, x):
    """x and t share a loop whose own target is not x"""
    for l in ast.walk(root):
        if isinstance(l, (ast.For, ast.While)):
            sub = {id(y) for y in ast.walk(l)}
            if id(t) in sub and id(x) in sub:
                tg = {y.id for y in ast.walk(l.target) if isinstance(y, ast.Name)} if isinstance(l, ast.For) else set()
                if x.id not in tg:
                    return True
    return False


ORDER = (('assign_internal_ids', ('min', 'max', 'count_unique', '_pre_fit')), ('_pre_fit', ('_store_epoch_weights', '_update_weights')),
         ('_update_weights', ('_store_epoch_weights', 'callback')), ('add_epoch_loss', ('compute',)),
         ('default optimizer', ('_pre_fit', 'given optimizer')), ('_pre_fit', ('given optimizer',)),
         ('add_epoch_callback_result', ('compute',)), ('compute', ('_revert_weights',)))


def ordered(c, p, lab):
    """within one iteration (or outside the epoch loop) steps that read what others write come after them"""
    if p is None:
        return
    f, r, s = p
    evs = {}
    for e in r.evs('call'):
        n = 'callback' if e.f is Q('callback') else e.name
        if n == '_register_optimizer':
            n = 'given optimizer' if any(contains(x, lambda z: z is Q('optimizer')) for x in e.args) else 'default optimizer'
        evs.setdefault(n, []).append(e)
    for a, zs in ORDER:
        for z in zs:
            ps = [(x, y) for x in evs.get(a, []) for y in evs.get(z, []) if (x.loops == y.loops[:len(x.loops)] or y.loops == x.loops[:len(y.loops)] and y.loops)
                  and feasible(tuple(x.guards) + tuple(y.guards)) and not (a == 'compute' and x.loops)]
            bad = [(x, y) for x, y in ps if x.order > y.order and not (x.loops != y.loops and not x.loops)]
            for x, y in bad[:1]:
                c.bad('step-order', y, '%s happens before %s' % (z, a))
            if ps and not bad:
                c.ok('step-order', ps[0][1], '%s before %s' % (a, z))


def reverted(c, p, lab):
    """weights are only reverted after the last epoch, to an epoch the early stopping rule returned, unless it is the last one"""
    if p is None:
        return
    f, r, s = p
    N = Norm(r.it)
    hit = r.evs('call')
    hit = [e for e in hit if e.name == '_revert_weights']
    if not hit:
        c.bad('reverted-weights', '%s [%s]' % (f.qual, lab), 'the weights of the best epoch are never restored')
    for e in hit:
        v = N(e.args[0] if e.args else next(iter(e.kw.values())))
        src = [x for x in walk(v) if is_call(x, 'compute') and call_recv(x) is Q('rule')]
        other = [x for x in walk(v) if x.op == 'elem' and not any(contains(y, lambda z: z is x) for y in src) and v is x]
        ends = [g for g in walk(mk('tuple', *N(e.guards))) if g.op == 'eq' and Q('epochs') in g.a]
        if e.loops:
            c.bad('reverted-weights', e, 'weights are reverted before training ended')
        elif not src or other:
            c.bad('reverted-weights', e, 'weights are reverted to %s, not to the epoch computed by the early stopping rule' % show(v))
        elif v.op in ('add', 'sub'):
            c.bad('reverted-weights', e, 'weights are reverted to %s, not to the epoch computed by the early stopping rule' % show(v))
        elif any(z.op == 'truthy' and z.a[0] in src for g in N(e.guards) for z in walk(g)):
            c.bad('reverted-weights', e, 'epoch 0 (the weights before training) is taken for no epoch at all')
        elif not ends:
            c.undec('reverted-weights', e, 'the last epoch is not recognised')
        else:
            c.ok('reverted-weights', e, lab)


def stops(c, p, lab):
    """a rule that asks to stop ends the epoch loop; a rule that cannot be computed does not end training"""
    if p is None:
        return
    f, r, s = p
    for e in r.evs('call'):
        if e.name == 'compute' and e.get('recv') is Q('rule'):
            if any(h[2] == 'body' for h in e.tries):
                c.ok('failed-rule', e, lab)
            else:
                c.bad('failed-rule', e, 'a rule without enough results aborts training instead of being reported')
        if e.name == 'stop_training' and e.loops:
            used = [b for b in r.it.events if b.kind in ('break', 'return') and any(contains(g, lambda z: z is e.result) for g in b.guards)]
            others = [b for b in r.it.events if b.kind in ('break', 'return', 'raise') and b.loops and b.order > e.order]
            looped = isinstance(e.loops[0].a[0], T) and is_call(e.loops[0].a[0], 'range') or e.loops[0].a[0].op != 'while'
            if used:
                c.ok('stop-request', e, lab)
            elif others or not looped:
                c.undec('stop-request', e, 'how the epoch loop ends is not recognised')
            else:
                c.bad('stop-request', e, 'training goes on although the early stopping rule asks to stop')


def default(d):
    return d


def b_final(b):
    return final('interaction_dataset', 'min_interaction', 'max_interaction', 'n_users', 'n_items', 'n_rows', 'fitted', 'trainable_weights',
                 'trainable_layers', 'trainable_models', 'epoch_weights', '_loss_tracker')


@rule('M06', 'The best epoch, rejected results, and the recorded losses and callback results are compared with the reference.')
def stopping(c):
    for mod, n in ((REC + '.EarlyStopping.early_stopping_rule_abc', 'EarlyStoppingRuleABC'), (REC + '.EarlyStopping.max_validation_value_rule', 'MaxValidationValueRule')):
        b = Model(c, mod, n, ())
        if n == 'EarlyStoppingRuleABC':
            p = b.pair('compute', opaque=('_compute_best_epoch',))
            b.check('best-epoch', p, returned)
            b.check('best-epoch', p, rejects)
        else:
            p = b.pair('_compute_best_epoch')
            b.check('best-epoch', p, returned, n)
            if p is not None:
                called = Q('called_epochs_validation_results')
                for e in p[1].it.events:
                    if returned(e):
                        v = e.value
                        if contains(v, lambda z: z is called):
                            c.ok('evaluated-epoch', p[0].qual, '')
                        elif contains(v, lambda z: z.op in ('unk', 'any')) or v is NONE:
                            c.undec('evaluated-epoch', e, show(v))
                        else:
                            c.bad('evaluated-epoch', e, 'the result is a position, not one of the evaluated epochs: %s' % show(v))
            p = b.pair('stop_training')
            b.check('best-epoch', p, returned, 'stop')
        p = b.pair('__init__', opaque=())
        b.check('required-metrics', p, rejects)
        b.check('required-metrics', p, final('required_validation_metrics', 'validation_metric'))
    b = Model(c, 'DRecPy.Evaluation.loss_tracker', 'LossTracker', ())
    for m in ('add_epoch_loss', 'reset_epoch_losses', 'add_epoch_callback_result'):
        p = b.pair(m)
        b.check('tracked', p, mutated, m)
        b.check('tracked', p, final('epoch_losses', 'curr_avg_epoch_loss', 'epoch_callback_results', 'called_epochs'), m)
    p = b.pair('get_epoch_avg_loss')
    b.check('tracked', p, returned)


@rule('M07', 'Training batches, losses and predictions of CDAE, DMF and Caser are compared with the reference.')
def deep(c):
    for b in models(c, ('CDAE', 'DMF', 'Caser')):
        for m in ('_sample_batch', '_predict_batch', '_compute_batch_loss', '_predict'):
            if b.scls.methods.get(m) is None:
                continue
            p = b.pair(m, opaque=('_predict_batch_aux', '_preprocess_input', '_reconstruct', '_rescale_value', '_standardize_value', '!_predict_batch'))
            b.check(m.strip('_'), p, returned, b.cls.name)
            b.check(m.strip('_'), p, rejects, b.cls.name)
        for m in ('_reconstruct', '_preprocess_input', '_predict_batch_aux'):
            if b.scls.methods.get(m) is None:
                continue
            p = b.pair(m)
            b.check(m.strip('_'), p, returned, b.cls.name)
        for m in ('_standardize_value', '_rescale_value'):
            p = b.pair(m)
            b.check('scaling', p, returned, '%s, %s' % (b.cls.name, m))
        if 'CDAE' == b.cls.name:
            p = b.pair('_compute_reg_loss')
            b.check('regularisation', p, returned)


@rule('M08', 'Options stored by each constructor, trained variables and samplers are compared with the reference.')
def construction(c):
    for b in models(c, ('RecommenderABC', 'BaseKNN', 'UserKNN', 'ItemKNN', 'CDAE', 'DMF', 'Caser')):
        f, sf = b.cls.find('__init__'), b.scls.find('__init__')
        p = b.pair('__init__', opaque=())
        b.check('options', p, final('k', 'm', 'type', 'shrinkage', 'use_averages', '_similarities', '_neighbours', 'sim_metric_fn', 'aggregation_fn',
                                    'hidden_factors', 'corruption_level', '_loss', 'user_factors', 'item_factors', 'use_nce', 'l2_norm_vectors',
                                    'verbose', 'seed', 'interaction_threshold', 'fitted', 'interaction_dataset', 'L', 'T', 'd', 'n_v', 'n_h', 'act_h', 'act_mlp', 'dropout_rate', 'sort_column'), b.cls.name)
        b.check('rejected-options', p, rejects, b.cls.name)
        b.defaults('__init__')
        if b.cls.name in ('CDAE', 'DMF', 'Caser'):
            p = b.pair('_pre_fit', opaque=('_register_trainable', 'PointSampler', 'ListSampler'))
            b.check('trained-variables', p, calls('_register_trainable', 'PointSampler', 'ListSampler', recv=False), b.cls.name)
            b.check('trained-variables', p, final('W', 'W_', 'V', 'b', 'b_', '_sampler', 'user_nn', 'item_nn', 'user_embeddings', 'item_embeddings', 'conv_v',
                                                  'convs_h', 'dropout', 'dense_0', 'dense_1_W', 'dense_1_b'), b.cls.name)
            b.check('layers', p, calls('Dense', 'Embedding', 'Conv1D', 'Dropout', 'Variable', recv=False), b.cls.name)
            if p is not None and any(e.name == 'add' for e in p[1].evs('call')):
                b.check('layers', p, calls('add', recv=False), b.cls.name)
