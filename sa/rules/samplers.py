"""N01 point sampling, N02 list sampling: effects compared with the reference samplers."""
import itertools
from ..pairs import *
from . import rule
from .metrics import defaults

SAMP = 'DRecPy.Sampler'
RNG = ('choice', 'choices', 'randint', 'sample', 'uniform', 'random', 'shuffle', 'randrange')
LIST = mk('ext', 'builtins.list')


def sampler(c, name):
    return c.prog.cls(SAMP, name), c.prog.with_spec().modules['SPEC.samplers'].classes[name]


def opt(name, none):
    """(value, guard) of an optional parameter"""
    return (NONE, ()) if none else (Q(name), (neg(isnone(Q(name))),))


@rule('N01', 'Guarded-effect equivalence of PointSampler with its reference: which dataset generators are created with which '
      'query, threshold and seed, the positive/negative choice per element, the number of elements and the content of each '
      'returned triple; rejected constructor arguments.')
def point(c):
    cls, scls = sampler(c, 'PointSampler')
    defaults(c, cls.find('__init__'), scls.find('__init__'))
    defaults(c, c.prog.method(cls, 'sample'), scls.find('sample'))
    ds = Q('interaction_dataset')
    base = (neg(isnone(ds)), neg(isnone(Q('neg_ratio'))))
    for none in (True, False):
        v, g = opt('interaction_threshold', none)
        g = base + g
        lab = 'no threshold' if none else 'threshold'
        for m in ('sample', 'sample_one', 'sample_negative', 'sample_positive'):
            p = method_pair(c, cls, scls, m, init={'interaction_threshold': v}, guards=g)
            check(c, 'sampled-values', p, returned, '%s, %s' % (m, lab), g)
            check(c, 'draws', p, calls('next', *RNG), '%s, %s' % (m, lab), g)
        p = ctor_pair(c, cls, scls, {'interaction_threshold': v}, g)
        check(c, 'generators', p, calls('null_interaction_pair_generator', 'select_random_generator'), lab, g)
    p = ctor_pair(c, cls, scls, {}, ())
    check(c, 'rejected-arguments', p, rejects)


def ctor_pair(c, cls, scls, init, guards):
    f, sf = cls.find('__init__'), scls.find('__init__')
    names = anchors(c, '__init__', f, sf)
    if names is None:
        return None
    a = {n: Q(n) for n in names}
    a.update(init)
    r = c.run(f, cls=cls, args=a, guards=guards)
    it = Interp(c.prog.with_spec())
    s = it.run(sf, cls=scls, args=a, guards=guards)
    return f, r, s


@rule('N02', 'Guarded-effect equivalence of ListSampler with its reference per combination of options (targets, maximum, '
      'threshold, sort column): group selection, minimum size, window placement, target/positive split, negative ids, '
      'retry limit, rejected constructor arguments.')
def lists(c):
    cls, scls = sampler(c, 'ListSampler')
    defaults(c, cls.find('__init__'), scls.find('__init__'))
    defaults(c, cls.find('sample_group_records'), scls.find('sample_group_records'))
    base = (neg(isnone(Q('interaction_dataset'))),)
    p = ctor_pair(c, cls, scls, {}, ())
    check(c, 'rejected-arguments', p, rejects)
    for bits in itertools.product((True, False), repeat=4):
        init, g = {}, base
        for n, b in zip(('n_targets', 'max_positive_records', 'interaction_threshold', 'sort_column'), bits):
            v, g1 = opt(n, b)
            init[n] = v
            g = g + g1
            if n == 'n_targets' and not b:
                g = g + (cmp_('<', ZERO, v),)       # the constructor rejects anything else (rejected-arguments)
        lab = ', '.join('%s %s' % (n, 'None' if init[n] is NONE else 'given') for n in init)
        p = method_pair(c, cls, scls, 'sample_group_records', init=init, guards=g)
        for rn, pk in (('sampled-groups', returned), ('draws', calls(*RNG)), ('retry-limit', rejects)):
            check(c, rn, p, pk, lab, g)
