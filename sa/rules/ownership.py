"""D02: nothing a caller passes in is modified, except where documented."""
from ..pairs import *
from . import rule
from .dataset import K

INPLACE = {'assign_internal_ids', 'remove_internal_ids', 'apply', 'close'}
CTX = ('DRecPy.Recommender', 'DRecPy.Sampler')


def origin(t):
    """the parameter this value is (part of), or None"""
    while t.op in ('attr', 'idx'):
        if t.op == 'idx' and (not isinstance(t.a[1], T) or contains(t.a[1], lambda z: z.op == 'slice')):
            return None      # a slice of a list is a new list
        t = t.a[0]
    return t if t.op == 'param' and t.a[0] == 'in' else None


def public(c):
    for mod in c.prog.modules.values():
        for f in mod.funcs.values():
            if not f.name.startswith('_'):
                yield None, f
        for k in mod.classes.values():
            for m in k.methods.values():
                if (m.name in ('__init__', '__new__') or not m.name.startswith('_')) and not m.abstract:
                    yield k, m


def modifies(e):
    """(what is done, the modified value)"""
    if e.kind == 'mutate':
        return 'modified in place (%s)' % e.how, e.get('frozen') if e.get('frozen') is not None else e.recv
    if e.kind == 'setfield':
        return 'its attribute %s is set' % e.attr, e.base
    if e.kind == 'call' and e.name in INPLACE and e.get('recv') is not None:
        return 'changed by %s()' % e.name, e.recv


@rule('D02', 'Every in-place change in every public function, with everything it calls inlined, is traced to the object it changes; none may be an argument.')
def arguments(c):
    for k, f in public(c):
        ps = f.params()
        bound = k is not None and not f.static and not f.classm and ps and f.name != '__new__'
        own = ps[1:] if bound or f.name == '__new__' else ps
        names = own + [a.arg for a in f.node.args.kwonlyargs]
        if not names:
            continue
        it = Interp(c.prog, **K)
        a = {n: Q(n) for n in names}
        if bound:
            it.classes = dict(it.classes)
            it.classes['SELF'] = k
            a[ps[0]] = SELF
        r = it.run(f, cls=k if bound else None, args=a)
        c.functions |= it.analysed
        c.calls += len(it.events)
        report(c, f, r, names)


def report(c, f, r, names):
    seen = {}
    for e in r.it.events:
        m = modifies(e)
        o = m and isinstance(m[1], T) and origin(m[1])
        if o and o.a[1] in names and not allowed(f, o.a[1], e):
            seen.setdefault(o.a[1], (m[0], e))
    for n in names:
        where = '%s(%s)' % (f.qual, n)
        if n in seen:
            c.bad('argument-modified', where, 'the argument is %s at %s' % (seen[n][0], seen[n][1].where()))
        else:
            c.ok('argument-kept', where)


def allowed(f, name, e):
    """fit is documented to number the ids of the dataset it is given unless it is asked to copy it"""
    return f.name == 'fit' and name == 'interaction_dataset' and e.kind == 'call' and e.name == 'assign_internal_ids' \
        and any(contains(g, lambda z: z is Q('copy_dataset')) for g in e.guards)
