"""Running a repository construct and its reference definition over the same symbolic inputs."""
from .base import *
from .effects import *
from .equiv import Norm, outcomes, compare


def Q(n, tag='in'):
    return mk('param', tag, n)


def anchors(c, rule, f, sf, skip=1):
    """documented parameters still exist (by name)"""
    names = sf.params()[skip:] + [a.arg for a in sf.node.args.kwonlyargs]
    have = f.params() + [a.arg for a in f.node.args.kwonlyargs]
    missing = [n for n in names if n not in have]
    if missing and not f.node.args.kwarg:
        c.bad('signature', f.qual, 'documented parameter %s is gone' % missing)
        return None
    return names


def method_pair(c, cls, scls, method, args=None, init=None, guards=(), **k):
    """(impl method, impl result, spec result) or None when the public method is gone / changed its parameters"""
    m, sm = c.prog.method(cls, method), scls.find(method)
    names = anchors(c, method, m, sm)
    if names is None:
        return None
    a = {n: Q(n) for n in names}
    a.update(args or {})
    ini, sini = cls.find('__init__'), scls.find('__init__')
    inames = anchors(c, '__init__', ini, sini) if sini is not None and ini is not None else []
    if inames is None:
        return None
    i = {n: Q(n) for n in inames}
    i.update(init or {})
    r = c.run_inst(cls, method, args=a, init=i, guards=guards, **k)
    it = Interp(c.prog.with_spec(), **k)
    s = it.run_on_instance(scls, method, a, i, guards)
    return m, r, s


def func_pair(c, f, sf, args=None, guards=(), **k):
    names = anchors(c, f.name, f, sf, 0)
    if names is None:
        return None
    a = {n: Q(n) for n in names}
    a.update(args or {})
    r = c.run(f, args=a, guards=guards, **k)
    it = Interp(c.prog.with_spec(), **k)
    s = it.run(sf, args=a, guards=guards)
    return f, r, s


# ---- event pickers
def returned(e):
    if e.kind == 'return' and len(e.stack) == 1:
        return ('result', e.value)


def yielded(e):
    if e.kind == 'yield' and len(e.stack) == 1:
        return ('yield', e.value)


def rejects(e):
    if e.kind == 'raise' and not e.tries:
        return ('reject', const('rejected'))


def calls(*names, recv=True, recvs=None):
    def pick(e):
        if e.kind == 'call' and e.name in names:
            if recvs is not None and not recvs(e.get('recv')):
                return None
            r = e.get('recv') if recv and e.get('recv') is not None else NONE
            return (e.name, mk('call', mk('attr', r, e.name), tuple(e.args), tuple(sorted(e.kw.items()))))
    return pick


def check(c, rulename, p, pick, label='', guards=(), **k):
    if p is None:
        return
    f, r, s = p
    where = '%s [%s]' % (f.qual, label) if label else f.qual
    drop, rewrite = k.pop('drop', None), k.pop('rewrite', None)
    bound = getattr(pick, 'bind', False)
    a = effects(r, pick(r.it) if bound else pick, guards, drop, rewrite)
    b = effects(s, pick(s.it) if bound else pick, guards, drop, rewrite)
    if not b and not a:
        c.ok(rulename, where, 'no such effect on either side')
        return
    check_effects(c, rulename, where, a, b, escapes=escapes(r), **k)


SELF = mk('self', 'SELF')


def inst_pair(c, cls, scls, method, args=None, guards=(), opaque=(), **k):
    """run a method of both classes on the same symbolic instance"""
    m, sm = cls.find(method), scls.find(method)
    if sm is None:
        return None
    if m is None:
        c.bad('signature', cls.qual, 'public method %s is gone' % method)
        return None
    names = anchors(c, method, m, sm)
    if names is None:
        return None
    a = {n: Q(n) for n in names}
    a.update(args or {})
    out = [m]
    for prog, kl, f in ((c.prog, cls, m), (c.prog.with_spec(), scls, sm)):
        it = Interp(prog, opaque=opaque, **k)
        it.classes = dict(it.classes)
        it.classes['SELF'] = kl
        b = dict(a)
        b[f.params()[0]] = SELF
        r = it.run(f, cls=kl, args=b, guards=guards)
        finals(r)
        if prog is c.prog:
            c.functions |= it.analysed
            c.calls += len(it.events)
        out.append(r)
    return tuple(out)


def rooted(t):
    """the value belongs to the instance or to its copy"""
    while t.op in ('attr', 'idx'):
        t = t.a[0]
    return t is SELF or (t.op == 'call' and t.a[0].op == 'attr' and t.a[0].a[1] == 'copy' and t.a[0].a[0] is SELF)


def finals(r):
    """field values at every normal exit, as events"""
    for st, res in r.returns:
        for (o, name), v in st.fields.items():
            if isinstance(o, T) and (rooted(o) or o is res):
                e = r.it.ev(st, r.act.func.node, 'final', act=r.act, obj=o, name=name, value=r.it.freeze(st, v))


def final(*fields):
    def pick(e):
        if e.kind == 'final' and e.name in fields:
            return ('final ' + e.name, mk('tuple', e.obj, e.value))
    return pick


def mutated(e):
    if e.kind == 'mutate' and e.get('frozen') is not None and e.frozen.op != 'coll' and contains(e.frozen, lambda z: z is SELF or z.op == 'clsattr'):
        return ('mutate ' + e.how, mk('tuple', e.frozen, *e.args))


def both(*picks):
    def pick(e):
        for p in picks:
            x = p(e)
            if x is not None:
                return x
    return pick
