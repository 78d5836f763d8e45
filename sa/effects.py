"""Comparison of the observable effects of a construct with those of its reference definition.

Both are reduced by the abstract interpreter to a set of guarded effects (external calls, writes to shared state, yields,
returns ...).  Effects are matched after normalisation: same payload and loops, equivalent guards.  A leftover pair that
differs in a small, fully understood way is a violation; anything else stays undecided.
"""
from .terms import *
from .interp import entails
from .base import feasible, has_unk, is_call
from .equiv import faced, Norm, under, dnf, near, gnorm, describe, small, emptyish, murky, foreign, POSITIVE, sized, as_sized


class Eff:
    __slots__ = ('key', 'pay', 'guards', 'loops', 'ev')

    def __init__(self, key, pay, guards, loops, ev):
        self.key, self.pay, self.guards, self.loops, self.ev = key, pay, guards, loops, ev

    def __repr__(self):
        return 'Eff(%s %s | %s | %s)' % (self.key, show(self.pay), ' & '.join(map(show, self.guards)), ', '.join(map(show, self.loops)))


def label_refs(it, t, N):
    def f(x):
        if x.op == 'ref':
            info = it.objinfo.get(x.a[0])
            if info is None:
                return mk('obj', '?')
            if info[0] == 'inst':
                return mk('obj', 'inst', getattr(info[3], 'name', '') or '')
            return mk('obj', info[0], tuple(N(l) for l in info[1]))
        return None
    return rebuild(t, f)


def expand(pay, limit=24):
    """[(guards, payload without top-level alternatives)]"""
    out = [((), pay)]
    for _ in range(12):
        nxt, changed = [], False
        for gs, p in out:
            a = first_alt(p)
            if a is None:
                a = first_either(p)
                if a is None:
                    nxt.append((gs, p))
                    continue
                changed = True
                a, g = a
                for h in (g, neg(g)):
                    if feasible(gs + (h,)):
                        q = subst(p, {a: mk('coll', a.a[0], tuple((c[0], tuple(x for x in c[1] if x is not h), c[2]) for c in a.a[1] if neg(h) not in c[1]), *a.a[2:])})
                        nxt.append((gs + (h,), under(q, (h,))))
                continue
            changed = True
            for g, v in a.a[0]:
                g2 = gs + tuple(g)
                if not feasible(g2):
                    continue
                q = subst(p, {a: v})
                nxt.append((g2, under(q, g2)))
        out = nxt
        if not changed or len(out) > limit:
            break
    return out if len(out) <= limit else None


def first_either(t):
    """a list filled in one of two ways depending on a condition known before any of its loops"""
    for x in walk(t):
        if x.op == 'coll' and x.a[0] == 'list' and len(x.a[1]) == 2 and all(c[0] is not None for c in x.a[1]):
            a, b = x.a[1]
            for g in a[1]:
                if neg(g) in b[1] and not any(contains(g, lambda z, l=l: z is l) for l in a[2] + b[2]):
                    return x, g
    return None


def first_alt(t):
    for x in walk(t):
        if x.op == 'alt':
            # innermost alternatives first are not needed: any will do as long as its guards are closed terms
            return x
    return None


def raise_conds(r, N, assumed, rewrite=None):
    """triggering condition of every rejection, in order: [(order, guards)]"""
    out = []
    for e in r.evs('raise'):
        if not e.tries:
            gs, ls = N(e.guards), N(e.loops)
            if rewrite is not None:
                gs, ls = N(tuple(rewrite(g) for g in gs)), N(tuple(rewrite(l) for l in ls))
            plain = set(strip_guards(gs, assumed, [s for _, s in out]))
            out.append((e.order, plain))
            if ls:
                out.append((e.order, set(existential(tuple(plain), ls)[0])))
    return out


def existential(gs, ls):
    """conditions on one element of a loop -> 'some element satisfies them'"""
    inner = [g for g in gs if any(contains(g, lambda z, l=l: z is l) for l in ls)]
    used = tuple(l for l in ls if any(contains(g, lambda z: z is l) for g in inner))
    outer = tuple(g for g in gs if g not in inner)
    if not inner:
        return outer, ()
    return outer + (mk('truthy', mk('exists', conj(*inner), used)),), ()


def strip_guards(gs, assumed, rc):
    out = []
    for g in gs:
        if entails(assumed, g) is TRUE:
            continue
        ng = neg(g)
        parts = ng.a if ng.op == 'and' else (ng,)
        if any(all(p in s for p in parts) and all(x in parts or x in gs or entails(assumed, x) is TRUE for x in s) for s in rc):
            continue
        if g not in out:
            out.append(g)
    return tuple(out)


def effects(r, pick, assumed=(), drop=None, rewrite=None):
    """pick(event) -> None or (key, payload term)"""
    assumed = set(assumed)
    POSITIVE.clear()
    POSITIVE.update(g.a[1] for g in assumed if g.op == 'lt' and is_const(g.a[0], 0))
    norms = r.it.__dict__.setdefault('norms', {})
    N = norms.setdefault(frozenset(POSITIVE), Norm(r.it))
    rcs = raise_conds(r, N, assumed, rewrite)
    out = []
    cut = cuts(r.it, N)
    for e in r.it.events:
        p = pick(e)
        if p is None:
            continue
        rc = [g for o, g in rcs if o < e.order] if e.kind == 'raise' else [g for o, g in rcs]
        for key, pay in (p if isinstance(p, list) else [p]):
            pay = N(label_refs(r.it, pay, N))
            gs = N(tuple(label_refs(r.it, g, N) for g in e.guards))
            ls = N(tuple(label_refs(r.it, g, N) for g in e.loops))
            if rewrite is not None:
                pay, gs, ls = N(rewrite(pay)), N(tuple(rewrite(g) for g in gs)), N(tuple(rewrite(l) for l in ls))
            gs = strip_guards(gs, assumed, rc)
            if drop is not None:
                gs = tuple(g for g in gs if not drop(g))
            if key == 'reject' and ls:
                gs, ls = existential(gs, ls)
            pay = N(under(pay, set(gs) | assumed))
            broken = {N(l) for l in r.it.BROKEN}
            pay, gs = after(pay, ls, broken), tuple(after(g, ls, broken) for g in gs)
            if cut:
                pay, gs = until(pay, cut), gs + tuple(h for l in ls for h in ends(l, gs, cut))
            ex = expand(pay)
            if ex is None:
                ex = [((), pay)]
            for g2, q in ex:
                q = N(q) if g2 else q
                g3 = gnorm(strip_guards(gs + g2, assumed, rc))
                g4 = strip_guards(g3, assumed, rc)
                if len(g4) < len(g3):
                    g3 = gnorm(g4)
                if feasible(g3):
                    for l2, g4 in loop_alts(ls, g3):
                        out.append(Eff(key, q, g4, l2, e))
    return fuse(out)


def cuts(it, N):
    """loops left as soon as an element satisfies a condition on that element alone: {loop: [condition]}"""
    out = {}
    for l, cs in it.BRK.items():
        if l.op != 'loop' or not isinstance(l.a[0], T) or l.a[0].op == 'while' \
                or contains(l.a[0], lambda z: z.op == 'sorted' or is_call(z, 'nlargest', 'nsmallest', 'sorted') or z.op == 'call' and z.a[0].op == 'attr' and z.a[0].a[0].op == 'self'):
            continue
        n = N(l)
        for gs in cs:
            g = N(conj(*gs))
            if contains(g, lambda z: z.op == 'elem') and not any(z.op in ('mu', 'coll', 'pos', 'hole', 'rec', 'unk', 'any', 'alt', 'len', 'count') for z in faced(g)) \
                    and not contains(g, lambda z: z.op == 'coll' and grows(z, l, n)) and g.op not in ('and', 'or'):
                out.setdefault(n, []).append((g, g))
            elif g.op in ('le', 'lt') and g.a[1].op == 'pos' and g.a[1].a[0] in (l, n) and not contains(g.a[0], lambda z: z in (l, n) or z.op in ('mu', 'hole', 'rec', 'unk', 'any', 'alt')):
                continue            # a limit on the position: the guard of what follows says it all
            else:
                out.setdefault(n, []).append((g, mk('murk', g)))
    return out


def grows(t, *ls):
    """a collection the loop itself adds to"""
    return any(k[0] is None or any(l in ls for l in k[2]) for k in t.a[1])


def skipped(g, gs):
    return neg(g) in gs or g.op == 'and' and any(neg(x) in gs for x in g.a if x not in gs)


def ends(l, gs, cut):
    """an element which is skipped by ending the loop also takes away all later ones"""
    return tuple(mk('before', l, h) for g, h in cut.get(l, ()) if skipped(g, gs))


def until(t, cut):
    def f(x):
        if x.op == 'coll' and any(l in cut for k in x.a[1] for l in k[2]):
            cs = tuple((k[0], tuple(k[1]) + tuple(h for l in k[2] for h in ends(l, k[1], cut)), *k[2:]) for k in x.a[1])
            if cs != x.a[1]:
                return mk('coll', x.a[0], cs, *x.a[2:])
    return rebuild(t, f)


def after(t, ls, broken):
    """the number of iterations of a loop already completed is the length of what it ran over"""
    if not contains(t, lambda z: z.op == 'pos'):
        return t

    def f(x):
        if x.op == 'pos' and x.a[0].op == 'loop' and x.a[0] not in ls and x.a[0] not in broken and x.a[0].a[0] is not None and x.a[0].a[0].op != 'while':
            return length(x.a[0].a[0])
    return rebuild(t, f, stop=('sum', 'coll', 'rec', 'exists', 'count_add', 'fold'))


def fuse(effs):
    """consecutive writes to one stream are one write; filling a container just stored is part of the store"""
    out = []
    for e in effs:
        if e.key == 'write' and e.pay.op == 'call' and len(e.pay.a[1]) == 1 and not e.pay.a[2]:
            last = next((x.ev for x in reversed(out) if x.ev is not e.ev), None)
            i = next((i for i, x in enumerate(out) if x.ev is last and x.key == 'write' and x.guards == e.guards and x.loops == e.loops
                      and x.pay.op == 'call' and x.pay.a[0] is e.pay.a[0] and len(x.pay.a[1]) == 1 and not x.pay.a[2]), None)
            if i is not None:
                x = out.pop(i)
                out.append(Eff(e.key, mk('call', e.pay.a[0], (strcat(x.pay.a[1][0], e.pay.a[1][0]),), *e.pay.a[2:]), e.guards, e.loops, e.ev))
                continue
        p = out[-1] if out else None
        if p is not None and p.guards == e.guards and p.loops == e.loops and p.ev is not e.ev:
            if p.key == 'mutate setitem' and e.key in ('mutate add', 'mutate append') and p.pay.op == 'tuple' and e.pay.op == 'tuple' and \
                    len(p.pay.a) == 3 and len(e.pay.a) == 2 and e.pay.a[0] in (mk('idx', p.pay.a[0], p.pay.a[1]), p.pay.a[2]):
                v = p.pay.a[2]
                if v.op == 'coll' and v.a[0] in ('set', 'list'):
                    q = mk('tuple', p.pay.a[0], p.pay.a[1], mk('coll', v.a[0], tuple(v.a[1]) + ((e.pay.a[1], (), ()),), *v.a[2:]))
                    out[-1] = Eff(p.key, q, p.guards, p.loops, e.ev)
                    continue
        if p is not None and p.ev is not e.ev and p.key == e.key == 'mutate setitem' and p.loops == e.loops and p.pay.op == e.pay.op == 'tuple' \
                and len(p.pay.a) == len(e.pay.a) == 3 and p.pay.a[:2] == e.pay.a[:2] and set(p.guards) <= set(e.guards):
            here = mk('idx', *p.pay.a[:2])
            if contains(e.pay.a[2], lambda z: z is here):        # the stored value is replaced by one computed from it
                h = conj(*[g for g in e.guards if g not in p.guards])
                out.pop()
                if h is not TRUE:
                    out.append(Eff(p.key, p.pay, gnorm(p.guards + (neg(h),)), p.loops, p.ev))
                out.append(Eff(e.key, subst(e.pay, {here: p.pay.a[2]}), e.guards, e.loops, e.ev))
                continue
        out.append(e)
    return out


def loop_alts(ls, gs):
    t = mk('tuple', *ls)
    t = under(t, gs)
    ex = expand(t)
    if ex is None:
        return [(ls, gs)]
    return [(x.a, gnorm(gs + g)) for g, x in ex if feasible(gs + g)]


def D(gss):
    return disj(*[conj(*g) for g in gss])


def implies(a, b):
    """every case of a is a case of b (both boolean terms); None if too large"""
    da = dnf((a,)) if a is not TRUE else [()]
    nb = neg(b)
    if nb is FALSE:
        return True
    db = dnf((nb,)) if nb is not TRUE else [()]
    if da is None or db is None:
        return None
    for x in da:
        for y in db:
            if feasible(x + y):
                return False
    return True


from .equiv import RECY


def odd(t):
    return has_unk(t) or contains(t, lambda x: x.op in RECY)


def group(effs):
    g = {}
    for e in effs:
        g.setdefault((e.key, e.pay, e.loops), []).append(e)
    return g


def check_effects(c, rule, where, impl, spec, escapes=False, keys=None, complete=True, limit=5, key=None):
    """Match impl effects with spec effects. complete: spec lists all effects of the alphabet."""
    S = sized([x for e in impl + spec for x in e.guards + e.loops + (e.pay,)])
    if S:
        impl, spec = [[Eff(e.key, as_sized(e.pay, S), tuple(as_sized(g, S) for g in e.guards), tuple(as_sized(l, S) for l in e.loops), e.ev) for e in x]
                      for x in (impl, spec)]
    impl, spec = opaque(impl, spec)
    gi, gs = group(impl), group(spec)
    bad, und, n = [], [], 0
    for k in list(gi):
        if k in gs:
            a, b = gi.pop(k), gs.pop(k)
            n += 1
            A, B = D([x.guards for x in a]), D([x.guards for x in b])
            if A is B:
                continue
            i1, i2 = implies(A, B), implies(B, A)
            if i1 and i2:
                continue
            extra = atoms(A) - atoms(B)
            if 1 <= len(extra) <= 2 and not atoms(B) - atoms(A) and i1 and not has_unk(A) and all(outside(x, k[2], k[1]) for x in extra):
                bad.append((a[0].ev, '%s %s happens only if %s' % (k[0], show(k[1])[:200], show(conj(*extra)))))
                continue
            if odd(A) or odd(B):
                ps = near(A, B, limit) if not has_unk(A) else None
                if not ps and not has_unk(A) and i1 is not None and i2 is not None:
                    ps = atom_edit(A, B)
                if ps:
                    bad.append((a[0].ev, '%s %s condition: %s' % (k[0], show(k[1]), describe(ps))))
                else:
                    und.append((a[0].ev, '%s: condition %s, reference %s' % (k[0], show(A), show(B))))
                continue
            if i1 is None or i2 is None:
                und.append((a[0].ev, '%s: condition %s, reference %s' % (k[0], show(A), show(B))))
                continue
            at, bt = atoms(A), atoms(B)
            ex, ms = at - bt, bt - at
            if len(ex) + len(ms) > 4 or any(foreign(x) for x in ex) or ex and ms and not all(any(near(x, y, 3) for y in ms) for x in ex) or any(murky(x, y) for x in ex for y in ms) or (i1 and ex and any(emptyish(x) and not own(k[0], x) for x in ex)) and not ms:
                und.append((a[0].ev, '%s: condition %s, reference %s' % (k[0], show(A), show(B))))
                continue
            bad.append((a[0].ev, '%s %s happens when %s, expected when %s' % (k[0], show(k[1]), show(A), show(B))))
    # leftovers: near misses with the same key
    li, lsx = list(gi), list(gs)
    used = set()
    for k in lsx:
        best = None
        G = D([x.guards for x in gs[k]])
        twin = [q for q in li if q[0] == k[0] and q not in used and D([x.guards for x in gi[q]]) is G]
        for q in twin if len(twin) == 1 else li:
            if q[0] != k[0] or q in used:
                continue
            x = mk('tuple', q[1], mk('tuple', *q[2]))
            y = mk('tuple', k[1], mk('tuple', *k[2]))
            if odd_new(x, y):
                ps = None
            else:
                ps = near(align(x, q[2], k[2]), y, limit)
            sc = (ps is None, len(ps) if ps else 99)
            if best is None or sc < best[0]:
                best = (sc, q, ps)
        if best is None:
            if escapes or not complete:
                und.append((where, 'expected effect %s %s not found' % (k[0], show(k[1]))))
            else:
                same = [x for x in impl if x.key == k[0]]
                bad.append((where, 'expected effect is missing: %s %s when %s' % (k[0], show(k[1]), show(D([x.guards for x in gs[k]])))))
            continue
        used.add(best[1])
        ev = gi[best[1]][0].ev
        if best[2] is None:
            und.append((ev, '%s: %s, reference %s' % (k[0], show(best[1][1]), show(k[1]))))
        else:
            bad.append((ev, '%s: %s' % (k[0], describe(best[2]))))
    for q in li:
        if q in used:
            continue
        if not complete:
            continue
        ev = gi[q][0].ev
        if odd(q[1]) or foreign(q[1]) or any(odd(g) or foreign(g) for x in gi[q] for g in x.guards):
            und.append((ev, 'extra %s %s' % (q[0], show(q[1]))))
        elif und:
            und.append((ev, 'extra %s %s' % (q[0], show(q[1]))))
        else:
            bad.append((ev, 'unexpected effect %s %s when %s' % (q[0], show(q[1]), show(D([x.guards for x in gi[q]])))))
    if bad:
        for ev, d in bad[:3]:
            c.bad(rule, ev if not isinstance(ev, str) else ev, d, key)
    elif und:
        for ev, d in und[:3]:
            c.undec(rule, ev if not isinstance(ev, str) else ev, d)
    else:
        c.ok(rule, where, '%d effects' % n)
    return not bad and not und


def opaque(impl, spec):
    """collections both sides build in the same, not fully understood way are compared by identity"""
    def parts(es):
        return {z for e in es for x in e.guards + e.loops + (e.pay,) for z in walk(x) if z.op == 'coll' and has_unk(z)}
    both = parts(impl)
    if not both or both != parts(spec):
        return impl, spec
    m = {z: mk('shared', z.a[0], z.n) for z in both}
    return [[Eff(e.key, subst(e.pay, m), tuple(subst(g, m) for g in e.guards), tuple(subst(l, m) for l in e.loops), e.ev) for e in x]
            for x in (impl, spec)]


def own(key, x):
    """a field whose new value depends on its being unset"""
    x = x.a[0] if x.op == 'not' else x
    return x.op == 'isnone' and x.a[0].op == 'attr' and x.a[0].a[0].op == 'self' and key == 'final ' + x.a[0].a[1]


def align(x, la, lb):
    if len(la) == len(lb):
        m = {a: b for a, b in zip(la, lb) if a is not b}
        if m:
            # keep the loops themselves (second component) so that the changed source is reported once
            return mk('tuple', subst(x.a[0], m), x.a[1])
    return x


def odd_new(x, y):
    """impl contains an unknown the reference does not have"""
    bad = {z for z in walk(x) if z.op in ('unk', 'any', 'bottom', 'missing', 'name') or (z.op == 'coll' and any(k[0] is None for k in z.a[1]))}
    return any(z not in set(walk(y)) for z in bad)


def atoms(t):
    out = set()
    todo = [t]
    while todo:
        x = todo.pop()
        if x.op in ('and', 'or'):
            todo.extend(x.a)
        elif x.op == 'not':
            todo.append(x.a[0])
        else:
            out.add(x)
    return out


def outside(x, loops, pay):
    """a condition on the value that a caller's object (a model, a metric) returned, or on the truth of an option"""
    if x.op == 'not':
        x = x.a[0]
    if x.op not in ('truthy', 'nonempty', 'isnone'):
        return False
    v = x.a[0]
    if x.op == 'truthy' and v.op == 'param':
        return True
    if v.op != 'call' or any(contains(l, lambda z: z is v) for l in loops):
        return False
    f = v.a[0]
    return f.op == 'attr' and f.a[0].op == 'param' or f.op == 'elem' and f.a[0].op == 'param'


def atom_edit(A, B):
    """the two conditions differ in at most two atoms, each of them a small edit of an atom of the other side"""
    at, bt = atoms(A), atoms(B)
    ex, ms = at - bt, bt - at
    if not 1 <= len(ex) + len(ms) <= 2:
        return None
    out = []
    for x, other, flip in [(x, bt, False) for x in ex] + [(x, at, True) for x in ms]:
        best = [ps for ps in (near(y, x, 1) if flip else near(x, y, 1) for y in sorted(other, key=lambda z: z.n)) if ps]
        if not best:
            return None
        out += best[0]
    return out


def escapes(r):
    """calls through which code we do not follow could run repository functions"""
    for e in r.evs('call'):
        vals = list(e.args) + list(e.kw.values())
        if e.get('name') in ('sorted', 'sort', 'max', 'min', 'filter', 'map', 'next'):
            continue
        for v in vals:
            if isinstance(v, T) and contains(v, lambda x: x.op in ('func', 'closure', 'bound', 'partial')):
                return True
        if e.f is not None and e.f.op in ('unk', 'any'):
            return True
    return False
