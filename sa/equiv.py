"""Equivalence of a construct with its reference semantics by term normalisation.

A reference definition (sa/spec/*.py, never imported, only parsed) and the repository's definition are both reduced to
guarded value terms over the same symbolic inputs.  Equal terms: the obligation is discharged.  Terms that differ in a
small, fully understood way (other constant, operator, operand, missing/extra condition, missing clamp ...): violation.
Anything else (other idiom, unknown library call): undecided.
"""
from .terms import *
from .interp import entails
from .base import feasible, has_unk, is_call

OPAQUE_OK = ()


_mu = {}


def has_mu(x):
    r = _mu.get(x)
    if r is None:
        r = _mu[x] = x.op == 'mu' or _has(x.a)
    return r


def _has(a):
    for y in a:
        if isinstance(y, T):
            if has_mu(y):
                return True
        elif isinstance(y, tuple) and _has(y):
            return True
    return False


class Norm:
    def __init__(self, it):
        self.it = it
        self.memo = {}
        self.memos = {}
        self.stack = []
        self.ctl = {}
        self.insys = []

    def __call__(self, t):
        return self.go(t)

    def go(self, x):
        if isinstance(x, tuple):
            return tuple(self.go(y) for y in x)
        if not isinstance(x, T):
            return x
        if self.insys:
            memo = self.memos.setdefault((tuple(self.stack), tuple(self.insys)), {})
        else:
            memo = self.memo if not self.stack or not has_mu(x) else self.memos.setdefault(tuple(self.stack), {})
        r = memo.get(x)
        if r is not None:
            return r
        if x.op == 'mu':
            r = self.mu(x)
        elif x.op == 'while':
            r = self.system(x)
        else:
            na = tuple(self.go(y) for y in x.a)
            y = make(x.op, na) if na != x.a else x
            r = self.post(y)
        memo[x] = r
        return r

    def post(self, x):
        if x.op == 'call':
            if len(x.a) == 4:
                x = mk('call', *x.a[:3])
            if x.a[0].op == 'attr' and isinstance(x.a[0].a[1], str):
                r = self.canon_args(x.a[0].a[1], x.a[1], x.a[2])
                if r is not None:
                    return mk('call', x.a[0], *r)
            return x
        if x.op == 'isnone' and x.a[0].op == 'fold' and all(any(l.op == 'loop' and is_call(l.a[0], 'split') for l in c[2]) for c in x.a[0].a[1]):
            return FALSE        # a split text has at least one part
        if x.op == 'idx' and copied(x.a[1]) is not None:
            x = mk('idx', x.a[0], copied(x.a[1]))
        if x.op in ('join', 'elem') and copied(x.a[0 if x.op == 'elem' else 1]) is not None:
            x = mk('join', x.a[0], copied(x.a[1])) if x.op == 'join' else mk('row' if copied(x.a[0]).op == 'rows' else 'elem', copied(x.a[0]), x.a[1])
        if x.op in ('len', 'loop') and copied(x.a[0]) is not None:
            x = mk(x.op, copied(x.a[0]), *x.a[1:])
        if x.op == 'idx' and x.a[0].op == 'coll' and x.a[0].a[0] == 'dict' and x.a[1].op != 'const':
            r = lookup(x.a[0], x.a[1])
            if r is not None:
                return r
        if x.op == 'idx' and isinstance(cval(x.a[1]), int) and cval(x.a[1]) == -1 and x.a[0].op == 'coll' and x.a[0].a[0] == 'list':
            if once(x.a[0]):
                return mk('idx', x.a[0], ZERO)
        if x.op in ('kwval', 'haskw') and len(x.a) == 2:
            return mk(x.op, x.a[1])
        if x.op == 'len' and x.a[0].op == 'coll' and x.a[0].a[0] == 'list' and all(c[0] is not None for c in x.a[0].a[1]):
            return count(tuple((ONE, c[1], c[2]) for c in x.a[0].a[1]))
        if x.op == 'sum' and len(x.a) == 1:
            v = x.a[0]
            if v.op == 'coll' and v.a[0] != 'set' and all(c[0] is not None for c in v.a[1]):
                return mk_sum(ZERO, tuple(v.a[1]))
            return x
        if x.op == 'slice' and x.a[1] is NONE and x.a[2] is NONE and x.a[3] is NONE:
            return x.a[0]
        if x.op == 'sorted':
            k = x.a[1]
            if isinstance(k, T) and k.op == 'lin' and k.a[0] == 0 and len(k.a[1]) == 1 and k.a[1][0][1] == -1 and x.a[2] in (TRUE, FALSE):
                return mk('sorted', x.a[0], k.a[1][0][0], neg(x.a[2]))
        if x.op == 'pow' and is_const(x.a[1], 1):
            return x.a[0]
        if x.op == 'pow' and is_const(x.a[1], 2, 3):
            return self.post(mk('mul', *([x.a[0]] * x.a[1].a[0])))
        if x.op == 'mul' and not any(y.op == 'coll' or is_strish(y) for y in x.a):
            fs = []
            for y in x.a:
                fs += y.a if y.op == 'mul' else (y,)
            return mk('mul', *sorted(fs, key=lambda z: z.n))
        if x.op in ('lt', 'le') and (x.a[0].op == 'alt') != (x.a[1].op == 'alt'):
            i = 0 if x.a[0].op == 'alt' else 1
            bs = x.a[i].a[0]
            if len(bs) <= 3:
                sym = '<' if x.op == 'lt' else '<='
                return self.post(disj(*[conj(*g, self.post(cmp_(sym, v, x.a[1]) if i == 0 else cmp_(sym, x.a[0], v))) for g, v in bs]))
        if x.op == 'lt' and x.a[0].op == 'len' and x.a[1].op == 'count' and fewer(x.a[1], x.a[0].a[0]):
            return FALSE                # a selection is never larger than what it selects from
        if x.op == 'alt':
            bs = [(gnorm(g), v) for g, v in x.a[0]]
            if 2 <= len(bs) <= 6 and all(not feasible(a[0] + b[0]) for i, a in enumerate(bs) for b in bs[i + 1:]):
                bs.sort(key=lambda b: (tuple(g.n for g in b[0]), b[1].n))
            return alt(bs)
        if x.op == 'tuple' and len(x.a) > 1 and all(isinstance(y, T) and y.op == 'idx' and is_const(y.a[1], i) and y.a[0] is x.a[0].a[0] for i, y in enumerate(x.a)) \
                and x.a[0].a[0].op == 'elem':
            return x.a[0].a[0]          # the parts of an unpacked element put together again
        if x.op == 'coll':
            cs = expand_contribs(tuple(filtered(c) for c in x.a[1]))
            if len(cs) > 1 and all(c[0] is cs[0][0] and c[0] is not None and c[2] == cs[0][2] for c in cs):
                cs = [(cs[0][0], g, cs[0][2]) for g in complementary([flat(filtered(c)[1]) for c in cs])]
            cs = tuple((e, gnorm(g), l) for e, g, l in cs)
            if x.a[0] == 'list' and len(cs) == 1 and cs[0][0] is not None and cs[0][0].op == 'elem' and not cs[0][1] and cs[0][2] == (cs[0][0].a[1],) \
                    and cs[0][0].a[1].op == 'loop' and cs[0][0].a[1].a[0] is cs[0][0].a[0] and cs[0][0].a[0].op in ('sorted', 'reversed'):
                return cs[0][0].a[0]        # [x for x in sorted(..)]
            return mk('coll', x.a[0], order_contribs(x.a[0], cs))
        return x

    def canon_args(self, name, args, kw):
        """arguments of a call to a method of the repository by parameter name, without those equal to the default"""
        sig = signatures(self.it.prog).get(name)
        if sig is None:
            return None
        ps, ds = sig
        if len(args) > len(ps) or any(isinstance(a, T) and a.op in ('star', 'starred') for a in args) or any(k not in ps for k, _ in kw):
            return None
        d = dict(zip(ps, args))
        for k, v in kw:
            if k in d:
                return None
            d[k] = v
        d = {k: v for k, v in d.items() if not (k in ds and v is ds[k])}
        return (), tuple(sorted(d.items()))

    def control(self, l):
        """the variables a while loop is controlled by, in order of use"""
        if l not in self.ctl:
            self.ctl[l] = {}
            info = self.it.WHILE.get(l, ())
            vs = []

            def take(t):
                for z in walk(t):
                    if z.op == 'mu' and z.a[0] is l and z not in vs:
                        vs.append(z)
            if len(info) == 1:
                take(info[0][1])
                for m in vs:
                    for gs, v in self.it.MUG.get(m, ((), ()))[1]:
                        for g in gs + (v,):
                            take(g)
                if vs and len({m.a[2] for m in vs}) == 1 and all(m in self.it.MU and self.it.MU[m][0] is not None for m in vs):
                    self.ctl[l] = {m: (info[0][0], i) for i, m in enumerate(vs)}
        return self.ctl[l]

    def system(self, w):
        if not w.a or not isinstance(w.a[0], int):
            return mk('while', *self.go(w.a))
        l = mk('loop', w, 0)
        c = self.control(l)
        if not c or l in self.insys:
            return mk('while')
        self.insys.append(l)
        try:
            out = []
            for m in c:
                init, _ = self.it.MU[m]
                nx = {}
                for gs, v in self.it.MUG[m][1]:
                    g2 = self.go(gs)
                    for g3, x in alts(self.go(v)):
                        if feasible(g2 + g3):
                            nx.setdefault(x, []).append(gnorm(g2 + g3))
                out.append((self.go(init), tuple(sorted(((gs[0] if len(gs) == 1 else gnorm((disj(*[conj(*g) for g in gs]),)), x) for x, gs in nx.items()), key=lambda z: z[1].n))))
            return mk('while', *out)
        finally:
            self.insys.pop()

    def mu(self, m):
        if m.a[0].op == 'loop' and m.a[0].a[0].op == 'while' and not self.it.MU.get(m, (None,))[0] is None:
            c = self.control(m.a[0])
            if m in c:
                return mk('wv', *c[m])
        if m in self.stack:
            return mk('hole', len(self.stack) - 1 - self.stack.index(m))
        if m not in self.it.MU:
            return mk('unk', 'mu', m.n)
        init, _ = self.it.MU[m]
        ls, nx = self.it.MUG.get(m, ((), ()))
        if len(self.stack) > 6 or init is None:
            return mk('unk', 'mu', m.n)
        self.stack.append(m)
        try:
            hole = mk('hole', 0)
            i = self.go(init) if m not in set(walk(init)) else None
            vals = []
            for gs, v in nx:
                g2 = self.go(gs)
                for g3, w in alts(self.go(v)):
                    if feasible(g2 + g3):
                        vals.append((gnorm(g2 + g3), w))
            lsn = self.go(ls)
        finally:
            self.stack.pop()
        if i is None:
            return mk('unk', 'mu', m.n)
        if vals and len(lsn) == 1 and all(minus(w, hole) is ONE for _, w in vals):
            return add(i, mk('pos', lsn[0]))       # every iteration that goes on adds one
        cs = []
        for gs, w in vals:
            if w is hole:
                continue
            if w.op == 'sum' and len(w.a) == 2 and w.a[0] is hole:
                cs += [(e, gnorm(gs + g), lsn + l) for e, g, l in w.a[1]]
                continue
            if w.op == 'count_add' and w.a[0] is hole:
                cs += [(e, gnorm(gs + g), lsn + l) for e, g, l in w.a[1]]
                continue
            e = minus(w, hole)
            if e is None or contains(e, lambda z: z.op == 'hole'):
                cs = None
                break
            cs.append((e, gs, lsn))
        if cs is not None:
            if any(free_hole(g) for c in cs for g in c[1]):
                cs = None
        if cs is not None:
            return mk_sum(i, merge_contribs(cs))
        if i is NONE:
            f = fold_of(vals, lsn, hole)
            if f is not None:
                return f
        rec = {}
        for gs, w in vals:
            rec.setdefault(w, []).append(gs)
        nxt = tuple(sorted(((gs[0] if len(gs) == 1 else gnorm((disj(*[conj(*g) for g in gs]),)), w) for w, gs in rec.items()), key=lambda z: z[1].n))
        return mk('rec', i, nxt, lsn)


def copied(t):
    """the list a plain copy was made of"""
    if t.op == 'coll' and t.a[0] == 'list' and len(t.a[1]) == 1:
        e, g, ls = t.a[1][0]
        if e is not None and e.op == 'elem' and not g and len(ls) == 1 and e.a[1] is ls[0] and ls[0].op == 'loop' and ls[0].a[0] is e.a[0]:
            return e.a[0]
        if e is not None and e.op == 'row' and not g and len(ls) == 1 and e.a[1] is ls[0] and ls[0].op == 'loop' and ls[0].a[0] is e.a[0]:
            return e.a[0]


def filtered(c):
    """an element of S differs from k whenever k is not in S"""
    e, gs, ls = c
    if e is None or not any(contains(g, lambda z: z.op == 'in') for g in gs):
        return c
    out = []
    for g in gs:
        for y in (g.a if g.op == 'or' else (g,)):
            if y.op != 'not' or y.a[0].op != 'in':
                continue
            k, s = y.a[0].a
            for l in ls:
                if l.op == 'loop' and l.a[0] is s:
                    ne = neg(cmp_('==', mk('elem', s, l), k))
                    if g.op != 'or':
                        out.append(ne)
                    elif ne in g.a:
                        g = disj(*[z for z in g.a if z is not y])
        out.append(g)
    return (e, tuple(out), ls)


def lookup(d, k):
    """{x: f(x) for x in ...}[k] is f(k) (a missing key raises)"""
    out = None
    for e, gs, ls in d.a[1]:
        if e is None or e.op != 'kv' or e.a[0].op != 'elem' or len(ls) != 1:
            return None
        v = subst(e.a[1], {e.a[0]: k})
        if contains(v, lambda z: z is ls[0]) and not contains(k, lambda z: z is ls[0]) or out not in (None, v):
            return None
        out = v
    return out


def fold_of(vals, lsn, hole):
    """None -> first element, later combined by & (or |): the conjunction (disjunction) over all iterations"""
    first, later, op = {}, {}, None
    none = isnone(hole)
    for gs, w in vals:
        if w is hole:
            return None
        if none in gs:
            e, d = w, first
            gs = tuple(g for g in gs if g is not none)
        elif neg(none) in gs:
            if w.op not in ('band', 'bor') or len(w.a) != 2 or hole not in w.a or op not in (None, w.op):
                return None
            op = w.op
            e, d = w.a[1 - w.a.index(hole)], later
            gs = tuple(g for g in gs if g is not neg(none))
        else:
            return None
        if contains(e, lambda z: z is hole) or any(contains(g, lambda z: z is hole) for g in gs):
            return None
        for g2, x in alts(e):
            if feasible(gs + g2):
                g3 = gnorm(gs + g2)
                d.setdefault(under(x, set(g3)), []).append(conj(*g3))
    if op is None:
        return None
    fold = lambda d: {e: disj(*g) for e, g in d.items()}
    a, b = fold(first), fold(later)
    if a != b:
        return None
    return mk('fold', op, tuple(sorted(((e, (g,), lsn) for e, g in a.items()), key=lambda z: z[0].n)))


def signatures(prog):
    if getattr(prog, '_sigs', None) is None:
        import ast
        sigs = {}
        for m in prog.modules.values():
            if m.name.startswith('SPEC.'):
                continue
            for cl in m.classes.values():
                for f in cl.methods.values():
                    a = f.node.args
                    ps = [x.arg for x in a.posonlyargs + a.args]
                    if not (f.static):
                        ps = ps[1:]
                    if a.vararg or a.kwarg or a.kwonlyargs or f.name.startswith('__'):
                        ps = None
                    ds = {}
                    if ps is not None:
                        for n, v in zip(ps[len(ps) - len(a.defaults):], a.defaults):
                            if isinstance(v, ast.Constant):
                                ds[n] = const(v.value)
                    sigs.setdefault(f.name, []).append((ps, ds))
        prog._sigs = {}
        for n, v in sigs.items():
            if all(w[0] for w in v):
                big = max(v, key=lambda w: len(w[0]))
                if all(w[0] == big[0][:len(w[0])] and all(big[1].get(k) is x for k, x in w[1].items()) for w in v):
                    prog._sigs[n] = big
    return prog._sigs


def once(c):
    """a list that cannot have more than one element"""
    cs = c.a[1]
    return len(cs) == 1 and cs[0][0] is not None and all(l.op == 'loop' and l.a[0].op == 'range' and is_const(l.a[0].a[0], 0) and is_const(l.a[0].a[1], 1) for l in cs[0][2])


def free_hole(t, d=0):
    if isinstance(t, tuple):
        return any(free_hole(x, d) for x in t)
    if not isinstance(t, T):
        return False
    if t.op == 'hole':
        return t.a[0] >= d
    if t.op == 'rec':
        return free_hole(t.a[0], d) or free_hole(t.a[1:], d + 1)
    if not contains(t, lambda z: z.op == 'hole'):
        return False
    return any(free_hole(x, d) for x in t.a)


def shallow_alt(t, depth=0):
    """an alternative not nested inside another collection / recurrence"""
    if t.op == 'alt':
        return t
    if t.op in ('coll', 'rec', 'sum', 'count') or depth > 8:
        return None
    for k in kids(t):
        r = shallow_alt(k, depth + 1)
        if r is not None:
            return r
    return None


def expand_contribs(cs, limit=16):
    """element with alternatives -> one guarded contribution per alternative"""
    out = []
    for e, g, l in cs:
        work = [(e, g)]
        done = []
        while work and len(work) + len(done) <= limit:
            e1, g1 = work.pop(0)
            a = shallow_alt(e1) if e1 is not None else None
            if a is None:
                done.append((e1, g1))
                continue
            for g2, v in a.a[0]:
                g3 = g1 + tuple(x for x in g2 if x not in g1)
                if feasible(g3):
                    work.append((under(subst(e1, {a: v}), g2), g3))
        if work:
            return cs
        out += [(e1, g1, l) for e1, g1 in done]
    return tuple(out)


def order_contribs(kind, cs):
    """Canonical order: mutually exclusive neighbours (and everything in a set) commute; equal elements merge."""
    if len(cs) < 2 or any(c[0] is None for c in cs):
        return cs
    runs, cur = [], [cs[0]]
    for c in cs[1:]:
        if all((c[2] == d[2] and not feasible(c[1] + d[1])) or not feasible(closed(c) + closed(d)) for d in cur):
            cur.append(c)
        else:
            runs.append(cur)
            cur = [c]
    runs.append(cur)
    out = []
    for r in runs:
        out += merge_contribs(r) if len(r) > 1 else r
    if kind == 'set':
        out = sorted(set(out), key=lambda c: (c[0].n, tuple(g.n for g in c[1])))
    return tuple(out)


def closed(c):
    """guards of a contribution that do not depend on its own loops"""
    return tuple(g for g in c[1] if not any(contains(g, lambda z, l=l: z is l) for l in c[2]))


def merge_contribs(cs):
    """same contribution under complementary conditions -> without the condition"""
    by = {}
    for e, g, l in cs:
        by.setdefault((e, l), []).append(g)
    out = []
    for (e, l), gss in by.items():
        if len(gss) == 1:
            out.append((e, gss[0], l))
            continue
        gss = complementary(gss)
        d = disj(*[conj(*g) for g in gss])
        if d is TRUE:
            out.append((e, (), l))
        elif len(set(gss)) == len(gss) and all(not feasible(a + b) for i, a in enumerate(gss) for b in gss[i + 1:]):
            out.append((e, gnorm((d,)), l))
        else:
            out += [(e, g, l) for g in gss]
    return tuple(sorted(out, key=lambda c: (c[0].n, tuple(g.n for g in c[1]))))


def flat(gs):
    out = []
    for g in gs:
        for y in (g.a if g.op == 'and' else (g,)):
            if y not in out:
                out.append(y)
    return tuple(out)


def complementary(gss):
    """A & x or A & not x  ->  A, repeatedly"""
    if len(gss) > 40:
        return gss
    work = [frozenset(g) for g in gss]
    done = False
    changed = True
    while changed:
        changed = False
        for i, a in enumerate(work):
            for j in range(i + 1, len(work)):
                b = work[j]
                x, y = a - b, b - a
                if len(x) == 1 and len(y) == 1 and neg(next(iter(x))) is next(iter(y)):
                    work[j] = a & b
                    del work[i]
                    changed = done = True
                    break
            if changed:
                break
    if not done:
        return gss
    return [tuple(sorted(w, key=lambda z: z.n)) for w in work]


POSITIVE = set()        # terms assumed > 0 by the rule being decided


def linx(t):
    if t.op == 'add':
        return lin_add(linx(t.a[0]), linx(t.a[1]))
    return lin(t)


def stronger(y, x):
    """comparison y implies comparison x, by linear arithmetic with the assumed-positive terms"""
    if y.op not in ('le', 'lt'):
        return False
    c, ts = lin_sub(linx(x.a[1]), linx(x.a[0]))       # x: 0 <= c + ts
    d, us = lin_sub(linx(y.a[1]), linx(y.a[0]))
    e, ws = lin_sub((c, ts), (d, us))               # slack of x beyond y
    if not all(k > 0 and t in POSITIVE for t, k in ws):
        return False
    e += sum(k for t, k in ws)
    return e > 0 or (e == 0 and (x.op == 'le' or y.op == 'lt'))


def fewer(n, t):
    cs = n.a[0]
    return isinstance(cs, tuple) and len(cs) == 1 and len(cs[0]) == 3 and len(cs[0][2]) == 1 and cs[0][2][0].op == 'loop' and cs[0][2][0].a[0] is t


def gnorm(gs):
    c = conj(*gs)
    if c is TRUE:
        return ()
    if c.op == 'and':
        xs = c.a
    else:
        xs = (c,)
    if any(x.op == 'or' for x in xs) and len(xs) > 1:
        ys = []
        for x in xs:
            if x.op == 'or':
                rest = {z for z in xs if z is not x and z.op != 'or'}
                keep = [y for y in x.a if entails(rest, y) is not FALSE] if rest else x.a
                x = disj(*keep) if len(keep) < len(x.a) else x
            ys.append(x)
        c = conj(*ys)
        if c is TRUE or c is FALSE:
            return () if c is TRUE else (FALSE,)
        xs = c.a if c.op == 'and' else (c,)
    # drop facts implied by the others
    out = []
    xs = sorted(xs, key=lambda z: z.n)
    for i, x in enumerate(xs):
        rest = set(out) | set(xs[i + 1:])
        if x.op in ('not', 'le', 'lt', 'or') and rest and entails(rest, x) is TRUE:
            continue
        if POSITIVE and x.op in ('le', 'lt') and any(stronger(y, x) for y in rest):
            continue
        if POSITIVE and x.op == 'or':
            ys = [y for y in x.a if not (y.op in ('le', 'lt') and any(z is not y and z.op in ('le', 'lt') and stronger(y, z) and not stronger(z, y) for z in x.a))]
            if len(ys) < len(x.a):
                x = disj(*ys)
        out.append(x)
    return tuple(out)


def minus(w, h):
    if w.op == 'lin':
        d = dict(w.a[1])
        if d.get(h) == 1:
            return lin_mk(w.a[0], tuple((t, k) for t, k in w.a[1] if t is not h))
        return None
    if w.op == 'add':
        if w.a[0] is h:
            return w.a[1]
        if w.a[1] is h:
            return w.a[0]
    return None


def mk_sum(init, cs):
    if any(c[0] is None for c in cs):
        return mk('sum', init, cs)
    cs = merge_contribs(expand_contribs(cs))
    cs = tuple(sorted(((e, gnorm(g), l) for e, g, l in cs), key=lambda c: (c[0].n, tuple(g.n for g in c[1]))))
    if not cs:
        return init
    if all(c[0] is ONE for c in cs):
        r = count(cs)
        return r if init is ZERO else (mk('count_add', init, cs) if init.op == 'hole' else add(init, r))
    if len(cs) == 1 and not cs[0][1] and len(cs[0][2]) == 1 and cs[0][0].op == 'elem' and cs[0][0].a[1] is cs[0][2][0] and cs[0][2][0].op == 'loop' and \
            cs[0][2][0].a[0] is cs[0][0].a[0] and numeric(init):
        return add(mk('sum', cs[0][0].a[0]), init)       # sum(xs)
    if init is not ZERO and init.op != 'hole' and numeric(init):
        return add(mk('sum', ZERO, cs), init)
    return mk('sum', init, cs)


def count(cs):
    return mk('count', tuple(sorted(((ONE, gnorm(g), l) for _, g, l in cs), key=lambda c: tuple(g.n for g in c[1]))))


def under(t, gs):
    """Simplify t knowing gs."""
    s = set(gs)
    if not s:
        return t
    nones = {g.a[0] for g in s if g.op == 'isnone'}

    def f(x):
        if x.op == 'alt':
            out = []
            for g, v in x.a[0]:
                g2, dead = [], False
                for y in g:
                    e = entails(s, y)
                    if e is FALSE:
                        dead = True
                        break
                    if e is not TRUE:
                        g2.append(y)
                if not dead:
                    out.append((tuple(g2), v))
            if not out:
                return None
            for g, v in out:
                if not g:
                    return v
            return alt(out)
        if x.op in BOOL_OPS:
            e = entails(s, x)
            if e.op == 'const':
                return e
        elif x.op != 'const' and x in nones:
            return NONE
        if x.op == 'slice' and x.a[1] is NONE and x.a[3] is NONE and x.a[2] is not NONE:
            if entails(s, cmp_('<=', length(x.a[0]), x.a[2])) is TRUE:
                return x.a[0]
        if x.op in ('minof', 'maxof') and len(x.a) == 2:
            a, b = x.a
            le = entails(s, cmp_('<=', a, b))
            if le is TRUE:
                return a if x.op == 'minof' else b
            if le is FALSE or entails(s, cmp_('<=', b, a)) is TRUE:
                return b if x.op == 'minof' else a
        if x.op == 'coll':
            cs = []
            for e, g, l in x.a[1]:
                rs = [entails(s, y) for y in g]
                if any(r is FALSE for r in rs):
                    continue
                cs.append((e, tuple(y for y, r in zip(g, rs) if r is not TRUE), l))
            return mk('coll', x.a[0], tuple(cs))
        if x.op == 'len' and entails(s, nonempty(x.a[0])) is FALSE:
            return ZERO
        return None
    return rebuild(t, f, stop='rec')      # the conditions inside are about earlier iterations


def dnf(gs, limit=64):
    out = [()]
    for g in gs:
        opts = []
        if g.op == 'or':
            for x in g.a:
                opts += dnf((x,), limit) or [(x,)]
        elif g.op == 'and':
            opts = dnf(g.a, limit) or [(g,)]
        else:
            opts = [(g,)]
        out = [a + b for a in out for b in opts if feasible(a + b)]
        if len(out) > limit:
            return None
    return out


# ---------------------------------------------------------------------------------------------------------- difference
COMM = {'and', 'or', 'eq', 'mul', 'minof', 'maxof'}
LEAF = {'const', 'param', 'ext', 'self', 'glob', 'kwval', 'arg', 'hole', 'pos', 'class', 'func', 'kwds', 'haskw', 'field', 'attr'}
CMPS = {'lt', 'le', 'eq', 'in'}


def leafy(t):
    return not isinstance(t, T) or t.op in LEAF or (t.depth <= 3 and t.op in ('idx', 'fld', 'attr', 'elem', 'isnone', 'truthy', 'len', 'nonempty'))


def size(t):
    return sum(1 for _ in walk(t)) if isinstance(t, T) else 1


PAIRS = {}


def pairs(x, y, out):
    """Minimal mismatching sub-term pairs."""
    if x is y or x == y:
        return
    if isinstance(x, T) and isinstance(y, T):
        r = PAIRS.get((x, y))
        if r is None:
            r = []
            pairs_(x, y, r)
            if len(PAIRS) > 200000:
                PAIRS.clear()
            PAIRS[x, y] = r
        out.extend(r)
    else:
        pairs_(x, y, out)


def pairs_(x, y, out):
    if isinstance(x, tuple) and isinstance(y, tuple):
        if is_kw(x) and is_kw(y):
            dx, dy = dict(x), dict(y)
            for k in dx:
                if k not in dy:
                    out.append(('kw', (k, dx[k]), None))
                else:
                    pairs(dx[k], dy[k], out)
            for k in dy:
                if k not in dx:
                    out.append(('kw', None, (k, dy[k])))
        elif len(x) == len(y):
            if len(x) > 1 and permuted(x, y):
                out.append(('order', x, y))
                return
            for a, b in zip(x, y):
                pairs(a, b, out)
        elif x and y and (x[:len(y)] == y or y[:len(x)] == x):
            out.append(('arity', x[len(y):], y[len(x):]))
        else:
            out.append((x, y))
        return
    if not isinstance(x, T) or not isinstance(y, T):
        out.append((x, y))
        return
    for a, b in ((x, y), (y, x)):
        if a.op == 'call' and b in a.a[1]:
            out.append((x, y))      # wrapped / unwrapped
            return
    if {x.op, y.op} == {'sum', 'count'}:
        x, y = (mk('sum', ZERO, z.a[0]) if z.op == 'count' and len(z.a) == 1 else z for z in (x, y))
        if x.op == y.op and len(x.a) == len(y.a) == 2:
            pairs(x.a[0], y.a[0], out)
            return contribs_diff(x.a[1], y.a[1], out)
    if x.op == y.op:
        if x.op == 'sqltext':
            return sqldiff(x.a[0], y.a[0], out)
        if x.op == 'rowsq':
            pairs(x.a[0], y.a[0], out)
            if x.a[1:] != y.a[1:]:
                qs = []
                pairs(x.a[1], y.a[1], qs)
                if all(len(p) == 2 and all(isinstance(z, T) or isinstance(z, str) for z in p) for p in qs):
                    for a, b in qs:
                        sa_, sb = (cval(z) if isinstance(z, T) else z for z in (a, b))
                        if isinstance(sa_, str) and isinstance(sb, str):
                            if ''.join(sa_.split()) != ''.join(sb.split()):
                                out.append((const(sa_), const(sb)))
                        elif not isinstance(a, str) and not isinstance(b, str) and (source(a) or a.op == 'elem') and (source(b) or b.op == 'elem'):
                            out.append((a, b))
                        else:
                            out.append(('unknown', x.a[1:], y.a[1:]))
                else:
                    out.append(('unknown', x.a[1:], y.a[1:]))
            return
        if x.op == 'idx' and x.a[0] is y.a[0] and contains(x.a[0], lambda z: z.op == 'while') and \
                all(isinstance(cval(z.a[1]), int) for z in (x, y)) and (cval(x.a[1]) < 0) != (cval(y.a[1]) < 0):
            out.append(('unknown', (x.a[1],), (y.a[1],)))
            return
        if x.op in COMM:
            return multiset(x.a, y.a, out, x, y)
        if x.op == 'lin':
            dx, dy = dict(x.a[1]), dict(y.a[1])
            if x.a[0] != y.a[0]:
                out.append((const(x.a[0]), const(y.a[0])))
            ox = [(t, k) for t, k in x.a[1] if dy.get(t) != k]
            oy = [(t, k) for t, k in y.a[1] if dx.get(t) != k]
            if len(ox) == len(oy):
                for (a, i), (b, j) in zip(ox, oy):
                    if i != j:
                        out.append((const(i), const(j)))
                    pairs(a, b, out)
            elif ox or oy:
                out.append((x, y))
            return
        if x.op in ('coll', 'sum', 'count'):
            if x.op == 'coll' and x.a[0] != y.a[0]:
                out.append((x, y))
                return
            if x.op == 'sum':
                if len(x.a) != len(y.a):
                    out.append((x, y))
                    return
                if len(x.a) == 1:
                    return pairs(x.a[0], y.a[0], out)
                pairs(x.a[0], y.a[0], out)
            if x.op == 'coll' and x.a[0] == 'list' and len(x.a[1]) == len(y.a[1]) > 1 and set(x.a[1]) == set(y.a[1]):
                out.append((('listorder' if swapped(x.a[1], y.a[1]) else 'unknown'), x, y))
                return
            return contribs_diff(x.a[-1], y.a[-1], out)
        if x.op == 'alt' and len(x.a[0]) == len(y.a[0]):
            for (g1, v1), (g2, v2) in zip(x.a[0], y.a[0]):
                gdiff(g1, g2, out)
                pairs(v1, v2, out)
            return
        if x.op == 'rec':
            pairs(x.a[0], y.a[0], out)
            if x.a[2] != y.a[2]:
                pairs(x.a[2], y.a[2], out)
            return steps_diff(x.a[1], y.a[1], out)
        if x.op == 'while' and len(x.a) == len(y.a):
            for i, ((p, n1), (q, n2)) in enumerate(zip(x.a, y.a)):
                pairs(p, q, out)
                if n1 != n2:
                    steps_diff([g for g in n1 if g[1].op != 'wv' or g[1].a[1] != i], [g for g in n2 if g[1].op != 'wv' or g[1].a[1] != i], out)
            return
        if x.op == 'rows' and x.a[0] is y.a[0]:
            cx = [c for c in x.a[1] if c not in y.a[1]]
            cy = [c for c in y.a[1] if c not in x.a[1]]
            if len(cx) == len(cy):
                for a, b in zip(cx, cy):
                    if a[0] != b[0]:
                        out.append(('op', a[0], b[0]))
                    if a[1] != b[1]:
                        out.append(('col', a[1], b[1]))
                    pairs(a[2], b[2], out)
            else:
                out.append(('conds', tuple(cx), tuple(cy)))
            return
        if len(x.a) == len(y.a) and x.op not in LEAF:
            sub = []
            for a, b in zip(x.a, y.a):
                pairs(a, b, sub)
            if x.op not in ('tuple', 'coll') and not (x.op == 'attr' or x.op == 'call' and x.a[0].op == 'attr'):
                sub = [('unknown',) + p[1:] if p[0] == 'listorder' else p for p in sub]     # the order may not matter here
            out.extend(sub)
            return
    out.append((x, y))


def swapped(cs, ds):
    """two entries which can both be present come in the other order"""
    at = {c: i for i, c in enumerate(ds)}
    return any(at[a] > at[b] and feasible(closed(a) + closed(b)) and not (a[2] == b[2] and not feasible(a[1] + b[1]))
               and not any(recy(z) for z in (a[0], b[0]) + a[1] + b[1]) for i, a in enumerate(cs) for b in cs[i + 1:])


def steps_diff(nx, ny, out):
    dx = {v: g for g, v in nx if v.op != 'hole'}
    dy = {v: g for g, v in ny if v.op != 'hole'}
    ox, oy = [v for v in dx if v not in dy], [v for v in dy if v not in dx]
    for v in dx:
        if v in dy:
            gdiff(dx[v], dy[v], out)
    if len(ox) == len(oy):
        for v, w in zip(ox, oy):
            pairs(v, w, out)
            gdiff(dx[v], dy[w], out)
    else:
        for v in ox:
            out.append(('contrib', (v, dx[v], ()), None))
        for v in oy:
            out.append(('contrib', None, (v, dy[v], ())))


def sqldiff(a, b, out):
    """edits turning the reference statement b into a"""
    import difflib
    ops = [o for o in difflib.SequenceMatcher(None, a, b, autojunk=False).get_opcodes() if o[0] != 'equal']
    for tag, i, j, k, l in ops:
        x, y = a[i:j], b[k:l]
        if len(x) == len(y) <= 2:
            for p, q in zip(x, y):
                if p == q:
                    continue
                if isinstance(p, tuple) and isinstance(q, tuple):
                    pairs(p, q, out)
                elif isinstance(p, str) and isinstance(q, str) and p.isidentifier() == q.isidentifier():
                    out.append(('op', p, q))
                else:
                    out.append(('unknown', (p,), (q,)))
        elif len(ops) <= 2 and (not x or not y) and len(x) + len(y) <= 8 and not (x and x[0] == 'ORDER'):
            out.append(('op', ' '.join(map(sqlshow, x)) or 'nothing', ' '.join(map(sqlshow, y)) or 'nothing'))
        else:
            out.append(('unknown', x, y))


def sqlshow(t):
    return t if isinstance(t, str) else '{%s}' % show(t[0])


def is_kw(x):
    return all(isinstance(e, tuple) and len(e) == 2 and isinstance(e[0], str) and isinstance(e[1], T) for e in x)


def permuted(x, y):
    if not all(isinstance(e, T) for e in x + y):
        return False
    return x != y and sorted(e.n for e in x) == sorted(e.n for e in y)


def multiset(xs, ys, out, x, y):
    a, b = list(xs), list(ys)
    for t in xs:
        if t in b:
            a.remove(t)
            b.remove(t)
    if len(a) == len(b):
        for p, q in match(a, b):
            pairs(p, q, out)
    else:
        out.append((tuple(a), tuple(b)) if x.op in ('and', 'or') else (x, y))


def match(a, b):
    """pair up two lists of terms, closest first"""
    a, b = list(a), list(b)
    if len(a) == 1 or len(a) > 7:
        return list(zip(a, b))
    out = []
    while a:
        best = None
        for i, p in enumerate(a):
            for j, q in enumerate(b):
                d = []
                pairs(p, q, d)
                sc = (any(x[-2] is p and x[-1] is q for x in d) and not near(p, q), len(d), abs(i - j))
                if best is None or sc < best[0]:
                    best = (sc, p, q)
        out.append(best[1:])
        a.remove(best[1])
        b.remove(best[2])
    return out


def gdiff(g1, g2, out):
    a = [g for g in g1 if g not in g2]
    b = [g for g in g2 if g not in g1]
    if not a and not b:
        return
    if len(a) == len(b):
        for p, q in match(a, b):
            pairs(p, q, out)
    else:
        if ignored(conj(*a), conj(*b)):
            out.append(('op', conj(*a), conj(*b)))
            return
        out.append(('guards', tuple(a), tuple(b)))


def ignored(x, y):
    """the reference distinguishes an option which the construct does not look at, everything else being the same"""
    from .effects import atoms, implies
    ax, ay = atoms(x), atoms(y)
    lost = ay - ax
    if not ax or ax - ay or len(lost) > 3 or len(ay) > 12:
        return False
    if not lost and len(ay) <= 8:
        return implies(x, y) is False or implies(y, x) is False       # the same tests, combined differently
    if not any(g.op in ('truthy', 'isnone') and (g.a[0].op == 'param' or g.a[0].op == 'attr' and g.a[0].a[0].op == 'self') for g in lost):
        return False
    return implies(x, y) is False or implies(y, x) is False


def contribs_diff(x, y, out):
    a = [c for c in x if c not in y]
    b = [c for c in y if c not in x]
    while a and b:
        # best match: same element, then same loops
        best = None
        for p in a:
            for q in b:
                sc = (p[0] is q[0]) * 4 + (p[2] == q[2]) * 2 + (p[1] == q[1])
                if best is None or sc > best[0]:
                    best = (sc, p, q)
        sc, p, q = best
        a.remove(p)
        b.remove(q)
        if p[0] is None or q[0] is None:
            out.append(('unknown', p, q))
            continue
        # align loop sources: a changed iteration source is one difference, not many
        n0 = len(out)
        if p[2] != q[2] and len(p[2]) == len(q[2]):
            m = dict(zip(p[2], q[2]))
            pairs(p[2], q[2], out)
            p = (subst(p[0], m), tuple(subst(g, m) for g in p[1]), q[2])
        elif p[2] != q[2]:
            out.append(('loops', p[2], q[2]))
            continue
        pairs(p[0], q[0], out)
        gdiff(p[1], q[1], out)
    for c in a:
        out.append(('contrib', c, None))
    for c in b:
        out.append(('contrib', None, c))


def observed(t):
    """the independent facts about a frame (number of rows, extreme row labels, extreme values) a number is computed from"""
    if t.op == 'lin':
        fs = [observed(x) for x, _ in t.a[1]]
        return frozenset().union(*fs) if fs and all(fs) else None
    if t.op == 'len' and t.a[0].op == 'attr' and t.a[0].a[1] == '_df':
        return frozenset([('rows', t.a[0])])
    if t.op == 'call' and t.a[0].op == 'attr' and t.a[0].a[1] in ('max', 'min') and not t.a[1]:
        o = t.a[0].a[0]
        if o.op in ('attr', 'idx') and o.a[0].op == 'attr' and o.a[0].a[1] == '_df':
            return frozenset([(t.a[0].a[1], o)])
    return None


# numbers only the caller chooses
OPTIONS = {'k', 'm', 'shrinkage', 'corruption_level', 'hidden_factors', 'interaction_threshold', 'neg_ratio', 'L', 'T', 'd', 'n_v', 'n_h', 'dropout_rate'}


def option(t):
    return t.op == 'attr' and t.a[0].op == 'self' and t.a[1] in OPTIONS


def signed(t):
    """a sum with products of two different values"""
    return all(k[0] is not None and k[0].op == 'mul' and len(k[0].a) == 2 and k[0].a[0] is not k[0].a[1] and all(z.op in ('idx', 'fld', 'elem', 'lin') for z in k[0].a)
               and set(inputs(k[0].a[0])) and not has_unk(k[0]) for k in t.a[1])


def rounding(t):
    if t.op in ('maxof', 'minof') and len(t.a) == 2 and any(z.op == 'const' for z in t.a):
        t = next(z for z in t.a if z.op != 'const') if not all(z.op == 'const' for z in t.a) else t
    if t.op == 'call' and t.a[0].op == 'ext' and len(t.a[1]) == 1 and not has_unk(t):
        n = t.a[0].a[0].split('.')[-1]
        if n in ('int', 'floor', 'trunc', 'round', 'ceil'):
            return ('down' if n in ('int', 'floor', 'trunc') else n), t.a[1]


def addends(t):
    if t.op == 'add':
        return [z for x in t.a for z in addends(x)]
    if t.op == 'lin':
        out = [] if t.a[0] == 0 else [const(t.a[0])]
        for x, k in t.a[1]:
            out += [(k, x)] if k != 1 else addends(x)
        return out
    return [t]


def boundary(x, y):
    """one natural number compared with different limits"""
    def f(t):
        n = t.op == 'not'
        t = t.a[0] if n else t
        if t.op not in ('eq', 'lt', 'le') or len(t.a) != 2:
            return None
        i = [isinstance(cval(z), int) for z in t.a]
        if i.count(True) != 1:
            return None
        k = i.index(True)
        op, c = t.op, cval(t.a[k])
        test = (lambda v: (v == c if op == 'eq' else (c < v if k == 0 else v < c) if op == 'lt' else (c <= v if k == 0 else v <= c)) != n)
        return t.a[1 - k], frozenset(v for v in range(8) if test(v)), abs(c) < 6
    a, b = f(x), f(y)
    return bool(a and b and a[0] is b[0] and a[0].op in ('count', 'len') and a[2] and b[2] and a[1] != b[1])


def small(p):
    """Is this mismatch a small, understood edit?"""
    x, y = p[-2], p[-1]
    if len(p) == 3:
        kind = p[0]
        if kind in ('op', 'col', 'order', 'listorder'):
            return True
        if kind == 'arity':
            return all(isinstance(t, T) and not has_unk(t) for t in x + y)
        if kind == 'kw':
            return not has_unk((x or y)[1])
        if kind == 'guards' and not x and len(y) == 1 and y[0].op == 'not' and y[0].a[0].op == 'in' and is_call(y[0].a[0].a[0], 'randint', 'choice', 'randrange', 'random') and \
                y[0].a[0].a[1].op == 'coll' and any(z[0] is None for z in y[0].a[0].a[1].a[1]):
            return True                 # a value drawn before may be taken again
        if kind in ('guards', 'conds'):
            return len(x) + len(y) <= 3 and not any(has_unk(t) or recy(t) and (x and y or murkier(t) and (kind != 'guards' or len(x) + len(y) > 1 or murky_face(t))) for t in x + y if isinstance(t, T))
        if kind == 'contrib':
            c = x or y
            return not has_unk(c[0]) and not any(has_unk(g) for g in c[1])
        return False
    if isinstance(x, tuple) and isinstance(y, tuple):
        return len(x) + len(y) <= 3 and abs(len(x) - len(y)) <= 2 and all(isinstance(t, T) and not recy(t) for t in x + y)
    if x is None or y is None:
        return False
    if not isinstance(x, T) or not isinstance(y, T):
        return True
    if x.op == 'const' and y.op == 'const':
        return True
    if leafy(x) and leafy(y):
        return True
    if source(x) and source(y):
        return True
    if x.op == y.op == 'mul' and set(x.a) == set(y.a) and x is not y:
        return True                 # another power
    if {x.op, y.op} == {'len', 'sum'}:
        n, t = (x, y) if x.op == 'len' else (y, x)
        if cval(t.a[0]) == 0 and len(t.a[1]) == 1 and not t.a[1][0][1] and len(t.a[1][0][2]) == 1 and t.a[1][0][2][0].op == 'loop' \
                and t.a[1][0][2][0].a[0] is n.a[0] and t.a[1][0][0].op == 'elem' and leafy(t.a[1][0][0].a[0]):
            return True             # how many there are, instead of what they add up to
    if x.op in CMPS and y.op in CMPS and set(x.a) & set(y.a):
        return True
    if not has_unk(x) and not has_unk(y) and not recy(x) and not recy(y):
        ix, iy = inputs(x), inputs(y)
        if (x.op == 'const') != (y.op == 'const') and (ix or iy):
            return True             # constant instead of a computed value
        if ix and iy and not (ix <= iy and iy <= ix) and size(x) <= 25 and size(y) <= 25:
            return True             # depends on other inputs
    for a, b in ((x, y), (y, x)):
        if option(a) and b.op != 'const' and not has_unk(b) and not contains(b, lambda z: z is a) and inputs(b):
            return True             # an option instead of a computed value
    if x.op in ('add', 'lin') and y.op in ('add', 'lin') and not has_unk(x) and not has_unk(y):
        ax, ay = addends(x), addends(y)
        ox, oy = [z for z in ax if z not in ay], [z for z in ay if z not in ax]
        if len(ox) == len(oy) == 1 and len(ax) == len(ay) > 1 and isinstance(ox[0], T) and isinstance(oy[0], T) and small((ox[0], oy[0])):
            return True
    if boundary(x, y):
        return True
    rx, ry = rounding(x), rounding(y)
    if rx and ry and rx[1] == ry[1] and rx[0] != ry[0]:
        return True                     # rounded differently
    ux, uy = (z.a[0] if z.op == 'not' else z for z in (x, y))
    if ux.op in CMPS and uy.op in CMPS and ux.op != uy.op and set(ux.a) == set(uy.a) and any(z.op == 'sum' and len(z.a) > 1 and signed(z) for z in ux.a):
        return True                     # a negative sum treated like another one
    ox, oy = observed(x), observed(y)
    if ox and oy and ox != oy:
        return True                     # different facts about the rows
    for a, b in ((x, y), (y, x)):
        if a.op == 'call' and b in a.a[1] and a.a[0].op == 'ext' and a.a[0].a[0].split('.')[-1] in WRAPS:
            return True
        if b.op == 'not' and b.a[0] is a:
            return True
        if any(z is b for z in walk(a)) and size(a) - size(b) <= 12 and b.op != 'const':
            return True
        if a.op == 'lin' and lin_near(a, b):
            return True
        if a.op == 'maxof' and b.op == 'lin' and not has_unk(a) and not has_unk(b) and len(a.a) == 2 and any(z.op == 'const' for z in a.a) and \
                any(z.op != 'const' and sub(z, b).op == 'const' and sub(z, b) is not ZERO for z in a.a):
            return True                 # max(c, t) instead of t + d
        if a.op in ('minof', 'maxof', 'or', 'and', 'add', 'sub', 'mul', 'div', 'floordiv', 'mod') and b in a.a:
            return True
        if a.op == 'add' and b.op in ('add', 'sub', 'lin') and set(kids(a)) & set(kids(b)):
            return True
        if b.op == 'const' and b.a[0] in (0, 1, None, True, False) and a.op in BOOL_OPS:
            return True
    if len(x.a) == len(y.a) and x.op != y.op and set(kids(x)) == set(kids(y)):
        return True
    if counted(x) is not None and counted(x) is counted(y):
        return True
    ux, uy = (z.a[0] if z.op == 'not' else z for z in (x, y))
    if {ux.op, uy.op} == {'isnone', 'truthy'} and ux.a[0] is uy.a[0] and data(ux.a[0]):
        return True                 # a falsy value treated as missing
    for a, b in ((x, y), (y, x)):
        if a.op in ('minof', 'maxof') and any(k is not b and k.op == 'lin' and lin_near(k, b) for k in a.a):
            return True
        if a.op == 'pos' and counts_some(b) is a.a[0]:
            return True             # every iteration counted instead of some
        if a.op == 'pos' and b.op == 'elem':
            return True             # position instead of the element
    if bool_op(x) and bool_op(y) and not has_unk(x) and not has_unk(y):
        from .effects import atoms, implies
        ax, ay = atoms(x), atoms(y)
        if ax == ay and 1 < len(ax) <= 12 and (implies(x, y) is False or implies(y, x) is False):
            return True             # same tests, combined differently
    if x.op == y.op and x.op in ('min', 'max', 'slice', 'range', 'sorted') and set(kids(x)) & set(kids(y)):
        return True
    if {x.op, y.op} <= {'minof', 'maxof'} and set(x.a) & set(y.a):
        return True
    return False


def counts_some(t):
    """loop of which the term counts some of the iterations, by conditions on what other code returned"""
    if t.op != 'rec' or t.a[0] is not ZERO and t.a[0] != 0 or len(t.a) != 3 or len(t.a[2] if isinstance(t.a[2], tuple) else ()) != 1:
        return None
    hs = [v for _, v in t.a[1] if v.op == 'hole']
    up = [v for _, v in t.a[1] if v.op == 'lin' and v.a[0] == 1 and len(v.a[1]) == 1 and v.a[1][0][0].op == 'hole']
    if len(hs) + len(up) != len(t.a[1]) or not hs or not up:
        return None
    if not any(g.op in ('isnone', 'truthy') or g.op == 'not' and g.a[0].op in ('isnone', 'truthy') for gs, v in t.a[1] if v.op == 'hole' for g in gs):
        return None
    return t.a[2][0]


def bool_op(t):
    return t.op in ('and', 'or') or t.op == 'not' and t.a[0].op in ('and', 'or')


def inputs(t):
    return {z for z in walk(t) if z.op in ('param', 'kwval', 'field') or z.op == 'attr' and z.a[0].op == 'self'}


def data(t):
    """a value supplied by the caller or stored in the data (zero and empty text are legal values)"""
    if t.op == 'call' and t.a[0].op == 'attr' and t.a[0].a[1] in SCORED:
        return True
    return t.op in ('param', 'elem', 'kwval') or t.op == 'idx' and data(t.a[0])


SCORED = {'_predict', 'predict', '_predict_default', 'aggregation_fn', 'user_to_uid', 'item_to_iid', 'uid_to_user', 'iid_to_item', '_get_interaction', '_get_sim', 'min', 'max'}


def counted(t):
    """the collection whose size an atom tests"""
    if t.op == 'not':
        t = t.a[0]
    if t.op == 'nonempty':
        return t.a[0]
    if t.op in ('lt', 'le', 'eq') and any(z.op == 'const' for z in t.a):
        z = [z for z in t.a if z.op == 'len']
        return z[0].a[0] if z else None


RECY = {'rec', 'hole', 'mu', 'count', 'unk', 'while', 'count_add'}


WRAPS = {'round', 'int', 'float', 'abs', 'floor', 'ceil', 'sqrt', 'log', 'log2', 'set', 'sum', 'max', 'min', 'exp', 'str'}


def murkier(t):
    return contains(t, lambda z: z.op in RECY and not (z.op == 'while' and z.a) and z.op != 'count')


def faced(t):
    """the parts of a condition, apart from where the elements it is about come from"""
    if isinstance(t, tuple):
        for x in t:
            yield from faced(x)
    elif isinstance(t, T):
        yield t
        if t.op not in ('elem', 'loop'):
            yield from faced(t.a)


def murky_face(t):
    return any(z.op in RECY and not (z.op == 'while' and z.a) and z.op != 'count' for z in faced(t))


def recy(t):
    return contains(t, lambda z: z.op in RECY and not (z.op == 'while' and z.a))


def source(t):
    """A value with one specific origin: constant, parameter, field of a record, position, result of a model call ..."""
    if t.op in ('const', 'param', 'pos'):
        return True
    if t.op == 'fld' and t.a[0].op in ('row', 'one'):
        return True
    if t.op == 'attr':
        return t.a[0].op == 'self' or source(t.a[0])
    if t.op == 'call':
        return t.a[0].op == 'attr' and t.a[0].a[0].op == 'param'
    return False


def lin_near(a, b):
    la, lb = lin(a), lin(b)
    ta, tb = {t for t, _ in la[1]}, {t for t, _ in lb[1]}
    return bool(ta & tb) and len(ta ^ tb) <= 2


VOCAB = set()           # names used by the reference definitions
KNOWN_NAMES = {'round', 'int', 'float', 'abs', 'floor', 'ceil', 'sqrt', 'log', 'log2', 'log10', 'log1p', 'exp', 'set', 'sum', 'max', 'min', 'str', 'mean', 'median', 'std', 'var',
               'choice', 'choices', 'sample', 'shuffle', 'randint', 'random', 'uniform', 'randrange', 'seed', 'Random', 'head', 'tail', 'any', 'all', 'argmin', 'argmax',
               'copy', 'deepcopy', 'strip', 'lower', 'upper', 'split', 'index', 'sorted', 'len', 'lstrip', 'rstrip', 'pop', 'abspath', 'basename', 'dirname', 'join',
               'nunique', 'unique', 'count', 'first', 'last', 'commit', 'rollback', 'cpu_count', 'id', 'hash', 'time', 'getpid', 'nan', 'inf', 'fillna', 'dropna', 'heapreplace',
               'heappushpop', 'nlargest', 'nsmallest', 'reverse', 'clear', 'add', 'append', 'remove', 'discard', 'update', 'extend'}
_names = {}


def names(t):
    """names of the functions, methods and attributes a term refers to"""
    if isinstance(t, tuple):
        return frozenset().union(*[names(x) for x in t]) if t else frozenset()
    if not isinstance(t, T):
        return frozenset()
    r = _names.get(t)
    if r is None:
        r = frozenset().union(*[names(x) for x in t.a if isinstance(x, (T, tuple))]) if t.a else frozenset()
        if t.op == 'attr' and isinstance(t.a[1], str):
            r |= {t.a[1]}
        elif t.op in ('ext', 'func', 'glob', 'clsattr') and isinstance(t.a[-1], str):
            r |= {t.a[-1].split('.')[-1]}
        elif t.op == 'raised':
            r |= {'<raised>'}
        elif t.op == 'call' and t.a[0].op not in ('attr', 'ext', 'func', 'class', 'param', 'elem', 'kwval'):
            r |= {'<computed callee>'}
        _names[t] = r
    return r


def hasalt(t):
    if isinstance(t, tuple):
        return any(hasalt(x) for x in t)
    return isinstance(t, T) and contains(t, lambda z: z.op == 'alt')


def foreign(t):
    """the construct uses something the reference definitions do not talk about"""
    return bool(VOCAB) and any(n not in VOCAB and n not in KNOWN_NAMES for n in names(t))


def vocabulary(prog):
    import ast
    out = set()
    for n, m in prog.with_spec().modules.items():
        if n.startswith('SPEC.'):
            for x in ast.walk(m.tree):
                if isinstance(x, ast.Name):
                    out.add(x.id)
                elif isinstance(x, ast.Attribute):
                    out.add(x.attr)
                elif isinstance(x, ast.alias):
                    out.add(x.name.split('.')[-1])
                elif isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                    out.add(x.name)
                elif isinstance(x, ast.keyword) and x.arg:
                    out.add(x.arg)
    return out


def near(x, y, limit=5):
    """List of mismatches if x is a near miss of y, else None."""
    out = []
    pairs(x, y, out)
    for p in out:
        if isinstance(p[-2], (T, tuple)) and (foreign(p[-2]) or hasalt(p[-2]) and not hasalt(p[-1])):
            return None
    ps = []
    for p in out:
        if p not in ps:
            ps.append(p)
    if any(counter_bound(p[-2], p[-1]) for p in ps):
        return None
    if ps and len(ps) > limit:
        m = misplaced(x, y)
        if m:
            return [m]
    if not ps or len(ps) > limit and not (len(ps) <= 8 and all(p[0] == 'contrib' and p[1] is None for p in ps)):
        return None
    if all(small(p) for p in ps):
        return ps
    return None


def misplaced(x, y):
    """another list of the reference stands in the place of the expected one"""
    whole = y
    while type(x) is type(y):
        if isinstance(x, T):
            if x.op != y.op:
                return None
            if x.op == 'coll':
                if x.a[0] == 'list' and x.a[1] and not has_unk(x) and not recy(x) and contains(whole, lambda z: z is x):
                    return (x, y)
                if len(x.a[1]) != 1 or len(y.a[1]) != 1 or x.a[1][0][1:] != y.a[1][0][1:] or x.a[1][0][0] is None or y.a[1][0][0] is None:
                    return None
                x, y = x.a[1][0][0], y.a[1][0][0]
                continue
            kx, ky = x.a, y.a
        elif isinstance(x, tuple):
            kx, ky = x, y
        else:
            return None
        if len(kx) != len(ky):
            return None
        d = [(a, b) for a, b in zip(kx, ky) if a is not b and a != b]
        if len(d) != 1:
            return None
        x, y = d[0]
    return None


def counter_bound(a, b):
    """`n == limit` and `n >= limit` on something counted in a loop: the same as long as it never jumps over the limit"""
    if not (isinstance(a, T) and isinstance(b, T)) or {a.op, b.op} != {'eq', 'le'}:
        return False
    return set(a.a) == set(b.a) and any(contains(z, lambda w: w.op in ('hole', 'rec')) for z in a.a)


def murky(x, y):
    """x and y are almost the same term, and the difference is not understood"""
    out = []
    pairs(x, y, out)
    return 0 < len(out) <= 4 and not all(small(p) for p in out) and not any(p[0] is x or p[-1] is y for p in out)


def describe(ps):
    def s(t):
        if isinstance(t, T):
            return show(t)
        if isinstance(t, tuple):
            return '(' + ', '.join(s(x) for x in t) + ')'
        return str(t)
    return '; '.join('%s instead of %s' % (s(p[-2]), s(p[-1])) for p in ps[:4])


EMPTYISH = {'nonempty', 'isnone', 'truthy'}


def emptyish(g):
    if g.op == 'not':
        g = g.a[0]
    if g.op == 'truthy' and g.a[0].op == 'attr' and g.a[0].a[1].startswith(('has_', 'is_')):
        return False            # a flag, not a test for missing data
    if g.op in EMPTYISH:
        return True
    return g.op in ('eq', 'lt', 'le') and any(is_const(z, 0, 0.0) for z in g.a)


def outcomes(r, raises=True):
    """[(guards, value, where)] of a run: returns and explicit raises."""
    n = Norm(r.it)
    out = []
    after = []
    for s, v in r.returns:
        gs, v = n(tuple(r.it.freeze(s, g) for g in s.guards)), n(r.it.freeze(s, v))
        ls = n(s.loops)
        if ls:
            m = first_match(gs, v, ls)
            if m is None:
                gs, v = gs, mk('unk', 'loop-return', v.n)
            else:
                gs, v, c = m
                after.append(neg(c))
        elif after:
            gs = gs + tuple(after)
        out.append((gs, v))
    if raises:
        for e in r.evs('raise'):
            if not e.tries:
                out.append((n(e.guards), mk('raises')))
    return out


def first_match(gs, v, ls):
    """return from inside `for pos, e in enumerate(src)` at the first e equal to x: the position is src.index(x)"""
    if len(ls) != 1:
        return None
    l = ls[0]
    src = loop_src(l)
    if src is None:
        return None
    for g in gs:
        if g.op == 'eq':
            for e, x in (g.a, g.a[::-1]):
                if e.op == 'elem' and e.a[1] is l and not contains(x, lambda z: z is l):
                    m = {e: x, mk('pos', l): mk('call', mk('attr', e.a[0], 'index'), (x,), ())}
                    g2 = tuple(subst(y, m) for y in gs if y is not g)
                    v2 = subst(v, m)
                    if any(contains(y, lambda z: z is l) for y in g2 + (v2,)):
                        return None
                    c = member(x, e.a[0])
                    return g2 + (c,), v2, c
    return None


def cases(outs):
    res = []
    for gs, v in outs:
        ds = dnf(gs)
        if ds is None:
            return None
        for d in ds:
            if feasible(d):
                for g2, w in alts(v):
                    if feasible(d + g2):
                        ds2 = dnf(d + g2)
                        for d2 in ds2 or [d + g2]:
                            res.append((d2, w))
        if len(res) > 400:
            return None
    return res


def sized(ts):
    """values whose length either side takes: testing their truth value is testing that they are not empty"""
    a, b, seen = set(), set(), set()
    for t in ts:
        for x in walk(t, seen):
            if x.op == 'nonempty':
                a.add(x.a[0])
            elif x.op == 'truthy':
                b.add(x.a[0])
            elif x.op == 'len':
                a.add(x.a[0])
    return a & b


def as_sized(t, S):
    return rebuild(t, lambda x: mk('nonempty', x.a[0]) if x.op == 'truthy' and x.a[0] in S else x)


def compare(c, rule, where, impl, spec, key=None, ignore_raises=False):
    """Discharge / violate / leave undecided: every jointly possible case has the same outcome."""
    S = sized([x for gs, v in impl + spec for x in gs + (v,)])
    if S:
        impl, spec = [[(tuple(as_sized(g, S) for g in gs), as_sized(v, S)) for gs, v in o] for o in (impl, spec)]
    ci, cs = cases(impl), cases(spec)
    if not ci or not cs:
        return c.undec(rule, where, 'too many cases' if ci is None or cs is None else 'no outcome')
    atoms = {g for d, _ in cs for g in d}
    atoms |= {neg(g) for g in atoms}
    worst = None
    n = 0
    for di, vi in ci:
        for ds, vs in cs:
            if not feasible(di + ds):
                continue
            n += 1
            g = di + ds
            a, b = under(vi, g), under(vs, g)
            if a is b:
                continue
            if ignore_raises and (a.op == 'raises' or b.op == 'raises'):
                continue
            if a.op == 'raises' or b.op == 'raises':
                extra = [x for x in di if x not in atoms]
                if any(has_unk(x) for x in g):
                    worst = worst or ('undec', 'unknown condition')
                elif a.op == 'raises':
                    worst = ('bad', 'raises when %s, expected result %s' % (show(conj(*di)), show(b)))
                else:
                    if any(has_unk(x) for x in di) or not related(di, ds):
                        worst = worst or ('undec', 'rejection condition %s' % show(conj(*ds)))
                    else:
                        worst = ('bad', 'accepts %s' % show(conj(*ds)))
                continue
            if has_unk(a) or has_unk(b):
                worst = worst or ('undec', show(a))
                continue
            extra = [x for x in di if x not in atoms and entails(set(ds), x) is not TRUE]
            ps = near(a, b)
            if extra and any(emptyish(x) for x in extra):
                worst = worst or ('undec', 'special case %s -> %s' % (show(conj(*extra)), show(a)))
                continue
            if ps is None:
                if extra and a.op == 'const' and not any(has_unk(x) for x in extra):
                    worst = ('bad', 'returns %s when %s, expected %s' % (show(a), show(conj(*extra)), show(b)))
                else:
                    worst = worst or ('undec', 'value %s, reference %s' % (show(a), show(b)))
                continue
            w = ('bad', 'when %s: %s' % (show(conj(*di)), describe(ps)))
            if worst is None or worst[0] != 'bad':
                worst = w
    if worst is None:
        return c.ok(rule, where, '%d cases' % n)
    if worst[0] == 'bad':
        return c.bad(rule, where, worst[1], key)
    return c.undec(rule, where, worst[1])


def related(di, ds):
    vi = {x for g in di for x in walk(g) if x.op in LEAF or x.op == 'len'}
    return any(x in vi for g in ds for x in walk(g)) or not di or True
