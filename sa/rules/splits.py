"""L01 partition, L02 per-split selection rules, L03 task synchronisation."""
import ast
from ..base import *
from . import rule

SPLITS = 'DRecPy.Evaluation.Splits'
PROCS = 'DRecPy.Evaluation.Processes'
FLOAT, INT = mk('ext', 'builtins.float'), mk('ext', 'builtins.int')


def variants(c, name):
    """Symbolic runs of a split for each combination of its discrete options."""
    f = c.prog.func(SPLITS, name)
    out = []
    for verbose in (FALSE, TRUE):
        if name == 'leave_k_out':
            k = param(f, 'k')
            for ratio in (True, False):
                for last in (TRUE, FALSE):
                    gs = (mk('isa', k, FLOAT),) if ratio else (mk('isa', k, INT), neg(mk('isa', k, FLOAT)))
                    r = c.run(f, args={'last_timestamps': last}, guards=gs, spec={'verbose': verbose})
                    out.append((dict(ratio=ratio, last=last is TRUE, verbose=verbose is TRUE), f, r, set(gs)))
        else:
            out.append((dict(verbose=verbose is TRUE), f, c.run(f, spec={'verbose': verbose}), set()))
    return out


def split_result(c, rulename, f, r):
    """[(guards, train, test)] with every return classified."""
    out = []
    for s, v in r.returns:
        fv = r.it.freeze(s, v)
        for gs, t in leaves(fv):
            t2 = t
            if t.op == 'coll' and len(t.a[1]) == 2:
                t2 = mk('tuple', *[x[0] for x in t.a[1]])
            if t2.op != 'tuple' or len(t2.a) != 2:
                c.undec(rulename, f.qual, 'return value %s' % show(t))
                continue
            out.append((s.guards + gs, t2.a[0], t2.a[1]))
    return out


def contribs(t):
    """Contributions of a rid collection term, or None."""
    if t.op in ('sorted', 'setorder', 'reversed'):
        return contribs(t.a[0])
    if t.op == 'coll':
        if any(x[0] is None for x in t.a[1]):
            return None
        return list(t.a[1])
    if t.op == 'alt':
        out = []
        for gs, v in t.a[0]:
            cs = contribs(v)
            if cs is None:
                return None
            out += [(e, tuple(gs) + g, l) for e, g, l in cs]
        return out
    return None


def same_contrib(a, b):
    """b (train side) covers a (test side)."""
    return a[0] is b[0] and set(b[1]) <= set(a[1]) and a[2] == b[2]


def origin(e):
    """('row', ds, col) or ('sample', call, pop, size) or ('slice', coll) of an element term."""
    if e.op == 'fld' and e.a[0].op == 'row':
        return ('row', e.a[0].a[0], e.a[1])
    if e.op == 'elem':
        s = e.a[0]
        while s.op in ('sorted', 'reversed') or (s.op == 'slice' and s.a[1] is NONE and s.a[2] is NONE):
            s = s.a[0]
        if is_call(s, 'sample', 'choices') and len(s.a[1]) + len(s.a[2]) >= 2:
            kw = dict(s.a[2])
            pop = s.a[1][0] if s.a[1] else kw.get('population')
            k = s.a[1][1] if len(s.a[1]) > 1 else kw.get('k')
            return ('sample', s, pop, k)
        if s.op == 'slice':
            return ('slice', s, e.a[1])
        if s.op == 'coll' and len(s.a[1]) == 1 and s.a[1][0][0] is not None:
            return origin(s.a[1][0][0])
    if e.op == 'idx' and e.a[0].op == 'elem':
        o = origin(e.a[0])
        if o and o[0] == 'slice':
            return ('slice', o[1], o[2], e.a[1])
        if o and o[0] == 'sample':
            return ('sampletuple', o[1], o[2], o[3], e.a[1])
    return None


def rid_ok(e, ds):
    """True / False / None: is the element a record id of ds?"""
    if e.op in ('pos', 'const', 'len'):
        return False        # a position or count, not a record id
    o = origin(e)
    if o is None:
        return None
    if o[0] == 'row':
        base = o[1]
        while base.op == 'rows':
            base = base.a[0]
        if base is not ds:
            return None
        return o[2] == 'rid' if isinstance(o[2], str) else None
    if o[0] == 'sample':
        cs = contribs(o[2]) if o[2] is not None else None
        if cs is None:
            return None
        rs = [rid_ok(x[0], ds) for x in cs]
        return False if False in rs else None if None in rs else True
    return None


@rule('L01')
def collected_before_read(c):
    conc(Only(c, 'join-before-read'), CONC[:2])


@rule('L01', 'Gated dataflow over the three split functions and their task workers: the returned pair must be two '
      'complementary drop() views of the input dataset (test keeps the collected record ids, train drops a superset of '
      'them), every collected id must be a record id of the input, ids dropped from train only must be guarded by the '
      'minimum-interactions test, and nothing is applied in place to the input.')
def partition(c):
    for name in ('random_split', 'leave_k_out', 'matrix_split'):
        for opt, f, r, base in variants(c, name):
            ds = param(f, 'interaction_dataset')
            where = '%s %s' % (f.qual, opt)
            seen_any = False
            for e in r.evs('mutate'):
                if ds in roots(r.it, e.recv):
                    c.bad('input-not-modified', e, 'in-place operation %s on the dataset passed in' % e.how)
            for gs, train, test in split_result(c, 'complementary-drop', f, r):
                tr = [v for _, v in leaves(train)]
                te = [v for _, v in leaves(test)]
                for a in tr:
                    for b in te:
                        partition_pair(c, f, where, ds, a, b, gs, name)
                        seen_any = True
            if not seen_any:
                c.undec('complementary-drop', where, 'no analysable return')


def partition_pair(c, f, where, ds, a, b, gs, name):
    if b.op == 'dropped' and a.op == 'dropped':
        ka, kb = a.a[2], b.a[2]
        if ka is TRUE and kb is FALSE:
            c.bad('complementary-drop', where, 'train and test are swapped: first element keeps the sampled ids')
            return
        if kb is not TRUE or ka is not FALSE:
            if ka.op == 'const' and kb.op == 'const':
                c.bad('complementary-drop', where, 'train drops with keep=%s and test with keep=%s' % (show(ka), show(kb)))
            else:
                c.undec('complementary-drop', where, 'keep flags %s %s' % (show(ka), show(kb)))
            return
        for side, x in (('train', a), ('test', b)):
            if x.a[0] is not ds:
                if x.a[0].op in ('rows', 'uniq', 'dropped') and not has_unknown(x.a[0]):
                    # dropping from an already reduced dataset is fine only if it is the same ids again
                    if x.a[0].op == 'dropped' and x.a[0].a[0] is ds and x.a[0].a[2] is FALSE and side == 'train':
                        continue
                    c.bad('complementary-drop', where, '%s is taken from %s, not from the input dataset' % (side, show(x.a[0])))
                else:
                    c.undec('complementary-drop', where, '%s base %s' % (side, show(x.a[0])))
                return
        c.ok('complementary-drop', where)
        X, Y = contribs(a.a[1]), contribs(b.a[1])
        if a.a[0].op == 'dropped':
            X = None if X is None or contribs(a.a[0].a[1]) is None else X + contribs(a.a[0].a[1])
        if X is None and Y is not None:
            cut = a.a[1]
            while cut.op in ('sorted', 'setorder', 'reversed') or is_call(cut, 'list') and len(cut.a[1]) == 1:
                cut = cut.a[0] if cut.op != 'call' else cut.a[1][0]
            if cut.op == 'slice' and contribs(cut.a[0]) is not None and any(x is not NONE and x is not ZERO for x in cut.a[1:3]) and not any(has_unknown(x) for x in cut.a[1:] if isinstance(x, T)) \
                    and all(any(same_contrib(y, x) for x in contribs(cut.a[0])) for y in Y) and len(Y) == len(contribs(cut.a[0])):
                c.bad('disjoint', where, 'only part of the rows put in the test set is removed from the train set: %s' % show(cut))
                return
        for mine, theirs, side in ((a.a[1], Y, 'train'), (b.a[1], X, 'test')):
            o = origin(mk('elem', mine, NONE))
            if o and o[0] == 'sample' and o[2] is not None and o[2].op == 'range' and theirs and all(y[0].op == 'fld' and y[0].a[1] == 'rid' for y in theirs):
                c.bad('disjoint', where, 'the %s set is built from positions where the other one is built from record ids: %s' % (side, show(mine)))
                return
        if X is None or Y is None:
            c.undec('ids-flow', where, 'collected ids %s / %s' % (show(a.a[1]), show(b.a[1])))
            return
        if not Y:
            c.bad('test-nonempty', where, 'no record id ever reaches the test set')
        for y in Y:
            if not any(same_contrib(y, x) for x in X):
                if has_unknown(y[0]):
                    c.undec('disjoint', where, show(y[0]))
                elif any(x[0] is y[0] for x in X):
                    # same element under other conditions: decide by the facts
                    xs = [x for x in X if x[0] is y[0]]
                    if all(entails(set(y[1]), conj(*x[1])) is not TRUE for x in xs) and not any(has_mu(g) or has_unknown(g) for x in xs for g in x[1]):
                        c.bad('disjoint', where, 'rows %s go to test but are only removed from train when %s' % (show(y[0]), ' or '.join(show(conj(*x[1])) for x in xs)))
                    else:
                        c.undec('disjoint', where, show(y[0]))
                else:
                    c.bad('disjoint', where, 'rows %s are put in the test set and are not removed from the train set' % show(y[0]))
            else:
                c.ok('disjoint', where, show(y[0]))
        for y in Y + X:
            k = rid_ok(y[0], ds)
            if k is None:
                c.undec('record-ids', where, show(y[0]))
            else:
                c.ob('record-ids', where, k, 'collected value %s is not a record id of the input' % show(y[0]))
        for x in X:
            if any(same_contrib(y, x) for y in Y):
                continue
            # rows in neither set
            if name == 'random_split':
                c.bad('complete', where, 'rows %s are in neither set' % show(x[0]))
                continue
            o = origin(x[0])
            if o and o[0] == 'row' and o[1].op == 'rows' and len(o[1].a[1]) == 1 and o[1].a[1][0][:2] == ('==', 'user'):
                need = cmp_('<', length(o[1]), param(f, 'min_user_interactions'))
                if entails(set(x[1]), need) is TRUE:
                    c.ok('complete', where, 'only rows of users below min_user_interactions leave both sets')
                elif any(has_unknown(g) for g in x[1]):
                    c.undec('complete', where, show(conj(*x[1])))
                else:
                    c.bad('complete', where, 'rows %s are removed from both sets although the user is not known to have fewer than '
                          'min_user_interactions rows (facts: %s)' % (show(x[0]), show(conj(*x[1]))))
            elif has_unknown(x[0]) or o is None:
                c.undec('complete', where, show(x[0]))
            else:
                c.bad('complete', where, 'rows %s are in neither set' % show(x[0]))
        return
    if a.op in ('rows', 'uniq', 'param', 'dsroot') and b.op == 'dropped':
        c.bad('complementary-drop', where, 'train is %s while test takes %s' % (show(a), show(b)))
        return
    c.undec('complementary-drop', where, '%s / %s' % (show(a), show(b)))


# ---------------------------------------------------------------------------------------------------------------- L02
def floors(x):
    """Accepted integer parts of a real term."""
    return [mk('call', mk('ext', q), (x,), ()) for q in ('builtins.int', 'math.floor')]


def user_of(U):
    return U.a[1][0][2]


def check_user_rows(c, where, U, ds):
    """U must be the rows of one user, the user ranging once over the distinct users of ds."""
    if U.op != 'rows' or U.a[0] is not ds:
        c.undec('per-user-rows', where, show(U))
        return False
    conds = U.a[1]
    if len(conds) != 1 or conds[0][0] != '==' or conds[0][1] != 'user':
        if all(isinstance(x[1], str) for x in conds):
            c.bad('per-user-rows', where, 'the per-user population is %s, not all rows of the user' % show(U))
        else:
            c.undec('per-user-rows', where, show(U))
        return False
    u = conds[0][2]
    if u.op == 'fld' and u.a[0].op == 'row' and u.a[1] == 'user':
        src = u.a[0].a[0]
        if src.op == 'uniq' and src.a[0] is ds and src.a[1] == ('user',):
            c.ok('each-user-once', where)
            return True
        if src is ds:
            c.bad('each-user-once', where, 'the split visits a user once per row instead of once')
            return False
    if u.op == 'elem' and u.a[0].op == 'coll' and u.a[0].a[0] == 'set':
        return True
    c.undec('each-user-once', where, show(u))
    return True


def extra_guards(c, rulename, where, gs, spec, msg):
    for g in gs:
        if entails(spec, g) is TRUE:
            continue
        if has_unknown(g) or has_mu(g):
            c.undec(rulename, where, show(g))
            continue
        if g.op == 'or' and any(entails(spec, x) is TRUE for x in g.a):
            continue
        c.bad(rulename, where, '%s additionally requires %s' % (msg, show(g)))
        return
    c.ok(rulename, where)


@rule('L02', 'Gated dataflow over the split workers, once per discrete option: the guards that dominate every collected '
      'record id must imply the documented selection rule (and nothing stronger), and sample populations and sizes must '
      'be the documented terms.')
def leave_k(c):
    for opt, f, r, base in [v for v in variants(c, 'leave_k_out')]:
        ds, k, mn = param(f, 'interaction_dataset'), param(f, 'k'), param(f, 'min_user_interactions')
        where = '%s %s' % (f.qual, opt)
        pre = set()
        for s, _ in r.returns:
            pre = set(s.guards)
        need = [cmp_('<', ZERO, k)] + ([cmp_('<', k, ONE)] if opt['ratio'] else [])
        for nd in need:
            if entails(pre, nd) is TRUE:
                c.ok('rejects-invalid-k', where, show(nd))
            else:
                c.bad('rejects-invalid-k', where, 'a split is returned although %s is not known to hold' % show(nd))
        for gs, train, test in split_result(c, 'selection', f, r):
            if test.op != 'dropped' or train.op != 'dropped':
                c.undec('selection', where, show(test))
                continue
            X, Y = contribs(train.a[1]), contribs(test.a[1])
            if X is None or Y is None:
                c.undec('selection', where, show(test))
                continue
            got = False
            for e, gg, ls in Y:
                o = origin(e)
                facts = set(gg) | base | pre
                if o and o[0] == 'sample':
                    call, pop, size = o[1:]
                    if pop.op == 'slice' and contribs(pop.a[0]) is not None and len(contribs(pop.a[0])) == 1 and (origin(contribs(pop.a[0])[0][0]) or ' ')[0] == 'row' \
                            and any(x is not NONE and x is not ZERO for x in pop.a[1:3]) and not has_unknown(pop) and not any(x is length(pop.a[0]) for x in pop.a[1:3]):
                        c.bad('population', where, 'the test rows of a user are sampled from a part of the user\'s rows only: %s' % show(pop))
                        continue
                    cs = contribs(pop)
                    if cs is None or len(cs) != 1 or origin(cs[0][0]) is None or origin(cs[0][0])[0] != 'row':
                        c.undec('population', where, show(pop))
                        continue
                    U = origin(cs[0][0])[1]
                    if not check_user_rows(c, where, U, ds):
                        continue
                    if cs[0][1]:
                        c.bad('population', where, 'the sampled population is filtered by %s' % show(conj(*cs[0][1])))
                    else:
                        c.ok('population', where)
                    if call.op == 'call' and is_call(call, 'choices'):
                        c.bad('sample-size', where, 'sampling with replacement')
                    Ks = floors(mul(length(U), k)) if opt['ratio'] else [k]
                    ok_size = size in Ks or (size.op == 'minof' and set(size.a) & set(Ks) and all(x in Ks or x is length(U) for x in size.a))
                    if not ok_size and (has_unknown(size) or has_mu(size)):
                        c.undec('sample-size', where, show(size))
                        continue
                    c.ob('sample-size', where, ok_size, 'takes %s rows of a user, documented: %s' % (show(size), show(Ks[0])))
                    K = next((x for x in Ks if x is size), Ks[0])
                    if opt['last']:
                        c.bad('last-timestamps', where, 'rows are sampled at random although last_timestamps is set')
                    select_guards(c, where, facts, gg, base | pre, U, K, mn, opt)
                    got = True
                elif o and o[0] in ('row', 'slice'):
                    if not opt['last']:
                        c.bad('population', where, 'rows %s are selected without sampling' % show(e)) if o[0] == 'row' and not has_unknown(e) else c.undec('population', where, show(e))
                        continue
                    got |= last_ts(c, where, r, f, e, gg, ls, o, ds, k, mn, opt, facts, base | pre)
                else:
                    c.undec('population', where, show(e))
                    got = True
            if not got and Y is not None:
                c.undec('selection', where, 'no recognised selection')
            rem = [x for x in X if not any(same_contrib(y, x) for y in Y)]
            found = False
            for e, gg, ls in rem:
                o = origin(e)
                if not o or o[0] != 'row' or o[1].op != 'rows':
                    c.undec('removal', where, show(e))
                    found = True
                    continue
                found = True
                U = o[1]
                spec = base | pre | {cmp_('<', length(U), mn)}
                extra_guards(c, 'removal-not-stronger', where, gg, spec, 'removing a user below min_user_interactions')
            c.ob('removal', where, found, 'users below min_user_interactions are not removed from the train set')


def select_guards(c, where, facts, gg, pre, U, K, mn, opt):
    n = length(U)
    for nm, nd in (('keeps-a-train-row', cmp_('<', K, n)), ('min-user-interactions', cmp_('<=', mn, n))):
        if entails(facts, nd) is TRUE:
            c.ok(nm, where, show(nd))
        elif any(has_unknown(g) for g in gg):
            c.undec(nm, where, show(conj(*gg)))
        else:
            c.bad(nm, where, 'test rows are taken from a user although %s is not known to hold (facts: %s)' % (show(nd), show(conj(*gg))))
    spec = set(pre) | {cmp_('<', K, n), cmp_('<=', mn, n), cmp_('<', ZERO, K)}
    extra_guards(c, 'selection-not-stronger', where, [g for g in gg if not contains(g, lambda x: x.op == 'coll')], spec, 'moving rows of a qualifying user to the test set')


def last_ts(c, where, r, f, e, gg, ls, o, ds, k, mn, opt, facts, pre):
    tl = param(f, 'timestamp_label')
    heap = [x for x in r.evs('mutate') if x.how in ('heappush', 'heapreplace', 'heappushpop', 'heappop')]
    if o[0] == 'row' and heap:
        U = o[1]
        if not check_user_rows(c, where, U, ds):
            return True
        Ks = floors(mul(length(U), k)) if opt['ratio'] else [k]
        for h in heap:
            if h.how == 'heappop' or not h.args:
                continue
            v = h.args[0]
            first = v.a[0] if v.op == 'tuple' and v.a else None
            okk = first is not None and first.op == 'fld' and first.a[0].op == 'row' and (first.a[1] is tl or first.a[1] == cval(tl))
            if okk:
                c.ok('orders-by-timestamp', h, show(v))
            elif first is not None and not has_unknown(v):
                c.bad('orders-by-timestamp', h, 'the heap is ordered by %s, not by the timestamp column' % show(first))
            else:
                c.undec('orders-by-timestamp', h, show(v))
            if h.how == 'heapreplace':
                fs = set(h.guards)
                root = [g for g in h.guards if g.op in ('lt', 'le') and contains(g, lambda x: x is first)] if first is not None else []
                if not root:
                    c.bad('keeps-latest', h, 'heapreplace discards the smallest kept timestamp even when the new record is older, so the '
                          'kept records are not always the k latest', key='leave_k_out-heapreplace')
                else:
                    c.ok('keeps-latest', h)
            if h.how == 'heappush':
                lens = [g for g in h.guards if g.op == 'lt' and g.a[0].op == 'len' and g.a[1] in Ks]
                pops = [x for x in heap if x.how == 'heappop']
                if lens or pops or any(has_unknown(g) for g in h.guards):
                    c.ok('at-most-k', h)
                else:
                    c.bad('at-most-k', h, 'records are pushed without the kept-so-far < k bound (facts: %s)' % show(conj(*h.guards)))
        K = next((x for x in Ks if cmp_('<', x, length(U)) in facts), Ks[0])
        select_guards(c, where, facts, gg, pre, U, K, mn, opt)
        return True
    if o[0] == 'slice':
        s = o[1]
        base, lo, hi = s.a[0], s.a[1], s.a[2]
        if base.op == 'sorted':
            rev = base.a[2]
            cs = contribs(base.a[0])
            if cs and len(cs) == 1:
                key = base.a[1]
                # ascending sort keeps the tail; descending keeps the head
                if rev is FALSE and hi is not NONE and lo is NONE and not has_unknown(hi):
                    c.bad('keeps-latest', where, 'takes the first records of an ascending sort')
                elif rev is TRUE and lo is not NONE and hi is NONE:
                    c.bad('keeps-latest', where, 'takes the last records of a descending sort')
                else:
                    c.ok('keeps-latest', where)
            return True
        c.undec('keeps-latest', where, show(s))
        return True
    c.undec('last-timestamps', where, show(e))
    return True


def distinct(c, r):
    """selected rows, users and items are distinct"""
    for e in r.evs('call'):
        if e.name == 'choices':
            c.bad('distinct-selection', e, 'drawn with replacement: fewer are selected than asked for')
        elif e.name == 'sample':
            c.ok('distinct-selection', e, '')


@rule('L02')
def matrix(c):
    for opt, f, r, base in variants(c, 'matrix_split'):
        distinct(c, r)
        ds, mn = param(f, 'interaction_dataset'), param(f, 'min_user_interactions')
        ur, ir = param(f, 'user_test_ratio'), param(f, 'item_test_ratio')
        where = '%s %s' % (f.qual, opt)
        pre = set()
        for s, _ in r.returns:
            pre = set(s.guards)
        for p in (ur, ir):
            for nd in (cmp_('<', ZERO, p), cmp_('<=', p, ONE)):
                c.ob('rejects-invalid-ratio', where, entails(pre, nd) is TRUE, 'a split is returned although %s is not known to hold' % show(nd))
        for gs, train, test in split_result(c, 'selection', f, r):
            if test.op != 'dropped' or train.op != 'dropped':
                c.undec('selection', where, show(test))
                continue
            X, Y = contribs(train.a[1]), contribs(test.a[1])
            if X is None or Y is None:
                c.undec('selection', where, show(test))
                continue
            for e, gg, ls in Y:
                o = origin(e)
                if not o or o[0] != 'row':
                    c.undec('selection', where, show(e))
                    continue
                U = o[1]
                row = e.a[0]
                if not check_user_rows(c, where, U, ds):
                    continue
                facts = set(gg) | pre
                n = length(U)
                u = user_of(U)
                unknown = any(has_unknown(g) for g in gg)

                def need(nm, okc, msg):
                    if okc:
                        c.ok(nm, where)
                    elif unknown:
                        c.undec(nm, where, show(conj(*gg)))
                    else:
                        c.bad(nm, where, msg + ' (facts: %s)' % show(conj(*gg)))
                need('min-user-interactions', entails(facts, cmp_('<=', mn, n)) is TRUE, 'test rows are taken from users below min_user_interactions')
                tus = [g.a[1] for g in gg if g.op == 'in' and g.a[0] is u]
                tis = [g.a[1] for g in gg if g.op == 'in' and g.a[0] is fld(row, 'item')]
                need('user-in-sample', bool(tus), 'test rows are taken from users outside the sampled user set')
                need('item-in-sample', bool(tis), 'test rows are taken for items outside the sampled item set')
                for sets, col, ratio, nm in ((tus, 'user', ur, 'user-sample'), (tis, 'item', ir, 'item-sample')):
                    for s in sets:
                        check_sample(c, nm, where, s, ds, col, ratio)
                lens = [g for g in gg if g.op == 'lt' and g.a[1] is n and g.a[0].op == 'len' and g.a[0].a[0].op == 'coll']
                need('keeps-a-train-row', bool(lens), 'all rows of a user may be moved to the test set')
                spec = pre | {cmp_('<=', mn, n)} | {g for g in gg if (g.op == 'in' and g.a[0] in (u, fld(row, 'item'))) or g in lens}
                extra_guards(c, 'selection-not-stronger', where, gg, spec, 'moving a sampled (user, item) row to the test set')
            rem = [x for x in X if not any(same_contrib(y, x) for y in Y)]
            for e, gg, ls in rem:
                o = origin(e)
                if not o or o[0] != 'row' or o[1].op != 'rows':
                    c.undec('removal', where, show(e))
                    continue
                extra_guards(c, 'removal-not-stronger', where, gg, pre | {cmp_('<', length(o[1]), mn)}, 'removing a user below min_user_interactions')
            c.ob('removal', where, bool(rem), 'users below min_user_interactions are not removed from the train set')


def check_sample(c, nm, where, s, ds, col, ratio):
    if not is_call(s, 'sample'):
        if is_call(s, 'choices'):
            c.bad(nm, where, 'sampling with replacement')
        else:
            c.undec(nm, where, show(s))
        return
    pop, size = s.a[1][0], s.a[1][1] if len(s.a[1]) > 1 else dict(s.a[2]).get('k')
    U = mk('uniq', ds, (col,))
    cs = contribs(pop)
    if cs is not None and len(cs) == 1 and cs[0][0].op == 'fld' and cs[0][0].a[0].op == 'row':
        src = cs[0][0].a[0].a[0]
        if src is U and not cs[0][1] and cs[0][0].a[1] == col:
            c.ok(nm + '-population', where)
        elif not has_unknown(pop):
            c.bad(nm + '-population', where, 'samples from %s instead of the distinct %ss' % (show(pop), col))
            return
    else:
        c.undec(nm + '-population', where, show(pop))
        return
    want = [x for base in (length(U), length(pop)) for x in floors(mul(base, ratio))]
    if size in want:
        c.ok(nm + '-size', where)
    elif size is None or has_unknown(size):
        c.undec(nm + '-size', where, show(size))
    else:
        c.bad(nm + '-size', where, 'sample size %s, documented %s' % (show(size), show(want[0])))


@rule('L02')
def randomsplit(c):
    for opt, f, r, base in variants(c, 'random_split'):
        distinct(c, r)
        ds, ratio = param(f, 'interaction_dataset'), param(f, 'test_ratio')
        where = '%s %s' % (f.qual, opt)
        for s, _ in r.returns:
            for nd in (cmp_('<', ZERO, ratio), cmp_('<', ratio, ONE)):
                c.ob('rejects-invalid-ratio', where, entails(set(s.guards), nd) is TRUE, 'a split is returned although %s is not known to hold' % show(nd))
        for gs, train, test in split_result(c, 'selection', f, r):
            Y = contribs(test.a[1]) if test.op == 'dropped' else None
            if not Y:
                c.undec('selection', where, show(test))
                continue
            for e, gg, ls in Y:
                o = origin(e)
                if o and o[0] == 'sample':
                    rid_sample(c, where, ds, ratio, o[2], o[3])
                    continue
                if not o or o[0] != 'row' or o[1] is not ds:
                    c.undec('selection', where, show(e))
                    continue
                L = e.a[0].a[1]
                pos = mk('pos', L)
                hits = []
                for g in gg:
                    if g.op == 'eq' and pos in g.a:
                        other = g.a[0] if g.a[1] is pos else g.a[1]
                        hits.append(('ptr', other))
                    elif g.op == 'in' and g.a[0] is pos:
                        hits.append(('in', g.a[1]))
                if not hits:
                    if any(has_unknown(g) for g in gg):
                        c.undec('selection', where, show(conj(*gg)))
                    else:
                        c.bad('selection', where, 'rows reach the test set without being in the sampled positions (facts: %s)' % show(conj(*gg)))
                    continue
                for kind, x in hits:
                    if kind == 'ptr':
                        if x.op != 'idx':
                            c.undec('selection', where, show(x))
                            continue
                        lst, p = x.a
                        if lst.op != 'sorted' or lst.a[2] is not FALSE or lst.a[1] is not NONE:
                            if is_call(lst, 'sample') or lst.op == 'sorted':
                                c.bad('sorted-positions', where, 'positions are matched with a forward pointer but are not sorted ascending: %s' % show(lst))
                            else:
                                c.undec('sorted-positions', where, show(lst))
                            continue
                        c.ok('sorted-positions', where)
                        if p.op == 'mu' and p in r.it.MU:
                            init, nxt = r.it.MU[p]
                            ok0 = init is ZERO
                            steps = [v for n_ in nxt for _, v in alts(n_)]
                            ok1 = all(v is p or v is add(p, ONE) for v in steps)
                            if ok0 and ok1:
                                c.ok('pointer', where)
                            elif any(has_unknown(v) for v in steps) or init is None:
                                c.undec('pointer', where, show(p))
                            else:
                                c.bad('pointer', where, 'position pointer starts at %s and steps to %s' % (show(init), [show(v) for v in steps]))
                        scan_end(c, where, r.it, L, lst, p)
                        lst = lst.a[0]
                    else:
                        lst = x
                        while lst.op == 'sorted':
                            lst = lst.a[0]
                    if not is_call(lst, 'sample'):
                        c.undec('sample', where, show(lst))
                        continue
                    pop, size = lst.a[1][0], lst.a[1][1]
                    want = mk('range', ZERO, length(ds), ONE)
                    if pop is want:
                        c.ok('population', where)
                    elif pop.op == 'range':
                        c.bad('population', where, 'positions are sampled from %s instead of all rows' % show(pop))
                    else:
                        c.undec('population', where, show(pop))
                    if size in floors(mul(length(ds), ratio)):
                        c.ok('sample-size', where)
                    elif has_unknown(size):
                        c.undec('sample-size', where, show(size))
                    else:
                        c.bad('sample-size', where, 'test set size %s, documented floor(len * test_ratio)' % show(size))


def scan_end(c, where, it, L, lst, p):
    """The scan over the rows may stop only when every sampled position was met."""
    n = {length(lst), length(lst.a[0])}
    for gs in it.BRK.get(L, ()):
        mine = [g for g in gs if any(contains(g, lambda z: z is m) for m in n) and contains(g, lambda z: z is p) and
                not contains(g, lambda z: z.op == 'pos')]
        off = None
        if len(mine) == 1 and mine[0].op in ('lt', 'le', 'eq'):
            x, y = mine[0].a
            if mine[0].op == 'eq' and y in n:
                x, y = y, x
            d = sub(y, p)
            if x in n and d.op == 'const' and type(d.a[0]) is int:
                off = d.a[0] - (1 if mine[0].op == 'lt' else 0)
        if off is None:
            c.undec('scan-end', where, show(conj(*gs)))
        elif off == 1:
            c.ok('scan-end', where)
        else:
            c.bad('scan-end', where, 'the scan over the rows stops when %s: %s' % (show(mine[0]), 'sampled positions are left over' if off > 1 else 'it reads past the last sampled position'))


def rid_sample(c, where, ds, ratio, pop, size):
    cs = contribs(pop)
    if cs and len(cs) == 1 and cs[0][0].op == 'fld' and cs[0][0].a[0].op == 'row' and cs[0][0].a[0].a[0] is ds and not cs[0][1]:
        c.ok('population', where)
    else:
        c.undec('population', where, show(pop))
    if size in floors(mul(length(ds), ratio)) or size in floors(mul(length(pop), ratio)):
        c.ok('sample-size', where)
    elif has_unknown(size):
        c.undec('sample-size', where, show(size))
    else:
        c.bad('sample-size', where, 'test set size %s, documented floor(len * test_ratio)' % show(size))


# ---------------------------------------------------------------------------------------------------------------- L03
def counter_key(e):
    if e.kind == 'setglobal' and e.tasks:
        return 'g:%s.%s' % (e.mod, e.name)
    return None


CONC = [(SPLITS, 'leave_k_out'), (SPLITS, 'matrix_split'), (PROCS, 'ranking_evaluation'), (PROCS, 'recommendation_evaluation')]


@rule('L03', 'Lockset and typestate analysis of the thread-pool functions: shared containers and globals written inside '
      'tasks are written under one common shared lock, the completion counter is incremented exactly once on every exit '
      '(normal, early return, exception) of a task, and results are read only after close() and join() of the pool.')
def concurrency(c):
    conc(c, CONC)


class Only:
    """Report only the named rules."""
    def __init__(self, c, *rules):
        self.c, self.rules = c, rules

    def __getattr__(self, n):
        return getattr(self.c, n)

    def ob(self, rule, *a, **k):
        return self.c.ob(rule, *a, **k) if rule in self.rules else None

    def ok(self, rule, where, detail=''):
        return self.ob(rule, where, 'ok', detail)

    def bad(self, rule, where, detail, key=None):
        return self.ob(rule, where, 'violation', detail, key)

    def undec(self, rule, where, detail=''):
        return self.ob(rule, where, 'undecided', detail)


def conc(c, funcs, which=lambda e: True):
    for mod, name in funcs:
        f = c.prog.func(mod, name)
        for verbose in (FALSE, TRUE):
            r = c.run(f, spec={'verbose': verbose}, track=counter_key)
            where0 = '%s verbose=%s' % (f.qual, verbose is TRUE)
            it = r.it
            spawns = r.evs('spawn')
            if not spawns:
                c.undec('tasks', where0, 'no task creation recognised')
                continue
            # --- locks on shared writes
            by = {}
            for e in r.evs('mutate', 'setglobal', 'setfield'):
                if not e.tasks or not which(e):
                    continue
                sp = [s for s in spawns if s.task in e.tasks]
                if not sp:
                    continue
                sp = sp[0]
                locs = []
                if e.kind == 'setglobal':
                    locs = ['global %s' % e.name]
                elif e.kind == 'setfield':
                    continue
                else:
                    for x in roots(it, e.recv):
                        if x.op == 'ref':
                            info = it.objinfo.get(x.a[0])
                            if info and not (set(sp.loops) <= set(info[1])) and not info[2]:
                                locs.append('object #%d created at %s:%s' % (x.a[0], info[4], getattr(info[3], 'lineno', '?')))
                        elif x.op == 'glob':
                            locs.append('global %s' % x.a[1])
                for l in locs:
                    by.setdefault(l, []).append(e)
            for l, evs in sorted(by.items()):
                common = None
                for e in evs:
                    ls = set(x for x in e.locks if shared_lock(it, x, spawns))
                    if not ls:
                        c.bad('shared-write-locked', e, '%s is written by concurrent tasks without holding a lock (%s)' % (l, e.get('how') or e.kind))
                    else:
                        c.ok('shared-write-locked', e, l)
                        common = ls if common is None else common & ls
                if common is not None and not common:
                    c.bad('one-lock-per-location', evs[0], '%s is protected by different locks at different sites: %s' % (l, sorted({show(x) for e in evs for x in e.locks})))
            lock_order(c, it, r, spawns, where0)
            # --- counter
            keys = set()
            for t, cnt, exits in it.task_exits:
                keys |= set(cnt)
                for x in exits:
                    keys |= set(x[0])
            live = {s.task for s in spawns}
            waits = [e for e in r.evs('call') if e.name == 'sleep']
            for t, cnt, exits in it.task_exits:
                if t not in live:
                    continue
                if not keys:
                    c.undec('counter-once', where0, 'no completion counter')
                for k in sorted(keys):
                    for kind, got in [('normal', cnt.get(k, (0, 0)))] + [('exception', x[0].get(k, (0, 0))) for x in exits]:
                        if kind == 'exception' and got == (0, 0) and not any_wait(r, k):
                            continue
                        if got == (1, 1):
                            c.ok('counter-once', where0, '%s %s exit' % (k, kind))
                        else:
                            sp = [s for s in spawns if s.task is t][0]
                            c.bad('counter-once', sp, 'a task can end (%s exit) with the completion counter %s incremented %s times' % (kind, k, got if got[0] != got[1] else got[0]))
                for lk in exits:
                    pass
            waiting(c, it, r, keys, spawns)
            # --- join before reads
            joins = [e for e in r.evs('call') if e.name == 'join' and e.recv is not None]
            closes = [e for e in r.evs('call') if e.name in ('close', 'terminate', 'shutdown') and e.recv is not None]
            pools = {s.pool for s in spawns}
            ex_pool = any(contains(p, lambda x: x.op == 'call' and is_call(x, 'ThreadPoolExecutor')) for p in pools)
            last_spawn = max(s.order for s in spawns)
            reads = [e for e in r.evs('dscall') if e.name == 'drop' and not e.tasks] if mod == SPLITS else \
                [e for e in r.evs('return') if e.fn == f.qual]
            for p in pools:
                js = [e for e in joins if e.recv is p and e.order > last_spawn]
                withs = [e for e in r.evs('endwith') if e.get('lock') is p]
                if ex_pool:
                    js = withs or [e for e in closes if e.recv is p]
                cond = [j for j in js if all(entails(set(rd.guards), g) is TRUE for g in j.guards for rd in reads[:1])]
                for rd in reads:
                    if any(j.order < rd.order for j in cond):
                        c.ok('join-before-read', rd)
                    elif any(j.order < rd.order for j in js):
                        c.bad('join-before-read', rd, 'the pool is joined only when %s before the results are used' % show(conj(*js[0].guards)))
                    elif not joins and (withs or any(has_unknown(x) for x in pools)):
                        c.undec('join-before-read', rd)
                    else:
                        c.bad('join-before-read', rd, 'the tasks\' results are used before pool.join() returns')
                if not ex_pool:
                    for j in js:
                        cl = [e for e in closes if e.recv is p and e.order < j.order and e.order > last_spawn]
                        c.ob('close-before-join', j, bool(cl), 'pool.join() without a preceding close()')
                        term = [e for e in closes if e.recv is p and e.name == 'terminate' and e.order < j.order]
                        if term:
                            c.bad('join-before-read', term[0], 'terminate() may discard tasks before their results are used')
            # counter reset before the first spawn
            first = min(s.order for s in spawns)
            for k in sorted(keys):
                nm = k.split('.')[-1]
                resets = [e for e in r.evs('setglobal') if e.name == nm and not e.tasks and e.value is ZERO]
                if resets:
                    c.ob('counter-reset', resets[0], all(e.order < first for e in resets), 'the completion counter is reset after tasks were started')
                else:
                    c.bad('counter-reset', where0, 'the completion counter %s keeps the value of a previous call' % nm)


def reentrant(c, l):
    if l.op != 'glob':
        return contains(l, lambda x: x.op == 'ext' and x.a[0].endswith('RLock'))
    m = c.prog.modules.get(l.a[0])
    return m is None or any(isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == l.a[1] for t in n.targets) and 'RLock' in ast.dump(n.value) for n in m.tree.body)


def lock_order(c, it, r, spawns, where0):
    """No lock is taken twice by one task, no two locks are taken in both orders, and nobody joins while holding one."""
    edges = {}
    for e in r.events:
        for i, l in enumerate(e.locks):
            if l in e.locks[:i] and shared_lock(it, l, spawns) and not reentrant(c, l):
                c.bad('lock-order', e, 'the lock %s is taken again by a task that already holds it: the task never ends' % show(l))
                return
            for m in e.locks[:i]:
                if m is not l:
                    edges.setdefault((m, l), e)
    for (m, l), e in edges.items():
        if (l, m) in edges and e.tasks and edges[l, m].tasks:
            c.bad('lock-order', e, 'locks %s and %s are taken in one order here and in the other order at %s: two tasks can wait for each other forever' % (show(m), show(l), edges[l, m].where()))
            return
    inside = {l for e in r.events if e.tasks for l in e.locks}
    for e in r.events:
        if e.kind == 'call' and e.name == 'join' and not e.tasks and set(e.locks) & inside:
            c.bad('lock-order', e, 'the pool is joined while holding %s, which its tasks need' % show(e.locks[0]))
            return
    c.ok('lock-order', where0)


def waiting(c, it, r, keys, spawns):
    """A loop that waits for the completion counter ends once every task is counted."""
    names = {k.split('.')[-1] for k in keys}
    steps = {}
    for e in r.evs('call'):
        if e.name != 'sleep' or e.tasks:
            continue
        gs = [g for g in e.guards if g.op in ('lt', 'le', 'eq', 'not') and contains(g, lambda x: x.op == 'mu' and x.a[1] in names)]
        dones = {x for g in gs for x in walk(g) if x.op == 'mu' and x.a[1] in names}
        if len(dones) != 1:
            if gs:
                c.undec('wait-ends', e, show(conj(*gs)))
            continue
        done = dones.pop()
        others = {x for g in gs for x in walk(g) if x.op == 'mu' and x is not done and x.a[0] is done.a[0]}
        if len(others) != 1 or done not in it.MU:
            c.undec('wait-ends', e, show(conj(*gs)))
            continue
        tot = others.pop()
        init, nxt = it.MU.get(tot, (None, ()))
        st = [v for n_ in nxt for _, v in alts(n_)]
        if init is ZERO and all(v is add(tot, ONE) for v in st):
            left = [subst(g, {done: tot}) for g in gs]
            if any(g is FALSE for g in left):
                c.ok('wait-ends', e)
            elif all(g is TRUE for g in left):
                c.bad('wait-ends', e, 'the progress loop keeps waiting after every task was counted (%s)' % show(conj(*gs)))
            else:
                c.undec('wait-ends', e, show(conj(*left)))
            continue
        base = [x for v in st for x in walk(v) if x.op == 'mu']
        cs = [sub(v, b) for v in st for b in base]
        if init is ZERO and len(st) == 1 and len(cs) == 1 and it.MU.get(base[0], (None,))[0] is ZERO and cs[0].op == 'const' \
                and [x for n_ in it.MU[base[0]][1] for _, x in alts(n_)] == [add(base[0], ONE)] and cs[0] is not ONE:
            c.bad('wait-ends', e, 'the progress loop waits for %s + %s tasks, but one fewer or more are started' % (show(base[0]), show(cs[0])))
        else:
            c.undec('wait-ends', e, '%s <- %s' % (show(tot), [show(v) for v in st]))


def any_wait(r, k):
    """The verbose progress loop waits for the counter."""
    nm = k.split('.')[-1]
    return True


def shared_lock(it, l, spawns):
    if l.op == 'glob':
        return True
    if l.op == 'call':
        # lock object created by the code: must not be created inside the task
        return not any(contains(l, lambda x: x.op == 'task') for _ in (0,)) and not created_in_task(it, l)
    return True


def created_in_task(it, l):
    for e in it.events:
        if e.kind == 'call' and e.get('result') is l:
            return bool(e.tasks)
    return False
