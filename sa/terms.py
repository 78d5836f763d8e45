"""Hash-consed value terms with canonicalisation (the value-numbering domain of the analysis)."""
import re
import itertools


class T:
    __slots__ = ('op', 'a', 'n', 'depth', '__weakref__')

    def __repr__(self):
        return show(self)


_tab = {}
_ctr = itertools.count()


def mk(op, *a):
    key = (op, a)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op, t.a, t.n = op, a, next(_ctr)
        t.depth = 1 + max([_depth(x) for x in a] or [0])
        _tab[key] = t
    return t


def _depth(x):
    if isinstance(x, T):
        return x.depth
    if isinstance(x, tuple):
        return max([_depth(y) for y in x] or [0])
    return 0


def const(v):
    return mk('const', v, type(v).__name__)


NONE, TRUE, FALSE = const(None), const(True), const(False)
ZERO, ONE = const(0), const(1)


def is_const(t, *vals):
    if not isinstance(t, T) or t.op != 'const':
        return False
    return not vals or any(t.a[0] == v and type(t.a[0]) is type(v) for v in vals)


def cval(t):
    return t.a[0] if isinstance(t, T) and t.op == 'const' else None


_fresh = itertools.count()


def unk(why=''):
    return mk('unk', next(_fresh), why)


# ---- display ---------------------------------------------------------------------------------------------------------
def show(t, d=0):
    if d > 7:
        return '…'
    if isinstance(t, tuple):
        return '(' + ', '.join(show(x, d + 1) for x in t) + ')'
    if not isinstance(t, T):
        return str(t)
    o, a = t.op, t.a
    s = lambda x: show(x, d + 1)
    if o == 'const':
        return repr(a[0])
    if o == 'param':
        return a[-1]
    if o == 'self':
        return 'self'
    if o == 'attr':
        return s(a[0]) + '.' + a[1]
    if o == 'idx':
        return '%s[%s]' % (s(a[0]), s(a[1]))
    if o == 'slice':
        return '%s[%s:%s%s]' % (s(a[0]), '' if a[1] is NONE else s(a[1]), '' if a[2] is NONE else s(a[2]), '' if a[3] is NONE else ':' + s(a[3]))
    if o == 'call':
        return '%s(%s)' % (s(a[0]), ', '.join([s(x) for x in a[1]] + ['%s=%s' % (k, s(v)) for k, v in a[2]]))
    if o == 'ext':
        return a[0]
    if o in ('lt', 'le', 'eq', 'in', 'add', 'sub', 'mul', 'div', 'floordiv', 'mod', 'pow', 'band', 'bor'):
        sym = {'lt': '<', 'le': '<=', 'eq': '==', 'in': 'in', 'add': '+', 'sub': '-', 'mul': '*', 'div': '/', 'floordiv': '//', 'mod': '%', 'pow': '**', 'band': '&', 'bor': '|'}[o]
        return '(%s %s %s)' % (s(a[0]), sym, s(a[1]))
    if o == 'not':
        return 'not ' + s(a[0])
    if o in ('and', 'or'):
        return '(' + (' %s ' % o).join(s(x) for x in a) + ')'
    if o == 'sqltext':
        return 'SQL"' + ' '.join(x if isinstance(x, str) else '{' + s(x[0]) + (x[1] or '') + '}' for x in a[0]) + '"'
    if o == 'str':
        return 'f"' + ''.join(x if isinstance(x, str) else '{' + s(x[0]) + (x[1] or '') + '}' for x in a[0]) + '"'
    if o == 'alt':
        return 'alt{' + '; '.join('%s: %s' % (' & '.join(s(g) for g in gs) or '-', s(v)) for gs, v in a[0]) + '}'
    if o == 'fld':
        return '%s.%s' % (s(a[0]), a[1] if isinstance(a[1], str) else s(a[1]))
    if o == 'lin':
        return '(' + ' + '.join([('%s*%s' % (c, s(x)) if c != 1 else s(x)) for x, c in a[1]] + ([repr(a[0])] if a[0] else [])) + ')'
    return '%s(%s)' % (o, ', '.join(s(x) for x in a))


# ---- structure -------------------------------------------------------------------------------------------------------
def kids(t):
    for x in t.a:
        yield from _kids(x)


def _kids(x):
    if isinstance(x, T):
        yield x
    elif isinstance(x, tuple):
        for y in x:
            yield from _kids(y)


def walk(t, seen=None):
    """All distinct sub-terms."""
    seen = set() if seen is None else seen
    todo = [t]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        todo.extend(kids(x))


def contains(t, pred):
    return any(pred(x) for x in walk(t))


def rebuild(t, f, memo=None, stop=None):
    """Bottom-up rewriting with re-canonicalisation: f(T) -> T or None."""
    memo = {} if memo is None else memo

    def go(x):
        if isinstance(x, T):
            if x in memo:
                return memo[x]
            memo[x] = x
            if stop is not None and (x.op == stop or isinstance(stop, tuple) and x.op in stop):
                return x
            na = tuple(go(y) for y in x.a)
            y = make(x.op, na) if na != x.a else x
            r = f(y)
            r = y if r is None else r
            memo[x] = r
            return r
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        return x
    return go(t)


def make(op, a):
    """Re-run the canonicalising constructor of op."""
    c = _CONS.get(op)
    return c(*a) if c else mk(op, *a)


def subst(t, m):
    return rebuild(t, lambda x: m.get(x))


# ---- booleans --------------------------------------------------------------------------------------------------------
BOOL_OPS = {'done', 'lt', 'le', 'eq', 'in', 'not', 'and', 'or', 'isnone', 'nonempty', 'truthy', 'isa'}


def either(t, op, f):
    """a condition on one of several alternatives; one without a condition of its own (a loop that may end in two ways) decides nothing"""
    bs = [(gs, f(v)) for gs, v in t.a[0]]
    if len({b for _, b in bs}) > 1 and any(not gs for gs, _ in bs):
        return mk(op, t)
    return disj(*[conj(*(gs + (b,))) for gs, b in bs])


def truth(t):
    """Truth value of a value term as a condition term."""
    if t.op == 'const':
        return TRUE if t.a[0] else FALSE
    if t.op in BOOL_OPS:
        return t
    if t.op == 'alt':
        return either(t, 'truthy', truth)
    if t.op in ('len', 'coll', 'rows', 'vals', 'uniq', 'dropped'):
        return nonempty(t.a[0]) if t.op == 'len' else nonempty(t)
    if t.op == 'tuple':
        return TRUE if t.a else FALSE
    if t.op in ('closure', 'class', 'bound', 'inst'):
        return TRUE
    if t.op == 'one':
        return nonempty(t.a[0])
    if listy(t) or t.op == 'idx' and t.a[0].op == 'clsattr' or t.op == 'clsattr' and t.a[1] in COLLATTRS:
        return nonempty(t)
    if t.op == 'str':
        if any(isinstance(x, str) and x for x in t.a[0]):
            return TRUE
    if t.op == 'lin' and t.a[0] > 0 and all(x.op in ('pos', 'len') and k > 0 for x, k in t.a[1]):
        return TRUE
    return mk('truthy', t)


COLLATTRS = set()       # class-level collections
LISTY = {'sample', 'choices', 'sorted', 'values_list', 'list', 'tolist', 'split', 'fetchall', 'set'}


def listy(t):
    """Value known to be a list / set (truthiness is non-emptiness)."""
    if t.op in ('sorted', 'slice', 'setorder', 'reversed'):
        return True
    if t.op == 'call':
        f = t.a[0]
        n = f.a[0].split('.')[-1] if f.op == 'ext' else f.a[1] if f.op == 'attr' else ''
        return n in LISTY
    return False


_m_neg = {}


def neg(c):
    r = _m_neg.get(c)
    if r is None:
        r = _m_neg[c] = _neg(c)
    return r


def _neg(c):
    o, a = c.op, c.a
    if o == 'const':
        return FALSE if a[0] else TRUE
    if o == 'not':
        return a[0]
    if o == 'lt':
        return mk('le', a[1], a[0])
    if o == 'le':
        return mk('lt', a[1], a[0])
    if o == 'and':
        return disj(*[neg(x) for x in a])
    if o == 'or':
        return conj(*[neg(x) for x in a])
    return mk('not', c)


_m_conj = {}


def conj(*cs):
    r = _m_conj.get(cs)
    if r is None:
        r = _m_conj[cs] = _conj(*cs)
    return r


def _conj(*cs):
    out = []
    for c in cs:
        if c is TRUE:
            continue
        if c is FALSE:
            return FALSE
        for x in (c.a if c.op == 'and' else (c,)):
            if x not in out:
                out.append(x)
    s = set(out)
    if any(neg(x) in s for x in out):
        return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk('and', *sorted(out, key=lambda x: x.n))


_m_disj = {}


def disj(*cs):
    r = _m_disj.get(cs)
    if r is None:
        r = _m_disj[cs] = _disj(*cs)
    return r


def _disj(*cs):
    out = []
    for c in cs:
        if c is FALSE:
            continue
        if c is TRUE:
            return TRUE
        for x in (c.a if c.op == 'or' else (c,)):
            if x not in out:
                out.append(x)
    s = set(out)
    if any(neg(x) in s for x in out):
        return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    # factor common conjuncts: (a&b)|(a&c) -> a&(b|c) ; absorption
    sets = [set(x.a) if x.op == 'and' else {x} for x in out]
    common = set.intersection(*sets)
    if common:
        rest = disj(*[conj(*sorted(z - common, key=lambda x: x.n)) for z in sets])
        return conj(*sorted(common, key=lambda x: x.n), rest)
    # a | (not a & b) -> a | b
    changed = False
    for i, x in enumerate(out):
        if x.op == 'and':
            kept = [y for y in x.a if not any(neg(y) is z for j, z in enumerate(out) if j != i)]
            if len(kept) != len(x.a):
                out[i] = conj(*kept)
                changed = True
    if changed:
        return disj(*out)
    if 3 <= len(out) <= 12 and sum(x.op == 'and' for x in out) >= 2:
        b = blake([frozenset(x.a) if x.op == 'and' else frozenset((x,)) for x in out])
        if b is not None:
            return disj(*[conj(*sorted(z, key=lambda x: x.n)) for z in b])
    return mk('or', *sorted(out, key=lambda x: x.n))


def blake(work):
    """prime implicants of a sum of products (consensus and absorption); None if already in that form or too large"""
    start = set(work)
    cur = set(work)
    while True:
        cur = {a for a in cur if not any(b < a for b in cur)}
        new = set()
        for a in cur:
            for b in cur:
                opp = [x for x in a if neg(x) in b]
                if len(opp) == 1:
                    c = (a - {opp[0]}) | (b - {neg(opp[0])})
                    if not any(d <= c for d in cur) and not any(neg(x) in c for x in c):
                        new.add(c)
        if not new:
            break
        cur |= new
        if len(cur) > 24:
            return None
    if cur == start:
        return None
    if frozenset() in cur:
        return [frozenset()]
    return sorted(cur, key=lambda z: sorted(x.n for x in z))


def isnone(t):
    o = t.op
    if o == 'const':
        return TRUE if t.a[0] is None else FALSE
    if o == 'alt':
        return either(t, 'isnone', isnone)
    if o in ('ref', 'tuple', 'str', 'lin', 'add', 'sub', 'mul', 'div', 'coll', 'closure', 'class', 'len', 'rows', 'vals',
             'uniq', 'slice', 'row', 'dropped', 'range', 'zip', 'enum', 'setorder', 'self', 'band', 'bor') or o in BOOL_OPS:
        return FALSE
    if o == 'call':
        f = t.a[0]
        n = f.a[0].split('.')[-1] if f.op == 'ext' else f.a[1] if f.op == 'attr' else ''
        if n in ('randint', 'uniform', 'sample', 'random', 'randrange', 'sorted') or (f.op == 'ext' and f.a[0] in ('builtins.int', 'builtins.float', 'builtins.round', 'builtins.abs', 'math.floor', 'math.sqrt', 'math.log2')):
            return FALSE
    if o == 'one':
        return neg(nonempty(t.a[0]))
    if o == 'fld' and t.a[0].op == 'one':
        return neg(nonempty(t.a[0].a[0]))
    return mk('isnone', t)


def nonempty(t):
    if t.op == 'vals':
        return nonempty(t.a[0])
    if t.op == 'uniq':
        return nonempty(t.a[0])
    if t.op == 'coll':
        cs = t.a[1]
        if not cs:
            return FALSE
        if any(not c[1] and not c[2] for c in cs):
            return TRUE
        if len(cs) == 1 and cs[0][0] is not None and not cs[0][1] and len(cs[0][2]) == 1:
            src = loop_src(cs[0][2][0])
            if src is not None:
                return nonempty(src)
    if t.op == 'alt':
        return disj(*[conj(*(gs + (nonempty(v),))) for gs, v in t.a[0]])
    if t.op == 'const' and isinstance(t.a[0], str):
        return TRUE if t.a[0] else FALSE
    if t.op == 'tuple':
        return TRUE if t.a else FALSE
    return mk('nonempty', t)


LOOP_SRC = {}      # loop id term -> iterated source term


def loop_src(lid):
    return LOOP_SRC.get(lid)


def length(t):
    if t.op == 'vals':
        return length(t.a[0])
    if t.op == 'const' and isinstance(t.a[0], (str, tuple)):
        return const(len(t.a[0]))
    if t.op == 'tuple':
        return const(len(t.a))
    if t.op == 'coll':
        cs = t.a[1]
        if all(c[0] is not None and not c[1] and not c[2] for c in cs) and t.a[0] != 'set':
            return const(len(cs))
        if t.a[0] == 'list' and len(cs) == 1 and cs[0][0] is not None and not cs[0][1] and len(cs[0][2]) == 1:
            src = loop_src(cs[0][2][0])
            if src is not None:
                return length(src)
    if t.op == 'sorted':
        return length(t.a[0])
    return mk('len', t)


def cmp_(op, a, b):
    """op in < <= > >= == !="""
    if op == '>':
        return cmp_('<', b, a)
    if op == '>=':
        return cmp_('<=', b, a)
    if op == '!=':
        return neg(cmp_('==', a, b))
    # distribute over small alternatives of constants
    for x, y, flip in ((a, b, False), (b, a, True)):
        if x.op == 'alt' and len(x.a[0]) <= 6:
            parts = []
            for gs, v in x.a[0]:
                c = cmp_(op, y, v) if flip else cmp_(op, v, y)
                parts.append((gs, c))
            if any(c.op == 'const' for _, c in parts) or op == '==':
                return disj(*[conj(*(gs + (c,))) for gs, c in parts])
    if a.op == 'const' and b.op == 'const':
        try:
            r = {'<': lambda: a.a[0] < b.a[0], '<=': lambda: a.a[0] <= b.a[0], '==': lambda: a.a[0] == b.a[0]}[op]()
            return TRUE if r else FALSE
        except TypeError:
            pass
    if op == '==':
        if a is b:
            return TRUE
        for x, y in ((a, b), (b, a)):
            if x is NONE:
                return isnone(y)
            if x is TRUE and y.op in BOOL_OPS:
                return truth(y)
            if x is FALSE and y.op in BOOL_OPS:
                return neg(truth(y))
            if is_const(x, 0) and y.op == 'len':
                return neg(nonempty(y.a[0]))
            if is_const(x, '') and y.op == 'str':
                return neg(truth(y)) if truth(y).op == 'const' else mk('eq', *sorted((a, b), key=lambda z: z.n))
        la, lb = lin(a), lin(b)
        if la and lb and (a.op == 'lin' or b.op == 'lin'):
            d = lin_sub(la, lb)
            if not d[1]:
                return TRUE if d[0] == 0 else FALSE
        return mk('eq', *sorted((a, b), key=lambda z: z.n))
    # order
    if a is b:
        return FALSE if op == '<' else TRUE
    if op == '<' and is_const(a, 0) and b.op == 'len':
        return nonempty(b.a[0])
    if op == '<=' and is_const(a, 1) and b.op == 'len':
        return nonempty(b.a[0])
    if op == '<=' and a.op == 'len' and is_const(b, 0):
        return neg(nonempty(a.a[0]))
    if op == '<' and a.op == 'len' and is_const(b, 1):
        return neg(nonempty(a.a[0]))
    if op == '<=' and is_const(a, 0) and b.op == 'len':
        return TRUE
    if op == '<' and b.op == 'const' and is_const(b, 0) and a.op == 'len':
        return FALSE
    la, lb = lin(a), lin(b)
    if la and lb and (a.op == 'lin' or b.op == 'lin'):
        c, terms = lin_sub(lb, la)      # 0 op (b-a)
        if not terms:
            r = 0 < c if op == '<' else 0 <= c
            return TRUE if r else FALSE
        # integers: a < b + 1 is not folded (values may be real)
        pos = tuple((t, k) for t, k in terms if k > 0)
        ng = tuple((t, -k) for t, k in terms if k < 0)
        # keep constant on the right side
        left, right = lin_mk(0, ng), lin_mk(c, pos)
        if c and not pos and ng:
            right = const(c)
        if c < 0 and ng == ():
            left, right = const(-c), lin_mk(0, pos)
        return mk('lt' if op == '<' else 'le', left, right)
    return mk('lt' if op == '<' else 'le', a, b)


# ---- linear arithmetic -----------------------------------------------------------------------------------------------
def lin(t):
    if t.op == 'const' and type(t.a[0]) in (int, float):
        return (t.a[0], ())
    if t.op == 'lin':
        return (t.a[0], t.a[1])
    return (0, ((t, 1),))


def lin_mk(c, terms):
    terms = tuple(sorted(((t, k) for t, k in terms if k), key=lambda x: x[0].n))
    if not terms:
        return const(c)
    if c == 0 and len(terms) == 1 and terms[0][1] == 1:
        return terms[0][0]
    return mk('lin', c, terms)


def lin_sub(a, b):
    d = dict(a[1])
    for t, k in b[1]:
        d[t] = d.get(t, 0) - k
    return (a[0] - b[0], tuple(sorted(((t, k) for t, k in d.items() if k), key=lambda x: x[0].n)))


def lin_add(a, b):
    return lin_sub(a, (-b[0], tuple((t, -k) for t, k in b[1])))


NUMERIC = {'len', 'lin', 'mul', 'div', 'floordiv', 'pow', 'counter'}


def numeric(t):
    return t.op in NUMERIC or (t.op == 'const' and type(t.a[0]) in (int, float)) or t.op == 'mu' or \
        (t.op == 'alt' and all(numeric(v) for _, v in t.a[0]))


def add(a, b):
    if a.op == 'const' and b.op == 'const':
        try:
            return const(a.a[0] + b.a[0])
        except TypeError:
            return unk('add')
    if is_strish(a) or is_strish(b):
        if is_strish(a) and is_strish(b) or a.op == 'str' or b.op == 'str' or isinstance(cval(a), str) or isinstance(cval(b), str):
            return strcat(a, b)
    if numeric(a) or numeric(b):
        return lin_mk(*lin_add(lin(a), lin(b)))
    return mk('add', a, b)


def sub(a, b):
    if a.op == 'const' and b.op == 'const':
        try:
            return const(a.a[0] - b.a[0])
        except TypeError:
            return unk('sub')
    if a.op == 'coll' and a.a[0] == 'set':
        return mk('sub', a, b)
    return lin_mk(*lin_sub(lin(a), lin(b)))


def mul(a, b):
    for x, y in ((a, b), (b, a)):
        if x.op == 'const' and type(x.a[0]) in (int, float) and y.op != 'coll' and not is_strish(y):
            if y.op == 'const' and type(y.a[0]) in (int, float):
                return const(x.a[0] * y.a[0])
            c, ts = lin(y)
            return lin_mk(c * x.a[0], tuple((t, k * x.a[0]) for t, k in ts))
    if a.op == 'coll' or b.op == 'coll' or is_strish(a) or is_strish(b):
        return mk('mul', a, b)
    return mk('mul', *sorted((a, b), key=lambda z: z.n))


def binop(op, a, b):
    if op == 'add':
        return add(a, b)
    if op == 'sub':
        return sub(a, b)
    if op == 'mul':
        return mul(a, b)
    if a.op == 'const' and b.op == 'const' and op in ('div', 'floordiv', 'mod', 'pow') and not isinstance(a.a[0], str):
        try:
            x, y = a.a[0], b.a[0]
            return const({'div': lambda: x / y, 'floordiv': lambda: x // y, 'mod': lambda: x % y, 'pow': lambda: x ** y}[op]())
        except Exception:
            pass
    return mk(op, a, b)


# ---- strings ---------------------------------------------------------------------------------------------------------
STRFIELDS = {'_state_query', '_active_table', '_db_path'}


def is_strish(t):
    return t.op == 'str' or t.op == 'attr' and t.a[1] in STRFIELDS or isinstance(cval(t), str) or t.op == 'join' or \
        (t.op == 'alt' and all(is_strish(v) for _, v in t.a[0]))


def strtmpl(parts):
    out = []
    for p in parts:
        if isinstance(p, tuple):
            t, conv, spec = p
            if not conv and not spec:
                if isinstance(cval(t), str):
                    p = t.a[0]
                elif t.op == 'const' and type(t.a[0]) in (int, bool, type(None)):
                    p = str(t.a[0])
                elif t.op == 'str':
                    for q in t.a[0]:
                        _push(out, q)
                    continue
            elif conv == '!r' and t.op == 'const':
                p = repr(t.a[0])
        _push(out, p)
    if not out:
        return const('')
    if len(out) == 1 and isinstance(out[0], str):
        return const(out[0])
    if len(out) == 1 and not out[0][1] and not out[0][2] and out[0][0].op == 'attr' and out[0][0].a[1] in STRFIELDS:
        return out[0][0]
    return mk('str', tuple(out))


def _push(out, p):
    if isinstance(p, str):
        if not p:
            return
        if out and isinstance(out[-1], str):
            out[-1] += p
            return
    out.append(p)


def parts_of(t):
    if t.op == 'str':
        return list(t.a[0])
    if isinstance(cval(t), str):
        return [t.a[0]]
    return [(t, '', '')]


SQLHEAD = ('SELECT', 'UPDATE', 'DELETE', 'INSERT', 'CREATE', 'DROP', 'ALTER', 'REPLACE')
SQLWORDS = set('SELECT UPDATE DELETE INSERT CREATE DROP ALTER REPLACE FROM WHERE AND OR NOT IN INTO VALUES SET GROUP ORDER BY LIMIT DISTINCT '
               'COUNT MIN MAX AVG SUM ASC DESC TABLE INDEX ON IS NULL AS BEGIN END INTEGER REAL TEXT PRIMARY KEY EXISTS IF UNIQUE HAVING OFFSET '
               'UNION ALL JOIN LEFT INNER'.split())
_SQLTOK = re.compile(r"\s+|'(?:[^']|'')*'|\"[^\"]*\"|[A-Za-z_][A-Za-z_0-9]*|\d+(?:\.\d+)?|<=|>=|<>|!=|==|.")


def sqltext(parts):
    """token-level normal form of an SQL statement template; None when the text is not SQL"""
    toks = []
    glue = False
    for p in parts:
        if isinstance(p, str):
            for m in _SQLTOK.finditer(p):
                w = m.group(0)
                if w.isspace():
                    glue = False
                    continue
                if w.upper() in SQLWORDS:
                    w = w.upper()
                w = {'!=': '<>', '==': '='}.get(w, w)
                if w[:1] == '"' and len(w) > 2:
                    w = w[1:-1]
                if glue and m.start() == 0 and re.match(r'\w', w):
                    return None         # a name glued to a substituted part
                toks.append(w)
            glue = bool(p) and (p[-1].isalnum() or p[-1] == '_')
        else:
            if glue and toks and isinstance(toks[-1], str):
                t = toks.pop()
                p = (strcat(const(t), p[0]),) + tuple(p[1:]) if not p[1] and not p[2] else p
                if len(p) == 3 and p[0].op == 'const':
                    return None
            toks.append(p)
            glue = True
    while toks and toks[-1] == ';':
        toks.pop()
    out = []
    for t in toks:
        out.append(t)
        # DISTINCT(x) is DISTINCT x; (table) is table; COUNT(1) is COUNT(*)
        if t == ')' and len(out) >= 4 and out[-3] == '(':
            prev, mid = out[-4], out[-2]
            if prev == 'DISTINCT' or prev == 'FROM' and not isinstance(mid, str) and mid[0].op == 'attr' and mid[0].a[1] == '_active_table':
                out[-3:] = [mid]
            elif prev == 'COUNT' and mid == '1':
                out[-2] = '*'
    return mk('sqltext', tuple(out))


def mk_sqltext(toks):
    if any(not isinstance(t, str) and len(t) == 3 and (t[0].op in ('str', 'sqltext') or isinstance(cval(t[0]), str)) for t in toks):
        parts = []
        for t in toks:
            if isinstance(t, str):
                parts += [' ', t, ' ']
            elif t[0].op == 'sqltext' and not t[1]:
                for u in t[0].a[0]:
                    parts += [' ', u, ' ']
            else:
                parts += [' '] + (parts_of(t[0]) if not t[1] and not t[2] else [t]) + [' ']
        r = sqltext(parts)
        if r is not None:
            return r
    return mk('sqltext', tuple(toks))


def sqlcanon(t):
    def f(x):
        if isinstance(cval(x), str) and x.a[0].strip()[:8].upper().startswith(SQLHEAD) and ' ' in x.a[0].strip():
            return sqltext([x.a[0]])
        if x.op == 'str':
            h = x.a[0][0]
            if isinstance(h, str) and h.strip()[:8].upper().startswith(SQLHEAD) or \
                    not isinstance(h, str) and h[0].op == 'attr' and h[0].a[1] == '_state_query' and len(x.a[0]) > 1:
                return sqltext(x.a[0])
    return rebuild(t, f)


def strcat(a, b):
    return strtmpl(parts_of(a) + parts_of(b))


# ---- alternatives ----------------------------------------------------------------------------------------------------
def alt(branches):
    """branches: [(guards tuple, value)] mutually covering alternatives."""
    flat = []
    for gs, v in branches:
        if any(g is FALSE for g in gs):
            continue
        gs = tuple(g for g in gs if g is not TRUE)
        if v.op == 'alt':
            for gs2, v2 in v.a[0]:
                g = _merge_gs(gs, gs2)
                if g is not None:
                    flat.append((g, v2))
        else:
            flat.append((gs, v))
    if not flat:
        return unk('noalt')
    vals = []
    for _, v in flat:
        if v not in vals:
            vals.append(v)
    if len(vals) == 1:
        return vals[0]
    # merge alternatives with the same value
    out = []
    for v in vals:
        gss = [gs for gs, w in flat if w is v]
        if len(gss) == 1:
            out.append((gss[0], v))
        else:
            d = disj(*[conj(*gs) for gs in gss])
            out.append((tuple(d.a) if d.op == 'and' else (() if d is TRUE else (d,)), v))
    if len(out) == 2 and {out[0][1], out[1][1]} == {TRUE, FALSE}:
        t = out[0] if out[0][1] is TRUE else out[1]
        f = out[1] if out[0][1] is TRUE else out[0]
        c = conj(*t[0])
        if neg(c) is conj(*f[0]):
            return c
    if len(out) == 2:
        m = _minmax(out) or _converted(out)
        if m is not None:
            return m
    if len(out) > 24:
        return mk('any', tuple(sorted(set(v for _, v in out), key=lambda x: x.n)))
    return mk('alt', tuple(out))


def _minmax(out):
    (g1, a), (g2, b) = out
    if len(g1) != 1 or len(g2) != 1 or g1[0].op not in ('lt', 'le') or neg(g1[0]) is not g2[0]:
        return None
    if set(g1[0].a) != {a, b}:
        return None
    # value a is chosen when g1
    small = g1[0].a[0] is a
    return mk('minof' if small else 'maxof', *sorted((a, b), key=lambda z: z.n))


def _merge_gs(a, b):
    s = set(a)
    out = list(a)
    for g in b:
        if neg(g) in s:
            return None
        if g not in s:
            out.append(g)
            s.add(g)
    return tuple(out)


def _converted(out):
    """x as it is when it already is a C, else C(x): converting always gives an equal value"""
    for (g1, v1), (g2, v2) in (out, out[::-1]):
        if v2.op == 'call' and v2.a[0].op == 'ext' and v2.a[0].a[0].startswith('scipy.sparse.') and v2.a[1] == (v1,) and not v2.a[2] \
                and len(g1) == 1 and g1[0].op == 'isa' and g1[0].a == (v1, v2.a[0]):
            return v2


def alts(t, gs=()):
    """Enumerate (guards, leaf value)."""
    if t.op == 'alt':
        for g2, v in t.a[0]:
            yield from alts(v, gs + g2)
    elif t.op == 'any':
        for v in t.a[0]:
            yield from alts(v, gs)
    else:
        yield gs, t


# ---- membership ------------------------------------------------------------------------------------------------------
def member(x, s):
    """x in s"""
    if s.op == 'alt':
        return disj(*[conj(*(gs + (member(x, v),))) for gs, v in s.a[0]])
    if s.op in ('sorted', 'setorder'):
        return member(x, s.a[0])
    if s.op == 'kwds' and isinstance(cval(x), str):
        return TRUE if any(k == x.a[0] for k, v in s.a[1:]) else truth(mk('haskw', s.a[0], x.a[0]))
    if s.op == 'vals' and s.a[1] is not None and len(s.a[1]) == 1 and s.a[2]:
        return nonempty(rows(s.a[0], (('==', s.a[1][0], x),)))
    if s.op == 'tuple':
        return disj(*[cmp_('==', x, y) for y in s.a])
    if s.op == 'coll':
        kind, cs = s.a[0], s.a[1]
        if kind == 'dict':
            cs = tuple((c[0].a[0] if c[0] is not None and c[0].op == 'kv' else c[0], c[1], c[2]) for c in cs if c[0] is None or c[0].op != 'kvadd')
        if not cs:
            return FALSE
        if all(c[0] is not None for c in cs):
            outs = []
            for e, gs, ls in cs:
                r = member_gen(x, e, gs, ls)
                if r is None:
                    break
                outs.append(r)
            else:
                return disj(*outs)
    return mk('in', x, s)


def member_gen(x, e, gs, ls):
    if not ls:
        return conj(*(gs + (cmp_('==', x, e),)))
    if len(ls) == 1:
        l = ls[0]
        if e.op == 'elem' and e.a[1] is l:
            # identity generator over a source: x in source and guards[x]
            g2 = tuple(subst(g, {e: x}) for g in gs)
            if not any(contains(g, lambda y: y is l) for g in g2):
                return conj(member(x, e.a[0]), *g2)
        if e.op == 'fld' and e.a[0].op == 'row' and e.a[0].a[1] is l and isinstance(e.a[1], str):
            ds = e.a[0].a[0]
            conds = [('==', e.a[1], x)]
            for g in gs:
                q = row_cond(g, e.a[0])
                if q is None:
                    return None
                conds.append(q)
            return nonempty(rows(ds, tuple(conds)))
    return None


def row_cond(g, row):
    """Translate a guard on a row's field into a query condition."""
    pos = True
    if g.op == 'not':
        g, pos = g.a[0], False
    if g.op in ('lt', 'le', 'eq'):
        a, b = g.a
        isr = lambda t: t.op == 'fld' and t.a[0] is row and isinstance(t.a[1], str)
        hasr = lambda t: contains(t, lambda y: y is row)
        if isr(a) and not hasr(b):
            op = {'lt': '<', 'le': '<=', 'eq': '=='}[g.op]
            c, v = a.a[1], b
        elif isr(b) and not hasr(a):
            op = {'lt': '>', 'le': '>=', 'eq': '=='}[g.op]
            c, v = b.a[1], a
        else:
            return None
        if not pos:
            if g.op != 'eq':
                return None
            op = '!='
        return (op, c, v)
    return None


# ---- relational terms ------------------------------------------------------------------------------------------------
def rows(ds, conds):
    """Rows of ds satisfying conds: tuple of (op, col, value)."""
    if ds.op == 'rows':
        conds = ds.a[1] + tuple(conds)
        ds = ds.a[0]
    if not conds:
        return ds
    out = []
    for c in conds:
        if c not in out:
            out.append(c)
    return mk('rows', ds, tuple(sorted(out, key=lambda c: (str(c[1]), c[0], c[2].n))))


def fld(row, col):
    """Column of a row; equality conditions of the row's source pin its value."""
    if isinstance(col, str) and row.op in ('row', 'one') and row.a[0].op == 'rows':
        for op, c, v in row.a[0].a[1]:
            if op == '==' and c == col and row.op == 'row':
                return v
    return mk('fld', row, col)


def index(b, k):
    if b.op == 'alt' and len(b.a[0]) <= 12:
        return alt([(gs, index(v, k)) for gs, v in b.a[0]])
    if b.op == 'tuple' and k.op == 'const' and type(k.a[0]) is int and -len(b.a) <= k.a[0] < len(b.a):
        return b.a[k.a[0]]
    if b.op in ('row', 'one') and isinstance(cval(k), str):
        return fld(b, k.a[0])
    if b.op == 'kwds' and isinstance(cval(k), str):
        for n, v in b.a[1:]:
            if n == k.a[0]:
                return v
        return mk('kwval', b.a[0], k.a[0])
    if b.op == 'coll' and k.op == 'const':
        kind, cs = b.a[0], b.a[1]
        if kind == 'dict':
            if all(c[0] is not None and c[0].op == 'kv' and not c[1] and not c[2] and c[0].a[0].op == 'const' for c in cs):
                for c in reversed(cs):
                    if c[0].a[0] is k:
                        return c[0].a[1]
        elif kind in ('list', 'tuple') and type(k.a[0]) is int:
            if all(c[0] is not None and not c[1] and not c[2] for c in cs) and -len(cs) <= k.a[0] < len(cs):
                return cs[k.a[0]][0]
    if b.op == 'coll' and b.a[0] == 'dict' and k.op != 'const' and 0 < len(b.a[1]) <= 8 and k.op in ('elem', 'param') and \
            all(c[0] is not None and c[0].op == 'kv' and not c[1] and not c[2] and c[0].a[0].op == 'const' for c in b.a[1]) and \
            len({c[0].a[0] for c in b.a[1]}) == len(b.a[1]):
        return alt([((cmp_('==', k, c[0].a[0]),), c[0].a[1]) for c in b.a[1]])
    if b.op == 'coll' and b.a[0] == 'dict' and len(b.a[1]) == 1 and b.a[1][0][0] is not None and b.a[1][0][0].op == 'kv' and \
            b.a[1][0][0].a[0] is k and not b.a[1][0][1] and not b.a[1][0][2]:
        return b.a[1][0][0].a[1]
    if b.op == 'attr' and b.a[1] == 'shape' and is_const(k, 0):
        return length(b.a[0])
    return mk('idx', b, k)


def mk_slice(b, lo, hi, st):
    if st is NONE and (lo is NONE or is_const(lo, 0)):
        if hi is NONE:
            return mk('slice', b, NONE, NONE, NONE) if b.op != 'slice' else b
        if b.op == 'slice' and b.a[1] is NONE and b.a[3] is NONE and b.a[2] is hi:
            return b
        return mk('slice', b, NONE, hi, st)
    return mk('slice', b, lo, hi, st)


def elem(src, l):
    if src.op == 'coll' and len(src.a[1]) == 1 and l.op == 'loop':
        e, gs, ls = src.a[1][0][:3]
        if e is not None and not gs and ls == (l,):
            return e            # element of a list filled by the very loop it is read in
    return mk('elem', src, l)


_CONS = {
    'not': lambda c: neg(truth(c)), 'and': lambda *a: conj(*a), 'or': lambda *a: disj(*a),
    'lt': lambda a, b: cmp_('<', a, b), 'le': lambda a, b: cmp_('<=', a, b), 'eq': lambda a, b: cmp_('==', a, b),
    'in': member, 'isnone': isnone, 'nonempty': nonempty, 'truthy': truth, 'len': length,
    'add': add, 'sub': sub, 'mul': lambda *a: mul(*a) if len(a) == 2 else mk('mul', *sorted(a, key=lambda z: z.n)), 'idx': index, 'alt': lambda br: alt(list(br)),
    'elem': elem, 'lin': lambda c, ts: _relin(c, ts), 'rows': rows, 'fld': fld, 'str': lambda p: strtmpl(p), 'sqltext': lambda p: mk_sqltext(p), 'slice': mk_slice,
}


def _relin(c, ts):
    acc = (c, ())
    for t, k in ts:
        a, b = lin(t)
        acc = lin_add(acc, (a * k, tuple((x, y * k) for x, y in b)))
    return lin_mk(*acc)
