"""Gated abstract interpreter over the syntax tree (dataflow; no execution, no solver).

A State maps variables, fields and heap collections to value terms; branches are joined with guarded alternatives
(gated SSA), early exits leave their negation behind as must-facts (guards), loops are summarised by one symbolic
iteration whose changed locations are widened to `mu` terms, and calls to repository code are inlined.  Everything the
rules look at is recorded as events that carry their guards, loops, locks and position.
"""
import ast
import itertools

from .program import Func, Cls
from .terms import *
from . import terms as TT


class Budget(Exception):
    pass


class Obj:
    __slots__ = ('kind', 'cs', 'base', 'nloops', 'cls', 'node', 'flags', 'loops')

    def __init__(self, kind, cs=(), base=frozenset(), loops=(), cls=None, node=None, flags=frozenset()):
        self.kind, self.cs, self.base, self.loops, self.cls, self.node, self.flags = kind, cs, base, loops, cls, node, flags

    def with_cs(self, cs, flag=None):
        return Obj(self.kind, cs, self.base, self.loops, self.cls, self.node, self.flags | {flag} if flag else self.flags)


class State:
    __slots__ = ('frames', 'fields', 'heap', 'guards', 'loops', 'locks', 'counts', 'tasks', 'fin', 'ver')

    def __init__(self):
        self.frames, self.fields, self.heap = {}, {}, {}
        self.guards, self.loops, self.locks, self.tasks = (), (), (), ()
        self.counts = {}
        self.fin = 0
        self.ver = 0

    def copy(self):
        s = State()
        s.frames = {k: dict(v) for k, v in self.frames.items()}
        s.fields, s.heap = dict(self.fields), dict(self.heap)
        s.guards, s.loops, s.locks, s.tasks = self.guards, self.loops, self.locks, self.tasks
        s.counts = dict(self.counts)
        s.fin = self.fin
        return s


class Ev:
    __slots__ = ('kind', 'd', 'guards', 'loops', 'locks', 'tasks', 'fn', 'line', 'order', 'tries', 'fin', 'stack', 'file', 'st')

    def __getattr__(self, k):
        d = object.__getattribute__(self, 'd')
        if k in d:
            return d[k]
        raise AttributeError(k)

    def get(self, k, default=None):
        return self.d.get(k, default)

    def where(self):
        return '%s:%s in %s' % (self.file, self.line, self.fn)

    def __repr__(self):
        return '<%s %s %s | %s>' % (self.kind, self.where(), {k: v for k, v in self.d.items()}, ' & '.join(map(show, self.guards)))


class Activation:
    def __init__(self, func, fid, cls, selfval):
        self.func, self.fid, self.cls, self.selfval = func, fid, cls, selfval
        self.returns, self.yields = [], []
        self.globals_decl, self.nonlocals = set(), set()
        self.parent_fid = None
        self.mod = func.mod


def counting(n):
    """while i < E: ...; i += 1   as a loop over range(i, E)"""
    t = n.test
    if n.orelse or not n.body or not isinstance(t, ast.Compare) or len(t.ops) != 1:
        return None
    a, b = t.left, t.comparators[0]
    if isinstance(t.ops[0], (ast.Gt, ast.GtE)):
        a, b = b, a
    elif not isinstance(t.ops[0], (ast.Lt, ast.LtE)):
        return None
    last = n.body[-1]
    if not isinstance(a, ast.Name) or not isinstance(last, ast.AugAssign) or not isinstance(last.op, ast.Add) or not isinstance(last.target, ast.Name) \
            or last.target.id != a.id or not isinstance(last.value, ast.Constant) or last.value.value != 1 or len(n.body) < 2:
        return None
    fixed = {x.id for x in ast.walk(b) if isinstance(x, ast.Name)}
    for x in ast.walk(b):
        if isinstance(x, ast.Call) and not (isinstance(x.func, ast.Name) and x.func.id == 'len'):
            return None
        if not isinstance(x, (ast.Name, ast.Call, ast.Constant, ast.BinOp, ast.operator, ast.expr_context)):
            return None
    for s in n.body[:-1]:
        for x in ast.walk(s):
            if isinstance(x, (ast.Continue, ast.FunctionDef, ast.Lambda)):
                return None
            if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Load) and (x.id == a.id or x.id in fixed):
                return None
            if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id in fixed:
                return None
            if isinstance(x, (ast.Subscript,)) and not isinstance(x.ctx, ast.Load) and isinstance(x.value, ast.Name) and x.value.id in fixed:
                return None
    end = b if isinstance(t.ops[0], (ast.Lt, ast.Gt)) else ast.BinOp(left=b, op=ast.Add(), right=ast.Constant(1))
    f = ast.For(target=ast.Name(a.id, ast.Store()), iter=ast.Call(func=ast.Name('range', ast.Load()), args=[ast.Name(a.id, ast.Load()), end], keywords=[]),
                body=n.body[:-1], orelse=[ast.Assign(targets=[ast.Name(a.id, ast.Store())], value=end)], type_comment=None)
    for x in ast.walk(f):
        if not hasattr(x, 'lineno'):
            ast.copy_location(x, n)
    ast.fix_missing_locations(f)
    return [f]


class LoopCtx:
    def __init__(self):
        self.breaks, self.conts = [], []


class Closure:
    def __init__(self, func, fid, act):
        self.func, self.fid, self.act = func, fid, act


MUTATORS = {'append', 'extend', 'insert', 'remove', 'pop', 'clear', 'sort', 'reverse', 'add', 'discard', 'update',
            'setdefault', 'popitem', 'difference_update', 'intersection_update', 'symmetric_difference_update', 'fill',
            'itemset', 'partition', 'resize', 'setfield', 'put', 'appendleft', 'popleft', 'extendleft', '__setitem__',
            '__delitem__', '__iadd__'}
IMPURE = {'next', 'randint', 'sample', 'choice', 'choices', 'random', 'uniform', 'shuffle', 'fetchone', 'fetchall', 'fetchmany', 'read',
          'readline', 'readlines', 'time', 'execute', 'executemany', 'randrange', '__next__', 'cursor', 'mkstemp',
          'getrandbits', 'gauss', 'normal', 'rand', 'permutation', 'connect', 'open', 'urandom', 'uuid4', 'perf_counter',
          '_open_cursor', 'Random', 'ThreadPool', 'Pool', 'GradientTape', 'Lock', 'tqdm'}
RNG_METHODS = {'randint', 'sample', 'choice', 'choices', 'random', 'uniform', 'shuffle', 'randrange', 'getrandbits', 'gauss', 'normal', 'rand', 'permutation'}
WRAP_ITER = {'tqdm.tqdm', 'tqdm', 'builtins.iter', 'builtins.list', 'builtins.tuple', 'tqdm.trange', 'tqdm.auto.tqdm'}
BINOPS = {ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul', ast.Div: 'div', ast.FloorDiv: 'floordiv', ast.Mod: 'mod',
          ast.Pow: 'pow', ast.BitAnd: 'band', ast.BitOr: 'bor', ast.BitXor: 'bxor', ast.MatMult: 'matmul',
          ast.LShift: 'shl', ast.RShift: 'shr'}
DS_METHODS = {'select', 'select_one', 'values', 'values_list', 'unique', 'drop'}

import builtins as _b
BUILTINS = set(dir(_b))


class Interp:
    def __init__(self, prog, relational=True, inline=None, spec=None, max_depth=12, budget=400000, opaque=(), track=(), extends=(), sets=()):
        self.prog = prog
        self.relational = relational      # model dataset API calls on opaque receivers relationally
        self.inline_ok = inline           # optional predicate(Func) -> bool
        self.spec = spec or {}            # kwds specialisation name -> T
        self.opaque = set(opaque)         # function quals / names never inlined
        self.sets = dict(sets)            # opaque steps -> fields of the instance they assign
        self.extends = set(extends)       # opaque steps that may change the collections held by the instance
        self.max_depth, self.budget = max_depth, budget
        self.track = track                # predicate(ev) -> key or None : counted typestate events
        self.events = []
        self.acts, self.loopctx, self.sinks = [], [], []
        self.closures = {}
        self._oid = itertools.count(1)
        self._uid = itertools.count(1)
        self._fid = itertools.count(1)
        self.tryids = {}
        self.MU = {}
        self.WHILE = {}         # while loop -> ((depth, condition), ...)
        self.BROKEN = set()     # loops a break leaves
        self.quoted = None      # sink for query literal events
        self.BRK = {}           # loop -> the conditions under which a break leaves it
        self.MUG = {}     # mu -> (loops, [(guards, next value)])
        self.funcs = {f.qual: f for f in prog.all_funcs()}
        self.classes = {c.qual: c for c in prog.all_classes()}
        self.tries = []
        self.analysed = set()
        self.task_exits = []
        self.objinfo, self.frozen_of = {}, {}
        self._gwritten = None
        self.unknown = []

    # ------------------------------------------------------------------------------------------------ entries
    def run(self, func, cls=None, args=None, fields=None, guards=()):
        """Interpret func as an entry point. args: name -> T ; returns Result."""
        st = State()
        act = Activation(func, next(self._fid), cls or func.cls, None)
        st.frames[act.fid] = {}
        st.guards = tuple(guards)
        fr = st.frames[act.fid]
        a = func.node.args
        names = [x.arg for x in a.posonlyargs + a.args] + [x.arg for x in a.kwonlyargs]
        args = dict(args or {})
        for i, n in enumerate(names):
            if i == 0 and func.cls is not None and not func.static:
                act.selfval = args.get(n) or mk('self', (cls or func.cls).qual)
                fr[n] = act.selfval
            else:
                fr[n] = args[n] if n in args else mk('param', func.qual, n)
        if a.vararg:
            fr[a.vararg.arg] = mk('param', func.qual, '*' + a.vararg.arg)
        if a.kwarg:
            fr[a.kwarg.arg] = args.get('**') or mk('kwds', func.qual)
        for k, v in (fields or {}).items():
            st.fields[(act.selfval, k)] = v
        if self.setup:
            self.setup(self, st, act)
        self.acts.append(act)
        sink = []
        self.sinks.append(sink)
        self.analysed.add(func.qual)
        out = self.block(func.node.body, st)
        self.sinks.pop()
        self.acts.pop()
        if out is not None:
            act.returns.append((out, NONE))
            self.ev(out, func.node.body[-1], 'return', value=NONE, implicit=True, act=act)
        return Result(self, act, sink)

    setup = None

    def run_on_instance(self, cls, method, args=None, init=None, guards=()):
        """Construct an instance symbolically (constructor parameters symbolic unless given), then run a method on it."""
        m = self.prog.method(cls, method)
        ini = cls.find('__init__')
        st = State()
        top = Activation(m, next(self._fid), cls, None)
        st.frames[top.fid] = {}
        self.acts.append(top)
        sink0 = []
        self.sinks.append(sink0)
        o = next(self._oid)
        ref = mk('ref', o)
        st.heap[o] = Obj('inst', (), frozenset(), (), cls.qual, m.node)
        self.objinfo[o] = ('inst', (), (), m.node, m.qual)
        init = init or {}
        if ini is not None:
            kw = {}
            for p in ini.params()[1:] + [x.arg for x in ini.node.args.kwonlyargs]:
                kw[p] = init[p] if p in init else mk('param', ini.qual, p)
            if ini.node.args.kwarg:
                kw['**'] = mk('kwds', ini.qual)
            self.call_func(ini, [ref], kw, st, m.node, cls=cls, selfval=ref)
        self.sinks.pop()
        self.acts.pop()
        mark = len(self.events)
        st.frames.clear()
        st.guards = tuple(guards)
        act = Activation(m, next(self._fid), cls, ref)
        fr = st.frames[act.fid] = {}
        args = args or {}
        a = m.node.args
        for i, p in enumerate(m.params() + [x.arg for x in a.kwonlyargs]):
            fr[p] = ref if i == 0 else args[p] if p in args else mk('param', m.qual, p)
        if a.kwarg:
            fr[a.kwarg.arg] = args.get('**') or mk('kwds', m.qual)
        if a.vararg:
            fr[a.vararg.arg] = mk('param', m.qual, '*' + a.vararg.arg)
        self.acts.append(act)
        sink = []
        self.sinks.append(sink)
        self.analysed.add(m.qual)
        out = self.block(m.node.body, st)
        self.sinks.pop()
        self.acts.pop()
        if out is not None:
            act.returns.append((out, NONE))
        del self.events[:mark]
        r = Result(self, act, sink)
        r.selfref = ref
        return r

    # ------------------------------------------------------------------------------------------------ events
    def ev(self, st, node, kind, act=None, **d):
        e = Ev()
        e.kind, e.d, e.guards, e.loops, e.locks, e.tasks, e.fin = kind, d, st.guards, st.loops, st.locks, st.tasks, st.fin
        a = act or self.acts[-1]
        e.fn, e.file, e.line = a.func.qual, a.func.mod.relpath, getattr(node, 'lineno', 0)
        e.order = next(self._uid)
        e.tries = tuple(self.tries)
        e.stack = tuple(x.func.qual for x in self.acts)
        e.st = None
        self.events.append(e)
        if kind == 'quoting' and self.quoted is not None:
            self.quoted.append(e)
        if len(self.events) > self.budget:
            raise Budget('events')
        if self.track:
            k = self.track(e)
            if k is not None:
                lo, hi = st.counts.get(k, (0, 0))
                st.counts[k] = (lo + 1, hi + 1)
        return e

    def mark(self):
        return (len(self.events), [(x, len(x.returns), len(x.yields)) for x in self.acts],
                [(s, len(s)) for s in self.sinks], [(l, len(l.breaks), len(l.conts)) for l in self.loopctx], dict(self.WHILE))

    def reset(self, m):
        self.WHILE = dict(m[4])
        del self.events[m[0]:]
        for x, r, y in m[1]:
            del x.returns[r:]
            del x.yields[y:]
        for s, n in m[2]:
            del s[n:]
        for l, b, c in m[3]:
            del l.breaks[b:]
            del l.conts[c:]

    def may_raise(self, st):
        if self.sinks:
            s = self.sinks[-1]
            if len(s) < 400:
                s.append(st.copy())

    # ------------------------------------------------------------------------------------------------ guards
    def assume(self, st, c):
        """Add a fact; returns False when it contradicts."""
        c = truth(c)
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        for x in (c.a if c.op == 'and' else (c,)):
            d = self.decide(st, x)
            if d is FALSE:
                return False
            if d is TRUE:
                continue
            st.guards = st.guards + (x,)
        self.propagate(st)
        return True

    def propagate(self, st):
        gs = list(st.guards)
        s = set(gs)
        changed = True
        while changed:
            changed = False
            for i, g in enumerate(gs):
                if g.op == 'or':
                    left = [x for x in g.a if not (neg(x) in s or (x.op == 'and' and any(neg(y) in s for y in x.a)))]
                    if any(x in s or (x.op == 'and' and all(y in s for y in x.a)) for x in left):
                        continue
                    if len(left) == 1:
                        new = left[0].a if left[0].op == 'and' else (left[0],)
                        for y in new:
                            if y not in s:
                                gs.append(y)
                                s.add(y)
                                changed = True
        if len(gs) != len(st.guards):
            st.guards = tuple(gs)

    def decide(self, st, c):
        c = truth(c)
        return entails(st.guards, c)

    # ------------------------------------------------------------------------------------------------ merge
    def merge(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        sa, sb = set(a.guards), set(b.guards)
        common = [g for g in a.guards if g in sb]
        ra = tuple(g for g in a.guards if g not in sb)
        rb = tuple(g for g in b.guards if g not in sa)
        s = State()
        s.loops, s.locks, s.tasks, s.fin = a.loops, tuple(l for l in a.locks if l in b.locks), a.tasks, a.fin
        if ra and rb:
            d = disj(conj(*ra), conj(*rb))
            if d is not TRUE and d.depth < 60:
                for x in (d.a if d.op == 'and' else (d,)):
                    if x not in common:
                        common.append(x)
        s.guards = tuple(common)
        # short discriminators for the alternatives
        ga, gb = ra, rb
        if ra and rb and neg(ra[0]) is rb[0]:
            pass
        mrg = lambda x, y: x if x is y else alt([(ga, x), (gb, y)])
        for fid in list(a.frames) + [f for f in b.frames if f not in a.frames]:
            fa, fb = a.frames.get(fid), b.frames.get(fid)
            if fa is None or fb is None:
                s.frames[fid] = dict(fa or fb)
                continue
            fr = {}
            for n in list(fa) + [n for n in fb if n not in fa]:
                x, y = fa.get(n), fb.get(n)
                fr[n] = y if x is None else x if y is None else mrg(x, y)
            s.frames[fid] = fr
        for k in list(a.fields) + [k for k in b.fields if k not in a.fields]:
            x, y = a.fields.get(k), b.fields.get(k)
            if x is None:
                x = self.default_field(k)
            if y is None:
                y = self.default_field(k)
            s.fields[k] = mrg(x, y)
        for o in list(a.heap) + [o for o in b.heap if o not in a.heap]:
            x, y = a.heap.get(o), b.heap.get(o)
            if x is None or y is None or x is y:
                s.heap[o] = x or y
                continue
            s.heap[o] = self.merge_obj(x, y, ga, gb)
        for k in set(a.counts) | set(b.counts):
            x, y = a.counts.get(k, (0, 0)), b.counts.get(k, (0, 0))
            s.counts[k] = (min(x[0], y[0]), max(x[1], y[1]))
        return s

    def merge_obj(self, x, y, ga, gb):
        if x.cs == y.cs:
            return x
        i = 0
        while i < len(x.cs) and i < len(y.cs) and x.cs[i] == y.cs[i]:
            i += 1
        out = list(x.cs[:i])
        sx, sy = x.cs[i:], y.cs[i:]

        def tag(c, gs):
            e, g, l = c
            return (e, g + tuple(z for z in gs if z not in g), l)
        for c in sx:
            if c in sy:
                out.append(c)
            else:
                out.append(tag(c, ga))
        for c in sy:
            if c not in sx:
                out.append(tag(c, gb))
        return Obj(x.kind, tuple(out), x.base, x.loops, x.cls, x.node, x.flags | y.flags)

    def merge_all(self, sts):
        r = None
        for s in sts:
            r = self.merge(r, s)
        return r

    def default_field(self, k):
        base, name = k
        if base is None:
            return name
        if base.op == 'ref':
            return mk('unset', base, name)
        return mk('attr', base, name)

    # ------------------------------------------------------------------------------------------------ heap
    def alloc(self, st, kind, cs=(), node=None, cls=None):
        o = next(self._oid)
        st.heap[o] = Obj(kind, tuple(cs), frozenset(st.guards), st.loops, cls, node)
        self.objinfo[o] = (kind, st.loops, st.tasks, node, self.acts[-1].func.qual if self.acts else '')
        return mk('ref', o)

    def freeze(self, st, v, depth=0):
        if v is None or depth > 8:
            return v
        if v.op == 'ref':
            ob = st.heap.get(v.a[0])
            if ob is None:
                return v
            if ob.kind == 'inst':
                return v
            cs = tuple((None if e is None else self.freeze(st, e, depth + 1), tuple(self.freeze(st, g, depth + 1) for g in gs), ls)
                       for e, gs, ls in ob.cs)
            r = mk('coll', ob.kind, cs)
            if cs:
                self.frozen_of.setdefault(r, set()).add(v.a[0])
            return r
        if not contains(v, lambda x: x.op == 'ref'):
            return v
        memo = {}

        def f(x):
            if x.op == 'ref':
                r = self.freeze(st, x, depth + 1)
                return r if r is not x else None
        return rebuild(v, f, memo)

    def obj(self, st, v):
        return st.heap.get(v.a[0]) if v.op == 'ref' else None

    def contribute(self, st, ref, elem_, extra_guards=(), extra_loops=(), flag=None):
        ob = st.heap[ref.a[0]]
        gs = tuple(g for g in st.guards if g not in ob.base) + tuple(extra_guards)
        ls = tuple(l for l in st.loops if l not in ob.loops) + tuple(extra_loops)
        gs = tuple(self.freeze(st, g) for g in gs)
        st.heap[ref.a[0]] = ob.with_cs(ob.cs + ((elem_, gs, ls),), flag)

    def nest(self, st, t, how, args):
        """a change of an object held by a local dictionary (what tasks accumulate is checked on its own)"""
        if st.tasks:
            return
        path = []
        while t.op == 'idx':
            path.insert(0, t.a[1])
            t = t.a[0]
        for o in self.frozen_of.get(t, ()):
            ob = st.heap.get(o)
            if ob is not None and ob.kind == 'dict':
                self.contribute(st, mk('ref', o), mk('kvadd', path[0], mk('tuple', *path[1:]), how, *[self.freeze(st, a) for a in args]))

    # ------------------------------------------------------------------------------------------------ iteration
    def iter_src(self, st, v):
        """Normalise an iterable -> list of (elem, guards, loops) contributions (a comprehension over sources)."""
        if v.op == 'ref':
            ob = st.heap.get(v.a[0])
            if ob is not None and ob.kind in ('list', 'set', 'tuple'):
                return [(e if e is None else e, gs, ls) for e, gs, ls in ob.cs]
            if ob is not None and ob.kind == 'dict':
                return [(e.a[0] if e is not None and e.op == 'kv' else e, gs, ls) for e, gs, ls in ob.cs if not nested(e)]
        if v.op == 'coll':
            if v.a[0] == 'dict':
                return [(e.a[0] if e is not None and e.op == 'kv' else e, gs, ls) for e, gs, ls in v.a[1] if not nested(e)]
            return list(v.a[1])
        if v.op == 'tuple':
            return [(x, (), ()) for x in v.a]
        if v.op == 'const' and isinstance(v.a[0], (tuple, list)):
            return [(const(x), (), ()) for x in v.a[0]]
        if v.op == 'sorted':
            return None
        return None

    def loop_elem(self, st, v, taken=()):
        """One symbolic element of iterable v -> (L, elem value, extra guards, inner loops)."""
        v0 = v = st.fields.get((v, '#sql'), v)
        if v.op == 'alt':
            vs = set(self.freeze(st, x) for _, x in alts(v))
            if len(vs) == 1:
                v = v0 = next(iter(vs))
        cs = self.iter_src(st, v)
        if cs is not None and len(cs) == 1 and cs[0][0] is not None and len(cs[0][2]) >= 1:
            e, gs, ls = cs[0]
            clash = [l for l in ls if l in st.loops or l in taken]
            if not clash:
                return ls, e, gs
            m = {}
            for l in clash:
                m[l] = self.fresh_loop(st, l, taken)
            e = subst(e, m)
            return tuple(m.get(l, l) for l in ls), e, tuple(subst(g, m) for g in gs)
        fv = self.freeze(st, v)
        src, elt = self.elem_of(fv)
        l = mk('loop', src, 0)
        if l in st.loops or l in taken:
            l = self.fresh_loop(st, l, taken)
        LOOP_SRC[l] = src
        return (l,), elt(l), ()

    def fresh_loop(self, st, l, taken=()):
        i = 1
        while True:
            n = mk('loop', l.a[0], i)
            if n not in st.loops and n not in taken:
                LOOP_SRC[n] = LOOP_SRC.get(l)
                return n
            i += 1

    def elem_of(self, v):
        """(canonical source, function loop -> element)"""
        if v.op == 'vals':
            ds, cols, tl = v.a
            if isinstance(cols, tuple):
                if tl:
                    if len(cols) == 1:
                        return ds, lambda l: fld(mk('row', ds, l), cols[0])
                    return ds, lambda l: mk('tuple', *[fld(mk('row', ds, l), c) for c in cols])
                return ds, lambda l: mk('row', ds, l)
            if cols is None and not tl:
                return ds, lambda l: mk('row', ds, l)
            return ds, lambda l: mk('rowvals', mk('row', ds, l), cols if cols is not None else NONE, const(bool(tl)))
        if v.op == 'enum':
            s, f = self.elem_of(v.a[0])
            return s, lambda l: mk('tuple', add(mk('pos', l), v.a[1]) if not is_const(v.a[1], 0) else mk('pos', l), f(l))
        if v.op == 'zip':
            parts = v.a
            fs = []
            src = None
            for p in parts:
                if p.op != 'range':
                    s, f = self.elem_of(p)
                    if src is None:
                        src = s
            lens = []
            for p in parts:
                if p.op == 'range':
                    lo = p.a[0]
                    fs.append(lambda l, lo=lo: add(mk('pos', l), lo) if not is_const(lo, 0) else mk('pos', l))
                else:
                    s, f = self.elem_of(p)
                    fs.append(f)
            srcs = set(self.elem_of(p)[0] for p in parts if p.op != 'range')
            whole = all(length(src) is sub(p.a[1], p.a[0]) and is_const(p.a[2], 1) for p in parts if p.op == 'range') if src is not None else False
            if len(srcs) == 1 and whole:
                return src, lambda l: mk('tuple', *[f(l) for f in fs])
            return v, lambda l: mk('tuple', *[f(l) for f in fs])
        if v.op == 'range':
            lo, hi, st_ = v.a
            if is_const(lo, 0) and is_const(st_, 1) and hi.op == 'len':
                return hi.a[0], lambda l: mk('pos', l)
            return v, lambda l: mk('elem', v, l)
        if v.op == 'items':
            return v.a[0], lambda l: mk('tuple', mk('elem', v.a[0], l), index(v.a[0], mk('elem', v.a[0], l)))
        if v.op == 'setorder':
            return v.a[0], lambda l: mk('elem', v.a[0], l)
        if v.op == 'coll' and v.a[0] == 'list' and len(v.a[1]) == 1 and v.a[1][0][0] is not None and len(v.a[1][0][2]) == 1 and not v.a[1][0][1]:
            e, gs, (l0,) = v.a[1][0]
            return LOOP_SRC.get(l0, v) or v, lambda l: subst(e, {l0: l})
        if v.op == 'coll' and v.a[0] in ('list', 'set', 'tuple') and len(v.a[1]) == 1 and v.a[1][0][0] is not None and not v.a[1][0][1] and not v.a[1][0][2]:
            return v, lambda l: v.a[1][0][0]
        return v, lambda l: mk('elem', v, l)

    # ------------------------------------------------------------------------------------------------ statements
    def block(self, body, st):
        for s in body:
            if st is None:
                return None
            st = self.stmt(s, st)
        return st

    def stmt(self, n, st):
        m = getattr(self, 's_' + type(n).__name__, None)
        if m is None:
            return st
        return m(n, st)

    def s_Pass(self, n, st):
        return st

    def s_Expr(self, n, st):
        self.eval(n.value, st)
        return st

    def s_Assign(self, n, st):
        v = self.eval(n.value, st)
        if v.op == 'call' and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and listy(v) and \
                n.targets[0].id in self.grown(self.acts[-1].func):
            r = self.alloc(st, 'list', (), n)
            self.extend_obj(st, r, v)
            v = r
        for t in n.targets:
            self.assign(t, v, st, n)
        return st

    _grown = {}

    def grown(self, f):
        """local names on which the function calls a mutating list method"""
        if f.node not in self._grown:
            self._grown[f.node] = {x.func.value.id for x in ast.walk(f.node) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute)
                                   and isinstance(x.func.value, ast.Name) and x.func.attr in ('append', 'extend', 'insert', 'remove')}
        return self._grown[f.node]

    def s_AnnAssign(self, n, st):
        if n.value is not None:
            self.assign(n.target, self.eval(n.value, st), st, n)
        return st

    def s_AugAssign(self, n, st):
        cur = self.eval(self._load(n.target), st)
        v = self.eval(n.value, st)
        if isinstance(n.op, ast.Add) and cur.op == 'ref' and self.obj(st, cur) and self.obj(st, cur).kind == 'list':
            self.m_extend(st, cur, v, n)
            self.assign(n.target, cur, st, n)
            return st
        if isinstance(n.op, (ast.BitOr, ast.BitAnd, ast.Sub)) and cur.op == 'ref' and self.obj(st, cur) and self.obj(st, cur).kind in ('set', 'dict'):
            r = self.binary(type(n.op), cur, v, st, n)
            self.ev(st, n, 'mutate', recv=cur, how='aug', args=(self.freeze(st, v),))
            if r.op == 'ref':
                ob = self.obj(st, r)
                st.heap[cur.a[0]] = st.heap[cur.a[0]].with_cs(ob.cs)
                return st
        if isinstance(n.op, ast.Add) and isinstance(n.target, ast.Attribute) and cur.op == 'attr' and rooted_self(cur):
            fv = self.freeze(st, v)
            if fv.op == 'coll' and fv.a[0] == 'list' and fv.a[1] and all(c[0] is not None and not c[1] and not c[2] for c in fv.a[1]):
                for c in fv.a[1]:
                    self.ev(st, n, 'mutate', recv=cur, how='append', args=(c[0],), frozen=cur, aug=None)
                return st
        if isinstance(n.op, ast.Add) and isinstance(n.target, ast.Name):
            fv = self.freeze(st, v)
            if fv.op == 'coll' and fv.a[0] == 'list' and cur.op not in ('coll', 'const'):
                self.ev(st, n, 'mutate', recv=cur, how='iadd', args=(fv,))
        r = self.binary(type(n.op), cur, v, st, n)
        self.assign(n.target, r, st, n, aug=(BINOPS.get(type(n.op)), v))
        return st

    def _load(self, t):
        if isinstance(t, ast.Name):
            return ast.copy_location(ast.Name(t.id, ast.Load()), t)
        if isinstance(t, ast.Attribute):
            return ast.copy_location(ast.Attribute(t.value, t.attr, ast.Load()), t)
        if isinstance(t, ast.Subscript):
            return ast.copy_location(ast.Subscript(t.value, t.slice, ast.Load()), t)
        return t

    def assign(self, t, v, st, n, aug=None):
        if isinstance(t, ast.Name):
            self.setvar(t.id, v, st, n, aug)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t, v, st, n)
        elif isinstance(t, ast.Attribute):
            base = self.eval(t.value, st)
            for gs, b in alts(base):
                if b.op == 'module':
                    b = mk('globmod', b.a[0])
                old = st.fields.get((b, t.attr))
                self.ev(st, n, 'setfield', base=b, attr=t.attr, value=self.freeze(st, v), raw=v, old=old, aug=aug)
                if gs:
                    st.fields[(b, t.attr)] = alt([(gs, v), (tuple(neg(g) for g in gs), old if old is not None else self.default_field((b, t.attr)))])
                else:
                    st.fields[(b, t.attr)] = v
        elif isinstance(t, ast.Subscript):
            base = self.eval(t.value, st)
            k = self.eval_slice(t.slice, st)
            self.store_item(base, k, v, st, n, aug)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, n)

    def store_item(self, base, k, v, st, n, aug=None):
        fk, fv = self.freeze(st, k), self.freeze(st, v)
        for gs, b in alts(base):
            if b.op == 'idx' and not gs:
                self.nest(st, b, 'setitem', (fk, fv))
            self.ev(st, n, 'mutate', recv=b, how='setitem', args=(fk, fv), frozen=self.freeze(st, b), aug=aug)
            ob = self.obj(st, b)
            if ob is not None and ob.kind == 'dict':
                if fk.op == 'const' and not gs:
                    ob.cs = tuple(ob.cs)
                    keep = tuple(c for c in ob.cs if not (c[0] is not None and c[0].op == 'kv' and c[0].a[0] is fk and not c[2]))
                    st.heap[b.a[0]] = ob.with_cs(keep)
                self.contribute(st, b, mk('kv', fk, v), gs)
            elif ob is not None and ob.kind == 'list':
                idx = cval(fk)
                if isinstance(idx, int) and all(c[0] is not None and not c[1] and not c[2] for c in ob.cs) and -len(ob.cs) <= idx < len(ob.cs) \
                        and not [g for g in st.guards if g not in ob.base] and not [l for l in st.loops if l not in ob.loops]:
                    cs = list(ob.cs)
                    cs[idx] = (v, (), ())
                    st.heap[b.a[0]] = ob.with_cs(tuple(cs))
                else:
                    self.contribute(st, b, v, gs, flag='overwritten')

    def setvar(self, name, v, st, n, aug=None):
        act = self.acts[-1]
        if name in act.globals_decl:
            key = (mk('globmod', act.mod.name), name)
            self.ev(st, n, 'setglobal', mod=act.mod.name, name=name, value=self.freeze(st, v), aug=aug,
                    old=st.fields.get(key))
            st.fields[key] = v
            return
        if name in act.nonlocals:
            fid = act.parent_fid
            while fid is not None:
                if name in st.frames.get(fid, {}):
                    st.frames[fid][name] = v
                    return
                fid = self.fparent.get(fid)
        st.frames[act.fid][name] = v

    fparent = {}

    def unpack(self, t, v, st, n):
        elts = t.elts
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if v.op == 'alt':
            pass
        cs = self.iter_src(st, v)
        if cs is not None and not star and len(cs) == len(elts) and all(c[0] is not None and not c[1] and not c[2] for c in cs):
            for e, c in zip(elts, cs):
                self.assign(e, c[0], st, n)
            return
        for i, e in enumerate(elts):
            if star and i == star[0]:
                self.assign(e.value, mk('slice', self.freeze(st, v), const(i), const(i - len(elts) + 1) if i - len(elts) + 1 else NONE, NONE), st, n)
            else:
                k = i if not star or i < star[0] else i - len(elts)
                self.assign(e, self.getitem(v, const(k), st, n), st, n)

    def s_Delete(self, n, st):
        for t in n.targets:
            if isinstance(t, ast.Subscript):
                base = self.eval(t.value, st)
                k = self.eval_slice(t.slice, st)
                for gs, b in alts(base):
                    self.ev(st, n, 'mutate', recv=b, how='delitem', args=(self.freeze(st, k),), frozen=self.freeze(st, b))
                    ob = self.obj(st, b)
                    if ob is not None and ob.kind == 'dict':
                        st.heap[b.a[0]] = ob.with_cs(tuple(c for c in ob.cs if not (c[0] is not None and c[0].op == 'kv' and c[0].a[0] is k)))
                    elif ob is not None:
                        st.heap[b.a[0]] = ob.with_cs(ob.cs, 'shrunk')
            elif isinstance(t, ast.Attribute):
                b = self.eval(t.value, st)
                self.ev(st, n, 'setfield', base=b, attr=t.attr, value=mk('deleted'), raw=mk('deleted'), old=None, aug=None)
        return st

    def s_Return(self, n, st):
        v = self.eval(n.value, st) if n.value is not None else NONE
        self.ev(st, n, 'return', value=self.freeze(st, v), implicit=False)
        self.acts[-1].returns.append((st, v))
        return None

    def s_Raise(self, n, st):
        v = self.eval(n.exc, st) if n.exc is not None else mk('reraise')
        self.ev(st, n, 'raise', value=self.freeze(st, v))
        if self.sinks:
            self.sinks[-1].append(st)
        return None

    def s_Assert(self, n, st):
        c = truth(self.eval(n.test, st))
        s2 = st.copy()
        if self.assume(s2, neg(c)):
            self.ev(s2, n, 'raise', value=mk('AssertionError'), cond=c)
            if self.sinks:
                self.sinks[-1].append(s2)
        if not self.assume(st, self.freeze(st, c)):
            return None
        return st

    def s_Global(self, n, st):
        self.acts[-1].globals_decl.update(n.names)
        return st

    def s_Nonlocal(self, n, st):
        self.acts[-1].nonlocals.update(n.names)
        return st

    def s_Import(self, n, st):
        for a in n.names:
            nm = a.asname or a.name.split('.')[0]
            full = a.name if a.asname else nm
            st.frames[self.acts[-1].fid][nm] = mk('module', full) if full in self.prog.modules else mk('ext', full)
        return st

    def s_ImportFrom(self, n, st):
        mod = self.acts[-1].mod
        base = n.module or ''
        if n.level:
            parts = mod.name.split('.')
            if not mod.is_pkg:
                parts = parts[:-1]
            parts = parts[:len(parts) - (n.level - 1)] if n.level > 1 else parts
            base = '.'.join(parts + ([n.module] if n.module else []))
        for a in n.names:
            v = None
            if base in self.prog.modules:
                v = self.resolved(self.prog.resolve(self.prog.modules[base], a.name))
            if v is None:
                v = mk('module', base + '.' + a.name) if base + '.' + a.name in self.prog.modules else mk('ext', base + '.' + a.name)
            st.frames[self.acts[-1].fid][a.asname or a.name] = v
        return st

    def s_FunctionDef(self, n, st):
        st.frames[self.acts[-1].fid][n.name] = self.mk_closure(n)
        return st

    def mk_closure(self, n):
        act = self.acts[-1]
        key = mk('closure', id(n), act.fid)
        if key not in self.closures:
            f = Func(act.mod, n, act.func.qual + '.' + getattr(n, 'name', '<lambda>'), None)
            self.closures[key] = Closure(f, act.fid, act)
        return key

    def s_ClassDef(self, n, st):
        act = self.acts[-1]
        q = act.func.qual + '.' + n.name
        c = self.classes.get(q)
        if c is None:
            c = Cls(act.mod, n, q, self.prog)
            self.classes[q] = c
            for f in c.methods.values():
                self.funcs[f.qual] = f
        c.encl = act.fid
        st.frames[act.fid][n.name] = mk('class', q)
        return st

    # ---- control flow
    def remove_if_in(self, n, st):
        """`if k in L: L.remove(k)` on a list owned here removes k, present or not"""
        t = n.test
        if n.orelse or len(n.body) != 1 or not isinstance(t, ast.Compare) or len(t.ops) != 1 or not isinstance(t.ops[0], ast.In):
            return False
        b = n.body[0]
        if not (isinstance(b, ast.Expr) and isinstance(b.value, ast.Call) and isinstance(b.value.func, ast.Attribute)
                and b.value.func.attr in ('remove', 'discard') and len(b.value.args) == 1 and not b.value.keywords
                and isinstance(t.comparators[0], ast.Name) and isinstance(t.left, (ast.Name, ast.Constant))
                and ast.dump(b.value.func.value) == ast.dump(t.comparators[0]) and ast.dump(b.value.args[0]) == ast.dump(t.left)):
            return False
        os = [self.obj(st, x) for _, x in alts(self.eval(t.comparators[0], st))]
        return all(o is not None and o.kind in ('list', 'set') for o in os)

    def s_If(self, n, st):
        if self.remove_if_in(n, st):
            return self.block(n.body, st)
        c = self.freeze(st, truth(self.eval(n.test, st)))
        a, b = st, st.copy()
        d = self.decide(st, c)
        ra = rb = None
        if d is not FALSE and self.assume(a, c):
            ra = self.block(n.body, a)
        if d is not TRUE and self.assume(b, neg(c)):
            rb = self.block(n.orelse, b)
        return self.merge(ra, rb)

    def s_With(self, n, st):
        return self.with_items(n, list(n.items), st)

    def with_items(self, n, items, st):
        if not items:
            return self.block(n.body, st)
        it = items[0]
        v = self.eval(it.context_expr, st)
        fv = self.freeze(st, v)
        old = st.locks
        lockish = self.is_lock(fv)
        if lockish:
            st.locks = st.locks + (fv,)
            self.ev(st, n, 'lock', lock=fv)
        else:
            self.ev(st, n, 'with', ctx=fv)
        if it.optional_vars is not None:
            nm = 'enter'
            ent = mk('enter', fv)
            o = self.obj(st, v)
            self.assign(it.optional_vars, v if o is not None or not lockish and self.enter_self(fv) else ent, st, n)
        mk_ = (len(self.acts[-1].returns), [len(l.breaks) for l in self.loopctx], [len(l.conts) for l in self.loopctx], len(self.sinks[-1]) if self.sinks else 0)
        out = self.with_items(n, items[1:], st)
        # leave: locks are released on every exit
        for s, _ in self.acts[-1].returns[mk_[0]:]:
            s.locks = old
        for l, nb, nc in zip(self.loopctx, mk_[1], mk_[2]):
            for s in l.breaks[nb:] + l.conts[nc:]:
                s.locks = old
        if self.sinks:
            for s in self.sinks[-1][mk_[3]:]:
                s.locks = old
        if out is not None:
            out.locks = old
            self.ev(out, n, 'unlock' if lockish else 'endwith', lock=fv)
        return out

    def enter_self(self, fv):
        return fv.op == 'call' and fv.a[0].op == 'ext' and fv.a[0].a[0].split('.')[-1] in ('open', 'connect', 'Pool', 'ThreadPool', 'tqdm', 'closing', 'ThreadPoolExecutor')

    def is_lock(self, v):
        for _, x in alts(v):
            if x.op == 'call' and x.a[0].op == 'ext' and x.a[0].a[0].split('.')[-1] in ('Lock', 'RLock'):
                continue
            if x.op == 'glob' and self.glob_ctor(x).split('.')[-1] in ('Lock', 'RLock'):
                continue
            if x.op in ('param', 'attr') and 'lock' in x.a[-1].lower():
                continue
            return False
        return True

    def glob_ctor(self, g):
        m = self.prog.modules.get(g.a[0])
        e = m.globals.get(g.a[1]) if m else None
        if isinstance(e, ast.Call):
            f = e.func
            if isinstance(f, ast.Name):
                r = self.prog.resolve(m, f.id)
                return r[1] if r and r[0] == 'ext' else f.id
            if isinstance(f, ast.Attribute):
                return f.attr
        return ''

    def s_Try(self, n, st):
        look = lookup_try(n)
        if look is not None:
            # try: ... d[k] ... except KeyError: ...   is   if k in d: ... else: ...
            d, k = look
            c = self.freeze(st, member(self.freeze(st, self.eval(k, st)), self.freeze(st, self.eval(d, st))))
            s2 = st.copy()
            outs = []
            if self.assume(st, c):
                outs.append(self.block(n.body, st))
                if outs[0] is not None and n.orelse:
                    outs[0] = self.block(n.orelse, outs[0])
            if self.assume(s2, neg(c)):
                outs.append(self.block(n.handlers[0].body, s2))
            res = None
            for o in outs:
                res = self.merge(res, o)
            return res
        entry = st.copy()
        sink = []
        catch_all = any(h.type is None or (isinstance(h.type, ast.Name) and h.type.id in ('Exception', 'BaseException')) for h in n.handlers)
        rets0 = len(self.acts[-1].returns)
        brk0 = [(l, len(l.breaks), len(l.conts)) for l in self.loopctx]
        if n.handlers:
            self.sinks.append(sink)
        fsink = []
        if n.finalbody:
            if n.handlers:
                # exceptions raised in handlers / uncaught ones go to fsink
                self.sinks.insert(len(self.sinks) - 1, fsink)
            else:
                self.sinks.append(fsink)
        self.tries.append((id(n), tuple(self.htype(h) for h in n.handlers), 'body'))
        out = self.block(n.body, st)
        self.tries.pop()
        if n.handlers:
            self.sinks.pop()
        if out is not None and n.orelse:
            out = self.block(n.orelse, out)
        outs = [out]
        if n.handlers:
            raised = [s for s in sink]
            self.pending_sink = None
            for h in n.handlers:
                if not raised:
                    hs = None
                hs = None
                # states in which the exception may have been raised
                for s in dedup(raised):
                    hs = self.merge_weak(hs, s, entry)
                if hs is None:
                    continue
                hs = hs.copy()
                hs.locks, hs.loops, hs.tasks = entry.locks, entry.loops, entry.tasks
                hs.guards = entry.guards + (mk('raised', self.tryids.setdefault(id(n), len(self.tryids)), self.htype(h)),)
                if h.name:
                    hs.frames[self.acts[-1].fid][h.name] = mk('exc', self.htype(h))
                self.tries.append((id(n), (self.htype(h),), 'handler'))
                outs.append(self.block(h.body, hs))
                self.tries.pop()
            if not catch_all:
                for s in raised[:60]:
                    if self.sinks:
                        self.sinks[-1].append(s.copy())
        if n.finalbody:
            self.sinks.remove(fsink)
        # drop the 'raised' marker fact when joining
        res = None
        for o in outs:
            res = self.merge(res, o)
        if n.finalbody:
            def fin(s):
                s.fin += 1
                r = self.block(n.finalbody, s)
                if r is not None:
                    r.fin -= 1
                return r
            # abrupt exits run the finally block too (events of those runs are not recorded twice)
            def fin_quiet(s):
                k = len(self.events)
                r = fin(s)
                if res is not None:
                    del self.events[k:]
                return r
            acts = self.acts[-1]
            newr = []
            for s, v in acts.returns[rets0:]:
                r = fin_quiet(s)
                if r is not None:
                    newr.append((r, v))
            acts.returns[rets0:] = newr
            for l, b0, c0 in brk0:
                l.breaks[b0:] = [x for x in (fin_quiet(s) for s in l.breaks[b0:]) if x is not None]
                l.conts[c0:] = [x for x in (fin_quiet(s) for s in l.conts[c0:]) if x is not None]
            for s in dedup_counts(fsink):
                s = s.copy()
                s.locks = entry.locks
                r = fin_quiet(s)
                if r is not None and self.sinks:
                    self.sinks[-1].append(r)
            if res is not None:
                res = fin(res)
        return res

    s_TryStar = s_Try

    def htype(self, h):
        if h.type is None:
            return 'BaseException'
        if isinstance(h.type, ast.Name):
            return h.type.id
        if isinstance(h.type, ast.Attribute):
            return h.type.attr
        return ast.dump(h.type)

    def merge_weak(self, a, b, entry):
        """Join of exception snapshots: values become unguarded alternatives."""
        if a is None:
            s = b.copy()
            s.guards = entry.guards
            return s
        s = a.copy()
        s.guards = entry.guards
        for fid in b.frames:
            fa = s.frames.setdefault(fid, {})
            for k, v in b.frames[fid].items():
                x = fa.get(k)
                fa[k] = v if x is None else x if x is v else mk_any(x, v)
        for k, v in b.fields.items():
            x = s.fields.get(k)
            s.fields[k] = x if x is v else mk_any(x if x is not None else self.default_field(k), v)
        for k, v in a.fields.items():
            if k not in b.fields:
                s.fields[k] = mk_any(self.default_field(k), v)
        for o, v in b.heap.items():
            x = s.heap.get(o)
            s.heap[o] = v if x is None or x is v else self.merge_obj(x, v, (), ())
        for k in set(a.counts) | set(b.counts):
            x, y = a.counts.get(k, (0, 0)), b.counts.get(k, (0, 0))
            s.counts[k] = (min(x[0], y[0]), max(x[1], y[1]))
        return s

    # ---- loops
    def s_Break(self, n, st):
        self.ev(st, n, 'break')
        self.loopctx[-1].breaks.append(st)
        return None

    def s_Continue(self, n, st):
        self.loopctx[-1].conts.append(st)
        return None

    def s_For(self, n, st):
        src = self.eval(n.iter, st)
        cs = self.iter_src(st, src)
        if cs is not None and len(cs) <= 16 and all(c[0] is not None and not c[2] for c in cs) and not self.flags(st, src):
            # exact literal: unroll
            lc = LoopCtx()
            cur = st
            brk = []
            for e, gs, _ in cs:
                if cur is None:
                    break
                skip = None
                if gs:
                    skip = cur.copy()
                    if not self.assume(cur, conj(*gs)):
                        cur = skip
                        continue
                    if not self.assume(skip, neg(conj(*gs))):
                        skip = None
                self.loopctx.append(lc)
                self.assign(n.target, e, cur, n)
                cur = self.block(n.body, cur)
                self.loopctx.pop()
                for c in lc.conts:
                    cur = self.merge(cur, c)
                lc.conts = []
                cur = self.merge(cur, skip)
            if cur is not None and n.orelse:
                cur = self.block(n.orelse, cur)
            for b in lc.breaks:
                cur = self.merge(cur, b)
            return cur
        ls, elt, gs = self.loop_elem(st, src)

        def head(s):
            s.loops = s.loops + ls
            for g in gs:
                self.assume(s, g)
            self.assign(n.target, elt, s, n)
            self.ev(s, n, 'iter', src=self.freeze(st, src), loops=ls)
            return s, None
        return self.loop(n, st, ls, head)

    s_AsyncFor = s_For

    def flags(self, st, v):
        o = self.obj(st, v)
        return o.flags if o else ()

    def s_While(self, n, st):
        d = counting(n)
        if d is not None:
            return self.block(d, st)
        l = mk('loop', mk('while', n.lineno, n.col_offset, self.acts[-1].func.qual), 0)
        if l in st.loops:
            l = self.fresh_loop(st, l)
        LOOP_SRC[l] = None

        def head(s):
            s.loops = s.loops + (l,)
            c = self.freeze(s, truth(self.eval(n.test, s)))
            self.WHILE[l] = self.WHILE.get(l, ()) + ((sum(x.op == 'loop' and x.a[0].op == 'while' for x in st.loops), c),)
            ex = s.copy()
            if not self.assume(s, c):
                s = None
            if contains(c, lambda x: x.op == 'coll' and any(k[0] is None for k in x.a[1])):
                pass        # the collection at the exit is not the one tested inside the loop
            elif not self.assume(ex, neg(c)):
                ex = None
            return s, ex
        return self.loop(n, st, (l,), head, is_while=True)

    def loop(self, n, st, ls, head, is_while=False):
        entry = st
        changed = {}
        uid = next(self._uid)
        for it in range(6):
            mark = self.mark()
            s = entry.copy()
            prev = self.havoc(s, changed, ls, uid)
            s0 = s.copy()
            lc = LoopCtx()
            self.loopctx.append(lc)
            body, ex = head(s)
            out = self.block(n.body, body) if body is not None else None
            self.loopctx.pop()
            backs = [x for x in [out] + lc.conts if x is not None]
            new = {}
            for b in backs:
                self.diff(s0, b, entry, new, ls)
            if ex is not None and is_while:
                pass
            add_ = {k: v for k, v in new.items() if k not in changed}
            if not add_ or it == 5:
                break
            changed.update(add_)
            self.reset(mark)
        if lc.breaks:
            self.BROKEN.update(ls)
            self.BRK[ls[-1] if ls else NONE] = tuple(tuple(self.freeze(b, g) for g in b.guards if g not in s0.guards) for b in lc.breaks)
        # loop-carried values
        for k in changed:
            if k[0] in ('var', 'field'):
                nxt, nxg = [], []
                for b in backs:
                    v = self.lookup_loc(b, k)
                    if v is not None:
                        nxt.append(self.freeze(b, v))
                        nxg.append((tuple(self.freeze(b, g) for g in b.guards if g not in entry.guards), nxt[-1]))
                self.MUG[mk('mu', ls[0] if ls else NONE, str(k[-1]), uid)] = (ls, tuple(nxg))
                init = self.lookup_loc(entry, k)
                self.MU[mk('mu', ls[0] if ls else NONE, str(k[-1]), uid)] = (None if init is None else self.freeze(entry, init), tuple(nxt))
        # exhaustion state
        exs = None
        if is_while:
            if ex is not None:
                exs = ex
        else:
            exs = s0.copy()
        if exs is not None:
            exs.loops, exs.locks = entry.loops, entry.locks
            extra = tuple(g for g in exs.guards if g not in entry.guards) if is_while else ()
            # a condition on the final values says nothing about the values during the loop
            extra = tuple(mk('done', g) if contains(g, lambda z: z.op == 'mu' and z.a[0] is ls[0]) else g for g in extra)
            exs.guards = entry.guards + extra
            for b in backs:
                self.absorb(exs, b, ls)
                for k in set(b.counts) | set(exs.counts):
                    x, y = exs.counts.get(k, (0, 0)), b.counts.get(k, (0, 0))
                    if x != y:
                        exs.counts[k] = (min(x[0], y[0]), max(x[1], y[1]) + 1)
            for fid, fr in (backs[0].frames.items() if backs else ()):
                for nm, v in fr.items():
                    if fid in exs.frames and nm not in exs.frames[fid]:
                        exs.frames[fid][nm] = v if len(backs) == 1 else mk('last', self.freeze(backs[0], v), ls)
            self.strip(exs, ls)
            if n.orelse:
                exs = self.block(n.orelse, exs)
        res = exs
        for b in lc.breaks:
            b.loops, b.locks = entry.loops, entry.locks
            for x in backs:
                self.absorb(b, x, ls)
            self.strip(b, ls)
            res = self.merge(res, b)
        return res

    def lookup_loc(self, st, k):
        if k[0] == 'var':
            return st.frames.get(k[1], {}).get(k[2])
        if k[0] == 'field':
            return st.fields.get((k[1], k[2]), self.default_field((k[1], k[2])))
        return None

    def diff(self, s0, b, entry, out, ls):
        for fid, fr in s0.frames.items():
            fb = b.frames.get(fid, {})
            for nme, v in fr.items():
                if fb.get(nme) is not v and nme in entry.frames.get(fid, {}):
                    out[('var', fid, nme)] = 1
        for k, v in b.fields.items():
            if s0.fields.get(k, self.default_field(k)) is not v:
                if k[0].op == 'ref' and k[0].a[0] not in entry.heap:
                    continue
                out[('field', k[0], k[1])] = 1
        for o, v in b.heap.items():
            x = s0.heap.get(o)
            if x is not None and x is not v and x.cs != v.cs:
                out[('obj', o)] = 1

    def havoc(self, s, changed, ls, uid):
        for k in changed:
            m = mk('mu', ls[0] if ls else NONE, str(k[-1]), uid)
            if k[0] == 'var':
                s.frames[k[1]][k[2]] = m
            elif k[0] == 'field':
                s.fields[(k[1], k[2])] = m
            else:
                ob = s.heap.get(k[1])
                if ob is not None:
                    s.heap[k[1]] = ob.with_cs(ob.cs + ((None, (), ls),))

    def absorb(self, dst, b, ls):
        for o, v in b.heap.items():
            x = dst.heap.get(o)
            if x is None:
                dst.heap[o] = v
            elif x is not v:
                extra = tuple(c for c in v.cs if c not in x.cs)
                if extra:
                    dst.heap[o] = Obj(x.kind, x.cs + extra, x.base, x.loops, x.cls, x.node, x.flags | v.flags)
                elif v.flags - x.flags:
                    dst.heap[o] = Obj(x.kind, x.cs, x.base, x.loops, x.cls, x.node, x.flags | v.flags)

    def strip(self, s, ls):
        for o, v in list(s.heap.items()):
            if any(c[0] is None and c[2] == ls for c in v.cs):
                s.heap[o] = v.with_cs(tuple(c for c in v.cs if not (c[0] is None and c[2] == ls)))

    # ------------------------------------------------------------------------------------------------ expressions
    def eval(self, n, st):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            return unk(type(n).__name__)
        return m(n, st)

    def e_Constant(self, n, st):
        return const(n.value)

    def e_Name(self, n, st):
        act = self.acts[-1]
        name = n.id
        if name not in act.globals_decl:
            fid = act.fid
            seen = 0
            while fid is not None and seen < 10:
                fr = st.frames.get(fid)
                if fr is not None and name in fr:
                    return fr[name]
                fid = self.fparent.get(fid)
                seen += 1
        return self.modname(act.mod, name, st)

    def modname(self, mod, name, st):
        r = self.prog.resolve(mod, name)
        v = self.resolved(r, st)
        if v is not None:
            return v
        if name in BUILTINS:
            return mk('ext', 'builtins.' + name)
        if name == '__class__':
            return mk('ext', '__class__')
        return mk('name', name)

    def resolved(self, r, st=None):
        if r is None:
            return None
        if r[0] == 'func':
            return mk('func', r[1].qual)
        if r[0] == 'class':
            return mk('class', r[1].qual)
        if r[0] == 'module':
            return mk('module', r[1].name)
        if r[0] == 'ext':
            return mk('ext', r[1])
        if r[0] == 'glob':
            m, nm = r[1], r[2]
            key = (mk('globmod', m.name), nm)
            if st is not None and key in st.fields:
                return st.fields[key]
            e = m.globals[nm]
            if isinstance(e, ast.Constant) and not self.glob_written(m, nm):
                return const(e.value)
            if isinstance(e, ast.UnaryOp) and isinstance(e.operand, ast.Constant) and not self.glob_written(m, nm):
                try:
                    return const(ast.literal_eval(e))
                except Exception:
                    pass
            if isinstance(e, (ast.Tuple, ast.List, ast.Set, ast.Dict)) and not self.glob_written(m, nm):
                t = self.literal(e, m) if not self.mutated_name(nm) else None
                if t is not None:
                    return t
            return mk('glob', m.name, nm)
        return None

    def literal(self, e, mod):
        """value of a literal table of constants, functions and lambdas (None when it has other parts)"""
        if isinstance(e, ast.Constant):
            return const(e.value)
        if isinstance(e, ast.UnaryOp):
            try:
                return const(ast.literal_eval(e))
            except Exception:
                return None
        if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
            xs = [self.literal(x, mod) for x in e.elts]
            if any(x is None for x in xs):
                return None
            if isinstance(e, ast.Tuple):
                return mk('tuple', *xs)
            if isinstance(e, ast.Set):
                xs = sorted(set(xs), key=lambda z: repr(z.a))
            return mk('coll', 'list' if isinstance(e, ast.List) else 'set', tuple((x, (), ()) for x in xs))
        if isinstance(e, ast.Dict):
            ks, vs = [self.literal(x, mod) if x is not None else None for x in e.keys], [self.literal(x, mod) for x in e.values]
            if any(x is None for x in ks + vs):
                return None
            return mk('coll', 'dict', tuple((mk('kv', k, v), (), ()) for k, v in zip(ks, vs)))
        if isinstance(e, ast.Name):
            r = self.prog.resolve(mod, e.id)
            if r is None and hasattr(_b, e.id):
                return mk('ext', 'builtins.' + e.id)
            return self.resolved(r) if r is not None and r[0] in ('func', 'class', 'ext', 'module') else None
        if isinstance(e, ast.Attribute):
            b = self.literal(e.value, mod)
            return mk('ext', b.a[0] + '.' + e.attr) if b is not None and b.op == 'ext' else None
        if isinstance(e, ast.Lambda) and self.acts:
            act = self.acts[-1]
            key = mk('closure', id(e), -1)
            if key not in self.closures:
                f = Func(mod, e, mod.name + '.<lambda>', None)
                self.closures[key] = Closure(f, act.fid, act)
            return key
        return None

    def mutated_name(self, nm):
        """some attribute or variable of this name is changed in place somewhere"""
        if getattr(self.prog, '_mutnames', None) is None:
            self.prog._mutnames = out = set()
            nameof = lambda v: v.attr if isinstance(v, ast.Attribute) else v.id if isinstance(v, ast.Name) else None
            for mod in self.prog.modules.values():
                for x in ast.walk(mod.tree):
                    if isinstance(x, ast.Subscript) and isinstance(x.ctx, (ast.Store, ast.Del)):
                        out.add(nameof(x.value))
                    elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUTATORS:
                        out.add(nameof(x.func.value))
                    elif isinstance(x, ast.AugAssign):
                        out.add(nameof(x.target))
        return nm in self.prog._mutnames

    def glob_written(self, m, nm):
        if self._gwritten is None:
            self._gwritten = set()
            for mod in self.prog.modules.values():
                for x in ast.walk(mod.tree):
                    if isinstance(x, ast.Global):
                        for y in x.names:
                            self._gwritten.add((mod.name, y))
        return (m.name, nm) in self._gwritten

    def e_Tuple(self, n, st):
        if any(isinstance(e, ast.Starred) for e in n.elts):
            return self.freeze(st, self.build_list(n.elts, st, n))
        return mk('tuple', *[self.eval(e, st) for e in n.elts])

    def build_list(self, elts, st, n, kind='list'):
        ref = self.alloc(st, kind, (), n)
        for e in elts:
            if isinstance(e, ast.Starred):
                self.extend_obj(st, ref, self.eval(e.value, st))
            else:
                v = self.eval(e, st)
                self.contribute(st, ref, v)
        return ref

    def e_List(self, n, st):
        return self.build_list(n.elts, st, n)

    def e_Set(self, n, st):
        return self.build_list(n.elts, st, n, 'set')

    def e_Dict(self, n, st):
        ref = self.alloc(st, 'dict', (), n)
        for k, v in zip(n.keys, n.values):
            if k is None:
                self.extend_obj(st, ref, self.eval(v, st), is_dict=True)
            else:
                kk = self.freeze(st, self.eval(k, st))
                self.contribute(st, ref, mk('kv', kk, self.eval(v, st)))
        return ref

    def e_JoinedStr(self, n, st):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                t = self.freeze(st, self.eval(v.value, st))
                conv = '' if v.conversion in (-1, None) else '!' + chr(v.conversion)
                if conv == '!s':
                    conv = ''
                spec = ''
                if v.format_spec is not None:
                    sp = self.eval(v.format_spec, st)
                    spec = cval(sp) if isinstance(cval(sp), str) else '?'
                parts.append((t, conv, spec))
        return self.tmpl(parts)

    def tmpl(self, parts):
        # distribute a template over a small alternative
        for i, p in enumerate(parts):
            if isinstance(p, tuple) and p[0].op == 'alt' and not p[1] and not p[2] and len(p[0].a[0]) <= 4 and all(is_strish(v) for _, v in p[0].a[0]):
                return alt([(gs, self.tmpl(parts[:i] + [(v, '', '')] + parts[i + 1:])) for gs, v in p[0].a[0]])
        return strtmpl(parts)

    def e_BinOp(self, n, st):
        a = self.eval(n.left, st)
        b = self.eval(n.right, st)
        return self.binary(type(n.op), a, b, st, n)

    def binary(self, op, a, b, st, n):
        o = BINOPS.get(op, 'op')
        for x, y, flip in ((a, b, 0), (b, a, 1)):
            if x.op == 'alt' and len(x.a[0]) <= 6 and (o in ('add',) or x.op == 'alt' and all(v.op == 'const' for _, v in x.a[0])):
                return alt([(gs, self.binary(op, y, v, st, n) if flip else self.binary(op, v, y, st, n)) for gs, v in x.a[0]])
        oa, ob = self.obj(st, a), self.obj(st, b)
        if o == 'mod' and is_strish(a):
            return self.percent(a, b, st)
        ka = oa.kind if oa else (a.a[0] if a.op == 'coll' else None)
        kb = ob.kind if ob else (b.a[0] if b.op == 'coll' else None)
        if o == 'add' and ('list' in (ka, kb)):
            ref = self.alloc(st, 'list', (), n)
            self.extend_obj(st, ref, a)
            self.extend_obj(st, ref, b)
            return ref
        if o in ('sub', 'band', 'bor') and 'set' in (ka, kb):
            return self.set_op({'sub': 'difference', 'band': 'intersection', 'bor': 'union'}[o], a, (b,), st, n)
        fa, fb = self.freeze(st, a), self.freeze(st, b)
        if o == 'mul' and ka == 'list' and oa is not None and len(oa.cs) == 1 and not oa.cs[0][1] and not oa.cs[0][2]:
            return mk('repeat', fa.a[1][0][0], fb)
        if o in ('band', 'bor') and fa.op in TT.BOOL_OPS and fb.op in TT.BOOL_OPS and all(contains(z, lambda t: t.op == 'attr' and t.a[1] in ('values', 'index')) for z in (fa, fb)):
            return mk(o, *sorted((fa, fb), key=lambda t: t.n))      # element-wise
        if o in ('band', 'bor') and fa.op in TT.BOOL_OPS and fb.op in TT.BOOL_OPS:
            return conj(fa, fb) if o == 'band' else disj(fa, fb)
        return binop(o, fa, fb)

    def percent(self, a, b, st):
        fmt = cval(a)
        if not isinstance(fmt, str):
            return unk('percent')
        args = list(b.a) if b.op == 'tuple' else [b]
        args = [self.freeze(st, x) for x in args]
        import re
        parts, i, pos = [], 0, 0
        for m in re.finditer(r'%([sdrif%])', fmt):
            parts.append(fmt[pos:m.start()])
            pos = m.end()
            if m.group(1) == '%':
                parts.append('%')
            elif i < len(args):
                parts.append((args[i], '!r' if m.group(1) == 'r' else '', ''))
                i += 1
            else:
                return unk('percent')
        parts.append(fmt[pos:])
        return self.tmpl(parts)

    def set_op(self, name, recv, others, st, n):
        if name != 'difference' and len(others) == 1 and recv.op == 'idx' and self.freeze(st, others[0]).op == 'idx':
            return self.binary(ast.BitAnd if name == 'intersection' else ast.BitOr, recv, others[0], st, n)
        ref = self.alloc(st, 'set', (), n)
        if name == 'union':
            self.extend_obj(st, ref, recv)
            for o in others:
                self.extend_obj(st, ref, o)
            return ref
        fo = [self.freeze(st, o) for o in others]
        cs = self.iter_src(st, recv)
        if cs is None:
            ls, e, gs = self.loop_elem(st, recv)
            cs = [(e, gs, ls)]
        out = []
        for e, gs, ls in cs:
            if e is None:
                out.append((e, gs, ls))
                continue
            fe = self.freeze(st, e)
            ms = tuple(member(fe, o) for o in fo)
            if name == 'difference':
                ms = tuple(neg(m) for m in ms)
            c = conj(*ms)
            if c is FALSE:
                continue
            extra = tuple(c.a) if c.op == 'and' else (() if c is TRUE else (c,))
            out.append((e, gs + extra, ls))
        st.heap[ref.a[0]] = st.heap[ref.a[0]].with_cs(tuple(out))
        return ref

    def e_UnaryOp(self, n, st):
        v = self.eval(n.operand, st)
        if isinstance(n.op, ast.Not):
            return neg(truth(self.freeze(st, v)))
        v = self.freeze(st, v)
        if isinstance(n.op, ast.USub):
            if v.op == 'const' and type(v.a[0]) in (int, float):
                return const(-v.a[0])
            return mul(const(-1), v)
        if isinstance(n.op, ast.Invert):
            if v.op in TT.BOOL_OPS:
                return neg(v)
            return mk('invert', v) if v.op != 'invert' else v.a[0]
        return v

    def e_BoolOp(self, n, st):
        is_and = isinstance(n.op, ast.And)
        vals, conds = [], []
        cur = st
        g0 = st.guards
        for i, e in enumerate(n.values):
            v = self.freeze_bool(st, self.eval(e, st))
            vals.append(v)
            c = self.freeze(st, truth(v))
            conds.append(c)
            if i < len(n.values) - 1:
                if not self.assume(st, c if is_and else neg(c)):
                    break
        st.guards = g0
        if all(v.op in TT.BOOL_OPS or v is TRUE or v is FALSE for v in vals):
            return conj(*conds) if is_and else disj(*conds)
        out, pre = [], ()
        for i, (v, c) in enumerate(zip(vals, conds)):
            if i == len(vals) - 1:
                out.append((pre, v))
            else:
                out.append((pre + ((neg(c),) if is_and else (c,)), v))
                pre = pre + ((c,) if is_and else (neg(c),))
        return alt(out)

    def freeze_bool(self, st, v):
        return v

    def e_Compare(self, n, st):
        left = self.eval(n.left, st)
        out = []
        for op, r in zip(n.ops, n.comparators):
            right = self.eval(r, st)
            out.append(self.compare(op, left, right, st))
            left = right
        return conj(*out)

    def compare(self, op, a, b, st):
        if isinstance(op, (ast.In, ast.NotIn)):
            if a.op == 'call' and a.a[0].op == 'ext' and a.a[0].a[0] == 'builtins.type':
                cs = self.iter_src(st, b)
                if cs is not None and all(c[0] is not None and not c[1] and not c[2] for c in cs):
                    r = disj(*[self.compare(ast.Eq(), a, c[0], st) for c in cs])
                    return neg(r) if isinstance(op, ast.NotIn) else r
            r = member(self.freeze(st, a), self.freeze(st, b))
            return neg(r) if isinstance(op, ast.NotIn) else r
        fa, fb = self.freeze(st, a), self.freeze(st, b)
        if isinstance(op, (ast.Is, ast.IsNot)) or isinstance(op, (ast.Eq, ast.NotEq)):
            r = None
            for x, y in ((fa, fb), (fb, fa)):
                if y is NONE:
                    r = isnone(x)
                    break
                if isinstance(op, (ast.Is, ast.IsNot)) and y is TRUE:
                    r = truth(x)
                    break
                if isinstance(op, (ast.Is, ast.IsNot)) and y is FALSE:
                    r = neg(truth(x))
                    break
                if x.op == 'call' and x.a[0].op == 'ext' and x.a[0].a[0] == 'builtins.type' and y.op == 'ext' and x.a[1][0].op == 'const':
                    r = const('builtins.' + type(x.a[1][0].a[0]).__name__ == y.a[0])
                    break
                if x.op == 'call' and x.a[0].op == 'ext' and x.a[0].a[0] == 'builtins.type' and y.op == 'ext' and x.a[1][0].op in ('coll', 'attr') and \
                        (x.a[1][0].op == 'coll' or y.a[0] == 'builtins.list' and self.listlike(st, x.a[1][0])):
                    r = const(x.a[1][0].op == 'attr' or y.a[0] == 'builtins.' + x.a[1][0].a[0])
                    break
                if x.op == 'call' and x.a[0].op == 'ext' and x.a[0].a[0] == 'builtins.type' and y.op in ('ext', 'class'):
                    r = mk('isa', x.a[1][0], y)
                    break
            if r is None:
                if isinstance(op, (ast.Is, ast.IsNot)) and not (fa.op == 'const' or fb.op == 'const'):
                    r = TRUE if a is b else mk('is', *sorted((fa, fb), key=lambda z: z.n)) if a.op != 'alt' else cmp_('==', fa, fb)
                    r = truth(r)
                else:
                    r = cmp_('==', fa, fb)
            return neg(r) if isinstance(op, (ast.IsNot, ast.NotEq)) else r
        o = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>='}[type(op)]
        return cmp_(o, fa, fb)

    def e_IfExp(self, n, st):
        c = self.freeze(st, truth(self.eval(n.test, st)))
        d = self.decide(st, c)
        if d is TRUE:
            return self.eval(n.body, st)
        if d is FALSE:
            return self.eval(n.orelse, st)
        return self.branch_expr(c, lambda s: self.eval(n.body, s), lambda s: self.eval(n.orelse, s), st)

    def branch_expr(self, c, fa, fb, st):
        g0 = st.guards
        s2 = st.copy()
        va = vb = None
        oka = self.assume(st, c)
        if oka:
            va = fa(st)
        okb = self.assume(s2, neg(c))
        if okb:
            vb = fb(s2)
        if va is None:
            self.adopt(st, s2)
            st.guards = g0
            return vb
        if vb is None:
            st.guards = g0
            return va
        tmp = st.copy()
        m = self.merge(tmp, s2)
        self.adopt(st, m)
        st.guards = g0
        cc = tuple(c.a) if c.op == 'and' else (c,)
        nc = neg(c)
        nn = tuple(nc.a) if nc.op == 'and' else (nc,)
        return alt([(cc, va), (nn, vb)])

    def adopt(self, st, o):
        st.frames, st.fields, st.heap, st.guards, st.counts = o.frames, o.fields, o.heap, o.guards, o.counts

    def e_NamedExpr(self, n, st):
        v = self.eval(n.value, st)
        self.assign(n.target, v, st, n)
        return v

    def e_Lambda(self, n, st):
        return self.mk_closure(n)

    def e_Starred(self, n, st):
        return self.eval(n.value, st)

    def e_Await(self, n, st):
        return self.eval(n.value, st)

    def e_Yield(self, n, st):
        v = self.eval(n.value, st) if n.value is not None else NONE
        fv = self.freeze(st, v)
        self.ev(st, n, 'yield', value=fv)
        self.acts[-1].yields.append((v, st.guards, st.loops))
        return mk('sent', next(self._uid))

    def e_YieldFrom(self, n, st):
        v = self.eval(n.value, st)
        cs = self.iter_src(st, v)
        if cs is None:
            ls, e, gs = self.loop_elem(st, v)
            cs = [(e, gs, ls)]
        for e, gs, ls in cs:
            if e is None:
                continue
            s2 = st.copy()
            s2.guards, s2.loops = st.guards + gs, st.loops + ls
            self.ev(s2, n, 'yield', value=self.freeze(st, e))
            self.acts[-1].yields.append((e, s2.guards, s2.loops))
        return NONE

    # ---- comprehensions
    def comp(self, n, st, kind, first=None):
        act = self.acts[-1]
        if first is None:
            first = self.eval(n.generators[0].iter, st)
            if first.op == 'alt' and len(first.a[0]) == 2 and all(v.op == 'ref' for _, v in first.a[0]) and any(v.a[0] in st.heap and
                    all(c[0] is not None and not c[2] for c in st.heap[v.a[0]].cs) for _, v in first.a[0]):
                (ga, va), (gb, vb) = first.a[0]
                if neg(conj(*ga)) is conj(*gb):
                    return self.branch_expr(conj(*ga), lambda s: self.comp(n, s, kind, va), lambda s: self.comp(n, s, kind, vb), st)
        ref = self.alloc(st, kind, (), n)
        saved = dict(st.frames[act.fid])
        g0, l0 = st.guards, st.loops

        def go(i):
            if i == len(n.generators):
                if kind == 'dict':
                    k = self.freeze(st, self.eval(n.key, st))
                    v = mk('kv', k, self.eval(n.value, st))
                else:
                    v = self.eval(n.elt, st)
                self.contribute(st, ref, v)
                return
            g = n.generators[i]
            src = first if i == 0 else self.eval(g.iter, st)
            cs = self.iter_src(st, src)
            if cs is not None and (len(cs) != 1 or not cs[0][2]) and len(cs) <= 16:
                items = cs
            else:
                ls, e, gs = self.loop_elem(st, src)
                items = [(e, gs, ls)]
            gg, ll = st.guards, st.loops
            for e, gs, ls in items:
                st.guards, st.loops = gg, ll + tuple(l for l in ls)
                if e is None:
                    e = mk('elem', self.freeze(st, src), mk('loop', self.freeze(st, src), 0))
                ok = all(self.assume(st, x) for x in gs)
                if not ok:
                    continue
                if not gs and ls:
                    self.ev(st, n, 'iter', src=self.freeze(st, src), loops=ls)
                self.assign(g.target, e, st, n)
                for c in g.ifs:
                    cc = self.freeze(st, truth(self.eval(c, st)))
                    if not self.assume(st, cc):
                        ok = False
                        break
                if ok:
                    go(i + 1)
            st.guards, st.loops = gg, ll
        go(0)
        st.guards, st.loops = g0, l0
        st.frames[act.fid] = {**saved, **{k: v for k, v in st.frames[act.fid].items() if k in saved and False}}
        return ref

    def e_ListComp(self, n, st):
        return self.comp(n, st, 'list')

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, n, st):
        return self.comp(n, st, 'set')

    def e_DictComp(self, n, st):
        return self.comp(n, st, 'dict')

    # ---- attribute / subscript
    def e_Attribute(self, n, st):
        b = self.eval(n.value, st)
        return self.getattr(b, n.attr, st, n)

    def getattr(self, b, name, st, n=None):
        if b.op in ('alt',) and len(b.a[0]) <= 8:
            return alt([(gs, self.getattr(v, name, st, n)) for gs, v in b.a[0]])
        if b.op == 'any' and len(b.a[0]) <= 8:
            return mk_any(*[self.getattr(v, name, st, n) for v in b.a[0]])
        if b.op == 'module':
            m = self.prog.modules[b.a[0]]
            r = self.resolved(self.prog.resolve(m, name), st)
            if r is not None:
                return r
            if b.a[0] + '.' + name in self.prog.modules:
                return mk('module', b.a[0] + '.' + name)
            return mk('ext', b.a[0] + '.' + name)
        if b.op == 'ext':
            return mk('ext', b.a[0] + '.' + name)
        if (b, name) in st.fields:
            return st.fields[(b, name)]
        if b.op == 'super':
            return mk('superattr', b, name)
        c = self.class_of(b, st)
        if c is not None:
            if name == '__class__':
                return mk('class', c.qual)
            f = c.find(name)
            if f is not None:
                if f.prop:
                    return self.call_func(f, [b], {}, st, n, cls=c, selfval=b)
                return mk('bound', b, f.qual, c.qual)
            a = c.find_attr(name)
            if a is not None:
                e = a[1]
                if isinstance(e, ast.Constant) and not self.attr_written(name):
                    return const(e.value)
                if not self.attr_written(name) and not self.mutated_name(name):
                    t = self.literal(e, a[0].mod)
                    if t is not None:
                        return t
                if isinstance(e, (ast.Dict, ast.List, ast.Set, ast.Tuple)) or isinstance(e, ast.Call) and isinstance(e.func, ast.Name) \
                        and e.func.id in ('set', 'dict', 'list', 'frozenset'):
                    COLLATTRS.add(name)
                return mk('clsattr', a[0].qual, name)
        if b.op == 'class':
            c = self.classes.get(b.a[0])
            if name in ('__name__', '__bases__', '__mro__'):
                return mk('attr', b, name)
            f = c.find(name) if c else None
            if f is not None:
                return mk('func', f.qual)
            a = c.find_attr(name) if c else None
            if a is not None:
                if not self.attr_written(name) and not self.mutated_name(name):
                    t = self.literal(a[1], a[0].mod)
                    if t is not None:
                        return t
                return mk('clsattr', a[0].qual, name)
            return mk('clsattr', b.a[0], name)
        if b.op == 'globmod':
            pass
        return mk('attr', b if b.op == 'ref' and self.obj(st, b) is not None and self.obj(st, b).kind == 'inst' else self.freeze(st, b), name)

    def attr_written(self, name):
        if not hasattr(self, '_aw'):
            self._aw = set()
            for mod in self.prog.modules.values():
                for x in ast.walk(mod.tree):
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)):
                        self._aw.add(x.attr)
        return name in self._aw

    def class_of(self, b, st):
        if b.op == 'self':
            return self.classes.get(b.a[0])
        ob = self.obj(st, b)
        if ob is not None and ob.kind == 'inst':
            return self.classes.get(ob.cls)
        if b.op == 'typed':
            return self.classes.get(b.a[1])
        if b.op == 'call' and b.a[0].op == 'attr' and b.a[0].a[1] == 'copy' and not b.a[1] and 'copy' in self.opaque:
            return self.class_of(b.a[0].a[0], st)
        return None

    def eval_slice(self, s, st):
        if isinstance(s, ast.Slice):
            e = lambda x: self.freeze(st, self.eval(x, st)) if x is not None else NONE
            return mk('sl', e(s.lower), e(s.upper), e(s.step))
        if isinstance(s, ast.Index):
            return self.eval_slice(s.value, st)
        if isinstance(s, ast.Tuple):
            return mk('tuple', *[self.eval_slice(x, st) for x in s.elts])
        return self.freeze(st, self.eval(s, st))

    def e_Subscript(self, n, st):
        b = self.eval(n.value, st)
        k = self.eval_slice(n.slice, st)
        return self.getitem(b, k, st, n)

    def getitem(self, b, k, st, n=None):
        if b.op == 'alt' and len(b.a[0]) <= 12:
            return alt([(gs, self.getitem(v, k, st, n)) for gs, v in b.a[0]])
        if k.op == 'sl':
            return self.slice(b, k, st, n)
        if k.op == 'alt' and len(k.a[0]) <= 6:
            return alt([(gs, self.getitem(b, v, st, n)) for gs, v in k.a[0]])
        ob = self.obj(st, b)
        if ob is not None:
            if ob.kind == 'inst':
                c = self.classes.get(ob.cls)
                f = c.find('__getitem__') if c else None
                if f is not None:
                    return self.call_func(f, [b, k], {}, st, n, cls=c, selfval=b)
            if ob.kind == 'dict' and k.op in ('const', 'tuple'):
                hit = [c for c in ob.cs if c[0] is not None and c[0].op == 'kv' and c[0].a[0] is k and not c[2]]
                if hit and all(c[0] is not None and c[0].op == 'kv' and c[0].a[0].op in ('const', 'tuple') for c in ob.cs):
                    last = hit[-1]
                    if not last[1]:
                        return last[0].a[1]
                    vs = [(c[1], c[0].a[1]) for c in hit]
                    return alt(vs)
            if ob.kind == 'dict':
                hit = [c for c in ob.cs if c[0] is not None and c[0].op == 'kv' and c[0].a[0] is k]
                if hit and not k.op == 'const' and len(ob.cs) == 1 and not hit[0][1]:
                    return hit[0][0].a[1]
            if ob.kind == 'list' and isinstance(cval(k), int) and not ob.flags:
                cs = ob.cs
                if all(c[0] is not None and not c[1] and not c[2] for c in cs) and -len(cs) <= k.a[0] < len(cs):
                    return cs[k.a[0]][0]
        tb = self.table(st, b)
        if tb is not None and k.op != 'const':
            conds = [cmp_('==', k, x) for x, _ in tb]
            s2 = st.copy()
            if self.acts and self.assume(s2, neg(disj(*conds))):
                self.may_raise(s2)
            vs = [((c,), v) for c, (_, v) in zip(conds, tb) if self.decide(st, c) is not FALSE]
            if vs:
                self.assume(st, disj(*[c[0] for c, _ in vs]))
                return alt(vs)
        if self.acts:
            self.may_raise(st)
        fb = self.freeze(st, b)
        if k.op == 'pos' and fb is not k and LOOP_SRC.get(k.a[0]) is not None:
            src, f = self.elem_of(fb)
            if src is LOOP_SRC.get(k.a[0]):
                return f(k.a[0])
        return index(fb, k)

    def table(self, st, b):
        """[(key, value)] of a dictionary with constant keys"""
        ob = self.obj(st, b)
        cs = ob.cs if ob is not None and ob.kind == 'dict' and not ob.flags else b.a[1] if b.op == 'coll' and b.a[0] == 'dict' else None
        if not cs or len(cs) > 12 or not all(c[0] is not None and c[0].op == 'kv' and c[0].a[0].op == 'const' and not c[1] and not c[2] for c in cs):
            return None
        return list({c[0].a[0]: c[0].a[1] for c in cs}.items())

    def listlike(self, st, v):
        return v.op == 'attr' and v.a[1] in LISTFIELDS and v.a[0].op != 'ext' and not (v.a[0].op == 'attr' and v.a[0].a[1] == '_df') or \
            v.op in ('param', 'attr', 'elem') and mk('isa', v, mk('ext', 'builtins.list')) in st.guards

    def slice(self, b, k, st, n):
        lo, hi, step = k.a
        if lo is NONE and hi is NONE and step is NONE and self.listlike(st, b):
            return self.copy_obj(st, b, 'list', n)
        ob = self.obj(st, b)
        if ob is not None and ob.kind in ('list',) and lo is NONE and hi is NONE and step is NONE:
            ref = self.alloc(st, 'list', (), n)
            self.extend_obj(st, ref, b)
            return ref
        cs = self.iter_src(st, b)
        if cs is not None and all(c[0] is not None and not c[1] and not c[2] for c in cs) and not self.flags(st, b) and all(x is NONE or isinstance(cval(x), int) for x in (lo, hi, step)):
            items = [c[0] for c in cs][slice(cval(lo), cval(hi), cval(step))]
            if b.op == 'tuple':
                return mk('tuple', *items)
            ref = self.alloc(st, 'list', (), n)
            for x in items:
                self.contribute(st, ref, x)
            return ref
        fb = self.freeze(st, b)
        if isinstance(cval(fb), str) and all(x is NONE or isinstance(cval(x), int) for x in (lo, hi, step)):
            return const(cval(fb)[slice(cval(lo), cval(hi), cval(step))])
        return mk_slice(fb, lo, hi, step)

    # ------------------------------------------------------------------------------------------------ calls
    def e_Call(self, n, st):
        # super()
        if isinstance(n.func, ast.Name) and n.func.id == 'super':
            act = self.acts[-1]
            a = act
            i = len(self.acts) - 1
            cl = act.cls
            if n.args and isinstance(n.args[0], ast.Name):
                v = self.eval(n.args[0], st)
                if v.op == 'class':
                    cl = self.classes.get(v.a[0])
            elif act.func.cls is not None:
                cl = act.func.cls
            return mk('super', act.selfval or NONE, cl.qual if cl else '')
        if isinstance(n.func, ast.Attribute):
            recv = self.eval(n.func.value, st)
            args, kw = self.args(n, st)
            names = RNG_PARAMS.get(n.func.attr)
            if names and kw and set(kw) <= set(names[len(args):]) and all(x in kw for x in names[len(args):len(args) + len(kw)]):
                args, kw = args + [kw[x] for x in names[len(args):len(args) + len(kw)]], {}      # random.Random methods: one spelling
            return self.call_method(recv, n.func.attr, args, kw, st, n)
        f = self.eval(n.func, st)
        args, kw = self.args(n, st)
        return self.call_value(f, args, kw, st, n)

    def args(self, n, st):
        args, kw = [], {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, st)
                cs = self.iter_src(st, v)
                if cs is not None and all(c[0] is not None and not c[1] and not c[2] for c in cs):
                    args.extend(c[0] for c in cs)
                else:
                    args.append(mk('star', self.freeze(st, v)))
            else:
                args.append(self.eval(a, st))
        for k in n.keywords:
            v = self.eval(k.value, st)
            if k.arg is None:
                fv = self.freeze(st, v)
                ob = self.obj(st, v)
                if ob is not None and ob.kind == 'dict' and all(c[0] is not None and c[0].op == 'kv' and isinstance(cval(c[0].a[0]), str) and not c[2] for c in ob.cs):
                    for c in ob.cs:
                        nm = cval(c[0].a[0])
                        val = c[0].a[1]
                        if c[1]:
                            val = alt([(c[1], val), ((neg(conj(*c[1])),), mk('absent', nm))])
                        kw[nm] = val
                else:
                    kw['**'] = v
            else:
                kw[k.arg] = v
        return args, kw

    def call_value(self, f, args, kw, st, n):
        if f.op == 'alt' and len(f.a[0]) <= 12:
            return self.call_alts(f, lambda v, s: self.call_value(v, args, kw, s, n), st)
        if f.op == 'func':
            fn = self.funcs.get(f.a[0])
            return self.call_func(fn, args, kw, st, n, cls=fn.cls)
        if f.op == 'closure':
            return self.call_closure(f, args, kw, st, n)
        if f.op == 'class':
            return self.instantiate(self.classes[f.a[0]], args, kw, st, n)
        if f.op == 'bound':
            fn = self.funcs.get(f.a[1])
            c = self.classes.get(f.a[2])
            if fn.static:
                return self.call_func(fn, args, kw, st, n, cls=c)
            return self.call_func(fn, [f.a[0]] + args, kw, st, n, cls=c, selfval=f.a[0])
        if f.op == 'superattr':
            return self.call_method(f.a[0], f.a[1], args, kw, st, n)
        if f.op == 'partial':
            k2 = dict(f.a[2])
            k2.update(kw)
            return self.call_value(f.a[0], list(f.a[1]) + args, k2, st, n)
        if f.op == 'attr':
            return self.call_method(f.a[0], f.a[1], args, kw, st, n)
        c = self.class_of(f, st)
        if c is not None:
            m = c.find('__call__')
            if m is not None:
                return self.call_func(m, [f] + args, kw, st, n, cls=c, selfval=f)
        if f.op == 'ext':
            r = self.builtin(f.a[0], args, kw, st, n)
            if r is not None:
                return r
        return self.opaque_call(f, args, kw, st, n)

    def call_alts(self, v, f, st):
        """Apply f under each alternative's guards and join."""
        leaves = list(alts(v))
        outs, res = [], None
        base = st.guards
        vals = []
        for i, (gs, x) in enumerate(leaves):
            s = st.copy()
            if not all(self.assume(s, g) for g in gs):
                continue
            r = f(x, s)
            if s.guards is None:
                continue
            vals.append((gs, r))
            outs.append(s)
        m = self.merge_all(outs)
        if m is None:
            return unk('dead')
        self.adopt(st, m)
        st.guards = base
        return alt(vals)

    def opaque_call(self, f, args, kw, st, n, recv=None, name=None):
        fargs = tuple(self.freeze(st, a) for a in args)
        fkw = tuple(sorted((k, self.freeze(st, v)) for k, v in kw.items()))
        base = f.a[0].split('.')[-1] if f.op == 'ext' else (f.a[1] if f.op == 'attr' else '')
        t = mk('call', f, fargs, fkw, next(self._uid)) if base in IMPURE else mk('call', f, fargs, fkw)
        self.ev(st, n, 'call', f=f, name=base or (f.a[0].split('.')[-1] if f.op == 'func' else ''), args=fargs, kw=dict(fkw), result=t, raw=tuple(args), rawkw=dict(kw), recv=f.a[0] if f.op == 'attr' else None)
        self.may_raise(st)
        return t

    # ---- method dispatch
    def call_method(self, recv, name, args, kw, st, n):
        if recv.op == 'alt' and len(recv.a[0]) <= 8:
            return self.call_alts(recv, lambda v, s: self.call_method(v, name, args, kw, s, n), st)
        if recv.op == 'any' and len(recv.a[0]) <= 8:
            vs = [self.call_method(v, name, args, kw, st, n) for v in recv.a[0]]
            return mk_any(*vs)
        if recv.op == 'super':
            cl = self.classes.get(recv.a[1])
            selfv = recv.a[0]
            c0 = self.class_of(selfv, st)
            mro = (c0 or cl).mro() if (c0 or cl) else []
            if cl in mro:
                for c in mro[mro.index(cl) + 1:]:
                    if name in c.methods:
                        return self.call_func(c.methods[name], [selfv] + args, kw, st, n, cls=c0 or cl, selfval=selfv)
            return self.opaque_call(mk('attr', recv, name), args, kw, st, n)
        if recv.op == 'module' or recv.op == 'ext':
            return self.call_value(self.getattr(recv, name, st, n), args, kw, st, n)
        if recv.op == 'class':
            c = self.classes.get(recv.a[0])
            f = c.find(name) if c else None
            if f is not None:
                if f.classm:
                    return self.call_func(f, [recv] + args, kw, st, n, cls=c, selfval=recv)
                if f.static:
                    return self.call_func(f, args, kw, st, n, cls=c)
                return self.call_func(f, args, kw, st, n, cls=c, selfval=args[0] if args else None)
        ob = self.obj(st, recv)
        if name in DUNDER and not args and not kw and self.class_of(recv, st) is None and recv.op not in ('super', 'class'):
            return self.call_value(mk('ext', 'builtins.' + DUNDER[name]), [recv], {}, st, n)
        if ob is not None and ob.kind in ('list', 'set', 'dict'):
            r = self.coll_method(recv, ob, name, args, kw, st, n)
            if r is not None:
                return r
            return self.opaque_call(mk('attr', self.freeze(st, recv), name), args, kw, st, n)
        if recv.op == 'qtext' and not kw:
            # a query text with a known number of conditions, each with a known operator
            sep = cval(args[0]) if args else None
            if name in ('strip', 'lstrip', 'rstrip') and not args:
                return recv
            if name == 'split' and sep == ',':
                ref = self.alloc(st, 'list', (), n)
                for x in recv.a[0]:
                    self.contribute(st, ref, mk('qtext', (x,)))
                return ref
            if name == 'split' and sep in (' ', None) and len(recv.a[0]) == 1:
                ref = self.alloc(st, 'list', (), n)
                for x in recv.a[0][0]:
                    self.contribute(st, ref, x)
                return ref
        fv = st.fields.get((recv, name))
        if fv is not None:
            return self.call_value(fv, args, kw, st, n)
        c = self.class_of(recv, st)
        if c is not None:
            f = c.find(name)
            if f is not None:
                if f.static:
                    return self.call_func(f, args, kw, st, n, cls=c)
                if f.classm:
                    return self.call_func(f, [mk('class', c.qual)] + args, kw, st, n, cls=c, selfval=mk('class', c.qual))
                return self.call_func(f, [recv] + args, kw, st, n, cls=c, selfval=recv)
        if recv.op == 'kwds':
            r = self.kwds_method(recv, name, args, kw, st)
            if r is not None:
                return r
        if recv.op == 'coll':
            r = self.frozen_method(recv, name, args, kw, st, n)
            if r is not None:
                return r
        if is_strish(recv) or name in ('format', 'join') :
            r = self.str_method(recv, name, args, kw, st, n)
            if r is not None:
                return r
        if self.relational and name in DS_METHODS:
            r = self.ds_method(recv, name, args, kw, st, n)
            if r is not None:
                return r
        if name in ('apply_async', 'submit', 'map', 'starmap', 'imap', 'imap_unordered', 'map_async', 'starmap_async', 'apply'):
            r = self.pool_method(recv, name, args, kw, st, n)
            if r is not None:
                return r
        if name in ('execute', 'executemany') and args and recv.op in ('call', 'attr', 'param', 'unk'):
            fa = [self.freeze(st, a) for a in args]
            t = mk('sql', fa[0], *fa[1:])
            self.ev(st, n, 'call', f=mk('attr', recv, name), name=name, args=tuple(fa), kw={}, result=t, raw=tuple(args), rawkw={}, recv=recv)
            self.may_raise(st)
            st.fields[(recv, '#sql')] = t
            return recv
        if name in ('fetchone', 'fetchall', 'fetchmany') and (recv, '#sql') in st.fields:
            return self.opaque_call(mk('attr', st.fields[(recv, '#sql')], name), args, kw, st, n)
        if name in ('acquire', 'release') and self.is_lock(recv):
            if name == 'acquire':
                st.locks = st.locks + (recv,)
                self.ev(st, n, 'lock', lock=recv)
            else:
                st.locks = tuple(l for l in st.locks if l is not recv)
                self.ev(st, n, 'unlock', lock=recv)
            return TRUE
        if name in ('union', 'intersection', 'difference') and recv.op not in ('ext',):
            return self.set_op(name, recv, args, st, n)
        if name == 'copy' and not args and not kw and recv.op == 'kwds':
            return recv
        if name == 'copy' and not args and not kw and self.listlike(st, recv):
            return self.copy_obj(st, recv, 'list', n)
        if name == 'setdefault' and len(args) == 2 and not kw and rooted_self(recv):
            k = self.freeze(st, args[0])
            v = self.freeze(st, args[1])
            old = st.guards
            st.guards = old + (neg(member(k, recv)),)
            self.ev(st, n, 'mutate', recv=recv, how='setitem', args=(k, v), frozen=recv, aug=None)
            st.guards = old
            return index(recv, k)
        if recv.op == 'idx' and name in NESTED:
            self.nest(st, recv, name, args)
        if name in MUTATORS and not (name == 'update' and recv.op == 'call') or is_const(kw.get('inplace', NONE), True):
            self.ev(st, n, 'mutate', recv=recv, how=name, args=tuple(self.freeze(st, a) for a in args), frozen=recv, aug=None)
        if name in RNG_METHODS:
            if name == 'shuffle' and args:
                self.shuffle(args[0], st, n)
        if name == 'get' and len(args) in (1, 2) and not kw and recv.op in ('attr', 'idx') and (rooted_self(recv) or self.isdict(recv)):
            k = self.freeze(st, args[0])
            c = member(k, recv)
            return alt([((c,), index(recv, k)), ((neg(c),), args[1] if len(args) > 1 else NONE)])
        if name == 'keys' and not args:
            return recv
        if name == 'items' and not args:
            return mk('items', recv)
        return self.opaque_call(mk('attr', recv, name), args, kw, st, n)

    def isdict(self, t):
        return False

    def shuffle(self, v, st, n):
        for gs, b in alts(v):
            self.ev(st, n, 'mutate', recv=b, how='shuffle', args=(), frozen=self.freeze(st, b), aug=None)
            ob = self.obj(st, b)
            if ob is not None:
                st.heap[b.a[0]] = ob.with_cs(ob.cs, 'reordered')

    def kwds_method(self, recv, name, args, kw, st):
        if name in ('get', 'pop') and args and isinstance(cval(args[0]), str):
            nm = cval(args[0])
            if nm in self.spec:
                v = self.spec[nm]
                return v(args[1] if len(args) > 1 else NONE) if callable(v) else v
            d = args[1] if len(args) > 1 else NONE
            return self.kwget(recv, nm, d, st)
        if name == 'copy':
            return recv
        return None

    def kwget(self, kwds, nm, d, st):
        """Value of kwds.get(nm, d) where kwds may carry known bindings."""
        for k, v in kwds.a[1:]:
            if k == nm:
                return v
        if nm in self.spec:
            v = self.spec[nm]
            return v(d) if callable(v) else v
        g = mk('haskw', kwds.a[0], nm)
        val = mk('kwval', kwds.a[0], nm)
        return alt([((truth(g),), val), ((neg(truth(g)),), d)])

    def str_method(self, recv, name, args, kw, st, n):
        if name == 'format' and isinstance(cval(recv), str):
            import string
            parts = []
            auto = 0
            try:
                for lit, fieldn, spec, conv in string.Formatter().parse(cval(recv)):
                    if lit:
                        parts.append(lit)
                    if fieldn is None:
                        continue
                    if fieldn == '':
                        v = args[auto]
                        auto += 1
                    elif fieldn.isdigit():
                        v = args[int(fieldn)]
                    elif fieldn in kw:
                        v = kw[fieldn]
                    else:
                        return None
                    parts.append((self.freeze(st, v), '!' + conv if conv and conv != 's' else '', spec or ''))
            except (IndexError, ValueError):
                return None
            return self.tmpl(parts)
        if name == 'join' and is_strish(recv) and args:
            v = args[0]
            cs = self.iter_src(st, v)
            if cs is not None and all(c[0] is not None and not c[1] and not c[2] for c in cs):
                out = const('')
                for i, c in enumerate(cs):
                    if i:
                        out = strcat(out, recv)
                    out = strcat(out, self.freeze(st, c[0]))
                return out
            return mk('join', recv, self.freeze(st, v))
        if isinstance(cval(recv), str) and all(isinstance(cval(a), (str, int)) for a in args) and not kw:
            s = cval(recv)
            if name in ('lower', 'upper', 'strip', 'lstrip', 'rstrip', 'replace', 'startswith', 'endswith', 'title'):
                try:
                    return const(getattr(s, name)(*[cval(a) for a in args]))
                except Exception:
                    return None
            if name == 'split':
                ref = self.alloc(st, 'list', (), n)
                for x in s.split(*[cval(a) for a in args]):
                    self.contribute(st, ref, const(x))
                return ref
        return None

    # ---- collections
    def extend_obj(self, st, ref, v, gs0=(), is_dict=False):
        for gsa, v in alts(v):
            gs1 = tuple(gs0) + tuple(g for g in gsa if g not in st.guards)
            cs = None
            if is_dict:
                ob = self.obj(st, v)
                cs = list(ob.cs) if ob is not None and ob.kind == 'dict' else list(v.a[1]) if v.op == 'coll' and v.a[0] == 'dict' else [(None, (), ())]
            else:
                cs = self.iter_src(st, v)
                ob = self.obj(st, v)
            if cs is None:
                ls, e, gs = self.loop_elem(st, v)
                cs = [(e, gs, ls)]
            for e, gs, ls in cs:
                clash = [l for l in ls if l in st.loops]
                if clash and e is not None:
                    m = {l: self.fresh_loop(st, l) for l in clash}
                    e, gs, ls = subst(e, m), tuple(subst(g, m) for g in gs), tuple(m.get(l, l) for l in ls)
                self.contribute(st, ref, e, gs1 + tuple(gs), ls)

    def m_extend(self, st, ref, v, n):
        self.ev(st, n, 'mutate', recv=ref, how='extend', args=(self.freeze(st, v),), frozen=None, aug=None, raw=v)
        self.extend_obj(st, ref, v)

    def coll_method(self, ref, ob, name, args, kw, st, n):
        k = ob.kind
        fargs = tuple(self.freeze(st, a) for a in args)
        if name in MUTATORS:
            self.ev(st, n, 'mutate', recv=ref, how=name, args=fargs, frozen=self.freeze(st, ref), aug=None, raw=args[0] if args else None)
        if name in ('append', 'add', 'appendleft') and args:
            self.contribute(st, ref, args[0])
            return NONE
        if name == 'insert' and len(args) == 2:
            if is_const(args[0], 0) and not [g for g in st.guards if g not in ob.base] and not [l for l in st.loops if l not in ob.loops]:
                st.heap[ref.a[0]] = ob.with_cs(((args[1], (), ()),) + ob.cs)
            else:
                self.contribute(st, ref, mk('inserted', fargs[0], self.freeze(st, args[1])), flag='reordered')
            return NONE
        if name == 'extend' or (name == 'update' and k == 'set'):
            for a in args:
                self.extend_obj(st, ref, a)
            return NONE
        if name == 'update' and k == 'dict':
            for a in args:
                self.extend_obj(st, ref, a, is_dict=True)
            for kk, v in kw.items():
                if kk != '**':
                    self.contribute(st, ref, mk('kv', const(kk), v))
            return NONE
        if name in ('remove', 'discard') and args:
            simple = all(c[0] is not None and c[0].op == 'const' and not c[2] for c in ob.cs) and fargs[0].op == 'const'
            if simple:
                out = []
                dead = [g for g in st.guards if g not in ob.base]
                for e, gs, ls in ob.cs:
                    if e is fargs[0]:
                        if dead:
                            out.append((e, gs + (neg(conj(*dead)),), ls))
                        continue
                    out.append((e, gs, ls))
                st.heap[ref.a[0]] = ob.with_cs(tuple(out))
            else:
                out = []
                dead = tuple(g for g in st.guards if g not in ob.base)
                inloop = [l for l in st.loops if l not in ob.loops]
                for e, gs, ls in ob.cs:
                    if e is None or inloop:
                        out.append((e, gs, ls))
                        continue
                    c = cmp_('==', self.freeze(st, e), fargs[0])
                    ng = neg(conj(c, *dead))
                    if ng is FALSE:
                        continue
                    out.append((e, gs + ((ng,) if ng is not TRUE else ()), ls))
                st.heap[ref.a[0]] = ob.with_cs(tuple(out), 'shrunk')
            return NONE
        if name == 'pop':
            r = mk('call', mk('attr', self.freeze(st, ref), 'pop'), fargs, (), next(self._uid))
            self.contribute(st, ref, None, flag='shrunk')
            return r
        if name == 'clear':
            st.heap[ref.a[0]] = ob.with_cs(())
            return NONE
        if name in ('sort', 'reverse'):
            st.heap[ref.a[0]] = ob.with_cs(ob.cs, 'reordered')
            if name == 'reverse' and k == 'list':
                v = mk('call', mk('ext', 'builtins.reversed'), (self.freeze(st, ref),), ())
                st.heap[ref.a[0]] = ob.with_cs((), 'reordered')
                self.extend_obj(st, ref, v)
            if name == 'sort':
                key = self.keyfn(kw.get('key'), st, n)
                if self.sorted_term and k == 'list':
                    v = mk('sorted', self.freeze(st, ref), key, self.freeze(st, kw.get('reverse', FALSE)))
                    ob = st.heap[ref.a[0]]
                    st.heap[ref.a[0]] = ob.with_cs(())
                    self.extend_obj(st, ref, v)
            return NONE
        if name == 'copy':
            return self.copy_obj(st, ref, ob.kind, n)
        if name in ('union', 'intersection', 'difference') and k == 'set':
            return self.set_op(name, ref, args, st, n)
        if k == 'dict':
            if name == 'get' and args:
                key = fargs[0]
                d = args[1] if len(args) > 1 else NONE
                if not self.obj(st, ref).cs:
                    return d
                if key.op == 'const' and all(c[0] is not None and c[0].op == 'kv' and c[0].a[0].op == 'const' and not c[2] for c in ob.cs):
                    hit = [c for c in ob.cs if c[0].a[0] is key]
                    if not hit:
                        return d
                    if not hit[-1][1]:
                        return hit[-1][0].a[1]
                    return alt([(hit[-1][1], hit[-1][0].a[1]), ((neg(conj(*hit[-1][1])),), d)])
                if key.op != 'const' and self.table(st, ref) is not None:
                    return self.table_get(self.table(st, ref), key, d)
                return mk('call', mk('attr', self.freeze(st, ref), 'get'), fargs, ())
            if name == 'keys':
                r = self.alloc(st, 'list', (), n)
                st.heap[r.a[0]] = st.heap[r.a[0]].with_cs(tuple((c[0].a[0] if c[0] is not None else None, c[1], c[2]) for c in ob.cs if not nested(c[0])))
                return r
            if name == 'values':
                r = self.alloc(st, 'list', (), n)
                st.heap[r.a[0]] = st.heap[r.a[0]].with_cs(tuple((c[0].a[1] if c[0] is not None and not nested(c[0]) else None, c[1], c[2]) for c in ob.cs))
                return r
            if name == 'items':
                r = self.alloc(st, 'list', (), n)
                st.heap[r.a[0]] = st.heap[r.a[0]].with_cs(tuple((mk('tuple', c[0].a[0], c[0].a[1]) if c[0] is not None and not nested(c[0]) else None, c[1], c[2]) for c in ob.cs))
                return r
            if name == 'setdefault' and len(args) == 2:
                v = mk('idx', self.freeze(st, ref), fargs[0])
                self.contribute(st, ref, mk('kv', fargs[0], args[1]), (neg(member(fargs[0], self.freeze(st, ref))),))
                return v
        if name == 'index' and args:
            return mk('call', mk('attr', self.freeze(st, ref), 'index'), fargs, ())
        if name == 'count' and args:
            return mk('call', mk('attr', self.freeze(st, ref), 'count'), fargs, ())
        return None

    def frozen_method(self, recv, name, args, kw, st, n):
        kind = recv.a[0]
        if name in ('union', 'intersection', 'difference'):
            return self.set_op(name, recv, args, st, n)
        if name == 'copy':
            r = self.alloc(st, kind, recv.a[1], n)
            return r
        if name == 'get' and kind == 'dict' and args and not recv.a[1]:
            return args[1] if len(args) > 1 else NONE
        if name == 'get' and kind == 'dict' and args and self.table(st, recv) is not None:
            return self.table_get(self.table(st, recv), self.freeze(st, args[0]), args[1] if len(args) > 1 else NONE)
        if name in ('values', 'items') and kind == 'dict' and all(c[0] is not None and not nested(c[0]) for c in recv.a[1]):
            return mk('coll', 'list', tuple((c[0].a[1] if name == 'values' else mk('tuple', *c[0].a), c[1], c[2]) for c in recv.a[1]))
        if name == 'keys' and kind == 'dict':
            return mk('coll', 'list', tuple((c[0].a[0] if c[0] is not None else None, c[1], c[2]) for c in recv.a[1] if not nested(c[0])))
        return None

    def table_get(self, tb, k, d):
        conds = [cmp_('==', k, x) for x, _ in tb]
        return alt([((c,), v) for c, (_, v) in zip(conds, tb) if c is not FALSE] + [((neg(disj(*conds)),), d)])

    def copy_obj(self, st, v, kind, n):
        ob = self.obj(st, v)
        r = self.alloc(st, kind, (), n)
        if ob is not None and ob.kind != 'inst':
            cs = ob.cs
            if kind != 'dict' and ob.kind == 'dict':
                cs = tuple((c[0].a[0] if c[0] is not None and c[0].op == 'kv' else c[0], c[1], c[2]) for c in cs if not nested(c[0]))
            if kind == 'dict' and ob.kind != 'dict':
                cs = tuple((mk('kv', self.freeze(st, c[0].a[0]), c[0].a[1]) if c[0] is not None and c[0].op == 'tuple' and len(c[0].a) == 2 else None, c[1], c[2]) for c in cs)
            fl = ob.flags
            st.heap[r.a[0]] = Obj(kind, cs, st.heap[r.a[0]].base, st.loops, None, n, fl)
            return r
        if kind == 'dict':
            if v.op == 'coll' and v.a[0] == 'dict':
                st.heap[r.a[0]] = st.heap[r.a[0]].with_cs(v.a[1])
            else:
                cs = self.iter_src(st, v)
                if cs is not None and all(c[0] is not None and c[0].op == 'tuple' and len(c[0].a) == 2 for c in cs):
                    st.heap[r.a[0]] = st.heap[r.a[0]].with_cs(tuple((mk('kv', self.freeze(st, c[0].a[0]), c[0].a[1]), c[1], c[2]) for c in cs))
                elif cs is None and v.op in ('zip', 'enum', 'items') and self.loop_elem(st, v)[1].op == 'tuple' and len(self.loop_elem(st, v)[1].a) == 2:
                    ls, e, gs = self.loop_elem(st, v)
                    self.contribute(st, r, mk('kv', self.freeze(st, e.a[0]), e.a[1]), gs, ls)
                else:
                    st.heap[r.a[0]] = st.heap[r.a[0]].with_cs(((None, (), (mk('dictof', self.freeze(st, v)),)),))
            return r
        self.extend_obj(st, r, v)
        return r

    def keyfn(self, k, st, n):
        if k is None or k is NONE:
            return NONE
        a = mk('arg', 0)
        s = st.copy()
        m = len(self.events)
        try:
            v = self.call_value(k, [a], {}, s, n)
        except Budget:
            raise
        return self.freeze(s, v)

    # ---- builtins
    def builtin(self, q, args, kw, st, n):
        nm = q.split('.')[-1]
        if q in WRAP_ITER or nm in ('tqdm', 'trange') and q.startswith('tqdm'):
            if q in ('builtins.list', 'builtins.tuple'):
                if not args:
                    return self.alloc(st, 'list', (), n)
                v = args[0]
                if q == 'builtins.tuple' and v.op == 'tuple':
                    return v
                if v.op == 'coll' and v.a[0] == 'set' or (self.obj(st, v) is not None and self.obj(st, v).kind == 'set'):
                    self.ev(st, n, 'setorder', src=self.freeze(st, v))
                    r = self.copy_obj(st, v, 'list', n)
                    ob = self.obj(st, r)
                    st.heap[r.a[0]] = ob.with_cs(ob.cs, 'setorder')
                    return r
                if v.op == 'alt':
                    vs = set(self.freeze(st, x) for _, x in alts(v))
                    if len(vs) == 1:
                        v = next(iter(vs))
                return self.copy_obj(st, v, 'list', n)
            if args:
                return args[0]
            return self.opaque_call(mk('ext', q), args, kw, st, n)
        if nm == 'deepcopy' or q == 'copy.copy':
            if args:
                self.ev(st, n, 'call', f=mk('ext', q), name=nm, args=tuple(self.freeze(st, a) for a in args), kw={}, result=None, raw=tuple(args), rawkw={}, recv=None)
                ob = self.obj(st, args[0])
                if ob is not None and ob.kind in ('list', 'set', 'dict'):
                    return self.copy_obj(st, args[0], ob.kind, n)
                if self.listlike(st, args[0]):
                    return self.copy_obj(st, args[0], 'list', n)
                if args[0].op == 'coll':
                    return self.copy_obj(st, args[0], args[0].a[0], n)
                if args[0].op == 'const':
                    return args[0]
                return mk('call', mk('ext', q), (self.freeze(st, args[0]),), (), next(self._uid))
        if q in ('functools.partial',) and args:
            return mk('partial', args[0], tuple(args[1:]), tuple(sorted(kw.items())))
        if q in ('heapq.heappush',) and len(args) == 2:
            for gs, b in alts(args[0]):
                self.ev(st, n, 'mutate', recv=b, how='heappush', args=(self.freeze(st, args[1]),), frozen=self.freeze(st, b), aug=None)
                if self.obj(st, b) is not None:
                    self.contribute(st, b, args[1])
            return NONE
        if q in ('heapq.heapreplace', 'heapq.heappushpop', 'heapq.heappop', 'heapq.heapify', 'bisect.insort', 'bisect.insort_left', 'bisect.insort_right') and args:
            for gs, b in alts(args[0]):
                self.ev(st, n, 'mutate', recv=b, how=nm, args=tuple(self.freeze(st, a) for a in args[1:]), frozen=self.freeze(st, b), aug=None)
                if self.obj(st, b) is not None:
                    if len(args) > 1:
                        self.contribute(st, b, args[1], flag=nm)
                    else:
                        ob = self.obj(st, b)
                        st.heap[b.a[0]] = ob.with_cs(ob.cs, nm)
            return mk('call', mk('ext', q), tuple(self.freeze(st, a) for a in args), (), next(self._uid))
        if nm == 'shuffle' and args:
            self.shuffle(args[0], st, n)
            return None
        if q == 'itertools.chain' or q == 'itertools.chain.from_iterable':
            if q == 'itertools.chain':
                r = self.alloc(st, 'list', (), n)
                for a in args:
                    self.extend_obj(st, r, a)
                return r
        if q == 'itertools.islice' and len(args) == 2:
            return mk_slice(self.freeze(st, args[0]), NONE, self.freeze(st, args[1]), NONE)
        if q == 'threading.Thread' and 'target' in kw:
            a = kw.get('args', mk('tuple'))
            return mk('thread', kw['target'], tuple(c[0] for c in (self.iter_src(st, a) or [])), next(self._uid))
        if q == 'collections.OrderedDict':
            q, nm = 'builtins.dict', 'dict'
        if q == 'collections.defaultdict':
            return self.alloc(st, 'dict', (), n)
        if q == 'collections.deque':
            r = self.alloc(st, 'list', (), n)
            if args:
                self.extend_obj(st, r, args[0])
            return r
        if q.startswith('operator.') and len(args) == 2 and nm in OPERATORS and not kw:
            o = OPERATORS[nm]
            if o in (ast.BitAnd, ast.BitOr, ast.Add, ast.Sub, ast.Mult):
                return self.binary(o, args[0], args[1], st, n)
            r = self.compare(o(), args[0] if nm != 'contains' else args[1], args[1] if nm != 'contains' else args[0], st)
            return r
        if not q.startswith('builtins.'):
            return None
        A = lambda i: self.freeze(st, args[i])
        if nm == 'len' and args:
            return self.len_(args[0], st, n)
        if nm == 'set' or nm == 'frozenset':
            if not args:
                return self.alloc(st, 'set', (), n)
            return self.copy_obj(st, args[0], 'set', n)
        if nm == 'dict':
            r = self.copy_obj(st, args[0], 'dict', n) if args else self.alloc(st, 'dict', (), n)
            for k, v in kw.items():
                if k != '**':
                    self.contribute(st, r, mk('kv', const(k), v))
                else:
                    self.extend_obj(st, r, v, is_dict=True)
            return r
        if nm == 'range':
            fa = [A(i) for i in range(len(args))]
            lo, hi, step = ZERO, None, ONE
            if len(fa) == 1:
                hi = fa[0]
            elif len(fa) >= 2:
                lo, hi = fa[0], fa[1]
                if len(fa) == 3:
                    step = fa[2]
            if hi is not None:
                if all(isinstance(cval(x), int) for x in (lo, hi, step)) and cval(step) and len(range(cval(lo), cval(hi), cval(step))) <= 12:
                    return mk('tuple', *[const(i) for i in range(cval(lo), cval(hi), cval(step))])
                return mk('range', lo, hi, step)
        if nm == 'enumerate' and args:
            start = A(1) if len(args) > 1 else self.freeze(st, kw['start']) if 'start' in kw else ZERO
            cs = self.iter_src(st, args[0])
            if cs is not None and isinstance(cval(start), int) and all(c[0] is not None and not c[1] and not c[2] for c in cs):
                r = self.alloc(st, 'list', (), n)
                for i, c in enumerate(cs):
                    self.contribute(st, r, mk('tuple', const(cval(start) + i), c[0]))
                return r
            return mk('enum', self.freeze(st, st.fields.get((A(0), '#sql'), A(0))), start)
        if nm == 'zip' and args:
            css = [self.iter_src(st, a) for a in args]
            if all(cs is not None and all(c[0] is not None and not c[1] and not c[2] for c in cs) for cs in css) and len(set(map(len, css))) == 1:
                r = self.alloc(st, 'list', (), n)
                for t in zip(*css):
                    self.contribute(st, r, mk('tuple', *[c[0] for c in t]))
                return r
            return mk('zip', *[self.freeze(st, st.fields.get((A(i), '#sql'), A(i))) for i in range(len(args))])
        if nm in ('map', 'filter') and len(args) >= 2:
            cs = self.iter_src(st, args[1])
            if cs is None or len(args) > 2:
                src = args[1] if len(args) == 2 else mk('zip', *[A(i) for i in range(1, len(args))])
                ls, e, gs = self.loop_elem(st, src)
                cs = [(e, gs, ls)]
            r = self.alloc(st, 'list', (), n)
            g0, l0 = st.guards, st.loops
            for e, gs, ls in cs:
                if e is None:
                    self.contribute(st, r, e, gs, ls)
                    continue
                st.guards, st.loops = g0, l0 + tuple(l for l in ls if l not in l0)
                for g in gs:
                    self.assume(st, g)
                fa = list(e.a) if len(args) > 2 and e.op == 'tuple' else [e]
                if nm == 'map':
                    v = self.call_value(args[0], fa, {}, st, n)
                    self.contribute(st, r, v)
                else:
                    c = truth(self.freeze(st, e if args[0] is NONE else self.call_value(args[0], fa, {}, st, n)))
                    if self.assume(st, c):
                        self.contribute(st, r, e)
            st.guards, st.loops = g0, l0
            return r
        if nm == 'sorted' and args:
            key = self.keyfn(kw.get('key'), st, n)
            rev = self.freeze(st, kw.get('reverse', FALSE))
            v = args[0]
            r = self.copy_obj(st, v, 'list', n)
            ob = self.obj(st, r)
            st.heap[r.a[0]] = Obj('list', ob.cs, ob.base, ob.loops, None, n, frozenset({'sorted'}))
            self.ev(st, n, 'sort', src=self.freeze(st, v), key=key, reverse=rev, result=r)
            return mk('sorted', self.freeze(st, v), key, rev) if self.sorted_term else r
        if nm == 'reversed' and args:
            return mk('reversed', A(0))
        if nm in ('any', 'all') and args:
            cs = self.iter_src(st, args[0])
            if cs is not None and all(c[0] is not None for c in cs):
                outs = []
                for e, gs, ls in cs:
                    c = truth(self.freeze(st, e))
                    if nm == 'all':
                        c = neg(c)
                    outs.append(self.exists(st, c, gs, ls))
                r = disj(*outs)
                return neg(r) if nm == 'all' else r
            return truth(mk('call', mk('ext', q), (A(0),), ()))
        if nm in ('max', 'min') and args:
            key = self.keyfn(kw.get('key'), st, n)
            if len(args) == 1:
                self.may_raise(st)
                return mk(nm, A(0), key, self.freeze(st, kw['default']) if 'default' in kw else mk('nodefault'))
            xs = tuple(sorted(set(A(i) for i in range(len(args))), key=lambda z: z.n))
            return mk(nm + 'of', *xs)
        if nm == 'sum' and args:
            return mk('sum', A(0))
        if nm == 'isinstance' and len(args) == 2:
            t = args[1]
            if t.op == 'tuple':
                return disj(*[mk('isa', A(0), x) for x in t.a])
            x = A(0)
            if x.op == 'const' and t.op == 'ext' and t.a[0] in ('builtins.int', 'builtins.str', 'builtins.float', 'builtins.list', 'builtins.dict', 'builtins.bool'):
                return const(isinstance(x.a[0], getattr(_b, t.a[0][9:])))
            if t.op == 'ext' and t.a[0] == 'builtins.list' and x.op == 'attr' and self.listlike(st, x):
                return TRUE
            if x.op == 'coll' and t.op == 'ext':
                return TRUE if t.a[0] == 'builtins.' + x.a[0] else FALSE
            return mk('isa', x, t)
        if nm == 'issubclass' and len(args) == 2:
            return mk('truthy', mk('call', mk('ext', q), (A(0), A(1)), ()))
        if nm == 'type' and len(args) == 1:
            c = self.class_of(args[0], st)
            if c is not None:
                return mk('class', c.qual)
            return mk('call', mk('ext', q), (A(0),), ())
        if nm == 'str' and args and A(0).op == 'qtext':
            return A(0)
        if nm == 'str' and args:
            return strtmpl([(A(0), '', '')])
        if nm == 'repr' and args:
            return strtmpl([(A(0), '!r', '')])
        if nm == 'bool' and args:
            return truth(A(0))
        if nm in ('int', 'float', 'abs', 'round') and args and A(0).op == 'const' and len(args) == 1:
            try:
                return const({'int': int, 'float': float, 'abs': abs, 'round': round}[nm](cval(A(0))))
            except Exception:
                return None
        if nm == 'getattr' and len(args) >= 2 and isinstance(cval(args[1]), str):
            return self.getattr(args[0], cval(args[1]), st, n)
        if nm == 'setattr' and len(args) == 3 and isinstance(cval(args[1]), str):
            b = args[0]
            self.ev(st, n, 'setfield', base=b, attr=cval(args[1]), value=A(2), raw=args[2], old=st.fields.get((b, cval(args[1]))), aug=None)
            st.fields[(b, cval(args[1]))] = args[2]
            return NONE
        if nm == 'hasattr' and len(args) == 2 and isinstance(cval(args[1]), str):
            return truth(mk('hasattr', A(0), args[1]))
        if nm == 'next' and args:
            self.may_raise(st)
            v = args[0]
            t = mk('call', mk('ext', q), tuple(A(i) for i in range(len(args))), (), next(self._uid))
            self.ev(st, n, 'call', f=mk('ext', q), name='next', args=tuple(A(i) for i in range(len(args))), kw={}, result=t, raw=tuple(args), rawkw={}, recv=None)
            return t
        if nm == 'print':
            return NONE
        return None

    sorted_term = True

    def exists(self, st, c, gs, ls):
        ls = tuple(l for l in ls if any(contains(x, lambda z: z is l) for x in (c,) + tuple(gs)) or LOOP_SRC.get(l) is None or nonempty(LOOP_SRC[l]) is not TRUE)
        if not ls:
            return conj(*(tuple(gs) + (c,)))
        if len(ls) == 1 and c.op == 'eq' and not gs:
            for x, y in ((c.a[0], c.a[1]), (c.a[1], c.a[0])):
                if contains(y, lambda z: z is ls[0]) and not contains(x, lambda z: z is ls[0]):
                    r = TT.member_gen(x, y, (), ls)
                    if r is not None:
                        return r
        return mk('truthy', mk('exists', conj(*(tuple(gs) + (c,))), ls))

    def len_(self, v, st, n=None):
        if v.op == 'alt':
            return alt([(gs, self.len_(x, st, n)) for gs, x in v.a[0]])
        c = self.class_of(v, st)
        if c is not None:
            f = c.find('__len__')
            if f is not None:
                return self.call_func(f, [v], {}, st, n, cls=c, selfval=v)
        return length(self.freeze(st, v))

    # ---- relational dataset model
    def ds_method(self, recv, name, args, kw, st, n):
        if recv.op in ('const', 'str', 'tuple', 'kwds', 'glob', 'ext'):
            return None
        fr = self.freeze(st, recv)
        if name == 'values' and not args and not kw and fr.op not in ('rows', 'uniq', 'dropped') and not self.ds_like(fr):
            return None
        if not self.ds_like(fr):
            return None

        def arg(i, k, d):
            return args[i] if len(args) > i else kw.get(k, d)
        self.may_raise(st)
        if name == 'select':
            q = self.freeze(st, arg(0, 'query', NONE))
            self.quoting(st, n, name, q)
            cp = self.freeze(st, arg(1, 'copy', TRUE))
            self.ev(st, n, 'dscall', name=name, recv=fr, query=q, copy=cp)
            if cp is not TRUE:
                self.ev(st, n, 'mutate', recv=recv, how='select(copy=%s)' % show(cp), args=(q,), frozen=fr, aug=None)
                return recv
            return self.select(fr, q)
        if name == 'select_one':
            q = self.freeze(st, arg(0, 'query', NONE))
            self.quoting(st, n, name, q)
            cols = self.cols(arg(1, 'columns', NONE), st)
            tl = self.freeze(st, arg(2, 'to_list', FALSE))
            self.ev(st, n, 'dscall', name=name, recv=fr, query=q, cols=cols)
            r = mk('one', self.select(fr, q))
            if tl is TRUE and isinstance(cols, tuple):
                if len(cols) == 1:
                    return fld(r, cols[0])
                return mk('tuple', *[fld(r, c) for c in cols])
            if tl is FALSE:
                return r
            return mk('rowvals', r, cols if isinstance(cols, T) else NONE, tl)
        if name in ('values', 'values_list'):
            cols = self.cols(arg(0, 'columns', NONE), st)
            tl = self.freeze(st, arg(1, 'to_list', FALSE))
            self.ev(st, n, 'dscall', name=name, recv=fr, cols=cols, to_list=tl)
            v = mk('vals', fr, cols, tl is TRUE) if tl.op == 'const' else mk('vals', fr, mk('colsT', tl), False)
            if name == 'values_list':
                r = self.alloc(st, 'list', (), n)
                self.extend_obj(st, r, v)
                return r
            return v
        if name == 'unique':
            cols = self.cols(arg(0, 'columns', NONE), st)
            cp = self.freeze(st, arg(1, 'copy', TRUE))
            self.ev(st, n, 'dscall', name=name, recv=fr, cols=cols, copy=cp)
            if cp is not TRUE:
                self.ev(st, n, 'mutate', recv=recv, how='unique(copy=False)', args=(), frozen=fr, aug=None)
            return mk('uniq', fr, cols)
        if name == 'drop':
            rids = self.freeze(st, arg(0, 'record_ids', NONE))
            cp = self.freeze(st, arg(1, 'copy', TRUE))
            keep = self.freeze(st, arg(2, 'keep', FALSE))
            self.ev(st, n, 'dscall', name=name, recv=fr, rids=rids, copy=cp, keep=keep)
            if cp is not TRUE:
                self.ev(st, n, 'mutate', recv=recv, how='drop(copy=False)', args=(rids,), frozen=fr, aug=None)
            return mk('dropped', fr, rids, keep)
        return None

    DS_NAMES = {'interaction_dataset', 'ds_test', 'ds', 'ds_train', 'dataset', 'user_ds', 'user_rows_ds', 'copied_dataset', 'validation_data'}

    def ds_like(self, v):
        if v.op in ('rows', 'uniq', 'dropped', 'rowsq'):
            return True
        if v.op == 'alt' or v.op == 'any':
            return any(self.ds_like(x) for _, x in alts(v))
        if v.op == 'param':
            return v.a[1] in self.DS_NAMES or v.a[1].endswith('_ds') or v.a[1].endswith('dataset')
        if v.op == 'attr':
            return v.a[1] == 'interaction_dataset' or v.a[1].endswith('dataset')
        if v.op == 'call' and v.a[0].op == 'attr' and v.a[0].a[1] == 'copy':
            return self.ds_like(v.a[0].a[0])
        if v.op == 'dsroot':
            return True
        return False

    def cols(self, v, st):
        f = self.freeze(st, v)
        if f is NONE:
            return None
        if isinstance(cval(f), str):
            return (f.a[0],)
        if f.op == 'coll' and all(c[0] is not None and isinstance(cval(c[0]), str) and not c[1] and not c[2] for c in f.a[1]):
            return tuple(cval(c[0]) for c in f.a[1])
        if f.op == 'coll' and all(c[0] is not None and not c[1] and not c[2] for c in f.a[1]):
            return tuple(cval(c[0]) if isinstance(cval(c[0]), str) else c[0] for c in f.a[1])
        return f

    def quoting(self, st, n, name, q):
        """Raw ids (strings or numbers) must be written as literals into a query."""
        def visit(x):
            if x.op != 'str' or any(isinstance(p, tuple) and p[0].op == 'unk' for p in x.a[0]):
                return
            ps = x.a[0]
            for i in range(1, len(ps)):
                if isinstance(ps[i], tuple) and isinstance(ps[i - 1], str) and ps[i - 1].rstrip()[-2:] in ('==', '!='):
                    col = ps[i - 1].rstrip()[:-2].split(',')[-1].strip()
                    nxt = ps[i + 1] if i + 1 < len(ps) else ''
                    if col in ('user', 'item') or col == '' and i > 1 and isinstance(ps[i - 2], tuple):
                        if isinstance(nxt, str) and (nxt == '' or nxt.lstrip()[:1] in ('', ',')):
                            t, conv, spec = ps[i]
                            raw = not conv and not spec and (t.op in ('fld', 'elem', 'idx', 'row') and not contains(t, lambda z: z.op in ('unk', 'any')))
                            self.ev(st, n, 'quoting', name=name, raw=raw, value=t, col=col)
        seen = set()
        for x in TT.walk(q):
            if isinstance(x, T) and x not in seen:
                seen.add(x)
                visit(x)

    def select(self, ds, q):
        if q.op == 'alt':
            return alt([(gs, self.select(ds, v)) for gs, v in q.a[0]])
        conds = parse_query(q)
        if conds is None:
            return mk('rowsq', ds, q)
        return rows(ds, conds)

    # ---- pools
    def pool_method(self, recv, name, args, kw, st, n):
        if not args:
            return None
        f = args[0]
        callee = [x for _, x in alts(f)]
        if not all(x.op in ('func', 'closure', 'bound', 'partial') for x in callee):
            return None
        if name in ('apply_async', 'apply'):
            a = args[1] if len(args) > 1 else kw.get('args', mk('tuple'))
            k = args[2] if len(args) > 2 else kw.get('kwds')
            cs = self.iter_src(st, a)
            if cs is None:
                return None
            fa = [c[0] for c in cs]
            fk = {}
            if k is not None:
                ob = self.obj(st, k)
                if ob is None:
                    return None
                fk = {cval(c[0].a[0]): c[0].a[1] for c in ob.cs}
            self.spawn(f, fa, fk, st, n, recv)
            return mk('async', next(self._uid))
        if name == 'submit':
            self.spawn(f, list(args[1:]), kw, st, n, recv)
            return mk('async', next(self._uid))
        if name in ('map', 'starmap', 'imap', 'imap_unordered', 'map_async', 'starmap_async') and len(args) > 1:
            ls, e, gs = self.loop_elem(st, args[1])
            g0, l0 = st.guards, st.loops
            st.loops = st.loops + ls
            for g in gs:
                self.assume(st, g)
            fa = list(e.a) if name.startswith('starmap') and e.op == 'tuple' else [e]
            self.spawn(f, fa, {}, st, n, recv)
            st.guards, st.loops = g0, l0
            return mk('async', next(self._uid))
        return None

    def spawn(self, f, args, kw, st, n, pool):
        uid = next(self._uid)
        t = mk('task', uid)
        self.ev(st, n, 'spawn', f=f, args=tuple(self.freeze(st, a) for a in args), kw={k: self.freeze(st, v) for k, v in kw.items()}, pool=pool, task=t, raw=tuple(args))
        old, oldl, g0 = st.tasks, st.locks, st.guards
        st.tasks, st.locks = st.tasks + (t,), ()
        sink = []
        c0 = dict(st.counts)
        st.counts = {}
        self.sinks.append(sink)
        lc, self.loopctx = self.loopctx, []
        tr, self.tries = self.tries, []
        v = self.call_value(f, list(args), dict(kw), st, n)
        self.loopctx, self.tries = lc, tr
        self.sinks.pop()
        self.task_exits.append((t, dict(st.counts), [(dict(s.counts), s.locks) for s in sink]))
        st.counts = c0
        st.tasks, st.locks, st.guards = old, oldl, g0

    # ---- instances / functions
    def instantiate(self, c, args, kw, st, n):
        if c.name in self.opaque:
            return self.opaque_call(mk('ext', c.qual), args, kw, st, n)
        o = next(self._oid)
        ref = mk('ref', o)
        st.heap[o] = Obj('inst', (), frozenset(st.guards), st.loops, c.qual, n)
        self.objinfo[o] = ('inst', st.loops, st.tasks, n, self.acts[-1].func.qual if self.acts else '')
        self.ev(st, n, 'new', cls=c.qual, args=tuple(self.freeze(st, a) for a in args), kw={k: self.freeze(st, v) for k, v in kw.items()}, ref=ref)
        init = c.find('__init__')
        if init is not None:
            self.call_func(init, [ref] + args, kw, st, n, cls=c, selfval=ref)
        return ref

    def call_closure(self, cl, args, kw, st, n):
        c = self.closures[cl]
        return self.call_func(c.func, args, kw, st, n, parent=c.fid, cls=c.act.cls, selfval=c.act.selfval, closure_act=c.act)

    def can_inline(self, f):
        if f.abstract and self.is_stub(f):
            return False
        if f.qual in self.opaque or f.name in self.opaque:
            return False
        if len(self.acts) >= self.max_depth:
            return False
        if sum(1 for a in self.acts if a.func.node is f.node) >= 2:
            return False
        if self.inline_ok is not None and not self.inline_ok(f):
            return False
        return True

    def is_stub(self, f):
        body = [s for s in f.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
        return all(isinstance(s, ast.Pass) for s in body) or not body

    def call_func(self, f, args, kw, st, n, cls=None, selfval=None, parent=None, closure_act=None):
        if f is None:
            return unk('nofunc')
        if not self.can_inline(f):
            if selfval is not None and args and args[0] is selfval:
                r = self.opaque_call(mk('attr', selfval, f.name), args[1:], kw, st, n)
                for name in self.sets.get(f.name, ()):
                    st.fields[(selfval, name)] = mk('attr', mk('after', selfval), name)
                if f.name in self.extends:
                    for (o, name), v in list(st.fields.items()):
                        ob = self.obj(st, v) if o is selfval and isinstance(v, T) else None
                        if ob is not None and ob.kind != 'inst':
                            st.fields[(o, name)] = mk('attr', mk('after', selfval), name)
                return r
            return self.opaque_call(mk('func', f.qual), args, kw, st, n)
        if f.is_gen and len(self.acts) >= self.max_depth - 2:
            return self.opaque_call(mk('func', f.qual), args, kw, st, n)
        self.analysed.add(f.qual)
        act = Activation(f, next(self._fid), cls, selfval)
        if parent is None and f.cls is not None:
            parent = getattr(f.cls, 'encl', None)
        act.parent_fid = parent
        self.fparent[act.fid] = parent
        fr = self.bind(f, args, kw, st, act)
        st.frames[act.fid] = fr
        self.ev(st, n, 'enter', func=f.qual, args=tuple(self.freeze(st, a) for a in args), raw=tuple(args), kw={k: self.freeze(st, v) for k, v in kw.items()}, selfval=selfval)
        caller_guards = st.guards
        self.acts.append(act)
        lc, self.loopctx = self.loopctx, []
        if isinstance(f.node, ast.Lambda):
            v = self.eval(f.node.body, st)
            out = st
            rets = [(st, v)]
        else:
            s = st.copy()
            s.ver = 0
            out = self.block(f.node.body, s)
            rets = list(act.returns)
            if out is not None:
                rets.append((out, NONE))
        self.loopctx = lc
        self.acts.pop()
        if f.is_gen:
            # eager summary of a generator: its yields as contributions
            m = self.merge_all([r[0] for r in rets])
            if m is not None:
                self.adopt(st, m)
            st.guards = caller_guards
            st.frames.pop(act.fid, None) if not self.has_closure(act) else None
            r = self.alloc(st, 'list', (), n)
            cs = []
            for v, gs, ls in act.yields:
                cs.append((v, tuple(g for g in gs if g not in caller_guards), tuple(l for l in ls if l not in st.loops)))
            st.heap[r.a[0]] = st.heap[r.a[0]].with_cs(tuple(cs), 'gen')
            return r
        if not rets:
            # never returns: make the state contradictory
            st.guards = st.guards + (FALSE,)
            st.frames[act.fid] = fr
            return mk('bottom')
        vals = []
        m = None
        if len(rets) == 1:
            m, v = rets[0]
            res = v
            if m is not st:
                self.adopt(st, m)
                st.locks = m.locks
        else:
            cg = set(caller_guards)
            for s_, v in rets:
                vals.append((tuple(g for g in s_.guards if g not in cg), v))
            m = self.merge_all([r[0] for r in rets])
            common = None
            for gs, _ in vals:
                common = set(gs) if common is None else common & set(gs)
            res = alt([(tuple(g for g in gs if g not in common), v) for gs, v in vals])
            self.adopt(st, m)
        if not self.has_closure(act):
            st.frames.pop(act.fid, None)
        self.ev(st, n, 'leave', func=f.qual, value=self.freeze(st, res))
        return res

    def has_closure(self, act):
        return any(c.fid == act.fid for c in self.closures.values())

    def bind(self, f, args, kw, st, act):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        fr = {}
        kw = dict(kw)
        extra = kw.pop('**', None)
        rest = []
        star = [x for x in args if x.op == 'star']
        for i, v in enumerate(args):
            if v.op == 'star':
                for j, nme in enumerate(names[i:]):
                    fr[nme] = mk('idx', v.a[0], const(j))
                break
            if i < len(names):
                fr[names[i]] = v
            else:
                rest.append(v)
        konly = [x.arg for x in a.kwonlyargs]
        kwrest = {}
        for k, v in kw.items():
            if k in names or k in konly:
                if v.op == 'alt' and any(x.op == 'absent' for _, x in alts(v)):
                    d = self.default_of(f, k, st, act)
                    v = alt([(gs, d if x.op == 'absent' else x) for gs, x in alts(v)])
                fr[k] = v
            else:
                kwrest[k] = v
        for k in names + konly:
            if k not in fr:
                d = self.default_of(f, k, st, act)
                if extra is not None and extra.op == 'kwds':
                    d = self.kwget(extra, k, d if d is not None else mk('missing', k), st)
                elif extra is not None:
                    d = mk('kwmaybe', self.freeze(st, extra), k, d if d is not None else NONE)
                fr[k] = d if d is not None else mk('missing', f.qual, k)
        if a.vararg:
            fr[a.vararg.arg] = mk('tuple', *rest)
        if a.kwarg:
            if extra is not None and extra.op == 'kwds':
                named = set(names)
                fr[a.kwarg.arg] = mk('kwds', extra.a[0], *([x for x in extra.a[1:] if x[0] not in kwrest] + sorted(kwrest.items(), key=lambda z: z[0])))
            elif extra is not None:
                fr[a.kwarg.arg] = extra
            else:
                o = self.alloc(st, 'dict')
                st.heap[o.a[0]] = st.heap[o.a[0]].with_cs(tuple((mk('kv', const(k), v), (), ()) for k, v in kwrest.items()))
                fr[a.kwarg.arg] = o
        return fr

    def default_of(self, f, name, st, act):
        a = f.node.args
        pos = a.posonlyargs + a.args
        for x, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            if x.arg == name:
                return self.default_val(f, d, name)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg == name and d is not None:
                return self.default_val(f, d, name)
        return None

    def default_val(self, f, d, name):
        if isinstance(d, ast.Constant):
            return const(d.value)
        if isinstance(d, ast.UnaryOp) and isinstance(d.operand, ast.Constant):
            try:
                return const(ast.literal_eval(d))
            except Exception:
                pass
        if isinstance(d, ast.Name):
            r = self.resolved(self.prog.resolve(f.mod, d.id))
            if r is not None:
                return r
        return mk('default', f.qual, name)


class Result:
    def __init__(self, it, act, sink):
        self.it, self.act = it, act
        self.returns = act.returns
        self.yields = act.yields
        self.events = it.events
        self.raise_states = sink

    def evs(self, *kinds):
        return [e for e in self.events if e.kind in kinds]

    def ret_values(self):
        """[(guards, frozen value, state)] of every return."""
        return [(s.guards, self.it.freeze(s, v), s) for s, v in self.returns]

    def exit_state(self):
        return self.it.merge_all([s.copy() for s, _ in self.returns])


def mk_any(*vs):
    out = []
    for v in vs:
        for x in (v.a[0] if v.op == 'any' else (v,)):
            if x not in out:
                out.append(x)
    if len(out) == 1:
        return out[0]
    return mk('any', tuple(sorted(out, key=lambda z: z.n)))


def dedup(sts):
    out, seen = [], set()
    for s in sts:
        key = (tuple(sorted((f, k, v.n) for f, fr in s.frames.items() for k, v in fr.items())),
               tuple(sorted((k[0].n if k[0] is not None else 0, k[1], v.n) for k, v in s.fields.items())),
               tuple((o, id(v.cs)) for o, v in s.heap.items()), tuple(sorted(s.counts.items())))
        if key not in seen:
            seen.add(key)
            out.append(s)
    return out[-40:] if len(out) > 40 else out


def dedup_counts(sts):
    out, seen = [], set()
    for s in sts:
        key = tuple(sorted(s.counts.items()))
        if key not in seen:
            seen.add(key)
            out.append(s)
    return out


LISTFIELDS = {'columns'}
DUNDER = {'__repr__': 'repr', '__str__': 'str', '__len__': 'len'}
OPERATORS = {'gt': ast.Gt, 'ge': ast.GtE, 'lt': ast.Lt, 'le': ast.LtE, 'eq': ast.Eq, 'ne': ast.NotEq, 'is_': ast.Is, 'is_not': ast.IsNot, 'contains': ast.In,
             'and_': ast.BitAnd, 'or_': ast.BitOr, 'add': ast.Add, 'sub': ast.Sub, 'mul': ast.Mult}


def lookup_try(n):
    """(dict expression, key expression) of a try whose only failing operation is one dictionary lookup"""
    if n.finalbody or len(n.handlers) != 1 or len(n.body) != 1 or not isinstance(n.body[0], (ast.Assign, ast.Return, ast.Expr)):
        return None
    h = n.handlers[0]
    if not isinstance(h.type, ast.Name) or h.type.id != 'KeyError' or h.name:
        return None
    subs = []
    for x in ast.walk(n.body[0]):
        if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Load):
            subs.append(x)
        elif isinstance(x, ast.Call) and not (isinstance(x.func, ast.Name) and x.func.id in ('int', 'str', 'float', 'len')):
            return None
        elif isinstance(x, (ast.Yield, ast.Await, ast.Lambda, ast.ListComp, ast.DictComp, ast.SetComp, ast.GeneratorExp)):
            return None
    if len(subs) != 1 or isinstance(subs[0].slice, (ast.Slice, ast.Constant)):
        return None
    return subs[0].value, subs[0].slice


NESTED = {'append', 'add', 'extend', 'update', 'insert', 'remove', 'discard'}


def nested(e):
    return e is not None and e.op == 'kvadd'


def rooted_self(t):
    while t.op in ('attr', 'idx'):
        t = t.a[0]
    return t.op == 'self' or t.op == 'clsattr'


def lit_term(v, g=None):
    if isinstance(v, (list, tuple)):
        if isinstance(v, tuple):
            return mk('tuple', *[lit_term(x) for x in v])
        return mk('coll', 'list', tuple((lit_term(x), (), ()) for x in v))
    if isinstance(v, (set, frozenset)):
        return mk('coll', 'set', tuple((lit_term(x), (), ()) for x in sorted(v, key=repr)))
    if isinstance(v, dict):
        return mk('coll', 'dict', tuple((mk('kv', lit_term(k), lit_term(x)), (), ()) for k, x in v.items()))
    return const(v)


# ---- facts -----------------------------------------------------------------------------------------------------------
def entails(guards, c):
    """TRUE / FALSE when the facts decide condition c, else c itself."""
    if c.op == 'const':
        return c
    s = guards if isinstance(guards, (set, frozenset)) else set(guards)
    if FALSE in s:
        return c
    if c in s:
        return TRUE
    if neg(c) in s:
        return FALSE
    if c.op == 'and':
        rs = [entails(s, x) for x in c.a]
        if any(r is FALSE for r in rs):
            return FALSE
        if all(r is TRUE for r in rs):
            return TRUE
        return c
    if c.op == 'or':
        rs = [entails(s, x) for x in c.a]
        if any(r is TRUE for r in rs):
            return TRUE
        if all(r is FALSE for r in rs):
            return FALSE
        return c
    r = _implied(s, c)
    if r:
        return TRUE
    if _implied(s, neg(c)):
        return FALSE
    return c


def _implied(s, c):
    o = c.op
    if o == 'not':
        x = c.a[0]
        if x.op == 'isnone':
            t = x.a[0]
            for g in s:
                if g.op == 'truthy' and g.a[0] is t:
                    return True
                if g.op == 'isa' and g.a[0] is t:
                    return True
                if g.op == 'eq' and t in g.a and any(y.op == 'const' and y.a[0] is not None for y in g.a):
                    return True
        if x.op == 'eq' and any(y.op == 'const' for y in x.a):
            k, t = (x.a[0], x.a[1]) if x.a[0].op == 'const' else (x.a[1], x.a[0])
            for g in s:
                if g.op == 'eq' and t in g.a:
                    y = g.a[0] if g.a[1] is t else g.a[1]
                    if y.op == 'const' and y.a[0] != k.a[0]:
                        return True
                if g.op == 'isnone' and g.a[0] is t:
                    return True
            if type(k.a[0]) in (int, float):
                lo, hi, sl, sh = bounds(s, t)
                v = k.a[0]
                if lo is not None and (v < lo or (v == lo and sl)):
                    return True
                if hi is not None and (v > hi or (v == hi and sh)):
                    return True
        if x.op == 'isa' and x.a[1].op == 'ext' and x.a[1].a[0] in EXCL:
            for g in s:
                if g.op == 'isa' and g.a[0] is x.a[0] and g.a[1] is not x.a[1] and g.a[1].op == 'ext' and g.a[1].a[0] in EXCL:
                    return True
                if g.op == 'isnone' and g.a[0] is x.a[0]:
                    return True
        if x.op == 'truthy':
            for g in s:
                if g.op == 'isnone' and g.a[0] is x.a[0]:
                    return True
                if g.op == 'eq' and x.a[0] in g.a and any(y.op == 'const' and not y.a[0] for y in g.a):
                    return True
    if o in ('lt', 'le'):
        a, b = c.a
        if o == 'le' and mk('lt', a, b) in s:
            return True
        if o == 'le' and mk('eq', *sorted((a, b), key=lambda z: z.n)) in s:
            return True
        if b.op == 'const' and type(b.a[0]) in (int, float):
            lo, hi, sl, sh = bounds(s, a)
            if hi is not None and (hi < b.a[0] or (hi == b.a[0] and (o == 'le' or sh))):
                return True
        if a.op == 'const' and type(a.a[0]) in (int, float):
            lo, hi, sl, sh = bounds(s, b)
            if lo is not None and (lo > a.a[0] or (lo == a.a[0] and (o == 'le' or sl))):
                return True
        # one transitive step
        for g in s:
            if g.op in ('lt', 'le') and g.a[0] is a and g.a[1] is not b:
                m = g.a[1]
                if mk('lt', m, b) in s or mk('le', m, b) in s:
                    if o == 'le' or g.op == 'lt' or mk('lt', m, b) in s:
                        return True
    if o == 'truthy':
        t = c.a[0]
        for g in s:
            if g.op == 'eq' and t in g.a and any(y.op == 'const' and y.a[0] for y in g.a):
                return True
    if o == 'nonempty':
        for g in s:
            if g.op in ('lt',) and g.a[1].op == 'len' and g.a[1].a[0] is c.a[0] and g.a[0].op == 'const' and type(g.a[0].a[0]) in (int, float) and g.a[0].a[0] >= 0:
                return True
    return False


EXCL = {'builtins.' + x for x in ('int', 'float', 'str', 'list', 'dict', 'tuple', 'set')}


def bounds(s, t):
    lo = hi = None
    sl = sh = False
    if t.op == 'len':
        lo = 0
    for g in s:
        if g.op in ('lt', 'le'):
            a, b = g.a
            if b is t and a.op == 'const' and type(a.a[0]) in (int, float):
                if lo is None or a.a[0] > lo or (a.a[0] == lo and g.op == 'lt'):
                    lo, sl = a.a[0], g.op == 'lt'
            if a is t and b.op == 'const' and type(b.a[0]) in (int, float):
                if hi is None or b.a[0] < hi or (b.a[0] == hi and g.op == 'lt'):
                    hi, sh = b.a[0], g.op == 'lt'
        elif g.op == 'eq' and t in g.a:
            y = g.a[0] if g.a[1] is t else g.a[1]
            if y.op == 'const' and type(y.a[0]) in (int, float):
                lo = hi = y.a[0]
                sl = sh = False
        elif g.op == 'nonempty' and t.op == 'len' and g.a[0] is t.a[0]:
            if lo is None or lo < 1:
                lo, sl = 1, False
    return lo, hi, sl, sh


RNG_PARAMS = {'sample': ('population', 'k'), 'randint': ('a', 'b'), 'uniform': ('a', 'b'), 'choice': ('seq',), 'shuffle': ('x',), 'randrange': ('start', 'stop', 'step')}


# ---- query templates -------------------------------------------------------------------------------------------------
QOPS = ('==', '!=', '>=', '<=', '>', '<')


def parse_query(q):
    """Template -> tuple of (op, col, value term) or None."""
    parts = parts_of(q)
    clauses, cur = [], []
    for p in parts:
        if isinstance(p, str):
            segs = p.split(',')
            for i, s in enumerate(segs):
                if i:
                    clauses.append(cur)
                    cur = []
                if s:
                    cur.append(s)
        else:
            if p[0].op == 'join':
                return None
            cur.append(p)
    clauses.append(cur)
    out = []
    for cl in clauses:
        txt, vals = '', []
        for p in cl:
            if isinstance(p, str):
                txt += p
            else:
                txt += '\x00%d\x00' % len(vals)
                vals.append(p)
        toks = txt.split()
        if len(toks) != 3:
            return None
        col, op, val = toks
        if op not in QOPS:
            return None
        def tok(x):
            if x.startswith('\x00') and x.endswith('\x00') and x.count('\x00') == 2:
                return vals[int(x[1:-1])]
            return None
        c, v = tok(col), tok(val)
        if c is not None:
            colv = c[0]
            if isinstance(cval(colv), str):
                colv = cval(colv)
        elif '\x00' in col:
            return None
        else:
            colv = col
        if v is not None:
            vv = v[0]
        elif '\x00' in val:
            # quoted value: '{x}' or "{x}"
            if len(val) > 2 and val[0] == val[-1] and val[0] in '\'"' and tok(val[1:-1]) is not None:
                vv = mk('strof', tok(val[1:-1])[0])
            else:
                return None
        else:
            try:
                vv = const(ast.literal_eval(val))
            except Exception:
                vv = const(val)
        out.append((op, colv, vv))
    return tuple(out)
