"""R01: with a seed given, every draw of the library is a function of that seed alone.

Def-use rules over the syntax of every function of the package (nothing about the spelling of a particular function is assumed):
where a random number is drawn, where its generator comes from, and what decides the order of the draws and of the population."""
import ast
from . import rule

DRAW = {'random', 'uniform', 'randint', 'randrange', 'choice', 'choices', 'sample', 'shuffle', 'gauss', 'normalvariate', 'betavariate',
        'expovariate', 'triangular', 'getrandbits', 'randbytes', 'permutation', 'rand', 'randn', 'normal', 'integers', 'random_sample',
        'standard_normal', 'binomial', 'poisson', 'vonmisesvariate', 'lognormvariate', 'paretovariate', 'weibullvariate', 'gammavariate'}
ORDERED = {'choice', 'choices', 'sample', 'shuffle', 'permutation'}
GEN = {'random.Random', 'numpy.random.RandomState', 'numpy.random.default_rng'}
CLOCK = {'time.time', 'time.time_ns', 'time.perf_counter', 'time.monotonic', 'os.getpid', 'os.urandom', 'id', 'uuid.uuid4', 'uuid.uuid1',
         'datetime.datetime.now', 'threading.get_ident', 'random.SystemRandom', 'secrets.randbelow', 'secrets.choice', 'secrets.token_bytes'}
SUBMIT = {'apply_async', 'submit', 'map_async', 'imap', 'imap_unordered', 'starmap', 'starmap_async', 'map', 'Thread', 'Timer'}
SETOPS = {'difference', 'union', 'intersection', 'symmetric_difference', 'copy'}
INTS = ('rid', 'uid', 'iid', 'range', 'idx', 'index', 'enumerate')


class Mod:
    """imports of one module, resolved to dotted names"""
    def __init__(self, m):
        self.m, self.names = m, {}
        self.tree = ast.parse(m.source)
        for n in ast.walk(self.tree):
            for ch in ast.iter_child_nodes(n):
                ch.up = n
            if isinstance(n, ast.Import):
                for a in n.names:
                    self.names[a.asname or a.name.split('.')[0]] = a.name if a.asname else a.name.split('.')[0]
            elif isinstance(n, ast.ImportFrom) and n.module and not n.level:
                for a in n.names:
                    self.names[a.asname or a.name] = n.module + '.' + a.name

    def dotted(self, e):
        if isinstance(e, ast.Attribute):
            b = self.dotted(e.value)
            return b and b + '.' + e.attr
        if isinstance(e, ast.Name):
            return self.names.get(e.id) or (e.id if e.id in ('id', 'hash') else None)
        return None


def ups(n):
    while hasattr(n, 'up'):
        yield n, n.up
        n = n.up


def function(n):
    """outermost function or method around a node (closures belong to it)"""
    out = None
    for _, p in ups(n):
        if isinstance(p, (ast.FunctionDef, ast.AsyncFunctionDef)):
            out = p
    return out


def klass(n):
    return next((p for _, p in ups(n) if isinstance(p, ast.ClassDef)), None)


def is_seed(e):
    return isinstance(e, ast.Name) and 'seed' in e.id.lower() or isinstance(e, ast.Attribute) and 'seed' in e.attr.lower()


def mentions_seed(e):
    for x in ast.walk(e):
        if is_seed(x) or isinstance(x, ast.Constant) and isinstance(x.value, str) and x.value.lower() == 'seed':
            return True
        if isinstance(x, (ast.Name, ast.Attribute)) and 'rng' in (x.id if isinstance(x, ast.Name) else x.attr).lower():
            return True
    return False


def seed_absent(test, truth):
    """does `test` being `truth` imply that no seed was given?"""
    if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
        return seed_absent(test.operand, not truth)
    if isinstance(test, ast.BoolOp):
        conj = isinstance(test.op, ast.And)
        vs = [seed_absent(v, truth) for v in test.values]
        return any(vs) if conj == truth else all(vs)
    if isinstance(test, ast.Compare) and len(test.ops) == 1 and mentions_seed(test.left) and isinstance(test.comparators[0], ast.Constant) \
            and test.comparators[0].value is None:
        return isinstance(test.ops[0], (ast.Is, ast.Eq)) == truth and isinstance(test.ops[0], (ast.Is, ast.IsNot, ast.Eq, ast.NotEq))
    return False


def bare_seed(test):
    """the seed itself is used as a truth value (0 counts as missing)"""
    if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
        return bare_seed(test.operand)
    if isinstance(test, ast.BoolOp):
        return any(bare_seed(v) for v in test.values)
    return is_seed(test)


def in_branch(n, pred):
    """is n inside a branch (If / IfExp / early return before it) whose condition satisfies pred(test, truth)?"""
    for ch, p in ups(n):
        if isinstance(p, (ast.If, ast.IfExp)) and ch is not p.test:
            body = p.body if isinstance(p.body, list) else [p.body]
            if pred(p.test, any(ch is b for b in body)):
                return True
        for blk in ('body', 'orelse', 'finalbody'):
            b = getattr(p, blk, None)
            if isinstance(b, list) and any(ch is s for s in b):
                for s in b[:[x is ch for x in b].index(True)]:
                    if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue)) \
                            and pred(s.test, False):
                        return True
        if isinstance(p, (ast.FunctionDef, ast.ClassDef)):
            return False
    return False


def loops(n):
    return [p for ch, p in ups(n) if isinstance(p, (ast.For, ast.While)) and ch not in (getattr(p, 'iter', None), getattr(p, 'test', None))
            or isinstance(p, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp))]


class Fun:
    """one function: its assignments"""
    def __init__(self, mod, node):
        self.mod, self.node = mod, node
        self.defs = {}
        for n in ast.walk(node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    self.bind(t, n.value, n)
            elif isinstance(n, ast.AnnAssign) and n.value is not None:
                self.bind(n.target, n.value, n)
            elif isinstance(n, ast.AugAssign):
                self.bind(n.target, ast.BinOp(n.target, n.op, n.value), n, aug=True)
            elif isinstance(n, ast.NamedExpr):
                self.bind(n.target, n.value, n)
        self.cls = klass(node)
        self.where = '%s:%s.%s' % (mod.m.relpath, self.cls.name, node.name) if self.cls else \
            '%s:%s' % (mod.m.relpath, node.name)

    def bind(self, t, v, n, aug=False):
        if isinstance(t, ast.Name):
            self.defs.setdefault(t.id, []).append((v, n))
        elif isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id in ('self', 'cls'):
            self.defs.setdefault('self.' + t.attr, []).append((v, n))

    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]


def key(e):
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id in ('self', 'cls'):
        return 'self.' + e.attr
    return None


class R01:
    def __init__(self, c):
        self.c = c
        self.mods = [Mod(m) for m in c.prog.modules.values() if m.name.startswith('DRecPy')]
        self.funs, self.byname, self.attrs = [], {}, {}
        for mod in self.mods:
            for n in ast.walk(mod.tree):
                if isinstance(n, ast.FunctionDef) and function(n) is None:
                    f = Fun(mod, n)
                    self.funs.append(f)
                    self.byname.setdefault(f.cls.name if n.name == '__init__' and f.cls else n.name, []).append(f)
                    if f.cls is not None:
                        for k, v in f.defs.items():
                            if k.startswith('self.'):
                                self.attrs.setdefault((mod.m.name, f.cls.name), {}).setdefault(k, []).extend((x, st, f) for x, st in v)

    def go(self):
        for mod in self.mods:
            self.module_level(mod)
        for f in self.funs:
            self.c.functions.add('.'.join([f.mod.m.name] + ([f.cls.name] if f.cls else []) + [f.node.name]))
            self.f, self.mod = f, f.mod
            self.seeded = any('seed' in x.lower() or 'rng' in x.lower() for x in f.params()) or \
                any('seed' in k.lower() or 'rng' in k.lower() for k in self.class_attrs(f)) or any('rng' in k.lower() for k in f.defs)
            self.relevant = self.seeded or any(('seed' in x.lower() or 'rng' in x.lower()) for g in self.funs if g.mod is f.mod
                                               for x in g.params() + list(g.defs))
            for n in ast.walk(f.node):
                if isinstance(n, ast.Call):
                    self.c.calls += 1
                    self.call(n)
                elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and self.mod.names.get(n.id) == 'random' \
                        and not isinstance(n.up, ast.Attribute):
                    self.module_value(n)
                elif isinstance(n, (ast.If, ast.IfExp)) and bare_seed(n.test):
                    self.truthiness(n)
            self.reseeded()
        self.tensorflow()

    # -- helpers -------------------------------------------------------------------------------------------------------
    def class_attrs(self, f):
        """attributes of the class of f and of its in-package bases"""
        out, todo, seen = {}, [f.cls.name] if f.cls is not None else [], set()
        while todo:
            k = todo.pop()
            if k in seen:
                continue
            seen.add(k)
            for (m, n), d in self.attrs.items():
                if n == k:
                    for a, v in d.items():
                        out.setdefault(a, []).extend(v)
            for mod in self.mods:
                for x in mod.tree.body:
                    if isinstance(x, ast.ClassDef) and x.name == k:
                        todo += [b.id if isinstance(b, ast.Name) else b.attr for b in x.bases if isinstance(b, (ast.Name, ast.Attribute))]
        return out

    def at(self, n):
        return '%s line %d' % (self.f.where, n.lineno)

    def short(self, n):
        return ast.unparse(n)[:90]

    def generator(self, e):
        """is this expression a seeded generator object? True / False / None (unknown)"""
        if isinstance(e, ast.Call) and self.mod.dotted(e.func) in GEN:
            return True
        k = key(e)
        if k is None:
            return None
        ds = self.f.defs.get(k, [])
        if not ds and k.startswith('self.'):
            ds = [(v, st) for v, st, _ in self.class_attrs(self.f).get(k, [])]
        if any(isinstance(x, ast.Call) and (self.mod.dotted(x.func) in GEN or (self.mod.dotted(x.func) or '').endswith('Random'))
               for v, _ in ds for x in ast.walk(v)):
            return True
        return True if 'rng' in k.lower() and (ds or k in self.f.params()) else None

    # -- rules ---------------------------------------------------------------------------------------------------------
    def module_level(self, mod):
        for n in ast.walk(mod.tree):
            if not (isinstance(n, ast.Call) and mod.dotted(n.func) in GEN):
                continue
            f = function(n)
            default = any(isinstance(p, ast.arguments) for _, p in ups(n))
            glob = f is not None and isinstance(n.up, ast.Assign) and any(
                isinstance(t, ast.Name) and any(isinstance(g, ast.Global) and t.id in g.names for g in ast.walk(f)) for t in n.up.targets)
            cached = f is not None and any('cache' in ast.unparse(d) for d in f.decorator_list)
            if f is None or default or glob or cached:
                self.c.bad('kept-between-calls', '%s line %d' % (mod.m.relpath, n.lineno),
                           'the generator %s is created once and shared by all calls: a second call with the same seed continues its sequence'
                           % ast.unparse(n)[:80])

    def call(self, n):
        d = self.mod.dotted(n.func)
        name = n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, 'id', None)
        if d and (d.startswith('random.') or d.startswith('numpy.random.')) and d.rsplit('.', 1)[1] in DRAW:
            self.global_draw(n, d)
        elif d in ('random.SystemRandom', 'os.urandom') or d and d.startswith('secrets.'):
            self.global_draw(n, d)
        elif d in GEN:
            self.creation(n)
        elif name in DRAW and isinstance(n.func, ast.Attribute):
            g = self.generator(n.func.value)
            if g:
                self.c.ok('draw-from-generator', self.at(n), self.short(n))
                self.order(n)
        if d and d.startswith('random.') and d.rsplit('.', 1)[1] in ORDERED:
            self.order(n)
        if name in SUBMIT:
            self.shared(n)
        self.forwarded(n, name)

    def name_only(self, n, depth=0):
        """the value only becomes part of a text"""
        for ch, p in ups(n):
            if isinstance(p, (ast.JoinedStr, ast.FormattedValue)):
                return True
            if isinstance(p, ast.Call) and ch is not p.func:
                fn = p.func.attr if isinstance(p.func, ast.Attribute) else getattr(p.func, 'id', '')
                if fn in ('str', 'repr', 'format', 'hex'):
                    return True
                if fn not in ('int', 'abs', 'round'):
                    return False
            elif isinstance(p, ast.BinOp) and isinstance(p.op, ast.Mod) and isinstance(p.left, ast.Constant) and isinstance(p.left.value, str):
                return True
            elif isinstance(p, ast.Assign) and depth < 3 and len(p.targets) == 1 and isinstance(p.targets[0], ast.Name):
                uses = [x for x in ast.walk(self.f.node) if isinstance(x, ast.Name) and x.id == p.targets[0].id and isinstance(x.ctx, ast.Load)]
                return bool(uses) and all(self.name_only(u, depth + 1) for u in uses)
            elif isinstance(p, ast.stmt):
                return False
        return False

    def global_draw(self, n, d):
        if self.name_only(n):
            self.c.ok('global-draw', self.at(n), 'only part of a name: ' + self.short(n))
        elif in_branch(n, seed_absent):
            self.c.ok('global-draw', self.at(n), 'only when no seed is given: ' + self.short(n))
        elif self.relevant and d.rsplit('.', 1)[1] not in ('random', 'getrandbits', 'urandom') or self.seeded:
            self.c.bad('global-draw', self.at(n), '%s draws from the state shared by the whole process (%s), whatever the seed is'
                       % (self.short(n), d))
        else:
            self.c.undec('global-draw', self.at(n), self.short(n))

    def creation(self, n):
        args = list(n.args) + [k.value for k in n.keywords]
        absent = in_branch(n, seed_absent)
        if not args or all(isinstance(a, ast.Constant) and a.value is None for a in args):
            if absent or not self.relevant:
                self.c.ok('generator-seeded', self.at(n), 'only when no seed is given')
            else:
                self.c.bad('generator-seeded', self.at(n), '%s is seeded by the operating system, whatever the seed is' % self.short(n))
            return
        a = self.follow(args[0])
        for x in ast.walk(a):
            if isinstance(x, ast.Call):
                d = self.mod.dotted(x.func)
                if d in CLOCK or d == 'hash' and not all(is_seed(y) for y in x.args) or d and d.startswith('random.') and d.split('.')[1] in DRAW:
                    if not absent:
                        self.c.bad('generator-seeded', self.at(n), 'the seed of %s also depends on %s, which differs between runs'
                                   % (self.short(n), self.short(x)))
                        return
            if isinstance(x, ast.BoolOp) and isinstance(x.op, ast.Or) and is_seed(x.values[0]) \
                    and any(isinstance(v, ast.Constant) and v.value is None for v in x.values[1:]):
                self.c.bad('generator-seeded', self.at(n), 'the seed 0 is treated as no seed in %s' % self.short(n))
                return
        if mentions_seed(a):
            self.c.ok('generator-seeded', self.at(n), self.short(n))
        elif isinstance(a, ast.Constant) and any(is_seed(ast.Name(p)) for p in self.f.params()) and not absent \
                and not in_branch(n, lambda t, tr: bare_seed(t)):
            self.c.bad('generator-seeded', self.at(n), 'the given seed is ignored: %s' % self.short(n))
        else:
            self.c.undec('generator-seeded', self.at(n), self.short(n))

    def follow(self, e, depth=0):
        k = key(e)
        ds = self.f.defs.get(k, []) if k else []
        if depth < 4 and k and not is_seed(e) and len(ds) == 1 and k not in self.f.params():
            return self.follow(ds[0][0], depth + 1)
        return e

    def reseeded(self):
        """the seed itself must not be replaced by something else"""
        for k, ds in self.f.defs.items():
            if k != 'seed' or 'seed' not in self.f.params():
                continue
            for v, st in ds:
                if mentions_seed(v):
                    bad = next((x for x in ast.walk(v) if isinstance(x, ast.Call) and (self.mod.dotted(x.func) in CLOCK or
                                (self.mod.dotted(x.func) or '').startswith('random.'))), None)
                    if bad is None or in_branch(st, seed_absent):
                        self.c.ok('seed-kept', self.at(st), self.short(st))
                    elif isinstance(v, ast.IfExp) and any(x is bad for x in ast.walk(v.body)) and seed_absent(v.test, True) or \
                            isinstance(v, ast.IfExp) and any(x is bad for x in ast.walk(v.orelse)) and seed_absent(v.test, False):
                        self.c.ok('seed-kept', self.at(st), self.short(st))
                    else:
                        self.c.bad('seed-kept', self.at(st), 'the seed is changed by %s, which differs between runs' % self.short(bad))
                elif in_branch(st, seed_absent):
                    self.c.ok('seed-kept', self.at(st), self.short(st))
                else:
                    self.c.bad('seed-kept', self.at(st), 'the given seed is replaced: %s' % self.short(st))

    def module_value(self, n):
        """the module `random` used as if it were a generator"""
        if in_branch(n, seed_absent):
            self.c.ok('global-generator', self.at(n), 'only when no seed is given')
            return
        if isinstance(n.up, ast.Assign) and n.up.value is n and len(n.up.targets) == 1 and key(n.up.targets[0]):
            k, later = key(n.up.targets[0]), []
            for v, st in self.f.defs.get(k, []):
                if st is not n.up and st.lineno > n.lineno:
                    given = in_branch(st, lambda t, tr: seed_absent(t, not tr))
                    later.append('given' if given else 'truth' if in_branch(st, lambda t, tr: bare_seed(t)) else 'always'
                                 if getattr(st, 'up', None) is n.up.up else 'other')
            if 'given' in later or 'always' in later:
                self.c.ok('global-generator', self.at(n), 'replaced when a seed is given')
            elif 'truth' in later:
                self.c.bad('global-generator', self.at(n), 'the seed 0 is treated as no seed: %s stays the generator of the whole process' % k)
            elif not later:
                self.c.bad('global-generator', self.at(n), '%s is the generator of the whole process, whatever the seed is' % k)
            else:
                self.c.undec('global-generator', self.at(n), self.short(n.up))
            return
        if in_branch(n, lambda t, tr: bare_seed(t)):
            self.c.bad('global-generator', self.at(n), 'the seed 0 is treated as no seed: the generator of the whole process is used')
            return
        self.c.undec('global-generator', self.at(n), self.short(n.up))

    def truthiness(self, n):
        gens = [x for x in ast.walk(n) if isinstance(x, ast.Call) and (self.mod.dotted(x.func) in GEN or (self.mod.dotted(x.func) or '').endswith('set_seed'))]
        has_else = n.orelse and any(isinstance(x, ast.Call) and self.mod.dotted(x.func) in GEN and x.args and isinstance(x.args[0], ast.Constant)
                                    for s in (n.orelse if isinstance(n.orelse, list) else [n.orelse]) for x in ast.walk(s))
        if not gens or has_else:
            self.c.undec('seed-zero', self.at(n), self.short(n.test))
        else:
            self.c.bad('seed-zero', self.at(n), 'the seed 0 is treated as no seed: %s' % self.short(n.test))

    # -- order of the population -----------------------------------------------------------------------------------------
    def unordered(self, e, depth=0):
        """the set expression that decides the order of e, or None"""
        if depth > 6:
            return None
        if isinstance(e, (ast.Set, ast.SetComp)):
            return e
        if isinstance(e, ast.Call):
            fn = e.func.id if isinstance(e.func, ast.Name) else None
            if fn in ('set', 'frozenset'):
                return e
            if fn in ('list', 'tuple', 'iter', 'reversed', 'filter', 'map', 'enumerate', 'tqdm') and e.args:
                return self.unordered(e.args[-1 if fn in ('filter', 'map') else 0], depth + 1)
            if isinstance(e.func, ast.Attribute) and e.func.attr in SETOPS:
                return self.unordered(e.func.value, depth + 1) if not e.func.attr == 'copy' or True else None
            return None
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Sub, ast.BitAnd, ast.BitOr, ast.BitXor, ast.Add)):
            return self.unordered(e.left, depth + 1) or (None if isinstance(e.op, ast.Sub) else self.unordered(e.right, depth + 1))
        if isinstance(e, ast.IfExp):
            return self.unordered(e.body, depth + 1) or self.unordered(e.orelse, depth + 1)
        if isinstance(e, (ast.ListComp, ast.GeneratorExp)):
            return self.unordered(e.generators[0].iter, depth + 1)
        if isinstance(e, (ast.List, ast.Tuple)):
            return next((u for x in e.elts if isinstance(x, ast.Starred) for u in [self.unordered(x.value, depth + 1)] if u is not None), None)
        k = key(e)
        if k:
            ds = self.f.defs.get(k, [])
            if not ds and k.startswith('self.'):
                ds = [(v, st) for v, st, _ in self.class_attrs(self.f).get(k, [])]
            body = list(ast.walk(self.f.node))
            if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'sort' and key(x.func.value) == k for x in body):
                return None
            if any(isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'sorted' for v, _ in ds):
                return None
            for v, _ in ds:
                if any(isinstance(x, (ast.Name, ast.Attribute)) and key(x) == k for x in ast.walk(v)):
                    continue
                u = self.unordered(v, depth + 1)
                if u is not None:
                    return u
            for x in body:      # filled while a set is walked
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ('append', 'insert', 'extend') and key(x.func.value) == k:
                    for lp in loops(x):
                        u = isinstance(lp, ast.For) and self.unordered(lp.iter, depth + 1)
                        if u:
                            return u
                    if x.func.attr == 'extend' and x.args:
                        u = self.unordered(x.args[0], depth + 1)
                        if u is not None:
                            return u
        return None

    def text_ids(self, u):
        src = ast.unparse(u)
        for x in ast.walk(u):
            k = key(x) if isinstance(x, (ast.Name, ast.Attribute)) else None
            for v, _ in self.f.defs.get(k, []) if k else []:
                src += ' ' + ast.unparse(v)
        return not any(w in src for w in INTS)

    def order(self, n):
        name = n.func.attr if isinstance(n.func, ast.Attribute) else self.mod.dotted(n.func).rsplit('.', 1)[1]
        if name in ORDERED and n.args:
            u = self.unordered(n.args[0])
            if u is None:
                self.c.ok('population-order', self.at(n), self.short(n))
            elif self.text_ids(u):
                self.c.bad('population-order', self.at(n), 'the drawn population is in the order of the set %s, which differs between runs for text ids: %s'
                           % (self.short(u), self.short(n)))
            else:
                self.c.undec('population-order', self.at(n), 'order of a set: ' + self.short(n))
        self.loop_order(n)

    def loop_order(self, n):
        for lp in loops(n):
            it = lp.iter if isinstance(lp, ast.For) else lp.generators[0].iter if hasattr(lp, 'generators') else None
            u = it is not None and self.unordered(it)
            if u and self.text_ids(u):
                self.c.bad('draw-order', self.at(n), 'draws are made in the order of the set %s, which differs between runs for text ids: %s'
                           % (self.short(u), self.short(n)))

    # -- concurrency -----------------------------------------------------------------------------------------------------
    def shared(self, n):
        recv = n.func.value if isinstance(n.func, ast.Attribute) else None
        if isinstance(n.func, ast.Attribute) and n.func.attr == 'map' and not self.poolish(recv):
            return
        names = {}
        todo, seen = [n], set()
        while todo:
            e = todo.pop()
            for x in ast.walk(e):
                k = key(x) if isinstance(x, (ast.Name, ast.Attribute)) and isinstance(x.ctx, ast.Load) else None
                if not k or k in seen:
                    continue
                seen.add(k)
                if self.generator(x):
                    if not self.eager(x):
                        names[k] = x
                    else:
                        seen.discard(k)
                    continue
                nested = [g for g in ast.walk(self.f.node) if isinstance(g, ast.FunctionDef) and g.name == k and g is not self.f.node]
                bound = {a.arg for g in nested for a in g.args.args}
                for g in nested:
                    for y in ast.walk(g):
                        if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Load) and y.id not in bound and self.generator(y):
                            names[y.id] = y
                if x is not recv and len(self.f.defs.get(k, [])) == 1 and isinstance(self.f.defs[k][0][0], (ast.ListComp, ast.List, ast.Tuple, ast.Lambda, ast.GeneratorExp)):
                    todo.append(self.f.defs[k][0][0])
        inner = {id(l) for l in loops(n)}
        hit = False
        for k, x in names.items():
            ds = self.f.defs.get(k, [])
            fresh = ds and all(set(id(l) for l in loops(st)) & inner for _, st in ds)
            rel = inner or isinstance(n.func, ast.Attribute) and n.func.attr not in ('apply_async', 'submit')
            if not fresh and rel and (ds or k in self.f.params() or k.startswith('self.')):
                hit = True
                self.c.bad('generator-shared', self.at(n), 'the tasks share the generator %s: which task gets which numbers depends on the schedule' % k)
        if not hit and self.seeded:
            self.c.ok('generator-shared', self.at(n), self.short(n))
        self.loop_order(n) if self.seeded and any(is_seed(x) for x in ast.walk(n)) else None

    def eager(self, x):
        """the number is drawn here, before the task starts"""
        return isinstance(x.up, ast.Attribute) and x.up.attr in DRAW and isinstance(x.up.up, ast.Call) and x.up.up.func is x.up \
            and not any(isinstance(p, (ast.Lambda, ast.GeneratorExp)) or isinstance(p, ast.FunctionDef) and p is not self.f.node for _, p in ups(x)
                        if not isinstance(p, (ast.ClassDef, ast.Module)))

    def poolish(self, e):
        k = e is not None and key(e)
        if not k:
            return False
        return 'pool' in k.lower() or 'exec' in k.lower() or any('Pool' in ast.unparse(v) for v, _ in self.f.defs.get(k, []))

    # -- the seed reaches every callee that takes one -----------------------------------------------------------------------
    def forwarded(self, n, name):
        own = 'seed' in self.f.params() or any(k == 'self.seed' for k in self.class_attrs(self.f)) and self.f.params()[:1] == ['self']
        if not own or name is None or any(k.arg is None for k in n.keywords) or any(isinstance(a, ast.Starred) for a in n.args):
            return
        if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Call) and getattr(n.func.value.func, 'id', '') == 'super':
            return
        cands = [f for f in self.byname.get(name, []) if 'seed' in f.params()]
        if not cands:
            return
        got = []
        for f in cands:
            ps = f.params()
            if f.cls is not None and not any(getattr(d, 'id', '') == 'staticmethod' for d in f.node.decorator_list):
                ps = ps[1:]
            i = ps.index('seed')
            v = next((k.value for k in n.keywords if k.arg == 'seed'), n.args[i] if i < len(n.args) else None)
            got.append(v)
        vs = [v for v in got if v is not None]
        if any(mentions_seed(self.follow(v)) for v in vs):
            self.c.ok('seed-forwarded', self.at(n), self.short(n))
        elif in_branch(n, seed_absent):
            self.c.ok('seed-forwarded', self.at(n), 'only when no seed is given')
        elif all(v is None or isinstance(v, ast.Constant) for v in got):
            self.c.bad('seed-forwarded', self.at(n), 'the given seed does not reach %s, which draws from a seed of its own: %s' % (name, self.short(n)))
        else:
            self.c.undec('seed-forwarded', self.at(n), self.short(n))

    def tensorflow(self):
        calls = []
        for f in self.funs:
            for n in ast.walk(f.node):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'set_seed':
                    calls.append((f, n))
        uses = [m for m in self.mods if 'tensorflow' in m.names.values()]
        for f, n in calls:
            self.f, self.mod = f, f.mod
            if n.args and mentions_seed(self.follow(n.args[0])) or any(mentions_seed(self.follow(k.value)) for k in n.keywords):
                self.c.ok('tensorflow-seeded', self.at(n), self.short(n))
            else:
                self.c.bad('tensorflow-seeded', self.at(n), 'initial weights and dropout do not follow the given seed: %s' % self.short(n))
        if not calls and uses:
            self.c.bad('tensorflow-seeded', uses[0].m.relpath, 'nothing seeds tensorflow: initial weights and dropout differ between runs with the same seed')


@rule('R01', 'Every random draw, generator creation, task submission and call to a seeded function of the package: def-use of the seed.')
def determinism(c):
    R01(c).go()
