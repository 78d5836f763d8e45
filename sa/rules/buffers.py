"""Rows collected in a buffer and written in portions: no portion is dropped (used by D07, D11 and D12)."""
import ast


def name_in(n, b):
    return any(isinstance(x, ast.Name) and x.id == b for x in ast.walk(n))


def is_reset(s, b):
    if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == b for t in s.targets):
        return isinstance(s.value, (ast.List, ast.Tuple)) and not s.value.elts or \
            isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name) and s.value.func.id == 'list' and not s.value.args
    return isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) \
        and s.value.func.attr == 'clear' and isinstance(s.value.func.value, ast.Name) and s.value.func.value.id == b


def uses(s, b, nested=()):
    """how the buffer is handed on in a statement: 'whole', 'part', 'other' or None"""
    out = None
    for x in ast.walk(s):
        if isinstance(x, ast.Call):
            if isinstance(x.func, ast.Name) and x.func.id in nested:
                return 'whole'
            if isinstance(x.func, ast.Name) and x.func.id in ('len', 'bool', 'print', 'str', 'repr'):
                continue
            for a in list(x.args) + [k.value for k in x.keywords]:
                a = a.value if isinstance(a, ast.Starred) else a
                if isinstance(a, ast.Name) and a.id == b:
                    return 'whole'
                if isinstance(a, ast.Subscript) and isinstance(a.value, ast.Name) and a.value.id == b:
                    full = isinstance(a.slice, ast.Slice) and a.slice.lower is None and a.slice.upper is None
                    out = 'whole' if full else out or ('part' if isinstance(a.slice, ast.Slice) else 'other')
                elif name_in(a, b) and not (isinstance(a, ast.Call) and isinstance(a.func, ast.Name) and a.func.id == 'len'):
                    out = out or 'other'
        elif isinstance(x, (ast.For, ast.comprehension)) and isinstance(x.iter, ast.Name) and x.iter.id == b:
            return 'whole'
        elif isinstance(x, (ast.Yield, ast.Return, ast.YieldFrom)) and x.value is not None and name_in(x.value, b):
            out = out or 'other'
    return out


def implied(t, b):
    """does a non-empty buffer make the test true?  True, False (it is about the buffer and may fail) or None"""
    if isinstance(t, ast.Constant):
        return bool(t.value)
    if isinstance(t, ast.Name) and t.id == b:
        return True
    if isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id in ('len', 'bool') and len(t.args) == 1 and isinstance(t.args[0], ast.Name) and t.args[0].id == b:
        return True
    if isinstance(t, ast.BoolOp):
        rs = [implied(v, b) for v in t.values]
        if isinstance(t.op, ast.Or):
            return True if True in rs else False if False in rs else None
        return True if all(r is True for r in rs) else False if False in rs else None
    if isinstance(t, ast.Compare) and len(t.ops) == 1:
        l, o, r = t.left, t.ops[0], t.comparators[0]
        if is_len(r, b) and not is_len(l, b):
            l, r = r, l
            o = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}.get(type(o), type(o))()
        if is_len(l, b) and isinstance(r, ast.Constant) and isinstance(r.value, int):
            v = r.value
            return (isinstance(o, ast.Gt) and v <= 0) or (isinstance(o, ast.GtE) and v <= 1) or (isinstance(o, ast.NotEq) and v <= 0)
        if isinstance(l, ast.Name) and l.id == b and isinstance(o, ast.NotEq) and isinstance(r, ast.List) and not r.elts:
            return True
        if is_len(l, b):
            return False
    return None


def is_len(t, b):
    return isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id == 'len' and len(t.args) == 1 and isinstance(t.args[0], ast.Name) and t.args[0].id == b


def counted(t, b):
    """a portion is complete: the buffer (or a counter) has reached a size"""
    return isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Eq, ast.GtE)) and \
        (any(is_len(x, b) for x in (t.left, t.comparators[0])) or any(isinstance(x, ast.BinOp) and isinstance(x.op, ast.Mod) for x in (t.left, t.comparators[0])))


def blocks(n):
    for x in ast.walk(n):
        for fld in ('body', 'orelse', 'finalbody'):
            v = getattr(x, fld, None)
            if isinstance(v, list) and v and isinstance(v[0], ast.stmt):
                yield v


def flushed(c, f):
    """buffers of one function (and its nested functions): appended in a loop, handed on in portions"""
    done = set()
    for blk in blocks(f.node):
        for i, loop in enumerate(blk):
            if not isinstance(loop, (ast.For, ast.While)):
                continue
            filled = {x.func.value.id for x in ast.walk(loop) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute)
                      and x.func.attr == 'append' and isinstance(x.func.value, ast.Name)}
            for b in sorted(filled):
                if (b, loop.lineno) in done:
                    continue
                done.add((b, loop.lineno))
                nested = {x.name for x in ast.walk(f.node) if isinstance(x, ast.FunctionDef) and x is not f.node and name_in(x, b)
                          and loop not in list(ast.walk(x))}
                inner = [(l, j, s) for l in blocks(loop) for j, s in enumerate(l) if is_reset(s, b)]
                # a buffer: handed on and reset inside the loop, under a condition
                if not any(isinstance(x, ast.If) and any(is_reset(s, b) for s in x.body) and name_or_count(x.test) for x in ast.walk(loop)) and \
                        not any(isinstance(x, ast.If) and counted(x.test, b) and any(uses(s, b, nested) == 'whole' and not isinstance(s, (ast.For, ast.While)) for s in x.body) for x in ast.walk(loop)):
                    continue
                where = '%s:%d in %s [%s]' % (f.file, loop.lineno, f.qual, b)
                bad, unsure = '', ''
                for l, j, s in inner:
                    u = [uses(x, b, nested) for x in l[:j]]
                    if 'whole' in u:
                        continue
                    if 'part' in u:
                        bad = 'line %d: the buffer is emptied although only a part of it was written' % s.lineno
                    elif 'other' in u or l is loop.body:
                        unsure = 'buffer handed on in another way'
                    else:
                        bad = 'line %d: the buffer is emptied without being written' % s.lineno
                for x in ast.walk(loop):
                    if isinstance(x, ast.If) and not x.orelse and counted(x.test, b) and any(uses(s, b, nested) == 'whole' for s in x.body) \
                            and not any(is_reset(s, b) or isinstance(s, (ast.Delete, ast.Return, ast.Break, ast.Raise)) for y in x.body for s in ast.walk(y)) \
                            and not any(is_reset(s, b) or isinstance(s, ast.Delete) for l in blocks(loop) if any(s is x for s in l) for s in l[[s is x for s in l].index(True):]):
                        bad = bad or 'line %d: the buffer is written but keeps its rows' % x.lineno
                rest = list(loop.orelse) + following(f.node, loop)
                last = None
                for s in rest:
                    if isinstance(s, ast.If) and uses(s, b, nested):
                        r = implied(s.test, b) if any(uses(x, b, nested) for x in s.body) else None
                        last = True if r is True or last is True else r
                        if r is None and last is not True:
                            unsure = unsure or 'written after the loop under another condition'
                            last = 'unsure'
                    elif uses(s, b, nested):
                        last = True
                if last is None:
                    bad = bad or 'what is left in the buffer after the loop is never written'
                elif last is False:
                    bad = bad or 'what is left in the buffer after the loop is only written under a condition that a non-empty buffer may fail'
                (c.bad if bad else c.undec if unsure else c.ok)('buffer-written', where, bad or unsure)


def buffered(e):
    """a row put into a buffer which the loop also replaces"""
    if e.kind == 'mutate' and e.how == 'append' and e.get('frozen') is not None and e.frozen.op == 'mu' and e.args:
        return ('buffered', e.args[0])


def filled(c, b, rulename, p, label='', guards=()):
    """what is put into the buffers is compared with the reference (if rows are collected that way)"""
    if p is not None and any(buffered(e) for e in p[1].it.events):
        b.check(rulename, p, buffered, label, guards)


def following(root, s):
    """statements executed after s: the rest of its block and of every enclosing block up to a loop or function"""
    parent = {}
    for x in ast.walk(root):
        for ch in ast.iter_child_nodes(x):
            parent[ch] = x
    out = []
    while s is not root and s in parent:
        par = parent[s]
        for fld in ('body', 'orelse', 'finalbody'):
            v = getattr(par, fld, None)
            if isinstance(v, list) and any(y is s for y in v):
                out += v[[y is s for y in v].index(True) + 1:]
                if fld == 'body' and isinstance(par, ast.Try):
                    out += list(par.orelse) + list(par.finalbody)
        s = par
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.For, ast.While)):
            break
    return out


def name_or_count(t):
    return any(isinstance(x, (ast.Compare, ast.Name, ast.BinOp)) for x in ast.walk(t))
