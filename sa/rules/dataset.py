"""Dataset properties (D..): the in-memory and the database dataset compared with their reference definitions."""
import ast
from ..pairs import *
from . import rule
from .buffers import flushed, filled
from .metrics import defaults

K = dict(relational=False)


class Backend:
    """one implementation of the dataset interface and its reference"""

    def __init__(self, c, name, mod, cls, spec, opaque, fields):
        self.c, self.name, self.opaque, self.fields = c, name, opaque, fields
        self.cls = c.prog.cls(mod, cls)
        self.scls = c.prog.with_spec().modules['SPEC.' + spec].classes[cls]
        self.own = {x.attr for k in self.scls.mro() for m in k.methods.values() for x in ast.walk(m.node)
                    if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name)}

    def pair(self, method, args=None, guards=(), opaque=(), **k):
        for o in opaque:
            # an uninterpreted internal step must exist on both sides, with the same parameters
            if o.startswith('_') and not o.startswith('__'):
                f, sf = self.cls.find(o), self.scls.find(o)
                if sf is not None and (f is None or f.params() != sf.params()):
                    self.c.undec('internal-step', self.cls.qual, '%s is not a separate step with parameters %s' % (o, sf.params()))
                    return None
        return inst_pair(self.c, self.cls, self.scls, method, args, guards, tuple(o for o in self.opaque + tuple(opaque) if '!' + o not in opaque and o != method), **dict(K, **k))

    def check(self, rulename, p, pick, label='', guards=(), **k):
        k.setdefault('drop', lambda g: contains(g, lambda z: z.op == 'attr' and z.a[0] is SELF and z.a[1] not in self.own))
        k.setdefault('rewrite', self.canon)
        check(self.c, rulename, p, pick, (self.name + ', ' + label).strip(', '), guards, **k)

    def canon(self, t):
        """the two classes are one; a copy of an immutable value is the value, a deep copy of names is a copy"""
        if contains(t, lambda z: is_call(z, 'copy', 'deepcopy')):
            t = rebuild(t, uncopy)
        if contains(t, lambda z: z.op == 'isnone' and is_call(z.a[0], '_parse_query')):
            t = rebuild(t, lambda z: FALSE if z.op == 'isnone' and is_call(z.a[0], '_parse_query') else None)      # a list, even when empty
        if contains(t, lambda z: z.op == 'repeat'):
            t = rebuild(t, lambda z: binop('mul', z.a[0], z.a[1]) if z.op == 'repeat' and isinstance(cval(z.a[0]), str) and len(cval(z.a[0])) == 1 else None)
        t = sqlcanon(t)
        if not contains(t, lambda z: z.op in ('class', 'clsattr') and z.a[0] == self.scls.qual):
            return t
        return rebuild(t, lambda z: mk(z.op, self.cls.qual, *z.a[1:]) if z.op in ('class', 'clsattr') and z.a[0] == self.scls.qual else None)

    def finals(self):
        return final(*self.fields)

    def defaults(self, *names):
        for n in names:
            f, sf = self.cls.find(n), self.scls.find(n)
            if f is not None and sf is not None:
                defaults(self.c, f, sf)


def uncopy(z):
    if is_call(z, 'copy', 'deepcopy') and len(z.a[1]) == 1 and z.a[0].op == 'ext' and z.a[1][0].op == 'attr':
        return mk('call', mk('ext', 'copy.copy'), z.a[1], ()) if z.a[1][0].a[1] in CONTAINERS else z.a[1][0]


CONTAINERS = ('columns', '_col_types', '_df', '_user_mapping', '_user_mapping_inv', '_item_mapping', '_item_mapping_inv')


def backends(c):
    return [Backend(c, 'memory', 'DRecPy.Dataset.mem_dataset', 'MemoryInteractionDataset', 'mem', ('copy',),
                    ('_df', 'columns', 'path', 'has_internal_ids', '_user_mapping', '_user_mapping_inv', '_item_mapping', '_item_mapping_inv')),
            Backend(c, 'database', 'DRecPy.Dataset.db_dataset', 'DatabaseInteractionDataset', 'db',
                    ('copy', '_open_cursor', '_optimize_states', '_record_interaction', '_reset_interaction_vec_caches'),
                    ('_state_query', '_n_rows', 'columns', 'has_internal_ids', '_active_table', '_db_path', '_col_types'))]


HELPERS = ('values', '_build_table', '_build_indexes', '_set_pragmas', '_open_connection')


ROWWISE = ('select', 'select_one', 'unique', 'drop', 'max', 'min', 'count_unique', 'apply', 'assign_internal_ids', 'remove_internal_ids')


def anyyield(e):
    if e.kind == 'yield':
        return ('yield', e.value)


def dml(e):
    """statements that change the rows or the set of tables"""
    if e.kind == 'call' and e.name in ('execute', 'executemany') and e.args:
        t = sqltext(e.args[0])
        if t.strip().upper().startswith(('UPDATE', 'DELETE', 'INSERT', 'DROP TABLE', 'ALTER', 'REPLACE')):
            return (e.name, mk('tuple', *e.args))


def sqltext(t):
    if t.op == 'str':
        return ''.join(x if isinstance(x, str) else '?' for x in t.a[0])
    if isinstance(cval(t), str):
        return t.a[0]
    if t.op == 'alt':
        return sqltext(t.a[0][0][1])
    return ''


@rule('D01', 'Independence of copies: fields written by copy(), table compaction and row-changing statements are compared with the reference; every in-place change of state shared between copies is reported.')
def copies(c):
    for b in backends(c):
        p = b.pair('copy', opaque=('!copy', '__init__'))
        b.check('copied-fields', p, b.finals(), 'copy')
        b.check('copied-fields', p, calls('__init__', recv=False), 'copy')
        p = b.pair('_optimize_states', opaque=HELPERS)
        b.check('shared-table', p, dml, 'compaction')
        b.check('shared-table', p, b.finals(), 'compaction')
        b.check('shared-table', p, mutated, 'compaction')
        b.check('shared-table', p, calls('commit', '_build_table', recv=False), 'compaction')
        for m in ROWWISE:
            p = b.pair(m, opaque=HELPERS + ('__len__',))
            b.check('rows-written-by-' + m, p, dml)
            if m in ('apply', 'assign_internal_ids'):
                b.check('rows-written-by-' + m, p, calls('_optimize_states'))


VIEWS = ('loc', 'iloc', 'at', 'iat', 'values', 'index', 'columns', 'T')


def alias(t):
    """the field of the instance (or of a copy of it) whose object t is, or is a view of"""
    while True:
        if t.op == 'attr' and t.a[1] in VIEWS and not rooted_field(t):
            t = t.a[0]
        elif t.op == 'idx' and isinstance(cval(t.a[1]), str):
            t = t.a[0]
        else:
            break
    return rooted_field(t)


def rooted_field(t):
    if t.op == 'attr' and (t.a[0] is SELF or is_call(t.a[0], 'copy') and call_recv(t.a[0]) is SELF):
        return t.a[1]


@rule('D01', 'Independence of copies: fields written by copy(), table compaction and row-changing statements are compared with the reference; every in-place change of state shared between copies is reported.')
def ownership(c):
    """state that copy() shares between two datasets is replaced, never changed in place"""
    for b in backends(c):
        p = b.pair('copy', opaque=('!copy', '__init__'))
        shared = {e.name for e in p[1].it.events if e.kind == 'final' and e.obj is not SELF and any(v is mk('attr', SELF, e.name) for _, v in alts(e.value))}
        if not shared:
            c.undec('shared-state', p[0].qual, 'the fields copied by copy() were not identified')
            continue
        names = sorted({n for k in b.cls.mro() for n in k.methods if not n.startswith('_') and n != 'copy'})
        for n in names:
            m = b.cls.find(n)
            if m is None or m.cls is None or any(isinstance(d, ast.Name) and d.id in ('staticmethod', 'classmethod', 'property') for d in m.node.decorator_list):
                continue
            it = Interp(c.prog, opaque=('copy',) + b.opaque, **K)
            it.classes = dict(it.classes)
            it.classes['SELF'] = b.cls
            ps = m.params()
            r = it.run(m, cls=b.cls, args=dict({q: Q(q) for q in ps[1:]}, **{ps[0]: SELF}))
            c.functions |= it.analysed
            c.calls += len(it.events)
            hit = False
            for e in it.events:
                if e.kind != 'mutate':
                    continue
                t = e.get('frozen')
                if t is None:
                    t = e.recv
                for gs, v in alts(t):
                    f = alias(v)
                    if f in shared and feasible(tuple(gs) + tuple(e.guards)):
                        hit = True
                        c.bad('shared-state', e, '%s changes %s in place (%s), which every copy of the dataset shares' % (n, f, e.how))
            if not hit:
                c.ok('shared-state', m.qual, '%d shared fields' % len(shared))


@rule('D09', 'Deletions of tables and files, and changes of the table registry, by close() are compared with the reference.')
def lifecycle(c):
    b = backends(c)[1]
    p = b.pair('close', opaque=HELPERS + ('unregister_temp_file',))
    b.check('close', p, dml)
    b.check('close', p, calls('remove', 'unregister_temp_file', recv=False))
    b.check('close', p, mutated)
    b.check('close', p, calls('close'))
    from .loading import loaders, samekwds
    d = loaders(c)[1]
    p = d.pair('__init__', sets={n: ('_db_path', '_active_table') for n in ('_open_connection', '_load_from_csv', '_load_from_db', '_load_from_df')})
    d.check('registered', p, mutated, 'construction', rewrite=lambda t: samekwds(d.canon(t)))


COLS = [('all columns', {'columns': NONE}, ()),
        ('columns given', {}, (neg(isnone(Q('columns'))),))]
LISTARG = [('as list', {'to_list': TRUE}), ('as record', {'to_list': FALSE})]


# the step that turns the text of a query into conditions; decided on its own (operators), uninterpreted elsewhere
PARSE = {'memory': ('_apply_query',), 'database': ('_parse_query',)}


@rule('D04', 'Selected rows, returned records, and the interpretation of every (column role, operator) condition are compared with the reference for both backends.')
def queries(c):
    for b in backends(c):
        for lab, cp in (('in place', FALSE), ('copy', TRUE)):
            p = b.pair('select', {'copy': cp}, opaque=PARSE[b.name])
            b.check('selected-rows', p, b.finals(), lab)
            b.check('selected-rows', p, calls(*PARSE[b.name]), lab)
            b.check('selected-dataset', p, returned, lab)
            b.check('rejected-query', p, rejects, lab)
        for lab, a, g in COLS:
            for lab2, tl in LISTARG:
                p = b.pair('select_one', dict(a, **tl), g, opaque=PARSE[b.name])
                b.check('selected-record', p, returned, '%s, %s' % (lab, lab2), g)
                b.check('rejected-query', p, rejects, '%s, %s' % (lab, lab2), g)
        p = b.pair('exists', opaque=('select_one',))
        b.check('existence', p, returned)
        b.defaults('select', 'select_one')


OPS = ('==', '!=', '>', '>=', '<', '<=', '=')


KEYS = ('user', 'item', 'uid', 'iid', 'rid')


def qtext(*conds):
    return mk('qtext', tuple((col, const(o), Q('value%d' % i)) for i, (col, o) in enumerate(conds)))


def other(i):
    """any column that has no special role"""
    return Q('column%d' % i), tuple(neg(cmp_('==', Q('column%d' % i), const(k))) for k in KEYS)


@rule('D04', 'Selected rows, returned records, and the interpretation of every (column role, operator) condition are compared with the reference for both backends.')
def operators(c):
    """every condition (by role of its column and operator), alone and after another one"""
    ids = ('user_to_uid', 'item_to_iid')
    for b in backends(c):
        a, ga = other(0)
        d, gd = other(1)
        todo = [(((const(k), o),), ()) for k in KEYS for o in OPS] + [(((a, o),), ga) for o in OPS]
        todo += [(((a, o), (d, '>')), ga + gd) for o in OPS] + [(((a, '!='), (d, o)), ga + gd) for o in OPS]
        todo += [(((const('user'), '=='), (const('item'), '==')), ()), (((const('uid'), '=='), (const('iid'), '>=')), ())]
        many = [other(i) for i in range(5)]
        todo += [(tuple((x, '>=') for x, _ in many), sum((y for _, y in many), ()))]
        for conds, g in todo:
            lab = ' and '.join('%s %s value' % (show(k), o) for k, o in conds)
            p = b.pair('select', {'copy': FALSE, 'query': qtext(*conds)}, g, opaque=ids)
            b.check('operator', p, b.finals(), lab, g)
            b.check('operator', p, rejects, lab, g)
            if p is not None and conds[0][1] in ('<', '<=', '>', '>='):
                ordered(c, p, b, lab)
        for conds, g in [(((a, '=='),), ga), (((a, '>'), (d, '<=')), ga + gd)]:
            for lab2, tl in LISTARG:
                lab = ' and '.join('%s %s value' % (show(k), o) for k, o in conds) + ', ' + lab2
                p = b.pair('select_one', dict(tl, columns=NONE, query=qtext(*conds)), g, opaque=ids)
                b.check('operator', p, returned, lab, g)
                b.check('operator', p, rejects, lab, g)


def ordered(c, p, b, lab):
    """internal ids number raw ids by first appearance: they say nothing about the order of the raw ids"""
    def internal(t):
        return contains(t, lambda z: is_call(z, 'user_to_uid', 'item_to_iid'))
    for e in p[1].it.events:
        if e.kind == 'final' and e.name in b.fields:
            x = next((z for z in walk(e.value) if z.op in ('lt', 'le') and any(internal(y) for y in z.a)
                      and any(contains(y, lambda w: w.op in ('idx', 'attr') and (w.a[1] in ('uid', 'iid') or isinstance(w.a[1], T) and cval(w.a[1]) in ('uid', 'iid'))) for y in z.a)), None)
            (c.bad if x is not None else c.ok)('ordered-by-raw-id', e if x is not None else '%s [%s, %s]' % (p[0].qual, b.name, lab),
                                              'the order of raw ids is decided on internal ids: %s' % show(x) if x is not None else '')


@rule('D05', 'Remaining rows, yielded values, extrema and counts are compared with the reference for both backends and every option variant.')
def views(c):
    for b in backends(c):
        for cp in (FALSE, TRUE):
            lab = 'copy' if cp is TRUE else 'in place'
            for keep in (FALSE, TRUE):
                p = b.pair('drop', {'copy': cp, 'keep': keep})
                l2 = lab + (', keep' if keep is TRUE else ', drop')
                b.check('remaining-rows', p, b.finals(), l2)
                b.check('returned-dataset', p, returned, l2)
            for l3, a, g in COLS:
                p = b.pair('unique', dict(a, copy=cp), g)
                b.check('unique-rows', p, b.finals(), lab + ', ' + l3, g)
                b.check('returned-dataset', p, returned, lab + ', ' + l3, g)
                b.check('rejected-columns', p, rejects, lab + ', ' + l3, g)
        for m in ('max', 'min'):
            p = b.pair(m)
            b.check('column-' + m, p, returned)
            b.check('rejected-columns', p, rejects, m)
        for l3, a, g in COLS:
            for l2, tl in LISTARG:
                p = b.pair('values', dict(a, **tl), g)
                b.check('streamed-records', p, anyyield, l3 + ', ' + l2, g)
                b.check('rejected-columns', p, rejects, l3 + ', ' + l2, g)
                p = b.pair('values_list', dict(a, **tl), g, opaque=('values',))
                b.check('listed-records', p, returned, l3 + ', ' + l2, g)
        p = b.pair('__len__')
        b.check('row-count', p, returned)
        for l3, a, g in COLS:
            p = b.pair('count_unique', a, g, opaque=('unique', '__len__'))
            b.check('unique-count', p, returned, l3, g)
        b.defaults('drop', 'unique', 'values', 'values_list', 'count_unique')


@rule('D06', 'Numbering, storage, removal and translation of internal ids are compared with the reference for both backends.')
def internal_ids(c):
    for b in backends(c):
        for m in ('user_to_uid', 'item_to_iid', 'uid_to_user', 'iid_to_item'):
            p = b.pair(m)
            b.check('translation', p, returned, m)
            b.check('unassigned-ids-rejected', p, rejects, m)
        for m in ('assign_internal_ids', 'remove_internal_ids'):
            p = b.pair(m)
            b.check(m, p, b.finals(), m)
            b.check(m, p, mutated, m)
            b.check(m, p, dml, m)
            b.check(m, p, calls('_optimize_states'), m)


def replaces(e):
    return e.name in ('remove', 'unlink', 'rename', 'replace', 'move') and len(e.args) == (2 if e.name in ('rename', 'replace', 'move') else 1) and e.get('recv') is None \
        and not any(contains(a, lambda z: isinstance(cval(z), str) and 'tmp' in z.a[0] or z.op == 'str' and 'tmp' in str(z.a[0])) for a in e.args[-1:])


def before(c, rulename, p, what1, names, what2, pred, label=''):
    """every step in names comes before every step satisfying pred (in program order)"""
    if p is None:
        return
    f, r, s = p
    late = [e for e in r.evs('call') if pred(e)]
    early = [e for e in r.evs('call') if e.name in names]
    bad = [(a, z) for z in late for a in early if a.order > z.order and feasible(tuple(a.guards) + tuple(z.guards))]
    for a, z in bad[:1]:
        c.bad(rulename, z, '%s here, before %s (%s at %s)' % (what2, what1, a.name, a.where()))
    if not bad:
        c.ok(rulename, '%s [%s]' % (f.qual, label), '%d removals, %d writes' % (len(late), len(early)))


PATHS = [('own path', {'path': const('')}, ()), ('path given', {}, (mk('nonempty', Q('path')),))]


@rule('D07', 'Everything written by save, the file replacement steps and their order are compared with the reference.')
def save(c):
    for b in backends(c):
        for l3, a, g in [(x + ', ' + y, dict(a, **a2), g + g2) for x, a, g in COLS for y, a2, g2 in PATHS]:
            p = b.pair('save', a, g, opaque=HELPERS)
            b.check('persisted-columns', p, calls('to_csv', 'write', 'writelines', 'writerow', 'writerows', 'writer', 'open'), l3, g)
            b.check('persisted-rows', p, calls('executemany', recv=False), l3, g)
            filled(c, b, 'persisted-rows', p, l3, g)
            b.check('replaced-file', p, calls('remove', 'rename', 'connect'), l3, g)
            b.check('state-after-save', p, b.finals(), l3, g)
            b.check('rejected-save', p, rejects, l3, g)
            b.check('committed-before-replacing', p, calls('commit', recvs=lambda r: is_call(r, 'connect')), l3, g)
            before(c, 'written-before-replacing', p, 'the new file is complete', ('executemany', 'commit', 'to_csv'), 'the old file is removed', replaces, l3)


@rule('D07')
def portions(c):
    for b in backends(c):
        for m in b.cls.methods.values():
            if m.name not in ('_load_from_csv', 'apply'):
                flushed(c, m)


@rule('D11', 'Writes of apply to rows, column types, caches and tables are compared with the reference.')
def apply(c):
    for b in backends(c):
        p = b.pair('apply', opaque=HELPERS + ('__len__', '_build_interaction_matrix'))
        b.check('transformed-column', p, b.finals())
        b.check('transformed-column', p, mutated)
        b.check('transformed-column', p, dml)
        b.check('transformed-column', p, calls('_optimize_states', 'commit'))
        filled(c, b, 'transformed-column', p)
        by_rid(c, p)
        b.check('rejected-apply', p, rejects)
        if p is not None:
            flushed(c, p[0])


def by_rid(c, p):
    """rows are rewritten one by one, so the statement has to name the row"""
    for e in p[1].evs('call') if p is not None else ():
        if e.name == 'execute' and e.args:
            for z in walk(sqlcanon(e.args[0])):
                if z.op == 'sqltext' and 'UPDATE' in z.a[0] and 'WHERE' in z.a[0]:
                    w = z.a[0][z.a[0].index('WHERE'):]
                    if any(isinstance(x, str) and x.lower() in ('rid', 'rowid') for x in w):
                        c.ok('rows-by-record-id', p[0].qual, show(z))
                    elif not any(isinstance(x, str) and x in ('SELECT', 'IN') for x in w):
                        c.bad('rows-by-record-id', e, 'rows that hold the same value are rewritten together, some of them more than once: %s' % show(z))


@rule('D13', 'Yielded values, draws and rejections of the random generators are compared with the reference.')
def generators(c):
    for b in backends(c):
        for a, lab in (({'query': NONE}, 'all rows'), ({}, 'query')):
            for s in (NONE, Q('seed')):
                g = () if s is NONE else (neg(isnone(s)),)
                if 'query' not in a:
                    g = g + (neg(isnone(Q('query'))),)
                p = b.pair('select_random_generator', dict(a, seed=s), g, opaque=PARSE[b.name])
                l2 = lab + (', unseeded' if s is NONE else ', seeded')
                b.check('random-rows', p, returned, l2, g)
                b.check('draws', p, calls('randint', 'random', 'choice', 'Random', 'seed', 'sample'), l2, g)
                b.check('rejected', p, rejects, l2, g)
        for t in (NONE, Q('interaction_threshold')):
            for s in (NONE, Q('seed')):
                g = () if s is NONE else (neg(isnone(s)),)
                g = g if t is NONE else g + (neg(isnone(t)),)
                p = b.pair('null_interaction_pair_generator', {'interaction_threshold': t, 'seed': s}, g, opaque=PARSE[b.name])
                l2 = ('no threshold' if t is NONE else 'threshold') + (', unseeded' if s is NONE else ', seeded')
                b.check('null-pairs', p, yielded, l2, g)
                b.check('draws', p, calls('randint', 'random', 'choice', 'Random', 'seed', 'sample'), l2, g)
                b.check('rejected', p, rejects, l2, g)


@rule('D03', 'Contents of interaction vectors are compared with the reference; every change of the rows must drop the vectors computed before it.')
def vectors(c):
    ids = ('uid_to_user', 'iid_to_item')
    for b in backends(c):
        for m in ('select_user_interaction_vec', 'select_item_interaction_vec'):
            op = ids + (('_build_interaction_matrix',) if b.name == 'memory' else ('select', 'values', 'max'))
            p = b.pair(m, opaque=op)
            b.check('vector', p, returned, m)
            b.check('vector', p, rejects, m)
            b.check('vector', p, mutated, m)
            b.check('vector', p, calls('_build_interaction_matrix', 'clear'), m)
            b.check('vector', p, final('_cached_interaction_matrix', '_cached_trans_interaction_matrix'), m)
        if b.name == 'memory':
            p = b.pair('_build_interaction_matrix')
            b.check('matrix', p, final('_cached_interaction_matrix', '_cached_trans_interaction_matrix'))
            b.check('matrix', p, rejects)


CACHES = {'memory': ('_cached_interaction_matrix', '_cached_trans_interaction_matrix'),
          'database': ('_user_interaction_vec_cache', '_item_interaction_vec_cache')}
ROWS = {'memory': ('_df',), 'database': ('_state_query', '_active_table')}
RESET = '_reset_interaction_vec_caches'


def public_methods(b):
    for n in sorted({n for k in b.cls.mro() for n in k.methods if not n.startswith('_')}):
        m = b.cls.find(n)
        if m is not None and m.cls is not None and not any(isinstance(d, ast.Name) and d.id in ('staticmethod', 'classmethod', 'property') for d in m.node.decorator_list):
            yield n, m


def run_method(b, m, opaque, args=None):
    it = Interp(b.c.prog, opaque=opaque, **K)
    it.classes = dict(it.classes)
    it.classes['SELF'] = b.cls
    ps = m.params()
    r = it.run(m, cls=b.cls, args=dict(dict({q: Q(q) for q in ps[1:]}, **{ps[0]: SELF}), **(args or {})))
    b.c.functions |= it.analysed
    b.c.calls += len(it.events)
    return r


def same_rows(v, field):
    """the field itself, or a copy of it"""
    f = mk('attr', SELF, field)
    return v is f or is_call(v, 'copy', 'deepcopy') and (call_recv(v) is f or v.a[1][:1] == (f,))


@rule('D03', 'Contents of interaction vectors are compared with the reference; every change of the rows must drop the vectors computed before it.')
def staleness(c):
    """typestate: a change of the rows is followed by a reset of the vectors on every path"""
    for b in backends(c):
        caches = CACHES[b.name]
        if not all(any(x.attr == n for k in b.cls.mro() for f in k.methods.values() for x in ast.walk(f.node) if isinstance(x, ast.Attribute)) for n in caches):
            c.undec('stale-vectors', b.cls.qual, 'the stored vectors were not identified')
            continue
        inner = tuple(n for n in b.cls.find('copy').cls.methods if n.startswith('_build') and n != '_build_interaction_matrix')
        op = ('copy', '_open_cursor', '_optimize_states', '_record_interaction', '_open_connection') + inner
        r = run_method(b, b.cls.find('copy'), ('__init__',) + inner)
        for e in r.it.events:
            if e.kind == 'final' and e.name in caches and any(contains(v, lambda z: z is mk('attr', SELF, e.name)) for _, v in alts(e.value)):
                c.bad('stale-vectors', e, 'a copy starts with the vectors stored by the original (%s)' % e.name)
        for st, res in r.returns:
            for (o, name), v in st.fields.items():
                if name in caches and o is not SELF and any(x is mk('attr', SELF, name) for _, x in alts(r.it.freeze(st, v))):
                    c.bad('stale-vectors', b.cls.find('copy').qual, 'a copy shares the vectors stored by the original (%s)' % name)
        for n, m in public_methods(b):
            if n in ('copy', 'save', 'close'):
                continue
            r = run_method(b, m, op)
            bad = None
            resets = [e for e in r.it.events if e.kind == 'call' and e.name == RESET and e.get('recv') is SELF or
                      e.kind in ('call', 'mutate') and e.get('name', e.get('how')) == 'clear']
            for st, res in r.returns:
                gs = tuple(st.guards)
                final_ = lambda name: st.fields.get((SELF, name), mk('attr', SELF, name))
                changed = [(g, '%s is replaced' % f) for f in ROWS[b.name] for g, v in alts(r.it.freeze(st, final_(f))) if not same_rows(v, f)]
                for e in r.it.events:
                    if e.kind == 'mutate' and e.how == 'setitem' and e.get('frozen') is not None and b.name == 'memory' and alias(e.frozen) == '_df' or \
                            e.kind == 'mutate' and e.how == 'setitem' and e.get('frozen') is not None and b.name == 'memory' and any(same_rows(v, '_df') for _, v in alts(e.frozen)):
                        k = e.args[0]
                        if cval(k) in ('interaction', 'uid', 'iid'):
                            changed.append((e.guards, 'column %s is overwritten' % cval(k)))
                        elif cval(k) is None:
                            changed.append((e.guards + (cmp_('==', k, const('interaction')),), 'column %s is overwritten' % show(k)))
                    if dml(e) is not None and b.name == 'database' and sqltext(e.args[0]).strip().upper().startswith('UPDATE'):
                        changed.append((e.guards, 'rows are updated'))
                for g, what in changed:
                    if not feasible(gs + tuple(g)):
                        continue
                    for name in caches[:1] if b.name == 'memory' else caches:       # the transposed matrix is only read together with the matrix
                        for g2, v in alts(r.it.freeze(st, final_(name))):
                            allg = gnorm(gs + tuple(g) + tuple(g2))
                            if v is not mk('attr', SELF, name) or not feasible(allg) or entails(set(allg), isnone(v)) is TRUE:
                                continue
                            hit = [e for e in resets if (e.get('name') == RESET or contains(e.get('frozen') or e.get('recv') or NONE, lambda z: z is v))]
                            if any(all(entails(set(allg), x) is TRUE or x in allg for x in e.guards) for e in hit):
                                continue
                            bad = (what, name, bool(hit), allg)
            if bad is None:
                c.ok('stale-vectors', m.qual, 'rows kept, or vectors reset')
            elif bad[2]:
                c.undec('stale-vectors', m.qual, '%s, %s reset under another condition' % bad[:2])
            elif contains(mk('tuple', *bad[3]), lambda z: z.op == 'unk'):
                c.undec('stale-vectors', m.qual, '%s, %s kept' % bad[:2])
            else:
                c.bad('stale-vectors', m.qual, '%s: %s, but %s keeps the vectors computed before' % (n, bad[0], bad[1]))
