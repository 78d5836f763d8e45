"""Loading of datasets (D12) and the integrated datasets (I01), compared with their reference definitions."""
import ast
from ..pairs import *
from . import rule
from .metrics import defaults
from .dataset import Backend, dml, K
from .buffers import flushed, filled, buffered

STEPS = ('_open_connection', '_open_cursor', '_build_indexes', '__len__', '_log', '_load_from_db', '_load_from_csv', '_infer_value_type', '_build_table')


def loaders(c):
    return [Backend(c, 'memory', 'DRecPy.Dataset.mem_dataset', 'MemoryInteractionDataset', 'load', ('_log',),
                    ('_df', 'columns', 'path', 'has_internal_ids', 'in_memory', 'verbose')),
            Backend(c, 'database', 'DRecPy.Dataset.db_dataset', 'DatabaseInteractionDataset', 'load', STEPS,
                    ('columns', '_col_types', '_n_rows', '_state_query', '_active_table', 'chunk_size', 'in_memory', 'verbose', 'has_internal_ids',
                     '_user_vec_cache_limit', '_item_vec_cache_limit'))]


def samekwds(t):
    return rebuild(t, samename)


POSITIONS = {'leave_k_out': ('interaction_dataset', 'k', 'min_user_interactions'), 'get_dataset': ('ds_name', 'path', 'is_generated', 'force_out_of_memory', 'verbose')}


def samename(z):
    if z.op == 'call' and z.a[0].op in ('attr', 'func'):
        n = z.a[0].a[1] if z.a[0].op == 'attr' else z.a[0].a[0].split('.')[-1]
        if n in POSITIONS and 1 < len(z.a[1]) <= len(POSITIONS[n]) and not any(k == '**' or k in POSITIONS[n][:len(z.a[1])] for k, v in z.a[2] if k != '**'):
            return mk('call', z.a[0], z.a[1][:1], tuple(sorted(dict(z.a[2], **dict(zip(POSITIONS[n][1:], z.a[1][1:]))).items())))
    if z.op == 'kwds':
        return mk('kwds', 'kwds')
    if z.op == 'glob' and z.a[0] in ('SPEC.load', 'DRecPy.Dataset.integrated_datasets'):
        return mk('glob', 'datasets', z.a[1])
    if z.op in ('func', 'class') and isinstance(z.a[0], str) and z.a[0].startswith('SPEC.load.'):
        return mk(z.op, 'DRecPy.Dataset.integrated_datasets.' + z.a[0][10:], *z.a[1:])


def anymut(e):
    if e.kind == 'mutate' and e.get('frozen') is not None:
        return ('mutate ' + e.how, mk('tuple', e.frozen, *e.args))


def created(e):
    if e.kind == 'call' and e.name == 'execute' and e.args:
        return ('execute', mk('tuple', *e.args))


@rule('D12', 'Every argument of the file readers, the records inserted, the column lists and types, and the rejections of dataset construction are compared with the reference.')
def loading(c):
    mem, db = loaders(c)
    p = mem.pair('__init__')
    mem.check('loaded-rows', p, calls('read_csv', 'drop', 'fillna'))
    mem.check('loaded-rows', p, mem.finals())
    mem.check('loaded-columns', p, anymut)
    mem.check('rejected-load', p, rejects)
    p = db.pair('__init__')
    db.check('loader-chosen', p, calls('_load_from_db', '_load_from_csv', recv=False), 'construction')
    db.check('loaded-columns', p, db.finals(), 'construction')
    p = db.pair('_load_from_db', opaque=('!_load_from_db',))
    db.check('loaded-columns', p, db.finals(), 'existing table')
    p = db.pair('_infer_value_type')
    db.check('inferred-type', p, returned)
    tried(c, p)
    p = db.pair('_build_table')
    db.check('created-table', p, created)
    db.check('rejected-load', p, rejects)
    p = db.pair('_load_from_csv')
    db.check('loaded-rows', p, calls('open', 'reader'), 'text file')
    db.check('loaded-rows', p, dml, 'text file')
    db.check('loaded-columns', p, db.finals(), 'text file')
    db.check('rejected-load', p, rejects, 'text file')
    if p is not None:
        flushed(c, p[0])
        filled(c, db, 'loaded-rows', p, 'text file')
        header(c, db, p)
    db.check('loaded-rows', p, calls('commit', '_build_table', '_open_connection'), 'text file')
    for k in (mem, db):
        for m in k.cls.methods.values():
            for x in ast.walk(m.node):
                if isinstance(x, ast.Compare) and any(isinstance(o, (ast.Is, ast.IsNot)) and isinstance(v, ast.Constant) and isinstance(v.value, (str, float))
                                                      for o, v in zip(x.ops, x.comparators)):
                    c.bad('compared-by-value', '%s:%d in %s' % (m.file, x.lineno, m.qual), 'a label is compared by identity: equal labels can be different objects')
    f, sf = c.prog.cls('DRecPy.Dataset.dataset_factory', 'InteractionsDatasetFactory'), c.prog.with_spec().modules['SPEC.load'].classes['InteractionsDatasetFactory']
    for m, cut in (('__new__', 1), ('read_df', 0)):
        p = func_pair(c, c.prog.method(f, m), sf.find(m), opaque=('MemoryInteractionDataset', 'DatabaseInteractionDataset'), **K)
        check(c, 'dataset-construction', p, returned, m, rewrite=samekwds)
        check(c, 'rejected-load', p, rejects, m, rewrite=samekwds)
        defaults(c, c.prog.method(f, m), sf.find(m))


def tried(c, p):
    """a numeric type is returned only after something on the way there looked at the value"""
    if p is None:
        return
    f = p[0]
    par = f.params()[-1]
    for t in ast.walk(f.node):
        if isinstance(t, ast.Try):
            for i, s in enumerate(t.body):
                if isinstance(s, ast.Return) and isinstance(s.value, ast.Name) and s.value.id in ('int', 'float'):
                    seen = any(isinstance(x, ast.Name) and x.id == par for b in t.body[:i] for x in ast.walk(b)
                               if not (isinstance(b, ast.If) and s.value.id == 'int' and only_raises(b)))
                    (c.ok if seen else c.bad)('conversion-tried', '%s:%d in %s' % (f.file, s.lineno, f.qual), '' if seen else '%s is returned without trying to convert the value' % s.value.id)


READS = ('readline', 'next', 'islice', '__next__')


def header(c, db, p):
    """the first line is left out exactly when the file has a header"""
    f = p[0]
    where = f.qual + ' [header]'
    for v, want in ((TRUE, True), (FALSE, False)):
        q = db.pair('_load_from_csv', {'has_header': v})
        evs = q[1].evs('call')
        skip = [e for e in evs if e.name in READS and not e.loops and feasible(tuple(e.guards))]
        if want and not skip:
            own = [x for x in ast.walk(f.node) if isinstance(x, ast.Name) and x.id == 'has_header']
            opens = [x.lineno for x in ast.walk(f.node) if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'open']
            inner = any(isinstance(x, ast.Attribute) and x.attr == 'has_header' for x in ast.walk(f.node))
            used = inner or not opens or any(x.lineno > max(opens) for x in own) or any(isinstance(x, ast.Assign) and any(isinstance(y, ast.Name) and y.id == 'has_header' for y in ast.walk(x.value)) for x in ast.walk(f.node)) \
                or any(e.name in READS for e in evs)
            drops = any(e.name in READS for e in evs)
            (c.undec if used and not drops else c.bad)('header-left-out', where, 'no line is left out although the file has a header')
        elif not want and skip:
            always = [e for e in skip if e.guards == () or all(g is TRUE for g in e.guards)]
            (c.bad if always else c.undec)('header-left-out', skip[0], 'the first line is left out although the file has no header')
        else:
            c.ok('header-left-out', where, 'with header' if want else 'without header')


def only_raises(b):
    return all(isinstance(x, ast.Raise) for x in b.body) and not b.orelse and not any(isinstance(x, ast.Call) for x in ast.walk(b.test))


@rule('I01', 'The parameters of every integrated dataset and the file, reader options, split and generated files of every getter are compared with the reference.')
def integrated(c):
    mod, spec = c.prog.modules['DRecPy.Dataset.integrated_datasets'], c.prog.with_spec().modules['SPEC.load']
    for n in ('get_train_dataset', 'get_test_dataset', 'get_full_dataset', 'get_dataset', 'download_dataset', 'available_datasets'):
        sf = spec.funcs[n]
        f = mod.funcs.get(n)
        if f is None:
            (c.undec if n in ('get_dataset', 'download_dataset') else c.bad)('integrated-dataset', n, 'the function is gone')
            continue
        p = func_pair(c, f, sf, opaque=OPAQUE, **K)
        check(c, 'integrated-dataset', p, returned, rewrite=samekwds)
        check(c, 'rejected-name', p, rejects, rewrite=samekwds)
        check(c, 'generated-split', p, calls('leave_k_out', 'save'), rewrite=samekwds)
        check(c, 'stored-files', p, calls('get', 'open', 'write', 'extractall', 'rename', 'remove', 'removedirs', 'makedirs', 'download_dataset'), rewrite=samekwds)
        defaults(c, f, sf)
    for m in ('DatasetReadConfig',):
        if m in mod.classes:
            p = inst_pair(c, mod.classes[m], spec.classes[m], '__init__')
            check(c, 'dataset-parameters', p, final('url', 'train_file', 'test_file', 'full_file', 'columns', 'delimiter', 'encoding', 'unzip_folder', 'has_header', 'unzip'))
    k, sk = mod.classes.get('DatasetReadConfig'), spec.classes['DatasetReadConfig']
    a, b = table(mod, k), table(spec, sk)
    if a is None:
        c.undec('dataset-parameters', mod.name, 'the table of datasets is not a literal one')
        return
    c.functions.add(mod.name + '.DATASETS')
    for name in b:
        where = '%s.DATASETS[%r]' % (mod.name, name)
        if name not in a:
            c.bad('dataset-parameters', where, 'the dataset is not offered any more')
            continue
        x, y = a[name], b[name]
        if x is None or set(y) - set(x):
            c.undec('dataset-parameters', where, 'not a literal configuration')
            continue
        wrong = ['%s is %r instead of %r' % (n, x[n], y[n]) for n in y if n != 'url' and x[n] != y[n]]
        (c.bad if wrong else c.ok)('dataset-parameters', where, '; '.join(wrong))


def literal(mod, v, depth=0):
    if isinstance(v, ast.Name) and v.id in mod.globals and depth < 5:
        return literal(mod, mod.globals[v.id], depth + 1)
    return ast.literal_eval(v)


def table(mod, k):
    """name -> options of every literal entry of the table (None: not literal)"""
    t = mod.globals.get('DATASETS')
    ini = k and k.methods.get('__init__')
    if not isinstance(t, ast.Dict) or ini is None:
        return None
    ps, ar = ini.params()[1:], ini.node.args
    out = {}
    try:
        dv = {n: literal(mod, v) for n, v in zip(ps[len(ps) - len(ar.defaults):], ar.defaults)}
        for key, v in zip(t.keys, t.values):
            o = None
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == k.name:
                try:
                    o = dict(dv)
                    o.update(zip(ps, [literal(mod, x) for x in v.args]))
                    o.update({w.arg: literal(mod, w.value) for w in v.keywords})
                except (ValueError, TypeError, KeyError):
                    o = None
            out[literal(mod, key)] = o
    except (ValueError, TypeError, KeyError, AttributeError):
        return None
    return out


OPAQUE = ('get_dataset', 'download_dataset', 'available_datasets', 'get_dataset_path', 'is_stored', 'leave_k_out', 'InteractionsDatasetFactory', 'save', 'InteractionDataset')


FILES = ('open', 'write', 'writelines', 'remove', 'unlink', 'rename', 'makedirs', 'mkdir')


@rule('D10', 'Every file operation of the record of temporary files, and who adds to and removes from it, is compared with the reference.')
def temp_files(c):
    mod, spec = c.prog.modules.get('DRecPy.Dataset.file_utils'), c.prog.with_spec().modules['SPEC.files']
    if mod is None:
        c.undec('temp-files', 'DRecPy.Dataset.file_utils', 'the module is gone')
        return
    for n in ('register_temp_file', 'unregister_temp_file', 'delete_temp_files', 'data_path', 'get_dataset_path', 'is_stored'):
        f = mod.funcs.get(n)
        if f is None:
            c.undec('temp-files', n, 'the function is gone')
            continue
        p = func_pair(c, f, spec.funcs[n], opaque=() if n == 'data_path' else ('data_path', 'get_dataset_path') if n == 'is_stored' else ('data_path',), **K)
        check(c, 'temp-files', p, calls(*FILES), n, rewrite=samefiles)
        vanished(c, p, n)
        if n in ('delete_temp_files', 'unregister_temp_file'):
            handled(c, f)
        if n == 'unregister_temp_file':
            whole(c, p)
        if n in ('data_path', 'get_dataset_path', 'is_stored'):
            check(c, 'data-folder', p, returned, n, rewrite=samefiles)
    b = Backend(c, 'database', 'DRecPy.Dataset.db_dataset', 'DatabaseInteractionDataset', 'db', ('_set_pragmas',), ('_db_path',))
    own(c, b)
    ini = c.prog.modules.get('DRecPy.Dataset')
    called = ini is not None and any(isinstance(x, ast.Call) and isinstance(x.func, (ast.Name, ast.Attribute)) and (x.func.id if isinstance(x.func, ast.Name) else x.func.attr) == 'delete_temp_files'
                                     for x in ast.walk(ini.tree))
    (c.ok if called else c.undec)('left-over-files', 'DRecPy.Dataset', '' if called else 'the files of earlier runs are not removed on import')


def vanished(c, p, n):
    """a kind of file operation that is gone although nothing else could do it"""
    if p is None:
        return
    x, y = [{e.name for e in r.evs('call')} for r in p[1:3]]
    if x < y and not any(e.name in ('', None) for e in p[1].evs('call')):
        for name in sorted((y - x) & set(FILES)):
            c.bad('temp-files', p[0].qual, '%s: nothing does the %s step any more' % (n, name))


def whole(c, p):
    """entries are compared as a whole: part of a path may be a path itself"""
    if p is None:
        return
    path = Q('file_path')
    line = lambda z: z.op == 'elem'

    def part(z):
        if z.op == 'call' and z.a[0].op == 'attr' and z.a[0].a[1] in ('startswith', 'endswith', 'find', 'count'):
            return contains(z.a[0].a[0], line) and path in z.a[1] or z.a[0].a[0] is path and any(contains(x, line) for x in z.a[1])
        return z.op == 'in' and (z.a[0] is path and (line(z.a[1]) or is_call(z.a[1], 'strip', 'rstrip') and contains(z.a[1].a[0], line)) or
                                 z.a[1] is path and contains(z.a[0], line))
    for e in p[1].evs('call'):
        if e.name in ('write', 'writelines'):
            x = next((y for g in e.guards for y in walk(g) if part(y)), None)
            (c.bad if x is not None else c.ok)('whole-entries', e if x is not None else p[0].qual, 'entries are kept or dropped by a part of their path: %s' % show(x) if x is not None else '')


MISSING = ('FileNotFoundError', 'OSError', 'IOError', 'EnvironmentError', 'Exception', 'BaseException')


def handled(c, f):
    """a recorded file, or the record itself, may be gone already: cleaning up (on import) goes on"""
    todo, names = [(f.node, False)], set()
    open_calls = []
    while todo:
        x, ok = todo.pop()
        if isinstance(x, ast.Call):
            n = x.func.attr if isinstance(x.func, ast.Attribute) else x.func.id if isinstance(x.func, ast.Name) else ''
            names.add(n)
            if n in ('open', 'remove', 'unlink'):
                open_calls.append((x, n, ok))
        if isinstance(x, ast.Try):
            hs = {y.attr if isinstance(y, ast.Attribute) else getattr(y, 'id', '') for h in x.handlers for y in
                  (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])}
            inner = ok or bool(hs & set(MISSING)) or any(h.type is None for h in x.handlers)
            todo += [(y, inner) for y in x.body] + [(y, ok) for h in x.handlers for y in h.body] + [(y, ok) for y in x.orelse + x.finalbody]
            continue
        if isinstance(x, (ast.For, ast.While)):
            # a file of the record that is gone must not keep the others from being removed
            todo += [(y, ok) for y in ast.iter_child_nodes(x) if y not in x.body] + [(y, False) for y in x.body]
            continue
        todo += [(y, ok) for y in ast.iter_child_nodes(x)]
    for x, n, ok in open_calls:
        where = '%s:%d' % (f.qual, x.lineno)
        if ok:
            c.ok('clean-up-goes-on', where, '')
        elif names <= {'open', 'remove', 'unlink', 'join', 'data_path', 'strip', 'rstrip', 'readlines', 'write', 'writelines', 'read', 'splitlines', 'close', 'print'}:
            c.bad('clean-up-goes-on', where, '%s fails when the file is gone already' % n)
        else:
            c.undec('clean-up-goes-on', where, '%s outside of a handler' % n)


def samefiles(t):
    def f(z):
        if z.op == 'call' and z.a[0].op == 'attr' and z.a[0].a[1] == 'readlines' and not z.a[1] and is_call(z.a[0].a[0], 'open'):
            return z.a[0].a[0]          # read at once or line by line
        if z.op == 'call' and ('exist_ok', TRUE) in z.a[2]:
            return mk('call', z.a[0], z.a[1], tuple(x for x in z.a[2] if x[0] != 'exist_ok'))
        if z.op == 'ext' and z.a[0] == 'os.getenv':
            return mk('ext', 'os.environ.get')
        if z.op in ('func', 'class') and isinstance(z.a[0], str) and z.a[0].startswith('SPEC.files.'):
            return mk(z.op, 'DRecPy.Dataset.file_utils.' + z.a[0][11:], *z.a[1:])
    return rebuild(t, f)


def own(c, b):
    """a new file (one that did not exist and is not opened for reading) is recorded; nothing else is"""
    m = b.cls.find('_open_connection')
    if m is None or 'loading' not in m.params():
        c.undec('recorded-when-created', b.cls.qual, 'no step opens the file')
        return
    for v in (TRUE, FALSE):
        it = Interp(c.prog, opaque=('_set_pragmas', 'register_temp_file', 'data_path'), **K)
        it.classes = dict(it.classes)
        it.classes['SELF'] = b.cls
        ps = m.params()
        r = it.run(m, cls=b.cls, args=dict({q: Q(q) for q in ps[1:]}, **{ps[0]: SELF, 'loading': v}))
        c.functions |= it.analysed
        path = Q(ps[1])
        regs = [e for e in r.evs('call') if e.name == 'register_temp_file' and feasible(tuple(e.guards))]
        opens = [e for e in r.evs('call') if e.name == 'connect' and feasible(tuple(e.guards))]
        if v is TRUE:
            for e in regs:
                c.bad('recorded-when-created', e, 'an existing file is recorded as a temporary one: it would be deleted later')
            if not regs:
                c.ok('recorded-when-created', m.qual, 'files that are opened for reading are not recorded')
        elif not regs:
            c.bad('recorded-when-created', m.qual, 'a newly created file is never recorded')
        else:
            for e in regs:
                if e.args and e.args[0] is not path and e.args[0] is not mk('attr', SELF, '_db_path'):
                    c.bad('recorded-when-created', e, 'another path is recorded')
                elif opens and all(x.order < e.order for x in opens):
                    c.bad('recorded-when-created', e, 'recorded only after the file was created')
                elif any(contains(g, lambda z: is_call(z, 'isfile', 'exists')) and g.op != 'not' for g in e.guards):
                    c.bad('recorded-when-created', e, 'files that exist already are recorded as temporary ones: they would be deleted later')
                elif not any(contains(g, lambda z: is_call(z, 'isfile', 'exists')) for g in e.guards):
                    c.undec('recorded-when-created', e, 'recorded whether or not the file exists')
                else:
                    c.ok('recorded-when-created', e, '')
