"""Reference definitions of the database-backed dataset (parsed by the analysis, never imported or executed)."""
import csv
import random
import sqlite3 as sql
from os import remove
from os import rename
from os.path import isfile
from DRecPy.Dataset.file_utils import unregister_temp_file
from copy import copy
from tqdm import tqdm
from scipy.sparse import csr_matrix
from .mem import InteractionDatasetABC


class DatabaseInteractionDataset(InteractionDatasetABC):
    _open_value_generators = set()
    _shared_db_instances = dict()
    _shared_db_table_instances = dict()

    def __init__(self, path='', columns=None, **kwds):
        pass

    # ---- current rows
    def _source(self):
        return self._state_query if self._state_query != '' else self._active_table

    def _rows(self, conditions=None, limit=None):
        if self._state_query == '':
            state = f'SELECT {",".join(self.columns)} FROM {self._active_table}'
            if conditions is not None:
                state += f' WHERE {" AND ".join(conditions)}'
        else:
            state = f'{self._state_query}'
            if conditions is not None:
                state += f' AND {" AND ".join(conditions)}'
        if limit is not None and type(limit) is int:
            state += f' LIMIT {limit}'
        return state

    def _parse_query(self, query):
        conditions = []
        for segment in str(query).split(','):
            segment = segment.strip()
            column, operator, value = segment.split(" ")
            assert column is not None or operator is not None or value is not None
            assert column in self.columns
            if operator not in ['>', '>=', '<=', '<', '==', '!=']:
                raise Exception('operator')
            value = eval(value)
            try:
                col_type = self._col_types[column]
                if col_type is int:
                    if type(value) != float and type(value) != int:
                        raise ValueError
                elif col_type is float:
                    value = float(value)
                elif col_type is list:
                    value = list(value).__repr__()
                else:
                    value = "'" + value.replace("'", "''") + "'"
            except ValueError:
                raise Exception('value')
            if operator == '==':
                conditions.append(f'{column} = {value}')
            elif operator == '!=':
                conditions.append(f'{column} <> {value}')
            else:
                conditions.append(f'{column} {operator} {value}')
        return conditions

    def _set_rows(self, state):
        self._n_rows = self._open_cursor().execute(f'SELECT COUNT(*) FROM ({state})').fetchone()[0]
        self._state_query = state

    def _record(self, row, columns, to_list=False):
        record = {k: v for k, v in zip(self.columns, row) if k in columns}
        if to_list:
            values = [record[col] for col in columns]
            if len(values) == 1:
                return values[0]
            return values
        return record

    def __len__(self):
        if self._n_rows is None:
            c = self._open_cursor()
            c.execute(f'SELECT COUNT(*) FROM ({self._source()})')
            self._n_rows = c.fetchone()[0]
        return self._n_rows

    # ---- queries
    def select(self, query, copy=True):
        ds = self.copy() if copy else self
        ds._set_rows(ds._rows(ds._parse_query(query)))
        return ds

    def select_one(self, query, columns=None, to_list=False):
        conditions = self._parse_query(query)
        columns = self._handle_columns(columns)
        row = self._open_cursor().execute(self._rows(conditions, limit=1)).fetchone()
        if row is None:
            return None
        return self._record(row, columns, to_list)

    # ---- views
    def unique(self, columns=None, copy=True):
        columns = self._handle_columns(columns)
        ds = self.copy() if copy else self
        ds.columns = columns
        cols = ','.join(columns)
        keys = ','.join(c for c in columns if c != 'rid') or 'rid'
        if 'rid' not in columns:
            state = f'SELECT {cols}, rid FROM ({ds._source()}) WHERE rid IN ' \
                f'(SELECT MIN(rid) FROM ({ds._source()}) GROUP BY {keys})'
            ds.columns.append('rid')
        else:
            state = f'SELECT {cols} FROM ({ds._source()}) WHERE rid IN ' \
                f'(SELECT MIN(rid) FROM ({ds._source()}) GROUP BY {keys})'
        ds._set_rows(state)
        return ds

    def count_unique(self, columns=None):
        columns = self._handle_columns(columns)
        c = self._open_cursor()
        keys = ','.join(c for c in columns if c != 'rid') or 'rid'
        c.execute(f'SELECT COUNT(*) FROM (SELECT DISTINCT {keys} FROM ({self._source()}))')
        return c.fetchone()[0]

    def max(self, column=None):
        self._validate_column(column)
        c = self._open_cursor()
        c.execute(f'SELECT MAX({column}) FROM ({self._source()})')
        return c.fetchone()[0]

    def min(self, column=None):
        self._validate_column(column)
        c = self._open_cursor()
        c.execute(f'SELECT MIN({column}) FROM ({self._source()})')
        return c.fetchone()[0]

    def drop(self, record_ids, copy=True, keep=False):
        ds = self.copy() if copy else self
        rids = ','.join([str(r) for r in record_ids])
        cols = ','.join(ds.columns)
        if keep:
            ds._set_rows(f'SELECT {cols} FROM ({ds._source()}) WHERE rid IN ({rids})')
        else:
            ds._set_rows(f'SELECT {cols} FROM ({ds._source()}) WHERE rid NOT IN ({rids})')
        return ds

    # ---- internal ids
    def user_to_uid(self, user):
        assert self.has_internal_ids is True
        if self._col_types['user'] is int:
            try:
                user = int(user)
            except ValueError:
                raise Exception('type')
        else:
            user = str(user)
        c = self._open_cursor()
        c.execute(f'SELECT uid FROM ({self._active_table}) WHERE user = ?', (user,))
        found = c.fetchone()
        return None if found is None else found[0]

    def item_to_iid(self, item):
        assert self.has_internal_ids is True
        if self._col_types['item'] is int:
            try:
                item = int(item)
            except ValueError:
                raise Exception('type')
        else:
            item = str(item)
        c = self._open_cursor()
        c.execute(f'SELECT iid FROM ({self._active_table}) WHERE item = ?', (item,))
        found = c.fetchone()
        return None if found is None else found[0]

    def uid_to_user(self, uid):
        assert self.has_internal_ids is True
        c = self._open_cursor()
        c.execute(f'SELECT user FROM ({self._active_table}) WHERE uid = ?', (uid,))
        found = c.fetchone()
        return None if found is None else found[0]

    def iid_to_item(self, iid):
        assert self.has_internal_ids is True
        c = self._open_cursor()
        c.execute(f'SELECT item FROM ({self._active_table}) WHERE iid = ?', (iid,))
        found = c.fetchone()
        return None if found is None else found[0]

    def assign_internal_ids(self):
        self._optimize_states()
        c = self._open_cursor()
        update_c = self._open_cursor()
        if 'uid' not in self.columns:
            self.columns.append('uid')
        self._col_types['uid'] = int
        c.execute(f'SELECT DISTINCT(user) FROM {self._active_table} ORDER BY rid')
        uid = 0
        for row in c:
            update_c.execute(f'UPDATE {self._active_table} SET uid = ? WHERE user = ?', (uid, row[0]))
            uid += 1
        if 'iid' not in self.columns:
            self.columns.append('iid')
        self._col_types['iid'] = int
        c.execute(f'SELECT DISTINCT(item) FROM {self._active_table} ORDER BY rid')
        iid = 0
        for row in c:
            update_c.execute(f'UPDATE {self._active_table} SET iid = ? WHERE item = ?', (iid, row[0]))
            iid += 1
        self.has_internal_ids = True

    def remove_internal_ids(self):
        self.has_internal_ids = False
        if 'uid' in self.columns:
            self.columns.remove('uid')
            self.columns.remove('iid')

    # ---- random access
    def _stream(self, seed):
        assert len(self) > 0
        rng = random
        if seed is not None:
            rng = random.Random(seed)
        c = self._open_cursor()
        max_uid = self.max('uid')
        while True:
            uid = rng.randint(0, max_uid)
            state = self._rows(self._parse_query(f'uid == {uid}'))
            count = c.execute(f'SELECT COUNT(*) FROM ({state})').fetchone()[0]
            if count == 0:
                continue
            chosen = rng.randint(0, count - 1)
            record = None
            c.execute(state)
            at = 0
            for row in c:
                if at == chosen:
                    record = {k: v for k, v in zip(self.columns, row)}
                    break
                at += 1
            if record is not None:
                yield record

    def select_random_generator(self, query=None, seed=None):
        assert self.has_internal_ids is True
        if query is None:
            return self._stream(seed)
        ds = self.copy()
        ds._set_rows(ds._rows(ds._parse_query(query)))
        return ds._stream(seed)

    def null_interaction_pair_generator(self, interaction_threshold=None, seed=None):
        assert self.has_internal_ids is True
        assert len(self) > 0
        rng = random
        if seed is not None:
            rng = random.Random(seed)
        if interaction_threshold is None:
            negatives = None
        else:
            try:
                below = self.copy()
                below._set_rows(below._rows(below._parse_query(f'interaction < {interaction_threshold}')))
                negatives = below._stream(seed)
                next(negatives)
            except:
                negatives = None
        max_uid = self.max('uid')
        max_iid = self.max('iid')
        total = max_uid * max_iid
        c = self._open_cursor()
        while True:
            if negatives is not None and rng.randint(0, total + len(below)) >= total:
                pair = next(negatives)
                yield pair['uid'], pair['iid']
            else:
                uid = rng.randint(0, max_uid)
                iid = rng.randint(0, max_iid)
                state = self._rows(self._parse_query(f'uid == {uid}, iid == {iid}'))
                if c.execute(state).fetchone() is None:
                    yield uid, iid

    # ---- streaming
    def values(self, columns=None, to_list=False):
        columns = self._handle_columns(columns)
        c = self._open_cursor()
        c.execute(self._rows())
        for row in c:
            yield self._record(row, columns, to_list)

    # ---- modification and persistence
    # ---- interaction vectors
    def _vec(self, cache, limit, key, value, other):
        if value in cache:
            return cache[value]
        if len(cache) > limit:
            cache.clear()
        cells, interactions = [], []
        last = self.max(other)
        for cell, interaction in self.select(f'{key} == {value}').values(columns=[other, 'interaction'], to_list=True):
            cells.append(cell)
            interactions.append(float(interaction))
        try:
            cache[value] = csr_matrix((interactions, ([0] * len(interactions), cells)), shape=(1, last + 1))[0]
        except MemoryError:
            cache.clear()
        return cache[value]

    def select_user_interaction_vec(self, uid):
        assert self.has_internal_ids is True
        assert self.uid_to_user(uid) is not None
        return self._vec(self._user_interaction_vec_cache, self._user_vec_cache_limit, 'uid', uid, 'iid')

    def select_item_interaction_vec(self, iid):
        assert self.has_internal_ids is True
        assert self.iid_to_item(iid) is not None
        return self._vec(self._item_interaction_vec_cache, self._item_vec_cache_limit, 'iid', iid, 'uid')

    def apply(self, column, function):
        self._validate_column(column)
        if column in ['rid', 'uid', 'iid', 'user', 'item']:
            raise Exception('read-only')
        try:
            first = self.values(columns=[column])
            record = next(first)
            first.close()
            record[column] = function(record[column])
            new_type = type(record[column])
            assert new_type in [int, float, str]
            if new_type == self._col_types[column] and len(self._open_value_generators) == 0:
                self._optimize_states(skip_empty_query=False)
                read = self._open_cursor()
                write = self._open_cursor()
                write.execute('BEGIN')
                read.execute(self._rows())
                for row in read:
                    record = self._record(row, [column, 'rid'])
                    write.execute(f'UPDATE {self._active_table} SET {column} = ? WHERE rid = ?', (function(record[column]), record['rid']))
                write.execute('END')
            else:
                read = self._open_cursor()
                read.execute(self._rows())
                self._col_types[column] = new_type
                table = f'interactions_{str(random.random()).split(".")[1]}'
                c = self._open_cursor()
                self._build_table(c, table)
                cols = ','.join(self.columns)
                marks = ','.join('?' * len(self.columns))
                at = self.columns.index(column)
                chunk = []
                for row in read:
                    record = self._record(row, self.columns, to_list=True)
                    record[at] = function(record[at])
                    chunk.append(tuple(record))
                    if len(chunk) == self.chunk_size:
                        c.executemany(f'INSERT INTO {table} ({cols}) VALUES ({marks})', chunk)
                        chunk = []
                if len(chunk) > 0:
                    c.executemany(f'INSERT INTO {table} ({cols}) VALUES ({marks})', chunk)
                self._build_indexes(self._open_cursor(), table_name=table)
                self._shared_db_table_instances[self._db_path + self._active_table].remove(id(self))
                self._shared_db_table_instances[self._db_path + table] = set()
                self._shared_db_table_instances[self._db_path + table].add(id(self))
                self._active_table = table
                self._state_query = ''
            self._conn.commit()
        except Exception as e:
            raise Exception('failed')

    def save(self, path='', columns=None, write_header=False):
        if len(path) == 0 and '.tmp.' in self._db_path:
            raise Exception('no path')
        if len(path) == 0:
            path = self._db_path
        if path.endswith('.sqlite'):
            if path == self._db_path and len(self._shared_db_instances[path]) > 1 or \
                    path != self._db_path and path in self._shared_db_instances and len(self._shared_db_instances[path]) > 0:
                raise Exception('in use')
            tmp = path + ".tmp"
            if isfile(tmp):
                remove(tmp)
            db = sql.connect(tmp, check_same_thread=False)
            self._set_pragmas(db)
            c = db.cursor()
            self._build_table(c)
            self._write_rows(c)
            self._build_indexes(c)
            c.close()
            db.commit()
            db.close()
            if path == self._db_path:
                self._conn.close()
                if isfile(path):
                    remove(path)
                rename(tmp, path)
                self._open_connection(path, loading=True)
                self._shared_db_table_instances[path + self._active_table].remove(id(self))
                self._shared_db_table_instances.setdefault(path + 'interactions', set()).add(id(self))
                self._active_table = 'interactions'
                self._state_query = ''
            else:
                if isfile(path):
                    remove(path)
                rename(tmp, path)
        else:
            cols = self._handle_columns(columns)
            if 'rid' in cols:
                cols.remove('rid')
            if 'uid' in cols:
                cols.remove('uid')
            if 'iid' in cols:
                cols.remove('iid')
            with open(path, 'w') as f:
                out = csv.writer(f, lineterminator='\n')
                if write_header:
                    out.writerow(cols)
                for row in self.values(columns=cols, to_list=True):
                    if len(cols) == 1:
                        row = [row]
                    out.writerow(row)

    def _write_rows(self, c):
        records = []
        n = 0
        cols = copy(self.columns)
        cols.remove('rid')
        cols.append('rid')
        names = ','.join(cols)
        marks = ','.join('?' * len(cols))
        insert = f'INSERT INTO interactions ({names}) VALUES ({marks})'
        for row in self.values(columns=cols, to_list=True):
            records.append(tuple(row[:-1]) + (n,))
            n += 1
            if n % self.chunk_size == 0:
                c.executemany(insert, records)
                records = []
        if len(records) > 0:
            c.executemany(insert, records)

    # ---- tables shared between copies
    def _persistent(self):
        return '.tmp.' not in self._db_path and self._active_table == 'interactions'

    def _optimize_states(self, skip_empty_query=True):
        if self._state_query == '' and skip_empty_query:
            return
        if len(self._open_value_generators) > 0:
            return
        c = self._open_cursor()
        if len(self._shared_db_table_instances[self._db_path + self._active_table]) == 1 and not self._persistent():
            if self._state_query != '':
                c.execute(f'DELETE FROM {self._active_table} WHERE rid NOT IN (SELECT rid FROM ({self._source()}))')
        else:
            table = f'interactions_{str(random.random()).split(".")[1]}'
            self._build_table(c, table_name=table)
            cols = ','.join(self.columns)
            c.execute(f'INSERT INTO {table} ({cols}) SELECT {cols} FROM ({self._source()})')
            self._build_indexes(c, table_name=table)
            self._shared_db_table_instances[self._db_path + self._active_table].remove(id(self))
            self._shared_db_table_instances[self._db_path + table] = set()
            self._shared_db_table_instances[self._db_path + table].add(id(self))
            self._active_table = table
        self._state_query = ''
        self._conn.commit()

    def close(self):
        if self._db_path is not None and self._db_path + self._active_table in self._shared_db_table_instances:
            self._shared_db_table_instances[self._db_path + self._active_table].discard(id(self))
            if len(self._shared_db_table_instances[self._db_path + self._active_table]) == 0:
                del self._shared_db_table_instances[self._db_path + self._active_table]
                if len(self._open_value_generators) == 0 and not self._persistent():
                    self._open_cursor().execute(f'DROP TABLE {self._active_table}')
        if self._conn is not None:
            self._conn.close()
        if self._db_path is not None and self._db_path in self._shared_db_instances:
            self._shared_db_instances[self._db_path].discard(id(self))
            if len(self._shared_db_instances[self._db_path]) == 0:
                del self._shared_db_instances[self._db_path]
                if '.tmp.' in self._db_path:
                    remove(self._db_path)
                    unregister_temp_file(self._db_path)

    def copy(self):
        new = type(self)(path=self._db_path, active_table=self._active_table, columns=copy(self.columns), verbose=False)
        new.columns = copy(self.columns)
        new.has_internal_ids = self.has_internal_ids
        new._n_rows = self._n_rows
        new._state_query = self._state_query
        new._col_types = copy(self._col_types)
        new._n_rows_before_opt = self._n_rows_before_opt
        return new
