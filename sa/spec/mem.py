"""Reference definitions of the in-memory dataset (parsed by the analysis, never imported or executed)."""
import random
from copy import copy, deepcopy
import pandas as pd
from scipy.sparse import csr_matrix


class InteractionDatasetABC:
    def _validate_column(self, column):
        assert column is not None
        assert type(column) is str
        assert column in self.columns

    def _handle_columns(self, columns):
        if columns is None:
            columns = copy(self.columns)
        columns = copy(columns) if type(columns) is list else [columns]
        for c in columns:
            assert c in self.columns
        return columns

    def exists(self, query):
        return self.select_one(query) is not None

    def count_unique(self, columns=None):
        return len(self.unique(columns))

    def values_list(self, columns=None, to_list=False):
        return [record for record in self.values(columns=columns, to_list=to_list)]


class MemoryInteractionDataset(InteractionDatasetABC):
    def __len__(self):
        return self._df.shape[0]

    # ---- queries
    def _apply_query(self, query, in_place=True):
        selected = None
        for segment in str(query).split(','):
            segment = segment.strip()
            try:
                column, operator, value = segment.split(" ")
            except ValueError:
                raise Exception('parse')
            assert column is not None or operator is not None or value is not None
            assert column in self.columns
            if column == 'rid':
                col_dtype = str(self._df.index.dtype)
            else:
                col_dtype = str(self._df[column].dtype)
            if column not in ['iid', 'uid', 'rid']:
                try:
                    if 'float' in col_dtype or 'int' in col_dtype:
                        value = float(value)
                    elif 'obj' in col_dtype:
                        value = eval(value)
                except ValueError:
                    raise Exception('value')
            else:
                value = int(value)
            if column == 'user' and operator in ['==', '!='] and self.has_internal_ids and 'int' not in col_dtype:
                column = 'uid'
                value = self.user_to_uid(value)
            elif column == 'item' and operator in ['==', '!='] and self.has_internal_ids and 'int' not in col_dtype:
                column = 'iid'
                value = self.item_to_iid(value)
            if column == 'rid':
                values = self._df.index.values
            else:
                values = self._df[column].values
            if operator == '>':
                c = values > value
            elif operator == '>=':
                c = values >= value
            elif operator == '<=':
                c = values <= value
            elif operator == '<':
                c = values < value
            elif operator == '==':
                c = values == value
            elif operator == '!=':
                c = values != value
            else:
                raise Exception('operator')
            if selected is None:
                selected = c
            else:
                selected = selected & c
        df = self._df if selected is None else self._df[selected]
        if in_place:
            self._df = df
            return None
        return df

    def select(self, query, copy=True):
        ds = self.copy() if copy else self
        ds._apply_query(query)
        return ds

    def select_one(self, query, columns=None, to_list=False):
        columns = self._handle_columns(columns)
        df = self._apply_query(query, in_place=False)
        if df.shape[0] == 0:
            return None
        stored = [col for col in self.columns if col != 'rid']
        if to_list is True:
            record = [df[stored].values[0][stored.index(col)] if col != 'rid' else df.index[0] for col in columns]
            return record[0] if len(record) == 1 else record
        return {col: df[stored].values[0][stored.index(col)] if col != 'rid' else df.index[0] for col in columns}

    # ---- views
    def drop(self, record_ids, copy=True, keep=False):
        ds = self.copy() if copy else self
        if keep:
            ds._df = ds._df[ds._df.index.isin(record_ids)]
        else:
            ds._df = ds._df[~ds._df.index.isin(record_ids)]
        return ds

    def unique(self, columns=None, copy=True):
        columns = self._handle_columns(columns).copy()
        ds = self.copy() if copy else self
        if 'rid' not in columns:
            columns.append('rid')
        data = [col for col in columns if col != 'rid']
        ds._df = ds._df.drop_duplicates(subset=data)[data]
        ds.columns = columns
        return ds

    def max(self, column=None):
        self._validate_column(column)
        if column == 'rid':
            return self._df.index.max()
        return self._df[column].max()

    def min(self, column=None):
        self._validate_column(column)
        if column == 'rid':
            return self._df.index.min()
        return self._df[column].min()

    def values(self, columns=None, to_list=False):
        columns = self._handle_columns(columns)
        stored = [col for col in self.columns if col != 'rid']
        if to_list is True:
            for row, rid in zip(self._df[stored].values, self._df.index):
                record = [row[stored.index(col)] if col != 'rid' else rid for col in columns]
                yield record[0] if len(record) == 1 else record
        else:
            for row, rid in zip(self._df[stored].values, self._df.index):
                yield {col: row[stored.index(col)] if col != 'rid' else rid for col in columns}

    # ---- internal ids
    def user_to_uid(self, user):
        assert self.has_internal_ids is True
        dtype = str(self._df['user'].dtype)
        if 'int' in dtype:
            try:
                user = int(user)
            except ValueError:
                raise Exception('type')
        elif 'float' in dtype:
            user = float(user)
        else:
            user = str(user)
        return self._user_mapping[user] if user in self._user_mapping else None

    def item_to_iid(self, item):
        assert self.has_internal_ids is True
        dtype = str(self._df['item'].dtype)
        if 'int' in dtype:
            try:
                item = int(item)
            except ValueError:
                raise Exception('type')
        elif 'float' in dtype:
            item = float(item)
        else:
            item = str(item)
        return self._item_mapping[item] if item in self._item_mapping else None

    def uid_to_user(self, uid):
        assert self.has_internal_ids is True
        return self._user_mapping_inv[uid] if uid in self._user_mapping_inv else None

    def iid_to_item(self, iid):
        assert self.has_internal_ids is True
        return self._item_mapping_inv[iid] if iid in self._item_mapping_inv else None

    def assign_internal_ids(self):
        self._df = self._df.copy()
        if 'uid' not in self.columns:
            self.columns.append('uid')
        user_cat = pd.Categorical(self._df['user'], categories=self._df['user'].unique())
        self._df['uid'] = user_cat.codes
        self._user_mapping = dict([(cat, code) for code, cat in enumerate(user_cat.categories)])
        self._user_mapping_inv = dict([(code, cat) for code, cat in enumerate(user_cat.categories)])
        if 'iid' not in self.columns:
            self.columns.append('iid')
        item_cat = pd.Categorical(self._df['item'], categories=self._df['item'].unique())
        self._df['iid'] = item_cat.codes
        self._item_mapping = dict([(cat, code) for code, cat in enumerate(item_cat.categories)])
        self._item_mapping_inv = dict([(code, cat) for code, cat in enumerate(item_cat.categories)])
        self.has_internal_ids = True

    def remove_internal_ids(self):
        self.has_internal_ids = False
        if 'uid' in self.columns:
            self._df = self._df.drop(columns=['uid', 'iid'])
            self.columns.remove('uid')
            self.columns.remove('iid')

    # ---- random access
    def _stream(self, df, seed):
        assert df.shape[0] > 0
        rng = random
        if seed is not None:
            rng = random.Random(seed)
        max_uid = self.max('uid')
        stored = [col for col in self.columns if col != 'rid']
        while True:
            uid = rng.randint(0, max_uid)
            rows = df.query(f'uid == {uid}')
            if len(rows) == 0:
                continue
            chosen = rng.randint(0, rows.shape[0] - 1)
            record = {k: v for k, v in zip(stored, rows.iloc[chosen, :])}
            record['rid'] = rows.index[chosen]
            if record['uid'] is not None:
                record['uid'] = int(record['uid'])
            if record['iid'] is not None:
                record['iid'] = int(record['iid'])
            yield record

    def select_random_generator(self, query=None, seed=None):
        assert self.has_internal_ids is True
        assert len(self) > 0
        if query is None:
            return self._stream(self._df, seed)
        return self._stream(self._apply_query(query, in_place=False), seed)

    def null_interaction_pair_generator(self, interaction_threshold=None, seed=None):
        assert self.has_internal_ids is True
        assert len(self) > 0
        rng = random
        if seed is not None:
            rng = random.Random(seed)
        if interaction_threshold is None:
            negatives = None
        else:
            try:
                below = self._apply_query(f'interaction < {interaction_threshold}', in_place=False)
                negatives = self._stream(below, seed)
                next(negatives)
            except:
                negatives = None
        max_uid = self.max('uid')
        max_iid = self.max('iid')
        total = int(max_uid) * int(max_iid)
        uids = self._df['uid'].values
        iids = self._df['iid'].values
        while True:
            if negatives is not None and rng.randint(0, total + len(below)) >= total:
                pair = next(negatives)
                yield pair['uid'], pair['iid']
            else:
                uid = rng.randint(0, max_uid)
                iid = rng.randint(0, max_iid)
                if not self._df[(uids == uid) & (iids == iid)].shape[0] > 0:
                    yield uid, iid

    # ---- modification and persistence
    # ---- interaction vectors
    def _build_interaction_matrix(self):
        assert self.has_internal_ids is True
        users, items, interactions = [], [], []
        columns = [c for c in self.columns if c != 'rid']
        for uid in range(len(self._user_mapping_inv)):
            rows = self._df[self._df['uid'].values == uid]
            for row in rows[columns].values:
                users.append(uid)
                items.append(row[columns.index('iid')])
                interactions.append(float(row[columns.index('interaction')]))
        self._cached_interaction_matrix = csr_matrix((interactions, (users, items)),
                                                     shape=(len(self._user_mapping_inv), len(self._item_mapping_inv)))
        self._cached_trans_interaction_matrix = self._cached_interaction_matrix.transpose()

    def _row(self, key, value, other, n):
        cells, interactions = [], []
        columns = [c for c in self.columns if c != 'rid']
        for row in self._df[self._df[key].values == value][columns].values:
            cells.append(row[columns.index(other)])
            interactions.append(float(row[columns.index('interaction')]))
        return csr_matrix((interactions, ([0] * len(interactions), cells)), shape=(1, n))[0]

    def select_user_interaction_vec(self, uid):
        assert self.has_internal_ids is True
        assert self.uid_to_user(uid) is not None
        try:
            if self._cached_interaction_matrix is not None and self._cached_interaction_matrix.shape[0] <= 1:
                raise MemoryError
            if self._cached_interaction_matrix is None:
                self._build_interaction_matrix()
            return self._cached_interaction_matrix[uid]
        except MemoryError:
            self._cached_interaction_matrix = csr_matrix(0)
            return self._row('uid', uid, 'iid', len(self._item_mapping_inv))

    def select_item_interaction_vec(self, iid):
        assert self.has_internal_ids is True
        assert self.iid_to_item(iid) is not None
        try:
            if self._cached_interaction_matrix is not None and self._cached_interaction_matrix.shape[0] <= 1:
                raise MemoryError
            if self._cached_interaction_matrix is None:
                self._build_interaction_matrix()
            return self._cached_trans_interaction_matrix[iid]
        except MemoryError:
            self._cached_interaction_matrix = csr_matrix(0)
            return self._row('iid', iid, 'uid', len(self._user_mapping_inv))

    def apply(self, column, function):
        self._validate_column(column)
        if column in ['rid', 'uid', 'iid', 'user', 'item']:
            raise Exception('read-only')
        try:
            value = self._df[column].values[0]
            new_type = type(function(value))
            if 'numpy' in str(new_type):
                new_type = type(value.item())
            assert new_type in [int, float, str]
            self._df = self._df.copy()
            self._df[column] = self._df[column].apply(function)
        except Exception as e:
            raise Exception('failed')

    def save(self, path='', columns=None, write_header=False):
        if len(path) == 0 and len(self.path) == 0:
            raise Exception('no path')
        if len(path) == 0:
            path = self.path
        cols = self._handle_columns(columns)
        if 'rid' in cols:
            cols.remove('rid')
        if 'uid' in cols:
            cols.remove('uid')
        if 'iid' in cols:
            cols.remove('iid')
        self._df[cols].to_csv(path, index=None, header=write_header)

    def copy(self):
        new = MemoryInteractionDataset.__new__(MemoryInteractionDataset)
        new.in_memory = self.in_memory
        new.verbose = self.verbose
        new.path = self.path
        new.has_internal_ids = self.has_internal_ids
        new.columns = deepcopy(self.columns)
        new._df = self._df
        new._user_mapping = self._user_mapping
        new._user_mapping_inv = self._user_mapping_inv
        new._item_mapping = self._item_mapping
        new._item_mapping_inv = self._item_mapping_inv
        return new
