"""Reference definitions of dataset construction and loading (parsed by the analysis, never imported or executed)."""
import csv
import os
import random
import sqlite3 as sql
import requests
import pandas as pd
from zipfile import ZipFile
from copy import copy
from os.path import join, expanduser
from tqdm import tqdm
from pandas.api.types import is_string_dtype
from DRecPy.Dataset.file_utils import data_path
from DRecPy.Dataset.file_utils import register_temp_file
from DRecPy.Dataset.file_utils import get_dataset_path
from DRecPy.Dataset.file_utils import is_stored
from DRecPy.Dataset.mem_dataset import MemoryInteractionDataset as InMemory
from DRecPy.Dataset.db_dataset import DatabaseInteractionDataset as OnDisk
from DRecPy.Dataset import InteractionDataset
from DRecPy.Evaluation.Splits import leave_k_out


class InteractionsDatasetFactory:
    def __new__(cls, path='', columns=None, delimiter=',', has_header=False, in_memory=True, **kwds):
        is_db = path.endswith('.sqlite')
        if columns is None and not is_db:
            raise Exception('columns')
        if columns is not None and 'uid' in columns:
            raise Exception('uid')
        if columns is not None and 'iid' in columns:
            raise Exception('iid')
        if columns is not None:
            columns = columns + ['rid']
        try:
            if in_memory and not is_db:
                return InMemory(path=path, columns=columns, delimiter=delimiter, has_header=has_header, **kwds)
            return OnDisk(path=path, columns=columns, delimiter=delimiter, has_header=has_header, **kwds)
        except MemoryError as e:
            if not in_memory:
                raise e
            return OnDisk(path=path, columns=columns, delimiter=delimiter, has_header=has_header, **kwds)

    @staticmethod
    def read_df(df, user_label='user', item_label='item', interaction_label='interaction', **kwds):
        return InMemory(df=df.reset_index(drop=True), user_label=user_label, item_label=item_label,
                        interaction_label=interaction_label, **kwds)


class InteractionDatasetABC:
    def __init__(self, **kwds):
        self.verbose = kwds.get('verbose', True)
        self.has_internal_ids = False
        self.columns = None

    def _log(self, message):
        pass


class MemoryInteractionDataset(InteractionDatasetABC):
    def __init__(self, path='', columns=None, **kwds):
        super().__init__(**kwds)
        self.in_memory = True
        self.columns = columns
        self.path = path
        self._user_mapping = None
        self._user_mapping_inv = None
        self._item_mapping = None
        self._item_mapping_inv = None
        self._cached_interaction_matrix = None
        self._cached_trans_interaction_matrix = None
        if kwds.get('df') is None:
            names = [col for col in self.columns if col != 'rid']
            use = [i for col, i in zip(names, range(len(names))) if col is not None]
            self._df = pd.read_csv(path, delimiter=kwds.get('delimiter', ','), names=names, encoding=kwds.get('encoding'),
                                   skiprows=1 if kwds.get('has_header', True) else 0, usecols=use)
            self.columns = [col for col in self.columns if col is not None]
        else:
            self._df = kwds.get('df')
        try:
            self._df['user'] = self._df[kwds.get('user_label', 'user')]
            self._df['item'] = self._df[kwds.get('item_label', 'item')]
            self._df['interaction'] = self._df[kwds.get('interaction_label', 'interaction')]
        except Exception as e:
            raise Exception('columns')
        if self.columns is None:
            self.columns = list(self._df.columns) + ['rid']
            label = kwds.get('user_label', None)
            if label is not None and label != 'user':
                self.columns.remove(label)
            label = kwds.get('item_label', None)
            if label is not None and label != 'item':
                self.columns.remove(label)
            label = kwds.get('interaction_label', None)
            if label is not None and label != 'interaction':
                self.columns.remove(label)
        for col in self._df.columns:
            if col not in self.columns:
                self._df.drop(columns=col, inplace=True)
        for col in self._df.columns:
            if is_string_dtype(self._df[col]):
                self._df[col].fillna('', inplace=True)


class DatabaseInteractionDataset(InteractionDatasetABC):
    _open_value_generators = set()
    _shared_db_instances = dict()
    _shared_db_table_instances = dict()
    _default_user_vec_cache_limit = 1000
    _default_item_vec_cache_limit = 1000

    def __init__(self, path='', columns=None, **kwds):
        super().__init__(**kwds)
        self.in_memory = False
        self.columns = columns
        self.chunk_size = kwds.get('chunksize', 10 ** 5)
        self._state_query = ''
        self._db_path = None
        self._col_types = None
        self._active_table = kwds.get('active_table', 'interactions')
        self._user_interaction_vec_cache = dict()
        self._item_interaction_vec_cache = dict()
        self._user_vec_cache_limit = self._default_user_vec_cache_limit
        self._item_vec_cache_limit = self._default_item_vec_cache_limit
        if kwds.get('user_vec_cache_limit', None) is not None:
            self._user_vec_cache_limit = kwds.get('user_vec_cache_limit')
        if kwds.get('item_vec_cache_limit', None) is not None:
            self._item_vec_cache_limit = kwds.get('item_vec_cache_limit')
        path = expanduser(path)
        if path.endswith('.sqlite'):
            self._load_from_db(path)
        else:
            self._load_from_csv(path, kwds.get('delimiter', ','), kwds.get('has_header', True), kwds.get('encoding', None))
        if self._db_path not in self._shared_db_instances:
            self._shared_db_instances[self._db_path] = set()
        self._shared_db_instances[self._db_path].add(id(self))
        if self._db_path + self._active_table not in self._shared_db_table_instances:
            self._shared_db_table_instances[self._db_path + self._active_table] = set()
        self._shared_db_table_instances[self._db_path + self._active_table].add(id(self))
        self._n_rows = len(self)

    def _load_from_db(self, path):
        self._open_connection(path, loading=True)
        self._n_rows = len(self)
        info = self._conn.execute('PRAGMA table_info(interactions)').fetchall()
        types = {'INTEGER': int, 'REAL': float, 'TEXT': str}
        self._col_types = {v[1]: types.get(v[2], str) for v in info}
        self.columns = [v[1] for v in info if v[1] not in ['uid', 'iid']]

    def _load_from_csv(self, path, delimiter, has_header, encoding):
        def types(line):
            names = copy(self.columns)
            names.remove('rid')
            out = {'rid': int}
            for value, col in zip(line, names):
                out[col] = self._infer_value_type(value)
            return out

        def insert(lines, delimiter):
            c = self._open_cursor()
            names = copy(self.columns)
            names.remove('rid')
            try:
                records = []
                for row in csv.reader(lines, delimiter=delimiter):
                    if len(row) == 0:
                        continue
                    record = []
                    for value, col in zip(row, names):
                        if col is None:
                            continue
                        elif col == 'interaction':
                            record.append(float(value))
                        else:
                            record.append(value)
                    records.append(tuple(record) + (self._n_rows,))
                    self._n_rows += 1
            except ValueError as e:
                raise Exception('chunk')
            names.append('rid')
            names = [col for col in names if col is not None]
            cols = ','.join(names)
            marks = ','.join('?' * len(names))
            c.executemany(f'INSERT INTO interactions ({cols}) VALUES ({marks})', records)
            c.close()

        sep = delimiter
        replace = False
        if len(delimiter) > 1:
            replace = True
            sep = '\x1f'
        n = 0
        first = None
        with open(path, 'r', encoding=encoding) as f:
            for row in f:
                if first is None and ((n == 0 and has_header is False) or n > 0) and row.strip('\r\n'):
                    if replace:
                        row = row.replace(delimiter, sep)
                    first = next(csv.reader([row], delimiter=sep))
                n += 1
        self._col_types = types(first)
        self._open_connection(join(data_path(), f'interactions_{id(self)}.{str(random.random()).split(".")[1]}.tmp.sqlite'))
        self._build_table(self._open_cursor())
        self._n_rows = 0
        chunk = []
        with open(path, 'r', encoding=encoding) as f:
            if has_header is not False:
                f.readline()
            lines = f
            if self.verbose:
                lines = tqdm(f, total=n, desc='Importing dataset')
            for row in lines:
                if replace:
                    row = row.replace(delimiter, sep)
                chunk.append(row)
                if len(chunk) == self.chunk_size:
                    insert(chunk, sep)
                    chunk = []
            if len(chunk) > 0:
                insert(chunk, sep)
        self._build_indexes(self._open_cursor())
        self._conn.commit()
        self.columns = [col for col in self.columns if col is not None]

    def __len__(self):
        pass

    def _infer_value_type(self, value):
        try:
            if '.' in value:
                raise Exception
            int(value)
            return int
        except:
            pass
        try:
            float(value)
            return float
        except:
            pass
        return str

    def _build_table(self, c, table_name='interactions'):
        types = {int: 'INTEGER', float: 'REAL', str: 'TEXT', list: 'TEXT'}
        for col in ['rid', 'user', 'item', 'interaction']:
            assert col in self.columns
        text = f'CREATE TABLE {table_name} (rid INTEGER PRIMARY KEY,uid INTEGER,iid INTEGER'
        for col in self.columns:
            if col not in ['rid', 'uid', 'iid']:
                text += f',{col} {types[self._col_types[col]]}'
        text += ')'
        c.execute(text)


class DatasetReadConfig:
    def __init__(self, url, full_file, columns, delimiter, encoding='utf8', train_file=None, test_file=None, unzip_folder=None,
                 has_header=False, unzip=True):
        self.url = url
        self.train_file = train_file
        self.test_file = test_file
        self.full_file = full_file
        self.columns = columns
        self.delimiter = delimiter
        self.encoding = encoding
        self.unzip_folder = unzip_folder
        self.has_header = has_header
        self.unzip = unzip


RATINGS = ['user', 'item', 'interaction', 'timestamp']
DATASETS = {
    'ml-100k': DatasetReadConfig('http://files.grouplens.org/datasets/movielens/ml-100k.zip', 'u.data', RATINGS, '\t',
                                 train_file='ua.base', test_file='ua.test', unzip_folder='ml-100k'),
    'ml-1m': DatasetReadConfig('http://files.grouplens.org/datasets/movielens/ml-1m.zip', 'ratings.dat', RATINGS, '::', unzip_folder='ml-1m'),
    'ml-10m': DatasetReadConfig('http://files.grouplens.org/datasets/movielens/ml-10m.zip', 'ratings.dat', RATINGS, '::', unzip_folder='ml-10M100K'),
    'ml-20m': DatasetReadConfig('http://files.grouplens.org/datasets/movielens/ml-20m.zip', 'ratings.csv', RATINGS, ',', unzip_folder='ml-20m', has_header=True),
    'bx': DatasetReadConfig('https://github.com/ashwanidv100/Recommendation-System---Book-Crossing-Dataset/raw/master/BX-CSV-Dump/BX-Book-Ratings.csv',
                            'BX-Book-Ratings.csv', ['user', 'item', 'interaction'], ';', encoding='latin1', has_header=True, unzip=False),
}


def get_dataset(ds_name, path, is_generated=False, force_out_of_memory=False, verbose=True, **kwds):
    options = DATASETS[ds_name]
    if not is_stored(ds_name):
        download_dataset(ds_name)
    if is_generated:
        return InteractionDataset(path, delimiter=',', columns=options.columns, encoding='utf8',
                                  in_memory=not force_out_of_memory, verbose=verbose, **kwds)
    return InteractionDataset(path, delimiter=options.delimiter, columns=options.columns, encoding=options.encoding,
                              has_header=options.has_header, in_memory=not force_out_of_memory, verbose=verbose, **kwds)


def download_dataset(ds_name):
    options = DATASETS[ds_name]
    data = requests.get(options.url).content
    folder = get_dataset_path(ds_name)
    if not os.path.exists(folder):
        os.makedirs(folder)
    if options.unzip:
        tmp = os.path.join(folder, 'tmp.zip')
        with open(tmp, "wb") as f:
            f.write(data)
        with ZipFile(tmp, 'r') as z:
            z.extractall(folder)
        if options.unzip_folder is not None:
            src = os.path.join(folder, options.unzip_folder)
            for f in os.listdir(src):
                os.rename(os.path.join(src, f), os.path.join(folder, f))
            os.removedirs(src)
        os.remove(tmp)
    else:
        with open(os.path.join(folder, options.full_file), 'w', encoding=options.encoding) as f:
            f.write(data.decode(options.encoding))


def available_datasets():
    return list(DATASETS.keys())


def get_train_dataset(ds_name, force_out_of_memory=False, verbose=True, **kwds):
    if ds_name not in DATASETS:
        raise FileNotFoundError('name')
    options = DATASETS[ds_name]
    if options.train_file is None:
        saved = os.path.join(get_dataset_path(ds_name), ds_name + '_train.gen')
        if os.path.exists(saved):
            return get_dataset(ds_name, saved, is_generated=True, force_out_of_memory=force_out_of_memory, verbose=verbose, **kwds)
        full = get_dataset(ds_name, os.path.join(get_dataset_path(ds_name), options.full_file), force_out_of_memory=force_out_of_memory,
                           verbose=verbose, **kwds)
        train, test = leave_k_out(full, k=10, min_user_interactions=10, seed=10)
        train.save(os.path.join(get_dataset_path(ds_name), ds_name + '_train.gen'))
        test.save(os.path.join(get_dataset_path(ds_name), ds_name + '_test.gen'))
        return train
    return get_dataset(ds_name, os.path.join(get_dataset_path(ds_name), options.train_file), force_out_of_memory=force_out_of_memory,
                       verbose=verbose, **kwds)


def get_test_dataset(ds_name, force_out_of_memory=False, verbose=True, **kwds):
    if ds_name not in DATASETS:
        raise FileNotFoundError('name')
    options = DATASETS[ds_name]
    if options.test_file is None:
        saved = os.path.join(get_dataset_path(ds_name), ds_name + '_test.gen')
        if os.path.exists(saved):
            return get_dataset(ds_name, saved, is_generated=True, force_out_of_memory=force_out_of_memory, verbose=verbose, **kwds)
        full = get_dataset(ds_name, os.path.join(get_dataset_path(ds_name), options.full_file), force_out_of_memory=force_out_of_memory,
                           verbose=verbose, **kwds)
        train, test = leave_k_out(full, k=10, min_user_interactions=10, seed=10)
        train.save(os.path.join(get_dataset_path(ds_name), ds_name + '_train.gen'))
        test.save(os.path.join(get_dataset_path(ds_name), ds_name + '_test.gen'))
        return test
    return get_dataset(ds_name, os.path.join(get_dataset_path(ds_name), options.test_file), force_out_of_memory=force_out_of_memory,
                       verbose=verbose, **kwds)


def get_full_dataset(ds_name, force_out_of_memory=False, verbose=True, **kwds):
    if ds_name not in DATASETS:
        raise FileNotFoundError('name')
    return get_dataset(ds_name, os.path.join(get_dataset_path(ds_name), DATASETS[ds_name].full_file),
                       force_out_of_memory=force_out_of_memory, verbose=verbose, **kwds)
