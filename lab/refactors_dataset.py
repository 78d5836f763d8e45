M = 'DRecPy/Dataset/mem_dataset.py'
B = 'DRecPy/Dataset/db_dataset.py'
A = 'DRecPy/Dataset/dataset_abc.py'
OLDQ = """            if operator == '>':
                if condition_vector is None:
                    condition_vector = (values > value)
                else:
                    condition_vector &= (values > value)
            elif operator == '>=':
                if condition_vector is None:
                    condition_vector = (values >= value)
                else:
                    condition_vector &= (values >= value)
            elif operator == '<=':
                if condition_vector is None:
                    condition_vector = (values <= value)
                else:
                    condition_vector &= (values <= value)
            elif operator == '<':
                if condition_vector is None:
                    condition_vector = (values < value)
                else:
                    condition_vector &= (values < value)
            elif operator == '==':
                if condition_vector is None:
                    condition_vector = (values == value)
                else:
                    condition_vector &= (values == value)
            elif operator == '!=':
                if condition_vector is None:
                    condition_vector = (values != value)
                else:
                    condition_vector &= (values != value)
            else:
                raise Exception(f'Unexpected operator "{operator}".')
"""
REF = {
 'q_helper': [(M, OLDQ, """            mask = self._compare(values, operator, value)
            condition_vector = mask if condition_vector is None else condition_vector & mask
"""), (M, "    def _apply_query(self,", """    @staticmethod
    def _compare(values, operator, value):
        if operator == '>': return values > value
        if operator == '>=': return values >= value
        if operator == '<=': return values <= value
        if operator == '<': return values < value
        if operator == '==': return values == value
        if operator == '!=': return values != value
        raise Exception(f'Unexpected operator "{operator}".')

    def _apply_query(self,""")],
 'q_table': [(M, OLDQ, """            if operator not in self._operators:
                raise Exception(f'Unexpected operator "{operator}".')
            mask = self._operators[operator](values, value)
            if condition_vector is None:
                condition_vector = mask
            else:
                condition_vector &= mask
"""), (M, "class MemoryInteractionDataset(InteractionDatasetABC):\n", """class MemoryInteractionDataset(InteractionDatasetABC):
    _operators = {'>': op.gt, '>=': op.ge, '<=': op.le, '<': op.lt, '==': op.eq, '!=': op.ne}

"""), (M, "import random\n", "import operator as op\nimport random\n")],
 'q_lambdas': [(M, OLDQ, """            comparisons = {
                '>': lambda a, b: a > b, '>=': lambda a, b: a >= b, '<': lambda a, b: a < b,
                '<=': lambda a, b: a <= b, '==': lambda a, b: a == b, '!=': lambda a, b: a != b,
            }
            try:
                compare = comparisons[operator]
            except KeyError:
                raise Exception(f'Unexpected operator "{operator}".')
            matches = compare(values, value)
            condition_vector = matches if condition_vector is None else condition_vector & matches
""")],
 'q_colvalues': [(M, """            if column == 'rid':
                values = self._df.index.values
            else:
                values = self._df[column].values
""", """            values = self._df.index.values if column == 'rid' else self._df[column].values
"""), (M, """            if column == 'rid':
                col_dtype = str(self._df.index.dtype)
            else:
                col_dtype = str(self._df[column].dtype)
""", """            col_dtype = str((self._df.index if column == 'rid' else self._df[column]).dtype)
""")],
 'q_parse': [(M, """        query = str(query)
        query_segments = query.split(',')

        condition_vector = None

        for idx, segment in enumerate(query_segments):
            segment = segment.strip()
""", """        condition_vector = None

        for segment in [s.strip() for s in str(query).split(',')]:
""")],
 'select_split': [(M, """        new_ds = self.copy() if copy else self
        new_ds._apply_query(query)

        return new_ds
""", """        if not copy:
            self._apply_query(query)
            return self
        ds = self.copy()
        ds._apply_query(query)
        return ds
""")],
 'one_unify': [(M, """        if to_list is True:
            record = [df[df_columns].values[0][col_idxs[col]] if col != 'rid' else df.index[0] for col in columns]
            return record[0] if len(record) == 1 else record
        else:
            return {col: df[df_columns].values[0][col_idxs[col]] if col != 'rid' else df.index[0] for col in columns}
""", """        row, rid = df[df_columns].values[0], df.index[0]
        record = {col: row[col_idxs[col]] if col != 'rid' else rid for col in columns}
        if to_list is True:
            record = [record[col] for col in columns]
            if len(record) == 1:
                return record[0]
        return record
""")],
 'values_helper': [(M, """        if to_list is True:
            for row, rid in zip(self._df[df_columns].values, self._df.index):
                record = [row[col_idxs[col]] if col != 'rid' else rid for col in columns]
                yield record[0] if len(record) == 1 else record
        else:
            for row, rid in zip(self._df[df_columns].values, self._df.index):
                yield {col: row[col_idxs[col]] if col != 'rid' else rid for col in columns}
""", """        for row, rid in zip(self._df[df_columns].values, self._df.index):
            def value_of(col):
                return rid if col == 'rid' else row[col_idxs[col]]
            if to_list is True:
                record = [value_of(col) for col in columns]
                yield record[0] if len(record) == 1 else record
            else:
                yield {col: value_of(col) for col in columns}
""")],
 'drop_mask': [(M, """        if keep:
            new_ds._df = new_ds._df[new_ds._df.index.isin(record_ids)]
        else:
            new_ds._df = new_ds._df[~new_ds._df.index.isin(record_ids)]
""", """        mask = new_ds._df.index.isin(record_ids)
        if not keep:
            mask = ~mask
        new_ds._df = new_ds._df[mask]
""")],
 'ids_helper': [(M, """        if 'uid' not in self.columns: self.columns.append('uid')
        # convert raw user ids (user column) to internal user ids (uid)
        unique_users = self._df['user'].unique()
        user_cat = pd.Categorical(self._df['user'], categories=unique_users)
        self._df['uid'] = user_cat.codes
        # to speed up user lookups
        self._user_mapping = dict([(cat, code) for code, cat in enumerate(user_cat.categories)])
        self._user_mapping_inv = dict([(code, cat) for code, cat in enumerate(user_cat.categories)])

        if 'iid' not in self.columns: self.columns.append('iid')
        # convert raw item ids (item column) to internal user ids (iid)
        unique_items = self._df['item'].unique()
        item_cat = pd.Categorical(self._df['item'], categories=unique_items)
        self._df['iid'] = item_cat.codes
        # to speed up item lookups
        self._item_mapping = dict([(cat, code) for code, cat in enumerate(item_cat.categories)])
        self._item_mapping_inv = dict([(code, cat) for code, cat in enumerate(item_cat.categories)])
""", """        self._user_mapping, self._user_mapping_inv = self._assign_ids('user', 'uid')
        self._item_mapping, self._item_mapping_inv = self._assign_ids('item', 'iid')
"""), (M, "    def remove_internal_ids(self):", """    def _assign_ids(self, raw_column, id_column):
        if id_column not in self.columns: self.columns.append(id_column)
        cat = pd.Categorical(self._df[raw_column], categories=self._df[raw_column].unique())
        self._df[id_column] = cat.codes
        return {raw: code for code, raw in enumerate(cat.categories)}, {code: raw for code, raw in enumerate(cat.categories)}

    def remove_internal_ids(self):""")],
 'ids_dict': [(M, """        self._user_mapping = dict([(cat, code) for code, cat in enumerate(user_cat.categories)])
        self._user_mapping_inv = dict([(code, cat) for code, cat in enumerate(user_cat.categories)])
""", """        self._user_mapping_inv = dict(enumerate(user_cat.categories))
        self._user_mapping = {user: uid for uid, user in self._user_mapping_inv.items()}
""")],
 'map_get': [(M, "return self._user_mapping[user] if user in self._user_mapping else None", "return self._user_mapping.get(user)"),
             (M, "return self._item_mapping_inv[iid] if iid in self._item_mapping_inv else None", "return self._item_mapping_inv.get(iid, None)")],
 'map_cast': [(M, """        elif 'float' in user_dtype: user = float(user)
        else: user = str(user)
        return self._user_mapping""", """        elif 'float' in user_dtype:
            user = float(user)
        else:
            user = str(user)

        return self._user_mapping""")],
 'map_shared': [(M, """        user_dtype = str(self._df['user'].dtype)
        if 'int' in user_dtype:
            try:
                user = int(user)
            except ValueError:
                raise Exception(f'The provided user type does not match the inferred type (expected: int, found: {type(user)}')
        elif 'float' in user_dtype: user = float(user)
        else: user = str(user)
        return self._user_mapping""", """        user = self._cast_raw_id(user, 'user')
        return self._user_mapping"""), (M, "    def uid_to_user(self, uid):", """    def _cast_raw_id(self, value, column):
        dtype = str(self._df[column].dtype)
        if 'int' in dtype:
            try:
                return int(value)
            except ValueError:
                raise Exception(f'The provided {column} type does not match the inferred type (expected: int, found: {type(value)}')
        if 'float' in dtype:
            return float(value)
        return str(value)

    def uid_to_user(self, uid):""")],
 'save_loop': [(M, """        if 'rid' in projected_cols: projected_cols.remove('rid')
        if 'uid' in projected_cols: projected_cols.remove('uid')
        if 'iid' in projected_cols: projected_cols.remove('iid')
        self._df""", """        for internal_col in ['rid', 'uid', 'iid']:
            if internal_col in projected_cols:
                projected_cols.remove(internal_col)
        self._df""")],
 'save_comp': [(M, """        projected_cols = self._handle_columns(columns)
        if 'rid' in projected_cols: projected_cols.remove('rid')
        if 'uid' in projected_cols: projected_cols.remove('uid')
        if 'iid' in projected_cols: projected_cols.remove('iid')
        self._df""", """        projected_cols = [col for col in self._handle_columns(columns) if col not in ('rid', 'uid', 'iid')]
        self._df""")],
 'save_path': [(M, """        if len(path) == 0 and len(self.path) == 0: raise Exception('No save path was specified.')

        if len(path) == 0: path = self.path
""", """        if len(path) == 0:
            if len(self.path) == 0:
                raise Exception('No save path was specified.')
            path = self.path
""")],
 'apply_local': [(M, """            self._df = self._df.copy()
            self._df[column] = self._df[column].apply(function)
""", """            df = self._df.copy()
            df[column] = df[column].apply(function)
            self._df = df
""")],
 'copy_order': [(M, """        new.columns = deepcopy(self.columns)

        new._df = self._df  # df objects are shared and whenever a modification is done, it should be cloned
""", """        new._df = self._df
        new.columns = list(self.columns)
""")],
 'copy_slice': [(M, "new.columns = deepcopy(self.columns)", "new.columns = self.columns[:]")],
 'rand_while': [(M, """            tmp_df = df.query(f'uid == {random_uid}')
            if len(tmp_df) == 0: continue

            chosen_idx = rng.randint(0, tmp_df.shape[0] - 1)
""", """            tmp_df = df.query('uid == {}'.format(random_uid))
            n_matches = len(tmp_df)
            if n_matches == 0:
                continue

            chosen_idx = rng.randint(0, n_matches - 1)
""")],
 'rand_rng': [(M, """        assert df.shape[0] > 0, 'No records were found to sample from.'

        rng = random
        if seed is not None: rng = random.Random(seed)
""", """        assert len(df) > 0, 'No records were found to sample from.'

        rng = random.Random(seed) if seed is not None else random
""")],
 'null_any': [(M, """                found = self._df[(uid_values == random_uid) & (iid_values == random_iid)].shape[0] > 0
                if not found:
                    yield random_uid, random_iid
""", """                matches = (uid_values == random_uid) & (iid_values == random_iid)
                if self._df[matches].shape[0] == 0:
                    yield random_uid, random_iid
""")],
 # database
 'db_cond_dict': [(B, """            if operator == '==':
                query_conditions.append(f'{column} = {value}')
            elif operator == '!=':
                query_conditions.append(f'{column} <> {value}')
            elif operator in ['>', '>=', '<=', '<']:
                query_conditions.append(f'{column} {operator} {value}')
""", """            sql_operator = {'==': '=', '!=': '<>'}.get(operator, operator)
            query_conditions.append(f'{column} {sql_operator} {value}')
""")],
 'db_cond_var': [(B, """            if operator == '==':
                query_conditions.append(f'{column} = {value}')
            elif operator == '!=':
                query_conditions.append(f'{column} <> {value}')
            elif operator in ['>', '>=', '<=', '<']:
                query_conditions.append(f'{column} {operator} {value}')
""", """            if operator == '==':
                sql_operator = '='
            elif operator == '!=':
                sql_operator = '<>'
            else:
                sql_operator = operator
            query_conditions.append(f'{column} {sql_operator} {value}')
""")],
 'db_literal': [(B, """            try:
                col_type = self._col_types[column]
                if col_type is int:
                    if type(value) != float and type(value) != int: raise ValueError
                elif col_type is float:
                    value = float(value)
                elif col_type is list:
                    value = list(value).__repr__()
                else:
                    value = "'" + value.replace("'", "''") + "'"
            except ValueError:""", """            try:
                value = self._to_sql_literal(value, self._col_types[column])
            except ValueError:"""), (B, "    def _build_new_state(self,", """    @staticmethod
    def _to_sql_literal(value, col_type):
        if col_type is int:
            if type(value) not in (float, int): raise ValueError
            return value
        if col_type is float:
            return float(value)
        if col_type is list:
            return repr(list(value))
        return "'" + value.replace("'", "''") + "'"

    def _build_new_state(self,""")],
 'db_state': [(B, """        if self._state_query == '':
            new_state = f'SELECT {",".join(self.columns)} FROM {self._active_table}'
            if query_conditions is not None:
                new_state += f' WHERE {" AND ".join(query_conditions)}'
        else:
            new_state = f'{self._state_query}'
            if query_conditions is not None:
                new_state += f' AND {" AND ".join(query_conditions)}'
""", """        if self._state_query == '':
            new_state, connector = f'SELECT {",".join(self.columns)} FROM {self._active_table}', 'WHERE'
        else:
            new_state, connector = self._state_query, 'AND'
        if query_conditions is not None:
            new_state += f' {connector} {" AND ".join(query_conditions)}'
""")],
 'db_fetch': [(B, """        c = self._open_cursor()
        c.execute(f'SELECT MAX({column}) FROM ({self._curr_state_source()})')
        return c.fetchone()[0]
""", """        return self._aggregate(f'MAX({column})')
"""), (B, """        c = self._open_cursor()
        c.execute(f'SELECT MIN({column}) FROM ({self._curr_state_source()})')
        return c.fetchone()[0]
""", """        return self._aggregate(f'MIN({column})')

    def _aggregate(self, expression):
        cursor = self._open_cursor()
        row = cursor.execute(f'SELECT {expression} FROM ({self._curr_state_source()})').fetchone()
        return row[0]
""")],
 'db_unique': [(B, """        new_cols = ','.join(columns)
        group_cols = ','.join(col for col in columns if col != 'rid') or 'rid'  # rid is distinct on every record
        new_state = f'SELECT {new_cols} FROM ({new_ds._curr_state_source()}) WHERE rid IN ' \\
            f'(SELECT MIN(rid) FROM ({new_ds._curr_state_source()}) ' \\
            f'GROUP BY {group_cols})'
        if 'rid' not in columns:
            new_state = f'SELECT {new_cols}, rid FROM ({new_ds._curr_state_source()}) WHERE rid IN ' \\
                f'(SELECT MIN(rid) FROM ({new_ds._curr_state_source()}) ' \\
                f'GROUP BY {group_cols})'
            new_ds.columns.append('rid')
""", """        source = new_ds._curr_state_source()
        select_cols = ','.join(columns)
        group_cols = ','.join([c for c in columns if c != 'rid'])
        if not group_cols: group_cols = 'rid'
        if 'rid' not in columns:
            select_cols = f'{select_cols}, rid'
            new_ds.columns.append('rid')
        new_state = f'SELECT {select_cols} FROM ({source}) WHERE rid IN (SELECT MIN(rid) FROM ({source}) GROUP BY {group_cols})'
""")],
 'db_drop': [(B, """        if keep:
            new_state = f'SELECT {cols} FROM ({new_ds._curr_state_source()}) WHERE rid IN ({rids})'
        else:
            new_state = f'SELECT {cols} FROM ({new_ds._curr_state_source()}) WHERE rid NOT IN ({rids})'
""", """        operator = 'IN' if keep else 'NOT IN'
        new_state = f'SELECT {cols} FROM ({new_ds._curr_state_source()}) WHERE rid {operator} ({rids})'
""")],
 'db_map': [(B, """        c = self._open_cursor()
        c.execute(f'SELECT user FROM ({self._active_table}) WHERE uid = ?', (uid,))
        ret = c.fetchone()

        return None if ret is None else ret[0]
""", """        row = self._open_cursor().execute(f'SELECT user FROM {self._active_table} WHERE uid = ?', (uid,)).fetchone()
        if row is None:
            return None
        return row[0]
""")],
 'db_map_helper': [(B, """        c = self._open_cursor()
        c.execute(f'SELECT user FROM ({self._active_table}) WHERE uid = ?', (uid,))
        ret = c.fetchone()

        return None if ret is None else ret[0]
""", """        return self._lookup('user', 'uid', uid)

    def _lookup(self, target, column, value):
        c = self._open_cursor()
        c.execute(f'SELECT {target} FROM ({self._active_table}) WHERE {column} = ?', (value,))
        ret = c.fetchone()

        return None if ret is None else ret[0]
""")],
 'db_ids': [(B, """        curr_uid = 0
        _iter = c
        if self.verbose: _iter = tqdm(c, total=n_uniq_users, desc='Assigning internal user ids')
        for row in _iter:
            user = row[0]
            update_c.execute(f'UPDATE {self._active_table} SET uid = ? WHERE user = ?', (curr_uid, user))
            curr_uid += 1
""", """        _iter = c
        if self.verbose: _iter = tqdm(c, total=n_uniq_users, desc='Assigning internal user ids')
        for uid, (user,) in enumerate(_iter):
            update_c.execute(f'UPDATE {self._active_table} SET uid = ? WHERE user = ?', (uid, user))
""")],
 'db_record': [(B, """        interaction = {k: v for k, v in zip(self.columns, row) if k in projected_columns}
        if to_list:
            list_interaction = [interaction[col] for col in projected_columns]
            if len(list_interaction) == 1: return list_interaction[0]
            else: return list_interaction
        return interaction
""", """        record = dict((col, value) for col, value in zip(self.columns, row) if col in projected_columns)
        if not to_list:
            return record
        values = [record[col] for col in projected_columns]
        return values[0] if len(values) == 1 else values
""")],
 'db_close_ret': [(B, """        if self._conn is not None:
            self._conn.close()
""", """        conn = self._conn
        if conn is not None: conn.close()
""")],
 'db_opt_names': [(B, """        if len(self._shared_db_table_instances[self._db_path + self._active_table]) == 1 and not self._is_persistent_table():""", """        table_users = self._shared_db_table_instances[self._db_path + self._active_table]
        exclusive = len(table_users) == 1
        if exclusive and not self._is_persistent_table():""")],
 'db_opt_inline': [(B, """        if self._state_query == '' and skip_empty_query: return  # nothing to optimize
        if len(self._open_value_generators) > 0: return  # can't optimize due to value generators being read
""", """        if (skip_empty_query and self._state_query == '') or self._open_value_generators: return
""")],
 'db_opt_register': [(B, """            self._shared_db_table_instances[self._db_path + self._active_table].remove(id(self))
            self._shared_db_table_instances[self._db_path + red_table] = set()
            self._shared_db_table_instances[self._db_path + red_table].add(id(self))
            self._active_table = red_table

        self._state_query = ''""", """            self._move_to_table(red_table)

        self._state_query = ''"""), (B, "    def _from_row_to_record(self,", """    def _move_to_table(self, table_name):
        self._shared_db_table_instances[self._db_path + self._active_table].remove(id(self))
        self._shared_db_table_instances[self._db_path + table_name] = {id(self)}
        self._active_table = table_name

    def _from_row_to_record(self,""")],
 'db_save_loop': [(B, """            if 'rid' in projected_cols: projected_cols.remove('rid')
            if 'uid' in projected_cols: projected_cols.remove('uid')
            if 'iid' in projected_cols: projected_cols.remove('iid')
            with open""", """            for col in ('rid', 'uid', 'iid'):
                if col in projected_cols: projected_cols.remove(col)
            with open""")],
 'db_save_write': [(B, """                    if len(projected_cols) == 1: row = [row]  # single column values are not wrapped in a list
                    writer.writerow(row)
""", """                    writer.writerow([row] if len(projected_cols) == 1 else row)
""")],
 'db_save_write2': [(B, """                if write_header: writer.writerow(projected_cols)
                for row in self.values(columns=projected_cols, to_list=True):
""", """                if write_header:
                    writer.writerow(list(projected_cols))
                gen = self.values(columns=projected_cols, to_list=True)
                for row in gen:
""")],
 'db_save_csv': [(B, """        else:
            projected_cols = self._handle_columns(columns)
            if 'rid' in projected_cols: projected_cols.remove('rid')
            if 'uid' in projected_cols: projected_cols.remove('uid')
            if 'iid' in projected_cols: projected_cols.remove('iid')
            with open(path, 'w') as f:
                writer = csv.writer(f, lineterminator='\\n')  # quotes values that contain delimiters, as the csv reader expects
                if write_header: writer.writerow(projected_cols)
                for row in self.values(columns=projected_cols, to_list=True):
                    if len(projected_cols) == 1: row = [row]  # single column values are not wrapped in a list
                    writer.writerow(row)
""", """        else:
            self._save_csv(path, columns, write_header)

    def _save_csv(self, path, columns, write_header):
        projected_cols = self._handle_columns(columns)
        if 'rid' in projected_cols: projected_cols.remove('rid')
        if 'uid' in projected_cols: projected_cols.remove('uid')
        if 'iid' in projected_cols: projected_cols.remove('iid')
        with open(path, 'w') as f:
            writer = csv.writer(f, lineterminator='\\n')  # quotes values that contain delimiters, as the csv reader expects
            if write_header: writer.writerow(projected_cols)
            for row in self.values(columns=projected_cols, to_list=True):
                if len(projected_cols) == 1: row = [row]  # single column values are not wrapped in a list
                writer.writerow(row)
""")],
 'db_save_replace': [(B, """            if path == self._db_path:  # updating origin db - requires to re-open connection
                self._conn.close()
                if isfile(path): remove(path)
                rename(tmp_path, path)
                self._open_connection(path, loading=True)
""", """            saving_in_place = path == self._db_path
            if saving_in_place:
                self._conn.close()
            if isfile(path): remove(path)
            rename(tmp_path, path)
            if saving_in_place:
                self._open_connection(path, loading=True)
"""), (B, """            else:  # saving into distinct destination
                if isfile(path): remove(path)
                rename(tmp_path, path)
        else:""", """        else:""")],
 'db_copyto': [(B, """            if keep_rids: records.append(tuple(row))
            else: records.append(tuple(row[:-1]) + (ctd,))

            ctd += 1
            if ctd % self.chunk_size == 0:
                c.executemany(insert_query, records)
                records = []
""", """            record = tuple(row) if keep_rids else tuple(row[:-1]) + (ctd,)
            records.append(record)
            ctd += 1
            if ctd % self.chunk_size == 0:
                c.executemany(insert_query, records)
                records = []
""")],
 'db_apply_split': [(B, """                for row in _iter:
                    record = self._from_row_to_record(row, [column, 'rid'])
                    cur_updt.execute(f'UPDATE {self._active_table} SET {column} = ? WHERE rid = ?',
                                     (function(record[column]), record['rid']))
""", """                update_query = f'UPDATE {self._active_table} SET {column} = ? WHERE rid = ?'
                for row in _iter:
                    record = self._from_row_to_record(row, [column, 'rid'])
                    new_value = function(record[column])
                    cur_updt.execute(update_query, (new_value, record['rid']))
""")],
 'db_rand': [(B, """            chosen_record = None
            chosen_idx = rng.randint(0, count - 1)

            c.execute(new_state)
            curr_idx = 0
            for row in c:
                if curr_idx == chosen_idx:
                    chosen_record = {k: v for k, v in zip(self.columns, row)}
                    break
                curr_idx += 1

            if chosen_record is not None: yield chosen_record
""", """            chosen_idx = rng.randint(0, count - 1)
            chosen_record = None

            for idx, row in enumerate(c.execute(new_state)):
                if idx == chosen_idx:
                    chosen_record = dict(zip(self.columns, row))
                    break

            if chosen_record is not None:
                yield chosen_record
""")],
 'db_rand_query': [(B, """        new_ds = self.copy()
        query_conditions = new_ds._parse_query(query)
        new_state = new_ds._build_new_state(query_conditions)
        new_ds._update_state(new_state)
        return new_ds._select_random_generator(seed)
""", """        return self.select(query)._select_random_generator(seed)
""")],
 'abc_handle': [(A, """        if columns is None: columns = copy(self.columns)
        columns = copy(columns) if type(columns) is list else [columns]

        for c in columns:
            assert c in self.columns, f'Unexpected column "{c}".'

        return columns
""", """        if columns is None:
            columns = self.columns
        selected = list(columns) if type(columns) is list else [columns]

        for column in selected:
            assert column in self.columns, f'Unexpected column "{column}".'

        return selected
""")],
 'abc_exists': [(A, "return False if self.select_one(query) is None else True", "record = self.select_one(query)\n        return record is not None")],
 'db_len': [(B, """        if self._n_rows is None:
            c = self._open_cursor()
            c.execute(f'SELECT COUNT(*) FROM ({self._curr_state_source()})')
            self._n_rows = c.fetchone()[0]
        return self._n_rows
""", """        if self._n_rows is not None:
            return self._n_rows
        cursor = self._open_cursor()
        cursor.execute(f'SELECT COUNT(*) FROM ({self._curr_state_source()})')
        (self._n_rows,) = cursor.fetchone()
        return self._n_rows
""")],
 'db_sqlcase': [(B, "f'SELECT COUNT(*) FROM (SELECT DISTINCT {group_cols} FROM ({self._curr_state_source()}))'", "f'select count(*) from (select distinct {group_cols} from ({self._curr_state_source()}))'")],
 'db_count_unique': [(B, """        self._record_interaction()
        columns = self._handle_columns(columns)
        group_cols""", """        columns = self._handle_columns(columns)
        self._record_interaction()
        group_cols""")],
}
