M = 'DRecPy/Dataset/mem_dataset.py'
B = 'DRecPy/Dataset/db_dataset.py'
A = 'DRecPy/Dataset/dataset_abc.py'
BUG = {
 'd_copy_columns_alias': ('D01', [(B, "        new.columns = shallowcopy(self.columns)\n", "        new.columns = self.columns\n")]),
 'd_copy_coltypes_alias': ('D01', [(B, "new._col_types = shallowcopy(self._col_types)", "new._col_types = self._col_types")]),
 'd_copy_m_columns': ('D01', [(M, "new.columns = deepcopy(self.columns)", "new.columns = self.columns")]),
 'd_copy_nostate': ('D01', [(B, "        new._state_query = shallowcopy(self._state_query)\n", "")]),
 'd_copy_table': ('D01', [(B, "type(self)(path=self._db_path, active_table=self._active_table,", "type(self)(path=self._db_path,")]),
 'd_copy_ids': ('D01', [(M, "        new.has_internal_ids = self.has_internal_ids\n", "        new.has_internal_ids = self._user_mapping is not None\n")]),
 'd_assign_nocopy': ('D01,D06', [(M, "        self._df = self._df.copy()  # to avoid issues with other instances modifying the df (df objects are shared)\n", "")]),
 'd_assign_copyonce': ('D01,D06', [(M, "        self._df = self._df.copy()  # to avoid issues with other instances modifying the df (df objects are shared)\n", "        if 'uid' not in self.columns: self._df = self._df.copy()\n")]),
 'd_apply_nocopy': ('D11,D01', [(M, "            self._df = self._df.copy()\n            self._df[column]", "            self._df[column]")]),
 'd_remove_inplace': ('D01,D06', [(M, "self._df = self._df.drop(columns=['uid', 'iid'])", "self._df.drop(columns=['uid', 'iid'], inplace=True)")]),
 'd_opt_shared': ('D01', [(B, "len(self._shared_db_table_instances[self._db_path + self._active_table]) == 1 and", "len(self._shared_db_table_instances[self._db_path + self._active_table]) <= 2 and")]),
 'd_opt_unreg': ('D01', [(B, """            self._shared_db_table_instances[self._db_path + red_table] = set()
            self._shared_db_table_instances[self._db_path + red_table].add(id(self))
            self._active_table = red_table

        self._state_query = ''""", """            self._shared_db_table_instances[self._db_path + red_table] = set()
            self._active_table = red_table

        self._state_query = ''""")]),
 'd_opt_noskip': ('D01', [(B, "        if len(self._open_value_generators) > 0: return  # can't optimize due to value generators being read\n", "")]),
 'd_opt_generatorcheck_apply': ('D11', [(B, "if new_col_type == self._col_types[column] and len(self._open_value_generators) == 0:", "if new_col_type == self._col_types[column]:")]),
 'd_close_drop': ('D09', [(B, "and not self._is_persistent_table():\n                    self._open_cursor()", "and '.tmp.' in self._db_path or self._active_table != 'interactions':\n                    self._open_cursor()")]),
 'd_close_persist': ('D09', [(B, "                if '.tmp.' in self._db_path:\n", "                if '.tmp' in self._db_path or self._active_table != 'interactions':\n")]),
 'd_m_ge': ('D04', [(M, "condition_vector &= (values >= value)", "condition_vector &= (values > value)")]),
 'd_m_translate_lt': ('D04', [(M, "column == 'user' and operator in ['==', '!=']", "column == 'user'")]),
 'd_m_firstcond': ('D04', [(M, "condition_vector &= (values != value)", "condition_vector |= (values != value)")]),
 'd_db_and': ('D04', [(B, "new_state += f' AND {\" AND \".join(query_conditions)}'", "new_state += f' AND {\" OR \".join(query_conditions)}'")]),
 'd_db_lim': ('D04', [(B, "new_state = self._build_new_state(query_conditions, limit=1)", "new_state = self._build_new_state(query_conditions[:1], limit=1)")]),
 'd_db_nquote': ('D04', [(B, "value = \"'\" + value.replace(\"'\", \"''\") + \"'\"", "value = \"'\" + value + \"'\"")]),
 'd_db_intfloat': ('D04', [(B, "if type(value) != float and type(value) != int: raise ValueError", "value = int(value)")]),
 'd_sel_inplace': ('D04', [(B, "        new_ds = self.copy() if copy else self\n        if copy: self._record_interaction()\n\n        query_conditions", "        new_ds = self.copy() if copy or self._state_query == '' else self\n        if copy: self._record_interaction()\n\n        query_conditions")]),
 'd_sel_stale_rows': ('D04', [(B, "        self._n_rows = self._open_cursor().execute(f'SELECT COUNT(*) FROM ({new_state})').fetchone()[0]\n", "        if self._n_rows is None: self._n_rows = self._open_cursor().execute(f'SELECT COUNT(*) FROM ({new_state})').fetchone()[0]\n")]),
 'd_drop_notin': ('D05', [(B, "FROM ({new_ds._curr_state_source()}) WHERE rid NOT IN ({rids})'", "FROM ({new_ds._active_table}) WHERE rid NOT IN ({rids})'")]),
 'd_drop_m_iloc': ('D05', [(M, "new_ds._df = new_ds._df[new_ds._df.index.isin(record_ids)]", "new_ds._df = new_ds._df.iloc[record_ids]")]),
 'd_uniq_max': ('D05', [(B, "            new_state = f'SELECT {new_cols}, rid FROM ({new_ds._curr_state_source()}) WHERE rid IN ' \\\n                f'(SELECT MIN(rid)", "            new_state = f'SELECT {new_cols}, rid FROM ({new_ds._curr_state_source()}) WHERE rid IN ' \\\n                f'(SELECT MAX(rid)")]),
 'd_uniq_m_last': ('D05', [(M, "drop_duplicates(subset=df_columns)", "drop_duplicates(subset=df_columns, keep='last')")]),
 'd_uniq_active': ('D05', [(B, "SELECT COUNT(*) FROM (SELECT DISTINCT {group_cols} FROM ({self._curr_state_source()}))", "SELECT COUNT(*) FROM (SELECT DISTINCT {group_cols} FROM ({self._active_table}))")]),
 'd_max_active': ('D05', [(B, "SELECT MAX({column}) FROM ({self._curr_state_source()})", "SELECT MAX({column}) FROM {self._active_table}")]),
 'd_values_order': ('D05', [(B, "list_interaction = [interaction[col] for col in projected_columns]", "list_interaction = [interaction[col] for col in interaction]")]),
 'd_values_m_rid': ('D05', [(M, "for row, rid in zip(self._df[df_columns].values, self._df.index):\n                record", "for rid, row in enumerate(self._df[df_columns].values):\n                record")]),
 'd_len': ('D05', [(B, "c.execute(f'SELECT COUNT(*) FROM ({self._curr_state_source()})')\n            self._n_rows", "c.execute(f'SELECT COUNT(*) FROM ({self._active_table})')\n            self._n_rows")]),
 'd_ids_order': ('D06', [(B, "SELECT DISTINCT(item) FROM {self._active_table} ORDER BY rid", "SELECT DISTINCT(item) FROM {self._active_table}")]),
 'd_ids_m_inv': ('D06', [(M, "self._item_mapping_inv = dict([(code, cat) for code, cat in enumerate(item_cat.categories)])", "self._item_mapping_inv = dict([(code, cat) for code, cat in enumerate(sorted(item_cat.categories))])")]),
 'd_ids_m_once': ('D06', [(M, "        if 'iid' not in self.columns: self.columns.append('iid')\n        # convert raw item ids (item column) to internal user ids (iid)\n        unique_items = self._df['item'].unique()", "        if 'iid' not in self.columns: self.columns.append('iid')\n        unique_items = sorted(self._df['item'].unique())")]),
 'd_ids_miss0': ('D06', [(M, "return self._user_mapping[user] if user in self._user_mapping else None", "return self._user_mapping.get(user) or None")]),
 'd_ids_db_one': ('D06', [(B, "SET iid = ? WHERE item = ?', (curr_iid, item)", "SET iid = ? WHERE item = ? AND iid IS NULL', (curr_iid, item)")]),
 'd_ids_noopt': ('D06', [(B, "    def assign_internal_ids(self):\n        self._optimize_states()\n", "    def assign_internal_ids(self):\n")]),
 'd_save_rid': ('D07', [(M, "        if 'iid' in projected_cols: projected_cols.remove('iid')\n        self._df", "        self._df")]),
 'd_save_active': ('D07', [(B, "                self._active_table = 'interactions'\n                self._state_query = ''\n", "                self._active_table = 'interactions'\n")]),
 'd_save_chunk': ('D07', [(B, "        if len(records) > 0: c.executemany(insert_query, records)\n\n    def _build_table", "        if len(records) > 1: c.executemany(insert_query, records)\n\n    def _build_table")]),
 'd_save_header': ('D07', [(B, "if write_header: writer.writerow(projected_cols)", "if write_header: writer.writerow(self.columns)")]),
 'd_ids_cache': ('D03', [(M, "            self.columns.remove('iid')\n            self._reset_interaction_matrix()\n", "            self.columns.remove('iid')\n")]),
 'd_save_rm_first': ('D07', [(B, "            tmp_path = path + \".tmp\"\n            if isfile(tmp_path): remove(tmp_path)\n", "            tmp_path = path + \".tmp\"\n            if isfile(tmp_path): remove(tmp_path)\n            if path != self._db_path and isfile(path): remove(path)\n")]),
 'd_save_inuse': ('D07', [(B, "path != self._db_path and path in self._shared_db_instances and len(self._shared_db_instances[path]) > 0", "path != self._db_path and path in self._shared_db_instances and len(self._shared_db_instances[path]) > 1")]),
 'd_save_nocommit': ('D07', [(B, "            new_db.commit()\n            new_db.close()\n", "            new_db.close()\n")]),
 'd_apply_ro': ('D11', [(B, "read_only_columns = ['rid', 'uid', 'iid', 'user', 'item']", "read_only_columns = ['rid', 'uid', 'iid', 'user']")]),
 'd_apply_twice': ('D11', [(B, "(function(record[column]), record['rid'])", "(function(function(record[column])), record['rid'])")]),
 'd_apply_where': ('D11', [(B, "                cur_read.execute(self._build_new_state())\n\n", "                cur_read.execute(f'SELECT * FROM {self._active_table}')\n\n")]),
 'd_apply_noopt': ('D11,D01', [(B, "                self._optimize_states(skip_empty_query=False)", "                self._optimize_states()")]),
 'd_rand_max': ('D13', [(M, "chosen_idx = rng.randint(0, tmp_df.shape[0] - 1)", "chosen_idx = rng.randint(0, max(tmp_df.shape[0] - 2, 0))")]),
 'd_rand_seed': ('D13', [(B, "existing_null_pair_gen = negative_ds._select_random_generator(seed)", "existing_null_pair_gen = negative_ds._select_random_generator()")]),
 'd_rand_query': ('D13', [(M, "        new_df = self._apply_query(query, in_place=False)\n        return self._select_random_generator(new_df, seed)", "        new_df = self._apply_query(query)\n        return self._select_random_generator(self._df, seed)")]),
 'd_null_thr': ('D13', [(B, "f'interaction < {interaction_threshold}'", "f'interaction <= {interaction_threshold}'")]),
 'd_null_found': ('D13', [(M, "(uid_values == random_uid) & (iid_values == random_iid)", "(iid_values == random_iid)")]),
 'd_handle_alias': ('D02', [(A, "columns = copy(columns) if type(columns) is list else [columns]", "columns = columns if type(columns) is list else [columns]")]),
}
