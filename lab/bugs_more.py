M = 'DRecPy/Dataset/mem_dataset.py'
B = 'DRecPy/Dataset/db_dataset.py'
A = 'DRecPy/Dataset/dataset_abc.py'
BUG = {
 # queries
 'q_m_strip': ('D04', [(M, "            elif operator == '<=':\n                if condition_vector is None:\n                    condition_vector = (values <= value)\n                else:\n                    condition_vector &= (values <= value)", "            elif operator == '<=':\n                condition_vector = (values <= value)")]),
 'q_m_ne_or': ('D04', [(M, "condition_vector &= (values != value)", "condition_vector |= (values != value)")]),
 'q_m_intuid': ('D04', [(M, "                value = int(value)\n\n            # use", "                value = int(value) - 1\n\n            # use")]),
 'q_m_itemuser': ('D04', [(M, "                column = 'iid'\n                value = self.item_to_iid(value)", "                column = 'iid'\n                value = self.user_to_uid(value)")]),
 'q_m_col': ('D04', [(M, "                column = 'iid'\n                value", "                column = 'uid'\n                value")]),
 'q_m_rid': ('D04', [(M, "                values = self._df.index.values\n", "                values = np.arange(len(self._df))\n"), (M, "import random\n", "import random\nimport numpy as np\n")]),
 'q_m_int': ('D04', [(M, "                        value = float(value)\n", "                        value = int(float(value))\n")]),
 'q_m_break': ('D04', [(M, "                raise Exception(f'Unexpected operator \"{operator}\".')", "                continue")]),
 'q_m_noidx': ('D04', [(M, "operator in ['==', '!='] and self.has_internal_ids and 'int' not in col_dtype:\n                column = 'uid'", "self.has_internal_ids and 'int' not in col_dtype:\n                column = 'uid'")]),
 'q_m_lasttwo': ('D04', [(M, "for idx, segment in enumerate(query_segments):", "for idx, segment in enumerate(query_segments[:3]):")]),
 'q_m_noinplace': ('D04', [(M, "        df = self._apply_query(query, in_place=False)\n        if df", "        df = self._apply_query(query)\n        if df")]),
 'q_m_copy': ('D04', [(M, "new_ds = self.copy() if copy else self\n        new_ds._apply_query(query)", "new_ds = self.copy() if copy else self\n        new_ds._apply_query(query, in_place=copy)")]),
 'q_m_noreset': ('D03', [(M, "                self._df = self._df[condition_vector]\n                self._reset_interaction_matrix()", "                self._df = self._df[condition_vector]")]),
 'q_m_first': ('D04', [(M, "record = [df[df_columns].values[0][col_idxs[col]] if col != 'rid' else df.index[0] for col in columns]", "record = [df[df_columns].values[-1][col_idxs[col]] if col != 'rid' else df.index[0] for col in columns]")]),
 'q_m_first2': ('D04', [(M, "return {col: df[df_columns].values[0][col_idxs[col]] if col != 'rid' else df.index[0] for col in columns}", "return {col: df[df_columns].values[0][col_idxs[col]] if col != 'rid' else self._df.index[0] for col in columns}")]),
 # views
 'v_m_zip': ('D05', [(M, "            for row, rid in zip(self._df[df_columns].values, self._df.index):\n                yield {", "            for rid, row in enumerate(self._df[df_columns].values):\n                yield {")]),
 'v_m_one': ('D05', [(M, "                record = [row[col_idxs[col]] if col != 'rid' else rid for col in columns]\n                yield record[0] if len(record) == 1 else record", "                record = [row[col_idxs[col]] if col != 'rid' else rid for col in columns]\n                yield record")]),
 'v_m_keep': ('D05', [(M, "            new_ds._df = new_ds._df[new_ds._df.index.isin(record_ids)]\n        else:\n            new_ds._df = new_ds._df[~new_ds._df.index.isin(record_ids)]", "            new_ds._df = new_ds._df[new_ds._df.index.isin(record_ids)]\n        else:\n            new_ds._df = self._df[~self._df.index.isin(list(record_ids)[:-1])]")]),
 'v_m_dropinplace': ('D01', [(M, "            new_ds._df = new_ds._df[~new_ds._df.index.isin(record_ids)]", "            new_ds._df.drop(index=list(record_ids), inplace=True)")]),
 'v_m_uniqkeep': ('D05', [(M, "drop_duplicates(subset=df_columns)", "drop_duplicates(subset=df_columns, keep=False)")]),
 'v_m_uniqall': ('D05', [(M, "        new_ds._df = new_ds._df[df_columns]\n        new_ds.columns = columns", "        new_ds.columns = columns")]),
 'v_m_uniqnoreset': ('D03', [(M, "        new_ds.columns = columns\n        new_ds._reset_interaction_matrix()", "        new_ds.columns = columns")]),
 'v_m_dropnoreset': ('D03', [(M, "isin(record_ids)]\n        new_ds._reset_interaction_matrix()", "isin(record_ids)]")]),
 'v_m_maxrid': ('D05', [(M, "if column == 'rid': return self._df.index.max()", "if column == 'rid': return len(self._df) - 1")]),
 'v_m_uniqcols': ('D02', [(M, "columns = self._handle_columns(columns).copy()\n        new_ds = self.copy() if copy else self\n\n        if 'rid' not in columns: columns.append('rid')", "new_ds = self.copy() if copy else self\n        columns = columns or new_ds.columns\n\n        if 'rid' not in columns: columns.append('rid')")]),
 'v_db_one': ('D05', [(B, "if len(list_interaction) == 1: return list_interaction[0]", "if len(projected_columns) == len(self.columns): return list_interaction[0]")]),
 'v_db_ordered': ('D05', [(B, "list_interaction = [interaction[col] for col in projected_columns]", "list_interaction = list(interaction.values())")]),
 'v_db_uniqgroup': ('D05', [(B, "        new_cols = ','.join(columns)\n        group_cols = ','.join(col for col in columns if col != 'rid') or 'rid'", "        new_cols = ','.join(columns)\n        group_cols = ','.join(columns)")]),
 'v_db_uniqsrc': ('D05', [(B, "                f'(SELECT MIN(rid) FROM ({new_ds._curr_state_source()}) ' \\\n                f'GROUP BY {group_cols})'\n            new_ds", "                f'(SELECT MIN(rid) FROM {new_ds._active_table} ' \\\n                f'GROUP BY {group_cols})'\n            new_ds")]),
 'v_db_count': ('D05', [(B, "SELECT COUNT(*) FROM (SELECT DISTINCT {group_cols} FROM", "SELECT COUNT(*) FROM (SELECT {group_cols} FROM")]),
 'v_db_min': ('D05', [(B, "SELECT MIN({column}) FROM ({self._curr_state_source()})", "SELECT MIN({column}) FROM {self._active_table}")]),
 'v_db_drop': ('D05', [(B, "WHERE rid IN ({rids})'", "WHERE rowid IN ({rids})'")]),
 'v_db_dropsrc': ('D05', [(B, "{cols} FROM ({new_ds._curr_state_source()}) WHERE rid NOT IN", "{cols} FROM ({new_ds._active_table}) WHERE rid NOT IN")]),
 'v_db_dropself': ('D05', [(B, "        new_ds._update_state(new_state)\n        return new_ds\n\n    def user_to_uid", "        self._update_state(new_state)\n        return new_ds\n\n    def user_to_uid")]),
 # ids
 'i_m_nunique': ('D06', [(M, "unique_users = self._df['user'].unique()", "unique_users = sorted(self._df['user'].unique())")]),
 'i_m_swapinv': ('D06', [(M, "self._user_mapping_inv = dict([(code, cat) for code, cat in enumerate(user_cat.categories)])", "self._user_mapping_inv = dict([(cat, code) for code, cat in enumerate(user_cat.categories)])")]),
 'i_m_itemcat': ('D06', [(M, "self._item_mapping_inv = dict([(code, cat) for code, cat in enumerate(item_cat.categories)])", "self._item_mapping_inv = dict([(code, cat) for code, cat in enumerate(user_cat.categories)])")]),
 'i_m_sharedupd': ('D01', [(M, "        self._user_mapping = dict([(cat, code) for code, cat in enumerate(user_cat.categories)])", "        if self._user_mapping is None: self._user_mapping = {}\n        self._user_mapping.update([(cat, code) for code, cat in enumerate(user_cat.categories)])")]),
 'i_m_noreset': ('D03', [(M, "        self._reset_interaction_matrix()\n\n        self.has_internal_ids = True", "        self.has_internal_ids = True")]),
 'i_m_removeflag': ('D06', [(M, "        self.has_internal_ids = False\n        if 'uid'", "        if 'uid'")]),
 'i_m_str': ('D06', [(M, "        else: user = str(user)", "        else: user = str(user).strip()")]),
 'i_m_floatitem': ('D06', [(M, "elif 'float' in item_dtype: item = float(item)", "elif 'float' in item_dtype: item = int(item)")]),
 'i_m_zero': ('D06', [(M, "return self._user_mapping[user] if user in self._user_mapping else None", "return self._user_mapping.get(user) or None")]),
 'i_db_start': ('D06', [(B, "        curr_iid = 0\n", "        curr_iid = curr_uid\n")]),
 'i_db_inc': ('D06', [(B, "                update_c", "                update_c", ), (B, "SET iid = ? WHERE item = ?', (curr_iid, item))\n            curr_iid += 1", "SET iid = ? WHERE item = ? AND iid IS NULL', (curr_iid, item))\n            curr_iid += 1")]),
 'i_db_order': ('D06', [(B, "SELECT DISTINCT(item) FROM {self._active_table} ORDER BY rid", "SELECT DISTINCT(user) FROM {self._active_table} ORDER BY rid")]),
 'i_db_like': ('D06', [(B, "SELECT uid FROM ({self._active_table}) WHERE user = ?', (user,)", "SELECT uid FROM ({self._active_table}) WHERE user LIKE ?', (user,)")]),
 'i_db_state': ('D06', [(B, "SELECT uid FROM ({self._active_table}) WHERE user = ?", "SELECT uid FROM ({self._curr_state_source()}) WHERE user = ?")]),
 'i_db_truthy': ('D06', [(B, "FROM ({self._active_table}) WHERE iid = ?', (iid,))\n        ret = c.fetchone()\n\n        return None if ret is None else ret[0]", "FROM ({self._active_table}) WHERE iid = ?', (iid,))\n        ret = c.fetchone()\n\n        return None if not iid or ret is None else ret[0]")]),
 'i_db_nocache': ('D03', [(B, "        self._reset_interaction_vec_caches()\n        self.has_internal_ids = True", "        self.has_internal_ids = True")]),
 # vectors
 'x_db_key': ('D03', [(B, "            self._item_interaction_vec_cache[iid] = csr_matrix(", "            self._user_interaction_vec_cache[iid] = csr_matrix(")]),
 'x_db_shape': ('D03', [(B, "shape=(1, max_uid + 1))[0]", "shape=(1, max_uid))[0]")]),
 'x_db_max': ('D03', [(B, "        max_uid = self.max('uid')\n        item_interactions", "        max_uid = self.select(f'iid == {iid}').max('uid')\n        item_interactions")]),
 'x_m_int': ('D03', [(M, "                cols.append(row[uid_col_idx])\n", "                cols.append(row[uid_col_idx] - 1)\n")]),
 'x_m_trans': ('D03', [(M, "return self._cached_trans_interaction_matrix[iid]", "return self._cached_interaction_matrix[:, iid]")]),
 'x_m_rng': ('D03', [(M, "for uid in range(n_uids):", "for uid in range(1, n_uids):")]),
 'x_m_rebuild': ('D03', [(M, "            if column == 'interaction' and self._cached_interaction_matrix is not None:", "            if column == 'interaction' and self._cached_trans_interaction_matrix is None:")]),
 # apply
 'a_db_cond': ('D11', [(B, "if new_col_type == self._col_types[column] and len(self._open_value_generators) == 0:", "if new_col_type == self._col_types[column]:")]),
 'a_db_last': ('D11', [(B, "                if len(chunk) > 0:\n                    c.executemany(f'INSERT INTO {new_table_name}", "                if len(chunk) > 1:\n                    c.executemany(f'INSERT INTO {new_table_name}")]),
 'a_db_state': ('D11', [(B, "                self._active_table = new_table_name\n                self._state_query = ''\n\n            self._conn.commit()", "                self._active_table = new_table_name\n\n            self._conn.commit()")]),
 'a_db_type': ('D11', [(B, "                self._col_types[column] = new_col_type\n", "")]),
 'a_db_cache': ('D03', [(B, "            self._conn.commit()\n            self._reset_interaction_vec_caches()\n\n        except", "            self._conn.commit()\n\n        except")]),
 'a_db_where': ('D11', [(B, "SET {column} = ? WHERE rid = ?',\n                                     (function(record[column]), record['rid'])", "SET {column} = ? WHERE {column} = ?',\n                                     (function(record[column]), record[column])")]),
 'a_db_interactionlost': ('D11', [(B, "record[updt_col_index] = function(record[updt_col_index])", "record[updt_col_index] = test_record[column]")]),
 'a_m_map': ('D11', [(M, "self._df[column] = self._df[column].apply(function)", "self._df[column] = self._df[column].apply(function).astype(type(test_record_col))")]),
 'a_m_nocopy': ('D01', [(M, "            self._df = self._df.copy()\n            self._df[column]", "            self._df[column]")]),
 # copy
 'c_m_cache': ('D03', [(M, "        new._cached_interaction_matrix = None\n", "        new._cached_interaction_matrix = self._cached_interaction_matrix\n")]),
 'c_m_verbose': ('D01', [(M, "        new.columns = deepcopy(self.columns)\n", "        new.columns = self.columns\n")]),
 'c_db_limit': ('D03', [(B, "        new._state_query = shallowcopy(self._state_query)\n", "        new._user_interaction_vec_cache = self._user_interaction_vec_cache\n        new._state_query = shallowcopy(self._state_query)\n")]),
 'c_db_state': ('D01', [(B, "        new._state_query = shallowcopy(self._state_query)\n", "")]),
 'c_db_types': ('D01', [(B, "        new._col_types = shallowcopy(self._col_types)\n", "        new._col_types = self._col_types\n")]),
 # close
 'k_len': ('D09', [(B, "if len(self._open_value_generators) == 0 and not self._is_persistent_table():", "if not self._is_persistent_table():")]),
 'k_tmp': ('D09', [(B, "                if '.tmp.' in self._db_path:\n                    remove", "                if '.tmp' in self._db_path:\n                    remove")]),
 'k_any': ('D09', [(B, "            self._shared_db_instances[self._db_path].discard(id(self))\n            if len(self._shared_db_instances[self._db_path]) == 0:", "            self._shared_db_instances[self._db_path].discard(id(self))\n            if len(self._shared_db_instances[self._db_path]) <= 1:")]),
 'k_unreg': ('D09', [(B, "                    remove(self._db_path)\n                    unregister_temp_file(self._db_path)", "                    unregister_temp_file(self._db_path)")]),
}
del BUG['i_db_inc'][1][0]
