M = 'DRecPy/Dataset/mem_dataset.py'
B = 'DRecPy/Dataset/db_dataset.py'
A = 'DRecPy/Dataset/dataset_abc.py'
F = 'DRecPy/Dataset/dataset_factory.py'
I = 'DRecPy/Dataset/integrated_datasets.py'
U = 'DRecPy/Dataset/file_utils.py'
BUG = {
 # loading
 'o_m_skip': ('D12', [(M, "skip_rows = 1 if has_header else 0", "skip_rows = 0 if has_header else 1")]),
 'o_m_defhdr': ('D12', [(M, "has_header = kwds.get('has_header', True)", "has_header = kwds.get('has_header', False)")]),
 'o_m_delim': ('D12', [(M, "delimiter = kwds.get('delimiter', ',')", "delimiter = ','")]),
 'o_m_enc': ('D12', [(M, ", encoding=kwds.get('encoding'),", ",")]),
 'o_m_usecols': ('D12', [(M, "use_cols = [i for col, i in zip(projected_cols, range(len(projected_cols))) if col is not None]", "use_cols = [i for i in range(len([col for col in projected_cols if col is not None]))]")]),
 'o_m_keepnone': ('D12', [(M, "            self.columns = [col for col in self.columns if col is not None]  # remove any skip cols\n", "")]),
 'o_m_swap': ('D12', [(M, "self._df['item'] = self._df[kwds.get('item_label', 'item')]", "self._df['item'] = self._df[kwds.get('user_label', 'item')]")]),
 'o_m_int': ('D12', [(M, "self._df['interaction'] = self._df[kwds.get('interaction_label', 'interaction')]", "self._df['interaction'] = self._df['interaction']")]),
 'o_m_labelkeep': ('D12', [(M, "            if user_label is not None and user_label != 'user':\n                self.columns.remove(user_label)\n", "")]),
 'o_m_nan': ('D12', [(M, "            if is_string_dtype(self._df[col]):\n                self._df[col].fillna('', inplace=True)", "            self._df[col].fillna(0, inplace=True)")]),
 'o_m_nonan': ('D12', [(M, "                self._df[col].fillna('', inplace=True)", "                pass")]),
 'o_m_dropna': ('D12', [(M, "        self._log('Done!')\n", "        self._df = self._df.dropna()\n        self._log('Done!')\n")]),
 'o_m_dedup': ('D12', [(M, "        self._log('Done!')\n", "        self._df = self._df.drop_duplicates(subset=['user', 'item'])\n        self._log('Done!')\n")]),
 'o_b_hdr': ('D12', [(B, "            if has_header is not False: f.readline()\n", "            if has_header is False: f.readline()\n")]),
 'o_b_nohdr': ('D12', [(B, "            if has_header is not False: f.readline()\n", "")]),
 'o_b_enc2': ('D12', [(B, "        chunk = []\n        curr_line = 0\n        with open(path, 'r', encoding=encoding) as f:", "        chunk = []\n        curr_line = 0\n        with open(path, 'r') as f:")]),
 'o_b_enc1': ('D12', [(B, "        first_line = None\n        with open(path, 'r', encoding=encoding) as f:", "        first_line = None\n        with open(path, 'r') as f:")]),
 'o_b_chunklost': ('D12', [(B, "            if len(chunk) > 0:\n                process_segment(chunk, new_delimiter)\n", "            if len(chunk) > 1:\n                process_segment(chunk, new_delimiter)\n")]),
 'o_b_chunkdrop': ('D12', [(B, "            if len(chunk) > 0:\n                process_segment(chunk, new_delimiter)\n", "")]),
 'o_b_chunkrepeat': ('D12', [(B, "                    process_segment(chunk, new_delimiter)\n                    chunk = []\n            if", "                    process_segment(chunk, new_delimiter)\n            if")]),
 'o_b_chunkskip': ('D12', [(B, """                chunk.append(row)
                if len(chunk) == self.chunk_size:
                    process_segment(chunk, new_delimiter)
                    chunk = []
""", """                if len(chunk) == self.chunk_size:
                    process_segment(chunk, new_delimiter)
                    chunk = []
                    continue
                chunk.append(row)
""")]),
 'o_b_ridreset': ('D12', [(B, "            c = self._open_cursor()\n            projected_cols = shallowcopy(self.columns)\n            # rid is", "            c = self._open_cursor()\n            self._n_rows = 0\n            projected_cols = shallowcopy(self.columns)\n            # rid is")]),
 'o_b_rid1': ('D12', [(B, "        self._build_table(self._open_cursor())\n        self._n_rows = 0\n", "        self._build_table(self._open_cursor())\n        self._n_rows = 1\n")]),
 'o_b_ridfirst': ('D12', [(B, "tuple(record) + (self._n_rows,))", "(self._n_rows,) + tuple(record))")]),
 'o_b_nosplit': ('D12', [(B, "                if replace_delimiter: row = row.replace(orig_delimiter, new_delimiter)\n                chunk.append(row)", "                if replace_delimiter: row = row.replace(orig_delimiter, new_delimiter, 1)\n                chunk.append(row)")]),
 'o_b_oddelim': ('D12', [(B, "                    process_segment(chunk, new_delimiter)\n                    chunk = []", "                    process_segment(chunk, orig_delimiter)\n                    chunk = []")]),
 'o_b_float': ('D12', [(B, "record.append(float(value))", "record.append(int(float(value)))")]),
 'o_b_none': ('D12', [(B, "                        if col is None:  # accept None cols when reading as skip cols\n                            continue\n                        elif", "                        if")]),
 'o_b_noneskip': ('D12', [(B, "                        if col is None:  # accept None cols when reading as skip cols\n                            continue", "                        if col is None:  # accept None cols when reading as skip cols\n                            break")]),
 'o_b_keepnone': ('D12', [(B, "        self.columns = [col for col in self.columns if col is not None]  # remove any skip cols\n", "")]),
 'o_b_infer_first': ('D12', [(B, "((num_lines == 0 and has_header is False) or num_lines > 0)", "num_lines >= 0")]),
 'o_b_infer_ge1': ('D12', [(B, "((num_lines == 0 and has_header is False) or num_lines > 0)", "((num_lines == 0 and has_header is True) or num_lines > 0)")]),
 'o_b_infer_last': ('D12', [(B, "if first_line is None and ((num", "if ((num")]),
 'o_b_infer_dot': ('D12', [(B, "            if '.' in value:\n                raise Exception\n            int(value)", "            int(float(value))")]),
 'o_b_infer_order': ('D12', [(B, "            float(value)\n            return float\n        except:\n            pass\n\n        return str", "            float(value)\n            return float\n        except:\n            pass\n\n        return float")]),
 'o_b_infer_len': ('D12', [(B, "            int(value)\n            return int\n", "            if len(value) > 9: raise Exception\n            int(value)\n            return int\n")]),
 'o_b_infer_shift': ('D12', [(B, """            projected_cols.remove('rid')

            col_types = {'rid': int}
            for value, col in zip(first_line, projected_cols):""", """            projected_cols.remove('rid')
            projected_cols = [c for c in projected_cols if c is not None]

            col_types = {'rid': int}
            for value, col in zip(first_line, projected_cols):""")]),
 'o_b_nocommit': ('D12', [(B, "        self._build_indexes(self._open_cursor())\n        self._conn.commit()\n\n        self.columns", "        self._build_indexes(self._open_cursor())\n\n        self.columns")]),
 'o_b_strip': ('D12', [(B, "                        else:\n                            record.append(value)", "                        else:\n                            record.append(value.lower())")]),
 'o_b_zipcut': ('D12', [(B, "                    if len(row) == 0: continue  # blank line", "                    if len(row) < len(projected_cols) or len(records) > 0 and row == last: continue\n                    last = row")]),
 'o_b_ignore': ('D12', [(B, "            c.executemany(f'INSERT INTO interactions ({cols}) VALUES ({vars})', records)\n            c.close()", "            c.executemany(f'INSERT OR IGNORE INTO interactions ({cols}) VALUES ({vars})', records[:len(records) - 1] if len(records) == self.chunk_size else records)\n            c.close()")]),
 'o_db_types': ('D12', [(B, "sql_py_type = {'INTEGER': int, 'REAL': float, 'TEXT': str}", "sql_py_type = {'INTEGER': int, 'REAL': int, 'TEXT': str}")]),
 'o_db_types2': ('D12', [(B, "sql_py_type = {'INTEGER': int, 'REAL': float, 'TEXT': str}", "sql_py_type = {'INTEGER': int, 'TEXT': str}")]),
 'o_db_cols': ('D12', [(B, "self.columns = [v[1] for v in table_info if v[1] not in ['uid', 'iid']]", "self.columns = [v[1] for v in table_info if v[1] != 'uid']")]),
 'o_db_colsrid': ('D12', [(B, "self.columns = [v[1] for v in table_info if v[1] not in ['uid', 'iid']]", "self.columns = ['rid', 'user', 'item', 'interaction']")]),
 'o_db_table': ('D12,D07', [(B, "        real = {int", "")]) if False else ('D12', [(B, "            list: 'TEXT'\n", "            list: 'TEXT'\n"), (B, "            float: 'REAL',\n            str: 'TEXT',", "            float: 'INTEGER',\n            str: 'TEXT',")]),
 'o_f_inmem': ('D12', [(F, "if in_memory and not is_db:", "if in_memory or not is_db:")]),
 'o_f_hdr': ('D12', [(F, "delimiter=',', has_header=False, in_memory=True", "delimiter=',', has_header=True, in_memory=True")]),
 'o_f_hdrlost': ('D12', [(F, """                dataset = DatabaseInteractionDataset(path=path, columns=columns, delimiter=delimiter,
                                                     has_header=has_header, **kwds)
        except""", """                dataset = DatabaseInteractionDataset(path=path, columns=columns, delimiter=delimiter, **kwds)
        except""")]),
 'o_f_kwds': ('D12', [(F, """                dataset = DatabaseInteractionDataset(path=path, columns=columns, delimiter=delimiter,
                                                     has_header=has_header, **kwds)
        except""", """                dataset = DatabaseInteractionDataset(path=path, columns=columns, delimiter=delimiter,
                                                     has_header=has_header)
        except""")]),
 'o_f_fallback': ('D12', [(F, """            if not in_memory: raise e
            dataset = DatabaseInteractionDataset(path=path, columns=columns, delimiter=delimiter,
                                                 has_header=has_header, **kwds)""", """            if not in_memory: raise e
            dataset = DatabaseInteractionDataset(path=path, columns=columns, has_header=has_header, **kwds)""")]),
 'o_f_mutate': ('D02', [(F, "columns = columns + ['rid']", "columns.append('rid')")]),
 'o_f_iadd': ('D02', [(F, "columns = columns + ['rid']", "columns += ['rid']")]),
 'o_f_df': ('D02', [(F, "df=df.reset_index(drop=True)", "df=df")]),
 'o_f_labels': ('D12', [(F, "item_label=item_label,", "item_label='item',")]),
 'o_f_intlabel': ('D12', [(F, "interaction_label=interaction_label, **kwds", "**kwds")]),
 'o_f_keepidx': ('D12', [(F, "df.reset_index(drop=True)", "df.copy()")]),
 # arguments
 # integrated datasets
 'i_gen_delim': ('I01', [(I, "return InteractionDataset(path, delimiter=',', columns=ds_options.columns, encoding='utf8',", "return InteractionDataset(path, delimiter=ds_options.delimiter, columns=ds_options.columns, encoding='utf8',")]),
 'i_gen_hdr': ('I01', [(I, "columns=ds_options.columns, encoding='utf8',", "columns=ds_options.columns, encoding='utf8', has_header=ds_options.has_header,")]),
 'i_gen_enc': ('I01', [(I, "columns=ds_options.columns, encoding='utf8',", "columns=ds_options.columns, encoding=ds_options.encoding,")]),
 'i_hdr': ('I01', [(I, "encoding=ds_options.encoding, has_header=ds_options.has_header,", "encoding=ds_options.encoding,")]),
 'i_delim': ('I01', [(I, "delimiter=ds_options.delimiter, columns=ds_options.columns,\n", "delimiter=',', columns=ds_options.columns,\n")]),
 'i_mem': ('I01', [(I, "has_header=ds_options.has_header,\n                                  in_memory=not force_out_of_memory,", "has_header=ds_options.has_header,\n                                  in_memory=force_out_of_memory,")]),
 'i_stored': ('I01', [(I, "    if not is_stored(ds_name):\n        download_dataset(ds_name)", "    if is_stored(ds_name):\n        download_dataset(ds_name)")]),
 'i_train_test': ('I01', [(I, "        train_ds.save(os.path.join(get_dataset_path(ds_name), ds_name + '_train.gen'))\n        test_ds.save(os.path.join(get_dataset_path(ds_name), ds_name + '_test.gen'))\n        return train_ds", "        test_ds.save(os.path.join(get_dataset_path(ds_name), ds_name + '_train.gen'))\n        train_ds.save(os.path.join(get_dataset_path(ds_name), ds_name + '_test.gen'))\n        return train_ds")]),
 'i_onlyone': ('I01', [(I, "        test_ds.save(os.path.join(get_dataset_path(ds_name), ds_name + '_test.gen'))\n        return test_ds", "        return test_ds")]),
 'i_onlyone2': ('I01', [(I, "        train_ds.save(os.path.join(get_dataset_path(ds_name), ds_name + '_train.gen'))\n        test_ds.save(os.path.join(get_dataset_path(ds_name), ds_name + '_test.gen'))\n        return train_ds", "        train_ds.save(os.path.join(get_dataset_path(ds_name), ds_name + '_train.gen'))\n        return train_ds")]),
 'i_ret': ('I01', [(I, "ds_name + '_test.gen'))\n        return test_ds", "ds_name + '_test.gen'))\n        return train_ds")]),
 'i_seed': ('I01', [(I, "min_user_interactions=10, seed=10)\n\n        # store generated datasets for future calls\n        train_ds.save(os.path.join(get_dataset_path(ds_name), ds_name + '_train.gen'))\n        test_ds.save(os.path.join(get_dataset_path(ds_name), ds_name + '_test.gen'))\n        return test_ds", "min_user_interactions=10, seed=11)\n\n        # store generated datasets for future calls\n        train_ds.save(os.path.join(get_dataset_path(ds_name), ds_name + '_train.gen'))\n        test_ds.save(os.path.join(get_dataset_path(ds_name), ds_name + '_test.gen'))\n        return test_ds")]),
 'i_seedtime': ('I01', [(I, "min_user_interactions=10, seed=10)\n\n        # store generated datasets for future calls\n        train_ds.save(os.path.join(get_dataset_path(ds_name), ds_name + '_train.gen'))\n        test_ds.save(os.path.join(get_dataset_path(ds_name), ds_name + '_test.gen'))\n        return test_ds", "min_user_interactions=10)\n\n        # store generated datasets for future calls\n        train_ds.save(os.path.join(get_dataset_path(ds_name), ds_name + '_train.gen'))\n        test_ds.save(os.path.join(get_dataset_path(ds_name), ds_name + '_test.gen'))\n        return test_ds")]),
 'i_genpath': ('I01', [(I, "generated_path = os.path.join(get_dataset_path(ds_name), ds_name + '_test.gen')", "generated_path = os.path.join(get_dataset_path(ds_name), ds_name + '_train.gen')")]),
 'i_testfile': ('I01', [(I, "path = os.path.join(get_dataset_path(ds_name), ds_options.test_file)", "path = os.path.join(get_dataset_path(ds_name), ds_options.train_file)")]),
 'i_fullfile': ('I01', [(I, "DATASETS[ds_name].full_file)\n", "DATASETS[ds_name].train_file)\n")]),
 'i_memlost': ('I01', [(I, "        full_ds = get_dataset(ds_name, path, force_out_of_memory=force_out_of_memory, verbose=verbose, **kwds)\n        train_ds, test_ds = leave_k_out(full_ds, k=10, min_user_interactions=10, seed=10)\n\n        # store generated datasets for future calls\n        train_ds.save(os.path.join(get_dataset_path(ds_name), ds_name + '_train.gen'))\n        test_ds.save(os.path.join(get_dataset_path(ds_name), ds_name + '_test.gen'))\n        return test_ds", "        full_ds = get_dataset(ds_name, path, verbose=verbose, **kwds)\n        train_ds, test_ds = leave_k_out(full_ds, k=10, min_user_interactions=10, seed=10)\n\n        # store generated datasets for future calls\n        train_ds.save(os.path.join(get_dataset_path(ds_name), ds_name + '_train.gen'))\n        test_ds.save(os.path.join(get_dataset_path(ds_name), ds_name + '_test.gen'))\n        return test_ds")]),
 'i_isgen': ('I01', [(I, "generated_path, is_generated=True, force_out_of_memory=force_out_of_memory,\n                               verbose=verbose, **kwds)\n\n        # need to generate it now\n        path = os.path.join(get_dataset_path(ds_name), ds_options.full_file)\n        full_ds = get_dataset(ds_name, path, force_out_of_memory=force_out_of_memory, verbose=verbose, **kwds)\n        train_ds, test_ds = leave_k_out(full_ds, k=10, min_user_interactions=10, seed=10)\n\n        # store generated datasets for future calls\n        train_ds.save(os.path.join(get_dataset_path(ds_name), ds_name + '_train.gen'))\n        test_ds.save(os.path.join(get_dataset_path(ds_name), ds_name + '_test.gen'))\n        return test_ds", "generated_path, force_out_of_memory=force_out_of_memory,\n                               verbose=verbose, **kwds)\n\n        # need to generate it now\n        path = os.path.join(get_dataset_path(ds_name), ds_options.full_file)\n        full_ds = get_dataset(ds_name, path, force_out_of_memory=force_out_of_memory, verbose=verbose, **kwds)\n        train_ds, test_ds = leave_k_out(full_ds, k=10, min_user_interactions=10, seed=10)\n\n        # store generated datasets for future calls\n        train_ds.save(os.path.join(get_dataset_path(ds_name), ds_name + '_train.gen'))\n        test_ds.save(os.path.join(get_dataset_path(ds_name), ds_name + '_test.gen'))\n        return test_ds")]),
 'i_cfg_cols': ('I01', [(I, "                            columns=['user', 'item', 'interaction'],\n", "                            columns=['item', 'user', 'interaction'],\n")]),
 'i_cfg_delim': ('I01', [(I, "                                 delimiter='\\t',", "                                 delimiter=' ',")]),
 # files and caches
 'o_cache_unreset': ('D03', [(B, "        self._state_query = new_state\n        self._reset_interaction_vec_caches()\n", "        self._state_query = new_state\n")]),
 'o_cache_apply': ('D03', [(B, "            self._conn.commit()\n            self._reset_interaction_vec_caches()\n\n        except", "            self._conn.commit()\n\n        except")]),
 'o_cache_assign': ('D03', [(B, "        self._conn.commit()\n        self._reset_interaction_vec_caches()\n        self.has_internal_ids = True", "        self._conn.commit()\n        self.has_internal_ids = True")]),
 'o_cache_copy': ('D03', [(B, "        new._n_rows = self._n_rows\n", "        new._n_rows = self._n_rows\n        new._user_interaction_vec_cache = self._user_interaction_vec_cache\n")]),
 'o_cache_key': ('D03', [(B, "            self._item_interaction_vec_cache[iid] = csr_matrix(", "            self._user_interaction_vec_cache[iid] = csr_matrix(")]),
 'o_vec_shape': ('D03', [(B, "shape=(1, max_iid + 1))[0]", "shape=(1, max_iid))[0]")]),
 'o_vec_maxsel': ('D03', [(B, "        max_iid = self.max('iid')\n        user_interactions = self.select(f'uid == {uid}').values(columns=['iid', 'interaction'], to_list=True)", "        user_ds = self.select(f'uid == {uid}')\n        max_iid = user_ds.max('iid')\n        user_interactions = user_ds.values(columns=['iid', 'interaction'], to_list=True)")]),
 'o_vec_cols': ('D03', [(B, "values(columns=['uid', 'interaction'], to_list=True)", "values(columns=['iid', 'interaction'], to_list=True)")]),
 'o_m_reset_sel': ('D03', [(M, "                self._df = self._df[condition_vector]\n                self._reset_interaction_matrix()\n", "                self._df = self._df[condition_vector]\n")]),
 'o_m_reset_drop': ('D03', [(M, "        new_ds._reset_interaction_matrix()\n        return new_ds\n\n    def user_to_uid", "        return new_ds\n\n    def user_to_uid")]),
 'o_m_reset_uniq': ('D03', [(M, "        new_ds.columns = columns\n        new_ds._reset_interaction_matrix()\n", "        new_ds.columns = columns\n")]),
 'o_m_reset_assign': ('D03', [(M, "        self._reset_interaction_matrix()\n\n        self.has_internal_ids = True", "        self.has_internal_ids = True")]),
 'o_m_copycache': ('D03', [(M, "        new._cached_interaction_matrix = None\n        new._cached_trans_interaction_matrix = None\n\n        return new", "        new._cached_interaction_matrix = self._cached_interaction_matrix\n        new._cached_trans_interaction_matrix = self._cached_trans_interaction_matrix\n\n        return new")]),
 'o_m_buildrange': ('D03', [(M, "        for uid in range(n_uids):", "        for uid in range(n_uids - 1):")]),
 'o_m_notrans': ('D03', [(M, "return self._cached_trans_interaction_matrix[iid]", "return self._cached_interaction_matrix[iid]")]),
 'o_m_applycache': ('D03', [(M, "            if column == 'interaction' and self._cached_interaction_matrix is not None:", "            if column != 'interaction' and self._cached_interaction_matrix is not None:")]),
 'o_m_fallidx': ('D03', [(M, "            uid_col_idx = projected_cols.index('uid')", "            uid_col_idx = self.columns.index('uid')")]),
 # null pairs and random records
 'o_np_max': ('D13', [(B, "                random_iid = rng.randint(0, max_iid)", "                random_iid = rng.randint(0, max_uid)")]),
 'o_np_excl': ('D13', [(M, "                random_uid = rng.randint(0, max_uid)\n                random_iid = rng.randint(0, max_iid)", "                random_uid = rng.randint(0, max_uid - 1)\n                random_iid = rng.randint(0, max_iid)")]),
 'o_np_or': ('D13', [(M, "(uid_values == random_uid) & (iid_values == random_iid)", "(uid_values == random_uid) | (iid_values == random_iid)")]),
 'o_np_found': ('D13', [(M, "                if not found:\n                    yield random_uid, random_iid", "                yield random_uid, random_iid")]),
 'o_np_cond': ('D13', [(B, "if c.execute(new_state).fetchone() is None:\n                    yield random_uid, random_iid", "if c.execute(new_state).fetchone() is not None:\n                    yield random_uid, random_iid")]),
 'o_np_thr': ('D13', [(B, "f'interaction < {interaction_threshold}'", "f'interaction <= {interaction_threshold}'")]),
 'o_np_thrM': ('D13', [(M, "f'interaction < {interaction_threshold}'", "f'interaction <= {interaction_threshold}'")]),
 'o_np_swap': ('D13', [(B, "yield existing_null_pair['uid'], existing_null_pair['iid']", "yield existing_null_pair['iid'], existing_null_pair['uid']")]),
 'o_np_rng': ('D13', [(M, "                random_iid = rng.randint(0, max_iid)\n                found", "                random_iid = random.randint(0, max_iid)\n                found")]),
 'o_np_seed0': ('D13', [(B, "        if seed is not None: rng = random.Random(seed)\n\n        if interaction_threshold", "        if seed: rng = random.Random(seed)\n\n        if interaction_threshold")]),
 'o_np_gseed': ('D13', [(M, "        rng = random\n        if seed is not None: rng = random.Random(seed)\n\n        if interaction_threshold", "        rng = random\n        if seed is not None: random.seed(seed)\n\n        if interaction_threshold")]),
 'o_np_genseed': ('D13', [(B, "existing_null_pair_gen = negative_ds._select_random_generator(seed)", "existing_null_pair_gen = negative_ds._select_random_generator()")]),
 'o_rg_idx': ('D13', [(M, "chosen_idx = rng.randint(0, tmp_df.shape[0] - 1)", "chosen_idx = rng.randint(0, tmp_df.shape[0])")]),
 'o_rg_idx0': ('D13', [(M, "chosen_idx = rng.randint(0, tmp_df.shape[0] - 1)", "chosen_idx = 0")]),
 'o_rg_rid': ('D13', [(M, "record['rid'] = tmp_df.index[chosen_idx]", "record['rid'] = df.index[chosen_idx]")]),
 'o_rg_bidx': ('D13', [(B, "chosen_idx = rng.randint(0, count - 1)", "chosen_idx = rng.randint(0, count)")]),
 'o_rg_bidx2': ('D13', [(B, "                if curr_idx == chosen_idx:", "                if curr_idx >= chosen_idx - 1:")]),
 'o_rg_query': ('D13', [(M, "        return self._select_random_generator(new_df, seed)", "        return self._select_random_generator(self._df, seed)")]),
 'o_rg_seedlost': ('D13', [(B, "        return new_ds._select_random_generator(seed)", "        return new_ds._select_random_generator()")]),
 'o_rg_self': ('D13', [(B, "        return new_ds._select_random_generator(seed)", "        return self._select_random_generator(seed)")]),
 'o_rg_maxq': ('D13', [(B, "        max_uid = self.max('uid')\n        while True:\n            random_uid", "        max_uid = self.count_unique('uid')\n        while True:\n            random_uid")]),
 # save
 'o_s_rid': ('D07', [(M, "        if 'rid' in projected_cols: projected_cols.remove('rid')\n", "        if 'rid' in projected_cols: projected_cols.remove('item')\n")]),
 'o_s_uid': ('D07', [(M, "        if 'uid' in projected_cols: projected_cols.remove('uid')\n", "")]),
 'o_s_hdr': ('D07', [(M, "header=write_header", "header=not write_header")]),
 'o_s_all': ('D07', [(M, "self._df[projected_cols].to_csv", "self._df.to_csv")]),
 'o_s_idx': ('D07', [(M, "index=None, header", "index=True, header")]),
 'o_s_float': ('D07', [(M, "index=None, header=write_header", "index=None, header=write_header, float_format='%.1f'")]),
 'o_s_bhdr': ('D07', [(B, "if write_header: writer.writerow(projected_cols)", "writer.writerow(projected_cols)")]),
 'o_s_bcols': ('D07', [(B, "for row in self.values(columns=projected_cols, to_list=True):\n                    if len", "for row in self.values(columns=None, to_list=True):\n                    if len")]),
 'o_s_bsingle': ('D07', [(B, "                    if len(projected_cols) == 1: row = [row]  # single column values are not wrapped in a list\n", "")]),
 'o_s_chunk': ('D07', [(B, "        if len(records) > 0: c.executemany(insert_query, records)\n", "")]),
 'o_s_chunkdup': ('D07', [(B, "                c.executemany(insert_query, records)\n                records = []", "                c.executemany(insert_query, records)")]),
 'o_s_ctd': ('D07', [(B, "records.append(tuple(row[:-1]) + (ctd,))", "records.append(tuple(row[1:]) + (ctd,))")]),
 'o_s_nocommit': ('D07', [(B, "            new_db_c.close()\n            new_db.commit()\n", "            new_db_c.close()\n")]),
 'o_s_guard': ('D07', [(B, "if path == self._db_path and len(self._shared_db_instances[path]) > 1 or \\\n                    path != self._db_path and path in", "if path != self._db_path and path in")]),
 'o_s_removefirst': ('D07', [(B, "            tmp_path = path + \".tmp\"\n            if isfile(tmp_path): remove(tmp_path)\n", "            tmp_path = path + \".tmp\"\n            if isfile(path): remove(path)\n            if isfile(tmp_path): remove(tmp_path)\n")]),
 'o_s_state': ('D07', [(B, "                self._active_table = 'interactions'\n                self._state_query = ''\n            else:", "                self._active_table = 'interactions'\n            else:")]),
 'o_s_active': ('D07', [(B, "                self._active_table = 'interactions'\n                self._state_query = ''\n            else:", "                self._state_query = ''\n            else:")]),
 'o_s_norename': ('D07', [(B, "            else:  # saving into distinct destination\n                if isfile(path): remove(path)\n                rename(tmp_path, path)", "            else:  # saving into distinct destination\n                if not isfile(path): rename(tmp_path, path)")]),
 # close
 'o_c_ge': ('D09', [(B, "            if len(self._shared_db_instances[self._db_path]) == 0:", "            if len(self._shared_db_instances[self._db_path]) <= 1:")]),
 'o_c_rm': ('D09', [(B, "            self._shared_db_instances[self._db_path].discard(id(self))\n", "            self._shared_db_instances[self._db_path].clear()\n")]),
 'o_c_tmp': ('D09', [(B, "                if '.tmp.' in self._db_path:\n                    remove(self._db_path)\n", "                if self._active_table != '':\n                    remove(self._db_path)\n")]),
 'o_c_tbl': ('D09', [(B, "            if len(self._shared_db_table_instances[self._db_path + self._active_table]) == 0:\n                del", "            if len(self._shared_db_table_instances[self._db_path + self._active_table]) >= 0:\n                del")]),
 'o_c_notemp': ('D09', [(B, "                    remove(self._db_path)\n                    unregister_temp_file(self._db_path)", "                    unregister_temp_file(self._db_path)")]),
 'o_c_noreg': ('D09', [(B, "        self._shared_db_instances[self._db_path].add(id(self))\n", "")]),
 'o_c_notblreg': ('D09', [(B, "        self._shared_db_table_instances[self._db_path + self._active_table].add(id(self))\n\n        self._n_rows = len(self)", "        self._n_rows = len(self)")]),
 'o_c_persist': ('D09', [(B, "return '.tmp.' not in self._db_path and self._active_table == 'interactions'", "return '.tmp.' not in self._db_path and self._active_table != 'interactions'")]),
 'o_c_persist2': ('D09', [(B, "return '.tmp.' not in self._db_path and self._active_table == 'interactions'", "return '.tmp.' in self._db_path and self._active_table == 'interactions'")]),
 'o_u_unreg': ('D10', [(U, "if path.strip(\"\\n\") != file_path:", "if path.strip(\"\\n\") == file_path:")]),
 'o_u_regmode': ('D10', [(U, "os.path.join(data_path(), 'tmp_files.txt'), 'a')", "os.path.join(data_path(), 'tmp_files.txt'), 'w')")]),
 'o_u_rm': ('D10', [(U, "    if empty:\n", "    if not empty:\n")]),
}
