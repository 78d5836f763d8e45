M = 'DRecPy/Dataset/mem_dataset.py'
B = 'DRecPy/Dataset/db_dataset.py'
F = 'DRecPy/Dataset/dataset_factory.py'
I = 'DRecPy/Dataset/integrated_datasets.py'
RK = 'DRecPy/Evaluation/Processes/ranking_evaluation.py'
TEST = """        generated_path = os.path.join(get_dataset_path(ds_name), ds_name + '_test.gen')
        if os.path.exists(generated_path):  # might have been generated already
            return get_dataset(ds_name, generated_path, is_generated=True, force_out_of_memory=force_out_of_memory,
                               verbose=verbose, **kwds)

        # need to generate it now
        path = os.path.join(get_dataset_path(ds_name), ds_options.full_file)
        full_ds = get_dataset(ds_name, path, force_out_of_memory=force_out_of_memory, verbose=verbose, **kwds)
        train_ds, test_ds = leave_k_out(full_ds, k=10, min_user_interactions=10, seed=10)

        # store generated datasets for future calls
        train_ds.save(os.path.join(get_dataset_path(ds_name), ds_name + '_train.gen'))
        test_ds.save(os.path.join(get_dataset_path(ds_name), ds_name + '_test.gen'))
        return test_ds
"""
SPLITF = '''def _generate_split(ds_name, force_out_of_memory, verbose, **kwds):
    """Splits the full dataset and stores both parts."""
    path = os.path.join(get_dataset_path(ds_name), DATASETS[ds_name].full_file)
    full_ds = get_dataset(ds_name, path, force_out_of_memory=force_out_of_memory, verbose=verbose, **kwds)
    train_ds, test_ds = leave_k_out(full_ds, k=10, min_user_interactions=10, seed=10)
    for part, name in ((train_ds, '_train.gen'), (test_ds, '_test.gen')):
        part.save(os.path.join(get_dataset_path(ds_name), ds_name + name))
    return train_ds, test_ds


def get_test_dataset('''
INS = """            for row in _iter:
                curr_line += 1
                if replace_delimiter: row = row.replace(orig_delimiter, new_delimiter)
                chunk.append(row)
                if len(chunk) == self.chunk_size:
                    process_segment(chunk, new_delimiter)
                    chunk = []
            if len(chunk) > 0:
                process_segment(chunk, new_delimiter)
"""
REC = """                    record = []
                    for value, col in zip(row, projected_cols):
                        if col is None:  # accept None cols when reading as skip cols
                            continue
                        elif col == 'interaction': # todo: do we really want this?
                            record.append(float(value))
                        else:
                            record.append(value)
"""
LABELS = """            user_label = kwds.get('user_label', None)
            if user_label is not None and user_label != 'user':
                self.columns.remove(user_label)

            item_label = kwds.get('item_label', None)
            if item_label is not None and item_label != 'item':
                self.columns.remove(item_label)

            interaction_label = kwds.get('interaction_label', None)
            if interaction_label is not None and interaction_label != 'interaction':
                self.columns.remove(interaction_label)
"""
FACT = """        try:
            if in_memory and not is_db:
                dataset = MemoryInteractionDataset(path=path, columns=columns, delimiter=delimiter,
                                                   has_header=has_header, **kwds)
            else:
                dataset = DatabaseInteractionDataset(path=path, columns=columns, delimiter=delimiter,
                                                     has_header=has_header, **kwds)
        except MemoryError as e:
            if not in_memory: raise e
            dataset = DatabaseInteractionDataset(path=path, columns=columns, delimiter=delimiter,
                                                 has_header=has_header, **kwds)

        return dataset
"""
REF = {
 'i_split_helper': [(I, TEST, """        generated_path = os.path.join(get_dataset_path(ds_name), ds_name + '_test.gen')
        if os.path.exists(generated_path):  # might have been generated already
            return get_dataset(ds_name, generated_path, is_generated=True, force_out_of_memory=force_out_of_memory,
                               verbose=verbose, **kwds)
        return _generate_split(ds_name, force_out_of_memory, verbose, **kwds)[1]
"""), (I, "def get_test_dataset(", SPLITF)],
 'i_folder_var': [(I, TEST, TEST.replace("        generated_path = os", "        folder = get_dataset_path(ds_name)\n        generated_path = os").replace("os.path.join(get_dataset_path(ds_name),", "os.path.join(folder,"))],
 'i_invert': [(I, "    if is_generated:\n        return InteractionDataset(path, delimiter=',', columns=ds_options.columns, encoding='utf8',  # as written by save()\n                                  in_memory=not force_out_of_memory, verbose=verbose, **kwds)\n    else:\n", "    in_memory = not force_out_of_memory\n    if is_generated:\n        return InteractionDataset(path, columns=ds_options.columns, delimiter=',', encoding='utf8',\n                                  in_memory=in_memory, verbose=verbose, **kwds)\n    if not is_generated:\n")],
 'i_columns_const': [(I, "DATASETS = {", "RATING_COLUMNS = ['user', 'item', 'interaction', 'timestamp']\n\nDATASETS = {"), (I, "                               columns=['user', 'item', 'interaction', 'timestamp'],\n                               delimiter='::',\n                               unzip_folder='ml-1m'", "                               columns=RATING_COLUMNS,\n                               delimiter='::',\n                               unzip_folder='ml-1m'")],
 'i_positional': [(I, TEST, TEST.replace("k=10, min_user_interactions=10, seed=10", "10, min_user_interactions=10, seed=10"))],
 'i_unpack': [(I, TEST, TEST.replace("        train_ds, test_ds = leave_k_out(", "        split = leave_k_out(").replace("        # store generated", "        train_ds = split[0]\n        test_ds = split[1]\n        # store generated"))],
 'i_fstring': [(I, TEST, TEST.replace("ds_name + '_test.gen'", "f'{ds_name}_test.gen'"))],
 'i_kwargs': [(I, TEST, TEST.replace("        # need to generate", "        options = dict(force_out_of_memory=force_out_of_memory, verbose=verbose, **kwds)\n        # need to generate").replace("get_dataset(ds_name, path, force_out_of_memory=force_out_of_memory, verbose=verbose, **kwds)", "get_dataset(ds_name, path, **options)"))],
 'i_valid_helper': [(I, "def get_full_dataset(", "def _check_name(ds_name):\n    if ds_name in DATASETS:\n        return\n    raise FileNotFoundError(f'\"{ds_name}\" is not a valid dataset. Supported datasets: {\", \".join(available_datasets())}.')\n\n\ndef get_full_dataset("), (I, "    if ds_name not in DATASETS:\n        raise FileNotFoundError(f'\"{ds_name}\" is not a valid dataset. Supported datasets: {\", \".join(available_datasets())}.')\n\n    path = ", "    _check_name(ds_name)\n\n    path = ")],
 'l_enum_cols': [(M, "use_cols = [i for col, i in zip(projected_cols, range(len(projected_cols))) if col is not None]", "use_cols = [i for i, col in enumerate(projected_cols) if col is not None]")],
 'l_skip_int': [(M, "skip_rows = 1 if has_header else 0", "skip_rows = 0\n            if has_header:\n                skip_rows = 1")],
 'l_labels_loop': [(M, LABELS, """            for name in ('user', 'item', 'interaction'):
                label = kwds.get(name + '_label', None)
                if label is not None and label != name:
                    self.columns.remove(label)
""")],
 'l_labels_get': [(M, LABELS, LABELS.replace("kwds.get('user_label', None)", "kwds.get('user_label')"))],
 'l_rename': [(M, "            use_cols = [", "            kept = ["), (M, "usecols=use_cols", "usecols=kept")],
 'l_rec_helper': [(B, REC, """                    record = parse(row, projected_cols)
"""), (B, "        def process_segment(chunk, delimiter):", """        def parse(row, cols):
            record = []
            for value, col in zip(row, cols):
                if col is not None:
                    record.append(float(value) if col == 'interaction' else value)
            return record

        def process_segment(chunk, delimiter):""")],
 'l_rec_comp': [(B, REC, """                    record = [float(value) if col == 'interaction' else value
                              for value, col in zip(row, projected_cols) if col is not None]
""")],
 'l_rec_nested': [(B, REC, """                    record = []
                    for value, col in zip(row, projected_cols):
                        if col is not None:
                            if col == 'interaction':
                                value = float(value)
                            record.append(value)
""")],
 'l_chunk_ge': [(B, INS, INS.replace("== self.chunk_size", ">= self.chunk_size"))],
 'l_chunk_truth': [(B, INS, INS.replace("if len(chunk) > 0:", "if chunk:"))],
 'l_chunk_flush': [(B, INS, """            def flush(rows):
                process_segment(rows, new_delimiter)

            for row in _iter:
                curr_line += 1
                if replace_delimiter: row = row.replace(orig_delimiter, new_delimiter)
                chunk.append(row)
                if len(chunk) == self.chunk_size:
                    flush(chunk)
                    chunk = []
            if len(chunk) > 0:
                flush(chunk)
""")],
 'l_chunk_outside': [(B, INS, INS.replace("            if len(chunk) > 0:\n                process_segment(chunk, new_delimiter)\n", "        if len(chunk) > 0:\n            process_segment(chunk, new_delimiter)\n"))],
 'l_continue_inv': [(B, "                    if len(row) == 0: continue  # blank line\n", "                    if not row:\n                        continue\n")],
 'l_vars_join': [(B, "            vars = ','.join('?' * len(projected_cols))\n            c.executemany(f'INSERT INTO interactions ({cols}) VALUES ({vars})', records)", "            vars = ','.join(['?'] * len(projected_cols))\n            c.executemany('INSERT INTO interactions ({}) VALUES ({})'.format(cols, vars), records)")],
 'l_comp_cols': [(B, "            projected_cols.append('rid')  # since rid is automatically added (explicitly) add to projected_cols\n            projected_cols = [col for col in projected_cols if col is not None]  # remove any skip cols\n", "            projected_cols = [col for col in projected_cols if col is not None] + ['rid']\n")],
 'l_infer': [(B, "        def infer_col_types(first_line):\n            projected_cols = shallowcopy(self.columns)\n            # rid is never read from file - remove it to not cause issues with zip(row, projected_cols)\n            projected_cols.remove('rid')\n", "        def infer_col_types(first_line):\n            projected_cols = [col for col in self.columns if col != 'rid']\n")],
 'l_infer_dict': [(B, "            col_types = {'rid': int}\n            for value, col in zip(first_line, projected_cols):\n                col_types[col] = self._infer_value_type(value)\n\n            return col_types\n", "            col_types = {col: self._infer_value_type(value) for value, col in zip(first_line, projected_cols)}\n            col_types['rid'] = int\n            return col_types\n")],
 'l_replace': [(B, "        new_delimiter = orig_delimiter\n        replace_delimiter = False\n        if len(orig_delimiter) > 1:  # due to csv not accept delimiters with more than 1 char\n            replace_delimiter = True\n            new_delimiter = '\\x1f'", "        replace_delimiter = len(orig_delimiter) > 1\n        new_delimiter = orig_delimiter if not replace_delimiter else '\\x1f'")],
 'l_type_isdigit': [(B, "            if '.' in value:\n                raise Exception\n", "            if value.find('.') >= 0:\n                raise ValueError('not an integer')\n")],
 'f_return': [(F, FACT, FACT.replace("dataset = ", "return ").replace("\n        return dataset\n", "").replace("                                                   has", "                                                has").replace("                                                     has", "                                                  has"))],
 'f_cls': [(F, FACT, """        options = dict(path=path, columns=columns, delimiter=delimiter, has_header=has_header, **kwds)
        if not in_memory or is_db:
            return DatabaseInteractionDataset(**options)
        try:
            return MemoryInteractionDataset(**options)
        except MemoryError:
            return DatabaseInteractionDataset(**options)
""")],
 'f_checks': [(F, "        if columns is not None and 'uid' in columns: raise Exception('Cannot import column \"uid\".')\n        if columns is not None and 'iid' in columns: raise Exception('Cannot import column \"iid\".')\n        if columns is not None: columns = columns + ['rid']\n", "        if columns is not None:\n            for reserved in ('uid', 'iid'):\n                if reserved in columns: raise Exception(f'Cannot import column \"{reserved}\".')\n            columns = [*columns, 'rid']\n")],
 'f_df': [(F, "        return MemoryInteractionDataset(df=df.reset_index(drop=True), user_label", "        own_df = df.reset_index(drop=True)\n        return MemoryInteractionDataset(df=own_df, user_label")],
}
