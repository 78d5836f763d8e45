LS = 'DRecPy/Sampler/list_sampler.py'
PS = 'DRecPy/Sampler/point_sampler.py'
REF = {
 'p_for': [(PS, """        sampled_pairs = []

        while len(sampled_pairs) != n:
            null_pair = self.rng.uniform(0, self.neg_ratio + 1) > 1
            sampled_pairs.append(self.sample_negative() if null_pair else self.sample_positive())

        return sampled_pairs
""", """        return [self._sample_pair() for _ in range(n)]

    def _sample_pair(self):
        if self.rng.uniform(0, self.neg_ratio + 1) > 1:
            return self.sample_negative()
        return self.sample_positive()
""")],
 'p_query': [(PS, """        if self.interaction_threshold is None:
            self.pos_pair_gen = self.interaction_dataset.select_random_generator(seed=seed)
        else:
            self.pos_pair_gen = self.interaction_dataset.select_random_generator(
                f'interaction >= {interaction_threshold}', seed=seed
            )
""", """        query = None
        if interaction_threshold is not None:
            query = 'interaction >= {}'.format(interaction_threshold)
        self.pos_pair_gen = interaction_dataset.select_random_generator(query, seed=seed)
""")],
 'p_pos': [(PS, """        if sampled_interaction is None:
            return None, None, None
        return sampled_interaction['uid'], sampled_interaction['iid'], sampled_interaction['interaction']
""", """        if sampled_interaction is not None:
            return tuple(sampled_interaction[col] for col in ('uid', 'iid', 'interaction'))
        return None, None, None
""")],
 'p_one': [(PS, "return self.sample(n=1)[0]", "pair, = self.sample(1)\n        return pair")],
 'p_one2': [(PS, "return self.sample(n=1)[0]", "return self.sample(1)[-1]")],
 'p_priv': [(PS, "        self.rng = random.Random(seed)\n", "        self._rng = random.Random(seed)\n"), (PS, "self.rng.uniform(0, self.neg_ratio + 1) > 1", "self._rng.uniform(0, 1 + self.neg_ratio) > 1")],
 'l_query': [(LS, """                query = ','.join([f'{group_col} == {chosen_col_group!r}' for group_col, chosen_col_group
                                  in zip(self.group_columns, chosen_group)])
                group_records_ds = self.interaction_dataset.select(query)
""", """                conditions = []
                for column, value in zip(self.group_columns, chosen_group):
                    conditions.append('%s == %r' % (column, value))
                group_records_ds = self.interaction_dataset.select(','.join(conditions))
""")],
 'l_min': [(LS, """                if len(positive_group_records_ds) < self.min_positive_records or \\
                        (self.n_targets is not None and len(positive_group_records_ds) < self.min_positive_records + self.n_targets):
""", """                n_required = self.min_positive_records
                if self.n_targets is not None:
                    n_required += self.n_targets
                if len(positive_group_records_ds) < n_required:
""")],
 'l_sorted': [(LS, """                positive_group_records = positive_group_records_ds.values_list()
                if self.sort_column is not None:
                    positive_group_records.sort(key=lambda x: x[self.sort_column])
""", """                positive_group_records = positive_group_records_ds.values_list()
                if self.sort_column is not None:
                    positive_group_records = sorted(positive_group_records, key=lambda record: record[self.sort_column])
""")],
 'l_neg': [(LS, """self.unique_negative_ids.difference(set([rec[self.negative_ids_col] for rec in all_positive_group_records]))""", """self.unique_negative_ids - {rec[self.negative_ids_col] for rec in all_positive_group_records}""")],
 'l_pad': [(LS, """                    if self.n_targets is None:
                        padding = self.rng.randint(0, len(positive_group_records) - self.max_positive_records)
                    else:
                        padding = self.rng.randint(0, len(positive_group_records) - self.max_positive_records - self.n_targets)
""", """                    padding = self.rng.randint(0, len(positive_group_records) - self.max_positive_records - n_reserved)
""")],
 'l_target': [(LS, """                    target_group_records = all_positive_group_records[padding + self.max_positive_records:padding + self.max_positive_records + self.n_targets]
""", """                    first_target = padding + self.max_positive_records
                    target_group_records = all_positive_group_records[first_target:first_target + self.n_targets]
""")],
 'l_helper': [(LS, """                    if consecutive_tries > self.max_consecutive_tries:
                        raise Exception(f'Failed to sample group records, max consecutive tries reached '
                                        f'({self.max_consecutive_tries}): consider reducing the min_group_records '
                                        f'({self.min_positive_records}).')
                    continue
""", """                    self._check_tries(consecutive_tries, f'min_group_records ({self.min_positive_records})')
                    continue
"""), (LS, """    def sample_group_records(self, n=16):
""", """    def _check_tries(self, tries, what):
        if tries > self.max_consecutive_tries:
            raise Exception(f'Failed to sample group records, max consecutive tries reached '
                            f'({self.max_consecutive_tries}): consider reducing the {what}.')

    def sample_group_records(self, n=16):
""")],
 'l_thr': [(LS, """                if self.interaction_threshold is None:
                    positive_group_records_ds = group_records_ds
                else:
                    positive_group_records_ds = group_records_ds.select(f'interaction >= {self.interaction_threshold}')
""", """                positive_group_records_ds = group_records_ds
                if self.interaction_threshold is not None:
                    positive_group_records_ds = positive_group_records_ds.select('interaction >= ' + str(self.interaction_threshold))
""")],
 'l_isinst': [(LS, """                if not isinstance(chosen_group, list):
                    chosen_group = [chosen_group]
""", """                chosen_group = chosen_group if isinstance(chosen_group, list) else [chosen_group]
""")],
}
