LS = 'DRecPy/Sampler/list_sampler.py'
PS = 'DRecPy/Sampler/point_sampler.py'
BUG = {
 'tries_hoisted': ('N02', [(LS, """        for i in range(n):
            consecutive_tries = 0
""", """        consecutive_tries = 0
        for i in range(n):
""")]),
 'neg_from_window': ('N02', [(LS, "set([rec[self.negative_ids_col] for rec in all_positive_group_records])", "set([rec[self.negative_ids_col] for rec in positive_group_records])")]),
 'neg_exclude_group': ('N02', [(LS, "set([rec[self.negative_ids_col] for rec in all_positive_group_records])", "set([rec['iid'] for rec in all_positive_group_records])")]),
 'neg_before_sort_copy': ('N02', [(LS, "positive_group_records.sort(key=lambda x: x[self.sort_column])", "positive_group_records.sort(key=lambda x: x[self.sort_column], reverse=True)")]),
 'target_pad': ('N02', [(LS, "padding = self.rng.randint(0, len(positive_group_records) - self.max_positive_records - self.n_targets)", "padding = self.rng.randint(0, len(positive_group_records) - self.max_positive_records)")]),
 'neg_count': ('N02', [(LS, "n_negative_ids = self.neg_ratio * len(target_group_records)", "n_negative_ids = self.neg_ratio * self.n_targets if padding is None else self.neg_ratio")]),
 'neg_choices': ('N02', [(LS, "self.rng.sample(sorted(eligible_negative_ids), n_negative_ids)", "self.rng.choices(sorted(eligible_negative_ids), k=n_negative_ids)")]),
 'neg_elig_all': ('N02', [(LS, "self.rng.sample(sorted(eligible_negative_ids), n_negative_ids)", "self.rng.sample(sorted(self.unique_negative_ids), n_negative_ids)")]),
 'thr_group': ('N02', [(LS, "positive_group_records = positive_group_records_ds.values_list()", "positive_group_records = group_records_ds.values_list()")]),
 'min_only': ('N02', [(LS, " or \\\n                        (self.n_targets is not None and len(positive_group_records_ds) < self.min_positive_records + self.n_targets)", "")]),
 'thr_strict': ('N02', [(LS, "f'interaction >= {self.interaction_threshold}'", "f'interaction > {self.interaction_threshold}'")]),
 'unique_cols': ('N02', [(LS, "self.interaction_dataset.unique(group_columns).values_list(group_columns, to_list=True)", "self.interaction_dataset.values_list(group_columns, to_list=True)")]),
 'set_order': ('N02', [(LS, "self.rng.sample(sorted(eligible_negative_ids), n_negative_ids)", "self.rng.sample(list(eligible_negative_ids), n_negative_ids)")]),
 'n_guard': ('N02', [(LS, "assert n_targets > 0", "assert n_targets >= 0")]),
 'p_thr': ('N01', [(PS, "            seed=seed, interaction_threshold=interaction_threshold\n", "            seed=seed\n")]),
 'p_thr2': ('N01', [(PS, "f'interaction >= {interaction_threshold}'", "f'interaction > {interaction_threshold}'")]),
 'p_seed': ('N01', [(PS, "self.pos_pair_gen = self.interaction_dataset.select_random_generator(seed=seed)", "self.pos_pair_gen = self.interaction_dataset.select_random_generator()")]),
 'p_ratio': ('N01', [(PS, "self.rng.uniform(0, self.neg_ratio + 1) > 1", "self.rng.uniform(0, self.neg_ratio) > 1")]),
 'p_ids': ('N01', [(PS, "sampled_interaction['uid'], sampled_interaction['iid']", "sampled_interaction['user'], sampled_interaction['item']")]),
 'p_none': ('N01', [(PS, "            return None, None, None\n", "            return self.sample_negative()\n")]),
 'p_global': ('N01', [(PS, "self.rng.uniform(", "random.uniform(")]),
 'p_val': ('N01', [(PS, "return sampled_uid, sampled_iid, 0", "return sampled_uid, sampled_iid, self.interaction_threshold or 0")]),
}
