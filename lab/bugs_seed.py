LS = 'DRecPy/Sampler/list_sampler.py'
PS = 'DRecPy/Sampler/point_sampler.py'
M = 'DRecPy/Dataset/mem_dataset.py'
B = 'DRecPy/Dataset/db_dataset.py'
RE = 'DRecPy/Evaluation/Processes/ranking_evaluation.py'
CE = 'DRecPy/Evaluation/Processes/recommendation_evaluation.py'
LK = 'DRecPy/Evaluation/Splits/leave_k_out.py'
MS = 'DRecPy/Evaluation/Splits/matrix_split.py'
RS = 'DRecPy/Evaluation/Splits/random_split.py'
CD = 'DRecPy/Recommender/cdae.py'
RA = 'DRecPy/Recommender/recommender_abc.py'
CA = 'DRecPy/Recommender/caser.py'
ONE = "rng = random\n        if seed is not None: rng = random.Random(seed)"
BUG = {
 'r_global_cdae': ('R01', [(CD, "self._rng.uniform(0, 1)", "np.random.uniform(0, 1)"), (CD, "import tensorflow as tf", "import numpy as np\nimport tensorflow as tf")]),
 'r_seed_truth': ('R01', [(M, ONE, "rng = random\n        if seed: rng = random.Random(seed)", 1)]),
 'r_seed_or': ('R01', [(RA, "random.Random(self.seed)", "random.Random(self.seed or None)")]),
 'r_shared_rng': ('R01', [(RE, "    pool = ThreadPool(processes=max_concurrent_threads)\n", "    pool = ThreadPool(processes=max_concurrent_threads)\n    rng = random.Random(seed)\n"), (RE, "generate_negative_pairs, random.Random(seed)))", "generate_negative_pairs, rng))")]),
 'r_shared_lk': ('R01', [(LK, "    for user in _iter:\n        seed += 1\n", "    rng = random.Random(seed)\n    for user in _iter:\n"), (LK, "random.Random(seed)", "rng", 1)]),
 'r_set_pop': ('R01', [(LS, "self.rng.sample(sorted(eligible_negative_ids), n_negative_ids)", "self.rng.sample(list(eligible_negative_ids), n_negative_ids)")]),
 'r_matrix_users': ('R01', [(MS, "rng.sample(all_users,", "rng.sample(list(set(all_users)),")]),
 'r_set_iter': ('R01', [(LK, "_iter = unique_users_ds.values('user', to_list=True)", "_iter = set(unique_users_ds.values('user', to_list=True))")]),
 'r_drop_seed': ('R01', [(PS, "self.interaction_dataset.select_random_generator(seed=seed)", "self.interaction_dataset.select_random_generator()")]),
 'r_drop_seed_q': ('R01', [(B, "return new_ds._select_random_generator(seed)", "return new_ds._select_random_generator()")]),
 'r_drop_seed_cdae': ('R01', [(CD, "neg_ratio, self.interaction_threshold, self.seed)", "neg_ratio, self.interaction_threshold)")]),
 'r_caser_seed': ('R01', [(CA, "sort_column=self.sort_column, seed=self.seed)", "sort_column=self.sort_column)")]),
 'r_default_arg': ('R01', [(RS, "test_ratio=0.25, seed=0, **kwds", "test_ratio=0.25, seed=0, rng=random.Random(0), **kwds"), (RS, "    rng = random.Random(seed)\n", "")]),
 'r_time': ('R01', [(MS, "rng = random.Random(seed)", "rng = random.Random(seed + int(time.time()))")]),
 'r_hash_user': ('R01', [(CE, "random.Random(seed)))", "random.Random(hash((seed, str(user))))))")]),
 'r_global_shuffle': ('R01', [(RE, "    rng.shuffle(all_items)", "    random.shuffle(all_items)")]),
 'r_tf': ('R01', [(RA, "        tf.random.set_seed(self.seed)\n", "")]),
 'r_tf_if': ('R01', [(RA, "        tf.random.set_seed(self.seed)\n", "        if self.seed:\n            tf.random.set_seed(self.seed)\n")]),
 'r_unseeded': ('R01', [(LS, "random.Random(seed)", "random.Random()")]),
 'r_global_seed': ('R01', [(RS, "    rng = random.Random(seed)\n", "    random.seed(seed)\n    rng = random\n")]),
 'r_module_rng': ('R01', [(LK, "\nn_tasks_lock", "\n_rng = random.Random(0)\nn_tasks_lock"), (LK, "test_rids.extend(rng.sample(", "test_rids.extend(_rng.sample(")]),
 'r_helper': ('R01', [(RS, "    rng = random.Random(seed)\n", "    rng = _generator(seed)\n"), (RS, "\ndef random_split", "\ndef _generator(seed):\n    return random.Random(seed) if seed else random.Random()\n\n\ndef random_split")]),
}
