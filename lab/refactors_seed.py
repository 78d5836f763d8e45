
LS = 'DRecPy/Sampler/list_sampler.py'
PS = 'DRecPy/Sampler/point_sampler.py'
M = 'DRecPy/Dataset/mem_dataset.py'
B = 'DRecPy/Dataset/db_dataset.py'
RE = 'DRecPy/Evaluation/Processes/ranking_evaluation.py'
CE = 'DRecPy/Evaluation/Processes/recommendation_evaluation.py'
LK = 'DRecPy/Evaluation/Splits/leave_k_out.py'
MS = 'DRecPy/Evaluation/Splits/matrix_split.py'
RS = 'DRecPy/Evaluation/Splits/random_split.py'
CD = 'DRecPy/Recommender/cdae.py'
RA = 'DRecPy/Recommender/recommender_abc.py'
ONE = "rng = random\n        if seed is not None: rng = random.Random(seed)"
REF = {
 'r_ifexp': [(M, ONE, "rng = random.Random(seed) if seed is not None else random", 1)],
 'r_ifelse': [(B, ONE, "if seed is None:\n            rng = random\n        else:\n            rng = random.Random(seed)", 1)],
 'r_helper': [(M, ONE, "rng = self._rng_of(seed)", 1), (M, "    def null_interaction_pair_generator(", "    @staticmethod\n    def _rng_of(seed):\n        if seed is None:\n            return random\n        return random.Random(seed)\n\n    def null_interaction_pair_generator(")],
 'r_alias': [(RS, "import random\n", "from random import Random\n"), (RS, "random.Random(seed)", "Random(seed)")],
 'r_enum_seed': [(RE, "    for user in _iter:\n        if num", "    for offset, user in enumerate(_iter):\n        if num"), (RE, "random.Random(seed)))\n", "random.Random(seed + offset)))\n"), (RE, "        seed += 1\n", "")],
 'r_rng_local': [(CE, "        pool.apply_async(", "        user_rng = random.Random(seed)\n        pool.apply_async("), (CE, "random.Random(seed)))", "user_rng))")],
 'r_args_local': [(LK, "        if ratio_variant:\n            pool", "        user_rng = random.Random(seed)\n        if ratio_variant:\n            pool"), (LK, "random.Random(seed),", "user_rng,", 1)],
 'r_matrix_fn': [(MS, "    test_users_set = set(rng.sample(all_users, math.floor(len(all_users) * user_test_ratio)))\n", "    test_users_set = _draw(rng, all_users, user_test_ratio)\n"), (MS, "\ndef matrix_split", "\ndef _draw(rng, population, ratio):\n    return set(rng.sample(population, math.floor(len(population) * ratio)))\n\n\ndef matrix_split")],
 'r_name': [(B, "red_table = f'interactions_{str(random.random()).split(\".\")[1]}'", "suffix = str(random.random()).split('.')[1]\n            red_table = 'interactions_' + suffix")],
 'r_kw': [(CD, "PointSampler(self.interaction_dataset, neg_ratio, self.interaction_threshold, self.seed)", "PointSampler(interaction_dataset=self.interaction_dataset, neg_ratio=neg_ratio,\n                                     interaction_threshold=self.interaction_threshold, seed=self.seed)")],
 'r_rng_order': [(RA, "        self._rng = random.Random(self.seed)\n        tf.random.set_seed(self.seed)\n", "        seed = kwds.get('seed')\n        tf.random.set_seed(seed)\n        self._rng = random.Random(seed)\n")],
 'r_sorted_set': [(MS, "rng.sample(all_users,", "rng.sample([u for u in all_users],")],
 'r_lambda': [(CE, "        pool.apply_async(", "        rng = random.Random(seed)\n        pool.apply_async("), (CE, "random.Random(seed)))", "rng))")],
 'r_kwds_submit': [(LS, "self.rng.sample(sorted(eligible_negative_ids), n_negative_ids)", "self.rng.sample(population=sorted(eligible_negative_ids), k=n_negative_ids)")],
}
