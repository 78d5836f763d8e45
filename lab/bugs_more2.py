PS = 'DRecPy/Sampler/point_sampler.py'
MS = 'DRecPy/Evaluation/Splits/matrix_split.py'
RS = 'DRecPy/Evaluation/Splits/random_split.py'
SI = 'DRecPy/Recommender/Baseline/similarity.py'
AG = 'DRecPy/Recommender/Baseline/aggregation.py'
MV = 'DRecPy/Recommender/EarlyStopping/max_validation_value_rule.py'
BUG = {
 # point sampler
 's_order': ('N01', [(PS, "return sampled_interaction['uid'], sampled_interaction['iid'], sampled_interaction['interaction']", "return sampled_interaction['iid'], sampled_interaction['uid'], sampled_interaction['interaction']")]),
 's_rawuser': ('N01', [(PS, "return sampled_interaction['uid'], sampled_interaction['iid']", "return sampled_interaction['user'], sampled_interaction['iid']")]),
 's_negone': ('N01', [(PS, "return sampled_uid, sampled_iid, 0", "return sampled_uid, sampled_iid, 1")]),
 's_ge1': ('N01', [(PS, "self.rng.uniform(0, self.neg_ratio + 1) > 1", "self.rng.uniform(0, self.neg_ratio) > 1")]),
 's_ratio': ('N01', [(PS, "self.rng.uniform(0, self.neg_ratio + 1) > 1", "self.rng.uniform(0, self.neg_ratio + 1) < 1")]),
 's_thr0': ('N01', [(PS, "        if self.interaction_threshold is None:", "        if not self.interaction_threshold:")]),
 's_gt': ('N01', [(PS, "f'interaction >= {interaction_threshold}'", "f'interaction > {interaction_threshold}'")]),
 's_nothr': ('N01', [(PS, "seed=seed, interaction_threshold=interaction_threshold\n", "seed=seed\n")]),
 's_n': ('N01', [(PS, "        return self.sample(n=1)[0]", "        return self.sample_positive()")]),
 's_while': ('N01', [(PS, "while len(sampled_pairs) != n:", "while len(sampled_pairs) < n - 1:")]),
 's_once': ('N01', [(PS, "        while len(sampled_pairs) != n:\n            null_pair = self.rng.uniform(0, self.neg_ratio + 1) > 1\n", "        null_pair = self.rng.uniform(0, self.neg_ratio + 1) > 1\n        while len(sampled_pairs) != n:\n")]),
 's_seed': ('R01', [(PS, "            self.pos_pair_gen = self.interaction_dataset.select_random_generator(seed=seed)", "            self.pos_pair_gen = self.interaction_dataset.select_random_generator()")]),
 # matrix split
 'ms_swap': ('L02', [(MS, "math.floor(len(all_users) * user_test_ratio)", "math.floor(len(all_users) * item_test_ratio)")]),
 'ms_ceil': ('L02', [(MS, "math.floor(len(ds_unique_items) * item_test_ratio)", "math.ceil(len(ds_unique_items) * item_test_ratio)")]),
 'ms_or': ('L02', [(MS, "    elif user in test_users_set:", "    elif user not in test_users_set:")]),
 'ms_le': ('L02', [(MS, "    if len(user_rows_ds) < min_user_interactions:", "    if len(user_rows_ds) <= min_user_interactions:")]),
 'ms_all': ('L02', [(MS, "        if len(to_test) < len(user_rows_ds):", "        if len(to_test) <= len(user_rows_ds):")]),
 'ms_notrain': ('L01', [(MS, "ds_train = interaction_dataset.drop(train_rids_to_rem + test_rids)", "ds_train = interaction_dataset.drop(train_rids_to_rem)")]),
 'ms_keep': ('L01', [(MS, "ds_train = interaction_dataset.drop(train_rids_to_rem + test_rids)", "ds_train = interaction_dataset.drop(test_rids)")]),
 'ms_self': ('L01', [(MS, "ds_test = interaction_dataset.drop(test_rids, keep=True)", "ds_test = interaction_dataset.drop(test_rids, copy=False, keep=True)")]),
 'ms_glob': ('L03', [(MS, "    pool.join()  # Wait for all tasks to complete\n\n", "")]),
 'ms_cnt': ('L03', [(MS, "    finally:\n        with n_tasks_lock:\n            n_tasks_done += 1", "    finally:\n        n_tasks_done += 1")]),
 'ms_fin': ('L03', [(MS, "    try:\n        __matrix_split_user(interaction_dataset, train_rids_to_rem, test_rids, user, min_user_interactions, test_items_set,\n                            test_users_set)\n    finally:\n        with n_tasks_lock:\n            n_tasks_done += 1", "    __matrix_split_user(interaction_dataset, train_rids_to_rem, test_rids, user, min_user_interactions, test_items_set,\n                        test_users_set)\n    with n_tasks_lock:\n        n_tasks_done += 1")]),
 'ms_wrongrid': ('L02', [(MS, "values(['rid', 'item'], to_list=True)", "values(['item', 'rid'], to_list=True)")]),
 # random split
 'rs_off': ('L02', [(RS, "        if idx == test_idxs[pointer]:", "        if idx + 1 == test_idxs[pointer]:")]),
 'rs_test': ('L01', [(RS, "ds_train = interaction_dataset.drop(test_rids)", "ds_train = interaction_dataset.drop(test_idxs)")]),
 'rs_rng': ('L02', [(RS, "rng.sample(range(0, total_rows), math.floor(total_rows * test_ratio))", "rng.choices(range(0, total_rows), k=math.floor(total_rows * test_ratio))")]),
 'rs_range': ('L02', [(RS, "range(0, total_rows)", "range(1, total_rows)")]),
 # similarities
 'g_cos_skip': ('M04', [(SI, "                    sum_denominator_j += j_ratings[j_idx] ** 2\n                    i_item_ctd += 1", "                    sum_denominator_j += i_ratings[j_idx] ** 2\n                    i_item_ctd += 1")]),
 'g_cos_range': ('M04', [(SI, "            if sum_numerator == 0: continue\n", "            if sum_numerator == 0: break\n")]),
 'g_idx': ('M04', [(SI, "                    common_ratings.append((i_ratings[i_idx], j_ratings[j_idx]))", "                    common_ratings.append((i_ratings[i_item_ctd], j_ratings[j_item_ctd]))")]),
 'g_sort': ('M04', [(SI, "        user_items = [sorted(matrix.rows[i]) for i in range(n)]", "        user_items = [matrix.rows[n - 1 - i] for i in range(n)]")]),
 'g_msd_one': ('M04', [(SI, "            s = 1 - msd / common", "            s = 1 - msd / len(i_items)")]),
 'g_msd_diff': ('M04', [(SI, "    max_diff = matrix.max() - matrix.min()", "    max_diff = matrix.max()")]),
 'g_adj': ('M04', [(SI, "    matrix = _subtract_row_mean(matrix)\n", "    matrix = _subtract_row_mean(csr_matrix(matrix.T))\n")]),
 'g_mean': ('M04', [(SI, "    size_rows = np.diff(A.indptr)", "    size_rows = np.full(A.shape[0], A.shape[1])")]),
 'g_ones': ('M04', [(SI, "    return A - avg_diag_matrix * ones_matrix", "    return A - ones_matrix * avg_diag_matrix")]),
 'g_jacc_t': ('M04', [(SI, "        intersection = matrix.dot(matrix.T)", "        intersection = matrix.T.dot(matrix)")]),
 'g_jacc_2': ('M04', [(SI, "return csr_matrix(intersection / (row_sums - intersection))", "return csr_matrix(intersection / row_sums)")]),
 'g_mirror': ('M04', [(SI, "            s = common / (len(i_items) + len(j_items) - common)\n            rows.append(i), cols.append(j), data.append(s)\n            if i != j: rows", "            s = common / (len(i_items) + len(j_items) - common)\n            rows.append(i), cols.append(j), data.append(s)\n            if i == j: rows")]),
 'g_wm': ('M04', [(AG, "    return interaction_sum / sim_sum if sim_sum > 0 else None", "    return interaction_sum / sim_sum if sim_sum >= 0 else None")]),
 'g_wm2': ('M04', [(AG, "        sim_sum += similarity\n", "        sim_sum += 1\n")]),
 'g_mean0': ('M04', [(AG, "    return interaction_sum / count if count > 0 else None", "    return interaction_sum / count if count > 0 else 0")]),
 # early stopping
 't_ge': ('M06', [(MV, "if epoch_val_res > best_epoch_val_res:", "if epoch_val_res >= best_epoch_val_res:")]),
 't_idx': ('M06', [(MV, "return called_epochs_validation_results[best_epoch_idx]", "return best_epoch_idx + 1")]),
 't_noupd': ('M06', [(MV, "                best_epoch_val_res = epoch_val_res\n", "")]),
 't_last': ('M06', [(MV, "best_epoch_val_res = epoch_validation_results[self.validation_metric][0]", "best_epoch_val_res = epoch_validation_results[self.validation_metric][-1]")]),
 't_stop': ('M06', [(MV, "        return False", "        return current_epoch > best_computed_epoch")]),
 't_min': ('M06', [(MV, "if epoch_val_res > best_epoch_val_res:", "if epoch_val_res < best_epoch_val_res:")]),
 't_zero': ('M06', [(MV, "best_epoch_val_res = epoch_validation_results[self.validation_metric][0]", "best_epoch_val_res = 0")]),
 't_start': ('M06', [(MV, "        best_epoch_idx = 0\n", "        best_epoch_idx = -1\n")]),
}
