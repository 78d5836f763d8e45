LK = 'DRecPy/Evaluation/Splits/leave_k_out.py'
MS = 'DRecPy/Evaluation/Splits/matrix_split.py'
RS = 'DRecPy/Evaluation/Splits/random_split.py'
RK = 'DRecPy/Evaluation/Metrics/ranking.py'
RG = 'DRecPy/Evaluation/Metrics/regression.py'
PE = 'DRecPy/Evaluation/Processes/predictive_evaluation.py'
RE = 'DRecPy/Evaluation/Processes/ranking_evaluation.py'
CE = 'DRecPy/Evaluation/Processes/recommendation_evaluation.py'
BUG = {
 # splits
 'e_train_keeps_test': ('L01', [(LK, "drop(train_rids_to_rem + test_rids)", "drop(train_rids_to_rem or test_rids)")]),
 'e_train_norem': ('L02', [(MS, "drop(train_rids_to_rem + test_rids)", "drop(test_rids)")]),
 'e_train_setminus': ('L01', [(LK, "ds_train = interaction_dataset.drop(train_rids_to_rem + test_rids)", "rem = set(train_rids_to_rem) - set(test_rids)\n    ds_train = interaction_dataset.drop(list(rem) if len(rem) > 0 else test_rids)")]),
 'e_rs_first': ('L01', [(RS, "    ds_train = interaction_dataset.drop(test_rids)\n", "    ds_train = interaction_dataset.drop(test_rids[:total_rows // 2])\n")]),
 'e_rs_idx': ('L01', [(RS, "            test_rids.append(record['rid'])\n", "            test_rids.append(idx)\n")]),
 'e_ms_perrow': ('L02', [(MS, "                if item in test_items_set:\n                    to_test.append(rid)\n", "                if item in test_items_set:\n                    test_rids.append(rid)\n                    to_test.append(rid)\n"), (MS, "        if len(to_test) < len(user_rows_ds):\n            with test_lock:\n                test_rids.extend(to_test)\n", "        if len(to_test) == len(user_rows_ds):\n            with test_lock:\n                del test_rids[-len(to_test):]\n")]),
 'e_lk_min_le': ('L02', [(LK, "if len(user_rows_ds) < min_user_interactions:", "if len(user_rows_ds) <= min_user_interactions:")]),
 'e_lk_gek': ('L02', [(LK, "elif len(user_rows_ds) > k > 0:", "elif len(user_rows_ds) >= k > 0:")]),
 'e_lk_ratio_round': ('L02', [(LK, "int(len(user_rows_ds) * k)", "round(len(user_rows_ds) * k)")]),
 'e_lk_ratio_max1': ('L02', [(LK, "int(len(user_rows_ds) * k)", "max(1, int(len(user_rows_ds) * k))")]),
 'e_lk_firsts': ('L02', [(LK, "heappush(sampled_test_rids, (timestamp, rid))", "heappush(sampled_test_rids, (-timestamp, rid))"), (LK, "heapreplace(sampled_test_rids, (timestamp, rid))", "heapreplace(sampled_test_rids, (-timestamp, rid))")]),
 'e_lk_heaprid': ('L02', [(LK, "heappush(sampled_test_rids, (timestamp, rid))", "heappush(sampled_test_rids, (rid, timestamp))"), (LK, "heapreplace(sampled_test_rids, (timestamp, rid))", "heapreplace(sampled_test_rids, (rid, timestamp))"), (LK, "[rid for _, rid in sampled_test_rids]", "[rid for rid, _ in sampled_test_rids]")]),
 'e_lk_label': ('L02', [(LK, "values_list(['rid', timestamp_label], to_list=True)", "values_list(['rid', 'timestamp'], to_list=True)")]),
 'e_lk_head': ('L02', [(LK, "test_rids.extend(rng.sample(user_rows_rids, k))", "test_rids.extend(rng.sample(user_rows_rids[:2 * k], k))")]),
 'e_lk_choices': ('L02', [(LK, "rng.sample(user_rows_rids, k)", "rng.choices(user_rows_rids, k=k)")]),
 'e_lk_isint': ('L02', [(LK, "ratio_variant = isinstance(k, float)", "ratio_variant = k < 1")]),
 'e_lk_kge1': ('L02', [(LK, "if ratio_variant and k >= 1:", "if ratio_variant and k > 1:")]),
 'e_lk_swapargs': ('L02', [(LK, "_leave_k_out_user(user_rows_ds, train_rids_to_rem, test_rids, min_user_interactions, n_sampled_items, rng,", "_leave_k_out_user(user_rows_ds, train_rids_to_rem, test_rids, max(min_user_interactions, n_sampled_items), n_sampled_items, rng,")]),
 'e_lk_quote': ('L02', [(LK, "        user_rows_ds = interaction_dataset.select(f'user == {user!r}')\n        n_sampled", "        user_rows_ds = interaction_dataset.select(f'user == {user}')\n        n_sampled")]),
 'e_ms_ceil': ('L02', [(MS, "math.floor(len(all_users) * user_test_ratio)", "math.ceil(len(all_users) * user_test_ratio)")]),
 'e_ms_swap': ('L02', [(MS, "math.floor(len(ds_unique_items) * item_test_ratio)", "math.floor(len(ds_unique_items) * user_test_ratio)")]),
 'e_ms_le': ('L02', [(MS, "if len(to_test) < len(user_rows_ds):", "if len(to_test) <= len(user_rows_ds):")]),
 'e_ms_itemfreq': ('L02', [(MS, "rng.sample(ds_unique_items.values_list('item', to_list=True),", "rng.sample(interaction_dataset.values_list('item', to_list=True),")]),
 'e_ms_order': ('L02', [(MS, "    if len(user_rows_ds) < min_user_interactions:  # not enough user interactions", "    if user not in test_users_set and len(user_rows_ds) < min_user_interactions:  # not enough user interactions")]),
 'e_rs_ceil': ('L02', [(RS, "math.floor(total_rows * test_ratio)", "math.ceil(total_rows * test_ratio)")]),
 'e_rs_unsorted': ('L02', [(RS, "sorted(rng.sample(range(0, total_rows), math.floor(total_rows * test_ratio)))", "rng.sample(range(0, total_rows), math.floor(total_rows * test_ratio))")]),
 'e_rs_range': ('L02', [(RS, "range(0, total_rows)", "range(1, total_rows)")]),
 'e_rs_len': ('L02', [(RS, "    total_rows = len(interaction_dataset)\n", "    total_rows = len(interaction_dataset.unique(['user', 'item']))\n")]),
 'e_rs_break': ('L02', [(RS, "if pointer >= len(test_idxs): break", "if pointer >= len(test_idxs) - 1: break")]),
 # concurrency
 'e_lk_nolock': ('L03', [(LK, "        with train_rem_lock:\n            train_rids_to_rem.extend", "        if True:\n            train_rids_to_rem.extend"), (LK, "            with test_lock:\n                test_rids.extend([rid for _, rid in sampled_test_rids])", "            test_rids += [rid for _, rid in sampled_test_rids]")]),
 'e_cnt_nolock': ('L03', [(LK, "    finally:\n        with n_tasks_lock:\n            n_tasks_done += 1\n\n\ndef _leave_k_out_user_fixed", "    finally:\n        n_tasks_done += 1\n\n\ndef _leave_k_out_user_fixed")]),
 'e_cnt_nofinally': ('L03', [(MS, "    try:\n        __matrix_split_user(interaction_dataset, train_rids_to_rem, test_rids, user, min_user_interactions, test_items_set,\n                            test_users_set)\n    finally:\n        with n_tasks_lock:\n            n_tasks_done += 1", "    __matrix_split_user(interaction_dataset, train_rids_to_rem, test_rids, user, min_user_interactions, test_items_set,\n                        test_users_set)\n    with n_tasks_lock:\n        n_tasks_done += 1")]),
 'e_nojoin': ('L03', [(MS, "    pool.join()  # Wait for all tasks to complete\n", "")]),
 'e_join_verbose': ('L03', [(LK, "    pool.join()  # Wait for all tasks to complete\n", "    if not kwds.get('verbose', True): pool.join()\n")]),
 'e_terminate': ('L03', [(RE, "    pool.join()  # Wait for all tasks to complete\n", "    pool.terminate()\n    pool.join()  # Wait for all tasks to complete\n")]),
 'e_count_before': ('L03', [(CE, "        n_tasks += 1\n        num_users_made += 1\n", "        num_users_made += 1\n        n_tasks = num_users_made + 1\n")]),
 'e_newlock': ('L03', [(RE, "    with metric_lock:\n        for m in metrics:", "    with Lock():\n        for m in metrics:")]),
 'e_lock_order': ('L03', [(LK, "        with train_rem_lock:\n            train_rids_to_rem.extend(user_rows_ds.values_list('rid', to_list=True))", "        with train_rem_lock:\n            with test_lock:\n                train_rids_to_rem.extend(user_rows_ds.values_list('rid', to_list=True))"), (LK, "            with test_lock:\n                test_rids.extend(rng.sample(user_rows_rids, k))", "            with test_lock:\n                with train_rem_lock:\n                    test_rids.extend(rng.sample(user_rows_rids, k))")]),
 'e_shared_rng': ('R01', [(RE, "    for user in _iter:\n        if num_users_made", "    rng = random.Random(seed)\n    for user in _iter:\n        if num_users_made"), (RE, "random.Random(seed)))\n        n_tasks", "rng))\n        n_tasks")]),
 'e_relock': ('L03', [(LK, "            with test_lock:\n                test_rids.extend(rng.sample(user_rows_rids, k))", "            with test_lock:\n                _collect(test_rids, rng.sample(user_rows_rids, k))"), (LK, "def _leave_k_out_user_ratio(", "def _collect(rids, new):\n    with test_lock:\n        rids.extend(new)\n\n\ndef _leave_k_out_user_ratio(")]),
 'e_waitgt': ('L03', [(CE, "            if n_tasks_done == n_tasks:\n                break\n", "            if n_tasks_done > n_tasks:\n                break\n")]),
 'e_joinlock': ('L03', [(RE, "    pool.join()  # Wait for all tasks to complete\n", "    with metric_lock:\n        pool.join()  # Wait for all tasks to complete\n")]),
 # metrics
 'e_dcg_1': ('E01', [(RK, "curr_dcg += rel / math.log2(2 + i)", "curr_dcg += rel / math.log2(1 + i) if i else rel")]),
 'e_dcg_k0': ('E01', [(RK, "        if k is not None: recommendations = recommendations[:k]\n\n        curr_dcg = 0", "        if k: recommendations = recommendations[:k]\n\n        curr_dcg = 0")]),
 'e_dcg_int': ('E01', [(RK, "rel = float(relevancies[r])", "rel = int(relevancies[r])")]),
 'e_ndcg_pool': ('E01', [(RK, "sorted(relevancies.keys(),", "sorted(recommendations,")]),
 'e_ndcg_nok': ('E01', [(RK, "best_dcg = self.dcg(best_recommendations, relevancies=relevancies, k=k)", "best_dcg = self.dcg(best_recommendations, relevancies=relevancies)")]),
 'e_ndcg_strong': ('E01', [(RK, "self.dcg = DCG(strong_relevancy=strong_relevancy)", "self.dcg = DCG()")]),
 'e_ndcg_desc': ('E01', [(RK, "key=lambda x: -relevancies[x]", "key=lambda x: relevancies[x]")]),
 'e_hr_set': ('E01', [(RK, "set([str(item) for item in relevant_recommendations])\n", "set([str(item) for item in relevant_recommendations][:k])\n")]),
 'e_hr_min': ('E01', [(RK, "        return len(recommendations.intersection(relevant_recommendations)) / len(relevant_recommendations)", "        return len(recommendations.intersection(relevant_recommendations)) / min(len(relevant_recommendations), k or len(relevant_recommendations))")]),
 'e_rr_off': ('E01', [(RK, "1 / (recommendations.index(relevant_recommendation) + 1)", "1 / max(recommendations.index(relevant_recommendation), 1)")]),
 'e_rr_falsy': ('E01', [(RK, "if relevant_recommendation is None: return 0", "if not relevant_recommendation: return 0")]),
 'e_rr_trunc': ('E01', [(RK, "if k is not None: recommendations = recommendations[:k]\n\n        if relevant_recommendation in", "if relevant_recommendation in")]),
 'e_recall_k': ('E01', [(RK, "return len(in_common) / len(relevant_recommendations)", "return len(in_common) / len(set(relevant_recommendations))")]),
 'e_prec_k': ('E01', [(RK, "return len(in_common) / len(recommendations)", "return len(in_common) / (k or len(recommendations))")]),
 'e_f_beta': ('E01', [(RK, "((self.beta ** 2 * p) + r)", "((self.beta * p) + r)")]),
 'e_f_swap': ('E01', [(RK, "((self.beta ** 2 * p) + r)", "(p + self.beta ** 2 * r)")]),
 'e_f_nok': ('E01', [(RK, "r = self.recall(recommendations, relevant_recommendations=relevant_recommendations, k=k)", "r = self.recall(recommendations, relevant_recommendations=relevant_recommendations)")]),
 'e_ap_dup': ('E01', [(RK, "                                                          :i - 1]:", "                                                          :i - 2]:")]),
 'e_ap_div': ('E01', [(RK, "return _sum / min(len(relevant_recommendations), k)", "return _sum / min(len(recommendations), k)")]),
 'e_ap_max': ('E01', [(RK, "return _sum / min(len(relevant_recommendations), k)", "return _sum / len(relevant_recommendations)")]),
 'e_rmse_f': ('E01', [(RG, "return sqrt(mean_squared_error(y_true, y_pred))", "return sqrt(mean_absolute_error(y_true, y_pred))")]),
 'e_mut': ('E01', [(RK, "        if k is not None: recommendations = recommendations[:k]\n\n        _sum", "        if k is not None: del recommendations[k:]\n\n        _sum")]),
 # ranking evaluations
 'e_re_sumnone': ('E02', [(RE, "                    metric_sums[(m.name, k_)][0] += m(**params)\n                    metric_sums[(m.name, k_)][1] += 1\n", "                    metric_sums[(m.name, k_)][1] += 1\n                    metric_sums[(m.name, k_)][0] += m(**params)\n")]),
 'e_re_ntasks': ('E02', [(RE, "    results = {m + f'@{k}': round(metric_sums[(m, k)][0] / metric_sums[(m, k)][1], 4)", "    results = {m + f'@{k}': round(metric_sums[(m, k)][0] / n_tasks, 4)")]),
 'e_ce_nusers': ('E02', [(CE, "metric_sums[(m, k)][0] / metric_sums[(m, k)][1], 4)", "metric_sums[(m, k)][0] / n_test_users, 4)")]),
 'e_ce_round': ('E02', [(CE, "metric_sums[(m, k)][1], 4)", "metric_sums[(m, k)][1], 3)")]),
 'e_re_break': ('E02', [(RE, "if num_users_made >= n_test_users: break", "if num_users_made > n_test_users: break")]),
 'e_re_ktrunc': ('E02', [(RE, "                        params[param_name] = k_\n", "                        params[param_name] = max(k)\n")]),
 'e_re_onlyfirst': ('E02', [(RE, "metric_sums[(m.name, k_)][1] += 1", "metric_sums[(m.name, k[0])][1] += 1")]),
 'e_re_pos': ('E02,E03', [(RE, "params[param_name] = user_interacted_items", "params[param_name] = all_items")]),
 'e_re_best': ('E02,E03', [(RE, "params[param_name] = best_item", "params[param_name] = recommendations[0]")]),
 'e_ce_skipzero': ('E02', [(CE, "                    metric_sums[(m.name, k_)][0] += m(**params)\n                    metric_sums[(m.name, k_)][1] += 1\n", "                    val = m(**params)\n                    if val:\n                        metric_sums[(m.name, k_)][0] += val\n                        metric_sums[(m.name, k_)][1] += 1\n")]),
 'e_ce_empty': ('E02,E03', [(CE, "    relevancies = {item: (user_ds", "    if len(recommendations) == 0:\n        return\n\n    relevancies = {item: (user_ds")]),
 'e_re_gt': ('E03', [(RE, "select(f'interaction >= {interaction_threshold}')", "select(f'interaction > {interaction_threshold}')")]),
 'e_re_min': ('E03', [(RE, "max(user_interacted_items, key=lambda p: p['interaction'])", "min(user_interacted_items, key=lambda p: p['interaction'])")]),
 'e_re_bestall': ('E03', [(RE, "max(user_interacted_items, key=lambda p: p['interaction'])", "max(user_test_pos_ds.values_list(['item', 'interaction']), key=lambda p: p['interaction'])")]),
 'e_re_le': ('E03', [(RE, "if len(user_test_pos_ds) < n_pos_interactions:", "if len(user_test_pos_ds) <= n_pos_interactions:")]),
 'e_re_thr': ('E03', [(RE, "negative_pairs_ds = user_ds.select(f'interaction < {interaction_threshold}')", "negative_pairs_ds = user_ds.select(f'interaction <= {interaction_threshold}')")]),
 'e_re_modelthr': ('E03', [(RE, "kwds.get('interaction_threshold', model.interaction_threshold)", "kwds.get('interaction_threshold') or model.interaction_threshold")]),
 'e_re_noblack': ('E03', [(RE, "            if not train_evaluation:\n                item_blacklist = item_blacklist", "            if train_evaluation:\n                item_blacklist = item_blacklist")]),
 'e_re_dupneg': ('E03', [(RE, "if new_item not in item_blacklist and new_item not in user_non_interacted_items:", "if new_item not in item_blacklist:")]),
 'e_re_negallpos': ('E03', [(RE, "int(n_neg_interactions * len(user_interacted_items))", "int(n_neg_interactions * len(user_test_pos_ds))")]),
 'e_re_negceil': ('E03', [(RE, "int(n_neg_interactions * len(user_interacted_items))", "round(n_neg_interactions * len(user_interacted_items))")]),
 'e_re_novelty': ('E03', [(RE, "model.rank(user, all_items, novelty=novelty, skip_invalid_items=True)", "model.rank(user, all_items, novelty=novelty and not train_evaluation, skip_invalid_items=True)")]),
 'e_re_n': ('E03', [(RE, "model.rank(user, all_items, novelty=novelty, skip_invalid_items=True)", "model.rank(user, all_items, n=k[0], novelty=novelty, skip_invalid_items=True)")]),
 'e_re_relmodel': ('E03', [(RE, "(user_ds.select_one(f'item == {item!r}', ['interaction'], to_list=True) or 0)", "(user_test_pos_ds.select_one(f'item == {item!r}', ['interaction'], to_list=True) or 0)")]),
 'e_re_relonly': ('E03', [(RE, "                   for item in all_items}", "                   for item in recommendations}")]),
 'e_re_trainpos': ('E03', [(RE, ".select(f'user == {user!r}, interaction >= {interaction_threshold}')", ".select(f'user == {user!r}')")]),
 'e_ce_maxk': ('E03', [(CE, "n=max(k),", "n=k[-1],")]),
 'e_ce_thr': ('E03', [(CE, "interaction_threshold=ignore_low_predictions_threshold)", "interaction_threshold=ignore_low_predictions_threshold or interaction_threshold)")]),
 'e_ce_union': ('E03', [(CE, "set(user_interacted_items).union(set(recommendations))", "set(recommendations)")]),
 'e_ce_trainsel': ('E03', [(CE, "user_ds = ds_test.select(f'user == {user!r}')", "user_ds = model.interaction_dataset.select(f'user == {user!r}')")]),
 # predictive
 'e_pe_none_order': ('E04', [(PE, "        if pred is None:\n            if count_none_predictions:", "        if not pred:\n            if count_none_predictions:")]),
 'e_pe_cnt': ('E04', [(PE, "                num_predictions_made += 1\n                y_pred.append(0)", "                y_pred.append(0)")]),
 'e_pe_noneTrue': ('E04', [(PE, "                y_pred.append(0)\n                y_true.append(interaction)\n            continue", "                y_pred.append(0)\n                y_true.append(interaction)\n            else:\n                num_predictions_made += 1\n            continue")]),
 'e_pe_misalign': ('E04', [(PE, "        pred = model.predict(user, item, skip_errors=skip_errors)\n", "        y_true.append(interaction)\n        pred = model.predict(user, item, skip_errors=skip_errors)\n"), (PE, "                y_pred.append(0)\n                y_true.append(interaction)\n", "                y_pred.append(0)\n"), (PE, "        y_pred.append(pred)\n        y_true.append(interaction)\n", "        y_pred.append(pred)\n")]),
 'e_pe_skip': ('E04', [(PE, "model.predict(user, item, skip_errors=skip_errors)", "model.predict(user, item, skip_errors=True)")]),
 'e_pe_swap': ('E04', [(PE, "m(y_true, y_pred)", "m(y_pred, y_true)")]),
 'e_pe_gt': ('E04', [(PE, "if num_predictions_made >= n_test_predictions: break", "if num_predictions_made > n_test_predictions: break")]),
 'e_pe_cnt0': ('E04', [(PE, "y_pred.append(0)", "y_pred.append(model.min_interaction)")]),
 'e_pe_round': ('E04', [(PE, "round(m(y_true, y_pred), 4)", "round(m(y_true[:n_test_predictions - 1], y_pred[:n_test_predictions - 1]), 4)")]),
 'e_pe_train': ('E04', [(PE, "if ds_test is None: ds_test = model.interaction_dataset", "if not ds_test: ds_test = model.interaction_dataset")]),
}
