RE = 'DRecPy/Evaluation/Processes/ranking_evaluation.py'
CE = 'DRecPy/Evaluation/Processes/recommendation_evaluation.py'
PE = 'DRecPy/Evaluation/Processes/predictive_evaluation.py'
BUG = {
 'x_e_sumall': ('E02', [(RE, "metric_sums = {(m.name, k_): [0, 0] for m in metrics for k_ in k}", "metric_sums = dict.fromkeys([(m.name, k_) for m in metrics for k_ in k], [0, 0])")]),
 'x_e_kmax': ('E02', [(RE, "metric_sums = {(m.name, k_): [0, 0] for m in metrics for k_ in k}", "metric_sums = {(m.name, k_): [0, 0] for m in metrics for k_ in k[:1]}")]),
 'x_e_cntfirst': ('E02', [(RE, "                    metric_sums[(m.name, k_)][0] += m(**params)\n                    metric_sums[(m.name, k_)][1] += 1", "                    metric_sums[(m.name, k_)][1] += 1\n                    metric_sums[(m.name, k_)][0] += m(**params)")]),
 'x_e_try_out': ('E02', [(CE, "                try:\n                    metric_sums[(m.name, k_)][0] += m(**params)\n                    metric_sums[(m.name, k_)][1] += 1\n                except: pass", "                metric_sums[(m.name, k_)][0] += m(**params)\n                metric_sums[(m.name, k_)][1] += 1")]),
 'x_e_varnames': ('E03', [(RE, "m.__call__.__code__.co_varnames", "m.__init__.__code__.co_varnames")]),
 'x_e_pos_recs': ('E03', [(CE, "params[param_name] = recommendations", "params[param_name] = recommendations[:len(user_interacted_items)]")]),
 'x_e_best_neg': ('E03', [(RE, "    best_item = None if len(user_interacted_items) == 0 else \\\n        max(user_interacted_items, key=lambda p: p['interaction'])['item']", "    best_item = None if len(user_interacted_items) == 0 else \\\n        max(user_interacted_items, key=lambda p: p['item'])['item']")]),
 'x_e_relnone': ('E03', [(RE, "['interaction'], to_list=True) or 0)\n                   for item in all_items}", "['interaction'], to_list=True) or 0)\n                   for item in recommendations}")]),
 'x_e_rel1': ('E03', [(RE, "['interaction'], to_list=True) or 0)", "['interaction'], to_list=True) or 1)")]),
 'x_e_quote': ('E03', [(RE, "user_ds = ds_test.select(f'user == {user!r}')", "user_ds = ds_test.select(f'user == {user}')")]),
 'x_e_blackint': ('E03', [(RE, "item_blacklist = item_blacklist.union(set(", "item_blacklist = item_blacklist.intersection(set(")]),
 'x_e_negfloat': ('E03', [(RE, "int(n_neg_interactions * len(user_interacted_items))", "int(n_neg_interactions * len(user_test_pos_ds))")]),
 'x_e_ret': ('E03', [(RE, "        if len(user_test_pos_ds) < n_pos_interactions:", "        if len(user_test_pos_ds) <= n_pos_interactions:")]),
 'x_e_elig': ('E03', [(RE, "            if model.n_items - len(item_blacklist) < n_neg_interactions:", "            if model.n_items - len(item_blacklist) <= n_neg_interactions:")]),
 'x_e_inplace': ('E03', [(RE, "    all_items = user_interacted_items + user_non_interacted_items\n", "    all_items = user_interacted_items\n    all_items += user_non_interacted_items\n")]),
 'x_e_skipinv': ('E03', [(RE, "novelty=novelty, skip_invalid_items=True)]", "novelty=novelty)]")]),
 'x_e_users0': ('E02', [(RE, "    assert n_test_users is None or n_test_users > 0,", "    assert n_test_users is None or n_test_users >= 0,")]),
 'x_e_kcheck': ('E02', [(RE, "    for k_ in k: assert k_ > 0,", "    for k_ in k[:1]: assert k_ > 0,")]),
 'x_e_rows': ('E02', [(CE, "    unique_test_users_ds = ds_test.unique('user')\n", "    unique_test_users_ds = ds_test\n")]),
 'x_e_lock': ('E02', [(CE, "    with metric_lock:\n        for m in metrics:", "    if metrics:\n        for m in metrics:")]),
 'x_e_join': ('E02,L03', [(CE, "    pool.join()  # Wait for all tasks to complete\n\n", "")]),
 'x_e_results': ('E02', [(CE, "        if metric_sums[(m, k)][1] > 0 else 0 for m, k in metric_sums}", "        if metric_sums[(m, k)][0] > 0 else 0 for m, k in metric_sums}")]),
 'x_e_results1': ('E02', [(CE, "        if metric_sums[(m, k)][1] > 0 else 0 for m, k in metric_sums}", "        if metric_sums[(m, k)][1] > 1 else 0 for m, k in metric_sums}")]),
 'x_e_thrfalsy': ('E03', [(CE, "interaction_threshold = kwds.get('interaction_threshold', model.interaction_threshold)", "interaction_threshold = kwds.get('interaction_threshold') or model.interaction_threshold")]),
 'x_e_ignthr': ('E03', [(CE, "interaction_threshold=ignore_low_predictions_threshold)]", "interaction_threshold=interaction_threshold)]")]),
 'x_e_recn': ('E03', [(CE, "n=max(k)", "n=len(user_interacted_items)")]),
 'x_e_ds_train': ('E03', [(CE, "    if ds_test is None:\n        ds_test = model.interaction_dataset", "    if ds_test is None or len(ds_test) == 0:\n        ds_test = model.interaction_dataset")]),
 'x_e_sharedrng': ('R01', [(CE, "                                                           random.Random(seed)))", "                                                           random))")]),
 'x_p_nt': ('E04', [(PE, "        if pred is None:\n            if count_none_predictions:", "        if not pred:\n            if count_none_predictions:")]),
 'x_p_cont': ('E04', [(PE, "                y_true.append(interaction)\n            continue\n", "                y_true.append(interaction)\n                continue\n")]),
 'x_p_args': ('E04', [(PE, "m(y_true, y_pred)", "m(y_pred, y_true)")]),
 'x_p_order': ('E04', [(PE, "model.predict(user, item, skip_errors=skip_errors)", "model.predict(item, user, skip_errors=skip_errors)")]),
 'x_p_break': ('E04', [(PE, "        if num_predictions_made >= n_test_predictions: break  # reach max number of predictions\n\n        pred", "        pred"), (PE, "        num_predictions_made += 1\n\n    # evaluate", "        num_predictions_made += 1\n        if num_predictions_made > n_test_predictions: break\n\n    # evaluate")]),
}
