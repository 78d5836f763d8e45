PE = 'DRecPy/Evaluation/Processes/predictive_evaluation.py'
RE = 'DRecPy/Evaluation/Processes/recommendation_evaluation.py'
RK = 'DRecPy/Evaluation/Processes/ranking_evaluation.py'
LK = 'DRecPy/Evaluation/Splits/leave_k_out.py'
MS = 'DRecPy/Evaluation/Splits/matrix_split.py'
RS = 'DRecPy/Evaluation/Splits/random_split.py'
MR = 'DRecPy/Evaluation/Metrics/ranking.py'
PARAMS = """                param_names = m.__call__.__code__.co_varnames
                params = dict()
                for param_name in param_names:
                    if param_name == 'recommendations':
                        params[param_name] = recommendations
                    elif param_name == 'relevant_recommendations':
                        params[param_name] = user_interacted_items
                    elif param_name == 'relevant_recommendation':
                        params[param_name] = best_item
                    elif param_name == 'relevancies':
                        params[param_name] = relevancies
                    elif param_name == 'k':
                        params[param_name] = k_
"""
PARAMS2 = """                available = {'recommendations': recommendations, 'relevant_recommendations': user_interacted_items,
                             'relevant_recommendation': best_item, 'relevancies': relevancies, 'k': k_}
                params = {name: available[name] for name in m.__call__.__code__.co_varnames if name in available}
"""
REF = {
 'pred_ifelse': [(PE, """        if pred is None:
            if count_none_predictions:
                num_predictions_made += 1
                y_pred.append(0)
                y_true.append(interaction)
            continue
        y_pred.append(pred)
        y_true.append(interaction)
        num_predictions_made += 1
""", """        if pred is None:
            if not count_none_predictions:
                continue
            pred = 0
        num_predictions_made += 1
        y_true.append(interaction)
        y_pred.append(pred)
""")],
 'pred_len': [(PE, """        if num_predictions_made >= n_test_predictions: break  # reach max number of predictions
""", """        if len(y_pred) >= n_test_predictions:
            break
""")],
 'pred_islice': [(PE, """    y_pred, y_true = [], []
    for user, item, interaction in _iter:
        if num_predictions_made >= n_test_predictions: break  # reach max number of predictions
""", """    y_pred, y_true = [], []
    it = iter(_iter)
    while num_predictions_made < n_test_predictions:
        try:
            user, item, interaction = next(it)
        except StopIteration:
            break
""")],
 'pred_helper': [(PE, """        y_pred.append(pred)
        y_true.append(interaction)
        num_predictions_made += 1

    # evaluate performance
    metric_values = {m.name: round(m(y_true, y_pred), 4) for m in metrics}

    return metric_values
""", """        y_pred.append(pred)
        y_true.append(interaction)
        num_predictions_made += 1

    return _compute(metrics, y_true, y_pred)


def _compute(metrics, expected, predicted):
    values = {}
    for metric in metrics:
        value = metric(expected, predicted)
        values[metric.name] = round(value, 4)
    return values
""")],
 'pred_iter': [(PE, """    if kwds.get('verbose', True):
        _iter = tqdm(ds_test.values(['user', 'item', 'interaction'], to_list=True),
                     total=n_test_predictions, desc='Evaluating model predictive performance', position=0, leave=True)
    else:
        _iter = ds_test.values(['user', 'item', 'interaction'], to_list=True)
""", """    _iter = ds_test.values(['user', 'item', 'interaction'], to_list=True)
    if kwds.get('verbose', True):
        _iter = tqdm(_iter, total=n_test_predictions, desc='Evaluating model predictive performance', position=0,
                     leave=True)
""")],
 'rank_params': [(RK, PARAMS, PARAMS2)],
 'rec_params': [(RE, PARAMS, PARAMS2)],
 'rec_helper': [(RE, PARAMS, """                params = _metric_params(m, recommendations, user_interacted_items, best_item, relevancies, k_)
"""), (RE, "def __recommendation_evaluation_user(", """def _metric_params(metric, recommendations, relevant, best_item, relevancies, k):
    candidates = dict(recommendations=recommendations, relevant_recommendations=relevant,
                      relevant_recommendation=best_item, relevancies=relevancies, k=k)
    params = {}
    for name in metric.__call__.__code__.co_varnames:
        if name in candidates:
            params[name] = candidates[name]
    return params


def __recommendation_evaluation_user(""")],
 'rank_sums_local': [(RK, """                try:
                    metric_sums[(m.name, k_)][0] += m(**params)
                    metric_sums[(m.name, k_)][1] += 1
                except: pass""", """                try:
                    value = m(**params)
                except Exception:
                    continue
                totals = metric_sums[(m.name, k_)]
                totals[0] += value
                totals[1] += 1""")],
 'rank_results_loop': [(RK, """    results = {m + f'@{k}': round(metric_sums[(m, k)][0] / metric_sums[(m, k)][1], 4)
        if metric_sums[(m, k)][1] > 0 else 0 for m, k in metric_sums}
""", """    results = {}
    for (metric_name, cutoff), (total, count) in metric_sums.items():
        results[metric_name + f'@{cutoff}'] = round(total / count, 4) if count > 0 else 0
""")],
 'rec_early': [(RE, """    best_item = None if len(user_interacted_items) == 0 else \\
        max(user_interacted_items, key=lambda p: p['interaction'])['item']
    user_interacted_items = [pair['item'] for pair in user_interacted_items]

    # join and shuffle all items
    if len(user_interacted_items) == 0:
        return
""", """    if not user_interacted_items:
        return
    best_item = max(user_interacted_items, key=lambda p: p['interaction'])['item']
    user_interacted_items = [pair['item'] for pair in user_interacted_items]
""")],
 'rank_neg_helper': [(RK, """        if len(user_non_interacted_items) < n_neg_interactions and generate_negative_pairs:
            if train_evaluation:
                user_train_pos_ds = user_test_pos_ds
            else:
                user_train_pos_ds = model.interaction_dataset \\
                    .select(f'user == {user!r}, interaction >= {interaction_threshold}')

            item_blacklist = set(user_train_pos_ds.unique('item').values_list('item', to_list=True))
            if not train_evaluation:
                item_blacklist = item_blacklist.union(set(user_test_pos_ds.unique('item')
                                                          .values_list('item', to_list=True)))
""", """        if generate_negative_pairs and len(user_non_interacted_items) < n_neg_interactions:
            item_blacklist = _positive_items(user_test_pos_ds)
            if not train_evaluation:
                train_pos_ds = model.interaction_dataset.select(f'user == {user!r}, interaction >= {interaction_threshold}')
                item_blacklist = _positive_items(train_pos_ds) | item_blacklist
"""), (RK, "def __ranking_evaluation_user(", """def _positive_items(ds):
    return set(ds.unique('item').values_list('item', to_list=True))


def __ranking_evaluation_user(""")],
 'rank_users_enum': [(RK, """    for user in _iter:
        if num_users_made >= n_test_users: break  # reach max number of rankings

        pool.apply_async(_ranking_evaluation_user, (model, user, ds_test, interaction_threshold, n_pos_interactions,
                                                    n_neg_interactions, train_evaluation, metrics, novelty, metric_sums,
                                                    k, generate_negative_pairs, random.Random(seed)))
        n_tasks += 1
        num_users_made += 1
        seed += 1
""", """    for i, user in enumerate(_iter):
        if i >= n_test_users:
            break
        rng = random.Random(seed + i)
        pool.apply_async(_ranking_evaluation_user, (model, user, ds_test, interaction_threshold, n_pos_interactions,
                                                    n_neg_interactions, train_evaluation, metrics, novelty, metric_sums,
                                                    k, generate_negative_pairs, rng))
        n_tasks += 1
""")],
 'rec_kcheck': [(RE, """    if type(k) is not list: k = [k]
    for k_ in k: assert k_ > 0, f'k ({k_}) should be > 0.'
""", """    if not isinstance(k, list):
        k = [k]
    assert all(k_ > 0 for k_ in k), f'k ({k}) should be > 0.'
""")],
 'rec_users': [(RE, """    n_test_users = len(unique_test_users_ds) if n_test_users is None else min(n_test_users, len(unique_test_users_ds))
""", """    n_unique_users = len(unique_test_users_ds)
    if n_test_users is None or n_test_users > n_unique_users:
        n_test_users = n_unique_users
""")],
 'rec_relev': [(RE, """    relevancies = {item: (user_ds.select_one(f'item == {item!r}', ['interaction'], to_list=True) or 0)
                   for item in set(user_interacted_items).union(set(recommendations))}
""", """    relevancies = {}
    for item in set(user_interacted_items) | set(recommendations):
        interaction = user_ds.select_one('item == {!r}'.format(item), ['interaction'], to_list=True)
        relevancies[item] = interaction or 0
""")],
 'lko_merge': [(LK, """        if ratio_variant:
            pool.apply_async(_leave_k_out_user_ratio, (interaction_dataset, train_rids_to_rem, test_rids,
                                                       min_user_interactions, user, k, random.Random(seed),
                                                       last_timestamps, timestamp_label))
        else:
            pool.apply_async(_leave_k_out_user_fixed, (interaction_dataset, train_rids_to_rem, test_rids,
                                                       min_user_interactions, user, k, random.Random(seed),
                                                       last_timestamps, timestamp_label))
""", """        worker = _leave_k_out_user_ratio if ratio_variant else _leave_k_out_user_fixed
        worker_args = (interaction_dataset, train_rids_to_rem, test_rids, min_user_interactions, user, k,
                       random.Random(seed), last_timestamps, timestamp_label)
        pool.apply_async(worker, worker_args)
""")],
 'lko_guard': [(LK, """    if len(user_rows_ds) < min_user_interactions:  # not enough user interactions
        with train_rem_lock:
            train_rids_to_rem.extend(user_rows_ds.values_list('rid', to_list=True))
    elif len(user_rows_ds) > k > 0:
        if last_timestamps:
""", """    n_rows = len(user_rows_ds)
    if n_rows < min_user_interactions:
        rids = user_rows_ds.values_list('rid', to_list=True)
        with train_rem_lock:
            train_rids_to_rem.extend(rids)
        return
    if n_rows > k and k > 0:
        if last_timestamps:
""")],
 'ms_comp': [(MS, """        to_test = []
        for rid, item in user_rows_ds.values(['rid', 'item'], to_list=True):
            with test_lock:
                if item in test_items_set:
                    to_test.append(rid)
""", """        to_test = [rid for rid, item in user_rows_ds.values(['rid', 'item'], to_list=True) if item in test_items_set]
""")],
 'ms_helper': [(MS, """    rng = random.Random(seed)
    ds_unique_users = interaction_dataset.unique('user')
    all_users = ds_unique_users.values_list('user', to_list=True)
    test_users_set = set(rng.sample(all_users, math.floor(len(all_users) * user_test_ratio)))

    ds_unique_items = interaction_dataset.unique('item')
    test_items_set = set(rng.sample(ds_unique_items.values_list('item', to_list=True),
                                    math.floor(len(ds_unique_items) * item_test_ratio)))
""", """    rng = random.Random(seed)
    all_users = interaction_dataset.unique('user').values_list('user', to_list=True)
    test_users_set = _sample_set(rng, all_users, user_test_ratio)
    all_items = interaction_dataset.unique('item').values_list('item', to_list=True)
    test_items_set = _sample_set(rng, all_items, item_test_ratio)
"""), (MS, "def _matrix_split_user(", """def _sample_set(rng, population, ratio):
    return set(rng.sample(population, math.floor(len(population) * ratio)))


def _matrix_split_user(""")],
 'rs_set': [(RS, """    pointer = 0
    for idx, record in _iter:
        if idx == test_idxs[pointer]:
            pointer += 1
            test_rids.append(record['rid'])
            if pointer >= len(test_idxs): break
""", """    test_idxs = set(test_idxs)
    for idx, record in _iter:
        if idx in test_idxs:
            test_rids.append(record['rid'])
            if len(test_rids) == len(test_idxs):
                break
""")],
 'rs_enum': [(RS, """        _iter = zip(range(len(interaction_dataset)), interaction_dataset.values('rid'))

    pointer""", """        _iter = enumerate(interaction_dataset.values('rid'))

    pointer""")],
 'dcg_sum': [(MR, """        curr_dcg = 0
        for i, r in enumerate(recommendations):
            rel = float(relevancies[r])

            if self.strong_relevancy:
                curr_dcg += (2 ** rel - 1) / math.log2(2 + i)
            else:
                curr_dcg += rel / math.log2(2 + i)

        return curr_dcg
""", """        def gain(rel):
            return 2 ** rel - 1 if self.strong_relevancy else rel

        return sum(gain(float(relevancies[r])) / math.log2(i + 2) for i, r in enumerate(recommendations))
""")],
 'ap_enum': [(MR, """        for r, i in zip(recommendations, range(1, len(recommendations) + 1)):
            if r in relevant_recommendations and r not in recommendations[
                                                          :i - 1]:  # r is relevant and the first occurrence
                _sum += self.precision(recommendations, relevant_recommendations=relevant_recommendations, k=i)

        if k is None: return _sum / len(relevant_recommendations)
        return _sum / min(len(relevant_recommendations), k)
""", """        for i, r in enumerate(recommendations):
            first_occurrence = r not in recommendations[:i]
            if r in relevant_recommendations and first_occurrence:
                _sum += self.precision(recommendations, k=i + 1, relevant_recommendations=relevant_recommendations)

        n_relevant = len(relevant_recommendations)
        return _sum / (n_relevant if k is None else min(n_relevant, k))
""")],
 'rr_try': [(MR, """        if relevant_recommendation in recommendations:
            return 1 / (recommendations.index(relevant_recommendation) + 1)
        return 0
""", """        for position, item in enumerate(recommendations, start=1):
            if item == relevant_recommendation:
                return 1 / position
        return 0
""")],
 'fs_vars': [(MR, """        return (1 + self.beta ** 2) * p * r / ((self.beta ** 2 * p) + r)
""", """        beta_sq = self.beta * self.beta
        numerator = p * r * (beta_sq + 1)
        return numerator / (r + p * beta_sq)
""")],
}
