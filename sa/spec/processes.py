"""Reference definitions of the evaluation processes (parsed by the analysis, never imported or executed)."""
import random
import logging
from multiprocessing.pool import ThreadPool
from threading import Lock
from DRecPy.Evaluation.Metrics import RankingMetricABC, PredictiveMetricABC
from DRecPy.Evaluation.Metrics import RMSE, MSE, Precision, Recall, HitRatio, NDCG

metric_lock = Lock()


def predictive_evaluation(model, ds_test=None, count_none_predictions=False, n_test_predictions=None, skip_errors=True, **kwds):
    if ds_test is None:
        ds_test = model.interaction_dataset
    if n_test_predictions is None:
        n_test_predictions = len(ds_test)
    assert n_test_predictions > 0
    metrics = kwds.get('metrics', [RMSE(), MSE()])
    assert isinstance(metrics, list)
    for m in metrics:
        assert isinstance(m, PredictiveMetricABC)
    n_test_predictions = min(n_test_predictions, len(ds_test))
    done = 0
    y_pred, y_true = [], []
    for user, item, interaction in ds_test.values(['user', 'item', 'interaction'], to_list=True):
        if done >= n_test_predictions:
            break
        pred = model.predict(user, item, skip_errors=skip_errors)
        if pred is None:
            if count_none_predictions:
                done += 1
                y_pred.append(0)
                y_true.append(interaction)
            continue
        y_pred.append(pred)
        y_true.append(interaction)
        done += 1
    return {m.name: round(m(y_true, y_pred), 4) for m in metrics}


def recommendation_evaluation(model, ds_test=None, n_test_users=None, k=10, n_pos_interactions=None, novelty=False,
                              ignore_low_predictions_threshold=None, seed=0, max_concurrent_threads=4, **kwds):
    assert n_test_users is None or n_test_users > 0
    assert n_pos_interactions is None or n_pos_interactions > 0
    interaction_threshold = kwds.get('interaction_threshold', model.interaction_threshold)
    if type(k) is not list:
        k = [k]
    for k_ in k:
        assert k_ > 0
    if ds_test is None:
        ds_test = model.interaction_dataset
    metrics = kwds.get('metrics', [Precision(), Recall(), HitRatio(), NDCG()])
    assert isinstance(metrics, list)
    for m in metrics:
        assert isinstance(m, RankingMetricABC)
    metric_sums = {(m.name, k_): [0, 0] for m in metrics for k_ in k}
    users = ds_test.unique('user')
    n_test_users = len(users) if n_test_users is None else min(n_test_users, len(users))
    made = 0
    pool = ThreadPool(processes=max_concurrent_threads)
    for user in users.values(['user'], to_list=True):
        if made >= n_test_users:
            break
        pool.apply_async(recommendation_user, (model, user, ds_test, interaction_threshold, n_pos_interactions, metrics, novelty,
                                               ignore_low_predictions_threshold, metric_sums, k, random.Random(seed)))
        made += 1
        seed += 1
    pool.close()
    pool.join()
    return {m + f'@{k}': round(metric_sums[(m, k)][0] / metric_sums[(m, k)][1], 4) if metric_sums[(m, k)][1] > 0 else 0
            for m, k in metric_sums}


def recommendation_user(model, user, ds_test, interaction_threshold, n_pos_interactions, metrics, novelty,
                        ignore_low_predictions_threshold, metric_sums, k, rng):
    user_ds = ds_test.select(f'user == {user!r}')
    positives = user_ds.select(f'interaction >= {interaction_threshold}')
    if n_pos_interactions is None:
        pairs = positives.values_list(['item', 'interaction'])
    else:
        if len(positives) < n_pos_interactions:
            return
        pairs = rng.sample(positives.values_list(['item', 'interaction']), n_pos_interactions)
    best = None if len(pairs) == 0 else max(pairs, key=lambda p: p['interaction'])['item']
    pos_items = [pair['item'] for pair in pairs]
    if len(pos_items) == 0:
        return
    recommendations = [item for _, item in model.recommend(user, n=max(k), novelty=novelty, skip_invalid_items=True,
                                                           interaction_threshold=ignore_low_predictions_threshold)]
    relevancies = {item: (user_ds.select_one(f'item == {item!r}', ['interaction'], to_list=True) or 0)
                   for item in set(pos_items).union(set(recommendations))}
    aggregate(metrics, k, recommendations, pos_items, best, relevancies, metric_sums)


def aggregate(metrics, k, recommendations, pos_items, best, relevancies, metric_sums):
    with metric_lock:
        for m in metrics:
            for k_ in k:
                params = dict()
                for name in m.__call__.__code__.co_varnames:
                    if name == 'recommendations':
                        params[name] = recommendations
                    elif name == 'relevant_recommendations':
                        params[name] = pos_items
                    elif name == 'relevant_recommendation':
                        params[name] = best
                    elif name == 'relevancies':
                        params[name] = relevancies
                    elif name == 'k':
                        params[name] = k_
                try:
                    metric_sums[(m.name, k_)][0] += m(**params)
                    metric_sums[(m.name, k_)][1] += 1
                except:
                    pass


def ranking_evaluation(model, ds_test=None, n_test_users=None, k=10, n_pos_interactions=None, n_neg_interactions=None,
                       generate_negative_pairs=False, novelty=False, seed=0, max_concurrent_threads=4, **kwds):
    assert n_test_users is None or n_test_users > 0
    assert n_pos_interactions is None or n_pos_interactions > 0
    assert n_neg_interactions is None or n_neg_interactions > 0
    if generate_negative_pairs and n_neg_interactions is None:
        raise Exception('undefined number of negatives')
    interaction_threshold = kwds.get('interaction_threshold', model.interaction_threshold)
    if type(k) is not list:
        k = [k]
    for k_ in k:
        assert k_ > 0
    train_evaluation = False
    if ds_test is None or ds_test == model.interaction_dataset:
        train_evaluation = True
        ds_test = model.interaction_dataset
    metrics = kwds.get('metrics', [Precision(), Recall(), HitRatio(), NDCG()])
    assert isinstance(metrics, list)
    for m in metrics:
        assert isinstance(m, RankingMetricABC)
    metric_sums = {(m.name, k_): [0, 0] for m in metrics for k_ in k}
    users = ds_test.unique('user')
    n_test_users = len(users) if n_test_users is None else min(n_test_users, len(users))
    made = 0
    pool = ThreadPool(processes=max_concurrent_threads)
    for user in users.values(['user'], to_list=True):
        if made >= n_test_users:
            break
        pool.apply_async(ranking_user, (model, user, ds_test, interaction_threshold, n_pos_interactions, n_neg_interactions,
                                        train_evaluation, metrics, novelty, metric_sums, k, generate_negative_pairs,
                                        random.Random(seed)))
        made += 1
        seed += 1
    pool.close()
    pool.join()
    return {m + f'@{k}': round(metric_sums[(m, k)][0] / metric_sums[(m, k)][1], 4) if metric_sums[(m, k)][1] > 0 else 0
            for m, k in metric_sums}


def ranking_user(model, user, ds_test, interaction_threshold, n_pos_interactions, n_neg_interactions, train_evaluation,
                 metrics, novelty, metric_sums, k, generate_negative_pairs, rng):
    try:
        ranking_user_body(model, user, ds_test, interaction_threshold, n_pos_interactions, n_neg_interactions, train_evaluation,
                          metrics, novelty, metric_sums, k, generate_negative_pairs, rng)
    except Exception as e:
        logging.error(e)


def ranking_user_body(model, user, ds_test, interaction_threshold, n_pos_interactions, n_neg_interactions, train_evaluation,
                      metrics, novelty, metric_sums, k, generate_negative_pairs, rng):
    user_ds = ds_test.select(f'user == {user!r}')
    positives = user_ds.select(f'interaction >= {interaction_threshold}')
    if n_pos_interactions is None:
        pairs = positives.values_list(['item', 'interaction'])
    else:
        if len(positives) < n_pos_interactions:
            return
        pairs = rng.sample(positives.values_list(['item', 'interaction']), n_pos_interactions)
    best = None if len(pairs) == 0 else max(pairs, key=lambda p: p['interaction'])['item']
    pos_items = [pair['item'] for pair in pairs]

    negatives = user_ds.select(f'interaction < {interaction_threshold}')
    if n_neg_interactions is None:
        neg_items = negatives.values_list(['item'], to_list=True)
    else:
        if isinstance(n_neg_interactions, float):
            n_neg_interactions = int(n_neg_interactions * len(pos_items))
        neg_items = rng.sample(negatives.values_list(['item'], to_list=True), min(n_neg_interactions, len(negatives)))
        if len(neg_items) < n_neg_interactions and generate_negative_pairs:
            if train_evaluation:
                train_positives = positives
            else:
                train_positives = model.interaction_dataset.select(f'user == {user!r}, interaction >= {interaction_threshold}')
            blacklist = set(train_positives.unique('item').values_list('item', to_list=True))
            if not train_evaluation:
                blacklist = blacklist.union(set(positives.unique('item').values_list('item', to_list=True)))
            if model.n_items - len(blacklist) < n_neg_interactions:
                return
            while len(neg_items) < n_neg_interactions:
                new_item = rng.randint(0, model.n_items - 1)
                if new_item not in blacklist and new_item not in neg_items:
                    neg_items.append(new_item)
    all_items = pos_items + neg_items
    if len(all_items) == 0:
        return
    rng.shuffle(all_items)
    recommendations = [item for _, item in model.rank(user, all_items, novelty=novelty, skip_invalid_items=True)]
    relevancies = {item: (user_ds.select_one(f'item == {item!r}', ['interaction'], to_list=True) or 0) for item in all_items}
    aggregate(metrics, k, recommendations, pos_items, best, relevancies, metric_sums)
