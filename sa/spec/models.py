"""Reference definitions of the recommenders (parsed by the analysis, never imported or executed)."""
from abc import abstractmethod
from heapq import nlargest
import copy
import tensorflow as tf
from scipy.sparse import csr_matrix
from joblib import dump, load
from DRecPy.Sampler import PointSampler, ListSampler
from DRecPy.Recommender.Baseline.aggregation import mean, weighted_mean
from DRecPy.Recommender.Baseline.similarity import (cosine_sim, adjusted_cosine_sim, cosine_sim_cf, jaccard_sim, msd,
                                                    pearson_corr)
from DRecPy.Recommender.EarlyStopping.early_stopping_rule_abc import InvalidEpochValidationResultsException
from DRecPy.Evaluation import LossTracker


class RecommenderABC:
    def __init__(self, **kwds):
        self.verbose = kwds.get('verbose', True)
        self.seed = kwds.get('seed', None)
        self.interaction_threshold = kwds.get('interaction_threshold', 1e-3)
        self.fitted = False
        self.interaction_dataset = None

    @abstractmethod
    def _pre_fit(self, learning_rate, neg_ratio, reg_rate, **kwds):
        pass

    @abstractmethod
    def _sample_batch(self, batch_size, **kwds):
        pass

    @abstractmethod
    def _predict_batch(self, batch_samples, **kwds):
        pass

    @abstractmethod
    def _compute_batch_loss(self, predictions, desired_values, **kwds):
        pass

    @abstractmethod
    def _predict(self, uid, iid, **kwds):
        pass

    def predict(self, user_id, item_id, skip_errors=False, **kwds):
        assert self.fitted is True
        ds = self.interaction_dataset
        assert skip_errors or ds.user_to_uid(user_id) is not None
        assert skip_errors or ds.item_to_iid(item_id) is not None
        value = None
        try:
            value = self._predict(ds.user_to_uid(user_id), ds.item_to_iid(item_id), **kwds)
            if value is None:
                raise Exception('no prediction')
        except Exception as e:
            if not skip_errors:
                raise e
        return value

    def recommend(self, user_id, n=None, novelty=True, interaction_threshold=None, **kwds):
        assert self.fitted is True
        ds = self.interaction_dataset
        assert ds.user_to_uid(user_id) is not None
        if n is None:
            n = self.n_items
        return [(score, ds.iid_to_item(iid)) for score, iid in self._recommend(ds.user_to_uid(user_id), n, novelty, interaction_threshold)]

    def _recommend(self, uid, n, novelty, threshold):
        best = self._rank(uid, range(self.n_items), n, novelty)
        if threshold is None:
            return best
        return [pair for pair in best if pair[0] >= threshold]

    def rank(self, user_id, item_ids, novelty=True, skip_invalid_items=True, **kwds):
        assert self.fitted is True
        ds = self.interaction_dataset
        assert ds.user_to_uid(user_id) is not None
        known = []
        for item in item_ids:
            iid = ds.item_to_iid(item)
            if iid is None:
                if not skip_invalid_items:
                    raise Exception('unknown item')
            else:
                known.append(iid)
        n = kwds.get('n', len(known))
        assert n <= len(known)
        return [(score, ds.iid_to_item(iid)) for score, iid in self._rank(ds.user_to_uid(user_id), known, n, novelty)]

    def _rank(self, uid, iids, n, novelty):
        if novelty:
            iids = set(iids).difference(set(self.interaction_dataset.select(f'uid == {uid}').values_list('iid', to_list=True)))
        scored = [(self._predict(uid, iid), iid) for iid in iids]
        return nlargest(n, [pair for pair in scored if pair[0] is not None])

    def _standardize_value(self, value):
        return (value - self.min_interaction) / (self.max_interaction - self.min_interaction)

    def _rescale_value(self, value):
        return self.min_interaction + (self.max_interaction - self.min_interaction) * value

    def _register_trainable(self, variable):
        if variable is None:
            raise Exception('None')
        if isinstance(variable, tf.keras.models.Model):
            self.trainable_models.append(variable)
        elif isinstance(variable, tf.keras.layers.Layer):
            self.trainable_layers.append(variable)
        elif tf.is_tensor(variable):
            self.trainable_weights.append(variable)
        else:
            raise Exception('not trainable')

    def _register_optimizer(self, optimizer):
        self.optimizer = optimizer

    def _register_trainables(self, variables):
        for variable in variables:
            self._register_trainable(variable)

    def _compute_reg_loss(self, reg_rate, batch_size, trainable_models, trainable_layers, trainable_weights, **kwds):
        return sum([tf.math.add_n(trainable.losses) if len(trainable.losses) > 0 else 0
                    for trainable in trainable_layers + trainable_models])

    def _update_weights(self, gradients, trainable_weights):
        for gradient, variable in zip(gradients, trainable_weights):
            if tf.is_tensor(gradient):
                gradient = [gradient]
            if tf.is_tensor(variable):
                variable = [variable]
            self.optimizer.apply_gradients(zip(gradient, variable))

    def _store_epoch_weights(self):
        self.epoch_weights.append({
            'trainable_weights': copy.deepcopy(self.trainable_weights),
            'trainable_layers': [layer.get_weights() for layer in self.trainable_layers],
            'trainable_models': [model.get_weights() for model in self.trainable_models]
        })

    def _revert_weights(self, epoch):
        stored = self.epoch_weights[epoch]
        for model, weights in zip(self.trainable_models, stored['trainable_models']):
            model.set_weights(weights)
        for layer, weights in zip(self.trainable_layers, stored['trainable_layers']):
            layer.set_weights(weights)
        for variable, weights in zip(self.trainable_weights, stored['trainable_weights']):
            variable.assign(weights)

    def save(self, save_path):
        dump(self, save_path)

    @staticmethod
    def load(load_path):
        return load(load_path)

    def fit(self, interaction_dataset, epochs=50, batch_size=32, learning_rate=0.001, neg_ratio=5, reg_rate=0.001,
            copy_dataset=False, **kwds):
        if copy_dataset:
            self.interaction_dataset = interaction_dataset.copy()
        else:
            self.interaction_dataset = interaction_dataset
        ds = self.interaction_dataset
        ds.assign_internal_ids()
        self.min_interaction = ds.min('interaction')
        if self.min_interaction == 1:
            self.min_interaction = 0
        self.max_interaction = ds.max('interaction')
        self.n_users = ds.count_unique('uid')
        self.n_items = ds.count_unique('iid')
        self.n_rows = len(ds)
        self._loss_tracker = LossTracker()
        self.trainable_weights, self.trainable_layers, self.trainable_models = [], [], []
        self._register_optimizer(tf.keras.optimizers.Adam(learning_rate=learning_rate))
        self._pre_fit(learning_rate, neg_ratio, reg_rate, **kwds)
        if kwds.get('optimizer', None) is not None:
            self._register_optimizer(kwds.get('optimizer'))
        self.fitted = True
        if len(self.trainable_weights) == 0 and len(self.trainable_layers) == 0 and len(self.trainable_models) == 0:
            return
        callback = kwds.get('epoch_callback_fn', None)
        callback_freq = kwds.get('epoch_callback_freq', 5)
        rule = kwds.get('early_stopping_rule', None)
        rule_freq = kwds.get('early_stopping_freq', 5)
        best = None
        results = None
        if self.verbose and callback is not None:
            results = callback(self)
            assert type(results) is dict
            for metric in results:
                self._loss_tracker.add_epoch_callback_result(metric, results[metric], 0)
        self.epoch_weights = []
        self._store_epoch_weights()
        for e in range(1, epochs + 1):
            batch = self._sample_batch(batch_size, **kwds)
            with tf.GradientTape() as tape:
                predictions, desired = self._predict_batch(batch, **kwds)
                variables = self.trainable_weights + \
                    [layer.trainable_weights for layer in self.trainable_layers] + \
                    [model.trainable_weights for model in self.trainable_models]
                for v in variables:
                    tape.watch(v)
                loss = self._compute_batch_loss(predictions, desired, **kwds) + \
                    self._compute_reg_loss(reg_rate, len(batch), self.trainable_models, self.trainable_layers, self.trainable_weights)
            self._update_weights(tape.gradient(loss, variables), variables)
            self._store_epoch_weights()
            if self.verbose or rule is not None:
                self._loss_tracker.add_epoch_loss(loss)
                if callback is not None and e % callback_freq == 0:
                    results = callback(self)
                    assert isinstance(results, dict)
                    for metric in results:
                        self._loss_tracker.add_epoch_callback_result(metric, results[metric], e)
            if rule is not None and e % rule_freq == 0:
                try:
                    best = rule.compute(self._loss_tracker.epoch_losses, self._loss_tracker.epoch_callback_results,
                                        self._loss_tracker.called_epochs)
                    if rule.stop_training(e, best, epochs):
                        break
                except InvalidEpochValidationResultsException:
                    pass
        if rule is not None and e % rule_freq != 0:
            try:
                best = rule.compute(self._loss_tracker.epoch_losses, self._loss_tracker.epoch_callback_results,
                                    self._loss_tracker.called_epochs)
            except InvalidEpochValidationResultsException:
                pass
        if best is not None and best != epochs:
            self._revert_weights(best)


class BaseKNN(RecommenderABC):
    def __init__(self, k=20, m=5, sim_metric='adjusted_cosine', aggregation='weighted_mean', shrinkage=100,
                 use_averages=False, **kwds):
        super().__init__(**kwds)
        if sim_metric == 'adjusted_cosine':
            self.sim_metric_fn = adjusted_cosine_sim
        elif sim_metric == 'cosine':
            self.sim_metric_fn = cosine_sim
        elif sim_metric == 'cosine_cf':
            self.sim_metric_fn = cosine_sim_cf
        elif sim_metric == 'jaccard':
            self.sim_metric_fn = jaccard_sim
        elif sim_metric == 'msd':
            self.sim_metric_fn = msd
        elif sim_metric == 'pearson':
            self.sim_metric_fn = pearson_corr
        else:
            raise Exception('unknown similarity')
        if aggregation == 'mean':
            self.aggregation_fn = mean
        elif aggregation == 'weighted_mean':
            self.aggregation_fn = weighted_mean
        else:
            raise Exception('unknown aggregation')
        self.k = k
        self.m = m
        self.type = None
        self.shrinkage = shrinkage
        self.use_averages = use_averages
        self._similarities = dict()
        self._neighbours = dict()

    def _pre_fit(self, learning_rate, neg_ratio, reg_rate, **kwds):
        self._similarities = dict()
        self._neighbours = dict()
        self._compute_similarities()
        self._compute_neighbours()

    def _predict(self, uid, iid, **kwds):
        if uid is None or iid is None:
            return None
        if self.type == 'user':
            target, other = uid, iid
        else:
            target, other = iid, uid
        interactions, similarities = [], []
        for similarity, neighbour in self._neighbours[target]:
            interaction = self._get_interaction(neighbour, other)
            if interaction is not None:
                interactions.append(interaction)
                similarities.append(similarity)
        if len(interactions) == 0 and self.use_averages:
            return self._predict_default(other)
        return self.aggregation_fn(interactions, similarities)

    def _compute_reg_loss(self, reg_rate, batch_size, **kwds):
        raise NotImplementedError

    def _get_sim(self, id1, id2):
        hi, lo = max(id1, id2), min(id1, id2)
        if hi not in self._similarities or lo not in self._similarities[hi]:
            return 0
        return self._similarities[hi][lo]


class UserKNN(BaseKNN):
    def __init__(self, **kwds):
        super().__init__(**kwds)
        self.type = 'user'

    def _compute_similarities(self):
        rated = {}
        interactions, uids, iids = [], [], []
        for record in self.interaction_dataset.values():
            u, i, r = record['uid'], record['iid'], record['interaction']
            interactions.append(r)
            uids.append(u)
            iids.append(i)
            if u not in rated:
                rated[u] = set()
            rated[u].add(i)
        sims = self.sim_metric_fn(csr_matrix((interactions, (uids, iids)))).tocoo()
        for a, b, s in zip(sims.row, sims.col, sims.data):
            if a <= b:
                continue
            common = rated[a] & rated[b]
            if self.m > 0 and len(common) < self.m:
                continue
            if a not in self._similarities:
                self._similarities[a] = dict()
            self._similarities[a][b] = s
            if self.shrinkage is not None:
                self._similarities[a][b] *= len(common) / (len(common) + self.shrinkage + 1e-6)

    def _compute_neighbours(self):
        for uid in self.interaction_dataset.unique('uid').values('uid', to_list=True):
            sims = [(self._get_sim(uid, other), other) for other in range(self.n_users) if other != uid]
            self._neighbours[uid] = nlargest(self.k, [p for p in sims if p[0] is not None and p[0] > 0])

    def _get_interaction(self, uid, iid):
        record = self.interaction_dataset.select_one(f'uid == {uid}, iid == {iid}')
        return None if record is None else record['interaction']

    def _predict_default(self, iid):
        rows = self.interaction_dataset.select(f'iid == {iid}')
        return sum(rows.values_list(columns=['interaction'], to_list=True)) / len(rows)

    def _rank(self, uid, iids, n, novelty):
        iids = set(iids)
        if novelty:
            iids = iids.difference(set(self.interaction_dataset.select(f'uid == {uid}').values_list('iid', to_list=True)))
        found = dict()
        for similarity, neighbour in self._neighbours[uid]:
            rows = self.interaction_dataset.select(f'uid == {neighbour}')
            for iid, interaction in rows.values(['iid', 'interaction'], to_list=True):
                if iid in iids:
                    if iid not in found:
                        found[iid] = ([], [])
                    found[iid][0].append(interaction)
                    found[iid][1].append(similarity)
        scored = []
        for iid in iids:
            interactions, similarities = found.get(iid, ([], []))
            if len(interactions) == 0 and self.use_averages:
                score = self._predict_default(iid if self.type == 'user' else uid)
            else:
                score = self.aggregation_fn(interactions, similarities)
            if score is not None:
                scored.append((score, iid))
        return nlargest(n, scored)


class ItemKNN(BaseKNN):
    def __init__(self, **kwds):
        super().__init__(**kwds)
        self.type = 'item'

    def _compute_similarities(self):
        rated = {}
        interactions, uids, iids = [], [], []
        for record in self.interaction_dataset.values():
            u, i, r = record['uid'], record['iid'], record['interaction']
            interactions.append(r)
            uids.append(u)
            iids.append(i)
            if i not in rated:
                rated[i] = set()
            rated[i].add(u)
        sims = self.sim_metric_fn(csr_matrix((interactions, (iids, uids)))).tocoo()
        for a, b, s in zip(sims.row, sims.col, sims.data):
            if a <= b:
                continue
            common = rated[a] & rated[b]
            if self.m > 0 and len(common) < self.m:
                continue
            if a not in self._similarities:
                self._similarities[a] = dict()
            self._similarities[a][b] = s
            if self.shrinkage is not None:
                self._similarities[a][b] *= len(common) / (len(common) + self.shrinkage + 1e-6)

    def _compute_neighbours(self):
        for iid in self.interaction_dataset.unique('iid').values('iid', to_list=True):
            sims = [(self._get_sim(iid, other), other) for other in range(self.n_items) if other != iid]
            self._neighbours[iid] = nlargest(self.k, [p for p in sims if p[0] is not None and p[0] > 0])

    def _get_interaction(self, iid, uid):
        record = self.interaction_dataset.select_one(f'uid == {uid}, iid == {iid}')
        return None if record is None else record['interaction']

    def _predict_default(self, uid):
        rows = self.interaction_dataset.select(f'uid == {uid}')
        return sum(rows.values_list(columns=['interaction'], to_list=True)) / len(rows)

    def _rank(self, uid, iids, n, novelty):
        rows = self.interaction_dataset.select(f'uid == {uid}')
        seen = set(rows.values_list('iid', to_list=True))
        iids = set(iids)
        if novelty:
            iids = iids.difference(seen)
        scored = []
        for iid in iids:
            interactions, similarities = [], []
            for similarity, neighbour in self._neighbours[iid]:
                if neighbour not in seen:
                    continue
                interaction = rows.select_one(f'iid == {neighbour}', 'interaction', to_list=True)
                if interaction is None:
                    continue
                interactions.append(interaction)
                similarities.append(similarity)
            if len(interactions) == 0 and self.use_averages:
                score = self._predict_default(uid)
            else:
                score = self.aggregation_fn(interactions, similarities)
            if score is not None:
                scored.append((score, iid))
        return nlargest(n, scored)


class CDAE(RecommenderABC):
    def __init__(self, hidden_factors=50, corruption_level=0.2, loss='bce', **kwds):
        super().__init__(**kwds)
        self.hidden_factors = hidden_factors
        self.corruption_level = corruption_level
        if loss == 'mse':
            self._loss = tf.losses.MeanSquaredError()
        elif loss == 'bce':
            self._loss = tf.losses.BinaryCrossentropy()
        else:
            raise Exception('unknown loss')

    def _pre_fit(self, learning_rate, neg_ratio, reg_rate, **kwds):
        initial = tf.initializers.GlorotUniform()
        self.W = tf.Variable(initial(shape=[self.n_items, self.hidden_factors]))
        self.W_ = tf.Variable(initial(shape=[self.hidden_factors, self.n_items]))
        self.V = tf.Variable(initial(shape=[self.n_users, self.hidden_factors]))
        self.b = tf.Variable(initial(shape=[self.hidden_factors]))
        self.b_ = tf.Variable(initial(shape=[self.n_items]))
        self._register_trainables([self.W, self.W_, self.V, self.b, self.b_])
        self._sampler = PointSampler(self.interaction_dataset, neg_ratio, self.interaction_threshold, self.seed)

    def _sample_batch(self, batch_size, **kwds):
        return self._sampler.sample(batch_size)

    def _predict_batch(self, batch_samples, **kwds):
        predictions, desired = [], []
        for uid, _, _ in batch_samples:
            p, d = self._reconstruct_for_training(uid)
            predictions.append(p)
            desired.append(d)
        return predictions, desired

    def _reconstruct_for_training(self, uid):
        embedding = tf.nn.embedding_lookup(self.V, uid)
        desired = [1 if i >= self.interaction_threshold else 0
                   for i in self.interaction_dataset.select_user_interaction_vec(uid).toarray().ravel()]
        corrupted = [0. if self._rng.uniform(0, 1) < self.corruption_level else i / (1 - self.corruption_level) for i in desired]
        return self._reconstruct(embedding, corrupted), desired

    def _reconstruct_for_predictions(self, uid):
        embedding = tf.nn.embedding_lookup(self.V, uid)
        desired = [1 if i >= self.interaction_threshold else 0
                   for i in self.interaction_dataset.select_user_interaction_vec(uid).toarray().ravel()]
        return self._reconstruct(embedding, desired).numpy().ravel()

    def _reconstruct(self, user_embedding, input_vector, **kwds):
        hidden = tf.sigmoid(tf.matmul(tf.convert_to_tensor([input_vector], dtype=tf.float32), self.W) + user_embedding + self.b)
        return tf.sigmoid(tf.matmul(hidden, self.W_) + self.b_)

    def _compute_batch_loss(self, predictions, desired_values, **kwds):
        return self._loss(desired_values, predictions)

    def _compute_reg_loss(self, reg_rate, batch_size, trainable_models, trainable_layers, trainable_weights, **kwds):
        return sum([tf.nn.l2_loss(v) for v in [self.W, self.W_, self.V]]) * reg_rate / batch_size

    def _predict(self, uid, iid=None, **kwds):
        if uid is None:
            return None
        scores = self._reconstruct_for_predictions(uid)
        if iid is None:
            return scores
        return scores[iid]

    def _rank(self, uid, iids, n, novelty):
        scores = self._predict(uid)
        if novelty:
            rows = self.interaction_dataset.select(f'uid == {uid}')
            if len(rows) < len(iids):
                iids = set(iids).difference(set(rows.values_list('iid', to_list=True)))
            else:
                iids = set([iid for iid in iids if not rows.exists(f'iid == {iid}')])
        else:
            iids = set(iids)
        return nlargest(n, [(score, iid) for score, iid in zip(scores, range(self.n_items)) if iid in iids])


class DMF(RecommenderABC):
    def __init__(self, user_factors=None, item_factors=None, use_nce=True, l2_norm_vectors=True, **kwds):
        super().__init__(**kwds)
        self.user_factors = [64, 32] if user_factors is None else user_factors
        assert type(self.user_factors) is list
        assert len(self.user_factors) > 0
        self.item_factors = [64, 32] if item_factors is None else item_factors
        assert type(self.item_factors) is list
        assert len(self.item_factors) > 0
        assert self.user_factors[-1] == self.item_factors[-1]
        self.use_nce = use_nce
        self.l2_norm_vectors = l2_norm_vectors
        self._loss = tf.losses.BinaryCrossentropy()

    def _pre_fit(self, learning_rate, neg_ratio, reg_rate, **kwds):
        reg = tf.keras.regularizers.l2(reg_rate)
        self.user_nn = tf.keras.Sequential()
        self.user_nn.add(tf.keras.layers.Dense(self.user_factors[0], activation=tf.nn.relu, input_shape=(self.n_items,),
                                               kernel_regularizer=reg, autocast=False))
        for factor in self.user_factors[1:]:
            self.user_nn.add(tf.keras.layers.Dense(factor, activation=tf.nn.relu, kernel_regularizer=reg))
        self.item_nn = tf.keras.Sequential()
        self.item_nn.add(tf.keras.layers.Dense(self.item_factors[0], activation=tf.nn.relu, input_shape=(self.n_users,),
                                               kernel_regularizer=reg, autocast=False))
        for factor in self.item_factors[1:]:
            self.item_nn.add(tf.keras.layers.Dense(factor, activation=tf.nn.relu, kernel_regularizer=reg))
        self._register_trainables([self.user_nn, self.item_nn])
        self._sampler = PointSampler(self.interaction_dataset, neg_ratio, self.interaction_threshold, self.seed)

    def _sample_batch(self, batch_size, **kwds):
        uids, iids, desired = [], [], []
        for uid, iid, value in self._sampler.sample(batch_size):
            uids.append(uid)
            iids.append(iid)
            desired.append(self._standardize_value(value) if self.use_nce else value)
        users, items = self._preprocess_input(uids, iids)
        return {'user_tensors': users, 'item_tensors': items, 'desired_values': desired}

    def _preprocess_input(self, uids, iids):
        users = tf.convert_to_tensor([self.interaction_dataset.select_user_interaction_vec(uid).toarray().ravel() for uid in uids],
                                     dtype=tf.float32)
        items = tf.convert_to_tensor([self.interaction_dataset.select_item_interaction_vec(iid).toarray().ravel() for iid in iids],
                                     dtype=tf.float32)
        if self.l2_norm_vectors:
            users = tf.nn.l2_normalize(users, axis=1)
            items = tf.nn.l2_normalize(items, axis=1)
        return users, items

    def _predict_batch(self, batch_samples, **kwds):
        users = tf.nn.l2_normalize(self.user_nn(batch_samples['user_tensors']), axis=1)
        items = tf.nn.l2_normalize(self.item_nn(batch_samples['item_tensors']), axis=1)
        return tf.maximum(1e-6, tf.reduce_sum(tf.multiply(users, items), axis=1)), batch_samples['desired_values']

    def _compute_batch_loss(self, predictions, desired_values, **kwds):
        return self._loss(desired_values, predictions)

    def _predict(self, uid, iid, **kwds):
        users, items = self._preprocess_input([uid], [iid])
        scores, _ = self._predict_batch({'user_tensors': users, 'item_tensors': items, 'desired_values': None})
        return self._rescale_value(scores[0])


class Caser(RecommenderABC):
    def __init__(self, L=5, T=3, d=50, n_v=4, n_h=16, act_h=tf.nn.relu, act_mlp=tf.nn.relu, dropout_rate=0.5,
                 sort_column='timestamp', **kwds):
        super().__init__(**kwds)
        self.L = L
        self.T = T
        self.d = d
        self.n_v = n_v
        self.n_h = n_h
        self.act_h = act_h
        self.act_mlp = act_mlp
        self.dropout_rate = dropout_rate
        self.sort_column = sort_column
        self._loss = tf.losses.BinaryCrossentropy()

    def _pre_fit(self, learning_rate, neg_ratio, reg_rate, **kwds):
        reg = tf.keras.regularizers.l2(reg_rate)
        self.user_embeddings = tf.keras.layers.Embedding(self.n_users, self.d, embeddings_regularizer=reg)
        self._register_trainable(self.user_embeddings)
        self.item_embeddings = tf.keras.layers.Embedding(self.n_items, self.d, embeddings_regularizer=reg)
        self._register_trainable(self.item_embeddings)
        self.conv_v = tf.keras.layers.Conv1D(filters=self.n_v, kernel_size=self.L, kernel_regularizer=reg)
        self._register_trainable(self.conv_v)
        self.convs_h = []
        for i in range(self.L):
            self.convs_h.append(tf.keras.layers.Conv1D(filters=self.n_h, kernel_size=i + 1, kernel_regularizer=reg))
        self._register_trainables(self.convs_h)
        self.dropout = tf.keras.layers.Dropout(self.dropout_rate)
        self.dense_0 = tf.keras.layers.Dense(self.d, activation=self.act_mlp, input_shape=(self.d * self.n_v + self.n_h,),
                                             kernel_regularizer=reg)
        self._register_trainable(self.dense_0)
        self.dense_1_W = tf.keras.layers.Embedding(self.n_items, 2 * self.d, embeddings_regularizer=reg)
        self._register_trainable(self.dense_1_W)
        self.dense_1_b = tf.keras.layers.Embedding(self.n_items, 1)
        self._register_trainable(self.dense_1_b)
        self._sampler = ListSampler(self.interaction_dataset, ['uid'], neg_ratio=neg_ratio, n_targets=self.T,
                                    interaction_threshold=self.interaction_threshold, negative_ids_col='iid',
                                    min_positive_records=self.L, max_positive_records=self.L,
                                    sort_column=self.sort_column, seed=self.seed)

    def _sample_batch(self, batch_size, **kwds):
        uids, before, after = [], [], []
        for records, targets, negatives in self._sampler.sample_group_records(batch_size):
            uids.append(int(records[0]['uid']))
            before.append([int(record['iid']) for record in records])
            after.append([int(record['iid']) for record in targets] + negatives)
        return uids, before, after

    def _predict_batch(self, batch_samples, **kwds):
        uids, before, after = batch_samples
        predictions, desired = [], []
        for scores in self._predict_batch_aux(uids, before, after, training=True):
            predictions.append(tf.nn.sigmoid(scores))
            desired.append(tf.convert_to_tensor([1.] * self.T + [0.] * (self.T * self._sampler.neg_ratio)))
        return predictions, desired

    def _predict_batch_aux(self, uid, iids_before, iids_after, training=False):
        items = self.item_embeddings(tf.convert_to_tensor(iids_before))
        users = self.user_embeddings(tf.convert_to_tensor(uid))
        vertical = tf.reshape(self.conv_v(items), [len(uid), -1])
        horizontal = []
        for conv in self.convs_h:
            horizontal.append(tf.squeeze(tf.nn.max_pool1d(self.act_h(conv(items)), self.n_h, self.n_h, 'SAME'), 1))
        features = tf.concat([vertical, tf.concat(horizontal, 1)], 1)
        hidden = self.dense_0(self.dropout(features, training=training))
        hidden = tf.expand_dims(tf.concat([hidden, users], axis=1), 1)
        targets = tf.convert_to_tensor(iids_after)
        return tf.reduce_sum(tf.multiply(hidden, self.dense_1_W(targets)), 2) + tf.squeeze(self.dense_1_b(targets), 2)

    def _compute_batch_loss(self, predictions, desired_values, **kwds):
        return self._loss(desired_values, predictions)

    def _rank(self, uid, iids, n, novelty):
        records = self.interaction_dataset.select(f'uid == {uid}').values_list()
        if self.sort_column in self.interaction_dataset.columns:
            records.sort(key=lambda record: record[self.sort_column])
        own = [record['iid'] for record in records]
        items = list(range(self.n_items))
        scores = self._predict_batch_aux([uid], [own[-self.L:]], [items])[0]
        scored = list(zip(scores, items))
        if novelty:
            own = set(own)
            wanted = [iid for iid in iids if iid not in own]
        else:
            wanted = set(iids)
        return nlargest(n, [(score, item) for score, item in scored if item in wanted])


class EarlyStoppingRuleABC:
    def __init__(self, required_validation_metrics, **kwds):
        self.required_validation_metrics = [] if required_validation_metrics is None else required_validation_metrics
        if len(self.required_validation_metrics) == 0:
            raise Exception('no required metrics')

    def compute(self, epoch_losses, epoch_validation_results, called_epochs_validation_results, **kwds):
        if not isinstance(epoch_validation_results, dict):
            raise InvalidEpochValidationResultsException('not a dict')
        if len(epoch_validation_results.keys()) == 0:
            raise InvalidEpochValidationResultsException('empty')
        if any([not isinstance(r, list) for r in epoch_validation_results.values()]):
            raise InvalidEpochValidationResultsException('not lists')
        if any(['@' in m for m in self.required_validation_metrics]):
            names = {metric: metric for metric in epoch_validation_results.keys()}
        else:
            names = {metric.split('@')[0]: metric for metric in epoch_validation_results.keys()}
        if not set(self.required_validation_metrics).issubset(set(names.keys())):
            raise InvalidEpochValidationResultsException('missing metric')
        results = {name: epoch_validation_results[names[name]] for name in names}
        if not all([len(results[m]) > 0 for m in self.required_validation_metrics]):
            raise InvalidEpochValidationResultsException('no value')
        return self._compute_best_epoch(epoch_losses, results, called_epochs_validation_results)


class MaxValidationValueRule(EarlyStoppingRuleABC):
    def __init__(self, validation_metric, **kwds):
        super().__init__(required_validation_metrics=[validation_metric])
        self.validation_metric = validation_metric

    def _compute_best_epoch(self, epoch_losses, epoch_validation_results, called_epochs_validation_results, **kwds):
        best, value = 0, epoch_validation_results[self.validation_metric][0]
        for i, v in enumerate(epoch_validation_results[self.validation_metric]):
            if v > value:
                value = v
                best = i
        return called_epochs_validation_results[best]

    def stop_training(self, current_epoch, best_computed_epoch, target_epoch, **kwds):
        return False


class LossTrackerSpec:
    def __init__(self):
        self.epoch_losses = []
        self.curr_avg_epoch_loss = 0
        self.epoch_callback_results = {}
        self.called_epochs = []

    def add_epoch_loss(self, loss):
        self.epoch_losses.append(loss)
        self.curr_avg_epoch_loss = self.curr_avg_epoch_loss + (loss - self.curr_avg_epoch_loss) / len(self.epoch_losses)

    def get_epoch_avg_loss(self):
        return self.curr_avg_epoch_loss

    def reset_epoch_losses(self):
        self.epoch_losses = []
        self.curr_avg_epoch_loss = 0

    def add_epoch_callback_result(self, name, result, epoch):
        if name not in self.epoch_callback_results:
            self.epoch_callback_results[name] = []
        self.epoch_callback_results[name].append(result)
        if len(self.called_epochs) == 0 or self.called_epochs[-1] < epoch:
            self.called_epochs.append(epoch)
