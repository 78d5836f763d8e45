RA = 'DRecPy/Recommender/recommender_abc.py'
BK = 'DRecPy/Recommender/Baseline/base_knn.py'
UK = 'DRecPy/Recommender/Baseline/user_knn.py'
IK = 'DRecPy/Recommender/Baseline/item_knn.py'
SM = 'DRecPy/Recommender/Baseline/similarity.py'
AG = 'DRecPy/Recommender/Baseline/aggregation.py'
CD = 'DRecPy/Recommender/cdae.py'
DM = 'DRecPy/Recommender/dmf.py'
CA = 'DRecPy/Recommender/caser.py'
MV = 'DRecPy/Recommender/EarlyStopping/max_validation_value_rule.py'
ES = 'DRecPy/Recommender/EarlyStopping/early_stopping_rule_abc.py'
LT = 'DRecPy/Evaluation/loss_tracker.py'
BUG = {
 # M01
 'm_uid_truthy': ('M01', [(RA, "            prediction = self._predict(uid, iid, **kwds)\n            if prediction is None:", "            prediction = self._predict(uid, iid, **kwds)\n            if not prediction:")]),
 'm_iid_truthy': ('M01', [(RA, "            if iid is not None:\n                iids.append(iid)", "            if iid:\n                iids.append(iid)")]),
 'm_n_items_raw': ('M01', [(RA, "n = kwds.get('n', len(iids))", "n = kwds.get('n', len(item_ids))")]),
 'm_n_default0': ('M01', [(RA, "if n is None: n = self.n_items", "if not n: n = self.n_items")]),
 'm_thr_gt': ('M01', [(RA, "x[0] >= threshold", "x[0] > threshold")]),
 'm_thr_first': ('M01', [(RA, "        return list(filter(lambda x: x[0] >= threshold, ranked_items))", "        kept = []\n        for r, iid in ranked_items:\n            if r < threshold: break\n            kept.append((r, iid))\n        return kept[:-1] if len(kept) == n else kept")]),
 'm_rank_skip': ('M01', [(RA, "            elif not skip_invalid_items:", "            elif skip_invalid_items is None:")]),
 'm_rank_uid': ('M01', [(RA, "        ranked_list = self._rank(uid, iids, n, novelty)\n        return [(r, self.interaction_dataset.iid_to_item(iid)) for r, iid in ranked_list]", "        ranked_list = self._rank(uid, iids, n, novelty)\n        return [(r, item_id) for (r, _), item_id in zip(ranked_list, item_ids)]")]),
 'm_pred_swallow': ('M01', [(RA, "            if not skip_errors: raise e\n", "            if not skip_errors: self._warn(str(e))\n")]),
 'm_rec_novel': ('M01', [(RA, "recs = self._recommend(uid, n, novelty, interaction_threshold)", "recs = self._recommend(uid, n, interaction_threshold is None or novelty, interaction_threshold)")]),
 'm_fitted': ('M01', [(RA, "        assert self.fitted is True, 'The model requires to be fitted before being able to make predictions.'\n        assert self.interaction_dataset.user_to_uid(user_id) is not None, f'User {user_id} was not found.'\n\n        if n is None", "        assert self.interaction_dataset.user_to_uid(user_id) is not None, f'User {user_id} was not found.'\n\n        if n is None")]),
 # M02
 'm_rank_truthy': ('M02', [(RA, "filter(lambda x: x[0] is not None,", "filter(lambda x: x[0],")]),
 'm_rank_first_n': ('M02', [(RA, "        pred_list = filter(lambda x: x[0] is not None, [(self._predict(uid, iid), iid) for iid in iids])\n        return nlargest(n, pred_list)", "        pred_list = filter(lambda x: x[0] is not None, [(self._predict(uid, iid), iid) for iid in iids])\n        return sorted(list(pred_list)[:n], reverse=True)")]),
 'm_caser_novel': ('M02', [(CA, "        if novelty:\n            user_iids_set = set(user_iids)", "        if novelty:\n            user_iids_set = set(user_iids[-self.L:])")]),
 'm_caser_sort': ('M02', [(CA, "user_records.sort(key=lambda x: x[self.sort_column])", "user_records.sort(key=lambda x: x[self.sort_column], reverse=True)")]),
 'm_cdae_lt': ('M02', [(CD, "iids = set([iid for iid in iids if not user_ds.exists(f'iid == {iid}')])", "iids = set([iid for iid in iids if user_ds.exists(f'iid == {iid}')])")]),
 'm_cdae_else': ('M02', [(CD, "            else:\n                iids = set([iid for iid in iids if not user_ds.exists(f'iid == {iid}')])", "            else:\n                iids = set(iids)")]),
 'm_cdae_items': ('M02', [(CD, "for prediction, iid in zip(predictions, range(self.n_items)) if iid in iids]", "for prediction, iid in zip(predictions, sorted(iids))]")]),
 'm_uknn_avg': ('M02', [(UK, "            if len(interactions) == 0 and self.use_averages:", "            if len(interactions) == 0:")]),
 'm_uknn_default': ('M02', [(UK, "pred = self._predict_default(iid if self.type == 'user' else uid)", "pred = self._predict_default(uid if self.type == 'user' else iid)")]),
 'm_uknn_setdefault': ('M02', [(UK, "                if iid not in tmp_iid_info: tmp_iid_info[iid] = ([], [])\n", "                tmp_iid_info[iid] = ([], [])\n")]),
 'm_uknn_brk': ('M02', [(UK, "                if iid not in iids: continue", "                if iid not in iids: break")]),
 'm_iknn_sim': ('M02', [(IK, "                interactions.append(interaction)\n                similarities.append(similarity)\n\n            if len(interactions) == 0 and self.use_averages:\n                pred = self._predict_default(uid)", "                interactions.append(interaction)\n                similarities.insert(0, similarity)\n\n            if len(interactions) == 0 and self.use_averages:\n                pred = self._predict_default(uid)")]),
 'm_iknn_none': ('M02', [(IK, "            if pred is not None:\n                pred_list.append((pred, iid))", "            if pred:\n                pred_list.append((pred, iid))")]),
 'm_iknn_n': ('M02', [(IK, "        return nlargest(n, pred_list)", "        return nlargest(min(n, self.k), pred_list)")]),
 # M03
 'm_k_after': ('M03', [(UK, "            self._neighbours[uid] = nlargest(self.k, filter(\n                lambda x: x[0] is not None and x[0] > 0,\n                [(self._get_sim(uid, uid2), uid2) for uid2 in range(self.n_users) if uid2 != uid]\n            ))", "            self._neighbours[uid] = [x for x in nlargest(self.k, [(self._get_sim(uid, uid2), uid2) for uid2 in range(self.n_users)])\n                                     if x[0] > 0 and x[1] != uid]")]),
 'm_self_neigh': ('M03', [(IK, " if iid2 != iid]", "]")]),
 'm_neigh_range': ('M03', [(UK, "for uid2 in range(self.n_users) if uid2 != uid]", "for uid2 in range(uid) if uid2 != uid]")]),
 'm_m_lt': ('M03', [(IK, "len(co_ratings) < self.m:", "len(co_ratings) <= self.m:")]),
 'm_shrink_once': ('M03', [(UK, "len(co_ratings) / (len(co_ratings) + self.shrinkage + 1e-6)", "len(co_ratings) / (self.m + self.shrinkage + 1e-6)")]),
 'm_symm': ('M03', [(UK, "            if u1 <= u2:  # symmetric matrix - only need 1/2 of the values", "            if u1 < u2 or u1 - u2 > self.n_items:  # symmetric matrix - only need 1/2 of the values")]),
 'm_getsim_key': ('M03', [(BK, "        if id1 not in self._similarities or id2 not in self._similarities[id1]: return 0", "        if id1 not in self._similarities or id2 not in self._similarities: return 0")]),
 'm_getsim_tmp': ('M03', [(BK, "        id2 = min(tmp, id2)", "        id2 = min(id1, id2)")]),
 'm_default_len': ('M03', [(UK, "/ len(item_records)", "/ self.n_users")]),
 'm_default_uid': ('M03', [(IK, "        user_records = self.interaction_dataset.select(f'uid == {uid}')\n        return sum", "        user_records = self.interaction_dataset.select(f'iid == {uid}')\n        return sum")]),
 'm_pred_zero': ('M03', [(BK, "            if interaction is None: continue", "            if not interaction: continue")]),
 'm_pred_swap': ('M03', [(BK, "interaction = self._get_interaction(neighbour, iid if self.type == 'user' else uid)", "interaction = self._get_interaction(neighbour, uid if self.type == 'user' else iid)")]),
 'm_stale': ('M03', [(BK, "    def _pre_fit(self, learning_rate, neg_ratio, reg_rate, **kwds):\n        self._similarities = dict()\n        self._neighbours = dict()\n", "    def _pre_fit(self, learning_rate, neg_ratio, reg_rate, **kwds):\n        self._neighbours = dict()\n")]),
 # M04
 'm_cos_den': ('M04', [(SM, "                    sum_denominator_j += j_ratings[j_idx] ** 2\n                    i_item_ctd", "                    sum_denominator_j += j_ratings[i_idx] ** 2\n                    i_item_ctd")]),
 'm_pear_mirror': ('M04', [(SM, "            if sum_denominator_i == 0 or sum_denominator_j == 0: continue\n\n            s = sum_numerator / (math.sqrt(sum_denominator_i) * math.sqrt(sum_denominator_j))\n            rows.append(i), cols.append(j), data.append(s)\n            if i != j: rows.append(j), cols.append(i), data.append(s)", "            if sum_denominator_i == 0 or sum_denominator_j == 0: continue\n\n            s = sum_numerator / (math.sqrt(sum_denominator_i) * math.sqrt(sum_denominator_j))\n            rows.append(i), cols.append(j), data.append(s)")]),
 'm_pear_den': ('M04', [(SM, "            if sum_denominator_i == 0 or sum_denominator_j == 0: continue", "            if sum_denominator_i == 0 and sum_denominator_j == 0: continue")]),
 'm_pear_avg': ('M04', [(SM, "            avg_ratings_j /= len(common_ratings)\n", "            avg_ratings_j /= len(j_items)\n")]),
 'm_jacc_iter': ('M04', [(SM, "                s = common / (len(i_items) + len(j_items) - common)", "                s = common / (len(i_items) + len(j_items))")]),
 'm_jacc_bool': ('M04', [(SM, "        matrix = matrix.astype(bool).astype(int)\n", "        matrix = matrix.astype(int)\n")]),
 'm_jacc_start': ('M04', [(SM, "            i_ratings, i_items = matrix.data[i], user_items[i]\n            for j in range(i, n):\n                j_ratings, j_items = matrix.data[j], user_items[j]\n                common", "            i_ratings, i_items = matrix.data[i], user_items[i]\n            for j in range(i + 1, n):\n                j_ratings, j_items = matrix.data[j], user_items[j]\n                common")] if False else [(SM, "                if common == 0: continue", "                if common <= 1: continue")]),
 # M05
 'm_min1': ('M05', [(RA, "        if self.min_interaction == 1: self.min_interaction = 0\n", "        if self.min_interaction == 1 and self.verbose: self.min_interaction = 0\n")]),
 'm_ids_orig': ('M05', [(RA, "        self.interaction_dataset.assign_internal_ids()\n", "        interaction_dataset.assign_internal_ids()\n")]),
 'm_pre_opt': ('M05', [(RA, "        self._register_optimizer(tf.keras.optimizers.Adam(learning_rate=learning_rate))  # default optimizer\n        self._pre_fit(learning_rate, neg_ratio, reg_rate, **kwds)\n", "        self._pre_fit(learning_rate, neg_ratio, reg_rate, **kwds)\n        self._register_optimizer(tf.keras.optimizers.Adam(learning_rate=learning_rate))  # default optimizer\n")]),
 'm_store_before': ('M05', [(RA, "            self._update_weights(gradients, trainable_weights)\n            self._store_epoch_weights()\n", "            self._store_epoch_weights()\n            self._update_weights(gradients, trainable_weights)\n")]),
 'm_nocallback': ('M05', [(RA, "            if self.verbose or early_stopping_rule is not None:\n", "            if self.verbose:\n")]),
 'm_epochs_off': ('M05', [(RA, "_iter = tqdm(range(1, epochs+1), total=epochs,", "_iter = tqdm(range(1, epochs), total=epochs,")]),
 'm_freq': ('M05', [(RA, "if early_stopping_rule is not None and e % early_stopping_freq == 0:", "if early_stopping_rule is not None and e % epoch_callback_freq == 0:")]),
 'm_reset_train': ('M05', [(RA, "        self.trainable_weights, self.trainable_layers, self.trainable_models = [], [], []\n", "        self.trainable_weights, self.trainable_layers = [], []\n")]),
 'm_revert_idx': ('M05', [(RA, "        target_weights = self.epoch_weights[epoch]", "        target_weights = self.epoch_weights[epoch - 1]")]),
 'm_revert_zip': ('M05', [(RA, "        for layer, weights in zip(self.trainable_layers, target_weights['trainable_layers']):", "        for layer, weights in zip(self.trainable_layers, target_weights['trainable_models']):")]),
 'm_ew_reset': ('M05', [(RA, "        self.epoch_weights = []\n        self._store_epoch_weights()", "        self._store_epoch_weights()")]),
 'm_trainreg': ('M05', [(RA, "        elif tf.is_tensor(variable):\n            self.trainable_weights.append(variable)", "        elif tf.is_tensor(variable):\n            self.trainable_weights = [variable]")]),
 'm_best_none': ('M05', [(RA, "        if early_stopping_best_epoch is not None and early_stopping_best_epoch != epochs:", "        if early_stopping_best_epoch and early_stopping_best_epoch != epochs:")]),
 'm_max_before': ('M05', [(RA, "self.max_interaction = self.interaction_dataset.max('interaction')", "self.max_interaction = self.max_interaction or self.interaction_dataset.max('interaction')")]),
 'm_cb_weights': ('M05', [(RA, "            'trainable_weights': copy.deepcopy(self.trainable_weights),", "            'trainable_weights': list(self.trainable_weights),")]),
 # M06
 'm_best_epoch_idx': ('M06', [(MV, "        return called_epochs_validation_results[best_epoch_idx]", "        return best_epoch_idx")]),
 'm_best_init0': ('M06', [(MV, "        best_epoch_val_res = epoch_validation_results[self.validation_metric][0]\n", "        best_epoch_val_res = 0\n")]),
 'm_at_all': ('M06', [(ES, 'if any(map(lambda val_metric: "@" in val_metric', 'if all(map(lambda val_metric: "@" in val_metric')]),
 'm_trans': ('M06', [(ES, "epoch_validation_results[validation_metrics[val_metric]]\n", "epoch_validation_results.get(val_metric, epoch_validation_results[validation_metrics[val_metric]])\n")]),
 'm_called': ('M06', [(LT, "        if len(self.called_epochs) == 0 or self.called_epochs[-1] < epoch:", "        if len(self.called_epochs) == 0 or self.called_epochs[0] < epoch:")]),
 'm_called2': ('M06', [(LT, "        self.epoch_callback_results[name].append(result)\n        if len(self.called_epochs) == 0 or self.called_epochs[-1] < epoch:\n            self.called_epochs.append(epoch)", "        self.epoch_callback_results[name].append(result)\n        self.called_epochs.append(epoch)")]),
 'm_lt_reset': ('M06', [(LT, "        if name not in self.epoch_callback_results:\n            self.epoch_callback_results[name] = []\n", "        if not self.epoch_callback_results.get(name):\n            self.epoch_callback_results = {name: []}\n")]),
 # M07
 'm_dmf_nce': ('M07', [(DM, "self._standardize_value(interaction_value) if self.use_nce else interaction_value)", "self._standardize_value(interaction_value) if self.use_nce and interaction_value > 0 else interaction_value)")]),
 'm_dmf_norm': ('M07', [(DM, "            item_tensors = tf.nn.l2_normalize(item_tensors, axis=1)", "            item_tensors = tf.nn.l2_normalize(user_tensors, axis=1)")]),
 'm_dmf_axis': ('M07', [(DM, "        norm_item_reps = tf.nn.l2_normalize(item_reps, axis=1)", "        norm_item_reps = tf.nn.l2_normalize(item_reps, axis=0)")]),
 'm_dmf_pred': ('M07', [(DM, "        return self._rescale_value(preds[0])", "        return self._rescale_value(preds[0]) if self.use_nce else preds[0]")]),
 'm_dmf_swap': ('M07', [(DM, "return {'user_tensors': user_tensors, 'item_tensors': item_tensors, 'desired_values': desired_values}", "return {'user_tensors': item_tensors, 'item_tensors': user_tensors, 'desired_values': desired_values}")]),
 'm_cdae_thr': ('M07', [(CD, "        desired_vector = [1 if i >= self.interaction_threshold else 0 for i in\n                          self.interaction_dataset.select_user_interaction_vec(uid).toarray().ravel()]\n        return", "        desired_vector = [1 if i > self.interaction_threshold else 0 for i in\n                          self.interaction_dataset.select_user_interaction_vec(uid).toarray().ravel()]\n        return")]),
 'm_cdae_target': ('M07', [(CD, "return self._reconstruct(user_embedding, corrupted_vector), desired_vector", "return self._reconstruct(user_embedding, corrupted_vector), corrupted_vector")]),
 'm_cdae_scale': ('M07', [(CD, "else i / (1 - self.corruption_level) for i", "else i for i")]),
 'm_cdae_reg': ('M07', [(CD, "for v in [self.W, self.W_, self.V]]) * reg_rate / batch_size", "for v in [self.W, self.W_]]) * reg_rate / batch_size")]),
 'm_caser_targets': ('M07', [(CA, "desired_preds = [1.] * self.T + [0.] * (self.T * self._sampler.neg_ratio)", "desired_preds = [1.] * self.T + [0.] * self._sampler.neg_ratio")]),
 'm_caser_order': ('M07', [(CA, "iids_after.append([int(record['iid']) for record in target_user_records] + negative_iids)", "iids_after.append(negative_iids + [int(record['iid']) for record in target_user_records])")]),
 'm_caser_training': ('M07', [(CA, "self._predict_batch_aux(uids, iids_before, iids_after, training=True)", "self._predict_batch_aux(uids, iids_before, iids_after)")]),
 'm_caser_bias': ('M07', [(CA, "tf.reduce_sum(tf.multiply(concat_dense_1_input, w_), 2) + tf.squeeze(b_, 2)", "tf.reduce_sum(tf.multiply(concat_dense_1_input, w_), 2)")]),
 'm_scale': ('M07', [(RA, "return (value - self.min_interaction) / (self.max_interaction - self.min_interaction)", "return value / self.max_interaction")]),
 'm_rescale': ('M07', [(RA, "return self.min_interaction + (self.max_interaction - self.min_interaction) * value", "return self.max_interaction * value")]),
 'm_loss_swap': ('M07', [(DM, "return self._loss(desired_values, predictions)", "return self._loss(predictions, desired_values)")]),
 # M08
 'm_itemf': ('M08', [(DM, "        self.item_factors = item_factors\n", "        self.item_factors = user_factors\n")]),
 'm_factors': ('M08', [(DM, "for item_factor in self.item_factors[1:]:", "for item_factor in self.user_factors[1:]:")]),
 'm_reg1': ('M08', [(DM, "            self.item_nn.add(tf.keras.layers.Dense(item_factor, activation=tf.nn.relu, kernel_regularizer=l2_reg))", "            self.item_nn.add(tf.keras.layers.Dense(item_factor, activation=tf.nn.relu))")]),
 'm_shape': ('M08', [(DM, "input_shape=(self.n_users,)", "input_shape=(self.n_items,)")]),
 'm_cdae_reg2': ('M08', [(CD, "[self.W, self.W_, self.V, self.b, self.b_]", "[self.W, self.W_, self.V, self.b]")]),
 'm_knn_k': ('M08', [(BK, "        self.m = m\n", "        self.m = min(m, k)\n")]),
 'm_knn_use': ('M08', [(BK, "        self.use_averages = use_averages\n", "        self.use_averages = use_averages and shrinkage is not None\n")]),
 'm_caser_sampler': ('M08', [(CA, "min_positive_records=self.L, max_positive_records=self.L,", "min_positive_records=self.L, max_positive_records=self.L + self.T,")]),
 'm_thr': ('M08', [(RA, "kwds.get('interaction_threshold', 1e-3)", "kwds.get('interaction_threshold') or 1e-3")]),
 'm_msd': ('M08', [(BK, "            self.sim_metric_fn = cosine_sim_cf\n", "            self.sim_metric_fn = cosine_sim\n")]),
 'm_reg_zero': ('M08', [(CA, "self.item_embeddings = tf.keras.layers.Embedding(self.n_items, self.d, embeddings_regularizer=l2_reg)", "self.item_embeddings = tf.keras.layers.Embedding(self.n_users, self.d, embeddings_regularizer=l2_reg)")]),
}
