R = 'DRecPy/Recommender/recommender_abc.py'
K = 'DRecPy/Recommender/Baseline/base_knn.py'
U = 'DRecPy/Recommender/Baseline/user_knn.py'
I = 'DRecPy/Recommender/Baseline/item_knn.py'
S = 'DRecPy/Recommender/Baseline/similarity.py'
G = 'DRecPy/Recommender/Baseline/aggregation.py'
C = 'DRecPy/Recommender/cdae.py'
D = 'DRecPy/Recommender/dmf.py'
Z = 'DRecPy/Recommender/caser.py'
E = 'DRecPy/Recommender/EarlyStopping/early_stopping_rule_abc.py'
X = 'DRecPy/Recommender/EarlyStopping/max_validation_value_rule.py'
L = 'DRecPy/Evaluation/loss_tracker.py'
REF = {
 'rec_thr_lc': [(R, "        return list(filter(lambda x: x[0] >= threshold, ranked_items))", "        return [pair for pair in ranked_items if not pair[0] < threshold]")],
 'rec_thr_loop': [(R, "        if threshold is None:\n            return ranked_items\n        return list(filter(lambda x: x[0] >= threshold, ranked_items))",
                   "        if threshold is not None:\n            kept = []\n            for score, iid in ranked_items:\n                if score >= threshold:\n                    kept.append((score, iid))\n            return kept\n        return ranked_items")],
 'rec_uid_once': [(R, "        assert self.interaction_dataset.user_to_uid(user_id) is not None, f'User {user_id} was not found.'\n\n        if n is None: n = self.n_items\n\n        uid = self.interaction_dataset.user_to_uid(user_id)\n",
                   "        uid = self.interaction_dataset.user_to_uid(user_id)\n        assert uid is not None, f'User {user_id} was not found.'\n\n        if n is None:\n            n = self.n_items\n")],
 'rec_map': [(R, "        return [(r, self.interaction_dataset.iid_to_item(iid)) for r, iid in recs]", "        result = []\n        for rec in recs:\n            result.append((rec[0], self.interaction_dataset.iid_to_item(rec[1])))\n        return result")],
 'rank_helper': [(R, "        n = kwds.get('n', len(iids))\n", "        n = kwds['n'] if 'n' in kwds else len(iids)\n"),
                 (R, "        return [(r, self.interaction_dataset.iid_to_item(iid)) for r, iid in ranked_list]", "        return self._externalise(ranked_list)\n\n    def _externalise(self, pairs):\n        ds = self.interaction_dataset\n        return [(value, ds.iid_to_item(internal)) for value, internal in pairs]")],
 'rank_cond': [(R, "            if iid is not None:\n                iids.append(iid)\n            elif not skip_invalid_items:\n                raise Exception(f'Item {item_id} was not found.')",
                "            if iid is None:\n                if skip_invalid_items:\n                    continue\n                raise Exception(f'Item {item_id} was not found.')\n            iids.append(iid)")],
 'base_rank_lc': [(R, "        pred_list = filter(lambda x: x[0] is not None, [(self._predict(uid, iid), iid) for iid in iids])\n        return nlargest(n, pred_list)",
                   "        pred_list = []\n        for iid in iids:\n            value = self._predict(uid, iid)\n            if value is not None:\n                pred_list.append((value, iid))\n        return nlargest(n, pred_list)")],
 'base_rank_minus': [(R, "            iids = set(iids).difference(set(rated_items))\n\n        pred_list = filter", "            iids = set(iids) - set(rated_items)\n\n        pred_list = filter")],
 'predict_inline': [(R, "            prediction = self._predict(uid, iid, **kwds)\n            if prediction is None:\n                raise", "            result = self._predict(uid, iid, **kwds)\n            prediction = result\n            if result is None:\n                raise")],
 'scale_span': [(R, "        return (value - self.min_interaction) / (self.max_interaction - self.min_interaction)", "        low, span = self.min_interaction, self.max_interaction - self.min_interaction\n        return (value - low) / span"),
                (R, "        return self.min_interaction + (self.max_interaction - self.min_interaction) * value", "        low, span = self.min_interaction, self.max_interaction - self.min_interaction\n        return span * value + low")],
 'upd_w_tuple': [(R, "            if tf.is_tensor(gradient):\n                gradient = [gradient]\n            if tf.is_tensor(trainable_var):\n                trainable_var = [trainable_var]\n            self.optimizer.apply_gradients(zip(gradient, trainable_var))",
                  "            grads = [gradient] if tf.is_tensor(gradient) else gradient\n            variables = [trainable_var] if tf.is_tensor(trainable_var) else trainable_var\n            self.optimizer.apply_gradients(zip(grads, variables))")],
 'store_w': [(R, "        self.epoch_weights.append({\n            'trainable_weights': copy.deepcopy(self.trainable_weights),\n            'trainable_layers': [layer.get_weights() for layer in self.trainable_layers],\n            'trainable_models': [model.get_weights() for model in self.trainable_models]\n        })",
              "        snapshot = dict()\n        snapshot['trainable_weights'] = copy.deepcopy(self.trainable_weights)\n        snapshot['trainable_layers'] = [x.get_weights() for x in self.trainable_layers]\n        snapshot['trainable_models'] = [x.get_weights() for x in self.trainable_models]\n        self.epoch_weights.append(snapshot)")],
 'revert_order': [(R, "        for model, weights in zip(self.trainable_models, target_weights['trainable_models']):\n            model.set_weights(weights)\n        for layer, weights in zip(self.trainable_layers, target_weights['trainable_layers']):\n            layer.set_weights(weights)\n",
                   "        for name, targets in (('trainable_layers', self.trainable_layers), ('trainable_models', self.trainable_models)):\n            for target, weights in zip(targets, target_weights[name]):\n                target.set_weights(weights)\n")],
 'fit_local': [(R, "        self.interaction_dataset = interaction_dataset\n        if copy_dataset:\n            self._info('Cloning new dataset instance...')\n            self.interaction_dataset = interaction_dataset.copy()\n",
                "        if copy_dataset:\n            self._info('Cloning new dataset instance...')\n            interaction_dataset = interaction_dataset.copy()\n        self.interaction_dataset = interaction_dataset\n")],
 'fit_min_local': [(R, "        self.min_interaction = self.interaction_dataset.min('interaction')\n        if self.min_interaction == 1: self.min_interaction = 0\n", "        lowest = self.interaction_dataset.min('interaction')\n        self.min_interaction = 0 if lowest == 1 else lowest\n")],
 'fit_order': [(R, "        self.n_users = self.interaction_dataset.count_unique('uid')\n        self.n_items = self.interaction_dataset.count_unique('iid')\n        self.n_rows = len(self.interaction_dataset)\n",
                "        ds = self.interaction_dataset\n        self.n_rows = len(ds)\n        self.n_items, self.n_users = ds.count_unique('iid'), ds.count_unique('uid')\n")],
 'fit_kwds': [(R, "        if kwds.get('optimizer', None) is not None:  # allow forcing custom optimizer\n            self._register_optimizer(kwds.get('optimizer'))\n", "        custom = kwds.get('optimizer')\n        if custom is not None:\n            self._register_optimizer(custom)\n")],
 'fit_watch': [(R, "                for trainable_weight in trainable_weights:\n                    tape.watch(trainable_weight)\n", "                for w in trainable_weights: tape.watch(w)\n")],
 'fit_loss': [(R, "                loss = self._compute_batch_loss(predictions, desired_values, **kwds) + \\\n                    self._compute_reg_loss(reg_rate, len(batch_samples), self.trainable_models, self.trainable_layers, self.trainable_weights)\n",
               "                loss = self._compute_batch_loss(predictions, desired_values, **kwds)\n                loss = loss + self._compute_reg_loss(reg_rate, len(batch_samples), self.trainable_models,\n                                                     self.trainable_layers, self.trainable_weights)\n")],
 'fit_fitted_early': [(R, "        if len(self.trainable_weights) == 0 and len(self.trainable_layers) == 0 and len(self.trainable_models) == 0:", "        if not (self.trainable_weights or self.trainable_layers or self.trainable_models):")],
 'fit_es_helper': [(R, "        if early_stopping_rule is not None and e % early_stopping_freq != 0:  # not already computed on last epoch\n            try:\n                early_stopping_best_epoch = early_stopping_rule.compute(self._loss_tracker.epoch_losses,\n                                                                        self._loss_tracker.epoch_callback_results,\n                                                                        self._loss_tracker.called_epochs)\n                progress",
                    "        if early_stopping_rule is not None and e % early_stopping_freq != 0:  # not already computed on last epoch\n            try:\n                early_stopping_best_epoch = self._best_epoch(early_stopping_rule)\n                progress"),
                   (R, "    def _register_trainable(self, variable):", "    def _best_epoch(self, rule):\n        tracker = self._loss_tracker\n        return rule.compute(tracker.epoch_losses, tracker.epoch_callback_results, tracker.called_epochs)\n\n    def _register_trainable(self, variable):")],
 'fit_single_cb': [(R, "        if early_stopping_best_epoch is not None and early_stopping_best_epoch != epochs:\n", "        if not (early_stopping_best_epoch is None or early_stopping_best_epoch == epochs):\n")],
 'reg_elif': [(R, "        if variable is None:\n            raise Exception('Cannot register None as a trainable variable.')\n\n        if isinstance(variable, tf.keras.models.Model):\n            self.trainable_models.append(variable)\n        elif",
               "        if variable is None:\n            raise Exception('Cannot register None as a trainable variable.')\n        elif isinstance(variable, tf.keras.models.Model):\n            self.trainable_models += [variable]\n        elif")],
 'knn_predict_zip': [(K, "        if len(interactions) == 0 and self.use_averages:\n            return self._predict_default(iid if self.type == 'user' else uid)\n\n        return self.aggregation_fn(interactions, similarities)",
                      "        if interactions or not self.use_averages:\n            return self.aggregation_fn(interactions, similarities)\n\n        return self._predict_default(iid if self.type == 'user' else uid)")],
 'knn_predict_loc': [(K, "        interactions, similarities = [], []\n        for similarity, neighbour in self._neighbours[uid if self.type == 'user' else iid]:\n            interaction = self._get_interaction(neighbour, iid if self.type == 'user' else uid)\n            if interaction is None: continue\n            interactions.append(interaction)\n            similarities.append(similarity)\n",
                      "        if self.type == 'user':\n            entity, other = uid, iid\n        else:\n            entity, other = iid, uid\n        interactions, similarities = [], []\n        for similarity, neighbour in self._neighbours[entity]:\n            interaction = self._get_interaction(neighbour, other)\n            if interaction is not None:\n                interactions.append(interaction)\n                similarities.append(similarity)\n")],
 'knn_sim_if': [(K, "        tmp = id1\n        id1 = max(id1, id2)\n        id2 = min(tmp, id2)\n", "        id1, id2 = max(id1, id2), min(id1, id2)\n")],
 'knn_sim_get': [(K, "        if id1 not in self._similarities or id2 not in self._similarities[id1]: return 0\n        return self._similarities[id1][id2]", "        row = self._similarities.get(id1, {})\n        return row.get(id2, 0)")],
 'knn_sim_cond': [(K, "        if id1 not in self._similarities or id2 not in self._similarities[id1]: return 0\n        return self._similarities[id1][id2]", "        if id1 in self._similarities and id2 in self._similarities[id1]:\n            return self._similarities[id1][id2]\n        return 0")],
 'knn_metric_map': [(K, "        if sim_metric == 'adjusted_cosine':\n            self.sim_metric_fn = adjusted_cosine_sim\n        elif sim_metric == 'cosine':\n            self.sim_metric_fn = cosine_sim\n        elif", "        if sim_metric == 'cosine':\n            self.sim_metric_fn = cosine_sim\n        elif sim_metric == 'adjusted_cosine':\n            self.sim_metric_fn = adjusted_cosine_sim\n        elif")],
 'u_sims_setdefault': [(U, "            if u not in user_rated_items:\n                user_rated_items[u] = set()\n\n            user_rated_items[u].add(i)\n", "            user_rated_items.setdefault(u, set()).add(i)\n")],
 'u_sims_pos': [(U, "            if u1 <= u2:  # symmetric matrix - only need 1/2 of the values\n                continue\n\n            co_ratings = user_rated_items[u1] & user_rated_items[u2]\n            if self.m > 0 and len(co_ratings) < self.m:  # not enough co-ratings\n                continue\n\n            if u1 not in self._similarities: self._similarities[u1] = dict()\n            self._similarities[u1][u2] = s\n\n            if self.shrinkage is not None:\n                self._similarities[u1][u2] *= len(co_ratings) / (len(co_ratings) + self.shrinkage + 1e-6)\n",
                 "            if u1 > u2:\n                n_co = len(user_rated_items[u1].intersection(user_rated_items[u2]))\n                if self.m > 0 and n_co < self.m:\n                    continue\n\n                if self.shrinkage is not None:\n                    s *= n_co / (n_co + self.shrinkage + 1e-6)\n                if u1 not in self._similarities:\n                    self._similarities[u1] = dict()\n                self._similarities[u1][u2] = s\n")],
 'u_neigh_lc': [(U, "            self._neighbours[uid] = nlargest(self.k, filter(\n                lambda x: x[0] is not None and x[0] > 0,\n                [(self._get_sim(uid, uid2), uid2) for uid2 in range(self.n_users) if uid2 != uid]\n            ))",
                 "            candidates = []\n            for other in range(self.n_users):\n                if other == uid:\n                    continue\n                sim = self._get_sim(uid, other)\n                if sim is not None and sim > 0:\n                    candidates.append((sim, other))\n            self._neighbours[uid] = nlargest(self.k, candidates)")],
 'u_rank_info': [(U, "                if iid not in iids: continue\n                if iid not in tmp_iid_info: tmp_iid_info[iid] = ([], [])\n                tmp_iid_info[iid][0].append(interaction)\n                tmp_iid_info[iid][1].append(similarity)\n",
                  "                if iid in iids:\n                    if iid not in tmp_iid_info:\n                        tmp_iid_info[iid] = ([], [])\n                    found = tmp_iid_info[iid]\n                    found[0].append(interaction)\n                    found[1].append(similarity)\n")],
 'u_rank_pred': [(U, "            if pred is not None:\n                pred_list.append((pred, iid))\n\n        return nlargest(n, pred_list)", "            if pred is None:\n                continue\n            pred_list.append((pred, iid))\n\n        return nlargest(n, pred_list)")],
 'u_get_int': [(U, "        return None if record is None else record['interaction']", "        if record is not None:\n            return record['interaction']\n        return None")],
 'u_default': [(U, "        return sum(item_records.values_list(columns=['interaction'], to_list=True)) / len(item_records)", "        ratings = item_records.values_list(columns=['interaction'], to_list=True)\n        return sum(ratings) / len(item_records)")],
 'agg_mean': [(G, "    count, interaction_sum = 0, 0\n\n    for interaction in interactions:\n        interaction_sum += interaction\n        count += 1\n\n    return interaction_sum / count if count > 0 else None", "    if len(interactions) == 0:\n        return None\n    return sum(interactions) / len(interactions)")],
 'agg_wmean': [(G, "    return interaction_sum / sim_sum if sim_sum > 0 else None", "    if sim_sum <= 0:\n        return None\n    return interaction_sum / sim_sum")],
 'sim_idx': [(S, "                    i_idx = i_items[i_item_ctd][1]\n                    j_idx = j_items[j_item_ctd][1]\n                    sum_numerator += i_ratings[i_idx] * j_ratings[j_idx]\n                    sum_denominator_i += i_ratings[i_idx] ** 2\n                    sum_denominator_j += j_ratings[j_idx] ** 2\n",
              "                    i_rating = i_ratings[i_items[i_item_ctd][1]]\n                    j_rating = j_ratings[j_items[j_item_ctd][1]]\n                    sum_numerator += i_rating * j_rating\n                    sum_denominator_i += i_rating * i_rating\n                    sum_denominator_j += j_rating * j_rating\n")],
 'sim_jacc_names': [(S, "        row_sums = intersection.diagonal()\n        row_sums = row_sums[:, None] + row_sums\n        return csr_matrix(intersection / (row_sums - intersection))", "        sizes = intersection.diagonal()\n        union = sizes[:, None] + sizes - intersection\n        return csr_matrix(intersection / union)")],
 'sim_conv': [(S, "def msd(matrix):\n    if type(matrix) is not csr_matrix:\n        matrix = csr_matrix(matrix)\n", "def msd(matrix):\n    if not isinstance(matrix, csr_matrix):\n        matrix = csr_matrix(matrix)\n")],
 'cdae_pred': [(C, "        predictions = self._reconstruct_for_predictions(uid)\n        return predictions if iid is None else predictions[iid]", "        predictions = self._reconstruct_for_predictions(uid)\n        if iid is not None:\n            return predictions[iid]\n        return predictions")],
 'cdae_rank_enum': [(C, "        pred_list = [(prediction, iid) for prediction, iid in zip(predictions, range(self.n_items)) if iid in iids]", "        pred_list = []\n        for prediction, iid in zip(predictions, range(self.n_items)):\n            if iid in iids:\n                pred_list.append((prediction, iid))")],
 'cdae_rec': [(C, "        hidden_layer = tf.sigmoid(tf.matmul(tf.convert_to_tensor([input_vector], dtype=tf.float32), self.W) +\n                                  user_embedding + self.b)  # I x K (k = hidden factors)\n", "        inputs = tf.convert_to_tensor([input_vector], dtype=tf.float32)\n        hidden_layer = tf.sigmoid(tf.matmul(inputs, self.W) + user_embedding + self.b)\n")],
 'dmf_batch': [(D, "        for uid, iid, interaction_value in self._sampler.sample(batch_size):\n            uids.append(uid)\n            iids.append(iid)\n            desired_values.append(self._standardize_value(interaction_value) if self.use_nce else interaction_value)\n",
                "        for uid, iid, value in self._sampler.sample(batch_size):\n            if self.use_nce:\n                value = self._standardize_value(value)\n            uids.append(uid)\n            iids.append(iid)\n            desired_values.append(value)\n")],
 'dmf_pre': [(D, "        user_vecs = [self.interaction_dataset.select_user_interaction_vec(uid).toarray().ravel() for uid in uids]\n        item_vecs = [self.interaction_dataset.select_item_interaction_vec(iid).toarray().ravel() for iid in iids]\n\n        user_tensors = tf.convert_to_tensor(user_vecs, dtype=tf.float32)\n        item_tensors = tf.convert_to_tensor(item_vecs, dtype=tf.float32)\n",
              "        ds = self.interaction_dataset\n        user_tensors = tf.convert_to_tensor([ds.select_user_interaction_vec(uid).toarray().ravel() for uid in uids], dtype=tf.float32)\n        item_tensors = tf.convert_to_tensor([ds.select_item_interaction_vec(iid).toarray().ravel() for iid in iids], dtype=tf.float32)\n")],
 'caser_batch': [(Z, "        for (pos_user_records, target_user_records, negative_iids) in self._sampler.sample_group_records(batch_size):\n            uids.append(int(pos_user_records[0]['uid']))\n            iids_before.append([int(record['iid']) for record in pos_user_records])\n            iids_after.append([int(record['iid']) for record in target_user_records] + negative_iids)\n",
                  "        for before, targets, negatives in self._sampler.sample_group_records(batch_size):\n            target_iids = [int(record['iid']) for record in targets]\n            uids.append(int(before[0]['uid']))\n            iids_before.append([int(record['iid']) for record in before])\n            iids_after.append(target_iids + negatives)\n")],
 'caser_rank': [(Z, "        if novelty:\n            user_iids_set = set(user_iids)\n            novel_user_iids = list(filter(lambda x: x not in user_iids_set, iids))\n            item_preds = [(pred, item) for pred, item in item_preds if item in novel_user_iids]\n            return nlargest(n, item_preds)\n\n        iids = set(iids)\n",
                 "        iids = set(iids)\n        if novelty:\n            iids = iids - set(user_iids)\n")],
 'caser_sort': [(Z, "            user_records.sort(key=lambda x: x[self.sort_column])\n", "            user_records = sorted(user_records, key=lambda record: record[self.sort_column])\n")],
 'es_any': [(E, "        if any(map(lambda callback_result: not isinstance(callback_result, list), epoch_validation_results.values())):", "        if not all(isinstance(res, list) for res in epoch_validation_results.values()):")],
 'es_subset': [(E, "        if not set(self.required_validation_metrics).issubset(set(validation_metrics.keys())):", "        if not all(metric in validation_metrics for metric in self.required_validation_metrics):")],
 'es_len': [(E, "        if len(epoch_validation_results.keys()) == 0:", "        if not epoch_validation_results:")],
 'mv_arg': [(X, "        best_epoch_idx = 0\n        best_epoch_val_res = epoch_validation_results[self.validation_metric][0]\n\n        for epoch_idx, epoch_val_res in enumerate(epoch_validation_results[self.validation_metric]):\n            if epoch_val_res > best_epoch_val_res:\n                best_epoch_val_res = epoch_val_res\n                best_epoch_idx = epoch_idx\n\n        return called_epochs_validation_results[best_epoch_idx]",
             "        results = epoch_validation_results[self.validation_metric]\n        best = 0\n        for idx, result in enumerate(results):\n            if result > results[best]:\n                best = idx\n        return called_epochs_validation_results[best]")],
 'mv_names': [(X, "        for epoch_idx, epoch_val_res in enumerate(epoch_validation_results[self.validation_metric]):\n            if epoch_val_res > best_epoch_val_res:\n                best_epoch_val_res = epoch_val_res\n                best_epoch_idx = epoch_idx\n", "        for i, res in enumerate(epoch_validation_results[self.validation_metric]):\n            if best_epoch_val_res < res:\n                best_epoch_idx, best_epoch_val_res = i, res\n")],
 'lt_cb': [(L, "        if name not in self.epoch_callback_results:\n            self.epoch_callback_results[name] = []\n\n        self.epoch_callback_results[name].append(result)\n", "        self.epoch_callback_results.setdefault(name, []).append(result)\n")],
 'lt_called': [(L, "        if len(self.called_epochs) == 0 or self.called_epochs[-1] < epoch:\n", "        if not self.called_epochs or epoch > self.called_epochs[-1]:\n")],
 'lt_avg': [(L, "        self.curr_avg_epoch_loss = self.curr_avg_epoch_loss + (loss - self.curr_avg_epoch_loss) / len(self.epoch_losses)", "        self.curr_avg_epoch_loss += (loss - self.curr_avg_epoch_loss) / len(self.epoch_losses)")],
}
