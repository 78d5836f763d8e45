"""Reference definitions of the samplers (parsed by the analysis, never imported or executed)."""
import random
from DRecPy.Dataset import InteractionDatasetABC


class PointSampler:
    def __init__(self, interaction_dataset, neg_ratio, interaction_threshold=None, seed=None):
        assert interaction_dataset is not None
        assert neg_ratio is not None
        assert InteractionDatasetABC in interaction_dataset.__class__.__bases__
        assert interaction_dataset.has_internal_ids
        self.neg_ratio = neg_ratio
        self.rng = random.Random(seed)
        self.negatives = interaction_dataset.null_interaction_pair_generator(seed=seed, interaction_threshold=interaction_threshold)
        if interaction_threshold is None:
            self.positives = interaction_dataset.select_random_generator(seed=seed)
        else:
            self.positives = interaction_dataset.select_random_generator(f'interaction >= {interaction_threshold}', seed=seed)

    def sample(self, n=16):
        pairs = []
        while len(pairs) != n:
            if self.rng.uniform(0, self.neg_ratio + 1) > 1:
                pairs.append(self.sample_negative())
            else:
                pairs.append(self.sample_positive())
        return pairs

    def sample_one(self):
        return self.sample(n=1)[0]

    def sample_negative(self):
        uid, iid = next(self.negatives, (None, None, None))
        return uid, iid, 0

    def sample_positive(self):
        row = next(self.positives, None)
        if row is None:
            return None, None, None
        return row['uid'], row['iid'], row['interaction']


class ListSampler:
    max_consecutive_tries = 20

    def __init__(self, interaction_dataset, group_columns, neg_ratio=3, n_targets=5, negative_ids_col='iid',
                 interaction_threshold=None, sort_column=None, min_positive_records=8, max_positive_records=None,
                 seed=None):
        assert interaction_dataset is not None
        assert InteractionDatasetABC in interaction_dataset.__class__.__bases__
        assert interaction_dataset.has_internal_ids
        if n_targets is not None:
            assert neg_ratio is not None
            assert n_targets > 0
            assert negative_ids_col in interaction_dataset.columns
        if sort_column is not None:
            assert sort_column in interaction_dataset.columns
        if max_positive_records is not None:
            assert max_positive_records >= min_positive_records
        self.ds = interaction_dataset
        self.group_columns = group_columns
        self.neg_ratio = neg_ratio
        self.n_targets = n_targets
        self.threshold = interaction_threshold
        self.sort_column = sort_column
        self.min_positive = min_positive_records
        self.max_positive = max_positive_records
        self.rng = random.Random(seed)
        self.groups = interaction_dataset.unique(group_columns).values_list(group_columns, to_list=True)
        self.negative_ids_col = negative_ids_col
        self.negative_ids = set(interaction_dataset.unique(negative_ids_col).values_list(negative_ids_col, to_list=True))

    def sample_group_records(self, n=16):
        out = []
        for i in range(n):
            tries = 0
            while True:
                tries += 1
                group = self.rng.choice(self.groups)
                if not isinstance(group, list):
                    group = [group]
                query = ','.join([f'{col} == {val!r}' for col, val in zip(self.group_columns, group)])
                positive_ds = self.ds.select(query)
                if self.threshold is not None:
                    positive_ds = positive_ds.select(f'interaction >= {self.threshold}')
                if len(positive_ds) < self.min_positive or \
                        (self.n_targets is not None and len(positive_ds) < self.min_positive + self.n_targets):
                    if tries > self.max_consecutive_tries:
                        raise Exception('max tries')
                    continue
                records = positive_ds.values_list()
                if self.sort_column is not None:
                    records.sort(key=lambda x: x[self.sort_column])
                everything = records
                padding = None
                reserved = 0 if self.n_targets is None else self.n_targets
                if self.max_positive is not None and len(records) > self.max_positive + reserved:
                    if self.n_targets is None:
                        padding = self.rng.randint(0, len(records) - self.max_positive)
                    else:
                        padding = self.rng.randint(0, len(records) - self.max_positive - self.n_targets)
                    records = records[padding:padding + self.max_positive]
                if self.n_targets is None:
                    out.append(records)
                    break
                eligible = self.negative_ids.difference(set([rec[self.negative_ids_col] for rec in everything]))
                if padding is None:
                    targets = records[-self.n_targets:]
                    records = records[:-self.n_targets]
                else:
                    targets = everything[padding + self.max_positive:padding + self.max_positive + self.n_targets]
                n_negative = self.neg_ratio * len(targets)
                if len(eligible) < n_negative:
                    if tries > self.max_consecutive_tries:
                        raise Exception('max tries')
                    continue
                out.append((records, targets, self.rng.sample(sorted(eligible), n_negative)))
                break
        return out
