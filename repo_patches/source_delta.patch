From ab58dbaf436bdc205961ea498e5caf3024b83093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:44 +0000
Subject: [PATCH 01/38] fix: in-memory null pair generator samples existing
 negatives and runs on current numpy

---
 DRecPy/Dataset/mem_dataset.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/DRecPy/Dataset/mem_dataset.py b/DRecPy/Dataset/mem_dataset.py
index 8774c71..c5375c1 100644
--- a/DRecPy/Dataset/mem_dataset.py
+++ b/DRecPy/Dataset/mem_dataset.py
@@ -4,7 +4,6 @@ import pandas as pd
 from pandas.api.types import is_string_dtype
 import random
 from scipy.sparse import csr_matrix
-import numpy as np
 
 
 class MemoryInteractionDataset(InteractionDatasetABC):
@@ -140,14 +139,14 @@ class MemoryInteractionDataset(InteractionDatasetABC):
         else:
             try:
                 negative_ds = self._apply_query(f'interaction < {interaction_threshold}', in_place=False)
-                existing_null_pair_gen = self.select_random_generator(negative_ds, seed=seed)
+                existing_null_pair_gen = self._select_random_generator(negative_ds, seed=seed)
                 next(existing_null_pair_gen)  # force error if there's no matches
             except:
                 existing_null_pair_gen = None
 
         max_uid = self.max('uid')
         max_iid = self.max('iid')
-        n_possible_combs = max_uid.astype(np.float) * max_iid.astype(np.float)
+        n_possible_combs = int(max_uid) * int(max_iid)
 
         uid_values = self._df['uid'].values
         iid_values = self._df['iid'].values
-- 
2.43.0


From d7426320a8431564e6b48d2d88357c6759b2a1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:44 +0000
Subject: [PATCH 02/38] fix: list sampler draws negative ids from a
 deterministic sequence instead of a set

---
 DRecPy/Sampler/list_sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DRecPy/Sampler/list_sampler.py b/DRecPy/Sampler/list_sampler.py
index a6175ef..a2f6369 100644
--- a/DRecPy/Sampler/list_sampler.py
+++ b/DRecPy/Sampler/list_sampler.py
@@ -144,7 +144,7 @@ class ListSampler:
                                         f'({self.neg_ratio}) or the n_targets ({self.n_targets}).')
                     continue
 
-                negative_ids = self.rng.sample(eligible_negative_ids, n_negative_ids)
+                negative_ids = self.rng.sample(sorted(eligible_negative_ids), n_negative_ids)
                 group_records_list.append((positive_group_records, target_group_records, negative_ids))
                 break
 
-- 
2.43.0


From 11a42bd99d6681b1cfa52b6622a24657f943ceca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:18 +0000
Subject: [PATCH 03/38] fix: column arguments given by the caller are never
 modified by the dataset

---
 DRecPy/Dataset/dataset_abc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DRecPy/Dataset/dataset_abc.py b/DRecPy/Dataset/dataset_abc.py
index c4f1539..77c8082 100644
--- a/DRecPy/Dataset/dataset_abc.py
+++ b/DRecPy/Dataset/dataset_abc.py
@@ -340,7 +340,7 @@ class InteractionDatasetABC(ABC):
 
     def _handle_columns(self, columns):
         if columns is None: columns = copy(self.columns)
-        if type(columns) is not list: columns = [columns]
+        columns = copy(columns) if type(columns) is list else [columns]
 
         for c in columns:
             assert c in self.columns, f'Unexpected column "{c}".'
-- 
2.43.0


From b80a842e3b7c25e5f80841943428c6a96346efa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:18 +0000
Subject: [PATCH 04/38] fix: records stored in a user sqlite file are only
 changed by saving, not by filtering or closing

---
 DRecPy/Dataset/db_dataset.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index df95d22..ec9bf0e 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -425,6 +425,10 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
                 if isfile(path): remove(path)
                 rename(tmp_path, path)
                 self._open_connection(path, loading=True)
+                self._shared_db_table_instances[path + self._active_table].remove(id(self))
+                self._shared_db_table_instances.setdefault(path + 'interactions', set()).add(id(self))
+                self._active_table = 'interactions'
+                self._state_query = ''
             else:  # saving into distinct destination
                 if isfile(path): remove(path)
                 rename(tmp_path, path)
@@ -585,7 +589,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
             self._shared_db_table_instances[self._db_path + self._active_table].remove(id(self))
             if len(self._shared_db_table_instances[self._db_path + self._active_table]) == 0:
                 del self._shared_db_table_instances[self._db_path + self._active_table]
-                if len(self._open_value_generators) == 0:
+                if len(self._open_value_generators) == 0 and not self._is_persistent_table():
                     self._open_cursor().execute(f'DROP TABLE {self._active_table}')
 
         if self._conn is not None:
@@ -781,6 +785,11 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
         active table name otherwise."""
         return self._state_query if self._state_query != '' else self._active_table
 
+    def _is_persistent_table(self):
+        """Auxiliary method that returns True if the active table is the one stored by the user on a sqlite file (not on
+        a temporary database), which must only be changed when saving."""
+        return '.tmp.' not in self._db_path and self._active_table == 'interactions'
+
     def _record_interaction(self):
         """Records a direct interaction with the current DatabaseInteractionDataset instance. If the number of direct
         interactions exceeds self._opt2_n_direct_interactions_threshold, optimize the states if possible."""
@@ -823,7 +832,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
 
         c = self._open_cursor()
 
-        if len(self._shared_db_table_instances[self._db_path + self._active_table]) == 1:
+        if len(self._shared_db_table_instances[self._db_path + self._active_table]) == 1 and not self._is_persistent_table():
             # this is the only instance using the current active table on this database
             if self._state_query != '':
                 c.execute(f'DELETE FROM {self._active_table} '
-- 
2.43.0


From 6e53d338b6dabe3c89f58aa8eeadbc1141c08696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:18 +0000
Subject: [PATCH 05/38] fix: closing a database dataset twice is a no-op

---
 DRecPy/Dataset/db_dataset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index ec9bf0e..4822ef2 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -586,7 +586,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
         """Cleanup method to delete temporary database files when they're not in use anymore."""
 
         if self._db_path is not None and self._db_path + self._active_table in self._shared_db_table_instances:
-            self._shared_db_table_instances[self._db_path + self._active_table].remove(id(self))
+            self._shared_db_table_instances[self._db_path + self._active_table].discard(id(self))
             if len(self._shared_db_table_instances[self._db_path + self._active_table]) == 0:
                 del self._shared_db_table_instances[self._db_path + self._active_table]
                 if len(self._open_value_generators) == 0 and not self._is_persistent_table():
@@ -596,7 +596,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
             self._conn.close()
 
         if self._db_path is not None and self._db_path in self._shared_db_instances:
-            self._shared_db_instances[self._db_path].remove(id(self))
+            self._shared_db_instances[self._db_path].discard(id(self))
             if len(self._shared_db_instances[self._db_path]) == 0:
                 del self._shared_db_instances[self._db_path]
                 if '.tmp.' in self._db_path:
-- 
2.43.0


From b787e33e53cf30d3f13451592d2edd0a93303ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:18 +0000
Subject: [PATCH 06/38] fix: type inference pass of the csv import honours the
 requested encoding

---
 DRecPy/Dataset/db_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index 4822ef2..b6ae438 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -672,7 +672,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
         # read num of lines + detect column types
         num_lines = 0
         first_line = None
-        with open(path, 'r') as f:
+        with open(path, 'r', encoding=encoding) as f:
             for row in f:
                 if first_line is None and ((num_lines == 0 and has_header is False) or num_lines > 0):
                     if replace_delimiter: row = row.replace(orig_delimiter, new_delimiter)
-- 
2.43.0


From ba19e5207f654d66af6e244878bc4db8d6f63832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:18 +0000
Subject: [PATCH 07/38] fix: compare column labels by value instead of identity

---
 DRecPy/Dataset/mem_dataset.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/DRecPy/Dataset/mem_dataset.py b/DRecPy/Dataset/mem_dataset.py
index c5375c1..6a5d55d 100644
--- a/DRecPy/Dataset/mem_dataset.py
+++ b/DRecPy/Dataset/mem_dataset.py
@@ -52,15 +52,15 @@ class MemoryInteractionDataset(InteractionDatasetABC):
         if self.columns is None:
             self.columns = list(self._df.columns) + ['rid']
             user_label = kwds.get('user_label', None)
-            if user_label is not None and user_label is not 'user':
+            if user_label is not None and user_label != 'user':
                 self.columns.remove(user_label)
 
             item_label = kwds.get('item_label', None)
-            if item_label is not None and item_label is not 'item':
+            if item_label is not None and item_label != 'item':
                 self.columns.remove(item_label)
 
             interaction_label = kwds.get('interaction_label', None)
-            if interaction_label is not None and interaction_label is not 'interaction':
+            if interaction_label is not None and interaction_label != 'interaction':
                 self.columns.remove(interaction_label)
 
         # remove extra columns
-- 
2.43.0


From b0cf7937f3e64b83115c59325c9f2be9064cf264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:18 +0000
Subject: [PATCH 08/38] fix: in-memory save honours the columns argument

---
 DRecPy/Dataset/mem_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DRecPy/Dataset/mem_dataset.py b/DRecPy/Dataset/mem_dataset.py
index 6a5d55d..8884667 100644
--- a/DRecPy/Dataset/mem_dataset.py
+++ b/DRecPy/Dataset/mem_dataset.py
@@ -299,7 +299,7 @@ class MemoryInteractionDataset(InteractionDatasetABC):
 
         if len(path) == 0: path = self.path
 
-        projected_cols = deepcopy(self.columns)
+        projected_cols = self._handle_columns(columns)
         if 'rid' in projected_cols: projected_cols.remove('rid')
         if 'uid' in projected_cols: projected_cols.remove('uid')
         if 'iid' in projected_cols: projected_cols.remove('iid')
-- 
2.43.0


From edae0da4e54235c2c727ddc2b478b313e89b9393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:18 +0000
Subject: [PATCH 09/38] fix: datasets loaded from a sqlite file know their
 column types

---
 DRecPy/Dataset/db_dataset.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index b6ae438..ffc588e 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -611,7 +611,10 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
         self._log('Trying to load data from existing database...')
         self._open_connection(path, loading=True)
         self._n_rows = len(self)
-        self.columns = [v[1] for v in self._conn.execute('PRAGMA table_info(interactions)').fetchall() if v[1] not in ['uid', 'iid']]
+        table_info = self._conn.execute('PRAGMA table_info(interactions)').fetchall()
+        sql_py_type = {'INTEGER': int, 'REAL': float, 'TEXT': str}
+        self._col_types = {v[1]: sql_py_type.get(v[2], str) for v in table_info}
+        self.columns = [v[1] for v in table_info if v[1] not in ['uid', 'iid']]
 
     def _load_from_csv(self, path, delimiter, has_header, encoding):
 
-- 
2.43.0


From b4cd5551b536163d9d5400ccacf0f1b1e81770cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:18 +0000
Subject: [PATCH 10/38] fix: applying a function while values are being read no
 longer changes other datasets

---
 DRecPy/Dataset/db_dataset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index ffc588e..9b28cce 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -510,7 +510,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
             new_col_type = type(test_record[column])
             assert new_col_type in supported_types, f'New column type "{new_col_type}" is not supported. Supported types: {supported_types}.'
 
-            if new_col_type == self._col_types[column]:  # type does not change
+            if new_col_type == self._col_types[column] and len(self._open_value_generators) == 0:  # type does not change
                 self._optimize_states(skip_empty_query=False)  # migrate records if current table is shared
 
                 cur_read = self._open_cursor()
@@ -527,7 +527,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
 
                 cur_updt.execute("END")
             else:
-                # type changes, require table structure change
+                # type changes (or the records can't be migrated yet), requires a new table
                 cur_read = self._open_cursor()
                 cur_read.execute(self._build_new_state())
 
-- 
2.43.0


From 9921b254eb7c3eff276bfa40d21d3be2ab2af0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:18 +0000
Subject: [PATCH 11/38] fix: string values in database queries are sql string
 literals

---
 DRecPy/Dataset/db_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index 9b28cce..12b59a1 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -753,7 +753,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
                 elif col_type is list:
                     value = list(value).__repr__()
                 else:
-                    value = str('"' + value + '"')
+                    value = "'" + value.replace("'", "''") + "'"
             except ValueError:
                 raise Exception(
                     f'Query "{query}" was failed to be parsed: check if no invalid comparisons are being made '
-- 
2.43.0


From 929f2381235d8700e91d78b2cf981d817f908c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:18 +0000
Subject: [PATCH 12/38] fix: ordering comparisons on raw ids are not evaluated
 on internal ids

---
 DRecPy/Dataset/mem_dataset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DRecPy/Dataset/mem_dataset.py b/DRecPy/Dataset/mem_dataset.py
index 8884667..b2e6eaa 100644
--- a/DRecPy/Dataset/mem_dataset.py
+++ b/DRecPy/Dataset/mem_dataset.py
@@ -422,10 +422,10 @@ class MemoryInteractionDataset(InteractionDatasetABC):
                 value = int(value)
 
             # use internal ids aux structures to speed up search
-            if column == 'user' and self.has_internal_ids and 'int' not in col_dtype:
+            if column == 'user' and operator in ['==', '!='] and self.has_internal_ids and 'int' not in col_dtype:
                 column = 'uid'
                 value = self.user_to_uid(value)
-            elif column == 'item' and self.has_internal_ids and 'int' not in col_dtype:
+            elif column == 'item' and operator in ['==', '!='] and self.has_internal_ids and 'int' not in col_dtype:
                 column = 'iid'
                 value = self.item_to_iid(value)
 
-- 
2.43.0


From f0a790d85b92f600b462e2f7e3426e830b18a680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:18 +0000
Subject: [PATCH 13/38] fix: raw float ids are found by the in-memory id
 lookups

---
 DRecPy/Dataset/mem_dataset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/DRecPy/Dataset/mem_dataset.py b/DRecPy/Dataset/mem_dataset.py
index b2e6eaa..3f670ca 100644
--- a/DRecPy/Dataset/mem_dataset.py
+++ b/DRecPy/Dataset/mem_dataset.py
@@ -269,6 +269,7 @@ class MemoryInteractionDataset(InteractionDatasetABC):
                 user = int(user)
             except ValueError:
                 raise Exception(f'The provided user type does not match the inferred type (expected: int, found: {type(user)}')
+        elif 'float' in user_dtype: user = float(user)
         else: user = str(user)
         return self._user_mapping[user] if user in self._user_mapping else None
 
@@ -286,6 +287,7 @@ class MemoryInteractionDataset(InteractionDatasetABC):
                 item = int(item)
             except ValueError:
                 raise Exception(f'The provided item type does not match the inferred type (expected: int, found: {type(item)}')
+        elif 'float' in item_dtype: item = float(item)
         else: item = str(item)
         return self._item_mapping[item] if item in self._item_mapping else None
 
-- 
2.43.0


From 6b080acb2f4ea1e8b283b5d2380aa19905df6375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:18 +0000
Subject: [PATCH 14/38] fix: interaction vectors of in-memory subsets cover
 every assigned internal id

---
 DRecPy/Dataset/mem_dataset.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/DRecPy/Dataset/mem_dataset.py b/DRecPy/Dataset/mem_dataset.py
index 3f670ca..e7fd245 100644
--- a/DRecPy/Dataset/mem_dataset.py
+++ b/DRecPy/Dataset/mem_dataset.py
@@ -186,7 +186,7 @@ class MemoryInteractionDataset(InteractionDatasetABC):
                 interactions.append(float(row[interaction_col_idx])) # floats due to tf not supporting NPY_INT during np.array to tensor
 
             return csr_matrix((interactions, ([0] * len(interactions), cols)),
-                              shape=(1, self._df.drop_duplicates(subset='iid').shape[0]))[0]
+                              shape=(1, len(self._item_mapping_inv)))[0]
 
     def select_item_interaction_vec(self, iid):
         assert self.has_internal_ids is True, 'Cannot retrieve user interaction vector without assigned internal ids.'
@@ -214,7 +214,7 @@ class MemoryInteractionDataset(InteractionDatasetABC):
                 interactions.append(float(row[interaction_col_idx])) # floats due to tf not supporting NPY_INT during np.array to tensor
 
             return csr_matrix((interactions, ([0] * len(interactions), cols)),
-                              shape=(1, self._df.drop_duplicates(subset='uid').shape[0]))[0]
+                              shape=(1, len(self._user_mapping_inv)))[0]
 
     def unique(self, columns=None, copy=True):
         columns = self._handle_columns(columns).copy()
@@ -482,7 +482,7 @@ class MemoryInteractionDataset(InteractionDatasetABC):
         assert self.has_internal_ids is True, 'Cannot retrieve user interaction vector without assigned internal ids.'
 
         users, cols, interactions = [], [], []
-        n_uids = self.count_unique('uid')
+        n_uids = len(self._user_mapping_inv)
         projected_cols = [col for col in self.columns if col != 'rid']
         iid_col_idx = projected_cols.index('iid')
         interaction_col_idx = projected_cols.index('interaction')
@@ -494,6 +494,6 @@ class MemoryInteractionDataset(InteractionDatasetABC):
                 interactions.append(float(row[interaction_col_idx]))  # floats due to tf not supporting NPY_INT during np.array to tensor
 
         self._cached_interaction_matrix = csr_matrix((interactions, (users, cols)),
-                                                     shape=(n_uids, self.count_unique('iid')))
+                                                     shape=(n_uids, len(self._item_mapping_inv)))
 
         self._cached_trans_interaction_matrix = self._cached_interaction_matrix.transpose()
-- 
2.43.0


From 17a414e8556429197ade4c051a467df021638969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:18 +0000
Subject: [PATCH 15/38] fix: item interaction vector fallback is indexed by
 users

---
 DRecPy/Dataset/mem_dataset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DRecPy/Dataset/mem_dataset.py b/DRecPy/Dataset/mem_dataset.py
index e7fd245..3ebef31 100644
--- a/DRecPy/Dataset/mem_dataset.py
+++ b/DRecPy/Dataset/mem_dataset.py
@@ -207,10 +207,10 @@ class MemoryInteractionDataset(InteractionDatasetABC):
             cols, interactions = [], []
             df_segment = self._df[self._df['iid'].values == iid]
             projected_cols = [col for col in self.columns if col != 'rid']
-            iid_col_idx = projected_cols.index('iid')
+            uid_col_idx = projected_cols.index('uid')
             interaction_col_idx = projected_cols.index('interaction')
             for row in df_segment[projected_cols].values:
-                cols.append(row[iid_col_idx])
+                cols.append(row[uid_col_idx])
                 interactions.append(float(row[interaction_col_idx])) # floats due to tf not supporting NPY_INT during np.array to tensor
 
             return csr_matrix((interactions, ([0] * len(interactions), cols)),
-- 
2.43.0


From 42c3fe17cfe8df759ad22b4922b4165bdb5a8e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:18 +0000
Subject: [PATCH 16/38] fix: in-place changes of an in-memory dataset discard
 its cached interaction vectors

---
 DRecPy/Dataset/mem_dataset.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/DRecPy/Dataset/mem_dataset.py b/DRecPy/Dataset/mem_dataset.py
index 3ebef31..8f1f50f 100644
--- a/DRecPy/Dataset/mem_dataset.py
+++ b/DRecPy/Dataset/mem_dataset.py
@@ -225,6 +225,7 @@ class MemoryInteractionDataset(InteractionDatasetABC):
         new_ds._df = new_ds._df.drop_duplicates(subset=df_columns)
         new_ds._df = new_ds._df[df_columns]
         new_ds.columns = columns
+        new_ds._reset_interaction_matrix()
 
         return new_ds
 
@@ -258,6 +259,7 @@ class MemoryInteractionDataset(InteractionDatasetABC):
             new_ds._df = new_ds._df[new_ds._df.index.isin(record_ids)]
         else:
             new_ds._df = new_ds._df[~new_ds._df.index.isin(record_ids)]
+        new_ds._reset_interaction_matrix()
         return new_ds
 
     def user_to_uid(self, user):
@@ -327,6 +329,7 @@ class MemoryInteractionDataset(InteractionDatasetABC):
         # to speed up item lookups
         self._item_mapping = dict([(cat, code) for code, cat in enumerate(item_cat.categories)])
         self._item_mapping_inv = dict([(code, cat) for code, cat in enumerate(item_cat.categories)])
+        self._reset_interaction_matrix()
 
         self.has_internal_ids = True
 
@@ -471,13 +474,18 @@ class MemoryInteractionDataset(InteractionDatasetABC):
 
         if in_place:
             if condition_vector is not None:
-                self._df = self._df [condition_vector]
+                self._df = self._df[condition_vector]
+                self._reset_interaction_matrix()
             return self._df
         else:
             if condition_vector is not None:
                 return self._df[condition_vector]
             return self._df
 
+    def _reset_interaction_matrix(self):
+        self._cached_interaction_matrix = None
+        self._cached_trans_interaction_matrix = None
+
     def _build_interaction_matrix(self):
         assert self.has_internal_ids is True, 'Cannot retrieve user interaction vector without assigned internal ids.'
 
-- 
2.43.0


From 86dc8c65a684a4474381b4c1365b6bb51db1feea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:18 +0000
Subject: [PATCH 17/38] fix: in-place changes of a database dataset discard its
 cached interaction vectors

---
 DRecPy/Dataset/db_dataset.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index 12b59a1..9059dfe 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -487,6 +487,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
 
         self._create_internal_id_indexes(c, table_name=self._active_table)  # after optimize_states, self._state_query = new table name
         self._conn.commit()
+        self._reset_interaction_vec_caches()
         self.has_internal_ids = True
 
     def remove_internal_ids(self):
@@ -562,6 +563,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
                 self._state_query = ''
 
             self._conn.commit()
+            self._reset_interaction_vec_caches()
 
         except Exception as e:
             raise Exception(f'Failed to apply operation on column "{column}". Details: {e}')
@@ -807,6 +809,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
         self._n_rows = self._open_cursor().execute(f'SELECT COUNT(*) FROM ({new_state})').fetchone()[0]
 
         self._state_query = new_state
+        self._reset_interaction_vec_caches()
 
         if self._n_rows_before_opt > 0 and self._n_rows > 0 \
                 and self._queries_wo_optimize >= self._opt_n_query_threshold \
@@ -816,6 +819,10 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
             self._n_rows_before_opt = self._n_rows
             self._optimize_states()
 
+    def _reset_interaction_vec_caches(self):
+        self._user_interaction_vec_cache.clear()
+        self._item_interaction_vec_cache.clear()
+
     def _optimize_states(self, skip_empty_query=True):
         """Auxiliary method that should be called inside .values() and .unique() that computes
         the results from executing the self.state_query on the current table and:
-- 
2.43.0


From af513bc27887b35f2594a32c33fe24bc5b12aa48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:18 +0000
Subject: [PATCH 18/38] fix: splits, evaluations and samplers quote raw ids in
 queries

---
 DRecPy/Evaluation/Processes/ranking_evaluation.py        | 6 +++---
 DRecPy/Evaluation/Processes/recommendation_evaluation.py | 4 ++--
 DRecPy/Evaluation/Splits/leave_k_out.py                  | 4 ++--
 DRecPy/Evaluation/Splits/matrix_split.py                 | 2 +-
 DRecPy/Sampler/list_sampler.py                           | 2 +-
 5 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/DRecPy/Evaluation/Processes/ranking_evaluation.py b/DRecPy/Evaluation/Processes/ranking_evaluation.py
index 4333e20..bf0833d 100644
--- a/DRecPy/Evaluation/Processes/ranking_evaluation.py
+++ b/DRecPy/Evaluation/Processes/ranking_evaluation.py
@@ -164,7 +164,7 @@ def __ranking_evaluation_user(model, user, ds_test, interaction_threshold, n_pos
                               train_evaluation, metrics, novelty, metric_sums, k, generate_negative_pairs, rng):
     """Gathers the user positive and negative interactions, applies a ranking on them, and evaluates the provided
     metrics, adding the results to the metric_sums structure."""
-    user_ds = ds_test.select(f'user == {user}')
+    user_ds = ds_test.select(f'user == {user!r}')
 
     # get positive interactions
     user_test_pos_ds = user_ds.select(f'interaction >= {interaction_threshold}')
@@ -194,7 +194,7 @@ def __ranking_evaluation_user(model, user, ds_test, interaction_threshold, n_pos
                 user_train_pos_ds = user_test_pos_ds
             else:
                 user_train_pos_ds = model.interaction_dataset \
-                    .select(f'user == {user}, interaction >= {interaction_threshold}')
+                    .select(f'user == {user!r}, interaction >= {interaction_threshold}')
 
             item_blacklist = set(user_train_pos_ds.unique('item').values_list('item', to_list=True))
             if not train_evaluation:
@@ -220,7 +220,7 @@ def __ranking_evaluation_user(model, user, ds_test, interaction_threshold, n_pos
 
     # rank according to model
     recommendations = [item for _, item in model.rank(user, all_items, novelty=novelty, skip_invalid_items=True)]
-    relevancies = {item: (user_ds.select_one(f'item == {item}', ['interaction'], to_list=True) or 0)
+    relevancies = {item: (user_ds.select_one(f'item == {item!r}', ['interaction'], to_list=True) or 0)
                    for item in all_items}
 
     # evaluate performance
diff --git a/DRecPy/Evaluation/Processes/recommendation_evaluation.py b/DRecPy/Evaluation/Processes/recommendation_evaluation.py
index 98816b9..fc1bf11 100644
--- a/DRecPy/Evaluation/Processes/recommendation_evaluation.py
+++ b/DRecPy/Evaluation/Processes/recommendation_evaluation.py
@@ -138,7 +138,7 @@ def _recommendation_evaluation_user(model, user, ds_test, interaction_threshold,
     """Gathers the user positive and negative interactions, applies a ranking on them, and evaluates the provided
     metrics, adding the results to the metric_sums structure."""
     global n_tasks_done
-    user_ds = ds_test.select(f'user == {user}')
+    user_ds = ds_test.select(f'user == {user!r}')
 
     # get positive interactions
     user_test_pos_ds = user_ds.select(f'interaction >= {interaction_threshold}')
@@ -163,7 +163,7 @@ def _recommendation_evaluation_user(model, user, ds_test, interaction_threshold,
 
     recommendations = [item for _, item in model.recommend(user, n=max(k), novelty=novelty, skip_invalid_items=True,
                                                            interaction_threshold=ignore_low_predictions_threshold)]
-    relevancies = {item: (user_ds.select_one(f'item == {item}', ['interaction'], to_list=True) or 0)
+    relevancies = {item: (user_ds.select_one(f'item == {item!r}', ['interaction'], to_list=True) or 0)
                    for item in set(user_interacted_items).union(set(recommendations))}
 
     # evaluate performance
diff --git a/DRecPy/Evaluation/Splits/leave_k_out.py b/DRecPy/Evaluation/Splits/leave_k_out.py
index 2d2a91e..68ad46c 100644
--- a/DRecPy/Evaluation/Splits/leave_k_out.py
+++ b/DRecPy/Evaluation/Splits/leave_k_out.py
@@ -98,7 +98,7 @@ def leave_k_out(interaction_dataset, k=1, min_user_interactions=0, last_timestam
 
 def _leave_k_out_user_ratio(interaction_dataset, train_rids_to_rem, test_rids, min_user_interactions, user, k, rng,
                             last_timestamps, timestamp_label):
-    user_rows_ds = interaction_dataset.select(f'user == {user}')
+    user_rows_ds = interaction_dataset.select(f'user == {user!r}')
     n_sampled_items = int(len(user_rows_ds) * k)
     _leave_k_out_user(user_rows_ds, train_rids_to_rem, test_rids, min_user_interactions, n_sampled_items, rng,
                       last_timestamps, timestamp_label)
@@ -106,7 +106,7 @@ def _leave_k_out_user_ratio(interaction_dataset, train_rids_to_rem, test_rids, m
 
 def _leave_k_out_user_fixed(interaction_dataset, train_rids_to_rem, test_rids, min_user_interactions, user, k, rng,
                             last_timestamps, timestamp_label):
-    user_rows_ds = interaction_dataset.select(f'user == {user}')
+    user_rows_ds = interaction_dataset.select(f'user == {user!r}')
     _leave_k_out_user(user_rows_ds, train_rids_to_rem, test_rids, min_user_interactions, k, rng,
                       last_timestamps, timestamp_label)
 
diff --git a/DRecPy/Evaluation/Splits/matrix_split.py b/DRecPy/Evaluation/Splits/matrix_split.py
index 2d1fa6d..7bfc31a 100644
--- a/DRecPy/Evaluation/Splits/matrix_split.py
+++ b/DRecPy/Evaluation/Splits/matrix_split.py
@@ -86,7 +86,7 @@ def matrix_split(interaction_dataset, user_test_ratio=0.2, item_test_ratio=0.2,
 def _matrix_split_user(interaction_dataset, train_rids_to_rem, test_rids, user, min_user_interactions, test_items_set,
                        test_users_set):
     global n_tasks_done
-    user_rows_ds = interaction_dataset.select(f'user == {user}')
+    user_rows_ds = interaction_dataset.select(f'user == {user!r}')
 
     if len(user_rows_ds) < min_user_interactions:  # not enough user interactions
         with train_rem_lock:
diff --git a/DRecPy/Sampler/list_sampler.py b/DRecPy/Sampler/list_sampler.py
index a2f6369..8d7a377 100644
--- a/DRecPy/Sampler/list_sampler.py
+++ b/DRecPy/Sampler/list_sampler.py
@@ -94,7 +94,7 @@ class ListSampler:
                 chosen_group = self.rng.choice(self.unique_groups)
                 if not isinstance(chosen_group, list):
                     chosen_group = [chosen_group]
-                query = ','.join([f'{group_col} == {chosen_col_group}' for group_col, chosen_col_group
+                query = ','.join([f'{group_col} == {chosen_col_group!r}' for group_col, chosen_col_group
                                   in zip(self.group_columns, chosen_group)])
                 group_records_ds = self.interaction_dataset.select(query)
                 if self.interaction_threshold is None:
-- 
2.43.0


From e8b3b7bae332ebe6d8b456d8d0ce29103e6bfa58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:29 +0000
Subject: [PATCH 19/38] fix: a failing user task no longer makes verbose splits
 and evaluations wait forever

---
 .../Processes/recommendation_evaluation.py    | 20 +++++++-----
 DRecPy/Evaluation/Splits/leave_k_out.py       | 31 ++++++++++++-------
 DRecPy/Evaluation/Splits/matrix_split.py      | 14 +++++++--
 3 files changed, 42 insertions(+), 23 deletions(-)

diff --git a/DRecPy/Evaluation/Processes/recommendation_evaluation.py b/DRecPy/Evaluation/Processes/recommendation_evaluation.py
index fc1bf11..7c13983 100644
--- a/DRecPy/Evaluation/Processes/recommendation_evaluation.py
+++ b/DRecPy/Evaluation/Processes/recommendation_evaluation.py
@@ -135,9 +135,20 @@ def recommendation_evaluation(model, ds_test=None, n_test_users=None, k=10, n_po
 
 def _recommendation_evaluation_user(model, user, ds_test, interaction_threshold, n_pos_interactions, metrics,
                                     novelty, ignore_low_predictions_threshold, metric_sums, k, rng):
+    global n_tasks_done
+
+    try:
+        __recommendation_evaluation_user(model, user, ds_test, interaction_threshold, n_pos_interactions, metrics,
+                                         novelty, ignore_low_predictions_threshold, metric_sums, k, rng)
+    finally:
+        with n_tasks_lock:
+            n_tasks_done += 1
+
+
+def __recommendation_evaluation_user(model, user, ds_test, interaction_threshold, n_pos_interactions, metrics,
+                                     novelty, ignore_low_predictions_threshold, metric_sums, k, rng):
     """Gathers the user positive and negative interactions, applies a ranking on them, and evaluates the provided
     metrics, adding the results to the metric_sums structure."""
-    global n_tasks_done
     user_ds = ds_test.select(f'user == {user!r}')
 
     # get positive interactions
@@ -146,8 +157,6 @@ def _recommendation_evaluation_user(model, user, ds_test, interaction_threshold,
         user_interacted_items = user_test_pos_ds.values_list(['item', 'interaction'])
     else:
         if len(user_test_pos_ds) < n_pos_interactions:  # not enough positive interactions
-            with n_tasks_lock:
-                n_tasks_done += 1
             return
         user_interacted_items = rng.sample(user_test_pos_ds.values_list(['item', 'interaction']), n_pos_interactions)
 
@@ -157,8 +166,6 @@ def _recommendation_evaluation_user(model, user, ds_test, interaction_threshold,
 
     # join and shuffle all items
     if len(user_interacted_items) == 0:
-        with n_tasks_lock:
-            n_tasks_done += 1
         return
 
     recommendations = [item for _, item in model.recommend(user, n=max(k), novelty=novelty, skip_invalid_items=True,
@@ -187,6 +194,3 @@ def _recommendation_evaluation_user(model, user, ds_test, interaction_threshold,
                     metric_sums[(m.name, k_)][0] += m(**params)
                     metric_sums[(m.name, k_)][1] += 1
                 except: pass
-
-    with n_tasks_lock:
-        n_tasks_done += 1
diff --git a/DRecPy/Evaluation/Splits/leave_k_out.py b/DRecPy/Evaluation/Splits/leave_k_out.py
index 68ad46c..48631d3 100644
--- a/DRecPy/Evaluation/Splits/leave_k_out.py
+++ b/DRecPy/Evaluation/Splits/leave_k_out.py
@@ -98,23 +98,33 @@ def leave_k_out(interaction_dataset, k=1, min_user_interactions=0, last_timestam
 
 def _leave_k_out_user_ratio(interaction_dataset, train_rids_to_rem, test_rids, min_user_interactions, user, k, rng,
                             last_timestamps, timestamp_label):
-    user_rows_ds = interaction_dataset.select(f'user == {user!r}')
-    n_sampled_items = int(len(user_rows_ds) * k)
-    _leave_k_out_user(user_rows_ds, train_rids_to_rem, test_rids, min_user_interactions, n_sampled_items, rng,
-                      last_timestamps, timestamp_label)
+    global n_tasks_done
+
+    try:
+        user_rows_ds = interaction_dataset.select(f'user == {user!r}')
+        n_sampled_items = int(len(user_rows_ds) * k)
+        _leave_k_out_user(user_rows_ds, train_rids_to_rem, test_rids, min_user_interactions, n_sampled_items, rng,
+                          last_timestamps, timestamp_label)
+    finally:
+        with n_tasks_lock:
+            n_tasks_done += 1
 
 
 def _leave_k_out_user_fixed(interaction_dataset, train_rids_to_rem, test_rids, min_user_interactions, user, k, rng,
                             last_timestamps, timestamp_label):
-    user_rows_ds = interaction_dataset.select(f'user == {user!r}')
-    _leave_k_out_user(user_rows_ds, train_rids_to_rem, test_rids, min_user_interactions, k, rng,
-                      last_timestamps, timestamp_label)
+    global n_tasks_done
+
+    try:
+        user_rows_ds = interaction_dataset.select(f'user == {user!r}')
+        _leave_k_out_user(user_rows_ds, train_rids_to_rem, test_rids, min_user_interactions, k, rng,
+                          last_timestamps, timestamp_label)
+    finally:
+        with n_tasks_lock:
+            n_tasks_done += 1
 
 
 def _leave_k_out_user(user_rows_ds, train_rids_to_rem, test_rids, min_user_interactions, k, rng,
                             last_timestamps, timestamp_label):
-    global n_tasks_done
-
     if len(user_rows_ds) < min_user_interactions:  # not enough user interactions
         with train_rem_lock:
             train_rids_to_rem.extend(user_rows_ds.values_list('rid', to_list=True))
@@ -130,6 +140,3 @@ def _leave_k_out_user(user_rows_ds, train_rids_to_rem, test_rids, min_user_inter
             user_rows_rids = user_rows_ds.values_list('rid', to_list=True)
             with test_lock:
                 test_rids.extend(rng.sample(user_rows_rids, k))
-
-    with n_tasks_lock:
-        n_tasks_done += 1
diff --git a/DRecPy/Evaluation/Splits/matrix_split.py b/DRecPy/Evaluation/Splits/matrix_split.py
index 7bfc31a..71947e2 100644
--- a/DRecPy/Evaluation/Splits/matrix_split.py
+++ b/DRecPy/Evaluation/Splits/matrix_split.py
@@ -86,6 +86,17 @@ def matrix_split(interaction_dataset, user_test_ratio=0.2, item_test_ratio=0.2,
 def _matrix_split_user(interaction_dataset, train_rids_to_rem, test_rids, user, min_user_interactions, test_items_set,
                        test_users_set):
     global n_tasks_done
+
+    try:
+        __matrix_split_user(interaction_dataset, train_rids_to_rem, test_rids, user, min_user_interactions, test_items_set,
+                            test_users_set)
+    finally:
+        with n_tasks_lock:
+            n_tasks_done += 1
+
+
+def __matrix_split_user(interaction_dataset, train_rids_to_rem, test_rids, user, min_user_interactions, test_items_set,
+                        test_users_set):
     user_rows_ds = interaction_dataset.select(f'user == {user!r}')
 
     if len(user_rows_ds) < min_user_interactions:  # not enough user interactions
@@ -101,6 +112,3 @@ def _matrix_split_user(interaction_dataset, train_rids_to_rem, test_rids, user,
         if len(to_test) < len(user_rows_ds):
             with test_lock:
                 test_rids.extend(to_test)
-
-    with n_tasks_lock:
-        n_tasks_done += 1
-- 
2.43.0


From 869067e11268669a97dce0fd16d4021cf672422a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:29 +0000
Subject: [PATCH 20/38] fix: the most relevant item is the one with the highest
 interaction value

---
 DRecPy/Evaluation/Processes/ranking_evaluation.py        | 2 +-
 DRecPy/Evaluation/Processes/recommendation_evaluation.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/DRecPy/Evaluation/Processes/ranking_evaluation.py b/DRecPy/Evaluation/Processes/ranking_evaluation.py
index bf0833d..659b256 100644
--- a/DRecPy/Evaluation/Processes/ranking_evaluation.py
+++ b/DRecPy/Evaluation/Processes/ranking_evaluation.py
@@ -176,7 +176,7 @@ def __ranking_evaluation_user(model, user, ds_test, interaction_threshold, n_pos
         user_interacted_items = rng.sample(user_test_pos_ds.values_list(['item', 'interaction']), n_pos_interactions)
 
     best_item = None if len(user_interacted_items) == 0 else \
-        max(user_interacted_items, key=lambda p: -p['interaction'])['item']
+        max(user_interacted_items, key=lambda p: p['interaction'])['item']
     user_interacted_items = [pair['item'] for pair in user_interacted_items]
 
     # get negative interactions
diff --git a/DRecPy/Evaluation/Processes/recommendation_evaluation.py b/DRecPy/Evaluation/Processes/recommendation_evaluation.py
index 7c13983..227c376 100644
--- a/DRecPy/Evaluation/Processes/recommendation_evaluation.py
+++ b/DRecPy/Evaluation/Processes/recommendation_evaluation.py
@@ -161,7 +161,7 @@ def __recommendation_evaluation_user(model, user, ds_test, interaction_threshold
         user_interacted_items = rng.sample(user_test_pos_ds.values_list(['item', 'interaction']), n_pos_interactions)
 
     best_item = None if len(user_interacted_items) == 0 else \
-        max(user_interacted_items, key=lambda p: -p['interaction'])['item']
+        max(user_interacted_items, key=lambda p: p['interaction'])['item']
     user_interacted_items = [pair['item'] for pair in user_interacted_items]
 
     # join and shuffle all items
-- 
2.43.0


From 26dd244d8938cda7b856e0614ac84f0091b3b56d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:29 +0000
Subject: [PATCH 21/38] fix: Caser ranks only the requested items when novelty
 is off

---
 DRecPy/Recommender/caser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/DRecPy/Recommender/caser.py b/DRecPy/Recommender/caser.py
index b816bb8..a984b09 100644
--- a/DRecPy/Recommender/caser.py
+++ b/DRecPy/Recommender/caser.py
@@ -143,4 +143,6 @@ class Caser(RecommenderABC):
             item_preds = [(pred, item) for pred, item in item_preds if item in novel_user_iids]
             return nlargest(n, item_preds)
 
+        iids = set(iids)
+        item_preds = [(pred, item) for pred, item in item_preds if item in iids]
         return nlargest(n, item_preds)
-- 
2.43.0


From e5d35eed26f3ffd32207d7e9b4a11d32c9ad5437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:29 +0000
Subject: [PATCH 22/38] fix: fit with copy_dataset copies the dataset

---
 DRecPy/Recommender/recommender_abc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DRecPy/Recommender/recommender_abc.py b/DRecPy/Recommender/recommender_abc.py
index 352aac3..aed3330 100644
--- a/DRecPy/Recommender/recommender_abc.py
+++ b/DRecPy/Recommender/recommender_abc.py
@@ -134,7 +134,7 @@ class RecommenderABC(ABC):
         self.interaction_dataset = interaction_dataset
         if copy_dataset:
             self._info('Cloning new dataset instance...')
-            self.interaction_dataset = interaction_dataset.__copy__()
+            self.interaction_dataset = interaction_dataset.copy()
         self.interaction_dataset.assign_internal_ids()
 
         self.min_interaction = self.interaction_dataset.min('interaction')
-- 
2.43.0


From bf6cb9abfddf6ba4ded037bef28e2e54e9952a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:29 +0000
Subject: [PATCH 23/38] fix: a failed early stopping computation no longer
 unbinds the epoch counter

---
 DRecPy/Recommender/recommender_abc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DRecPy/Recommender/recommender_abc.py b/DRecPy/Recommender/recommender_abc.py
index aed3330..1175a96 100644
--- a/DRecPy/Recommender/recommender_abc.py
+++ b/DRecPy/Recommender/recommender_abc.py
@@ -228,8 +228,8 @@ class RecommenderABC(ABC):
                                                                             self._loss_tracker.called_epochs)
                     if early_stopping_rule.stop_training(e, early_stopping_best_epoch, epochs):
                         break
-                except InvalidEpochValidationResultsException as e:
-                    self._warn(f'Failed to compute early stopping rule {early_stopping_rule.__class__.__name__}: {e}')
+                except InvalidEpochValidationResultsException as err:
+                    self._warn(f'Failed to compute early stopping rule {early_stopping_rule.__class__.__name__}: {err}')
 
             if early_stopping_best_epoch is not None:
                 progress_desc += f' | {early_stopping_rule.__class__.__name__} best epoch: {early_stopping_best_epoch}'
-- 
2.43.0


From 365769a0fa10a017c55aa977072742e128168b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:29 +0000
Subject: [PATCH 24/38] fix: stored epoch weights of layers and models are
 snapshots

---
 DRecPy/Recommender/recommender_abc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DRecPy/Recommender/recommender_abc.py b/DRecPy/Recommender/recommender_abc.py
index 1175a96..8501d29 100644
--- a/DRecPy/Recommender/recommender_abc.py
+++ b/DRecPy/Recommender/recommender_abc.py
@@ -336,8 +336,8 @@ class RecommenderABC(ABC):
     def _store_epoch_weights(self):
         self.epoch_weights.append({
             'trainable_weights': copy.deepcopy(self.trainable_weights),
-            'trainable_layers': [layer.trainable_weights for layer in self.trainable_layers],
-            'trainable_models': [model.trainable_weights for model in self.trainable_models]
+            'trainable_layers': [layer.get_weights() for layer in self.trainable_layers],
+            'trainable_models': [model.get_weights() for model in self.trainable_models]
         })
 
     def _revert_weights(self, epoch):
-- 
2.43.0


From d8a2fb69c4af6d65c3d259441b3f5f65ab5c09a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:29 +0000
Subject: [PATCH 25/38] fix: early stopping can revert to the weights before
 training and ignores previous fits

---
 DRecPy/Recommender/recommender_abc.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/DRecPy/Recommender/recommender_abc.py b/DRecPy/Recommender/recommender_abc.py
index 8501d29..cd0efa4 100644
--- a/DRecPy/Recommender/recommender_abc.py
+++ b/DRecPy/Recommender/recommender_abc.py
@@ -183,6 +183,9 @@ class RecommenderABC(ABC):
             for metric in epoch_callback_ret:
                 self._loss_tracker.add_epoch_callback_result(metric, epoch_callback_ret[metric], 0)
 
+        self.epoch_weights = []
+        self._store_epoch_weights()  # epoch 0: weights before training
+
         _iter = range(1, epochs+1)
         if self.verbose:
             _iter = tqdm(range(1, epochs+1), total=epochs, desc='Fitting model...', position=0, leave=True)
@@ -341,7 +344,7 @@ class RecommenderABC(ABC):
         })
 
     def _revert_weights(self, epoch):
-        target_weights = self.epoch_weights[epoch-1]  # convert to 0-based idx
+        target_weights = self.epoch_weights[epoch]  # epoch 0 holds the initial weights
         for model, weights in zip(self.trainable_models, target_weights['trainable_models']):
             model.set_weights(weights)
         for layer, weights in zip(self.trainable_layers, target_weights['trainable_layers']):
@@ -349,7 +352,7 @@ class RecommenderABC(ABC):
         for variable, weights in zip(self.trainable_weights, target_weights['trainable_weights']):
             variable.assign(weights)
 
-        self._info(f'Network weights reverted from epoch {len(self.epoch_weights)} to epoch {epoch}.')
+        self._info(f'Network weights reverted from epoch {len(self.epoch_weights) - 1} to epoch {epoch}.')
 
     def predict(self, user_id, item_id, skip_errors=False, **kwds):
         """Performs a prediction using the provided user_id and item_id.
-- 
2.43.0


From c288586256f6671077d59c4570668745c8aae086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:29 +0000
Subject: [PATCH 26/38] fix: fitting a model again discards the state of the
 previous fit

---
 DRecPy/Recommender/Baseline/base_knn.py | 3 +++
 DRecPy/Recommender/recommender_abc.py   | 1 +
 2 files changed, 4 insertions(+)

diff --git a/DRecPy/Recommender/Baseline/base_knn.py b/DRecPy/Recommender/Baseline/base_knn.py
index 22867e7..4a2bca9 100644
--- a/DRecPy/Recommender/Baseline/base_knn.py
+++ b/DRecPy/Recommender/Baseline/base_knn.py
@@ -73,6 +73,9 @@ class BaseKNN(RecommenderABC, ABC):
         self._neighbours = dict()
 
     def _pre_fit(self, learning_rate, neg_ratio, reg_rate, **kwds):
+        self._similarities = dict()
+        self._neighbours = dict()
+
         self._info('Computing similarity matrix...')
         self._compute_similarities()
 
diff --git a/DRecPy/Recommender/recommender_abc.py b/DRecPy/Recommender/recommender_abc.py
index cd0efa4..f240c5b 100644
--- a/DRecPy/Recommender/recommender_abc.py
+++ b/DRecPy/Recommender/recommender_abc.py
@@ -150,6 +150,7 @@ class RecommenderABC(ABC):
         self._log_initial_info()
 
         self._info('Creating auxiliary structures...')
+        self.trainable_weights, self.trainable_layers, self.trainable_models = [], [], []
         self._register_optimizer(tf.keras.optimizers.Adam(learning_rate=learning_rate))  # default optimizer
         self._pre_fit(learning_rate, neg_ratio, reg_rate, **kwds)
         if kwds.get('optimizer', None) is not None:  # allow forcing custom optimizer
-- 
2.43.0


From c022f53433569ac4eedafdf220edb2338e75f842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:29 +0000
Subject: [PATCH 27/38] fix: list sampler targets are the last n_targets
 records of each sequence

---
 DRecPy/Sampler/list_sampler.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/DRecPy/Sampler/list_sampler.py b/DRecPy/Sampler/list_sampler.py
index 8d7a377..cc5c0a6 100644
--- a/DRecPy/Sampler/list_sampler.py
+++ b/DRecPy/Sampler/list_sampler.py
@@ -116,7 +116,8 @@ class ListSampler:
                 all_positive_group_records = positive_group_records
 
                 padding = None
-                if self.max_positive_records is not None and len(positive_group_records) > self.max_positive_records:
+                n_reserved = 0 if self.n_targets is None else self.n_targets
+                if self.max_positive_records is not None and len(positive_group_records) > self.max_positive_records + n_reserved:
                     if self.n_targets is None:
                         padding = self.rng.randint(0, len(positive_group_records) - self.max_positive_records)
                     else:
@@ -129,8 +130,8 @@ class ListSampler:
 
                 eligible_negative_ids = self.unique_negative_ids.difference(set([rec[self.negative_ids_col] for rec in all_positive_group_records]))
                 if padding is None:
-                    target_group_records = positive_group_records[self.n_targets:]
-                    positive_group_records = positive_group_records[:self.n_targets]
+                    target_group_records = positive_group_records[-self.n_targets:]
+                    positive_group_records = positive_group_records[:-self.n_targets]
                 else:
                     target_group_records = all_positive_group_records[padding + self.max_positive_records:padding + self.max_positive_records + self.n_targets]
 
-- 
2.43.0


From 09657fdb3efa5fe299203341d334363e698288f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:19 +0000
Subject: [PATCH 28/38] fix: UserKNN ranks items without neighbour ratings by
 their average when use_averages is set, as predict does

---
 DRecPy/Recommender/Baseline/user_knn.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/DRecPy/Recommender/Baseline/user_knn.py b/DRecPy/Recommender/Baseline/user_knn.py
index 7803dbf..6cf6780 100644
--- a/DRecPy/Recommender/Baseline/user_knn.py
+++ b/DRecPy/Recommender/Baseline/user_knn.py
@@ -83,7 +83,8 @@ class UserKNN(BaseKNN):
                 tmp_iid_info[iid][1].append(similarity)
 
         pred_list = []
-        for iid, (interactions, similarities) in tmp_iid_info.items():
+        for iid in iids:
+            interactions, similarities = tmp_iid_info.get(iid, ([], []))
             if len(interactions) == 0 and self.use_averages:
                 pred = self._predict_default(iid if self.type == 'user' else uid)
             else:
-- 
2.43.0


From 334f151b91c1987971f6b318ac9477bdb255cb01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:46 +0000
Subject: [PATCH 29/38] fix: removing internal ids discards the cached
 interaction matrix built from them

---
 DRecPy/Dataset/mem_dataset.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/DRecPy/Dataset/mem_dataset.py b/DRecPy/Dataset/mem_dataset.py
index 8f1f50f..dc17d8f 100644
--- a/DRecPy/Dataset/mem_dataset.py
+++ b/DRecPy/Dataset/mem_dataset.py
@@ -339,6 +339,7 @@ class MemoryInteractionDataset(InteractionDatasetABC):
             self._df = self._df.drop(columns=['uid', 'iid'])
             self.columns.remove('uid')
             self.columns.remove('iid')
+            self._reset_interaction_matrix()
 
     def apply(self, column, function):
         self._validate_column(column)
-- 
2.43.0


From 6889f1a5c95c1111044844ee6af745a6e0434563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:46 +0000
Subject: [PATCH 30/38] fix: database datasets can save a single column

---
 DRecPy/Dataset/db_dataset.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index 9059dfe..ef7ab19 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -442,6 +442,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
                     f.write(','.join(projected_cols))
                     f.write('\n')
                 for row in self.values(columns=projected_cols, to_list=True):
+                    if len(projected_cols) == 1: row = [row]  # single column values are not wrapped in a list
                     f.write(','.join([str(col) if col is not None else '' for col in row]))
                     f.write('\n')
 
-- 
2.43.0


From 7f5694b122df4ea2ddc0dafc401cd379a89cd64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:46 +0000
Subject: [PATCH 31/38] fix: database datasets quote csv values that contain
 delimiters when saving

---
 DRecPy/Dataset/db_dataset.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index ef7ab19..3907c46 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -438,13 +438,11 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
             if 'uid' in projected_cols: projected_cols.remove('uid')
             if 'iid' in projected_cols: projected_cols.remove('iid')
             with open(path, 'w') as f:
-                if write_header:
-                    f.write(','.join(projected_cols))
-                    f.write('\n')
+                writer = csv.writer(f, lineterminator='\n')  # quotes values that contain delimiters, as the csv reader expects
+                if write_header: writer.writerow(projected_cols)
                 for row in self.values(columns=projected_cols, to_list=True):
                     if len(projected_cols) == 1: row = [row]  # single column values are not wrapped in a list
-                    f.write(','.join([str(col) if col is not None else '' for col in row]))
-                    f.write('\n')
+                    writer.writerow(row)
 
     def assign_internal_ids(self):
         self._optimize_states()
-- 
2.43.0


From 50a96f7c4404918e8c79dce9509e55609614c27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:19 +0000
Subject: [PATCH 32/38] fix: unique rows of database datasets are told apart by
 the given columns, not by their record ids, as in memory

---
 DRecPy/Dataset/db_dataset.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index 3907c46..c7dc7dd 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -239,13 +239,14 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
 
         # make sure to always maintain rid on DatabaseInteractionsDataset instances
         new_cols = ','.join(columns)
+        group_cols = ','.join(col for col in columns if col != 'rid') or 'rid'  # rid is distinct on every record
         new_state = f'SELECT {new_cols} FROM ({new_ds._curr_state_source()}) WHERE rid IN ' \
             f'(SELECT MIN(rid) FROM ({new_ds._curr_state_source()}) ' \
-            f'GROUP BY {new_cols})'
+            f'GROUP BY {group_cols})'
         if 'rid' not in columns:
             new_state = f'SELECT {new_cols}, rid FROM ({new_ds._curr_state_source()}) WHERE rid IN ' \
                 f'(SELECT MIN(rid) FROM ({new_ds._curr_state_source()}) ' \
-                f'GROUP BY {new_cols})'
+                f'GROUP BY {group_cols})'
             new_ds.columns.append('rid')
 
         new_ds._update_state(new_state)
@@ -254,9 +255,10 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
     def count_unique(self, columns=None):
         self._record_interaction()
         columns = self._handle_columns(columns)
+        group_cols = ','.join(col for col in columns if col != 'rid') or 'rid'  # rid is distinct on every record
 
         c = self._open_cursor()
-        c.execute(f'SELECT COUNT(*) FROM (SELECT DISTINCT {",".join(columns)} FROM ({self._curr_state_source()}))')
+        c.execute(f'SELECT COUNT(*) FROM (SELECT DISTINCT {group_cols} FROM ({self._curr_state_source()}))')
         return c.fetchone()[0]
 
     def max(self, column=None):
-- 
2.43.0


From add590ca6444d53798368188033dc72fbf4b3661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:40 +0000
Subject: [PATCH 33/38] fix: database datasets skip blank lines of csv files
 when loading, as in memory

---
 DRecPy/Dataset/db_dataset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index c7dc7dd..e829264 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -642,6 +642,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
                 csv_reader = csv.reader(chunk, delimiter=delimiter)
                 records = []
                 for row in csv_reader:
+                    if len(row) == 0: continue  # blank line
                     record = []
                     for value, col in zip(row, projected_cols):
                         if col is None:  # accept None cols when reading as skip cols
@@ -680,7 +681,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
         first_line = None
         with open(path, 'r', encoding=encoding) as f:
             for row in f:
-                if first_line is None and ((num_lines == 0 and has_header is False) or num_lines > 0):
+                if first_line is None and ((num_lines == 0 and has_header is False) or num_lines > 0) and row.strip('\r\n'):
                     if replace_delimiter: row = row.replace(orig_delimiter, new_delimiter)
                     first_line = next(csv.reader([row], delimiter=new_delimiter))
                 num_lines += 1
-- 
2.43.0


From 857332115fa603f99d21947bdcec7eb817e3dc81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:40 +0000
Subject: [PATCH 34/38] fix: database datasets don't split values that contain
 commas when the delimiter has several characters

---
 DRecPy/Dataset/db_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index e829264..3577d23 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -674,7 +674,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
         replace_delimiter = False
         if len(orig_delimiter) > 1:  # due to csv not accept delimiters with more than 1 char
             replace_delimiter = True
-            new_delimiter = ','
+            new_delimiter = '\x1f'  # unit separator: not expected to be part of a value, unlike a comma
 
         # read num of lines + detect column types
         num_lines = 0
-- 
2.43.0


From 25d52c634d492d4a00cf19dfc090305988d43716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:40 +0000
Subject: [PATCH 35/38] fix: records read from a dataframe get record ids of
 their own, not the labels of the given index

---
 DRecPy/Dataset/dataset_factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DRecPy/Dataset/dataset_factory.py b/DRecPy/Dataset/dataset_factory.py
index 783bcc0..7e504ae 100644
--- a/DRecPy/Dataset/dataset_factory.py
+++ b/DRecPy/Dataset/dataset_factory.py
@@ -50,5 +50,5 @@ class InteractionsDatasetFactory:
         Returns:
             A InteractionDataset instance containing the provided data.
         """
-        return MemoryInteractionDataset(df=df.copy(), user_label=user_label, item_label=item_label,
+        return MemoryInteractionDataset(df=df.reset_index(drop=True), user_label=user_label, item_label=item_label,
                                         interaction_label=interaction_label, **kwds)
-- 
2.43.0


From 92636ac3296fce96037c8e2eebe20e47cd736943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:40 +0000
Subject: [PATCH 36/38] fix: integrated dataset files are read with the
 encoding they were stored with

---
 DRecPy/Dataset/integrated_datasets.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DRecPy/Dataset/integrated_datasets.py b/DRecPy/Dataset/integrated_datasets.py
index 452fda7..d6e793a 100644
--- a/DRecPy/Dataset/integrated_datasets.py
+++ b/DRecPy/Dataset/integrated_datasets.py
@@ -86,7 +86,7 @@ def download_dataset(ds_name):
 
         os.remove(tmp_path)
     else:
-        with open(os.path.join(dataset_path, ds_options.full_file), 'w') as f:
+        with open(os.path.join(dataset_path, ds_options.full_file), 'w', encoding=ds_options.encoding) as f:
             f.write(data.decode(ds_options.encoding))
 
 
@@ -100,7 +100,7 @@ def get_dataset(ds_name, path, is_generated=False, force_out_of_memory=False, ve
         download_dataset(ds_name)
 
     if is_generated:
-        return InteractionDataset(path, delimiter=',', columns=ds_options.columns, encoding=ds_options.encoding,
+        return InteractionDataset(path, delimiter=',', columns=ds_options.columns, encoding='utf8',  # as written by save()
                                   in_memory=not force_out_of_memory, verbose=verbose, **kwds)
     else:
         return InteractionDataset(path, delimiter=ds_options.delimiter, columns=ds_options.columns,
-- 
2.43.0


From bc4617691fb6213216b8c25365889980703c0688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:43 +0000
Subject: [PATCH 37/38] fix: pearson and co-rating cosine similarities fail
 when no pair has a similarity value

---
 DRecPy/Recommender/Baseline/similarity.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/DRecPy/Recommender/Baseline/similarity.py b/DRecPy/Recommender/Baseline/similarity.py
index 159dbce..b65a238 100644
--- a/DRecPy/Recommender/Baseline/similarity.py
+++ b/DRecPy/Recommender/Baseline/similarity.py
@@ -55,6 +55,7 @@ def cosine_sim_cf(matrix):
             rows.append(i), cols.append(j), data.append(s)
             if i != j: rows.append(j), cols.append(i), data.append(s)
 
+    if len(data) == 0: return csr_matrix((n, n))  # no pair has a similarity value
     return csr_matrix((data, (rows, cols)))
 
 
@@ -166,6 +167,7 @@ def pearson_corr(matrix):
             rows.append(i), cols.append(j), data.append(s)
             if i != j: rows.append(j), cols.append(i), data.append(s)
 
+    if len(data) == 0: return csr_matrix((n, n))  # no pair has a similarity value
     return csr_matrix((data, (rows, cols)))
 
 
-- 
2.43.0


From 4f64295ea505c60ea50e96fb73cb254a7693bada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:20 +0000
Subject: [PATCH 38/38] fix: closing an on-disk dataset fails when the record
 of temporary files is gone

---
 DRecPy/Dataset/file_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/DRecPy/Dataset/file_utils.py b/DRecPy/Dataset/file_utils.py
index 140a84d..87049b0 100644
--- a/DRecPy/Dataset/file_utils.py
+++ b/DRecPy/Dataset/file_utils.py
@@ -40,12 +40,12 @@ def unregister_temp_file(file_path):
                 if path.strip("\n") != file_path:
                     f.write(path)
                     empty = False
+
+        if empty:
+            os.remove(os.path.join(data_path(), 'tmp_files.txt'))
     except NameError: pass
     except FileNotFoundError: pass
 
-    if empty:
-        os.remove(os.path.join(data_path(), 'tmp_files.txt'))
-
 
 def delete_temp_files():
     try:
-- 
2.43.0

