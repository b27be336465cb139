From a11d59b060ee9a4d3461836e225af2f16a27c186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:46 +0000
Subject: [PATCH 001/114] fix: IndexCollection.difference_update skipped
 elements when given the collection itself

---
 alipy/index/index_collections.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alipy/index/index_collections.py b/alipy/index/index_collections.py
index 016192f..32cef19 100644
--- a/alipy/index/index_collections.py
+++ b/alipy/index/index_collections.py
@@ -183,7 +183,7 @@ class IndexCollection(BaseCollection):
         """
         if not isinstance(other, (list, np.ndarray, IndexCollection)):
             other = [other]
-        for item in other:
+        for item in list(other):
             self.discard(item)
         return self
 
-- 
2.43.0


From da6e3e834a4899a006d0a22b8b7c58f021bb4ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:46 +0000
Subject: [PATCH 002/114] fix: a MultiLabelIndexCollection copied from another
 one could not be updated

---
 alipy/index/index_collections.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alipy/index/index_collections.py b/alipy/index/index_collections.py
index 32cef19..8c93efe 100644
--- a/alipy/index/index_collections.py
+++ b/alipy/index/index_collections.py
@@ -281,7 +281,7 @@ class MultiLabelIndexCollection(IndexCollection):
             self._label_size = label_size
         else:
             if isinstance(data, MultiLabelIndexCollection):
-                self._innercontainer = copy.deepcopy(data.index)
+                self._innercontainer = set(copy.deepcopy(data.index))
                 self._label_size = data._label_size
                 return
             # check given indexes
-- 
2.43.0


From f54301c2ec8071e3aedcd2c6bd19808bfd7821d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:46 +0000
Subject: [PATCH 003/114] fix: construct_by_1d_array used a keyword of
 unravel_index that numpy has removed

---
 alipy/index/index_collections.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alipy/index/index_collections.py b/alipy/index/index_collections.py
index 8c93efe..0d95394 100644
--- a/alipy/index/index_collections.py
+++ b/alipy/index/index_collections.py
@@ -574,7 +574,7 @@ class MultiLabelIndexCollection(IndexCollection):
         row major: [4, 11, 5]
         """
         assert len(label_mat_shape) == 2
-        row, col = np.unravel_index(array, dims=label_mat_shape, order=order)
+        row, col = np.unravel_index(array, label_mat_shape, order=order)
         return cls(data=[(row[i], col[i]) for i in range(len(row))], label_size=label_mat_shape[1])
 
     @classmethod
-- 
2.43.0


From e7f3f9937b09393f220c18b19a3ad2e1738be627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:04 +0000
Subject: [PATCH 004/114] fix: get_matrix_mask(sparse=True) returned an empty
 mask

---
 alipy/index/index_collections.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/alipy/index/index_collections.py b/alipy/index/index_collections.py
index 0d95394..71923dc 100644
--- a/alipy/index/index_collections.py
+++ b/alipy/index/index_collections.py
@@ -11,6 +11,7 @@ import collections
 import copy
 
 import numpy as np
+from scipy.sparse import lil_matrix
 
 from .multi_label_tools import check_index_multilabel, infer_label_size_multilabel, flattern_multilabel_index, \
     integrate_multilabel_index
@@ -527,7 +528,10 @@ class MultiLabelIndexCollection(IndexCollection):
                     "sparse format " + sparse_format + "is not defined. Valid format should be one of "
                                                        "[bsr_matrix, coo_matrix, csc_matrix, csr_matrix, "
                                                        "dia_matrix, dok_matrix, lil_matrix].")
-            mask = eval(sparse_format + '(mat_shape)')
+            filled = lil_matrix(mat_shape)
+            for item in self._innercontainer:
+                filled[item] = fill_value
+            mask = eval(sparse_format + '(filled)')
         else:
             if fill_value == 1 or fill_value == True:
                 mask = np.zeros(mat_shape, dtype=bool)
-- 
2.43.0


From e28cbb733483931b29a16f19f47bda466947a192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:04 +0000
Subject: [PATCH 005/114] fix: map_whole_index_to_train failed for a list of
 training indexes and lost the label size

---
 alipy/index/index_collections.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/alipy/index/index_collections.py b/alipy/index/index_collections.py
index 71923dc..2da5962 100644
--- a/alipy/index/index_collections.py
+++ b/alipy/index/index_collections.py
@@ -701,6 +701,7 @@ def map_whole_index_to_train(train_idx, index_in_whole):
     else:
         raise TypeError("index_in_whole must be one of {IndexCollection, MultiLabelIndexCollection} type.")
 
+    train_idx = np.asarray(train_idx)
     tr_ob = []
     for entry in index_in_whole:
         if ind_type == 2:
@@ -711,6 +712,6 @@ def map_whole_index_to_train(train_idx, index_in_whole):
             assert entry in train_idx
             tr_ob.append(np.argwhere(train_idx == entry)[0][0])
     if ind_type == 2:
-        return MultiLabelIndexCollection(tr_ob)
+        return MultiLabelIndexCollection(tr_ob, label_size=index_in_whole._label_size)
     else:
         return IndexCollection(tr_ob)
-- 
2.43.0


From e26105f895412e8025d6c92585309c3a7b5d7f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:04 +0000
Subject: [PATCH 006/114] fix: MultiLabelIndexCollection.add/discard did not
 split (instance, labels) into pairs and accepted negative labels

---
 alipy/index/index_collections.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/alipy/index/index_collections.py b/alipy/index/index_collections.py
index 2da5962..5130617 100644
--- a/alipy/index/index_collections.py
+++ b/alipy/index/index_collections.py
@@ -333,10 +333,11 @@ class MultiLabelIndexCollection(IndexCollection):
         elif len(value) == 2:
             if isinstance(value[1], collections.Iterable):
                 for item in value[1]:
-                    if item >= self._label_size:
+                    if not 0 <= item < self._label_size:
                         raise ValueError("Index %s is out of bound %s" % (str(item), str(self._label_size)))
+                return self.update([value])
             else:
-                if value[1] >= self._label_size:
+                if not 0 <= value[1] < self._label_size:
                     raise ValueError("Index %s is out of bound %s" % (str(value[1]), str(self._label_size)))
         else:
             raise ValueError("A tuple with 1 or 2 elements is expected, but received: %s" % str(value))
@@ -368,6 +369,8 @@ class MultiLabelIndexCollection(IndexCollection):
         if len(value) == 1:
             value = [(value[0], i) for i in range(self._label_size)]
             return self.difference_update(value)
+        if len(value) == 2 and isinstance(value[1], collections.Iterable):
+            return self.difference_update([value])
         if value not in self._innercontainer:
             warnings.warn("Element %s to discard is not in the collection, skip." % (value.__str__()),
                           category=InexistentElementWarning,
-- 
2.43.0


From d1efb03a7e5aeb842bb74f431d37477e52c21a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:04 +0000
Subject: [PATCH 007/114] fix: IndexCollection turned tuple elements into
 arrays and then rejected tuples

---
 alipy/index/index_collections.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/alipy/index/index_collections.py b/alipy/index/index_collections.py
index 5130617..81c21a0 100644
--- a/alipy/index/index_collections.py
+++ b/alipy/index/index_collections.py
@@ -73,7 +73,8 @@ class IndexCollection(BaseCollection):
                 return
             if not isinstance(data, (list, np.ndarray)):
                 data = [data]
-            self._innercontainer = list(np.unique([i for i in data], axis=0))
+            self._innercontainer = [tuple(i) if isinstance(i, np.ndarray) else i
+                                    for i in np.unique([i for i in data], axis=0)]
             if len(self._innercontainer) != len(data):
                 warnings.warn("There are %d same elements in the given data" % (len(data) - len(self._innercontainer)),
                               category=RepeatElementWarning,
-- 
2.43.0


From 20d5e3cce966deee463ab01f76d4f729c4bf3a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:04 +0000
Subject: [PATCH 008/114] fix: an empty IndexCollection rejected numpy integers

---
 alipy/index/index_collections.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/alipy/index/index_collections.py b/alipy/index/index_collections.py
index 81c21a0..aa8bf73 100644
--- a/alipy/index/index_collections.py
+++ b/alipy/index/index_collections.py
@@ -128,12 +128,12 @@ class IndexCollection(BaseCollection):
         self: object
             return self.
         """
-        if self._element_type is None:
-            self._element_type = type(value)
         # check validation
         if isinstance(value, np.generic):
             # value = np.asscalar(value)  # deprecated in numpy v1.16
             value = value.item()
+        if self._element_type is None:
+            self._element_type = type(value)
         if not isinstance(value, self._element_type):
             raise TypeError(
                 "A %s parameter is expected, but received: %s" % (str(self._element_type), str(type(value))))
-- 
2.43.0


From 76260ccbdc04d958c830acbf53e50bc3e172e28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:18 +0000
Subject: [PATCH 009/114] fix: the label size could not be inferred from
 indexes with different numbers of labels

---
 alipy/index/multi_label_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alipy/index/multi_label_tools.py b/alipy/index/multi_label_tools.py
index 22fdb34..e316ea6 100644
--- a/alipy/index/multi_label_tools.py
+++ b/alipy/index/multi_label_tools.py
@@ -52,7 +52,7 @@ def infer_label_size_multilabel(index_arr, check_arr=True):
         index_arr = check_index_multilabel(index_arr)
     data_len = np.array([len(i) for i in index_arr])
     if np.any(data_len == 2):
-        label_size = np.max([i[1] for i in index_arr if len(i) == 2]) + 1
+        label_size = max(np.max(i[1]) for i in index_arr if len(i) == 2) + 1
     elif np.all(data_len == 1):
         raise Exception(
             "Label_size can not be induced from fully labeled set, label_size must be provided.")
-- 
2.43.0


From 8b990428811ea851c8bc9e034ba58515733f6d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:41 +0000
Subject: [PATCH 010/114] fix: split checked the classes of the wrong rows when
 instance_indexes are not positions

---
 alipy/data_manipulate/al_split.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/alipy/data_manipulate/al_split.py b/alipy/data_manipulate/al_split.py
index edb506b..62a6107 100644
--- a/alipy/data_manipulate/al_split.py
+++ b/alipy/data_manipulate/al_split.py
@@ -143,10 +143,10 @@ def split(X=None, y=None, instance_indexes=None, query_type=None, test_ratio=0.3
                     cutpointlabel = 1
                 label_id = tp_train[0:cutpointlabel]
                 if y.ndim == 1:
-                    if len(np.unique(y[label_id])) == label_num:
+                    if len(np.unique(y[rp[0:cutpointlabel]])) == label_num:
                         break
                 else:
-                    temp = np.sum(y[label_id], axis=0)
+                    temp = np.sum(y[rp[0:cutpointlabel]], axis=0)
                     if not np.any(temp == 0):
                         break
             train_idx.append(tp_train)
-- 
2.43.0


From a2338fe794e16808dfe11277b113c0e3d21618b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:41 +0000
Subject: [PATCH 011/114] fix: split looped forever when rounding left fewer
 initial labels than classes

---
 alipy/data_manipulate/al_split.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alipy/data_manipulate/al_split.py b/alipy/data_manipulate/al_split.py
index 62a6107..6de0482 100644
--- a/alipy/data_manipulate/al_split.py
+++ b/alipy/data_manipulate/al_split.py
@@ -128,7 +128,7 @@ def split(X=None, y=None, instance_indexes=None, query_type=None, test_ratio=0.3
                 label_num = len(np.unique(y))
             else:
                 label_num = y.shape[1]
-            if round((1 - test_ratio) * initial_label_rate * number_of_instance) < label_num:
+            if max(1, round(initial_label_rate * round((1 - test_ratio) * number_of_instance))) < label_num:
                 raise ValueError(
                     "The initial rate is too small to guarantee that each "
                     "split will contain at least one instance for each class.")
-- 
2.43.0


From d0c0665c2932dd4cc854925dbb6e7350043eced7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:41 +0000
Subject: [PATCH 012/114] fix: the feature split lost most of the initial
 entries after a retry for all_features

---
 alipy/data_manipulate/al_split.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alipy/data_manipulate/al_split.py b/alipy/data_manipulate/al_split.py
index 6de0482..c798a47 100644
--- a/alipy/data_manipulate/al_split.py
+++ b/alipy/data_manipulate/al_split.py
@@ -254,7 +254,7 @@ def __split_data_matrix(data_matrix=None, matrix_shape=None, test_ratio=0.3, ini
                     tp_train = instance_indexes[rp[0:cutpoint]]
                     # split label & unlabel
                     train_size = len(tp_train)
-                    lab_ind = randperm((0, train_size * data_shape[1] - 1), int(round(initial_label_rate * train_size)))
+                    lab_ind = randperm((0, train_size * data_shape[1] - 1), int(round(initial_label_rate * train_size * data_shape[1])))
             train_idx.append(tp_train)
             test_idx.append(instance_indexes[rp[cutpoint:]])
             unlab_ind = set(np.arange(train_size * data_shape[1]))
-- 
2.43.0


From f8d68988566c2bb2217109055c36a0a2774a7281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:41 +0000
Subject: [PATCH 013/114] fix: split_multi_label could retry forever with an
 empty labeled set

---
 alipy/data_manipulate/al_split.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/alipy/data_manipulate/al_split.py b/alipy/data_manipulate/al_split.py
index c798a47..eee1ee6 100644
--- a/alipy/data_manipulate/al_split.py
+++ b/alipy/data_manipulate/al_split.py
@@ -282,8 +282,6 @@ def __split_data_matrix(data_matrix=None, matrix_shape=None, test_ratio=0.3, ini
                     rp = randperm(data_shape[0] - 1)
                     cutpoint = int(round((1 - test_ratio) * len(rp)))
                     tp_train = instance_indexes[rp[0:cutpoint]]
-
-                    cutpoint_lab = int(round(initial_label_rate * len(tp_train)))
             train_idx.append(tp_train)
             test_idx.append(instance_indexes[rp[cutpoint:]])
             label_idx.append([(i,) for i in tp_train[0:cutpoint_lab]])
-- 
2.43.0


From f52770bd61c2b209f35a7b8f7f055f42ddf09d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:41 +0000
Subject: [PATCH 014/114] fix: split_multi_label failed when only the label
 shape is given

---
 alipy/data_manipulate/al_split.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alipy/data_manipulate/al_split.py b/alipy/data_manipulate/al_split.py
index eee1ee6..8757af6 100644
--- a/alipy/data_manipulate/al_split.py
+++ b/alipy/data_manipulate/al_split.py
@@ -269,7 +269,7 @@ def __split_data_matrix(data_matrix=None, matrix_shape=None, test_ratio=0.3, ini
             cutpoint_lab = int(round(initial_label_rate * len(tp_train)))
             if cutpoint_lab <= 1:
                 cutpoint_lab = 1
-            if all_class:
+            if all_class and data_matrix is not None:
                 if cutpoint_lab < data_shape[1]:
                     raise ValueError(
                         "The initial rate is too small to guarantee that each "
-- 
2.43.0


From 3fd94ada92192c9df243e35f93a15b6c23bef76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:41 +0000
Subject: [PATCH 015/114] fix: split_load never found the label and unlabel
 indexes saved as .npy

---
 alipy/data_manipulate/al_split.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/alipy/data_manipulate/al_split.py b/alipy/data_manipulate/al_split.py
index 8757af6..724a545 100644
--- a/alipy/data_manipulate/al_split.py
+++ b/alipy/data_manipulate/al_split.py
@@ -431,8 +431,8 @@ def split_load(path):
     ret_arr = []
     for fname in ['train_idx.txt', 'test_idx.txt', 'label_idx.txt', 'unlabel_idx.txt']:
         if not os.path.exists(os.path.join(saving_path, fname)):
-            if os.path.exists(os.path.join(saving_path, fname.split()[0] + '.npy')):
-                ret_arr.append(np.load(os.path.join(saving_path, fname.split()[0] + '.npy')))
+            if os.path.exists(os.path.join(saving_path, os.path.splitext(fname)[0] + '.npy')):
+                ret_arr.append(np.load(os.path.join(saving_path, os.path.splitext(fname)[0] + '.npy')))
             else:
                 ret_arr.append(None)
         else:
-- 
2.43.0


From 64e3e4dba3f46754420e5ca6132e24a71c1693c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:41 +0000
Subject: [PATCH 016/114] fix: split_load dropped the split dimension of a
 single split

---
 alipy/data_manipulate/al_split.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alipy/data_manipulate/al_split.py b/alipy/data_manipulate/al_split.py
index 724a545..b93aa0c 100644
--- a/alipy/data_manipulate/al_split.py
+++ b/alipy/data_manipulate/al_split.py
@@ -436,7 +436,7 @@ def split_load(path):
             else:
                 ret_arr.append(None)
         else:
-            ret_arr.append(np.loadtxt(os.path.join(saving_path, fname), dtype=int))
+            ret_arr.append(np.loadtxt(os.path.join(saving_path, fname), dtype=int, ndmin=2))
     return ret_arr[0], ret_arr[1], ret_arr[2], ret_arr[3]
 
 
-- 
2.43.0


From 0e990146c40db2285c4d2d85d546d0af21e6d51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:41 +0000
Subject: [PATCH 017/114] fix: nlargestarg returned too few positions when n
 exceeds the size

---
 alipy/utils/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alipy/utils/misc.py b/alipy/utils/misc.py
index 52da0ef..b256cea 100644
--- a/alipy/utils/misc.py
+++ b/alipy/utils/misc.py
@@ -132,7 +132,7 @@ def nlargestarg(a, n):
     assert (n > 0)
     argret = np.argsort(a)
     # ascent
-    return argret[argret.size - n:]
+    return argret[max(argret.size - n, 0):]
 
 
 def nsmallestarg(a, n):
-- 
2.43.0


From d6bad2e6b347176755d7e37c5d3db7138eccd556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:51 +0000
Subject: [PATCH 018/114] fix: split_load mixed indexes of an earlier split of
 another kind into the saved one

---
 alipy/data_manipulate/al_split.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/alipy/data_manipulate/al_split.py b/alipy/data_manipulate/al_split.py
index b93aa0c..3e1a589 100644
--- a/alipy/data_manipulate/al_split.py
+++ b/alipy/data_manipulate/al_split.py
@@ -460,7 +460,13 @@ def split_save(train_idx, test_idx, label_idx, unlabel_idx, path):
     if os.path.isdir(saving_path):
         np.savetxt(os.path.join(saving_path, 'train_idx.txt'), train_idx, fmt='%d')
         np.savetxt(os.path.join(saving_path, 'test_idx.txt'), test_idx, fmt='%d')
-        if len(np.shape(label_idx)) == 2:
+        is_1d_split = len(np.shape(label_idx)) == 2
+        # files of an earlier split with the other kind of indexes must not be loaded with this split
+        for fname in ('label_idx', 'unlabel_idx'):
+            stale = os.path.join(saving_path, fname + ('.npy' if is_1d_split else '.txt'))
+            if os.path.exists(stale):
+                os.remove(stale)
+        if is_1d_split:
             np.savetxt(os.path.join(saving_path, 'label_idx.txt'), label_idx, fmt='%d')
             np.savetxt(os.path.join(saving_path, 'unlabel_idx.txt'), unlabel_idx, fmt='%d')
         else:
-- 
2.43.0


From 536ae6b5cf961e002bb51e0c48e4aab4468e3514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:05 +0000
Subject: [PATCH 019/114] fix: StateIO.pop() failed without an index and kept
 counting the removed state

---
 alipy/experiment/state_io.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/alipy/experiment/state_io.py b/alipy/experiment/state_io.py
index cba4882..5f167c0 100644
--- a/alipy/experiment/state_io.py
+++ b/alipy/experiment/state_io.py
@@ -219,7 +219,9 @@ class StateIO:
 
     def pop(self, i=None):
         """remove and return item at index (default last)."""
-        return self.__state_list.pop(i)
+        state = self.__state_list.pop() if i is None else self.__state_list.pop(i)
+        self.refresh_info()
+        return state
 
     def recover_workspace(self, iteration=None):
         """Recover workspace after $iteration$ querying.
-- 
2.43.0


From 4a21f0bee25709b20a2b4669ad5e32e190f660ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:05 +0000
Subject: [PATCH 020/114] fix: recover_workspace kept the cost and the number
 of queries of the discarded states

---
 alipy/experiment/state_io.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/alipy/experiment/state_io.py b/alipy/experiment/state_io.py
index 5f167c0..64c53f8 100644
--- a/alipy/experiment/state_io.py
+++ b/alipy/experiment/state_io.py
@@ -258,6 +258,7 @@ class StateIO:
             work_U.difference_update(state.get_value('select_index'))
             work_L.update(state.get_value('select_index'))
         self.__state_list = self.__state_list[0:iteration]
+        self.refresh_info()
         return copy.copy(self.train_idx), copy.copy(self.test_idx), copy.deepcopy(work_L), copy.deepcopy(work_U)
 
     def get_workspace(self, iteration=None):
-- 
2.43.0


From 71e49f7b53bf2dc13a709576a63aeb4b79c2d071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:05 +0000
Subject: [PATCH 021/114] fix: check_batch_size was False for a single state

---
 alipy/experiment/state_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alipy/experiment/state_io.py b/alipy/experiment/state_io.py
index 64c53f8..5e431de 100644
--- a/alipy/experiment/state_io.py
+++ b/alipy/experiment/state_io.py
@@ -210,7 +210,7 @@ class StateIO:
             Whether all the states have the same batch size.
         """
         ind_uni = np.unique(
-            [self.__state_list[i].batch_size for i in range(len(self.__state_list) - 1)], axis=0)
+            [state.batch_size for state in self.__state_list[:max(len(self.__state_list) - 1, 1)]], axis=0)
         if len(ind_uni) == 1:
             self.batch_size = ind_uni[0]
             return True
-- 
2.43.0


From 086e88890198d22aa3baf2dfa8eacbef5e507e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:05 +0000
Subject: [PATCH 022/114] fix: add_state accepted a dictionary and then failed
 on it

---
 alipy/experiment/state_io.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/alipy/experiment/state_io.py b/alipy/experiment/state_io.py
index 5e431de..3a2fc04 100644
--- a/alipy/experiment/state_io.py
+++ b/alipy/experiment/state_io.py
@@ -174,6 +174,11 @@ class StateIO:
         if not isinstance(state, State):
             assert isinstance(state, dict), "state must be dict or State object."
             assert 'select_index' in state and 'queried_info' in state and 'performance' in state, "The dict must contain the following keys: ['select_index', 'queried_info', 'performance']"
+            entries = dict(state)
+            state = State(select_index=entries.pop('select_index'), performance=entries.pop('performance'),
+                          queried_label=entries.pop('queried_label', None), cost=entries.pop('cost', None))
+            for key, value in entries.items():
+                state.add_element(key, value)
         self.__state_list.append(copy.deepcopy(state))
         self.__update_info()
 
-- 
2.43.0


From b4940aaad72648ff4fa272986aa9d22ff9a0d570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:05 +0000
Subject: [PATCH 023/114] fix: a crash while StateIO was saving destroyed the
 previous intermediate file

---
 alipy/experiment/state_io.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/alipy/experiment/state_io.py b/alipy/experiment/state_io.py
index 3a2fc04..d652d9e 100644
--- a/alipy/experiment/state_io.py
+++ b/alipy/experiment/state_io.py
@@ -158,9 +158,12 @@ class StateIO:
         """Saving intermediate results to file."""
         if self._saving_dir is None:
             return
-        f = open(os.path.join(self._saving_dir, self._saving_file_name), 'wb')
+        # an interrupted save must not destroy the previous file
+        path = os.path.join(self._saving_dir, self._saving_file_name)
+        f = open(path + '.tmp', 'wb')
         pickle.dump(self, f)
         f.close()
+        os.replace(path + '.tmp', path)
 
     def add_state(self, state):
         """Add a State object to the container.
-- 
2.43.0


From 4f73dd0dc795593a6657c86bef07fbbf6d2585c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:05 +0000
Subject: [PATCH 024/114] fix: StateIO inferred different label sizes for the
 initial labeled and unlabeled sets

---
 alipy/experiment/state_io.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/alipy/experiment/state_io.py b/alipy/experiment/state_io.py
index d652d9e..cdbe00f 100644
--- a/alipy/experiment/state_io.py
+++ b/alipy/experiment/state_io.py
@@ -25,7 +25,7 @@ import prettytable as pt
 
 from .state import State
 from ..index import IndexCollection, MultiLabelIndexCollection
-from ..index.multi_label_tools import check_index_multilabel
+from ..index.multi_label_tools import check_index_multilabel, infer_label_size_multilabel
 from ..utils.interface import BaseCollection
 
 __all__ = ['StateIO',
@@ -101,8 +101,10 @@ class StateIO:
             try:
                 check_index_multilabel(init_L)
                 check_index_multilabel(init_U)
-                self.init_U = copy.deepcopy(MultiLabelIndexCollection(init_U))
-                self.init_L = copy.deepcopy(MultiLabelIndexCollection(init_L))
+                # both sets index the same label matrix
+                label_size = infer_label_size_multilabel(list(init_U) + list(init_L))
+                self.init_U = copy.deepcopy(MultiLabelIndexCollection(init_U, label_size=label_size))
+                self.init_L = copy.deepcopy(MultiLabelIndexCollection(init_L, label_size=label_size))
             except TypeError:
                 self.init_U = copy.deepcopy(IndexCollection(init_U))
                 self.init_L = copy.deepcopy(IndexCollection(init_L))
-- 
2.43.0


From 7a69f2ee884fcf644fc06f30ab2f17a06debf5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:47 +0000
Subject: [PATCH 025/114] fix: percent_of_unlabel divided by zero when there is
 no unlabeled data

---
 alipy/experiment/stopping_criteria.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alipy/experiment/stopping_criteria.py b/alipy/experiment/stopping_criteria.py
index c691489..f9f7d0a 100644
--- a/alipy/experiment/stopping_criteria.py
+++ b/alipy/experiment/stopping_criteria.py
@@ -124,7 +124,7 @@ class StoppingCriteria:
         elif self._stopping_criteria == 'cost_limit':
             self._accum_cost = saver.cost_inall
         elif self._stopping_criteria == 'percent_of_unlabel':
-            self._percent = (len(ini_Uindex)-len(Uindex))/len(ini_Uindex)
+            self._percent = (len(ini_Uindex)-len(Uindex))/len(ini_Uindex) if len(ini_Uindex) > 0 else 1
         return self
 
     def reset(self):
-- 
2.43.0


From 84c1e558d6ad3d8230bb997b50b70aa24ab67644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:25 +0000
Subject: [PATCH 026/114] fix: querying an unknown item of an oracle raised a
 TypeError from the error message

---
 alipy/oracle/oracle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alipy/oracle/oracle.py b/alipy/oracle/oracle.py
index b0c8d6c..327f184 100644
--- a/alipy/oracle/oracle.py
+++ b/alipy/oracle/oracle.py
@@ -249,7 +249,7 @@ class Oracle(interface.BaseVirtualOracle):
         -------
 
         """
-        raise KeyError("%s is not in the " + dict_name + " of this oracle" % str(key))
+        raise KeyError("%s is not in the %s of this oracle" % (str(key), dict_name))
 
     def __repr__(self):
         return str(self._ind2all)
-- 
2.43.0


From c4573f6bf4a8445719e7d7022d75fee24c3f9063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:25 +0000
Subject: [PATCH 027/114] fix: query_by_example of a multi-label oracle never
 found the example

---
 alipy/oracle/oracle.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/alipy/oracle/oracle.py b/alipy/oracle/oracle.py
index 327f184..226a311 100644
--- a/alipy/oracle/oracle.py
+++ b/alipy/oracle/oracle.py
@@ -506,9 +506,9 @@ class OracleQueryMultiLabel(Oracle):
             # fetch data
             if example_fea in self._exa2ind.keys():
                 if k_len == 1:
-                    q_id.append((example_fea,))
+                    q_id.append((self._exa2ind[example_fea],))
                 else:
-                    q_id.append((example_fea, k[1]))
+                    q_id.append((self._exa2ind[example_fea], k[1]))
             else:
                 self._do_missing(example_fea, 'instance pool')
         return self.query_by_index(q_id)
-- 
2.43.0


From 16136e7cc977d521a8108014d9db0d194334613d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:25 +0000
Subject: [PATCH 028/114] fix: a multi-label oracle failed to answer when the
 costs are lists

---
 alipy/oracle/oracle.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/alipy/oracle/oracle.py b/alipy/oracle/oracle.py
index 226a311..a5103db 100644
--- a/alipy/oracle/oracle.py
+++ b/alipy/oracle/oracle.py
@@ -341,6 +341,7 @@ class OracleQueryMultiLabel(Oracle):
                 cost = np.asarray(cost)
                 cost = np.tile(cost, (self._label_shape[0], 1))
             else:
+                cost = np.asarray(cost)
                 self._fine_grained_cost = True
         super(OracleQueryMultiLabel, self).__init__(labels, examples, indexes, cost)
 
@@ -390,7 +391,7 @@ class OracleQueryMultiLabel(Oracle):
                 raise ValueError(
                     "Different dimension of cost found when adding entries: %s is expected but received: %s" %
                     (str(self._label_shape[1]), str(len(cost))))
-            self._ind2all[index] = (np.array(label), cost)
+            self._ind2all[index] = (np.array(label), np.array(cost))
         else:
             self._ind2all[index] = np.array(label)
 
-- 
2.43.0


From bd07b27249347ae2504e67a2e57ede0481675f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:25 +0000
Subject: [PATCH 029/114] fix: a group of oracles failed on answers with
 different numbers of labels

---
 alipy/oracle/oracle.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/alipy/oracle/oracle.py b/alipy/oracle/oracle.py
index a5103db..2db85f7 100644
--- a/alipy/oracle/oracle.py
+++ b/alipy/oracle/oracle.py
@@ -579,7 +579,7 @@ class Oracles:
         result = self._oracle_dict[oracle_name].query_by_index(index_for_querying)
 
         self._update_query_history([oracle_name], [result], index_for_querying)
-        self.cost_inall += np.sum(np.asarray(result[1]).flatten())
+        self.cost_inall += np.sum([np.sum(c) for c in result[1]])
         return result
 
     def query_from_s(self, index_for_querying, oracles_name=None):
@@ -610,7 +610,7 @@ class Oracles:
             results.append(self._oracle_dict[name].query_by_index(index_for_querying))
 
         self._update_query_history(oracles_name, results, index_for_querying)
-        self.cost_inall += np.sum(np.array([result[1] for result in results]).flatten())
+        self.cost_inall += np.sum([np.sum(c) for result in results for c in result[1]])
         return results
 
     def get_oracle(self, oracle_name):
-- 
2.43.0


From a29ff9f46860a3f7f655a0205f3e6b3d189f723a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:25 +0000
Subject: [PATCH 030/114] fix: example_keys of an oracle returned an array
 holding a dict view

---
 alipy/oracle/oracle.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/alipy/oracle/oracle.py b/alipy/oracle/oracle.py
index 2db85f7..fa6644c 100644
--- a/alipy/oracle/oracle.py
+++ b/alipy/oracle/oracle.py
@@ -86,7 +86,7 @@ class Oracle(interface.BaseVirtualOracle):
     @property
     def example_keys(self):
         if self._instance_flag:
-            return np.asarray(self._exa2ind.keys())
+            return np.asarray(list(self._exa2ind.keys()))
         else:
             return None
 
@@ -575,7 +575,7 @@ class Oracles:
             corresponding costs produced by query.
         """
         if oracle_name is None:
-            oracle_name = random.sample(self._oracle_dict.keys(), 1)[0]
+            oracle_name = random.sample(list(self._oracle_dict.keys()), 1)[0]
         result = self._oracle_dict[oracle_name].query_by_index(index_for_querying)
 
         self._update_query_history([oracle_name], [result], index_for_querying)
-- 
2.43.0


From c3ecb1bd274622ac91c833b9725f827cfabf624b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:48 +0000
Subject: [PATCH 031/114] fix: ElementRepository.clear() failed without
 examples and kept the examples otherwise

---
 alipy/oracle/knowledge_repository.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/alipy/oracle/knowledge_repository.py b/alipy/oracle/knowledge_repository.py
index 5e168ed..3b3ba87 100644
--- a/alipy/oracle/knowledge_repository.py
+++ b/alipy/oracle/knowledge_repository.py
@@ -80,6 +80,8 @@ class ElementRepository(BaseRepository):
         self._instance_flag = False if examples is None else True
 
         # several indexes construct
+        self._exa2ind = dict()
+        self._ind2exa = dict()
         if self._instance_flag:
             examples = [tuple(vec) for vec in examples]
             self._exa2ind = dict(zip(examples, self._indexes))
@@ -293,8 +295,8 @@ class ElementRepository(BaseRepository):
         """Clear this container."""
         self._indexes.clear()
         self._exa2ind.clear()
+        self._ind2exa.clear()
         self._ind2label.clear()
-        self._indexes.clear()
         self._instance_flag = False
         self.cost_inall = 0
         self._cost_arr = []
-- 
2.43.0


From c4b8261aba9e1fa0dbdd9cfa4605a9e2ca2d270e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:48 +0000
Subject: [PATCH 032/114] fix: an index added twice to an ElementRepository was
 kept twice and failed after a discard

---
 alipy/oracle/knowledge_repository.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/alipy/oracle/knowledge_repository.py b/alipy/oracle/knowledge_repository.py
index 3b3ba87..75c720e 100644
--- a/alipy/oracle/knowledge_repository.py
+++ b/alipy/oracle/knowledge_repository.py
@@ -119,6 +119,9 @@ class ElementRepository(BaseRepository):
                 raise Exception("This repository has the instance information,"
                                 "must provide example parameter when adding entry")
             example = tuple(example)
+            if select_index in self._ind2exa:
+                # the index is queried again, its former example is replaced
+                self._exa2ind.pop(self._ind2exa[select_index], None)
             self._exa2ind[example] = select_index
             self._ind2exa[select_index] = example
 
@@ -126,8 +129,9 @@ class ElementRepository(BaseRepository):
             self.cost_inall += np.sum(cost)
             self._cost_arr.append(cost)
 
+        if select_index not in self._ind2label:
+            self._indexes.append(select_index)
         self._ind2label[select_index] = label
-        self._indexes.append(select_index)
         return self
 
     def discard(self, index=None, example=None):
-- 
2.43.0


From 451a826a28865a579ac1798e55c55b23e384c6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:48 +0000
Subject: [PATCH 033/114] fix: MatrixRepository kept the label of an addition
 refused for its missing example

---
 alipy/oracle/knowledge_repository.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/alipy/oracle/knowledge_repository.py b/alipy/oracle/knowledge_repository.py
index 75c720e..305a91e 100644
--- a/alipy/oracle/knowledge_repository.py
+++ b/alipy/oracle/knowledge_repository.py
@@ -393,6 +393,10 @@ class MatrixRepository(BaseRepository):
             if hasattr(label, '__len__'):
                 raise TypeError("The initialized label array only have 1 dimension, "
                                 "but received an array like label: %s." % str(label))
+        if self._instance_flag and example is None:
+            raise Exception("This repository has the instance information,"
+                            "must provide example parameter when adding entry")
+        if self._y.ndim == 1:
             self._y = np.append(self._y, [label])
         else:
             # this operation will check the validity automatically.
@@ -401,11 +405,7 @@ class MatrixRepository(BaseRepository):
         self._cost_arr.append(cost)
         self.cost_inall += np.sum(cost) if cost is not None else 0
         if self._instance_flag:
-            if example is None:
-                raise Exception("This repository has the instance information,"
-                                "must provide example parameter when adding entry")
-            else:
-                self._X = np.append(self._X, [example], axis=0)
+            self._X = np.append(self._X, [example], axis=0)
         return self
 
     def update_query(self, labels, indexes, cost=None, examples=None):
-- 
2.43.0


From 6fcafe8843cb00d100cdab4b7457e7971fd2abcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:48 +0000
Subject: [PATCH 034/114] fix: MatrixRepository warned about its first index,
 returned a wrong shape for a single one and failed on unknown ones

---
 alipy/oracle/knowledge_repository.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/alipy/oracle/knowledge_repository.py b/alipy/oracle/knowledge_repository.py
index 305a91e..3444316 100644
--- a/alipy/oracle/knowledge_repository.py
+++ b/alipy/oracle/knowledge_repository.py
@@ -501,13 +501,20 @@ class MatrixRepository(BaseRepository):
             The retrieved labels.
         """
         if not isinstance(indexes, (list, np.ndarray, BaseCollection)):
-            ind = np.argwhere(self._indexes == indexes)  # will return empty array if not found.
-            if not ind:
+            ind = np.argwhere(self._indexes == indexes).flatten()  # will return empty array if not found.
+            if len(ind) == 0:
                 warnings.warn("Index %s for retrieving is not in the repository, skip." % str(indexes),
                               category=ValidityWarning)
             return self._X[ind,] if self._instance_flag else None, self._y[ind,]
         else:
-            ind = [np.argwhere(self._indexes == indexes[i]).flatten()[0] for i in range(len(indexes))]
+            ind = []
+            for i in range(len(indexes)):
+                found = np.argwhere(self._indexes == indexes[i]).flatten()
+                if len(found) == 0:
+                    warnings.warn("Index %s for retrieving is not in the repository, skip." % str(indexes[i]),
+                                  category=ValidityWarning)
+                else:
+                    ind.append(found[0])
             return self._X[ind,] if self._instance_flag else None, self._y[ind,]
 
     def _find_one_example(self, example):
-- 
2.43.0


From 45d9737a8ff6ab40fc6a929e6da474a05da06fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:48 +0000
Subject: [PATCH 035/114] fix: a cleared MatrixRepository could not be used

---
 alipy/oracle/knowledge_repository.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/alipy/oracle/knowledge_repository.py b/alipy/oracle/knowledge_repository.py
index 3444316..ef94146 100644
--- a/alipy/oracle/knowledge_repository.py
+++ b/alipy/oracle/knowledge_repository.py
@@ -591,8 +591,8 @@ class MatrixRepository(BaseRepository):
         self.num_of_queries = 0
         self._instance_flag = False
         self._X = None
-        self._y = None
-        self._indexes = None
+        self._y = self._y[0:0]
+        self._indexes = self._indexes[0:0]
         self._query_history.clear()
 
     def _update_query_history(self, labels, indexes, cost):
-- 
2.43.0


From 8e3fc375226d06f0d2e0fee9be43c7aa39928ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:48 +0000
Subject: [PATCH 036/114] fix: MatrixRepository shared its index array with the
 caller

---
 alipy/oracle/knowledge_repository.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/alipy/oracle/knowledge_repository.py b/alipy/oracle/knowledge_repository.py
index ef94146..f41619d 100644
--- a/alipy/oracle/knowledge_repository.py
+++ b/alipy/oracle/knowledge_repository.py
@@ -351,7 +351,7 @@ class MatrixRepository(BaseRepository):
             raise ValueError("Different length of the given parameters found.")
 
         self._y = check_array(labels, ensure_2d=False, dtype=None)
-        self._indexes = np.asarray(indexes)
+        self._indexes = np.array(indexes)
         self._instance_flag = False if examples is None else True
         if self._instance_flag:
             self._X = check_array(examples, accept_sparse='csr', ensure_2d=True, order='C')
@@ -580,7 +580,7 @@ class MatrixRepository(BaseRepository):
             The indexes of the instances and labels.
             e.g. the first row of X_train is the indexes[0] instance in feature matrix X.
         """
-        return copy.deepcopy(self._X), copy.deepcopy(self._y), np.asarray(self._indexes)
+        return copy.deepcopy(self._X), copy.deepcopy(self._y), copy.deepcopy(self._indexes)
 
     def clear(self):
         """
-- 
2.43.0


From daefab4474d5200d2cd5f948f4dcfdb7fe57190c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:14 +0000
Subject: [PATCH 037/114] fix: MatrixRepository shared its initial labels and
 examples with the caller

---
 alipy/oracle/knowledge_repository.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/alipy/oracle/knowledge_repository.py b/alipy/oracle/knowledge_repository.py
index f41619d..eaa5b48 100644
--- a/alipy/oracle/knowledge_repository.py
+++ b/alipy/oracle/knowledge_repository.py
@@ -350,11 +350,11 @@ class MatrixRepository(BaseRepository):
         if not check_one_to_one_correspondence(labels, indexes, examples):
             raise ValueError("Different length of the given parameters found.")
 
-        self._y = check_array(labels, ensure_2d=False, dtype=None)
+        self._y = check_array(labels, ensure_2d=False, dtype=None, copy=True)
         self._indexes = np.array(indexes)
         self._instance_flag = False if examples is None else True
         if self._instance_flag:
-            self._X = check_array(examples, accept_sparse='csr', ensure_2d=True, order='C')
+            self._X = check_array(examples, accept_sparse='csr', ensure_2d=True, order='C', copy=True)
         else:
             self._X = None
 
-- 
2.43.0


From 8a60c2e9cc7fffe05e78f0cd33e4b6f742104178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:14 +0000
Subject: [PATCH 038/114] fix: discarding one of two equal examples lost the
 other one in an ElementRepository

---
 alipy/oracle/knowledge_repository.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/alipy/oracle/knowledge_repository.py b/alipy/oracle/knowledge_repository.py
index eaa5b48..4a8649f 100644
--- a/alipy/oracle/knowledge_repository.py
+++ b/alipy/oracle/knowledge_repository.py
@@ -121,7 +121,7 @@ class ElementRepository(BaseRepository):
             example = tuple(example)
             if select_index in self._ind2exa:
                 # the index is queried again, its former example is replaced
-                self._exa2ind.pop(self._ind2exa[select_index], None)
+                self._forget_example(select_index)
             self._exa2ind[example] = select_index
             self._ind2exa[select_index] = example
 
@@ -158,7 +158,7 @@ class ElementRepository(BaseRepository):
             self._indexes.remove(index)
             self._ind2label.pop(index)
             if self._instance_flag:
-                self._exa2ind.pop(self._ind2exa.pop(index))
+                self._forget_example(index)
 
         if example is not None:
             if not self._instance_flag:
@@ -172,11 +172,19 @@ class ElementRepository(BaseRepository):
                     return self
                 ind = self._exa2ind[example]
                 self._indexes.remove(ind)
-                self._exa2ind.pop(example)
-                self._ind2exa.pop(ind)
+                self._forget_example(ind)
                 self._ind2label.pop(ind)
         return self
 
+    def _forget_example(self, index):
+        """Remove the example of an index, other indexes may have the same example."""
+        example = self._ind2exa.pop(index)
+        if self._exa2ind.get(example) == index:
+            self._exa2ind.pop(example)
+            for other, exa in self._ind2exa.items():
+                if exa == example:
+                    self._exa2ind[example] = other
+
     def update_query(self, indexes, labels, cost=None, examples=None):
         """Updating data base with queried information.
 
-- 
2.43.0


From b3a2215a0d8745a97ee653d049065c176cef8556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:00 +0000
Subject: [PATCH 039/114] fix: entropy sampling changed the prediction matrix
 of the caller

---
 alipy/query_strategy/query_labels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alipy/query_strategy/query_labels.py b/alipy/query_strategy/query_labels.py
index 1876178..4f4f13d 100644
--- a/alipy/query_strategy/query_labels.py
+++ b/alipy/query_strategy/query_labels.py
@@ -214,7 +214,7 @@ class QueryInstanceUncertainty(BaseIndexQuery):
 
         if self.measure == 'entropy':
             # calc entropy
-            pv[pv <= 0] = 1e-06  # avoid zero division
+            pv = np.where(pv <= 0, 1e-06, pv)  # avoid zero division
             entro = [-np.sum(vec * np.log(vec+1e-9)) for vec in pv]
             assert (len(np.shape(entro)) == 1)
             return unlabel_index[nlargestarg(entro, batch_size)]
-- 
2.43.0


From c3732edba973ffb56ce6006c2507b37526064081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:00 +0000
Subject: [PATCH 040/114] fix: random sampling failed for unlabeled indexes
 given as a list or an array

---
 alipy/query_strategy/query_labels.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/alipy/query_strategy/query_labels.py b/alipy/query_strategy/query_labels.py
index 4f4f13d..d8f1453 100644
--- a/alipy/query_strategy/query_labels.py
+++ b/alipy/query_strategy/query_labels.py
@@ -289,7 +289,7 @@ class QueryRandom(BaseIndexQuery):
         if len(unlabel_index) <= batch_size:
             return np.array([i for i in unlabel_index])
         perm = randperm(len(unlabel_index) - 1, batch_size)
-        tpl = list(unlabel_index.index)
+        tpl = list(unlabel_index)
         return [tpl[i] for i in perm]
 
 
@@ -319,7 +319,7 @@ class QueryInstanceRandom(BaseIndexQuery):
         if len(unlabel_index) <= batch_size:
             return np.array([i for i in unlabel_index])
         perm = randperm(len(unlabel_index) - 1, batch_size)
-        tpl = list(unlabel_index.index)
+        tpl = list(unlabel_index)
         return [tpl[i] for i in perm]
 
 
-- 
2.43.0


From 7e456e8674ced402a54fdab0252173a3044a8458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:00 +0000
Subject: [PATCH 041/114] fix: QBC failed for prediction matrices given as
 lists

---
 alipy/query_strategy/query_labels.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/alipy/query_strategy/query_labels.py b/alipy/query_strategy/query_labels.py
index d8f1453..1afa52e 100644
--- a/alipy/query_strategy/query_labels.py
+++ b/alipy/query_strategy/query_labels.py
@@ -532,7 +532,7 @@ class QueryInstanceQBC(BaseIndexQuery):
                 raise ValueError("The predicted label matrix must only contain 0 and 1")
             # calc each instance
             for i in range(input_shape[0]):
-                instance_mat = np.array([X[i, :] for X in predict_matrices if X is not None])
+                instance_mat = np.array([X[i] for X in predict_matrices if X is not None])
                 voting = np.sum(instance_mat, axis=0)
                 tmp = 0
                 # calc each label
@@ -581,7 +581,7 @@ class QueryInstanceQBC(BaseIndexQuery):
             label_num = input_shape[1]
             # calc kl div for each instance
             for i in range(input_shape[0]):
-                instance_mat = np.array([X[i, :] for X in predict_matrices if X is not None])
+                instance_mat = np.array([X[i] for X in predict_matrices if X is not None])
                 tmp = 0
                 # calc each label
                 for lab in range(label_num):
-- 
2.43.0


From cce248a65641b27c496f4280a0f5e33ba3c4f0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:00 +0000
Subject: [PATCH 042/114] fix: expected error reduction used class labels as
 columns of the prediction

---
 alipy/query_strategy/query_labels.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/alipy/query_strategy/query_labels.py b/alipy/query_strategy/query_labels.py
index 1afa52e..6fbaaf9 100644
--- a/alipy/query_strategy/query_labels.py
+++ b/alipy/query_strategy/query_labels.py
@@ -693,7 +693,8 @@ class QueryExpectedErrorReduction(BaseIndexQuery):
         label_y = self.y[label_index]
         ##################################
 
-        classes = np.unique(self.y)
+        # the columns of the prediction are the classes of the model
+        classes = model.classes_ if hasattr(model, 'classes_') else np.unique(self.y)
         pv, spv = _get_proba_pred(unlabel_x, model)
         scores = []
         for i in range(spv[0]):
@@ -703,11 +704,11 @@ class QueryExpectedErrorReduction(BaseIndexQuery):
             unlabel_ind.pop(i)
             new_unlabel_X = self.X[unlabel_ind, :]
             score = []
-            for yi in classes:
+            for ci, yi in enumerate(classes):
                 new_model = copy.deepcopy(model)
                 new_model.fit(new_train_X, np.append(label_y, yi))
                 prob = new_model.predict_proba(new_unlabel_X)
-                score.append(pv[i, yi] * self.log_loss(prob))
+                score.append(pv[i, ci] * self.log_loss(prob))
             scores.append(np.sum(score))
 
         return unlabel_index[nsmallestarg(scores, batch_size)]
-- 
2.43.0


From f4f3a2d6cf27483e0f4b7ac3516fcd453c8fea58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:00 +0000
Subject: [PATCH 043/114] fix: expected error reduction was undefined for a
 prediction of probability zero

---
 alipy/query_strategy/query_labels.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/alipy/query_strategy/query_labels.py b/alipy/query_strategy/query_labels.py
index 6fbaaf9..9b1a9d8 100644
--- a/alipy/query_strategy/query_labels.py
+++ b/alipy/query_strategy/query_labels.py
@@ -647,7 +647,8 @@ class QueryExpectedErrorReduction(BaseIndexQuery):
         log_loss = 0.0
         for i in range(len(prob)):
             for p in list(prob[i]):
-                log_loss -= p * np.log(p)
+                if p > 0:
+                    log_loss -= p * np.log(p)
         return log_loss
 
     def select(self, label_index, unlabel_index, model=None, batch_size=1):
-- 
2.43.0


From 43cd5fde25f5b8c8a5e965ac465c7042935a4690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:00 +0000
Subject: [PATCH 044/114] fix: QUIRE did not compute the inverses of the blocks
 of L it evaluates instances with

---
 alipy/query_strategy/query_labels.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/alipy/query_strategy/query_labels.py b/alipy/query_strategy/query_labels.py
index 9b1a9d8..36ccd74 100644
--- a/alipy/query_strategy/query_labels.py
+++ b/alipy/query_strategy/query_labels.py
@@ -849,7 +849,7 @@ class QueryInstanceQUIRE(BaseIndexQuery):
         det_Laa = np.linalg.det(L[np.ix_(Uindex, Uindex)])
         # efficient computation of inv(Laa)
         M3 = np.dot(self.K[np.ix_(Uindex, Lindex)],
-                    np.linalg.inv(self.lmbda * np.eye(len(Lindex))))
+                    np.linalg.inv(self.lmbda * np.eye(len(Lindex)) + self.K[np.ix_(Lindex, Lindex)]))
         M2 = np.dot(M3, self.K[np.ix_(Lindex, Uindex)])
         M1 = self.lmbda * np.eye(len(Uindex)) + self.K[np.ix_(Uindex, Uindex)]
         inv_Laa = M1 - M2
@@ -864,7 +864,7 @@ class QueryInstanceQUIRE(BaseIndexQuery):
             iList_r = iList[:]
             iList_r.remove(i)
             inv_Luu = inv_Laa[np.ix_(iList_r, iList_r)] - 1 / inv_Laa[i, i] * \
-                                                          np.dot(inv_Laa[iList_r, i], inv_Laa[iList_r, i].T)
+                                                          np.outer(inv_Laa[iList_r, i], inv_Laa[iList_r, i])
             tmp = np.dot(
                 L[each_index][Lindex] -
                 np.dot(
-- 
2.43.0


From 4a868c3bebc7d1111f12eefd8dfa074ed4741790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:00 +0000
Subject: [PATCH 045/114] fix: the core-set strategy failed for training
 indexes given as a list

---
 alipy/query_strategy/query_labels.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/alipy/query_strategy/query_labels.py b/alipy/query_strategy/query_labels.py
index 36ccd74..82401af 100644
--- a/alipy/query_strategy/query_labels.py
+++ b/alipy/query_strategy/query_labels.py
@@ -1809,6 +1809,7 @@ class QueryInstanceCoresetGreedy(BaseIndexQuery):
     """
 
     def __init__(self, X, y, train_idx, distance='euclidean'):
+        train_idx = np.asarray(train_idx)
         self.X = X[train_idx,:]
         self.y = y[train_idx]
         self.name = 'kcenter'
-- 
2.43.0


From 218612ed46910fb5fe4819dd545f4867ce22b565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:00 +0000
Subject: [PATCH 046/114] fix: the core-set strategy failed when the batch
 covers all unlabeled instances

---
 alipy/query_strategy/query_labels.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/alipy/query_strategy/query_labels.py b/alipy/query_strategy/query_labels.py
index 82401af..3c76c4f 100644
--- a/alipy/query_strategy/query_labels.py
+++ b/alipy/query_strategy/query_labels.py
@@ -1871,6 +1871,8 @@ class QueryInstanceCoresetGreedy(BaseIndexQuery):
         -------
           indices of points selected to minimize distance to cluster centers
         """
+        if len(unlabel_index) <= batch_size:
+            return [i for i in unlabel_index]
         already_selected = [np.where(self.train_idx == id)[0].item() for id in label_index]
         self.update_distances(already_selected, only_new=True, reset_dist=False)
 
-- 
2.43.0


From ff68eec95de5b7b728102fa1620bf047f4c4100d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:00 +0000
Subject: [PATCH 047/114] fix: density weighted margin sampling preferred the
 less diverse instances

---
 alipy/query_strategy/query_labels.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/alipy/query_strategy/query_labels.py b/alipy/query_strategy/query_labels.py
index 3c76c4f..e784d85 100644
--- a/alipy/query_strategy/query_labels.py
+++ b/alipy/query_strategy/query_labels.py
@@ -1942,8 +1942,9 @@ class QueryInstanceDensityWeighted(BaseIndexQuery):
             # return unlabel_index[nlargestarg(entro, batch_size)]
         elif self.uncertainty_meansure == 'margin':
             # calc margin
+            # (1 - margin, which is not negative and can be weighted by the diversity)
             pat = np.partition(pv, (spv[1] - 2, spv[1] - 1), axis=1)
-            pat = pat[:, spv[1] - 2] - pat[:, spv[1] - 1]
+            pat = 1 + pat[:, spv[1] - 2] - pat[:, spv[1] - 1]
             # return unlabel_index[nlargestarg(pat, batch_size)]
         elif self.uncertainty_meansure == 'least_confident':
             # calc least_confident
-- 
2.43.0


From 6872c18354981a3ab860fb59ad0942bfce5a8c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:32 +0000
Subject: [PATCH 048/114] fix: zero_one_loss(normalize=False) subtracted the
 accuracy from the number of samples

---
 alipy/metrics/performance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alipy/metrics/performance.py b/alipy/metrics/performance.py
index 6864862..0e278ed 100644
--- a/alipy/metrics/performance.py
+++ b/alipy/metrics/performance.py
@@ -258,7 +258,7 @@ def zero_one_loss(y_true, y_pred, normalize=True, sample_weight=None):
             n_samples = np.sum(sample_weight)
         else:
             n_samples = _num_samples(y_true)
-        return n_samples - score
+        return n_samples * (1 - score)
 
 
 # def f1_score(y_true, y_pred, pos_label=1, sample_weight=None):
-- 
2.43.0


From 7deb78bbe8aa7745918d60abe11cbc75ddf159b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:32 +0000
Subject: [PATCH 049/114] fix: one_error counted the samples with as many
 labels predicted as true

---
 alipy/metrics/performance.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/alipy/metrics/performance.py b/alipy/metrics/performance.py
index 0e278ed..dd6692b 100644
--- a/alipy/metrics/performance.py
+++ b/alipy/metrics/performance.py
@@ -530,7 +530,8 @@ def hamming_loss(y_true, y_pred):
 
 def one_error(y_true, y_pred, sample_weight=None):
     '''
-        Compute the one_error,similar to 0/1-loss.
+        Compute the one_error,similar to 0/1-loss: the fraction of samples
+        whose top-ranked label is not one of the true labels.
     Parameters
     ----------
     y_true : array, shape = [n_samples] or [n_samples, n_classes]
@@ -553,9 +554,10 @@ def one_error(y_true, y_pred, sample_weight=None):
     n_samples, n_labels = y_true.shape
     if y_type != "multilabel":
         raise ValueError("{0} format is not supported".format(y_type))
-    n_differents = np.sum((y_true - y_pred), axis=1) == 0
+    top_label = np.argmax(y_pred, axis=1)
+    not_relevant = y_true[np.arange(n_samples), top_label] != 1
 
-    return n_differents.sum() / n_samples
+    return np.average(not_relevant, weights=sample_weight)
 
 
 def coverage_error(y_true, y_score, sample_weight=None):
-- 
2.43.0


From 9e4c46698cbd1d0c799419edbd323b4d08c1a338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:32 +0000
Subject: [PATCH 050/114] fix: label_ranking_average_precision_score ignored
 the weight of samples without a ranking

---
 alipy/metrics/performance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alipy/metrics/performance.py b/alipy/metrics/performance.py
index dd6692b..159da01 100644
--- a/alipy/metrics/performance.py
+++ b/alipy/metrics/performance.py
@@ -714,7 +714,7 @@ def label_ranking_average_precision_score(y_true, y_score, sample_weight=None):
         if (relevant.size == 0 or relevant.size == n_labels):
             # If all labels are relevant or unrelevant, the score is also
             # equal to 1. The label ranking has no meaning.
-            out += 1.
+            out += 1. if sample_weight is None else sample_weight[i]
             continue
 
         scores_i = y_score[i]
-- 
2.43.0


From fd71a6a3f5059c59858cb3e77748027078ee01a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:32 +0000
Subject: [PATCH 051/114] fix: hamming_loss compared a column of labels with
 every prediction

---
 alipy/metrics/performance.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/alipy/metrics/performance.py b/alipy/metrics/performance.py
index 159da01..d7bbd45 100644
--- a/alipy/metrics/performance.py
+++ b/alipy/metrics/performance.py
@@ -523,6 +523,7 @@ def hamming_loss(y_true, y_pred):
         n_differences = np.sum(y_true != y_pred)
         return n_differences / (num_samples * num_classses)
     elif y_type in ["binary", "multiclass"]:
+        y_true, y_pred = np.ravel(y_true), np.ravel(y_pred)
         return np.sum(y_true != y_pred) / y_true.shape[0]
     else:
         raise ValueError("{0} is not supported".format(y_type))
-- 
2.43.0


From 6b8676b3f69dbf67779483349db62dea7950e054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:32 +0000
Subject: [PATCH 052/114] fix: micro_auc_score averaged over the labels,
 counted ties as errors and divided by zero for a label with one class

---
 alipy/metrics/performance.py | 35 +++--------------------------------
 1 file changed, 3 insertions(+), 32 deletions(-)

diff --git a/alipy/metrics/performance.py b/alipy/metrics/performance.py
index d7bbd45..a73ad05 100644
--- a/alipy/metrics/performance.py
+++ b/alipy/metrics/performance.py
@@ -810,38 +810,9 @@ def micro_auc_score(y_true, y_score, sample_weight=None):
             not (y_type == "binary" and y_true.ndim == 2)):
         raise ValueError("{0} format is not supported".format(y_type))
 
-    test_data_num = y_score.shape[0]
-    class_num = y_score.shape[1]
-    P = []
-    N = []
-    labels_size = []
-    not_labels_size = []
-    AUC = 0
-    for i in range(class_num):
-        P.append([])
-        N.append([])
-    
-    for i in range(test_data_num):
-            for j in range(class_num):
-                if y_true[i][j] == 1:
-                    P[j].append(i)
-                else:
-                    N[j].append(i)
-    
-    for i in range(class_num):
-        labels_size.append(len(P[i]))
-        not_labels_size.append(len(N[i]))
-    
-    for i in range(class_num):
-        auc = 0
-        for j in range(labels_size[i]):
-            for k in range(not_labels_size[i]):
-                pos = y_score[P[i][j]][i]
-                neg = y_score[N[i][k]][i]
-                if pos > neg:
-                    auc = auc + 1
-        AUC = AUC + auc*1.0/(labels_size[i]*not_labels_size[i])
-    return AUC*1.0/class_num
+    if sample_weight is not None:
+        sample_weight = np.repeat(sample_weight, y_score.shape[1])
+    return roc_auc_score(np.ravel(y_true), np.ravel(y_score), pos_label=1, sample_weight=sample_weight)
 
 
 def average_precision_score(y_true, y_score, sample_weight=None):
-- 
2.43.0


From 72d471a9a628a042605b88d61f771f28ca1609bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:32 +0000
Subject: [PATCH 053/114] fix: average_precision_score counted samples without
 a ranking as errors and failed on integer scores

---
 alipy/metrics/performance.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/alipy/metrics/performance.py b/alipy/metrics/performance.py
index a73ad05..8ee2cae 100644
--- a/alipy/metrics/performance.py
+++ b/alipy/metrics/performance.py
@@ -756,7 +756,7 @@ def findmax(outputs):
 
 
 def sort(x):
-    temp = np.array(x)
+    temp = np.array(x, dtype=float)
     length = temp.shape[0]
     index = []
     sortX = []
@@ -883,4 +883,4 @@ def average_precision_score(y_true, y_score, sample_weight=None):
             loc = findIndex(labels_index[i][j], index)
             summary = summary + sum(indicator[loc:class_num])*1.0/(class_num-loc)
         aveprec = aveprec + summary*1.0/labels_size[i]
-    return aveprec*1.0/test_data_num
+    return aveprec*1.0/instance_num
-- 
2.43.0


From e26c439d77f2c4c6c5f173177c7ac238caabdfbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:58 +0000
Subject: [PATCH 054/114] fix: the sample weights of the ranking metrics were
 ignored

---
 alipy/metrics/performance.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/alipy/metrics/performance.py b/alipy/metrics/performance.py
index 8ee2cae..6e55393 100644
--- a/alipy/metrics/performance.py
+++ b/alipy/metrics/performance.py
@@ -295,7 +295,7 @@ def zero_one_loss(y_true, y_pred, normalize=True, sample_weight=None):
 #     return 2 * (p * r) / (p + r)
 
 
-def get_fps_tps_thresholds(y_true, y_score, pos_label=None):
+def get_fps_tps_thresholds(y_true, y_score, pos_label=None, sample_weight=None):
     '''
     Calculate true and false positives per binary classification threshold.
 
@@ -346,6 +346,8 @@ def get_fps_tps_thresholds(y_true, y_score, pos_label=None):
     thresholds = np.array(y_score)[desc_score_indices]
     y_true = np.array(y_true)[desc_score_indices]
     y_score = np.array(y_score)[desc_score_indices]
+    if sample_weight is not None:
+        sample_weight = np.array(sample_weight)[desc_score_indices]
     tps = []
     fps = [] 
     for threshold in thresholds:
@@ -354,6 +356,10 @@ def get_fps_tps_thresholds(y_true, y_score, pos_label=None):
         postive = [i == 1 for i in y_prob]
         tp = [i and j for i, j in zip(result, postive)]
         fp = [(not i) and j for i, j in zip(result, postive)]
+        if sample_weight is not None:
+            tps.append(sum(w for w, i in zip(sample_weight, tp) if i))
+            fps.append(sum(w for w, i in zip(sample_weight, fp) if i))
+            continue
         tps.append(tp.count(True))
         fps.append(fp.count(True))
     return np.array(fps), np.array(tps), thresholds
@@ -392,7 +398,7 @@ def precision_recall_curve(y_true, y_score, pos_label=None,
         Increasing thresholds on the decision function used to compute
         precision and recall.
     '''
-    fps, tps, thresholds = get_fps_tps_thresholds(y_true, y_score, pos_label=pos_label)
+    fps, tps, thresholds = get_fps_tps_thresholds(y_true, y_score, pos_label=pos_label, sample_weight=sample_weight)
 
     precision = tps / (tps + fps)
     precision[np.isnan(precision)] = 0
@@ -438,7 +444,7 @@ def roc_curve(y_true, y_score, pos_label=None, sample_weight=None):
         fpr and tpr. `thresholds[0]` represents no instances being predicted
         and is arbitrarily set to `max(y_score) + 1`.
     '''
-    fps, tps, thresholds = get_fps_tps_thresholds(y_true, y_score, pos_label=pos_label)
+    fps, tps, thresholds = get_fps_tps_thresholds(y_true, y_score, pos_label=pos_label, sample_weight=sample_weight)
 
     if np.array(tps).size == 0 or fps[0] != 0 or tps[0] != 0:
         # Add an extra threshold position if necessary
@@ -485,7 +491,7 @@ def roc_auc_score(y_true, y_score, pos_label=None, sample_weight=None):
     -------
     auc : float
     """
-    fpr, tpr, _ = roc_curve(y_true, y_score, pos_label=pos_label, sample_weight=None)
+    fpr, tpr, _ = roc_curve(y_true, y_score, pos_label=pos_label, sample_weight=sample_weight)
     return _auc(fpr, tpr)    
 
 
@@ -861,12 +867,14 @@ def average_precision_score(y_true, y_score, sample_weight=None):
     labels_index = []
     not_labels_index = []
     labels_size = []
+    weights = []
     for i in range(test_data_num):
         if sum(y_true[i]) != class_num and sum(y_true[i]) != 0:
             instance_num = instance_num + 1
             temp_outputs.append(y_score[i])
             temp_test_target.append(y_true[i])
             labels_size.append(sum(y_true[i] == 1))
+            weights.append(1 if sample_weight is None else sample_weight[i])
             index1, index2 = find(y_true[i], 1, 0)            
             labels_index.append(index1)
             not_labels_index.append(index2)
@@ -882,5 +890,7 @@ def average_precision_score(y_true, y_score, sample_weight=None):
         for j in range(labels_size[i]):
             loc = findIndex(labels_index[i][j], index)
             summary = summary + sum(indicator[loc:class_num])*1.0/(class_num-loc)
-        aveprec = aveprec + summary*1.0/labels_size[i]
-    return aveprec*1.0/instance_num
+        aveprec = aveprec + weights[i]*summary*1.0/labels_size[i]
+    if instance_num == 0:
+        return 0.
+    return aveprec*1.0/sum(weights)
-- 
2.43.0


From d6365fc780a0d549037bcccf0e8c4ca3b19ffc1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:17 +0000
Subject: [PATCH 055/114] fix: majority_vote ignored the weights of the oracles

---
 alipy/query_strategy/noisy_oracles.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/alipy/query_strategy/noisy_oracles.py b/alipy/query_strategy/noisy_oracles.py
index c36e220..8ed6966 100644
--- a/alipy/query_strategy/noisy_oracles.py
+++ b/alipy/query_strategy/noisy_oracles.py
@@ -83,7 +83,9 @@ def majority_vote(labels, weight=None):
     oracle_weight = np.ones(len(labels)) if weight is None else weight
     assert len(labels) == len(oracle_weight)
 
-    vote_result = collections.Counter(labels)
+    vote_result = collections.Counter()
+    for label, votes in zip(labels, [1] * len(labels) if weight is None else weight):
+        vote_result[label] += votes
     most_votes = vote_result.most_common(n=1)
     return most_votes[0][1], most_votes[0][0]
 
-- 
2.43.0


From 8b7aaa5300a92946f28eb938fadbe080d9980fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:17 +0000
Subject: [PATCH 056/114] fix: the query results of a list of oracles ignored
 the selection of oracles

---
 alipy/query_strategy/noisy_oracles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alipy/query_strategy/noisy_oracles.py b/alipy/query_strategy/noisy_oracles.py
index 8ed6966..372cea8 100644
--- a/alipy/query_strategy/noisy_oracles.py
+++ b/alipy/query_strategy/noisy_oracles.py
@@ -127,7 +127,7 @@ def get_query_results(selected_instance, oracles, names=None):
             raise TypeError("The type of parameter oracles must be a list or alipy.oracle.Oracles object.")
         labeling_results = []
         if oracle_type == 'list':
-            for i in oracles.names() if oracle_type == 'oracles' else range(len(oracles)):
+            for i in range(len(oracles)) if names is None else names:
                 lab, co = oracles[i].query_by_index(selected_instance)
                 labeling_results.append(lab[0])
                 costs.append(np.sum(co))
-- 
2.43.0


From b5fdf2d2f2c5ed5ea66abdaa8881dc37febb3d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:17 +0000
Subject: [PATCH 057/114] fix: CEAL ignored eval_cost

---
 alipy/query_strategy/noisy_oracles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alipy/query_strategy/noisy_oracles.py b/alipy/query_strategy/noisy_oracles.py
index 372cea8..c5b8f51 100644
--- a/alipy/query_strategy/noisy_oracles.py
+++ b/alipy/query_strategy/noisy_oracles.py
@@ -297,7 +297,7 @@ class QueryNoisyOraclesCEAL(BaseNoisyOracleQuery):
             If a Oracles object is given, the oracle name will be returned.
         """
         n_neighbors = min(kwargs.pop('n_neighbors', 10), len(self._ini_ind)-1)
-        eval_cost = kwargs.pop('n_neighbors', False)
+        eval_cost = kwargs.pop('eval_cost', False)
         Q_table, oracle_ind_name_dict = self._calc_Q_table(label_index, unlabel_index, self._oracles, predict,
                                                            n_neighbors=n_neighbors, eval_cost=eval_cost)
         # get the instance-oracle pair
-- 
2.43.0


From ba0373bd9949efdd6a33ea51961e8347d85f5809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:17 +0000
Subject: [PATCH 058/114] fix: the strategies for noisy oracles failed or
 selected no oracle for the last unlabeled instance

---
 alipy/query_strategy/noisy_oracles.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/alipy/query_strategy/noisy_oracles.py b/alipy/query_strategy/noisy_oracles.py
index c5b8f51..9e4ce9c 100644
--- a/alipy/query_strategy/noisy_oracles.py
+++ b/alipy/query_strategy/noisy_oracles.py
@@ -349,8 +349,6 @@ class QueryNoisyOraclesCEAL(BaseNoisyOracleQuery):
         unlabel_index = np.asarray(unlabel_index)
         label_index = np.asarray(label_index)
         num_of_neighbors = n_neighbors
-        if len(unlabel_index) <= 1:
-            return unlabel_index
 
         Q_table = np.zeros((len(oracles), len(unlabel_index)))  # row:oracle, col:ins
         spv = np.shape(pred_unlab)
@@ -446,8 +444,6 @@ class QueryNoisyOraclesSelectInstanceUncertainty(BaseNoisyOracleQuery, metaclass
         assert (isinstance(label_index, collections.Iterable))
         unlabel_index = np.asarray(unlabel_index)
         label_index = np.asarray(label_index)
-        if len(unlabel_index) <= 1:
-            return unlabel_index
 
         # select instance and oracle
         unc = QueryInstanceUncertainty(measure='least_confident')
-- 
2.43.0


From d5c49ea1f495c97bb16491d4a0db3d8d8fa9f671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:17 +0000
Subject: [PATCH 059/114] fix: QueryNoisyOraclesAll returned a dict view
 instead of a list of oracles

---
 alipy/query_strategy/noisy_oracles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alipy/query_strategy/noisy_oracles.py b/alipy/query_strategy/noisy_oracles.py
index 9e4ce9c..b218cc8 100644
--- a/alipy/query_strategy/noisy_oracles.py
+++ b/alipy/query_strategy/noisy_oracles.py
@@ -606,7 +606,7 @@ class QueryNoisyOraclesAll(QueryNoisyOraclesSelectInstanceUncertainty):
         oracles_ind: list
             The indexes of selected oracles.
         """
-        return self._oracle_ind_name_dict.values()
+        return list(self._oracle_ind_name_dict.values())
 
 
 class QueryNoisyOraclesRandom(QueryNoisyOraclesSelectInstanceUncertainty):
-- 
2.43.0


From 9ae543b15c2d22ee207aedf6d7b61c872d2035e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:25 +0000
Subject: [PATCH 060/114] fix: the cost-sensitive strategies dropped a
 candidate of every label instead of the known ones

---
 alipy/query_strategy/cost_sensitive.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/alipy/query_strategy/cost_sensitive.py b/alipy/query_strategy/cost_sensitive.py
index aa67f58..1df3d0c 100644
--- a/alipy/query_strategy/cost_sensitive.py
+++ b/alipy/query_strategy/cost_sensitive.py
@@ -447,9 +447,8 @@ class QueryCostSensitiveHALC(BaseMultiLabelQuery):
             sort_index = np.argsort(j_info)
             sort_index = sort_index[::-1]
             sort_index = sort_index[0: budget]
-            useless_index = np.where(Infor[sort_index][j] == -np.infty)
-            sort_index = sort_index[: budget - len(useless_index)]
-            
+            sort_index = sort_index[Infor[sort_index, j] != -np.infty]
+
             j_instance_pair = np.column_stack((sort_index, np.ones(len(sort_index), dtype=int) * j))
             for k in sort_index:
                 infor_value = np.r_[infor_value, Infor[k][j]]
@@ -634,8 +633,7 @@ class QueryCostSensitivePerformance(BaseMultiLabelQuery):
             sort_index = np.argsort(j_info)
             sort_index = sort_index[::-1]
             sort_index = sort_index[0: budget]
-            useless_index = np.where(uncertainty[sort_index][j] == -np.infty)
-            sort_index = sort_index[: budget - len(useless_index)]  
+            sort_index = sort_index[uncertainty[sort_index, j] != -np.infty]
             j_instance_pair = np.column_stack((sort_index, np.ones(len(sort_index), dtype=int) * j))
             for k in sort_index:
                 infor_value = np.r_[infor_value, uncertainty[k][j]]
-- 
2.43.0


From f3b4466fc9e53342f9c062e4368f0983f6e84d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:25 +0000
Subject: [PATCH 061/114] fix: HALC selected pairs that are not in the
 unlabeled set

---
 alipy/query_strategy/cost_sensitive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alipy/query_strategy/cost_sensitive.py b/alipy/query_strategy/cost_sensitive.py
index 1df3d0c..96e6dd1 100644
--- a/alipy/query_strategy/cost_sensitive.py
+++ b/alipy/query_strategy/cost_sensitive.py
@@ -373,7 +373,7 @@ class QueryCostSensitiveHALC(BaseMultiLabelQuery):
                     Infor[i][j] = Uncertainty[i][j] * 2
                 elif flag == -1:
                     Infor[i][j] = Uncertainty[i][j] + self.cal_Udes(i, j, Uncertainty)
-            Infor[j_label][j] = -np.infty
+            Infor[j_label, j] = -np.infty
         return Infor
         
     def select(self, label_index, unlabel_index, cost=None, oracle=None, budget=40, models=None, base_model=None):
-- 
2.43.0


From fdcc251cd371a7f155a9612f825a5f20a19a21a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:25 +0000
Subject: [PATCH 062/114] fix: HALC failed to vote when only some neighbours
 are labeled

---
 alipy/query_strategy/cost_sensitive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alipy/query_strategy/cost_sensitive.py b/alipy/query_strategy/cost_sensitive.py
index 96e6dd1..f967d1d 100644
--- a/alipy/query_strategy/cost_sensitive.py
+++ b/alipy/query_strategy/cost_sensitive.py
@@ -331,7 +331,7 @@ class QueryCostSensitiveHALC(BaseMultiLabelQuery):
             if i in label_samples[0]:
                 g_j = self.y[i, j_class]
             else:
-                g_j = models[j_class].predict([self.X[i, :]])
+                g_j = models[j_class].predict([self.X[i, :]])[0]
             vote.append(np.sign(g_j))       
         return np.sign(np.sum(vote)) 
     
-- 
2.43.0


From c25886bc13b5b6326c85c5989ea67ef0f1b80384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:25 +0000
Subject: [PATCH 063/114] fix: HALC did not find the descendants of a label and
 counted the known ones as minus infinity

---
 alipy/query_strategy/cost_sensitive.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/alipy/query_strategy/cost_sensitive.py b/alipy/query_strategy/cost_sensitive.py
index f967d1d..6a3248d 100644
--- a/alipy/query_strategy/cost_sensitive.py
+++ b/alipy/query_strategy/cost_sensitive.py
@@ -345,10 +345,10 @@ class QueryCostSensitiveHALC(BaseMultiLabelQuery):
         while not que.empty():
             temp = que.get()
             if np.any(self.label_tree[temp]):
-                for i in self.label_tree[temp]:
-                    if self.label_tree[temp, i] == 1:
+                for i in range(self.n_classes):
+                    if self.label_tree[temp][i] == 1:
                         que.put(i)
-            else:
+            elif Uncertainty[xi_index][temp] != -np.infty:
                 Udes += Uncertainty[xi_index][temp]
         return Udes
     
-- 
2.43.0


From 15d784b082cec636768af065f47ab32bfcc7b659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:25 +0000
Subject: [PATCH 064/114] fix: HALC required as many weights as instances

---
 alipy/query_strategy/cost_sensitive.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/alipy/query_strategy/cost_sensitive.py b/alipy/query_strategy/cost_sensitive.py
index 6a3248d..57a49b2 100644
--- a/alipy/query_strategy/cost_sensitive.py
+++ b/alipy/query_strategy/cost_sensitive.py
@@ -268,8 +268,8 @@ class QueryCostSensitiveHALC(BaseMultiLabelQuery):
         if weights is None:
             self.weights = np.ones(self.n_classes)
         else:
-            assert(np.shape(y)[0] == len(weights))
-            self.weights = weights
+            self.weights = np.asarray(weights).flatten()
+            assert(self.n_classes == len(self.weights))
         self.label_tree = label_tree
         self.Distance = self._cal_Distance()
     
-- 
2.43.0


From 0fcb3244f33961fb6bd12396b73825df05b4f6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:25 +0000
Subject: [PATCH 065/114] fix: QueryCostSensitiveRandom failed when the budget
 covers all unlabeled pairs

---
 alipy/query_strategy/cost_sensitive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alipy/query_strategy/cost_sensitive.py b/alipy/query_strategy/cost_sensitive.py
index 57a49b2..fd37fc1 100644
--- a/alipy/query_strategy/cost_sensitive.py
+++ b/alipy/query_strategy/cost_sensitive.py
@@ -530,7 +530,7 @@ class QueryCostSensitiveRandom(BaseMultiLabelQuery):
         instance_pair = MultiLabelIndexCollection(label_size=n_classes)
         un_ind = copy.deepcopy(unlabel_index)
         current_cost = 0.
-        while True:
+        while len(un_ind) > 0:
             rand = np.random.choice(len(un_ind))
             i_j = flattern_multilabel_index(un_ind.index)[rand]
             j_class = i_j[1]
-- 
2.43.0


From 082e446807bca4558e40a58c71fe8e5814ad5c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:25 +0000
Subject: [PATCH 066/114] fix: hierarchical_multilabel_mark marked the labels
 that are not implied by a label instead of the implied ones

---
 alipy/query_strategy/cost_sensitive.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/alipy/query_strategy/cost_sensitive.py b/alipy/query_strategy/cost_sensitive.py
index fd37fc1..66b0e2d 100644
--- a/alipy/query_strategy/cost_sensitive.py
+++ b/alipy/query_strategy/cost_sensitive.py
@@ -213,16 +213,22 @@ def hierarchical_multilabel_mark(multilabel_index, label_index, label_tree, y_tr
     for instance_label_pair in multilabel_index:
         i_instance = instance_label_pair[0]
         j_label = instance_label_pair[1]
-        if y_true[instance_label_pair] == 1:
-            for descent_label in range(n_classes):
-                if label_tree[j_label][descent_label] == 1:
-                    if (not (i_instance, descent_label) in label_index):
-                        add_label_index.update((i_instance, descent_label))   
-        elif y_true[instance_label_pair] == -1:
-            for parent_label in range(n_classes):
-                if label_tree[parent_label][j_label] == 1:
-                    if (not (i_instance, parent_label) in label_index):
-                        add_label_index.update((i_instance, parent_label))
+        # the ancestors of a relevant label are relevant, the descendants of an irrelevant one irrelevant
+        implied_labels = []
+        to_visit = [j_label]
+        while len(to_visit) > 0:
+            node = to_visit.pop()
+            for other_label in range(n_classes):
+                if y_true[instance_label_pair] == 1:
+                    implied = label_tree[other_label][node] == 1
+                else:
+                    implied = y_true[instance_label_pair] == -1 and label_tree[node][other_label] == 1
+                if implied and other_label != j_label and other_label not in implied_labels:
+                    implied_labels.append(other_label)
+                    to_visit.append(other_label)
+        for implied_label in implied_labels:
+            if not (i_instance, implied_label) in label_index and not (i_instance, implied_label) in add_label_index:
+                add_label_index.update((i_instance, implied_label))
 
     for i in add_label_index:
         if not i in multilabel_index:
-- 
2.43.0


From ce5f6d71cd1f5887a898fd2c08ee31f47ffa09d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:25 +0000
Subject: [PATCH 067/114] fix: the knapsack failed for a capacity given as a
 float

---
 alipy/query_strategy/cost_sensitive.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/alipy/query_strategy/cost_sensitive.py b/alipy/query_strategy/cost_sensitive.py
index 66b0e2d..cb54b95 100644
--- a/alipy/query_strategy/cost_sensitive.py
+++ b/alipy/query_strategy/cost_sensitive.py
@@ -49,6 +49,8 @@ def select_Knapsack_01(infor_value, costs, capacity):
     """
     assert(len(infor_value) == len(costs))
     num = len(infor_value)
+    # the costs are integers
+    capacity = int(capacity)
     dp = np.zeros((num + 1, capacity + 1))
     flag = np.zeros(num)
     for i in range(num):
-- 
2.43.0


From 0845ae7bddb6b0a63061aba404cfbf5f5af79ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:15 +0000
Subject: [PATCH 068/114] fix: the cost-sensitive strategies could not ask an
 oracle for the costs

---
 alipy/query_strategy/cost_sensitive.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/alipy/query_strategy/cost_sensitive.py b/alipy/query_strategy/cost_sensitive.py
index cb54b95..fa8cac3 100644
--- a/alipy/query_strategy/cost_sensitive.py
+++ b/alipy/query_strategy/cost_sensitive.py
@@ -440,7 +440,7 @@ class QueryCostSensitiveHALC(BaseMultiLabelQuery):
             cost = [1]*n_classes
 
         if oracle:
-            _, costs = oracle.query_by_index(range(self.n_classes))
+            _, costs = oracle.query_by_index(list(range(self.n_classes)))
         else:
             costs = cost
         
@@ -531,7 +531,7 @@ class QueryCostSensitiveRandom(BaseMultiLabelQuery):
         if oracle is None and cost is None:
             cost = [1]*n_classes
         if oracle:
-            _, costs = oracle.query_by_index(range(n_classes))
+            _, costs = oracle.query_by_index(list(range(n_classes)))
         else:
             costs = cost
 
@@ -621,7 +621,7 @@ class QueryCostSensitivePerformance(BaseMultiLabelQuery):
             cost = [1]*n_classes
 
         if oracle:
-            _, costs = oracle.query_by_index(range(self.n_classes))
+            _, costs = oracle.query_by_index(list(range(self.n_classes)))
         else:
             costs = cost
         if models is None:
-- 
2.43.0


From 4628aa7fcc6e2a74f43476b6157d92b04d51849f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:08 +0000
Subject: [PATCH 069/114] fix: StandardScale divided by the variance, which is
 not unit variance and is zero for a constant feature

---
 alipy/data_manipulate/datapreprocess.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/alipy/data_manipulate/datapreprocess.py b/alipy/data_manipulate/datapreprocess.py
index ffc98f1..cc5d86b 100644
--- a/alipy/data_manipulate/datapreprocess.py
+++ b/alipy/data_manipulate/datapreprocess.py
@@ -87,7 +87,7 @@ def StandardScale(X):
     
     The transformation is given by::
 
-        x_StdS = (X - X.mean(axis=0)) / X.var(axis=0)
+        x_StdS = (X - X.mean(axis=0)) / X.std(axis=0)
 
     Parameters
     ----------
@@ -111,7 +111,7 @@ def StandardScale(X):
         raise TypeError("X array does not has mean or var methods")
     
     data_mean = X.mean(axis=0)
-    data_var = X.var(axis=0)
-    x_StdS = (X - data_mean) / data_var
+    data_std = _handle_zeros_in_scale(np.sqrt(X.var(axis=0)))
+    x_StdS = (X - data_mean) / data_std
 
     return x_StdS
-- 
2.43.0


From 3a583aa980ae81e16bd74069138ec1dc70452d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:19 +0000
Subject: [PATCH 070/114] fix: the multi-label QUIRE paired the labels with
 other pairs and did not compute the inverses of the blocks of L

---
 alipy/query_strategy/multi_label.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/alipy/query_strategy/multi_label.py b/alipy/query_strategy/multi_label.py
index 8b6855e..ab59f01 100644
--- a/alipy/query_strategy/multi_label.py
+++ b/alipy/query_strategy/multi_label.py
@@ -466,7 +466,8 @@ class QueryMultiLabelQUIRE(BaseMultiLabelQuery):
         Sidx = label_index.get_onedim_index(order='F', ins_num=self.X.shape[0])
         Uidx = np.sort(Uidx)
         Sidx = np.sort(Sidx)
-        Ys = [self.y[lind] for lind in label_index]
+        # the labels in the order of Sidx (column major)
+        Ys = [self.y[ind % self.X.shape[0], ind // self.X.shape[0]] for ind in Sidx]
         # for lind in label_index:
         #     Sidx.append(lind[0])
         #     Ys.append(self.y[lind])
@@ -485,7 +486,7 @@ class QueryMultiLabelQUIRE(BaseMultiLabelQuery):
             tmp0 = Lqq  # +Ys'*Lss*Ys;
 
             b = -(LL[i, tmpidx])
-            invLrr = LL[np.ix_(tmpidx, tmpidx)] - b.T.dot(b) / LL[i, i]
+            invLrr = LL[np.ix_(tmpidx, tmpidx)] - np.outer(b, b) / LL[i, i]
             vt1 = YsLsu[tmpidx]
             vt2 = 2 * YsLsu[i]
             tmp1 = vt1 + Lqr
-- 
2.43.0


From 4cab3fae3377371efe024f83f37130cceaf3a301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:19 +0000
Subject: [PATCH 071/114] fix: a label that is -1 for all labeled instances was
 predicted as relevant with certainty

---
 alipy/query_strategy/multi_label.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alipy/query_strategy/multi_label.py b/alipy/query_strategy/multi_label.py
index ab59f01..538c4a0 100644
--- a/alipy/query_strategy/multi_label.py
+++ b/alipy/query_strategy/multi_label.py
@@ -641,7 +641,7 @@ class DummyClf():
 
     def predict_proba(self, X):
         ret = np.zeros((len(X), 2))
-        ret[:, self.cls] = 1.
+        ret[:, 1 if self.cls > 0 else 0] = 1.
         return ret
 
 
-- 
2.43.0


From 719bc1aa40d17b8aca912c9a40b1f6e60cbfaa19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:19 +0000
Subject: [PATCH 072/114] fix: MMC did not count the relevant labels when
 irrelevant ones are -1 and failed when the labeled instances have equally
 many

---
 alipy/query_strategy/multi_label.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/alipy/query_strategy/multi_label.py b/alipy/query_strategy/multi_label.py
index 538c4a0..43a5a30 100644
--- a/alipy/query_strategy/multi_label.py
+++ b/alipy/query_strategy/multi_label.py
@@ -902,11 +902,12 @@ class QueryMultiLabelMMC(BaseIndexQuery):
 
         trnf = np.sort(trnf, axis=1)[:, ::-1]
         trnf /= np.tile(trnf.sum(axis=1).reshape(-1, 1), (1, trnf.shape[1]))
-        if len(np.unique(self.y.sum(axis=1))) == 1:
+        num_lbl = (self.y[label_index] > 0).sum(axis=1)
+        if len(np.unique(num_lbl)) == 1:
             lr = DummyClf()
         else:
             lr = self.logistic_regression_
-        lr.fit(trnf, self.y[label_index].sum(axis=1))
+        lr.fit(trnf, num_lbl)
 
         idx_poolf = np.argsort(poolf, axis=1)[:, ::-1]
         poolf = np.sort(poolf, axis=1)[:, ::-1]
-- 
2.43.0


From ad84c15c13bc8083e1ffd59638ec9b669592577c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:39 +0000
Subject: [PATCH 073/114] fix: MMC and Adaptive moved the selected instances in
 the given index collections and returned bare indexes for the last ones

---
 alipy/query_strategy/multi_label.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/alipy/query_strategy/multi_label.py b/alipy/query_strategy/multi_label.py
index 43a5a30..634c2e0 100644
--- a/alipy/query_strategy/multi_label.py
+++ b/alipy/query_strategy/multi_label.py
@@ -960,8 +960,11 @@ class QueryMultiLabelMMC(BaseIndexQuery):
             raise TypeError("index type error")
         
         if len(unlabel_index) <= batch_size:
-            return list(unlabel_index)
+            return [(ind,) for ind in unlabel_index]
         
+        # the selection must not change the given indexes
+        label_index = copy.deepcopy(label_index)
+        unlabel_index = copy.deepcopy(unlabel_index)
         select_index = []
         for i in range(batch_size):
             selected = self.sequential_select(label_index, unlabel_index)
@@ -1147,8 +1150,11 @@ class QueryMultiLabelAdaptive(BaseIndexQuery):
             raise TypeError("index type error")
         
         if len(unlabel_index) <= batch_size:
-            return list(unlabel_index)
+            return [(ind,) for ind in unlabel_index]
         
+        # the selection must not change the given indexes
+        label_index = copy.deepcopy(label_index)
+        unlabel_index = copy.deepcopy(unlabel_index)
         select_index = []
         for i in range(batch_size):
             selected = self.sequential_select(label_index, unlabel_index)
-- 
2.43.0


From 99d838fbd881576d4e71799b92f240ab04a42224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:39 +0000
Subject: [PATCH 074/114] fix: Adaptive ignored the output of classifiers other
 than SVC and LogisticRegression

---
 alipy/query_strategy/multi_label.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/alipy/query_strategy/multi_label.py b/alipy/query_strategy/multi_label.py
index 634c2e0..a0eb45d 100644
--- a/alipy/query_strategy/multi_label.py
+++ b/alipy/query_strategy/multi_label.py
@@ -763,7 +763,8 @@ class _BinaryRelevance():
                     pred[:, i] = pred_value[:, 1]
                 else:
                     pred[:, i] = value[:, 1]
-            # pred[:, i] = self.clfs_[i].predict_real(X)[:, 1]
+            else:
+                pred[:, i] = self.clfs_[i].predict_proba(X)[:, 1] * 2 - 1
         return pred
 
     def predict_proba(self, X):
-- 
2.43.0


From b218eebf3032542cfb064601a2cb5e61f0fe11b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:39 +0000
Subject: [PATCH 075/114] fix: selecting random instances failed when there are
 fewer instances than the batch size but more pairs

---
 alipy/query_strategy/multi_label.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/alipy/query_strategy/multi_label.py b/alipy/query_strategy/multi_label.py
index a0eb45d..3258958 100644
--- a/alipy/query_strategy/multi_label.py
+++ b/alipy/query_strategy/multi_label.py
@@ -1195,10 +1195,12 @@ class QueryMultiLabelRandom(BaseMultiLabelQuery):
             The selected indexes. It is a list of tuples.
         """
         if select_type == 'ins':
-            if len(unlabel_index) <= batch_size:
-                return unlabel_index
+            if len(unlabel_index) == 0:
+                return []
             unkonwn_entries = self._check_multi_label_ind(unlabel_index)
             unkonwn_ins = unkonwn_entries.get_instance_index()
+            if len(unkonwn_ins) <= batch_size:
+                return [(ins,) for ins in unkonwn_ins]
             perm = randperm(len(unkonwn_ins) - 1, batch_size)
             return [(unkonwn_ins[i],) for i in perm]
         elif select_type == 'ins-lab':
-- 
2.43.0


From b7d6542e9615b9a8cc977c831adb21e6635e315d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:39 +0000
Subject: [PATCH 076/114] fix: the multi-label strategies returned the
 unlabeled set itself instead of the last pairs

---
 alipy/query_strategy/multi_label.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/alipy/query_strategy/multi_label.py b/alipy/query_strategy/multi_label.py
index 3258958..b9d9a94 100644
--- a/alipy/query_strategy/multi_label.py
+++ b/alipy/query_strategy/multi_label.py
@@ -449,9 +449,11 @@ class QueryMultiLabelQUIRE(BaseMultiLabelQuery):
             A list of tuples that contains the indexes of selected instance-label pairs.
         """
 
-        if len(unlabel_index) <= 1:
-            return unlabel_index
+        if len(unlabel_index) == 0:
+            return []
         unlabel_index = self._check_multi_label_ind(unlabel_index)
+        if len(unlabel_index) <= 1:
+            return list(unlabel_index)
         label_index = self._check_multi_label_ind(label_index)
 
         L_kr = np.kron(np.eye(self.y.shape[1]), self.L)
@@ -559,9 +561,11 @@ class QueryMultiLabelAUDI(BaseMultiLabelQuery):
         selected_ins_lab_pair: list
             A list of tuples that contains the indexes of selected instance-label pairs.
         """
-        if len(unlabel_index) <= 1:
-            return unlabel_index
+        if len(unlabel_index) == 0:
+            return []
         unlabel_index = self._check_multi_label_ind(unlabel_index)
+        if len(unlabel_index) <= 1:
+            return list(unlabel_index)
         label_index = self._check_multi_label_ind(label_index)
 
         unlab_data, _, data_ind = get_Xy_in_multilabel(index=unlabel_index, X=self.X, y=self.y)
@@ -1204,9 +1208,11 @@ class QueryMultiLabelRandom(BaseMultiLabelQuery):
             perm = randperm(len(unkonwn_ins) - 1, batch_size)
             return [(unkonwn_ins[i],) for i in perm]
         elif select_type == 'ins-lab':
-            if len(unlabel_index) <= batch_size:
-                return unlabel_index
+            if len(unlabel_index) == 0:
+                return []
             unkonwn_entries = self._check_multi_label_ind(unlabel_index)
+            if len(unkonwn_entries) <= batch_size:
+                return list(unkonwn_entries)
             perm = randperm(len(unkonwn_entries) - 1, batch_size)
             tpl = list(unkonwn_entries.index)
             return [tpl[i] for i in perm]
-- 
2.43.0


From c40624502f50d84bcbef0b9b4aa078978a56181b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:38 +0000
Subject: [PATCH 077/114] fix: the SVD completion started from the unobserved
 entries instead of the observed ones

---
 alipy/query_strategy/query_features.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/alipy/query_strategy/query_features.py b/alipy/query_strategy/query_features.py
index 4ed96db..957ce65 100644
--- a/alipy/query_strategy/query_features.py
+++ b/alipy/query_strategy/query_features.py
@@ -365,7 +365,9 @@ class IterativeSVD_mc:
             assert 0 in ue
             assert 1 in ue
         missing_mask = 1 - observed_mask
-        X_filled = X * missing_mask
+        # start from the observed entries only, whatever the others hold
+        X = np.where(observed_mask == 1, X, 0)
+        X_filled = X
         for i in range(self.max_iters):
             # deviation from original svdImpute algorithm:
             # gradually increase the rank of our approximation
-- 
2.43.0


From 08d95cd62876e9ee2504715f53cb51c89c84599e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:38 +0000
Subject: [PATCH 078/114] fix: the AFASMC completion was nan if an unobserved
 entry is

---
 alipy/query_strategy/query_features.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/alipy/query_strategy/query_features.py b/alipy/query_strategy/query_features.py
index 957ce65..26bb6c6 100644
--- a/alipy/query_strategy/query_features.py
+++ b/alipy/query_strategy/query_features.py
@@ -181,6 +181,9 @@ def AFASMC_mask_mc(X, y, mask, **kwargs):
         assert len(ue) == 2
         assert 0 in ue
         assert 1 in ue
+    obrT = np.asarray(obrT)
+    # the unobserved entries can be anything, nan included
+    X = np.where(obrT == 1, X, 0)
     X_obr = np.zeros((n_samples, n_features))
     X_obr += obrT * X
     n_samples, n_features = X.shape
-- 
2.43.0


From 1f7f0fb1f2994d51d0b932c71bf9af4e6045b9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:38 +0000
Subject: [PATCH 079/114] fix: the outer loop of the AFASMC completion looked
 up its objectives by the inner iteration

---
 alipy/query_strategy/query_features.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/alipy/query_strategy/query_features.py b/alipy/query_strategy/query_features.py
index 26bb6c6..dd620d8 100644
--- a/alipy/query_strategy/query_features.py
+++ b/alipy/query_strategy/query_features.py
@@ -195,7 +195,7 @@ def AFASMC_mask_mc(X, y, mask, **kwargs):
     ineqLtemp0 = np.zeros((n_samples, n_features))
     ineqLtemp1 = ineqLtemp0
     L = 2
-    converge_out = np.zeros((max_in_iter, 1))
+    converge_out = np.zeros((max_out_iter, 1))
 
     for i in range(max_out_iter):
         # train a linear model whose obj function is min{norm(Xw-Y)}
@@ -253,14 +253,14 @@ def AFASMC_mask_mc(X, y, mask, **kwargs):
 
         converge_out[i] = minObj
         if i == 0:
-            minObj_out = converge_out[k]
+            minObj_out = converge_out[i]
             Xmc = X_mc
         else:
-            if converge_out[k] < minObj_out:
-                minObj_out = converge_out[k]
+            if converge_out[i] < minObj_out:
+                minObj_out = converge_out[i]
                 Xmc = X_mc
         if i > 0:
-            if abs(converge_out[k] - converge_out[k - 1]) < (1e-4 * converge_out[k - 1]):
+            if abs(converge_out[i] - converge_out[i - 1]) < (1e-4 * converge_out[i - 1]):
                 break
 
     return (1 - obrT) * Xmc + obrT * X
-- 
2.43.0


From 095797c606d996484a56595a3f92c345dfecd840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:11 +0000
Subject: [PATCH 080/114] fix: the feature query strategies failed for training
 indexes given as a list

---
 alipy/query_strategy/query_features.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/alipy/query_strategy/query_features.py b/alipy/query_strategy/query_features.py
index dd620d8..4ac779e 100644
--- a/alipy/query_strategy/query_features.py
+++ b/alipy/query_strategy/query_features.py
@@ -421,7 +421,7 @@ class QueryFeatureAFASMC(BaseFeatureQuery):
 
     def __init__(self, X, y, train_idx=None):
         super(QueryFeatureAFASMC, self).__init__(X, y)
-        self._train_idx = train_idx
+        self._train_idx = None if train_idx is None else np.asarray(list(train_idx))
         self._feature_variance = []
 
     def select(self, observed_entries, unkonwn_entries, **kwargs):
@@ -594,7 +594,7 @@ class QueryFeatureStability(BaseFeatureQuery):
 
     def __init__(self, X, y, train_idx=None, rank_arr=None):
         super(QueryFeatureStability, self).__init__(X, y)
-        self._train_idx = train_idx
+        self._train_idx = None if train_idx is None else np.asarray(list(train_idx))
         if rank_arr is None:
             rank_arr = [1, 2, 3]
         self._committee = []
-- 
2.43.0


From 16edb9ee9f75e1a5b69eaf7ff7673dcd0748c21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:11 +0000
Subject: [PATCH 081/114] fix: the feature query strategies could select known
 entries and others that are not in the unknown set

---
 alipy/query_strategy/query_features.py | 39 ++++++++++++++++++--------
 1 file changed, 27 insertions(+), 12 deletions(-)

diff --git a/alipy/query_strategy/query_features.py b/alipy/query_strategy/query_features.py
index 4ac779e..fd66263 100644
--- a/alipy/query_strategy/query_features.py
+++ b/alipy/query_strategy/query_features.py
@@ -393,6 +393,20 @@ class IterativeSVD_mc:
         return X_filled
 
 
+def _entries_mask(entries, train_idx, n_features):
+    """The mask matrix (of the training set) of the given entries of the whole data."""
+    mask = np.zeros((len(train_idx), n_features))
+    for entry in entries:
+        mask[train_idx == entry[0], entry[1]] = 1
+    return mask
+
+
+def _argmax_unknown(var_mat, unknown_mask):
+    """The 1d index of the largest variance of the unknown entries."""
+    # a known entry must not be selected even if all variances are 0
+    return np.argmax(np.where(unknown_mask == 1, var_mat, -1))
+
+
 class QueryFeatureAFASMC(BaseFeatureQuery):
     """This class implement the KDD'18: Active Feature Acquisition with
     Supervised Matrix Completion (AFASMC) method. It will complete the
@@ -467,6 +481,7 @@ class QueryFeatureAFASMC(BaseFeatureQuery):
         tr_ob = MultiLabelIndexCollection(tr_ob)
 
         # matrix completion
+        unknown_mask = _entries_mask(unkonwn_entries, self._train_idx, self.X.shape[1])
         X_mc = AFASMC_mc(X=self.X[self._train_idx], y=self.y[self._train_idx], omega=tr_ob, **kwargs)
         self._feature_variance.append(X_mc)
         mc_sh = np.shape(X_mc)
@@ -475,11 +490,9 @@ class QueryFeatureAFASMC(BaseFeatureQuery):
             for i in range(mc_sh[0]):
                 for j in range(mc_sh[1]):
                     var_mat[i, j] = np.var([mat[i][j] for mat in self._feature_variance])
-            var_mat *= 1 - tr_ob.get_matrix_mask(mat_shape=mc_sh, sparse=False)
-            # in the first 2 rounds, all entries are 0, you will select the known elements.
-            selected_feature = np.argmax(var_mat)  # a 1d index in training set
+            selected_feature = _argmax_unknown(var_mat, unknown_mask)  # a 1d index in training set
         else:
-            selected_feature = np.argmax(1 - tr_ob.get_matrix_mask(mat_shape=mc_sh, sparse=False))
+            selected_feature = np.argmax(unknown_mask)
 
         return [(self._train_idx[selected_feature // mc_sh[1]], selected_feature % mc_sh[1])]
 
@@ -516,9 +529,7 @@ class QueryFeatureAFASMC(BaseFeatureQuery):
             for i in range(mc_sh[0]):
                 for j in range(mc_sh[1]):
                     var_mat[i, j] = np.var([mat[i][j] for mat in self._feature_variance])
-            var_mat *= 1 - observed_mask
-            # in the first 2 rounds, all entries are 0, you will select the known elements.
-            selected_feature = np.argmax(var_mat)  # a 1d index in training set
+            selected_feature = _argmax_unknown(var_mat, 1 - observed_mask)  # a 1d index in training set
         else:
             selected_feature = np.argmax(1 - observed_mask)
 
@@ -643,8 +654,9 @@ class QueryFeatureStability(BaseFeatureQuery):
             #     tr_ob.append(entry)
         tr_ob = MultiLabelIndexCollection(tr_ob)
 
-        selected_feature_in_train = self.select_by_mask(
-            observed_mask=tr_ob.get_matrix_mask(mat_shape=(len(self._train_idx), self.X.shape[1]), sparse=False))
+        selected_feature_in_train = self._select_unknown(
+            observed_mask=tr_ob.get_matrix_mask(mat_shape=(len(self._train_idx), self.X.shape[1]), sparse=False),
+            unknown_mask=_entries_mask(unkonwn_entries, self._train_idx, self.X.shape[1]))
 
         return [(self._train_idx[selected_feature_in_train[0][0]], selected_feature_in_train[0][1])]
 
@@ -672,6 +684,10 @@ class QueryFeatureStability(BaseFeatureQuery):
         assert observed_mask.shape[0] == len(self._train_idx)
         assert observed_mask.shape[1] == self.X.shape[1]
 
+        return self._select_unknown(observed_mask, 1 - observed_mask)
+
+    def _select_unknown(self, observed_mask, unknown_mask):
+        """Select one of the unknown entries given the observed ones."""
         X_mc_arr = []
         for comt in self._committee:
             X_mc_arr.append(comt.impute(X=self.X[self._train_idx], observed_mask=observed_mask))
@@ -682,9 +698,8 @@ class QueryFeatureStability(BaseFeatureQuery):
             for i in range(mc_sh[0]):
                 for j in range(mc_sh[1]):
                     var_mat[i, j] = np.var([mat[i][j] for mat in X_mc_arr])
-            var_mat *= 1 - observed_mask
-            selected_feature = np.argmax(var_mat)
+            selected_feature = _argmax_unknown(var_mat, unknown_mask)
         else:
-            selected_feature = np.argmax(1 - observed_mask)
+            selected_feature = np.argmax(unknown_mask)
 
         return [(selected_feature // mc_sh[1], selected_feature % mc_sh[1])]
-- 
2.43.0


From 001a9af8ae44425a7e449647cdf031e7906d55ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:11 +0000
Subject: [PATCH 082/114] fix: the feature query strategies returned the
 unknown set itself for the last entry and the random one failed for a batch
 larger than the set

---
 alipy/query_strategy/query_features.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/alipy/query_strategy/query_features.py b/alipy/query_strategy/query_features.py
index fd66263..ef96410 100644
--- a/alipy/query_strategy/query_features.py
+++ b/alipy/query_strategy/query_features.py
@@ -461,7 +461,7 @@ class QueryFeatureAFASMC(BaseFeatureQuery):
         """
         # build map from value to index
         if len(unkonwn_entries) <= 1:
-            return unkonwn_entries
+            return list(self._check_feature_ind(unkonwn_entries)) if len(unkonwn_entries) else []
         unkonwn_entries = self._check_feature_ind(unkonwn_entries)
         observed_entries = self._check_feature_ind(observed_entries)
 
@@ -564,9 +564,11 @@ class QueryFeatureRandom(BaseFeatureQuery):
             Note that, the index is a subset of unkonwn_entries.
         """
         # build map from value to index
-        if len(unkonwn_entries) <= 1:
-            return unkonwn_entries
+        if len(unkonwn_entries) == 0:
+            return []
         unkonwn_entries = self._check_feature_ind(unkonwn_entries)
+        if len(unkonwn_entries) <= batch_size:
+            return list(unkonwn_entries)
         perm = randperm(len(unkonwn_entries) - 1, batch_size)
         tpl = list(unkonwn_entries.index)
         return [tpl[i] for i in perm]
@@ -635,7 +637,7 @@ class QueryFeatureStability(BaseFeatureQuery):
         """
         # build map from value to index
         if len(unkonwn_entries) <= 1:
-            return unkonwn_entries
+            return list(self._check_feature_ind(unkonwn_entries)) if len(unkonwn_entries) else []
         unkonwn_entries = self._check_feature_ind(unkonwn_entries)
         observed_entries = self._check_feature_ind(observed_entries)
 
-- 
2.43.0


From 4b54378f284691c1b037cd2b103635445c709d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:58 +0000
Subject: [PATCH 083/114] fix: get_methods_names failed for every analyser

---
 alipy/utils/interface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alipy/utils/interface.py b/alipy/utils/interface.py
index 1ec90ec..3833de7 100644
--- a/alipy/utils/interface.py
+++ b/alipy/utils/interface.py
@@ -244,7 +244,7 @@ class BaseAnalyser(metaclass=ABCMeta):
         self._data_summary = dict()
 
     def get_methods_names(self):
-        return self.__data_raw.keys()
+        return self._data_extracted.keys()
 
     def get_extracted_data(self, method_name):
         return self._data_extracted[method_name]
-- 
2.43.0


From cd1106f2b6bc7b3a4a10af1adb492b34379f988f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:58 +0000
Subject: [PATCH 084/114] fix: the analyser never warned about methods of
 different settings

---
 alipy/experiment/experiment_analyser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alipy/experiment/experiment_analyser.py b/alipy/experiment/experiment_analyser.py
index 49a225a..223a497 100644
--- a/alipy/experiment/experiment_analyser.py
+++ b/alipy/experiment/experiment_analyser.py
@@ -384,7 +384,7 @@ class _NumOfQueryAnalyser(BaseAnalyser):
         1.NaN, Inf etc.
         2.methods_continuity
         """
-        if not self._check_methods_continuity:
+        if not self._check_methods_continuity():
             warnings.warn('Settings among all methods are not the same. The difference will be ignored.',
                           category=ValidityWarning)
         for i in self._data_extracted.keys():
-- 
2.43.0


From ac0f0dd2a886f3b33256c17a1a29e068449ebf55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:58 +0000
Subject: [PATCH 085/114] fix: adding StateIO results made the analyser forget
 that other methods are lists

---
 alipy/experiment/experiment_analyser.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/alipy/experiment/experiment_analyser.py b/alipy/experiment/experiment_analyser.py
index 223a497..074ed14 100644
--- a/alipy/experiment/experiment_analyser.py
+++ b/alipy/experiment/experiment_analyser.py
@@ -318,6 +318,7 @@ class _NumOfQueryAnalyser(BaseAnalyser):
 
     def __init__(self):
         super(_NumOfQueryAnalyser, self).__init__()
+        self._is_all_stateio = True
 
     def add_method(self, method_name, method_results):
         """
@@ -342,7 +343,6 @@ class _NumOfQueryAnalyser(BaseAnalyser):
             raise TypeError('method_results must be one of {list, numpy.ndarray, StateIOContainer}.')
 
     def __add_stateio_container(self, method_name, method_results):
-        self._is_all_stateio = True
         self._data_extracted[method_name] = method_results.extract_matrix()
         self._data_summary[method_name] = _ContentSummary(method_results=method_results.to_list(), method_type=0)
 
@@ -361,7 +361,6 @@ class _NumOfQueryAnalyser(BaseAnalyser):
         assert (isinstance(method_results, (list, np.ndarray)))
         # StateIO object
         # The type must be one of [0,1,2], otherwise, it will raise in that function.
-        self._is_all_stateio = True
         result_type = _type_of_data(method_results)
         if result_type == 0:
             method_container = StateIOContainer(method_name=method_name, method_results=method_results)
@@ -549,6 +548,7 @@ class _CostEffectiveAnalyser(BaseAnalyser):
 
     def __init__(self):
         super(_CostEffectiveAnalyser, self).__init__()
+        self._is_all_stateio = True
 
     def add_method(self, method_name, method_results):
         """
@@ -573,12 +573,10 @@ class _CostEffectiveAnalyser(BaseAnalyser):
             raise TypeError('method_results must be one of {list, numpy.ndarray, StateIOContainer}.')
 
     def __add_stateio_container(self, method_name, method_results):
-        self._is_all_stateio = True
         self._data_extracted[method_name] = method_results.extract_matrix(extract_keys=['cost', 'performance'])
         self._data_summary[method_name] = _ContentSummary(method_results=method_results.to_list(), method_type=0)
 
     def __add_list_result(self, method_name, method_results):
-        self._is_all_stateio = True
         result_type = _type_of_data(method_results)
         if result_type == 0:
             method_container = StateIOContainer(method_name=method_name, method_results=method_results)
-- 
2.43.0


From 4cf8388e8ce3767b96de8d2762212287c3c40817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:58 +0000
Subject: [PATCH 086/114] fix: the shift of the x axis inferred for the first
 method was used for all of them

---
 alipy/experiment/experiment_analyser.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/alipy/experiment/experiment_analyser.py b/alipy/experiment/experiment_analyser.py
index 074ed14..3136a2e 100644
--- a/alipy/experiment/experiment_analyser.py
+++ b/alipy/experiment/experiment_analyser.py
@@ -481,21 +481,23 @@ class _NumOfQueryAnalyser(BaseAnalyser):
                 points = np.asarray([points[point_ind] for point_ind in range(ori_ponits_len) if point_ind % plot_interval == 0])
                 if std_area:
                     std_points = np.asarray([std_points[point_ind] for point_ind in range(len(std_points)) if point_ind % plot_interval == 0])
-            if x_shift is None:
+            # the initial point can be different for each method
+            shift = x_shift
+            if shift is None:
                 if not self._is_all_stateio or self._data_summary[i].ip is None:
-                    x_shift = 1
+                    shift = 1
                 else:
-                    x_shift = 0
+                    shift = 0
             if start_point is not None:
-                x_shift = 0
-                plt.plot(np.arange(ori_ponits_len+1, step=plot_interval) + x_shift, [start_point] + list(points), label=i)
+                shift = 0
+                plt.plot(np.arange(ori_ponits_len+1, step=plot_interval) + shift, [start_point] + list(points), label=i)
                 if std_area:
-                    plt.fill_between(np.arange(ori_ponits_len, step=plot_interval) + x_shift + 1, points - std_points, points + std_points,
+                    plt.fill_between(np.arange(ori_ponits_len, step=plot_interval) + shift + 1, points - std_points, points + std_points,
                                      interpolate=True, alpha=std_alpha)
             else:
-                plt.plot(np.arange(ori_ponits_len, step=plot_interval) + x_shift, points, label=i)
+                plt.plot(np.arange(ori_ponits_len, step=plot_interval) + shift, points, label=i)
                 if std_area:
-                    plt.fill_between(np.arange(ori_ponits_len, step=plot_interval) + x_shift, points - std_points, points + std_points,
+                    plt.fill_between(np.arange(ori_ponits_len, step=plot_interval) + shift, points - std_points, points + std_points,
                                      interpolate=True, alpha=std_alpha)
 
         # axis & title
-- 
2.43.0


From d2e29007aabd4e3f3aebc6b42ded28f09a7ec195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:58 +0000
Subject: [PATCH 087/114] fix: curves with a start point and an interval were
 plotted at wrong positions or failed

---
 alipy/experiment/experiment_analyser.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/alipy/experiment/experiment_analyser.py b/alipy/experiment/experiment_analyser.py
index 3136a2e..b21ce39 100644
--- a/alipy/experiment/experiment_analyser.py
+++ b/alipy/experiment/experiment_analyser.py
@@ -489,10 +489,9 @@ class _NumOfQueryAnalyser(BaseAnalyser):
                 else:
                     shift = 0
             if start_point is not None:
-                shift = 0
-                plt.plot(np.arange(ori_ponits_len+1, step=plot_interval) + shift, [start_point] + list(points), label=i)
+                plt.plot([0] + list(np.arange(ori_ponits_len, step=plot_interval) + 1), [start_point] + list(points), label=i)
                 if std_area:
-                    plt.fill_between(np.arange(ori_ponits_len, step=plot_interval) + shift + 1, points - std_points, points + std_points,
+                    plt.fill_between(np.arange(ori_ponits_len, step=plot_interval) + 1, points - std_points, points + std_points,
                                      interpolate=True, alpha=std_alpha)
             else:
                 plt.plot(np.arange(ori_ponits_len, step=plot_interval) + shift, points, label=i)
-- 
2.43.0


From fe223f8bd4a5a321d8a2c9941394ceaf66e2a31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:58 +0000
Subject: [PATCH 088/114] fix: the analyser failed for folds of different
 lengths

---
 alipy/experiment/experiment_analyser.py | 26 +++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/alipy/experiment/experiment_analyser.py b/alipy/experiment/experiment_analyser.py
index b21ce39..827727d 100644
--- a/alipy/experiment/experiment_analyser.py
+++ b/alipy/experiment/experiment_analyser.py
@@ -298,8 +298,9 @@ class _ContentSummary:
         self.effective_length = np.min([len(i) for i in method_results])
         if self.method_type == 1:
             # basic info
-            self.mean = np.mean(method_results)
-            self.std = np.std(method_results)
+            ex_data = [line[0:self.effective_length] for line in method_results]
+            self.mean = np.mean(ex_data)
+            self.std = np.std(ex_data)
         else:
             perf_mat = [[np.sum(tup[1]) for tup in line] for line in method_results]
             cost_mat = [[tup[0] for tup in line] for line in method_results]
@@ -387,12 +388,14 @@ class _NumOfQueryAnalyser(BaseAnalyser):
             warnings.warn('Settings among all methods are not the same. The difference will be ignored.',
                           category=ValidityWarning)
         for i in self._data_extracted.keys():
-            if np.isnan(self._data_extracted[i]).any() != 0:
-                raise ValueError('NaN is found in methods %s in %s.' % (
-                    i, str(np.argwhere(np.isnan(self._data_extracted[i]) == True))))
-            if np.isinf(self._data_extracted[i]).any() != 0:
-                raise ValueError('Inf is found in methods %s in %s.' % (
-                    i, str(np.argwhere(np.isinf(self._data_extracted[i]) == True))))
+            # the folds can have different lengths
+            for line in self._data_extracted[i]:
+                if np.isnan(line).any() != 0:
+                    raise ValueError('NaN is found in methods %s in %s.' % (
+                        i, str(np.argwhere(np.isnan(line) == True))))
+                if np.isinf(line).any() != 0:
+                    raise ValueError('Inf is found in methods %s in %s.' % (
+                        i, str(np.argwhere(np.isinf(line) == True))))
         return True
 
     def _check_methods_continuity(self):
@@ -473,10 +476,13 @@ class _NumOfQueryAnalyser(BaseAnalyser):
 
         # plotting
         for i in self._data_extracted.keys():
-            points = np.mean(self._data_extracted[i], axis=0)
+            # only the queries that all folds have
+            length = min([len(line) for line in self._data_extracted[i]])
+            data_mat = [line[0:length] for line in self._data_extracted[i]]
+            points = np.mean(data_mat, axis=0)
             ori_ponits_len = len(points)
             if std_area:
-                std_points = np.std(self._data_extracted[i], axis=0)
+                std_points = np.std(data_mat, axis=0)
             if plot_interval != 1:
                 points = np.asarray([points[point_ind] for point_ind in range(ori_ponits_len) if point_ind % plot_interval == 0])
                 if std_area:
-- 
2.43.0


From 690dd20aa4f5e336679bd1afffd5f593c3ecc19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:58 +0000
Subject: [PATCH 089/114] fix: cost curves started all folds from the initial
 performance of the last one

---
 alipy/experiment/experiment_analyser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/alipy/experiment/experiment_analyser.py b/alipy/experiment/experiment_analyser.py
index 827727d..87b9809 100644
--- a/alipy/experiment/experiment_analyser.py
+++ b/alipy/experiment/experiment_analyser.py
@@ -240,6 +240,7 @@ class _ContentSummary:
         # for stateio object only
         self.batch_flag = False
         self.ip = None
+        self.ip_inall = []
         self.batch_size = 0
 
         # Only for num of query
@@ -282,6 +283,7 @@ class _ContentSummary:
         ex_data = []
         for result in method_results:
             self.ip = result.initial_point
+            self.ip_inall.append(self.ip)
             one_fold_perf = [result[i].get_value('performance') for i in range(self.effective_length)]
             one_fold_cost = [result[i].get_value('cost') if 'cost' in result[i].keys() else 0 for i in
                              range(self.effective_length)]
@@ -705,7 +707,7 @@ class _CostEffectiveAnalyser(BaseAnalyser):
                 else:
                     for fold_num in range(len(y_axis)):
                         x_axis[fold_num].insert(0, 0)
-                        y_axis[fold_num].insert(0, self._data_summary[i].ip)
+                        y_axis[fold_num].insert(0, self._data_summary[i].ip_inall[fold_num])
             else:
                 # Use the specified start point
                 for fold_num in range(len(y_axis)):
-- 
2.43.0


From 5b53da79607bc497babb7dc9a0ca95f3698ad047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:58 +0000
Subject: [PATCH 090/114] fix: the std area of cost curves was not shifted with
 the curve

---
 alipy/experiment/experiment_analyser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alipy/experiment/experiment_analyser.py b/alipy/experiment/experiment_analyser.py
index 87b9809..b277977 100644
--- a/alipy/experiment/experiment_analyser.py
+++ b/alipy/experiment/experiment_analyser.py
@@ -731,7 +731,7 @@ class _CostEffectiveAnalyser(BaseAnalyser):
                 std_points = np.std(new_y_axis, axis=0)
             plt.plot(new_x_axis + x_shift, points, label=i)
             if std_area:
-                plt.fill_between(new_x_axis, points - std_points, points + std_points,
+                plt.fill_between(new_x_axis + x_shift, points - std_points, points + std_points,
                                  interpolate=True, alpha=std_alpha)
 
         # axis & title
-- 
2.43.0


From 10bc7edac04578e84d1ea052cc330db5f7ab8bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:15 +0000
Subject: [PATCH 091/114] fix: the initial points of StateIO results were not
 plotted as such if another method is a list

---
 alipy/experiment/experiment_analyser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/alipy/experiment/experiment_analyser.py b/alipy/experiment/experiment_analyser.py
index b277977..73aab1b 100644
--- a/alipy/experiment/experiment_analyser.py
+++ b/alipy/experiment/experiment_analyser.py
@@ -492,7 +492,7 @@ class _NumOfQueryAnalyser(BaseAnalyser):
             # the initial point can be different for each method
             shift = x_shift
             if shift is None:
-                if not self._is_all_stateio or self._data_summary[i].ip is None:
+                if self._data_summary[i].ip is None:
                     shift = 1
                 else:
                     shift = 0
@@ -702,7 +702,7 @@ class _CostEffectiveAnalyser(BaseAnalyser):
 
             if start_point is None:
                 # attempt to infer the start point
-                if not self._is_all_stateio or self._data_summary[i].ip is None:
+                if self._data_summary[i].ip is None:
                     pass
                 else:
                     for fold_num in range(len(y_axis)):
-- 
2.43.0


From cdbb7ed67cc4ba160133b0986822122172e7d4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:06 +0000
Subject: [PATCH 092/114] fix: the performance metric given to AlExperiment was
 ignored

---
 alipy/experiment/al_experiment.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/alipy/experiment/al_experiment.py b/alipy/experiment/al_experiment.py
index cce5c52..4467979 100644
--- a/alipy/experiment/al_experiment.py
+++ b/alipy/experiment/al_experiment.py
@@ -91,6 +91,7 @@ class AlExperiment:
         self.__custom_strategy_flag = False
         self._split = False
         self._metrics = False
+        self.set_performance_metric(performance_metric)
         self._split_count = 0
         self._query_function_need_train_ind = False
         self._existed_query_strategy = False
-- 
2.43.0


From 0f45a1e1ac5fe6acd45cd7be9ae428fa3caae0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:06 +0000
Subject: [PATCH 093/114] fix: AlExperiment dropped the parameters of the
 performance metric

---
 alipy/experiment/al_experiment.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/alipy/experiment/al_experiment.py b/alipy/experiment/al_experiment.py
index 4467979..2d722ab 100644
--- a/alipy/experiment/al_experiment.py
+++ b/alipy/experiment/al_experiment.py
@@ -226,6 +226,7 @@ class AlExperiment:
 
         self._performance_metric_name = performance_metric
         self._performance_metric = getattr(performance, performance_metric)
+        self._performance_metric_kwargs = kwargs
         self._metrics = True
 
     def set_data_split(self, train_idx, test_idx, label_idx, unlabel_idx):
@@ -381,7 +382,7 @@ class AlExperiment:
                 querfunction = QueryInstanceQUIRE(self._X, self._y, train_id, **self._query_function_kwargs)
 
         # performance calc
-        perf_result = self._performance_metric(self._y[test_id], pred)
+        perf_result = self._performance_metric(self._y[test_id], pred, **self._performance_metric_kwargs)
 
         # stopping-criterion 
         stopping_criterion = copy.deepcopy(self._stopping_criterion)
@@ -412,7 +413,7 @@ class AlExperiment:
             pred = self._model.predict(self._X[test_id, :])
 
             # performance calc
-            perf_result = self._performance_metric(self._y[test_id], pred)
+            perf_result = self._performance_metric(self._y[test_id], pred, **self._performance_metric_kwargs)
 
             # save intermediate results
             st = State(select_index=select_ind, performance=perf_result)
-- 
2.43.0


From 1a258df8361b92e02b16aa55fea48b063afb7b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:06 +0000
Subject: [PATCH 094/114] fix: the folds of AlExperiment running in threads
 trained and measured the same model

---
 alipy/experiment/al_experiment.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/alipy/experiment/al_experiment.py b/alipy/experiment/al_experiment.py
index 2d722ab..848531f 100644
--- a/alipy/experiment/al_experiment.py
+++ b/alipy/experiment/al_experiment.py
@@ -367,8 +367,10 @@ class AlExperiment:
         """
         Lcollection = IndexCollection(Lcollection)
         Ucollection = IndexCollection(Ucollection)
-        self._model.fit(X=self._X[Lcollection.index, :], y=self._y[Lcollection.index])
-        pred = self._model.predict(self._X[test_id, :])
+        # folds can run at the same time
+        model = copy.deepcopy(self._model)
+        model.fit(X=self._X[Lcollection.index, :], y=self._y[Lcollection.index])
+        pred = model.predict(self._X[test_id, :])
 
         # some query strategy,such as QueryInstanceGraphDensity,QueryInstanceQUIRE, need train_ind
         if self._query_function_need_train_ind:
@@ -397,7 +399,7 @@ class AlExperiment:
                     select_ind = querfunction.select(Lcollection, Ucollection, batch_size=self._batch_size)
                 elif 'model' in inspect.getfullargspec(self._query_function.select)[0]:
                     select_ind = self._query_function.select(Lcollection, Ucollection, batch_size=self._batch_size,
-                                                             model=self._model)
+                                                             model=model)
                 elif self._query_function_name == 'QueryInstanceBMDR' or self._query_function_name == 'QueryInstanceSPAL':
                     select_ind = self._query_function.select(Lcollection, Ucollection, batch_size=self._batch_size,
                                                              qp_solver=self.qp_solver)
@@ -409,8 +411,8 @@ class AlExperiment:
             Lcollection.update(select_ind)
             Ucollection.difference_update(select_ind)
             # update model
-            self._model.fit(X=self._X[Lcollection.index, :], y=self._y[Lcollection.index])
-            pred = self._model.predict(self._X[test_id, :])
+            model.fit(X=self._X[Lcollection.index, :], y=self._y[Lcollection.index])
+            pred = model.predict(self._X[test_id, :])
 
             # performance calc
             perf_result = self._performance_metric(self._y[test_id], pred, **self._performance_metric_kwargs)
-- 
2.43.0


From 272b703da76eb9a8d5a5d662f77c41af5fc68d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:06 +0000
Subject: [PATCH 095/114] fix: the time limit of AlExperiment started with its
 construction for all folds

---
 alipy/experiment/al_experiment.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/alipy/experiment/al_experiment.py b/alipy/experiment/al_experiment.py
index 848531f..d691031 100644
--- a/alipy/experiment/al_experiment.py
+++ b/alipy/experiment/al_experiment.py
@@ -388,6 +388,7 @@ class AlExperiment:
 
         # stopping-criterion 
         stopping_criterion = copy.deepcopy(self._stopping_criterion)
+        stopping_criterion.reset()
         saver.set_initial_point(perf_result)
 
         while not stopping_criterion.is_stop():
-- 
2.43.0


From cbbd8530bc916b3ea65e0f743547703bbdc5050a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:06 +0000
Subject: [PATCH 096/114] fix: the solver given to AlExperiment for BMDR and
 SPAL was ignored

---
 alipy/experiment/al_experiment.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/alipy/experiment/al_experiment.py b/alipy/experiment/al_experiment.py
index d691031..37c37f3 100644
--- a/alipy/experiment/al_experiment.py
+++ b/alipy/experiment/al_experiment.py
@@ -180,12 +180,13 @@ class AlExperiment:
                     self._query_function_metric = kwargs.pop('metric', 'manhattan')
                     self._query_function_kwargs = kwargs
                 elif strategy == 'QueryInstanceBMDR':
+                    self.qp_solver = kwargs.pop('qp_solver', 'ECOS')
                     beta = kwargs.pop('beta', 1000)
                     gamma = kwargs.pop('gamma', 0.1)
                     rho = kwargs.pop('rho', 1)
                     self._query_function = QueryInstanceBMDR(self._X, self._y, beta, gamma, rho, **kwargs)
-                    self.qp_solver = kwargs.pop('qp_sover', 'ECOS')
                 elif strategy == 'QueryInstanceSPAL':
+                    self.qp_solver = kwargs.pop('qp_solver', 'ECOS')
                     mu = kwargs.pop('mu', 0.1)
                     gamma = kwargs.pop('gamma', 0.1)
                     rho = kwargs.pop('rho', 1)
@@ -193,7 +194,6 @@ class AlExperiment:
                     lambda_pace = kwargs.pop('lambda_pace', 0.01)
                     self._query_function = QueryInstanceSPAL(self._X, self._y, mu, gamma, rho, lambda_init, lambda_pace,
                                                              **kwargs)
-                    self.qp_solver = kwargs.pop('qp_sover', 'ECOS')
                 elif strategy == 'QueryInstanceLAL':
                     mode = kwargs.pop('mode', 'LAL_iterative')
                     data_path = kwargs.pop('data_path', '.')
-- 
2.43.0


From 1dc053b1f0cc4f24e3d8f317f7ce52309ea76fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:06 +0000
Subject: [PATCH 097/114] fix: AlExperiment failed with an AttributeError
 instead of asking for a split

---
 alipy/experiment/al_experiment.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/alipy/experiment/al_experiment.py b/alipy/experiment/al_experiment.py
index 37c37f3..9137175 100644
--- a/alipy/experiment/al_experiment.py
+++ b/alipy/experiment/al_experiment.py
@@ -90,6 +90,7 @@ class AlExperiment:
                  stopping_criteria=None, stopping_value=None, batch_size=1, **kwargs):
         self.__custom_strategy_flag = False
         self._split = False
+        self._train_idx = None
         self._metrics = False
         self.set_performance_metric(performance_metric)
         self._split_count = 0
-- 
2.43.0


From 683698e8917e1e3f22a9d86fd7ee768528313715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:06 +0000
Subject: [PATCH 098/114] fix: a second run of AlExperiment appended its
 results to those of the first

---
 alipy/experiment/al_experiment.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/alipy/experiment/al_experiment.py b/alipy/experiment/al_experiment.py
index 9137175..038cd06 100644
--- a/alipy/experiment/al_experiment.py
+++ b/alipy/experiment/al_experiment.py
@@ -353,6 +353,7 @@ class AlExperiment:
             check_flag = kwargs.pop('check_flag', True)
             verbose = kwargs.pop('verbose', True)
             print_interval = kwargs.pop('print_interval', 1)
+            self._experiment_result = []
             for round in range(self._split_count):
                 saver = StateIO(round, self._train_idx[round], self._test_idx[round], self._label_idx[round],
                                 self._unlabel_idx[round], initial_point, saving_path, check_flag, verbose,
-- 
2.43.0


From 89db6cbb933a76b5bd5bcdcd5cff9d61ac47b03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:30 +0000
Subject: [PATCH 099/114] fix: aceThreading waited forever for threads of
 others if max_thread is given

---
 alipy/utils/multi_thread.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/alipy/utils/multi_thread.py b/alipy/utils/multi_thread.py
index fd52558..4eed42d 100644
--- a/alipy/utils/multi_thread.py
+++ b/alipy/utils/multi_thread.py
@@ -204,8 +204,10 @@ class aceThreading:
                         print(self)
                         # The active_count seems also include the main thread
                         # print(threading.active_count())
-                    if threading.active_count() - 1 < self.__max_thread:
-                        available_thread += self.__max_thread - threading.active_count() + 1
+                    # only the threads of this object count, there may be others in the process
+                    running = sum([t.is_alive() for t in self.__threads])
+                    if running < self.__max_thread:
+                        available_thread = self.__max_thread - running
                         break
                 # run the if code
                 self.__threads[i].start()
-- 
2.43.0


From 1792fa3be9d9ff416bcd4f9be7d973966181da19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:30 +0000
Subject: [PATCH 100/114] fix: a crash while saving destroyed the state of all
 threads

---
 alipy/utils/multi_thread.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/alipy/utils/multi_thread.py b/alipy/utils/multi_thread.py
index 4eed42d..30b56d6 100644
--- a/alipy/utils/multi_thread.py
+++ b/alipy/utils/multi_thread.py
@@ -293,11 +293,14 @@ class aceThreading:
         if self._saving_path is None:
             return
         if os.path.isdir(self._saving_path):
-            f = open(os.path.join(self._saving_path, 'multi_thread_state.pkl'), 'wb')
+            path = os.path.join(self._saving_path, 'multi_thread_state.pkl')
         else:
-            f = open(self._saving_path, 'wb')
+            path = self._saving_path
+        # an interrupted save must not destroy the previous file
+        f = open(path + '.tmp', 'wb')
         pickle.dump(self, f)
         f.close()
+        os.replace(path + '.tmp', path)
 
     @classmethod
     def recover(cls, path):
-- 
2.43.0


From 1f72e646fcb6c47353991f570dfbb61cb196c620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:30 +0000
Subject: [PATCH 101/114] fix: recovered threads did not get their global
 parameters

---
 alipy/utils/multi_thread.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/alipy/utils/multi_thread.py b/alipy/utils/multi_thread.py
index 30b56d6..e4a416c 100644
--- a/alipy/utils/multi_thread.py
+++ b/alipy/utils/multi_thread.py
@@ -73,6 +73,7 @@ class aceThreading:
         self._refresh_interval = refresh_interval
         self._saving_path = os.path.abspath(saving_path)
         self._recover_arr = None
+        self._global_parameters = None
 
         # the path to store results of each thread.
         tp_path = os.path.join(self._saving_path, 'AL_result')
@@ -167,7 +168,10 @@ class aceThreading:
     def __init_threads(self, global_parameters=None):
         if global_parameters is not None:
             assert (isinstance(global_parameters, dict))
-        self._global_parameters = global_parameters
+            self._global_parameters = global_parameters
+        else:
+            # a recovered object still has its parameters
+            global_parameters = self._global_parameters
 
         # init thread objects
         for i in range(self._round_num):
@@ -350,4 +354,5 @@ class aceThreading:
                 recover_thread._saver[i] = StateIO.load(
                     os.path.join(state_path, breakpoint._saver[i]._saving_file_name))
         recover_thread._recover_arr = recover_arr
+        recover_thread._global_parameters = breakpoint._global_parameters
         return recover_thread
-- 
2.43.0


From 29f7c21513d635cb83d0f01cafa77d71d1145a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:30 +0000
Subject: [PATCH 102/114] fix: recovering took rounds that were not finished
 for finished and stale files for results

---
 alipy/utils/multi_thread.py | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/alipy/utils/multi_thread.py b/alipy/utils/multi_thread.py
index e4a416c..2f06991 100644
--- a/alipy/utils/multi_thread.py
+++ b/alipy/utils/multi_thread.py
@@ -175,18 +175,29 @@ class aceThreading:
 
         # init thread objects
         for i in range(self._round_num):
-            t = threading.Thread(target=self._target_func, name=str(i), kwargs={
+            t = threading.Thread(target=self._run_round, name=str(i), args=(i,), kwargs={
                 'round': i, 'train_id': self._train_idx[i], 'test_id': self._test_idx[i],
                 'Ucollection': self._saver[i].get_workspace()[3], 'Lcollection': self._saver[i].get_workspace()[2],
                 'saver': self._saver[i], 'examples': self._examples, 'labels': self._labels,
                 'global_parameters': global_parameters})
             self.__threads.append(t)
 
+    def _run_round(self, thread_id, **kwargs):
+        self._target_func(**kwargs)
+        # a round that failed or was interrupted has not finished
+        self.__alive_thread[thread_id] = False
+
     def __start_all_threads(self):
         if self._recover_arr is None:
             self._recover_arr = [True] * self._round_num
         else:
             assert (len(self._recover_arr) == self._round_num)
+        # a round is alive until it has finished, its file holds its state
+        for i in range(self._round_num):
+            if self._recover_arr[i]:
+                self.__alive_thread[i] = True
+                self._saver[i].save()
+        self.save()
         # start thread
         available_thread = self.__max_thread
         for i in range(self._round_num):
@@ -195,11 +206,9 @@ class aceThreading:
             if available_thread > 0:
                 self.__threads[i].start()
                 self._thread_time_elapse[i] = time.time()
-                self.__alive_thread[i] = True
                 available_thread -= 1
 
                 # saving
-                self._update_thread_state()
                 self.save()
             else:
                 # waiting current thread
@@ -216,11 +225,9 @@ class aceThreading:
                 # run the if code
                 self.__threads[i].start()
                 self._thread_time_elapse[i] = time.time()
-                self.__alive_thread[i] = True
                 available_thread -= 1
 
                 # saving
-                self._update_thread_state()
                 self.save()
 
         # waiting for other threads.
@@ -230,7 +237,6 @@ class aceThreading:
             while self.__threads[i].is_alive():
                 if self._if_refresh():
                     print(self)
-            self._update_thread_state()
             self.save()
         print(self)
 
@@ -258,13 +264,6 @@ class aceThreading:
         else:
             return False
 
-    def _update_thread_state(self):
-        for i in range(len(self.__threads)):
-            if self.__threads[i].is_alive():
-                self.__alive_thread[i] = True
-            else:
-                self.__alive_thread[i] = False
-
     def __getstate__(self):
         pickle_seq = (
             self._examples,
@@ -346,7 +345,7 @@ class aceThreading:
                     # not started
                     pass
             else:
-                if os.path.getsize(file_dir) == 0:
+                if not os.path.exists(file_dir) or os.path.getsize(file_dir) == 0:
                     # not saving, but started, use the initialized stateIO object
                     continue
                 # still running
-- 
2.43.0


From 00fd6ad2e31372c2f11ef7d65574e3e97c3eed6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:30 +0000
Subject: [PATCH 103/114] fix: the threads of AlExperiment could not be
 recovered

---
 alipy/experiment/al_experiment.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/alipy/experiment/al_experiment.py b/alipy/experiment/al_experiment.py
index 038cd06..e2c63af 100644
--- a/alipy/experiment/al_experiment.py
+++ b/alipy/experiment/al_experiment.py
@@ -344,7 +344,7 @@ class AlExperiment:
             ace = aceThreading(self._X, self._y, self._train_idx, self._test_idx,
                                self._label_idx, self._unlabel_idx, max_thread=max_thread,
                                refresh_interval=refresh_interval, saving_path=saving_path)
-            ace.set_target_function(self.__al_main_loop)
+            ace.set_target_function(self._al_main_loop)
             ace.start_all_threads()
             self._experiment_result = ace.get_results()
         else:
@@ -358,11 +358,11 @@ class AlExperiment:
                 saver = StateIO(round, self._train_idx[round], self._test_idx[round], self._label_idx[round],
                                 self._unlabel_idx[round], initial_point, saving_path, check_flag, verbose,
                                 print_interval)
-                self.__al_main_loop(round, self._train_idx[round], self._test_idx[round], self._label_idx[round],
+                self._al_main_loop(round, self._train_idx[round], self._test_idx[round], self._label_idx[round],
                                     self._unlabel_idx[round], saver)
                 self._experiment_result.append(copy.deepcopy(saver))
 
-    def __al_main_loop(self, round, train_id, test_id, Lcollection, Ucollection,
+    def _al_main_loop(self, round, train_id, test_id, Lcollection, Ucollection,
                        saver, examples=None, labels=None, global_parameters=None):
         """
             The active-learning main loop.
@@ -391,7 +391,11 @@ class AlExperiment:
         # stopping-criterion 
         stopping_criterion = copy.deepcopy(self._stopping_criterion)
         stopping_criterion.reset()
-        saver.set_initial_point(perf_result)
+        if len(saver) == 0:
+            saver.set_initial_point(perf_result)
+        else:
+            # a recovered fold
+            stopping_criterion.update_information(saver)
 
         while not stopping_criterion.is_stop():
             if not self.__custom_strategy_flag:
-- 
2.43.0


From 1f7d051f144213ad4075db83d0c360c698f1ea57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:03 +0000
Subject: [PATCH 104/114] fix: ToolBox.split_AL split the instances in the
 feature query setting

---
 alipy/toolbox.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alipy/toolbox.py b/alipy/toolbox.py
index c54012b..6c9d910 100644
--- a/alipy/toolbox.py
+++ b/alipy/toolbox.py
@@ -226,7 +226,7 @@ class ToolBox:
             return self.train_idx, self.test_idx, self.label_idx, self.unlabel_idx
 
         self.split_count = split_count
-        if self._target_type != 'Features':
+        if self.query_type != 'Features':
             if self._target_type != 'multilabel':
                 self.train_idx, self.test_idx, self.label_idx, self.unlabel_idx = split(
                     X=self._X if self._instance_flag else None,
-- 
2.43.0


From e2b02ac325890fba8bab72e28461538b11f158f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:03 +0000
Subject: [PATCH 105/114] fix: the clean oracle of a ToolBox ignored the costs
 and did not exist for PartLabels

---
 alipy/toolbox.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/alipy/toolbox.py b/alipy/toolbox.py
index 6c9d910..5547fcd 100644
--- a/alipy/toolbox.py
+++ b/alipy/toolbox.py
@@ -313,13 +313,10 @@ class ToolBox:
         """
         if self.query_type == 'Features':
             return OracleQueryFeatures(feature_mat=self._X, cost=cost_mat)
-        elif self.query_type == 'AllLabels':
-            if self._target_type == 'multilabel':
-                return OracleQueryMultiLabel(self._y) if not query_by_example else OracleQueryMultiLabel(self._y,
-                                                                                                         examples=self._X,
-                                                                                                         cost=cost_mat)
-            else:
-                return Oracle(self._y) if not query_by_example else Oracle(self._y, examples=self._X, cost=cost_mat)
+        examples = self._X if query_by_example else None
+        if self._target_type == 'multilabel':
+            return OracleQueryMultiLabel(self._y, examples=examples, cost=cost_mat)
+        return Oracle(self._y, examples=examples, cost=cost_mat)
 
     def get_stateio(self, round, saving_path=None, check_flag=True, verbose=True, print_interval=1):
         """Get a stateio object for experiment saving.
-- 
2.43.0


From 92ecde2dc75b3fcdb7baebe973818f9bbac6169c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:03 +0000
Subject: [PATCH 106/114] fix: the oracle and repository of a ToolBox took
 instance names for positions

---
 alipy/toolbox.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/alipy/toolbox.py b/alipy/toolbox.py
index 5547fcd..90b9977 100644
--- a/alipy/toolbox.py
+++ b/alipy/toolbox.py
@@ -316,7 +316,7 @@ class ToolBox:
         examples = self._X if query_by_example else None
         if self._target_type == 'multilabel':
             return OracleQueryMultiLabel(self._y, examples=examples, cost=cost_mat)
-        return Oracle(self._y, examples=examples, cost=cost_mat)
+        return Oracle(self._y, examples=examples, indexes=self._indexes, cost=cost_mat)
 
     def get_stateio(self, round, saving_path=None, check_flag=True, verbose=True, print_interval=1):
         """Get a stateio object for experiment saving.
@@ -372,8 +372,10 @@ class ToolBox:
         assert (0 <= round < self.split_count)
         train_id, test_id, Lcollection, Ucollection = self.get_split(round)
         if self.query_type == 'AllLabels':
-            return MatrixRepository(labels=self._y[Lcollection.index],
-                                    examples=self._X[Lcollection.index, :] if instance_flag else None,
+            names = list(self._indexes)
+            positions = [names.index(i) for i in Lcollection.index]
+            return MatrixRepository(labels=self._y[positions],
+                                    examples=self._X[positions, :] if instance_flag else None,
                                     indexes=Lcollection.index)
         else:
             return ElementRepository(labels=self._y[Lcollection.index],
-- 
2.43.0


From 54a7e3357fc916658c9281cda2a763d803e6a6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:46 +0000
Subject: [PATCH 107/114] fix: ToolBox.get_repository took the tuples of
 multi-label and feature indexes for positions

---
 alipy/toolbox.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/alipy/toolbox.py b/alipy/toolbox.py
index 90b9977..a6de82e 100644
--- a/alipy/toolbox.py
+++ b/alipy/toolbox.py
@@ -371,16 +371,24 @@ class ToolBox:
         """
         assert (0 <= round < self.split_count)
         train_id, test_id, Lcollection, Ucollection = self.get_split(round)
-        if self.query_type == 'AllLabels':
+        if not isinstance(Lcollection, MultiLabelIndexCollection):
             names = list(self._indexes)
-            positions = [names.index(i) for i in Lcollection.index]
-            return MatrixRepository(labels=self._y[positions],
-                                    examples=self._X[positions, :] if instance_flag else None,
-                                    indexes=Lcollection.index)
+            indexes = Lcollection.index
+            positions = [names.index(i) for i in indexes]
+            labels = self._y[positions]
+        elif self.query_type == 'AllLabels':
+            # the instances of the initial labeled set are fully labeled
+            indexes = positions = list(Lcollection.get_instance_index())
+            labels = self._y[positions]
         else:
-            return ElementRepository(labels=self._y[Lcollection.index],
-                                     examples=self._X[Lcollection.index, :] if instance_flag else None,
-                                     indexes=Lcollection.index)
+            # an index is a tuple of an instance and one of its labels (features)
+            values = self._X if self.query_type == 'Features' else self._y
+            indexes = Lcollection.index
+            positions = [i[0] for i in indexes]
+            labels = [values[i] for i in indexes]
+        repository = MatrixRepository if self.query_type == 'AllLabels' else ElementRepository
+        return repository(labels=labels, indexes=indexes,
+                          examples=self._X[positions, :] if instance_flag else None)
 
     def get_query_strategy(self, strategy_name="QueryInstanceRandom", **kwargs):
         """Return the query strategy object.
-- 
2.43.0


From 8202415456d9c273dc1380070e8da9837b38ad9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:46 +0000
Subject: [PATCH 108/114] fix: ToolBox.calc_performance_metric scored by the
 probabilities of the first class or label only

---
 alipy/toolbox.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/alipy/toolbox.py b/alipy/toolbox.py
index a6de82e..fb8f55b 100644
--- a/alipy/toolbox.py
+++ b/alipy/toolbox.py
@@ -4,6 +4,7 @@ import pickle
 import warnings
 import inspect
 
+import numpy as np
 from sklearn.linear_model import LogisticRegression
 from sklearn.utils import check_array
 from sklearn.utils.multiclass import type_of_target, unique_labels
@@ -448,7 +449,9 @@ class ToolBox:
         if 'y_pred' in metric_para.parameters:
             return performance_metric(y_pred=y_pred, y_true=y_true, **kwargs)
         else:
-            y_pred = y_pred[:, 0]
+            if np.ndim(y_true) == 1 and np.ndim(y_pred) == 2:
+                # the last column of the predicted probabilities belongs to the positive class
+                y_pred = np.asarray(y_pred)[:, -1]
             return performance_metric(y_score=y_pred, y_true=y_true, **kwargs)
 
     def get_default_model(self):
-- 
2.43.0


From b7e40744897330c61411e7cf780e3cb70bee1930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:46 +0000
Subject: [PATCH 109/114] fix: a ToolBox without X could not provide a query
 strategy

---
 alipy/toolbox.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/alipy/toolbox.py b/alipy/toolbox.py
index fb8f55b..cae0087 100644
--- a/alipy/toolbox.py
+++ b/alipy/toolbox.py
@@ -119,6 +119,7 @@ class ToolBox:
         self._label_num = len(self._label_space)
 
         self._instance_flag = False
+        self._X = None
         if X is not None:
             self._instance_flag = True
             self._X = check_array(X, accept_sparse='csr', ensure_2d=True, order='C')
-- 
2.43.0


From a90484f4ff4a16fcea3700b38f2f77650e674abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:46 +0000
Subject: [PATCH 110/114] fix: a crash while saving destroyed the saved ToolBox

---
 alipy/toolbox.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/alipy/toolbox.py b/alipy/toolbox.py
index cae0087..3a3a291 100644
--- a/alipy/toolbox.py
+++ b/alipy/toolbox.py
@@ -547,11 +547,12 @@ class ToolBox:
             return
         saving_path = os.path.abspath(self._saving_path)
         if os.path.isdir(saving_path):
-            f = open(os.path.join(saving_path, 'al_settings.pkl'), 'wb')
-        else:
-            f = open(os.path.abspath(saving_path), 'wb')
+            saving_path = os.path.join(saving_path, 'al_settings.pkl')
+        # an interrupted save must not destroy the previous file
+        f = open(saving_path + '.tmp', 'wb')
         pickle.dump(self, f)
         f.close()
+        os.replace(saving_path + '.tmp', saving_path)
 
     def IndexCollection(self, array=None):
         """Return an IndexCollection object initialized with array."""
-- 
2.43.0


From 56030962cd94a4faf8e33cc234e93644eaab8e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:18 +0000
Subject: [PATCH 111/114] fix: ToolBox.MultiLabelIndexCollection failed for 1d
 indexes

---
 alipy/toolbox.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alipy/toolbox.py b/alipy/toolbox.py
index 3a3a291..025117c 100644
--- a/alipy/toolbox.py
+++ b/alipy/toolbox.py
@@ -583,7 +583,7 @@ class ToolBox:
             return MultiLabelIndexCollection(data=array, label_size=self._y.shape[1] if label_mat_shape is None else
             label_mat_shape[1])
         else:
-            return MultiLabelIndexCollection.construct_by_1d_array(data=array,
+            return MultiLabelIndexCollection.construct_by_1d_array(array=array,
                                                                    label_mat_shape=self._y.shape if label_mat_shape is None else label_mat_shape,
                                                                    order=order)
 
-- 
2.43.0


From 7f7c636b42e1fd7a3df4dc042f9f60e9c961790a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:18 +0000
Subject: [PATCH 112/114] fix: removing an element that is not in a collection
 did not raise

---
 alipy/utils/interface.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/alipy/utils/interface.py b/alipy/utils/interface.py
index 3833de7..01865ff 100644
--- a/alipy/utils/interface.py
+++ b/alipy/utils/interface.py
@@ -143,7 +143,10 @@ class BaseCollection(metaclass=ABCMeta):
 
     def remove(self, value):
         """Remove an element. If not a member, raise a KeyError."""
+        size = len(self)
         self.discard(value)
+        if len(self) == size:
+            raise KeyError(value)
 
     def clear(self):
         """Clear the container."""
-- 
2.43.0


From 362628652d0dd4361ffdedc0763ac669f1451ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:48:45 +0000
Subject: [PATCH 113/114] fix: BMDR and SPAL halved the quadratic term of the
 discrepancy twice

---
 alipy/query_strategy/query_labels.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/alipy/query_strategy/query_labels.py b/alipy/query_strategy/query_labels.py
index e784d85..d137f52 100644
--- a/alipy/query_strategy/query_labels.py
+++ b/alipy/query_strategy/query_labels.py
@@ -1196,7 +1196,7 @@ class QueryInstanceBMDR(BaseIndexQuery):
         while 1:
             iter_round += 1
             # solve QP
-            P = 0.5 * self._beta * KUU
+            P = self._beta * KUU
             pred_of_unlab = tau.dot(KLU)
             a = pred_of_unlab * pred_of_unlab + 2 * np.abs(pred_of_unlab)
             q = self._beta * (
@@ -1474,7 +1474,7 @@ class QueryInstanceSPAL(BaseIndexQuery):
         while 1:
             iter_round += 1
             # solve QP
-            P = 0.5 * self._mu * KUU
+            P = self._mu * KUU
             pred_of_unlab = theta.dot(KLU)
             a = es_weight * (pred_of_unlab * pred_of_unlab + 2 * np.abs(pred_of_unlab))
             q = self._mu * (
-- 
2.43.0


From 3933f5b25cbe9fb546196d2b061701cd8b4be127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:33:48 +0000
Subject: [PATCH 114/114] fix: a label ranking model fitted anew went on from
 what it was fitted to before

---
 alipy/query_strategy/multi_label.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/alipy/query_strategy/multi_label.py b/alipy/query_strategy/multi_label.py
index b9d9a94..68b4230 100644
--- a/alipy/query_strategy/multi_label.py
+++ b/alipy/query_strategy/multi_label.py
@@ -142,8 +142,9 @@ class _LabelRankingModel_MatlabVer:
         if len(np.nonzero(targets == 2.0)[0]) == 0:
             targets = np.hstack((targets, 2 * np.ones((targets.shape[0], 1))))
         data = np.asarray(data)
-        B = np.asarray(B)
-        V = np.asarray(V)
+        # trained in place below, the given parameters (e.g. the initial ones) are kept
+        B = np.array(B)
+        V = np.array(V)
 
         n, n_class = np.shape(targets)
         row_ind, col_ind = np.nonzero(targets >= 1)
-- 
2.43.0

