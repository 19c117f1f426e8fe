From 68734168e88fe92b988439d4d951e59b54852ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:18 +0000
Subject: [PATCH 01/41] fix: table lookup returned the neighbouring entry at
 some grid points

The fractional index of a point exactly on a grid line can round to just
below the integer, the point then equals the upper line while the lower
line's entries were used.
---
 numerous/utils/interpolation/bilinear_interpolation.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/numerous/utils/interpolation/bilinear_interpolation.py b/numerous/utils/interpolation/bilinear_interpolation.py
index dcabae8..7109fd7 100644
--- a/numerous/utils/interpolation/bilinear_interpolation.py
+++ b/numerous/utils/interpolation/bilinear_interpolation.py
@@ -84,6 +84,12 @@ def bilinear_interpolation(ix, x, y, data_def, data):
 
     y2 = data[y2_ix + y_start_ix]
 
+    # on a grid line rounding may leave the lower index one short: use that line alone
+    if x == x2:
+        x1_ix = x2_ix
+    if y == y2:
+        y1_ix = y2_ix
+
     q_start_ix = y_start_ix + np.int64(y_len)
 
     q11 = data[q_start_ix + x1_ix + np.int64(x_len) * y1_ix]
-- 
2.43.0


From f3b04c3908b81fd9716e1f55e48d4034599141e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:14 +0000
Subject: [PATCH 02/41] fix: history lost every sample in which some variable
 was not a number

---
 numerous/engine/model/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numerous/engine/model/model.py b/numerous/engine/model/model.py
index 6b97b0b..875d2e9 100644
--- a/numerous/engine/model/model.py
+++ b/numerous/engine/model/model.py
@@ -857,7 +857,7 @@ class Model:
         return data
 
     def generate_not_nan_history_array(self):
-        return self.numba_model.historian_data[:, ~np.isnan(self.numba_model.historian_data).any(axis=0)]
+        return self.numba_model.historian_data[:, ~np.isnan(self.numba_model.historian_data[0])]
 
     def create_historian_df(self):
         if self.historian_df is not None:
-- 
2.43.0


From f195bdaf93ff0acd0e40f461928fca13044d0e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:42 +0000
Subject: [PATCH 03/41] fix: external data equal to the previously mapped
 values was not written when the variables held other values

---
 numerous/engine/model/compiled_model.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/numerous/engine/model/compiled_model.py b/numerous/engine/model/compiled_model.py
index 0818809..5171f37 100644
--- a/numerous/engine/model/compiled_model.py
+++ b/numerous/engine/model/compiled_model.py
@@ -33,7 +33,6 @@ numba_model_spec = [
     ('max_external_t', float64),
     ('min_external_t', float64),
     ('external_idx', int64[:]),
-    ('previous_external_mappings', float64[:]),
     ('post_step', types.ListType(types.FunctionType(types.void())))
 ]
 
@@ -76,7 +75,6 @@ class CompiledModel:
         self.historian_data = np.empty(
             (len(init_vars) + 1, self.historian_max_size), dtype=np.float64)
         self.historian_data.fill(np.nan)
-        self.previous_external_mappings = np.zeros(self.number_of_external_mappings)
 
     def vectorized_full_jacobian(self, t, y, dt):
         h = 1e-8
@@ -110,11 +108,9 @@ class CompiledModel:
                                    self.external_mappings_numpy[df_indx, :, var_idx])
             next_values[i] = value
 
-        if np.array_equal(next_values, self.previous_external_mappings):  # No need to update if no values were changed
+        if np.array_equal(next_values, self.read_variables()[self.external_idx]):  # No need to update unchanged values
             return
 
-        self.previous_external_mappings = next_values
-
         for i, value in enumerate(next_values):
             self.write_variables(value, self.external_idx[i])
 
-- 
2.43.0


From d4f1269de530e9df2c5fd713a224c132502a48b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:24 +0000
Subject: [PATCH 04/41] fix: csv files with the time in the first column could
 not be loaded in more than one batch

---
 numerous/utils/data_loader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numerous/utils/data_loader.py b/numerous/utils/data_loader.py
index bbee08c..f23d829 100644
--- a/numerous/utils/data_loader.py
+++ b/numerous/utils/data_loader.py
@@ -30,7 +30,7 @@ class CSVDataLoader(DataLoader):
 
     def _valid(self, chunks, t):
         for i, chunk in enumerate(chunks):
-            if not self.t_ix:
+            if self.t_ix is None:
                 self.t_ix = np.where(chunk.columns == 'time')[0][0]
             mask = chunk.iloc[:, self.t_ix] <= t
 
-- 
2.43.0


From c24c3b9a34503dbcaad95fafd0936eb0dfd66aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:24 +0000
Subject: [PATCH 05/41] fix: chunked csv loading skipped the row at or before t
 on repeated and on earlier requests

---
 numerous/utils/data_loader.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/numerous/utils/data_loader.py b/numerous/utils/data_loader.py
index f23d829..39d6932 100644
--- a/numerous/utils/data_loader.py
+++ b/numerous/utils/data_loader.py
@@ -23,6 +23,7 @@ class CSVDataLoader(DataLoader):
         self.chunksize = chunksize
         self.is_chunks = False
         self._skiprows = 0
+        self._t = -np.inf
         self.df = pd.DataFrame()
         self.t_ix = None
         if self.chunksize:
@@ -37,13 +38,17 @@ class CSVDataLoader(DataLoader):
             if mask.all():
                 yield chunk
             else:
+                # continue from the chunk holding the last row at or before t
+                if i > 0 and not mask.iloc[0]:
+                    i -= 1
                 self._skiprows += i * self.chunksize
                 yield chunk
                 break
 
     def load(self, df_id: str, t: float) -> DataFrame:
-        if not self.df.empty and t < min(self.df.iloc[:, self.t_ix]):
+        if t < self._t:
             self._skiprows = 0
+        self._t = t
 
         if self.is_chunks:
             chunks = pd.read_csv(df_id, header=0, skiprows=self._skiprows, chunksize=self.chunksize)
-- 
2.43.0


From b21271427b3e2c74458d24cbb0a899ac908fda65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:24 +0000
Subject: [PATCH 06/41] fix: csv loader used the position in one file for
 another file

---
 numerous/utils/data_loader.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/numerous/utils/data_loader.py b/numerous/utils/data_loader.py
index 39d6932..fb85486 100644
--- a/numerous/utils/data_loader.py
+++ b/numerous/utils/data_loader.py
@@ -24,6 +24,7 @@ class CSVDataLoader(DataLoader):
         self.is_chunks = False
         self._skiprows = 0
         self._t = -np.inf
+        self._df_id = None
         self.df = pd.DataFrame()
         self.t_ix = None
         if self.chunksize:
@@ -46,9 +47,13 @@ class CSVDataLoader(DataLoader):
                 break
 
     def load(self, df_id: str, t: float) -> DataFrame:
-        if t < self._t:
+        if df_id != self._df_id:
+            self._skiprows = 0
+            self.t_ix = None
+        elif t < self._t:
             self._skiprows = 0
         self._t = t
+        self._df_id = df_id
 
         if self.is_chunks:
             chunks = pd.read_csv(df_id, header=0, skiprows=self._skiprows, chunksize=self.chunksize)
-- 
2.43.0


From 1332650d4bb99d8c1764c3db365bd872838159f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:24 +0000
Subject: [PATCH 07/41] fix: external columns were matched by partial names and
 with another table's interpolation

---
 .../engine/system/external_mappings/external_mappings.py    | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/numerous/engine/system/external_mappings/external_mappings.py b/numerous/engine/system/external_mappings/external_mappings.py
index 193e801..82ab635 100644
--- a/numerous/engine/system/external_mappings/external_mappings.py
+++ b/numerous/engine/system/external_mappings/external_mappings.py
@@ -32,7 +32,6 @@ class ExternalMapping:
 
         self.external_mappings_numpy = np.array(self.external_mappings_numpy, dtype=np.float64)
         self.external_mappings_time = np.array(self.external_mappings_time, dtype=np.float64)
-        self.interpolation_type = [item for sublist in self.interpolation_type for item in sublist]
         self.external_df_idx = []
         self.interpolation_info = []
 
@@ -73,10 +72,11 @@ class ExternalMapping:
         for i, external_column in enumerate(self.external_columns):
             for path in variables[var_id].path.path[system_id]:
                 for index, column in enumerate(external_column):
-                    if column in path:
+                    if column == path:
                         self.external_df_idx.append((i, index))
                         self.interpolation_info.append(
-                            self.interpolation_type[index].value == InterpolationType.LINEAR.value)
+                            self.interpolation_type[i][index].value == InterpolationType.LINEAR.value)
+                        return
 
     def is_mapped_var(self, variables, var_id, system_id):
         if not variables[var_id].global_var:
-- 
2.43.0


From d2717837d8d019da75c4e719d6b1a74f55bc0e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:08 +0000
Subject: [PATCH 08/41] fix: external data in another time unit was loaded for
 the wrong time

---
 numerous/engine/system/external_mappings/external_mappings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numerous/engine/system/external_mappings/external_mappings.py b/numerous/engine/system/external_mappings/external_mappings.py
index 82ab635..ad72da9 100644
--- a/numerous/engine/system/external_mappings/external_mappings.py
+++ b/numerous/engine/system/external_mappings/external_mappings.py
@@ -42,7 +42,7 @@ class ExternalMapping:
         for external_mapping in self.external_mappings:
             for element in external_mapping.external_mappings:
                 # TODO division round bugs? we can skip a row here
-                df = external_mapping.data_loader.load(element.data_frame_id, t)
+                df = external_mapping.data_loader.load(element.data_frame_id, t / element.time_multiplier)
 
                 if df.empty:
                     return False
-- 
2.43.0


From 164ba2f44d968725d7686f5e9dcd6d38f591780c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:08 +0000
Subject: [PATCH 09/41] fix: reset computed external values from the rows
 loaded last instead of those at the start time

---
 numerous/engine/simulation/simulation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/numerous/engine/simulation/simulation.py b/numerous/engine/simulation/simulation.py
index 6ba5cfc..fbea7af 100644
--- a/numerous/engine/simulation/simulation.py
+++ b/numerous/engine/simulation/simulation.py
@@ -92,9 +92,6 @@ class Simulation:
         self.model.historian_df = None
         self.model.numba_model.historian_reinit()
 
-        self.model.numba_model.map_external_data(t_start)
-        self.model.numba_model.func(t_start, self.model.numba_model.get_states())
-
         if self.model.numba_model.is_external_data_update_needed(t_start):
             self.model.numba_model.is_external_data = self.model.external_mappings.load_new_external_data_batch(t_start)
         if self.model.numba_model.is_external_data:
@@ -103,6 +100,9 @@ class Simulation:
                                                         self.model.external_mappings.t_max,
                                                         self.model.external_mappings.t_min)
 
+        self.model.numba_model.map_external_data(t_start)
+        self.model.numba_model.func(t_start, self.model.numba_model.get_states())
+
     def _complete(self):
 
         list(map(lambda x: x.restore_variables_from_numba(self.model.numba_model,
-- 
2.43.0


From bc28a77462b314fbeb077c4b924ce02ee687492b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:47 +0000
Subject: [PATCH 10/41] fix: a variable summed twice on different branches was
 read as its own value the second time

---
 numerous/engine/variables.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/numerous/engine/variables.py b/numerous/engine/variables.py
index 8e3d885..9cf9061 100644
--- a/numerous/engine/variables.py
+++ b/numerous/engine/variables.py
@@ -91,8 +91,7 @@ class MappedValue(object):
             if self.mapping:
                 return self.mapping.get_value()
             if self.sum_mapping:
-                ids.append(self.id)
-                return reduce(add, [x.__get_value(ids) for x in self.sum_mapping])
+                return reduce(add, [x.__get_value(ids + [self.id]) for x in self.sum_mapping])
 
             else:
                 return self.value
-- 
2.43.0


From 6fb32c25c295484a1207d51d5f09b91ffba783b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:47 +0000
Subject: [PATCH 11/41] fix: the first mapping assigned after a sum was added
 to a held variable was ignored

---
 numerous/engine/variables.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numerous/engine/variables.py b/numerous/engine/variables.py
index 9cf9061..014451c 100644
--- a/numerous/engine/variables.py
+++ b/numerous/engine/variables.py
@@ -63,7 +63,7 @@ class MappedValue(object):
         self.llvm_idx = None
 
     def add_mapping(self, variable):
-        if not self.special_mapping:
+        if not (self.special_mapping and variable.id == self.id):
             if variable.id == self.id:
                 raise RecursionError("Variable {0} cannot be mapped to itself", self.id)
             self.mapping = variable
-- 
2.43.0


From f2f673d4b95250f71693234c564833947f6aafff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:47 +0000
Subject: [PATCH 12/41] fix: text that looks like a number was accepted as the
 value of a variable

---
 numerous/engine/variables.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/numerous/engine/variables.py b/numerous/engine/variables.py
index 014451c..64c6d15 100644
--- a/numerous/engine/variables.py
+++ b/numerous/engine/variables.py
@@ -226,6 +226,8 @@ class Variable(MappedValue):
     @value.setter
     def value(self, value):
         try:
+            if isinstance(value, (str, bytes)):
+                raise TypeError('text is not a numeric value')
             float(value)
         except (ValueError, TypeError):
             raise ValueError(f"Only numeric values allowed in variables (attempted to set value='{value}' in "
-- 
2.43.0


From 1f36db79b0ad52ef9a1e3efdf66dca8b725cd47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:47 +0000
Subject: [PATCH 13/41] fix: item paths lost their delimiter below the first
 level and failed on an empty name

---
 numerous/engine/system/item_path.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/numerous/engine/system/item_path.py b/numerous/engine/system/item_path.py
index b03bd74..25b1559 100644
--- a/numerous/engine/system/item_path.py
+++ b/numerous/engine/system/item_path.py
@@ -13,7 +13,7 @@ class ItemPath:
     def __init__(self, path, delimiter="."):
         self.path = path
         self.delimiter = delimiter
-        if path:
+        if path is not None:
             self.path_parsed = path.split(delimiter)
         else:
             self.path_parsed = None
@@ -36,7 +36,7 @@ class ItemPath:
         """
         next_part = self.path_parsed[1:]
         if next_part:
-            return ItemPath(self.delimiter.join(next_part))
+            return ItemPath(self.delimiter.join(next_part), self.delimiter)
 
     def __str__(self):
         return self.path
-- 
2.43.0


From 6db13809809eb06b40a3fa8e3a7097941b2fe3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:07 +0000
Subject: [PATCH 14/41] fix: contents registered into an already registered
 system had no name from the systems above it

---
 numerous/engine/system/subsystem.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/numerous/engine/system/subsystem.py b/numerous/engine/system/subsystem.py
index 2e08ce9..b417f4a 100644
--- a/numerous/engine/system/subsystem.py
+++ b/numerous/engine/system/subsystem.py
@@ -155,6 +155,13 @@ class Subsystem(ConnectorItem):
         item._increase_level()
         self.update_variables_path(item)
         self.registered_items.update({item.id: item})
+        item.parent_item = self
+        # this system may itself be registered already: the systems above it have to know the new names too
+        tail, parent = [], self.parent_item
+        while parent is not None:
+            tail = [parent] + tail
+            self.update_variables_path(item, tail)
+            parent = parent.parent_item
 
     def _find_variable(self, item, varname):
         variables = item.get_variables()
-- 
2.43.0


From 2e3edca150ba5a5c4b2d1c7daef0804c4b9ea193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:07 +0000
Subject: [PATCH 15/41] fix: binding to a name that does not exist was silently
 ignored

---
 numerous/engine/system/connector_item.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numerous/engine/system/connector_item.py b/numerous/engine/system/connector_item.py
index da3fd85..ca17022 100644
--- a/numerous/engine/system/connector_item.py
+++ b/numerous/engine/system/connector_item.py
@@ -57,7 +57,7 @@ class ConnectorItem(Item, Connector):
                 self.bindings[key].add_binding(value)
                 self.__bind_mappings(self.bindings[key], value)
             else:
-                ValueError("Binding {} is not exist in item {}".format(key, self.tag))
+                raise ValueError("Binding {} is not exist in item {}".format(key, self.tag))
 
 
 class ConnectorTwoWay(ConnectorItem):
-- 
2.43.0


From fdcc1e79313a50e63ff5cda8d0a02c1ff6b93ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:07 +0000
Subject: [PATCH 16/41] fix: update of a typed container accepted objects of
 any type

---
 numerous/utils/dict_wrapper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/numerous/utils/dict_wrapper.py b/numerous/utils/dict_wrapper.py
index 8be785f..3386ad0 100644
--- a/numerous/utils/dict_wrapper.py
+++ b/numerous/utils/dict_wrapper.py
@@ -29,8 +29,8 @@ class _DictWrapper(object):
         return self.shadow_dict.values()
 
     def update(self, E=None, **F):
-        self.internal_dict.update(E, **F)
-        self.shadow_dict.update(E, **F)
+        for key, value in dict(E or {}, **F).items():
+            self[key] = value
 
     def __setitem__(self, key, value):
         if isinstance(value, self.value_type):
-- 
2.43.0


From 64a31b42ffe9b200d0771e3ff1e18d48a15e7da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:07 +0000
Subject: [PATCH 17/41] fix: a second item assigned to a binding replaced the
 first one silently

---
 numerous/engine/system/connector.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/numerous/engine/system/connector.py b/numerous/engine/system/connector.py
index a06153a..4cae893 100644
--- a/numerous/engine/system/connector.py
+++ b/numerous/engine/system/connector.py
@@ -96,8 +96,6 @@ class Connector(Node):
         return Binding(binding_name)
 
     def __setattr__(self, key, value):
-        if key in self.__dict__:
-            if isinstance(self.__dict__[key], Binding):
-                if isinstance(value, Node):
-                    self.__dict__[key].add_binding(value)
+        if isinstance(value, Node) and 'bindings' in self.__dict__ and key in self.bindings.keys():
+            self.bindings[key].add_binding(value)
         object.__setattr__(self, key, value)
-- 
2.43.0


From 4dbb2de919f9cba8ef2ed797e7664c8007a748ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:54 +0000
Subject: [PATCH 18/41] fix: state and derivative indices paired the wrong
 derivative with a state when sums add temporaries

---
 numerous/engine/model/lowering/equations_generator.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/numerous/engine/model/lowering/equations_generator.py b/numerous/engine/model/lowering/equations_generator.py
index 1aec9da..77ff728 100644
--- a/numerous/engine/model/lowering/equations_generator.py
+++ b/numerous/engine/model/lowering/equations_generator.py
@@ -392,14 +392,10 @@ class EquationGenerator:
             else:
                 raise ValueError('Unused node: ', self.equation_graph.key_map[n])
 
-        deriv_idx = []
-        state_idx = []
         save_to_file = export_model or clonable
-        for k, v in self.values_order.items():
-            if k in self.deriv:
-                deriv_idx.append(v)
-            if k in self.states:
-                state_idx.append(v)
+        # in the order in which the kernel takes the states and returns the derivatives
+        deriv_idx = [self.values_order[k] for k in self.deriv]
+        state_idx = [self.values_order[k] for k in self.states]
         if self.llvm:
             log.info('Generating llvm')
             diff, var_func, var_write = self.generated_program.generate(imports=self.imports,
-- 
2.43.0


From e2baa91cd0f7fad887213925cb506a9430346187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:54 +0000
Subject: [PATCH 19/41] fix: reading all variables raised KeyError for models
 with temporaries

---
 numerous/engine/model/model.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/numerous/engine/model/model.py b/numerous/engine/model/model.py
index 875d2e9..04b89dc 100644
--- a/numerous/engine/model/model.py
+++ b/numerous/engine/model/model.py
@@ -442,7 +442,7 @@ class Model:
             self.var_write(v, self.vars_ordered_values[var_id])
 
     def get_variables_initial_values(self):
-        return {self.inverse_aliases[k]: v for k, v in self._initial_variables_dict.items()}
+        return {self.inverse_aliases[k]: v for k, v in self._initial_variables_dict.items() if k in self.inverse_aliases}
 
     def lower_model_codegen(self, tmp_vars):
 
@@ -494,7 +494,8 @@ class Model:
 
         def c5():
             vals = var_func()
-            return {self.inverse_aliases[k]: v for k, v in zip(self.vars_ordered_values.keys(), vals)}
+            return {self.inverse_aliases[k]: v for k, v in zip(self.vars_ordered_values.keys(), vals)
+                    if k in self.inverse_aliases}
 
         setattr(self, "update_variables", c4)
         setattr(self, "get_variables", c5)
@@ -841,7 +842,8 @@ class Model:
 
         def c5():
             vals = var_func()
-            return {self.inverse_aliases[k]: v for k, v in zip(self.vars_ordered_values.keys(), vals)}
+            return {self.inverse_aliases[k]: v for k, v in zip(self.vars_ordered_values.keys(), vals)
+                    if k in self.inverse_aliases}
 
         setattr(self, "update_variables", c4)
         setattr(self, "get_variables", c5)
-- 
2.43.0


From c5466e1da14901cda73036fc7441b308c8448220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:04 +0000
Subject: [PATCH 20/41] fix: an alias declared with a variable was ignored

---
 numerous/engine/variables.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numerous/engine/variables.py b/numerous/engine/variables.py
index 64c6d15..b3e3125 100644
--- a/numerous/engine/variables.py
+++ b/numerous/engine/variables.py
@@ -184,7 +184,7 @@ class Variable(MappedValue):
         self.paths = []
         self.global_var = detailed_variable_description.global_var
         self.global_var_idx = detailed_variable_description.global_var_idx
-        self.alias = None
+        self.alias = detailed_variable_description.alias
         self.set_var = None
         self.set_var_ix = None
         self.set_namespace = None
-- 
2.43.0


From d23dc3f8a2873fb6120a5f91ca9ffa15eb35d279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:04 +0000
Subject: [PATCH 21/41] fix: two variables could share one name, the first was
 then shown with the other's data

---
 numerous/engine/model/model.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/numerous/engine/model/model.py b/numerous/engine/model/model.py
index 04b89dc..ee33644 100644
--- a/numerous/engine/model/model.py
+++ b/numerous/engine/model/model.py
@@ -353,6 +353,12 @@ class Model:
         self._assembly_tail()
         self._initial_variables_dict = {k: v.value for k, v in self.variables.items() if not v.global_var}
 
+    def _check_name(self, name, variable):
+        if name == 'time':
+            raise ValueError(f"The name 'time' of variable {variable.id} is reserved for the time of the recorded history")
+        if self.aliases.get(name, variable.id) != variable.id:
+            raise ValueError(f"The name '{name}' of variable {variable.id} is already used by variable {self.aliases[name]}")
+
     def _assembly_tail(self):
         self.logged_aliases = {}
 
@@ -366,10 +372,12 @@ class Model:
                 logvar = True
             if self.system.id in variable.path.path:
                 for path in variable.path.path[self.system.id]:
+                    self._check_name(path, variable)
                     self.aliases.update({path: variable.id})
                     if logvar:
                         self.logged_aliases.update({path: variable.id})
             if variable.alias is not None:
+                self._check_name(variable.alias, variable)
                 self.aliases.update({variable.alias: variable.id})
                 if logvar:
                     self.logged_aliases.update({variable.alias: variable.id})
-- 
2.43.0


From 26c113f9d17e4a7a7f626940bed0626b845d3602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:04 +0000
Subject: [PATCH 22/41] fix: looking up several names with get returned columns
 under internal ids

---
 numerous/engine/model/aliased_dataframe.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/numerous/engine/model/aliased_dataframe.py b/numerous/engine/model/aliased_dataframe.py
index e481e69..206afe7 100644
--- a/numerous/engine/model/aliased_dataframe.py
+++ b/numerous/engine/model/aliased_dataframe.py
@@ -36,6 +36,8 @@ class AliasedDataFrame:
                 return self.df.get(self.aliases[names] if names in self.aliases else names)
             if isinstance(names, Sequence):
                 df = self.df.get([self.aliases[name] if name in self.aliases else name for name in names])
+                if df is not None:
+                    df.columns = list(names)
                 return df
         else:
             return self.df.get(names)
-- 
2.43.0


From c8c04915843d2109a9ae7425d7f43bde86ea4282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:06 +0000
Subject: [PATCH 23/41] fix: a model simulated after another one was built used
 the other model's kernel

---
 numerous/engine/model/model.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/numerous/engine/model/model.py b/numerous/engine/model/model.py
index ee33644..797a3b4 100644
--- a/numerous/engine/model/model.py
+++ b/numerous/engine/model/model.py
@@ -482,9 +482,7 @@ class Model:
         def c3(self, value, idx):
             return var_write(value, idx)
 
-        setattr(CompiledModel, "compiled_compute", c1)
-        setattr(CompiledModel, "read_variables", c2)
-        setattr(CompiledModel, "write_variables", c3)
+        self.kernel_functions = {"compiled_compute": c1, "read_variables": c2, "write_variables": c3}
 
         self.compiled_compute, self.var_func, self.var_write = compiled_compute, var_func, var_write
         self.init_values = np.ascontiguousarray(
@@ -748,8 +746,9 @@ class Model:
                 numba_model_spec.append(item)
 
         # Creating a copy of CompiledModel class so it is possible
-        # to creat instance detached from muttable type of CompiledModel
-        tmp = type(f'{CompiledModel.__name__}' + self.system.id, CompiledModel.__bases__, dict(CompiledModel.__dict__))
+        # with the kernel of this model, whatever other models were built in between
+        tmp = type(f'{CompiledModel.__name__}' + self.system.id, CompiledModel.__bases__,
+                   dict(CompiledModel.__dict__, **self.kernel_functions))
         if self.use_llvm:
             @jitclass(numba_model_spec)
             class CompiledModel_instance(tmp):
@@ -832,9 +831,7 @@ class Model:
         def c3(self, value, idx):
             return var_write(value, idx)
 
-        setattr(CompiledModel, "compiled_compute", c1)
-        setattr(CompiledModel, "read_variables", c2)
-        setattr(CompiledModel, "write_variables", c3)
+        self.kernel_functions = {"compiled_compute": c1, "read_variables": c2, "write_variables": c3}
 
         for varname, ix in self.vars_ordered_values.items():
             var = self.variables[varname]
-- 
2.43.0


From 04be036b9a6fdb9c8ae7c1be4997da3bcf022899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:06 +0000
Subject: [PATCH 24/41] fix: models created without a historian shared one

---
 numerous/engine/model/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/numerous/engine/model/model.py b/numerous/engine/model/model.py
index 797a3b4..4e204d4 100644
--- a/numerous/engine/model/model.py
+++ b/numerous/engine/model/model.py
@@ -113,7 +113,7 @@ class Model:
     def __init__(self, system=None,
                  logger_level: LoggerLevel = LoggerLevel.ALL,
                  assemble: bool = True,
-                 imports: dict = None, historian=InMemoryHistorian(),
+                 imports: dict = None, historian=None,
                  use_llvm: bool = True,
                  save_to_file: bool = False,
                  generate_graph_pdf: bool = False,
@@ -166,7 +166,7 @@ class Model:
         self.flat_scope_idx_from = None
         self.historian_df = None
         self.aliases = {}
-        self.historian = historian
+        self.historian = historian if historian is not None else InMemoryHistorian()
         self.vars_ordered_value = {}
         self.events = []
         self.timestamp_events = []
-- 
2.43.0


From c4148fd42b10a7f8659b1091e5f83a22a39bce6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:09 +0000
Subject: [PATCH 25/41] fix: cloned and loaded models could not be reset

---
 numerous/engine/model/model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/numerous/engine/model/model.py b/numerous/engine/model/model.py
index 4e204d4..ce61536 100644
--- a/numerous/engine/model/model.py
+++ b/numerous/engine/model/model.py
@@ -940,6 +940,7 @@ class Model:
         model.aliases = aliases
 
         model._set_functions(equations_llvm_opt, n_deriv, max_var)
+        model._initial_variables_dict = dict(zip(vars_ordered_values.keys(), init_values))
         return model
 
     def clone(self, clonable=False):
@@ -960,6 +961,7 @@ class Model:
         model.aliases = self.aliases
 
         model._set_functions(self.equations_llvm_opt, self.n_deriv, self.max_var)
+        model._initial_variables_dict = self._initial_variables_dict
 
         if clonable:
             model.clonable = True
-- 
2.43.0


From 3bf1ef58218324e9cf6dba8ec4f21fb1cefa6c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:56 +0000
Subject: [PATCH 26/41] fix: graph queries ignored the first node and edges
 added after a query

---
 .../model/graph_representation/graph.py       | 20 +++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/numerous/engine/model/graph_representation/graph.py b/numerous/engine/model/graph_representation/graph.py
index 4572eb5..62d76b9 100644
--- a/numerous/engine/model/graph_representation/graph.py
+++ b/numerous/engine/model/graph_representation/graph.py
@@ -80,6 +80,11 @@ class Graph:
         self.arg_metadata = []
         self.skipped_arg_metadata = []
 
+    def _changed(self):
+        # what was derived from the nodes and edges so far is no longer valid
+        self.node_edges = None
+        self.lower_graph = None
+
     def build_node_edges(self):
         self.node_edges = [([], []) for _ in range(self.node_counter)]
         for i, e in enumerate(self.edges[:self.edge_counter]):
@@ -90,6 +95,7 @@ class Graph:
         if not node.key:
             node.key = tmp_generator()
         if node.key not in self.node_map or ignore_existing:
+            self._changed()
             if not node.key in self.node_map:
 
                 node_n = self.node_counter
@@ -116,6 +122,7 @@ class Graph:
         return node_n
 
     def add_edge(self, edge: Edge):
+        self._changed()
         edge_n = self.edge_counter
         self.edges[edge_n, :] = [edge.start, edge.end]
 
@@ -130,9 +137,10 @@ class Graph:
         return edge_n
 
     def set_edge(self, edge, start=None, end=None):
-        if start:
+        self._changed()
+        if start is not None:
             self.edges[edge, 0] = start
-        if end:
+        if end is not None:
             self.edges[edge, 1] = end
 
     def remove_node(self, node_n):
@@ -176,7 +184,7 @@ class Graph:
         return zip(np.argwhere(end_ix), end_)
 
     def get_edges_type_for_node_filter(self, start_node: int = None, end_node: int = None, val=None):
-        if start_node and end_node:
+        if start_node is not None and end_node is not None:
             raise ValueError('arg cant have both start and end!')
         ix = []
         if not self.node_edges:
@@ -206,14 +214,14 @@ class Graph:
 
     def has_edge_for_nodes(self, start_node=None, end_node=None):
 
-        if start_node and end_node:
+        if start_node is not None and end_node is not None:
             return np.where(
                 (self.edges[:self.edge_counter, 0] == start_node) & (self.edges[:self.edge_counter, 1] == end_node))[0]
 
-        if start_node:
+        if start_node is not None:
             return start_node in self.edges[:, 0]
 
-        if end_node:
+        if end_node is not None:
             return end_node in self.edges[:, 1]
 
     def clone(self):
-- 
2.43.0


From 2bacc2e9bcc8c8fdebdf4cc56c6f3736e87c1a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:56 +0000
Subject: [PATCH 27/41] fix: a second topological order was wrong and nodes of
 a cycle nothing leads to were lost

---
 numerous/engine/model/graph_representation/graph.py       | 5 ++---
 numerous/engine/model/graph_representation/lower_graph.py | 7 ++++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/numerous/engine/model/graph_representation/graph.py b/numerous/engine/model/graph_representation/graph.py
index 62d76b9..18c6589 100644
--- a/numerous/engine/model/graph_representation/graph.py
+++ b/numerous/engine/model/graph_representation/graph.py
@@ -300,9 +300,8 @@ class Graph:
 
         self.lower_graph.topological_sort()
 
-        if self.lower_graph.cyclic_dependency >= 0:
-
-            unsorted_nodes = set(self.lower_graph.nodes).difference(set(self.lower_graph.topological_sorted_nodes))
+        unsorted_nodes = set(self.lower_graph.nodes).difference(set(self.lower_graph.topological_sorted_nodes))
+        if len(unsorted_nodes) > 0:
             self.cyclic_path = self.lower_graph.cyclic_path
             if not ignore_cyclic:
                 cg = self.graph_from_path(self.cyclic_path)
diff --git a/numerous/engine/model/graph_representation/lower_graph.py b/numerous/engine/model/graph_representation/lower_graph.py
index 0e6a253..b35e82d 100644
--- a/numerous/engine/model/graph_representation/lower_graph.py
+++ b/numerous/engine/model/graph_representation/lower_graph.py
@@ -255,8 +255,9 @@ class _Graph:
 
     def topological_sort(self):
         # print('n_nodes: ', self.n_nodes)
-        sorted_nodes = np.zeros(self.n_nodes, int64) * -1
+        sorted_nodes = np.zeros(self.n_nodes, int64) - 1
         n_sorted = 0
+        indegree = self.indegree_map.copy()
 
         zero_indegree, n_zero_indegree = self.get_zero_indegree()
 
@@ -270,8 +271,8 @@ class _Graph:
             n_zero_indegree -= 1
             for i in range(children_of_node[0]):
                 child = children_of_node[i + 1]
-                self.indegree_map[child] -= 1
-                if self.indegree_map[child] == 0:
+                indegree[child] -= 1
+                if indegree[child] == 0:
                     zero_indegree[n_zero_indegree] = child
                     n_zero_indegree += 1
 
-- 
2.43.0


From f7c6ac3f8bc32cbe5d732c7095ddf0dfeb47ad28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:00 +0000
Subject: [PATCH 28/41] fix: compiled kernel built a call after a set call into
 the finished loop

A call whose first argument is a new target took its address wherever the
builder happened to stand, which after a set call is a terminated block.
---
 numerous/engine/model/lowering/llvm_builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numerous/engine/model/lowering/llvm_builder.py b/numerous/engine/model/lowering/llvm_builder.py
index 2772bf4..93d4497 100644
--- a/numerous/engine/model/lowering/llvm_builder.py
+++ b/numerous/engine/model/lowering/llvm_builder.py
@@ -263,6 +263,7 @@ class LLVMBuilder:
         self.builder.position_at_end(_block)
 
     def add_call(self, external_function_name: str, args: list[VariableArgument], target_ids: list[int]):
+        self.builder.position_at_end(self.bb_loop)
         arg_pointers = []
         for i1, arg in enumerate(args):
             if i1 in target_ids:
@@ -274,7 +275,6 @@ class LLVMBuilder:
                     arg_pointers.append(*self._load_args([arg]))
                 else:
                     arg_pointers.append(*self._load_args([arg]))
-        self.builder.position_at_end(self.bb_loop)
         self.builder.call(self.ext_funcs[external_function_name], arg_pointers)
 
     def _build_var_r(self):
-- 
2.43.0


From 475ff639954d460ac4ac917cac77602a0c3ff754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:58 +0000
Subject: [PATCH 29/41] fix: compiled set calls saw the states of the previous
 evaluation

Set calls read the slots of their arguments, but the states were copied into
their slots only after all equations had run.
---
 numerous/engine/model/lowering/llvm_builder.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/numerous/engine/model/lowering/llvm_builder.py b/numerous/engine/model/lowering/llvm_builder.py
index 93d4497..2a9cafc 100644
--- a/numerous/engine/model/lowering/llvm_builder.py
+++ b/numerous/engine/model/lowering/llvm_builder.py
@@ -95,9 +95,10 @@ class LLVMBuilder:
         for idx, g_var in enumerate(self.global_names.keys()):
             self.load_global_arguments(idx, g_var, 1)
 
-        # go through all states to put them in store block
+        # go through all states to put them in load block (set calls read their slots) and in store block
         for state in self.states:
-            self.store_variable(state)
+            self.store_variable(state, self.bb_entry)
+            self.store_variable(state, self.bb_store)
 
         self.builder.position_at_end(self.bb_entry)
         self.builder.branch(self.bb_loop)
@@ -252,9 +253,9 @@ class LLVMBuilder:
 
         self.builder.store(self.builder.load(self.values[global_arg_name]), eptr)
 
-    def store_variable(self, variable_name: str):
+    def store_variable(self, variable_name: str, block: ll.Block):
         _block = self.builder.block
-        self.builder.position_at_end(self.bb_store)
+        self.builder.position_at_end(block)
         index = ll.IntType(64)(self.variable_names[variable_name])
         ptr = self.model_variables
         indices = [self.index0, index]
-- 
2.43.0


From c48f53c97cb7941cc399f6ccf1936ad665e12b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:42 +0000
Subject: [PATCH 30/41] fix: set calls assumed that their variables are next to
 each other

---
 numerous/engine/model/lowering/ast_builder.py  | 7 +++++++
 numerous/engine/model/lowering/llvm_builder.py | 8 +++++++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/numerous/engine/model/lowering/ast_builder.py b/numerous/engine/model/lowering/ast_builder.py
index 0dd2d38..a215fb9 100644
--- a/numerous/engine/model/lowering/ast_builder.py
+++ b/numerous/engine/model/lowering/ast_builder.py
@@ -295,6 +295,13 @@ class ASTBuilder:
             return ast.Constant(value=0, kind=None)
 
     def add_set_call(self, external_function_name, variable_name_arg_and_trg, targets_ids):
+        start, width = self.variable_names[variable_name_arg_and_trg[0][0]], len(variable_name_arg_and_trg[0])
+        if any(self.variable_names[name] != start + i * width + j
+               for i, row in enumerate(variable_name_arg_and_trg) for j, name in enumerate(row)):
+            # the variables are not next to each other: one call for each element
+            for row in variable_name_arg_and_trg:
+                self.add_call(external_function_name, [VariableArgument(name, False) for name in row], targets_ids)
+            return
         temp = (ast.For(target=ast.Name(id='i', ctx=ast.Store()),
                         iter=ast.Call(func=ast.Name(id='range', ctx=ast.Load()),
                                       args=[ast.Constant(value=len(variable_name_arg_and_trg))], keywords=[]),
diff --git a/numerous/engine/model/lowering/llvm_builder.py b/numerous/engine/model/lowering/llvm_builder.py
index 2a9cafc..bcebd1f 100644
--- a/numerous/engine/model/lowering/llvm_builder.py
+++ b/numerous/engine/model/lowering/llvm_builder.py
@@ -369,7 +369,13 @@ class LLVMBuilder:
 
     def add_set_call(self, external_function_name: str, variable_name_arg_and_trg: list[list[str]],
                      targets_ids: list[int]):
-        ## TODO check allign
+        start, width = self.variable_names[variable_name_arg_and_trg[0][0]], len(variable_name_arg_and_trg[0])
+        if any(self.variable_names[name] != start + i * width + j
+               for i, row in enumerate(variable_name_arg_and_trg) for j, name in enumerate(row)):
+            # the variables are not next to each other: one call for each element
+            for row in variable_name_arg_and_trg:
+                self.add_call(external_function_name, [VariableArgument(name, False) for name in row], targets_ids)
+            return
         self.builder.position_at_end(self.bb_loop)
         number_of_ix_arg = len(variable_name_arg_and_trg[0])
         number_of_ix_trg = len(targets_ids)
-- 
2.43.0


From 8193e78370ed606eb0d6fcf66a4116f669eb1702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:42 +0000
Subject: [PATCH 31/41] fix: equations of a second set of the same class were
 connected to the first

---
 numerous/engine/model/ast_parser/parser_ast.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/numerous/engine/model/ast_parser/parser_ast.py b/numerous/engine/model/ast_parser/parser_ast.py
index 267076c..02ec460 100644
--- a/numerous/engine/model/ast_parser/parser_ast.py
+++ b/numerous/engine/model/ast_parser/parser_ast.py
@@ -1,7 +1,7 @@
 import ast
 from textwrap import dedent
 
-from numerous.engine.variables import Variable
+from numerous.engine.variables import Variable, SetOfVariables
 from numerous.engine.model.ast_parser.ast_visitor import ast_to_graph, connect_equation_node
 from numerous.engine.model.graph_representation import Graph, EdgeType, Node, Edge
 from numerous.engine.model.utils import NodeTypes
@@ -76,7 +76,7 @@ def qualify_equation(prefix, g, tag_vars, eq_class, eq_current):
     g_qual.node_map = {q(k): v for k, v in g_qual.node_map.items()}
     g_qual.key_map = {k: q(v) for k, v in g_qual.key_map.items()}
 
-    scope_vars_qual = [tag_vars[sv.tag] if isinstance(sv := g.nodes[n].scope_var, Variable) else sv
+    scope_vars_qual = [tag_vars[sv.tag] if isinstance(sv := g.nodes[n].scope_var, (Variable, SetOfVariables)) else sv
                        for n in g.node_map.values()]
 
     for i in range(g_qual.node_counter):
-- 
2.43.0


From 3e0197e226f4b9e129478d94e88f3e06e5d80c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:42 +0000
Subject: [PATCH 32/41] fix: equations of a set had to use all of its variables

---
 numerous/engine/model/ast_parser/parser_ast.py | 2 +-
 numerous/engine/variables.py                   | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/numerous/engine/model/ast_parser/parser_ast.py b/numerous/engine/model/ast_parser/parser_ast.py
index 02ec460..e287370 100644
--- a/numerous/engine/model/ast_parser/parser_ast.py
+++ b/numerous/engine/model/ast_parser/parser_ast.py
@@ -213,7 +213,7 @@ def parse_eq(model_namespace, item_id, mappings_graph: Graph, variables,
                         variables[sv].add_eq_used(eq_key)
                         g.arg_metadata.append(variables[sv])
                         variables[sv].used_in_equation_graph = False
-                    else:
+                    elif not is_set:
                         g.arg_metadata.append(variables[sv])
 
 
diff --git a/numerous/engine/variables.py b/numerous/engine/variables.py
index b3e3125..6ec23ee 100644
--- a/numerous/engine/variables.py
+++ b/numerous/engine/variables.py
@@ -143,6 +143,7 @@ class SetOfVariables:
         self.global_var = False
         self.global_var_idx = False
         self.eq_used = []
+        self.used_in_equation_graph = False
 
     def get_size(self):
         return self.size
-- 
2.43.0


From 2f5784069002c5ec3d0f2e50d8cd3b1c408f2654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:42 +0000
Subject: [PATCH 33/41] fix: contributions to and from set variables were lost

---
 numerous/engine/model/lowering/equations_generator.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/numerous/engine/model/lowering/equations_generator.py b/numerous/engine/model/lowering/equations_generator.py
index 77ff728..d3c8a82 100644
--- a/numerous/engine/model/lowering/equations_generator.py
+++ b/numerous/engine/model/lowering/equations_generator.py
@@ -313,7 +313,9 @@ class EquationGenerator:
                 for set_variable in mappings[':']:
                     for k in range(self.set_variables[set_variable].size):
                         target_var_name = self.set_variables[t_sv.id].get_var_by_idx(k).id
-                        mappings_llvm[target_var_name] = [self.set_variables[set_variable].get_var_by_idx(k).id]
+                        if target_var_name not in mappings_llvm:
+                            mappings_llvm[target_var_name] = []
+                        mappings_llvm[target_var_name].append(self.set_variables[set_variable].get_var_by_idx(k).id)
             for m_ix in mappings['ix']:
                 for k, v in m_ix[1].items():
                     target_var_name = self.set_variables[t_sv.id].get_var_by_idx(k).id
@@ -328,7 +330,7 @@ class EquationGenerator:
                             else:
                                 raise ValueError(f'Variable  {m_ix[0]} mapping not found')
             for k, v in mappings_llvm.items():
-                self.generated_program.add_mapping(v, [k])
+                self.generated_program.add_mapping([VariableArgument(a, False) for a in v], [VariableArgument(k, False)])
         else:
             # Register targeted variables
             is_set_var = self.equation_graph.nodes[t].is_set_var
@@ -365,7 +367,7 @@ class EquationGenerator:
                             mapping_dict[target_var] = [VariableArgument(var_name, False)]
                     else:
                         if var_name in self.set_variables:
-                            if var_name in mapping_dict:
+                            if target_var in mapping_dict:
                                 mapping_dict[target_var].append(
                                     VariableArgument(self.set_variables[var_name].get_var_by_idx(v[1]).id, False))
                             else:
-- 
2.43.0


From b64846f8dd1985a560131678fbfaf63429a3d7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:42 +0000
Subject: [PATCH 34/41] fix: equations contributing to one variable shared
 their temporaries

---
 .../engine/model/graph_representation/mappings_graph.py     | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/numerous/engine/model/graph_representation/mappings_graph.py b/numerous/engine/model/graph_representation/mappings_graph.py
index 43d3eed..3cd3384 100644
--- a/numerous/engine/model/graph_representation/mappings_graph.py
+++ b/numerous/engine/model/graph_representation/mappings_graph.py
@@ -106,8 +106,8 @@ class MappingsGraph(Graph):
                 if va in self.vars_assignments and len(self.vars_assignments[va]) > 1:
                     # Make new temp var
                     sv = self.nodes[e[1]].scope_var
-                    tmp_key = sv.tag + str(self.key_map[va]) + '_tmp'
-                    tmp_label = sv.tag + str(self.key_map[va]) + '_label' + '_tmp'
+                    tmp_key = sv.tag + str(self.key_map[va]) + '_' + str(n) + '_tmp'
+                    tmp_label = sv.tag + str(self.key_map[va]) + '_' + str(n) + '_label' + '_tmp'
                     # Create fake scope variables for tmp setvar
                     fake_sv = {}
                     svf = None
@@ -116,7 +116,7 @@ class MappingsGraph(Graph):
                         tsv = TemporarySetVar(tmp_key, sv)
                         for svi in sv.variables.values():
                             tmp_var_counter += 1
-                            svf = TemporaryVar('tmp_var_' + str(tmp_var_counter), svi,
+                            svf = TemporaryVar(d_u(tmp_key) + '_var_' + str(tmp_var_counter), svi,
                                                svi.tag + '_' + str(sv.id), svi.set_var, svi.set_var_ix)
                             tsv.tmp_vars.append(svf)
                         fake_sv[tsv.id] = tsv
-- 
2.43.0


From 70791271f01041a9fc23f641207ed6d740b320a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:18 +0000
Subject: [PATCH 35/41] fix: event functions shared the variables they close
 over

---
 numerous/engine/model/events.py | 51 ++++++++++++++++++++++-----------
 1 file changed, 35 insertions(+), 16 deletions(-)

diff --git a/numerous/engine/model/events.py b/numerous/engine/model/events.py
index 50612b8..c30acde 100644
--- a/numerous/engine/model/events.py
+++ b/numerous/engine/model/events.py
@@ -1,4 +1,5 @@
 import ast
+import copy
 import inspect
 
 import numpy.typing as npt
@@ -10,19 +11,42 @@ from numerous.engine.model.utils import njit_and_compile_function
 from numerous.engine.numerous_event import NumerousEvent, StateEvent, TimestampEvent
 
 
+class ClosureVariablesRenamer(ast.NodeTransformer):
+    def __init__(self, names):
+        self.names = names
+
+    def visit_Name(self, node):
+        node.id = self.names.get(node.id, node.id)
+        return node
+
+
+def add_closure_variables(function: ast.FunctionDef, variables: dict, namespace: dict) -> ast.FunctionDef:
+    """
+    The functions of all events are compiled in one namespace. Adds the variables the function closes over to it, under
+    another name if an earlier function uses the name for something else, and returns the function using these names.
+    """
+    names = {}
+    for name, value in variables.items():
+        own_name = name
+        while own_name in namespace and namespace[own_name] is not value:
+            own_name += '_closure'
+        namespace[own_name] = value
+        names[name] = own_name
+
+    return ClosureVariablesRenamer(names).visit(copy.deepcopy(function))
+
+
 def generate_event_condition_ast(event_functions: list[Union[StateEvent, TimestampEvent]],
                                  from_imports: list[tuple[str, str]]) -> tuple[CPUDispatcher, npt.ArrayLike]:
     array_label = "result"
     directions_array = []
     body = [ast.Assign(targets=[ast.Name(id=array_label)], lineno=0,
                        value=ast.List(elts=[], ctx=ast.Load()))]
-    compiled_functions = {}
-    closurevariables = None
+    namespace = {}
     for event in event_functions:
-        if event.compiled_functions:
-            compiled_functions.update(event.compiled_functions)
-        condition = event.condition.ast_func
-        closurevariables = event.condition.closure_variables
+        condition = add_closure_variables(event.condition.ast_func, {**(event.compiled_functions or {}),
+                                                                     **(event.condition.closure_variables or {})},
+                                          namespace)
 
         directions_array.append(event.direction)
         body.append(condition)
@@ -44,8 +68,7 @@ def generate_event_condition_ast(event_functions: list[Union[StateEvent, Timesta
                                                 kwonlyargs=[], kw_defaults=[], defaults=[]),
                              body=body, decorator_list=[], lineno=0)
 
-    return njit_and_compile_function(body_r, from_imports, compiled_functions=compiled_functions,
-                                     closurevariables=closurevariables), np.array(
+    return njit_and_compile_function(body_r, from_imports, compiled_functions=namespace), np.array(
         directions_array, dtype=np.float)
 
 
@@ -148,16 +171,13 @@ def replace_path_strings(model, function, idx_type, path_to_root=[]) -> Tuple:
 def generate_event_action_ast(event_functions: list[NumerousEvent],
                               from_imports: list[tuple[str, str]]) -> CPUDispatcher:
     body = []
-    compiled_functions = {}
-    closurevariables = None
+    namespace = {}
 
     for idx, event in enumerate(event_functions):
-        if event.compiled_functions:
-            compiled_functions.update(event.compiled_functions)
         if event.is_external:
             continue
-        action = event.action.ast_func
-        closurevariables = event.action.closure_variables
+        action = add_closure_variables(event.action.ast_func, {**(event.compiled_functions or {}),
+                                                               **(event.action.closure_variables or {})}, namespace)
 
         body.append(action)
         body.append(ast.If(test=ast.Compare(left=ast.Name(id='a_idx', ctx=ast.Load()), ops=[ast.Eq()],
@@ -175,6 +195,5 @@ def generate_event_action_ast(event_functions: list[NumerousEvent],
                                                 kwonlyargs=[], kw_defaults=[], defaults=[]),
                              body=body, decorator_list=[], lineno=0)
 
-    internal_functions = njit_and_compile_function(body_r, from_imports, compiled_functions=compiled_functions,
-                                                   closurevariables=closurevariables)
+    internal_functions = njit_and_compile_function(body_r, from_imports, compiled_functions=namespace)
     return internal_functions
-- 
2.43.0


From 07e2afdcab1ff88f97932c2537a248e703571ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:18 +0000
Subject: [PATCH 36/41] fix: event functions could not assign constants to
 variables

---
 numerous/engine/model/events.py | 34 ++++++++++++++-------------------
 1 file changed, 14 insertions(+), 20 deletions(-)

diff --git a/numerous/engine/model/events.py b/numerous/engine/model/events.py
index c30acde..c26169b 100644
--- a/numerous/engine/model/events.py
+++ b/numerous/engine/model/events.py
@@ -123,27 +123,15 @@ class VariablesVisitor(ast.NodeVisitor):
         ast.NodeVisitor.generic_visit(self, node)
 
     def visit_Assign(self, node: ast.Assign):
-        evaluated = None
-        if isinstance(node.value, ast.BinOp):
-            operator = node.value.op
-            left = node.value.left
-
-            right = node.value.right
-            left_val, left_has_val = self._get_value(left)
-            right_val, right_has_val = self._get_value(right)
-            if not left_has_val or not right_has_val:
-                self.generic_visit(node)
-                return
+        for target in node.targets:
+            if isinstance(target, ast.Name):
+                # the name of a variable may be put together from constants and closure variables
+                self.assigned_variables.pop(target.id, None)
+                evaluated, has_val = self._get_value(node.value)
+                if has_val:
+                    self.assigned_variables[target.id] = evaluated
 
-            if isinstance(operator, ast.Add):
-                evaluated = left_val + right_val
-            else:
-                raise NotImplementedError(f"{type(operator)} not yet implemented")
-            self.assigned_variables.update({node.targets[0].id: evaluated})
-        elif isinstance(node.value, ast.Constant):
-            self.assigned_variables.update({node.targets[0].id: node.value.value})
-        else:
-            self.generic_visit(node)
+        self.generic_visit(node)
 
     def _get_value(self, val):
         if isinstance(val, ast.Name):
@@ -153,6 +141,12 @@ class VariablesVisitor(ast.NodeVisitor):
                 return None, False
         elif isinstance(val, ast.Constant):
             return val.value, True
+        elif isinstance(val, ast.BinOp) and isinstance(val.op, ast.Add):
+            left_val, left_has_val = self._get_value(val.left)
+            right_val, right_has_val = self._get_value(val.right)
+            if not left_has_val or not right_has_val:
+                return None, False
+            return left_val + right_val, True
         else:
             return None, False
 
-- 
2.43.0


From 2678cdf5af83066041d8523f1c862449e5500c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:37 +0000
Subject: [PATCH 37/41] fix: variables changed by event actions were written to
 the wrong place

---
 numerous/engine/simulation/solver_interface.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/numerous/engine/simulation/solver_interface.py b/numerous/engine/simulation/solver_interface.py
index 638899a..247fddd 100644
--- a/numerous/engine/simulation/solver_interface.py
+++ b/numerous/engine/simulation/solver_interface.py
@@ -217,9 +217,8 @@ class EventFactory:
                 else:
                     modified_variables = interface.model.time_event_actions(t, vars, ix)
                 states = modified_variables[interface.model.numba_model.state_idx]
-                variables = np.delete(modified_variables, interface.model.numba_model.state_idx)
-                original_variables = np.delete(interface._get_variables(), interface.model.numba_model.state_idx)
-                modified_mask = (variables != original_variables)
+                modified_mask = (modified_variables != interface._get_variables())
+                modified_mask[interface.model.numba_model.state_idx] = False
                 for idx in np.argwhere(modified_mask):
                     interface._write_variables(modified_variables[idx[0]], idx[0])
                 return states
-- 
2.43.0


From f3fc7ca03fbbddbe21c1d8c4e3290a6ed28ebdb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:37 +0000
Subject: [PATCH 38/41] fix: external events of an item could not be used
 together with other items

---
 numerous/engine/simulation/solver_interface.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/numerous/engine/simulation/solver_interface.py b/numerous/engine/simulation/solver_interface.py
index 247fddd..6eb8044 100644
--- a/numerous/engine/simulation/solver_interface.py
+++ b/numerous/engine/simulation/solver_interface.py
@@ -229,14 +229,17 @@ class EventFactory:
         class BaseExternalEvent(SolverEvent):
             def run_event_action(self, interface: NumerousEngineModelInterface, t: float, y: np.array) -> np.array:
                 model.update_local_variables()
-                variables = {tag: var.value for tag, var in model.path_to_variable.items()}
-                path_ = ""
-                if parent_path:
-                    path_ = ".".join(parent_path) + "."
-                    variables = {tag.replace(path_, ""): value for tag, value in variables.items()}
+                path_ = ".".join(parent_path) + "." if parent_path else ""
+                tagged = {tag: var for tag, var in model.path_to_variable.items() if not tag.startswith(path_)}
+                tagged.update({tag[len(path_):]: var for tag, var in model.path_to_variable.items()
+                               if tag.startswith(path_)})
+                original = {tag: var.value for tag, var in tagged.items()}
+                variables = dict(original)
                 external_action_function(t, variables)
                 for tag, value in variables.items():
-                    model.path_to_variable[path_ + tag].value = value
+                    # a variable has a tag for each of its paths
+                    if tag not in original or value != original[tag]:
+                        tagged[tag].value = value
                 model.update_all_variables()
                 states = interface.get_states()
                 return states
-- 
2.43.0


From ad3062cc655aafcc87d545e5034352f4a4e213ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:37 +0000
Subject: [PATCH 39/41] fix: external events of an item were left behind when
 the item was registered

---
 numerous/engine/model/model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/numerous/engine/model/model.py b/numerous/engine/model/model.py
index ce61536..5b13f34 100644
--- a/numerous/engine/model/model.py
+++ b/numerous/engine/model/model.py
@@ -415,6 +415,7 @@ class Model:
         for item in self.model_items.values():
             if item.events:
                 for event in item.events:
+                    event.parent_path = item.path
                     if not event.compiled:
                         condition_ast, condition_closurevariables = replace_path_strings(self, event.condition.func, "var",
                                                                                          item.path)
@@ -427,6 +428,7 @@ class Model:
                     self.events.append(event)
             if item.timestamp_events:
                 for event in item.timestamp_events:
+                    event.parent_path = item.path
                     if not event.is_external:
                         action_ast, action_closurevariables = replace_path_strings(self, event.action.func, "var", item.path)
                         event.action = Action(event.action.func, action_ast, action_closurevariables)
-- 
2.43.0


From f8875fbba364d0be391203c5a53127cf98e42a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:46 +0000
Subject: [PATCH 40/41] fix: timestamps of events could not be given as an
 array

---
 numerous/engine/numerous_event.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/numerous/engine/numerous_event.py b/numerous/engine/numerous_event.py
index 2cbf3b0..e8f6994 100644
--- a/numerous/engine/numerous_event.py
+++ b/numerous/engine/numerous_event.py
@@ -83,11 +83,13 @@ class TimestampEvent(NumerousEvent):
         self.action = action
         self.compiled_functions = compiled_functions
 
-        assert not (periodicity and timestamps), "you cannot specify both timestamps and periodicity for a " \
+        has_timestamps = timestamps is not None and len(timestamps) > 0
+
+        assert not (periodicity and has_timestamps), "you cannot specify both timestamps and periodicity for a " \
                                                  "time-stamp event"
 
-        assert not (not timestamps and not periodicity), "you must specify at least timestamps or periodicity"
-        assert isinstance(timestamps, list) or isinstance(timestamps, np.ndarray) or not timestamps, \
+        assert has_timestamps or periodicity, "you must specify at least timestamps or periodicity"
+        assert isinstance(timestamps, list) or isinstance(timestamps, np.ndarray) or timestamps is None, \
             "timestamps must be list or np array"
 
         self.timestamps = np.array(timestamps) if isinstance(timestamps, list) else timestamps
-- 
2.43.0


From 9bf171c9d6f8ad5849d7c1ce4b18c67c96125c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:14 +0000
Subject: [PATCH 41/41] fix: variables event functions close over were hidden
 by names of the generated function

---
 numerous/engine/model/events.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/numerous/engine/model/events.py b/numerous/engine/model/events.py
index c26169b..3325856 100644
--- a/numerous/engine/model/events.py
+++ b/numerous/engine/model/events.py
@@ -23,11 +23,11 @@ class ClosureVariablesRenamer(ast.NodeTransformer):
 def add_closure_variables(function: ast.FunctionDef, variables: dict, namespace: dict) -> ast.FunctionDef:
     """
     The functions of all events are compiled in one namespace. Adds the variables the function closes over to it, under
-    another name if an earlier function uses the name for something else, and returns the function using these names.
+    names neither the generated function nor earlier functions use, and returns the function using these names.
     """
     names = {}
     for name, value in variables.items():
-        own_name = name
+        own_name = name + '_closure'
         while own_name in namespace and namespace[own_name] is not value:
             own_name += '_closure'
         namespace[own_name] = value
-- 
2.43.0

