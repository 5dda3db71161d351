From e0c48d65c9c146cd5802ff4e4b8a2d2dccb92dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:35 +0000
Subject: [PATCH 01/97] fix: weighted Quantile reports only slices that occur
 in the data

---
 metrics.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/metrics.py b/metrics.py
index 430ec2e..d6440c8 100644
--- a/metrics.py
+++ b/metrics.py
@@ -2113,7 +2113,9 @@ class Quantile(SimpleMetric):
             [res],
             columns=[self.name_tmpl.format(self.var, q) for q in self.quantile])
 
-      aggregated_weight = df.groupby(split_by + [self.var])[self.weight].sum()
+      aggregated_weight = df.groupby(
+          split_by + [self.var], observed=True
+      )[self.weight].sum()
       # See https://en.wikipedia.org/wiki/Percentile#Weighted_percentile.
       weighted_quantiles = (
           self.group(aggregated_weight, split_by).cumsum()
-- 
2.43.0


From d7da1c8746b98243729b79d375154da9fea58a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:35 +0000
Subject: [PATCH 02/97] fix: weighted Quantile drops rows whose weight is
 missing, as documented

---
 metrics.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/metrics.py b/metrics.py
index d6440c8..fff956f 100644
--- a/metrics.py
+++ b/metrics.py
@@ -2113,9 +2113,11 @@ class Quantile(SimpleMetric):
             [res],
             columns=[self.name_tmpl.format(self.var, q) for q in self.quantile])
 
-      aggregated_weight = df.groupby(
-          split_by + [self.var], observed=True
-      )[self.weight].sum()
+      aggregated_weight = (
+          df.dropna(subset=[self.weight])
+          .groupby(split_by + [self.var], observed=True)[self.weight]
+          .sum()
+      )
       # See https://en.wikipedia.org/wiki/Percentile#Weighted_percentile.
       weighted_quantiles = (
           self.group(aggregated_weight, split_by).cumsum()
-- 
2.43.0


From 992b4542a7d26b8eafd35e1e8cf3e6d881d33ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:11 +0000
Subject: [PATCH 03/97] fix: Nth reports a missing value for slices with too
 few rows

---
 metrics.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/metrics.py b/metrics.py
index fff956f..185d628 100644
--- a/metrics.py
+++ b/metrics.py
@@ -1968,12 +1968,14 @@ class Nth(SimpleMetric):
     )
 
   def compute_slices(self, df, split_by=None):
+    slices = self.group(df, split_by).size().index if split_by else None
     if self.dropna:
       df = df.dropna(subset=[self.var])
     df = df.sort_values(self.sort_by, ascending=self.ascending)
     if split_by:
       res = self.group(df[split_by + [self.var]], split_by).nth(self.n)
-      return res.set_index(split_by)[self.var].sort_index()
+      # nth() skips the slices that don't have enough rows.
+      return res.set_index(split_by)[self.var].reindex(slices)
     if self.n > len(df) - 1:
       return np.nan
     return df[self.var].values[self.n]
-- 
2.43.0


From 2ee34bb9924fb7596d659b419c964af26bdd4554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:11 +0000
Subject: [PATCH 04/97] fix: weighted Quantile of no rows is missing instead of
 an error

---
 metrics.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/metrics.py b/metrics.py
index 185d628..b9fa160 100644
--- a/metrics.py
+++ b/metrics.py
@@ -2108,7 +2108,10 @@ class Quantile(SimpleMetric):
     if self.weight:
       # Adapted from https://stackoverflow.com/a/29677616/12728137.
       def interp(d):
-        res = np.interp(self.quantile, d[self.weight], d[self.var])
+        if d.empty:
+          res = self.quantile * np.nan
+        else:
+          res = np.interp(self.quantile, d[self.weight], d[self.var])
         if self.one_quantile:
           return res
         return pd.DataFrame(
-- 
2.43.0


From dd224977b9145c775e1fd5dbdb57a8a6e58cc001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:23 +0000
Subject: [PATCH 05/97] fix: MH reports only slices and conditions that occur
 in the data

---
 operations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/operations.py b/operations.py
index 7cd42d8..1b024fd 100644
--- a/operations.py
+++ b/operations.py
@@ -1258,7 +1258,7 @@ class MH(Comparison):
     kb, nb = df_mh[numer + suffix], df_mh[denom + suffix]
     weights = 1. / (na + nb)
     to_split = [i for i in ka.index.names if i not in self.stratified_by]
-    res = ((ka * nb * weights).groupby(to_split).sum() /
+    res = ((ka * nb * weights).groupby(to_split, observed=True).sum() /
            (kb * na * weights).groupby(to_split, observed=True).sum() - 1) * 100
     res.name = child.name
     to_split = [i for i in to_split if i not in self.extra_index]
-- 
2.43.0


From c18b5abd4b847e456a7132d9a426f807978b98a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:14 +0000
Subject: [PATCH 06/97] fix: grouped Dot on no rows is an empty series, not the
 input's columns

---
 metrics.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metrics.py b/metrics.py
index b9fa160..3152bd5 100644
--- a/metrics.py
+++ b/metrics.py
@@ -1794,6 +1794,8 @@ class Dot(SimpleMetric):
       fn = lambda df: (df[self.var] * df[self.var2]).mean()
     else:
       fn = lambda df: (df[self.var] * df[self.var2]).sum()
+    if df.empty:  # apply() would return all the columns.
+      return self.group(df, split_by)[self.var].sum()
     return df.groupby(split_by, observed=True).apply(fn)
 
   def get_equivalent_without_filter(self, *auxiliary_cols):
-- 
2.43.0


From 76daedc3c0f96fed5cddb1402e2a6f1673d8a900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:00 +0000
Subject: [PATCH 07/97] fix: a cache_key from the user does not inherit filters
 of an earlier computation

---
 metrics.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metrics.py b/metrics.py
index 3152bd5..90bedcb 100644
--- a/metrics.py
+++ b/metrics.py
@@ -326,6 +326,10 @@ class Metric(object):
     """
     self.cache = {} if cache is None else cache
     split_by = [split_by] if isinstance(split_by, str) else list(split_by or [])
+    if cache_key is not None and not isinstance(cache_key, utils.CacheKey):
+      # A key from the user starts a new computation so the filters and split_by
+      # of the previous computation must not be inherited.
+      self.cache_key = None
     try:
       key = self.wrap_cache_key(cache_key or self.cache_key, split_by)
       if self.in_cache(key):
-- 
2.43.0


From 7c56b8d107fe17a5d4ac00045ef1894c89b4be4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:40 +0000
Subject: [PATCH 08/97] fix: cached jackknife and bootstrap samples are told
 apart by method, unit and data

---
 operations.py | 46 ++++++++++++++++++++++++++++++++++------------
 1 file changed, 34 insertions(+), 12 deletions(-)

diff --git a/operations.py b/operations.py
index 1b024fd..042dc6d 100644
--- a/operations.py
+++ b/operations.py
@@ -1774,6 +1774,27 @@ class MetricWithCI(Operation):
   def get_samples(self, df, split_by=None):
     raise NotImplementedError
 
+  def get_sample_cache_key(self, *sample_id):
+    """Gets the cache_key for a sample.
+
+    The same sample_id stands for different data when the method, the unit or
+    the data to sample from differs, so they need to be in the key too.
+
+    Args:
+      *sample_id: Identifies the sample among all samples of self.
+
+    Returns:
+      A tuple that can be used as cache_key.
+    """
+    key = ('_RESERVED', type(self).__name__, self.unit)
+    if self.cache_key is not None:
+      key += (
+          self.cache_key.key,
+          tuple(sorted(self.cache_key.where)),
+          self.cache_key.split_by,
+      )
+    return key + sample_id
+
   def compute_on_samples(
       self, keyed_samples: Iterable[Tuple[Any, pd.DataFrame]], split_by=None
   ):
@@ -1797,7 +1818,10 @@ class MetricWithCI(Operation):
           res = self.children[0].compute_on(sample, split_by, melted=True)
         else:
           res = self.compute_child(
-              sample, split_by, melted=True, cache_key=cache_key
+              sample,
+              split_by,
+              melted=True,
+              cache_key=self.get_sample_cache_key(cache_key),
           )
         estimates.append(res)
       except Exception as e:  # pylint: disable=broad-except
@@ -2367,7 +2391,7 @@ class Jackknife(MetricWithCI):
       None. Two additional results are saved to the cache.
       1. The total sum/count, which is each_bucket summed over self.unit.
       2. The LOO estimates, which is saved under key
-        ('_RESERVED', 'Jackknife', self.unit).
+        self.get_sample_cache_key().
     """
     if not cache_key.split_by:
       return
@@ -2383,7 +2407,7 @@ class Jackknife(MetricWithCI):
     key = cache_key.replace_split_by(split_by)
     self.save_to_cache(key, total)
 
-    key = cache_key.replace_key(('_RESERVED', 'Jackknife', self.unit))
+    key = cache_key.replace_key(self.get_sample_cache_key())
     if not self.in_cache(key):
       each_bucket = utils.adjust_slices_for_loo(each_bucket, original_split_by,
                                                 df)
@@ -2409,7 +2433,7 @@ class Jackknife(MetricWithCI):
         df,
         split_by + [self.unit],
         True,
-        cache_key=('_RESERVED', 'Jackknife', self.unit),
+        cache_key=self.get_sample_cache_key(),
     )
     return [replicates.unstack(self.unit)]
 
@@ -2425,8 +2449,8 @@ class Jackknife(MetricWithCI):
       return_cache_key: If to return a cache key.
 
     Yields:
-      ('_RESERVED', 'Jackknife', unit, i) if return_cache_key else None, and the
-      leave-i-out DataFrame.
+      The left-out level if return_cache_key else None, and the leave-i-out
+      DataFrame.
     """
     levels = df[self.unit].unique()
     if len(levels) < 2:
@@ -2434,8 +2458,7 @@ class Jackknife(MetricWithCI):
 
     if not split_by:
       for lvl in levels:
-        key = ('_RESERVED', 'Jackknife', self.unit, lvl)
-        yield key if return_cache_key else None, df[df[self.unit] != lvl]
+        yield lvl if return_cache_key else None, df[df[self.unit] != lvl]
     else:
       df = df.set_index(split_by)
       max_slices = len(df.index.unique())
@@ -2445,8 +2468,7 @@ class Jackknife(MetricWithCI):
         if len(unique_slice_val) != max_slices:
           # Keep only the slices that appeared in the dropped bucket.
           df_rest = df_rest[df_rest.index.isin(unique_slice_val)]
-        key = ('_RESERVED', 'Jackknife', self.unit, lvl)
-        yield key if return_cache_key else None, df_rest.reset_index()
+        yield lvl if return_cache_key else None, df_rest.reset_index()
 
   @staticmethod
   def get_stderrs(bucket_estimates):
@@ -2478,7 +2500,7 @@ class Jackknife(MetricWithCI):
         if pd.api.types.is_numeric_dtype(slice_and_units[self.unit]):
           loo_where = '%s != %s' % (self.unit, unit)
         loo_sql.where = sql.Filters(where).add(loo_where)
-        key = ('_RESERVED', 'Jackknife', self.unit, unit)
+        key = self.get_sample_cache_key(unit)
         loo = self.compute_child_sql(loo_sql, split_by, execute, False, mode,
                                      key)
         # If a slice doesn't have the unit in the input data, we should exclude
@@ -2499,7 +2521,7 @@ class Jackknife(MetricWithCI):
             ).join(table, on='meterstick_resample_idx != %s' % self.unit),
             self.where_,
         )
-        key = ('_RESERVED', 'Jackknife', self.unit, tuple(units))
+        key = self.get_sample_cache_key(tuple(units))
         loo = self.compute_child_sql(
             loo,
             split_by + ['meterstick_resample_idx'],
-- 
2.43.0


From 3cee2477b84221cd453bb7e3adcf3d7a01d2b608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:02 +0000
Subject: [PATCH 09/97] fix: results read from the cache are copies so that
 renaming columns does not spread

---
 metrics.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/metrics.py b/metrics.py
index 90bedcb..08fd03f 100644
--- a/metrics.py
+++ b/metrics.py
@@ -359,7 +359,9 @@ class Metric(object):
 
   def get_cached(self, key):
     key = key if isinstance(key, utils.CacheKey) else self.wrap_cache_key(key)
-    return self.cache[key]
+    val = self.cache[key]
+    # The caller might modify the result in-place.
+    return val.copy() if isinstance(val, (pd.Series, pd.DataFrame)) else val
 
   def in_cache(self, key):
     key = key if isinstance(key, utils.CacheKey) else self.wrap_cache_key(key)
-- 
2.43.0


From 84d093a799b8b5aed0498e5ce3d1d6cfc02d8a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:06 +0000
Subject: [PATCH 10/97] fix: only an unfiltered sum divided by a count shares
 the cache of the mean

---
 metrics.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/metrics.py b/metrics.py
index 08fd03f..22ef852 100644
--- a/metrics.py
+++ b/metrics.py
@@ -1646,9 +1646,16 @@ class CompositeMetric(Metric):
     # Make Sum(x) / Count(x) indistinguishable to Mean(x) in cache.
     s = self.children[0]
     c = self.children[1]
-    if isinstance(s, Sum) and isinstance(
-        c, Count) and s.var == c.var and s.where == c.where and not c.distinct:
-      return Mean(s.var, where=s.where_).get_fingerprint(attr_to_exclude)
+    if (
+        self.name_tmpl == '{} / {}'
+        and isinstance(s, Sum)
+        and isinstance(c, Count)
+        and s.var == c.var
+        and not s.where
+        and not c.where
+        and not c.distinct
+    ):
+      return Mean(s.var, where=self.where_).get_fingerprint(attr_to_exclude)
     return super(CompositeMetric, self).get_fingerprint(attr_to_exclude)
 
 
-- 
2.43.0


From 5c31ee733c5a1d480ae119a9af3f47221c309e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:48 +0000
Subject: [PATCH 11/97] fix: cached tables are not shared between metrics whose
 columns are named differently

---
 utils.py | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/utils.py b/utils.py
index a7c29d5..7d9d28d 100644
--- a/utils.py
+++ b/utils.py
@@ -363,6 +363,7 @@ class CacheKey:
     ]
     self.fingerprint = {
         'metric': tuple(metric_fingerprint),
+        'names': self.get_names(metric),
         'key': self.key,
         'split_by': self.split_by,
         'slice_val': self.slice_val,
@@ -370,6 +371,39 @@ class CacheKey:
         'where': tuple(sorted(tuple(self.where))),
     }
 
+  @staticmethod
+  def get_names(metric):
+    """Collects what the column names in the result of metric depend on.
+
+    Names are not part of the fingerprint of a Metric. It's fine for results that
+    are numbers or pd.Series, because they are named after being read from cache,
+    but the columns of a DataFrame carry the names of the descendants of metric.
+
+    Args:
+      metric: A Metric instance.
+
+    Returns:
+      A hashable tuple. Empty if the result of metric doesn't have columns.
+    """
+    nodes = list(metric.traverse(include_constants=True))
+    if not any(
+        getattr(m, 'is_operation', False)
+        or hasattr(m, 'children_return_dataframe')
+        or getattr(m, 'columns', None) is not None
+        for m in nodes
+    ):
+      return ()
+    names = [getattr(metric, 'prefix', None)]
+    for m in nodes:
+      # The name of an Operation itself is applied after reading from cache.
+      if m is not metric or not metric.is_operation:
+        names.append((
+            str(getattr(m, 'name', m)),
+            getattr(m, 'name_tmpl', None),
+            str(getattr(m, 'columns', None)),
+        ))
+    return tuple(names)
+
   def add_extra_info(self, extra_info: str):
     self.extra_info = tuple(list(self.extra_info) + [extra_info])
     self.fingerprint['extra_info'] = self.extra_info
@@ -384,6 +418,7 @@ class CacheKey:
     new_key = copy.deepcopy(self)
     new_key.metric = new_metric
     new_key.fingerprint['metric'] = new_metric.get_fingerprint()
+    new_key.fingerprint['names'] = self.get_names(new_metric)
     return new_key
 
   def replace_split_by(self, split_by):
@@ -407,6 +442,7 @@ class CacheKey:
   def __hash__(self):
     return hash((
         self.fingerprint['metric'],
+        self.fingerprint['names'],
         self.fingerprint['key'],
         self.fingerprint['split_by'],
         self.fingerprint['slice_val'],
-- 
2.43.0


From b8ee660d224475677e7c0d65c6d65e41c2ffc968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:51 +0000
Subject: [PATCH 12/97] fix: the base of a change is found when the interval is
 read from cache

---
 metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metrics.py b/metrics.py
index 22ef852..f5561e7 100644
--- a/metrics.py
+++ b/metrics.py
@@ -332,10 +332,10 @@ class Metric(object):
       self.cache_key = None
     try:
       key = self.wrap_cache_key(cache_key or self.cache_key, split_by)
+      self.cache_key = key
       if self.in_cache(key):
         raw_res = self.get_cached(key)
       else:
-        self.cache_key = key
         raw_res = compute_fn(df, split_by, *args, **kwargs)
         self.save_to_cache(key, raw_res)
 
-- 
2.43.0


From 7e6995b9216477a7318c4c3a76f09483e9676816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:05 +0000
Subject: [PATCH 13/97] fix: a computation without cache_key does not inherit
 the key of an earlier one

---
 metrics.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metrics.py b/metrics.py
index f5561e7..b5cd81e 100644
--- a/metrics.py
+++ b/metrics.py
@@ -326,9 +326,9 @@ class Metric(object):
     """
     self.cache = {} if cache is None else cache
     split_by = [split_by] if isinstance(split_by, str) else list(split_by or [])
-    if cache_key is not None and not isinstance(cache_key, utils.CacheKey):
-      # A key from the user starts a new computation so the filters and split_by
-      # of the previous computation must not be inherited.
+    if not isinstance(cache_key, utils.CacheKey):
+      # A key from the user, or none, starts a new computation so the key,
+      # filters and split_by of an earlier computation must not be inherited.
       self.cache_key = None
     try:
       key = self.wrap_cache_key(cache_key or self.cache_key, split_by)
-- 
2.43.0


From 9867d3aea058e8b9d8c0c2ba2a6283362fbcb18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:12 +0000
Subject: [PATCH 14/97] fix: the key of a cached computation does not outlive
 it

---
 metrics.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metrics.py b/metrics.py
index b5cd81e..da04ebb 100644
--- a/metrics.py
+++ b/metrics.py
@@ -344,6 +344,10 @@ class Metric(object):
     finally:
       if cache_key is None:  # Only root metric can have None as cache_key
         self.clean_up_cache()
+      elif not isinstance(cache_key, utils.CacheKey):
+        # Keep the cache, as the user asked for, but not the key.
+        for m in self.traverse():
+          m.cache_key = None
 
   def wrap_cache_key(self, key, split_by=None, where=None, slice_val=None):
     if key and not isinstance(key, utils.CacheKey) and self.cache_key:
-- 
2.43.0


From 2958433dd603c8263e8f91b84459523be10dc73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:01 +0000
Subject: [PATCH 15/97] fix: a table combined with a metric is aligned by slice
 rather than by position

---
 metrics.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/metrics.py b/metrics.py
index da04ebb..fd15674 100644
--- a/metrics.py
+++ b/metrics.py
@@ -1492,19 +1492,24 @@ class CompositeMetric(Metric):
         a.columns = columns
         b.columns = columns
     elif isinstance(a, pd.DataFrame):
-      for i in range(len(a.columns)):
-        a.iloc[:, i] = self.op(a.iloc[:, i], b)
-      res = a
+      # The op might reorder or add rows so don't assign back by position.
+      res = pd.concat(
+          [self.op(a.iloc[:, i], b) for i in range(len(a.columns))], axis=1
+      )
+      if len(res) == len(a):
+        res = res.reindex(a.index)
       columns = [
-          self.name_tmpl.format(c, getattr(m2, 'name', m2)) for c in res.columns
+          self.name_tmpl.format(c, getattr(m2, 'name', m2)) for c in a.columns
       ]
       res.columns = columns
     elif isinstance(b, pd.DataFrame):
-      for i in range(len(b.columns)):
-        b.iloc[:, i] = self.op(a, b.iloc[:, i])
-      res = b
+      res = pd.concat(
+          [self.op(a, b.iloc[:, i]) for i in range(len(b.columns))], axis=1
+      )
+      if len(res) == len(b):
+        res = res.reindex(b.index)
       columns = [
-          self.name_tmpl.format(getattr(m1, 'name', m1), c) for c in res.columns
+          self.name_tmpl.format(getattr(m1, 'name', m1), c) for c in b.columns
       ]
       res.columns = columns
 
-- 
2.43.0


From 633841d2c85acb59f543be576f56c36ca3bf443f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:41 +0000
Subject: [PATCH 16/97] fix: distinct counts divided by zero give inf or nan as
 other metrics do

---
 metrics.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/metrics.py b/metrics.py
index fd15674..c90bbb1 100644
--- a/metrics.py
+++ b/metrics.py
@@ -1751,7 +1751,11 @@ class Count(SimpleMetric):
 
   def compute_slices(self, df, split_by=None):
     grped = self.group(df, split_by)[self.var]
-    return grped.nunique() if self.distinct else grped.count()
+    if not self.distinct:
+      return grped.count()
+    res = grped.nunique()
+    # A Python int, unlike what other Metrics return, raises when divided by 0.
+    return res if split_by else np.int64(res)
 
   def get_sql_columns(self, local_filter):
     if self.distinct:
-- 
2.43.0


From fae40b77649a3d6e7cb9813d27b4cefdef2ad5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:58 +0000
Subject: [PATCH 17/97] fix: MH of a numerator and a denominator with the same
 name

---
 operations.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/operations.py b/operations.py
index 042dc6d..0cf966d 100644
--- a/operations.py
+++ b/operations.py
@@ -1249,10 +1249,12 @@ class MH(Comparison):
     """Computes MH statistics for one Metric."""
     level = self.extra_index[0] if len(
         self.extra_index) == 1 else self.extra_index
+    # The numerator and the denominator might have the same name, for example,
+    # Sum('x', where='y > 1') / Sum('x').
+    numer, denom = 'numer', 'denom'
+    df_all = df_all.set_axis([numer, denom], axis=1)
     df_baseline = df_all.xs(self.baseline_key, level=level)
     suffix = '_base'
-    numer = child.children[0].name
-    denom = child.children[1].name
     df_mh = df_all.join(df_baseline, rsuffix=suffix)
     ka, na = df_mh[numer], df_mh[denom]
     kb, nb = df_mh[numer + suffix], df_mh[denom + suffix]
-- 
2.43.0


From 559cd3ae36ea71a4c7ee270b06a32e21044c88c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:24 +0000
Subject: [PATCH 18/97] fix: Nxx counts categories that reach the threshold up
 to rounding

---
 diversity.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/diversity.py b/diversity.py
index 8c0916e..b601944 100644
--- a/diversity.py
+++ b/diversity.py
@@ -228,6 +228,9 @@ class TopK(DiversityBase):
 class Nxx(DiversityBase):
   """The minimum number of contributors to achieve certain share."""
 
+  # The rounding error allowed when comparing the accumulated shares to `share`.
+  tolerance = 1e-9
+
   def __init__(
       self, over, share, child=None, additional_fingerprint_attrs=None
   ):
@@ -251,7 +254,8 @@ class Nxx(DiversityBase):
   def nxx_for_one_col(self, col, split_by):
     sorted_col = col.sort_values(split_by + list(col.columns), ascending=False)
     cumsum = self.group(sorted_col, split_by).cumsum()
-    res = self.group(cumsum < self.share, split_by).sum() + 1
+    # Accumulated shares that equal the threshold might be off by rounding.
+    res = self.group(cumsum + self.tolerance < self.share, split_by).sum() + 1
     return self.to_dataframe(res)
 
   def get_sql_and_with_clause(
@@ -267,7 +271,7 @@ class Nxx(DiversityBase):
        SUM(val_col) OVER
         (ORDER BY val_col DESC ROWS BETWEEN UNBOUNDED PRECEDING AND CURRENT ROW)
     4. Get the minimum number of players to achieve the share by SELECT
-       COUNTIF(cumulative_sum < share) + 1.
+       COUNTIF(cumulative_sum + tolerance < share) + 1.
 
     Args:
       table: The table we want to query from.
@@ -309,7 +313,7 @@ class Nxx(DiversityBase):
 
       nxx_col = sql.Column(
           cumsum_col.alias,
-          'COUNTIF({} < %s) + 1' % self.share,
+          'COUNTIF({} + %s < %s) + 1' % (self.tolerance, self.share),
       )
       nxx_col.set_alias(self.name_tmpl.format(c.alias_raw))
       nxx_cols.add(nxx_col)
-- 
2.43.0


From 1edc14441f6ee0237bf19926afa0cf8c98e3a193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:32 +0000
Subject: [PATCH 19/97] fix: jackknife of data too sparse for any resample
 reports a missing error instead of failing

---
 operations.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/operations.py b/operations.py
index 0cf966d..3df3d6d 100644
--- a/operations.py
+++ b/operations.py
@@ -1771,7 +1771,13 @@ class MetricWithCI(Operation):
       cache_key=None,
   ):
     del melted, return_dataframe, cache_key  # unused
-    return self.compute_on_samples(self.get_samples(df, split_by), split_by)
+    estimates = self.compute_on_samples(
+        self.get_samples(df, split_by), split_by
+    )
+    if not any(len(e) for e in estimates):
+      # The data is too sparse for any resample to have a result.
+      return [self.compute_point_estimate(df, split_by) * np.nan]
+    return estimates
 
   def get_samples(self, df, split_by=None):
     raise NotImplementedError
-- 
2.43.0


From db1cccdcb608122dc4939ddf08804d9acf1c21d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:21 +0000
Subject: [PATCH 20/97] fix: resampling many times does not exceed the
 recursion limit through nested cache keys

---
 utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/utils.py b/utils.py
index 7d9d28d..bb2c554 100644
--- a/utils.py
+++ b/utils.py
@@ -331,6 +331,10 @@ class CacheKey:
       extra_info: Extra information to distinguish CacheKeys.
     """
     self.metric = copy.deepcopy(metric)
+    for m in self.metric.traverse():
+      # Otherwise the key of every computation holds the keys of all the earlier
+      # ones and copying it exceeds the recursion limit after enough replicates.
+      m.cache_key = None
     # `where` accumulates the filters so far and already includes metric.where.
     self.metric.where = None
     split_by = (split_by,) if isinstance(split_by, str) else split_by or ()
-- 
2.43.0


From c1769d5a077f281390518474047ab7cf5a8ea115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:28 +0000
Subject: [PATCH 21/97] fix: preaggregated columns of variables or filters that
 escape to the same alias are kept apart

---
 operations.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/operations.py b/operations.py
index 3df3d6d..d032a82 100644
--- a/operations.py
+++ b/operations.py
@@ -18,6 +18,7 @@ from __future__ import division
 from __future__ import print_function
 
 import copy
+import hashlib
 from typing import Any, Iterable, List, Optional, Sequence, Text, Tuple, Union
 import warnings
 
@@ -3229,7 +3230,17 @@ def get_preaggregated_metric_var(m: metrics.Metric):
   }
   name = tmpl_lookup[type(m)] % m.var
   name = f'{name} where {m.where}' if m.where else name
-  return sql.Column(name).alias
+  alias = sql.Column(name).alias
+  var = str(m.var)
+  if (
+      set(var + str(m.where or '')) & set('`~#&()[]{}|\\;:\'",?')
+      or ' ' in var
+      or '__' in var
+      or var.strip('_') != var
+  ):
+    # Different names might become the same alias after escaping.
+    alias += '_' + hashlib.md5(name.encode()).hexdigest()[:8]
+  return alias
 
 
 def get_se_sql(
-- 
2.43.0


From a215c8e6c055627177bfbd0fe2d37caad90156b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:05 +0000
Subject: [PATCH 22/97] fix: experiment ids 0 and False are displayed

---
 confidence_interval_display.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/confidence_interval_display.py b/confidence_interval_display.py
index 667df7a..cc28bf6 100644
--- a/confidence_interval_display.py
+++ b/confidence_interval_display.py
@@ -442,7 +442,7 @@ def dimension_formatter(x,
   d = []
   if description:
     d.append(span(description, 'ci-display-description-text'))
-  if expr_id:
+  if expr_id is not None and expr_id != '':  # Could be 0 or False.
     d.append(span(expr_id, 'ci-display-experiment-id'))
   if slice_info:
     d.append(span(slice_info, 'ci-display-dimension'))
-- 
2.43.0


From 46e1e317af77e83789f4c8113f3850585d5bb00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:05 +0000
Subject: [PATCH 23/97] fix: the display does not modify the caller's sort_by
 and metric_formats

---
 confidence_interval_display.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/confidence_interval_display.py b/confidence_interval_display.py
index cc28bf6..3c35979 100644
--- a/confidence_interval_display.py
+++ b/confidence_interval_display.py
@@ -325,7 +325,7 @@ class MetricFormatter(object):
                metric_formats=None,
                if_flip_color=None,
                hide_null_ctrl=False):
-    metric_formats = metric_formats or {}
+    metric_formats = dict(metric_formats or {})
     metric_formats.setdefault('Value', 'absolute')
     metric_formats.setdefault('Ratio', 'absolute')
     self.if_flip_color = if_flip_color
@@ -697,8 +697,9 @@ def get_formatted_df(
       col_rename[d] = 'Dim_%s' % (i + 1)
     dims = ['Dim_%s' % i for i in range(1, len(dims) + 1)]
   sort_by = sort_by or []
-  for s in sort_by:
-    s['column'] = col_rename.get(s['column'], s['column'])
+  sort_by = [
+      {**s, 'column': col_rename.get(s['column'], s['column'])} for s in sort_by
+  ]
   df_renamed = df.rename(columns=col_rename)
   formatted_df = _pre_aggregate_df(
       df_renamed,
-- 
2.43.0


From 2cb06fbd5bba2e147d57ebf56a46f3df10df8278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:05 +0000
Subject: [PATCH 24/97] fix: control rows are only filled in from consistent
 control values

---
 confidence_interval_display.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/confidence_interval_display.py b/confidence_interval_display.py
index 3c35979..97892b2 100644
--- a/confidence_interval_display.py
+++ b/confidence_interval_display.py
@@ -499,7 +499,7 @@ def add_control_rows(df, dims):
       'Control_Value'
   ]
   control_vals = grp.agg(['max', 'min'])
-  thresh = 1**-5
+  thresh = 1e-5
   ambiguous_vals = control_vals[control_vals['max'] -
                                 control_vals['min'] > thresh]
   msg = ('Warning: Metric "%s" of control %s in slice %s has inconsistent '
@@ -510,9 +510,10 @@ def add_control_rows(df, dims):
                             control_vals['min'] < thresh][['min']]
   valid_ctrl.reset_index(inplace=True)
   valid_ctrl['Experiment_Id'] = valid_ctrl['Control_Id']
-  if valid_ctrl.shape[0]:
-    new_ctrl_rows = curr_ctrl_rows.merge(
-        valid_ctrl, 'outer', ['Experiment_Id', 'Control_Id', 'Metric'] + dims)
+  if not valid_ctrl.shape[0]:
+    return df
+  new_ctrl_rows = curr_ctrl_rows.merge(
+      valid_ctrl, 'outer', ['Experiment_Id', 'Control_Id', 'Metric'] + dims)
   new_ctrl_rows['Value'] = new_ctrl_rows['Value'].fillna(new_ctrl_rows['min'])
   new_ctrl_rows.drop(columns='min', inplace=True)
   new_ctrl_rows['Is_Control'] = True
-- 
2.43.0


From 23bb2e84448f19d8ce97283717474dfedd9fb43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:05 +0000
Subject: [PATCH 25/97] fix: rows without a description are not dropped from
 the display

---
 confidence_interval_display.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/confidence_interval_display.py b/confidence_interval_display.py
index 97892b2..4ce17d4 100644
--- a/confidence_interval_display.py
+++ b/confidence_interval_display.py
@@ -264,7 +264,11 @@ def _pre_aggregate_df(
         df['Description'] = is_ctrl
       else:
         df['Description'] = df['Description'].where(
-            df['Description'].astype(bool), is_ctrl)  # Only fills empty cells
+            df['Description'].fillna('').astype(bool),
+            is_ctrl)  # Only fills empty cells
+
+  if 'Description' in df:  # Rows with NA would be dropped by groupby().
+    df['Description'] = df['Description'].fillna('')
 
   if show_control:
     if 'Is_Control' in df:
-- 
2.43.0


From 0e1b4abbce548580a47e8fda788557316fddae26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:38 +0000
Subject: [PATCH 26/97] fix: sorting the display by the only dimension does not
 add a column

---
 confidence_interval_display.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/confidence_interval_display.py b/confidence_interval_display.py
index 4ce17d4..4b9e151 100644
--- a/confidence_interval_display.py
+++ b/confidence_interval_display.py
@@ -169,9 +169,10 @@ def _sorted_long_to_wide(df, dims, sort_by):
         if col in df:
           df[col] = pd.Categorical(df[col], s['order'], ordered=True)
         else:
+          has_other_levels = df.index.nlevels > 1
           df.reset_index(col, inplace=True)
           df[col] = pd.Categorical(df[col], s['order'], ordered=True)
-          df.set_index(col, append=True, inplace=True)
+          df.set_index(col, append=has_other_levels, inplace=True)
   if sorting_cols:
     df = df.sort_values(sorting_cols, ascending=ascending)
   # Collects [Value, Ratio, CI_Lower, CI_Upper] for each Metric * slice. val_col
-- 
2.43.0


From 413337da82cf67ad4e712a5cdaadd2fc77b675c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:04 +0000
Subject: [PATCH 27/97] fix: control rows are described the same whether or not
 values are filled in

---
 confidence_interval_display.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/confidence_interval_display.py b/confidence_interval_display.py
index 4b9e151..912f1df 100644
--- a/confidence_interval_display.py
+++ b/confidence_interval_display.py
@@ -515,8 +515,6 @@ def add_control_rows(df, dims):
                             control_vals['min'] < thresh][['min']]
   valid_ctrl.reset_index(inplace=True)
   valid_ctrl['Experiment_Id'] = valid_ctrl['Control_Id']
-  if not valid_ctrl.shape[0]:
-    return df
   new_ctrl_rows = curr_ctrl_rows.merge(
       valid_ctrl, 'outer', ['Experiment_Id', 'Control_Id', 'Metric'] + dims)
   new_ctrl_rows['Value'] = new_ctrl_rows['Value'].fillna(new_ctrl_rows['min'])
-- 
2.43.0


From 779486fe9ce540b603fd3dc18263efe143e239ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:04 +0000
Subject: [PATCH 28/97] fix: integer dimensions keep their labels next to float
 ones in the display

---
 confidence_interval_display.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/confidence_interval_display.py b/confidence_interval_display.py
index 912f1df..a4a955b 100644
--- a/confidence_interval_display.py
+++ b/confidence_interval_display.py
@@ -191,7 +191,10 @@ def _merge_dimensions(df, dims):
   agg_cols = dims + ['Experiment_Id', 'Is_Control', 'Description']
   agg_cols = [c for c in agg_cols if c in df]
   if agg_cols:
-    df['Dimensions'] = df[agg_cols].apply(lambda row: row.to_dict(), axis=1)
+    # Don't let integer dimensions be upcasted by float ones.
+    df['Dimensions'] = (
+        df[agg_cols].astype(object).apply(lambda row: row.to_dict(), axis=1)
+    )
     df.drop(columns=agg_cols + ['Control_Id'], inplace=True, errors='ignore')
     # Make 'Dimensions' the first column.
     # df[['Dimensions'] + df.columns[:-1].tolist()] will fail when metric aren't
-- 
2.43.0


From 41f6f1a90dd6ab2696fe620e81c1e7a9ba410cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:24 +0000
Subject: [PATCH 29/97] fix: jackknife and bootstrap by a unit that a child
 also splits by

---
 operations.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/operations.py b/operations.py
index d032a82..411ff63 100644
--- a/operations.py
+++ b/operations.py
@@ -2571,7 +2571,11 @@ class Jackknife(MetricWithCI):
 
   def can_precompute(self):
     """LOO can be precomputed if all leaves can be expressed as Sum or Count."""
-    return self.enable_optimization and is_metric_precomputable(self)
+    return (
+        self.enable_optimization
+        and self.unit not in utils.get_extra_split_by(self, True)
+        and is_metric_precomputable(self)
+    )
 
 
 def is_metric_precomputable(metric: MetricWithCI) -> bool:
@@ -2783,7 +2787,10 @@ class Bootstrap(MetricWithCI):
 
   def can_precompute(self):
     return (
-        self.unit and self.enable_optimization and is_metric_precomputable(self)
+        self.unit
+        and self.enable_optimization
+        and self.unit not in utils.get_extra_split_by(self, True)
+        and is_metric_precomputable(self)
     )
 
 
-- 
2.43.0


From aef81f20391799c27f5f065a26b89f075353fd0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:10 +0000
Subject: [PATCH 30/97] fix: jackknife and bootstrap of data that have no other
 column than the grouping ones

---
 operations.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/operations.py b/operations.py
index 411ff63..1c7ff76 100644
--- a/operations.py
+++ b/operations.py
@@ -2371,7 +2371,7 @@ class Jackknife(MetricWithCI):
         + [self.unit]
         + list(utils.get_extra_split_by(self, return_superset=True))
     )
-    df_slices = df.groupby(all_split_by, observed=True).first().iloc[:, [0]]
+    df_slices = df.groupby(all_split_by, observed=True).size().to_frame()
     for key, each_bucket in precomputed.items():
       self.precompute_sum_or_count_for_jackknife(
           key, each_bucket, split_by, df_slices
@@ -2709,7 +2709,7 @@ class Bootstrap(MetricWithCI):
       grped = df.groupby(grp_by, observed=True)
       idx = grped.indices
       n_units = len(idx)
-      units_df = grped.first().iloc[:, [0]]
+      units_df = grped.size().to_frame()
       units_grped = self.group(units_df, split_by)
       use_cache = np.log(self.n_replicates) / n_units > np.log(n_units)
       sampled = set()
@@ -3182,7 +3182,7 @@ def get_preaggregated_data(m, df, split_by):
       + ([m.unit] if m.unit else [])
       + list(utils.get_extra_split_by(m, return_superset=True))
   )
-  original_idx = df.groupby(all_split_by, observed=True).first().iloc[:, [0]]
+  original_idx = df.groupby(all_split_by, observed=True).size().to_frame()
   filter_in_leaf = utils.push_filters_to_leaf(m)
   leafs = metrics.MetricList(tuple(set(utils.get_leaf_metrics(filter_in_leaf))))
   preagg_df = m.compute_util_metric_on(leafs, df, all_split_by)
-- 
2.43.0


From 3091231c628225de81785dde9f32953162c2f0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:42 +0000
Subject: [PATCH 31/97] fix: jackknife of an operation on the count of the unit
 itself

---
 utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/utils.py b/utils.py
index bb2c554..d7a3d5d 100644
--- a/utils.py
+++ b/utils.py
@@ -531,7 +531,8 @@ def adjust_slices_for_loo(
     return bucket_res.reindex(expected_units.index, fill_value=0)
 
   expected_units = expected_units.reset_index(unit)[[unit]]
-  b = bucket_res.reset_index(unit_and_operation_lvl)
+  # Only the index matters. The variable could be one of the levels.
+  b = pd.DataFrame(index=bucket_res.index).reset_index(unit_and_operation_lvl)
   suffix = '_meterstick'
   while any((c.endswith(suffix) for c in b.columns)) or suffix == unit:
     suffix += '_'
-- 
2.43.0


From d6c1e19f54a57b77c591e877dc1e6faa5abfea60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:33 +0000
Subject: [PATCH 32/97] fix: results without base values can be displayed with
 any show_control setting

---
 operations.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/operations.py b/operations.py
index 1c7ff76..11e583e 100644
--- a/operations.py
+++ b/operations.py
@@ -1566,6 +1566,8 @@ def get_display_fn(name,
     metric_order = list(res.index.get_level_values(
         0).unique()) if metric_order is None else metric_order
     res = res.reset_index()
+    if base is None:
+      res['_base_value'] = np.nan  # There is no base value to display.
     control = ctrl_id
     condition_col = condition_column
     if condition_column:
-- 
2.43.0


From 3accc4a1414e6d9ce3d865d077733cd5cbda3508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:33 +0000
Subject: [PATCH 33/97] fix: metrics that name their columns differently are
 not equal

---
 metrics.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/metrics.py b/metrics.py
index c90bbb1..860aedc 100644
--- a/metrics.py
+++ b/metrics.py
@@ -1127,7 +1127,12 @@ class MetricList(Metric):
       name = children[0].name
     else:
       name = tmpl.format(', '.join(m.name for m in children))
-    super(MetricList, self).__init__(name, children, where, name_tmpl)
+    super(MetricList, self).__init__(
+        name,
+        children,
+        where,
+        name_tmpl,
+        additional_fingerprint_attrs=['name_tmpl', 'columns'])
     self.children_return_dataframe = children_return_dataframe
     self.names = [m.name for m in children]
     self.columns = rename_columns
@@ -1422,7 +1427,7 @@ class CompositeMetric(Metric):
         children,
         where,
         name_tmpl,
-        additional_fingerprint_attrs=['name_tmpl'])
+        additional_fingerprint_attrs=['name_tmpl', 'columns'])
     self.op = op
     self.columns = rename_columns
 
@@ -1657,6 +1662,7 @@ class CompositeMetric(Metric):
     c = self.children[1]
     if (
         self.name_tmpl == '{} / {}'
+        and self.columns is None
         and isinstance(s, Sum)
         and isinstance(c, Count)
         and s.var == c.var
-- 
2.43.0


From 167b381778e83b56ccf5b7cb5cf1c2633e0b5c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:33 +0000
Subject: [PATCH 34/97] fix: equal user-defined metrics have the same hash

---
 metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metrics.py b/metrics.py
index 860aedc..4bd0113 100644
--- a/metrics.py
+++ b/metrics.py
@@ -1023,7 +1023,7 @@ class Metric(object):
     return True
 
   def __hash__(self):
-    return hash((self.name, self.get_fingerprint()))
+    return hash((self.name, self.get_fingerprint(['id'])))
 
   def get_fingerprint(self, attr_to_exclude=()):
     """Returns attributes that uniquely identify the Metric.
-- 
2.43.0


From d374d1769fa1bf8d5632e274b46d76b747d3a919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:33 +0000
Subject: [PATCH 35/97] fix: columns of a CompositeMetric can be renamed with a
 pd.Index

---
 metrics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metrics.py b/metrics.py
index 4bd0113..37f756c 100644
--- a/metrics.py
+++ b/metrics.py
@@ -1522,7 +1522,7 @@ class CompositeMetric(Metric):
       res = self.op(a, b)
     if isinstance(res, pd.Series):
       res.name = self.name
-      if self.columns:
+      if self.columns is not None:
         res = pd.DataFrame(res)
     if self.columns is not None and isinstance(res, pd.DataFrame):
       res.columns = self.columns
@@ -1647,7 +1647,7 @@ class CompositeMetric(Metric):
     if len(query.columns.difference(indexes)) == 1:
       query.columns[-1].set_alias(self.name)
 
-    if self.columns:
+    if self.columns is not None:
       columns = query.columns.difference(indexes)
       if len(self.columns) != len(columns):
         raise ValueError('The length of the renaming columns is wrong!')
-- 
2.43.0


From cc56c4fbf4b4eb38d67f29a5906cf7988d6387ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:36 +0000
Subject: [PATCH 36/97] fix: models fit with different settings are not equal
 and don't share cache

---
 models.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/models.py b/models.py
index 80ba026..7ad48b4 100644
--- a/models.py
+++ b/models.py
@@ -18,7 +18,7 @@ from __future__ import division
 from __future__ import print_function
 
 import itertools
-from typing import List, Optional, Sequence, Text, Union
+from typing import Iterable, List, Optional, Sequence, Text, Union
 
 from meterstick import metrics
 from meterstick import operations
@@ -158,6 +158,20 @@ class Model(operations.Operation):
   def group_by(self):
     return self.extra_split_by
 
+  def get_fingerprint(self, attr_to_exclude=()):
+    fingerprint = super(Model, self).get_fingerprint(attr_to_exclude)
+    if not hasattr(self.model, 'get_params'):
+      return fingerprint
+    # All the settings of the model matter to the coefficients.
+    params = {}
+    for k, v in self.model.get_params().items():
+      if isinstance(v, dict):
+        v = v.items()
+      if not isinstance(v, str) and isinstance(v, Iterable):
+        v = tuple(v)
+      params['model:%s' % k] = v
+    return fingerprint + tuple((k, params[k]) for k in sorted(params))
+
   def __call__(self, child):
     if not isinstance(child, metrics.MetricList):
       raise ValueError(f'Model can only take a MetricList but got {child}!')
-- 
2.43.0


From 6d3a52c55e591ed25a4e360b3428106ff538afab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:06 +0000
Subject: [PATCH 37/97] fix: expression columns are parenthesized when they are
 multiplied in SQL

---
 metrics.py | 8 +++++---
 sql.py     | 7 +++++++
 utils.py   | 9 +++++++--
 3 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/metrics.py b/metrics.py
index 37f756c..e6a4edd 100644
--- a/metrics.py
+++ b/metrics.py
@@ -1840,7 +1840,8 @@ class Dot(SimpleMetric):
 
   def get_sql_columns(self, local_filter):
     tmpl = 'AVG({} * {})' if self.normalize else 'SUM({} * {})'
-    return sql.Column((self.var, self.var2), tmpl, self.name, local_filter)
+    operands = [sql.parenthesize(v) for v in (self.var, self.var2)]
+    return sql.Column(operands, tmpl, self.name, local_filter)
 
   def get_fingerprint(self, attr_to_exclude=()):
     if str(self.var) > str(self.var2):
@@ -1881,8 +1882,9 @@ class Mean(SimpleMetric):
     if not self.weight:
       return sql.Column(self.var, 'AVG({})', self.name, local_filter)
     else:
-      res = sql.Column('%s * %s' % (self.weight, self.var), 'SUM({})',
-                       'total_sum', local_filter)
+      operands = [sql.parenthesize(v) for v in (self.weight, self.var)]
+      res = sql.Column('%s * %s' % tuple(operands), 'SUM({})', 'total_sum',
+                       local_filter)
       res /= sql.Column(self.weight, 'SUM({})', 'total_weight', local_filter)
       return res.set_alias(self.name)
 
diff --git a/sql.py b/sql.py
index 0240477..49c329c 100644
--- a/sql.py
+++ b/sql.py
@@ -398,6 +398,13 @@ def add_parenthesis_if_needed(*columns):
     yield expression
 
 
+def parenthesize(expression):
+  """Wraps an expression so it can be an operand, unless it's a plain column."""
+  if re.fullmatch(r'[\w.]+|`[^`]*`', expression):
+    return expression
+  return '(%s)' % expression
+
+
 class Columns(SqlComponents):
   """Represents a bunch of SQL columns."""
 
diff --git a/utils.py b/utils.py
index d7a3d5d..8511607 100644
--- a/utils.py
+++ b/utils.py
@@ -687,8 +687,13 @@ def parse_auxiliary_col(auxiliary_col, df: Optional[pd.DataFrame] = None):
     raise ValueError('auxiliary_col must be length-3 but got %s.' %
                      auxiliary_col)
   col0, fn, col1 = auxiliary_col
-  name0, col0 = parse_auxiliary_col(col0, df)
-  name1, col1 = parse_auxiliary_col(col1, df)
+  operands = []
+  for col in (col0, col1):
+    name, res = parse_auxiliary_col(col, df)
+    # The column itself could be an expression in SQL.
+    name = sql.parenthesize(name) if isinstance(col, str) else name
+    operands.append((name, res))
+  (name0, col0), (name1, col1) = operands
   if fn in ('+', '*'):
     (name0, col0), (name1, col1) = sorted(((name0, col0), (name1, col1)))
   if callable(fn):
-- 
2.43.0


From 2c4a70fef1971e4dc01e23f9c3f8fa6853611664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:06 +0000
Subject: [PATCH 38/97] fix: SQL quantile does not truncate 100 * quantile

---
 metrics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metrics.py b/metrics.py
index e6a4edd..98e74f6 100644
--- a/metrics.py
+++ b/metrics.py
@@ -2192,7 +2192,7 @@ class Quantile(SimpleMetric):
       alias = 'quantile(%s, %s)' % (self.var, self.quantile)
       return sql.Column(
           self.var,
-          'APPROX_QUANTILES({}, 100)[OFFSET(%s)]' % int(100 * self.quantile),
+          'APPROX_QUANTILES({}, 100)[OFFSET(%s)]' % round(100 * self.quantile),
           alias, local_filter)
 
     query = 'APPROX_QUANTILES({}, 100)[OFFSET(%s)]'
@@ -2202,7 +2202,7 @@ class Quantile(SimpleMetric):
       if alias.startswith('0.'):
         alias = 'point_' + alias[2:]
       quantiles.append(
-          sql.Column(self.var, query % int(100 * q), alias, local_filter))
+          sql.Column(self.var, query % round(100 * q), alias, local_filter))
     return sql.Columns(quantiles)
 
   def get_sql_and_with_clause(self, table, split_by, global_filter, indexes,
-- 
2.43.0


From 29e5e9e6b4935e4e412b13fbba281712477d1302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:06 +0000
Subject: [PATCH 39/97] fix: SQL weighted quantile does not count a value twice

---
 metrics.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/metrics.py b/metrics.py
index 98e74f6..137f2e2 100644
--- a/metrics.py
+++ b/metrics.py
@@ -2238,9 +2238,9 @@ class Quantile(SimpleMetric):
       FROM QuantileWeights)
     2. For each quantile q, SELECT
     SUM(IF((prev_weight IS NULL AND q < weight) OR
-             (next_weight IS NULL AND q > weight),
+             (next_weight IS NULL AND q >= weight),
            val,
-           IF(q BETWEEN weight AND next_weight,
+           IF(q >= weight AND q < next_weight,
               (next_value * (q - weight) + (next_weight - q) * val) /
                 (next_weight - weight),
               0))).
@@ -2350,8 +2350,8 @@ class Quantile(SimpleMetric):
       )
       cols.add(
           sql.Column(
-              f"""SUM(IF(({prev_w} IS NULL AND {q} < {w}) OR ({next_w} IS NULL AND {q} > {w}), {v},
-    IF({q} BETWEEN {w} AND {next_w}, {interp}, 0)))""",
+              f"""SUM(IF(({prev_w} IS NULL AND {q} < {w}) OR ({next_w} IS NULL AND {q} >= {w}), {v},
+    IF({q} >= {w} AND {q} < {next_w}, {interp}, 0)))""",
               alias=f'{self.weight}-weighted quantile({self.var}, {q})',
           )
       )
-- 
2.43.0


From 3d68cdb8a452c3963e094514830ba2cb434f8ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:37 +0000
Subject: [PATCH 40/97] fix: arithmetic in SQL does not apply to dimensions
 that have an alias

---
 metrics.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/metrics.py b/metrics.py
index 137f2e2..c638d89 100644
--- a/metrics.py
+++ b/metrics.py
@@ -1560,25 +1560,29 @@ class CompositeMetric(Metric):
         sql.Filters(self.where_).add(local_filter).remove(global_filter)
     )
     op = self.op
+    idx_aliases = sql.Columns(indexes).aliases
 
     if not isinstance(self.children[0], Metric):
       constant = self.children[0]
       query, with_data = self.children[1].get_sql_and_with_clause(
           table, split_by, global_filter, indexes, local_filter, with_data)
-      query.columns = sql.Columns(
-          (c if c in indexes else op(constant, c) for c in query.columns))
+      query.columns = sql.Columns((
+          c if c.alias in idx_aliases else op(constant, c)
+          for c in query.columns
+      ))
     elif not isinstance(self.children[1], Metric):
       constant = self.children[1]
       query, with_data = self.children[0].get_sql_and_with_clause(
           table, split_by, global_filter, indexes, local_filter, with_data)
-      query.columns = sql.Columns(
-          (c if c in indexes else op(c, constant) for c in query.columns))
+      query.columns = sql.Columns((
+          c if c.alias in idx_aliases else op(c, constant)
+          for c in query.columns
+      ))
     else:
       query0, with_data = self.children[0].get_sql_and_with_clause(
           table, split_by, global_filter, indexes, local_filter, with_data)
       query1, with_data = self.children[1].get_sql_and_with_clause(
           table, split_by, global_filter, indexes, local_filter, with_data)
-      idx_aliases = sql.Columns(indexes).aliases
       val_cols0 = [c for c in query0.columns if c.alias not in idx_aliases]
       val_cols1 = [c for c in query1.columns if c.alias not in idx_aliases]
       if (
@@ -1644,11 +1648,11 @@ class CompositeMetric(Metric):
             columns.add(col)
         query = sql.Sql(columns, from_data)
 
-    if len(query.columns.difference(indexes)) == 1:
+    columns = [c for c in query.columns if c.alias not in idx_aliases]
+    if len(columns) == 1:
       query.columns[-1].set_alias(self.name)
 
     if self.columns is not None:
-      columns = query.columns.difference(indexes)
       if len(self.columns) != len(columns):
         raise ValueError('The length of the renaming columns is wrong!')
       for col, rename in zip(columns, self.columns):
-- 
2.43.0


From ec3a221330ce20943c81aa72d8cd1144ca14b4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:06 +0000
Subject: [PATCH 41/97] fix: SQL aliases are valid identifiers for any name

---
 sql.py | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/sql.py b/sql.py
index 49c329c..45cfbe5 100644
--- a/sql.py
+++ b/sql.py
@@ -24,6 +24,17 @@ import re
 from typing import Iterable, Optional, Text, Union
 
 
+# https://cloud.google.com/bigquery/docs/reference/standard-sql/lexical#reserved_keywords
+RESERVED_KEYWORDS = frozenset("""
+ALL AND ANY ARRAY AS ASC ASSERT_ROWS_MODIFIED AT BETWEEN BY CASE CAST COLLATE
+CONTAINS CREATE CROSS CUBE CURRENT DEFAULT DEFINE DESC DISTINCT ELSE END ENUM
+ESCAPE EXCEPT EXCLUDE EXISTS EXTRACT FALSE FETCH FOLLOWING FOR FROM FULL GROUP
+GROUPING GROUPS HASH HAVING IF IGNORE IN INNER INTERSECT INTERVAL INTO IS JOIN
+LATERAL LEFT LIKE LIMIT LOOKUP MERGE NATURAL NEW NO NOT NULL NULLS OF ON OR
+ORDER OUTER OVER PARTITION PRECEDING PROTO QUALIFY RANGE RECURSIVE RESPECT RIGHT
+ROLLUP ROWS SELECT SET SOME STRUCT TABLESAMPLE THEN TO TREAT TRUE UNBOUNDED
+UNION UNNEST USING WHEN WHERE WINDOW WITH WITHIN
+""".split())
 SAFE_DIVIDE = 'IF(({denom}) = 0, NULL, ({numer}) / ({denom}))'
 
 
@@ -73,9 +84,9 @@ def get_alias(c):
 
 def escape_alias(alias):
   """Replaces special characters in SQL column name alias."""
-  special = set(r""" `~!@#$%^&*()-=+[]{}\|;:'",.<>/?""")
-  if not alias or not special.intersection(alias):
+  if not alias:
     return alias
+  special = set(re.findall(r'[^a-zA-Z0-9_]', alias))
   escape = {c: '_' for c in special}
   escape.update({
       '!': '_not_',
@@ -93,13 +104,18 @@ def escape_alias(alias):
       '>': '_greater_than_',
       '<': '_smaller_than_',
   })
-  res = (
-      ''.join(escape.get(c, c) for c in alias)
-      .strip('_')
-      .strip(' ')
-      .replace('__', '_')
-  )
-  return 'col_' + res if res[0].isdigit() else res
+  res = alias
+  if special:
+    res = (
+        ''.join(escape.get(c, c) for c in alias)
+        .strip('_')
+        .strip(' ')
+        .replace('__', '_')
+    )
+  # Aliases are not quoted so they cannot be keywords or start with a digit.
+  if res[:1].isdigit() or not res or res.upper() in RESERVED_KEYWORDS:
+    return 'col_' + res
+  return res
 
 
 @functools.total_ordering
-- 
2.43.0


From cfbcfb467901b30d5ea43384195ae75beeffd036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:44 +0000
Subject: [PATCH 42/97] fix: SQL quantile keeps its name

---
 metrics.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/metrics.py b/metrics.py
index c638d89..357f650 100644
--- a/metrics.py
+++ b/metrics.py
@@ -2193,11 +2193,10 @@ class Quantile(SimpleMetric):
     if self.weight:
       raise ValueError('SQL for weighted quantile should already be handled!')
     if self.one_quantile:
-      alias = 'quantile(%s, %s)' % (self.var, self.quantile)
       return sql.Column(
           self.var,
           'APPROX_QUANTILES({}, 100)[OFFSET(%s)]' % round(100 * self.quantile),
-          alias, local_filter)
+          self.name, local_filter)
 
     query = 'APPROX_QUANTILES({}, 100)[OFFSET(%s)]'
     quantiles = []
-- 
2.43.0


From 432c484accdadd790088cf18d753adc182a141ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:44 +0000
Subject: [PATCH 43/97] fix: SQL aliases that only differ in case get a suffix

---
 sql.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sql.py b/sql.py
index 45cfbe5..c6ed0f1 100644
--- a/sql.py
+++ b/sql.py
@@ -483,7 +483,8 @@ class Columns(SqlComponents):
     if found:
       children.set_alias(found)
       return self
-    if alias not in self.aliases:
+    # Names of columns are case-insensitive in SQL.
+    if alias.lower() not in (a.lower() for a in self.aliases):
       self.children.append(children)
       return self
     else:
-- 
2.43.0


From b1604cbe510900ee02b6151bf562d582f6710152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:05 +0000
Subject: [PATCH 44/97] fix: SQL of a MetricList refers to the right columns of
 merged children

---
 metrics.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/metrics.py b/metrics.py
index 357f650..1863752 100644
--- a/metrics.py
+++ b/metrics.py
@@ -1350,11 +1350,13 @@ class MetricList(Metric):
         else:
           join = 'FULL' if indexes else 'CROSS'
           from_data = sql.Join(from_data, alias, join=join, using=indexes)
+      merged = {c.expression: c for c in with_data.children[alias].columns}
       for c in child_sql.columns:
         if c not in columns:
+          # The alias might have changed when the child was merged.
           columns.add(
               sql.Column(
-                  '%s.%s' % (alias, c.alias),
+                  '%s.%s' % (alias, merged[c.expression].alias),
                   alias=name_tmpl.format(c.alias_raw),
               )
           )
-- 
2.43.0


From de4fff0f7471d37824820a16415d65a25a6bb5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:44 +0000
Subject: [PATCH 45/97] fix: SQL filters keep == inside string literals

---
 sql.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sql.py b/sql.py
index c6ed0f1..19f3862 100644
--- a/sql.py
+++ b/sql.py
@@ -193,7 +193,10 @@ class Filter(SqlComponent):
     if isinstance(cond, Filter):
       self.cond = cond.cond
     elif cond:
-      self.cond = cond.replace('==', '=') or ''
+      # String literals are left alone.
+      self.cond = re.sub(
+          r"""("[^"]*"|'[^']*')|==""", lambda m: m.group(1) or '=', cond
+      )
 
   def __str__(self):
     if not self.cond:
-- 
2.43.0


From 7261c285aacce4e202e999414c3ca35f94bc8c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:05 +0000
Subject: [PATCH 46/97] fix: merging a column into one whose SQL alias has a
 suffix keeps the suffix

---
 sql.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sql.py b/sql.py
index 19f3862..67332a4 100644
--- a/sql.py
+++ b/sql.py
@@ -482,9 +482,10 @@ class Columns(SqlComponents):
     if isinstance(children, str):
       return self.add(Column(children))
     alias, expr = children.alias, children.expression
-    found = self.get_alias(expr)
+    found = [c for c in self if c.expression == expr]
     if found:
-      children.set_alias(found)
+      children.set_alias(found[0].alias_raw)
+      children.suffix = found[0].suffix
       return self
     # Names of columns are case-insensitive in SQL.
     if alias.lower() not in (a.lower() for a in self.aliases):
-- 
2.43.0


From a54b1b2f0b10b87d53c313dbe3752f648d478dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:24 +0000
Subject: [PATCH 47/97] fix: columns without an alias can be collected

---
 sql.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sql.py b/sql.py
index 67332a4..82a3d66 100644
--- a/sql.py
+++ b/sql.py
@@ -488,7 +488,8 @@ class Columns(SqlComponents):
       children.suffix = found[0].suffix
       return self
     # Names of columns are case-insensitive in SQL.
-    if alias.lower() not in (a.lower() for a in self.aliases):
+    key = alias.lower() if alias else alias
+    if key not in (a.lower() if a else a for a in self.aliases):
       self.children.append(children)
       return self
     else:
-- 
2.43.0


From e78311f891b1e2eafd53e786cdfccf52268600d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:25 +0000
Subject: [PATCH 48/97] fix: SQL queries with window functions are not merged
 with plain aggregations

---
 sql.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sql.py b/sql.py
index 82a3d66..c2789d9 100644
--- a/sql.py
+++ b/sql.py
@@ -45,7 +45,9 @@ def is_compatible(sql0, sql1):
   1. SELECT FROM the same data source
   2. have same GROUP BY clauses
   3. have the same WITH clause (usually None)
-  4. do not SELECT DISTINCT.
+  4. do not SELECT DISTINCT
+  5. both or neither have window functions, otherwise aggregations without
+    GROUP BY would be mixed with row-wise columns.
 
   Args:
     sql0: A Sql instance.
@@ -63,6 +65,7 @@ def is_compatible(sql0, sql1):
       and sql0.with_data == sql1.with_data
       and not sql0.columns.distinct
       and not sql1.columns.distinct
+      and (' OVER (' in str(sql0.columns)) == (' OVER (' in str(sql1.columns))
   )
 
 
-- 
2.43.0


From 5b73f91dd23e8e61da7f7d9ed65984594df1e94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:11 +0000
Subject: [PATCH 49/97] fix: SQL of nested operations keeps all the dimensions
 of the inner one

---
 diversity.py  | 3 ++-
 operations.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/diversity.py b/diversity.py
index b601944..90bd2d6 100644
--- a/diversity.py
+++ b/diversity.py
@@ -38,8 +38,9 @@ class DiversityBase(operations.Distribution):
   def get_distribution_sql_and_columns(
       self, table, split_by, global_filter, indexes, local_filter, with_data
   ):
+    dist_indexes = sql.Columns(indexes).add(self.extra_split_by)
     dist_sql, with_data = super(DiversityBase, self).get_sql_and_with_clause(
-        table, split_by, global_filter, indexes, local_filter, with_data
+        table, split_by, global_filter, dist_indexes, local_filter, with_data
     )
     # Remove 'Distribution of ' in column names.
     for c in dist_sql.columns:
diff --git a/operations.py b/operations.py
index 11e583e..0172bbb 100644
--- a/operations.py
+++ b/operations.py
@@ -257,7 +257,8 @@ class Distribution(Operation):
         table, all_split_by, global_filter, indexes, local_filter, with_data)
     child_table = sql.Datasource(child_sql, 'DistributionRaw')
     child_table_alias = with_data.merge(child_table)
-    groupby = sql.Columns(all_split_by.aliases)
+    # The child might have its own extra indexes.
+    groupby = sql.Columns(indexes.aliases)
     columns = sql.Columns()
     for c in child_sql.columns:
       if c.alias in groupby:
-- 
2.43.0


From bc6d59919b04e09e7e63d7142ad2ac6b776f405b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:10 +0000
Subject: [PATCH 50/97] fix: a MetricList of one metric applies its name
 template in SQL

---
 metrics.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metrics.py b/metrics.py
index 1863752..1382266 100644
--- a/metrics.py
+++ b/metrics.py
@@ -1259,6 +1259,10 @@ class MetricList(Metric):
         mode,
     )
 
+  def to_series_or_number_if_not_operation(self, df):
+    # The column of an only child would lose its name if squeezed.
+    return df
+
   def compute_children_sql(self, table, split_by, execute, mode=None):
     """The return should be similar to compute_children()."""
     children = []
-- 
2.43.0


From 5444d679c954b139ddd78bfa2c2cd5a8d9584e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:13 +0000
Subject: [PATCH 51/97] fix: string and date literals are escaped in generated
 SQL

---
 operations.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/operations.py b/operations.py
index 0172bbb..bb5ee82 100644
--- a/operations.py
+++ b/operations.py
@@ -18,6 +18,7 @@ from __future__ import division
 from __future__ import print_function
 
 import copy
+import datetime
 import hashlib
 from typing import Any, Iterable, List, Optional, Sequence, Text, Tuple, Union
 import warnings
@@ -409,10 +410,19 @@ class CumulativeDistribution(Distribution):
 
 def _format_to_condition(val):
   if isinstance(val, str) and not val.startswith('$'):
-    return '"%s"' % val
+    return _format_string(val)
+  if isinstance(val, datetime.date):  # including datetime and pd.Timestamp.
+    return _format_string(str(val))
   return '%s' % val
 
 
+def _format_string(val):
+  """Formats a string as a SQL literal."""
+  for raw, escaped in (('\\', '\\\\'), ('"', '\\"'), ('\n', '\\n')):
+    val = val.replace(raw, escaped)
+  return '"%s"' % val
+
+
 class Comparison(Operation):
   """Base class for comparisons like percent/absolute change."""
 
@@ -2508,7 +2518,7 @@ class Jackknife(MetricWithCI):
       loo_sql = sql.Sql(None, table, where=self.where_)
       where = copy.deepcopy(loo_sql.where)
       for unit in unique_units:
-        loo_where = '%s != "%s"' % (self.unit, unit)
+        loo_where = '%s != %s' % (self.unit, _format_string(str(unit)))
         if pd.api.types.is_numeric_dtype(slice_and_units[self.unit]):
           loo_where = '%s != %s' % (self.unit, unit)
         loo_sql.where = sql.Filters(where).add(loo_where)
-- 
2.43.0


From ac1baa6bf3b2e629bcea50ed9a5f45e675cb2cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:13 +0000
Subject: [PATCH 52/97] fix: fast jackknife SQL keeps units missing from a cell
 of an extra dimension

---
 operations.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/operations.py b/operations.py
index bb5ee82..033e6fe 100644
--- a/operations.py
+++ b/operations.py
@@ -3478,9 +3478,9 @@ def get_jackknife_data_fast(
   columns_to_preagg = sql.Columns(sql.Column('COUNT(*)', alias='ct'))
   columns_in_loo = sql.Columns()
   # When there is any filter or Operation inside Jackknife, we need adjustments.
-  needs_adjustment = getattr(
-      metric, 'has_local_filter', False
-  ) or split_by != sql.Columns(indexes)
+  needs_adjustment = (
+      getattr(metric, 'has_local_filter', False) or split_by != all_indexes
+  )
   # columns_to_preagg and columns_in_loo are filled in-place.
   modified_jk = modify_descendants_for_jackknife_fast(
       metric, columns_to_preagg, columns_in_loo, global_filter, needs_adjustment
-- 
2.43.0


From 03ef91a6c75adfdd9970a0b8848f4a8cf30aeee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:13 +0000
Subject: [PATCH 53/97] fix: mixed mode jackknife skips replicates without a
 baseline, as in memory

---
 operations.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/operations.py b/operations.py
index 033e6fe..3117695 100644
--- a/operations.py
+++ b/operations.py
@@ -2523,8 +2523,17 @@ class Jackknife(MetricWithCI):
           loo_where = '%s != %s' % (self.unit, unit)
         loo_sql.where = sql.Filters(where).add(loo_where)
         key = self.get_sample_cache_key(unit)
-        loo = self.compute_child_sql(loo_sql, split_by, execute, False, mode,
-                                     key)
+        try:
+          loo = self.compute_child_sql(loo_sql, split_by, execute, False, mode,
+                                       key)
+        except KeyError as e:
+          # For example, the baseline only has one unit. Same as in memory.
+          print(
+              'Warning: Failed on%s sample data for reason %s. If you see many '
+              'such failures, your data might be too sparse.'
+              % (self.name_tmpl.format(''), repr(e))
+          )
+          continue
         # If a slice doesn't have the unit in the input data, we should exclude
         # the slice in the loo.
         if split_by:
-- 
2.43.0


From db92bb140bebd0d5249871141f77de8c39766883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:13 +0000
Subject: [PATCH 54/97] fix: PrePostChange and CUPED of several metrics in
 mixed mode

---
 operations.py | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/operations.py b/operations.py
index 3117695..fb3bbb6 100644
--- a/operations.py
+++ b/operations.py
@@ -818,10 +818,15 @@ class PrePostChange(PercentChange):
     return Adjust('').compute_on(aligned, split_by + self.extra_index)
 
   def compute_children_sql(self, table, split_by, execute, mode=None):
-    child = super(PrePostChange,
-                  self).compute_children_sql(table, split_by, execute, mode)
-    covariates = child.iloc[:, 1:]
-    child = child.iloc[:, :1]
+    child, covariates = self.compute_util_metric_on_sql(
+        self.children[0],
+        table,
+        split_by + self.extra_split_by,
+        execute,
+        False,
+        mode,
+        return_dataframe=False,
+    )
     return self.adjust_value(child, covariates, split_by)
 
   def get_change_raw_sql(
@@ -1049,10 +1054,15 @@ class CUPED(AbsoluteChange):
     return Adjust('').compute_on(aligned, split_by)
 
   def compute_children_sql(self, table, split_by, execute, mode=None):
-    child = super(CUPED, self).compute_children_sql(table, split_by, execute,
-                                                    mode)
-    covariates = child.iloc[:, 1:]
-    child = child.iloc[:, :1]
+    child, covariates = self.compute_util_metric_on_sql(
+        self.children[0],
+        table,
+        split_by + self.extra_split_by,
+        execute,
+        False,
+        mode,
+        return_dataframe=False,
+    )
     return self.adjust_value(child, covariates, split_by)
 
   def get_change_raw_sql(
-- 
2.43.0


From 82b2193d396eda1a488a57ad9b0fc78fed73f9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:13 +0000
Subject: [PATCH 55/97] fix: MetricList in SQL without a DataFrame keeps its
 filter and name template

---
 metrics.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/metrics.py b/metrics.py
index 1382266..9556060 100644
--- a/metrics.py
+++ b/metrics.py
@@ -1245,9 +1245,9 @@ class MetricList(Metric):
       return super(MetricList, self).compute_on_sql(
           table, split_by, execute, melted, mode, cache_key, cache
       )
-      # Returns a list of results without pd.concat.
+    # Returns a list of results without pd.concat.
     return self._compute_with_caching_and_postprocessing(
-        self.compute_children_sql,
+        self.compute_list_through_sql,
         table,
         split_by,
         melted,
@@ -1259,6 +1259,21 @@ class MetricList(Metric):
         mode,
     )
 
+  def compute_list_through_sql(self, table, split_by, execute, mode):
+    """Similar to compute_slices()."""
+    if self.where:
+      table = sql.Sql(None, table, self.where)
+    children = self.compute_children_sql(table, split_by, execute, mode)
+    if len(self.children) == 1:
+      children = [children]
+    if self.name_tmpl:
+      for child in children:
+        if isinstance(child, pd.DataFrame):
+          child.columns = [self.name_tmpl.format(c) for c in child.columns]
+        if isinstance(child, pd.Series):
+          child.name = self.name_tmpl.format(child.name)
+    return children
+
   def to_series_or_number_if_not_operation(self, df):
     # The column of an only child would lose its name if squeezed.
     return df
-- 
2.43.0


From 8a43de312151195364ed9c1a93029aa1ec437f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:48 +0000
Subject: [PATCH 56/97] fix: fast jackknife SQL of units that only have missing
 values in a slice

---
 operations.py | 22 ++++------------------
 1 file changed, 4 insertions(+), 18 deletions(-)

diff --git a/operations.py b/operations.py
index fb3bbb6..d966536 100644
--- a/operations.py
+++ b/operations.py
@@ -2151,8 +2151,6 @@ class MetricWithCI(Operation):
       # When each unit only has one row after preaggregation, we sample by rows.
       if not utils.get_extra_split_by(equiv, return_superset=True):
         equiv.unit = None
-    else:
-      equiv.has_local_filter = any([l.where for l in leaf])
     return equiv.to_sql(preagg, split_by)
 
   def get_sql_and_with_clause(
@@ -3459,10 +3457,7 @@ def get_jackknife_data_fast(
     split_by,
     extra_index,
     unit AS meterstick_resample_idx,
-    # if needs_adjustment
     total.`sum(X)` - COALESCE(unit.`sum(X)`, 0) AS `sum(X)`
-    # else
-    total.`sum(X)` - unit.`sum(X)` AS `sum(X)`
   FROM
   TotalCount AS total
   RIGHT JOIN  # Or CROSS JOIN (SELECT DISTINCT unit FROM UnitSliceCount)
@@ -3496,13 +3491,9 @@ def get_jackknife_data_fast(
 
   columns_to_preagg = sql.Columns(sql.Column('COUNT(*)', alias='ct'))
   columns_in_loo = sql.Columns()
-  # When there is any filter or Operation inside Jackknife, we need adjustments.
-  needs_adjustment = (
-      getattr(metric, 'has_local_filter', False) or split_by != all_indexes
-  )
   # columns_to_preagg and columns_in_loo are filled in-place.
   modified_jk = modify_descendants_for_jackknife_fast(
-      metric, columns_to_preagg, columns_in_loo, global_filter, needs_adjustment
+      metric, columns_to_preagg, columns_in_loo, global_filter
   )
   metric.children = modified_jk.children
 
@@ -3553,7 +3544,6 @@ def modify_descendants_for_jackknife_fast(
     columns_to_preagg,
     columns_in_loo,
     global_filter,
-    needs_adjustment,
 ):
   """Gets the columns for leaf Metrics and modify them for fast Jackknife SQL.
 
@@ -3587,8 +3577,6 @@ def modify_descendants_for_jackknife_fast(
     columns_in_loo: A global container for all metric columns we need in LOO
       table. It's being added in-place.
     global_filter: The filters that can be applied to the whole Metric tree.
-    needs_adjustment: If we need to adjust the slices. See
-      utils.adjust_slices_for_loo() for more discussions.
 
   Returns:
     The modified metric tree.
@@ -3599,10 +3587,8 @@ def modify_descendants_for_jackknife_fast(
   metric = copy.deepcopy(metric)
   local_filter = sql.Filters(metric.where_)
   metric.where = None
-  if needs_adjustment:
-    tmpl = 'total_table.%s - COALESCE(unit_slice_table.%s, 0)'
-  else:
-    tmpl = 'total_table.%s - unit_slice_table.%s'
+  # A unit might be missing in a slice, or only have NULLs or filtered rows.
+  tmpl = 'total_table.%s - COALESCE(unit_slice_table.%s, 0)'
   if isinstance(metric, (metrics.Sum, metrics.Count)):
     filters = sql.Filters(local_filter).remove(global_filter)
     c = sql.Column(metric.var).alias
@@ -3620,7 +3606,7 @@ def modify_descendants_for_jackknife_fast(
   new_children = []
   for m in metric.children:
     modified = modify_descendants_for_jackknife_fast(
-        m, columns_to_preagg, columns_in_loo, global_filter, needs_adjustment
+        m, columns_to_preagg, columns_in_loo, global_filter
     )
     new_children.append(modified)
   metric.children = new_children
-- 
2.43.0


From 01668b61fc8f7f89b77c999a639dcebf925cde03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:54 +0000
Subject: [PATCH 57/97] fix: mixed mode jackknife skips batches without a
 baseline

---
 operations.py | 42 ++++++++++++++++++++++--------------------
 1 file changed, 22 insertions(+), 20 deletions(-)

diff --git a/operations.py b/operations.py
index d966536..b444a8c 100644
--- a/operations.py
+++ b/operations.py
@@ -1857,13 +1857,16 @@ class MetricWithCI(Operation):
           )
         estimates.append(res)
       except Exception as e:  # pylint: disable=broad-except
-        print(
-            'Warning: Failed on%s sample data for reason %s. If you see many '
-            'such failures, your data might be too sparse.'
-            % (self.name_tmpl.format(''), repr(e))
-        )
+        self.warn_failed_sample(e)
     return estimates
 
+  def warn_failed_sample(self, e):
+    print(
+        'Warning: Failed on%s sample data for reason %s. If you see many '
+        'such failures, your data might be too sparse.'
+        % (self.name_tmpl.format(''), repr(e))
+    )
+
   def compute_on_children(self, children, split_by):
     del split_by  # unused
     bucket_estimates = pd.concat(children, axis=1, sort=False)
@@ -2534,13 +2537,8 @@ class Jackknife(MetricWithCI):
         try:
           loo = self.compute_child_sql(loo_sql, split_by, execute, False, mode,
                                        key)
-        except KeyError as e:
-          # For example, the baseline only has one unit. Same as in memory.
-          print(
-              'Warning: Failed on%s sample data for reason %s. If you see many '
-              'such failures, your data might be too sparse.'
-              % (self.name_tmpl.format(''), repr(e))
-          )
+        except KeyError as e:  # For example, the baseline only has one unit.
+          self.warn_failed_sample(e)
           continue
         # If a slice doesn't have the unit in the input data, we should exclude
         # the slice in the loo.
@@ -2561,14 +2559,18 @@ class Jackknife(MetricWithCI):
             self.where_,
         )
         key = self.get_sample_cache_key(tuple(units))
-        loo = self.compute_child_sql(
-            loo,
-            split_by + ['meterstick_resample_idx'],
-            execute,
-            True,
-            mode,
-            key,
-        )
+        try:
+          loo = self.compute_child_sql(
+              loo,
+              split_by + ['meterstick_resample_idx'],
+              execute,
+              True,
+              mode,
+              key,
+          )
+        except KeyError as e:
+          self.warn_failed_sample(e)
+          continue
         # If a slice doesn't have the unit in the input data, we should exclude
         # the slice in the loo.
         if split_by:
-- 
2.43.0


From 457c4d19eb1d3e8f7f47f015e6efcce4c59915d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:54 +0000
Subject: [PATCH 58/97] fix: batched mixed mode jackknife of a child with the
 unit as a dimension

---
 operations.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/operations.py b/operations.py
index b444a8c..1ea0f41 100644
--- a/operations.py
+++ b/operations.py
@@ -2548,7 +2548,13 @@ class Jackknife(MetricWithCI):
         replicates.append(utils.melt(loo))
     else:
       if split_by:
-        slice_and_units.set_index(self.unit, append=True, inplace=True)
+        # The child might have a dimension that has the same name as the unit.
+        slice_and_units.rename(
+            columns={self.unit: 'meterstick_resample_idx'}, inplace=True
+        )
+        slice_and_units.set_index(
+            'meterstick_resample_idx', append=True, inplace=True
+        )
       for i in range(int(np.ceil(len(unique_units) / batch_size))):
         units = unique_units[i * batch_size:(i + 1) * batch_size]
         loo = sql.Sql(
@@ -2574,14 +2580,9 @@ class Jackknife(MetricWithCI):
         # If a slice doesn't have the unit in the input data, we should exclude
         # the slice in the loo.
         if split_by:
-          loo.index.set_names(
-              self.unit, level='meterstick_resample_idx', inplace=True
-          )
           loo = slice_and_units.join(utils.unmelt(loo), how='inner')
-          loo = utils.melt(loo).unstack(self.unit)
-        else:
-          loo = loo.unstack('meterstick_resample_idx')
-        replicates.append(loo)
+          loo = utils.melt(loo)
+        replicates.append(loo.unstack('meterstick_resample_idx'))
     return replicates
 
   def get_resampled_data_sql(
-- 
2.43.0


From 171238740a11c28595d8d879681e147f6bf8e69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:37 +0000
Subject: [PATCH 59/97] fix: confidence interval SQL of a comparison with
 renamed dimensions keeps only the base values

---
 operations.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/operations.py b/operations.py
index 1ea0f41..fa8dd52 100644
--- a/operations.py
+++ b/operations.py
@@ -2267,7 +2267,8 @@ class MetricWithCI(Operation):
         )
         columns.add(
             sql.Column(f'{base_alias}.{c.alias}', alias=c.alias_raw)
-            for c in base.columns.difference(indexes)
+            for c in base.columns
+            if c not in indexes.aliases
         )
 
     join = 'LEFT' if using else 'CROSS'
-- 
2.43.0


From b49e6b52583a069448cc8d15079f5b5eca1e173f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:47 +0000
Subject: [PATCH 60/97] fix: mixed mode bootstrap computes the child on one set
 of resamples

---
 operations.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/operations.py b/operations.py
index fa8dd52..1efc033 100644
--- a/operations.py
+++ b/operations.py
@@ -2764,6 +2764,9 @@ class Bootstrap(MetricWithCI):
   ):
     """Compute the children on resampled data in SQL."""
     batch_size = batch_size or 1000
+    # Each query draws its own resamples so all parts of the child need to be
+    # computed in one query whenever possible.
+    mode = None if mode == 'mixed' else mode
     global_filter = utils.get_global_filter(self)
     util_metric = copy.deepcopy(self)
     util_metric.n_replicates = batch_size
-- 
2.43.0


From 6870de43a6fa51372d5760b8fac6f62e68b3ec1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:38 +0000
Subject: [PATCH 61/97] fix: batches of PoissonBootstrap by unit in mixed mode
 are different resamples

---
 operations.py | 39 ++++++++++++++++-----------------------
 1 file changed, 16 insertions(+), 23 deletions(-)

diff --git a/operations.py b/operations.py
index 1efc033..48570af 100644
--- a/operations.py
+++ b/operations.py
@@ -2769,38 +2769,23 @@ class Bootstrap(MetricWithCI):
     mode = None if mode == 'mixed' else mode
     global_filter = utils.get_global_filter(self)
     util_metric = copy.deepcopy(self)
-    util_metric.n_replicates = batch_size
     util_metric.confidence = None
     with_data = sql.Datasources()
     if not sql.Datasource(table).is_table:
       table = with_data.add(sql.Datasource(table, 'BootstrapData'))
-    with_data2 = copy.deepcopy(with_data)
-    _, with_data = util_metric.get_resampled_data_sql(
-        table,
-        sql.Columns(split_by),
-        global_filter,
-        None,
-        with_data,
-    )
-    resampled = with_data.children.popitem()[1]
-    resampled.with_data = with_data
     replicates = []
-    for _ in range(self.n_replicates // batch_size):
-      bst = self.children[0].compute_on_sql(
-          resampled, ['meterstick_resample_idx'] + split_by, execute, True, mode
-      )
-      replicates.append(bst.unstack('meterstick_resample_idx'))
-    util_metric.n_replicates = self.n_replicates % batch_size
-    if util_metric.n_replicates:
-      _, with_data2 = util_metric.get_resampled_data_sql(
+    for i in range(0, self.n_replicates, batch_size):
+      util_metric.n_replicates = min(batch_size, self.n_replicates - i)
+      util_metric.first_resample_idx = i + 1
+      _, batch_data = util_metric.get_resampled_data_sql(
           table,
           sql.Columns(split_by),
           global_filter,
           None,
-          with_data2,
+          copy.deepcopy(with_data),
       )
-      resampled = with_data2.children.popitem()[1]
-      resampled.with_data = with_data2
+      resampled = batch_data.children.popitem()[1]
+      resampled.with_data = batch_data
       bst = self.children[0].compute_on_sql(
           resampled, ['meterstick_resample_idx'] + split_by, execute, True, mode
       )
@@ -2840,6 +2825,10 @@ class PoissonBootstrap(Bootstrap):
   for an introduction.
   """
 
+  # The weights of units are hashed from the resample_idx in SQL so batches need
+  # to start from different ones.
+  first_resample_idx = 1
+
   def __init__(
       self,
       unit: Optional[Text] = None,
@@ -3087,7 +3076,11 @@ class PoissonBootstrap(Bootstrap):
       )
     uniform_columns.add(uniform_var)
     replicates = sql.Datasource(
-        'UNNEST(GENERATE_ARRAY(1, %s))' % self.n_replicates,
+        'UNNEST(GENERATE_ARRAY(%s, %s))'
+        % (
+            self.first_resample_idx,
+            self.first_resample_idx + self.n_replicates - 1,
+        ),
         'meterstick_resample_idx',
     )
     table_with_uniform_var = sql.Sql(
-- 
2.43.0


From d0949dcde4e9e320d5ce98f15dc05e9cf9cacedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:55 +0000
Subject: [PATCH 62/97] fix: PoissonBootstrap SQL draws units whose names are
 prefixes of each other separately

---
 operations.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/operations.py b/operations.py
index 48570af..6f74b82 100644
--- a/operations.py
+++ b/operations.py
@@ -3064,7 +3064,9 @@ class PoissonBootstrap(Bootstrap):
         else split_by.original_columns
     )
     if self.unit:
-      cols = ', '.join(
+      # The separator keeps, for example, resample 11 of unit 1 and resample 1
+      # of unit 11 apart.
+      cols = ", '_', ".join(
           map(
               'CAST({} AS STRING)'.format,
               (split_by_cols or []) + [self.unit, 'meterstick_resample_idx'],
-- 
2.43.0


From 8ac1cdc8bb93abbab532834a0635b8effe8c30bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:14 +0000
Subject: [PATCH 63/97] fix: bootstrap SQL of quoted units and dimensions

---
 operations.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/operations.py b/operations.py
index 6f74b82..b59875f 100644
--- a/operations.py
+++ b/operations.py
@@ -3681,7 +3681,7 @@ def bootstrap_by_row(
       alias='meterstick_bs_random_row_number',
   )
   columns.add((row_number, random_row_number))
-  columns.add((i for i in split_by if i != i.alias))
+  columns.add((i for i in split_by if i.expression.strip('`') != i.alias))
   replicates = sql.Datasource(
       'UNNEST(GENERATE_ARRAY(1, %s))' % metric.n_replicates,
       'meterstick_resample_idx',
@@ -3763,7 +3763,7 @@ def bootstrap_by_unit(metric, table, split_by, global_filter, with_data):
       columns.aliases,
   )
 
-  renamed = [i for i in sql.Columns(split_by).add(metric.unit) if i != i.alias]
+  renamed = [i for i in columns if i.expression.strip('`') != i.alias]
   if renamed:
     table = sql.Sql(
         sql.Columns(sql.Column('*', auto_alias=False)).add(renamed),
@@ -3775,7 +3775,7 @@ def bootstrap_by_unit(metric, table, split_by, global_filter, with_data):
           resampled_grps,
           table,
           join='LEFT',
-          using=sql.Columns(split_by.aliases).add(metric.unit)),
+          using=sql.Columns(columns.aliases)),
       where=global_filter)
   bs_data = sql.Datasource(bs_data, 'BootstrapResampledData')
   table = with_data.add(bs_data)
-- 
2.43.0


From 6a452700ceedee9d395db1607116cdf50eb2b182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:35 +0000
Subject: [PATCH 64/97] fix: auxiliary columns that combine an expression with
 itself

---
 utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/utils.py b/utils.py
index 8511607..f1d203f 100644
--- a/utils.py
+++ b/utils.py
@@ -695,7 +695,9 @@ def parse_auxiliary_col(auxiliary_col, df: Optional[pd.DataFrame] = None):
     operands.append((name, res))
   (name0, col0), (name1, col1) = operands
   if fn in ('+', '*'):
-    (name0, col0), (name1, col1) = sorted(((name0, col0), (name1, col1)))
+    (name0, col0), (name1, col1) = sorted(
+        ((name0, col0), (name1, col1)), key=lambda x: x[0]
+    )
   if callable(fn):
     name = 'lambda'
     res = fn(col0, col1) if df is not None else None
-- 
2.43.0


From e31fadbad1f284140f4b6764c1e0a30f6d117c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:50 +0000
Subject: [PATCH 65/97] fix: different auxiliary columns whose names coincide
 are kept apart

---
 utils.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/utils.py b/utils.py
index f1d203f..1276fde 100644
--- a/utils.py
+++ b/utils.py
@@ -653,9 +653,11 @@ def add_auxiliary_cols(auxiliary_cols,
     name, res = parse_auxiliary_col(c, df)
     name = prefix + name
     if df is not None:
-      if name == prefix + 'lambda':
-        while name in df:
-          name += '_'
+      if not isinstance(res, pd.Series):
+        res = pd.Series(res, df.index)
+      # Different columns, for example those from functions, can share a name.
+      while name in df and not df[name].equals(res):
+        name += '_'
       if name not in df:
         df[name] = res
     auxiliary_col_names.append(name)
-- 
2.43.0


From b5ada19bf7f69d2823b11f67a7b3b990c447bca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:56 +0000
Subject: [PATCH 66/97] fix: keep the name given to a model that is applied on
 a MetricList

---
 models.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/models.py b/models.py
index 7ad48b4..2518654 100644
--- a/models.py
+++ b/models.py
@@ -85,6 +85,7 @@ class Model(operations.Operation):
     self.model = model
     self.k = operations.count_features(x)
     self.model_name = model_name
+    self.name_given = bool(name)
     if not name and x and y:
       x_names = (
           [m.name for m in x] if isinstance(x, metrics.MetricList) else [x.name]
@@ -179,6 +180,8 @@ class Model(operations.Operation):
     model.y = child[0]
     model.x = metrics.MetricList(child[1:])
     model.k = operations.count_features(model.x)
+    if model.name_given:
+      return model
     x_names = [m.name for m in model.x]
     model.name = '%s(%s ~ %s)' % (
         model.model_name,
-- 
2.43.0


From 92eaea6d064b2c6ca90d2c65f2d9f83797b4eddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:38 +0000
Subject: [PATCH 67/97] fix: use the real eigenvalues of X'X for the step sizes
 of FISTA

---
 models.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/models.py b/models.py
index 2518654..846244e 100644
--- a/models.py
+++ b/models.py
@@ -881,7 +881,7 @@ def fista_for_elastic_net(
   # If we just use 1, depending on how a float is stored, maybe the step_size
   # will be slightly larger than the max allowed? I don't know if it will ever
   # happen but to be safe I use 1 - 1e-6.
-  step_size = (1 - 1e-6) / np.linalg.eigvals(x_t_x).max()
+  step_size = (1 - 1e-6) / np.linalg.eigvalsh(x_t_x).max()
   k = l2 * step_size + 1
   threshold = l1 * step_size / k
 
@@ -1325,7 +1325,7 @@ def fista_for_logistic_regression(
     # If we just use 4, depending on how a float is stored, maybe the step_size
     # will be slightly larger than the max allowed? I don't know if it will ever
     # happen but to be safe I use 3.999999.
-    return 3.999999 / np.linalg.eigvals(x_t_x).max()
+    return 3.999999 / np.linalg.eigvalsh(x_t_x).max()
 
   if not split_by:
     step_size = np.array([get_step_size(sufficient_stats)])
-- 
2.43.0


From ba09f5b814c232d2e00c60f1ca08f7be61974b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:28 +0000
Subject: [PATCH 68/97] fix: slices of strings and dates are quoted when
 fitting LogisticRegression in SQL

---
 models.py     | 2 +-
 operations.py | 9 +++++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/models.py b/models.py
index 846244e..e51ed0f 100644
--- a/models.py
+++ b/models.py
@@ -1136,7 +1136,7 @@ class LogisticRegression(Model):
         for cond, slice_coef, done in zip(conds, coef, converged):
           if not done:
             condition = [
-                f'{c} = "{v}"' if isinstance(v, str) else f'{c} = {v}'
+                f'{c} = {operations.format_literal(v)}'
                 for c, v in zip(split_cols, cond)
             ]
             condition = ' AND '.join(condition)
diff --git a/operations.py b/operations.py
index b59875f..77a1567 100644
--- a/operations.py
+++ b/operations.py
@@ -416,6 +416,15 @@ def _format_to_condition(val):
   return '%s' % val
 
 
+def format_literal(val):
+  """Formats a value as a SQL literal."""
+  if isinstance(val, np.datetime64):
+    val = pd.Timestamp(val)
+  if isinstance(val, (str, datetime.date)):
+    return _format_string(str(val))
+  return '%s' % val
+
+
 def _format_string(val):
   """Formats a string as a SQL literal."""
   for raw, escaped in (('\\', '\\\\'), ('"', '\\"'), ('\n', '\\n')):
-- 
2.43.0


From eca20c7d4fd4ec22787e9a494c46b7e440ed6adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:28 +0000
Subject: [PATCH 69/97] fix: Lasso and ElasticNet respect `positive` in the
 magic mode

---
 models.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/models.py b/models.py
index e51ed0f..4653776 100644
--- a/models.py
+++ b/models.py
@@ -674,6 +674,7 @@ class Lasso(Model):
         ['alpha', 'tol', 'max_iter', 'random_state'],
     )
     self.alpha = alpha
+    self.positive = positive
     self.tol = tol
     self.max_iter = max_iter
     self.random_state = random_state
@@ -691,6 +692,7 @@ class Lasso(Model):
         self.name,
         tol=self.tol,
         max_iter=self.max_iter,
+        positive=self.positive,
     ).compute_on_sql_magic_mode(table, split_by, execute)
 
 
@@ -745,6 +747,7 @@ class ElasticNet(Model):
         ['alpha', 'tol', 'max_iter', 'l1_ratio', 'random_state'],
     )
     self.alpha = alpha
+    self.positive = positive
     self.tol = tol
     self.max_iter = max_iter
     self.l1_ratio = l1_ratio
@@ -773,6 +776,7 @@ class ElasticNet(Model):
         self.fit_intercept,
         self.tol,
         self.max_iter,
+        self.positive,
     )
     if self.fit_intercept and self.normalize:
       coef = compute_normalized_coef(coef, norms, avgs, split_by)
@@ -783,7 +787,14 @@ class ElasticNet(Model):
 
 
 def compute_coef_for_elastic_net(
-    sufficient_stats_elements, xs, l1, l2, fit_intercept, tol, max_iter
+    sufficient_stats_elements,
+    xs,
+    l1,
+    l2,
+    fit_intercept,
+    tol,
+    max_iter,
+    positive=False,
 ):
   """Computes the coefficients for ElasticNet. Lasso is just a special case."""
   if fit_intercept:
@@ -795,7 +806,7 @@ def compute_coef_for_elastic_net(
   )
   init_guess = np.random.random(*x_t_y.shape)
   coef = fista_for_elastic_net(
-      init_guess, l1, l2, x_t_x, x_t_y, tol, max_iter, fit_intercept
+      init_guess, l1, l2, x_t_x, x_t_y, tol, max_iter, fit_intercept, positive
   )
   columns = list(xs.aliases)
   if fit_intercept:
@@ -842,7 +853,7 @@ def center_x(sufficient_stats_elements, n):
 
 
 def fista_for_elastic_net(
-    coef, l1, l2, x_t_x, x_t_y, tol, max_iter, fit_intercept
+    coef, l1, l2, x_t_x, x_t_y, tol, max_iter, fit_intercept, positive=False
 ):
   """Applies FISTA algorithm to elastic net.
 
@@ -873,6 +884,7 @@ def fista_for_elastic_net(
     tol: The tolerance for the optimization.
     max_iter: The maximum number of iterations.
     fit_intercept: If the coefficients include an intercept.
+    positive: If the coefficients, except for the intercept, must be positive.
 
   Returns:
     The converged coef, namely, the coefficients of the model.
@@ -893,6 +905,9 @@ def fista_for_elastic_net(
       coef[1:] = soft_thresholding(coef[1:] / k, threshold)
     else:
       coef = soft_thresholding(coef / k, threshold)
+    if positive:
+      start = 1 if fit_intercept else 0
+      coef[start:] = np.maximum(coef[start:], 0)
     delta = coef - coef_old
     if abs(delta).sum() < tol:
       return coef
-- 
2.43.0


From 5747de1c1e6784da1e49794835a5e99074889d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:52 +0000
Subject: [PATCH 70/97] fix: fit LogisticRegression in the magic mode from
 zero, where Newton's method does not overshoot

---
 models.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/models.py b/models.py
index 4653776..79bb0e3 100644
--- a/models.py
+++ b/models.py
@@ -1262,8 +1262,9 @@ class LogisticRegression(Model):
           self.fit_intercept,
       )
     else:
+      # Newton's method may overshoot and diverge from a random point.
       res = newtons_method(
-          init_guess, grads, hess, self.tol, self.max_iter, conds
+          np.zeros_like(init_guess), grads, hess, self.tol, self.max_iter, conds
       )
 
     xs = [x.alias_raw for x in xs_cols]
-- 
2.43.0


From ab58957f091875c044b14372032684915d02a138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:16 +0000
Subject: [PATCH 71/97] fix: FISTA only stops at a fixed point

---
 models.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/models.py b/models.py
index 79bb0e3..7535513 100644
--- a/models.py
+++ b/models.py
@@ -909,7 +909,8 @@ def fista_for_elastic_net(
       start = 1 if fit_intercept else 0
       coef[start:] = np.maximum(coef[start:], 0)
     delta = coef - coef_old
-    if abs(delta).sum() < tol:
+    # delta also vanishes when momentum takes v off and coef is clipped to 0.
+    if abs(delta).sum() < tol and abs(coef - v).sum() < tol:
       return coef
   print("WARNING: Lasso/ElasticNet didn't converge! Try increasing `max_iter`.")
   return coef
@@ -1386,7 +1387,10 @@ def fista_for_logistic_regression(
           coef[pending] / k[pending], threshold[pending]
       )
     delta[pending] = coef[pending] - coef_old[pending]
-    converged[pending] = abs(delta[pending]).max(1) < tol
+    # delta also vanishes when momentum takes v off and coef is clipped to 0.
+    converged[pending] = (abs(delta[pending]).max(1) < tol) & (
+        abs(coef[pending] - v[pending]).max(1) < tol
+    )
     if all(converged):
       return coef
   if n_slice == 1:
-- 
2.43.0


From 45f9e5ac17e6099f5613df023aa13bb66233407f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:31 +0000
Subject: [PATCH 72/97] fix: a jackknife or bootstrap used once in SQL can be a
 part of another metric

---
 operations.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/operations.py b/operations.py
index 77a1567..c42e43f 100644
--- a/operations.py
+++ b/operations.py
@@ -2126,6 +2126,14 @@ class MetricWithCI(Operation):
     split_by = [split_by] if isinstance(split_by, str) else list(split_by or [])
     # If self is not root, this function won't be called.
     self._is_root_node = True
+    try:
+      return self.to_sql_as_root(table, split_by)
+    finally:
+      # self might be a part of another Metric next time.
+      self._is_root_node = None
+
+  def to_sql_as_root(self, table, split_by):
+    """Generates SQL query when self is the root Metric."""
     if self.has_been_preaggregated or not self.can_precompute():
       if not self.where:
         return super(MetricWithCI, self).to_sql(table, split_by)
-- 
2.43.0


From ec02952b8eb902456f4d3cd534dd86ea748ca1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:15 +0000
Subject: [PATCH 73/97] fix: a renamed MetricList is renamed in SQL also when
 its children share one query

---
 metrics.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/metrics.py b/metrics.py
index 9556060..f2648e0 100644
--- a/metrics.py
+++ b/metrics.py
@@ -1350,6 +1350,7 @@ class MetricList(Metric):
       for c in res.columns:
         if c not in indexes:
           c.alias_raw = name_tmpl.format(c.alias_raw)
+      self.rename_sql_columns([c for c in res.columns if c not in indexes])
       return res, with_data
 
     columns = sql.Columns(indexes.aliases)
@@ -1381,17 +1382,20 @@ class MetricList(Metric):
           )
 
     query = sql.Sql(columns, from_data)
-    if self.columns:
-      columns = query.columns[len(indexes):]
-      if len(columns) != len(self.columns):
-        raise ValueError(
-            'rename_columns has length %s but there are %s columns in '
-            'the result!' % (len(self.columns), len(columns)))
-      for col, rename in zip(columns, self.columns):
-        col.set_alias(rename)  # Modify in-place.
-
+    self.rename_sql_columns(query.columns[len(indexes):])
     return query, with_data
 
+  def rename_sql_columns(self, columns):
+    """Renames the value columns of the query in-place if asked."""
+    if not self.columns:
+      return
+    if len(columns) != len(self.columns):
+      raise ValueError(
+          'rename_columns has length %s but there are %s columns in '
+          'the result!' % (len(self.columns), len(columns)))
+    for col, rename in zip(columns, self.columns):
+      col.set_alias(rename)
+
   def __iter__(self):
     for m in self.children:
       yield m
-- 
2.43.0


From c8a6632e2cc5a5685780e6bb4c64d8511ae9cc71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:37 +0000
Subject: [PATCH 74/97] fix: a MetricList with same-named members can be
 renamed in the long format too

---
 metrics.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/metrics.py b/metrics.py
index f2648e0..5fdc0c7 100644
--- a/metrics.py
+++ b/metrics.py
@@ -1189,22 +1189,18 @@ class MetricList(Metric):
   ):
     """Rename columns if asked in addition to original manipulation."""
     res = super(MetricList, self).manipulate(
-        res, melted, return_dataframe, apply_name_tmpl
+        res, False, return_dataframe, apply_name_tmpl
     )
     if not isinstance(res, pd.DataFrame):
       return res
     if self.columns:
-      if melted:
-        res = utils.unmelt(res)
       if len(res.columns) != len(self.columns):
         raise ValueError(
             'rename_columns has length %s but there are %s columns in '
             'the result!' % (len(self.columns), len(res.columns))
         )
       res.columns = self.columns
-      if melted:
-        res = utils.melt(res)
-    return res
+    return utils.remove_empty_level(utils.melt(res)) if melted else res
 
   def to_dataframe(self, res):
     if not isinstance(res, (list, tuple)):
-- 
2.43.0


From 7eb685fbda73306da97b2a7e5ff324e0f37f2c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:46 +0000
Subject: [PATCH 75/97] fix: the names of an arithmetic on a list in SQL don't
 depend on what its query was merged with

---
 metrics.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/metrics.py b/metrics.py
index 5fdc0c7..00ad0ae 100644
--- a/metrics.py
+++ b/metrics.py
@@ -1653,19 +1653,23 @@ class CompositeMetric(Metric):
       # If incompatible, add both queries to with_data and SELECT from the JOIN
       # of both.
       else:
+        # The aliases might change in the merge but the names shouldn't.
+        names0 = [c.alias_raw for c in val_cols0]
+        names1 = [c.alias_raw for c in val_cols1]
         tbl0 = with_data.merge(sql.Datasource(query0, 'CompositeMetricTable0'))
         tbl1 = with_data.merge(sql.Datasource(query1, 'CompositeMetricTable1'))
         join = 'FULL' if using else 'CROSS'
         from_data = sql.Join(tbl0, tbl1, join=join, using=using)
         columns = sql.Columns(idx_aliases)
-        col0_col1 = zip(itertools.cycle(val_cols0), val_cols1)
+        cols0, cols1 = list(zip(val_cols0, names0)), list(zip(val_cols1, names1))
+        col0_col1 = zip(itertools.cycle(cols0), cols1)
         if len(val_cols1) == 1:
-          col0_col1 = zip(val_cols0, itertools.cycle(val_cols1))
-        for c0, c1 in col0_col1:
+          col0_col1 = zip(cols0, itertools.cycle(cols1))
+        for (c0, name0), (c1, name1) in col0_col1:
           if c0.alias not in idx_aliases:
             col = op(
-                sql.Column('%s.%s' % (tbl0, c0.alias), alias=c0.alias_raw),
-                sql.Column('%s.%s' % (tbl1, c1.alias), alias=c1.alias_raw))
+                sql.Column('%s.%s' % (tbl0, c0.alias), alias=name0),
+                sql.Column('%s.%s' % (tbl1, c1.alias), alias=name1))
             columns.add(col)
         query = sql.Sql(columns, from_data)
 
-- 
2.43.0


From 6a4b99b9d3aa0594d6ea3ac34e54dc0a9bf592d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:44 +0000
Subject: [PATCH 76/97] fix: SQL of the arithmetic of a several-column
 operation and a one-column one keeps all the columns

---
 metrics.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/metrics.py b/metrics.py
index 00ad0ae..3b70a70 100644
--- a/metrics.py
+++ b/metrics.py
@@ -1638,16 +1638,15 @@ class CompositeMetric(Metric):
       compatible = sql.is_compatible(query0, query1)
       # If two queries are compatible, merge them into one.
       if compatible and has_same_idx:
-        col0_col1 = zip(itertools.cycle(query0.columns), query1.columns)
-        if len(query1.columns) == 1:
-          col0_col1 = zip(query0.columns, itertools.cycle(query1.columns))
-        columns = sql.Columns()
+        col0_col1 = zip(itertools.cycle(val_cols0), val_cols1)
+        if len(val_cols1) == 1:
+          col0_col1 = zip(val_cols0, itertools.cycle(val_cols1))
+        columns = sql.Columns(
+            [c for c in query0.columns if c.alias in idx_aliases]
+        )
         for c0, c1 in col0_col1:
-          if c0.alias in idx_aliases:
-            columns.add(c0)
-          else:
-            alias = self.name_tmpl.format(c0.alias_raw, c1.alias_raw)
-            columns.add(op(c0, c1).set_alias(alias))
+          alias = self.name_tmpl.format(c0.alias_raw, c1.alias_raw)
+          columns.add(op(c0, c1).set_alias(alias))
         query = copy.deepcopy(query0)
         query.columns = columns
       # If incompatible, add both queries to with_data and SELECT from the JOIN
-- 
2.43.0


From 5c2d2ee5a8b44613f8de18aca3f71319d4d9bb6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:23 +0000
Subject: [PATCH 77/97] fix: jackknife and bootstrap do not take the shortcuts
 of Sum and Count for their subclasses

---
 operations.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/operations.py b/operations.py
index c42e43f..4ed8061 100644
--- a/operations.py
+++ b/operations.py
@@ -2641,7 +2641,8 @@ def is_metric_precomputable(metric: MetricWithCI) -> bool:
       precomputable_leaf_types = tuple(
           list(precomputable_leaf_types) + [metrics.Max, metrics.Min]
       )
-    if isinstance(m, precomputable_leaf_types):
+    # Subclasses might compute something else.
+    if type(m) in precomputable_leaf_types:
       continue
     if not m.children:
       equiv, _ = utils.get_equivalent_metric(m)
-- 
2.43.0


From 81c9471992b7865136c592c530108a800214ef5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:25 +0000
Subject: [PATCH 78/97] fix: jackknife and bootstrap do not replace subclasses
 of built-in metrics that change the computation

---
 metrics.py    | 23 +++++++++++++++++++++++
 operations.py |  2 ++
 2 files changed, 25 insertions(+)

diff --git a/metrics.py b/metrics.py
index 3b70a70..ea28858 100644
--- a/metrics.py
+++ b/metrics.py
@@ -901,6 +901,29 @@ class Metric(object):
     del auxiliary_cols  # might be used in derived classes
     return
 
+  def is_computed_as_equivalent(self):
+    """If get_equivalent_without_filter() applies to the class of self.
+
+    A derived class that changes the computation but doesn't come with its own
+    get_equivalent_without_filter() might compute something else.
+    """
+    computation = (
+        'compute_through',
+        'precompute',
+        'compute_slices',
+        'split_data',
+        'compute_with_split_by',
+        'compute',
+        'postcompute',
+        'final_compute',
+    )
+    for cls in type(self).__mro__:
+      if 'get_equivalent_without_filter' in vars(cls):
+        return True
+      if any(method in vars(cls) for method in computation):
+        return False
+    return True
+
   def get_auxiliary_cols(self):
     """Returns the auxiliary columns required by the equivalent Metric.
 
diff --git a/operations.py b/operations.py
index 4ed8061..9d25918 100644
--- a/operations.py
+++ b/operations.py
@@ -2645,6 +2645,8 @@ def is_metric_precomputable(metric: MetricWithCI) -> bool:
     if type(m) in precomputable_leaf_types:
       continue
     if not m.children:
+      if not m.is_computed_as_equivalent():
+        return False
       equiv, _ = utils.get_equivalent_metric(m)
       if not equiv:
         return False
-- 
2.43.0


From a79caedd9940a6a0732de138da3ecd2ce33ad97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:31 +0000
Subject: [PATCH 79/97] fix: subclasses of built-in metrics don't share cached
 results with what the built-ins are equivalent to

Dot, Correlation and Cov ignore the order of their variables, Sum / Count is cached as Mean and Ratio as Sum / Sum. Subclasses may compute differently. Also, for those not cached across instances, the fingerprint had the id of a temporary copy, so the results were never found in the cache, or another metric's were.
---
 metrics.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/metrics.py b/metrics.py
index ea28858..277f7c7 100644
--- a/metrics.py
+++ b/metrics.py
@@ -1711,11 +1711,13 @@ class CompositeMetric(Metric):
     # Make Sum(x) / Count(x) indistinguishable to Mean(x) in cache.
     s = self.children[0]
     c = self.children[1]
+    # Subclasses might compute differently so they are always on their own.
     if (
-        self.name_tmpl == '{} / {}'
+        type(self) is CompositeMetric  # pylint: disable=unidiomatic-typecheck
+        and self.name_tmpl == '{} / {}'
         and self.columns is None
-        and isinstance(s, Sum)
-        and isinstance(c, Count)
+        and type(s) is Sum  # pylint: disable=unidiomatic-typecheck
+        and type(c) is Count  # pylint: disable=unidiomatic-typecheck
         and s.var == c.var
         and not s.where
         and not c.where
@@ -1742,6 +1744,8 @@ class Ratio(CompositeMetric):
     self.name = name or self.name
 
   def get_fingerprint(self, attr_to_exclude=()):
+    if type(self) is not Ratio:  # pylint: disable=unidiomatic-typecheck
+      return super(Ratio, self).get_fingerprint(attr_to_exclude)
     # Make the fingerprint same as the equivalent CompositeMetric for caching.
     util = self.children[0] / self.children[1]
     util.where = self.where_  # pytype: disable=not-writable
@@ -1895,7 +1899,8 @@ class Dot(SimpleMetric):
     return sql.Column(operands, tmpl, self.name, local_filter)
 
   def get_fingerprint(self, attr_to_exclude=()):
-    if str(self.var) > str(self.var2):
+    # The order doesn't matter to us but might do to subclasses.
+    if type(self) is Dot and str(self.var) > str(self.var2):  # pylint: disable=unidiomatic-typecheck
       util = copy.deepcopy(self)
       util.var = self.var2
       util.var2 = self.var
@@ -2621,7 +2626,8 @@ class Correlation(SimpleMetric):
                       local_filter)
 
   def get_fingerprint(self, attr_to_exclude=()):
-    if str(self.var) > str(self.var2):
+    # The order doesn't matter to us but might do to subclasses.
+    if type(self) is Correlation and str(self.var) > str(self.var2):  # pylint: disable=unidiomatic-typecheck
       util = copy.deepcopy(self)
       util.var = self.var2
       util.var2 = self.var
@@ -2739,7 +2745,8 @@ class Cov(SimpleMetric):
     return
 
   def get_fingerprint(self, attr_to_exclude=()):
-    if str(self.var) > str(self.var2):
+    # The order doesn't matter to us but might do to subclasses.
+    if type(self) is Cov and str(self.var) > str(self.var2):  # pylint: disable=unidiomatic-typecheck
       util = copy.deepcopy(self)
       util.var = self.var2
       util.var2 = self.var
-- 
2.43.0


From 813017b13b0365f5b57eb41678fa531ad500b666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:32 +0000
Subject: [PATCH 80/97] fix: mixed mode jackknife and bootstrap of data too
 sparse for any resample report a missing error instead of failing

---
 operations.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/operations.py b/operations.py
index 9d25918..0863188 100644
--- a/operations.py
+++ b/operations.py
@@ -2099,9 +2099,12 @@ class MetricWithCI(Operation):
     replicates = self.compute_children_sql(
         table, split_by, execute, mode, batch_size
     )
-    std = self.compute_on_children(replicates, split_by)
     point_est = self.compute_child_sql(
         table, split_by, execute, True, mode=mode)
+    if not any(len(r) for r in replicates):
+      # The data is too sparse for any resample to have a result.
+      replicates = [point_est * np.nan]
+    std = self.compute_on_children(replicates, split_by)
     res = point_est.join(utils.melt(std))
     if self.confidence:
       res[self.prefix +
-- 
2.43.0


From 0109a0e74c3439b82f8b5e098cdbf40350ff16b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:45 +0000
Subject: [PATCH 81/97] fix: a user-defined compute_ci() is used in SQL too

---
 operations.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/operations.py b/operations.py
index 0863188..e937641 100644
--- a/operations.py
+++ b/operations.py
@@ -2070,16 +2070,15 @@ class MetricWithCI(Operation):
       ci_lower = self.prefix + ' CI-lower'
       ci_upper = self.prefix + ' CI-upper'
       for i in range(0, len(res.columns), 3):
-        pt_est = res.iloc[:, i]
         half_width = self.get_ci_width(res.iloc[:, i + 1], res.iloc[:, i + 2])
         sub_df = pd.DataFrame(
             {
                 'Value': res.iloc[:, i],
-                ci_lower: pt_est - half_width[0],
-                ci_upper: pt_est + half_width[1]
+                ci_lower: half_width[0],
+                ci_upper: half_width[1]
             },
             columns=['Value', ci_lower, ci_upper])
-        sub_dfs.append(sub_df)
+        sub_dfs.append(self.compute_ci(sub_df))
     else:
       if len(res.columns) % 2:
         raise ValueError('Wrong shape for a MetricWithCI!')
@@ -2107,9 +2106,7 @@ class MetricWithCI(Operation):
     std = self.compute_on_children(replicates, split_by)
     res = point_est.join(utils.melt(std))
     if self.confidence:
-      res[self.prefix +
-          ' CI-lower'] = res.iloc[:, 0] - res[self.prefix + ' CI-lower']
-      res[self.prefix + ' CI-upper'] += res.iloc[:, 0]
+      res = self.compute_ci(res)
     res = utils.unmelt(res)
     base = self.compute_change_base(table, split_by, execute, mode)
     return self.add_base_to_res(res, base)
-- 
2.43.0


From 081080caf911b7733f2c677b38fcf875d56da5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:11 +0000
Subject: [PATCH 82/97] fix: metrics computed slice by slice have an empty
 result when no slice is left, instead of failing

---
 metrics.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metrics.py b/metrics.py
index 277f7c7..4d748ec 100644
--- a/metrics.py
+++ b/metrics.py
@@ -527,6 +527,10 @@ class Metric(object):
           slices.append(slice_i)
         finally:
           self.cache_key = cache_key
+      if not result:  # No row is left, for example, after filtering.
+        ind = pd.MultiIndex.from_tuples([], names=split_by)
+        ind = ind.get_level_values(0) if len(split_by) == 1 else ind
+        return pd.Series([], index=ind, dtype=float)
       if isinstance(result[0], (pd.Series, pd.DataFrame)):
         try:
           return pd.concat(result, keys=slices, names=split_by, sort=False)
-- 
2.43.0


From d7e14bfc439b1d47dc41a4414e43949588447f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:33 +0000
Subject: [PATCH 83/97] fix: grouped Quantile on no rows has its own columns,
 not the input's or none

---
 metrics.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/metrics.py b/metrics.py
index 4d748ec..b4ef287 100644
--- a/metrics.py
+++ b/metrics.py
@@ -2225,6 +2225,8 @@ class Quantile(SimpleMetric):
           - 0.5 * aggregated_weight
       )
       weighted_quantiles /= self.group(aggregated_weight, split_by).sum()
+      if split_by and weighted_quantiles.empty:
+        return self.get_empty_result(self.group(aggregated_weight, split_by))
       if split_by:
         weighted_quantiles = weighted_quantiles.reset_index(self.var)
         return self.group(weighted_quantiles, split_by).apply(interp)
@@ -2232,6 +2234,8 @@ class Quantile(SimpleMetric):
         weighted_quantiles = weighted_quantiles.to_frame().reset_index()
         return interp(weighted_quantiles)
 
+    if split_by and df.empty:
+      return self.get_empty_result(self.group(df, split_by)[self.var])
     res = self.group(df, split_by)[self.var].quantile(
         self.quantile, interpolation=self.interpolation)
     if self.one_quantile:
@@ -2244,6 +2248,14 @@ class Quantile(SimpleMetric):
     res.columns = [self.name_tmpl.format(self.var, c[0]) for c in res]
     return res
 
+  def get_empty_result(self, grouped):
+    """The result when there is no slice. apply() would lose the columns."""
+    res = grouped.sum()
+    if self.one_quantile:
+      return res
+    return pd.DataFrame(
+        {self.name_tmpl.format(self.var, q): res for q in self.quantile})
+
   def get_sql_columns(self, local_filter):
     """Get SQL columns."""
     if self.weight:
-- 
2.43.0


From a448387b70e973c705bdee80368f73c28b94dac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:21 +0000
Subject: [PATCH 84/97] fix: Distribution and CumulativeDistribution use their
 name_tmpl in SQL too

---
 diversity.py  | 18 +++++++++++-------
 operations.py | 40 ++++++++++++++++++++++++++++++++++------
 2 files changed, 45 insertions(+), 13 deletions(-)

diff --git a/diversity.py b/diversity.py
index 90bd2d6..f19fa95 100644
--- a/diversity.py
+++ b/diversity.py
@@ -39,14 +39,18 @@ class DiversityBase(operations.Distribution):
       self, table, split_by, global_filter, indexes, local_filter, with_data
   ):
     dist_indexes = sql.Columns(indexes).add(self.extra_split_by)
-    dist_sql, with_data = super(DiversityBase, self).get_sql_and_with_clause(
-        table, split_by, global_filter, dist_indexes, local_filter, with_data
+    local_filter = (
+        sql.Filters(self.where_).add(local_filter).remove(global_filter)
+    )
+    dist_sql, with_data = self.get_distribution_sql_and_with_clause(
+        table,
+        split_by,
+        global_filter,
+        dist_indexes,
+        local_filter,
+        with_data,
+        '{}',
     )
-    # Remove 'Distribution of ' in column names.
-    for c in dist_sql.columns:
-      alias = c.alias_raw
-      if alias.startswith('Distribution of '):
-        c.set_alias(alias[len('Distribution of ') :])
     child_table = sql.Datasource(dist_sql, 'Distribution')
     child_table_alias = with_data.merge(child_table)
     return child_table_alias, dist_sql.columns, with_data
diff --git a/operations.py b/operations.py
index e937641..404e0b8 100644
--- a/operations.py
+++ b/operations.py
@@ -253,6 +253,27 @@ class Distribution(Operation):
     local_filter = (
         sql.Filters(self.where_).add(local_filter).remove(global_filter)
     )
+    return self.get_distribution_sql_and_with_clause(
+        table,
+        split_by,
+        global_filter,
+        indexes,
+        local_filter,
+        with_data,
+        self.name_tmpl,
+    )
+
+  def get_distribution_sql_and_with_clause(
+      self,
+      table,
+      split_by,
+      global_filter,
+      indexes,
+      local_filter,
+      with_data,
+      name_tmpl,
+  ):
+    """Gets the query for the distribution whose columns follow name_tmpl."""
     all_split_by = sql.Columns(split_by).add(self.extra_split_by)
     child_sql, with_data = self.children[0].get_sql_and_with_clause(
         table, all_split_by, global_filter, indexes, local_filter, with_data)
@@ -267,7 +288,7 @@ class Distribution(Operation):
       col = sql.Column(c.alias) / sql.Column(
           c.alias, 'SUM({})', partition=split_by.aliases
       )
-      col.set_alias('Distribution of %s' % c.alias_raw)
+      col.set_alias(name_tmpl.format(c.alias_raw))
       columns.add(col)
     return sql.Sql(groupby.add(columns), child_table_alias), with_data
 
@@ -369,10 +390,17 @@ class CumulativeDistribution(Distribution):
       The global with_data which holds all datasources we need in the WITH
         clause.
     """
-    dist_sql, with_data = super(
-        CumulativeDistribution, self
-    ).get_sql_and_with_clause(
-        table, split_by, global_filter, indexes, local_filter, with_data
+    local_filter = (
+        sql.Filters(self.where_).add(local_filter).remove(global_filter)
+    )
+    dist_sql, with_data = self.get_distribution_sql_and_with_clause(
+        table,
+        split_by,
+        global_filter,
+        indexes,
+        local_filter,
+        with_data,
+        '{}',
     )
     child_table = sql.Datasource(dist_sql, 'CumulativeDistributionRaw')
     child_table_alias = with_data.merge(child_table)
@@ -393,7 +421,7 @@ class CumulativeDistribution(Distribution):
           order=self.get_ordered_col(c.alias) if self.sort_by_values else order,
           window_frame='ROWS BETWEEN UNBOUNDED PRECEDING AND CURRENT ROW',
       )
-      col.set_alias('Cumulative %s' % c.alias_raw)
+      col.set_alias(self.name_tmpl.format(c.alias_raw))
       columns.add(col)
     return sql.Sql(columns, child_table_alias), with_data
 
-- 
2.43.0


From ba66f3c1bc1879945d94ba6d2b00c77dd55a4775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:39 +0000
Subject: [PATCH 85/97] fix: a custom Metric with the name of a built-in one
 does not share results of other instances

---
 metrics.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/metrics.py b/metrics.py
index b4ef287..a8ff0b6 100644
--- a/metrics.py
+++ b/metrics.py
@@ -1071,7 +1071,12 @@ class Metric(object):
     # Caching across instances is tricky so only turned on for built-ins and
     # custom Metrics with cache_across_instances being True. Otherwise different
     # instances of the same class are always saved under different keys.
-    if type(self).__name__ not in BUILT_INS and not self.cache_across_instances:
+    # A custom Metric might have the name of a built-in one.
+    cls = type(self)
+    is_built_in = cls.__name__ in BUILT_INS and (
+        cls.__module__.rpartition('.')[0] == __name__.rpartition('.')[0]
+    )
+    if not is_built_in and not self.cache_across_instances:
       fingerprint['id'] = id(self)
     if self.children:
       fingerprint['children'] = (
-- 
2.43.0


From a5765a10e5fe26a2ccd63c6a1363c0e5b6647f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:20 +0000
Subject: [PATCH 86/97] fix: dimensions and units may have the names of
 internal columns (sum_x, ct) in optimized resampling

---
 operations.py | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/operations.py b/operations.py
index 404e0b8..26db15d 100644
--- a/operations.py
+++ b/operations.py
@@ -3192,13 +3192,17 @@ class PoissonBootstrap(Bootstrap):
     )
 
     if self.has_been_preaggregated:
+      # Only Sum, Max and Min are leaf nodes. Sum consumes the sums and counts.
+      sum_or_ct_cols = [
+          m.var
+          for m in utils.get_leaf_metrics(self)
+          if isinstance(m, metrics.Sum)
+      ]
       poisson_sampled_columns = sql.Columns()
       for c in poisson_weight_columns:
         if c.alias == 'poisson_bootstrap_weight':
           continue
-        elif c.alias in split_by.aliases or not (
-            c.alias.startswith('sum_') or c.alias.startswith('count_')
-        ):
+        elif c.alias not in sum_or_ct_cols:
           poisson_sampled_columns.add(c.alias)
         else:
           col = c * sql.Column('poisson_bootstrap_weight')
@@ -3317,17 +3321,12 @@ def get_preaggregated_metric_var(m: metrics.Metric):
   }
   name = tmpl_lookup[type(m)] % m.var
   name = f'{name} where {m.where}' if m.where else name
-  alias = sql.Column(name).alias
-  var = str(m.var)
-  if (
-      set(var + str(m.where or '')) & set('`~#&()[]{}|\\;:\'",?')
-      or ' ' in var
-      or '__' in var
-      or var.strip('_') != var
-  ):
-    # Different names might become the same alias after escaping.
-    alias += '_' + hashlib.md5(name.encode()).hexdigest()[:8]
-  return alias
+  # Different names might become the same alias after escaping and the data might
+  # have columns named like the alias.
+  return '%s_%s' % (
+      sql.Column(name).alias,
+      hashlib.md5(name.encode()).hexdigest()[:8],
+  )
 
 
 def get_se_sql(
@@ -3539,7 +3538,7 @@ def get_jackknife_data_fast(
   )
   indexes_and_unit = sql.Columns(all_indexes).add(metric.unit)
 
-  columns_to_preagg = sql.Columns(sql.Column('COUNT(*)', alias='ct'))
+  columns_to_preagg = sql.Columns(sql.Column('COUNT(*)', alias='meterstick_ct'))
   columns_in_loo = sql.Columns()
   # columns_to_preagg and columns_in_loo are filled in-place.
   modified_jk = modify_descendants_for_jackknife_fast(
@@ -3583,7 +3582,8 @@ def get_jackknife_data_fast(
       )
       .add(columns_in_loo),
       loo_from,
-      'total_table.ct - COALESCE(unit_slice_table.ct, 0) > 0',
+      'total_table.meterstick_ct - COALESCE(unit_slice_table.meterstick_ct, 0)'
+      ' > 0',
   )
   loo_table = with_data.add(sql.Datasource(loo, 'LOO'))
   return loo_table, with_data
@@ -3645,7 +3645,7 @@ def modify_descendants_for_jackknife_fast(
     op = 'COUNT({})' if isinstance(metric, metrics.Count) else 'SUM({})'
     col = sql.Column(c, op, filters=filters)
     columns_to_preagg.add(col)
-    loo = sql.Column(tmpl % (col.alias, col.alias), alias=metric.name)
+    loo = sql.Column(tmpl % (col.alias, col.alias), alias=col.alias)
     columns_in_loo.add(loo)
     return metrics.Sum(loo.alias, metric.name)
 
-- 
2.43.0


From 5383d723c6a953fe7f04cf1e03694e2dfc9622db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:07 +0000
Subject: [PATCH 87/97] fix: filters inside user subclasses of Jackknife and
 Bootstrap are not global in SQL

---
 utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/utils.py b/utils.py
index 1276fde..4fd0777 100644
--- a/utils.py
+++ b/utils.py
@@ -216,7 +216,9 @@ def get_global_filter(metric) -> sql.Filters:
   if metric.where:
     global_filter.add(metric.where_)
   # Filters inside resampling Operations shound not be considered global.
-  if type(metric).__name__ in ('Jackknife', 'Bootstrap'):
+  if any(
+      c.__name__ in ('Jackknife', 'Bootstrap') for c in type(metric).__mro__
+  ):
     return global_filter
   children_filters = [
       set(get_global_filter(c)) for c in metric.children if is_metric(c)
-- 
2.43.0


From da4ad80678fb8f87c5008407ab274c71474872fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:26 +0000
Subject: [PATCH 88/97] fix: the folder of pcollection_to_df_via_file_io may
 contain brackets

---
 utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/utils.py b/utils.py
index 4fd0777..1aa0b29 100644
--- a/utils.py
+++ b/utils.py
@@ -751,7 +751,8 @@ def pcollection_to_df_via_file_io(
   pipeline.run()
 
   res = []
-  for f in glob.glob(f'{output_path}-*'):  # output is sharded
+  # output is sharded
+  for f in glob.glob(f'{glob.escape(output_path)}-*'):
     res.append(pd.read_csv(f))
     if cleanup:
       os.remove(f)
-- 
2.43.0


From abe083984451ee01ababc8804580a0877a838fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:34 +0000
Subject: [PATCH 89/97] fix: results are not shared by values that merely have
 the same hash (-1 and -2)

---
 utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/utils.py b/utils.py
index 1aa0b29..3d39ef7 100644
--- a/utils.py
+++ b/utils.py
@@ -443,7 +443,8 @@ class CacheKey:
     return new_key
 
   def __eq__(self, other):
-    return isinstance(other, CacheKey) and hash(self) == hash(other)
+    # Different values can have the same hash, for example, -1 and -2.
+    return isinstance(other, CacheKey) and self.fingerprint == other.fingerprint
 
   def __hash__(self):
     return hash((
-- 
2.43.0


From 7700dcc82766ee6c90b17fe4dfe30519550d4e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:41:42 +0000
Subject: [PATCH 90/97] fix: filters are parenthesized in SQL however the OR in
 them is spaced

---
 sql.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sql.py b/sql.py
index c2789d9..c383133 100644
--- a/sql.py
+++ b/sql.py
@@ -204,7 +204,8 @@ class Filter(SqlComponent):
   def __str__(self):
     if not self.cond:
       return ''
-    return '(%s)' % self.cond if ' OR ' in self.cond.upper() else self.cond
+    has_or = re.search(r'\bOR\b', self.cond, re.IGNORECASE)
+    return '(%s)' % self.cond if has_or else self.cond
 
 
 class Filters(SqlComponents):
-- 
2.43.0


From 3341f15a53465abbf17ab5241270005e3f74aca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:45:26 +0000
Subject: [PATCH 91/97] fix: tables whose names contain SELECT or WITH are not
 taken for queries

---
 sql.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sql.py b/sql.py
index c383133..e61bce6 100644
--- a/sql.py
+++ b/sql.py
@@ -537,10 +537,10 @@ class Datasource(SqlComponent):
       self.table = table.table
       self.alias = alias or table.alias
     self.alias = escape_alias(self.alias)
-    self.is_table = (
-        not str(self.table).strip().upper().startswith('SELECT')
-        and 'WITH ' not in str(self.table).upper()
-        and 'WITH\n' not in str(self.table).upper()
+    # The keywords in names, for example, selected_users, don't count.
+    query = re.sub(r'`[^`]*`', '``', str(self.table)).strip().upper()
+    self.is_table = not re.match(r'SELECT\b', query) and not re.search(
+        r'\bWITH\s', query
     )
 
   def get_expression(self, form='FROM'):
-- 
2.43.0


From c9222b5f4a0d7a10b1c2edf7a3df639de5709317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:55:12 +0000
Subject: [PATCH 92/97] fix: filters on the columns of a query are not moved
 into it, nor is the query changed

---
 sql.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sql.py b/sql.py
index e61bce6..f5c1bf9 100644
--- a/sql.py
+++ b/sql.py
@@ -19,6 +19,7 @@ from __future__ import print_function
 
 import collections
 from collections import abc
+import copy
 import functools
 import re
 from typing import Iterable, Optional, Text, Union
@@ -751,14 +752,18 @@ class Sql(SqlComponent):
     from_data_table = from_data.table
     if isinstance(from_data_table, Sql) and not self.from_data.is_table:
       if from_data_table.with_data:
+        # Don't change the query of the caller.
+        from_data_table = copy.deepcopy(from_data_table)
+        from_data = Datasource(from_data_table, from_data.alias)
         with_data_to_merge = from_data_table.with_data
         from_data_table.with_data = None
         self.from_data = Datasource(
             with_data_to_merge.add(Datasource(from_data, 'NoNameTable'))
         )
         self.with_data.extend(with_data_to_merge)
-      if not self.columns:
+      if not self.columns and (not self.where or not from_data_table.columns):
         # Consolidate outer and inner Sql if the outer Sql doesn't have columns.
+        # The conditions on the columns that the inner Sql computes cannot move.
         self.columns = from_data_table.columns
         self.where = Filters(from_data_table.where).add(self.where)
         self.groupby = from_data_table.groupby
-- 
2.43.0


From 5f125702c44cd6cb66c356cadce421e3adf03af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:05:33 +0000
Subject: [PATCH 93/97] fix: Entropy in SQL tolerates shares of 0

---
 diversity.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/diversity.py b/diversity.py
index f19fa95..28916f1 100644
--- a/diversity.py
+++ b/diversity.py
@@ -127,13 +127,14 @@ class Entropy(DiversityBase):
     )
     columns = sql.Columns()
     # For every value column, compute -SUM(val * LOG(val)) which is the entropy.
+    # A share of 0 contributes nothing, while LOG(0) is an error in SQL.
     for c in dist_columns:
       if c.alias in all_split_by:
         continue
 
       col = sql.Column(
-          (c.alias, c.alias),
-          '-SUM({} * LOG({}))',
+          (c.alias, c.alias, c.alias),
+          '-SUM(IF({} > 0, {} * LOG({}), 0))',
       )
       col.set_alias(self.name_tmpl.format(c.alias_raw))
       columns.add(col)
-- 
2.43.0


From cf57ece87aefd4e3c2defb94346a6e63b31bcc2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:10:02 +0000
Subject: [PATCH 94/97] fix: Jackknife over dates in batches of replicates in
 SQL

---
 operations.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/operations.py b/operations.py
index 26db15d..62ef892 100644
--- a/operations.py
+++ b/operations.py
@@ -2603,10 +2603,14 @@ class Jackknife(MetricWithCI):
         )
       for i in range(int(np.ceil(len(unique_units) / batch_size))):
         units = unique_units[i * batch_size:(i + 1) * batch_size]
+        array = ', '.join(
+            'DATE "%s"' % u if type(u) is datetime.date else repr(u)
+            for u in units
+        )
         loo = sql.Sql(
             sql.Column('*', auto_alias=False),
             sql.Datasource(
-                'UNNEST(%s)' % units, 'meterstick_resample_idx'
+                'UNNEST([%s])' % array, 'meterstick_resample_idx'
             ).join(table, on='meterstick_resample_idx != %s' % self.unit),
             self.where_,
         )
-- 
2.43.0


From 5782a469c36eff15b074b096af5283cae39e13e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:11:29 +0000
Subject: [PATCH 95/97] fix: escaped quotes do not end string literals of
 filters in SQL

---
 sql.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sql.py b/sql.py
index f5c1bf9..8d4ddeb 100644
--- a/sql.py
+++ b/sql.py
@@ -199,7 +199,9 @@ class Filter(SqlComponent):
     elif cond:
       # String literals are left alone.
       self.cond = re.sub(
-          r"""("[^"]*"|'[^']*')|==""", lambda m: m.group(1) or '=', cond
+          r"""("(?:\\.|[^"\\])*"|'(?:\\.|[^'\\])*')|==""",
+          lambda m: m.group(1) or '=',
+          cond,
       )
 
   def __str__(self):
-- 
2.43.0


From 9afb53670596329c70251dd1cd60669a62ce7827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:19:34 +0000
Subject: [PATCH 96/97] fix: PrePostChange and CUPED accept covariates named
 like the child

---
 operations.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/operations.py b/operations.py
index 62ef892..2e23066 100644
--- a/operations.py
+++ b/operations.py
@@ -800,6 +800,12 @@ class PrePostChange(PercentChange):
       The adjusted values of the child (post metrics).
     """
     from sklearn import linear_model  # pylint: disable=g-import-not-at-top
+    # A covariate can have the same name as the child, for example, when they
+    # only differ in the filters.
+    covariates = covariates.set_axis(
+        ['meterstick_covariate_%s' % i for i in range(covariates.shape[1])],
+        axis=1,
+    )
     # Don't use "-=". For multiindex it might go wrong. The reason is DataFrame
     # has different implementations for __sub__ and __isub__. ___isub__ tries
     # to reindex to update in place which sometimes lead to lots of NAs.
@@ -1036,6 +1042,12 @@ class CUPED(AbsoluteChange):
       The adjusted values of the child (post metrics).
     """
     from sklearn import linear_model  # pylint: disable=g-import-not-at-top
+    # A covariate can have the same name as the child, for example, when they
+    # only differ in the filters.
+    covariates = covariates.set_axis(
+        ['meterstick_covariate_%s' % i for i in range(covariates.shape[1])],
+        axis=1,
+    )
     # Don't use "-=". For multiindex it might go wrong. The reason is DataFrame
     # has different implementations for __sub__ and __isub__. ___isub__ tries
     # to reindex to update in place which sometimes lead to lots of NAs.
-- 
2.43.0


From 82ca9f4a2e7624fd10c7bcc31bb1ede6624736f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:46:17 +0000
Subject: [PATCH 97/97] fix: CumulativeDistribution with an order keeps cells
 with some values

With several columns, a cell missing the value of one column was dropped for
the others too, so their running sums lost its share.
---
 operations.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/operations.py b/operations.py
index 2e23066..49c930a 100644
--- a/operations.py
+++ b/operations.py
@@ -348,7 +348,11 @@ class CumulativeDistribution(Distribution):
     if self.order:
       order = self.order if self.ascending else reversed(self.order)
       level = None if len(dist.index.names) == 1 else self.extra_index[0]
-      dist = dist.reindex(order, level=level).dropna()
+      if split_by:
+        # reindex() only reorders rows of the same slice that are adjacent.
+        dist = dist.sort_index(level=split_by, sort_remaining=False)
+      # Another column might have a value where one column has none.
+      dist = dist.reindex(order, level=level).dropna(how='all')
       res = self.group(dist, split_by).cumsum()
     elif not self.sort_by_values:
       dist.sort_values(self.extra_index, ascending=self.ascending, inplace=True)
-- 
2.43.0

