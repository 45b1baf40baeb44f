From 639c529149d914962ada68de8631978447b358a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:38 +0000
Subject: [PATCH 01/72] fix: compare, save, and load operators with sparse
 entries

---
 src/opinf/operators/_base.py | 37 +++++++++++++++++++++++++++---------
 src/opinf/utils/_hdf5.py     |  4 ++--
 2 files changed, 30 insertions(+), 11 deletions(-)

diff --git a/src/opinf/operators/_base.py b/src/opinf/operators/_base.py
index c4c7db2..ff93585 100644
--- a/src/opinf/operators/_base.py
+++ b/src/opinf/operators/_base.py
@@ -617,6 +617,9 @@ class OpInfOperator(OperatorTemplate):
         if self.entries is not None:
             if self.shape != other.shape:
                 return False
+            if sparse.issparse(self.entries) or sparse.issparse(other.entries):
+                diff = sparse.csr_array(self.entries - other.entries)
+                return diff.count_nonzero() == 0
             return np.all(self.entries == other.entries)
         return True
 
@@ -796,9 +799,31 @@ class OpInfOperator(OperatorTemplate):
         with utils.hdf5_savehandle(savefile, overwrite) as hf:
             meta = hf.create_dataset("meta", shape=(0,))
             meta.attrs["class"] = self.__class__.__name__
-            if self.entries is not None:
+            if sparse.issparse(self.entries):
+                utils.save_sparray(hf.create_group("entries"), self.entries)
+            elif self.entries is not None:
                 hf.create_dataset("entries", data=self.entries)
 
+    @classmethod
+    def _check_saved_class(cls, hf, loadfile):
+        """Raise an exception if ``hf`` does not store a ``cls`` object."""
+        if (
+            ClassName := hf["meta"].attrs["class"]
+        ) != cls.__name__:  # pragma: no cover
+            raise TypeError(
+                f"file '{loadfile}' contains '{ClassName}' "
+                f"object, use '{ClassName}.load()"
+            )
+
+    @staticmethod
+    def _load_entries(hf):
+        """Get the (dense or sparse) operator entries stored in ``hf``."""
+        if "entries" not in hf:
+            return None
+        if "arrtype" in hf["entries"].attrs:
+            return utils.load_sparray(hf["entries"])
+        return hf["entries"][:]
+
     @classmethod
     def load(cls, loadfile: str):
         """Load an operator from an HDF5 file.
@@ -809,14 +834,8 @@ class OpInfOperator(OperatorTemplate):
             Path to the file where the operator was stored via :meth:`save()`.
         """
         with utils.hdf5_loadhandle(loadfile) as hf:
-            if (
-                ClassName := hf["meta"].attrs["class"]
-            ) != cls.__name__:  # pragma: no cover
-                raise TypeError(
-                    f"file '{loadfile}' contains '{ClassName}' "
-                    f"object, use '{ClassName}.load()"
-                )
-            return cls(hf["entries"][:] if "entries" in hf else None)
+            cls._check_saved_class(hf, loadfile)
+            return cls(cls._load_entries(hf))
 
     # Verification ------------------------------------------------------------
     def verify(
diff --git a/src/opinf/utils/_hdf5.py b/src/opinf/utils/_hdf5.py
index 5de10ff..ac49126 100644
--- a/src/opinf/utils/_hdf5.py
+++ b/src/opinf/utils/_hdf5.py
@@ -232,9 +232,9 @@ def load_sparray(group: h5py.Group) -> sparse.sparray:
       (np.int32(0), np.int32(5))    12.0
       (np.int32(4), np.int32(1))    123.456
     """
-    A = sparse.coo_matrix(
+    A = sparse.coo_array(
         (group["data"], (group["row"], group["col"])),
-        shape=group.attrs["shape"],
+        shape=tuple(group.attrs["shape"]),
     )
     arrtype = str(group.attrs["arrtype"])
     return getattr(A, f"to{arrtype}")()
-- 
2.43.0


From 436bed1fac799d2d6a50def9896c737ae642fde9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:38 +0000
Subject: [PATCH 02/72] fix: PolynomialOperator copy(), save(), load(), and
 jacobian()

---
 src/opinf/operators/_polynomial_operator.py | 62 ++++++++++++++++++++-
 1 file changed, 61 insertions(+), 1 deletion(-)

diff --git a/src/opinf/operators/_polynomial_operator.py b/src/opinf/operators/_polynomial_operator.py
index 7d2c4e3..0f6eaf5 100644
--- a/src/opinf/operators/_polynomial_operator.py
+++ b/src/opinf/operators/_polynomial_operator.py
@@ -1,4 +1,4 @@
-# from .. import utils
+from .. import utils
 from ._base import OpInfOperator
 
 import numpy as np
@@ -189,6 +189,7 @@ class PolynomialOperator(OpInfOperator):
                 kept[p]
             ]
 
+    @utils.requires("entries")
     def apply(self, state: np.ndarray, input_=None) -> np.ndarray:
         r"""Apply the operator to the given state. Input is not used.
         See OpInfOperator.apply for description.
@@ -221,6 +222,65 @@ class PolynomialOperator(OpInfOperator):
         )
         return self.entries @ restricted_kronecker_product
 
+    @utils.requires("entries")
+    def jacobian(self, state: np.ndarray, input_=None) -> np.ndarray:
+        r"""Construct the state Jacobian of the operator. Input is not used.
+        See OpInfOperator.jacobian for description.
+        """
+        r = self.state_dimension
+        q = np.atleast_1d(state)
+        kept = self.nonredudant_entries
+
+        # Differentiate the restricted Kronecker products recursively.
+        dqp = np.zeros((1, r))
+        for p in range(1, self.polynomial_order + 1):
+            qp = PolynomialOperator.exp_p(q, p - 1, kept)
+            dqp = np.kron(np.eye(r), qp[:, np.newaxis]) + np.kron(
+                q[:, np.newaxis], dqp
+            )
+            dqp = dqp[kept[p]]
+        entries = self.entries
+        if np.ndim(entries) == 1:
+            entries = entries[:, np.newaxis]
+        return entries @ dqp
+
+    # Model persistence -------------------------------------------------------
+    def copy(self):
+        """Return a copy of the operator."""
+        entries = self.entries.copy() if self.entries is not None else None
+        return self.__class__(self.polynomial_order, entries)
+
+    def save(self, savefile: str, overwrite: bool = False) -> None:
+        """Save the operator to an HDF5 file.
+
+        Parameters
+        ----------
+        savefile : str
+            Path of the file to save the operator in.
+        overwrite : bool
+            If ``True``, overwrite the file if it already exists. If ``False``
+            (default), raise a ``FileExistsError`` if the file already exists.
+        """
+        with utils.hdf5_savehandle(savefile, overwrite) as hf:
+            OpInfOperator.save(self, hf)
+            hf["meta"].attrs["polynomial_order"] = self.polynomial_order
+
+    @classmethod
+    def load(cls, loadfile: str):
+        """Load an operator from an HDF5 file.
+
+        Parameters
+        ----------
+        loadfile : str
+            Path to the file where the operator was stored via :meth:`save()`.
+        """
+        with utils.hdf5_loadhandle(loadfile) as hf:
+            cls._check_saved_class(hf, loadfile)
+            return cls(
+                int(hf["meta"].attrs["polynomial_order"]),
+                cls._load_entries(hf),
+            )
+
     # Properties --------------------------------------------------------------
     @property
     def nonredudant_entries(self) -> list:
-- 
2.43.0


From 91e2e47582b70742fb4f98e8f10683d4873cfd70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:38 +0000
Subject: [PATCH 03/72] fix: ConstantOperator.apply() truncated entries for
 integer states

---
 src/opinf/operators/_nonparametric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opinf/operators/_nonparametric.py b/src/opinf/operators/_nonparametric.py
index 84f892c..dda56d7 100644
--- a/src/opinf/operators/_nonparametric.py
+++ b/src/opinf/operators/_nonparametric.py
@@ -112,7 +112,7 @@ class ConstantOperator(OpInfOperator):
         if self.entries.shape[0] == 1:
             if state is None or np.isscalar(state):  # r = k = 1.
                 return self.entries[0]
-            return np.full_like(state, self.entries[0])  # r = 1, k > 1.
+            return np.full(np.shape(state), self.entries[0])  # r = 1, k > 1.
         # if state is None or np.ndim(state) == 1:
         #     return self.entries
         if np.ndim(state) == 2:  # r, k > 1.
-- 
2.43.0


From 256f7a423cdcad55efe86594d242c2905fd76108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:59 +0000
Subject: [PATCH 04/72] fix: TransformerPipeline accepts tuples, loads name
 None, and passes on NotImplemented ddts

---
 src/opinf/pre/_multi.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/opinf/pre/_multi.py b/src/opinf/pre/_multi.py
index 77fd728..36707d5 100644
--- a/src/opinf/pre/_multi.py
+++ b/src/opinf/pre/_multi.py
@@ -42,9 +42,7 @@ class TransformerPipeline(TransformerTemplate):
         """Set the transformers."""
         super().__init__(name=name)
 
-        if isinstance(transformers, list):
-            transformers = tuple(transformers)
-        else:
+        if not isinstance(transformers, (list, tuple)):
             raise TypeError("'transformers' should be a list or tuple")
 
         statedims = set()
@@ -107,6 +105,8 @@ class TransformerPipeline(TransformerTemplate):
         func = getattr(self.transformers[0], method)
         Y = func(states, inplace=inplace, **kwargs)
         for tf in self.transformers[1:]:
+            if Y is NotImplemented:
+                return NotImplemented
             func = getattr(tf, method)
             Y = func(Y, inplace=True, **kwargs)
         return Y
@@ -157,6 +157,7 @@ class TransformerPipeline(TransformerTemplate):
         with utils.hdf5_loadhandle(loadfile) as hf:
             meta = hf["meta"]
             name = str(meta.attrs["name"])
+            name = None if name == "None" else name
             num_transformers = int(meta.attrs["num_transformers"])
             if (nclasses := len(TransformerClasses)) != num_transformers:
                 raise ValueError(
-- 
2.43.0


From d5e65db9d0ed72c40ae1f08d1c3b4605094f1cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:59 +0000
Subject: [PATCH 05/72] fix: ShiftScaleTransformer.inverse_transform(locs) with
 byrow=True but no scaling

---
 src/opinf/pre/_shiftscale.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opinf/pre/_shiftscale.py b/src/opinf/pre/_shiftscale.py
index 38e953d..d5e6149 100644
--- a/src/opinf/pre/_shiftscale.py
+++ b/src/opinf/pre/_shiftscale.py
@@ -1269,7 +1269,7 @@ class ShiftScaleTransformer(TransformerTemplate):
         shift_, scale_ = self.shift_, self.scale_
         if locs is not None:
             locs = self._check_locs(locs, states_transformed)
-            if self.byrow:
+            if self.byrow and self.scaling:
                 shift_ = shift_[locs]
                 scale_ = scale_[locs]
         else:
-- 
2.43.0


From 383bf7e55304e48de1a4921116236f02991b3d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:59 +0000
Subject: [PATCH 06/72] fix: ShiftTransformer.transform_ddts() checks the
 dimension of the ddts as documented

---
 src/opinf/pre/_shiftscale.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/opinf/pre/_shiftscale.py b/src/opinf/pre/_shiftscale.py
index d5e6149..fb0f1c5 100644
--- a/src/opinf/pre/_shiftscale.py
+++ b/src/opinf/pre/_shiftscale.py
@@ -301,6 +301,7 @@ class ShiftTransformer(TransformerTemplate):
         ValueError
             If the ``ddts`` do not align with the :attr:`state_dimension`.
         """
+        self._check_shape(ddts)
         return ddts if inplace else ddts.copy()
 
     def inverse_transform(self, states_shifted, inplace=False, locs=None):
-- 
2.43.0


From 5efb0deddd3a288ef55297e8e87403d92d7c78b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:59 +0000
Subject: [PATCH 07/72] fix: ScaleTransformer with a one-entry row scaler
 survives save()/load()

---
 src/opinf/pre/_shiftscale.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/opinf/pre/_shiftscale.py b/src/opinf/pre/_shiftscale.py
index fb0f1c5..51f7a10 100644
--- a/src/opinf/pre/_shiftscale.py
+++ b/src/opinf/pre/_shiftscale.py
@@ -635,6 +635,7 @@ class ScaleTransformer(TransformerTemplate):
             meta.attrs["name"] = str(self.name)
             if (n := self.state_dimension) is not None:
                 meta.attrs["state_dimension"] = n
+            meta.attrs["byrow"] = self.byrow
             scaler = self.scaler if self.byrow else [self.scaler]
             hf.create_dataset("scaler", data=scaler)
 
@@ -644,7 +645,7 @@ class ScaleTransformer(TransformerTemplate):
             meta = hf["meta"]
             name = meta.attrs["name"]
             scaler = hf["scaler"][:]
-            if scaler.shape == (1,):
+            if not meta.attrs.get("byrow", scaler.size > 1):
                 scaler = scaler[0]
             out = cls(scaler, name=(None if name == "None" else name))
             if not out.byrow and "state_dimension" in meta.attrs:
-- 
2.43.0


From 4ae6bb1efed455803d2e212e36dec767097062a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:59 +0000
Subject: [PATCH 08/72] fix: TransformerPipeline can be used inside a
 TransformerMulti

---
 src/opinf/pre/_multi.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/opinf/pre/_multi.py b/src/opinf/pre/_multi.py
index 36707d5..4838921 100644
--- a/src/opinf/pre/_multi.py
+++ b/src/opinf/pre/_multi.py
@@ -86,6 +86,13 @@ class TransformerPipeline(TransformerTemplate):
                 return r
         return None
 
+    @state_dimension.setter
+    def state_dimension(self, n):
+        """Set the state dimension of each transformer in the pipeline."""
+        for tf in self.transformers:
+            if not isinstance(tf, TransformerMulti):
+                tf.state_dimension = n
+
     def __str__(self):
         lines = super().__str__().split("\n  ")
         lines.append(f"num_transformers: {self.num_transformers}")
@@ -590,7 +597,10 @@ class TransformerMulti:
                     f"the number of variables n_q = {self.num_variables}"
                 )
             for tf in self.transformers:
-                TransformerTemplate.state_dimension.fset(tf, nx)
+                if isinstance(tf, TransformerPipeline):
+                    tf.state_dimension = nx
+                else:
+                    TransformerTemplate.state_dimension.fset(tf, nx)
 
         new_states = np.concatenate(
             [
-- 
2.43.0


From 7a7eaf102de0115db0017d53735dc8fb45387449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:04 +0000
Subject: [PATCH 09/72] fix: ddt_uniform() truncated the derivatives of integer
 states

---
 src/opinf/ddt/_finite_difference.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opinf/ddt/_finite_difference.py b/src/opinf/ddt/_finite_difference.py
index d7491c2..88f3965 100644
--- a/src/opinf/ddt/_finite_difference.py
+++ b/src/opinf/ddt/_finite_difference.py
@@ -1047,7 +1047,7 @@ def ddt_uniform(states, dt, order=2):
     if not np.isscalar(dt):
         raise TypeError("time step dt must be a scalar (e.g., float)")
 
-    ddts = np.empty_like(states)
+    ddts = np.empty_like(states, dtype=np.result_type(states, float))
 
     if order == 2:
         # TODO: Does this next line do what the rest does?
-- 
2.43.0


From 7b25475a398de05795adaadac54886aec0cae852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:04 +0000
Subject: [PATCH 10/72] fix: InterpDerivativeEstimator.mask() of
 one-dimensional arrays

---
 src/opinf/ddt/_interpolation.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/opinf/ddt/_interpolation.py b/src/opinf/ddt/_interpolation.py
index a6177c1..9517d7d 100644
--- a/src/opinf/ddt/_interpolation.py
+++ b/src/opinf/ddt/_interpolation.py
@@ -226,11 +226,14 @@ class InterpDerivativeEstimator(DerivativeEstimatorTemplate):
         if self.new_time_domain is None:
             return arr
 
-        # Interpolate to the new time domain.
+        # Interpolate to the new time domain (along the last axis).
+        options = dict(self.options)
+        if "axis" in options:
+            options["axis"] = -1
         statespline = self.InterpolatorClass(
             self.time_domain,
             arr,
-            **self.options,
+            **options,
         )
         return statespline(self.new_time_domain)
 
-- 
2.43.0


From 864c4217b59babacb7fbe6fd84eeee1e3377366d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:51 +0000
Subject: [PATCH 11/72] fix: PolynomialLifter with a single non-integer order

---
 src/opinf/lift/_polynomial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opinf/lift/_polynomial.py b/src/opinf/lift/_polynomial.py
index 6e9374b..5053a0c 100644
--- a/src/opinf/lift/_polynomial.py
+++ b/src/opinf/lift/_polynomial.py
@@ -100,7 +100,7 @@ class PolynomialLifter(LifterTemplate):
     def orders(self, ps: tuple):
         """Set the polynomial orders."""
         if isinstance(ps, numbers.Number):
-            ps = (int(ps),)
+            ps = (ps,)
         for p in ps:
             if not isinstance(p, numbers.Number):
                 raise TypeError("'orders' must be a sequence of numbers")
-- 
2.43.0


From 52cd7464b44aa2fd05529d576a0c53dca189add2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:51 +0000
Subject: [PATCH 12/72] fix: PolynomialLifter.lift_ddts() of order 0 at zero
 states

---
 src/opinf/lift/_polynomial.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/opinf/lift/_polynomial.py b/src/opinf/lift/_polynomial.py
index 5053a0c..e072a3e 100644
--- a/src/opinf/lift/_polynomial.py
+++ b/src/opinf/lift/_polynomial.py
@@ -161,7 +161,10 @@ class PolynomialLifter(LifterTemplate):
             Time derivatives of the learning variables.
         """
         return np.concatenate(
-            [p * states ** (p - 1) * ddts for p in self.__orders]
+            [
+                np.zeros_like(ddts) if p == 0 else p * states ** (p - 1) * ddts
+                for p in self.__orders
+            ]
         )
 
     def unlift(self, lifted_states):
-- 
2.43.0


From 96440df580fddb42c171f5e6a460a65b66ffec46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:51 +0000
Subject: [PATCH 13/72] fix: PolynomialLifter.unlift() of negative states with
 odd orders

---
 src/opinf/lift/_polynomial.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/opinf/lift/_polynomial.py b/src/opinf/lift/_polynomial.py
index e072a3e..cc5a081 100644
--- a/src/opinf/lift/_polynomial.py
+++ b/src/opinf/lift/_polynomial.py
@@ -183,6 +183,9 @@ class PolynomialLifter(LifterTemplate):
         variables = np.split(lifted_states, self.num_variables, axis=0)
         if 1 in self.__orders:
             return variables[self.__orders.index(1)]
+        for var, p in zip(variables, self.__orders):
+            if p % 2 == 1:  # Odd powers keep the sign of q.
+                return np.sign(var) * np.abs(var) ** (1 / p)
         for var, p in zip(variables, self.__orders):
             if p != 0:
                 return var ** (1 / p)
-- 
2.43.0


From af31ada3c6173a3bda9918dc3bd54ce5abcd7496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:13 +0000
Subject: [PATCH 14/72] fix: pre.shift() broadcast one-dimensional states to
 the size of shift_by

---
 src/opinf/pre/_shiftscale.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/opinf/pre/_shiftscale.py b/src/opinf/pre/_shiftscale.py
index 51f7a10..ceff958 100644
--- a/src/opinf/pre/_shiftscale.py
+++ b/src/opinf/pre/_shiftscale.py
@@ -63,6 +63,8 @@ def shift(states: np.ndarray, shift_by: np.ndarray = None):
             shift_by = shift_by[:, 0]
         else:
             raise ValueError("'shift_by' must be one-dimensional")
+    if shift_by.size != states.shape[0]:
+        raise ValueError("'states' and 'shift_by' not aligned")
 
     # Shift the columns by the mean.
     states_shifted = states - shift_by.reshape((-1, 1))
-- 
2.43.0


From ca9f44a152ba4ecb4511eca2055adcd60c9ec0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:50 +0000
Subject: [PATCH 15/72] fix: model rhs() and jacobian() of integer states

---
 src/opinf/models/mono/_nonparametric.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/opinf/models/mono/_nonparametric.py b/src/opinf/models/mono/_nonparametric.py
index 3f99e50..a6b3804 100644
--- a/src/opinf/models/mono/_nonparametric.py
+++ b/src/opinf/models/mono/_nonparametric.py
@@ -356,7 +356,7 @@ class _NonparametricModel(_OpInfModel):
         out : (r,) ndarray
             Evaluation of the right-hand side of the model.
         """
-        out = np.zeros_like(state)
+        out = np.zeros_like(state, dtype=np.result_type(state, float))
         for op in self.operators:
             out += op.apply(state, input_)
         return out
@@ -385,7 +385,7 @@ class _NonparametricModel(_OpInfModel):
             State Jacobian of the right-hand side of the model.
         """
         r = self.state_dimension
-        out = np.zeros_like(state, shape=(r, r))
+        out = np.zeros((r, r), dtype=np.result_type(state, float))
         for op in self.operators:
             out += op.jacobian(state, input_)
         return out
-- 
2.43.0


From 463ddee6612d4b71e82089e99e0d6383251f24fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:48 +0000
Subject: [PATCH 16/72] fix: refused regularizers and misaligned data leave
 Tikhonov-type solvers unchanged

---
 src/opinf/lstsq/_base.py     | 30 ++++++++++++-----------
 src/opinf/lstsq/_tikhonov.py | 46 ++++++++++++++++++++----------------
 2 files changed, 42 insertions(+), 34 deletions(-)

diff --git a/src/opinf/lstsq/_base.py b/src/opinf/lstsq/_base.py
index 2a6c483..7c0f274 100644
--- a/src/opinf/lstsq/_base.py
+++ b/src/opinf/lstsq/_base.py
@@ -151,18 +151,9 @@ class SolverTemplate(abc.ABC):
         return ", ".join([f"{key}={repr(val)}" for key, val in opts.items()])
 
     # Main methods -----------------------------------------------------------
-    def fit(self, data_matrix: np.ndarray, lhs_matrix: np.ndarray):
-        r"""Verify dimensions and save the data matrices.
-
-        Parameters
-        ----------
-        data_matrix : (k, d) ndarray
-            Data matrix :math:`\D`.
-        lhs_matrix : (r, k) or (k,) ndarray
-            "Left-hand side" data matrix :math:`\Z` (not its transpose!).
-            If one-dimensional, assume :math:`r = 1`.
-        """
-        # Verify dimensions.
+    @staticmethod
+    def _check_data(data_matrix: np.ndarray, lhs_matrix: np.ndarray):
+        """Verify dimensions, returning two-dimensional data matrices."""
         if data_matrix.ndim != 2:
             raise ValueError("data_matrix must be two-dimensional")
         if lhs_matrix.ndim == 1:
@@ -174,9 +165,20 @@ class SolverTemplate(abc.ABC):
                 "data_matrix and lhs_matrix not aligned "
                 f"(lhs_matrix.shape[-1] = {k1} != {k2} = data_matrix.shape[0])"
             )
+        return data_matrix, lhs_matrix
 
-        self.__D = data_matrix
-        self.__Z = lhs_matrix
+    def fit(self, data_matrix: np.ndarray, lhs_matrix: np.ndarray):
+        r"""Verify dimensions and save the data matrices.
+
+        Parameters
+        ----------
+        data_matrix : (k, d) ndarray
+            Data matrix :math:`\D`.
+        lhs_matrix : (r, k) or (k,) ndarray
+            "Left-hand side" data matrix :math:`\Z` (not its transpose!).
+            If one-dimensional, assume :math:`r = 1`.
+        """
+        self.__D, self.__Z = self._check_data(data_matrix, lhs_matrix)
 
         return self
 
diff --git a/src/opinf/lstsq/_tikhonov.py b/src/opinf/lstsq/_tikhonov.py
index 02ef0c7..0cf7080 100644
--- a/src/opinf/lstsq/_tikhonov.py
+++ b/src/opinf/lstsq/_tikhonov.py
@@ -506,8 +506,9 @@ class L2DecoupledSolver(L2Solver):
     """
 
     # Properties --------------------------------------------------------------
-    def _check_regularizer_shape(self):
-        if (shape1 := self.regularizer.shape) != (shape2 := (self.r,)):
+    @staticmethod
+    def _check_regularizer_shape(regularizer, r):
+        if (shape1 := regularizer.shape) != (shape2 := (r,)):
             raise errors.DimensionalityError(
                 f"regularizer.shape = {shape1} != {shape2} = (r,)"
             )
@@ -530,9 +531,9 @@ class L2DecoupledSolver(L2Solver):
                 raise ValueError(
                     "regularization constants must be nonnegative"
                 )
+            if self.r is not None:
+                self._check_regularizer_shape(regs, self.r)
         self.__regs = regs
-        if self.r is not None and regs is not None:
-            self._check_regularizer_shape()
 
     # Main methods ------------------------------------------------------------
     def fit(self, data_matrix: np.ndarray, lhs_matrix: np.ndarray):
@@ -547,10 +548,10 @@ class L2DecoupledSolver(L2Solver):
             "Left-hand side" data matrix :math:`\Z` (not its transpose!).
             If one-dimensional, assume :math:`r = 1`.
         """
-        L2Solver.fit(self, data_matrix, lhs_matrix)
         if self.regularizer is not None:
-            self._check_regularizer_shape()
-        return self
+            Z = self._check_data(data_matrix, lhs_matrix)[1]
+            self._check_regularizer_shape(self.regularizer, Z.shape[0])
+        return L2Solver.fit(self, data_matrix, lhs_matrix)
 
     def posterior(self):
         r"""Solve the Bayesian operator inference regression, constructing the
@@ -744,8 +745,9 @@ class TikhonovSolver(_BaseRegularizedSolver):
             [SolverTemplate.__str__(self), f"regularizer: {regstr}", spstr]
         )
 
-    def _check_regularizer_shape(self):
-        if (shape1 := self.regularizer.shape) != (shape2 := (self.d, self.d)):
+    @staticmethod
+    def _check_regularizer_shape(regularizer, d, r):
+        if (shape1 := regularizer.shape) != (shape2 := (d, d)):
             raise errors.DimensionalityError(
                 f"regularizer.shape = {shape1} != {shape2} = (d, d)"
             )
@@ -773,10 +775,10 @@ class TikhonovSolver(_BaseRegularizedSolver):
                     )
                 G = np.diag(G)
 
-        self.__reg = G
+            if self.d is not None:
+                self._check_regularizer_shape(G, self.d, self.r)
 
-        if self.d is not None and G is not None:
-            self._check_regularizer_shape()
+        self.__reg = G
 
     @classmethod
     def get_operator_regularizer(
@@ -920,9 +922,11 @@ class TikhonovSolver(_BaseRegularizedSolver):
         lhs_matrix : (r, k) or (k,) ndarray
             "Left-hand side" data matrix :math:`\Z` (not its transpose!).
         """
-        _BaseRegularizedSolver.fit(self, data_matrix, lhs_matrix)
         if self.regularizer is not None:
-            self._check_regularizer_shape()
+            D, Z = self._check_data(data_matrix, lhs_matrix)
+            d, r = D.shape[1], Z.shape[0]
+            self._check_regularizer_shape(self.regularizer, d, r)
+        _BaseRegularizedSolver.fit(self, data_matrix, lhs_matrix)
         D, Z = self.data_matrix, self.lhs_matrix
 
         # Pad lhs matrix for "svd" solve.
@@ -1151,12 +1155,13 @@ class TikhonovDecoupledSolver(TikhonovSolver):
     """
 
     # Properties --------------------------------------------------------------
-    def _check_regularizer_shape(self):
+    @staticmethod
+    def _check_regularizer_shape(regularizer, d, r):
         """Check that the regularizer has the correct shape."""
-        if len(self.regularizer) != self.r:
+        if len(regularizer) != r:
             raise ValueError("len(regularizer) != r")
-        for i, G in enumerate(self.regularizer):
-            if (shape1 := G.shape) != (shape2 := (self.d, self.d)):
+        for i, G in enumerate(regularizer):
+            if (shape1 := G.shape) != (shape2 := (d, d)):
                 raise ValueError(
                     f"regularizer[{i}].shape = {shape1} != {shape2} = (d, d)"
                 )
@@ -1189,9 +1194,10 @@ class TikhonovDecoupledSolver(TikhonovSolver):
                     G = np.diag(G)
                 regs.append(G)
 
+            if self.d is not None:
+                self._check_regularizer_shape(regs, self.d, self.r)
+
         self.__regs = regs
-        if self.d is not None and Gs is not None:
-            self._check_regularizer_shape()
 
     # Main methods ------------------------------------------------------------
     @_require_trained
-- 
2.43.0


From 3e49232e5f5d6437a2acea78c306f2e66e9d3050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:48 +0000
Subject: [PATCH 17/72] fix: data refused by TotalLeastSquaresSolver.fit()
 leaves the solver unchanged

---
 src/opinf/lstsq/_total.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/opinf/lstsq/_total.py b/src/opinf/lstsq/_total.py
index 253954d..0f04ab7 100644
--- a/src/opinf/lstsq/_total.py
+++ b/src/opinf/lstsq/_total.py
@@ -87,26 +87,29 @@ class TotalLeastSquaresSolver(SolverTemplate):
             "Left-hand side" data matrix :math:`\Z` (not its transpose!).
             If one-dimensional, assume :math:`r = 1`.
         """
-        SolverTemplate.fit(self, data_matrix, lhs_matrix)
-        if self.k < self.d + self.r:
+        D, Z = self._check_data(data_matrix, lhs_matrix)
+        k, d, r = D.shape[0], D.shape[1], Z.shape[0]
+        if k < d + r:
             raise ValueError(
                 "total least-squares system is underdetermined, k > d + r "
-                f"is required (k = {self.k}, d = {self.d}, r = {self.r})"
+                f"is required (k = {k}, d = {d}, r = {r})"
             )
 
         # Compute the SVD of the concatenation [D Z^T].
-        D_Zt = np.hstack((self.data_matrix, self.lhs_matrix.T))
-        Phi, _svals, PsiT = la.svd(D_Zt, **self.options)
-        self._augcond = _svals.max() / _svals.min()
+        Phi, _svals, PsiT = la.svd(np.hstack((D, Z.T)), **self.options)
 
         # Extract the relevant blocks of the singular vector matrices.
-        Psi_ZZt = PsiT[self.d :, self.d :]
-        Psi_DZt = PsiT[self.d :, : self.d]
-        Phi_Zt_Sig_ZT = Phi[:, self.d :] * _svals[self.d :]
+        Psi_ZZt = PsiT[d:, d:]
+        Psi_DZt = PsiT[d:, :d]
+        Phi_Zt_Sig_ZT = Phi[:, d:] * _svals[d:]
 
         # Solve the problem and compute the residuals.
-        self._Ohat = -la.solve(Psi_ZZt, Psi_DZt)
+        Ohat = -la.solve(Psi_ZZt, Psi_DZt)
         Deltas = -Phi_Zt_Sig_ZT @ np.hstack((Psi_ZZt, Psi_DZt))
+
+        SolverTemplate.fit(self, D, Z)
+        self._augcond = _svals.max() / _svals.min()
+        self._Ohat = Ohat
         self._norm_of_errors = la.norm(Deltas)
 
         return self
-- 
2.43.0


From bbc67e1d8548c01f988ec7185d61610bb447cc36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:48 +0000
Subject: [PATCH 18/72] fix: TikhonovDecoupledSolver ignored the cond and
 lapack_driver options

---
 src/opinf/lstsq/_tikhonov.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/opinf/lstsq/_tikhonov.py b/src/opinf/lstsq/_tikhonov.py
index 0cf7080..52508d9 100644
--- a/src/opinf/lstsq/_tikhonov.py
+++ b/src/opinf/lstsq/_tikhonov.py
@@ -1217,7 +1217,9 @@ class TikhonovDecoupledSolver(TikhonovSolver):
         for i, Gamma in enumerate(self.regularizer):
             if self.method == "lstsq":
                 Dpad = np.vstack((self.data_matrix, Gamma))
-                Ohat[i] = la.lstsq(Dpad, self._ZtPad[:, i])[0]
+                Ohat[i] = la.lstsq(
+                    Dpad, self._ZtPad[:, i], **self.options
+                )[0]
             elif self.method == "normal":
                 regD = self._DtD + Gamma.T @ Gamma
                 Ohat[i] = la.solve(regD, self._DtZt[:, i], assume_a="pos")
-- 
2.43.0


From 642f4cef673d90350b11ddc42e3ddad9023b3b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:07 +0000
Subject: [PATCH 19/72] fix: L2Solver.regcond() ignored the null space of
 underdetermined systems

---
 src/opinf/lstsq/_tikhonov.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/opinf/lstsq/_tikhonov.py b/src/opinf/lstsq/_tikhonov.py
index 52508d9..8d62519 100644
--- a/src/opinf/lstsq/_tikhonov.py
+++ b/src/opinf/lstsq/_tikhonov.py
@@ -392,7 +392,8 @@ class L2Solver(_BaseRegularizedSolver):
         """
         if self.regularizer is None:
             raise AttributeError("solver regularizer not set")
-        svals2 = self._svals**2 + self.regularizer**2
+        svals = np.append(self._svals, np.zeros(max(0, self.d - self.k)))
+        svals2 = svals**2 + self.regularizer**2
         return np.sqrt(svals2.max() / svals2.min())
 
     @_require_trained
@@ -618,7 +619,8 @@ class L2DecoupledSolver(L2Solver):
         """
         if self.regularizer is None:
             raise AttributeError("solver regularizer not set")
-        svals2 = self._svals**2 + self.regularizer.reshape((-1, 1)) ** 2
+        svals = np.append(self._svals, np.zeros(max(0, self.d - self.k)))
+        svals2 = svals**2 + self.regularizer.reshape((-1, 1)) ** 2
         return np.sqrt(svals2.max(axis=1) / svals2.min(axis=1))
 
     def regresidual(self, Ohat: np.ndarray) -> np.ndarray:
-- 
2.43.0


From 80692be8b018d99a096cb3f0000ff3d418c241e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:07 +0000
Subject: [PATCH 20/72] fix: copies of Tikhonov solvers shared the regularizer
 array

---
 src/opinf/lstsq/_tikhonov.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/opinf/lstsq/_tikhonov.py b/src/opinf/lstsq/_tikhonov.py
index 8d62519..4d5267b 100644
--- a/src/opinf/lstsq/_tikhonov.py
+++ b/src/opinf/lstsq/_tikhonov.py
@@ -9,6 +9,7 @@ __all__ = [
 ]
 
 import abc
+import copy
 import types
 import warnings
 import numpy as np
@@ -1086,7 +1087,7 @@ class TikhonovSolver(_BaseRegularizedSolver):
     def copy(self):
         """Make a copy of the solver."""
         solver = self.__class__(
-            regularizer=self.regularizer,
+            regularizer=copy.deepcopy(self.regularizer),
             method=self.method,
             cond=self.options["cond"],
             lapack_driver=self.options["lapack_driver"],
-- 
2.43.0


From cd79fa2abd8d59bd808f44bb8bb78d99ce273177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:07 +0000
Subject: [PATCH 21/72] fix: TruncatedSVDSolver accepted negative num_svdmodes
 with too few modes

---
 src/opinf/lstsq/_tsvd.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/opinf/lstsq/_tsvd.py b/src/opinf/lstsq/_tsvd.py
index 2432800..02a2f50 100644
--- a/src/opinf/lstsq/_tsvd.py
+++ b/src/opinf/lstsq/_tsvd.py
@@ -86,7 +86,7 @@ class TruncatedSVDSolver(SolverTemplate):
             d = self.max_modes
             if nmodes <= 0:
                 nmodes = d + nmodes
-            if nmodes > d:
+            if nmodes > d or nmodes < 1:
                 raise ValueError(f"only {d} SVD modes available")
         self.__nmodes = nmodes
 
@@ -122,7 +122,11 @@ class TruncatedSVDSolver(SolverTemplate):
     # Main methods ------------------------------------------------------------
     def fit(self, data_matrix: np.ndarray, lhs_matrix: np.ndarray):
         """Save data matrices and prepare to solve the regression problem."""
-        SolverTemplate.fit(self, data_matrix, lhs_matrix)
+        D, Z = self._check_data(data_matrix, lhs_matrix)
+        d = min(D.shape)
+        if (n := self.num_svdmodes) is not None and n <= -d:
+            raise ValueError(f"only {d} SVD modes available")
+        SolverTemplate.fit(self, D, Z)
 
         Phi, svals, PsiT = la.svd(self.data_matrix, **self.options)
         self._svals = svals
-- 
2.43.0


From 36c25e76174430866e925079a956332fdb018b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:07 +0000
Subject: [PATCH 22/72] fix: save an unfitted TruncatedSVDSolver that uses all
 modes

---
 src/opinf/lstsq/_tsvd.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/opinf/lstsq/_tsvd.py b/src/opinf/lstsq/_tsvd.py
index 02a2f50..e66845f 100644
--- a/src/opinf/lstsq/_tsvd.py
+++ b/src/opinf/lstsq/_tsvd.py
@@ -187,7 +187,8 @@ class TruncatedSVDSolver(SolverTemplate):
         """
         with utils.hdf5_savehandle(savefile, overwrite) as hf:
             self._save_dict(hf, "options")
-            hf.create_dataset("num_svdmodes", data=[self.num_svdmodes])
+            if self.num_svdmodes is not None:
+                hf.create_dataset("num_svdmodes", data=[self.num_svdmodes])
             if self.data_matrix is not None:
                 hf.create_dataset("data_matrix", data=self.data_matrix)
                 hf.create_dataset("lhs_matrix", data=self.lhs_matrix)
@@ -211,7 +212,9 @@ class TruncatedSVDSolver(SolverTemplate):
         """
         with utils.hdf5_loadhandle(loadfile) as hf:
             options = cls._load_dict(hf, "options")
-            num_svdmodes = int(hf["num_svdmodes"][0])
+            num_svdmodes = None
+            if "num_svdmodes" in hf:
+                num_svdmodes = int(hf["num_svdmodes"][0])
             solver = cls(num_svdmodes, lapack_driver=options["lapack_driver"])
             if "data_matrix" in hf:
                 D = hf["data_matrix"][:]
-- 
2.43.0


From be3a6d05def8adfd435c67f7c79f3e3573a04304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:27 +0000
Subject: [PATCH 23/72] fix: PODBasis residual energy and projection error
 criteria include equality as documented

---
 src/opinf/basis/_pod.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/opinf/basis/_pod.py b/src/opinf/basis/_pod.py
index 8a549f1..2d26cfa 100644
--- a/src/opinf/basis/_pod.py
+++ b/src/opinf/basis/_pod.py
@@ -578,7 +578,7 @@ class PODBasis(LinearBasis):
                     errors.OpInfWarning,
                 )
         elif criterion == "residual_energy":
-            r = np.count_nonzero(1 - energy >= value) + 1
+            r = np.count_nonzero(1 - energy > value) + 1
             if self.__energy_is_being_estimated:
                 warnings.warn(
                     "residual energy is being estimated from only "
@@ -586,7 +586,7 @@ class PODBasis(LinearBasis):
                     errors.OpInfWarning,
                 )
         elif criterion == "projection_error":
-            r = np.count_nonzero(np.sqrt(1 - energy) >= value) + 1
+            r = np.count_nonzero(np.sqrt(1 - energy) > value) + 1
             if self.__energy_is_being_estimated:
                 warnings.warn(
                     "projection error is being estimated from only "
-- 
2.43.0


From 51e29dad77b655422eb8c92d7a48cff354908972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:00 +0000
Subject: [PATCH 24/72] fix: compare and save bases with sparse weights that
 are not plain diagonals

---
 src/opinf/basis/_linear.py | 26 ++++++++++++++++++++------
 src/opinf/basis/_pod.py    |  6 ++----
 2 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/src/opinf/basis/_linear.py b/src/opinf/basis/_linear.py
index 4334ff3..9ae4939 100644
--- a/src/opinf/basis/_linear.py
+++ b/src/opinf/basis/_linear.py
@@ -14,6 +14,17 @@ from .. import errors, utils
 from ._base import BasisTemplate
 
 
+def _weights_to_array(weights):
+    """Convert weights to a dense array that can be saved: the diagonal of a
+    diagonal sparse matrix, all entries otherwise.
+    """
+    if not sparse.issparse(weights):
+        return weights
+    if isinstance(weights, sparse.dia_array) and list(weights.offsets) == [0]:
+        return weights.diagonal()
+    return weights.toarray()
+
+
 requires_entries = utils.requires2(
     "entries",
     "basis entries not initialized",
@@ -242,9 +253,14 @@ class LinearBasis(BasisTemplate):
         if (w1 := self.weights) is not None:
             if (w2 := other.weights) is None:
                 return False
-            if sparse.issparse(w1) and sparse.issparse(w2):
-                w1, w2 = w1.data[0], w2.data[0]
-            if not np.allclose(w1, w2):
+            if np.shape(w1) != np.shape(w2):
+                return False
+            if sparse.issparse(w1) or sparse.issparse(w2):
+                w1 = sparse.coo_array(w1)
+                w2 = sparse.coo_array(w2)
+                if not np.allclose((w1 - w2).data, 0):
+                    return False
+            elif not np.allclose(w1, w2):
                 return False
         return np.all(self.entries == other.entries)
 
@@ -266,9 +282,7 @@ class LinearBasis(BasisTemplate):
                 meta.attrs["name"] = self.name
             hf.create_dataset("entries", data=self.entries)
             if (w := self.weights) is not None:
-                if isinstance(w, sparse.dia_array):
-                    w = w.data[0]
-                hf.create_dataset("weights", data=w)
+                hf.create_dataset("weights", data=_weights_to_array(w))
 
     @classmethod
     def load(cls, loadfile: str):
diff --git a/src/opinf/basis/_pod.py b/src/opinf/basis/_pod.py
index 2d26cfa..cd725eb 100644
--- a/src/opinf/basis/_pod.py
+++ b/src/opinf/basis/_pod.py
@@ -20,7 +20,7 @@ import matplotlib.pyplot as plt
 
 from .. import errors, utils
 from ._base import BasisTemplate
-from ._linear import LinearBasis
+from ._linear import LinearBasis, _weights_to_array
 
 
 # Helper functions ============================================================
@@ -980,9 +980,7 @@ class PODBasis(LinearBasis):
                 )
 
             if (w := self.weights) is not None:
-                if isinstance(w, sparse.dia_array):
-                    w = w.data[0]
-                hf.create_dataset("weights", data=w)
+                hf.create_dataset("weights", data=_weights_to_array(w))
 
             if self.leftvecs is not None:
                 hf.create_dataset("leftvecs", data=self.leftvecs)
-- 
2.43.0


From e54936e9bcb38ca35ba4e2b7d4fb55197dae0cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:00 +0000
Subject: [PATCH 25/72] fix: save PODBasis objects without right singular
 vectors

---
 src/opinf/basis/_pod.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/opinf/basis/_pod.py b/src/opinf/basis/_pod.py
index cd725eb..a7e966f 100644
--- a/src/opinf/basis/_pod.py
+++ b/src/opinf/basis/_pod.py
@@ -985,7 +985,8 @@ class PODBasis(LinearBasis):
             if self.leftvecs is not None:
                 hf.create_dataset("leftvecs", data=self.leftvecs)
                 hf.create_dataset("svdvals", data=self.svdvals)
-                hf.create_dataset("rightvecs", data=self.rightvecs)
+                if self.rightvecs is not None:
+                    hf.create_dataset("rightvecs", data=self.rightvecs)
 
     @classmethod
     def load(cls, loadfile, max_vectors=None):
@@ -1025,7 +1026,8 @@ class PODBasis(LinearBasis):
                         kwargs["num_vectors"] = r
                 kwargs["leftvecs"] = hf["leftvecs"][:, :r]
                 kwargs["svdvals"] = hf["svdvals"][:]
-                kwargs["rightvecs"] = hf["rightvecs"][:, :r]
+                if "rightvecs" in hf:
+                    kwargs["rightvecs"] = hf["rightvecs"][:, :r]
                 return cls.from_svd(**kwargs)
 
             return cls(**kwargs)
-- 
2.43.0


From b6aa793dba8ec2dfc2a6d277d00b442e231db96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:17 +0000
Subject: [PATCH 26/72] fix: PODBasis.load() restores the reduced state
 dimension of the saved basis

---
 src/opinf/basis/_pod.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/opinf/basis/_pod.py b/src/opinf/basis/_pod.py
index a7e966f..ba6cea5 100644
--- a/src/opinf/basis/_pod.py
+++ b/src/opinf/basis/_pod.py
@@ -982,6 +982,9 @@ class PODBasis(LinearBasis):
             if (w := self.weights) is not None:
                 hf.create_dataset("weights", data=_weights_to_array(w))
 
+            if (r := self.reduced_state_dimension) is not None:
+                hf.create_dataset("reduced_state_dimension", data=[r])
+
             if self.leftvecs is not None:
                 hf.create_dataset("leftvecs", data=self.leftvecs)
                 hf.create_dataset("svdvals", data=self.svdvals)
@@ -1019,18 +1022,27 @@ class PODBasis(LinearBasis):
             if "weights" in hf:
                 kwargs["weights"] = hf["weights"][:]
 
+            dim = None
+            if "reduced_state_dimension" in hf:
+                dim = int(hf["reduced_state_dimension"][0])
+
             if "leftvecs" in hf:
                 if (r := max_vectors) is not None:
                     r = min(r, hf["leftvecs"].shape[1])
-                    if "num_vectors" in kwargs:
-                        kwargs["num_vectors"] = r
+                    if (nv := "num_vectors") in kwargs:
+                        kwargs[nv] = min(r, kwargs[nv])
                 kwargs["leftvecs"] = hf["leftvecs"][:, :r]
                 kwargs["svdvals"] = hf["svdvals"][:]
                 if "rightvecs" in hf:
                     kwargs["rightvecs"] = hf["rightvecs"][:, :r]
-                return cls.from_svd(**kwargs)
-
-            return cls(**kwargs)
+                basis = cls.from_svd(**kwargs)
+                if dim is not None:
+                    basis.reduced_state_dimension = min(dim, basis.max_vectors)
+                return basis
+
+            basis = cls(**kwargs)
+            BasisTemplate.reduced_state_dimension.fset(basis, dim)
+            return basis
 
 
 # Functional API ==============================================================
-- 
2.43.0


From 1b0ae2c85cf8cf5cfe45ff7583e95446ba3c0393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:47 +0000
Subject: [PATCH 27/72] fix: data refused by BasisMulti.fit() leaves the
 dimensions of the bases unchanged

---
 src/opinf/basis/_multi.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/opinf/basis/_multi.py b/src/opinf/basis/_multi.py
index a4e59bf..9db5593 100644
--- a/src/opinf/basis/_multi.py
+++ b/src/opinf/basis/_multi.py
@@ -315,7 +315,8 @@ class BasisMulti:
         -------
         self
         """
-        if self.full_state_dimension is None:
+        sizes = self.full_variable_sizes
+        if None in sizes:
             # Assume all state dimensions are equal.
             nx, remainder = divmod(states.shape[0], self.num_variables)
             if remainder != 0:
@@ -323,12 +324,23 @@ class BasisMulti:
                     "len(states) must be evenly divisible by "
                     f"the number of variables n_q = {self.num_variables}"
                 )
+            if any(ni not in (None, nx) for ni in sizes):
+                raise errors.DimensionalityError(
+                    f"full_variable_sizes = {sizes} inconsistent with "
+                    f"{self.num_variables} variables of size {nx}"
+                )
             for basis in self.bases:
                 BasisTemplate.full_state_dimension.fset(basis, nx)
 
         self._check_shape_full(states)
-        for basis, Q in zip(self.bases, self.split(states)):
-            basis.fit(Q)
+        try:
+            for basis, Q in zip(self.bases, self.split(states)):
+                basis.fit(Q)
+        except Exception:
+            # Training failed, do not keep newly determined dimensions.
+            for basis, ni in zip(self.bases, sizes):
+                BasisTemplate.full_state_dimension.fset(basis, ni)
+            raise
 
         return self
 
-- 
2.43.0


From 7d80ccd765bac5df4108553957f03c00e9bd97af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:47 +0000
Subject: [PATCH 28/72] fix: svdval_decay() of integer singular values

---
 src/opinf/basis/_pod.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opinf/basis/_pod.py b/src/opinf/basis/_pod.py
index ba6cea5..5cbb5c5 100644
--- a/src/opinf/basis/_pod.py
+++ b/src/opinf/basis/_pod.py
@@ -1150,7 +1150,7 @@ def svdval_decay(
         Number of singular values greater than the cutoff value(s).
     """
     singular_values = np.sort(singular_values)[::-1]
-    singular_values /= singular_values[0]
+    singular_values = singular_values / singular_values[0]
 
     # Calculate the number of singular values above the cutoff value(s).
     if threshold:
-- 
2.43.0


From 26d4523ba18819e84ebb1b2aeb2f369a1f9702ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:57 +0000
Subject: [PATCH 29/72] fix: PODBasis.save() and load() preserve the choice of
 SVD solver

---
 src/opinf/basis/_pod.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/opinf/basis/_pod.py b/src/opinf/basis/_pod.py
index 5cbb5c5..ce114a2 100644
--- a/src/opinf/basis/_pod.py
+++ b/src/opinf/basis/_pod.py
@@ -970,6 +970,9 @@ class PODBasis(LinearBasis):
             if self.name:
                 meta.attrs["name"] = self.name
 
+            if self.svdsolver != "custom":
+                meta.attrs["svdsolver"] = self.svdsolver
+
             meta.attrs["criterion_type"] = self.__criterion[0]
             hf.create_dataset("criterion_value", data=[self.__criterion[1]])
 
@@ -1038,10 +1041,12 @@ class PODBasis(LinearBasis):
                 basis = cls.from_svd(**kwargs)
                 if dim is not None:
                     basis.reduced_state_dimension = min(dim, basis.max_vectors)
-                return basis
+            else:
+                basis = cls(**kwargs)
+                BasisTemplate.reduced_state_dimension.fset(basis, dim)
 
-            basis = cls(**kwargs)
-            BasisTemplate.reduced_state_dimension.fset(basis, dim)
+            if "svdsolver" in attrs:
+                basis.svdsolver = attrs["svdsolver"]
             return basis
 
 
-- 
2.43.0


From bca925171d903633270ccbd64e756ddd04f1fef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:48 +0000
Subject: [PATCH 30/72] fix: method_of_snapshots() dropped the smallest
 singular value of full-rank data

---
 src/opinf/basis/_pod.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opinf/basis/_pod.py b/src/opinf/basis/_pod.py
index ce114a2..de78890 100644
--- a/src/opinf/basis/_pod.py
+++ b/src/opinf/basis/_pod.py
@@ -123,7 +123,7 @@ def method_of_snapshots(
     # By definition the Gramian is symmetric positive semi-definite.
     # If any eigenvalues are smaller than zero, they are only measuring
     # numerical error and can be truncated.
-    positives = eigvals > max(minthresh, abs(np.min(eigvals)))
+    positives = eigvals > max(minthresh, -np.min(eigvals))
     eigvecs = eigvecs[:, positives]
     eigvals = eigvals[positives]
 
-- 
2.43.0


From daafb37c5329cb87f0eeb9d33a673c4969efbea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:05 +0000
Subject: [PATCH 31/72] fix: BasisMulti.save() and load() preserve prescribed
 variable sizes

---
 src/opinf/basis/_multi.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/opinf/basis/_multi.py b/src/opinf/basis/_multi.py
index 9db5593..4f785be 100644
--- a/src/opinf/basis/_multi.py
+++ b/src/opinf/basis/_multi.py
@@ -489,6 +489,8 @@ class BasisMulti:
         """
         with utils.hdf5_savehandle(savefile, overwrite) as hf:
             hf.create_dataset("num_variables", data=[self.num_variables])
+            if None not in (sizes := self.full_variable_sizes):
+                hf.create_dataset("full_variable_sizes", data=sizes)
             for i, basis in enumerate(self.bases):
                 basis.save(hf.create_group(f"variable{i}"))
 
@@ -523,7 +525,11 @@ class BasisMulti:
                 for i in range(num_variables)
             ]
 
-            return cls(bases)
+            sizes = None
+            if "full_variable_sizes" in hf:
+                sizes = hf["full_variable_sizes"][:]
+
+            return cls(bases, sizes)
 
     # Verification ------------------------------------------------------------
     def verify(self):
-- 
2.43.0


From 956e82da6c0dcf09b18956db1c00e1e6d6e47fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:25 +0000
Subject: [PATCH 32/72] fix: transformers of integer states

---
 src/opinf/pre/_shiftscale.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/opinf/pre/_shiftscale.py b/src/opinf/pre/_shiftscale.py
index ceff958..e1caea0 100644
--- a/src/opinf/pre/_shiftscale.py
+++ b/src/opinf/pre/_shiftscale.py
@@ -277,7 +277,7 @@ class ShiftTransformer(TransformerTemplate):
             If the ``states`` do not align with the :attr:`state_dimension`.
         """
         self._check_shape(states)
-        Y = states if inplace else states.copy()
+        Y = states if inplace else 1.0 * states
         Y -= self.reference.reshape((-1, 1)) if Y.ndim > 1 else self.reference
         return Y
 
@@ -340,7 +340,7 @@ class ShiftTransformer(TransformerTemplate):
         else:
             self._check_shape(states_shifted)
 
-        Y = states_shifted if inplace else states_shifted.copy()
+        Y = states_shifted if inplace else 1.0 * states_shifted
         qbar = self.reference if locs is None else self.reference[locs]
         Y += qbar.reshape((-1, 1)) if Y.ndim > 1 else qbar
 
@@ -548,7 +548,7 @@ class ScaleTransformer(TransformerTemplate):
         """
         self._check_shape(states)
 
-        Y = states if inplace else states.copy()
+        Y = states if inplace else 1.0 * states
         _flip = self.byrow and Y.ndim > 1
         Y *= self.scaler.reshape((-1, 1)) if _flip else self.scaler
 
@@ -624,7 +624,7 @@ class ScaleTransformer(TransformerTemplate):
         else:
             self._check_shape(states_scaled)
 
-        Y = states_scaled if inplace else states_scaled.copy()
+        Y = states_scaled if inplace else 1.0 * states_scaled
         _flip = self.byrow and Y.ndim > 1
         Y /= scaler_.reshape((-1, 1)) if _flip else scaler_
 
@@ -1052,7 +1052,7 @@ class ShiftScaleTransformer(TransformerTemplate):
             raise ValueError("2D array required to fit transformer")
         self.state_dimension = states.shape[0]
 
-        Y = states if inplace else states.copy()
+        Y = states if inplace else 1.0 * states
         axis = 1 if self.byrow else None
 
         # Record statistics of the training data.
@@ -1177,7 +1177,7 @@ class ShiftScaleTransformer(TransformerTemplate):
         """
         self._check_is_trained()
         self._check_shape(states)
-        Y = states if inplace else states.copy()
+        Y = states if inplace else 1.0 * states
 
         # Center the snapshots by the mean training snapshot.
         if self.centering:
@@ -1223,7 +1223,7 @@ class ShiftScaleTransformer(TransformerTemplate):
         """
         self._check_is_trained()
         self._check_shape(ddts)
-        Z = ddts if inplace else ddts.copy()
+        Z = ddts if inplace else 1.0 * ddts
 
         if self.scaling is not None:
             _flip = self.byrow and Z.ndim > 1
@@ -1279,7 +1279,7 @@ class ShiftScaleTransformer(TransformerTemplate):
         else:
             self._check_shape(states_transformed)
 
-        Y = states_transformed if inplace else states_transformed.copy()
+        Y = states_transformed if inplace else 1.0 * states_transformed
 
         # Unscale (re-dimensionalize) the data.
         if self.scaling:
-- 
2.43.0


From 88291da8a1dd698f0408b96b904601bc10b79fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:29 +0000
Subject: [PATCH 33/72] fix: ROM decode() at selected locations without a basis

---
 src/opinf/roms/_base.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/opinf/roms/_base.py b/src/opinf/roms/_base.py
index e9448ca..6d8b0ce 100644
--- a/src/opinf/roms/_base.py
+++ b/src/opinf/roms/_base.py
@@ -251,6 +251,13 @@ class _BaseROM(abc.ABC):
         if self.basis is not None:
             inplace = True
             states = self.basis.decompress(states, locs=locs)
+        elif locs is not None:
+            if isinstance(self.transformer, pre.TransformerMulti):
+                states = np.concatenate(
+                    [Q[locs] for Q in self.transformer.split(states)]
+                )
+            else:
+                states = states[locs]
 
         # Reverse preprocessing.
         if self.transformer is not None:
-- 
2.43.0


From be237eb386f98574d288e81e1df5a9fce8d23c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:13 +0000
Subject: [PATCH 34/72] fix: ROM training data are checked trajectory by
 trajectory before anything is trained

---
 src/opinf/roms/_base.py | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/src/opinf/roms/_base.py b/src/opinf/roms/_base.py
index 6d8b0ce..7c8ab65 100644
--- a/src/opinf/roms/_base.py
+++ b/src/opinf/roms/_base.py
@@ -315,6 +315,39 @@ class _BaseROM(abc.ABC):
                 "argument 'inputs' required (model depends on external inputs)"
             )
 
+    def _check_alignment(self, parameters, states, lhs, inputs):
+        """Verify that the training data are aligned, trajectory by trajectory,
+        before any part of the ROM is trained.
+        """
+        for dataset, label in (
+            (parameters, "parameters"),
+            (lhs, "lhs"),
+            (inputs, "inputs"),
+        ):
+            if dataset is not None and len(dataset) != len(states):
+                raise errors.DimensionalityError(
+                    f"{len(states)} state trajectories but "
+                    f"len({label}) = {len(dataset)}"
+                )
+        for i, Q in enumerate(states):
+            if Q.shape[0] != states[0].shape[0]:
+                raise errors.DimensionalityError(
+                    "state trajectories do not have the same dimension"
+                )
+            if lhs is not None and lhs[i].shape != Q.shape:
+                raise errors.DimensionalityError(
+                    f"states[{i}] and lhs[{i}] not aligned"
+                )
+            if inputs is not None:
+                extra = inputs[i].shape[-1] - Q.shape[-1]
+                if lhs is None and not self._iscontinuous:
+                    # Final inputs are not needed, additional ones not used.
+                    extra = min(extra + 1, 0)
+                if extra != 0:
+                    raise errors.DimensionalityError(
+                        f"states[{i}] and inputs[{i}] not aligned"
+                    )
+
     @staticmethod
     def _fix_single_trajectory(states, lhs, inputs):
         """If data comes from a single trajectory, ``states``, ``lhs``, and/or
@@ -504,6 +537,7 @@ class _BaseROM(abc.ABC):
             states, lhs, inputs = self._fix_single_trajectory(
                 states, lhs, inputs
             )
+        self._check_alignment(parameters, states, lhs, inputs)
 
         states, lhs, inputs = self._process_training_data(
             states=states,
-- 
2.43.0


From 9188b9a180cf1913dc696c29d31dc52bbbc3e2db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:29 +0000
Subject: [PATCH 35/72] fix: UniformFiniteDifferencer refuses nonuniform time
 domains with small time steps

---
 src/opinf/ddt/_finite_difference.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/opinf/ddt/_finite_difference.py b/src/opinf/ddt/_finite_difference.py
index 88f3965..8385167 100644
--- a/src/opinf/ddt/_finite_difference.py
+++ b/src/opinf/ddt/_finite_difference.py
@@ -826,7 +826,7 @@ class UniformFiniteDifferencer(DerivativeEstimatorTemplate):
 
         # Check for uniform spacing.
         diffs = np.diff(time_domain)
-        if not np.allclose(diffs, diffs[0]):
+        if not np.allclose(diffs, diffs[0], atol=0):
             raise ValueError("time domain must be uniformly spaced")
 
         # Set the finite difference scheme.
@@ -945,7 +945,7 @@ class NonuniformFiniteDifferencer(DerivativeEstimatorTemplate):
         DerivativeEstimatorTemplate.__init__(self, time_domain)
 
         # Warn if time_domain in not uniform.
-        if np.allclose(diffs := np.diff(time_domain), diffs[0]):
+        if np.allclose(diffs := np.diff(time_domain), diffs[0], atol=0):
             warnings.warn(
                 "time_domain is uniformly spaced, consider using "
                 "UniformFiniteDifferencer",
-- 
2.43.0


From 809b9ad25f5cbf07ec7f84439dfcbf16c83ead36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:09 +0000
Subject: [PATCH 36/72] fix: refused training data leave a trained model as it
 was

fit() cleared the trained operators before checking the data.
---
 src/opinf/models/mono/_nonparametric.py | 29 +++++++-----
 src/opinf/models/mono/_parametric.py    | 62 +++++++++++++++++++------
 2 files changed, 66 insertions(+), 25 deletions(-)

diff --git a/src/opinf/models/mono/_nonparametric.py b/src/opinf/models/mono/_nonparametric.py
index a6b3804..6d3d1bc 100644
--- a/src/opinf/models/mono/_nonparametric.py
+++ b/src/opinf/models/mono/_nonparametric.py
@@ -132,20 +132,22 @@ class _NonparametricModel(_OpInfModel):
         dimensions, validating data sizes, and modifying the left-hand side
         data if there are any known operators.
         """
-        # Clear non-intrusive operator data.
-        self._clear()
+        # Only the known operators constrain the dimensions.
+        known = [self.operators[i] for i in self._indices_of_known_operators]
+        r = self._check_state_dimension_consistency(known)
+        m = self._check_input_dimension_consistency(known)
 
         def _check_valid_dimension0(dataset, label):
             """Dimension 0 must be r (state dimensions)."""
-            if (dim := dataset.shape[0]) != self.state_dimension:
+            if (dim := dataset.shape[0]) != r:
                 raise errors.DimensionalityError(
-                    f"{label}.shape[0] = {dim} != r = {self.state_dimension}"
+                    f"{label}.shape[0] = {dim} != r = {r}"
                 )
 
         # Process states, extract model dimension if needed.
         states = np.atleast_2d(states)
-        if self.state_dimension is None:
-            self.state_dimension = states.shape[0]
+        if r is None:
+            r = states.shape[0]
         _check_valid_dimension0(states, "states")
 
         def _check_valid_dimension1(dataset, label):
@@ -164,15 +166,20 @@ class _NonparametricModel(_OpInfModel):
         self._check_inputargs(inputs, "inputs")
         if self._has_inputs:
             inputs = np.atleast_2d(inputs)
-            if not self.input_dimension:
-                self.input_dimension = inputs.shape[0]
-            if inputs.shape[0] != self.input_dimension:
+            if not m:
+                m = inputs.shape[0]
+            if inputs.shape[0] != m:
                 raise errors.DimensionalityError(
-                    f"inputs.shape[0] = {inputs.shape[0]} "
-                    f"!= {self.input_dimension} = m"
+                    f"inputs.shape[0] = {inputs.shape[0]} != {m} = m"
                 )
             _check_valid_dimension1(inputs, "inputs")
 
+        # Clear non-intrusive operator data and set the dimensions.
+        self._clear()
+        self.state_dimension = r
+        if self._has_inputs:
+            self.input_dimension = m
+
         # Subtract known operator evaluations from the LHS.
         for i in self._indices_of_known_operators:
             lhs = lhs - self.operators[i].apply(states, inputs)
diff --git a/src/opinf/models/mono/_parametric.py b/src/opinf/models/mono/_parametric.py
index 9e109a1..be675bd 100644
--- a/src/opinf/models/mono/_parametric.py
+++ b/src/opinf/models/mono/_parametric.py
@@ -169,8 +169,17 @@ class _ParametricModel(_OpInfModel):
         dimensions, validating data sizes, and modifying the left-hand side
         data if there are any known operators.
         """
-        # Clear non-intrusive operator data.
-        self._clear()
+        # Untrained operators have nothing to lose: the data set dimensions.
+        if all(
+            oputils.is_uncalibrated(self.operators[i])
+            for i in self._indices_of_operators_to_infer
+        ):
+            self._clear()
+
+        # Only the known operators constrain the dimensions.
+        known = [self.operators[i] for i in self._indices_of_known_operators]
+        r = self._check_state_dimension_consistency(known)
+        m = self._check_input_dimension_consistency(known)
 
         # Process parameters.
         if (dim := len(shape := np.shape(parameters))) == 1:
@@ -181,7 +190,16 @@ class _ParametricModel(_OpInfModel):
             raise errors.DimensionalityError(
                 "'parameters' must be a sequence of scalars or 1D arrays"
             )
-        self._synchronize_parameter_dimensions(p)
+        for op in known:
+            if oputils.is_parametric(op) and op.parameter_dimension not in (
+                None,
+                p,
+            ):
+                raise errors.DimensionalityError(
+                    f"{op.parameter_dimension} = each "
+                    "operator.parameter_dimension != "
+                    f"parameter dimension = {p}"
+                )
         n_datasets = len(parameters)
 
         def _check_valid_dimension0(dataset, label):
@@ -195,16 +213,16 @@ class _ParametricModel(_OpInfModel):
         def _check_valid_dimension1(dataset, label):
             """Dimension 1 must be r (state dimensions)."""
             for i, subset in enumerate(dataset):
-                if (dim := len(subset)) != (r := self.state_dimension):
+                if (dim := len(subset)) != r:
                     raise errors.DimensionalityError(
                         f"len({label}[{i}]) = {dim} != {r} = r"
                     )
 
         # Process states, extract model dimension if needed.
         states = [np.atleast_2d(Q) for Q in states]
-        if self.state_dimension is None:
-            self.state_dimension = states[0].shape[0]
         _check_valid_dimension0(states, "states")
+        if r is None:
+            r = states[0].shape[0]
         _check_valid_dimension1(states, "states")
 
         def _check_valid_dimension2(dataset, label):
@@ -226,16 +244,16 @@ class _ParametricModel(_OpInfModel):
         self._check_inputargs(inputs, "inputs")
         if self._has_inputs:
             inputs = [np.atleast_2d(U) for U in inputs]
-            if not self.input_dimension:
-                self.input_dimension = inputs[0].shape[0]
             _check_valid_dimension0(inputs, "inputs")
+            if not m:
+                m = inputs[0].shape[0]
             for i, subset in enumerate(inputs):
-                if (dim := subset.shape[0]) != (m := self.input_dimension):
+                if (dim := subset.shape[0]) != m:
                     raise errors.DimensionalityError(
                         f"inputs[{i}].shape[0] = {dim} != {m} = m"
                     )
             _check_valid_dimension2(inputs, "inputs")
-        elif inputs is None:
+        else:
             inputs = [None] * n_datasets
 
         # Subtract known operator evaluations from the LHS.
@@ -250,6 +268,19 @@ class _ParametricModel(_OpInfModel):
 
         return parameters, states, lhs, inputs
 
+    def _reset_dimensions(self, parameters, states, inputs):
+        """Clear non-intrusive operator data and set the dimensions from
+        (processed) training data.
+        """
+        self._clear()
+        shape = np.shape(parameters)
+        self._synchronize_parameter_dimensions(
+            shape[1] if len(shape) == 2 else 1
+        )
+        self.state_dimension = states[0].shape[0]
+        if self._has_inputs:
+            self.input_dimension = inputs[0].shape[0]
+
     def _assemble_data_matrix(self, parameters, states, inputs):
         """Assemble the data matrix for operator inference."""
         blocks = []
@@ -274,14 +305,17 @@ class _ParametricModel(_OpInfModel):
             inputs_,
         ) = self._process_fit_arguments(parameters, states, lhs, inputs)
 
+        # Set up non-intrusive learning.
+        D = self._assemble_data_matrix(parameters_, states_, inputs_)
+        self.solver.fit(D, np.hstack(lhs_))
+        self._reset_dimensions(parameters_, states_, inputs_)
+
         # Set training_parameters for interpolatory operators.
-        for op in self.operators:
+        for i in self._indices_of_operators_to_infer:
+            op = self.operators[i]
             if oputils.is_interpolated(op):
                 op.set_training_parameters(parameters_)
 
-        # Set up non-intrusive learning.
-        D = self._assemble_data_matrix(parameters_, states_, inputs_)
-        self.solver.fit(D, np.hstack(lhs_))
         self.__s = len(parameters_)
 
     def _extract_operators(self, Ohat):
-- 
2.43.0


From 7b84be83050587b9d4a6401d201ff0c79308d0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:09 +0000
Subject: [PATCH 37/72] fix: interpolated models with known operators subtract
 them once

The known operators were subtracted from the left-hand sides and then once
more by every per-parameter model, and refit() cleared them.
---
 src/opinf/models/mono/_parametric.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/opinf/models/mono/_parametric.py b/src/opinf/models/mono/_parametric.py
index be675bd..4e0cef0 100644
--- a/src/opinf/models/mono/_parametric.py
+++ b/src/opinf/models/mono/_parametric.py
@@ -1177,10 +1177,8 @@ class _InterpModel(_ParametricModel):
         for i in range(n_datasets):
             model_i = self._ModelFitClass(
                 operators=[
-                    op._OperatorClass(
-                        op.entries[i] if op.entries is not None else None
-                    )
-                    for op in self.operators
+                    self.operators[ell]._OperatorClass()
+                    for ell in self._indices_of_operators_to_infer
                 ],
                 solver=self.solver.copy(),
             )
@@ -1191,9 +1189,10 @@ class _InterpModel(_ParametricModel):
             )
             nonparametric_models.append(model_i)
 
+        self._reset_dimensions(parameters_, states_, inputs_)
         self.solvers = [mdl.solver for mdl in nonparametric_models]
         self._submodels = nonparametric_models
-        self._training_parameters = parameters_
+        self._training_parameters = np.array(parameters_)
 
     def refit(self):
         """Evaluate the least-squares solver and process the results."""
@@ -1206,11 +1205,12 @@ class _InterpModel(_ParametricModel):
             submodel.refit()
 
         # Interpolate the resulting operators.
-        for ell, op in enumerate(self.operators):
+        for j, ell in enumerate(self._indices_of_operators_to_infer):
+            op = self.operators[ell]
             op._clear()
             op.set_training_parameters(self._training_parameters)
             op.set_entries(
-                [mdl.operators[ell].entries for mdl in self._submodels]
+                [mdl.operators[j].entries for mdl in self._submodels]
             )
 
         return self
-- 
2.43.0


From 046b4161db4567c8508c0ee8e108cd98547b0ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:18 +0000
Subject: [PATCH 38/72] fix: interpolated operators accept unsorted training
 parameters repeatedly

set_interpolator() replaced the default by the class chosen for the current
data and then passed it unsorted (or differently shaped) parameters.
---
 src/opinf/operators/_interpolate.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/opinf/operators/_interpolate.py b/src/opinf/operators/_interpolate.py
index 629d199..6d3b492 100644
--- a/src/opinf/operators/_interpolate.py
+++ b/src/opinf/operators/_interpolate.py
@@ -264,17 +264,18 @@ class _InterpOperator(ParametricOpInfOperator):
             entries = self.entries
 
             # Default interpolator classes.
-            if InterpolatorClass is None:
+            IClass = InterpolatorClass
+            if IClass is None:
                 if (dim := params.ndim) == 1:
-                    InterpolatorClass = spinterp.CubicSpline
+                    IClass = spinterp.CubicSpline
                     paramsort = np.argsort(params)
                     params = params[paramsort]
                     entries = self.entries[paramsort]
                 elif dim == 2:
-                    InterpolatorClass = spinterp.LinearNDInterpolator
+                    IClass = spinterp.LinearNDInterpolator
 
             # Do the interpolation.
-            self.__interpolator = InterpolatorClass(params, entries)
+            self.__interpolator = IClass(params, entries)
 
         self.__InterpolatorClass = InterpolatorClass
 
-- 
2.43.0


From 652e8cb8f3e35175e056a7d7efac237dc34275b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:38 +0000
Subject: [PATCH 39/72] fix: affine operators refuse parameters with the wrong
 number of coefficients

Superfluous terms were dropped silently, and a refused parameter fixed the
parameter dimension.
---
 src/opinf/operators/_affine.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/opinf/operators/_affine.py b/src/opinf/operators/_affine.py
index eb8ee04..4c4947f 100644
--- a/src/opinf/operators/_affine.py
+++ b/src/opinf/operators/_affine.py
@@ -177,6 +177,18 @@ class _AffineOperator(ParametricOpInfOperator):
         """
         return self.__thetas(parameter)
 
+    def _evaluate_coeffs(self, parameter):
+        """Evaluate the coefficient functions, one value for each term."""
+        theta_mus = self.coeffs(parameter)
+        if np.isscalar(theta_mus) or np.ndim(theta_mus) == 0:
+            theta_mus = [theta_mus]
+        if (n_coeffs := len(theta_mus)) != self.nterms:
+            raise ValueError(
+                f"{self.nterms} = number of affine expansion terms "
+                f"!= len(coeffs(parameter)) = {n_coeffs}"
+            )
+        return theta_mus
+
     @property
     def entries(self) -> list:
         r"""Operator matrices for each term of the affine expansion, i.e.,
@@ -247,12 +259,11 @@ class _AffineOperator(ParametricOpInfOperator):
         op : nonparametric :mod:`opinf.operators` operator
             Nonparametric operator corresponding to the parameter value.
         """
+        if self.parameter_dimension is not None:
+            self._check_parametervalue_dimension(parameter)
+        theta_mus = self._evaluate_coeffs(parameter)
         if self.parameter_dimension is None:
             self._set_parameter_dimension_from_values([parameter])
-        self._check_parametervalue_dimension(parameter)
-        theta_mus = self.coeffs(parameter)
-        if self.nterms == 1 and np.isscalar(theta_mus):
-            theta_mus = [theta_mus]
         entries = sum([tm * A for tm, A in zip(theta_mus, self.entries)])
         return self._OperatorClass(entries)
 
@@ -408,9 +419,7 @@ class _AffineOperator(ParametricOpInfOperator):
         blockcolumns = []
         for mu, Q, U in zip(parameters, states, inputs):
             Di = self._OperatorClass.datablock(Q, U)
-            theta_mus = self.coeffs(mu)
-            if self.nterms == 1 and np.isscalar(theta_mus):
-                theta_mus = [theta_mus]
+            theta_mus = self._evaluate_coeffs(mu)
             blockcolumns.append(np.vstack([theta * Di for theta in theta_mus]))
         return np.hstack(blockcolumns)
 
-- 
2.43.0


From d80d6714a8634aa9dfb3d151c10affac725c6e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:31 +0000
Subject: [PATCH 40/72] fix: numbers of data sets are checked before they are
 paired

zip() dropped superfluous state or input trajectories silently.
---
 src/opinf/models/mono/_nonparametric.py | 5 +++++
 src/opinf/models/mono/_parametric.py    | 4 ++++
 src/opinf/operators/_affine.py          | 1 +
 src/opinf/operators/_base.py            | 9 +++++++++
 src/opinf/operators/_interpolate.py     | 1 +
 5 files changed, 20 insertions(+)

diff --git a/src/opinf/models/mono/_nonparametric.py b/src/opinf/models/mono/_nonparametric.py
index 6d3d1bc..6666920 100644
--- a/src/opinf/models/mono/_nonparametric.py
+++ b/src/opinf/models/mono/_nonparametric.py
@@ -655,6 +655,11 @@ class DiscreteModel(_NonparametricModel):
         states = np.hstack([Q[:, :-1] for Q in statelist])
         nextstates = np.hstack([Q[:, 1:] for Q in statelist])
         if inputlist is not None:
+            if (n_inputs := len(inputlist)) != (n_states := len(statelist)):
+                raise errors.DimensionalityError(
+                    f"len(inputlist) = {n_inputs} "
+                    f"!= {n_states} = len(statelist)"
+                )
             inputs = np.hstack(
                 [
                     U[..., : (S.shape[1] - 1)]
diff --git a/src/opinf/models/mono/_parametric.py b/src/opinf/models/mono/_parametric.py
index 4e0cef0..b7d58a1 100644
--- a/src/opinf/models/mono/_parametric.py
+++ b/src/opinf/models/mono/_parametric.py
@@ -628,6 +628,10 @@ class _ParametricDiscreteMixin:
             nextstates = [Q[:, 1:] for Q in states]
             states = [Q[:, :-1] for Q in states]
         if inputs is not None:
+            if (n_inputs := len(inputs)) != (n_states := len(states)):
+                raise errors.DimensionalityError(
+                    f"len(inputs) = {n_inputs} != {n_states} = len(states)"
+                )
             inputs = [U[..., : Q.shape[1]] for U, Q in zip(inputs, states)]
         return super().fit(parameters, states, nextstates, inputs)
 
diff --git a/src/opinf/operators/_affine.py b/src/opinf/operators/_affine.py
index 4c4947f..a1eb884 100644
--- a/src/opinf/operators/_affine.py
+++ b/src/opinf/operators/_affine.py
@@ -416,6 +416,7 @@ class _AffineOperator(ParametricOpInfOperator):
         """
         if not isinstance(self, InputMixin):
             inputs = [None] * len(parameters)
+        self._check_dataset_sizes(parameters, states, inputs)
         blockcolumns = []
         for mu, Q, U in zip(parameters, states, inputs):
             Di = self._OperatorClass.datablock(Q, U)
diff --git a/src/opinf/operators/_base.py b/src/opinf/operators/_base.py
index ff93585..e6531af 100644
--- a/src/opinf/operators/_base.py
+++ b/src/opinf/operators/_base.py
@@ -1266,6 +1266,15 @@ class ParametricOpInfOperator(ParametricOperatorTemplate):
         if any(np.shape(A) != shape for A in iterable):
             raise ValueError(f"{prefix} shapes inconsistent")
 
+    @staticmethod
+    def _check_dataset_sizes(parameters, states, inputs) -> None:
+        """Ensure there is one data set for each parameter value."""
+        for dataset, label in ((states, "states"), (inputs, "inputs")):
+            if (size := len(dataset)) != (s := len(parameters)):
+                raise errors.DimensionalityError(
+                    f"len({label}) = {size} != {s} = len(parameters)"
+                )
+
     # Properties --------------------------------------------------------------
     @property
     def state_dimension(self) -> int:
diff --git a/src/opinf/operators/_interpolate.py b/src/opinf/operators/_interpolate.py
index 6d3b492..5b3a3da 100644
--- a/src/opinf/operators/_interpolate.py
+++ b/src/opinf/operators/_interpolate.py
@@ -446,6 +446,7 @@ class _InterpOperator(ParametricOpInfOperator):
         """
         if not issubclass(cls, InputMixin):
             inputs = [None] * len(parameters)
+        cls._check_dataset_sizes(parameters, states, inputs)
         return la.block_diag(
             *[
                 cls._OperatorClass.datablock(Q, U)
-- 
2.43.0


From 8b6e116eeebdc414cc8c710e261d6e155f1b815a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:53 +0000
Subject: [PATCH 41/72] fix: dimensions can be set on models with operators
 without entries

---
 src/opinf/models/mono/_base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/opinf/models/mono/_base.py b/src/opinf/models/mono/_base.py
index c21e056..e6c60ea 100644
--- a/src/opinf/models/mono/_base.py
+++ b/src/opinf/models/mono/_base.py
@@ -182,7 +182,10 @@ class _Model(abc.ABC):
         """
         if self.__operators is not None:
             for op in self.operators:
-                if op.entries is not None and op.state_dimension != r:
+                if (
+                    not oputils.is_uncalibrated(op)
+                    and op.state_dimension != r
+                ):
                     raise AttributeError(
                         "can't set attribute "
                         f"(existing operators have r = {self.__r})"
-- 
2.43.0


From 9baf5ddf84e5f6bcfda0eaecb89120977f6c79ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:11 +0000
Subject: [PATCH 42/72] fix: truncated SVD solvers use the requested number of
 modes for every training

---
 src/opinf/lstsq/_tsvd.py | 55 ++++++++++++++++++++++++----------------
 1 file changed, 33 insertions(+), 22 deletions(-)

diff --git a/src/opinf/lstsq/_tsvd.py b/src/opinf/lstsq/_tsvd.py
index e66845f..f36ffec 100644
--- a/src/opinf/lstsq/_tsvd.py
+++ b/src/opinf/lstsq/_tsvd.py
@@ -75,21 +75,37 @@ class TruncatedSVDSolver(SolverTemplate):
     @num_svdmodes.setter
     def num_svdmodes(self, nmodes: int):
         """Set the number of columns."""
-        if nmodes is None:
-            self.__nmodes = self.max_modes
-            return
-
-        if not isinstance(nmodes, int):
+        if nmodes is not None and not isinstance(nmodes, int):
             raise TypeError("num_svdmodes must be an integer")
 
+        requested = nmodes
         if self.data_matrix is not None:
             d = self.max_modes
+            if nmodes is None:
+                nmodes = d
             if nmodes <= 0:
                 nmodes = d + nmodes
             if nmodes > d or nmodes < 1:
                 raise ValueError(f"only {d} SVD modes available")
+        self.__requested = requested  # What to use for other training data.
         self.__nmodes = nmodes
 
+    def _set_num_svdmodes_from_request(self):
+        """Set the number of modes for the current training data."""
+        d = self.max_modes
+        if (n := self.__requested) is None:
+            n = d
+        if n <= 0:
+            n = d + n
+        if n > d:
+            warnings.warn(
+                f"only {d} SVD modes available, "
+                f"setting num_svdmodes={d} (was {n})",
+                errors.OpInfWarning,
+            )
+            n = d
+        self.__nmodes = n
+
     @property
     def options(self):
         """Keyword arguments for :func:`scipy.linalg.svd()`.
@@ -124,7 +140,7 @@ class TruncatedSVDSolver(SolverTemplate):
         """Save data matrices and prepare to solve the regression problem."""
         D, Z = self._check_data(data_matrix, lhs_matrix)
         d = min(D.shape)
-        if (n := self.num_svdmodes) is not None and n <= -d:
+        if (n := self.__requested) is not None and n <= -d:
             raise ValueError(f"only {d} SVD modes available")
         SolverTemplate.fit(self, D, Z)
 
@@ -134,19 +150,7 @@ class TruncatedSVDSolver(SolverTemplate):
         self._SinvPsiT = PsiT / svals.reshape((-1, 1))
 
         # Reset num_svdmodes.
-        d = self._ZPhi.shape[1]
-        if (n := self.num_svdmodes) is None:
-            n = d
-        if n <= 0:
-            n = d + n
-        if n > d:
-            warnings.warn(
-                f"only {d} SVD modes available, "
-                f"setting num_svdmodes={d} (was {n})",
-                errors.OpInfWarning,
-            )
-            n = d
-        self.__nmodes = n
+        self._set_num_svdmodes_from_request()
 
         return self
 
@@ -171,6 +175,11 @@ class TruncatedSVDSolver(SolverTemplate):
         """
         return self._svals[0] / self._svals[self.num_svdmodes - 1]
 
+    def reset(self) -> None:
+        """Reset the solver by erasing the data."""
+        super().reset()
+        self.__nmodes = self.__requested
+
     # Persistence -------------------------------------------------------------
     def save(self, savefile: str, overwrite: bool = False):
         """Serialize the solver, saving it in HDF5 format.
@@ -187,8 +196,8 @@ class TruncatedSVDSolver(SolverTemplate):
         """
         with utils.hdf5_savehandle(savefile, overwrite) as hf:
             self._save_dict(hf, "options")
-            if self.num_svdmodes is not None:
-                hf.create_dataset("num_svdmodes", data=[self.num_svdmodes])
+            if self.__requested is not None:
+                hf.create_dataset("num_svdmodes", data=[self.__requested])
             if self.data_matrix is not None:
                 hf.create_dataset("data_matrix", data=self.data_matrix)
                 hf.create_dataset("lhs_matrix", data=self.lhs_matrix)
@@ -222,16 +231,18 @@ class TruncatedSVDSolver(SolverTemplate):
                 SolverTemplate.fit(solver, D, Z)
                 for attr in ("_svals", "_ZPhi", "_SinvPsiT"):
                     setattr(solver, attr, hf[attr][:])
+                solver._set_num_svdmodes_from_request()
         return solver
 
     def copy(self):
         """Make a copy of the solver."""
         solver = self.__class__(
-            num_svdmodes=self.num_svdmodes,
+            num_svdmodes=self.__requested,
             lapack_driver=self.options["lapack_driver"],
         )
         if self.data_matrix is not None:
             SolverTemplate.fit(solver, self.data_matrix, self.lhs_matrix)
             for attr in ("_svals", "_ZPhi", "_SinvPsiT"):
                 setattr(solver, attr, getattr(self, attr))
+            solver._set_num_svdmodes_from_request()
         return solver
-- 
2.43.0


From 0d7027e17396032c0712f99ddf28639ea250a91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:20 +0000
Subject: [PATCH 43/72] fix: polynomial operators refuse entries of the wrong
 shape

---
 src/opinf/operators/_polynomial_operator.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/opinf/operators/_polynomial_operator.py b/src/opinf/operators/_polynomial_operator.py
index 0f6eaf5..ec63a34 100644
--- a/src/opinf/operators/_polynomial_operator.py
+++ b/src/opinf/operators/_polynomial_operator.py
@@ -189,6 +189,27 @@ class PolynomialOperator(OpInfOperator):
                 kept[p]
             ]
 
+    def set_entries(self, entries) -> None:
+        """Set the operator matrix.
+
+        Parameters
+        ----------
+        entries : (r, operator_dimension(r)) ndarray
+            Operator entries.
+            If ``polynomial_order=0``, may also be one-dimensional.
+        """
+        self._validate_entries(entries)
+        if np.ndim(entries) == 1 and self.polynomial_order == 0:
+            return OpInfOperator.set_entries(self, entries)
+        if entries.ndim != 2:
+            raise ValueError(
+                "PolynomialOperator entries must be two-dimensional"
+            )
+        r, d = entries.shape
+        if d != self.operator_dimension(r):
+            raise ValueError("invalid PolynomialOperator entries dimensions")
+        OpInfOperator.set_entries(self, entries)
+
     @utils.requires("entries")
     def apply(self, state: np.ndarray, input_=None) -> np.ndarray:
         r"""Apply the operator to the given state. Input is not used.
-- 
2.43.0


From 8252b689caf25285931c5dea555fccf791918ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:20 +0000
Subject: [PATCH 44/72] fix: Jacobians of untrained models are refused as
 untrained

---
 src/opinf/models/mono/_nonparametric.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/opinf/models/mono/_nonparametric.py b/src/opinf/models/mono/_nonparametric.py
index 6666920..2648fcb 100644
--- a/src/opinf/models/mono/_nonparametric.py
+++ b/src/opinf/models/mono/_nonparametric.py
@@ -391,7 +391,8 @@ class _NonparametricModel(_OpInfModel):
         jac : (r, r) ndarray
             State Jacobian of the right-hand side of the model.
         """
-        r = self.state_dimension
+        if (r := self.state_dimension) is None:
+            self._check_is_trained()
         out = np.zeros((r, r), dtype=np.result_type(state, float))
         for op in self.operators:
             out += op.jacobian(state, input_)
-- 
2.43.0


From ef1b9c53358af52b211774969e11f0e7e3dc6ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:58 +0000
Subject: [PATCH 45/72] fix: copied and loaded models can be trained again like
 the original

---
 src/opinf/models/mono/_base.py          | 43 ++++++++++++++-
 src/opinf/models/mono/_nonparametric.py | 15 +++---
 src/opinf/models/mono/_parametric.py    | 71 +++++++++++++++++++------
 3 files changed, 105 insertions(+), 24 deletions(-)

diff --git a/src/opinf/models/mono/_base.py b/src/opinf/models/mono/_base.py
index e6c60ea..afc250d 100644
--- a/src/opinf/models/mono/_base.py
+++ b/src/opinf/models/mono/_base.py
@@ -320,7 +320,48 @@ class _Model(abc.ABC):
     def copy(self):
         """Make a copy of the model."""
         sol = self.solver.copy() if self.solver is not None else None
-        return self.__class__([op.copy() for op in self.operators], solver=sol)
+        model = self.__class__([op.copy() for op in self.operators])
+        model._restore(
+            self._indices_of_operators_to_infer,
+            self._indices_of_known_operators,
+            self.state_dimension,
+            self.input_dimension,
+            sol,
+        )
+        return model
+
+    def _restore(self, indices_infer, indices_known, r, m, solver):
+        """Restore attributes that the operators alone do not determine."""
+        self._indices_of_operators_to_infer = list(indices_infer)
+        self._indices_of_known_operators = list(indices_known)
+        self._fully_intrusive = len(self._indices_of_operators_to_infer) == 0
+        if r:
+            self.state_dimension = r
+        if m and self._has_inputs:
+            self.input_dimension = m
+        self.solver = solver
+
+    @staticmethod
+    def _save_solver(hf, solver):
+        """Save the solver in a group of the HDF5 file ``hf``."""
+        group = hf.create_group("solver")
+        solver.save(group)
+        group.attrs["class"] = solver.__class__.__name__
+
+    @staticmethod
+    def _load_solver(hf):
+        """Load the solver from a group of the HDF5 file ``hf``."""
+        if "solver" not in hf or "class" not in hf["solver"].attrs:
+            return None
+        SolverClassName = hf["solver"].attrs["class"]
+        if not hasattr(lstsq, SolverClassName):
+            warnings.warn(
+                f"unknown solver class '{SolverClassName}', "
+                "solver not loaded",
+                errors.OpInfWarning,
+            )
+            return None
+        return getattr(lstsq, SolverClassName).load(hf["solver"])
 
 
 class _OpInfModel(_Model):
diff --git a/src/opinf/models/mono/_nonparametric.py b/src/opinf/models/mono/_nonparametric.py
index 2648fcb..afe4f96 100644
--- a/src/opinf/models/mono/_nonparametric.py
+++ b/src/opinf/models/mono/_nonparametric.py
@@ -438,7 +438,7 @@ class _NonparametricModel(_OpInfModel):
             for i, op in enumerate(self.operators):
                 op.save(hf.create_group(f"operator_{i}"))
             if self.solver is not None:
-                self.solver.save(hf.create_group("solver"))
+                self._save_solver(hf, self.solver)
 
     @classmethod
     def load(cls, loadfile: str):
@@ -470,12 +470,13 @@ class _NonparametricModel(_OpInfModel):
 
             # Construct the model.
             model = cls(ops)
-            model._indices_of_operators_to_infer = indices_infer
-            model._indices_of_known_operators = indices_known
-            if r := int(hf["meta"].attrs["r"]):
-                model.state_dimension = r
-            if (m := int(hf["meta"].attrs["m"])) and model._has_inputs:
-                model.input_dimension = m
+            model._restore(
+                indices_infer,
+                indices_known,
+                int(hf["meta"].attrs["r"]),
+                int(hf["meta"].attrs["m"]),
+                cls._load_solver(hf),
+            )
 
         return model
 
diff --git a/src/opinf/models/mono/_parametric.py b/src/opinf/models/mono/_parametric.py
index b7d58a1..3a5b08c 100644
--- a/src/opinf/models/mono/_parametric.py
+++ b/src/opinf/models/mono/_parametric.py
@@ -29,6 +29,7 @@ class _ParametricModel(_OpInfModel):
     """Base class for parametric monolithic models."""
 
     _ModelClass = NotImplemented  # Must be specified by child classes.
+    _num_datasets = None  # Number of training parameters, set in fit().
 
     # ModelClass properties ---------------------------------------------------
     @property
@@ -316,7 +317,7 @@ class _ParametricModel(_OpInfModel):
             if oputils.is_interpolated(op):
                 op.set_training_parameters(parameters_)
 
-        self.__s = len(parameters_)
+        self._num_datasets = len(parameters_)
 
     def _extract_operators(self, Ohat):
         """Unpack the operator matrix and populate operator entries."""
@@ -325,7 +326,9 @@ class _ParametricModel(_OpInfModel):
             op = self.operators[i]
             if oputils.is_parametric(op):
                 endex = index + op.operator_dimension(
-                    self.__s, self.state_dimension, self.input_dimension
+                    self._num_datasets,
+                    self.state_dimension,
+                    self.input_dimension,
                 )
                 op.set_entries(Ohat[:, index:endex], fromblock=True)
             else:
@@ -425,6 +428,12 @@ class _ParametricModel(_OpInfModel):
         self._fit_solver(parameters, states, lhs, inputs)
         return self.refit()
 
+    def copy(self):
+        """Make a copy of the model."""
+        model = _OpInfModel.copy(self)
+        model._num_datasets = self._num_datasets
+        return model
+
     # Parametric evaluation ---------------------------------------------------
     def evaluate(self, parameter):
         """Construct a nonparametric model by fixing the parameter value.
@@ -1194,9 +1203,13 @@ class _InterpModel(_ParametricModel):
             nonparametric_models.append(model_i)
 
         self._reset_dimensions(parameters_, states_, inputs_)
-        self.solvers = [mdl.solver for mdl in nonparametric_models]
-        self._submodels = nonparametric_models
-        self._training_parameters = np.array(parameters_)
+        self._set_submodels(np.array(parameters_), nonparametric_models)
+
+    def _set_submodels(self, parameters, submodels):
+        """Store the (fitted) nonparametric models for each parameter."""
+        self.solvers = [mdl.solver for mdl in submodels]
+        self._submodels = submodels
+        self._training_parameters = parameters
 
     def refit(self):
         """Evaluate the least-squares solver and process the results."""
@@ -1276,6 +1289,16 @@ class _InterpModel(_ParametricModel):
                 for i, op in enumerate(self.operators):
                     op.save(hf.create_group(f"operator_{i}"))
 
+            # Regression data.
+            if self.solver is not None:
+                self._save_solver(hf, self.solver)
+            if self._submodels is not None:
+                hf.create_dataset(
+                    "training_parameters", data=self._training_parameters
+                )
+                for i, submodel in enumerate(self._submodels):
+                    submodel.save(hf.create_group(f"submodel_{i}"))
+
     @classmethod
     def load(cls, loadfile: str, InterpolatorClass: type = None):
         """Load a serialized model from an HDF5 file, created previously from
@@ -1336,22 +1359,38 @@ class _InterpModel(_ParametricModel):
                 ops.append(OpClass.load(gp, InterpolatorClass))
 
             # Construct the model.
-            model = cls(ops)
-            model._indices_of_operators_to_infer = indices_infer
-            model._indices_of_known_operators = indices_known
-            if r := int(hf["meta"].attrs["r"]):
-                model.state_dimension = r
-            if (m := int(hf["meta"].attrs["m"])) and model._has_inputs:
-                model.input_dimension = m
+            model = cls(ops, InterpolatorClass=InterpolatorClass)
+            model._restore(
+                indices_infer,
+                indices_known,
+                int(hf["meta"].attrs["r"]),
+                int(hf["meta"].attrs["m"]),
+                cls._load_solver(hf),
+            )
+
+            # Load regression data.
+            if "training_parameters" in hf:
+                params = hf["training_parameters"][:]
+                model._set_submodels(
+                    params,
+                    [
+                        model._ModelFitClass.load(hf[f"submodel_{i}"])
+                        for i in range(len(params))
+                    ],
+                )
 
         return model
 
     def copy(self):
         """Make a copy of the model."""
-        return self.__class__(
-            operators=[op.copy() for op in self.operators],
-            InterpolatorClass=self.__InterpolatorClass,
-        )
+        model = _ParametricModel.copy(self)
+        model.set_interpolator(self.__InterpolatorClass)
+        if self._submodels is not None:
+            model._set_submodels(
+                self._training_parameters.copy(),
+                [submodel.copy() for submodel in self._submodels],
+            )
+        return model
 
 
 class InterpDiscreteModel(_ParametricDiscreteMixin, _InterpModel):
-- 
2.43.0


From f40293ed9f52cfb24b344f124dbe8f2a90affe58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:10 +0000
Subject: [PATCH 46/72] fix: models returned by evaluate() are not changed by
 later fits

---
 src/opinf/models/mono/_parametric.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/opinf/models/mono/_parametric.py b/src/opinf/models/mono/_parametric.py
index 3a5b08c..9f58109 100644
--- a/src/opinf/models/mono/_parametric.py
+++ b/src/opinf/models/mono/_parametric.py
@@ -450,7 +450,11 @@ class _ParametricModel(_OpInfModel):
         """
         return self._ModelClass(
             [
-                op.evaluate(parameter) if oputils.is_parametric(op) else op
+                (
+                    op.evaluate(parameter)
+                    if oputils.is_parametric(op)
+                    else op.copy()
+                )
                 for op in self.operators
             ]
         )
-- 
2.43.0


From d82d7739d66db75a16654a9592690bcb66477214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:26 +0000
Subject: [PATCH 47/72] fix: timed blocks measure wall time, convert only their
 own time limit, and restore alarms, handlers and output

---
 src/opinf/utils/_timer.py | 62 +++++++++++++++++++++++++++------------
 1 file changed, 44 insertions(+), 18 deletions(-)

diff --git a/src/opinf/utils/_timer.py b/src/opinf/utils/_timer.py
index af7e39f..898c887 100644
--- a/src/opinf/utils/_timer.py
+++ b/src/opinf/utils/_timer.py
@@ -104,7 +104,7 @@ class TimedBlock:
         """Store print/log message."""
         if not message:
             message = ""
-        self.__original_stdout = sys.stdout
+        self.__original_stdout = None
         self.__new_buffer = None
         self.__front = "\n" if message.endswith("\n") else ""
         self.message = "" if message is None else message.rstrip()
@@ -112,6 +112,8 @@ class TimedBlock:
         if timelimit is not None:
             timelimit = max(int(timelimit), 1)
         self.__timelimit = timelimit
+        self.__timeout = None
+        self.__alarmset = False
         self.__elapsed = None
 
     @property
@@ -124,41 +126,68 @@ class TimedBlock:
         """Actual time (in seconds) the block took to complete."""
         return self.__elapsed
 
-    @staticmethod
-    def _signal_handler(signum, frame):
-        raise TimeoutError("timed out!")
+    def _signal_handler(self, signum, frame):
+        self.__timeout = TimeoutError("timed out!")
+        raise self.__timeout
+
+    def _set_alarm(self):
+        """Set an alarm for the time limit, unless the alarm of an enclosing
+        block goes off earlier.
+        """
+        self.__timeout = None
+        self.__enclosing = signal.getitimer(signal.ITIMER_REAL)[0]
+        self.__alarmset = not 0 < self.__enclosing <= self.timelimit
+        if self.__alarmset:
+            self.__old_handler = signal.signal(
+                signal.SIGALRM,
+                self._signal_handler,
+            )
+            signal.setitimer(signal.ITIMER_REAL, self.timelimit)
+
+    def _unset_alarm(self):
+        """Cancel the alarm and reinstate what was in force before."""
+        if not self.__alarmset:
+            return
+        self.__alarmset = False
+        signal.setitimer(signal.ITIMER_REAL, 0)
+        signal.signal(signal.SIGALRM, self.__old_handler)
+        if self.__enclosing > 0:
+            remaining = self.__enclosing - (time.perf_counter() - self._tic)
+            signal.setitimer(signal.ITIMER_REAL, max(remaining, 1e-6))
 
     def _reset_stdout(self):
+        if self.__new_buffer is None:
+            return
         text = self.__new_buffer.getvalue()
         sys.stdout = self.__original_stdout
+        self.__new_buffer = None
         print(text, end="", flush=True)
 
     def __enter__(self):
         """Print the message and record the current time."""
         if self.rebuffer:
+            self.__original_stdout = sys.stdout
             sys.stdout = self.__new_buffer = io.StringIO()
         if self.verbose:
             print(f"{self.message}...", end=self.__front, flush=True)
-        self._tic = time.process_time()
+        self._tic = time.perf_counter()
         if self.timelimit is not None:
-            signal.signal(signal.SIGALRM, self._signal_handler)
-            signal.alarm(self.timelimit)
+            self._set_alarm()
         return self
 
     def __exit__(self, exc_type, exc_value, exc_traceback):
         """Calculate and report the elapsed time."""
-        self._toc = time.process_time()
-        if self.timelimit is not None:
-            signal.alarm(0)
+        self._toc = time.perf_counter()
+        self._unset_alarm()
         elapsed = self._toc - self._tic
+        self.__elapsed = elapsed
         if exc_type:  # Report an exception if present.
-            if self.timelimit is not None and exc_type is TimeoutError:
+            if exc_value is self.__timeout:
                 if self.message:
                     print(flush=True)
                 report = f"TIMED OUT after {elapsed:.2f} s."
                 logging.info(f"{self.message}...{report}")
-                if self.rebuffer:
-                    self._reset_stdout()
+                self._reset_stdout()
                 raise TimeoutError(report)
             print(f"{exc_type.__name__}: {exc_value}")
             logging.info(self.message)
@@ -166,16 +195,13 @@ class TimedBlock:
                 f"({exc_type.__name__}) {exc_value} "
                 f"(raised after {elapsed:.6f} s)"
             )
-            if self.rebuffer:
-                self._reset_stdout()
+            self._reset_stdout()
             raise
         else:  # If no exception, report execution time.
             if self.verbose and self.message:
                 print(f"done in {elapsed:.2f} s.", flush=True, end=self.__back)
             logging.info(f"{self.message}...done in {elapsed:.6f} s.")
-        self.__elapsed = elapsed
-        if self.rebuffer:
-            self._reset_stdout()
+        self._reset_stdout()
         return
 
     @classmethod
-- 
2.43.0


From ecc72a8b4fa3fba27346cd80612eda7e51cc1407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:26 +0000
Subject: [PATCH 48/72] fix: regularization selection resets the solver before
 fitting data of another dimension

---
 src/opinf/roms/_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/opinf/roms/_base.py b/src/opinf/roms/_base.py
index 7c8ab65..f27ec42 100644
--- a/src/opinf/roms/_base.py
+++ b/src/opinf/roms/_base.py
@@ -712,7 +712,7 @@ class _BaseROM(abc.ABC):
 
         # Reset the solver (in case the basis dimension changed between calls).
         interp = modutils.is_interpolatory(self.model)
-        if hasattr(self.model, "reset"):
+        if hasattr(self.model.solver, "reset"):
             self.model.solver.reset()
 
         # Fit the model for the first time.
@@ -935,7 +935,7 @@ class _BaseROM(abc.ABC):
 
         # Reset the solver (in case the basis dimension changed between calls).
         interp = modutils.is_interpolatory(self.model)
-        if hasattr(self.model, "reset"):
+        if hasattr(self.model.solver, "reset"):
             self.model.solver.reset()
 
         # Fit the model for the first time and get compressed training data.
-- 
2.43.0


From 72bc9a837224169a28d0de7a1fd80a321a52c1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:26 +0000
Subject: [PATCH 49/72] fix: stability is tested over exactly the requested
 time after the training regime

---
 src/opinf/roms/_base.py  | 9 +++++----
 src/opinf/roms/_bayes.py | 9 +++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/opinf/roms/_base.py b/src/opinf/roms/_base.py
index f27ec42..3af868b 100644
--- a/src/opinf/roms/_base.py
+++ b/src/opinf/roms/_base.py
@@ -744,11 +744,12 @@ class _BaseROM(abc.ABC):
             time_domains = []
             for t_train in train_time_domains:
                 dt = np.mean(np.diff(t_train))
+                num_test = max(1, int(np.ceil(test_time_length / dt)))
                 t_test = t_train[-1] + np.linspace(
-                    dt,
-                    dt + test_time_length,
-                    int(test_time_length / dt),
-                )
+                    0,
+                    test_time_length,
+                    num_test + 1,
+                )[1:]
                 time_domains.append(np.concatenate(((t_train, t_test))))
         else:
             time_domains = train_time_domains
diff --git a/src/opinf/roms/_bayes.py b/src/opinf/roms/_bayes.py
index d0dad63..1be5843 100644
--- a/src/opinf/roms/_bayes.py
+++ b/src/opinf/roms/_bayes.py
@@ -323,11 +323,12 @@ class _BayesianROMMixin:
             time_domains = []
             for t_train in train_time_domains:
                 dt = np.mean(np.diff(t_train))
+                num_test = max(1, int(np.ceil(test_time_length / dt)))
                 t_test = t_train[-1] + np.linspace(
-                    dt,
-                    dt + test_time_length,
-                    int(test_time_length / dt),
-                )
+                    0,
+                    test_time_length,
+                    num_test + 1,
+                )[1:]
                 time_domains.append(np.concatenate(((t_train, t_test))))
         else:
             time_domains = train_time_domains
-- 
2.43.0


From e8c83717124aa69555f56382d37c110d2b23a099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:26 +0000
Subject: [PATCH 50/72] fix: discrete regularization selection ignored the last
 training snapshot and test iteration

---
 src/opinf/roms/_base.py  | 5 +++--
 src/opinf/roms/_bayes.py | 3 ++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/opinf/roms/_base.py b/src/opinf/roms/_base.py
index 3af868b..71d51ad 100644
--- a/src/opinf/roms/_base.py
+++ b/src/opinf/roms/_base.py
@@ -939,8 +939,8 @@ class _BaseROM(abc.ABC):
         if hasattr(self.model.solver, "reset"):
             self.model.solver.reset()
 
-        # Fit the model for the first time and get compressed training data.
-        states_ = self._fit_model(
+        # Fit the model for the first time.
+        self._fit_model(
             parameters=parameters,
             states=states,
             lhs=None,
@@ -951,6 +951,7 @@ class _BaseROM(abc.ABC):
         )
 
         # Set up the regularization selection.
+        states_ = [self.encode(Q) for Q in states]
         shifts, limits = self._get_stability_limits(states_, stability_margin)
         processed_test_cases = self._process_test_cases(
             test_cases, utils.DiscreteRegTest
diff --git a/src/opinf/roms/_bayes.py b/src/opinf/roms/_bayes.py
index 1be5843..b0ca488 100644
--- a/src/opinf/roms/_bayes.py
+++ b/src/opinf/roms/_bayes.py
@@ -448,7 +448,7 @@ class _BayesianROMMixin:
         # Fit the model for the first time.
         if hasattr(self.model.solver, "reset"):
             self.model.solver.reset()
-        states_ = self._fit_model(
+        self._fit_model(
             parameters=parameters,
             states=states,
             lhs=None,
@@ -459,6 +459,7 @@ class _BayesianROMMixin:
         )
 
         # Set up the regularization selection.
+        states_ = [self.encode(Q) for Q in states]
         shifts, limits = self._get_stability_limits(states_, stability_margin)
         processed_test_cases = self._process_test_cases(
             test_cases, utils.DiscreteRegTest
-- 
2.43.0


From d0d1ef57f0c47a0886cfcbbef7efe0acb66e3fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:26 +0000
Subject: [PATCH 51/72] fix: regularization candidates with non-finite
 predictions in the testing regime are unstable

---
 src/opinf/roms/_base.py  | 2 +-
 src/opinf/roms/_bayes.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/opinf/roms/_base.py b/src/opinf/roms/_base.py
index 71d51ad..ef23856 100644
--- a/src/opinf/roms/_base.py
+++ b/src/opinf/roms/_base.py
@@ -735,7 +735,7 @@ class _BaseROM(abc.ABC):
 
         def unstable(_Q, ell, size):
             """Return ``True`` if the solution is unstable."""
-            if _Q.shape[-1] != size:
+            if _Q.shape[-1] != size or not np.isfinite(_Q).all():
                 return True
             return np.abs(_Q - shifts[ell]).max() > limits[ell]
 
diff --git a/src/opinf/roms/_bayes.py b/src/opinf/roms/_bayes.py
index b0ca488..b31386b 100644
--- a/src/opinf/roms/_bayes.py
+++ b/src/opinf/roms/_bayes.py
@@ -314,7 +314,7 @@ class _BayesianROMMixin:
 
         def unstable(_Q, ell, size):
             """Return ``True`` if the solution is unstable."""
-            if _Q.shape[-1] != size:
+            if _Q.shape[-1] != size or not np.isfinite(_Q).all():
                 return True
             return np.abs(_Q - shifts[ell]).max() > limits[ell]
 
-- 
2.43.0


From b512ac4cd3cc9fa88d0b275502d85fdc60fc8427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:26 +0000
Subject: [PATCH 52/72] fix: refuse fewer training time domains than
 trajectories

---
 src/opinf/roms/_base.py  | 5 +++++
 src/opinf/roms/_bayes.py | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/opinf/roms/_base.py b/src/opinf/roms/_base.py
index ef23856..0f2b830 100644
--- a/src/opinf/roms/_base.py
+++ b/src/opinf/roms/_base.py
@@ -687,6 +687,11 @@ class _BaseROM(abc.ABC):
         # Validate arguments.
         if np.isscalar(train_time_domains[0]):
             train_time_domains = [train_time_domains] * len(states)
+        if len(train_time_domains) != len(states):
+            raise errors.DimensionalityError(
+                f"{len(states)} state trajectories but "
+                f"{len(train_time_domains)} time domains detected"
+            )
         for t, Q in zip(train_time_domains, states):
             if t.shape != (Q.shape[1],):
                 raise errors.DimensionalityError(
diff --git a/src/opinf/roms/_bayes.py b/src/opinf/roms/_bayes.py
index b31386b..36f73a4 100644
--- a/src/opinf/roms/_bayes.py
+++ b/src/opinf/roms/_bayes.py
@@ -269,6 +269,11 @@ class _BayesianROMMixin:
         # Validate arguments.
         if np.isscalar(train_time_domains[0]):
             train_time_domains = [train_time_domains] * len(states)
+        if len(train_time_domains) != len(states):
+            raise errors.DimensionalityError(
+                f"{len(states)} state trajectories but "
+                f"{len(train_time_domains)} time domains detected"
+            )
         for t, Q in zip(train_time_domains, states):
             if t.shape != (Q.shape[1],):
                 raise errors.DimensionalityError(
-- 
2.43.0


From 7c027644d8ea46a32744f8b5ed2a5884ea1c60c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:26 +0000
Subject: [PATCH 53/72] fix: Bayesian regularization selection left operators
 of a rejected candidate in the model

---
 src/opinf/roms/_bayes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/opinf/roms/_bayes.py b/src/opinf/roms/_bayes.py
index 36f73a4..187ee07 100644
--- a/src/opinf/roms/_bayes.py
+++ b/src/opinf/roms/_bayes.py
@@ -401,6 +401,7 @@ class _BayesianROMMixin:
         )
 
         update_model(best_regularization)
+        self.model._extract_operators(np.array(self.posterior.means))
         return self
 
     def fit_regselect_discrete(
@@ -540,6 +541,7 @@ class _BayesianROMMixin:
         )
 
         update_model(best_regularization)
+        self.model._extract_operators(np.array(self.posterior.means))
         return self
 
 
-- 
2.43.0


From 994e4935511988214332d156dc6255b0a822d0fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:11 +0000
Subject: [PATCH 54/72] fix: draws of operator posteriors with given
 covariances or loaded from file

---
 src/opinf/roms/_bayes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opinf/roms/_bayes.py b/src/opinf/roms/_bayes.py
index 187ee07..7e496a2 100644
--- a/src/opinf/roms/_bayes.py
+++ b/src/opinf/roms/_bayes.py
@@ -156,7 +156,7 @@ class OperatorPosterior:
         Ohat : (r, d) ndarray
             Operator matrix sampled from :math:`p(\Ohat)`.
         """
-        ohats = [rv.rvs()[0] for rv in self.randomvariables]
+        ohats = [np.ravel(rv.rvs()) for rv in self.randomvariables]
         return np.array(ohats) if self.__rvsasarray else ohats
 
     # Model persistance -------------------------------------------------------
-- 
2.43.0


From a8849aabe62d0cc3a07918a0706faf486933c0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:11 +0000
Subject: [PATCH 55/72] fix: OperatorPosterior.save() does not overwrite files
 unless requested

---
 src/opinf/roms/_bayes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opinf/roms/_bayes.py b/src/opinf/roms/_bayes.py
index 7e496a2..fc88488 100644
--- a/src/opinf/roms/_bayes.py
+++ b/src/opinf/roms/_bayes.py
@@ -160,7 +160,7 @@ class OperatorPosterior:
         return np.array(ohats) if self.__rvsasarray else ohats
 
     # Model persistance -------------------------------------------------------
-    def save(self, savefile, overwrite=True):
+    def save(self, savefile, overwrite=False):
         """Save the posterior operator distribution.
 
         Parameters
-- 
2.43.0


From 4ba2a4a6f25cb39de169825ae753eafb499ae7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:12 +0000
Subject: [PATCH 56/72] fix: verify() does not write and delete files in the
 working directory

---
 src/opinf/lstsq/_base.py     | 11 ++++++-----
 src/opinf/operators/_base.py | 11 ++++++-----
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/opinf/lstsq/_base.py b/src/opinf/lstsq/_base.py
index 7c0f274..1f44fb3 100644
--- a/src/opinf/lstsq/_base.py
+++ b/src/opinf/lstsq/_base.py
@@ -10,6 +10,7 @@ __all__ = [
 import os
 import abc
 import copy
+import tempfile
 import warnings
 import numpy as np
 import scipy.linalg as la
@@ -308,7 +309,8 @@ class SolverTemplate(abc.ABC):
         if self.data_matrix is None:
             return print("cannot verify solve() before calling fit()")
 
-        tempfile = "_solververification.h5"
+        tempdir = tempfile.TemporaryDirectory()
+        savefile = os.path.join(tempdir.name, "_solververification.h5")
 
         def _make_copy(solver):
             newsolver = solver.copy()
@@ -345,14 +347,13 @@ class SolverTemplate(abc.ABC):
 
             # Verify save()/load().
             try:
-                self2.save(tempfile, overwrite=True)
-                self3 = self2.load(tempfile)
+                self2.save(savefile, overwrite=True)
+                self3 = self2.load(savefile)
                 _check_equality(self2, self3, Ohat, "save()/load()")
             except NotImplementedError:
                 print("save() and/or load() not implemented")
         finally:
-            if os.path.isfile(tempfile):
-                os.remove(tempfile)
+            tempdir.cleanup()
 
 
 class PlainSolver(SolverTemplate):
diff --git a/src/opinf/operators/_base.py b/src/opinf/operators/_base.py
index e6531af..423b747 100644
--- a/src/opinf/operators/_base.py
+++ b/src/opinf/operators/_base.py
@@ -13,6 +13,7 @@ import os
 import abc
 import copy
 import types
+import tempfile
 import numpy as np
 import scipy.linalg as la
 import scipy.sparse as sparse
@@ -463,10 +464,11 @@ class OperatorTemplate(abc.ABC):
         print("copy() preserves the results of apply()")
 
         # Verify save()/load() - - - - - - - - - - - - - - - - - - - - - - - -
-        tempfile = "_operatorverification.h5"
+        tempdir = tempfile.TemporaryDirectory()
+        savefile = os.path.join(tempdir.name, "_operatorverification.h5")
         try:
-            self.save(tempfile)
-            out = self.load(tempfile)
+            self.save(savefile)
+            out = self.load(savefile)
         except NotImplementedError:  # pragma: no cover
             print("save() and/or load() not implemented")
         else:
@@ -493,8 +495,7 @@ class OperatorTemplate(abc.ABC):
                     )
             print("save()/load() preserves the results of apply()")
         finally:
-            if os.path.isfile(tempfile):  # pragma: no cover
-                os.remove(tempfile)
+            tempdir.cleanup()
 
 
 def is_nonparametric(obj) -> bool:
-- 
2.43.0


From 68bfcea9dc394ec51950f8792599ae51f28c5896 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:35:08 +0000
Subject: [PATCH 57/72] fix: verify() of time derivative estimators measures
 errors at the returned times

---
 src/opinf/ddt/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opinf/ddt/_base.py b/src/opinf/ddt/_base.py
index bca7c1a..afbe094 100644
--- a/src/opinf/ddt/_base.py
+++ b/src/opinf/ddt/_base.py
@@ -283,7 +283,7 @@ class DerivativeEstimatorTemplate(abc.ABC):
 
             # Use new states to infer the indices of the returns.
             start = np.argmin(
-                la.norm(Q - Q_est[:, 0].reshape((-1, 1))), axis=0
+                la.norm(Q - Q_est[:, 0].reshape((-1, 1)), axis=0)
             )
             s = slice(start, start + Q_est.shape[1])
             truth = dQdt[:, s]
-- 
2.43.0


From e57017663511d7a1e2b6a6f43826618a57fcac6f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:35:08 +0000
Subject: [PATCH 58/72] fix: a failed verify() leaves the time domain of the
 derivative estimator alone

---
 src/opinf/ddt/_base.py          | 46 +++++++++++++++++----------------
 src/opinf/ddt/_interpolation.py |  7 ++---
 2 files changed, 28 insertions(+), 25 deletions(-)

diff --git a/src/opinf/ddt/_base.py b/src/opinf/ddt/_base.py
index afbe094..f979e1d 100644
--- a/src/opinf/ddt/_base.py
+++ b/src/opinf/ddt/_base.py
@@ -271,28 +271,31 @@ class DerivativeEstimatorTemplate(abc.ABC):
         estimation_errors["dts"] = dts
 
         t_base = np.arange(1001)
-        for dt in dts:
-            # Construct test cases.
-            t = 1 + (dt * t_base)
-            Q = np.array([test[1](t) for test in self.__tests])
-            dQdt = np.array([test[2](t) for test in self.__tests])
-            self.__t = t
-
-            # Call the derivative estimator.
-            Q_est, dQdt_est = self.estimate(Q, None)
-
-            # Use new states to infer the indices of the returns.
-            start = np.argmin(
-                la.norm(Q - Q_est[:, 0].reshape((-1, 1)), axis=0)
-            )
-            s = slice(start, start + Q_est.shape[1])
-            truth = dQdt[:, s]
+        try:
+            for dt in dts:
+                # Construct test cases.
+                t = 1 + (dt * t_base)
+                Q = np.array([test[1](t) for test in self.__tests])
+                dQdt = np.array([test[2](t) for test in self.__tests])
+                self.__t = t
+
+                # Call the derivative estimator.
+                Q_est, dQdt_est = self.estimate(Q, None)
+
+                # Use new states to infer the indices of the returns.
+                start = np.argmin(
+                    la.norm(Q - Q_est[:, 0].reshape((-1, 1)), axis=0)
+                )
+                s = slice(start, start + Q_est.shape[1])
+                truth = dQdt[:, s]
 
-            # Calculate the relative error of the time derivative estimate.
-            denom = la.norm(truth, axis=1)
-            errs = la.norm(dQdt_est - truth, axis=1) / denom
-            for test, err in zip(self.__tests, errs):
-                estimation_errors[test[0]].append(err)
+                # Calculate the relative error of the time derivative estimate.
+                denom = la.norm(truth, axis=1)
+                errs = la.norm(dQdt_est - truth, axis=1) / denom
+                for test, err in zip(self.__tests, errs):
+                    estimation_errors[test[0]].append(err)
+        finally:
+            self.__t = time_domain  # Restore original time domain.
 
         if plot:
             _, ax = plt.subplots(1, 1)
@@ -325,6 +328,5 @@ class DerivativeEstimatorTemplate(abc.ABC):
                 for dt, err in zip(dts, estimation_errors[name]):
                     print(f"dt = {dt:.1e}:\terror = {err:.4e}")
 
-        self.__t = time_domain  # Restore original time domain.
         if return_errors:
             return estimation_errors
diff --git a/src/opinf/ddt/_interpolation.py b/src/opinf/ddt/_interpolation.py
index 9517d7d..90464b9 100644
--- a/src/opinf/ddt/_interpolation.py
+++ b/src/opinf/ddt/_interpolation.py
@@ -241,6 +241,7 @@ class InterpDerivativeEstimator(DerivativeEstimatorTemplate):
     def verify(self, plot=False, return_errors=False):
         new_time_domain = self.__t2
         self.__t2 = None
-        out = super().verify(plot, return_errors)
-        self.__t2 = new_time_domain
-        return out
+        try:
+            return super().verify(plot, return_errors)
+        finally:
+            self.__t2 = new_time_domain
-- 
2.43.0


From 785c952be1d6b7bd3b84238d694547a9726ac768 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:35:08 +0000
Subject: [PATCH 59/72] fix: verify() of operators checks Jacobians that are
 reported to be zero

---
 src/opinf/operators/_base.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/opinf/operators/_base.py b/src/opinf/operators/_base.py
index 423b747..231536e 100644
--- a/src/opinf/operators/_base.py
+++ b/src/opinf/operators/_base.py
@@ -345,6 +345,14 @@ class OperatorTemplate(abc.ABC):
         else:
             if np.isscalar(out) and out == 0:  # pragma: no cover
                 print("jacobian() = 0")
+                diffs = [
+                    la.norm(_gradient(lambda x: self.apply(x, u), q, h))
+                    for h in np.logspace(-10, -1, 10)
+                ]
+                if np.min(diffs) > fdifftol:
+                    raise errors.VerificationError(
+                        "jacobian() finite difference check failed"
+                    )
             elif not isinstance(out, np.ndarray) or out.shape != (
                 r,
                 r,
-- 
2.43.0


From 8660e34176f165443f2e09ad13b7310a2ea432d7 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:40:00 +0000
Subject: [PATCH 60/72] fix: weighted PODBasis can change from the method of
 snapshots to another SVD solver

---
 src/opinf/basis/_pod.py | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/src/opinf/basis/_pod.py b/src/opinf/basis/_pod.py
index de78890..d35110d 100644
--- a/src/opinf/basis/_pod.py
+++ b/src/opinf/basis/_pod.py
@@ -286,23 +286,28 @@ class PODBasis(LinearBasis):
         self.__residual_energy = None
 
         # Store weights (separate from LinearBasis.__weights)
+        self.__sqrt_weights = None
         if (
             weights is not None
             and self.__svdsolverlabel != "method-of-snapshots"
         ):
-            if weights.ndim == 1:
-                self.__sqrt_weights = np.sqrt(weights)
-            else:  # (weights.ndim == 2, checked by LinearBasis)
-                if sparse.issparse(weights):
-                    weights = weights.toarray()
-                if weights.shape[0] > 100:  # pragma: no cover
-                    warnings.warn(
-                        "computing the square root of a large weight matrix, "
-                        "consider using svdsolver='method-of-snapshots'",
-                        errors.OpInfWarning,
-                    )
-                self.__sqrt_weights = la.sqrtm(weights)
-                self.__sqrt_weights_cho = la.cho_factor(self.__sqrt_weights)
+            self.__set_sqrt_weights(weights)
+
+    def __set_sqrt_weights(self, weights):
+        """Compute the (factorized) square root of the weights."""
+        if weights.ndim == 1:
+            self.__sqrt_weights = np.sqrt(weights)
+        else:  # (weights.ndim == 2, checked by LinearBasis)
+            if sparse.issparse(weights):
+                weights = weights.toarray()
+            if weights.shape[0] > 100:  # pragma: no cover
+                warnings.warn(
+                    "computing the square root of a large weight matrix, "
+                    "consider using svdsolver='method-of-snapshots'",
+                    errors.OpInfWarning,
+                )
+            self.__sqrt_weights = la.sqrtm(weights)
+            self.__sqrt_weights_cho = la.cho_factor(self.__sqrt_weights)
 
     @classmethod
     def from_svd(
@@ -700,6 +705,8 @@ class PODBasis(LinearBasis):
             self.weights is not None
             and self.__svdsolverlabel != "method-of-snapshots"
         ):
+            if self.__sqrt_weights is None:
+                self.__set_sqrt_weights(_weights_to_array(self.weights))
             if states.shape[0] != (nW := self.__sqrt_weights.shape[0]):
                 raise errors.DimensionalityError(
                     f"states not aligned with weights, should have {nW:d} rows"
-- 
2.43.0


From 7b19e6810e222f4c40aa929b186950bbdbd386c1 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:41:20 +0000
Subject: [PATCH 61/72] fix: PODBasis keeps singular vectors and values
 together for solvers that do not sort them

---
 src/opinf/basis/_pod.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/opinf/basis/_pod.py b/src/opinf/basis/_pod.py
index d35110d..dc060e8 100644
--- a/src/opinf/basis/_pod.py
+++ b/src/opinf/basis/_pod.py
@@ -651,14 +651,21 @@ class PODBasis(LinearBasis):
         self._set_dimension_from_criterion()
 
     # Fitting -----------------------------------------------------------------
-    def _store_svd(self, left, svdvals, right):
-        """Store the singular value decomposition, normalizing the singular
-        values.
+    def _store_svd(self, left, svdvals, right, keep=None):
+        """Store the singular value decomposition (at most ``keep`` singular
+        vectors) in order of decreasing singular values, normalizing the
+        singular values.
         """
-        self.__leftvecs = left
-        svdvals = np.sort(svdvals)[::-1]
+        svdvals = np.asarray(svdvals)
+        order = np.argsort(-svdvals, kind="stable")
+        if not np.array_equal(order, np.arange(order.size)):
+            svdvals = svdvals[order]
+            left = left[:, order[order < left.shape[1]]]
+            if right is not None:
+                right = right[:, order[order < right.shape[1]]]
+        self.__leftvecs = left[:, :keep]
         self.__svdvals = svdvals / svdvals[0]
-        self.__rightvecs = right
+        self.__rightvecs = None if right is None else right[:, :keep]
 
     def fit(self, states):
         """Compute the POD basis entries by taking the SVD of the states.
@@ -728,9 +735,10 @@ class PODBasis(LinearBasis):
 
         # Store the results.
         self._store_svd(
-            left=V[:, :keep],
+            left=V,
             svdvals=svdvals,
-            right=Wt[:keep, :].T,
+            right=Wt.T,
+            keep=keep,
         )
         self._set_dimension_from_criterion()
 
-- 
2.43.0


From 7c216141a9ac7614c490649cc993b977932d1996 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:41:42 +0000
Subject: [PATCH 62/72] fix: saving a PODBasis keeps the options of its SVD
 solver

---
 src/opinf/basis/_pod.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/opinf/basis/_pod.py b/src/opinf/basis/_pod.py
index dc060e8..e8b5918 100644
--- a/src/opinf/basis/_pod.py
+++ b/src/opinf/basis/_pod.py
@@ -987,6 +987,10 @@ class PODBasis(LinearBasis):
 
             if self.svdsolver != "custom":
                 meta.attrs["svdsolver"] = self.svdsolver
+                options = hf.create_dataset("svdsolver_options", shape=(0,))
+                for key, value in self.svdsolver_options.items():
+                    if isinstance(value, (bool, int, float, str, np.number)):
+                        options.attrs[key] = value
 
             meta.attrs["criterion_type"] = self.__criterion[0]
             hf.create_dataset("criterion_value", data=[self.__criterion[1]])
@@ -1062,6 +1066,12 @@ class PODBasis(LinearBasis):
 
             if "svdsolver" in attrs:
                 basis.svdsolver = attrs["svdsolver"]
+            if "svdsolver_options" in hf:
+                options = hf["svdsolver_options"].attrs
+                basis.svdsolver_options = {
+                    key: val.item() if isinstance(val, np.generic) else val
+                    for key, val in options.items()
+                }
             return basis
 
 
-- 
2.43.0


From fe7abefbb1e7a5e9aecd298360bd3668b3c6918c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:45 +0000
Subject: [PATCH 63/72] fix: a refused list of operators leaves the model as it
 was

---
 src/opinf/models/mono/_base.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/opinf/models/mono/_base.py b/src/opinf/models/mono/_base.py
index afc250d..2a209e3 100644
--- a/src/opinf/models/mono/_base.py
+++ b/src/opinf/models/mono/_base.py
@@ -79,7 +79,7 @@ class _Model(abc.ABC):
 
         toinfer = []  # Operators to infer (no entries yet).
         known = []  # Operators whose entries are set.
-        self._has_inputs = False  # Whether any operators use inputs.
+        has_inputs = False  # Whether any operators use inputs.
         ops = list(ops)
         for i in range(len(ops)):
             op = ops[i]
@@ -99,12 +99,15 @@ class _Model(abc.ABC):
             else:
                 known.append(i)
             if oputils.has_inputs(op):
-                self._has_inputs = True
+                has_inputs = True
         self._check_operator_types_unique([ops[i] for i in toinfer])
+        r = self._check_state_dimension_consistency(ops)
+        m = self._check_input_dimension_consistency(ops)
 
         # Store attributes.
-        self.__r = self._check_state_dimension_consistency(ops)
-        self.__m = self._check_input_dimension_consistency(ops)
+        self.__r = r
+        self.__m = m
+        self._has_inputs = has_inputs
         self.__operators = ops
         self._indices_of_operators_to_infer = toinfer
         self._indices_of_known_operators = known
-- 
2.43.0


From 8c0bf6765da055642687b6be96f2e9c1e89b4eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:05 +0000
Subject: [PATCH 64/72] fix: a parametric model refuses operators with
 inconsistent parameter dimensions before using them

---
 src/opinf/models/mono/_base.py       |  8 ++++++++
 src/opinf/models/mono/_parametric.py | 13 +++++++++----
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/opinf/models/mono/_base.py b/src/opinf/models/mono/_base.py
index 2a209e3..21efca8 100644
--- a/src/opinf/models/mono/_base.py
+++ b/src/opinf/models/mono/_base.py
@@ -103,6 +103,7 @@ class _Model(abc.ABC):
         self._check_operator_types_unique([ops[i] for i in toinfer])
         r = self._check_state_dimension_consistency(ops)
         m = self._check_input_dimension_consistency(ops)
+        self._check_parameter_dimension_consistency(ops)
 
         # Store attributes.
         self.__r = r
@@ -173,6 +174,13 @@ class _Model(abc.ABC):
             )
         return rs.pop() if len(rs) == 1 else None
 
+    @staticmethod
+    def _check_parameter_dimension_consistency(ops):
+        """Ensure all operators have the same parameter dimension
+        (for models with parametric operators only).
+        """
+        return None
+
     @property
     def state_dimension(self):
         """Dimension :math:`r` of the state."""
diff --git a/src/opinf/models/mono/_parametric.py b/src/opinf/models/mono/_parametric.py
index 9f58109..1db48a9 100644
--- a/src/opinf/models/mono/_parametric.py
+++ b/src/opinf/models/mono/_parametric.py
@@ -127,12 +127,13 @@ class _ParametricModel(_OpInfModel):
         r"""Dimension :math:`p` of a parameter vector :math:`\bfmu`."""
         return self.__p
 
-    def _synchronize_parameter_dimensions(self, newdim=None):
-        """Synchronize the parameter_dimension attribute for each operator."""
+    @staticmethod
+    def _check_parameter_dimension_consistency(ops):
+        """Ensure all parametric operators have the same parameter dimension."""
         # Get any non-None parameter dimensions and check for uniqueness.
         ps = {
             op.parameter_dimension
-            for op in self.operators
+            for op in ops
             if oputils.is_parametric(op) and op.parameter_dimension is not None
         }
         if len(ps) > 1:
@@ -140,7 +141,11 @@ class _ParametricModel(_OpInfModel):
                 "operators not aligned "
                 "(parameter_dimension must be the same for all operators)"
             )
-        p = ps.pop() if len(ps) == 1 else None
+        return ps.pop() if len(ps) == 1 else None
+
+    def _synchronize_parameter_dimensions(self, newdim=None):
+        """Synchronize the parameter_dimension attribute for each operator."""
+        p = self._check_parameter_dimension_consistency(self.operators)
 
         # Check operator parameter_dimension matches new parameter_dimension.
         if newdim is not None:
-- 
2.43.0


From e2ade09eb875ffe35c4b95fb1e95f4fea6c1e46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:05 +0000
Subject: [PATCH 65/72] fix: a model that is given operators to infer after its
 construction has a solver

---
 src/opinf/models/mono/_base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/opinf/models/mono/_base.py b/src/opinf/models/mono/_base.py
index 21efca8..87d1b4e 100644
--- a/src/opinf/models/mono/_base.py
+++ b/src/opinf/models/mono/_base.py
@@ -382,6 +382,9 @@ class _OpInfModel(_Model):
     @property
     def solver(self):
         """Solver for the least-squares regression, see :mod:`opinf.lstsq`."""
+        if self.__solver is None and not self._fully_intrusive:
+            # There were no operators to infer when the solver was set.
+            self.__solver = lstsq.PlainSolver()
         return self.__solver
 
     @solver.setter
-- 
2.43.0


From 16a3814b07150d41e9ecd0da6afca9808a7dd315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:22 +0000
Subject: [PATCH 66/72] fix: parametric models tell polynomial operators of
 different orders apart

---
 src/opinf/models/mono/_parametric.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/opinf/models/mono/_parametric.py b/src/opinf/models/mono/_parametric.py
index 1db48a9..a61df6a 100644
--- a/src/opinf/models/mono/_parametric.py
+++ b/src/opinf/models/mono/_parametric.py
@@ -70,10 +70,21 @@ class _ParametricModel(_OpInfModel):
         """Raise a ValueError if any two operators represent the same kind
         of operation (e.g., two constant operators).
         """
-        OpClasses = {
-            (op._OperatorClass if oputils.is_parametric(op) else type(op))
-            for op in ops
-        }
+        polynomials = (
+            _operators.ConstantOperator,
+            _operators.LinearOperator,
+            _operators.QuadraticOperator,
+            _operators.CubicOperator,
+            _operators.QuarticOperator,
+        )
+
+        def operation(op):
+            if isinstance(op, _operators.PolynomialOperator):
+                p = op.polynomial_order
+                return polynomials[p] if p < len(polynomials) else p
+            return op._OperatorClass if oputils.is_parametric(op) else type(op)
+
+        OpClasses = {operation(op) for op in ops}
         if len(OpClasses) != len(ops):
             raise ValueError("duplicate type in list of operators to infer")
 
-- 
2.43.0


From 64f77432c677ba0c988012d1a5c0e962f5eeb053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:22 +0000
Subject: [PATCH 67/72] fix: interpolatory operators do not keep entries that
 cannot be interpolated

---
 src/opinf/operators/_interpolate.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/opinf/operators/_interpolate.py b/src/opinf/operators/_interpolate.py
index 5b3a3da..9940f2a 100644
--- a/src/opinf/operators/_interpolate.py
+++ b/src/opinf/operators/_interpolate.py
@@ -232,11 +232,16 @@ class _InterpOperator(ParametricOpInfOperator):
                 f"!= len(entries) = {n_arrays}"
             )
 
+        old_entries = self.entries
         ParametricOpInfOperator.set_entries(
             self,
             np.array([self._OperatorClass(A).entries for A in entries]),
         )
-        self.set_interpolator(self.__InterpolatorClass)
+        try:
+            self.set_interpolator(self.__InterpolatorClass)
+        except Exception:
+            ParametricOpInfOperator.set_entries(self, old_entries)
+            raise
 
     # Interpolation -----------------------------------------------------------
     @property
-- 
2.43.0


From 28fd65301c94429d1f10eb43d0a7ea885a200990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:14 +0000
Subject: [PATCH 68/72] fix: refused ROM training and regularization selection
 leave the ROM as it was

---
 src/opinf/roms/_base.py  | 50 ++++++++++++++++++++++++++++++++++++++--
 src/opinf/roms/_bayes.py |  4 ++++
 2 files changed, 52 insertions(+), 2 deletions(-)

diff --git a/src/opinf/roms/_base.py b/src/opinf/roms/_base.py
index 0f2b830..c4c6622 100644
--- a/src/opinf/roms/_base.py
+++ b/src/opinf/roms/_base.py
@@ -315,7 +315,7 @@ class _BaseROM(abc.ABC):
                 "argument 'inputs' required (model depends on external inputs)"
             )
 
-    def _check_alignment(self, parameters, states, lhs, inputs):
+    def _check_alignment(self, parameters, states, lhs, inputs, fit_basis):
         """Verify that the training data are aligned, trajectory by trajectory,
         before any part of the ROM is trained.
         """
@@ -347,6 +347,46 @@ class _BaseROM(abc.ABC):
                     raise errors.DimensionalityError(
                         f"states[{i}] and inputs[{i}] not aligned"
                     )
+                if np.atleast_2d(inputs[i]).shape[0] != (
+                    np.atleast_2d(inputs[0]).shape[0]
+                ):
+                    raise errors.DimensionalityError(
+                        "input trajectories do not have the same dimension"
+                    )
+            if lhs is None and self._iscontinuous:
+                # Time derivatives can be estimated from these data.
+                if inputs is None:
+                    self.ddt_estimator.estimate(Q[:1])
+                else:
+                    self.ddt_estimator.estimate(Q[:1], inputs[i])
+
+        # Compare to the parts of the ROM that are not trained.
+        known = [
+            self.model.operators[i]
+            for i in self.model._indices_of_known_operators
+        ]
+        Q = states[0][:, :1]
+        if self.lifter is not None:
+            Q = self.lifter.lift(Q)
+        if self.basis is None:
+            n = self.model._check_state_dimension_consistency(known)
+        else:
+            n = None if fit_basis else self.basis.full_state_dimension
+        if n is not None and Q.shape[0] != n:
+            raise errors.DimensionalityError(
+                f"states[0].shape[0] = {Q.shape[0]} != {n}"
+            )
+        m = self.model._check_input_dimension_consistency(known)
+        if m and np.atleast_2d(inputs[0]).shape[0] != m:
+            raise errors.DimensionalityError(
+                f"inputs[0].shape[0] = {len(inputs[0])} != {m} = m"
+            )
+        p = self.model._check_parameter_dimension_consistency(known)
+        if p is not None and np.size(parameters[0]) != p:
+            raise errors.DimensionalityError(
+                f"{p} = each operator.parameter_dimension "
+                f"!= parameter dimension = {np.size(parameters[0])}"
+            )
 
     @staticmethod
     def _fix_single_trajectory(states, lhs, inputs):
@@ -537,7 +577,7 @@ class _BaseROM(abc.ABC):
             states, lhs, inputs = self._fix_single_trajectory(
                 states, lhs, inputs
             )
-        self._check_alignment(parameters, states, lhs, inputs)
+        self._check_alignment(parameters, states, lhs, inputs, fit_basis)
 
         states, lhs, inputs = self._process_training_data(
             states=states,
@@ -715,6 +755,9 @@ class _BaseROM(abc.ABC):
         if regularizer_factory is None:
             regularizer_factory = _identity
 
+        self._check_fit_args(lhs=ddts, inputs=inputs)
+        self._check_alignment(parameters, states, ddts, inputs, fit_basis)
+
         # Reset the solver (in case the basis dimension changed between calls).
         interp = modutils.is_interpolatory(self.model)
         if hasattr(self.model.solver, "reset"):
@@ -939,6 +982,9 @@ class _BaseROM(abc.ABC):
         if regularizer_factory is None:
             regularizer_factory = _identity
 
+        self._check_fit_args(lhs=None, inputs=inputs)
+        self._check_alignment(parameters, states, None, inputs, fit_basis)
+
         # Reset the solver (in case the basis dimension changed between calls).
         interp = modutils.is_interpolatory(self.model)
         if hasattr(self.model.solver, "reset"):
diff --git a/src/opinf/roms/_bayes.py b/src/opinf/roms/_bayes.py
index fc88488..46829bd 100644
--- a/src/opinf/roms/_bayes.py
+++ b/src/opinf/roms/_bayes.py
@@ -298,6 +298,8 @@ class _BayesianROMMixin:
             regularizer_factory = _identity
 
         # Fit the model for the first time.
+        self._check_fit_args(lhs=ddts, inputs=inputs)
+        self._check_alignment(parameters, states, ddts, inputs, fit_basis)
         if hasattr(self.model.solver, "reset"):
             self.model.solver.reset()
         self._fit_model(
@@ -452,6 +454,8 @@ class _BayesianROMMixin:
             regularizer_factory = _identity
 
         # Fit the model for the first time.
+        self._check_fit_args(lhs=None, inputs=inputs)
+        self._check_alignment(parameters, states, None, inputs, fit_basis)
         if hasattr(self.model.solver, "reset"):
             self.model.solver.reset()
         self._fit_model(
-- 
2.43.0


From 0569e980fa1d5fc9a15ce1392620f119de823a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:14 +0000
Subject: [PATCH 69/72] fix: refuse more input functions than trajectories

---
 src/opinf/roms/_base.py  | 5 +++++
 src/opinf/roms/_bayes.py | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/opinf/roms/_base.py b/src/opinf/roms/_base.py
index c4c6622..01003cd 100644
--- a/src/opinf/roms/_base.py
+++ b/src/opinf/roms/_base.py
@@ -740,6 +740,11 @@ class _BaseROM(abc.ABC):
         if input_functions is not None:
             if callable(input_functions):  # one global input function.
                 input_functions = [input_functions] * len(states)
+            if len(input_functions) != len(states):
+                raise errors.DimensionalityError(
+                    f"{len(states)} state trajectories but "
+                    f"{len(input_functions)} input functions detected"
+                )
             if not callable(input_functions[0]):
                 raise TypeError(
                     "argument 'input_functions' must be sequence of callables"
diff --git a/src/opinf/roms/_bayes.py b/src/opinf/roms/_bayes.py
index 46829bd..aa5d42c 100644
--- a/src/opinf/roms/_bayes.py
+++ b/src/opinf/roms/_bayes.py
@@ -282,6 +282,11 @@ class _BayesianROMMixin:
         if input_functions is not None:
             if callable(input_functions):  # one global input function.
                 input_functions = [input_functions] * len(states)
+            if len(input_functions) != len(states):
+                raise errors.DimensionalityError(
+                    f"{len(states)} state trajectories but "
+                    f"{len(input_functions)} input functions detected"
+                )
             if not callable(input_functions[0]):
                 raise TypeError(
                     "argument 'input_functions' must be sequence of callables"
-- 
2.43.0


From cf56500cc11fe68e8f48af5ce1e569cd19b1c2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:30 +0000
Subject: [PATCH 70/72] fix: affine operators with integer coefficients can be
 loaded

The constructor sets the parameter dimension from an integer 'coeffs';
load() then tried to set the same value a second time and failed.
---
 src/opinf/operators/_affine.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/opinf/operators/_affine.py b/src/opinf/operators/_affine.py
index a1eb884..8987eee 100644
--- a/src/opinf/operators/_affine.py
+++ b/src/opinf/operators/_affine.py
@@ -510,7 +510,9 @@ class _AffineOperator(ParametricOpInfOperator):
             op = cls(coeffs, nterms=nterms, entries=entries, fromblock=False)
 
             if (key := "parameter_dimension") in hf["meta"].attrs:
-                op.parameter_dimension = int(hf["meta"].attrs[key])
+                p = int(hf["meta"].attrs[key])
+                if op.parameter_dimension != p:
+                    op.parameter_dimension = p
             return op
 
 
-- 
2.43.0


From 84ec21e8fb669582e7da2559f5306752bc04ba66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:55 +0000
Subject: [PATCH 71/72] fix: transformers that leave data unchanged return
 floating point numbers

---
 src/opinf/pre/_multi.py      | 8 ++++----
 src/opinf/pre/_shiftscale.py | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/opinf/pre/_multi.py b/src/opinf/pre/_multi.py
index 4838921..21c067a 100644
--- a/src/opinf/pre/_multi.py
+++ b/src/opinf/pre/_multi.py
@@ -228,7 +228,7 @@ class NullTransformer(TransformerTemplate):
             State snapshots, or a copy of them if ``inplace=False``.
         """
         self.fit(states)
-        return states if inplace else states.copy()
+        return states if inplace else 1.0 * states
 
     def transform(self, states, inplace: bool = False):
         """Do nothing; this transformation does not affect the states.
@@ -252,7 +252,7 @@ class NullTransformer(TransformerTemplate):
             If the ``states`` do not align with the :attr:`state_dimension`.
         """
         self._check_shape(states)
-        return states if inplace else states.copy()
+        return states if inplace else 1.0 * states
 
     def transform_ddts(self, ddts, inplace: bool = True):
         r"""Do nothing; this transformation does not affect derivatives.
@@ -277,7 +277,7 @@ class NullTransformer(TransformerTemplate):
             If the ``states`` do not align with the :attr:`state_dimension`.
         """
         self._check_shape(ddts)
-        return ddts if inplace else ddts.copy()
+        return ddts if inplace else 1.0 * ddts
 
     def inverse_transform(self, states_transformed, inplace=False, locs=None):
         """Do nothing; this transformation does not affect the states.
@@ -310,7 +310,7 @@ class NullTransformer(TransformerTemplate):
             locs = self._check_locs(locs, states_transformed)
         else:
             self._check_shape(states_transformed)
-        return states_transformed if inplace else states_transformed.copy()
+        return states_transformed if inplace else 1.0 * states_transformed
 
     # Model persistence -------------------------------------------------------
     def save(self, savefile, overwrite=False):
diff --git a/src/opinf/pre/_shiftscale.py b/src/opinf/pre/_shiftscale.py
index e1caea0..f1621cf 100644
--- a/src/opinf/pre/_shiftscale.py
+++ b/src/opinf/pre/_shiftscale.py
@@ -304,7 +304,7 @@ class ShiftTransformer(TransformerTemplate):
             If the ``ddts`` do not align with the :attr:`state_dimension`.
         """
         self._check_shape(ddts)
-        return ddts if inplace else ddts.copy()
+        return ddts if inplace else 1.0 * ddts
 
     def inverse_transform(self, states_shifted, inplace=False, locs=None):
         """Apply the inverse shift.
-- 
2.43.0


From d470a5137a9f72221238db4257988a859d5d1d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:55 +0000
Subject: [PATCH 72/72] fix: PolynomialLifter accepts integer states with
 negative orders

---
 src/opinf/lift/_polynomial.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/opinf/lift/_polynomial.py b/src/opinf/lift/_polynomial.py
index cc5a081..bf944f8 100644
--- a/src/opinf/lift/_polynomial.py
+++ b/src/opinf/lift/_polynomial.py
@@ -141,6 +141,7 @@ class PolynomialLifter(LifterTemplate):
         lifted_states : (num_variables * n, k) ndarray
             Learning variables.
         """
+        states = 1.0 * states  # Integers have no negative integer powers.
         return np.concatenate([states**p for p in self.__orders])
 
     def lift_ddts(self, states, ddts):
@@ -160,6 +161,7 @@ class PolynomialLifter(LifterTemplate):
         ddts : (num_variables * n, k) ndarray
             Time derivatives of the learning variables.
         """
+        states = 1.0 * states  # Integers have no negative integer powers.
         return np.concatenate(
             [
                 np.zeros_like(ddts) if p == 0 else p * states ** (p - 1) * ddts
-- 
2.43.0

