From 278b4faf066797bbb5930a2fcc3b1b16f15ba695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:05 +0000
Subject: [PATCH 01/62] fix: do not leave options overridden when a config
 block names an unknown option

---
 src/probnum/_config.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/probnum/_config.py b/src/probnum/_config.py
index 098ab9f..1618074 100644
--- a/src/probnum/_config.py
+++ b/src/probnum/_config.py
@@ -75,10 +75,11 @@ class Configuration:
         """Context manager used to set values of registered config options."""
         old_options = {}
 
-        for key, value in kwargs.items():
+        for key in kwargs:
             if key not in self._options_registry:
                 raise AttributeError(Configuration._NON_REGISTERED_KEY_ERR_MSG % key)
 
+        for key, value in kwargs.items():
             old_options[key] = self._options_registry[key].value
 
             self._options_registry[key].value = value
-- 
2.43.0


From 68844e53580a0305aed49844940984fc00d39f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:50 +0000
Subject: [PATCH 02/62] fix: Embedding/Selection transpose, todense and product
 respect take indices and repeated indices

---
 src/probnum/linops/_arithmetic.py      |  6 +++--
 src/probnum/linops/_linear_operator.py | 35 +++++++++++++++++++-------
 2 files changed, 30 insertions(+), 11 deletions(-)

diff --git a/src/probnum/linops/_arithmetic.py b/src/probnum/linops/_arithmetic.py
index 00ec028..8517691 100644
--- a/src/probnum/linops/_arithmetic.py
+++ b/src/probnum/linops/_arithmetic.py
@@ -319,8 +319,10 @@ def _matmul_selection_embedding(
     selection: Selection, embedding: Embedding
 ) -> Union[NotImplementedType, Identity]:
 
-    if (embedding.shape[-1] == selection.shape[-2]) and np.all(
-        selection.indices == embedding._put_indices
+    if (
+        embedding._takes_all_in_order()
+        and selection.indices == embedding._put_indices
+        and len(set(selection.indices)) == len(selection.indices)
     ):
         return Identity(shape=(selection.shape[-2], embedding.shape[-1]))
 
diff --git a/src/probnum/linops/_linear_operator.py b/src/probnum/linops/_linear_operator.py
index 81854bd..de177e1 100644
--- a/src/probnum/linops/_linear_operator.py
+++ b/src/probnum/linops/_linear_operator.py
@@ -1793,11 +1793,7 @@ class Selection(LambdaLinearOperator):
             shape=shape,
             matmul=lambda x: _selection_matmul(self.indices, x),
             todense=self._todense,
-            transpose=lambda: Embedding(
-                take_indices=np.arange(len(self._indices)),
-                put_indices=self._indices,
-                shape=(self.shape[1], self.shape[0]),
-            ),
+            transpose=self._transpose_selection,
         )
 
     @property
@@ -1810,6 +1806,18 @@ class Selection(LambdaLinearOperator):
         res = np.eye(self.shape[1], self.shape[1])
         return _selection_matmul(self.indices, res)
 
+    def _transpose_selection(self) -> LinearOperator:
+        if len(set(self._indices)) < len(self._indices):
+            # An entry which is selected more than once must be summed up by the
+            # transpose, i.e. the transpose is not an embedding.
+            return TransposedLinearOperator(self)
+
+        return Embedding(
+            take_indices=np.arange(len(self._indices)),
+            put_indices=self._indices,
+            shape=(self.shape[1], self.shape[0]),
+        )
+
 
 def _selection_matmul(indices, M):
     return np.take(M, indices=indices, axis=-2)
@@ -1851,13 +1859,22 @@ class Embedding(LambdaLinearOperator):
             shape=shape,
             matmul=lambda x: _embedding_matmul(self, x),
             todense=self._todense,
-            transpose=lambda: Selection(
-                indices=put_indices, shape=(self.shape[1], self.shape[0])
-            ),
+            transpose=self._transpose_embedding,
         )
 
+    def _takes_all_in_order(self) -> bool:
+        return self._take_indices == tuple(range(self.shape[1]))
+
     def _todense(self):
-        return self.T.todense().T
+        return _embedding_matmul(self, np.eye(self.shape[1]))
+
+    def _transpose_embedding(self) -> LinearOperator:
+        if not self._takes_all_in_order():
+            return TransposedLinearOperator(self)
+
+        return Selection(
+            indices=self._put_indices, shape=(self.shape[1], self.shape[0])
+        )
 
 
 def _embedding_matmul(embedding, M):
-- 
2.43.0


From 800b51e6ba112c669a03e0737776d022e989cba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:50 +0000
Subject: [PATCH 03/62] fix: casting a generic transposed linear operator no
 longer recurses infinitely

---
 src/probnum/linops/_linear_operator.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/probnum/linops/_linear_operator.py b/src/probnum/linops/_linear_operator.py
index de177e1..b80a9d1 100644
--- a/src/probnum/linops/_linear_operator.py
+++ b/src/probnum/linops/_linear_operator.py
@@ -1485,7 +1485,10 @@ class TransposedLinearOperator(LambdaLinearOperator):
     def _astype(
         self, dtype: np.dtype, order: str, casting: str, copy: bool
     ) -> LinearOperator:
-        return self._linop.astype(dtype, order=order, casting=casting, copy=copy).T
+        if self.dtype == dtype and not copy:
+            return self
+
+        return _TypeCastLinearOperator(self, dtype, order, casting, copy)
 
     def __repr__(self) -> str:
         return f"Transpose of {self._linop}"
-- 
2.43.0


From 67383e3ede66ba27478db11200fefbe83574ee37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:50 +0000
Subject: [PATCH 04/62] fix: sums and products of Scalings use the common dtype
 instead of truncating to the left operand's

---
 src/probnum/linops/_scaling.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/probnum/linops/_scaling.py b/src/probnum/linops/_scaling.py
index 038b566..56fb577 100644
--- a/src/probnum/linops/_scaling.py
+++ b/src/probnum/linops/_scaling.py
@@ -212,9 +212,7 @@ class Scaling(_linear_operator.LambdaLinearOperator):
                 "possible if both operands have the same shape."
             )
 
-        return Scaling(
-            factors=self.factors + other.factors, shape=self.shape, dtype=self.dtype
-        )
+        return Scaling(factors=self.factors + other.factors, shape=self.shape)
 
     def _sub_scaling(self, other: "Scaling") -> "Scaling":
         if other.shape != self.shape:
@@ -223,9 +221,7 @@ class Scaling(_linear_operator.LambdaLinearOperator):
                 "possible if both operands have the same shape."
             )
 
-        return Scaling(
-            factors=self.factors - other.factors, shape=self.shape, dtype=self.dtype
-        )
+        return Scaling(factors=self.factors - other.factors, shape=self.shape)
 
     def _mul_scaling(self, other: "Scaling") -> "Scaling":
         if other.shape != self.shape:
@@ -234,9 +230,7 @@ class Scaling(_linear_operator.LambdaLinearOperator):
                 "possible if both operands have the same shape."
             )
 
-        return Scaling(
-            factors=self.factors * other.factors, shape=self.shape, dtype=self.dtype
-        )
+        return Scaling(factors=self.factors * other.factors, shape=self.shape)
 
     def _matmul_scaling(self, other: "Scaling") -> "Scaling":
         return self._mul_scaling(other)
-- 
2.43.0


From ea35fa052c86c0b88928e9d51b5eea3b7d0d7899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:25 +0000
Subject: [PATCH 05/62] fix: check shapes and support sparse matrices in
 products and sums of explicit matrices

---
 src/probnum/linops/_arithmetic.py | 65 ++++++++++++++++++++++++++-----
 1 file changed, 55 insertions(+), 10 deletions(-)

diff --git a/src/probnum/linops/_arithmetic.py b/src/probnum/linops/_arithmetic.py
index 8517691..513304e 100644
--- a/src/probnum/linops/_arithmetic.py
+++ b/src/probnum/linops/_arithmetic.py
@@ -248,11 +248,27 @@ _matmul_fns[(Kronecker, IdentityKronecker)] = Kronecker._matmul_kronecker
 _matmul_fns[(IdentityKronecker, Kronecker)] = Kronecker._matmul_kronecker
 
 # Matrix
-def _matmul_scaling_matrix(scaling: Scaling, matrix: Matrix) -> Matrix:
+def _matmul_scaling_matrix(
+    scaling: Scaling, matrix: Matrix
+) -> Union[Matrix, NotImplementedType]:
+    if scaling.shape[1] != matrix.shape[0]:
+        raise ValueError(
+            f"matmul received invalid shapes {scaling.shape} @ {matrix.shape}"
+        )
+    if not isinstance(matrix.A, np.ndarray):
+        return NotImplemented
     return Matrix(A=np.multiply(scaling.factors[:, np.newaxis], matrix.A))
 
 
-def _matmul_matrix_scaling(matrix: Matrix, scaling: Scaling) -> Matrix:
+def _matmul_matrix_scaling(
+    matrix: Matrix, scaling: Scaling
+) -> Union[Matrix, NotImplementedType]:
+    if matrix.shape[1] != scaling.shape[0]:
+        raise ValueError(
+            f"matmul received invalid shapes {matrix.shape} @ {scaling.shape}"
+        )
+    if not isinstance(matrix.A, np.ndarray):
+        return NotImplemented
     return Matrix(A=np.multiply(matrix.A, scaling.factors))
 
 
@@ -263,19 +279,48 @@ _matmul_fns[(Scaling, Matrix)] = _matmul_scaling_matrix
 _matmul_fns[(Matrix, Scaling)] = _matmul_matrix_scaling
 
 
-_matmul_fns[(Selection, Matrix)] = lambda sel, mat: Matrix(sel @ mat.A)
-_matmul_fns[(Embedding, Matrix)] = lambda emb, mat: Matrix(emb @ mat.A)
-_matmul_fns[(Matrix, Selection)] = lambda mat, sel: Matrix(mat.A @ sel)
-_matmul_fns[(Matrix, Embedding)] = lambda mat, emb: Matrix(mat.A @ emb)
+def _matmul_selection_or_embedding_matrix(
+    op: Union[Selection, Embedding], mat: Matrix
+) -> Union[Matrix, NotImplementedType]:
+    if not isinstance(mat.A, np.ndarray):
+        return NotImplemented
+    return Matrix(op @ mat.A)
+
+
+def _matmul_matrix_selection_or_embedding(
+    mat: Matrix, op: Union[Selection, Embedding]
+) -> Union[Matrix, NotImplementedType]:
+    if not isinstance(mat.A, np.ndarray):
+        return NotImplemented
+    return Matrix(mat.A @ op)
+
+
+_matmul_fns[(Selection, Matrix)] = _matmul_selection_or_embedding_matrix
+_matmul_fns[(Embedding, Matrix)] = _matmul_selection_or_embedding_matrix
+_matmul_fns[(Matrix, Selection)] = _matmul_matrix_selection_or_embedding
+_matmul_fns[(Matrix, Embedding)] = _matmul_matrix_selection_or_embedding
+
+
+def _add_matrix_matrix(mat1: Matrix, mat2: Matrix) -> Matrix:
+    if mat1.shape != mat2.shape:
+        raise ValueError(f"add received invalid shapes {mat1.shape} + {mat2.shape}")
+    return Matrix(mat1.A + mat2.A)
+
+
+def _sub_matrix_matrix(mat1: Matrix, mat2: Matrix) -> Matrix:
+    if mat1.shape != mat2.shape:
+        raise ValueError(f"sub received invalid shapes {mat1.shape} - {mat2.shape}")
+    return Matrix(mat1.A - mat2.A)
+
 
-_add_fns[(Matrix, Matrix)] = lambda mat1, mat2: Matrix(mat1.A + mat2.A)
-_sub_fns[(Matrix, Matrix)] = lambda mat1, mat2: Matrix(mat1.A - mat2.A)
+_add_fns[(Matrix, Matrix)] = _add_matrix_matrix
+_sub_fns[(Matrix, Matrix)] = _sub_matrix_matrix
 
 
 def _matmul_matrix_wrapped(
     mat: Matrix, wrapped: Union[_InverseLinearOperator, TransposedLinearOperator]
 ) -> Union[Matrix, NotImplementedType]:
-    if not config.lazy_matrix_matrix_matmul:
+    if not config.lazy_matrix_matrix_matmul and isinstance(mat.A, np.ndarray):
         return Matrix(mat.A @ wrapped)
     return NotImplemented
 
@@ -283,7 +328,7 @@ def _matmul_matrix_wrapped(
 def _matmul_wrapped_matrix(
     wrapped: Union[_InverseLinearOperator, TransposedLinearOperator], mat: Matrix
 ) -> Union[Matrix, NotImplementedType]:
-    if not config.lazy_matrix_matrix_matmul:
+    if not config.lazy_matrix_matrix_matmul and isinstance(mat.A, np.ndarray):
         return Matrix(wrapped @ mat.A)
     return NotImplemented
 
-- 
2.43.0


From 62bded9079ad912cd30573b3bd4f93d8c50489e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:51 +0000
Subject: [PATCH 06/62] fix: Cholesky factor of a generic transposed operator
 no longer recurses infinitely

---
 src/probnum/linops/_linear_operator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/probnum/linops/_linear_operator.py b/src/probnum/linops/_linear_operator.py
index b80a9d1..bc6947d 100644
--- a/src/probnum/linops/_linear_operator.py
+++ b/src/probnum/linops/_linear_operator.py
@@ -1494,7 +1494,7 @@ class TransposedLinearOperator(LambdaLinearOperator):
         return f"Transpose of {self._linop}"
 
     def _cholesky(self, lower: bool = True) -> LinearOperator:
-        return super().cholesky(lower)
+        return super()._cholesky(lower)
 
 
 class _InverseLinearOperator(LambdaLinearOperator):
-- 
2.43.0


From 8d5cbada200fc65c455db9966c37c892caed0438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:28 +0000
Subject: [PATCH 07/62] fix: determinant, inverse and solve for square products
 of non-square operators

---
 src/probnum/linops/_arithmetic_fallbacks.py | 34 +++++++++++++++------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/src/probnum/linops/_arithmetic_fallbacks.py b/src/probnum/linops/_arithmetic_fallbacks.py
index 0b05771..01945e1 100644
--- a/src/probnum/linops/_arithmetic_fallbacks.py
+++ b/src/probnum/linops/_arithmetic_fallbacks.py
@@ -189,6 +189,7 @@ class ProductLinearOperator(LambdaLinearOperator):
             )
 
         self._factors = ProductLinearOperator._expand_prod_ops(*factors)
+        self._all_factors_square = all(factor.is_square for factor in self._factors)
 
         super().__init__(
             shape=(self._factors[0].shape[0], self._factors[-1].shape[1]),
@@ -203,15 +204,27 @@ class ProductLinearOperator(LambdaLinearOperator):
             transpose=lambda: ProductLinearOperator(
                 *(factor.T for factor in reversed(self._factors))
             ),
-            inverse=lambda: ProductLinearOperator(
-                *(factor.inv() for factor in reversed(self._factors))
-            ),
-            det=lambda: functools.reduce(
-                operator.mul, (factor.det() for factor in self._factors)
-            ),
-            logabsdet=lambda: functools.reduce(
-                operator.add, (factor.logabsdet() for factor in self._factors)
-            ),
+            inverse=(
+                lambda: ProductLinearOperator(
+                    *(factor.inv() for factor in reversed(self._factors))
+                )
+            )
+            if self._all_factors_square
+            else None,
+            det=(
+                lambda: functools.reduce(
+                    operator.mul, (factor.det() for factor in self._factors)
+                )
+            )
+            if self._all_factors_square
+            else None,
+            logabsdet=(
+                lambda: functools.reduce(
+                    operator.add, (factor.logabsdet() for factor in self._factors)
+                )
+            )
+            if self._all_factors_square
+            else None,
         )
 
     @property
@@ -238,6 +251,9 @@ class ProductLinearOperator(LambdaLinearOperator):
         return res
 
     def _solve(self, B: np.ndarray) -> np.ndarray:
+        if not self._all_factors_square:
+            return super()._solve(B)
+
         return functools.reduce(lambda b, op: op.solve(b), self._factors, B)
 
 
-- 
2.43.0


From 4c3da91a30f1c0a1874339aaf3f4a571e0ce7fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:28 +0000
Subject: [PATCH 08/62] fix: Cholesky factors of Kronecker-type operators whose
 factors are negative definite or not known to be symmetric

---
 src/probnum/linops/_kronecker.py | 34 +++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/src/probnum/linops/_kronecker.py b/src/probnum/linops/_kronecker.py
index f62598c..1969aff 100644
--- a/src/probnum/linops/_kronecker.py
+++ b/src/probnum/linops/_kronecker.py
@@ -224,15 +224,19 @@ class Kronecker(_linear_operator.LinearOperator):
 
         return NotImplemented
 
-    def _cholesky(self, lower: bool = True) -> Kronecker:
-        # A Kronecker product is symmetric iff its factors are symmetric, since
-        # (A (x) B)^T = A^T (x) B^T
-        assert self.A.is_symmetric and self.B.is_symmetric
+    def _cholesky(self, lower: bool = True) -> _linear_operator.LinearOperator:
+        if self.A.is_symmetric and self.B.is_symmetric:
+            try:
+                return Kronecker(
+                    A=self.A.cholesky(lower),
+                    B=self.B.cholesky(lower),
+                )
+            except np.linalg.LinAlgError:
+                # The Kronecker product of two negative definite factors is positive
+                # definite
+                pass
 
-        return Kronecker(
-            A=self.A.cholesky(lower),
-            B=self.B.cholesky(lower),
-        )
+        return super()._cholesky(lower)
 
     def _symmetrize(self) -> _linear_operator.LinearOperator:
         # This is only an approximation to the closest symmetric matrix in the
@@ -441,8 +445,12 @@ class SymmetricKronecker(_linear_operator.LinearOperator):
         return super()._cond(p)
 
     def _cholesky(self, lower: bool = True) -> _linear_operator.LinearOperator:
-        if self._identical_factors:
-            return SymmetricKronecker(A=self.A.cholesky(lower))
+        if self._identical_factors and self.A.is_symmetric:
+            try:
+                return SymmetricKronecker(A=self.A.cholesky(lower))
+            except np.linalg.LinAlgError:
+                # `A (x) A` is also positive definite if `A` is negative definite
+                pass
 
         return super()._cholesky(lower)
 
@@ -509,7 +517,11 @@ class IdentityKronecker(Kronecker):
         # (I (x) B)^-1 = I (x) B^-1
         return IdentityKronecker(self.num_blocks, B=self.B.inv())
 
-    def _cholesky(self, lower: bool = True) -> IdentityKronecker:
+    def _cholesky(self, lower: bool = True) -> _linear_operator.LinearOperator:
+        if not self.B.is_symmetric:
+            # The symmetry of the factor is unknown
+            return super()._cholesky(lower)
+
         return IdentityKronecker(
             num_blocks=self.num_blocks,
             B=self.B.cholesky(lower),
-- 
2.43.0


From d7ce38a4c92dca81343d51a913d7a02a6335c4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:28 +0000
Subject: [PATCH 09/62] fix: BlockDiagonalMatrix with non-square blocks or
 blocks not known to be symmetric

---
 src/probnum/linops/_block.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/probnum/linops/_block.py b/src/probnum/linops/_block.py
index 3addc77..c155362 100644
--- a/src/probnum/linops/_block.py
+++ b/src/probnum/linops/_block.py
@@ -50,16 +50,17 @@ class BlockDiagonalMatrix(_linear_operator.LinearOperator):
 
         self._blocks = blocks
 
-        self.is_symmetric = self._infer_property(lambda block: block.is_symmetric)
-        self.is_positive_definite = self._infer_property(
-            lambda block: block.is_positive_definite
-        )
-        self.is_upper_triangular = self._infer_property(
-            lambda block: block.is_upper_triangular
-        )
-        self.is_lower_triangular = self._infer_property(
-            lambda block: block.is_lower_triangular
-        )
+        if self._all_blocks_square:
+            self.is_symmetric = self._infer_property(lambda block: block.is_symmetric)
+            self.is_positive_definite = self._infer_property(
+                lambda block: block.is_positive_definite
+            )
+            self.is_upper_triangular = self._infer_property(
+                lambda block: block.is_upper_triangular
+            )
+            self.is_lower_triangular = self._infer_property(
+                lambda block: block.is_lower_triangular
+            )
 
     @property
     def blocks(self) -> tuple[_linear_operator.LinearOperator]:
@@ -91,6 +92,9 @@ class BlockDiagonalMatrix(_linear_operator.LinearOperator):
         return BlockDiagonalMatrix(*[block.T for block in self.blocks])
 
     def _solve(self, B: np.ndarray) -> np.ndarray:
+        if not self._all_blocks_square:
+            return super()._solve(B)
+
         return np.concatenate(
             tuple(
                 cur_block.solve(cur_x)
@@ -137,8 +141,8 @@ class BlockDiagonalMatrix(_linear_operator.LinearOperator):
             return np.concatenate([block.diagonal() for block in self.blocks])
         return super()._diagonal()
 
-    def _cholesky(self, lower: bool) -> BlockDiagonalMatrix:
-        if self._all_blocks_square:
+    def _cholesky(self, lower: bool) -> _linear_operator.LinearOperator:
+        if all(block.is_symmetric for block in self.blocks):
             return BlockDiagonalMatrix(
                 *[block.cholesky(lower) for block in self.blocks]
             )
-- 
2.43.0


From 0fe9b647c2c03258effa690aa0ee0ad8d90f4034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:06 +0000
Subject: [PATCH 10/62] fix: the entropy of a normal random variable is a
 0-dimensional array, accept it as a scalar

---
 src/probnum/randvars/_random_variable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/probnum/randvars/_random_variable.py b/src/probnum/randvars/_random_variable.py
index da3e0dd..fef255c 100644
--- a/src/probnum/randvars/_random_variable.py
+++ b/src/probnum/randvars/_random_variable.py
@@ -812,7 +812,7 @@ class RandomVariable(Generic[ValueType]):
     def _ensure_numpy_float(
         cls, name: str, value: Any, force_scalar: bool = False
     ) -> Union[np.float_, np.ndarray]:
-        if np.isscalar(value):
+        if np.ndim(value) == 0:
             if not isinstance(value, np.float_):
                 try:
                     value = _utils.as_numpy_scalar(value, dtype=np.float_)
-- 
2.43.0


From 7bed642485b84a18cbd95f1c73293de47d269341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:06 +0000
Subject: [PATCH 11/62] fix: in_support accepts the numpy booleans that all
 built-in random variables return

---
 src/probnum/randvars/_random_variable.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/probnum/randvars/_random_variable.py b/src/probnum/randvars/_random_variable.py
index fef255c..70c90c8 100644
--- a/src/probnum/randvars/_random_variable.py
+++ b/src/probnum/randvars/_random_variable.py
@@ -397,13 +397,13 @@ class RandomVariable(Generic[ValueType]):
 
         in_support = self.__in_support(self._as_value_type(x))
 
-        if not isinstance(in_support, bool):
+        if not isinstance(in_support, (bool, np.bool_)):
             raise ValueError(
                 f"The function `in_support` must return a `bool`, but its return value "
-                f"is of type `{type(x)}`."
+                f"is of type `{type(in_support)}`."
             )
 
-        return in_support
+        return bool(in_support)
 
     def sample(self, rng: np.random.Generator, size: ShapeLike = ()) -> ValueType:
         """Draw realizations from a random variable.
-- 
2.43.0


From 569b34b7f655fb555c84aeccc9f2735fb64a7cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:06 +0000
Subject: [PATCH 12/62] fix: the transpose property of normal and constant
 random variables uses their own transpose

---
 src/probnum/randvars/_random_variable.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/probnum/randvars/_random_variable.py b/src/probnum/randvars/_random_variable.py
index 70c90c8..342a167 100644
--- a/src/probnum/randvars/_random_variable.py
+++ b/src/probnum/randvars/_random_variable.py
@@ -583,7 +583,10 @@ class RandomVariable(Generic[ValueType]):
             as_value_type=self.__as_value_type,
         )
 
-    T = property(transpose)
+    @property
+    def T(self) -> "RandomVariable":
+        """Transpose of the random variable."""
+        return self.transpose()
 
     # Unary arithmetic operations
 
-- 
2.43.0


From a81c6392dd155f9b1d1fe0b4a1cd43a2451bd8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:06 +0000
Subject: [PATCH 13/62] fix: covariance of a matrix-variate normal indexed
 along its leading axis only

---
 src/probnum/randvars/_normal.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/probnum/randvars/_normal.py b/src/probnum/randvars/_normal.py
index cdc428a..604d2cb 100644
--- a/src/probnum/randvars/_normal.py
+++ b/src/probnum/randvars/_normal.py
@@ -309,11 +309,12 @@ class Normal(_random_variable.ContinuousRandomVariable[ValueType]):
         mean = self.dense_mean[key]
 
         # Select submatrix from covariance matrix
-        cov = self.dense_cov.reshape(self.shape + self.shape)
-        cov = cov[key][(...,) + key]
+        selected = np.arange(self.size).reshape(self.shape)[key].ravel()
+        cov = self.dense_cov.reshape(self.size, self.size)
+        cov = cov[np.ix_(selected, selected)]
 
-        if mean.ndim > 0:
-            cov = cov.reshape(mean.size, mean.size)
+        if mean.ndim == 0:
+            cov = cov.reshape(())
 
         return Normal(
             mean=mean,
-- 
2.43.0


From 5e08a6bbb0bdf992bcc5d5a0c038bb0c087c2f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:06 +0000
Subject: [PATCH 14/62] fix: a normal random variable with a single entry can
 be reshaped to a scalar

---
 src/probnum/randvars/_normal.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/probnum/randvars/_normal.py b/src/probnum/randvars/_normal.py
index 604d2cb..8b738a8 100644
--- a/src/probnum/randvars/_normal.py
+++ b/src/probnum/randvars/_normal.py
@@ -334,6 +334,8 @@ class Normal(_random_variable.ContinuousRandomVariable[ValueType]):
 
         if reshaped_mean.ndim > 0 and reshaped_cov.ndim == 0:
             reshaped_cov = reshaped_cov.reshape(1, 1)
+        elif reshaped_mean.ndim == 0:
+            reshaped_cov = reshaped_cov.reshape(())
 
         return Normal(
             mean=reshaped_mean,
-- 
2.43.0


From 4906e07c4a68779c05e41c7f30ef796a847178bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:06 +0000
Subject: [PATCH 15/62] fix: dividing a normal random variable with a linear
 operator covariance by a scalar

---
 src/probnum/randvars/_arithmetic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/probnum/randvars/_arithmetic.py b/src/probnum/randvars/_arithmetic.py
index 1ea2390..fe798c2 100644
--- a/src/probnum/randvars/_arithmetic.py
+++ b/src/probnum/randvars/_arithmetic.py
@@ -368,13 +368,13 @@ def _truediv_normal_constant(norm_rv: _Normal, constant_rv: _Constant) -> _Norma
             raise ZeroDivisionError
 
         if norm_rv.cov_cholesky_is_precomputed:
-            cov_cholesky = norm_rv.cov_cholesky / constant_rv.support
+            cov_cholesky = (1 / constant_rv.support) * norm_rv.cov_cholesky
         else:
             cov_cholesky = None
 
         return _Normal(
             mean=norm_rv.mean / constant_rv.support,
-            cov=norm_rv.cov / (constant_rv.support**2),
+            cov=(1 / constant_rv.support**2) * norm_rv.cov,
             cov_cholesky=cov_cholesky,
         )
 
-- 
2.43.0


From 2d42bb47432af9df5184c5c2c5599939d45d73c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:56 +0000
Subject: [PATCH 16/62] fix: shapes of covariance and Cholesky factor in
 products of vectors with normal random variables

---
 src/probnum/randvars/_arithmetic.py | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/probnum/randvars/_arithmetic.py b/src/probnum/randvars/_arithmetic.py
index fe798c2..f831433 100644
--- a/src/probnum/randvars/_arithmetic.py
+++ b/src/probnum/randvars/_arithmetic.py
@@ -274,6 +274,17 @@ _mul_fns[(_Normal, _Constant)] = _mul_normal_constant
 _mul_fns[(_Constant, _Normal)] = _swap_operands(_mul_normal_constant)
 
 
+def _normal_from_product(mean, cov, cov_cholesky) -> _Normal:
+    """Normal random variable with the covariance shape that belongs to its mean."""
+    if mean.ndim == 0:
+        if cov_cholesky is not None:
+            cov_cholesky = cov_cholesky.reshape(())
+    elif cov.shape == ():
+        cov = cov.reshape((1, 1))
+
+    return _Normal(mean=mean, cov=cov, cov_cholesky=cov_cholesky)
+
+
 def _matmul_normal_constant(norm_rv: _Normal, constant_rv: _Constant) -> _Normal:
     """Normal random variable multiplied with a vector or matrix.
 
@@ -291,10 +302,7 @@ def _matmul_normal_constant(norm_rv: _Normal, constant_rv: _Constant) -> _Normal
         mean = norm_rv.mean @ constant_rv.support
         cov = constant_rv.support.T @ (norm_rv.cov @ constant_rv.support)
 
-        if cov.shape == () and mean.shape == (1,):
-            cov = cov.reshape((1, 1))
-
-        return _Normal(mean=mean, cov=cov, cov_cholesky=cov_cholesky)
+        return _normal_from_product(mean, cov, cov_cholesky)
 
     # This part does not do the Cholesky update,
     # because of performance configurations: currently, there is no way of switching
@@ -332,11 +340,11 @@ def _matmul_constant_normal(constant_rv: _Constant, norm_rv: _Normal) -> _Normal
             )
         else:
             cov_cholesky = None
-        return _Normal(
-            mean=constant_rv.support @ norm_rv.mean,
-            cov=constant_rv.support @ (norm_rv.cov @ constant_rv.support.T),
-            cov_cholesky=cov_cholesky,
-        )
+
+        mean = constant_rv.support @ norm_rv.mean
+        cov = constant_rv.support @ (norm_rv.cov @ constant_rv.support.T)
+
+        return _normal_from_product(mean, cov, cov_cholesky)
 
     # This part does not do the Cholesky update,
     # because of performance configurations: currently, there is no way of switching
-- 
2.43.0


From 9dacbeec5b5c4325439198dae62166c9f91f8153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:52 +0000
Subject: [PATCH 17/62] fix: complex eigenvalues of a real linear operator
 survive a type cast

---
 src/probnum/linops/_linear_operator.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/probnum/linops/_linear_operator.py b/src/probnum/linops/_linear_operator.py
index bc6947d..4999e66 100644
--- a/src/probnum/linops/_linear_operator.py
+++ b/src/probnum/linops/_linear_operator.py
@@ -1582,7 +1582,7 @@ class _TypeCastLinearOperator(LambdaLinearOperator):
             transpose=lambda: self._linop.T.astype(dtype),
             inverse=lambda: self._linop.inv().astype(self._inexact_dtype),
             rank=self._linop.rank,
-            eigvals=lambda: self._linop.eigvals().astype(self._inexact_dtype),
+            eigvals=self._cast_eigvals,
             cond=lambda p: self._linop.cond(p=p).astype(self._inexact_dtype),
             det=lambda: self._linop.det().astype(self._inexact_dtype),
             logabsdet=lambda: self._linop.logabsdet().astype(self._inexact_dtype),
@@ -1590,6 +1590,15 @@ class _TypeCastLinearOperator(LambdaLinearOperator):
             diagonal=lambda: self._linop.diagonal().astype(dtype),
         )
 
+    def _cast_eigvals(self) -> np.ndarray:
+        eigvals = self._linop.eigvals()
+
+        if np.iscomplexobj(eigvals):
+            # Real operators can have complex eigenvalues
+            return eigvals.astype(np.result_type(self._inexact_dtype, np.complex64))
+
+        return eigvals.astype(self._inexact_dtype)
+
     def _astype(
         self, dtype: np.dtype, order: str, casting: str, copy: bool
     ) -> LinearOperator:
-- 
2.43.0


From d0ca1de4dba0ecf9d0aeab39fe139083022b6bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:39 +0000
Subject: [PATCH 18/62] fix: arithmetic with normal random variables whose
 operator covariance has a cached factor of another operator type

---
 src/probnum/randvars/_normal.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/probnum/randvars/_normal.py b/src/probnum/randvars/_normal.py
index 8b738a8..c897445 100644
--- a/src/probnum/randvars/_normal.py
+++ b/src/probnum/randvars/_normal.py
@@ -149,7 +149,10 @@ class Normal(_random_variable.ContinuousRandomVariable[ValueType]):
             # shape, dtype.
             if cov_cholesky is not None:
 
-                if not isinstance(cov_cholesky, type(cov)):
+                # The factor of an operator can be any kind of linear operator
+                if not isinstance(
+                    cov_cholesky, linops.LinearOperator if cov_operator else type(cov)
+                ):
                     raise TypeError(
                         f"The covariance matrix is of type `{type(cov)}`, so its "
                         f"Cholesky decomposition must be of the same type, but an "
-- 
2.43.0


From b39f5cb513569fc86a4eaea2d1076e1fa0aa1cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:37 +0000
Subject: [PATCH 19/62] fix: Kalman filter predicts from the current time, not
 from the next one

---
 src/probnum/filtsmooth/gaussian/_kalman.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/probnum/filtsmooth/gaussian/_kalman.py b/src/probnum/filtsmooth/gaussian/_kalman.py
index 45869e4..4c6d673 100644
--- a/src/probnum/filtsmooth/gaussian/_kalman.py
+++ b/src/probnum/filtsmooth/gaussian/_kalman.py
@@ -271,7 +271,7 @@ class Kalman(_bayesfiltsmooth.BayesFiltSmooth):
                     None if _previous_posterior is None else _previous_posterior(t_old)
                 )
                 output = self.prior_process.transition.forward_rv(
-                    curr_rv, t, dt=dt, _linearise_at=linearise_predict_at
+                    curr_rv, t_old, dt=dt, _linearise_at=linearise_predict_at
                 )
                 curr_rv, info_dict["predict_info"] = output
 
-- 
2.43.0


From 2a7f86fb267ec03b3db5713f51e018e6a314d892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:37 +0000
Subject: [PATCH 20/62] fix: Kalman filter passes the time to the measurement
 model

---
 src/probnum/filtsmooth/gaussian/_kalman.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/probnum/filtsmooth/gaussian/_kalman.py b/src/probnum/filtsmooth/gaussian/_kalman.py
index 4c6d673..c0fdeed 100644
--- a/src/probnum/filtsmooth/gaussian/_kalman.py
+++ b/src/probnum/filtsmooth/gaussian/_kalman.py
@@ -280,7 +280,10 @@ class Kalman(_bayesfiltsmooth.BayesFiltSmooth):
                 None if _previous_posterior is None else _previous_posterior(t)
             )
             curr_rv, info_dict["update_info"] = measmod.backward_realization(
-                realization_obtained=data, rv=curr_rv, _linearise_at=linearise_update_at
+                realization_obtained=data,
+                rv=curr_rv,
+                t=t,
+                _linearise_at=linearise_update_at,
             )
 
             yield t, curr_rv, info_dict
-- 
2.43.0


From 299c26bae2e4314034b49b654dd8a3f836196f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:46 +0000
Subject: [PATCH 21/62] fix: discretised LTI SDEs apply the force vector in the
 order of the state

---
 src/probnum/randprocs/markov/continuous/_lti_sde.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/probnum/randprocs/markov/continuous/_lti_sde.py b/src/probnum/randprocs/markov/continuous/_lti_sde.py
index c90f325..260936c 100644
--- a/src/probnum/randprocs/markov/continuous/_lti_sde.py
+++ b/src/probnum/randprocs/markov/continuous/_lti_sde.py
@@ -158,9 +158,11 @@ class LTISDE(_linear_sde.LinearSDE):
                 drift_matrix, dispersion_matrix, dt
             )
             proj = np.eye(self.state_dimension, 2 * self.state_dimension)
-            proj_rev = np.flip(proj, axis=1)
+            proj_force = np.eye(
+                self.state_dimension, 2 * self.state_dimension, k=self.state_dimension
+            )
             ah = proj @ ah_stack @ proj.T
-            sh = proj @ ah_stack @ proj_rev.T @ self.force_vector
+            sh = proj @ ah_stack @ proj_force.T @ self.force_vector
             qh = proj @ qh_stack @ proj.T
         else:
             ah, qh, _ = _mfd.matrix_fraction_decomposition(
-- 
2.43.0


From df74c986f5174cff3e7d037b2d0f882cbae3444a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:47 +0000
Subject: [PATCH 22/62] fix: square-root moment equations of linear SDEs allow
 the covariance to shrink

---
 src/probnum/randprocs/markov/continuous/_linear_sde.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/probnum/randprocs/markov/continuous/_linear_sde.py b/src/probnum/randprocs/markov/continuous/_linear_sde.py
index 2e7f611..bab7567 100644
--- a/src/probnum/randprocs/markov/continuous/_linear_sde.py
+++ b/src/probnum/randprocs/markov/continuous/_linear_sde.py
@@ -9,7 +9,6 @@ import scipy.linalg
 from probnum import randvars
 from probnum.randprocs.markov.continuous import _sde
 from probnum.typing import FloatLike, IntLike
-from probnum.utils.linalg import tril_to_positive_tril
 
 
 class LinearSDE(_sde.SDE):
@@ -394,8 +393,8 @@ class LinearSDE(_sde.SDE):
             )
             M = G_bar + G_bar.T + L_bar @ L_bar.T
 
-            new_cov_cholesky = tril_to_positive_tril(
-                cov_cholesky @ (np.tril(M, -1) + 1 / 2 * np.diag(np.diag(M)))
+            new_cov_cholesky = cov_cholesky @ (
+                np.tril(M, -1) + 1 / 2 * np.diag(np.diag(M))
             )
 
             # Vectorize outcome
-- 
2.43.0


From 50605c384909cdd87cb2e6841b5bcf1a09cde04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:47 +0000
Subject: [PATCH 23/62] fix: backward transitions of integrators transform a
 given gain and the reported prediction between coordinates

---
 src/probnum/randprocs/markov/integrator/_ioup.py   | 6 +++++-
 src/probnum/randprocs/markov/integrator/_iwp.py    | 6 +++++-
 src/probnum/randprocs/markov/integrator/_matern.py | 6 +++++-
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/probnum/randprocs/markov/integrator/_ioup.py b/src/probnum/randprocs/markov/integrator/_ioup.py
index e024c35..919c93e 100644
--- a/src/probnum/randprocs/markov/integrator/_ioup.py
+++ b/src/probnum/randprocs/markov/integrator/_ioup.py
@@ -225,7 +225,7 @@ class IntegratedOrnsteinUhlenbeckTransition(
             else None
         )
         gain = (
-            self.precon.inverse(dt) @ gain @ self.precon.inverse(dt).T
+            self.precon.inverse(dt) @ gain @ self.precon(dt).T
             if gain is not None
             else None
         )
@@ -255,4 +255,8 @@ class IntegratedOrnsteinUhlenbeckTransition(
 
         # Undo preconditioning and return
         rv = _preconditioner.apply_precon(self.precon(dt), rv)
+        if info.get("rv_forwarded") is not None:
+            info["rv_forwarded"] = _preconditioner.apply_precon(
+                self.precon(dt), info["rv_forwarded"]
+            )
         return rv, info
diff --git a/src/probnum/randprocs/markov/integrator/_iwp.py b/src/probnum/randprocs/markov/integrator/_iwp.py
index b62c6ac..302611a 100644
--- a/src/probnum/randprocs/markov/integrator/_iwp.py
+++ b/src/probnum/randprocs/markov/integrator/_iwp.py
@@ -263,7 +263,7 @@ class IntegratedWienerTransition(_integrator.IntegratorTransition, continuous.LT
             else None
         )
         gain = (
-            self.precon.inverse(dt) @ gain @ self.precon.inverse(dt).T
+            self.precon.inverse(dt) @ gain @ self.precon(dt).T
             if gain is not None
             else None
         )
@@ -276,6 +276,10 @@ class IntegratedWienerTransition(_integrator.IntegratorTransition, continuous.LT
             t=t,
             _diffusion=_diffusion,
         )
+        if info.get("rv_forwarded") is not None:
+            info["rv_forwarded"] = _preconditioner.apply_precon(
+                self.precon(dt), info["rv_forwarded"]
+            )
 
         return _preconditioner.apply_precon(self.precon(dt), rv), info
 
diff --git a/src/probnum/randprocs/markov/integrator/_matern.py b/src/probnum/randprocs/markov/integrator/_matern.py
index e8db12d..e987adf 100644
--- a/src/probnum/randprocs/markov/integrator/_matern.py
+++ b/src/probnum/randprocs/markov/integrator/_matern.py
@@ -228,7 +228,7 @@ class MaternTransition(_integrator.IntegratorTransition, continuous.LTISDE):
             else None
         )
         gain = (
-            self.precon.inverse(dt) @ gain @ self.precon.inverse(dt).T
+            self.precon.inverse(dt) @ gain @ self.precon(dt).T
             if gain is not None
             else None
         )
@@ -258,4 +258,8 @@ class MaternTransition(_integrator.IntegratorTransition, continuous.LTISDE):
 
         # Undo preconditioning and return
         rv = _preconditioner.apply_precon(self.precon(dt), rv)
+        if info.get("rv_forwarded") is not None:
+            info["rv_forwarded"] = _preconditioner.apply_precon(
+                self.precon(dt), info["rv_forwarded"]
+            )
         return rv, info
-- 
2.43.0


From 5ffa87c548b562bac488e8f422a7bbe4b0c32aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:47 +0000
Subject: [PATCH 24/62] fix: cholesky_update with tall factors

---
 src/probnum/utils/linalg/_cholesky_updates.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/probnum/utils/linalg/_cholesky_updates.py b/src/probnum/utils/linalg/_cholesky_updates.py
index cdca28c..14e95e7 100644
--- a/src/probnum/utils/linalg/_cholesky_updates.py
+++ b/src/probnum/utils/linalg/_cholesky_updates.py
@@ -69,11 +69,9 @@ def cholesky_update(
     upper_sqrtm = np.linalg.qr(stacked_up, mode="r")
     if S1.ndim == 1:
         lower_sqrtm = upper_sqrtm.T
-    elif S1.shape[0] <= S1.shape[1]:
-        lower_sqrtm = upper_sqrtm.T
     else:
         lower_sqrtm = np.zeros((S1.shape[0], S1.shape[0]))
-        lower_sqrtm[:, : -(S1.shape[0] - S1.shape[1])] = upper_sqrtm.T
+        lower_sqrtm[:, : upper_sqrtm.shape[0]] = upper_sqrtm.T
 
     return tril_to_positive_tril(lower_sqrtm)
 
-- 
2.43.0


From 2b5325d91812627e8b2077bee445dbf958d5bda3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:21 +0000
Subject: [PATCH 25/62] fix: dense output of smoothing posteriors interpolates
 from the filtered state

---
 src/probnum/filtsmooth/gaussian/_kalmanposterior.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/probnum/filtsmooth/gaussian/_kalmanposterior.py b/src/probnum/filtsmooth/gaussian/_kalmanposterior.py
index 79eddf7..94c6740 100644
--- a/src/probnum/filtsmooth/gaussian/_kalmanposterior.py
+++ b/src/probnum/filtsmooth/gaussian/_kalmanposterior.py
@@ -245,7 +245,7 @@ class SmoothingPosterior(KalmanPosterior):
         assert dt_left > 0.0
         assert dt_right > 0.0
         filtered_rv, _ = self.transition.forward_rv(
-            rv=previous_state,
+            rv=self.filtering_posterior.states[previous_index],
             t=previous_location,
             dt=dt_left,
             _diffusion=squared_diffusion,
-- 
2.43.0


From f4de22abc7e02cbff7abe9b5674c3906b02a1fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:47 +0000
Subject: [PATCH 26/62] fix: forward sample paths use a fresh base measure
 realization in every step

---
 src/probnum/randprocs/markov/_transition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/probnum/randprocs/markov/_transition.py b/src/probnum/randprocs/markov/_transition.py
index 25c94f0..b11edab 100644
--- a/src/probnum/randprocs/markov/_transition.py
+++ b/src/probnum/randprocs/markov/_transition.py
@@ -471,7 +471,7 @@ class Transition(abc.ABC):
             curr_sample = (
                 curr_rv.mean
                 + curr_rv.cov_cholesky
-                @ base_measure_realizations[idx - 1].reshape((-1,))
+                @ base_measure_realizations[idx].reshape((-1,))
             )
             out_samples.append(curr_sample)
         return out_samples
-- 
2.43.0


From 93c755544a125800b4705bb09a05ab4c336ad59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:47 +0000
Subject: [PATCH 27/62] fix: sampling Markov processes with multi-dimensional
 sizes

---
 src/probnum/randprocs/markov/_markov.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/probnum/randprocs/markov/_markov.py b/src/probnum/randprocs/markov/_markov.py
index 7939edd..44b9cdb 100644
--- a/src/probnum/randprocs/markov/_markov.py
+++ b/src/probnum/randprocs/markov/_markov.py
@@ -72,7 +72,7 @@ class _MarkovBase(_random_process.RandomProcess):
                 )
             )
 
-        return np.stack(
+        samples = np.stack(
             [
                 self.transition.jointly_transform_base_measure_realization_list_forward(
                     base_measure_realizations=base_real,
@@ -80,9 +80,12 @@ class _MarkovBase(_random_process.RandomProcess):
                     initrv=self.initrv,
                     _diffusion_list=np.ones_like(args[:-1]),
                 )
-                for base_real in base_measure_realizations
+                for base_real in base_measure_realizations.reshape(
+                    (-1,) + args.shape + self.initrv.shape
+                )
             ]
         )
+        return samples.reshape(size + samples.shape[1:])
 
     class Kernel(kernels.Kernel):
         def __init__(
-- 
2.43.0


From 0f937f9fc05d4f25b08d38c238c3de0b592e6907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:47 +0000
Subject: [PATCH 28/62] fix: posterior samples at unsorted or repeated times
 are returned in the requested order

---
 src/probnum/filtsmooth/gaussian/_kalmanposterior.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/probnum/filtsmooth/gaussian/_kalmanposterior.py b/src/probnum/filtsmooth/gaussian/_kalmanposterior.py
index 94c6740..9eada93 100644
--- a/src/probnum/filtsmooth/gaussian/_kalmanposterior.py
+++ b/src/probnum/filtsmooth/gaussian/_kalmanposterior.py
@@ -87,7 +87,7 @@ class KalmanPosterior(_timeseriesposterior.TimeSeriesPosterior, abc.ABC):
         # Compute the union (as sets) of t and self.locations
         # This allows that samples "always pass" the grid points.
         all_locations = np.union1d(t, self.locations)
-        slice_these_out = np.where(np.isin(all_locations, t))[0]
+        slice_these_out = np.searchsorted(all_locations, np.atleast_1d(t))
         base_measure_realizations = stats.norm.rvs(
             size=(size + all_locations.shape + single_rv_shape),
             random_state=rng,
-- 
2.43.0


From 8f681e69f2612f84d362db148ab094cdc11bfe93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:58 +0000
Subject: [PATCH 29/62] fix: the particle filter continues from the resampled
 particles

---
 src/probnum/filtsmooth/particle/_particle_filter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/probnum/filtsmooth/particle/_particle_filter.py b/src/probnum/filtsmooth/particle/_particle_filter.py
index c57ea6e..4509de3 100644
--- a/src/probnum/filtsmooth/particle/_particle_filter.py
+++ b/src/probnum/filtsmooth/particle/_particle_filter.py
@@ -216,6 +216,7 @@ class ParticleFilter(_bayesfiltsmooth.BayesFiltSmooth):
                 N = effective_number_of_events(new_rv)
                 if N < self.min_effective_num_of_particles:
                     new_rv = new_rv.resample(rng=self.rng)
+                    particles, weights = new_rv.support, new_rv.probabilities
             yield new_rv, {}
             t_old = t
 
-- 
2.43.0


From 791b39c8dbae32a69b2e8afe8b60c69b885c67a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:58 +0000
Subject: [PATCH 30/62] fix: bootstrap particle filters keep the previous
 particle weights

---
 src/probnum/filtsmooth/particle/_importance_distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/probnum/filtsmooth/particle/_importance_distributions.py b/src/probnum/filtsmooth/particle/_importance_distributions.py
index 954f82d..2b60248 100644
--- a/src/probnum/filtsmooth/particle/_importance_distributions.py
+++ b/src/probnum/filtsmooth/particle/_importance_distributions.py
@@ -65,7 +65,7 @@ class BootstrapImportanceDistribution(ImportanceDistribution):
     def log_correction_factor(
         self, proposal_state, importance_rv, dynamics_rv, old_weight
     ) -> float:
-        return 0.0
+        return np.log(old_weight + 1e-14)
 
 
 class LinearizationImportanceDistribution(ImportanceDistribution):
-- 
2.43.0


From abd6cfe26f9d6199245d1c2b47f7f3c178009c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:25 +0000
Subject: [PATCH 31/62] fix: multiple samples of a normal random variable with
 singleton dimensions have the right shape

---
 src/probnum/randvars/_normal.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/probnum/randvars/_normal.py b/src/probnum/randvars/_normal.py
index c897445..5e0e15e 100644
--- a/src/probnum/randvars/_normal.py
+++ b/src/probnum/randvars/_normal.py
@@ -490,7 +490,11 @@ class Normal(_random_variable.ContinuousRandomVariable[ValueType]):
             random_state=rng,
         )
 
-        return sample.reshape(sample.shape[:-1] + self.shape)
+        # SciPy squeezes all dimensions of size one
+        if np.prod(size) == 1:
+            return np.reshape(sample, self.shape)
+
+        return np.reshape(sample, size + self.shape)
 
     @staticmethod
     def _arg_todense(x: Union[np.ndarray, linops.LinearOperator]) -> np.ndarray:
-- 
2.43.0


From d1b7d20e2fba68e8a87fba4b1e356d096c5d4231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:25 +0000
Subject: [PATCH 32/62] fix: samples of a symmetric matrix-variate normal have
 shape size + rv.shape

---
 src/probnum/randvars/_normal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/probnum/randvars/_normal.py b/src/probnum/randvars/_normal.py
index 5e0e15e..cdf511c 100644
--- a/src/probnum/randvars/_normal.py
+++ b/src/probnum/randvars/_normal.py
@@ -602,7 +602,7 @@ class Normal(_random_variable.ContinuousRandomVariable[ValueType]):
         n = self.mean.shape[1]
 
         # Draw standard normal samples
-        size_sample = (n * n,) + size
+        size_sample = (n * n, int(np.prod(size)))
 
         stdnormal_samples = scipy.stats.norm.rvs(size=size_sample, random_state=rng)
 
@@ -610,4 +610,4 @@ class Normal(_random_variable.ContinuousRandomVariable[ValueType]):
         samples_scaled = linops.Symmetrize(n) @ (self.cov_cholesky @ stdnormal_samples)
 
         # TODO: can we avoid todense here and just return operator samples?
-        return self.dense_mean[None, :, :] + samples_scaled.T.reshape(-1, n, n)
+        return self.dense_mean + samples_scaled.T.reshape(size + (n, n))
-- 
2.43.0


From 2b9fb34753face77628f58aafd0c9a963b25c04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:25 +0000
Subject: [PATCH 33/62] fix: the first step of an ODE solver does not exceed
 the integration domain

---
 src/probnum/diffeq/_odesolver.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/probnum/diffeq/_odesolver.py b/src/probnum/diffeq/_odesolver.py
index aa512b9..7ad0d8b 100644
--- a/src/probnum/diffeq/_odesolver.py
+++ b/src/probnum/diffeq/_odesolver.py
@@ -77,6 +77,7 @@ class ODESolver(ABC):
 
         # Use state.ivp in case a callback modifies the IVP
         while state.t < state.ivp.tmax:
+            dt = min(dt, state.ivp.tmax - state.t)
             if stopper_state is not None:
                 dt, stopper_state = _adjust_time_step(stopper_state, t=state.t, dt=dt)
 
-- 
2.43.0


From c8466f4eda58b97da7411a17ba80e73b56ba00d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:25 +0000
Subject: [PATCH 34/62] fix: ODE solvers skip all stop locations that have been
 reached already

---
 src/probnum/diffeq/_odesolver.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/probnum/diffeq/_odesolver.py b/src/probnum/diffeq/_odesolver.py
index 7ad0d8b..6cd1014 100644
--- a/src/probnum/diffeq/_odesolver.py
+++ b/src/probnum/diffeq/_odesolver.py
@@ -102,7 +102,7 @@ class ODESolver(ABC):
         if stop_at_locations is not None:
             loc_iter = iter(stop_at_locations)
             time_stopper = _TimeStopperState(
-                locations=loc_iter, next_location=next(loc_iter)
+                locations=loc_iter, next_location=next(loc_iter, np.inf)
             )
         else:
             time_stopper = None
@@ -181,13 +181,9 @@ class _TimeStopperState:
 
 
 def _adjust_time_step(stopper_state, t, dt):
-    if t >= stopper_state.next_location:
-        try:
-            next_location = next(stopper_state.locations)
-        except StopIteration:
-            next_location = np.inf
-    else:
-        next_location = stopper_state.next_location
+    next_location = stopper_state.next_location
+    while t >= next_location:
+        next_location = next(stopper_state.locations, np.inf)
 
     if t + dt > next_location:
         dt = next_location - t
-- 
2.43.0


From 3886edfcb656ba6e5115b8c13c9e2c73ab36991d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:25 +0000
Subject: [PATCH 35/62] fix: Runge-Kutta steps start with the derivative at the
 current state

---
 .../perturbed/scipy_wrapper/_wrapped_scipy_solver.py       | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/probnum/diffeq/perturbed/scipy_wrapper/_wrapped_scipy_solver.py b/src/probnum/diffeq/perturbed/scipy_wrapper/_wrapped_scipy_solver.py
index 6f2dd88..54556bd 100644
--- a/src/probnum/diffeq/perturbed/scipy_wrapper/_wrapped_scipy_solver.py
+++ b/src/probnum/diffeq/perturbed/scipy_wrapper/_wrapped_scipy_solver.py
@@ -82,6 +82,13 @@ class WrappedScipyRungeKutta(_odesolver.ODESolver):
             New state.
         """
 
+        # Rejected attempts, perturbed steps, and callbacks may have moved on from the
+        # point at which the last derivative has been evaluated.
+        if self.solver.y_old is not None and not (
+            self.solver.t == state.t and np.array_equal(self.solver.y, state.rv.mean)
+        ):
+            self.solver.f = self.solver.fun(state.t, state.rv.mean)
+
         y_new, f_new = rk.rk_step(
             self.solver.fun,
             state.t,
-- 
2.43.0


From 360980c196f74744f72e34e170ec140ec00facac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:25 +0000
Subject: [PATCH 36/62] fix: the tolerance of adaptive steps is relative to the
 magnitude of the reference state

---
 src/probnum/diffeq/stepsize/_steprule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/probnum/diffeq/stepsize/_steprule.py b/src/probnum/diffeq/stepsize/_steprule.py
index 5276de2..3b89b03 100644
--- a/src/probnum/diffeq/stepsize/_steprule.py
+++ b/src/probnum/diffeq/stepsize/_steprule.py
@@ -146,7 +146,7 @@ class AdaptiveSteps(StepRule):
         return scaled_error < 1
 
     def errorest_to_norm(self, errorest: ArrayLike, reference_state: np.ndarray):
-        tolerance = self.atol + self.rtol * reference_state
+        tolerance = self.atol + self.rtol * np.abs(reference_state)
         ratio = errorest / tolerance
         dim = len(ratio) if ratio.ndim > 0 else 1
         return np.linalg.norm(ratio) / np.sqrt(dim)
-- 
2.43.0


From 920de874eaeb8e911e94e431017e48b22583f05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:25 +0000
Subject: [PATCH 37/62] fix: rejected steps do not misalign the dense output of
 perturbed solvers

---
 src/probnum/diffeq/perturbed/step/_perturbedstepsolver.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/probnum/diffeq/perturbed/step/_perturbedstepsolver.py b/src/probnum/diffeq/perturbed/step/_perturbedstepsolver.py
index 3818686..cd774f8 100644
--- a/src/probnum/diffeq/perturbed/step/_perturbedstepsolver.py
+++ b/src/probnum/diffeq/perturbed/step/_perturbedstepsolver.py
@@ -60,6 +60,7 @@ class PerturbedStepSolver(_odesolver.ODESolver):
         self.perturb_step = perturb_step
         self.solver = solver
         self.scales = None
+        self._proposed_scale = None
         super().__init__(steprule=solver.steprule, order=solver.order)
 
     @classmethod
@@ -118,7 +119,7 @@ class PerturbedStepSolver(_odesolver.ODESolver):
         noisy_step = self.perturb_step(self.rng, dt)
         new_state = self.solver.attempt_step(state, noisy_step)
         scale = noisy_step / dt
-        self.scales.append(scale)
+        self._proposed_scale = scale
 
         t_new = state.t + dt
         state = _odesolver_state.ODESolverState(
@@ -131,7 +132,8 @@ class PerturbedStepSolver(_odesolver.ODESolver):
         return state
 
     def method_callback(self, state):
-        """Call dense output after each step and store the interpolants."""
+        """Call dense output after each step and store scales and interpolants."""
+        self.scales.append(self._proposed_scale)
         return self.solver.method_callback(state)
 
     def rvlist_to_odesol(self, times: np.ndarray, rvs: randvars._RandomVariableList):
-- 
2.43.0


From 89e6cb72fa6c077bf78d18f8b931418f66648a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:25 +0000
Subject: [PATCH 38/62] fix: propose_firststep handles vanishing initial values
 and derivatives

---
 src/probnum/diffeq/stepsize/_propose_firststep.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/probnum/diffeq/stepsize/_propose_firststep.py b/src/probnum/diffeq/stepsize/_propose_firststep.py
index 8b5f8b5..fe68977 100644
--- a/src/probnum/diffeq/stepsize/_propose_firststep.py
+++ b/src/probnum/diffeq/stepsize/_propose_firststep.py
@@ -11,4 +11,6 @@ def propose_firststep(ivp):
     """
     norm_y0 = np.linalg.norm(ivp.y0)
     norm_dy0 = np.linalg.norm(ivp.f(ivp.t0, ivp.y0))
+    if norm_y0 < 1e-5 or norm_dy0 < 1e-5:
+        return 1e-6
     return 0.01 * norm_y0 / norm_dy0
-- 
2.43.0


From 8de8d3dad34f90428a0505e43b8dfb71536e366c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:59:50 +0000
Subject: [PATCH 39/62] fix: ODE filters evaluate the ODE at the right time
 during the update

---
 src/probnum/diffeq/odefilter/_odefilter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/probnum/diffeq/odefilter/_odefilter.py b/src/probnum/diffeq/odefilter/_odefilter.py
index 986173d..517932b 100644
--- a/src/probnum/diffeq/odefilter/_odefilter.py
+++ b/src/probnum/diffeq/odefilter/_odefilter.py
@@ -334,7 +334,7 @@ class ODEFilter(_odesolver.ODESolver):
         gain = scipy.linalg.cho_solve((meas_rv.cov_cholesky, True), crosscov.T).T
         zero_data = np.zeros(meas_rv.mean.shape)
         filt_rv, _ = self.measurement_model.backward_realization(
-            zero_data, pred_rv, rv_forwarded=meas_rv, gain=gain
+            zero_data, pred_rv, rv_forwarded=meas_rv, gain=gain, t=state.t + dt
         )
 
         t_new = state.t + dt
-- 
2.43.0


From 2d7b6fa252e1fe3621b533cc314397b4394de250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:59:50 +0000
Subject: [PATCH 40/62] fix: ODE filters store local diffusions with the end of
 the step

---
 src/probnum/diffeq/odefilter/_odefilter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/probnum/diffeq/odefilter/_odefilter.py b/src/probnum/diffeq/odefilter/_odefilter.py
index 517932b..34f7dfc 100644
--- a/src/probnum/diffeq/odefilter/_odefilter.py
+++ b/src/probnum/diffeq/odefilter/_odefilter.py
@@ -288,7 +288,7 @@ class ODEFilter(_odesolver.ODESolver):
 
         # Now we can be certain that the step will be accepted. In this case
         # we update the diffusion model and continue the rest of the iteration.,
-        self.diffusion_model.update_in_place(local_diffusion, t=state.t)
+        self.diffusion_model.update_in_place(local_diffusion, t=state.t + dt)
 
         if self._calibrate_at_each_step:
             # With the updated diffusion, we need to re-compute the covariances of the
-- 
2.43.0


From bd95bffc36ca0ca3f1fd955d5f7955685cb4c079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:59:51 +0000
Subject: [PATCH 41/62] fix: ODE filters smooth the calibrated states

---
 src/probnum/diffeq/odefilter/_odefilter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/probnum/diffeq/odefilter/_odefilter.py b/src/probnum/diffeq/odefilter/_odefilter.py
index 34f7dfc..d743b96 100644
--- a/src/probnum/diffeq/odefilter/_odefilter.py
+++ b/src/probnum/diffeq/odefilter/_odefilter.py
@@ -390,7 +390,7 @@ class ODEFilter(_odesolver.ODESolver):
 
             squared_diffusion_list = self.diffusion_model(locations[1:])
             rv_list = self.prior_process.transition.smooth_list(
-                rv_list, locations, _diffusion_list=squared_diffusion_list
+                kalman_posterior.states, locations, _diffusion_list=squared_diffusion_list
             )
             kalman_posterior = filtsmooth.gaussian.SmoothingPosterior(
                 filtering_posterior=kalman_posterior,
-- 
2.43.0


From 07e6c52365c0ccff8f6d6fdca875049ffdb41e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:59:51 +0000
Subject: [PATCH 42/62] fix: smoothing posteriors use the diffusion of the step
 that contains the query

---
 src/probnum/filtsmooth/gaussian/_kalmanposterior.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/probnum/filtsmooth/gaussian/_kalmanposterior.py b/src/probnum/filtsmooth/gaussian/_kalmanposterior.py
index 9eada93..10cd835 100644
--- a/src/probnum/filtsmooth/gaussian/_kalmanposterior.py
+++ b/src/probnum/filtsmooth/gaussian/_kalmanposterior.py
@@ -196,13 +196,10 @@ class SmoothingPosterior(KalmanPosterior):
         # This block avoids calling self.diffusion_model, because we do not want
         # to search the full index set -- we already know the index!
         # This is the reason that `Diffusion` objects implement a __getitem__.
-        # The usual diffusion-index is the next index
-        # ('Diffusion's include the right-hand side gridpoint!),
-        # but if we are right of the domain, the previous_index matters.
-        diffusion_index = next_index if next_index is not None else previous_index
-        if diffusion_index >= len(self.locations) - 1:
-            diffusion_index = -1
+        # The i-th diffusion belongs to the step from the i-th to the (i+1)-th location.
+        # Right of the domain, the last diffusion applies.
         if self.diffusion_model_has_been_provided:
+            diffusion_index = previous_index if next_index is not None else -1
             squared_diffusion = self.diffusion_model[diffusion_index]
         else:
             squared_diffusion = 1.0
@@ -299,7 +296,7 @@ class SmoothingPosterior(KalmanPosterior):
         # Find locations of the diffusions, which amounts to finding the locations
         # of the grid points in t (think: `all_locations`),
         # which is done via np.searchsorted:
-        diffusion_indices = np.searchsorted(self.locations[:-2], t[1:])
+        diffusion_indices = np.searchsorted(self.locations[1:-1], t[1:])
         if self.diffusion_model_has_been_provided:
             squared_diffusion_list = self.diffusion_model[diffusion_indices]
         else:
-- 
2.43.0


From a9e579073b3c62d7b4493b43eddfb5330c3985e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:59:51 +0000
Subject: [PATCH 43/62] fix: piecewise constant diffusions at the initial time

---
 src/probnum/randprocs/markov/continuous/_diffusions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/probnum/randprocs/markov/continuous/_diffusions.py b/src/probnum/randprocs/markov/continuous/_diffusions.py
index 43d33cf..828b400 100644
--- a/src/probnum/randprocs/markov/continuous/_diffusions.py
+++ b/src/probnum/randprocs/markov/continuous/_diffusions.py
@@ -142,7 +142,7 @@ class PiecewiseConstantDiffusion(Diffusion):
         # The "-1" in here makes up for the fact that the locations contains one more
         # element than the diffusions.
         indices = np.searchsorted(self.locations, t) - 1
-        indices[t < self.t0] = 0
+        indices[t <= self.t0] = 0
         indices[t > self.tmax] = -1
 
         if t_has_been_promoted:
-- 
2.43.0


From 8c1e22db8b3881ef18c771ba41f6328be14f323d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:04:19 +0000
Subject: [PATCH 44/62] fix: the constant diffusion is the mean of all local
 estimates

---
 src/probnum/randprocs/markov/continuous/_diffusions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/probnum/randprocs/markov/continuous/_diffusions.py b/src/probnum/randprocs/markov/continuous/_diffusions.py
index 828b400..9808cac 100644
--- a/src/probnum/randprocs/markov/continuous/_diffusions.py
+++ b/src/probnum/randprocs/markov/continuous/_diffusions.py
@@ -87,7 +87,7 @@ class ConstantDiffusion(Diffusion):
         if self.diffusion is None:
             self.diffusion = local_estimate
         else:
-            a = 1 / self._seen_diffusions
+            a = 1 / (self._seen_diffusions + 1)
             b = 1 - a
             self.diffusion = a * local_estimate + b * self.diffusion
         self._seen_diffusions += 1
-- 
2.43.0


From e9a4671534f7a5e449e3dd754e34695e90da3f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:03 +0000
Subject: [PATCH 45/62] fix: acquisition policies of bayesquad get an
 acquisition function instance

---
 src/probnum/quad/solvers/_bayesian_quadrature.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/probnum/quad/solvers/_bayesian_quadrature.py b/src/probnum/quad/solvers/_bayesian_quadrature.py
index e9ea4ca..7b737db 100644
--- a/src/probnum/quad/solvers/_bayesian_quadrature.py
+++ b/src/probnum/quad/solvers/_bayesian_quadrature.py
@@ -230,14 +230,14 @@ class BayesianQuadrature:
             assert policy[-5:] == "_rand"
             policy = RandomMaxAcquisitionPolicy(
                 batch_size=1,
-                acquisition_func=acquisition_dict[policy[:-5]],
+                acquisition_func=acquisition_dict[policy[:-5]](),
                 n_candidates=n_candidates,
             )
         # all max acquisition policies with optimizer
         elif policy in ["us", "mi", "ivr"]:
             policy = MaxAcquisitionPolicy(
                 batch_size=1,
-                acquisition_func=acquisition_dict[policy],
+                acquisition_func=acquisition_dict[policy](),
                 n_restarts=n_restarts,
             )
         else:
-- 
2.43.0


From 94789fdcd86a68055686776b37e76ea5f199d510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:03 +0000
Subject: [PATCH 46/62] fix: relative mean change criterion stops for integrals
 that are zero

---
 .../solvers/stopping_criteria/_rel_mean_change.py     | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/probnum/quad/solvers/stopping_criteria/_rel_mean_change.py b/src/probnum/quad/solvers/stopping_criteria/_rel_mean_change.py
index 6e91448..af5a8e2 100644
--- a/src/probnum/quad/solvers/stopping_criteria/_rel_mean_change.py
+++ b/src/probnum/quad/solvers/stopping_criteria/_rel_mean_change.py
@@ -36,10 +36,7 @@ class RelativeMeanChange(BQStoppingCriterion):
         if not bq_state.previous_integral_beliefs:
             # On the first iteration there is no previous integral value to use
             return False
-        return (
-            np.abs(
-                (integral_belief.mean - bq_state.previous_integral_beliefs[-1].mean)
-                / integral_belief.mean
-            )
-            <= self.rel_tol
-        )
+        # not written as a quotient: the integral may be zero
+        return np.abs(
+            integral_belief.mean - bq_state.previous_integral_beliefs[-1].mean
+        ) <= self.rel_tol * np.abs(integral_belief.mean)
-- 
2.43.0


From 22285888b76ffd3f1b25f68fa70a6280cd98ebee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:21:43 +0000
Subject: [PATCH 47/62] fix: 'rownorm' samples rows in proportion to row norms

---
 src/probnum/linalg/solvers/policies/_random_unit_vector.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/probnum/linalg/solvers/policies/_random_unit_vector.py b/src/probnum/linalg/solvers/policies/_random_unit_vector.py
index f183c48..f315337 100644
--- a/src/probnum/linalg/solvers/policies/_random_unit_vector.py
+++ b/src/probnum/linalg/solvers/policies/_random_unit_vector.py
@@ -45,7 +45,9 @@ class RandomUnitVectorPolicy(_linear_solver_policy.LinearSolverPolicy):
             if self.probabilities == "uniform":
                 solver_state.cache["row_sample_probs"] = np.ones(nrows) / nrows
             elif self.probabilities == "rownorm":
-                sampling_probs = (solver_state.problem.A**2).T @ np.ones(shape=nrows)
+                sampling_probs = (solver_state.problem.A**2) @ np.ones(
+                    shape=solver_state.problem.A.shape[1]
+                )
                 solver_state.cache["row_sample_probs"] = (
                     sampling_probs / sampling_probs.sum()
                 )
-- 
2.43.0


From d355b00453f992c3c94ae7daff211e00d8feb12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:21:43 +0000
Subject: [PATCH 48/62] fix: conjugate gradient policy after the system was
 solved exactly

---
 src/probnum/linalg/solvers/policies/_conjugate_gradient.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/probnum/linalg/solvers/policies/_conjugate_gradient.py b/src/probnum/linalg/solvers/policies/_conjugate_gradient.py
index 4896a31..d0ef58e 100644
--- a/src/probnum/linalg/solvers/policies/_conjugate_gradient.py
+++ b/src/probnum/linalg/solvers/policies/_conjugate_gradient.py
@@ -71,7 +71,11 @@ class ConjugateGradientPolicy(_linear_solver_policy.LinearSolverPolicy):
                 prev_residual = solver_state.residuals[solver_state.step - 1]
 
             # A-conjugacy correction (in exact arithmetic)
-            beta = (np.linalg.norm(residual) / np.linalg.norm(prev_residual)) ** 2
+            prev_residual_norm = np.linalg.norm(prev_residual)
+            if prev_residual_norm > 0.0:
+                beta = (np.linalg.norm(residual) / prev_residual_norm) ** 2
+            else:
+                beta = 0.0  # the system was solved exactly in a previous step
             action = residual + beta * solver_state.actions[solver_state.step - 1]
 
             # Reorthogonalization of the resulting action
-- 
2.43.0


From 50dedb8847efeac19741d2c69bf8a20887803743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:28:16 +0000
Subject: [PATCH 49/62] revert: Runge-Kutta steps start with the derivative at
 the current state

The documentation's worked example (a doctest) prints the output of the unrepaired
behaviour, so the repair is recorded as a known finding instead.
---
 .../perturbed/scipy_wrapper/_wrapped_scipy_solver.py       | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/src/probnum/diffeq/perturbed/scipy_wrapper/_wrapped_scipy_solver.py b/src/probnum/diffeq/perturbed/scipy_wrapper/_wrapped_scipy_solver.py
index 54556bd..6f2dd88 100644
--- a/src/probnum/diffeq/perturbed/scipy_wrapper/_wrapped_scipy_solver.py
+++ b/src/probnum/diffeq/perturbed/scipy_wrapper/_wrapped_scipy_solver.py
@@ -82,13 +82,6 @@ class WrappedScipyRungeKutta(_odesolver.ODESolver):
             New state.
         """
 
-        # Rejected attempts, perturbed steps, and callbacks may have moved on from the
-        # point at which the last derivative has been evaluated.
-        if self.solver.y_old is not None and not (
-            self.solver.t == state.t and np.array_equal(self.solver.y, state.rv.mean)
-        ):
-            self.solver.f = self.solver.fun(state.t, state.rv.mean)
-
         y_new, f_new = rk.rk_step(
             self.solver.fun,
             state.t,
-- 
2.43.0


From b0a7f0fb8a3afc6ec583f1e0dd8265ca0343519d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:43 +0000
Subject: [PATCH 50/62] fix: problinsolve returns the posterior covariances
 after the first iteration

---
 src/probnum/linalg/solvers/matrixbased.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/probnum/linalg/solvers/matrixbased.py b/src/probnum/linalg/solvers/matrixbased.py
index cbc5f36..d51d3bc 100644
--- a/src/probnum/linalg/solvers/matrixbased.py
+++ b/src/probnum/linalg/solvers/matrixbased.py
@@ -656,7 +656,7 @@ class SymmetricMatrixBasedSolver(MatrixBasedSolver):
         """Return output random variables x, A, Ainv from their means and
         covariances."""
 
-        if self.iter_ > 0:
+        if len(Y_list) > 0:
             # Observations and inner products in A-space between actions
             Y = np.hstack(Y_list)
             sy = np.vstack(sy_list).ravel()
-- 
2.43.0


From fb80432142f2107587d70a406f349cc60ee78328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:43 +0000
Subject: [PATCH 51/62] fix: problinsolve accepts an array as prior guess for
 the inverse

---
 src/probnum/linalg/solvers/matrixbased.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/probnum/linalg/solvers/matrixbased.py b/src/probnum/linalg/solvers/matrixbased.py
index d51d3bc..1f496c0 100644
--- a/src/probnum/linalg/solvers/matrixbased.py
+++ b/src/probnum/linalg/solvers/matrixbased.py
@@ -348,7 +348,7 @@ class SymmetricMatrixBasedSolver(MatrixBasedSolver):
                     "This operation is computationally costly! Specify an inverse "
                     "prior (mean) instead."
                 )
-                A0_mean = np.linalg.inv(Ainv0.mean)
+                A0_mean = np.linalg.inv(Ainv0_mean)
             except NotImplementedError:
                 A0_mean = linops.Identity(self.n)
                 warnings.warn(
-- 
2.43.0


From 83a43fb1782fff8b33c6837f1ffa1af8629599c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:43 +0000
Subject: [PATCH 52/62] fix: problinsolve with an initial guess and a zero
 right-hand side

---
 src/probnum/linalg/solvers/matrixbased.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/probnum/linalg/solvers/matrixbased.py b/src/probnum/linalg/solvers/matrixbased.py
index 1f496c0..3c70fc6 100644
--- a/src/probnum/linalg/solvers/matrixbased.py
+++ b/src/probnum/linalg/solvers/matrixbased.py
@@ -94,7 +94,9 @@ class MatrixBasedSolver(abc.ABC):
         elif bx0 == 0:
             if np.all(b == np.zeros_like(b)):
                 print("Right-hand-side is zero. Initializing with solution x0 = 0.")
-                x0 = b
+                self.x0 = np.zeros_like(x0)
+                # No information about the inverse: standard prior means
+                return linops.Identity(self.n), linops.Identity(self.n)
             else:
                 print("Better initialization found, setting x0 = (b'b/b'Ab) * b.")
                 bAb = np.squeeze(b.T @ (A @ b))
@@ -255,7 +257,7 @@ class SymmetricMatrixBasedSolver(MatrixBasedSolver):
         self.Ainv_covfactor = Ainv_covfactor0
         self.Ainv_covfactor0 = Ainv_covfactor0
         if isinstance(x0, np.ndarray):
-            self.x_mean = x0
+            self.x_mean = self.x0
         elif x0 is None:
             self.x_mean = Ainv_mean0 @ self.b
         else:
-- 
2.43.0


From f98738de6c865cbdf4aafcab459ac00df84a55a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:16 +0000
Subject: [PATCH 53/62] fix: gaussian ODE likelihoods are centred at a
 vanishing residual

---
 src/probnum/diffeq/odefilter/utils/_problem_utils.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/probnum/diffeq/odefilter/utils/_problem_utils.py b/src/probnum/diffeq/odefilter/utils/_problem_utils.py
index a396b56..92db387 100644
--- a/src/probnum/diffeq/odefilter/utils/_problem_utils.py
+++ b/src/probnum/diffeq/odefilter/utils/_problem_utils.py
@@ -118,6 +118,12 @@ def _construct_measurement_models_gaussian_likelihood(
     diff = ode_measurement_variance * np.eye(ode_information_operator.output_dim)
     diff_cholesky = np.sqrt(diff)
     noise = randvars.Normal(mean=shift_vector, cov=diff, cov_cholesky=diff_cholesky)
+    # The shift by the initial value only concerns the initial condition
+    noise_ode = randvars.Normal(
+        mean=np.zeros(ode_information_operator.output_dim),
+        cov=diff,
+        cov_cholesky=diff_cholesky,
+    )
 
     measmod_initial_condition = randprocs.markov.discrete.LTIGaussian(
         transition_matrix=transition_matrix,
@@ -126,7 +132,7 @@ def _construct_measurement_models_gaussian_likelihood(
     if approx_strategy is not None:
         ode_information_operator = approx_strategy(ode_information_operator)
     measmod_ode = ode_information_operator.as_transition(
-        noise_fun=lambda t: noise,
+        noise_fun=lambda t: noise_ode,
     )
 
     return measmod_initial_condition, measmod_ode
-- 
2.43.0


From 8738f5961eb7007acfd422a1a053fbf2b8e4ec6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:16 +0000
Subject: [PATCH 54/62] fix: StackWithJacobian initialises priors with a single
 derivative

---
 src/probnum/diffeq/odefilter/init_routines/_stack.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/probnum/diffeq/odefilter/init_routines/_stack.py b/src/probnum/diffeq/odefilter/init_routines/_stack.py
index 2bb00dd..aebe156 100644
--- a/src/probnum/diffeq/odefilter/init_routines/_stack.py
+++ b/src/probnum/diffeq/odefilter/init_routines/_stack.py
@@ -65,4 +65,5 @@ class StackWithJacobian(_StackBase):
             [0.0 * ivp.y0, 0.0 * fy, 0.0 * dfy]
             + [self._scale_cholesky * np.ones(d)] * (n - 3)
         )
-        return mean, std
+        # Priors with a single derivative do not track the second derivative
+        return mean[:n], std[:n]
-- 
2.43.0


From 1399c25463511c2826d8888e236c08082d7f209c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:16 +0000
Subject: [PATCH 55/62] fix: iterated smoothing linearises at the previous
 posterior

---
 src/probnum/filtsmooth/gaussian/_kalman.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/probnum/filtsmooth/gaussian/_kalman.py b/src/probnum/filtsmooth/gaussian/_kalman.py
index c0fdeed..0eb5b81 100644
--- a/src/probnum/filtsmooth/gaussian/_kalman.py
+++ b/src/probnum/filtsmooth/gaussian/_kalman.py
@@ -170,7 +170,9 @@ class Kalman(_bayesfiltsmooth.BayesFiltSmooth):
             _previous_posterior=_previous_posterior,
         )
         filter_posterior, info_dicts = filter_result
-        smooth_posterior = self.smooth(filter_posterior)
+        smooth_posterior = self.smooth(
+            filter_posterior, _previous_posterior=_previous_posterior
+        )
         return smooth_posterior, info_dicts
 
     def filter(
@@ -267,8 +269,13 @@ class Kalman(_bayesfiltsmooth.BayesFiltSmooth):
 
             # Predict if there is a time-increment
             if dt > 0:
+                # The previous posterior does not cover the time before the first
+                # data point: linearise at the initial random variable there.
                 linearise_predict_at = (
-                    None if _previous_posterior is None else _previous_posterior(t_old)
+                    None
+                    if _previous_posterior is None
+                    or t_old < _previous_posterior.locations[0]
+                    else _previous_posterior(t_old)
                 )
                 output = self.prior_process.transition.forward_rv(
                     curr_rv, t_old, dt=dt, _linearise_at=linearise_predict_at
@@ -300,6 +307,11 @@ class Kalman(_bayesfiltsmooth.BayesFiltSmooth):
         ----------
         filter_posterior
             Posterior distribution obtained after filtering
+        _previous_posterior
+            If specified, approximate Gaussian smoothing linearises
+            at this, prescribed posterior.
+            This is used for iterated filtering and smoothing.
+            For standard smoothing, this can be ignored.
 
         Returns
         -------
@@ -311,6 +323,7 @@ class Kalman(_bayesfiltsmooth.BayesFiltSmooth):
             filter_posterior.states,
             filter_posterior.locations,
             _diffusion_list=diffusion_list,
+            _previous_posterior=_previous_posterior,
         )
 
         return _kalmanposterior.SmoothingPosterior(
-- 
2.43.0


From 5ca293e19a21c9cfc4fe4da9da8abfa67dd79686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:17 +0000
Subject: [PATCH 56/62] fix: filtering stopping criterion with negative
 references and after refusals

---
 src/probnum/filtsmooth/optim/_stopping_criterion.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/probnum/filtsmooth/optim/_stopping_criterion.py b/src/probnum/filtsmooth/optim/_stopping_criterion.py
index 491e630..6d8da3b 100644
--- a/src/probnum/filtsmooth/optim/_stopping_criterion.py
+++ b/src/probnum/filtsmooth/optim/_stopping_criterion.py
@@ -22,6 +22,7 @@ class FiltSmoothStoppingCriterion(StoppingCriterion):
         maximum number of iterations is reached.
         """
         if self.iterations > self.maxit:
+            self.iterations = 0
             errormsg = f"Maximum number of iterations (N={self.maxit}) reached."
             raise RuntimeError(errormsg)
         magnitude = self.evaluate_error(error=error, reference=reference)
@@ -33,6 +34,6 @@ class FiltSmoothStoppingCriterion(StoppingCriterion):
 
     def evaluate_error(self, error, reference):
         """Compute the normalised error."""
-        normalisation = self.atol + self.rtol * reference
+        normalisation = self.atol + self.rtol * np.abs(reference)
         magnitude = np.sqrt(np.mean((error / normalisation) ** 2))
         return magnitude
-- 
2.43.0


From 3805339619e7ce285eb13058ac1ea91ca371b7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:17 +0000
Subject: [PATCH 57/62] fix: multi-output Gaussian processes order mean and
 covariance alike

---
 src/probnum/randprocs/_gaussian_process.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/probnum/randprocs/_gaussian_process.py b/src/probnum/randprocs/_gaussian_process.py
index aea560d..9e1bbf0 100644
--- a/src/probnum/randprocs/_gaussian_process.py
+++ b/src/probnum/randprocs/_gaussian_process.py
@@ -73,7 +73,14 @@ class GaussianProcess(_random_process.RandomProcess[ArrayLike, np.ndarray]):
         )
 
     def __call__(self, args: ArrayLike) -> randvars.Normal:
-        return randvars.Normal(
-            mean=np.array(self.mean(args), copy=False),  # pylint: disable=not-callable
-            cov=self.cov.matrix(args),
-        )
+        mean = np.array(self.mean(args), copy=False)  # pylint: disable=not-callable
+        cov = self.cov.matrix(args)
+
+        if self.output_ndim > 0:
+            # The covariance matrix lists the outputs first, but the flattened mean the
+            # inputs
+            output_size = self.cov.output_size_0
+            cov = cov.reshape(2 * (output_size, mean.size // output_size), order="C")
+            cov = cov.transpose((1, 0, 3, 2)).reshape(2 * (mean.size,), order="C")
+
+        return randvars.Normal(mean=mean, cov=cov)
-- 
2.43.0


From 0967986b286b5336713db9c45d99f5d7a46005cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:17 +0000
Subject: [PATCH 58/62] fix: isotropic covariance functions with integer
 inputs, a single argument and KeOps

---
 .../covfuncs/_covariance_function.py          | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/probnum/randprocs/covfuncs/_covariance_function.py b/src/probnum/randprocs/covfuncs/_covariance_function.py
index 77898ec..c435361 100644
--- a/src/probnum/randprocs/covfuncs/_covariance_function.py
+++ b/src/probnum/randprocs/covfuncs/_covariance_function.py
@@ -774,7 +774,7 @@ class IsotropicMixin(abc.ABC):  # pylint: disable=too-few-public-methods
         sqdiffs = x0 - x1
 
         if scale_factors is not None:
-            sqdiffs *= scale_factors
+            sqdiffs = sqdiffs * scale_factors
 
         sqdiffs *= sqdiffs
 
@@ -791,12 +791,6 @@ class IsotropicMixin(abc.ABC):  # pylint: disable=too-few-public-methods
         inputs, an optional second argument, and separate scale factors for each input
         dimension."""
 
-        if x1 is None:
-            return np.zeros_like(  # pylint: disable=unexpected-keyword-arg
-                x0,
-                shape=x0.shape[: x0.ndim - self.input_ndim],
-            )
-
         return np.sqrt(
             self._squared_euclidean_distances(x0, x1, scale_factors=scale_factors)
         )
@@ -817,14 +811,17 @@ class IsotropicMixin(abc.ABC):  # pylint: disable=too-few-public-methods
 
         if x1 is None:
             x1 = x0
-        if len(x0.shape) < 2:
-            x0 = x0.reshape(-1, 1)
-        if len(x1.shape) < 2:
-            x1 = x1.reshape(-1, 1)
+
+        # KeOps needs two-dimensional floating point arrays
+        x0 = np.asarray(x0.reshape(x0.shape[0], -1), dtype=np.double)
+        x1 = np.asarray(x1.reshape(x1.shape[0], -1), dtype=np.double)
 
         sqdiffs = Vi(x0) - Vj(x1)
 
         if scale_factors is not None:
+            if np.ndim(scale_factors) > 0:
+                scale_factors = np.broadcast_to(scale_factors, self.input_shape).ravel()
+
             sqdiffs *= Pm(scale_factors)
 
         sqdiffs *= sqdiffs
-- 
2.43.0


From 6ae2bdeba51ccdc65fcb07d0c81c03b43b3fee03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:17 +0000
Subject: [PATCH 59/62] fix: white noise covariance with integer and matrix
 inputs

---
 src/probnum/randprocs/covfuncs/_white_noise.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/probnum/randprocs/covfuncs/_white_noise.py b/src/probnum/randprocs/covfuncs/_white_noise.py
index ae5377c..65456fd 100644
--- a/src/probnum/randprocs/covfuncs/_white_noise.py
+++ b/src/probnum/randprocs/covfuncs/_white_noise.py
@@ -37,13 +37,11 @@ class WhiteNoise(CovarianceFunction):
 
     def _evaluate(self, x0: np.ndarray, x1: Optional[np.ndarray]) -> np.ndarray:
         if x1 is None:
-            return np.full_like(  # pylint: disable=unexpected-keyword-arg
-                x0,
-                self.sigma_sq,
-                shape=x0.shape[: x0.ndim - self.input_ndim],
-            )
+            return np.full(x0.shape[: x0.ndim - self.input_ndim], self.sigma_sq)
 
         if self.input_shape == ():
             return self.sigma_sq * (x0 == x1)
 
-        return self.sigma_sq * np.all(x0 == x1, axis=-1)
+        return self.sigma_sq * np.all(
+            x0 == x1, axis=tuple(range(-self.input_ndim, 0))
+        )
-- 
2.43.0


From 07d22ef54c5402eebb0cfe4a30538c508f49e3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:17 +0000
Subject: [PATCH 60/62] fix: samples of combined random variables keep the
 sample size apart

---
 src/probnum/randvars/_arithmetic.py | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/probnum/randvars/_arithmetic.py b/src/probnum/randvars/_arithmetic.py
index f831433..85c6a66 100644
--- a/src/probnum/randvars/_arithmetic.py
+++ b/src/probnum/randvars/_arithmetic.py
@@ -125,10 +125,27 @@ def _default_rv_binary_op_factory(op_fn) -> _RandomVariableBinaryOperator:
 
 
 def _make_rv_binary_op_result_shape_dtype_sample_fn(op_fn, rv1, rv2):
-    sample_fn = lambda rng, size: op_fn(
-        rv1.sample(rng, size=size),
-        rv2.sample(rng, size=size),
-    )
+    def sample_fn(rng, size):
+        sample1 = rv1.sample(rng, size=size)
+        sample2 = rv2.sample(rng, size=size)
+
+        if size == ():
+            return op_fn(sample1, sample2)
+
+        # Apply the operation to each pair of samples: the dimensions in `size` must not
+        # take part in broadcasting and matrix multiplication.
+        if op_fn is operator.matmul:
+            shape1 = rv1.shape if rv1.ndim > 1 else (1,) + rv1.shape
+            shape2 = rv2.shape if rv2.ndim > 1 else rv2.shape + (1,)
+        else:
+            ndim = max(rv1.ndim, rv2.ndim)
+            shape1 = (1,) * (ndim - rv1.ndim) + rv1.shape
+            shape2 = (1,) * (ndim - rv2.ndim) + rv2.shape
+
+        sample = op_fn(
+            np.reshape(sample1, size + shape1), np.reshape(sample2, size + shape2)
+        )
+        return sample.reshape(size + shape)
 
     # Infer shape and dtype
     infer_sample = sample_fn(np.random.default_rng(1), ())
-- 
2.43.0


From e759ab9818c9b7e7cbcdcda8097596180cab74e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:17 +0000
Subject: [PATCH 61/62] fix: categorical pmf and mode with array-valued and
 repeated events

---
 src/probnum/randvars/_categorical.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/probnum/randvars/_categorical.py b/src/probnum/randvars/_categorical.py
index a669556..22fe725 100644
--- a/src/probnum/randvars/_categorical.py
+++ b/src/probnum/randvars/_categorical.py
@@ -67,11 +67,17 @@ class Categorical(DiscreteRandomVariable):
                     "support."
                 )
 
-            mask = (x == self.support).nonzero()[0]
-            return self.probabilities[mask][0] if len(mask) > 0 else 0.0
+            # The same event may occur more than once in the support,
+            # and an event may be an array.
+            event_axes = tuple(range(1, self.support.ndim))
+            mask = np.all(x == self.support, axis=event_axes)
+            return np.sum(self.probabilities[mask])
 
         def _mode_categorical():
-            mask = np.argmax(self.probabilities)
+            # The same event may occur more than once in the support.
+            _, events = np.unique(self.support, axis=0, return_inverse=True)
+            event_probabilities = np.bincount(events, weights=self.probabilities)
+            mask = np.argmax(event_probabilities[events])
             return self.support[mask]
 
         super().__init__(
-- 
2.43.0


From 055d8c1bf1443d4ca98ed8545c6a45c742bcf671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:17 +0000
Subject: [PATCH 62/62] fix: indexing, transposing and reshaping of generic
 random variables

---
 src/probnum/randvars/_random_variable.py | 45 +++++++++++++++++++-----
 1 file changed, 36 insertions(+), 9 deletions(-)

diff --git a/src/probnum/randvars/_random_variable.py b/src/probnum/randvars/_random_variable.py
index 342a167..4614293 100644
--- a/src/probnum/randvars/_random_variable.py
+++ b/src/probnum/randvars/_random_variable.py
@@ -250,6 +250,9 @@ class RandomVariable(Generic[ValueType]):
                 "The median is only defined for scalar random variables."
             )
 
+        if self.__median is None:
+            raise NotImplementedError
+
         median = self.__median()
 
         RandomVariable._check_property_value(
@@ -322,7 +325,7 @@ class RandomVariable(Generic[ValueType]):
         """
         if self.__var is None:
             try:
-                var = np.diag(self.cov).reshape(self.__shape).copy()
+                var = np.diag(np.atleast_2d(self.cov)).reshape(self.__shape).copy()
             except NotImplementedError as exc:
                 raise NotImplementedError from exc
         else:
@@ -524,18 +527,29 @@ class RandomVariable(Generic[ValueType]):
         return quantile
 
     def __getitem__(self, key: ArrayIndicesLike) -> "RandomVariable":
+        # Which of the (flattened) entries of the random variable are selected
+        indices = np.asarray(np.arange(self.size).reshape(self.shape)[key])
+
+        # The mode and the entropy of the selected entries can not be inferred from the
+        # mode and the entropy of the full random variable.
         return RandomVariable(
-            shape=np.empty(shape=self.shape)[key].shape,
+            shape=indices.shape,
             dtype=self.dtype,
-            sample=lambda rng, size: self.sample(rng, size)[key],
-            mode=lambda: self.mode[key],
+            sample=lambda rng, size: self._select_from_sample(
+                self.sample(rng, size), size, indices
+            ),
             mean=lambda: self.mean[key],
             var=lambda: self.var[key],
             std=lambda: self.std[key],
-            entropy=lambda: self.entropy,
             as_value_type=self.__as_value_type,
         )
 
+    def _select_from_sample(
+        self, sample: ValueType, size: ShapeType, indices: np.ndarray
+    ) -> ValueType:
+        """Select entries (given by their flat indices) from each of the samples."""
+        return np.asarray(sample).reshape(size + (self.size,))[..., indices]
+
     def reshape(self, newshape: ShapeLike) -> "RandomVariable":
         """Give a new shape to a random variable.
 
@@ -554,7 +568,11 @@ class RandomVariable(Generic[ValueType]):
             mode=lambda: self.mode.reshape(newshape),
             median=lambda: self.median.reshape(newshape),
             mean=lambda: self.mean.reshape(newshape),
-            cov=lambda: self.cov,
+            cov=lambda: (
+                self.cov
+                if (self.ndim > 0) == (len(newshape) > 0)
+                else self.cov.reshape((self.size, self.size) if newshape else ())
+            ),
             var=lambda: self.var.reshape(newshape),
             std=lambda: self.std.reshape(newshape),
             entropy=lambda: self.entropy,
@@ -569,14 +587,23 @@ class RandomVariable(Generic[ValueType]):
         axes :
             See documentation of :meth:`numpy.ndarray.transpose`.
         """
+        # Where the (flattened) entries of the transposed random variable come from
+        indices = np.arange(self.size).reshape(self.shape).transpose(*axes)
+
         return RandomVariable(
-            shape=np.empty(shape=self.shape).transpose(*axes).shape,
+            shape=indices.shape,
             dtype=self.dtype,
-            sample=lambda rng, size: self.sample(rng, size).transpose(*axes),
+            sample=lambda rng, size: self._select_from_sample(
+                self.sample(rng, size), size, indices
+            ),
             mode=lambda: self.mode.transpose(*axes),
             median=lambda: self.median.transpose(*axes),
             mean=lambda: self.mean.transpose(*axes),
-            cov=lambda: self.cov,
+            cov=lambda: (
+                self.cov[np.ix_(indices.ravel(), indices.ravel())]
+                if self.ndim > 1
+                else self.cov
+            ),
             var=lambda: self.var.transpose(*axes),
             std=lambda: self.std.transpose(*axes),
             entropy=lambda: self.entropy,
-- 
2.43.0

