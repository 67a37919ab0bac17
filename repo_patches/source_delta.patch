From 1c6f4160f55493abdfae2ef065d027592e97d5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:14 +0000
Subject: [PATCH 1/8] Add verification hooks guarded by cfg(halo2_verif)

---
 halo2_proofs/src/arithmetic.rs |  5 ++
 halo2_proofs/src/lib.rs        |  6 +++
 halo2_proofs/src/verif.rs      | 83 ++++++++++++++++++++++++++++++++++
 3 files changed, 94 insertions(+)
 create mode 100644 halo2_proofs/src/verif.rs

diff --git a/halo2_proofs/src/arithmetic.rs b/halo2_proofs/src/arithmetic.rs
index 09d4cec..649fd52 100644
--- a/halo2_proofs/src/arithmetic.rs
+++ b/halo2_proofs/src/arithmetic.rs
@@ -143,6 +143,11 @@ pub fn small_multiexp<C: CurveAffine>(coeffs: &[C::Scalar], bases: &[C]) -> C::C
 pub fn best_multiexp<C: CurveAffine>(coeffs: &[C::Scalar], bases: &[C]) -> C::Curve {
     assert_eq!(coeffs.len(), bases.len());
 
+    #[cfg(halo2_verif)]
+    if crate::verif::naive_multiexp_enabled() {
+        return crate::verif::naive_multiexp(coeffs, bases);
+    }
+
     let c = if bases.len() < 4 {
         1
     } else if bases.len() < 32 {
diff --git a/halo2_proofs/src/lib.rs b/halo2_proofs/src/lib.rs
index 8fc0e0b..d3a27d9 100644
--- a/halo2_proofs/src/lib.rs
+++ b/halo2_proofs/src/lib.rs
@@ -18,3 +18,9 @@ pub mod transcript;
 
 pub mod dev;
 mod helpers;
+
+// Verification hooks; compiled only with `--cfg halo2_verif`.
+#[cfg(halo2_verif)]
+#[doc(hidden)]
+#[allow(missing_docs, missing_debug_implementations)]
+pub mod verif;
diff --git a/halo2_proofs/src/verif.rs b/halo2_proofs/src/verif.rs
new file mode 100644
index 0000000..d0dae7e
--- /dev/null
+++ b/halo2_proofs/src/verif.rs
@@ -0,0 +1,83 @@
+//! Hooks for the solver-based checks. Compiled only with `--cfg halo2_verif`.
+
+use std::sync::atomic::{AtomicBool, Ordering};
+
+use ff::Field;
+use group::Group;
+
+use crate::{
+    arithmetic::CurveAffine,
+    plonk::{Any, Column, ConstraintSystem, Error, Expression},
+};
+
+static NAIVE_MULTIEXP: AtomicBool = AtomicBool::new(false);
+
+/// While enabled, `best_multiexp` is computed as the plain sum of scalar multiples, which
+/// does not look at the bits of the scalars.
+pub fn set_naive_multiexp(on: bool) {
+    NAIVE_MULTIEXP.store(on, Ordering::SeqCst);
+}
+
+pub(crate) fn naive_multiexp_enabled() -> bool {
+    NAIVE_MULTIEXP.load(Ordering::SeqCst)
+}
+
+pub(crate) fn naive_multiexp<C: CurveAffine>(coeffs: &[C::Scalar], bases: &[C]) -> C::Curve {
+    coeffs
+        .iter()
+        .zip(bases.iter())
+        .fold(C::Curve::identity(), |acc, (s, b)| acc + *b * *s)
+}
+
+/// Runs selector compression with the given activations (one row vector per selector).
+pub fn compress_selectors<F: Field>(
+    cs: ConstraintSystem<F>,
+    selectors: Vec<Vec<bool>>,
+) -> (ConstraintSystem<F>, Vec<Vec<F>>) {
+    cs.compress_selectors(selectors)
+}
+
+/// The gate polynomials of a constraint system.
+pub fn gates<F: Field>(cs: &ConstraintSystem<F>) -> Vec<(&'static str, Vec<Expression<F>>)> {
+    cs.gates
+        .iter()
+        .map(|g| (g.name(), g.polynomials().to_vec()))
+        .collect()
+}
+
+/// The lookup arguments of a constraint system, as (inputs, tables).
+pub fn lookups<F: Field>(
+    cs: &ConstraintSystem<F>,
+) -> Vec<(Vec<Expression<F>>, Vec<Expression<F>>)> {
+    cs.lookups
+        .iter()
+        .map(|l| (l.input_expressions.clone(), l.table_expressions.clone()))
+        .collect()
+}
+
+/// The copy-constraint bookkeeping used by key generation.
+pub struct PermutationAssembly(crate::plonk::permutation::keygen::Assembly);
+
+impl PermutationAssembly {
+    pub fn new(n: usize, columns: &[Column<Any>]) -> Self {
+        let mut argument = crate::plonk::permutation::Argument::new();
+        for c in columns {
+            argument.add_column(*c);
+        }
+        PermutationAssembly(crate::plonk::permutation::keygen::Assembly::new(
+            n, &argument,
+        ))
+    }
+
+    pub fn copy(
+        &mut self,
+        left: (Column<Any>, usize),
+        right: (Column<Any>, usize),
+    ) -> Result<(), Error> {
+        self.0.copy(left.0, left.1, right.0, right.1)
+    }
+
+    pub fn mapping(&self) -> &[Vec<(usize, usize)>] {
+        &self.0.mapping
+    }
+}
-- 
2.43.0


From 923591481bc7eff20004f6b415d2e4331f2af398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:52 +0000
Subject: [PATCH 2/8] Verification hooks: deferred inversion, evaluator and
 lookup permutation (cfg(halo2_verif))

---
 halo2_proofs/src/plonk.rs               |  3 +
 halo2_proofs/src/plonk/lookup/prover.rs | 18 ++++++
 halo2_proofs/src/verif.rs               | 80 ++++++++++++++++++++++++-
 3 files changed, 100 insertions(+), 1 deletion(-)

diff --git a/halo2_proofs/src/plonk.rs b/halo2_proofs/src/plonk.rs
index e96cf3f..7ad3dd6 100644
--- a/halo2_proofs/src/plonk.rs
+++ b/halo2_proofs/src/plonk.rs
@@ -33,6 +33,9 @@ pub use keygen::*;
 pub use prover::*;
 pub use verifier::*;
 
+#[cfg(halo2_verif)]
+pub use lookup::prover::verif_permute_expression_pair;
+
 use std::io;
 
 /// This is a verifying key which allows for the verification of proofs for a
diff --git a/halo2_proofs/src/plonk/lookup/prover.rs b/halo2_proofs/src/plonk/lookup/prover.rs
index a6ad4a6..5436fce 100644
--- a/halo2_proofs/src/plonk/lookup/prover.rs
+++ b/halo2_proofs/src/plonk/lookup/prover.rs
@@ -645,3 +645,21 @@ fn permute_expression_pair<C: CurveAffine, R: RngCore>(
         domain.lagrange_from_vec(permuted_table_coeffs),
     ))
 }
+
+/// The permuted columns of a lookup argument, for the given input and table columns.
+#[cfg(halo2_verif)]
+pub fn verif_permute_expression_pair<C: CurveAffine, R: RngCore>(
+    pk: &ProvingKey<C>,
+    params: &Params<C>,
+    rng: R,
+    input: Vec<C::Scalar>,
+    table: Vec<C::Scalar>,
+) -> Result<(Vec<C::Scalar>, Vec<C::Scalar>), Error> {
+    let domain = &pk.vk.domain;
+    let (input, table) = (
+        domain.lagrange_from_vec(input),
+        domain.lagrange_from_vec(table),
+    );
+    permute_expression_pair(pk, params, domain, rng, &input, &table)
+        .map(|(a, b)| (a.to_vec(), b.to_vec()))
+}
diff --git a/halo2_proofs/src/verif.rs b/halo2_proofs/src/verif.rs
index d0dae7e..fe33d8e 100644
--- a/halo2_proofs/src/verif.rs
+++ b/halo2_proofs/src/verif.rs
@@ -5,9 +5,15 @@ use std::sync::atomic::{AtomicBool, Ordering};
 use ff::Field;
 use group::Group;
 
+use ff::WithSmallOrderMulGroup;
+
 use crate::{
     arithmetic::CurveAffine,
-    plonk::{Any, Column, ConstraintSystem, Error, Expression},
+    plonk::{Any, Assigned, Column, ConstraintSystem, Error, Expression},
+    poly::{
+        self, Coeff, EvaluationDomain, ExtendedLagrangeCoeff, LagrangeCoeff,
+        Polynomial, Rotation,
+    },
 };
 
 static NAIVE_MULTIEXP: AtomicBool = AtomicBool::new(false);
@@ -81,3 +87,75 @@ impl PermutationAssembly {
         &self.0.mapping
     }
 }
+
+/// Batch inversion of deferred columns.
+pub fn batch_invert_assigned<F: WithSmallOrderMulGroup<3>>(
+    domain: &EvaluationDomain<F>,
+    columns: Vec<Vec<Assigned<F>>>,
+) -> Vec<Polynomial<F, LagrangeCoeff>> {
+    poly::batch_invert_assigned(
+        columns
+            .into_iter()
+            .map(|c| {
+                let mut p = domain.empty_lagrange_assigned();
+                p.copy_from_slice(&c);
+                p
+            })
+            .collect(),
+    )
+}
+
+/// A polynomial operation, in any basis.
+#[derive(Clone, Debug)]
+pub enum VAst<F> {
+    Poly(usize, i32),
+    Add(Box<VAst<F>>, Box<VAst<F>>),
+    Sub(Box<VAst<F>>, Box<VAst<F>>),
+    Neg(Box<VAst<F>>),
+    Mul(Box<VAst<F>>, Box<VAst<F>>),
+    Scale(Box<VAst<F>>, F),
+    Distribute(Vec<VAst<F>>, F),
+    Linear(F),
+    Constant(F),
+    One,
+}
+
+macro_rules! eval_fn {
+    ($name:ident, $basis:ty, $mul:expr) => {
+        /// Evaluates the operation with the library's evaluator in this basis.
+        pub fn $name<F: WithSmallOrderMulGroup<3>>(
+            polys: Vec<Polynomial<F, $basis>>,
+            ast: &VAst<F>,
+            domain: &EvaluationDomain<F>,
+        ) -> Polynomial<F, $basis> {
+            fn build<E: Copy, F: Field>(
+                a: &VAst<F>,
+                leaves: &[poly::AstLeaf<E, $basis>],
+            ) -> poly::Ast<E, F, $basis> {
+                match a {
+                    VAst::Poly(i, 0) => leaves[*i].into(),
+                    VAst::Poly(i, r) => leaves[*i].with_rotation(Rotation(*r)).into(),
+                    VAst::Add(a, b) => build(a, leaves) + build(b, leaves),
+                    VAst::Sub(a, b) => build(a, leaves) - build(b, leaves),
+                    VAst::Neg(a) => -build(a, leaves),
+                    VAst::Mul(a, b) => $mul(build(a, leaves), build(b, leaves)),
+                    VAst::Scale(a, s) => build(a, leaves) * *s,
+                    VAst::Distribute(v, b) => {
+                        poly::Ast::distribute_powers(v.iter().map(|a| build(a, leaves)), *b)
+                    }
+                    VAst::Linear(s) => poly::Ast::LinearTerm(*s),
+                    VAst::Constant(s) => poly::Ast::ConstantTerm(*s),
+                    VAst::One => poly::Ast::one(),
+                }
+            }
+            let mut ev = poly::new_evaluator::<_, F, $basis>(|| {});
+            let leaves: Vec<_> = polys.into_iter().map(|p| ev.register_poly(p)).collect();
+            ev.evaluate(&build(ast, &leaves), domain)
+        }
+    };
+}
+eval_fn!(evaluate_coeff, Coeff, |_, _| unreachable!());
+eval_fn!(evaluate_lagrange, LagrangeCoeff, |a, b| a * b);
+eval_fn!(evaluate_extended, ExtendedLagrangeCoeff, |a, b| a * b);
+
+pub use crate::plonk::verif_permute_expression_pair;
-- 
2.43.0


From 6dd7390217fc3cd7c9e023b642b1cf9c055105a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:21 +0000
Subject: [PATCH 3/8] fix: evaluator linear term in the coefficient basis with
 one-element chunks

With a chunk size of one the first chunk has a single element, so writing the
linear coefficient to its second element panicked.
---
 halo2_proofs/src/poly/evaluator.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/halo2_proofs/src/poly/evaluator.rs b/halo2_proofs/src/poly/evaluator.rs
index 5334945..b6fad0f 100644
--- a/halo2_proofs/src/poly/evaluator.rs
+++ b/halo2_proofs/src/poly/evaluator.rs
@@ -500,8 +500,10 @@ impl BasisOps for Coeff {
         // Note that we check against the original chunk size, not the potentially-short
         // actual size of the current chunk, because we want to know whether the size of
         // the previous chunk was 1.
-        if chunk_size == 1 && chunk_index == 1 {
-            chunk[0] = scalar;
+        if chunk_size == 1 {
+            if chunk_index == 1 {
+                chunk[0] = scalar;
+            }
         } else if chunk_index == 0 {
             chunk[1] = scalar;
         }
-- 
2.43.0


From 36eb8f533081e494013fc45925cf075a7c8e8583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:31 +0000
Subject: [PATCH 4/8] Verification hooks: key and constraint-system views
 (cfg(halo2_verif))

---
 halo2_proofs/src/plonk.rs             |  4 ++
 halo2_proofs/src/plonk/permutation.rs | 20 +++++++
 halo2_proofs/src/plonk/verif_hooks.rs | 82 +++++++++++++++++++++++++++
 halo2_proofs/src/verif.rs             |  1 +
 4 files changed, 107 insertions(+)
 create mode 100644 halo2_proofs/src/plonk/verif_hooks.rs

diff --git a/halo2_proofs/src/plonk.rs b/halo2_proofs/src/plonk.rs
index 7ad3dd6..bb6dfd3 100644
--- a/halo2_proofs/src/plonk.rs
+++ b/halo2_proofs/src/plonk.rs
@@ -35,6 +35,10 @@ pub use verifier::*;
 
 #[cfg(halo2_verif)]
 pub use lookup::prover::verif_permute_expression_pair;
+#[cfg(halo2_verif)]
+#[doc(hidden)]
+#[allow(missing_docs, missing_debug_implementations)]
+pub mod verif_hooks;
 
 use std::io;
 
diff --git a/halo2_proofs/src/plonk/permutation.rs b/halo2_proofs/src/plonk/permutation.rs
index c81de27..d942c64 100644
--- a/halo2_proofs/src/plonk/permutation.rs
+++ b/halo2_proofs/src/plonk/permutation.rs
@@ -82,3 +82,23 @@ pub(crate) struct ProvingKey<C: CurveAffine> {
     polys: Vec<Polynomial<C::Scalar, Coeff>>,
     pub(super) cosets: Vec<Polynomial<C::Scalar, ExtendedLagrangeCoeff>>,
 }
+
+#[cfg(halo2_verif)]
+impl<C: CurveAffine> VerifyingKey<C> {
+    pub(crate) fn verif_commitments(&self) -> Vec<C> {
+        self.commitments.clone()
+    }
+}
+
+#[cfg(halo2_verif)]
+impl<C: CurveAffine> ProvingKey<C> {
+    pub(crate) fn verif_view(
+        &self,
+    ) -> (Vec<Vec<C::Scalar>>, Vec<Vec<C::Scalar>>, Vec<Vec<C::Scalar>>) {
+        (
+            self.permutations.iter().map(|p| p.to_vec()).collect(),
+            self.polys.iter().map(|p| p.to_vec()).collect(),
+            self.cosets.iter().map(|p| p.to_vec()).collect(),
+        )
+    }
+}
diff --git a/halo2_proofs/src/plonk/verif_hooks.rs b/halo2_proofs/src/plonk/verif_hooks.rs
new file mode 100644
index 0000000..bd7bc50
--- /dev/null
+++ b/halo2_proofs/src/plonk/verif_hooks.rs
@@ -0,0 +1,82 @@
+//! Read access to keys and constraint systems for the solver-based checks.
+use super::{
+    AdviceQuery, Any, Column, ConstraintSystem, FixedQuery, InstanceQuery, ProvingKey, VerifyingKey,
+};
+use crate::arithmetic::CurveAffine;
+use ff::Field;
+
+/// (query index, column index, rotation)
+pub fn fixed_query(q: FixedQuery) -> (usize, usize, i32) {
+    (q.index, q.column_index, q.rotation.0)
+}
+/// (query index, column index, rotation)
+pub fn advice_query(q: AdviceQuery) -> (usize, usize, i32) {
+    (q.index, q.column_index, q.rotation.0)
+}
+/// (query index, column index, rotation)
+pub fn instance_query(q: InstanceQuery) -> (usize, usize, i32) {
+    (q.index, q.column_index, q.rotation.0)
+}
+
+#[derive(Debug, Clone)]
+pub struct CsView {
+    pub num_fixed: usize,
+    pub num_advice: usize,
+    pub num_instance: usize,
+    pub num_selectors: usize,
+    pub fixed_queries: Vec<(usize, i32)>,
+    pub advice_queries: Vec<(usize, i32)>,
+    pub instance_queries: Vec<(usize, i32)>,
+    pub permutation: Vec<Column<Any>>,
+    pub constants: Vec<usize>,
+    pub selector_map: Vec<usize>,
+}
+pub fn cs_view<F: Field>(cs: &ConstraintSystem<F>) -> CsView {
+    CsView {
+        num_fixed: cs.num_fixed_columns,
+        num_advice: cs.num_advice_columns,
+        num_instance: cs.num_instance_columns,
+        num_selectors: cs.num_selectors,
+        fixed_queries: cs.fixed_queries.iter().map(|q| (q.0.index(), q.1 .0)).collect(),
+        advice_queries: cs.advice_queries.iter().map(|q| (q.0.index(), q.1 .0)).collect(),
+        instance_queries: cs.instance_queries.iter().map(|q| (q.0.index(), q.1 .0)).collect(),
+        permutation: cs.permutation.get_columns(),
+        constants: cs.constants.iter().map(|c| c.index()).collect(),
+        selector_map: cs.selector_map.iter().map(|c| c.index()).collect(),
+    }
+}
+
+pub fn vk_cs<C: CurveAffine>(vk: &VerifyingKey<C>) -> &ConstraintSystem<C::Scalar> {
+    &vk.cs
+}
+/// (fixed commitments, permutation commitments)
+pub fn vk_commitments<C: CurveAffine>(vk: &VerifyingKey<C>) -> (Vec<C>, Vec<C>) {
+    (vk.fixed_commitments.clone(), vk.permutation.verif_commitments())
+}
+
+#[derive(Debug, Clone)]
+pub struct PkView<F> {
+    pub l0: Vec<F>,
+    pub l_blind: Vec<F>,
+    pub l_last: Vec<F>,
+    pub fixed_values: Vec<Vec<F>>,
+    pub fixed_polys: Vec<Vec<F>>,
+    pub fixed_cosets: Vec<Vec<F>>,
+    pub permutations: Vec<Vec<F>>,
+    pub perm_polys: Vec<Vec<F>>,
+    pub perm_cosets: Vec<Vec<F>>,
+}
+pub fn pk_view<C: CurveAffine>(pk: &ProvingKey<C>) -> PkView<C::Scalar> {
+    let (permutations, perm_polys, perm_cosets) = pk.permutation.verif_view();
+    PkView {
+        l0: pk.l0.to_vec(),
+        l_blind: pk.l_blind.to_vec(),
+        l_last: pk.l_last.to_vec(),
+        fixed_values: pk.fixed_values.iter().map(|p| p.to_vec()).collect(),
+        fixed_polys: pk.fixed_polys.iter().map(|p| p.to_vec()).collect(),
+        fixed_cosets: pk.fixed_cosets.iter().map(|p| p.to_vec()).collect(),
+        permutations,
+        perm_polys,
+        perm_cosets,
+    }
+}
diff --git a/halo2_proofs/src/verif.rs b/halo2_proofs/src/verif.rs
index fe33d8e..acdd32c 100644
--- a/halo2_proofs/src/verif.rs
+++ b/halo2_proofs/src/verif.rs
@@ -159,3 +159,4 @@ eval_fn!(evaluate_lagrange, LagrangeCoeff, |a, b| a * b);
 eval_fn!(evaluate_extended, ExtendedLagrangeCoeff, |a, b| a * b);
 
 pub use crate::plonk::verif_permute_expression_pair;
+pub use crate::plonk::verif_hooks::*;
-- 
2.43.0


From 3b9cdd98a7f7d69c60d050d98fa3949362b75fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:04 +0000
Subject: [PATCH 5/8] Verification hooks: table and column accessors
 (cfg(halo2_verif))

---
 halo2_proofs/src/plonk/verif_hooks.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/halo2_proofs/src/plonk/verif_hooks.rs b/halo2_proofs/src/plonk/verif_hooks.rs
index bd7bc50..05eec74 100644
--- a/halo2_proofs/src/plonk/verif_hooks.rs
+++ b/halo2_proofs/src/plonk/verif_hooks.rs
@@ -80,3 +80,13 @@ pub fn pk_view<C: CurveAffine>(pk: &ProvingKey<C>) -> PkView<C::Scalar> {
         perm_cosets,
     }
 }
+
+/// The fixed column behind a table column.
+pub fn table_inner(t: super::TableColumn) -> Column<super::Fixed> {
+    t.inner()
+}
+
+/// The index of a column among those of its kind.
+pub fn column_index(c: Column<Any>) -> usize {
+    c.index()
+}
-- 
2.43.0


From bacf4bea167a1e94b5ef070feac5ff8fbe09674c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:34 +0000
Subject: [PATCH 6/8] Verification hooks: selector index (cfg(halo2_verif))

---
 halo2_proofs/src/verif.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/halo2_proofs/src/verif.rs b/halo2_proofs/src/verif.rs
index acdd32c..b5e5819 100644
--- a/halo2_proofs/src/verif.rs
+++ b/halo2_proofs/src/verif.rs
@@ -160,3 +160,8 @@ eval_fn!(evaluate_extended, ExtendedLagrangeCoeff, |a, b| a * b);
 
 pub use crate::plonk::verif_permute_expression_pair;
 pub use crate::plonk::verif_hooks::*;
+
+/// Index of a selector.
+pub fn selector_index(s: &crate::plonk::Selector) -> usize {
+    s.0
+}
-- 
2.43.0


From 1731c88a46b1b6d6a562ce99a8673c1b104e6a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:38 +0000
Subject: [PATCH 7/8] verif hook: window of a multi-exponentiation (cfg(kani)
 only)

---
 halo2_proofs/src/arithmetic.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/halo2_proofs/src/arithmetic.rs b/halo2_proofs/src/arithmetic.rs
index 649fd52..124a61f 100644
--- a/halo2_proofs/src/arithmetic.rs
+++ b/halo2_proofs/src/arithmetic.rs
@@ -111,6 +111,16 @@ impl<C: CurveAffine> Buckets<C> {
     }
 }
 
+/// The window of a scalar used for one segment of a multi-exponentiation.
+#[cfg(kani)]
+pub fn verif_window<C: CurveAffine>(
+    c: usize,
+    segment: usize,
+    bytes: &<C::Scalar as PrimeField>::Repr,
+) -> usize {
+    Buckets::<C> { c, coeffs: vec![] }.get_at::<C::Scalar>(segment, bytes)
+}
+
 /// Performs a small multi-exponentiation operation.
 /// Uses the double-and-add algorithm with doublings shared across points.
 pub fn small_multiexp<C: CurveAffine>(coeffs: &[C::Scalar], bases: &[C]) -> C::Curve {
-- 
2.43.0


From 3ae6e63aa3391075434a14da5c438c5c3aeebf3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:35 +0000
Subject: [PATCH 8/8] verif hook: constants columns of a constraint system

---
 halo2_proofs/src/plonk/verif_hooks.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/halo2_proofs/src/plonk/verif_hooks.rs b/halo2_proofs/src/plonk/verif_hooks.rs
index 05eec74..4fb3c33 100644
--- a/halo2_proofs/src/plonk/verif_hooks.rs
+++ b/halo2_proofs/src/plonk/verif_hooks.rs
@@ -90,3 +90,8 @@ pub fn table_inner(t: super::TableColumn) -> Column<super::Fixed> {
 pub fn column_index(c: Column<Any>) -> usize {
     c.index()
 }
+
+/// The fixed columns in which constants may be placed.
+pub fn constants<F: Field>(cs: &ConstraintSystem<F>) -> Vec<Column<super::Fixed>> {
+    cs.constants.clone()
+}
-- 
2.43.0

