From 5239cfa1929980f788cb29a09ef029e9dcb33d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:49 +0000
Subject: [PATCH 01/12] verif: route std through the simulator's std under
 cfg(verif_sim) (off by default)

---
 mathjit/src/lib.rs                     | 6 ++++++
 measures-bayesian/src/lib.rs           | 6 ++++++
 measures-combinators/src/lib.rs        | 6 ++++++
 measures-core/src/lib.rs               | 6 ++++++
 measures-distributions/src/lib.rs      | 6 ++++++
 measures-exponential-family/src/lib.rs | 6 ++++++
 symbolic-math/src/lib.rs               | 6 ++++++
 7 files changed, 42 insertions(+)

diff --git a/mathjit/src/lib.rs b/mathjit/src/lib.rs
index 6912fd9..98f9b85 100644
--- a/mathjit/src/lib.rs
+++ b/mathjit/src/lib.rs
@@ -58,6 +58,12 @@
 
 #![warn(missing_docs)]
 #![allow(unstable_name_collisions)]
+#![allow(unexpected_cfgs)]
+
+// Verification seam: under `--cfg verif_sim` (never set by a normal build) the simulator's `std`,
+// which owns locks, atomics, threads and clocks, takes the place of the real one in this crate.
+#[cfg(verif_sim)]
+extern crate simstd as std;
 
 // Core modules
 pub mod error;
diff --git a/measures-bayesian/src/lib.rs b/measures-bayesian/src/lib.rs
index 7fd17e9..bbfb959 100644
--- a/measures-bayesian/src/lib.rs
+++ b/measures-bayesian/src/lib.rs
@@ -37,6 +37,12 @@
 
 #![warn(missing_docs)]
 #![allow(unstable_name_collisions)]
+#![allow(unexpected_cfgs)]
+
+// Verification seam: under `--cfg verif_sim` (never set by a normal build) the simulator's `std`,
+// which owns locks, atomics, threads and clocks, takes the place of the real one in this crate.
+#[cfg(verif_sim)]
+extern crate simstd as std;
 
 pub mod bayesian;
 
diff --git a/measures-combinators/src/lib.rs b/measures-combinators/src/lib.rs
index 3de8c78..30aa265 100644
--- a/measures-combinators/src/lib.rs
+++ b/measures-combinators/src/lib.rs
@@ -57,6 +57,12 @@
 
 #![warn(missing_docs)]
 #![allow(unstable_name_collisions)]
+#![allow(unexpected_cfgs)]
+
+// Verification seam: under `--cfg verif_sim` (never set by a normal build) the simulator's `std`,
+// which owns locks, atomics, threads and clocks, takes the place of the real one in this crate.
+#[cfg(verif_sim)]
+extern crate simstd as std;
 
 pub mod measures;
 
diff --git a/measures-core/src/lib.rs b/measures-core/src/lib.rs
index 68a233a..3eb05b9 100644
--- a/measures-core/src/lib.rs
+++ b/measures-core/src/lib.rs
@@ -41,6 +41,12 @@
 
 #![warn(missing_docs)]
 #![allow(unstable_name_collisions)]
+#![allow(unexpected_cfgs)]
+
+// Verification seam: under `--cfg verif_sim` (never set by a normal build) the simulator's `std`,
+// which owns locks, atomics, threads and clocks, takes the place of the real one in this crate.
+#[cfg(verif_sim)]
+extern crate simstd as std;
 
 // Core abstractions
 pub mod core;
diff --git a/measures-distributions/src/lib.rs b/measures-distributions/src/lib.rs
index 03b5a36..0b260e8 100644
--- a/measures-distributions/src/lib.rs
+++ b/measures-distributions/src/lib.rs
@@ -57,6 +57,12 @@
 
 #![warn(missing_docs)]
 #![allow(unstable_name_collisions)]
+#![allow(unexpected_cfgs)]
+
+// Verification seam: under `--cfg verif_sim` (never set by a normal build) the simulator's `std`,
+// which owns locks, atomics, threads and clocks, takes the place of the real one in this crate.
+#[cfg(verif_sim)]
+extern crate simstd as std;
 
 pub mod distributions;
 
diff --git a/measures-exponential-family/src/lib.rs b/measures-exponential-family/src/lib.rs
index 6229de5..2a54c79 100644
--- a/measures-exponential-family/src/lib.rs
+++ b/measures-exponential-family/src/lib.rs
@@ -61,6 +61,12 @@
 
 #![warn(missing_docs)]
 #![allow(unstable_name_collisions)]
+#![allow(unexpected_cfgs)]
+
+// Verification seam: under `--cfg verif_sim` (never set by a normal build) the simulator's `std`,
+// which owns locks, atomics, threads and clocks, takes the place of the real one in this crate.
+#[cfg(verif_sim)]
+extern crate simstd as std;
 
 pub mod exponential_family;
 
diff --git a/symbolic-math/src/lib.rs b/symbolic-math/src/lib.rs
index 9688c90..e394858 100644
--- a/symbolic-math/src/lib.rs
+++ b/symbolic-math/src/lib.rs
@@ -67,6 +67,12 @@
 //! ```
 
 #![warn(missing_docs)]
+#![allow(unexpected_cfgs)]
+
+// Verification seam: under `--cfg verif_sim` (never set by a normal build) the simulator's `std`,
+// which owns locks, atomics, threads and clocks, takes the place of the real one in this crate.
+#[cfg(verif_sim)]
+extern crate simstd as std;
 
 pub mod expr;
 
-- 
2.43.0


From 5660759a7df907a008c6848d2594d31b090b4b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:16 +0000
Subject: [PATCH 02/12] fix: key the expression caches by structure, not by the
 ambiguous display form

---
 symbolic-math/src/expr.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/symbolic-math/src/expr.rs b/symbolic-math/src/expr.rs
index 4ad3a3a..5a07d1c 100644
--- a/symbolic-math/src/expr.rs
+++ b/symbolic-math/src/expr.rs
@@ -553,7 +553,8 @@ impl Expr {
     /// Simplify the expression using algebraic rules with caching
     #[must_use]
     pub fn simplify_cached(self) -> Self {
-        let expr_str = format!("{self}");
+        // The structural form is the key: different expressions can look alike when displayed
+        let expr_str = format!("{self:?}");
 
         // Check cache first
         if let Ok(cache) = SIMPLIFICATION_CACHE.lock()
@@ -582,7 +583,8 @@ impl Expr {
 
     /// Evaluate the expression with caching for repeated evaluations
     pub fn evaluate_cached(&self, vars: &HashMap<String, f64>) -> Result<f64, EvalError> {
-        let expr_str = format!("{self}");
+        // The structural form is the key: different expressions can look alike when displayed
+        let expr_str = format!("{self:?}");
         let vars_str = format!("{vars:?}");
         let cache_key = (expr_str.clone(), vars_str);
 
-- 
2.43.0


From 4d8ca081859bab6a031a0254334f6e93f95ee585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:16 +0000
Subject: [PATCH 03/12] fix: make the evaluation cache key independent of map
 iteration order

---
 symbolic-math/src/expr.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/symbolic-math/src/expr.rs b/symbolic-math/src/expr.rs
index 5a07d1c..3c09f91 100644
--- a/symbolic-math/src/expr.rs
+++ b/symbolic-math/src/expr.rs
@@ -585,8 +585,11 @@ impl Expr {
     pub fn evaluate_cached(&self, vars: &HashMap<String, f64>) -> Result<f64, EvalError> {
         // The structural form is the key: different expressions can look alike when displayed
         let expr_str = format!("{self:?}");
-        let vars_str = format!("{vars:?}");
-        let cache_key = (expr_str.clone(), vars_str);
+        // Equal environments must give equal keys whatever their maps' iteration order
+        let mut bindings: Vec<_> = vars.iter().collect();
+        bindings.sort_by(|a, b| a.0.cmp(b.0));
+        let vars_str = format!("{bindings:?}");
+        let cache_key = (expr_str, vars_str);
 
         // Check cache first
         if let Ok(cache) = EVALUATION_CACHE.lock()
-- 
2.43.0


From 1b67d8485401eef48fe0276f9fef4e6faa08584a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:01 +0000
Subject: [PATCH 04/12] fix: keep the expression caches usable after a thread
 panicked inside them

---
 symbolic-math/src/expr.rs | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/symbolic-math/src/expr.rs b/symbolic-math/src/expr.rs
index 3c09f91..f13da30 100644
--- a/symbolic-math/src/expr.rs
+++ b/symbolic-math/src/expr.rs
@@ -13,15 +13,29 @@
 use std::collections::HashMap;
 use std::fmt;
 use std::ops::{Add, Div, Mul, Neg, Sub};
-use std::sync::{Arc, Mutex};
+use std::sync::{Arc, LockResult, Mutex, MutexGuard, PoisonError};
+
+/// A mutex that stays usable after a thread panicked while holding it: the cached maps and
+/// counters are only changed by single insertions and increments, so none is left half-updated
+struct CacheMutex<T>(Mutex<T>);
+
+impl<T> CacheMutex<T> {
+    fn new(value: T) -> Self {
+        Self(Mutex::new(value))
+    }
+
+    fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
+        Ok(self.0.lock().unwrap_or_else(PoisonError::into_inner))
+    }
+}
 
 /// Global cache for expression simplification results
-static SIMPLIFICATION_CACHE: std::sync::LazyLock<Arc<Mutex<HashMap<String, Expr>>>> =
-    std::sync::LazyLock::new(|| Arc::new(Mutex::new(HashMap::new())));
+static SIMPLIFICATION_CACHE: std::sync::LazyLock<Arc<CacheMutex<HashMap<String, Expr>>>> =
+    std::sync::LazyLock::new(|| Arc::new(CacheMutex::new(HashMap::new())));
 
 /// Global cache for evaluation results
-static EVALUATION_CACHE: std::sync::LazyLock<Arc<Mutex<HashMap<(String, String), f64>>>> =
-    std::sync::LazyLock::new(|| Arc::new(Mutex::new(HashMap::new())));
+static EVALUATION_CACHE: std::sync::LazyLock<Arc<CacheMutex<HashMap<(String, String), f64>>>> =
+    std::sync::LazyLock::new(|| Arc::new(CacheMutex::new(HashMap::new())));
 
 /// Cache statistics for monitoring performance
 #[derive(Debug, Clone, Default)]
@@ -61,8 +75,8 @@ impl CacheStats {
 }
 
 /// Global cache statistics
-static CACHE_STATS: std::sync::LazyLock<Arc<Mutex<CacheStats>>> =
-    std::sync::LazyLock::new(|| Arc::new(Mutex::new(CacheStats::default())));
+static CACHE_STATS: std::sync::LazyLock<Arc<CacheMutex<CacheStats>>> =
+    std::sync::LazyLock::new(|| Arc::new(CacheMutex::new(CacheStats::default())));
 
 /// Get current cache statistics
 pub fn get_cache_stats() -> CacheStats {
-- 
2.43.0


From 616e38f051a511f080ab4ea44ed4f6271c9d16ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:57 +0000
Subject: [PATCH 05/12] fix: compile batch functions with the calling
 convention they are called with

---
 symbolic-math/src/jit.rs | 63 +++++++++++++++++++++++++++++++++++-----
 1 file changed, 55 insertions(+), 8 deletions(-)

diff --git a/symbolic-math/src/jit.rs b/symbolic-math/src/jit.rs
index 4653189..50f0188 100644
--- a/symbolic-math/src/jit.rs
+++ b/symbolic-math/src/jit.rs
@@ -17,7 +17,7 @@
 //! - Exponential family specific optimizations
 
 #[cfg(feature = "jit")]
-use cranelift_codegen::ir::{AbiParam, Function, InstBuilder, Value, types};
+use cranelift_codegen::ir::{AbiParam, Block, Function, InstBuilder, MemFlags, Value, types};
 #[cfg(feature = "jit")]
 use cranelift_frontend::{FunctionBuilder, FunctionBuilderContext};
 #[cfg(feature = "jit")]
@@ -158,8 +158,8 @@ impl GeneralJITFunction {
                 assert_eq!(params.len(), *n, "Parameter count mismatch");
                 #[cfg(feature = "jit")]
                 {
-                    // This would need dynamic dispatch based on parameter count
-                    // For now, support common cases
+                    // Common cases get their arguments in registers, others as arrays
+                    // (see `takes_scalar_arguments`)
                     match n {
                         2 => {
                             let func: fn(f64, f64, f64) -> f64 =
@@ -171,7 +171,11 @@ impl GeneralJITFunction {
                                 unsafe { std::mem::transmute(self.function_ptr) };
                             func(x, params[0], params[1], params[2])
                         }
-                        _ => panic!("Unsupported parameter count: {n}"),
+                        _ => {
+                            let func: fn(*const f64, usize, *const f64, usize) -> f64 =
+                                unsafe { std::mem::transmute(self.function_ptr) };
+                            func(&raw const x, 1, params.as_ptr(), params.len())
+                        }
                     }
                 }
                 #[cfg(not(feature = "jit"))]
@@ -195,8 +199,7 @@ impl GeneralJITFunction {
                 assert_eq!(params.len(), *param_dims, "Parameter dimension mismatch");
                 #[cfg(feature = "jit")]
                 {
-                    // For batch processing, we'd typically pass pointers to arrays
-                    // This is a simplified version - real implementation would be more complex
+                    // Batch functions load their arguments from the two arrays
                     let func: fn(*const f64, usize, *const f64, usize) -> f64 =
                         unsafe { std::mem::transmute(self.function_ptr) };
                     func(data.as_ptr(), data.len(), params.as_ptr(), params.len())
@@ -274,6 +277,11 @@ impl GeneralJITCompiler {
             sig.params.push(AbiParam::new(types::F64));
         }
 
+        if !takes_scalar_arguments(data_vars.len(), param_vars.len()) {
+            let word = AbiParam::new(self.module.target_config().pointer_type());
+            sig.params = vec![word; 4];
+        }
+
         sig.returns.push(AbiParam::new(types::F64));
 
         // Declare the function
@@ -293,7 +301,8 @@ impl GeneralJITCompiler {
         builder.append_block_params_for_function_params(entry_block);
 
         // Get input parameters
-        let block_params = builder.block_params(entry_block);
+        let block_params =
+            load_arguments(&mut builder, entry_block, data_vars.len(), param_vars.len());
         let mut var_map = std::collections::HashMap::new();
 
         // Map data variables to their values
@@ -463,6 +472,11 @@ impl GeneralJITCompiler {
             sig.params.push(AbiParam::new(types::F64));
         }
 
+        if !takes_scalar_arguments(data_vars.len(), param_vars.len()) {
+            let word = AbiParam::new(self.module.target_config().pointer_type());
+            sig.params = vec![word; 4];
+        }
+
         sig.returns.push(AbiParam::new(types::F64));
 
         // Declare the function
@@ -482,7 +496,8 @@ impl GeneralJITCompiler {
         builder.append_block_params_for_function_params(entry_block);
 
         // Get input parameters
-        let block_params = builder.block_params(entry_block);
+        let block_params =
+            load_arguments(&mut builder, entry_block, data_vars.len(), param_vars.len());
         let mut var_map = std::collections::HashMap::new();
 
         // Map data variables to their values
@@ -560,6 +575,38 @@ impl GeneralJITCompiler {
     }
 }
 
+/// Whether a function of this many variables takes each of them as an `f64` argument.
+/// All others take two (pointer, length) pairs: the data array and the parameter array.
+#[cfg(feature = "jit")]
+fn takes_scalar_arguments(data_dims: usize, param_dims: usize) -> bool {
+    data_dims == 1 && param_dims <= 3
+}
+
+/// The values of the data variables followed by those of the parameter variables
+#[cfg(feature = "jit")]
+fn load_arguments(
+    builder: &mut FunctionBuilder,
+    entry_block: Block,
+    data_dims: usize,
+    param_dims: usize,
+) -> Vec<Value> {
+    let arguments = builder.block_params(entry_block).to_vec();
+    if takes_scalar_arguments(data_dims, param_dims) {
+        return arguments;
+    }
+    let mut values = Vec::with_capacity(data_dims + param_dims);
+    for (array, len) in [(arguments[0], data_dims), (arguments[2], param_dims)] {
+        for i in 0..len {
+            let offset = (i * std::mem::size_of::<f64>()) as i32;
+            let value = builder
+                .ins()
+                .load(types::F64, MemFlags::trusted(), array, offset);
+            values.push(value);
+        }
+    }
+    values
+}
+
 /// Generate CLIF IR from expression with variable mapping support
 #[cfg(feature = "jit")]
 fn generate_clif_from_expr_with_vars(
-- 
2.43.0


From 266bdbbf45d2356c16abb5de7bc9e711eca960cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:16 +0000
Subject: [PATCH 06/12] fix: evaluate Bayesian models in the form their
 signature was compiled for

---
 measures-bayesian/src/bayesian/mod.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/measures-bayesian/src/bayesian/mod.rs b/measures-bayesian/src/bayesian/mod.rs
index 1d003fc..2447da1 100644
--- a/measures-bayesian/src/bayesian/mod.rs
+++ b/measures-bayesian/src/bayesian/mod.rs
@@ -202,19 +202,34 @@ impl BayesianJITOptimizer {
     pub fn evaluate_posterior(&self, data: &[f64], params: &[f64]) -> Option<f64> {
         self.posterior_fn
             .as_ref()
-            .map(|f| f.call_batch(data, params))
+            .map(|f| call_compiled(f, data, params))
     }
 
     /// Evaluate the compiled likelihood function
     pub fn evaluate_likelihood(&self, data: &[f64], params: &[f64]) -> Option<f64> {
         self.likelihood_fn
             .as_ref()
-            .map(|f| f.call_batch(data, params))
+            .map(|f| call_compiled(f, data, params))
     }
 
     /// Evaluate the compiled prior function
     pub fn evaluate_prior(&self, params: &[f64]) -> Option<f64> {
-        self.prior_fn.as_ref().map(|f| f.call_batch(&[], params))
+        self.prior_fn
+            .as_ref()
+            .map(|f| call_compiled(f, &[], params))
+    }
+}
+
+/// Call a compiled function in the form its signature asks for
+#[cfg(feature = "jit")]
+fn call_compiled(f: &symbolic_math::GeneralJITFunction, data: &[f64], params: &[f64]) -> f64 {
+    use symbolic_math::JITSignature;
+
+    match (&f.signature, data, params) {
+        (JITSignature::SingleInput, &[x], &[]) => f.call_single(x),
+        (JITSignature::DataAndParameter, &[x], &[theta]) => f.call_data_param(x, theta),
+        (JITSignature::DataAndParameters(_), &[x], _) => f.call_data_params(x, params),
+        _ => f.call_batch(data, params),
     }
 }
 
-- 
2.43.0


From f43424fcd06fc209eaff5ad2d56756dd19d8f69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:16 +0000
Subject: [PATCH 07/12] fix: take the arguments of JITEval::compile in sorted
 order

---
 symbolic-math/src/final_tagless.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/symbolic-math/src/final_tagless.rs b/symbolic-math/src/final_tagless.rs
index a7b217d..d4f02ca 100644
--- a/symbolic-math/src/final_tagless.rs
+++ b/symbolic-math/src/final_tagless.rs
@@ -994,7 +994,9 @@ impl JITEval {
     /// Compile expression with automatic signature detection
     pub fn compile(expr: JITRepr) -> Result<GeneralJITFunction, JITError> {
         let variables = expr.collect_variables();
-        let var_list: Vec<String> = variables.into_iter().collect();
+        let mut var_list: Vec<String> = variables.into_iter().collect();
+        // The arguments' order must not depend on the set's iteration order
+        var_list.sort();
 
         let compiler = GeneralJITCompiler::new()?;
         compiler.compile_final_tagless(&expr, &var_list, &[], &HashMap::new())
-- 
2.43.0


From 217e7283d4935eec1cecf7888aa4bb48921b5f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:43 +0000
Subject: [PATCH 08/12] fix: do not print debugging output from the optimizer

---
 symbolic-math/src/optimization.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/symbolic-math/src/optimization.rs b/symbolic-math/src/optimization.rs
index 575e95b..d2b9fb2 100644
--- a/symbolic-math/src/optimization.rs
+++ b/symbolic-math/src/optimization.rs
@@ -179,7 +179,6 @@ impl EgglogOptimizer {
         // Parse the extracted result back to our Expr type
         if let Some(extracted) = result.into_iter().next() {
             let extracted_str = extracted.to_string();
-            println!("DEBUG: Extracted from egglog: {extracted_str}");
 
             if let Some(optimized_expr) = Self::egglog_to_expr(&extracted_str) {
                 return Ok(optimized_expr);
-- 
2.43.0


From a2b1c7792ae42ee2f75d32ce760845184234b285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:43 +0000
Subject: [PATCH 09/12] fix: optimize each expression independently of the ones
 before it

---
 symbolic-math/src/optimization.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/symbolic-math/src/optimization.rs b/symbolic-math/src/optimization.rs
index d2b9fb2..20a629c 100644
--- a/symbolic-math/src/optimization.rs
+++ b/symbolic-math/src/optimization.rs
@@ -162,19 +162,20 @@ impl EgglogOptimizer {
         let expr_id = format!("expr_{}", self.expr_counter);
         self.expr_counter += 1;
 
-        self.egraph
-            .parse_and_run_program(None, &format!("(let {expr_id} {egglog_expr})"))?;
+        // Work on a copy: equalities derived from one expression (such as from a zero divided
+        // by a zero) must not affect the expressions optimized later
+        let mut egraph = self.egraph.clone();
+
+        egraph.parse_and_run_program(None, &format!("(let {expr_id} {egglog_expr})"))?;
 
         // Run equality saturation with LIMITED iterations to prevent explosion
-        self.egraph.parse_and_run_program(None, "(run 5)")?;
+        egraph.parse_and_run_program(None, "(run 5)")?;
 
         // Try to extract a simplified expression
         // For now, we'll use a simple approach: just extract the expression
         let extraction_program = format!("(extract {expr_id})");
 
-        let result = self
-            .egraph
-            .parse_and_run_program(None, &extraction_program)?;
+        let result = egraph.parse_and_run_program(None, &extraction_program)?;
 
         // Parse the extracted result back to our Expr type
         if let Some(extracted) = result.into_iter().next() {
-- 
2.43.0


From ce8d6608d285ecb0a9c5ebf920f788d39a5c266b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:09 +0000
Subject: [PATCH 10/12] fix: allow a cached log-density to be queried from
 within its own evaluation

---
 measures-core/src/core/density.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/measures-core/src/core/density.rs b/measures-core/src/core/density.rs
index b021466..f388336 100644
--- a/measures-core/src/core/density.rs
+++ b/measures-core/src/core/density.rs
@@ -375,12 +375,13 @@ where
 {
     #[inline]
     fn at(&self, x: &T) -> F {
-        let mut cache = self.cache.borrow_mut();
-        if let Some(cached_value) = cache.get(x) {
-            cached_value.clone()
+        let cached_value = self.cache.borrow().get(x).cloned();
+        if let Some(cached_value) = cached_value {
+            cached_value
         } else {
+            // The cache is not borrowed here: the evaluation may itself query it
             let value = self.inner.at(x);
-            cache.insert(x.clone(), value.clone());
+            self.cache.borrow_mut().insert(x.clone(), value.clone());
             value
         }
     }
-- 
2.43.0


From 2af8370baaa81355befa0c9bea2da988fbf4b1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:09 +0000
Subject: [PATCH 11/12] fix: return the code memory of dropped JIT functions
 and failed compilations

---
 symbolic-math/src/jit.rs | 37 ++++++++++++++++++++++++++++++++++---
 1 file changed, 34 insertions(+), 3 deletions(-)

diff --git a/symbolic-math/src/jit.rs b/symbolic-math/src/jit.rs
index 50f0188..ac1a6d1 100644
--- a/symbolic-math/src/jit.rs
+++ b/symbolic-math/src/jit.rs
@@ -24,6 +24,8 @@ use cranelift_frontend::{FunctionBuilder, FunctionBuilderContext};
 use cranelift_jit::{JITBuilder, JITModule};
 #[cfg(feature = "jit")]
 use cranelift_module::{Linkage, Module};
+#[cfg(feature = "jit")]
+use std::mem::ManuallyDrop;
 
 use crate::expr::Expr;
 #[cfg(feature = "jit")]
@@ -55,6 +57,35 @@ impl std::fmt::Display for JITError {
 
 impl std::error::Error for JITError {}
 
+/// A JIT module that returns its code memory when dropped (`JITModule` itself never does).
+/// Function pointers obtained from it are only called by the function that owns it.
+#[cfg(feature = "jit")]
+struct OwnedModule(ManuallyDrop<JITModule>);
+
+#[cfg(feature = "jit")]
+impl std::ops::Deref for OwnedModule {
+    type Target = JITModule;
+
+    fn deref(&self) -> &JITModule {
+        &self.0
+    }
+}
+
+#[cfg(feature = "jit")]
+impl std::ops::DerefMut for OwnedModule {
+    fn deref_mut(&mut self) -> &mut JITModule {
+        &mut self.0
+    }
+}
+
+#[cfg(feature = "jit")]
+impl Drop for OwnedModule {
+    fn drop(&mut self) {
+        // SAFETY: the module is not used again, and neither are its functions
+        unsafe { ManuallyDrop::take(&mut self.0).free_memory() };
+    }
+}
+
 /// A generalized JIT-compiled function that can handle multiple inputs
 pub struct GeneralJITFunction {
     /// Function pointer to the compiled native code
@@ -62,7 +93,7 @@ pub struct GeneralJITFunction {
     function_ptr: *const u8,
     /// The JIT module (kept alive to prevent deallocation)
     #[cfg(feature = "jit")]
-    _module: JITModule,
+    _module: OwnedModule,
     /// Function signature information
     pub signature: JITSignature,
     /// Source expression that was compiled
@@ -234,7 +265,7 @@ pub struct CompilationStats {
 #[cfg(feature = "jit")]
 pub struct GeneralJITCompiler {
     /// Cranelift JIT module
-    module: JITModule,
+    module: OwnedModule,
     /// Function builder context (reused for efficiency)
     builder_context: FunctionBuilderContext,
 }
@@ -249,7 +280,7 @@ impl GeneralJITCompiler {
         let module = JITModule::new(builder);
 
         Ok(Self {
-            module,
+            module: OwnedModule(ManuallyDrop::new(module)),
             builder_context: FunctionBuilderContext::new(),
         })
     }
-- 
2.43.0


From 1af5c8d1e197b8e99da998a266ad01a1a15db2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:39 +0000
Subject: [PATCH 12/12] fix: do not kill the process when a compiled exp gets
 NaN or a huge argument

---
 symbolic-math/src/jit.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/symbolic-math/src/jit.rs b/symbolic-math/src/jit.rs
index ac1a6d1..f04170a 100644
--- a/symbolic-math/src/jit.rs
+++ b/symbolic-math/src/jit.rs
@@ -920,7 +920,8 @@ pub fn generate_exp_call(builder: &mut FunctionBuilder, val: Value) -> Result<Va
     let exp_r = builder.ins().fdiv(numerator, denominator);
 
     // Apply 2^k scaling - use a simpler conditional approach
-    let k_int = builder.ins().fcvt_to_sint(types::I32, k_float);
+    // Saturating: NaN and huge arguments must not trap
+    let k_int = builder.ins().fcvt_to_sint_sat(types::I32, k_float);
 
     // For common small integer powers, use exact multiplication
     // This avoids floating point precision issues
-- 
2.43.0

