From 1b46157a6af6419fb1a50b714869ab3ff240be5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:22 +0000
Subject: [PATCH 01/19] verif: re-export PathContext and DetailedReportItem
 under cfg(cambrian_verif)

---
 src/lib.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 930abaf..fa392e8 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,3 +1,5 @@
+#![allow(unexpected_cfgs)]
+
 pub(crate) mod algorithm;
 pub mod async_launch;
 pub(crate) mod common_util;
@@ -23,3 +25,10 @@ pub(crate) mod testutil;
 pub(crate) mod types;
 pub mod value;
 pub mod value_util;
+
+/// Re-exports of crate-private types, for external verification harnesses only.
+#[cfg(cambrian_verif)]
+pub mod verif {
+    pub use crate::detailed_report::DetailedReportItem;
+    pub use crate::path::PathContext;
+}
-- 
2.43.0


From 36b7face6d533eed1bd7bdcc1706a3f33ebd1e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:02 +0000
Subject: [PATCH 02/19] fix: reject initial guesses with a wrong array length
 or map size

---
 src/error.rs      |  7 +++++++
 src/value_util.rs | 43 +++++++++++++++++++++++++++++++++++++++++--
 2 files changed, 48 insertions(+), 2 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index e3c3850..dedc0a3 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -46,6 +46,13 @@ pub enum Error {
     InvalidSizeBounds { path_hint: String },
     #[error("at path {path_hint:?}: array size must be strictly greater than 1")]
     ArraySize { path_hint: String },
+    #[error("at path {path_hint:?}: array must have exactly {expected_size} elements")]
+    WrongArraySize {
+        path_hint: String,
+        expected_size: usize,
+    },
+    #[error("at path {path_hint:?}: number of elements is not within size bounds")]
+    SizeNotWithinBounds { path_hint: String },
     #[error("at path {path_hint:?}: max size must not be zero")]
     ZeroMaxSize { path_hint: String },
     #[error("at path {path_hint:?}: mandatory attribute missing: {}", .missing_attribute_name)]
diff --git a/src/value_util.rs b/src/value_util.rs
index d5bbaf5..68e1300 100644
--- a/src/value_util.rs
+++ b/src/value_util.rs
@@ -25,8 +25,20 @@ fn build_node(
         spec::Node::Int { min, max, .. } => build_int(json_val, min, max, path),
         spec::Node::Bool { .. } => build_bool(json_val, path),
         spec::Node::Sub { map: ref spec_map } => build_sub(json_val, spec_map, path),
-        spec::Node::Array { ref value_type, .. } => build_array(json_val, value_type, path),
-        spec::Node::AnonMap { ref value_type, .. } => build_anon_map(json_val, value_type, path),
+        spec::Node::Array {
+            ref value_type,
+            size,
+        } => build_array(json_val, value_type, size, path),
+        spec::Node::AnonMap {
+            ref value_type,
+            min_size,
+            max_size,
+            ..
+        } => {
+            let node = build_anon_map(json_val, value_type, path)?;
+            check_anon_map_size(&node, min_size, max_size, path)?;
+            Ok(node)
+        }
         spec::Node::Variant {
             map: ref spec_map, ..
         } => build_variant(json_val, spec_map, path),
@@ -165,10 +177,18 @@ fn build_sub(
 fn build_array(
     json_val: &serde_json::Value,
     spec_node: &spec::Node,
+    size: usize,
     path: &[&str],
 ) -> Result<Node, Error> {
     match json_val {
         serde_json::Value::Array(json_values) => {
+            if json_values.len() != size {
+                return Err(Error::WrongArraySize {
+                    path_hint: format_path(path),
+                    expected_size: size,
+                });
+            }
+
             let mut elements = Vec::with_capacity(json_values.len());
 
             for (idx, json_value) in json_values.iter().enumerate() {
@@ -233,6 +253,25 @@ fn build_anon_map(
     }
 }
 
+fn check_anon_map_size(
+    node: &Node,
+    min_size: Option<usize>,
+    max_size: Option<usize>,
+    path: &[&str],
+) -> Result<(), Error> {
+    match node {
+        Node::AnonMap(mapping)
+            if mapping.len() < min_size.unwrap_or(0)
+                || mapping.len() > max_size.unwrap_or(usize::MAX) =>
+        {
+            Err(Error::SizeNotWithinBounds {
+                path_hint: format_path(path),
+            })
+        }
+        _ => Ok(()),
+    }
+}
+
 fn build_variant(
     json_val: &serde_json::Value,
     spec_map: &HashMap<String, Box<spec::Node>>,
-- 
2.43.0


From ed03725bce1fda307999446de4261de700277361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:03 +0000
Subject: [PATCH 03/19] fix: never reuse the key of an existing element when
 growing a map

---
 src/mutation.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mutation.rs b/src/mutation.rs
index 7e239b8..29b14c8 100644
--- a/src/mutation.rs
+++ b/src/mutation.rs
@@ -221,7 +221,11 @@ fn mutate_anon_map(
                 .cloned()
                 .unwrap_or_else(|| value_type.initial_value());
 
-            let key = path_node_ctx.next_key();
+            let mut key = path_node_ctx.next_key();
+            while value_map.contains_key(&key) {
+                key = path_node_ctx.next_key();
+            }
+
             let child_path_node_ctx = path_node_ctx.get_or_create_child_mut(&key.to_string());
             let child_mutation_params = child_path_node_ctx
                 .rescaling_ctx
-- 
2.43.0


From 7d8654f97ac68ce17d2ce6cf7b53ffb0c78f69e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:04 +0000
Subject: [PATCH 04/19] fix: do not overflow on the largest possible map key in
 an initial guess

---
 src/path.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/path.rs b/src/path.rs
index 77b7e67..dba2014 100644
--- a/src/path.rs
+++ b/src/path.rs
@@ -21,12 +21,12 @@ pub struct KeyManager {
 impl KeyManager {
     pub fn next_key(&mut self) -> usize {
         let result = self.next_key;
-        self.next_key += 1;
+        self.next_key = self.next_key.wrapping_add(1);
         result
     }
 
     fn on_key_seen(&mut self, key: usize) {
-        self.next_key = self.next_key.max(key + 1);
+        self.next_key = self.next_key.max(key.wrapping_add(1));
     }
 }
 
-- 
2.43.0


From 597d04f17e45b83370670a2a95fa0b3c5f0b843a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:05 +0000
Subject: [PATCH 05/19] fix: keep the current value when a mutation step is not
 finite

---
 src/mutation.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/mutation.rs b/src/mutation.rs
index 29b14c8..f698679 100644
--- a/src/mutation.rs
+++ b/src/mutation.rs
@@ -400,10 +400,9 @@ fn mutate_cauchy(
         scale * mutation_params.mutation_scale,
     );
 
-    if let Ok(dist) = dist {
-        dist.sample(rng)
-    } else {
-        value
+    match dist.map(|dist| dist.sample(rng)) {
+        Ok(sample) if sample.is_finite() => sample,
+        _ => value,
     }
 }
 
-- 
2.43.0


From 1c7afbe91696fc5a9fd67f1efbabf115986db444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:06 +0000
Subject: [PATCH 06/19] fix: keep the adaptive mutation scale positive and
 finite

---
 src/meta_adapt.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/meta_adapt.rs b/src/meta_adapt.rs
index 7aa3974..630aa10 100644
--- a/src/meta_adapt.rs
+++ b/src/meta_adapt.rs
@@ -47,7 +47,8 @@ pub fn mutate(
 
     let mutation_params = MutationParams {
         mutation_prob: rescale_prob(mutation_params.mutation_prob, rng),
-        mutation_scale: rescale(mutation_params.mutation_scale, rng),
+        mutation_scale: rescale(mutation_params.mutation_scale, rng)
+            .clamp(f64::MIN_POSITIVE, f64::MAX),
     };
 
     (crossover_params, mutation_params)
-- 
2.43.0


From 73c5621138f69ca3c3efcbc353c3839b354f97e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:06 +0000
Subject: [PATCH 07/19] fix: do not poll the abort signal again once it was
 received

---
 src/controller.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/controller.rs b/src/controller.rs
index 39c86b9..082f50d 100644
--- a/src/controller.rs
+++ b/src/controller.rs
@@ -131,11 +131,9 @@ pub async fn start_controller<F: AsyncObjectiveFunction>(
                     }
                 }
             }
-            _ = &mut in_abort_signal_recv => {
-                if !abort_signal_received {
-                    abort_signal_received = true;
-                    abort_signal_sender.broadcast(()).await.unwrap();
-                }
+            _ = &mut in_abort_signal_recv, if !abort_signal_received => {
+                abort_signal_received = true;
+                abort_signal_sender.broadcast(()).await.unwrap();
             }
         }
     }
-- 
2.43.0


From 816f9e8ca41c428be7eb15c599c87c72157a7761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:48 +0000
Subject: [PATCH 08/19] fix: drain in-flight evaluations after a failure even
 if the target is reached meanwhile

---
 src/controller.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/controller.rs b/src/controller.rs
index 082f50d..4b47143 100644
--- a/src/controller.rs
+++ b/src/controller.rs
@@ -101,7 +101,7 @@ pub async fn start_controller<F: AsyncObjectiveFunction>(
 
                         if let (Some(target_obj_func_val), Some(best_seen_final)) =
                         (target_obj_func_val, algo_ctx.best_seen_final()) {
-                            if best_seen_final.0.get() <= target_obj_func_val {
+                            if error_recording.is_none() && best_seen_final.0.get() <= target_obj_func_val {
                                 break;
                             }
                         }
-- 
2.43.0


From eb62d0005e3a5eed17376d61a6bc16ab9f537274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:49 +0000
Subject: [PATCH 09/19] fix: require two distinct enum values

---
 src/spec_util.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/spec_util.rs b/src/spec_util.rs
index 44beafd..3f39d49 100644
--- a/src/spec_util.rs
+++ b/src/spec_util.rs
@@ -438,6 +438,12 @@ fn build_enum(mapping: &serde_yaml::Mapping, path: &[&str]) -> Result<Node, Erro
         }
     }
 
+    if values.iter().unique().count() < 2 {
+        return Err(Error::NotEnoughEnumValues {
+            path_hint: format_path(path),
+        });
+    }
+
     if !values.contains(&init_value) {
         return Err(Error::InitNotAKnownValue {
             path_hint: format_path(path),
-- 
2.43.0


From 676e750e5841f1aeb6c81f564bc350ae6ed0efb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:49 +0000
Subject: [PATCH 10/19] fix: do not drop parameters whose name merely starts
 with typeDef

---
 src/spec_util.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spec_util.rs b/src/spec_util.rs
index 3f39d49..bc7e04f 100644
--- a/src/spec_util.rs
+++ b/src/spec_util.rs
@@ -250,7 +250,7 @@ fn build_sub(
     for (key, value) in mapping {
         match key.as_str() {
             Some(attribute_key)
-                if !attribute_key.eq("type") && !attribute_key.starts_with("typeDef") =>
+                if !attribute_key.eq("type") && !attribute_key.starts_with("typeDef ") =>
             {
                 let path_of_sub = [path, &[attribute_key]].concat();
                 out_mapping.insert(
-- 
2.43.0


From dd2fb44bc2a3a32b2d0a1917e9024b9ab643a39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:50 +0000
Subject: [PATCH 11/19] fix: reject chains of type definitions that would
 overflow the stack

---
 src/error.rs     |  2 ++
 src/spec_util.rs | 34 ++++++++++++++++++++++++++++++----
 2 files changed, 32 insertions(+), 4 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index dedc0a3..1a91e54 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -125,6 +125,8 @@ pub enum Error {
         path_hint: String,
         type_def_name: String,
     },
+    #[error("at path {path_hint:?}: type definition is nested too deeply")]
+    TypeDefTooDeep { path_hint: String },
     #[error("received non-finite objective function value")]
     ObjFuncValMustBeFinite,
     #[error("no successfully evaluated individuals available")]
diff --git a/src/spec_util.rs b/src/spec_util.rs
index bc7e04f..f1dcd0e 100644
--- a/src/spec_util.rs
+++ b/src/spec_util.rs
@@ -34,6 +34,27 @@ const BUILT_IN_TYPE_NAMES: &[&str] = &[
     "real", "int", "bool", "sub", "array", "anon map", "variant", "enum", "optional", "const",
 ];
 
+// the spec is processed recursively, its depth must not depend on the document's length
+const MAX_TYPE_DEF_DEPTH: usize = 500;
+
+fn nesting_depth(node: &Node) -> usize {
+    1 + match node {
+        Node::Sub { map } | Node::Variant { map, .. } => map
+            .values()
+            .map(|child| nesting_depth(child))
+            .max()
+            .unwrap_or(0),
+        Node::Array { value_type, .. }
+        | Node::AnonMap { value_type, .. }
+        | Node::Optional { value_type, .. } => nesting_depth(value_type),
+        Node::Bool { .. }
+        | Node::Real { .. }
+        | Node::Int { .. }
+        | Node::Enum { .. }
+        | Node::Const => 0,
+    }
+}
+
 fn build_node(
     yaml_val: &serde_yaml::Value,
     type_defs: &HashMap<String, Node>,
@@ -232,10 +253,15 @@ fn build_sub(
 
                 let path_of_sub = [path, &[attribute_key]].concat();
 
-                sub_type_defs.insert(
-                    type_name.to_string(),
-                    build_node(value, &sub_type_defs, &path_of_sub)?,
-                );
+                let type_def_node = build_node(value, &sub_type_defs, &path_of_sub)?;
+
+                if nesting_depth(&type_def_node) > MAX_TYPE_DEF_DEPTH {
+                    return Err(Error::TypeDefTooDeep {
+                        path_hint: format_path(&path_of_sub),
+                    });
+                }
+
+                sub_type_defs.insert(type_name.to_string(), type_def_node);
             }
             None => {
                 return Err(Error::InvalidAttributeKeyType {
-- 
2.43.0


From fee98ab26c5fc5203f65983b75218987340ebf70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:51 +0000
Subject: [PATCH 12/19] fix: do not panic on non-UTF-8 stderr of the objective
 function when logging

---
 src/process.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/process.rs b/src/process.rs
index c85257a..ae25361 100644
--- a/src/process.rs
+++ b/src/process.rs
@@ -68,7 +68,7 @@ async fn get_child_result(
         info!(
             "Individual {}: non-empty stderr: {}",
             individual_id,
-            String::from_utf8(output.stderr.clone()).unwrap()
+            String::from_utf8_lossy(&output.stderr)
         );
     }
 
-- 
2.43.0


From 3c1dfe019a87f3d49a3de149ff3c3e98af2b8109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:51 +0000
Subject: [PATCH 13/19] fix: reject a JSON array as output of the objective
 function process

---
 src/process.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/process.rs b/src/process.rs
index ae25361..52e77eb 100644
--- a/src/process.rs
+++ b/src/process.rs
@@ -73,7 +73,13 @@ async fn get_child_result(
     }
 
     if output.status.success() {
-        let result: ObjFuncChildResult = serde_json::from_slice(&output.stdout).map_err(|_| {
+        // serde would also accept a JSON array in place of the object
+        let first_byte = output.stdout.iter().find(|b| !b.is_ascii_whitespace());
+        let result: Option<ObjFuncChildResult> = match first_byte {
+            Some(b'{') => serde_json::from_slice(&output.stdout).ok(),
+            _ => None,
+        };
+        let result = result.ok_or_else(|| {
             Error::ObjFuncProcInvalidOutput(ProcOutputWithObjFuncArg::new(
                 obj_func_arg.to_owned(),
                 seed,
-- 
2.43.0


From c2129a442563c2f7fae8efc8a3e01153b536dc66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:52 +0000
Subject: [PATCH 14/19] fix: leave no process of an objective function's
 process group behind

---
 src/process.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/process.rs b/src/process.rs
index 52e77eb..a936a2a 100644
--- a/src/process.rs
+++ b/src/process.rs
@@ -40,7 +40,7 @@ fn kill_and_reap_child_proc_group(unreaped_pgid: Option<Pid>) -> Result<(), Erro
             Err(Errno::ESRCH) => Ok(()),
             Err(_) => Err(Error::FailedToKillChildProcessGroup(pgid)),
             Ok(()) => match wait::waitpid(pgid, None) {
-                Ok(_) => Ok(()),
+                Ok(_) | Err(Errno::ECHILD) => Ok(()),
                 Err(_) => Err(Error::FailedToReapChildProcessGroup(pgid)),
             },
         }
@@ -49,6 +49,15 @@ fn kill_and_reap_child_proc_group(unreaped_pgid: Option<Pid>) -> Result<(), Erro
     }
 }
 
+// kills what is left of the process group once the evaluation has ended or was dropped
+struct ChildProcGroupGuard(Option<Pid>);
+
+impl Drop for ChildProcGroupGuard {
+    fn drop(&mut self) {
+        kill_and_reap_child_proc_group(self.0).ok();
+    }
+}
+
 #[allow(non_snake_case)]
 #[derive(Debug, Deserialize)]
 #[serde(deny_unknown_fields)]
@@ -120,6 +129,7 @@ impl AsyncObjectiveFunction for ObjFuncProcessDef {
             .map_err(Error::UnableToLaunchObjFuncProcess)?;
 
         let unreaped_pgid = child.id().map(|pgid| Pid::from_raw(pgid as i32));
+        let _proc_group_guard = ChildProcGroupGuard(unreaped_pgid);
 
         let child_result = get_child_result(child, &json_arg, seed, individual_id);
 
-- 
2.43.0


From 62b1861adbc50239100e9b152d1171960486abd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:53 +0000
Subject: [PATCH 15/19] fix: flush the detailed reporting files before they are
 replaced or the run returns

---
 src/sync_launch.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sync_launch.rs b/src/sync_launch.rs
index ac9aff3..0d53a10 100644
--- a/src/sync_launch.rs
+++ b/src/sync_launch.rs
@@ -73,6 +73,7 @@ async fn write_best_seen_file(
     best_seen_file
         .write_all(value.to_string().as_bytes())
         .await?;
+    best_seen_file.flush().await?;
 
     Ok(())
 }
@@ -114,6 +115,8 @@ async fn handle_detailed_report_items(
                 }
             };
         }
+
+        detailed_report_file.flush().await?;
     } else {
         item_receiver
             .map(Ok)
-- 
2.43.0


From 7ed8961708b6cc2f7202fb5308c93f8e539b081f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:53 +0000
Subject: [PATCH 16/19] fix: keep the best completed individual even if it is
 evicted by incompletely sampled ones

---
 src/algorithm.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/algorithm.rs b/src/algorithm.rs
index 464082f..615989e 100644
--- a/src/algorithm.rs
+++ b/src/algorithm.rs
@@ -42,6 +42,7 @@ pub struct AlgoContext {
     individual_sample_size: usize,
 
     individuals: BTreeMap<OrderingKey, IndContext>,
+    best_final: Option<(OrderingKey, Value)>,
     initial_value: Value,
     initial_value_used: bool,
     crossover: Crossover,
@@ -87,6 +88,7 @@ impl AlgoContext {
             spec,
             individual_sample_size,
             individuals: BTreeMap::default(),
+            best_final: None,
             initial_value_used: false,
             crossover: Crossover::new(),
             path_ctx,
@@ -368,6 +370,13 @@ impl AlgoContext {
 
             let ordering_key =
                 OrderingKey::new(ind_ctx.id, self.summary_obj_func_val(&ind_ctx.state));
+
+            let is_new_best_final = matches!(ind_ctx.state, IndState::Final(_))
+                && !matches!(&self.best_final, Some((best_key, _)) if *best_key < ordering_key);
+            if is_new_best_final {
+                self.best_final = Some((ordering_key.clone(), ind_ctx.value.clone()));
+            }
+
             self.individuals.insert(ordering_key, ind_ctx);
 
             while self.individuals.len() > self.static_params.max_pop_size {
@@ -382,13 +391,9 @@ impl AlgoContext {
     }
 
     pub fn best_seen_final(&self) -> Option<(FiniteF64, &Value)> {
-        self.individuals.values().find_map(|ctx| {
-            if let IndState::Final(obj_func_val) = ctx.state {
-                Some((obj_func_val, &ctx.value))
-            } else {
-                None
-            }
-        })
+        self.best_final
+            .as_ref()
+            .map(|(key, value)| (key.obj_func_val, value))
     }
 }
 
-- 
2.43.0


From b5a94d5a161931c6ff29c1a01ff21ec245e0a4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:54 +0000
Subject: [PATCH 17/19] fix: reject a non-finite target objective function
 value

---
 src/termination.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/termination.rs b/src/termination.rs
index 6743c9e..f18b3d3 100644
--- a/src/termination.rs
+++ b/src/termination.rs
@@ -31,6 +31,9 @@ where
             NumObjFuncEval(num_eval) if max_num_obj_func_eval.is_none() => {
                 max_num_obj_func_eval = Some(num_eval)
             }
+            TargetObjFuncVal(target) if !target.is_finite() => {
+                return Err(Error::TargetObjFuncValMustBeFinite)
+            }
             TargetObjFuncVal(target) if target_obj_func_val.is_none() => {
                 target_obj_func_val = Some(target)
             }
-- 
2.43.0


From 98844ac9dd0f75c70c546f78c7c42550d6bfea0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:03 +0000
Subject: [PATCH 18/19] fix: do not start an already created evaluation after
 the abort

---
 src/controller.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/controller.rs b/src/controller.rs
index 4b47143..a0a8343 100644
--- a/src/controller.rs
+++ b/src/controller.rs
@@ -78,7 +78,8 @@ pub async fn start_controller<F: AsyncObjectiveFunction>(
                 match evaled_individual {
 
                     Ok(None) => break,
-                    Ok(Some(evaled_individual)) => {
+                    Ok(Some(None)) => (),
+                    Ok(Some(Some(evaled_individual))) => {
 
                         let detailed_report_item = DetailedReportItem {
                             individual_id: evaled_individual.ind_ctx.id,
@@ -168,7 +169,12 @@ async fn evaluate_individual<F: AsyncObjectiveFunction>(
     obj_func: &F,
     abort_signal_recv: async_broadcast::Receiver<()>,
     seed: u64,
-) -> Result<EvaluatedIndividual, Error> {
+) -> Result<Option<EvaluatedIndividual>, Error> {
+    // created before, but not started until after the abort
+    if !abort_signal_recv.is_empty() {
+        return Ok(None);
+    }
+
     let start_time = Instant::now();
 
     let eval_result = obj_func
@@ -187,12 +193,12 @@ async fn evaluate_individual<F: AsyncObjectiveFunction>(
         .transpose()
         .map_err(|_| Error::ObjFuncValMustBeFinite)?;
 
-    Ok(EvaluatedIndividual {
+    Ok(Some(EvaluatedIndividual {
         obj_func_val: finitified_result,
         ind_ctx: individual,
         eval_time,
         seed,
-    })
+    }))
 }
 
 struct SeedManager {
-- 
2.43.0


From 6c36f8885edffeac1c07fd2bcfea4178e0c71144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:47 +0000
Subject: [PATCH 19/19] fix: type definitions that double one another exhausted
 the memory when a spec was parsed

---
 src/error.rs     |  2 ++
 src/spec_util.rs | 66 ++++++++++++++++++++++++++++++++++++++++--------
 2 files changed, 57 insertions(+), 11 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index 1a91e54..0fd52aa 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -127,6 +127,8 @@ pub enum Error {
     },
     #[error("at path {path_hint:?}: type definition is nested too deeply")]
     TypeDefTooDeep { path_hint: String },
+    #[error("at path {path_hint:?}: type definitions expand to too many parameters")]
+    TooManyExpandedNodes { path_hint: String },
     #[error("received non-finite objective function value")]
     ObjFuncValMustBeFinite,
     #[error("no successfully evaluated individuals available")]
diff --git a/src/spec_util.rs b/src/spec_util.rs
index f1dcd0e..09defb0 100644
--- a/src/spec_util.rs
+++ b/src/spec_util.rs
@@ -4,13 +4,15 @@ use crate::common_util::format_path;
 use crate::error::Error;
 use crate::spec::{Node, Spec};
 use crate::types::{HashMap, HashSet};
+use std::cell::Cell;
+use std::rc::Rc;
 
 pub fn from_yaml_str(yaml_str: &str) -> Result<Spec, Error> {
     let yaml_val: serde_yaml::Value = serde_yaml::from_str(yaml_str)?;
     let root_path = [];
     Ok(Spec(build_node(
         &yaml_val,
-        &HashMap::default(),
+        &TypeDefs::default(),
         &root_path,
     )?))
 }
@@ -55,9 +57,49 @@ fn nesting_depth(node: &Node) -> usize {
     }
 }
 
+fn num_nodes(node: &Node) -> usize {
+    1 + match node {
+        Node::Sub { map } | Node::Variant { map, .. } => {
+            map.values().map(|child| num_nodes(child)).sum()
+        }
+        Node::Array { value_type, .. }
+        | Node::AnonMap { value_type, .. }
+        | Node::Optional { value_type, .. } => num_nodes(value_type),
+        Node::Bool { .. }
+        | Node::Real { .. }
+        | Node::Int { .. }
+        | Node::Enum { .. }
+        | Node::Const => 0,
+    }
+}
+
+// every type definition can double the one before, the spec must not outgrow the memory
+const MAX_NUM_EXPANDED_NODES: usize = 1_000_000;
+
+#[derive(Clone, Default)]
+struct TypeDefs {
+    nodes: HashMap<String, Rc<Node>>,
+    num_expanded_nodes: Rc<Cell<usize>>,
+}
+
+impl TypeDefs {
+    fn expand(&self, node: &Node, path: &[&str]) -> Result<Node, Error> {
+        let num_expanded_nodes = self.num_expanded_nodes.get() + num_nodes(node);
+
+        if num_expanded_nodes > MAX_NUM_EXPANDED_NODES {
+            return Err(Error::TooManyExpandedNodes {
+                path_hint: format_path(path),
+            });
+        }
+
+        self.num_expanded_nodes.set(num_expanded_nodes);
+        Ok(node.clone())
+    }
+}
+
 fn build_node(
     yaml_val: &serde_yaml::Value,
-    type_defs: &HashMap<String, Node>,
+    type_defs: &TypeDefs,
     path: &[&str],
 ) -> Result<Node, Error> {
     let mapping = match yaml_val {
@@ -83,10 +125,10 @@ fn build_node(
         "enum" => build_enum(mapping, path),
         "optional" => build_optional(mapping, type_defs, path),
         "const" => build_const(mapping, path),
-        type_name => match type_defs.get(type_name) {
+        type_name => match type_defs.nodes.get(type_name) {
             Some(node) => {
                 check_for_unexpected_attributes(mapping, ["type"], path)?;
-                Ok(node.clone())
+                type_defs.expand(node, path)
             }
             None => Err(Error::UnknownTypeName {
                 path_hint: format_path(path),
@@ -233,7 +275,7 @@ fn build_bool(mapping: &serde_yaml::Mapping, path: &[&str]) -> Result<Node, Erro
 
 fn build_sub(
     mapping: &serde_yaml::Mapping,
-    type_defs: &HashMap<String, Node>,
+    type_defs: &TypeDefs,
     path: &[&str],
 ) -> Result<Node, Error> {
     let mut out_mapping = HashMap::default();
@@ -261,7 +303,9 @@ fn build_sub(
                     });
                 }
 
-                sub_type_defs.insert(type_name.to_string(), type_def_node);
+                sub_type_defs
+                    .nodes
+                    .insert(type_name.to_string(), Rc::new(type_def_node));
             }
             None => {
                 return Err(Error::InvalidAttributeKeyType {
@@ -299,7 +343,7 @@ fn build_sub(
 
 fn extract_value_type_attr_value(
     mapping: &serde_yaml::Mapping,
-    type_defs: &HashMap<String, Node>,
+    type_defs: &TypeDefs,
     path: &[&str],
 ) -> Result<Box<Node>, Error> {
     match mapping.get("valueType") {
@@ -313,7 +357,7 @@ fn extract_value_type_attr_value(
 
 fn build_array(
     mapping: &serde_yaml::Mapping,
-    type_defs: &HashMap<String, Node>,
+    type_defs: &TypeDefs,
     path: &[&str],
 ) -> Result<Node, Error> {
     check_for_unexpected_attributes(mapping, ["type", "size", "valueType"], path)?;
@@ -333,7 +377,7 @@ fn build_array(
 
 fn build_anon_map(
     mapping: &serde_yaml::Mapping,
-    type_defs: &HashMap<String, Node>,
+    type_defs: &TypeDefs,
     path: &[&str],
 ) -> Result<Node, Error> {
     check_for_unexpected_attributes(
@@ -380,7 +424,7 @@ fn build_anon_map(
 
 fn build_variant(
     mapping: &serde_yaml::Mapping,
-    type_defs: &HashMap<String, Node>,
+    type_defs: &TypeDefs,
     path: &[&str],
 ) -> Result<Node, Error> {
     let init_variant_name = extract_string(mapping, "init", path, true)?.unwrap();
@@ -485,7 +529,7 @@ fn build_enum(mapping: &serde_yaml::Mapping, path: &[&str]) -> Result<Node, Erro
 
 fn build_optional(
     mapping: &serde_yaml::Mapping,
-    type_defs: &HashMap<String, Node>,
+    type_defs: &TypeDefs,
     path: &[&str],
 ) -> Result<Node, Error> {
     check_for_unexpected_attributes(mapping, ["type", "initPresent", "valueType"], path)?;
-- 
2.43.0

