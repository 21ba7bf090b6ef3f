From 4697c639d9f4159c720760f1238e08dacc4fc483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:03 +0000
Subject: [PATCH 01/22] fix: normalize fields inside nested selection sets

normalize_selection_set recursed into inline fragments but not into fields, so a
redundant alias (`user: user`) below the root was kept and produced invalid
subgraph requests or wrong data when merged with the unaliased field.
---
 .../query_planner/ast/normalization/pipeline/normalize_fields.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bin/router/src/query_planner/ast/normalization/pipeline/normalize_fields.rs b/bin/router/src/query_planner/ast/normalization/pipeline/normalize_fields.rs
index a906cde..fbc89cc 100644
--- a/bin/router/src/query_planner/ast/normalization/pipeline/normalize_fields.rs
+++ b/bin/router/src/query_planner/ast/normalization/pipeline/normalize_fields.rs
@@ -43,6 +43,7 @@ fn normalize_selection_set<'b, 'a>(
                 drop_name_equal_alias(field)?;
                 sort_arguments(field)?;
                 sort_field_directives(field)?;
+                normalize_selection_set(&mut field.selection_set)?;
             }
             Selection::InlineFragment(ref mut fr) => {
                 normalize_selection_set(&mut fr.selection_set)?;
-- 
2.43.0


From c89f06eaea08ca3be14a5b8699740b98e437872d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:12 +0000
Subject: [PATCH 02/22] fix: resolve the concrete type of an object whose
 __typename is only fetched under an alias

---
 .../src/executor/projection/response.rs       | 28 ++++++++++++++-----
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/bin/router/src/executor/projection/response.rs b/bin/router/src/executor/projection/response.rs
index 2478d9d..9cc3238 100644
--- a/bin/router/src/executor/projection/response.rs
+++ b/bin/router/src/executor/projection/response.rs
@@ -576,16 +576,30 @@ fn resolve_type_name<'a>(
         return Ok("String");
     }
 
-    let typename_field = field_val
-        .and_then(|value| value.as_object())
-        .and_then(|obj| {
-            obj.binary_search_by_key(&TYPENAME_FIELD_NAME, |(k, _)| *k)
+    if let Some(obj) = field_val.and_then(|value| value.as_object()) {
+        let string_at = |key: &str| {
+            obj.binary_search_by_key(&key, |(k, _)| *k)
                 .ok()
                 .and_then(|idx| obj[idx].1.as_str())
-        });
+        };
+
+        if let Some(typename) = string_at(TYPENAME_FIELD_NAME) {
+            return Ok(typename);
+        }
 
-    if let Some(typename) = typename_field {
-        return Ok(typename);
+        // The concrete type might have been fetched only under an alias (`{ tn: __typename }`).
+        if let ProjectionValueSource::ResponseData {
+            selections: Some(selections),
+        } = &plan.value
+        {
+            if let Some(typename) = selections
+                .iter()
+                .filter(|selection| selection.is_typename)
+                .find_map(|selection| string_at(&selection.response_key))
+            {
+                return Ok(typename);
+            }
+        }
     }
 
     let parent_type_name = parent_type_name.get()?;
-- 
2.43.0


From 7046c8ec38f095be12e4e19c9a2b01778bba2637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:12 +0000
Subject: [PATCH 03/22] fix: answer an operation whose root fields are all
 statically excluded with empty data instead of QUERY_PLAN_BUILD_FAILED

---
 bin/router/src/executor/execution/plan.rs |  2 --
 bin/router/src/pipeline/query_plan.rs     | 21 ++++++++-------------
 2 files changed, 8 insertions(+), 15 deletions(-)

diff --git a/bin/router/src/executor/execution/plan.rs b/bin/router/src/executor/execution/plan.rs
index b673473..b407505 100644
--- a/bin/router/src/executor/execution/plan.rs
+++ b/bin/router/src/executor/execution/plan.rs
@@ -445,8 +445,6 @@ pub async fn execute_query_plan<'exec>(
     let introspection_context_clone = Arc::clone(&opts.introspection_context);
     let data = if let Some(introspection_query) = &introspection_context_clone.query {
         resolve_introspection(introspection_query, &introspection_context_clone)
-    } else if opts.projection_plan.is_empty() {
-        Value::Null
     } else {
         Value::Object(Vec::new())
     };
diff --git a/bin/router/src/pipeline/query_plan.rs b/bin/router/src/pipeline/query_plan.rs
index 5cde110..d09e687 100644
--- a/bin/router/src/pipeline/query_plan.rs
+++ b/bin/router/src/pipeline/query_plan.rs
@@ -93,9 +93,6 @@ pub async fn plan_operation_with_cache(
         };
         let plan_cache_key = calculate_cache_key(operation_for_plan_hash, &stable_override_context);
         let is_plan_operation_empty = filtered_operation_for_plan.selection_set.is_empty();
-        let is_projection_plan_empty = normalized_operation.projection_plan.is_empty();
-        let contains_introspection = normalized_operation.operation_for_introspection.is_some();
-        let is_pure_introspection = is_plan_operation_empty && contains_introspection;
 
         let mut cache_hint = CacheHint::Hit;
         plan_span.record_cache_hit(true);
@@ -104,23 +101,21 @@ pub async fn plan_operation_with_cache(
             .plan_cache
             .entry(plan_cache_key)
             .or_try_insert_with(async {
-                if is_pure_introspection {
-                    return Ok(EMPTY_QUERY_PLAN.clone());
-                }
-
-                // If the operation is empty, but the projection plan is not,,
-                // we don't need to run the planner,
+                // If the operation is empty, we don't need to run the planner,
                 // as there is nothing to plan,
                 // but we can't error out either,
                 // as it would unwind into PipelineError,
                 // and the response would be malformed.
                 //
-                // One example here is a scenario when all requested fields
-                // were unauthorized and stripped out from the operation,
-                // but we still need to project nulls for them in the response.
+                // Examples:
+                // - the operation requests only introspection fields,
+                // - all requested fields were unauthorized and stripped out from the operation,
+                //   but we still need to project nulls for them in the response,
+                // - all root fields are statically excluded by `@skip` or `@include`.
+                //
                 // That's why we return an empty plan,
                 // and allow for response projection to happen later.
-                if is_plan_operation_empty && !is_projection_plan_empty {
+                if is_plan_operation_empty {
                     return Ok(EMPTY_QUERY_PLAN.clone());
                 }
 
-- 
2.43.0


From 00243bfffe0b00a80a49222087b58c3c27916140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:12 +0000
Subject: [PATCH 04/22] fix: do not guard fields by a type condition that
 covers the parent type

Without a concrete __typename in the data the guard could not be evaluated, and
{ node { id ... on Node @skip(if: $v) { id } } } lost the field entirely.
---
 bin/router/src/executor/projection/plan.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/bin/router/src/executor/projection/plan.rs b/bin/router/src/executor/projection/plan.rs
index 9ab0889..d36dfaa 100644
--- a/bin/router/src/executor/projection/plan.rs
+++ b/bin/router/src/executor/projection/plan.rs
@@ -991,11 +991,15 @@ impl FieldProjectionPlan {
             )
         };
 
+        // A type condition that covers the parent type does not narrow anything,
+        // (and the planner does not fetch `__typename` for it), so it must not become a guard.
+        let type_condition = Some(type_condition).filter(|c| !c.matches(parent_type_name));
+
         let mut condition_for_fragment = Self::and_optional(
             parent_condition.clone(),
-            Some(FieldProjectionCondition::ParentTypeCondition(
-                type_condition.clone(),
-            )),
+            type_condition
+                .clone()
+                .map(FieldProjectionCondition::ParentTypeCondition),
         );
 
         condition_for_fragment = Self::apply_directive_conditions(
@@ -1011,8 +1015,10 @@ impl FieldProjectionPlan {
             &condition_for_fragment,
         ) {
             // Update the type guard for all selections from this fragment
-            for selection in &mut inline_fragment_selections {
-                selection.parent_type_guard = Some(type_condition.clone());
+            if type_condition.is_some() {
+                for selection in &mut inline_fragment_selections {
+                    selection.parent_type_guard = type_condition.clone();
+                }
             }
 
             for selection in inline_fragment_selections {
-- 
2.43.0


From 7d0401868e547a4eb3661e267193aa8df21bc158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:35 +0000
Subject: [PATCH 05/22] fix: prefer a concrete type name over an interface
 object's name when projecting __typename

---
 bin/router/src/executor/projection/response.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bin/router/src/executor/projection/response.rs b/bin/router/src/executor/projection/response.rs
index 9cc3238..b8c283f 100644
--- a/bin/router/src/executor/projection/response.rs
+++ b/bin/router/src/executor/projection/response.rs
@@ -583,7 +583,8 @@ fn resolve_type_name<'a>(
                 .and_then(|idx| obj[idx].1.as_str())
         };
 
-        if let Some(typename) = string_at(TYPENAME_FIELD_NAME) {
+        let typename = string_at(TYPENAME_FIELD_NAME);
+        if let Some(typename) = typename.filter(|name| schema_metadata.is_object_type(name)) {
             return Ok(typename);
         }
 
@@ -600,6 +601,10 @@ fn resolve_type_name<'a>(
                 return Ok(typename);
             }
         }
+
+        if let Some(typename) = typename {
+            return Ok(typename);
+        }
     }
 
     let parent_type_name = parent_type_name.get()?;
-- 
2.43.0


From 5df2ad2da870e03974775064da07c69855bce3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:35 +0000
Subject: [PATCH 06/22] fix: plan a conditional fragment on a union within that
 same union

---
 bin/router/src/query_planner/graph/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bin/router/src/query_planner/graph/mod.rs b/bin/router/src/query_planner/graph/mod.rs
index 8ea58b3..d2f19d0 100644
--- a/bin/router/src/query_planner/graph/mod.rs
+++ b/bin/router/src/query_planner/graph/mod.rs
@@ -781,6 +781,10 @@ impl Graph {
                                 state.resolve_graph_id(graph_id)?,
                                 state.is_interface_object_in_subgraph(member, graph_id),
                             ));
+                            // a conditional fragment on the union itself (`... on Union @skip(if: $v)`)
+                            // stays on the same type
+                            self.upsert_edge(tail, tail, Edge::Selfie(target_type.to_string()));
+
                             // because we duplicate tails, we need to add __typename to all of them
                             let typename_tail = self.upsert_node(Node::new_node(
                                 "String",
-- 
2.43.0


From f1d3c1a0ade05ee94740547b1fd58fecd0965b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:41 +0000
Subject: [PATCH 07/22] fix: keep null items of a list in entity
 representations built for @requires

---
 bin/router/src/executor/projection/request.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/bin/router/src/executor/projection/request.rs b/bin/router/src/executor/projection/request.rs
index 6680df3..2f5e8f8 100644
--- a/bin/router/src/executor/projection/request.rs
+++ b/bin/router/src/executor/projection/request.rs
@@ -72,6 +72,13 @@ pub fn project_requires(
 
             let mut first = true;
             for entity_item in entity_array {
+                if entity_item.is_null() {
+                    // A null item is part of the list's value, so keep its position.
+                    write_response_key(first, None, buffer);
+                    buffer.put(NULL);
+                    first = false;
+                    continue;
+                }
                 let projected = project_requires(
                     possible_types,
                     requires_selections,
-- 
2.43.0


From 783a6b56d407dece1483916bbcc3c16393ad38fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:23 +0000
Subject: [PATCH 08/22] fix: inbound dedupe fingerprint covers header values
 that are not visible ASCII

---
 bin/router/src/pipeline/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bin/router/src/pipeline/mod.rs b/bin/router/src/pipeline/mod.rs
index 7e3d07d..2637214 100644
--- a/bin/router/src/pipeline/mod.rs
+++ b/bin/router/src/pipeline/mod.rs
@@ -928,10 +928,11 @@ pub fn connection_fingerprint(
 ) -> ConnectionFingerprint {
     let mut hasher = Xxh3::new();
 
-    let mut headers: Vec<(&str, &str)> = request_headers
+    // Hash raw bytes: a value that is not visible ASCII still distinguishes the requests.
+    let mut headers: Vec<(&str, &[u8])> = request_headers
         .iter()
         .filter(|(name, _)| header_policy.should_include(name.as_str()))
-        .filter_map(|(name, value)| value.to_str().ok().map(|value| (name.as_str(), value)))
+        .map(|(name, value)| (name.as_str(), value.as_bytes()))
         .collect();
     headers.sort_unstable();
 
-- 
2.43.0


From cebfb6c81e9cb2504a87d8df8d0cceb3fa29bfaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:23 +0000
Subject: [PATCH 09/22] fix: subgraph dedupe fingerprint covers every header
 value

---
 bin/router/src/executor/executors/dedupe.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/bin/router/src/executor/executors/dedupe.rs b/bin/router/src/executor/executors/dedupe.rs
index 84841e4..f481d14 100644
--- a/bin/router/src/executor/executors/dedupe.rs
+++ b/bin/router/src/executor/executors/dedupe.rs
@@ -1,5 +1,4 @@
 use ahash::RandomState;
-use std::collections::BTreeMap;
 use std::hash::{Hash, Hasher};
 use std::sync::atomic::{AtomicU64, Ordering};
 use std::sync::OnceLock;
@@ -9,13 +8,14 @@ use crate::executor::executors::http::SendRequestOpts;
 
 impl Hash for SendRequestOpts<'_> {
     fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
-        // BTreeMap to ensure case-insensitivity and consistent order for hashing
-        let mut headers = BTreeMap::new();
-        for (header_name, header_value) in self.headers.iter() {
-            if let Ok(value_str) = header_value.to_str() {
-                headers.insert(header_name.as_str(), value_str);
-            }
-        }
+        // Sorted to ensure consistent order for hashing. Every value of a header counts, as raw
+        // bytes: a value that is not visible ASCII still distinguishes the requests.
+        let mut headers: Vec<(&str, &[u8])> = self
+            .headers
+            .iter()
+            .map(|(header_name, header_value)| (header_name.as_str(), header_value.as_bytes()))
+            .collect();
+        headers.sort_unstable();
 
         self.method.hash(state);
         self.endpoint.hash(state);
-- 
2.43.0


From 610ec4d8c0dfabc124e528f522ac29406e5fbea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:53 +0000
Subject: [PATCH 10/22] fix: plan @requires fields below a self-referencing
 type or behind several parent fetches

---
 .../planner/fetch/fetch_graph.rs              | 29 ++++++++++---------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/bin/router/src/query_planner/planner/fetch/fetch_graph.rs b/bin/router/src/query_planner/planner/fetch/fetch_graph.rs
index eafea48..82007f1 100644
--- a/bin/router/src/query_planner/planner/fetch/fetch_graph.rs
+++ b/bin/router/src/query_planner/planner/fetch/fetch_graph.rs
@@ -1487,17 +1487,16 @@ fn process_requires_field_edge(
     condition: Option<&Condition>,
     created_from_requires: bool,
 ) -> Result<Vec<NodeIndex>, FetchGraphError> {
-    if fetch_graph.parents_of(parent_fetch_step_index).count() != 1 {
-        return Err(FetchGraphError::NonSingleParent(
-            parent_fetch_step_index.index(),
-        ));
-    }
-
-    let parent_parent_index = fetch_graph
+    let mut parents_of_parent = fetch_graph
         .parents_of(parent_fetch_step_index)
-        .next()
-        .map(|edge| edge.source())
-        .unwrap();
+        .map(|edge| edge.source());
+    let parent_parent_index =
+        parents_of_parent
+            .next()
+            .ok_or(FetchGraphError::NonSingleParent(
+                parent_fetch_step_index.index(),
+            ))?;
+    let has_single_parent = parents_of_parent.next().is_none();
 
     let requires = field_move
         .requirements
@@ -1520,12 +1519,16 @@ fn process_requires_field_edge(
 
     let parent_fetch_step = fetch_graph.get_step_data(parent_fetch_step_index)?;
     // In case of a field with `@requires`, the parent will be the current subgraph we're in.
-    let real_parent_fetch_step_index = match !parent_fetch_step
+    let is_entity_call_of_same_object = parent_fetch_step
         .output
         .is_selecting_definition(head_type_name)
-    {
+        && parent_fetch_step.response_path.len() == response_path.len()
+        // with many parents, no single one of them has everything needed to re-enter the subgraph
+        && has_single_parent;
+    let real_parent_fetch_step_index = match !is_entity_call_of_same_object {
         // If the parent's output resolves a different type, then it's a root type.
-        // We can use that as a parent.
+        // The same goes for a parent that resolves the same type, but somewhere above the field
+        // (a type that refers to itself). We can use that as a parent.
         true => parent_fetch_step_index,
         // If the parent's output resolves the same type, it means we're in an entity call.
         // We need to move up, as the entity call was created to fetch regular fields of the type
-- 
2.43.0


From 8a8eda8442a4cf8ba977b2df91c96c5d8dfef2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:50 +0000
Subject: [PATCH 11/22] fix: resolve entities inside lists of lists

---
 bin/router/src/executor/utils/traverse.rs | 34 ++++++++++++++++++++---
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/bin/router/src/executor/utils/traverse.rs b/bin/router/src/executor/utils/traverse.rs
index a09454c..1e7cbc9 100644
--- a/bin/router/src/executor/utils/traverse.rs
+++ b/bin/router/src/executor/utils/traverse.rs
@@ -35,7 +35,18 @@ pub fn traverse_and_callback_mut<'a, Callback>(
                 let current_error_path_for_index = current_error_path
                     .as_ref()
                     .map(|current_error_path| current_error_path.concat_index(index));
-                callback(item, current_error_path_for_index);
+                if matches!(item, Value::Array(_)) {
+                    // A list of lists: the entities are further down
+                    traverse_and_callback_mut(
+                        item,
+                        remaining_path,
+                        schema_metadata,
+                        current_error_path_for_index,
+                        callback,
+                    );
+                } else {
+                    callback(item, current_error_path_for_index);
+                }
             }
         } else {
             // If the path is empty and current_data is not an array, just call the callback
@@ -53,9 +64,14 @@ pub fn traverse_and_callback_mut<'a, Callback>(
                     let current_error_path_for_index = current_error_path
                         .as_ref()
                         .map(|current_error_path| current_error_path.concat_index(index));
+                    // The path has one `List` segment per field, whatever the depth of its list type
+                    let path_of_item = match item {
+                        Value::Array(_) => remaining_path,
+                        _ => rest_of_path,
+                    };
                     traverse_and_callback_mut(
                         item,
-                        rest_of_path,
+                        path_of_item,
                         schema_metadata,
                         current_error_path_for_index,
                         callback,
@@ -137,7 +153,12 @@ pub fn traverse_and_callback<'a, Callback>(
     if remaining_path.is_empty() {
         if let Value::Array(arr) = current_data {
             for item in arr.iter() {
-                callback(item);
+                if matches!(item, Value::Array(_)) {
+                    // A list of lists: the entities are further down
+                    traverse_and_callback(item, remaining_path, possible_types, callback);
+                } else {
+                    callback(item);
+                }
             }
         } else {
             callback(current_data);
@@ -150,7 +171,12 @@ pub fn traverse_and_callback<'a, Callback>(
             if let Value::Array(arr) = current_data {
                 let rest_of_path = &remaining_path[1..];
                 for item in arr.iter() {
-                    traverse_and_callback(item, rest_of_path, possible_types, callback);
+                    // The path has one `List` segment per field, whatever the depth of its list type
+                    let path_of_item = match item {
+                        Value::Array(_) => remaining_path,
+                        _ => rest_of_path,
+                    };
+                    traverse_and_callback(item, path_of_item, possible_types, callback);
                 }
             }
         }
-- 
2.43.0


From 1bc9daf1ae5f170a8e980e320b7656d1735dd19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:40 +0000
Subject: [PATCH 12/22] fix: remember a CDN supergraph's etag only after its
 body arrived

---
 .../src/supergraph_fetcher/async_fetcher.rs                 | 6 ++++--
 lib/hive-console-sdk/src/supergraph_fetcher/sync_fetcher.rs | 5 ++++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/lib/hive-console-sdk/src/supergraph_fetcher/async_fetcher.rs b/lib/hive-console-sdk/src/supergraph_fetcher/async_fetcher.rs
index 0c39fd4..a95ef5b 100644
--- a/lib/hive-console-sdk/src/supergraph_fetcher/async_fetcher.rs
+++ b/lib/hive-console-sdk/src/supergraph_fetcher/async_fetcher.rs
@@ -78,12 +78,14 @@ impl SupergraphFetcher<SupergraphFetcherAsyncState> {
                 return Ok(None);
             }
 
-            let etag = last_resp.headers().get("etag");
-            self.update_latest_etag(etag).await;
+            let etag = last_resp.headers().get("etag").cloned();
             let text = last_resp
                 .text()
                 .await
                 .map_err(SupergraphFetcherError::ResponseParse)?;
+            // Remember the etag only once the body has been received: otherwise a response that
+            // breaks off halfway would be taken for delivered and never be fetched again.
+            self.update_latest_etag(etag.as_ref()).await;
             Ok(Some(text))
         } else if let Some(error) = last_error {
             Err(error)
diff --git a/lib/hive-console-sdk/src/supergraph_fetcher/sync_fetcher.rs b/lib/hive-console-sdk/src/supergraph_fetcher/sync_fetcher.rs
index 57a572c..c442386 100644
--- a/lib/hive-console-sdk/src/supergraph_fetcher/sync_fetcher.rs
+++ b/lib/hive-console-sdk/src/supergraph_fetcher/sync_fetcher.rs
@@ -121,10 +121,13 @@ impl SupergraphFetcher<SupergraphFetcherSyncState> {
                 return Ok(None);
             }
 
-            self.update_latest_etag(last_resp.headers().get("etag"))?;
+            let etag = last_resp.headers().get("etag").cloned();
             let text = last_resp
                 .text()
                 .map_err(SupergraphFetcherError::ResponseParse)?;
+            // Remember the etag only once the body has been received: otherwise a response that
+            // breaks off halfway would be taken for delivered and never be fetched again.
+            self.update_latest_etag(etag.as_ref())?;
             Ok(Some(text))
         } else if let Some(error) = last_error {
             Err(error)
-- 
2.43.0


From 44b6ce95690def31c48597b0fd4bc635686d7d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:40 +0000
Subject: [PATCH 13/22] fix: reload a supergraph file replaced by one with an
 older modification time

---
 bin/router/src/supergraph/file.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bin/router/src/supergraph/file.rs b/bin/router/src/supergraph/file.rs
index 0cd78ec..f2ca7a0 100644
--- a/bin/router/src/supergraph/file.rs
+++ b/bin/router/src/supergraph/file.rs
@@ -28,7 +28,9 @@ impl SupergraphFileLoader {
         let current_time = file_metadata.modified()?;
         let mut modified_time = self.modified_time.write().await;
 
-        if modified_time.is_none() || current_time > modified_time.unwrap() {
+        // any other modification time means a different file: replacing it with an older one
+        // (a rollback that preserves timestamps) moves the time backwards
+        if *modified_time != Some(current_time) {
             let content = fs::read_to_string(&self.file_path.absolute).await?;
             *modified_time = Some(current_time);
 
-- 
2.43.0


From 467ba7e3067a520719634856ccb16804e015c82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:40 +0000
Subject: [PATCH 14/22] fix: keep reloading after a supergraph that panics the
 planner

---
 bin/router/src/schema_state.rs | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/bin/router/src/schema_state.rs b/bin/router/src/schema_state.rs
index c85be67..4a9ce6d 100644
--- a/bin/router/src/schema_state.rs
+++ b/bin/router/src/schema_state.rs
@@ -26,7 +26,7 @@ use arc_swap::ArcSwap;
 use async_trait::async_trait;
 use dashmap::DashMap;
 use futures::stream::FuturesUnordered;
-use futures::StreamExt;
+use futures::{FutureExt, StreamExt};
 use graphql_tools::validation::utils::ValidationError;
 use hive_console_sdk::agent::usage_agent::UsageAgent;
 use http::Uri;
@@ -34,6 +34,7 @@ use moka::future::Cache;
 use ntex::web::HttpRequest;
 use std::collections::hash_map;
 use std::collections::{HashMap, HashSet, VecDeque};
+use std::panic::AssertUnwindSafe;
 use std::sync::{Arc, Mutex};
 use std::time::Duration;
 use tokio::sync::mpsc;
@@ -743,16 +744,21 @@ impl SchemaState {
                     let process_capture = supergraph_metrics.capture_process();
                     debug!("Received new supergraph SDL, building new supergraph state...");
 
-                    match ConfiguredSupergraph::build(
+                    // a supergraph that parses but breaks an invariant of the planner (e.g. it has no
+                    // query type) must not take this task down with it: no later supergraph would
+                    // ever be loaded again
+                    let build_result = AssertUnwindSafe(ConfiguredSupergraph::build(
                         new_sdl,
                         &configured_spawn_clone,
                         router_config,
                         plugins.as_ref(),
                         &runtime_context_for_reload,
-                    )
-                    .await
-                    {
-                        Ok(new_configured) => {
+                    ))
+                    .catch_unwind()
+                    .await;
+
+                    match build_result {
+                        Ok(Ok(new_configured)) => {
                             // swapping in the new value here is enough: the previous
                             // `ConfiguredSupergraph`'s owner `Arc<Supergraph>` is only kept alive
                             // by this slot (ordinary requests only ever hold a snapshot),
@@ -763,10 +769,14 @@ impl SchemaState {
                             debug!("Supergraph updated successfully");
                             process_capture.finish_ok();
                         }
-                        Err(e) => {
+                        Ok(Err(e)) => {
                             process_capture.finish_error();
                             error!("Failed to build new supergraph data: {}", e);
                         }
+                        Err(_panic) => {
+                            process_capture.finish_error();
+                            error!("Failed to build new supergraph data: the supergraph is invalid");
+                        }
                     }
                 }
             });
-- 
2.43.0


From c54091c344a2a759885c701924297af0591c0a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:32 +0000
Subject: [PATCH 15/22] fix: try every JWKS provider that may hold the key of a
 JWT

Key ids are unique only within a provider, and tokens without a key id are matched by algorithm, but only
the first matching provider was tried, so valid tokens of the other providers were refused.
---
 bin/router/src/jwt/mod.rs | 45 +++++++++++++++++++++++++--------------
 1 file changed, 29 insertions(+), 16 deletions(-)

diff --git a/bin/router/src/jwt/mod.rs b/bin/router/src/jwt/mod.rs
index c625691..06b4167 100644
--- a/bin/router/src/jwt/mod.rs
+++ b/bin/router/src/jwt/mod.rs
@@ -128,32 +128,44 @@ impl JwtAuthRuntime {
         &'a self,
         jwt_header: &Header,
         jwks: &'a Vec<Arc<JwkSet>>,
-    ) -> Result<&'a JwkSet, JwtError> {
+    ) -> Result<Vec<&'a JwkSet>, JwtError> {
         // If `kid` is vailable on the header, we can try to match it to the `kid` on the available JWKs.
+        // Key ids are only unique within a provider, so more than one set can match.
         if let Some(jwt_kid) = &jwt_header.kid {
-            for jwk in jwks {
-                for key in &jwk.keys {
-                    if key.common.key_id.as_ref().is_some_and(|v| v == jwt_kid) {
-                        return Ok(jwk);
-                    }
-                }
+            let matching = jwks
+                .iter()
+                .map(|jwk| jwk.as_ref())
+                .filter(|jwk| {
+                    jwk.keys
+                        .iter()
+                        .any(|key| key.common.key_id.as_ref().is_some_and(|v| v == jwt_kid))
+                })
+                .collect::<Vec<_>>();
+            if !matching.is_empty() {
+                return Ok(matching);
             }
         }
 
         // If we don't have `kid` on the token, we should try to match the `alg` field.
+        let mut matching = Vec::new();
         for jwk in jwks {
             for key in &jwk.keys {
                 if let Some(key_alg) = key.common.key_algorithm {
                     let key_alg_cmp = Algorithm::from_str(&key_alg.to_string())
                         .map_err(JwtError::JwkAlgorithmNotSupported)?;
                     if key_alg_cmp == jwt_header.alg {
-                        return Ok(jwk);
+                        matching.push(jwk.as_ref());
+                        break;
                     }
                 }
             }
         }
 
-        Err(JwtError::FailedToLocateProvider)
+        if matching.is_empty() {
+            return Err(JwtError::FailedToLocateProvider);
+        }
+
+        Ok(matching)
     }
 
     fn authenticate(
@@ -165,9 +177,12 @@ impl JwtAuthRuntime {
             Ok((maybe_prefix, token)) => {
                 // First, we need to decode the header to determine which provider to use.
                 let header = decode_header(&token).map_err(JwtError::InvalidJwtHeader)?;
-                let jwk = self.find_matching_jwks(&header, jwks)?;
+                let keys = self
+                    .find_matching_jwks(&header, jwks)?
+                    .into_iter()
+                    .flat_map(|jwk| &jwk.keys);
 
-                self.decode_and_validate_token(&header, &token, &jwk.keys)
+                self.decode_and_validate_token(&header, &token, keys)
                     .map(|token_data| (token_data, maybe_prefix, token))
             }
             Err(e) => {
@@ -178,15 +193,13 @@ impl JwtAuthRuntime {
         }
     }
 
-    fn decode_and_validate_token(
+    fn decode_and_validate_token<'a>(
         &self,
         header: &Header,
         token: &str,
-        jwks: &[Jwk],
+        jwks: impl Iterator<Item = &'a Jwk> + Clone,
     ) -> Result<JwtTokenPayload, JwtError> {
-        let decode_attempts = jwks
-            .iter()
-            .map(|jwk| self.try_decode_from_jwk(header, token, jwk));
+        let decode_attempts = jwks.map(|jwk| self.try_decode_from_jwk(header, token, jwk));
 
         if let Some(success) = decode_attempts.clone().find(|result| result.is_ok()) {
             return success;
-- 
2.43.0


From 3fc4e70acde55dc7565fd40382e6a2067425d84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:42 +0000
Subject: [PATCH 16/22] fix: skip JWKS keys of other algorithms when looking
 for the key of a JWT

A listed key whose algorithm cannot sign tokens (an encryption key) made every token without a key id be
refused.
---
 bin/router/src/jwt/mod.rs | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/bin/router/src/jwt/mod.rs b/bin/router/src/jwt/mod.rs
index 06b4167..36d1e06 100644
--- a/bin/router/src/jwt/mod.rs
+++ b/bin/router/src/jwt/mod.rs
@@ -147,19 +147,19 @@ impl JwtAuthRuntime {
         }
 
         // If we don't have `kid` on the token, we should try to match the `alg` field.
-        let mut matching = Vec::new();
-        for jwk in jwks {
-            for key in &jwk.keys {
-                if let Some(key_alg) = key.common.key_algorithm {
-                    let key_alg_cmp = Algorithm::from_str(&key_alg.to_string())
-                        .map_err(JwtError::JwkAlgorithmNotSupported)?;
-                    if key_alg_cmp == jwt_header.alg {
-                        matching.push(jwk.as_ref());
-                        break;
-                    }
-                }
-            }
-        }
+        // Keys of algorithms that cannot sign tokens (encryption keys) can be listed too, and never match.
+        let matching = jwks
+            .iter()
+            .map(|jwk| jwk.as_ref())
+            .filter(|jwk| {
+                jwk.keys.iter().any(|key| {
+                    key.common.key_algorithm.is_some_and(|key_alg| {
+                        Algorithm::from_str(&key_alg.to_string())
+                            .is_ok_and(|key_alg| key_alg == jwt_header.alg)
+                    })
+                })
+            })
+            .collect::<Vec<_>>();
 
         if matching.is_empty() {
             return Err(JwtError::FailedToLocateProvider);
-- 
2.43.0


From bbb841e328b72b664f11f528719b899f5f890e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:08 +0000
Subject: [PATCH 17/22] fix: recognise multipart delimiters only at the start
 of a line, also when split over chunks

---
 .../executor/executors/multipart_subscribe.rs | 67 +++++++++++--------
 1 file changed, 40 insertions(+), 27 deletions(-)

diff --git a/bin/router/src/executor/executors/multipart_subscribe.rs b/bin/router/src/executor/executors/multipart_subscribe.rs
index 843a07b..7e23220 100644
--- a/bin/router/src/executor/executors/multipart_subscribe.rs
+++ b/bin/router/src/executor/executors/multipart_subscribe.rs
@@ -95,6 +95,9 @@ where
             while let Some((part_end, skip_len, is_end)) = find_next_part(&buffer, &delimiter, &end_marker, started) {
                 if !started {
                     buffer.drain(..skip_len);
+                    if is_end {
+                        return;
+                    }
                     started = true;
                     continue;
                 }
@@ -144,6 +147,12 @@ where
     Box::pin(stream)
 }
 
+/// Find the next delimiter line in the buffer. Delimiters are only recognized at the start of a
+/// line, so the contents of a part may include the boundary text.
+///
+/// Returns the end of the part before the delimiter, the number of bytes to skip after it and
+/// whether the delimiter closes the stream. When the rest of the delimiter line did not arrive yet
+/// the part is returned without skipping the delimiter, it gets recognized once it is complete.
 fn find_next_part(
     buffer: &[u8],
     delimiter: &str,
@@ -153,38 +162,42 @@ fn find_next_part(
     let delimiter_b = delimiter.as_bytes();
     let end_marker_b = end_marker.as_bytes();
 
-    let find_bytes = |haystack: &[u8], needle: &[u8]| -> Option<usize> {
-        haystack.windows(needle.len()).position(|w| w == needle)
-    };
-
-    if !started {
-        let pos = find_bytes(buffer, delimiter_b)?;
-        let after_delimiter = pos + delimiter_b.len();
-        let newline_pos = buffer[after_delimiter..].iter().position(|&b| b == b'\n')?;
-        let skip_len = after_delimiter + newline_pos + 1;
-        return Some((0, skip_len, false));
-    }
+    let mut from = 0;
+    loop {
+        let pos = from
+            + buffer
+                .get(from..)?
+                .windows(delimiter_b.len())
+                .position(|w| w == delimiter_b)?;
+        from = pos + 1;
+
+        if pos > 0 && buffer[pos - 1] != b'\n' {
+            continue;
+        }
 
-    let next_delimiter_pos = find_bytes(buffer, delimiter_b)?;
-    let is_end = buffer[next_delimiter_pos..].starts_with(end_marker_b);
+        let is_end = buffer[pos..].starts_with(end_marker_b);
+        let after_delimiter = &buffer[pos + delimiter_b.len()..];
+        let newline = after_delimiter.iter().position(|&b| b == b'\n');
+        let line = &after_delimiter[..newline.unwrap_or(after_delimiter.len())];
 
-    let skip_len = if is_end {
-        let after_end = next_delimiter_pos + end_marker_b.len();
-        if let Some(newline) = buffer[after_end..].iter().position(|&b| b == b'\n') {
-            end_marker_b.len() + newline + 1
-        } else {
+        let skip_len = if is_end {
             end_marker_b.len()
-        }
-    } else {
-        let after_delimiter = next_delimiter_pos + delimiter_b.len();
-        if let Some(newline) = buffer[after_delimiter..].iter().position(|&b| b == b'\n') {
-            delimiter_b.len() + newline + 1
+        } else if newline.is_none() && line == b"-" {
+            0
+        } else if !line.iter().all(|b| b.is_ascii_whitespace()) {
+            // just a line that starts like the delimiter
+            continue;
         } else {
-            delimiter_b.len()
-        }
-    };
+            newline.map_or(0, |newline| delimiter_b.len() + newline + 1)
+        };
 
-    Some((next_delimiter_pos, skip_len, is_end))
+        return match (started, skip_len) {
+            (false, 0) => None,
+            (false, _) => Some((0, pos + skip_len, is_end)),
+            (true, 0) if pos == 0 => None,
+            (true, _) => Some((pos, skip_len, is_end)),
+        };
+    }
 }
 
 fn parse_part(
-- 
2.43.0


From 61c8ee9e815485a0c9bea517b81f1429b8376f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:08 +0000
Subject: [PATCH 18/22] fix: send the delimiter that ends a subscription part
 along with the part

---
 .../src/pipeline/multipart_subscribe.rs       | 41 +++++++++++--------
 1 file changed, 23 insertions(+), 18 deletions(-)

diff --git a/bin/router/src/pipeline/multipart_subscribe.rs b/bin/router/src/pipeline/multipart_subscribe.rs
index 0a3317a..928e86c 100644
--- a/bin/router/src/pipeline/multipart_subscribe.rs
+++ b/bin/router/src/pipeline/multipart_subscribe.rs
@@ -18,14 +18,14 @@ macro_rules! make_content_type {
 macro_rules! make_boundaries {
     ($boundary:expr) => {
         (
-            // start
-            concat!(
-                "--",
-                $boundary,
-                "\r\nContent-Type: application/json\r\n\r\n"
-            ),
-            // end
-            concat!("--", $boundary, "--"),
+            // sent once, before the first part
+            concat!("--", $boundary),
+            // before and after the body of a part - a part is complete for the client only when it
+            // sees the delimiter that follows, so it must not be held back until the next part
+            "\r\nContent-Type: application/json\r\n\r\n",
+            concat!("\r\n--", $boundary),
+            // turns the last delimiter into the closing one
+            "--",
         )
     };
 }
@@ -46,16 +46,18 @@ pub fn create_incremental_delivery_stream(
     input: impl Stream<Item = Vec<u8>> + Send + Unpin + 'static,
 ) -> impl Stream<Item = Result<ntex::util::Bytes, std::io::Error>> + Unpin {
     let mut input = input;
-    let (start_boundary, end_boundary) = make_boundaries!(INCREMENTAL_DELIVERY_BOUNDARY);
+    let (first_delimiter, part_start, part_end, end) =
+        make_boundaries!(INCREMENTAL_DELIVERY_BOUNDARY);
     async_stream::stream! {
+        yield Ok(Bytes::from(first_delimiter));
         loop {
             match input.next().await {
                 Some(resp) => {
                     match std::str::from_utf8(&resp) {
                         Ok(_) => {
-                            yield Ok(Bytes::from(start_boundary));
+                            yield Ok(Bytes::from(part_start));
                             yield Ok(Bytes::from(resp));
-                            yield Ok(Bytes::from("\r\n"));
+                            yield Ok(Bytes::from(part_end));
                         }
                         Err(e) => {
                             yield Err(std::io::Error::new(std::io::ErrorKind::InvalidData, e));
@@ -64,7 +66,7 @@ pub fn create_incremental_delivery_stream(
                     }
                 }
                 None => {
-                    yield Ok(Bytes::from(end_boundary));
+                    yield Ok(Bytes::from(end));
                     break;
                 },
             }
@@ -90,9 +92,11 @@ pub fn create_apollo_multipart_http_stream(
     heartbeat_interval: Duration,
 ) -> impl Stream<Item = Result<ntex::util::Bytes, std::io::Error>> + Unpin {
     let mut input = input;
-    let (start_boundary, end_boundary) = make_boundaries!(APOLLO_MULTIPART_HTTP_BOUNDARY);
-    let ping = "{}\r\n";
+    let (first_delimiter, part_start, part_end, end) =
+        make_boundaries!(APOLLO_MULTIPART_HTTP_BOUNDARY);
+    let ping = "{}";
     async_stream::stream! {
+        yield Ok(Bytes::from(first_delimiter));
         loop {
             tokio::select! {
                 item = input.next() => {
@@ -100,7 +104,7 @@ pub fn create_apollo_multipart_http_stream(
                         Some(resp) => {
                             match std::str::from_utf8(&resp) {
                                 Ok(_) => {
-                                    yield Ok(Bytes::from(start_boundary));
+                                    yield Ok(Bytes::from(part_start));
                                     // Wrap the GraphQL response in a payload field
                                     // As per the spec.
                                     let mut payload = ntex::util::BytesMut::with_capacity(resp.len() + 15);
@@ -108,7 +112,7 @@ pub fn create_apollo_multipart_http_stream(
                                     payload.put_slice(&resp);
                                     payload.put_slice(br"}");
                                     yield Ok(payload.freeze());
-                                    yield Ok(Bytes::from("\r\n"));
+                                    yield Ok(Bytes::from(part_end));
                                 }
                                 Err(e) => {
                                     // TODO: use transport level errors as per spec
@@ -118,14 +122,15 @@ pub fn create_apollo_multipart_http_stream(
                             }
                         }
                         None => {
-                            yield Ok(Bytes::from(end_boundary));
+                            yield Ok(Bytes::from(end));
                             break;
                         },
                     }
                 }
                 _ = tokio::time::sleep(heartbeat_interval) => {
-                    yield Ok(Bytes::from(start_boundary));
+                    yield Ok(Bytes::from(part_start));
                     yield Ok(Bytes::from(ping));
+                    yield Ok(Bytes::from(part_end));
                 }
             }
         }
-- 
2.43.0


From 022288c03d79c2c0ba0d44d4f42b66f301ab0fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:08 +0000
Subject: [PATCH 19/22] fix: in-flight cleanup must not remove the entry of a
 newer request

---
 bin/router/src/executor/executors/inflight.rs | 27 ++++++++++++++++---
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/bin/router/src/executor/executors/inflight.rs b/bin/router/src/executor/executors/inflight.rs
index d9fb5ce..842dbe0 100644
--- a/bin/router/src/executor/executors/inflight.rs
+++ b/bin/router/src/executor/executors/inflight.rs
@@ -1,7 +1,7 @@
 use std::{
     future::Future,
     hash::{BuildHasher, BuildHasherDefault, Hash},
-    sync::Arc,
+    sync::{Arc, Weak},
 };
 
 use ahash::AHasher;
@@ -79,6 +79,14 @@ where
     pub fn remove(&self, key: &K) {
         self.inner.remove(key);
     }
+
+    /// Removes the entry of the key only if it still is the given cell. Another request may have
+    /// claimed the key anew when a failed or cancelled leader had its entry removed.
+    #[inline]
+    fn remove_cell(&self, key: &K, cell: &Weak<OnceCell<InFlightValue<V>>>) {
+        self.inner
+            .remove_if(key, |_, current| Arc::as_ptr(current) == cell.as_ptr());
+    }
 }
 
 pub struct InFlightClaim<K, V, S = ABuildHasher> {
@@ -100,12 +108,17 @@ where
     {
         let mut did_initialize = false;
         let InFlightClaim { key, map, cell } = self;
+        let entry = Arc::downgrade(&cell);
 
         let value = cell
             .get_or_try_init(|| {
                 did_initialize = true;
                 async {
-                    let _cleanup = InFlightCleanupGuard { key, map };
+                    let _cleanup = InFlightCleanupGuard {
+                        key,
+                        map,
+                        cell: entry,
+                    };
                     init().await.map(Arc::new)
                 }
             })
@@ -136,12 +149,17 @@ where
     {
         let mut did_initialize = false;
         let InFlightClaim { key, map, cell } = self;
+        let entry = Arc::downgrade(&cell);
 
         let value = cell
             .get_or_try_init(|| {
                 did_initialize = true;
                 async {
-                    let guard = InFlightCleanupGuard { key, map };
+                    let guard = InFlightCleanupGuard {
+                        key,
+                        map,
+                        cell: entry,
+                    };
                     init(guard).await.map(Arc::new)
                 }
             })
@@ -165,6 +183,7 @@ where
 {
     key: K,
     map: InFlightMap<K, V, S>,
+    cell: Weak<OnceCell<InFlightValue<V>>>,
 }
 
 impl<K, V, S> Drop for InFlightCleanupGuard<K, V, S>
@@ -176,6 +195,6 @@ where
         // It's important to remove the entry from the map before returning the result.
         // This ensures that once the OnceCell is set, no future requests can join it.
         // The cache is for the lifetime of the in-flight request only.
-        self.map.remove(&self.key);
+        self.map.remove_cell(&self.key, &self.cell);
     }
 }
-- 
2.43.0


From b2a411f34d46702015f895d2e005700d534f6250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:36 +0000
Subject: [PATCH 20/22] fix: hand the pre-subscribed receiver of a deduplicated
 subscription to its leader

---
 bin/router/src/pipeline/mod.rs              |  8 ++--
 bin/router/src/pipeline/websocket_server.rs |  8 ++--
 bin/router/src/shared_state.rs              | 53 +++++++++++++++------
 3 files changed, 45 insertions(+), 24 deletions(-)

diff --git a/bin/router/src/pipeline/mod.rs b/bin/router/src/pipeline/mod.rs
index 2637214..9d474f7 100644
--- a/bin/router/src/pipeline/mod.rs
+++ b/bin/router/src/pipeline/mod.rs
@@ -46,7 +46,7 @@ use std::{
     collections::HashMap,
     hash::{Hash, Hasher},
     ops::{ControlFlow, Deref},
-    sync::Arc,
+    sync::{Arc, Mutex},
     time::Instant,
 };
 use tracing::{debug, error, warn, Instrument};
@@ -493,7 +493,7 @@ pub async fn graphql_request_handler(
         };
 
         let shared_response = if let Some(fp) = fingerprint {
-            let (shared_response, _role) = if is_subscription {
+            let (shared_response, role) = if is_subscription {
                 shared_state
                     .in_flight_requests
                     .claim(fp)
@@ -506,7 +506,7 @@ pub async fn graphql_request_handler(
                     .get_or_try_init(|| exec(None))
                     .await?
             };
-            Arc::unwrap_or_clone(shared_response)
+            SharedRouterResponse::for_client(shared_response, role)
         } else {
             exec(None).await?
         };
@@ -694,7 +694,7 @@ pub async fn execute_planned_request<'exec>(
                 body: sender,
                 headers,
                 error_count: result.error_count,
-                receiver: Some(receiver),
+                receiver: Arc::new(Mutex::new(Some(receiver))),
             }))
         }
         QueryPlanExecutionResult::Single(result) => {
diff --git a/bin/router/src/pipeline/websocket_server.rs b/bin/router/src/pipeline/websocket_server.rs
index bf72440..9e3adf5 100644
--- a/bin/router/src/pipeline/websocket_server.rs
+++ b/bin/router/src/pipeline/websocket_server.rs
@@ -635,7 +635,7 @@ async fn handle_text_frame(
                               .get_or_try_init(|| exec(None))
                               .await
                       };
-                      let (shared_response, _role) = match result {
+                      let (shared_response, role) = match result {
                           Ok(result) => result,
                           Err(PipelineError::Client(ClientPipelineError::JwtError(err))) => {
                               let _ = sink.send(err.clone().into_server_message(&id, shared_state)).await;
@@ -645,7 +645,7 @@ async fn handle_text_frame(
                           },
                           Err(err) => return Some(err.into_server_message(&id, shared_state)),
                       };
-                      Arc::unwrap_or_clone(shared_response)
+                      SharedRouterResponse::for_client(shared_response, role)
                   } else {
                       match exec(None).await {
                           Ok(result) => result,
@@ -712,9 +712,7 @@ async fn handle_text_frame(
                               id: id.clone(),
                           };
 
-                          let mut receiver = response
-                              .receiver
-                              .unwrap_or_else(|| response.body.subscribe());
+                          let mut receiver = response.subscribe();
 
                           let client_op_guard = shared_state.telemetry_context.metrics.subscriptions.active_client_operation(SubscriptionTransport::WebSocket);
                           let metrics = shared_state.telemetry_context.metrics.clone();
diff --git a/bin/router/src/shared_state.rs b/bin/router/src/shared_state.rs
index 7c031f4..42632bb 100644
--- a/bin/router/src/shared_state.rs
+++ b/bin/router/src/shared_state.rs
@@ -5,7 +5,7 @@ use crate::config::HiveRouterConfig;
 use crate::executor::coprocessor::{CoprocessorError, CoprocessorRuntime};
 use crate::executor::execution::plan::FailedExecutionResult;
 use crate::executor::executors::common::InboundRequestFingerprint;
-use crate::executor::executors::inflight::{InFlightCleanupGuard, InFlightMap};
+use crate::executor::executors::inflight::{InFlightCleanupGuard, InFlightMap, InFlightRole};
 use crate::executor::extensions::{compile::compile_extensions_plan, plan::ExtensionsPlan};
 use crate::executor::headers::sanitizer::is_never_join_header;
 use crate::executor::plugin_trait::RouterPluginBoxed;
@@ -24,7 +24,10 @@ use ntex::web;
 use ntex::{http::HeaderMap, util::Bytes};
 use std::sync::atomic::AtomicUsize;
 use std::time::{Duration, SystemTime, UNIX_EPOCH};
-use std::{collections::HashSet, sync::Arc};
+use std::{
+    collections::HashSet,
+    sync::{Arc, Mutex},
+};
 use tracing::debug;
 
 #[cfg(not(feature = "graphiql"))]
@@ -100,6 +103,17 @@ pub enum SharedRouterResponse {
 }
 
 impl SharedRouterResponse {
+    /// The response as one of the clients sharing it has it. Has to be called as soon as the shared
+    /// response is available, a subscription ends when none of its clients have a receiver.
+    pub fn for_client(shared: Arc<Self>, role: InFlightRole) -> Self {
+        match Arc::unwrap_or_clone(shared) {
+            SharedRouterResponse::Stream(stream) => {
+                SharedRouterResponse::Stream(stream.with_own_receiver(role))
+            }
+            single => single,
+        }
+    }
+
     pub fn error_count(&self) -> usize {
         match self {
             SharedRouterResponse::Single(resp) => resp.error_count,
@@ -154,28 +168,37 @@ impl From<SharedRouterSingleResponse> for web::HttpResponse {
 // status is always 200 for streaming responses, errors are sent through the stream.
 // stream content type is not included because we can deduplicate subscriptions across
 // different content types, the response format is decided when converting to response
+#[derive(Clone)]
 pub struct SharedRouterStreamResponse {
     pub body: tokio::sync::broadcast::Sender<SubscriptionEvent>,
     pub headers: Arc<HeaderMap>,
     pub error_count: usize,
     // the leader gets the receiver that was subscribed before the pump was spawned, so
     // there is no window where the channel has zero receivers and events can be lost.
-    // joiners get None and subscribe via body.subscribe() when consumed.
-    pub receiver: Option<tokio::sync::broadcast::Receiver<SubscriptionEvent>>,
+    // joiners get None and subscribe via body.subscribe(). shared between the clones because
+    // the in-flight entry holds on to one of them for as long as the subscription is active.
+    pub receiver: Arc<Mutex<Option<tokio::sync::broadcast::Receiver<SubscriptionEvent>>>>,
 }
 
-impl Clone for SharedRouterStreamResponse {
-    fn clone(&self) -> Self {
-        Self {
-            body: self.body.clone(),
-            headers: self.headers.clone(),
-            error_count: self.error_count,
-            receiver: None,
-        }
+impl SharedRouterStreamResponse {
+    /// Gives the leader the receiver that is shared with the in-flight entry, and joiners a new one.
+    fn with_own_receiver(mut self, role: InFlightRole) -> Self {
+        let receiver = match role {
+            InFlightRole::Leader => self.subscribe(),
+            InFlightRole::Joiner => self.body.subscribe(),
+        };
+        self.receiver = Arc::new(Mutex::new(Some(receiver)));
+        self
+    }
+
+    pub fn subscribe(&self) -> tokio::sync::broadcast::Receiver<SubscriptionEvent> {
+        self.receiver
+            .lock()
+            .ok()
+            .and_then(|mut receiver| receiver.take())
+            .unwrap_or_else(|| self.body.subscribe())
     }
-}
 
-impl SharedRouterStreamResponse {
     pub fn into_response(
         self,
         stream_content_type: &StreamContentType,
@@ -184,7 +207,7 @@ impl SharedRouterStreamResponse {
     ) -> web::HttpResponse {
         // leader already has a pre-subscribed receiver to avoid missing
         // any potential events emitted. joiners, on the other hand, subscribe
-        let mut receiver = self.receiver.unwrap_or_else(|| self.body.subscribe());
+        let mut receiver = self.subscribe();
 
         let transport = match stream_content_type {
             StreamContentType::IncrementalDelivery | StreamContentType::ApolloMultipartHTTP => {
-- 
2.43.0


From 7ada04346b01060e0bfdb62798492567a325a965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:36 +0000
Subject: [PATCH 21/22] fix: end the upstream of a subscription as soon as its
 last client left

---
 bin/router/src/pipeline/active_subscriptions.rs | 11 +++++++++--
 bin/router/src/pipeline/mod.rs                  | 10 ++++++++--
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/bin/router/src/pipeline/active_subscriptions.rs b/bin/router/src/pipeline/active_subscriptions.rs
index cf7b813..db530b7 100644
--- a/bin/router/src/pipeline/active_subscriptions.rs
+++ b/bin/router/src/pipeline/active_subscriptions.rs
@@ -52,7 +52,7 @@ impl ActiveSubscriptions {
             id: id.clone(),
             map: self.map.clone(),
             sender,
-            _guard: guard,
+            guard,
         };
 
         trace!(target: targets::SUBSCRIPTIONS, subscription_id = %id, "registered new subscription");
@@ -77,7 +77,7 @@ pub struct ProducerHandle {
     id: SubscriptionId,
     map: Arc<DashMap<SubscriptionId, broadcast::Sender<SubscriptionEvent>>>,
     sender: broadcast::Sender<SubscriptionEvent>,
-    _guard: Option<SharedRouterResponseGuard>,
+    guard: Option<SharedRouterResponseGuard>,
 }
 
 impl ProducerHandle {
@@ -89,6 +89,13 @@ impl ProducerHandle {
     pub fn send(&self, item: SubscriptionEvent) -> bool {
         self.sender.send(item).is_ok()
     }
+
+    /// To be called when all consumers have gone. Removes the dedupe entry so that nobody can join
+    /// anymore, and returns false when somebody did so in the meantime.
+    pub fn close_when_unused(&mut self) -> bool {
+        self.guard = None;
+        self.sender.receiver_count() == 0
+    }
 }
 
 impl Drop for ProducerHandle {
diff --git a/bin/router/src/pipeline/mod.rs b/bin/router/src/pipeline/mod.rs
index 9d474f7..bcab431 100644
--- a/bin/router/src/pipeline/mod.rs
+++ b/bin/router/src/pipeline/mod.rs
@@ -640,7 +640,7 @@ pub async fn execute_planned_request<'exec>(
                 .stream_content_type()
                 .ok_or(ClientPipelineError::SubscriptionsTransportNotSupported)?;
 
-            let (producer_handle, receiver) = shared_state.active_subscriptions.register(guard);
+            let (mut producer_handle, receiver) = shared_state.active_subscriptions.register(guard);
 
             // subscribe the sender before spawning the pump so the channel always has
             // at least one receiver - prevents events from being lost in the window
@@ -658,7 +658,7 @@ pub async fn execute_planned_request<'exec>(
                         chunk = body_stream.next() => {
                             match chunk {
                                 Some(chunk) => {
-                                    if !producer_handle.send(SubscriptionEvent::Raw(bytes::Bytes::from(chunk))) {
+                                    if !producer_handle.send(SubscriptionEvent::Raw(bytes::Bytes::from(chunk))) && producer_handle.close_when_unused() {
                                         // all receivers gone, stop draining
                                         break;
                                     }
@@ -666,6 +666,12 @@ pub async fn execute_planned_request<'exec>(
                                 None => break,
                             }
                         }
+                        _ = producer_handle.sender().closed() => {
+                            // all receivers gone, stop draining even if upstream is silent
+                            if producer_handle.close_when_unused() {
+                                break;
+                            }
+                        }
                         _ = supergraph.snapshot.retired() => {
                             // the supergraph this subscription was selected from has been
                             // retired (configured reload, or the owning plugin dropped/replaced
-- 
2.43.0


From 52c9a8683058b758624be104d0cbc1e881dcdddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:36 +0000
Subject: [PATCH 22/22] fix: websocket operations can be completed while they
 are being executed

---
 bin/router/src/pipeline/websocket_server.rs | 54 +++++++++++++++------
 1 file changed, 39 insertions(+), 15 deletions(-)

diff --git a/bin/router/src/pipeline/websocket_server.rs b/bin/router/src/pipeline/websocket_server.rs
index 9e3adf5..7d77d47 100644
--- a/bin/router/src/pipeline/websocket_server.rs
+++ b/bin/router/src/pipeline/websocket_server.rs
@@ -213,11 +213,22 @@ async fn ws_service(
 struct SubscriptionGuard {
     state: WsStateRef,
     id: String,
+    cancel_tx: mpsc::WeakSender<()>,
 }
 
 impl Drop for SubscriptionGuard {
     fn drop(&mut self) {
-        self.state.borrow_mut().subscriptions.remove(&self.id);
+        // the client may use the id again once it completed the operation, so make
+        // sure not to remove (and cancel) a newer operation having the same id
+        if let Some(cancel_tx) = self.cancel_tx.upgrade() {
+            let subscriptions = &mut self.state.borrow_mut().subscriptions;
+            if subscriptions
+                .get(&self.id)
+                .is_some_and(|active| active.same_channel(&cancel_tx))
+            {
+                subscriptions.remove(&self.id);
+            }
+        }
         trace!(target: targets::WEBSOCKET_SERVER, id = %self.id, "Subscription removed from active subscriptions");
     }
 }
@@ -300,6 +311,19 @@ async fn handle_text_frame(
                 return Some(CloseCode::SubscriberAlreadyExists(id).into());
             }
 
+            // register right away, the client may complete the operation (or the
+            // connection may close) while the operation is still being executed
+            let (cancel_tx, mut cancel_rx) = mpsc::channel::<()>(1);
+            let guard = SubscriptionGuard {
+                state: state.clone(),
+                id: id.clone(),
+                cancel_tx: cancel_tx.downgrade(),
+            };
+            state
+                .borrow_mut()
+                .subscriptions
+                .insert(id.clone(), cancel_tx);
+
             let started_at = Instant::now();
             let operation_span = GraphQLOperationSpan::new();
             operation_span.record_hive_target(
@@ -694,24 +718,17 @@ async fn handle_text_frame(
 
                   summary::record(|s| s.set_error_count(shared_response.error_count() as u32));
 
+                  if !matches!(cancel_rx.try_recv(), Err(mpsc::error::TryRecvError::Empty)) {
+                      trace!(target: targets::WEBSOCKET_SERVER, id = %id, "Operation cancelled before it was executed");
+                      return None;
+                  }
+
                   match shared_response {
                       SharedRouterResponse::Single(response) => {
                           let _ = sink.send(ServerMessage::next(&id, &response.body)).await;
                           Some(ServerMessage::complete(&id))
                       }
                       SharedRouterResponse::Stream(response) => {
-                          let (cancel_tx, mut cancel_rx) = mpsc::channel::<()>(1);
-
-                          state
-                              .borrow_mut()
-                              .subscriptions
-                              .insert(id.clone(), cancel_tx);
-
-                          let guard = SubscriptionGuard {
-                              state: state.clone(),
-                              id: id.clone(),
-                          };
-
                           let mut receiver = response.subscribe();
 
                           let client_op_guard = shared_state.telemetry_context.metrics.subscriptions.active_client_operation(SubscriptionTransport::WebSocket);
@@ -726,9 +743,9 @@ async fn handle_text_frame(
                           // making cancellation impossible
                           let log_scope = RequestLogScope::capture();
                           rt::spawn(log_scope.scope(async move {
-                              let _guard = guard;
                               let mut client_op_guard = client_op_guard;
                               let mut cancelled = false;
+                              let mut failed = None;
 
                               loop {
                                   tokio::select! {
@@ -740,7 +757,7 @@ async fn handle_text_frame(
                                               }
                                               Ok(SubscriptionEvent::Error(errors)) => {
                                                   client_op_guard.set_end_reason(SubscriptionEndReason::Error);
-                                                  let _ = sink.send(ServerMessage::error(&id_for_loop, &errors)).await;
+                                                  failed = Some(errors);
                                                   break;
                                               }
                                               Err(tokio::sync::broadcast::error::RecvError::Lagged(n)) => {
@@ -764,8 +781,15 @@ async fn handle_text_frame(
                                   }
                               }
 
+                              // the id is free again as soon as the client knows that the operation ended
+                              drop(guard);
+
                               if cancelled {
                                   trace!(target: targets::WEBSOCKET_SERVER, id = %id_for_loop, "Subscription cancelled");
+                              } else if let Some(errors) = failed {
+                                  // an error message is terminal, no complete message follows
+                                  trace!(target: targets::WEBSOCKET_SERVER, id = %id_for_loop, "Subscription failed");
+                                  let _ = sink.send(ServerMessage::error(&id_for_loop, &errors)).await;
                               } else {
                                   trace!(target: targets::WEBSOCKET_SERVER, id = %id_for_loop, "Subscription completed");
                                   let _ = sink.send(ServerMessage::complete(&id_for_loop)).await;
-- 
2.43.0

