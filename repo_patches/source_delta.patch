From 631fe5d1e5a96539680055a7b4d640270661c795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:41 +0000
Subject: [PATCH 01/65] fix: execute root fields of a mutation serially

---
 src/core/jit/exec.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/core/jit/exec.rs b/src/core/jit/exec.rs
index c3155aa..ea194d9 100644
--- a/src/core/jit/exec.rs
+++ b/src/core/jit/exec.rs
@@ -2,6 +2,7 @@ use std::fmt::Debug;
 use std::mem;
 use std::sync::{Arc, Mutex};
 
+use async_graphql::parser::types::OperationType;
 use derive_getters::Getters;
 use futures_util::future::join_all;
 
@@ -74,6 +75,16 @@ where
     }
 
     async fn init(&mut self) {
+        // The spec requires the root fields of a mutation to be executed serially, in
+        // the order they're written
+        if self.request.plan().operation_type() == OperationType::Mutation {
+            for field in self.request.plan().selection.iter() {
+                let ctx = Context::new(field, self.request);
+                let _ = self.execute(&ctx).await;
+            }
+            return;
+        }
+
         join_all(self.request.plan().selection.iter().map(|field| async {
             let ctx = Context::new(field, self.request);
             // TODO: with_args should be called on inside iter_field on any level, not only
-- 
2.43.0


From 55a4cabca83b5b2618341a36f044d4b7cf8bbc4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:04 +0000
Subject: [PATCH 02/65] fix: key operation plans by operation name and constant
 responses by variables

---
 src/core/jit/graphql_executor.rs | 33 ++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/src/core/jit/graphql_executor.rs b/src/core/jit/graphql_executor.rs
index e1c131c..f23d8cd 100644
--- a/src/core/jit/graphql_executor.rs
+++ b/src/core/jit/graphql_executor.rs
@@ -61,10 +61,28 @@ impl JITExecutor {
         out.unwrap_or_default()
     }
 
+    /// Identifies the plan of the request: it's determined by the document and
+    /// the operation selected in it
     #[inline(always)]
-    fn req_hash(request: &async_graphql::Request) -> OPHash {
+    fn plan_hash(request: &async_graphql::Request) -> OPHash {
         let mut hasher = TailcallHasher::default();
         request.query.hash(&mut hasher);
+        request.operation_name.hash(&mut hasher);
+
+        OPHash::new(hasher.finish())
+    }
+
+    /// Identifies the response of a constant operation: in addition to the plan
+    /// it depends on the variables
+    #[inline(always)]
+    fn response_hash(request: &async_graphql::Request) -> OPHash {
+        let mut hasher = TailcallHasher::default();
+        request.query.hash(&mut hasher);
+        request.operation_name.hash(&mut hasher);
+        for (name, value) in request.variables.iter() {
+            name.hash(&mut hasher);
+            value.to_string().hash(&mut hasher);
+        }
 
         OPHash::new(hasher.finish())
     }
@@ -75,17 +93,16 @@ impl JITExecutor {
         &self,
         request: async_graphql::Request,
     ) -> impl Future<Output = AnyResponse<Vec<u8>>> + Send + '_ {
-        // TODO: hash considering only the query itself ignoring specified operation and
-        // variables that could differ for the same query
-        let hash = Self::req_hash(&request);
+        let plan_hash = Self::plan_hash(&request);
+        let response_hash = Self::response_hash(&request);
 
         async move {
-            if let Some(response) = self.app_ctx.const_execution_cache.get(&hash) {
+            if let Some(response) = self.app_ctx.const_execution_cache.get(&response_hash) {
                 return response.clone();
             }
 
             let jit_request = jit::Request::from(request);
-            let exec = if let Some(op) = self.app_ctx.operation_plans.get(&hash) {
+            let exec = if let Some(op) = self.app_ctx.operation_plans.get(&plan_hash) {
                 ConstValueExecutor::from(op.value().clone())
             } else {
                 let exec = match ConstValueExecutor::try_new(&jit_request, &self.app_ctx) {
@@ -98,7 +115,7 @@ impl JITExecutor {
                 };
                 self.app_ctx
                     .operation_plans
-                    .insert(hash.clone(), exec.plan.clone());
+                    .insert(plan_hash, exec.plan.clone());
                 exec
             };
 
@@ -115,7 +132,7 @@ impl JITExecutor {
             if is_const && !is_protected {
                 self.app_ctx
                     .const_execution_cache
-                    .insert(hash, response.clone());
+                    .insert(response_hash, response.clone());
             }
 
             response
-- 
2.43.0


From cd640df270378a4e0fdefcf12bda3d90aece102f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:49 +0000
Subject: [PATCH 03/65] fix: merge only requests with the same target in
 grouped http batches

---
 src/core/http/data_loader.rs | 50 +++++++++++++++++++++++++++++++++++-
 1 file changed, 49 insertions(+), 1 deletion(-)

diff --git a/src/core/http/data_loader.rs b/src/core/http/data_loader.rs
index 72d72c4..46561e1 100644
--- a/src/core/http/data_loader.rs
+++ b/src/core/http/data_loader.rs
@@ -1,4 +1,4 @@
-use std::collections::HashMap;
+use std::collections::{BTreeMap, HashMap};
 use std::sync::Arc;
 use std::time::Duration;
 
@@ -51,6 +51,41 @@ impl HttpDataLoader {
             .delay(Duration::from_millis(batch.delay as u64))
             .max_batch_size(batch.max_size.unwrap_or_default())
     }
+
+    /// Requests can be merged into a single upstream call only if they agree on
+    /// everything apart from what's collected by the batching, i.e. the query
+    /// parameter of the batch key or the body. Otherwise, the call made for the
+    /// first of them would stand in for the others.
+    fn split_by_target(
+        keys: &[DataLoaderRequest],
+        group_by: &GroupBy,
+    ) -> Vec<Vec<DataLoaderRequest>> {
+        let mut targets = BTreeMap::<_, Vec<_>>::new();
+        for key in keys {
+            let mut url = key.url().clone();
+            url.set_query(None);
+            let query = if key.method() == http::Method::GET {
+                key.url()
+                    .query_pairs()
+                    .filter(|(name, _)| name != group_by.key())
+                    .collect::<Vec<_>>()
+            } else {
+                // query parameters of the other methods are merged as well
+                vec![]
+            };
+            let headers = key
+                .headers()
+                .iter()
+                .map(|name| reqwest::Request::headers(key).get(name))
+                .collect::<Vec<_>>();
+
+            targets
+                .entry((key.method().as_str(), url, query, headers))
+                .or_default()
+                .push(key.clone());
+        }
+        targets.into_values().collect()
+    }
 }
 
 #[async_trait::async_trait]
@@ -63,6 +98,19 @@ impl Loader<DataLoaderRequest> for HttpDataLoader {
         keys: &[DataLoaderRequest],
     ) -> async_graphql::Result<HashMap<DataLoaderRequest, Self::Value>, Self::Error> {
         if let Some(group_by) = &self.group_by {
+            let targets = Self::split_by_target(keys, group_by);
+            if targets.len() > 1 {
+                let results = join_all(targets.iter().map(|keys| self.load(keys))).await;
+
+                #[allow(clippy::mutable_key_type)]
+                let mut hashmap = HashMap::with_capacity(keys.len());
+                for result in results {
+                    hashmap.extend(result?);
+                }
+
+                return Ok(hashmap);
+            }
+
             let query_name = group_by.key();
             let mut dl_requests = keys.to_vec();
             if cfg!(debug_assertions) {
-- 
2.43.0


From 21a00eaa84bd735ae6d3cc77093334a800d224d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:35 +0000
Subject: [PATCH 04/65] fix: batch graphql requests only with those of the same
 headers

---
 src/core/graphql/data_loader.rs | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/src/core/graphql/data_loader.rs b/src/core/graphql/data_loader.rs
index dd637c4..4dac17c 100644
--- a/src/core/graphql/data_loader.rs
+++ b/src/core/graphql/data_loader.rs
@@ -1,4 +1,4 @@
-use std::collections::HashMap;
+use std::collections::{BTreeMap, HashMap};
 use std::str::from_utf8;
 use std::sync::Arc;
 use std::time::Duration;
@@ -42,6 +42,18 @@ impl Loader<DataLoaderRequest> for GraphqlDataLoader {
         keys: &[DataLoaderRequest],
     ) -> async_graphql::Result<HashMap<DataLoaderRequest, Self::Value>, Self::Error> {
         if self.batch {
+            // the headers that are part of the key are sent with the call, so requests that
+            // differ in them can't share it
+            let groups = split_by_headers(keys);
+            if groups.len() > 1 {
+                let results = join_all(groups.iter().map(|keys| self.load(keys))).await;
+                let mut hashmap = HashMap::new();
+                for result in results {
+                    hashmap.extend(result?);
+                }
+                return Ok(hashmap);
+            }
+
             let batched_req = create_batched_request(keys);
             let result = self.runtime.http.execute(batched_req).await?.to_json();
             let hashmap = extract_responses(result, keys);
@@ -63,6 +75,22 @@ impl Loader<DataLoaderRequest> for GraphqlDataLoader {
     }
 }
 
+fn split_by_headers(dataloader_requests: &[DataLoaderRequest]) -> Vec<Vec<DataLoaderRequest>> {
+    let mut groups = BTreeMap::<_, Vec<_>>::new();
+    for dataloader_req in dataloader_requests {
+        let headers = dataloader_req
+            .headers()
+            .iter()
+            .map(|name| reqwest::Request::headers(dataloader_req).get(name))
+            .collect::<Vec<_>>();
+        groups
+            .entry(headers)
+            .or_default()
+            .push(dataloader_req.clone());
+    }
+    groups.into_values().collect()
+}
+
 fn collect_request_bodies(dataloader_requests: &[DataLoaderRequest]) -> String {
     let batched_query = dataloader_requests
         .iter()
-- 
2.43.0


From aafc540eaf96711a4570e8cc6e17b4f3e2cf9365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:56 +0000
Subject: [PATCH 05/65] fix: include url and headers in cache keys of graphql
 and grpc requests

---
 src/core/graphql/request_template.rs | 9 +++++++++
 src/core/grpc/request_template.rs    | 4 ++++
 2 files changed, 13 insertions(+)

diff --git a/src/core/graphql/request_template.rs b/src/core/graphql/request_template.rs
index 9e849d3..0acc17d 100644
--- a/src/core/graphql/request_template.rs
+++ b/src/core/graphql/request_template.rs
@@ -195,6 +195,15 @@ impl RequestTemplate {
 impl<Ctx: PathGraphql + HasHeaders + GraphQLOperationContext> CacheKey<Ctx> for RequestTemplate {
     fn cache_key(&self, ctx: &Ctx) -> Option<IoId> {
         let mut hasher = TailcallHasher::default();
+        self.url.hash(&mut hasher);
+        for (name, mustache) in self.headers.iter() {
+            name.hash(&mut hasher);
+            mustache.render_graphql(ctx).hash(&mut hasher);
+        }
+        for (name, value) in ctx.headers().iter() {
+            name.hash(&mut hasher);
+            value.hash(&mut hasher);
+        }
         let graphql_query = self.render_graphql_query(ctx);
         graphql_query.hash(&mut hasher);
         Some(IoId::new(hasher.finish()))
diff --git a/src/core/grpc/request_template.rs b/src/core/grpc/request_template.rs
index 4643c59..0bccb0e 100644
--- a/src/core/grpc/request_template.rs
+++ b/src/core/grpc/request_template.rs
@@ -122,6 +122,10 @@ impl<Ctx: PathString + HasHeaders> CacheKey<Ctx> for RequestTemplate {
         let mut hasher = TailcallHasher::default();
         let rendered_req = self.render(ctx).unwrap();
         rendered_req.hash(&mut hasher);
+        for (name, value) in rendered_req.headers.iter() {
+            name.hash(&mut hasher);
+            value.hash(&mut hasher);
+        }
         Some(IoId::new(hasher.finish()))
     }
 }
-- 
2.43.0


From 7700d0c1ef0107a6897e1be56f684c5edf7fc70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:14 +0000
Subject: [PATCH 06/65] fix: don't merge equal http mutations through the data
 loader

---
 src/core/app_context.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/core/app_context.rs b/src/core/app_context.rs
index 537fa7f..fdb6c9a 100644
--- a/src/core/app_context.rs
+++ b/src/core/app_context.rs
@@ -44,6 +44,7 @@ impl AppContext {
 
         for def in blueprint.definitions.iter_mut() {
             if let Definition::Object(def) = def {
+                let is_mutation = blueprint.schema.mutation.as_ref() == Some(&def.name);
                 for field in &mut def.fields {
                     let upstream_batch = &blueprint.upstream.batch;
                     field.map_expr(|expr| {
@@ -64,7 +65,10 @@ impl AppContext {
                                     let result = Some(IR::IO(IO::Http {
                                         req_template: req_template.clone(),
                                         group_by: group_by.clone(),
-                                        dl_id: Some(DataLoaderId::new(http_data_loaders.len())),
+                                        // two equal mutations are still two calls, data loader
+                                        // would merge them into one
+                                        dl_id: (!is_mutation || group_by.is_some())
+                                            .then_some(DataLoaderId::new(http_data_loaders.len())),
                                         hook: hook.clone(),
                                         is_list,
                                         dedupe,
-- 
2.43.0


From 05506613fae8627bf99e444f267014c84a706a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:43 +0000
Subject: [PATCH 07/65] fix: a constant response with any protected field isn't
 cached for everyone

---
 src/core/jit/transform/check_protected.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/core/jit/transform/check_protected.rs b/src/core/jit/transform/check_protected.rs
index c2c86a8..da00978 100644
--- a/src/core/jit/transform/check_protected.rs
+++ b/src/core/jit/transform/check_protected.rs
@@ -14,7 +14,7 @@ impl<A> CheckProtected<A> {
     }
 }
 
-/// Checks if the IR will always evaluate to a Protected Value
+/// Checks if evaluating the IR may require authorization
 pub fn is_protected(ir: &IR) -> bool {
     match ir {
         IR::Dynamic(_) => false,
@@ -25,7 +25,7 @@ pub fn is_protected(ir: &IR) -> bool {
         IR::Protect(_, _) => true,
         IR::Map(map) => is_protected(&map.input),
         IR::Pipe(ir, ir1) => is_protected(ir) || is_protected(ir1),
-        IR::Merge(vec) => vec.iter().all(is_protected),
+        IR::Merge(vec) => vec.iter().any(is_protected),
         IR::Discriminate(_, ir) => is_protected(ir),
         IR::Entity(hash_map) => hash_map.values().any(is_protected),
         IR::Service(_) => false,
@@ -37,9 +37,10 @@ impl<A> Transform for CheckProtected<A> {
     type Error = Infallible;
 
     fn transform(&self, mut plan: Self::Value) -> Valid<Self::Value, Self::Error> {
-        plan.is_protected = plan.iter_dfs().all(|field| match field.ir {
+        // a single protected field makes the whole response protected
+        plan.is_protected = plan.iter_dfs().any(|field| match field.ir {
             Some(ref ir) => is_protected(ir),
-            None => true,
+            None => false,
         });
 
         Valid::succeed(plan)
-- 
2.43.0


From aba76b6d05704840835e8de9e073a1486103276a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:04 +0000
Subject: [PATCH 08/65] fix: an interface's fields are protected like those of
 the types that implement it

---
 src/core/blueprint/operators/protected.rs | 97 +++++++++++++++--------
 1 file changed, 64 insertions(+), 33 deletions(-)

diff --git a/src/core/blueprint/operators/protected.rs b/src/core/blueprint/operators/protected.rs
index 6f80a44..6c79a71 100644
--- a/src/core/blueprint/operators/protected.rs
+++ b/src/core/blueprint/operators/protected.rs
@@ -1,10 +1,46 @@
 use tailcall_valid::{Valid, Validator};
 
 use crate::core::blueprint::{Auth, BlueprintError, FieldDefinition, Provider};
-use crate::core::config::{self, ConfigModule, Field};
+use crate::core::config::{self, ConfigModule, Field, Protected};
 use crate::core::ir::model::IR;
 use crate::core::try_fold::TryFold;
 
+/// Ids of the providers that are listed in the directives
+fn provider_ids<'a>(directives: impl IntoIterator<Item = &'a Option<Protected>>) -> Vec<String> {
+    directives
+        .into_iter()
+        .flatten()
+        .flat_map(|protected| protected.id.iter().flatten().cloned())
+        .collect()
+}
+
+/// A field of an interface is resolved from the data of the types that implement
+/// the interface, so everything that protects the field there protects it here.
+/// Returns provider ids for every such protection.
+fn implementations_protection(
+    config: &ConfigModule,
+    type_name: &str,
+    field_name: &str,
+) -> Vec<Vec<String>> {
+    if !config.extensions().has_auth() {
+        return vec![];
+    }
+
+    config
+        .interfaces_types_map()
+        .get(type_name)
+        .into_iter()
+        .flatten()
+        .filter_map(|name| config.find_type(name))
+        .filter_map(|type_| {
+            let field = type_.fields.get(field_name)?;
+
+            (type_.protected.is_some() || field.protected.is_some())
+                .then(|| provider_ids([&type_.protected, &field.protected]))
+        })
+        .collect()
+}
+
 pub fn update_protected<'a>(
     type_name: &'a str,
 ) -> TryFold<
@@ -14,7 +50,9 @@ pub fn update_protected<'a>(
     BlueprintError,
 > {
     TryFold::<(&ConfigModule, &Field, &config::Type, &'a str), FieldDefinition, BlueprintError>::new(
-        |(config, field, type_, _), mut b_field| {
+        |(config, field, type_, field_name), mut b_field| {
+            let mut protections = implementations_protection(config, type_name, field_name);
+
             if field.protected.is_some() // check the field itself has marked as protected
                 || type_.protected.is_some() // check the type that contains current field
                 || config // check that output type of the field is protected
@@ -22,6 +60,10 @@ pub fn update_protected<'a>(
                     .and_then(|type_| type_.protected.as_ref())
                     .is_some()
             {
+                protections.push(provider_ids([&type_.protected, &field.protected]));
+            }
+
+            if !protections.is_empty() {
                 if config.input_types().contains(type_name) {
                     return Valid::fail(BlueprintError::InputTypesCannotBeProtected);
                 }
@@ -38,38 +80,27 @@ pub fn update_protected<'a>(
 
                 // FIXME: add trace information in the error
 
-                let mut protection = Vec::new();
-
-                protection.extend(
-                    type_
-                        .protected
-                        .clone()
-                        .and_then(|protect| protect.id)
-                        .unwrap_or_default(),
-                );
-
-                protection.extend(
-                    field
-                        .protected
-                        .clone()
-                        .and_then(|protect| protect.id)
-                        .unwrap_or_default(),
-                );
-
-                Valid::from_iter(protection.iter(), |id| {
-                    if let Some(provider) = providers.get(id) {
-                        Valid::succeed(Auth::Provider(provider.clone()))
-                    } else {
-                        Valid::fail(BlueprintError::AuthProviderNotFound(id.clone()))
-                    }
+                Valid::from_iter(protections, |ids| {
+                    Valid::from_iter(ids, |id| {
+                        if let Some(provider) = providers.get(&id) {
+                            Valid::succeed(Auth::Provider(provider.clone()))
+                        } else {
+                            Valid::fail(BlueprintError::AuthProviderNotFound(id))
+                        }
+                    })
+                    .map(|provider| {
+                        provider
+                            .into_iter()
+                            .reduce(|left, right| left.and(right))
+                            // If no protection is defined, use all providers
+                            .or_else(|| Auth::from_config(config))
+                    })
                 })
-                .map(|provider| {
-                    let mut auth = provider.into_iter().reduce(|left, right| left.and(right));
-
-                    // If no protection is defined, use all providers
-                    if auth.is_none() {
-                        auth = Auth::from_config(config);
-                    }
+                .map(|auth| {
+                    let auth = auth
+                        .into_iter()
+                        .flatten()
+                        .reduce(|left, right| left.and(right));
 
                     if let Some(auth) = auth {
                         b_field.resolver = match &b_field.resolver {
-- 
2.43.0


From f8effc7bd4c4dd3e53f1a2c33cc71b9fd01de17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:23 +0000
Subject: [PATCH 09/65] fix: don't panic on request bodies that aren't valid
 UTF-8

---
 src/core/http/request_handler.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/http/request_handler.rs b/src/core/http/request_handler.rs
index 562dc57..27dcc94 100644
--- a/src/core/http/request_handler.rs
+++ b/src/core/http/request_handler.rs
@@ -113,7 +113,7 @@ pub async fn graphql_request<T: DeserializeOwned + GraphQLRequestLike>(
         Err(err) => {
             tracing::error!(
                 "Failed to parse request: {}",
-                String::from_utf8(bytes.to_vec()).unwrap()
+                String::from_utf8_lossy(&bytes)
             );
 
             let mut response = async_graphql::Response::default();
-- 
2.43.0


From 6477ed0935e202ca11d77a35234d046f72de587a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:16 +0000
Subject: [PATCH 10/65] fix: requests of a batch are different operations when
 deduplicating

---
 src/core/async_graphql_hyper.rs  | 33 ++++++++++++++++++++------------
 src/core/jit/graphql_executor.rs | 11 ++++++++---
 2 files changed, 29 insertions(+), 15 deletions(-)

diff --git a/src/core/async_graphql_hyper.rs b/src/core/async_graphql_hyper.rs
index 5518ea5..bd30c71 100644
--- a/src/core/async_graphql_hyper.rs
+++ b/src/core/async_graphql_hyper.rs
@@ -16,6 +16,25 @@ use super::jit::{BatchResponse as JITBatchResponse, JITExecutor};
 #[derive(PartialEq, Eq, Clone, Hash, Debug)]
 pub struct OperationId(u64);
 
+impl OperationId {
+    /// Identifies a single request of the batch that has this id
+    pub fn of_request(&self, request: &async_graphql::Request) -> Self {
+        let mut hasher = TailcallHasher::default();
+        self.hash(&mut hasher);
+        hash_request(request, &mut hasher);
+        OperationId(hasher.finish())
+    }
+}
+
+fn hash_request<H: Hasher>(request: &async_graphql::Request, state: &mut H) {
+    request.query.hash(state);
+    request.operation_name.hash(state);
+    for (name, value) in request.variables.iter() {
+        name.hash(state);
+        value.to_string().hash(state);
+    }
+}
+
 #[async_trait::async_trait]
 pub trait GraphQLRequestLike: Hash + Send {
     fn data<D: Any + Clone + Send + Sync>(self, data: D) -> Self;
@@ -60,12 +79,7 @@ impl Hash for GraphQLBatchRequest {
     // one.
     fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
         for request in self.0.iter() {
-            request.query.hash(state);
-            request.operation_name.hash(state);
-            for (name, value) in request.variables.iter() {
-                name.hash(state);
-                value.to_string().hash(state);
-            }
+            hash_request(request, state);
         }
     }
 }
@@ -101,12 +115,7 @@ pub struct GraphQLRequest(pub async_graphql::Request);
 impl GraphQLRequest {}
 impl Hash for GraphQLRequest {
     fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
-        self.0.query.hash(state);
-        self.0.operation_name.hash(state);
-        for (name, value) in self.0.variables.iter() {
-            name.hash(state);
-            value.to_string().hash(state);
-        }
+        hash_request(&self.0, state);
     }
 }
 #[async_trait::async_trait]
diff --git a/src/core/jit/graphql_executor.rs b/src/core/jit/graphql_executor.rs
index f23d8cd..b7b88d3 100644
--- a/src/core/jit/graphql_executor.rs
+++ b/src/core/jit/graphql_executor.rs
@@ -144,9 +144,14 @@ impl JITExecutor {
         match batch_request {
             BatchRequest::Single(request) => BatchResponse::Single(self.execute(request).await),
             BatchRequest::Batch(requests) => {
-                let futs = FuturesOrdered::from_iter(
-                    requests.into_iter().map(|request| self.execute(request)),
-                );
+                let futs = FuturesOrdered::from_iter(requests.into_iter().map(|request| {
+                    // the requests of a batch are different operations
+                    let executor = Self {
+                        operation_id: self.operation_id.of_request(&request),
+                        ..self.clone()
+                    };
+                    async move { executor.execute(request).await }
+                }));
                 let responses = futs.collect::<Vec<_>>().await;
                 BatchResponse::Batch(responses)
             }
-- 
2.43.0


From d8ece7d2c35cb1a5dff812fae6ca2af8e0789a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:23 +0000
Subject: [PATCH 11/65] fix: use the whole template of a query parameter, not
 its first segment only

---
 src/core/http/request_template.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/core/http/request_template.rs b/src/core/http/request_template.rs
index 1c57f14..76e713f 100644
--- a/src/core/http/request_template.rs
+++ b/src/core/http/request_template.rs
@@ -6,7 +6,7 @@ use http::header::{HeaderMap, HeaderValue};
 use tailcall_hasher::TailcallHasher;
 use url::Url;
 
-use super::query_encoder::QueryEncoder;
+use super::query_encoder::{convert_value, QueryEncoder};
 use crate::core::config::Encoding;
 use crate::core::endpoint::Endpoint;
 use crate::core::has_headers::HasHeaders;
@@ -302,7 +302,17 @@ impl<'a, A: PathValue> Eval<'a> for ValueStringEval<A> {
                 ))),
                 Segment::Expression(parts) => in_value.raw_value(parts),
             })
-            .next() // Return the first value that is found
+            // a template of several segments is the text of all of them
+            .reduce(|a, b| {
+                ValueString::String(Cow::Owned(format!("{}{}", to_text(&a), to_text(&b))))
+            })
+    }
+}
+
+fn to_text(value: &ValueString) -> String {
+    match value {
+        ValueString::Value(value) => convert_value(value).unwrap_or_default(),
+        ValueString::String(value) => value.to_string(),
     }
 }
 
-- 
2.43.0


From f89d6a7a137debdd729149d7fc8b16a23e3eef7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:16 +0000
Subject: [PATCH 12/65] fix: escape values in query parameters of upstream
 requests

---
 src/core/http/request_template.rs | 49 +++++++++++++++++++++++++++----
 1 file changed, 43 insertions(+), 6 deletions(-)

diff --git a/src/core/http/request_template.rs b/src/core/http/request_template.rs
index 76e713f..a1f55b5 100644
--- a/src/core/http/request_template.rs
+++ b/src/core/http/request_template.rs
@@ -64,11 +64,13 @@ impl RequestTemplate {
             }
         });
 
-        let base_qp = url
-            .query_pairs()
-            .filter_map(|(k, v)| if v.is_empty() { None } else { Some((k, v)) });
-
-        let qp_string = base_qp.map(|(k, v)| format!("{}={}", k, v));
+        // the parameters of the url itself, still encoded, without the empty ones
+        let qp_string = url
+            .query()
+            .unwrap_or_default()
+            .split('&')
+            .filter(|pair| pair.split_once('=').is_some_and(|(_, v)| !v.is_empty()))
+            .map(|pair| pair.to_string());
         let qp_string = qp_string.chain(extra_qp).fold("".to_string(), |str, item| {
             if str.is_empty() {
                 item
@@ -300,7 +302,7 @@ impl<'a, A: PathValue> Eval<'a> for ValueStringEval<A> {
                 Segment::Literal(text) => Some(ValueString::Value(Cow::Owned(
                     async_graphql::Value::String(text.to_owned()),
                 ))),
-                Segment::Expression(parts) => in_value.raw_value(parts),
+                Segment::Expression(parts) => in_value.raw_value(parts).map(escape_query_value),
             })
             // a template of several segments is the text of all of them
             .reduce(|a, b| {
@@ -309,6 +311,41 @@ impl<'a, A: PathValue> Eval<'a> for ValueStringEval<A> {
     }
 }
 
+/// Escapes the characters that have a meaning in a query string, so that a
+/// value stays the value of its own parameter.
+fn escape_query_value(value: ValueString) -> ValueString {
+    fn escape(text: &str) -> String {
+        text.replace('%', "%25")
+            .replace('&', "%26")
+            .replace('+', "%2B")
+            .replace('#', "%23")
+    }
+    fn escape_strings(value: &async_graphql::Value) -> Option<async_graphql::Value> {
+        match value {
+            async_graphql::Value::String(text) if text.contains(['%', '&', '+', '#']) => {
+                Some(async_graphql::Value::String(escape(text)))
+            }
+            async_graphql::Value::List(list) => Some(async_graphql::Value::List(
+                list.iter()
+                    .map(|value| escape_strings(value).unwrap_or_else(|| value.clone()))
+                    .collect(),
+            )),
+            _ => None,
+        }
+    }
+
+    match value {
+        ValueString::Value(value) => match escape_strings(&value) {
+            Some(escaped) => ValueString::Value(Cow::Owned(escaped)),
+            None => ValueString::Value(value),
+        },
+        // environment and configuration variables may be escaped already
+        ValueString::String(text) => ValueString::String(Cow::Owned(
+            text.replace('&', "%26").replace('#', "%23"),
+        )),
+    }
+}
+
 fn to_text(value: &ValueString) -> String {
     match value {
         ValueString::Value(value) => convert_value(value).unwrap_or_default(),
-- 
2.43.0


From 04015ba692e2d4e307d09bc586c694e595ee5c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:29 +0000
Subject: [PATCH 13/65] fix: keep the endpoints of every operation link

---
 src/core/config/reader.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/config/reader.rs b/src/core/config/reader.rs
index 5240e65..dd8e5a8 100644
--- a/src/core/config/reader.rs
+++ b/src/core/config/reader.rs
@@ -107,7 +107,9 @@ impl ConfigReader {
                     let source = self.resource_reader.read_file(path).await?;
                     let content = source.content;
 
-                    extensions.endpoint_set = EndpointSet::try_new(&content)?;
+                    extensions
+                        .endpoint_set
+                        .extend(EndpointSet::try_new(&content)?);
                 }
                 LinkType::Htpasswd => {
                     let source = self.resource_reader.read_file(path).await?;
-- 
2.43.0


From 819544d43cfdb8258079c638cc9bf45b11c19618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:29 +0000
Subject: [PATCH 14/65] fix: don't match requests that have less segments than
 the endpoint

---
 src/core/rest/path.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/rest/path.rs b/src/core/rest/path.rs
index 59fd608..9429fc9 100644
--- a/src/core/rest/path.rs
+++ b/src/core/rest/path.rs
@@ -53,7 +53,9 @@ impl Path {
     pub fn matches(&self, path: &str) -> Option<Variables> {
         let mut variables = Variables::default();
         let mut req_segments = path.split('/').filter(|s| !s.is_empty());
-        for (segment, req_segment) in self.segments.iter().zip(&mut req_segments) {
+        for segment in self.segments.iter() {
+            // A request that has less segments than the pattern should not match
+            let req_segment = req_segments.next()?;
             match segment {
                 Segment::Literal(segment) => {
                     if segment != req_segment {
-- 
2.43.0


From 6ffd79996122a0059f30936186b01d4879275bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:29 +0000
Subject: [PATCH 15/65] fix: type of a query parameter is that of its variable,
 not of its key

---
 src/core/rest/query_params.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/rest/query_params.rs b/src/core/rest/query_params.rs
index 1fbe743..033ab56 100644
--- a/src/core/rest/query_params.rs
+++ b/src/core/rest/query_params.rs
@@ -24,7 +24,7 @@ impl QueryParams {
         let mut params = Vec::new();
         for (k, v) in map {
             let t = TypedVariable::try_from(
-                q.get(&k).ok_or(Error::UndefinedQueryParam(k.to_string()))?,
+                q.get(&v).ok_or(Error::UndefinedQueryParam(v.to_string()))?,
                 &v,
             )?;
             params.push((k, t));
-- 
2.43.0


From f8ccb2f3725f8bd25cfe3094e0b74d3a190dcb6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:29 +0000
Subject: [PATCH 16/65] fix: pass the query string to rest endpoints and answer
 bad requests

---
 src/core/http/request_handler.rs | 37 +++++++++++++++++++++++++++++---
 1 file changed, 34 insertions(+), 3 deletions(-)

diff --git a/src/core/http/request_handler.rs b/src/core/http/request_handler.rs
index 27dcc94..fd7baad 100644
--- a/src/core/http/request_handler.rs
+++ b/src/core/http/request_handler.rs
@@ -7,7 +7,7 @@ use async_graphql::ServerError;
 use hyper::header::{self, HeaderValue, CONTENT_TYPE};
 use hyper::http::request::Parts;
 use hyper::http::Method;
-use hyper::{Body, HeaderMap, Request, Response, StatusCode};
+use hyper::{Body, HeaderMap, Request, Response, StatusCode, Uri};
 use opentelemetry::trace::SpanKind;
 use opentelemetry_semantic_conventions::trace::{HTTP_REQUEST_METHOD, HTTP_ROUTE};
 use prometheus::{Encoder, ProtobufEncoder, TextEncoder, TEXT_FORMAT};
@@ -54,6 +54,16 @@ fn not_found() -> Result<Response<Body>> {
         .body(Body::empty())?)
 }
 
+fn bad_request(message: String) -> Result<Response<Body>> {
+    let mut response = async_graphql::Response::default();
+    response.errors = vec![ServerError::new(message, None)];
+
+    Ok(Response::builder()
+        .status(StatusCode::BAD_REQUEST)
+        .header(CONTENT_TYPE, "application/json")
+        .body(Body::from(serde_json::to_string(&response)?))?)
+}
+
 fn create_request_context(req: &Request<Body>, app_ctx: &AppContext) -> RequestContext {
     let allowed_headers =
         create_allowed_headers(req.headers(), &app_ctx.blueprint.upstream.allowed_headers);
@@ -246,12 +256,30 @@ async fn handle_request_with_cors<T: DeserializeOwned + GraphQLRequestLike>(
     }
 }
 
+/// Removes the leading `API_URL_PREFIX`, keeping the rest of the path and the
+/// query. `None` if the path isn't below the prefix.
+fn strip_api_prefix(uri: &Uri) -> Option<Uri> {
+    let path = uri.path().strip_prefix(API_URL_PREFIX)?;
+    if !path.is_empty() && !path.starts_with('/') {
+        return None;
+    }
+    let path = if path.is_empty() { "/" } else { path };
+
+    match uri.query() {
+        Some(query) => format!("{path}?{query}").parse().ok(),
+        None => path.parse().ok(),
+    }
+}
+
 async fn handle_rest_apis(
     mut request: Request<Body>,
     app_ctx: Arc<AppContext>,
     req_counter: &mut RequestCounter,
 ) -> Result<Response<Body>> {
-    *request.uri_mut() = request.uri().path().replace(API_URL_PREFIX, "").parse()?;
+    let Some(uri) = strip_api_prefix(request.uri()) else {
+        return not_found();
+    };
+    *request.uri_mut() = uri;
     let req_ctx = Arc::new(create_request_context(&request, app_ctx.as_ref()));
     if let Some(p_request) = app_ctx.endpoints.matches(&request) {
         let http_route = format!("{API_URL_PREFIX}{}", p_request.path.as_str());
@@ -264,7 +292,10 @@ async fn handle_rest_apis(
             { HTTP_ROUTE } = http_route
         );
         return async {
-            let graphql_request = p_request.into_request(request).await?;
+            let graphql_request = match p_request.into_request(request).await {
+                Ok(request) => request,
+                Err(err) => return bad_request(err.to_string()),
+            };
             let mut response = graphql_request
                 .data(req_ctx.clone())
                 .execute(&app_ctx.schema)
-- 
2.43.0


From 9a20525341384a836729d2b6c722978ab5660896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:19 +0000
Subject: [PATCH 17/65] fix: an upstream response with no-store must not give
 the response a max-age

---
 src/core/http/request_context.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/http/request_context.rs b/src/core/http/request_context.rs
index 23cd4be..338b6dc 100644
--- a/src/core/http/request_context.rs
+++ b/src/core/http/request_context.rs
@@ -94,7 +94,7 @@ impl RequestContext {
             self.set_min_max_age(max_age.as_secs() as i32);
         }
         self.set_cache_visibility(&cache_policy.cachability);
-        if Some(Cachability::NoCache) == cache_policy.cachability {
+        if Some(Cachability::NoCache) == cache_policy.cachability || cache_policy.no_store {
             self.set_min_max_age(-1);
         }
     }
-- 
2.43.0


From d4ca3b4f77c25db04db134e38eb61700c5851fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:39 +0000
Subject: [PATCH 18/65] fix: report the errors of a GraphQL upstream to
 everyone who shares its answer, and don't cache them

---
 src/core/app_context.rs          |  5 ++---
 src/core/http/request_context.rs |  6 +++---
 src/core/ir/eval.rs              | 19 +++++++++++--------
 src/core/ir/eval_http.rs         | 17 +++++++----------
 src/core/ir/eval_io.rs           | 16 ++++++++--------
 src/core/ir/model.rs             | 26 +++++++++++++++++++++++++-
 6 files changed, 56 insertions(+), 33 deletions(-)

diff --git a/src/core/app_context.rs b/src/core/app_context.rs
index fdb6c9a..b6cc6c5 100644
--- a/src/core/app_context.rs
+++ b/src/core/app_context.rs
@@ -1,7 +1,6 @@
 use std::sync::Arc;
 
 use async_graphql::dynamic::{self, DynamicRequest};
-use async_graphql_value::ConstValue;
 use dashmap::DashMap;
 
 use super::jit::AnyResponse;
@@ -12,7 +11,7 @@ use crate::core::graphql::GraphqlDataLoader;
 use crate::core::grpc;
 use crate::core::grpc::data_loader::GrpcDataLoader;
 use crate::core::http::{DataLoaderRequest, HttpDataLoader};
-use crate::core::ir::model::{DataLoaderId, IoId, IO, IR};
+use crate::core::ir::model::{DataLoaderId, IoId, IoValue, IO, IR};
 use crate::core::ir::Error;
 use crate::core::jit::{OPHash, OperationPlan};
 use crate::core::rest::{Checked, EndpointSet};
@@ -26,7 +25,7 @@ pub struct AppContext {
     pub gql_data_loaders: Arc<Vec<DataLoader<DataLoaderRequest, GraphqlDataLoader>>>,
     pub grpc_data_loaders: Arc<Vec<DataLoader<grpc::DataLoaderRequest, GrpcDataLoader>>>,
     pub endpoints: EndpointSet<Checked>,
-    pub dedupe_handler: Arc<DedupeResult<IoId, ConstValue, Error>>,
+    pub dedupe_handler: Arc<DedupeResult<IoId, IoValue, Error>>,
     pub dedupe_operation_handler: DedupeResult<OperationId, AnyResponse<Vec<u8>>, Error>,
     pub operation_plans: DashMap<OPHash, OperationPlan<async_graphql_value::Value>>,
     pub const_execution_cache: DashMap<OPHash, AnyResponse<Vec<u8>>>,
diff --git a/src/core/http/request_context.rs b/src/core/http/request_context.rs
index 338b6dc..d193f11 100644
--- a/src/core/http/request_context.rs
+++ b/src/core/http/request_context.rs
@@ -13,7 +13,7 @@ use crate::core::data_loader::{DataLoader, DedupeResult};
 use crate::core::graphql::GraphqlDataLoader;
 use crate::core::grpc::data_loader::GrpcDataLoader;
 use crate::core::http::{DataLoaderRequest, HttpDataLoader};
-use crate::core::ir::model::IoId;
+use crate::core::ir::model::{IoId, IoValue};
 use crate::core::ir::Error;
 use crate::core::runtime::TargetRuntime;
 use crate::core::{cache, grpc};
@@ -33,8 +33,8 @@ pub struct RequestContext {
     pub min_max_age: Arc<Mutex<Option<i32>>>,
     pub cache_public: Arc<Mutex<Option<bool>>>,
     pub runtime: TargetRuntime,
-    pub cache: DedupeResult<IoId, ConstValue, Error>,
-    pub dedupe_handler: Arc<DedupeResult<IoId, ConstValue, Error>>,
+    pub cache: DedupeResult<IoId, IoValue, Error>,
+    pub dedupe_handler: Arc<DedupeResult<IoId, IoValue, Error>>,
 }
 
 impl RequestContext {
diff --git a/src/core/ir/eval.rs b/src/core/ir/eval.rs
index e7b0a8c..7519ef5 100644
--- a/src/core/ir/eval.rs
+++ b/src/core/ir/eval.rs
@@ -43,7 +43,7 @@ impl IR {
 
                     expr.eval(ctx).await
                 }
-                IR::IO(io) => eval_io(io, ctx).await,
+                IR::IO(io) => Ok(eval_io(io, ctx).await?.report(ctx)),
                 IR::Cache(Cache { max_age, io }) => {
                     let io = io.deref();
                     let key = io.cache_key(ctx);
@@ -52,15 +52,18 @@ impl IR {
                             Ok(val)
                         } else {
                             let val = eval_io(io, ctx).await?;
-                            ctx.request_ctx
-                                .runtime
-                                .cache
-                                .set(key, val.clone(), max_age.to_owned())
-                                .await?;
-                            Ok(val)
+                            // what the upstream failed to give is not worth to be remembered
+                            if val.errors.is_empty() {
+                                ctx.request_ctx
+                                    .runtime
+                                    .cache
+                                    .set(key, val.value.clone(), max_age.to_owned())
+                                    .await?;
+                            }
+                            Ok(val.report(ctx))
                         }
                     } else {
-                        eval_io(io, ctx).await
+                        Ok(eval_io(io, ctx).await?.report(ctx))
                     }
                 }
                 IR::Map(Map { input, map }) => {
diff --git a/src/core/ir/eval_http.rs b/src/core/ir/eval_http.rs
index d863472..25b6474 100644
--- a/src/core/ir/eval_http.rs
+++ b/src/core/ir/eval_http.rs
@@ -4,7 +4,7 @@ use async_graphql::from_value;
 use reqwest::Request;
 use tailcall_valid::Validator;
 
-use super::model::DataLoaderId;
+use super::model::{DataLoaderId, IoValue};
 use super::request::DynamicRequest;
 use super::{EvalContext, ResolverContextLike};
 use crate::core::data_loader::{DataLoader, Loader};
@@ -264,21 +264,18 @@ pub async fn execute_grpc_request_with_dl<
         .unwrap_or_default())
 }
 
-pub fn parse_graphql_response<Ctx: ResolverContextLike>(
-    ctx: &EvalContext<'_, Ctx>,
+pub fn parse_graphql_response(
     res: Response<async_graphql::Value>,
     field_name: &str,
-) -> Result<async_graphql::Value, Error> {
+) -> Result<IoValue, Error> {
     let res: async_graphql::Response =
         from_value(res.body).map_err(|err| Error::Deserialize(err.to_string()))?;
 
-    for error in res.errors {
-        ctx.add_error(error);
-    }
-
-    Ok(res
+    let value = res
         .data
         .get_key(field_name)
         .map(|v| v.to_owned())
-        .unwrap_or_default())
+        .unwrap_or_default();
+
+    Ok(IoValue { value, errors: res.errors })
 }
diff --git a/src/core/ir/eval_io.rs b/src/core/ir/eval_io.rs
index f9ef59b..2122bed 100644
--- a/src/core/ir/eval_io.rs
+++ b/src/core/ir/eval_io.rs
@@ -4,7 +4,7 @@ use super::eval_http::{
     execute_grpc_request_with_dl, execute_raw_grpc_request, execute_raw_request,
     execute_request_with_dl, parse_graphql_response, set_headers, EvalHttp, WorkerContext,
 };
-use super::model::{CacheKey, IO};
+use super::model::{CacheKey, IoValue, IO};
 use super::{DynamicRequest, EvalContext, ResolverContextLike};
 use crate::core::config::GraphQLOperationType;
 use crate::core::data_loader::DataLoader;
@@ -14,7 +14,7 @@ use crate::core::grpc::data_loader::GrpcDataLoader;
 use crate::core::http::DataLoaderRequest;
 use crate::core::ir::Error;
 
-pub async fn eval_io<Ctx>(io: &IO, ctx: &mut EvalContext<'_, Ctx>) -> Result<ConstValue, Error>
+pub async fn eval_io<Ctx>(io: &IO, ctx: &mut EvalContext<'_, Ctx>) -> Result<IoValue, Error>
 where
     Ctx: ResolverContextLike + Sync,
 {
@@ -40,7 +40,7 @@ where
     }
 }
 
-async fn eval_io_inner<Ctx>(io: &IO, ctx: &mut EvalContext<'_, Ctx>) -> Result<ConstValue, Error>
+async fn eval_io_inner<Ctx>(io: &IO, ctx: &mut EvalContext<'_, Ctx>) -> Result<IoValue, Error>
 where
     Ctx: ResolverContextLike + Sync,
 {
@@ -58,7 +58,7 @@ where
                 _ => eval_http.execute(request).await?,
             };
 
-            Ok(response.body)
+            Ok(response.body.into())
         }
         IO::GraphQL { req_template, field_name, dl_id, .. } => {
             let req = req_template.to_request(ctx)?;
@@ -74,7 +74,7 @@ where
             };
 
             set_headers(ctx, &res);
-            parse_graphql_response(ctx, res, field_name)
+            parse_graphql_response(res, field_name)
         }
         IO::Grpc { req_template, dl_id, hook, .. } => {
             let rendered = req_template.render(ctx)?;
@@ -98,7 +98,7 @@ where
             };
             set_headers(ctx, &res);
 
-            Ok(res.body)
+            Ok(res.body.into())
         }
         IO::Js { name } => {
             if let Some((worker, value)) = ctx
@@ -109,9 +109,9 @@ where
                 .zip(ctx.value().cloned())
             {
                 let val = worker.call(name, value).await?;
-                Ok(val.unwrap_or_default())
+                Ok(val.unwrap_or_default().into())
             } else {
-                Ok(ConstValue::Null)
+                Ok(ConstValue::Null.into())
             }
         }
     }
diff --git a/src/core/ir/model.rs b/src/core/ir/model.rs
index f4fbfdb..85e4d4e 100644
--- a/src/core/ir/model.rs
+++ b/src/core/ir/model.rs
@@ -2,7 +2,7 @@ use std::collections::HashMap;
 use std::fmt::Debug;
 use std::num::NonZeroU64;
 
-use async_graphql::Value;
+use async_graphql::{ServerError, Value};
 use strum_macros::Display;
 
 use super::discriminator::Discriminator;
@@ -107,6 +107,30 @@ impl IoId {
     }
 }
 
+/// The value of an IO along with the errors the upstream has reported beside
+/// it. Everyone who shares the value has to report the errors too.
+#[derive(Clone, Debug)]
+pub struct IoValue {
+    pub value: Value,
+    pub errors: Vec<ServerError>,
+}
+
+impl IoValue {
+    /// Adds the errors to the response and gives the value
+    pub fn report<Ctx: ResolverContextLike>(self, ctx: &EvalContext<'_, Ctx>) -> Value {
+        for error in self.errors {
+            ctx.add_error(error);
+        }
+        self.value
+    }
+}
+
+impl From<Value> for IoValue {
+    fn from(value: Value) -> Self {
+        Self { value, errors: vec![] }
+    }
+}
+
 pub trait CacheKey<Ctx> {
     fn cache_key(&self, ctx: &Ctx) -> Option<IoId>;
 }
-- 
2.43.0


From 109fb4e866a7fe16749f1dc5296c965bd3ad1369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:22 +0000
Subject: [PATCH 19/65] fix: read application/graphql bodies as they are

---
 src/core/http/request_handler.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/core/http/request_handler.rs b/src/core/http/request_handler.rs
index fd7baad..9470044 100644
--- a/src/core/http/request_handler.rs
+++ b/src/core/http/request_handler.rs
@@ -104,13 +104,10 @@ pub async fn graphql_request<T: DeserializeOwned + GraphQLRequestLike>(
     let bytes = if req.headers.get("content-type")
         == Some(&HeaderValue::from_str("application/graphql")?)
     {
-        let decoded_str = String::from_utf8_lossy(&bytes).clone();
-        let enriched_str = if decoded_str.contains("\\") {
-            format!(r#"{{"query": {} }}"#, decoded_str)
-        } else {
-            format!(r#"{{"query": {:?} }}"#, decoded_str)
-        };
-        hyper::body::to_bytes(enriched_str).await?
+        // the document, either as it is or as a JSON string
+        let query = serde_json::from_slice::<String>(&bytes)
+            .unwrap_or_else(|_| String::from_utf8_lossy(&bytes).into_owned());
+        serde_json::to_vec(&serde_json::json!({ "query": query }))?.into()
     } else {
         bytes
     };
-- 
2.43.0


From b57aca62d417d5e4e43233622eed21fc314068ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:22 +0000
Subject: [PATCH 20/65] fix: keep the quotes between mustache expressions

---
 src/core/mustache/parse.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/core/mustache/parse.rs b/src/core/mustache/parse.rs
index 6035f78..1e621fc 100644
--- a/src/core/mustache/parse.rs
+++ b/src/core/mustache/parse.rs
@@ -71,10 +71,19 @@ fn parse_segment(input: &str) -> IResult<&str, Vec<Segment>> {
 
 fn parse_mustache(input: &str) -> IResult<&str, Mustache> {
     map(parse_segment, |segments| {
-        Mustache::from(segments.into_iter().filter(|seg| match seg {
-            Segment::Literal(s) => (!s.is_empty()) && s != "\"",
-            _ => true,
-        }))
+        let mut segments: Vec<_> = segments
+            .into_iter()
+            .filter(|seg| !matches!(seg, Segment::Literal(s) if s.is_empty()))
+            .collect();
+        // a single quoted expression stands for the value itself
+        if let [Segment::Literal(start), Segment::Expression(_), Segment::Literal(end)] =
+            segments.as_slice()
+        {
+            if start == "\"" && end == "\"" {
+                segments = vec![segments.swap_remove(1)];
+            }
+        }
+        Mustache::from(segments)
     })(input)
 }
 
-- 
2.43.0


From 39cf72bdf257298b09c9ebbc8db0622de0debb97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:22 +0000
Subject: [PATCH 21/65] fix: keep line breaks and tabs in query parameters

---
 src/core/http/request_template.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/core/http/request_template.rs b/src/core/http/request_template.rs
index a1f55b5..9ab8030 100644
--- a/src/core/http/request_template.rs
+++ b/src/core/http/request_template.rs
@@ -319,10 +319,15 @@ fn escape_query_value(value: ValueString) -> ValueString {
             .replace('&', "%26")
             .replace('+', "%2B")
             .replace('#', "%23")
+            .replace('\n', "%0A")
+            .replace('\r', "%0D")
+            .replace('\t', "%09")
     }
     fn escape_strings(value: &async_graphql::Value) -> Option<async_graphql::Value> {
         match value {
-            async_graphql::Value::String(text) if text.contains(['%', '&', '+', '#']) => {
+            async_graphql::Value::String(text)
+                if text.contains(['%', '&', '+', '#', '\n', '\r', '\t']) =>
+            {
                 Some(async_graphql::Value::String(escape(text)))
             }
             async_graphql::Value::List(list) => Some(async_graphql::Value::List(
-- 
2.43.0


From 17f97c58a560eb1f07426eeb1d107145c3e3a684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:22 +0000
Subject: [PATCH 22/65] fix: group large integer ids of batched responses
 without loss of precision

---
 src/core/json/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/json/mod.rs b/src/core/json/mod.rs
index c1a11d6..3bc8900 100644
--- a/src/core/json/mod.rs
+++ b/src/core/json/mod.rs
@@ -40,10 +40,13 @@ fn group_by_key<'json, J: JsonLike<'json>>(
 ) -> HashMap<String, Vec<&'json J>> {
     let mut map: HashMap<String, Vec<&'json J>> = HashMap::new();
     for (key, value) in src {
-        // Need to handle number and string keys
+        // Need to handle number and string keys, integers of any size have to be
+        // kept as is, but not every integer can be represented with f64
         let key_str = key
             .as_str()
             .map(|a| a.to_string())
+            .or_else(|| key.as_i64().map(|a| a.to_string()))
+            .or_else(|| key.as_u64().map(|a| a.to_string()))
             .or_else(|| key.as_f64().map(|a| a.to_string()));
 
         if let Some(key) = key_str {
-- 
2.43.0


From 8477ade373961696050cbade192736e32a3facf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:22 +0000
Subject: [PATCH 23/65] fix: escape header, env and var strings in GraphQL
 arguments

---
 src/core/path.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/path.rs b/src/core/path.rs
index 006450d..def67d0 100644
--- a/src/core/path.rs
+++ b/src/core/path.rs
@@ -122,7 +122,7 @@ impl<Ctx: ResolverContextLike> PathGraphql for EvalContext<'_, Ctx> {
 
         self.to_raw_value(path).map(|value| match value {
             ValueString::Value(val) => val.to_string(),
-            ValueString::String(val) => format!(r#""{val}""#),
+            ValueString::String(val) => async_graphql::Value::String(val.into_owned()).to_string(),
         })
     }
 }
-- 
2.43.0


From 80409c053b187fce0396496ffa0a473460645670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:22 +0000
Subject: [PATCH 24/65] fix: send valid JSON to GraphQL upstreams whatever the
 arguments hold

---
 src/core/graphql/request_template.rs | 5 +++--
 src/core/ir/eval_context.rs          | 5 +++--
 src/core/jit/transform/graphql.rs    | 6 +++---
 src/core/json/mod.rs                 | 6 ++++++
 4 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/core/graphql/request_template.rs b/src/core/graphql/request_template.rs
index 0acc17d..f909832 100644
--- a/src/core/graphql/request_template.rs
+++ b/src/core/graphql/request_template.rs
@@ -14,6 +14,7 @@ use crate::core::helpers::headers::MustacheHeaders;
 use crate::core::http::Method::POST;
 use crate::core::ir::model::{CacheKey, IoId};
 use crate::core::ir::{GraphQLOperationContext, RelatedFields};
+use crate::core::json::escape_json;
 use crate::core::mustache::Mustache;
 use crate::core::path::{PathGraphql, PathString};
 
@@ -132,7 +133,7 @@ impl RequestTemplate {
                     if value.is_empty() {
                         None
                     } else {
-                        Some(format!(r#"{}: {}"#, k, value.escape_default()))
+                        Some(format!(r#"{}: {}"#, k, escape_json(&value)))
                     }
                 })
                 .collect::<Vec<_>>()
@@ -152,7 +153,7 @@ impl RequestTemplate {
                 let operation = operation.to_mut();
 
                 operation.push(' ');
-                operation.push_str(&directives.escape_default().to_string());
+                operation.push_str(&escape_json(&directives));
             }
         }
 
diff --git a/src/core/ir/eval_context.rs b/src/core/ir/eval_context.rs
index 89c03d8..c07e4b8 100644
--- a/src/core/ir/eval_context.rs
+++ b/src/core/ir/eval_context.rs
@@ -8,6 +8,7 @@ use http::header::HeaderMap;
 use super::{GraphQLOperationContext, RelatedFields, ResolverContextLike, SelectionField};
 use crate::core::document::print_directives;
 use crate::core::http::RequestContext;
+use crate::core::json::escape_json;
 
 // TODO: rename to ResolverContext
 #[derive(Clone)]
@@ -158,7 +159,7 @@ fn format_selection_field(
 
         if !directives.is_empty() {
             output.push(' ');
-            output.push_str(&directives.escape_default().to_string());
+            output.push_str(&escape_json(&directives));
         }
     }
 
@@ -183,7 +184,7 @@ fn format_selection_field_arguments(field: &SelectionField) -> Cow<'static, str>
         .collect::<Vec<_>>()
         .join(",");
 
-    Cow::Owned(format!("({})", args.escape_default()))
+    Cow::Owned(format!("({})", escape_json(&args)))
 }
 
 // TODO: this is the same code as src/json/json_like.rs::get_path
diff --git a/src/core/jit/transform/graphql.rs b/src/core/jit/transform/graphql.rs
index d15b9f3..ecd097b 100644
--- a/src/core/jit/transform/graphql.rs
+++ b/src/core/jit/transform/graphql.rs
@@ -9,7 +9,7 @@ use tailcall_valid::Valid;
 use crate::core::document::print_directives;
 use crate::core::ir::model::{IO, IR};
 use crate::core::jit::{Field, OperationPlan};
-use crate::core::json::JsonLikeOwned;
+use crate::core::json::{escape_json, JsonLikeOwned};
 use crate::core::{Mustache, Transform};
 
 #[derive(Default)]
@@ -130,7 +130,7 @@ fn format_selection_field<A: Display + JsonLikeOwned>(
 
         if !directives.is_empty() {
             output.push(' ');
-            output.push_str(&directives.escape_default().to_string());
+            output.push_str(&escape_json(&directives));
         }
     }
 
@@ -154,6 +154,6 @@ fn format_selection_field_arguments<A: Display>(field: &Field<A>) -> Cow<'static
     if arguments.is_empty() {
         Cow::Borrowed("")
     } else {
-        Cow::Owned(format!("({})", arguments.escape_default()))
+        Cow::Owned(format!("({})", escape_json(&arguments)))
     }
 }
diff --git a/src/core/json/mod.rs b/src/core/json/mod.rs
index 3bc8900..e8d07e4 100644
--- a/src/core/json/mod.rs
+++ b/src/core/json/mod.rs
@@ -35,6 +35,12 @@ pub fn gather_path_matches<'json, J: JsonLike<'json>>(
     vector
 }
 
+/// Escapes the text to be used as (part of) the content of JSON string
+pub fn escape_json(text: &str) -> String {
+    let json = serde_json::Value::from(text).to_string();
+    json[1..json.len() - 1].to_string()
+}
+
 fn group_by_key<'json, J: JsonLike<'json>>(
     src: Vec<(&'json J, &'json J)>,
 ) -> HashMap<String, Vec<&'json J>> {
-- 
2.43.0


From b4af2f7541e5fdbd717132f794df68fbea6cd178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:22 +0000
Subject: [PATCH 25/65] fix: keep values inside of the JSON strings of request
 bodies

---
 src/core/http/request_template.rs | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/core/http/request_template.rs b/src/core/http/request_template.rs
index 9ab8030..c1057ed 100644
--- a/src/core/http/request_template.rs
+++ b/src/core/http/request_template.rs
@@ -13,6 +13,7 @@ use crate::core::has_headers::HasHeaders;
 use crate::core::helpers::headers::MustacheHeaders;
 use crate::core::ir::model::{CacheKey, IoId};
 use crate::core::ir::DynamicRequest;
+use crate::core::json::escape_json;
 use crate::core::mustache::{Eval, Mustache, Segment};
 use crate::core::path::{PathString, PathValue, ValueString};
 
@@ -141,7 +142,7 @@ impl RequestTemplate {
                 Encoding::ApplicationXWwwFormUrlencoded => {
                     // TODO: this is a performance bottleneck
                     // We first encode everything to string and then back to form-urlencoded
-                    let body = body_path.render(ctx);
+                    let (body, _) = ExpressionValueEval::default().eval(body_path, ctx);
                     let form_data = match serde_json::from_str::<serde_json::Value>(&body) {
                         Ok(deserialized_data) => serde_urlencoded::to_string(deserialized_data)?,
                         Err(_) => body,
@@ -271,7 +272,10 @@ impl<Ctx: PathString + HasHeaders + PathValue> CacheKey<Ctx> for RequestTemplate
         }
 
         if let Some(body) = self.body_path.as_ref() {
-            body.render(ctx).hash(state)
+            ExpressionValueEval::default()
+                .eval(body, ctx)
+                .0
+                .hash(state)
         }
 
         let url = self.create_url(ctx).unwrap();
@@ -385,12 +389,30 @@ impl<'a, A: PathString> Eval<'a> for ExpressionValueEval<A> {
         // - This approach eliminates the need for repeated JSON parsing/serialization
         //   during the batching process, significantly improving performance
         let mut first_expression_value = None;
+        // values that are put inside of JSON string must stay there
+        let mut inside_string = false;
         for segment in mustache.segments().iter() {
             match segment {
-                Segment::Literal(text) => result.push_str(text),
+                Segment::Literal(text) => {
+                    let mut chars = text.chars();
+                    while let Some(c) = chars.next() {
+                        match c {
+                            '"' => inside_string = !inside_string,
+                            '\\' if inside_string => {
+                                chars.next();
+                            }
+                            _ => {}
+                        }
+                    }
+                    result.push_str(text)
+                }
                 Segment::Expression(parts) => {
                     if let Some(value) = in_value.path_string(parts) {
-                        result.push_str(value.as_ref());
+                        if inside_string {
+                            result.push_str(&escape_json(&value));
+                        } else {
+                            result.push_str(value.as_ref());
+                        }
                         if first_expression_value.is_none() {
                             first_expression_value = Some(value.into_owned());
                         }
-- 
2.43.0


From 7ef71fab62a63d7c23fb13cb27ade430ed8b6409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:22 +0000
Subject: [PATCH 26/65] fix: pass variables and template-like text in nested
 GraphQL arguments

---
 src/core/document.rs              | 7 ++++++-
 src/core/jit/model.rs             | 4 ++--
 src/core/jit/transform/graphql.rs | 9 ++++++---
 3 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/core/document.rs b/src/core/document.rs
index 933c72c..baee1db 100644
--- a/src/core/document.rs
+++ b/src/core/document.rs
@@ -80,6 +80,11 @@ fn get_formatted_docs(docs: Option<String>, indent: usize) -> String {
     formatted_docs
 }
 
+/// Prevents the content of GraphQL strings from being used as mustache template
+pub fn escape_template(value: &str) -> String {
+    value.replace("{{", "\\u007b\\u007b")
+}
+
 pub fn print_directives<'a, T>(directives: impl Iterator<Item = &'a T>) -> String
 where
     &'a T: Into<Directive<'a>> + 'a,
@@ -454,7 +459,7 @@ impl<'a, Input: JsonLikeOwned + Display> From<&'a JitDirective<Input>> for Direc
         let to_mustache = |s: &str| -> String {
             s.strip_prefix('$')
                 .map(|v| format!("{{{{{}}}}}", v))
-                .unwrap_or_else(|| s.to_string())
+                .unwrap_or_else(|| escape_template(s))
         };
         Self {
             name: Cow::Borrowed(value.name.as_str()),
diff --git a/src/core/jit/model.rs b/src/core/jit/model.rs
index edaee37..474c180 100644
--- a/src/core/jit/model.rs
+++ b/src/core/jit/model.rs
@@ -13,7 +13,7 @@ use super::Error;
 use crate::core::blueprint::Index;
 use crate::core::ir::model::IR;
 use crate::core::ir::TypedValue;
-use crate::core::json::{JsonLike, JsonLikeOwned};
+use crate::core::json::{escape_json, JsonLike, JsonLikeOwned};
 use crate::core::path::PathString;
 use crate::core::scalar::Scalar;
 
@@ -23,7 +23,7 @@ pub struct Variables<Value>(HashMap<String, Value>);
 impl<V: JsonLikeOwned + Display> PathString for Variables<V> {
     fn path_string<'a, T: AsRef<str>>(&'a self, path: &'a [T]) -> Option<Cow<'a, str>> {
         self.get(path[0].as_ref())
-            .map(|v| Cow::Owned(v.to_string()))
+            .map(|v| Cow::Owned(escape_json(&v.to_string())))
     }
 }
 
diff --git a/src/core/jit/transform/graphql.rs b/src/core/jit/transform/graphql.rs
index ecd097b..5923cc5 100644
--- a/src/core/jit/transform/graphql.rs
+++ b/src/core/jit/transform/graphql.rs
@@ -6,7 +6,7 @@ use std::marker::PhantomData;
 
 use tailcall_valid::Valid;
 
-use crate::core::document::print_directives;
+use crate::core::document::{escape_template, print_directives};
 use crate::core::ir::model::{IO, IR};
 use crate::core::jit::{Field, OperationPlan};
 use crate::core::json::{escape_json, JsonLikeOwned};
@@ -146,8 +146,11 @@ fn format_selection_field_arguments<A: Display>(field: &Field<A>) -> Cow<'static
     let arguments = field
         .args
         .iter()
-        .filter(|a| a.value.is_some())
-        .map(|arg| arg.to_string())
+        .filter_map(|arg| Some((&arg.name, arg.value.as_ref()?.to_string())))
+        .map(|(name, value)| match value.strip_prefix('$') {
+            Some(variable) => format!("{name}: {{{{{variable}}}}}"),
+            None => format!("{name}: {}", escape_template(&value)),
+        })
         .collect::<Vec<_>>()
         .join(",");
 
-- 
2.43.0


From 1657e4b9a40798da586fb0530e757e1038e58b64 Mon Sep 17 00:00:00 2001
From: sim <x@x>
Date: Fri, 20 Nov 2026 00:21:51 +0000
Subject: [PATCH 27/65] fix: apply fragments and merge selections the way the
 specification says

---
 src/core/blueprint/index.rs |   4 +
 src/core/jit/builder.rs     | 165 +++++++++++++++++++++++----
 src/core/jit/exec.rs        |   5 +
 src/core/jit/exec_const.rs  |   4 +
 src/core/jit/model.rs       | 118 ++++++++++++++-----
 src/core/jit/synth/synth.rs | 221 +++++++++++++++++++++---------------
 6 files changed, 372 insertions(+), 145 deletions(-)

diff --git a/src/core/blueprint/index.rs b/src/core/blueprint/index.rs
index 5fa09a9..9707844 100644
--- a/src/core/blueprint/index.rs
+++ b/src/core/blueprint/index.rs
@@ -69,6 +69,10 @@ impl Index {
         }
     }
 
+    pub fn type_is_object(&self, type_name: &str) -> bool {
+        matches!(self.map.get(type_name), Some((Definition::Object(_), _)))
+    }
+
     pub fn get_field(&self, type_name: &str, field_name: &str) -> Option<&QueryField> {
         self.map
             .get(type_name)
diff --git a/src/core/jit/builder.rs b/src/core/jit/builder.rs
index db3cfcf..ba4d933 100644
--- a/src/core/jit/builder.rs
+++ b/src/core/jit/builder.rs
@@ -1,4 +1,4 @@
-use std::collections::{HashMap, HashSet};
+use std::collections::HashMap;
 use std::ops::Deref;
 use std::sync::Arc;
 
@@ -9,7 +9,7 @@ use async_graphql::parser::types::{
 use async_graphql::Positioned;
 use async_graphql_value::Value;
 
-use super::model::{Directive as JitDirective, *};
+use super::model::{self, Directive as JitDirective, *};
 use super::BuildError;
 use crate::core::blueprint::{Blueprint, Index, QueryField};
 use crate::core::counter::{Count, Counter};
@@ -62,6 +62,16 @@ impl Conditions {
 
         (include, skip)
     }
+
+    fn into_conditions(self) -> Vec<model::Condition> {
+        let (include, skip) = self.into_variable_tuple();
+
+        include
+            .map(model::Condition::Include)
+            .into_iter()
+            .chain(skip.map(model::Condition::Skip))
+            .collect()
+    }
 }
 
 pub struct Builder<'a> {
@@ -132,11 +142,16 @@ impl<'a> Builder<'a> {
         parent_fragment: Option<&str>,
         selection: &SelectionSet,
         type_condition: &str,
+        object_type: Option<&str>,
         fragments: &HashMap<&str, &FragmentDefinition>,
     ) -> Vec<Field<Value>> {
         let mut fields = vec![];
-        let mut fragments_fields = vec![];
-        let mut visited = HashSet::new();
+        // the only type the value could be of if it's known
+        let object_type = object_type.or_else(|| {
+            self.index
+                .type_is_object(type_condition)
+                .then_some(type_condition)
+        });
 
         for selection in &selection.items {
             match &selection.node {
@@ -147,10 +162,6 @@ impl<'a> Builder<'a> {
                         .as_ref()
                         .map(|a| a.node.as_str())
                         .unwrap_or(field_name);
-                    if visited.contains(output_name) {
-                        continue;
-                    }
-                    visited.insert(output_name);
                     let conditions = self.include(&gql_field.directives);
 
                     // Skip fields based on GraphQL's skip/include conditions
@@ -216,6 +227,7 @@ impl<'a> Builder<'a> {
                             None,
                             &gql_field.selection_set.node,
                             type_of.name(),
+                            None,
                             fragments,
                         );
 
@@ -251,9 +263,11 @@ impl<'a> Builder<'a> {
                             pos: selection.pos.into(),
                             directives,
                             scalar,
+                            conditions: vec![],
+                            type_conditions: vec![],
                         };
 
-                        fields.push(field);
+                        Self::merge_field(&mut fields, field);
                     } else if field_name == "__typename" {
                         let typename_field = Field {
                             id: FieldId::new(self.field_id.next()),
@@ -271,47 +285,152 @@ impl<'a> Builder<'a> {
                             directives,
                             is_enum: false,
                             scalar: Some(scalar::Scalar::Empty),
+                            conditions: vec![],
+                            type_conditions: vec![],
                         };
 
-                        fields.push(typename_field);
+                        Self::merge_field(&mut fields, typename_field);
                     }
                 }
                 Selection::FragmentSpread(Positioned { node: fragment_spread, .. }) => {
+                    let conditions = self.include(&fragment_spread.directives);
+                    if conditions.is_const_skip() {
+                        continue;
+                    }
                     if let Some(fragment) =
                         fragments.get(fragment_spread.fragment_name.node.as_str())
                     {
-                        fragments_fields.extend(self.iter(
-                            Some(fragment.type_condition.node.on.node.as_str()),
+                        let type_of = fragment.type_condition.node.on.node.as_str();
+                        if !self.is_applicable(type_of, object_type) {
+                            continue;
+                        }
+                        let fragment_fields = self.iter(
+                            Some(type_of),
                             &fragment.selection_set.node,
-                            fragment.type_condition.node.on.node.as_str(),
+                            type_of,
+                            object_type,
                             fragments,
-                        ));
+                        );
+                        self.merge_fragment(
+                            &mut fields,
+                            fragment_fields,
+                            type_of,
+                            type_condition,
+                            object_type,
+                            conditions,
+                        );
                     }
                 }
                 Selection::InlineFragment(Positioned { node: fragment, .. }) => {
+                    let conditions = self.include(&fragment.directives);
+                    if conditions.is_const_skip() {
+                        continue;
+                    }
                     let type_of = fragment
                         .type_condition
                         .as_ref()
                         .map(|cond| cond.node.on.node.as_str())
                         .unwrap_or(type_condition);
-                    fragments_fields.extend(self.iter(
+                    if !self.is_applicable(type_of, object_type) {
+                        continue;
+                    }
+                    let fragment_fields = self.iter(
                         Some(type_of),
                         &fragment.selection_set.node,
                         type_of,
+                        object_type,
                         fragments,
-                    ));
+                    );
+                    self.merge_fragment(
+                        &mut fields,
+                        fragment_fields,
+                        type_of,
+                        type_condition,
+                        object_type,
+                        conditions,
+                    );
                 }
             }
         }
-        for field in fragments_fields {
-            if visited.contains(field.output_name.as_str()) {
-                continue;
-            }
-            fields.push(field);
-        }
         fields.sort_by(|a, b| a.id.cmp(&b.id));
         fields
     }
+
+    /// Adds a field to the selection. Selections of the same response key are
+    /// merged according to the [spec](https://spec.graphql.org/October2021/#sec-Field-Selection-Merging).
+    /// The fields selected on different types are kept apart since it's not
+    /// known yet which of them apply.
+    fn merge_field(fields: &mut Vec<Field<Value>>, mut field: Field<Value>) {
+        let Some(other) = fields.iter_mut().find(|other| {
+            other.output_name == field.output_name
+                && other.type_condition == field.type_condition
+                && other.type_conditions == field.type_conditions
+        }) else {
+            fields.push(field);
+            return;
+        };
+
+        let conditions = field.all_conditions();
+        let other_conditions = other.all_conditions();
+
+        // the field is selected if at least one of its selections is, while
+        // its children are selected only with their own parent
+        if conditions != other_conditions {
+            for child in &mut field.selection {
+                child.conditions.extend(conditions.iter().cloned());
+            }
+            for child in &mut other.selection {
+                child.conditions.extend(other_conditions.iter().cloned());
+            }
+            other.skip = None;
+            other.include = None;
+            other.conditions = if conditions.is_empty() || other_conditions.is_empty() {
+                vec![]
+            } else {
+                vec![model::Condition::Any(vec![other_conditions, conditions])]
+            };
+        }
+
+        for child in field.selection {
+            Self::merge_field(&mut other.selection, child);
+        }
+    }
+
+    /// Checks that the fragment could be applied to the object
+    fn is_applicable(&self, fragment_type: &str, object_type: Option<&str>) -> bool {
+        object_type.map_or(true, |object_type| {
+            self.index.is_type_implements(object_type, fragment_type)
+        })
+    }
+
+    /// Adds the fields of the fragment that is applied only on the conditions
+    fn merge_fragment(
+        &self,
+        fields: &mut Vec<Field<Value>>,
+        fragment_fields: Vec<Field<Value>>,
+        fragment_type: &str,
+        parent_type: &str,
+        object_type: Option<&str>,
+        conditions: Conditions,
+    ) {
+        let conditions = conditions.into_conditions();
+
+        for mut field in fragment_fields {
+            field.conditions.extend(conditions.iter().cloned());
+            // the check of the type that implements the other type covers both
+            if object_type.is_none()
+                && fragment_type != parent_type
+                && !field
+                    .type_conditions
+                    .iter()
+                    .any(|type_of| self.index.is_type_implements(type_of, fragment_type))
+            {
+                field.type_conditions.push(fragment_type.to_string());
+            }
+            Self::merge_field(fields, field);
+        }
+    }
+
     #[inline(always)]
     fn get_type(&self, ty: OperationType) -> Option<&str> {
         match ty {
@@ -361,7 +480,7 @@ impl<'a> Builder<'a> {
         let name = self
             .get_type(operation.ty)
             .ok_or(BuildError::RootOperationTypeNotDefined { operation: operation.ty })?;
-        let fields = self.iter(None, &operation.selection_set.node, name, &fragments);
+        let fields = self.iter(None, &operation.selection_set.node, name, None, &fragments);
 
         let is_introspection_query = operation.selection_set.node.items.iter().any(|f| {
             if let Selection::Field(Positioned { node: gql_field, .. }) = &f.node {
diff --git a/src/core/jit/exec.rs b/src/core/jit/exec.rs
index ea194d9..92162c1 100644
--- a/src/core/jit/exec.rs
+++ b/src/core/jit/exec.rs
@@ -127,6 +127,11 @@ where
         } else {
             let value = match ctx.value() {
                 Some(value) => value.map_ref(&mut |value| {
+                    // the field is selected on the other type in fragments on union/interface
+                    if !self.request.plan().field_is_part_of_value(field, value) {
+                        return Ok(Output::null());
+                    }
+
                     Ok(value
                         .get_key(&field.output_name)
                         .cloned()
diff --git a/src/core/jit/exec_const.rs b/src/core/jit/exec_const.rs
index 1606f05..9e24a01 100644
--- a/src/core/jit/exec_const.rs
+++ b/src/core/jit/exec_const.rs
@@ -187,6 +187,10 @@ impl IRExecutor for ConstValueExec<'_> {
                     }
                 })?)
             }
+            // the field is selected on the other type in fragments on union/interface
+            Some(value) if !self.plan.field_is_part_of_value(field, value) => {
+                Ok(Self::Output::default())
+            }
             _ => Ok(self.call(ctx, ir).await?),
         }
     }
diff --git a/src/core/jit/model.rs b/src/core/jit/model.rs
index 474c180..1451021 100644
--- a/src/core/jit/model.rs
+++ b/src/core/jit/model.rs
@@ -68,26 +68,32 @@ impl<V> FromIterator<(String, V)> for Variables<V> {
 impl<Input> Field<Input> {
     #[inline(always)]
     pub fn skip<'json, Value: JsonLike<'json>>(&self, variables: &Variables<Value>) -> bool {
-        let eval =
-            |variable_option: Option<&Variable>, variables: &Variables<Value>, default: bool| {
-                variable_option
-                    .map(|a| a.as_str())
-                    .and_then(|name| variables.get(name))
-                    .and_then(|value| value.as_bool())
-                    .unwrap_or(default)
-            };
-        let skip = eval(self.skip.as_ref(), variables, false);
-        let include = eval(self.include.as_ref(), variables, true);
-
-        skip == include
-    }
-
-    /// Returns the __typename of the value related to this field
-    pub fn value_type<'a, Output>(&'a self, value: &'a Output) -> &'a str
-    where
-        Output: TypedValue<'a>,
-    {
-        value.get_type_name().unwrap_or(self.type_of.name())
+        let eval = |name: &Variable, default: bool| {
+            variables
+                .get(name.as_str())
+                .and_then(|value| value.as_bool())
+                .unwrap_or(default)
+        };
+        let is_skipped = |name: &Variable| eval(name, false);
+        let is_included = |name: &Variable| eval(name, true);
+
+        self.skip.as_ref().is_some_and(is_skipped)
+            || !self.include.as_ref().map_or(true, is_included)
+            || !self
+                .conditions
+                .iter()
+                .all(|condition| condition.holds(&is_skipped, &is_included))
+    }
+
+    /// All the conditions the selection of the field depends on
+    pub fn all_conditions(&self) -> Vec<Condition> {
+        self.skip
+            .iter()
+            .cloned()
+            .map(Condition::Skip)
+            .chain(self.include.iter().cloned().map(Condition::Include))
+            .chain(self.conditions.iter().cloned())
+            .collect()
     }
 
     pub fn iter(&self) -> impl Iterator<Item = &Field<Input>> {
@@ -185,6 +191,12 @@ pub struct Field<Input> {
     pub type_condition: Option<String>,
     pub skip: Option<Variable>,
     pub include: Option<Variable>,
+    /// Additional conditions the field is selected by, e.g. the conditions of
+    /// the fragments
+    pub conditions: Vec<Condition>,
+    /// Types the value should have to contain the field. It's empty in case
+    /// it's known from the schema that the field is always a part of the value
+    pub type_conditions: Vec<String>,
     pub args: Vec<Arg<Input>>,
     pub selection: Vec<Field<Input>>,
     pub parent_fragment: Option<String>,
@@ -229,6 +241,32 @@ impl Variable {
     }
 }
 
+/// The condition from `@skip` and `@include` directives
+#[derive(Clone, Debug, PartialEq)]
+pub enum Condition {
+    Skip(Variable),
+    Include(Variable),
+    /// At least one set of the conditions should hold
+    Any(Vec<Vec<Condition>>),
+}
+
+impl Condition {
+    fn holds(
+        &self,
+        is_skipped: &impl Fn(&Variable) -> bool,
+        is_included: &impl Fn(&Variable) -> bool,
+    ) -> bool {
+        match self {
+            Condition::Skip(name) => !is_skipped(name),
+            Condition::Include(name) => is_included(name),
+            Condition::Any(sets) => sets.iter().any(|set| {
+                set.iter()
+                    .all(|condition| condition.holds(is_skipped, is_included))
+            }),
+        }
+    }
+}
+
 impl<Input> Field<Input> {
     pub fn try_map<Output, Error>(
         self,
@@ -249,6 +287,8 @@ impl<Input> Field<Input> {
             parent_fragment: None,
             skip: self.skip,
             include: self.include,
+            conditions: self.conditions,
+            type_conditions: self.type_conditions,
             pos: self.pos,
             args: self
                 .args
@@ -426,18 +466,38 @@ impl<Input> OperationPlan<Input> {
     where
         Output: TypedValue<'a>,
     {
-        match &field.type_condition {
-            Some(type_condition) => match value.get_type_name() {
-                Some(value_type) => self.index.is_type_implements(value_type, type_condition),
-                // if there is no __typename in value that means there is a bug in implementation
-                // such we haven't resolved the concrete type or type shouldn't be
-                // inferred here at all and we should just use the field
-                None => true,
-            },
-            // if there is no type_condition restriction then use this field
+        match value.get_type_name() {
+            Some(value_type) => field
+                .type_conditions
+                .iter()
+                .all(|type_of| self.index.is_type_implements(value_type, type_of)),
+            // if there is no __typename in value that means there is a bug in implementation
+            // such we haven't resolved the concrete type or type shouldn't be
+            // inferred here at all and we should just use the field
             None => true,
         }
     }
+
+    /// Returns the __typename of the value related to the field
+    pub fn field_value_type<'a, Output>(
+        &'a self,
+        field: &'a Field<Input>,
+        value: &'a Output,
+    ) -> &'a str
+    where
+        Output: TypedValue<'a>,
+    {
+        let type_name = field.type_of.name();
+
+        // the __typename in the value could be used only to tell the types of
+        // union/interface apart
+        if self.index.type_is_object(type_name) {
+            type_name
+        } else {
+            value.get_type_name().unwrap_or(type_name)
+        }
+    }
+
     /// returns true if plan is dedupable
     pub fn can_dedupe(&self) -> bool {
         self.is_query() && (self.is_dedupe || self.is_const || self.min_cache_ttl.is_some())
diff --git a/src/core/jit/synth/synth.rs b/src/core/jit/synth/synth.rs
index 221fa95..38f5a08 100644
--- a/src/core/jit/synth/synth.rs
+++ b/src/core/jit/synth/synth.rs
@@ -4,6 +4,7 @@ use crate::core::jit::model::{Field, OperationPlan, Variables};
 use crate::core::jit::store::{DataPath, Store};
 use crate::core::jit::{Error, PathSegment, Positioned, ValidationError};
 use crate::core::json::{JsonLike, JsonObjectLike};
+use crate::core::Type;
 
 type ValueStore<Value> = Store<Result<Value, Positioned<Error>>>;
 
@@ -38,28 +39,65 @@ where
     where
         Output: JsonLike<'a>,
     {
-        let mut data = Output::JsonObject::with_capacity(self.plan.selection.len());
         let mut path = Vec::new();
         let root_name = self.plan.root_name();
+        let selection = self
+            .plan
+            .selection
+            .iter()
+            .filter(|field| self.include(field))
+            .collect::<Vec<_>>();
+
+        // TODO: in case of error set `child.output_name` to null
+        // and append error to response error array
+        self.iter_selection(&selection, |child| {
+            self.iter(child, None, &DataPath::new(), &mut path, Some(root_name))
+        })
+    }
 
-        for child in self.plan.selection.iter() {
-            if !self.include(child) {
+    /// Creates an object from the selection that contains only the fields that
+    /// are applicable to the value. The fields with the same response key are
+    /// passed to the `resolve` together since their selections should be merged
+    #[inline(always)]
+    fn iter_selection<Output>(
+        &'a self,
+        selection: &[&'a Field<Value>],
+        mut resolve: impl FnMut(&[&'a Field<Value>]) -> Result<Output, Positioned<Error>>,
+    ) -> Result<Output, Positioned<Error>>
+    where
+        Output: JsonLike<'a>,
+    {
+        let mut fields: Vec<(&'a str, Output)> = Vec::with_capacity(selection.len());
+
+        for (i, child) in selection.iter().enumerate() {
+            let name = child.output_name.as_str();
+            if fields.iter().any(|(other, _)| *other == name) {
                 continue;
             }
-            // TODO: in case of error set `child.output_name` to null
-            // and append error to response error array
-            let val = self.iter(child, None, &DataPath::new(), &mut path, Some(root_name))?;
-            data.insert_key(&child.output_name, val);
+
+            let rest = &selection[i + 1..];
+            let value = if rest.iter().any(|other| other.output_name == name) {
+                let nodes = selection[i..]
+                    .iter()
+                    .filter(|other| other.output_name == name)
+                    .copied()
+                    .collect::<Vec<_>>();
+                resolve(&nodes)?
+            } else {
+                resolve(&selection[i..=i])?
+            };
+
+            fields.push((name, value));
         }
 
-        Ok(Output::object(data))
+        Ok(Output::object(Output::JsonObject::from_vec(fields)))
     }
 
     #[allow(clippy::too_many_arguments)]
     #[inline(always)]
     fn iter<Output>(
         &'a self,
-        node: &'a Field<Value>,
+        nodes: &[&'a Field<Value>],
         value: Option<&'a Value>,
         data_path: &DataPath,
         path: &mut Vec<PathSegment<'a>>,
@@ -68,40 +106,54 @@ where
     where
         Output: JsonLike<'a>,
     {
+        let node = nodes[0];
         path.push(PathSegment::Field(Cow::Borrowed(&node.output_name)));
 
-        let result = match self.store.get(&node.id) {
-            Some(value) => {
-                let mut value = value.as_ref().map_err(Clone::clone)?;
-
-                for index in data_path.as_slice() {
-                    if let Some(arr) = value.as_array() {
-                        value = &arr[*index];
-                    } else {
-                        return Ok(Output::null());
-                    }
-                }
+        let value = match self.stored_value(nodes, data_path)? {
+            Some(stored) => Some(stored),
+            None => value,
+        };
 
-                if node.type_of.is_list() != value.as_array().is_some() {
-                    return self.node_nullable_guard(node, path, None);
-                }
-                self.iter_inner(node, value, data_path, path)
-            }
-            None => match value {
-                Some(result) => self.iter_inner(node, result, data_path, path),
-                None => self.node_nullable_guard(node, path, root_name),
-            },
+        let result = match value {
+            Some(value) => self.iter_inner(nodes, &node.type_of, value, data_path, path),
+            None => self.node_nullable_guard(node, &node.type_of, path, root_name),
         };
 
         path.pop();
         result
     }
 
+    /// Provides the value that has been resolved for the field
+    #[inline(always)]
+    fn stored_value(
+        &'a self,
+        nodes: &[&'a Field<Value>],
+        data_path: &DataPath,
+    ) -> Result<Option<&'a Value>, Positioned<Error>> {
+        let mut stored = None;
+
+        for node in nodes {
+            if let Some(value) = self.store.get(&node.id) {
+                let value = value.as_ref().map_err(Clone::clone)?;
+                stored.get_or_insert(value);
+            }
+        }
+
+        // the value of the nested field has the same shape as the values of its parents
+        Ok(stored.and_then(|value| {
+            data_path
+                .as_slice()
+                .iter()
+                .try_fold(value, |value, index| value.as_array()?.get(*index))
+        }))
+    }
+
     /// This guard ensures to return Null value only if node type permits it, in
     /// case it does not it throws an Error
     fn node_nullable_guard<Output>(
         &'a self,
         node: &'a Field<Value>,
+        type_of: &Type,
         path: &[PathSegment],
         root_name: Option<&'a str>,
     ) -> Result<Output, Positioned<Error>>
@@ -114,7 +166,7 @@ where
             }
         }
         // according to GraphQL spec https://spec.graphql.org/October2021/#sec-Handling-Field-Errors
-        if node.type_of.is_nullable() {
+        if type_of.is_nullable() {
             Ok(Output::null())
         } else {
             Err(ValidationError::ValueRequired.into())
@@ -126,7 +178,8 @@ where
     #[inline(always)]
     fn iter_inner<Output>(
         &'a self,
-        node: &'a Field<Value>,
+        nodes: &[&'a Field<Value>],
+        type_of: &'a Type,
         value: &'a Value,
         data_path: &DataPath,
         path: &mut Vec<PathSegment<'a>>,
@@ -134,25 +187,30 @@ where
     where
         Output: JsonLike<'a>,
     {
-        // skip the field if field is not included in schema
-        if !self.include(node) {
-            return Ok(Output::null());
+        let node = nodes[0];
+
+        if value.is_null() {
+            return self.node_nullable_guard(node, type_of, path, None);
         }
 
-        let eval_result = if value.is_null() {
-            // check the nullability of this type unwrapping list modifier
-            let is_nullable = match &node.type_of {
-                crate::core::Type::Named { non_null, .. } => !*non_null,
-                crate::core::Type::List { of_type, .. } => of_type.is_nullable(),
+        if let Type::List { of_type, .. } = type_of {
+            let Some(arr) = value.as_array() else {
+                return self.node_nullable_guard(node, type_of, path, None);
             };
-            if is_nullable {
-                Ok(Output::null())
-            } else {
-                Err(ValidationError::ValueRequired.into())
+
+            let mut ans = Vec::with_capacity(arr.len());
+            for (i, val) in arr.iter().enumerate() {
+                path.push(PathSegment::Index(i));
+                let val =
+                    self.iter_inner(nodes, of_type, val, &data_path.clone().with_index(i), path)?;
+                path.pop();
+                ans.push(val);
             }
-        } else if node.scalar.is_some() {
-            let scalar = node.scalar.as_ref().unwrap();
 
+            return Ok(Output::array(ans));
+        }
+
+        let eval_result = if let Some(scalar) = node.scalar.as_ref() {
             // TODO: add validation for input type as well. But input types are not checked
             // by async_graphql anyway so it should be done after replacing
             // default engine with JIT
@@ -165,18 +223,9 @@ where
                 )
             }
         } else if node.is_enum {
-            let check_valid_enum = |value: &Value| -> bool {
-                value
-                    .as_str()
-                    .map(|v| self.plan.field_validate_enum_value(node, v))
-                    .unwrap_or(false)
-            };
-
-            let is_valid_enum = if let Some(vec) = value.as_array() {
-                vec.iter().all(check_valid_enum)
-            } else {
-                check_valid_enum(value)
-            };
+            let is_valid_enum = value
+                .as_str()
+                .is_some_and(|v| self.plan.field_validate_enum_value(node, v));
 
             if is_valid_enum {
                 Ok(Output::clone_from(value))
@@ -186,43 +235,29 @@ where
                         .into(),
                 )
             }
-        } else {
-            match (value.as_array(), value.as_object()) {
-                (_, Some(obj)) => {
-                    let mut fields = Vec::with_capacity(node.selection.len());
-
-                    for child in node
-                        .iter()
-                        .filter(|field| self.plan.field_is_part_of_value(field, value))
-                    {
-                        // all checks for skip must occur in `iter_inner`
-                        // and include be checked before calling `iter` or recursing.
-                        if self.include(child) {
-                            let value = if child.name == "__typename" {
-                                Output::string(node.value_type(value).into())
-                            } else {
-                                let val = obj.get_key(child.name.as_str());
-                                self.iter(child, val, data_path, path, None)?
-                            };
-                            fields.push((child.output_name.as_str(), value));
-                        }
-                    }
-
-                    Ok(Output::object(Output::JsonObject::from_vec(fields)))
-                }
-                (Some(arr), _) => {
-                    let mut ans = Vec::with_capacity(arr.len());
-                    for (i, val) in arr.iter().enumerate() {
-                        path.push(PathSegment::Index(i));
-                        let val =
-                            self.iter_inner(node, val, &data_path.clone().with_index(i), path)?;
-                        path.pop();
-                        ans.push(val);
-                    }
-                    Ok(Output::array(ans))
+        } else if let Some(obj) = value.as_object() {
+            let selection = nodes
+                .iter()
+                .flat_map(|node| node.iter())
+                // all checks for skip must occur before calling `iter` or recursing.
+                .filter(|field| {
+                    self.include(field) && self.plan.field_is_part_of_value(field, value)
+                })
+                .collect::<Vec<_>>();
+
+            return self.iter_selection(&selection, |children| {
+                let child = children[0];
+                if child.name == "__typename" {
+                    Ok(Output::string(
+                        self.plan.field_value_type(node, value).into(),
+                    ))
+                } else {
+                    let val = obj.get_key(child.name.as_str());
+                    self.iter(children, val, data_path, path, None)
                 }
-                _ => Ok(Output::clone_from(value)),
-            }
+            });
+        } else {
+            return self.node_nullable_guard(node, type_of, path, None);
         };
 
         eval_result.map_err(|e| self.to_location_error(e, node, path))
-- 
2.43.0


From c228edf7718f14e8e8fa034931845449017114d6 Mon Sep 17 00:00:00 2001
From: sim <x@x>
Date: Fri, 20 Nov 2026 00:21:51 +0000
Subject: [PATCH 28/65] fix: read values of aliased objects by the name of the
 field

---
 src/core/jit/exec.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/jit/exec.rs b/src/core/jit/exec.rs
index 92162c1..9486980 100644
--- a/src/core/jit/exec.rs
+++ b/src/core/jit/exec.rs
@@ -133,7 +133,7 @@ where
                     }
 
                     Ok(value
-                        .get_key(&field.output_name)
+                        .get_key(&field.name)
                         .cloned()
                         // in case there is no value we still put some dumb empty value anyway
                         // to force execution of the nested fields even when parent object is not
-- 
2.43.0


From dd6119c03fd3d825a9f1a63b03b2c115730c7136 Mon Sep 17 00:00:00 2001
From: sim <x@x>
Date: Fri, 20 Nov 2026 00:21:51 +0000
Subject: [PATCH 29/65] fix: execute introspection only for the introspection
 fields

---
 src/core/jit/builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/jit/builder.rs b/src/core/jit/builder.rs
index ba4d933..508ef5f 100644
--- a/src/core/jit/builder.rs
+++ b/src/core/jit/builder.rs
@@ -485,7 +485,7 @@ impl<'a> Builder<'a> {
         let is_introspection_query = operation.selection_set.node.items.iter().any(|f| {
             if let Selection::Field(Positioned { node: gql_field, .. }) = &f.node {
                 let query = gql_field.name.node.as_str();
-                query.contains("__schema") || query.contains("__type")
+                query == "__schema" || query == "__type"
             } else {
                 false
             }
-- 
2.43.0


From cd08bf682ef87a9907dbdfde5fe4fa48464b848e Mon Sep 17 00:00:00 2001
From: sim <x@x>
Date: Fri, 20 Nov 2026 00:21:51 +0000
Subject: [PATCH 30/65] fix: check the given __typename of unions and
 interfaces

---
 src/core/ir/discriminator.rs                  | 26 ++++++++++++++++++-
 .../ir/discriminator/keyed_discriminator.rs   |  4 +--
 .../discriminator/type_field_discriminator.rs |  4 +--
 3 files changed, 29 insertions(+), 5 deletions(-)

diff --git a/src/core/ir/discriminator.rs b/src/core/ir/discriminator.rs
index f1d8834..6786536 100644
--- a/src/core/ir/discriminator.rs
+++ b/src/core/ir/discriminator.rs
@@ -68,7 +68,17 @@ impl Discriminator {
     /// object.
     pub fn resolve_type(&self, value: Value) -> Result<Value> {
         // if typename is already present we return it
-        if value.get_type_name().is_some() {
+        if let Some(type_name) = value.get_type_name() {
+            let types = self.types();
+            if !types.contains(type_name) {
+                bail!(
+                    "The type `{}` is not in the list of acceptable types {:?} of `{}`",
+                    type_name,
+                    types,
+                    self.type_name()
+                )
+            }
+
             return Ok(value);
         }
 
@@ -91,6 +101,20 @@ impl Discriminator {
             _ => bail!("Discriminator can only determine the types of arrays or objects but a different type.")
         }
     }
+
+    fn types(&self) -> &BTreeSet<String> {
+        match self {
+            Discriminator::Keyed(discriminator) => &discriminator.types,
+            Discriminator::TypeField(discriminator) => &discriminator.types,
+        }
+    }
+
+    fn type_name(&self) -> &str {
+        match self {
+            Discriminator::Keyed(discriminator) => &discriminator.type_name,
+            Discriminator::TypeField(discriminator) => &discriminator.type_name,
+        }
+    }
 }
 
 pub trait TypedValue<'a> {
diff --git a/src/core/ir/discriminator/keyed_discriminator.rs b/src/core/ir/discriminator/keyed_discriminator.rs
index b39b732..343d5a0 100644
--- a/src/core/ir/discriminator/keyed_discriminator.rs
+++ b/src/core/ir/discriminator/keyed_discriminator.rs
@@ -17,9 +17,9 @@ use super::TypedValue;
 #[derive(Debug, Clone, PartialEq)]
 pub struct KeyedDiscriminator {
     /// List of all types that are members of the union or interface.
-    types: BTreeSet<String>,
+    pub(super) types: BTreeSet<String>,
     /// The name of `KeyedDiscriminator` is used for error reporting
-    type_name: String,
+    pub(super) type_name: String,
 }
 
 impl KeyedDiscriminator {
diff --git a/src/core/ir/discriminator/type_field_discriminator.rs b/src/core/ir/discriminator/type_field_discriminator.rs
index ae5a8af..f673fd7 100644
--- a/src/core/ir/discriminator/type_field_discriminator.rs
+++ b/src/core/ir/discriminator/type_field_discriminator.rs
@@ -20,9 +20,9 @@ pub struct TypeFieldDiscriminator {
     /// The field name that contains the type
     typename_field: String,
     /// List of all types that are members of the union or interface
-    types: BTreeSet<String>,
+    pub(super) types: BTreeSet<String>,
     /// The name of TypeFieldDiscriminator is used for error reporting
-    type_name: String,
+    pub(super) type_name: String,
 }
 
 impl TypeFieldDiscriminator {
-- 
2.43.0


From 619f3375bf539ec7fd6b2f5ca67d50fd598211d3 Mon Sep 17 00:00:00 2001
From: sim <x@x>
Date: Fri, 20 Nov 2026 00:21:51 +0000
Subject: [PATCH 31/65] fix: use defaults of variables and omit nullable
 variables that are not set

---
 src/core/jit/builder.rs                  | 17 +++++-
 src/core/jit/exec_const.rs               | 11 ++--
 src/core/jit/model.rs                    | 11 ++++
 src/core/jit/transform/input_resolver.rs | 67 ++++++++++++++++++++++++
 4 files changed, 99 insertions(+), 7 deletions(-)

diff --git a/src/core/jit/builder.rs b/src/core/jit/builder.rs
index 508ef5f..dcfc7ae 100644
--- a/src/core/jit/builder.rs
+++ b/src/core/jit/builder.rs
@@ -491,7 +491,7 @@ impl<'a> Builder<'a> {
             }
         });
 
-        let plan = OperationPlan::new(
+        let mut plan = OperationPlan::new(
             name,
             fields,
             operation.ty,
@@ -499,6 +499,21 @@ impl<'a> Builder<'a> {
             is_introspection_query,
             Some(self.index.get_interfaces()),
         );
+        plan.variables = operation
+            .variable_definitions
+            .iter()
+            .map(|definition| {
+                let definition = &definition.node;
+                VariableDefinition {
+                    name: definition.name.node.to_string(),
+                    is_nullable: definition.var_type.node.nullable,
+                    default_value: definition
+                        .default_value
+                        .as_ref()
+                        .map(|value| value.node.clone()),
+                }
+            })
+            .collect();
         Ok(plan)
     }
 }
diff --git a/src/core/jit/exec_const.rs b/src/core/jit/exec_const.rs
index 9e24a01..0a59b7e 100644
--- a/src/core/jit/exec_const.rs
+++ b/src/core/jit/exec_const.rs
@@ -35,7 +35,7 @@ impl ConstValueExecutor {
     }
 
     pub async fn execute<'a>(
-        self,
+        mut self,
         app_ctx: &Arc<AppContext>,
         req_ctx: &RequestContext,
         request: Request<ConstValue>,
@@ -56,7 +56,9 @@ impl ConstValueExecutor {
 
         let is_introspection_query =
             req_ctx.server.get_enable_introspection() && self.plan.is_introspection_query;
-        let variables = &request.variables;
+        let mut variables = request.variables.clone();
+        self.plan.resolve_missing_variables(&mut variables);
+        let variables = &variables;
 
         // Attempt to skip unnecessary fields
         let Ok(plan) = transform::Skip::new(variables)
@@ -71,9 +73,6 @@ impl ConstValueExecutor {
         };
 
         // Attempt to replace variables in the plan with the actual values
-        // TODO: operation from [ExecutableDocument] could contain definitions for
-        // default values of arguments. That info should be passed to
-        // [InputResolver] to resolve defaults properly
         let result = InputResolver::new(plan).resolve_input(variables);
 
         let plan = match result {
@@ -91,7 +90,7 @@ impl ConstValueExecutor {
 
         let exec = ConstValueExec::new(&plan, req_ctx);
         // PERF: remove this particular clone?
-        let vars = request.variables.clone();
+        let vars = variables.clone();
         let exe = Executor::new(&plan, exec);
         let store = exe.store().await;
         let synth = Synth::new(&plan, store, vars);
diff --git a/src/core/jit/model.rs b/src/core/jit/model.rs
index 1451021..7a527ac 100644
--- a/src/core/jit/model.rs
+++ b/src/core/jit/model.rs
@@ -358,6 +358,15 @@ pub struct OperationPlan<Input> {
     pub selection: Vec<Field<Input>>,
     pub before: Option<IR>,
     pub interfaces: Option<HashSet<String>>,
+    pub variables: Vec<VariableDefinition>,
+}
+
+/// Definition of the variable in the operation
+#[derive(Debug, Clone)]
+pub struct VariableDefinition {
+    pub name: String,
+    pub is_nullable: bool,
+    pub default_value: Option<ConstValue>,
 }
 
 impl<Input> OperationPlan<Input> {
@@ -383,6 +392,7 @@ impl<Input> OperationPlan<Input> {
             min_cache_ttl: self.min_cache_ttl,
             before: self.before,
             interfaces: None,
+            variables: self.variables,
         })
     }
 }
@@ -412,6 +422,7 @@ impl<Input> OperationPlan<Input> {
             min_cache_ttl: None,
             before: Default::default(),
             interfaces,
+            variables: Vec::new(),
         }
     }
 
diff --git a/src/core/jit/transform/input_resolver.rs b/src/core/jit/transform/input_resolver.rs
index 3787719..f861cf5 100644
--- a/src/core/jit/transform/input_resolver.rs
+++ b/src/core/jit/transform/input_resolver.rs
@@ -87,6 +87,7 @@ where
             interfaces: None,
             selection,
             before: self.plan.before,
+            variables: self.plan.variables,
         })
     }
 
@@ -214,3 +215,69 @@ where
         Ok(Some(value))
     }
 }
+
+impl OperationPlan<Value> {
+    /// Resolves variables that are not provided by the request based on their
+    /// [definitions](https://spec.graphql.org/October2021/#sec-Coercing-Variable-Values):
+    /// - variable with default value is set to that value
+    /// - nullable variable without default is considered as not provided i.e.
+    ///   the arguments and the fields of input objects that refer to it are
+    ///   omitted
+    pub fn resolve_missing_variables(&mut self, variables: &mut Variables<ConstValue>) {
+        let mut omitted = Vec::new();
+
+        for definition in &self.variables {
+            if variables.get(&definition.name).is_some() {
+                continue;
+            }
+
+            if let Some(value) = &definition.default_value {
+                variables.insert(definition.name.clone(), value.clone());
+            } else if definition.is_nullable {
+                omitted.push(definition.name.as_str());
+            }
+        }
+
+        if !omitted.is_empty() {
+            omit_from_fields(&mut self.selection, &omitted);
+        }
+    }
+}
+
+fn omit_from_fields(fields: &mut [Field<Value>], omitted: &[&str]) {
+    for field in fields {
+        for arg in &mut field.args {
+            arg.value = arg
+                .value
+                .take()
+                .and_then(|value| omit_from_value(value, omitted));
+        }
+        for directive in &mut field.directives {
+            directive.arguments = std::mem::take(&mut directive.arguments)
+                .into_iter()
+                .filter_map(|(name, value)| Some((name, omit_from_value(value, omitted)?)))
+                .collect();
+        }
+        omit_from_fields(&mut field.selection, omitted);
+    }
+}
+
+/// Returns None when the value itself is omitted
+fn omit_from_value(value: Value, omitted: &[&str]) -> Option<Value> {
+    match value {
+        Value::Variable(name) if omitted.contains(&name.as_str()) => None,
+        Value::List(items) => Some(Value::List(
+            items
+                .into_iter()
+                .map(|item| omit_from_value(item, omitted).unwrap_or(Value::Null))
+                .collect(),
+        )),
+        Value::Object(fields) => Some(Value::Object(
+            fields
+                .into_iter()
+                .filter_map(|(name, value)| Some((name, omit_from_value(value, omitted)?)))
+                .collect(),
+        )),
+        value => Some(value),
+    }
+}
-- 
2.43.0


From ce835356bbeb9a86da05200023c46ff4b61e5a7c Mon Sep 17 00:00:00 2001
From: sim <x@x>
Date: Fri, 20 Nov 2026 01:01:38 +0000
Subject: [PATCH 32/65] fix: find a cached source again by the key it was
 stored under

---
 src/core/resource_reader.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/core/resource_reader.rs b/src/core/resource_reader.rs
index 5d0aed4..70e838f 100644
--- a/src/core/resource_reader.rs
+++ b/src/core/resource_reader.rs
@@ -183,8 +183,8 @@ impl Reader for Direct {
 #[derive(Clone)]
 pub struct Cached {
     direct: Direct,
-    // Cache file content, path -> content
-    cache: Arc<Mutex<HashMap<String, String>>>,
+    // Cache file content, hash of the resource -> content
+    cache: Arc<Mutex<HashMap<u64, String>>>,
 }
 
 impl Cached {
@@ -200,12 +200,13 @@ impl Reader for Cached {
         // check cache
         let resource: Resource = file.into();
         let file_path = resource.to_string();
+        let cache_key = resource.calculate_hash();
         let content = self
             .cache
             .as_ref()
             .lock()
             .unwrap()
-            .get(&resource.calculate_hash().to_string())
+            .get(&cache_key)
             .map(|v| v.to_owned());
         let content = if let Some(content) = content {
             content.to_owned()
@@ -215,7 +216,7 @@ impl Reader for Cached {
                 .as_ref()
                 .lock()
                 .unwrap()
-                .insert(file_path.to_owned(), file_read.content.clone());
+                .insert(cache_key, file_read.content.clone());
             file_read.content
         };
 
-- 
2.43.0


From 7c94afcf3def2284849a7ee7c2eeb48232eb4c0b Mon Sep 17 00:00:00 2001
From: sim <x@x>
Date: Fri, 20 Nov 2026 01:01:38 +0000
Subject: [PATCH 33/65] fix: keep the order of the endpoints of one operation
 file

---
 src/core/rest/endpoint.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/core/rest/endpoint.rs b/src/core/rest/endpoint.rs
index 2234a9f..2cd7e85 100644
--- a/src/core/rest/endpoint.rs
+++ b/src/core/rest/endpoint.rs
@@ -41,7 +41,12 @@ impl Endpoint {
         let doc = async_graphql::parser::parse_query(operations)?;
         let mut endpoints = Vec::new();
 
-        for (_, op) in doc.operations.iter() {
+        // named operations come out of a hash map: keep the order of the document,
+        // since the first endpoint that matches a request is the one that handles it
+        let mut operations = doc.operations.iter().collect::<Vec<_>>();
+        operations.sort_by_key(|(_, op)| op.pos);
+
+        for (_, op) in operations {
             let type_map = TypeMap::new(
                 op.node
                     .variable_definitions
-- 
2.43.0


From 15d3a3a74b4a89e286620e012cde8f7e9c22761d Mon Sep 17 00:00:00 2001
From: sim <x@x>
Date: Fri, 20 Nov 2026 01:11:41 +0000
Subject: [PATCH 34/65] fix: batch grpc requests only with those of the same
 url and headers

---
 src/core/grpc/data_loader.rs         | 34 +++++++++++++++++++++++++++-
 src/core/grpc/data_loader_request.rs |  4 ++++
 2 files changed, 37 insertions(+), 1 deletion(-)

diff --git a/src/core/grpc/data_loader.rs b/src/core/grpc/data_loader.rs
index 38dac54..aba5005 100644
--- a/src/core/grpc/data_loader.rs
+++ b/src/core/grpc/data_loader.rs
@@ -1,4 +1,4 @@
-use std::collections::HashMap;
+use std::collections::{BTreeMap, HashMap};
 use std::sync::Arc;
 use std::time::Duration;
 
@@ -32,6 +32,25 @@ impl GrpcDataLoader {
             .max_batch_size(batch.max_size.unwrap_or_default())
     }
 
+    /// Requests can be merged into a single upstream call only if they agree on
+    /// the url and on the headers that are part of the key. Otherwise, the call
+    /// made for the first of them would stand in for the others.
+    fn split_by_target(keys: &[DataLoaderRequest]) -> Vec<Vec<DataLoaderRequest>> {
+        let mut targets = BTreeMap::<_, Vec<_>>::new();
+        for key in keys {
+            let headers = key
+                .batch_headers()
+                .iter()
+                .map(|name| key.template.headers.get(name))
+                .collect::<Vec<_>>();
+            targets
+                .entry((&key.template.url, headers))
+                .or_default()
+                .push(key.clone());
+        }
+        targets.into_values().collect()
+    }
+
     async fn load_dedupe_only(
         &self,
         keys: &[DataLoaderRequest],
@@ -108,6 +127,19 @@ impl Loader<DataLoaderRequest> for GrpcDataLoader {
         keys: &[DataLoaderRequest],
     ) -> async_graphql::Result<HashMap<DataLoaderRequest, Self::Value>, Self::Error> {
         if let Some(group_by) = &self.group_by {
+            let targets = Self::split_by_target(keys);
+            if targets.len() > 1 {
+                let results = join_all(targets.iter().map(|keys| self.load(keys))).await;
+
+                #[allow(clippy::mutable_key_type)]
+                let mut hashmap = HashMap::with_capacity(keys.len());
+                for result in results {
+                    hashmap.extend(result?);
+                }
+
+                return Ok(hashmap);
+            }
+
             self.load_with_group_by(group_by, keys)
                 .await
                 .map_err(Arc::new)
diff --git a/src/core/grpc/data_loader_request.rs b/src/core/grpc/data_loader_request.rs
index 7ee4bba..6c4e275 100644
--- a/src/core/grpc/data_loader_request.rs
+++ b/src/core/grpc/data_loader_request.rs
@@ -45,6 +45,10 @@ impl DataLoaderRequest {
         Self { template, batch_headers }
     }
 
+    pub fn batch_headers(&self) -> &BTreeSet<String> {
+        &self.batch_headers
+    }
+
     pub fn to_request(&self) -> Result<reqwest::Request> {
         self.template.to_request()
     }
-- 
2.43.0


From 56c075d42ee003de5050649489e9563c86442b27 Mon Sep 17 00:00:00 2001
From: sim <x@x>
Date: Fri, 20 Nov 2026 01:11:41 +0000
Subject: [PATCH 35/65] fix: keep values inside of the JSON strings of grpc
 bodies

---
 src/core/grpc/request_template.rs |  6 ++++--
 src/core/http/mod.rs              |  1 +
 src/core/http/request_template.rs | 13 +++++--------
 3 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/core/grpc/request_template.rs b/src/core/grpc/request_template.rs
index 0bccb0e..590e8fc 100644
--- a/src/core/grpc/request_template.rs
+++ b/src/core/grpc/request_template.rs
@@ -11,8 +11,9 @@ use crate::core::config::GraphQLOperationType;
 use crate::core::grpc::protobuf::ProtobufOperation;
 use crate::core::has_headers::HasHeaders;
 use crate::core::helpers::headers::MustacheHeaders;
+use crate::core::http::ExpressionValueEval;
 use crate::core::ir::model::{CacheKey, IoId};
-use crate::core::mustache::Mustache;
+use crate::core::mustache::{Eval, Mustache};
 use crate::core::path::PathString;
 
 static GRPC_MIME_TYPE: HeaderValue = HeaderValue::from_static("application/grpc");
@@ -35,7 +36,8 @@ pub struct RequestBody {
 impl RequestBody {
     pub fn render<C: PathString>(&self, ctx: &C) -> String {
         if let Some(mustache) = &self.mustache {
-            mustache.render(ctx)
+            // values that are put inside of a JSON string must stay there
+            ExpressionValueEval::default().eval(mustache, ctx).0
         } else {
             self.value.to_string()
         }
diff --git a/src/core/http/mod.rs b/src/core/http/mod.rs
index 816f0fc..e51f8c7 100644
--- a/src/core/http/mod.rs
+++ b/src/core/http/mod.rs
@@ -6,6 +6,7 @@ pub use method::Method;
 pub use query_encoder::QueryEncoder;
 pub use request_context::RequestContext;
 pub use request_handler::{handle_request, API_URL_PREFIX};
+pub(crate) use request_template::ExpressionValueEval;
 pub use request_template::RequestTemplate;
 pub use response::*;
 
diff --git a/src/core/http/request_template.rs b/src/core/http/request_template.rs
index c1057ed..5fcf53a 100644
--- a/src/core/http/request_template.rs
+++ b/src/core/http/request_template.rs
@@ -272,10 +272,7 @@ impl<Ctx: PathString + HasHeaders + PathValue> CacheKey<Ctx> for RequestTemplate
         }
 
         if let Some(body) = self.body_path.as_ref() {
-            ExpressionValueEval::default()
-                .eval(body, ctx)
-                .0
-                .hash(state)
+            ExpressionValueEval::default().eval(body, ctx).0.hash(state)
         }
 
         let url = self.create_url(ctx).unwrap();
@@ -349,9 +346,9 @@ fn escape_query_value(value: ValueString) -> ValueString {
             None => ValueString::Value(value),
         },
         // environment and configuration variables may be escaped already
-        ValueString::String(text) => ValueString::String(Cow::Owned(
-            text.replace('&', "%26").replace('#', "%23"),
-        )),
+        ValueString::String(text) => {
+            ValueString::String(Cow::Owned(text.replace('&', "%26").replace('#', "%23")))
+        }
     }
 }
 
@@ -362,7 +359,7 @@ fn to_text(value: &ValueString) -> String {
     }
 }
 
-struct ExpressionValueEval<A>(std::marker::PhantomData<A>);
+pub(crate) struct ExpressionValueEval<A>(std::marker::PhantomData<A>);
 impl<A> Default for ExpressionValueEval<A> {
     fn default() -> Self {
         Self(std::marker::PhantomData)
-- 
2.43.0


From 1f595e31f9ad636df6802e6fc86e608e121cb0c8 Mon Sep 17 00:00:00 2001
From: sim <x@x>
Date: Fri, 20 Nov 2026 01:12:03 +0000
Subject: [PATCH 36/65] fix: find the batch key of grpc requests by its name in
 JSON

---
 src/core/grpc/protobuf.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/core/grpc/protobuf.rs b/src/core/grpc/protobuf.rs
index 36ebdff..1e677d5 100644
--- a/src/core/grpc/protobuf.rs
+++ b/src/core/grpc/protobuf.rs
@@ -6,8 +6,8 @@ use prost::bytes::BufMut;
 use prost::Message;
 use prost_reflect::prost_types::FileDescriptorSet;
 use prost_reflect::{
-    DescriptorPool, DynamicMessage, MessageDescriptor, MethodDescriptor, SerializeOptions,
-    ServiceDescriptor,
+    DescriptorPool, DynamicMessage, MessageDescriptor, MethodDescriptor, ReflectMessage,
+    SerializeOptions, ServiceDescriptor,
 };
 use serde_json::Deserializer;
 
@@ -58,6 +58,11 @@ pub fn protobuf_value_as_str(value: &prost_reflect::Value) -> String {
 pub fn get_field_value_as_str(message: &DynamicMessage, field_name: &str) -> Result<String> {
     let field = message
         .get_field_by_name(field_name)
+        .or_else(|| {
+            // the names that are used in the configuration are those of the JSON mapping
+            let field = message.descriptor().get_field_by_json_name(field_name)?;
+            Some(message.get_field(&field))
+        })
         .ok_or(anyhow!("Unable to find key"))?;
 
     Ok(protobuf_value_as_str(&field))
-- 
2.43.0


From d44f1fccd12ea1739a5dc5c52e1efa419cf5b53a Mon Sep 17 00:00:00 2001
From: sim <x@x>
Date: Fri, 20 Nov 2026 01:26:14 +0000
Subject: [PATCH 37/65] fix: share values of io only between fields with the
 same hooks and batch keys

---
 src/core/config/group_by.rs |  2 +-
 src/core/ir/model.rs        | 20 ++++++++++++++++++--
 src/core/worker_hooks.rs    |  2 +-
 3 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/core/config/group_by.rs b/src/core/config/group_by.rs
index d9f6656..e824cda 100644
--- a/src/core/config/group_by.rs
+++ b/src/core/config/group_by.rs
@@ -3,7 +3,7 @@ use serde::{Deserialize, Serialize};
 use crate::core::is_default;
 
 /// The `groupBy` parameter groups multiple data requests into a single call. For more details please refer out [n + 1 guide](https://tailcall.run/docs/guides/n+1#solving-using-batching).
-#[derive(Clone, Debug, Eq, Serialize, Deserialize, PartialEq, schemars::JsonSchema)]
+#[derive(Clone, Debug, Eq, Hash, Serialize, Deserialize, PartialEq, schemars::JsonSchema)]
 pub struct GroupBy {
     #[serde(default, skip_serializing_if = "is_default")]
     path: Vec<String>,
diff --git a/src/core/ir/model.rs b/src/core/ir/model.rs
index 85e4d4e..aec958a 100644
--- a/src/core/ir/model.rs
+++ b/src/core/ir/model.rs
@@ -1,9 +1,11 @@
 use std::collections::HashMap;
 use std::fmt::Debug;
+use std::hash::{Hash, Hasher};
 use std::num::NonZeroU64;
 
 use async_graphql::{ServerError, Value};
 use strum_macros::Display;
+use tailcall_hasher::TailcallHasher;
 
 use super::discriminator::Discriminator;
 use super::{EvalContext, ResolverContextLike};
@@ -105,6 +107,14 @@ impl IoId {
     pub fn as_u64(&self) -> u64 {
         self.0
     }
+
+    /// Identity of the same thing further distinguished by the value
+    fn with(self, value: &impl Hash) -> Self {
+        let mut hasher = TailcallHasher::default();
+        self.hash(&mut hasher);
+        value.hash(&mut hasher);
+        Self(hasher.finish())
+    }
 }
 
 /// The value of an IO along with the errors the upstream has reported beside
@@ -235,8 +245,14 @@ impl IR {
 impl<'a, Ctx: ResolverContextLike + Sync> CacheKey<EvalContext<'a, Ctx>> for IO {
     fn cache_key(&self, ctx: &EvalContext<'a, Ctx>) -> Option<IoId> {
         match self {
-            IO::Http { req_template, .. } => req_template.cache_key(ctx),
-            IO::Grpc { req_template, .. } => req_template.cache_key(ctx),
+            // the same request gives another value if it's grouped or changed by a hook
+            IO::Http { req_template, group_by, is_list, hook, .. } => {
+                let group_by = group_by.as_ref().map(|group_by| (group_by, is_list));
+                Some(req_template.cache_key(ctx)?.with(&(group_by, hook)))
+            }
+            IO::Grpc { req_template, group_by, hook, .. } => {
+                Some(req_template.cache_key(ctx)?.with(&(group_by, hook)))
+            }
             IO::GraphQL { req_template, .. } => req_template.cache_key(ctx),
             IO::Js { .. } => None,
         }
diff --git a/src/core/worker_hooks.rs b/src/core/worker_hooks.rs
index c3aa479..e77462e 100644
--- a/src/core/worker_hooks.rs
+++ b/src/core/worker_hooks.rs
@@ -7,7 +7,7 @@ use crate::core::http::Response;
 
 /// User can configure the hooks on directive
 /// for the requests.
-#[derive(Clone, Debug)]
+#[derive(Clone, Debug, Hash)]
 pub struct WorkerHooks {
     pub on_request: Option<String>,
     pub on_response: Option<String>,
-- 
2.43.0


From b794c2b9ae2191c97f60df9e9a914b33f52742a8 Mon Sep 17 00:00:00 2001
From: sim <x@x>
Date: Fri, 20 Nov 2026 01:26:14 +0000
Subject: [PATCH 38/65] fix: encode the query of urls that come from scripts

---
 src/core/worker/worker.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/core/worker/worker.rs b/src/core/worker/worker.rs
index 9b9ddd1..856466a 100644
--- a/src/core/worker/worker.rs
+++ b/src/core/worker/worker.rs
@@ -128,12 +128,9 @@ impl Display for Uri {
             _ => "http",
         };
         let path = self.path.as_str();
-        let query = self
-            .query
-            .iter()
-            .map(|(k, v)| format!("{}={}", k, v))
-            .collect::<Vec<String>>()
-            .join("&");
+        let query = url::form_urlencoded::Serializer::new(String::new())
+            .extend_pairs(&self.query)
+            .finish();
 
         write!(f, "{}://{}{}{}", scheme, host, port, path)?;
 
-- 
2.43.0


From 6218ede03e20c59b473d17e2b67765d1c862b143 Mon Sep 17 00:00:00 2001
From: sim <x@x>
Date: Fri, 20 Nov 2026 01:26:14 +0000
Subject: [PATCH 39/65] fix: accept headers beyond ascii in responses of
 scripts

---
 src/core/worker/worker.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/worker/worker.rs b/src/core/worker/worker.rs
index 856466a..1d97421 100644
--- a/src/core/worker/worker.rs
+++ b/src/core/worker/worker.rs
@@ -56,7 +56,10 @@ impl WorkerResponse {
     pub fn headers(&self) -> BTreeMap<String, String> {
         let mut headers = BTreeMap::new();
         for (key, value) in self.0.headers.iter() {
-            headers.insert(key.to_string(), value.to_str().unwrap().to_string());
+            headers.insert(
+                key.to_string(),
+                String::from_utf8_lossy(value.as_bytes()).into_owned(),
+            );
         }
         headers
     }
-- 
2.43.0


From b81607a2760e44e912a3e6e3716ca4e295da342e Mon Sep 17 00:00:00 2001
From: sim <x@x>
Date: Fri, 20 Nov 2026 01:26:35 +0000
Subject: [PATCH 40/65] fix: keep the batching value of requests changed by a
 hook

---
 src/core/ir/eval_http.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/core/ir/eval_http.rs b/src/core/ir/eval_http.rs
index 25b6474..8f1fb9d 100644
--- a/src/core/ir/eval_http.rs
+++ b/src/core/ir/eval_http.rs
@@ -114,7 +114,11 @@ impl<'a, 'ctx, Context: ResolverContextLike + Sync> EvalHttp<'a, 'ctx, Context>
         let response = match js_hooks.on_request(worker, request.request()).await? {
             Some(command) => match command {
                 worker::Command::Request(w_request) => {
-                    let response = self.execute(w_request.try_into()?).await?;
+                    // the value is what the response is looked up by
+                    let batching_value = request.into_body_key();
+                    let request =
+                        DynamicRequest::try_from(w_request)?.with_batching_value(batching_value);
+                    let response = self.execute(request).await?;
                     Ok(response)
                 }
                 worker::Command::Response(w_response) => {
-- 
2.43.0


From 9733f68c9af14590b1c2ef9316006de85f5fa6d1 Mon Sep 17 00:00:00 2001
From: sim <x@x>
Date: Fri, 20 Nov 2026 01:26:35 +0000
Subject: [PATCH 41/65] fix: follow redirects of hooks to absolute urls and
 ones with a query

---
 src/core/ir/eval_http.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/core/ir/eval_http.rs b/src/core/ir/eval_http.rs
index 8f1fb9d..5f14d2d 100644
--- a/src/core/ir/eval_http.rs
+++ b/src/core/ir/eval_http.rs
@@ -126,10 +126,12 @@ impl<'a, 'ctx, Context: ResolverContextLike + Sync> EvalHttp<'a, 'ctx, Context>
                     if (w_response.status() == 301 || w_response.status() == 302)
                         && w_response.headers().contains_key("location")
                     {
-                        request
-                            .request_mut()
-                            .url_mut()
-                            .set_path(w_response.headers()["location"].as_str());
+                        let url = request
+                            .request()
+                            .url()
+                            .join(w_response.headers()["location"].as_str())
+                            .map_err(anyhow::Error::from)?;
+                        *request.request_mut().url_mut() = url;
                         self.execute_with_worker(request, worker_ctx).await
                     } else {
                         Ok(w_response.try_into()?)
-- 
2.43.0


From bad70f147dc78a225fac54e29ae6f32770afc15f Mon Sep 17 00:00:00 2001
From: sim <x@x>
Date: Fri, 20 Nov 2026 01:26:35 +0000
Subject: [PATCH 42/65] fix: apply the response hook once after a redirect

---
 src/core/ir/eval_http.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/ir/eval_http.rs b/src/core/ir/eval_http.rs
index 5f14d2d..fcee8f0 100644
--- a/src/core/ir/eval_http.rs
+++ b/src/core/ir/eval_http.rs
@@ -132,7 +132,8 @@ impl<'a, 'ctx, Context: ResolverContextLike + Sync> EvalHttp<'a, 'ctx, Context>
                             .join(w_response.headers()["location"].as_str())
                             .map_err(anyhow::Error::from)?;
                         *request.request_mut().url_mut() = url;
-                        self.execute_with_worker(request, worker_ctx).await
+                        // the response hook is applied there
+                        return self.execute_with_worker(request, worker_ctx).await;
                     } else {
                         Ok(w_response.try_into()?)
                     }
-- 
2.43.0


From 546d9160e874911ac6cdb00140f9bab076ccd808 Mon Sep 17 00:00:00 2001
From: sim <x@x>
Date: Fri, 20 Nov 2026 01:50:36 +0000
Subject: [PATCH 43/65] fix: keep GraphQL requests within the
 globalResponseTimeout

---
 src/core/jit/graphql_executor.rs | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/core/jit/graphql_executor.rs b/src/core/jit/graphql_executor.rs
index b7b88d3..3052c25 100644
--- a/src/core/jit/graphql_executor.rs
+++ b/src/core/jit/graphql_executor.rs
@@ -2,13 +2,16 @@ use std::collections::BTreeMap;
 use std::future::Future;
 use std::hash::{Hash, Hasher};
 use std::sync::Arc;
+use std::time::Duration;
 
 use async_graphql::{BatchRequest, Value};
 use async_graphql_value::{ConstValue, Extensions};
 use futures_util::stream::FuturesOrdered;
 use futures_util::StreamExt;
 use tailcall_hasher::TailcallHasher;
+use tokio::time::timeout;
 
+use super::graphql_error::GraphQLError;
 use super::{AnyResponse, BatchResponse, Response};
 use crate::core::app_context::AppContext;
 use crate::core::async_graphql_hyper::OperationId;
@@ -89,9 +92,32 @@ impl JITExecutor {
 }
 
 impl JITExecutor {
+    /// Executes the request for no longer than the `globalResponseTimeout`
     pub fn execute(
         &self,
         request: async_graphql::Request,
+    ) -> impl Future<Output = AnyResponse<Vec<u8>>> + Send + '_ {
+        let max_duration = self.app_ctx.blueprint.server.global_response_timeout;
+        let execution = self.execute_request(request);
+
+        async move {
+            if max_duration <= 0 {
+                return execution.await;
+            }
+
+            timeout(Duration::from_millis(max_duration as u64), execution)
+                .await
+                .unwrap_or_else(|_| {
+                    Response::<async_graphql::Value>::default()
+                        .with_errors(vec![GraphQLError::new("Global timeout", None)])
+                        .into()
+                })
+        }
+    }
+
+    fn execute_request(
+        &self,
+        request: async_graphql::Request,
     ) -> impl Future<Output = AnyResponse<Vec<u8>>> + Send + '_ {
         let plan_hash = Self::plan_hash(&request);
         let response_hash = Self::response_hash(&request);
-- 
2.43.0


From 8cebf8e60e7736c78d7f0106af003af65ba9d2af Mon Sep 17 00:00:00 2001
From: sim <x@x>
Date: Fri, 20 Nov 2026 02:06:29 +0000
Subject: [PATCH 44/65] fix: keep nulls in the values of @expr and in the
 arguments of @call steps

A template that consists of a single expression rendered to an empty string when the
argument or the property was null or missing.
---
 src/core/path.rs            | 10 ++++++++++
 src/core/serde_value_ext.rs | 23 ++++++++++++++++++++---
 2 files changed, 30 insertions(+), 3 deletions(-)

diff --git a/src/core/path.rs b/src/core/path.rs
index def67d0..2be6028 100644
--- a/src/core/path.rs
+++ b/src/core/path.rs
@@ -38,6 +38,16 @@ impl PathString for serde_json::Value {
     }
 }
 
+impl PathValue for serde_json::Value {
+    fn raw_value<'a, T: AsRef<str>>(&'a self, path: &[T]) -> Option<ValueString<'a>> {
+        let value = self.get_path(path)?.clone();
+
+        Some(ValueString::Value(Cow::Owned(
+            async_graphql::Value::from_json(value).ok()?,
+        )))
+    }
+}
+
 fn convert_value(value: Cow<'_, async_graphql::Value>) -> Option<Cow<'_, str>> {
     match value {
         Cow::Owned(async_graphql::Value::String(s)) => Some(Cow::Owned(s)),
diff --git a/src/core/serde_value_ext.rs b/src/core/serde_value_ext.rs
index 37a095a..340dfec 100644
--- a/src/core/serde_value_ext.rs
+++ b/src/core/serde_value_ext.rs
@@ -4,17 +4,25 @@ use async_graphql::{Name, Value as GraphQLValue};
 use indexmap::IndexMap;
 
 use crate::core::blueprint::DynamicValue;
-use crate::core::path::PathString;
+use crate::core::mustache::Segment;
+use crate::core::path::{PathString, PathValue, ValueString};
 
 pub trait ValueExt {
-    fn render_value(&self, ctx: &impl PathString) -> GraphQLValue;
+    fn render_value(&self, ctx: &(impl PathString + PathValue)) -> GraphQLValue;
 }
 
 impl ValueExt for DynamicValue<async_graphql::Value> {
-    fn render_value<'a>(&self, ctx: &'a impl PathString) -> GraphQLValue {
+    fn render_value<'a>(&self, ctx: &'a (impl PathString + PathValue)) -> GraphQLValue {
         match self {
             DynamicValue::Value(value) => value.to_owned(),
             DynamicValue::Mustache(m) => {
+                // the rendering has no way to tell null from an empty string
+                if let [Segment::Expression(path)] = m.segments().as_slice() {
+                    if is_null(ctx, path) {
+                        return GraphQLValue::Null;
+                    }
+                }
+
                 let rendered: Cow<'a, str> = Cow::Owned(m.render(ctx));
 
                 serde_json::from_str::<GraphQLValue>(rendered.as_ref())
@@ -44,6 +52,15 @@ impl ValueExt for DynamicValue<async_graphql::Value> {
     }
 }
 
+/// Checks if the argument or the property of the value is null or missing
+fn is_null(ctx: &impl PathValue, path: &[String]) -> bool {
+    match ctx.raw_value(path) {
+        Some(ValueString::Value(value)) => *value == GraphQLValue::Null,
+        Some(ValueString::String(_)) => false,
+        None => matches!(path.first().map(String::as_str), Some("args" | "value")),
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use serde_json::json;
-- 
2.43.0


From 596208da13b0dcf7faf4681d530ec733ef8ea219 Mon Sep 17 00:00:00 2001
From: sim <x@x>
Date: Fri, 20 Nov 2026 02:06:42 +0000
Subject: [PATCH 45/65] fix: resolve every item of a list argument by its own
 type

The items were resolved as if they were lists themselves, so null items of
[Input]! were refused while those of [Int!] were sent. A single value in
place of a list is sent as the list of it.
---
 src/core/jit/transform/input_resolver.rs | 46 ++++++++++++++++--------
 1 file changed, 32 insertions(+), 14 deletions(-)

diff --git a/src/core/jit/transform/input_resolver.rs b/src/core/jit/transform/input_resolver.rs
index f861cf5..debce85 100644
--- a/src/core/jit/transform/input_resolver.rs
+++ b/src/core/jit/transform/input_resolver.rs
@@ -172,6 +172,38 @@ where
             return Ok(None);
         };
 
+        if value.is_null() {
+            return Ok(Some(value));
+        }
+
+        if let Type::List { of_type, .. } = type_of {
+            let parse_item = |i: usize, item: Output| {
+                let parent_name = format!("{}.{}.{}", parent_name, arg_name, i);
+
+                Self::recursive_parse_arg(
+                    index,
+                    &parent_name,
+                    &i.to_string(),
+                    of_type,
+                    &None,
+                    Some(item),
+                )
+                .map(|item| item.expect("Because we start with `Some`, we will end with `Some`"))
+            };
+
+            let items = match value.as_array_mut() {
+                Some(items) => std::mem::take(items)
+                    .into_iter()
+                    .enumerate()
+                    .map(|(i, item)| parse_item(i, item))
+                    .collect::<Result<Vec<_>, _>>()?,
+                // a value that isn't a list is the only item of the list
+                None => vec![parse_item(0, value)?],
+            };
+
+            return Ok(Some(Output::array(items)));
+        }
+
         let Some(def) = index.get_input_type_definition(type_of.name()) else {
             return Ok(Some(value));
         };
@@ -196,20 +228,6 @@ where
                     obj.insert_key(&arg_field.name, value);
                 }
             }
-        } else if let Some(arr) = value.as_array_mut() {
-            for (i, item) in arr.iter_mut().enumerate() {
-                let parent_name = format!("{}.{}.{}", parent_name, arg_name, i);
-
-                *item = Self::recursive_parse_arg(
-                    index,
-                    &parent_name,
-                    &i.to_string(),
-                    type_of,
-                    &None,
-                    Some(item.clone()),
-                )?
-                .expect("Because we start with `Some`, we will end with `Some`");
-            }
         }
 
         Ok(Some(value))
-- 
2.43.0


From a5dd83aa14ad335a77234b2c50c5fc557edb5817 Mon Sep 17 00:00:00 2001
From: sim <x@x>
Date: Fri, 20 Nov 2026 02:06:42 +0000
Subject: [PATCH 46/65] fix: send enums given by variables and defaults to
 GraphQL upstreams as enums

---
 src/core/jit/transform/input_resolver.rs | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/core/jit/transform/input_resolver.rs b/src/core/jit/transform/input_resolver.rs
index debce85..a0b972e 100644
--- a/src/core/jit/transform/input_resolver.rs
+++ b/src/core/jit/transform/input_resolver.rs
@@ -1,5 +1,6 @@
 use std::fmt::Display;
 
+use async_graphql::Name;
 use async_graphql_value::{ConstValue, Value};
 
 use super::super::{Arg, Field, OperationPlan, ResolveInputError, Variables};
@@ -19,6 +20,10 @@ pub trait InputResolvable {
         self,
         variables: &Variables<Self::Output>,
     ) -> Result<Self::Output, ResolveInputError>;
+
+    /// Converts the value of an enum, that is a string in variables and
+    /// defaults, to the same value as the one written in the query
+    fn into_enum(value: Self::Output) -> Self::Output;
 }
 
 impl InputResolvable for Value {
@@ -32,6 +37,13 @@ impl InputResolvable for Value {
                 .ok_or_else(|| ResolveInputError::VariableIsNotFound(name.to_string()))
         })
     }
+
+    fn into_enum(value: ConstValue) -> ConstValue {
+        match value {
+            ConstValue::String(name) => ConstValue::Enum(Name::new(name)),
+            value => value,
+        }
+    }
 }
 
 /// Transforms [OperationPlan] values the way that all the input values
@@ -205,7 +217,15 @@ where
         }
 
         let Some(def) = index.get_input_type_definition(type_of.name()) else {
-            return Ok(Some(value));
+            let is_enum_value = value
+                .as_str()
+                .is_some_and(|name| index.validate_enum_value(type_of.name(), name));
+
+            return Ok(Some(if is_enum_value {
+                Input::into_enum(value)
+            } else {
+                value
+            }));
         };
 
         if let Some(obj) = value.as_object_mut() {
-- 
2.43.0


From a9314b10794d3c60152c599d8f6944075179be6a Mon Sep 17 00:00:00 2001
From: sim <x@x>
Date: Fri, 20 Nov 2026 02:17:44 +0000
Subject: [PATCH 47/65] fix: describe recursive types without recursing for
 ever

---
 src/core/blueprint/from_config.rs | 25 +++++++++--
 src/core/json/json_schema.rs      | 74 ++++++++++++++++++++-----------
 2 files changed, 69 insertions(+), 30 deletions(-)

diff --git a/src/core/blueprint/from_config.rs b/src/core/blueprint/from_config.rs
index fb95066..b62e678 100644
--- a/src/core/blueprint/from_config.rs
+++ b/src/core/blueprint/from_config.rs
@@ -80,18 +80,35 @@ pub fn to_json_schema_for_args(args: &IndexMap<String, Arg>, config: &Config) ->
     JsonSchema::Obj(schema_fields)
 }
 pub fn to_json_schema(type_of: &Type, config: &Config) -> JsonSchema {
+    json_schema_of_type(type_of, config, &mut Vec::new())
+}
+
+/// `parents` are the types whose fields are being described: a type that
+/// contains itself isn't described again
+fn json_schema_of_type<'a>(
+    type_of: &'a Type,
+    config: &'a Config,
+    parents: &mut Vec<&'a str>,
+) -> JsonSchema {
     let json_schema = match type_of {
         Type::Named { name, .. } => {
             let type_ = config.find_type(name);
             let type_enum_ = config.find_enum(name);
 
-            if let Some(type_) = type_ {
+            if parents.contains(&name.as_str()) {
+                JsonSchema::Any
+            } else if let Some(type_) = type_ {
                 let mut schema_fields = BTreeMap::new();
+                parents.push(name);
                 for (name, field) in type_.fields.iter() {
                     if field.resolvers.is_empty() {
-                        schema_fields.insert(name.clone(), to_json_schema(&field.type_of, config));
+                        schema_fields.insert(
+                            name.clone(),
+                            json_schema_of_type(&field.type_of, config, parents),
+                        );
                     }
                 }
+                parents.pop();
                 JsonSchema::Obj(schema_fields)
             } else if let Some(type_enum_) = type_enum_ {
                 JsonSchema::Enum(
@@ -105,7 +122,9 @@ pub fn to_json_schema(type_of: &Type, config: &Config) -> JsonSchema {
                 JsonSchema::from_scalar_type(name)
             }
         }
-        Type::List { of_type, .. } => JsonSchema::Arr(Box::new(to_json_schema(of_type, config))),
+        Type::List { of_type, .. } => {
+            JsonSchema::Arr(Box::new(json_schema_of_type(of_type, config, parents)))
+        }
     };
 
     if type_of.is_nullable() {
diff --git a/src/core/json/json_schema.rs b/src/core/json/json_schema.rs
index d07d5f2..5d148d2 100644
--- a/src/core/json/json_schema.rs
+++ b/src/core/json/json_schema.rs
@@ -239,20 +239,23 @@ impl JsonSchema {
     }
 }
 
-impl TryFrom<&MessageDescriptor> for JsonSchema {
-    type Error = tailcall_valid::ValidationError<String>;
-
-    fn try_from(value: &MessageDescriptor) -> Result<Self, Self::Error> {
-        if value.is_map_entry() {
-            // we encode protobuf's map as JSON scalar
+impl JsonSchema {
+    /// `parents` are the messages whose fields are being described: a message
+    /// that contains itself isn't described again
+    fn from_message(
+        value: &MessageDescriptor,
+        parents: &mut Vec<MessageDescriptor>,
+    ) -> Result<Self, tailcall_valid::ValidationError<String>> {
+        // we encode protobuf's map as JSON scalar
+        if value.is_map_entry() || parents.contains(value) {
             return Ok(JsonSchema::Any);
         }
 
         let mut map = BTreeMap::new();
-        let fields = value.fields();
+        parents.push(value.clone());
 
-        for field in fields {
-            let field_schema = JsonSchema::try_from(&field)?;
+        for field in value.fields() {
+            let field_schema = JsonSchema::from_message_field(&field, parents)?;
 
             // the snake_case for field names is automatically converted to camelCase
             // by prost on serde serialize/deserealize and in graphql type name should be in
@@ -260,30 +263,19 @@ impl TryFrom<&MessageDescriptor> for JsonSchema {
             map.insert(field.name().to_case(Case::Camel), field_schema);
         }
 
+        parents.pop();
+
         if map.is_empty() {
             Ok(JsonSchema::Empty)
         } else {
             Ok(JsonSchema::Obj(map))
         }
     }
-}
 
-impl TryFrom<&EnumDescriptor> for JsonSchema {
-    type Error = tailcall_valid::ValidationError<String>;
-
-    fn try_from(value: &EnumDescriptor) -> Result<Self, Self::Error> {
-        let mut set = BTreeSet::new();
-        for value in value.values() {
-            set.insert(value.name().to_string());
-        }
-        Ok(JsonSchema::Enum(set))
-    }
-}
-
-impl TryFrom<&FieldDescriptor> for JsonSchema {
-    type Error = tailcall_valid::ValidationError<String>;
-
-    fn try_from(value: &FieldDescriptor) -> Result<Self, Self::Error> {
+    fn from_message_field(
+        value: &FieldDescriptor,
+        parents: &mut Vec<MessageDescriptor>,
+    ) -> Result<Self, tailcall_valid::ValidationError<String>> {
         let field_schema = match value.kind() {
             Kind::Double => JsonSchema::Num,
             Kind::Float => JsonSchema::Num,
@@ -300,7 +292,7 @@ impl TryFrom<&FieldDescriptor> for JsonSchema {
             Kind::Bool => JsonSchema::Bool,
             Kind::String => JsonSchema::Str,
             Kind::Bytes => JsonSchema::Str,
-            Kind::Message(msg) => JsonSchema::try_from(&msg)?,
+            Kind::Message(msg) => JsonSchema::from_message(&msg, parents)?,
             Kind::Enum(enm) => JsonSchema::try_from(&enm)?,
         };
         let field_schema = if value
@@ -322,6 +314,34 @@ impl TryFrom<&FieldDescriptor> for JsonSchema {
     }
 }
 
+impl TryFrom<&MessageDescriptor> for JsonSchema {
+    type Error = tailcall_valid::ValidationError<String>;
+
+    fn try_from(value: &MessageDescriptor) -> Result<Self, Self::Error> {
+        JsonSchema::from_message(value, &mut Vec::new())
+    }
+}
+
+impl TryFrom<&EnumDescriptor> for JsonSchema {
+    type Error = tailcall_valid::ValidationError<String>;
+
+    fn try_from(value: &EnumDescriptor) -> Result<Self, Self::Error> {
+        let mut set = BTreeSet::new();
+        for value in value.values() {
+            set.insert(value.name().to_string());
+        }
+        Ok(JsonSchema::Enum(set))
+    }
+}
+
+impl TryFrom<&FieldDescriptor> for JsonSchema {
+    type Error = tailcall_valid::ValidationError<String>;
+
+    fn try_from(value: &FieldDescriptor) -> Result<Self, Self::Error> {
+        JsonSchema::from_message_field(value, &mut Vec::new())
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use std::collections::{BTreeMap, BTreeSet};
-- 
2.43.0


From f9742e53a6d170d8a3d7149817e80ac2e16d42aa Mon Sep 17 00:00:00 2001
From: sim <x@x>
Date: Fri, 20 Nov 2026 02:28:11 +0000
Subject: [PATCH 48/65] fix: validate responses against the declared types

---
 src/core/blueprint/operators/http.rs | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/core/blueprint/operators/http.rs b/src/core/blueprint/operators/http.rs
index ab25a25..659adbf 100644
--- a/src/core/blueprint/operators/http.rs
+++ b/src/core/blueprint/operators/http.rs
@@ -7,6 +7,7 @@ use crate::core::config::Field;
 use crate::core::endpoint::Endpoint;
 use crate::core::http::{Method, RequestTemplate};
 use crate::core::ir::model::{IO, IR};
+use crate::core::json::JsonSchema;
 use crate::core::worker_hooks::WorkerHooks;
 use crate::core::{config, helpers, Mustache};
 
@@ -56,15 +57,23 @@ pub fn compile_http(
                 })
                 .collect();
 
-            match RequestTemplate::try_from(
-                Endpoint::new(base_url.to_string())
-                    .method(http.method.clone())
-                    .query(query)
-                    .body(http.body.clone())
-                    .encoding(http.encoding.clone()),
-            )
-            .map(|req_tmpl| req_tmpl.headers(headers))
-            {
+            let mut endpoint = Endpoint::new(base_url.to_string())
+                .method(http.method.clone())
+                .query(query)
+                .body(http.body.clone())
+                .encoding(http.encoding.clone());
+
+            // what the responses are validated against
+            if config_module.server.enable_http_validation() {
+                endpoint = endpoint.output(if http.select.is_none() {
+                    to_json_schema(&field.type_of, config_module)
+                } else {
+                    // the field's type describes only what is selected
+                    JsonSchema::Any
+                });
+            }
+
+            match RequestTemplate::try_from(endpoint).map(|req_tmpl| req_tmpl.headers(headers)) {
                 Ok(data) => Valid::succeed(data),
                 Err(e) => Valid::fail(BlueprintError::Error(e)),
             }
-- 
2.43.0


From 4704213a349b8554df4cde50bda5f2b3562a2a62 Mon Sep 17 00:00:00 2001
From: sim <x@x>
Date: Fri, 20 Nov 2026 02:31:02 +0000
Subject: [PATCH 49/65] fix: select from GraphQL upstreams what was asked for
 when a field has several resolvers

---
 src/core/ir/model.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/core/ir/model.rs b/src/core/ir/model.rs
index aec958a..c294f3a 100644
--- a/src/core/ir/model.rs
+++ b/src/core/ir/model.rs
@@ -183,6 +183,11 @@ impl IR {
                 }
             }
             IR::Map(map) => map.input.modify_io(io_modifier),
+            IR::Merge(irs) => {
+                for ir in irs.iter_mut() {
+                    ir.modify_io(io_modifier);
+                }
+            }
             _ => {}
         }
     }
-- 
2.43.0


From aedfefaf11beef4ee5963bb913a27b2eb195d9c1 Mon Sep 17 00:00:00 2001
From: sim <x@x>
Date: Fri, 20 Nov 2026 02:35:12 +0000
Subject: [PATCH 50/65] fix: don't take the value of an interface for one of
 its objects when validating

---
 src/core/blueprint/from_config.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/core/blueprint/from_config.rs b/src/core/blueprint/from_config.rs
index b62e678..6abc6a2 100644
--- a/src/core/blueprint/from_config.rs
+++ b/src/core/blueprint/from_config.rs
@@ -95,7 +95,13 @@ fn json_schema_of_type<'a>(
             let type_ = config.find_type(name);
             let type_enum_ = config.find_enum(name);
 
-            if parents.contains(&name.as_str()) {
+            // a value of an interface tells its type, and so may wrap it
+            let is_interface = config
+                .types
+                .values()
+                .any(|type_| type_.implements.contains(name));
+
+            if is_interface || parents.contains(&name.as_str()) {
                 JsonSchema::Any
             } else if let Some(type_) = type_ {
                 let mut schema_fields = BTreeMap::new();
-- 
2.43.0


From aecbd90863554f7495c67a69a128969b6ead8edb Mon Sep 17 00:00:00 2001
From: sim <x@x>
Date: Fri, 20 Nov 2026 02:58:47 +0000
Subject: [PATCH 51/65] fix: name added fields as configured when their source
 is renamed

---
 src/core/blueprint/definitions.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/blueprint/definitions.rs b/src/core/blueprint/definitions.rs
index a38b498..e0315e6 100644
--- a/src/core/blueprint/definitions.rs
+++ b/src/core/blueprint/definitions.rs
@@ -461,7 +461,8 @@ fn to_fields(
             .find(|&(field_name, _)| *field_name == add_field.path[0]);
         match source_field {
             Some((_, source_field)) => to_field_definition(
-                source_field,
+                // the new name of the source isn't the name of the added field
+                &Field { modify: None, ..source_field.clone() },
                 &operation_type,
                 object_name,
                 config_module,
-- 
2.43.0


From 2e86d5862fcb4b46b96c42268d8a1b2b84620d9c Mon Sep 17 00:00:00 2001
From: sim <x@x>
Date: Fri, 20 Nov 2026 02:59:35 +0000
Subject: [PATCH 52/65] fix: take added fields from the value of a protected
 source

---
 src/core/blueprint/definitions.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/blueprint/definitions.rs b/src/core/blueprint/definitions.rs
index e0315e6..16c4dd7 100644
--- a/src/core/blueprint/definitions.rs
+++ b/src/core/blueprint/definitions.rs
@@ -329,7 +329,7 @@ fn update_resolver_from_path(
         }
         let resolver = match updated_base_field.resolver.clone() {
             None => resolver,
-            Some(resolver) => IR::Path(Box::new(resolver), context.path.to_owned()),
+            Some(resolver) => IR::Path(Box::new(resolver), context.original_path[1..].to_owned()),
         };
         Valid::succeed(updated_base_field.resolver(Some(resolver)))
     })
@@ -467,8 +467,10 @@ fn to_fields(
                 object_name,
                 config_module,
                 type_of,
-                &add_field.name,
+                // what resolves the source takes its value by this name
+                &add_field.path[0],
             )
+            .map(|field_definition| field_definition.name(add_field.name.clone()))
             .and_then(|field_definition| {
                 let added_field_path = if source_field.resolvers.is_empty() {
                     add_field.path.clone()
-- 
2.43.0


From 94e00b3bb745faf79fb2e405dfbf2f222f9f99b6 Mon Sep 17 00:00:00 2001
From: sim <x@x>
Date: Fri, 20 Nov 2026 03:00:19 +0000
Subject: [PATCH 53/65] fix: look up the path of added fields in the type of
 their source

---
 src/core/blueprint/definitions.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/core/blueprint/definitions.rs b/src/core/blueprint/definitions.rs
index 16c4dd7..afa3bd2 100644
--- a/src/core/blueprint/definitions.rs
+++ b/src/core/blueprint/definitions.rs
@@ -509,7 +509,14 @@ fn to_fields(
                     &ProcessPathContext {
                         path: &added_field_path,
                         field: source_field,
-                        type_info: type_of,
+                        // what the path starts in
+                        type_info: if source_field.resolvers.is_empty() {
+                            type_of
+                        } else {
+                            config_module
+                                .find_type(source_field.type_of.name())
+                                .unwrap_or(type_of)
+                        },
                         is_required: false,
                         config_module,
                         invalid_path_handler: &invalid_path_handler,
-- 
2.43.0


From be75f5c3176cf7104224bf0058eb6096d5eac488 Mon Sep 17 00:00:00 2001
From: sim <x@x>
Date: Fri, 20 Nov 2026 03:00:52 +0000
Subject: [PATCH 54/65] fix: protect added fields as the fields on their path

---
 src/core/blueprint/definitions.rs | 38 +++++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/src/core/blueprint/definitions.rs b/src/core/blueprint/definitions.rs
index afa3bd2..7b8443c 100644
--- a/src/core/blueprint/definitions.rs
+++ b/src/core/blueprint/definitions.rs
@@ -335,6 +335,36 @@ fn update_resolver_from_path(
     })
 }
 
+/// Everything that protects the fields on the path protects the field that is
+/// resolved by that path
+fn protect_path(
+    config_module: &ConfigModule,
+    source_field: &Field,
+    path: &[String],
+    base_field: blueprint::FieldDefinition,
+) -> Valid<blueprint::FieldDefinition, BlueprintError> {
+    let mut type_name = source_field.type_of.name();
+    let mut valid = Valid::succeed(base_field);
+
+    for name in path {
+        let Some(type_of) = config_module.find_type(type_name) else {
+            break;
+        };
+        // indexes stay in the same type
+        let Some(field) = type_of.fields.get(name) else {
+            continue;
+        };
+
+        valid = valid.and_then(|base_field| {
+            update_protected(type_name)
+                .try_fold(&(config_module, field, type_of, name.as_str()), base_field)
+        });
+        type_name = field.type_of.name();
+    }
+
+    valid
+}
+
 /// This function iterates over all types and their fields identifying paths to
 /// fields with dangling resolvers and fixes them. Dangling resolvers are those
 /// resolvers that cannot be resolved from the root of the schema. This function
@@ -526,6 +556,14 @@ fn to_fields(
                     field_definition,
                 )
             })
+            .and_then(|field_definition| {
+                protect_path(
+                    config_module,
+                    source_field,
+                    &add_field.path[1..],
+                    field_definition,
+                )
+            })
             .trace(config::AddField::trace_name().as_str()),
             None => Valid::fail(BlueprintError::FieldNotFoundInPath(
                 add_field.path[0].clone(),
-- 
2.43.0


From b44ebf958f5b846063f0b00bfd16b7c5f8d950ab Mon Sep 17 00:00:00 2001
From: sim <x@x>
Date: Fri, 20 Nov 2026 03:06:43 +0000
Subject: [PATCH 55/65] fix: ask GraphQL upstreams only for what they resolve

---
 src/core/jit/transform/graphql.rs | 88 +++++++++++++++++++++----------
 1 file changed, 59 insertions(+), 29 deletions(-)

diff --git a/src/core/jit/transform/graphql.rs b/src/core/jit/transform/graphql.rs
index 5923cc5..572d1c6 100644
--- a/src/core/jit/transform/graphql.rs
+++ b/src/core/jit/transform/graphql.rs
@@ -58,6 +58,22 @@ impl<A: Display + Debug + JsonLikeOwned + Clone> Transform for GraphQL<A> {
     }
 }
 
+/// Path in the value of the parent where the field takes its value from, None
+/// if the field is resolved on its own
+fn source_path(ir: &IR) -> Option<Vec<String>> {
+    match ir {
+        IR::ContextPath(path) => Some(path.clone()),
+        IR::Path(ir, tail) => {
+            let mut path = source_path(ir)?;
+            path.extend(tail.iter().cloned());
+            Some(path)
+        }
+        IR::Protect(_, ir) | IR::Discriminate(_, ir) => source_path(ir),
+        IR::Map(map) => source_path(&map.input),
+        _ => None,
+    }
+}
+
 fn format_selection_set<'a, A: 'a + Display + JsonLikeOwned>(
     selection_set: impl Iterator<Item = &'a Field<A>>,
     interfaces: &HashSet<String>,
@@ -66,35 +82,46 @@ fn format_selection_set<'a, A: 'a + Display + JsonLikeOwned>(
     let mut fragments_fields = HashMap::new();
     let mut normal_fields = vec![];
     let mut is_typename_requested = false;
-    let set = selection_set
-        .filter(|field| !matches!(&field.ir, Some(IR::IO(_)) | Some(IR::Dynamic(_))))
-        .map(|field| {
-            // handle @modify directive scenario.
-            let field_name = if let Some(IR::ContextPath(data)) = &field.ir {
-                data.first().cloned().unwrap_or(field.name.to_string())
-            } else {
-                field.name.to_string()
-            };
-            let is_this_field_interface = interfaces.contains(field.type_of.name());
-            let formatted_selection_fields =
-                format_selection_field(field, &field_name, interfaces, is_this_field_interface);
-            is_typename_requested = is_typename_requested
-                || (field_name == "__typename" && field.parent_fragment.is_none());
-            match &field.parent_fragment {
-                Some(fragment) if is_parent_interface => {
-                    fragments_fields
-                        .entry(fragment.to_owned())
-                        .or_insert_with(Vec::new)
-                        .push(formatted_selection_fields);
-                }
-                _ => {
-                    normal_fields.push(formatted_selection_fields);
-                }
+    let mut is_empty = true;
+
+    for field in selection_set {
+        is_empty = false;
+
+        // handle @modify and @addField directives scenario.
+        let path = match &field.ir {
+            Some(ir) => match source_path(ir) {
+                Some(path) => path,
+                // the upstream doesn't know about the fields with their own resolvers
+                None => continue,
+            },
+            None => vec![],
+        };
+        let mut path = path
+            .into_iter()
+            .filter(|segment| segment.parse::<usize>().is_err())
+            .collect::<Vec<_>>();
+        let field_name = path.pop().unwrap_or(field.name.to_string());
+        let is_this_field_interface = interfaces.contains(field.type_of.name());
+        let formatted_selection_fields = path.iter().rev().fold(
+            format_selection_field(field, &field_name, interfaces, is_this_field_interface),
+            |field, parent| format!("{parent} {{ {field} }}"),
+        );
+        is_typename_requested = is_typename_requested
+            || (field_name == "__typename" && field.parent_fragment.is_none());
+        match &field.parent_fragment {
+            Some(fragment) if is_parent_interface => {
+                fragments_fields
+                    .entry(fragment.to_owned())
+                    .or_insert_with(Vec::new)
+                    .push(formatted_selection_fields);
             }
-        })
-        .collect::<Vec<_>>();
+            _ => {
+                normal_fields.push(formatted_selection_fields);
+            }
+        }
+    }
 
-    if set.is_empty() {
+    if is_empty {
         return None;
     }
 
@@ -105,8 +132,11 @@ fn format_selection_set<'a, A: 'a + Display + JsonLikeOwned>(
         })
         .collect();
 
-    //Don't force user to query the type and get it automatically
-    if is_parent_interface && !is_typename_requested {
+    // Don't force user to query the type and get it automatically. An object can't
+    // be requested without any field
+    if !is_typename_requested
+        && (is_parent_interface || normal_fields.is_empty() && fragments_set.is_empty())
+    {
         normal_fields.push("__typename".to_owned());
     }
     normal_fields.extend(fragments_set);
-- 
2.43.0


From e3a55688818c2b787133a59aed6dc34b6f7d88ff Mon Sep 17 00:00:00 2001
From: sim <x@x>
Date: Fri, 20 Nov 2026 03:07:12 +0000
Subject: [PATCH 56/65] fix: select members of unions from GraphQL upstreams by
 their types

---
 src/core/blueprint/index.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/blueprint/index.rs b/src/core/blueprint/index.rs
index 9707844..877af82 100644
--- a/src/core/blueprint/index.rs
+++ b/src/core/blueprint/index.rs
@@ -40,11 +40,13 @@ impl Index {
         matches!(def, Some(Definition::Scalar(_))) || scalar::Scalar::is_predefined(type_name)
     }
 
+    /// Names of the types whose objects are told apart only at runtime
     pub fn get_interfaces(&self) -> HashSet<String> {
         self.map
             .iter()
             .filter_map(|(_, (def, _))| match def {
                 Definition::Interface(interface) => Some(interface.name.to_owned()),
+                Definition::Union(union) => Some(union.name.to_owned()),
                 _ => None,
             })
             .collect()
-- 
2.43.0


From e6f63dacd7fe1e535027301abd6acb96619d842e Mon Sep 17 00:00:00 2001
From: sim <x@x>
Date: Fri, 20 Nov 2026 03:08:58 +0000
Subject: [PATCH 57/65] fix: request from GraphQL upstreams what nested fields
 are resolved from

---
 src/core/jit/transform/graphql.rs | 184 ++++++++++++++++++++++++++++--
 1 file changed, 177 insertions(+), 7 deletions(-)

diff --git a/src/core/jit/transform/graphql.rs b/src/core/jit/transform/graphql.rs
index 572d1c6..1ec8bf4 100644
--- a/src/core/jit/transform/graphql.rs
+++ b/src/core/jit/transform/graphql.rs
@@ -6,8 +6,9 @@ use std::marker::PhantomData;
 
 use tailcall_valid::Valid;
 
+use crate::core::blueprint::{DynamicValue, Index, QueryField};
 use crate::core::document::{escape_template, print_directives};
-use crate::core::ir::model::{IO, IR};
+use crate::core::ir::model::{Cache, IO, IR};
 use crate::core::jit::{Field, OperationPlan};
 use crate::core::json::{escape_json, JsonLikeOwned};
 use crate::core::{Mustache, Transform};
@@ -24,6 +25,7 @@ impl<A> GraphQL<A> {
 fn compute_selection_set<A: Display + Debug + JsonLikeOwned>(
     base_field: &mut [Field<A>],
     interfaces: &HashSet<String>,
+    index: &Index,
 ) {
     for field in base_field.iter_mut() {
         if let Some(ir) = field.ir.as_mut() {
@@ -33,13 +35,14 @@ fn compute_selection_set<A: Display + Debug + JsonLikeOwned>(
                         field.selection.iter(),
                         interfaces,
                         interfaces.contains(field.type_of.name()),
+                        index,
                     ) {
                         req_template.selection = Some(Mustache::parse(&v).into());
                     }
                 }
             });
         }
-        compute_selection_set(field.selection.as_mut(), interfaces);
+        compute_selection_set(field.selection.as_mut(), interfaces, index);
     }
 }
 
@@ -52,7 +55,7 @@ impl<A: Display + Debug + JsonLikeOwned + Clone> Transform for GraphQL<A> {
             Some(ref interfaces) => interfaces,
             None => &HashSet::new(),
         };
-        compute_selection_set(&mut plan.selection, interfaces);
+        compute_selection_set(&mut plan.selection, interfaces, &plan.index);
 
         Valid::succeed(plan)
     }
@@ -74,15 +77,130 @@ fn source_path(ir: &IR) -> Option<Vec<String>> {
     }
 }
 
+/// Collects the templates that are rendered when the field is resolved
+fn collect_templates<'a>(ir: &'a IR, templates: &mut Vec<&'a Mustache>) {
+    fn from_value<'a, A>(value: &'a DynamicValue<A>, templates: &mut Vec<&'a Mustache>) {
+        match value {
+            DynamicValue::Value(_) => {}
+            DynamicValue::Mustache(mustache) => templates.push(mustache),
+            DynamicValue::Object(map) => map.values().for_each(|v| from_value(v, templates)),
+            DynamicValue::Array(list) => list.iter().for_each(|v| from_value(v, templates)),
+        }
+    }
+
+    match ir {
+        IR::Dynamic(value) => from_value(value, templates),
+        IR::IO(io) => collect_io_templates(io, templates),
+        IR::Cache(Cache { io, .. }) => collect_io_templates(io, templates),
+        IR::Path(ir, _) | IR::Protect(_, ir) | IR::Discriminate(_, ir) => {
+            collect_templates(ir, templates)
+        }
+        IR::Map(map) => collect_templates(&map.input, templates),
+        // the rest of the pipe is resolved from the arguments
+        IR::Pipe(first, _) => collect_templates(first, templates),
+        IR::Merge(irs) => irs.iter().for_each(|ir| collect_templates(ir, templates)),
+        IR::ContextPath(_) | IR::Entity(_) | IR::Service(_) => {}
+    }
+}
+
+fn collect_io_templates<'a>(io: &'a IO, templates: &mut Vec<&'a Mustache>) {
+    match io {
+        IO::Http { req_template, .. } => {
+            templates.push(&req_template.root_url);
+            templates.extend(req_template.query.iter().map(|query| &query.value));
+            templates.extend(req_template.headers.iter().map(|(_, value)| value));
+            templates.extend(&req_template.body_path);
+        }
+        IO::GraphQL { req_template, .. } => {
+            templates.extend(req_template.headers.iter().map(|(_, value)| value));
+            templates.extend(
+                req_template
+                    .operation_arguments
+                    .iter()
+                    .flatten()
+                    .map(|(_, value)| value),
+            );
+        }
+        IO::Grpc { req_template, .. } => {
+            templates.push(&req_template.url);
+            templates.extend(req_template.headers.iter().map(|(_, value)| value));
+            templates.extend(req_template.body.iter().flat_map(|body| &body.mustache));
+        }
+        IO::Js { .. } => {}
+    }
+}
+
+/// Formats the fields of the parent that are needed to resolve the field, as
+/// pairs of the name of a field and its selection
+fn format_required_fields(ir: &IR, type_name: &str, index: &Index) -> Vec<(String, String)> {
+    let mut templates = vec![];
+    collect_templates(ir, &mut templates);
+
+    templates
+        .into_iter()
+        .flat_map(|template| template.expression_segments())
+        .filter_map(|segments| match segments.split_first() {
+            Some((head, tail)) if head == "value" => {
+                format_required_field(tail, type_name, index).zip(tail.first().cloned())
+            }
+            _ => None,
+        })
+        .map(|(field, name)| (name, field))
+        .collect()
+}
+
+fn format_required_field(path: &[String], type_name: &str, index: &Index) -> Option<String> {
+    let (name, tail) = path.split_first()?;
+
+    if name.parse::<usize>().is_ok() {
+        return format_required_field(tail, type_name, index);
+    }
+
+    let tail = tail
+        .iter()
+        .filter(|segment| segment.parse::<usize>().is_err())
+        .cloned()
+        .collect::<Vec<_>>();
+
+    let type_of = match index.get_field(type_name, name) {
+        Some(QueryField::Field((field, _))) => {
+            // only the values of the upstream itself could be requested
+            let is_resolved = field
+                .resolver
+                .as_ref()
+                .is_some_and(|resolver| source_path(resolver).is_none());
+            if is_resolved || !field.args.is_empty() {
+                return None;
+            }
+            Some(field.of_type.name().as_str())
+        }
+        _ => None,
+    };
+
+    if tail.is_empty() {
+        // there is no way to request an object as a whole
+        let is_object = type_of
+            .is_some_and(|type_of| !index.type_is_scalar(type_of) && !index.type_is_enum(type_of));
+
+        return (!is_object).then(|| name.to_owned());
+    }
+
+    format_required_field(&tail, type_of.unwrap_or_default(), index)
+        .map(|field| format!("{name} {{ {field} }}"))
+}
+
 fn format_selection_set<'a, A: 'a + Display + JsonLikeOwned>(
     selection_set: impl Iterator<Item = &'a Field<A>>,
     interfaces: &HashSet<String>,
     is_parent_interface: bool,
+    index: &Index,
 ) -> Option<String> {
     let mut fragments_fields = HashMap::new();
     let mut normal_fields = vec![];
     let mut is_typename_requested = false;
     let mut is_empty = true;
+    let mut required_fields = vec![];
+    let mut requested_fields = HashSet::new();
 
     for field in selection_set {
         is_empty = false;
@@ -92,7 +210,21 @@ fn format_selection_set<'a, A: 'a + Display + JsonLikeOwned>(
             Some(ir) => match source_path(ir) {
                 Some(path) => path,
                 // the upstream doesn't know about the fields with their own resolvers
-                None => continue,
+                // but has to provide everything they are resolved from
+                None => {
+                    let type_name = field.type_condition.as_deref().unwrap_or_default();
+                    let fragment = field
+                        .parent_fragment
+                        .clone()
+                        .filter(|_| is_parent_interface);
+
+                    required_fields.extend(
+                        format_required_fields(ir, type_name, index)
+                            .into_iter()
+                            .map(|required_field| (fragment.clone(), required_field)),
+                    );
+                    continue;
+                }
             },
             None => vec![],
         };
@@ -101,9 +233,22 @@ fn format_selection_set<'a, A: 'a + Display + JsonLikeOwned>(
             .filter(|segment| segment.parse::<usize>().is_err())
             .collect::<Vec<_>>();
         let field_name = path.pop().unwrap_or(field.name.to_string());
+        if path.is_empty() && field.selection.is_empty() {
+            let fragment = field
+                .parent_fragment
+                .clone()
+                .filter(|_| is_parent_interface);
+            requested_fields.insert((fragment, field_name.clone()));
+        }
         let is_this_field_interface = interfaces.contains(field.type_of.name());
         let formatted_selection_fields = path.iter().rev().fold(
-            format_selection_field(field, &field_name, interfaces, is_this_field_interface),
+            format_selection_field(
+                field,
+                &field_name,
+                interfaces,
+                is_this_field_interface,
+                index,
+            ),
             |field, parent| format!("{parent} {{ {field} }}"),
         );
         is_typename_requested = is_typename_requested
@@ -125,6 +270,26 @@ fn format_selection_set<'a, A: 'a + Display + JsonLikeOwned>(
         return None;
     }
 
+    for (fragment, (name, required_field)) in required_fields {
+        // could be already requested by the user on the same or on any type
+        let is_requested = [&None, &fragment]
+            .into_iter()
+            .any(|fragment| requested_fields.contains(&(fragment.clone(), name.clone())));
+
+        if !is_requested {
+            if name == required_field {
+                requested_fields.insert((fragment.clone(), name));
+            }
+            match fragment {
+                Some(fragment) => fragments_fields
+                    .entry(fragment)
+                    .or_insert_with(Vec::new)
+                    .push(required_field),
+                None => normal_fields.push(required_field),
+            }
+        }
+    }
+
     let fragments_set: Vec<String> = fragments_fields
         .into_iter()
         .map(|(fragment_name, fields)| {
@@ -148,10 +313,15 @@ fn format_selection_field<A: Display + JsonLikeOwned>(
     name: &str,
     interfaces: &HashSet<String>,
     is_parent_interface: bool,
+    index: &Index,
 ) -> String {
     let arguments = format_selection_field_arguments(field);
-    let selection_set =
-        format_selection_set(field.selection.iter(), interfaces, is_parent_interface);
+    let selection_set = format_selection_set(
+        field.selection.iter(),
+        interfaces,
+        is_parent_interface,
+        index,
+    );
 
     let mut output = format!("{}{}", name, arguments);
 
-- 
2.43.0


From 28647dc97d463c569950f532c4bed30ba94e32f1 Mon Sep 17 00:00:00 2001
From: sim <x@x>
Date: Fri, 20 Nov 2026 03:28:48 +0000
Subject: [PATCH 58/65] fix: request the part of a GraphQL response that added
 fields are taken from

---
 src/core/jit/transform/graphql.rs | 88 +++++++++++++++++++++++++++----
 1 file changed, 79 insertions(+), 9 deletions(-)

diff --git a/src/core/jit/transform/graphql.rs b/src/core/jit/transform/graphql.rs
index 1ec8bf4..237223f 100644
--- a/src/core/jit/transform/graphql.rs
+++ b/src/core/jit/transform/graphql.rs
@@ -29,14 +29,32 @@ fn compute_selection_set<A: Display + Debug + JsonLikeOwned>(
 ) {
     for field in base_field.iter_mut() {
         if let Some(ir) = field.ir.as_mut() {
+            // the field could be only a part of what is resolved
+            let path = without_indices(value_path(ir));
+            let discriminated_at = discriminated_at(ir);
+
             ir.modify_io(&mut |io| {
                 if let IO::GraphQL { req_template, .. } = io {
-                    if let Some(v) = format_selection_set(
+                    let selection = format_selection_set(
                         field.selection.iter(),
                         interfaces,
                         interfaces.contains(field.type_of.name()),
                         index,
-                    ) {
+                    );
+                    let selection = path.iter().enumerate().rev().fold(
+                        selection,
+                        |selection, (depth, segment)| {
+                            let field = match selection {
+                                Some(selection) => format!("{segment} {selection}"),
+                                None => segment.to_owned(),
+                            };
+                            Some(format!(
+                                "{{ {}{field} }}",
+                                format_typename(discriminated_at == Some(depth))
+                            ))
+                        },
+                    );
+                    if let Some(v) = selection {
                         req_template.selection = Some(Mustache::parse(&v).into());
                     }
                 }
@@ -61,6 +79,47 @@ impl<A: Display + Debug + JsonLikeOwned + Clone> Transform for GraphQL<A> {
     }
 }
 
+/// Path in the resolved value where the field takes its value from
+fn value_path(ir: &IR) -> Vec<String> {
+    match ir {
+        IR::Path(ir, tail) => {
+            let mut path = value_path(ir);
+            path.extend(tail.iter().cloned());
+            path
+        }
+        IR::Protect(_, ir) | IR::Discriminate(_, ir) => value_path(ir),
+        IR::Map(map) => value_path(&map.input),
+        _ => vec![],
+    }
+}
+
+/// How deep in the path is the value which type has to be known
+fn discriminated_at(ir: &IR) -> Option<usize> {
+    match ir {
+        IR::Discriminate(_, ir) => {
+            let path = source_path(ir).unwrap_or_else(|| value_path(ir));
+            Some(without_indices(path).len())
+        }
+        IR::Path(ir, _) | IR::Protect(_, ir) => discriminated_at(ir),
+        IR::Map(map) => discriminated_at(&map.input),
+        _ => None,
+    }
+}
+
+fn without_indices(path: Vec<String>) -> Vec<String> {
+    path.into_iter()
+        .filter(|segment| segment.parse::<usize>().is_err())
+        .collect()
+}
+
+fn format_typename(is_required: bool) -> &'static str {
+    if is_required {
+        "__typename "
+    } else {
+        ""
+    }
+}
+
 /// Path in the value of the parent where the field takes its value from, None
 /// if the field is resolved on its own
 fn source_path(ir: &IR) -> Option<Vec<String>> {
@@ -228,11 +287,17 @@ fn format_selection_set<'a, A: 'a + Display + JsonLikeOwned>(
             },
             None => vec![],
         };
-        let mut path = path
-            .into_iter()
-            .filter(|segment| segment.parse::<usize>().is_err())
-            .collect::<Vec<_>>();
+        let mut path = without_indices(path);
         let field_name = path.pop().unwrap_or(field.name.to_string());
+        // the arguments of an added field are the arguments of its source
+        let arguments = format_selection_field_arguments(field);
+        let arguments = match path.first_mut() {
+            Some(source) => {
+                source.push_str(&arguments);
+                Cow::Borrowed("")
+            }
+            None => arguments,
+        };
         if path.is_empty() && field.selection.is_empty() {
             let fragment = field
                 .parent_fragment
@@ -241,15 +306,20 @@ fn format_selection_set<'a, A: 'a + Display + JsonLikeOwned>(
             requested_fields.insert((fragment, field_name.clone()));
         }
         let is_this_field_interface = interfaces.contains(field.type_of.name());
-        let formatted_selection_fields = path.iter().rev().fold(
+        let discriminated_at = field.ir.as_ref().and_then(discriminated_at);
+        let formatted_selection_fields = path.iter().enumerate().rev().fold(
             format_selection_field(
                 field,
                 &field_name,
+                &arguments,
                 interfaces,
                 is_this_field_interface,
                 index,
             ),
-            |field, parent| format!("{parent} {{ {field} }}"),
+            |field, (depth, parent)| {
+                let typename = format_typename(discriminated_at == Some(depth + 1));
+                format!("{parent} {{ {typename}{field} }}")
+            },
         );
         is_typename_requested = is_typename_requested
             || (field_name == "__typename" && field.parent_fragment.is_none());
@@ -311,11 +381,11 @@ fn format_selection_set<'a, A: 'a + Display + JsonLikeOwned>(
 fn format_selection_field<A: Display + JsonLikeOwned>(
     field: &Field<A>,
     name: &str,
+    arguments: &str,
     interfaces: &HashSet<String>,
     is_parent_interface: bool,
     index: &Index,
 ) -> String {
-    let arguments = format_selection_field_arguments(field);
     let selection_set = format_selection_set(
         field.selection.iter(),
         interfaces,
-- 
2.43.0


From 80305ce244a02d6259fa69f0034fd91b0344780e Mon Sep 17 00:00:00 2001
From: sim <x@x>
Date: Fri, 20 Nov 2026 03:48:03 +0000
Subject: [PATCH 59/65] fix: don't share responses whose nested fields aren't
 deduped or cached

---
 src/core/jit/transform/check_cache.rs  | 7 +++++--
 src/core/jit/transform/check_dedupe.rs | 5 +++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/core/jit/transform/check_cache.rs b/src/core/jit/transform/check_cache.rs
index 5839261..db24710 100644
--- a/src/core/jit/transform/check_cache.rs
+++ b/src/core/jit/transform/check_cache.rs
@@ -30,7 +30,10 @@ fn check_cache(ir: &IR) -> Option<NonZeroU64> {
         IR::Merge(vec) => vec.iter().map(check_cache).min().unwrap_or_default(),
         IR::Discriminate(_, ir) => check_cache(ir),
         IR::Entity(hash_map) => hash_map.values().map(check_cache).min().unwrap_or_default(),
-        IR::Dynamic(_) | IR::ContextPath(_) | IR::Map(_) | IR::Service(_) => None,
+        // nothing is requested for the field, its value is already there
+        IR::ContextPath(_) => Some(NonZeroU64::MAX),
+        IR::Map(map) => check_cache(&map.input),
+        IR::Dynamic(_) | IR::Service(_) => None,
     }
 }
 
@@ -41,7 +44,7 @@ impl<A> Transform for CheckCache<A> {
     fn transform(&self, mut plan: Self::Value) -> Valid<Self::Value, Self::Error> {
         let mut ttl = Some(NonZeroU64::MAX);
 
-        for field in plan.selection.iter() {
+        for field in plan.iter_dfs() {
             if let Some(ir) = field.ir.as_ref() {
                 ttl = std::cmp::min(ttl, check_cache(ir));
             }
diff --git a/src/core/jit/transform/check_dedupe.rs b/src/core/jit/transform/check_dedupe.rs
index 8287033..ff77018 100644
--- a/src/core/jit/transform/check_dedupe.rs
+++ b/src/core/jit/transform/check_dedupe.rs
@@ -26,7 +26,7 @@ fn check_dedupe(ir: &IR) -> bool {
         IR::Entity(hash_map) => hash_map.values().all(check_dedupe),
         IR::Dynamic(_) => true,
         IR::ContextPath(_) => true,
-        IR::Map(_) => true,
+        IR::Map(map) => check_dedupe(&map.input),
         IR::Service(_) => true,
     }
 }
@@ -36,7 +36,8 @@ impl<A> Transform for CheckDedupe<A> {
     type Error = Infallible;
 
     fn transform(&self, mut plan: Self::Value) -> Valid<Self::Value, Self::Error> {
-        let dedupe = plan.selection.iter().all(|field| {
+        // the response is shared as a whole, including what nested fields resolve
+        let dedupe = plan.iter_dfs().all(|field| {
             if let Some(ir) = field.ir.as_ref() {
                 check_dedupe(ir)
             } else {
-- 
2.43.0


From ca12f44eea5d2040a50477fbb5b84e184f6c6214 Mon Sep 17 00:00:00 2001
From: sim <x@x>
Date: Fri, 20 Nov 2026 04:03:08 +0000
Subject: [PATCH 60/65] fix: leave a null query parameter out when skipEmpty is
 set

---
 src/core/http/request_template.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/core/http/request_template.rs b/src/core/http/request_template.rs
index 5fcf53a..aa94bb4 100644
--- a/src/core/http/request_template.rs
+++ b/src/core/http/request_template.rs
@@ -58,7 +58,12 @@ impl RequestTemplate {
             let value = &query.value;
             let skip = query.skip_empty;
             let parsed_value = mustache_eval.eval(value, ctx);
-            if skip && parsed_value.is_none() {
+            let empty = match &parsed_value {
+                None => true,
+                Some(ValueString::Value(value)) => **value == async_graphql::Value::Null,
+                Some(ValueString::String(_)) => false,
+            };
+            if skip && empty {
                 None
             } else {
                 Some(self.query_encoder.encode(key, parsed_value))
-- 
2.43.0


From 8927b0eb8d7fbbcf34a2b2a1b2332f35f7fa4072 Mon Sep 17 00:00:00 2001
From: sim <x@x>
Date: Fri, 20 Nov 2026 04:03:43 +0000
Subject: [PATCH 61/65] fix: send template headers of @graphQL as plain text

---
 src/core/graphql/request_template.rs | 12 ++++++++++--
 src/core/path.rs                     |  9 +++++++++
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/core/graphql/request_template.rs b/src/core/graphql/request_template.rs
index f909832..b433652 100644
--- a/src/core/graphql/request_template.rs
+++ b/src/core/graphql/request_template.rs
@@ -15,7 +15,7 @@ use crate::core::http::Method::POST;
 use crate::core::ir::model::{CacheKey, IoId};
 use crate::core::ir::{GraphQLOperationContext, RelatedFields};
 use crate::core::json::escape_json;
-use crate::core::mustache::Mustache;
+use crate::core::mustache::{Mustache, Segment};
 use crate::core::path::{PathGraphql, PathString};
 
 /// Represents a GraphQL selection that can either be resolved or unresolved.
@@ -64,7 +64,15 @@ impl RequestTemplate {
         let mut header_map = HeaderMap::new();
 
         for (k, v) in &self.headers {
-            if let Ok(header_value) = HeaderValue::from_str(&v.render_graphql(ctx)) {
+            let value: String = v
+                .segments()
+                .iter()
+                .map(|segment| match segment {
+                    Segment::Literal(text) => text.to_string(),
+                    Segment::Expression(parts) => ctx.path_text(parts).unwrap_or_default(),
+                })
+                .collect();
+            if let Ok(header_value) = HeaderValue::from_str(&value) {
                 header_map.insert(k, header_value);
             }
         }
diff --git a/src/core/path.rs b/src/core/path.rs
index 2be6028..f7a1bfc 100644
--- a/src/core/path.rs
+++ b/src/core/path.rs
@@ -27,6 +27,11 @@ pub trait PathValue {
 /// JSON-like structure. The returned value is encoded as a GraphQL Value.
 pub trait PathGraphql {
     fn path_graphql<T: AsRef<str>>(&self, path: &[T]) -> Option<String>;
+
+    /// The value as plain text, for the parts of a request that aren't GraphQL
+    fn path_text<T: AsRef<str>>(&self, path: &[T]) -> Option<String> {
+        self.path_graphql(path)
+    }
 }
 
 impl PathString for serde_json::Value {
@@ -135,6 +140,10 @@ impl<Ctx: ResolverContextLike> PathGraphql for EvalContext<'_, Ctx> {
             ValueString::String(val) => async_graphql::Value::String(val.into_owned()).to_string(),
         })
     }
+
+    fn path_text<T: AsRef<str>>(&self, path: &[T]) -> Option<String> {
+        self.path_string(path).map(Cow::into_owned)
+    }
 }
 
 #[cfg(test)]
-- 
2.43.0


From b34bab6fc338b8476bb2fb9962699c6d69d5ca55 Mon Sep 17 00:00:00 2001
From: sim <x@x>
Date: Fri, 20 Nov 2026 04:04:27 +0000
Subject: [PATCH 62/65] fix: names in templates may start with an underscore

---
 src/core/mustache/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/mustache/parse.rs b/src/core/mustache/parse.rs
index 1e621fc..7f021ab 100644
--- a/src/core/mustache/parse.rs
+++ b/src/core/mustache/parse.rs
@@ -20,7 +20,7 @@ impl Mustache {
 
 fn parse_name(input: &str) -> IResult<&str, String> {
     let spaces = nom::character::complete::multispace0;
-    let alpha = nom::character::complete::alpha1;
+    let alpha = alt((nom::character::complete::alpha1, tag("_")));
     let alphanumeric_or_underscore = nom::multi::many0(nom::branch::alt((
         nom::character::complete::alphanumeric1,
         nom::bytes::complete::tag("_"),
-- 
2.43.0


From f22e35ef060983729f2d1575c4325616f2130ffa Mon Sep 17 00:00:00 2001
From: sim <x@x>
Date: Fri, 20 Nov 2026 04:05:17 +0000
Subject: [PATCH 63/65] fix: forward all the values of an allowed header

---
 src/core/graphql/data_loader.rs      | 7 ++++++-
 src/core/grpc/data_loader.rs         | 8 +++++++-
 src/core/grpc/data_loader_request.rs | 2 +-
 src/core/http/data_loader.rs         | 7 ++++++-
 src/core/http/data_loader_request.rs | 2 +-
 src/core/http/request_handler.rs     | 2 +-
 6 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/core/graphql/data_loader.rs b/src/core/graphql/data_loader.rs
index 4dac17c..3401fa7 100644
--- a/src/core/graphql/data_loader.rs
+++ b/src/core/graphql/data_loader.rs
@@ -81,7 +81,12 @@ fn split_by_headers(dataloader_requests: &[DataLoaderRequest]) -> Vec<Vec<DataLo
         let headers = dataloader_req
             .headers()
             .iter()
-            .map(|name| reqwest::Request::headers(dataloader_req).get(name))
+            .map(|name| {
+                reqwest::Request::headers(dataloader_req)
+                    .get_all(name)
+                    .iter()
+                    .collect::<Vec<_>>()
+            })
             .collect::<Vec<_>>();
         groups
             .entry(headers)
diff --git a/src/core/grpc/data_loader.rs b/src/core/grpc/data_loader.rs
index aba5005..5f4fc59 100644
--- a/src/core/grpc/data_loader.rs
+++ b/src/core/grpc/data_loader.rs
@@ -41,7 +41,13 @@ impl GrpcDataLoader {
             let headers = key
                 .batch_headers()
                 .iter()
-                .map(|name| key.template.headers.get(name))
+                .map(|name| {
+                    key.template
+                        .headers
+                        .get_all(name)
+                        .iter()
+                        .collect::<Vec<_>>()
+                })
                 .collect::<Vec<_>>();
             targets
                 .entry((&key.template.url, headers))
diff --git a/src/core/grpc/data_loader_request.rs b/src/core/grpc/data_loader_request.rs
index 6c4e275..ae64f58 100644
--- a/src/core/grpc/data_loader_request.rs
+++ b/src/core/grpc/data_loader_request.rs
@@ -18,7 +18,7 @@ impl Hash for DataLoaderRequest {
         self.template.body.hash(state);
 
         for name in &self.batch_headers {
-            if let Some(value) = self.template.headers.get(name) {
+            for value in self.template.headers.get_all(name) {
                 name.hash(state);
                 value.hash(state);
             }
diff --git a/src/core/http/data_loader.rs b/src/core/http/data_loader.rs
index 46561e1..3e2905a 100644
--- a/src/core/http/data_loader.rs
+++ b/src/core/http/data_loader.rs
@@ -76,7 +76,12 @@ impl HttpDataLoader {
             let headers = key
                 .headers()
                 .iter()
-                .map(|name| reqwest::Request::headers(key).get(name))
+                .map(|name| {
+                    reqwest::Request::headers(key)
+                        .get_all(name)
+                        .iter()
+                        .collect::<Vec<_>>()
+                })
                 .collect::<Vec<_>>();
 
             targets
diff --git a/src/core/http/data_loader_request.rs b/src/core/http/data_loader_request.rs
index 4631fdd..62bf89f 100644
--- a/src/core/http/data_loader_request.rs
+++ b/src/core/http/data_loader_request.rs
@@ -46,7 +46,7 @@ impl Hash for DataLoaderRequest {
             body.as_bytes().hash(state);
         }
         for name in &self.headers {
-            if let Some(value) = self.request.headers().get(name) {
+            for value in self.request.headers().get_all(name) {
                 name.hash(state);
                 value.hash(state);
             }
diff --git a/src/core/http/request_handler.rs b/src/core/http/request_handler.rs
index 9470044..c7c25c5 100644
--- a/src/core/http/request_handler.rs
+++ b/src/core/http/request_handler.rs
@@ -162,7 +162,7 @@ fn create_allowed_headers(headers: &HeaderMap, allowed: &BTreeSet<String>) -> He
             .iter()
             .any(|allowed_key| allowed_key.eq_ignore_ascii_case(k.as_str()))
         {
-            new_headers.insert(k, v.clone());
+            new_headers.append(k, v.clone());
         }
     }
     new_headers
-- 
2.43.0


From f8924b9893bc0989063df56da87afc483e21a308 Mon Sep 17 00:00:00 2001
From: sim <x@x>
Date: Fri, 20 Nov 2026 04:34:30 +0000
Subject: [PATCH 64/65] fix: keep showcased configurations from reading the
 server's files

---
 src/core/http/showcase.rs | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/core/http/showcase.rs b/src/core/http/showcase.rs
index 413cd22..00929ff 100644
--- a/src/core/http/showcase.rs
+++ b/src/core/http/showcase.rs
@@ -1,6 +1,7 @@
 use std::collections::HashMap;
+use std::sync::Arc;
 
-use anyhow::Result;
+use anyhow::{bail, Result};
 use async_graphql::ServerError;
 use http::{Request, Response};
 use hyper::Body;
@@ -13,10 +14,26 @@ use crate::core::blueprint::Blueprint;
 use crate::core::config::reader::ConfigReader;
 use crate::core::rest::EndpointSet;
 use crate::core::runtime::TargetRuntime;
+use crate::core::FileIO;
+
+/// A configuration from elsewhere can't read the files of the server, neither
+/// directly (e.g. with a path that looks like a URL) nor with its links
+struct NoFileIO;
+
+#[async_trait::async_trait]
+impl FileIO for NoFileIO {
+    async fn write<'a>(&'a self, path: &'a str, _content: &'a [u8]) -> Result<()> {
+        bail!("Access to file `{}` is not allowed", path)
+    }
+
+    async fn read<'a>(&'a self, path: &'a str) -> Result<String> {
+        bail!("Access to file `{}` is not allowed", path)
+    }
+}
 
 pub async fn create_app_ctx<T: DeserializeOwned + GraphQLRequestLike>(
     req: &Request<Body>,
-    runtime: TargetRuntime,
+    mut runtime: TargetRuntime,
     enable_fs: bool,
 ) -> Result<Result<AppContext, Response<Body>>> {
     let config_url = req
@@ -41,6 +58,10 @@ pub async fn create_app_ctx<T: DeserializeOwned + GraphQLRequestLike>(
         return Ok(Err(GraphQLResponse::from(response).into_response()?));
     }
 
+    if !enable_fs {
+        runtime.file = Arc::new(NoFileIO);
+    }
+
     let reader = ConfigReader::init(runtime.clone());
     let config = match reader.read(config_url).await {
         Ok(config) => config,
-- 
2.43.0


From e0174674ee0b39479c00f855e04bad736feab280 Mon Sep 17 00:00:00 2001
From: sim <x@x>
Date: Fri, 20 Nov 2026 04:36:53 +0000
Subject: [PATCH 65/65] fix: give showcased configurations a cache of their own

---
 src/core/http/showcase.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/core/http/showcase.rs b/src/core/http/showcase.rs
index 00929ff..f710c4a 100644
--- a/src/core/http/showcase.rs
+++ b/src/core/http/showcase.rs
@@ -11,6 +11,7 @@ use url::Url;
 use crate::core::app_context::AppContext;
 use crate::core::async_graphql_hyper::{GraphQLRequestLike, GraphQLResponse};
 use crate::core::blueprint::Blueprint;
+use crate::core::cache::InMemoryCache;
 use crate::core::config::reader::ConfigReader;
 use crate::core::rest::EndpointSet;
 use crate::core::runtime::TargetRuntime;
@@ -83,6 +84,10 @@ pub async fn create_app_ctx<T: DeserializeOwned + GraphQLRequestLike>(
         }
     };
 
+    // the lifetimes that this configuration gives to its entries are not for the
+    // ones of the server
+    runtime.cache = Arc::new(InMemoryCache::default());
+
     Ok(Ok(AppContext::new(
         blueprint,
         runtime,
-- 
2.43.0

