From 92b927469cf2d7017faa3e98cdf6c8ad449c048e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:13 +0000
Subject: [PATCH 01/60] fix: accept sub-tables of an array of tables after
 unrelated array-of-tables headers

[a.x] (or [[a.x]]) extends the last element of [[a]] even when other
[[...]] headers stand in between; the search for the parent arrays of
tables stopped at the first unrelated header, so such documents were
rejected with a duplicate key error.
---
 crates/tombi-ast/src/impls/array_of_table.rs | 2 +-
 crates/tombi-ast/src/impls/table.rs          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/tombi-ast/src/impls/array_of_table.rs b/crates/tombi-ast/src/impls/array_of_table.rs
index 4bf379f..c7ba402 100644
--- a/crates/tombi-ast/src/impls/array_of_table.rs
+++ b/crates/tombi-ast/src/impls/array_of_table.rs
@@ -153,7 +153,7 @@ impl crate::ArrayOfTable {
     ) -> impl Iterator<Item = AstChildren<crate::Key>> + '_ {
         support::node::prev_siblings_nodes(self)
             .filter_map(|node: ArrayOfTable| node.header().map(|header| header.keys()))
-            .take_while(move |keys| {
+            .filter(move |keys| {
                 match (
                     self.header().and_then(|header| header.keys().next()),
                     keys.clone().next(),
diff --git a/crates/tombi-ast/src/impls/table.rs b/crates/tombi-ast/src/impls/table.rs
index 18eb2c5..91a2928 100644
--- a/crates/tombi-ast/src/impls/table.rs
+++ b/crates/tombi-ast/src/impls/table.rs
@@ -154,7 +154,7 @@ impl crate::Table {
     ) -> impl Iterator<Item = AstChildren<crate::Key>> + '_ {
         support::node::prev_siblings_nodes(self)
             .filter_map(|node: ArrayOfTable| node.header().map(|header| header.keys()))
-            .take_while(move |keys| {
+            .filter(move |keys| {
                 match (
                     self.header().and_then(|header| header.keys().next()),
                     keys.clone().next(),
-- 
2.43.0


From c25b22f19a446d195b3ec8fceb036775fc7146a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:13 +0000
Subject: [PATCH 02/60] fix: reject dotted keys that redefine a table defined
 by a header

TOML forbids [a.b] followed by [a] with b.c = 1.
---
 crates/tombi-document-tree/src/value/table.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/crates/tombi-document-tree/src/value/table.rs b/crates/tombi-document-tree/src/value/table.rs
index b4ef04e..cbebfd5 100644
--- a/crates/tombi-document-tree/src/value/table.rs
+++ b/crates/tombi-document-tree/src/value/table.rs
@@ -297,6 +297,16 @@ impl Table {
                 tombi_hashmap::map::Entry::Occupied(mut entry) => {
                     let value1 = entry.get_mut();
                     match (value1, value2) {
+                        // Dotted keys cannot redefine a table already defined by a header.
+                        (Value::Table(table1), Value::Table(table2))
+                            if table1.kind == Table
+                                && matches!(table2.kind, ParentKey | KeyValue) =>
+                        {
+                            errors.push(crate::Error::ConflictTable {
+                                range1: table1.symbol_range,
+                                range2: table2.symbol_range,
+                            });
+                        }
                         (Value::Table(table1), Value::Table(table2)) => {
                             if let Err(errs) = table1.merge(table2) {
                                 errors.extend(errs);
-- 
2.43.0


From 79fca0d294add3dceb3900858ba4660895cfcac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:42 +0000
Subject: [PATCH 03/60] verif: let a harness replace the schema stores' HTTP
 client (feature verif-hooks)

---
 crates/tombi-schema-store/Cargo.toml         |  2 ++
 crates/tombi-schema-store/src/lib.rs         |  2 ++
 crates/tombi-schema-store/src/store.rs       |  5 +++++
 crates/tombi-schema-store/src/verif_hooks.rs | 18 ++++++++++++++++++
 4 files changed, 27 insertions(+)
 create mode 100644 crates/tombi-schema-store/src/verif_hooks.rs

diff --git a/crates/tombi-schema-store/Cargo.toml b/crates/tombi-schema-store/Cargo.toml
index c0ce180..d876a7e 100644
--- a/crates/tombi-schema-store/Cargo.toml
+++ b/crates/tombi-schema-store/Cargo.toml
@@ -47,6 +47,8 @@ gloo-net06 = ["gloo-net"]
 native = ["reqwest", "tombi-future/native"]
 reqwest = ["dep:reqwest"]
 reqwest01 = ["reqwest"]
+# Lets a verification harness replace the HTTP client of every schema store.
+verif-hooks = []
 wasm = ["gloo-net", "tombi-future/wasm"]
 
 [lints]
diff --git a/crates/tombi-schema-store/src/lib.rs b/crates/tombi-schema-store/src/lib.rs
index b92b90c..eb25410 100644
--- a/crates/tombi-schema-store/src/lib.rs
+++ b/crates/tombi-schema-store/src/lib.rs
@@ -8,6 +8,8 @@ mod options;
 mod schema;
 mod store;
 mod value_type;
+#[cfg(feature = "verif-hooks")]
+pub mod verif_hooks;
 mod x_taplo;
 
 pub use error::{Error, SCHEMA_RESOLUTION_DIAGNOSTIC_CODE};
diff --git a/crates/tombi-schema-store/src/store.rs b/crates/tombi-schema-store/src/store.rs
index 4f78d14..6ca21a7 100644
--- a/crates/tombi-schema-store/src/store.rs
+++ b/crates/tombi-schema-store/src/store.rs
@@ -73,6 +73,11 @@ impl SchemaStore {
     /// Create a store with the given options.
     /// Note that the new_with_options() does not automatically load schemas from Config etc.
     pub fn new_with_options(options: crate::Options) -> Self {
+        #[cfg(feature = "verif-hooks")]
+        if let Some(http_client) = crate::verif_hooks::http_client() {
+            return Self::new_with_options_and_http_client(options, http_client);
+        }
+
         Self::new_with_options_and_http_client(options, Arc::new(DefaultHttpClient::new()))
     }
 
diff --git a/crates/tombi-schema-store/src/verif_hooks.rs b/crates/tombi-schema-store/src/verif_hooks.rs
new file mode 100644
index 0000000..13c8c4a
--- /dev/null
+++ b/crates/tombi-schema-store/src/verif_hooks.rs
@@ -0,0 +1,18 @@
+//! Hooks of a verification harness, compiled only with the `verif-hooks` feature.
+
+use std::{cell::RefCell, sync::Arc};
+
+use crate::HttpClient;
+
+thread_local! {
+    static HTTP_CLIENT: RefCell<Option<Arc<dyn HttpClient>>> = const { RefCell::new(None) };
+}
+
+/// The HTTP client of the schema stores that this thread creates from now on.
+pub fn set_http_client(http_client: Option<Arc<dyn HttpClient>>) {
+    HTTP_CLIENT.with(|cell| *cell.borrow_mut() = http_client);
+}
+
+pub(crate) fn http_client() -> Option<Arc<dyn HttpClient>> {
+    HTTP_CLIENT.with(|cell| cell.borrow().clone())
+}
-- 
2.43.0


From 14634ae3eb5ac0cb2f48e207e8b3d9bd166cd77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:45 +0000
Subject: [PATCH 04/60] fix: register an opened document before its schema is
 downloaded

A change, save or close that arrived while didOpen waited for a schema did not
find the document, and the older text was inserted afterwards. A document closed
and opened again during that time also left requests waiting for ever, because
the first opening removed the second one's channel.
---
 crates/tombi-lsp/src/backend.rs            | 37 +++++++++++-----
 crates/tombi-lsp/src/handler/diagnostic.rs |  1 +
 crates/tombi-lsp/src/handler/did_open.rs   | 50 +++++++++++++++++-----
 3 files changed, 68 insertions(+), 20 deletions(-)

diff --git a/crates/tombi-lsp/src/backend.rs b/crates/tombi-lsp/src/backend.rs
index ae6d246..f9fcab2 100644
--- a/crates/tombi-lsp/src/backend.rs
+++ b/crates/tombi-lsp/src/backend.rs
@@ -107,23 +107,40 @@ impl Backend {
         }
     }
 
-    pub(crate) fn begin_document_open(&self, text_document_uri: tombi_uri::Uri) {
+    pub(crate) fn begin_document_open(
+        &self,
+        text_document_uri: tombi_uri::Uri,
+    ) -> tokio::sync::watch::Sender<bool> {
         let (ready, _) = tokio::sync::watch::channel(false);
         self.opening_documents
             .lock()
             .unwrap_or_else(|error| error.into_inner())
-            .insert(text_document_uri, ready);
+            .insert(text_document_uri, ready.clone());
+        ready
     }
 
-    pub(crate) fn finish_document_open(&self, text_document_uri: &tombi_uri::Uri) {
-        let ready = self
-            .opening_documents
-            .lock()
-            .unwrap_or_else(|error| error.into_inner())
-            .remove(text_document_uri);
-        if let Some(ready) = ready {
-            ready.send_replace(true);
+    /// Wake the requests that wait for this opening of the document.
+    ///
+    /// The document may have been closed and opened again in the meantime,
+    /// so only this opening is finished, not the one that replaced it.
+    pub(crate) fn finish_document_open(
+        &self,
+        text_document_uri: &tombi_uri::Uri,
+        opening: &tokio::sync::watch::Sender<bool>,
+    ) {
+        {
+            let mut opening_documents = self
+                .opening_documents
+                .lock()
+                .unwrap_or_else(|error| error.into_inner());
+            if opening_documents
+                .get(text_document_uri)
+                .is_some_and(|ready| ready.same_channel(opening))
+            {
+                opening_documents.remove(text_document_uri);
+            }
         }
+        opening.send_replace(true);
     }
 
     pub(crate) async fn wait_for_document_open(&self, text_document_uri: &tombi_uri::Uri) {
diff --git a/crates/tombi-lsp/src/handler/diagnostic.rs b/crates/tombi-lsp/src/handler/diagnostic.rs
index fca4ca9..e80d833 100644
--- a/crates/tombi-lsp/src/handler/diagnostic.rs
+++ b/crates/tombi-lsp/src/handler/diagnostic.rs
@@ -13,6 +13,7 @@ pub async fn handle_diagnostic(
     let DocumentDiagnosticParams { text_document, .. } = params;
 
     let text_document_uri = text_document.uri.into();
+    backend.wait_for_document_open(&text_document_uri).await;
 
     Ok({
         DocumentDiagnosticReportResult::Report(DocumentDiagnosticReport::Full(
diff --git a/crates/tombi-lsp/src/handler/did_open.rs b/crates/tombi-lsp/src/handler/did_open.rs
index 0cbe89c..7ae62c2 100644
--- a/crates/tombi-lsp/src/handler/did_open.rs
+++ b/crates/tombi-lsp/src/handler/did_open.rs
@@ -1,3 +1,4 @@
+use tombi_config::TomlVersion;
 use tower_lsp::lsp_types::DidOpenTextDocumentParams;
 
 use crate::{backend::Backend, document::DocumentSource};
@@ -21,25 +22,54 @@ pub async fn handle_did_open(backend: &Backend, params: DidOpenTextDocumentParam
     let DidOpenTextDocumentParams { text_document, .. } = params;
 
     let text_document_uri: tombi_uri::Uri = text_document.uri.into();
-    backend.begin_document_open(text_document_uri.clone());
-    let toml_version = backend
-        .text_document_toml_version(&text_document_uri, &text_document.text)
-        .await;
+    let text = text_document.text;
+    let version = text_document.version;
+    let opening = backend.begin_document_open(text_document_uri.clone());
+
+    // Register the document up front, as `did_change` does. Resolving the TOML version
+    // may download a schema, and a change, save or close that is handled in the meantime
+    // must find the document. The TOML version is refined below.
     let encoding_kind = backend.capabilities.read().await.encoding_kind;
     let document_source = DocumentSource::new(
-        text_document.text,
-        Some(text_document.version),
-        toml_version,
+        text.as_str(),
+        Some(version),
+        TomlVersion::default(),
         encoding_kind,
     );
-    let document_tree = document_source.document_tree();
-
     {
         let mut document_sources = backend.document_sources.write().await;
 
         document_sources.insert(text_document_uri.clone(), document_source);
     }
 
+    backend
+        .workspace_diagnostics_cache
+        .write()
+        .await
+        .clear(&text_document_uri);
+
+    let toml_version = backend
+        .text_document_toml_version(&text_document_uri, &text)
+        .await;
+
+    let document_tree = {
+        let mut document_sources = backend.document_sources.write().await;
+        document_sources
+            .get_mut(&text_document_uri)
+            .filter(|document| document.version == Some(version) && document.text() == text)
+            .map(|document| {
+                if document.toml_version != toml_version {
+                    document.set_text(text.as_str(), toml_version);
+                }
+                document.document_tree()
+            })
+    };
+    let Some(document_tree) = document_tree else {
+        // Changed or closed in the meantime: the newer message takes care of the rest.
+        backend.finish_document_open(&text_document_uri, &opening);
+        return;
+    };
+
     backend
         .workspace_diagnostics_cache
         .write()
@@ -77,7 +107,7 @@ pub async fn handle_did_open(backend: &Backend, params: DidOpenTextDocumentParam
             )
         },
     );
-    backend.finish_document_open(&text_document_uri);
+    backend.finish_document_open(&text_document_uri, &opening);
 
     // Publish diagnostics for the opened document
     backend.push_diagnostics(text_document_uri).await;
-- 
2.43.0


From 14e07c84cacb032b4a2d6162c1f233d761a3579d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:45 +0000
Subject: [PATCH 05/60] fix: do not hold the document lock across a
 completion's schema download

An edit had to wait for the download.
---
 crates/tombi-lsp/src/backend.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/crates/tombi-lsp/src/backend.rs b/crates/tombi-lsp/src/backend.rs
index f9fcab2..2f497a5 100644
--- a/crates/tombi-lsp/src/backend.rs
+++ b/crates/tombi-lsp/src/backend.rs
@@ -415,11 +415,16 @@ impl tower_lsp::LanguageServer for Backend {
             .uri
             .clone()
             .into();
-        let Ok(document_sources) = self.document_sources.try_read() else {
-            return Ok(None);
-        };
-        let Some(document_source) = document_sources.get(&text_document_uri) else {
-            return Ok(None);
+        // Do not hold the lock while completing: it may download a schema,
+        // and edits must not wait for that.
+        let line_index = {
+            let Ok(document_sources) = self.document_sources.try_read() else {
+                return Ok(None);
+            };
+            let Some(document_source) = document_sources.get(&text_document_uri) else {
+                return Ok(None);
+            };
+            document_source.line_index_arc()
         };
 
         handle_completion(self, params).await.map(|response| {
@@ -427,7 +432,7 @@ impl tower_lsp::LanguageServer for Backend {
                 CompletionResponse::Array(
                     items
                         .into_iter()
-                        .map(|item| item.into_lsp(document_source.line_index()))
+                        .map(|item| item.into_lsp(line_index.as_ref()))
                         .collect(),
                 )
             })
-- 
2.43.0


From 4c7d1669b77e01b8b01fa91ced8c817213849201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:45 +0000
Subject: [PATCH 06/60] fix: do not publish or cache diagnostics of an outdated
 text

Linting can wait for a schema while the document is edited, closed or reopened
with the same version number.
---
 crates/tombi-lsp/src/backend.rs              |  8 +++
 crates/tombi-lsp/src/diagnostic.rs           | 55 ++++++++++++++------
 crates/tombi-lsp/src/handler/diagnostic.rs   |  8 ++-
 crates/tombi-lsp/src/handler/did_change.rs   |  7 ++-
 crates/tombi-lsp/src/workspace_diagnostic.rs |  6 ++-
 5 files changed, 63 insertions(+), 21 deletions(-)

diff --git a/crates/tombi-lsp/src/backend.rs b/crates/tombi-lsp/src/backend.rs
index 2f497a5..3a39403 100644
--- a/crates/tombi-lsp/src/backend.rs
+++ b/crates/tombi-lsp/src/backend.rs
@@ -157,6 +157,14 @@ impl Backend {
         }
     }
 
+    pub(crate) async fn is_document_open(&self, text_document_uri: &tombi_uri::Uri) -> bool {
+        self.document_sources
+            .read()
+            .await
+            .get(text_document_uri)
+            .is_some_and(|document| document.version.is_some())
+    }
+
     pub fn spawn_background_task(&self, task: impl Future<Output = ()> + Send + 'static) {
         let mut background_tasks = self
             .background_tasks
diff --git a/crates/tombi-lsp/src/diagnostic.rs b/crates/tombi-lsp/src/diagnostic.rs
index 1753190..6ff359b 100644
--- a/crates/tombi-lsp/src/diagnostic.rs
+++ b/crates/tombi-lsp/src/diagnostic.rs
@@ -14,6 +14,28 @@ pub async fn get_diagnostics_result(
     backend: &Backend,
     text_document_uri: &tombi_uri::Uri,
 ) -> Option<DiagnosticsResult> {
+    compute_diagnostics_result(backend, text_document_uri)
+        .await
+        .map(|(diagnostics_result, _)| diagnostics_result)
+}
+
+/// Diagnostics that may be published, that is, which still belong to the document
+/// as it is now. Linting can be suspended (e.g. by a schema download) while the
+/// document is edited, closed or reopened, and publishing the outdated result
+/// would overwrite the diagnostics of the newer text.
+pub async fn get_publishable_diagnostics_result(
+    backend: &Backend,
+    text_document_uri: &tombi_uri::Uri,
+) -> Option<DiagnosticsResult> {
+    compute_diagnostics_result(backend, text_document_uri)
+        .await
+        .and_then(|(diagnostics_result, is_current)| is_current.then_some(diagnostics_result))
+}
+
+async fn compute_diagnostics_result(
+    backend: &Backend,
+    text_document_uri: &tombi_uri::Uri,
+) -> Option<(DiagnosticsResult, bool)> {
     if let Some(diagnostics_result) = {
         backend
             .workspace_diagnostics_cache
@@ -37,7 +59,7 @@ pub async fn get_diagnostics_result(
             .and_then(|document_source| document_source.version);
 
         if diagnostics_result.version == current_version {
-            return Some(diagnostics_result);
+            return Some((diagnostics_result, true));
         }
     }
 
@@ -77,9 +99,7 @@ pub async fn get_diagnostics_result(
     }
 
     let (text, version, toml_version, encoding_kind) = {
-        let Ok(document_sources) = backend.document_sources.try_read() else {
-            return None;
-        };
+        let document_sources = backend.document_sources.read().await;
         let document_source = document_sources.get(text_document_uri)?;
         (
             document_source.text_arc(),
@@ -125,18 +145,23 @@ pub async fn get_diagnostics_result(
         version,
     };
 
-    {
+    let is_current = {
         let mut workspace_diagnostics_cache = backend.workspace_diagnostics_cache.write().await;
-        if let Ok(document_sources) = backend.document_sources.try_read() {
-            let current_version = document_sources
-                .get(text_document_uri)
-                .and_then(|document_source| document_source.version);
-            if current_version == diagnostics_result.version {
-                workspace_diagnostics_cache
-                    .set(text_document_uri.clone(), diagnostics_result.clone());
-            }
+        let document_sources = backend.document_sources.read().await;
+        // The version alone does not identify the text: a document that is closed
+        // and opened again may reuse the version number.
+        let is_current = document_sources
+            .get(text_document_uri)
+            .is_some_and(|document_source| {
+                document_source.version == diagnostics_result.version
+                    && document_source.toml_version == toml_version
+                    && document_source.text() == text.as_ref()
+            });
+        if is_current {
+            workspace_diagnostics_cache.set(text_document_uri.clone(), diagnostics_result.clone());
         }
-    }
+        is_current
+    };
 
-    Some(diagnostics_result)
+    Some((diagnostics_result, is_current))
 }
diff --git a/crates/tombi-lsp/src/handler/diagnostic.rs b/crates/tombi-lsp/src/handler/diagnostic.rs
index e80d833..961b8cb 100644
--- a/crates/tombi-lsp/src/handler/diagnostic.rs
+++ b/crates/tombi-lsp/src/handler/diagnostic.rs
@@ -3,7 +3,10 @@ use tower_lsp::lsp_types::{
     FullDocumentDiagnosticReport, RelatedFullDocumentDiagnosticReport,
 };
 
-use crate::{backend::Backend, diagnostic::get_diagnostics_result};
+use crate::{
+    backend::Backend,
+    diagnostic::{get_diagnostics_result, get_publishable_diagnostics_result},
+};
 
 /// Pull diagnostics
 pub async fn handle_diagnostic(
@@ -56,7 +59,8 @@ pub async fn push_diagnostics(backend: &Backend, text_document_uri: tombi_uri::U
     log::info!("push_diagnostics");
     log::trace!("{:?}", params);
 
-    let Some(diagnostics_result) = get_diagnostics_result(backend, &params.text_document.uri).await
+    let Some(diagnostics_result) =
+        get_publishable_diagnostics_result(backend, &params.text_document.uri).await
     else {
         return;
     };
diff --git a/crates/tombi-lsp/src/handler/did_change.rs b/crates/tombi-lsp/src/handler/did_change.rs
index 9ae6090..36f5446 100644
--- a/crates/tombi-lsp/src/handler/did_change.rs
+++ b/crates/tombi-lsp/src/handler/did_change.rs
@@ -68,7 +68,9 @@ pub async fn handle_did_change(backend: &Backend, params: DidChangeTextDocumentP
                 let Some(document) = document_sources.get_mut(&text_document_uri) else {
                     return;
                 };
-                if document.version != Some(text_document.version) {
+                if document.version != Some(text_document.version)
+                    || document.text() != text.as_str()
+                {
                     return;
                 }
                 document.set_text(text, toml_version);
@@ -82,7 +84,8 @@ pub async fn handle_did_change(backend: &Backend, params: DidChangeTextDocumentP
         }
     }
 
-    if need_publish_diagnostics {
+    // The document may have been closed while the TOML version was resolved
+    if need_publish_diagnostics && backend.is_document_open(&text_document_uri).await {
         // Publish diagnostics for the changed document
         backend.push_diagnostics(text_document_uri).await;
     }
diff --git a/crates/tombi-lsp/src/workspace_diagnostic.rs b/crates/tombi-lsp/src/workspace_diagnostic.rs
index af6cd3e..77bb0d2 100644
--- a/crates/tombi-lsp/src/workspace_diagnostic.rs
+++ b/crates/tombi-lsp/src/workspace_diagnostic.rs
@@ -4,7 +4,7 @@ use tombi_glob::search_pattern_matched_paths;
 
 use crate::{
     Backend,
-    diagnostic::{DiagnosticsResult, get_diagnostics_result},
+    diagnostic::{DiagnosticsResult, get_publishable_diagnostics_result},
     document::DocumentSource,
     workspace_config::get_workspace_configs,
 };
@@ -103,7 +103,9 @@ async fn publish_workspace_diagnostics(
     text_document_uri: tombi_uri::Uri,
     options: &WorkspaceDiagnosticOptions,
 ) {
-    let Some(diagnostics_result) = get_diagnostics_result(backend, &text_document_uri).await else {
+    let Some(diagnostics_result) =
+        get_publishable_diagnostics_result(backend, &text_document_uri).await
+    else {
         return;
     };
 
-- 
2.43.0


From bf1198192980765b8e367c454ea40f40e9c050a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:45 +0000
Subject: [PATCH 07/60] fix: do not hold the document lock across a schema
 download in didSave

---
 crates/tombi-lsp/src/handler/did_save.rs | 37 ++++++++++++++++++++----
 1 file changed, 31 insertions(+), 6 deletions(-)

diff --git a/crates/tombi-lsp/src/handler/did_save.rs b/crates/tombi-lsp/src/handler/did_save.rs
index 548e394..cfd8179 100644
--- a/crates/tombi-lsp/src/handler/did_save.rs
+++ b/crates/tombi-lsp/src/handler/did_save.rs
@@ -15,19 +15,21 @@ pub async fn handle_did_save(backend: &Backend, params: DidSaveTextDocumentParam
 
     let mut need_publish_diagnostics = { backend.is_diagnostic_mode_push().await };
 
+    // Apply the text up front and refine the TOML version afterwards, as `did_change` does.
+    // Resolving the TOML version may download a schema, and neither edits nor requests
+    // for any document must wait for that.
+    let mut saved = None;
     if let Some(text) = text {
         let mut document_sources = backend.document_sources.write().await;
 
-        let toml_version = backend
-            .text_document_toml_version(&text_document_uri, &text)
-            .await;
-
         if let Some(document) = document_sources.get_mut(&text_document_uri) {
             if need_publish_diagnostics && document.text() == text {
                 need_publish_diagnostics = false;
             }
 
-            document.set_text(text, toml_version);
+            let previous_toml_version = document.toml_version;
+            document.set_text(text.as_str(), previous_toml_version);
+            saved = Some((text, previous_toml_version));
         };
     };
 
@@ -37,8 +39,31 @@ pub async fn handle_did_save(backend: &Backend, params: DidSaveTextDocumentParam
         .await
         .clear(&text_document_uri);
 
+    if let Some((text, previous_toml_version)) = saved {
+        let toml_version = backend
+            .text_document_toml_version(&text_document_uri, &text)
+            .await;
+
+        if toml_version != previous_toml_version {
+            {
+                let mut document_sources = backend.document_sources.write().await;
+                if let Some(document) = document_sources.get_mut(&text_document_uri)
+                    && document.text() == text
+                {
+                    document.set_text(text, toml_version);
+                }
+            }
+
+            backend
+                .workspace_diagnostics_cache
+                .write()
+                .await
+                .clear(&text_document_uri);
+        }
+    }
+
     // Publish diagnostics for the saved document
-    if need_publish_diagnostics {
+    if need_publish_diagnostics && backend.is_document_open(&text_document_uri).await {
         backend.push_diagnostics(text_document_uri).await
     }
 }
-- 
2.43.0


From ef68715e30695f3bb6b1bac8d8d9f581d2d7d59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:45 +0000
Subject: [PATCH 08/60] fix: keep an open document when its file is deleted

---
 crates/tombi-lsp/src/handler/did_change_watched_files.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/tombi-lsp/src/handler/did_change_watched_files.rs b/crates/tombi-lsp/src/handler/did_change_watched_files.rs
index 223931f..812b209 100644
--- a/crates/tombi-lsp/src/handler/did_change_watched_files.rs
+++ b/crates/tombi-lsp/src/handler/did_change_watched_files.rs
@@ -29,12 +29,16 @@ pub async fn handle_did_change_watched_files(
                 if let Ok(path) = uri.to_file_path() {
                     tombi_fs::remove_file(&path);
                 }
-                {
+                // The editor owns the text of an open document, even if its file is gone
+                let is_open = backend.is_document_open(&uri).await;
+                if !is_open {
                     let mut document_sources = backend.document_sources.write().await;
                     document_sources.remove(&uri);
                 }
 
-                if backend.is_diagnostic_mode_push().await {
+                if is_open {
+                    log::debug!("keep open document: {uri}");
+                } else if backend.is_diagnostic_mode_push().await {
                     backend
                         .client
                         .publish_diagnostics(change.uri, Vec::new(), None)
-- 
2.43.0


From dd2dc4b857a8b3d35e64dd91153bc4665bfc80a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:45 +0000
Subject: [PATCH 09/60] fix: formatting must not change the server's copy of
 the document

The edits are only applied when the client decides to, and then arrive as a
didChange.
---
 crates/tombi-lsp/src/handler/formatting.rs | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/crates/tombi-lsp/src/handler/formatting.rs b/crates/tombi-lsp/src/handler/formatting.rs
index 18bb6d8..113300c 100644
--- a/crates/tombi-lsp/src/handler/formatting.rs
+++ b/crates/tombi-lsp/src/handler/formatting.rs
@@ -115,13 +115,6 @@ pub async fn handle_formatting(
                 let edits =
                     compute_text_edits(document_text.as_ref(), &formatted, line_index.as_ref());
                 log::debug!("edits: {:?}", edits);
-                if let Ok(mut document_sources) = backend.document_sources.try_write()
-                    && let Some(document_source) = document_sources.get_mut(&text_document_uri)
-                    && document_source.text() == document_text.as_ref()
-                {
-                    document_source.set_text(formatted, toml_version);
-                }
-
                 return Ok(Some(edits));
             } else {
                 log::debug!("no change");
-- 
2.43.0


From ed102f5afd1953b38d34cd1e90f7067b618d4483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:45 +0000
Subject: [PATCH 10/60] fix: formatting a formatted document must not clear its
 diagnostics

---
 crates/tombi-lsp/src/handler/formatting.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/tombi-lsp/src/handler/formatting.rs b/crates/tombi-lsp/src/handler/formatting.rs
index 113300c..3ee86d4 100644
--- a/crates/tombi-lsp/src/handler/formatting.rs
+++ b/crates/tombi-lsp/src/handler/formatting.rs
@@ -118,6 +118,12 @@ pub async fn handle_formatting(
                 return Ok(Some(edits));
             } else {
                 log::debug!("no change");
+                if backend.is_diagnostic_mode_push().await {
+                    // Replace the errors of an earlier failure to format,
+                    // but keep the diagnostics of the document.
+                    backend.push_diagnostics(text_document_uri).await;
+                    return Ok(None);
+                }
                 backend
                     .client
                     .send_notification::<PublishDiagnostics>(PublishDiagnosticsParams {
-- 
2.43.0


From 25c1b17f57edcae7bdf84d0bca3cb632fdf11f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:45 +0000
Subject: [PATCH 11/60] fix: a file changed while its schema is downloaded must
 not be overwritten by the older text

---
 crates/tombi-lsp/src/workspace_diagnostic.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/crates/tombi-lsp/src/workspace_diagnostic.rs b/crates/tombi-lsp/src/workspace_diagnostic.rs
index 77bb0d2..e2f988b 100644
--- a/crates/tombi-lsp/src/workspace_diagnostic.rs
+++ b/crates/tombi-lsp/src/workspace_diagnostic.rs
@@ -138,7 +138,7 @@ pub async fn upsert_document_source(backend: &Backend, text_document_uri: tombi_
         }
     };
 
-    let Ok(content) = tombi_fs::read_to_string_async(&text_document_path).await else {
+    let Ok(mut content) = tombi_fs::read_to_string_async(&text_document_path).await else {
         log::warn!(
             "failed to read file for diagnostics: {:?}",
             text_document_path
@@ -146,9 +146,19 @@ pub async fn upsert_document_source(backend: &Backend, text_document_uri: tombi_
         return false;
     };
 
-    let toml_version = backend
-        .text_document_toml_version(&text_document_uri, &content)
-        .await;
+    let toml_version = loop {
+        let toml_version = backend
+            .text_document_toml_version(&text_document_uri, &content)
+            .await;
+
+        // Resolving the TOML version may download a schema. If the file changed in the
+        // meantime, its newer text may already be applied and must not be overwritten.
+        match tombi_fs::read_to_string_async(&text_document_path).await {
+            Ok(latest_content) if latest_content == content => break toml_version,
+            Ok(latest_content) => content = latest_content,
+            Err(_) => return false,
+        }
+    };
     let encoding_kind = backend.capabilities.read().await.encoding_kind;
 
     {
-- 
2.43.0


From 6a4b811e6db20845a7faf61062a134be62cb8ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:45 +0000
Subject: [PATCH 12/60] fix: forget the editor's text when a document is closed

With workspace diagnostics the unsaved text stayed the server's source.
---
 crates/tombi-lsp/src/handler/did_close.rs     | 34 ++++++++++++-------
 .../src/workspace_diagnostic/cache.rs         | 22 ++++--------
 2 files changed, 27 insertions(+), 29 deletions(-)

diff --git a/crates/tombi-lsp/src/handler/did_close.rs b/crates/tombi-lsp/src/handler/did_close.rs
index eb712b1..5a28b09 100644
--- a/crates/tombi-lsp/src/handler/did_close.rs
+++ b/crates/tombi-lsp/src/handler/did_close.rs
@@ -1,6 +1,8 @@
 use tower_lsp::lsp_types::DidCloseTextDocumentParams;
 
-use crate::{Backend, config_manager::ConfigSchemaStore};
+use crate::{
+    Backend, config_manager::ConfigSchemaStore, workspace_diagnostic::upsert_document_source,
+};
 
 pub async fn handle_did_close(backend: &Backend, params: DidCloseTextDocumentParams) {
     log::info!("handle_did_close");
@@ -8,35 +10,41 @@ pub async fn handle_did_close(backend: &Backend, params: DidCloseTextDocumentPar
 
     let DidCloseTextDocumentParams { text_document } = params;
 
-    let text_document_uri = text_document.uri.as_ref();
+    let text_document_uri: tombi_uri::Uri = text_document.uri.clone().into();
 
+    // The text of the editor may be discarded, only the file counts from now on.
     {
         let mut document_sources = backend.document_sources.write().await;
 
-        if let Some(document) = document_sources.get_mut(text_document_uri) {
-            document.version = None;
-        }
+        document_sources.remove(&text_document_uri);
     }
 
-    backend
-        .workspace_diagnostics_cache
-        .write()
-        .await
-        .close(text_document_uri);
+    let is_workspace_target = {
+        let mut workspace_diagnostics_cache = backend.workspace_diagnostics_cache.write().await;
+
+        workspace_diagnostics_cache.clear(&text_document_uri);
+        workspace_diagnostics_cache.is_workspace_target(&text_document_uri)
+    };
 
     let ConfigSchemaStore { config, .. } = backend
         .config_manager
-        .config_schema_store_for_uri(text_document_uri)
+        .config_schema_store_for_uri(&text_document_uri)
         .await;
 
-    if !config
+    let is_workspace_diagnostic_enabled = config
         .lsp
         .as_ref()
         .and_then(|server| server.workspace_diagnostic.as_ref())
         .and_then(|workspace_diagnostic| workspace_diagnostic.enabled)
         .unwrap_or_default()
-        .value()
+        .value();
+
+    if is_workspace_diagnostic_enabled
+        && is_workspace_target
+        && upsert_document_source(backend, text_document_uri.clone()).await
     {
+        backend.push_diagnostics(text_document_uri).await;
+    } else if !backend.is_document_open(&text_document_uri).await {
         backend
             .client
             .publish_diagnostics(text_document.uri, Vec::new(), None)
diff --git a/crates/tombi-lsp/src/workspace_diagnostic/cache.rs b/crates/tombi-lsp/src/workspace_diagnostic/cache.rs
index 853b3d9..476ff5e 100644
--- a/crates/tombi-lsp/src/workspace_diagnostic/cache.rs
+++ b/crates/tombi-lsp/src/workspace_diagnostic/cache.rs
@@ -26,6 +26,12 @@ impl WorkspaceDiagnosticsCache {
             .and_then(|result| result.as_ref())
     }
 
+    pub fn is_workspace_target(&self, text_document_uri: &tombi_uri::Uri) -> bool {
+        self.workspace_targets
+            .as_ref()
+            .is_some_and(|workspace_targets| workspace_targets.contains(text_document_uri))
+    }
+
     pub fn set(
         &mut self,
         text_document_uri: tombi_uri::Uri,
@@ -53,22 +59,6 @@ impl WorkspaceDiagnosticsCache {
         self.cache.remove(text_document_uri);
     }
 
-    pub fn close(&mut self, text_document_uri: &tombi_uri::Uri) {
-        if let Some(tracked_targets) = self.workspace_targets.as_mut()
-            && tracked_targets.contains(text_document_uri)
-        {
-            if let Some(diagnostics_result) = self
-                .cache
-                .get_mut(text_document_uri)
-                .and_then(|result| result.as_mut())
-            {
-                diagnostics_result.version = None;
-            }
-        } else {
-            self.cache.remove(text_document_uri);
-        }
-    }
-
     pub fn clear_all(&mut self) {
         self.cache.clear();
     }
-- 
2.43.0


From d7a78974338f0d18ece05902b3ac60d4835bccb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:45 +0000
Subject: [PATCH 13/60] fix: drop cached diagnostics when schemas or the
 configuration change

---
 crates/tombi-lsp/src/handler/did_change_configuration.rs | 1 +
 crates/tombi-lsp/src/handler/refresh_cache.rs            | 6 ++++++
 2 files changed, 7 insertions(+)

diff --git a/crates/tombi-lsp/src/handler/did_change_configuration.rs b/crates/tombi-lsp/src/handler/did_change_configuration.rs
index 567b216..9e3a4b2 100644
--- a/crates/tombi-lsp/src/handler/did_change_configuration.rs
+++ b/crates/tombi-lsp/src/handler/did_change_configuration.rs
@@ -23,6 +23,7 @@ pub async fn handle_did_change_configuration(
             Ok(config) => {
                 log::info!("updating editor config: {:?}", config);
                 backend.config_manager.update_editor_config(config).await;
+                backend.workspace_diagnostics_cache.write().await.reset();
             }
             Err(err) => {
                 log::error!("failed to parse editor config: {}", err);
diff --git a/crates/tombi-lsp/src/handler/refresh_cache.rs b/crates/tombi-lsp/src/handler/refresh_cache.rs
index 4e889a7..6f3258a 100644
--- a/crates/tombi-lsp/src/handler/refresh_cache.rs
+++ b/crates/tombi-lsp/src/handler/refresh_cache.rs
@@ -15,6 +15,12 @@ pub async fn handle_refresh_cache(
     match backend.config_manager.refresh_cache().await {
         Ok(true) => {
             log::info!("cache refreshed");
+            // The schemas may have changed
+            backend
+                .workspace_diagnostics_cache
+                .write()
+                .await
+                .clear_all();
             Ok(true)
         }
         Ok(false) => {
-- 
2.43.0


From 3ec0efff4909c1cf97c7356950e9dd15db2d8846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:19 +0000
Subject: [PATCH 14/60] fix: do not hold the document lock while a request
 downloads a schema

Hover, completion, code actions, type definitions and the tombi/ status requests
kept the lock during the download, so that edits of any document had to wait.
---
 crates/tombi-lsp/src/handler/code_action.rs      | 14 +++++++++-----
 crates/tombi-lsp/src/handler/completion.rs       | 16 ++++++++++------
 crates/tombi-lsp/src/handler/get_status.rs       |  9 +++++++--
 crates/tombi-lsp/src/handler/get_toml_version.rs | 16 +++++++++++-----
 .../src/handler/goto_type_definition.rs          | 14 +++++++++-----
 crates/tombi-lsp/src/handler/hover.rs            | 14 +++++++++-----
 6 files changed, 55 insertions(+), 28 deletions(-)

diff --git a/crates/tombi-lsp/src/handler/code_action.rs b/crates/tombi-lsp/src/handler/code_action.rs
index e186960..0aaa025 100644
--- a/crates/tombi-lsp/src/handler/code_action.rs
+++ b/crates/tombi-lsp/src/handler/code_action.rs
@@ -45,11 +45,15 @@ pub async fn handle_code_action(
         return Ok(None);
     }
 
-    let Ok(document_sources) = backend.document_sources.try_read() else {
-        return Ok(None);
-    };
-    let Some(document_source) = document_sources.get(&text_document_uri) else {
-        return Ok(None);
+    // Do not hold the lock: a schema may be downloaded below, and edits must not wait for that.
+    let document_source = {
+        let Ok(document_sources) = backend.document_sources.try_read() else {
+            return Ok(None);
+        };
+        let Some(document_source) = document_sources.get(&text_document_uri) else {
+            return Ok(None);
+        };
+        document_source.clone()
     };
 
     let toml_version = document_source.toml_version;
diff --git a/crates/tombi-lsp/src/handler/completion.rs b/crates/tombi-lsp/src/handler/completion.rs
index adb5bb7..0c5422c 100644
--- a/crates/tombi-lsp/src/handler/completion.rs
+++ b/crates/tombi-lsp/src/handler/completion.rs
@@ -65,12 +65,16 @@ pub async fn handle_completion(
         return Ok(None);
     }
 
-    let Ok(document_sources) = backend.document_sources.try_read() else {
-        return Ok(None);
-    };
-    let Some(document_source) = document_sources.get(&text_document_uri) else {
-        log::trace!("document_source not found");
-        return Ok(None);
+    // Do not hold the lock: a schema may be downloaded below, and edits must not wait for that.
+    let document_source = {
+        let Ok(document_sources) = backend.document_sources.try_read() else {
+            return Ok(None);
+        };
+        let Some(document_source) = document_sources.get(&text_document_uri) else {
+            log::trace!("document_source not found");
+            return Ok(None);
+        };
+        document_source.clone()
     };
 
     let root = document_source.ast();
diff --git a/crates/tombi-lsp/src/handler/get_status.rs b/crates/tombi-lsp/src/handler/get_status.rs
index caf8b7a..f0afa03 100644
--- a/crates/tombi-lsp/src/handler/get_status.rs
+++ b/crates/tombi-lsp/src/handler/get_status.rs
@@ -27,9 +27,14 @@ pub async fn handle_get_status(
         .config_schema_store_for_uri(&text_document_uri)
         .await;
 
-    let (toml_version, source, schema) = {
+    // Do not hold the lock: a schema may be downloaded below, and edits must not wait for that.
+    let document_source = {
         let document_sources = backend.document_sources.read().await;
-        if let Some(document_source) = document_sources.get(&text_document_uri) {
+        document_sources.get(&text_document_uri).cloned()
+    };
+
+    let (toml_version, source, schema) = {
+        if let Some(document_source) = document_source {
             let (toml_version, source) = backend
                 .text_document_toml_version_and_source(&text_document_uri, document_source.text())
                 .await;
diff --git a/crates/tombi-lsp/src/handler/get_toml_version.rs b/crates/tombi-lsp/src/handler/get_toml_version.rs
index e60508c..04d9992 100644
--- a/crates/tombi-lsp/src/handler/get_toml_version.rs
+++ b/crates/tombi-lsp/src/handler/get_toml_version.rs
@@ -13,20 +13,26 @@ pub async fn handle_get_toml_version(
     let TextDocumentIdentifier { uri } = params;
     let text_document_uri = uri.into();
 
-    let (toml_version, source) = {
+    // Do not hold the lock: a schema may be downloaded below, and edits must not wait for that.
+    let text = {
         let Ok(document_sources) = backend.document_sources.try_read() else {
             return Ok(GetTomlVersionResponse {
                 toml_version: TomlVersion::default(),
                 source: TomlVersionSource::Default,
             });
         };
-        if let Some(document_source) = document_sources.get(&text_document_uri) {
+        document_sources
+            .get(&text_document_uri)
+            .map(|document_source| document_source.text_arc())
+    };
+
+    let (toml_version, source) = match text {
+        Some(text) => {
             backend
-                .text_document_toml_version_and_source(&text_document_uri, document_source.text())
+                .text_document_toml_version_and_source(&text_document_uri, &text)
                 .await
-        } else {
-            (TomlVersion::default(), TomlVersionSource::Default)
         }
+        None => (TomlVersion::default(), TomlVersionSource::Default),
     };
 
     Ok(GetTomlVersionResponse {
diff --git a/crates/tombi-lsp/src/handler/goto_type_definition.rs b/crates/tombi-lsp/src/handler/goto_type_definition.rs
index e791f29..9d35c5a 100644
--- a/crates/tombi-lsp/src/handler/goto_type_definition.rs
+++ b/crates/tombi-lsp/src/handler/goto_type_definition.rs
@@ -51,11 +51,15 @@ pub async fn handle_goto_type_definition(
         return Ok(Default::default());
     }
 
-    let Ok(document_sources) = backend.document_sources.try_read() else {
-        return Ok(Default::default());
-    };
-    let Some(document_source) = document_sources.get(&text_document_uri) else {
-        return Ok(Default::default());
+    // Do not hold the lock: a schema may be downloaded below, and edits must not wait for that.
+    let document_source = {
+        let Ok(document_sources) = backend.document_sources.try_read() else {
+            return Ok(Default::default());
+        };
+        let Some(document_source) = document_sources.get(&text_document_uri) else {
+            return Ok(Default::default());
+        };
+        document_source.clone()
     };
 
     let root = document_source.ast();
diff --git a/crates/tombi-lsp/src/handler/hover.rs b/crates/tombi-lsp/src/handler/hover.rs
index 9cbf5cc..214db5e 100644
--- a/crates/tombi-lsp/src/handler/hover.rs
+++ b/crates/tombi-lsp/src/handler/hover.rs
@@ -50,11 +50,15 @@ pub async fn handle_hover(
         return Ok(None);
     }
 
-    let Ok(document_sources) = backend.document_sources.try_read() else {
-        return Ok(None);
-    };
-    let Some(document_source) = document_sources.get(&text_document_uri) else {
-        return Ok(None);
+    // Do not hold the lock: a schema may be downloaded below, and edits must not wait for that.
+    let document_source = {
+        let Ok(document_sources) = backend.document_sources.try_read() else {
+            return Ok(None);
+        };
+        let Some(document_source) = document_sources.get(&text_document_uri) else {
+            return Ok(None);
+        };
+        document_source.clone()
     };
     let (root, document_tree, toml_version, position) = (
         document_source.ast(),
-- 
2.43.0


From fb5d72595b48ae9ea81801ef30a7ffc7d9de0ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:25 +0000
Subject: [PATCH 15/60] fix: a re-created file must not keep the diagnostics of
 the earlier one

---
 crates/tombi-lsp/src/workspace_diagnostic/cache.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/tombi-lsp/src/workspace_diagnostic/cache.rs b/crates/tombi-lsp/src/workspace_diagnostic/cache.rs
index 476ff5e..e959a07 100644
--- a/crates/tombi-lsp/src/workspace_diagnostic/cache.rs
+++ b/crates/tombi-lsp/src/workspace_diagnostic/cache.rs
@@ -45,7 +45,8 @@ impl WorkspaceDiagnosticsCache {
         if is_workspace_target && let Some(tracked_targets) = self.workspace_targets.as_mut() {
             tracked_targets.insert(text_document_uri.clone());
         }
-        self.cache.entry(text_document_uri).or_insert(None);
+        // Diagnostics of an earlier file of that name do not count any more
+        self.cache.insert(text_document_uri, None);
     }
 
     pub fn untrack(&mut self, text_document_uri: &tombi_uri::Uri) {
-- 
2.43.0


From b996453ae036d25f54cd83bfd75d32b742810a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:18 +0000
Subject: [PATCH 16/60] fix: report a failed write of a formatted file

The write of a tokio file runs in the background and its error is only
reported by the next operation, so a file that could not be written
(disk full) was counted as formatted and the exit code was 0.
---
 rust/tombi-cli/src/app/command/format.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rust/tombi-cli/src/app/command/format.rs b/rust/tombi-cli/src/app/command/format.rs
index f396d31..556b0b0 100644
--- a/rust/tombi-cli/src/app/command/format.rs
+++ b/rust/tombi-cli/src/app/command/format.rs
@@ -508,7 +508,11 @@ impl FormatFile {
     async fn write_all(&mut self, buf: &[u8]) -> std::io::Result<()> {
         match self {
             Self::Stdin { .. } => tokio::io::stdout().write_all(buf).await,
-            Self::File { file, .. } => file.write_all(buf).await,
+            Self::File { file, .. } => {
+                file.write_all(buf).await?;
+                // The write runs in the background: only a flush reports its error.
+                file.flush().await
+            }
         }
     }
 }
-- 
2.43.0


From 002e6fe103d2cd25e2c3466a1fa1c152eabdb5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:18 +0000
Subject: [PATCH 17/60] fix: put the original text back when a formatted file
 cannot be written

---
 rust/tombi-cli/src/app/command/format.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/rust/tombi-cli/src/app/command/format.rs b/rust/tombi-cli/src/app/command/format.rs
index 556b0b0..dcd2a80 100644
--- a/rust/tombi-cli/src/app/command/format.rs
+++ b/rust/tombi-cli/src/app/command/format.rs
@@ -377,7 +377,13 @@ where
                 } else {
                     match file.write_all(formatted.as_bytes()).await {
                         Ok(_) => Ok(true),
-                        Err(err) => Err(crate::Error::Io(err)),
+                        Err(err) => {
+                            // Do not leave a truncated file behind.
+                            if file.reset().await.is_ok() {
+                                file.write_all(source.as_bytes()).await.ok();
+                            }
+                            Err(crate::Error::Io(err))
+                        }
                     }
                 }
             } else {
-- 
2.43.0


From 313b69de55da9bcfbf7c340f3ca3bab47f2d8f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:46 +0000
Subject: [PATCH 18/60] fix: keep a dangling comment apart from the next header

With table-blank-lines = 0 a dangling comment at the end of a table was
written right above the next header and so became its leading comment.
---
 crates/tombi-formatter/src/format/root.rs | 49 +++++++++++++++++++++--
 1 file changed, 45 insertions(+), 4 deletions(-)

diff --git a/crates/tombi-formatter/src/format/root.rs b/crates/tombi-formatter/src/format/root.rs
index 2f70072..9ba1a6d 100644
--- a/crates/tombi-formatter/src/format/root.rs
+++ b/crates/tombi-formatter/src/format/root.rs
@@ -13,6 +13,8 @@ impl Format for tombi_ast::Root {
         let key_value_groups = self.key_value_groups().collect_vec();
         let dangling_comment_group_is_empty = dangling_comment_groups.is_empty();
         let key_value_groups_is_empty = key_value_groups.is_empty();
+        let ends_with_dangling_comment =
+            ends_with_dangling_comment(&key_value_groups, !dangling_comment_group_is_empty);
 
         let groups = itertools::chain!(
             dangling_comment_groups
@@ -35,7 +37,7 @@ impl Format for tombi_ast::Root {
                         .min(f.group_blank_lines_limit()),
                 )?;
             } else {
-                f.write_blank_lines(f.table_blank_lines())?;
+                f.write_blank_lines(blank_lines_after_body(f, ends_with_dangling_comment))?;
             }
         }
         table_or_array_of_tables.format(f)?;
@@ -44,9 +46,32 @@ impl Format for tombi_ast::Root {
     }
 }
 
+/// Does the body of a table (or the root) end with a dangling comment?
+fn ends_with_dangling_comment(
+    key_value_groups: &[DanglingCommentGroupOr<tombi_ast::KeyValueGroup>],
+    has_dangling_comments: bool,
+) -> bool {
+    match key_value_groups.last() {
+        Some(DanglingCommentGroupOr::DanglingCommentGroup(_)) => true,
+        Some(DanglingCommentGroupOr::ItemGroup(_)) => false,
+        None => has_dangling_comments,
+    }
+}
+
+/// A dangling comment right above the next header would become its leading comment,
+/// so it is always followed by a blank line.
+fn blank_lines_after_body(f: &crate::Formatter, ends_with_dangling_comment: bool) -> u8 {
+    if ends_with_dangling_comment {
+        f.table_blank_lines().max(1)
+    } else {
+        f.table_blank_lines()
+    }
+}
+
 impl Format for Vec<tombi_ast::TableOrArrayOfTable> {
     fn format(&self, f: &mut crate::Formatter) -> Result<(), std::fmt::Error> {
         let mut header = Header::Root;
+        let mut table_blank_lines = f.table_blank_lines();
         for (i, table_or_array_of_table) in self.iter().enumerate() {
             if i != 0 {
                 f.write_line_ending()?;
@@ -74,7 +99,7 @@ impl Format for Vec<tombi_ast::TableOrArrayOfTable> {
                                 || has_dangling_comments
                                 || table.header_leading_comments().next().is_some()
                             {
-                                for _ in 0..f.table_blank_lines() {
+                                for _ in 0..table_blank_lines {
                                     f.write_line_ending()?;
                                 }
                             }
@@ -82,6 +107,14 @@ impl Format for Vec<tombi_ast::TableOrArrayOfTable> {
                     };
                     table.format(f)?;
 
+                    table_blank_lines = blank_lines_after_body(
+                        f,
+                        ends_with_dangling_comment(
+                            &table.key_value_groups().collect_vec(),
+                            has_dangling_comments,
+                        ),
+                    );
+
                     header = Header::Table {
                         header_keys,
                         key_value_size,
@@ -106,7 +139,7 @@ impl Format for Vec<tombi_ast::TableOrArrayOfTable> {
                                 || has_dangling_comments
                                 || array_of_table.header_leading_comments().next().is_some()
                             {
-                                for _ in 0..f.table_blank_lines() {
+                                for _ in 0..table_blank_lines {
                                     f.write_line_ending()?;
                                 }
                             }
@@ -121,7 +154,7 @@ impl Format for Vec<tombi_ast::TableOrArrayOfTable> {
                                 || pre_header_keys.same_as(&header_keys)
                                 || has_dangling_comments
                             {
-                                for _ in 0..f.table_blank_lines() {
+                                for _ in 0..table_blank_lines {
                                     f.write_line_ending()?;
                                 }
                             }
@@ -130,6 +163,14 @@ impl Format for Vec<tombi_ast::TableOrArrayOfTable> {
 
                     array_of_table.format(f)?;
 
+                    table_blank_lines = blank_lines_after_body(
+                        f,
+                        ends_with_dangling_comment(
+                            &array_of_table.key_value_groups().collect_vec(),
+                            has_dangling_comments,
+                        ),
+                    );
+
                     header = Header::ArrayOfTable {
                         header_keys,
                         key_value_size,
-- 
2.43.0


From 79c80ad70fcc4a25955937b3e46625e55daa0e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:36 +0000
Subject: [PATCH 19/60] fix: accept a comma after a comment that is followed by
 a blank line

---
 .../src/parse/key_value_with_comma_group.rs           |  6 +++---
 .../tombi-parser/src/parse/value_with_comma_group.rs  |  6 +++---
 crates/tombi-parser/src/support/comment.rs            | 11 +++++++++++
 3 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/crates/tombi-parser/src/parse/key_value_with_comma_group.rs b/crates/tombi-parser/src/parse/key_value_with_comma_group.rs
index d15936d..6bf0af6 100644
--- a/crates/tombi-parser/src/parse/key_value_with_comma_group.rs
+++ b/crates/tombi-parser/src/parse/key_value_with_comma_group.rs
@@ -1,9 +1,9 @@
-use tombi_syntax::{SyntaxKind::*, T};
+use tombi_syntax::SyntaxKind::*;
 
 use crate::{
     parse::{Parse, is_group_separator},
     parser::Parser,
-    support::peek_leading_comments,
+    support::{peek_comma, peek_leading_comments},
     token_set::{TS_INLINE_TABLE_END, TS_KEY_FIRST},
 };
 
@@ -19,7 +19,7 @@ impl Parse for tombi_ast::KeyValueWithCommaGroup {
             tombi_ast::KeyValue::parse(p);
 
             let n = peek_leading_comments(p);
-            if p.nth_at(n, T![,]) {
+            if peek_comma(p) {
                 tombi_ast::Comma::parse(p);
             } else if p.nth_at_ts(n, TS_INLINE_TABLE_END) {
                 break;
diff --git a/crates/tombi-parser/src/parse/value_with_comma_group.rs b/crates/tombi-parser/src/parse/value_with_comma_group.rs
index 5b0bb33..1580937 100644
--- a/crates/tombi-parser/src/parse/value_with_comma_group.rs
+++ b/crates/tombi-parser/src/parse/value_with_comma_group.rs
@@ -1,9 +1,9 @@
-use tombi_syntax::{SyntaxKind::*, T};
+use tombi_syntax::SyntaxKind::*;
 
 use crate::{
     parse::{Parse, is_group_separator},
     parser::Parser,
-    support::peek_leading_comments,
+    support::{peek_comma, peek_leading_comments},
     token_set::{TS_ARRAY_END, TS_VALUE_FIRST},
 };
 
@@ -19,7 +19,7 @@ impl Parse for tombi_ast::ValueWithCommaGroup {
             tombi_ast::Value::parse(p);
 
             let n = peek_leading_comments(p);
-            if p.nth_at(n, T![,]) {
+            if peek_comma(p) {
                 tombi_ast::Comma::parse(p);
             } else if p.nth_at_ts(n, TS_ARRAY_END) {
                 break;
diff --git a/crates/tombi-parser/src/support/comment.rs b/crates/tombi-parser/src/support/comment.rs
index 963176d..c176024 100644
--- a/crates/tombi-parser/src/support/comment.rs
+++ b/crates/tombi-parser/src/support/comment.rs
@@ -1,3 +1,5 @@
+use tombi_syntax::T;
+
 use crate::{SyntaxKind::*, token_set::TS_LEADING_COMMENTS_KINDS};
 
 pub fn peek_leading_comments(p: &mut crate::parser::Parser<'_>) -> usize {
@@ -16,6 +18,15 @@ pub fn peek_leading_comments(p: &mut crate::parser::Parser<'_>) -> usize {
     }
 }
 
+/// Is the next token, apart from line breaks and comments, a comma?
+pub fn peek_comma(p: &mut crate::parser::Parser<'_>) -> bool {
+    let mut n = 0;
+    while p.nth_at(n, LINE_BREAK) || p.nth_at(n, COMMENT) {
+        n += 1;
+    }
+    p.nth_at(n, T![,])
+}
+
 #[inline]
 pub fn leading_comments(p: &mut crate::parser::Parser<'_>) {
     while p.eat_ts(TS_LEADING_COMMENTS_KINDS) {}
-- 
2.43.0


From f8dbd507751fc7dee86b7a9c959593479f152c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:55 +0000
Subject: [PATCH 20/60] fix: pass standard input through when an override
 disables its formatting

---
 rust/tombi-cli/src/app/command/format.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rust/tombi-cli/src/app/command/format.rs b/rust/tombi-cli/src/app/command/format.rs
index dcd2a80..8d9cfb9 100644
--- a/rust/tombi-cli/src/app/command/format.rs
+++ b/rust/tombi-cli/src/app/command/format.rs
@@ -164,6 +164,12 @@ where
                     config_path.as_deref(),
                 ) else {
                     log::debug!("formatting disabled for stdin by override");
+                    if !args.check
+                        && let Err(error) =
+                            std::io::copy(&mut std::io::stdin(), &mut std::io::stdout())
+                    {
+                        log::error!("failed to copy stdin to stdout: {}", error);
+                    }
                     summary.not_needed_num += 1;
                     return Ok(summary);
                 };
-- 
2.43.0


From 40e20848b49ebdc8dcdb86afddf03ff99bf2f41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:25 +0000
Subject: [PATCH 21/60] fix: accept a zero with an upper case exponent

---
 crates/tombi-ast/src/support/literal/float.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/tombi-ast/src/support/literal/float.rs b/crates/tombi-ast/src/support/literal/float.rs
index 744c7a8..e6d29ad 100644
--- a/crates/tombi-ast/src/support/literal/float.rs
+++ b/crates/tombi-ast/src/support/literal/float.rs
@@ -27,7 +27,7 @@ pub fn try_from_float(value: &str) -> Result<f64, self::ParseError> {
     let int_slice = if value.contains('.') {
         value.split('.').next().unwrap()
     } else {
-        value.split('e').next().unwrap()
+        value.split(['e', 'E']).next().unwrap()
     };
 
     let int_number = if int_slice.starts_with("+") || int_slice.starts_with("-") {
-- 
2.43.0


From 89c2c781931ca5a3d03f857b8205e789d652ccaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:25 +0000
Subject: [PATCH 22/60] fix: close a multi-line basic string after an escaped
 backslash

---
 crates/tombi-lexer/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/tombi-lexer/src/lib.rs b/crates/tombi-lexer/src/lib.rs
index 2ca97d7..42f8d48 100644
--- a/crates/tombi-lexer/src/lib.rs
+++ b/crates/tombi-lexer/src/lib.rs
@@ -422,7 +422,7 @@ impl Cursor<'_> {
                     ));
                 }
                 '\\' => {
-                    was_quote = true;
+                    was_quote = !was_quote;
                 }
                 _ => {
                     was_quote = false;
-- 
2.43.0


From 7a5bf48dca1b63d21333a0cf5042f259beca91d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:25 +0000
Subject: [PATCH 23/60] fix: trim exactly one newline at the start of a
 multi-line string

---
 crates/tombi-toml-text/src/lib.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/crates/tombi-toml-text/src/lib.rs b/crates/tombi-toml-text/src/lib.rs
index 4db65c4..eee0b48 100644
--- a/crates/tombi-toml-text/src/lib.rs
+++ b/crates/tombi-toml-text/src/lib.rs
@@ -75,10 +75,7 @@ pub fn try_from_multi_line_basic_string(
     toml_version: TomlVersion,
 ) -> Result<String, ParseError> {
     parse_basic_string(
-        &value[3..value.len() - 3]
-            .chars()
-            .skip_while(|c| matches!(c, '\n'))
-            .collect::<String>(),
+        trim_first_newline(&value[3..value.len() - 3]),
         toml_version,
         true,
     )
@@ -86,14 +83,19 @@ pub fn try_from_multi_line_basic_string(
 
 pub fn try_from_multi_line_literal_string(value: &str) -> Result<String, ParseError> {
     parse_literal_string(
-        &value[3..value.len() - 3]
-            .chars()
-            .skip_while(|c| matches!(c, '\n'))
-            .collect::<String>(),
+        trim_first_newline(&value[3..value.len() - 3]),
         true,
     )
 }
 
+/// A newline right after the opening delimiter of a multi-line string is not part of the value.
+fn trim_first_newline(value: &str) -> &str {
+    value
+        .strip_prefix("\r\n")
+        .or_else(|| value.strip_prefix('\n'))
+        .unwrap_or(value)
+}
+
 pub fn parse_basic_string(
     input: &str,
     toml_version: TomlVersion,
-- 
2.43.0


From ed692fe5d1a747b1b9fd0c95cb98b5c42a49f40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:26 +0000
Subject: [PATCH 24/60] fix: reject a sign in a Unicode escape sequence

---
 crates/tombi-toml-text/src/lib.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/crates/tombi-toml-text/src/lib.rs b/crates/tombi-toml-text/src/lib.rs
index eee0b48..17b5119 100644
--- a/crates/tombi-toml-text/src/lib.rs
+++ b/crates/tombi-toml-text/src/lib.rs
@@ -148,7 +148,9 @@ pub fn parse_basic_string(
                             chars.next(); // consume 'u'
                             unicode_buf.clear();
                             for _ in 0..4 {
-                                if let Some(hex_digit) = chars.next() {
+                                if let Some(hex_digit) =
+                                    chars.next().filter(char::is_ascii_hexdigit)
+                                {
                                     unicode_buf.push(hex_digit);
                                 } else {
                                     return Err(ParseError::InvalidUnicodeEscapeSequence);
@@ -168,7 +170,9 @@ pub fn parse_basic_string(
                             chars.next(); // consume 'U'
                             unicode_buf.clear();
                             for _ in 0..8 {
-                                if let Some(hex_digit) = chars.next() {
+                                if let Some(hex_digit) =
+                                    chars.next().filter(char::is_ascii_hexdigit)
+                                {
                                     unicode_buf.push(hex_digit);
                                 } else {
                                     return Err(ParseError::InvalidUnicodeEscapeSequence);
@@ -193,7 +197,9 @@ pub fn parse_basic_string(
 
                             unicode_buf.clear();
                             for _ in 0..2 {
-                                if let Some(hex_digit) = chars.next() {
+                                if let Some(hex_digit) =
+                                    chars.next().filter(char::is_ascii_hexdigit)
+                                {
                                     unicode_buf.push(hex_digit);
                                 } else {
                                     return Err(ParseError::InvalidUnicodeEscapeSequence);
-- 
2.43.0


From fc136fdf4a5f730a31f60143727d59a69148e375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:39 +0000
Subject: [PATCH 25/60] fix: trim only TOML whitespace after an escaped line
 ending

---
 crates/tombi-toml-text/src/lib.rs | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/crates/tombi-toml-text/src/lib.rs b/crates/tombi-toml-text/src/lib.rs
index 17b5119..60163a5 100644
--- a/crates/tombi-toml-text/src/lib.rs
+++ b/crates/tombi-toml-text/src/lib.rs
@@ -216,17 +216,14 @@ pub fn parse_basic_string(
                                 return Err(ParseError::InvalidUnicodeEscapeSequence);
                             }
                         }
-                        c if c.is_whitespace() => {
+                        c if is_trimmed_whitespace(c) => {
                             // Skip newline characters
-                            let mut has_whitespace = c == '\n';
+                            let mut has_whitespace = false;
 
-                            chars.next();
-                            while let Some(&c) = chars.peek() {
-                                if c.is_whitespace() {
-                                    has_whitespace = has_whitespace || c == '\n';
-                                    chars.next();
-                                } else {
-                                    break;
+                            while let Some(c) = chars.next_if(|c| is_trimmed_whitespace(*c)) {
+                                has_whitespace = has_whitespace || c == '\n';
+                                if c == '\r' && chars.peek() != Some(&'\n') {
+                                    return Err(ParseError::InvalidLineBreak);
                                 }
                             }
                             if !has_whitespace {
@@ -262,6 +259,11 @@ pub fn parse_basic_string(
     Ok(output)
 }
 
+/// What an escaped line ending takes away: TOML whitespace and newlines only.
+fn is_trimmed_whitespace(c: char) -> bool {
+    matches!(c, ' ' | '\t' | '\n' | '\r')
+}
+
 pub fn parse_literal_string(input: &str, is_multi_line: bool) -> Result<String, ParseError> {
     let mut output = String::with_capacity(input.len());
     let mut chars = input.chars().peekable();
-- 
2.43.0


From 661e629073351528d8bd3253ee30f3f2bdb71bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:51 +0000
Subject: [PATCH 26/60] fix: write only escape sequences that TOML v1.0.0 knows

---
 crates/tombi-toml-text/src/lib.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/crates/tombi-toml-text/src/lib.rs b/crates/tombi-toml-text/src/lib.rs
index 60163a5..8d94301 100644
--- a/crates/tombi-toml-text/src/lib.rs
+++ b/crates/tombi-toml-text/src/lib.rs
@@ -298,15 +298,11 @@ pub fn to_basic_string(value: &str) -> String {
         match c {
             '"' => result.push_str("\\\""),
             '\\' => result.push_str("\\\\"),
-            '\x00' => result.push_str("\\0"),
-            '\x07' => result.push_str("\\a"),
             '\x08' => result.push_str("\\b"),
             '\x09' => result.push_str("\\t"),
             '\x0a' => result.push_str("\\n"),
-            '\x0b' => result.push_str("\\v"),
             '\x0c' => result.push_str("\\f"),
             '\x0d' => result.push_str("\\r"),
-            '\x1b' => result.push_str("\\e"),
             c if c.is_control() => {
                 result.push_str(&format!("\\u{:04x}", c as u32));
             }
-- 
2.43.0


From 31265488474b53fc6c90b7ac28bc2c6aafacd010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:16 +0000
Subject: [PATCH 27/60] fix: reject fractional seconds without seconds

---
 crates/tombi-document-tree/src/support/chrono.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/tombi-document-tree/src/support/chrono.rs b/crates/tombi-document-tree/src/support/chrono.rs
index 702f307..f57eb54 100644
--- a/crates/tombi-document-tree/src/support/chrono.rs
+++ b/crates/tombi-document-tree/src/support/chrono.rs
@@ -165,6 +165,10 @@ fn make_datetime_str(value: &str, toml_version: TomlVersion) -> Result<String, P
             if toml_version == TomlVersion::V1_0_0 {
                 return Err(ParseError::OptionalSeconds);
             }
+            if c == '.' {
+                // A fraction needs the seconds it is a fraction of.
+                return Err(ParseError::Invalid);
+            }
             datetime_str.push_str(DEFAULT_SECONDS);
 
             datetime_str.push(c);
-- 
2.43.0


From 3723ee9595ef56b1a1499e2caae68d8018e8ecb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:05 +0000
Subject: [PATCH 28/60] fix: keep the cache files of different URLs apart

---
 crates/tombi-cache/src/lib.rs | 64 ++++++++++++++++++++++++++++++-----
 1 file changed, 56 insertions(+), 8 deletions(-)

diff --git a/crates/tombi-cache/src/lib.rs b/crates/tombi-cache/src/lib.rs
index a6c2299..1b7fa62 100644
--- a/crates/tombi-cache/src/lib.rs
+++ b/crates/tombi-cache/src/lib.rs
@@ -37,23 +37,71 @@ pub async fn get_cache_file_path(cache_file_uri: &tombi_uri::Uri) -> Option<std:
     get_tombi_cache_dir_path().await.map(|mut dir_path| {
         dir_path.push(cache_file_uri.scheme());
         if let Some(host) = cache_file_uri.host() {
-            dir_path.push(host.to_string());
-        }
-        if let Some(path_segments) = cache_file_uri.path_segments() {
-            for segment in path_segments {
-                dir_path.push(segment)
+            match cache_file_uri.port() {
+                Some(port) => dir_path.push(format!("{host}%3A{port}")),
+                None => dir_path.push(host.to_string()),
             }
         }
-        if matches!(cache_file_uri.scheme(), "http" | "https")
-            && !cache_file_uri.path().ends_with(".json")
-        {
+        if !matches!(cache_file_uri.scheme(), "http" | "https") {
+            dir_path.extend(cache_file_uri.path_segments().into_iter().flatten());
+            return dir_path;
+        }
+
+        let mut path_segments = cache_file_uri
+            .path_segments()
+            .into_iter()
+            .flatten()
+            .filter(|_| cache_file_uri.path() != "/")
+            .peekable();
+        while let Some(segment) = path_segments.next() {
+            dir_path.push(cache_path_segment(segment, path_segments.peek().is_none()).as_ref());
+        }
+        if !cache_file_uri.path().ends_with(".json") {
             dir_path.push(CACHE_INDEX_FILE_NAME);
         }
+        if let Some(query) = cache_file_uri.query()
+            && let Some(file_name) = dir_path.file_name()
+        {
+            let file_name = format!("{} {}", file_name.to_string_lossy(), encode_query(query));
+            dir_path.set_file_name(file_name);
+        }
 
         dir_path
     })
 }
 
+/// The path component of a segment of an HTTP URL.
+///
+/// Different URLs must not share a cache file: a URL never contains a space,
+/// so a component with a space cannot be that of another segment.
+#[cfg(not(target_arch = "wasm32"))]
+fn cache_path_segment(segment: &str, is_last: bool) -> std::borrow::Cow<'_, str> {
+    match segment {
+        "" => "empty segment".into(),
+        CACHE_INDEX_FILE_NAME if is_last => "__index__ .json".into(),
+        // A file of this name may hold the document of the shorter URL.
+        segment if !is_last && segment.ends_with(".json") => format!("{segment} dir").into(),
+        segment => segment.into(),
+    }
+}
+
+#[cfg(not(target_arch = "wasm32"))]
+fn encode_query(query: &str) -> String {
+    use std::fmt::Write;
+
+    query.bytes().fold(String::new(), |mut encoded, byte| {
+        match byte {
+            b'a'..=b'z' | b'A'..=b'Z' | b'0'..=b'9' | b'-' | b'_' | b'.' | b'=' | b'&' => {
+                encoded.push(byte as char)
+            }
+            _ => {
+                let _ = write!(encoded, "%{byte:02X}");
+            }
+        }
+        encoded
+    })
+}
+
 #[cfg(target_arch = "wasm32")]
 pub async fn get_cache_file_path(_cache_file_uri: &tombi_uri::Uri) -> Option<std::path::PathBuf> {
     None
-- 
2.43.0


From c629c02bebb38d4f554f743dabea96c81bacd7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:36 +0000
Subject: [PATCH 29/60] fix: process a file that several arguments name only
 once

---
 crates/tombi-glob/src/file_search.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/crates/tombi-glob/src/file_search.rs b/crates/tombi-glob/src/file_search.rs
index 6fe3485..b3ec5bb 100644
--- a/crates/tombi-glob/src/file_search.rs
+++ b/crates/tombi-glob/src/file_search.rs
@@ -1,3 +1,4 @@
+use std::collections::HashSet;
 use std::path::{Path, PathBuf};
 
 use tombi_config::{Config, ConfigLevel, FilesOptions, GlobPattern, config_base_dir};
@@ -103,6 +104,14 @@ impl FileSearch {
                     }
                 }
 
+                let mut seen = HashSet::new();
+                matched_paths.retain(|entry| match entry {
+                    FileSearchEntry::Found(path) | FileSearchEntry::Skipped(path) => {
+                        seen.insert(path.canonicalize().unwrap_or_else(|_| path.clone()))
+                    }
+                    FileSearchEntry::Error(_) => true,
+                });
+
                 FileSearch::Files(matched_paths)
             }
         }
-- 
2.43.0


From 8ad42b01682ba58dcefa190c2be6668b53a417a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:36 +0000
Subject: [PATCH 30/60] fix: match an explicitly named file against the exclude
 patterns by its place

---
 crates/tombi-glob/src/file_search.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/crates/tombi-glob/src/file_search.rs b/crates/tombi-glob/src/file_search.rs
index b3ec5bb..cb646f5 100644
--- a/crates/tombi-glob/src/file_search.rs
+++ b/crates/tombi-glob/src/file_search.rs
@@ -148,8 +148,17 @@ pub async fn search_pattern_matched_paths<P: AsRef<std::path::Path>>(
 }
 
 fn is_excluded(path: &Path, root: &Path, exclude_patterns: Option<&[GlobPattern]>) -> bool {
-    exclude_patterns
-        .is_some_and(|patterns| crate::pattern::path_matches_patterns(path, root, patterns))
+    let Some(patterns) = exclude_patterns else {
+        return false;
+    };
+    // However the path is written, its place below the root decides.
+    if let (Ok(absolute_path), Ok(absolute_root)) = (path.canonicalize(), root.canonicalize())
+        && absolute_path.starts_with(&absolute_root)
+    {
+        crate::pattern::path_matches_patterns(&absolute_path, &absolute_root, patterns)
+    } else {
+        crate::pattern::path_matches_patterns(path, root, patterns)
+    }
 }
 
 fn is_glob_pattern(path_str: &str) -> bool {
-- 
2.43.0


From a618b66be367ec1502da1717af52e15e8669b001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:56 +0000
Subject: [PATCH 31/60] fix: match files below a directory argument against the
 patterns by their place below the configuration

---
 crates/tombi-glob/src/file_search.rs | 12 ++++++----
 crates/tombi-glob/src/walk_dir.rs    | 35 ++++++++++++++++++++++++++--
 2 files changed, 41 insertions(+), 6 deletions(-)

diff --git a/crates/tombi-glob/src/file_search.rs b/crates/tombi-glob/src/file_search.rs
index cb646f5..4d175e5 100644
--- a/crates/tombi-glob/src/file_search.rs
+++ b/crates/tombi-glob/src/file_search.rs
@@ -94,9 +94,9 @@ impl FileSearch {
                                 matched_paths.push(FileSearchEntry::Found(path));
                             }
                         } else if path.is_dir() {
-                            matched_paths.extend(
-                                search_pattern_matched_paths(path, files_options.clone()).await,
-                            );
+                            let walk_dir = WalkDir::new_with_options(path, files_options.clone())
+                                .with_pattern_root(&root);
+                            matched_paths.extend(walk_matched_paths(walk_dir).await);
                         } else {
                             matched_paths
                                 .push(FileSearchEntry::Error(crate::Error::FileNotFound(path)));
@@ -139,7 +139,11 @@ pub async fn search_pattern_matched_paths<P: AsRef<std::path::Path>>(
     log::debug!("include patterns: {:?}", files_options.include);
     log::debug!("exclude patterns: {:?}", files_options.exclude);
 
-    match WalkDir::new_with_options(root, files_options).walk().await {
+    walk_matched_paths(WalkDir::new_with_options(root, files_options)).await
+}
+
+async fn walk_matched_paths(walk_dir: WalkDir) -> Vec<FileSearchEntry> {
+    match walk_dir.walk().await {
         Ok(results) => results.into_iter().map(FileSearchEntry::Found).collect(),
         Err(err) => {
             vec![FileSearchEntry::Error(err)]
diff --git a/crates/tombi-glob/src/walk_dir.rs b/crates/tombi-glob/src/walk_dir.rs
index d02ee9d..cf64ed4 100644
--- a/crates/tombi-glob/src/walk_dir.rs
+++ b/crates/tombi-glob/src/walk_dir.rs
@@ -22,6 +22,10 @@ fn is_vcs_metadata_dir(path: &Path) -> bool {
 /// WalkDir-like structure for parallel async directory walking
 pub struct WalkDir {
     root: PathBuf,
+    /// Patterns are relative to this directory when `root` is below it,
+    /// otherwise to `root`.
+    #[cfg_attr(target_family = "wasm", allow(dead_code))]
+    pattern_root: Option<PathBuf>,
     options: FilesOptions,
 }
 
@@ -30,6 +34,7 @@ impl WalkDir {
     pub fn new<P: AsRef<Path>>(root: P) -> Self {
         Self {
             root: root.as_ref().to_path_buf(),
+            pattern_root: None,
             options: FilesOptions::default(),
         }
     }
@@ -38,10 +43,32 @@ impl WalkDir {
     pub fn new_with_options<P: AsRef<Path>>(root: P, options: FilesOptions) -> Self {
         Self {
             root: root.as_ref().to_path_buf(),
+            pattern_root: None,
             options,
         }
     }
 
+    /// Match the patterns relative to a directory above the walked one.
+    pub fn with_pattern_root<P: AsRef<Path>>(mut self, pattern_root: P) -> Self {
+        self.pattern_root = Some(pattern_root.as_ref().to_path_buf());
+        self
+    }
+
+    /// Where the walked directory lies below the pattern root.
+    #[cfg(not(target_family = "wasm"))]
+    fn pattern_prefix(&self) -> PathBuf {
+        let Some(pattern_root) = &self.pattern_root else {
+            return PathBuf::new();
+        };
+        match (self.root.canonicalize(), pattern_root.canonicalize()) {
+            (Ok(root), Ok(pattern_root)) => root
+                .strip_prefix(pattern_root)
+                .map(Path::to_path_buf)
+                .unwrap_or_default(),
+            _ => PathBuf::new(),
+        }
+    }
+
     /// Walk the directory asynchronously and return matching file paths.
     #[cfg(not(target_family = "wasm"))]
     pub async fn walk(self) -> Result<Vec<PathBuf>, crate::Error> {
@@ -62,6 +89,7 @@ impl WalkDir {
             return Ok(Vec::new());
         }
 
+        let pattern_prefix = self.pattern_prefix();
         let results = Arc::new(Mutex::new(Vec::new()));
 
         let mut builder = WalkBuilder::new(root_path);
@@ -87,6 +115,7 @@ impl WalkDir {
             let include_patterns = self.options.include.clone().unwrap_or_default();
             let exclude_patterns = self.options.exclude.clone().unwrap_or_default();
             let root_path = root_path.to_path_buf();
+            let pattern_prefix = pattern_prefix.clone();
 
             Box::new(move |entry_result| {
                 match entry_result {
@@ -95,8 +124,10 @@ impl WalkDir {
                             && file_type.is_file()
                         {
                             let path = entry.path();
-                            let path_for_patterns =
-                                crate::pattern::path_for_patterns(path, &root_path);
+                            let pattern_path = path
+                                .strip_prefix(&root_path)
+                                .map_or_else(|_| path.to_path_buf(), |p| pattern_prefix.join(p));
+                            let path_for_patterns = pattern_path.to_string_lossy();
 
                             // Check if file matches any include pattern
                             let should_include = include_patterns.is_empty()
-- 
2.43.0


From 6035e51889e7af089f5c892ba56dbbe857d4c4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:35 +0000
Subject: [PATCH 32/60] fix: pass over a user-level configuration that cannot
 be read or parsed

---
 rust/serde_tombi/src/config.rs | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/rust/serde_tombi/src/config.rs b/rust/serde_tombi/src/config.rs
index 29bf56d..e506c16 100644
--- a/rust/serde_tombi/src/config.rs
+++ b/rust/serde_tombi/src/config.rs
@@ -173,16 +173,10 @@ pub fn load_with_path_and_level(
         }
     }
 
-    if let Some((user_config_path, config_level)) = get_user_or_system_tombi_config_path_and_level()
-    {
+    for (user_config_path, config_level) in get_user_and_system_tombi_config_paths_and_levels() {
         log::debug!("{CONFIG_TOML_FILENAME} found at {:?}", user_config_path);
-        match try_from_path(&user_config_path).ok().flatten() {
-            Some(config) => {
-                return Ok((config, Some(user_config_path), config_level));
-            }
-            None => {
-                unreachable!("{CONFIG_TOML_FILENAME} should always be parsed successfully.");
-            }
+        if let Some(config) = try_from_path(&user_config_path).ok().flatten() {
+            return Ok((config, Some(user_config_path), config_level));
         }
     }
 
@@ -205,14 +199,16 @@ pub fn load(search_dir: Option<std::path::PathBuf>) -> Result<Config, tombi_conf
     Ok(config)
 }
 
-fn get_user_or_system_tombi_config_path_and_level() -> Option<(std::path::PathBuf, ConfigLevel)> {
+fn get_user_and_system_tombi_config_paths_and_levels() -> Vec<(std::path::PathBuf, ConfigLevel)> {
+    let mut config_paths = Vec::new();
+
     // 1. $XDG_CONFIG_HOME/tombi/config.toml
     if let Ok(xdg_config_home) = std::env::var("XDG_CONFIG_HOME") {
         let mut config_path = std::path::PathBuf::from(xdg_config_home);
         config_path.push("tombi");
         config_path.push(CONFIG_TOML_FILENAME);
         if tombi_fs::is_file(&config_path) {
-            return Some((config_path, ConfigLevel::User));
+            config_paths.push((config_path, ConfigLevel::User));
         }
     }
 
@@ -223,7 +219,7 @@ fn get_user_or_system_tombi_config_path_and_level() -> Option<(std::path::PathBu
         config_path.push("tombi");
         config_path.push(CONFIG_TOML_FILENAME);
         if tombi_fs::is_file(&config_path) {
-            return Some((config_path, ConfigLevel::User));
+            config_paths.push((config_path, ConfigLevel::User));
         }
 
         #[cfg(target_os = "macos")]
@@ -235,7 +231,7 @@ fn get_user_or_system_tombi_config_path_and_level() -> Option<(std::path::PathBu
             config_path.push("tombi");
             config_path.push(CONFIG_TOML_FILENAME);
             if tombi_fs::is_file(&config_path) {
-                return Some((config_path, ConfigLevel::User));
+                config_paths.push((config_path, ConfigLevel::User));
             }
         }
     }
@@ -248,7 +244,7 @@ fn get_user_or_system_tombi_config_path_and_level() -> Option<(std::path::PathBu
             config_path.push("tombi");
             config_path.push(CONFIG_TOML_FILENAME);
             if tombi_fs::is_file(&config_path) {
-                return Some((config_path, ConfigLevel::User));
+                config_paths.push((config_path, ConfigLevel::User));
             }
         }
     }
@@ -257,10 +253,10 @@ fn get_user_or_system_tombi_config_path_and_level() -> Option<(std::path::PathBu
     let mut config_path = std::path::PathBuf::from("/etc/tombi");
     config_path.push(CONFIG_TOML_FILENAME);
     if tombi_fs::is_file(&config_path) {
-        return Some((config_path, ConfigLevel::System));
+        config_paths.push((config_path, ConfigLevel::System));
     }
 
-    None
+    config_paths
 }
 
 #[cfg(test)]
-- 
2.43.0


From 1a11a6c05d88bf37f2f48ecf80d4a75c7029519e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:27 +0000
Subject: [PATCH 33/60] fix: let the rules of an override win over the general
 ones

---
 crates/tombi-config/src/format.rs | 64 +++++++++++++++----------------
 crates/tombi-config/src/lint.rs   | 10 ++---
 2 files changed, 37 insertions(+), 37 deletions(-)

diff --git a/crates/tombi-config/src/format.rs b/crates/tombi-config/src/format.rs
index e054e26..d1def14 100644
--- a/crates/tombi-config/src/format.rs
+++ b/crates/tombi-config/src/format.rs
@@ -305,50 +305,50 @@ pub struct FormatRules {
 impl FormatRules {
     pub fn merge(self, override_rules: &Self) -> Self {
         Self {
-            array_bracket_space_width: self
+            array_bracket_space_width: override_rules
                 .array_bracket_space_width
-                .or(override_rules.array_bracket_space_width),
-            array_comma_space_width: self
+                .or(self.array_bracket_space_width),
+            array_comma_space_width: override_rules
                 .array_comma_space_width
-                .or(override_rules.array_comma_space_width),
-            comment_style: self.comment_style.or(override_rules.comment_style),
-            date_time_delimiter: self
+                .or(self.array_comma_space_width),
+            comment_style: override_rules.comment_style.or(self.comment_style),
+            date_time_delimiter: override_rules
                 .date_time_delimiter
-                .or(override_rules.date_time_delimiter),
-            group_blank_lines_limit: self
+                .or(self.date_time_delimiter),
+            group_blank_lines_limit: override_rules
                 .group_blank_lines_limit
-                .or(override_rules.group_blank_lines_limit),
-            indent_style: self.indent_style.or(override_rules.indent_style),
-            indent_sub_tables: self.indent_sub_tables.or(override_rules.indent_sub_tables),
-            indent_table_key_value_pairs: self
+                .or(self.group_blank_lines_limit),
+            indent_style: override_rules.indent_style.or(self.indent_style),
+            indent_sub_tables: override_rules.indent_sub_tables.or(self.indent_sub_tables),
+            indent_table_key_value_pairs: override_rules
                 .indent_table_key_value_pairs
-                .or(override_rules.indent_table_key_value_pairs),
-            indent_width: self.indent_width.or(override_rules.indent_width),
-            inline_table_brace_space_width: self
+                .or(self.indent_table_key_value_pairs),
+            indent_width: override_rules.indent_width.or(self.indent_width),
+            inline_table_brace_space_width: override_rules
                 .inline_table_brace_space_width
-                .or(override_rules.inline_table_brace_space_width),
-            inline_table_comma_space_width: self
+                .or(self.inline_table_brace_space_width),
+            inline_table_comma_space_width: override_rules
                 .inline_table_comma_space_width
-                .or(override_rules.inline_table_comma_space_width),
-            key_value_equals_sign_alignment: self
+                .or(self.inline_table_comma_space_width),
+            key_value_equals_sign_alignment: override_rules
                 .key_value_equals_sign_alignment
-                .or(override_rules.key_value_equals_sign_alignment),
-            key_quote_style: self.key_quote_style.or(override_rules.key_quote_style),
-            string_quote_style: self
+                .or(self.key_value_equals_sign_alignment),
+            key_quote_style: override_rules.key_quote_style.or(self.key_quote_style),
+            string_quote_style: override_rules
                 .string_quote_style
-                .or(override_rules.string_quote_style),
-            trailing_comment_alignment: self
+                .or(self.string_quote_style),
+            trailing_comment_alignment: override_rules
                 .trailing_comment_alignment
-                .or(override_rules.trailing_comment_alignment),
-            key_value_equals_sign_space_width: self
+                .or(self.trailing_comment_alignment),
+            key_value_equals_sign_space_width: override_rules
                 .key_value_equals_sign_space_width
-                .or(override_rules.key_value_equals_sign_space_width),
-            line_ending: self.line_ending.or(override_rules.line_ending),
-            line_width: self.line_width.or(override_rules.line_width),
-            table_blank_lines: self.table_blank_lines.or(override_rules.table_blank_lines),
-            trailing_comment_space_width: self
+                .or(self.key_value_equals_sign_space_width),
+            line_ending: override_rules.line_ending.or(self.line_ending),
+            line_width: override_rules.line_width.or(self.line_width),
+            table_blank_lines: override_rules.table_blank_lines.or(self.table_blank_lines),
+            trailing_comment_space_width: override_rules
                 .trailing_comment_space_width
-                .or(override_rules.trailing_comment_space_width),
+                .or(self.trailing_comment_space_width),
         }
     }
 }
diff --git a/crates/tombi-config/src/lint.rs b/crates/tombi-config/src/lint.rs
index 447d22c..9708852 100644
--- a/crates/tombi-config/src/lint.rs
+++ b/crates/tombi-config/src/lint.rs
@@ -75,13 +75,13 @@ pub struct LintRules {
 impl LintRules {
     pub fn merge(self, override_rules: &Self) -> Self {
         Self {
-            key_empty: self.key_empty.or(override_rules.key_empty),
-            dotted_keys_out_of_order: self
+            key_empty: override_rules.key_empty.or(self.key_empty),
+            dotted_keys_out_of_order: override_rules
                 .dotted_keys_out_of_order
-                .or(override_rules.dotted_keys_out_of_order),
-            tables_out_of_order: self
+                .or(self.dotted_keys_out_of_order),
+            tables_out_of_order: override_rules
                 .tables_out_of_order
-                .or(override_rules.tables_out_of_order),
+                .or(self.tables_out_of_order),
         }
     }
 }
-- 
2.43.0


From bd2b04c496a841ffe520953845426cfd3d2d34f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:24 +0000
Subject: [PATCH 34/60] fix: compare numbers of any size in version sort

---
 crates/tombi-version-sort/src/lib.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/crates/tombi-version-sort/src/lib.rs b/crates/tombi-version-sort/src/lib.rs
index 110a299..8284ebd 100644
--- a/crates/tombi-version-sort/src/lib.rs
+++ b/crates/tombi-version-sort/src/lib.rs
@@ -41,7 +41,7 @@ impl<'a> VersionChunkIter<'a> {
         };
 
         let zeros = source.chars().take_while(|c| *c == '0').count();
-        let value = source.parse::<usize>().ok()?;
+        let value = source.parse::<usize>().unwrap_or(usize::MAX);
 
         Some(VersionChunk::Number {
             value,
@@ -219,14 +219,19 @@ pub fn version_sort(a: &str, b: &str) -> std::cmp::Ordering {
                     VersionChunk::Number {
                         value: va,
                         zeros: lza,
-                        ..
+                        source: sa,
                     },
                     VersionChunk::Number {
                         value: vb,
                         zeros: lzb,
-                        ..
+                        source: sb,
                     },
-                ) => match va.cmp(&vb) {
+                ) => match va
+                    .cmp(&vb)
+                    // Values beyond usize: more digits, then larger digits
+                    .then_with(|| (sa.len() - lza).cmp(&(sb.len() - lzb)))
+                    .then_with(|| sa[lza..].cmp(&sb[lzb..]))
+                {
                     std::cmp::Ordering::Equal => {
                         if lza == lzb {
                             continue;
-- 
2.43.0


From a99d888abc461c28f7d577849cc74b8aae8b65f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:54 +0000
Subject: [PATCH 35/60] fix: do not wait for its own lock when going to a type
 definition

---
 crates/tombi-lsp/src/goto_type_definition/value/table.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/tombi-lsp/src/goto_type_definition/value/table.rs b/crates/tombi-lsp/src/goto_type_definition/value/table.rs
index e05a283..6550e16 100644
--- a/crates/tombi-lsp/src/goto_type_definition/value/table.rs
+++ b/crates/tombi-lsp/src/goto_type_definition/value/table.rs
@@ -68,13 +68,14 @@ impl GetTypeDefinition for tombi_document_tree::Table {
                                     .chain(std::iter::once(accessor))
                                     .collect_vec();
 
-                                if let Some(key_range) = table_schema
+                                // Resolving the property takes the lock again.
+                                let key_range = table_schema
                                     .properties
                                     .read()
                                     .await
                                     .get(&schema_accessor)
-                                    .map(|property_schema| property_schema.key_range)
-                                {
+                                    .map(|property_schema| property_schema.key_range);
+                                if let Some(key_range) = key_range {
                                     if let Ok(Some(current_schema)) = table_schema
                                         .resolve_property_schema(
                                             &schema_accessor,
-- 
2.43.0


From 006a1293eacafac6fdcfd3e80c8e13aa62b35b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:54 +0000
Subject: [PATCH 36/60] fix: judge integers by fractional bounds and divisors
 as well

---
 .../src/schema/integer_schema.rs              | 46 +++++++++++++++++--
 1 file changed, 41 insertions(+), 5 deletions(-)

diff --git a/crates/tombi-schema-store/src/schema/integer_schema.rs b/crates/tombi-schema-store/src/schema/integer_schema.rs
index 00e0028..dfd49e8 100644
--- a/crates/tombi-schema-store/src/schema/integer_schema.rs
+++ b/crates/tombi-schema-store/src/schema/integer_schema.rs
@@ -43,11 +43,15 @@ impl IntegerSchema {
             description: object
                 .get("description")
                 .and_then(|v| v.as_str().map(|s| s.to_string())),
-            minimum: object.get("minimum").and_then(|v| v.as_i64()),
-            maximum: object.get("maximum").and_then(|v| v.as_i64()),
-            exclusive_minimum: object.get("exclusiveMinimum").and_then(|v| v.as_i64()),
-            exclusive_maximum: object.get("exclusiveMaximum").and_then(|v| v.as_i64()),
-            multiple_of: object.get("multipleOf").and_then(|v| v.as_i64()),
+            minimum: object.get("minimum").and_then(|v| bound(v, f64::ceil)),
+            maximum: object.get("maximum").and_then(|v| bound(v, f64::floor)),
+            exclusive_minimum: object
+                .get("exclusiveMinimum")
+                .and_then(|v| bound(v, f64::floor)),
+            exclusive_maximum: object
+                .get("exclusiveMaximum")
+                .and_then(|v| bound(v, f64::ceil)),
+            multiple_of: object.get("multipleOf").and_then(integer_divisor),
             r#enum: object
                 .get("enum")
                 .and_then(|v| v.as_array())
@@ -75,3 +79,35 @@ impl IntegerSchema {
         self.deprecation.as_ref().map(|_| true)
     }
 }
+
+/// A bound need not be an integer itself (`"minimum": 1.5`): the nearest
+/// integer that admits the same integers is used.
+fn bound(value: &tombi_json::ValueNode, round: fn(f64) -> f64) -> Option<i64> {
+    value
+        .as_i64()
+        .or_else(|| value.as_f64().map(|value| round(value) as i64))
+}
+
+/// The integers that are a multiple of `multipleOf` are the multiples of the
+/// numerator of its lowest terms (`1.5` is `3/2`, so they are those of `3`).
+fn integer_divisor(value: &tombi_json::ValueNode) -> Option<i64> {
+    value.as_i64().or_else(|| {
+        let divisor = value.as_f64()?;
+        let mut denominator = 1i64;
+        for _ in 0..15 {
+            let numerator = divisor * denominator as f64;
+            if numerator.abs() >= i64::MAX as f64 {
+                return None;
+            }
+            if (numerator - numerator.round()).abs() < 1e-9 && numerator.round() != 0.0 {
+                let (mut a, mut b) = (numerator.round() as i64, denominator);
+                while b != 0 {
+                    (a, b) = (b, a % b);
+                }
+                return Some(numerator.round() as i64 / a);
+            }
+            denominator *= 10;
+        }
+        None
+    })
+}
-- 
2.43.0


From 4f2e4ed8556701f71c9c8239a5a4fe756ec77013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:54 +0000
Subject: [PATCH 37/60] fix: apply if, then and else to scalar values

---
 crates/tombi-schema-store/src/schema.rs       | 35 +++++++++++++++++++
 .../src/schema/boolean_schema.rs              |  2 +-
 .../src/schema/float_schema.rs                |  2 +-
 .../src/schema/integer_schema.rs              |  2 +-
 .../src/schema/local_date_schema.rs           |  2 +-
 .../src/schema/local_date_time_schema.rs      |  2 +-
 .../src/schema/local_time_schema.rs           |  2 +-
 .../src/schema/offset_date_time_schema.rs     |  2 +-
 .../src/schema/string_schema.rs               |  2 +-
 9 files changed, 43 insertions(+), 8 deletions(-)

diff --git a/crates/tombi-schema-store/src/schema.rs b/crates/tombi-schema-store/src/schema.rs
index 188eb1a..347a532 100644
--- a/crates/tombi-schema-store/src/schema.rs
+++ b/crates/tombi-schema-store/src/schema.rs
@@ -393,6 +393,41 @@ pub(crate) fn adjacent_applicators(
     (one_of, any_of, all_of, not)
 }
 
+/// The applicators of a schema seen as one of a scalar value, `if` among them:
+/// an `allOf` stands in for it, unless another applicator carries it already.
+pub(crate) fn scalar_applicators(
+    object: &tombi_json::ObjectNode,
+    string_formats: Option<&[tombi_x_keyword::StringFormat]>,
+    dialect: Option<crate::JsonSchemaDialect>,
+    mut anchor_collector: Option<&mut AnchorCollector>,
+    mut dynamic_anchor_collector: Option<&mut DynamicAnchorCollector>,
+) -> AdjacentApplicators {
+    let (one_of, any_of, mut all_of, not) = adjacent_applicators(
+        object,
+        string_formats,
+        dialect,
+        anchor_collector.as_deref_mut(),
+        dynamic_anchor_collector.as_deref_mut(),
+    );
+    if one_of.is_none() && any_of.is_none() && all_of.is_none() {
+        all_of = if_then_else_schema::IfThenElseSchema::new(
+            object,
+            string_formats,
+            dialect,
+            anchor_collector,
+            dynamic_anchor_collector,
+        )
+        .map(|if_then_else| {
+            Box::new(AllOfSchema {
+                if_then_else: Some(Box::new(if_then_else)),
+                ..Default::default()
+            })
+        });
+    }
+
+    (one_of, any_of, all_of, not)
+}
+
 pub(crate) fn update_named_anchors(
     object: &tombi_json::ObjectNode,
     referable: &Referable<SchemaView>,
diff --git a/crates/tombi-schema-store/src/schema/boolean_schema.rs b/crates/tombi-schema-store/src/schema/boolean_schema.rs
index 5aef935..95510fc 100644
--- a/crates/tombi-schema-store/src/schema/boolean_schema.rs
+++ b/crates/tombi-schema-store/src/schema/boolean_schema.rs
@@ -24,7 +24,7 @@ impl BooleanSchema {
         anchor_collector: Option<&mut crate::AnchorCollector>,
         dynamic_anchor_collector: Option<&mut crate::DynamicAnchorCollector>,
     ) -> Self {
-        let (one_of, any_of, all_of, not) = crate::adjacent_applicators(
+        let (one_of, any_of, all_of, not) = crate::scalar_applicators(
             object,
             string_formats,
             dialect,
diff --git a/crates/tombi-schema-store/src/schema/float_schema.rs b/crates/tombi-schema-store/src/schema/float_schema.rs
index 3bdccc5..6628540 100644
--- a/crates/tombi-schema-store/src/schema/float_schema.rs
+++ b/crates/tombi-schema-store/src/schema/float_schema.rs
@@ -29,7 +29,7 @@ impl FloatSchema {
         anchor_collector: Option<&mut crate::AnchorCollector>,
         dynamic_anchor_collector: Option<&mut crate::DynamicAnchorCollector>,
     ) -> Self {
-        let (one_of, any_of, all_of, not) = crate::adjacent_applicators(
+        let (one_of, any_of, all_of, not) = crate::scalar_applicators(
             object,
             string_formats,
             dialect,
diff --git a/crates/tombi-schema-store/src/schema/integer_schema.rs b/crates/tombi-schema-store/src/schema/integer_schema.rs
index dfd49e8..ebd79a8 100644
--- a/crates/tombi-schema-store/src/schema/integer_schema.rs
+++ b/crates/tombi-schema-store/src/schema/integer_schema.rs
@@ -29,7 +29,7 @@ impl IntegerSchema {
         anchor_collector: Option<&mut crate::AnchorCollector>,
         dynamic_anchor_collector: Option<&mut crate::DynamicAnchorCollector>,
     ) -> Self {
-        let (one_of, any_of, all_of, not) = crate::adjacent_applicators(
+        let (one_of, any_of, all_of, not) = crate::scalar_applicators(
             object,
             string_formats,
             dialect,
diff --git a/crates/tombi-schema-store/src/schema/local_date_schema.rs b/crates/tombi-schema-store/src/schema/local_date_schema.rs
index a167f17..8b7227e 100644
--- a/crates/tombi-schema-store/src/schema/local_date_schema.rs
+++ b/crates/tombi-schema-store/src/schema/local_date_schema.rs
@@ -24,7 +24,7 @@ impl LocalDateSchema {
         anchor_collector: Option<&mut crate::AnchorCollector>,
         dynamic_anchor_collector: Option<&mut crate::DynamicAnchorCollector>,
     ) -> Self {
-        let (one_of, any_of, all_of, not) = crate::adjacent_applicators(
+        let (one_of, any_of, all_of, not) = crate::scalar_applicators(
             object,
             string_formats,
             dialect,
diff --git a/crates/tombi-schema-store/src/schema/local_date_time_schema.rs b/crates/tombi-schema-store/src/schema/local_date_time_schema.rs
index 7bac6b2..f8c7edb 100644
--- a/crates/tombi-schema-store/src/schema/local_date_time_schema.rs
+++ b/crates/tombi-schema-store/src/schema/local_date_time_schema.rs
@@ -24,7 +24,7 @@ impl LocalDateTimeSchema {
         anchor_collector: Option<&mut crate::AnchorCollector>,
         dynamic_anchor_collector: Option<&mut crate::DynamicAnchorCollector>,
     ) -> Self {
-        let (one_of, any_of, all_of, not) = crate::adjacent_applicators(
+        let (one_of, any_of, all_of, not) = crate::scalar_applicators(
             object,
             string_formats,
             dialect,
diff --git a/crates/tombi-schema-store/src/schema/local_time_schema.rs b/crates/tombi-schema-store/src/schema/local_time_schema.rs
index 189ff86..5934d6c 100644
--- a/crates/tombi-schema-store/src/schema/local_time_schema.rs
+++ b/crates/tombi-schema-store/src/schema/local_time_schema.rs
@@ -24,7 +24,7 @@ impl LocalTimeSchema {
         anchor_collector: Option<&mut crate::AnchorCollector>,
         dynamic_anchor_collector: Option<&mut crate::DynamicAnchorCollector>,
     ) -> Self {
-        let (one_of, any_of, all_of, not) = crate::adjacent_applicators(
+        let (one_of, any_of, all_of, not) = crate::scalar_applicators(
             object,
             string_formats,
             dialect,
diff --git a/crates/tombi-schema-store/src/schema/offset_date_time_schema.rs b/crates/tombi-schema-store/src/schema/offset_date_time_schema.rs
index f0a3958..66f30f0 100644
--- a/crates/tombi-schema-store/src/schema/offset_date_time_schema.rs
+++ b/crates/tombi-schema-store/src/schema/offset_date_time_schema.rs
@@ -24,7 +24,7 @@ impl OffsetDateTimeSchema {
         anchor_collector: Option<&mut crate::AnchorCollector>,
         dynamic_anchor_collector: Option<&mut crate::DynamicAnchorCollector>,
     ) -> Self {
-        let (one_of, any_of, all_of, not) = crate::adjacent_applicators(
+        let (one_of, any_of, all_of, not) = crate::scalar_applicators(
             object,
             string_formats,
             dialect,
diff --git a/crates/tombi-schema-store/src/schema/string_schema.rs b/crates/tombi-schema-store/src/schema/string_schema.rs
index 4b0b0b2..8973017 100644
--- a/crates/tombi-schema-store/src/schema/string_schema.rs
+++ b/crates/tombi-schema-store/src/schema/string_schema.rs
@@ -34,7 +34,7 @@ impl StringSchema {
         anchor_collector: Option<&mut crate::AnchorCollector>,
         dynamic_anchor_collector: Option<&mut crate::DynamicAnchorCollector>,
     ) -> Self {
-        let (one_of, any_of, all_of, not) = crate::adjacent_applicators(
+        let (one_of, any_of, all_of, not) = crate::scalar_applicators(
             object,
             string_formats,
             dialect,
-- 
2.43.0


From e4dc753e0d590132658bfd5a2cc2bbb65a2aa21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:54 +0000
Subject: [PATCH 38/60] fix: apply what stands beside a reference since 2019-09

---
 .../src/schema/referable_schema.rs            | 164 +++++++++++++++---
 .../src/schema/semantic_schema.rs             |  50 ++++++
 2 files changed, 189 insertions(+), 25 deletions(-)

diff --git a/crates/tombi-schema-store/src/schema/referable_schema.rs b/crates/tombi-schema-store/src/schema/referable_schema.rs
index 042c6fc..5e6985b 100644
--- a/crates/tombi-schema-store/src/schema/referable_schema.rs
+++ b/crates/tombi-schema-store/src/schema/referable_schema.rs
@@ -18,6 +18,16 @@ pub enum ReferenceKind {
     RecursiveRef,
 }
 
+impl ReferenceKind {
+    fn keyword(self) -> &'static str {
+        match self {
+            Self::Ref => "$ref",
+            Self::DynamicRef => "$dynamicRef",
+            Self::RecursiveRef => "$recursiveRef",
+        }
+    }
+}
+
 #[derive(Debug, Clone)]
 pub enum Referable<T> {
     Resolved {
@@ -146,26 +156,20 @@ impl Referable<SchemaView> {
         {
             return None;
         }
-        let (reference_kind, reference_value) = match (
-            object.get("$ref").and_then(|v| v.as_str()),
-            dialect
-                .filter(|dialect| crate::supports_keyword(Some(*dialect), "$dynamicRef"))
-                .and_then(|_| object.get("$dynamicRef").and_then(|v| v.as_str())),
-            dialect
-                .filter(|dialect| crate::supports_keyword(Some(*dialect), "$recursiveRef"))
-                .and_then(|_| object.get("$recursiveRef").and_then(|v| v.as_str())),
-        ) {
-            (Some(reference), _, _) => (Some(ReferenceKind::Ref), Some(reference)),
-            (None, Some(reference), _) => (Some(ReferenceKind::DynamicRef), Some(reference)),
-            (None, None, Some(reference)) => {
-                if reference == "#" {
-                    (Some(ReferenceKind::RecursiveRef), Some(reference))
-                } else {
-                    (None, None)
-                }
-            }
-            (None, None, None) => (None, None),
-        };
+        let (reference_kind, reference_value) = reference_of(object, dialect).unzip();
+        if dialect != Some(crate::JsonSchemaDialect::Draft07)
+            && let (Some(kind), Some(reference)) = (reference_kind, reference_value)
+            && super::SemanticSchema::from_object_node(object, dialect).has_direct_assertion()
+        {
+            return Self::new(
+                &reference_as_all_of(object, kind, reference),
+                string_formats,
+                dialect,
+                anchor_collector,
+                dynamic_anchor_collector,
+            );
+        }
+
         let referable = if let (Some(kind), Some(reference)) = (reference_kind, reference_value) {
             Some(Referable::Ref {
                 reference: reference.to_string(),
@@ -428,9 +432,10 @@ impl Referable<SchemaView> {
                                     semantic_schema: resolve_json_pointer_node(
                                         &schema_value,
                                         pointer,
+                                        dialect,
                                     )
                                     .and_then(|value| {
-                                        super::SemanticSchema::from_value_node(value, dialect)
+                                        super::SemanticSchema::from_value_node(&value, dialect)
                                     })
                                     .map(Arc::new)
                                     .map(|target| {
@@ -599,6 +604,65 @@ impl Referable<SchemaView> {
     }
 }
 
+fn reference_of(
+    object: &tombi_json::ObjectNode,
+    dialect: Option<crate::JsonSchemaDialect>,
+) -> Option<(ReferenceKind, &str)> {
+    match (
+        object.get("$ref").and_then(|v| v.as_str()),
+        dialect
+            .filter(|dialect| crate::supports_keyword(Some(*dialect), "$dynamicRef"))
+            .and_then(|_| object.get("$dynamicRef").and_then(|v| v.as_str())),
+        dialect
+            .filter(|dialect| crate::supports_keyword(Some(*dialect), "$recursiveRef"))
+            .and_then(|_| object.get("$recursiveRef").and_then(|v| v.as_str())),
+    ) {
+        (Some(reference), _, _) => Some((ReferenceKind::Ref, reference)),
+        (None, Some(reference), _) => Some((ReferenceKind::DynamicRef, reference)),
+        (None, None, Some("#")) => Some((ReferenceKind::RecursiveRef, "#")),
+        (None, None, _) => None,
+    }
+}
+
+/// Since 2019-09 what is asserted beside a reference counts just like what it
+/// refers to: the reference becomes one more `allOf` of the schema.
+fn reference_as_all_of(
+    object: &tombi_json::ObjectNode,
+    kind: ReferenceKind,
+    reference: &str,
+) -> tombi_json::ObjectNode {
+    let range = object.range;
+    let string = |value: &str| tombi_json::StringNode {
+        value: value.to_string(),
+        range,
+    };
+    let mut object = object.clone();
+    let keyword = kind.keyword();
+    object
+        .properties
+        .as_inner_mut()
+        .shift_remove(&string(keyword));
+    let mut target = tombi_json::ObjectNode {
+        properties: Default::default(),
+        range,
+    };
+    target.properties.insert(
+        string(keyword),
+        tombi_json::ValueNode::String(string(reference)),
+    );
+    let mut items = object
+        .get("allOf")
+        .and_then(|all_of| all_of.as_array())
+        .map(|all_of| all_of.items.clone())
+        .unwrap_or_default();
+    items.push(tombi_json::ValueNode::Object(target));
+    object.properties.insert(
+        string("allOf"),
+        tombi_json::ValueNode::Array(tombi_json::ArrayNode { items, range }),
+    );
+    object
+}
+
 fn apply_ref_annotations(
     referable_schema: &mut Referable<SchemaView>,
     title: Option<&String>,
@@ -660,6 +724,10 @@ fn combine_ref_semantics(
     target: Option<Arc<super::SemanticSchema>>,
 ) -> Option<Arc<super::SemanticSchema>> {
     match (local, target) {
+        // a reference that asserts nothing beside it is what it refers to
+        (Some(local), Some(target)) if !local.has_direct_assertion() => {
+            Some(Arc::new(target.with_annotations_of(&local)))
+        }
         (Some(local), Some(target)) => Some(Arc::new(super::SemanticSchema::composite(
             super::SemanticCompositeKind::AllOf,
             vec![local.as_ref().clone(), target.as_ref().clone()],
@@ -820,8 +888,9 @@ async fn resolve_external_reference(
                     semantic_schema: resolve_json_pointer_node(
                         &schema_value,
                         &reference_with_fragment,
+                        dialect,
                     )
-                    .and_then(|value| super::SemanticSchema::from_value_node(value, dialect))
+                    .and_then(|value| super::SemanticSchema::from_value_node(&value, dialect))
                     .map(Arc::new),
                     schema_uri: Cow::Owned(document_base_uri(&document_schema)),
                     definitions: Cow::Owned(document_schema.definitions.clone()),
@@ -1127,13 +1196,13 @@ pub fn resolve_json_pointer(
     string_formats: Option<&[StringFormat]>,
     dialect: Option<crate::JsonSchemaDialect>,
 ) -> Result<Option<SchemaView>, crate::Error> {
-    let Some(current) = resolve_json_pointer_node(schema_node, pointer) else {
+    let Some(current) = resolve_json_pointer_node(schema_node, pointer, dialect) else {
         return Ok(None);
     };
 
-    match current {
+    match current.as_ref() {
         tombi_json::ValueNode::Object(_) => {
-            Ok(super::SemanticSchema::from_value_node(current, dialect)
+            Ok(super::SemanticSchema::from_value_node(&current, dialect)
                 .and_then(|schema| schema.completion_projection(string_formats)))
         }
         tombi_json::ValueNode::Bool(bool_node) => {
@@ -1143,9 +1212,54 @@ pub fn resolve_json_pointer(
     }
 }
 
+/// Finds the schema a JSON pointer points to. A schema that is itself a
+/// reference is given as one that has the reference in its `allOf`.
 fn resolve_json_pointer_node<'a>(
     schema_node: &'a tombi_json::ValueNode,
     pointer: &str,
+    dialect: Option<crate::JsonSchemaDialect>,
+) -> Option<Cow<'a, tombi_json::ValueNode>> {
+    let node = find_json_pointer_node(schema_node, pointer)?;
+
+    match node.as_object() {
+        Some(object)
+            if let Some((kind, reference)) = reference_of(object, dialect)
+                && !is_circular_reference(schema_node, pointer, dialect) =>
+        {
+            Some(Cow::Owned(tombi_json::ValueNode::Object(
+                reference_as_all_of(object, kind, reference),
+            )))
+        }
+        _ => Some(Cow::Borrowed(node)),
+    }
+}
+
+/// Whether the references lead back to one of themselves.
+fn is_circular_reference(
+    schema_node: &tombi_json::ValueNode,
+    pointer: &str,
+    dialect: Option<crate::JsonSchemaDialect>,
+) -> bool {
+    let mut visited = vec![pointer];
+    let mut pointer = pointer;
+
+    while let Some((_, reference)) = find_json_pointer_node(schema_node, pointer)
+        .and_then(|node| node.as_object())
+        .and_then(|object| reference_of(object, dialect))
+    {
+        if visited.contains(&reference) {
+            return true;
+        }
+        visited.push(reference);
+        pointer = reference;
+    }
+
+    false
+}
+
+fn find_json_pointer_node<'a>(
+    schema_node: &'a tombi_json::ValueNode,
+    pointer: &str,
 ) -> Option<&'a tombi_json::ValueNode> {
     if !pointer.starts_with('#') {
         return None;
diff --git a/crates/tombi-schema-store/src/schema/semantic_schema.rs b/crates/tombi-schema-store/src/schema/semantic_schema.rs
index c45333f..79a0bfd 100644
--- a/crates/tombi-schema-store/src/schema/semantic_schema.rs
+++ b/crates/tombi-schema-store/src/schema/semantic_schema.rs
@@ -439,6 +439,54 @@ impl SemanticSchema {
         }
     }
 
+    /// Returns whether this schema object itself asserts anything about some
+    /// instance, in whatever way.
+    pub fn has_direct_assertion(&self) -> bool {
+        self.has_direct_type_assertion()
+            || self.has_applicators()
+            || [
+                SchemaType::Boolean,
+                SchemaType::Number,
+                SchemaType::String,
+                SchemaType::Array,
+                SchemaType::Object,
+            ]
+            .into_iter()
+            .any(|instance_type| self.has_direct_constraints_for_type(instance_type))
+    }
+
+    /// Returns whether more than one of `oneOf`, `anyOf` and `allOf` is there,
+    /// so that the view of any single one of them is not the whole schema.
+    pub fn has_several_applicators(&self) -> bool {
+        let Self::Object(object) = self else {
+            return false;
+        };
+        let applicators = &object.applicators;
+        [
+            &applicators.one_of,
+            &applicators.any_of,
+            &applicators.all_of,
+        ]
+        .into_iter()
+        .filter(|schemas| !schemas.is_empty())
+        .count()
+            > 1
+    }
+
+    /// The schema, annotated as a reference to it annotates it.
+    pub(crate) fn with_annotations_of(&self, reference: &Self) -> Self {
+        let (Self::Object(target), Self::Object(reference)) = (self, reference) else {
+            return self.clone();
+        };
+        let mut object = target.source.clone();
+        for (key, value) in reference.source.properties.iter() {
+            if !REFERENCE_KEYWORDS.contains(&key.value.as_str()) {
+                object.properties.insert(key.clone(), value.clone());
+            }
+        }
+        Self::from_object_node(&object, target.dialect)
+    }
+
     pub fn has_applicators(&self) -> bool {
         match self {
             Self::Boolean(_) => false,
@@ -774,6 +822,8 @@ fn literal_has_type(value: &Value, schema_type: SchemaType) -> bool {
     }
 }
 
+const REFERENCE_KEYWORDS: [&str; 3] = ["$ref", "$dynamicRef", "$recursiveRef"];
+
 #[derive(Debug, Clone, PartialEq)]
 pub struct SemanticSchemaObject {
     source: ObjectNode,
-- 
2.43.0


From e0b648d49cd4f7116910585d67910271411e0c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:54 +0000
Subject: [PATCH 39/60] fix: apply every applicator of a schema that has
 several

---
 .../src/schema/referable_schema.rs            | 14 +++++++
 .../src/schema/semantic_schema.rs             | 16 ++++++++
 crates/tombi-validator/src/validate.rs        | 41 ++++++++++++++++---
 3 files changed, 65 insertions(+), 6 deletions(-)

diff --git a/crates/tombi-schema-store/src/schema/referable_schema.rs b/crates/tombi-schema-store/src/schema/referable_schema.rs
index 5e6985b..f8c0910 100644
--- a/crates/tombi-schema-store/src/schema/referable_schema.rs
+++ b/crates/tombi-schema-store/src/schema/referable_schema.rs
@@ -107,6 +107,20 @@ impl<'a> CurrentSchema<'a> {
         ))
     }
 
+    /// Projects this schema for the concrete instance type even if no instance
+    /// of it can be valid, so that every applicator has its say.
+    pub fn with_every_applicator(
+        &self,
+        instance_type: super::SchemaType,
+        string_formats: Option<&[StringFormat]>,
+    ) -> Option<CurrentSchema<'static>> {
+        let semantic_schema = self.semantic_schema.as_ref()?;
+        Some(self.with_projected_view(
+            semantic_schema,
+            semantic_schema.typed_view(instance_type, string_formats, None, None),
+        ))
+    }
+
     pub fn for_completion(
         &self,
         string_formats: Option<&[StringFormat]>,
diff --git a/crates/tombi-schema-store/src/schema/semantic_schema.rs b/crates/tombi-schema-store/src/schema/semantic_schema.rs
index 79a0bfd..c918d63 100644
--- a/crates/tombi-schema-store/src/schema/semantic_schema.rs
+++ b/crates/tombi-schema-store/src/schema/semantic_schema.rs
@@ -278,6 +278,22 @@ impl SemanticSchema {
         if !self.accepts_instance_type(instance_type) {
             return None;
         }
+        self.typed_view(
+            instance_type,
+            string_formats,
+            anchor_collector,
+            dynamic_anchor_collector,
+        )
+    }
+
+    /// The typed view, whether or not an instance of this type can be valid.
+    pub(crate) fn typed_view(
+        &self,
+        instance_type: SchemaType,
+        string_formats: Option<&[tombi_x_keyword::StringFormat]>,
+        anchor_collector: Option<&mut super::AnchorCollector>,
+        dynamic_anchor_collector: Option<&mut super::DynamicAnchorCollector>,
+    ) -> Option<super::SchemaView> {
         if let Self::Composite(composite) = self {
             let schemas = composite
                 .schemas
diff --git a/crates/tombi-validator/src/validate.rs b/crates/tombi-validator/src/validate.rs
index 1f81a14..cf9bcff 100644
--- a/crates/tombi-validator/src/validate.rs
+++ b/crates/tombi-validator/src/validate.rs
@@ -184,22 +184,36 @@ pub fn project_current_schema_for_value(
     }
 
     let instance_type = tombi_schema_store::SchemaType::from_value_type(value.value_type())?;
-    if matches!(
+    let is_applicator_view = matches!(
         current_schema.schema_view.as_ref(),
         tombi_schema_store::SchemaView::OneOf(_)
             | tombi_schema_store::SchemaView::AnyOf(_)
             | tombi_schema_store::SchemaView::AllOf(_)
-    ) && !current_schema
-        .semantic_schema
-        .as_deref()
-        .is_some_and(|schema| {
+    );
+    let semantic_schema = current_schema.semantic_schema.as_deref();
+    if is_applicator_view
+        && !semantic_schema.is_some_and(|schema| {
             schema.has_direct_type_assertion()
                 || schema.has_direct_constraints_for_type(instance_type)
+                || schema.has_several_applicators()
         })
     {
         return None;
     }
-    current_schema.for_instance_type(instance_type, schema_context.string_formats())
+    current_schema
+        .for_instance_type(instance_type, schema_context.string_formats())
+        .or_else(|| {
+            // No instance of this type is valid: what the view shows is not
+            // all that says so.
+            (is_applicator_view
+                && semantic_schema.is_some_and(|schema| {
+                    !schema.has_direct_type_assertion() && !schema.has_direct_literal_assertion()
+                }))
+            .then(|| {
+                current_schema.with_every_applicator(instance_type, schema_context.string_formats())
+            })
+            .flatten()
+        })
 }
 
 fn resolve_deprecated_lint_level(
@@ -811,6 +825,21 @@ where
                     false,
                 ))
             }
+            // what stands beside the applicator counts as well
+            (
+                _,
+                tombi_schema_store::SchemaView::OneOf(_)
+                | tombi_schema_store::SchemaView::AnyOf(_)
+                | tombi_schema_store::SchemaView::AllOf(_),
+            ) if project_current_schema_for_value(value, Some(resolved_schema), schema_context)
+                .is_some() =>
+            {
+                Some(
+                    value
+                        .validate(accessors, Some(resolved_schema), schema_context)
+                        .await,
+                )
+            }
             (_, tombi_schema_store::SchemaView::OneOf(one_of_schema)) => Some(
                 validate_one_of(
                     value,
-- 
2.43.0


From 44fa7d5ff1760d0b137cbba21a239d7cab88567a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:54 +0000
Subject: [PATCH 40/60] fix: let unevaluatedItems see the items the other
 applicators have evaluated

---
 .../src/schema/array_schema.rs                |  3 +
 crates/tombi-validator/src/validate/array.rs  | 65 +++++++++++--------
 2 files changed, 41 insertions(+), 27 deletions(-)

diff --git a/crates/tombi-schema-store/src/schema/array_schema.rs b/crates/tombi-schema-store/src/schema/array_schema.rs
index 0fd9495..3ad3b26 100644
--- a/crates/tombi-schema-store/src/schema/array_schema.rs
+++ b/crates/tombi-schema-store/src/schema/array_schema.rs
@@ -26,6 +26,8 @@ pub struct ArraySchema {
     pub unevaluated_items: Option<bool>,
     pub unevaluated_items_schema: Option<SchemaItem>,
     pub contains: Option<SchemaItem>,
+    /// Since 2020-12 the items that match `contains` are evaluated by it.
+    pub contains_evaluates_items: bool,
     pub min_contains: Option<usize>,
     pub max_contains: Option<usize>,
     pub min_items: Option<usize>,
@@ -169,6 +171,7 @@ impl ArraySchema {
                     dynamic_anchor_collector.as_deref_mut(),
                 )
             }),
+            contains_evaluates_items: uses_prefix_items_semantics,
             min_contains: object
                 .get("minContains")
                 .and_then(|v| v.as_u64().map(|n| n as usize)),
diff --git a/crates/tombi-validator/src/validate/array.rs b/crates/tombi-validator/src/validate/array.rs
index 0de6553..15ba820 100644
--- a/crates/tombi-validator/src/validate/array.rs
+++ b/crates/tombi-validator/src/validate/array.rs
@@ -141,8 +141,8 @@ async fn validate_array(
     let has_unevaluated_items = array_schema.unevaluated_items_schema.is_some()
         || array_schema.unevaluated_items == Some(false);
 
-    if let Some(if_then_else_schema) = array_schema.if_then_else.as_ref()
-        && let Err(error) = validate_if_then_else(
+    if let Some(if_then_else_schema) = array_schema.if_then_else.as_ref() {
+        match validate_if_then_else(
             array_value,
             accessors,
             if_then_else_schema,
@@ -151,15 +151,33 @@ async fn validate_array(
             common_rules,
         )
         .await
-    {
-        assertion_failed |= error.assertion_failed;
-        validation_result
-            .match_evidence
-            .merge_from(*error.match_evidence);
-        validation_result.merge_from(error.local_evaluated_locations);
-        total_diagnostics.extend(error.diagnostics);
+        {
+            Ok(valid) => validation_result.merge_from(valid),
+            Err(error) => {
+                assertion_failed |= error.assertion_failed;
+                validation_result
+                    .match_evidence
+                    .merge_from(*error.match_evidence);
+                validation_result.merge_from(error.local_evaluated_locations);
+                total_diagnostics.extend(error.diagnostics);
+            }
+        }
     }
 
+    let adjacent_result = validate_adjacent_applicators(
+        array_value,
+        accessors,
+        array_schema.one_of.as_deref(),
+        array_schema.any_of.as_deref(),
+        array_schema.all_of.as_deref(),
+        array_schema.not.as_deref(),
+        current_schema,
+        schema_context,
+        comment_directives,
+        lint_rules.map(|rules| &rules.common),
+    )
+    .await;
+
     if let Some(prefix_items) = &array_schema.prefix_items {
         // Resolve the overflow schema once before the loop.
         // 2020-12: items acts as additionalItems when prefixItems is present.
@@ -377,7 +395,7 @@ async fn validate_array(
     if let Some(contains_schema) = contains_schema {
         let min_contains = array_schema.min_contains.unwrap_or(1);
         let max_contains = array_schema.max_contains;
-        let needs_full_count = max_contains.is_some() || has_unevaluated_items;
+        let needs_full_count = max_contains.is_some() || array_schema.contains_evaluates_items;
         let mut contains_evaluated = vec![false; array_value.values().len()];
 
         let mut match_count = 0usize;
@@ -444,13 +462,21 @@ async fn validate_array(
         }
 
         for (index, matched) in contains_evaluated.iter().enumerate() {
-            if *matched {
+            if *matched && array_schema.contains_evaluates_items {
                 evaluated[index] = true;
             }
         }
     }
 
     // Run unevaluatedItems after all applicators that can mark items as evaluated.
+    let adjacent_locations = match &adjacent_result {
+        Ok(valid) => valid,
+        Err(error) => &error.local_evaluated_locations,
+    };
+    for (index, evaluated) in evaluated.iter_mut().enumerate() {
+        *evaluated |= validation_result.indices.contains(&index)
+            || adjacent_locations.indices.contains(&index);
+    }
     if has_unevaluated_items {
         let unevaluated_schema = if let Some(schema_item) = &array_schema.unevaluated_items_schema {
             match tombi_schema_store::resolve_schema_item(
@@ -731,22 +757,7 @@ async fn validate_array(
         })
     };
 
-    merge_validation_results(
-        base_result,
-        validate_adjacent_applicators(
-            array_value,
-            accessors,
-            array_schema.one_of.as_deref(),
-            array_schema.any_of.as_deref(),
-            array_schema.all_of.as_deref(),
-            array_schema.not.as_deref(),
-            current_schema,
-            schema_context,
-            comment_directives,
-            lint_rules.map(|rules| &rules.common),
-        )
-        .await,
-    )
+    merge_validation_results(base_result, adjacent_result)
 }
 
 async fn validate_array_without_schema(
-- 
2.43.0


From a2c06d25b0b60fa813789365e75b4e5552327464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:54 +0000
Subject: [PATCH 41/60] fix: let unevaluatedProperties see what really has been
 evaluated

---
 crates/tombi-validator/src/validate/table.rs | 91 +++++++++-----------
 1 file changed, 40 insertions(+), 51 deletions(-)

diff --git a/crates/tombi-validator/src/validate/table.rs b/crates/tombi-validator/src/validate/table.rs
index 88e135e..61cc36c 100644
--- a/crates/tombi-validator/src/validate/table.rs
+++ b/crates/tombi-validator/src/validate/table.rs
@@ -971,6 +971,15 @@ async fn validate_table(
     let comment_directives = table_value
         .comment_directives()
         .map(|directives| directives.cloned().collect_vec());
+    // `unevaluatedProperties` has evaluated every property the other keywords left over.
+    if table_schema.unevaluated_property_schema.is_some()
+        || table_schema.unevaluated_properties == Some(true)
+    {
+        for key in table_value.keys() {
+            evaluated_locations.mark_property(key.value.to_string());
+        }
+    }
+
     evaluated_locations.match_evidence = match_evidence.clone();
     let base_result = if total_diagnostics.is_empty() && !assertion_failed {
         Ok(evaluated_locations)
@@ -1012,6 +1021,7 @@ fn collect_evaluated_properties_from_table_schema<'a>(
 ) -> BoxFuture<'a, crate::Valid> {
     async move {
         let schema_key = std::sync::Arc::as_ptr(&current_schema.schema_view) as usize;
+        let is_subschema = !visited_schema_values.is_empty();
         if !visited_schema_values.insert(schema_key) {
             return crate::Valid::new();
         }
@@ -1085,56 +1095,34 @@ fn collect_evaluated_properties_from_table_schema<'a>(
             }
         }
 
-        if let Some(dependencies) = &table_schema.dependencies {
-            for (dependent_key, dependency) in dependencies {
-                result.mark_property(dependent_key.clone());
-                match dependency {
-                    tombi_schema_store::Dependency::Property(required_keys) => {
-                        for key in required_keys {
-                            result.mark_property(key.clone());
-                        }
-                    }
-                    tombi_schema_store::Dependency::Schema(schema_item) => {
-                        result.merge_from(
-                            collect_evaluated_properties_from_schema_item(
-                                table_value,
-                                accessors,
-                                schema_item,
-                                current_schema,
-                                schema_context,
-                                visited_schema_values,
-                            )
-                            .await,
-                        );
-                    }
-                }
-            }
-        }
-
-        if let Some(dependent_required) = &table_schema.dependent_required {
-            for (dependent_key, required_keys) in dependent_required {
-                result.mark_property(dependent_key.clone());
-                for key in required_keys {
-                    result.mark_property(key.clone());
+        // Only a schema evaluates properties, its key among them, and only where the key is present.
+        let dependency_schemas = table_schema
+            .dependencies
+            .iter()
+            .flatten()
+            .filter_map(|(dependent_key, dependency)| match dependency {
+                tombi_schema_store::Dependency::Property(_) => None,
+                tombi_schema_store::Dependency::Schema(schema_item) => {
+                    Some((dependent_key, schema_item))
                 }
+            })
+            .chain(table_schema.dependent_schemas.iter().flatten());
+        for (dependent_key, schema_item) in dependency_schemas {
+            if !table_value.keys().any(|key| &key.value == dependent_key) {
+                continue;
             }
-        }
-
-        if let Some(dependent_schemas) = &table_schema.dependent_schemas {
-            for (dependent_key, schema_item) in dependent_schemas {
-                result.mark_property(dependent_key.clone());
-                result.merge_from(
-                    collect_evaluated_properties_from_schema_item(
-                        table_value,
-                        accessors,
-                        schema_item,
-                        current_schema,
-                        schema_context,
-                        visited_schema_values,
-                    )
-                    .await,
-                );
-            }
+            result.mark_property(dependent_key.clone());
+            result.merge_from(
+                collect_evaluated_properties_from_schema_item(
+                    table_value,
+                    accessors,
+                    schema_item,
+                    current_schema,
+                    schema_context,
+                    visited_schema_values,
+                )
+                .await,
+            );
         }
 
         if let Some(one_of_schema) = &table_schema.one_of {
@@ -1191,11 +1179,12 @@ fn collect_evaluated_properties_from_table_schema<'a>(
             );
         }
 
-        // An `unevaluatedProperties: true` subschema succeeds for every
+        // The `unevaluatedProperties` of a subschema that succeeds has succeeded for every
         // remaining property and therefore annotates all of them as evaluated.
         // This annotation must be visible to adjacent outer applicators.
-        if table_schema.unevaluated_property_schema.is_none()
-            && table_schema.unevaluated_properties == Some(true)
+        if is_subschema
+            && (table_schema.unevaluated_property_schema.is_some()
+                || table_schema.unevaluated_properties == Some(true))
         {
             for key in table_value.keys() {
                 result.mark_property(key.value.to_string());
-- 
2.43.0


From d5103bc1f9bc150d1eea9106f64be06264576349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:08 +0000
Subject: [PATCH 42/60] fix: keep the #:schema document's own
 x-tombi-toml-version

The x-tombi-toml-version of the schema that the directive replaces was
taken as if it were the [[schemas]] entry's toml-version.
---
 crates/tombi-schema-store/src/schema/source_schema.rs | 5 +++++
 crates/tombi-schema-store/src/store.rs                | 4 +++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/tombi-schema-store/src/schema/source_schema.rs b/crates/tombi-schema-store/src/schema/source_schema.rs
index 3e7382b..e51a60d 100644
--- a/crates/tombi-schema-store/src/schema/source_schema.rs
+++ b/crates/tombi-schema-store/src/schema/source_schema.rs
@@ -54,6 +54,11 @@ impl SourceSchema {
         }
     }
 
+    /// Returns the TOML version set by the `[[schemas]]` config entry.
+    pub(crate) fn config_toml_version(&self) -> Option<TomlVersion> {
+        self.toml_version
+    }
+
     /// Returns the resolved TOML version for this source.
     ///
     /// Priority: `[[schemas]]` config `toml-version` > JSON Schema `x-tombi-toml-version`.
diff --git a/crates/tombi-schema-store/src/store.rs b/crates/tombi-schema-store/src/store.rs
index 6ca21a7..71d5b41 100644
--- a/crates/tombi-schema-store/src/store.rs
+++ b/crates/tombi-schema-store/src/store.rs
@@ -728,7 +728,9 @@ impl SchemaStore {
             schema_overrides,
             strict,
         ) = if let Some(source_schema) = source_schema {
-            let toml_version = source_schema.toml_version();
+            // Only the config entry's setting is kept: `x-tombi-toml-version` of the
+            // schema being replaced says nothing about the directive's schema.
+            let toml_version = source_schema.config_toml_version();
             let strict = source_schema
                 .root_schema
                 .as_ref()
-- 
2.43.0


From b46b7417595fb4f24eba018bd21ad09bc25cd27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:27 +0000
Subject: [PATCH 43/60] fix: keep schema associations in force across
 configuration changes

Associations lost their force flag for stores created later or when the
editor configuration changed, and were dropped by tombi/updateConfig and
tombi/refreshCache; tombi/updateConfig also kept the old strict option.
---
 crates/tombi-lsp/src/config_manager.rs | 58 ++++++++++++++------------
 1 file changed, 32 insertions(+), 26 deletions(-)

diff --git a/crates/tombi-lsp/src/config_manager.rs b/crates/tombi-lsp/src/config_manager.rs
index aac52be..619adf3 100644
--- a/crates/tombi-lsp/src/config_manager.rs
+++ b/crates/tombi-lsp/src/config_manager.rs
@@ -1,7 +1,7 @@
 use std::path::{Path, PathBuf};
 use std::sync::Arc;
 
-use tombi_config::{Config, TomlVersion};
+use tombi_config::Config;
 use tombi_schema_store::{SchemaStore, SchemaUri};
 
 /// Source type for ConfigSchemaStore without a specific config file
@@ -52,7 +52,7 @@ pub struct ConfigManager {
 struct AssociatedSchema {
     schema_uri: SchemaUri,
     file_match: Vec<String>,
-    toml_version: Option<TomlVersion>,
+    options: tombi_schema_store::AssociateSchemaOptions,
 }
 
 impl ConfigManager {
@@ -181,19 +181,20 @@ impl ConfigManager {
     ) -> Result<(), tombi_schema_store::Error> {
         let schema_options = schema_store_options(&config, &self.backend_options);
 
+        let schema_store = SchemaStore::new_with_options(schema_options);
+
         let mut config_schema_stores = self.config_schema_stores.write().await;
-        let config_schema_store = config_schema_stores
-            .entry(config_path.to_owned())
-            .or_insert(ConfigSchemaStore::new(
-                config.clone(),
-                Some(config_path.to_owned()),
-                SchemaStore::new_with_options(schema_options),
-            ));
-        config_schema_store
-            .schema_store
-            .reload_config(&config, Some(config_path))
-            .await?;
-        config_schema_store.config = config;
+        load_schema_store_with_associations(
+            &schema_store,
+            &config,
+            Some(config_path),
+            &self.associated_schemas.read().await,
+        )
+        .await?;
+        config_schema_stores.insert(
+            config_path.to_owned(),
+            ConfigSchemaStore::new(config, Some(config_path.to_owned()), schema_store),
+        );
         Ok(())
     }
 
@@ -270,7 +271,7 @@ impl ConfigManager {
             .push(AssociatedSchema {
                 schema_uri: schema_uri.clone(),
                 file_match: file_match.to_vec(),
-                toml_version: options.toml_version,
+                options: options.clone(),
             });
 
         // Update config_schema_stores
@@ -333,9 +334,13 @@ impl ConfigManager {
             },
         ) in config_schema_stores.iter_mut()
         {
-            updated |= schema_store
+            if schema_store
                 .refresh_cache(config, Some(config_path))
-                .await?;
+                .await?
+            {
+                associate_schemas(schema_store, &self.associated_schemas.read().await).await;
+                updated = true;
+            }
         }
 
         if let Some((
@@ -347,7 +352,10 @@ impl ConfigManager {
             },
         )) = &mut *self.default_config_schema_store.write().await
         {
-            updated |= schema_store.refresh_cache(config, None).await?;
+            if schema_store.refresh_cache(config, None).await? {
+                associate_schemas(schema_store, &self.associated_schemas.read().await).await;
+                updated = true;
+            }
         }
 
         Ok(updated)
@@ -427,23 +435,21 @@ async fn load_schema_store_with_associations(
     associated_schemas: &[AssociatedSchema],
 ) -> Result<(), tombi_schema_store::Error> {
     schema_store.load_config(config, config_path).await?;
+    associate_schemas(schema_store, associated_schemas).await;
+
+    Ok(())
+}
 
+async fn associate_schemas(schema_store: &SchemaStore, associated_schemas: &[AssociatedSchema]) {
     for associated_schema in associated_schemas {
         schema_store
             .associate_schema(
                 associated_schema.schema_uri.clone(),
                 associated_schema.file_match.clone(),
-                &tombi_schema_store::AssociateSchemaOptions {
-                    toml_version: associated_schema.toml_version,
-                    force: false,
-                    title: None,
-                    description: None,
-                },
+                &associated_schema.options,
             )
             .await;
     }
-
-    Ok(())
 }
 
 fn schema_store_options(
-- 
2.43.0


From 55bbcb32de973b747fcfde7dd123bcb1874e7380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:56 +0000
Subject: [PATCH 44/60] fix: keep the white space before a dotted float-like
 key at the start of a document

   2._4 panicked in the tree builder.
---
 crates/tombi-parser/src/parser.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/tombi-parser/src/parser.rs b/crates/tombi-parser/src/parser.rs
index efc61d4..de62955 100644
--- a/crates/tombi-parser/src/parser.rs
+++ b/crates/tombi-parser/src/parser.rs
@@ -225,6 +225,10 @@ impl<'t> Parser<'t> {
         let parts: Vec<&str> = text.split('.').collect();
         debug_assert!(parts.len() == 2);
 
+        // Keep the trivia before the key: at the beginning of a document nothing has.
+        let index = self.nth_index(0);
+        self.tokens.extend(&self.input_tokens[self.pos..index]);
+
         let key1 = {
             let m = self.start();
 
@@ -305,7 +309,7 @@ impl<'t> Parser<'t> {
 
             m.complete(self, token.kind())
         }
-        self.pos += 1;
+        self.pos = index + 1;
     }
 
     fn do_bump(&mut self, kind: SyntaxKind, n_raw_tokens: u8) {
-- 
2.43.0


From 35c892c8eb41ea65544c3f307d6bf8de90fd4b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:49 +0000
Subject: [PATCH 45/60] fix: bound the nesting of dotted keys

A dotted key or table header of some thousand parts overflowed the stack of
linter and formatter.
---
 .../tombi-parser/src/parse/array_of_table.rs  |  2 +
 crates/tombi-parser/src/parse/key.rs          | 38 ++++++++++++++++++-
 crates/tombi-parser/src/parse/key_value.rs    |  3 ++
 crates/tombi-parser/src/parse/table.rs        |  2 +
 crates/tombi-parser/src/parse/value.rs        |  2 +
 crates/tombi-parser/src/parser.rs             | 12 ++++--
 6 files changed, 55 insertions(+), 4 deletions(-)

diff --git a/crates/tombi-parser/src/parse/array_of_table.rs b/crates/tombi-parser/src/parse/array_of_table.rs
index a821191..f64a9a3 100644
--- a/crates/tombi-parser/src/parse/array_of_table.rs
+++ b/crates/tombi-parser/src/parse/array_of_table.rs
@@ -19,7 +19,9 @@ impl Parse for tombi_ast::ArrayOfTable {
 
         p.eat(T!("[["));
 
+        let nested_depth = p.nested_depth();
         tombi_ast::Keys::parse(p);
+        p.exit_nested_to(nested_depth);
 
         if !p.eat(T!("]]")) {
             invalid_line(p, ExpectedDoubleBracketEnd);
diff --git a/crates/tombi-parser/src/parse/key.rs b/crates/tombi-parser/src/parse/key.rs
index 3040850..d64479a 100644
--- a/crates/tombi-parser/src/parse/key.rs
+++ b/crates/tombi-parser/src/parse/key.rs
@@ -1,7 +1,11 @@
 use tombi_syntax::{SyntaxKind::*, T};
 
 use super::Parse;
-use crate::{ErrorKind::*, parser::Parser, token_set::TS_KEY_FIRST};
+use crate::{
+    ErrorKind::*,
+    parser::{MAX_RECURSION_DEPTH, Parser},
+    token_set::TS_KEY_FIRST,
+};
 
 impl Parse for tombi_ast::Keys {
     fn parse(p: &mut Parser<'_>) {
@@ -14,12 +18,23 @@ impl Parse for tombi_ast::Keys {
     }
 }
 
+/// Parse a key, dotted or not.
+///
+/// Each part after the first is one more level of nesting, which the caller leaves
+/// with [`Parser::exit_nested_to`] once it is done with what the key holds.
 pub fn eat_keys(p: &mut Parser<'_>) -> bool {
     if p.nth_at(1, T![.]) {
         let mut has_error = false;
         // Dotted keys Mode
         loop {
             has_error |= !eat_key(p);
+
+            if p.at(T![.]) && p.nested_depth() >= MAX_RECURSION_DEPTH {
+                skip_too_deep_keys(p);
+                has_error = true;
+                break;
+            }
+
             if !p.eat(T![.]) {
                 break;
             }
@@ -31,6 +46,8 @@ pub fn eat_keys(p: &mut Parser<'_>) -> bool {
                 ));
                 break;
             }
+
+            p.enter_nested();
         }
         !has_error
     } else {
@@ -38,6 +55,25 @@ pub fn eat_keys(p: &mut Parser<'_>) -> bool {
     }
 }
 
+/// Consume the parts of a dotted key that lie too deep.
+fn skip_too_deep_keys(p: &mut Parser<'_>) {
+    let m = p.start();
+
+    let start_range = p.current_range();
+    let mut end_range = start_range;
+    while p.at(T![.]) || p.at_ts(TS_KEY_FIRST) {
+        end_range = p.current_range();
+        p.bump_any();
+    }
+
+    p.error(crate::Error::new(
+        RecursionLimitExceeded,
+        start_range + end_range,
+    ));
+
+    m.complete(p, INVALID_TOKEN);
+}
+
 pub fn eat_key(p: &mut Parser<'_>) -> bool {
     let kind = p.current();
     match kind {
diff --git a/crates/tombi-parser/src/parse/key_value.rs b/crates/tombi-parser/src/parse/key_value.rs
index 7fe8b4e..8c424e8 100644
--- a/crates/tombi-parser/src/parse/key_value.rs
+++ b/crates/tombi-parser/src/parse/key_value.rs
@@ -13,6 +13,7 @@ impl Parse for tombi_ast::KeyValue {
 
         leading_comments(p);
 
+        let nested_depth = p.nested_depth();
         tombi_ast::Keys::parse(p);
 
         if !p.eat(T![=]) {
@@ -29,6 +30,8 @@ impl Parse for tombi_ast::KeyValue {
             tombi_ast::Value::parse(p);
         }
 
+        p.exit_nested_to(nested_depth);
+
         trailing_comment(p);
 
         m.complete(p, KEY_VALUE);
diff --git a/crates/tombi-parser/src/parse/table.rs b/crates/tombi-parser/src/parse/table.rs
index 253ad64..119b882 100644
--- a/crates/tombi-parser/src/parse/table.rs
+++ b/crates/tombi-parser/src/parse/table.rs
@@ -19,7 +19,9 @@ impl Parse for tombi_ast::Table {
 
         p.eat(T!['[']);
 
+        let nested_depth = p.nested_depth();
         tombi_ast::Keys::parse(p);
+        p.exit_nested_to(nested_depth);
 
         if !p.eat(T![']']) {
             invalid_line(p, ExpectedBracketEnd);
diff --git a/crates/tombi-parser/src/parse/value.rs b/crates/tombi-parser/src/parse/value.rs
index 01a02d3..eb1d7cf 100644
--- a/crates/tombi-parser/src/parse/value.rs
+++ b/crates/tombi-parser/src/parse/value.rs
@@ -38,9 +38,11 @@ impl Parse for tombi_ast::Value {
                 leading_comments(p);
                 {
                     let m = p.start();
+                    let nested_depth = p.nested_depth();
                     if eat_keys(p) {
                         m.complete(p, KEYS);
                     }
+                    p.exit_nested_to(nested_depth);
                 }
                 trailing_comment(p);
                 m.complete(p, KEY_VALUE);
diff --git a/crates/tombi-parser/src/parser.rs b/crates/tombi-parser/src/parser.rs
index de62955..c72e804 100644
--- a/crates/tombi-parser/src/parser.rs
+++ b/crates/tombi-parser/src/parser.rs
@@ -5,9 +5,9 @@ use tombi_syntax::{
 
 use crate::{Event, marker::Marker, token_set::TokenSet};
 
-/// Maximum nesting depth for arrays and inline tables.
+/// Maximum nesting depth for arrays, inline tables and dotted keys.
 ///
-/// Bounds recursion through `Value::parse` so a deeply nested (but finite)
+/// Bounds recursion through `Value::parse`, and through what the keys describe, so a deeply nested (but finite)
 /// document cannot exhaust the thread stack and abort the process. Matches
 /// `serde_json`'s default recursion limit.
 pub(crate) const MAX_RECURSION_DEPTH: usize = 128;
@@ -34,7 +34,7 @@ impl<'t> Parser<'t> {
         }
     }
 
-    /// Current array/inline-table nesting depth.
+    /// Current array/inline-table/dotted-key nesting depth.
     #[inline]
     pub(crate) fn nested_depth(&self) -> usize {
         self.depth
@@ -52,6 +52,12 @@ impl<'t> Parser<'t> {
         self.depth -= 1;
     }
 
+    /// Leave every level of nesting below `depth`.
+    #[inline]
+    pub(crate) fn exit_nested_to(&mut self, depth: usize) {
+        self.depth = depth;
+    }
+
     pub(crate) fn finish(mut self) -> (Vec<tombi_lexer::Token>, Vec<crate::Event>) {
         for i in self.pos..self.input_tokens.len() {
             self.tokens.push(self.input_tokens[i]);
-- 
2.43.0


From 62a5af352d1e6b1c4af961de0aa070f45fba723d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:49 +0000
Subject: [PATCH 46/60] fix: format nested values in polynomial time

Measuring a value formatted the values in it, each of which was measured in
turn, so that the time doubled with every level of nesting.
---
 .../tombi-formatter/src/format/value/array.rs |  16 ++-
 .../src/format/value/inline_table.rs          |  15 ++-
 crates/tombi-formatter/src/formatter.rs       | 117 ++++++++++++++++--
 3 files changed, 131 insertions(+), 17 deletions(-)

diff --git a/crates/tombi-formatter/src/format/value/array.rs b/crates/tombi-formatter/src/format/value/array.rs
index 3eb2b30..509b6eb 100644
--- a/crates/tombi-formatter/src/format/value/array.rs
+++ b/crates/tombi-formatter/src/format/value/array.rs
@@ -16,7 +16,7 @@ impl Format for tombi_ast::Array {
 impl Format for WithAlignmentHint<&tombi_ast::Array> {
     fn format(&self, f: &mut crate::Formatter) -> Result<(), std::fmt::Error> {
         if !f.single_line_mode()
-            && (self.value.should_be_multiline(f.toml_version())
+            && (f.should_be_multiline(self.value, tombi_ast::Array::should_be_multiline)
                 || exceeds_line_width(self.value, f)?)
         {
             format_multiline_array(self, f)
@@ -29,6 +29,13 @@ impl Format for WithAlignmentHint<&tombi_ast::Array> {
 pub(crate) fn exceeds_line_width(
     node: &tombi_ast::Array,
     f: &mut crate::Formatter,
+) -> Result<bool, std::fmt::Error> {
+    f.exceeds_line_width(node, measure_exceeds_line_width)
+}
+
+fn measure_exceeds_line_width(
+    node: &tombi_ast::Array,
+    f: &mut crate::Formatter,
 ) -> Result<bool, std::fmt::Error> {
     let mut length = f.current_line_width();
     length += 2; // '[' and ']'
@@ -44,10 +51,11 @@ pub(crate) fn exceeds_line_width(
             // Check if nested value should be multiline
             let should_be_multiline = match &value {
                 tombi_ast::Value::Array(array) => {
-                    array.should_be_multiline(f.toml_version()) || exceeds_line_width(array, f)?
+                    f.should_be_multiline(array, tombi_ast::Array::should_be_multiline)
+                        || exceeds_line_width(array, f)?
                 }
                 tombi_ast::Value::InlineTable(table) => {
-                    table.should_be_multiline(f.toml_version())
+                    f.should_be_multiline(table, tombi_ast::InlineTable::should_be_multiline)
                         || crate::format::value::inline_table::exceeds_line_width(table, f)?
                 }
                 _ => false,
@@ -61,7 +69,7 @@ pub(crate) fn exceeds_line_width(
                 length += 1; // ","
                 length += f.array_comma_space().len();
             }
-            length += f.format_to_string(&value)?.graphemes(true).count();
+            length += f.format_to_measure(&value)?.graphemes(true).count();
             first = false;
         }
     }
diff --git a/crates/tombi-formatter/src/format/value/inline_table.rs b/crates/tombi-formatter/src/format/value/inline_table.rs
index 053390f..20df364 100644
--- a/crates/tombi-formatter/src/format/value/inline_table.rs
+++ b/crates/tombi-formatter/src/format/value/inline_table.rs
@@ -17,7 +17,7 @@ impl Format for tombi_ast::InlineTable {
 impl Format for WithAlignmentHint<&tombi_ast::InlineTable> {
     fn format(&self, f: &mut crate::Formatter) -> Result<(), std::fmt::Error> {
         if !f.single_line_mode()
-            && (self.value.should_be_multiline(f.toml_version())
+            && (f.should_be_multiline(self.value, tombi_ast::InlineTable::should_be_multiline)
                 || exceeds_line_width(self.value, f)?)
         {
             format_multiline_inline_table(self, f)
@@ -30,6 +30,13 @@ impl Format for WithAlignmentHint<&tombi_ast::InlineTable> {
 pub(crate) fn exceeds_line_width(
     node: &tombi_ast::InlineTable,
     f: &mut crate::Formatter,
+) -> Result<bool, std::fmt::Error> {
+    f.exceeds_line_width(node, measure_exceeds_line_width)
+}
+
+fn measure_exceeds_line_width(
+    node: &tombi_ast::InlineTable,
+    f: &mut crate::Formatter,
 ) -> Result<bool, std::fmt::Error> {
     if f.toml_version() == TomlVersion::V1_0_0 {
         return Ok(false);
@@ -49,11 +56,11 @@ pub(crate) fn exceeds_line_width(
             if let Some(value) = key_value.value() {
                 let should_be_multiline = match value {
                     tombi_ast::Value::Array(array) => {
-                        array.should_be_multiline(f.toml_version())
+                        f.should_be_multiline(&array, tombi_ast::Array::should_be_multiline)
                             || crate::format::value::array::exceeds_line_width(&array, f)?
                     }
                     tombi_ast::Value::InlineTable(table) => {
-                        table.should_be_multiline(f.toml_version())
+                        f.should_be_multiline(&table, tombi_ast::InlineTable::should_be_multiline)
                             || exceeds_line_width(&table, f)?
                     }
                     _ => false,
@@ -68,7 +75,7 @@ pub(crate) fn exceeds_line_width(
                 length += 1; // ","
                 length += f.inline_table_comma_space().len();
             }
-            length += f.format_to_string(&key_value)?.graphemes(true).count();
+            length += f.format_to_measure(&key_value)?.graphemes(true).count();
             first = false;
         }
     }
diff --git a/crates/tombi-formatter/src/formatter.rs b/crates/tombi-formatter/src/formatter.rs
index 21b03cc..eac2543 100644
--- a/crates/tombi-formatter/src/formatter.rs
+++ b/crates/tombi-formatter/src/formatter.rs
@@ -1,6 +1,6 @@
 pub mod definitions;
 
-use std::fmt::Write;
+use std::{collections::HashMap, fmt::Write};
 
 use itertools::Either;
 use tombi_ast::AstNode;
@@ -13,6 +13,27 @@ use crate::{
     types::{AlignmentWidth, WithAlignmentHint},
 };
 
+/// What the answer to "does this value exceed the line width?" depends on.
+#[derive(PartialEq, Eq, Hash)]
+struct ExceedsLineWidthKey {
+    node: tombi_syntax::SyntaxNode,
+    current_line_width: usize,
+    indent_depth: u8,
+    skip_indent: bool,
+    skip_comment: bool,
+    single_line_mode: bool,
+}
+
+/// What the width that the trailing comments of a key-value are aligned to depends on.
+#[derive(PartialEq, Eq, Hash)]
+struct TrailingCommentAlignmentKey {
+    node: tombi_syntax::SyntaxNode,
+    equal_alignment_width: Option<u32>,
+    indent_depth: u8,
+    skip_indent: bool,
+    single_line_mode: bool,
+}
+
 pub struct Formatter<'a> {
     toml_version: TomlVersion,
     indent_depth: u8,
@@ -24,6 +45,13 @@ pub struct Formatter<'a> {
     source_uri_or_path: Option<Either<&'a tombi_uri::Uri, &'a std::path::Path>>,
     schema_store: &'a tombi_schema_store::SchemaStore,
     buf: String,
+    /// Measuring a value formats the values in it, each of which is measured in turn:
+    /// without remembering the answers, the work doubles at every level of nesting.
+    exceeds_line_width: HashMap<ExceedsLineWidthKey, bool>,
+    /// As above: whether an array or inline table is to be multi-line whatever its width.
+    should_be_multiline: HashMap<tombi_syntax::SyntaxNode, bool>,
+    /// As above: the widths that the trailing comments of the key-values are aligned to.
+    trailing_comment_alignment_widths: HashMap<TrailingCommentAlignmentKey, AlignmentWidth>,
 }
 
 impl<'a> Formatter<'a> {
@@ -45,6 +73,9 @@ impl<'a> Formatter<'a> {
             source_uri_or_path,
             schema_store,
             buf: String::new(),
+            exceeds_line_width: HashMap::new(),
+            should_be_multiline: HashMap::new(),
+            trailing_comment_alignment_widths: HashMap::new(),
         }
     }
 
@@ -193,10 +224,30 @@ impl<'a> Formatter<'a> {
         &mut self,
         node: &T,
     ) -> Result<String, std::fmt::Error> {
-        self.skip_comment = true;
-        let result = self.format_to_string(node)?;
-        self.skip_comment = false;
-        Ok(result)
+        let old_skip_comment = std::mem::replace(&mut self.skip_comment, true);
+        let result = self.format_to_string(node);
+        self.skip_comment = old_skip_comment;
+        result
+    }
+
+    /// Format a value whose nested values are all known to fit, to measure it.
+    ///
+    /// Whether they fit need not be asked again, except for an array in an inline table
+    /// of TOML v1.0.0: it is laid out regardless of what holds the inline table.
+    pub(crate) fn format_to_measure<T: Format + AstNode>(
+        &mut self,
+        node: &T,
+    ) -> Result<String, std::fmt::Error> {
+        let single_line_mode = self.single_line_mode
+            || self.toml_version != TomlVersion::V1_0_0
+            || !node
+                .syntax()
+                .descendants()
+                .any(|node| node.kind() == tombi_syntax::SyntaxKind::INLINE_TABLE);
+        let old_single_line_mode = std::mem::replace(&mut self.single_line_mode, single_line_mode);
+        let result = self.format_to_string(node);
+        self.single_line_mode = old_single_line_mode;
+        result
     }
 
     pub(crate) fn format_tombi_comment_directive_content(
@@ -212,6 +263,41 @@ impl<'a> Formatter<'a> {
         Ok(formatted)
     }
 
+    /// Answer "is `node` to be multi-line whatever its width?", asking only once.
+    pub(crate) fn should_be_multiline<N: AstNode>(
+        &mut self,
+        node: &N,
+        should_be_multiline: impl FnOnce(&N, TomlVersion) -> bool,
+    ) -> bool {
+        let toml_version = self.toml_version;
+        *self
+            .should_be_multiline
+            .entry(node.syntax().clone())
+            .or_insert_with(|| should_be_multiline(node, toml_version))
+    }
+
+    /// Answer "does `node` exceed the line width here?", measuring it only once.
+    pub(crate) fn exceeds_line_width<N: AstNode>(
+        &mut self,
+        node: &N,
+        measure: impl FnOnce(&N, &mut Self) -> Result<bool, std::fmt::Error>,
+    ) -> Result<bool, std::fmt::Error> {
+        let key = ExceedsLineWidthKey {
+            node: node.syntax().clone(),
+            current_line_width: self.current_line_width(),
+            indent_depth: self.indent_depth,
+            skip_indent: self.skip_indent,
+            skip_comment: self.skip_comment,
+            single_line_mode: self.single_line_mode,
+        };
+        if let Some(exceeds) = self.exceeds_line_width.get(&key) {
+            return Ok(*exceeds);
+        }
+        let exceeds = measure(node, self)?;
+        self.exceeds_line_width.insert(key, exceeds);
+        Ok(exceeds)
+    }
+
     #[inline]
     pub(crate) const fn toml_version(&self) -> TomlVersion {
         self.toml_version
@@ -268,7 +354,7 @@ impl<'a> Formatter<'a> {
 
     #[allow(dead_code)]
     #[inline]
-    pub(crate) fn trailing_comment_alignment_width<'b, T: Format + Sized + 'b>(
+    pub(crate) fn trailing_comment_alignment_width<'b, T: Format + AstNode + Sized + 'b>(
         &mut self,
         values: impl Iterator<Item = &'b T>,
         equal_alignment_width: Option<AlignmentWidth>,
@@ -279,13 +365,26 @@ impl<'a> Formatter<'a> {
         if self.definitions.trailing_comment_alignment {
             let mut widths = vec![];
             for value in values {
+                let key = TrailingCommentAlignmentKey {
+                    node: value.syntax().clone(),
+                    equal_alignment_width: equal_alignment_width.map(|width| width.value()),
+                    indent_depth: self.indent_depth,
+                    skip_indent: self.skip_indent,
+                    single_line_mode: self.single_line_mode,
+                };
+                if let Some(width) = self.trailing_comment_alignment_widths.get(&key) {
+                    widths.push(*width);
+                    continue;
+                }
                 let formatted = self.format_to_string_without_comment(
                     &WithAlignmentHint::new_with_equal_alignment_width(
                         value,
                         equal_alignment_width,
                     ),
                 )?;
-                widths.push(AlignmentWidth::new(&formatted));
+                let width = AlignmentWidth::new(&formatted);
+                self.trailing_comment_alignment_widths.insert(key, width);
+                widths.push(width);
             }
             Ok(widths.into_iter().max())
         } else {
@@ -426,8 +525,8 @@ impl<'a> Formatter<'a> {
     #[inline]
     pub(crate) fn current_line_width(&self) -> usize {
         self.buf
-            .split("\n")
-            .last()
+            .rsplit('\n')
+            .next()
             .unwrap_or_default()
             .graphemes(true)
             .count()
-- 
2.43.0


From 8e3e8705bb2a48df785e3a3c907f8407e5fd03d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:43 +0000
Subject: [PATCH 47/60] fix: keep the groups of arrays and inline tables apart
 when formatting on one line would fit

---
 crates/tombi-ast/src/impls/array.rs        | 10 ++++++++++
 crates/tombi-ast/src/impls/inline_table.rs | 10 ++++++++++
 2 files changed, 20 insertions(+)

diff --git a/crates/tombi-ast/src/impls/array.rs b/crates/tombi-ast/src/impls/array.rs
index c120747..b0f5795 100644
--- a/crates/tombi-ast/src/impls/array.rs
+++ b/crates/tombi-ast/src/impls/array.rs
@@ -106,6 +106,16 @@ impl crate::Array {
         self.has_last_value_trailing_comma()
             || self.has_multiline_values(toml_version)
             || self.has_inner_comments()
+            || self.has_multiple_value_groups()
+    }
+
+    /// Whether a blank line divides the values into groups.
+    #[inline]
+    fn has_multiple_value_groups(&self) -> bool {
+        self.value_with_comma_groups()
+            .filter(|group| matches!(group, DanglingCommentGroupOr::ItemGroup(_)))
+            .nth(1)
+            .is_some()
     }
 
     #[inline]
diff --git a/crates/tombi-ast/src/impls/inline_table.rs b/crates/tombi-ast/src/impls/inline_table.rs
index 11592e5..f09a8cf 100644
--- a/crates/tombi-ast/src/impls/inline_table.rs
+++ b/crates/tombi-ast/src/impls/inline_table.rs
@@ -96,6 +96,16 @@ impl crate::InlineTable {
         self.has_last_key_value_trailing_comma()
             || self.has_multiline_values(toml_version)
             || self.has_inner_comments()
+            || self.has_multiple_key_value_groups()
+    }
+
+    /// Whether a blank line divides the key-values into groups.
+    #[inline]
+    fn has_multiple_key_value_groups(&self) -> bool {
+        self.key_value_with_comma_groups()
+            .filter(|group| matches!(group, DanglingCommentGroupOr::ItemGroup(_)))
+            .nth(1)
+            .is_some()
     }
 
     #[inline]
-- 
2.43.0


From 43b1d2e1aaa8566a584afafde4cbc0dee2579a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:43 +0000
Subject: [PATCH 48/60] fix: a directive after the comma of an inline table's
 key-value is for its value

---
 crates/tombi-document-tree/src/value/table.rs | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/crates/tombi-document-tree/src/value/table.rs b/crates/tombi-document-tree/src/value/table.rs
index cbebfd5..dd37baf 100644
--- a/crates/tombi-document-tree/src/value/table.rs
+++ b/crates/tombi-document-tree/src/value/table.rs
@@ -1164,7 +1164,7 @@ fn append_header_comment_directives(
     let temp_key_values = std::mem::replace(&mut table.key_values, tombi_hashmap::IndexMap::new());
 
     // Extract the single key-value pair
-    let Some((mut key, value)) = temp_key_values.into_iter().next() else {
+    let Some((mut key, mut value)) = temp_key_values.into_iter().next() else {
         return;
     };
 
@@ -1176,17 +1176,14 @@ fn append_header_comment_directives(
         } else {
             key.comment_directives = Some(header_comment_directives.clone());
         }
+    }
 
-        if let Value::Table(mut nested_table) = value {
-            // Recursively process the remaining keys
-            append_header_comment_directives(&mut nested_table, keys, header_comment_directives);
-            table.key_values.insert(key, Value::Table(nested_table));
-        } else {
-            // Put the value back if it's not a table
-            table.key_values.insert(key, value);
-        }
+    if let Value::Table(nested_table) = &mut value {
+        // Recursively process the remaining keys
+        append_header_comment_directives(nested_table, keys, header_comment_directives);
     } else {
-        // Key doesn't match, put it back
-        table.key_values.insert(key, value);
+        // The last key has the value, which the comment directives are for
+        value.extend_comment_directives(header_comment_directives.clone());
     }
+    table.key_values.insert(key, value);
 }
-- 
2.43.0


From 9d22fa3c79ffa495443aaa2413945693524f3793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:43 +0000
Subject: [PATCH 49/60] fix: compare the names of tables, not their spelling,
 for tables-out-of-order

---
 .../src/rule/tables_out_of_order.rs           | 37 ++++++-------------
 1 file changed, 12 insertions(+), 25 deletions(-)

diff --git a/crates/tombi-linter/src/rule/tables_out_of_order.rs b/crates/tombi-linter/src/rule/tables_out_of_order.rs
index 8d260d1..d4a36dc 100644
--- a/crates/tombi-linter/src/rule/tables_out_of_order.rs
+++ b/crates/tombi-linter/src/rule/tables_out_of_order.rs
@@ -45,15 +45,15 @@ impl Rule<tombi_ast::Root> for TablesOutOfOrderRule {
             return;
         }
 
-        let source_text = l.source_text();
-        let mut table_positions: Vec<(usize, Vec<&str>, tombi_text::Range)> = Vec::new();
+        let toml_version = l.toml_version();
+        let mut table_positions: Vec<(usize, Vec<String>, tombi_text::Range)> = Vec::new();
 
         // Collect all table definitions
         for (position, item) in node.items().enumerate() {
             match item {
                 tombi_ast::RootItem::Table(table) => {
                     if let Some(header) = table.header() {
-                        let key_parts = extract_key_parts(&header, source_text);
+                        let key_parts = extract_key_parts(&header, toml_version);
                         if !key_parts.is_empty() {
                             table_positions.push((position, key_parts, table.syntax().range()));
                         }
@@ -61,7 +61,7 @@ impl Rule<tombi_ast::Root> for TablesOutOfOrderRule {
                 }
                 tombi_ast::RootItem::ArrayOfTable(array_table) => {
                     if let Some(header) = array_table.header() {
-                        let key_parts = extract_key_parts(&header, source_text);
+                        let key_parts = extract_key_parts(&header, toml_version);
                         if !key_parts.is_empty() {
                             table_positions.push((
                                 position,
@@ -79,12 +79,12 @@ impl Rule<tombi_ast::Root> for TablesOutOfOrderRule {
         let mut out_of_order_ranges = Vec::new();
 
         // Group tables by their first key component (prefix)
-        let mut prefix_groups: tombi_hashmap::HashMap<&str, Vec<(usize, tombi_text::Range)>> =
+        let mut prefix_groups: tombi_hashmap::HashMap<&String, Vec<(usize, tombi_text::Range)>> =
             tombi_hashmap::HashMap::new();
         for (pos, keys, range) in &table_positions {
             if !keys.is_empty() {
                 prefix_groups
-                    .entry(keys[0])
+                    .entry(&keys[0])
                     .or_default()
                     .push((*pos, *range));
             }
@@ -98,7 +98,7 @@ impl Rule<tombi_ast::Root> for TablesOutOfOrderRule {
 
                 // Check if there are any tables with different prefixes between min and max
                 let has_interrupting_tables = table_positions.iter().any(|(pos, keys, _)| {
-                    *pos > min_pos && *pos < max_pos && !keys.is_empty() && keys[0] != *prefix
+                    *pos > min_pos && *pos < max_pos && !keys.is_empty() && keys[0] != **prefix
                 });
 
                 // If there are interrupting tables, mark all tables in this group as out of order
@@ -121,25 +121,12 @@ impl Rule<tombi_ast::Root> for TablesOutOfOrderRule {
     }
 }
 
-fn extract_key_parts<'a>(keys: &tombi_ast::Keys, source_text: &'a str) -> Vec<&'a str> {
+fn extract_key_parts(
+    keys: &tombi_ast::Keys,
+    toml_version: tombi_config::TomlVersion,
+) -> Vec<String> {
     keys.keys()
-        .map(|key| match key {
-            tombi_ast::Key::BareKey(k) => &source_text[k.syntax().span()],
-            tombi_ast::Key::BasicString(k) => {
-                let mut span = k.syntax().span();
-                // Remove quotes
-                span.start += 1;
-                span.end -= 1;
-                &source_text[span]
-            }
-            tombi_ast::Key::LiteralString(k) => {
-                let mut span = k.syntax().span();
-                // Remove quotes
-                span.start += 1;
-                span.end -= 1;
-                &source_text[span]
-            }
-        })
+        .filter_map(|key| key.try_to_raw_text(toml_version).ok())
         .collect()
 }
 
-- 
2.43.0


From bdd2e82ed1d4258dd74b51e3f2b9e1d002fa22d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:43 +0000
Subject: [PATCH 50/60] fix: report dotted-keys-out-of-order where the
 key-value is

---
 .../src/rule/dotted_keys_out_of_order.rs           | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/crates/tombi-linter/src/rule/dotted_keys_out_of_order.rs b/crates/tombi-linter/src/rule/dotted_keys_out_of_order.rs
index 2a357a5..3b67119 100644
--- a/crates/tombi-linter/src/rule/dotted_keys_out_of_order.rs
+++ b/crates/tombi-linter/src/rule/dotted_keys_out_of_order.rs
@@ -1,4 +1,5 @@
 use crate::Rule;
+use tombi_ast::AstNode;
 use tombi_comment_directive::value::{TableCommonFormatRules, TableCommonLintRules};
 use tombi_comment_directive_serde::get_comment_directive_content;
 use tombi_config::SeverityLevel;
@@ -75,15 +76,16 @@ async fn check_dotted_keys_out_of_order(
 
     // Single pass to collect all data
     for (index, key_value) in key_values.enumerate() {
-        if let Some(key_text) = key_value
-            .keys()
-            .and_then(|keys| keys.keys().next())
-            .and_then(|key| key.try_to_raw_text(l.toml_version()).ok())
-        {
+        if let Some((keys, key_text)) = key_value.keys().and_then(|keys| {
+            let key_text = keys.keys().next()?.try_to_raw_text(l.toml_version()).ok()?;
+            Some((keys, key_text))
+        }) {
+            // The node of a key value begins with the line break before it.
+            let range = tombi_text::Range::new(keys.range().start, key_value.range().end);
             prefix_groups
                 .entry(key_text)
                 .or_default()
-                .push((index, key_value.range()));
+                .push((index, range));
         }
     }
 
-- 
2.43.0


From 231bb8520f050cfb95bdfffe27dc35849381b55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:43 +0000
Subject: [PATCH 51/60] fix: a directive at the key of an inline table holds
 for dotted-keys-out-of-order

---
 .../tombi-linter/src/rule/dotted_keys_out_of_order.rs  | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/tombi-linter/src/rule/dotted_keys_out_of_order.rs b/crates/tombi-linter/src/rule/dotted_keys_out_of_order.rs
index 3b67119..623663f 100644
--- a/crates/tombi-linter/src/rule/dotted_keys_out_of_order.rs
+++ b/crates/tombi-linter/src/rule/dotted_keys_out_of_order.rs
@@ -27,7 +27,15 @@ impl Rule<tombi_ast::ArrayOfTable> for DottedKeysOutOfOrderRule {
 
 impl Rule<tombi_ast::InlineTable> for DottedKeysOutOfOrderRule {
     async fn check(table: &tombi_ast::InlineTable, l: &mut crate::Linter<'_>) {
-        check_dotted_keys_out_of_order(table.key_values(), table.comment_directives(), l).await;
+        let key_value = table.syntax().parent().and_then(tombi_ast::KeyValue::cast);
+        let comment_directives = itertools::chain!(
+            key_value
+                .iter()
+                .flat_map(|key_value| key_value.comment_directives()),
+            table.comment_directives(),
+        );
+
+        check_dotted_keys_out_of_order(table.key_values(), comment_directives, l).await;
     }
 }
 
-- 
2.43.0


From 31d92b91d26b69e401b9d6d0311b844ac8064f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:43 +0000
Subject: [PATCH 52/60] fix: heed array-values-order.enabled of an array whose
 schema has no items

---
 crates/tombi-ast-editor/src/edit/array.rs              | 1 +
 crates/tombi-ast-editor/src/rule/array_values_order.rs | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/tombi-ast-editor/src/edit/array.rs b/crates/tombi-ast-editor/src/edit/array.rs
index 2bdaf51..bcc79da 100644
--- a/crates/tombi-ast-editor/src/edit/array.rs
+++ b/crates/tombi-ast-editor/src/edit/array.rs
@@ -113,6 +113,7 @@ impl crate::Edit for tombi_ast::Array {
                         accessors,
                         current_item_schema.as_ref(),
                         schema_context,
+                        current_schema,
                         array_schema_values_order.clone(),
                         comment_directive.clone(),
                         None,
diff --git a/crates/tombi-ast-editor/src/rule/array_values_order.rs b/crates/tombi-ast-editor/src/rule/array_values_order.rs
index 0a01378..ea1e5e2 100644
--- a/crates/tombi-ast-editor/src/rule/array_values_order.rs
+++ b/crates/tombi-ast-editor/src/rule/array_values_order.rs
@@ -37,6 +37,7 @@ pub async fn array_values_order<'a>(
     accessors: &'a [Accessor],
     current_schema: Option<&'a CurrentSchema<'a>>,
     schema_context: &'a SchemaContext<'a>,
+    array_schema: Option<&'a CurrentSchema<'a>>,
     array_schema_values_order: Option<XTombiArrayValuesOrder>,
     comment_directive: Option<
         TombiValueDirectiveContent<ArrayCommonFormatRules, ArrayCommonLintRules>,
@@ -77,7 +78,7 @@ pub async fn array_values_order<'a>(
     let values_order = if let Some(order) = override_order {
         Some(XTombiArrayValuesOrder::All(order))
     } else if schema_override_enabled
-        || schema_context.schema_array_values_order_enabled(current_schema)
+        || schema_context.schema_array_values_order_enabled(array_schema)
     {
         array_schema_values_order
     } else {
-- 
2.43.0


From 475dcf6b14d0cd860ba8e7422444d386cf0b9117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:43 +0000
Subject: [PATCH 53/60] fix: sort array values in descending order stably

---
 .../src/rule/array_values_order.rs                | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/crates/tombi-ast-editor/src/rule/array_values_order.rs b/crates/tombi-ast-editor/src/rule/array_values_order.rs
index ea1e5e2..29b6880 100644
--- a/crates/tombi-ast-editor/src/rule/array_values_order.rs
+++ b/crates/tombi-ast-editor/src/rule/array_values_order.rs
@@ -296,7 +296,9 @@ fn sort_array_values(
             .into_iter()
             .map(|(value, comma)| (value, Some(comma)))
             .collect_vec(),
+        // Reversed before and after the stable sort, so that equal values keep their order.
         ArrayValuesOrder::Descending => sortable_values
+            .reversed()
             .sorted()
             .into_iter()
             .rev()
@@ -696,6 +698,19 @@ impl SortableValues {
         }
     }
 
+    fn reversed(mut self) -> Self {
+        match &mut self {
+            Self::Boolean(sortable_values) => sortable_values.reverse(),
+            Self::Integer(sortable_values) => sortable_values.reverse(),
+            Self::String(sortable_values)
+            | Self::OffsetDateTime(sortable_values)
+            | Self::LocalDateTime(sortable_values)
+            | Self::LocalDate(sortable_values)
+            | Self::LocalTime(sortable_values) => sortable_values.reverse(),
+        }
+        self
+    }
+
     pub fn sorted_version(self) -> Vec<(tombi_ast::Value, tombi_ast::Comma)> {
         match self {
             Self::String(mut sortable_values) => {
-- 
2.43.0


From 622ae92daecdd8a25534e08ee1b29000e00d9ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:43 +0000
Subject: [PATCH 54/60] fix: keep the comment before the comma of a value that
 is sorted to the end

---
 crates/tombi-ast-editor/src/rule/array_values_order.rs      | 5 ++++-
 crates/tombi-ast-editor/src/rule/inline_table_keys_order.rs | 4 +++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/tombi-ast-editor/src/rule/array_values_order.rs b/crates/tombi-ast-editor/src/rule/array_values_order.rs
index 29b6880..27ea7a7 100644
--- a/crates/tombi-ast-editor/src/rule/array_values_order.rs
+++ b/crates/tombi-ast-editor/src/rule/array_values_order.rs
@@ -100,6 +100,7 @@ pub async fn array_values_order<'a>(
         SyntaxElement::Node(values_with_comma.first().unwrap().0.syntax().clone()),
         SyntaxElement::Node(values_with_comma.last().unwrap().0.syntax().clone()),
     );
+    let last_value = old.end().clone();
     let sorted_values_with_comma = match values_order {
         XTombiArrayValuesOrder::All(values_order) => {
             get_sorted_values_order_all(
@@ -129,11 +130,13 @@ pub async fn array_values_order<'a>(
         return Vec::new();
     };
 
-    if let Some((_, comma)) = sorted_values_with_comma.last_mut()
+    // The comma of a value holds its trailing comment, it cannot be left out then.
+    if let Some((value, comma)) = sorted_values_with_comma.last_mut()
         && !is_last_comma
         && let Some(new_last_comma) = comma
         && new_last_comma.trailing_comment().is_none()
         && new_last_comma.leading_comments().next().is_none()
+        && (value.trailing_comment().is_none() || last_value.as_node() == Some(value.syntax()))
     {
         *comma = None;
     }
diff --git a/crates/tombi-ast-editor/src/rule/inline_table_keys_order.rs b/crates/tombi-ast-editor/src/rule/inline_table_keys_order.rs
index 0dee382..cde66b9 100644
--- a/crates/tombi-ast-editor/src/rule/inline_table_keys_order.rs
+++ b/crates/tombi-ast-editor/src/rule/inline_table_keys_order.rs
@@ -69,11 +69,13 @@ pub async fn inline_table_keys_order<'a>(
         return Vec::new();
     };
 
-    if let Some((_, comma)) = sorted_key_values_with_comma.last_mut()
+    // The comma of a key-value holds its trailing comment, it cannot be left out then.
+    if let Some((key_value, comma)) = sorted_key_values_with_comma.last_mut()
         && !is_last_comma
         && let Some(new_last_comma) = comma
         && new_last_comma.trailing_comment().is_none()
         && new_last_comma.leading_comments().next().is_none()
+        && key_value.trailing_comment().is_none()
     {
         *comma = None;
     }
-- 
2.43.0


From 93d66938a5bd199f243850c3e47b2917cbf5dc3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:53 +0000
Subject: [PATCH 55/60] fix: locate the schema directive and its URI in columns
 from where the comment starts

---
 crates/tombi-ast/src/impls/comment.rs | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/crates/tombi-ast/src/impls/comment.rs b/crates/tombi-ast/src/impls/comment.rs
index 240f354..365639b 100644
--- a/crates/tombi-ast/src/impls/comment.rs
+++ b/crates/tombi-ast/src/impls/comment.rs
@@ -17,23 +17,25 @@ impl Comment {
         if let Some(mut uri_text) = comment_text.strip_prefix("#:schema ") {
             let original_len = uri_text.len();
             uri_text = uri_text.trim_start_matches(' ');
-            let space_count = (original_len - uri_text.len()) as u32;
+            let space_count = original_len - uri_text.len();
             uri_text = uri_text.trim();
 
             let comment_range = self.syntax().range();
-            let directive_range = tombi_text::Range::new(
-                tombi_text::Position::new(comment_range.start.line, 1),
+            // Columns are counted in characters from where the comment starts.
+            let position_at = |byte_offset: usize| {
                 tombi_text::Position::new(
-                    comment_range.end.line,
-                    8, // "#:schema" length
-                ),
-            );
+                    comment_range.start.line,
+                    comment_range.start.column
+                        + tombi_text::RelativePosition::of(&comment_text[..byte_offset]).column,
+                )
+            };
+            let uri_start = "#:schema ".len() + space_count;
+
+            let directive_range =
+                tombi_text::Range::new(position_at("#".len()), position_at("#:schema".len()));
             let uri_range = tombi_text::Range::new(
-                tombi_text::Position::new(comment_range.start.line, 9 + space_count),
-                tombi_text::Position::new(
-                    comment_range.end.line,
-                    9 + space_count + uri_text.len() as tombi_text::Column,
-                ),
+                position_at(uri_start),
+                position_at(uri_start + uri_text.len()),
             );
 
             if let Some(source_path) = source_path
-- 
2.43.0


From 67c1a9e2a992cf4fa1c45bfb7b8b671a8a0f7b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:24 +0000
Subject: [PATCH 56/60] fix: write strings, keys, floats, large integers and
 arrays of tables as TOML in serde_tombi

---
 rust/serde_tombi/src/document.rs | 121 ++++++++++++++++---------------
 rust/serde_tombi/src/ser.rs      |   7 +-
 2 files changed, 67 insertions(+), 61 deletions(-)

diff --git a/rust/serde_tombi/src/document.rs b/rust/serde_tombi/src/document.rs
index 6d85773..99bc9be 100644
--- a/rust/serde_tombi/src/document.rs
+++ b/rust/serde_tombi/src/document.rs
@@ -33,7 +33,7 @@ impl ToTomlString for (&tombi_document::Key, &tombi_document::Value) {
             _ => {
                 result.push_str(&format!(
                     "{} = ",
-                    parent_keys.iter().chain(&[key]).copied().join(".")
+                    keys_to_toml_string(parent_keys.iter().chain(&[key]).copied())
                 ));
                 value.to_toml_string(result, &[]);
             }
@@ -49,9 +49,9 @@ impl ToTomlString for tombi_document::Value {
         parent_keys: &[&tombi_document::Key],
     ) {
         match self {
-            tombi_document::Value::String(s) => result.push_str(&format!("\"{}\"", s.value())),
+            tombi_document::Value::String(s) => s.to_toml_string(result, parent_keys),
             tombi_document::Value::Integer(i) => result.push_str(&i.value().to_string()),
-            tombi_document::Value::Float(f) => result.push_str(&f.value().to_string()),
+            tombi_document::Value::Float(f) => f.to_toml_string(result, parent_keys),
             tombi_document::Value::Boolean(b) => result.push_str(&b.value().to_string()),
             tombi_document::Value::Array(a) => a.to_toml_string(result, parent_keys),
             tombi_document::Value::Table(t) => t.to_toml_string(result, parent_keys),
@@ -98,39 +98,11 @@ impl ToTomlString for tombi_document::Table {
                 if !parent_keys.is_empty() {
                     result.push_str(&format!(
                         "[{}]\n",
-                        parent_keys
-                            .iter()
-                            .map(ToString::to_string)
-                            .collect_vec()
-                            .join(".")
+                        keys_to_toml_string(parent_keys.iter().copied())
                     ));
                 }
 
-                let mut table_key_values = Vec::new();
-                for (key, value) in self.key_values() {
-                    match value {
-                        tombi_document::Value::Table(table)
-                            if table.kind() == tombi_document::TableKind::Table =>
-                        {
-                            table_key_values.push((key, value));
-                            continue;
-                        }
-                        tombi_document::Value::Array(array)
-                            if array.kind() == tombi_document::ArrayKind::ArrayOfTable =>
-                        {
-                            table_key_values.push((key, value));
-                            continue;
-                        }
-                        _ => (key, value).to_toml_string(result, &[]),
-                    }
-                }
-
-                for (key, value) in table_key_values {
-                    value.to_toml_string(
-                        result,
-                        &parent_keys.iter().chain(&[key]).copied().collect_vec(),
-                    );
-                }
+                table_body_to_toml_string(self, result, parent_keys);
             }
             tombi_document::TableKind::InlineTable => {
                 result.push('{');
@@ -151,12 +123,63 @@ impl ToTomlString for tombi_document::Table {
     }
 }
 
+/// Writes what comes below the header of a table: its own values, then its sub-tables.
+fn table_body_to_toml_string(
+    table: &tombi_document::Table,
+    result: &mut std::string::String,
+    parent_keys: &[&tombi_document::Key],
+) {
+    let mut table_key_values = Vec::new();
+    for (key, value) in table.key_values() {
+        match value {
+            tombi_document::Value::Table(table)
+                if table.kind() == tombi_document::TableKind::Table =>
+            {
+                table_key_values.push((key, value));
+            }
+            tombi_document::Value::Array(array)
+                if array.kind() == tombi_document::ArrayKind::ArrayOfTable =>
+            {
+                table_key_values.push((key, value));
+            }
+            _ => (key, value).to_toml_string(result, &[]),
+        }
+    }
+
+    for (key, value) in table_key_values {
+        value.to_toml_string(
+            result,
+            &parent_keys.iter().chain(&[key]).copied().collect_vec(),
+        );
+    }
+}
+
+fn keys_to_toml_string<'a>(
+    keys: impl Iterator<Item = &'a tombi_document::Key>,
+) -> std::string::String {
+    keys.map(key_to_toml_string).join(".")
+}
+
+/// Writes a key bare if that is possible, and quoted otherwise.
+fn key_to_toml_string(key: &tombi_document::Key) -> std::string::String {
+    let value = key.value();
+    if !value.is_empty()
+        && value
+            .chars()
+            .all(|c| c.is_ascii_alphanumeric() || matches!(c, '-' | '_'))
+    {
+        value.to_string()
+    } else {
+        tombi_toml_text::to_basic_string(value)
+    }
+}
+
 fn inline_table_entry_to_toml_string(
     result: &mut std::string::String,
     key: &tombi_document::Key,
     value: &tombi_document::Value,
 ) {
-    result.push_str(&format!("{key} = "));
+    result.push_str(&format!("{} = ", key_to_toml_string(key)));
     match value {
         tombi_document::Value::Table(table)
             if table.kind() == tombi_document::TableKind::KeyValue =>
@@ -197,33 +220,10 @@ impl ToTomlString for tombi_document::Array {
                 for value in self.values().iter() {
                     result.push_str(&format!(
                         "[[{}]]\n",
-                        parent_keys
-                            .iter()
-                            .map(ToString::to_string)
-                            .collect_vec()
-                            .join(".")
+                        keys_to_toml_string(parent_keys.iter().copied())
                     ));
                     if let tombi_document::Value::Table(table) = value {
-                        for (key, value) in table.key_values() {
-                            match value {
-                                tombi_document::Value::Table(table)
-                                    if table.kind() == tombi_document::TableKind::KeyValue =>
-                                {
-                                    table.to_toml_string(
-                                        result,
-                                        &parent_keys.iter().chain(&[key]).copied().collect_vec(),
-                                    );
-                                }
-                                _ => {
-                                    result.push_str(&format!("{key} = "));
-                                    value.to_toml_string(
-                                        result,
-                                        &parent_keys.iter().chain(&[key]).copied().collect_vec(),
-                                    );
-                                }
-                            }
-                            result.push('\n');
-                        }
+                        table_body_to_toml_string(table, result, parent_keys);
                     }
                 }
             }
@@ -256,7 +256,8 @@ impl ToTomlString for tombi_document::Float {
         } else if self.value().is_nan() {
             result.push_str("nan");
         } else {
-            result.push_str(&self.value().to_string());
+            // With a fraction or an exponent, so that it is no integer.
+            result.push_str(&format!("{:?}", self.value()));
         }
     }
 }
diff --git a/rust/serde_tombi/src/ser.rs b/rust/serde_tombi/src/ser.rs
index 124f258..0ff7328 100644
--- a/rust/serde_tombi/src/ser.rs
+++ b/rust/serde_tombi/src/ser.rs
@@ -207,7 +207,12 @@ impl<'a> serde::Serializer for &'a mut ValueSerializer<'a> {
     }
 
     fn serialize_u64(self, v: u64) -> Result<Self::Ok, Self::Error> {
-        self.serialize_i64(v as i64)
+        match i64::try_from(v) {
+            Ok(v) => self.serialize_i64(v),
+            Err(_) => Err(serde::ser::Error::custom(format!(
+                "Integer {v} is out of the range of TOML"
+            ))),
+        }
     }
 
     fn serialize_f32(self, v: f32) -> Result<Self::Ok, Self::Error> {
-- 
2.43.0


From 88e3c16a64f2624aa7d950a88d5b20b4f521024b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:14 +0000
Subject: [PATCH 57/60] fix: write the variant of an enum and arrays that no
 array of tables can hold in serde_tombi

---
 rust/serde_tombi/src/ser.rs | 100 ++++++++++++++++++++++--------------
 1 file changed, 62 insertions(+), 38 deletions(-)

diff --git a/rust/serde_tombi/src/ser.rs b/rust/serde_tombi/src/ser.rs
index 0ff7328..dc3139b 100644
--- a/rust/serde_tombi/src/ser.rs
+++ b/rust/serde_tombi/src/ser.rs
@@ -307,19 +307,24 @@ impl<'a> serde::Serializer for &'a mut ValueSerializer<'a> {
         self,
         _name: &'static str,
         _variant_index: u32,
-        _variant: &'static str,
+        variant: &'static str,
         value: &T,
     ) -> Result<Self::Ok, Self::Error>
     where
         T: ?Sized + Serialize,
     {
-        value.serialize(&mut *self)
+        let Some(value) = value.serialize(&mut *self)? else {
+            return Err(serde::ser::Error::custom(format!(
+                "Value of the variant \"{variant}\" is required"
+            )));
+        };
+        Ok(Some(tag_variant(Some(variant), value)))
     }
 
     fn serialize_seq(self, len: Option<usize>) -> Result<Self::SerializeSeq, Self::Error> {
         Ok(SerializeArray {
-            kind: tombi_document::ArrayKind::ArrayOfTable,
             accessors: self.accessors,
+            variant: None,
             values: match len {
                 Some(len) => Vec::with_capacity(len),
                 None => Vec::new(),
@@ -329,8 +334,8 @@ impl<'a> serde::Serializer for &'a mut ValueSerializer<'a> {
 
     fn serialize_tuple(self, len: usize) -> Result<Self::SerializeTuple, Self::Error> {
         Ok(SerializeArray {
-            kind: tombi_document::ArrayKind::ArrayOfTable,
             accessors: self.accessors,
+            variant: None,
             values: Vec::with_capacity(len),
         })
     }
@@ -341,8 +346,8 @@ impl<'a> serde::Serializer for &'a mut ValueSerializer<'a> {
         len: usize,
     ) -> Result<Self::SerializeTupleStruct, Self::Error> {
         Ok(SerializeArray {
-            kind: tombi_document::ArrayKind::ArrayOfTable,
             accessors: self.accessors,
+            variant: None,
             values: Vec::with_capacity(len),
         })
     }
@@ -351,12 +356,12 @@ impl<'a> serde::Serializer for &'a mut ValueSerializer<'a> {
         self,
         _name: &'static str,
         _variant_index: u32,
-        _variant: &'static str,
+        variant: &'static str,
         len: usize,
     ) -> Result<Self::SerializeTupleVariant, Self::Error> {
         Ok(SerializeArray {
-            kind: tombi_document::ArrayKind::ArrayOfTable,
             accessors: self.accessors,
+            variant: Some(variant),
             values: Vec::with_capacity(len),
         })
     }
@@ -364,6 +369,7 @@ impl<'a> serde::Serializer for &'a mut ValueSerializer<'a> {
     fn serialize_map(self, len: Option<usize>) -> Result<Self::SerializeMap, Self::Error> {
         Ok(SerializeTable {
             accessors: self.accessors,
+            variant: None,
             key: None,
             key_values: match len {
                 Some(len) => Vec::with_capacity(len),
@@ -379,6 +385,7 @@ impl<'a> serde::Serializer for &'a mut ValueSerializer<'a> {
     ) -> Result<Self::SerializeStruct, Self::Error> {
         Ok(SerializeTable {
             accessors: self.accessors,
+            variant: None,
             key: None,
             key_values: Vec::with_capacity(len),
         })
@@ -388,11 +395,12 @@ impl<'a> serde::Serializer for &'a mut ValueSerializer<'a> {
         self,
         _name: &'static str,
         _variant_index: u32,
-        _variant: &'static str,
+        variant: &'static str,
         len: usize,
     ) -> Result<Self::SerializeStructVariant, Self::Error> {
         Ok(SerializeTable {
             accessors: self.accessors,
+            variant: Some(variant),
             key: None,
             key_values: Vec::with_capacity(len),
         })
@@ -401,8 +409,8 @@ impl<'a> serde::Serializer for &'a mut ValueSerializer<'a> {
 
 // Sequence serialization
 pub struct SerializeArray<'a> {
-    kind: tombi_document::ArrayKind,
     accessors: &'a [tombi_schema_store::Accessor],
+    variant: Option<&'static str>,
     values: Vec<tombi_document::Value>,
 }
 
@@ -414,7 +422,7 @@ impl serde::ser::SerializeSeq for SerializeArray<'_> {
     where
         T: ?Sized + Serialize,
     {
-        let Some(mut value) = value.serialize(&mut ValueSerializer {
+        let Some(value) = value.serialize(&mut ValueSerializer {
             accessors: self.accessors,
         })?
         else {
@@ -425,41 +433,36 @@ impl serde::ser::SerializeSeq for SerializeArray<'_> {
                 tombi_schema_store::Accessors::from(accessors),
             ));
         };
-        match &mut value {
-            tombi_document::Value::Boolean(_)
-            | tombi_document::Value::Integer(_)
-            | tombi_document::Value::Float(_)
-            | tombi_document::Value::String(_)
-            | tombi_document::Value::LocalDate(_)
-            | tombi_document::Value::LocalDateTime(_)
-            | tombi_document::Value::LocalTime(_)
-            | tombi_document::Value::OffsetDateTime(_) => {
-                self.kind = tombi_document::ArrayKind::Array;
-            }
-            tombi_document::Value::Array(array) => {
-                if self.kind == tombi_document::ArrayKind::Array {
-                    let array_kind = array.kind_mut();
-                    *array_kind = tombi_document::ArrayKind::Array;
-                }
-            }
-            tombi_document::Value::Table(table) => {
-                if self.kind == tombi_document::ArrayKind::Array {
-                    let table_kind = table.kind_mut();
-                    *table_kind = tombi_document::TableKind::InlineTable;
-                }
-            }
-        }
         self.values.push(value);
 
         Ok(())
     }
 
     fn end(self) -> Result<Self::Ok, Self::Error> {
-        let mut array = tombi_document::Array::new(self.kind);
-        for value in self.values {
+        // Only tables can be written as an array of tables.
+        let is_array_of_table = !self.values.is_empty()
+            && self.values.iter().all(|value| {
+                matches!(
+                    value,
+                    tombi_document::Value::Table(table)
+                        if table.kind() == tombi_document::TableKind::Table
+                )
+            });
+        let mut array = tombi_document::Array::new(if is_array_of_table {
+            tombi_document::ArrayKind::ArrayOfTable
+        } else {
+            tombi_document::ArrayKind::Array
+        });
+        for mut value in self.values {
+            if !is_array_of_table {
+                force_inline(&mut value);
+            }
             array.push(value);
         }
-        Ok(Some(tombi_document::Value::Array(array)))
+        Ok(Some(tag_variant(
+            self.variant,
+            tombi_document::Value::Array(array),
+        )))
     }
 }
 
@@ -513,6 +516,23 @@ impl serde::ser::SerializeTupleVariant for SerializeArray<'_> {
     }
 }
 
+/// Wrap the data of an enum variant in a table with the name of the variant.
+fn tag_variant(
+    variant: Option<&'static str>,
+    value: tombi_document::Value,
+) -> tombi_document::Value {
+    let Some(variant) = variant else {
+        return value;
+    };
+    let key = tombi_document::Key::from(tombi_document::String::new(
+        tombi_document::StringKind::BasicString,
+        variant.to_string(),
+    ));
+    let mut table = tombi_document::Table::new(tombi_document::TableKind::Table);
+    table.insert(key, value);
+    tombi_document::Value::Table(table)
+}
+
 fn force_inline(value: &mut tombi_document::Value) {
     match value {
         tombi_document::Value::Table(table) => {
@@ -534,6 +554,7 @@ fn force_inline(value: &mut tombi_document::Value) {
 // Map serialization
 pub struct SerializeTable<'a> {
     accessors: &'a [tombi_schema_store::Accessor],
+    variant: Option<&'static str>,
     key: Option<tombi_document::Key>,
     key_values: Vec<(tombi_document::Key, tombi_document::Value)>,
 }
@@ -600,7 +621,10 @@ impl serde::ser::SerializeMap for SerializeTable<'_> {
         for (key, value) in self.key_values {
             table.insert(key, value);
         }
-        Ok(Some(tombi_document::Value::Table(table)))
+        Ok(Some(tag_variant(
+            self.variant,
+            tombi_document::Value::Table(table),
+        )))
     }
 }
 
-- 
2.43.0


From c0a9ea7edf5955d38475c125ef7e4c7a64348380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:14 +0000
Subject: [PATCH 58/60] fix: read dates, root enums and empty tuple variants
 back from a document

---
 crates/tombi-document/src/lib.rs   | 34 ++++++++++++++++++++++++++++--
 crates/tombi-document/src/value.rs | 29 ++++++++++++++++++-------
 2 files changed, 53 insertions(+), 10 deletions(-)

diff --git a/crates/tombi-document/src/lib.rs b/crates/tombi-document/src/lib.rs
index ad90ac0..758c8d8 100644
--- a/crates/tombi-document/src/lib.rs
+++ b/crates/tombi-document/src/lib.rs
@@ -95,10 +95,40 @@ impl<'de> serde::Deserializer<'de> for &'de Document {
         self.0.deserialize_any(visitor)
     }
 
+    fn deserialize_option<V>(self, visitor: V) -> Result<V::Value, Self::Error>
+    where
+        V: serde::de::Visitor<'de>,
+    {
+        visitor.visit_some(self)
+    }
+
+    fn deserialize_newtype_struct<V>(
+        self,
+        _name: &'static str,
+        visitor: V,
+    ) -> Result<V::Value, Self::Error>
+    where
+        V: serde::de::Visitor<'de>,
+    {
+        visitor.visit_newtype_struct(self)
+    }
+
+    fn deserialize_enum<V>(
+        self,
+        name: &'static str,
+        variants: &'static [&'static str],
+        visitor: V,
+    ) -> Result<V::Value, Self::Error>
+    where
+        V: serde::de::Visitor<'de>,
+    {
+        self.0.deserialize_enum(name, variants, visitor)
+    }
+
     forward_to_deserialize_any! {
         bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string
-        bytes byte_buf option unit unit_struct newtype_struct seq tuple
-        tuple_struct struct map identifier enum ignored_any
+        bytes byte_buf unit unit_struct seq tuple
+        tuple_struct struct map identifier ignored_any
     }
 }
 
diff --git a/crates/tombi-document/src/value.rs b/crates/tombi-document/src/value.rs
index 24e27da..9558fee 100644
--- a/crates/tombi-document/src/value.rs
+++ b/crates/tombi-document/src/value.rs
@@ -345,12 +345,31 @@ impl<'de> serde::de::Deserializer<'de> for &'de Value {
 
     fn deserialize_newtype_struct<V>(
         self,
-        _name: &'static str,
+        name: &'static str,
         visitor: V,
     ) -> Result<V::Value, Self::Error>
     where
         V: serde::de::Visitor<'de>,
     {
+        if matches!(
+            name,
+            tombi_date_time::OFFSET_DATE_TIME_NEWTYPE_NAME
+                | tombi_date_time::LOCAL_DATE_TIME_NEWTYPE_NAME
+                | tombi_date_time::LOCAL_DATE_NEWTYPE_NAME
+                | tombi_date_time::LOCAL_TIME_NEWTYPE_NAME
+        ) {
+            // The types of tombi_date_time are read from their text.
+            let text = match self {
+                Value::OffsetDateTime(value) => Some(value.to_string()),
+                Value::LocalDateTime(value) => Some(value.to_string()),
+                Value::LocalDate(value) => Some(value.to_string()),
+                Value::LocalTime(value) => Some(value.to_string()),
+                _ => None,
+            };
+            if let Some(text) = text {
+                return visitor.visit_newtype_struct(text.into_deserializer());
+            }
+        }
         visitor.visit_newtype_struct(self)
     }
 
@@ -448,13 +467,7 @@ impl<'de> serde::de::VariantAccess<'de> for VariantRefDeserializer<'de> {
         V: serde::de::Visitor<'de>,
     {
         match self.value {
-            Some(Value::Array(array)) => {
-                if array.is_empty() {
-                    visitor.visit_unit()
-                } else {
-                    array.deserialize_seq(visitor)
-                }
-            }
+            Some(Value::Array(array)) => array.deserialize_seq(visitor),
             Some(other) => Err(serde::de::Error::invalid_type(
                 other.unexpected(),
                 &"tuple variant",
-- 
2.43.0


From 7fa96751a47eaf38caaf3fc2fc0e3a1f6d157de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:37 +0000
Subject: [PATCH 59/60] fix: do not take a table for an array of tables of an
 earlier element

---
 crates/tombi-ast/src/impls/array_of_table.rs | 12 ++++++++++++
 crates/tombi-ast/src/impls/table.rs          | 12 ++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/crates/tombi-ast/src/impls/array_of_table.rs b/crates/tombi-ast/src/impls/array_of_table.rs
index c7ba402..58eb2da 100644
--- a/crates/tombi-ast/src/impls/array_of_table.rs
+++ b/crates/tombi-ast/src/impls/array_of_table.rs
@@ -151,6 +151,10 @@ impl crate::ArrayOfTable {
     pub fn parrent_array_of_tables_keys(
         &self,
     ) -> impl Iterator<Item = AstChildren<crate::Key>> + '_ {
+        // The elements of an array that is in an earlier element of a parent array
+        // are not those of the array in the current one.
+        let mut shortest = usize::MAX;
+
         support::node::prev_siblings_nodes(self)
             .filter_map(|node: ArrayOfTable| node.header().map(|header| header.keys()))
             .filter(move |keys| {
@@ -173,5 +177,13 @@ impl crate::ArrayOfTable {
                     .map(|header_keys| header_keys.keys().starts_with(keys))
                     .unwrap_or_default()
             })
+            .filter(move |keys| {
+                let len = keys.clone().count();
+                if len > shortest {
+                    return false;
+                }
+                shortest = len;
+                true
+            })
     }
 }
diff --git a/crates/tombi-ast/src/impls/table.rs b/crates/tombi-ast/src/impls/table.rs
index 91a2928..edc6c90 100644
--- a/crates/tombi-ast/src/impls/table.rs
+++ b/crates/tombi-ast/src/impls/table.rs
@@ -152,6 +152,10 @@ impl crate::Table {
         &self,
         toml_version: TomlVersion,
     ) -> impl Iterator<Item = AstChildren<crate::Key>> + '_ {
+        // The elements of an array that is in an earlier element of a parent array
+        // are not those of the array in the current one.
+        let mut shortest = usize::MAX;
+
         support::node::prev_siblings_nodes(self)
             .filter_map(|node: ArrayOfTable| node.header().map(|header| header.keys()))
             .filter(move |keys| {
@@ -174,5 +178,13 @@ impl crate::Table {
                     .map(|header_keys| header_keys.keys().starts_with(keys))
                     .unwrap_or_default()
             })
+            .filter(move |keys| {
+                let len = keys.clone().count();
+                if len > shortest {
+                    return false;
+                }
+                shortest = len;
+                true
+            })
     }
 }
-- 
2.43.0


From 8cb9672b731aa4a4b425a478ddb548b2b3e568b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:21 +0000
Subject: [PATCH 60/60] fix: reject an inline table for a table that a header
 defined in passing

---
 crates/tombi-document-tree/src/value/table.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/tombi-document-tree/src/value/table.rs b/crates/tombi-document-tree/src/value/table.rs
index dd37baf..b4717ea 100644
--- a/crates/tombi-document-tree/src/value/table.rs
+++ b/crates/tombi-document-tree/src/value/table.rs
@@ -270,10 +270,10 @@ impl Table {
             | (ParentTable, ParentKey) => {
                 is_conflict = true;
             }
-            (ParentTable, Table | InlineTable { .. }) => {
+            (ParentTable, Table) => {
                 self.kind = other.kind;
             }
-            (ParentKey, Table | InlineTable { .. }) => {
+            (ParentTable, InlineTable { .. }) | (ParentKey, Table | InlineTable { .. }) => {
                 self.kind = other.kind;
                 is_conflict = true;
             }
-- 
2.43.0

