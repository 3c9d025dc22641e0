From f21654ffaf8bb897b45e6d0da85a7f79da6c3ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:36 +0000
Subject: [PATCH 01/52] fix: keep a task's guard flag when it is wrapped

A pending guard call wrapped by FailureModeTask or TracingDecoratorTask
reported is_guard() == false, so the no-op that replaces it after a terminal
outcome never lowered the barrier and the local reply stayed paused.
---
 .../src/kuadrant/pipeline/tasks/failure_mode.rs               | 4 ++++
 .../src/kuadrant/pipeline/tasks/tracing_decorator.rs          | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/failure_mode.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/failure_mode.rs
index 4ea6472..ed8088e 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/failure_mode.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/failure_mode.rs
@@ -46,4 +46,8 @@ impl Task for FailureModeTask {
     fn dependencies(&self) -> &[String] {
         self.task.dependencies()
     }
+
+    fn is_guard(&self) -> bool {
+        self.task.is_guard()
+    }
 }
diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/tracing_decorator.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/tracing_decorator.rs
index 1eb6d18..c8273c1 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/tracing_decorator.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/tracing_decorator.rs
@@ -85,4 +85,8 @@ impl Task for TracingDecoratorTask {
     fn dependencies(&self) -> &[String] {
         self.task.dependencies()
     }
+
+    fn is_guard(&self) -> bool {
+        self.task.is_guard()
+    }
 }
-- 
2.43.0


From 2792f100636dc8386f927c036f3c592a1aec815a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:53 +0000
Subject: [PATCH 02/52] fix: a task that failed no longer blocks the tasks
 waiting for it

A store, headers, deny or fail task that fails (an evaluation error, a body
without the expected field) was never marked completed, so every later
sequential action was silently skipped, guards included.
---
 crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs
index 2a93e63..2d4c590 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs
@@ -132,6 +132,8 @@ impl Pipeline {
                 TaskOutcome::Failed => {
                     // todo(refactor): error handling
                     error!("Task failed: {:?}", task_id);
+                    // it will not run again, don't hold up what waits for it
+                    self.completed_tasks.insert(task_id);
                 }
                 TaskOutcome::Terminate(terminal_task) => {
                     terminal_task.apply(&mut self.ctx);
@@ -193,6 +195,7 @@ impl Pipeline {
                 TaskOutcome::Failed => {
                     // todo(refactor): error handling
                     error!("Failed to process response for token_id: {}", token_id);
+                    self.completed_tasks.insert(task_id);
                 }
                 TaskOutcome::Terminate(terminal_task) => {
                     terminal_task.apply(&mut self.ctx);
-- 
2.43.0


From 5a1784cc6d8f87822ea6e58e904437b7fb7f7082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:16 +0000
Subject: [PATCH 03/52] fix: apply the failure mode to a gRPC action that had
 to wait for data

A gRPC task that was requeued (an attribute, a stored value or a body that is
not there yet) lost its FailureModeTask wrapper, so that a later failure was
neither counted nor denied with failureMode: deny. Once the response body is
flowing it is too late to deny anything, which stays as it was.
---
 .../kuadrant-filter/src/kuadrant/context.rs   |  4 +++
 .../kuadrant/pipeline/tasks/failure_mode.rs   | 30 ++++++++++++++++++-
 2 files changed, 33 insertions(+), 1 deletion(-)

diff --git a/crates/kuadrant-filter/src/kuadrant/context.rs b/crates/kuadrant-filter/src/kuadrant/context.rs
index 2906266..e313bb7 100644
--- a/crates/kuadrant-filter/src/kuadrant/context.rs
+++ b/crates/kuadrant-filter/src/kuadrant/context.rs
@@ -474,6 +474,10 @@ impl BodyContext {
         self.end_of_stream
     }
 
+    pub fn is_started(&self) -> bool {
+        self.buffer_size > 0 || self.end_of_stream
+    }
+
     pub fn set_buffer_size(&mut self, size: usize, end_of_stream: bool) {
         self.buffer_size = size;
         self.end_of_stream = end_of_stream;
diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/failure_mode.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/failure_mode.rs
index ed8088e..fbe9a07 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/failure_mode.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/failure_mode.rs
@@ -7,17 +7,27 @@ use crate::metrics::METRICS;
 pub struct FailureModeTask {
     task: Box<dyn Task>,
     abort: bool,
+    requeued: bool,
 }
 
 impl FailureModeTask {
     pub fn new(task: Box<dyn Task>, abort: bool) -> Self {
-        Self { task, abort }
+        Self {
+            task,
+            abort,
+            requeued: false,
+        }
     }
 }
 
 impl Task for FailureModeTask {
     fn apply(self: Box<Self>, ctx: &mut ReqRespCtx) -> TaskOutcome {
+        let id = self.task.id().to_string();
         match self.task.apply(ctx) {
+            // the response is already on its way, it's too late to reply anything else
+            TaskOutcome::Failed if self.requeued && ctx.response_body.is_started() => {
+                TaskOutcome::Failed
+            }
             TaskOutcome::Failed => {
                 METRICS.errors().increment();
                 if self.abort {
@@ -33,8 +43,26 @@ impl Task for FailureModeTask {
                 pending: Box::new(FailureModeTask {
                     task: pending,
                     abort: self.abort,
+                    requeued: false,
                 }),
             },
+            // the task waits for data, it's still to be handled when it eventually runs
+            TaskOutcome::Requeued(tasks) => TaskOutcome::Requeued(
+                tasks
+                    .into_iter()
+                    .map(|task| -> Box<dyn Task> {
+                        if task.id() == id {
+                            Box::new(FailureModeTask {
+                                task,
+                                abort: self.abort,
+                                requeued: true,
+                            })
+                        } else {
+                            task
+                        }
+                    })
+                    .collect(),
+            ),
             outcome => outcome,
         }
     }
-- 
2.43.0


From 44d0a5b49c3154cf8661a2a1d5a3e4344e7023b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:43 +0000
Subject: [PATCH 04/52] fix: apply the failure mode to gRPC actions nested in
 onReply

Only top level gRPC actions were wrapped with their service's failure mode: a
guard called from an onReply of another call failed open and uncounted.
---
 .../src/kuadrant/pipeline/blueprint.rs                | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/blueprint.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/blueprint.rs
index 5347717..e4b4989 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/blueprint.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/blueprint.rs
@@ -72,7 +72,16 @@ impl Action {
             } => {
                 let children: Vec<Box<dyn Task>> = on_reply
                     .iter()
-                    .filter_map(|a| a.to_core_task(ctx))
+                    .filter_map(|a| {
+                        let task = a.to_core_task(ctx)?;
+                        Some(match &a.operation {
+                            Operation::Grpc { service, .. } => Box::new(FailureModeTask::new(
+                                task,
+                                service.failure_mode() == configuration::FailureMode::Deny,
+                            )),
+                            _ => task,
+                        })
+                    })
                     .collect();
 
                 match service {
-- 
2.43.0


From d0d1b05f2f25dc906febbdacc3262d9bacd47cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:59 +0000
Subject: [PATCH 05/52] fix: honour execution: sequential for actions that are
 not gRPC calls

The dependencies computed for deny, headers, store and fail actions were
dropped: a sequential deny was evaluated, and could answer the request, before
the calls configured ahead of it had completed.
---
 .../src/kuadrant/pipeline/blueprint.rs        |  9 +++--
 .../src/kuadrant/pipeline/tasks/mod.rs        |  2 ++
 .../src/kuadrant/pipeline/tasks/sequenced.rs  | 36 +++++++++++++++++++
 3 files changed, 44 insertions(+), 3 deletions(-)
 create mode 100644 crates/kuadrant-filter/src/kuadrant/pipeline/tasks/sequenced.rs

diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/blueprint.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/blueprint.rs
index e4b4989..52910d7 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/blueprint.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/blueprint.rs
@@ -5,8 +5,8 @@ use crate::configuration::{
 };
 use crate::data::{cel::Predicate, Expression};
 use crate::kuadrant::pipeline::tasks::{
-    DynamicTask, ExportTracesTask, FailureModeTask, HeadersType, ModifyHeadersTask, Task,
-    TeardownAction, TokenUsageTask, TracingDecoratorTask,
+    DynamicTask, ExportTracesTask, FailureModeTask, HeadersType, ModifyHeadersTask, SequencedTask,
+    Task, TeardownAction, TokenUsageTask, TracingDecoratorTask,
 };
 use crate::kuadrant::ReqRespCtx;
 use crate::services::ServiceInstance;
@@ -436,7 +436,10 @@ impl Blueprint {
                     }
                 },
                 _ => {
-                    if let Some(task) = action.to_core_task(ctx) {
+                    if let Some(mut task) = action.to_core_task(ctx) {
+                        if !action.dependencies.is_empty() {
+                            task = Box::new(SequencedTask::new(task, action.dependencies.clone()));
+                        }
                         tasks.push(task);
                     }
                 }
diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/mod.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/mod.rs
index 4a73471..ef88ec0 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/mod.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/mod.rs
@@ -4,6 +4,7 @@ mod fail;
 mod failure_mode;
 mod headers;
 mod send_reply;
+mod sequenced;
 mod store;
 mod token_usage;
 mod tracing_decorator;
@@ -14,6 +15,7 @@ pub use fail::FailTask;
 pub use failure_mode::FailureModeTask;
 pub use headers::{HeadersType, ModifyHeadersTask};
 pub use send_reply::SendReplyTask;
+pub use sequenced::SequencedTask;
 pub use store::StoreTask;
 pub use token_usage::TokenUsageTask;
 use tracing::debug;
diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/sequenced.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/sequenced.rs
new file mode 100644
index 0000000..e781931
--- /dev/null
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/sequenced.rs
@@ -0,0 +1,36 @@
+use crate::kuadrant::pipeline::tasks::{Task, TaskOutcome};
+use crate::kuadrant::ReqRespCtx;
+
+/// Holds a task back until the tasks it depends on are completed
+pub struct SequencedTask {
+    task: Box<dyn Task>,
+    dependencies: Vec<String>,
+}
+
+impl SequencedTask {
+    pub fn new(task: Box<dyn Task>, dependencies: Vec<String>) -> Self {
+        Self { task, dependencies }
+    }
+}
+
+impl Task for SequencedTask {
+    fn apply(self: Box<Self>, ctx: &mut ReqRespCtx) -> TaskOutcome {
+        self.task.apply(ctx)
+    }
+
+    fn id(&self) -> &str {
+        self.task.id()
+    }
+
+    fn dependencies(&self) -> &[String] {
+        &self.dependencies
+    }
+
+    fn is_guard(&self) -> bool {
+        self.task.is_guard()
+    }
+
+    fn cel_types(&self) -> Vec<cel::StructDef> {
+        self.task.cel_types()
+    }
+}
-- 
2.43.0


From 8baff2e042bf0ff74122be435ed174033b7d1a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:30 +0000
Subject: [PATCH 06/52] fix: don't hold the end of a response when no gRPC call
 is outstanding

With actions left that can no longer run (a body field that never came, a
condition that stays pending) the last response body chunk was paused with
nothing left to ever resume it.
---
 crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs | 4 ++++
 crates/wasm-shim/src/filter/kuadrant_filter.rs           | 3 ++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs
index 2d4c590..5702fa5 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs
@@ -216,6 +216,10 @@ impl Pipeline {
     pub fn requires_pause(&self) -> bool {
         self.ctx.barrier.is_tripped()
     }
+
+    pub fn awaits_response(&self) -> bool {
+        !self.deferred_tasks.is_empty()
+    }
 }
 
 #[cfg(test)]
diff --git a/crates/wasm-shim/src/filter/kuadrant_filter.rs b/crates/wasm-shim/src/filter/kuadrant_filter.rs
index 0c7d284..599e51d 100644
--- a/crates/wasm-shim/src/filter/kuadrant_filter.rs
+++ b/crates/wasm-shim/src/filter/kuadrant_filter.rs
@@ -206,7 +206,8 @@ impl HttpContext for KuadrantFilter {
             trace!("on_http_response_body: pause");
             Action::Pause
         } else {
-            if self.pipeline.is_some() && end_of_stream {
+            // only a gRPC response can resume the stream from here on
+            if self.pipeline.as_ref().is_some_and(|p| p.awaits_response()) && end_of_stream {
                 trace!("on_http_response_body: pipeline is some, pause");
                 self.force_resume = true;
                 Action::Pause
-- 
2.43.0


From 78c857e563ff15c01bb667e6daed367a8a55c686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:56 +0000
Subject: [PATCH 07/52] fix: let a deny action wait for data its reply needs

---
 .../src/kuadrant/pipeline/tasks/send_reply.rs                | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/send_reply.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/send_reply.rs
index 86453fe..a6710dd 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/send_reply.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/send_reply.rs
@@ -77,10 +77,7 @@ impl Task for SendReplyTask {
 
         let (status_code, headers, body) = {
             match self.deny_with.eval(ctx, &mut cel_ctx) {
-                Ok(AttributeState::Pending) => {
-                    error!("Unexpected pending state in deny expression");
-                    return TaskOutcome::Failed;
-                }
+                Ok(AttributeState::Pending) => return TaskOutcome::Requeued(vec![self]),
                 Ok(AttributeState::Available(val @ Value::Struct(_))) => {
                     let Value::Struct(deny_response) = val else {
                         error!("Invalid DenyResponse: {val:?}");
-- 
2.43.0


From 6a4860ac924a76eab14818c3a7c7c569d3d60639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:19 +0000
Subject: [PATCH 08/52] fix: read each byte of a body once, however the proxy
 hands it over

---
 .../kuadrant-filter/src/kuadrant/context.rs   | 20 ++++++++++++++++-
 .../src/kuadrant/pipeline/tasks/store.rs      | 22 +++++++++++--------
 .../pipeline/tasks/store/body_parser.rs       |  1 +
 .../kuadrant/pipeline/tasks/token_usage.rs    | 12 ++++++++--
 .../wasm-shim/src/filter/kuadrant_filter.rs   | 16 ++++++++++++++
 5 files changed, 59 insertions(+), 12 deletions(-)

diff --git a/crates/kuadrant-filter/src/kuadrant/context.rs b/crates/kuadrant-filter/src/kuadrant/context.rs
index e313bb7..e683b74 100644
--- a/crates/kuadrant-filter/src/kuadrant/context.rs
+++ b/crates/kuadrant-filter/src/kuadrant/context.rs
@@ -461,6 +461,8 @@ impl Barrier {
 #[derive(Default)]
 pub struct BodyContext {
     buffer_size: usize,
+    // bytes the proxy let through already, which are no longer in its buffer
+    released: usize,
     end_of_stream: bool,
     values: HashMap<String, Value>,
 }
@@ -475,7 +477,23 @@ impl BodyContext {
     }
 
     pub fn is_started(&self) -> bool {
-        self.buffer_size > 0 || self.end_of_stream
+        self.received() > 0 || self.end_of_stream
+    }
+
+    /// Number of bytes of the body seen so far, whether or not still buffered
+    pub fn received(&self) -> usize {
+        self.released + self.buffer_size
+    }
+
+    /// Number of bytes at the start of the body that are no longer buffered
+    pub fn released(&self) -> usize {
+        self.released
+    }
+
+    /// The proxy was told to go on, the next buffer starts with new bytes
+    pub fn release(&mut self) {
+        self.released += self.buffer_size;
+        self.buffer_size = 0;
     }
 
     pub fn set_buffer_size(&mut self, size: usize, end_of_stream: bool) {
diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store.rs
index 124d50d..b1beb7d 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store.rs
@@ -35,6 +35,7 @@ pub struct StoreTask {
     export_to_host: bool,
     terminal: bool,
     body_parse_state: BodyParseState,
+    body_bytes_read: usize,
     _reservation: PathReservation,
 }
 
@@ -58,6 +59,7 @@ impl StoreTask {
             export_to_host,
             terminal,
             body_parse_state,
+            body_bytes_read: 0,
             _reservation: reservation,
         })
     }
@@ -151,19 +153,20 @@ impl Task for StoreTask {
                 BodySource::Response => &ctx.response_body,
             };
 
-            if body_ctx.buffer_size() == 0 && !body_ctx.is_end_of_stream() {
+            if !body_ctx.is_started() {
                 return TaskOutcome::Requeued(vec![self]);
             }
 
-            if body_ctx.buffer_size() > parser.bytes_consumed() {
-                let bytes_to_read = body_ctx.buffer_size() - parser.bytes_consumed();
+            let received = body_ctx.received();
+            if received > self.body_bytes_read {
+                let Some(start) = self.body_bytes_read.checked_sub(body_ctx.released()) else {
+                    error!("Part of the body for '{}' is gone already", self.path);
+                    return TaskOutcome::Failed;
+                };
+                let bytes_to_read = received - self.body_bytes_read;
                 let chunk = match source {
-                    BodySource::Request => {
-                        ctx.get_http_request_body(parser.bytes_consumed(), bytes_to_read)
-                    }
-                    BodySource::Response => {
-                        ctx.get_http_response_body(parser.bytes_consumed(), bytes_to_read)
-                    }
+                    BodySource::Request => ctx.get_http_request_body(start, bytes_to_read),
+                    BodySource::Response => ctx.get_http_response_body(start, bytes_to_read),
                 };
 
                 let chunk_bytes = match chunk {
@@ -181,6 +184,7 @@ impl Task for StoreTask {
                     }
                 };
 
+                self.body_bytes_read = received;
                 if let Err(e) = parser.feed(&chunk_bytes) {
                     error!("Failed to parse body for '{}': {e}", self.path);
                     return TaskOutcome::Failed;
diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/body_parser.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/body_parser.rs
index bf07e54..8a69c84 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/body_parser.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/body_parser.rs
@@ -8,6 +8,7 @@ pub(super) trait BodyParser {
     fn finalize(&mut self) -> Result<(), AttributeError>;
     fn remaining_fields(&self) -> Vec<&String>;
     fn populate(&self, body_ctx: &mut BodyContext);
+    #[allow(dead_code)]
     fn bytes_consumed(&self) -> usize;
 }
 
diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/token_usage.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/token_usage.rs
index 35ff962..4de1de6 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/token_usage.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/token_usage.rs
@@ -10,6 +10,7 @@ use tracing::{debug, error, warn};
 pub struct TokenUsageTask {
     strategy: Option<Box<dyn ExtractionStrategy>>,
     expected_response_fields: Vec<String>,
+    bytes_consumed: usize,
 }
 
 impl TokenUsageTask {
@@ -22,6 +23,7 @@ impl TokenUsageTask {
         Self {
             strategy: None,
             expected_response_fields,
+            bytes_consumed: 0,
         }
     }
 }
@@ -31,6 +33,7 @@ impl From<Box<Self>> for TokenUsageTask {
         Self {
             strategy: value.strategy,
             expected_response_fields: value.expected_response_fields,
+            bytes_consumed: value.bytes_consumed,
         }
     }
 }
@@ -64,9 +67,14 @@ impl Task for TokenUsageTask {
             }
         };
 
-        if ctx.response_body.buffer_size() > 0 {
-            match ctx.get_http_response_body(0, ctx.response_body.buffer_size()) {
+        let received = ctx.response_body.received();
+        if received > task.bytes_consumed {
+            let start = task
+                .bytes_consumed
+                .saturating_sub(ctx.response_body.released());
+            match ctx.get_http_response_body(start, received - task.bytes_consumed) {
                 Ok(AttributeState::Available(Some(bytes))) => {
+                    task.bytes_consumed = received;
                     strategy.feed_buffer(bytes);
                 }
                 Ok(AttributeState::Available(None)) => {
diff --git a/crates/wasm-shim/src/filter/kuadrant_filter.rs b/crates/wasm-shim/src/filter/kuadrant_filter.rs
index 599e51d..e23757b 100644
--- a/crates/wasm-shim/src/filter/kuadrant_filter.rs
+++ b/crates/wasm-shim/src/filter/kuadrant_filter.rs
@@ -30,6 +30,18 @@ impl KuadrantFilter {
         self.pipeline.as_ref().is_some_and(|p| p.requires_pause())
     }
 
+    fn release_request_body(&mut self) {
+        if let Some(pipeline) = self.pipeline.as_mut() {
+            pipeline.ctx.request_body.release();
+        }
+    }
+
+    fn release_response_body(&mut self) {
+        if let Some(pipeline) = self.pipeline.as_mut() {
+            pipeline.ctx.response_body.release();
+        }
+    }
+
     #[allow(clippy::expect_used)]
     fn should_resume(&self) -> bool {
         let pipeline = self.pipeline.as_ref().expect("pipeline must be present");
@@ -68,9 +80,11 @@ impl Context for KuadrantFilter {
             if should_resume {
                 let result = if self.in_response_phase {
                     trace!("on_grpc_call_response: resume_http_response");
+                    self.release_response_body();
                     self.resume_http_response()
                 } else {
                     trace!("on_grpc_call_response: resume_http_request");
+                    self.release_request_body();
                     self.resume_http_request()
                 };
 
@@ -159,6 +173,7 @@ impl HttpContext for KuadrantFilter {
             Action::Pause
         } else {
             trace!("on_http_request_body: continue");
+            self.release_request_body();
             Action::Continue
         }
     }
@@ -213,6 +228,7 @@ impl HttpContext for KuadrantFilter {
                 Action::Pause
             } else {
                 trace!("on_http_response_body: continue");
+                self.release_response_body();
                 Action::Continue
             }
         }
-- 
2.43.0


From fb588dfda8ae1f892a946a573b6784c966ded253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:04 +0000
Subject: [PATCH 09/52] fix: a request without a body keeps nobody waiting for
 one

---
 crates/wasm-shim/src/filter/kuadrant_filter.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/wasm-shim/src/filter/kuadrant_filter.rs b/crates/wasm-shim/src/filter/kuadrant_filter.rs
index e23757b..f3139f1 100644
--- a/crates/wasm-shim/src/filter/kuadrant_filter.rs
+++ b/crates/wasm-shim/src/filter/kuadrant_filter.rs
@@ -102,7 +102,7 @@ impl Context for KuadrantFilter {
 }
 
 impl HttpContext for KuadrantFilter {
-    fn on_http_request_headers(&mut self, _num_headers: usize, _end_of_stream: bool) -> Action {
+    fn on_http_request_headers(&mut self, _num_headers: usize, end_of_stream: bool) -> Action {
         debug!("#{} on_http_request_headers", self.context_id);
 
         #[cfg(feature = "debug-host-behaviour")]
@@ -111,8 +111,12 @@ impl HttpContext for KuadrantFilter {
         let ctx = ReqRespCtx::new(Arc::new(crate::wasm_host::ProxyWasmHost));
 
         match self.factory.build(ctx) {
-            Ok(Some(pipeline)) => {
+            Ok(Some(mut pipeline)) => {
                 debug!("#{} pipeline built successfully", self.context_id);
+                if end_of_stream {
+                    // there is no body to wait for
+                    pipeline.ctx.request_body.set_buffer_size(0, true);
+                }
                 METRICS.hits().increment();
                 match pipeline.eval() {
                     PipelineState::InProgress(p) => {
-- 
2.43.0


From b2ccda3595da90857202c3def8d29925a074fec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:19 +0000
Subject: [PATCH 10/52] fix: decode JSON strings of a body instead of guessing
 at their raw text

---
 .../pipeline/tasks/store/json_body_parser.rs  | 25 +++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/json_body_parser.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/json_body_parser.rs
index 748a78b..b5d5a44 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/json_body_parser.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/json_body_parser.rs
@@ -14,6 +14,7 @@ pub(crate) struct JsonBodyParser {
     parser: Option<acutejson::Parser>,
     buffers: Arc<Mutex<HashMap<String, Vec<u8>>>>,
     matched: Arc<Mutex<HashSet<String>>>,
+    strings: Arc<Mutex<HashSet<String>>>,
     extracted: HashMap<String, Value>,
     bytes_consumed: usize,
     complete: bool,
@@ -23,6 +24,7 @@ impl JsonBodyParser {
     pub fn new(fields: Vec<String>) -> Result<Self, AttributeError> {
         let buffers: Arc<Mutex<HashMap<String, Vec<u8>>>> = Arc::new(Mutex::new(HashMap::new()));
         let matched: Arc<Mutex<HashSet<String>>> = Arc::new(Mutex::new(HashSet::new()));
+        let strings: Arc<Mutex<HashSet<String>>> = Arc::new(Mutex::new(HashSet::new()));
         let results: Arc<Mutex<HashMap<String, Vec<u8>>>> = Arc::clone(&buffers);
 
         let mut builder = acutejson::Builder::new();
@@ -30,12 +32,20 @@ impl JsonBodyParser {
             let field_name = field.clone();
             let field_buffers = Arc::clone(&results);
             let field_matched = Arc::clone(&matched);
+            let field_strings = Arc::clone(&strings);
             field_buffers
                 .lock()
                 .unwrap_or_else(|e| e.into_inner())
                 .insert(field_name.clone(), Vec::new());
 
-            builder = match builder.register(field, move |bytes, _is_complete| {
+            builder = match builder.register(field, move |bytes, is_complete| {
+                // only strings are completed separately from their content
+                if is_complete && bytes.is_empty() {
+                    field_strings
+                        .lock()
+                        .unwrap_or_else(|e| e.into_inner())
+                        .insert(field_name.clone());
+                }
                 field_matched
                     .lock()
                     .unwrap_or_else(|e| e.into_inner())
@@ -62,6 +72,7 @@ impl JsonBodyParser {
             parser: Some(builder.build()),
             buffers,
             matched,
+            strings,
             extracted: HashMap::new(),
             bytes_consumed: 0,
             complete: false,
@@ -71,12 +82,22 @@ impl JsonBodyParser {
     fn finalize_extracted(&mut self) -> Result<(), AttributeError> {
         let buffers = self.buffers.lock().unwrap_or_else(|e| e.into_inner());
         let matched = self.matched.lock().unwrap_or_else(|e| e.into_inner());
+        let strings = self.strings.lock().unwrap_or_else(|e| e.into_inner());
         for (field, raw_bytes) in buffers.iter() {
             if matched.contains(field) {
                 let raw_value = std::str::from_utf8(raw_bytes).map_err(|e| {
                     AttributeError::Parse(format!("Body field '{field}' is not valid UTF-8: {e}"))
                 })?;
-                let value = parse_json_scalar(raw_value);
+                let value = if strings.contains(field) {
+                    // what is between the quotes, escapes included
+                    let text: String =
+                        serde_json::from_str(&format!("\"{raw_value}\"")).map_err(|e| {
+                            AttributeError::Parse(format!("Body field '{field}' is invalid: {e}"))
+                        })?;
+                    Value::String(Arc::new(text))
+                } else {
+                    parse_json_scalar(raw_value)
+                };
                 self.extracted.insert(field.clone(), value);
             }
         }
-- 
2.43.0


From e5d1067bc7cb00cbbec0fc65c83de743442feacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:29 +0000
Subject: [PATCH 11/52] fix: accept line breaks within the parts of a JSON body
 that are skipped

---
 .../pipeline/tasks/store/json_body_parser.rs  | 32 ++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/json_body_parser.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/json_body_parser.rs
index b5d5a44..3e197cb 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/json_body_parser.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/json_body_parser.rs
@@ -17,9 +17,38 @@ pub(crate) struct JsonBodyParser {
     strings: Arc<Mutex<HashSet<String>>>,
     extracted: HashMap<String, Value>,
     bytes_consumed: usize,
+    whitespace: Whitespace,
     complete: bool,
 }
 
+/// Replaces line breaks and tabs between tokens by spaces: the parser takes
+/// them for invalid within the objects and arrays that it skips
+#[derive(Default)]
+struct Whitespace {
+    in_string: bool,
+    escaped: bool,
+}
+
+impl Whitespace {
+    fn normalize(&mut self, chunk: &[u8]) -> Vec<u8> {
+        chunk.iter().map(|b| self.normalize_byte(*b)).collect()
+    }
+
+    fn normalize_byte(&mut self, byte: u8) -> u8 {
+        if self.escaped {
+            self.escaped = false;
+            return byte;
+        }
+        match byte {
+            b'\\' if self.in_string => self.escaped = true,
+            b'"' => self.in_string = !self.in_string,
+            b'\t' | b'\n' | b'\r' if !self.in_string => return b' ',
+            _ => {}
+        }
+        byte
+    }
+}
+
 impl JsonBodyParser {
     pub fn new(fields: Vec<String>) -> Result<Self, AttributeError> {
         let buffers: Arc<Mutex<HashMap<String, Vec<u8>>>> = Arc::new(Mutex::new(HashMap::new()));
@@ -75,6 +104,7 @@ impl JsonBodyParser {
             strings,
             extracted: HashMap::new(),
             bytes_consumed: 0,
+            whitespace: Whitespace::default(),
             complete: false,
         })
     }
@@ -139,7 +169,7 @@ impl BodyParser for JsonBodyParser {
             None => return Err(AttributeError::Parse("Parser not initialized".to_string())),
         };
 
-        match parser.feed(chunk) {
+        match parser.feed(&self.whitespace.normalize(chunk)) {
             Ok(acutejson::Status::Done) => {
                 self.complete = true;
                 self.finalize_extracted()?;
-- 
2.43.0


From e957332574ece49524b8702a9bedfc53cdb130bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:57 +0000
Subject: [PATCH 12/52] fix: keep a character of an event stream that is split
 between two chunks

---
 .../kuadrant/pipeline/tasks/store/sse_body_parser.rs  | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/sse_body_parser.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/sse_body_parser.rs
index 3353b67..6a89f1b 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/sse_body_parser.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/sse_body_parser.rs
@@ -24,16 +24,25 @@ pub struct Event {
 #[derive(Default)]
 pub struct EventParser {
     buffer: String,
+    // the start of a character whose other bytes are still to come
+    incomplete_char: Vec<u8>,
     event_builder: EventBuilder,
 }
 
 impl EventParser {
     pub(crate) fn parse(&mut self, chunk_bytes: Vec<u8>) -> Result<Vec<Event>, String> {
+        let mut bytes = core::mem::take(&mut self.incomplete_char);
+        bytes.extend(chunk_bytes);
+        if let Err(e) = core::str::from_utf8(&bytes) {
+            if e.error_len().is_none() {
+                self.incomplete_char = bytes.split_off(e.valid_up_to());
+            }
+        }
         // taking advantage by the automatic deref coercion.
         // Because String implements Deref<Target=str>,
         // the compiler will automatically convert the string reference (i.e. &String) to a string slice - &str
         self.buffer
-            .push_str(&String::from_utf8(chunk_bytes).map_err(|e| e.to_string())?);
+            .push_str(&String::from_utf8(bytes).map_err(|e| e.to_string())?);
 
         let mut events = Vec::default();
 
-- 
2.43.0


From 9507d34c8852914d4dfe2e3519250d63a78d9f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:10 +0000
Subject: [PATCH 13/52] fix: recognise the last event of a stream with CR line
 ends

---
 .../pipeline/tasks/store/sse_body_parser.rs     | 17 +++++++++++++++++
 .../src/kuadrant/pipeline/tasks/token_usage.rs  |  5 +++++
 2 files changed, 22 insertions(+)

diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/sse_body_parser.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/sse_body_parser.rs
index 6a89f1b..540dbbb 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/sse_body_parser.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/sse_body_parser.rs
@@ -53,6 +53,15 @@ impl EventParser {
         Ok(events)
     }
 
+    /// Parses what can only be told apart once the stream has ended: a line
+    /// end of CR that might have been the first half of CR LF
+    pub(crate) fn finish(&mut self) -> Result<Vec<Event>, String> {
+        if self.buffer.ends_with('\r') {
+            return self.parse(b"\n".to_vec());
+        }
+        Ok(Vec::default())
+    }
+
     fn parse_one_event(&mut self) -> Result<Option<Event>, String> {
         if self.buffer.is_empty() {
             return Ok(None);
@@ -171,6 +180,14 @@ impl BodyParser for SseBodyParser {
 
     fn finalize(&mut self) -> Result<(), AttributeError> {
         self.complete = true;
+        let events = self
+            .event_parser
+            .finish()
+            .map_err(|e| AttributeError::Parse(format!("SSE parse error: {e}")))?;
+        for event in events {
+            self.push_event(event);
+        }
+
         let penultimate = match &self.last_two_events[1] {
             Some(event) => &event.data,
             None => return Ok(()),
diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/token_usage.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/token_usage.rs
index 4de1de6..b4f757d 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/token_usage.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/token_usage.rs
@@ -172,6 +172,11 @@ impl ExtractionStrategy for SseStrategy {
     }
 
     fn extract_property(&mut self, prop: &str) -> Option<Value> {
+        if let Ok(events) = self.event_parser.finish() {
+            for event in events {
+                self.push_event(event);
+            }
+        }
         if self.parsed_json.is_none() {
             if let Some(event) = &self.last_two_events[1] {
                 if let Ok(json) = serde_json::from_str::<Value>(&event.data) {
-- 
2.43.0


From 8e3738e381d4c79f03f51c12c5c284b275628f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:10 +0000
Subject: [PATCH 14/52] fix: let responseBodyJSON yield null where the body
 says null

---
 .../kuadrant-filter/src/kuadrant/pipeline/tasks/token_usage.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/token_usage.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/token_usage.rs
index b4f757d..e11310f 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/token_usage.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/token_usage.rs
@@ -106,7 +106,8 @@ impl Task for TokenUsageTask {
                             }
                         }
                         Value::String(s) => ctx.response_body.set_value(field, s),
-                        Value::Null | Value::Array(_) | Value::Object(_) => {
+                        Value::Null => ctx.response_body.set_value(field, cel::Value::Null),
+                        Value::Array(_) | Value::Object(_) => {
                             warn!("Unsupported json value type: {:?}", json_value);
                         }
                     }
-- 
2.43.0


From 7e790bb10b35365b429b02bd6f37c85a821954a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:36 +0000
Subject: [PATCH 15/52] fix: count code points and honour offsets in charAt,
 indexOf and lastIndexOf

---
 .../kuadrant-filter/src/data/cel/strings.rs   | 137 ++++++++++--------
 1 file changed, 76 insertions(+), 61 deletions(-)

diff --git a/crates/kuadrant-filter/src/data/cel/strings.rs b/crates/kuadrant-filter/src/data/cel/strings.rs
index e86416b..5fd8db7 100644
--- a/crates/kuadrant-filter/src/data/cel/strings.rs
+++ b/crates/kuadrant-filter/src/data/cel/strings.rs
@@ -3,12 +3,16 @@ use cel::{ExecutionError, ResolveResult, Value};
 use std::sync::Arc;
 
 pub fn char_at(This(this): This<Arc<String>>, arg: i64) -> ResolveResult {
-    match this.chars().nth(arg as usize) {
-        None => Err(ExecutionError::FunctionError {
+    let length = this.chars().count();
+    match usize::try_from(arg) {
+        Ok(index) if index == length => Ok("".into()),
+        Ok(index) if index < length => {
+            Ok(this.chars().skip(index).take(1).collect::<String>().into())
+        }
+        _ => Err(ExecutionError::FunctionError {
             function: "String.charAt".to_owned(),
             message: format!("No index {arg} on `{this}`"),
         }),
-        Some(c) => Ok(c.to_string().into()),
     }
 }
 
@@ -17,38 +21,39 @@ pub fn index_of(
     arg: Arc<String>,
     Arguments(args): Arguments,
 ) -> ResolveResult {
-    match args.len() {
-        1 => match this.find(&*arg) {
-            None => Ok((-1).into()),
-            Some(idx) => Ok((idx as u64).into()),
-        },
-        2 => {
-            let base = match args[1] {
-                Value::Int(i) => i as usize,
-                Value::UInt(u) => u as usize,
-                _ => {
-                    return Err(ExecutionError::FunctionError {
-                        function: "String.indexOf".to_owned(),
-                        message: format!(
-                            "Expects 2nd argument to be an Integer, got `{:?}`",
-                            args[1]
-                        ),
-                    })
-                }
-            };
-            if base >= this.len() {
-                return Ok((-1).into());
-            }
-            match this[base..].find(&*arg) {
-                None => Ok((-1).into()),
-                Some(idx) => Ok(Value::UInt((base + idx) as u64)),
+    let base = match args.len() {
+        1 => 0,
+        2 => match position(&args[1]) {
+            Some(base) => base,
+            None => {
+                return Err(ExecutionError::FunctionError {
+                    function: "String.indexOf".to_owned(),
+                    message: format!(
+                        "Expects 2nd argument to be a non-negative Integer, got `{:?}`",
+                        args[1]
+                    ),
+                })
             }
+        },
+        _ => {
+            return Err(ExecutionError::FunctionError {
+                function: "String.indexOf".to_owned(),
+                message: format!("Expects 2 arguments at most, got `{args:?}`!"),
+            })
         }
-        _ => Err(ExecutionError::FunctionError {
-            function: "String.indexOf".to_owned(),
-            message: format!("Expects 2 arguments at most, got `{args:?}`!"),
-        }),
+    };
+    if args.len() == 2 && base >= this.chars().count() {
+        return Ok(Value::Int(-1));
     }
+    let idx = this
+        .char_indices()
+        .map(|(offset, _)| offset)
+        .chain(std::iter::once(this.len()))
+        .enumerate()
+        .skip(base)
+        .find(|(_, offset)| this[*offset..].starts_with(&*arg))
+        .map_or(-1, |(idx, _)| idx as i64);
+    Ok(Value::Int(idx))
 }
 
 pub fn last_index_of(
@@ -56,37 +61,47 @@ pub fn last_index_of(
     arg: Arc<String>,
     Arguments(args): Arguments,
 ) -> ResolveResult {
-    match args.len() {
-        1 => match this.rfind(&*arg) {
-            None => Ok((-1).into()),
-            Some(idx) => Ok((idx as u64).into()),
-        },
-        2 => {
-            let base = match args[1] {
-                Value::Int(i) => i as usize,
-                Value::UInt(u) => u as usize,
-                _ => {
-                    return Err(ExecutionError::FunctionError {
-                        function: "String.lastIndexOf".to_owned(),
-                        message: format!(
-                            "Expects 2nd argument to be an Integer, got `{:?}`",
-                            args[1]
-                        ),
-                    })
-                }
-            };
-            if base >= this.len() {
-                return Ok((-1).into());
-            }
-            match this[base..].rfind(&*arg) {
-                None => Ok((-1).into()),
-                Some(idx) => Ok(Value::UInt(idx as u64)),
+    let length = this.chars().count();
+    let base = match args.len() {
+        1 => length,
+        2 => match position(&args[1]) {
+            Some(base) if base >= length => return Ok(Value::Int(-1)),
+            Some(base) => base,
+            None => {
+                return Err(ExecutionError::FunctionError {
+                    function: "String.lastIndexOf".to_owned(),
+                    message: format!(
+                        "Expects 2nd argument to be a non-negative Integer, got `{:?}`",
+                        args[1]
+                    ),
+                })
             }
+        },
+        _ => {
+            return Err(ExecutionError::FunctionError {
+                function: "String.lastIndexOf".to_owned(),
+                message: format!("Expects 2 arguments at most, got `{args:?}`!"),
+            })
         }
-        _ => Err(ExecutionError::FunctionError {
-            function: "String.lastIndexOf".to_owned(),
-            message: format!("Expects 2 arguments at most, got `{args:?}`!"),
-        }),
+    };
+    let idx = this
+        .char_indices()
+        .map(|(offset, _)| offset)
+        .chain(std::iter::once(this.len()))
+        .enumerate()
+        .take(base.saturating_add(1))
+        .filter(|(_, offset)| this[*offset..].starts_with(&*arg))
+        .last()
+        .map_or(-1, |(idx, _)| idx as i64);
+    Ok(Value::Int(idx))
+}
+
+/// The argument as an offset in code points
+fn position(arg: &Value) -> Option<usize> {
+    match arg {
+        Value::Int(i) => usize::try_from(*i).ok(),
+        Value::UInt(u) => usize::try_from(*u).ok(),
+        _ => None,
     }
 }
 
-- 
2.43.0


From c512d45bed4949b684d1650e4ee6b2c2e557fda6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:55 +0000
Subject: [PATCH 16/52] fix: refuse a substring range that is out of bounds

---
 .../kuadrant-filter/src/data/cel/strings.rs   | 22 +++++++++----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/crates/kuadrant-filter/src/data/cel/strings.rs b/crates/kuadrant-filter/src/data/cel/strings.rs
index 5fd8db7..a99f458 100644
--- a/crates/kuadrant-filter/src/data/cel/strings.rs
+++ b/crates/kuadrant-filter/src/data/cel/strings.rs
@@ -236,9 +236,9 @@ pub fn split(This(this): This<Arc<String>>, Arguments(args): Arguments) -> Resol
 pub fn substring(This(this): This<Arc<String>>, Arguments(args): Arguments) -> ResolveResult {
     match args.len() {
         count @ 1..=2 => {
+            let length = this.chars().count();
             let start = match &args[0] {
-                Value::Int(i) => *i as usize,
-                Value::UInt(u) => *u as usize,
+                Value::Int(_) | Value::UInt(_) => position(&args[0]),
                 _ => Err(ExecutionError::FunctionError {
                     function: "String.substring".to_string(),
                     message: format!(
@@ -249,25 +249,25 @@ pub fn substring(This(this): This<Arc<String>>, Arguments(args): Arguments) -> R
             };
             let end = if count == 2 {
                 match &args[1] {
-                    Value::Int(i) => *i as usize,
-                    Value::UInt(u) => *u as usize,
+                    Value::Int(_) | Value::UInt(_) => position(&args[1]),
                     _ => Err(ExecutionError::FunctionError {
                         function: "String.substring".to_string(),
                         message: format!(
                             "Expects a second argument of type Integer, got `{:?}`",
-                            args[0]
+                            args[1]
                         ),
                     })?,
                 }
             } else {
-                this.chars().count()
+                Some(length)
             };
-            if end < start {
-                Err(ExecutionError::FunctionError {
+            let (start, end) = match (start, end) {
+                (Some(start), Some(end)) if start <= end && end <= length => (start, end),
+                _ => Err(ExecutionError::FunctionError {
                     function: "String.substring".to_string(),
-                    message: format!("Can't have end be before the start: `{end} < {start}"),
-                })?
-            }
+                    message: format!("Invalid range {args:?} for a string of length {length}"),
+                })?,
+            };
             Ok(this
                 .chars()
                 .skip(start)
-- 
2.43.0


From 5636495bd675f8133b15ecbe4c16e1fc2d19cad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:55 +0000
Subject: [PATCH 17/52] fix: compare header names without regard to case

---
 crates/kuadrant-filter/src/data/headers.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/kuadrant-filter/src/data/headers.rs b/crates/kuadrant-filter/src/data/headers.rs
index 53554ca..2f20322 100644
--- a/crates/kuadrant-filter/src/data/headers.rs
+++ b/crates/kuadrant-filter/src/data/headers.rs
@@ -14,18 +14,18 @@ impl Headers {
     }
 
     pub fn set(&mut self, key: String, value: String) {
-        self.0.retain(|(k, _)| k != &key);
+        self.0.retain(|(k, _)| !k.eq_ignore_ascii_case(&key));
         self.0.push((key, value));
     }
 
     pub fn remove(&mut self, key: &str) {
-        self.0.retain(|(k, _)| k != key);
+        self.0.retain(|(k, _)| !k.eq_ignore_ascii_case(key));
     }
 
     pub fn get_all(&self, key: &str) -> Vec<&str> {
         self.0
             .iter()
-            .filter(|(k, _)| k == key)
+            .filter(|(k, _)| k.eq_ignore_ascii_case(key))
             .map(|(_, v)| v.as_str())
             .collect()
     }
@@ -33,7 +33,7 @@ impl Headers {
     pub fn get(&self, key: &str) -> Option<&str> {
         self.0
             .iter()
-            .find(|(k, _)| k == key)
+            .find(|(k, _)| k.eq_ignore_ascii_case(key))
             .map(|(_, v)| v.as_str())
     }
 
-- 
2.43.0


From 004e251a5dc5e9ec1c2e09cd9981d427afefb15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:11 +0000
Subject: [PATCH 18/52] fix: tell the port from an IPv6 client address

---
 crates/kuadrant-filter/src/kuadrant/context.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/kuadrant-filter/src/kuadrant/context.rs b/crates/kuadrant-filter/src/kuadrant/context.rs
index e683b74..bc31d74 100644
--- a/crates/kuadrant-filter/src/kuadrant/context.rs
+++ b/crates/kuadrant-filter/src/kuadrant/context.rs
@@ -237,8 +237,12 @@ impl ReqRespCtx {
         match self.backend.get_attribute(&"source.address".into()) {
             Ok(Some(host_vec)) => match String::from_utf8(host_vec) {
                 Ok(source_address) => {
-                    let split_address = source_address.split(':').collect::<Vec<_>>();
-                    Ok(Some(split_address[0].as_bytes().to_vec()))
+                    // an IPv6 address is in brackets: [::1]:8080
+                    let address = match source_address.strip_prefix('[') {
+                        Some(bracketed) => bracketed.split(']').next(),
+                        None => source_address.split(':').next(),
+                    };
+                    Ok(address.map(|address| address.as_bytes().to_vec()))
                 }
                 Err(_) => Err(AttributeError::Parse(
                     "source.address not valid UTF-8".to_string(),
-- 
2.43.0


From 89bd0b0f5de9acf49fe0b7d854c79691fe542a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:18 +0000
Subject: [PATCH 19/52] fix: put a request id with quotes on the response as it
 is

---
 crates/kuadrant-filter/src/kuadrant/pipeline/blueprint.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/blueprint.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/blueprint.rs
index 52910d7..066a9be 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/blueprint.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/blueprint.rs
@@ -106,10 +106,12 @@ impl Action {
                         ctx.set_public_tracker_id(var.clone());
                         #[allow(clippy::expect_used)]
                         let predicate = Predicate::new("true").expect("Needs to be valid!");
+                        // the client chose the id, it may contain any character
+                        let request_id =
+                            ctx.request_id().replace('\\', "\\\\").replace('\'', "\\'");
                         #[allow(clippy::expect_used)]
-                        let headers_expr =
-                            Expression::new(&format!("[['{var}', '{}']]", ctx.request_id()))
-                                .expect("Needs to be valid CEL!");
+                        let headers_expr = Expression::new(&format!("[['{var}', '{request_id}']]"))
+                            .expect("Needs to be valid CEL!");
                         Some(Box::new(ModifyHeadersTask::new(
                             self.id.clone(),
                             predicate,
-- 
2.43.0


From 12e7be41abf50da7f098314105cc57988d9de684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:30 +0000
Subject: [PATCH 20/52] fix: let a service leave out its failureMode, which is
 deny by default

---
 crates/kuadrant-filter/src/configuration.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/kuadrant-filter/src/configuration.rs b/crates/kuadrant-filter/src/configuration.rs
index 90cff37..78d7c5d 100644
--- a/crates/kuadrant-filter/src/configuration.rs
+++ b/crates/kuadrant-filter/src/configuration.rs
@@ -242,6 +242,7 @@ pub struct Service {
     pub service_type: ServiceType,
     pub endpoint: String,
     // Deny/Allow request when faced with an irrecoverable failure.
+    #[serde(default)]
     pub failure_mode: FailureMode,
     #[serde(default)]
     pub timeout: Timeout,
-- 
2.43.0


From ff039229e59ce7cf1d59825c7e1952cf3827aa4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:30 +0000
Subject: [PATCH 21/52] fix: let expressions see the connection and other
 attributes of the proxy

---
 crates/kuadrant-filter/src/data/cel.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/kuadrant-filter/src/data/cel.rs b/crates/kuadrant-filter/src/data/cel.rs
index e5822cc..9c66ec8 100644
--- a/crates/kuadrant-filter/src/data/cel.rs
+++ b/crates/kuadrant-filter/src/data/cel.rs
@@ -253,7 +253,7 @@ impl Expression {
 
         for (key, value) in map.iter() {
             if let Key::String(name) = key {
-                if *key != request_key && !is_host_property_root(name) {
+                if *key != request_key {
                     cel_ctx.add_variable_from_value(name.as_str(), value.clone());
                 }
             }
-- 
2.43.0


From b19a7fa3fa0f186df0d584fc4dd1475f7fa25533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:19 +0000
Subject: [PATCH 22/52] fix: tell the port from an IPv6 host

---
 .../kuadrant-filter/src/kuadrant/pipeline/factory.rs   | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/factory.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/factory.rs
index ee5aa79..c6d2d4b 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/factory.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/factory.rs
@@ -200,7 +200,15 @@ impl PipelineFactory {
     fn get_hostname(&self, ctx: &ReqRespCtx) -> Result<String, BuildError> {
         match ctx.get_attribute::<String>("request.host") {
             Ok(AttributeState::Available(Some(host))) => {
-                let split_host = host.split_once(':').map_or(host.as_str(), |(h, _)| h);
+                // the colons within the brackets of an IPv6 address don't precede a port
+                let address_end = if host.starts_with('[') {
+                    host.find(']').unwrap_or_default()
+                } else {
+                    0
+                };
+                let split_host = host[address_end..]
+                    .find(':')
+                    .map_or(host.as_str(), |i| &host[..address_end + i]);
                 Ok(split_host.to_ascii_lowercase())
             }
             Ok(AttributeState::Available(None)) => Err(BuildError::EvaluationError(
-- 
2.43.0


From 38c62a5de7345a0bb81c2854d4622d8d27ae1c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:20 +0000
Subject: [PATCH 23/52] fix: don't take a host with a $ for the exact name
 behind it

---
 crates/kuadrant-filter/src/kuadrant/pipeline/factory.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/factory.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/factory.rs
index c6d2d4b..a6f1ff0 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/factory.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/factory.rs
@@ -240,7 +240,8 @@ impl PipelineFactory {
 }
 
 fn reverse_subdomain(subdomain: &str) -> String {
-    let mut s = subdomain.to_string();
+    // '$' marks where an exact name starts, a host must not bring its own
+    let mut s = subdomain.replace('$', "/");
     s.push('.');
     if s.starts_with('*') {
         s.remove(0);
-- 
2.43.0


From c943bc938a20fa97d5d60eef0aaefc731fedd77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:46 +0000
Subject: [PATCH 24/52] fix: enter the request span only while the request's
 tasks run

---
 .../kuadrant-filter/src/kuadrant/context.rs   | 21 +++++++++++++------
 .../src/kuadrant/pipeline/executor.rs         | 11 ++++++++--
 .../kuadrant/pipeline/tasks/export_traces.rs  |  2 +-
 3 files changed, 25 insertions(+), 9 deletions(-)

diff --git a/crates/kuadrant-filter/src/kuadrant/context.rs b/crates/kuadrant-filter/src/kuadrant/context.rs
index bc31d74..c2e4f65 100644
--- a/crates/kuadrant-filter/src/kuadrant/context.rs
+++ b/crates/kuadrant-filter/src/kuadrant/context.rs
@@ -68,7 +68,7 @@ impl ReqRespCtx {
         }
     }
 
-    pub fn enter_request_span(&mut self) {
+    pub fn start_request_span(&mut self) {
         let span = tracing::info_span!(
             "kuadrant_filter",
             action_set = tracing::field::Empty,
@@ -86,12 +86,21 @@ impl ReqRespCtx {
             if let Some(hostname) = &self.tracing.hostname {
                 span.record("hostname", hostname.as_str());
             }
-            self.tracing.request_span_guard = Some(span.entered());
+            self.tracing.request_span = Some(span);
         }
     }
 
+    /// The span of this request, to be entered while its tasks run. It must not
+    /// stay entered between callbacks, where other requests are processed.
+    pub fn request_span(&self) -> tracing::Span {
+        self.tracing
+            .request_span
+            .clone()
+            .unwrap_or_else(tracing::Span::none)
+    }
+
     pub fn end_request_span(&mut self) {
-        std::mem::drop(self.tracing.request_span_guard.take());
+        std::mem::drop(self.tracing.request_span.take());
     }
 
     pub fn set_action_set_name(&mut self, name: String) {
@@ -347,7 +356,7 @@ impl ReqRespCtx {
     fn get_tracing_headers(&self) -> Vec<(String, Vec<u8>)> {
         let mut headers = Vec::new();
 
-        let context = if self.tracing.request_span_guard.is_some() {
+        let context = if self.tracing.request_span.is_some() {
             &tracing::Span::current().context()
         } else {
             &self.tracing.otel_context
@@ -415,7 +424,7 @@ impl Tracker {
 
 struct TracingContext {
     otel_context: opentelemetry::Context,
-    request_span_guard: Option<tracing::span::EnteredSpan>,
+    request_span: Option<tracing::Span>,
     action_set_name: Option<String>,
     hostname: Option<String>,
 }
@@ -424,7 +433,7 @@ impl Default for TracingContext {
     fn default() -> Self {
         Self {
             otel_context: opentelemetry::Context::new(),
-            request_span_guard: None,
+            request_span: None,
             action_set_name: None,
             hostname: None,
         }
diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs
index 5702fa5..285dfcb 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs
@@ -106,6 +106,7 @@ impl Pipeline {
     }
 
     fn process_tasks(&mut self, tasks: Vec<Box<dyn Task>>) -> ProcessOutcome {
+        let _request_span = self.ctx.request_span().entered();
         for task in tasks {
             if task
                 .dependencies()
@@ -177,7 +178,11 @@ impl Pipeline {
                 Err(err) => error!("Failed to set gRPC response data: {}", err),
             };
             let task_id = pending.id().to_string();
-            match pending.apply(&mut self.ctx) {
+            let outcome = self
+                .ctx
+                .request_span()
+                .in_scope(|| pending.apply(&mut self.ctx));
+            match outcome {
                 TaskOutcome::Done => {
                     self.completed_tasks.insert(task_id);
                 }
@@ -198,7 +203,9 @@ impl Pipeline {
                     self.completed_tasks.insert(task_id);
                 }
                 TaskOutcome::Terminate(terminal_task) => {
-                    terminal_task.apply(&mut self.ctx);
+                    self.ctx
+                        .request_span()
+                        .in_scope(|| terminal_task.apply(&mut self.ctx));
                     self.task_queue.clear();
                     self.terminated = true;
                     self.execute_teardown();
diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/export_traces.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/export_traces.rs
index e88cc88..5dd10a4 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/export_traces.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/export_traces.rs
@@ -10,7 +10,7 @@ pub struct ExportTracesTask {
 
 impl ExportTracesTask {
     pub fn new(ctx: &mut ReqRespCtx, service: Arc<TracingService>) -> Self {
-        ctx.enter_request_span();
+        ctx.start_request_span();
         Self { service }
     }
 }
-- 
2.43.0


From 857b72d854bb07063f816eaeb90487fe11778bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:32 +0000
Subject: [PATCH 25/52] fix: put a request id with control characters on the
 response

---
 .../src/kuadrant/pipeline/blueprint.rs        | 20 ++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/blueprint.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/blueprint.rs
index 066a9be..845aa0f 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/blueprint.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/blueprint.rs
@@ -107,10 +107,10 @@ impl Action {
                         #[allow(clippy::expect_used)]
                         let predicate = Predicate::new("true").expect("Needs to be valid!");
                         // the client chose the id, it may contain any character
-                        let request_id =
-                            ctx.request_id().replace('\\', "\\\\").replace('\'', "\\'");
+                        let header = cel_string(var);
+                        let request_id = cel_string(ctx.request_id());
                         #[allow(clippy::expect_used)]
-                        let headers_expr = Expression::new(&format!("[['{var}', '{request_id}']]"))
+                        let headers_expr = Expression::new(&format!("[[{header}, {request_id}]]"))
                             .expect("Needs to be valid CEL!");
                         Some(Box::new(ModifyHeadersTask::new(
                             self.id.clone(),
@@ -286,6 +286,20 @@ impl Display for CompileError {
     }
 }
 
+/// A CEL literal for any string.
+fn cel_string(value: &str) -> String {
+    let mut literal = String::from("'");
+    for c in value.chars() {
+        if c.is_ascii_alphanumeric() || c == '-' {
+            literal.push(c);
+        } else {
+            literal.push_str(&format!("\\U{:08x}", u32::from(c)));
+        }
+    }
+    literal.push('\'');
+    literal
+}
+
 impl Blueprint {
     pub fn compile(
         config: &configuration::ActionSet,
-- 
2.43.0


From 3034687cc1ddd58e4c3d7743e564a8060dee828e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:29 +0000
Subject: [PATCH 26/52] fix: end the processing of a request with its response

---
 .../src/kuadrant/pipeline/executor.rs                | 12 ++++++++++++
 crates/wasm-shim/src/filter/kuadrant_filter.rs       | 10 ++++++++--
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs
index 285dfcb..f5b9738 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs
@@ -26,6 +26,7 @@ pub struct Pipeline {
     completed_tasks: HashSet<String>,
     teardown_tasks: Vec<Box<dyn TeardownAction>>,
     terminated: bool,
+    response_ended: bool,
 }
 
 impl From<Pipeline> for PipelineState {
@@ -49,6 +50,7 @@ impl Pipeline {
             completed_tasks: HashSet::new(),
             teardown_tasks: Vec::new(),
             terminated: false,
+            response_ended: false,
         }
     }
 
@@ -66,6 +68,11 @@ impl Pipeline {
         self.terminated
     }
 
+    /// No more data will arrive, apart from gRPC responses.
+    pub fn end_response(&mut self) {
+        self.response_ended = true;
+    }
+
     fn replace_deferred_with_noop(&mut self) {
         // map existing deferred tasks to no-op consumers
         let deferred = std::mem::take(&mut self.deferred_tasks);
@@ -157,6 +164,11 @@ impl Pipeline {
             ProcessOutcome::Continue => {}
         }
 
+        if self.response_ended && self.deferred_tasks.is_empty() {
+            // what the remaining tasks are waiting for will not arrive anymore
+            self.task_queue.clear();
+        }
+
         if self.task_queue.is_empty()
             && self.deferred_tasks.is_empty()
             && !self.teardown_tasks.is_empty()
diff --git a/crates/wasm-shim/src/filter/kuadrant_filter.rs b/crates/wasm-shim/src/filter/kuadrant_filter.rs
index f3139f1..f8232c8 100644
--- a/crates/wasm-shim/src/filter/kuadrant_filter.rs
+++ b/crates/wasm-shim/src/filter/kuadrant_filter.rs
@@ -182,11 +182,14 @@ impl HttpContext for KuadrantFilter {
         }
     }
 
-    fn on_http_response_headers(&mut self, _num_headers: usize, _end_of_stream: bool) -> Action {
+    fn on_http_response_headers(&mut self, _num_headers: usize, end_of_stream: bool) -> Action {
         debug!("#{} on_http_response_headers", self.context_id);
         METRICS.allowed().increment();
         self.in_response_phase = true;
-        if let Some(pipeline) = self.pipeline.take() {
+        if let Some(mut pipeline) = self.pipeline.take() {
+            if end_of_stream {
+                pipeline.end_response();
+            }
             match pipeline.eval() {
                 PipelineState::InProgress(p) => {
                     self.pipeline = Some(*p);
@@ -212,6 +215,9 @@ impl HttpContext for KuadrantFilter {
                 .ctx
                 .response_body
                 .set_buffer_size(buffer_size, end_of_stream);
+            if end_of_stream {
+                pipeline.end_response();
+            }
             match pipeline.eval() {
                 PipelineState::InProgress(p) => {
                     self.pipeline = Some(*p);
-- 
2.43.0


From 3b057dad14798051cb7aa8f787fad96ab4614bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:42 +0000
Subject: [PATCH 27/52] fix: let an action run as soon as a later one stored
 what it waits for

---
 .../src/kuadrant/pipeline/executor.rs         | 23 ++++++++++++-------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs
index f5b9738..922f906 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs
@@ -15,7 +15,7 @@ pub enum PipelineState {
 }
 
 enum ProcessOutcome {
-    Continue,
+    Continue { progressed: bool },
     Terminated,
 }
 
@@ -114,6 +114,7 @@ impl Pipeline {
 
     fn process_tasks(&mut self, tasks: Vec<Box<dyn Task>>) -> ProcessOutcome {
         let _request_span = self.ctx.request_span().entered();
+        let mut progressed = false;
         for task in tasks {
             if task
                 .dependencies()
@@ -127,6 +128,7 @@ impl Pipeline {
             let task_id = task.id().to_string();
             match task.apply(&mut self.ctx) {
                 TaskOutcome::Done => {
+                    progressed = true;
                     self.completed_tasks.insert(task_id);
                 }
                 TaskOutcome::Deferred { token_id, pending } => {
@@ -141,6 +143,7 @@ impl Pipeline {
                     // todo(refactor): error handling
                     error!("Task failed: {:?}", task_id);
                     // it will not run again, don't hold up what waits for it
+                    progressed = true;
                     self.completed_tasks.insert(task_id);
                 }
                 TaskOutcome::Terminate(terminal_task) => {
@@ -151,17 +154,21 @@ impl Pipeline {
                 }
             }
         }
-        ProcessOutcome::Continue
+        ProcessOutcome::Continue { progressed }
     }
 
     pub fn eval(mut self) -> PipelineState {
-        let tasks = self.task_queue.drain(..).collect();
-        match self.process_tasks(tasks) {
-            ProcessOutcome::Terminated => {
-                self.execute_teardown();
-                return self.into();
+        // a task may be waiting for what a later one stores
+        let mut progressed = true;
+        while progressed && !self.task_queue.is_empty() {
+            let tasks = self.task_queue.drain(..).collect();
+            match self.process_tasks(tasks) {
+                ProcessOutcome::Terminated => {
+                    self.execute_teardown();
+                    return self.into();
+                }
+                ProcessOutcome::Continue { progressed: p } => progressed = p,
             }
-            ProcessOutcome::Continue => {}
         }
 
         if self.response_ended && self.deferred_tasks.is_empty() {
-- 
2.43.0


From da5fd09d28200ff40e9b9c0a41cc97bc035bc099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:21 +0000
Subject: [PATCH 28/52] fix: take no fields of computed values for attributes

---
 crates/kuadrant-filter/src/data/cel.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/crates/kuadrant-filter/src/data/cel.rs b/crates/kuadrant-filter/src/data/cel.rs
index 9c66ec8..6087e8c 100644
--- a/crates/kuadrant-filter/src/data/cel.rs
+++ b/crates/kuadrant-filter/src/data/cel.rs
@@ -855,10 +855,10 @@ fn properties<'e>(
                     request_props.push(prop.to_string());
                 }
             }
+            // fields selected from a computed value are no attributes
+            path.clear();
             if let Some(target) = &call.target {
                 properties(target, all, request_props, response_props, path);
-            } else {
-                path.clear();
             }
             for arg in &call.args {
                 properties(arg, all, request_props, response_props, path);
@@ -876,11 +876,13 @@ fn properties<'e>(
             }
         }
         Expr::List(list) => {
+            path.clear();
             for elem in &list.elements {
                 properties(elem, all, request_props, response_props, path);
             }
         }
         Expr::Map(map) => {
+            path.clear();
             for entry in &map.entries {
                 match &entry.expr {
                     EntryExpr::MapEntry(map_entry) => {
@@ -894,6 +896,7 @@ fn properties<'e>(
             }
         }
         Expr::Struct(struct_expr) => {
+            path.clear();
             for entry in &struct_expr.entries {
                 if let EntryExpr::StructField(field) = &entry.expr {
                     properties(&field.value, all, request_props, response_props, path);
@@ -901,13 +904,14 @@ fn properties<'e>(
             }
         }
         Expr::Comprehension(comp) => {
+            path.clear();
             properties(&comp.iter_range, all, request_props, response_props, path);
             properties(&comp.accu_init, all, request_props, response_props, path);
             properties(&comp.loop_cond, all, request_props, response_props, path);
             properties(&comp.loop_step, all, request_props, response_props, path);
             properties(&comp.result, all, request_props, response_props, path);
         }
-        Expr::Literal(_) | Expr::Unspecified => {}
+        Expr::Literal(_) | Expr::Unspecified => path.clear(),
     }
 }
 
-- 
2.43.0


From 80f1a66be6ba0f8bec7a3b59647db00171fecc82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:37 +0000
Subject: [PATCH 29/52] fix: read single request headers as strings

---
 crates/kuadrant-filter/src/data/cel.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/kuadrant-filter/src/data/cel.rs b/crates/kuadrant-filter/src/data/cel.rs
index 6087e8c..98f0cd6 100644
--- a/crates/kuadrant-filter/src/data/cel.rs
+++ b/crates/kuadrant-filter/src/data/cel.rs
@@ -696,6 +696,12 @@ impl Attribute {
 
 pub fn known_attribute_for(path: &Path) -> Option<Attribute> {
     static WELL_KNOWN_ATTRIBUTES: OnceLock<HashMap<Path, ValueType>> = OnceLock::new();
+    if let ["request", "headers", _] = path.tokens()[..] {
+        return Some(Attribute {
+            path: path.clone(),
+            cel_type: Some(ValueType::String),
+        });
+    }
     WELL_KNOWN_ATTRIBUTES
         .get_or_init(new_well_known_attribute_map)
         .get(path)
-- 
2.43.0


From d13e40a5a2343fb65e023c57ef2dbb70e3ab9d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:59 +0000
Subject: [PATCH 30/52] fix: take only gRPC content types for gRPC

---
 crates/kuadrant-filter/src/data/grpc.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/kuadrant-filter/src/data/grpc.rs b/crates/kuadrant-filter/src/data/grpc.rs
index 4f09bbd..9adecb1 100644
--- a/crates/kuadrant-filter/src/data/grpc.rs
+++ b/crates/kuadrant-filter/src/data/grpc.rs
@@ -1,6 +1,8 @@
 /// Returns `true` if the content-type indicates a gRPC request.
 pub(crate) fn is_grpc_content_type(content_type: &str) -> bool {
-    content_type.starts_with("application/grpc")
+    content_type
+        .strip_prefix("application/grpc")
+        .is_some_and(|rest| rest.is_empty() || rest.starts_with(['+', ';']))
 }
 
 /// Parses a gRPC path of the form `/Service/Method`.
-- 
2.43.0


From d2923e29396d17e1071a4c0ae0913629f1602b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:25 +0000
Subject: [PATCH 31/52] fix: let a refused configuration leave span collection
 as it was

---
 crates/wasm-shim/src/filter/root_context.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/crates/wasm-shim/src/filter/root_context.rs b/crates/wasm-shim/src/filter/root_context.rs
index b2ae6e7..a7a9f8b 100644
--- a/crates/wasm-shim/src/filter/root_context.rs
+++ b/crates/wasm-shim/src/filter/root_context.rs
@@ -9,7 +9,7 @@ use proxy_wasm::traits::{Context, HttpContext, RootContext};
 use proxy_wasm::types::ContextType;
 use std::sync::Arc;
 use std::time::Duration;
-use tracing::{debug, error, info};
+use tracing::{debug, error};
 
 const WASM_SHIM_HEADER: &str = "Kuadrant wasm module";
 
@@ -48,15 +48,22 @@ impl FilterRoot {
 
     fn process_config(&mut self, config: PluginConfiguration) -> bool {
         let descriptor_service = config.descriptor_service.clone();
+        let observability = config.observability.clone();
 
         let factory = match PipelineFactory::try_from(config, &self.descriptor_manager) {
             Ok(f) => f,
             Err(err) => {
-                error!("failed to compile plugin config: {:?}", err);
+                log::error!("failed to compile plugin config: {:?}", err);
                 return false;
             }
         };
 
+        kuadrant_filter::tracing::init_observability(
+            observability.tracing.is_some(),
+            observability.default_level.as_deref(),
+            crate::wasm_host::current_log_filter(),
+        );
+
         self.pipeline_factory = Arc::new(factory);
         self.descriptor_manager
             .set_descriptor_service(&descriptor_service);
@@ -142,14 +149,7 @@ impl RootContext for FilterRoot {
         };
         match serde_json::from_slice::<PluginConfiguration>(&configuration) {
             Ok(config) => {
-                let use_tracing_exporter = config.observability.tracing.is_some();
-                kuadrant_filter::tracing::init_observability(
-                    use_tracing_exporter,
-                    config.observability.default_level.as_deref(),
-                    crate::wasm_host::current_log_filter(),
-                );
-
-                info!("plugin config parsed: {:?}", config);
+                log::info!("plugin config parsed: {:?}", config);
                 self.process_config(config)
             }
             Err(e) => {
-- 
2.43.0


From c952ab03738bcae64eed6c82ae9171b566069560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:10 +0000
Subject: [PATCH 32/52] fix: wait for values stored at a path of one segment

---
 crates/kuadrant-filter/src/data/cel.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/crates/kuadrant-filter/src/data/cel.rs b/crates/kuadrant-filter/src/data/cel.rs
index 98f0cd6..d9ac31d 100644
--- a/crates/kuadrant-filter/src/data/cel.rs
+++ b/crates/kuadrant-filter/src/data/cel.rs
@@ -104,6 +104,8 @@ pub(crate) mod errors {
 #[derive(Clone, Debug)]
 pub struct Expression {
     attributes: Vec<Attribute>,
+    // names read as a whole, such as values stored under them
+    variables: Vec<String>,
     request_body_values: Vec<String>,
     response_body_values: Vec<String>,
     expression: CelExpression,
@@ -169,6 +171,10 @@ impl Expression {
             &mut Vec::default(),
         );
 
+        let (variables, props): (Vec<_>, Vec<_>) =
+            props.into_iter().partition(|tokens| tokens.len() == 1);
+        let variables = variables.concat().into_iter().map(String::from).collect();
+
         let mut needs_grpc = false;
         let mut attributes: Vec<Attribute> = props
             .into_iter()
@@ -189,6 +195,7 @@ impl Expression {
 
         Ok(Self {
             attributes,
+            variables,
             request_body_values: request_props,
             response_body_values: response_props,
             expression,
@@ -259,6 +266,9 @@ impl Expression {
             }
         }
 
+        if self.variables.iter().any(|v| req_ctx.values.is_pending(v)) {
+            return Ok(AttributeState::Pending);
+        }
         for path in req_ctx.values.paths() {
             let root = path.split('.').next().unwrap_or(path);
             if root == path {
@@ -875,11 +885,9 @@ fn properties<'e>(
             properties(&select.operand, all, request_props, response_props, path);
         }
         Expr::Ident(name) => {
-            if !path.is_empty() {
-                path.insert(0, name.as_str());
-                all.push(path.clone());
-                path.clear();
-            }
+            path.insert(0, name.as_str());
+            all.push(path.clone());
+            path.clear();
         }
         Expr::List(list) => {
             path.clear();
-- 
2.43.0


From 4ea8f5d5700786870e3521cfc4cc6d7864fd89a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:09 +0000
Subject: [PATCH 33/52] fix: read header values that are not UTF-8

---
 crates/wasm-shim/src/wasm_host.rs | 45 +++++++++++++++++++++++++++----
 1 file changed, 40 insertions(+), 5 deletions(-)

diff --git a/crates/wasm-shim/src/wasm_host.rs b/crates/wasm-shim/src/wasm_host.rs
index 78750f1..5ca57ba 100644
--- a/crates/wasm-shim/src/wasm_host.rs
+++ b/crates/wasm-shim/src/wasm_host.rs
@@ -42,6 +42,15 @@ fn to_proxy_map_type(map_type: MapType) -> proxy_wasm::types::MapType {
     }
 }
 
+/// Header values are bytes; what is not UTF-8 in them reads as U+FFFD.
+fn header_text(value: &[u8]) -> String {
+    String::from_utf8_lossy(value).into_owned()
+}
+
+fn has_replacement(text: &str) -> bool {
+    text.contains(char::REPLACEMENT_CHARACTER)
+}
+
 impl AttributeResolver for ProxyWasmHost {
     fn get_attribute(&self, path: &Path) -> Result<Option<Vec<u8>>, AttributeError> {
         debug!("Getting property: `{}`", path);
@@ -61,12 +70,15 @@ impl AttributeResolver for ProxyWasmHost {
         map_type: MapType,
     ) -> Result<Vec<(String, String)>, AttributeError> {
         debug!("Getting map: `{:?}`", map_type);
-        match hostcalls::get_map(to_proxy_map_type(map_type)) {
+        match hostcalls::get_map_bytes(to_proxy_map_type(map_type)) {
             Ok(map) if map.is_empty() => Err(AttributeError::NotAvailable(format!(
                 "Map `{:?}` not available in current phase",
                 map_type
             ))),
-            Ok(map) => Ok(map),
+            Ok(map) => Ok(map
+                .into_iter()
+                .map(|(name, value)| (name, header_text(&value)))
+                .collect()),
             Err(err) => Err(AttributeError::Retrieval(format!(
                 "Error getting host map: {err:?}"
             ))),
@@ -79,8 +91,8 @@ impl AttributeResolver for ProxyWasmHost {
         key: &str,
     ) -> Result<Option<String>, AttributeError> {
         debug!("Getting map value: `{:?}[{key}]`", map_type);
-        match hostcalls::get_map_value(to_proxy_map_type(map_type), key) {
-            Ok(value) => Ok(value),
+        match hostcalls::get_map_value_bytes(to_proxy_map_type(map_type), key) {
+            Ok(value) => Ok(value.map(|value| header_text(&value))),
             Err(Status::BadArgument) => Err(AttributeError::NotAvailable(format!(
                 "Map `{map_type:?}` not available in current phase",
             ))),
@@ -106,7 +118,30 @@ impl AttributeResolver for ProxyWasmHost {
         map_type: MapType,
         value: Vec<(&str, &str)>,
     ) -> Result<(), AttributeError> {
-        match hostcalls::set_map(to_proxy_map_type(map_type), value) {
+        let map_type_id = to_proxy_map_type(map_type);
+        // values that are not UTF-8 were read lossily, they are put back as they are
+        let mut raw = if value.iter().any(|(_, text)| has_replacement(text)) {
+            hostcalls::get_map_bytes(map_type_id).unwrap_or_default()
+        } else {
+            Vec::new()
+        };
+        raw.retain(|(_, bytes)| std::str::from_utf8(bytes).is_err());
+        let untouched: Vec<Option<Vec<u8>>> = value
+            .iter()
+            .map(|(name, text)| {
+                raw.iter()
+                    .position(|(n, bytes)| {
+                        n.eq_ignore_ascii_case(name) && header_text(bytes) == *text
+                    })
+                    .map(|i| raw.remove(i).1)
+            })
+            .collect();
+        let value = value
+            .iter()
+            .zip(&untouched)
+            .map(|((name, text), bytes)| (*name, bytes.as_deref().unwrap_or(text.as_bytes())))
+            .collect();
+        match hostcalls::set_map_bytes(map_type_id, value) {
             Ok(_) => Ok(()),
             Err(proxy_wasm::types::Status::BadArgument) => Err(AttributeError::NotAvailable(
                 format!("Map `{:?}` not available in current phase", map_type),
-- 
2.43.0


From a984886b10424095525919071da4d842f0cac35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:23 +0000
Subject: [PATCH 34/52] fix: compare the media type for event streams as a
 whole, without regard to case

---
 crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store.rs | 2 +-
 .../src/kuadrant/pipeline/tasks/store/sse_body_parser.rs    | 6 ++++++
 .../src/kuadrant/pipeline/tasks/token_usage.rs              | 2 +-
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store.rs
index b1beb7d..20a4a54 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store.rs
@@ -103,7 +103,7 @@ impl StoreTask {
                 let is_sse = match ctx.get_attribute_ref::<Headers>(&"response.headers".into()) {
                     Ok(AttributeState::Available(Some(headers))) => headers
                         .get("content-type")
-                        .is_some_and(|ct| ct.contains("text/event-stream")),
+                        .is_some_and(sse_body_parser::is_event_stream),
                     Ok(AttributeState::Available(None)) => false,
                     Ok(AttributeState::Pending) => return Ok(None),
                     Err(e) => {
diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/sse_body_parser.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/sse_body_parser.rs
index 540dbbb..5a4dd28 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/sse_body_parser.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/sse_body_parser.rs
@@ -9,6 +9,12 @@ use sse_line_parser::RawEventLine;
 
 mod sse_line_parser;
 
+/// Whether a response of this content type is an event stream
+pub(crate) fn is_event_stream(content_type: &str) -> bool {
+    let media_type = content_type.split(';').next().unwrap_or_default();
+    media_type.trim().eq_ignore_ascii_case("text/event-stream")
+}
+
 #[derive(Default, PartialEq, Debug)]
 pub struct Event {
     /// The event name if given
diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/token_usage.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/token_usage.rs
index e11310f..bb91f99 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/token_usage.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/token_usage.rs
@@ -125,7 +125,7 @@ impl Task for TokenUsageTask {
 
 fn select_strategy(headers: &Headers) -> Box<dyn ExtractionStrategy> {
     if let Some(ct) = headers.get("content-type") {
-        if ct.contains("text/event-stream") {
+        if sse_body_parser::is_event_stream(ct) {
             Box::new(SseStrategy::new())
         } else {
             Box::new(JsonStrategy::new())
-- 
2.43.0


From e96fa741bb78a0a3f2a45914e57ff30d06278b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:34 +0000
Subject: [PATCH 35/52] fix: take no number of a body that ends within it for a
 field

---
 .../pipeline/tasks/store/json_body_parser.rs  | 26 ++++++++++++++-----
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/json_body_parser.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/json_body_parser.rs
index 3e197cb..b99f9ed 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/json_body_parser.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/json_body_parser.rs
@@ -17,19 +17,22 @@ pub(crate) struct JsonBodyParser {
     strings: Arc<Mutex<HashSet<String>>>,
     extracted: HashMap<String, Value>,
     bytes_consumed: usize,
-    whitespace: Whitespace,
+    scanner: Scanner,
     complete: bool,
 }
 
 /// Replaces line breaks and tabs between tokens by spaces: the parser takes
-/// them for invalid within the objects and arrays that it skips
+/// them for invalid within the objects and arrays that it skips. Counts the
+/// objects and arrays: the parser does not when the body ends with a number
 #[derive(Default)]
-struct Whitespace {
+struct Scanner {
     in_string: bool,
     escaped: bool,
+    /// objects and arrays that are open
+    depth: usize,
 }
 
-impl Whitespace {
+impl Scanner {
     fn normalize(&mut self, chunk: &[u8]) -> Vec<u8> {
         chunk.iter().map(|b| self.normalize_byte(*b)).collect()
     }
@@ -43,6 +46,8 @@ impl Whitespace {
             b'\\' if self.in_string => self.escaped = true,
             b'"' => self.in_string = !self.in_string,
             b'\t' | b'\n' | b'\r' if !self.in_string => return b' ',
+            b'{' | b'[' if !self.in_string => self.depth += 1,
+            b'}' | b']' if !self.in_string => self.depth = self.depth.saturating_sub(1),
             _ => {}
         }
         byte
@@ -104,7 +109,7 @@ impl JsonBodyParser {
             strings,
             extracted: HashMap::new(),
             bytes_consumed: 0,
-            whitespace: Whitespace::default(),
+            scanner: Scanner::default(),
             complete: false,
         })
     }
@@ -126,6 +131,9 @@ impl JsonBodyParser {
                         })?;
                     Value::String(Arc::new(text))
                 } else {
+                    serde_json::from_str::<serde::de::IgnoredAny>(raw_value).map_err(|e| {
+                        AttributeError::Parse(format!("Body field '{field}' is invalid: {e}"))
+                    })?;
                     parse_json_scalar(raw_value)
                 };
                 self.extracted.insert(field.clone(), value);
@@ -145,6 +153,12 @@ impl BodyParser for JsonBodyParser {
             parser
                 .finish()
                 .map_err(|e| AttributeError::Parse(format!("JSON finalize error: {e}")))?;
+            // the parser takes a number at the end for complete
+            if !self.complete && self.scanner.depth > 0 {
+                return Err(AttributeError::Parse(
+                    "JSON finalize error: the body ends early".to_string(),
+                ));
+            }
         }
         self.finalize_extracted()?;
         Ok(())
@@ -169,7 +183,7 @@ impl BodyParser for JsonBodyParser {
             None => return Err(AttributeError::Parse("Parser not initialized".to_string())),
         };
 
-        match parser.feed(&self.whitespace.normalize(chunk)) {
+        match parser.feed(&self.scanner.normalize(chunk)) {
             Ok(acutejson::Status::Done) => {
                 self.complete = true;
                 self.finalize_extracted()?;
-- 
2.43.0


From dfabd9dd0185c8a5c1e009e5fd60b801fa064d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:30 +0000
Subject: [PATCH 36/52] fix: refuse integers and map keys that the field cannot
 hold

---
 .../src/services/dynamic/converters.rs        | 44 ++++++++++++++++---
 1 file changed, 38 insertions(+), 6 deletions(-)

diff --git a/crates/kuadrant-filter/src/services/dynamic/converters.rs b/crates/kuadrant-filter/src/services/dynamic/converters.rs
index 344bf8f..958269c 100644
--- a/crates/kuadrant-filter/src/services/dynamic/converters.rs
+++ b/crates/kuadrant-filter/src/services/dynamic/converters.rs
@@ -481,12 +481,19 @@ impl MessageConverter {
         use cel::common::types::CelMapKey;
 
         match cel_key {
-            CelMapKey::Bool(b) => Ok(MapKey::Bool(*b.inner())),
+            CelMapKey::Bool(b) => match key_field.kind() {
+                ProtoKind::Bool => Ok(MapKey::Bool(*b.inner())),
+                kind => Err(ConversionError::TypeMismatch {
+                    field: key_field.name().to_string(),
+                    expected: format!("{kind:?}"),
+                    got: "bool".to_string(),
+                }),
+            },
             CelMapKey::Int(i) => {
                 let value = *i.inner();
                 match key_field.kind() {
                     ProtoKind::Int32 | ProtoKind::Sint32 | ProtoKind::Sfixed32 => {
-                        Ok(MapKey::I32(value as i32))
+                        Ok(MapKey::I32(Self::int_to_i32(value, key_field)?))
                     }
                     ProtoKind::Int64 | ProtoKind::Sint64 | ProtoKind::Sfixed64 => {
                         Ok(MapKey::I64(value))
@@ -501,7 +508,9 @@ impl MessageConverter {
             CelMapKey::UInt(u) => {
                 let value = *u.inner();
                 match key_field.kind() {
-                    ProtoKind::Uint32 | ProtoKind::Fixed32 => Ok(MapKey::U32(value as u32)),
+                    ProtoKind::Uint32 | ProtoKind::Fixed32 => {
+                        Ok(MapKey::U32(Self::uint_to_u32(value, key_field)?))
+                    }
                     ProtoKind::Uint64 | ProtoKind::Fixed64 => Ok(MapKey::U64(value)),
                     _ => Err(ConversionError::TypeMismatch {
                         field: key_field.name().to_string(),
@@ -510,10 +519,33 @@ impl MessageConverter {
                     }),
                 }
             }
-            CelMapKey::String(s) => Ok(MapKey::String(s.inner().to_string())),
+            CelMapKey::String(s) => match key_field.kind() {
+                ProtoKind::String => Ok(MapKey::String(s.inner().to_string())),
+                kind => Err(ConversionError::TypeMismatch {
+                    field: key_field.name().to_string(),
+                    expected: format!("{kind:?}"),
+                    got: "string".to_string(),
+                }),
+            },
         }
     }
 
+    fn int_to_i32(value: i64, field: &FieldDescriptor) -> Result<i32, ConversionError> {
+        i32::try_from(value).map_err(|_| ConversionError::TypeMismatch {
+            field: field.name().to_string(),
+            expected: "int within int32 range".to_string(),
+            got: value.to_string(),
+        })
+    }
+
+    fn uint_to_u32(value: u64, field: &FieldDescriptor) -> Result<u32, ConversionError> {
+        u32::try_from(value).map_err(|_| ConversionError::TypeMismatch {
+            field: field.name().to_string(),
+            expected: "uint within uint32 range".to_string(),
+            got: value.to_string(),
+        })
+    }
+
     fn cel_val_to_single_proto_value(
         cel_val: &dyn cel::common::value::Val,
         field: &FieldDescriptor,
@@ -539,7 +571,7 @@ impl MessageConverter {
                         got: format!("{:?}", cel_val),
                     }
                 })?;
-                Ok(ProtoValue::I32(*i.inner() as i32))
+                Ok(ProtoValue::I32(Self::int_to_i32(*i.inner(), field)?))
             }
             ProtoKind::Int64 | ProtoKind::Sint64 | ProtoKind::Sfixed64 => {
                 let i = cel_val.downcast_ref::<CelInt>().ok_or_else(|| {
@@ -559,7 +591,7 @@ impl MessageConverter {
                         got: format!("{:?}", cel_val),
                     }
                 })?;
-                Ok(ProtoValue::U32(*u.inner() as u32))
+                Ok(ProtoValue::U32(Self::uint_to_u32(*u.inner(), field)?))
             }
             ProtoKind::Uint64 | ProtoKind::Fixed64 => {
                 let u = cel_val.downcast_ref::<CelUInt>().ok_or_else(|| {
-- 
2.43.0


From 6c29593fe392be8339fb5a894714aff8912f9188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:34 +0000
Subject: [PATCH 37/52] fix: refuse messages of another type than the field's

---
 .../src/services/dynamic/converters.rs        | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/crates/kuadrant-filter/src/services/dynamic/converters.rs b/crates/kuadrant-filter/src/services/dynamic/converters.rs
index 958269c..e1d3f48 100644
--- a/crates/kuadrant-filter/src/services/dynamic/converters.rs
+++ b/crates/kuadrant-filter/src/services/dynamic/converters.rs
@@ -376,6 +376,8 @@ impl MessageConverter {
         cel_struct: &Arc<CelStruct>,
         descriptor: &MessageDescriptor,
     ) -> Result<DynamicMessage, ConversionError> {
+        Self::check_struct_name(cel_struct, descriptor, "message")?;
+
         let mut message = DynamicMessage::new(descriptor.clone());
 
         for field in descriptor.fields() {
@@ -880,6 +882,22 @@ impl MessageConverter {
         }
     }
 
+    fn check_struct_name(
+        cel_struct: &CelStruct,
+        descriptor: &MessageDescriptor,
+        field_name: &str,
+    ) -> Result<(), ConversionError> {
+        if cel_struct.name() == descriptor.full_name() {
+            Ok(())
+        } else {
+            Err(ConversionError::TypeMismatch {
+                field: field_name.to_string(),
+                expected: descriptor.full_name().to_string(),
+                got: cel_struct.name().to_string(),
+            })
+        }
+    }
+
     fn struct_from_val_to_message(
         cel_val: &dyn cel::common::value::Val,
         descriptor: &MessageDescriptor,
@@ -893,6 +911,7 @@ impl MessageConverter {
                     expected: "struct (nested message)".to_string(),
                     got: format!("{:?}", cel_val),
                 })?;
+        Self::check_struct_name(nested_struct, descriptor, field_name)?;
 
         let mut message = DynamicMessage::new(descriptor.clone());
 
-- 
2.43.0


From f8a46617ca2b2d49c2e0ff06ecd2c76c84b18870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:43 +0000
Subject: [PATCH 38/52] fix: refuse a request whose denying reply cannot be
 told

---
 .../src/kuadrant/pipeline/tasks/send_reply.rs     | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/send_reply.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/send_reply.rs
index a6710dd..6714bc0 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/send_reply.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/send_reply.rs
@@ -47,6 +47,15 @@ impl SendReplyTask {
             terminal: false,
         }
     }
+
+    /// The request is to be denied, but the reply can't be told
+    fn without_reply(&self) -> TaskOutcome {
+        if self.terminal {
+            TaskOutcome::Terminate(Box::new(Self::default()))
+        } else {
+            TaskOutcome::Failed
+        }
+    }
 }
 
 impl Task for SendReplyTask {
@@ -81,7 +90,7 @@ impl Task for SendReplyTask {
                 Ok(AttributeState::Available(val @ Value::Struct(_))) => {
                     let Value::Struct(deny_response) = val else {
                         error!("Invalid DenyResponse: {val:?}");
-                        return TaskOutcome::Failed;
+                        return self.without_reply();
                     };
 
                     let status = deny_response
@@ -104,11 +113,11 @@ impl Task for SendReplyTask {
                 }
                 Ok(AttributeState::Available(other)) => {
                     error!("denyWith must return DenyResponse, got: {other:?}");
-                    return TaskOutcome::Failed;
+                    return self.without_reply();
                 }
                 Err(e) => {
                     error!("Failed to evaluate denyWith expression: {e}");
-                    return TaskOutcome::Failed;
+                    return self.without_reply();
                 }
             }
         };
-- 
2.43.0


From 737328fbe55147f2a387f3eff890c34d6333fc02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:48 +0000
Subject: [PATCH 39/52] fix: tell the conditions of conditional data apart that
 use the conditional operator

---
 .../src/configuration/legacy_translation.rs            | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/kuadrant-filter/src/configuration/legacy_translation.rs b/crates/kuadrant-filter/src/configuration/legacy_translation.rs
index c7e5dbe..343a51a 100644
--- a/crates/kuadrant-filter/src/configuration/legacy_translation.rs
+++ b/crates/kuadrant-filter/src/configuration/legacy_translation.rs
@@ -202,7 +202,15 @@ pub(super) mod ratelimit {
         if block_predicates.len() == 1 {
             block_predicates[0].clone()
         } else {
-            block_predicates.join(" || ")
+            block_predicates
+                .iter()
+                // the conditional operator binds weaker than ||
+                .map(|p| match p.contains('?') {
+                    true => format!("({p})"),
+                    false => p.clone(),
+                })
+                .collect::<Vec<_>>()
+                .join(" || ")
         }
     }
 
-- 
2.43.0


From 108b543e57dff16527be55f5ded008abad6570b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:48 +0000
Subject: [PATCH 40/52] fix: let legacy actions not wait for a report that
 waits for the response

---
 .../src/kuadrant/pipeline/blueprint.rs        | 23 ++++++++++++-------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/blueprint.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/blueprint.rs
index 845aa0f..90ec8ee 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/blueprint.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/blueprint.rs
@@ -320,7 +320,7 @@ impl Blueprint {
         let actions: Vec<Action> = config
             .actions
             .iter()
-            .zip(Self::compute_dependencies(&config.actions))
+            .zip(Self::compute_dependencies(&config.actions, services))
             .enumerate()
             .map(|(i, (action_config, dependencies))| {
                 let id = i.to_string();
@@ -350,25 +350,32 @@ impl Blueprint {
 }
 
 impl Blueprint {
-    fn compute_dependencies(actions: &[configuration::ActionConfig]) -> Vec<Vec<String>> {
+    fn compute_dependencies(
+        actions: &[configuration::ActionConfig],
+        services: &HashMap<String, ServiceInstance>,
+    ) -> Vec<Vec<String>> {
         let mut last_fence: Vec<String> = vec![];
         let mut pending_parallel: Vec<String> = vec![];
+        let mut previous = None;
         let mut result = Vec::with_capacity(actions.len());
 
         for (i, action_config) in actions.iter().enumerate() {
             let id = i.to_string();
             match action_config {
                 configuration::ActionConfig::Legacy(action) => {
-                    let _ = action;
-                    let deps = if i > 0 {
-                        vec![(i - 1).to_string()]
-                    } else {
-                        vec![]
-                    };
+                    let deps = previous.iter().map(|p: &usize| p.to_string()).collect();
+                    // a report may wait for the response, nothing waits for it
+                    if !matches!(
+                        services.get(&action.service),
+                        Some(ServiceInstance::RateLimitReport(_))
+                    ) {
+                        previous = Some(i);
+                    }
                     pending_parallel.push(id);
                     result.push(deps);
                 }
                 configuration::ActionConfig::Typed(typed) => {
+                    previous = Some(i);
                     if typed.execution == configuration::Execution::Sequential {
                         let deps: Vec<String> = last_fence
                             .iter()
-- 
2.43.0


From f9b037a9372dfe674018689a4323255bf3eea2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:01 +0000
Subject: [PATCH 41/52] fix: refuse descriptors of a syntax that is not
 supported

prost-reflect panics while it reports the error, which takes the filter
down; a service defined with an edition of protobuf is enough.
---
 .../kuadrant-filter/src/filter/descriptor_manager.rs  | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/crates/kuadrant-filter/src/filter/descriptor_manager.rs b/crates/kuadrant-filter/src/filter/descriptor_manager.rs
index 7710a4a..d3a9f02 100644
--- a/crates/kuadrant-filter/src/filter/descriptor_manager.rs
+++ b/crates/kuadrant-filter/src/filter/descriptor_manager.rs
@@ -347,6 +347,17 @@ impl DescriptorManager {
                 let result = FileDescriptorSet::decode(fds_bytes.as_slice())
                     .map_err(|e| format!("could not decode FileDescriptorSet for {:?}: {}", key, e))
                     .and_then(|fds| {
+                        // prost-reflect panics on the ones it does not know
+                        if let Some(file) = fds.file.iter().find(|f| {
+                            !matches!(f.syntax.as_deref(), None | Some("proto2" | "proto3"))
+                        }) {
+                            return Err(format!(
+                                "unsupported syntax '{}' of file '{}' for {:?}",
+                                file.syntax(),
+                                file.name(),
+                                key
+                            ));
+                        }
                         DescriptorPool::from_file_descriptor_set(fds).map_err(|e| {
                             format!("could not build DescriptorPool for {:?}: {}", key, e)
                         })
-- 
2.43.0


From c7b9493257197d995110d0c43853730cd596fc89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:05 +0000
Subject: [PATCH 42/52] fix: let route conditions use queryMap

The function is what tells them apart from other predicates, yet they were
compiled without it: a condition on a query parameter was accepted, and
failed every request.
---
 crates/kuadrant-filter/src/data/cel.rs                    | 2 --
 crates/kuadrant-filter/src/kuadrant/pipeline/blueprint.rs | 2 +-
 2 files changed, 1 insertion(+), 3 deletions(-)

diff --git a/crates/kuadrant-filter/src/data/cel.rs b/crates/kuadrant-filter/src/data/cel.rs
index d9ac31d..e434b87 100644
--- a/crates/kuadrant-filter/src/data/cel.rs
+++ b/crates/kuadrant-filter/src/data/cel.rs
@@ -209,7 +209,6 @@ impl Expression {
         Self::new_expression(expression, false)
     }
 
-    #[cfg(test)]
     pub fn new_extended(expression: &str) -> Result<Self, ParseErrors> {
         Self::new_expression(expression, true)
     }
@@ -547,7 +546,6 @@ impl Predicate {
     /// Unlike with [`Predicate::new`], a `Predicate::route_rule` is backed by an
     /// `Expression` that has extended capabilities enabled.
     /// See [`Expression::add_extended_capabilities`]
-    #[cfg(test)]
     pub fn route_rule(predicate: &str) -> Result<Self, ParseErrors> {
         Ok(Self {
             expression: Expression::new_extended(predicate)?,
diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/blueprint.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/blueprint.rs
index 90ec8ee..5194cea 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/blueprint.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/blueprint.rs
@@ -310,7 +310,7 @@ impl Blueprint {
             .route_rule_conditions
             .predicates
             .iter()
-            .map(|p| Predicate::new(p))
+            .map(|p| Predicate::route_rule(p))
             .collect::<Result<_, _>>()
             .map_err(|e| CompileError::InvalidRoutePredicate {
                 action_set: config.name.clone(),
-- 
2.43.0


From 199e019449224f638a37a06f3cf358bd9d99e561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:08 +0000
Subject: [PATCH 43/52] fix: keep what follows the second '=' of a query
 parameter

---
 crates/kuadrant-filter/src/data/cel.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/kuadrant-filter/src/data/cel.rs b/crates/kuadrant-filter/src/data/cel.rs
index e434b87..9c1bbf5 100644
--- a/crates/kuadrant-filter/src/data/cel.rs
+++ b/crates/kuadrant-filter/src/data/cel.rs
@@ -461,7 +461,7 @@ fn decode_query_string(This(s): This<Arc<String>>, Arguments(args): Arguments) -
     };
     let mut map: HashMap<Key, Value> = HashMap::default();
     for part in s.split('&') {
-        let mut kv = part.split('=');
+        let mut kv = part.splitn(2, '=');
         if let (Some(key), Some(value)) = (kv.next(), kv.next().or(Some(""))) {
             let new_v: Value = decode(value)
                 .unwrap_or_else(|e| {
-- 
2.43.0


From bff9f40a4ec3fd9b73faccbc1ae5927ff840455c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:22 +0000
Subject: [PATCH 44/52] fix: take a timeout for what it says in whole, or
 refuse it

---
 crates/kuadrant-filter/src/configuration.rs | 68 ++++++++++++++++++---
 1 file changed, 58 insertions(+), 10 deletions(-)

diff --git a/crates/kuadrant-filter/src/configuration.rs b/crates/kuadrant-filter/src/configuration.rs
index 78d7c5d..423e1b6 100644
--- a/crates/kuadrant-filter/src/configuration.rs
+++ b/crates/kuadrant-filter/src/configuration.rs
@@ -1,9 +1,6 @@
 use std::collections::HashMap;
 use std::fmt::{Debug, Formatter};
-use std::sync::Arc;
 
-use cel::functions::time::duration;
-use cel::Value;
 use serde::de::{Error, Visitor};
 use serde::{Deserialize, Deserializer};
 use std::time::Duration;
@@ -286,15 +283,66 @@ impl Visitor<'_> for TimeoutVisitor {
     where
         E: Error,
     {
-        match duration(Arc::new(string)) {
-            Ok(Value::Duration(duration)) => duration
-                .to_std()
-                .map(Timeout)
-                .map_err(|e| E::custom(e.to_string())),
-            Err(e) => Err(E::custom(e)),
-            _ => Err(E::custom("Unsupported Duration Value")),
+        parse_duration(&string)
+            .map(Timeout)
+            .ok_or_else(|| E::invalid_value(serde::de::Unexpected::Str(&string), &TimeoutVisitor))
+    }
+}
+
+const DURATION_UNITS: [(&str, u128); 6] = [
+    ("ms", 1_000_000),
+    ("us", 1_000),
+    ("ns", 1),
+    ("h", 3_600_000_000_000),
+    ("m", 60_000_000_000),
+    ("s", 1_000_000_000),
+];
+
+/// Parses a duration that is written in whole as [`TimeoutVisitor`] expects it
+/// and that a call can have as its timeout
+fn parse_duration(text: &str) -> Option<Duration> {
+    fn digits(s: &str) -> (&str, &str) {
+        s.split_at(s.find(|c: char| !c.is_ascii_digit()).unwrap_or(s.len()))
+    }
+
+    let (negative, mut rest) = match text.strip_prefix('-') {
+        Some(rest) => (true, rest),
+        None => (false, text),
+    };
+    if rest == "0" {
+        return Some(Duration::ZERO);
+    }
+    if rest.is_empty() {
+        return None;
+    }
+
+    let mut nanos: u128 = 0;
+    while !rest.is_empty() {
+        let (whole, tail) = digits(rest);
+        let (fraction, tail) = match tail.strip_prefix('.') {
+            Some(tail) => match digits(tail) {
+                ("", _) => return None,
+                split => split,
+            },
+            None => ("", tail),
+        };
+        let (unit, tail) = DURATION_UNITS
+            .iter()
+            .find_map(|(name, unit)| tail.strip_prefix(name).map(|tail| (unit, tail)))?;
+        nanos = nanos.checked_add(whole.parse::<u128>().ok()?.checked_mul(*unit)?)?;
+        // digits further back are below a nanosecond, whatever the unit
+        let fraction = fraction.get(..18).unwrap_or(fraction);
+        if !fraction.is_empty() {
+            let part = unit * fraction.parse::<u128>().ok()? / 10u128.pow(fraction.len() as u32);
+            nanos = nanos.checked_add(part)?;
         }
+        rest = tail;
+    }
+
+    if (negative && nanos > 0) || nanos / 1_000_000 > u128::from(u32::MAX) {
+        return None;
     }
+    Some(Duration::from_nanos(u64::try_from(nanos).ok()?))
 }
 
 #[cfg(test)]
-- 
2.43.0


From c96e054f08c8335538293961bb45ec2b46ec0c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:32 +0000
Subject: [PATCH 45/52] fix: judge each expression of a legacy action by itself

---
 .../src/kuadrant/pipeline/blueprint.rs        | 47 ++++++++++++++++++-
 1 file changed, 46 insertions(+), 1 deletion(-)

diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/blueprint.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/blueprint.rs
index 5194cea..25a4d35 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/blueprint.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/blueprint.rs
@@ -286,6 +286,50 @@ impl Display for CompileError {
     }
 }
 
+/// The action with expressions that can be made part of larger ones: each of
+/// them must be valid by itself, and a comment must not reach beyond it.
+fn embeddable(config: &configuration::Action) -> Result<configuration::Action, CompileError> {
+    fn check(expression: &mut String) -> Result<(), ParseErrors> {
+        Expression::new(expression)?;
+        *expression = end_comment(expression);
+        Ok(())
+    }
+
+    let mut action = config.clone();
+    let service = &action.service;
+    action
+        .predicates
+        .iter_mut()
+        .chain(
+            action
+                .conditional_data
+                .iter_mut()
+                .flat_map(|conditional| conditional.predicates.iter_mut()),
+        )
+        .try_for_each(check)
+        .map_err(|e| CompileError::InvalidActionPredicate {
+            service: service.clone(),
+            error: e.to_string(),
+        })?;
+    for item in action
+        .conditional_data
+        .iter_mut()
+        .flat_map(|conditional| conditional.data.iter_mut())
+    {
+        if let configuration::DataType::Expression(item) = &mut item.item {
+            check(&mut item.value)?;
+        }
+    }
+    Ok(action)
+}
+
+fn end_comment(expression: &str) -> String {
+    match expression.contains("//") {
+        true => format!("{expression}\n"),
+        false => expression.to_string(),
+    }
+}
+
 /// A CEL literal for any string.
 fn cel_string(value: &str) -> String {
     let mut literal = String::from("'");
@@ -328,7 +372,7 @@ impl Blueprint {
                     configuration::ActionConfig::Legacy(action) => {
                         let legacy_request_data: Vec<((String, String), String)> = request_data
                             .iter()
-                            .map(|(key, expr)| (key.clone(), expr.source().to_string()))
+                            .map(|(key, expr)| (key.clone(), end_comment(expr.source())))
                             .collect();
                         Action::compile(action, services, id, dependencies, &legacy_request_data)
                     }
@@ -486,6 +530,7 @@ impl Action {
             .get(&config.service)
             .ok_or_else(|| CompileError::UnknownService(config.service.clone()))?;
 
+        let config = &embeddable(config)?;
         let typed_config = match service {
             ServiceInstance::Auth(_) => translate_legacy_auth_to_typed(config, request_data),
             ServiceInstance::RateLimit(_) | ServiceInstance::RateLimitCheck(_) => {
-- 
2.43.0


From 547a73073c4071d4a0d6c157955873928ec1c1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:03 +0000
Subject: [PATCH 46/52] fix: refuse a service that is not for tracing as the
 tracing service

---
 crates/kuadrant-filter/src/kuadrant/pipeline/factory.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/factory.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/factory.rs
index a6f1ff0..69d48f2 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/factory.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/factory.rs
@@ -71,6 +71,11 @@ impl PipelineFactory {
             .and_then(|tracing| services.get(&tracing.service))
             .cloned()
             .unwrap_or(ServiceInstance::Tracing(None));
+        if !matches!(tracing_service, ServiceInstance::Tracing(_)) {
+            return Err(CompileError::ServiceCreationFailed(
+                "The service for tracing is not of type tracing".to_string(),
+            ));
+        }
 
         let request_data_raw: Vec<((String, String), String)> = config
             .request_data
-- 
2.43.0


From 03714d743804f8fb61fbafedcf78d1575e8b2f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:10 +0000
Subject: [PATCH 47/52] fix: give up on a field of a body once that body ended
 without it

---
 crates/kuadrant-filter/src/data/cel.rs           | 16 ++++++++++++++++
 .../src/kuadrant/pipeline/tasks/dynamic.rs       | 12 ++----------
 .../src/kuadrant/pipeline/tasks/fail.rs          |  5 +----
 .../src/kuadrant/pipeline/tasks/headers.rs       | 12 ++++++++++--
 .../src/kuadrant/pipeline/tasks/send_reply.rs    | 14 ++++++++++++--
 5 files changed, 41 insertions(+), 18 deletions(-)

diff --git a/crates/kuadrant-filter/src/data/cel.rs b/crates/kuadrant-filter/src/data/cel.rs
index 9c1bbf5..280c725 100644
--- a/crates/kuadrant-filter/src/data/cel.rs
+++ b/crates/kuadrant-filter/src/data/cel.rs
@@ -343,6 +343,18 @@ impl Expression {
         !self.response_body_values.is_empty()
     }
 
+    /// Whether a body ended without a field that this expression reads
+    pub fn lacks_body_value(&self, req_ctx: &ReqRespCtx) -> bool {
+        [
+            (&self.request_body_values, &req_ctx.request_body),
+            (&self.response_body_values, &req_ctx.response_body),
+        ]
+        .iter()
+        .any(|(fields, body)| {
+            body.is_end_of_stream() && fields.iter().any(|f| body.get_value(f).is_none())
+        })
+    }
+
     // todo(@adam-cattermole): Temporary method for legacy config translation, remove when legacy support is dropped
     pub fn source(&self) -> &str {
         &self.source
@@ -584,6 +596,10 @@ impl Predicate {
     pub fn has_response_body_deps(&self) -> bool {
         self.expression.has_response_body_deps()
     }
+
+    pub fn lacks_body_value(&self, req_ctx: &ReqRespCtx) -> bool {
+        self.expression.lacks_body_value(req_ctx)
+    }
 }
 
 pub trait PredicateVec {
diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/dynamic.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/dynamic.rs
index 13555e1..3b0322c 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/dynamic.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/dynamic.rs
@@ -87,11 +87,7 @@ impl Task for DynamicTask {
         let mut cel_ctx = ctx.cel.new_ctx(&*self);
         match self.predicate.test(ctx, &mut cel_ctx) {
             Ok(AttributeState::Pending) => {
-                return if (self.predicate.has_request_body_deps()
-                    && ctx.request_body.is_end_of_stream())
-                    || (self.predicate.has_response_body_deps()
-                        && ctx.response_body.is_end_of_stream())
-                {
+                return if self.predicate.lacks_body_value(ctx) {
                     TaskOutcome::Failed
                 } else {
                     TaskOutcome::Requeued(vec![self])
@@ -118,11 +114,7 @@ impl Task for DynamicTask {
             let mut cel_ctx = ctx.cel.new_ctx(&*self);
             let cel_value = match self.message_builder.eval(ctx, &mut cel_ctx) {
                 Ok(AttributeState::Pending) => {
-                    return if (self.message_builder.has_request_body_deps()
-                        && ctx.request_body.is_end_of_stream())
-                        || (self.message_builder.has_response_body_deps()
-                            && ctx.response_body.is_end_of_stream())
-                    {
+                    return if self.message_builder.lacks_body_value(ctx) {
                         TaskOutcome::Failed
                     } else {
                         TaskOutcome::Requeued(vec![self])
diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/fail.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/fail.rs
index 8d04c28..7f5d65e 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/fail.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/fail.rs
@@ -43,10 +43,7 @@ impl Task for FailTask {
             }
             Ok(AttributeState::Available(false)) => TaskOutcome::Done,
             Ok(AttributeState::Pending) => {
-                if (self.predicate.has_request_body_deps() && ctx.request_body.is_end_of_stream())
-                    || (self.predicate.has_response_body_deps()
-                        && ctx.response_body.is_end_of_stream())
-                {
+                if self.predicate.lacks_body_value(ctx) {
                     TaskOutcome::Failed
                 } else {
                     TaskOutcome::Requeued(vec![self])
diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/headers.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/headers.rs
index 2208fbc..5917cd0 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/headers.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/headers.rs
@@ -67,7 +67,11 @@ impl Task for ModifyHeadersTask {
             Ok(AttributeState::Available(true)) => {}
             Ok(AttributeState::Available(false)) => return TaskOutcome::Done,
             Ok(AttributeState::Pending) => {
-                return TaskOutcome::Requeued(vec![self]);
+                return if self.predicate.lacks_body_value(ctx) {
+                    TaskOutcome::Failed
+                } else {
+                    TaskOutcome::Requeued(vec![self])
+                };
             }
             Err(e) => {
                 error!("Failed to evaluate predicate: {e:?}");
@@ -77,7 +81,11 @@ impl Task for ModifyHeadersTask {
 
         let operation = match self.headers_expr.eval(ctx, &mut cel_ctx) {
             Ok(AttributeState::Pending) => {
-                return TaskOutcome::Requeued(vec![self]);
+                return if self.headers_expr.lacks_body_value(ctx) {
+                    TaskOutcome::Failed
+                } else {
+                    TaskOutcome::Requeued(vec![self])
+                };
             }
             Ok(AttributeState::Available(ref val)) => {
                 let pairs = cel_value_to_header_pairs(val);
diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/send_reply.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/send_reply.rs
index 6714bc0..82fec73 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/send_reply.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/send_reply.rs
@@ -73,7 +73,11 @@ impl Task for SendReplyTask {
             Ok(AttributeState::Available(true)) => {}
             Ok(AttributeState::Available(false)) => return TaskOutcome::Done,
             Ok(AttributeState::Pending) => {
-                return TaskOutcome::Requeued(vec![self]);
+                return if self.predicate.lacks_body_value(ctx) {
+                    TaskOutcome::Failed
+                } else {
+                    TaskOutcome::Requeued(vec![self])
+                };
             }
             Err(e) => {
                 error!("Failed to evaluate predicate: {e:?}");
@@ -86,7 +90,13 @@ impl Task for SendReplyTask {
 
         let (status_code, headers, body) = {
             match self.deny_with.eval(ctx, &mut cel_ctx) {
-                Ok(AttributeState::Pending) => return TaskOutcome::Requeued(vec![self]),
+                Ok(AttributeState::Pending) => {
+                    return if self.deny_with.lacks_body_value(ctx) {
+                        self.without_reply()
+                    } else {
+                        TaskOutcome::Requeued(vec![self])
+                    };
+                }
                 Ok(AttributeState::Available(val @ Value::Struct(_))) => {
                     let Value::Struct(deny_response) = val else {
                         error!("Invalid DenyResponse: {val:?}");
-- 
2.43.0


From 16ddbeabd83cf3748f07b117cf119b5adf060dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:14 +0000
Subject: [PATCH 48/52] fix: read the body before looking at the actions that
 wait for its fields

---
 crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs     | 2 ++
 crates/kuadrant-filter/src/kuadrant/pipeline/tasks/mod.rs    | 5 +++++
 .../src/kuadrant/pipeline/tasks/token_usage.rs               | 4 ++++
 3 files changed, 11 insertions(+)

diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs
index 922f906..2c243f4 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/executor.rs
@@ -161,6 +161,8 @@ impl Pipeline {
         // a task may be waiting for what a later one stores
         let mut progressed = true;
         while progressed && !self.task_queue.is_empty() {
+            // what is read from the bodies comes before those waiting for it
+            self.task_queue.sort_by_key(|task| task.reads_body().not());
             let tasks = self.task_queue.drain(..).collect();
             match self.process_tasks(tasks) {
                 ProcessOutcome::Terminated => {
diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/mod.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/mod.rs
index ef88ec0..596e451 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/mod.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/mod.rs
@@ -42,6 +42,11 @@ pub trait Task {
     fn cel_types(&self) -> Vec<cel::StructDef> {
         vec![]
     }
+
+    /// Whether others wait for the values this task reads from a body
+    fn reads_body(&self) -> bool {
+        false
+    }
 }
 
 pub struct PendingTask {
diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/token_usage.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/token_usage.rs
index bb91f99..68af513 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/token_usage.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/token_usage.rs
@@ -43,6 +43,10 @@ impl Task for TokenUsageTask {
         "token_usage"
     }
 
+    fn reads_body(&self) -> bool {
+        true
+    }
+
     #[tracing::instrument(name = "token_usage", skip(self, ctx))]
     fn apply(self: Box<Self>, ctx: &mut ReqRespCtx) -> TaskOutcome {
         let mut task: TokenUsageTask = self.into();
-- 
2.43.0


From c1d4072436e0fc2555560551714503c030bb911f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:16 +0000
Subject: [PATCH 49/52] fix: read the request body for every action that uses
 its fields

---
 .../src/kuadrant/pipeline/blueprint.rs        | 67 ++++++++++++++---
 .../src/kuadrant/pipeline/tasks/mod.rs        |  2 +
 .../kuadrant/pipeline/tasks/request_body.rs   | 71 +++++++++++++++++++
 .../src/kuadrant/pipeline/tasks/store.rs      |  4 +-
 .../pipeline/tasks/store/body_parser.rs       |  2 +-
 5 files changed, 134 insertions(+), 12 deletions(-)
 create mode 100644 crates/kuadrant-filter/src/kuadrant/pipeline/tasks/request_body.rs

diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/blueprint.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/blueprint.rs
index 25a4d35..81abf9d 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/blueprint.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/blueprint.rs
@@ -5,8 +5,8 @@ use crate::configuration::{
 };
 use crate::data::{cel::Predicate, Expression};
 use crate::kuadrant::pipeline::tasks::{
-    DynamicTask, ExportTracesTask, FailureModeTask, HeadersType, ModifyHeadersTask, SequencedTask,
-    Task, TeardownAction, TokenUsageTask, TracingDecoratorTask,
+    DynamicTask, ExportTracesTask, FailureModeTask, HeadersType, ModifyHeadersTask,
+    RequestBodyTask, SequencedTask, Task, TeardownAction, TokenUsageTask, TracingDecoratorTask,
 };
 use crate::kuadrant::ReqRespCtx;
 use crate::services::ServiceInstance;
@@ -180,6 +180,60 @@ impl Action {
         }
     }
 
+    /// The tasks that read what the action needs from the bodies. The ones of
+    /// type store read for themselves.
+    fn body_tasks(&self, request_data: &[RequestData]) -> TaskList {
+        let mut tasks: TaskList = Vec::new();
+        if matches!(self.operation, Operation::Store { .. }) {
+            return tasks;
+        }
+
+        let request_fields = self.collect_request_body_values();
+        if !request_fields.is_empty() {
+            match RequestBodyTask::new(request_fields) {
+                Ok(task) => tasks.push(Box::new(task)),
+                Err(e) => tracing::error!("Request body not read for action {}: {e}", self.id),
+            }
+        }
+
+        let response_fields = self.collect_body_values(request_data);
+        if !response_fields.is_empty() {
+            tasks.push(Box::new(TokenUsageTask::with_expected_response_fields(
+                response_fields,
+            )));
+        }
+        tasks
+    }
+
+    fn collect_request_body_values(&self) -> Vec<String> {
+        let (expression, on_reply) = match &self.operation {
+            Operation::Store { .. } => return vec![],
+            Operation::Grpc {
+                message_builder,
+                on_reply,
+                ..
+            } => (Some(message_builder), on_reply.as_slice()),
+            Operation::Deny { deny_with } => (Some(deny_with), [].as_slice()),
+            Operation::Headers { headers, .. } => (Some(headers), [].as_slice()),
+            Operation::Fail { .. } => (None, [].as_slice()),
+        };
+
+        let mut fields = self.predicate.request_body_values().to_vec();
+        fields.extend(
+            expression
+                .iter()
+                .flat_map(|e| e.request_body_values().iter().cloned()),
+        );
+        fields.extend(
+            on_reply
+                .iter()
+                .flat_map(Action::collect_request_body_values),
+        );
+        fields.sort();
+        fields.dedup();
+        fields
+    }
+
     pub fn collect_body_values(&self, request_data: &[RequestData]) -> Vec<String> {
         use std::collections::HashSet;
 
@@ -478,13 +532,7 @@ impl Blueprint {
                     | ServiceInstance::RateLimit(_)
                     | ServiceInstance::RateLimitCheck(_)
                     | ServiceInstance::RateLimitReport(_) => {
-                        let body_values = action.collect_body_values(request_data);
-                        if !body_values.is_empty() {
-                            tasks.push(Box::new(TokenUsageTask::with_expected_response_fields(
-                                body_values,
-                            )));
-                        }
-
+                        tasks.extend(action.body_tasks(request_data));
                         if let Some(mut task) = action.to_core_task(ctx) {
                             let abort_on_failure =
                                 service.failure_mode() == configuration::FailureMode::Deny;
@@ -503,6 +551,7 @@ impl Blueprint {
                     }
                 },
                 _ => {
+                    tasks.extend(action.body_tasks(&[]));
                     if let Some(mut task) = action.to_core_task(ctx) {
                         if !action.dependencies.is_empty() {
                             task = Box::new(SequencedTask::new(task, action.dependencies.clone()));
diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/mod.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/mod.rs
index 596e451..10b2f6b 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/mod.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/mod.rs
@@ -3,6 +3,7 @@ mod export_traces;
 mod fail;
 mod failure_mode;
 mod headers;
+mod request_body;
 mod send_reply;
 mod sequenced;
 mod store;
@@ -14,6 +15,7 @@ pub use export_traces::ExportTracesTask;
 pub use fail::FailTask;
 pub use failure_mode::FailureModeTask;
 pub use headers::{HeadersType, ModifyHeadersTask};
+pub use request_body::RequestBodyTask;
 pub use send_reply::SendReplyTask;
 pub use sequenced::SequencedTask;
 pub use store::StoreTask;
diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/request_body.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/request_body.rs
new file mode 100644
index 0000000..f0330c6
--- /dev/null
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/request_body.rs
@@ -0,0 +1,71 @@
+use tracing::error;
+
+use super::store::body_parser::BodyParser;
+use super::store::json_body_parser::JsonBodyParser;
+use crate::data::attribute::{AttributeError, AttributeState};
+use crate::kuadrant::pipeline::tasks::{Task, TaskOutcome};
+use crate::kuadrant::ReqRespCtx;
+
+/// Reads the fields that an action needs from the request body
+pub struct RequestBodyTask {
+    parser: JsonBodyParser,
+    bytes_read: usize,
+}
+
+impl RequestBodyTask {
+    pub fn new(fields: Vec<String>) -> Result<Self, AttributeError> {
+        Ok(Self {
+            parser: JsonBodyParser::new(fields)?,
+            bytes_read: 0,
+        })
+    }
+}
+
+impl Task for RequestBodyTask {
+    fn id(&self) -> &str {
+        "request_body"
+    }
+
+    fn reads_body(&self) -> bool {
+        true
+    }
+
+    fn apply(mut self: Box<Self>, ctx: &mut ReqRespCtx) -> TaskOutcome {
+        let received = ctx.request_body.received();
+        if received > self.bytes_read {
+            let start = self.bytes_read.saturating_sub(ctx.request_body.released());
+            match ctx.get_http_request_body(start, received - self.bytes_read) {
+                Ok(AttributeState::Available(Some(bytes))) => {
+                    self.bytes_read = received;
+                    if let Err(e) = self.parser.feed(&bytes) {
+                        error!("Failed to parse request body: {e}");
+                        return TaskOutcome::Failed;
+                    }
+                }
+                Ok(AttributeState::Available(None)) => {
+                    error!("Expected request body bytes but got None");
+                    return TaskOutcome::Failed;
+                }
+                Ok(AttributeState::Pending) => return TaskOutcome::Requeued(vec![self]),
+                Err(e) => {
+                    error!("Failed to get request body: {e:?}");
+                    return TaskOutcome::Failed;
+                }
+            }
+        }
+
+        if ctx.request_body.is_end_of_stream() {
+            if let Err(e) = self.parser.finalize() {
+                error!("Failed to parse request body: {e}");
+                return TaskOutcome::Failed;
+            }
+        }
+        self.parser.populate(&mut ctx.request_body);
+
+        if ctx.request_body.is_end_of_stream() || self.parser.remaining_fields().is_empty() {
+            TaskOutcome::Done
+        } else {
+            TaskOutcome::Requeued(vec![self])
+        }
+    }
+}
diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store.rs
index 20a4a54..775b368 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store.rs
@@ -1,5 +1,5 @@
-mod body_parser;
-mod json_body_parser;
+pub(super) mod body_parser;
+pub(super) mod json_body_parser;
 pub(super) mod sse_body_parser;
 
 use body_parser::BodyParser;
diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/body_parser.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/body_parser.rs
index 8a69c84..8ab89fc 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/body_parser.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store/body_parser.rs
@@ -3,7 +3,7 @@ use cel::Value;
 use crate::data::attribute::AttributeError;
 use crate::kuadrant::context::BodyContext;
 
-pub(super) trait BodyParser {
+pub(crate) trait BodyParser {
     fn feed(&mut self, chunk: &[u8]) -> Result<(), AttributeError>;
     fn finalize(&mut self) -> Result<(), AttributeError>;
     fn remaining_fields(&self) -> Vec<&String>;
-- 
2.43.0


From 04456595e0d2dbf72a9253d32fce7d2bad8aad04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:40 +0000
Subject: [PATCH 50/52] fix: read the bodies for stores that have to wait, and
 both of them

---
 .../src/kuadrant/pipeline/blueprint.rs        |  90 +++--
 .../src/kuadrant/pipeline/tasks/body.rs       |  39 +++
 .../src/kuadrant/pipeline/tasks/mod.rs        |   6 +-
 .../kuadrant/pipeline/tasks/request_body.rs   |  71 ----
 .../src/kuadrant/pipeline/tasks/store.rs      | 309 ++++++++++--------
 5 files changed, 276 insertions(+), 239 deletions(-)
 create mode 100644 crates/kuadrant-filter/src/kuadrant/pipeline/tasks/body.rs
 delete mode 100644 crates/kuadrant-filter/src/kuadrant/pipeline/tasks/request_body.rs

diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/blueprint.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/blueprint.rs
index 81abf9d..3e579aa 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/blueprint.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/blueprint.rs
@@ -5,8 +5,8 @@ use crate::configuration::{
 };
 use crate::data::{cel::Predicate, Expression};
 use crate::kuadrant::pipeline::tasks::{
-    DynamicTask, ExportTracesTask, FailureModeTask, HeadersType, ModifyHeadersTask,
-    RequestBodyTask, SequencedTask, Task, TeardownAction, TokenUsageTask, TracingDecoratorTask,
+    BodySource, BodyTask, DynamicTask, ExportTracesTask, FailureModeTask, HeadersType,
+    ModifyHeadersTask, SequencedTask, Task, TeardownAction, TokenUsageTask, TracingDecoratorTask,
 };
 use crate::kuadrant::ReqRespCtx;
 use crate::services::ServiceInstance;
@@ -180,60 +180,82 @@ impl Action {
         }
     }
 
-    /// The tasks that read what the action needs from the bodies. The ones of
-    /// type store read for themselves.
+    /// The tasks that read what the action needs from the bodies. A store that
+    /// waits for no other action reads for itself.
     fn body_tasks(&self, request_data: &[RequestData]) -> TaskList {
         let mut tasks: TaskList = Vec::new();
-        if matches!(self.operation, Operation::Store { .. }) {
+        let is_store = matches!(self.operation, Operation::Store { .. });
+        if is_store && self.dependencies.is_empty() {
             return tasks;
         }
 
-        let request_fields = self.collect_request_body_values();
-        if !request_fields.is_empty() {
-            match RequestBodyTask::new(request_fields) {
-                Ok(task) => tasks.push(Box::new(task)),
-                Err(e) => tracing::error!("Request body not read for action {}: {e}", self.id),
+        if !is_store {
+            let response_fields = self.collect_body_values(request_data);
+            if !response_fields.is_empty() {
+                tasks.push(Box::new(TokenUsageTask::with_expected_response_fields(
+                    response_fields,
+                )));
             }
         }
 
-        let response_fields = self.collect_body_values(request_data);
-        if !response_fields.is_empty() {
-            tasks.push(Box::new(TokenUsageTask::with_expected_response_fields(
-                response_fields,
-            )));
+        for (source, mut fields) in [
+            (BodySource::Request, self.request_body_fields()),
+            (BodySource::Response, self.stored_response_body_fields()),
+        ] {
+            fields.sort();
+            fields.dedup();
+            for field in fields {
+                tasks.push(Box::new(BodyTask::new(source, field)));
+            }
         }
         tasks
     }
 
-    fn collect_request_body_values(&self) -> Vec<String> {
-        let (expression, on_reply) = match &self.operation {
-            Operation::Store { .. } => return vec![],
+    fn expression(&self) -> Option<&Expression> {
+        match &self.operation {
             Operation::Grpc {
-                message_builder,
-                on_reply,
-                ..
-            } => (Some(message_builder), on_reply.as_slice()),
-            Operation::Deny { deny_with } => (Some(deny_with), [].as_slice()),
-            Operation::Headers { headers, .. } => (Some(headers), [].as_slice()),
-            Operation::Fail { .. } => (None, [].as_slice()),
-        };
+                message_builder, ..
+            } => Some(message_builder),
+            Operation::Deny { deny_with } => Some(deny_with),
+            Operation::Headers { headers, .. } => Some(headers),
+            Operation::Store { expression, .. } => Some(expression),
+            Operation::Fail { .. } => None,
+        }
+    }
+
+    fn on_reply(&self) -> &[Action] {
+        match &self.operation {
+            Operation::Grpc { on_reply, .. } => on_reply,
+            _ => &[],
+        }
+    }
 
+    fn request_body_fields(&self) -> Vec<String> {
         let mut fields = self.predicate.request_body_values().to_vec();
         fields.extend(
-            expression
+            self.expression()
                 .iter()
                 .flat_map(|e| e.request_body_values().iter().cloned()),
         );
-        fields.extend(
-            on_reply
-                .iter()
-                .flat_map(Action::collect_request_body_values),
-        );
-        fields.sort();
-        fields.dedup();
+        fields.extend(self.on_reply().iter().flat_map(Action::request_body_fields));
         fields
     }
 
+    fn stored_response_body_fields(&self) -> Vec<String> {
+        match &self.operation {
+            Operation::Store { expression, .. } => [
+                self.predicate.response_body_values(),
+                expression.response_body_values(),
+            ]
+            .concat(),
+            _ => self
+                .on_reply()
+                .iter()
+                .flat_map(Action::stored_response_body_fields)
+                .collect(),
+        }
+    }
+
     pub fn collect_body_values(&self, request_data: &[RequestData]) -> Vec<String> {
         use std::collections::HashSet;
 
diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/body.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/body.rs
new file mode 100644
index 0000000..4843d2b
--- /dev/null
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/body.rs
@@ -0,0 +1,39 @@
+use tracing::error;
+
+use super::store::{BodyReader, BodySource};
+use crate::kuadrant::pipeline::tasks::{Task, TaskOutcome};
+use crate::kuadrant::ReqRespCtx;
+
+/// Reads a field that an action needs from a body
+pub struct BodyTask {
+    reader: BodyReader,
+}
+
+impl BodyTask {
+    pub fn new(source: BodySource, field: String) -> Self {
+        Self {
+            reader: BodyReader::new(source, vec![field]),
+        }
+    }
+}
+
+impl Task for BodyTask {
+    fn id(&self) -> &str {
+        "body"
+    }
+
+    fn reads_body(&self) -> bool {
+        true
+    }
+
+    fn apply(mut self: Box<Self>, ctx: &mut ReqRespCtx) -> TaskOutcome {
+        match self.reader.read(ctx) {
+            Ok(_) if self.reader.is_complete() => TaskOutcome::Done,
+            Ok(_) => TaskOutcome::Requeued(vec![self]),
+            Err(e) => {
+                error!("Failed to read body: {e}");
+                TaskOutcome::Failed
+            }
+        }
+    }
+}
diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/mod.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/mod.rs
index 10b2f6b..a0328c6 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/mod.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/mod.rs
@@ -1,24 +1,24 @@
+mod body;
 mod dynamic;
 mod export_traces;
 mod fail;
 mod failure_mode;
 mod headers;
-mod request_body;
 mod send_reply;
 mod sequenced;
 mod store;
 mod token_usage;
 mod tracing_decorator;
 
+pub use body::BodyTask;
 pub use dynamic::DynamicTask;
 pub use export_traces::ExportTracesTask;
 pub use fail::FailTask;
 pub use failure_mode::FailureModeTask;
 pub use headers::{HeadersType, ModifyHeadersTask};
-pub use request_body::RequestBodyTask;
 pub use send_reply::SendReplyTask;
 pub use sequenced::SequencedTask;
-pub use store::StoreTask;
+pub use store::{BodySource, StoreTask};
 pub use token_usage::TokenUsageTask;
 use tracing::debug;
 pub use tracing_decorator::TracingDecoratorTask;
diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/request_body.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/request_body.rs
deleted file mode 100644
index f0330c6..0000000
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/request_body.rs
+++ /dev/null
@@ -1,71 +0,0 @@
-use tracing::error;
-
-use super::store::body_parser::BodyParser;
-use super::store::json_body_parser::JsonBodyParser;
-use crate::data::attribute::{AttributeError, AttributeState};
-use crate::kuadrant::pipeline::tasks::{Task, TaskOutcome};
-use crate::kuadrant::ReqRespCtx;
-
-/// Reads the fields that an action needs from the request body
-pub struct RequestBodyTask {
-    parser: JsonBodyParser,
-    bytes_read: usize,
-}
-
-impl RequestBodyTask {
-    pub fn new(fields: Vec<String>) -> Result<Self, AttributeError> {
-        Ok(Self {
-            parser: JsonBodyParser::new(fields)?,
-            bytes_read: 0,
-        })
-    }
-}
-
-impl Task for RequestBodyTask {
-    fn id(&self) -> &str {
-        "request_body"
-    }
-
-    fn reads_body(&self) -> bool {
-        true
-    }
-
-    fn apply(mut self: Box<Self>, ctx: &mut ReqRespCtx) -> TaskOutcome {
-        let received = ctx.request_body.received();
-        if received > self.bytes_read {
-            let start = self.bytes_read.saturating_sub(ctx.request_body.released());
-            match ctx.get_http_request_body(start, received - self.bytes_read) {
-                Ok(AttributeState::Available(Some(bytes))) => {
-                    self.bytes_read = received;
-                    if let Err(e) = self.parser.feed(&bytes) {
-                        error!("Failed to parse request body: {e}");
-                        return TaskOutcome::Failed;
-                    }
-                }
-                Ok(AttributeState::Available(None)) => {
-                    error!("Expected request body bytes but got None");
-                    return TaskOutcome::Failed;
-                }
-                Ok(AttributeState::Pending) => return TaskOutcome::Requeued(vec![self]),
-                Err(e) => {
-                    error!("Failed to get request body: {e:?}");
-                    return TaskOutcome::Failed;
-                }
-            }
-        }
-
-        if ctx.request_body.is_end_of_stream() {
-            if let Err(e) = self.parser.finalize() {
-                error!("Failed to parse request body: {e}");
-                return TaskOutcome::Failed;
-            }
-        }
-        self.parser.populate(&mut ctx.request_body);
-
-        if ctx.request_body.is_end_of_stream() || self.parser.remaining_fields().is_empty() {
-            TaskOutcome::Done
-        } else {
-            TaskOutcome::Requeued(vec![self])
-        }
-    }
-}
diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store.rs
index 775b368..a40b3a2 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/tasks/store.rs
@@ -16,75 +16,112 @@ use crate::kuadrant::{PathReservation, ReqRespCtx};
 use crate::services::MessageConverter;
 
 #[derive(Clone, Copy)]
-enum BodySource {
+pub enum BodySource {
     Request,
     Response,
 }
 
-enum BodyParseState {
-    NotNeeded,
-    Pending(BodySource, Vec<String>),
-    Active(BodySource, Box<dyn BodyParser>),
+/// Reads fields from a body while it comes in
+pub(super) struct BodyReader {
+    source: BodySource,
+    fields: Vec<String>,
+    parser: Option<Box<dyn BodyParser>>,
+    bytes_read: usize,
 }
 
-pub struct StoreTask {
-    task_id: String,
-    predicate: Option<Predicate>,
-    expression: Expression,
-    path: String,
-    export_to_host: bool,
-    terminal: bool,
-    body_parse_state: BodyParseState,
-    body_bytes_read: usize,
-    _reservation: PathReservation,
+pub(super) enum ReadOutcome {
+    /// The body did not start yet
+    NotStarted,
+    /// What is there of the body was read
+    Read,
+    /// The body started without this reader
+    Missed,
 }
 
-impl StoreTask {
-    pub fn new(
-        ctx: &ReqRespCtx,
-        task_id: String,
-        predicate: Predicate,
-        expression: Expression,
-        path: String,
-        export_to_host: bool,
-        terminal: bool,
-    ) -> Result<Self, AttributeError> {
-        let body_parse_state = Self::initial_body_state(&predicate, &expression);
-        let reservation = ctx.values.reserve(path.clone());
-        Ok(Self {
-            task_id,
-            predicate: Some(predicate),
-            expression,
-            path,
-            export_to_host,
-            terminal,
-            body_parse_state,
-            body_bytes_read: 0,
-            _reservation: reservation,
-        })
+impl BodyReader {
+    pub(super) fn new(source: BodySource, fields: Vec<String>) -> Self {
+        Self {
+            source,
+            fields,
+            parser: None,
+            bytes_read: 0,
+        }
     }
 
-    fn initial_body_state(predicate: &Predicate, expression: &Expression) -> BodyParseState {
-        let mut request_fields: Vec<String> = Vec::new();
-        let mut response_fields: Vec<String> = Vec::new();
+    pub(super) fn is_complete(&self) -> bool {
+        self.parser
+            .as_ref()
+            .is_some_and(|parser| parser.remaining_fields().is_empty())
+    }
 
-        request_fields.extend_from_slice(predicate.request_body_values());
-        request_fields.extend_from_slice(expression.request_body_values());
+    pub(super) fn read(&mut self, ctx: &mut ReqRespCtx) -> Result<ReadOutcome, AttributeError> {
+        let mut parser = match self.parser.take() {
+            Some(parser) => parser,
+            None => match Self::create_parser(ctx, self.source, &self.fields)? {
+                Some(parser) => parser,
+                None => return Ok(ReadOutcome::NotStarted),
+            },
+        };
+        let outcome = self.feed(&mut *parser, ctx);
+        self.parser = Some(parser);
+        outcome
+    }
 
-        response_fields.extend_from_slice(predicate.response_body_values());
-        response_fields.extend_from_slice(expression.response_body_values());
+    fn feed(
+        &mut self,
+        parser: &mut dyn BodyParser,
+        ctx: &mut ReqRespCtx,
+    ) -> Result<ReadOutcome, AttributeError> {
+        let body_ctx = match self.source {
+            BodySource::Request => &ctx.request_body,
+            BodySource::Response => &ctx.response_body,
+        };
 
-        if !request_fields.is_empty() {
-            request_fields.sort();
-            request_fields.dedup();
-            BodyParseState::Pending(BodySource::Request, request_fields)
-        } else if !response_fields.is_empty() {
-            response_fields.sort();
-            response_fields.dedup();
-            BodyParseState::Pending(BodySource::Response, response_fields)
-        } else {
-            BodyParseState::NotNeeded
+        if !body_ctx.is_started() {
+            return Ok(ReadOutcome::NotStarted);
         }
+
+        let received = body_ctx.received();
+        if received > self.bytes_read {
+            let Some(start) = self.bytes_read.checked_sub(body_ctx.released()) else {
+                return Ok(ReadOutcome::Missed);
+            };
+            let bytes_to_read = received - self.bytes_read;
+            let chunk = match self.source {
+                BodySource::Request => ctx.get_http_request_body(start, bytes_to_read),
+                BodySource::Response => ctx.get_http_response_body(start, bytes_to_read),
+            };
+
+            let chunk_bytes = match chunk? {
+                AttributeState::Available(Some(data)) => data,
+                AttributeState::Available(None) => {
+                    return Err(AttributeError::Retrieval(
+                        "expected body bytes but got None".to_string(),
+                    ));
+                }
+                AttributeState::Pending => return Ok(ReadOutcome::NotStarted),
+            };
+
+            self.bytes_read = received;
+            parser.feed(&chunk_bytes)?;
+        }
+
+        if body_ctx.is_end_of_stream() {
+            parser.finalize()?;
+        }
+
+        let body_ctx_mut = match self.source {
+            BodySource::Request => &mut ctx.request_body,
+            BodySource::Response => &mut ctx.response_body,
+        };
+        parser.populate(body_ctx_mut);
+        if body_ctx_mut.is_end_of_stream() && !parser.remaining_fields().is_empty() {
+            return Err(AttributeError::Retrieval(format!(
+                "body stream ended without finding fields {:?}",
+                parser.remaining_fields()
+            )));
+        }
+        Ok(ReadOutcome::Read)
     }
 
     fn create_parser(
@@ -125,92 +162,94 @@ impl StoreTask {
     }
 }
 
+pub struct StoreTask {
+    task_id: String,
+    predicate: Option<Predicate>,
+    expression: Expression,
+    path: String,
+    export_to_host: bool,
+    terminal: bool,
+    bodies: Vec<BodyReader>,
+    _reservation: PathReservation,
+}
+
+impl StoreTask {
+    pub fn new(
+        ctx: &ReqRespCtx,
+        task_id: String,
+        predicate: Predicate,
+        expression: Expression,
+        path: String,
+        export_to_host: bool,
+        terminal: bool,
+    ) -> Result<Self, AttributeError> {
+        let bodies = Self::body_readers(&predicate, &expression);
+        let reservation = ctx.values.reserve(path.clone());
+        Ok(Self {
+            task_id,
+            predicate: Some(predicate),
+            expression,
+            path,
+            export_to_host,
+            terminal,
+            bodies,
+            _reservation: reservation,
+        })
+    }
+
+    fn body_readers(predicate: &Predicate, expression: &Expression) -> Vec<BodyReader> {
+        let mut readers = Vec::new();
+        for (source, fields) in [
+            (
+                BodySource::Request,
+                [
+                    predicate.request_body_values(),
+                    expression.request_body_values(),
+                ],
+            ),
+            (
+                BodySource::Response,
+                [
+                    predicate.response_body_values(),
+                    expression.response_body_values(),
+                ],
+            ),
+        ] {
+            let mut fields = fields.concat();
+            if !fields.is_empty() {
+                fields.sort();
+                fields.dedup();
+                readers.push(BodyReader::new(source, fields));
+            }
+        }
+        readers
+    }
+}
+
 impl Task for StoreTask {
     fn id(&self) -> &str {
         &self.task_id
     }
 
     fn apply(mut self: Box<Self>, ctx: &mut ReqRespCtx) -> TaskOutcome {
-        if let BodyParseState::Pending(source, ref fields) = self.body_parse_state {
-            let result = Self::create_parser(ctx, source, fields);
-            match result {
-                Ok(Some(parser)) => {
-                    self.body_parse_state = BodyParseState::Active(source, parser);
-                }
-                Ok(None) => {
-                    return TaskOutcome::Requeued(vec![self]);
+        let mut waiting = false;
+        for mut body in std::mem::take(&mut self.bodies) {
+            match body.read(ctx) {
+                Ok(ReadOutcome::Read) => self.bodies.push(body),
+                Ok(ReadOutcome::NotStarted) => {
+                    waiting = true;
+                    self.bodies.push(body);
                 }
+                // it was read while this task had to wait
+                Ok(ReadOutcome::Missed) => {}
                 Err(e) => {
-                    error!("Failed to create body parser: {e}");
+                    error!("Failed to read body for '{}': {e}", self.path);
                     return TaskOutcome::Failed;
                 }
             }
         }
-
-        if let BodyParseState::Active(source, ref mut parser) = self.body_parse_state {
-            let body_ctx = match source {
-                BodySource::Request => &ctx.request_body,
-                BodySource::Response => &ctx.response_body,
-            };
-
-            if !body_ctx.is_started() {
-                return TaskOutcome::Requeued(vec![self]);
-            }
-
-            let received = body_ctx.received();
-            if received > self.body_bytes_read {
-                let Some(start) = self.body_bytes_read.checked_sub(body_ctx.released()) else {
-                    error!("Part of the body for '{}' is gone already", self.path);
-                    return TaskOutcome::Failed;
-                };
-                let bytes_to_read = received - self.body_bytes_read;
-                let chunk = match source {
-                    BodySource::Request => ctx.get_http_request_body(start, bytes_to_read),
-                    BodySource::Response => ctx.get_http_response_body(start, bytes_to_read),
-                };
-
-                let chunk_bytes = match chunk {
-                    Ok(AttributeState::Available(Some(data))) => data,
-                    Ok(AttributeState::Available(None)) => {
-                        error!("Expected body bytes but got None");
-                        return TaskOutcome::Failed;
-                    }
-                    Ok(AttributeState::Pending) => {
-                        return TaskOutcome::Requeued(vec![self]);
-                    }
-                    Err(e) => {
-                        error!("Failed to read body bytes: {e}");
-                        return TaskOutcome::Failed;
-                    }
-                };
-
-                self.body_bytes_read = received;
-                if let Err(e) = parser.feed(&chunk_bytes) {
-                    error!("Failed to parse body for '{}': {e}", self.path);
-                    return TaskOutcome::Failed;
-                }
-            }
-
-            if body_ctx.is_end_of_stream() {
-                if let Err(e) = parser.finalize() {
-                    error!("Failed to finalize body parser for '{}': {e}", self.path);
-                    return TaskOutcome::Failed;
-                }
-                if !parser.remaining_fields().is_empty() {
-                    let remaining: Vec<&String> = parser.remaining_fields();
-                    error!(
-                        "Body stream ended without finding fields {:?} for '{}'",
-                        remaining, self.path
-                    );
-                    return TaskOutcome::Failed;
-                }
-            }
-
-            let body_ctx_mut = match source {
-                BodySource::Request => &mut ctx.request_body,
-                BodySource::Response => &mut ctx.response_body,
-            };
-            parser.populate(body_ctx_mut);
+        if waiting {
+            return TaskOutcome::Requeued(vec![self]);
         }
 
         let mut cel_ctx = ctx.cel.new_ctx(&*self);
@@ -220,7 +259,11 @@ impl Task for StoreTask {
                 Ok(AttributeState::Available(true)) => {}
                 Ok(AttributeState::Available(false)) => return TaskOutcome::Done,
                 Ok(AttributeState::Pending) => {
-                    return TaskOutcome::Requeued(vec![self]);
+                    return if predicate.lacks_body_value(ctx) {
+                        TaskOutcome::Failed
+                    } else {
+                        TaskOutcome::Requeued(vec![self])
+                    };
                 }
                 Err(e) => {
                     error!("Failed to evaluate predicate: {e:?}");
@@ -233,7 +276,11 @@ impl Task for StoreTask {
 
         let value = match self.expression.eval(ctx, &mut cel_ctx) {
             Ok(AttributeState::Pending) => {
-                return TaskOutcome::Requeued(vec![self]);
+                return if self.expression.lacks_body_value(ctx) {
+                    TaskOutcome::Failed
+                } else {
+                    TaskOutcome::Requeued(vec![self])
+                };
             }
             Ok(AttributeState::Available(val)) => val,
             Err(e) => {
-- 
2.43.0


From 054549bc897967371ae58f260ab2da9f72e14ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:01 +0000
Subject: [PATCH 51/52] fix: don't ask for descriptors of services of a refused
 configuration

---
 .../kuadrant-filter/src/kuadrant/pipeline/factory.rs |  4 ++++
 crates/kuadrant-filter/src/services/dynamic.rs       |  9 +++++++--
 crates/kuadrant-filter/src/services/mod.rs           | 12 ++++++++++++
 3 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/crates/kuadrant-filter/src/kuadrant/pipeline/factory.rs b/crates/kuadrant-filter/src/kuadrant/pipeline/factory.rs
index 69d48f2..e2aa885 100644
--- a/crates/kuadrant-filter/src/kuadrant/pipeline/factory.rs
+++ b/crates/kuadrant-filter/src/kuadrant/pipeline/factory.rs
@@ -132,6 +132,10 @@ impl PipelineFactory {
             }
         }
 
+        for service in services.values() {
+            service.expect_descriptor();
+        }
+
         Ok(Self {
             index,
             request_data: Arc::new(request_data),
diff --git a/crates/kuadrant-filter/src/services/dynamic.rs b/crates/kuadrant-filter/src/services/dynamic.rs
index 27d4ebc..ca83808 100644
--- a/crates/kuadrant-filter/src/services/dynamic.rs
+++ b/crates/kuadrant-filter/src/services/dynamic.rs
@@ -33,8 +33,6 @@ impl DynamicService {
         failure_mode: FailureMode,
         descriptor_manager: Arc<DescriptorManager>,
     ) -> Self {
-        descriptor_manager.add_expected(DescriptorKey::new(endpoint.clone(), grpc_service.clone()));
-
         Self {
             upstream_name: endpoint,
             service_name: grpc_service,
@@ -45,6 +43,13 @@ impl DynamicService {
         }
     }
 
+    pub fn expect_descriptor(&self) {
+        self.descriptor_manager.add_expected(DescriptorKey::new(
+            self.upstream_name.clone(),
+            self.service_name.clone(),
+        ));
+    }
+
     pub fn failure_mode(&self) -> FailureMode {
         self.failure_mode
     }
diff --git a/crates/kuadrant-filter/src/services/mod.rs b/crates/kuadrant-filter/src/services/mod.rs
index b0e351b..4782513 100644
--- a/crates/kuadrant-filter/src/services/mod.rs
+++ b/crates/kuadrant-filter/src/services/mod.rs
@@ -34,6 +34,18 @@ impl ServiceInstance {
         }
     }
 
+    /// The descriptor of the service is needed from now on
+    pub fn expect_descriptor(&self) {
+        match self {
+            ServiceInstance::Auth(service)
+            | ServiceInstance::RateLimit(service)
+            | ServiceInstance::RateLimitCheck(service)
+            | ServiceInstance::RateLimitReport(service)
+            | ServiceInstance::Dynamic(service) => service.expect_descriptor(),
+            ServiceInstance::Tracing(_) => {}
+        }
+    }
+
     pub fn from_config(
         service: ServiceConfig,
         descriptor_manager: &Arc<DescriptorManager>,
-- 
2.43.0


From cb19f901873fa0444d350d93553632799474428e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:21 +0000
Subject: [PATCH 52/52] fix: tell request data that needs the response or auth
 by what it reads, not by its text

---
 .../src/configuration/legacy_translation.rs           | 11 ++++++++---
 crates/kuadrant-filter/src/data/cel.rs                |  9 +++++++++
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/crates/kuadrant-filter/src/configuration/legacy_translation.rs b/crates/kuadrant-filter/src/configuration/legacy_translation.rs
index 343a51a..5a08dc1 100644
--- a/crates/kuadrant-filter/src/configuration/legacy_translation.rs
+++ b/crates/kuadrant-filter/src/configuration/legacy_translation.rs
@@ -2,6 +2,7 @@ use super::{
     Action, ConditionalData, DataItem, DataType, DenyOperation, Execution, FailOperation,
     GrpcOperation, HeadersOperation, HeadersTarget, Operation, StoreOperation, TypedAction,
 };
+use crate::data::Expression;
 
 fn escape_cel_string(s: &str) -> String {
     s.replace('\\', "\\\\")
@@ -11,6 +12,10 @@ fn escape_cel_string(s: &str) -> String {
         .replace('\t', "\\t")
 }
 
+fn needs_response_body(expression: &str) -> bool {
+    Expression::new(expression).is_ok_and(|e| !e.response_body_values().is_empty())
+}
+
 fn join_predicates(predicates: &[String], op: &str) -> String {
     match predicates.len() {
         0 => "true".to_string(),
@@ -280,7 +285,7 @@ pub(super) mod ratelimit {
 
         let request_only_data: Vec<_> = request_data
             .iter()
-            .filter(|((_domain, _field), expr)| !expr.contains("responseBodyJSON("))
+            .filter(|((_domain, _field), expr)| !needs_response_body(expr))
             .cloned()
             .collect();
 
@@ -804,7 +809,7 @@ pub(super) mod auth {
     use std::collections::HashMap;
 
     fn build_request_data_value_cel(field_expr: &str) -> String {
-        if field_expr.contains("auth.") {
+        if Expression::new(field_expr).is_ok_and(|e| e.reads("auth")) {
             format!(
                 r#"google.protobuf.Value{{struct_value: google.protobuf.Struct{{fields: {{"cel_expr": google.protobuf.Value{{string_value: "{escaped_expr}"}}}}}}}}"#,
                 escaped_expr = escape_cel_string(field_expr)
@@ -873,7 +878,7 @@ pub(super) mod auth {
     ) -> String {
         let request_only_data: Vec<_> = request_data
             .iter()
-            .filter(|((_domain, _field), expr)| !expr.contains("responseBodyJSON("))
+            .filter(|((_domain, _field), expr)| !needs_response_body(expr))
             .cloned()
             .collect();
 
diff --git a/crates/kuadrant-filter/src/data/cel.rs b/crates/kuadrant-filter/src/data/cel.rs
index 280c725..4700167 100644
--- a/crates/kuadrant-filter/src/data/cel.rs
+++ b/crates/kuadrant-filter/src/data/cel.rs
@@ -327,6 +327,15 @@ impl Expression {
         data::AttributeMap::new(self.attributes.clone()).into(req_ctx)
     }
 
+    /// Whether the value of that name, or a field of it, is used
+    pub fn reads(&self, root: &str) -> bool {
+        self.variables.iter().any(|name| name == root)
+            || self
+                .attributes
+                .iter()
+                .any(|a| a.path.tokens().first().is_some_and(|name| *name == root))
+    }
+
     pub fn request_body_values(&self) -> &[String] {
         &self.request_body_values
     }
-- 
2.43.0

