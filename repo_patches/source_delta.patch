From 3fe66b02da8bb8651a8e7dc79eff92d018789909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:56 +0000
Subject: [PATCH 01/44] fix: drop a popped Context only after the context stack
 is no longer borrowed

Dropping the last reference to a Context runs arbitrary code (e.g. ending a span,
whose processor looks at Context::current()), which panicked with BorrowMutError
when it happened inside ContextStack::pop_id.
---
 opentelemetry/src/context.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/opentelemetry/src/context.rs b/opentelemetry/src/context.rs
index ecad94d..edd9691 100644
--- a/opentelemetry/src/context.rs
+++ b/opentelemetry/src/context.rs
@@ -464,7 +464,12 @@ impl Drop for ContextGuard {
     fn drop(&mut self) {
         let id = self.cx_pos;
         if id > ContextStack::BASE_POS && id < ContextStack::MAX_POS {
-            CURRENT_CONTEXT.with(|context_stack| context_stack.borrow_mut().pop_id(id));
+            // Release the popped context only after the borrow of the stack has ended:
+            // dropping it may run arbitrary code (e.g. ending a span), which may use
+            // the current context itself.
+            let popped =
+                CURRENT_CONTEXT.with(|context_stack| context_stack.borrow_mut().pop_id(id));
+            drop(popped);
         }
     }
 }
@@ -542,8 +547,11 @@ impl ContextStack {
         }
     }
 
+    /// Pops the context at the given position, and returns the [`Context`] that is no
+    /// longer held by the stack so that the caller can drop it once the stack is no
+    /// longer borrowed.
     #[inline(always)]
-    fn pop_id(&mut self, pos: u16) {
+    fn pop_id(&mut self, pos: u16) -> Option<Context> {
         if pos == ContextStack::BASE_POS || pos == ContextStack::MAX_POS {
             // The empty context is always at the bottom of the [`ContextStack`]
             // and cannot be popped, and the overflow position is invalid, so do
@@ -557,7 +565,7 @@ impl ContextStack {
                     "Attempted to pop the overflow position which is not allowed"
                 }
             );
-            return;
+            return None;
         }
         let len: u16 = self.stack.len() as u16;
         // Are we at the top of the [`ContextStack`]?
@@ -570,8 +578,9 @@ impl ContextStack {
             // empty context is always at the bottom of the stack if the
             // [`ContextStack`] is not empty.
             if let Some(Some(next_cx)) = self.stack.pop() {
-                self.current_cx = next_cx;
+                return Some(std::mem::replace(&mut self.current_cx, next_cx));
             }
+            None
         } else {
             // This is an out of order pop.
             if pos >= len {
@@ -582,10 +591,10 @@ impl ContextStack {
                     stack_length = len,
                     message = "Attempted to pop beyond the end of the context stack"
                 );
-                return;
+                return None;
             }
             // Clear out the entry at the given id.
-            _ = self.stack[pos as usize].take();
+            self.stack[pos as usize].take()
         }
     }
 
-- 
2.43.0


From 908a1dd18607b6e7225c0f2700b44ac0a9564d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:15 +0000
Subject: [PATCH 02/44] fix: Baggage::remove gives back the removed entry's
 share of the size limit

The content length was never reduced, so after removals later insertions that fit the
8192 byte limit were rejected.
---
 opentelemetry/src/baggage.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/opentelemetry/src/baggage.rs b/opentelemetry/src/baggage.rs
index f38d817..8de0434 100644
--- a/opentelemetry/src/baggage.rs
+++ b/opentelemetry/src/baggage.rs
@@ -208,7 +208,10 @@ impl Baggage {
     /// Removes a name from the baggage, returning the value
     /// corresponding to the name if the pair was previously in the map.
     pub fn remove<K: AsRef<str>>(&mut self, key: K) -> Option<(StringValue, BaggageMetadata)> {
-        self.inner.remove(key.as_ref())
+        let (key, (value, metadata)) = self.inner.remove_entry(key.as_ref())?;
+        self.kv_content_len -=
+            key_value_metadata_bytes_size(key.as_str(), value.as_str(), metadata.as_str());
+        Some((value, metadata))
     }
 
     /// Returns the number of attributes for this baggage
-- 
2.43.0


From 174b7a624f0c9fe73e5b4fd0ebec1920585ddab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:15 +0000
Subject: [PATCH 03/44] fix: Context::with_cleared_baggage clears the baggage

It stored an empty Baggage under a type that Context::baggage never reads.
---
 opentelemetry/src/baggage.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opentelemetry/src/baggage.rs b/opentelemetry/src/baggage.rs
index 8de0434..4b4ce0a 100644
--- a/opentelemetry/src/baggage.rs
+++ b/opentelemetry/src/baggage.rs
@@ -415,7 +415,7 @@ impl BaggageExt for Context {
     }
 
     fn with_cleared_baggage(&self) -> Self {
-        self.with_value(Baggage::new())
+        self.with_value(BaggageContextValue(Baggage::new()))
     }
 
     fn baggage(&self) -> &Baggage {
-- 
2.43.0


From 08e00940d6fb066d67f3fb14a93271eb44081d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:49 +0000
Subject: [PATCH 04/44] fix: BaggagePropagator encodes what its extraction
 decodes

'%' in names and values and ',' or '%' in metadata were injected verbatim although
extraction splits at ',' and percent-decodes, so such baggage did not survive a round trip.
---
 opentelemetry-sdk/src/propagation/baggage.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/opentelemetry-sdk/src/propagation/baggage.rs b/opentelemetry-sdk/src/propagation/baggage.rs
index 78bb81a..4d8b836 100644
--- a/opentelemetry-sdk/src/propagation/baggage.rs
+++ b/opentelemetry-sdk/src/propagation/baggage.rs
@@ -9,7 +9,16 @@ use std::iter;
 use std::sync::OnceLock;
 
 static BAGGAGE_HEADER: &str = "baggage";
-const FRAGMENT: &AsciiSet = &CONTROLS.add(b' ').add(b'"').add(b';').add(b',').add(b'=');
+const FRAGMENT: &AsciiSet = &CONTROLS
+    .add(b' ')
+    .add(b'"')
+    .add(b';')
+    .add(b',')
+    .add(b'=')
+    .add(b'%');
+// Metadata is a list of properties, its `;` and `=` are kept. What would end the list
+// member, or would be decoded to something else on extraction, has to be encoded.
+const METADATA: &AsciiSet = &CONTROLS.add(b',').add(b'%');
 
 // TODO Replace this with LazyLock once it is stable.
 static BAGGAGE_FIELDS: OnceLock<[String; 1]> = OnceLock::new();
@@ -89,7 +98,7 @@ impl TextMapPropagator for BaggagePropagator {
                         .chain(iter::once("="))
                         .chain(utf8_percent_encode(value.as_str().trim(), FRAGMENT))
                         .chain(iter::once(metadata_prefix))
-                        .chain(iter::once(metadata_str))
+                        .chain(utf8_percent_encode(metadata_str, METADATA))
                         .collect()
                 })
                 .collect::<Vec<String>>()
-- 
2.43.0


From 2ec83c9a4bf52ea717937bb1561888ef08cd3368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:59 +0000
Subject: [PATCH 05/44] fix: BaggagePropagator keeps the whole of a value that
 contains '='

'=' is allowed in baggage values; everything after the second '=' was cut off.
---
 opentelemetry-sdk/src/propagation/baggage.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/opentelemetry-sdk/src/propagation/baggage.rs b/opentelemetry-sdk/src/propagation/baggage.rs
index 4d8b836..2b05bff 100644
--- a/opentelemetry-sdk/src/propagation/baggage.rs
+++ b/opentelemetry-sdk/src/propagation/baggage.rs
@@ -116,8 +116,7 @@ impl TextMapPropagator for BaggagePropagator {
                     .collect::<Vec<&str>>()
                     .split_first()
                 {
-                    let mut iter = name_and_value.split('=');
-                    if let (Some(name), Some(value)) = (iter.next(), iter.next()) {
+                    if let Some((name, value)) = name_and_value.split_once('=') {
                         let decode_name = percent_decode_str(name).decode_utf8();
                         let decode_value = percent_decode_str(value).decode_utf8();
 
-- 
2.43.0


From 5494756e97d9b109ed495c3f075518d38c69dede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:29 +0000
Subject: [PATCH 06/44] fix: TraceContextPropagator rejects traceparent fields
 of the wrong form

Fields that were too short, padded with extra zeros, signed ("+1") or upper case
(version, flags) were accepted by the integer parser.
---
 .../src/propagation/trace_context.rs            | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/opentelemetry-sdk/src/propagation/trace_context.rs b/opentelemetry-sdk/src/propagation/trace_context.rs
index 2a6d53e..b0bbf46 100644
--- a/opentelemetry-sdk/src/propagation/trace_context.rs
+++ b/opentelemetry-sdk/src/propagation/trace_context.rs
@@ -68,25 +68,22 @@ impl TraceContextPropagator {
             return Err(());
         }
 
+        // Every field has a fixed length and consists of lowercase hex digits only.
+        for (part, len) in parts.iter().zip([2, 32, 16, 2]) {
+            if part.len() != len || !part.bytes().all(|b| matches!(b, b'0'..=b'9' | b'a'..=b'f')) {
+                return Err(());
+            }
+        }
+
         // Ensure version is within range, for version 0 there must be 4 parts.
         let version = u8::from_str_radix(parts[0], 16).map_err(|_| ())?;
         if version > MAX_VERSION || version == 0 && parts.len() != 4 {
             return Err(());
         }
 
-        // Ensure trace id is lowercase
-        if parts[1].chars().any(|c| c.is_ascii_uppercase()) {
-            return Err(());
-        }
-
         // Parse trace id section
         let trace_id = TraceId::from_hex(parts[1]).map_err(|_| ())?;
 
-        // Ensure span id is lowercase
-        if parts[2].chars().any(|c| c.is_ascii_uppercase()) {
-            return Err(());
-        }
-
         // Parse span id section
         let span_id = SpanId::from_hex(parts[2]).map_err(|_| ())?;
 
-- 
2.43.0


From 2223b1e838eddc5cb3cd2c426338b416b8697586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:29 +0000
Subject: [PATCH 07/44] fix: TraceId::from_hex and SpanId::from_hex reject a
 leading '+'

The B3 and Jaeger propagators took identifiers such as "+000000000000001" for valid ones.
---
 opentelemetry/src/trace_context.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/opentelemetry/src/trace_context.rs b/opentelemetry/src/trace_context.rs
index 78f59a9..91e51ed 100644
--- a/opentelemetry/src/trace_context.rs
+++ b/opentelemetry/src/trace_context.rs
@@ -87,6 +87,16 @@ impl fmt::LowerHex for TraceFlags {
     }
 }
 
+/// `from_str_radix` accepts a leading sign, which is not part of a hex string: leave it
+/// with the sign only, which it rejects.
+fn unsigned(hex: &str) -> &str {
+    if hex.starts_with('+') {
+        "+"
+    } else {
+        hex
+    }
+}
+
 /// A 16-byte value which identifies a given trace.
 ///
 /// The id is valid if it contains at least one non-zero byte.
@@ -120,7 +130,7 @@ impl TraceId {
     /// assert!(TraceId::from_hex("not_hex").is_err());
     /// ```
     pub fn from_hex(hex: &str) -> Result<Self, ParseIntError> {
-        u128::from_str_radix(hex, 16).map(TraceId)
+        u128::from_str_radix(unsigned(hex), 16).map(TraceId)
     }
 }
 
@@ -181,7 +191,7 @@ impl SpanId {
     /// assert!(SpanId::from_hex("not_hex").is_err());
     /// ```
     pub fn from_hex(hex: &str) -> Result<Self, ParseIntError> {
-        u64::from_str_radix(hex, 16).map(SpanId)
+        u64::from_str_radix(unsigned(hex), 16).map(SpanId)
     }
 }
 
-- 
2.43.0


From f981777cd52b219f6838ef765ddc143e5ba1d829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:29 +0000
Subject: [PATCH 08/44] fix: Jaeger propagator ignores headers with an all-zero
 or empty id

Extracting one replaced the span of the given context with an invalid span context.
---
 opentelemetry-jaeger-propagator/src/propagator.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/opentelemetry-jaeger-propagator/src/propagator.rs b/opentelemetry-jaeger-propagator/src/propagator.rs
index dfbbf3b..2f999ce 100644
--- a/opentelemetry-jaeger-propagator/src/propagator.rs
+++ b/opentelemetry-jaeger-propagator/src/propagator.rs
@@ -98,6 +98,7 @@ impl Propagator {
         ) {
             (Ok(trace_id), Ok(span_id), Ok(flags), Ok(state)) => {
                 Some(SpanContext::new(trace_id, span_id, flags, true, state))
+                    .filter(SpanContext::is_valid)
             }
             _ => {
                 otel_warn!(
-- 
2.43.0


From 7ba2e938bf88697bcf7935f4ccddf36b274515d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:29 +0000
Subject: [PATCH 09/44] fix: TraceState rejects an empty key

---
 opentelemetry/src/trace/span_context.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opentelemetry/src/trace/span_context.rs b/opentelemetry/src/trace/span_context.rs
index 95863cd..af8e595 100644
--- a/opentelemetry/src/trace/span_context.rs
+++ b/opentelemetry/src/trace/span_context.rs
@@ -22,7 +22,7 @@ impl TraceState {
     ///
     /// [W3 Spec]: https://www.w3.org/TR/trace-context/#key
     fn valid_key(key: &str) -> bool {
-        if key.len() > 256 {
+        if key.is_empty() || key.len() > 256 {
             return false;
         }
 
-- 
2.43.0


From 74511b0728b9a994014912e03c17121e9eb1a281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:29 +0000
Subject: [PATCH 10/44] fix: TraceState accepts vendor system ids of 14
 characters

The W3C grammar allows 14 characters after the '@', the check allowed 13.
---
 opentelemetry/src/trace/span_context.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opentelemetry/src/trace/span_context.rs b/opentelemetry/src/trace/span_context.rs
index af8e595..f732798 100644
--- a/opentelemetry/src/trace/span_context.rs
+++ b/opentelemetry/src/trace/span_context.rs
@@ -36,7 +36,7 @@ impl TraceState {
             if i == 0 && (!b.is_ascii_lowercase() && !b.is_ascii_digit()) {
                 return false;
             } else if b == b'@' {
-                if vendor_start.is_some() || i + 14 < key.len() {
+                if vendor_start.is_some() || i + 15 < key.len() {
                     return false;
                 }
                 vendor_start = Some(i);
-- 
2.43.0


From bac53f759aeb8991a6991c88efb3a5aa517ac083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:29 +0000
Subject: [PATCH 11/44] fix: TraceState::delete removes every entry of the key

A parsed state may hold a key twice; delete left the second one, and insert produced
a state with two entries for the key. An emptied state now equals the empty state.
---
 opentelemetry/src/trace/span_context.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/opentelemetry/src/trace/span_context.rs b/opentelemetry/src/trace/span_context.rs
index f732798..4af33e8 100644
--- a/opentelemetry/src/trace/span_context.rs
+++ b/opentelemetry/src/trace/span_context.rs
@@ -162,8 +162,9 @@ impl TraceState {
     fn delete_from_deque(&self, key: &str) -> TraceState {
         let mut owned = self.clone();
         if let Some(kvs) = owned.0.as_mut() {
-            if let Some(index) = kvs.iter().position(|x| x.0 == key) {
-                kvs.remove(index);
+            kvs.retain(|x| x.0 != key);
+            if kvs.is_empty() {
+                owned.0 = None;
             }
         }
         owned
-- 
2.43.0


From eaf88096c7875a2f82161f6be979b0c4f98fdfe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:18 +0000
Subject: [PATCH 12/44] fix: a later error status replaces an earlier one

set_status compared the error descriptions, so only a description that sorted
after the current one was recorded.
---
 opentelemetry-sdk/src/trace/span.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/opentelemetry-sdk/src/trace/span.rs b/opentelemetry-sdk/src/trace/span.rs
index 9cb8b88..6edea0f 100644
--- a/opentelemetry-sdk/src/trace/span.rs
+++ b/opentelemetry-sdk/src/trace/span.rs
@@ -150,9 +150,9 @@ impl opentelemetry::trace::Span for Span {
     /// If used, this will override the default span status, which is [`Status::Unset`].
     fn set_status(&mut self, status: Status) {
         self.with_data(|data| {
-            // check if we should update the status
-            // These values form a total order: Ok > Error > Unset.
-            if status > data.status {
+            // Ok is final and Unset never replaces anything; otherwise the last call
+            // counts, also when it replaces one error with another.
+            if data.status != Status::Ok && status != Status::Unset {
                 data.status = status;
             }
         });
-- 
2.43.0


From 118f797b591402789a141d0ef319e6c82a919a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:18 +0000
Subject: [PATCH 13/44] fix: start a new trace when the active parent span
 context is invalid

The trace id of the invalid parent was used, so spans with an all-zero trace id
were recorded and exported.
---
 opentelemetry-sdk/src/trace/tracer.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/trace/tracer.rs b/opentelemetry-sdk/src/trace/tracer.rs
index 40e55fd..ecae7f2 100644
--- a/opentelemetry-sdk/src/trace/tracer.rs
+++ b/opentelemetry-sdk/src/trace/tracer.rs
@@ -213,7 +213,11 @@ impl opentelemetry::trace::Tracer for SdkTracer {
         };
 
         // Build context for sampling decision
-        if let Some(sc) = parent_span.as_ref().map(|parent| parent.span_context()) {
+        if let Some(sc) = parent_span
+            .as_ref()
+            .map(|parent| parent.span_context())
+            .filter(|sc| sc.is_valid())
+        {
             trace_id = sc.trace_id();
             psc = sc;
         } else {
-- 
2.43.0


From 82f7bc4af720249d4b6458eeb728608c97610ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:34 +0000
Subject: [PATCH 14/44] fix: observable callbacks only feed the aggregations of
 the reader being collected

With several readers, collecting one of them ran the callbacks against the
aggregations of all of them: a reader reported values observed for another
reader's collection, including attribute sets its own collection did not observe.
---
 opentelemetry-sdk/src/metrics/meter.rs    | 31 ++++++++---------------
 opentelemetry-sdk/src/metrics/pipeline.rs | 31 +++++++++++++----------
 2 files changed, 28 insertions(+), 34 deletions(-)

diff --git a/opentelemetry-sdk/src/metrics/meter.rs b/opentelemetry-sdk/src/metrics/meter.rs
index 3950cbc..7d65cc7 100644
--- a/opentelemetry-sdk/src/metrics/meter.rs
+++ b/opentelemetry-sdk/src/metrics/meter.rs
@@ -13,7 +13,7 @@ use opentelemetry::{
 
 use crate::metrics::{
     error::{MetricError, MetricResult},
-    instrument::{Instrument, InstrumentKind, Observable, ResolvedMeasures},
+    instrument::{Instrument, InstrumentKind, ResolvedMeasures},
     internal::{self, Number},
     pipeline::{Pipelines, Resolver},
 };
@@ -142,7 +142,7 @@ impl SdkMeter {
             builder.cardinality_limit,
         ) {
             Ok(ms) => {
-                if ms.is_empty() {
+                if ms.iter().all(Vec::is_empty) {
                     otel_error!(
                         name: "InstrumentCreationFailed",
                         meter_name = self.scope.name(),
@@ -152,12 +152,8 @@ impl SdkMeter {
                     return ObservableCounter::new();
                 }
 
-                let observable = Arc::new(Observable::new(ms));
-
                 for callback in builder.callbacks {
-                    let cb_inst = Arc::clone(&observable);
-                    self.pipes
-                        .register_callback(move || callback(cb_inst.as_ref()));
+                    self.pipes.register_callback(callback, &ms);
                 }
 
                 ObservableCounter::new()
@@ -202,7 +198,7 @@ impl SdkMeter {
             builder.cardinality_limit,
         ) {
             Ok(ms) => {
-                if ms.is_empty() {
+                if ms.iter().all(Vec::is_empty) {
                     otel_error!(
                         name: "InstrumentCreationFailed",
                         meter_name = self.scope.name(),
@@ -212,12 +208,8 @@ impl SdkMeter {
                     return ObservableUpDownCounter::new();
                 }
 
-                let observable = Arc::new(Observable::new(ms));
-
                 for callback in builder.callbacks {
-                    let cb_inst = Arc::clone(&observable);
-                    self.pipes
-                        .register_callback(move || callback(cb_inst.as_ref()));
+                    self.pipes.register_callback(callback, &ms);
                 }
 
                 ObservableUpDownCounter::new()
@@ -262,7 +254,7 @@ impl SdkMeter {
             builder.cardinality_limit,
         ) {
             Ok(ms) => {
-                if ms.is_empty() {
+                if ms.iter().all(Vec::is_empty) {
                     otel_error!(
                         name: "InstrumentCreationFailed",
                         meter_name = self.scope.name(),
@@ -272,12 +264,8 @@ impl SdkMeter {
                     return ObservableGauge::new();
                 }
 
-                let observable = Arc::new(Observable::new(ms));
-
                 for callback in builder.callbacks {
-                    let cb_inst = Arc::clone(&observable);
-                    self.pipes
-                        .register_callback(move || callback(cb_inst.as_ref()));
+                    self.pipes.register_callback(callback, &ms);
                 }
 
                 ObservableGauge::new()
@@ -666,10 +654,11 @@ where
         let aggregators =
             self.measures(kind, name, description, unit, boundaries, cardinality_limit)?;
         Ok(ResolvedMeasures {
-            measures: aggregators,
+            measures: aggregators.into_iter().flatten().collect(),
         })
     }
 
+    /// measures returns the resolved measures of each pipeline.
     fn measures(
         &self,
         kind: InstrumentKind,
@@ -678,7 +667,7 @@ where
         unit: Option<Cow<'static, str>>,
         boundaries: Option<Vec<f64>>,
         cardinality_limit: Option<usize>,
-    ) -> MetricResult<Vec<Arc<dyn internal::Measure<T>>>> {
+    ) -> MetricResult<Vec<Vec<Arc<dyn internal::Measure<T>>>>> {
         let inst = Instrument {
             name,
             description: description.unwrap_or_default(),
diff --git a/opentelemetry-sdk/src/metrics/pipeline.rs b/opentelemetry-sdk/src/metrics/pipeline.rs
index 05d2861..45218fc 100644
--- a/opentelemetry-sdk/src/metrics/pipeline.rs
+++ b/opentelemetry-sdk/src/metrics/pipeline.rs
@@ -5,7 +5,7 @@ use std::{
     sync::{Arc, Mutex},
 };
 
-use opentelemetry::{otel_debug, InstrumentationScope, KeyValue};
+use opentelemetry::{metrics::Callback, otel_debug, InstrumentationScope, KeyValue};
 
 use crate::{
     error::{OTelSdkError, OTelSdkResult},
@@ -13,7 +13,7 @@ use crate::{
         aggregation,
         data::{Metric, ResourceMetrics, ScopeMetrics},
         error::{MetricError, MetricResult},
-        instrument::{Instrument, InstrumentId, InstrumentKind, Stream},
+        instrument::{Instrument, InstrumentId, InstrumentKind, Observable, Stream},
         internal::{self, AggregateBuilder, Number},
         reader::{MetricReader, SdkProducer},
         view::View,
@@ -653,13 +653,18 @@ impl Pipelines {
         Pipelines(pipes)
     }
 
-    pub(crate) fn register_callback<F>(&self, callback: F)
-    where
-        F: Fn() + Send + Sync + 'static,
-    {
-        let cb = Arc::new(callback);
-        for pipe in &self.0 {
-            pipe.add_callback(cb.clone())
+    /// Registers a callback with every pipeline. `measures` holds the measures of each pipeline: when
+    /// a pipeline runs the callback, only its own aggregations are updated.
+    pub(crate) fn register_callback<T: Number>(
+        &self,
+        callback: Callback<T>,
+        measures: &[Vec<Arc<dyn internal::Measure<T>>>],
+    ) {
+        let callback = Arc::new(callback);
+        for (pipe, measures) in self.0.iter().zip(measures) {
+            let callback = Arc::clone(&callback);
+            let observable = Observable::new(measures.clone());
+            pipe.add_callback(Arc::new(move || callback(&observable)));
         }
     }
 
@@ -722,24 +727,24 @@ where
         Resolver { inserters }
     }
 
-    /// The measures that must be updated by the instrument defined by key.
+    /// The measures that must be updated by the instrument defined by key, per pipeline.
     pub(crate) fn measures(
         &self,
         id: Instrument,
         boundaries: Option<Vec<f64>>,
         cardinality_limit: Option<usize>,
-    ) -> MetricResult<Vec<Arc<dyn internal::Measure<T>>>> {
+    ) -> MetricResult<Vec<Vec<Arc<dyn internal::Measure<T>>>>> {
         let (mut measures, mut errs) = (vec![], vec![]);
 
         for inserter in &self.inserters {
             match inserter.instrument(id.clone(), boundaries.as_deref(), cardinality_limit) {
-                Ok(ms) => measures.extend(ms),
+                Ok(ms) => measures.push(ms),
                 Err(err) => errs.push(err),
             }
         }
 
         if errs.is_empty() {
-            if measures.is_empty() {
+            if measures.iter().all(Vec::is_empty) {
                 // TODO: Emit internal log that measurements from the instrument
                 // are being dropped due to view configuration
             }
-- 
2.43.0


From 608201eb2dee6bd0be0539476818c3b962dc74d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:35 +0000
Subject: [PATCH 15/44] fix: delta observable sums find the previous value
 whatever the attribute order

The value last reported was stored under the attributes in whichever order the
map yielded them, so a difference could be taken from zero instead.
---
 .../src/metrics/internal/precomputed_sum.rs              | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/opentelemetry-sdk/src/metrics/internal/precomputed_sum.rs b/opentelemetry-sdk/src/metrics/internal/precomputed_sum.rs
index fc372de..d2b92ac 100644
--- a/opentelemetry-sdk/src/metrics/internal/precomputed_sum.rs
+++ b/opentelemetry-sdk/src/metrics/internal/precomputed_sum.rs
@@ -4,7 +4,7 @@ use crate::metrics::data::{self, AggregatedMetrics, MetricData, SumDataPoint};
 use crate::metrics::Temporality;
 
 use super::aggregate::{AggregateTimeInitiator, AttributeSetFilter};
-use super::{last_value::Assign, AtomicTracker, Number, ValueMap};
+use super::{last_value::Assign, sort_and_dedup, AtomicTracker, Number, ValueMap};
 use super::{ComputeAggregation, Measure};
 use std::{collections::HashMap, sync::Mutex};
 
@@ -71,8 +71,11 @@ impl<T: Number> PrecomputedSum<T> {
         self.value_map
             .collect_and_reset(&mut s_data.data_points, |attributes, aggr| {
                 let value = aggr.value.get_value();
-                new_reported.insert(attributes.clone(), value);
-                let delta = value - *reported.get(&attributes).unwrap_or(&T::default());
+                // The attributes come in whichever order they were observed in, so the
+                // previous value is looked up under their sorted form.
+                let key = sort_and_dedup(&attributes);
+                let delta = value - *reported.get(&key).unwrap_or(&T::default());
+                new_reported.insert(key, value);
                 SumDataPoint {
                     attributes,
                     value: delta,
-- 
2.43.0


From 2fca77a7f3edc2f2e4e6326069c6d46d28880d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:29 +0000
Subject: [PATCH 16/44] fix: views naming a stream with different case share
 one aggregation

An instrument selected by two views that rename it to names differing only by
case got the shared aggregation twice and counted every measurement twice.
---
 opentelemetry-sdk/src/metrics/pipeline.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/metrics/pipeline.rs b/opentelemetry-sdk/src/metrics/pipeline.rs
index 45218fc..58b63ad 100644
--- a/opentelemetry-sdk/src/metrics/pipeline.rs
+++ b/opentelemetry-sdk/src/metrics/pipeline.rs
@@ -273,7 +273,9 @@ where
             };
             matched = true;
 
-            let id = self.inst_id(kind, &stream);
+            let mut id = self.inst_id(kind, &stream);
+            // Names differing only by case identify the same aggregator.
+            id.normalize();
             if seen.contains(&id) {
                 continue; // This aggregator has already been added
             }
-- 
2.43.0


From b3441aa0e8c79f0ac6e5b6f8fd4c3c8b329281e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:49 +0000
Subject: [PATCH 17/44] fix: exponential histogram no longer overflows when its
 values span all of f64

At scale 20 the bins of a subnormal and a huge value are more than i32::MAX apart:
recording both panicked, or tried to allocate billions of buckets.
---
 .../src/metrics/internal/exponential_histogram.rs              | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/metrics/internal/exponential_histogram.rs b/opentelemetry-sdk/src/metrics/internal/exponential_histogram.rs
index 1a280a8..db59a1a 100644
--- a/opentelemetry-sdk/src/metrics/internal/exponential_histogram.rs
+++ b/opentelemetry-sdk/src/metrics/internal/exponential_histogram.rs
@@ -155,7 +155,8 @@ fn scale_change(max_size: i32, bin: i32, start_bin: i32, length: i32) -> u32 {
     }
 
     let mut count = 0u32;
-    while high - low >= max_size {
+    // At the largest scales two bins can be further apart than an `i32` can express.
+    while i64::from(high) - i64::from(low) >= i64::from(max_size) {
         low >>= 1;
         high >>= 1;
         count += 1;
-- 
2.43.0


From 8de9102c5dee68af3cdfc962153926c933cf7681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:26 +0000
Subject: [PATCH 18/44] fix: exponential histogram counts no measurement it
 drops

A measurement that does not fit even at the smallest scale was dropped from the
buckets but still added to the count, sum, minimum and maximum.
---
 .../metrics/internal/exponential_histogram.rs | 25 +++++++++++--------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/opentelemetry-sdk/src/metrics/internal/exponential_histogram.rs b/opentelemetry-sdk/src/metrics/internal/exponential_histogram.rs
index db59a1a..0c76cdf 100644
--- a/opentelemetry-sdk/src/metrics/internal/exponential_histogram.rs
+++ b/opentelemetry-sdk/src/metrics/internal/exponential_histogram.rs
@@ -51,19 +51,10 @@ impl<T: Number> ExpoHistogramDataPoint<T> {
     ///
     /// It will rescale the buckets if needed.
     fn record(&mut self, v: T) {
-        self.count += 1;
-
-        if v < self.min {
-            self.min = v;
-        }
-        if v > self.max {
-            self.max = v;
-        }
-        self.sum += v;
-
         let abs_v = v.into_float().abs();
 
         if abs_v == 0.0 {
+            self.update_totals(v);
             self.zero_count += 1;
             return;
         }
@@ -114,6 +105,7 @@ impl<T: Number> ExpoHistogramDataPoint<T> {
             bin = self.get_bin(abs_v);
         }
 
+        self.update_totals(v);
         if v_is_negative {
             self.neg_buckets.record(bin)
         } else {
@@ -121,6 +113,19 @@ impl<T: Number> ExpoHistogramDataPoint<T> {
         }
     }
 
+    /// Adds a measurement that is going to be counted to the count, sum, minimum and maximum.
+    fn update_totals(&mut self, v: T) {
+        self.count += 1;
+
+        if v < self.min {
+            self.min = v;
+        }
+        if v > self.max {
+            self.max = v;
+        }
+        self.sum += v;
+    }
+
     /// the bin `v` should be recorded into.
     fn get_bin(&self, v: f64) -> i32 {
         let (frac, exp) = frexp(v);
-- 
2.43.0


From db7a61c6a2876d9e0b8d2fcee9bc7100eaa55b5e Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 22:31:32 +0000
Subject: [PATCH 19/44] fix: batch span processor flush and shutdown export
 everything queued

---
 opentelemetry-sdk/src/trace/span_processor.rs | 48 +++++++++++++------
 1 file changed, 33 insertions(+), 15 deletions(-)

diff --git a/opentelemetry-sdk/src/trace/span_processor.rs b/opentelemetry-sdk/src/trace/span_processor.rs
index 595099e..40102c9 100644
--- a/opentelemetry-sdk/src/trace/span_processor.rs
+++ b/opentelemetry-sdk/src/trace/span_processor.rs
@@ -445,8 +445,8 @@ impl BatchSpanProcessor {
         }
     }
 
-    // This method gets upto `max_export_batch_size` amount of spans from the channel and exports them.
-    // It returns the result of the export operation.
+    // This method exports the spans which are in the channel when it is called, in batches of up to
+    // `max_export_batch_size` spans. It returns the first failure of these export operations, if any.
     // It expects the span vec to be empty when it's called.
     #[inline]
     fn get_spans_and_export<E>(
@@ -460,19 +460,33 @@ impl BatchSpanProcessor {
     where
         E: SpanExporter + Send + Sync + 'static,
     {
-        // Get upto `max_export_batch_size` amount of spans from the channel and push them to the span vec
-        while let Ok(span) = spans_receiver.try_recv() {
-            spans.push(span);
-            if spans.len() == config.max_export_batch_size {
-                break;
+        // `target` is used to determine the stopping criteria for exporting spans. Every span that is
+        // in the channel at this point has been counted.
+        let target = current_batch_size.load(Ordering::Relaxed);
+        let mut total_exported_spans: usize = 0;
+        let mut result = OTelSdkResult::Ok(());
+
+        loop {
+            // Get upto `max_export_batch_size` amount of spans from the channel and push them to the span vec
+            while let Ok(span) = spans_receiver.try_recv() {
+                spans.push(span);
+                if spans.len() == config.max_export_batch_size {
+                    break;
+                }
             }
-        }
 
-        let count_of_spans = spans.len(); // Count of spans that will be exported
-        let result = Self::export_batch_sync(exporter, spans, last_export_time); // This method clears the spans vec after exporting
+            let count_of_spans = spans.len(); // Count of spans that will be exported
+            total_exported_spans += count_of_spans;
+            let batch_result = Self::export_batch_sync(exporter, spans, last_export_time); // This method clears the spans vec after exporting
+            result = result.and(batch_result);
 
-        current_batch_size.fetch_sub(count_of_spans, Ordering::Relaxed);
-        result
+            current_batch_size.fetch_sub(count_of_spans, Ordering::Relaxed);
+
+            // A span may be counted before it is in the channel, so stop also when the channel is empty.
+            if count_of_spans == 0 || total_exported_spans >= target {
+                return result;
+            }
+        }
     }
 
     #[allow(clippy::vec_box)]
@@ -522,20 +536,24 @@ impl SpanProcessor for BatchSpanProcessor {
             );
             return;
         }
+        // Count the span before sending it: the worker thread subtracts the spans it
+        // takes from the channel, and drains as many spans as are counted when flushing.
+        let batch_size = self.current_batch_size.fetch_add(1, Ordering::Relaxed) + 1;
         let result = self.span_sender.try_send(span);
 
         if result.is_err() {
+            self.current_batch_size.fetch_sub(1, Ordering::Relaxed);
             // Increment dropped span count. The first time we have to drop a span,
             // emit a warning.
             if self.dropped_span_count.fetch_add(1, Ordering::Relaxed) == 0 {
                 otel_warn!(name: "BatchSpanProcessor.SpanDroppingStarted",
                     message = "BatchSpanProcessor dropped a Span due to queue full/internal errors. No further internal log will be emitted for further drops until Shutdown. During Shutdown time, a log will be emitted with exact count of total Spans dropped.");
             }
+            return;
         }
         // At this point, sending the span to the data channel was successful.
-        // Increment the current batch size and check if it has reached the max export batch size.
-        if self.current_batch_size.fetch_add(1, Ordering::Relaxed) + 1 >= self.max_export_batch_size
-        {
+        // Check if the current batch size has reached the max export batch size.
+        if batch_size >= self.max_export_batch_size {
             // Check if the a control message for exporting spans is already sent to the worker thread.
             // If not, send a control message to export spans.
             // `export_span_message_sent` is set to false ONLY when the worker thread has processed the control message.
-- 
2.43.0


From 33fdfdfad48e925afa2f05caf4f390a518e9efaf Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 22:31:32 +0000
Subject: [PATCH 20/44] fix: batch span processor shutdown shuts its exporter
 down

---
 opentelemetry-sdk/src/trace/span_processor.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/opentelemetry-sdk/src/trace/span_processor.rs b/opentelemetry-sdk/src/trace/span_processor.rs
index 40102c9..6fba8c3 100644
--- a/opentelemetry-sdk/src/trace/span_processor.rs
+++ b/opentelemetry-sdk/src/trace/span_processor.rs
@@ -373,6 +373,7 @@ impl BatchSpanProcessor {
                                     &current_batch_size,
                                     &config,
                                 );
+                                let result = result.and(exporter.shutdown());
                                 let _ = sender.send(result);
 
                                 otel_debug!(
-- 
2.43.0


From 50e6ce9d7bb7baca1f89e2700e0c08c7c6b645e6 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 22:31:32 +0000
Subject: [PATCH 21/44] fix: batch log processor counts a record before
 queueing it

---
 .../src/logs/batch_log_processor.rs           | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/opentelemetry-sdk/src/logs/batch_log_processor.rs b/opentelemetry-sdk/src/logs/batch_log_processor.rs
index 7f37914..bba51cd 100644
--- a/opentelemetry-sdk/src/logs/batch_log_processor.rs
+++ b/opentelemetry-sdk/src/logs/batch_log_processor.rs
@@ -154,19 +154,24 @@ impl Debug for BatchLogProcessor {
 
 impl LogProcessor for BatchLogProcessor {
     fn emit(&self, record: &mut SdkLogRecord, instrumentation: &InstrumentationScope) {
+        // Count the log record before sending it: the worker thread subtracts
+        // the records it takes from the channel, and drains as many records as
+        // are counted when flushing.
+        let batch_size = self.current_batch_size.fetch_add(1, Ordering::Relaxed) + 1;
         let result = self
             .logs_sender
             .try_send(Box::new((record.clone(), instrumentation.clone())));
+        if result.is_err() {
+            self.current_batch_size.fetch_sub(1, Ordering::Relaxed);
+        }
 
         // match for result and handle each separately
         match result {
             Ok(_) => {
                 // Successfully sent the log record to the data channel.
-                // Increment the current batch size and check if it has reached
-                // the max export batch size.
-                if self.current_batch_size.fetch_add(1, Ordering::Relaxed) + 1
-                    >= self.max_export_batch_size
-                {
+                // Check if the current batch size has reached the max export
+                // batch size.
+                if batch_size >= self.max_export_batch_size {
                     // Check if the a control message for exporting logs is
                     // already sent to the worker thread. If not, send a control
                     // message to export logs. `export_log_message_sent` is set
@@ -382,6 +387,10 @@ impl BatchLogProcessor {
                         }
 
                         let count_of_logs = logs.len(); // Count of logs that will be exported
+                        if count_of_logs == 0 {
+                            // A log may be counted before it is in the channel.
+                            break;
+                        }
                         total_exported_logs += count_of_logs;
 
                         result = export_batch_sync(exporter, logs, last_export_time); // This method clears the logs vec after exporting
-- 
2.43.0


From 078e87bc8930892c949e7b485e74930c70d7618b Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 22:31:32 +0000
Subject: [PATCH 22/44] hook: schedule points in the batch processors (cfg
 otel_verif)

---
 opentelemetry-sdk/src/lib.rs                  | 14 ++++++++
 .../src/logs/batch_log_processor.rs           | 33 +++++++++++++------
 opentelemetry-sdk/src/trace/span_processor.rs | 16 ++++++++-
 opentelemetry-sdk/src/verif.rs                | 22 +++++++++++++
 4 files changed, 74 insertions(+), 11 deletions(-)
 create mode 100644 opentelemetry-sdk/src/verif.rs

diff --git a/opentelemetry-sdk/src/lib.rs b/opentelemetry-sdk/src/lib.rs
index 8ee470b..9a3a7e9 100644
--- a/opentelemetry-sdk/src/lib.rs
+++ b/opentelemetry-sdk/src/lib.rs
@@ -115,6 +115,20 @@
     html_logo_url = "https://raw.githubusercontent.com/open-telemetry/opentelemetry-rust/main/assets/logo.svg"
 )]
 #![cfg_attr(test, deny(warnings))]
+// `otel_verif` is passed with RUSTFLAGS by the verification harness only.
+#![allow(unexpected_cfgs)]
+
+/// A schedule point: a call into the verification harness with `--cfg otel_verif`, else nothing.
+#[allow(unused_macros)]
+macro_rules! verif_point {
+    ($name:literal) => {
+        #[cfg(otel_verif)]
+        crate::verif::point($name);
+    };
+}
+
+#[cfg(otel_verif)]
+pub mod verif;
 
 pub(crate) mod growable_array;
 
diff --git a/opentelemetry-sdk/src/logs/batch_log_processor.rs b/opentelemetry-sdk/src/logs/batch_log_processor.rs
index bba51cd..2964ad6 100644
--- a/opentelemetry-sdk/src/logs/batch_log_processor.rs
+++ b/opentelemetry-sdk/src/logs/batch_log_processor.rs
@@ -158,9 +158,11 @@ impl LogProcessor for BatchLogProcessor {
         // the records it takes from the channel, and drains as many records as
         // are counted when flushing.
         let batch_size = self.current_batch_size.fetch_add(1, Ordering::Relaxed) + 1;
+        verif_point!("emit.counted");
         let result = self
             .logs_sender
             .try_send(Box::new((record.clone(), instrumentation.clone())));
+        verif_point!("emit.sent");
         if result.is_err() {
             self.current_batch_size.fetch_sub(1, Ordering::Relaxed);
         }
@@ -231,15 +233,18 @@ impl LogProcessor for BatchLogProcessor {
             .message_sender
             .try_send(BatchMessage::ForceFlush(sender))
         {
-            Ok(_) => receiver
-                .recv_timeout(self.forceflush_timeout)
-                .map_err(|err| {
-                    if err == RecvTimeoutError::Timeout {
-                        OTelSdkError::Timeout(self.forceflush_timeout)
-                    } else {
-                        OTelSdkError::InternalFailure(format!("{}", err))
-                    }
-                })?,
+            Ok(_) => {
+                verif_point!("answer?");
+                receiver
+                    .recv_timeout(self.forceflush_timeout)
+                    .map_err(|err| {
+                        if err == RecvTimeoutError::Timeout {
+                            OTelSdkError::Timeout(self.forceflush_timeout)
+                        } else {
+                            OTelSdkError::InternalFailure(format!("{}", err))
+                        }
+                    })?
+            }
             Err(mpsc::TrySendError::Full(_)) => {
                 // If the control message could not be sent, emit a warning.
                 otel_debug!(
@@ -276,11 +281,13 @@ impl LogProcessor for BatchLogProcessor {
         let (sender, receiver) = mpsc::sync_channel(1);
         match self.message_sender.try_send(BatchMessage::Shutdown(sender)) {
             Ok(_) => {
+                verif_point!("answer?");
                 receiver
                     .recv_timeout(self.shutdown_timeout)
                     .map(|_| {
                         // join the background thread after receiving back the
                         // shutdown signal
+                        verif_point!("join?");
                         if let Some(handle) = self.handle.lock().unwrap().take() {
                             handle.join().unwrap();
                         }
@@ -378,9 +385,11 @@ impl BatchLogProcessor {
                     let mut total_exported_logs: usize = 0;
 
                     while target > 0 && total_exported_logs < target {
+                        verif_point!("take");
                         // Get upto `max_export_batch_size` amount of logs log records from the channel and push them to the logs vec
                         while let Ok(log) = logs_receiver.try_recv() {
                             logs.push(log);
+                            verif_point!("taken");
                             if logs.len() == config.max_export_batch_size {
                                 break;
                             }
@@ -395,6 +404,7 @@ impl BatchLogProcessor {
 
                         result = export_batch_sync(exporter, logs, last_export_time); // This method clears the logs vec after exporting
 
+                        verif_point!("exported");
                         current_batch_size.fetch_sub(count_of_logs, Ordering::Relaxed);
                     }
                     result
@@ -406,7 +416,10 @@ impl BatchLogProcessor {
                         .checked_sub(last_export_time.elapsed())
                         .unwrap_or(config.scheduled_delay);
 
-                    match message_receiver.recv_timeout(remaining_time) {
+                    verif_point!("recv?");
+                    let received = message_receiver.recv_timeout(remaining_time);
+                    verif_point!("received");
+                    match received {
                         Ok(BatchMessage::ExportLog(export_log_message_sent)) => {
                             // Reset the export log message sent flag now it has has been processed.
                             export_log_message_sent.store(false, Ordering::Relaxed);
diff --git a/opentelemetry-sdk/src/trace/span_processor.rs b/opentelemetry-sdk/src/trace/span_processor.rs
index 6fba8c3..4bf13f6 100644
--- a/opentelemetry-sdk/src/trace/span_processor.rs
+++ b/opentelemetry-sdk/src/trace/span_processor.rs
@@ -334,7 +334,10 @@ impl BatchSpanProcessor {
                         Some(remaining_time) => remaining_time,
                         None => config.scheduled_delay,
                     };
-                    match message_receiver.recv_timeout(remaining_time) {
+                    verif_point!("recv?");
+                    let received = message_receiver.recv_timeout(remaining_time);
+                    verif_point!("received");
+                    match received {
                         Ok(message) => match message {
                             BatchMessage::ExportSpan(export_span_message_sent) => {
                                 // Reset the export span message sent flag now it has has been processed.
@@ -468,9 +471,11 @@ impl BatchSpanProcessor {
         let mut result = OTelSdkResult::Ok(());
 
         loop {
+            verif_point!("take");
             // Get upto `max_export_batch_size` amount of spans from the channel and push them to the span vec
             while let Ok(span) = spans_receiver.try_recv() {
                 spans.push(span);
+                verif_point!("taken");
                 if spans.len() == config.max_export_batch_size {
                     break;
                 }
@@ -481,6 +486,7 @@ impl BatchSpanProcessor {
             let batch_result = Self::export_batch_sync(exporter, spans, last_export_time); // This method clears the spans vec after exporting
             result = result.and(batch_result);
 
+            verif_point!("exported");
             current_batch_size.fetch_sub(count_of_spans, Ordering::Relaxed);
 
             // A span may be counted before it is in the channel, so stop also when the channel is empty.
@@ -537,10 +543,13 @@ impl SpanProcessor for BatchSpanProcessor {
             );
             return;
         }
+        verif_point!("emit.checked");
         // Count the span before sending it: the worker thread subtracts the spans it
         // takes from the channel, and drains as many spans as are counted when flushing.
         let batch_size = self.current_batch_size.fetch_add(1, Ordering::Relaxed) + 1;
+        verif_point!("emit.counted");
         let result = self.span_sender.try_send(span);
+        verif_point!("emit.sent");
 
         if result.is_err() {
             self.current_batch_size.fetch_sub(1, Ordering::Relaxed);
@@ -588,11 +597,13 @@ impl SpanProcessor for BatchSpanProcessor {
         if self.is_shutdown.load(Ordering::Relaxed) {
             return Err(OTelSdkError::AlreadyShutdown);
         }
+        verif_point!("flush.checked");
         let (sender, receiver) = sync_channel(1);
         self.message_sender
             .try_send(BatchMessage::ForceFlush(sender))
             .map_err(|e| OTelSdkError::InternalFailure(e.to_string()))?;
 
+        verif_point!("answer?");
         receiver
             .recv_timeout(self.forceflush_timeout)
             .map_err(|_| OTelSdkError::Timeout(self.forceflush_timeout))?
@@ -614,14 +625,17 @@ impl SpanProcessor for BatchSpanProcessor {
             );
         }
 
+        verif_point!("shutdown.checked");
         let (sender, receiver) = sync_channel(1);
         self.message_sender
             .try_send(BatchMessage::Shutdown(sender))
             .map_err(|e| OTelSdkError::InternalFailure(e.to_string()))?;
 
+        verif_point!("answer?");
         let result = receiver
             .recv_timeout(self.shutdown_timeout)
             .map_err(|_| OTelSdkError::Timeout(self.shutdown_timeout))?;
+        verif_point!("join?");
         if let Some(handle) = self.handle.lock().unwrap().take() {
             if let Err(err) = handle.join() {
                 return Err(OTelSdkError::InternalFailure(format!(
diff --git a/opentelemetry-sdk/src/verif.rs b/opentelemetry-sdk/src/verif.rs
new file mode 100644
index 0000000..d1a5a4c
--- /dev/null
+++ b/opentelemetry-sdk/src/verif.rs
@@ -0,0 +1,22 @@
+//! Schedule points for the verification harness. This module only exists when the crate is
+//! compiled with `--cfg otel_verif`; the `verif_point!` statements are empty otherwise.
+#![allow(missing_docs)]
+
+use std::sync::OnceLock;
+
+type Hook = Box<dyn Fn(&'static str) + Send + Sync>;
+
+static HOOK: OnceLock<Hook> = OnceLock::new();
+
+/// Installs the function every schedule point calls. Only the first call has an effect.
+pub fn set_hook(hook: impl Fn(&'static str) + Send + Sync + 'static) {
+    let _ = HOOK.set(Box::new(hook));
+}
+
+/// Calls the installed hook, if any.
+#[inline]
+pub fn point(name: &'static str) {
+    if let Some(hook) = HOOK.get() {
+        hook(name)
+    }
+}
-- 
2.43.0


From 14779bb657044b90bad18cb30b5d98c64e199bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:14 +0000
Subject: [PATCH 23/44] fix: async batch span processor answers shutdown after
 its exporter is shut down

---
 .../src/trace/span_processor_with_async_runtime.rs     | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/trace/span_processor_with_async_runtime.rs b/opentelemetry-sdk/src/trace/span_processor_with_async_runtime.rs
index cb4d2fc..3da6f86 100644
--- a/opentelemetry-sdk/src/trace/span_processor_with_async_runtime.rs
+++ b/opentelemetry-sdk/src/trace/span_processor_with_async_runtime.rs
@@ -286,8 +286,16 @@ impl<E: SpanExporter, R: RuntimeChannel> BatchSpanProcessorInternal<E, R> {
             }
             // Stream has terminated or processor is shutdown, return to finish execution.
             BatchMessage::Shutdown(ch) => {
-                self.flush(Some(ch)).await;
+                let export_result = self.export().await;
+                while self.export_tasks.next().await.is_some() {}
                 let _ = self.exporter.shutdown();
+                // Answer only now, when the exporter has been shut down.
+                if let Err(result) = ch.send(export_result) {
+                    otel_debug!(
+                        name: "BatchSpanProcessor.Shutdown.SendResultError",
+                        reason = format!("{:?}", result)
+                    );
+                }
                 return false;
             }
             // propagate the resource
-- 
2.43.0


From 20aa28164fe1137a70d07cf650ae173470c6564d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:14 +0000
Subject: [PATCH 24/44] fix: simple processors export nothing after shutdown

---
 opentelemetry-sdk/src/logs/simple_log_processor.rs |  4 ++++
 opentelemetry-sdk/src/trace/span_processor.rs      | 11 ++++++++++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/logs/simple_log_processor.rs b/opentelemetry-sdk/src/logs/simple_log_processor.rs
index 5cbda69..0b0efb8 100644
--- a/opentelemetry-sdk/src/logs/simple_log_processor.rs
+++ b/opentelemetry-sdk/src/logs/simple_log_processor.rs
@@ -91,6 +91,10 @@ impl<T: LogExporter> LogProcessor for SimpleLogProcessor<T> {
             .lock()
             .map_err(|_| OTelSdkError::InternalFailure("SimpleLogProcessor mutex poison".into()))
             .and_then(|exporter| {
+                // the processor may have been shut down since the check above
+                if self.is_shutdown.load(std::sync::atomic::Ordering::Relaxed) {
+                    return Err(OTelSdkError::AlreadyShutdown);
+                }
                 let log_tuple = &[(record as &SdkLogRecord, instrumentation)];
                 futures_executor::block_on(exporter.export(LogBatch::new(log_tuple)))
             });
diff --git a/opentelemetry-sdk/src/trace/span_processor.rs b/opentelemetry-sdk/src/trace/span_processor.rs
index 4bf13f6..dcd5486 100644
--- a/opentelemetry-sdk/src/trace/span_processor.rs
+++ b/opentelemetry-sdk/src/trace/span_processor.rs
@@ -113,6 +113,7 @@ pub trait SpanProcessor: Send + Sync + std::fmt::Debug {
 #[derive(Debug)]
 pub struct SimpleSpanProcessor<T: SpanExporter> {
     exporter: Mutex<T>,
+    is_shutdown: AtomicBool,
 }
 
 impl<T: SpanExporter> SimpleSpanProcessor<T> {
@@ -120,6 +121,7 @@ impl<T: SpanExporter> SimpleSpanProcessor<T> {
     pub fn new(exporter: T) -> Self {
         Self {
             exporter: Mutex::new(exporter),
+            is_shutdown: AtomicBool::new(false),
         }
     }
 }
@@ -138,7 +140,13 @@ impl<T: SpanExporter> SpanProcessor for SimpleSpanProcessor<T> {
             .exporter
             .lock()
             .map_err(|_| OTelSdkError::InternalFailure("SimpleSpanProcessor mutex poison".into()))
-            .and_then(|exporter| futures_executor::block_on(exporter.export(vec![span])));
+            .and_then(|exporter| {
+                // noop after shutdown
+                if self.is_shutdown.load(Ordering::Relaxed) {
+                    return Err(OTelSdkError::AlreadyShutdown);
+                }
+                futures_executor::block_on(exporter.export(vec![span]))
+            });
 
         if let Err(err) = result {
             // TODO: check error type, and log `error` only if the error is user-actionable, else log `debug`
@@ -155,6 +163,7 @@ impl<T: SpanExporter> SpanProcessor for SimpleSpanProcessor<T> {
     }
 
     fn shutdown(&self) -> OTelSdkResult {
+        self.is_shutdown.store(true, Ordering::Relaxed);
         if let Ok(mut exporter) = self.exporter.lock() {
             exporter.shutdown()
         } else {
-- 
2.43.0


From cde045426c6454a64b366b31fcd29daf820b590c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:14 +0000
Subject: [PATCH 25/44] hook: schedule points in the simple and async
 processors (cfg otel_verif)

---
 opentelemetry-sdk/src/logs/log_processor_with_async_runtime.rs  | 2 ++
 opentelemetry-sdk/src/logs/simple_log_processor.rs              | 2 ++
 opentelemetry-sdk/src/trace/span_processor.rs                   | 1 +
 .../src/trace/span_processor_with_async_runtime.rs              | 2 ++
 4 files changed, 7 insertions(+)

diff --git a/opentelemetry-sdk/src/logs/log_processor_with_async_runtime.rs b/opentelemetry-sdk/src/logs/log_processor_with_async_runtime.rs
index 961fa99..23d0e44 100644
--- a/opentelemetry-sdk/src/logs/log_processor_with_async_runtime.rs
+++ b/opentelemetry-sdk/src/logs/log_processor_with_async_runtime.rs
@@ -82,6 +82,7 @@ impl<R: RuntimeChannel> LogProcessor for BatchLogProcessor<R> {
             .try_send(BatchMessage::Flush(Some(res_sender)))
             .map_err(|err| OTelSdkError::InternalFailure(format!("{:?}", err)))?;
 
+        verif_point!("answer?");
         futures_executor::block_on(res_receiver)
             .map_err(|err| OTelSdkError::InternalFailure(format!("{:?}", err)))
             .and_then(std::convert::identity)
@@ -103,6 +104,7 @@ impl<R: RuntimeChannel> LogProcessor for BatchLogProcessor<R> {
             .try_send(BatchMessage::Shutdown(res_sender))
             .map_err(|err| OTelSdkError::InternalFailure(format!("{:?}", err)))?;
 
+        verif_point!("answer?");
         futures_executor::block_on(res_receiver)
             .map_err(|err| OTelSdkError::InternalFailure(format!("{:?}", err)))
             .and_then(std::convert::identity)
diff --git a/opentelemetry-sdk/src/logs/simple_log_processor.rs b/opentelemetry-sdk/src/logs/simple_log_processor.rs
index 0b0efb8..180db2c 100644
--- a/opentelemetry-sdk/src/logs/simple_log_processor.rs
+++ b/opentelemetry-sdk/src/logs/simple_log_processor.rs
@@ -86,6 +86,7 @@ impl<T: LogExporter> LogProcessor for SimpleLogProcessor<T> {
             return;
         }
 
+        verif_point!("emit.lock?");
         let result = self
             .exporter
             .lock()
@@ -123,6 +124,7 @@ impl<T: LogExporter> LogProcessor for SimpleLogProcessor<T> {
     fn shutdown(&self) -> OTelSdkResult {
         self.is_shutdown
             .store(true, std::sync::atomic::Ordering::Relaxed);
+        verif_point!("shutdown.lock?");
         if let Ok(exporter) = self.exporter.lock() {
             exporter.shutdown()
         } else {
diff --git a/opentelemetry-sdk/src/trace/span_processor.rs b/opentelemetry-sdk/src/trace/span_processor.rs
index dcd5486..ed95dee 100644
--- a/opentelemetry-sdk/src/trace/span_processor.rs
+++ b/opentelemetry-sdk/src/trace/span_processor.rs
@@ -136,6 +136,7 @@ impl<T: SpanExporter> SpanProcessor for SimpleSpanProcessor<T> {
             return;
         }
 
+        verif_point!("emit.lock?");
         let result = self
             .exporter
             .lock()
diff --git a/opentelemetry-sdk/src/trace/span_processor_with_async_runtime.rs b/opentelemetry-sdk/src/trace/span_processor_with_async_runtime.rs
index 3da6f86..7fb3f20 100644
--- a/opentelemetry-sdk/src/trace/span_processor_with_async_runtime.rs
+++ b/opentelemetry-sdk/src/trace/span_processor_with_async_runtime.rs
@@ -128,6 +128,7 @@ impl<R: RuntimeChannel> SpanProcessor for BatchSpanProcessor<R> {
                 OTelSdkError::InternalFailure(format!("Failed to send flush message: {}", err))
             })?;
 
+        verif_point!("answer?");
         futures_executor::block_on(res_receiver).map_err(|err| {
             OTelSdkError::InternalFailure(format!("Flush response channel error: {}", err))
         })?
@@ -152,6 +153,7 @@ impl<R: RuntimeChannel> SpanProcessor for BatchSpanProcessor<R> {
                 OTelSdkError::InternalFailure(format!("Failed to send shutdown message: {}", err))
             })?;
 
+        verif_point!("answer?");
         futures_executor::block_on(res_receiver).map_err(|err| {
             OTelSdkError::InternalFailure(format!("Shutdown response channel error: {}", err))
         })?
-- 
2.43.0


From 565867fe61bc33d7c75116784a7de080c147694a Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Fri, 20 Nov 2026 00:19:35 +0000
Subject: [PATCH 26/44] fix: keep a measurement without attributes and its flag
 together for delta collections

---
 opentelemetry-sdk/src/metrics/internal/mod.rs | 22 ++++++++++---------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/opentelemetry-sdk/src/metrics/internal/mod.rs b/opentelemetry-sdk/src/metrics/internal/mod.rs
index 9ca9de2..876b632 100644
--- a/opentelemetry-sdk/src/metrics/internal/mod.rs
+++ b/opentelemetry-sdk/src/metrics/internal/mod.rs
@@ -101,16 +101,18 @@ where
     }
 
     fn measure(&self, value: A::PreComputedValue, attributes: &[KeyValue]) {
+        let Ok(trackers) = self.trackers.read() else {
+            return;
+        };
+
+        // The lock is held here as well: a delta collection must not come between the update
+        // and the flag, or it would report the value and leave the flag set for nothing.
         if attributes.is_empty() {
             self.no_attribute_tracker.update(value);
             self.has_no_attribute_value.store(true, Ordering::Release);
             return;
         }
 
-        let Ok(trackers) = self.trackers.read() else {
-            return;
-        };
-
         // Try to retrieve and update the tracker with the attributes in the provided order first
         if let Some(tracker) = trackers.get(attributes) {
             tracker.update(value);
@@ -185,15 +187,15 @@ where
         MapFn: FnMut(Vec<KeyValue>, A) -> Res,
     {
         prepare_data(dest, self.count.load(Ordering::SeqCst));
-        if self.has_no_attribute_value.swap(false, Ordering::AcqRel) {
-            dest.push(map_fn(
-                vec![],
-                self.no_attribute_tracker.clone_and_reset(&self.config),
-            ));
-        }
 
         if let Ok(mut trackers_collect) = self.trackers_for_collect().write() {
             if let Ok(mut trackers_current) = self.trackers.write() {
+                if self.has_no_attribute_value.swap(false, Ordering::AcqRel) {
+                    dest.push(map_fn(
+                        vec![],
+                        self.no_attribute_tracker.clone_and_reset(&self.config),
+                    ));
+                }
                 swap(trackers_collect.deref_mut(), trackers_current.deref_mut());
                 self.count.store(0, Ordering::SeqCst);
             } else {
-- 
2.43.0


From 8a55062fb320f3d1ac4181db7c51ab3c8bcd6870 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Fri, 20 Nov 2026 00:19:42 +0000
Subject: [PATCH 27/44] hook: schedule points in the metrics pipeline (cfg
 otel_verif)

---
 opentelemetry-sdk/src/metrics/internal/mod.rs   | 7 +++++++
 opentelemetry-sdk/src/metrics/meter_provider.rs | 1 +
 opentelemetry-sdk/src/metrics/pipeline.rs       | 1 +
 3 files changed, 9 insertions(+)

diff --git a/opentelemetry-sdk/src/metrics/internal/mod.rs b/opentelemetry-sdk/src/metrics/internal/mod.rs
index 876b632..b6d99a9 100644
--- a/opentelemetry-sdk/src/metrics/internal/mod.rs
+++ b/opentelemetry-sdk/src/metrics/internal/mod.rs
@@ -101,6 +101,7 @@ where
     }
 
     fn measure(&self, value: A::PreComputedValue, attributes: &[KeyValue]) {
+        verif_point!("measure.read?");
         let Ok(trackers) = self.trackers.read() else {
             return;
         };
@@ -109,6 +110,7 @@ where
         // and the flag, or it would report the value and leave the flag set for nothing.
         if attributes.is_empty() {
             self.no_attribute_tracker.update(value);
+            verif_point!("measure.updated");
             self.has_no_attribute_value.store(true, Ordering::Release);
             return;
         }
@@ -129,6 +131,7 @@ where
         // Give up the read lock before acquiring the write lock.
         drop(trackers);
 
+        verif_point!("measure.write?");
         let Ok(mut trackers) = self.trackers.write() else {
             return;
         };
@@ -168,6 +171,7 @@ where
             dest.push(map_fn(vec![], &self.no_attribute_tracker));
         }
 
+        verif_point!("collect.read?");
         let Ok(trackers) = self.trackers.read() else {
             return;
         };
@@ -188,6 +192,7 @@ where
     {
         prepare_data(dest, self.count.load(Ordering::SeqCst));
 
+        verif_point!("collect.write?");
         if let Ok(mut trackers_collect) = self.trackers_for_collect().write() {
             if let Ok(mut trackers_current) = self.trackers.write() {
                 if self.has_no_attribute_value.swap(false, Ordering::AcqRel) {
@@ -203,6 +208,7 @@ where
                 return;
             }
 
+            verif_point!("collect.swapped");
             let mut seen = HashSet::new();
             for (attrs, tracker) in trackers_collect.drain() {
                 if seen.insert(Arc::as_ptr(&tracker)) {
@@ -464,6 +470,7 @@ impl AtomicTracker<f64> for F64AtomicTracker {
         loop {
             let current_value = f64::from_bits(current_value_as_u64);
             let new_value = current_value + value;
+            verif_point!("add.loaded");
             let new_value_as_u64 = new_value.to_bits();
             match self.inner.compare_exchange(
                 current_value_as_u64,
diff --git a/opentelemetry-sdk/src/metrics/meter_provider.rs b/opentelemetry-sdk/src/metrics/meter_provider.rs
index c4d5f86..80c02d3 100644
--- a/opentelemetry-sdk/src/metrics/meter_provider.rs
+++ b/opentelemetry-sdk/src/metrics/meter_provider.rs
@@ -200,6 +200,7 @@ impl MeterProvider for SdkMeterProvider {
             otel_info!(name: "MeterNameEmpty", message = "Meter name is empty; consider providing a meaningful name. Meter will function normally and the provided name will be used as-is.");
         };
 
+        verif_point!("meter.lock?");
         if let Ok(mut meters) = self.inner.meters.lock() {
             if let Some(existing_meter) = meters.get(&scope) {
                 otel_debug!(
diff --git a/opentelemetry-sdk/src/metrics/pipeline.rs b/opentelemetry-sdk/src/metrics/pipeline.rs
index 58b63ad..0b53de1 100644
--- a/opentelemetry-sdk/src/metrics/pipeline.rs
+++ b/opentelemetry-sdk/src/metrics/pipeline.rs
@@ -382,6 +382,7 @@ where
         // cache lookup to ensure the correct comparison.
         id.normalize();
 
+        verif_point!("create.lock?");
         let mut cache = self.aggregators.lock()?;
 
         let cached = cache.entry(id).or_insert_with(|| {
-- 
2.43.0


From c5d81f6eb3d8189a99ca0a9d1259ab07566ff06a Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Fri, 20 Nov 2026 00:39:18 +0000
Subject: [PATCH 28/44] hook: schedule points in the periodic readers (cfg
 otel_verif)

---
 opentelemetry-sdk/src/metrics/periodic_reader.rs          | 8 +++++++-
 .../src/metrics/periodic_reader_with_async_runtime.rs     | 4 ++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/metrics/periodic_reader.rs b/opentelemetry-sdk/src/metrics/periodic_reader.rs
index 518a0cc..4f97a69 100644
--- a/opentelemetry-sdk/src/metrics/periodic_reader.rs
+++ b/opentelemetry-sdk/src/metrics/periodic_reader.rs
@@ -170,7 +170,10 @@ impl<E: PushMetricExporter> PeriodicReader<E> {
                     otel_debug!(
                         name: "PeriodReaderThreadLoopAlive", message = "Next export will happen after interval, unless flush or shutdown is triggered.", interval_in_millisecs = remaining_interval.as_millis()
                     );
-                    match message_receiver.recv_timeout(remaining_interval) {
+                    verif_point!("recv?");
+                    let message = message_receiver.recv_timeout(remaining_interval);
+                    verif_point!("received");
+                    match message {
                         Ok(Message::Flush(response_sender)) => {
                             otel_debug!(
                                 name: "PeriodReaderThreadExportingDueToFlush"
@@ -411,6 +414,7 @@ impl<E: PushMetricExporter> PeriodicReaderInner<E> {
 
         // Relying on futures executor to execute async call.
         // TODO: Pass timeout to exporter
+        verif_point!("collected");
         futures_executor::block_on(self.exporter.export(&mut rm))
     }
 
@@ -433,6 +437,7 @@ impl<E: PushMetricExporter> PeriodicReaderInner<E> {
             .send(Message::Flush(response_tx))
             .map_err(|e| OTelSdkError::InternalFailure(e.to_string()))?;
 
+        verif_point!("answer?");
         if let Ok(response) = response_rx.recv() {
             // TODO: call exporter's force_flush method.
             if response {
@@ -453,6 +458,7 @@ impl<E: PushMetricExporter> PeriodicReaderInner<E> {
             .map_err(|e| OTelSdkError::InternalFailure(e.to_string()))?;
 
         // TODO: Make this timeout configurable.
+        verif_point!("answer?");
         match response_rx.recv_timeout(Duration::from_secs(5)) {
             Ok(response) => {
                 if response {
diff --git a/opentelemetry-sdk/src/metrics/periodic_reader_with_async_runtime.rs b/opentelemetry-sdk/src/metrics/periodic_reader_with_async_runtime.rs
index 03e0230..434adc1 100644
--- a/opentelemetry-sdk/src/metrics/periodic_reader_with_async_runtime.rs
+++ b/opentelemetry-sdk/src/metrics/periodic_reader_with_async_runtime.rs
@@ -259,6 +259,7 @@ impl<E: PushMetricExporter, RT: Runtime> PeriodicReaderWorker<E, RT> {
             message = "Calling exporter's export method with collected metrics.",
             count = self.rm.scope_metrics.len(),
         );
+        verif_point!("collected");
         let export = self.reader.exporter.export(&mut self.rm);
         let timeout = self.runtime.delay(self.timeout);
         pin_mut!(export);
@@ -392,6 +393,7 @@ impl<E: PushMetricExporter> MetricReader for PeriodicReader<E> {
             .map_err(|e| OTelSdkError::InternalFailure(e.to_string()))?;
 
         drop(inner); // don't hold lock when blocking on future
+        verif_point!("answer?");
 
         futures_executor::block_on(receiver)
             .map_err(|err| OTelSdkError::InternalFailure(err.to_string()))
@@ -413,10 +415,12 @@ impl<E: PushMetricExporter> MetricReader for PeriodicReader<E> {
             .try_send(Message::Shutdown(sender))
             .map_err(|e| OTelSdkError::InternalFailure(e.to_string()))?;
         drop(inner); // don't hold lock when blocking on future
+        verif_point!("answer?");
 
         let shutdown_result = futures_executor::block_on(receiver)
             .map_err(|err| OTelSdkError::InternalFailure(err.to_string()))?;
 
+        verif_point!("shutdown.answered");
         // Acquire the lock again to set the shutdown flag
         let mut inner = self
             .inner
-- 
2.43.0


From 1f8292a32d24cbbdb23d7fac3e19855dc5d9d98f Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Fri, 20 Nov 2026 01:36:16 +0000
Subject: [PATCH 29/44] fix: let OTEL_SERVICE_NAME take precedence over
 service.name in OTEL_RESOURCE_ATTRIBUTES

---
 opentelemetry-sdk/src/resource/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/resource/mod.rs b/opentelemetry-sdk/src/resource/mod.rs
index bf6f43d..b3ca68c 100644
--- a/opentelemetry-sdk/src/resource/mod.rs
+++ b/opentelemetry-sdk/src/resource/mod.rs
@@ -62,9 +62,11 @@ impl Resource {
     pub fn builder() -> ResourceBuilder {
         ResourceBuilder {
             resource: Self::from_detectors(&[
-                Box::new(SdkProvidedResourceDetector),
                 Box::new(TelemetryResourceDetector),
                 Box::new(EnvResourceDetector::new()),
+                // Last, so that `OTEL_SERVICE_NAME` takes precedence over a
+                // `service.name` in `OTEL_RESOURCE_ATTRIBUTES`.
+                Box::new(SdkProvidedResourceDetector),
             ]),
         }
     }
-- 
2.43.0


From f986d064d7c1d0949a9d4a18756f8dfe5f593a0d Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Fri, 20 Nov 2026 01:36:26 +0000
Subject: [PATCH 30/44] fix: keep the schema URL of detected resources

---
 opentelemetry-sdk/src/resource/mod.rs | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/opentelemetry-sdk/src/resource/mod.rs b/opentelemetry-sdk/src/resource/mod.rs
index b3ca68c..3be5c3b 100644
--- a/opentelemetry-sdk/src/resource/mod.rs
+++ b/opentelemetry-sdk/src/resource/mod.rs
@@ -143,14 +143,7 @@ impl Resource {
     fn from_detectors(detectors: &[Box<dyn ResourceDetector>]) -> Self {
         let mut resource = Resource::empty();
         for detector in detectors {
-            let detected_res = detector.detect();
-            // This call ensures that if the Arc is not uniquely owned,
-            // the data is cloned before modification, preserving safety.
-            // If the Arc is uniquely owned, it simply returns a mutable reference to the data.
-            let inner = Arc::make_mut(&mut resource.inner);
-            for (key, value) in detected_res.into_iter() {
-                inner.attrs.insert(Key::new(key.clone()), value.clone());
-            }
+            resource = resource.merge(&detector.detect());
         }
 
         resource
-- 
2.43.0


From 1159bda168343280b2124479c5e5a2451c1ceff4 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Fri, 20 Nov 2026 01:42:57 +0000
Subject: [PATCH 31/44] fix: do not cut the batch size down to a queue size
 that code overrides

---
 opentelemetry-sdk/src/trace/span_processor.rs | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/opentelemetry-sdk/src/trace/span_processor.rs b/opentelemetry-sdk/src/trace/span_processor.rs
index ed95dee..2777f60 100644
--- a/opentelemetry-sdk/src/trace/span_processor.rs
+++ b/opentelemetry-sdk/src/trace/span_processor.rs
@@ -877,12 +877,6 @@ impl BatchConfigBuilder {
             self.max_export_batch_size = max_export_batch_size;
         }
 
-        // max export batch size must be less or equal to max queue size.
-        // we set max export batch size to max queue size if it's larger than max queue size.
-        if self.max_export_batch_size > self.max_queue_size {
-            self.max_export_batch_size = self.max_queue_size;
-        }
-
         if let Some(max_export_timeout) = env::var(OTEL_BSP_EXPORT_TIMEOUT)
             .ok()
             .and_then(|timeout| u64::from_str(&timeout).ok())
-- 
2.43.0


From f9aa9708417cb15a1f0f9929e90cb014e910cd3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:51 +0000
Subject: [PATCH 32/44] fix: report a failed OTLP/HTTP metrics export

The status of the response was ignored, so an export the server refused
counted as a success. Traces and logs already check it.
---
 opentelemetry-otlp/src/exporter/http/metrics.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-otlp/src/exporter/http/metrics.rs b/opentelemetry-otlp/src/exporter/http/metrics.rs
index 1503368..0571bfe 100644
--- a/opentelemetry-otlp/src/exporter/http/metrics.rs
+++ b/opentelemetry-otlp/src/exporter/http/metrics.rs
@@ -33,12 +33,23 @@ impl MetricsClient for OtlpHttpClient {
             request.headers_mut().insert(k.clone(), v.clone());
         }
 
+        let request_uri = request.uri().to_string();
         otel_debug!(name: "HttpMetricsClient.CallingExport");
-        client
+        let response = client
             .send_bytes(request)
             .await
             .map_err(|e| OTelSdkError::InternalFailure(format!("{e:?}")))?;
 
+        if !response.status().is_success() {
+            let error = format!(
+                "OpenTelemetry metrics export failed. Url: {}, Status Code: {}, Response: {:?}",
+                request_uri,
+                response.status().as_u16(),
+                response.body()
+            );
+            return Err(OTelSdkError::InternalFailure(error));
+        }
+
         Ok(())
     }
 
-- 
2.43.0


From 54f71281e4ffe233959850506c91427cade8d3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:51 +0000
Subject: [PATCH 33/44] fix: pass shutdown of the OTLP span exporter on to its
 client

The exporter did not implement shutdown, so the client was never shut down
and spans exported afterwards were still sent.
---
 opentelemetry-otlp/src/span.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/opentelemetry-otlp/src/span.rs b/opentelemetry-otlp/src/span.rs
index 81c2ced..56e62e4 100644
--- a/opentelemetry-otlp/src/span.rs
+++ b/opentelemetry-otlp/src/span.rs
@@ -151,6 +151,15 @@ impl opentelemetry_sdk::trace::SpanExporter for SpanExporter {
         }
     }
 
+    fn shutdown(&mut self) -> OTelSdkResult {
+        match &mut self.client {
+            #[cfg(feature = "grpc-tonic")]
+            SupportedTransportClient::Tonic(client) => client.shutdown(),
+            #[cfg(any(feature = "http-proto", feature = "http-json"))]
+            SupportedTransportClient::Http(client) => client.shutdown(),
+        }
+    }
+
     fn set_resource(&mut self, resource: &opentelemetry_sdk::Resource) {
         match &mut self.client {
             #[cfg(feature = "grpc-tonic")]
-- 
2.43.0


From 1cbee34420c169dc35bedd201e57e178808db0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:29 +0000
Subject: [PATCH 34/44] fix: treat an empty OTLP/HTTP endpoint as not set

An empty endpoint given in code was an error, although with_endpoint says that
the default is used then; an empty OTEL_EXPORTER_OTLP_ENDPOINT made the path of
the signal the whole address.
---
 opentelemetry-otlp/src/exporter/http/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-otlp/src/exporter/http/mod.rs b/opentelemetry-otlp/src/exporter/http/mod.rs
index ead431a..5e9be71 100644
--- a/opentelemetry-otlp/src/exporter/http/mod.rs
+++ b/opentelemetry-otlp/src/exporter/http/mod.rs
@@ -365,7 +365,7 @@ fn resolve_http_endpoint(
     provided_endpoint: Option<&str>,
 ) -> Result<Uri, ExporterBuildError> {
     // programmatic configuration overrides any value set via environment variables
-    if let Some(provider_endpoint) = provided_endpoint {
+    if let Some(provider_endpoint) = provided_endpoint.filter(|s| !s.is_empty()) {
         provider_endpoint
             .parse()
             .map_err(|er: http::uri::InvalidUri| {
@@ -379,6 +379,7 @@ fn resolve_http_endpoint(
         Ok(endpoint)
     } else if let Some(endpoint) = env::var(OTEL_EXPORTER_OTLP_ENDPOINT)
         .ok()
+        .filter(|s| !s.is_empty())
         .and_then(|s| build_endpoint_uri(&s, signal_endpoint_path).ok())
     {
         // if signal env var is not set, then we check if the OTEL_EXPORTER_OTLP_ENDPOINT env var is set
-- 
2.43.0


From 61df1ce8e4371c2be90f62bb77e04514ce3d3e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:29 +0000
Subject: [PATCH 35/44] fix: do not let an empty OTLP headers variable of a
 signal hide the general one

An empty environment variable counts as not set.
---
 opentelemetry-otlp/src/exporter/http/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/opentelemetry-otlp/src/exporter/http/mod.rs b/opentelemetry-otlp/src/exporter/http/mod.rs
index 5e9be71..8c92de7 100644
--- a/opentelemetry-otlp/src/exporter/http/mod.rs
+++ b/opentelemetry-otlp/src/exporter/http/mod.rs
@@ -181,8 +181,10 @@ impl HttpExporterBuilder {
             .collect();
 
         // read headers from env var - signal specific env var is preferred over general
-        if let Ok(input) =
-            env::var(signal_http_headers_var).or_else(|_| env::var(OTEL_EXPORTER_OTLP_HEADERS))
+        if let Some(input) = env::var(signal_http_headers_var)
+            .ok()
+            .filter(|s| !s.is_empty())
+            .or_else(|| env::var(OTEL_EXPORTER_OTLP_HEADERS).ok())
         {
             add_header_from_string(&input, &mut headers);
         }
-- 
2.43.0


From a51e5a8a17b1f02dd036795c7ee441fb79c4d8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:29 +0000
Subject: [PATCH 36/44] fix: replace OTLP/HTTP headers whatever the case of
 their names

A header set again in another case, such as user-agent over the default
User-Agent, was kept beside the first one, and the order of the hash map decided
which of the two was sent.
---
 opentelemetry-otlp/src/exporter/http/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/opentelemetry-otlp/src/exporter/http/mod.rs b/opentelemetry-otlp/src/exporter/http/mod.rs
index 8c92de7..6692d1f 100644
--- a/opentelemetry-otlp/src/exporter/http/mod.rs
+++ b/opentelemetry-otlp/src/exporter/http/mod.rs
@@ -450,6 +450,8 @@ impl<B: HasHttpConfig> WithHttpConfig for B {
             .headers
             .get_or_insert(HashMap::new());
         headers.into_iter().for_each(|(key, value)| {
+            // header names are case-insensitive
+            http_client_headers.retain(|k, _| !k.eq_ignore_ascii_case(&key));
             http_client_headers.insert(key, super::url_decode(&value).unwrap_or(value));
         });
         self
-- 
2.43.0


From 43774b90df3fe0bbbdb53cc1d0bff930fd760af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:29 +0000
Subject: [PATCH 37/44] fix: export the schema URL of the instrumentation scope
 with its spans

The schema URL of the resource was sent in its place, and that of the scope was lost.
---
 opentelemetry-proto/src/transform/trace.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-proto/src/transform/trace.rs b/opentelemetry-proto/src/transform/trace.rs
index 636296f..a423ec6 100644
--- a/opentelemetry-proto/src/transform/trace.rs
+++ b/opentelemetry-proto/src/transform/trace.rs
@@ -169,7 +169,10 @@ pub mod tonic {
             .into_iter()
             .map(|(instrumentation, span_records)| ScopeSpans {
                 scope: Some((instrumentation, None).into()),
-                schema_url: resource.schema_url.clone().unwrap_or_default(),
+                schema_url: instrumentation
+                    .schema_url()
+                    .map(ToOwned::to_owned)
+                    .unwrap_or_default(),
                 spans: span_records
                     .into_iter()
                     .map(|span_data| span_data.clone().into())
-- 
2.43.0


From fe73b3bc150d91a492a1ce3d9400e6e5b8b39f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:29 +0000
Subject: [PATCH 38/44] fix: keep the instrumentation scope of exported log
 records

Records were grouped by the name of their scope or their target alone: scopes of
the same name were merged, and version, attributes and schema URL of every scope
were lost.
---
 opentelemetry-proto/src/transform/logs.rs | 34 ++++++++++-------------
 1 file changed, 15 insertions(+), 19 deletions(-)

diff --git a/opentelemetry-proto/src/transform/logs.rs b/opentelemetry-proto/src/transform/logs.rs
index f1a992f..4da92ee 100644
--- a/opentelemetry-proto/src/transform/logs.rs
+++ b/opentelemetry-proto/src/transform/logs.rs
@@ -168,41 +168,37 @@ pub mod tonic {
         logs: LogBatch<'_>,
         resource: &ResourceAttributesWithSchema,
     ) -> Vec<ResourceLogs> {
-        // Group logs by target or instrumentation name
+        // Group logs by target and instrumentation scope
         let scope_map = logs.iter().fold(
             HashMap::new(),
             |mut scope_map: HashMap<
-                Cow<'static, str>,
-                Vec<(
-                    &opentelemetry_sdk::logs::SdkLogRecord,
+                (
+                    Option<&Cow<'static, str>>,
                     &opentelemetry::InstrumentationScope,
-                )>,
+                ),
+                Vec<&opentelemetry_sdk::logs::SdkLogRecord>,
             >,
              (log_record, instrumentation)| {
-                let key = log_record
-                    .target()
-                    .cloned()
-                    .unwrap_or_else(|| Cow::Owned(instrumentation.name().to_owned()));
                 scope_map
-                    .entry(key)
+                    .entry((log_record.target(), instrumentation))
                     .or_default()
-                    .push((log_record, instrumentation));
+                    .push(log_record);
                 scope_map
             },
         );
 
         let scope_logs = scope_map
             .into_iter()
-            .map(|(key, log_data)| ScopeLogs {
+            .map(|((target, instrumentation), log_records)| ScopeLogs {
                 scope: Some(InstrumentationScope::from((
-                    log_data.first().unwrap().1,
-                    Some(key.into_owned().into()),
+                    instrumentation,
+                    target.cloned(),
                 ))),
-                schema_url: resource.schema_url.clone().unwrap_or_default(),
-                log_records: log_data
-                    .into_iter()
-                    .map(|(log_record, _)| log_record.into())
-                    .collect(),
+                schema_url: instrumentation
+                    .schema_url()
+                    .map(ToOwned::to_owned)
+                    .unwrap_or_default(),
+                log_records: log_records.into_iter().map(Into::into).collect(),
             })
             .collect();
 
-- 
2.43.0


From 260925f937ae282f9893c629244576da499c2221 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Fri, 20 Nov 2026 03:37:54 +0000
Subject: [PATCH 39/44] fix: name the service in exported Zipkin spans

The service name of the tracer provider's resource was dropped, although the
builder's own setting was removed in favour of it.
---
 opentelemetry-zipkin/src/exporter/mod.rs            | 9 +++++++++
 opentelemetry-zipkin/src/exporter/model/endpoint.rs | 7 +++++++
 2 files changed, 16 insertions(+)

diff --git a/opentelemetry-zipkin/src/exporter/mod.rs b/opentelemetry-zipkin/src/exporter/mod.rs
index 46c665e..336f550 100644
--- a/opentelemetry-zipkin/src/exporter/mod.rs
+++ b/opentelemetry-zipkin/src/exporter/mod.rs
@@ -4,9 +4,11 @@ mod uploader;
 
 use http::Uri;
 use model::endpoint::Endpoint;
+use opentelemetry::Key;
 use opentelemetry_http::HttpClient;
 use opentelemetry_sdk::error::OTelSdkResult;
 use opentelemetry_sdk::trace;
+use opentelemetry_sdk::Resource;
 use std::net::{AddrParseError, SocketAddr};
 use std::sync::Arc;
 
@@ -136,6 +138,13 @@ impl trace::SpanExporter for ZipkinExporter {
     async fn export(&self, batch: Vec<trace::SpanData>) -> OTelSdkResult {
         zipkin_export(batch, self.uploader.clone(), self.local_endpoint.clone()).await
     }
+
+    /// The service name of the provider's resource names the local endpoint.
+    fn set_resource(&mut self, resource: &Resource) {
+        if let Some(name) = resource.get(&Key::from_static_str("service.name")) {
+            self.local_endpoint.set_service_name(name.to_string());
+        }
+    }
 }
 
 /// Wrap type for errors from opentelemetry zipkin
diff --git a/opentelemetry-zipkin/src/exporter/model/endpoint.rs b/opentelemetry-zipkin/src/exporter/model/endpoint.rs
index 7c85900..b1474bd 100644
--- a/opentelemetry-zipkin/src/exporter/model/endpoint.rs
+++ b/opentelemetry-zipkin/src/exporter/model/endpoint.rs
@@ -4,6 +4,9 @@ use std::net::{Ipv4Addr, Ipv6Addr, SocketAddr};
 #[derive(TypedBuilder, Clone, Debug, Serialize)]
 #[serde(rename_all = "camelCase")]
 pub(crate) struct Endpoint {
+    #[builder(setter(strip_option), default)]
+    #[serde(skip_serializing_if = "Option::is_none")]
+    service_name: Option<String>,
     #[builder(setter(strip_option), default)]
     #[serde(skip_serializing_if = "Option::is_none")]
     ipv4: Option<Ipv4Addr>,
@@ -23,6 +26,10 @@ impl Endpoint {
             None => Endpoint::builder().build(),
         }
     }
+
+    pub(crate) fn set_service_name(&mut self, service_name: String) {
+        self.service_name = Some(service_name);
+    }
 }
 
 #[cfg(test)]
-- 
2.43.0


From 3de146f71e96d5518b02197fbc5a4c16f8475446 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Fri, 20 Nov 2026 03:38:12 +0000
Subject: [PATCH 40/44] fix: export root spans to Zipkin without a parent

A root span was sent with parentId 0000000000000000, as the child of a span
that does not exist; Zipkin's model leaves the field out.
---
 opentelemetry-zipkin/src/exporter/model/mod.rs  | 13 +++++++++----
 opentelemetry-zipkin/src/exporter/model/span.rs |  2 +-
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/opentelemetry-zipkin/src/exporter/model/mod.rs b/opentelemetry-zipkin/src/exporter/model/mod.rs
index 9f799e3..d2c1e52 100644
--- a/opentelemetry-zipkin/src/exporter/model/mod.rs
+++ b/opentelemetry-zipkin/src/exporter/model/mod.rs
@@ -1,5 +1,5 @@
 use opentelemetry::{
-    trace::{SpanKind, Status},
+    trace::{SpanId, SpanKind, Status},
     Key, KeyValue,
 };
 use opentelemetry_sdk::trace::SpanData;
@@ -75,9 +75,9 @@ pub(crate) fn into_zipkin_span(local_endpoint: Endpoint, span_data: SpanData) ->
         }
     };
 
-    span::Span::builder()
+    let parent_span_id = span_data.parent_span_id;
+    let mut span = span::Span::builder()
         .trace_id(span_data.span_context.trace_id().to_string())
-        .parent_id(span_data.parent_span_id.to_string())
         .id(span_data.span_context.span_id().to_string())
         .name(span_data.name.into_owned())
         .kind(if user_defined_span_kind {
@@ -102,7 +102,12 @@ pub(crate) fn into_zipkin_span(local_endpoint: Endpoint, span_data: SpanData) ->
         .local_endpoint(local_endpoint)
         .annotations(span_data.events.into_iter().map(Into::into).collect())
         .tags(tags)
-        .build()
+        .build();
+    // a root span has no parent
+    if parent_span_id != SpanId::INVALID {
+        span.parent_id = Some(parent_span_id.to_string());
+    }
+    span
 }
 
 fn map_from_kvs<T>(kvs: T) -> HashMap<String, String>
diff --git a/opentelemetry-zipkin/src/exporter/model/span.rs b/opentelemetry-zipkin/src/exporter/model/span.rs
index a39cf6a..262994e 100644
--- a/opentelemetry-zipkin/src/exporter/model/span.rs
+++ b/opentelemetry-zipkin/src/exporter/model/span.rs
@@ -19,7 +19,7 @@ pub(crate) struct Span {
     trace_id: Option<String>,
     #[builder(setter(strip_option), default)]
     #[serde(skip_serializing_if = "Option::is_none")]
-    parent_id: Option<String>,
+    pub(crate) parent_id: Option<String>,
     #[builder(setter(strip_option), default)]
     #[serde(skip_serializing_if = "Option::is_none")]
     id: Option<String>,
-- 
2.43.0


From 623b57e56b6d38ed103938561ba180e8fb2a4259 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Fri, 20 Nov 2026 03:44:12 +0000
Subject: [PATCH 41/44] hook: tell the current thread the time, under
 cfg(otel_verif)

---
 opentelemetry/src/lib.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/opentelemetry/src/lib.rs b/opentelemetry/src/lib.rs
index ebed796..3380c40 100644
--- a/opentelemetry/src/lib.rs
+++ b/opentelemetry/src/lib.rs
@@ -281,6 +281,7 @@ pub mod logs;
 
 #[doc(hidden)]
 #[cfg(any(feature = "metrics", feature = "trace", feature = "logs"))]
+#[allow(unexpected_cfgs)]
 pub mod time {
     use std::time::SystemTime;
 
@@ -290,6 +291,10 @@ pub mod time {
         all(target_arch = "wasm32", target_os = "wasi")
     ))]
     pub fn now() -> SystemTime {
+        #[cfg(otel_verif)]
+        if let Some(time) = VERIF_NOW.get() {
+            return time;
+        }
         SystemTime::now()
     }
 
@@ -298,6 +303,13 @@ pub mod time {
     pub fn now() -> SystemTime {
         SystemTime::UNIX_EPOCH + std::time::Duration::from_millis(js_sys::Date::now() as u64)
     }
+
+    // The time the current thread is told, for the verification harness only.
+    #[cfg(otel_verif)]
+    std::thread_local! {
+        #[doc(hidden)]
+        pub static VERIF_NOW: std::cell::Cell<Option<SystemTime>> = const { std::cell::Cell::new(None) };
+    }
 }
 
 #[doc(hidden)]
-- 
2.43.0


From 4567813ac4ad384056606ec376a643b9894691fa Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Fri, 20 Nov 2026 03:44:13 +0000
Subject: [PATCH 42/44] fix: refill the leaky bucket of the Jaeger remote
 sampler for fractions of a second

The time since the last refill was truncated to seconds and then forgotten, so a sampler
that is asked more than once a second never sampled again once its bucket was empty.
---
 opentelemetry-sdk/src/trace/sampler/jaeger_remote/rate_limit.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/trace/sampler/jaeger_remote/rate_limit.rs b/opentelemetry-sdk/src/trace/sampler/jaeger_remote/rate_limit.rs
index 3f11e5d..c7ebc74 100644
--- a/opentelemetry-sdk/src/trace/sampler/jaeger_remote/rate_limit.rs
+++ b/opentelemetry-sdk/src/trace/sampler/jaeger_remote/rate_limit.rs
@@ -42,7 +42,7 @@ impl LeakyBucket {
                 Ok(dur) => {
                     self.last_time = cur_time;
                     self.available = f64::min(
-                        dur.as_secs() as f64 * self.span_per_sec + self.available,
+                        dur.as_secs_f64() * self.span_per_sec + self.available,
                         self.bucket_size,
                     );
 
-- 
2.43.0


From 9560a35f08fce78767eba424d02bd6b8da4d7e61 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Fri, 20 Nov 2026 03:44:35 +0000
Subject: [PATCH 43/44] fix: keep the sampling strategy of the Jaeger remote
 sampler when a response has none

The warning already says that the previous strategy stays in use, but it was dropped and the
default sampler took over.
---
 .../trace/sampler/jaeger_remote/sampling_strategy.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/opentelemetry-sdk/src/trace/sampler/jaeger_remote/sampling_strategy.rs b/opentelemetry-sdk/src/trace/sampler/jaeger_remote/sampling_strategy.rs
index 0f1fd43..00f9117 100644
--- a/opentelemetry-sdk/src/trace/sampler/jaeger_remote/sampling_strategy.rs
+++ b/opentelemetry-sdk/src/trace/sampler/jaeger_remote/sampling_strategy.rs
@@ -92,11 +92,13 @@ impl Inner {
                                 rate_limiting_sampling,
                                 probabilistic_sampling,
                                 _,
-                            ) => self.init_strategy(
-                                operation_sampling,
-                                rate_limiting_sampling,
-                                probabilistic_sampling,
-                            ),
+                            ) => self
+                                .init_strategy(
+                                    operation_sampling,
+                                    rate_limiting_sampling,
+                                    probabilistic_sampling,
+                                )
+                                .or(Some(old_strategy)),
                         }
                     }
                     None => self.init_strategy(
-- 
2.43.0


From 91cd0ffd4e7c3e178d76bbe4a0d9b02f6c56a923 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Fri, 20 Nov 2026 03:45:44 +0000
Subject: [PATCH 44/44] fix: stop fetching strategies once the Jaeger remote
 sampler is dropped

The task that fetches them kept the state alive whose drop stops the task, so it never ended.
---
 .../src/trace/sampler/jaeger_remote/sampler.rs        | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/opentelemetry-sdk/src/trace/sampler/jaeger_remote/sampler.rs b/opentelemetry-sdk/src/trace/sampler/jaeger_remote/sampler.rs
index 7f6ce1d..cf1f3b0 100644
--- a/opentelemetry-sdk/src/trace/sampler/jaeger_remote/sampler.rs
+++ b/opentelemetry-sdk/src/trace/sampler/jaeger_remote/sampler.rs
@@ -9,7 +9,7 @@ use opentelemetry::trace::{Link, SamplingResult, SpanKind, TraceId};
 use opentelemetry::{otel_warn, Context, KeyValue};
 use opentelemetry_http::HttpClient;
 use std::str::FromStr;
-use std::sync::Arc;
+use std::sync::{Arc, Weak};
 use std::time::Duration;
 
 const DEFAULT_REMOTE_SAMPLER_ENDPOINT: &str = "http://localhost:5778/sampling";
@@ -168,7 +168,7 @@ impl JaegerRemoteSampler {
         };
         Self::run_update_task(
             runtime,
-            sampler.inner.clone(),
+            Arc::downgrade(&sampler.inner),
             update_timeout,
             client,
             shutdown_rx,
@@ -180,7 +180,7 @@ impl JaegerRemoteSampler {
     // start a updating thread/task
     fn run_update_task<C, R>(
         runtime: R,
-        strategy: Arc<Inner>,
+        strategy: Weak<Inner>,
         update_timeout: Duration,
         client: C,
         shutdown: futures_channel::mpsc::Receiver<()>,
@@ -204,7 +204,10 @@ impl JaegerRemoteSampler {
                     // poll next available configuration or shutdown
                     // send request
                     match Self::request_new_strategy(&client, endpoint.clone()).await {
-                        Ok(remote_strategy_resp) => strategy.update(remote_strategy_resp),
+                        Ok(remote_strategy_resp) => match strategy.upgrade() {
+                            Some(strategy) => strategy.update(remote_strategy_resp),
+                            None => break,
+                        },
                         Err(err_msg) => {
                             otel_warn!(
                                 name: "JaegerRemoteSampler.FailedToFetchStrategy",
-- 
2.43.0

