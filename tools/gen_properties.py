#!/usr/bin/env python3
"""Generates /verif/properties.jsonl (single source for the property texts)."""
import json, os
SDK="opentelemetry-sdk/src/"; API="opentelemetry/src/"
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,hook=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},
              "why_tests_cant":why,"anchors":a})

p("T01","Batch span processor delivers each accepted span exactly once, in order",
 "Every sampled span handed to the batching span processor before its shutdown is passed to the exporter exactly once, in the order the spans ended, unless it was dropped because the queue already held its configured maximum number of spans. Every export call carries between one and the configured maximum batch size spans, exports never overlap, a full batch is exported without waiting for the timer and anything else at the latest when the scheduled delay has passed, and spans that are not sampled are never exported.",
 ["schedules","histories","configurations","fault_sequences"],
 "all interleavings of producer threads with the export thread, all queue/batch sizes, all exporter speeds and exporter failures",
 "Unit tests drive one producer against an instant exporter; loss, duplication and counter drift need a slow or failing exporter, a full queue or a particular interleaving.",
 [SDK+"trace/span_processor.rs"],
 [("bounded channel + batch size counter","BatchSpanProcessor::on_end"),("worker loop","BatchSpanProcessor::new"),("batch assembly","BatchSpanProcessor::get_spans_and_export / get_all...")],
 ["SpanExporter::export arguments and timing","SpanProcessor::on_end"],
 "schedule points in the emit path and the worker loop (cfg otel_verif), used only to perturb and gate schedules",
 [("queue","spans accepted, not yet exported","span_sender/span_receiver"),("current_batch_size","queue length estimate","AtomicUsize")])
p("T02","Flush and shutdown of the batch span processor drain everything first",
 "When a force-flush or shutdown of the batching span processor reports success, every span accepted before the call began has already been handed to the exporter and that export has finished. Shutdown shuts the exporter down exactly once after the last export, no export starts afterwards, later shutdown calls report that it is already shut down, and both calls always return.",
 ["schedules","histories","configurations","fault_sequences"],
 "all numbers of queued spans relative to batch size, all points at which flush or shutdown arrives while producers run or an export is in progress, repeated and concurrent calls, failing exporters",
 "The tests flush a handful of spans that fit one batch with an idle worker; they never flush more than a batch or while an export is running.",
 [SDK+"trace/span_processor.rs"],
 [("control messages","BatchMessage::{ForceFlush,Shutdown}"),("worker loop","BatchSpanProcessor::new"),("is_shutdown flag","BatchSpanProcessor::shutdown")],
 ["return values of force_flush/shutdown","SpanExporter::{export,shutdown} calls"],
 "schedule points (cfg otel_verif)")
p("T03","A span is recorded until it ends, is reported once, and is frozen afterwards",
 "A recording span is reported to the processors exactly once, when it is first ended explicitly or dropped (unless the provider has been shut down by then), and carries exactly the name, attributes, events, links, status and timestamps set before that moment. Operations after the end change nothing and are reported nowhere, a status of Ok is never replaced by a later status and an error is never replaced by unset, and a span that is not recording is never reported.",
 ["histories"],
 "all sequences of span operations (updates, status changes, repeated ends with and without timestamps, drops, use through a context) over sampled, record-only and dropped spans",
 "Each test checks one operation order; the guarantee is over all orders including operations after end.",
 [SDK+"trace/span.rs",API+"trace/context.rs"],
 [("Option<SpanData> taken at end","Span::ensure_ended_and_exported"),("status ordering","Span::set_status / trace::Status PartialOrd"),("Drop","impl Drop for Span")],
 ["SpanProcessor::on_start/on_end arguments","Span::is_recording, exported_data"])
p("T04","Span identity and parentage follow the parent context",
 "A new span joins the trace of the span in the context it is started with, records that span's id as its parent and takes over its trace state unless the sampler replaced it; without a valid parent span it starts a new trace and has no parent. Every span started while the provider runs and outside a telemetry-suppressed scope gets a fresh valid span id that no other span has, and a valid non-zero trace id, whether or not it is sampled.",
 ["histories","inputs","schedules"],
 "all trees of local and remote, valid and invalid parents, explicit, current and replaced contexts, spans started from several threads",
 "Tests start one or two spans from a fixed parent.",
 [SDK+"trace/tracer.rs",SDK+"trace/id_generator/mod.rs"],
 [("parent selection","SdkTracer::build_with_context"),("id generation","RandomIdGenerator")],
 ["Span::span_context, exported parent_span_id"])
p("T05","Sampling decisions obey parent, ratio and recording rules",
 "The sampled flag of every new span equals the sampler's decision: a parent-based sampler repeats a valid parent's flag (local or remote) and consults its root sampler when there is no parent; a ratio sampler decides from the trace id alone, identically in every process, samples everything at ratio one, nothing at zero, and whatever it samples at one ratio it samples at every higher ratio. A dropped span records nothing and never reaches an exporter; a recorded but unsampled span reaches processors but never an exporter.",
 ["inputs","histories","configurations"],
 "all trace ids, ratios, parents, sampler nestings and the resulting pipelines (simple, batching)",
 "Existing tests estimate frequencies over random ids and do not check determinism, monotonicity or the end-to-end pipeline.",
 [SDK+"trace/sampler.rs",SDK+"trace/tracer.rs",SDK+"trace/span_processor.rs"],
 [("ratio threshold","sample_based_on_probability"),("parent rule","Sampler::ParentBased"),("is_sampled filter","SpanProcessor::on_end")],
 ["SamplingResult","SpanContext::is_sampled","SpanExporter::export"])
p("T06","Span limits bound what is kept and count exactly what is lost",
 "A span keeps at most the configured number of attributes, events and links, and each event and link at most its configured number of attributes; it keeps the first ones in the order they were added. Everything beyond a limit is counted in the matching dropped counter, so kept plus dropped equals added at every level.",
 ["inputs","histories","configurations"],
 "all limits including zero, all orders and groupings of additions at start and during the span's life",
 "Tests use one limit value and one way of adding.",
 [SDK+"trace/span.rs",SDK+"trace/span_limit.rs",SDK+"trace/tracer.rs",SDK+"trace/events.rs",SDK+"trace/links.rs"],
 [("limit checks","Span::set_attribute/add_event/add_link"),("limits at creation","SdkTracer::build_recording_span")],
 ["exported SpanData"])
p("L01","Batch log processor delivers each accepted record exactly once, in order",
 "Every log record handed to the batching log processor before its shutdown is passed to the exporter exactly once, unchanged and in the order emitted, unless it was dropped because the queue already held its configured maximum number of records. Every export call carries between one and the configured maximum batch size records, exports never overlap, and a full batch is exported without waiting for the timer and anything else at the latest when the scheduled delay has passed.",
 ["schedules","histories","configurations","fault_sequences"],
 "all interleavings of emitting threads with the export thread, all queue/batch sizes, exporter speeds and failures",
 "Unit tests use one producer and an instant exporter.",
 [SDK+"logs/batch_log_processor.rs"],
 [("bounded channel + counter","BatchLogProcessor::emit"),("worker","BatchLogProcessor::new"),("drain loop","get_logs_and_export")],
 ["LogExporter::export arguments and timing"],
 "schedule points (cfg otel_verif)",
 [("current_batch_size","queue length estimate","AtomicUsize")])
p("L02","Flush and shutdown of the batch log processor drain everything first",
 "When a force-flush or shutdown of the batching log processor reports success, every record accepted before the call began has already been handed to the exporter and that export has finished. Shutdown shuts the exporter down exactly once after the last export, no export starts afterwards, later shutdown calls report that it is already shut down, and both calls always return.",
 ["schedules","histories","configurations","fault_sequences"],
 "all numbers of queued records, all points at which flush/shutdown arrives while producers run or an export is in progress, repeated and concurrent calls, failing exporters",
 "The counter-based drain is only exercised with an idle worker and a quiescent producer.",
 [SDK+"logs/batch_log_processor.rs"],
 [("control messages","BatchMessage"),("drain loop","get_logs_and_export")],
 ["return values of force_flush/shutdown","LogExporter::{export,shutdown} calls"],
 "schedule points (cfg otel_verif)")
p("L03","An exported log record is the emitted one, correlated with the active span",
 "A log record reaches every processor and exporter with exactly the fields that were set and with all its attributes in the order they were added, together with the scope of its logger. It carries the trace id, span id and flags of the span active in the emitting thread's context, keeps a trace context that was set explicitly, has none otherwise, and always has an observed timestamp.",
 ["inputs","histories"],
 "all sequences of record construction steps, attribute counts around the inline capacity, active/inactive/invalid span contexts, explicit trace contexts",
 "Tests build single records with few attributes.",
 [SDK+"logs/logger.rs",SDK+"logs/record.rs",SDK+"growable_array.rs"],
 [("correlation","SdkLogger::emit"),("attribute storage","GrowableArray")],
 ["LogProcessor::emit","LogExporter::export"])
p("S01","Simple processors export each item synchronously, singly and without overlap",
 "A simple span or log processor has handed each sampled span or each log record to the exporter, alone and exactly once, by the time the call that ended the span or emitted the record returns. Exports of one processor never overlap even when many threads produce, a failing export affects no later item, and after shutdown nothing more is exported and the exporter is shut down.",
 ["schedules","histories","fault_sequences"],
 "all interleavings of producing threads, exporter failures and shutdown",
 "Tests are single threaded.",
 [SDK+"trace/span_processor.rs",SDK+"logs/simple_log_processor.rs"],
 [("exporter mutex","SimpleSpanProcessor / SimpleLogProcessor"),("is_shutdown flag","SimpleLogProcessor::emit")],
 ["export begin/end relative to the producing call"])
p("S02","Providers fan out to all processors in order and shut down exactly once",
 "Each span start, span end and log record reaches every registered processor exactly once, in registration order, and force-flush and shutdown reach every processor even if an earlier one fails, reporting the failure. The processors are shut down exactly once, by the first explicit shutdown or when the last handle to the provider goes away; later shutdowns report that it is already shut down, tracers obtained or used afterwards only produce non-recording spans, and loggers obtained afterwards emit nothing.",
 ["histories","schedules","fault_sequences"],
 "all sequences of cloning, dropping, shutting down and using providers, tracers and loggers, with any subset of processors failing, and concurrent shutdowns",
 "Tests cover single paths with one or two succeeding processors.",
 [SDK+"trace/provider.rs",SDK+"logs/logger_provider.rs",SDK+"trace/span.rs",SDK+"trace/tracer.rs"],
 [("is_shutdown compare-exchange","SdkTracerProvider::shutdown / SdkLoggerProvider::shutdown"),("Drop of inner","TracerProviderInner / LoggerProviderInner")],
 ["processor callbacks","return values"])
p("A01","Async-runtime batch processors deliver and drain like the threaded ones",
 "The batching span and log processors driven by an async runtime export every accepted item exactly once in batches of at most the configured size and drop items only when their queue is full. A successful force-flush or shutdown means every item accepted before it has been handed to the exporter, the exporter is shut down, at most the configured number of exports run at once, and nothing is exported after shutdown.",
 ["schedules","histories","configurations","fault_sequences"],
 "all interleavings of producers with the background task on single- and multi-threaded runtimes, all queue/batch/concurrency settings, slow and failing exporters",
 "Tests use a couple of spans.",
 [SDK+"trace/span_processor_with_async_runtime.rs",SDK+"logs/log_processor_with_async_runtime.rs",SDK+"runtime.rs"],
 [("message loop","BatchSpanProcessorInternal::run"),("in-flight exports","FuturesUnordered"),("message loop","BatchLogProcessor::new")],
 ["export calls, flush/shutdown results"])
p("X01","The current context is the innermost one still attached on this thread",
 "On every thread, up to the supported nesting depth (beyond which an attach has no effect), the current context is the one most recently attached whose guard has not been dropped, in whatever order guards are dropped, and once all guards are gone it is the base context again. Attaching or detaching on one thread never affects another, and dropping guards in any order never panics, resurrects a detached context or loses a still attached one.",
 ["histories","schedules"],
 "all sequences of attach and guard drops in any order on several threads, including deep stacks up to and beyond the supported depth",
 "Tests check a few hand-picked drop orders.",
 [API+"context.rs"],
 [("thread-local stack","ContextStack::push / pop_id"),("guard","ContextGuard")],
 ["Context::current"],None,
 [("stack","attached contexts with holes","ContextStack::stack"),("current_id","position of the current context","ContextStack::current_id")])
p("X02","Contexts are immutable values; each derivation changes one thing only",
 "Deriving a context with a value, span, remote span, baggage or suppression yields a context that differs from its source in exactly that entry, keeps every other value, the active span and the suppression mark, and leaves the source and everything derived from it earlier unchanged. Values are stored per type with the latest derivation winning, and a suppressed context stays suppressed in everything derived from it.",
 ["histories"],
 "all derivation trees over several value types, spans, remote spans, baggage and suppression",
 "Tests derive chains of length one or two.",
 [API+"context.rs",API+"trace/context.rs",API+"baggage.rs"],
 [("persistent map","Context::with_value"),("span slot","Context::current_with_synchronized_span / with_span"),("suppress flag","with_telemetry_suppressed")],
 ["Context::get, span, baggage, is_telemetry_suppressed"])
p("X03","A future runs under its own context and never leaks it",
 "A future or stream given a context observes that context on every poll, on whichever thread it is polled, and after each poll, and when it completes or is dropped, the polling thread's current context is what it was before. Interleaving polls of several such futures on one thread, nesting them, or moving them between threads never mixes their contexts.",
 ["schedules","histories"],
 "all interleavings of polls of several nested and sibling futures over several threads",
 "Tests poll one future to completion.",
 [API+"context/future_ext.rs",API+"trace/context.rs"],
 [("attach during poll","WithContext::poll / poll_next")],
 ["Context::current inside and outside polls"])
p("M01","Counter totals are conserved across threads and collections",
 "For every counter, up-down counter and attribute set, the sum of all delta values ever collected equals the sum of the measurements completed, and each cumulative value equals the sum of all measurements made before it; no measurement is lost, duplicated or attributed to another attribute set. A measurement concurrent with a collection appears in that collection or in the next one, never in both or neither, and no point is reported that covers no measurement.",
 ["schedules","histories","inputs"],
 "all interleavings of recording threads with collections, attribute sets first seen while a collection runs, integer and float counters",
 "Concurrency tests are few and only check the grand total at the end.",
 [SDK+"metrics/internal/mod.rs",SDK+"metrics/internal/sum.rs"],
 [("tracker map with read/write lock and recheck","ValueMap::measure"),("swap and drain","ValueMap::collect_and_reset"),("atomic add","AtomicTracker")],
 ["collected data points"],
 "schedule points in measure and collect (cfg otel_verif)")
p("M02","Attribute sets are identified by content, not by order",
 "Two measurements whose attributes have distinct keys and are equal as sets contribute to one data point whatever order each call lists them in, and measurements whose sets differ in any key, value or value type contribute to different ones. Each collection reports each attribute set at most once, with exactly the attributes recorded, for every instrument kind and temporality.",
 ["inputs","histories"],
 "all permutations of attribute lists, subsets, values of different types, repeated collections, synchronous and observable instruments",
 "Tests use one reordering for counters.",
 [SDK+"metrics/internal/mod.rs",SDK+"metrics/internal/precomputed_sum.rs"],
 [("double keying by given and sorted order","ValueMap::measure"),("dedup by pointer","ValueMap::collect_*")],
 ["collected data points"])
p("M03","Cardinality limits cap data points without losing measurements",
 "An instrument stream never reports more distinct attribute sets per collection cycle than its cardinality limit (not counting the empty set), plus one overflow point, and measurements for sets beyond the limit are aggregated under the overflow attribute. Sets already tracked keep receiving their own measurements, nothing a counter or histogram records is lost to the cap, and under delta temporality the cap starts afresh with each collection.",
 ["inputs","histories","configurations"],
 "all limits, all arrival orders of old and new attribute sets over several collections, all synchronous instrument kinds",
 "Tests use one limit and one arrival order.",
 [SDK+"metrics/internal/mod.rs",SDK+"metrics/pipeline.rs"],
 [("count + overflow tracker","ValueMap::measure"),("count reset","ValueMap::collect_and_reset")],
 ["collected data points"])
p("M04","Explicit-bucket histograms are internally consistent and exact",
 "Each histogram data point's count equals the number of measurements it covers and the sum of its bucket counts; each measurement is counted in the one bucket whose range (lower bound exclusive, upper bound inclusive) contains it; and sum, minimum and maximum are those of the covered measurements. This holds for every valid boundary list, including measurements equal to, below or above all boundaries, and for both temporalities over any series of collections.",
 ["inputs","histories","configurations","schedules"],
 "all boundary lists, measurement sequences, collections and temporalities, including recording during collection",
 "Tests use one boundary list and a few interior values.",
 [SDK+"metrics/internal/histogram.rs"],
 [("bucket search","Histogram::measure"),("buckets under mutex","HistogramTracker")],
 ["collected histogram points"])
p("M05","Exponential histograms stay bounded, complete and correctly scaled",
 "For every sequence of finite measurements, an exponential histogram point uses at most the configured number of buckets per sign, at the finest scale (up to the configured maximum) at which they suffice; its zero count plus all bucket counts equals its count; and each non-zero measurement is counted in the bucket whose range at that scale contains it, only one that would not fit even at scale -10 being left out entirely. Sum, minimum and maximum are those of the measurements, and rescaling never loses or invents a count.",
 ["inputs","histories","configurations"],
 "all measurement sequences over positive, negative, zero and extreme magnitudes, all sizes and scales, both temporalities",
 "Tests cover selected sequences and internal fields.",
 [SDK+"metrics/internal/exponential_histogram.rs"],
 [("downscale","ExpoHistogramBuckets::downscale / scale_change"),("bin selection","ExpoHistogramDataPoint::get_bin")],
 ["collected exponential histogram points"])
p("M06","Gauges report the last recorded value and nothing else",
 "A gauge reports, for each attribute set, a value that was actually recorded for that set and that no completed later recording had replaced when the collection began. Under delta temporality a set with no recording since the last collection is not reported; under cumulative temporality the last value keeps being reported.",
 ["schedules","histories"],
 "all interleavings of recordings and collections over several attribute sets and both temporalities",
 "Tests check one value per collection.",
 [SDK+"metrics/internal/last_value.rs",SDK+"metrics/internal/mod.rs"],
 [("atomic assign","Assign tracker"),("reset","ValueMap::collect_and_reset")],
 ["collected gauge points"],"schedule points (cfg otel_verif)")
p("M07","Observable instruments report callbacks' values, as totals or differences",
 "Each registered callback runs exactly once per collection of a reader, and each collection reports, for each attribute set observed in it, the observed value under cumulative temporality or, under delta temporality, its difference from the value reported for that set in the reader's previous collection (from zero if there was none). Attribute sets not observed in a collection are not reported under delta temporality, and the differences of a set observed in every collection add up to its last observed value.",
 ["histories","inputs"],
 "all sequences of observations over changing subsets of attribute sets in any attribute order, all observable kinds, both temporalities",
 "Tests use fixed constant callbacks.",
 [SDK+"metrics/internal/precomputed_sum.rs",SDK+"metrics/pipeline.rs",SDK+"metrics/internal/last_value.rs"],
 [("reported map","PrecomputedSum::delta"),("callback run","Pipeline::produce")],
 ["collected data points, callback counts"])
p("M08","Collection windows tile time: contiguous deltas, fixed cumulative start",
 "Successive delta collections of a stream cover adjacent windows: each starts exactly when the previous one ended; cumulative collections always start at the instrument's creation. In every point the end is not before the start and windows never run backwards.",
 ["histories","schedules"],
 "all sequences of collections, with and without data in between, for every aggregation",
 "No test relates the timestamps of successive collections.",
 [SDK+"metrics/internal/aggregate.rs"],
 [("interval bookkeeping","AggregateTimeInitiator::delta / cumulative")],
 ["start_time and time of collected data"])
p("M09","Views and instrument identity decide the streams, and only that",
 "Every measurement of an instrument reaches exactly the streams selected for it: those of all matching views, or the default stream when none matches, and none if dropped; attribute filters remove exactly the unlisted keys and merge what a synchronous instrument's measurements then have in common without loss. Instruments created again with the same identity, names differing only by case included, share one stream, and different instruments never share one unless views give them the same identity.",
 ["configurations","histories","inputs"],
 "all small sets of views (rename, drop, filter, re-aggregate, wildcard), instruments and re-creations",
 "Tests check single views.",
 [SDK+"metrics/pipeline.rs",SDK+"metrics/view.rs",SDK+"metrics/meter.rs"],
 [("stream creation","Inserter::instrument / cached_aggregator"),("view mask","new_view"),("filter","AggregateBuilder::filter")],
 ["collected metrics by name and attributes"])
p("M10","Readers are independent and each sees its own temporality",
 "Every reader registered with a meter provider reports every synchronous measurement according to its own temporality, regardless of when and how often other readers collect. A reader's temporality preference selects delta or cumulative per instrument kind as documented, in particular up-down counters are always reported cumulatively.",
 ["histories","configurations"],
 "all interleavings of recordings with collections of several readers with different preferences, all instrument kinds",
 "Tests use one reader.",
 [SDK+"metrics/pipeline.rs",SDK+"metrics/instrument.rs",SDK+"metrics/manual_reader.rs"],
 [("pipeline per reader","Pipelines"),("preference","InstrumentKind::temporality_preference")],
 ["collected data per reader"])
p("M11","The periodic reader exports everything exactly once up to shutdown",
 "A successful force-flush or shutdown of a periodic reader means a collection taken after the call began has been exported, so every measurement completed before it is included; delta exports never lose or repeat a measurement even when they overlap timer ticks. Shutdown exports once more, shuts the exporter down exactly once, never exports afterwards, reports later calls as already shut down, and exports never overlap.",
 ["schedules","histories","fault_sequences"],
 "all interleavings of timer ticks, flushes, shutdown, recordings and failing or slow exporters",
 "Tests use fixed sleeps and single flushes.",
 [SDK+"metrics/periodic_reader.rs",SDK+"metrics/meter_provider.rs"],
 [("worker message loop","PeriodicReader::new"),("collect_and_export","PeriodicReaderInner")],
 ["PushMetricExporter calls, flush/shutdown results"])
p("M12","Meter providers collect everything until shutdown and nothing after",
 "A meter provider's force-flush and shutdown reach every reader even if one fails and report the failure; it shuts its readers down exactly once, by the first explicit shutdown or when its last handle is dropped, and later calls report that it is already shut down. Meters with equal scopes share instruments; invalid instrument names, units or boundaries yield instruments that record nothing and disturb no other; and after shutdown new meters record nothing.",
 ["histories","fault_sequences","inputs"],
 "all sequences of meter and instrument creation, cloning, dropping and shutdown with any subset of readers failing, all instrument names around the syntax limits",
 "Tests check single sequences.",
 [SDK+"metrics/meter_provider.rs",SDK+"metrics/meter.rs"],
 [("shutdown flag","SdkMeterProviderInner::shutdown"),("meter cache","SdkMeterProvider::meter_with_scope"),("validation","validate_instrument_config")],
 ["reader callbacks, collected data"])
p("P01","W3C trace context survives propagation and malformed input is ignored",
 "Injecting any valid span context and extracting it elsewhere yields a remote span context with the same trace id, span id, sampled flag and trace state. A traceparent that is missing, malformed, has a forbidden version or an all-zero id leaves the context it is extracted into unchanged, an invalid trace state is dropped without rejecting the rest, and nothing is injected for an invalid span context.",
 ["inputs"],
 "all span contexts and all header strings",
 "A table of about thirty headers.",
 [SDK+"propagation/trace_context.rs",API+"trace_context.rs",API+"trace/span_context.rs"],
 [("parser","TraceContextPropagator::extract_span_context"),("formatter","inject_context")],
 ["headers and extracted span contexts"])
p("P02","Trace state edits keep order, uniqueness and validity",
 "Inserting a key into a trace state yields a state with that key first and its new value, every other entry in unchanged order and at most one entry for that key; deleting removes exactly that key; both leave the original untouched. Keys that violate the W3C grammar and values that are too long or contain a comma or equals sign are never accepted, and a state formatted to its header parses back to an equal state.",
 ["inputs","histories"],
 "all sequences of inserts, deletes and parses, all key and value strings around the grammar's limits",
 "Tests check a few edits.",
 [API+"trace/span_context.rs"],
 [("validation","TraceState::valid_key / valid_value"),("edits","TraceState::insert / delete"),("parser","FromStr for TraceState")],
 ["TraceState::get, header"])
p("P03","Baggage holds one value per name within its limits",
 "After any sequence of insertions and removals a baggage holds, for each name, the last accepted value and metadata, never more than 64 entries or 8192 bytes of names, values and metadata; an insertion that would exceed a limit or has an invalid name changes nothing, and one that fits is always accepted. Attaching baggage to a context replaces, and clearing removes, all of that context's baggage and nothing else.",
 ["inputs","histories"],
 "all sequences of insert, overwrite, remove, attach and clear around the limits",
 "Tests fill the baggage once and never remove.",
 [API+"baggage.rs"],
 [("size accounting","Baggage::insert_with_metadata / remove"),("context slot","BaggageExt")],
 ["Baggage accessors"])
p("P04","Baggage propagation round-trips names, values and metadata",
 "Injecting a baggage and extracting it elsewhere yields the same names, values and metadata properties (whitespace around values and properties aside), whatever characters they contain. Malformed members of an incoming header are skipped without affecting the others, and without a header the context keeps its baggage.",
 ["inputs"],
 "all names, unicode values and property-list metadata; all header strings",
 "Tests use a handful of values and never compose inject with extract.",
 [SDK+"propagation/baggage.rs"],
 [("percent-encoding set","FRAGMENT"),("parser","extract_with_context")],
 ["header and extracted baggage"])
p("P05","Jaeger and B3 propagation round-trip and reject malformed input",
 "For the Jaeger and the B3 (single, multiple and combined header) formats, injecting a valid span context and extracting it yields a remote span context with the same trace id, span id and, unless left deferred or debug, the same sampling decision. Malformed or all-zero identifiers leave the context unchanged, a malformed single B3 header falls back to the multiple headers, and custom Jaeger header names are honoured on both sides.",
 ["inputs","configurations"],
 "all span contexts, flags, encodings and header strings",
 "Tables of fixed headers.",
 ["opentelemetry-jaeger-propagator/src/propagator.rs","opentelemetry-zipkin/src/propagator/mod.rs"],
 [("parsers","extract_span_context / extract_single_header / extract_multi_header"),("formatters","inject_context")],
 ["headers and extracted span contexts"])
p("P06","Composite propagation applies every propagator in order",
 "A composite propagator injects what each of its parts injects and extracts by applying its parts in order, each to the context produced by the previous one, so parts for different concerns never disturb one another and a later part wins for the same concern. It advertises exactly the union of the parts' fields, and extraction only adds to the context it was given.",
 ["configurations","inputs"],
 "all ordered selections of propagators, all subsets of valid, invalid and absent headers, arbitrary base contexts",
 "Tests combine two fixed propagators.",
 [API+"propagation/composite.rs",API+"propagation/mod.rs"],
 [("fold","TextMapCompositePropagator::extract_with_context"),("fields union","TextMapCompositePropagator::new")],
 ["carrier contents, extracted context, fields"])
p("R01","Resources merge by fixed precedence",
 "A built resource holds for each key the value from the latest source added, where the default sources rank below explicit attributes and the service name environment variable outranks the resource attributes environment variable, which outranks the built-in default. Schema URLs combine as documented: equal or single ones are kept and conflicting ones are cleared. Every exporter of a provider has the provider's merged resource (the default one if none was given) before its first export, and every collection carries it.",
 ["configurations","inputs"],
 "all sequences of builder calls, detectors and environment settings",
 "Tests cover single merges.",
 [SDK+"resource/mod.rs",SDK+"resource/env.rs"],
 [("merge","Resource::merge"),("detector order","Resource::builder"),("delivery","set_resource of processors and exporters, Pipeline::produce")],
 ["Resource::get, schema_url"])
p("C01","Configuration precedence: code over environment over defaults",
 "For batching processors, periodic metric readers, span limits and the default sampler, a value set in code wins over its environment variable, a valid environment value wins over the built-in default, and an unparsable or unsupported value is ignored in favour of the default. The effective maximum batch size never exceeds the effective queue size.",
 ["configurations","inputs"],
 "all combinations of unset, valid and invalid environment values with set and unset code values in every order",
 "Tests set one variable at a time.",
 [SDK+"trace/span_processor.rs",SDK+"logs/batch_log_processor.rs",SDK+"trace/config.rs",SDK+"trace/provider.rs",SDK+"metrics/periodic_reader.rs",SDK+"metrics/periodic_reader_with_async_runtime.rs"],
 [("env initialisation","BatchConfigBuilder::init_from_env_vars"),("default sampler","trace::config")],
 ["effective batch sizes, queue capacity, limits and sampling behaviour observed at the exporter"])
OT="opentelemetry-otlp/src/"
p("O01","OTLP/HTTP configuration precedence",
 "An OTLP/HTTP exporter sends every request by POST to one address: the endpoint given in code as it is, else the endpoint variable of its signal as it is, else the general endpoint variable with the path of the signal appended with exactly one slash, else the default address. An empty value counts as not set, an environment value that does not parse is ignored, and an address in code that does not parse fails the build. Headers come from code and from the headers variable of the signal or else the general one, percent-decoded, names are case-insensitive and invalid pairs are skipped; the timeout follows the same order; body and content type are JSON or protobuf as chosen.",
 ["configurations","inputs"],
 "all combinations of code, signal-specific and general settings, each unset, empty, invalid or valid, for all three signals and encodings",
 "Tests set one or two variables for one signal.",
 [OT+"exporter/mod.rs",OT+"exporter/http/mod.rs",OT+"exporter/http/trace.rs",OT+"exporter/http/logs.rs",OT+"exporter/http/metrics.rs"],
 [("address","resolve_http_endpoint"),("timeout","resolve_timeout"),("headers","HttpExporterBuilder::build_client"),("headers in code","WithHttpConfig::with_headers")],
 ["method, URI, headers and body of the requests an HTTP client is given","timeout held by the exporter"])
p("O02","OTLP requests say what the telemetry says",
 "Every span, log record and metric of an export is in the OTLP request exactly once, under the resource of its provider with its schema URL and under its own instrumentation scope with name, version, attributes and schema URL (a log record's target stands in for the scope), with all its identifiers, flags, times, values, attributes, events, links, status, dropped counts, data points, buckets, bounds, temporality and monotonicity; the protobuf and the JSON encoding of a request say the same.",
 ["inputs"],
 "all spans, log records and metrics over families of field values, in batches of several items over several scopes and resources, in both encodings",
 "Tests compare a few hand-written items of one scope.",
 ["opentelemetry-proto/src/transform/common.rs","opentelemetry-proto/src/transform/trace.rs","opentelemetry-proto/src/transform/logs.rs","opentelemetry-proto/src/transform/metrics.rs","opentelemetry-proto/src/proto.rs",OT+"exporter/http/mod.rs"],
 [("spans","group_spans_by_resource_and_scope"),("logs","group_logs_by_resource_and_scope"),("metrics","From<&ResourceMetrics> for ExportMetricsServiceRequest"),("JSON","proto::serializers")],
 ["request bodies decoded independently of the types of the repository"])
p("O03","OTLP exports report what happened",
 "Each export of an OTLP/HTTP exporter sends one request and succeeds exactly if it was answered with a success status; after shutdown nothing more is sent and export reports that the exporter is shut down, while an export under way at shutdown is carried through.",
 ["histories"],
 "all sequences of exports, answers of the server, lost connections, exports left waiting and shutdowns, for all signals and encodings",
 "Tests with a collector need a network and do not run; none covers failing answers.",
 [OT+"exporter/http/trace.rs",OT+"exporter/http/logs.rs",OT+"exporter/http/metrics.rs",OT+"span.rs",OT+"logs.rs",OT+"metric.rs"],
 [("export","SpanExporter/LogExporter/MetricsClient for OtlpHttpClient"),("shutdown","SpanExporter::shutdown")],
 ["results of export and shutdown","number of requests sent"])
AL="opentelemetry-appender-log/src/lib.rs"; AT="opentelemetry-appender-tracing/src/layer.rs"
p("G01","Records of the log crate arrive unchanged",
 "Every record handed to the `log` bridge reaches every processor of the provider as one log record with the record's level as severity number and text, its formatted message as body, its target, and its key-value pairs in order: integers that fit 64 signed bits as integers, larger ones as decimal text, and (with serde) structured values as the lists and maps they are with absent values left out, at any depth; when the bridge is built to ask, records nobody wants or logged under suppression are not delivered and `enabled` says so.",
 ["inputs","histories"],
 "all levels, targets, texts, key-value lists and value trees (all integer widths and boundaries, floats, chars, text, bytes, displayed values, errors, options, sequences, tuples, maps, structs and all kinds of enum variants, nested), pipelines of filters, contexts",
 "Tests send one record with one value of each kind.",
 [AL,"opentelemetry-sdk/src/logs/logger.rs"],
 [("log","OpenTelemetryLogBridge"),("log_attributes","opentelemetry-appender-log"),("any_value::serialize","opentelemetry-appender-log"),("event_enabled","SdkLogger")],
 ["log records received by processors and exporters","enabled"])
p("G02","Events of tracing arrive unchanged",
 "Every `tracing` event that passes the bridge reaches every processor as one log record with the event's level, target and name, its message as body and every other field present as an attribute under its name in order, with integers that fit 64 signed bits as integers, larger ones as decimal text, floats, booleans and bytes as such, errors as exception.message, and other values as they display; it carries the identity of the tracing span it happened in if that feature is on, else of the active span; events nobody wants or under suppression are not delivered when the bridge is built to ask.",
 ["inputs","histories"],
 "all levels, targets, names, field orders, field values of every kind `tracing` records (absent ones included), pipelines of filters, and nestings of contexts and tracing spans",
 "Tests send a handful of events with one set of fields.",
 [AT,"opentelemetry-sdk/src/logs/logger.rs"],
 [("on_event","OpenTelemetryTracingBridge"),("Visit for EventVisitor","opentelemetry-appender-tracing"),("event_enabled","SdkLogger"),("emit","SdkLogger")],
 ["log records received by processors and exporters"])
ZK="opentelemetry-zipkin/src/exporter/"
p("Z01","Zipkin gets every span as it was",
 "Each export of the Zipkin exporter is one POST of JSON to the address set in code, else in the environment, else the default, and succeeds exactly if it was answered with a success status; it lists, in order, one Zipkin span for each span of the batch, with its identifiers, its parent if it has one, name, kind, start and duration in microseconds, events as annotations, the service's name and address as local endpoint, and as tags its attributes as text (the last of a key), its library and its status, where only a failed span has the tag `error`.",
 ["inputs","histories"],
 "all settings in code and environment (unset, empty, malformed, valid), batches over span variants (kinds, statuses, parents, times, events, attribute values of every kind, repeated and reserved keys), answers of the collector, and sequences of exports",
 "Tests serialise hand-made Zipkin spans and check the status of one span.",
 [ZK+"mod.rs",ZK+"env.rs",ZK+"uploader.rs",ZK+"model/mod.rs",ZK+"model/span.rs",ZK+"model/annotation.rs",ZK+"model/endpoint.rs"],
 [("into_zipkin_span","opentelemetry-zipkin"),("upload","JsonV2Client"),("build","ZipkinExporterBuilder"),("set_resource","ZipkinExporter")],
 ["HTTP requests sent","results of build and export"])
JR=SDK+"trace/sampler/jaeger_remote/"
p("T07","The remote sampler follows the last strategy it got",
 "The Jaeger remote sampler asks the collector for the strategy of its service once per interval, and only while a copy of it exists; it decides with its default sampler until a usable strategy arrives and from then on with the last usable one, whatever fails later: a probability decides by trace id, probabilities per operation by name and trace id, and a rate lets through no more traces than its bucket holds, refilled by the rate for all the time that passed up to the bucket's size when it is empty. The decision carries the parent's trace state.",
 ["inputs","histories"],
 "all endpoints and services (unset, empty, malformed, with queries), defaults, intervals and bucket sizes, every strategy and every unusable answer after each other one, trace ids at the edges of the probabilities, every interleaving of intervals, answers, decisions, copies and drops up to a bound, and all sequences of waiting (fractions of a second included) and asking up to a bound",
 "Tests parse one answer and step a bucket alone at whole seconds.",
 [JR+"sampler.rs",JR+"sampling_strategy.rs",JR+"rate_limit.rs",JR+"remote.rs",SDK+"trace/sampler.rs"],
 [("run_update_task","JaegerRemoteSampler"),("update","Inner"),("should_sample","Inner"),("check_availability","LeakyBucket"),("get_endpoint","JaegerRemoteSamplerBuilder")],
 ["HTTP requests sent","sampling decisions and trace state","results of build"])
p("P07","Carriers keep what is written into them",
 "Injecting a value into HTTP headers makes it the only value of that name whatever its case, unless the name or value cannot be a header, which changes nothing; extracting reads the first value of a name in any case, and none if it is not readable text; the keys are the names present, each once. A map of strings behaves alike, in lower case and for every text. What each propagator writes into either, it reads back from it.",
 ["inputs","histories"],
 "all pairs of names and values over classes (case variants, separators, empty, blanks, control and non-ASCII characters), repeated headers from the wire, sequences of writes up to a bound and random ones, every propagator over both carriers",
 "Tests write two names and look one up.",
 ["opentelemetry-http/src/lib.rs",API+"propagation/mod.rs"],
 [("set","HeaderInjector"),("get","HeaderExtractor"),("keys","HeaderExtractor"),("set","HashMap Injector"),("get","HashMap Extractor")],
 ["values and keys read from the carrier","extracted contexts"])
p("T08","Global providers serve everyone who asks from then on",
 "A tracer, meter or propagation through the globals comes from the provider in force when it was obtained, with exactly the scope asked for, on whichever thread; it stays with that provider when another is set, and setting a tracer provider hands back the previous one in working order. Without a provider nothing is recorded, but contexts pass through. Spans behind the boxed forms behave exactly as spans of the SDK.",
 ["histories","inputs"],
 "all sequences of setting, restoring, obtaining (by name, scope, through the provider, through one held earlier), nesting spans over tracers of different providers, counting and propagating up to a bound, long random ones on changing threads with shutdowns, and the whole span life specification through the boxed forms",
 "Tests set one provider of a test type and call it once.",
 [API+"global/trace.rs",API+"global/metrics.rs",API+"global/propagation.rs",API+"trace/noop.rs",API+"metrics/noop.rs"],
 [("set_tracer_provider",""),("tracer_with_scope","GlobalTracerProvider"),("set_meter_provider",""),("set_text_map_propagator",""),("build_with_context_boxed","ObjectSafeTracer")],
 ["exported spans, their scopes and parents","collected measurements","carriers","providers handed back"])
here=os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here,"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
