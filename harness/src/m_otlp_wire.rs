//! Reads OTLP requests: protobuf and JSON bodies into one tree, by the published field
//! numbers and names, independently of the types the exporters use.
use serde_json::{json, Map, Value};

/// (field number, JSON name, type).  Types: s string, x identifier (bytes, hexadecimal in
/// JSON), y bytes, v integer varint, z zigzag varint, b bool, q fixed 64 bits, w fixed 32
/// bits, d double, g signed fixed 64 bits, M:message; a leading * is a list, a leading ?
/// has explicit presence.
pub fn fields(msg: &str) -> &'static [(u64, &'static str, &'static str)] {
    match msg {
        "AnyValue" => &[
            (1, "stringValue", "?s"),
            (2, "boolValue", "?b"),
            (3, "intValue", "?v"),
            (4, "doubleValue", "?d"),
            (5, "arrayValue", "?M:Array"),
            (6, "kvlistValue", "?M:KeyValues"),
            (7, "bytesValue", "?y"),
        ],
        "Array" => &[(1, "values", "*M:AnyValue")],
        "KeyValues" => &[(1, "values", "*M:KeyValue")],
        "KeyValue" => &[(1, "key", "s"), (2, "value", "?M:AnyValue")],
        "Scope" => &[(1, "name", "s"), (2, "version", "s"), (3, "attributes", "*M:KeyValue"), (4, "droppedAttributesCount", "v")],
        "Resource" => &[(1, "attributes", "*M:KeyValue"), (2, "droppedAttributesCount", "v"), (3, "entityRefs", "*M:Nothing")],
        "TraceRequest" => &[(1, "resourceSpans", "*M:ResourceSpans")],
        "ResourceSpans" => &[(1, "resource", "?M:Resource"), (2, "scopeSpans", "*M:ScopeSpans"), (3, "schemaUrl", "s")],
        "ScopeSpans" => &[(1, "scope", "?M:Scope"), (2, "spans", "*M:Span"), (3, "schemaUrl", "s")],
        "Span" => &[
            (1, "traceId", "x"),
            (2, "spanId", "x"),
            (3, "traceState", "s"),
            (4, "parentSpanId", "x"),
            (5, "name", "s"),
            (6, "kind", "v"),
            (7, "startTimeUnixNano", "q"),
            (8, "endTimeUnixNano", "q"),
            (9, "attributes", "*M:KeyValue"),
            (10, "droppedAttributesCount", "v"),
            (11, "events", "*M:Event"),
            (12, "droppedEventsCount", "v"),
            (13, "links", "*M:Link"),
            (14, "droppedLinksCount", "v"),
            (15, "status", "?M:Status"),
            (16, "flags", "w"),
        ],
        "Event" => &[(1, "timeUnixNano", "q"), (2, "name", "s"), (3, "attributes", "*M:KeyValue"), (4, "droppedAttributesCount", "v")],
        "Link" => &[
            (1, "traceId", "x"),
            (2, "spanId", "x"),
            (3, "traceState", "s"),
            (4, "attributes", "*M:KeyValue"),
            (5, "droppedAttributesCount", "v"),
            (6, "flags", "w"),
        ],
        "Status" => &[(2, "message", "s"), (3, "code", "v")],
        "LogsRequest" => &[(1, "resourceLogs", "*M:ResourceLogs")],
        "ResourceLogs" => &[(1, "resource", "?M:Resource"), (2, "scopeLogs", "*M:ScopeLogs"), (3, "schemaUrl", "s")],
        "ScopeLogs" => &[(1, "scope", "?M:Scope"), (2, "logRecords", "*M:LogRecord"), (3, "schemaUrl", "s")],
        "LogRecord" => &[
            (1, "timeUnixNano", "q"),
            (11, "observedTimeUnixNano", "q"),
            (2, "severityNumber", "v"),
            (3, "severityText", "s"),
            (5, "body", "?M:AnyValue"),
            (6, "attributes", "*M:KeyValue"),
            (7, "droppedAttributesCount", "v"),
            (8, "flags", "w"),
            (9, "traceId", "x"),
            (10, "spanId", "x"),
            (12, "eventName", "s"),
        ],
        "MetricsRequest" => &[(1, "resourceMetrics", "*M:ResourceMetrics")],
        "ResourceMetrics" => &[(1, "resource", "?M:Resource"), (2, "scopeMetrics", "*M:ScopeMetrics"), (3, "schemaUrl", "s")],
        "ScopeMetrics" => &[(1, "scope", "?M:Scope"), (2, "metrics", "*M:Metric"), (3, "schemaUrl", "s")],
        "Metric" => &[
            (1, "name", "s"),
            (2, "description", "s"),
            (3, "unit", "s"),
            (5, "gauge", "?M:Gauge"),
            (7, "sum", "?M:Sum"),
            (9, "histogram", "?M:Histogram"),
            (10, "exponentialHistogram", "?M:ExponentialHistogram"),
            (11, "summary", "?M:Nothing"),
            (12, "metadata", "*M:KeyValue"),
        ],
        "Gauge" => &[(1, "dataPoints", "*M:NumberPoint")],
        "Sum" => &[(1, "dataPoints", "*M:NumberPoint"), (2, "aggregationTemporality", "v"), (3, "isMonotonic", "b")],
        "Histogram" => &[(1, "dataPoints", "*M:HistogramPoint"), (2, "aggregationTemporality", "v")],
        "ExponentialHistogram" => &[(1, "dataPoints", "*M:ExponentialPoint"), (2, "aggregationTemporality", "v")],
        "NumberPoint" => &[
            (7, "attributes", "*M:KeyValue"),
            (2, "startTimeUnixNano", "q"),
            (3, "timeUnixNano", "q"),
            (4, "asDouble", "?d"),
            (6, "asInt", "?g"),
            (5, "exemplars", "*M:Nothing"),
            (8, "flags", "v"),
        ],
        "HistogramPoint" => &[
            (9, "attributes", "*M:KeyValue"),
            (2, "startTimeUnixNano", "q"),
            (3, "timeUnixNano", "q"),
            (4, "count", "q"),
            (5, "sum", "?d"),
            (6, "bucketCounts", "*q"),
            (7, "explicitBounds", "*d"),
            (8, "exemplars", "*M:Nothing"),
            (10, "flags", "v"),
            (11, "min", "?d"),
            (12, "max", "?d"),
        ],
        "ExponentialPoint" => &[
            (1, "attributes", "*M:KeyValue"),
            (2, "startTimeUnixNano", "q"),
            (3, "timeUnixNano", "q"),
            (4, "count", "q"),
            (5, "sum", "?d"),
            (6, "scale", "z"),
            (7, "zeroCount", "q"),
            (8, "positive", "?M:Buckets"),
            (9, "negative", "?M:Buckets"),
            (10, "flags", "v"),
            (11, "exemplars", "*M:Nothing"),
            (12, "min", "?d"),
            (13, "max", "?d"),
            (14, "zeroThreshold", "d"),
        ],
        "Buckets" => &[(1, "offset", "z"), (2, "bucketCounts", "*v")],
        "Nothing" => &[],
        m => panic!("harness: no message {m}"),
    }
}
type R<T> = Result<T, String>;
pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
fn varint(b: &[u8], at: &mut usize) -> R<u64> {
    let mut r = 0u64;
    for k in 0..10 {
        let x = *b.get(*at).ok_or("cut short")?;
        *at += 1;
        r |= ((x & 0x7f) as u64).checked_shl(7 * k).unwrap_or(0);
        if x & 0x80 == 0 {
            return Ok(r);
        }
    }
    Err("varint too long".into())
}
fn take<'a>(b: &'a [u8], at: &mut usize, k: usize) -> R<&'a [u8]> {
    let r = b.get(*at..*at + k).ok_or("cut short")?;
    *at += k;
    Ok(r)
}
/// Numbers become text, so that both encodings give the same tree; a double is ten times
/// its value.
fn dbl(v: f64) -> Value {
    if (v * 10.0).fract() == 0.0 && v.abs() < 1e15 {
        json!(format!("{}", (v * 10.0) as i64))
    } else {
        json!(format!("{v:?}"))
    }
}
fn scalar(t: &str, b: &[u8], at: &mut usize) -> R<Value> {
    Ok(match t {
        "v" => json!((varint(b, at)? as i64).to_string()),
        "z" => {
            let u = varint(b, at)?;
            json!((((u >> 1) as i64) ^ -((u & 1) as i64)).to_string())
        }
        "b" => json!(varint(b, at)? != 0),
        "q" => json!(u64::from_le_bytes(take(b, at, 8)?.try_into().unwrap()).to_string()),
        "g" => json!(i64::from_le_bytes(take(b, at, 8)?.try_into().unwrap()).to_string()),
        "w" => json!(u32::from_le_bytes(take(b, at, 4)?.try_into().unwrap()).to_string()),
        "d" => dbl(f64::from_le_bytes(take(b, at, 8)?.try_into().unwrap())),
        _ => {
            let k = varint(b, at)? as usize;
            let c = take(b, at, k)?;
            match t {
                "s" => json!(String::from_utf8(c.to_vec()).map_err(|e| e.to_string())?),
                "x" | "y" => json!(hex(c)),
                m => protobuf(&m[2..], c)?,
            }
        }
    })
}
fn wire_type(t: &str) -> u64 {
    match t {
        "v" | "z" | "b" => 0,
        "q" | "g" | "d" => 1,
        "w" => 5,
        _ => 2,
    }
}
fn is_default(v: &Value) -> bool {
    matches!(v, Value::Null) || *v == json!(false) || *v == json!("") || *v == json!("0") || v.as_array().is_some_and(|a| a.is_empty())
}
pub fn protobuf(msg: &str, b: &[u8]) -> R<Value> {
    let mut out = Map::new();
    let mut at = 0;
    while at < b.len() {
        let key = varint(b, &mut at)?;
        let (num, wt) = (key >> 3, key & 7);
        let (_, name, ty) = *fields(msg).iter().find(|f| f.0 == num).ok_or(format!("{msg} has no field {num}"))?;
        if let Some(t) = ty.strip_prefix('*') {
            let list = out.entry(name).or_insert(json!([])).as_array_mut().unwrap();
            if wt == 2 && wire_type(t) != 2 {
                let k = varint(b, &mut at)? as usize;
                let c = take(b, &mut at, k)?;
                let mut i = 0;
                while i < c.len() {
                    list.push(scalar(t, c, &mut i)?);
                }
                continue;
            }
            if wt != wire_type(t) {
                return Err(format!("{msg}.{name} has wire type {wt}"));
            }
            list.push(scalar(t, b, &mut at)?);
        } else {
            let t = ty.trim_start_matches('?');
            if wt != wire_type(t) {
                return Err(format!("{msg}.{name} has wire type {wt}"));
            }
            let v = scalar(t, b, &mut at)?;
            if ty.starts_with('?') || !is_default(&v) {
                out.insert(name.into(), v);
            }
        }
    }
    Ok(Value::Object(out))
}
fn base64(t: &str) -> R<Vec<u8>> {
    let mut out = vec![];
    let (mut acc, mut bits) = (0u32, 0);
    for c in t.trim_end_matches('=').bytes() {
        let v = match c {
            b'A'..=b'Z' => c - b'A',
            b'a'..=b'z' => c - b'a' + 26,
            b'0'..=b'9' => c - b'0' + 52,
            b'+' | b'-' => 62,
            b'/' | b'_' => 63,
            _ => return Err(format!("not base64: {t}")),
        };
        acc = acc << 6 | v as u32;
        bits += 6;
        if bits >= 8 {
            bits -= 8;
            out.push((acc >> bits) as u8);
            acc &= (1 << bits) - 1;
        }
    }
    Ok(out)
}
fn json_scalar(t: &str, v: &Value) -> R<Value> {
    Ok(match (t, v) {
        ("s", Value::String(_)) | ("b", Value::Bool(_)) => v.clone(),
        ("x", Value::String(x)) if x.chars().all(|c| c.is_ascii_hexdigit()) => json!(x.to_lowercase()),
        ("y", Value::String(x)) => json!(hex(&base64(x)?)),
        ("v" | "z" | "q" | "w" | "g", Value::Number(x)) if !x.is_f64() => json!(x.to_string()),
        ("v" | "z" | "q" | "w" | "g", Value::String(x)) if x.parse::<i128>().is_ok() => json!(x),
        ("d", Value::Number(x)) => dbl(x.as_f64().unwrap()),
        (m, Value::Object(_)) if m.starts_with("M:") => json_tree(&m[2..], v)?,
        _ => return Err(format!("not a value of type {t}: {v}")),
    })
}
pub fn json_tree(msg: &str, v: &Value) -> R<Value> {
    let mut out = Map::new();
    for (k, x) in v.as_object().ok_or(format!("{msg} is {v}"))? {
        let (_, name, ty) = *fields(msg).iter().find(|f| f.1 == k).ok_or(format!("{msg} has no member {k}"))?;
        if x.is_null() {
            continue;
        }
        if let Some(t) = ty.strip_prefix('*') {
            let l = x.as_array().ok_or(format!("{msg}.{name} is {x}"))?;
            if !l.is_empty() {
                out.insert(name.into(), Value::Array(l.iter().map(|y| json_scalar(t, y)).collect::<R<Vec<_>>>()?));
            }
            continue;
        }
        let y = json_scalar(ty.trim_start_matches('?'), x)?;
        if ty.starts_with('?') || !is_default(&y) {
            out.insert(name.into(), y);
        }
    }
    Ok(Value::Object(out))
}
