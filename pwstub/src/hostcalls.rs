//! Same signatures as the SDK's host calls, answered by `host::Host`.
use crate::host::{self, Ev, Prop};
use crate::types::*;
use std::time::{Duration, SystemTime, UNIX_EPOCH};

pub fn log(level: LogLevel, message: &str) -> Result<(), Status> {
    host::with(|h| {
        if h.echo_logs {
            eprintln!("[{level:?}] {message}");
        }
        if h.keep_logs {
            h.logs.push((level, message.to_string()));
        }
    });
    Ok(())
}

pub fn get_log_level() -> Result<LogLevel, Status> {
    Ok(host::with(|h| h.log_level))
}

pub fn get_current_time() -> Result<SystemTime, Status> {
    Ok(UNIX_EPOCH + Duration::from_secs(1_700_000_000))
}

pub fn set_tick_period(period: Duration) -> Result<(), Status> {
    host::with(|h| {
        if h.fail_tick {
            return Err(Status::InternalFailure);
        }
        h.trace.push(Ev::Tick { period });
        Ok(())
    })
}

fn slice(data: &Option<Vec<u8>>, start: usize, max: usize) -> Result<Option<Bytes>, Status> {
    match data {
        None => Err(Status::BadArgument),
        Some(d) => {
            let end = start.saturating_add(max).min(d.len());
            if start >= end {
                Ok(None)
            } else {
                Ok(Some(d[start..end].to_vec()))
            }
        }
    }
}

pub fn get_buffer(t: BufferType, start: usize, max_size: usize) -> Result<Option<Bytes>, Status> {
    host::with(|h| h.gate("get_buffer"))?;
    host::with(|h| match t {
        BufferType::PluginConfiguration => match &h.plugin_config {
            None => Ok(None),
            some => slice(some, start, max_size),
        },
        BufferType::GrpcReceiveBuffer => match &h.grpc_buf {
            None => Ok(None),
            some => slice(some, start, max_size),
        },
        BufferType::HttpRequestBody | BufferType::HttpResponseBody => {
            let s = h.streams.get(&h.cur);
            match s {
                None => Err(Status::BadArgument),
                Some(s) if t == BufferType::HttpRequestBody => {
                    slice(&s.req_body, start, max_size)
                }
                Some(s) => slice(&s.resp_body, start, max_size),
            }
        }
        _ => Err(Status::BadArgument),
    })
}

pub fn set_buffer(t: BufferType, start: usize, size: usize, value: &[u8]) -> Result<(), Status> {
    host::with(|h| {
        let stream = h.cur;
        h.trace.push(Ev::SetBuffer {
            stream,
            buffer: t,
            start,
            size,
            value: value.to_vec(),
        });
        if let Some(s) = h.streams.get_mut(&stream) {
            let b = match t {
                BufferType::HttpRequestBody => &mut s.req_body,
                BufferType::HttpResponseBody => &mut s.resp_body,
                _ => return Err(Status::BadArgument),
            };
            if let Some(b) = b {
                let a = start.min(b.len());
                let e = start.saturating_add(size).min(b.len());
                b.splice(a..e, value.iter().copied());
                return Ok(());
            }
        }
        Err(Status::BadArgument)
    })
}

fn map_ref(h: &host::Host, t: MapType) -> Option<(bool, &Vec<(String, String)>)> {
    let s = h.streams.get(&h.cur)?;
    match t {
        MapType::HttpRequestHeaders => Some((s.req_headers_avail, &s.req_headers)),
        MapType::HttpResponseHeaders => Some((s.resp_headers_avail, &s.resp_headers)),
        _ => None,
    }
}

pub fn get_map(t: MapType) -> Result<Vec<(String, String)>, Status> {
    // the SDK unwraps `String::from_utf8` on each
    get_map_bytes(t).map(|m| m.into_iter().map(|(k, v)| (k, String::from_utf8(v).unwrap())).collect())
}

pub fn get_map_bytes(t: MapType) -> Result<Vec<(String, Bytes)>, Status> {
    host::with(|h| h.gate("get_map"))?;
    host::with(|h| match map_ref(h, t) {
        Some((true, m)) => Ok(m.iter().map(|(k, v)| (k.clone(), host::bytes(v))).collect()),
        _ => Ok(Vec::new()),
    })
}

fn do_set_map(t: MapType, m: Vec<(String, String)>) -> Result<(), Status> {
    host::with(|h| {
        h.gate("set_map")?;
        if h.fail_set_map {
            return Err(Status::InternalFailure);
        }
        match map_ref(h, t) {
            Some((true, _)) => {}
            _ => return Err(Status::BadArgument),
        }
        let stream = h.cur;
        h.trace.push(Ev::SetMap {
            stream,
            map: t,
            headers: m.clone(),
        });
        if let Some(s) = h.streams.get_mut(&stream) {
            match t {
                MapType::HttpRequestHeaders => s.req_headers = m,
                _ => s.resp_headers = m,
            }
        }
        Ok(())
    })
}

pub fn set_map(t: MapType, map: Vec<(&str, &str)>) -> Result<(), Status> {
    do_set_map(
        t,
        map.iter()
            .map(|(k, v)| (k.to_string(), v.to_string()))
            .collect(),
    )
}

pub fn set_map_bytes(t: MapType, map: Vec<(&str, &[u8])>) -> Result<(), Status> {
    do_set_map(
        t,
        map.iter()
            .map(|(k, v)| (k.to_string(), host::raw(v)))
            .collect(),
    )
}

pub fn get_map_value(t: MapType, key: &str) -> Result<Option<String>, Status> {
    // the SDK unwraps `String::from_utf8`
    get_map_value_bytes(t, key).map(|v| v.map(|v| String::from_utf8(v).unwrap()))
}

pub fn get_map_value_bytes(t: MapType, key: &str) -> Result<Option<Bytes>, Status> {
    host::with(|h| h.gate("get_map_value"))?;
    host::with(|h| match map_ref(h, t) {
        // header map lookups are case-insensitive in the proxy, and return
        // all the values of a repeated header joined by a comma
        Some((true, m)) => {
            let v: Vec<&str> = m
                .iter()
                .filter(|(k, _)| k.eq_ignore_ascii_case(key))
                .map(|(_, v)| v.as_str())
                .collect();
            Ok(if v.is_empty() { None } else { Some(host::bytes(&v.join(","))) })
        }
        _ => Err(Status::BadArgument),
    })
}

fn edit_map(
    t: MapType,
    f: impl FnOnce(&mut Vec<(String, String)>),
) -> Result<(), Status> {
    let cur = host::with(|h| match map_ref(h, t) {
        Some((true, m)) => Ok(m.clone()),
        _ => Err(Status::BadArgument),
    })?;
    let mut m = cur;
    f(&mut m);
    do_set_map(t, m)
}

pub fn remove_map_value(t: MapType, key: &str) -> Result<(), Status> {
    edit_map(t, |m| m.retain(|(k, _)| !k.eq_ignore_ascii_case(key)))
}

pub fn set_map_value(t: MapType, key: &str, value: Option<&str>) -> Result<(), Status> {
    edit_map(t, |m| {
        m.retain(|(k, _)| !k.eq_ignore_ascii_case(key));
        if let Some(v) = value {
            m.push((key.to_string(), v.to_string()));
        }
    })
}

pub fn set_map_value_bytes(t: MapType, key: &str, value: Option<&[u8]>) -> Result<(), Status> {
    set_map_value(
        t,
        key,
        value.map(|v| host::raw(v)).as_deref(),
    )
}

pub fn add_map_value(t: MapType, key: &str, value: &str) -> Result<(), Status> {
    edit_map(t, |m| m.push((key.to_string(), value.to_string())))
}

pub fn add_map_value_bytes(t: MapType, key: &str, value: &[u8]) -> Result<(), Status> {
    add_map_value(t, key, &host::raw(value))
}

pub fn get_property(path: Vec<&str>) -> Result<Option<Bytes>, Status> {
    let key = host::prop_key(&path);
    host::with(|h| h.gate("get_property"))?;
    host::with(|h| match h.streams.get(&h.cur).and_then(|s| s.props.get(&key)) {
        Some(Prop::Value(v)) => Ok(Some(v.clone())),
        Some(Prop::Absent) | None => Ok(None),
        Some(Prop::Unavailable) => Err(Status::BadArgument),
        Some(Prop::Fail) => Err(Status::InternalFailure),
    })
}

pub fn set_property(path: Vec<&str>, value: Option<&[u8]>) -> Result<(), Status> {
    let key = host::prop_key(&path);
    host::with(|h| {
        h.gate("set_property")?;
        let stream = h.cur;
        h.trace.push(Ev::SetProperty {
            stream,
            path: path.iter().map(|s| s.to_string()).collect(),
            value: value.map(|v| v.to_vec()),
        });
        if let Some(s) = h.streams.get_mut(&stream) {
            match value {
                Some(v) => s.props.insert(key, Prop::Value(v.to_vec())),
                None => s.props.remove(&key),
            };
        }
        Ok(())
    })
}

fn other<T>(what: &str, r: Result<T, Status>) -> Result<T, Status> {
    host::with(|h| h.trace.push(Ev::Other(what.to_string())));
    r
}

pub fn get_shared_data(key: &str) -> Result<(Option<Bytes>, Option<u32>), Status> {
    let _ = key;
    other("get_shared_data", Ok((None, None)))
}
pub fn set_shared_data(_: &str, _: Option<&[u8]>, _: Option<u32>) -> Result<(), Status> {
    other("set_shared_data", Ok(()))
}
pub fn register_shared_queue(_: &str) -> Result<u32, Status> {
    other("register_shared_queue", Ok(1))
}
pub fn resolve_shared_queue(_: &str, _: &str) -> Result<Option<u32>, Status> {
    other("resolve_shared_queue", Ok(None))
}
pub fn dequeue_shared_queue(_: u32) -> Result<Option<Bytes>, Status> {
    other("dequeue_shared_queue", Ok(None))
}
pub fn enqueue_shared_queue(_: u32, _: Option<&[u8]>) -> Result<(), Status> {
    other("enqueue_shared_queue", Ok(()))
}
pub fn resume_downstream() -> Result<(), Status> {
    other("resume_downstream", Ok(()))
}
pub fn resume_upstream() -> Result<(), Status> {
    other("resume_upstream", Ok(()))
}

pub fn resume_http_request() -> Result<(), Status> {
    host::with(|h| {
        let stream = h.cur;
        h.trace.push(Ev::ResumeRequest { stream });
    });
    Ok(())
}

pub fn resume_http_response() -> Result<(), Status> {
    host::with(|h| {
        let stream = h.cur;
        h.trace.push(Ev::ResumeResponse { stream });
    });
    Ok(())
}

pub fn close_downstream() -> Result<(), Status> {
    other("close_downstream", Ok(()))
}
pub fn close_upstream() -> Result<(), Status> {
    other("close_upstream", Ok(()))
}
pub fn reset_http_request() -> Result<(), Status> {
    other("reset_http_request", Ok(()))
}
pub fn reset_http_response() -> Result<(), Status> {
    other("reset_http_response", Ok(()))
}

pub fn send_http_response(
    status_code: u32,
    headers: Vec<(&str, &str)>,
    body: Option<&[u8]>,
) -> Result<(), Status> {
    host::with(|h| {
        let stream = h.cur;
        h.trace.push(Ev::LocalReply {
            stream,
            status: status_code,
            headers: headers
                .iter()
                .map(|(k, v)| (k.to_string(), v.to_string()))
                .collect(),
            body: body.map(|b| b.to_vec()),
        });
    });
    Ok(())
}

pub fn send_grpc_response(
    _: GrpcStatusCode,
    _: Option<&str>,
    _: Vec<(&str, &[u8])>,
) -> Result<(), Status> {
    other("send_grpc_response", Ok(()))
}

pub fn dispatch_http_call(
    _: &str,
    _: Vec<(&str, &str)>,
    _: Option<&[u8]>,
    _: Vec<(&str, &str)>,
    _: Duration,
) -> Result<u32, Status> {
    other("dispatch_http_call", Err(Status::InternalFailure))
}

pub fn dispatch_grpc_call(
    upstream_name: &str,
    service_name: &str,
    method_name: &str,
    initial_metadata: Vec<(&str, &[u8])>,
    message: Option<&[u8]>,
    timeout: Duration,
) -> Result<u32, Status> {
    host::with(|h| {
        let n = h.dispatches;
        h.dispatches += 1;
        let gate = h.gate("dispatch_grpc_call");
        let ok = gate.is_ok() && !h.fail_dispatch.contains(&n) && !h.fail_upstream.contains(upstream_name);
        let token = if ok {
            let t = h.next_token;
            h.next_token += 1;
            t
        } else {
            0
        };
        let stream = h.cur;
        h.trace.push(Ev::Dispatch {
            stream,
            token,
            upstream: upstream_name.to_string(),
            service: service_name.to_string(),
            method: method_name.to_string(),
            metadata: initial_metadata
                .iter()
                .map(|(k, v)| (k.to_string(), v.to_vec()))
                .collect(),
            message: message.unwrap_or(&[]).to_vec(),
            timeout,
            ok,
        });
        if ok {
            Ok(token)
        } else {
            Err(gate.err().unwrap_or(Status::InternalFailure))
        }
    })
}

pub fn open_grpc_stream(
    _: &str,
    _: &str,
    _: &str,
    _: Vec<(&str, &[u8])>,
) -> Result<u32, Status> {
    other("open_grpc_stream", Err(Status::InternalFailure))
}
pub fn send_grpc_stream_message(_: u32, _: Option<&[u8]>, _: bool) -> Result<(), Status> {
    other("send_grpc_stream_message", Ok(()))
}
pub fn cancel_grpc_call(t: u32) -> Result<(), Status> {
    other(&format!("cancel_grpc_call {t}"), Ok(()))
}
pub fn cancel_grpc_stream(_: u32) -> Result<(), Status> {
    other("cancel_grpc_stream", Ok(()))
}
pub fn close_grpc_stream(_: u32) -> Result<(), Status> {
    other("close_grpc_stream", Ok(()))
}
pub fn get_grpc_status() -> Result<(u32, Option<String>), Status> {
    Ok((0, None))
}
pub fn set_effective_context(_: u32) -> Result<(), Status> {
    other("set_effective_context", Ok(()))
}
pub fn call_foreign_function(_: &str, _: Option<&[u8]>) -> Result<Option<Bytes>, Status> {
    other("call_foreign_function", Ok(None))
}
pub fn done() -> Result<(), Status> {
    other("done", Ok(()))
}

pub fn define_metric(_: MetricType, name: &str) -> Result<u32, Status> {
    Ok(host::metric_id(name))
}
pub fn get_metric(_: u32) -> Result<u64, Status> {
    Ok(0)
}
pub fn record_metric(_: u32, _: u64) -> Result<(), Status> {
    other("record_metric", Ok(()))
}
pub fn increment_metric(id: u32, offset: i64) -> Result<(), Status> {
    host::with(|h| {
        let name = host::metric_name(id);
        h.trace.push(Ev::Metric { name, offset });
    });
    Ok(())
}
