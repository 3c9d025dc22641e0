//! The scripted host.  One per thread; holds the state a proxy would answer
//! host calls from, and the ordered trace of every effect the filter caused.
use crate::types::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::time::Duration;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Prop {
    Value(Vec<u8>),
    /// the proxy answers "not found"
    Absent,
    /// the proxy answers "not available in this phase"
    Unavailable,
    /// the proxy fails
    Fail,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Ev {
    Dispatch {
        stream: u32,
        token: u32,
        upstream: String,
        service: String,
        method: String,
        metadata: Vec<(String, Vec<u8>)>,
        message: Vec<u8>,
        timeout: Duration,
        ok: bool,
    },
    LocalReply {
        stream: u32,
        status: u32,
        headers: Vec<(String, String)>,
        body: Option<Vec<u8>>,
    },
    SetMap {
        stream: u32,
        map: MapType,
        headers: Vec<(String, String)>,
    },
    SetProperty {
        stream: u32,
        path: Vec<String>,
        value: Option<Vec<u8>>,
    },
    SetBuffer {
        stream: u32,
        buffer: BufferType,
        start: usize,
        size: usize,
        value: Vec<u8>,
    },
    ResumeRequest {
        stream: u32,
    },
    ResumeResponse {
        stream: u32,
    },
    Metric {
        name: String,
        offset: i64,
    },
    Tick {
        period: Duration,
    },
    /// any host call the filter is not expected to make
    Other(String),
}

#[derive(Clone, Debug, Default)]
pub struct Stream {
    pub props: BTreeMap<String, Prop>,
    pub req_headers: Vec<(String, String)>,
    pub resp_headers: Vec<(String, String)>,
    pub req_headers_avail: bool,
    pub resp_headers_avail: bool,
    pub req_body: Option<Vec<u8>>,
    pub resp_body: Option<Vec<u8>>,
}

pub struct Host {
    pub log_level: LogLevel,
    pub plugin_config: Option<Vec<u8>>,
    pub streams: BTreeMap<u32, Stream>,
    pub cur: u32,
    pub grpc_buf: Option<Vec<u8>>,
    pub trace: Vec<Ev>,
    pub next_token: u32,
    /// ordinals (0-based, over the life of the host) of dispatches that fail
    pub fail_dispatch: BTreeSet<u32>,
    /// upstream names whose dispatches fail
    pub fail_upstream: BTreeSet<String>,
    pub dispatches: u32,
    pub fail_tick: bool,
    pub fail_set_map: bool,
    /// ordinals (0-based, since `calls` was last set) of host calls that fail
    pub fail_calls: BTreeMap<u32, Status>,
    pub calls: u32,
    /// the ones that did
    pub failed_calls: Vec<&'static str>,
    pub logs: Vec<(LogLevel, String)>,
    pub keep_logs: bool,
    pub echo_logs: bool,
    pub metrics: Vec<String>,
}

impl Default for Host {
    fn default() -> Self {
        Host {
            log_level: if std::env::var_os("MC_LOG").is_some() {
                LogLevel::Trace
            } else {
                LogLevel::Error
            },
            plugin_config: None,
            streams: BTreeMap::new(),
            cur: 0,
            grpc_buf: None,
            trace: Vec::new(),
            next_token: 1,
            fail_dispatch: BTreeSet::new(),
            fail_upstream: BTreeSet::new(),
            dispatches: 0,
            fail_tick: false,
            fail_set_map: false,
            fail_calls: BTreeMap::new(),
            calls: 0,
            failed_calls: Vec::new(),
            logs: Vec::new(),
            keep_logs: false,
            echo_logs: std::env::var_os("MC_LOG").is_some(),
            metrics: Vec::new(),
        }
    }
}

impl Host {
    /// Counts a host call, and tells whether it is one that fails.
    pub fn gate(&mut self, what: &'static str) -> Result<(), Status> {
        let n = self.calls;
        self.calls += 1;
        match self.fail_calls.get(&n) {
            Some(s) => {
                self.failed_calls.push(what);
                Err(*s)
            }
            None => Ok(()),
        }
    }
}

thread_local! {
    static HOST: RefCell<Host> = RefCell::new(Host::default());
}

pub fn with<R>(f: impl FnOnce(&mut Host) -> R) -> R {
    HOST.with(|h| f(&mut h.borrow_mut()))
}

pub fn prop_key<S: AsRef<str>>(path: &[S]) -> String {
    path.iter()
        .map(|s| s.as_ref())
        .collect::<Vec<_>>()
        .join("\u{1}")
}

/// metric ids are process wide in the code under test (a static), so the
/// name <-> id mapping has to be the same on every thread
pub const METRIC_NAMES: &[&str] = &[
    "kuadrant.configs",
    "kuadrant.hits",
    "kuadrant.misses",
    "kuadrant.allowed",
    "kuadrant.denied",
    "kuadrant.errors",
];
static EXTRA_METRICS: std::sync::Mutex<Vec<String>> = std::sync::Mutex::new(Vec::new());

pub fn metric_id(name: &str) -> u32 {
    if let Some(i) = METRIC_NAMES.iter().position(|n| *n == name) {
        return i as u32;
    }
    let mut v = EXTRA_METRICS.lock().unwrap();
    if let Some(i) = v.iter().position(|n| n == name) {
        return (METRIC_NAMES.len() + i) as u32;
    }
    v.push(name.to_string());
    (METRIC_NAMES.len() + v.len() - 1) as u32
}

pub fn metric_name(id: u32) -> String {
    if let Some(n) = METRIC_NAMES.get(id as usize) {
        return n.to_string();
    }
    let v = EXTRA_METRICS.lock().unwrap();
    v.get(id as usize - METRIC_NAMES.len())
        .cloned()
        .unwrap_or_else(|| format!("unknown#{id}"))
}

/// Header values are bytes to the proxy.  Those that are not UTF-8 are kept
/// in strings with a private character for each odd byte.
pub fn raw(bytes: &[u8]) -> String {
    let mut out = String::new();
    for c in bytes.utf8_chunks() {
        out.push_str(c.valid());
        for b in c.invalid() {
            out.push(char::from_u32(0x10_FF00 + *b as u32).unwrap());
        }
    }
    out
}

pub fn bytes(s: &str) -> Vec<u8> {
    let mut out = vec![];
    for c in s.chars() {
        match (c as u32).checked_sub(0x10_FF00) {
            Some(b @ 0x80..=0xff) => out.push(b as u8),
            _ => out.extend(c.to_string().into_bytes()),
        }
    }
    out
}

/// A proxy that has seen nothing yet.
pub fn reset() {
    HOST.with(|h| *h.borrow_mut() = Host::default());
}
