//! The filter under a scripted proxy: owns the root context and the HTTP
//! contexts, calls their callbacks, and collects everything each call did.
use proxy_wasm::host::{self, Ev, Prop, Stream};
use proxy_wasm::traits::{HttpContext, RootContext};
use proxy_wasm::types::{Action, MapType};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Call {
    pub token: u32,
    pub upstream: String,
    pub service: String,
    pub method: String,
    pub message: Vec<u8>,
    pub timeout_ms: u128,
    pub ok: bool,
    pub metadata: Vec<(String, Vec<u8>)>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct LocalReply {
    pub status: u32,
    pub headers: Vec<(String, String)>,
    pub body: String,
}

/// What one callback did, as far as the proxy can tell.
#[derive(Clone, Debug, Default)]
pub struct Obs {
    pub pause: Option<bool>,
    pub calls: Vec<Call>,
    pub replies: Vec<LocalReply>,
    pub resume_req: u32,
    pub resume_resp: u32,
    pub props: Vec<(Vec<String>, Vec<u8>)>,
    pub set_maps: Vec<(bool, Vec<(String, String)>)>,
    pub metrics: BTreeMap<String, i64>,
    pub ticks: Vec<u128>,
    pub other: Vec<String>,
    pub panicked: Option<String>,
    /// effects in the order they happened: c(all) r(eply) q/s (resume) p(rop) h(eaders)
    pub order: String,
    pub evs: Vec<Ev>,
}

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = format!("{info}");
        if std::env::var_os("MC_LOG").is_some() {
            eprintln!("PANIC {msg}");
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(msg));
    }));
}

fn obs_from(evs: Vec<Ev>, stream: u32) -> Obs {
    let mut o = Obs::default();
    for e in &evs {
        match e {
            Ev::Dispatch {
                stream: s,
                token,
                upstream,
                service,
                method,
                metadata,
                message,
                timeout,
                ok,
            } => {
                if *s != stream {
                    o.other.push(format!("dispatch on stream {s}"));
                }
                o.order.push('c');
                o.calls.push(Call {
                    token: *token,
                    upstream: upstream.clone(),
                    service: service.clone(),
                    method: method.clone(),
                    message: message.clone(),
                    timeout_ms: timeout.as_millis(),
                    ok: *ok,
                    metadata: metadata.clone(),
                });
            }
            Ev::LocalReply {
                status,
                headers,
                body,
                ..
            } => {
                o.order.push('r');
                o.replies.push(LocalReply {
                    status: *status,
                    headers: headers.clone(),
                    body: String::from_utf8_lossy(body.as_deref().unwrap_or(&[])).into_owned(),
                });
            }
            Ev::SetMap { map, headers, .. } => {
                o.order.push('h');
                o.set_maps
                    .push((*map == MapType::HttpRequestHeaders, headers.clone()));
            }
            Ev::SetProperty { path, value, .. } => {
                o.order.push('p');
                o.props
                    .push((path.clone(), value.clone().unwrap_or_default()));
            }
            Ev::ResumeRequest { .. } => {
                o.order.push('q');
                o.resume_req += 1
            }
            Ev::ResumeResponse { .. } => {
                o.order.push('s');
                o.resume_resp += 1
            }
            Ev::Metric { name, offset } => *o.metrics.entry(name.clone()).or_default() += offset,
            Ev::Tick { period } => o.ticks.push(period.as_millis()),
            Ev::SetBuffer { .. } => o.other.push("set_buffer".into()),
            Ev::Other(s) => o.other.push(s.clone()),
        }
    }
    o.evs = evs;
    o
}

pub struct Vm {
    pub root: Box<dyn RootContext>,
    http: BTreeMap<u32, Box<dyn HttpContext>>,
}

pub const ROOT: u32 = 1;

impl Vm {
    pub fn new() -> Vm {
        shim::run_start();
        install_panic_hook();
        let f = proxy_wasm::root_factory().expect("start() registers the root context");
        host::with(|h| {
            h.streams.insert(ROOT, Stream::default());
            h.cur = ROOT;
        });
        let mut root = f(ROOT);
        root.on_vm_start(0);
        Vm {
            root,
            http: BTreeMap::new(),
        }
    }

    /// A second root context (another plugin configuration in the same VM).
    pub fn fresh_root() -> Box<dyn RootContext> {
        proxy_wasm::root_factory().expect("root factory")(ROOT)
    }

    fn run<R>(&mut self, stream: u32, f: impl FnOnce(&mut Self) -> R) -> (Option<R>, Obs) {
        host::with(|h| {
            h.cur = stream;
            h.trace.clear();
        });
        let r = catch_unwind(AssertUnwindSafe(|| f(self)));
        let evs = host::with(|h| {
            h.grpc_buf = None;
            std::mem::take(&mut h.trace)
        });
        let mut o = obs_from(evs, stream);
        match r {
            Ok(r) => (Some(r), o),
            Err(_) => {
                o.panicked = Some(
                    LAST_PANIC
                        .with(|p| p.borrow_mut().take())
                        .unwrap_or_else(|| "panic".into()),
                );
                (None, o)
            }
        }
    }

    pub fn configure(&mut self, cfg: &str) -> (bool, Obs) {
        self.configure_bytes(cfg.as_bytes())
    }

    pub fn configure_bytes(&mut self, cfg: &[u8]) -> (bool, Obs) {
        host::with(|h| h.plugin_config = Some(cfg.to_vec()));
        let n = cfg.len();
        let (r, o) = self.run(ROOT, |vm| vm.root.on_configure(n));
        (r.unwrap_or(false), o)
    }

    pub fn tick(&mut self) -> Obs {
        self.run(ROOT, |vm| vm.root.on_tick()).1
    }

    pub fn root_reply(&mut self, token: u32, status: u32, body: Option<&[u8]>) -> Obs {
        self.root_reply_sized(token, status, body, None)
    }

    pub fn root_reply_sized(
        &mut self,
        token: u32,
        status: u32,
        body: Option<&[u8]>,
        size: Option<usize>,
    ) -> Obs {
        let n = size.unwrap_or(body.map_or(0, |b| b.len()));
        host::with(|h| h.grpc_buf = body.map(|b| b.to_vec()));
        self.run(ROOT, |vm| vm.root.on_grpc_call_response(token, status, n))
            .1
    }

    pub fn open(&mut self, id: u32, s: Stream) {
        host::with(|h| {
            h.streams.insert(id, s);
            h.cur = id;
        });
        let c = self
            .root
            .create_http_context(id)
            .expect("an http context is created");
        self.http.insert(id, c);
    }

    pub fn close(&mut self, id: u32) -> Obs {
        let (_, o) = self.run(id, |vm| {
            if let Some(mut c) = vm.http.remove(&id) {
                c.on_log();
                c.on_done();
            }
        });
        host::with(|h| h.streams.remove(&id));
        o
    }

    /// Drops a context without telling it anything.
    pub fn forget(&mut self, id: u32) {
        host::with(|h| h.cur = id);
        let c = self.http.remove(&id);
        let _ = catch_unwind(AssertUnwindSafe(move || drop(c)));
        host::with(|h| {
            h.streams.remove(&id);
            h.trace.clear();
        });
    }

    fn http<R>(&mut self, id: u32, f: impl FnOnce(&mut dyn HttpContext) -> R) -> (Option<R>, Obs) {
        self.run(id, |vm| {
            let c = vm.http.get_mut(&id).expect("open context");
            f(c.as_mut())
        })
    }

    fn act(r: (Option<Action>, Obs)) -> Obs {
        let (a, mut o) = r;
        o.pause = a.map(|a| a == Action::Pause);
        o
    }

    pub fn request_headers(&mut self, id: u32, eos: bool) -> Obs {
        let n = host::with(|h| h.streams[&id].req_headers.len());
        Self::act(self.http(id, |c| c.on_http_request_headers(n, eos)))
    }

    pub fn request_body(&mut self, id: u32, buffer: &[u8], eos: bool) -> Obs {
        host::with(|h| {
            if let Some(s) = h.streams.get_mut(&id) {
                s.req_body = Some(buffer.to_vec());
            }
        });
        let o = Self::act(self.http(id, |c| c.on_http_request_body(buffer.len(), eos)));
        // the proxy keeps what it was not told to let through
        if o.pause != Some(true) {
            host::with(|h| {
                if let Some(s) = h.streams.get_mut(&id) {
                    s.req_body = None;
                }
            });
        }
        o
    }

    pub fn response_headers(&mut self, id: u32, eos: bool) -> Obs {
        let n = host::with(|h| {
            let s = h.streams.get_mut(&id).expect("stream");
            s.resp_headers_avail = true;
            s.resp_headers.len()
        });
        Self::act(self.http(id, |c| c.on_http_response_headers(n, eos)))
    }

    pub fn response_body(&mut self, id: u32, buffer: &[u8], eos: bool) -> Obs {
        host::with(|h| {
            if let Some(s) = h.streams.get_mut(&id) {
                s.resp_body = Some(buffer.to_vec());
            }
        });
        let o = Self::act(self.http(id, |c| c.on_http_response_body(buffer.len(), eos)));
        // the proxy keeps what it was not told to let through
        if o.pause != Some(true) {
            host::with(|h| {
                if let Some(s) = h.streams.get_mut(&id) {
                    s.resp_body = None;
                }
            });
        }
        o
    }

    pub fn reply(&mut self, id: u32, token: u32, status: u32, body: Option<&[u8]>) -> Obs {
        let n = body.map_or(0, |b| b.len());
        self.reply_sized(id, token, status, body, n)
    }

    pub fn reply_sized(
        &mut self,
        id: u32,
        token: u32,
        status: u32,
        body: Option<&[u8]>,
        size: usize,
    ) -> Obs {
        host::with(|h| h.grpc_buf = body.map(|b| b.to_vec()));
        let o = self.http(id, |c| c.on_grpc_call_response(token, status, size)).1;
        host::with(|h| {
            if let Some(s) = h.streams.get_mut(&id) {
                if o.resume_req > 0 {
                    s.req_body = None;
                }
                if o.resume_resp > 0 {
                    s.resp_body = None;
                }
            }
        });
        o
    }

    pub fn headers(&self, id: u32) -> (Vec<(String, String)>, Vec<(String, String)>) {
        host::with(|h| {
            h.streams.get(&id).map_or_else(Default::default, |s| {
                (s.req_headers.clone(), s.resp_headers.clone())
            })
        })
    }
}

pub fn set_prop(s: &mut Stream, path: &str, v: Prop) {
    s.props
        .insert(host::prop_key(&path.split('.').collect::<Vec<_>>()), v);
}

pub fn set_prop_tokens(s: &mut Stream, path: &[&str], v: Prop) {
    s.props.insert(host::prop_key(path), v);
}

pub fn val(s: &str) -> Prop {
    Prop::Value(s.as_bytes().to_vec())
}

/// An ordinary GET request, with the attributes a proxy provides for it.
pub fn base_stream(host_name: &str, path: &str) -> Stream {
    let mut s = Stream {
        req_headers_avail: true,
        ..Default::default()
    };
    let url_path = path.split('?').next().unwrap_or(path);
    let query = path.split_once('?').map_or("", |x| x.1);
    for (k, v) in [
        (":authority", host_name),
        (":path", path),
        (":method", "GET"),
        (":scheme", "http"),
        ("x-request-id", "rid-1"),
    ] {
        s.req_headers.push((k.into(), v.into()));
    }
    s.resp_headers = vec![
        (":status".into(), "200".into()),
        ("content-type".into(), "application/json".into()),
    ];
    for (k, v) in [
        ("request.host", host_name),
        ("request.path", path),
        ("request.url_path", url_path),
        ("request.query", query),
        ("request.method", "GET"),
        ("request.scheme", "http"),
        ("request.protocol", "HTTP/1.1"),
        ("source.address", "10.1.2.3:4567"),
        ("destination.address", "10.9.8.7:80"),
    ] {
        set_prop(&mut s, k, val(v));
    }
    let le = |n: i64| Prop::Value(n.to_le_bytes().to_vec());
    set_prop(&mut s, "request.time", le(1_700_000_000_123_456_789));
    set_prop(&mut s, "source.port", le(4567));
    set_prop(&mut s, "destination.port", le(80));
    s
}
