//! Action-set scenarios: a small language of action trees, its translation to a
//! plugin configuration, a reference model of what the filter must do with it,
//! and an explorer that runs model and filter in lockstep over every order of
//! proxy events and every choice of service replies.
use crate::dfs::Ch;
use crate::proto;
use crate::report::{Fail, Stats};
use crate::vm::{self, val, Obs, Vm};
use prost::Message;
use proxy_wasm::host::{self, Prop};
use serde_json::{json, Value};
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, BTreeSet};
use std::hash::{Hash, Hasher};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Pred {
    T,
    F,
    /// evaluates to an error
    Err,
    /// evaluates to something that is not a boolean
    NonBool,
    /// needs an attribute that exists only once the response started
    Late,
    /// the reply in scope has this code
    Code(u32),
    /// a stored value equals this
    Stored(&'static str, &'static str),
    ReqBody(&'static str, &'static str),
    RespBody(&'static str, &'static str),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Msg {
    Tag,
    /// carries the text of the reply in scope
    Echo,
    /// names a field that does not exist
    Err,
    Late,
    Stored(&'static str),
    Both(&'static str, &'static str),
    ReqBody(&'static str),
    RespBody(&'static str),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Data {
    /// the id of the action
    Id,
    Echo,
    ReqBody(&'static str),
    RespBody(&'static str),
    Err,
    Late,
    Stored(&'static str),
    /// two of them, one after the other
    Both(&'static str, &'static str),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Svc {
    Deny,
    Allow,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    Grpc {
        svc: Svc,
        guard: bool,
        msg: Msg,
        on_reply: Vec<Act>,
    },
    Deny {
        status: u32,
        body: Data,
    },
    Headers {
        resp: bool,
        val: Data,
        /// header name; x-<id> when none is given
        name: Option<&'static str>,
    },
    Store {
        path: &'static str,
        val: Data,
        export: bool,
    },
    Fail {
        terminal: bool,
    },
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Act {
    pub pred: Pred,
    pub seq: bool,
    pub op: Op,
}

impl Act {
    pub fn when(mut self, p: Pred) -> Act {
        self.pred = p;
        self
    }
    pub fn seq(mut self) -> Act {
        self.seq = true;
        self
    }
    pub fn msg(mut self, m: Msg) -> Act {
        if let Op::Grpc { msg, .. } = &mut self.op {
            *msg = m;
        }
        self
    }
    pub fn named(mut self, n: &'static str) -> Act {
        if let Op::Headers { name, .. } = &mut self.op {
            *name = Some(n);
        }
        self
    }
    pub fn export(mut self) -> Act {
        if let Op::Store { export, .. } = &mut self.op {
            *export = true;
        }
        self
    }
}

fn act(op: Op) -> Act {
    Act {
        pred: Pred::T,
        seq: false,
        op,
    }
}
pub fn call(svc: Svc, guard: bool, on_reply: Vec<Act>) -> Act {
    act(Op::Grpc {
        svc,
        guard,
        msg: Msg::Tag,
        on_reply,
    })
}
/// a guard whose service fails closed
pub fn guard(on_reply: Vec<Act>) -> Act {
    call(Svc::Deny, true, on_reply)
}
pub fn guard_open(on_reply: Vec<Act>) -> Act {
    call(Svc::Allow, true, on_reply)
}
pub fn bg(on_reply: Vec<Act>) -> Act {
    call(Svc::Deny, false, on_reply)
}
pub fn bg_open(on_reply: Vec<Act>) -> Act {
    call(Svc::Allow, false, on_reply)
}
pub fn deny(status: u32) -> Act {
    act(Op::Deny {
        status,
        body: Data::Id,
    })
}
pub fn hdr(resp: bool) -> Act {
    act(Op::Headers {
        resp,
        val: Data::Id,
        name: None,
    })
}
pub fn hdr_echo(resp: bool) -> Act {
    act(Op::Headers {
        resp,
        val: Data::Echo,
        name: None,
    })
}
pub fn hdr_err() -> Act {
    act(Op::Headers {
        resp: false,
        val: Data::Err,
        name: None,
    })
}
pub fn deny_with(status: u32, body: Data) -> Act {
    act(Op::Deny { status, body })
}
pub fn hdr_of(resp: bool, val: Data) -> Act {
    act(Op::Headers {
        resp,
        val,
        name: None,
    })
}
pub fn store(path: &'static str, val: Data) -> Act {
    act(Op::Store {
        path,
        val,
        export: false,
    })
}
pub fn fail(terminal: bool) -> Act {
    act(Op::Fail { terminal })
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Reply {
    Ok(u32),
    /// no bytes at all, which the filter takes for a missing message
    Empty,
    Status(u32),
    Garbage,
}

pub fn ok() -> Vec<Reply> {
    vec![Reply::Ok(1)]
}
pub fn ok_fail() -> Vec<Reply> {
    vec![Reply::Ok(1), Reply::Status(14)]
}

#[derive(Clone, Debug)]
pub struct Scenario {
    pub name: String,
    pub acts: Vec<Act>,
    pub replies: Vec<Reply>,
    pub ident: Option<&'static str>,
    pub tracing: bool,
    /// request body chunks (none: headers end the request); the last one ends it
    pub req_body: Vec<&'static str>,
    pub req_vals: Vec<(&'static str, &'static str)>,
    pub resp_body: Vec<&'static str>,
    pub resp_vals: Vec<(&'static str, &'static str)>,
    pub content_type: &'static str,
    /// dispatch attempts (counted from 1 in each run) the proxy refuses
    pub refuse: BTreeSet<u32>,
    /// also deliver replies for tokens that are unknown or already answered
    pub bogus: bool,
    /// also let the client go away at any time
    pub aborts: bool,
    /// responses that come without a body
    pub headers_only: bool,
    pub request_id: Option<&'static str>,
    /// what the client sends as trace context
    pub traceparent: Option<&'static str>,
    pub tracestate: Option<&'static str>,
    pub baggage: Option<&'static str>,
    /// the header as the client spells it, where `traceparent` is only what it means
    pub spelled: Option<&'static str>,
    /// the upstream's response has an identifier header of its own
    pub stale_ident: bool,
    /// level of span collection, when there is one
    pub level: Option<&'static str>,
    pub host: &'static str,
    /// what request.late says is never known
    pub never: bool,
    /// the trace export may fail in every way
    pub export_fails: bool,
    /// the proxy refuses to send it
    pub refuse_export: bool,
    /// tells configurations apart that are alike otherwise: other clusters, other
    /// timeouts, and (when odd) the service names swapped
    pub site: u32,
    /// goes into the replies of the services
    pub salt: &'static str,
    /// the aspects in which a divergence counts
    pub watch: u32,
    /// those in which it counts after an event that must not matter
    pub stray: u32,
}

pub const CALLS: u32 = 1;
pub const REPLIES: u32 = 2;
pub const PAUSE: u32 = 4;
pub const STUCK: u32 = 8;
pub const HEADERS: u32 = 16;
pub const PROPS: u32 = 32;
pub const METRICS: u32 = 64;
pub const EXPORT: u32 = 128;
pub const IDENT: u32 = 256;
/// effects after the request was answered
pub const AFTER: u32 = 512;
/// an action's call made twice
pub const ONCE: u32 = 1024;
/// the end of a response let through with calls outstanding
pub const HOLD: u32 = 2048;
pub const ALL: u32 = u32::MAX;

pub fn sc(name: impl Into<String>, acts: Vec<Act>) -> Scenario {
    Scenario {
        name: name.into(),
        acts,
        replies: ok(),
        ident: None,
        tracing: false,
        req_body: vec![],
        req_vals: vec![],
        resp_body: vec!["{}"],
        resp_vals: vec![],
        content_type: "application/json",
        refuse: BTreeSet::new(),
        bogus: false,
        aborts: false,
        headers_only: false,
        request_id: Some("rid-1"),
        traceparent: None,
        tracestate: None,
        baggage: None,
        spelled: None,
        stale_ident: false,
        level: Some("DEBUG"),
        host: "api.example.com",
        never: false,
        export_fails: false,
        refuse_export: false,
        site: 0,
        salt: "",
        watch: ALL,
        stray: 0,
    }
}

impl Scenario {
    pub fn replies(mut self, r: &[Reply]) -> Self {
        self.replies = r.to_vec();
        self
    }
    pub fn refuse(mut self, n: &[u32]) -> Self {
        self.refuse = n.iter().copied().collect();
        self
    }
    pub fn ident(mut self, h: &'static str) -> Self {
        self.ident = Some(h);
        self
    }
    pub fn never(mut self) -> Self {
        self.never = true;
        self
    }

    pub fn tracing(mut self) -> Self {
        self.ident = Some("x-ident");
        self.tracing = true;
        self
    }
    pub fn req(mut self, chunks: &[&'static str], vals: &[(&'static str, &'static str)]) -> Self {
        self.req_body = chunks.to_vec();
        self.req_vals = vals.to_vec();
        self
    }
    pub fn resp(mut self, chunks: &[&'static str], vals: &[(&'static str, &'static str)]) -> Self {
        self.resp_body = chunks.to_vec();
        self.resp_vals = vals.to_vec();
        self
    }
    pub fn sse(mut self) -> Self {
        self.content_type = "text/event-stream";
        self
    }
    pub fn bogus(mut self) -> Self {
        self.bogus = true;
        self
    }
    pub fn aborts(mut self) -> Self {
        self.aborts = true;
        self
    }
    pub fn headers_only(mut self) -> Self {
        self.headers_only = true;
        self
    }
    pub fn stray(mut self, w: u32) -> Self {
        self.stray = w;
        self
    }
    pub fn watch(mut self, w: u32) -> Self {
        self.watch = w;
        self
    }
    pub fn rid(mut self, r: &'static str) -> Self {
        self.request_id = Some(r);
        self
    }
    pub fn trace(mut self, parent: &'static str) -> Self {
        self.traceparent = Some(parent);
        self
    }
    pub fn baggage(mut self, b: &'static str) -> Self {
        self.baggage = Some(b);
        self
    }
    pub fn host(mut self, h: &'static str) -> Self {
        self.host = h;
        self
    }
    pub fn site(mut self, n: u32) -> Self {
        self.site = n;
        self
    }
    pub fn salt(mut self, s: &'static str) -> Self {
        self.salt = s;
        self
    }
    /// the client asked for its trace not to be recorded
    fn unsampled(&self) -> bool {
        self.traceparent.is_some_and(|t| t.ends_with("-00"))
    }
    /// spans of this request are collected
    pub fn records(&self) -> bool {
        self.tracing && !self.unsampled() && matches!(self.level, Some("DEBUG" | "INFO" | "TRACE"))
    }
    pub fn level(mut self, l: Option<&'static str>) -> Self {
        self.level = l;
        self
    }
    pub fn no_rid(mut self) -> Self {
        self.request_id = None;
        self
    }
}

// ---------------------------------------------------------------- configuration

fn data_cel(d: Data, id: &str) -> String {
    match d {
        Data::Id => format!("'{id}'"),
        Data::Echo => "v.text".into(),
        Data::ReqBody(p) => format!("requestBodyJSON('{p}')"),
        Data::RespBody(p) => format!("responseBodyJSON('{p}')"),
        Data::Err => "nosuch.thing".into(),
        Data::Late => "request.late".into(),
        Data::Stored(p) => p.into(),
        Data::Both(p, q) => format!("{p} + {q}"),
    }
}

fn pred_cel(p: Pred) -> String {
    match p {
        Pred::T => "true".into(),
        Pred::F => "request.method == 'NEVER'".into(),
        Pred::Err => "nosuch.thing == 'x'".into(),
        Pred::NonBool => "request.method".into(),
        Pred::Late => "request.late == 'yes'".into(),
        Pred::Code(n) => format!("v.code == {n}u"),
        Pred::Stored(k, v) => format!("{k} == '{v}'"),
        Pred::ReqBody(k, v) => format!("requestBodyJSON('{k}') == '{v}'"),
        Pred::RespBody(k, v) => format!("responseBodyJSON('{k}') == '{v}'"),
    }
}

fn act_json(a: &Act, id: &str, site: u32) -> Value {
    let mut o = json!({"predicate": pred_cel(a.pred), "terminal": false});
    if a.seq {
        o["execution"] = json!("sequential");
    }
    match &a.op {
        Op::Grpc {
            svc,
            guard,
            msg,
            on_reply,
        } => {
            o["type"] = json!("grpc");
            o["isGuard"] = json!(guard);
            o["var"] = json!("v");
            o["service"] = json!(match svc {
                Svc::Deny if site % 2 == 1 => "allow-svc",
                Svc::Allow if site % 2 == 1 => "deny-svc",
                Svc::Deny => "deny-svc",
                Svc::Allow => "allow-svc",
            });
            o["label"] = json!(format!("call {id}"));
            o["sources"] = json!([format!("src-{id}")]);
            o["messageBuilder"] = json!(match msg {
                Msg::Tag => format!("mc.Req {{ tag: '{id}' }}"),
                Msg::Echo => format!("mc.Req {{ tag: '{id}', data: v.text }}"),
                Msg::Err => format!("mc.Req {{ tag: '{id}', nofield: 1 }}"),
                Msg::Late => format!("mc.Req {{ tag: '{id}', data: request.late }}"),
                Msg::Stored(p) => format!("mc.Req {{ tag: '{id}', data: {p} }}"),
                Msg::Both(p, q) => format!("mc.Req {{ tag: '{id}', data: {p} + {q} }}"),
                Msg::ReqBody(p) => {
                    format!("mc.Req {{ tag: '{id}', data: requestBodyJSON('{p}') }}")
                }
                Msg::RespBody(p) => {
                    format!("mc.Req {{ tag: '{id}', data: responseBodyJSON('{p}') }}")
                }
            });
            o["onReply"] = on_reply
                .iter()
                .enumerate()
                .map(|(i, c)| act_json(c, &format!("{id}.{i}"), site))
                .collect();
        }
        Op::Deny { status, body } => {
            o["type"] = json!("deny");
            o["terminal"] = json!(true);
            o["denyWith"] = json!(format!(
                "DenyResponse {{ status: {status}u, headers: [['x-denied-by', '{id}']], body: {} }}",
                data_cel(*body, id)
            ));
        }
        Op::Headers { resp, val, name } => {
            o["type"] = json!("headers");
            o["target"] = json!(if *resp { "response" } else { "request" });
            let n = name.map_or_else(|| format!("x-{id}"), |n| n.to_string());
            o["headers"] = json!(format!("[['{n}', {}]]", data_cel(*val, id)));
        }
        Op::Store { path, val, export } => {
            o["type"] = json!("store");
            o["path"] = json!(path);
            o["value"] = json!(data_cel(*val, id));
            o["exportToHost"] = json!(export);
        }
        Op::Fail { terminal } => {
            o["type"] = json!("fail");
            o["terminal"] = json!(terminal);
            o["logMessage"] = json!(format!("fail {id}"));
        }
    }
    o
}

pub fn services_json() -> Value {
    services_at(0)
}

fn cluster(svc: Svc, site: u32) -> String {
    let c = match svc {
        Svc::Deny => "c-deny",
        Svc::Allow => "c-allow",
    };
    if site == 0 {
        c.into()
    } else {
        format!("{c}-{site}")
    }
}

fn services_at(site: u32) -> Value {
    let svc = |s: Svc, mode: &str| {
        json!({"type": "dynamic", "endpoint": cluster(s, site), "failureMode": mode, "timeout": format!("{}ms", 50 + site),
               "grpcService": "mc.Svc", "grpcMethod": "Call"})
    };
    let (mut deny, mut allow) = (svc(Svc::Deny, "deny"), svc(Svc::Allow, "allow"));
    if site % 2 == 1 {
        std::mem::swap(&mut deny, &mut allow);
    }
    json!({
        "deny-svc": deny,
        "allow-svc": allow,
        "trace-svc": {"type": "tracing", "endpoint": "c-trace", "failureMode": "allow", "timeout": "5s"},
    })
}

pub fn config(s: &Scenario) -> String {
    config_of(s, &[("*.example.com", s)])
}

/// Several action sets, told apart by host; the first scenario says how they
/// are observed.
pub fn config_many(list: &[&Scenario]) -> String {
    let mut sets: Vec<(&str, &Scenario)> = vec![];
    for s in list {
        if sets.iter().all(|(h, _)| *h != s.host) {
            sets.push((s.host, s));
        }
    }
    config_of(list[0], &sets)
}

/// host of an action set that does nothing
pub const FLUSH: &str = "flush.local";

/// Takes out the spans that earlier requests left behind, by way of a request
/// that records a span of its own; what it exports.
pub fn flush(vm: &mut Vm, id: u32) -> Result<Vec<Vec<u8>>, String> {
    vm.open(id, vm::base_stream(FLUSH, "/"));
    let a = vm.request_headers(id, true);
    let b = vm.response_headers(id, true);
    vm.forget(id);
    match a.panicked.or(b.panicked) {
        Some(p) => Err(format!("panic: {p}")),
        None => Ok(a.calls.into_iter().chain(b.calls).map(|c| c.message).collect()),
    }
}

fn config_of(s: &Scenario, sets: &[(&str, &Scenario)]) -> String {
    let mut obs = json!({});
    if let Some(h) = s.ident {
        obs["httpHeaderIdentifier"] = json!(h);
    }
    if s.tracing {
        if let Some(l) = s.level {
            obs["defaultLevel"] = json!(l);
        }
        obs["tracing"] = json!({"service": "trace-svc"});
    }
    let site = s.site;
    let set = |host: &str, acts: &[Act]| {
        json!({
            "name": format!("set {host}"),
            "routeRuleConditions": {"hostnames": [host]},
            "actions": acts.iter().enumerate().map(|(i, a)| act_json(a, &i.to_string(), site)).collect::<Vec<_>>(),
        })
    };
    let mut list: Vec<Value> = sets.iter().map(|(host, s)| set(host, &s.acts)).collect();
    if s.tracing {
        list.push(set(FLUSH, &[fail(false).when(Pred::F)]));
    }
    json!({
        "services": services_at(s.site),
        "descriptorService": "c-desc",
        "observability": obs,
        "actionSets": list,
    })
    .to_string()
}

/// Boots the filter on a configuration and answers its descriptor fetch.
pub fn boot(cfg: &str) -> Result<Vm, String> {
    boot_with(cfg, &proto::file_set())
}

pub fn boot_with(cfg: &str, files: &[u8]) -> Result<Vm, String> {
    host::reset();
    let mut vm = Vm::new();
    let (ok, o) = vm.configure(cfg);
    if let Some(p) = o.panicked {
        return Err(format!("panic while configuring: {p}"));
    }
    if !ok {
        return Err("a valid configuration was refused".into());
    }
    feed(&mut vm, &o, files)?;
    Ok(vm)
}

pub fn feed_descriptors(vm: &mut Vm, configured: &Obs) -> Result<(), String> {
    feed(vm, configured, &proto::file_set())
}

fn feed(vm: &mut Vm, configured: &Obs, files: &[u8]) -> Result<(), String> {
    if configured.ticks.last().copied().unwrap_or(0) == 0 && configured.calls.is_empty() {
        return Ok(());
    }
    // the fetch may go out right away or with the next tick
    let mut calls = configured.calls.clone();
    if calls.is_empty() {
        calls = vm.tick().calls;
    }
    for c in calls {
        let req = proto::DescriptorRequest::decode(c.message.as_slice())
            .map_err(|e| format!("undecodable descriptor request: {e}"))?;
        let resp = proto::DescriptorResponse {
            descriptors: req
                .services
                .iter()
                .map(|s| proto::ServiceDescriptor {
                    cluster_name: s.cluster_name.clone(),
                    service: s.service.clone(),
                    file_descriptor_set: files.to_vec(),
                })
                .collect(),
        };
        let o = vm.root_reply(c.token, 0, Some(&resp.encode_to_vec()));
        if let Some(p) = o.panicked {
            return Err(format!("panic on descriptor response: {p}"));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- reference model

#[derive(Clone, Debug)]
struct Node {
    id: String,
    act: Act,
    parent: Option<usize>,
    children: Vec<usize>,
    deps: Vec<usize>,
    kind: Kind,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Kind {
    Act,
    /// the request identifier header of `observability.httpHeaderIdentifier`
    Ident,
    /// extraction of response body values, ahead of the action that needs them
    Usage,
    /// reads a field of the request body (or of the response body, for a store)
    Field(bool, &'static str),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Live {
    Call(usize),
    /// the reply no longer matters: the request was answered already
    Ignored(bool),
    Export,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Phase {
    Start,
    Req,
    ReqBody,
    Resp,
    RespBody,
}

#[derive(Clone, Debug, PartialEq, Eq)]
struct State {
    queue: Vec<usize>,
    out: BTreeMap<u32, Live>,
    completed: BTreeSet<usize>,
    /// nodes that will never run again
    gone: BTreeSet<usize>,
    texts: BTreeMap<usize, (u32, String)>,
    stored: BTreeMap<&'static str, Option<String>>,
    req_vals: BTreeMap<&'static str, &'static str>,
    resp_vals: BTreeMap<&'static str, &'static str>,
    req_eos: bool,
    resp_eos: bool,
    /// the response came to its end, with or without a body
    resp_over: bool,
    /// bytes seen so far of the request and the response body
    received: [usize; 2],
    /// ... of which the proxy let go already
    released: [usize; 2],
    /// ... and which a store action read
    read: BTreeMap<(usize, bool), usize>,
    phase: Phase,
    terminated: bool,
    torn: bool,
    requeued: BTreeSet<usize>,
    hdrs: [BTreeMap<String, String>; 2],
    dispatched: u32,
    pipeline: bool,
}

impl Hash for State {
    /// tokens are told apart by what they stand for, not by their number
    fn hash<H: Hasher>(&self, h: &mut H) {
        let State {
            queue,
            out,
            completed,
            gone,
            texts,
            stored,
            req_vals,
            resp_vals,
            req_eos,
            resp_eos,
            resp_over,
            received,
            released,
            read,
            phase,
            terminated,
            torn,
            requeued,
            hdrs,
            dispatched,
            pipeline,
        } = self;
        out.len().hash(h);
        for l in out.values() {
            l.hash(h);
        }
        (queue, completed, gone, texts, stored, req_vals, resp_vals, req_eos, resp_eos, resp_over).hash(h);
        (received, released, read, phase, terminated, torn, requeued, hdrs, dispatched, pipeline).hash(h);
    }
}

/// What the model says one event must do.
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Exp {
    /// (node id, upstream, data carried)
    pub calls: Vec<(String, String, String)>,
    pub refused: Vec<(String, String, String)>,
    pub export: u32,
    pub replies: Vec<(u32, String, Option<String>)>,
    pub props: BTreeMap<String, String>,
    pub props_set: u32,
    pub metrics: BTreeMap<String, i64>,
}

impl Exp {
    fn metric(&mut self, n: &str) {
        *self.metrics.entry(format!("kuadrant.{n}")).or_default() += 1;
    }
}

#[derive(Clone, Debug, PartialEq)]
enum Ev3 {
    Val(String),
    Null,
    Pending,
    Err,
}

enum Out {
    Done,
    Deferred,
    Requeue,
    Failed,
    Terminate,
}

struct Model<'a> {
    sc: &'a Scenario,
    nodes: Vec<Node>,
    roots: Vec<usize>,
    s: State,
    exp: Exp,
    /// calls made in this event, in order, waiting for their token
    made: Vec<Live>,
}

/// the fields of a body that a store needs
fn store_fields(a: &Act, req: bool) -> Vec<&'static str> {
    let mut v = vec![];
    let Op::Store { val, .. } = a.op else { return v };
    match (req, a.pred) {
        (true, Pred::ReqBody(p, _)) | (false, Pred::RespBody(p, _)) => v.push(p),
        _ => {}
    }
    match (req, val) {
        (true, Data::ReqBody(p)) | (false, Data::RespBody(p)) => v.push(p),
        _ => {}
    }
    v.sort();
    v.dedup();
    v
}

/// the same of the stores within a reply
fn stored_deps(a: &Act) -> Vec<&'static str> {
    let mut v = store_fields(a, false);
    if let Op::Grpc { on_reply, .. } = &a.op {
        v.extend(on_reply.iter().flat_map(stored_deps));
    }
    v.sort();
    v.dedup();
    v
}

/// the fields of the request body that an action needs
fn req_deps(a: &Act) -> Vec<&'static str> {
    let mut v = vec![];
    if let Pred::ReqBody(p, _) = a.pred {
        v.push(p);
    }
    match &a.op {
        Op::Grpc { msg, on_reply, .. } => {
            if let Msg::ReqBody(p) = msg {
                v.push(p);
            }
            for c in on_reply {
                v.extend(req_deps(c));
            }
        }
        Op::Deny { body: d, .. } | Op::Headers { val: d, .. } | Op::Store { val: d, .. } => {
            if let Data::ReqBody(p) = d {
                v.push(p);
            }
        }
        Op::Fail { .. } => {}
    }
    v.sort();
    v.dedup();
    v
}

fn resp_deps(a: &Act) -> Vec<&'static str> {
    let mut v = vec![];
    if let Pred::RespBody(p, _) = a.pred {
        v.push(p);
    }
    match &a.op {
        Op::Grpc { msg, on_reply, .. } => {
            if let Msg::RespBody(p) = msg {
                v.push(p);
            }
            for c in on_reply {
                v.extend(resp_deps(c));
            }
        }
        Op::Deny { body: d, .. } | Op::Headers { val: d, .. } | Op::Store { val: d, .. } => {
            if let Data::RespBody(p) = d {
                v.push(p);
            }
        }
        Op::Fail { .. } => {}
    }
    v
}

impl<'a> Model<'a> {
    fn new(sc: &'a Scenario) -> Self {
        let mut nodes: Vec<Node> = vec![];
        fn add(nodes: &mut Vec<Node>, a: &Act, id: String, parent: Option<usize>) -> usize {
            let me = nodes.len();
            nodes.push(Node {
                id: id.clone(),
                act: a.clone(),
                parent,
                children: vec![],
                deps: vec![],
                kind: Kind::Act,
            });
            if let Op::Grpc { on_reply, .. } = &a.op {
                for (i, c) in on_reply.iter().enumerate() {
                    let k = add(nodes, c, format!("{id}.{i}"), Some(me));
                    nodes[me].children.push(k);
                }
            }
            me
        }
        let mut roots = vec![];
        let mut fence: Vec<usize> = vec![];
        let mut par: Vec<usize> = vec![];
        for (i, a) in sc.acts.iter().enumerate() {
            // what reads the bodies for an action; a store that waits for no
            // other action reads for itself
            let is_store = matches!(a.op, Op::Store { .. });
            let waits = !fence.is_empty() || a.seq && !par.is_empty();
            let mut readers = vec![];
            if !is_store && !resp_deps(a).is_empty() {
                readers.push(Kind::Usage);
            }
            if !is_store || waits {
                readers.extend(req_deps(a).into_iter().map(|f| Kind::Field(true, f)));
                readers.extend(stored_deps(a).into_iter().map(|f| Kind::Field(false, f)));
            }
            for kind in readers {
                nodes.push(Node {
                    id: format!("{kind:?}-{i}"),
                    act: a.clone(),
                    parent: None,
                    children: vec![],
                    deps: vec![],
                    kind,
                });
                roots.push(nodes.len() - 1);
            }
            let me = add(&mut nodes, a, i.to_string(), None);
            roots.push(me);
            // a sequential action waits for everything before it; everything
            // after a sequential action waits for it
            if a.seq {
                nodes[me].deps = fence.iter().chain(&par).copied().collect();
                fence = vec![me];
                par.clear();
            } else {
                nodes[me].deps = fence.clone();
                par.push(me);
            }
        }
        if sc.ident.is_some() {
            nodes.push(Node {
                id: "ident".into(),
                act: hdr(true),
                parent: None,
                children: vec![],
                deps: vec![],
                kind: Kind::Ident,
            });
            roots.push(nodes.len() - 1);
        }
        let queue = roots.clone();
        Model {
            sc,
            nodes,
            roots,
            s: State {
                queue,
                out: BTreeMap::new(),
                completed: BTreeSet::new(),
                gone: BTreeSet::new(),
                texts: BTreeMap::new(),
                stored: BTreeMap::new(),
                req_vals: BTreeMap::new(),
                resp_vals: BTreeMap::new(),
                req_eos: false,
                resp_eos: false,
                resp_over: false,
                received: [0, 0],
                released: [0, 0],
                read: BTreeMap::new(),
                phase: Phase::Start,
                terminated: false,
                torn: false,
                requeued: BTreeSet::new(),
                hdrs: [BTreeMap::new(), BTreeMap::new()],
                dispatched: 0,
                pipeline: true,
            },
            exp: Exp::default(),
            made: vec![],
        }
    }

    fn scope(&self, n: usize) -> Option<&(u32, String)> {
        let mut cur = self.nodes[n].parent;
        while let Some(p) = cur {
            if let Some(t) = self.s.texts.get(&p) {
                return Some(t);
            }
            cur = self.nodes[p].parent;
        }
        None
    }

    /// A path some action may still store is waited for. Another one is null
    /// when something else is stored below its root, and undefined otherwise.
    fn stored(&self, path: &str) -> Ev3 {
        if let Some(v) = self.s.stored.get(path) {
            return v.clone().map_or(Ev3::Null, Ev3::Val);
        }
        let to_come = |f: &dyn Fn(&str) -> bool| {
            self.nodes.iter().enumerate().any(|(i, n)| {
                matches!(n.act.op, Op::Store { path: p, .. } if f(p))
                    && n.kind == Kind::Act
                    && !self.s.gone.contains(&i)
            })
        };
        let root = path.split('.').next().unwrap_or(path);
        let below = |p: &str| p.split('.').next() == Some(root);
        if to_come(&|p| p == path) {
            Ev3::Pending
        } else if self.s.stored.keys().any(|k| below(k)) || to_come(&below) {
            Ev3::Null
        } else {
            Ev3::Err
        }
    }

    fn body(&self, req: bool, p: &str) -> Ev3 {
        let m = if req {
            &self.s.req_vals
        } else {
            &self.s.resp_vals
        };
        m.get(p)
            .map_or(Ev3::Pending, |v| Ev3::Val((*v).to_string()))
    }

    fn pred(&self, n: usize) -> Ev3 {
        let b = |x: bool| Ev3::Val(x.to_string());
        let eq = |e: Ev3, v: &str| match e {
            Ev3::Val(x) => b(x == v),
            Ev3::Null => b(false),
            o => o,
        };
        match self.nodes[n].act.pred {
            Pred::T => b(true),
            Pred::F => b(false),
            Pred::Err | Pred::NonBool => Ev3::Err,
            Pred::Late => {
                if self.late_known() {
                    b(true)
                } else {
                    Ev3::Pending
                }
            }
            Pred::Code(c) => self.scope(n).map_or(Ev3::Err, |t| b(t.0 == c)),
            Pred::Stored(k, v) => eq(self.stored(k), v),
            Pred::ReqBody(k, v) => eq(self.body(true, k), v),
            Pred::RespBody(k, v) => eq(self.body(false, k), v),
        }
    }

    fn data(&self, d: Data, n: usize) -> Ev3 {
        match d {
            Data::Id => Ev3::Val(self.nodes[n].id.clone()),
            Data::Echo => self.scope(n).map_or(Ev3::Err, |t| Ev3::Val(t.1.clone())),
            Data::ReqBody(p) => self.body(true, p),
            Data::RespBody(p) => self.body(false, p),
            Data::Err => Ev3::Err,
            Data::Late => {
                if self.late_known() {
                    Ev3::Val("yes".into())
                } else {
                    Ev3::Pending
                }
            }
            Data::Stored(p) => self.stored(p),
            Data::Both(p, q) => match (self.stored(p), self.stored(q)) {
                (Ev3::Val(a), Ev3::Val(b)) => Ev3::Val(a + &b),
                (Ev3::Pending, _) | (_, Ev3::Pending) => Ev3::Pending,
                _ => Ev3::Err,
            },
        }
    }

    fn reply(&mut self, status: u32, body: &str, by: Option<&str>) {
        self.exp.metric("denied");
        self.exp
            .replies
            .push((status, body.to_string(), by.map(|b| b.to_string())));
    }

    /// a call that did not succeed
    fn failed_call(&mut self, n: usize, before_dispatch: bool) -> Out {
        let Op::Grpc { svc, .. } = self.nodes[n].act.op else {
            return Out::Failed;
        };
        // once the response is on its way the request can no longer be refused
        if before_dispatch && self.s.requeued.contains(&n) && self.s.phase == Phase::RespBody {
            return Out::Failed;
        }
        self.exp.metric("errors");
        match svc {
            Svc::Deny => {
                self.reply(500, "Internal Server Error.\n", None);
                Out::Terminate
            }
            Svc::Allow => Out::Done,
        }
    }

    fn apply(&mut self, n: usize) -> Out {
        let node = self.nodes[n].clone();
        if node.kind == Kind::Usage {
            if self.s.phase < Phase::Resp || !self.s.resp_eos {
                return Out::Requeue;
            }
            for p in resp_deps(&node.act) {
                if let Some((k, v)) = self.sc.resp_vals.iter().find(|(k, _)| *k == p) {
                    self.s.resp_vals.insert(k, v);
                }
            }
            return Out::Done;
        }
        if let Kind::Field(req, field) = node.kind {
            if !req && self.s.phase < Phase::Resp {
                return Out::Requeue;
            }
            let (found, all) = self.found(req, &[field]);
            let eos = if req { self.s.req_eos } else { self.s.resp_eos };
            if !eos && !all {
                return Out::Requeue;
            }
            if req {
                self.s.req_vals.extend(found);
            } else {
                self.s.resp_vals.extend(found);
            }
            return Out::Done;
        }
        if node.kind == Kind::Ident {
            if self.s.phase < Phase::Resp {
                return Out::Requeue;
            }
            let rid = self.sc.request_id.unwrap_or("?").to_string();
            self.s.hdrs[1].insert(self.sc.ident.unwrap_or_default().to_ascii_lowercase(), rid);
            return Out::Done;
        }
        // a store feeds on the bodies before anything else
        let mut waiting = false;
        for req in [true, false] {
            let want = store_fields(&node.act, req);
            if want.is_empty() {
                continue;
            }
            let eos = if req { self.s.req_eos } else { self.s.resp_eos };
            if !eos && self.s.received[usize::from(!req)] == 0 || !req && self.s.phase < Phase::Resp {
                waiting = true;
            } else if !self.feed_store(n, req, &want) {
                return Out::Failed;
            }
        }
        if waiting {
            return Out::Requeue;
        }
        // a field its body ended without
        let lacks = |m: &Self, req: bool, p: &str| {
            (if req { m.s.req_eos } else { m.s.resp_eos }) && m.body(req, p) == Ev3::Pending
        };
        let pred_lacks = |m: &Self| match node.act.pred {
            Pred::ReqBody(p, _) => lacks(m, true, p),
            Pred::RespBody(p, _) => lacks(m, false, p),
            _ => false,
        };
        let data_lacks = |m: &Self, d: Data| match d {
            Data::ReqBody(p) => lacks(m, true, p),
            Data::RespBody(p) => lacks(m, false, p),
            _ => false,
        };
        let p = self.pred(n);
        match &node.act.op {
            Op::Grpc { svc, guard: _, msg, .. } => {
                match p {
                    Ev3::Pending if pred_lacks(self) => return self.failed_call(n, true),
                    Ev3::Pending => return Out::Requeue,
                    Ev3::Err => return self.failed_call(n, true),
                    Ev3::Val(v) if v != "true" => return Out::Done,
                    Ev3::Null | Ev3::Val(_) => {}
                }
                let data = match msg {
                    Msg::Tag => Ev3::Val(String::new()),
                    Msg::Echo => self.data(Data::Echo, n),
                    Msg::Err => Ev3::Err,
                    Msg::Late => {
                        if self.late_known() {
                            Ev3::Val("yes".into())
                        } else {
                            Ev3::Pending
                        }
                    }
                    Msg::Stored(p) => self.stored(p),
                    Msg::Both(p, q) => self.data(Data::Both(p, q), n),
                    Msg::ReqBody(p) => self.body(true, p),
                    Msg::RespBody(p) => self.body(false, p),
                };
                let data = match data {
                    Ev3::Pending => {
                        let gone = match msg {
                            Msg::ReqBody(p) => lacks(self, true, p),
                            Msg::RespBody(p) => lacks(self, false, p),
                            _ => false,
                        };
                        return if gone { self.failed_call(n, true) } else { Out::Requeue };
                    }
                    Ev3::Err | Ev3::Null => return self.failed_call(n, true),
                    Ev3::Val(d) => d,
                };
                self.s.dispatched += 1;
                let rec = (node.id.clone(), cluster(*svc, self.sc.site), data);
                if self.sc.refuse.contains(&self.s.dispatched) {
                    self.exp.refused.push(rec);
                    return self.failed_call(n, true);
                }
                self.exp.calls.push(rec);
                self.made.push(Live::Call(n));
                Out::Deferred
            }
            other => {
                match p {
                    Ev3::Pending => {
                        if pred_lacks(self) {
                            return Out::Failed;
                        }
                        return Out::Requeue;
                    }
                    Ev3::Err => return Out::Failed,
                    Ev3::Val(v) if v != "true" => return Out::Done,
                    Ev3::Null | Ev3::Val(_) => {}
                }
                match other {
                    Op::Deny { status, body } => match self.data(*body, n) {
                        Ev3::Val(b) => {
                            self.reply(*status, &b, Some(&node.id));
                            Out::Terminate
                        }
                        Ev3::Null => {
                            self.reply(*status, "", Some(&node.id));
                            Out::Terminate
                        }
                        Ev3::Pending if !data_lacks(self, *body) => Out::Requeue,
                        // refused all the same
                        Ev3::Err | Ev3::Pending => {
                            self.reply(500, "Internal Server Error.\n", None);
                            Out::Terminate
                        }
                    },
                    Op::Headers { resp, val, name } => match self.data(*val, n) {
                        Ev3::Pending if data_lacks(self, *val) => Out::Failed,
                        Ev3::Pending => Out::Requeue,
                        Ev3::Err => Out::Failed,
                        // not a header value
                        Ev3::Null => Out::Done,
                        Ev3::Val(v) => {
                            if *resp && self.s.phase < Phase::Resp {
                                return Out::Requeue;
                            }
                            let key = name.map_or_else(|| format!("x-{}", node.id), |s| s.into());
                            self.s.hdrs[usize::from(*resp)].insert(key.to_ascii_lowercase(), v);
                            Out::Done
                        }
                    },
                    Op::Store { path, val, export } => match self.data(*val, n) {
                        Ev3::Pending if data_lacks(self, *val) => Out::Failed,
                        Ev3::Pending => Out::Requeue,
                        Ev3::Err => Out::Failed,
                        v @ (Ev3::Val(_) | Ev3::Null) => {
                            let v = if let Ev3::Val(v) = v { Some(v) } else { None };
                            if *export {
                                self.exp.props_set += 1;
                                self.exp
                                    .props
                                    .insert((*path).to_string(), v.clone().unwrap_or_else(|| "null".into()));
                            }
                            self.s.stored.insert(path, v);
                            Out::Done
                        }
                    },
                    Op::Fail { terminal } => {
                        if *terminal {
                            self.exp.metric("errors");
                            self.reply(500, "Internal Server Error.\n", None);
                            Out::Terminate
                        } else {
                            Out::Done
                        }
                    }
                    Op::Grpc { .. } => unreachable!(),
                }
            }
        }
    }

    fn late_known(&self) -> bool {
        self.s.phase >= Phase::Resp && !self.sc.never
    }

    /// What a store does with the part of the body that is there: its fields
    /// become known once they are all complete. When it comes late it relies on
    /// what was read for it. `false`: it can't succeed.
    fn feed_store(&mut self, n: usize, req: bool, want: &[&'static str]) -> bool {
        const MISSED: usize = usize::MAX;
        let i = usize::from(!req);
        let eos = if req { self.s.req_eos } else { self.s.resp_eos };
        let received = self.s.received[i];
        let read = *self.s.read.get(&(n, req)).unwrap_or(&0);
        if received > read {
            let missed = read < self.s.released[i];
            self.s.read.insert((n, req), if missed { MISSED } else { received });
        }
        if self.s.read.get(&(n, req)) == Some(&MISSED) {
            return true;
        }
        let (found, all) = self.found(req, want);
        if all || eos {
            if req {
                self.s.req_vals.extend(found);
            } else {
                self.s.resp_vals.extend(found);
            }
        }
        all || !eos
    }

    /// Which of the fields are known by what came so far of a body, and
    /// whether these are all of them.
    #[allow(clippy::type_complexity)]
    fn found(&self, req: bool, want: &[&'static str]) -> (Vec<(&'static str, &'static str)>, bool) {
        let (eos, vals, chunks) = if req {
            (self.s.req_eos, &self.sc.req_vals, &self.sc.req_body)
        } else {
            (self.s.resp_eos, &self.sc.resp_vals, &self.sc.resp_body)
        };
        let whole = chunks.concat();
        let received = self.s.received[usize::from(!req)];
        let sse = !req && self.sc.content_type == "text/event-stream";
        let known = |p: &str| {
            vals.iter().find(|(k, v)| {
                let literal = format!("\"{}\":\"{v}\"", &k[1..]);
                *k == p && (eos || !sse && whole[..received].contains(&literal))
            })
        };
        let found: Vec<_> = want.iter().filter_map(|p| known(p)).copied().collect();
        let all = found.len() == want.len();
        (found, all)
    }

    fn drop_subtree(&mut self, n: usize) {
        self.s.gone.insert(n);
        for c in self.nodes[n].children.clone() {
            self.drop_subtree(c);
        }
    }

    fn teardown(&mut self) {
        if self.s.torn {
            return;
        }
        self.s.torn = true;
        if self.sc.records() {
            self.exp.export += 1;
            self.made.push(Live::Export);
        }
    }

    fn terminate(&mut self) {
        self.s.terminated = true;
        self.s.queue.clear();
        let guard_of = |m: &Self, l: Live| m.is_guard(l);
        let flags: Vec<(u32, bool)> = self
            .s
            .out
            .iter()
            .map(|(t, l)| (*t, guard_of(self, *l)))
            .collect();
        for (t, g) in flags {
            if self.s.out[&t] != Live::Export {
                self.s.out.insert(t, Live::Ignored(g));
            }
        }
        // calls made in this very event are in flight, too
        for i in 0..self.made.len() {
            let l = self.made[i];
            if l != Live::Export {
                self.made[i] = Live::Ignored(self.is_guard(l));
            }
        }
        self.teardown();
    }

    fn is_guard(&self, l: Live) -> bool {
        match l {
            Live::Call(n) => matches!(self.nodes[n].act.op, Op::Grpc { guard: true, .. }),
            Live::Ignored(g) => g,
            Live::Export => false,
        }
    }

    fn eval(&mut self) {
        if !self.s.pipeline {
            return;
        }
        // what one action stores another one may be waiting for
        loop {
            let mut progress = false;
            // what is read from the bodies comes before those waiting for it
            let nodes = &self.nodes;
            self.s.queue.sort_by_key(|n| !matches!(nodes[*n].kind, Kind::Field(..) | Kind::Usage));
            for n in std::mem::take(&mut self.s.queue) {
                if self.nodes[n]
                    .deps
                    .iter()
                    .any(|d| !self.s.completed.contains(d))
                {
                    self.s.queue.push(n);
                    continue;
                }
                match self.apply(n) {
                    Out::Done | Out::Failed => {
                        progress = true;
                        self.s.completed.insert(n);
                        self.drop_subtree(n);
                    }
                    Out::Deferred => {}
                    Out::Requeue => {
                        self.s.requeued.insert(n);
                        self.s.queue.push(n);
                    }
                    Out::Terminate => {
                        self.terminate();
                        return;
                    }
                }
            }
            if !progress || self.s.queue.is_empty() {
                break;
            }
        }
        if self.s.resp_over && self.s.out.is_empty() && self.made.is_empty() {
            // nothing these wait for can come any more
            self.s.queue.clear();
        }
        if self.s.queue.is_empty() && self.s.out.is_empty() && self.made.is_empty() {
            self.teardown();
        }
    }

    fn settle(&mut self) {
        if self.s.queue.is_empty() && self.s.out.is_empty() && self.made.is_empty() {
            self.s.pipeline = false;
        }
    }

    fn answered(&mut self, token: u32, r: Reply, text: &str) {
        let live = self.s.out.remove(&token);
        if let Some(Live::Call(n)) = live {
            let has_children = !self.nodes[n].children.is_empty();
            let good = match r {
                Reply::Ok(_) => true,
                Reply::Status(_) => false,
                // nothing reads the message when there is nothing to do with it
                Reply::Garbage | Reply::Empty => !has_children,
            };
            let outcome = if good { Out::Done } else { self.failed_call(n, false) };
            match outcome {
                Out::Terminate => {
                    self.terminate();
                    return;
                }
                _ => {
                    self.s.completed.insert(n);
                    self.s.gone.insert(n);
                    if good && has_children {
                        let (code, t) = match r {
                            Reply::Ok(c) => (c, text.to_string()),
                            _ => (0, String::new()),
                        };
                        self.s.texts.insert(n, (code, t));
                        let ch = self.nodes[n].children.clone();
                        self.s.queue.splice(0..0, ch);
                    } else {
                        self.drop_subtree(n);
                    }
                }
            }
        }
        self.eval();
    }

    fn guarded(&self) -> bool {
        self.s.out.values().any(|l| self.is_guard(*l))
    }
}

// ---------------------------------------------------------------- explorer

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Http {
    ReqHeaders,
    ReqBody(usize),
    RespHeaders,
    RespBody(usize),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Event {
    Http,
    Reply(u32, Reply),
    Unknown,
    Again(u32),
    Abort,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Paused {
    Req,
    ReqBody,
    Resp,
    RespBody,
}

fn reply_text(tag: &str, r: Reply, salt: &str) -> String {
    format!("re:{tag}:{r:?}{salt}")
}

fn encode(r: Reply, tag: &str, salt: &str) -> (u32, Option<Vec<u8>>) {
    match r {
        Reply::Ok(code) => (
            0,
            Some(
                proto::Resp {
                    code,
                    text: reply_text(tag, r, salt),
                    hdrs: vec![],
                }
                .encode_to_vec(),
            ),
        ),
        Reply::Empty => (0, Some(vec![])),
        Reply::Status(s) => (s, None),
        Reply::Garbage => (0, Some(vec![0xff, 0xff, 0xff])),
    }
}


/// One request going through the filter, in lockstep with the model.
pub struct Sim<'a> {
    s: &'a Scenario,
    pub id: u32,
    m: Model<'a>,
    script: Vec<Http>,
    pos: usize,
    paused: Option<Paused>,
    buffered: String,
    tags: BTreeMap<u32, String>,
    answered: Vec<u32>,
    bogus_left: bool,
    again_left: bool,
    /// a local reply was sent
    local: bool,
    local_status: u32,
    /// ... and is what the response callbacks see
    local_headers: bool,
    closed: bool,
    /// filter and model went separate ways in an aspect nobody watches
    lost: bool,
    dispatched: u32,
    exports: u32,
    count: BTreeMap<String, u32>,
    /// the request went on to the upstream
    pub let_through: bool,
    /// the request id and the trace every call carries
    pub rid: Option<String>,
    pub trace_id: Option<String>,
    /// (trace, span) the calls continue
    /// trace, span and action of each call
    pub parents: Vec<(String, String, String)>,
    /// trace exports, in the order they were sent
    pub exported: Vec<Vec<u8>>,
    pub seen_props: Vec<(String, String)>,
    base_hdrs: [Vec<(String, String)>; 2],
    pub log: Vec<String>,
    /// what the outside world has seen of this request, for order comparisons
    pub seen_calls: Vec<(String, String)>,
    pub seen_replies: Vec<u32>,
}

impl<'a> Sim<'a> {
    pub fn open(s: &'a Scenario, vm: &mut Vm, id: u32) -> Sim<'a> {
        let mut stream = vm::base_stream(s.host, "/toys");
        stream.req_headers.retain(|(k, _)| k != "x-request-id");
        if let Some(r) = s.request_id {
            stream.req_headers.push(("x-request-id".into(), r.into()));
        }
        for (k, v) in [("traceparent", s.spelled.or(s.traceparent)), ("tracestate", s.tracestate), ("baggage", s.baggage)] {
            // several lines of one header
            for v in v.iter().flat_map(|v| v.split('\n')) {
                stream.req_headers.push((k.into(), v.into()));
            }
        }
        for (k, v) in stream.resp_headers.iter_mut() {
            if k == "content-type" {
                *v = s.content_type.into();
            }
        }
        if let (true, Some(h)) = (s.stale_ident, s.ident) {
            stream.resp_headers.push((h.into(), "stale".into()));
        }
        vm::set_prop(&mut stream, "request.late", Prop::Unavailable);
        let base_hdrs = [stream.req_headers.clone(), stream.resp_headers.clone()];
        vm.open(id, stream);
        let m = Model::new(s);
        let mut script: Vec<Http> = vec![Http::ReqHeaders];
        script.extend((0..s.req_body.len()).map(Http::ReqBody));
        script.push(Http::RespHeaders);
        if !s.headers_only {
            script.extend((0..s.resp_body.len()).map(Http::RespBody));
        }
        Sim {
            s,
            id,
            m,
            script,
            pos: 0,
            paused: None,
            buffered: String::new(),
            tags: BTreeMap::new(),
            answered: vec![],
            bogus_left: s.bogus,
            again_left: s.bogus,
            local: false,
            local_status: 0,
            local_headers: false,
            closed: false,
            lost: false,
            dispatched: 0,
            exports: 0,
            count: BTreeMap::new(),
            let_through: false,
            rid: s.request_id.map(String::from),
            trace_id: s.traceparent.and_then(|t| t.split('-').nth(1)).map(String::from),
            parents: vec![],
            exported: vec![],
            seen_props: vec![],
            base_hdrs,
            log: vec![],
            seen_calls: vec![],
            seen_replies: vec![],
        }
    }

    pub fn closed(&self) -> bool {
        self.closed
    }

    pub fn scenario(&self) -> &'a Scenario {
        self.s
    }

    pub fn state(&self) -> u64 {
        let mut h = DefaultHasher::new();
        (
            &self.s.name,
            &self.m.s,
            self.pos,
            self.paused,
            self.local,
            self.lost,
            self.bogus_left,
            self.again_left,
        )
            .hash(&mut h);
        h.finish()
    }

    pub fn events(&self) -> Vec<Event> {
        let mut evs: Vec<Event> = vec![];
        if self.closed {
            return evs;
        }
        if self.pos < self.script.len() {
            let next = self.script[self.pos];
            let more_body = matches!(
                (self.paused, next),
                (Some(Paused::ReqBody), Http::ReqBody(_))
                    | (Some(Paused::RespBody), Http::RespBody(_))
            );
            if self.paused.is_none() || more_body {
                evs.push(Event::Http);
            }
        }
        for (t, l) in &self.m.s.out {
            match l {
                Live::Call(_) | Live::Ignored(_) => {
                    evs.extend(self.s.replies.iter().map(|r| Event::Reply(*t, *r)))
                }
                Live::Export => {
                    evs.push(Event::Reply(*t, Reply::Empty));
                    if self.s.export_fails {
                        evs.extend([Reply::Status(14), Reply::Garbage].map(|r| Event::Reply(*t, r)));
                    }
                }
            }
        }
        if evs.is_empty() {
            return evs;
        }
        if self.pos == 0 {
            return evs;
        }
        if self.bogus_left {
            evs.push(Event::Unknown);
        }
        if self.again_left {
            if let Some(t) = self.answered.last() {
                evs.push(Event::Again(*t));
            }
        }
        if self.s.aborts {
            evs.push(Event::Abort);
        }
        evs
    }

    /// nothing can happen any more
    pub fn finish(&self) -> Result<(), String> {
        if let (false, Some(p), true) = (self.closed, self.paused, self.s.watch & STUCK != 0) {
            return Err(format!(
                "no call is outstanding, yet the stream stays paused ({p:?})"
            ));
        }
        Ok(())
    }

    /// One event. `Err` is a divergence in one of the aspects the scenario watches.
    pub fn step(&mut self, ev: Event, vm: &mut Vm, ch: &mut Ch) -> Result<(), String> {
        let s = self.s;
        let id = self.id;
        host::with(|h| {
            h.dispatches = self.dispatched;
            h.fail_dispatch = s.refuse.iter().map(|n| n - 1).collect();
            h.fail_upstream.clear();
            if s.refuse_export {
                h.fail_upstream.insert("c-trace".into());
            }
        });
        let m = &mut self.m;
        m.exp = Exp::default();
        m.made.clear();
        let synced = !self.lost;
        let before_paused = self.paused;
        let stray = match ev {
            Event::Unknown | Event::Again(_) => true,
            Event::Reply(t, _) => matches!(m.s.out.get(&t), Some(Live::Ignored(_) | Live::Export)),
            _ => false,
        };
        let terminated_before = m.s.terminated;
        let mut http_now: Option<(Http, bool)> = None;
        let obs = match ev {
            Event::Http => {
                let x = self.script[self.pos];
                self.pos += 1;
                let eos = match x {
                    Http::ReqHeaders => s.req_body.is_empty(),
                    Http::ReqBody(i) => i + 1 == s.req_body.len(),
                    Http::RespHeaders => !matches!(self.script.get(self.pos), Some(Http::RespBody(_))),
                    Http::RespBody(_) => self.pos == self.script.len(),
                };
                http_now = Some((x, eos));
                self.log.push(format!("{x:?} end_of_stream={eos}"));
                match x {
                    Http::ReqHeaders => {
                        m.s.phase = Phase::Req;
                        m.s.req_eos = eos;
                        m.exp.metric("hits");
                        if synced {
                            m.eval();
                        }
                        vm.request_headers(id, eos)
                    }
                    Http::ReqBody(i) => {
                        m.s.phase = Phase::ReqBody;
                        m.s.req_eos = eos;
                        m.s.received[0] += s.req_body[i].len();
                        if synced {
                            m.eval();
                        }
                        if self.paused != Some(Paused::ReqBody) {
                            self.buffered.clear();
                        }
                        self.buffered.push_str(s.req_body[i]);
                        vm.request_body(id, self.buffered.as_bytes(), eos)
                    }
                    Http::RespHeaders => {
                        host::with(|h| {
                            if let Some(st) = h.streams.get_mut(&id) {
                                if !s.never {
                                    vm::set_prop(st, "request.late", val("yes"));
                                }
                                if self.local {
                                    self.local_headers = true;
                                    st.resp_headers = vec![(":status".into(), self.local_status.to_string())];
                                }
                            }
                        });
                        m.s.phase = Phase::Resp;
                        m.s.resp_over = eos;
                        m.exp.metric("allowed");
                        if synced {
                            m.eval();
                        }
                        vm.response_headers(id, eos)
                    }
                    Http::RespBody(i) => {
                        m.s.phase = Phase::RespBody;
                        m.s.resp_eos = eos;
                        m.s.resp_over = eos;
                        m.s.received[1] += s.resp_body.get(i).map_or(0, |c| c.len());
                        if synced {
                            m.eval();
                        }
                        if self.paused != Some(Paused::RespBody) {
                            self.buffered.clear();
                        }
                        self.buffered.push_str(s.resp_body.get(i).copied().unwrap_or(""));
                        vm.response_body(id, self.buffered.as_bytes(), eos)
                    }
                }
            }
            Event::Reply(t, r) => {
                let tag = self.tags.get(&t).cloned().unwrap_or_default();
                let (status, body) = encode(r, &tag, s.salt);
                self.log.push(format!("reply to call '{tag}' (token {t}): {r:?}"));
                if synced {
                    m.answered(t, r, &reply_text(&tag, r, s.salt));
                } else {
                    m.s.out.remove(&t);
                }
                self.answered.push(t);
                vm.reply(id, t, status, body.as_deref())
            }
            Event::Unknown => {
                self.bogus_left = false;
                self.log.push("reply for a token nobody asked for".into());
                if synced {
                    m.eval();
                }
                let (st, body) = encode(Reply::Ok(1), "none", "");
                vm.reply(id, u32::MAX, st, body.as_deref())
            }
            Event::Again(t) => {
                self.again_left = false;
                self.log.push(format!("second reply for token {t}"));
                if synced {
                    m.eval();
                }
                let (st, body) = encode(Reply::Ok(2), "dup", "");
                vm.reply(id, t, st, body.as_deref())
            }
            Event::Abort => {
                self.log.push("stream closed".into());
                let o = vm.close(id);
                if let Some(p) = o.panicked {
                    return Err(format!("panic on close: {p}"));
                }
                self.closed = true;
                if !o.calls.is_empty() || !o.replies.is_empty() || o.resume_req + o.resume_resp > 0 {
                    return Err(format!("closing the stream had effects: {:?}", o.order));
                }
                return Ok(());
            }
        };
        self.dispatched += obs.calls.iter().filter(|c| c.upstream != "c-trace").count() as u32;
        if let Some(p) = &obs.panicked {
            return Err(format!("panic: {p}"));
        }
        let mut found: Vec<(u32, String)> = vec![];
        // ---- calls
        let mut want: Vec<(String, String, String, bool)> = m
            .exp
            .calls
            .iter()
            .map(|c| (c.0.clone(), c.1.clone(), c.2.clone(), true))
            .chain(
                m.exp
                    .refused
                    .iter()
                    .map(|c| (c.0.clone(), c.1.clone(), c.2.clone(), false)),
            )
            .collect();
        let mut got = vec![];
        let mut exports = 0;
        for c in &obs.calls {
            if let Err(e) = check_metadata(s, c, &mut self.rid, &mut self.trace_id, &mut self.parents) {
                found.push((IDENT, e));
            }
            if c.upstream == "c-trace" {
                exports += 1;
                self.exported.push(c.message.clone());
                if c.service != "opentelemetry.proto.collector.trace.v1.TraceService"
                    || c.method != "Export"
                    || c.timeout_ms != 5000
                {
                    found.push((EXPORT, format!("export sent to {}/{} with timeout {} ms", c.service, c.method, c.timeout_ms)));
                }
                continue;
            }
            if c.service != "mc.Svc" || c.method != "Call" {
                found.push((CALLS, format!("call to {}/{} instead of mc.Svc/Call", c.service, c.method)));
            }
            if c.timeout_ms != 50 + s.site as u128 {
                found.push((CALLS, format!("call with timeout {} ms instead of {}", c.timeout_ms, 50 + s.site)));
            }
            match proto::Req::decode(c.message.as_slice()) {
                Ok(rq) => got.push((rq.tag, c.upstream.clone(), rq.data, c.ok)),
                Err(e) => return Err(format!("undecodable call message: {e}")),
            }
        }
        want.sort();
        let mut got_sorted = got.clone();
        got_sorted.sort();
        if synced && want != got_sorted {
            found.push((CALLS, format!("calls made: {got_sorted:?}; must be {want:?}")));
            self.lost = true;
        }
        for g in &got {
            if terminated_before || self.local {
                found.push((AFTER, format!("call {g:?} after the request was answered")));
            }
            let n = self.count.entry(g.0.clone()).or_default();
            *n += 1;
            if *n > 1 {
                found.push((ONCE, format!("the call of action {} is made {n} times", g.0)));
            }
        }
        // what a request does not record itself may still be there from others
        let may_export = u32::from(s.tracing && !s.records() && m.s.torn && self.exports == 0);
        if synced && !self.lost && exports != m.exp.export && exports > may_export {
            found.push((
                EXPORT,
                format!("{exports} trace export(s) dispatched; must be {}", m.exp.export),
            ));
        }
        self.exports += exports;
        self.seen_calls
            .extend(got.iter().map(|g| (g.0.clone(), g.2.clone())));
        self.seen_replies.extend(obs.replies.iter().map(|r| r.status));
        // bind tokens to the model's calls by the tag the message carries
        if self.lost && !obs.replies.is_empty() {
            m.s.terminated = true;
        }
        for c in obs.calls.iter().filter(|c| c.ok) {
            let live = if c.upstream == "c-trace" {
                Live::Export
            } else {
                let rq = proto::Req::decode(c.message.as_slice()).map_err(|e| e.to_string())?;
                self.tags.insert(c.token, rq.tag.clone());
                let n = m
                    .nodes
                    .iter()
                    .position(|n| n.kind == Kind::Act && n.id == rq.tag)
                    .ok_or("call of no action")?;
                let l = Live::Call(n);
                if m.s.terminated {
                    Live::Ignored(m.is_guard(l))
                } else {
                    l
                }
            };
            m.s.out.insert(c.token, live);
        }
        m.made.clear();
        // ---- local replies
        let got_replies: Vec<(u32, String, Option<String>)> = obs
            .replies
            .iter()
            .map(|r| {
                (
                    r.status,
                    r.body.clone(),
                    r.headers
                        .iter()
                        .find(|h| h.0 == "x-denied-by")
                        .map(|h| h.1.clone()),
                )
            })
            .collect();
        if synced && got_replies != m.exp.replies {
            found.push((
                REPLIES,
                format!("local replies {got_replies:?}; must be {:?}", m.exp.replies),
            ));
            self.lost = true;
        }
        for r in &obs.replies {
            let id_hdr: Vec<&String> = r
                .headers
                .iter()
                .filter(|h| s.ident.is_some_and(|i| i.eq_ignore_ascii_case(&h.0)))
                .map(|h| &h.1)
                .collect();
            if s.ident.is_some() {
                let one = id_hdr.len() == 1 && !id_hdr[0].is_empty();
                let rid = self.rid.get_or_insert_with(|| id_hdr.first().map(|v| v.to_string()).unwrap_or_default());
                if !one || id_hdr[0] != rid {
                    found.push((IDENT, format!("identifier header on the local reply: {id_hdr:?}; must be {rid:?}")));
                }
            }
        }
        // ---- metrics, properties
        let metrics: BTreeMap<String, i64> = obs
            .metrics
            .iter()
            .filter(|(k, _)| k.starts_with("kuadrant."))
            .map(|(k, v)| (k.clone(), *v))
            .collect();
        let in_step = synced && !self.lost;
        if in_step && metrics != m.exp.metrics {
            found.push((METRICS, format!("counters {metrics:?}; must be {:?}", m.exp.metrics)));
        }
        let props: BTreeMap<String, String> = obs
            .props
            .iter()
            .map(|(k, v)| {
                let v = match v.as_slice() {
                    // a google.protobuf.Value holding a string
                    [0x1a, n, rest @ ..] if rest.len() == usize::from(*n) => {
                        String::from_utf8_lossy(rest).into_owned()
                    }
                    [8, 0] => "null".into(),
                    other => format!("{other:?}"),
                };
                (k.join("|"), v)
            })
            .collect();
        let want_props: BTreeMap<String, String> = m
            .exp
            .props
            .iter()
            .map(|(k, v)| (format!("kuadrant.{k}"), v.clone()))
            .collect();
        if in_step && props != want_props {
            found.push((PROPS, format!("properties set {props:?}; must be {want_props:?}")));
        }
        if in_step && obs.props.len() != m.exp.props_set as usize {
            found.push((
                PROPS,
                format!("{} properties set; must be {}", obs.props.len(), m.exp.props_set),
            ));
        }
        self.seen_props.extend(props);
        if !obs.other.is_empty() {
            found.push((CALLS, format!("unexpected host calls {:?}", obs.other)));
        }
        // ---- headers
        let now = vm.headers(id);
        for (i, list) in [&now.0, &now.1].into_iter().enumerate() {
            if i == 1 && m.s.phase < Phase::Resp || !in_step {
                continue;
            }
            let mut base: BTreeMap<String, Vec<String>> = BTreeMap::new();
            let b = if i == 1 && self.local_headers {
                vec![(":status".to_string(), self.local_status.to_string())]
            } else {
                self.base_hdrs[i].clone()
            };
            for (k, v) in b {
                base.entry(k).or_default().push(v);
            }
            for (k, v) in &m.s.hdrs[i] {
                base.insert(k.clone(), vec![v.clone()]);
            }
            let mut real: BTreeMap<String, Vec<String>> = BTreeMap::new();
            for (k, v) in list {
                real.entry(k.to_ascii_lowercase()).or_default().push(v.clone());
            }
            if let Some(ident) = s.ident {
                let k = ident.to_ascii_lowercase();
                if i == 1 && real.get(&k) != base.get(&k) {
                    // a generated identifier may have any value, but only one
                    let got = real.get(&k).cloned().unwrap_or_default();
                    let good = base.contains_key(&k) && got.len() == 1 && !got[0].is_empty();
                    let rid = self.rid.get_or_insert_with(|| got.first().cloned().unwrap_or_default());
                    if !good || got[0] != *rid {
                        found.push((
                            IDENT,
                            format!("identifier header is {got:?}; must be {:?}", base.get(&k).map(|_| rid.clone())),
                        ));
                    }
                }
                real.remove(&k);
                base.remove(&k);
            }
            if real != base {
                found.push((
                    HEADERS,
                    format!(
                        "{} headers are {real:?}; must be {base:?}",
                        if i == 0 { "request" } else { "response" }
                    ),
                ));
            }
        }
        // ---- pausing and resuming
        if in_step {
            m.settle();
        }
        let guarded = m.guarded();
        let outstanding = !m.s.out.is_empty();
        if let Some((x, eos)) = http_now {
            let got = obs.pause.ok_or("no action returned")?;
            // what is returned next to a local reply does not matter to the proxy
            if obs.replies.is_empty() {
                if guarded && !got {
                    found.push((PAUSE, "Continue returned while a guard call is outstanding".into()));
                }
                if !guarded && got {
                    match x {
                        Http::RespBody(_) if eos && outstanding => {}
                        _ => found.push((PAUSE, "Pause returned though no guard call is outstanding".into())),
                    }
                }
                if !got && in_step && m.s.pipeline && eos && outstanding && matches!(x, Http::RespBody(_)) {
                    found.push((
                        HOLD,
                        "the end of the response is let through while a call is outstanding".into(),
                    ));
                }
            }
            if !got && obs.replies.is_empty() && matches!(x, Http::ReqHeaders | Http::ReqBody(_)) {
                self.let_through = true;
            }
            self.paused = if got {
                Some(match x {
                    Http::ReqHeaders => Paused::Req,
                    Http::ReqBody(_) => Paused::ReqBody,
                    Http::RespHeaders => Paused::Resp,
                    Http::RespBody(_) => Paused::RespBody,
                })
            } else {
                match x {
                    Http::ReqBody(_) => m.s.released[0] = m.s.received[0],
                    Http::RespBody(_) => m.s.released[1] = m.s.received[1],
                    _ => {}
                }
                None
            };
        }
        let released = match before_paused {
            Some(Paused::Req | Paused::ReqBody) => obs.resume_req > 0,
            Some(Paused::Resp | Paused::RespBody) => obs.resume_resp > 0,
            None => false,
        };
        if http_now.is_some() && obs.resume_req + obs.resume_resp > 0 {
            found.push((PAUSE, "a stream was resumed from within its own callback".into()));
        }
        if http_now.is_none() {
            let answered_now =
                !obs.replies.is_empty() || self.local || m.s.terminated && m.s.phase < Phase::Resp;
            let resp_side = matches!(before_paused, Some(Paused::Resp | Paused::RespBody));
            match before_paused {
                Some(_) if !resp_side && answered_now => {
                    if released && !obs.replies.is_empty() || released && self.local {
                        found.push((AFTER, "a request that was answered locally is resumed upstream".into()));
                    }
                }
                Some(p) => {
                    let dead = !obs.replies.is_empty();
                    let must = !guarded && (!outstanding || p != Paused::RespBody) && !dead;
                    let may = !guarded;
                    if released && !may {
                        found.push((PAUSE, "the stream is resumed while a guard call is outstanding".into()));
                    }
                    if !released && must {
                        found.push((PAUSE, "the stream stays paused though nothing holds it".into()));
                    }
                }
                None => {}
            }
            if released && matches!(before_paused, Some(Paused::Req | Paused::ReqBody)) {
                self.let_through = true;
            }
            if released {
                match self.paused {
                    Some(Paused::ReqBody) => m.s.released[0] = m.s.received[0],
                    Some(Paused::RespBody) => m.s.released[1] = m.s.received[1],
                    _ => {}
                }
                self.paused = None;
            }
        }
        if !obs.replies.is_empty() {
            let in_response = m.s.phase >= Phase::Resp;
            if self.local || obs.replies.len() > 1 {
                found.push((AFTER, "a second local reply".into()));
            }
            self.local = true;
            self.local_status = obs.replies[0].status;
            self.paused = None;
            if self.lost {
                let out: Vec<u32> = m.s.out.keys().copied().collect();
                for t in out {
                    let l = m.s.out[&t];
                    if l != Live::Export {
                        m.s.out.insert(t, Live::Ignored(m.is_guard(l)));
                    }
                }
            }
            if in_response {
                self.pos = self.script.len();
            } else {
                // the proxy runs its own reply through the response callbacks, or not
                self.script.truncate(self.pos);
                if ch.flip() {
                    self.script.push(Http::RespHeaders);
                    self.script.push(Http::RespBody(0));
                }
            }
        }
        let watch = if stray { s.watch | s.stray } else { s.watch };
        match found.into_iter().find(|(a, _)| a & watch != 0) {
            Some((_, e)) => Err(e),
            None => Ok(()),
        }
    }
}

/// One complete execution; `Err` carries what went wrong and the event log.
pub fn run(s: &Scenario, vm: &mut Vm, ctx_id: u32, ch: &mut Ch, st: &mut Stats) -> Result<(), Fail> {
    let mut sim = Sim::open(s, vm, ctx_id);
    let r = drive(&mut sim, vm, ch, st);
    vm.forget(ctx_id);
    r.map_err(|e| (e, std::mem::take(&mut sim.log)))
}

pub fn drive(sim: &mut Sim, vm: &mut Vm, ch: &mut Ch, st: &mut Stats) -> Result<(), String> {
    loop {
        st.state(sim.state());
        let evs = sim.events();
        if evs.is_empty() {
            return sim.finish();
        }
        let ev = evs[ch.pick(evs.len())];
        st.transition();
        sim.step(ev, vm, ch)?;
    }
}

/// Every call carries the request identifier and continues the client's trace.
fn check_metadata(
    s: &Scenario,
    c: &vm::Call,
    rid: &mut Option<String>,
    trace: &mut Option<String>,
    parents: &mut Vec<(String, String, String)>,
) -> Result<(), String> {
    let get = |name: &str| -> Vec<String> {
        c.metadata
            .iter()
            .filter(|(k, _)| k.eq_ignore_ascii_case(name))
            .map(|(_, v)| String::from_utf8_lossy(v).into_owned())
            .collect()
    };
    let ids = get("x-request-id");
    match rid {
        Some(r) if ids != vec![r.clone()] => {
            return Err(format!("call carries request ids {ids:?} instead of [{r:?}]"))
        }
        None if ids.len() != 1 || ids[0].is_empty() => {
            return Err(format!("call carries request ids {ids:?}"))
        }
        None => *rid = Some(ids[0].clone()),
        _ => {}
    }
    let export = c.upstream == "c-trace";
    let tp = get("traceparent");
    let unsampled = s.tracing && s.unsampled();
    if (s.records() || unsampled) && !(export && s.traceparent.is_none()) {
        let parts: Vec<&str> = tp.first().map(|t| t.split('-').collect()).unwrap_or_default();
        let good = tp.len() == 1 && parts.len() == 4 && parts[1].len() == 32 && parts[2].len() == 16;
        if !good {
            return Err("call carries no or several trace parents".into());
        }
        if unsampled && parts[3] != "00" {
            return Err("call asks for a trace to be recorded that the client said not to".into());
        }
        let want = trace.get_or_insert_with(|| parts[1].to_string());
        if *want != parts[1] {
            return Err("call continues another trace than the request's".into());
        }
        if !export {
            let tag = proto::Req::decode(c.message.as_slice()).map(|r| r.tag).unwrap_or_default();
            parents.push((parts[1].to_string(), parts[2].to_string(), tag));
        }
    } else if !export && tp != s.traceparent.iter().map(|t| t.to_string()).collect::<Vec<_>>() {
        return Err(format!("call carries trace parents {tp:?}; must be {:?}", s.traceparent));
    }
    // entries in any order, keys and values decoded
    let list = |v: &[String]| -> Vec<String> {
        let mut l: Vec<String> = v
            .iter()
            .flat_map(|x| x.split(',').map(|p| percent_decoded(p.trim())))
            .collect();
        l.sort();
        l
    };
    // a trace state means nothing without a trace
    let state = s.tracestate.filter(|_| s.traceparent.is_some());
    for (name, want) in [("baggage", s.baggage), ("tracestate", state)] {
        let got = get(name);
        let want: Vec<String> = want.iter().map(|w| w.replace('\n', ",")).collect();
        if got.len() != want.len() || list(&got) != list(&want) {
            return Err(format!("call carries {name} {got:?}; must be {want:?}"));
        }
    }
    Ok(())
}

fn percent_decoded(s: &str) -> String {
    let b = s.as_bytes();
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        let hex = s.get(i + 1..i + 3).and_then(|h| u8::from_str_radix(h, 16).ok());
        match hex {
            Some(x) if b[i] == b'%' => {
                out.push(x);
                i += 3;
            }
            _ => {
                out.push(b[i]);
                i += 1;
            }
        }
    }
    String::from_utf8_lossy(&out).into_owned()
}
