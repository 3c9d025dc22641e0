//! C24: nothing a client, an upstream or a service sends, and no host call
//! that fails, takes the filter down or leaves a request hanging.
use super::lab::{self, sane, Session};
use super::Prop;
use crate::dfs::Ch;
use crate::envoy::*;
use crate::proto;
use crate::report::{bad, hash_of, job, Fail, Job, Rec, Stats};
use crate::vm::{base_stream, set_prop, val, Call, Obs};
use prost::Message;
use proxy_wasm::host::{self, Prop as P, Stream};
use proxy_wasm::types::Status;
use serde_json::{json, Value};

// ---------------------------------------------------------------- configuration

const SETS: &[&str] = &["legacy", "typed", "routes", "usage", "body", "strings"];

fn host_name(set: usize) -> String {
    format!("{}.example.com", SETS[set])
}

fn store(path: &str, value: &str) -> Value {
    json!({"type": "store", "predicate": "true", "terminal": false, "exportToHost": true, "path": path, "value": value})
}

fn grpc(svc: &str, guard: bool, var: &str, data: &str, on_reply: Value) -> Value {
    json!({"type": "grpc", "predicate": "true", "terminal": false, "isGuard": guard, "service": svc, "var": var, "label": "l", "sources": [],
           "onReply": on_reply, "messageBuilder": format!("mc.Req {{ tag: '{var}', data: {data} }}")})
}

fn headers(target: &str, list: &str) -> Value {
    json!({"type": "headers", "predicate": "true", "terminal": false, "target": target, "headers": list})
}

/// Uses of everything a client decides on.
fn config() -> String {
    let mut services = crate::pipe::services_json();
    for (n, t) in [("auth", "auth"), ("limit", "ratelimit"), ("check", "ratelimit-check"), ("report", "ratelimit-report")] {
        services[n] = json!({"type": t, "endpoint": format!("c-{n}"), "failureMode": if n == "limit" { "allow" } else { "deny" }, "timeout": "30ms"});
    }
    let item = |k: &str, v: &str| json!({"expression": {"key": k, "value": v}});
    let data = json!([{"predicates": ["request.method == 'GET' || request.path.startsWith('/a')"],
                       "data": [item("path", "request.path"), item("x", "request.headers['x-a']"), item("ua", "request.useragent"),
                                item("sum", "string(source.port + 1)")]}]);
    let sets: Vec<Vec<Value>> = vec![
        vec![
            json!({"service": "auth", "scope": "s"}),
            json!({"service": "limit", "scope": "s", "conditionalData": data}),
            json!({"service": "report", "scope": "s", "conditionalData": data}),
        ],
        vec![
            store("a.b", "request.headers"),
            store("a.q", "request.query.split('&')"),
            grpc("deny-svc", true, "r", "request.url_path + request.query + request.host + request.headers['x-a']",
                 json!([{"type": "deny", "predicate": "r.code >= 400u", "terminal": true, "denyWith": "DenyResponse { status: r.code, body: r.text + request.path, headers: [['x-a', request.headers['x-a']]] }"},
                        {"type": "headers", "predicate": "true", "terminal": false, "target": "request", "headers": "[['x-new', request.headers['x-a']], ['x-path', request.path]]"},
                        {"type": "headers", "predicate": "size(r.hdrs) > 0", "terminal": false, "target": "response", "headers": "r.hdrs.map(h, [h.key, h.value])"}])),
            grpc("allow-svc", false, "s", "a.q[0] + source.address + string(request.time)", json!([])),
            json!({"type": "deny", "predicate": "int(request.headers['x-n']) > 5 || double(request.headers['x-n']) < 0.0", "terminal": true, "denyWith": "DenyResponse { status: 429u, body: request.headers['x-a'] }"}),
            headers("response", "[['x-out', request.path + request.headers['x-a']]]"),
        ],
        vec![headers("request", "[['x-routed', request.path]]"), json!({"service": "check", "scope": "s", "conditionalData": data})],
        vec![
            json!({"service": "check", "scope": "s", "conditionalData": data}),
            json!({"service": "report", "scope": "s", "conditionalData": [{"predicates": [], "data": [item("ratelimit.hits_addend", "responseBodyJSON('/usage/total_tokens')"), item("u", "responseBodyJSON('/user')")]}]}),
        ],
        vec![
            store("m", "requestBodyJSON('/model')"),
            store("n", "requestBodyJSON('/n')"),
            grpc("allow-svc", true, "b", "m + string(n)", json!([])),
            headers("response", "[['x-m', m]]"),
        ],
        vec![
            store("s.a", "request.headers['x-a'].split(',')"),
            store("s.b", "request.headers['x-a'].substring(1)"),
            store("s.c", "request.headers['x-a'].charAt(int(request.headers['x-n']))"),
            store("s.d", "request.path.replace('/', request.headers['x-a'], 3).lowerAscii()"),
            store("s.e", "request.headers['x-a'].lastIndexOf(request.query) + request.url_path.indexOf(request.headers['x-a'])"),
            store("s.f", "request.headers['x-a'].trim().upperAscii() + request.url_path.split('/').join(request.headers['x-a'])"),
            store("s.g", "request.headers['x-a'].matches(request.headers['x-n'])"),
            store("s.h", "[request.id, request.referer, request.protocol, string(request.size), source.address, connection.requested_server_name]"),
            json!({"type": "deny", "predicate": "size(s.a) > 3", "terminal": true, "denyWith": "DenyResponse { status: 403u, headers: [[s.b, s.d]] }"}),
            headers("response", "s.a.map(x, ['x-part', x])"),
        ],
    ];
    let sets: Vec<Value> = sets
        .into_iter()
        .enumerate()
        .map(|(i, actions)| {
            let predicates = if i == 2 {
                json!(["request.url_path.startsWith('/toys') && request.headers['x-a'].size() > 0", "queryMap(request.query, true)['k'] == 'v'", "!has(request.grpc) || request.grpc.service != 'x'"])
            } else {
                json!([])
            };
            json!({"name": format!("set-{i}"), "routeRuleConditions": {"hostnames": [host_name(i)], "predicates": predicates}, "actions": actions})
        })
        .collect();
    json!({
        "requestData": {"user": "request.headers['x-a']", "metrics.labels.path": "request.path", "n": "int(request.headers['x-n'])"},
        "services": services,
        "descriptorService": "c-desc",
        "observability": {"httpHeaderIdentifier": "x-request-id", "defaultLevel": "INFO", "tracing": {"service": "trace-svc"}},
        "actionSets": sets,
    })
    .to_string()
}

// ---------------------------------------------------------------- a request

#[derive(Clone)]
pub(super) struct Exchange {
    pub(super) stream: Stream,
    pub(super) req: Vec<Vec<u8>>,
    pub(super) resp: Vec<Vec<u8>>,
}

fn plain(set: usize) -> Exchange {
    let mut s = base_stream(&host_name(set), "/toys/1?k=v&l=w");
    for (k, v) in [("x-a", "abc"), ("x-n", "3"), ("user-agent", "curl"), ("content-type", "application/json"), ("traceparent", "00-0af7651916cd43dd8448eb211c80319c-b7ad6b7169203331-01"), ("baggage", "k=v")] {
        s.req_headers.push((k.into(), v.into()));
    }
    s.resp_headers.push(("x-up".into(), "stream".into()));
    set_prop(&mut s, "request.id", val("rid-1"));
    set_prop(&mut s, "request.useragent", val("curl"));
    set_prop(&mut s, "request.referer", val("http://r/"));
    set_prop(&mut s, "connection.requested_server_name", val("sni"));
    set_prop(&mut s, "request.size", P::Value(17i64.to_le_bytes().to_vec()));
    Exchange {
        stream: s,
        req: if set == 4 { vec![b"{\"model\": \"m\", \"n\": 4}".to_vec()] } else { vec![] },
        resp: vec![b"{\"usage\": {\"total_tokens\": 5}, \"user\": \"u\"}".to_vec()],
    }
}

/// A reply: status, message, and the size the proxy reports.
pub(super) type Answer = (u32, Option<Vec<u8>>, Option<usize>);

pub(super) fn good_answer(c: &Call) -> Answer {
    let bytes = match (c.service.as_str(), c.method.as_str()) {
        ("envoy.service.auth.v3.Authorization", _) => auth_reply(),
        ("mc.Svc", _) => dynamic_reply(),
        (s, _) if s.ends_with("RateLimitService") => limit_reply(),
        _ => vec![],
    };
    (0, Some(bytes), None)
}

fn auth_reply() -> Vec<u8> {
    let text = |s: &str| prost_types::Value { kind: Some(prost_types::value::Kind::StringValue(s.into())) };
    CheckResponse {
        ok_response: Some(Okay { headers: vec![HeaderValueOption { header: Some(HeaderValue { key: "x-auth".into(), value: "y".into() }), ..Default::default() }], ..Default::default() }),
        dynamic_metadata: Some(prost_types::Struct { fields: [("user".to_string(), text("u"))].into() }),
        ..Default::default()
    }
    .encode_to_vec()
}

pub(super) fn denied_reply() -> Vec<u8> {
    CheckResponse { denied_response: Some(Denied { status: Some(HttpStatus { code: 401 }), body: "no".into(), ..Default::default() }), ..Default::default() }.encode_to_vec()
}

fn limit_reply() -> Vec<u8> {
    RateLimitResponse { overall_code: 1, response_headers_to_add: vec![HeaderValue { key: "x-limit".into(), value: "9".into() }], ..Default::default() }.encode_to_vec()
}

fn dynamic_reply() -> Vec<u8> {
    proto::Resp { code: 200, text: "fine".into(), hdrs: vec![proto::Hdr { key: "x-h".into(), value: "v".into() }] }.encode_to_vec()
}

/// Maps in messages have no order.
fn unordered(b: &[u8]) -> u64 {
    let mut b = b.to_vec();
    b.sort();
    hash_of(&b)
}

struct Drive<'a> {
    sess: &'a mut Session,
    id: u32,
    pending: Vec<Call>,
    answered: bool,
    /// what the proxy saw, apart from tokens and identifiers of spans
    seen: Vec<String>,
    log: Vec<String>,
    answer: &'a mut dyn FnMut(&Call) -> Answer,
    st: &'a mut Stats,
}

impl Drive<'_> {
    fn take(&mut self, what: &str, o: Obs) -> Result<Obs, Fail> {
        self.st.transition();
        let calls: Vec<_> = o
            .calls
            .iter()
            .map(|c| (&c.upstream, &c.service, &c.method, if c.upstream == "c-trace" { 0 } else { unordered(&c.message) }, c.timeout_ms, c.ok))
            .collect();
        let line = format!("{what}: paused {:?}, calls {calls:?}, replies {:?}, headers {:?}, resumed {} {}, counted {:?}", o.pause, o.replies, o.set_maps, o.resume_req, o.resume_resp, o.metrics);
        self.log.push(line.chars().take(700).collect());
        self.seen.push(line);
        let o = sane(o)?;
        self.pending.extend(o.calls.iter().filter(|c| c.ok).cloned());
        if !o.replies.is_empty() {
            if self.answered || o.replies.len() > 1 {
                return bad("the request was answered twice");
            }
            self.answered = true;
        }
        Ok(o)
    }

    fn reply(&mut self) -> Result<Obs, Fail> {
        let c = self.pending.remove(0);
        let (status, body, size) = (self.answer)(&c);
        let o = match size {
            Some(n) => self.sess.vm.reply_sized(self.id, c.token, status, body.as_deref(), n),
            None => self.sess.vm.reply(self.id, c.token, status, body.as_deref()),
        };
        self.take(&format!("reply of {}", c.upstream), o)
    }

    /// Answers calls until the stream goes on.
    fn settle(&mut self, what: &str, o: Obs, resp: bool) -> Result<(), Fail> {
        let mut held = self.take(what, o)?.pause == Some(true);
        while held && !self.answered {
            if self.pending.is_empty() {
                return bad(format!("{what}: held up, with no call to wait for"));
            }
            let o = self.reply()?;
            held = if resp { o.resume_resp == 0 } else { o.resume_req == 0 };
        }
        Ok(())
    }

    fn body(&mut self, chunks: &[Vec<u8>], resp: bool) -> Result<(), Fail> {
        let mut kept: Vec<u8> = vec![];
        for (i, c) in chunks.iter().enumerate() {
            let last = i + 1 == chunks.len();
            kept.extend(c);
            let what = format!("{} body{}", if resp { "response" } else { "request" }, if last { ", the end" } else { "" });
            let o = if resp { self.sess.vm.response_body(self.id, &kept, last) } else { self.sess.vm.request_body(self.id, &kept, last) };
            if last {
                self.settle(&what, o, resp)?;
            } else if self.take(&what, o)?.pause != Some(true) {
                kept.clear();
            }
            if self.answered && !resp {
                return Ok(());
            }
        }
        Ok(())
    }

    fn run(&mut self, x: &Exchange) -> Result<(), Fail> {
        let o = self.sess.vm.request_headers(self.id, x.req.is_empty());
        self.settle("request headers", o, false)?;
        if !self.answered {
            self.body(&x.req, false)?;
        }
        let answered = self.answered;
        let o = self.sess.vm.response_headers(self.id, x.resp.is_empty());
        self.settle("response headers", o, true)?;
        if self.answered == answered {
            self.body(&x.resp, true)?;
        }
        while !self.pending.is_empty() {
            self.reply()?;
        }
        let o = self.sess.vm.close(self.id);
        self.take("close", o)?;
        Ok(())
    }
}

/// The outcome of an exchange, and what the proxy saw of it.
pub(super) fn drive(sess: &mut Session, x: &Exchange, answer: &mut dyn FnMut(&Call) -> Answer, st: &mut Stats) -> (Result<(), Fail>, Vec<String>) {
    let id = sess.open(x.stream.clone());
    host::with(|h| h.calls = 0);
    let mut d = Drive { sess, id, pending: vec![], answered: false, seen: vec![], log: vec![], answer, st };
    let r = d.run(x).map_err(|(w, l)| (w, if l.is_empty() { d.log.clone() } else { l }));
    let seen = std::mem::take(&mut d.seen);
    d.st.state(hash_of(&seen));
    sess.forget(id);
    (r, seen)
}

struct Lab {
    sess: Session,
    /// what an ordinary request of each set causes
    usual: Vec<Vec<String>>,
}

fn lab(rec: &mut Rec) -> Option<Lab> {
    let mut sess = match Session::with(&config(), &proto::file_set()) {
        Ok(s) => s,
        Err(e) => {
            rec.violation(e.chars().take(600).collect(), vec!["boot".into()], vec![]);
            return None;
        }
    };
    let mut usual = vec![];
    for set in 0..SETS.len() {
        let (r, seen) = drive(&mut sess, &plain(set), &mut good_answer, &mut rec.stats);
        if let Err((w, log)) = r {
            rec.violation(format!("an ordinary request, {}: {w}", SETS[set]), log, vec![]);
            return None;
        }
        usual.push(seen);
    }
    Some(Lab { sess, usual })
}

impl Lab {
    /// An exchange out of the ordinary, and an ordinary one after it.
    fn probe(&mut self, set: usize, x: &Exchange, answer: &mut dyn FnMut(&Call) -> Answer, faults: &[(u32, Status)], st: &mut Stats) -> Result<Vec<&'static str>, Fail> {
        host::with(|h| h.fail_calls = faults.iter().cloned().collect());
        let (r, _) = drive(&mut self.sess, x, answer, st);
        let failed = host::with(|h| {
            h.fail_calls.clear();
            std::mem::take(&mut h.failed_calls)
        });
        r.map_err(|(w, mut l)| {
            l.insert(0, format!("{}, failing host calls {failed:?}", SETS[set]));
            (w, l)
        })?;
        let (r, seen) = drive(&mut self.sess, &plain(set), &mut good_answer, st);
        r.map_err(|(w, l)| (format!("{}: the ordinary request afterwards: {w}", SETS[set]), l))?;
        if seen != self.usual[set] {
            let at = seen.iter().zip(&self.usual[set]).position(|(a, b)| a != b).unwrap_or(seen.len().min(self.usual[set].len()));
            return Err((
                format!("{}: an ordinary request is treated differently afterwards", SETS[set]),
                vec![format!("now: {:?}", seen.get(at)), format!("usually: {:?}", self.usual[set].get(at))],
            ));
        }
        Ok(failed)
    }
}

// ---------------------------------------------------------------- inputs

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Site {
    Req(&'static str),
    Resp(&'static str),
    Text(&'static str),
    Number(&'static str),
    ReqBody,
    RespBody,
    EventStream,
    FormBody,
}

const SITES: &[Site] = &[
    Site::Req("x-a"),
    Site::Req("x-n"),
    Site::Req("user-agent"),
    Site::Req("content-type"),
    Site::Req("x-request-id"),
    Site::Req("traceparent"),
    Site::Req("tracestate"),
    Site::Req("baggage"),
    Site::Req(":path"),
    Site::Req("x-other"),
    Site::Resp("x-up"),
    Site::Resp("content-type"),
    Site::Resp(":status"),
    Site::Resp("x-other"),
    Site::Text("request.path"),
    Site::Text("request.url_path"),
    Site::Text("request.query"),
    Site::Text("request.host"),
    Site::Text("request.method"),
    Site::Text("request.scheme"),
    Site::Text("request.protocol"),
    Site::Text("request.id"),
    Site::Text("request.useragent"),
    Site::Text("request.referer"),
    Site::Text("source.address"),
    Site::Text("destination.address"),
    Site::Text("connection.requested_server_name"),
    Site::Number("request.time"),
    Site::Number("request.size"),
    Site::Number("source.port"),
    Site::Number("destination.port"),
    Site::ReqBody,
    Site::RespBody,
    Site::EventStream,
    Site::FormBody,
];

fn texts() -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = [
        "", " ", "\0", "a\0b", "'", "\"", "\\", "%", "%z", "%zz", "%ff", "%00", "k=%", "%=%&&==&", "k=v&k=w", "&", "\r\n", "a\r\nx-b: c", "é", "e\u{301}", "😀", "a😀b", "\u{FFFD}", "\u{10FFFF}", "{", "[1", "null",
        "{\"a\": 1}", ",", ",,,", "a,b,,c,d,e", "-1", "3", "99", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "1e999", "NaN", "inf", "(", "(a+)+$", "a{999999999}", "[", "/", "//", "/a/b", "/a.B/c", "application/grpc",
        "text/event-stream", "application/json; charset=utf-8", "00-ffffffffffffffffffffffffffffffff-ffffffffffffffff-ff", "00-0", "00-é", "k=v,k", "k=%zz;p=é",
    ]
    .iter()
    .map(|s| s.as_bytes().to_vec())
    .collect();
    v.extend([vec![0xff], vec![0xc3], b"a\xffb\xfe".to_vec(), vec![0xed, 0xa0, 0x80], vec![0xf4, 0x90, 0x80, 0x80], vec![b'a'; 65536], vec![0xff; 4096], "é".repeat(20000).into_bytes(), format!("a{}", "é".repeat(3000)).into_bytes(), format!("ab{}", "😀".repeat(200)).into_bytes(), b"a,".repeat(5000), b"%41".repeat(5000)]);
    v
}

fn numbers() -> Vec<Vec<u8>> {
    let mut v = vec![vec![], vec![0], vec![0xff; 7], vec![0xff; 9], vec![0; 16], b"17".to_vec(), vec![0xff; 4]];
    v.extend([i64::MIN, i64::MAX, -1, 0, 1, i64::MAX - 1, 253_402_300_800_000_000, 8_210_298_412_800_000].map(|n| n.to_le_bytes().to_vec()));
    v
}

fn bodies() -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = [
        "", "{", "}", "[", "]", "\"", "{\"", "{\"model\"", "{\"model\":", "{\"model\": }", "{\"model\": \"\\ud800\"}", "{\"model\": \"\\u12\"}", "{\"model\": 1e999999}", "{\"model\": -}", "{\"n\": 99999999999999999999999999}",
        "{\"usage\": {\"total_tokens\": -1}}", "{\"usage\": {\"total_tokens\": 18446744073709551616}}", "{\"usage\": {\"total_tokens\": \"x\"}}", "{\"usage\": {\"total_tokens\": 1.5}}", "{\"usage\": []}", "{\"usage\": null}", "{\"model\": [}",
        "\0", "{\"model\"\0: 1}", "null", "1", "\"\\", "{\"model\": \"m\"} x", "{\"model\": \"m\",}", "\u{feff}{\"model\": \"m\"}", "{,}", "[,]", "{\"a\" 1}",
    ]
    .iter()
    .map(|s| s.as_bytes().to_vec())
    .collect();
    let deep = |open: &str, n: usize| open.repeat(n).into_bytes();
    v.extend([
        deep("[", 200),
        deep("[", 30000),
        deep("{\"a\":", 200),
        deep("{\"model\":", 30000),
        [deep("[", 127), deep("]", 127)].concat(),
        b"{\"model\": \"\xff\"}".to_vec(),
        b"{\"mod\xffel\": 1}".to_vec(),
        b"\xff\xfe".to_vec(),
        b"{\"model\": \"\xc3".to_vec(),
        format!("{{\"model\": \"{}\"}}", "é".repeat(30000)).into_bytes(),
        format!("{{\"{}\": 1}}", "k".repeat(65536)).into_bytes(),
        format!("{{\"n\": {}}}", "9".repeat(65536)).into_bytes(),
        deep(" ", 65536),
    ]);
    v
}

fn events() -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = [
        "", "\n", "\r", "\r\n", "\r\r", "data", "data:", "data: ", "data\n\n", "data:\n\n", "data: {\n\n", "data: {\"usage\": {\"total_tokens\": 5}}\n\n", "data: {\"usage\": {\"total_tokens\": 5}}", "data: [DONE]\n\n", ":\n\n", ": c", "event: x\n\n",
        "id: \0\n\n", "retry: x\n\n", "retry: 99999999999999999999\n\n", "data: {\"a\":\ndata: 1}\n\n", "data: null\n\n", "data: 1\n\n", "\u{feff}data: {}\n\n", "d", "x: y\n\ndata: {}\n\n", "data:{}\r\rdata:{}\r\n\r\n",
    ]
    .iter()
    .map(|s| s.as_bytes().to_vec())
    .collect();
    v.extend([
        b"data: \xff\n\n".to_vec(),
        b"\xff\n".to_vec(),
        b"data: {}\n\n\xc3".to_vec(),
        b"data: ".iter().copied().chain([b'['; 30000]).chain(*b"\n\n").collect(),
        b"data: {}\n".repeat(3000),
        vec![b'x'; 65536],
        b"\n".repeat(65536),
    ]);
    v
}

/// In whole, cut once, or in single bytes.
fn cut(b: &[u8], how: usize) -> Vec<Vec<u8>> {
    match how {
        0 => vec![b.to_vec()],
        1 => vec![b[..b.len() / 2].to_vec(), b[b.len() / 2..].to_vec()],
        2 => vec![b.to_vec(), vec![]],
        3 => vec![vec![], b.to_vec()],
        _ => b.chunks(1 + b.len() / 40).map(|c| c.to_vec()).collect(),
    }
}

fn set_header(list: &mut Vec<(String, String)>, name: &str, value: &[u8]) {
    list.retain(|(k, _)| k != name);
    list.push((name.into(), host::raw(value)));
}

/// Lets `site` have a value out of the ordinary.
fn deviate(x: &mut Exchange, site: Site, few: bool, ch: &mut Ch, log: &mut Vec<String>) {
    let mut pick = |all: Vec<Vec<u8>>, ch: &mut Ch| {
        let all: Vec<_> = if few { all.into_iter().step_by(5).collect() } else { all };
        let v = all[ch.pick(all.len())].clone();
        log.push(format!("{site:?}: {:?}{}", String::from_utf8_lossy(&v[..v.len().min(80)]), if v.len() > 80 { format!("... {} bytes", v.len()) } else { String::new() }));
        v
    };
    match site {
        Site::Req(n) => set_header(&mut x.stream.req_headers, n, &pick(texts(), ch)),
        Site::Resp(n) => set_header(&mut x.stream.resp_headers, n, &pick(texts(), ch)),
        Site::Text(n) | Site::Number(n) => {
            let all = if matches!(site, Site::Text(_)) { texts() } else { numbers() };
            let p = match ch.pick(4) {
                0 => P::Value(pick(all, ch)),
                1 => P::Absent,
                2 => P::Unavailable,
                _ => P::Fail,
            };
            set_prop(&mut x.stream, n, p);
        }
        Site::ReqBody => {
            let b = pick(bodies(), ch);
            x.req = cut(&b, ch.pick(if few { 2 } else { 5 }));
        }
        Site::RespBody => {
            let b = pick(bodies(), ch);
            x.resp = cut(&b, ch.pick(if few { 2 } else { 5 }));
        }
        Site::EventStream => {
            set_header(&mut x.stream.resp_headers, "content-type", b"text/event-stream");
            let b = pick(events(), ch);
            x.resp = cut(&b, ch.pick(if few { 2 } else { 5 }));
        }
        Site::FormBody => {
            set_header(&mut x.stream.req_headers, "content-type", b"application/x-www-form-urlencoded");
            let b = pick(bodies(), ch);
            x.req = cut(&b, ch.pick(2));
        }
    }
}

fn inputs(set: usize) -> Job {
    job(format!("inputs: {}", SETS[set]), move |rec: &mut Rec| {
        let Some(mut lab) = lab(rec) else { return };
        rec.sample(json!({"sites": SITES.len(), "values of each": texts().len(), "bodies": bodies().len() + events().len(), "an ordinary request": lab.usual[set]}));
        rec.explore(|ch, st| {
            let mut log = vec![];
            let mut x = plain(set);
            deviate(&mut x, SITES[ch.pick(SITES.len())], false, ch, &mut log);
            lab.probe(set, &x, &mut good_answer, &[], st).map(|_| ()).map_err(|(w, l)| (w, [log, l].concat()))
        });
    })
}

fn two_inputs(set: usize, part: usize) -> Job {
    job(format!("two inputs: {}, {part}", SETS[set]), move |rec: &mut Rec| {
        let Some(mut lab) = lab(rec) else { return };
        rec.sample(json!({"sites": SITES.len(), "values of each": texts().len() / 5}));
        rec.explore(|ch, st| {
            let mut log = vec![];
            let mut x = plain(set);
            let mine: Vec<usize> = (0..SITES.len()).filter(|i| i % 4 == part).collect();
            let a = mine[ch.pick(mine.len())];
            let b = ch.pick(a.max(1));
            if a == b {
                return Ok(());
            }
            deviate(&mut x, SITES[a], true, ch, &mut log);
            deviate(&mut x, SITES[b], true, ch, &mut log);
            lab.probe(set, &x, &mut good_answer, &[], st).map(|_| ()).map_err(|(w, l)| (w, [log, l].concat()))
        });
    })
}

// ---------------------------------------------------------------- host calls

const STATUSES: &[Status] = &[Status::InternalFailure, Status::BadArgument, Status::NotFound, Status::SerializationFailure, Status::ParseFailure, Status::Empty, Status::CasMismatch];

fn host_calls(set: usize, pairs: bool) -> Job {
    job(format!("{} failing: {}", if pairs { "two host calls" } else { "a host call" }, SETS[set]), move |rec: &mut Rec| {
        let Some(mut lab) = lab(rec) else { return };
        let mut total = 0;
        let _ = drive(&mut lab.sess, &plain(set), &mut good_answer, &mut rec.stats);
        host::with(|h| total = h.calls);
        rec.sample(json!({"host calls of an ordinary request": total, "statuses": STATUSES.len()}));
        if total == 0 {
            rec.violation("no host call was made".into(), vec![], vec![]);
        }
        rec.explore(|ch, st| {
            let n = total as usize + 4;
            let mut faults = vec![];
            // a failure may bring further calls about
            let a = ch.pick(n);
            faults.push((a as u32, STATUSES[ch.pick(STATUSES.len())]));
            if pairs {
                if a + 1 == n {
                    return Ok(());
                }
                let b = a + 1 + ch.pick(n - a - 1);
                faults.push((b as u32, STATUSES[ch.pick(2)]));
            }
            lab.probe(set, &plain(set), &mut good_answer, &faults, st).map(|_| ()).map_err(|(w, mut l)| {
                l.insert(0, format!("host calls {faults:?} fail"));
                (w, l)
            })
        });
    })
}

// ---------------------------------------------------------------- replies

const BYTES: &[u8] = &[0x00, 0x01, 0x08, 0x0a, 0x0b, 0x0c, 0x0d, 0x0f, 0x10, 0x12, 0x1a, 0x22, 0x2a, 0x7f, 0x80, 0xff];

/// Byte strings in place of the reply of one kind of call.
fn reply_bytes(name: &str, set: usize, upstream: &'static str, good: Vec<u8>, len: usize) -> Job {
    job(format!("replies: {name}"), move |rec: &mut Rec| {
        let Some(mut lab) = lab(rec) else { return };
        rec.sample(json!({"call": upstream, "byte strings up to": len, "over": BYTES, "mutations of": format!("{good:02x?}")}));
        let mut asked = false;
        rec.explore(|ch, st| {
            let status = [0, 0, 0, 0, 0, 2, 14, 99, u32::MAX];
            let (what, answer): (String, Answer) = match ch.pick(6) {
                0 => {
                    let n = ch.pick(len + 1);
                    let b: Vec<u8> = (0..n).map(|_| BYTES[ch.pick(BYTES.len())]).collect();
                    (format!("{b:02x?}"), (0, Some(b), None))
                }
                1 => {
                    let b = good[..ch.pick(good.len())].to_vec();
                    (format!("cut short {b:02x?}"), (0, Some(b), None))
                }
                2 => {
                    let mut b = good.clone();
                    let i = ch.pick(b.len());
                    b[i] = if len > 2 { ch.pick(256) as u8 } else { BYTES[ch.pick(BYTES.len())] };
                    (format!("changed at {i}: {b:02x?}"), (0, Some(b), None))
                }
                3 => {
                    let n = [0, 1, good.len() - 1, good.len() + 1, 1 << 20, usize::MAX][ch.pick(6)];
                    (format!("said to have {n} bytes"), (0, Some(good.clone()), Some(n)))
                }
                4 => {
                    let s = status[ch.pick(status.len())];
                    let b = ch.flip().then(|| good.clone());
                    (format!("status {s}, {b:02x?}"), (s, b, None))
                }
                _ => {
                    let mut b = good.clone();
                    let i = ch.pick(b.len() + 1);
                    b.insert(i, BYTES[ch.pick(BYTES.len())]);
                    (format!("inserted at {i}: {b:02x?}"), (0, Some(b), None))
                }
            };
            let mut answering = |c: &Call| {
                if c.upstream == upstream {
                    asked = true;
                    answer.clone()
                } else {
                    good_answer(c)
                }
            };
            lab.probe(set, &plain(set), &mut answering, &[], st).map(|_| ()).map_err(|(w, mut l)| {
                l.insert(0, format!("{upstream} replies: {what}"));
                (w, l)
            })
        });
        if !asked && rec.replay.is_none() {
            rec.violation(format!("{upstream} was not called"), vec![], vec![]);
        }
    })
}

/// Metadata nested up to and beyond what the libraries allow.
fn nested() -> Job {
    job("replies: nested metadata", |rec: &mut Rec| {
        let Some(mut lab) = lab(rec) else { return };
        rec.sample(json!({"levels": "1..120"}));
        rec.explore(|ch, st| {
            let levels = 1 + ch.pick(120);
            let list = ch.flip();
            let deny = ch.flip();
            use prost_types::value::Kind;
            let mut v = prost_types::Value { kind: Some(Kind::NumberValue(f64::NAN)) };
            for _ in 0..levels {
                v = prost_types::Value {
                    kind: Some(if list {
                        Kind::ListValue(prost_types::ListValue { values: vec![v] })
                    } else {
                        Kind::StructValue(prost_types::Struct { fields: [("a".to_string(), v)].into() })
                    }),
                };
            }
            let mut m = CheckResponse::decode((if deny { denied_reply() } else { auth_reply() }).as_slice()).map_err(|e| (e.to_string(), vec![]))?;
            m.dynamic_metadata = Some(prost_types::Struct { fields: [("x".to_string(), v)].into() });
            let bytes = m.encode_to_vec();
            let mut answering = |c: &Call| if c.upstream == "c-auth" { (0, Some(bytes.clone()), None) } else { good_answer(c) };
            lab.probe(0, &plain(0), &mut answering, &[], st).map(|_| ()).map_err(|(w, mut l)| {
                l.insert(0, format!("metadata {levels} levels deep, lists {list}, denied {deny}"));
                (w, l)
            })
        });
    })
}

/// Descriptors that are anything.
fn descriptors(len: usize, part: usize) -> Job {
    job(format!("replies: descriptors {part}"), move |rec: &mut Rec| {
        let cfg = config();
        let files = proto::file_set();
        rec.sample(json!({"byte strings up to": len, "over": BYTES, "mutations of": files.len()}));
        rec.explore(|ch, st| {
            host::reset();
            let mut vm = crate::vm::Vm::new();
            let (ok, mut o) = vm.configure(&cfg);
            if !ok {
                return bad("a valid configuration was refused");
            }
            if o.calls.is_empty() {
                o = sane(vm.tick())?;
            }
            let Some(c) = o.calls.first() else { return bad("descriptors were not asked for") };
            let wrap = |b: Vec<u8>| {
                let req = proto::DescriptorRequest::decode(c.message.as_slice()).unwrap_or_default();
                proto::DescriptorResponse {
                    descriptors: req.services.iter().map(|s| proto::ServiceDescriptor { cluster_name: s.cluster_name.clone(), service: s.service.clone(), file_descriptor_set: b.clone() }).collect(),
                }
                .encode_to_vec()
            };
            let bytes = match part.min(3) {
                0 => (0..ch.pick(len + 1)).map(|_| BYTES[ch.pick(BYTES.len())]).collect(),
                1 => wrap((0..ch.pick(len + 1)).map(|_| BYTES[ch.pick(BYTES.len())]).collect()),
                2 => wrap(files[..ch.pick(files.len())].to_vec()),
                _ => {
                    let mut b = files.clone();
                    let mine: Vec<usize> = (0..b.len()).filter(|i| i % 4 == part - 3).collect();
                    let i = mine[ch.pick(mine.len())];
                    b[i] = [b[i] ^ 1, b[i] ^ 0x80, 0, 1, b[i].wrapping_add(1), 0xff][ch.pick(if len > 2 { 6 } else { 2 })];
                    wrap(b)
                }
            };
            let log = vec![format!("descriptors {:02x?}", &bytes[..bytes.len().min(200)])];
            let with = |(w, l): Fail| (w, [log.clone(), l].concat());
            let token = c.token;
            sane(vm.root_reply(token, 0, Some(&bytes))).map_err(with)?;
            st.state(hash_of(&bytes));
            // with whatever there is now, requests are processed or refused
            let mut sess = Session::of(vm);
            for set in [1, 4] {
                drive(&mut sess, &plain(set), &mut good_answer, st).0.map_err(with)?;
            }
            // and the descriptors can still come
            let mut o = sane(sess.vm.tick()).map_err(with)?;
            for _ in 0..4 {
                let Some(c) = o.calls.first() else { break };
                let token = c.token;
                let req = proto::DescriptorRequest::decode(c.message.as_slice()).unwrap_or_default();
                let m = proto::DescriptorResponse {
                    descriptors: req.services.iter().map(|s| proto::ServiceDescriptor { cluster_name: s.cluster_name.clone(), service: s.service.clone(), file_descriptor_set: files.clone() }).collect(),
                };
                sane(sess.vm.root_reply(token, 0, Some(&m.encode_to_vec()))).map_err(with)?;
                o = sane(sess.vm.tick()).map_err(with)?;
            }
            if !o.calls.is_empty() {
                return Err(with(("descriptors are asked for, again and again".into(), vec![])));
            }
            Ok(())
        });
    })
}

// ---------------------------------------------------------------- expressions

const ARGS: &[&str] = &[
    "", "0", "1", "-1", "2", "64", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "1.5", "-0.0", "1e308", "1e309", "-1e309", "NaN", "inf", "-inf", "1e19",
    "abc", "é", "😀é", "a,b", "true", "null", "0x10", " 1", "+1", "1h", "-1h", "1h1m1s1ms1us1ns", "99999999999h", "9223372036854775807ns", "106751991167300d", "1.5h", "h", "-", "1", "P1D", "2024-01-01T00:00:00Z",
    "0000-01-01T00:00:00Z", "9999-12-31T23:59:59.999999999Z", "10000-01-01T00:00:00Z", "-262143-01-01T00:00:00Z", "+262142-12-31T23:59:59Z", "2024-02-30T00:00:00Z", "2024-01-01T00:00:60Z", "2024-01-01T00:00:00+23:59", "2024-01-01T00:00:00+99:99", "(", "[a", "a{2", "(a*)*b",
    "a{1000}{1000}{1000}", "\\", "\\p{", "(?i)é", "k=v", "%",
];

const TEMPLATES: &[&str] = &[
    "int(X)", "uint(X)", "double(X)", "string(X)", "bytes(X)", "timestamp(X)", "duration(X)", "size(X)", "int(X) + int(Y)", "int(X) - int(Y)", "int(X) * int(Y)", "int(X) / int(Y)", "int(X) % int(Y)", "-int(X)", "uint(X) + uint(Y)", "uint(X) - uint(Y)",
    "uint(X) * uint(Y)", "uint(X) / uint(Y)", "uint(X) % uint(Y)", "double(X) + double(Y)", "double(X) / double(Y)", "double(X) * double(Y)", "-double(X)", "double(X) < double(Y)", "int(double(X))", "uint(double(X))", "int(uint(X))", "uint(int(X))",
    "string(int(X))", "string(uint(X))", "string(double(X))", "string(timestamp(X))", "string(duration(X))", "X.matches(Y)", "X < Y", "X + Y", "X in [Y]", "X in {Y: 1}", "[1, 2, 3][int(X)]", "[1, 2, 3][uint(X)]", "[1, 2, 3][double(X)]", "{'a': 1}[X]",
    "{1: 1}[int(X)]", "X.startsWith(Y)", "X.endsWith(Y)", "X.contains(Y)", "X.charAt(int(Y))", "X.substring(int(Y))", "X.substring(0, int(Y))", "X.substring(int(Y), int(Y))", "X.split(Y)", "X.split(',', int(Y))", "X.replace(Y, 'z')", "X.replace('a', Y, int(Y))",
    "X.indexOf(Y)", "X.indexOf('a', int(Y))", "X.lastIndexOf(Y)", "X.lastIndexOf('a', int(Y))", "[X, Y].join(X)", "X.trim().lowerAscii().upperAscii()", "timestamp(X) + duration(Y)", "timestamp(X) - duration(Y)", "timestamp(X) - timestamp(Y)",
    "timestamp(X) < timestamp(Y)", "duration(X) + duration(Y)", "duration(X) - duration(Y)", "duration(X) < duration(Y)", "-duration(X)", "int(timestamp(X))", "int(duration(X))", "timestamp(X).getFullYear()", "timestamp(X).getMonth()", "timestamp(X).getDate()",
    "timestamp(X).getDayOfMonth()", "timestamp(X).getDayOfWeek()", "timestamp(X).getDayOfYear()", "timestamp(X).getHours()", "timestamp(X).getMinutes()", "timestamp(X).getSeconds()", "timestamp(X).getMilliseconds()", "timestamp(X).getHours(Y)", "timestamp(int(X))",
    "duration(X).getHours()", "duration(X).getMinutes()", "duration(X).getSeconds()", "duration(X).getMilliseconds()", "queryMap(X)", "queryMap(X, true)", "queryMap(X)[Y]", "request.headers[X]", "request.headers.map(h, h + X)", "has(request.headers.x) ? int(X) : 1",
    "[X, Y].exists(v, int(v) > 1)", "[X, Y].map(v, int(v))", "[int(X), uint(Y), double(X)]", "[X].all(v, v == Y)", "int(X) == uint(Y)", "int(X) < double(Y)", "uint(X) < int(Y)", "max(int(X), int(Y))", "min(double(X), double(Y))", "request.time + duration(X)",
    "request.time - timestamp(X)", "X == Y ? timestamp(X) : duration(Y)", "{X: Y}[Y]", "{X: 1, Y: 2}.size()", "dyn(X) + 1", "bytes(X) + bytes(Y)", "string(bytes(X))", "size(bytes(X)) / size(Y)", "requestBodyJSON(X)", "responseBodyJSON(X)",
];

fn expressions(part: usize) -> Job {
    job(format!("expressions: {part}"), move |rec: &mut Rec| {
        let mine: Vec<&str> = TEMPLATES.iter().enumerate().filter(|(i, _)| i % 4 == part).map(|t| *t.1).collect();
        rec.sample(json!({"expressions": mine.len(), "values": ARGS.len(), "such as": mine[0]}));
        // an expression with a syntax this build refuses is not part of the configuration
        let action = |i: usize, t: &str| {
            json!({"type": "store", "predicate": "true", "terminal": false, "exportToHost": false, "path": format!("o{i}"),
                   "value": t.replace('X', "request.headers['x-x']").replace('Y', "request.headers['x-y']")})
        };
        let whole = |acts: Vec<Value>| lab::config_with(json!(acts));
        let mut sets = vec![];
        for t in &mine {
            match Session::new(&whole(vec![action(0, t)])) {
                Ok(_) => sets.push(*t),
                Err(e) if e.contains("panic") => rec.violation(format!("{t}: {e}").chars().take(300).collect(), vec![], vec![]),
                Err(_) => {}
            }
        }
        let all = whole(sets.iter().enumerate().map(|(i, t)| action(i, t)).collect());
        let mut sess = match Session::new(&all) {
            Ok(s) => s,
            Err(e) => return rec.violation(e, vec![], vec![]),
        };
        rec.explore(|ch, st| {
            let x = ARGS[ch.pick(ARGS.len())];
            let y = ARGS[ch.pick(ARGS.len())];
            let mut s = base_stream("a.b", "/toys");
            s.req_headers.push(("x-x".into(), x.into()));
            s.req_headers.push(("x-y".into(), y.into()));
            st.transition();
            let id = sess.open(s);
            let o = sess.vm.request_headers(id, true);
            let log = vec![format!("x {x:?}, y {y:?}")];
            let r = sane(o).map_err(|(w, _)| (w, log.clone())).and_then(|o| {
                st.state(hash_of(&format!("{:?}", o.evs)));
                if o.pause == Some(true) || !o.calls.is_empty() {
                    return Err(("held up by an expression".to_string(), log));
                }
                Ok(())
            });
            sess.forget(id);
            r
        });
    })
}

fn c24(thorough: bool) -> Vec<Job> {
    let mut v: Vec<Job> = (0..SETS.len()).map(inputs).collect();
    for set in 0..SETS.len() {
        v.push(host_calls(set, false));
        if thorough {
            v.push(host_calls(set, true));
            for part in 0..4 {
                v.push(two_inputs(set, part));
            }
        }
    }
    let len = if thorough { 3 } else { 2 };
    v.push(reply_bytes("auth", 0, "c-auth", auth_reply(), len));
    v.push(reply_bytes("auth, denied", 0, "c-auth", denied_reply(), len));
    v.push(reply_bytes("ratelimit", 0, "c-limit", limit_reply(), len));
    v.push(reply_bytes("ratelimit check", 2, "c-check", limit_reply(), len));
    v.push(reply_bytes("report", 3, "c-report", limit_reply(), len));
    v.push(reply_bytes("guard", 1, "c-deny", dynamic_reply(), len));
    v.push(reply_bytes("other call", 1, "c-allow", dynamic_reply(), len));
    v.push(reply_bytes("traces", 1, "c-trace", vec![0x0a, 0x02, 0x08, 0x01], len));
    v.push(nested());
    v.extend((0..7).map(|part| descriptors(if thorough { 3 } else { 2 }, part)));
    v.extend((0..4).map(expressions));
    v
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C24",
        level: "model_checking",
        rule: "one execution = a request with one or two inputs out of the ordinary, one or two failing host calls, or one odd reply, driven to its end through the real filter, followed by an ordinary request whose every effect must be as before; no callback panics, no stream is held up with nothing to wait for, none is answered twice",
        assumptions: &[
            "sending a local reply does not fail; resuming a stream does not fail",
            "a proxy that reads headers finds some: an empty header map does not occur",
            "the CEL library's arithmetic wraps as in a release build",
        ],
        jobs: c24,
    }]
}
