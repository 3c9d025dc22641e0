//! C22, C23: legacy actions against what the rate limit and authorization
//! protocols prescribe.
use super::lab::{sane, Session};
use super::Prop;
use crate::dfs::Ch;
use crate::envoy::*;
use crate::report::{bad, hash_of, job, Fail, Job, Rec, Stats};
use crate::vm::{base_stream, set_prop, val, Call, Obs};
use prost::Message;
use proxy_wasm::host::{Prop as P, Stream};
use serde_json::{json, Value};
use std::collections::BTreeMap;

// ---------------------------------------------------------------- services

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Kind {
    Limit,
    Check,
    Report,
    Auth,
}
use Kind::*;

impl Kind {
    fn kind(self) -> &'static str {
        match self {
            Limit => "ratelimit",
            Check => "ratelimit-check",
            Report => "ratelimit-report",
            Auth => "auth",
        }
    }
    fn method(self) -> (&'static str, &'static str) {
        match self {
            Limit => ("envoy.service.ratelimit.v3.RateLimitService", "ShouldRateLimit"),
            Check => ("kuadrant.service.ratelimit.v1.RateLimitService", "CheckRateLimit"),
            Report => ("kuadrant.service.ratelimit.v1.RateLimitService", "Report"),
            Auth => ("envoy.service.auth.v3.Authorization", "Check"),
        }
    }
    fn guards(self) -> bool {
        self != Report
    }
    fn service(self, allow: bool) -> String {
        format!("{}-{}", self.kind(), if allow { "allow" } else { "deny" })
    }
}

fn services() -> Value {
    let mut m = serde_json::Map::new();
    for (i, k) in [Limit, Check, Report, Auth].into_iter().enumerate() {
        for allow in [false, true] {
            m.insert(
                k.service(allow),
                json!({"type": k.kind(), "endpoint": format!("c-{}", k.service(allow)), "failureMode": if allow { "allow" } else { "deny" },
                       "timeout": format!("{}ms", timeout(k, allow)), }),
            );
            let _ = i;
        }
    }
    m.insert("desc-svc".into(), json!({"type": "dynamic", "endpoint": "c-desc", "grpcService": "d.D", "grpcMethod": "M"}));
    Value::Object(m)
}

fn timeout(k: Kind, allow: bool) -> u128 {
    10 + 7 * k as u128 + u128::from(allow)
}

fn host_of(i: usize) -> String {
    format!("h{i}.example.com")
}

/// One action set per list of actions, for a host of its own.
fn config(request_data: &Value, sets: &[Vec<Value>]) -> String {
    json!({
        "services": services(),
        "descriptorService": "c-desc",
        "requestData": request_data,
        "actionSets": sets.iter().enumerate().map(|(i, a)| json!({
            "name": format!("s{i}"), "routeRuleConditions": {"hostnames": [host_of(i)]}, "actions": a,
        })).collect::<Vec<_>>(),
    })
    .to_string()
}

fn session(rec: &mut Rec, cfg: &str) -> Option<Session> {
    match Session::with(cfg, &file_set()) {
        Ok(s) => Some(s),
        Err(e) => {
            rec.violation(e.chars().take(600).collect(), vec!["boot".into()], vec![]);
            None
        }
    }
}

fn the_call(c: &Call, k: Kind, allow: bool) -> Result<(), Fail> {
    let want = (format!("c-{}", k.service(allow)), k.method().0, k.method().1, timeout(k, allow));
    let is = (c.upstream.clone(), c.service.as_str(), c.method.as_str(), c.timeout_ms);
    if is == want {
        Ok(())
    } else {
        bad(format!("called {is:?}, must be {want:?}"))
    }
}

fn quiet(o: &Obs) -> Result<(), Fail> {
    if !o.calls.is_empty() || !o.replies.is_empty() || !o.set_maps.is_empty() || !o.props.is_empty() || o.pause == Some(true) {
        return bad(format!("calls {:?}, replies {:?}, headers {:?}, properties {:?}, paused {:?} where nothing is to happen", o.calls, o.replies, o.set_maps, o.props, o.pause));
    }
    Ok(())
}

// ---------------------------------------------------------------- C22: what is sent

#[derive(Clone, Debug, PartialEq)]
enum Out {
    Is(String),
    Fails,
}
use Out::*;

#[derive(Clone, Debug)]
struct Item {
    key: String,
    value: String,
    expr: bool,
    out: Out,
}

fn stat(k: &str, v: &str) -> Item {
    Item { key: k.into(), value: v.into(), expr: false, out: Is(v.into()) }
}
fn expr(k: &str, v: &str, out: &str) -> Item {
    Item { key: k.into(), value: v.into(), expr: true, out: Is(out.into()) }
}
fn fails(mut i: Item) -> Item {
    i.out = Fails;
    i
}
const HITS: &str = "ratelimit.hits_addend";
const DOMAIN: &str = "ratelimit.domain";

fn items() -> Vec<Item> {
    vec![
        stat("k", "v"),
        stat("k", ""),
        stat("a.b", "request.method"),
        stat("q\"uo'te", "back\\slash \"quoted\" 'single'"),
        stat("tab\tnew\nline", "cr\r\n\\n {}{0} ü € 😀"),
        stat("domain", "not the domain"),
        stat("ratelimit.Domain", "x"),
        stat("limit.x__1", "1"),
        expr("m", "request.method", "GET"),
        expr("m", "'a' + 'b'", "ab"),
        expr("k", "request.headers['x-user']", "alice \"a\" \\ü"),
        expr("n", "3", "3"),
        expr("n", "-3", "-3"),
        expr("n", "4u", "4"),
        expr("n", "2.5", "2.5"),
        expr("n", "9223372036854775807", "9223372036854775807"),
        expr("n", "source.port", "4567"),
        expr("c", "request.method == 'POST' ? 'p' : 'g'", "g"),
        expr("c", "request.host.endsWith('.com') && true ? 'p' : 'g'", "p"),
        fails(expr("x", "request.headers['none']", "")),
        fails(expr("x", "nothing.here", "")),
        fails(expr("x", "[1]", "")),
        fails(expr("x", "1 / 0", "")),
        stat(HITS, "0"),
        stat(HITS, "5"),
        stat(HITS, "4294967295"),
        fails(stat(HITS, "4294967296")),
        fails(stat(HITS, "-1")),
        fails(stat(HITS, "many")),
        expr(HITS, "7", "7"),
        expr(HITS, "7u + 1u", "8"),
        expr(HITS, "request.method == 'GET' ? 2 : 3", "2"),
        expr(HITS, "source.port", "4567"),
        expr(HITS, "'12'", "12"),
        fails(expr(HITS, "0 - 1", "")),
        fails(expr(HITS, "4294967296", "")),
        fails(expr(HITS, "request.method", "")),
        stat(DOMAIN, "d \"o\" \\ 'm'"),
        expr(DOMAIN, "request.host + '/x'", "HOST/x"),
        fails(expr(DOMAIN, "3", "")),
        fails(expr(DOMAIN, "request.headers['none'].x", "")),
    ]
}

#[derive(Clone, Debug)]
struct Cond {
    text: Vec<String>,
    holds: bool,
}

const T: &str = "request.method == 'GET'";
const F: &str = "request.method == 'POST'";

fn conds() -> Vec<Cond> {
    let c = |l: &[&str], holds| Cond { text: l.iter().map(|s| s.replace('T', T).replace('F', F)).collect(), holds };
    vec![
        c(&[], true),
        c(&["T"], true),
        c(&["F"], false),
        c(&["F || T"], true),
        c(&["T", "F"], false),
        c(&["F || T", "F"], false),
        c(&["F", "F || T"], false),
        c(&["T || F", "T"], true),
        c(&["T ? F : T"], false),
        c(&["F ? F : T"], true),
        c(&["F ? F : T", "F"], false),
        c(&["T", "T ? F : T", "T"], false),
        c(&["T ? T : F", "F ? F : T"], true),
        c(&["!(F)", "T && T"], true),
    ]
}

#[derive(Clone, Debug)]
struct Block {
    cond: Cond,
    items: Vec<Item>,
}

#[derive(Clone, Debug)]
struct Ask {
    kind: Kind,
    allow: bool,
    scope: &'static str,
    cond: Cond,
    blocks: Vec<Block>,
}

impl Ask {
    fn json(&self) -> Value {
        let mut a = json!({"service": self.kind.service(self.allow), "scope": self.scope});
        if !self.cond.text.is_empty() {
            a["predicates"] = json!(self.cond.text);
        }
        if !self.blocks.is_empty() {
            a["conditionalData"] = self
                .blocks
                .iter()
                .map(|b| {
                    let data: Vec<Value> = b
                        .items
                        .iter()
                        .map(|i| {
                            let kind = if i.expr { "expression" } else { "static" };
                            json!({kind: {"key": i.key, "value": i.value}})
                        })
                        .collect();
                    if b.cond.text.is_empty() {
                        json!({"data": data})
                    } else {
                        json!({"predicates": b.cond.text, "data": data})
                    }
                })
                .collect();
        }
        a
    }

    /// None: no call. Some(None): a failed call.
    fn expected(&self, host: &str, extra: &[(String, Out)]) -> Option<Option<RateLimitRequest>> {
        if !self.cond.holds || !self.blocks.is_empty() && self.blocks.iter().all(|b| !b.cond.holds) {
            return None;
        }
        let mut r = RateLimitRequest { domain: self.scope.into(), descriptors: vec![], hits_addend: 1 };
        let mut entries = vec![];
        for i in self.blocks.iter().filter(|b| b.cond.holds).flat_map(|b| &b.items) {
            let Is(v) = &i.out else { return Some(None) };
            let v = v.replace("HOST", host);
            match i.key.as_str() {
                HITS => r.hits_addend = v.parse().unwrap_or(u32::MAX),
                DOMAIN => r.domain = v,
                k => entries.push(Entry { key: k.into(), value: v }),
            }
        }
        if !entries.is_empty() {
            r.descriptors.push(Descriptor { entries });
        }
        if !extra.is_empty() {
            let mut entries = vec![];
            for (k, v) in extra {
                let Is(v) = v else { return Some(None) };
                entries.push(Entry { key: k.clone(), value: v.clone() });
            }
            entries.sort_by(|a, b| a.key.cmp(&b.key));
            r.descriptors.push(Descriptor { entries });
        }
        Some(Some(r))
    }
}

fn canonical(mut r: RateLimitRequest, extra: bool) -> RateLimitRequest {
    r.descriptors.retain(|d| !d.entries.is_empty());
    if extra {
        if let Some(d) = r.descriptors.last_mut() {
            d.entries.sort_by(|a, b| a.key.cmp(&b.key));
        }
    }
    r
}

fn one_ask(sess: &mut Session, host: &str, a: &Ask, extra: &[(String, Out)], st: &mut Stats) -> Result<(), Fail> {
    let mut s = base_stream(host, "/toys?x=1");
    s.req_headers.push(("x-user".into(), "alice \"a\" \\ü".into()));
    let id = sess.open(s);
    let r = (|| {
        let o = sane(sess.vm.request_headers(id, true))?;
        st.transition();
        match a.expected(host, extra) {
            None => quiet(&o)?,
            Some(None) => failed(&o, a.allow)?,
            Some(Some(want)) => {
                let [c] = o.calls.as_slice() else { return bad(format!("{} calls, {want:?} is to be asked", o.calls.len())) };
                the_call(c, a.kind, a.allow)?;
                let Some(is) = exactly::<RateLimitRequest>(&c.message) else { return bad(format!("what is sent is no rate limit request: {:?}", c.message)) };
                let is = canonical(is, !extra.is_empty());
                st.state(hash_of(&format!("{is:?}")));
                if is != want {
                    return bad(format!("sent {is:?}, must be {want:?}"));
                }
                if o.pause != Some(a.kind.guards()) || !o.replies.is_empty() {
                    return bad(format!("paused: {:?}, answered {:?} while the call is under way", o.pause, o.replies));
                }
                let ok = RateLimitResponse { overall_code: 1, ..Default::default() }.encode_to_vec();
                let o = sane(sess.vm.reply(id, c.token, 0, Some(&ok)))?;
                quiet(&o)?;
                if a.kind.guards() && o.resume_req != 1 {
                    return bad("not let through by an OK");
                }
            }
        }
        Ok(())
    })();
    sess.forget(id);
    r.map_err(|(e, l)| (format!("{}: {e}", a.json()), l))
}

fn failed(o: &Obs, allow: bool) -> Result<(), Fail> {
    if !o.calls.is_empty() {
        return bad(format!("a call that cannot be built is made: {:?}", o.calls));
    }
    if allow {
        quiet(o)
    } else if o.replies.len() == 1 && o.replies[0].status == 500 {
        Ok(())
    } else {
        bad(format!("a failed call is answered {:?}, must be 500", o.replies))
    }
}

fn asking(name: String, data: Value, extra: Vec<(String, Out)>, asks: Vec<Ask>) -> Job {
    job(name, move |rec: &mut Rec| {
        for part in asks.chunks(400) {
            let sets: Vec<Vec<Value>> = part.iter().map(|a| vec![a.json()]).collect();
            let Some(mut sess) = session(rec, &config(&data, &sets)) else { return };
            rec.sample(json!({"actions": part.len(), "such as": part[part.len() / 2].json(), "requestData": data}));
            rec.explore(|ch, st| {
                let i = ch.pick(part.len());
                one_ask(&mut sess, &host_of(i), &part[i], &extra, st)
            });
        }
    })
}

fn always() -> Cond {
    Cond { text: vec![], holds: true }
}

const LIMITERS: [Kind; 3] = [Limit, Check, Report];
const SCOPES: [&str; 4] = ["ns/policy", "", "sc\"o\\pe' {}", "tab\tline\nü"];

fn sent(thorough: bool) -> Vec<Job> {
    let mut v = vec![];
    for kind in LIMITERS {
        for allow in [false, true] {
            let all = items();
            let mut asks = vec![];
            for scope in SCOPES {
                asks.push(Ask { kind, allow, scope, cond: always(), blocks: vec![] });
            }
            for (i, a) in all.iter().enumerate() {
                let scope = SCOPES[i % SCOPES.len()];
                asks.push(Ask { kind, allow, scope, cond: always(), blocks: vec![Block { cond: always(), items: vec![a.clone()] }] });
                for (j, b) in all.iter().enumerate() {
                    // two values for the same setting are left open
                    let clash = a.key == b.key && [HITS, DOMAIN].contains(&a.key.as_str());
                    if clash || !thorough && (i + j + kind as usize + usize::from(allow)) % 3 != 0 {
                        continue;
                    }
                    let one = vec![Block { cond: always(), items: vec![a.clone(), b.clone()] }];
                    let two = vec![Block { cond: always(), items: vec![a.clone()] }, Block { cond: conds()[1].clone(), items: vec![b.clone()] }];
                    let b_sets = [HITS, DOMAIN].contains(&b.key.as_str());
                    asks.push(Ask { kind, allow, scope, cond: always(), blocks: one });
                    if !b_sets {
                        asks.push(Ask { kind, allow, scope, cond: always(), blocks: two });
                    }
                }
            }
            v.push(asking(format!("{}: data items", kind.service(allow)), json!({}), vec![], asks));
        }
        let cs = conds();
        for (n, cond) in cs.iter().enumerate() {
            let entry = |i: usize| vec![stat(&format!("k{i}"), "v"), expr("m", "request.method", "GET")];
            let mut asks = vec![];
            for (i, a) in cs.iter().enumerate() {
                let one = vec![Block { cond: a.clone(), items: entry(0) }];
                asks.push(Ask { kind, allow: false, scope: "s", cond: cond.clone(), blocks: one });
                for (j, b) in cs.iter().enumerate() {
                    let two = vec![Block { cond: a.clone(), items: entry(0) }, Block { cond: b.clone(), items: entry(1) }];
                    asks.push(Ask { kind, allow: true, scope: "s", cond: cond.clone(), blocks: two.clone() });
                    for (k, c) in cs.iter().enumerate() {
                        if thorough || (i * 5 + j * 3 + k + n) % 29 == 0 {
                            let mut three = two.clone();
                            three.push(Block { cond: c.clone(), items: entry(2) });
                            asks.push(Ask { kind, allow: false, scope: "s", cond: cond.clone(), blocks: three });
                        }
                    }
                }
            }
            v.push(asking(format!("{}: conditions under {:?}", kind.kind(), cond.text), json!({}), vec![], asks));
        }
        let mut all = request_data();
        if kind != Report {
            all.extend(request_data_to_come());
        }
        for (i, (data, extra)) in all.into_iter().enumerate() {
            let mut asks = vec![];
            for allow in [false, true] {
                for items in [vec![], vec![stat("k", "v")], vec![expr(HITS, "3", "3")], vec![expr("m", "request.method", "GET"), stat("k", "v")]] {
                    for cond in &cs[..5] {
                        for block in &cs[..4] {
                            asks.push(Ask { kind, allow, scope: "s", cond: cond.clone(), blocks: vec![Block { cond: block.clone(), items: items.clone() }] });
                        }
                        if items.is_empty() {
                            asks.push(Ask { kind, allow, scope: "s", cond: cond.clone(), blocks: vec![] });
                        }
                    }
                }
            }
            // a setting in a block that does not apply is left open
            asks.retain(|a| a.blocks.iter().all(|b| b.cond.text.is_empty() || b.items.iter().all(|i| i.key != HITS)));
            v.push(asking(format!("{}: request data {i}", kind.kind()), data, extra, asks));
        }
    }
    v
}

fn request_data() -> Vec<(Value, Vec<(String, Out)>)> {
    let is = |l: &[(&str, &str)]| l.iter().map(|(k, v)| (k.to_string(), Is(v.to_string()))).collect::<Vec<_>>();
    vec![
        (json!({"user": "request.headers['x-user']"}), is(&[("user", "alice \"a\" \\ü")])),
        (json!({"metrics.labels.user": "'u'"}), is(&[("user", "u")])),
        (json!({"a.b.c": "3"}), is(&[("a.b.c", "3")])),
        (json!({"metrics.labels.user": "'u'", "b": "request.method", "x.y": "1.5"}), is(&[("user", "u"), ("b", "GET"), ("x.y", "1.5")])),
        (json!({"q\"u\\o": "'x'"}), is(&[("q\"u\\o", "x")])),
        (json!({"t": "request.method == 'POST' ? 'p' : 'g'"}), is(&[("t", "g")])),
        (json!({"user": "request.headers['none']"}), vec![("user".into(), Fails)]),
        (json!({"a": "'x'", "user": "nothing.there"}), vec![("user".into(), Fails)]),
        (json!({"t": "'responseBodyJSON(' + request.method"}), is(&[("t", "responseBodyJSON(GET")])),
        (json!({"t": "request.headers['x-user'].startsWith('auth.') ? 'y' : 'auth.x'"}), is(&[("t", "auth.x")])),
    ]
}

/// What only the response tells is no part of what is asked before it comes.
fn request_data_to_come() -> Vec<(Value, Vec<(String, Out)>)> {
    let is = |l: &[(&str, &str)]| l.iter().map(|(k, v)| (k.to_string(), Is(v.to_string()))).collect::<Vec<_>>();
    [
        "responseBodyJSON('/n')",
        "responseBodyJSON ('/n')",
        "'n' + responseBodyJSON(\"/n\")",
        "request.method == 'GET' ? responseBodyJSON('/n') : 'x'",
        "[responseBodyJSON(\n'/n')][0]",
    ]
    .map(|e| (json!({"a": "'x'", "metrics.labels.later": e}), is(&[("a", "x")])))
    .to_vec()
}

// ---------------------------------------------------------------- C22: what answers do

type Hdrs = Vec<(String, String)>;

fn hdrs(l: &[(&str, &str)]) -> Hdrs {
    l.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect()
}

fn header_lists() -> Vec<Hdrs> {
    vec![
        vec![],
        hdrs(&[("x-limit", "10, 10;w=60")]),
        hdrs(&[("X-Upper", ""), ("x-ü", "ü \"q\" \\ '")]),
        hdrs(&[("x-a", "1"), ("content-type", "text/x"), ("x-b", "2")]),
    ]
}

fn with_headers(before: &Hdrs, set: &Hdrs) -> Hdrs {
    let mut h: Hdrs = before.iter().filter(|b| !set.iter().any(|s| s.0.eq_ignore_ascii_case(&b.0))).cloned().collect();
    h.extend(set.iter().cloned());
    lower(h)
}

/// Header names compared without case, the order of the list left open.
fn lower(mut h: Hdrs) -> Hdrs {
    for x in &mut h {
        x.0 = x.0.to_ascii_lowercase();
    }
    h.sort();
    h
}

/// Lets the response pass: nothing may be called, answered or held up, and
/// apart from `set` the headers stay.
fn response(sess: &mut Session, id: u32, set: &Hdrs) -> Result<(), Fail> {
    let before = sess.vm.headers(id).1;
    let mut o = sane(sess.vm.response_headers(id, false))?;
    if set.is_empty() {
        quiet(&o)?;
    }
    o.set_maps.clear();
    quiet(&o)?;
    let after = sess.vm.headers(id).1;
    if lower(after.clone()) != with_headers(&before, set) {
        return bad(format!("the response has {after:?}, must be {before:?} and {set:?}"));
    }
    quiet(&sane(sess.vm.response_body(id, b"{\"n\": 5}", true))?)
}

#[derive(Clone, Debug)]
enum Answer {
    Code(i32, Hdrs, bool),
    Status(u32),
    Damaged,
}

fn answers() -> Vec<Answer> {
    let mut v = vec![];
    for code in [0, 1, 2, 3, -1, 429, i32::MAX] {
        for h in header_lists() {
            for statuses in [false, true] {
                v.push(Answer::Code(code, h.clone(), statuses));
            }
        }
    }
    for s in [1, 2, 4, 13, 14, 16, 99] {
        v.push(Answer::Status(s));
    }
    v.push(Answer::Damaged);
    v
}

fn limit_reply(sess: &mut Session, id: u32, token: u32, a: &Answer) -> Obs {
    match a {
        Answer::Code(c, h, statuses) => {
            let m = RateLimitResponse {
                overall_code: *c,
                statuses: if *statuses { vec![DescriptorStatus { code: 3 - *c % 3, limit_remaining: 4 }, DescriptorStatus::default()] } else { vec![] },
                response_headers_to_add: h.iter().map(|(k, v)| HeaderValue { key: k.clone(), value: v.clone() }).collect(),
            };
            sess.vm.reply(id, token, 0, Some(&m.encode_to_vec()))
        }
        Answer::Status(s) => sess.vm.reply(id, token, *s, None),
        Answer::Damaged => sess.vm.reply(id, token, 0, Some(&[0x0a, 0x05, 0x01])),
    }
}

fn answered(kind: Kind) -> Job {
    job(format!("{}: answers", kind.kind()), move |rec: &mut Rec| {
        let action = |allow: bool| json!({"service": kind.service(allow), "scope": "s"});
        let sets = vec![vec![action(false)], vec![action(true)]];
        let Some(mut sess) = session(rec, &config(&json!({}), &sets)) else { return };
        let all = answers();
        rec.sample(json!({"answers": all.len(), "such as": format!("{:?}", all[9])}));
        rec.explore(|ch, st| {
            let allow = ch.flip();
            let a = &all[ch.pick(all.len())];
            let log = vec![format!("{} answers {a:?}", kind.service(allow))];
            let id = sess.open(base_stream(&host_of(usize::from(allow)), "/toys"));
            let r = (|| {
                let o = sane(sess.vm.request_headers(id, true))?;
                let [c] = o.calls.as_slice() else { return bad(format!("{} calls", o.calls.len())) };
                the_call(c, kind, allow)?;
                let before = sess.vm.headers(id);
                let o = sane(limit_reply(&mut sess, id, c.token, a))?;
                st.transition();
                st.state(hash_of(&(kind, allow, format!("{a:?}"))));
                let refused = |status: u32, headers: &Hdrs, body: Option<&str>| {
                    let [r] = o.replies.as_slice() else { return bad(format!("answered {:?}, must be {status}", o.replies)) };
                    if r.status != status || body.is_some_and(|b| b != r.body) || body.is_some() && lower(r.headers.clone()) != lower(headers.clone()) {
                        return bad(format!("answered {r:?}, must be {status} {headers:?} {body:?}"));
                    }
                    if o.resume_req > 0 {
                        return bad("refused and let through");
                    }
                    Ok(())
                };
                let through = |sess: &mut Session, set: &Hdrs| {
                    quiet(&o)?;
                    if kind.guards() && o.resume_req != 1 {
                        return bad(format!("let through {} times by this answer", o.resume_req));
                    }
                    if sess.vm.headers(id).0 != before.0 {
                        return bad("the request's headers changed");
                    }
                    response(sess, id, set)
                };
                match a {
                    // nothing was sent but the default, left open
                    Answer::Code(0, h, false) if h.is_empty() => Ok(()),
                    Answer::Code(..) if kind == Report => through(&mut sess, &vec![]),
                    Answer::Code(2, h, _) => refused(429, h, Some("Too Many Requests\n")),
                    Answer::Code(1, h, _) => through(&mut sess, h),
                    Answer::Code(..) => refused(500, &vec![], None),
                    _ if allow => through(&mut sess, &vec![]),
                    _ => refused(500, &vec![], None),
                }
            })();
            sess.forget(id);
            r.map_err(|(e, _)| (e, log))
        });
    })
}

// ---------------------------------------------------------------- C22: several of them

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Step {
    Ask(Kind),
    /// a report of what the response says
    Later,
}

impl Step {
    fn kind(self) -> Kind {
        match self {
            Step::Ask(k) => k,
            Step::Later => Report,
        }
    }
    fn json(self, i: usize) -> Value {
        let scope = format!("a{i}");
        match self {
            Step::Ask(k) => json!({"service": k.service(i % 2 == 1), "scope": scope}),
            Step::Later => json!({"service": Report.service(i % 2 == 1), "scope": scope, "conditionalData": [{"data": [
                {"expression": {"key": HITS, "value": "responseBodyJSON('/n')"}}, {"static": {"key": "k", "value": "v"}}]}]}),
        }
    }
}

fn scope_of(c: &Call) -> Option<usize> {
    let s = if c.service.contains("auth") {
        let a = CheckRequest::decode(c.message.as_slice()).ok()?.attributes?;
        a.context_extensions.get("host")?.clone()
    } else {
        RateLimitRequest::decode(c.message.as_slice()).ok()?.domain
    };
    s.strip_prefix('a')?.parse().ok()
}

#[derive(Clone, Debug, PartialEq)]
enum At {
    Waits,
    Out(u32),
    Settled,
}

struct Line<'a> {
    steps: &'a [Step],
    at: Vec<At>,
    body: bool,
    refused: bool,
    headers: Hdrs,
}

impl Line<'_> {
    /// Whether this step must have been asked by now, or may be.
    fn due(&self, i: usize) -> (bool, bool) {
        let before = |f: &dyn Fn(Step) -> bool| (0..i).all(|j| !f(self.steps[j]) || self.at[j] == At::Settled);
        let data = self.steps[i] != Step::Later || self.body;
        let may = data && before(&|s| s.kind().guards());
        let must = data && if self.steps[i].kind().guards() { may } else { before(&|_| true) };
        (must && !self.refused, may && !self.refused)
    }

    fn observe(&mut self, o: &Obs) -> Result<(), Fail> {
        for c in &o.calls {
            let Some(i) = scope_of(c) else { return bad(format!("a call of no action: {c:?}")) };
            if self.at.get(i) != Some(&At::Waits) {
                return bad(format!("action {i} asks again"));
            }
            the_call(c, self.steps[i].kind(), i % 2 == 1)?;
            if !self.due(i).1 {
                return bad(format!("action {i} asks before the ones ahead of it are done, or after a refusal: {:?}", self.at));
            }
            if self.steps[i] == Step::Later {
                let r = exactly::<RateLimitRequest>(&c.message).map(|r| canonical(r, false));
                let want = RateLimitRequest {
                    domain: format!("a{i}"),
                    hits_addend: 5,
                    descriptors: vec![Descriptor { entries: vec![Entry { key: "k".into(), value: "v".into() }] }],
                };
                if r.as_ref() != Some(&want) {
                    return bad(format!("reported {r:?}, must be {want:?}"));
                }
            }
            self.at[i] = At::Out(c.token);
        }
        for i in 0..self.steps.len() {
            if self.at[i] == At::Waits && self.due(i).0 {
                return bad(format!("action {i} does not ask: {:?}", self.at));
            }
        }
        if !o.props.is_empty() {
            return bad(format!("properties {:?}", o.props));
        }
        Ok(())
    }

    fn guarded(&self) -> bool {
        (0..self.steps.len()).any(|i| self.steps[i].kind().guards() && self.at[i] != At::Settled)
    }
}

fn auth_ok() -> Vec<u8> {
    CheckResponse { ok_response: Some(Okay::default()), ..Default::default() }.encode_to_vec()
}

fn auth_denied() -> Vec<u8> {
    CheckResponse { denied_response: Some(Denied { status: Some(HttpStatus { code: 401 }), ..Default::default() }), ..Default::default() }.encode_to_vec()
}

fn in_a_row(steps: Vec<Step>) -> Job {
    job(format!("one after the other: {steps:?}"), move |rec: &mut Rec| {
        let acts: Vec<Value> = steps.iter().enumerate().map(|(i, s)| s.json(i)).collect();
        let Some(mut sess) = session(rec, &config(&json!({}), &[acts.clone()])) else { return };
        rec.sample(json!(acts));
        rec.explore(|ch, st| {
            let mut log = vec![];
            let id = sess.open(base_stream(&host_of(0), "/toys"));
            let r = row(&mut sess, id, &steps, ch, st, &mut log);
            sess.forget(id);
            r.map_err(|(e, _)| (e, log))
        });
    })
}

fn row(sess: &mut Session, id: u32, steps: &[Step], ch: &mut Ch, st: &mut Stats, log: &mut Vec<String>) -> Result<(), Fail> {
    let mut l = Line { steps, at: vec![At::Waits; steps.len()], body: false, refused: false, headers: vec![] };
    // 0: request headers next, 1: response headers, 2: response body, 3: over
    let mut phase = 0;
    let mut held = false;
    let before = sess.vm.headers(id).1;
    loop {
        let mut out: Vec<usize> = (0..steps.len()).filter(|i| matches!(l.at[*i], At::Out(_))).collect();
        if phase == 3 && out.is_empty() || l.refused {
            break;
        }
        out.truncate(3);
        let moves = out.len() + usize::from(!held && phase < 3);
        if moves == 0 {
            return bad("held, and nothing is asked");
        }
        let k = ch.pick(moves);
        if k == out.len() {
            log.push(["request headers", "response headers", "response body"][phase].into());
            if phase == 2 {
                l.body = true;
            }
            let o = sane(match phase {
                0 => sess.vm.request_headers(id, true),
                1 => sess.vm.response_headers(id, false),
                _ => sess.vm.response_body(id, b"{\"n\": 5}", true),
            })?;
            l.observe(&o)?;
            if !o.replies.is_empty() {
                return bad(format!("answered {:?}", o.replies));
            }
            if phase == 0 && o.pause != Some(l.guarded()) {
                return bad(format!("paused {:?} with {:?}", o.pause, l.at));
            }
            held = o.pause == Some(true);
            phase += 1;
        } else {
            let i = out[k];
            let At::Out(token) = l.at[i] else { return bad("no token") };
            // yes, no, and a failed call
            let how = ch.pick(3);
            let kind = steps[i].kind();
            let (allow, set) = (i % 2 == 1, hdrs(&[("x-n", "1")]));
            log.push(format!("{kind:?} {i} answers {how}"));
            let late = phase > 1;
            if how == 2 && !kind.guards() && !allow && !late {
                // C02 is about this
                return Ok(());
            }
            l.at[i] = At::Settled;
            let set = if kind == Auth { vec![] } else { vec![(format!("x-{i}"), set[0].1.clone())] };
            let o = match (how, kind) {
                (0, Auth) => sess.vm.reply(id, token, 0, Some(&auth_ok())),
                (1, Auth) => sess.vm.reply(id, token, 0, Some(&auth_denied())),
                (2, _) => limit_reply(sess, id, token, &Answer::Status(14)),
                (how, _) => limit_reply(sess, id, token, &Answer::Code(1 + how as i32, set.clone(), false)),
            };
            let o = sane(o)?;
            let refuses = match how {
                1 => kind.guards(),
                2 => !allow && kind.guards(),
                _ => false,
            };
            if refuses {
                l.refused = true;
                let want = if how == 2 { 500 } else if kind == Auth { 401 } else { 429 };
                if o.replies.len() != 1 || o.replies[0].status != want || o.resume_req > 0 {
                    return bad(format!("answered {:?}, resumed {} times, must be {want}", o.replies, o.resume_req));
                }
            } else if kind == Report && how == 2 && !allow {
                // a failed report when the response is on its way: C02
                return Ok(());
            } else if !o.replies.is_empty() {
                return bad(format!("answered {:?}", o.replies));
            }
            l.observe(&o)?;
            if how == 0 && kind.guards() {
                l.headers.extend(set);
            }
            if o.resume_req > 0 {
                if phase == 1 && l.guarded() {
                    return bad(format!("the request is resumed with {:?}", l.at));
                }
                held = held && phase != 1;
            } else if held && phase == 1 && !l.guarded() && !l.refused {
                return bad("the request is not resumed");
            }
            if o.resume_resp > 0 {
                held = false;
            }
        }
        st.transition();
        st.state(hash_of(&(phase, held, format!("{:?}", l.at))));
    }
    if !l.refused {
        let after = sess.vm.headers(id).1;
        if lower(after.clone()) != with_headers(&before, &l.headers) {
            return bad(format!("the response has {after:?}, must have {:?} in addition", l.headers));
        }
        if l.at.iter().any(|a| *a != At::Settled) {
            return bad(format!("not all asked: {:?}", l.at));
        }
    }
    Ok(())
}

fn rows(thorough: bool) -> Vec<Job> {
    let all = [Step::Ask(Limit), Step::Ask(Check), Step::Ask(Report), Step::Later, Step::Ask(Auth)];
    let mut lists: Vec<Vec<Step>> = vec![vec![]];
    let mut v = vec![];
    for n in 1..=if thorough { 4 } else { 3 } {
        lists = lists.iter().flat_map(|l| all.iter().map(move |s| l.iter().copied().chain([*s]).collect())).collect();
        if n > 1 {
            v.extend(lists.iter().filter(|l| l.iter().any(|s| s.kind() != Auth)).cloned().map(in_a_row));
        }
    }
    v
}

// ---------------------------------------------------------------- C23: what is sent

#[derive(Clone, Debug)]
struct Who {
    method: &'static str,
    path: &'static str,
    host: &'static str,
    scheme: &'static str,
    protocol: &'static str,
    time: i64,
    source: (&'static str, i64),
    destination: (&'static str, i64),
    headers: &'static [(&'static str, &'static str)],
}

/// Every combination in which at most `n` of the attributes differ from the
/// usual ones.
fn who(n: usize) -> Vec<Who> {
    let base = Who {
        method: "GET",
        path: "/toys?x=1",
        host: "*",
        scheme: "http",
        protocol: "HTTP/1.1",
        time: 1_700_000_000_123_456_789,
        source: ("10.1.2.3:4567", 4567),
        destination: ("10.9.8.7:80", 80),
        headers: &[("x-user", "alice \"a\" \\ü")],
    };
    type Set = fn(&mut Who);
    let axes: Vec<Vec<Set>> = vec![
        vec![|w| w.method = "DELETE", |w| w.method = "x-UNHEARD-of", |w| w.method = ""],
        vec![|w| w.path = "/", |w| w.path = "/a%2fb/é?q=\"'\\{}#f", |w| w.path = "", |w| w.path = "*"],
        vec![|w| w.host = "*:8443"],
        vec![|w| w.scheme = "https", |w| w.scheme = ""],
        vec![|w| w.protocol = "HTTP/2", |w| w.protocol = "HTTP/1.0", |w| w.protocol = ""],
        vec![|w| w.time = 0, |w| w.time = 1, |w| w.time = 999_999_999, |w| w.time = 1_000_000_000, |w| w.time = i64::MAX],
        vec![|w| w.source = ("[2001:db8::1]:65535", 65535), |w| w.source = ("@internal", 0), |w| w.source = ("", 1)],
        vec![|w| w.destination = ("[::1]:443", 443), |w| w.destination = ("/var/run/a.sock", 0)],
        vec![
            |w| w.headers = &[],
            |w| w.headers = &[("x-a", "1"), ("x-b", ""), ("X-Case", "V"), ("é", "ü \"q\" \\ \t'")],
            |w| w.headers = &[("x-a", "1"), ("x-b", "2"), ("x-a", "3")],
            |w| w.headers = &[("authorization", "Bearer a.b-c_d=="), ("cookie", "a=b; c=\"d\"")],
        ],
    ];
    let mut v = vec![(0, base)];
    let mut i = 0;
    let mut depth = vec![0];
    while i < v.len() {
        if depth[i] < n {
            for (k, axis) in axes.iter().enumerate().skip(v[i].0) {
                for set in axis {
                    let mut w = v[i].1.clone();
                    set(&mut w);
                    v.push((k + 1, w));
                    depth.push(depth[i] + 1);
                }
            }
        }
        i += 1;
    }
    v.into_iter().map(|x| x.1).collect()
}

impl Who {
    fn stream(&self, host: &str) -> Stream {
        let host = self.host.replace('*', host);
        let mut s = base_stream(&host, self.path);
        for h in &mut s.req_headers {
            match h.0.as_str() {
                ":method" => h.1 = self.method.into(),
                ":scheme" => h.1 = self.scheme.into(),
                _ => {}
            }
        }
        s.req_headers.extend(self.headers.iter().map(|(k, v)| (k.to_string(), v.to_string())));
        for (k, v) in [
            ("request.method", self.method),
            ("request.scheme", self.scheme),
            ("request.protocol", self.protocol),
            ("source.address", self.source.0),
            ("destination.address", self.destination.0),
        ] {
            set_prop(&mut s, k, val(v));
        }
        for (k, n) in [("request.time", self.time), ("source.port", self.source.1), ("destination.port", self.destination.1)] {
            set_prop(&mut s, k, P::Value(n.to_le_bytes().to_vec()));
        }
        s
    }

    fn expected(&self, host: &str, scope: &str, s: &Stream, data: &BTreeMap<String, prost_types::Struct>) -> CheckRequest {
        let peer = |(a, p): (&str, i64)| {
            Some(Peer { address: Some(Address { socket_address: Some(SocketAddress { address: a.into(), port_value: Some(p as u32), ..Default::default() }) }), ..Default::default() })
        };
        let mut headers: BTreeMap<String, String> = BTreeMap::new();
        for (k, v) in &s.req_headers {
            headers.entry(k.clone()).and_modify(|x| *x = format!("{x},{v}")).or_insert(v.clone());
        }
        CheckRequest {
            attributes: Some(AttributeContext {
                source: peer(self.source),
                destination: peer(self.destination),
                request: Some(Request {
                    time: Some(prost_types::Timestamp { seconds: self.time / 1_000_000_000, nanos: (self.time % 1_000_000_000) as i32 }),
                    http: Some(HttpRequest {
                        method: self.method.into(),
                        path: self.path.into(),
                        host: self.host.replace('*', host),
                        scheme: self.scheme.into(),
                        protocol: self.protocol.into(),
                        headers,
                        ..Default::default()
                    }),
                }),
                context_extensions: [("host".to_string(), scope.to_string())].into(),
                metadata_context: Some(Metadata { filter_metadata: data.clone() }),
            }),
        }
    }
}

/// Messages and map entries that are empty may be left out.
fn without_defaults(mut r: CheckRequest) -> CheckRequest {
    if let Some(a) = &mut r.attributes {
        a.metadata_context = a.metadata_context.take().filter(|m| !m.filter_metadata.is_empty());
        for p in [&mut a.source, &mut a.destination] {
            if let Some(s) = p.as_mut().and_then(|p| p.address.as_mut()).and_then(|x| x.socket_address.as_mut()) {
                s.port_value = s.port_value.or(Some(0));
            }
        }
    }
    r
}

type Meta = BTreeMap<String, prost_types::Struct>;

fn text(s: &str) -> prost_types::Value {
    prost_types::Value { kind: Some(prost_types::value::Kind::StringValue(s.into())) }
}

fn of(l: &[(&str, prost_types::Value)]) -> prost_types::Struct {
    prost_types::Struct { fields: l.iter().map(|(k, v)| (k.to_string(), v.clone())).collect() }
}

/// Request data, and what the authorization service is told; None: it
/// cannot be told.
fn auth_data() -> Vec<(Value, Option<Meta>)> {
    let is = |l: &[(&str, &[(&str, &str)])]| {
        Some(l.iter().map(|(d, f)| (d.to_string(), of(&f.iter().map(|(k, v)| (*k, text(v))).collect::<Vec<_>>()))).collect::<Meta>())
    };
    let later = |e: &str| prost_types::Value { kind: Some(prost_types::value::Kind::StructValue(of(&[("cel_expr", text(e))]))) };
    vec![
        (json!({}), is(&[])),
        (json!({"user": "request.headers['x-user']"}), is(&[("io.kuadrant", &[("user", "alice \"a\" \\ü")])])),
        (json!({"metrics.labels.user": "'u'", "b": "request.method", "metrics.labels.n": "1.5", "x.y": "3"}),
         is(&[("io.kuadrant", &[("b", "GET")]), ("io.kuadrant.metrics.labels", &[("user", "u"), ("n", "1.5")]), ("io.kuadrant.x", &[("y", "3")])])),
        (json!({"q\"u\\o": "'x'"}), is(&[("io.kuadrant", &[("q\"u\\o", "x")])])),
        (json!({"t": "request.method == 'POST' ? 'p' : 'g'"}), is(&[("io.kuadrant", &[("t", "g")])])),
        (json!({"later": "responseBodyJSON('/n')", "a": "'x'"}), is(&[("io.kuadrant", &[("a", "x")])])),
        (json!({"later": "'n' + responseBodyJSON ('/n')", "a": "'x'"}), is(&[("io.kuadrant", &[("a", "x")])])),
        (json!({"a": "'responseBodyJSON('"}), is(&[("io.kuadrant", &[("a", "responseBodyJSON(")])])),
        (json!({"a": "'auth.x'", "b": "request.headers['x-auth.user'] == '' ? 'y' : 'n'"}), None),
        (json!({"a": "'oauth.x'"}), is(&[("io.kuadrant", &[("a", "oauth.x")])])),
        (json!({"u": "auth['identity'].user"}), Some([("io.kuadrant".to_string(), of(&[("u", later("auth['identity'].user"))]))].into())),
        (json!({"u": "size(auth . identity)"}), Some([("io.kuadrant".to_string(), of(&[("u", later("size(auth . identity)"))]))].into())),
        (json!({"u": "auth.identity.user", "l.v": "auth.identity[\"x\"] == 'a\\\\b'"}),
         Some([("io.kuadrant".to_string(), of(&[("u", later("auth.identity.user"))])), ("io.kuadrant.l".to_string(), of(&[("v", later("auth.identity[\"x\"] == 'a\\\\b'"))]))].into())),
        (json!({"user": "request.headers['none']"}), None),
        (json!({"a": "'x'", "user": "nothing.there"}), None),
        (json!({"user": "1 / 0"}), None),
    ]
}

fn auth_sent(name: String, data: Value, meta: Option<Meta>, all: Vec<Who>) -> Job {
    job(name, move |rec: &mut Rec| {
        let mut sets = vec![];
        let mut variants = vec![];
        for scope in SCOPES {
            for allow in [false, true] {
                for cond in conds() {
                    if scope == SCOPES[0] || cond.text.is_empty() {
                        let mut a = json!({"service": Auth.service(allow), "scope": scope});
                        if !cond.text.is_empty() {
                            a["predicates"] = json!(cond.text);
                        }
                        sets.push(vec![a]);
                        variants.push((scope, allow, cond));
                    }
                }
            }
        }
        let Some(mut sess) = session(rec, &config(&data, &sets)) else { return };
        rec.sample(json!({"requests": all.len(), "actions": sets.len(), "such as": sets[3], "requestData": data}));
        rec.explore(|ch, st| {
            let i = ch.pick(variants.len());
            let (scope, allow, cond) = &variants[i];
            // conditions are about the usual request
            let w = &all[ch.pick(if cond.text.is_empty() { all.len() } else { 1 })];
            let host = host_of(i);
            let s = w.stream(&host);
            let want = meta.as_ref().map(|m| without_defaults(w.expected(&host, scope, &s, m)));
            let id = sess.open(s);
            let r = (|| {
                let o = sane(sess.vm.request_headers(id, true))?;
                st.transition();
                if !cond.holds {
                    return quiet(&o);
                }
                let Some(want) = want else { return failed(&o, *allow) };
                let [c] = o.calls.as_slice() else { return bad(format!("{} calls, {want:?} is to be asked", o.calls.len())) };
                the_call(c, Auth, *allow)?;
                let Some(is) = exactly::<CheckRequest>(&c.message) else { return bad(format!("what is sent is no check request: {:?}", c.message)) };
                let is = without_defaults(is);
                st.state(hash_of(&format!("{is:?}")));
                if is != want {
                    return bad(format!("sent {is:?}, must be {want:?}"));
                }
                if o.pause != Some(true) || !o.replies.is_empty() {
                    return bad(format!("paused: {:?}, answered {:?} while the call is under way", o.pause, o.replies));
                }
                let o = sane(sess.vm.reply(id, c.token, 0, Some(&auth_ok())))?;
                if o.resume_req != 1 || !o.replies.is_empty() {
                    return bad("not let through by an OK");
                }
                Ok(())
            })();
            sess.forget(id);
            r.map_err(|(e, l)| (format!("{w:?} {:?}: {e}", sets[i]), l))
        });
    })
}

/// Attributes the proxy does not know, or cannot tell: no call with others in
/// their place.
fn auth_unknown() -> Job {
    job("auth: attributes missing", move |rec: &mut Rec| {
        let sets = [false, true].map(|allow| vec![json!({"service": Auth.service(allow), "scope": "s"})]);
        let Some(mut sess) = session(rec, &config(&json!({}), &sets)) else { return };
        const ATTRS: [&str; 8] =
            ["request.method", "request.path", "request.scheme", "request.protocol", "source.address", "destination.address", "source.port", "destination.port"];
        rec.sample(json!(ATTRS));
        rec.explore(|ch, st| {
            let allow = ch.flip();
            let gone: Vec<&str> = {
                let a = ch.pick(ATTRS.len());
                let b = ch.pick(ATTRS.len());
                vec![ATTRS[a], ATTRS[b]]
            };
            let how = ch.pick(3);
            let w = &who(0)[0];
            let host = host_of(usize::from(allow));
            let mut s = w.stream(&host);
            let want = w.expected(&host, "s", &s, &Meta::new());
            for g in &gone {
                set_prop(&mut s, g, [P::Absent, P::Unavailable, P::Fail][how].clone());
            }
            let id = sess.open(s);
            let r = (|| {
                let o = sane(sess.vm.request_headers(id, true))?;
                st.transition();
                let [c] = o.calls.as_slice() else {
                    // what is not there yet may come, C26
                    return if how == 1 && o.replies.is_empty() { Ok(()) } else { failed(&o, allow) };
                };
                the_call(c, Auth, allow)?;
                let Some(is) = exactly::<CheckRequest>(&c.message) else { return bad(format!("what is sent is no check request: {:?}", c.message)) };
                let (is, mut want) = (format!("{is:?}"), want);
                let mut options = vec![format!("{want:?}")];
                // what is not known is left out
                let at = want.attributes.as_mut().unwrap_or_else(|| unreachable!());
                let http = at.request.as_mut().and_then(|r| r.http.as_mut()).unwrap_or_else(|| unreachable!());
                for g in &gone {
                    match *g {
                        "request.method" => http.method.clear(),
                        "request.path" => http.path.clear(),
                        "request.scheme" => http.scheme.clear(),
                        "request.protocol" => http.protocol.clear(),
                        _ => {
                            let p = if g.starts_with("source") { &mut at.source } else { &mut at.destination };
                            if let Some(a) = p.as_mut().and_then(|p| p.address.as_mut()).and_then(|a| a.socket_address.as_mut()) {
                                if g.ends_with("port") {
                                    a.port_value = None;
                                } else {
                                    a.address.clear();
                                }
                            }
                        }
                    }
                }
                options.push(format!("{want:?}"));
                if options[1] != is {
                    return bad(format!("sent {is}, must be {}", options[1]));
                }
                Ok(())
            })();
            sess.forget(id);
            r.map_err(|(e, l)| (format!("{gone:?} {how}: {e}"), l))
        });
    })
}

// ---------------------------------------------------------------- C23: what answers do

#[derive(Clone, Debug)]
enum Verdict {
    Denied(u32),
    /// with some status
    Refused,
    Pass,
    /// the reply says nothing the filter can act on
    Fails,
    /// the call failed
    Failed,
}

fn options(h: &Hdrs, flag: Option<bool>) -> Vec<HeaderValueOption> {
    h.iter().map(|(k, v)| HeaderValueOption { header: Some(HeaderValue { key: k.clone(), value: v.clone() }), append: flag.map(|value| Flag { value }) }).collect()
}

fn auth_headers() -> Vec<Hdrs> {
    vec![vec![], hdrs(&[("x-new", "1")]), hdrs(&[("X-User", "bob"), ("x-ü", "ü \"q\" \\ '"), ("x-empty", "")])]
}

fn auth_answers() -> Vec<(CheckResponse, Verdict)> {
    let mut v = vec![];
    let meta = of(&[("k", text("v"))]);
    let rpc = |code| Some(RpcStatus { code, message: "m".into() });
    let base = |code: i32, m: bool| CheckResponse { status: rpc(code), dynamic_metadata: m.then(|| meta.clone()), ..Default::default() };
    for m in [false, true] {
        for h in auth_headers() {
            for code in [0, 7, 16] {
                for status in [None, Some(0), Some(200), Some(302), Some(401), Some(403), Some(429), Some(503), Some(599)] {
                    for body in ["", "denied \"x\" \\ ü\n"] {
                        let d = Denied { status: status.map(|code| HttpStatus { code }), headers: options(&h, None), body: body.into() };
                        let want = match status {
                            None | Some(0) => 403,
                            Some(s) => s as u32,
                        };
                        v.push((CheckResponse { denied_response: Some(d), ..base(code, m) }, Verdict::Denied(want)));
                    }
                }
                for status in [-1, 1, 99, 600, 65536 + 200, i32::MAX, i32::MIN] {
                    let d = Denied { status: Some(HttpStatus { code: status }), headers: options(&h, None), body: "b".into() };
                    v.push((CheckResponse { denied_response: Some(d), ..base(code, m) }, Verdict::Refused));
                }
                let ok = Okay { headers: options(&h, None), ..Default::default() };
                v.push((CheckResponse { ok_response: Some(ok.clone()), ..base(code, m) }, Verdict::Pass));
                for k in 1..16 {
                    let q = Okay {
                        response_headers_to_add: if k & 1 > 0 { options(&hdrs(&[("x-r", "1")]), None) } else { vec![] },
                        headers_to_remove: if k & 2 > 0 { vec!["x-user".into()] } else { vec![] },
                        query_parameters_to_set: if k & 4 > 0 { vec![Entry { key: "a".into(), value: "b".into() }] } else { vec![] },
                        query_parameters_to_remove: if k & 8 > 0 { vec!["x".into()] } else { vec![] },
                        ..ok.clone()
                    };
                    v.push((CheckResponse { ok_response: Some(q), ..base(code, m) }, Verdict::Fails));
                }
                v.push((base(code, m), Verdict::Fails));
            }
        }
    }
    v
}

fn auth_answered() -> Job {
    job("auth: answers", move |rec: &mut Rec| {
        let sets = [false, true].map(|allow| vec![json!({"service": Auth.service(allow), "scope": "s"})]);
        let Some(mut sess) = session(rec, &config(&json!({}), &sets)) else { return };
        let mut all: Vec<(Answer, Option<CheckResponse>, Verdict)> =
            auth_answers().into_iter().map(|(r, v)| (Answer::Damaged, Some(r), v)).collect();
        for a in answers() {
            if !matches!(a, Answer::Code(..)) {
                all.push((a, None, Verdict::Failed));
            }
        }
        rec.sample(json!({"answers": all.len(), "such as": format!("{:?}", all[9])}));
        rec.explore(|ch, st| {
            let allow = ch.flip();
            let (a, resp, verdict) = &all[ch.pick(all.len())];
            let log = vec![format!("{} answers {resp:?} {a:?}", Auth.service(allow))];
            let mut s = base_stream(&host_of(usize::from(allow)), "/toys?x=1");
            s.req_headers.push(("x-user".into(), "alice".into()));
            let id = sess.open(s);
            let r = (|| {
                let o = sane(sess.vm.request_headers(id, true))?;
                let [c] = o.calls.as_slice() else { return bad(format!("{} calls", o.calls.len())) };
                the_call(c, Auth, allow)?;
                let before = sess.vm.headers(id);
                let o = sane(match resp {
                    Some(r) => sess.vm.reply(id, c.token, 0, Some(&r.encode_to_vec())),
                    None => limit_reply(&mut sess, id, c.token, a),
                })?;
                st.transition();
                st.state(hash_of(&(allow, format!("{resp:?} {a:?}"))));
                let passes = |sess: &mut Session, set: &Hdrs| {
                    if o.resume_req != 1 || !o.replies.is_empty() || !o.calls.is_empty() {
                        return bad(format!("let through {} times, answered {:?}", o.resume_req, o.replies));
                    }
                    let after = sess.vm.headers(id).0;
                    if lower(after.clone()) != with_headers(&before.0, set) {
                        return bad(format!("the request has {after:?}, must be {:?} and {set:?}", before.0));
                    }
                    let meta = resp.as_ref().and_then(|r| r.dynamic_metadata.clone());
                    match (o.props.as_slice(), meta) {
                        ([], None) => {}
                        ([(p, b)], Some(m)) if *p == ["kuadrant.auth"] && prost_types::Struct::decode(b.as_slice()).as_ref() == Ok(&m) => {}
                        (p, m) => return bad(format!("exported {p:?}, must be {m:?}")),
                    }
                    response(sess, id, &vec![])
                };
                let refused = |status: Option<u32>, headers: Option<(&Hdrs, &str)>| {
                    if let ([r], Some(CheckResponse { denied_response: Some(Denied { status: None, .. }), .. })) = (o.replies.as_slice(), resp) {
                        if r.status == 500 && o.resume_req == 0 {
                            return bad("a denied reply without a status is answered 500 without its headers and body, must be 403 with them");
                        }
                    }
                    let [r] = o.replies.as_slice() else { return bad(format!("answered {:?}, must be {verdict:?}", o.replies)) };
                    if status.is_some_and(|s| s != r.status) || headers.as_ref().is_some_and(|(h, b)| lower(r.headers.clone()) != lower((*h).clone()) || r.body != *b) {
                        return bad(format!("answered {r:?}, must be {verdict:?} {headers:?}"));
                    }
                    if o.resume_req > 0 || !o.props.is_empty() || !o.calls.is_empty() || sess.vm.headers(id).0 != before.0 {
                        return bad("refused, and something else is done");
                    }
                    Ok(())
                };
                let set_of = |h: &[HeaderValueOption]| -> Hdrs { h.iter().filter_map(|h| h.header.as_ref()).map(|h| (h.key.clone(), h.value.clone())).collect() };
                match (verdict, resp) {
                    (Verdict::Denied(s), Some(CheckResponse { denied_response: Some(d), .. })) => refused(Some(*s), Some((&set_of(&d.headers), &d.body))),
                    (Verdict::Pass, Some(CheckResponse { ok_response: Some(k), .. })) => passes(&mut sess, &set_of(&k.headers)),
                    (Verdict::Refused, _) => refused(None, None),
                    (Verdict::Failed, _) if allow => {
                        if !o.props.is_empty() {
                            return bad("properties set");
                        }
                        passes(&mut sess, &vec![])
                    }
                    _ => refused(Some(500), None),
                }
            })();
            sess.forget(id);
            r.map_err(|(e, _)| (e, log))
        });
    })
}

// ---------------------------------------------------------------- C23: auth values

fn value_of(v: &Value) -> prost_types::Value {
    use prost_types::value::Kind as K;
    let kind = match v {
        Value::Null => K::NullValue(0),
        Value::Bool(b) => K::BoolValue(*b),
        Value::Number(n) => K::NumberValue(n.as_f64().unwrap_or(f64::NAN)),
        Value::String(s) => K::StringValue(s.clone()),
        Value::Array(l) => K::ListValue(prost_types::ListValue { values: l.iter().map(value_of).collect() }),
        Value::Object(_) => K::StructValue(struct_of(v)),
    };
    prost_types::Value { kind: Some(kind) }
}

fn struct_of(v: &Value) -> prost_types::Struct {
    prost_types::Struct { fields: v.as_object().into_iter().flatten().map(|(k, v)| (k.clone(), value_of(v))).collect() }
}

/// Expressions that hold for this value at this path, and one that does not.
fn truths(path: &str, v: &Value, out: &mut Vec<(String, bool)>) {
    match v {
        Value::Null => out.push((format!("{path} == null"), true)),
        Value::Bool(b) => {
            out.push((path.to_string(), *b));
            out.push((format!("{path} == true"), *b));
        }
        Value::Number(n) => {
            let n = n.as_f64().unwrap_or(0.0);
            out.push((format!("{path} == {n:?}"), true));
            out.push((format!("{path} > {:?}", n + 1.0), false));
        }
        Value::String(s) => {
            out.push((format!("{path} == {}", super::lab::lit(s)), true));
            out.push((format!("string({path}) == {}", super::lab::lit(s)), true));
            out.push((format!("{path} == {}", super::lab::lit(&format!("{s}x"))), false));
        }
        Value::Array(l) => {
            out.push((format!("size({path}) == {}", l.len()), true));
            for (i, x) in l.iter().enumerate() {
                truths(&format!("{path}[{i}]"), x, out);
            }
        }
        Value::Object(m) => {
            for (k, x) in m {
                truths(&format!("{path}[{}]", super::lab::lit(k)), x, out);
                if k.chars().all(|c| c.is_ascii_alphabetic()) {
                    truths(&format!("{path}.{k}"), x, out);
                }
            }
        }
    }
}

fn metas() -> Vec<Value> {
    let leaves = [json!(null), json!(true), json!(false), json!(0), json!(-2.5), json!(1e10), json!(""), json!("al\"i'c\\e ü"), json!([]), json!(["a", 1, [true]]), json!({"k": "v"})];
    let mut v = vec![json!({"identity": {"user": "alice", "groups": ["a", "b"], "age": 18, "admin": false, "o.p": {"q": null}}, "metadata": {"m": {"n": [{"z": 1}]}}})];
    for (i, a) in leaves.iter().enumerate() {
        v.push(json!({"identity": a}));
        v.push(json!({"identity": {"x": a, "y": leaves[(i + 3) % leaves.len()]}, "z": {"kk": {"dash-ed": a}}}));
    }
    v
}

fn auth_values() -> Job {
    job("auth: values of its metadata", move |rec: &mut Rec| {
        // an expression per action set: a check is made if it holds
        let mut sets = vec![];
        let mut all = vec![];
        for m in metas() {
            let mut t = vec![];
            truths("auth", &json!({"identity": m["identity"], "metadata": m["metadata"], "z": m["z"]}).as_object().into_iter().flatten().filter(|(_, v)| !v.is_null()).map(|(k, v)| (k.clone(), v.clone())).collect::<serde_json::Map<_, _>>().into(), &mut t);
            for (expr, holds) in t {
                for typed in [false, true] {
                    let second = if typed {
                        json!({"type": "deny", "predicate": expr, "terminal": true, "execution": "sequential", "denyWith": "DenyResponse{status: 418u}"})
                    } else {
                        json!({"service": Check.service(false), "scope": "s", "predicates": [expr]})
                    };
                    sets.push(vec![json!({"service": Auth.service(false), "scope": "s"}), second]);
                    all.push((m.clone(), expr.clone(), holds, typed));
                }
            }
        }
        let Some(mut sess) = session(rec, &config(&json!({}), &sets)) else { return };
        rec.sample(json!({"expressions": all.len(), "such as": all[7].1, "of": all[7].0}));
        rec.explore(|ch, st| {
            let i = ch.pick(all.len());
            let (m, expr, holds, typed) = &all[i];
            let id = sess.open(base_stream(&host_of(i), "/toys"));
            let r = (|| {
                let o = sane(sess.vm.request_headers(id, true))?;
                let [c] = o.calls.as_slice() else { return bad(format!("{} calls at first", o.calls.len())) };
                the_call(c, Auth, false)?;
                let ok = CheckResponse { ok_response: Some(Okay::default()), dynamic_metadata: Some(struct_of(m)), ..Default::default() };
                let o = sane(sess.vm.reply(id, c.token, 0, Some(&ok.encode_to_vec())))?;
                st.transition();
                st.state(hash_of(&(m.to_string(), expr)));
                let done = if *typed { o.replies.len() == 1 && o.replies[0].status == 418 } else { o.calls.len() == 1 && o.replies.is_empty() };
                let nothing = o.calls.is_empty() && o.replies.is_empty() && o.resume_req == 1;
                if *holds && !done || !*holds && !nothing {
                    return bad(format!("must be {holds}: calls {:?}, answered {:?}", o.calls, o.replies));
                }
                Ok(())
            })();
            sess.forget(id);
            r.map_err(|(e, l)| (format!("{m}, {expr}: {e}"), l))
        });
    })
}

fn c23(thorough: bool) -> Vec<Job> {
    let mut v = vec![];
    for (i, (data, meta)) in auth_data().into_iter().enumerate() {
        let n = 1 + usize::from(i < 3) + usize::from(thorough);
        v.push(auth_sent(format!("auth: request data {i}"), data, meta, who(n).into_iter().filter(|w| match i {
            // what the data is about stays as it is
            1 => w.headers == who(0)[0].headers,
            2 => w.method == "GET",
            _ => true,
        }).collect()));
    }
    v.push(auth_unknown());
    v.push(auth_answered());
    v.push(auth_values());
    let all = [Step::Ask(Auth), Step::Ask(Limit), Step::Later];
    let mut lists: Vec<Vec<Step>> = vec![vec![]];
    for _ in 0..if thorough { 4 } else { 3 } {
        lists = lists.iter().flat_map(|l| all.iter().map(move |s| l.iter().copied().chain([*s]).collect())).collect();
        v.extend(lists.iter().filter(|l: &&Vec<Step>| l.contains(&Step::Ask(Auth))).cloned().map(in_a_row));
    }
    v
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C22",
        level: "model_checking",
        rule: "for every limiter service type and failureMode: every data item (static, expression, well-known keys, failing ones) and pair of items, in one block or two, every combination of action predicates and up to two blocks' predicates, request data, scopes with special characters, what is sent being decoded by an independent reader and compared field by field; every answer (codes, header lists, statuses, gRPC errors, damaged); and every list of two or three (thorough: four) actions over limit, check, report, report of the response and auth, with every order of callbacks and answers of every kind",
        assumptions: &[
            "several items for one well-known key, and such items in a block that does not apply, are left open",
            "expressions of another type than string, number, timestamp or duration fail, as string() of the expression library does",
            "an answer of no bytes is left open, a failing report with failureMode deny is C02's",
            "the order of the request data's entries is left open",
        ],
        jobs: c22,
    },
    Prop {
        id: "C23",
        level: "model_checking",
        rule: "what is sent for every request in which one or two (thorough: up to three) of method, path, host, scheme, protocol, time, source, destination and headers has an unusual value, for every kind of request data, scope, predicates and failureMode, decoded by an independent reader and compared field by field; any two attributes missing or failing; every answer (denied with statuses x headers x body, OK with headers and every combination of unsupported fields, neither, gRPC errors, damaged, with and without metadata); the truth of expressions over every part of metadata of every shape in later actions; and every list of up to three (thorough: four) actions over auth, limit and report with every order of callbacks and answers",
        assumptions: &[
            "request data that refers to auth values is sent as the expression, that to the response body not at all",
            "statuses outside 200..599 may be answered with any status",
            "attributes that are not available yet and may come are C26's; HeaderValueOption.append is C11's",
        ],
        jobs: c23,
    }]
}

// ---------------------------------------------------------------- C22: what the request body says

/// A use of the fields /m and /n of the request body by an action.
#[derive(Clone, Copy, Debug)]
struct Reads {
    /// a predicate of the action, of its conditional data, an entry, the addend
    predicate: bool,
    condition: bool,
    entry: bool,
    addend: bool,
}

impl Reads {
    fn json(&self, kind: Kind, allow: bool) -> Value {
        let mut a = json!({"service": kind.service(allow), "scope": "first"});
        let m = "requestBodyJSON('/m') == 'x'";
        if self.predicate {
            a["predicates"] = json!([T, m]);
        }
        let mut data = vec![json!({"static": {"key": "k", "value": "v"}})];
        if self.entry {
            data.push(json!({"expression": {"key": "model", "value": "requestBodyJSON('/m')"}}));
        }
        if self.addend {
            data.push(json!({"expression": {"key": HITS, "value": "requestBodyJSON('/n')"}}));
        }
        let mut block = json!({"data": data});
        if self.condition {
            block["predicates"] = json!([m]);
        }
        a["conditionalData"] = json!([block]);
        a
    }

    /// None: no call. Some(None): a failed call.
    fn expected(&self, m: Option<&str>, n: Option<u32>) -> Option<Option<RateLimitRequest>> {
        if self.predicate || self.condition {
            match m {
                None => return Some(None),
                Some("x") => {}
                Some(_) => return None,
            }
        }
        let mut entries = vec![Entry { key: "k".into(), value: "v".into() }];
        if self.entry {
            let Some(m) = m else { return Some(None) };
            entries.push(Entry { key: "model".into(), value: m.into() });
        }
        let mut hits_addend = 1;
        if self.addend {
            let Some(n) = n else { return Some(None) };
            hits_addend = n;
        }
        Some(Some(RateLimitRequest { domain: "first".into(), hits_addend, descriptors: vec![Descriptor { entries }] }))
    }
}

/// A request whose body comes in chunks; calls are answered with an OK at once.
fn body_read(sess: &mut Session, host: &str, reads: Reads, kind: Kind, allow: bool, body: &(String, Option<&'static str>, Option<u32>), ch: &mut Ch, log: &mut Vec<String>) -> Result<(), Fail> {
    let (text, m, n) = body;
    let want = reads.expected(*m, *n);
    let id = sess.open(base_stream(host, "/toys"));
    let cut = ch.pick(text.len() + 1);
    let trailing = ch.flip();
    let mut chunks: Vec<(&[u8], bool)> = vec![];
    if cut > 0 {
        chunks.push((&text.as_bytes()[..cut], cut == text.len() && !trailing));
    }
    if cut < text.len() {
        chunks.push((&text.as_bytes()[cut..], !trailing));
    }
    if trailing || text.is_empty() {
        chunks.push((b"", true));
    }
    let (mut first, mut after, mut status) = (0, 0, None);
    let r = (|| {
        let mut held: Vec<u8> = vec![];
        for k in 0..=chunks.len() {
            let mut o = if k == 0 {
                log.push("request headers".into());
                sane(sess.vm.request_headers(id, false))?
            } else {
                let (c, last) = chunks[k - 1];
                held.extend_from_slice(c);
                log.push(format!("chunk {:?}, last {last}", String::from_utf8_lossy(c)));
                sane(sess.vm.request_body(id, &held, last))?
            };
            let mut paused = o.pause == Some(true);
            let mut due: Vec<u32> = vec![];
            loop {
                if let Some(r) = o.replies.first() {
                    status = Some(r.status);
                    if o.replies.len() > 1 {
                        return bad("answered twice");
                    }
                }
                for c in &o.calls {
                    let Some(is) = exactly::<RateLimitRequest>(&c.message).map(|r| canonical(r, false)) else { return bad("no rate limit request") };
                    log.push(format!("call {is:?}"));
                    due.push(c.token);
                    if is.domain == "after" {
                        after += 1;
                        continue;
                    }
                    first += 1;
                    the_call(c, kind, allow)?;
                    if kind.guards() && after > 0 {
                        return bad("the action behind it was asked first");
                    }
                    if want != Some(Some(is.clone())) {
                        return bad(format!("sent {is:?}, must be {want:?}"));
                    }
                }
                let Some(t) = (!due.is_empty()).then(|| due.remove(0)) else { break };
                let ok = RateLimitResponse { overall_code: 1, ..Default::default() }.encode_to_vec();
                o = sane(sess.vm.reply(id, t, 0, Some(&ok)))?;
                if o.resume_req > 0 {
                    paused = false;
                }
            }
            if status.is_some() {
                break;
            }
            if paused {
                return bad("held though nothing is under way");
            }
            held.clear();
        }
        let fails = want == Some(None);
        let want_first = usize::from(matches!(want, Some(Some(_))));
        let refused = fails && !allow;
        if first != want_first || status != refused.then_some(500) {
            return bad(format!("{first} calls made, answered {status:?}; must be {want:?}"));
        }
        // the one behind a guard is not asked when that refuses
        if after != usize::from(!refused) && (kind.guards() || !refused) {
            return bad(format!("the action behind it is asked {after} times"));
        }
        Ok(())
    })();
    sess.forget(id);
    r
}

fn reads_body(thorough: bool) -> Vec<Job> {
    let mut v = vec![];
    for kind in LIMITERS {
        for allow in [false, true] {
            v.push(job(format!("request body: {kind:?}, fails {}", if allow { "open" } else { "closed" }), move |rec: &mut Rec| {
                let mut all = vec![];
                for i in 1..16 {
                    all.push(Reads { predicate: i & 1 > 0, condition: i & 2 > 0, entry: i & 4 > 0, addend: i & 8 > 0 });
                }
                let after = json!({"service": Check.service(true), "scope": "after"});
                let sets: Vec<Vec<Value>> = all.iter().map(|r| vec![r.json(kind, allow), after.clone()]).collect();
                let Some(mut sess) = session(rec, &config(&json!({}), &sets)) else { return };
                rec.sample(json!(sets[5]));
                let mut bodies: Vec<(String, Option<&'static str>, Option<u32>)> = vec![];
                for m in [Some("x"), Some("yy"), None] {
                    for n in [Some(3), None] {
                        let a = m.map(|m| format!("\"m\":\"{m}\""));
                        let b = n.map(|n| format!("\"n\": {n}"));
                        let mut parts: Vec<String> = a.into_iter().chain(b).collect();
                        bodies.push((format!("{{{}}}", parts.join(",")), m, n));
                        if thorough {
                            parts.insert(0, "\"o\":{\"m\":[1]}".into());
                            parts.reverse();
                            bodies.push((format!("{{{}}}", parts.join(" , ")), m, n));
                        }
                    }
                }
                bodies.push(("hello".into(), None, None));
                bodies.push((String::new(), None, None));
                rec.explore(|ch, st| {
                    let i = ch.pick(all.len());
                    let b = &bodies[ch.pick(bodies.len())];
                    let mut log = vec![];
                    st.transition();
                    let r = body_read(&mut sess, &host_of(i), all[i], kind, allow, b, ch, &mut log);
                    st.state(hash_of(&format!("{i} {b:?} {log:?}")));
                    r.map_err(|(e, _)| (format!("{} of {:?}: {e}", sets[i][0], b.0), log))
                });
            }));
        }
    }
    v
}

fn c22(thorough: bool) -> Vec<Job> {
    let mut v = sent(thorough);
    v.extend(LIMITERS.map(answered));
    v.extend(rows(thorough));
    v.extend(reads_body(thorough));
    v
}
