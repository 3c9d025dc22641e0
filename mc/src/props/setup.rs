//! C27: which configurations are accepted, what their durations mean, and
//! what fields that are left out stand for.
use super::lab::{self, Session};
use super::robust::{denied_reply, drive, good_answer, Exchange};
use super::Prop;
use crate::dfs::Ch;
use crate::envoy::*;
use crate::pipe;
use crate::proto;
use crate::report::{bad, hash_of, job, Fail, Job, Rec, Stats};
use crate::vm::{base_stream, set_prop, val, Vm};
use prost::Message;
use proxy_wasm::host;
use serde_json::{json, Value};
use std::collections::BTreeSet;

// ---------------------------------------------------------------- a configuration with every field

const HOSTS: &[&str] = &["typed.com", "legacy.com", "more.com"];

fn full() -> Value {
    let service = |t: &str| json!({"type": t, "endpoint": format!("c-{t}"), "failureMode": "deny", "timeout": "20ms"});
    let mut dynamic = service("dynamic");
    dynamic["grpcService"] = json!("mc.Svc");
    dynamic["grpcMethod"] = json!("Call");
    let mut lenient = dynamic.clone();
    lenient["endpoint"] = json!("c-lenient");
    lenient["failureMode"] = json!("allow");
    let action = |t: &str, predicate: &str, terminal: bool, more: Value| {
        let mut a = json!({"type": t, "predicate": predicate, "terminal": terminal, "isGuard": true, "execution": "parallel", "sources": []});
        a.as_object_mut().unwrap().extend(more.as_object().unwrap().clone());
        a
    };
    let typed = vec![
        action("store", "true", false, json!({"path": "kept.path", "value": "request.path", "exportToHost": false})),
        action("grpc", "request.method == 'GET'", false, json!({"var": "first", "service": "dyn", "messageBuilder": "mc.Req { tag: 'first', data: kept.path }", "label": "", "onReply": [
            action("deny", "first.code >= 400u", true, json!({"denyWith": "DenyResponse { status: first.code, body: first.text }"})),
            action("headers", "true", false, json!({"target": "request", "headers": "[['x-first', first.text]]"})),
            action("store", "true", false, json!({"path": "kept.text", "value": "first.text", "exportToHost": true})),
            action("grpc", "first.text == 'more'", false, json!({"var": "nested", "service": "lenient", "messageBuilder": "mc.Req { tag: 'nested' }", "label": "n", "onReply": []})),
        ]})),
        action("grpc", "true", false, json!({"var": "second", "service": "lenient", "messageBuilder": "mc.Req { tag: 'second' }", "label": "l", "onReply": []})),
        action("headers", "true", false, json!({"target": "response", "headers": "[['x-kept', kept.text]]"})),
        action("fail", "request.method == 'PUT'", true, json!({"logMessage": "put"})),
        action("deny", "request.path == '/none'", true, json!({"denyWith": "DenyResponse { status: 404u }"})),
    ];
    let item = |k: &str, v: &str| json!({"expression": {"key": k, "value": v}});
    let legacy = vec![
        json!({"service": "auth", "scope": "as", "predicates": ["request.method == 'GET'"], "conditionalData": [], "sources": []}),
        json!({"service": "limit", "scope": "ls", "predicates": [], "sources": [], "conditionalData": [
            {"predicates": [], "data": [item("path", "request.path"), json!({"static": {"key": "k", "value": "v"}})]},
            {"predicates": ["auth.identity.user == 'u'", "request.path != '/x'"], "data": [item("user", "auth.identity.user")]},
            {"predicates": [], "data": []},
        ]}),
    ];
    let more = vec![
        json!({"service": "check", "scope": "cs", "predicates": [], "sources": [], "conditionalData": [{"predicates": ["true"], "data": [item("ratelimit.hits_addend", "1"), item("p", "request.path")]}]}),
        json!({"service": "report", "scope": "rs", "predicates": ["request.path.startsWith('/')"], "sources": [], "conditionalData": [{"predicates": [], "data": [item("p", "request.path")]}]}),
    ];
    json!({
        "requestData": {},
        "services": {"auth": service("auth"), "limit": service("ratelimit"), "check": service("ratelimit-check"), "report": service("ratelimit-report"),
                     "trace": service("tracing"), "dyn": dynamic, "lenient": lenient},
        "observability": {},
        "descriptorService": "kuadrant-operator-grpc",
        "actionSets": [
            {"name": "typed", "routeRuleConditions": {"hostnames": [HOSTS[0]], "predicates": ["request.path != '/other'"]}, "actions": typed},
            {"name": "legacy", "routeRuleConditions": {"hostnames": [HOSTS[1]], "predicates": []}, "actions": legacy},
            {"name": "more", "routeRuleConditions": {"hostnames": [HOSTS[2], "more.org"], "predicates": []}, "actions": more},
        ],
    })
}

/// What a field stands for when it is left out.
fn default_of(key: &str) -> Option<Value> {
    Some(match key {
        "failureMode" => json!("deny"),
        "timeout" => json!("20ms"),
        "isGuard" => json!(true),
        "execution" => json!("parallel"),
        "exportToHost" => json!(false),
        "label" => json!(""),
        "sources" | "onReply" | "predicates" | "conditionalData" | "data" => json!([]),
        "requestData" | "observability" => json!({}),
        "descriptorService" => json!("kuadrant-operator-grpc"),
        _ => return None,
    })
}

/// Every place of the configuration, with the key it is found under.
fn places(v: &Value) -> Vec<(String, String)> {
    fn walk(v: &Value, at: &str, key: &str, out: &mut Vec<(String, String)>) {
        if !at.is_empty() {
            out.push((at.to_string(), key.to_string()));
        }
        match v {
            Value::Object(m) => m.iter().for_each(|(k, x)| walk(x, &format!("{at}/{k}"), k, out)),
            // what a list holds goes by the name of the list
            Value::Array(l) => l.iter().enumerate().for_each(|(i, x)| walk(x, &format!("{at}/{i}"), &format!("{key}[]"), out)),
            _ => {}
        }
    }
    let mut out = vec![];
    walk(v, "", "", &mut out);
    out
}

fn remove(v: &mut Value, at: &str) {
    let (parent, key) = at.rsplit_once('/').unwrap();
    match v.pointer_mut(parent) {
        Some(Value::Object(m)) => {
            m.remove(key);
        }
        Some(Value::Array(l)) => {
            l.remove(key.parse().unwrap());
        }
        _ => {}
    }
}

fn set_at(v: &mut Value, at: &str, x: Value) {
    *v.pointer_mut(at).unwrap() = x;
}

/// The last segments of the path of names.
fn under(at: &str, name: &str) -> bool {
    at.split('/').rev().nth(1) == Some(name)
}

fn boot(cfg: &str) -> Result<Session, Fail> {
    Session::with(cfg, &proto::file_set()).map_err(|e| (e, vec![cfg.chars().take(4000).collect()]))
}

/// Is the configuration accepted?
fn accepted(s: &mut Session, cfg: &[u8]) -> Result<bool, Fail> {
    let (ok, o) = s.vm.configure_bytes(cfg);
    match o.panicked {
        Some(p) => Err((format!("panic while configuring: {p}"), vec![String::from_utf8_lossy(cfg).chars().take(4000).collect()])),
        None => Ok(ok),
    }
}

fn want(s: &mut Session, cfg: &Value, ok: bool, what: &str) -> Result<(), Fail> {
    let text = cfg.to_string();
    match accepted(s, text.as_bytes())? {
        x if x == ok => Ok(()),
        true => Err((format!("accepted: {what}"), vec![text])),
        false => Err((format!("refused: {what}"), vec![text])),
    }
}

// ---------------------------------------------------------------- behaviour

fn exchange(set: usize) -> Exchange {
    let mut s = base_stream(HOSTS[set], "/toys");
    set_prop(&mut s, "request.id", val("rid-1"));
    Exchange { stream: s, req: vec![], resp: vec![b"{}".to_vec()] }
}

/// How each call is answered: as hoped, with a denial, or not at all.
const ANSWERS: &[&str] = &["good", "denied", "failed"];

fn behaviour(s: &mut Session, answers: &[usize], st: &mut Stats) -> Result<Vec<String>, Fail> {
    let mut seen = vec![];
    for set in 0..HOSTS.len() {
        let mut n = 0;
        let mut answer = |c: &crate::vm::Call| {
            let a = answers[n % answers.len()];
            n += 1;
            match ANSWERS[a] {
                "failed" => (14, None, None),
                "denied" => match c.service.as_str() {
                    "envoy.service.auth.v3.Authorization" => (0, Some(denied_reply()), None),
                    "mc.Svc" => (0, Some(proto::Resp { code: 403, text: "more".into(), hdrs: vec![] }.encode_to_vec()), None),
                    _ => (0, Some(RateLimitResponse { overall_code: 2, ..Default::default() }.encode_to_vec()), None),
                },
                _ => match c.service.as_str() {
                    "mc.Svc" => (0, Some(proto::Resp { code: 200, text: "more".into(), hdrs: vec![] }.encode_to_vec()), None),
                    _ => good_answer(c),
                },
            }
        };
        let (r, o) = drive(s, &exchange(set), &mut answer, st);
        r?;
        seen.extend(o.into_iter().map(|l| format!("{}: {l}", HOSTS[set])));
    }
    Ok(seen)
}

fn all_answers() -> Vec<Vec<usize>> {
    let mut out = vec![];
    for a in 0..3 {
        for b in 0..3 {
            for c in 0..3 {
                out.push(vec![a, b, c]);
            }
        }
    }
    out
}

fn usual(rec: &mut Rec, base: &Value, answers: &[Vec<usize>]) -> Option<Vec<Vec<String>>> {
    let mut s = match boot(&base.to_string()) {
        Ok(s) => s,
        Err((w, l)) => {
            rec.violation(w, l, vec![]);
            return None;
        }
    };
    let mut out = vec![];
    for a in answers {
        match behaviour(&mut s, a, &mut rec.stats) {
            Ok(x) => out.push(x),
            Err((w, l)) => {
                rec.violation(format!("the configuration itself: {w}"), l, vec![]);
                return None;
            }
        }
    }
    Some(out)
}

fn same(cfg: &Value, what: &str, answers: &[Vec<usize>], usual: &[Vec<String>], st: &mut Stats) -> Result<(), Fail> {
    let mut s = boot(&cfg.to_string()).map_err(|(w, l)| (format!("{what}: {w}"), l))?;
    for (a, u) in answers.iter().zip(usual) {
        let seen = behaviour(&mut s, a, st)?;
        if &seen != u {
            let at = seen.iter().zip(u).position(|(a, b)| a != b).unwrap_or(seen.len().min(u.len()));
            let names: Vec<_> = a.iter().map(|i| ANSWERS[*i]).collect();
            return Err((
                format!("{what}: another behaviour"),
                vec![format!("answers {names:?}"), format!("has {:?}", seen.get(at)), format!("should have {:?}", u.get(at)), cfg.to_string()],
            ));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- defaults

/// Where a field has the value it has by default.
fn optional() -> Vec<String> {
    let v = full();
    places(&v).into_iter().filter(|(at, key)| default_of(key).as_ref() == v.pointer(at) && !under(at, "requestData")).map(|x| x.0).collect()
}

fn without(drop: &[&String]) -> Value {
    let mut v = full();
    let mut drop = drop.to_vec();
    // inner ones first
    drop.sort_by_key(|p| std::cmp::Reverse(p.len()));
    for at in drop {
        if v.pointer(at).is_some() {
            remove(&mut v, at);
        }
    }
    v
}

fn default_jobs(thorough: bool) -> Vec<Job> {
    let mut jobs = vec![];
    let parts = if thorough { 16 } else { 8 };
    for part in 0..parts {
        jobs.push(job(format!("fields left out, {part}"), move |rec: &mut Rec| {
            let answers = all_answers();
            let Some(usual) = usual(rec, &full(), &answers) else { return };
            let opt = optional();
            rec.sample(json!({"fields": opt.clone()}));
            rec.explore(|ch, st| {
                // up to two of them, or all but up to one
                let a = ch.pick(opt.len() + 1);
                if a % parts != part {
                    return Ok(());
                }
                let b = if thorough { ch.pick(a + 1) } else { a };
                let rest = ch.flip();
                let picked: Vec<usize> = [a, b].into_iter().filter(|i| *i < opt.len()).collect();
                let drop: Vec<&String> = opt.iter().enumerate().filter(|(i, _)| picked.contains(i) != rest).map(|x| x.1).collect();
                let names: Vec<_> = picked.iter().map(|i| &opt[*i]).collect();
                let what = format!("{} {names:?}", if rest { "all optional fields left out but" } else { "left out" });
                st.state(hash_of(&drop));
                same(&without(&drop), &what, &answers, &usual, st)
            });
        }));
    }
    // by kind of field
    let kinds: Vec<&'static str> = vec!["failureMode", "timeout", "isGuard", "execution", "exportToHost", "label", "sources", "onReply", "predicates", "conditionalData", "data", "requestData", "observability", "descriptorService"];
    jobs.push(job("kinds of fields left out", move |rec: &mut Rec| {
        let answers: Vec<Vec<usize>> = if thorough { all_answers() } else { vec![vec![0], vec![1], vec![2], vec![0, 2], vec![2, 0]] };
        let Some(usual) = usual(rec, &full(), &answers) else { return };
        let opt = optional();
        rec.explore(|ch, st| {
            let mut left: Vec<&str> = vec![];
            for k in &kinds {
                // the ones that matter least go together
                let least = ["onReply", "data", "observability"].contains(k);
                let go = if least { left.contains(&"sources") } else if !thorough && ["conditionalData", "requestData", "label"].contains(k) { left.contains(&"timeout") } else { ch.flip() };
                if go {
                    left.push(k);
                }
            }
            let drop: Vec<&String> = opt.iter().filter(|at| left.iter().any(|k| at.ends_with(&format!("/{k}")))).collect();
            st.state(hash_of(&drop));
            same(&without(&drop), &format!("left out {left:?}"), &answers, &usual, st)
        });
    }));
    // a service that is no tracing service is not asked to trace
    jobs.push(job("tracing service", |rec: &mut Rec| {
        let answers: Vec<Vec<usize>> = vec![vec![0], vec![1], vec![2]];
        let mut v = full();
        v["observability"] = json!({"httpHeaderIdentifier": "x-request-id"});
        let Some(usual) = usual(rec, &v, &answers) else { return };
        rec.explore(|ch, st| {
            let name = *["nosuch", "auth", "limit", "check", "report", "dyn", "lenient"].get(ch.pick(7)).unwrap();
            let mut c = v.clone();
            c["observability"]["tracing"] = json!({"service": name});
            st.state(hash_of(&name));
            if accepted(&mut fresh(), c.to_string().as_bytes())? {
                same(&c, &format!("tracing service {name}"), &answers, &usual, st)?;
            }
            Ok(())
        });
    }));
    jobs.push(job("descriptor service", |rec: &mut Rec| {
        rec.explore(|ch, st| {
            let name = *[None, Some("kuadrant-operator-grpc"), Some("c-desc"), Some("a b"), Some("")].get(ch.pick(5)).unwrap();
            let mut v = full();
            match name {
                None => remove(&mut v, "/descriptorService"),
                Some(n) => set_at(&mut v, "/descriptorService", json!(n)),
            }
            host::reset();
            let mut vm = Vm::new();
            let (ok, o) = vm.configure(&v.to_string());
            let o = lab::sane(o)?;
            st.transition();
            st.state(hash_of(&name));
            if !ok {
                return bad(format!("refused with descriptorService {name:?}"));
            }
            let mut calls = o.calls;
            if calls.is_empty() {
                calls = lab::sane(vm.tick())?.calls;
            }
            match calls.as_slice() {
                [c] if c.upstream == name.unwrap_or("kuadrant-operator-grpc") => Ok(()),
                [] => bad("descriptors were not asked for"),
                c => bad(format!("descriptorService {name:?}, asked {:?}", c.iter().map(|c| &c.upstream).collect::<Vec<_>>())),
            }
        });
    }));
    jobs
}

// ---------------------------------------------------------------- faults

const BAD_EXPRESSIONS: &[&str] = &["", " ", "(", ")", "true) || (true", "true) && (true", "a b", "1 +", "'x", "true ? 1", "[1", "{'a'}", "a.", "a..b", "a[", "// true", "true;", "\u{0}", "@", "a = b", "'a' + 'b", "1 2", "true, true"];

fn is_expression(at: &str, key: &str) -> bool {
    matches!(key, "predicate" | "messageBuilder" | "denyWith" | "headers" | "predicates[]") || (key == "value" && !under(at, "static"))
}

fn faults() -> Vec<(String, Value)> {
    let v = full();
    let mut out: Vec<(String, Value)> = vec![];
    let base = v.clone();
    let mut add = |what: String, at: &str, x: Value| {
        let mut c = base.clone();
        set_at(&mut c, at, x);
        out.push((what, c));
    };
    let mut gone = vec![];
    for (at, key) in places(&v) {
        let at = at.as_str();
        let here = v.pointer(at).unwrap();
        let listed = key.ends_with("[]");
        let named = under(at, "services") || under(at, "requestData");
        let optional = default_of(&key).is_some();
        // what is required
        if !optional && !listed && !named {
            gone.push((format!("{at} left out"), at.to_string()));
        }
        if named && !["trace"].contains(&key.as_str()) {
            gone.push((format!("{at}, which is used, left out"), at.to_string()));
        }
        // values of another type
        for x in [json!(7), json!(true), json!("x"), json!([]), json!({}), json!([{}]), json!([7]), json!({"a": 7}), json!(null), json!(1.5)] {
            let kind = |v: &Value| std::mem::discriminant(v);
            // an empty list stands for a block with no fields
            if kind(&x) == kind(here) || (optional && x.is_null()) || (key == "conditionalData[]" && x == json!([])) {
                continue;
            }
            add(format!("{at} is {x}"), at, x);
        }
        // names that exist, but not as spelt, and such that do not
        if matches!(key.as_str(), "type" | "failureMode" | "execution" | "target") {
            let t = here.as_str().unwrap();
            let mut cap = t.to_string();
            cap[..1].make_ascii_uppercase();
            for x in [t.to_uppercase(), cap, format!("{t} "), format!("{t}s"), String::new(), "unknown".into(), t[1..].to_string()] {
                add(format!("{at} is '{x}'"), at, json!(x));
            }
        }
        if is_expression(at, &key) {
            for x in BAD_EXPRESSIONS {
                add(format!("{at} is {x:?}"), at, json!(x));
            }
        }
        if key == "service" {
            for x in ["", "nosuch", "Auth", "trace", " auth"] {
                add(format!("{at} is '{x}'"), at, json!(x));
            }
            // legacy actions are for the services they were made for
            if v.pointer(&at.replace("/service", "/scope")).is_some() {
                add(format!("{at} is a dynamic service, of a legacy action"), at, json!("dyn"));
            }
        }
        if key == "timeout" {
            for x in ["", "20", "20 ms", "ms", "20mss", "20ms ", " 20ms", "20xs", "1h 30m", "-20ms", "20msfoo", "5min", "1sec", "1d", "20MS", "1_0ms", "0x1ms", "nans", "infs", "1e3ms", "+20ms", ".5s", "5.s", "1,5s", "٣ms"] {
                add(format!("{at} is '{x}'"), at, json!(x));
            }
        }
        if key == "execution" && at.contains("onReply") {
            add(format!("{at} is 'sequential'"), at, json!("sequential"));
        }
        // a data item is one thing
        if key == "data[]" {
            let one = |k: &str| json!({"key": k, "value": "'v'"});
            for (what, x) in [
                ("both", json!({"static": one("a"), "expression": one("b")})),
                ("neither", json!({})),
                ("unknown", json!({"computed": one("a")})),
                ("more", json!({"static": one("a"), "computed": one("b")})),
                ("bare", one("a")),
            ] {
                add(format!("{at}: {what}"), at, x);
            }
        }
    }
    for (what, at) in gone {
        let mut c = v.clone();
        remove(&mut c, &at);
        out.push((what, c));
    }
    // fields of services that are not there otherwise
    for t in ["dynamic"] {
        for (a, b) in [(None, None), (Some("mc.Svc"), None), (None, Some("Call"))] {
            let mut c = v.clone();
            let mut s = json!({"type": t, "endpoint": "c-x"});
            if let Some(a) = a {
                s["grpcService"] = json!(a);
            }
            if let Some(b) = b {
                s["grpcMethod"] = json!(b);
            }
            c["services"]["unused"] = s;
            out.push((format!("a dynamic service with {a:?} and {b:?}"), c));
        }
    }
    out
}

fn fault_jobs(thorough: bool) -> Vec<Job> {
    let parts = 8;
    let mut jobs: Vec<Job> = (0..parts)
        .map(|part| {
            job(format!("faults, {part}"), move |rec: &mut Rec| {
                let all = faults();
                let n = all.len();
                let mut s = fresh();
                rec.sample(json!({"faults": n, "of them": all.iter().skip(part).step_by(parts * 40).map(|x| &x.0).collect::<Vec<_>>()}));
                rec.explore(|ch, st| {
                    let i = ch.pick(n);
                    if i % parts != part {
                        return Ok(());
                    }
                    st.state(hash_of(&all[i].0));
                    st.transition();
                    want(&mut s, &all[i].1, false, &all[i].0)
                });
            })
        })
        .collect();
    jobs.push(job("cut off or followed by something", move |rec: &mut Rec| {
        let text = full().to_string().into_bytes();
        let step = if thorough { 1 } else { 3 };
        let mut s = fresh();
        let after: Vec<&[u8]> = vec![b"x", b"{}", b"}", b",", b"null", b"\0", b"\xff", b"]"];
        rec.explore(|ch, st| {
            let i = ch.pick(text.len() / step + after.len() + 4);
            let bytes = if i < text.len() / step {
                text[..i * step].to_vec()
            } else if i < text.len() / step + after.len() {
                [&text, after[i - text.len() / step]].concat()
            } else {
                match i - text.len() / step - after.len() {
                    0 => [b"\xff", text.as_slice()].concat(),
                    1 => text[1..].to_vec(),
                    2 => b"[]".to_vec(),
                    _ => b"null".to_vec(),
                }
            };
            st.state(hash_of(&bytes));
            st.transition();
            match accepted(&mut s, &bytes)? {
                false => Ok(()),
                true => Err(("accepted something that is not a configuration".into(), vec![String::from_utf8_lossy(&bytes).into_owned()])),
            }
        });
    }));
    jobs
}

// ---------------------------------------------------------------- ways to write the same

/// Expressions that mean the same as `e`.
fn variants(e: &str) -> Vec<String> {
    vec![
        format!("({e})"),
        format!(" {e}"),
        format!("{e} "),
        format!("\n{e}\n"),
        format!("\t{e}\r\n"),
        format!("{e} // as it is"),
        format!("// first\n{e}"),
        format!("{e}\n// )"),
        format!("true ? {e} : {e}"),
        format!("false ? {e} : {e}"),
        format!("[{e}][0]"),
    ]
}

fn variant_jobs(_thorough: bool) -> Vec<Job> {
    vec![job("ways to write an expression", |rec: &mut Rec| {
        let answers: Vec<Vec<usize>> = vec![vec![0], vec![1], vec![2]];
        let mut v = full();
        v["requestData"] = json!({"path": "request.path", "some.method": "request.method + '//'"});
        let Some(usual) = usual(rec, &v, &answers) else { return };
        let at: Vec<(String, String)> = places(&v).into_iter().filter(|(at, key)| is_expression(at, key) || under(at, "requestData")).collect();
        rec.sample(json!({"expressions": at.len()}));
        rec.explore(|ch, st| {
            let (at, _) = &at[ch.pick(at.len())];
            let e = v.pointer(at).unwrap().as_str().unwrap();
            let all = variants(e);
            let x = &all[ch.pick(all.len())];
            st.state(hash_of(&(at, x)));
            let mut c = v.clone();
            set_at(&mut c, at, json!(x));
            same(&c, &format!("{at} is {x:?}"), &answers, &usual, st)
        });
    })]
}

// ---------------------------------------------------------------- durations

/// Nanoseconds, where the text follows the notation; the sign apart.
fn duration(text: &str) -> Option<(bool, u128)> {
    let (neg, mut s) = match text.strip_prefix('-') {
        Some(r) => (true, r),
        None => (false, text),
    };
    let mut total = 0u128;
    let mut some = false;
    while !s.is_empty() {
        let digits = |s: &str| s.chars().take_while(|c| c.is_ascii_digit()).count();
        let n = digits(s);
        if n == 0 {
            return None;
        }
        let whole: u128 = s[..n].parse().ok()?;
        s = &s[n..];
        let mut frac = "";
        if let Some(r) = s.strip_prefix('.') {
            let n = digits(r);
            if n == 0 {
                return None;
            }
            frac = &r[..n];
            s = &r[n..];
        }
        let unit: u128 = [("ms", 1_000_000), ("us", 1_000), ("ns", 1), ("h", 3_600_000_000_000), ("m", 60_000_000_000), ("s", 1_000_000_000)]
            .iter()
            .find_map(|(u, n)| s.strip_prefix(u).map(|r| (r, *n)))
            .map(|(r, n)| {
                s = r;
                n
            })?;
        total = total.checked_add(whole.checked_mul(unit)?)?;
        if !frac.is_empty() {
            total += unit * frac.parse::<u128>().ok()? / 10u128.pow(frac.len() as u32);
        }
        some = true;
    }
    some.then_some((neg, total))
}

/// The timeouts of the calls of services with `text` as theirs.
fn timeouts(s: &mut Session, text: &str, all: bool) -> Result<Option<Vec<u64>>, Fail> {
    let service = |t: &str| json!({"type": t, "endpoint": "c", "timeout": text, "grpcService": "mc.Svc", "grpcMethod": "Call"});
    let set = |h: &str, a: Value| json!({"name": h, "routeRuleConditions": {"hostnames": [h]}, "actions": a});
    let data = json!([{"data": [{"static": {"key": "k", "value": "v"}}]}]);
    let mut services = json!({"auth": service("auth")});
    let mut sets = vec![set("a.com", json!([{"service": "auth", "scope": "s"}]))];
    let mut hosts = vec!["a.com"];
    if all {
        for (name, t, h) in [("limit", "ratelimit", "l.com"), ("check", "ratelimit-check", "c.com"), ("report", "ratelimit-report", "r.com")] {
            services[name] = service(t);
            sets.push(set(h, json!([{"service": name, "scope": "s", "conditionalData": data}])));
            hosts.push(h);
        }
    }
    let cfg = json!({"services": services, "actionSets": sets});
    let (ok, o) = s.vm.configure(&cfg.to_string());
    lab::sane(o)?;
    if !ok {
        return Ok(None);
    }
    let mut out = vec![];
    for h in hosts {
        let id = s.open(base_stream(h, "/"));
        let mut o = lab::sane(s.vm.request_headers(id, true))?;
        if o.calls.is_empty() {
            o = lab::sane(s.vm.response_headers(id, true))?;
        }
        s.forget(id);
        match o.calls.as_slice() {
            [c] => out.push(c.timeout_ms as u64),
            _ => return bad(format!("timeout '{text}': no call for {h}")),
        }
    }
    Ok(Some(out))
}

fn fresh() -> Session {
    host::reset();
    Session::of(Vm::new())
}

fn check_duration(s: &mut Session, text: &str, all: bool, st: &mut Stats) -> Result<(), Fail> {
    st.state(hash_of(&text));
    st.transition();
    let got = timeouts(s, text, all)?;
    // zero needs no unit
    if matches!(text, "0" | "-0") {
        return Ok(());
    }
    match (duration(text), got) {
        (None, None) => Ok(()),
        (None, Some(t)) => bad(format!("timeout '{text}' was accepted as {t:?} ms")),
        (Some((true, n)), got) if n > 0 => match got {
            None => Ok(()),
            Some(t) => bad(format!("timeout '{text}' was accepted as {t:?} ms")),
        },
        // more than calls can have
        (Some((_, n)), None) if n / 1_000_000 > u32::MAX as u128 => Ok(()),
        (Some((_, 0)), None) if text.starts_with('-') => Ok(()),
        (Some(_), None) => bad(format!("timeout '{text}' was refused")),
        (Some((_, n)), Some(t)) => match t.iter().all(|t| *t as u128 == n / 1_000_000) {
            true => Ok(()),
            false => bad(format!("timeout '{text}' became {t:?} ms")),
        },
    }
}

fn duration_jobs(thorough: bool) -> Vec<Job> {
    const TOKENS: &[&str] = &["0", "7", "20", ".", "5", "-", "h", "m", "s", "ms", "us", "ns", " ", "e", "+", "d"];
    let mut jobs: Vec<Job> = (0..TOKENS.len())
        .map(|first| {
            job(format!("durations from {}", TOKENS[first]), move |rec: &mut Rec| {
                let more = lab::strings(TOKENS, if thorough { 4 } else { 2 });
                rec.sample(json!({"durations": more.len()}));
                let mut s = fresh();
                rec.explore(|ch, st| check_duration(&mut s, &format!("{}{}", TOKENS[first], more[ch.pick(more.len())]), false, st));
            })
        })
        .collect();
    for (unit, n) in [("s", 10_000u64), ("m", 2_000), ("h", 2_000), ("ms", 2_000)] {
        let parts = if thorough { 4 } else { 1 };
        for part in 0..parts {
            jobs.push(job(format!("durations with decimals of {unit}, {part}"), move |rec: &mut Rec| {
                let n = if thorough { n * 5 } else { n / 5 };
                let mut s = fresh();
                rec.explore(|ch, st| {
                    let i = ch.pick(n as usize) as u64 * if thorough { 1 } else { 7 };
                    if i % parts != part {
                        return Ok(());
                    }
                    check_duration(&mut s, &format!("{}.{:03}{unit}", i / 1000, i % 1000), false, st)
                });
            }));
        }
    }
    jobs.push(job("long durations", |rec: &mut Rec| {
        let all: Vec<String> = ["999999999999999999999999999h", "99999999999999h", "9223372036854775807ns", "9223372036854775808ns", "18446744073709551616ns", "4294967295ms", "4294967296ms", "1193h2m47.295s", "1194h", "2562047h", "2562048h", "1h30m", "1h30m1s", "1s500ms", "1m1m", "1ms1us1ns", "1.5h", "0.000000001h", "0.0000000000000000000000000000000000001h", "1000000us", "999us", "1h1m1s1ms1us1ns", "00000000000000000000000000000000000000000000001s"]
            .iter()
            .map(|s| s.to_string())
            .collect();
        let mut s = fresh();
        rec.explore(|ch, st| check_duration(&mut s, &all[ch.pick(all.len())], true, st));
    }));
    jobs
}

// ---------------------------------------------------------------- the documented samples

fn sample_jobs(_: bool) -> Vec<Job> {
    vec![
        job("the sample configuration", |rec: &mut Rec| {
            let cfg = json!({
                "services": {
                    "auth-service": {"type": "auth", "endpoint": "auth-cluster", "failureMode": "deny", "timeout": "10ms"},
                    "ratelimit-service": {"type": "ratelimit", "endpoint": "ratelimit-cluster", "failureMode": "allow"},
                    "tracing-service": {"type": "tracing", "endpoint": "tracing-cluster", "failureMode": "allow"},
                },
                "observability": {"httpHeaderIdentifier": "x-request-id", "defaultLevel": "INFO", "tracing": {"service": "tracing-service"}},
                "actionSets": [{
                    "name": "rlp-ns-A/rlp-name-A",
                    "routeRuleConditions": {"hostnames": ["*.toystore.com"], "predicates": ["request.url_path.startsWith(\"/get\")", "request.host == \"test.toystore.com\"", "request.method == \"GET\""]},
                    "actions": [
                        {"service": "auth-service", "scope": "auth-scope-a", "predicates": ["auth.identity.user_id == \"alice\""]},
                        {"service": "ratelimit-service", "scope": "ratelimit-scope-a", "conditionalData": [{"predicates": ["auth.identity.anonymous == true"], "data": [{"expression": {"key": "my_header", "value": "request.headers[\"my-custom-header\"]"}}]}]},
                    ],
                }],
            });
            rec.explore(|_, st| {
                st.transition();
                st.state(1);
                want(&mut fresh(), &cfg, true, "the sample configuration of the documentation")
            });
        }),
        job("the sample of typed actions", |rec: &mut Rec| {
            rec.explore(|ch: &mut Ch, st| {
                let kind = *["ratelimit", "dynamic"].get(ch.pick(2)).unwrap();
                let code = ch.pick(3) as i32;
                let mut service = json!({"type": kind, "endpoint": "c-limit", "failureMode": "deny"});
                if kind == "dynamic" {
                    service["grpcService"] = json!("envoy.service.ratelimit.v3.RateLimitService");
                    service["grpcMethod"] = json!("ShouldRateLimit");
                }
                let cfg = json!({
                    "services": {"ratelimit-service": service},
                    "actionSets": [{"name": "s", "routeRuleConditions": {"hostnames": ["*"]}, "actions": [{
                        "type": "grpc", "predicate": "request.method == 'GET'", "terminal": false, "var": "rl_check", "service": "ratelimit-service",
                        "messageBuilder": "envoy.service.ratelimit.v3.RateLimitRequest { domain: 'my-domain' }",
                        "onReply": [
                            {"type": "deny", "predicate": "rl_check.overall_code == 2", "terminal": true, "denyWith": "DenyResponse{status: 429u}"},
                            {"type": "headers", "predicate": "true", "terminal": false, "target": "response", "headers": "rl_check.response_headers_to_add"},
                        ]}]}],
                });
                let mut s = Session::of(pipe::boot_with(&cfg.to_string(), &crate::envoy::file_set()).map_err(|e| (e, vec![kind.into()]))?);
                let id = s.open(base_stream("x.com", "/"));
                let o = lab::sane(s.vm.request_headers(id, true))?;
                st.transition();
                let [c] = o.calls.as_slice() else { return bad(format!("{} calls", o.calls.len())) };
                if RateLimitRequest::decode(c.message.as_slice()).map(|m| m.domain) != Ok("my-domain".into()) || (c.upstream.as_str(), c.method.as_str(), c.timeout_ms) != ("c-limit", "ShouldRateLimit", 20) {
                    return bad(format!("another call: {c:?}"));
                }
                let answer = RateLimitResponse { overall_code: code, response_headers_to_add: vec![HeaderValue { key: "x-left".into(), value: "3".into() }, HeaderValue { key: "x-reset".into(), value: "60".into() }], ..Default::default() };
                let o = lab::sane(s.vm.reply(id, c.token, 0, Some(&answer.encode_to_vec())))?;
                st.transition();
                st.state(hash_of(&(kind, code)));
                if code == 2 {
                    return match o.replies.as_slice() {
                        [r] if r.status == 429 => Ok(()),
                        r => bad(format!("over the limit, and the replies were {r:?}")),
                    };
                }
                if !o.replies.is_empty() || o.resume_req != 1 {
                    return bad(format!("code {code}: replies {:?}, resumed {}", o.replies, o.resume_req));
                }
                lab::sane(s.vm.response_headers(id, true))?;
                let (_, resp) = s.vm.headers(id);
                for (k, v) in [("x-left", "3"), ("x-reset", "60")] {
                    if !resp.iter().any(|h| h.0 == k && h.1 == v) {
                        return bad(format!("the response has no {k}: {resp:?}"));
                    }
                }
                s.forget(id);
                Ok(())
            });
        }),
    ]
}

fn c27(thorough: bool) -> Vec<Job> {
    let mut jobs = duration_jobs(thorough);
    jobs.extend(default_jobs(thorough));
    jobs.extend(fault_jobs(thorough));
    jobs.extend(variant_jobs(thorough));
    jobs.extend(sample_jobs(thorough));
    // names of jobs are what findings go by
    debug_assert_eq!(jobs.iter().map(|j| j.name.clone()).collect::<BTreeSet<_>>().len(), jobs.len());
    jobs
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C27",
        level: "model_checking",
        rule: "one configuration with every documented field: each optional field left out, each kept alone, (thorough: pairs,) and every combination of kinds of fields, each x 27 sequences of answers on three action sets; every single fault at every place of it (left out, of each other JSON type, misspelt kinds, unknown services, 23 invalid expressions, sequential in onReply, malformed data items, cut off at every third byte); 11 ways to write each expression; all durations of up to three (thorough: five) tokens out of 16, and decimals of each unit; the documented samples",
        assumptions: &[
            "durations beyond what a call can carry (2^32 ms) may be refused or not, and below a millisecond are cut off",
            "unknown fields, null for optional fields, invalid requestData expressions and an unknown tracing service are left open",
        ],
        jobs: c27,
    }]
}
