//! C26 attributes, C28 gRPC requests, and the exported values of C10.
use super::lab::{self, lit, sane, strings, Session, V};
use super::Prop;
use crate::report::{bad, hash_of, job, Job, Rec, Stats};
use crate::vm::{base_stream, set_prop, set_prop_tokens, val};
use prost::Message;
use proxy_wasm::host::{self, Prop as P, Stream};
use serde_json::json;
use std::collections::BTreeMap;

fn s(x: &str) -> V {
    V::Str(x.into())
}

fn map(x: &[(&str, V)]) -> V {
    V::Map(x.iter().map(|(k, v)| (k.to_string(), v.clone())).collect())
}

fn blank() -> Stream {
    base_stream("a.test", "/")
}

/// What a store exports, undecoded.
fn exported(path: &str, expr: &str) -> Result<Vec<(Vec<String>, Vec<u8>)>, String> {
    let a = json!([{"type": "store", "predicate": "true", "terminal": false, "exportToHost": true,
                    "path": path, "value": expr}]);
    let mut x = Session::new(&lab::config_with(a))?;
    let id = x.open(blank());
    let o = x.vm.request_headers(id, true);
    if let Some(p) = o.panicked {
        return Err(format!("panic: {p}"));
    }
    Ok(o.props)
}

/// Values of every type that can be exported, as expressions.
fn values(depth: usize) -> Vec<(String, V)> {
    let mut v: Vec<(String, V)> = vec![
        ("null".into(), V::Null),
        ("true".into(), V::Bool(true)),
        ("false".into(), V::Bool(false)),
        ("0".into(), V::Num(0.0)),
        ("-1".into(), V::Num(-1.0)),
        ("9007199254740992".into(), V::Num(9007199254740992.0)),
        ("4294967296u".into(), V::Num(4294967296.0)),
        ("1.5".into(), V::Num(1.5)),
        ("-0.25".into(), V::Num(-0.25)),
        ("''".into(), s("")),
        ("'a'".into(), s("a")),
        ("'é€😀'".into(), s("é€😀")),
        (lit("a'\\\n"), s("a'\\\n")),
        ("b'ab'".into(), s("ab")),
        ("[]".into(), V::List(vec![])),
        ("{}".into(), map(&[])),
    ];
    for _ in 0..depth {
        let mut next = v.clone();
        for (i, (x, a)) in v.iter().enumerate() {
            let (y, b) = &v[(i + 5) % v.len()];
            next.push((format!("[{x}]"), V::List(vec![a.clone()])));
            next.push((format!("[{x}, {y}]"), V::List(vec![a.clone(), b.clone()])));
            next.push((format!("{{'k': {x}}}"), map(&[("k", a.clone())])));
            next.push((format!("{{'': {x}, 'é.b': {y}}}"), map(&[("", a.clone()), ("é.b", b.clone())])));
        }
        v = next;
    }
    v
}

pub fn exports(thorough: bool) -> Vec<Job> {
    let mut v = vec![];
    let all = values(if thorough { 2 } else { 1 });
    for part in all.chunks(25) {
        let part = part.to_vec();
        v.push(job(format!("exported value {}...", part[0].0), move |rec: &mut Rec| {
            for (x, want) in &part {
                rec.explore(|_, st: &mut Stats| {
                    st.transition();
                    st.state(hash_of(x));
                    let props = match exported("out", x) {
                        Ok(p) => p,
                        Err(e) => return bad(e),
                    };
                    let [(path, bytes)] = props.as_slice() else {
                        return bad(format!("{x}: exported {} times", props.len()));
                    };
                    if path != &vec!["kuadrant.out".to_string()] {
                        return bad(format!("{x}: exported as {path:?}"));
                    }
                    // a map is a Struct, everything else a Value
                    let got = if matches!(want, V::Map(_)) {
                        prost_types::Struct::decode(bytes.as_slice())
                            .map(|s| V::Map(s.fields.iter().map(|(k, v)| (k.clone(), lab::decode(v))).collect()))
                    } else {
                        prost_types::Value::decode(bytes.as_slice()).map(|v| lab::decode(&v))
                    };
                    match got {
                        Ok(g) if g == *want => Ok(()),
                        o => bad(format!("{x}: exported {o:?}")),
                    }
                });
            }
        }));
    }
    v.push(job("exported paths", move |rec: &mut Rec| {
        for (path, name) in [("a", "a"), ("a.b", "a.b"), ("a.b.c", "a.b.c"), ("auth.identity.x", "auth.identity.x"), ("é", "é")] {
            rec.explore(|_, st| {
                st.transition();
                match exported(path, "'v'") {
                    Ok(p) if p.len() == 1 && p[0].0 == vec![format!("kuadrant.{name}")] => Ok(()),
                    o => bad(format!("{path} exported as {o:?}")),
                }
            });
        }
    }));
    v
}

// ---------------------------------------------------------------- C26

#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    Str,
    Int,
    UInt,
    Bool,
    Time,
    Bytes,
    /// no documented type: JSON when it reads as such, or else text
    Any,
}

/// (attribute, its type); the path is the name split at the dots.
const ATTRS: &[(&str, Kind)] = &[
    ("request.path", Kind::Str),
    ("request.url_path", Kind::Str),
    ("request.host", Kind::Str),
    ("request.scheme", Kind::Str),
    ("request.method", Kind::Str),
    ("request.referer", Kind::Str),
    ("request.useragent", Kind::Str),
    ("request.id", Kind::Str),
    ("request.protocol", Kind::Str),
    ("request.query", Kind::Str),
    ("request.time", Kind::Time),
    ("request.size", Kind::Int),
    ("request.body", Kind::Str),
    ("request.raw_body", Kind::Bytes),
    ("source.address", Kind::Str),
    ("source.port", Kind::Int),
    ("source.service", Kind::Str),
    ("source.principal", Kind::Str),
    ("source.certificate", Kind::Str),
    ("destination.address", Kind::Str),
    ("destination.port", Kind::Int),
    ("destination.service", Kind::Str),
    ("destination.principal", Kind::Str),
    ("destination.certificate", Kind::Str),
    ("connection.id", Kind::UInt),
    ("connection.mtls", Kind::Bool),
    ("connection.requested_server_name", Kind::Str),
    ("connection.tls_session.sni", Kind::Str),
    ("connection.tls_version", Kind::Str),
    ("connection.subject_local_certificate", Kind::Str),
    ("connection.subject_peer_certificate", Kind::Str),
    ("connection.dns_san_local_certificate", Kind::Str),
    ("connection.dns_san_peer_certificate", Kind::Str),
    ("connection.uri_san_local_certificate", Kind::Str),
    ("connection.uri_san_peer_certificate", Kind::Str),
    ("connection.sha256_peer_certificate_digest", Kind::Str),
    ("ratelimit.domain", Kind::Str),
    ("ratelimit.hits_addend", Kind::Int),
    ("metadata.filter_metadata.ns.key", Kind::Any),
    ("metadata.x", Kind::Any),
    ("filter_state.x", Kind::Any),
    ("source.custom", Kind::Any),
    ("destination.custom.deep.er", Kind::Any),
    ("request.custom", Kind::Any),
];

/// A value as the proxy gives it, and conditions on `$` that hold for it and no other.
struct Given {
    raw: Vec<u8>,
    holds: Vec<String>,
    fails: Vec<String>,
}

fn given(kind: Kind) -> Vec<Given> {
    let g = |raw: Vec<u8>, holds: Vec<String>, fails: Vec<String>| Given { raw, holds, fails };
    let strs = ["", "a", "12", "true", "null", "{}", "[1]", "\"q\"", "é€😀", "a'b\\c\nd", " ", "1.5", "A", "a.b/c?d=e"];
    match kind {
        Kind::Str => strs
            .iter()
            .map(|x| {
                let l = lit(x);
                g(
                    x.as_bytes().to_vec(),
                    [format!("$ == {l}"), format!("$ + 'z' == {l} + 'z'"), format!("size($) == {}", x.len())][..if x.is_ascii() { 3 } else { 2 }].to_vec(),
                    vec![format!("$ == {l} + 'z'"), "$ == null".into()],
                )
            })
            .collect(),
        Kind::Int => [0i64, 1, -1, 80, 255, 256, 65535, 1 << 31, (1 << 53) + 1, i64::MAX, -i64::MAX]
            .iter()
            .map(|n| {
                g(
                    n.to_le_bytes().to_vec(),
                    vec![format!("$ == {n}"), format!("$ + 0 == {n}"), format!("string($) == '{n}'")],
                    vec![format!("$ == {}", n ^ 1), "$ == null".into()],
                )
            })
            .collect(),
        Kind::UInt => [0u64, 1, 255, 65536, 1 << 32, (1 << 53) + 1, 1 << 63, u64::MAX]
            .iter()
            .map(|n| {
                g(
                    n.to_le_bytes().to_vec(),
                    vec![format!("$ == {n}u"), format!("$ + 0u == {n}u"), format!("string($) == '{n}'")],
                    vec![format!("$ == {}u", n ^ 1), "$ == null".into()],
                )
            })
            .collect(),
        Kind::Bool => vec![
            g(vec![1], vec!["$".into(), "$ == true".into(), "$ && true".into()], vec!["!$".into(), "$ == null".into()]),
            g(vec![0], vec!["!$".into(), "$ == false".into(), "$ || true".into()], vec!["$".into(), "$ == null".into()]),
        ],
        Kind::Time => [
            (0i64, "1970-01-01T00:00:00Z"),
            (1_700_000_000_123_456_789, "2023-11-14T22:13:20.123456789Z"),
            (1_000_000, "1970-01-01T00:00:00.001Z"),
            (-1_000_000_000, "1969-12-31T23:59:59Z"),
            (951_782_400_000_000_000, "2000-02-29T00:00:00Z"),
        ]
        .iter()
        .map(|(n, t)| {
            g(
                n.to_le_bytes().to_vec(),
                vec![format!("$ == timestamp('{t}')"), format!("$ - timestamp('{t}') == duration('0s')")],
                vec![format!("$ > timestamp('{t}')"), "$ == null".into()],
            )
        })
        .collect(),
        Kind::Bytes => [&b""[..], b"ab", &[0xff, 0, 0x80], "é".as_bytes()]
            .iter()
            .map(|b| {
                let x: String = b.iter().map(|c| format!("\\x{c:02x}")).collect();
                g(
                    b.to_vec(),
                    vec![format!("$ == b'{x}'"), format!("size($) == {}", b.len())],
                    vec![format!("$ == b'{x}z'"), "$ == null".into()],
                )
            })
            .collect(),
        Kind::Any => [
            ("abc", "'abc'"),
            ("12", "12"),
            ("-3", "-3"),
            ("1.5", "1.5"),
            ("true", "true"),
            ("\"q\\u00e9\"", "'qé'"),
            ("[1, \"a\"]", "[1, 'a']"),
            ("{\"a\": {\"b\": [true]}}", "{'a': {'b': [true]}}"),
            ("{not json", "'{not json'"),
            ("", "''"),
            ("a b", "'a b'"),
            ("é€😀", "'é€😀'"),
        ]
        .iter()
        .map(|(raw, x)| g(raw.as_bytes().to_vec(), vec![format!("$ == {x}")], vec!["$ == 'other'".into()]))
        .collect(),
    }
}

/// Ways to write an expression that has the value of `$`.
const CONTEXTS: &[&str] = &[
    "$",
    "($)",
    "[$][0]",
    "[1, $][1]",
    "{'k': $}['k']",
    "{'k': $}.k",
    "{'k': [$]}.k[0]",
    "[{'f': $}][0].f",
    "true ? $ : null",
    "false ? null : $",
    "[1].map(i, $)[0]",
    "[$].map(i, i)[0]",
    "[$].filter(i, true)[0]",
    "[{'f': 1}].all(e, e.f == 1) ? $ : null",
    "[{'f': 1}].exists(e, e.f == 1) ? $ : null",
    "has({'f': 1}.f) ? $ : null",
    "{'a': 1}.a == 1 ? $ : null",
    "[{'a': 1}][0].a == 1 ? $ : null",
    "size('a,b'.split(',')) == 2 ? $ : null",
    "'ab'.charAt(0) == 'a' ? $ : null",
    "('a' + 'b').substring(1) == 'b' ? $ : null",
    "$ == $ ? $ : null",
    "[$, {'a': {'b': 1}}.a.b, $][2]",
    "[{'x': {'y': $}}][0].x.y",
];

fn within(c: &str, x: &str) -> String {
    c.replace('$', x)
}

fn typed() -> Vec<Job> {
    let mut v = vec![];
    for (name, kind) in ATTRS {
        v.push(job(format!("{name}: {kind:?}"), move |rec: &mut Rec| {
            rec.sample(json!({"attribute": name, "type": format!("{kind:?}")}));
            for g in given(*kind) {
                rec.explore(|_, st| {
                    let mut stream = blank();
                    set_prop(&mut stream, name, P::Value(g.raw.clone()));
                    let mut exprs = vec![];
                    for c in g.holds.iter().chain(&g.fails) {
                        exprs.push(within(c, name));
                    }
                    for c in CONTEXTS {
                        for h in &g.holds {
                            exprs.push(within(h, &format!("({})", within(c, name))));
                        }
                    }
                    st.state(hash_of(&(name, &g.raw)));
                    let got = lab::eval(&exprs, &stream).map_err(|e| (format!("{name} = {:?}: {e}", g.raw), vec![]))?;
                    for (i, (x, got)) in exprs.iter().zip(got).enumerate() {
                        st.transition();
                        let fails = i >= g.holds.len() && i < g.holds.len() + g.fails.len();
                        if got != Some(V::Bool(!fails)) {
                            return bad(format!("{name} = {:?}: {x} is {got:?}", g.raw));
                        }
                    }
                    Ok(())
                });
            }
            if *name == "request.host" {
                // without it, a request is not processed at all
                return;
            }
            // not there, and failing
            rec.explore(|_, st| {
                for (state, want) in [(P::Absent, Some(V::Bool(true))), (P::Fail, None)] {
                    let mut stream = blank();
                    set_prop(&mut stream, name, state.clone());
                    let exprs: Vec<String> = CONTEXTS
                        .iter()
                        .map(|c| format!("({}) == null", within(c, name)))
                        .chain(["1 == 1".to_string()])
                        .collect();
                    let got = lab::eval(&exprs, &stream).map_err(|e| (e, vec![]))?;
                    for (i, (x, got)) in exprs.iter().zip(got).enumerate() {
                        st.transition();
                        let want = if i + 1 == exprs.len() { Some(V::Bool(true)) } else { want.clone() };
                        if got != want {
                            return bad(format!("{name} {state:?}: {x} is {got:?}"));
                        }
                    }
                }
                Ok(())
            });
            // of the wrong size, or not text
            let odd: Vec<Vec<u8>> = match kind {
                Kind::Int | Kind::UInt | Kind::Time => vec![vec![], vec![1; 4], vec![1; 7], vec![1; 9]],
                Kind::Bool => vec![vec![], vec![1, 1]],
                Kind::Str | Kind::Any => vec![vec![0xff], b"a\x80".to_vec()],
                Kind::Bytes => vec![],
            };
            for raw in odd {
                rec.explore(|_, st| {
                    let mut stream = blank();
                    set_prop(&mut stream, name, P::Value(raw.clone()));
                    let exprs = vec![format!("{name} == null"), format!("[{name}]"), "1 == 1".into()];
                    let got = lab::eval(&exprs, &stream).map_err(|e| (e, vec![]))?;
                    st.transition();
                    if got != vec![None, None, Some(V::Bool(true))] {
                        return bad(format!("{name} = {raw:?}: {exprs:?} are {got:?}"));
                    }
                    Ok(())
                });
            }
        }));
    }
    v
}

/// Where an attribute is read: each makes the call tagged by what it saw.
fn places(expr: &str, holds: &str) -> Vec<(&'static str, serde_json::Value)> {
    let call = |p: &str, m: &str| {
        json!({"type": "grpc", "predicate": p, "terminal": false, "isGuard": true, "service": "allow-svc", "var": "v",
               "label": "", "sources": [], "onReply": [], "messageBuilder": m})
    };
    vec![
        ("condition", call(&within(holds, expr), "mc.Req { tag: 'yes' }")),
        ("message", call("true", &format!("mc.Req {{ tag: ({}) ? 'yes' : 'no' }}", within(holds, expr)))),
        ("store", json!({"type": "store", "predicate": "true", "terminal": false, "exportToHost": true, "path": "o",
                         "value": within(holds, expr)})),
        ("store condition", json!({"type": "store", "predicate": within(holds, expr), "terminal": false, "exportToHost": true,
                                   "path": "o", "value": "true"})),
        ("headers", json!({"type": "headers", "predicate": "true", "terminal": false, "target": "request",
                           "headers": format!("[['x-saw', ({}) ? 'yes' : 'no']]", within(holds, expr))})),
        ("deny", json!({"type": "deny", "predicate": within(holds, expr), "terminal": true, "denyWith": "DenyResponse { status: 418u }"})),
    ]
}

/// What a callback shows of the place having seen the value: one effect, or none.
fn saw(o: &crate::vm::Obs) -> Result<bool, String> {
    let mut n = 0;
    for c in &o.calls {
        match crate::proto::Req::decode(c.message.as_slice()) {
            Ok(r) if r.tag == "yes" => n += 1,
            r => return Err(format!("call with {r:?}")),
        }
    }
    for (_, m) in &o.set_maps {
        if m.iter().filter(|(k, v)| k == "x-saw" && v == "yes").count() != 1 {
            return Err(format!("headers set to {m:?}"));
        }
        n += 1;
    }
    for (p, v) in &o.props {
        match prost_types::Value::decode(v.as_slice()).map(|v| lab::decode(&v)) {
            Ok(V::Bool(true)) => n += 1,
            r => return Err(format!("{p:?} exported as {r:?}")),
        }
    }
    for r in &o.replies {
        match r.status {
            418 => n += 1,
            _ => return Err(format!("answered {}", r.status)),
        }
    }
    match n {
        0 => Ok(false),
        1 => Ok(true),
        _ => Err(format!("seen {n} times: {}", o.order)),
    }
}

fn waiting() -> Vec<Job> {
    let mut v = vec![];
    // without its host a request is not processed at all
    for (name, kind) in ATTRS.iter().filter(|(n, _)| *n != "request.host") {
        v.push(job(format!("{name} at each place"), move |rec: &mut Rec| {
            let all = given(*kind);
            let g = &all[all.len() / 2];
            for (place, action) in places(name, &g.holds[0]) {
                let cfg = lab::config_with(json!([action]));
                let mut x = match Session::new(&cfg) {
                    Ok(x) => x,
                    Err(e) => return rec.violation(format!("{name} in a {place}: {e}"), vec![], vec![]),
                };
                // when the value comes: at once, with the body, with the response, never
                rec.explore(|ch, st| {
                    let at = ch.pick(4);
                    // nothing can be written into the request once it is gone
                    if place == "headers" && at == 2 {
                        return Ok(());
                    }
                    let mut stream = blank();
                    stream.req_headers = vec![(":method".into(), "GET".into())];
                    stream.resp_headers = vec![(":status".into(), "200".into())];
                    let state = if at == 0 { P::Value(g.raw.clone()) } else { P::Unavailable };
                    set_prop(&mut stream, name, state);
                    let id = x.open(stream);
                    for event in 0..3 {
                        let o = match event {
                            0 => x.vm.request_headers(id, false),
                            1 => {
                                if at == 1 {
                                    host::with(|h| set_prop(h.streams.get_mut(&id).unwrap(), name, P::Value(g.raw.clone())));
                                }
                                x.vm.request_body(id, b"x", true)
                            }
                            _ => {
                                if at == 2 {
                                    host::with(|h| set_prop(h.streams.get_mut(&id).unwrap(), name, P::Value(g.raw.clone())));
                                }
                                x.vm.response_headers(id, false)
                            }
                        };
                        st.transition();
                        let o = sane(o)?;
                        let seen = saw(&o).map_err(|e| (format!("{name} in a {place}: {e}"), vec![]))?;
                        if seen != (event == at) {
                            return bad(format!(
                                "{name} in a {place} becomes available at event {at}; at event {event}: seen {seen}"
                            ));
                        }
                        if seen {
                            break;
                        }
                    }
                    st.state(hash_of(&(name, place, at)));
                    x.forget(id);
                    Ok(())
                });
            }
        }));
    }
    v
}

fn addresses() -> Vec<Job> {
    vec![job("source.remote_address", move |rec: &mut Rec| {
        let hosts = [
            ("10.0.0.1", "10.0.0.1"),
            ("0.0.0.0", "0.0.0.0"),
            ("255.255.255.255", "255.255.255.255"),
            ("[::1]", "::1"),
            ("[2001:db8::ff00:42:8329]", "2001:db8::ff00:42:8329"),
            ("[::ffff:10.0.0.1]", "::ffff:10.0.0.1"),
            ("[::]", "::"),
            ("[fe80::1%eth0]", "fe80::1%eth0"),
        ];
        rec.sample(json!(hosts));
        for (h, want) in hosts {
            for port in ["0", "1", "80", "50000", "65535"] {
                rec.explore(|_, st| {
                    let mut stream = blank();
                    let address = format!("{h}:{port}");
                    set_prop(&mut stream, "source.address", val(&address));
                    set_prop(&mut stream, "source.port", P::Value(80i64.to_le_bytes().to_vec()));
                    let x = "source.remote_address";
                    let mut exprs: Vec<String> = CONTEXTS.iter().map(|c| within(c, x)).collect();
                    exprs.push(format!("[source.address, {x}, source.port]"));
                    exprs.push(format!("[{x}, source.address]"));
                    let got = lab::eval(&exprs, &stream).map_err(|e| (e, vec![]))?;
                    for (x, got) in exprs.iter().zip(got) {
                        st.transition();
                        let w = if x.starts_with("[source.address,") {
                            V::List(vec![s(&address), s(want), V::Num(80.0)])
                        } else if x.ends_with("source.address]") {
                            V::List(vec![s(want), s(&address)])
                        } else {
                            s(want)
                        };
                        if got.as_ref() != Some(&w) {
                            return bad(format!("source.address is {address}: {x} is {got:?}"));
                        }
                    }
                    st.state(hash_of(&address));
                    Ok(())
                });
            }
        }
        rec.explore(|_, st| {
            for (state, want) in [(P::Absent, Some(V::Bool(true))), (P::Fail, None)] {
                let mut stream = blank();
                set_prop(&mut stream, "source.address", state.clone());
                let got = lab::eval(&["source.remote_address == null".into(), "1 == 1".into()], &stream).map_err(|e| (e, vec![]))?;
                st.transition();
                if got != vec![want.clone(), Some(V::Bool(true))] {
                    return bad(format!("source.address {state:?}: source.remote_address gives {got:?}"));
                }
            }
            Ok(())
        });
    })]
}

/// The header map as a condition sees it.
fn header_maps(thorough: bool) -> Vec<Job> {
    let names = ["a", "b-c", ":method"];
    let vals = ["", "1", "x,y", "é", "{\"a\":1}", "true"];
    let mut maps: Vec<Vec<(String, String)>> = vec![vec![]];
    let mut last = maps.clone();
    for _ in 0..if thorough { 3 } else { 2 } {
        last = last
            .iter()
            .flat_map(|m| {
                names.iter().flat_map(move |n| {
                    vals.into_iter().map(move |v| {
                        let mut m = m.clone();
                        m.push((n.to_string(), v.to_string()));
                        m
                    })
                })
            })
            .collect();
        maps.extend(last.clone());
    }
    let mut v = vec![];
    for (i, part) in maps.chunks(maps.len().div_ceil(8)).enumerate() {
        let part = part.to_vec();
        v.push(job(format!("request.headers, part {i}"), move |rec: &mut Rec| {
            let exprs = [
                "request.headers",
                "'a' in request.headers ? request.headers['a'] : null",
                "has(request.headers.a) ? request.headers.a : null",
                "size(request.headers)",
                "request.headers.exists(h, h == 'b-c' && request.headers[h] == '1')",
                "[request.headers, request.method]",
                "{'k': request.headers}.k",
                "request.headers.map(h, h).size()",
            ];
            let actions: Vec<_> = exprs
                .iter()
                .enumerate()
                .map(|(i, x)| {
                    json!({"type": "store", "predicate": "true", "terminal": false, "exportToHost": true,
                           "path": format!("o{i}"), "value": format!("[{x}]")})
                })
                .collect();
            let mut x = match Session::new(&lab::config_with(json!(actions))) {
                Ok(x) => x,
                Err(e) => return rec.violation(e, vec![], vec![]),
            };
            rec.sample(json!(part[part.len() / 2]));
            for m in &part {
                rec.explore(|_, st| {
                    let mut stream = blank();
                    // a request always has some header
                    stream.req_headers = m.clone();
                    stream.req_headers.push((":path".into(), "/".into()));
                    set_prop(&mut stream, "request.method", val("GET"));
                    // what Envoy answers for a member of a map
                    for (n, _) in m {
                        let all: Vec<&str> = m.iter().filter(|(k, _)| k == n).map(|(_, v)| v.as_str()).collect();
                        set_prop_tokens(&mut stream, &["request", "headers", n], val(&all.join(",")));
                    }
                    let id = x.open(stream);
                    let o = sane(x.vm.request_headers(id, true))?;
                    x.forget(id);
                    let mut want: BTreeMap<String, V> = BTreeMap::new();
                    for (k, _) in m {
                        let all: Vec<&str> = m.iter().filter(|(n, _)| n == k).map(|(_, v)| v.as_str()).collect();
                        want.insert(k.clone(), s(&all.join(",")));
                    }
                    want.insert(":path".into(), s("/"));
                    let all = V::Map(want.clone());
                    let a = want.get("a").cloned().unwrap_or(V::Null);
                    let n = V::Num(want.len() as f64);
                    let want = [
                        all.clone(),
                        a.clone(),
                        a,
                        n.clone(),
                        V::Bool(want.get("b-c") == Some(&s("1"))),
                        V::List(vec![all.clone(), s("GET")]),
                        all,
                        n,
                    ];
                    let mut got = vec![None; exprs.len()];
                    for (p, v) in &o.props {
                        let i: usize = p[0].rsplit(".o").next().and_then(|i| i.parse().ok()).unwrap_or(0);
                        let v = prost_types::Value::decode(v.as_slice()).map(|v| lab::decode(&v));
                        if let Ok(V::List(mut l)) = v {
                            got[i] = l.pop();
                        }
                    }
                    for i in 0..exprs.len() {
                        st.transition();
                        if got[i].as_ref() != Some(&want[i]) {
                            return bad(format!("with headers {m:?}: {} is {:?}", exprs[i], got[i]));
                        }
                    }
                    st.state(hash_of(m));
                    Ok(())
                });
            }
        }));
    }
    v
}

/// Several attributes in one expression do not get into each other's way.
fn together(thorough: bool) -> Vec<Job> {
    let mut all: Vec<(&str, String, V)> = vec![
        ("request.path", "/p".into(), s("/p")),
        ("request.method", "GET".into(), s("GET")),
        ("request.custom", "7".into(), V::Num(7.0)),
        ("source.address", "10.0.0.1:80".into(), s("10.0.0.1:80")),
        ("source.remote_address", String::new(), s("10.0.0.1")),
        ("destination.address", "d".into(), s("d")),
        ("metadata.x", "mx".into(), s("mx")),
        ("metadata.filter_metadata.ns.key", "k".into(), s("k")),
        ("metadata.filter_metadata.ns.key2", "{\"z\":1}".into(), map(&[("z", V::Num(1.0))])),
        ("metadata.filter_metadata.other", "[true]".into(), V::List(vec![V::Bool(true)])),
        ("connection.tls_session.sni", "sni".into(), s("sni")),
        ("connection.tls_version", "v1".into(), s("v1")),
        ("connection.mtls", "\u{1}".into(), V::Bool(true)),
        ("filter_state.x", "fs".into(), s("fs")),
        ("ratelimit.domain", "rd".into(), s("rd")),
    ];
    if !thorough {
        all.truncate(15);
    }
    let mut v = vec![];
    for i in 0..all.len() {
        let all = all.clone();
        v.push(job(format!("{} with others", all[i].0), move |rec: &mut Rec| {
            let mut stream = blank();
            for (n, raw, _) in &all {
                if !raw.is_empty() {
                    set_prop(&mut stream, n, val(raw));
                }
            }
            rec.explore(|_, st| {
                let mut exprs = vec![];
                let mut want = vec![];
                for j in 0..all.len() {
                    exprs.push(format!("[{}, {}]", all[i].0, all[j].0));
                    want.push(V::List(vec![all[i].2.clone(), all[j].2.clone()]));
                    exprs.push(format!("{{'a': {}}}.a == {} ? {} : {}", all[i].0, all[j].0, all[j].0, all[i].0));
                    want.push(all[i].2.clone());
                    if thorough {
                        for k in 0..all.len() {
                            exprs.push(format!("[{}, {{'k': {}}}.k, {}]", all[i].0, all[j].0, all[k].0));
                            want.push(V::List(vec![all[i].2.clone(), all[j].2.clone(), all[k].2.clone()]));
                        }
                    }
                }
                let got = lab::eval(&exprs, &stream).map_err(|e| (e, vec![]))?;
                for ((x, got), want) in exprs.iter().zip(got).zip(want) {
                    st.transition();
                    st.state(hash_of(x));
                    if got.as_ref() != Some(&want) {
                        return bad(format!("{x} is {got:?}"));
                    }
                }
                Ok(())
            });
        }));
    }
    v
}

fn c26(thorough: bool) -> Vec<Job> {
    let mut v = typed();
    v.extend(waiting());
    v.extend(addresses());
    v.extend(header_maps(thorough));
    v.extend(together(thorough));
    v
}

// ---------------------------------------------------------------- C28

fn c28(thorough: bool) -> Vec<Job> {
    let types: &[(Option<&str>, bool)] = &[
        (None, false),
        (Some(""), false),
        (Some("application/grpc"), true),
        (Some("application/grpc+proto"), true),
        (Some("application/grpc+json"), true),
        (Some("application/grpc+x"), true),
        (Some("application/grpc;charset=utf-8"), true),
        (Some("application/grpc; x=y"), true),
        (Some("application/grpc+proto; x=y"), true),
        (Some("application/grpc-web"), false),
        (Some("application/grpc-web+proto"), false),
        (Some("application/grpc-web-text"), false),
        (Some("application/grpcx"), false),
        (Some("application/grpc/x"), false),
        (Some("application/grp"), false),
        (Some("application/json"), false),
        (Some("application/json; application/grpc"), false),
        (Some("xapplication/grpc"), false),
        (Some("text/plain+application/grpc"), false),
    ];
    let paths: Vec<Option<String>> = std::iter::once(None)
        .chain(strings(&["/", "a", ".", "é"], if thorough { 7 } else { 5 }).into_iter().map(Some))
        .chain(
            ["/pkg.v1.Service/Method", "/Service/Method/", "/Service//Method", "/S/M?x", "/S%2FM/a", "/ /M", "/S/ ", "//S/M", "/S/.", "/S/M/N", "*"]
                .iter()
                .map(|p| Some(p.to_string())),
        )
        .collect();
    let mut v = vec![];
    for (ct, grpc) in types {
        let paths = paths.clone();
        v.push(job(format!("content-type {ct:?}"), move |rec: &mut Rec| {
            let exprs = [
                "has(request.grpc)",
                "has(request.grpc) ? request.grpc.service : 'none'",
                "has(request.grpc) ? request.grpc.method : 'none'",
                "has(request.grpc) && request.grpc.service == 'a' && request.grpc.method == 'a'",
                "has(request.grpc.service) && has(request.grpc.method)",
                "has(request.grpc) ? request.grpc : {}",
                "has(request.grpc) ? [request.method, request.grpc.service, request.url_path] : [request.method]",
            ];
            let mut actions: Vec<_> = exprs
                .iter()
                .enumerate()
                .map(|(i, x)| {
                    json!({"type": "store", "predicate": "true", "terminal": false, "exportToHost": true,
                           "path": format!("o{i}"), "value": format!("[{x}]")})
                })
                .collect();
            actions.push(json!({"type": "grpc", "predicate": "has(request.grpc)", "terminal": false, "isGuard": true, "service": "allow-svc",
                "var": "v", "label": "", "sources": [], "onReply": [],
                "messageBuilder": "mc.Req { tag: request.grpc.service + ' ' + request.grpc.method }"}));
            let mut x = match Session::new(&lab::config_with(json!(actions))) {
                Ok(x) => x,
                Err(e) => return rec.violation(e, vec![], vec![]),
            };
            rec.sample(json!({"content-type": ct, "paths": paths.len()}));
            for p in &paths {
                rec.explore(|_, st| {
                    let mut stream = blank();
                    stream.req_headers = vec![(":method".into(), "POST".into())];
                    if let Some(ct) = ct {
                        stream.req_headers.push(("content-type".into(), ct.to_string()));
                    }
                    set_prop(&mut stream, "request.method", val("POST"));
                    set_prop(&mut stream, "request.url_path", match p {
                        Some(p) => val(p),
                        None => P::Absent,
                    });
                    let id = x.open(stream);
                    let o = sane(x.vm.request_headers(id, true))?;
                    x.forget(id);
                    let named = p.as_deref().filter(|_| *grpc).and_then(|p| {
                        let parts: Vec<&str> = p.split('/').collect();
                        match parts.as_slice() {
                            ["", a, b] if !a.is_empty() && !b.is_empty() => Some((a.to_string(), b.to_string())),
                            _ => None,
                        }
                    });
                    let want = match &named {
                        None => [
                            V::Bool(false),
                            s("none"),
                            s("none"),
                            V::Bool(false),
                            V::Bool(false),
                            map(&[]),
                            V::List(vec![s("POST")]),
                        ],
                        Some((a, b)) => [
                            V::Bool(true),
                            s(a),
                            s(b),
                            V::Bool(a == "a" && b == "a"),
                            V::Bool(true),
                            map(&[("service", s(a)), ("method", s(b))]),
                            V::List(vec![s("POST"), s(a), s(p.as_deref().unwrap_or(""))]),
                        ],
                    };
                    let mut got = vec![None; exprs.len()];
                    for (p, v) in &o.props {
                        let i: usize = p[0].rsplit(".o").next().and_then(|i| i.parse().ok()).unwrap_or(0);
                        if let Ok(V::List(mut l)) = prost_types::Value::decode(v.as_slice()).map(|v| lab::decode(&v)) {
                            got[i] = l.pop();
                        }
                    }
                    for i in 0..exprs.len() {
                        st.transition();
                        // `has` of a member of what is absent may fail or be false
                        if i == 4 && named.is_none() && got[i].is_none() {
                            continue;
                        }
                        if got[i].as_ref() != Some(&want[i]) {
                            return bad(format!("{ct:?} {p:?}: {} is {:?}", exprs[i], got[i]));
                        }
                    }
                    let tags: Vec<String> = o
                        .calls
                        .iter()
                        .map(|c| crate::proto::Req::decode(c.message.as_slice()).map(|r| r.tag).unwrap_or_default())
                        .collect();
                    let want: Vec<String> = named.iter().map(|(a, b)| format!("{a} {b}")).collect();
                    if tags != want {
                        return bad(format!("{ct:?} {p:?}: calls {tags:?}"));
                    }
                    st.state(hash_of(&(ct, p)));
                    Ok(())
                });
            }
        }));
    }
    v
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C26",
            level: "model_checking",
            rule: "every attribute of the request, source, destination, connection and metadata x boundary values of its type x 24 ways to write an expression around it; each absent, failing, malformed and not yet available (until the body, the response, or for ever) at each of six places an expression is evaluated; all header maps of up to two (thorough: three) entries; all pairs (triples) of attributes in one expression",
            assumptions: &[
                "attributes the proxy provides only once the request is complete are left out",
                "attributes of no documented type are JSON when they read as such, and else text",
            ],
            jobs: c26,
        },
        Prop {
            id: "C28",
            level: "model_checking",
            rule: "every path of up to five (thorough: seven) characters out of slash, dot, letter and a two byte character, and some longer ones, x 19 content types; the values, the guards and the calls made under them",
            assumptions: &["content types are in lower case, as a gRPC client sends them"],
            jobs: c28,
        },
    ]
}
