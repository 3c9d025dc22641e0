//! C11: header actions against a reference edit of the header list.
use super::lab::{self, lit, Session};
use super::Prop;
use crate::proto;
use crate::report::{bad, hash_of, job, Fail, Job, Rec};
use crate::vm::base_stream;
use prost::Message;
use serde_json::{json, Value};

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C11",
        level: "model_checking",
        rule: "every header map up to a length over names that differ in case or share prefixes, with repeats, x every list of up to two headers to set x one or two actions, at top level and in onReply, in request and response, with false and failing actions in between; the map the proxy holds afterwards is compared with a reference edit",
        assumptions: &["a list naming one header twice is left open", "where in the map a set header ends up is left open, the order of all others is not", "values with the character U+FFFD in them are left open"],
        jobs,
    }]
}

type Hdrs = Vec<(String, String)>;

fn hs(l: &[(&str, &str)]) -> Hdrs {
    l.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect()
}

/// `got` must be `before` with the headers in `set` replaced.
fn check(before: &Hdrs, set: &Hdrs, got: &Hdrs) -> Result<(), Fail> {
    let named = |k: &str| set.iter().rev().find(|s| s.0.eq_ignore_ascii_case(k));
    let want: Vec<&(String, String)> = before.iter().filter(|h| named(&h.0).is_none()).collect();
    let others: Vec<&(String, String)> = got.iter().filter(|h| named(&h.0).is_none()).collect();
    if want != others {
        return bad(format!("setting {set:?} in {before:?} gave {got:?}: headers not named changed"));
    }
    for (k, _) in set {
        let v = &named(k).map(|s| s.1.clone()).unwrap_or_default();
        let now: Vec<&String> = got.iter().filter(|h| h.0.eq_ignore_ascii_case(k)).map(|h| &h.1).collect();
        if now != vec![v] {
            return bad(format!("setting {set:?} in {before:?} gave {got:?}: {k} must be {v:?} once"));
        }
    }
    Ok(())
}

/// an action and what it sets (nothing where it must not change anything)
#[derive(Clone)]
struct A {
    json: Value,
    set: Hdrs,
}

fn action(resp: bool, set: &Hdrs, predicate: &str) -> A {
    let list = set
        .iter()
        .map(|(k, v)| format!("[{}, {}]", lit(k), lit(v)))
        .collect::<Vec<_>>()
        .join(", ");
    raw(resp, &format!("[{list}]"), predicate, set.clone())
}

fn raw(resp: bool, headers: &str, predicate: &str, set: Hdrs) -> A {
    A {
        json: json!({"type": "headers", "predicate": predicate, "terminal": false,
                     "target": if resp { "response" } else { "request" }, "headers": headers}),
        set,
    }
}

fn maps(max: usize) -> Vec<Hdrs> {
    maps_of(&[("a", "1"), ("A", "2"), ("b", "3"), ("ab", "4"), ("x-a", "")], max)
}

fn maps_of(letters: &[(&str, &str)], max: usize) -> Vec<Hdrs> {
    let mut out: Vec<Hdrs> = vec![vec![]];
    let mut last = out.clone();
    for _ in 0..max {
        last = last
            .iter()
            .flat_map(|m| {
                letters.iter().map(move |(k, v)| {
                    let mut m = m.clone();
                    m.push((k.to_string(), format!("{v}{}", m.len())));
                    m
                })
            })
            .collect();
        out.extend(last.clone());
    }
    out
}

fn lists(two: bool) -> Vec<Hdrs> {
    let names = ["a", "B", "ab", "x-A", "new"];
    let mut out = vec![];
    for n in names {
        for v in ["", "v", "ü, w;q='1'"] {
            out.push(hs(&[(n, v)]));
        }
    }
    if two {
        for n in names {
            for m in names {
                if !n.eq_ignore_ascii_case(m) {
                    out.push(hs(&[(n, "v"), (m, "w")]));
                }
            }
        }
    }
    out
}

/// Runs the actions over every map; `effects` are applied in order.
fn over_maps(rec: &mut Rec, resp: bool, acts: &[A], maps: &[Hdrs]) {
    let actions: Vec<Value> = acts.iter().map(|a| a.json.clone()).collect();
    let mut s = match Session::new(&lab::config_with(json!(actions))) {
        Ok(s) => s,
        Err(e) => return rec.violation(e, vec![], vec![]),
    };
    rec.sample(json!({"actions": actions}));
    rec.explore(|ch, st| {
        let map = &maps[ch.pick(maps.len())];
        let mut stream = base_stream("api.example.com", "/toys");
        let list = if resp { &mut stream.resp_headers } else { &mut stream.req_headers };
        // pseudo headers around the ones that are looked at
        list.truncate(2);
        list.extend(map.iter().cloned());
        let before = [stream.req_headers.clone(), stream.resp_headers.clone()];
        st.state(hash_of(&(resp, &actions.iter().map(|a| a.to_string()).collect::<Vec<_>>(), map)));
        let id = s.open(stream);
        let r = (|| {
            let o = lab::sane(s.vm.request_headers(id, true))?;
            st.transition();
            if o.pause != Some(false) {
                return bad("a request without calls is paused");
            }
            let now = s.vm.headers(id);
            if resp {
                if now.1 != before[1] || !o.set_maps.is_empty() {
                    return bad("response headers changed before they were there");
                }
                let o = lab::sane(s.vm.response_headers(id, true))?;
                st.transition();
                if o.pause != Some(false) {
                    return bad("a response without calls is paused");
                }
            }
            let now = s.vm.headers(id);
            let (mine, other) = if resp { (&now.1, &now.0) } else { (&now.0, &now.1) };
            if *other != before[usize::from(!resp)] {
                return bad("the other map changed");
            }
            let mut all: Hdrs = vec![];
            for a in acts {
                for (k, v) in &a.set {
                    all.retain(|x| !x.0.eq_ignore_ascii_case(k));
                    all.push((k.clone(), v.clone()));
                }
            }
            check(&before[usize::from(resp)], &all, mine)
        })();
        s.forget(id);
        r
    });
}

/// Two calls whose onReply edits headers; replies in both orders.
fn replies(rec: &mut Rec, resp: bool, first: &Hdrs, second: &Hdrs, from_reply: bool) {
    let call = |set: &Hdrs, tag: &str| {
        let inner = if from_reply {
            raw(resp, "v.hdrs", "true", set.clone())
        } else {
            action(resp, set, "true")
        };
        json!({"type": "grpc", "predicate": "true", "terminal": false, "var": "v", "service": "deny-svc",
               "messageBuilder": format!("mc.Req {{ tag: '{tag}' }}"), "onReply": [inner.json]})
    };
    let cfg = lab::config_with(json!([call(first, "0"), call(second, "1")]));
    let mut s = match Session::new(&cfg) {
        Ok(s) => s,
        Err(e) => return rec.violation(e, vec![], vec![]),
    };
    rec.explore(|ch, st| {
        let flip = ch.flip();
        let mut stream = base_stream("api.example.com", "/toys");
        let extra = hs(&[("a", "1"), ("b", "2"), ("A", "3")]);
        stream.req_headers.extend(extra.clone());
        stream.resp_headers.extend(extra);
        let before = [stream.req_headers.clone(), stream.resp_headers.clone()];
        st.state(hash_of(&(resp, first, second, from_reply, flip)));
        let id = s.open(stream);
        let r = (|| {
            let o = lab::sane(s.vm.request_headers(id, true))?;
            if o.calls.len() != 2 {
                return bad(format!("{} calls made instead of 2", o.calls.len()));
            }
            let mut order: Vec<(u32, &Hdrs)> = vec![];
            for c in &o.calls {
                let tag = proto::Req::decode(c.message.as_slice()).map_err(|e| (e.to_string(), vec![]))?.tag;
                order.push((c.token, if tag == "0" { first } else { second }));
            }
            if flip {
                order.reverse();
            }
            let mut all: Hdrs = vec![];
            for (t, set) in &order {
                let body = proto::Resp {
                    code: 1,
                    text: String::new(),
                    hdrs: set.iter().map(|(k, v)| proto::Hdr { key: k.clone(), value: v.clone() }).collect(),
                }
                .encode_to_vec();
                lab::sane(s.vm.reply(id, *t, 0, Some(&body)))?;
                st.transition();
                for (k, v) in *set {
                    all.retain(|x| !x.0.eq_ignore_ascii_case(k));
                    all.push((k.clone(), v.clone()));
                }
                if !resp {
                    check(&before[0], &all, &s.vm.headers(id).0)?;
                }
            }
            lab::sane(s.vm.response_headers(id, true))?;
            let now = s.vm.headers(id);
            let (mine, other) = if resp { (&now.1, &now.0) } else { (&now.0, &now.1) };
            if *other != before[usize::from(!resp)] {
                return bad("the other map changed");
            }
            if resp {
                // both are done by one callback, in either order
                let mut other: Hdrs = vec![];
                for (_, set) in order.iter().rev() {
                    for (k, v) in *set {
                        other.retain(|x| !x.0.eq_ignore_ascii_case(k));
                        other.push((k.clone(), v.clone()));
                    }
                }
                if check(&before[1], &other, mine).is_ok() {
                    return Ok(());
                }
            }
            check(&before[usize::from(resp)], &all, mine)
        })();
        s.forget(id);
        r
    });
}

fn jobs(thorough: bool) -> Vec<Job> {
    let mut jobs = vec![];
    let depth = if thorough { 4 } else { 3 };
    for resp in [false, true] {
        let t = if resp { "response" } else { "request" };
        for (i, part) in lists(true).chunks(6).enumerate() {
            let part = part.to_vec();
            jobs.push(job(format!("one {t} action {i}"), move |rec| {
                for l in &part {
                    over_maps(rec, resp, &[action(resp, l, "true")], &maps(depth));
                }
            }));
        }
        for (i, a) in lists(thorough).into_iter().enumerate() {
            jobs.push(job(format!("two {t} actions {i}"), move |rec| {
                for b in lists(false) {
                    over_maps(
                        rec,
                        resp,
                        &[action(resp, &a, "true"), action(resp, &b, "request.method == 'GET'")],
                        &maps(2),
                    );
                }
            }));
        }
        jobs.push(job(format!("{t} headers whose values are bytes"), move |rec| {
            let odd: Vec<String> = [&b"\xe9"[..], b"x\xff\xfey", b"\xc3(", "é\u{10000}".as_bytes()]
                .iter()
                .map(|b| proxy_wasm::host::raw(b))
                .collect();
            let mut letters: Vec<(&str, &str)> = vec![("A", "2")];
            for (i, v) in odd.iter().enumerate() {
                letters.push((["a", "b", "b", "ab"][i], v));
                letters.push((["b", "ab", "a", "b"][i], v));
            }
            let m = maps_of(&letters, depth);
            for l in lists(thorough) {
                over_maps(rec, resp, &[action(resp, &l, "true")], &m);
            }
            let two = maps_of(&letters, 2);
            for a in lists(false) {
                for b in lists(false) {
                    over_maps(rec, resp, &[action(resp, &a, "true"), action(resp, &b, "true")], &two);
                }
            }
        }));
        jobs.push(job(format!("{t} actions that do nothing"), move |rec| {
            let x = hs(&[("a", "n"), ("b", "n")]);
            let idle = [
                A { set: vec![], ..action(resp, &x, "request.method == 'NEVER'") },
                A { set: vec![], ..action(resp, &x, "nosuch.thing") },
                A { set: vec![], ..action(resp, &x, "request.method") },
                raw(resp, "nosuch.thing", "true", vec![]),
                raw(resp, "[['a', 'n'], ['b', nosuch.thing]]", "true", vec![]),
                raw(resp, "[]", "true", vec![]),
            ];
            for i in &idle {
                over_maps(rec, resp, std::slice::from_ref(i), &maps(2));
                for l in lists(false) {
                    let a = action(resp, &l, "true");
                    over_maps(rec, resp, &[i.clone(), a.clone()], &maps(2));
                    over_maps(rec, resp, &[a, i.clone()], &maps(2));
                }
            }
        }));
        for from_reply in [false, true] {
            jobs.push(job(format!("{t} actions in onReply, values from the reply: {from_reply}"), move |rec| {
                for a in lists(true) {
                    for b in lists(thorough) {
                        replies(rec, resp, &a, &b, from_reply);
                    }
                }
            }));
        }
    }
    // later actions see what earlier ones did
    jobs.push(job("an action reads the headers an earlier one set", move |rec| {
        for m in maps(3) {
            let m: Hdrs = m.into_iter().filter(|h| h.0 != "A").collect();
            for (name, read) in [("a", "a"), ("new", "a"), ("b", "b"), ("new", "new"), ("ab", "a")] {
                let set = hs(&[(name, "fresh")]);
                let joined: Vec<String> = m.iter().filter(|h| h.0 == read).map(|h| h.1.clone()).collect();
                let seen = if name == read {
                    Some("fresh".to_string())
                } else if joined.is_empty() {
                    None
                } else {
                    Some(joined.join(","))
                };
                let second = raw(
                    false,
                    &format!("[['x-copy', request.headers['{read}']]]"),
                    "true",
                    seen.map(|v| hs(&[("x-copy", &v)])).unwrap_or_default(),
                );
                over_maps(rec, false, &[action(false, &set, "true"), second], std::slice::from_ref(&m));
            }
        }
    }));
    jobs
}
