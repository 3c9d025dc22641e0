//! C16 counters, C17 identifiers and trace context, C18 trace export.
use super::exec::{exactly, jobs, short, tuples};
use super::{lab, Prop};
use crate::pipe::*;
use crate::report::{bad, hash_of, job, Fail, Job, Rec};
use crate::vm::{Obs, Vm};
use opentelemetry_proto::tonic::collector::trace::v1::ExportTraceServiceRequest;
use opentelemetry_proto::tonic::common::v1::any_value::Value as Any;
use prost::Message;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};

// ---------------------------------------------------------------- C16

fn counters(o: &Obs) -> BTreeMap<String, i64> {
    o.metrics
        .iter()
        .filter_map(|(k, v)| k.strip_prefix("kuadrant.").map(|k| (k.to_string(), *v)))
        .collect()
}

fn count(list: &[(&str, i64)]) -> BTreeMap<String, i64> {
    list.iter().filter(|(_, n)| *n != 0).map(|(k, n)| (k.to_string(), *n)).collect()
}

/// One request on one of several hosts, some of which have no action set, or
/// one that cannot be selected; everything it counts.
const KINDS: &[(&str, &[(&str, i64)], bool)] = &[
    ("run.com", &[("hits", 1)], false),
    ("deny.com", &[("hits", 1), ("denied", 1)], true),
    ("fail.com", &[("hits", 1), ("denied", 1), ("errors", 1)], true),
    ("none.org", &[("misses", 1)], false),
    ("unmet.com", &[("misses", 1)], false),
    ("broken.com", &[("errors", 1)], true),
    ("later.com", &[("errors", 1)], true),
    ("", &[("errors", 1)], true),
];

fn counting_sets() -> serde_json::Value {
    let set = |host: &str, predicates: &[&str], action: serde_json::Value| json!({"name": host, "routeRuleConditions": {"hostnames": [host], "predicates": predicates}, "actions": [action]});
    let nothing = json!({"type": "headers", "target": "request", "predicate": "true", "terminal": false, "headers": "[['x-a', 'b']]"});
    json!([
        set("run.com", &[], nothing.clone()),
        set(
            "deny.com",
            &[],
            json!({"type": "deny", "predicate": "true", "terminal": true, "denyWith": "DenyResponse { status: 403u }"})
        ),
        set(
            "fail.com",
            &[],
            json!({"type": "fail", "predicate": "true", "terminal": true, "logMessage": "x"})
        ),
        set("unmet.com", &["request.method == 'NEVER'"], nothing.clone()),
        set(
            "unmet.com",
            &["request.method == 'GET'", "request.url_path == '/never'"],
            nothing.clone()
        ),
        set("broken.com", &["nosuch.thing == 'x'"], nothing.clone()),
        set("broken.com", &[], nothing.clone()),
        set("later.com", &["request.late == 'yes'"], nothing),
    ])
}

/// One request from its headers to the end of its response.
fn counted(s: &mut lab::Session, kind: usize, responds: bool) -> Result<(), Fail> {
    let (host, want, answered) = KINDS[kind];
    let mut stream = crate::vm::base_stream(host, "/toys");
    crate::vm::set_prop(&mut stream, "request.late", proxy_wasm::host::Prop::Unavailable);
    if host.is_empty() {
        crate::vm::set_prop(&mut stream, "request.host", proxy_wasm::host::Prop::Absent);
    }
    let id = s.open(stream);
    let r = (|| {
        let o = lab::sane(s.vm.request_headers(id, true))?;
        let got = counters(&o);
        if got != count(want) {
            return bad(format!("request for '{host}' counts {got:?}; must be {want:?}"));
        }
        if o.replies.is_empty() == answered {
            return bad(format!("request for '{host}' is answered: {}", !answered));
        }
        if responds {
            let o = lab::sane(s.vm.response_headers(id, false))?;
            let got = counters(&o);
            if got != count(&[("allowed", 1)]) {
                return bad(format!("response of '{host}' counts {got:?}; must be one allowed"));
            }
            for eos in [false, true] {
                let o = lab::sane(s.vm.response_body(id, b"{}", eos))?;
                if !counters(&o).is_empty() {
                    return bad(format!("response body of '{host}' counts {:?}", counters(&o)));
                }
            }
        }
        Ok(())
    })();
    s.forget(id);
    r
}

fn c16(thorough: bool) -> Vec<Job> {
    let w = METRICS;
    let all: &[Reply] = &[Reply::Ok(1), Reply::Ok(2), Reply::Status(14), Reply::Garbage];
    let acts = vec![
        guard(vec![]),
        guard(vec![hdr_echo(false)]),
        guard_open(vec![hdr_echo(false)]),
        guard(vec![deny(403).when(Pred::Code(1))]),
        guard(vec![fail(true).when(Pred::Code(2))]),
        guard(vec![guard_open(vec![deny(401)])]),
        bg(vec![]),
        bg_open(vec![hdr_err()]),
        bg(vec![deny(403)]),
        guard(vec![]).when(Pred::Err),
        guard_open(vec![]).msg(Msg::Err),
        guard(vec![]).when(Pred::Late).msg(Msg::Err),
        bg_open(vec![]).when(Pred::RespBody("/a", "x")),
        guard(vec![]).msg(Msg::RespBody("/missing")),
        deny(429),
        deny(429).when(Pred::Late),
        deny_with(403, Data::Err),
        fail(true),
        fail(true).when(Pred::Late),
        fail(false),
        hdr_err(),
        store("st.a", Data::ReqBody("/a")),
    ];
    let mut l = vec![];
    let base = |n: &str, t: &[Act]| {
        sc(n, t.to_vec())
            .req(&["{\"a\":\"q\"}"], &[("/a", "q")])
            .resp(&["{\"a\":", "\"x\"}"], &[("/a", "x")])
            .watch(w)
    };
    for t in tuples(&acts, 2) {
        let one = t.len() == 1;
        l.push(base("counts", &t).replies(if one || thorough { all } else { &[Reply::Ok(1), Reply::Status(14)] }));
        for n in 1..=2 {
            l.push(base(&format!("dispatch {n} refused"), &t).refuse(&[n]));
        }
        if one || thorough {
            l.push(base("aborted", &t).aborts().replies(&ok_fail()));
            l.push(base("strays", &t).bogus().replies(&ok_fail()));
            l.push(base("traced", &t).tracing().replies(&ok_fail()));
            l.push(base("no response body", &t).headers_only().replies(&ok_fail()));
            let mut f = base("traced in vain", &t).tracing();
            f.export_fails = true;
            l.push(f);
        }
        if !one && thorough {
            for (a, b) in [(0, 1), (1, 0)] {
                l.push(base("nested", &[guard(vec![t[a].clone()]), t[b].clone()]).replies(&ok_fail()));
            }
        }
    }
    if thorough {
        for t in exactly(&acts[..14], 3) {
            l.push(
                sc("counts", t)
                    .resp(&["{\"a\":\"x\"}"], &[("/a", "x")])
                    .watch(w)
                    .replies(&ok_fail()),
            );
        }
    }
    let mut v = jobs(l);
    v.push(job("selection", move |rec: &mut Rec| {
        let mut s = match lab::Session::new(&lab::config_sets(counting_sets())) {
            Ok(s) => s,
            Err(e) => return rec.violation(e, vec!["boot".into()], vec![]),
        };
        rec.sample(json!({"requests": KINDS.iter().map(|k| k.0).collect::<Vec<_>>(), "actionSets": counting_sets()}));
        rec.explore(|ch, st| {
            for _ in 0..if thorough { 4 } else { 3 } {
                let (k, r) = (ch.pick(KINDS.len()), ch.flip());
                st.state(hash_of(&(k, r)));
                st.transition();
                counted(&mut s, k, r)?;
            }
            Ok(())
        });
    }));
    for first in 0..5 {
        v.push(job(format!("configurations from {first}"), move |rec: &mut Rec| {
            let good = lab::config_sets(counting_sets());
            let configs: Vec<(String, bool)> = vec![
                (good.clone(), true),
                (lab::config_sets(json!([])), true),
                (good[..good.len() - 1].to_string(), false),
                (good.replace("'NEVER'", "'NEV"), false),
                (String::new(), false),
            ];
            rec.sample(json!({"configurations": configs}));
            rec.explore(|ch, st| {
                proxy_wasm::host::reset();
                let mut s = lab::Session::new(&lab::config_sets(json!([]))).map_err(|e| (e, vec![]))?;
                // the empty configuration matches nothing
                let mut full = false;
                let mut log = vec![];
                for i in 0..if thorough { 4 } else { 3 } {
                    let k = if i == 0 {
                        first
                    } else {
                        ch.pick(configs.len() + if full { KINDS.len() } else { 0 })
                    };
                    st.transition();
                    st.state(hash_of(&(full, k)));
                    if let Some((cfg, good)) = configs.get(k) {
                        log.push(format!("configure {k}"));
                        let (ok, o) = s.vm.configure(cfg);
                        let o = lab::sane(o)?;
                        if ok != *good {
                            return Err((format!("configuration {k} accepted: {ok}"), log));
                        }
                        let got = counters(&o);
                        if *good && got != count(&[("configs", 1)]) {
                            return Err((format!("an accepted configuration counts {got:?}"), log));
                        }
                        if *good {
                            full = k == 0;
                        }
                        if got.keys().any(|k| k != "configs") {
                            return Err((format!("a refused configuration counts {got:?}"), log));
                        }
                    } else {
                        log.push(format!("request {}", KINDS[k - configs.len()].0));
                        if let Err((e, _)) = counted(&mut s, k - configs.len(), false) {
                            return Err((e, log));
                        }
                    }
                }
                Ok(())
            });
        }));
    }
    v
}

// ---------------------------------------------------------------- C17

fn leak(s: String) -> &'static str {
    Box::leak(s.into_boxed_str())
}

/// Scenarios that share one configuration, one after the other in one filter.
fn variants(name: impl Into<String>, list: Vec<Scenario>) -> Job {
    let name = name.into();
    job(name, move |rec: &mut Rec| {
        let mut vm = match boot(&config(&list[0])) {
            Ok(vm) => vm,
            Err(e) => {
                rec.violation(e, vec!["boot".into()], vec![]);
                return;
            }
        };
        rec.sample(
            json!({"requests": list.iter().take(3).map(|s| format!("{s:?}")).collect::<Vec<_>>(), "configuration": config(&list[0])}),
        );
        let mut id = 10u32;
        rec.explore(|ch, st| {
            id += 1;
            let k = ch.pick(list.len());
            run(&list[k], &mut vm, id, ch, st).map_err(|(e, mut log)| {
                let s = &list[k];
                log.insert(
                    0,
                    format!(
                        "x-request-id {:?}, trace {:?} {:?} {:?}",
                        s.request_id,
                        s.spelled.or(s.traceparent),
                        s.tracestate,
                        s.baggage
                    ),
                );
                (e, log)
            })
        });
    })
}

/// Two requests of one filter, in every order: their identifiers differ.
fn strangers(name: impl Into<String>, list: Vec<Scenario>) -> Job {
    let name = name.into();
    job(name, move |rec: &mut Rec| {
        let cfg = config_many(&list.iter().collect::<Vec<_>>());
        let mut vm = match boot(&cfg) {
            Ok(vm) => vm,
            Err(e) => {
                rec.violation(e, vec!["boot".into()], vec![]);
                return;
            }
        };
        rec.sample(json!({"requests": list.iter().map(|s| &s.name).collect::<Vec<_>>(), "configuration": cfg}));
        let mut id = 10u32;
        let mut known: BTreeSet<String> = BTreeSet::new();
        rec.explore(|ch, st| {
            id += list.len() as u32 + 1;
            let mut sims: Vec<Sim> = list.iter().enumerate().map(|(i, s)| Sim::open(s, &mut vm, id + i as u32)).collect();
            let mut order = vec![];
            let r = (|| -> Result<(), String> {
                loop {
                    st.state(hash_of(&sims.iter().map(|s| s.state()).collect::<Vec<_>>()));
                    let evs: Vec<(usize, Event)> = sims
                        .iter()
                        .enumerate()
                        .flat_map(|(i, s)| s.events().into_iter().map(move |e| (i, e)))
                        .collect();
                    if evs.is_empty() {
                        break;
                    }
                    let (i, ev) = evs[ch.pick(evs.len())];
                    st.transition();
                    order.push(i);
                    sims[i].step(ev, &mut vm, ch).map_err(|e| format!("request {i}: {e}"))?;
                }
                for s in &sims {
                    let Some(r) = s.rid.clone() else { continue };
                    if s.scenario().request_id.is_none() && !known.insert(r) {
                        return Err("two requests have the same generated identifier".into());
                    }
                }
                Ok(())
            })();
            for i in 0..list.len() {
                vm.forget(id + i as u32);
            }
            r.map_err(|e| (e, merged_log(&order, &sims)))
        });
    })
}

fn c17(thorough: bool) -> Vec<Job> {
    let mut v = vec![];
    let ident = |s: Scenario, h: Option<&'static str>| match h {
        Some(h) => s.ident(h).watch(IDENT),
        None => s.watch(IDENT),
    };
    let plain = |n: &str, acts: Vec<Act>| sc(n, acts).headers_only();
    let outcomes: Vec<(&str, Vec<Act>)> = vec![
        ("nothing", vec![]),
        ("guard", vec![guard(vec![])]),
        ("deny", vec![deny(403)]),
        ("refused by a service", vec![guard(vec![deny(403).when(Pred::Code(1))])]),
        ("background", vec![bg(vec![hdr_echo(true)])]),
        ("fail", vec![fail(true)]),
        ("late call", vec![guard(vec![]).when(Pred::Late)]),
        ("late deny", vec![deny(429).when(Pred::Late)]),
    ];
    let heads = [None, Some("x-request-id"), Some("X-Ident"), Some("x-ident")];
    // every identifier
    let ids: Vec<&'static str> = lab::strings(
        &["a", "'", "\"", "\\", " ", ",", "%", "{", "}", "$", "\u{e9}", "\n", "1"],
        if thorough { 3 } else { 2 },
    )
    .into_iter()
    .filter(|s| !s.is_empty())
    .chain([
        "0af7651916cd43dd8448eb211c80319c-00".repeat(4),
        "\u{e9}".repeat(150),
        format!("a{}", "\u{e9}".repeat(150)),
        format!("ab{}", "\u{1f600}".repeat(70)),
        "x".repeat(5000),
    ])
    .map(leak)
    .collect();
    for (n, acts) in &outcomes {
        for h in heads.iter().take(if thorough { 4 } else { 3 }) {
            for (k, part) in ids.chunks(200).enumerate() {
                let list = part
                    .iter()
                    .map(|r| ident(plain(n, acts.clone()).replies(&ok_fail()), *h).rid(r))
                    .collect();
                v.push(variants(format!("ids {n}, header {h:?} #{k}"), list));
            }
        }
    }
    // trace contexts
    let t32 = "4bf92f3577b34da6a3ce929d0e0e4736";
    let p16 = "00f067aa0ba902b7";
    let well = |v: &str, fl: &str, rest: &str| leak(format!("{v}-{t32}-{p16}-{fl}{rest}"));
    let means = |fl: &str| Some(leak(format!("00-{t32}-{p16}-{fl}")));
    // (spelling, meaning)
    let mut parents: Vec<(Option<&'static str>, Option<&'static str>)> = vec![(None, None)];
    for fl in ["00", "01"] {
        parents.push((Some(well("00", fl, "")), means(fl)));
        parents.push((Some(well("01", fl, "")), means(fl)));
        parents.push((Some(well("01", fl, "-more")), means(fl)));
    }
    for bad in [
        "".to_string(),
        "garbage".into(),
        format!("00-{t32}-{p16}"),
        format!("00-{}-{p16}-01", "0".repeat(32)),
        format!("00-{t32}-{}-01", "0".repeat(16)),
        format!("00-{}-{p16}-01", t32.to_uppercase()),
        format!("00-{t32}-{p16}-zz"),
        format!("ff-{t32}-{p16}-01"),
        format!("00-{t32}-{p16}-01-more"),
        format!("00-{}g-{p16}-01", &t32[1..]),
        "----".into(),
        format!("00-{t32}-\u{e9}{}-01", &p16[2..]),
    ] {
        parents.push((Some(leak(bad)), None));
    }
    let states = [
        None,
        Some("k=v"),
        Some("k=v,other@ven=1-2;3"),
        Some("rojo=00f067aa0ba902b7,congo=t61rcWkgMzE"),
        Some("k=v\nother@ven=1-2;3"),
    ];
    let bags = [
        None,
        Some("k=v"),
        Some("k=v,k2=v2,k3=v3"),
        Some("user=a%20b"),
        Some("k=%C3%A9%2C%3B"),
        Some("k=v\nk2=v2"),
    ];
    let calls: Vec<(&str, Vec<Act>)> = vec![
        ("guard and background", vec![guard(vec![]), bg(vec![])]),
        ("call after call", vec![guard(vec![guard_open(vec![])])]),
        ("late call", vec![guard(vec![]).when(Pred::Late)]),
    ];
    for tracing in [false, true] {
        for (n, acts) in &calls {
            for rid in [Some("rid-1"), None] {
                let mut list = vec![];
                for (spelled, p) in &parents {
                    for (i, state) in states.iter().enumerate() {
                        for (j, b) in bags.iter().enumerate() {
                            if !thorough && i > 1 && j > 1 {
                                continue;
                            }
                            let mut s = plain(n, acts.clone());
                            if tracing {
                                s = s.tracing();
                            }
                            (s.traceparent, s.spelled, s.tracestate, s.baggage, s.request_id) = (*p, *spelled, *state, *b, rid);
                            list.push(s.watch(IDENT));
                        }
                    }
                }
                v.push(variants(format!("trace context: {n}, traced {tracing}, id {rid:?}"), list));
            }
        }
    }
    // what else happens to the request or its headers must not matter
    let acts = vec![
        guard(vec![]),
        guard(vec![hdr(true)]),
        guard(vec![guard(vec![])]),
        guard(vec![deny(403).when(Pred::Code(2))]),
        guard_open(vec![deny(401)]),
        bg(vec![guard(vec![])]),
        guard(vec![]).when(Pred::Late),
        guard(vec![]).seq(),
        hdr(false).named("x-request-id"),
        hdr(false).named("traceparent"),
        hdr(false).named("baggage"),
        hdr(true).named("x-request-id"),
        deny(429).when(Pred::Late),
        fail(true).when(Pred::Late),
        bg(vec![deny(403)]).when(Pred::RespBody("/a", "x")),
    ];
    let mut variety = |n: &str, l: &[Act], f: &dyn Fn(Scenario) -> Scenario| {
        let s = f(sc(n, l.to_vec())
            .resp(&["{\"a\":\"x\"}"], &[("/a", "x")])
            .replies(&[Reply::Ok(1), Reply::Ok(2), Reply::Status(14)]))
        .watch(IDENT);
        let name = format!("{n} {} #{:x}", short(l), hash_of(&format!("{s:?}")) & 0xff_ffff);
        v.push(variants(name, vec![s]));
    };
    let tuples = tuples(&acts, if thorough { 3 } else { 2 });
    for l in &tuples {
        let full = l.len() < 3;
        variety("client's id", l, &|s| s.ident("x-ident").trace(TP1).baggage("k=v"));
        variety("no id", l, &|s| s.no_rid().ident("x-ident"));
        if full {
            variety("no identifier header", l, &|s| s.no_rid());
            variety("traced", l, &|s| s.no_rid().tracing().trace(TP2));
            variety("aborted", l, &|s| s.no_rid().ident("x-ident").aborts());
        }
    }
    for l in acts.chunks(1) {
        variety("strays", l, &|s| s.no_rid().ident("x-ident").bogus());
        variety("refused", l, &|s| s.no_rid().ident("x-ident").refuse(&[1]));
        variety("response with an identifier", l, &|mut s| {
            s.stale_ident = true;
            s.ident("x-ident")
        });
        variety("request body", l, &|s| s.no_rid().ident("x-ident").req(&["{", "}"], &[]));
    }
    // several requests
    let pair = |a: &Act, b: &Act| {
        vec![
            sc("A", vec![a.clone()])
                .no_rid()
                .ident("x-ident")
                .headers_only()
                .replies(&ok_fail())
                .watch(IDENT),
            sc("B", vec![b.clone()])
                .no_rid()
                .ident("x-ident")
                .headers_only()
                .watch(IDENT)
                .host("b.example.com"),
        ]
    };
    let some = &acts[..if thorough { 9 } else { 5 }];
    for a in some {
        for b in some {
            let l = pair(a, b);
            v.push(strangers(format!("two {}", short(&[a.clone(), b.clone()])), l.clone()));
            let mut l = l;
            l[0].request_id = Some("of-A");
            l[0].traceparent = Some(TP1);
            l[1].traceparent = Some(TP2);
            v.push(strangers(format!("two, one with an id {}", short(&[a.clone(), b.clone()])), l));
        }
    }
    v
}

// ---------------------------------------------------------------- C18

#[derive(Clone, Debug)]
struct Span {
    trace: String,
    id: String,
    parent: String,
    name: String,
    attrs: BTreeMap<String, String>,
}

fn spans(message: &[u8]) -> Result<Vec<Span>, String> {
    let hex = |b: &[u8]| b.iter().map(|x| format!("{x:02x}")).collect::<String>();
    let req = ExportTraceServiceRequest::decode(message).map_err(|e| format!("undecodable export: {e}"))?;
    let mut out = vec![];
    for r in &req.resource_spans {
        let service = r.resource.iter().flat_map(|r| &r.attributes).any(|a| a.key == "service.name");
        if !service {
            return Err("the export does not name the service".into());
        }
        for s in r.scope_spans.iter().flat_map(|s| &s.spans) {
            if s.end_time_unix_nano < s.start_time_unix_nano || s.start_time_unix_nano == 0 {
                return Err(format!("span {} ends before it starts", s.name));
            }
            let attrs = s
                .attributes
                .iter()
                .map(|a| {
                    let v = match a.value.as_ref().and_then(|v| v.value.as_ref()) {
                        Some(Any::StringValue(s)) => s.clone(),
                        o => format!("{o:?}"),
                    };
                    (a.key.clone(), v)
                })
                .collect();
            out.push(Span {
                trace: hex(&s.trace_id),
                id: hex(&s.span_id),
                parent: hex(&s.parent_span_id),
                name: s.name.clone(),
                attrs,
            });
        }
    }
    Ok(out)
}

const ROOT: &str = "kuadrant_filter";

/// Everything exported since the buffer was last empty, in order; the number
/// says which request sent it (none: it was still there at the end).
fn judge(list: &[(Option<usize>, Vec<Span>)], sims: &[Sim]) -> Result<(), String> {
    let mut all: BTreeMap<&str, &Span> = BTreeMap::new();
    for s in list.iter().flat_map(|(_, l)| l) {
        if all.insert(&s.id, s).is_some() {
            return Err(format!("a span '{}' is exported twice", s.name));
        }
    }
    // each span's root
    let root = |s: &Span| -> Option<Span> {
        let mut cur = s;
        for _ in 0..50 {
            if cur.name == ROOT {
                return Some(cur.clone());
            }
            cur = all.get(cur.parent.as_str())?;
        }
        None
    };
    // the span of the action a span belongs to: right below the root
    let branch = |s: &Span| -> Option<&str> {
        let mut cur = *all.get(s.id.as_str())?;
        for _ in 0..50 {
            let up = *all.get(cur.parent.as_str())?;
            if up.name == ROOT {
                return Some(&cur.id);
            }
            cur = up;
        }
        None
    };
    let mut at: BTreeMap<usize, (usize, usize)> = BTreeMap::new();
    for (k, sim) in sims.iter().enumerate() {
        let sc = sim.scenario();
        let aborted = sim.closed();
        let name = format!("set {}", if sims.len() == 1 { "*.example.com" } else { sc.host });
        let mine: Vec<(usize, &Span)> = list
            .iter()
            .enumerate()
            .flat_map(|(i, (_, l))| l.iter().map(move |s| (i, s)))
            .filter(|(_, s)| s.name == ROOT && Some(&s.attrs.get("request_id").cloned().unwrap_or_default()) == sim.rid.as_ref())
            .collect();
        if !sc.records() {
            if let Some((_, s)) = mine.first() {
                return Err(format!(
                    "request {k} is not to be recorded, but a span '{}' of it is exported",
                    s.name
                ));
            }
            continue;
        }
        if aborted && mine.is_empty() {
            continue;
        }
        let [(i, r)] = mine[..] else {
            return Err(format!("request {k} has {} root spans", mine.len()));
        };
        let own = list[i].0 == Some(k);
        if !own && !aborted {
            return Err(format!("the root span of request {k} is not part of its own export"));
        }
        for (a, want) in [("action_set", name.as_str()), ("hostname", sc.host)] {
            if r.attrs.get(a).map(|s| s.as_str()) != Some(want) {
                return Err(format!("the root span's {a} is {:?}; must be {want}", r.attrs.get(a)));
            }
        }
        let client = sc.traceparent.map(|t| t.split('-').collect::<Vec<_>>());
        match &client {
            Some(c) if r.trace != c[1] || r.parent != c[2] => {
                return Err("the root span does not continue the client's trace".into());
            }
            None if !r.parent.is_empty() => return Err("the root span has a parent though the client sent none".into()),
            _ => {}
        }
        if sim.trace_id.as_ref().is_some_and(|t| *t != r.trace) {
            return Err("the calls and the root span are of different traces".into());
        }
        at.insert(k, (i, 0));
    }
    for (i, (_, l)) in list.iter().enumerate() {
        for s in l {
            let Some(r) = root(s) else {
                if sims.iter().any(|s| s.closed()) {
                    continue;
                }
                return Err(format!("a span '{}' belongs to no exported request", s.name));
            };
            if r.trace != s.trace {
                return Err(format!("a span '{}' has another trace than its root span", s.name));
            }
            let rid = r.attrs.get("request_id").cloned();
            let Some(k) = sims.iter().position(|m| m.rid == rid) else {
                return Err(format!("spans of an unknown request {rid:?} are exported"));
            };
            if let Some((last, n)) = at.get_mut(&k) {
                *n += 1;
                if i > *last {
                    return Err(format!("a span '{}' of request {k} comes after its export", s.name));
                }
            }
        }
    }
    for (k, sim) in sims.iter().enumerate() {
        if !sim.scenario().records() || sim.closed() {
            continue;
        }
        let mut branches: BTreeMap<&str, &str> = BTreeMap::new();
        for (trace, span, tag) in &sim.parents {
            let action = tag.split('.').next().unwrap_or_default();
            match all.get(span.as_str()) {
                None => return Err(format!("a call of request {k} names a parent span that is never exported")),
                Some(s) if s.trace != *trace => return Err("a call names a parent span of another trace".into()),
                Some(s) => {
                    let r = root(s).and_then(|r| r.attrs.get("request_id").cloned());
                    if r != sim.rid {
                        return Err(format!("a call of request {k} names a parent span of another request"));
                    }
                    let Some(b) = branch(s) else {
                        return Err(format!("the call of action {tag} has no span of its own"));
                    };
                    if branches.insert(action, b).is_some_and(|old| old != b) {
                        return Err(format!("the calls of action {action} are in two places of the trace"));
                    }
                }
            }
        }
        let own: std::collections::BTreeSet<_> = branches.values().collect();
        if own.len() < branches.len() {
            return Err("the calls of two actions are of one span".into());
        }
    }
    Ok(())
}

fn traced_run(list: &[Scenario], vm: &mut Vm, first: u32, ch: &mut crate::dfs::Ch, st: &mut crate::report::Stats) -> Result<(), Fail> {
    flush(vm, first - 1).map_err(|e| (e, vec![]))?;
    let mut sims: Vec<Sim> = list.iter().enumerate().map(|(i, s)| Sim::open(s, vm, first + i as u32)).collect();
    let mut order = vec![];
    let mut sent: Vec<(Option<usize>, Vec<Span>)> = vec![];
    let mut seen = vec![0; sims.len()];
    let r = (|| -> Result<(), String> {
        loop {
            st.state(hash_of(&sims.iter().map(|s| s.state()).collect::<Vec<_>>()));
            let evs: Vec<(usize, Event)> = sims
                .iter()
                .enumerate()
                .flat_map(|(i, s)| s.events().into_iter().map(move |e| (i, e)))
                .collect();
            if evs.is_empty() {
                break;
            }
            let (i, ev) = evs[ch.pick(evs.len())];
            st.transition();
            order.push(i);
            sims[i].step(ev, vm, ch).map_err(|e| format!("request {i}: {e}"))?;
            for m in &sims[i].exported[seen[i]..] {
                sent.push((Some(i), spans(m)?));
            }
            seen[i] = sims[i].exported.len();
        }
        for i in 0..list.len() {
            vm.forget(first + i as u32);
        }
        let mut left = vec![];
        for m in flush(vm, first - 1)? {
            left.extend(spans(&m)?);
        }
        let own: Vec<String> = left
            .iter()
            .filter(|s| s.attrs.get("hostname").is_some_and(|h| h == FLUSH))
            .map(|s| s.trace.clone())
            .collect();
        left.retain(|s| !own.contains(&s.trace));
        sent.push((None, left));
        judge(&sent, &sims)
    })();
    for i in 0..list.len() {
        vm.forget(first + i as u32);
    }
    r.map_err(|e| (e, merged_log(&order, &sims)))
}

/// The log of several requests, in the order their events happened.
pub(super) fn merged_log(order: &[usize], sims: &[Sim]) -> Vec<String> {
    let mut at = vec![0; sims.len()];
    let mut log = vec![];
    for i in order {
        if let Some(l) = sims[*i].log.get(at[*i]) {
            log.push(format!("request {i}: {l}"));
        }
        at[*i] += 1;
    }
    log
}

fn traced(name: impl Into<String>, list: Vec<Scenario>) -> Job {
    let name = name.into();
    job(name, move |rec: &mut Rec| {
        let cfg = if list.len() == 1 {
            config(&list[0])
        } else {
            config_many(&list.iter().collect::<Vec<_>>())
        };
        let mut vm = match boot(&cfg) {
            Ok(vm) => vm,
            Err(e) => {
                rec.violation(e, vec!["boot".into()], vec![]);
                return;
            }
        };
        rec.sample(json!({"requests": list.iter().map(|s| &s.name).collect::<Vec<_>>(), "configuration": cfg}));
        let mut id = 10u32;
        rec.explore(|ch, st| {
            id += list.len() as u32 + 1;
            traced_run(&list, &mut vm, id, ch, st)
        });
    })
}

fn c18(thorough: bool) -> Vec<Job> {
    let w = EXPORT | IDENT | PAUSE | STUCK | REPLIES | AFTER | HOLD;
    let acts = vec![
        guard(vec![]),
        guard(vec![hdr_echo(false)]),
        guard(vec![deny(403).when(Pred::Code(1))]),
        guard(vec![guard(vec![deny(401).when(Pred::Code(2))])]),
        guard_open(vec![hdr_echo(true)]),
        bg(vec![]),
        bg(vec![hdr_echo(true)]),
        guard(vec![]).when(Pred::F),
        guard(vec![]).when(Pred::Late),
        guard(vec![]).msg(Msg::Err),
        guard(vec![]).seq(),
        hdr(false),
        hdr(true),
        store("a.b", Data::Id),
        deny(429),
        deny(429).when(Pred::Late),
        fail(true),
        bg(vec![]).when(Pred::RespBody("/a", "x")),
    ];
    let body = |s: Scenario| s.resp(&["{\"a\":\"x\"}"], &[("/a", "x")]).tracing().watch(w);
    let mut v = vec![];
    let mut add = |s: Scenario| {
        let n = format!("{} {} #{:x}", s.name, short(&s.acts), hash_of(&format!("{s:?}")) & 0xff_ffff);
        v.push(traced(n, vec![s]));
    };
    let r3 = [Reply::Ok(1), Reply::Ok(2), Reply::Status(14)];
    for a in &acts {
        let s = |n: &str| body(sc(n, vec![a.clone()])).replies(&r3);
        for level in [
            Some("TRACE"),
            Some("DEBUG"),
            Some("INFO"),
            Some("WARN"),
            Some("ERROR"),
            Some("OFF"),
            None,
        ] {
            add(s(&format!("level {level:?}")).level(level));
        }
        for tp in [TP1, TP3] {
            add(s("traced by client").trace(tp));
            add(s("traced by client").trace(tp).level(Some("INFO")));
            add(s("traced by client").trace(tp).level(Some("WARN")));
        }
        let mut f = s("export fails");
        f.export_fails = true;
        add(f.clone());
        f.export_fails = false;
        f.refuse_export = true;
        f.name = "export refused".into();
        add(f);
        add(s("no call sent").refuse(&[1]));
        add(s("stray").bogus());
        add(s("no response body").headers_only());
        if format!("{a:?}").contains("Late") {
            add(s("never known").never());
            add(s("never known, no response body").never().headers_only());
            for b in &acts {
                add(body(sc("never known", vec![a.clone(), b.clone()])).never().replies(&[Reply::Ok(1), Reply::Status(14)]));
            }
        }
        add(s("request body").req(&["{", "}"], &[]));
    }
    for l in exactly(&acts, 2) {
        add(body(sc("pair", l.clone())).trace(TP1).replies(&[Reply::Ok(1), Reply::Status(14)]));
        if thorough {
            let mut f = body(sc("pair, export fails", l)).replies(&r3);
            f.export_fails = true;
            add(f);
        }
    }
    if thorough {
        for l in exactly(&acts[..10], 3) {
            add(body(sc("triple", l)));
        }
    }
    // several requests: each span still goes out once, and not too late
    let two = |a: &[Act], b: &[Act]| {
        let mut l = vec![
            sc("A", a.to_vec()).tracing().rid("rid-A").headers_only().watch(w),
            sc("B", b.to_vec())
                .tracing()
                .rid("rid-B")
                .headers_only()
                .watch(w)
                .host("b.example.com"),
        ];
        l[0].replies = vec![Reply::Ok(1), Reply::Status(14)];
        l
    };
    let some = if thorough { &acts[..] } else { &acts[..6] };
    for a in some {
        for b in some {
            let l = two(&[a.clone()], &[b.clone()]);
            let n = short(&[a.clone(), b.clone()]);
            v.push(traced(format!("two: {n}"), l.clone()));
            let mut t = l.clone();
            (t[0].traceparent, t[1].traceparent) = (Some(TP1), Some(TP2));
            v.push(traced(format!("two, traced by clients: {n}"), t));
            if thorough {
                let mut t = l.clone();
                (t[0].traceparent, t[1].traceparent) = (Some(TP3), None);
                v.push(traced(format!("two, one unsampled: {n}"), t));
                let mut t = l;
                t[0].aborts = true;
                v.push(traced(format!("two, one gone: {n}"), t));
            }
        }
    }
    v
}

pub const TP1: &str = "00-11111111111111111111111111111111-1111111111111111-01";
pub const TP2: &str = "00-22222222222222222222222222222222-2222222222222222-01";
pub const TP3: &str = "00-33333333333333333333333333333333-3333333333333333-00";

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C16",
        level: "model_checking",
        rule: "every list of one or two (thorough: three) of 22 actions that succeed, fail and answer in different ways, with every reply, dispatches refused, requests aborted, traced and answered twice, in every order of events; every sequence of three (four) requests that match, don't, or cannot be selected; every history of three (four) configurations, good and bad, and requests: the counters after each callback are compared",
        assumptions: &[
            "what a refused configuration counts is left open",
            "an action set without actions counts as no match",
        ],
        jobs: c16,
    }, Prop {
        id: "C17",
        level: "model_checking",
        rule: "every client identifier of up to two (thorough: three) characters of a 13-letter alphabet for each way a request can end, every well-formed and a dozen malformed trace parents with trace state and baggage, every list of one or two (thorough: three) actions with and without a client identifier, and pairs of requests in every order of events; the metadata of every call and the identifier header are compared",
        assumptions: &["a client sends at most one x-request-id, and not an empty one"],
        jobs: c17,
    }, Prop {
        id: "C18",
        level: "model_checking",
        rule: "every list of one or two actions (thorough: three) traced at every level, with and without a trace of the client, exports refused or failing, alone and next to another request, every order of events; the exported spans are decoded and compared",
        assumptions: &[
            "tracing needs an identifier header to be configured, too",
            "the span buffer of 100 spans does not overflow",
        ],
        jobs: c18,
    }]
}
