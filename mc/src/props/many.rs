//! C15: several requests in one filter instance, in every interleaving. Each
//! runs in lockstep with its own model, which knows nothing of the others.
use super::Prop;
use crate::dfs::Ch;
use crate::pipe::*;
use crate::report::{job, Fail, Job, Rec, Stats};
use crate::vm::Vm;
use serde_json::json;

/// One execution of several requests; all of them run to their end.
fn run(list: &[Scenario], vm: &mut Vm, first: u32, ch: &mut Ch, st: &mut Stats) -> Result<(), Fail> {
    let mut sims: Vec<Sim> = list
        .iter()
        .enumerate()
        .map(|(i, s)| Sim::open(s, vm, first + i as u32))
        .collect();
    let mut order: Vec<usize> = vec![];
    let r = (|| loop {
        st.state(crate::report::hash_of(&sims.iter().map(|s| s.state()).collect::<Vec<_>>()));
        let evs: Vec<(usize, Event)> = sims
            .iter()
            .enumerate()
            .flat_map(|(i, s)| s.events().into_iter().map(move |e| (i, e)))
            .collect();
        if evs.is_empty() {
            for (i, s) in sims.iter().enumerate() {
                s.finish().map_err(|e| format!("request {i}: {e}"))?;
            }
            return distinct(&sims);
        }
        let (i, ev) = evs[ch.pick(evs.len())];
        st.transition();
        order.push(i);
        sims[i].step(ev, vm, ch).map_err(|e| format!("request {i}: {e}"))?;
    })();
    for i in 0..list.len() {
        vm.forget(first + i as u32);
    }
    r.map_err(|e: String| {
        let mut at = vec![0; sims.len()];
        let mut log = vec![];
        for i in order {
            if let Some(l) = sims[i].log.get(at[i]) {
                log.push(format!("request {i}: {l}"));
            }
            at[i] += 1;
        }
        (e, log)
    })
}

/// What is made up for a request is not made up for another one.
fn distinct(sims: &[Sim]) -> Result<(), String> {
    for (i, a) in sims.iter().enumerate() {
        for b in &sims[..i] {
            if a.rid.is_some() && a.rid == b.rid && [a, b].iter().any(|x| x.scenario().request_id.is_none()) {
                return Err("two requests share a generated identifier".into());
            }
            if a.trace_id.is_some() && a.trace_id == b.trace_id && [a, b].iter().any(|x| x.scenario().traceparent.is_none()) {
                return Err("two requests share a trace".into());
            }
        }
    }
    Ok(())
}

pub fn fleet(name: impl Into<String>, list: Vec<Scenario>) -> Job {
    let name = name.into();
    job(name.clone(), move |rec: &mut Rec| {
        let cfg = config_many(&list.iter().collect::<Vec<_>>());
        let mut vm = match boot(&cfg) {
            Ok(vm) => vm,
            Err(e) => {
                rec.violation(e, vec!["boot".into()], vec![]);
                return;
            }
        };
        rec.sample(json!({"requests": list.iter().map(|s| s.name.clone()).collect::<Vec<_>>(), "configuration": cfg}));
        let mut id = 10u32;
        rec.explore(|ch, st| {
            id += list.len() as u32 + 1;
            if list[0].tracing {
                flush(&mut vm, id - 1).map_err(|e| (e, vec![]))?;
            }
            run(&list, &mut vm, id, ch, st)
        });
    })
}

const TP1: &str = "00-11111111111111111111111111111111-1111111111111111-01";
const TP2: &str = "00-22222222222222222222222222222222-2222222222222222-01";
const TP3: &str = "00-33333333333333333333333333333333-3333333333333333-00";

/// Two requests of the same action set, told apart by everything they carry.
fn twins(s: &Scenario) -> Vec<Scenario> {
    let mut a = s.clone().rid("rid-A").salt("/A");
    let mut b = s.clone().rid("rid-B").salt("/B");
    a.name = format!("{} A", s.name);
    b.name = format!("{} B", s.name);
    vec![a, b]
}

fn c15(thorough: bool) -> Vec<Job> {
    let mut v = vec![];
    let r2 = [Reply::Ok(1), Reply::Status(14)];
    let trees: Vec<(&str, Vec<Act>)> = vec![
        ("guard", vec![guard(vec![hdr_echo(false)])]),
        ("open guard", vec![guard_open(vec![]), hdr(true)]),
        ("deny on reply", vec![guard(vec![deny(403).when(Pred::Code(1)), hdr_echo(true)])]),
        ("store", vec![guard(vec![store("a.b", Data::Echo).export()]), hdr_of(false, Data::Stored("a.b"))]),
        ("background", vec![bg(vec![hdr_echo(true)])]),
        ("nested", vec![guard(vec![guard(vec![hdr_echo(false)]).msg(Msg::Echo)])]),
        ("in turn", vec![guard(vec![]).seq(), hdr_of(false, Data::Id)]),
        ("late", vec![guard(vec![hdr_echo(true)]).msg(Msg::Late)]),
    ];
    // alike in everything but what they carry
    for (n, t) in &trees {
        let s = sc(*n, t.clone()).replies(&r2);
        let long = matches!(*n, "background" | "nested");
        let s = if long && !thorough { s.headers_only() } else { s };
        v.push(fleet(format!("twins: {n}"), twins(&s)));
    }
    // ... and what the client sends in the body
    let mut b = twins(&sc(
        "body",
        vec![guard(vec![]).when(Pred::ReqBody("/m", "a")), store("m", Data::ReqBody("/m")).export(), hdr_of(false, Data::Stored("m"))],
    ));
    for (s, (c, m)) in b.iter_mut().zip([(["{\"m\":", "\"a\"}"], "a"), (["{\"m\":\"b", "\"}"], "b")]) {
        *s = s.clone().req(&c, &[("/m", m)]).headers_only();
    }
    v.push(fleet("twins: request body", b));
    // traced, by the clients or not
    let traced = |n: &str, how: &str, t: [Option<&'static str>; 2], s: &Scenario| {
        let mut l = twins(&s.clone().tracing());
        for (s, tp) in l.iter_mut().zip(t) {
            s.traceparent = tp;
            s.headers_only = !thorough;
        }
        fleet(format!("traced {how}: {n}"), l)
    };
    for (n, t) in &trees {
        let few = matches!(*n, "guard" | "deny on reply" | "background" | "nested");
        if !few && !thorough {
            continue;
        }
        let s = sc(*n, t.clone());
        v.push(traced(n, "here", [None, None], &s));
        v.push(traced(n, "there", [Some(TP1), Some(TP2)], &s));
        if thorough || *n == "guard" {
            v.push(traced(n, "by one", [Some(TP1), None], &s));
            v.push(traced(n, "by the other", [None, Some(TP1)], &s));
            v.push(traced(n, "alike", [Some(TP1), Some(TP1)], &s));
            v.push(traced(n, "unsampled", [Some(TP3), Some(TP1)], &s));
        }
    }
    // identifiers made up by the filter
    for (n, t) in trees.iter().take(if thorough { 8 } else { 3 }) {
        let l: Vec<Scenario> = twins(&sc(*n, t.clone()).ident("x-ident").headers_only())
            .into_iter()
            .map(|s| s.no_rid())
            .collect();
        v.push(fleet(format!("no request id: {n}"), l));
    }
    // one is gone midway
    for (n, t) in &trees {
        for tracing in [false, true] {
            if tracing && !thorough && !matches!(*n, "guard") {
                continue;
            }
            let s = sc(*n, t.clone()).headers_only();
            let mut l = twins(&if tracing { s.tracing() } else { s });
            l[0] = l[0].clone().aborts();
            l[1].replies = if tracing && !thorough { ok() } else { r2.to_vec() };
            v.push(fleet(format!("one gone{}: {n}", if tracing { ", traced" } else { "" }), l));
        }
    }
    // different action sets
    let pairs: Vec<(usize, usize)> = if thorough {
        (0..trees.len()).flat_map(|i| (0..i).map(move |j| (i, j))).collect()
    } else {
        vec![(0, 2), (3, 0), (4, 1), (7, 3)]
    };
    for (i, j) in pairs {
        for tracing in [false, true] {
            if tracing && !thorough && (i, j) != (0, 2) {
                continue;
            }
            let mut l = twins(&sc("pair", vec![]).replies(&r2).headers_only());
            l[0].acts = trees[i].1.clone();
            l[1].acts = trees[j].1.clone();
            l[1].host = "other.example.com";
            if tracing {
                l = l.into_iter().map(|s| s.tracing().replies(&[Reply::Ok(1)])).collect();
            }
            v.push(fleet(format!("pair{}: {} / {}", if tracing { ", traced" } else { "" }, trees[i].0, trees[j].0), l));
        }
    }
    // one whose calls cannot be sent, or whose service answers nonsense
    for (n, t) in trees.iter().take(if thorough { 8 } else { 4 }) {
        let mut l = twins(&sc(*n, t.clone()).headers_only());
        l[0] = l[0].clone().refuse(&[1]);
        l[1].replies = vec![Reply::Ok(1), Reply::Garbage];
        v.push(fleet(format!("refused for one: {n}"), l));
    }
    // three at once
    for (n, t) in trees.iter().take(if thorough { 4 } else { 2 }) {
        let mut l = twins(&sc(*n, t.clone()).headers_only());
        let mut c = l[0].clone().rid("rid-C").salt("/C");
        c.name = format!("{n} C");
        c.replies = r2.to_vec();
        l.push(c);
        v.push(fleet(format!("three: {n}"), l));
    }
    v
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C15",
        level: "model_checking",
        rule: "every interleaving of the callbacks and replies of two or three requests in one filter instance, each request compared at every step with a model that knows only that request",
        assumptions: &["tracing and logging are settings of the whole filter process, not of a request"],
        jobs: c15,
    }]
}
