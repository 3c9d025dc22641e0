//! The action pipeline: families of action trees, explored in lockstep with the
//! reference model over every order of callbacks and replies.
use super::Prop;
use crate::pipe::*;
use crate::report::{hash_of, job, pipe, Job};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};

const ASSUME: &[&str] = &[
    "the proxy is replaced by a stand-in for the proxy-wasm host interface; the filter's own code is the real one, compiled natively",
    "callbacks are atomic, as in the proxy: one thread, no re-entrancy",
    "local replies may or may not run through the response callbacks; both are explored",
];

pub fn props() -> Vec<Prop> {
    let p = |id, rule, jobs| Prop {
        id,
        level: "model_checking",
        rule,
        assumptions: ASSUME,
        jobs,
    };
    vec![
        p("C01", "every list of one or two actions (thorough: three) from an alphabet of guard/non-guard calls and actions around them, every order of callbacks and replies, every reply outcome; pausing and resuming compared with the outstanding calls after each event", c01),
        p("C02", "every way a call can fail x failure mode x position in the tree x companion action x order; each event compared with the reference model", c02),
        p("C03", "every terminal outcome at every position next to one or two companions, every later event including stray replies; effects after the answer are violations", c03),
        p("C04", "all reply orders of two to four parallel calls for each assignment of outcomes to calls; outcomes compared across orders", c04),
        p("C05", "every list of two actions (thorough: three) parallel/sequential over all action types and outcomes, every reply order, lockstep with the dependency model", c05),
        p("C06", "every list of two or three actions, every schedule run until nothing can happen any more; no stream may be left paused", c06),
        p("C07", "action trees with a duplicate and an unknown reply injected at every possible moment", c07),
        p("C08", "every action type x kind of missing data x provider x companion x chunking, every order of events, lockstep with the reference model", c08),
        p("C09", "call trees sharing one variable, siblings and nesting up to four levels and twelve siblings, all reply orders; echoed values compared", c09),
        p("C10", "writers x readers of stored values in every position, all orders; values, waiting and exported properties compared", c10),
    ]
}

/// Every list of `n` of the given actions, with repetition.
pub(super) fn exactly(acts: &[Act], n: usize) -> Vec<Vec<Act>> {
    let mut last: Vec<Vec<Act>> = vec![vec![]];
    for _ in 0..n {
        last = last
            .iter()
            .flat_map(|l| {
                acts.iter().map(move |a| {
                    let mut l = l.clone();
                    l.push(a.clone());
                    l
                })
            })
            .collect();
    }
    last
}

/// Every list of up to `n` of the given actions.
pub(super) fn tuples(acts: &[Act], n: usize) -> Vec<Vec<Act>> {
    (1..=n).flat_map(|k| exactly(acts, k)).collect()
}

/// every interleaving of two short lists
pub(super) fn shuffles(a: &[Act], b: &[Act]) -> Vec<Vec<Act>> {
    match (a, b) {
        ([], b) => vec![b.to_vec()],
        (a, []) => vec![a.to_vec()],
        ([x, ra @ ..], [y, rb @ ..]) => {
            let mut v = vec![];
            for mut r in shuffles(ra, b) {
                r.insert(0, x.clone());
                v.push(r);
            }
            for mut r in shuffles(a, rb) {
                r.insert(0, y.clone());
                v.push(r);
            }
            v
        }
    }
}

fn count_calls(acts: &[Act]) -> usize {
    acts.iter()
        .map(|a| match &a.op {
            Op::Grpc { on_reply, .. } => 1 + count_calls(on_reply),
            _ => 0,
        })
        .sum()
}

/// One job per distinct scenario; the names identify the scenario.
pub(super) fn jobs(list: Vec<Scenario>) -> Vec<Job> {
    let mut seen = BTreeSet::new();
    list.into_iter()
        .filter_map(|mut s| {
            let mut d = s.clone();
            d.name = String::new();
            let key = format!("{d:?}");
            if !seen.insert(hash_of(&key)) {
                return None;
            }
            s.name = format!("{} {} #{:x}", s.name, short(&s.acts), hash_of(&key) & 0xff_ffff);
            Some(pipe(s))
        })
        .collect()
}

pub(super) fn short(acts: &[Act]) -> String {
    let one = |a: &Act| {
        let op = match &a.op {
            Op::Grpc { svc, guard, msg, on_reply } => format!(
                "{}{}{}{}",
                if *guard { "guard" } else { "call" },
                if *svc == Svc::Allow { "?" } else { "" },
                if *msg == Msg::Tag { String::new() } else { format!(" {msg:?}") },
                if on_reply.is_empty() { String::new() } else { format!("->({})", short(on_reply)) }
            ),
            Op::Deny { status, body } => format!("deny {status} {body:?}"),
            Op::Headers { resp, val, name } => format!("hdr{} {val:?}{}", if *resp { "-resp" } else { "" }, name.unwrap_or("")),
            Op::Store { path, val, export } => format!("store{} {path}={val:?}", if *export { "!" } else { "" }),
            Op::Fail { terminal } => format!("fail{}", if *terminal { "!" } else { "" }),
        };
        let p = if a.pred == Pred::T { String::new() } else { format!(" if {:?}", a.pred) };
        format!("{}{op}{p}", if a.seq { "seq " } else { "" })
    };
    acts.iter().map(one).collect::<Vec<_>>().join("; ")
}

const OK: &[Reply] = &[Reply::Ok(1)];
const OK_FAIL: &[Reply] = &[Reply::Ok(1), Reply::Status(14)];
const OUTCOMES: &[Reply] = &[Reply::Ok(1), Reply::Ok(2), Reply::Status(14), Reply::Garbage];

// ---------------------------------------------------------------- C01

fn c01(thorough: bool) -> Vec<Job> {
    let w = PAUSE | HOLD;
    let wide = vec![
        guard(vec![]),
        bg(vec![]),
        guard_open(vec![]),
        bg_open(vec![]),
        bg(vec![deny(403)]),
        bg(vec![guard(vec![])]),
        guard(vec![bg(vec![])]),
        guard(vec![deny(403).when(Pred::Code(2))]),
        guard(vec![guard(vec![]).msg(Msg::Echo)]),
        guard(vec![guard(vec![]), guard_open(vec![])]),
        guard(vec![hdr_echo(false)]),
        guard(vec![guard(vec![]).when(Pred::Late)]),
        guard(vec![]).when(Pred::Late),
        guard_open(vec![]).when(Pred::Late),
        guard(vec![]).msg(Msg::Late),
        bg(vec![]).when(Pred::Late),
        guard(vec![]).seq(),
        bg(vec![]).seq(),
        guard(vec![]).when(Pred::F),
        deny(429),
        deny(429).seq(),
        hdr(true),
        hdr(true).seq(),
        deny(429).when(Pred::Late),
        fail(true),
        fail(false),
        guard(vec![]).when(Pred::Err),
        guard(vec![]).msg(Msg::Err),
        guard_open(vec![]).msg(Msg::Err),
        deny(429).when(Pred::Err).seq(),
        store("st.a", Data::Id),
        guard(vec![]).when(Pred::Stored("st.a", "0")),
        guard(vec![store("st.a", Data::Echo)]),
    ];
    let narrow = vec![
        guard(vec![]),
        bg(vec![]),
        guard_open(vec![]),
        guard(vec![guard(vec![])]),
        bg(vec![guard(vec![])]),
        guard(vec![]).seq(),
        guard(vec![]).when(Pred::Late),
        bg(vec![]).when(Pred::Late),
        hdr(true),
    ];
    let bodied = vec![
        guard(vec![]),
        bg(vec![]),
        guard(vec![guard(vec![])]),
        guard(vec![]).when(Pred::Late),
        guard(vec![]).seq(),
        guard(vec![]).msg(Msg::RespBody("/a")),
        bg(vec![]).msg(Msg::RespBody("/a")),
        guard(vec![]).when(Pred::RespBody("/a", "x")),
    ];
    let mut l: Vec<Scenario> = tuples(&wide, 2)
        .into_iter()
        .map(|a| {
            let r = match count_calls(&a) {
                0..=3 => OUTCOMES,
                4 | 5 => OK_FAIL,
                _ if thorough => OK_FAIL,
                _ => OK,
            };
            sc("pair", a).replies(r).watch(w)
        })
        .collect();
    l.extend(exactly(&narrow, 3).into_iter().map(|a| {
        sc("triple", a)
            .replies(if thorough { OK_FAIL } else { OK })
            .watch(w)
    }));
    for a in tuples(&bodied, 2) {
        l.push(
            sc("bodies", a.clone())
                .req(&["{\"r\":", "1}"], &[])
                .resp(&["{\"a\":", "\"x\"}"], &[("/a", "x")])
                .replies(OK_FAIL)
                .watch(w),
        );
        l.push(sc("no body", a).headers_only().replies(OK_FAIL).watch(w));
    }
    for a in tuples(&wide[..if thorough { 14 } else { 10 }], 2) {
        l.push(sc("traced", a.clone()).tracing().replies(if thorough { OK_FAIL } else { OK }).watch(w));
        l.push(sc("refused dispatch", a.clone()).refuse(&[1]).replies(OK_FAIL).watch(w));
        l.push(sc("refused dispatch", a.clone()).refuse(&[2]).replies(OK).watch(w));
    }
    for a in tuples(&wide[..if thorough { 12 } else { 6 }], 2) {
        l.push(sc("stray replies", a).bogus().replies(if thorough { OK_FAIL } else { OK }).watch(w));
    }
    if thorough {
        l.extend(exactly(&wide[..26], 3).into_iter().map(|a| sc("triple", a).replies(OK_FAIL).watch(w)));
        l.extend(exactly(&narrow[..5], 4).into_iter().map(|a| sc("four", a).replies(OK).watch(w)));
    }
    jobs(l)
}

// ---------------------------------------------------------------- C02

/// calls that fail in every possible way, by the action itself
fn failing(c: fn(Vec<Act>) -> Act) -> Vec<Act> {
    vec![
        c(vec![]),
        c(vec![hdr_echo(true)]),
        c(vec![hdr_echo(false), bg(vec![]).msg(Msg::Echo)]),
        c(vec![]).when(Pred::Err),
        c(vec![]).when(Pred::NonBool),
        c(vec![]).msg(Msg::Err),
        c(vec![]).msg(Msg::Echo),
        c(vec![]).when(Pred::Late),
        c(vec![]).when(Pred::Late).msg(Msg::Err),
        c(vec![]).msg(Msg::Late),
        c(vec![]).when(Pred::RespBody("/a", "x")),
        c(vec![]).when(Pred::RespBody("/none", "x")),
        c(vec![]).msg(Msg::RespBody("/none")),
        c(vec![]).when(Pred::Stored("st.none", "x")),
        c(vec![]).msg(Msg::Stored("st.a")),
    ]
}

fn c02(thorough: bool) -> Vec<Job> {
    let w = CALLS | REPLIES | METRICS | PAUSE | HEADERS | AFTER;
    let all: &[Reply] = &[Reply::Ok(1), Reply::Status(14), Reply::Garbage, Reply::Empty];
    let companions = vec![
        guard(vec![]),
        bg(vec![]),
        hdr(true),
        hdr(false).seq(),
        store("st.a", Data::Id),
        deny(429).when(Pred::Late),
        guard(vec![store("st.a", Data::Echo)]),
    ];
    let mut l = vec![];
    for c in [guard, guard_open, bg, bg_open] {
        for f in failing(c) {
            let body = |s: Scenario| s.resp(&["{\"a\":", "\"x\"}"], &[("/a", "x")]).watch(w);
            let f1 = f.clone();
            let mut trees = vec![
                vec![f.clone()],
                vec![f.clone().seq()],
                vec![guard(vec![f.clone()])],
                vec![bg(vec![f.clone()])],
                vec![guard(vec![guard(vec![f.clone()])])],
                vec![guard(vec![f.clone(), hdr(false)])],
                vec![guard(vec![hdr(true), f.clone(), guard_open(vec![])])],
                vec![guard_open(vec![guard(vec![]), f.clone()])],
            ];
            for k in &companions {
                trees.push(vec![f.clone(), k.clone()]);
                trees.push(vec![k.clone(), f.clone()]);
                trees.push(vec![k.clone().seq(), f1.clone().seq(), hdr(false).seq()]);
                if thorough {
                    trees.push(vec![f.clone().seq(), k.clone(), hdr(false)]);
                    trees.push(vec![guard(vec![f.clone(), k.clone()])]);
                    trees.push(vec![guard(vec![f.clone()]), k.clone()]);
                    trees.push(vec![k.clone(), guard(vec![guard_open(vec![f.clone()])])]);
                    for k2 in &companions[..4] {
                        trees.push(vec![k.clone(), f.clone(), k2.clone()]);
                    }
                }
            }
            for t in trees {
                l.push(body(sc("fail", t.clone())).replies(if t.len() > 1 && !thorough { OK_FAIL } else { all }));
                for n in 1..=2u32 {
                    l.push(body(sc(format!("dispatch {n} refused"), t.clone())).refuse(&[n]).replies(OK));
                }
                if thorough {
                    l.push(body(sc("all dispatches refused", t.clone())).refuse(&[1, 2, 3]).replies(OK));
                    l.push(sc("fail, one chunk", t.clone()).watch(w).replies(OK_FAIL));
                    l.push(body(sc("fail, traced", t)).tracing().replies(OK_FAIL));
                }
            }
        }
    }
    jobs(l)
}

// ---------------------------------------------------------------- C03

fn c03(thorough: bool) -> Vec<Job> {
    let w = REPLIES | AFTER | CALLS | HEADERS | PROPS;
    let terminal = vec![
        deny(429),
        deny_with(403, Data::Stored("st.a")),
        fail(true),
        deny(429).when(Pred::Late),
        deny_with(401, Data::Late),
        guard(vec![deny(403)]),
        guard(vec![deny_with(403, Data::Echo)]),
        guard(vec![fail(true)]),
        bg(vec![deny(403)]),
        bg(vec![deny(403).when(Pred::Late)]),
        guard(vec![guard(vec![deny(403)])]),
        guard(vec![]).when(Pred::Err),
        guard(vec![]).msg(Msg::Err),
        guard(vec![]).when(Pred::Late).msg(Msg::Err),
        bg(vec![]).msg(Msg::Late),
        guard(vec![guard(vec![]).msg(Msg::Err), guard(vec![])]),
        deny(429).when(Pred::RespBody("/a", "x")),
        bg(vec![]).when(Pred::RespBody("/none", "x")),
    ];
    let companions = vec![
        guard(vec![]),
        guard(vec![hdr_echo(false), guard(vec![])]),
        bg(vec![hdr_echo(true), bg(vec![])]),
        guard_open(vec![guard(vec![])]),
        bg(vec![deny(418)]),
        guard(vec![]).seq(),
        bg(vec![]).when(Pred::Late),
        hdr(true),
        hdr(false).seq(),
        store("st.a", Data::Id).export(),
        deny(418),
        fail(true).when(Pred::Late),
    ];
    let body = |s: Scenario| s.resp(&["{\"a\":\"x\"}"], &[("/a", "x")]).watch(w);
    let mut l = vec![];
    for t in &terminal {
        l.push(body(sc("alone", vec![t.clone()])).bogus().replies(OUTCOMES));
        for c in &companions {
            for s in shuffles(&[t.clone()], &[c.clone()]) {
                l.push(body(sc("pair", s.clone())).bogus().replies(OK_FAIL));
                l.push(body(sc("traced pair", s.clone())).tracing().replies(OK_FAIL));
                if thorough {
                    l.push(body(sc("pair with request body", s)).req(&["{", "}"], &[]).bogus().replies(OUTCOMES));
                }
            }
            for c2 in &companions {
                if thorough {
                    for s in shuffles(&[t.clone()], &[c.clone(), c2.clone()]) {
                        l.push(body(sc("triple", s)).replies(OK_FAIL));
                    }
                } else {
                    l.push(body(sc("triple", vec![c.clone(), t.clone(), c2.clone()])).replies(OK));
                }
            }
        }
        for t2 in &terminal {
            l.push(body(sc("two terminals", vec![t.clone(), guard(vec![]), t2.clone()])).replies(OK_FAIL));
            l.push(body(sc("two terminals", vec![t.clone(), t2.clone()])).refuse(&[1]).replies(OK));
        }
    }
    jobs(l)
}

// ---------------------------------------------------------------- C04

/// All schedules of one scenario; the outcome must be a function of which call
/// got which reply.
fn same_outcome(s: Scenario) -> Job {
    let name = format!("{} {}", s.name, short(&s.acts));
    job(name, move |rec| {
        let mut s = s.clone();
        s.watch = 0;
        let mut vm = match boot(&config(&s)) {
            Ok(vm) => vm,
            Err(e) => return rec.violation(e, vec!["boot".into()], vec![]),
        };
        rec.sample(json!({"scenario": short(&s.acts)}));
        let mut seen: BTreeMap<Vec<String>, (String, Vec<String>)> = BTreeMap::new();
        let mut id = 10u32;
        rec.explore(|ch, st| {
            id += 1;
            let mut sim = Sim::open(&s, &mut vm, id);
            let r = drive(&mut sim, &mut vm, ch, st);
            let hd = vm.headers(id);
            vm.forget(id);
            if let Err(e) = r {
                return Err((e, sim.log));
            }
            let mut replies: Vec<String> = sim.log.iter().filter(|l| l.starts_with("reply to")).map(|l| {
                // tokens depend on the order of dispatch
                let (a, b) = l.split_once(" (token").unwrap_or((l, ""));
                format!("{a}{}", b.split_once(')').map_or("", |x| x.1))
            }).collect();
            replies.sort();
            let mut calls = sim.seen_calls.clone();
            calls.sort();
            let mut props = sim.seen_props.clone();
            props.sort();
            let mut hs: Vec<(String, String)> = hd.0.iter().chain(&hd.1).cloned().collect();
            hs.sort();
            let refused = !sim.seen_replies.is_empty();
            if sim.seen_replies.len() > 1 {
                return Err((format!("{} refusals delivered", sim.seen_replies.len()), sim.log));
            }
            if refused && sim.let_through {
                return Err(("a refused request is let through".into(), sim.log));
            }
            // whether it is refused must not depend on the order; when it is,
            // which refusal and what was done before may
            let out = if refused {
                "refused".to_string()
            } else {
                format!("let through={} calls={calls:?} props={props:?} headers={hs:?}", sim.let_through)
            };
            // when refused, not every call is made or answered: compare only
            // executions with the same answers
            let key = replies;
            match seen.get(&key) {
                Some((o, log)) if *o != out => {
                    let mut l = sim.log.clone();
                    l.push("--- as opposed to:".into());
                    l.extend(log.iter().cloned());
                    Err((format!("outcome depends on the order: {out}; or {o}"), l))
                }
                Some(_) => Ok(()),
                None => {
                    seen.insert(key, (out, sim.log));
                    Ok(())
                }
            }
        });
    })
}

fn c04(thorough: bool) -> Vec<Job> {
    let w = CALLS | REPLIES | HEADERS | PROPS | PAUSE;
    let calls = vec![
        guard(vec![]),
        guard(vec![hdr_echo(false)]),
        guard(vec![hdr_echo(true)]),
        guard(vec![guard(vec![hdr_echo(true)]).msg(Msg::Echo)]),
        guard_open(vec![hdr_echo(false)]),
        guard(vec![store("st.a", Data::Echo).export()]),
        guard(vec![hdr_of(true, Data::Stored("st.a"))]),
        guard(vec![]).msg(Msg::Stored("st.a")),
        guard(vec![deny(403).when(Pred::Code(2))]),
        bg(vec![hdr_echo(true)]).when(Pred::T),
    ];
    let mut l = vec![];
    let once = |a: &[Act]| {
        // two stores to one path are order dependent by definition
        a.iter().filter(|x| format!("{x:?}").contains("Store {")).count() <= 1
    };
    let wide: &[Reply] = &[Reply::Ok(1), Reply::Ok(2), Reply::Status(14)];
    for a in exactly(&calls, 2) {
        if once(&a) {
            l.push((a.clone(), if a.iter().any(|x| *x == calls[9]) { OK } else { wide }, 1));
        }
    }
    for a in exactly(&calls[..9], 3) {
        if once(&a) && (thorough || hash_of(&format!("{a:?}")) % 2 == 0 || a.contains(&calls[5])) {
            l.push((a, OK, 1));
        }
    }
    for a in exactly(&[calls[1].clone(), calls[4].clone(), calls[8].clone()], 3) {
        l.push((a, wide, 0));
    }
    for a in exactly(&[calls[1].clone(), calls[2].clone()], 4) {
        l.push((a, OK, 0));
    }
    if thorough {
        for a in exactly(&calls[..9], 3) {
            if once(&a) {
                l.push((a, OK_FAIL, 1));
            }
        }
        for a in exactly(&calls[..8], 4) {
            if once(&a) && hash_of(&format!("{a:?}")) % 4 == 0 {
                l.push((a, OK, 0));
            }
        }
    }
    let mut out = vec![];
    let mut model = vec![];
    for (a, r, body) in l {
        let mk = || {
            let s = sc("order", a.clone()).replies(r);
            if body == 1 { s.req(&["{}"], &[]) } else { s }
        };
        out.push(same_outcome(mk()));
        model.push(mk().watch(w));
    }
    out.extend(jobs(model));
    out
}

// ---------------------------------------------------------------- C05

fn c05(thorough: bool) -> Vec<Job> {
    let w = CALLS | REPLIES | HEADERS | PROPS;
    let base = vec![
        guard(vec![]),
        guard_open(vec![hdr_echo(false)]),
        bg(vec![]),
        guard(vec![]).when(Pred::F),
        guard_open(vec![]).when(Pred::Err),
        guard(vec![]).when(Pred::Late),
        hdr(false),
        hdr(true),
        hdr_err(),
        store("st.a", Data::Id).export(),
        store("st.b", Data::Stored("st.a")).export(),
        deny(429).when(Pred::F),
        deny(429).when(Pred::Err),
        fail(false),
        deny(429),
        hdr(false).when(Pred::Late),
    ];
    let both: Vec<Act> = base.iter().flat_map(|a| [a.clone(), a.clone().seq()]).collect();
    let mut l: Vec<Scenario> = tuples(&both, 2)
        .into_iter()
        .map(|a| sc("pair", a).replies(OK_FAIL).watch(w))
        .collect();
    // what comes after is visible as a header change or a call
    let few: Vec<Act> = [0usize, 1, 2, 6, 7, 9, 12, 13]
        .iter()
        .flat_map(|i| [base[*i].clone(), base[*i].clone().seq()])
        .collect();
    for a in exactly(&few, 3) {
        let fences = a.iter().filter(|x| x.seq).count();
        if fences == 0 || !(thorough || fences >= 1 && a.iter().filter(|x| matches!(x.op, Op::Grpc { .. })).count() <= 2) {
            continue;
        }
        l.push(sc("triple", a).replies(if thorough { OK_FAIL } else { OK }).watch(w));
    }
    let tiny = vec![
        guard_open(vec![]),
        guard_open(vec![]).seq(),
        hdr(false),
        hdr(false).seq(),
        store("st.a", Data::Id).export().seq(),
    ];
    for a in exactly(&tiny, 4) {
        let calls = a.iter().filter(|x| matches!(x.op, Op::Grpc { .. })).count();
        if a.iter().any(|x| x.seq) && (calls <= 3 || thorough) {
            l.push(sc("four", a).replies(if calls <= 2 || thorough { OK_FAIL } else { OK }).watch(w));
        }
    }
    // more than ten actions: ids of more than one digit
    for at in [1usize, 2, 9, 10, 11] {
        let mut a: Vec<Act> = (0..12).map(|_| hdr(false).when(Pred::F)).collect();
        a[0] = guard(vec![]);
        a[at] = guard(vec![]).seq();
        a[11] = if at == 11 { guard(vec![]).seq() } else { hdr(false) };
        l.push(sc("twelve", a.clone()).replies(OK_FAIL).watch(w));
        let mut b = a.clone();
        b[1] = guard_open(vec![guard_open(vec![])]);
        if at > 2 {
            b[at - 1] = hdr(false);
        }
        l.push(sc("twelve", b).replies(OK).watch(w));
    }
    jobs(l)
}

// ---------------------------------------------------------------- C06

fn c06(thorough: bool) -> Vec<Job> {
    let w = STUCK;
    let acts = vec![
        guard(vec![]),
        bg(vec![]),
        guard_open(vec![]),
        guard(vec![guard(vec![])]),
        bg(vec![guard(vec![])]),
        bg(vec![bg(vec![])]),
        guard(vec![deny(403)]),
        bg(vec![deny(403)]),
        guard(vec![guard(vec![deny(403)])]),
        guard(vec![]).seq(),
        bg(vec![]).seq(),
        guard(vec![]).when(Pred::Late),
        bg(vec![]).when(Pred::Late),
        guard(vec![]).msg(Msg::Late),
        guard(vec![]).when(Pred::ReqBody("/none", "x")),
        guard(vec![]).when(Pred::RespBody("/none", "x")),
        bg(vec![]).msg(Msg::RespBody("/none")),
        bg(vec![]).msg(Msg::RespBody("/a")),
        guard_open(vec![]).msg(Msg::RespBody("/a")),
        hdr(true),
        hdr_of(true, Data::RespBody("/a")),
        hdr_of(false, Data::ReqBody("/none")).seq(),
        deny(429),
        deny(429).when(Pred::Late),
        deny(429).when(Pred::RespBody("/a", "x")),
        fail(true),
        fail(false).when(Pred::RespBody("/none", "x")),
        store("st.a", Data::RespBody("/a")),
        store("st.a", Data::RespBody("/none")),
        guard(vec![]).when(Pred::Stored("st.a", "x")),
        guard(vec![store("st.a", Data::Echo)]),
    ];
    let body: (&[&'static str], &[(&'static str, &'static str)]) = (&["{\"a\":", "\"x\"}"], &[("/a", "x")]);
    let mut l = vec![];
    for a in tuples(&acts, 2) {
        l.push(sc("pair", a.clone()).resp(body.0, body.1).replies(OUTCOMES).watch(w));
        l.push(sc("pair, no bodies", a.clone()).headers_only().replies(OK_FAIL).watch(w));
        if format!("{a:?}").contains("Late") {
            l.push(sc("pair, never known", a.clone()).never().resp(body.0, body.1).replies(OK_FAIL).watch(w));
            l.push(sc("pair, never known, no bodies", a.clone()).never().headers_only().replies(OK_FAIL).watch(w));
        }
        l.push(sc("pair, request body", a.clone()).req(&["{", "}"], &[]).resp(body.0, body.1).replies(OK).watch(w));
        l.push(sc("pair, traced", a.clone()).tracing().resp(body.0, body.1).replies(OK_FAIL).watch(w));
        l.push(sc("pair, dispatch refused", a.clone()).resp(body.0, body.1).refuse(&[1]).replies(OK_FAIL).watch(w));
        l.push(sc("pair, stray replies", a).bogus().replies(OK).watch(w));
    }
    let few: Vec<Act> = [0usize, 1, 3, 5, 7, 10, 12, 17, 19, 24].iter().map(|i| acts[*i].clone()).collect();
    for a in exactly(&few, 3) {
        l.push(sc("triple", a.clone()).resp(body.0, body.1).replies(OK).watch(w));
        if thorough {
            l.push(sc("triple, no bodies", a.clone()).headers_only().replies(OK_FAIL).watch(w));
            l.push(sc("triple", a).resp(&["{\"a\":\"x\"}"], body.1).replies(OK_FAIL).watch(w));
        }
    }
    if thorough {
        for a in exactly(&acts, 3) {
            l.push(sc("triple", a).resp(&["{\"a\":\"x\"}"], body.1).replies(OK).watch(w));
        }
    }
    jobs(l)
}

// ---------------------------------------------------------------- C07

fn c07(thorough: bool) -> Vec<Job> {
    let acts = vec![
        guard(vec![]),
        bg(vec![]),
        guard_open(vec![]),
        guard(vec![guard(vec![]).msg(Msg::Echo)]),
        guard(vec![hdr_echo(false), bg(vec![])]),
        bg(vec![hdr_echo(true)]),
        guard(vec![deny(403)]),
        bg(vec![deny(403)]),
        guard(vec![]).seq(),
        guard(vec![]).when(Pred::Late),
        bg(vec![]).when(Pred::Late),
        bg(vec![]).msg(Msg::Late),
        guard(vec![]).msg(Msg::RespBody("/a")),
        guard(vec![]).when(Pred::F),
        deny(429),
        hdr(true),
        store("st.a", Data::Id),
        guard(vec![]).msg(Msg::Stored("st.a")),
    ];
    let mk = |n: &str, a: Vec<Act>| {
        sc(n, a)
            .resp(&["{\"a\":", "\"x\"}"], &[("/a", "x")])
            .watch(CALLS | ONCE | AFTER)
            .stray(REPLIES | HEADERS | METRICS | PAUSE | PROPS | EXPORT)
            .bogus()
    };
    let mut l = vec![];
    for a in tuples(&acts, 2) {
        l.push(mk("pair", a.clone()).replies(OK_FAIL));
        if thorough {
            l.push(mk("pair, traced", a.clone()).tracing().replies(OK_FAIL));
            l.push(mk("pair, request body", a).req(&["{", "}"], &[]).replies(OK_FAIL));
        }
    }
    for i in 0..acts.len() {
        l.push(mk("one, traced", vec![acts[i].clone()]).tracing().replies(OUTCOMES));
        l.push(mk("one, request body", vec![acts[i].clone()]).req(&["{", "}"], &[]).replies(OUTCOMES));
    }
    let few: Vec<Act> = [0usize, 1, 3, 6, 10, 12].iter().map(|i| acts[*i].clone()).collect();
    for a in exactly(&few, 3) {
        let s = mk("triple", a).replies(OK);
        l.push(if thorough { s } else { Scenario { bogus: false, ..s } });
    }
    jobs(l)
}

/// Expressions of two stored values, which come one after the other.
fn two_values(w: u32, replies: &'static [Reply]) -> Vec<Scenario> {
    let mut l = vec![];
    for (p, q) in [("sta", "stb"), ("st.a", "st.b"), ("sta", "st.b"), ("st.a", "su.b")] {
        for x in [
            store(p, Data::Id),
            guard(vec![store(p, Data::Echo)]),
            store(p, Data::Late),
            store(p, Data::Err),
            store(p, Data::Id).when(Pred::F),
        ] {
            for y in [
                store(q, Data::Id),
                bg(vec![store(q, Data::Echo)]),
                store(q, Data::ReqBody("/r")),
                store(q, Data::Err),
                bg(vec![store(q, Data::Id).when(Pred::Code(2))]),
            ] {
                for z in [
                    guard(vec![]).msg(Msg::Both(p, q)),
                    hdr_of(true, Data::Both(p, q)),
                    store("sv.c", Data::Both(q, p)).export(),
                ] {
                    for v in shuffles(&[x.clone(), y.clone()], &[z.clone()]) {
                        l.push(
                            sc("two values", v)
                                .req(&["{\"r\":\"q\"}"], &[("/r", "q")])
                                .resp(&["{\"a\":\"x\"}"], &[("/a", "x")])
                                .watch(w)
                                .replies(replies),
                        );
                    }
                }
            }
        }
    }
    l
}

// ---------------------------------------------------------------- C08

fn c08(thorough: bool) -> Vec<Job> {
    let w = CALLS | REPLIES | HEADERS | PROPS | METRICS | ONCE;
    let preds = [
        Pred::Late,
        Pred::ReqBody("/r", "q"),
        Pred::ReqBody("/none", "q"),
        Pred::RespBody("/a", "x"),
        Pred::RespBody("/none", "x"),
        Pred::Stored("st.a", "x"),
        Pred::Stored("st.a", "0"),
    ];
    let data = [
        Data::Late,
        Data::ReqBody("/r"),
        Data::ReqBody("/none"),
        Data::RespBody("/a"),
        Data::RespBody("/none"),
        Data::Stored("st.a"),
    ];
    let mut waiting: Vec<Act> = vec![];
    for p in preds {
        for a in [
            guard(vec![]),
            guard_open(vec![hdr_echo(true)]),
            bg(vec![]),
            deny(429),
            hdr(false),
            hdr(true),
            store("st.b", Data::Id).export(),
            fail(true),
            fail(false),
        ] {
            waiting.push(a.when(p));
        }
    }
    for d in data {
        waiting.extend([
            deny_with(418, d),
            hdr_of(false, d),
            hdr_of(true, d),
            store("st.b", d).export(),
        ]);
    }
    for m in [
        Msg::Late,
        Msg::Stored("st.a"),
        Msg::ReqBody("/r"),
        Msg::ReqBody("/none"),
        Msg::RespBody("/a"),
        Msg::RespBody("/none"),
    ] {
        for c in [guard, guard_open, bg, bg_open] {
            waiting.push(c(vec![]).msg(m));
            waiting.push(c(vec![]).when(Pred::Late).msg(m));
        }
    }
    // stores that read both bodies
    let both = [
        store("st.b", Data::RespBody("/a")).when(Pred::ReqBody("/r", "q")).export(),
        store("st.b", Data::ReqBody("/r")).when(Pred::RespBody("/a", "x")).export(),
        store("st.b", Data::RespBody("/none")).when(Pred::ReqBody("/r", "q")).export(),
        store("st.b", Data::RespBody("/a")).when(Pred::ReqBody("/none", "q")).export(),
        store("st.b", Data::RespBody("/a")).when(Pred::RespBody("/b", "y")).export(),
    ];
    waiting.extend(both.clone());
    // what may provide the data
    let providers = vec![
        store("st.a", Data::Id),
        store("st.a", Data::Late),
        store("st.a", Data::ReqBody("/r")),
        store("st.a", Data::RespBody("/a")),
        store("st.a", Data::RespBody("/none")),
        store("st.a", Data::Err),
        store("st.a", Data::Id).when(Pred::F),
        guard(vec![store("st.a", Data::Echo)]),
        bg(vec![store("st.a", Data::Echo)]),
        store("st.x", Data::ReqBody("/r")),
        guard(vec![]),
    ];
    let body = |s: Scenario, split: bool| {
        if split {
            s.req(&["{\"r\":", "\"q\"}"], &[("/r", "q")]).resp(&["{\"a\":\"", "x\"}"], &[("/a", "x")])
        } else {
            s.req(&["{\"r\":\"q\"}"], &[("/r", "q")]).resp(&["{\"a\":\"x\"}"], &[("/a", "x")])
        }
        .watch(w)
    };
    let mut l = vec![];
    for x in &waiting {
        l.push(body(sc("alone", vec![x.clone()]), true).replies(OK_FAIL));
        l.push(body(sc("alone", vec![x.clone().seq(), hdr(false).seq(), hdr(true)]), false).replies(OK));
        l.push(body(sc("nested", vec![guard(vec![x.clone()])]), true).replies(OK_FAIL));
        l.push(sc("no bodies", vec![x.clone()]).headers_only().watch(w).replies(OK));
        if format!("{x:?}").contains("Late") {
            l.push(body(sc("never known", vec![x.clone()]).never(), true).replies(OK_FAIL));
            l.push(body(sc("never known", vec![x.clone().seq(), hdr(false).seq(), hdr(true)]).never(), false).replies(OK));
            l.push(body(sc("never known", vec![x.clone(), hdr(false), bg(vec![]).msg(Msg::RespBody("/a"))]).never(), true).replies(OK));
            l.push(body(sc("never known, nested", vec![guard(vec![x.clone()])]).never(), true).replies(OK_FAIL));
            l.push(sc("never known, no bodies", vec![x.clone(), bg(vec![])]).never().headers_only().watch(w).replies(OK));
        }
        for p in &providers {
            for v in shuffles(&[x.clone()], &[p.clone()]) {
                l.push(body(sc("pair", v.clone()), false).replies(OK_FAIL));
                if thorough {
                    l.push(body(sc("pair, split", v.clone()), true).replies(OK_FAIL));
                    l.push(body(sc("pair, fence", vec![v[0].clone(), v[1].clone(), hdr(false).seq()]), false).replies(OK));
                    l.push(body(sc("pair, nested", vec![guard(v.clone())]), false).replies(OK));
                    l.push(body(sc("pair, split nested", vec![v[0].clone(), bg(vec![v[1].clone()])]), true).replies(OK_FAIL));
                }
            }
        }
    }
    l.extend(two_values(w, if thorough { OK_FAIL } else { OK }));
    // stores that have to wait while the bodies come in, next to what needs
    // other fields
    let mut stores: Vec<Act> = both.to_vec();
    for d in [
        Data::ReqBody("/r"),
        Data::ReqBody("/s"),
        Data::ReqBody("/none"),
        Data::RespBody("/a"),
        Data::RespBody("/b"),
        Data::RespBody("/none"),
    ] {
        stores.push(store("st.b", d).export());
        stores.push(store("st.b", d).when(Pred::Late).export());
    }
    for p in [Pred::ReqBody("/s", "t"), Pred::ReqBody("/r", "no"), Pred::RespBody("/b", "y")] {
        stores.push(store("st.b", Data::Id).when(p).export());
    }
    let callers = [
        bg(vec![]),
        guard(vec![]),
        bg(vec![]).msg(Msg::ReqBody("/r")),
        bg(vec![]).msg(Msg::RespBody("/a")),
        guard_open(vec![]).when(Pred::ReqBody("/s", "t")),
        guard(vec![hdr_of(true, Data::RespBody("/b"))]).msg(Msg::ReqBody("/r")),
    ];
    for x in &stores {
        for c in &callers {
            let mut nested = c.clone();
            if let Op::Grpc { on_reply, .. } = &mut nested.op {
                on_reply.insert(0, x.clone());
            }
            let mut shapes = vec![
                ("store nested", vec![nested.clone()]),
                ("store after a call", vec![c.clone(), x.clone().seq()]),
            ];
            if thorough {
                shapes.extend([
                    ("store nested after", vec![hdr(false), nested.seq(), hdr_of(true, Data::Stored("st.b"))]),
                    ("store between", vec![c.clone(), x.clone().seq(), bg(vec![]).msg(Msg::Stored("st.b")).seq()]),
                    ("store beside", vec![c.clone(), x.clone(), hdr_of(true, Data::Stored("st.b"))]),
                ]);
            }
            for (n, v) in shapes {
                let s = sc(n, v)
                    .req(&["{\"r\":", "\"q\",\"s\"", ":\"t\"}"], &[("/r", "q"), ("/s", "t")])
                    .resp(&["{\"a\":\"", "x\",\"b\"", ":\"y\"}"], &[("/a", "x"), ("/b", "y")])
                    .watch(w);
                l.push(s.replies(if thorough { OK_FAIL } else { OK }));
            }
        }
    }
    jobs(l)
}

// ---------------------------------------------------------------- C09

fn c09(thorough: bool) -> Vec<Job> {
    let w = CALLS | HEADERS | PROPS | REPLIES;
    let echo_call = |k: Vec<Act>| guard(k).msg(Msg::Echo);
    let shapes = vec![
        guard(vec![hdr_echo(false)]),
        bg(vec![hdr_echo(true)]),
        guard(vec![echo_call(vec![hdr_echo(false)])]),
        guard(vec![echo_call(vec![]), hdr_echo(false)]),
        guard(vec![guard(vec![]), hdr_echo(false), echo_call(vec![hdr_echo(true)])]),
        guard(vec![echo_call(vec![echo_call(vec![hdr_echo(false)])]), hdr_echo(true)]),
        guard(vec![deny_with(403, Data::Echo).when(Pred::Code(2))]),
        guard(vec![store("st.a", Data::Echo).export()]),
        guard(vec![hdr_echo(true).when(Pred::Code(1)), hdr_echo(false).when(Pred::Code(2))]),
        guard_open(vec![guard_open(vec![hdr_echo(false)]).when(Pred::Code(2)), hdr_echo(true)]),
        hdr_echo(false),
        guard_open(vec![]).msg(Msg::Echo),
        deny_with(403, Data::Echo),
        hdr(false).when(Pred::Code(1)),
    ];
    let two: &[Reply] = &[Reply::Ok(1), Reply::Ok(2)];
    let mut l: Vec<Scenario> = tuples(&shapes, 2)
        .into_iter()
        .map(|a| sc("pair", a).replies(two).watch(w))
        .collect();
    for a in exactly(&shapes[..if thorough { 9 } else { 5 }], 3) {
        l.push(sc("triple", a).replies(OK).watch(w));
    }
    // siblings whose ids are prefixes of each other
    let leaf = || guard(vec![hdr_echo(false), echo_call(vec![])]);
    for (i, j) in [(1usize, 10usize), (1, 11), (0, 10), (10, 11), (2, 11)] {
        let pick = |k: usize| {
            if k == i || k == j {
                leaf()
            } else {
                leaf().when(Pred::F)
            }
        };
        l.push(sc("twelve siblings", (0..12).map(pick).collect()).replies(two).watch(w));
        l.push(sc("twelve nested siblings", vec![guard((0..12).map(pick).collect())]).replies(OK).watch(w));
        l.push(
            sc("twelve siblings below two", (0..12).map(|k| if k == i || k == j { guard(vec![hdr_echo(false), leaf()]) } else { fail(false) }).collect())
                .replies(OK)
                .watch(w),
        );
    }
    // one of them is no call: it must not see the other's reply
    for (i, j) in [(1usize, 10usize), (1, 11), (0, 10), (2, 11)] {
        for outside in [
            hdr_echo(false).seq(),
            hdr_echo(true),
            hdr(false).when(Pred::Code(1)).seq(),
            guard_open(vec![]).msg(Msg::Echo).seq(),
            deny_with(403, Data::Echo).seq(),
            store("st.a", Data::Echo).export().seq(),
        ] {
            let pick = |k: usize| {
                if k == i {
                    leaf()
                } else if k == j {
                    outside.clone()
                } else {
                    fail(false).when(Pred::F)
                }
            };
            l.push(sc("twelve siblings, one outside", (0..12).map(pick).collect()).replies(two).watch(w));
            if !outside.seq {
                l.push(sc("twelve nested siblings, one outside", vec![guard((0..12).map(pick).collect())]).replies(OK).watch(w));
            }
        }
    }
    // four levels
    let deep = |n: usize| {
        let mut a = hdr_echo(false);
        for k in 0..n {
            a = if k % 2 == 0 { echo_call(vec![a]) } else { echo_call(vec![a, hdr_echo(true)]) };
        }
        guard(vec![a, hdr_echo(false)])
    };
    for n in 1..=3 {
        l.push(sc(format!("deep {n}"), vec![deep(n)]).replies(two).watch(w));
        l.push(sc(format!("deep {n} twice"), vec![deep(n), deep(1)]).replies(OK).watch(w));
    }
    if thorough {
        l.push(sc("deep 3 twice", vec![deep(3), deep(3)]).replies(OK).watch(w));
        for a in exactly(&shapes, 3) {
            l.push(sc("triple", a).replies(OK).watch(w));
        }
    }
    jobs(l)
}

// ---------------------------------------------------------------- C10

fn c10(thorough: bool) -> Vec<Job> {
    let w = CALLS | HEADERS | PROPS | REPLIES;
    let writers = vec![
        store("st.a", Data::Id).export(),
        store("st.a", Data::Id),
        store("st.a", Data::Late).export(),
        store("st.a", Data::Err),
        store("st.a", Data::Id).when(Pred::F),
        store("st.a", Data::Id).when(Pred::Err),
        store("st.a", Data::Id).when(Pred::Late),
        store("st.a", Data::ReqBody("/r")).export(),
        store("st.a", Data::ReqBody("/none")),
        store("st.a", Data::RespBody("/a")).export(),
        store("st.a", Data::Id).seq(),
        guard(vec![store("st.a", Data::Echo).export()]),
        guard(vec![store("st.a", Data::Echo)]).when(Pred::F),
        guard_open(vec![store("st.a", Data::Echo)]),
        bg(vec![store("st.a", Data::Id).when(Pred::Code(2))]),
        guard(vec![guard(vec![store("st.a", Data::Id).export()])]),
        store("st.b", Data::Stored("st.a")).export(),
        store("st.a", Data::Stored("st.b")).export(),
        store("st.a", Data::Stored("st.n")),
    ];
    let readers = vec![
        hdr_of(false, Data::Stored("st.a")),
        hdr_of(true, Data::Stored("st.a")),
        guard(vec![]).msg(Msg::Stored("st.a")),
        bg_open(vec![]).msg(Msg::Stored("st.a")),
        guard_open(vec![]).when(Pred::Stored("st.a", "0")),
        guard(vec![hdr_of(true, Data::Stored("st.a"))]),
        guard(vec![guard(vec![]).msg(Msg::Stored("st.a"))]),
        deny_with(403, Data::Stored("st.a")),
        store("st.b", Data::Stored("st.a")).export(),
        hdr_of(false, Data::Stored("st.b")),
        hdr(false).when(Pred::Stored("st.a", "1")),
    ];
    let body = |s: Scenario| {
        s.req(&["{\"r\":\"q\"}"], &[("/r", "q")])
            .resp(&["{\"a\":\"x\"}"], &[("/a", "x")])
            .watch(w)
    };
    let mut l = vec![];
    for x in &writers {
        l.push(body(sc("write", vec![x.clone()])).replies(OK_FAIL));
        for r in &readers {
            for v in shuffles(&[x.clone()], &[r.clone()]) {
                l.push(body(sc("pair", v)).replies(OUTCOMES));
            }
            for x2 in &writers {
                if thorough {
                    for v in shuffles(&[x.clone(), x2.clone()], &[r.clone()]) {
                        l.push(body(sc("two writers", v)).replies(OK_FAIL));
                    }
                } else {
                    l.push(sc("two writers", vec![x.clone(), r.clone(), x2.clone()]).watch(w).replies(OK));
                    l.push(body(sc("two writers", vec![x.clone(), x2.clone(), r.clone()])).replies(OK));
                }
            }
        }
    }
    for r in &readers {
        for r2 in &readers {
            l.push(body(sc("two readers", vec![r.clone(), writers[11].clone(), r2.clone()])).replies(OK_FAIL));
        }
    }
    // at a path of one segment
    for x in [
        store("sta", Data::Id).export(),
        store("sta", Data::Late).export(),
        store("sta", Data::Err),
        store("sta", Data::Id).when(Pred::F),
        store("sta", Data::ReqBody("/r")).export(),
        store("sta", Data::RespBody("/a")).export(),
        guard(vec![store("sta", Data::Echo).export()]),
        bg(vec![store("sta", Data::Id).when(Pred::Code(2))]),
    ] {
        for r in [
            hdr_of(true, Data::Stored("sta")),
            guard(vec![]).msg(Msg::Stored("sta")),
            guard_open(vec![]).when(Pred::Stored("sta", "0")),
            store("st.b", Data::Stored("sta")).export(),
            deny_with(403, Data::Stored("sta")),
        ] {
            for v in shuffles(&[x.clone()], &[r.clone()]) {
                l.push(body(sc("one segment", v)).replies(OUTCOMES));
            }
            // ... where null is stored first
            let null = [store("st.c", Data::Id), store("sta", Data::Stored("st.n")).seq()];
            for mut v in shuffles(&[x.clone().seq()], &[r.clone().seq()]) {
                v.splice(0..0, null.clone());
                l.push(body(sc("one segment, null", v)).replies(OK_FAIL));
            }
            let v = [&null[..], &[r.clone(), x.clone()]].concat();
            l.push(body(sc("one segment, null", v)).replies(OK_FAIL));
        }
    }
    l.extend(two_values(w, if thorough { OUTCOMES } else { OK_FAIL }));
    let mut v = jobs(l);
    v.extend(super::data::exports(thorough));
    v
}
