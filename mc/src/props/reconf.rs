//! C13: reconfigurations at any time, around requests that run under the
//! configuration they arrived under.
use super::Prop;
use crate::dfs::Ch;
use crate::pipe::*;
use crate::report::{hash_of, job, Job, Rec, Stats};
use crate::proto;
use crate::vm::{Obs, Vm};
use prost::Message;
use serde_json::{json, Value};

/// A configuration: a scenario, and what is wrong with it, if anything.
#[derive(Clone)]
struct Conf {
    s: Scenario,
    wrong: Option<Wrong>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Wrong {
    /// not JSON at all
    Cut,
    /// one action after the good ones is not valid
    UnknownService,
    Predicate,
    Message,
    NestedExecution,
    /// ... or one action set after the good ones
    RoutePredicate,
    /// ... or a service
    Duration,
    FailureMode,
    NoActionSets,
}

const WRONGS: &[Wrong] = &[
    Wrong::Cut,
    Wrong::UnknownService,
    Wrong::Predicate,
    Wrong::Message,
    Wrong::NestedExecution,
    Wrong::RoutePredicate,
    Wrong::Duration,
    Wrong::FailureMode,
    Wrong::NoActionSets,
];

fn grpc(service: &str, predicate: &str, message: &str, on_reply: Value) -> Value {
    json!({"type": "grpc", "predicate": predicate, "terminal": false, "isGuard": true, "service": service, "var": "v",
           "label": "", "sources": [], "messageBuilder": message, "onReply": on_reply})
}

impl Conf {
    fn good(s: &Scenario) -> Conf {
        Conf { s: s.clone(), wrong: None }
    }
    fn bad(s: &Scenario, w: Wrong) -> Conf {
        Conf { s: s.clone(), wrong: Some(w) }
    }

    fn json(&self) -> String {
        // for one host only, when it is not the usual one
        let text = if self.s.host == "api.example.com" { config(&self.s) } else { config_many(&[&self.s]) };
        let Some(w) = self.wrong else { return text };
        let mut c: Value = serde_json::from_str(&text).unwrap_or_default();
        c["descriptorService"] = json!("c-desc-w");
        let good = "mc.Req { tag: 'w' }";
        let mut act = |a: Value| {
            if let Some(l) = c["actionSets"][0]["actions"].as_array_mut() {
                l.push(a)
            }
        };
        match w {
            Wrong::Cut => return text[..text.len() - 1].to_string(),
            Wrong::UnknownService => act(grpc("no-such-svc", "true", good, json!([]))),
            Wrong::Predicate => act(grpc("deny-svc", "not valid (", good, json!([]))),
            Wrong::Message => act(grpc("deny-svc", "true", "mc.Req {", json!([]))),
            Wrong::NestedExecution => {
                let mut n = grpc("deny-svc", "true", good, json!([]));
                n["execution"] = json!("sequential");
                act(grpc("deny-svc", "true", good, json!([n])))
            }
            Wrong::RoutePredicate => {
                if let Some(l) = c["actionSets"].as_array_mut() {
                    l.push(json!({"name": "w", "routeRuleConditions": {"hostnames": ["w.example.com"], "predicates": ["("]}, "actions": []}))
                }
            }
            Wrong::Duration => c["services"]["allow-svc"]["timeout"] = json!("50 parsecs"),
            Wrong::FailureMode => c["services"]["allow-svc"]["failureMode"] = json!("perhaps"),
            Wrong::NoActionSets => {
                if let Some(o) = c.as_object_mut() {
                    o.remove("actionSets");
                }
            }
        }
        c.to_string()
    }
}

/// The configuration in force, applied; `Err` when it is accepted or refused wrongly.
fn apply(vm: &mut Vm, c: &Conf) -> Result<(), String> {
    let (ok, o) = vm.configure(&c.json());
    if let Some(p) = &o.panicked {
        return Err(format!("panic while configuring: {p}"));
    }
    if ok != c.wrong.is_none() {
        return Err(format!(
            "a configuration that is {} is {}",
            c.wrong.map_or("valid".into(), |w| format!("not valid ({w:?})")),
            if ok { "accepted" } else { "refused" }
        ));
    }
    feed_descriptors(vm, &o)
}

struct Story {
    confs: Vec<Conf>,
    /// how many reconfigurations and requests there may be
    swaps: usize,
    requests: usize,
    /// also look at what hosts nobody configured get
    others: bool,
}

fn story(j: &Story, vm: &mut Vm, id: &mut u32, ch: &mut Ch, st: &mut Stats, log: &mut Vec<String>) -> Result<(), String> {
    let traced = j.confs[0].s.tracing;
    if traced {
        // what earlier executions left behind goes out under the first configuration
        apply(vm, &j.confs[0])?;
        *id += 1;
        flush(vm, *id)?;
    }
    apply(vm, &j.confs[0])?;
    let mut force = 0usize;
    let (mut swaps, mut requests) = (j.swaps, j.requests);
    let mut sims: Vec<(usize, Sim)> = vec![];
    loop {
        st.state(hash_of(&(force, swaps, requests, sims.iter().map(|(c, s)| (*c, s.state())).collect::<Vec<_>>())));
        let evs: Vec<(usize, Event)> =
            sims.iter().enumerate().flat_map(|(i, (_, s))| s.events().into_iter().map(move |e| (i, e))).collect();
        // a configuration may come at any time, but nothing new happens when no
        // request is there or to come
        let arrivals = usize::from(requests > 0);
        let live = !evs.is_empty() || requests > 0;
        let loads = if swaps > 0 && live { j.confs.len() } else { 0 };
        let n = evs.len() + arrivals + loads;
        if n == 0 {
            for (i, (_, s)) in sims.iter().enumerate() {
                s.finish().map_err(|e| format!("request {i}: {e}"))?;
            }
            return Ok(());
        }
        let k = ch.pick(n);
        st.transition();
        if let Some((i, ev)) = evs.get(k) {
            let (c, sim) = &mut sims[*i];
            let r = sim.step(*ev, vm, ch);
            log.push(format!("request {i} (under configuration {c}): {}", sim.log.last().cloned().unwrap_or_default()));
            r.map_err(|e| format!("a request that arrived under another configuration or not: {e}"))?;
        } else if k < evs.len() + arrivals {
            requests -= 1;
            *id += 1;
            let mut sim = Sim::open(&j.confs[force].s, vm, *id);
            let ev = sim.events()[0];
            let r = sim.step(ev, vm, ch);
            log.push(format!("request {} arrives under configuration {force}: {}", sims.len(), sim.log.last().cloned().unwrap_or_default()));
            r?;
            sims.push((force, sim));
        } else {
            let c = k - evs.len() - arrivals;
            swaps -= 1;
            log.push(format!("configuration {c}{}", j.confs[c].wrong.map_or(String::new(), |w| format!(", which is not valid ({w:?})"))));
            apply(vm, &j.confs[c])?;
            if j.confs[c].wrong.is_none() {
                force = c;
            }
            probe(j, force, vm, id, log)?;
        }
    }
}

/// A request of its own goes by the configuration in force.
fn probe(j: &Story, force: usize, vm: &mut Vm, id: &mut u32, log: &mut Vec<String>) -> Result<(), String> {
    let s = &j.confs[force].s;
    let mut list = vec![s.clone().headers_only()];
    if j.others {
        for c in &j.confs {
            if c.s.host != s.host && list.iter().all(|l| l.host != c.s.host) {
                let mut o = s.clone().host(c.s.host).headers_only();
                o.acts = vec![];
                list.push(o);
            }
        }
    }
    for mut s in list {
        if s.acts.is_empty() {
            s.watch = ALL & !METRICS;
        }
        *id += 1;
        let mut sim = Sim::open(&s, vm, *id);
        let r = drive(&mut sim, vm, &mut Ch::default(), &mut Stats::default());
        if let Err(e) = r {
            log.push(format!("a request to {} that must go by configuration {force}", s.host));
            log.append(&mut sim.log);
            vm.forget(*id);
            return Err(format!("a later request does not go by the configuration in force: {e}"));
        }
        vm.forget(*id);
    }
    Ok(())
}

fn tale(name: impl Into<String>, j: Story) -> Job {
    job(name.into(), move |rec: &mut Rec| {
        rec.sample(json!({"configurations": j.confs.iter().map(|c| c.json()).collect::<Vec<_>>(), "reconfigurations": j.swaps, "requests": j.requests}));
        let mut vm = match boot(&config(&j.confs[0].s)) {
            Ok(vm) => vm,
            Err(e) => {
                rec.violation(e, vec!["boot".into()], vec![]);
                return;
            }
        };
        let mut id = 10u32;
        rec.explore(|ch, st| {
            let first = id + 1;
            let mut log = vec![];
            let r = story(&j, &mut vm, &mut id, ch, st, &mut log);
            for i in first..=id {
                vm.forget(i);
            }
            r.map_err(|e| (e, log))
        });
    })
}

/// Before there is a configuration, and after one that is not valid, requests
/// are let through as they are.
fn unconfigured(s: &Scenario) -> Job {
    let s = s.clone();
    job("nothing configured yet", move |rec: &mut Rec| {
        rec.explore(|ch, st| {
            proxy_wasm::host::reset();
            let mut vm = Vm::new();
            let mut none = s.clone().headers_only();
            none.acts = vec![];
            none.ident = None;
            none.watch = ALL & !METRICS;
            let mut id = 10;
            let mut log = vec![];
            let mut r = |s: &Scenario, vm: &mut Vm| {
                id += 1;
                let mut sim = Sim::open(s, vm, id);
                let r = drive(&mut sim, vm, &mut Ch::default(), &mut Stats::default());
                vm.forget(id);
                r
            };
            let w = WRONGS[ch.pick(WRONGS.len())];
            log.push(format!("a configuration that is not valid: {w:?}"));
            st.transition();
            (|| {
                r(&none, &mut vm)?;
                apply(&mut vm, &Conf::bad(&s, w))?;
                r(&none, &mut vm)?;
                apply(&mut vm, &Conf::good(&s))?;
                r(&s, &mut vm)?;
                apply(&mut vm, &Conf::bad(&s, w))?;
                r(&s, &mut vm)
            })()
            .map_err(|e: String| (e, log))
        });
    })
}

/// A configuration that is not valid comes while descriptors are still missing:
/// they are asked for as before, of the one that was asked before.
fn outstanding(good: &Scenario, bad_one: &Scenario) -> Job {
    let (good, bad_one) = (good.clone(), bad_one.clone());
    job("one that is not valid while descriptors are missing", move |rec: &mut Rec| {
        rec.explore(|ch, st| {
            proxy_wasm::host::reset();
            let mut vm = Vm::new();
            let w = WRONGS[ch.pick(WRONGS.len())];
            let mut log = vec![format!("{w:?}")];
            let r = (|| -> Result<(), String> {
                let ask = |vm: &mut Vm, o: Obs| -> Result<Vec<(u32, String, Vec<(String, String)>)>, String> {
                    let mut calls = o.calls;
                    if calls.is_empty() {
                        calls = vm.tick().calls;
                    }
                    calls
                        .iter()
                        .map(|c| {
                            let req = proto::DescriptorRequest::decode(c.message.as_slice()).map_err(|e| e.to_string())?;
                            let mut l: Vec<_> = req.services.iter().map(|s| (s.cluster_name.clone(), s.service.clone())).collect();
                            l.sort();
                            Ok((c.token, c.upstream.clone(), l))
                        })
                        .collect()
                };
                let known = |l: &[(u32, String, Vec<(String, String)>)]| l.iter().map(|(_, u, s)| (u.clone(), s.clone())).collect::<Vec<_>>();
                let (ok, o) = vm.configure(&Conf::good(&good).json());
                if !ok {
                    return Err("refused".into());
                }
                let first = ask(&mut vm, o)?;
                if first.is_empty() {
                    return Err("nothing is asked for".into());
                }
                let before = ch.flip();
                log.push(format!("the fetch fails {}", if before { "before" } else { "after" }));
                st.transition();
                for _ in 0..2 {
                    if before {
                        first.iter().for_each(|f| {
                            vm.root_reply(f.0, 14, None);
                        });
                    }
                    let (ok, o) = vm.configure(&Conf::bad(&bad_one, w).json());
                    if ok {
                        return Err("accepted".into());
                    }
                    if !o.calls.is_empty() {
                        return Err(format!("it asks for descriptors: {:?}", o.calls));
                    }
                    if !before {
                        first.iter().for_each(|f| {
                            vm.root_reply(f.0, 14, None);
                        });
                    }
                }
                let o = vm.tick();
                st.state(hash_of(&(format!("{w:?}"), before)));
                let again = ask(&mut vm, o)?;
                if known(&again) != known(&first) {
                    return Err(format!("asked for {:?}; must be {:?}", known(&again), known(&first)));
                }
                for (token, _, l) in &again {
                    let descriptors = l
                        .iter()
                        .map(|(c, s)| proto::ServiceDescriptor { cluster_name: c.clone(), service: s.clone(), file_descriptor_set: proto::file_set() })
                        .collect();
                    vm.root_reply(*token, 0, Some(&proto::DescriptorResponse { descriptors }.encode_to_vec()));
                }
                let mut sim = Sim::open(&good, &mut vm, 77);
                drive(&mut sim, &mut vm, &mut Ch::default(), &mut Stats::default())
            })();
            r.map_err(|e| (e, log))
        });
    })
}

fn c13(thorough: bool) -> Vec<Job> {
    let r2 = [Reply::Ok(1), Reply::Status(14)];
    let trees: Vec<(&str, Vec<Act>)> = vec![
        ("guard", vec![guard(vec![hdr_echo(false)]), hdr(true)]),
        ("background", vec![bg(vec![hdr_echo(true)]), hdr(false)]),
        ("in turn", vec![guard_open(vec![]).seq(), guard(vec![deny(403).when(Pred::Code(2))])]),
        ("nested", vec![guard(vec![guard(vec![hdr_echo(true)]).msg(Msg::Echo)])]),
        ("late", vec![guard(vec![hdr_echo(true)]).msg(Msg::Late)]),
        ("denied", vec![deny(418)]),
        ("nothing", vec![]),
        ("stored", vec![guard_open(vec![store("a.b", Data::Echo).export()]), hdr_of(true, Data::Stored("a.b"))]),
    ];
    let mk = |i: usize, site: u32| {
        let mut s = sc(trees[i].0, trees[i].1.clone()).replies(&r2).site(site);
        if trees[i].1.is_empty() {
            s.watch = ALL & !METRICS;
        }
        if thorough { s } else { s.headers_only() }
    };
    let mut v = vec![];
    // a request of the first, and every way to change to the second, to one that
    // is not valid, and back
    for i in 0..6 {
        for k in 0..trees.len() {
            if i == k || !thorough && (i + k) % 3 != 0 {
                continue;
            }
            let w = WRONGS[(i + k) % WRONGS.len()];
            let confs = vec![Conf::good(&mk(i, 0)), Conf::good(&mk(k, 1)), Conf::bad(&mk(k, 2), w)];
            v.push(tale(format!("{} to {}", trees[i].0, trees[k].0), Story { confs, swaps: 2, requests: 1, others: false }));
        }
    }
    // the same actions at other services
    for i in 0..5 {
        let confs = vec![Conf::good(&mk(i, 0)), Conf::good(&mk(i, 1)), Conf::good(&mk(i, 2))];
        v.push(tale(format!("{}, other services", trees[i].0), Story { confs, swaps: 2, requests: 1, others: false }));
    }
    for (i, k) in [(0, 5), (5, 0), (3, 1)] {
        v.push(outstanding(&mk(i, 0).headers_only(), &mk(k, 1)));
    }
    // every kind of configuration that is not valid
    for w in WRONGS {
        for (i, k) in [(0, 5), (1, 3)] {
            let confs = vec![Conf::good(&mk(i, 0)), Conf::bad(&mk(k, 1).ident("x-other"), *w)];
            v.push(tale(format!("{}, then one with {w:?}", trees[i].0), Story { confs, swaps: if thorough { 3 } else { 2 }, requests: 1, others: false }));
        }
    }
    // other hosts
    for (i, k) in [(0, 2), (2, 5), (5, 0), (4, 1)] {
        let other = |s: Scenario| s.host("other.example.org");
        let confs = vec![Conf::good(&mk(i, 0)), Conf::good(&other(mk(k, 1))), Conf::bad(&other(mk(k, 3)), Wrong::RoutePredicate)];
        v.push(tale(format!("{}, then another host", trees[i].0), Story { confs, swaps: 2, requests: 1, others: true }));
    }
    // the identifier header goes with the configuration
    for (i, idents) in [(0, ["x-one", "x-two"]), (3, ["x-one", "x-two"]), (5, ["x-one", "x-two"]), (1, ["x-one", "X-One"])] {
        let confs = vec![
            Conf::good(&mk(i, 0).ident(idents[0])),
            Conf::good(&mk(i, 0).ident(idents[1])),
            Conf::good(&mk(i, 0)),
        ];
        v.push(tale(format!("{}, other identifier header", trees[i].0), Story { confs, swaps: 2, requests: 1, others: false }));
    }
    // two requests
    for (i, k) in [(0, 5), (5, 2), (1, 0), (0, 3), (2, 4), (3, 7)] {
        if !thorough && i > 0 && i != 5 {
            continue;
        }
        let s = |i, site| {
            let s: Scenario = mk(i, site);
            let s = s.headers_only();
            if i == 0 && k == 5 { s } else { s.replies(&[Reply::Ok(1)]) }
        };
        let mut confs = vec![Conf::good(&s(i, 0)), Conf::good(&s(k, 1))];
        if thorough {
            confs.push(Conf::bad(&s(k, 2), Wrong::Predicate));
        }
        v.push(tale(format!("two requests, {} to {}", trees[i].0, trees[k].0), Story { confs, swaps: if thorough { 2 } else { 1 }, requests: 2, others: false }));
    }
    // traced, and a configuration that is not valid
    for w in WRONGS {
        for level in [None, Some("ERROR")] {
            if !thorough && level.is_none() && *w != Wrong::Predicate {
                continue;
            }
            let a = mk(0, 0).tracing().headers_only().replies(&[Reply::Ok(1)]);
            let b = mk(0, 1).tracing().level(level);
            let n = format!("traced, then one with {w:?} and level {level:?}");
            v.push(tale(n, Story { confs: vec![Conf::good(&a), Conf::bad(&b, *w)], swaps: 1, requests: 1, others: false }));
        }
        let a = mk(0, 0).tracing().headers_only().replies(&[Reply::Ok(1)]);
        let b = mk(0, 1);
        v.push(tale(format!("traced, then one with {w:?} and no tracing"), Story { confs: vec![Conf::good(&a), Conf::bad(&b, *w)], swaps: 1, requests: 1, others: false }));
    }
    // traced under both
    for (i, k) in [(0, 3), (1, 0)] {
        let t = |i, site| mk(i, site).tracing().headers_only().replies(&[Reply::Ok(1)]);
        let confs = vec![Conf::good(&t(i, 0)), Conf::good(&t(k, 1))];
        v.push(tale(format!("traced, {} to {}", trees[i].0, trees[k].0), Story { confs, swaps: 2, requests: 1, others: false }));
    }
    v.push(unconfigured(&mk(0, 0)));
    v
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C13",
        level: "model_checking",
        rule: "every history of a configuration, one or two requests under it or its successors and up to two (thorough: three) valid or invalid reconfigurations at any point between the callbacks and replies of those requests; each request is compared at every step with the model of the configuration it arrived under, and after every reconfiguration a further request with that of the configuration in force",
        assumptions: &[
            "a configuration is captured when the proxy opens the stream, which it does together with the first callback",
            "whether spans are collected, and at which level, is a setting of the whole filter process: a valid configuration that changes it may change what requests in flight export",
        ],
        jobs: c13,
    }]
}
