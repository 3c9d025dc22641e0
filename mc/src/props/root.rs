//! C14 service descriptors.
use super::Prop;
use crate::proto;
use crate::report::{hash_of, job, Job, Rec};
use crate::vm::{base_stream, Obs, Vm};
use prost::Message;
use proxy_wasm::host;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};

// ---------------------------------------------------------------- C14

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
enum D {
    Missing,
    /// (which fetch asks for it)
    Inflight(u32),
    There,
}

/// What is asked for: the same service at several clusters, and others.
const ONE: (&str, &str) = ("c-1", "mc.Svc");
const TWO: (&str, &str) = ("c-2", "mc.Svc");
const OTHER: (&str, &str) = ("c-1", "mc.Other");
const BAD: (&str, &str) = ("c-3", "mc.Svc");
const EMBEDDED: (&str, &str) = ("c-rl", "envoy.service.ratelimit.v3.RateLimitService");

#[derive(Clone, Debug)]
struct Cfg {
    name: &'static str,
    needs: Vec<(&'static str, &'static str)>,
    valid: bool,
    /// where the descriptors come from
    from: &'static str,
}

fn cfg(name: &'static str, needs: &[(&'static str, &'static str)]) -> Cfg {
    Cfg { name, needs: needs.to_vec(), valid: true, from: "c-desc" }
}

fn host_of(key: (&str, &str)) -> String {
    format!("{}.{}", key.1.to_ascii_lowercase().replace('.', "-"), key.0)
}

fn message_of(service: &str) -> String {
    let ty = if service == EMBEDDED.1 {
        return "envoy.service.ratelimit.v3.RateLimitRequest { domain: 'probe' }".into();
    } else if service == "mc.Other" {
        "mc.OtherReq"
    } else {
        "mc.Req"
    };
    format!("{ty} {{ tag: 'probe' }}")
}

impl Cfg {
    fn json(&self) -> String {
        let mut services = json!({});
        let mut sets = vec![];
        for k in &self.needs {
            let name = host_of(*k);
            let method = if k.1 == EMBEDDED.1 { "ShouldRateLimit" } else { "Call" };
            services[&name] = json!({"type": "dynamic", "endpoint": k.0, "failureMode": "deny", "timeout": "50ms",
                                     "grpcService": k.1, "grpcMethod": method});
            sets.push(json!({
                "name": name, "routeRuleConditions": {"hostnames": [name]},
                "actions": [{"type": "grpc", "predicate": "true", "terminal": false, "isGuard": true, "service": name,
                             "var": "v", "label": "", "sources": [], "onReply": [], "messageBuilder": message_of(k.1)}],
            }));
        }
        if !self.valid {
            sets.push(json!({
                "name": "broken", "routeRuleConditions": {"hostnames": ["broken"]},
                "actions": [{"type": "fail", "predicate": "not valid (", "terminal": false, "logMessage": ""}],
            }));
        }
        json!({"services": services, "descriptorService": self.from, "actionSets": sets}).to_string()
    }
}

/// `mc.Svc/Call` and `mc.Other/Call`, each in a file of its own.
fn files_of(service: &str) -> Vec<u8> {
    let mut f = proto::file();
    if service != "mc.Svc" {
        f.name = Some("other.proto".into());
        f.message_type.truncate(1);
        f.message_type[0].name = Some("OtherReq".into());
        f.service[0].name = Some(service.trim_start_matches("mc.").into());
        f.service[0].method[0].input_type = Some(".mc.OtherReq".into());
        f.service[0].method[0].output_type = Some(".mc.OtherReq".into());
    }
    prost_types::FileDescriptorSet { file: vec![f] }.encode_to_vec()
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Answer {
    Full,
    /// only for the first (last) service asked for
    First,
    Last,
    /// good for the last, unreadable for the first
    Mixed,
    /// files that lack the service
    Lacking,
    /// only for a service nobody asked for
    Unrelated,
    Garbage,
    /// a message without descriptors
    Nothing,
    /// no message
    Absent,
    Status,
}

const ANSWERS: &[Answer] = &[
    Answer::Full,
    Answer::First,
    Answer::Last,
    Answer::Mixed,
    Answer::Lacking,
    Answer::Unrelated,
    Answer::Garbage,
    Answer::Nothing,
    Answer::Absent,
    Answer::Status,
];

#[derive(Clone, Debug)]
enum Step {
    Configure(usize, bool),
    Tick(bool),
    Answer(u32, Answer),
    Stale(u32),
    Unknown,
}

struct World {
    vm: Vm,
    cfgs: Vec<Cfg>,
    known: BTreeMap<(&'static str, &'static str), D>,
    /// outstanding fetches and what they ask for
    out: BTreeMap<u32, Vec<(&'static str, &'static str)>>,
    done: Vec<u32>,
    force: Option<usize>,
    armed: bool,
    next: u32,
    log: Vec<String>,
}

impl World {
    fn new(cfgs: &[Cfg]) -> World {
        host::reset();
        World {
            vm: Vm::new(),
            cfgs: cfgs.to_vec(),
            known: BTreeMap::new(),
            out: BTreeMap::new(),
            done: vec![],
            force: None,
            armed: false,
            next: 100,
            log: vec![],
        }
    }

    fn steps(&self) -> Vec<Step> {
        let mut v = vec![];
        for i in 0..self.cfgs.len() {
            v.push(Step::Configure(i, true));
            let asks = |d: &D| *d == D::Missing;
            let c = &self.cfgs[i];
            if c.valid && c.needs.iter().any(|k| k.1 != EMBEDDED.1 && self.known.get(k).is_none_or(asks)) {
                v.push(Step::Configure(i, false));
            }
        }
        if self.armed {
            v.push(Step::Tick(true));
            if self.known.values().any(|d| *d == D::Missing) {
                v.push(Step::Tick(false));
            }
        }
        for (t, asked) in &self.out {
            for a in ANSWERS {
                let several = asked.len() > 1;
                if several || !matches!(a, Answer::First | Answer::Last | Answer::Mixed) {
                    v.push(Step::Answer(*t, *a));
                }
            }
        }
        if let Some(t) = self.done.last() {
            v.push(Step::Stale(*t));
        }
        if !self.out.is_empty() {
            v.push(Step::Unknown);
        }
        v
    }

    fn state(&self) -> u64 {
        // fetches are told apart by what they ask for
        let names: BTreeMap<u32, usize> = self.out.keys().enumerate().map(|(i, t)| (*t, i)).collect();
        let known: Vec<_> = self
            .known
            .iter()
            .map(|(k, d)| {
                (k, match d {
                    D::Missing => 1000,
                    D::There => 1001,
                    D::Inflight(t) => names.get(t).copied().unwrap_or(999),
                })
            })
            .collect();
        hash_of(&(known, self.force, self.armed, self.done.is_empty()))
    }

    fn needed(&self) -> Vec<(&'static str, &'static str)> {
        self.force.map(|i| self.cfgs[i].needs.clone()).unwrap_or_default()
    }

    /// The fetches an event made, and the tick it asked for.
    fn asks(&mut self, o: &Obs, must: bool) -> Result<(), String> {
        if let Some(p) = &o.panicked {
            return Err(format!("panic: {p}"));
        }
        if !o.replies.is_empty() || !o.other.is_empty() || o.resume_req + o.resume_resp > 0 {
            return Err(format!("unexpected effects {:?}", o.order));
        }
        if let Some(t) = o.ticks.last() {
            self.armed = *t > 0;
        }
        let mut asked = BTreeSet::new();
        for c in &o.calls {
            let from = self.force.map_or("", |i| self.cfgs[i].from);
            if (c.upstream.as_str(), c.service.as_str(), c.method.as_str())
                != (from, "kuadrant.v1.DescriptorService", "GetServiceDescriptors")
            {
                return Err(format!("descriptors asked of {} {}/{}", c.upstream, c.service, c.method));
            }
            if c.timeout_ms != 1000 {
                return Err(format!("descriptors asked with timeout {} ms", c.timeout_ms));
            }
            let rq = proto::DescriptorRequest::decode(c.message.as_slice()).map_err(|e| e.to_string())?;
            let mut list = vec![];
            for s in rq.services {
                let k = self.known.iter().find(|(k, _)| k.0 == s.cluster_name && k.1 == s.service);
                match k {
                    None => return Err(format!("the descriptor of {s:?} is asked for, which no configuration names")),
                    Some((k, D::Missing)) => list.push(*k),
                    Some((_, d)) => return Err(format!("the descriptor of {s:?} is asked for though it is {d:?}")),
                }
            }
            // the order in which they are listed means nothing
            list.sort();
            if list.is_empty() {
                return Err("descriptors of no services are asked for".into());
            }
            for k in &list {
                if !asked.insert(*k) {
                    return Err(format!("the descriptor of {k:?} is asked for twice at once"));
                }
            }
            if c.ok {
                for k in &list {
                    self.known.insert(*k, D::Inflight(c.token));
                }
                self.out.insert(c.token, list);
            }
        }
        if must {
            for k in self.needed() {
                if self.known.get(&k) == Some(&D::Missing) && !asked.contains(&k) {
                    return Err(format!("the descriptor of {k:?} is missing, but not asked for"));
                }
            }
        }
        Ok(())
    }

    fn answer(&self, asked: &[(&str, &str)], a: Answer) -> (u32, Option<Vec<u8>>, Vec<usize>) {
        let d = |k: &(&str, &str), files: Vec<u8>| proto::ServiceDescriptor {
            cluster_name: k.0.into(),
            service: k.1.into(),
            file_descriptor_set: files,
        };
        let last = asked.len() - 1;
        let (list, got): (Vec<proto::ServiceDescriptor>, Vec<usize>) = match a {
            Answer::Full => (asked.iter().map(|k| d(k, files_of(k.1))).collect(), (0..asked.len()).collect()),
            Answer::First => (vec![d(&asked[0], files_of(asked[0].1))], vec![0]),
            Answer::Last => (vec![d(&asked[last], files_of(asked[last].1))], vec![last]),
            Answer::Mixed => (vec![d(&asked[0], vec![0xff, 1]), d(&asked[last], files_of(asked[last].1))], vec![last]),
            Answer::Lacking => (asked.iter().map(|k| d(k, files_of("mc.Unknown"))).collect(), vec![]),
            Answer::Unrelated => (vec![d(&("c-9", "mc.Svc"), files_of("mc.Svc"))], vec![]),
            Answer::Nothing => (vec![], vec![]),
            Answer::Garbage => return (0, Some(vec![0xff, 0xff]), vec![]),
            Answer::Absent => return (0, None, vec![]),
            Answer::Status => return (14, None, vec![]),
        };
        (0, Some(proto::DescriptorResponse { descriptors: list }.encode_to_vec()), got)
    }

    fn step(&mut self, s: &Step) -> Result<(), String> {
        self.log.push(match s {
            Step::Configure(i, ok) => format!("configure {}{}", self.cfgs[*i].name, if *ok { "" } else { ", fetch refused" }),
            o => format!("{o:?}"),
        });
        let ok = !matches!(s, Step::Configure(_, false) | Step::Tick(false));
        host::with(|h| {
            h.fail_dispatch.clear();
            h.fail_upstream.clear();
            if !ok {
                h.fail_upstream.extend(["c-desc".to_string(), "c-desc2".to_string()]);
            }
        });
        let r = match s {
            Step::Configure(i, _) => {
                let c = self.cfgs[*i].clone();
                let (accepted, o) = self.vm.configure(&c.json());
                if accepted != c.valid {
                    return Err(format!("configuration {} accepted: {accepted}", c.name));
                }
                // nothing is known of what one that was refused needs
                for k in c.needs.iter().filter(|_| accepted) {
                    let d = if k.1 == EMBEDDED.1 { D::There } else { D::Missing };
                    self.known.entry(*k).or_insert(d);
                }
                if accepted {
                    self.force = Some(*i);
                }
                self.asks(&o, accepted)
            }
            Step::Tick(_) => {
                let o = self.vm.tick();
                self.asks(&o, true)
            }
            Step::Answer(t, a) => {
                let asked = self.out.remove(t).unwrap_or_default();
                let (status, body, got) = self.answer(&asked, *a);
                for (i, k) in asked.iter().enumerate() {
                    self.known.insert(*k, if got.contains(&i) { D::There } else { D::Missing });
                }
                self.done.push(*t);
                let o = self.vm.root_reply(*t, status, body.as_deref());
                self.asks(&o, false)
            }
            Step::Stale(t) => {
                let o = self.vm.root_reply(*t, 14, None);
                self.asks(&o, false)
            }
            Step::Unknown => {
                let o = self.vm.root_reply(u32::MAX, 0, Some(&[0xff]));
                self.asks(&o, false)
            }
        };
        r?;
        host::with(|h| h.fail_upstream.clear());
        let open = self.needed().iter().any(|k| self.known.get(k) != Some(&D::There));
        if open && !self.armed {
            return Err("a descriptor is missing, but no tick is armed to ask for it".into());
        }
        self.probe()
    }

    /// A call to a service works if, and only if, its descriptor is there.
    fn probe(&mut self) -> Result<(), String> {
        for k in self.needed() {
            self.next += 1;
            let id = self.next;
            self.vm.open(id, base_stream(&host_of(k), "/"));
            let o = self.vm.request_headers(id, true);
            self.vm.forget(id);
            if let Some(p) = &o.panicked {
                return Err(format!("panic: {p}"));
            }
            let there = self.known.get(&k) == Some(&D::There);
            let calls: Vec<(&str, &str)> = o.calls.iter().map(|c| (c.upstream.as_str(), c.service.as_str())).collect();
            let status: Vec<u32> = o.replies.iter().map(|r| r.status).collect();
            let want = if there { (vec![k], vec![]) } else { (vec![], vec![500]) };
            if (&calls, &status) != (&want.0, &want.1) {
                return Err(format!(
                    "the descriptor of {k:?} is{} there; a request makes calls {calls:?} and is answered {status:?}",
                    if there { "" } else { " not" }
                ));
            }
        }
        Ok(())
    }
}

fn descriptors(name: &str, cfgs: Vec<Cfg>, depth: usize, merged: bool, first: Vec<usize>) -> Job {
    job(name.to_string(), move |rec: &mut Rec| {
        rec.sample(json!({"configurations": cfgs.iter().map(|c| c.json()).collect::<Vec<_>>(), "depth": depth}));
        // where a state was first reached: one way there is enough to go on from
        let mut seen: BTreeMap<u64, (usize, Vec<usize>)> = BTreeMap::new();
        rec.explore(|ch, st| {
            let mut w = World::new(&cfgs);
            let mut path = vec![];
            for d in 0..depth {
                let steps = w.steps();
                let k = match first.get(d) {
                    Some(k) => *k,
                    None => ch.pick(steps.len()),
                };
                let Some(s) = steps.get(k) else { return Ok(()) };
                path.push(k);
                st.transition();
                let s = s.clone();
                if let Err(e) = w.step(&s) {
                    return Err((e, w.log));
                }
                let state = w.state();
                st.state(state);
                if merged {
                    match seen.get(&state) {
                        Some((at, p)) if *p != path && *at <= d => return Ok(()),
                        Some((at, _)) if *at <= d => {}
                        _ => {
                            seen.insert(state, (d, path.clone()));
                        }
                    }
                }
            }
            Ok(())
        });
    })
}

fn c14(thorough: bool) -> Vec<Job> {
    let small = vec![
        cfg("A", &[ONE]),
        cfg("B", &[ONE, TWO]),
        cfg("E", &[EMBEDDED]),
        Cfg { valid: false, from: "c-desc3", ..cfg("N", &[BAD]) },
        Cfg { from: "c-desc2", ..cfg("R", &[TWO]) },
    ];
    let mixed = vec![
        cfg("O", &[OTHER, EMBEDDED]),
        cfg("P", &[ONE, OTHER]),
        Cfg { valid: false, from: "c-desc3", ..cfg("Q", &[ONE, TWO]) },
        cfg("none", &[]),
    ];
    let mut v = vec![];
    for (name, cfgs) in [("clusters", small), ("services", mixed)] {
        let n = cfgs.len() * 2;
        let depth = if thorough { 4 } else { 3 };
        for a in 0..n {
            if thorough {
                for b in 0..25 {
                    v.push(descriptors(&format!("{name}: {a} {b}"), cfgs.clone(), depth, false, vec![a, b]));
                }
            } else {
                v.push(descriptors(&format!("{name}: {a}"), cfgs.clone(), depth, false, vec![a]));
            }
            let depth = if thorough { 6 } else { 4 };
            v.push(descriptors(&format!("{name}, each state once: {a}"), cfgs.clone(), depth, true, vec![a]));
        }
    }
    v
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C14",
        level: "model_checking",
        rule: "every history of three (thorough: four) configurations, ticks and answers to outstanding fetches (complete, partial, mixed, lacking the service, unrelated, malformed, empty, failed, stale, unknown; fetches the proxy refuses), and every history of four (six) when continued once from each model state; after every step each service of the configuration in force is probed with a request",
        assumptions: &[
            "a descriptor that was not asked for may be used or not",
            "the proxy accepts the tick period",
        ],
        jobs: c14,
    }]
}
