//! What a run counts and records.
use crate::dfs::{explore, Ch};
use serde_json::{json, Value};
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicU64, Ordering};

/// bumped at every execution, so that a watchdog can tell a hang
pub static PULSE: AtomicU64 = AtomicU64::new(0);

#[derive(Default)]
pub struct Stats {
    pub states: HashSet<u64>,
    pub transitions: u64,
    pub executions: u64,
    pub validated: u64,
}

impl Stats {
    pub fn state(&mut self, h: u64) {
        self.states.insert(h);
    }
    pub fn transition(&mut self) {
        self.transitions += 1;
    }
}

pub fn hash_of(x: &impl Hash) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub job: String,
    pub what: String,
    pub log: Vec<String>,
    pub path: Vec<u32>,
}

impl Violation {
    pub fn json(&self) -> Value {
        json!({"job": self.job, "what": self.what, "log": self.log, "path": self.path})
    }
    pub fn from_json(v: &Value) -> Violation {
        let s = |k: &str| v[k].as_str().unwrap_or_default().to_string();
        Violation {
            job: s("job"),
            what: s("what"),
            log: v["log"]
                .as_array()
                .map(|a| {
                    a.iter()
                        .filter_map(|x| x.as_str().map(String::from))
                        .collect()
                })
                .unwrap_or_default(),
            path: v["path"]
                .as_array()
                .map(|a| a.iter().filter_map(|x| x.as_u64().map(|n| n as u32)).collect())
                .unwrap_or_default(),
        }
    }
}

pub type Fail = (String, Vec<String>);
pub fn bad<T>(what: impl Into<String>) -> Result<T, Fail> {
    Err((what.into(), vec![]))
}

pub struct Rec {
    pub job: String,
    pub stats: Stats,
    pub violations: Vec<Violation>,
    pub samples: Vec<Value>,
    pub replay: Option<Vec<u32>>,
    seen: HashSet<String>,
}

impl Rec {
    pub fn new(replay: Option<Vec<u32>>) -> Rec {
        Rec {
            job: String::new(),
            stats: Stats::default(),
            violations: vec![],
            samples: vec![],
            replay,
            seen: HashSet::new(),
        }
    }

    /// Explores every choice sequence of `body`, recording each distinct failure.
    pub fn explore(&mut self, mut body: impl FnMut(&mut Ch, &mut Stats) -> Result<(), Fail>) {
        if let Some(p) = self.replay.clone() {
            let mut ch = Ch::replay(&p);
            if let Err((what, log)) = body(&mut ch, &mut self.stats) {
                self.violation(what, log, p);
            }
            return;
        }
        let mut failures = 0u32;
        explore(|ch| {
            PULSE.fetch_add(1, Ordering::Relaxed);
            self.stats.executions += 1;
            let r = body(ch, &mut self.stats);
            match r {
                Ok(()) => self.stats.validated += 1,
                Err((what, log)) => {
                    failures += 1;
                    let path = ch.path();
                    self.violation(what, log, path);
                }
            }
            // a broken tree is not worth exploring to the end
            failures < 2000
        });
    }

    pub fn violation(&mut self, what: String, log: Vec<String>, path: Vec<u32>) {
        let key = format!("{}\u{1}{what}", self.job);
        if self.seen.len() < 400 && self.seen.insert(key) {
            self.violations.push(Violation {
                job: self.job.clone(),
                what,
                log,
                path,
            });
        }
    }

    pub fn sample(&mut self, v: Value) {
        if self.samples.len() < 3 {
            self.samples.push(v);
        }
    }
}

pub struct Job {
    pub name: String,
    pub run: Box<dyn Fn(&mut Rec)>,
}

pub fn job(name: impl Into<String>, run: impl Fn(&mut Rec) + 'static) -> Job {
    Job {
        name: name.into(),
        run: Box::new(run),
    }
}

/// A pipeline scenario as a job.
pub fn pipe(s: crate::pipe::Scenario) -> Job {
    use crate::pipe;
    let name = s.name.clone();
    job(name, move |rec| {
        let mut vm = match pipe::boot(&pipe::config(&s)) {
            Ok(vm) => vm,
            Err(e) => {
                rec.violation(e, vec!["boot".into()], vec![]);
                return;
            }
        };
        rec.sample(json!({"scenario": s.name, "config": serde_json::from_str::<Value>(&pipe::config(&s)).unwrap_or_default()["actionSets"][0]["actions"]}));
        let mut id = 10u32;
        rec.explore(|ch, st| {
            id += 1;
            pipe::run(&s, &mut vm, id, ch, st)
        });
    })
}
