//! Evaluates expressions through the filter's own front door: each becomes the
//! value of an exporting `store` action, and what the proxy is handed is decoded.
use crate::pipe::{self, services_json};
use crate::report::{bad, Fail};
use crate::vm::{Obs, Vm};
use prost::Message;
use proxy_wasm::host::Stream;
use serde_json::{json, Value};
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    Null,
    Bool(bool),
    Num(f64),
    Str(String),
    List(Vec<V>),
    Map(BTreeMap<String, V>),
}

pub fn decode(v: &prost_types::Value) -> V {
    use prost_types::value::Kind;
    match v.kind.as_ref() {
        None | Some(Kind::NullValue(_)) => V::Null,
        Some(Kind::BoolValue(b)) => V::Bool(*b),
        Some(Kind::NumberValue(n)) => V::Num(*n),
        Some(Kind::StringValue(s)) => V::Str(s.clone()),
        Some(Kind::ListValue(l)) => V::List(l.values.iter().map(decode).collect()),
        Some(Kind::StructValue(s)) => {
            V::Map(s.fields.iter().map(|(k, v)| (k.clone(), decode(v))).collect())
        }
    }
}

pub fn config_with(actions: Value) -> String {
    config_sets(json!([{
        "name": "set",
        "routeRuleConditions": {"hostnames": ["*"]},
        "actions": actions,
    }]))
}

pub fn config_sets(sets: Value) -> String {
    json!({
        "services": services_json(),
        "descriptorService": "c-desc",
        "actionSets": sets,
    })
    .to_string()
}

/// A literal for use in an expression.
pub fn lit(s: &str) -> String {
    let mut o = String::from("'");
    for c in s.chars() {
        match c {
            '\\' => o.push_str("\\\\"),
            '\'' => o.push_str("\\'"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            c => o.push(c),
        }
    }
    o.push('\'');
    o
}

/// The value of each expression on a request whose headers end it; `None`
/// where the evaluation fails.
pub fn eval(exprs: &[String], stream: &Stream) -> Result<Vec<Option<V>>, String> {
    let mut out = vec![];
    for part in exprs.chunks(200) {
        match eval_some(part, stream) {
            Ok(v) => out.extend(v),
            Err(e) => {
                for x in part {
                    if let Err(e) = eval_some(std::slice::from_ref(x), stream) {
                        return Err(format!("{x}: {e}"));
                    }
                }
                return Err(e);
            }
        }
    }
    Ok(out)
}

fn eval_some(exprs: &[String], stream: &Stream) -> Result<Vec<Option<V>>, String> {
    let actions: Vec<Value> = exprs
        .iter()
        .enumerate()
        .map(|(i, x)| {
            json!({"type": "store", "predicate": "true", "terminal": false, "exportToHost": true,
                   "path": format!("o{i}"), "value": format!("[{x}]")})
        })
        .collect();
    let mut vm = pipe::boot(&config_with(json!(actions)))?;
    vm.open(7, stream.clone());
    let o = vm.request_headers(7, true);
    if let Some(p) = o.panicked {
        return Err(format!("panic: {p}"));
    }
    let mut out: Vec<Option<V>> = vec![None; exprs.len()];
    for (path, bytes) in &o.props {
        let i: usize = path
            .last()
            .and_then(|p| p.rsplit('.').next())
            .and_then(|p| p.strip_prefix('o'))
            .and_then(|p| p.parse().ok())
            .ok_or_else(|| format!("property {path:?} was not asked for"))?;
        let v = prost_types::Value::decode(bytes.as_slice()).map_err(|e| e.to_string())?;
        match decode(&v) {
            V::List(l) if l.len() == 1 => out[i] = Some(l[0].clone()),
            other => return Err(format!("exported {other:?} for {}", exprs[i])),
        }
    }
    vm.forget(7);
    Ok(out)
}

/// A configured filter that many short-lived streams run through.
pub struct Session {
    pub vm: Vm,
    next: u32,
}

impl Session {
    pub fn new(cfg: &str) -> Result<Session, String> {
        Ok(Session { vm: pipe::boot(cfg)?, next: 10 })
    }
    pub fn with(cfg: &str, files: &[u8]) -> Result<Session, String> {
        Ok(Session { vm: pipe::boot_with(cfg, files)?, next: 10 })
    }
    pub fn of(vm: Vm) -> Session {
        Session { vm, next: 10 }
    }
    pub fn open(&mut self, s: Stream) -> u32 {
        self.next += 1;
        self.vm.open(self.next, s);
        self.next
    }
    pub fn forget(&mut self, id: u32) {
        self.vm.forget(id);
    }
}

/// The observation, unless the callback panicked or did something unheard of.
pub fn sane(o: Obs) -> Result<Obs, Fail> {
    if let Some(p) = &o.panicked {
        return bad(format!("panic: {p}"));
    }
    if !o.other.is_empty() {
        return bad(format!("unexpected host calls {:?}", o.other));
    }
    Ok(o)
}

pub fn strings(alphabet: &[&str], max: usize) -> Vec<String> {
    let mut out = vec![String::new()];
    let mut last = out.clone();
    for _ in 0..max {
        last = last
            .iter()
            .flat_map(|s| alphabet.iter().map(move |c| format!("{s}{c}")))
            .collect();
        out.extend(last.clone());
    }
    out
}
