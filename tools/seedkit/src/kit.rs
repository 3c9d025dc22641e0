//! Configuration and start-up helpers of the demonstrations.
#![allow(dead_code)]
use crate::proto;
use crate::vm::Vm;
use prost::Message;
use proxy_wasm::host;
use serde_json::{json, Value};

pub fn services() -> Value {
    let svc = |ep: &str, mode: &str| {
        json!({"type": "dynamic", "endpoint": ep, "failureMode": mode, "timeout": "50ms",
               "grpcService": "mc.Svc", "grpcMethod": "Call"})
    };
    json!({
        "deny-svc": svc("c-deny", "deny"),
        "allow-svc": svc("c-allow", "allow"),
        "trace-svc": {"type": "tracing", "endpoint": "c-trace", "failureMode": "allow", "timeout": "5s"},
    })
}

pub fn config(actions: Value) -> String {
    config_obs(actions, json!({}))
}

pub fn config_obs(actions: Value, obs: Value) -> String {
    json!({
        "services": services(),
        "descriptorService": "c-desc",
        "observability": obs,
        "actionSets": [{"name": "set", "routeRuleConditions": {"hostnames": ["*"]}, "actions": actions}],
    })
    .to_string()
}

/// A filter that accepted `cfg` and has all its descriptors.
pub fn boot(cfg: &str) -> Vm {
    host::reset();
    let mut vm = Vm::new();
    let (ok, o) = vm.configure(cfg);
    assert!(ok, "the configuration is refused");
    let mut calls = o.calls;
    if calls.is_empty() && o.ticks.last().copied().unwrap_or(0) > 0 {
        calls = vm.tick().calls;
    }
    for c in calls {
        let req = proto::DescriptorRequest::decode(c.message.as_slice()).expect("descriptor request");
        let descriptors = req
            .services
            .iter()
            .map(|s| proto::ServiceDescriptor {
                cluster_name: s.cluster_name.clone(),
                service: s.service.clone(),
                file_descriptor_set: proto::file_set(),
            })
            .collect();
        let resp = proto::DescriptorResponse { descriptors };
        vm.root_reply(c.token, 0, Some(&resp.encode_to_vec()));
    }
    vm
}

/// A call action: `extra` fields override the plain ones.
pub fn call(tag: &str, extra: Value) -> Value {
    let mut a = json!({"type": "grpc", "predicate": "true", "terminal": false, "var": "v", "service": "deny-svc",
                       "messageBuilder": format!("mc.Req {{ tag: '{tag}' }}"), "onReply": []});
    for (k, v) in extra.as_object().into_iter().flatten() {
        a[k] = v.clone();
    }
    a
}

/// A reply message.
pub fn resp(code: u32, text: &str) -> Vec<u8> {
    proto::Resp { code, text: text.into(), hdrs: vec![] }.encode_to_vec()
}

pub fn tag(message: &[u8]) -> String {
    proto::Req::decode(message).map(|r| r.tag).unwrap_or_default()
}

/// Ends the demonstration with a failure.
pub fn fail(what: impl std::fmt::Display) -> ! {
    println!("FAIL: {what}");
    std::process::exit(1)
}

pub fn expect(cond: bool, what: impl std::fmt::Display) {
    if !cond {
        fail(what)
    }
}
