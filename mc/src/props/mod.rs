use crate::report::Job;

pub struct Prop {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub jobs: fn(bool) -> Vec<Job>,
}

mod bodies;
mod data;
mod lab;
mod legacy;
mod route;
mod strings;
mod wire;
mod exec;
mod headers;
mod many;
mod observe;
mod reconf;
mod robust;
mod root;
mod setup;

pub fn all() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(exec::props());
    v.extend(headers::props());
    v.extend(route::props());
    v.extend(many::props());
    v.extend(observe::props());
    v.extend(root::props());
    v.extend(reconf::props());
    v.extend(data::props());
    v.extend(bodies::props());
    v.extend(strings::props());
    v.extend(wire::props());
    v.extend(legacy::props());
    v.extend(robust::props());
    v.extend(setup::props());
    v
}

pub fn find(id: &str) -> Option<Prop> {
    all().into_iter().find(|p| p.id == id)
}
