//! C19 JSON bodies, C20 event streams: fields read by JSON pointer, for every
//! split of a body into chunks, held back or let through between them.
use super::lab::{self, sane, Session, V};
use super::Prop;
use crate::dfs::Ch;
use crate::proto;
use crate::report::{bad, job, Fail, Job, Rec};
use crate::vm::{base_stream, Obs};
use prost::Message;
use serde_json::{json, Value};
use std::collections::BTreeMap;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Dir {
    Req,
    Resp,
}

impl Dir {
    fn f(self) -> &'static str {
        match self {
            Dir::Req => "requestBodyJSON",
            Dir::Resp => "responseBodyJSON",
        }
    }
}

/// What a body yields: the exported values, and the messages of the calls.
#[derive(Default, Debug)]
struct Got {
    values: BTreeMap<String, V>,
    calls: BTreeMap<String, String>,
}

fn collect(o: &Obs, got: &mut Got, out: &mut Vec<u32>) -> Result<(), Fail> {
    for (path, bytes) in &o.props {
        let name = path.join(".").replace("kuadrant.", "");
        let v = prost_types::Value::decode(bytes.as_slice()).map_err(|e| (e.to_string(), vec![]))?;
        if got.values.insert(name.clone(), lab::decode(&v)).is_some() {
            return bad(format!("{name} is stored twice"));
        }
    }
    for c in &o.calls {
        let r = proto::Req::decode(c.message.as_slice()).map_err(|e| (e.to_string(), vec![]))?;
        if got.calls.insert(r.tag.clone(), r.data).is_some() {
            return bad(format!("call {} is made twice", r.tag));
        }
        out.push(c.token);
    }
    if !o.replies.is_empty() {
        return bad(format!("answered locally: {:?}", o.replies));
    }
    Ok(())
}

/// Passes a body through the filter chunk by chunk; replies to calls arrive at
/// any point (when `now`, right away).
fn pass(sess: &mut Session, dir: Dir, content_type: &str, chunks: &[&[u8]], now: bool, ch: &mut Ch, log: &mut Vec<String>) -> Result<Got, Fail> {
    let mut stream = base_stream("api.example.com", "/");
    for (k, v) in stream.resp_headers.iter_mut().chain(stream.req_headers.iter_mut()) {
        if k == "content-type" {
            *v = content_type.into();
        }
    }
    let id = sess.open(stream);
    let mut got = Got::default();
    let mut out: Vec<u32> = vec![];
    let r = (|| {
        let vm = &mut sess.vm;
        let o = sane(vm.request_headers(id, dir == Dir::Resp))?;
        collect(&o, &mut got, &mut out)?;
        if dir == Dir::Resp {
            let o = sane(vm.response_headers(id, false))?;
            collect(&o, &mut got, &mut out)?;
        }
        let reply = proto::Resp { code: 1, ..Default::default() }.encode_to_vec();
        let mut held: Vec<u8> = vec![];
        for (i, c) in chunks.iter().enumerate() {
            let last = i + 1 == chunks.len();
            held.extend_from_slice(c);
            log.push(format!("chunk {:?} of what is held back: {:?}", String::from_utf8_lossy(c), String::from_utf8_lossy(&held)));
            let o = sane(match dir {
                Dir::Req => vm.request_body(id, &held, last),
                Dir::Resp => vm.response_body(id, &held, last),
            })?;
            collect(&o, &mut got, &mut out)?;
            let mut paused = o.pause == Some(true);
            if !paused {
                held.clear();
            }
            // replies: now, or with a later chunk
            while !out.is_empty() && (last || now || ch.flip()) {
                let t = out.remove(0);
                log.push(format!("reply to call {t}"));
                let o = sane(vm.reply(id, t, 0, Some(&reply)))?;
                collect(&o, &mut got, &mut out)?;
                if o.resume_req + o.resume_resp > 0 {
                    paused = false;
                    held.clear();
                }
            }
            if paused && out.is_empty() {
                return bad("the stream stays paused");
            }
        }
        Ok(())
    })();
    sess.forget(id);
    r.map(|()| got)
}

// ---------------------------------------------------------------- C19

/// What is known of a field of a document.
#[derive(Clone, Debug, PartialEq)]
enum Field {
    Scalar(Value),
    Absent,
    /// an object or an array
    Inner,
}

fn field(doc: &Value, p: &str) -> Field {
    match doc.pointer(p) {
        None => Field::Absent,
        Some(Value::Array(_) | Value::Object(_)) => Field::Inner,
        Some(v) => Field::Scalar(v.clone()),
    }
}

/// The exported `[x, string(x)]` stands for this scalar.
fn stands_for(v: &V, want: &Value) -> bool {
    let V::List(l) = v else { return false };
    let [x, s] = l.as_slice() else { return false };
    match want {
        Value::Null => *x == V::Null && *s == V::Str("null".into()),
        Value::Bool(b) => *x == V::Bool(*b) && *s == V::Str(b.to_string()),
        Value::String(t) => *x == V::Str(t.clone()) && *s == V::Str(t.clone()),
        Value::Number(n) => {
            let exact = n.is_f64() || *s == V::Str(n.to_string());
            *x == V::Num(n.as_f64().unwrap_or(f64::NAN)) && exact
        }
        _ => false,
    }
}

fn shown(x: &str) -> String {
    format!("[{x}, {x} == null ? 'null' : {x} == true ? 'true' : {x} == false ? 'false' : string({x})]")
}

const POINTERS: &[&str] = &["/m", "/n/m", "/m/n", "/0", "/1", "/m/0", "/m/1", "/a~1b", "/a~0b", "/", "/é", "/x/m", "/x", "/0/m"];
const PAIRS: &[(&str, &str)] = &[("/m", "/x"), ("/m", "/m/n"), ("/m/n", "/x/m"), ("/n/m", "/x"), ("/0", "/1"), ("/m/0", "/m/1"), ("/x", "/x/m"), ("/a~1b", "/a~0b")];

fn pointer_config(dir: Dir, guard: bool, calls: bool) -> String {
    let f = dir.f();
    let store = |path: String, value: String| {
        json!({"type": "store", "predicate": "true", "terminal": false, "exportToHost": true, "path": path, "value": value})
    };
    let mut acts = vec![];
    let call = |tag: String, data: String, guard: bool, predicate: String| {
        json!({"type": "grpc", "predicate": predicate, "terminal": false, "isGuard": guard, "service": "allow-svc", "var": "v",
               "label": "", "sources": [], "onReply": [], "messageBuilder": format!("mc.Req {{ tag: '{tag}', data: {data} }}")})
    };
    if guard {
        acts.push(store("g".into(), format!("{f}('/g')")));
        acts.push(call("g".into(), "g".into(), true, "true".into()));
    }
    for (i, p) in POINTERS.iter().enumerate() {
        if calls {
            acts.push(call(format!("o{i}"), format!("{}[1]", shown(&format!("{f}('{p}')"))), false, "true".into()));
        } else {
            acts.push(store(format!("o{i}"), shown(&format!("{f}('{p}')"))));
        }
    }
    if calls {
        for (i, p) in POINTERS.iter().enumerate().take(3) {
            acts.push(call(format!("p{i}"), "''".into(), false, format!("{f}('{p}') == 'a'")));
        }
    } else {
        for (i, (p, q)) in PAIRS.iter().enumerate() {
            acts.push(store(format!("p{i}"), format!("[{}, {}]", shown(&format!("{f}('{p}')")), shown(&format!("{f}('{q}')")))));
        }
    }
    lab::config_with(json!(acts))
}

/// `early`: what was complete in a document that is not may be used.
fn check(doc: &Value, whole: bool, early: bool, got: &Got, calls: bool) -> Result<(), Fail> {
    for (i, p) in POINTERS.iter().enumerate() {
        let want = field(doc, p);
        let is = got.values.get(&format!("o{i}"));
        let good = if calls {
            let c = got.calls.get(&format!("o{i}"));
            let text = |w: &Value| match w {
                Value::String(s) => Some(s.clone()),
                Value::Number(n) if n.is_f64() => None,
                w => Some(w.to_string()),
            };
            let sent = match (&want, c) {
                (Field::Inner, _) => true,
                (Field::Absent, c) => c.is_none(),
                (Field::Scalar(w), Some(c)) => (whole || early) && text(w).is_none_or(|t| t == *c),
                (Field::Scalar(_), None) => !whole,
            };
            let asked = got.calls.contains_key(&format!("p{i}"));
            let holds = want == Field::Scalar(json!("a"));
            sent && (i >= 3 || want == Field::Inner || asked == (whole && holds) || !whole && early && holds)
        } else {
            match (&want, is) {
                (Field::Inner, _) => true,
                (Field::Absent, v) => v.is_none(),
                (Field::Scalar(_), None) => !whole,
                (Field::Scalar(w), Some(v)) => stands_for(v, w),
            }
        };
        if !good {
            let is = if calls { format!("{:?}", got.calls.get(&format!("o{i}"))) } else { format!("{is:?}") };
            return bad(format!("{p} of {doc}{}: {is}; must be {want:?}", if whole { "" } else { ", incomplete" }));
        }
    }
    for (i, (p, q)) in PAIRS.iter().enumerate() {
        if calls {
            break;
        }
        let is = got.values.get(&format!("p{i}"));
        let good = match (field(doc, p), field(doc, q), is) {
            (Field::Inner, _, _) | (_, Field::Inner, _) => true,
            (Field::Scalar(a), Field::Scalar(b), Some(V::List(l))) if l.len() == 2 => stands_for(&l[0], &a) && stands_for(&l[1], &b),
            (Field::Scalar(_), Field::Scalar(_), _) => is.is_none() && !whole,
            (_, _, v) => v.is_none(),
        };
        if !good {
            return bad(format!("{p} and {q} of {doc}: {is:?}"));
        }
    }
    Ok(())
}

const LEAVES: &[&str] = &[
    r#""a""#,
    "0",
    "-1",
    "12",
    "1.5",
    "1e2",
    "-2.5E-3",
    "9007199254740993",
    "9223372036854775807",
    "18446744073709551615",
    "-9223372036854775808",
    r#""""#,
    r#""\"""#,
    r#""\\""#,
    r#""\\\"m\":1""#,
    r#""é""#,
    r#""😀""#,
    r#""\u00e9""#,
    r#""\ud83d\ude00""#,
    r#""\n\t\/""#,
    r#""12""#,
    r#""null""#,
    r#"" ""#,
    r#""},{""#,
    "true",
    "false",
    "null",
];

/// what else is in the document
const OTHERS: &[&str] = &["1", r#""\"m\":9""#, r#"{"m":"o"}"#, r#"[{"m":2}]"#, "null", "{}", "[]", r#"{"n":{"m":5}}"#, r#""]}""#];

const SHAPES: &[&str] = &[
    r#"{"m":V}"#,
    r#"{"x":W,"m":V}"#,
    r#"{"m":V,"x":W}"#,
    r#"{"n":{"m":V},"x":W}"#,
    r#"{"x":W,"n":{"x":1,"m":V}}"#,
    r#"{"m":{"n":V},"x":W}"#,
    r#"{"m":{"m":W,"n":V}}"#,
    r#"[V,W]"#,
    r#"[W,V]"#,
    r#"[{"m":V},W]"#,
    r#"{"m":[V,W]}"#,
    r#"{"m":[W,V]}"#,
    r#"{"a/b":V,"x":W}"#,
    r#"{"a~b":V,"a":W}"#,
    r#"{"a":{"b":W},"a/b":V}"#,
    r#"{"":V}"#,
    "{ \"m\" :\tV ,\n\"x\": W }\r\n",
    "\n[ V,\n W ] ",
    r#"{"é":V}"#,
    r#"{"mm":W,"m":V}"#,
    r#"{"M":W,"m":V}"#,
    r#"{"\\m":W,"m":V}"#,
    r#"{"m\"":W,"m":V}"#,
    r#"{"\u006d":V}"#,
];

fn documents(shape: &str, thorough: bool, thin: usize) -> Vec<String> {
    let mut v = vec![];
    let two = shape.contains('W');
    for (i, leaf) in LEAVES.iter().enumerate() {
        for (k, other) in OTHERS.iter().enumerate() {
            if !two && k > 0 || two && (i + k) % if thorough { 2 } else { thin } != 0 {
                continue;
            }
            v.push(shape.replace('V', leaf).replace('W', other));
        }
    }
    v
}

/// A split into chunks; the last one may come empty.
fn split<'a>(d: &'a [u8], cuts: usize, ch: &mut Ch) -> Vec<&'a [u8]> {
    let mut out = vec![];
    let mut rest = d;
    for _ in 0..cuts {
        let k = ch.pick(rest.len() + 1);
        let (a, b) = rest.split_at(k);
        out.push(a);
        rest = b;
    }
    out.push(rest);
    out
}

fn bodies(name: String, dir: Dir, shape: &'static str, thorough: bool, guard: bool, calls: bool) -> Job {
    job(name, move |rec: &mut Rec| {
        let cfg = pointer_config(dir, guard, calls);
        let mut sess = match Session::new(&cfg) {
            Ok(s) => s,
            Err(e) => return rec.violation(e, vec!["boot".into()], vec![]),
        };
        let docs: Vec<String> = documents(shape, thorough, if guard { 18 } else { 9 })
            .into_iter()
            .filter(|d| !guard || d.starts_with('{'))
            .map(|d| if guard { format!("{{\"g\":\"x\",{}", d.trim_start_matches(['{', ' '])) } else { d })
            .collect();
        if docs.is_empty() {
            return;
        }
        rec.sample(json!({"shape": shape, "documents": docs.len(), "such as": docs[0], "pointers": POINTERS}));
        rec.explore(|ch, st| {
            let text = &docs[ch.pick(docs.len())];
            let Ok(doc) = serde_json::from_str::<Value>(text) else { return bad(format!("not JSON: {text}")) };
            let cuts = match (thorough, guard) {
                (false, false) => 1,
                (true, false) => 1 + usize::from(text.len() <= 14),
                (_, true) => 1 + usize::from(thorough && text.len() <= 22),
            };
            let chunks = split(text.as_bytes(), cuts, ch);
            st.transition();
            let mut log = vec![];
            let r = pass(&mut sess, dir, "application/json", &chunks, !guard, ch, &mut log).and_then(|got| {
                st.state(crate::report::hash_of(&format!("{got:?}")));
                check(&doc, true, true, &got, calls)
            });
            r.map_err(|(e, _)| (e, log))
        });
    })
}

/// Documents that end early, or that are not JSON.
fn broken(name: String, dir: Dir, calls: bool, thorough: bool) -> Job {
    job(name, move |rec: &mut Rec| {
        let cfg = pointer_config(dir, false, calls);
        let mut sess = match Session::new(&cfg) {
            Ok(s) => s,
            Err(e) => return rec.violation(e, vec!["boot".into()], vec![]),
        };
        let docs: Vec<String> = SHAPES.iter().flat_map(|s| documents(s, false, 4)).step_by(if thorough { 2 } else if calls { 17 } else { 9 }).collect();
        rec.sample(json!({"documents cut short": docs.len(), "such as": docs[0]}));
        rec.explore(|ch, st| {
            let text = &docs[ch.pick(docs.len())];
            let Ok(doc) = serde_json::from_str::<Value>(text) else { return bad(format!("not JSON: {text}")) };
            let n = ch.pick(text.trim_end().len());
            let cut = &text.as_bytes()[..n];
            st.transition();
            let at = if thorough { ch.pick(n + 1) } else { n / 2 };
            let mut log = vec![];
            let (a, b) = cut.split_at(at);
            let r = pass(&mut sess, dir, "application/json", &[a, b], true, ch, &mut log).and_then(|got| {
                st.state(crate::report::hash_of(&format!("{got:?}")));
                // a field that was complete may be used, but not another value
                check(&doc, false, dir == Dir::Req, &got, calls)
            });
            r.map_err(|(e, _)| (e, log))
        });
    })
}

const BAD_LEAVES: &[&str] = &[
    "1e", "-", "01", "+1", ".5", "1.", "1.e2", "--1", "tru", "nul", "Null", "'a'", "\"\\x\"", "\"\\u12\"", "\"a\nb\"", "\"\u{1}\"", "a", "", "NaN", "Infinity",
];

/// Documents in which a field is no JSON value: nothing may be read there.
fn malformed(name: String, dir: Dir, calls: bool, thorough: bool) -> Job {
    job(name, move |rec: &mut Rec| {
        let cfg = pointer_config(dir, false, calls);
        let mut sess = match Session::new(&cfg) {
            Ok(s) => s,
            Err(e) => return rec.violation(e, vec!["boot".into()], vec![]),
        };
        rec.sample(json!({"values": BAD_LEAVES, "documents": SHAPES.len()}));
        rec.explore(|ch, st| {
            let shape = SHAPES[ch.pick(SHAPES.len())].replace('W', OTHERS[ch.pick(if thorough { OTHERS.len() } else { 1 })]);
            let leaf = BAD_LEAVES[ch.pick(BAD_LEAVES.len())];
            let Ok(marked) = serde_json::from_str::<Value>(&shape.replace('V', r#""V""#)) else { return bad("not JSON") };
            let text = shape.replace('V', leaf);
            if serde_json::from_str::<Value>(&text).is_ok() {
                return Ok(());
            }
            let chunks = split(text.as_bytes(), usize::from(thorough), ch);
            st.transition();
            let mut log = vec![];
            let r = pass(&mut sess, dir, "application/json", &chunks, true, ch, &mut log).and_then(|got| {
                st.state(crate::report::hash_of(&format!("{got:?}")));
                for (i, p) in POINTERS.iter().enumerate() {
                    let key = format!("o{i}");
                    if marked.pointer(p) == Some(&json!("V")) && (got.values.contains_key(&key) || got.calls.contains_key(&key)) {
                        return bad(format!("{p} of {text} is read as {:?} {:?}", got.values.get(&key), got.calls.get(&key)));
                    }
                }
                Ok(())
            });
            r.map_err(|(e, _)| (e, log))
        });
    })
}

fn c19(thorough: bool) -> Vec<Job> {
    let mut v = vec![];
    for (i, shape) in SHAPES.iter().enumerate() {
        for dir in [Dir::Req, Dir::Resp] {
            v.push(bodies(format!("{dir:?} store {i}: {shape}"), dir, shape, thorough, false, false));
            v.push(bodies(format!("{dir:?} store, held back {i}: {shape}"), dir, shape, thorough, true, false));
        }
        v.push(bodies(format!("call {i}: {shape}"), Dir::Resp, shape, thorough, false, true));
        v.push(bodies(format!("Req call {i}: {shape}"), Dir::Req, shape, thorough, false, true));
    }
    v.push(broken("Req store, broken".into(), Dir::Req, false, thorough));
    v.push(broken("Resp store, broken".into(), Dir::Resp, false, thorough));
    v.push(broken("call, broken".into(), Dir::Resp, true, thorough));
    v.push(malformed("Req store, malformed".into(), Dir::Req, false, thorough));
    v.push(malformed("Resp store, malformed".into(), Dir::Resp, false, thorough));
    v.push(broken("Req call, broken".into(), Dir::Req, true, thorough));
    v.push(malformed("Req call, malformed".into(), Dir::Req, true, thorough));
    v.push(malformed("call, malformed".into(), Dir::Resp, true, thorough));
    v
}

// ---------------------------------------------------------------- C20

/// The data of the events of a stream, as the HTML standard has it.
fn events(stream: &str) -> Vec<String> {
    let mut lines = vec![];
    let mut line = String::new();
    let mut it = stream.chars().peekable();
    while let Some(c) = it.next() {
        match c {
            '\r' | '\n' => {
                if c == '\r' && it.peek() == Some(&'\n') {
                    it.next();
                }
                lines.push(std::mem::take(&mut line));
            }
            c => line.push(c),
        }
    }
    let (mut out, mut data) = (vec![], String::new());
    for line in lines {
        if line.is_empty() {
            if data.pop().is_some() {
                out.push(std::mem::take(&mut data));
            }
            continue;
        }
        let (name, value) = line.split_once(':').unwrap_or((&line, ""));
        if name == "data" {
            data.push_str(value.strip_prefix(' ').unwrap_or(value));
            data.push('\n');
        }
    }
    out
}

/// The document that counts; None when there is none, or it is left open.
fn counts(stream: &str) -> Result<Option<Value>, ()> {
    let e = events(stream);
    if e.iter().any(|d| d.trim_matches('\n').is_empty()) {
        return Err(());
    }
    Ok(e.len().checked_sub(2).and_then(|i| serde_json::from_str(&e[i]).ok()))
}

const READ: &[&str] = &["/m", "/n/m", "/n/0"];

/// A call made with the response; its reply leads to another one, which holds
/// the body back.
fn holding() -> Value {
    let call = |tag: &str, guard: bool, data: &str, then: Value| {
        json!({"type": "grpc", "predicate": "true", "terminal": false, "isGuard": guard, "service": "allow-svc", "var": "v",
               "label": "", "sources": [], "onReply": then, "messageBuilder": format!("mc.Req {{ tag: '{tag}', data: {data} }}")})
    };
    call("a", false, "string(response.code)", json!([call("b", true, "'x'", json!([]))]))
}

fn stream_config(hold: bool, calls: bool) -> String {
    let mut acts = vec![];
    if hold {
        acts.push(holding());
    }
    for (i, p) in READ.iter().enumerate() {
        let x = shown(&format!("responseBodyJSON('{p}')"));
        acts.push(if calls {
            json!({"type": "grpc", "predicate": "true", "terminal": false, "isGuard": false, "service": "allow-svc", "var": "v",
                   "label": "", "sources": [], "onReply": [], "messageBuilder": format!("mc.Req {{ tag: 'o{i}', data: {x}[1] }}")})
        } else {
            json!({"type": "store", "predicate": "true", "terminal": false, "exportToHost": true, "path": format!("o{i}"), "value": x})
        });
    }
    lab::config_with(json!(acts))
}

fn check_stream(doc: Option<&Value>, got: &Got, calls: bool) -> Result<(), Fail> {
    for (i, p) in READ.iter().enumerate() {
        let want = doc.map_or(Field::Absent, |d| field(d, p));
        let key = format!("o{i}");
        let good = match (&want, calls) {
            (Field::Inner, _) => true,
            (Field::Absent, false) => !got.values.contains_key(&key),
            (Field::Absent, true) => !got.calls.contains_key(&key),
            (Field::Scalar(w), false) => got.values.get(&key).is_some_and(|v| stands_for(v, w)),
            (Field::Scalar(w), true) => got.calls.get(&key).is_some_and(|t| match w {
                Value::String(s) => s == t,
                Value::Number(n) if n.is_f64() => true,
                w => w.to_string() == *t,
            }),
        };
        if !good {
            return bad(format!("{p}: {:?} {:?}; must be {want:?}", got.values.get(&key), got.calls.get(&key)));
        }
    }
    Ok(())
}

/// The lines of single events, and pieces that are none.
const BLOCKS: &[&[&str]] = &[
    &["data: {\"m\":1}"],
    &["data:{\"m\":\"é\"}"],
    &["data: {\"m\":", "data: \"😀\"}"],
    &["data:  {\"m\":3,", "data:", "data:\t\"n\":{\"m\":\"a: b\"}}", "data: "],
    &["data: [DONE]"],
    &["data: x"],
    &["data: {\"m\":null, \"n\": [true]}"],
    &[": c", "event: e", "data: {\"m\":\"d\"}", "id: 7", "retry: 9"],
    &[": data: {\"m\":5}"],
    &["event: ping"],
    &["id: 3", "retry: x", "retry", "id", "event"],
    &["data: {\"m\":\"\\n\\u00e9\"}", "datax: 1", " data: 2", "Data: 3", "dat: 4"],
    &["data: {\"m\":6}", ":"],
    &[],
];

const ENDS: &[&str] = &["\n", "\r", "\r\n"];

/// Which ends the lines have.
#[derive(Clone, Copy, Debug)]
enum Ends {
    All(usize),
    /// each line one of the three in turn, from this one
    Turns(usize),
}

fn write_stream(blocks: &[usize], ends: Ends, cut: usize) -> String {
    let mut s = String::new();
    let mut n = 0;
    let mut line = |s: &mut String, t: &str| {
        s.push_str(t);
        s.push_str(ENDS[match ends {
            Ends::All(k) => k,
            Ends::Turns(k) => (n + k) % 3,
        }]);
        n += 1;
    };
    for b in blocks {
        for l in BLOCKS[*b] {
            line(&mut s, l);
        }
        line(&mut s, "");
    }
    for _ in 0..cut {
        s.pop();
    }
    s
}

fn run_stream(sess: &mut Session, text: &str, ctype: &str, cuts: usize, hold: bool, calls: bool, ch: &mut Ch, st: &mut crate::report::Stats) -> Result<(), Fail> {
    let Ok(doc) = counts(text) else { return Ok(()) };
    let chunks = split(text.as_bytes(), cuts, ch);
    st.transition();
    let mut log = vec![];
    let r = pass(sess, Dir::Resp, ctype, &chunks, !hold, ch, &mut log).and_then(|got| {
        st.state(crate::report::hash_of(&format!("{got:?}")));
        check_stream(doc.as_ref(), &got, calls)
    });
    r.map_err(|(e, _)| (format!("{e} in {text:?}"), log))
}

fn streams(name: String, first: usize, max: usize, cuts: usize, hold: bool, calls: bool, ends: Vec<Ends>) -> Job {
    job(name, move |rec: &mut Rec| {
        let mut sess = match Session::new(&stream_config(hold, calls)) {
            Ok(s) => s,
            Err(e) => return rec.violation(e, vec!["boot".into()], vec![]),
        };
        rec.sample(json!({"first event": BLOCKS[first], "events": max, "chunks": cuts + 1, "line ends": format!("{ends:?}")}));
        rec.explore(|ch, st| {
            let mut blocks = vec![first];
            while blocks.len() < max {
                match ch.pick(BLOCKS.len() + 1) {
                    0 => break,
                    k => blocks.push(k - 1),
                }
            }
            let text = write_stream(&blocks, ends[ch.pick(ends.len())], ch.pick(2));
            run_stream(&mut sess, &text, "text/event-stream", cuts, hold, calls, ch, st)
        });
    })
}

/// Sequences of lines, not arranged in events.
fn line_soup(name: String, len: usize, ends: &'static [&'static str], calls: bool) -> Job {
    const LINES: &[&str] = &["", "data: {\"m\":1}", "data:2", ":", "event: e"];
    job(name, move |rec: &mut Rec| {
        let mut sess = match Session::new(&stream_config(false, calls)) {
            Ok(s) => s,
            Err(e) => return rec.violation(e, vec!["boot".into()], vec![]),
        };
        rec.sample(json!({"lines": LINES, "up to": len}));
        rec.explore(|ch, st| {
            let mut text = String::new();
            let end = ends[ch.pick(ends.len())];
            for _ in 0..len {
                match ch.pick(LINES.len() + 1) {
                    0 => break,
                    k => text.push_str(LINES[k - 1]),
                }
                text.push_str(end);
            }
            run_stream(&mut sess, &text, "text/event-stream", 1, false, calls, ch, st)
        });
    })
}

/// Which content types make a response an event stream.
fn content_types(name: String, calls: bool) -> Job {
    const TYPES: &[(&str, bool)] = &[
        ("text/event-stream", true),
        ("text/event-stream; charset=utf-8", true),
        ("text/event-stream;charset=utf-8", true),
        ("text/event-stream ;charset=utf-8", true),
        ("Text/Event-Stream", true),
        ("TEXT/EVENT-STREAM; CHARSET=UTF-8", true),
        ("application/json", false),
        ("application/json; profile=text/event-stream", false),
        ("text/event-streams", false),
        ("x-text/event-stream", false),
        ("text/plain", false),
        ("", false),
    ];
    job(name, move |rec: &mut Rec| {
        let mut sess = match Session::new(&stream_config(false, calls)) {
            Ok(s) => s,
            Err(e) => return rec.violation(e, vec!["boot".into()], vec![]),
        };
        rec.sample(json!({"content types": TYPES.iter().map(|t| t.0).collect::<Vec<_>>()}));
        rec.explore(|ch, st| {
            let (ctype, sse) = TYPES[ch.pick(TYPES.len())];
            let json_body = ch.flip();
            let text = if json_body { "{\"m\":4}" } else { "data: {\"m\":1}\n\ndata: x\n\n" };
            let chunks = split(text.as_bytes(), 1, ch);
            st.transition();
            let mut log = vec![format!("content-type: {ctype:?}")];
            let doc = match (sse, json_body) {
                (true, false) => Some(json!({"m": 1})),
                (false, true) => Some(json!({"m": 4})),
                _ => None,
            };
            let r = pass(&mut sess, Dir::Resp, ctype, &chunks, true, ch, &mut log).and_then(|got| {
                st.state(crate::report::hash_of(&(ctype, format!("{got:?}"))));
                check_stream(doc.as_ref(), &got, calls)
            });
            r.map_err(|(e, _)| (format!("{e} for {ctype:?} and {text:?}"), log))
        });
    })
}

fn c20(thorough: bool) -> Vec<Job> {
    let mut v = vec![];
    let plain: Vec<Ends> = (0..3).map(Ends::All).collect();
    let turns: Vec<Ends> = (0..3).map(Ends::Turns).collect();
    for calls in [false, true] {
        let how = if calls { "calls" } else { "stores" };
        for first in 0..BLOCKS.len() {
            let n = if thorough { 3 } else { 2 };
            v.push(streams(format!("{how}: {n} events, first {first}"), first, n, 1, false, calls, plain.clone()));
            v.push(streams(format!("{how}: 2 events, ends in turn, first {first}"), first, 2, 1 + usize::from(thorough), false, calls, if thorough { turns.clone() } else { vec![turns[first % 3]] }));
            v.push(streams(format!("{how}: 2 events, held back, first {first}"), first, 2, 1 + usize::from(thorough), true, calls, vec![Ends::All(if thorough { 2 } else { first % 3 })]));
            v.push(streams(format!("{how}: 1 event, 3 chunks, first {first}"), first, 1, 2, false, calls, plain.clone()));
        }
        if thorough {
            v.push(line_soup(format!("{how}: sequences of lines"), 5, ENDS, calls));
        } else {
            v.push(line_soup(format!("{how}: sequences of lines"), 4, &ENDS[1 + usize::from(calls)..][..1], calls));
            v.push(line_soup(format!("{how}: short sequences of lines"), 3, ENDS, calls));
        }
        v.push(content_types(format!("{how}: content types"), calls));
    }
    v
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C19",
        level: "model_checking",
        rule: "JSON documents composed of 24 shapes, 27 leaf values and 9 neighbours, every split into two (thorough: three, for short ones) chunks, let through or held back between them with the reply that frees them at every point; 14 pointers and 8 pairs of pointers read from each by stores and calls, compared with a JSON parser's answer for the whole document; every prefix of the documents, and documents with one of 20 values that are none",
        assumptions: &[
            "fields that are objects or arrays, objects with a key twice, and numbers beyond the range of a double are left open",
            "a field of an incomplete document that is complete itself may be used or not",
        ],
        jobs: c19,
    },
    Prop {
        id: "C20",
        level: "model_checking",
        rule: "event streams of up to two (thorough: three) events from 14 kinds (data in one or several lines, comments, other and unknown fields, look-alikes, multi-byte characters) with LF, CR, CRLF or all of them, complete or ending early, and all sequences of up to four (five) lines, in every split into two (three) chunks, let through or held back between them with replies at every point; read by stores and by calls, compared with a parser of the HTML standard's format; content types",
        assumptions: &[
            "events all of whose data lines are empty are left open (the repository's tests drop them, the standard dispatches them), as are a byte order mark and streams that are not UTF-8",
        ],
        jobs: c20,
    }]
}
