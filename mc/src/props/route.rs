//! C12: which action set handles a request.
use super::lab::{self, Session};
use super::Prop;
use crate::report::{bad, hash_of, job, Job, Rec};
use crate::vm::{base_stream, set_prop, val};
use proxy_wasm::host::Prop as P;
use serde_json::{json, Value};

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C29",
        level: "model_checking",
        rule: "every query string of up to five (quick) or six (thorough) tokens over names, '=', '&', escapes of one- and two-byte characters, broken escapes and escapes of invalid UTF-8 x conditions on the presence, value, repetition and number of parameters; the action set is picked exactly if the condition holds for the parameters as an independent decoder reads them",
        assumptions: &["'+' and parameters without a name are left open", "an undecodable escape stands for itself"],
        jobs: query_jobs,
    },
    Prop {
        id: "C12",
        level: "model_checking",
        rule: "every sequence of up to three hostnames of a universe of exact, wildcard, overlapping and differently spelt names (each with an action set that refuses with a status of its own) x every request host; every sequence of three action sets of one hostname over lists of true, false, failing and undecidable predicates; every way the host can be missing",
        assumptions: &[
            "the hosts of a request with an empty label or a trailing dot are left open",
            "predicates after the first that is false, or fails, are not looked at",
        ],
        jobs,
    }]
}

/// Which of the hostnames covers the host most specifically (index of its first use).
pub fn most_specific<'a>(names: &[&'a str], host: &str) -> Option<&'a str> {
    let host = host.to_ascii_lowercase();
    let host = match host.strip_prefix('[') {
        Some(v6) => match v6.split_once(']') {
            Some((a, _)) => format!("[{a}]"),
            None => host.clone(),
        },
        None => host.split(':').next().unwrap_or_default().to_string(),
    };
    let mut best: Option<(usize, &str)> = None;
    for n in names {
        let l = n.to_ascii_lowercase();
        let rank = if l == host {
            usize::MAX
        } else if l == "*" {
            1
        } else if let Some(suffix) = l.strip_prefix('*') {
            if host.len() > suffix.len() && host.ends_with(suffix) {
                l.len()
            } else {
                continue;
            }
        } else {
            continue;
        };
        if best.is_none_or(|b| rank > b.0) {
            best = Some((rank, n));
        }
    }
    best.map(|b| b.1)
}

fn set(name: usize, hostnames: &[&str], predicates: &[&str]) -> Value {
    json!({
        "name": format!("set-{name}"),
        "routeRuleConditions": {"hostnames": hostnames, "predicates": predicates},
        "actions": [{"type": "deny", "predicate": "true", "terminal": true,
                     "denyWith": format!("DenyResponse {{ status: {}u }}", 420 + name)}],
    })
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Want {
    Set(usize),
    Miss,
    Error,
}

fn expect(s: &mut Session, stream: proxy_wasm::host::Stream, want: Want, what: &str) -> Result<(), crate::report::Fail> {
    let id = s.open(stream);
    let r = (|| {
        let o = lab::sane(s.vm.request_headers(id, true))?;
        let got: Vec<u32> = o.replies.iter().map(|r| r.status).collect();
        let count = |k: &str| o.metrics.get(k).copied().unwrap_or(0);
        let counts = (count("kuadrant.hits"), count("kuadrant.misses"), count("kuadrant.errors"));
        let (status, n): (Vec<u32>, _) = match want {
            Want::Set(i) => (vec![420 + i as u32], (1, 0, 0)),
            Want::Miss => (vec![], (0, 1, 0)),
            Want::Error => (vec![500], (0, 0, 1)),
        };
        if got != status {
            return bad(format!("{what}: answered {got:?}; must be {want:?}"));
        }
        if counts != n {
            return bad(format!("{what}: hits, misses, errors are {counts:?}; must be {n:?}"));
        }
        if want == Want::Miss && (o.pause != Some(false) || !o.calls.is_empty() || !o.set_maps.is_empty()) {
            return bad(format!("{what}: a request that matches nothing is not left alone"));
        }
        Ok(())
    })();
    s.forget(id);
    r
}

const NAMES: &[&str] = &[
    "*", "*.com", "*.a.com", "a.com", "b.a.com", "*.b.a.com", "*.ba.com", "ba.com", "B.A.com", "*.A.com", "*.om", "[::1]",
];

const HOSTS: &[&str] = &[
    "a.com", "A.cOm", "a.com:80", "A.COM:8443", "b.a.com", "b.a.com:80", "c.a.com", "B.A.COM", "x.b.a.com", "X.b.A.com:1",
    "y.x.b.a.com", "ba.com", "x.ba.com", "xa.com", "com", "c.om", "localhost", "a.co", "a.com.evil.org", "evil.org:80",
    "[::1]", "[::1]:80", "[::2]:80", "127.0.0.1:80", "*.a.com", "$a.com", "x$a.com", "x.$a.com", "xn--bcher-kva.a.com", "bücher.a.com",
];

fn over_hosts(rec: &mut Rec, sets: Vec<Vec<&'static str>>) {
    let cfg: Vec<Value> = sets.iter().enumerate().map(|(i, h)| set(i, h, &[])).collect();
    let mut s = match Session::new(&lab::config_sets(json!(cfg))) {
        Ok(s) => s,
        Err(e) => return rec.violation(e, vec![format!("{sets:?}")], vec![]),
    };
    let all: Vec<&str> = sets.iter().flatten().copied().collect();
    rec.sample(json!({"hostnames": sets}));
    rec.explore(|ch, st| {
        let host = HOSTS[ch.pick(HOSTS.len())];
        st.state(hash_of(&(&sets, host)));
        st.transition();
        let want = match most_specific(&all, host) {
            None => Want::Miss,
            Some(n) => Want::Set(
                sets.iter()
                    .position(|l| l.iter().any(|x| x.eq_ignore_ascii_case(n)))
                    .unwrap_or(0),
            ),
        };
        expect(&mut s, base_stream(host, "/toys"), want, &format!("host {host} with hostnames {sets:?}"))
    });
}

const PREDS: &[&[&str]] = &[
    &[],
    &["true"],
    &["request.method == 'NEVER'"],
    &["nosuch.thing == 'x'"],
    &["request.method"],
    &["request.late == 'yes'"],
    &["request.method == 'GET'", "request.url_path.startsWith('/toys')"],
    &["request.method == 'GET'", "request.url_path == '/other'"],
    &["request.url_path == '/other'", "nosuch.thing == 'x'"],
    &["request.method == 'GET'", "nosuch.thing == 'x'"],
];
/// what each of these comes to
const OUTCOME: &[Option<bool>] = &[
    Some(true),
    Some(true),
    Some(false),
    None,
    None,
    None,
    Some(true),
    Some(false),
    Some(false),
    None,
];

fn over_predicates(rec: &mut Rec, first: usize, thorough: bool) {
    let n = PREDS.len();
    // each set under the hostname itself, a wildcard above it, both or the one for all
    let places: &[&[&str]] = &[&["a.com"], &["*.com"], &["a.com", "*.com"], &["*"]];
    let m = places.len();
    let mut cases = vec![];
    for second in 0..n {
        for third in 0..n {
            for place in 0..m * m {
                if thorough || second % 3 == 0 && third % 2 == 0 || place < m {
                    cases.push((second, third, place));
                }
            }
        }
    }
    let mut session: Option<((usize, usize, usize), Session)> = None;
    rec.explore(|ch, st| {
        let case = cases[ch.pick(cases.len())];
        let host = ["a.com", "b.com", "c.org"][ch.pick(3)];
        let preds = [first, case.0, case.1];
        let spots = [0, case.2 / m, case.2 % m];
        st.state(hash_of(&(preds, spots, host)));
        st.transition();
        if session.as_ref().is_none_or(|s| s.0 != case) {
            let cfg: Vec<Value> = (0..3).map(|i| set(i, places[spots[i]], PREDS[preds[i]])).collect();
            session = Some((case, Session::new(&lab::config_sets(json!(cfg))).map_err(|e| (e, vec![]))?));
        }
        let Some((_, s)) = session.as_mut() else { return bad("no session") };
        let names: Vec<&str> = spots.iter().flat_map(|p| places[*p].iter().copied()).collect();
        let mut want = Want::Miss;
        if let Some(name) = most_specific(&names, host) {
            for i in 0..3 {
                if places[spots[i]].contains(&name) {
                    match OUTCOME[preds[i]] {
                        Some(true) => want = Want::Set(i),
                        Some(false) => continue,
                        None => want = Want::Error,
                    }
                    break;
                }
            }
        }
        let mut stream = base_stream(host, "/toys?x=1");
        set_prop(&mut stream, "request.late", P::Unavailable);
        let what = format!(
            "host {host}, sets {:?}",
            (0..3).map(|i| (places[spots[i]], PREDS[preds[i]])).collect::<Vec<_>>()
        );
        expect(s, stream, want, &what)
    });
}

fn jobs(thorough: bool) -> Vec<Job> {
    let mut jobs = vec![];
    for a in NAMES {
        jobs.push(job(format!("hostnames from {a}"), move |rec| {
            over_hosts(rec, vec![vec![a]]);
            for b in NAMES {
                over_hosts(rec, vec![vec![a], vec![b]]);
                over_hosts(rec, vec![vec![a, b]]);
                for c in NAMES {
                    over_hosts(rec, vec![vec![a], vec![b], vec![c]]);
                    if thorough {
                        over_hosts(rec, vec![vec![a], vec![b, c]]);
                        over_hosts(rec, vec![vec![a, b], vec![c]]);
                        for d in NAMES {
                            if d > b && b != c {
                                over_hosts(rec, vec![vec![a], vec![b], vec![c], vec![d]]);
                            }
                        }
                    }
                }
            }
        }));
    }
    for i in 0..PREDS.len() {
        jobs.push(job(format!("predicates from {i}"), move |rec| over_predicates(rec, i, thorough)));
    }
    jobs.push(job("no hostname at all", |rec| {
        for names in [vec!["*"], vec!["a.com"], vec!["*.com", "*"]] {
            let cfg = lab::config_sets(json!([set(0, &names, &[])]));
            let mut s = match Session::new(&cfg) {
                Ok(s) => s,
                Err(e) => return rec.violation(e, vec![], vec![]),
            };
            rec.explore(|ch, st| {
                let p = [P::Absent, P::Unavailable, P::Fail, P::Value(vec![0xff, 0xfe])][ch.pick(4)].clone();
                st.state(hash_of(&(&names, format!("{p:?}"))));
                st.transition();
                let mut stream = base_stream("a.com", "/");
                let what = format!("request.host {p:?}");
                set_prop(&mut stream, "request.host", p);
                expect(&mut s, stream, Want::Error, &what)
            });
            // and the next request is fine again
            rec.explore(|_, _| {
                let mut stream = base_stream("a.com", "/");
                set_prop(&mut stream, "request.host", val("a.com"));
                expect(&mut s, stream, Want::Set(0), "a request after those without host")
            });
        }
        // no action sets
        let mut s = match Session::new(&lab::config_sets(json!([]))) {
            Ok(s) => s,
            Err(e) => return rec.violation(e, vec![], vec![]),
        };
        rec.explore(|ch, st| {
            let host = HOSTS[ch.pick(HOSTS.len())];
            st.state(hash_of(&("none", host)));
            st.transition();
            expect(&mut s, base_stream(host, "/"), Want::Miss, "no action sets")
        });
    }));
    jobs
}

// ---------------------------------------------------------------- C29: parameters

type Params = Vec<(String, String)>;

/// The text behind the escapes, or the text itself where that is none.
fn unescaped(s: &str) -> String {
    let b = s.as_bytes();
    let hex = |i: usize| b.get(i).and_then(|c| (*c as char).to_digit(16));
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        match (b[i], hex(i + 1), hex(i + 2)) {
            (b'%', Some(h), Some(l)) => {
                out.push((h * 16 + l) as u8);
                i += 3;
            }
            (c, _, _) => {
                out.push(c);
                i += 1;
            }
        }
    }
    String::from_utf8(out).unwrap_or(s.to_string())
}

fn params(q: &str) -> Params {
    q.split('&')
        .map(|p| {
            let (k, v) = p.find('=').map_or((p, ""), |i| (&p[..i], &p[i + 1..]));
            (unescaped(k), unescaped(v))
        })
        .collect()
}

fn all<'a>(p: &'a Params, k: &str) -> Vec<&'a str> {
    p.iter().filter(|x| x.0 == k).map(|x| x.1.as_str()).collect()
}

type Cond = (&'static str, fn(&Params) -> Option<bool>);

/// Conditions, and what they come to (`None`: the evaluation fails).
const CONDS: &[Cond] = &[
    ("'a' in queryMap(request.query)", |p| Some(!all(p, "a").is_empty())),
    ("'é' in queryMap(request.query, true)", |p| Some(!all(p, "é").is_empty())),
    ("'a' in queryMap(request.query) ? queryMap(request.query)['a'] == 'b' : false", |p| Some(all(p, "a").first() == Some(&"b"))),
    ("queryMap(request.query)['a'] == 'A'", |p| all(p, "a").first().map(|v| *v == "A")),
    ("queryMap(request.query, false)['b'] == 'a=A'", |p| all(p, "b").first().map(|v| *v == "a=A")),
    ("queryMap(request.query)['a'] == ''", |p| all(p, "a").first().map(|v| v.is_empty())),
    ("'a' in queryMap(request.query) && queryMap(request.query, true)['a'] == ['b', 'A']", |p| Some(all(p, "a") == ["b", "A"])),
    ("'a' in queryMap(request.query) && queryMap(request.query, true)['a'] == ['', 'é', '']", |p| Some(all(p, "a") == ["", "é", ""])),
    ("'b' in queryMap(request.query) && queryMap(request.query, true)['b'] == 'é'", |p| Some(all(p, "b") == ["é"])),
    ("queryMap(request.query) == {'a': 'b'}", |p| Some(p.iter().all(|x| x.0 == "a") && p[0].1 == "b")),
    ("queryMap(request.query).size() == 2", |p| {
        let mut names: Vec<_> = p.iter().map(|x| &x.0).collect();
        names.sort();
        names.dedup();
        Some(names.len() == 2)
    }),
    ("queryMap(request.query).all(k, k == 'a' || k == 'A')", |p| Some(p.iter().all(|x| x.0 == "a" || x.0 == "A"))),
    ("request.method == 'GET' && 'a' in queryMap(request.query) && queryMap(request.query)['a'].startsWith('%')", |p| Some(all(p, "a").first().is_some_and(|v| v.starts_with('%')))),
];

const TOKENS: &[&str] = &["a", "b", "=", "&", "%41", "%C3%A9", "%", "%ff", "%26"];

fn query_jobs(thorough: bool) -> Vec<Job> {
    let mut jobs: Vec<Job> = (0..TOKENS.len())
        .map(|first| {
            job(format!("queries from {}", TOKENS[first]), move |rec: &mut Rec| {
                let cfg: Vec<Value> = CONDS.iter().enumerate().map(|(i, c)| set(i, &[&format!("h{i}.com")], &[c.0])).collect();
                let mut s = match Session::new(&lab::config_sets(json!(cfg))) {
                    Ok(s) => s,
                    Err(e) => return rec.violation(e, vec![], vec![]),
                };
                let more = lab::strings(TOKENS, if thorough { 5 } else { 3 });
                rec.sample(json!({"conditions": CONDS.iter().map(|c| c.0).collect::<Vec<_>>(), "queries": more.len()}));
                rec.explore(|ch, st| {
                    let q = format!("{}{}", TOKENS[first], more[ch.pick(more.len())]);
                    let p = params(&q);
                    if p.iter().any(|x| x.0.is_empty()) {
                        return Ok(());
                    }
                    st.state(hash_of(&q));
                    for (i, (cond, holds)) in CONDS.iter().enumerate() {
                        st.transition();
                        let want = match holds(&p) {
                            Some(true) => Want::Set(i),
                            Some(false) => Want::Miss,
                            None => Want::Error,
                        };
                        expect(&mut s, base_stream(&format!("h{i}.com"), &format!("/toys?{q}")), want, &format!("query {q}, {cond}"))?;
                    }
                    Ok(())
                });
            })
        })
        .collect();
    // in the order of the action sets, together with other conditions
    jobs.push(job("several sets", move |rec: &mut Rec| {
        let pick = [2, 0, 9, 8, 1];
        let cfg: Vec<Value> = pick.iter().map(|i| set(*i, &["*.com"], &["request.url_path.startsWith('/toys')", CONDS[*i].0])).collect();
        let mut s = match Session::new(&lab::config_sets(json!(cfg))) {
            Ok(s) => s,
            Err(e) => return rec.violation(e, vec![], vec![]),
        };
        let all = lab::strings(TOKENS, if thorough { 5 } else { 4 });
        rec.sample(json!({"queries": all.len()}));
        rec.explore(|ch, st| {
            let q = &all[ch.pick(all.len())];
            let p = params(q);
            if p.iter().any(|x| x.0.is_empty()) {
                return Ok(());
            }
            st.state(hash_of(&q));
            st.transition();
            let want = pick.iter().find(|i| CONDS[**i].1(&p) == Some(true)).map_or(Want::Miss, |i| Want::Set(*i));
            expect(&mut s, base_stream("x.com", &format!("/toys?{q}")), want, &format!("query {q}"))
        });
    }));
    jobs
}
