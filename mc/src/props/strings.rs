//! C25: the CEL string functions against their specification.
use super::lab::{eval, lit, strings, V};
use super::Prop;
use crate::report::{hash_of, job, Job, Rec};
use crate::vm::base_stream;
use serde_json::json;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C25",
        level: "model_checking",
        rule: "every receiver over a four letter alphabet (one to four byte characters) up to a length, every argument up to a length, every offset and limit from below to beyond the range; results compared with functions written from the specification",
        assumptions: &["where the specification leaves the result open (empty separators and searches at an offset beyond the end), only the absence of panics is checked"],
        jobs,
    }]
}

const ALPHABET: &[&str] = &["a", "b", "é", "😀"];

/// What an expression must do.
enum Want {
    Is(V),
    Fails,
    /// left open by the specification
    Any,
}
use Want::{Any, Fails, Is};

fn int(n: i64) -> Want {
    Is(V::Num(n as f64))
}
fn text(s: impl Into<String>) -> Want {
    Is(V::Str(s.into()))
}
fn texts(l: Vec<String>) -> Want {
    Is(V::List(l.into_iter().map(V::Str).collect()))
}

fn chars(s: &str) -> Vec<char> {
    s.chars().collect()
}

fn find(h: &[char], n: &[char], from: usize) -> i64 {
    (from..=h.len())
        .find(|i| h[*i..].starts_with(n))
        .map_or(-1, |i| i as i64)
}

fn rfind(h: &[char], n: &[char], upto: usize) -> i64 {
    (0..=upto.min(h.len()))
        .rev()
        .find(|i| h[*i..].starts_with(n))
        .map_or(-1, |i| i as i64)
}

fn replace(h: &str, from: &str, to: &str, limit: i64) -> String {
    let (h, f) = (chars(h), chars(from));
    let mut out = String::new();
    let (mut i, mut n) = (0, 0);
    if f.is_empty() {
        for (i, c) in h.iter().enumerate() {
            if limit < 0 || (i as i64) < limit {
                out.push_str(to);
            }
            out.push(*c);
        }
        if limit < 0 || (h.len() as i64) < limit {
            out.push_str(to);
        }
        return out;
    }
    while i < h.len() {
        if (limit < 0 || n < limit) && h[i..].starts_with(&f) {
            out.push_str(to);
            i += f.len();
            n += 1;
        } else {
            out.push(h[i]);
            i += 1;
        }
    }
    out
}

fn split(h: &str, sep: &str, limit: i64) -> Vec<String> {
    if limit == 0 {
        return vec![];
    }
    let (h, f) = (chars(h), chars(sep));
    let mut out = vec![String::new()];
    let mut i = 0;
    while i < h.len() {
        if (limit < 0 || (out.len() as i64) < limit) && h[i..].starts_with(&f) {
            out.push(String::new());
            i += f.len();
        } else {
            if let Some(l) = out.last_mut() {
                l.push(h[i]);
            }
            i += 1;
        }
    }
    out
}

const SPACE: &[char] = &[
    '\u{9}', '\u{a}', '\u{b}', '\u{c}', '\u{d}', ' ', '\u{85}', '\u{a0}', '\u{1680}', '\u{2000}',
    '\u{2001}', '\u{2002}', '\u{2003}', '\u{2004}', '\u{2005}', '\u{2006}', '\u{2007}', '\u{2008}',
    '\u{2009}', '\u{200a}', '\u{2028}', '\u{2029}', '\u{202f}', '\u{205f}', '\u{3000}',
];

fn run(rec: &mut Rec, cases: Vec<(String, Want)>) {
    let exprs: Vec<String> = cases.iter().map(|c| c.0.clone()).collect();
    rec.sample(json!({"expressions": exprs.len(), "first": exprs.first(), "last": exprs.last()}));
    let stream = base_stream("api.example.com", "/toys");
    let mut results: Option<Result<Vec<Option<V>>, String>> = None;
    rec.explore(|ch, st| {
        let k = ch.pick(cases.len());
        let results = results.get_or_insert_with(|| eval(&exprs, &stream));
        let all = match results {
            Ok(r) => r,
            Err(e) => return Err((e.clone(), vec![])),
        };
        let (x, want) = &cases[k];
        st.state(hash_of(x));
        st.transition();
        let got = &all[k];
        let ok = match want {
            Is(v) => got.as_ref() == Some(v),
            Fails => got.is_none(),
            Any => true,
        };
        if ok {
            Ok(())
        } else {
            let want = match want {
                Is(v) => format!("{v:?}"),
                _ => "an error".into(),
            };
            Err((format!("{x} is {got:?}; must be {want}"), vec![]))
        }
    });
}

fn jobs(thorough: bool) -> Vec<Job> {
    let mut jobs: Vec<Job> = vec![];
    let n = if thorough { 4 } else { 3 };
    let mut add = |name: String, cases: Vec<(String, Want)>| {
        // in portions, so that workers share them
        let mut part = vec![];
        let mut no = 0;
        let mut cases = cases.into_iter().peekable();
        while let Some(c) = cases.next() {
            part.push(c);
            if part.len() == 2000 || cases.peek().is_none() {
                let cases = std::cell::RefCell::new(std::mem::take(&mut part));
                jobs.push(job(format!("{name} {no}"), move |rec| {
                    run(rec, cases.borrow_mut().drain(..).collect())
                }));
                no += 1;
            }
        }
    };
    let recv = strings(ALPHABET, n);
    let args = strings(ALPHABET, if thorough { 3 } else { 2 });
    let small = strings(ALPHABET, if thorough { 3 } else { 2 });

    let mut c = vec![];
    for r in &recv {
        let h = chars(r);
        for i in -1..=(h.len() as i64 + 1) {
            let want = match usize::try_from(i) {
                Ok(i) if i == h.len() => text(""),
                Ok(i) if i < h.len() => text(h[i].to_string()),
                _ => Fails,
            };
            c.push((format!("{}.charAt({i})", lit(r)), want));
        }
    }
    add("charAt".into(), c);

    for last in [false, true] {
        let f = if last { "lastIndexOf" } else { "indexOf" };
        let mut c = vec![];
        for r in &recv {
            let h = chars(r);
            for a in &args {
                let s = chars(a);
                let plain = if last { rfind(&h, &s, h.len()) } else { find(&h, &s, 0) };
                c.push((format!("{}.{f}({})", lit(r), lit(a)), int(plain)));
                if h.len() == 2 && s.len() == 1 {
                    // the result is an integer like any other
                    c.push((format!("{}.{f}({}) + 1", lit(r), lit(a)), int(plain + 1)));
                    c.push((format!("{}.{f}({}, 0) + 1", lit(r), lit(a)),
                            int(1 + if last { rfind(&h, &s, 0) } else { find(&h, &s, 0) })));
                }
                if thorough && h.len() > 3 && s.len() > 2 {
                    continue;
                }
                for o in -1..=(h.len() as i64 + 1) {
                    let want = match usize::try_from(o) {
                        _ if s.is_empty() && (o < 0 || o >= h.len() as i64) => Any,
                        Err(_) => Fails,
                        Ok(o) if o >= h.len() => int(-1),
                        Ok(o) if last => int(rfind(&h, &s, o)),
                        Ok(o) => int(find(&h, &s, o)),
                    };
                    c.push((format!("{}.{f}({}, {o})", lit(r), lit(a)), want));
                }
            }
        }
        for bad in ["1", "true", "null", "['a']"] {
            c.push((format!("'ab'.{f}({bad})"), Fails));
            c.push((format!("'ab'.{f}('a', 'b')"), Fails));
        }
        add(f.into(), c);
    }

    let mut c = vec![];
    for r in &recv {
        let h = chars(r);
        let n = h.len() as i64;
        for a in -1..=n + 1 {
            let ok = (0..=n).contains(&a);
            let rest = |a: i64, b: i64| text(h[a as usize..b as usize].iter().collect::<String>());
            c.push((format!("{}.substring({a})", lit(r)), if ok { rest(a, n) } else { Fails }));
            for b in -1..=n + 1 {
                let ok = a >= 0 && a <= b && b <= n;
                c.push((
                    format!("{}.substring({a}, {b})", lit(r)),
                    if ok { rest(a, b) } else { Fails },
                ));
            }
        }
    }
    c.push(("'abc'.substring('a')".into(), Fails));
    c.push(("'abc'.substring(0, 'a')".into(), Fails));
    c.push(("'abc'.substring(1u, 2u)".into(), text("b")));
    add("substring".into(), c);

    let mut c = vec![];
    for r in recv.iter().chain(["aabaab", "ababab", "ééaéé"].map(String::from).iter()) {
        for from in &small {
            if from.chars().count() > 2 || r.chars().count() > 3 && from.chars().count() == 0 && thorough {
                continue;
            }
            for to in ["", "x", "aa", "é"] {
                c.push((
                    format!("{}.replace({}, {})", lit(r), lit(from), lit(to)),
                    text(replace(r, from, to, -1)),
                ));
                if to == "aa" && !thorough {
                    continue;
                }
                for l in [-1, 0, 1, 2] {
                    c.push((
                        format!("{}.replace({}, {}, {l})", lit(r), lit(from), lit(to)),
                        text(replace(r, from, to, l)),
                    ));
                }
            }
        }
    }
    c.push(("'abc'.replace('a')".into(), Fails));
    c.push(("'abc'.replace(1, 'a')".into(), Fails));
    c.push(("'abc'.replace('a', 'b', 'c')".into(), Fails));
    add("replace".into(), c);

    let mut c = vec![];
    for r in recv.iter().chain(["aabaab", "ababab", "ééaéé"].map(String::from).iter()) {
        for sep in &small {
            if sep.chars().count() > 2 {
                continue;
            }
            let want = |l: i64| if sep.is_empty() { Any } else { texts(split(r, sep, l)) };
            c.push((format!("{}.split({})", lit(r), lit(sep)), want(-1)));
            for l in [-1, 0, 1, 2, 3] {
                c.push((format!("{}.split({}, {l})", lit(r), lit(sep)), want(l)));
            }
        }
    }
    c.push(("'abc'.split(1)".into(), Fails));
    add("split".into(), c);

    let mut c = vec![];
    let words = ["", "a", "é", "😀b"];
    for n in 0..=3usize {
        for k in 0..words.len().pow(n as u32) {
            let l: Vec<&str> = (0..n).map(|i| words[k / words.len().pow(i as u32) % words.len()]).collect();
            let list = format!("[{}]", l.iter().map(|w| lit(w)).collect::<Vec<_>>().join(", "));
            c.push((format!("{list}.join()"), text(l.concat())));
            for sep in ["", ",", "é", "ab"] {
                c.push((format!("{list}.join({})", lit(sep)), text(l.join(sep))));
            }
        }
    }
    for bad in ["[1].join()", "['a', 1].join(',')", "['a', null].join(',')", "['a'].join(1)"] {
        c.push((bad.into(), Fails));
    }
    add("join".into(), c);

    let mut c = vec![];
    let mut all: Vec<char> = (1u8..128).map(char::from).collect();
    all.extend("äÄßÆéÉİıΣσςД😀".chars());
    for ch in &all {
        for (a, b) in [("", ""), ("a", "Z"), ("É", "z")] {
            let s = format!("{a}{ch}{b}");
            let low: String = s.chars().map(|c| if c.is_ascii_uppercase() { (c as u8 + 32) as char } else { c }).collect();
            let up: String = s.chars().map(|c| if c.is_ascii_lowercase() { (c as u8 - 32) as char } else { c }).collect();
            c.push((format!("{}.lowerAscii()", lit(&s)), text(low)));
            c.push((format!("{}.upperAscii()", lit(&s)), text(up)));
        }
    }
    let mut all = all.clone();
    all.extend(SPACE);
    all.extend(['\u{180e}', '\u{200b}', '\u{200c}', '\u{200d}', '\u{2060}', '\u{feff}']);
    all.sort_unstable();
    all.dedup();
    for ch in &all {
        for s in [
            format!("{ch}"), format!("{ch}x"), format!("x{ch}"), format!("{ch}x{ch}"),
            format!(" {ch}x {ch} "), format!("x{ch}x"),
        ] {
            let t: String = s.trim_matches(|c| SPACE.contains(&c)).into();
            c.push((format!("{}.trim()", lit(&s)), text(t)));
        }
    }
    add("ASCII case and trim".into(), c);
    jobs
}
