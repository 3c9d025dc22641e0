//! C21: messages of calls and replies against our own reading of the protobuf
//! wire format, for a message type with a field of every kind.
use super::lab::{self, sane, V};
use super::Prop;
use crate::dfs::Ch;
use crate::proto;
use crate::report::{bad, hash_of, job, Fail, Job, Rec};
use crate::vm::{base_stream, Obs, Vm};
use prost::Message;
use prost_types::field_descriptor_proto::{Label, Type};
use prost_types::{
    DescriptorProto, EnumDescriptorProto, EnumValueDescriptorProto, FieldDescriptorProto, FileDescriptorProto, FileDescriptorSet,
    MessageOptions, MethodDescriptorProto, OneofDescriptorProto, ServiceDescriptorProto,
};
use serde_json::json;
use std::collections::BTreeMap;

// ---------------------------------------------------------------- schema

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Ty {
    Double,
    Float,
    Int64,
    Uint64,
    Int32,
    Fixed64,
    Fixed32,
    Bool,
    Str,
    Bytes,
    Uint32,
    Sfixed32,
    Sfixed64,
    Sint32,
    Sint64,
    Enum,
    /// mc.Sub, the index of a message in `schema()`
    Msg(usize),
}

const SCALARS: &[(&str, Ty, Type)] = &[
    ("double", Ty::Double, Type::Double),
    ("float", Ty::Float, Type::Float),
    ("int64", Ty::Int64, Type::Int64),
    ("uint64", Ty::Uint64, Type::Uint64),
    ("int32", Ty::Int32, Type::Int32),
    ("fixed64", Ty::Fixed64, Type::Fixed64),
    ("fixed32", Ty::Fixed32, Type::Fixed32),
    ("bool", Ty::Bool, Type::Bool),
    ("string", Ty::Str, Type::String),
    ("bytes", Ty::Bytes, Type::Bytes),
    ("uint32", Ty::Uint32, Type::Uint32),
    ("sfixed32", Ty::Sfixed32, Type::Sfixed32),
    ("sfixed64", Ty::Sfixed64, Type::Sfixed64),
    ("sint32", Ty::Sint32, Type::Sint32),
    ("sint64", Ty::Sint64, Type::Sint64),
    ("enum", Ty::Enum, Type::Enum),
];

const ALL: usize = 0;
const SUB: usize = 1;
const TS: usize = 2;
const STRUCT: usize = 3;
const VALUE: usize = 4;
const LIST: usize = 5;
const MSGS: &[&str] = &[".mc.All", ".mc.Sub", ".google.protobuf.Timestamp", ".google.protobuf.Struct", ".google.protobuf.Value", ".google.protobuf.ListValue"];

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Lab {
    One,
    /// tells unset from default
    Opt,
    Rep,
    Map(Ty),
    Oneof,
}

#[derive(Clone, Debug)]
struct Fld {
    name: String,
    num: u32,
    ty: Ty,
    lab: Lab,
}

fn schema() -> Vec<Vec<Fld>> {
    let mut all = vec![];
    let mut num = 1;
    let mut add = |name: String, ty: Ty, lab: Lab| {
        all.push(Fld { name, num, ty, lab });
        num += 1;
        // 16 and up take two bytes of tag; leave out what is reserved
        if num == 40 {
            num = 20000;
        }
    };
    add("tag".into(), Ty::Str, Lab::One);
    let types: Vec<(&str, Ty)> = SCALARS.iter().map(|s| (s.0, s.1)).chain([("sub", Ty::Msg(SUB)), ("ts", Ty::Msg(TS))]).collect();
    for (n, t) in &types {
        add(format!("s_{n}"), *t, Lab::One);
        add(format!("p_{n}"), *t, Lab::Opt);
        add(format!("r_{n}"), *t, Lab::Rep);
        add(format!("m_{n}"), *t, Lab::Map(Ty::Str));
        add(format!("o_{n}"), *t, Lab::Oneof);
        if !matches!(t, Ty::Double | Ty::Float | Ty::Bytes | Ty::Enum | Ty::Msg(_)) {
            add(format!("k_{n}"), Ty::Str, Lab::Map(*t));
        }
    }
    add("all".into(), Ty::Msg(ALL), Lab::One);
    add("st".into(), Ty::Msg(STRUCT), Lab::One);
    add("va".into(), Ty::Msg(VALUE), Lab::One);
    add("li".into(), Ty::Msg(LIST), Lab::One);
    let f = |name: &str, num: u32, ty: Ty, lab: Lab| Fld { name: name.into(), num, ty, lab };
    vec![
        all,
        vec![f("a", 1, Ty::Int32, Lab::One), f("b", 2, Ty::Str, Lab::One), f("c", 3, Ty::Msg(SUB), Lab::One), f("d", 4, Ty::Sint64, Lab::Rep), f("e", 5, Ty::Bool, Lab::Opt)],
        vec![f("seconds", 1, Ty::Int64, Lab::One), f("nanos", 2, Ty::Int32, Lab::One)],
        vec![f("fields", 1, Ty::Msg(VALUE), Lab::Map(Ty::Str))],
        vec![
            f("null_value", 1, Ty::Enum, Lab::Oneof),
            f("number_value", 2, Ty::Double, Lab::Oneof),
            f("string_value", 3, Ty::Str, Lab::Oneof),
            f("bool_value", 4, Ty::Bool, Lab::Oneof),
            f("struct_value", 5, Ty::Msg(STRUCT), Lab::Oneof),
            f("list_value", 6, Ty::Msg(LIST), Lab::Oneof),
        ],
        vec![f("values", 1, Ty::Msg(VALUE), Lab::Rep)],
    ]
}

fn proto_type(t: Ty) -> Type {
    match t {
        Ty::Msg(_) => Type::Message,
        t => SCALARS.iter().find(|s| s.1 == t).map_or(Type::String, |s| s.2),
    }
}

fn camel(s: &str) -> String {
    s.split('_').map(|w| w[..1].to_uppercase() + &w[1..]).collect()
}

fn message(index: usize, flds: &[Fld]) -> DescriptorProto {
    let full = MSGS[index];
    let name = full.rsplit('.').next().unwrap_or("").to_string();
    let mut d = DescriptorProto { name: Some(name.clone()), ..Default::default() };
    let type_name = |t: Ty| match t {
        Ty::Msg(k) => Some(MSGS[k].to_string()),
        Ty::Enum if index == VALUE => Some(".google.protobuf.NullValue".into()),
        Ty::Enum => Some(".mc.Color".into()),
        _ => None,
    };
    let plain = |name: &str, n: u32, t: Ty, l: Label| FieldDescriptorProto {
        name: Some(name.into()),
        number: Some(n as i32),
        label: Some(l as i32),
        r#type: Some(proto_type(t) as i32),
        type_name: type_name(t),
        ..Default::default()
    };
    if flds.iter().any(|f| f.lab == Lab::Oneof) {
        d.oneof_decl.push(OneofDescriptorProto { name: Some("choice".into()), ..Default::default() });
    }
    for f in flds {
        let mut p = plain(&f.name, f.num, f.ty, Label::Optional);
        match f.lab {
            Lab::One => {}
            Lab::Rep => p.label = Some(Label::Repeated as i32),
            Lab::Oneof => p.oneof_index = Some(0),
            Lab::Opt => {
                p.proto3_optional = Some(true);
            }
            Lab::Map(k) => {
                let entry = format!("{}Entry", camel(&f.name));
                p.label = Some(Label::Repeated as i32);
                p.r#type = Some(Type::Message as i32);
                p.type_name = Some(format!("{full}.{entry}"));
                d.nested_type.push(DescriptorProto {
                    name: Some(entry),
                    field: vec![plain("key", 1, k, Label::Optional), plain("value", 2, f.ty, Label::Optional)],
                    options: Some(MessageOptions { map_entry: Some(true), ..Default::default() }),
                    ..Default::default()
                });
            }
        }
        d.field.push(p);
    }
    // the oneofs of optional fields come last
    for (f, p) in flds.iter().zip(d.field.iter_mut()) {
        if f.lab == Lab::Opt {
            p.oneof_index = Some(d.oneof_decl.len() as i32);
            d.oneof_decl.push(OneofDescriptorProto { name: Some(format!("_{}", f.name)), ..Default::default() });
        }
    }
    d
}

fn an_enum(name: &str, values: &[(&str, i32)]) -> EnumDescriptorProto {
    EnumDescriptorProto {
        name: Some(name.into()),
        value: values.iter().map(|(n, v)| EnumValueDescriptorProto { name: Some((*n).into()), number: Some(*v), ..Default::default() }).collect(),
        ..Default::default()
    }
}

fn file_set() -> Vec<u8> {
    let s = schema();
    let file = |name: &str, package: &str, msgs: &[usize], deps: &[&str]| FileDescriptorProto {
        name: Some(name.into()),
        package: Some(package.into()),
        syntax: Some("proto3".into()),
        dependency: deps.iter().map(|d| d.to_string()).collect(),
        message_type: msgs.iter().map(|m| message(*m, &s[*m])).collect(),
        ..Default::default()
    };
    let mut st = file("google/protobuf/struct.proto", "google.protobuf", &[STRUCT, VALUE, LIST], &[]);
    st.enum_type.push(an_enum("NullValue", &[("NULL_VALUE", 0)]));
    let ts = file("google/protobuf/timestamp.proto", "google.protobuf", &[TS], &[]);
    let mut mc = file("mc.proto", "mc", &[ALL, SUB], &["google/protobuf/struct.proto", "google/protobuf/timestamp.proto"]);
    mc.enum_type.push(an_enum("Color", &[("NONE", 0), ("RED", 1), ("DARK", -1), ("FAR", 1000)]));
    mc.service.push(ServiceDescriptorProto {
        name: Some("Svc".into()),
        method: vec![MethodDescriptorProto {
            name: Some("Call".into()),
            input_type: Some(".mc.All".into()),
            output_type: Some(".mc.All".into()),
            ..Default::default()
        }],
        ..Default::default()
    });
    FileDescriptorSet { file: vec![st, ts, mc] }.encode_to_vec()
}

// ---------------------------------------------------------------- values

#[derive(Clone, Debug, PartialEq)]
enum Val {
    I(i64),
    U(u64),
    /// by their bits
    F(f32),
    D(f64),
    B(bool),
    S(String),
    Y(Vec<u8>),
    M(Msg),
    L(Vec<Val>),
    /// sorted by the debug form of the key
    Map(Vec<(Val, Val)>),
}

type Msg = BTreeMap<String, Val>;

fn is_default(v: &Val) -> bool {
    match v {
        Val::I(0) | Val::U(0) | Val::B(false) => true,
        Val::F(f) => f.to_bits() == 0,
        Val::D(f) => f.to_bits() == 0,
        Val::S(s) => s.is_empty(),
        Val::Y(s) => s.is_empty(),
        Val::L(l) => l.is_empty(),
        Val::Map(l) => l.is_empty(),
        _ => false,
    }
}

fn default_of(t: Ty) -> Val {
    match t {
        Ty::Double => Val::D(0.0),
        Ty::Float => Val::F(0.0),
        Ty::Int64 | Ty::Int32 | Ty::Sfixed32 | Ty::Sfixed64 | Ty::Sint32 | Ty::Sint64 | Ty::Enum => Val::I(0),
        Ty::Uint64 | Ty::Fixed64 | Ty::Fixed32 | Ty::Uint32 => Val::U(0),
        Ty::Bool => Val::B(false),
        Ty::Str => Val::S(String::new()),
        Ty::Bytes => Val::Y(vec![]),
        Ty::Msg(_) => Val::M(Msg::new()),
    }
}

// ---------------------------------------------------------------- wire format

thread_local! {
    static MISMATCH: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

enum Raw<'a> {
    Varint(u64),
    I64([u8; 8]),
    I32([u8; 4]),
    Len(&'a [u8]),
}

fn varint(b: &mut &[u8]) -> Option<u64> {
    let mut v: u64 = 0;
    for i in 0..10 {
        let (first, rest) = b.split_first()?;
        *b = rest;
        if i == 9 && *first > 1 {
            return None;
        }
        v |= u64::from(first & 0x7f) << (7 * i);
        if first & 0x80 == 0 {
            return Some(v);
        }
    }
    None
}

fn take<'a>(b: &mut &'a [u8], n: usize) -> Option<&'a [u8]> {
    if n > b.len() {
        return None;
    }
    let (a, rest) = b.split_at(n);
    *b = rest;
    Some(a)
}

fn wire_of(t: Ty) -> u32 {
    match t {
        Ty::Double | Ty::Fixed64 | Ty::Sfixed64 => 1,
        Ty::Float | Ty::Fixed32 | Ty::Sfixed32 => 5,
        Ty::Str | Ty::Bytes | Ty::Msg(_) => 2,
        _ => 0,
    }
}

fn scalar(t: Ty, raw: &Raw, sch: &[Vec<Fld>]) -> Option<Val> {
    Some(match (t, raw) {
        (Ty::Double, Raw::I64(b)) => Val::D(f64::from_le_bytes(*b)),
        (Ty::Float, Raw::I32(b)) => Val::F(f32::from_le_bytes(*b)),
        (Ty::Int64, Raw::Varint(v)) => Val::I(*v as i64),
        (Ty::Uint64, Raw::Varint(v)) => Val::U(*v),
        (Ty::Int32 | Ty::Enum, Raw::Varint(v)) => Val::I(i64::from(*v as i32)),
        (Ty::Fixed64, Raw::I64(b)) => Val::U(u64::from_le_bytes(*b)),
        (Ty::Fixed32, Raw::I32(b)) => Val::U(u64::from(u32::from_le_bytes(*b))),
        (Ty::Bool, Raw::Varint(v)) => Val::B(*v != 0),
        (Ty::Str, Raw::Len(b)) => Val::S(String::from_utf8(b.to_vec()).ok()?),
        (Ty::Bytes, Raw::Len(b)) => Val::Y(b.to_vec()),
        (Ty::Uint32, Raw::Varint(v)) => Val::U(u64::from(*v as u32)),
        (Ty::Sfixed32, Raw::I32(b)) => Val::I(i64::from(i32::from_le_bytes(*b))),
        (Ty::Sfixed64, Raw::I64(b)) => Val::I(i64::from_le_bytes(*b)),
        (Ty::Sint32, Raw::Varint(v)) => {
            let n = *v as u32;
            Val::I(i64::from((n >> 1) as i32 ^ -((n & 1) as i32)))
        }
        (Ty::Sint64, Raw::Varint(v)) => Val::I((*v >> 1) as i64 ^ -((*v & 1) as i64)),
        (Ty::Msg(k), Raw::Len(b)) => Val::M(parse(b, k, sch)?),
        _ => return None,
    })
}

fn merge(into: &mut Msg, from: Msg, k: usize, sch: &[Vec<Fld>]) {
    for (name, v) in from {
        let Some(f) = sch[k].iter().find(|f| f.name == name) else { continue };
        put(into, f, v, k, sch);
    }
}

fn put(m: &mut Msg, f: &Fld, v: Val, k: usize, sch: &[Vec<Fld>]) {
    match (f.lab, v) {
        (Lab::Rep, Val::L(l)) => match m.entry(f.name.clone()).or_insert_with(|| Val::L(vec![])) {
            Val::L(x) => x.extend(l),
            _ => unreachable!(),
        },
        (Lab::Map(_), Val::Map(l)) => match m.entry(f.name.clone()).or_insert_with(|| Val::Map(vec![])) {
            Val::Map(x) => {
                for (key, v) in l {
                    x.retain(|(k, _)| *k != key);
                    x.push((key, v));
                }
                x.sort_by_key(|(k, _)| format!("{k:?}"));
            }
            _ => unreachable!(),
        },
        (lab, v) => {
            if lab == Lab::Oneof {
                for g in &sch[k] {
                    if g.lab == Lab::Oneof && g.name != f.name {
                        m.remove(&g.name);
                    }
                }
            }
            match (f.ty, v, m.get_mut(&f.name)) {
                (Ty::Msg(sub), Val::M(new), Some(Val::M(old))) => merge(old, new, sub, sch),
                (_, v, _) => {
                    m.insert(f.name.clone(), v);
                }
            }
        }
    }
}

/// The message these bytes encode; None when they encode none. Fields at their
/// default that cannot be told from unset ones are left out.
fn parse(mut b: &[u8], k: usize, sch: &[Vec<Fld>]) -> Option<Msg> {
    let mut m = Msg::new();
    while !b.is_empty() {
        let tag = varint(&mut b)?;
        if tag > u64::from(u32::MAX) || tag >> 3 == 0 {
            return None;
        }
        let fld = sch[k].iter().find(|f| u64::from(f.num) == tag >> 3);
        // a field with another wire type: skipped by some readers, refused by others
        if let Some(f) = fld {
            let has = tag as u32 & 7;
            if has != if matches!(f.lab, Lab::Map(_)) { 2 } else { wire_of(f.ty) } && !(f.lab == Lab::Rep && has == 2) {
                MISMATCH.with(|m| m.set(true));
            }
        }
        let raw = match tag & 7 {
            0 => Raw::Varint(varint(&mut b)?),
            1 => Raw::I64(take(&mut b, 8)?.try_into().ok()?),
            5 => Raw::I32(take(&mut b, 4)?.try_into().ok()?),
            2 => {
                let n = varint(&mut b)?;
                Raw::Len(take(&mut b, usize::try_from(n).ok()?)?)
            }
            t => {
                // the deprecated groups are left open
                if t < 5 {
                    MISMATCH.with(|m| m.set(true));
                }
                return None;
            }
        };
        let Some(f) = fld else { continue };
        let v = match f.lab {
            Lab::Rep => match &raw {
                Raw::Len(body) if wire_of(f.ty) != 2 => {
                    let mut body = *body;
                    let mut l = vec![];
                    while !body.is_empty() {
                        let r = match wire_of(f.ty) {
                            0 => Raw::Varint(varint(&mut body)?),
                            1 => Raw::I64(take(&mut body, 8)?.try_into().ok()?),
                            _ => Raw::I32(take(&mut body, 4)?.try_into().ok()?),
                        };
                        l.push(scalar(f.ty, &r, sch)?);
                    }
                    Val::L(l)
                }
                r => Val::L(vec![scalar(f.ty, r, sch)?]),
            },
            Lab::Map(kt) => {
                let Raw::Len(body) = raw else { return None };
                let entry = vec![
                    Fld { name: "key".into(), num: 1, ty: kt, lab: Lab::Opt },
                    Fld { name: "value".into(), num: 2, ty: f.ty, lab: Lab::Opt },
                ];
                let mut s = sch.to_vec();
                s.push(entry);
                let e = parse(body, s.len() - 1, &s)?;
                let get = |n: &str, t: Ty| e.get(n).cloned().unwrap_or_else(|| default_of(t));
                Val::Map(vec![(get("key", kt), get("value", f.ty))])
            }
            _ => scalar(f.ty, &raw, sch)?,
        };
        put(&mut m, f, v, k, sch);
    }
    m.retain(|n, v| {
        let lab = sch[k].iter().find(|f| f.name == *n).map(|f| f.lab);
        matches!(lab, Some(Lab::Opt | Lab::Oneof)) || !is_default(v)
    });
    Some(m)
}

fn put_varint(out: &mut Vec<u8>, mut v: u64) {
    loop {
        let b = (v & 0x7f) as u8;
        v >>= 7;
        if v == 0 {
            return out.push(b);
        }
        out.push(b | 0x80);
    }
}

fn put_raw(out: &mut Vec<u8>, t: Ty, v: &Val, sch: &[Vec<Fld>]) {
    match (t, v) {
        (Ty::Double, Val::D(f)) => out.extend(f.to_le_bytes()),
        (Ty::Float, Val::F(f)) => out.extend(f.to_le_bytes()),
        (Ty::Int64 | Ty::Int32 | Ty::Enum, Val::I(i)) => put_varint(out, *i as u64),
        (Ty::Uint64 | Ty::Uint32, Val::U(u)) => put_varint(out, *u),
        (Ty::Fixed64, Val::U(u)) => out.extend(u.to_le_bytes()),
        (Ty::Fixed32, Val::U(u)) => out.extend((*u as u32).to_le_bytes()),
        (Ty::Bool, Val::B(b)) => out.push(u8::from(*b)),
        (Ty::Sfixed32, Val::I(i)) => out.extend((*i as i32).to_le_bytes()),
        (Ty::Sfixed64, Val::I(i)) => out.extend(i.to_le_bytes()),
        (Ty::Sint32 | Ty::Sint64, Val::I(i)) => put_varint(out, ((*i << 1) ^ (*i >> 63)) as u64),
        (Ty::Str, Val::S(s)) => {
            put_varint(out, s.len() as u64);
            out.extend(s.as_bytes());
        }
        (Ty::Bytes, Val::Y(s)) => {
            put_varint(out, s.len() as u64);
            out.extend(s);
        }
        (Ty::Msg(k), Val::M(m)) => {
            let b = encode(m, k, sch, Style::default());
            put_varint(out, b.len() as u64);
            out.extend(b);
        }
        other => panic!("no such field: {other:?}"),
    }
}

/// The freedom an encoder has.
#[derive(Clone, Copy, Debug, Default)]
struct Style {
    unpacked: bool,
    /// fields in descending order
    reversed: bool,
    /// fields the schema does not know before each
    unknown: bool,
    /// singular fields twice, first with their default
    twice: bool,
}

fn put_field(out: &mut Vec<u8>, num: u32, t: Ty, v: &Val, sch: &[Vec<Fld>]) {
    put_varint(out, u64::from(num << 3 | wire_of(t)));
    put_raw(out, t, v, sch);
}

fn encode(m: &Msg, k: usize, sch: &[Vec<Fld>], style: Style) -> Vec<u8> {
    let mut out = vec![];
    let mut flds: Vec<&Fld> = sch[k].iter().collect();
    if style.reversed {
        flds.reverse();
    }
    for f in flds {
        let Some(v) = m.get(&f.name) else { continue };
        if style.unknown {
            out.extend([0xf8, 0x07, 0x05, 0xfa, 0x07, 0x02, 0x08, 0x01, 0xfd, 0x07, 1, 2, 3, 4]);
        }
        match (f.lab, v) {
            (Lab::Rep, Val::L(l)) if wire_of(f.ty) != 2 && !style.unpacked => {
                let mut body = vec![];
                for x in l {
                    put_raw(&mut body, f.ty, x, sch);
                }
                put_varint(&mut out, u64::from(f.num << 3 | 2));
                put_varint(&mut out, body.len() as u64);
                out.extend(body);
            }
            (Lab::Rep, Val::L(l)) => {
                for x in l {
                    put_field(&mut out, f.num, f.ty, x, sch);
                }
            }
            (Lab::Map(kt), Val::Map(l)) => {
                for (key, v) in l {
                    let mut body = vec![];
                    // defaults may be left out, and the value may come first
                    if style.reversed {
                        put_field(&mut body, 2, f.ty, v, sch);
                    }
                    if !(style.twice && is_default(key)) {
                        put_field(&mut body, 1, kt, key, sch);
                    }
                    if !style.reversed && !(style.twice && is_default(v)) {
                        put_field(&mut body, 2, f.ty, v, sch);
                    }
                    put_varint(&mut out, u64::from(f.num << 3 | 2));
                    put_varint(&mut out, body.len() as u64);
                    out.extend(body);
                }
            }
            (_, v) => {
                if style.twice {
                    put_field(&mut out, f.num, f.ty, &default_of(f.ty), sch);
                }
                put_field(&mut out, f.num, f.ty, v, sch);
            }
        }
    }
    out
}

// ---------------------------------------------------------------- expressions

/// What becomes of a value in a field.
#[derive(Clone, Debug)]
enum Want {
    Sent(Val),
    Refused,
}

/// Literals for a field of this type; the first ones are its own.
fn literals(t: Ty) -> Vec<(String, Want)> {
    let sent = |s: &str, v: Val| (s.to_string(), Want::Sent(v));
    let no = |s: &str| (s.to_string(), Want::Refused);
    let mut v: Vec<(String, Want)> = vec![];
    let ints: &[i64] = &[0, 1, -1, 127, 128, -128, 300, i32::MAX as i64, i32::MIN as i64, i32::MAX as i64 + 1, i32::MIN as i64 - 1, 1 << 32, (1 << 32) + 1, -(1 << 32), i64::MAX, i64::MIN + 1];
    let uints: &[u64] = &[0, 1, 127, 128, i32::MAX as u64 + 1, u32::MAX as u64, u32::MAX as u64 + 1, u32::MAX as u64 + 2, i64::MAX as u64 + 1, u64::MAX];
    match t {
        Ty::Int64 | Ty::Sint64 | Ty::Sfixed64 => v.extend(ints.iter().map(|i| sent(&i.to_string(), Val::I(*i)))),
        Ty::Int32 | Ty::Sint32 | Ty::Sfixed32 => v.extend(ints.iter().map(|i| {
            if i32::try_from(*i).is_ok() {
                sent(&i.to_string(), Val::I(*i))
            } else {
                no(&i.to_string())
            }
        })),
        Ty::Uint64 | Ty::Fixed64 => v.extend(uints.iter().map(|i| sent(&format!("{i}u"), Val::U(*i)))),
        Ty::Uint32 | Ty::Fixed32 => v.extend(uints.iter().map(|i| {
            if u32::try_from(*i).is_ok() {
                sent(&format!("{i}u"), Val::U(*i))
            } else {
                no(&format!("{i}u"))
            }
        })),
        Ty::Double => {
            for f in [0.0, 1.5, -2.25, 0.1, 1e300, 5e-324, 9007199254740993.0] {
                v.push(sent(&format!("{f:?}"), Val::D(f)));
            }
        }
        Ty::Float => {
            for f in [0.0, 1.5, -2.25, 0.1, 3.4028234663852886e38, 1e-40] {
                v.push(sent(&format!("{f:?}"), Val::F(f as f32)));
            }
            v.extend([no("3.5e38"), no("-1e300")]);
        }
        Ty::Bool => v.extend([sent("true", Val::B(true)), sent("false", Val::B(false))]),
        Ty::Str => {
            for s in ["a", "", "é😀", "a\nb'\\", "\u{0}"] {
                v.push((lab::lit(s), Want::Sent(Val::S(s.into()))));
            }
            v.push((format!("'{}'", "x".repeat(300)), Want::Sent(Val::S("x".repeat(300)))));
        }
        Ty::Bytes => v.extend([
            sent("b'ab'", Val::Y(b"ab".to_vec())),
            sent("b''", Val::Y(vec![])),
            sent("b'\\xff\\x00\\xc3'", Val::Y(vec![0xff, 0, 0xc3])),
            sent("bytes('é')", Val::Y("é".as_bytes().to_vec())),
        ]),
        Ty::Enum => v.extend([sent("1", Val::I(1)), sent("0", Val::I(0)), sent("-1", Val::I(-1)), sent("1000", Val::I(1000)), no("2147483648"), no("4294967297"), no("-4294967295"), no("8589934592")]),
        Ty::Msg(SUB) => {
            let m = |v: &[(&str, Val)]| Val::M(v.iter().map(|(n, v)| (n.to_string(), v.clone())).collect());
            v.extend([
                sent("mc.Sub { a: 5 }", m(&[("a", Val::I(5))])),
                sent("mc.Sub { }", m(&[])),
                sent("mc.Sub { a: 0, b: '' }", m(&[])),
                sent("mc.Sub { e: false }", m(&[("e", Val::B(false))])),
                sent("mc.Sub { b: 'x', c: mc.Sub { a: -1, c: mc.Sub { d: [1, -2] } } }", m(&[("b", Val::S("x".into())), ("c", m(&[("a", Val::I(-1)), ("c", m(&[("d", Val::L(vec![Val::I(1), Val::I(-2)]))]))]))])),
                no("mc.Sub { a: 2147483648 }"),
                no("mc.Sub { c: mc.Sub { a: 'x' } }"),
                no("mc.Sub { b: 1 }"),
            ]);
        }
        Ty::Msg(TS) => {
            let ts = |s: i64, n: i64| {
                let mut m = Msg::new();
                m.insert("seconds".into(), Val::I(s));
                m.insert("nanos".into(), Val::I(n));
                m.retain(|_, v| !is_default(v));
                Val::M(m)
            };
            v.extend([
                sent("timestamp('2024-02-29T12:34:56Z')", ts(1709210096, 0)),
                sent("timestamp('1970-01-01T00:00:00Z')", ts(0, 0)),
                sent("timestamp('2024-02-29T12:34:56.000000001+01:30')", ts(1709210096 - 5400, 1)),
                sent("timestamp('1969-12-31T23:59:59.5Z')", ts(-1, 500_000_000)),
                sent("timestamp('9999-12-31T23:59:59.999999999Z')", ts(253402300799, 999_999_999)),
                sent("timestamp('0001-01-01T00:00:00Z')", ts(-62135596800, 0)),
            ]);
        }
        _ => {}
    }
    v
}

/// One literal of each type, none of which another type takes.
const KINDS: &[(&str, &[Ty])] = &[
    ("7", &[Ty::Int64, Ty::Int32, Ty::Sint32, Ty::Sint64, Ty::Sfixed32, Ty::Sfixed64, Ty::Enum]),
    ("7u", &[Ty::Uint32, Ty::Uint64, Ty::Fixed32, Ty::Fixed64]),
    ("7.0", &[Ty::Double, Ty::Float]),
    ("'7'", &[Ty::Str]),
    ("b'7'", &[Ty::Bytes]),
    ("true", &[Ty::Bool]),
    ("[7]", &[]),
    ("{'7': 7}", &[Ty::Msg(STRUCT), Ty::Msg(VALUE)]),
    ("mc.Sub { a: 7 }", &[Ty::Msg(SUB)]),
    ("timestamp('2024-02-29T12:34:56Z')", &[Ty::Msg(TS)]),
];

/// Values for a field, as an expression and what must become of it.
fn values(f: &Fld, thorough: bool) -> Vec<(String, Want)> {
    let mut out = vec![];
    let own = |t: Ty| -> Vec<(String, Want)> {
        let mut v = literals(t);
        v.extend(KINDS.iter().filter(|k| !k.1.contains(&t)).map(|k| (k.0.to_string(), Want::Refused)));
        v
    };
    match f.lab {
        Lab::One | Lab::Opt | Lab::Oneof => out.extend(own(f.ty)),
        Lab::Rep => {
            out.push(("[]".into(), Want::Sent(Val::L(vec![]))));
            let l = own(f.ty);
            for (i, (a, x)) in l.iter().enumerate() {
                out.push((format!("[{a}]"), match x {
                    Want::Sent(v) => Want::Sent(Val::L(vec![v.clone()])),
                    Want::Refused => Want::Refused,
                }));
                for (k, (b, y)) in l.iter().enumerate() {
                    if !thorough && k != 0 && (i + k) % 5 != 0 {
                        continue;
                    }
                    out.push((format!("[{a}, {b}]"), match (x, y) {
                        (Want::Sent(v), Want::Sent(w)) => Want::Sent(Val::L(vec![v.clone(), w.clone()])),
                        _ => Want::Refused,
                    }));
                }
            }
            for k in KINDS.iter().filter(|k| k.0 != "[7]") {
                out.push((k.0.into(), Want::Refused));
            }
        }
        Lab::Map(kt) => {
            out.push(("{}".into(), Want::Sent(Val::Map(vec![]))));
            let key_like = |s: &str| !s.contains("mc.") && !s.contains("timestamp") && !s.starts_with(['[', '{', 'b']) && !s.contains('.');
            let (keys, vals) = if kt == Ty::Str {
                (own(kt).into_iter().filter(|(s, w)| key_like(s) && (matches!(w, Want::Refused) || s.len() < 5)).collect::<Vec<_>>(), own(f.ty))
            } else {
                (own(kt).into_iter().filter(|(s, _)| key_like(s)).collect(), own(f.ty))
            };
            for (i, (a, x)) in keys.iter().enumerate() {
                for (k, (b, y)) in vals.iter().enumerate() {
                    if i > 0 && k > 0 && !thorough && (i + k) % 7 != 0 {
                        continue;
                    }
                    out.push((format!("{{{a}: {b}}}"), match (x, y) {
                        (Want::Sent(v), Want::Sent(w)) => Want::Sent(Val::Map(vec![(v.clone(), w.clone())])),
                        _ => Want::Refused,
                    }));
                }
            }
            // two entries
            let good = |l: &[(String, Want)]| -> Vec<(String, Val)> {
                l.iter()
                    .filter_map(|(s, w)| match w {
                        Want::Sent(v) => Some((s.clone(), v.clone())),
                        Want::Refused => None,
                    })
                    .collect()
            };
            let (gk, gv) = (good(&keys), good(&vals));
            if gk.len() > 1 && !gv.is_empty() {
                let (v1, v2) = (&gv[0], &gv[gv.len() - 1]);
                let mut entries = vec![(gk[0].1.clone(), v1.1.clone()), (gk[1].1.clone(), v2.1.clone())];
                entries.sort_by_key(|(k, _)| format!("{k:?}"));
                out.push((format!("{{{}: {}, {}: {}}}", gk[0].0, v1.0, gk[1].0, v2.0), Want::Sent(Val::Map(entries))));
            }
            for k in KINDS.iter().filter(|k| !k.0.starts_with('{')) {
                out.push((k.0.into(), Want::Refused));
            }
        }
    }
    out
}

// ---------------------------------------------------------------- harness

fn boot(cfg: &str) -> Result<Vm, String> {
    proxy_wasm::host::reset();
    let mut vm = Vm::new();
    configure(&mut vm, cfg)?;
    Ok(vm)
}

fn configure(vm: &mut Vm, cfg: &str) -> Result<(), String> {
    let (ok, o) = vm.configure(cfg);
    if let Some(p) = o.panicked {
        return Err(format!("panic while configuring: {p}"));
    }
    if !ok {
        return Err(format!("a valid configuration was refused: {cfg}"));
    }
    let calls = if o.calls.is_empty() { vm.tick().calls } else { o.calls.clone() };
    for c in calls {
        let Ok(req) = proto::DescriptorRequest::decode(c.message.as_slice()) else { return Err("not a descriptor request".into()) };
        let descriptors = req
            .services
            .iter()
            .map(|s| proto::ServiceDescriptor { cluster_name: s.cluster_name.clone(), service: s.service.clone(), file_descriptor_set: file_set() })
            .collect();
        let o = vm.root_reply(c.token, 0, Some(&proto::DescriptorResponse { descriptors }.encode_to_vec()));
        if let Some(p) = o.panicked {
            return Err(format!("panic on descriptor response: {p}"));
        }
    }
    Ok(())
}

fn call(i: usize, fields: &str, on_reply: serde_json::Value) -> serde_json::Value {
    let sep = if fields.is_empty() { "" } else { ", " };
    json!({"type": "grpc", "predicate": "true", "terminal": false, "isGuard": false, "service": "allow-svc", "var": "v",
           "label": "", "sources": [], "onReply": on_reply, "messageBuilder": format!("mc.All {{ tag: 't{i}'{sep}{fields} }}")})
}

fn judge(got: Option<&Vec<u8>>, want: Option<&Msg>, sch: &[Vec<Fld>]) -> Result<(), String> {
    match (got, want) {
        (None, None) => Ok(()),
        (None, Some(w)) => Err(format!("is not sent, must be {w:?}")),
        (Some(b), None) => Err(format!("is sent as {:?}, must be refused", parse(b, ALL, sch))),
        (Some(b), Some(w)) => {
            let is = parse(b, ALL, sch);
            if is.as_ref() == Some(w) {
                Ok(())
            } else {
                Err(format!("is sent as {is:?}, must be {w:?}"))
            }
        }
    }
}

/// Calls with these fields, one after the other; what is sent by each.
fn send(rec: &mut Rec, cases: &[(String, Option<Msg>)]) {
    let sch = schema();
    let mut sess: Option<Vm> = None;
    let mut next = 10;
    for part in cases.chunks(60) {
        let acts: Vec<_> = part.iter().enumerate().map(|(i, c)| call(i, &c.0, json!([]))).collect();
        let cfg = lab::config_with(json!(acts));
        let r = match sess.as_mut() {
            None => boot(&cfg).map(|v| sess = Some(v)),
            Some(vm) => configure(vm, &cfg),
        };
        if let Err(e) = r {
            // which one is it?
            for c in part {
                let one = lab::config_with(json!([call(0, &c.0, json!([]))]));
                if boot(&one).is_err() {
                    return rec.violation(format!("mc.All {{ {} }} is refused as a configuration", c.0), vec![], vec![]);
                }
            }
            return rec.violation(e, vec![], vec![]);
        }
        let Some(vm) = sess.as_mut() else { return };
        next += 1;
        let id = next;
        rec.explore(|_: &mut Ch, st| {
            vm.open(id, base_stream("api.example.com", "/"));
            let r = sane(vm.request_headers(id, true));
            let o: Obs = r?;
            let mut sent: BTreeMap<String, Vec<u8>> = BTreeMap::new();
            for c in &o.calls {
                let Some(Val::S(tag)) = parse(&c.message, ALL, &sch).and_then(|m| m.get("tag").cloned()) else {
                    return bad(format!("a message without its tag: {:?}", c.message));
                };
                if sent.insert(tag.clone(), c.message.clone()).is_some() {
                    return bad(format!("{tag} is called twice"));
                }
            }
            for (i, (expr, want)) in part.iter().enumerate() {
                let tag = format!("t{i}");
                let mut w = want.clone();
                if let Some(m) = w.as_mut() {
                    m.insert("tag".into(), Val::S(tag.clone()));
                }
                st.transition();
                st.state(hash_of(&(expr, format!("{:?}", sent.get(&tag)))));
                if let Err(e) = judge(sent.get(&tag), w.as_ref(), &sch) {
                    return bad(format!("{{{expr}}} {e}"));
                }
            }
            let failed = part.iter().filter(|c| c.1.is_none()).count() as i64;
            let errors: i64 = o.metrics.iter().filter(|(n, _)| n.ends_with("errors")).map(|(_, v)| *v).sum();
            if errors != failed {
                return bad(format!("{errors} errors are counted for {failed} failed calls"));
            }
            vm.forget(id);
            Ok(())
        });
    }
}

fn of(fields: &[(&Fld, &Val)]) -> Msg {
    fields
        .iter()
        .filter(|(f, v)| matches!(f.lab, Lab::Opt | Lab::Oneof) || !is_default(v))
        .map(|(f, v)| (f.name.clone(), (*v).clone()))
        .collect()
}

fn sending(f: Fld, thorough: bool) -> Job {
    job(format!("sent: {}", f.name), move |rec: &mut Rec| {
        let cases: Vec<(String, Option<Msg>)> = values(&f, thorough)
            .into_iter()
            .map(|(x, w)| {
                let m = match &w {
                    Want::Sent(v) => Some(of(&[(&f, v)])),
                    Want::Refused => None,
                };
                (format!("{}: {x}", f.name), m)
            })
            .collect();
        rec.sample(json!({"field": f.name, "values": cases.len()}));
        send(rec, &cases);
    })
}

/// Enum numbers without a name are refused or sent as they are, never as another.
fn unnamed() -> Job {
    job("sent: enum numbers without a name", |rec: &mut Rec| {
        let sch = schema();
        let enums: Vec<Fld> = schema().swap_remove(ALL).into_iter().filter(|f| f.ty == Ty::Enum).collect();
        let mut cases: Vec<(String, Msg)> = vec![];
        for f in &enums {
            for n in [2i64, 7, 999, 1001, -2, i64::from(i32::MAX), i64::from(i32::MIN)] {
                let x = Val::I(n);
                let (text, v) = match f.lab {
                    Lab::Rep => (format!("[1, {n}]"), Val::L(vec![Val::I(1), x])),
                    Lab::Map(Ty::Str) => (format!("{{'k': {n}}}"), Val::Map(vec![(Val::S("k".into()), x)])),
                    Lab::Map(_) => continue,
                    _ => (n.to_string(), x),
                };
                cases.push((format!("{}: {text}", f.name), of(&[(f, &v)])));
            }
        }
        rec.sample(json!({"fields": enums.len(), "cases": cases.len()}));
        for (expr, msg) in &cases {
            let mut vm = match boot(&lab::config_with(json!([call(0, expr, json!([]))]))) {
                Ok(v) => v,
                Err(e) => return rec.violation(e, vec![], vec![]),
            };
            let mut want = msg.clone();
            want.insert("tag".into(), Val::S("t0".into()));
            rec.explore(|_: &mut Ch, st| {
                vm.open(5, base_stream("api.example.com", "/"));
                let r = sane(vm.request_headers(5, true));
                vm.forget(5);
                let o: Obs = r?;
                st.transition();
                st.state(hash_of(&(expr, o.calls.len())));
                match o.calls.first() {
                    None => Ok(()),
                    Some(c) => judge(Some(&c.message), Some(&want), &sch).map_err(|e| (format!("{{{expr}}} {e}"), vec![])),
                }
            });
        }
    })
}

/// A value of the field that is not its default.
fn one_value(f: &Fld) -> Option<(String, Val)> {
    values(f, false).into_iter().find_map(|(s, w)| match w {
        Want::Sent(v) if !is_default(&v) => Some((s, v)),
        _ => None,
    })
}

fn pairs(part: usize, parts: usize) -> Job {
    job(format!("sent: pairs of fields {part}/{parts}"), move |rec: &mut Rec| {
        let all = &schema()[ALL];
        let with: Vec<(&Fld, String, Val)> = all.iter().skip(1).filter_map(|f| one_value(f).map(|(s, v)| (f, s, v))).collect();
        let mut cases = vec![];
        for (i, a) in with.iter().enumerate() {
            for (k, b) in with.iter().enumerate() {
                if k <= i || (i * 31 + k) % parts != part || a.0.lab == Lab::Oneof && b.0.lab == Lab::Oneof {
                    continue;
                }
                cases.push((format!("{}: {}, {}: {}", b.0.name, b.1, a.0.name, a.1), Some(of(&[(a.0, &a.2), (b.0, &b.2)]))));
            }
        }
        // within a message of the same type
        for (k, a) in with.iter().enumerate() {
            if k % parts == part {
                let inner = Val::M(of(&[(a.0, &a.2)]));
                let Some(f) = all.iter().find(|f| f.name == "all") else { continue };
                cases.push((format!("all: mc.All {{ {}: {} }}", a.0.name, a.1), Some(of(&[(f, &inner)]))));
            }
        }
        rec.sample(json!({"pairs": cases.len()}));
        send(rec, &cases);
    })
}

/// Everything at once, and nothing.
fn whole() -> Job {
    job("sent: all fields at once".to_string(), move |rec: &mut Rec| {
        let all = &schema()[ALL];
        let mut cases = vec![(String::new(), Some(Msg::new()))];
        for choice in all.iter().filter(|f| f.lab == Lab::Oneof) {
            let with: Vec<(&Fld, String, Val)> = all
                .iter()
                .skip(1)
                .filter(|f| f.lab != Lab::Oneof || f.name == choice.name)
                .filter_map(|f| one_value(f).map(|(s, v)| (f, s, v)))
                .collect();
            let text: Vec<String> = with.iter().map(|w| format!("{}: {}", w.0.name, w.1)).collect();
            cases.push((text.join(", "), Some(of(&with.iter().map(|w| (w.0, &w.2)).collect::<Vec<_>>()))));
        }
        rec.sample(json!({"messages": cases.len()}));
        send(rec, &cases);
    })
}

// ---------------------------------------------------------------- replies

/// The good values of a type.
fn constants(t: Ty) -> Vec<(String, Val)> {
    literals(t)
        .into_iter()
        .filter_map(|(s, w)| match w {
            Want::Sent(v) => Some((s, v)),
            Want::Refused => None,
        })
        .collect()
}

/// An expression that tells the value `x` in what can be exported exactly.
fn show(t: Ty, x: &str) -> String {
    match t {
        Ty::Double | Ty::Float | Ty::Bool | Ty::Str => x.into(),
        Ty::Bytes | Ty::Msg(TS) => {
            let c: Vec<String> = constants(t).iter().map(|c| format!("{x} == {}", c.0)).collect();
            format!("[{}]", c.join(", "))
        }
        Ty::Msg(SUB) => format!(
            "[string({x}.a), {x}.b, {x}.d.map(i, string(i)), has({x}.c) ? string({x}.c.a) : 'none', has({x}.e) ? ({x}.e ? 'yes' : 'no') : 'none']"
        ),
        Ty::Msg(ALL) => format!("[string({x}.s_int64), {x}.s_string, has({x}.all), size({x}.r_sub)]"),
        Ty::Msg(_) => x.into(),
        _ => format!("string({x})"),
    }
}

/// What `show` yields for this value.
fn shown(t: Ty, v: &Val) -> V {
    let none = || V::Str("none".into());
    let get = |m: &Msg, n: &str, t: Ty| m.get(n).cloned().unwrap_or_else(|| default_of(t));
    match (t, v) {
        (Ty::Double, Val::D(f)) => V::Num(*f),
        (Ty::Float, Val::F(f)) => V::Num(f64::from(*f)),
        (Ty::Bool, Val::B(b)) => V::Bool(*b),
        (Ty::Str, Val::S(s)) => V::Str(s.clone()),
        (Ty::Bytes | Ty::Msg(TS), v) => V::List(constants(t).iter().map(|c| V::Bool(c.1 == *v)).collect()),
        (Ty::Msg(SUB), Val::M(m)) => V::List(vec![
            shown(Ty::Int32, &get(m, "a", Ty::Int32)),
            shown(Ty::Str, &get(m, "b", Ty::Str)),
            match m.get("d") {
                Some(Val::L(l)) => V::List(l.iter().map(|i| shown(Ty::Sint64, i)).collect()),
                _ => V::List(vec![]),
            },
            match m.get("c") {
                Some(Val::M(c)) => shown(Ty::Int32, &get(c, "a", Ty::Int32)),
                _ => none(),
            },
            match m.get("e") {
                Some(Val::B(true)) => V::Str("yes".into()),
                Some(Val::B(false)) => V::Str("no".into()),
                _ => none(),
            },
        ]),
        (Ty::Msg(ALL), Val::M(m)) => V::List(vec![
            shown(Ty::Int64, &get(m, "s_int64", Ty::Int64)),
            shown(Ty::Str, &get(m, "s_string", Ty::Str)),
            V::Bool(m.contains_key("all")),
            V::Num(match m.get("r_sub") {
                Some(Val::L(l)) => l.len() as f64,
                _ => 0.0,
            }),
        ]),
        (Ty::Msg(VALUE), Val::M(m)) => match m.iter().next() {
            None => V::Null,
            Some((n, v)) => match (n.as_str(), v) {
                ("number_value", v) => shown(Ty::Double, v),
                ("string_value", v) => shown(Ty::Str, v),
                ("bool_value", v) => shown(Ty::Bool, v),
                ("struct_value", v) => shown(Ty::Msg(STRUCT), v),
                ("list_value", v) => shown(Ty::Msg(LIST), v),
                _ => V::Null,
            },
        },
        (Ty::Msg(STRUCT), Val::M(m)) => match m.get("fields") {
            Some(Val::Map(l)) => V::Map(
                l.iter()
                    .map(|(k, v)| match k {
                        Val::S(k) => (k.clone(), shown(Ty::Msg(VALUE), v)),
                        k => (format!("{k:?}"), V::Null),
                    })
                    .collect(),
            ),
            _ => V::Map(BTreeMap::new()),
        },
        (Ty::Msg(LIST), Val::M(m)) => match m.get("values") {
            Some(Val::L(l)) => V::List(l.iter().map(|v| shown(Ty::Msg(VALUE), v)).collect()),
            _ => V::List(vec![]),
        },
        (_, Val::I(i)) => V::Str(i.to_string()),
        (_, Val::U(u)) => V::Str(u.to_string()),
        other => panic!("no value of the type: {other:?}"),
    }
}

fn show_field(f: &Fld) -> String {
    let x = format!("v.{}", f.name);
    match f.lab {
        Lab::Rep => format!("{x}.map(y, {})", show(f.ty, "y")),
        Lab::Map(kt) => format!("{x}.map(k, [{}, {}])", show(kt, "k"), show(f.ty, &format!("{x}[k]"))),
        _ => show(f.ty, &x),
    }
}

fn sorted(v: V) -> V {
    match v {
        V::List(mut l) => {
            l.sort_by_key(|x| format!("{x:?}"));
            V::List(l)
        }
        v => v,
    }
}

/// What the field reads as; None where it is not there.
fn expected(f: &Fld, m: &Msg) -> Option<V> {
    let v = m.get(&f.name);
    match f.lab {
        Lab::Rep => Some(V::List(match v {
            Some(Val::L(l)) => l.iter().map(|x| shown(f.ty, x)).collect(),
            _ => vec![],
        })),
        Lab::Map(kt) => Some(sorted(V::List(match v {
            Some(Val::Map(l)) => l.iter().map(|(k, x)| V::List(vec![shown(kt, k), shown(f.ty, x)])).collect(),
            _ => vec![],
        }))),
        Lab::One if !matches!(f.ty, Ty::Msg(_)) => Some(shown(f.ty, v.unwrap_or(&default_of(f.ty)))),
        _ => v.map(|x| shown(f.ty, x)),
    }
}

fn has_presence(f: &Fld) -> bool {
    matches!(f.lab, Lab::Opt | Lab::Oneof) || f.lab == Lab::One && matches!(f.ty, Ty::Msg(_))
}

fn msg(v: &[(&str, Val)]) -> Val {
    Val::M(v.iter().map(|(n, v)| (n.to_string(), v.clone())).collect())
}

/// Values of google.protobuf.Value.
fn json_values(depth: usize) -> Vec<Val> {
    let mut v = vec![
        msg(&[]),
        msg(&[("null_value", Val::I(0))]),
        msg(&[("number_value", Val::D(1.5))]),
        msg(&[("number_value", Val::D(0.0))]),
        msg(&[("string_value", Val::S("é".into()))]),
        msg(&[("string_value", Val::S(String::new()))]),
        msg(&[("bool_value", Val::B(true))]),
        msg(&[("bool_value", Val::B(false))]),
        msg(&[("struct_value", msg(&[]))]),
        msg(&[("list_value", msg(&[]))]),
    ];
    if depth > 0 {
        let inner = json_values(depth - 1);
        let entry = |k: &str, v: &Val| (Val::S(k.into()), v.clone());
        for x in &inner {
            v.push(msg(&[("struct_value", msg(&[("fields", Val::Map(vec![entry("a", x)]))]))]));
            v.push(msg(&[("list_value", msg(&[("values", Val::L(vec![x.clone()]))]))]));
        }
        v.push(msg(&[("list_value", msg(&[("values", Val::L(inner.clone()))]))]));
        v.push(msg(&[("struct_value", msg(&[("fields", Val::Map(vec![entry("a", &inner[1]), entry("b", &inner[2])]))]))]));
    }
    v
}

/// Values of the field in a reply; None for unset.
fn contents(f: &Fld, thorough: bool) -> Vec<Option<Val>> {
    let c: Vec<Val> = match f.ty {
        Ty::Msg(VALUE) => json_values(2),
        Ty::Msg(STRUCT) => json_values(1)
            .into_iter()
            .map(|v| msg(&[("fields", Val::Map(vec![(Val::S("k".into()), v.clone()), (Val::S("l".into()), v)]))]))
            .chain([msg(&[])])
            .collect(),
        Ty::Msg(LIST) => json_values(1).into_iter().map(|v| msg(&[("values", Val::L(vec![v.clone(), msg(&[]), v]))])).chain([msg(&[])]).collect(),
        Ty::Msg(ALL) => vec![msg(&[]), msg(&[("s_int64", Val::I(-5)), ("all", msg(&[("s_string", Val::S("in".into()))]))]), msg(&[("r_sub", Val::L(vec![msg(&[]), msg(&[])]))])],
        t => {
            let mut v: Vec<Val> = constants(t).into_iter().map(|c| c.1).collect();
            match t {
                Ty::Enum => v.extend([Val::I(5), Val::I(i64::from(i32::MIN))]),
                Ty::Int64 | Ty::Sint64 | Ty::Sfixed64 => v.push(Val::I(i64::MIN)),
                Ty::Double => v.extend([Val::D(-0.0), Val::D(f64::MAX)]),
                _ => {}
            }
            v
        }
    };
    let mut out = vec![None];
    match f.lab {
        Lab::Rep => {
            out.push(Some(Val::L(c.clone())));
            for (i, a) in c.iter().enumerate() {
                out.push(Some(Val::L(vec![a.clone()])));
                for (k, b) in c.iter().enumerate() {
                    if thorough || k == (i + 1) % c.len() {
                        out.push(Some(Val::L(vec![a.clone(), b.clone()])));
                    }
                }
            }
        }
        Lab::Map(kt) => {
            let keys: Vec<Val> = constants(kt).into_iter().map(|c| c.1).collect();
            for (i, k) in keys.iter().enumerate() {
                for (j, x) in c.iter().enumerate() {
                    if thorough || i == 0 || j == 0 || (i + j) % 5 == 0 {
                        out.push(Some(Val::Map(vec![(k.clone(), x.clone())])));
                    }
                }
            }
            let mut many: Vec<(Val, Val)> = keys.iter().enumerate().map(|(i, k)| (k.clone(), c[i % c.len()].clone())).collect();
            many.sort_by_key(|(k, _)| format!("{k:?}"));
            out.push(Some(Val::Map(many)));
        }
        _ => out.extend(c.into_iter().map(Some)),
    }
    out
}

const STYLES: &[Style] = &[
    Style { unpacked: false, reversed: false, unknown: false, twice: false },
    Style { unpacked: true, reversed: false, unknown: false, twice: false },
    Style { unpacked: false, reversed: true, unknown: true, twice: false },
    Style { unpacked: false, reversed: false, unknown: false, twice: true },
];

struct Reader {
    vm: Vm,
    f: Fld,
    sch: Vec<Vec<Fld>>,
    next: u32,
}

impl Reader {
    fn new(f: &Fld) -> Result<Reader, String> {
        let store = |path: &str, value: String| {
            json!({"type": "store", "predicate": "true", "terminal": false, "exportToHost": true, "path": path, "value": value})
        };
        let mut then = vec![store("x.done", "true".into()), store("x.value", format!("[{}]", show_field(f)))];
        if has_presence(f) {
            then.push(store("x.has", format!("has(v.{})", f.name)));
        }
        let cfg = lab::config_with(json!([call(0, "", json!(then))]));
        Ok(Reader { vm: boot(&cfg)?, f: f.clone(), sch: schema(), next: 10 })
    }

    /// What comes of this reply.
    fn read(&mut self, bytes: &[u8]) -> Result<(bool, Option<V>, Option<bool>), Fail> {
        self.next += 1;
        let id = self.next;
        self.vm.open(id, base_stream("api.example.com", "/"));
        let o = sane(self.vm.request_headers(id, true))?;
        let [c] = o.calls.as_slice() else { return bad(format!("calls: {:?}", o.calls)) };
        let o = sane(self.vm.reply(id, c.token, 0, Some(bytes)))?;
        self.vm.forget(id);
        let errors: i64 = o.metrics.iter().filter(|(n, _)| n.ends_with("errors")).map(|(_, v)| *v).sum();
        let mut got = BTreeMap::new();
        for (path, b) in &o.props {
            let v = prost_types::Value::decode(b.as_slice()).map_err(|e| (e.to_string(), vec![]))?;
            got.insert(path.join("."), lab::decode(&v));
        }
        let done = got.contains_key("kuadrant.x.done");
        if done != (errors == 0) {
            return bad(format!("{errors} errors are counted, and its onReply is run: {done}"));
        }
        let value = match got.remove("kuadrant.x.value") {
            Some(V::List(l)) if l.len() == 1 => l.into_iter().next(),
            None => None,
            other => return bad(format!("exported {other:?}")),
        };
        let has = match got.remove("kuadrant.x.has") {
            Some(V::Bool(b)) => Some(b),
            _ => None,
        };
        Ok((done, value, has))
    }

    fn check(&mut self, bytes: &[u8]) -> Result<u64, Fail> {
        MISMATCH.with(|m| m.set(false));
        let m = parse(bytes, ALL, &self.sch);
        let (done, value, has) = self.read(bytes)?;
        if MISMATCH.with(|m| m.get()) {
            return Ok(0);
        }
        let Some(m) = m else {
            return if done { bad(format!("{bytes:?} is no message, but read as {value:?}")) } else { Ok(0) };
        };
        if !done && strange_times(&m) {
            return Ok(0);
        }
        if !done {
            return bad(format!("{bytes:?}, which is {m:?}, counts as failed"));
        }
        let want = expected(&self.f, &m);
        let is = if matches!(self.f.lab, Lab::Map(_)) { value.map(sorted) } else { value };
        if is.is_some() != want.is_some() || format!("{is:?}") != format!("{want:?}") {
            return bad(format!("{m:?} is read as {is:?}, must be {want:?}"));
        }
        if has_presence(&self.f) && has != Some(m.contains_key(&self.f.name)) {
            return bad(format!("has({}) of {m:?} is {has:?}", self.f.name));
        }
        Ok(hash_of(&format!("{want:?}")))
    }
}

fn noise(f: &Fld, all: &[Fld]) -> Msg {
    let i = all.iter().position(|g| g.name == f.name).unwrap_or(0);
    let mut m = Msg::new();
    for d in [1, 2, all.len() - 1] {
        let g = &all[(i + d) % all.len()];
        if !(g.lab == Lab::Oneof && f.lab == Lab::Oneof) {
            if let Some((_, v)) = one_value(g) {
                m.insert(g.name.clone(), v);
            }
        }
    }
    m
}

fn reading(f: Fld, thorough: bool) -> Job {
    job(format!("read: {}", f.name), move |rec: &mut Rec| {
        let mut r = match Reader::new(&f) {
            Ok(r) => r,
            Err(e) => return rec.violation(e, vec!["boot".into()], vec![]),
        };
        let all = schema().swap_remove(ALL);
        let around = noise(&f, &all);
        let values = contents(&f, thorough);
        rec.sample(json!({"field": f.name, "values": values.len(), "encodings": STYLES.len(), "such as": format!("{:?}", values.last())}));
        rec.explore(|ch, st| {
            let v = &values[ch.pick(values.len())];
            let mut m = if ch.flip() { around.clone() } else { Msg::new() };
            if let Some(v) = v {
                m.insert(f.name.clone(), v.clone());
            }
            let style = STYLES[ch.pick(STYLES.len())];
            let bytes = encode(&m, ALL, &r.sch, style);
            if bytes.is_empty() {
                return Ok(());
            }
            st.transition();
            st.state(r.check(&bytes)?);
            Ok(())
        });
    })
}

/// Encodings cut short, or with a byte altered.
fn damaged(f: Fld, thorough: bool) -> Job {
    job(format!("damaged: {}", f.name), move |rec: &mut Rec| {
        let mut r = match Reader::new(&f) {
            Ok(r) => r,
            Err(e) => return rec.violation(e, vec!["boot".into()], vec![]),
        };
        let values: Vec<Val> = contents(&f, false).into_iter().flatten().collect();
        let step = if thorough { 1 } else { 3 };
        let values: Vec<Val> = values.into_iter().step_by(step).filter(|v| format!("{v:?}").len() < 200).collect();
        if values.is_empty() {
            return;
        }
        let altered: Vec<u8> =
            if thorough { (0..=255).step_by(5).chain([1, 2, 13, 16, 127, 128]).collect() } else { vec![0x00, 0x01, 0x02, 0x0d, 0x10, 0x7f, 0x80, 0xff] };
        rec.sample(json!({"field": f.name, "values": values.len()}));
        rec.explore(|ch, st| {
            let mut m = Msg::new();
            m.insert(f.name.clone(), values[ch.pick(values.len())].clone());
            let mut bytes = encode(&m, ALL, &r.sch, Style::default());
            let at = ch.pick(bytes.len());
            match ch.pick(altered.len() + 2) {
                0 => bytes.truncate(at),
                1 => bytes.insert(at, 0xff),
                k => bytes[at] = altered[k - 2],
            }
            if bytes.is_empty() {
                return Ok(());
            }
            st.transition();
            st.state(r.check(&bytes)?);
            Ok(())
        });
    })
}

/// Timestamps outside the years 1 to 9999.
fn strange_times(m: &Msg) -> bool {
    fn strange(v: &Val) -> bool {
        match v {
            Val::M(m) => {
                let n = |k: &str| match m.get(k) {
                    Some(Val::I(i)) => *i,
                    _ => 0,
                };
                !(-62135596800..=253402300799).contains(&n("seconds")) || !(0..1_000_000_000).contains(&n("nanos")) || strange_times(m)
            }
            Val::L(l) => l.iter().any(strange),
            Val::Map(l) => l.iter().any(|x| strange(&x.1)),
            _ => false,
        }
    }
    m.values().any(strange)
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C21",
        level: "model_checking",
        rule: "a message type with a singular, optional, repeated, map (value and key) and oneof field of every scalar type, an enum, nested messages and the well-known types: every field with every boundary value of its type and a value of every other type in every position, pairs of fields and all fields at once, what is sent being decoded by an independent reader of the wire format; and replies with every field's values in several encodings (packed and not, reordered, unknown and repeated fields), cut short or altered at every byte, what expressions read compared with that reader's answer",
        assumptions: &[
            "enum numbers without a name may be refused in calls or sent as they are; groups, wrappers, several members of a oneof, infinities and NaN, null for messages, and Struct, Value and ListValue in calls are left open",
            "a double given for a float field is sent as the nearest float; one out of range is refused",
        ],
        jobs: c21,
    }]
}

fn c21(thorough: bool) -> Vec<Job> {
    let mut v = vec![];
    for f in schema().swap_remove(ALL).into_iter().skip(1) {
        if !matches!(f.ty, Ty::Msg(ALL | STRUCT | VALUE | LIST)) {
            v.push(sending(f.clone(), thorough));
        }
        v.push(reading(f.clone(), thorough));
        v.push(damaged(f, thorough));
    }
    let parts = if thorough { 16 } else { 64 };
    for part in 0..parts {
        if thorough || part % 8 == 0 {
            v.push(pairs(part, parts));
        }
    }
    v.push(whole());
    v.push(unnamed());
    v
}
