//! The parts of the Envoy and Kuadrant protocols that legacy actions speak: the
//! descriptors handed to the filter, and our own reading of the messages.
use prost::Message;
use prost_types::field_descriptor_proto::{Label, Type};
use prost_types::{
    DescriptorProto, EnumDescriptorProto, EnumValueDescriptorProto, FieldDescriptorProto, FileDescriptorProto, FileDescriptorSet, MessageOptions,
    MethodDescriptorProto, OneofDescriptorProto, ServiceDescriptorProto,
};
use std::collections::BTreeMap;

fn fld(name: &str, n: i32, t: Type, rep: bool, type_name: Option<&str>) -> FieldDescriptorProto {
    FieldDescriptorProto {
        name: Some(name.into()),
        number: Some(n),
        label: Some(if rep { Label::Repeated } else { Label::Optional } as i32),
        r#type: Some(t as i32),
        type_name: type_name.map(|s| format!(".{s}")),
        ..Default::default()
    }
}
fn s(name: &str, n: i32) -> FieldDescriptorProto {
    fld(name, n, Type::String, false, None)
}
fn m(name: &str, n: i32, of: &str) -> FieldDescriptorProto {
    fld(name, n, Type::Message, false, Some(of))
}
fn ms(name: &str, n: i32, of: &str) -> FieldDescriptorProto {
    fld(name, n, Type::Message, true, Some(of))
}
fn e(name: &str, n: i32, of: &str) -> FieldDescriptorProto {
    fld(name, n, Type::Enum, false, Some(of))
}
fn t(name: &str, n: i32, t: Type) -> FieldDescriptorProto {
    fld(name, n, t, false, None)
}
fn msg(name: &str, field: Vec<FieldDescriptorProto>) -> DescriptorProto {
    DescriptorProto { name: Some(name.into()), field, ..Default::default() }
}
fn entry(name: &str, value: FieldDescriptorProto) -> DescriptorProto {
    DescriptorProto {
        options: Some(MessageOptions { map_entry: Some(true), ..Default::default() }),
        ..msg(name, vec![s("key", 1), value])
    }
}
fn enm(name: &str, values: &[(&str, i32)]) -> EnumDescriptorProto {
    EnumDescriptorProto {
        name: Some(name.into()),
        value: values.iter().map(|(n, i)| EnumValueDescriptorProto { name: Some(n.to_string()), number: Some(*i), ..Default::default() }).collect(),
        ..Default::default()
    }
}
fn oneof(mut d: DescriptorProto, name: &str, members: &[&str]) -> DescriptorProto {
    d.oneof_decl.push(OneofDescriptorProto { name: Some(name.into()), ..Default::default() });
    for f in &mut d.field {
        if members.contains(&f.name()) {
            f.oneof_index = Some(0);
        }
    }
    d
}
fn file(name: &str, package: &str, deps: &[&str], message_type: Vec<DescriptorProto>) -> FileDescriptorProto {
    FileDescriptorProto {
        name: Some(name.into()),
        package: Some(package.into()),
        syntax: Some("proto3".into()),
        dependency: deps.iter().map(|d| d.to_string()).collect(),
        message_type,
        ..Default::default()
    }
}
fn service(name: &str, methods: &[&str], input: &str, output: &str) -> ServiceDescriptorProto {
    ServiceDescriptorProto {
        name: Some(name.into()),
        method: methods
            .iter()
            .map(|n| MethodDescriptorProto {
                name: Some(n.to_string()),
                input_type: Some(format!(".{input}")),
                output_type: Some(format!(".{output}")),
                ..Default::default()
            })
            .collect(),
        ..Default::default()
    }
}

pub fn file_set() -> Vec<u8> {
    const RL: &str = "envoy.service.ratelimit.v3";
    let ctx = "envoy.service.auth.v3.AttributeContext";
    let value = oneof(
        msg(
            "Value",
            vec![
                e("null_value", 1, "google.protobuf.NullValue"),
                t("number_value", 2, Type::Double),
                s("string_value", 3),
                t("bool_value", 4, Type::Bool),
                m("struct_value", 5, "google.protobuf.Struct"),
                m("list_value", 6, "google.protobuf.ListValue"),
            ],
        ),
        "kind",
        &["null_value", "number_value", "string_value", "bool_value", "struct_value", "list_value"],
    );
    let strukt = DescriptorProto {
        nested_type: vec![entry("FieldsEntry", m("value", 2, "google.protobuf.Value"))],
        ..msg("Struct", vec![ms("fields", 1, "google.protobuf.Struct.FieldsEntry")])
    };
    let structs = FileDescriptorProto {
        enum_type: vec![enm("NullValue", &[("NULL_VALUE", 0)])],
        ..file("google/protobuf/struct.proto", "google.protobuf", &[], vec![strukt, value, msg("ListValue", vec![ms("values", 1, "google.protobuf.Value")])])
    };
    let time = file(
        "google/protobuf/timestamp.proto",
        "google.protobuf",
        &[],
        vec![msg("Timestamp", vec![t("seconds", 1, Type::Int64), t("nanos", 2, Type::Int32)])],
    );
    let wrappers = file("google/protobuf/wrappers.proto", "google.protobuf", &[], vec![msg("BoolValue", vec![t("value", 1, Type::Bool)])]);
    let status = file("google/rpc/status.proto", "google.rpc", &[], vec![msg("Status", vec![t("code", 1, Type::Int32), s("message", 2)])]);
    let http_status = FileDescriptorProto {
        enum_type: vec![enm(
            "StatusCode",
            &[("Empty", 0), ("OK", 200), ("Found", 302), ("Unauthorized", 401), ("Forbidden", 403), ("TooManyRequests", 429), ("ServiceUnavailable", 503)],
        )],
        ..file("envoy/type/v3/http_status.proto", "envoy.type.v3", &[], vec![msg("HttpStatus", vec![e("code", 1, "envoy.type.v3.StatusCode")])])
    };
    let base = file(
        "envoy/config/core/v3/base.proto",
        "envoy.config.core.v3",
        &["google/protobuf/struct.proto", "google/protobuf/wrappers.proto"],
        vec![
            msg("HeaderValue", vec![s("key", 1), s("value", 2), t("raw_value", 3, Type::Bytes)]),
            msg(
                "HeaderValueOption",
                vec![m("header", 1, "envoy.config.core.v3.HeaderValue"), m("append", 2, "google.protobuf.BoolValue")],
            ),
            msg("QueryParameter", vec![s("key", 1), s("value", 2)]),
            DescriptorProto {
                nested_type: vec![entry("FilterMetadataEntry", m("value", 2, "google.protobuf.Struct"))],
                ..msg("Metadata", vec![ms("filter_metadata", 1, "envoy.config.core.v3.Metadata.FilterMetadataEntry")])
            },
            oneof(
                msg("SocketAddress", vec![t("protocol", 1, Type::Int32), s("address", 2), t("port_value", 3, Type::Uint32), s("named_port", 4)]),
                "port_specifier",
                &["port_value", "named_port"],
            ),
            oneof(msg("Address", vec![m("socket_address", 1, "envoy.config.core.v3.SocketAddress")]), "address", &["socket_address"]),
        ],
    );
    let limit = file(
        "envoy/extensions/common/ratelimit/v3/ratelimit.proto",
        "envoy.extensions.common.ratelimit.v3",
        &[],
        vec![DescriptorProto {
            nested_type: vec![msg("Entry", vec![s("key", 1), s("value", 2)])],
            ..msg("RateLimitDescriptor", vec![ms("entries", 1, "envoy.extensions.common.ratelimit.v3.RateLimitDescriptor.Entry")])
        }],
    );
    let rls = FileDescriptorProto {
        service: vec![service("RateLimitService", &["ShouldRateLimit"], "envoy.service.ratelimit.v3.RateLimitRequest", "envoy.service.ratelimit.v3.RateLimitResponse")],
        ..file(
            "envoy/service/ratelimit/v3/rls.proto",
            RL,
            &["envoy/config/core/v3/base.proto", "envoy/extensions/common/ratelimit/v3/ratelimit.proto", "google/protobuf/struct.proto"],
            vec![
                msg(
                    "RateLimitRequest",
                    vec![s("domain", 1), ms("descriptors", 2, "envoy.extensions.common.ratelimit.v3.RateLimitDescriptor"), t("hits_addend", 3, Type::Uint32)],
                ),
                DescriptorProto {
                    enum_type: vec![enm("Code", &[("UNKNOWN", 0), ("OK", 1), ("OVER_LIMIT", 2)])],
                    nested_type: vec![msg(
                        "DescriptorStatus",
                        vec![e("code", 1, "envoy.service.ratelimit.v3.RateLimitResponse.Code"), t("limit_remaining", 3, Type::Uint32)],
                    )],
                    ..msg(
                        "RateLimitResponse",
                        vec![
                            e("overall_code", 1, "envoy.service.ratelimit.v3.RateLimitResponse.Code"),
                            ms("statuses", 2, "envoy.service.ratelimit.v3.RateLimitResponse.DescriptorStatus"),
                            ms("response_headers_to_add", 3, "envoy.config.core.v3.HeaderValue"),
                            ms("request_headers_to_add", 4, "envoy.config.core.v3.HeaderValue"),
                            t("raw_body", 5, Type::Bytes),
                            m("dynamic_metadata", 6, "google.protobuf.Struct"),
                        ],
                    )
                },
            ],
        )
    };
    let kuadrant = FileDescriptorProto {
        service: vec![service(
            "RateLimitService",
            &["CheckRateLimit", "Report"],
            "envoy.service.ratelimit.v3.RateLimitRequest",
            "envoy.service.ratelimit.v3.RateLimitResponse",
        )],
        ..file("kuadrant/service/ratelimit/v1/ratelimit.proto", "kuadrant.service.ratelimit.v1", &["envoy/service/ratelimit/v3/rls.proto"], vec![])
    };
    let strings = |n: &str| entry(n, s("value", 2));
    let peer = DescriptorProto {
        nested_type: vec![strings("LabelsEntry")],
        ..msg(
            "Peer",
            vec![
                m("address", 1, "envoy.config.core.v3.Address"),
                s("service", 2),
                ms("labels", 3, &format!("{ctx}.Peer.LabelsEntry")),
                s("principal", 4),
                s("certificate", 5),
            ],
        )
    };
    let request = msg("Request", vec![m("time", 1, "google.protobuf.Timestamp"), m("http", 2, &format!("{ctx}.HttpRequest"))]);
    let http = DescriptorProto {
        nested_type: vec![strings("HeadersEntry")],
        ..msg(
            "HttpRequest",
            vec![
                s("id", 1),
                s("method", 2),
                ms("headers", 3, &format!("{ctx}.HttpRequest.HeadersEntry")),
                s("path", 4),
                s("host", 5),
                s("scheme", 6),
                s("query", 7),
                s("fragment", 8),
                t("size", 9, Type::Int64),
                s("protocol", 10),
                s("body", 11),
                t("raw_body", 12, Type::Bytes),
            ],
        )
    };
    let context = DescriptorProto {
        nested_type: vec![peer, request, http, strings("ContextExtensionsEntry")],
        ..msg(
            "AttributeContext",
            vec![
                m("source", 1, &format!("{ctx}.Peer")),
                m("destination", 2, &format!("{ctx}.Peer")),
                m("request", 4, &format!("{ctx}.Request")),
                ms("context_extensions", 10, &format!("{ctx}.ContextExtensionsEntry")),
                m("metadata_context", 11, "envoy.config.core.v3.Metadata"),
            ],
        )
    };
    let hvo = "envoy.config.core.v3.HeaderValueOption";
    let auth = FileDescriptorProto {
        service: vec![service("Authorization", &["Check"], "envoy.service.auth.v3.CheckRequest", "envoy.service.auth.v3.CheckResponse")],
        ..file(
            "envoy/service/auth/v3/external_auth.proto",
            "envoy.service.auth.v3",
            &[
                "envoy/config/core/v3/base.proto",
                "envoy/type/v3/http_status.proto",
                "google/protobuf/struct.proto",
                "google/protobuf/timestamp.proto",
                "google/rpc/status.proto",
            ],
            vec![
                context,
                msg("CheckRequest", vec![m("attributes", 1, ctx)]),
                msg("DeniedHttpResponse", vec![m("status", 1, "envoy.type.v3.HttpStatus"), ms("headers", 2, hvo), s("body", 3)]),
                msg(
                    "OkHttpResponse",
                    vec![
                        ms("headers", 2, hvo),
                        m("dynamic_metadata", 3, "google.protobuf.Struct"),
                        fld("headers_to_remove", 5, Type::String, true, None),
                        ms("response_headers_to_add", 6, hvo),
                        ms("query_parameters_to_set", 7, "envoy.config.core.v3.QueryParameter"),
                        fld("query_parameters_to_remove", 8, Type::String, true, None),
                    ],
                ),
                oneof(
                    msg(
                        "CheckResponse",
                        vec![
                            m("status", 1, "google.rpc.Status"),
                            m("denied_response", 2, "envoy.service.auth.v3.DeniedHttpResponse"),
                            m("ok_response", 3, "envoy.service.auth.v3.OkHttpResponse"),
                            m("dynamic_metadata", 4, "google.protobuf.Struct"),
                        ],
                    ),
                    "http_response",
                    &["denied_response", "ok_response"],
                ),
            ],
        )
    };
    FileDescriptorSet { file: vec![structs, time, wrappers, status, http_status, base, limit, rls, kuadrant, auth] }.encode_to_vec()
}

#[derive(Clone, PartialEq, Message)]
pub struct Entry {
    #[prost(string, tag = "1")]
    pub key: String,
    #[prost(string, tag = "2")]
    pub value: String,
}

#[derive(Clone, PartialEq, Message)]
pub struct Descriptor {
    #[prost(message, repeated, tag = "1")]
    pub entries: Vec<Entry>,
}

#[derive(Clone, PartialEq, Message)]
pub struct RateLimitRequest {
    #[prost(string, tag = "1")]
    pub domain: String,
    #[prost(message, repeated, tag = "2")]
    pub descriptors: Vec<Descriptor>,
    #[prost(uint32, tag = "3")]
    pub hits_addend: u32,
}

#[derive(Clone, PartialEq, Message)]
pub struct DescriptorStatus {
    #[prost(int32, tag = "1")]
    pub code: i32,
    #[prost(uint32, tag = "3")]
    pub limit_remaining: u32,
}

#[derive(Clone, PartialEq, Message)]
pub struct HeaderValue {
    #[prost(string, tag = "1")]
    pub key: String,
    #[prost(string, tag = "2")]
    pub value: String,
}

#[derive(Clone, PartialEq, Message)]
pub struct RateLimitResponse {
    #[prost(int32, tag = "1")]
    pub overall_code: i32,
    #[prost(message, repeated, tag = "2")]
    pub statuses: Vec<DescriptorStatus>,
    #[prost(message, repeated, tag = "3")]
    pub response_headers_to_add: Vec<HeaderValue>,
}

#[derive(Clone, PartialEq, Message)]
pub struct SocketAddress {
    #[prost(int32, tag = "1")]
    pub protocol: i32,
    #[prost(string, tag = "2")]
    pub address: String,
    #[prost(uint32, optional, tag = "3")]
    pub port_value: Option<u32>,
}

#[derive(Clone, PartialEq, Message)]
pub struct Address {
    #[prost(message, optional, tag = "1")]
    pub socket_address: Option<SocketAddress>,
}

#[derive(Clone, PartialEq, Message)]
pub struct Peer {
    #[prost(message, optional, tag = "1")]
    pub address: Option<Address>,
    #[prost(string, tag = "2")]
    pub service: String,
    #[prost(btree_map = "string, string", tag = "3")]
    pub labels: BTreeMap<String, String>,
    #[prost(string, tag = "4")]
    pub principal: String,
    #[prost(string, tag = "5")]
    pub certificate: String,
}

#[derive(Clone, PartialEq, Message)]
pub struct HttpRequest {
    #[prost(string, tag = "1")]
    pub id: String,
    #[prost(string, tag = "2")]
    pub method: String,
    #[prost(btree_map = "string, string", tag = "3")]
    pub headers: BTreeMap<String, String>,
    #[prost(string, tag = "4")]
    pub path: String,
    #[prost(string, tag = "5")]
    pub host: String,
    #[prost(string, tag = "6")]
    pub scheme: String,
    #[prost(string, tag = "7")]
    pub query: String,
    #[prost(string, tag = "8")]
    pub fragment: String,
    #[prost(int64, tag = "9")]
    pub size: i64,
    #[prost(string, tag = "10")]
    pub protocol: String,
    #[prost(string, tag = "11")]
    pub body: String,
    #[prost(bytes = "vec", tag = "12")]
    pub raw_body: Vec<u8>,
}

#[derive(Clone, PartialEq, Message)]
pub struct Request {
    #[prost(message, optional, tag = "1")]
    pub time: Option<prost_types::Timestamp>,
    #[prost(message, optional, tag = "2")]
    pub http: Option<HttpRequest>,
}

#[derive(Clone, PartialEq, Message)]
pub struct Metadata {
    #[prost(btree_map = "string, message", tag = "1")]
    pub filter_metadata: BTreeMap<String, prost_types::Struct>,
}

#[derive(Clone, PartialEq, Message)]
pub struct AttributeContext {
    #[prost(message, optional, tag = "1")]
    pub source: Option<Peer>,
    #[prost(message, optional, tag = "2")]
    pub destination: Option<Peer>,
    #[prost(message, optional, tag = "4")]
    pub request: Option<Request>,
    #[prost(btree_map = "string, string", tag = "10")]
    pub context_extensions: BTreeMap<String, String>,
    #[prost(message, optional, tag = "11")]
    pub metadata_context: Option<Metadata>,
}

#[derive(Clone, PartialEq, Message)]
pub struct CheckRequest {
    #[prost(message, optional, tag = "1")]
    pub attributes: Option<AttributeContext>,
}

#[derive(Clone, PartialEq, Message)]
pub struct HeaderValueOption {
    #[prost(message, optional, tag = "1")]
    pub header: Option<HeaderValue>,
    #[prost(message, optional, tag = "2")]
    pub append: Option<Flag>,
}

#[derive(Clone, PartialEq, Message)]
pub struct Flag {
    #[prost(bool, tag = "1")]
    pub value: bool,
}

#[derive(Clone, PartialEq, Message)]
pub struct HttpStatus {
    #[prost(int32, tag = "1")]
    pub code: i32,
}

#[derive(Clone, PartialEq, Message)]
pub struct Denied {
    #[prost(message, optional, tag = "1")]
    pub status: Option<HttpStatus>,
    #[prost(message, repeated, tag = "2")]
    pub headers: Vec<HeaderValueOption>,
    #[prost(string, tag = "3")]
    pub body: String,
}

#[derive(Clone, PartialEq, Message)]
pub struct Okay {
    #[prost(message, repeated, tag = "2")]
    pub headers: Vec<HeaderValueOption>,
    #[prost(string, repeated, tag = "5")]
    pub headers_to_remove: Vec<String>,
    #[prost(message, repeated, tag = "6")]
    pub response_headers_to_add: Vec<HeaderValueOption>,
    #[prost(message, repeated, tag = "7")]
    pub query_parameters_to_set: Vec<Entry>,
    #[prost(string, repeated, tag = "8")]
    pub query_parameters_to_remove: Vec<String>,
}

#[derive(Clone, PartialEq, Message)]
pub struct RpcStatus {
    #[prost(int32, tag = "1")]
    pub code: i32,
    #[prost(string, tag = "2")]
    pub message: String,
}

#[derive(Clone, PartialEq, Message)]
pub struct CheckResponse {
    #[prost(message, optional, tag = "1")]
    pub status: Option<RpcStatus>,
    #[prost(message, optional, tag = "2")]
    pub denied_response: Option<Denied>,
    #[prost(message, optional, tag = "3")]
    pub ok_response: Option<Okay>,
    #[prost(message, optional, tag = "4")]
    pub dynamic_metadata: Option<prost_types::Struct>,
}

/// The message, if these bytes hold it and nothing else.
pub fn exactly<M: Message + Default>(bytes: &[u8]) -> Option<M> {
    let m = M::decode(bytes).ok()?;
    (m.encoded_len() == bytes.len()).then_some(m)
}
