//! A protobuf service of our own (`mc.Svc/Call`), handed to the filter through
//! its descriptor fetch, and the minimal wire encoding the scenarios need.
use prost::Message;
use prost_types::field_descriptor_proto::{Label, Type};
use prost_types::{
    DescriptorProto, FieldDescriptorProto, FileDescriptorProto, FileDescriptorSet,
    MethodDescriptorProto, ServiceDescriptorProto,
};

fn field(name: &str, n: i32, t: Type, label: Label, type_name: Option<&str>) -> FieldDescriptorProto {
    FieldDescriptorProto {
        name: Some(name.into()),
        number: Some(n),
        label: Some(label as i32),
        r#type: Some(t as i32),
        type_name: type_name.map(|s| s.into()),
        ..Default::default()
    }
}

pub fn file() -> FileDescriptorProto {
    let opt = Label::Optional;
    FileDescriptorProto {
        name: Some("mc.proto".into()),
        package: Some("mc".into()),
        syntax: Some("proto3".into()),
        message_type: vec![
            DescriptorProto {
                name: Some("Req".into()),
                field: vec![
                    field("tag", 1, Type::String, opt, None),
                    field("data", 2, Type::String, opt, None),
                ],
                ..Default::default()
            },
            DescriptorProto {
                name: Some("Hdr".into()),
                field: vec![
                    field("key", 1, Type::String, opt, None),
                    field("value", 2, Type::String, opt, None),
                ],
                ..Default::default()
            },
            DescriptorProto {
                name: Some("Resp".into()),
                field: vec![
                    field("code", 1, Type::Uint32, opt, None),
                    field("text", 2, Type::String, opt, None),
                    field("hdrs", 3, Type::Message, Label::Repeated, Some(".mc.Hdr")),
                ],
                ..Default::default()
            },
        ],
        service: vec![ServiceDescriptorProto {
            name: Some("Svc".into()),
            method: vec![MethodDescriptorProto {
                name: Some("Call".into()),
                input_type: Some(".mc.Req".into()),
                output_type: Some(".mc.Resp".into()),
                ..Default::default()
            }],
            ..Default::default()
        }],
        ..Default::default()
    }
}

pub fn file_set() -> Vec<u8> {
    FileDescriptorSet { file: vec![file()] }.encode_to_vec()
}

#[derive(Clone, PartialEq, Message)]
pub struct ServiceRef {
    #[prost(string, tag = "1")]
    pub cluster_name: String,
    #[prost(string, tag = "2")]
    pub service: String,
}

#[derive(Clone, PartialEq, Message)]
pub struct DescriptorRequest {
    #[prost(message, repeated, tag = "1")]
    pub services: Vec<ServiceRef>,
}

#[derive(Clone, PartialEq, Message)]
pub struct ServiceDescriptor {
    #[prost(string, tag = "1")]
    pub cluster_name: String,
    #[prost(string, tag = "2")]
    pub service: String,
    #[prost(bytes = "vec", tag = "3")]
    pub file_descriptor_set: Vec<u8>,
}

#[derive(Clone, PartialEq, Message)]
pub struct DescriptorResponse {
    #[prost(message, repeated, tag = "1")]
    pub descriptors: Vec<ServiceDescriptor>,
}

#[derive(Clone, PartialEq, Message)]
pub struct Req {
    #[prost(string, tag = "1")]
    pub tag: String,
    #[prost(string, tag = "2")]
    pub data: String,
}

#[derive(Clone, PartialEq, Message)]
pub struct Hdr {
    #[prost(string, tag = "1")]
    pub key: String,
    #[prost(string, tag = "2")]
    pub value: String,
}

#[derive(Clone, PartialEq, Message)]
pub struct Resp {
    #[prost(uint32, tag = "1")]
    pub code: u32,
    #[prost(string, tag = "2")]
    pub text: String,
    #[prost(message, repeated, tag = "3")]
    pub hdrs: Vec<Hdr>,
}
