//! Conversions between the reference model's packets and the crate's, field by field, with the code tables written out,
//! and thin wrappers around the crate's API.

use crate::mon::tgt;
use crate::refm::*;
use bytes::{Bytes, BytesMut};
use mqttbytes::{v4, v5, Error, FixedHeader, PacketType, Protocol, QoS};

pub enum CPk {
    P4(v4::Packet),
    P5(v5::Packet),
}

/// Choices the API offers for the same meaning.
#[derive(Clone, Copy, Default, Debug)]
pub struct Knob {
    /// `Some` of an empty property set instead of `None`
    pub empty_props: bool,
    /// `Some(Login { "", "" })` instead of `None`
    pub empty_login: bool,
    /// The packet id of QoS 0 publishes, which is not sent
    pub stray_pkid: u16,
}

macro_rules! table {
    ($to:ident, $from:ident, $t:ty, $($n:expr => $v:path),+ $(,)?) => {
        pub fn $to(n: u8) -> $t {
            match n { $($n => $v,)+ _ => panic!("conv: no constant for {}", n) }
        }
        pub fn $from(v: $t) -> u8 {
            #[allow(unreachable_patterns)]
            match v { $($v => $n,)+ _ => panic!("conv: unknown constant") }
        }
    };
}

table!(qos_of, qos_num, QoS, 0 => QoS::AtMostOnce, 1 => QoS::AtLeastOnce, 2 => QoS::ExactlyOnce);
table!(ca4_of, ca4_num, v4::ConnectReturnCode,
    0 => v4::ConnectReturnCode::Success,
    1 => v4::ConnectReturnCode::RefusedProtocolVersion,
    2 => v4::ConnectReturnCode::BadClientId,
    3 => v4::ConnectReturnCode::ServiceUnavailable,
    4 => v4::ConnectReturnCode::BadUserNamePassword,
    5 => v4::ConnectReturnCode::NotAuthorized);
table!(ca5_of, ca5_num, v5::ConnectReturnCode,
    0x00 => v5::ConnectReturnCode::Success,
    0x80 => v5::ConnectReturnCode::UnspecifiedError,
    0x81 => v5::ConnectReturnCode::MalformedPacket,
    0x82 => v5::ConnectReturnCode::ProtocolError,
    0x83 => v5::ConnectReturnCode::ImplementationSpecificError,
    0x84 => v5::ConnectReturnCode::UnsupportedProtocolVersion,
    0x85 => v5::ConnectReturnCode::ClientIdentifierNotValid,
    0x86 => v5::ConnectReturnCode::BadUserNamePassword,
    0x87 => v5::ConnectReturnCode::NotAuthorized,
    0x88 => v5::ConnectReturnCode::ServerUnavailable,
    0x89 => v5::ConnectReturnCode::ServerBusy,
    0x8A => v5::ConnectReturnCode::Banned,
    0x8C => v5::ConnectReturnCode::BadAuthenticationMethod,
    0x90 => v5::ConnectReturnCode::TopicNameInvalid,
    0x95 => v5::ConnectReturnCode::PacketTooLarge,
    0x97 => v5::ConnectReturnCode::QuotaExceeded,
    0x99 => v5::ConnectReturnCode::PayloadFormatInvalid,
    0x9A => v5::ConnectReturnCode::RetainNotSupported,
    0x9B => v5::ConnectReturnCode::QoSNotSupported,
    0x9C => v5::ConnectReturnCode::UseAnotherServer,
    0x9D => v5::ConnectReturnCode::ServerMoved,
    0x9F => v5::ConnectReturnCode::ConnectionRateExceeded);
table!(pa_of, pa_num, v5::PubAckReason,
    0x00 => v5::PubAckReason::Success,
    0x10 => v5::PubAckReason::NoMatchingSubscribers,
    0x80 => v5::PubAckReason::UnspecifiedError,
    0x83 => v5::PubAckReason::ImplementationSpecificError,
    0x87 => v5::PubAckReason::NotAuthorized,
    0x90 => v5::PubAckReason::TopicNameInvalid,
    0x91 => v5::PubAckReason::PacketIdentifierInUse,
    0x97 => v5::PubAckReason::QuotaExceeded,
    0x99 => v5::PubAckReason::PayloadFormatInvalid);
table!(pr_of, pr_num, v5::PubRecReason,
    0x00 => v5::PubRecReason::Success,
    0x10 => v5::PubRecReason::NoMatchingSubscribers,
    0x80 => v5::PubRecReason::UnspecifiedError,
    0x83 => v5::PubRecReason::ImplementationSpecificError,
    0x87 => v5::PubRecReason::NotAuthorized,
    0x90 => v5::PubRecReason::TopicNameInvalid,
    0x91 => v5::PubRecReason::PacketIdentifierInUse,
    0x97 => v5::PubRecReason::QuotaExceeded,
    0x99 => v5::PubRecReason::PayloadFormatInvalid);
table!(pl_of, pl_num, v5::PubRelReason,
    0x00 => v5::PubRelReason::Success,
    0x92 => v5::PubRelReason::PacketIdentifierNotFound);
table!(pc_of, pc_num, v5::PubCompReason,
    0x00 => v5::PubCompReason::Success,
    0x92 => v5::PubCompReason::PacketIdentifierNotFound);
table!(sa5_of, sa5_num, v5::SubscribeReasonCode,
    0x00 => v5::SubscribeReasonCode::QoS0,
    0x01 => v5::SubscribeReasonCode::QoS1,
    0x02 => v5::SubscribeReasonCode::QoS2,
    0x80 => v5::SubscribeReasonCode::Unspecified,
    0x83 => v5::SubscribeReasonCode::ImplementationSpecific,
    0x87 => v5::SubscribeReasonCode::NotAuthorized,
    0x8F => v5::SubscribeReasonCode::TopicFilterInvalid,
    0x91 => v5::SubscribeReasonCode::PkidInUse,
    0x97 => v5::SubscribeReasonCode::QuotaExceeded,
    0x9E => v5::SubscribeReasonCode::SharedSubscriptionsNotSupported,
    0xA1 => v5::SubscribeReasonCode::SubscriptionIdNotSupported,
    0xA2 => v5::SubscribeReasonCode::WildcardSubscriptionsNotSupported);
table!(ua_of, ua_num, v5::UnsubAckReason,
    0x00 => v5::UnsubAckReason::Success,
    0x11 => v5::UnsubAckReason::NoSubscriptionExisted,
    0x80 => v5::UnsubAckReason::UnspecifiedError,
    0x83 => v5::UnsubAckReason::ImplementationSpecificError,
    0x87 => v5::UnsubAckReason::NotAuthorized,
    0x8F => v5::UnsubAckReason::TopicFilterInvalid,
    0x91 => v5::UnsubAckReason::PacketIdentifierInUse);
table!(dc_of, dc_num, v5::DisconnectReasonCode,
    0x00 => v5::DisconnectReasonCode::NormalDisconnection,
    0x04 => v5::DisconnectReasonCode::DisconnectWithWillMessage,
    0x80 => v5::DisconnectReasonCode::UnspecifiedError,
    0x81 => v5::DisconnectReasonCode::MalformedPacket,
    0x82 => v5::DisconnectReasonCode::ProtocolError,
    0x83 => v5::DisconnectReasonCode::ImplementationSpecificError,
    0x87 => v5::DisconnectReasonCode::NotAuthorized,
    0x89 => v5::DisconnectReasonCode::ServerBusy,
    0x8B => v5::DisconnectReasonCode::ServerShuttingDown,
    0x8D => v5::DisconnectReasonCode::KeepAliveTimeout,
    0x8E => v5::DisconnectReasonCode::SessionTakenOver,
    0x8F => v5::DisconnectReasonCode::TopicFilterInvalid,
    0x90 => v5::DisconnectReasonCode::TopicNameInvalid,
    0x93 => v5::DisconnectReasonCode::ReceiveMaximumExceeded,
    0x94 => v5::DisconnectReasonCode::TopicAliasInvalid,
    0x95 => v5::DisconnectReasonCode::PacketTooLarge,
    0x96 => v5::DisconnectReasonCode::MessageRateTooHigh,
    0x97 => v5::DisconnectReasonCode::QuotaExceeded,
    0x98 => v5::DisconnectReasonCode::AdministrativeAction,
    0x99 => v5::DisconnectReasonCode::PayloadFormatInvalid,
    0x9A => v5::DisconnectReasonCode::RetainNotSupported,
    0x9B => v5::DisconnectReasonCode::QoSNotSupported,
    0x9C => v5::DisconnectReasonCode::UseAnotherServer,
    0x9D => v5::DisconnectReasonCode::ServerMoved,
    0x9E => v5::DisconnectReasonCode::SharedSubscriptionNotSupported,
    0x9F => v5::DisconnectReasonCode::ConnectionRateExceeded,
    0xA0 => v5::DisconnectReasonCode::MaximumConnectTime,
    0xA1 => v5::DisconnectReasonCode::SubscriptionIdentifiersNotSupported,
    0xA2 => v5::DisconnectReasonCode::WildcardSubscriptionsNotSupported);

pub fn sa4_of(n: u8) -> v4::SubscribeReasonCode {
    match n {
        0x80 => v4::SubscribeReasonCode::Failure,
        n => v4::SubscribeReasonCode::Success(qos_of(n)),
    }
}
pub fn sa4_num(v: v4::SubscribeReasonCode) -> u8 {
    match v {
        v4::SubscribeReasonCode::Failure => 0x80,
        v4::SubscribeReasonCode::Success(q) => qos_num(q),
    }
}
pub fn rule_of(n: u8) -> v5::RetainForwardRule {
    match n {
        0 => v5::RetainForwardRule::OnEverySubscribe,
        1 => v5::RetainForwardRule::OnNewSubscribe,
        2 => v5::RetainForwardRule::Never,
        _ => panic!("conv: no retain rule {}", n),
    }
}
pub fn rule_num(r: &v5::RetainForwardRule) -> u8 {
    match r {
        v5::RetainForwardRule::OnEverySubscribe => 0,
        v5::RetainForwardRule::OnNewSubscribe => 1,
        v5::RetainForwardRule::Never => 2,
    }
}
pub fn type_num(t: PacketType) -> u8 {
    match t {
        PacketType::Connect => 1,
        PacketType::ConnAck => 2,
        PacketType::Publish => 3,
        PacketType::PubAck => 4,
        PacketType::PubRec => 5,
        PacketType::PubRel => 6,
        PacketType::PubComp => 7,
        PacketType::Subscribe => 8,
        PacketType::SubAck => 9,
        PacketType::Unsubscribe => 10,
        PacketType::UnsubAck => 11,
        PacketType::PingReq => 12,
        PacketType::PingResp => 13,
        PacketType::Disconnect => 14,
    }
}

// --- property sections -------------------------------------------------------------------------------------------

fn find(p: &Props, id: u8) -> Option<&PV> {
    p.iter().rev().find(|x| x.0 == id).map(|x| &x.1)
}
fn b(p: &Props, id: u8) -> Option<u8> {
    find(p, id).map(|v| if let PV::B(x) = v { *x } else { panic!() })
}
fn w(p: &Props, id: u8) -> Option<u16> {
    find(p, id).map(|v| if let PV::W(x) = v { *x } else { panic!() })
}
fn d(p: &Props, id: u8) -> Option<u32> {
    find(p, id).map(|v| if let PV::D(x) = v { *x } else { panic!() })
}
fn s(p: &Props, id: u8) -> Option<String> {
    find(p, id).map(|v| if let PV::S(x) = v { x.clone() } else { panic!() })
}
fn x(p: &Props, id: u8) -> Option<Bytes> {
    find(p, id).map(|v| if let PV::X(x) = v { Bytes::copy_from_slice(x) } else { panic!() })
}
fn vs(p: &Props) -> Vec<usize> {
    p.iter().filter(|x| x.0 == 0x0B).map(|v| if let PV::V(x) = v.1 { x as usize } else { panic!() }).collect()
}
fn ups(p: &Props) -> Vec<(String, String)> {
    p.iter()
        .filter(|x| x.0 == 0x26)
        .map(|v| if let PV::P(k, x) = &v.1 { (k.clone(), x.clone()) } else { panic!() })
        .collect()
}

/// Collects a property section; the result is in canonical order.
struct Acc(Props);
impl Acc {
    fn b(&mut self, id: u8, v: Option<u8>) {
        self.0.extend(v.map(|v| (id, PV::B(v))));
    }
    fn w(&mut self, id: u8, v: Option<u16>) {
        self.0.extend(v.map(|v| (id, PV::W(v))));
    }
    fn d(&mut self, id: u8, v: Option<u32>) {
        self.0.extend(v.map(|v| (id, PV::D(v))));
    }
    fn s(&mut self, id: u8, v: &Option<String>) {
        self.0.extend(v.as_ref().map(|v| (id, PV::S(v.clone()))));
    }
    fn x(&mut self, id: u8, v: &Option<Bytes>) {
        self.0.extend(v.as_ref().map(|v| (id, PV::X(v.to_vec()))));
    }
    fn v(&mut self, v: &[usize]) {
        // Values no variable byte integer can hold show up as u32::MAX
        self.0.extend(v.iter().map(|v| (0x0B, PV::V(u32::try_from(*v).unwrap_or(u32::MAX)))));
    }
    fn ups(&mut self, v: &[(String, String)]) {
        self.0.extend(v.iter().map(|(k, v)| (0x26, PV::P(k.clone(), v.clone()))));
    }
    fn done(mut self) -> Props {
        self.0.sort_by_key(|x| x.0);
        self.0
    }
}

pub fn connect_props(p: &Props) -> v5::ConnectProperties {
    v5::ConnectProperties {
        session_expiry_interval: d(p, 0x11),
        receive_maximum: w(p, 0x21),
        max_packet_size: d(p, 0x27),
        topic_alias_max: w(p, 0x22),
        request_response_info: b(p, 0x19),
        request_problem_info: b(p, 0x17),
        user_properties: ups(p),
        authentication_method: s(p, 0x15),
        authentication_data: x(p, 0x16),
    }
}
pub fn from_connect_props(q: &v5::ConnectProperties) -> Props {
    let mut a = Acc(vec![]);
    a.d(0x11, q.session_expiry_interval);
    a.w(0x21, q.receive_maximum);
    a.d(0x27, q.max_packet_size);
    a.w(0x22, q.topic_alias_max);
    a.b(0x19, q.request_response_info);
    a.b(0x17, q.request_problem_info);
    a.ups(&q.user_properties);
    a.s(0x15, &q.authentication_method);
    a.x(0x16, &q.authentication_data);
    a.done()
}
pub fn will_props(p: &Props) -> v5::WillProperties {
    v5::WillProperties {
        delay_interval: d(p, 0x18),
        payload_format_indicator: b(p, 0x01),
        message_expiry_interval: d(p, 0x02),
        content_type: s(p, 0x03),
        response_topic: s(p, 0x08),
        correlation_data: x(p, 0x09),
        user_properties: ups(p),
    }
}
pub fn from_will_props(q: &v5::WillProperties) -> Props {
    let mut a = Acc(vec![]);
    a.d(0x18, q.delay_interval);
    a.b(0x01, q.payload_format_indicator);
    a.d(0x02, q.message_expiry_interval);
    a.s(0x03, &q.content_type);
    a.s(0x08, &q.response_topic);
    a.x(0x09, &q.correlation_data);
    a.ups(&q.user_properties);
    a.done()
}
pub fn connack_props(p: &Props) -> v5::ConnAckProperties {
    v5::ConnAckProperties {
        session_expiry_interval: d(p, 0x11),
        receive_max: w(p, 0x21),
        max_qos: b(p, 0x24),
        retain_available: b(p, 0x25),
        max_packet_size: d(p, 0x27),
        assigned_client_identifier: s(p, 0x12),
        topic_alias_max: w(p, 0x22),
        reason_string: s(p, 0x1F),
        user_properties: ups(p),
        wildcard_subscription_available: b(p, 0x28),
        subscription_identifiers_available: b(p, 0x29),
        shared_subscription_available: b(p, 0x2A),
        server_keep_alive: w(p, 0x13),
        response_information: s(p, 0x1A),
        server_reference: s(p, 0x1C),
        authentication_method: s(p, 0x15),
        authentication_data: x(p, 0x16),
    }
}
pub fn from_connack_props(q: &v5::ConnAckProperties) -> Props {
    let mut a = Acc(vec![]);
    a.d(0x11, q.session_expiry_interval);
    a.w(0x21, q.receive_max);
    a.b(0x24, q.max_qos);
    a.b(0x25, q.retain_available);
    a.d(0x27, q.max_packet_size);
    a.s(0x12, &q.assigned_client_identifier);
    a.w(0x22, q.topic_alias_max);
    a.s(0x1F, &q.reason_string);
    a.ups(&q.user_properties);
    a.b(0x28, q.wildcard_subscription_available);
    a.b(0x29, q.subscription_identifiers_available);
    a.b(0x2A, q.shared_subscription_available);
    a.w(0x13, q.server_keep_alive);
    a.s(0x1A, &q.response_information);
    a.s(0x1C, &q.server_reference);
    a.s(0x15, &q.authentication_method);
    a.x(0x16, &q.authentication_data);
    a.done()
}
pub fn publish_props(p: &Props) -> v5::PublishProperties {
    v5::PublishProperties {
        payload_format_indicator: b(p, 0x01),
        message_expiry_interval: d(p, 0x02),
        topic_alias: w(p, 0x23),
        response_topic: s(p, 0x08),
        correlation_data: x(p, 0x09),
        user_properties: ups(p),
        subscription_identifiers: vs(p),
        content_type: s(p, 0x03),
    }
}
pub fn from_publish_props(q: &v5::PublishProperties) -> Props {
    let mut a = Acc(vec![]);
    a.b(0x01, q.payload_format_indicator);
    a.d(0x02, q.message_expiry_interval);
    a.w(0x23, q.topic_alias);
    a.s(0x08, &q.response_topic);
    a.x(0x09, &q.correlation_data);
    a.ups(&q.user_properties);
    a.v(&q.subscription_identifiers);
    a.s(0x03, &q.content_type);
    a.done()
}
macro_rules! ack_props {
    ($to:ident, $from:ident, $t:ident) => {
        pub fn $to(p: &Props) -> v5::$t {
            v5::$t { reason_string: s(p, 0x1F), user_properties: ups(p) }
        }
        pub fn $from(q: &v5::$t) -> Props {
            let mut a = Acc(vec![]);
            a.s(0x1F, &q.reason_string);
            a.ups(&q.user_properties);
            a.done()
        }
    };
}
ack_props!(puback_props, from_puback_props, PubAckProperties);
ack_props!(pubrec_props, from_pubrec_props, PubRecProperties);
ack_props!(pubrel_props, from_pubrel_props, PubRelProperties);
ack_props!(pubcomp_props, from_pubcomp_props, PubCompProperties);
ack_props!(suback_props, from_suback_props, SubAckProperties);
ack_props!(unsuback_props, from_unsuback_props, UnsubAckProperties);
pub fn subscribe_props(p: &Props) -> v5::SubscribeProperties {
    v5::SubscribeProperties { id: vs(p).last().copied(), user_properties: ups(p) }
}
pub fn from_subscribe_props(q: &v5::SubscribeProperties) -> Props {
    let mut a = Acc(vec![]);
    a.v(q.id.as_slice());
    a.ups(&q.user_properties);
    a.done()
}
pub fn unsubscribe_props(p: &Props) -> v5::UnsubscribeProperties {
    v5::UnsubscribeProperties { user_properties: ups(p) }
}
pub fn from_unsubscribe_props(q: &v5::UnsubscribeProperties) -> Props {
    let mut a = Acc(vec![]);
    a.ups(&q.user_properties);
    a.done()
}
pub fn disconnect_props(p: &Props) -> v5::DisconnectProperties {
    v5::DisconnectProperties {
        session_expiry_interval: d(p, 0x11),
        reason_string: s(p, 0x1F),
        user_properties: ups(p),
        server_reference: s(p, 0x1C),
    }
}
pub fn from_disconnect_props(q: &v5::DisconnectProperties) -> Props {
    let mut a = Acc(vec![]);
    a.d(0x11, q.session_expiry_interval);
    a.s(0x1F, &q.reason_string);
    a.ups(&q.user_properties);
    a.s(0x1C, &q.server_reference);
    a.done()
}

fn opt<T>(p: &Props, k: Knob, f: impl Fn(&Props) -> T) -> Option<T> {
    if p.is_empty() && !k.empty_props {
        None
    } else {
        Some(f(p))
    }
}
fn back<T>(p: &Option<T>, f: impl Fn(&T) -> Props) -> Props {
    p.as_ref().map(f).unwrap_or_default()
}

// --- packets -----------------------------------------------------------------------------------------------------

pub fn proto(level: u8) -> Protocol {
    if level == 4 {
        Protocol::V4
    } else {
        Protocol::V5
    }
}
fn level(p: Protocol) -> u8 {
    match p {
        Protocol::V4 => 4,
        Protocol::V5 => 5,
    }
}

pub fn connect4(c: &Conn, k: Knob) -> v4::Connect {
    v4::Connect {
        protocol: proto(c.level),
        keep_alive: c.keep_alive,
        client_id: c.client_id.clone(),
        clean_session: c.clean,
        last_will: c.will.as_ref().map(|w| v4::LastWill {
            topic: w.topic.clone(),
            message: Bytes::copy_from_slice(&w.msg),
            qos: qos_of(w.qos),
            retain: w.retain,
        }),
        login: if c.user.is_empty() && c.pass.is_empty() && !k.empty_login {
            None
        } else {
            Some(v4::Login { username: c.user.clone(), password: c.pass.clone() })
        },
    }
}
pub fn from_connect4(c: &v4::Connect) -> Conn {
    Conn {
        level: level(c.protocol),
        clean: c.clean_session,
        keep_alive: c.keep_alive,
        props: vec![],
        client_id: c.client_id.clone(),
        will: c.last_will.as_ref().map(|w| Will {
            props: vec![],
            topic: w.topic.clone(),
            msg: w.message.to_vec(),
            qos: qos_num(w.qos),
            retain: w.retain,
        }),
        user: c.login.as_ref().map(|l| l.username.clone()).unwrap_or_default(),
        pass: c.login.as_ref().map(|l| l.password.clone()).unwrap_or_default(),
    }
}
pub fn connect5(c: &Conn, k: Knob) -> v5::Connect {
    v5::Connect {
        protocol: proto(c.level),
        keep_alive: c.keep_alive,
        client_id: c.client_id.clone(),
        clean_session: c.clean,
        last_will: c.will.as_ref().map(|w| v5::LastWill {
            topic: w.topic.clone(),
            message: Bytes::copy_from_slice(&w.msg),
            qos: qos_of(w.qos),
            retain: w.retain,
            properties: opt(&w.props, k, will_props),
        }),
        login: if c.user.is_empty() && c.pass.is_empty() && !k.empty_login {
            None
        } else {
            Some(v5::Login { username: c.user.clone(), password: c.pass.clone() })
        },
        properties: opt(&c.props, k, connect_props),
    }
}
pub fn from_connect5(c: &v5::Connect) -> Conn {
    Conn {
        level: level(c.protocol),
        clean: c.clean_session,
        keep_alive: c.keep_alive,
        props: back(&c.properties, from_connect_props),
        client_id: c.client_id.clone(),
        will: c.last_will.as_ref().map(|w| Will {
            props: back(&w.properties, from_will_props),
            topic: w.topic.clone(),
            msg: w.message.to_vec(),
            qos: qos_num(w.qos),
            retain: w.retain,
        }),
        user: c.login.as_ref().map(|l| l.username.clone()).unwrap_or_default(),
        pass: c.login.as_ref().map(|l| l.password.clone()).unwrap_or_default(),
    }
}

impl CPk {
    pub fn of(ver: Ver, p: &Pk, k: Knob) -> CPk {
        match ver {
            Ver::V4 => CPk::P4(of4(p, k)),
            Ver::V5 => CPk::P5(of5(p, k)),
        }
    }

    /// The meaning of the crate's packet, canonical order, but nothing else normalised.
    pub fn to_pk(&self) -> Pk {
        match self {
            CPk::P4(p) => from4(p),
            CPk::P5(p) => from5(p),
        }
    }

    pub fn write(&self, o: &mut BytesMut) -> Result<usize, Error> {
        tgt(|| match self {
            CPk::P4(p) => match p {
                v4::Packet::Connect(p) => p.write(o),
                v4::Packet::ConnAck(p) => p.write(o),
                v4::Packet::Publish(p) => p.write(o),
                v4::Packet::PubAck(p) => p.write(o),
                v4::Packet::PubRec(p) => p.write(o),
                v4::Packet::PubRel(p) => p.write(o),
                v4::Packet::PubComp(p) => p.write(o),
                v4::Packet::Subscribe(p) => p.write(o),
                v4::Packet::SubAck(p) => p.write(o),
                v4::Packet::Unsubscribe(p) => p.write(o),
                v4::Packet::UnsubAck(p) => p.write(o),
                v4::Packet::PingReq => v4::PingReq.write(o),
                v4::Packet::PingResp => v4::PingResp.write(o),
                v4::Packet::Disconnect => v4::Disconnect.write(o),
            },
            CPk::P5(p) => match p {
                v5::Packet::Connect(p) => p.write(o),
                v5::Packet::ConnAck(p) => p.write(o),
                v5::Packet::Publish(p) => p.write(o),
                v5::Packet::PubAck(p) => p.write(o),
                v5::Packet::PubRec(p) => p.write(o),
                v5::Packet::PubRel(p) => p.write(o),
                v5::Packet::PubComp(p) => p.write(o),
                v5::Packet::Subscribe(p) => p.write(o),
                v5::Packet::SubAck(p) => p.write(o),
                v5::Packet::Unsubscribe(p) => p.write(o),
                v5::Packet::UnsubAck(p) => p.write(o),
                v5::Packet::PingReq => v5::PingReq.write(o),
                v5::Packet::PingResp => v5::PingResp.write(o),
                v5::Packet::Disconnect(p) => p.write(o),
            },
        })
    }

    /// Public `len()` of the packet, where there is one; it is the remaining length.
    pub fn public_len(&self) -> Option<usize> {
        tgt(|| match self {
            CPk::P4(p) => match p {
                v4::Packet::Connect(p) => Some(p.len()),
                v4::Packet::Publish(p) => Some(p.len()),
                v4::Packet::Subscribe(p) => Some(p.len()),
                v4::Packet::SubAck(p) => Some(p.len()),
                _ => None,
            },
            CPk::P5(p) => match p {
                v5::Packet::Connect(p) => Some(p.len()),
                v5::Packet::Publish(p) => Some(p.len()),
                v5::Packet::Subscribe(p) => Some(p.len()),
                v5::Packet::SubAck(p) => Some(p.len()),
                v5::Packet::Unsubscribe(p) => Some(p.len()),
                v5::Packet::UnsubAck(p) => Some(p.len()),
                _ => None,
            },
        })
    }

    /// Public `len()` of the packet's property section, where there is one.
    pub fn public_props_len(&self) -> Option<usize> {
        tgt(|| match self {
            CPk::P4(_) => None,
            CPk::P5(p) => match p {
                v5::Packet::ConnAck(p) => p.properties.as_ref().map(|p| p.len()),
                v5::Packet::PubAck(p) => p.properties.as_ref().map(|p| p.len()),
                v5::Packet::PubRec(p) => p.properties.as_ref().map(|p| p.len()),
                v5::Packet::PubRel(p) => p.properties.as_ref().map(|p| p.len()),
                v5::Packet::PubComp(p) => p.properties.as_ref().map(|p| p.len()),
                v5::Packet::Subscribe(p) => p.properties.as_ref().map(|p| p.len()),
                v5::Packet::SubAck(p) => p.properties.as_ref().map(|p| p.len()),
                v5::Packet::UnsubAck(p) => p.properties.as_ref().map(|p| p.len()),
                _ => None,
            },
        })
    }

    /// The crate's own equality.
    pub fn same(&self, o: &CPk) -> bool {
        tgt(|| match (self, o) {
            (CPk::P4(a), CPk::P4(b)) => a == b,
            (CPk::P5(a), CPk::P5(b)) => a == b,
            _ => false,
        })
    }

    /// The crate's own comparison, both ways round.
    pub fn equals(&self, o: &CPk) -> (bool, bool) {
        #[allow(clippy::partialeq_ne_impl)]
        tgt(|| match (self, o) {
            (CPk::P4(a), CPk::P4(b)) => (a == b, !(a != b)),
            (CPk::P5(a), CPk::P5(b)) => (a == b, !(a != b)),
            _ => (false, false),
        })
    }

    pub fn debug(&self) -> String {
        tgt(|| match self {
            CPk::P4(p) => format!("{:?}", p),
            CPk::P5(p) => format!("{:?}", p),
        })
    }

    pub fn copy(&self) -> CPk {
        tgt(|| match self {
            CPk::P4(p) => CPk::P4(p.clone()),
            CPk::P5(p) => CPk::P5(p.clone()),
        })
    }
}

fn of4(p: &Pk, k: Knob) -> v4::Packet {
    match p {
        Pk::Connect(c) => v4::Packet::Connect(connect4(c, k)),
        Pk::ConnAck { sp, code, .. } => v4::Packet::ConnAck(v4::ConnAck { session_present: *sp, code: ca4_of(*code) }),
        Pk::Publish { dup, qos, retain, topic, pkid, payload, .. } => v4::Packet::Publish(v4::Publish {
            dup: *dup,
            qos: qos_of(*qos),
            retain: *retain,
            topic: topic.clone(),
            pkid: if *qos == 0 && *pkid == 0 { k.stray_pkid } else { *pkid },
            payload: Bytes::copy_from_slice(payload),
        }),
        Pk::Ack { ty, pkid, .. } => {
            let pkid = *pkid;
            match ty {
                4 => v4::Packet::PubAck(v4::PubAck { pkid }),
                5 => v4::Packet::PubRec(v4::PubRec { pkid }),
                6 => v4::Packet::PubRel(v4::PubRel { pkid }),
                _ => v4::Packet::PubComp(v4::PubComp { pkid }),
            }
        }
        Pk::Subscribe { pkid, filters, .. } => v4::Packet::Subscribe(v4::Subscribe {
            pkid: *pkid,
            filters: filters
                .iter()
                .map(|(s, o)| v4::SubscribeFilter { path: s.clone(), qos: qos_of(o & 3) })
                .collect(),
        }),
        Pk::SubAck { pkid, codes, .. } => v4::Packet::SubAck(v4::SubAck {
            pkid: *pkid,
            return_codes: codes.iter().map(|c| sa4_of(*c)).collect(),
        }),
        Pk::Unsubscribe { pkid, filters, .. } => {
            v4::Packet::Unsubscribe(v4::Unsubscribe { pkid: *pkid, topics: filters.clone() })
        }
        Pk::UnsubAck { pkid, .. } => v4::Packet::UnsubAck(v4::UnsubAck { pkid: *pkid }),
        Pk::PingReq => v4::Packet::PingReq,
        Pk::PingResp => v4::Packet::PingResp,
        Pk::Disconnect { .. } => v4::Packet::Disconnect,
    }
}

pub fn from4(p: &v4::Packet) -> Pk {
    let none: Props = vec![];
    match p {
        v4::Packet::Connect(c) => Pk::Connect(from_connect4(c)),
        v4::Packet::ConnAck(c) => Pk::ConnAck { sp: c.session_present, code: ca4_num(c.code), props: none },
        v4::Packet::Publish(p) => Pk::Publish {
            dup: p.dup,
            qos: qos_num(p.qos),
            retain: p.retain,
            topic: p.topic.clone(),
            pkid: p.pkid,
            props: none,
            payload: p.payload.to_vec(),
        },
        v4::Packet::PubAck(a) => Pk::Ack { ty: 4, pkid: a.pkid, reason: 0, props: none },
        v4::Packet::PubRec(a) => Pk::Ack { ty: 5, pkid: a.pkid, reason: 0, props: none },
        v4::Packet::PubRel(a) => Pk::Ack { ty: 6, pkid: a.pkid, reason: 0, props: none },
        v4::Packet::PubComp(a) => Pk::Ack { ty: 7, pkid: a.pkid, reason: 0, props: none },
        v4::Packet::Subscribe(p) => Pk::Subscribe {
            pkid: p.pkid,
            props: none,
            filters: p.filters.iter().map(|f| (f.path.clone(), qos_num(f.qos))).collect(),
        },
        v4::Packet::SubAck(p) => {
            Pk::SubAck { pkid: p.pkid, props: none, codes: p.return_codes.iter().map(|c| sa4_num(*c)).collect() }
        }
        v4::Packet::Unsubscribe(p) => Pk::Unsubscribe { pkid: p.pkid, props: none, filters: p.topics.clone() },
        v4::Packet::UnsubAck(p) => Pk::UnsubAck { pkid: p.pkid, props: none, codes: vec![] },
        v4::Packet::PingReq => Pk::PingReq,
        v4::Packet::PingResp => Pk::PingResp,
        v4::Packet::Disconnect => Pk::Disconnect { reason: 0, props: none },
    }
}

fn of5(p: &Pk, k: Knob) -> v5::Packet {
    match p {
        Pk::Connect(c) => v5::Packet::Connect(connect5(c, k)),
        Pk::ConnAck { sp, code, props } => v5::Packet::ConnAck(v5::ConnAck {
            session_present: *sp,
            code: ca5_of(*code),
            properties: opt(props, k, connack_props),
        }),
        Pk::Publish { dup, qos, retain, topic, pkid, props, payload } => v5::Packet::Publish(v5::Publish {
            dup: *dup,
            qos: qos_of(*qos),
            retain: *retain,
            topic: topic.clone(),
            pkid: if *qos == 0 && *pkid == 0 { k.stray_pkid } else { *pkid },
            properties: opt(props, k, publish_props),
            payload: Bytes::copy_from_slice(payload),
        }),
        Pk::Ack { ty, pkid, reason, props } => {
            let pkid = *pkid;
            match ty {
                4 => v5::Packet::PubAck(v5::PubAck {
                    pkid,
                    reason: pa_of(*reason),
                    properties: opt(props, k, puback_props),
                }),
                5 => v5::Packet::PubRec(v5::PubRec {
                    pkid,
                    reason: pr_of(*reason),
                    properties: opt(props, k, pubrec_props),
                }),
                6 => v5::Packet::PubRel(v5::PubRel {
                    pkid,
                    reason: pl_of(*reason),
                    properties: opt(props, k, pubrel_props),
                }),
                _ => v5::Packet::PubComp(v5::PubComp {
                    pkid,
                    reason: pc_of(*reason),
                    properties: opt(props, k, pubcomp_props),
                }),
            }
        }
        Pk::Subscribe { pkid, props, filters } => v5::Packet::Subscribe(v5::Subscribe {
            pkid: *pkid,
            filters: filters
                .iter()
                .map(|(s, o)| v5::SubscribeFilter {
                    path: s.clone(),
                    qos: qos_of(o & 3),
                    nolocal: o & 4 != 0,
                    preserve_retain: o & 8 != 0,
                    retain_forward_rule: rule_of(o >> 4 & 3),
                })
                .collect(),
            properties: opt(props, k, subscribe_props),
        }),
        Pk::SubAck { pkid, props, codes } => v5::Packet::SubAck(v5::SubAck {
            pkid: *pkid,
            return_codes: codes.iter().map(|c| sa5_of(*c)).collect(),
            properties: opt(props, k, suback_props),
        }),
        Pk::Unsubscribe { pkid, props, filters } => v5::Packet::Unsubscribe(v5::Unsubscribe {
            pkid: *pkid,
            filters: filters.clone(),
            properties: opt(props, k, unsubscribe_props),
        }),
        Pk::UnsubAck { pkid, props, codes } => v5::Packet::UnsubAck(v5::UnsubAck {
            pkid: *pkid,
            reasons: codes.iter().map(|c| ua_of(*c)).collect(),
            properties: opt(props, k, unsuback_props),
        }),
        Pk::PingReq => v5::Packet::PingReq,
        Pk::PingResp => v5::Packet::PingResp,
        Pk::Disconnect { reason, props } => v5::Packet::Disconnect(v5::Disconnect {
            reason_code: dc_of(*reason),
            properties: opt(props, k, disconnect_props),
        }),
    }
}

pub fn from5(p: &v5::Packet) -> Pk {
    match p {
        v5::Packet::Connect(c) => Pk::Connect(from_connect5(c)),
        v5::Packet::ConnAck(c) => Pk::ConnAck {
            sp: c.session_present,
            code: ca5_num(c.code),
            props: back(&c.properties, from_connack_props),
        },
        v5::Packet::Publish(p) => Pk::Publish {
            dup: p.dup,
            qos: qos_num(p.qos),
            retain: p.retain,
            topic: p.topic.clone(),
            pkid: p.pkid,
            props: back(&p.properties, from_publish_props),
            payload: p.payload.to_vec(),
        },
        v5::Packet::PubAck(a) => Pk::Ack {
            ty: 4,
            pkid: a.pkid,
            reason: pa_num(a.reason),
            props: back(&a.properties, from_puback_props),
        },
        v5::Packet::PubRec(a) => Pk::Ack {
            ty: 5,
            pkid: a.pkid,
            reason: pr_num(a.reason),
            props: back(&a.properties, from_pubrec_props),
        },
        v5::Packet::PubRel(a) => Pk::Ack {
            ty: 6,
            pkid: a.pkid,
            reason: pl_num(a.reason),
            props: back(&a.properties, from_pubrel_props),
        },
        v5::Packet::PubComp(a) => Pk::Ack {
            ty: 7,
            pkid: a.pkid,
            reason: pc_num(a.reason),
            props: back(&a.properties, from_pubcomp_props),
        },
        v5::Packet::Subscribe(p) => Pk::Subscribe {
            pkid: p.pkid,
            props: back(&p.properties, from_subscribe_props),
            filters: p
                .filters
                .iter()
                .map(|f| {
                    let o = qos_num(f.qos)
                        | (f.nolocal as u8) << 2
                        | (f.preserve_retain as u8) << 3
                        | rule_num(&f.retain_forward_rule) << 4;
                    (f.path.clone(), o)
                })
                .collect(),
        },
        v5::Packet::SubAck(p) => Pk::SubAck {
            pkid: p.pkid,
            props: back(&p.properties, from_suback_props),
            codes: p.return_codes.iter().map(|c| sa5_num(*c)).collect(),
        },
        v5::Packet::Unsubscribe(p) => Pk::Unsubscribe {
            pkid: p.pkid,
            props: back(&p.properties, from_unsubscribe_props),
            filters: p.filters.clone(),
        },
        v5::Packet::UnsubAck(p) => Pk::UnsubAck {
            pkid: p.pkid,
            props: back(&p.properties, from_unsuback_props),
            codes: p.reasons.iter().map(|c| ua_num(*c)).collect(),
        },
        v5::Packet::PingReq => Pk::PingReq,
        v5::Packet::PingResp => Pk::PingResp,
        v5::Packet::Disconnect(p) => Pk::Disconnect {
            reason: dc_num(p.reason_code),
            props: back(&p.properties, from_disconnect_props),
        },
    }
}

// --- reading -----------------------------------------------------------------------------------------------------

pub const MAX: usize = 268_435_455;

pub fn check(b: &[u8], max: usize) -> Result<FixedHeader, Error> {
    tgt(|| mqttbytes::check(b.iter(), max))
}

pub fn read(ver: Ver, s: &mut BytesMut, max: usize) -> Result<CPk, Error> {
    tgt(|| match ver {
        Ver::V4 => v4::read(s, max).map(CPk::P4),
        Ver::V5 => v5::read(s, max).map(CPk::P5),
    })
}

/// Reads one frame from a copy of `b`; the rest is dropped.
pub fn read_frame(ver: Ver, b: &[u8]) -> Result<CPk, Error> {
    let mut s = BytesMut::from(b);
    read(ver, &mut s, MAX)
}

/// Reads a frame with the individual packet readers. `None` where the crate has none for the type.
pub fn read_direct(ver: Ver, h: FixedHeader, ty: u8, f: Bytes) -> Option<Result<CPk, Error>> {
    use CPk::*;
    Some(tgt(|| match (ver, ty) {
        (Ver::V4, 1) => v4::Connect::read(h, f).map(v4::Packet::Connect).map(P4),
        (Ver::V4, 2) => v4::ConnAck::read(h, f).map(v4::Packet::ConnAck).map(P4),
        (Ver::V4, 3) => v4::Publish::read(h, f).map(v4::Packet::Publish).map(P4),
        (Ver::V4, 4) => v4::PubAck::read(h, f).map(v4::Packet::PubAck).map(P4),
        (Ver::V4, 5) => v4::PubRec::read(h, f).map(v4::Packet::PubRec).map(P4),
        (Ver::V4, 6) => v4::PubRel::read(h, f).map(v4::Packet::PubRel).map(P4),
        (Ver::V4, 7) => v4::PubComp::read(h, f).map(v4::Packet::PubComp).map(P4),
        (Ver::V4, 8) => v4::Subscribe::read(h, f).map(v4::Packet::Subscribe).map(P4),
        (Ver::V4, 9) => v4::SubAck::read(h, f).map(v4::Packet::SubAck).map(P4),
        (Ver::V4, 10) => v4::Unsubscribe::read(h, f).map(v4::Packet::Unsubscribe).map(P4),
        (Ver::V4, 11) => v4::UnsubAck::read(h, f).map(v4::Packet::UnsubAck).map(P4),
        (Ver::V5, 1) => v5::Connect::read(h, f).map(v5::Packet::Connect).map(P5),
        (Ver::V5, 2) => v5::ConnAck::read(h, f).map(v5::Packet::ConnAck).map(P5),
        (Ver::V5, 3) => v5::Publish::read(h, f).map(v5::Packet::Publish).map(P5),
        (Ver::V5, 4) => v5::PubAck::read(h, f).map(v5::Packet::PubAck).map(P5),
        (Ver::V5, 5) => v5::PubRec::read(h, f).map(v5::Packet::PubRec).map(P5),
        (Ver::V5, 6) => v5::PubRel::read(h, f).map(v5::Packet::PubRel).map(P5),
        (Ver::V5, 7) => v5::PubComp::read(h, f).map(v5::Packet::PubComp).map(P5),
        (Ver::V5, 8) => v5::Subscribe::read(h, f).map(v5::Packet::Subscribe).map(P5),
        (Ver::V5, 9) => v5::SubAck::read(h, f).map(v5::Packet::SubAck).map(P5),
        (Ver::V5, 10) => v5::Unsubscribe::read(h, f).map(v5::Packet::Unsubscribe).map(P5),
        (Ver::V5, 11) => v5::UnsubAck::read(h, f).map(v5::Packet::UnsubAck).map(P5),
        (Ver::V5, 14) => v5::Disconnect::read(h, f).map(v5::Packet::Disconnect).map(P5),
        _ => Err(Error::IncorrectPacketFormat),
    }))
    .filter(|_| has_reader(ver, ty))
}

pub fn has_reader(ver: Ver, ty: u8) -> bool {
    (1..=11).contains(&ty) || (ver == Ver::V5 && ty == 14)
}

/// Reads a property section (length field included) with the public extractor for the place, if there is one.
pub fn extract(loc: Loc, ty: u8, b: &mut Bytes) -> Option<Result<Props, Error>> {
    Some(tgt(|| match (loc, ty) {
        (Loc::ConnAck, _) => v5::ConnAckProperties::extract(b).map(|p| back(&p, from_connack_props)),
        (Loc::Ack, 4) => v5::PubAckProperties::extract(b).map(|p| back(&p, from_puback_props)),
        (Loc::Ack, 5) => v5::PubRecProperties::extract(b).map(|p| back(&p, from_pubrec_props)),
        (Loc::Ack, 6) => v5::PubRelProperties::extract(b).map(|p| back(&p, from_pubrel_props)),
        (Loc::Ack, _) => v5::PubCompProperties::extract(b).map(|p| back(&p, from_pubcomp_props)),
        (Loc::Subscribe, _) => v5::SubscribeProperties::extract(b).map(|p| back(&p, from_subscribe_props)),
        (Loc::SubAck, _) => v5::SubAckProperties::extract(b).map(|p| back(&p, from_suback_props)),
        (Loc::UnsubAck, _) => v5::UnsubAckProperties::extract(b).map(|p| back(&p, from_unsuback_props)),
        (Loc::Disconnect, _) => v5::DisconnectProperties::extract(b).map(|p| back(&p, from_disconnect_props)),
        _ => Err(Error::IncorrectPacketFormat),
    }))
    .filter(|_| !matches!(loc, Loc::Connect | Loc::Will | Loc::Publish | Loc::Unsubscribe))
}

/// The code an error carries, if its kind carries one.
pub fn named(e: &Error) -> Option<u8> {
    match e {
        Error::InvalidConnectReturnCode(x)
        | Error::InvalidReason(x)
        | Error::InvalidProtocolLevel(x)
        | Error::InvalidPacketType(x)
        | Error::InvalidPropertyType(x)
        | Error::InvalidRetainForwardRule(x)
        | Error::InvalidQoS(x)
        | Error::InvalidSubscribeReasonCode(x) => Some(*x),
        _ => None,
    }
}
