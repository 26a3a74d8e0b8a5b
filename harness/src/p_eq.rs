//! C32: packets, codes, headers and errors compare and clone by their contents, judged by field-by-field comparison of
//! the same values.

use crate::conv::*;
use crate::gen::*;
use crate::mon::*;
use crate::p_codec::*;
use crate::refm::*;
use crate::rng::{hash, Rng};
use mqttbytes::{v4, v5, Error, FixedHeader, PacketType, Protocol, QoS};

fn near_text(r: &mut Rng, s: &str) -> String {
    let mut v: Vec<char> = s.chars().collect();
    let i = if v.is_empty() { 0 } else { *r.pick(&[0, v.len() - 1, r.clone().below(v.len())]) };
    match r.below(5) {
        0 => v.push('z'),
        1 if !v.is_empty() => {
            v.remove(i);
        }
        2 if v.len() > 1 => {
            let j = r.below(v.len());
            v.swap(i, j)
        }
        3 if !v.is_empty() && v[i].is_ascii_alphabetic() => v[i] = ((v[i] as u8) ^ 32) as char,
        _ if !v.is_empty() => v[i] = if v[i] == 'q' { 'r' } else { 'q' },
        _ => v.push('y'),
    }
    let s: String = v.into_iter().collect();
    if s.len() > 65535 {
        "x".into()
    } else {
        s
    }
}

fn near_bytes(r: &mut Rng, v: &mut Vec<u8>) {
    if v.is_empty() {
        return v.push(r.next() as u8);
    }
    let i = *r.pick(&[0, v.len() - 1, r.clone().below(v.len())]);
    match r.below(4) {
        0 if v.len() < 65535 => v.push(0),
        1 => {
            v.remove(i);
        }
        2 => {
            let j = r.below(v.len());
            v.swap(i, j)
        }
        _ => v[i] ^= 1 << r.below(8),
    }
}

fn near_list<T: Clone>(r: &mut Rng, v: &mut Vec<T>, one: impl FnOnce(&mut Rng, &mut T)) {
    if v.is_empty() {
        return;
    }
    let i = r.below(v.len());
    match r.below(5) {
        0 if v.len() > 1 => {
            v.remove(i);
        }
        1 => v.push(v[i].clone()),
        2 => {
            let j = r.below(v.len());
            v.swap(i, j)
        }
        _ => one(r, &mut v[i]),
    }
}

fn near_props(r: &mut Rng, p: &mut Props, loc: Loc) {
    if p.is_empty() || r.p(1, 5) {
        let id = *r.pick(allowed(loc));
        if !p.iter().any(|x| x.0 == id) || id == 38 {
            let v = Gen::new(r, true).budget(20).value(loc, id);
            p.push((id, v))
        }
        return;
    }
    near_list(r, p, |r, (id, v)| match v {
        PV::B(x) => *x ^= 1,
        PV::W(x) => *x ^= 1 << r.below(16),
        PV::D(x) => *x ^= 1 << r.below(32),
        PV::V(x) => *x = (*x ^ 1 << r.below(28)).max(1),
        PV::S(s) => *s = near_text(r, s),
        PV::X(x) => near_bytes(r, x),
        PV::P(a, b) => {
            let _ = id;
            if r.bool() {
                *a = near_text(r, a)
            } else {
                *b = near_text(r, b)
            }
        }
    })
}

const CA5: &[u8] = &[0, 128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 140, 144, 149, 151, 153, 154, 155, 156, 157, 159];
const PA: &[u8] = &[0, 16, 128, 131, 135, 144, 145, 151, 153];
const PL: &[u8] = &[0, 0x92];
const SA5: &[u8] = &[0, 1, 2, 128, 131, 135, 143, 145, 151, 158, 161, 162];
const UA: &[u8] = &[0, 17, 128, 131, 135, 143, 145];
const DC: &[u8] = &[
    0, 4, 128, 129, 130, 131, 135, 137, 139, 141, 142, 143, 144, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 161, 162,
];

/// A packet of the same type that differs from this one in one place, or not at all.
fn near(r: &mut Rng, ver: Ver, pk: &mut Pk) {
    let v5 = ver == Ver::V5;
    let place = r.below(9);
    if v5 && place < 3 {
        let loc = match pk {
            Pk::Connect(c) if c.level == 4 => None,
            Pk::Connect(_) => Some(Loc::Connect),
            Pk::ConnAck { .. } => Some(Loc::ConnAck),
            Pk::Publish { .. } => Some(Loc::Publish),
            Pk::Ack { .. } => Some(Loc::Ack),
            Pk::Subscribe { .. } => Some(Loc::Subscribe),
            Pk::SubAck { .. } => Some(Loc::SubAck),
            Pk::Unsubscribe { .. } => Some(Loc::Unsubscribe),
            Pk::UnsubAck { .. } => Some(Loc::UnsubAck),
            Pk::Disconnect { .. } => Some(Loc::Disconnect),
            _ => None,
        };
        if let Some(loc) = loc {
            return near_props(r, pk.props_mut().unwrap(), loc);
        }
    }
    match pk {
        Pk::Connect(c) => match place {
            0 => c.clean = !c.clean,
            1 => c.keep_alive ^= 1 << r.below(16),
            2 | 3 => c.client_id = near_text(r, &c.client_id),
            4 => c.user = near_text(r, &c.user),
            5 => c.pass = near_text(r, &c.pass),
            _ => match &mut c.will {
                None => c.will = Some(Will { props: vec![], topic: "w".into(), msg: vec![], qos: 0, retain: false }),
                Some(w) => match r.below(6) {
                    0 => c.will = None,
                    1 => w.topic = near_text(r, &w.topic),
                    2 => near_bytes(r, &mut w.msg),
                    3 => w.qos = (w.qos + 1) % 3,
                    4 if c.level == 5 => near_props(r, &mut w.props, Loc::Will),
                    _ => w.retain = !w.retain,
                },
            },
        },
        Pk::ConnAck { sp, code, .. } => {
            if place & 1 == 0 {
                *sp = !*sp
            } else {
                *code = if v5 { *r.pick(CA5) } else { r.below(6) as u8 }
            }
        }
        Pk::Publish { dup, qos, retain, topic, pkid, payload, .. } => match place {
            0 => *dup = !*dup,
            1 => *retain = !*retain,
            2 => *qos = (*qos + 1) % 3,
            3 => *pkid ^= 1 << r.below(16),
            4 | 5 => *topic = near_text(r, topic),
            _ => near_bytes(r, payload),
        },
        Pk::Ack { ty, pkid, reason, .. } => {
            if !v5 || place & 1 == 0 {
                *pkid ^= 1 << r.below(16)
            } else {
                *reason = *r.pick(if *ty < 6 { PA } else { PL })
            }
        }
        Pk::Subscribe { pkid, filters, .. } => {
            if place == 3 {
                *pkid ^= 1 << r.below(16)
            } else {
                near_list(r, filters, |r, f| match r.below(5) {
                    0 => f.1 = f.1 & !3 | (f.1 & 3).wrapping_add(1) % 3,
                    1 if v5 => f.1 ^= 4,
                    2 if v5 => f.1 ^= 8,
                    3 if v5 => f.1 = f.1 & 15 | (f.1 >> 4).wrapping_add(1) % 3 << 4,
                    _ => f.0 = near_text(r, &f.0),
                })
            }
        }
        Pk::SubAck { pkid, codes, .. } => {
            if place == 3 {
                *pkid ^= 1 << r.below(16)
            } else {
                near_list(r, codes, |r, c| *c = *r.pick(if v5 { SA5 } else { &[0, 1, 2, 128] }))
            }
        }
        Pk::Unsubscribe { pkid, filters, .. } => {
            if place == 3 {
                *pkid ^= 1 << r.below(16)
            } else {
                near_list(r, filters, |r, f| *f = near_text(r, f))
            }
        }
        Pk::UnsubAck { pkid, codes, .. } => {
            if place == 3 || codes.is_empty() {
                *pkid ^= 1 << r.below(16)
            } else {
                near_list(r, codes, |r, c| *c = *r.pick(UA))
            }
        }
        Pk::Disconnect { reason, .. } if v5 => *reason = *r.pick(DC),
        _ => {}
    }
}

/// `==`, `!=` and `clone` of two values, which are what `to_pk` and the knob say.
fn verdict(cx: &mut Cx, how: &str, ver: Ver, a: &CPk, b: &CPk) -> Option<bool> {
    let want = a.to_pk() == b.to_pk();
    let show = || format!("{:?} {} {} and {}", ver, how, cut(&a.to_pk()), cut(&b.to_pk()));
    for (x, y) in [(a, b), (b, a)] {
        let (eq, not_ne) = x.equals(y);
        if eq != want || not_ne != want {
            let d = if want { "the same fields" } else { "different fields" };
            cx.fail(format!("packets with {} compare {} by == and {} by !=: {}", d, eq, !not_ne, show()));
            return None;
        }
    }
    for x in [a, b] {
        let c = x.copy();
        if c.to_pk() != x.to_pk() || c.equals(x) != (true, true) || x.equals(&c) != (true, true) {
            cx.fail(format!("a clone differs from its original: {:?} {} {} cloned as {}", ver, how, cut(&x.to_pk()), cut(&c.to_pk())));
            return None;
        }
    }
    Some(want)
}

fn pair(cx: &mut Cx, ver: Ver, p: &Pk, q: &Pk) {
    let k = Knob { empty_props: cx.rng.p(1, 4), empty_login: cx.rng.p(1, 4), stray_pkid: 0 };
    let (a, b) = (CPk::of(ver, p, k), CPk::of(ver, q, k));
    let want = match verdict(cx, "constructed", ver, &a, &b) {
        Some(w) => w,
        None => return,
    };
    cx.ev(if want { "equal pairs" } else { "different pairs" });
    cx.ev(type_name(p.ty()));
    cx.seen(hash(format!("{:?} {:?}", p, q).as_bytes()));
    cx.sample(|| format!("{:?} {} {} {}", ver, cut(p), if want { "==" } else { "!=" }, cut(q)));
    // the same two off the wire
    let (x, y) = (encode(ver, p, Form::default()), encode(ver, q, Form::default()));
    let reads = |e: &Enc| matches!(decode(ver, &e.bytes), Verdict::Accept(_)).then(|| read_frame(ver, &e.bytes).ok()).flatten();
    if let (Some(c), Some(d)) = (reads(&x), reads(&y)) {
        if verdict(cx, "read", ver, &c, &d).is_some() {
            cx.ev("pairs read and compared");
        }
    }
}

fn eq_near(cx: &mut Cx) {
    let ver = any_ver(&mut cx.rng);
    let conf = cx.rng.p(3, 4);
    let p = Gen::new(&mut cx.rng, conf).packet(ver);
    let mut q = p.clone();
    if cx.rng.p(2, 3) {
        near(&mut cx.rng, ver, &mut q)
    }
    pair(cx, ver, &p, &q)
}

/// Another packet of the same type, with few values to choose from.
fn eq_small(cx: &mut Cx) {
    let ver = any_ver(&mut cx.rng);
    let ty = (cx.idx % 14 + 1) as u8;
    let p = Gen::new(&mut cx.rng, true).budget(2).packet_of(ver, ty);
    let ty = if cx.rng.p(1, 30) { cx.rng.range(1, 14) as u8 } else { ty };
    let q = Gen::new(&mut cx.rng, true).budget(2).packet_of(ver, ty);
    pair(cx, ver, &p, &q)
}

fn eq_mask(cx: &mut Cx) {
    let p = mask_case(cx, true);
    let mut q = p.clone();
    let r = &mut cx.rng;
    match &mut q {
        Pk::Connect(c) if c.level == 5 && c.will.as_ref().is_some_and(|w| !w.props.is_empty()) && r.bool() => near_props(r, &mut c.will.as_mut().unwrap().props, Loc::Will),
        q => near(r, Ver::V5, q),
    }
    pair(cx, Ver::V5, &p, &q)
}

fn eq_size(cx: &mut Cx) {
    let ver = any_ver(&mut cx.rng);
    if let Some(p) = size_case(cx, ver, true, EDGES) {
        let mut q = p.clone();
        if cx.rng.p(5, 6) {
            near(&mut cx.rng, ver, &mut q)
        }
        pair(cx, ver, &p, &q)
    }
}

fn eq_giants(cx: &mut Cx) {
    let (ver, p) = giant_any(cx);
    pair(cx, ver, &p, &p.clone());
    for _ in 0..4 {
        let mut q = p.clone();
        near(&mut cx.rng, ver, &mut q);
        pair(cx, ver, &p, &q)
    }
}

/// Every pair of codes of each kind.
fn eq_codes(cx: &mut Cx) {
    fn all<T: PartialEq + Clone>(cx: &mut Cx, what: &str, codes: &[u8], of: impl Fn(u8) -> T) {
        for a in codes {
            for b in codes {
                let (x, y) = (of(*a), of(*b));
                #[allow(clippy::partialeq_ne_impl)]
                let (eq, ne, cl) = tgt(|| (x == y, x != y, x.clone() == y));
                if eq != (a == b) || ne == eq || cl != eq {
                    cx.fail(format!("{}: {} and {} compare {} by ==, {} by !=, cloned {}", what, a, b, eq, ne, cl));
                }
                cx.ev("codes compared");
            }
        }
        cx.seen(hash(what.as_bytes()));
    }
    all(cx, "QoS", &[0, 1, 2], qos_of);
    all(cx, "v4 ConnectReturnCode", &[0, 1, 2, 3, 4, 5], ca4_of);
    all(cx, "v5 ConnectReturnCode", CA5, ca5_of);
    all(cx, "PubAckReason", PA, pa_of);
    all(cx, "PubRecReason", PA, pr_of);
    all(cx, "PubRelReason", PL, pl_of);
    all(cx, "PubCompReason", PL, pc_of);
    all(cx, "v4 SubscribeReasonCode", &[0, 1, 2, 128], sa4_of);
    all(cx, "v5 SubscribeReasonCode", SA5, sa5_of);
    all(cx, "UnsubAckReason", UA, ua_of);
    all(cx, "DisconnectReasonCode", DC, dc_of);
    all(cx, "RetainForwardRule", &[0, 1, 2], rule_of);
    all(cx, "v4 RetainForwardRule", &[0, 1, 2], |n| match n {
        0 => v4::RetainForwardRule::OnEverySubscribe,
        1 => v4::RetainForwardRule::OnNewSubscribe,
        _ => v4::RetainForwardRule::Never,
    });
    all(cx, "Protocol", &[4, 5], |n| if n == 4 { Protocol::V4 } else { Protocol::V5 });
    let types: Vec<u8> = (1..=14).collect();
    all(cx, "PacketType", &types, |n| FixedHeader::new(n << 4, 1, 0).packet_type().unwrap());
    for a in 0..3 {
        for b in 0..3 {
            let (x, y) = (qos_of(a), qos_of(b));
            let o = tgt(|| (x < y, x <= y, x > y, x >= y, x.partial_cmp(&y)));
            if o != (a < b, a <= b, a > b, a >= b, Some(a.cmp(&b))) {
                cx.fail(format!("{:?} and {:?} are ordered {:?} (<, <=, >, >=)", x, y, o));
            }
            cx.ev("codes compared");
        }
    }
    let _ = (v5::RetainForwardRule::Never, QoS::AtMostOnce);
}

/// What an error says, in numbers of our own.
fn error(kind: usize, n: u64) -> ((usize, u64), Error) {
    let b = n as u8;
    let u = n as usize;
    let e = match kind {
        0 => return ((0, n % 14), Error::NotConnect(FixedHeader::new(((n % 14 + 1) as u8) << 4, 1, 0).packet_type().unwrap())),
        1 => Error::InvalidConnectReturnCode(b),
        2 => Error::InvalidReason(b),
        3 => Error::InvalidProtocolLevel(b),
        4 => Error::InvalidPacketType(b),
        5 => Error::InvalidPropertyType(b),
        6 => Error::InvalidRetainForwardRule(b),
        7 => Error::InvalidQoS(b),
        8 => Error::InvalidSubscribeReasonCode(b),
        9 => return ((9, u as u64), Error::PayloadSizeLimitExceeded(u)),
        10 => return ((10, u as u64), Error::BoundaryCrossed(u)),
        11 => return ((11, u as u64), Error::InsufficientBytes(u)),
        12 => return ((12, 0), Error::UnexpectedConnect),
        13 => return ((13, 0), Error::InvalidProtocol),
        14 => return ((14, 0), Error::IncorrectPacketFormat),
        15 => return ((15, 0), Error::PacketIdZero),
        16 => return ((16, 0), Error::SubscriptionIdZero),
        17 => return ((17, 0), Error::PayloadSizeIncorrect),
        18 => return ((18, 0), Error::PayloadTooLong),
        19 => return ((19, 0), Error::PayloadRequired),
        20 => return ((20, 0), Error::TopicNotUtf8),
        21 => return ((21, 0), Error::MalformedPacket),
        22 => return ((22, 0), Error::MalformedRemainingLength),
        _ => return ((23, 0), Error::EmptySubscription),
    };
    ((kind, b as u64), e)
}

fn eq_errors(cx: &mut Cx) {
    let r = &mut cx.rng;
    let ka = r.below(24);
    let kb = if r.p(3, 4) { ka } else { r.below(24) };
    let na = r.next() >> r.below(60);
    let nb = match r.below(4) {
        0 => na,
        1 => na ^ 1 << r.below(64),
        2 => r.next() & 255,
        _ => r.next(),
    };
    let ((ia, a), (ib, b)) = (error(ka, na), error(kb, nb));
    let want = ia == ib;
    #[allow(clippy::clone_on_copy)]
    let (eq, ne, cl) = tgt(|| (a == b, a != b, a.clone() == b));
    if eq != want || ne == want || cl != want {
        cx.fail(format!("{:?} and {:?} compare {} by ==, {} by !=, cloned {}", a, b, eq, ne, cl));
    }
    cx.ev("errors compared");
    cx.seen(hash(format!("{:?} {:?}", a, b).as_bytes()));
}

fn eq_headers(cx: &mut Cx) {
    let r = &mut cx.rng;
    let one = |r: &mut Rng| (r.next() as u8, r.range(1, 4), (r.next() as usize & 0xfff_ffff) >> r.below(28));
    let x = one(r);
    let mut y = if r.p(1, 8) { one(r) } else { x };
    match r.below(5) {
        0 => y.0 ^= 1 << r.below(8),
        1 => y.1 = r.range(1, 4),
        2 => y.2 ^= 1 << r.below(28),
        _ => {}
    }
    let (a, b) = (FixedHeader::new(x.0, x.1, x.2), FixedHeader::new(y.0, y.1, y.2));
    let want = x == y;
    #[allow(clippy::clone_on_copy)]
    let (eq, ne, cl) = tgt(|| (a == b, a != b, a.clone() == b));
    if eq != want || ne == want || cl != want {
        cx.fail(format!("fixed headers {:?} and {:?} compare {} by ==, {} by !=, cloned {}", a, b, eq, ne, cl));
    }
    let _ = PacketType::Connect;
    cx.ev("headers compared");
    cx.seen(hash(format!("{:?} {:?}", a, b).as_bytes()));
}

pub fn checks() -> Vec<Check> {
    let m = mask_total();
    let mut require: Vec<_> = (1..=14).map(|t| (type_name(t), 200)).collect();
    require.extend([
        ("equal pairs", 50_000),
        ("different pairs", 50_000),
        ("pairs read and compared", 50_000),
        ("codes compared", 1_000),
        ("errors compared", 10_000),
        ("headers compared", 10_000),
    ]);
    vec![Check {
        id: "C32",
        rule: "Pairs of packets: equal ones, ones that differ in one field, flag, byte, property or list element, and pairs from few values; constructed, and read from their encodings. All pairs of codes of every kind; random pairs of errors and fixed headers. Distinct by the pair.",
        workloads: vec![
            wl("one difference", 150_000, 20_000_000, eq_near),
            wl("few values", 60_000, 6_000_000, eq_small),
            wl("property subsets", m, 10 * m, eq_mask),
            wl("sizes", 4_000, 200_000, eq_size),
            heavy("giants", 23, 230, eq_giants),
            heavy("codes", 1, 1, eq_codes),
            wl("errors", 30_000, 3_000_000, eq_errors),
            wl("headers", 30_000, 3_000_000, eq_headers),
        ],
        require,
        assumptions: vec!["conversion table conv.rs names every field"],
        exhaustive: "every pair of codes, QoS levels, packet types and protocols",
    }]
}
