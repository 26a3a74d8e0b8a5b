//! C18, C19, C26, C27, C30: the writers, the builders, credentials, and 3.1.1 CONNECTs in the version 5 module.

use crate::conv::*;
use crate::gen::*;
use crate::mon::*;
use crate::p_codec::*;
use crate::refm::*;
use crate::rng::{hash, mix, Rng};
use bytes::{Buf, BufMut, Bytes, BytesMut};
use mqttbytes::{v4, v5, Error, Protocol, QoS};

fn some_packet(cx: &mut Cx) -> (Ver, Pk) {
    let ver = any_ver(&mut cx.rng);
    if cx.rng.p(1, 12) {
        if let Some(p) = size_case(cx, ver, false, EDGES) {
            return (ver, p);
        }
    }
    let conf = cx.rng.bool();
    let ty = if cx.rng.bool() { Some((cx.idx % 14 + 1) as u8) } else { None };
    let l4 = cx.rng.p(1, 4);
    let mut g = Gen::new(&mut cx.rng, conf);
    if l4 {
        g = g.l4();
    }
    let pk = match ty {
        Some(t) => g.packet_of(ver, t),
        None => g.packet(ver),
    };
    (ver, pk)
}

fn knob(r: &mut Rng) -> Knob {
    any_knob(r)
}

// --- C18 ---------------------------------------------------------------------------------------------------------

/// A buffer with something in it already; also what that is.
fn queued(r: &mut Rng, need: usize) -> (BytesMut, Vec<u8>) {
    let n = match r.below(10) {
        _ if r.p(1, 400) => *r.pick(&[65_535, 65_536, 65_537, 131_072]) + r.below(300),
        0 => 0,
        1..=5 => r.range(1, 40),
        6 => r.range(1, 300),
        7 => r.range(16000, 17000),
        8 => *r.pick(&[1, 2, 126, 127, 128, 129, 255, 256, 257]),
        _ => r.range(1, 5000),
    };
    let mut v = vec![0; n];
    match r.below(5) {
        0 => {}
        1 => v.fill(0xFF),
        2 | 3 => {
            let mut w = vec![];
            while w.len() < n {
                let ver = any_ver(r);
                w.extend(any_frame(r, ver));
            }
            w.truncate(n);
            v = w;
        }
        _ => r.fill(&mut v),
    }
    let b = match r.below(9) {
        0 => BytesMut::from(&v[..]),
        1 => {
            let mut b = BytesMut::with_capacity(n);
            b.put_slice(&v);
            b
        }
        2 => {
            let mut b = BytesMut::with_capacity(n + need);
            b.put_slice(&v);
            b
        }
        3 => {
            let mut b = BytesMut::with_capacity(n + need + 1000);
            b.put_slice(&v);
            b
        }
        4 => {
            // the front was consumed
            let k = r.range(1, 2000);
            let mut b = BytesMut::with_capacity(k + n + r.below(need + 10));
            b.put_bytes(0xA5, k);
            b.put_slice(&v);
            b.advance(k);
            b
        }
        5 => {
            // the front was handed out and is still alive for a moment
            let k = r.range(1, 200);
            let mut b = BytesMut::with_capacity(k + n + r.below(need + 10));
            b.put_bytes(0xA5, k);
            b.put_slice(&v);
            let f = b.split_to(k);
            if r.bool() {
                std::mem::forget(f.clone());
            }
            b
        }
        6 => {
            // the rest of the allocation belongs to another buffer
            let mut b = BytesMut::with_capacity(n + 64);
            b.put_slice(&v);
            b.put_bytes(0x5A, 64);
            let _rest = b.split_off(n);
            b
        }
        7 => {
            let mut b = BytesMut::new();
            b.reserve(need / 2);
            b.put_slice(&v);
            b
        }
        _ => {
            // spare capacity full of old bytes
            let mut b = BytesMut::with_capacity(n + need + 20);
            b.put_bytes(0xEE, n + need + 20);
            b.clear();
            b.put_slice(&v);
            b
        }
    };
    assert_eq!(&b[..], &v[..]);
    (b, v)
}

fn append(cx: &mut Cx, ver: Ver, pk: &Pk) {
    let k = knob(&mut cx.rng);
    let v = CPk::of(ver, pk, k);
    let mut base = BytesMut::new();
    let n = match v.write(&mut base) {
        Ok(n) => n,
        Err(_) => return cx.ev("not written"), // C07, C08 and C19
    };
    let what = || format!("{:?} {}", ver, cut(pk));
    if n != base.len() {
        return cx.fail(format!("write returned {} and appended {} bytes: {}", n, base.len(), what()));
    }
    let rem = match framing(&base) {
        Fr::Known(h, r) if h + r == base.len() => r,
        f => return cx.fail(format!("write appended {} bytes that are not one frame ({:?}): {} -> {}", n, f, what(), hex(&base))),
    };
    if let Some(l) = v.public_len() {
        if l != rem {
            return cx.fail(format!("len() is {}, the remaining length written is {}: {} -> {}", l, rem, what(), hex(&base)));
        }
        cx.ev("public lengths compared");
    }
    if let Some(l) = v.public_props_len() {
        let e = encode_props(pk.props().unwrap());
        let mut z = 0;
        while e[z] & 0x80 != 0 {
            z += 1;
        }
        if l != e.len() - z - 1 {
            return cx.fail(format!("len() of the properties is {} instead of {}: {}", l, e.len() - z - 1, what()));
        }
        cx.ev("public property lengths compared");
    }
    cx.ev(type_name(pk.ty()));
    cx.seen_bytes(&base);
    for _ in 0..3 {
        let (mut b, old) = queued(&mut cx.rng, base.len());
        let r = v.write(&mut b);
        if r != Ok(n) {
            return cx.fail(format!("write returned {:?} with {} bytes queued and Ok({}) with none: {}", r, old.len(), n, what()));
        }
        if b.len() < old.len() || b[..old.len()] != old[..] {
            return cx.fail(format!("write changed what was queued: {} -> before {} after {}", what(), hex(&old), hex(&b)));
        }
        if b[old.len()..] != base[..] {
            return cx.fail(format!("what is written depends on the buffer: {} -> {} when empty, {} behind {}", what(), hex(&base), hex(&b[old.len()..]), hex(&old)));
        }
        cx.ev("writes behind queued bytes");
    }
    cx.sample(|| format!("{} -> {} bytes", what(), n));
}

fn app_random(cx: &mut Cx) {
    let (ver, pk) = some_packet(cx);
    append(cx, ver, &pk)
}
fn app_giants(cx: &mut Cx) {
    let (ver, pk) = giant_any(cx);
    append(cx, ver, &pk)
}
/// Behind megabytes that wait to be sent.
fn app_behind(cx: &mut Cx) {
    let r = &mut cx.rng;
    let n = match r.below(4) {
        0 => r.range(65_536, 140_000),
        1 => (1 << 24) + r.below(300),
        2 => (1 << r.range(17, 25)) + r.below(5) - 2,
        _ => r.range(100_000, 20 << 20),
    };
    let mut old = vec![0; n];
    r.fill(&mut old);
    let mut b = BytesMut::with_capacity(n + *r.pick(&[0, 3, 5_000]));
    b.put_slice(&old);
    for _ in 0..20 {
        let (ver, pk) = some_packet(cx);
        let v = CPk::of(ver, &pk, knob(&mut cx.rng));
        let mut alone = BytesMut::new();
        let want = v.write(&mut alone);
        let at = b.len();
        let got = v.write(&mut b);
        if got != want || b.len() != at + alone.len() || b[at..] != alone[..] {
            return cx.fail(format!("written behind {} bytes: {:?} and {} bytes, alone {:?} and {} bytes: {:?} {}", at, got, b.len() as i64 - at as i64, want, alone.len(), ver, cut(&pk)));
        }
        cx.ev("written behind megabytes");
    }
    if b[..n] != old[..] {
        cx.fail(format!("of {} bytes already in the buffer some changed", n))
    }
    cx.seen(hash(&b[n..]));
}
fn app_props(cx: &mut Cx) {
    let pk = mask_case(cx, false);
    append(cx, Ver::V5, &pk)
}

/// Many packets into one buffer.
fn app_queue(cx: &mut Cx) {
    let n = cx.rng.range(2, 60);
    let mut all = BytesMut::with_capacity(cx.rng.below(3000));
    let mut want: Vec<u8> = vec![];
    for i in 0..n {
        let (ver, pk) = some_packet(cx);
        let v = CPk::of(ver, &pk, Knob::default());
        let mut one = BytesMut::new();
        let r1 = v.write(&mut one);
        let r2 = v.write(&mut all);
        want.extend_from_slice(&one);
        if r1 != r2 || all[..] != want[..] {
            return cx.fail(format!("packet {} of a queue: {:?} alone ({} bytes), {:?} in the queue; {:?} {}", i, r1, one.len(), r2, ver, cut(&pk)));
        }
        cx.ev("packets queued");
        if want.len() > 300_000 {
            break;
        }
    }
    cx.seen_bytes(&want);
}

// --- C19 ---------------------------------------------------------------------------------------------------------

pub enum F<'a> {
    S(&'a mut String),
    X(&'a mut Vec<u8>),
}

fn props_fields<'a>(p: &'a mut Props, v: &mut Vec<F<'a>>) {
    for (_, x) in p.iter_mut() {
        match x {
            PV::S(s) => v.push(F::S(s)),
            PV::X(s) => v.push(F::X(s)),
            PV::P(k, s) => {
                v.push(F::S(k));
                v.push(F::S(s));
            }
            _ => {}
        }
    }
}
/// All fields with a two-byte length.
pub fn fields(pk: &mut Pk) -> Vec<F<'_>> {
    let mut v = vec![];
    match pk {
        Pk::Connect(c) => {
            let l4 = c.level == 4;
            if !l4 {
                props_fields(&mut c.props, &mut v);
            }
            v.push(F::S(&mut c.client_id));
            if let Some(w) = &mut c.will {
                if !l4 {
                    props_fields(&mut w.props, &mut v);
                }
                v.push(F::S(&mut w.topic));
                v.push(F::X(&mut w.msg));
            }
            v.push(F::S(&mut c.user));
            v.push(F::S(&mut c.pass));
        }
        Pk::Publish { topic, props, .. } => {
            v.push(F::S(topic));
            props_fields(props, &mut v);
        }
        Pk::Subscribe { props, filters, .. } => {
            props_fields(props, &mut v);
            v.extend(filters.iter_mut().map(|f| F::S(&mut f.0)));
        }
        Pk::Unsubscribe { props, filters, .. } => {
            props_fields(props, &mut v);
            v.extend(filters.iter_mut().map(F::S));
        }
        Pk::ConnAck { props, .. } | Pk::Ack { props, .. } | Pk::SubAck { props, .. } | Pk::UnsubAck { props, .. } | Pk::Disconnect { props, .. } => {
            props_fields(props, &mut v);
        }
        _ => {}
    }
    v
}

const OVER: &[usize] = &[65536, 65537, 65538, 65536 + 255, 65536 + 256, 65600, 70000, 131071, 131072, 131073, 200_000];

pub fn oversize(r: &mut Rng) -> usize {
    match r.below(4) {
        0 => 65536,
        1 => r.range(65536, 66000),
        _ => *r.pick(OVER),
    }
}
pub fn long_text(r: &mut Rng, n: usize) -> String {
    let c = *r.pick(&["a", "é", "中", "😀", "\u{1}"]);
    let mut s = c.repeat(n / c.len());
    while s.len() < n {
        s.push('z');
    }
    s
}

/// `v` must be refused, wherever it is written, and leave nothing behind.
fn refuse(cx: &mut Cx, what: &str, v: &CPk) -> bool {
    let follower = {
        let (ver, pk) = some_packet(cx);
        CPk::of(ver, &pk, Knob::default())
    };
    for empty in [true, false] {
        let (mut b, old) = if empty {
            (BytesMut::new(), vec![])
        } else if cx.rng.p(1, 2_000) {
            let n = (1 << 24) + cx.rng.below(1 << 20);
            cx.ev("refused behind megabytes");
            (BytesMut::from(&vec![0xA7; n][..]), vec![0xA7; n])
        } else {
            queued(&mut cx.rng, 100)
        };
        match v.write(&mut b) {
            Err(_) => {}
            Ok(n) => {
                cx.fail(format!("{} was written ({} bytes), it cannot be represented", what, n));
                return false;
            }
        }
        if b[..] != old[..] {
            cx.fail(format!("{} was refused, but the buffer went from {} bytes {} to {} bytes {}", what, old.len(), hex(&old), b.len(), hex(&b)));
            return false;
        }
        cx.ev("refused without a trace");
        let mut one = BytesMut::new();
        let r1 = follower.write(&mut one);
        let r2 = follower.write(&mut b);
        if r1 != r2 || b.len() != old.len() + one.len() || b[old.len()..] != one[..] {
            cx.fail(format!("after {} was refused, the next packet is written differently: {:?} {}", what, r2, hex(&b)));
            return false;
        }
        cx.ev("packets written after a refusal");
    }
    true
}

fn ref_fields(cx: &mut Cx) {
    // a small packet with every property, or a random one
    let huge = cx.wl == "giants";
    let ver = if cx.idx % 3 == 0 { Ver::V4 } else { Ver::V5 };
    let mut pk = if huge {
        let k = *cx.rng.pick(if ver == Ver::V4 { &[0, 1, 2][..] } else { &[0, 1, 2, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18] });
        cx.ev("giants");
        giant(&mut cx.rng, ver, k, 5 << 20)
    } else if ver == Ver::V5 && cx.rng.p(2, 3) {
        mask_any(cx, true)
    } else {
        let ty = *cx.rng.pick(&[1, 1, 3, 8, 10, 2, 4, 5, 6, 7, 9, 11, 14]);
        let l4 = cx.rng.p(1, 3);
        let mut g = Gen::new(&mut cx.rng, true).budget(60);
        if l4 {
            g = g.l4();
        }
        g.packet_of(ver, ty)
    };
    // all fields in turn, mostly the first few
    let n = fields(&mut pk).len();
    if n == 0 {
        return;
    }
    for _ in 0..2 {
        let i = if huge && cx.rng.bool() { n - 1 } else { cx.rng.below(n) };
        let size = oversize(&mut cx.rng);
        let mut bad = pk.clone();
        let mut names = vec![];
        let second = if cx.rng.p(1, 5) { Some(cx.rng.below(n)) } else { None };
        for (j, f) in fields(&mut bad).into_iter().enumerate() {
            if j != i && Some(j) != second {
                continue;
            }
            match f {
                F::S(s) => *s = long_text(&mut cx.rng, size),
                F::X(x) => *x = vec![cx.rng.next() as u8; size],
            }
            names.push(j);
        }
        let k = knob(&mut cx.rng);
        let v = CPk::of(ver, &bad, k);
        let what = format!("{:?} {} with {} bytes in field {:?} of {}", ver, type_name(pk.ty()), size, names, cut(&pk));
        cx.seen(hash(format!("{:?}{:?}{}", names, pk, size).as_bytes()));
        if !refuse(cx, &what, &v) {
            return;
        }
        cx.ev(type_name(pk.ty()));
        cx.sample(|| what.clone());
    }
    // the control: at the limit it can be written
    let i = cx.rng.below(n);
    let mut good = pk.clone();
    match fields(&mut good).into_iter().nth(i).unwrap() {
        F::S(s) => *s = long_text(&mut cx.rng, 65535),
        F::X(x) => *x = vec![7; 65535],
    }
    let mut b = BytesMut::new();
    let r = CPk::of(ver, &good, Knob::default()).write(&mut b);
    if r.is_err() {
        return cx.fail(format!("{:?} {} with 65535 bytes in field {} of {} is refused: {:?}", ver, type_name(pk.ty()), i, cut(&pk), r));
    }
    cx.ev("written at the limit");
}

fn ref_pkid(cx: &mut Cx) {
    let ver = any_ver(&mut cx.rng);
    let mut g = Gen::new(&mut cx.rng, false);
    let mut pk = g.packet_of(ver, 3);
    if let Pk::Publish { qos, pkid, .. } = &mut pk {
        *qos = 1 + g.r.below(2) as u8;
        *pkid = 0;
    }
    let k = knob(&mut cx.rng);
    let v = CPk::of(ver, &pk, k);
    cx.seen(hash(format!("{:?}", pk).as_bytes()));
    let what = format!("{:?} QoS>0 without packet id {}", ver, cut(&pk));
    refuse(cx, &what, &v);
    cx.ev("publishes without packet id");
}

fn ref_subid(cx: &mut Cx) {
    let r = &mut cx.rng;
    let n = match r.below(8) {
        0 => MAX + 1,
        1 => MAX + 2,
        2 => usize::MAX,
        3 => u32::MAX as usize,
        4 => uint(1 << 32),
        5 => uint((1 << 35) | r.below(1000) as u64),
        _ => {
            let bits = r.range(29, usize::BITS as usize);
            (r.next() >> (64 - bits)) as usize | 1 << (bits - 1)
        }
    };
    let sub = r.bool();
    let mut g = Gen::new(r, false).budget(300);
    let pk = g.packet_of(Ver::V5, if sub { 8 } else { 3 });
    let mut v = CPk::of(Ver::V5, &pk, Knob { empty_props: true, ..Knob::default() });
    match &mut v {
        CPk::P5(v5::Packet::Subscribe(s)) => s.properties.as_mut().unwrap().id = Some(n),
        CPk::P5(v5::Packet::Publish(p)) => {
            if p.qos != QoS::AtMostOnce && p.pkid == 0 {
                p.pkid = 1;
            }
            let ids = &mut p.properties.as_mut().unwrap().subscription_identifiers;
            let at = cx.rng.below(ids.len() + 1);
            ids.insert(at, n);
        }
        _ => unreachable!(),
    }
    cx.seen(hash(format!("{:?}{}", pk, n).as_bytes()));
    let what = format!("subscription identifier {} in {}", n, cut(&pk));
    refuse(cx, &what, &v);
    cx.ev("subscription identifiers too large");
}

/// Total length over the maximum, in every way a packet can grow.
fn ref_total(cx: &mut Cx) {
    let big = |n: usize| vec![("k".repeat(65535), "v".repeat(65535)); n];
    // each pair takes 131075 bytes
    let pairs = MAX / 131_075 + 1;
    let up = |cx: &Cx, props: &mut Vec<(String, String)>| {
        *props = big(pairs);
        let _ = cx;
    };
    let (what, v): (&str, CPk) = match cx.idx {
        0 => ("v4 publish", CPk::P4(v4::Packet::Publish(v4::Publish::from_bytes("topic", QoS::AtMostOnce, Bytes::from(vec![0; MAX - 7 + 1 + cx.rng.below(3)]))))),
        1 => ("v5 publish", CPk::P5(v5::Packet::Publish(v5::Publish::from_bytes("topic", QoS::AtMostOnce, Bytes::from(vec![0; MAX - 8 + 1 + cx.rng.below(3)]))))),
        2 => {
            let mut p = v5::Publish::new("topic", QoS::AtMostOnce, vec![]);
            let mut q = publish_props(&vec![]);
            up(cx, &mut q.user_properties);
            p.properties = Some(q);
            ("v5 publish with properties", CPk::P5(v5::Packet::Publish(p)))
        }
        3 => {
            let f = v4::SubscribeFilter::new("f".repeat(65535), QoS::AtMostOnce);
            let mut s = v4::Subscribe::new_many(vec![f; MAX / 65538 + 1]).unwrap();
            s.pkid = 1;
            ("v4 subscribe", CPk::P4(v4::Packet::Subscribe(s)))
        }
        4 => {
            let f = v5::SubscribeFilter::new("f".repeat(65535), QoS::AtMostOnce);
            let mut s = v5::Subscribe::new_many(vec![f; MAX / 65538 + 1]);
            s.pkid = 1;
            ("v5 subscribe", CPk::P5(v5::Packet::Subscribe(s)))
        }
        5 => ("v4 suback", CPk::P4(v4::Packet::SubAck(v4::SubAck::new(1, vec![v4::SubscribeReasonCode::Failure; MAX - 2 + 1])))),
        6 => ("v5 suback", CPk::P5(v5::Packet::SubAck(v5::SubAck::new(1, vec![v5::SubscribeReasonCode::QoS1; MAX - 3 + 1])))),
        7 => {
            let mut u = v4::Unsubscribe::new("x");
            u.topics = vec!["f".repeat(65535); MAX / 65537 + 1];
            u.pkid = 1;
            ("v4 unsubscribe", CPk::P4(v4::Packet::Unsubscribe(u)))
        }
        8 => {
            let mut u = v5::Unsubscribe::new("x");
            u.filters = vec!["f".repeat(65535); MAX / 65537 + 1];
            u.pkid = 1;
            ("v5 unsubscribe", CPk::P5(v5::Packet::Unsubscribe(u)))
        }
        9 => {
            let mut u = v5::UnsubAck::new(1);
            u.reasons = vec![v5::UnsubAckReason::Success; MAX - 3 + 1];
            ("v5 unsuback", CPk::P5(v5::Packet::UnsubAck(u)))
        }
        10 | 11 => {
            let mut c = v5::Connect::new("id");
            if cx.idx == 10 {
                let mut q = connect_props(&vec![]);
                up(cx, &mut q.user_properties);
                c.properties = Some(q);
                ("connect with properties", CPk::P5(v5::Packet::Connect(c)))
            } else {
                let mut w = v5::LastWill::new("t", vec![1], QoS::AtLeastOnce, true);
                let mut q = will_props(&vec![]);
                up(cx, &mut q.user_properties);
                w.properties = Some(q);
                c.last_will = Some(w);
                ("connect with will properties", CPk::P5(v5::Packet::Connect(c)))
            }
        }
        _ => {
            // every other place with user properties
            let ty = [2u8, 4, 5, 6, 7, 8, 9, 10, 11, 14][(cx.idx as usize - 12) % 10];
            let mut g = Gen::new(&mut cx.rng, true).budget(50);
            let mut pk = g.packet_of(Ver::V5, ty);
            *pk.props_mut().unwrap() = vec![];
            let mut v = CPk::of(Ver::V5, &pk, Knob { empty_props: true, ..Knob::default() });
            if let CPk::P5(p) = &mut v {
                let q = match p {
                    v5::Packet::ConnAck(p) => &mut p.properties.as_mut().unwrap().user_properties,
                    v5::Packet::PubAck(p) => &mut p.properties.as_mut().unwrap().user_properties,
                    v5::Packet::PubRec(p) => &mut p.properties.as_mut().unwrap().user_properties,
                    v5::Packet::PubRel(p) => &mut p.properties.as_mut().unwrap().user_properties,
                    v5::Packet::PubComp(p) => &mut p.properties.as_mut().unwrap().user_properties,
                    v5::Packet::Subscribe(p) => &mut p.properties.as_mut().unwrap().user_properties,
                    v5::Packet::SubAck(p) => &mut p.properties.as_mut().unwrap().user_properties,
                    v5::Packet::Unsubscribe(p) => &mut p.properties.as_mut().unwrap().user_properties,
                    v5::Packet::UnsubAck(p) => &mut p.properties.as_mut().unwrap().user_properties,
                    v5::Packet::Disconnect(p) => &mut p.properties.as_mut().unwrap().user_properties,
                    _ => unreachable!(),
                };
                *q = big(pairs);
            }
            (type_name(ty), v)
        }
    };
    cx.seen(mix(cx.idx));
    let what = format!("{} of more than 268435455 bytes", what);
    refuse(cx, &what, &v);
    cx.ev("total lengths too large");
}

/// Packets of which some cannot be written, one after the other into one buffer; what stays are the good ones.
fn ref_queue(cx: &mut Cx) {
    let mut b = BytesMut::with_capacity(cx.rng.below(2000));
    let mut want: Vec<u8> = vec![];
    let n = cx.rng.range(2, 12);
    for _ in 0..n {
        let (ver, mut pk) = some_packet(cx);
        if cx.rng.bool() {
            let mut f = fields(&mut pk);
            if !f.is_empty() {
                let i = cx.rng.below(f.len());
                let n = oversize(&mut cx.rng);
                match &mut f[i] {
                    F::S(s) => **s = long_text(&mut cx.rng, n),
                    F::X(x) => **x = vec![1; n],
                }
            }
        }
        let v = CPk::of(ver, &pk, Knob::default());
        let mut one = BytesMut::new();
        let r = v.write(&mut b);
        let r1 = v.write(&mut one);
        match r {
            Ok(_) => {
                cx.ev("written in between");
                want.extend_from_slice(&one)
            }
            Err(_) => cx.ev("refused in between"),
        }
        if r != r1 || b[..] != want[..] {
            return cx.fail(format!("queue of {} bytes after {:?} (alone {:?}) of {:?} {}: {} bytes expected", b.len(), r, r1, ver, cut(&pk), want.len()));
        }
    }
    cx.seen_bytes(&want);
}

// --- C26 ---------------------------------------------------------------------------------------------------------

const QOS: [QoS; 3] = [QoS::AtMostOnce, QoS::AtLeastOnce, QoS::ExactlyOnce];

/// Every constructor with random arguments. The expected value is spelt out field by field.
fn build(cx: &mut Cx) {
    macro_rules! is {
        ($what:expr, $got:expr, $want:expr) => {{
            let got = tgt(|| $got);
            let want = $want;
            if got != want {
                return cx.fail(format!("{}: got {}, asked for {}", $what, cut(&got), cut(&want)));
            }
            cx.ev($what);
        }};
    }
    let mut g = Gen::new(&mut cx.rng, false);
    let (a, b2, c) = (g.text(), g.text(), g.text());
    let bytes = g.bin();
    let n = g.u16();
    let q = QOS[g.r.below(3)];
    let flag = g.r.bool();
    cx.seen(hash(format!("{}{}{}{}{:?}{}", a, b2, n, bytes.len(), q, flag).as_bytes()));
    cx.sample(|| format!("{:?} {:?} {} {:?} {}", &a, &b2, n, q, flag));

    is!("v4 Connect::new", v4::Connect::new(a.as_str()), v4::Connect {
        protocol: Protocol::V4, keep_alive: 10, client_id: a.clone(), clean_session: true, last_will: None, login: None
    });
    is!("v5 Connect::new", v5::Connect::new(a.clone()), v5::Connect {
        protocol: Protocol::V5, keep_alive: 10, client_id: a.clone(), clean_session: true, last_will: None, login: None, properties: None
    });
    is!("v4 LastWill::new", v4::LastWill::new(a.as_str(), bytes.clone(), q, flag), v4::LastWill {
        topic: a.clone(), message: Bytes::from(bytes.clone()), qos: q, retain: flag
    });
    is!("v5 LastWill::new", v5::LastWill::new(a.as_str(), bytes.clone(), q, flag), v5::LastWill {
        topic: a.clone(), message: Bytes::from(bytes.clone()), qos: q, retain: flag, properties: None
    });
    is!("v4 Login::new", v4::Login::new(a.as_str(), b2.clone()), v4::Login { username: a.clone(), password: b2.clone() });
    is!("v5 Login::new", v5::Login::new(a.clone(), b2.as_str()), v5::Login { username: a.clone(), password: b2.clone() });

    // set_login on a packet in any state changes only the login
    let conn = Gen::new(&mut cx.rng, false).conn(4);
    let want = connect4(&conn, Knob::default());
    is!("v4 set_login", {
        let mut x = want.clone();
        x.set_login("earlier", "one").set_login(a.as_str(), b2.clone());
        x
    }, v4::Connect { login: Some(v4::Login { username: a.clone(), password: b2.clone() }), ..want.clone() });
    let conn = Gen::new(&mut cx.rng, false).conn(5);
    let want = connect5(&conn, Knob::default());
    is!("v5 set_login", {
        let mut x = want.clone();
        x.set_login(b2.as_str(), "").set_login(a.as_str(), b2.clone());
        x
    }, v5::Connect { login: Some(v5::Login { username: a.clone(), password: b2.clone() }), ..want.clone() });

    is!("v4 Publish::new", v4::Publish::new(a.as_str(), q, bytes.clone()), v4::Publish {
        dup: false, qos: q, retain: false, topic: a.clone(), pkid: 0, payload: Bytes::from(bytes.clone())
    });
    is!("v5 Publish::new", v5::Publish::new(a.clone(), q, bytes.clone()), v5::Publish {
        dup: false, qos: q, retain: false, topic: a.clone(), pkid: 0, properties: None, payload: Bytes::from(bytes.clone())
    });
    is!("v4 Publish::new of text", v4::Publish::new(a.as_str(), q, b2.clone()).payload, Bytes::from(b2.clone().into_bytes()));
    is!("v5 Publish::new of text", v5::Publish::new(a.as_str(), q, b2.as_str()).payload, Bytes::from(b2.clone().into_bytes()));
    let shared = Bytes::from(bytes.clone());
    is!("v4 Publish::from_bytes", v4::Publish::from_bytes(a.as_str(), q, shared.clone()), v4::Publish {
        dup: false, qos: q, retain: false, topic: a.clone(), pkid: 0, payload: Bytes::from(bytes.clone())
    });
    is!("v5 Publish::from_bytes", v5::Publish::from_bytes(a.clone(), q, shared.slice(..)), v5::Publish {
        dup: false, qos: q, retain: false, topic: a.clone(), pkid: 0, properties: None, payload: Bytes::from(bytes.clone())
    });

    for i in 0..6 {
        let code = ca4_of(i);
        is!("v4 ConnAck::new", v4::ConnAck::new(code, flag), v4::ConnAck { session_present: flag, code });
    }
    let code = ca5_of(*cx.rng.pick(codes(Ver::V5, 2)));
    is!("v5 ConnAck::new", v5::ConnAck::new(code, flag), v5::ConnAck { session_present: flag, code, properties: None });
    is!("ConnAckProperties::new", v5::ConnAckProperties::new(), connack_props(&vec![]));
    is!("DisconnectProperties::new", v5::DisconnectProperties::new(), disconnect_props(&vec![]));
    is!("v5 Disconnect::new", v5::Disconnect::new(), v5::Disconnect {
        reason_code: v5::DisconnectReasonCode::NormalDisconnection, properties: None
    });
    is!("v4 PubAck::new", v4::PubAck::new(n), v4::PubAck { pkid: n });
    is!("v4 PubRec::new", v4::PubRec::new(n), v4::PubRec { pkid: n });
    is!("v4 PubRel::new", v4::PubRel::new(n), v4::PubRel { pkid: n });
    is!("v4 PubComp::new", v4::PubComp::new(n), v4::PubComp { pkid: n });
    is!("v4 UnsubAck::new", v4::UnsubAck::new(n), v4::UnsubAck { pkid: n });
    is!("v5 PubAck::new", v5::PubAck::new(n), v5::PubAck { pkid: n, reason: v5::PubAckReason::Success, properties: None });
    is!("v5 PubRec::new", v5::PubRec::new(n), v5::PubRec { pkid: n, reason: v5::PubRecReason::Success, properties: None });
    is!("v5 PubRel::new", v5::PubRel::new(n), v5::PubRel { pkid: n, reason: v5::PubRelReason::Success, properties: None });
    is!("v5 PubComp::new", v5::PubComp::new(n), v5::PubComp { pkid: n, reason: v5::PubCompReason::Success, properties: None });
    is!("v5 UnsubAck::new", v5::UnsubAck::new(n), v5::UnsubAck { pkid: n, reasons: vec![], properties: None });

    let k = cx.rng.below(40);
    let c4: Vec<v4::SubscribeReasonCode> = (0..k).map(|_| sa4_of(*cx.rng.pick(codes(Ver::V4, 9)))).collect();
    is!("v4 SubAck::new", v4::SubAck::new(n, c4.clone()), v4::SubAck { pkid: n, return_codes: c4 });
    let c5: Vec<v5::SubscribeReasonCode> = (0..k).map(|_| sa5_of(*cx.rng.pick(codes(Ver::V5, 9)))).collect();
    is!("v5 SubAck::new", v5::SubAck::new(n, c5.clone()), v5::SubAck { pkid: n, return_codes: c5, properties: None });
    is!("v4 Unsubscribe::new", v4::Unsubscribe::new(c.as_str()), v4::Unsubscribe { pkid: 0, topics: vec![c.clone()] });
    is!("v5 Unsubscribe::new", v5::Unsubscribe::new(c.clone()), v5::Unsubscribe { pkid: 0, filters: vec![c.clone()], properties: None });
}

fn build_subscribe(cx: &mut Cx) {
    let mut g = Gen::new(&mut cx.rng, false).budget(3000);
    let k = match g.r.below(20) {
        0 => g.r.below(300),
        _ => g.r.below(12),
    };
    let many = g.r.below(3);
    let mut names: Vec<(String, QoS)> = vec![];
    for _ in 0..k {
        // the same filter again now and then
        let f = if !names.is_empty() && g.r.p(1, 4) { g.r.pick(&names).0.clone() } else { g.filter() };
        names.push((f, QOS[g.r.below(3)]));
    }
    cx.seen(hash(format!("{:?}{}", names, many).as_bytes()));
    cx.sample(|| format!("{} {:?}", many, names));
    // 3.1.1
    let f4: Vec<v4::SubscribeFilter> = names.iter().map(|f| v4::SubscribeFilter { path: f.0.clone(), qos: f.1 }).collect();
    let got = match many {
        0 if k > 0 => {
            let mut s = v4::Subscribe::new(names[0].0.as_str(), names[0].1);
            for f in &names[1..] {
                tgt(|| s.add(f.0.clone(), f.1));
            }
            Ok(s)
        }
        1 if k > 1 => {
            let at = cx.rng.range(1, k - 1);
            let mut s = tgt(|| v4::Subscribe::new_many(names[..at].iter().map(|f| v4::SubscribeFilter::new(f.0.clone(), f.1)))).unwrap();
            for f in &names[at..] {
                tgt(|| s.add(f.0.clone(), f.1));
            }
            Ok(s)
        }
        _ => tgt(|| v4::Subscribe::new_many(names.iter().map(|f| v4::SubscribeFilter::new(f.0.clone(), f.1)))),
    };
    if k == 0 {
        if got != Err(Error::EmptySubscription) {
            return cx.fail(format!("a 3.1.1 subscription of no filters: {:?}", got));
        }
        cx.ev("empty subscriptions refused");
    } else if got != Ok(v4::Subscribe { pkid: 0, filters: f4 }) {
        return cx.fail(format!("v4 Subscribe of {:?} is {}", names, cut(&got)));
    }
    // 5
    let plain = |f: &(String, QoS)| v5::SubscribeFilter {
        path: f.0.clone(),
        qos: f.1,
        nolocal: false,
        preserve_retain: false,
        retain_forward_rule: v5::RetainForwardRule::OnEverySubscribe,
    };
    let f5: Vec<v5::SubscribeFilter> = names.iter().map(plain).collect();
    let got = match many {
        0 if k > 0 => {
            let mut s = v5::Subscribe::new(names[0].0.as_str(), names[0].1);
            for f in &names[1..] {
                tgt(|| s.add(f.0.clone(), f.1));
            }
            s
        }
        1 => {
            let mut s = tgt(v5::Subscribe::empty_subscribe);
            for f in &names {
                tgt(|| s.add(f.0.clone(), f.1));
            }
            s
        }
        _ => tgt(|| v5::Subscribe::new_many(names.iter().map(|f| v5::SubscribeFilter::new(f.0.clone(), f.1)))),
    };
    if got != (v5::Subscribe { pkid: 0, filters: f5, properties: None }) {
        return cx.fail(format!("v5 Subscribe of {:?} is {}", names, cut(&got)));
    }
    cx.ev("subscriptions built");
    // adding to a subscription in any state
    let mut g = Gen::new(&mut cx.rng, false).budget(500);
    let pk = g.packet_of(Ver::V5, 8);
    let (path, qos) = (g.filter(), QOS[g.r.below(3)]);
    let Pk::Subscribe { filters, .. } = &pk else { unreachable!() };
    if let CPk::P5(v5::Packet::Subscribe(mut s)) = CPk::of(Ver::V5, &pk, Knob::default()) {
        let mut want = s.clone();
        want.filters.push(plain(&(path.clone(), qos)));
        tgt(|| s.add(path.clone(), qos));
        if s != want {
            return cx.fail(format!("adding {:?} to {}: {}", path, cut(filters), cut(&s)));
        }
    }
    let pk4 = Pk::Subscribe { pkid: 77, props: vec![], filters: filters.iter().map(|f| (f.0.clone(), f.1 & 3)).collect() };
    if let CPk::P4(v4::Packet::Subscribe(mut s)) = CPk::of(Ver::V4, &pk4, Knob::default()) {
        let mut want = s.clone();
        want.filters.push(v4::SubscribeFilter { path: path.clone(), qos });
        tgt(|| s.add(path.clone(), qos));
        if s != want {
            return cx.fail(format!("adding {:?} to {}: {}", path, cut(filters), cut(&s)));
        }
    }
    cx.ev("filters added");
    // options
    let mut want = plain(&(path.clone(), qos));
    let mut f = tgt(|| v5::SubscribeFilter::new(path, qos));
    let mut order = vec![];
    for _ in 0..cx.rng.range(1, 8) {
        let b = cx.rng.bool();
        match cx.rng.below(3) {
            0 => {
                want.nolocal = b;
                tgt(|| f.set_nolocal(b));
                order.push(format!("nolocal {}", b));
            }
            1 => {
                want.preserve_retain = b;
                tgt(|| f.set_preserve_retain(b));
                order.push(format!("preserve_retain {}", b));
            }
            _ => {
                let n = cx.rng.below(3) as u8;
                want.retain_forward_rule = rule_of(n);
                tgt(|| f.set_retain_forward_rule(rule_of(n)));
                order.push(format!("rule {}", n));
            }
        }
        if f != want {
            return cx.fail(format!("after {:?} the filter is {}, not {}", order, cut(&f), cut(&want)));
        }
        cx.ev("options set");
    }
}

/// Long arguments and long lists.
fn build_long(cx: &mut Cx) {
    let r = &mut cx.rng;
    const SIZES: &[usize] = &[127, 128, 255, 256, 257, 1_023, 1_024, 4_095, 4_096, 4_097, 16_383, 16_384, 32_768, 65_534, 65_535, 65_536, 65_537, 70_000, 131_072, 1_000_000, 2_097_152];
    let n = if r.bool() { *r.pick(SIZES) } else { r.range(100, 200_000) };
    let q = QOS[r.below(3)];
    let flag = r.bool();
    let mut bytes = vec![0u8; n];
    r.fill(&mut bytes);
    let text = long_text(r, n);
    let short = long_text(r, 10);
    macro_rules! is {
        ($what:expr, $got:expr, $want:expr) => {{
            let got = tgt(|| $got);
            if got != $want {
                return cx.fail(format!("{} of {} bytes: not what was asked for: {}", $what, n, cut(&got)));
            }
            cx.ev("built of long arguments");
        }};
    }
    let shared = Bytes::from(bytes.clone());
    let part = r_part(n, cx.idx);
    let p4 = |topic: &str, payload: &[u8]| v4::Publish { dup: false, qos: q, retain: false, topic: topic.to_string(), pkid: 0, payload: Bytes::copy_from_slice(payload) };
    let p5 = |topic: &str, payload: &[u8]| v5::Publish { dup: false, qos: q, retain: false, topic: topic.to_string(), pkid: 0, properties: None, payload: Bytes::copy_from_slice(payload) };
    is!("v4 Publish::from_bytes", v4::Publish::from_bytes(short.as_str(), q, shared.clone()), p4(&short, &bytes));
    is!("v5 Publish::from_bytes", v5::Publish::from_bytes(short.as_str(), q, shared.clone()), p5(&short, &bytes));
    is!("v4 Publish::from_bytes", v4::Publish::from_bytes(text.clone(), q, shared.slice(part.clone())), p4(&text, &bytes[part.clone()]));
    is!("v5 Publish::from_bytes", v5::Publish::from_bytes(text.clone(), q, shared.slice(part.clone())), p5(&text, &bytes[part.clone()]));
    is!("v4 Publish::new", v4::Publish::new(text.as_str(), q, bytes.clone()), p4(&text, &bytes));
    is!("v5 Publish::new", v5::Publish::new(text.as_str(), q, bytes.clone()), p5(&text, &bytes));
    is!("v4 Publish::new of text", v4::Publish::new(short.as_str(), q, text.clone()), p4(&short, text.as_bytes()));
    is!("v5 Publish::new of text", v5::Publish::new(short.as_str(), q, text.clone()), p5(&short, text.as_bytes()));
    is!("v4 LastWill::new", v4::LastWill::new(text.as_str(), bytes.clone(), q, flag), v4::LastWill { topic: text.clone(), message: shared.clone(), qos: q, retain: flag });
    is!("v5 LastWill::new", v5::LastWill::new(text.as_str(), bytes.clone(), q, flag), v5::LastWill { topic: text.clone(), message: shared.clone(), qos: q, retain: flag, properties: None });
    is!("v4 Login::new", v4::Login::new(text.as_str(), short.clone()), v4::Login { username: text.clone(), password: short.clone() });
    is!("v5 Login::new", v5::Login::new(short.as_str(), text.clone()), v5::Login { username: short.clone(), password: text.clone() });
    is!("v4 Connect::new", v4::Connect::new(text.as_str()).client_id, text.clone());
    is!("v5 Connect::new", v5::Connect::new(text.as_str()).client_id, text.clone());
    is!("v4 set_login", v4::Connect::new("").set_login(text.as_str(), text.as_str()).login.clone(), Some(v4::Login { username: text.clone(), password: text.clone() }));
    is!("v5 set_login", v5::Connect::new("").set_login(text.as_str(), text.as_str()).login.clone(), Some(v5::Login { username: text.clone(), password: text.clone() }));
    is!("v4 Unsubscribe::new", v4::Unsubscribe::new(text.as_str()), v4::Unsubscribe { pkid: 0, topics: vec![text.clone()] });
    is!("v5 Unsubscribe::new", v5::Unsubscribe::new(text.as_str()), v5::Unsubscribe { pkid: 0, filters: vec![text.clone()], properties: None });
    is!("v4 Subscribe::new", v4::Subscribe::new(text.as_str(), q).filters, vec![v4::SubscribeFilter { path: text.clone(), qos: q }]);
    is!("v5 SubscribeFilter::new", v5::SubscribeFilter::new(text.clone(), q).path, text.clone());
    // lists
    let k = n.min(70_000);
    let c4: Vec<_> = (0..k).map(|_| sa4_of(*cx.rng.pick(codes(Ver::V4, 9)))).collect();
    is!("v4 SubAck::new", v4::SubAck::new(7, c4.clone()).return_codes, c4);
    let c5: Vec<_> = (0..k).map(|_| sa5_of(*cx.rng.pick(codes(Ver::V5, 9)))).collect();
    is!("v5 SubAck::new", v5::SubAck::new(7, c5.clone()).return_codes, c5);
    let f4: Vec<_> = (0..k).map(|i| v4::SubscribeFilter { path: format!("{}", i), qos: QOS[i % 3] }).collect();
    is!("v4 Subscribe::new_many", v4::Subscribe::new_many(f4.clone()).unwrap().filters, f4);
    let f5: Vec<_> = (0..k).map(|i| v5::SubscribeFilter::new(format!("{}", i), QOS[i % 3])).collect();
    is!("v5 Subscribe::new_many", v5::Subscribe::new_many(f5.clone()).filters, f5);
    let mut s4 = v4::Subscribe::new("0", QoS::AtMostOnce);
    let mut s5 = v5::Subscribe::empty_subscribe();
    tgt(|| {
        for f in &f4[1..] {
            s4.add(f.path.clone(), f.qos);
        }
        for f in &f4 {
            s5.add(f.path.clone(), f.qos);
        }
    });
    is!("v4 Subscribe::add", std::mem::take(&mut s4.filters), f4);
    is!("v5 Subscribe::add", std::mem::take(&mut s5.filters), f5);
    cx.seen(hash(format!("{}{:?}{}", n, q, flag).as_bytes()));
}

fn r_part(n: usize, i: u64) -> std::ops::Range<usize> {
    let a = mix(i) as usize % n;
    a..a + mix(i + 1) as usize % (n - a)
}

// --- C27 ---------------------------------------------------------------------------------------------------------

fn cred(r: &mut Rng) -> String {
    let mut g = Gen::new(r, true);
    match g.r.below(8) {
        0 | 1 => String::new(),
        2 => (*g.r.pick(&["a", "b", "admin", "user", "\u{1}", " ", "MQTT", "é"])).to_string(),
        3 => {
            let n = *g.r.pick(&[126, 127, 128, 255, 256, 257, 300, 1023, 1024, 1025, 4096, 65534, 65535]);
            g.text_n(n)
        }
        _ => g.text(),
    }
}

fn carried(cx: &mut Cx) {
    let ver = any_ver(&mut cx.rng);
    let mut g = Gen::new(&mut cx.rng, true);
    let level = if ver == Ver::V4 || g.r.p(1, 5) { 4 } else { 5 };
    let mut c = g.conn(level);
    c.user = cred(&mut cx.rng);
    c.pass = if cx.rng.p(1, 6) { c.user.clone() } else { cred(&mut cx.rng) };
    if c.level == 4 {
        c.props.clear();
        if let Some(w) = &mut c.will {
            w.props.clear();
        }
    }
    cx.ev(match (c.user.is_empty(), c.pass.is_empty()) {
        (true, true) => "no credentials",
        (false, true) => "user name only",
        (true, false) => "password only",
        _ => "both",
    });
    cx.ev(if c.will.is_some() { "with a will" } else { "without a will" });
    let want = (c.user.clone(), c.pass.clone());
    let pk = Pk::Connect(c.clone());
    cx.seen(hash(format!("{:?}", pk).as_bytes()));
    let k = knob(&mut cx.rng);
    // out of the client
    let mut o = BytesMut::new();
    let w = CPk::of(ver, &pk, k).write(&mut o);
    if let Err(e) = w {
        return cx.fail(format!("CONNECT not written: {:?} {:?} {}", e, ver, cut(&pk)));
    }
    let sent = match decode(ver, &o) {
        Verdict::Accept(Pk::Connect(d)) | Verdict::May(_, Some(Pk::Connect(d))) => (d.user, d.pass),
        v => return cx.fail(format!("no CONNECT was written: {} -> {} which is {}", cut(&pk), hex(&o), cut(&v))),
    };
    if sent != want {
        return cx.fail(format!("credentials {:?} were written as {:?}: {:?} {} -> {}", want, sent, ver, cut(&pk), hex(&o)));
    }
    cx.ev("credentials written");
    cx.sample(|| format!("{:?} will {} -> {}", want, c.will.is_some(), hex(&o)));
    // into the broker, in any spelling
    let f = Form { ack: 0, empty_user: cx.rng.bool(), empty_pass: cx.rng.bool() };
    let e = encode(ver, &pk, f);
    for b in [&e.bytes[..], &o[..]] {
        let got = match read_frame(ver, b) {
            Ok(p) => p,
            Err(x) => return cx.fail(format!("CONNECT refused: {:?} {:?} {}", x, ver, hex(b))),
        };
        let login = match &got {
            CPk::P4(v4::Packet::Connect(c)) => c.login.as_ref().map(|l| (l.username.clone(), l.password.clone())),
            CPk::P5(v5::Packet::Connect(c)) => c.login.as_ref().map(|l| (l.username.clone(), l.password.clone())),
            _ => return cx.fail(format!("not a CONNECT: {:?} {}", ver, hex(b))),
        };
        if login.clone().unwrap_or_default() != want {
            return cx.fail(format!("credentials {:?} arrive as {:?}: {:?} {}", want, login, ver, hex(b)));
        }
        cx.ev("credentials read");
    }
}

fn near_miss(r: &mut Rng, s: &str) -> String {
    let mut c: Vec<char> = s.chars().collect();
    let n = c.len();
    match r.below(11) {
        // as many more as a narrow length does not see
        10 => {
            let k: usize = *r.pick(&[1, 2, 128, 255, 256, 256, 257, 512, 65_536, 65_536, 131_072]);
            let f = if n > 0 && c[n - 1].is_ascii() && r.bool() { c[n - 1] } else { 'x' };
            c.extend(std::iter::repeat(f).take(k));
        }
        0 => return s.to_uppercase(),
        1 => return s.to_lowercase(),
        2 => c.push(*r.pick(&[' ', '\0', 'a', '\u{301}', '\n'])),
        3 if n > 0 => {
            c.pop();
        }
        4 if n > 0 => {
            let i = r.below(n);
            c[i] = char::from_u32(c[i] as u32 ^ 1).unwrap_or('x');
        }
        5 if n > 0 => {
            let i = r.below(n);
            c[i] = char::from_u32(c[i] as u32 ^ 0x20).unwrap_or('x');
        }
        6 if n > 0 => c.truncate(n / 2),
        7 if n > 1 => {
            let i = r.below(n - 1);
            c.swap(i, i + 1);
        }
        8 => return String::new(),
        9 => c.insert(0, ' '),
        _ => {}
    }
    c.into_iter().collect()
}

fn validated(cx: &mut Cx) {
    let (u, p) = (cred(&mut cx.rng), cred(&mut cx.rng));
    let l = v4::Login { username: u.clone(), password: p.clone() };
    cx.seen(hash(u.as_bytes()) ^ mix(hash(p.as_bytes())));
    let r = &mut cx.rng;
    let mut tries = vec![(u.clone(), p.clone()), (p.clone(), u.clone()), (u.clone(), u.clone()), (p.clone(), p.clone()), (String::new(), p.clone()), (u.clone(), String::new()), (String::new(), String::new())];
    for _ in 0..4 {
        tries.push((near_miss(r, &u), p.clone()));
        tries.push((u.clone(), near_miss(r, &p)));
        tries.push((near_miss(r, &u), near_miss(r, &p)));
    }
    // pieces moved from one to the other
    if let Some(c) = u.chars().last() {
        let mut a = u.clone();
        a.pop();
        tries.push((a, format!("{}{}", c, p)));
    }
    if let Some(c) = p.chars().next() {
        tries.push((format!("{}{}", u, c), p[c.len_utf8()..].to_string()));
    }
    for (a, b) in tries {
        let got = tgt(|| l.validate(&a, &b));
        let want = a.as_bytes() == u.as_bytes() && b.as_bytes() == p.as_bytes();
        if got != want {
            return cx.fail(format!("validate({:?}, {:?}) of {} is {}", a, b, cut(&l), got));
        }
        cx.ev(if got { "logins accepted" } else { "logins refused" });
    }
}

/// All pairs of short names and passwords.
fn validated_small(cx: &mut Cx) {
    let all = ["", "a", "b", "A", "aa", "ab", "ba", "a ", "\0", "é", "e\u{301}"];
    let n = all.len();
    let (i, j) = (cx.idx as usize / n % n, cx.idx as usize % n);
    let l = v4::Login { username: all[i].into(), password: all[j].into() };
    for (a, x) in all.iter().enumerate() {
        for (b, y) in all.iter().enumerate() {
            let got = tgt(|| l.validate(&x.to_string(), &y.to_string()));
            if got != (a == i && b == j) {
                return cx.fail(format!("validate({:?}, {:?}) of {:?} is {}", x, y, l, got));
            }
            cx.ev(if got { "logins accepted" } else { "logins refused" });
        }
    }
    cx.seen(mix(cx.idx));
}

// --- C30 ---------------------------------------------------------------------------------------------------------

fn via5(cx: &mut Cx, b: &[u8]) {
    let (r4, r5) = (read_frame(Ver::V4, b), read_frame(Ver::V5, b));
    cx.seen_bytes(b);
    let c4 = match &r4 {
        Ok(CPk::P4(v4::Packet::Connect(c))) if c.protocol == Protocol::V4 => Some(c),
        _ => None,
    };
    let c5 = match &r5 {
        Ok(CPk::P5(v5::Packet::Connect(c))) if c.protocol == Protocol::V4 => Some(c),
        _ => None,
    };
    match (c4, c5) {
        (Some(a), Some(c)) => {
            let will_props = c.last_will.as_ref().map(|w| w.properties.is_some()).unwrap_or(false);
            if c.properties.is_some() || will_props {
                return cx.fail(format!("properties out of nowhere: {} read as {}", hex(b), cut(c)));
            }
            if from_connect4(a) != from_connect5(c) || a.last_will.is_some() != c.last_will.is_some() || a.login.is_some() != c.login.is_some() {
                return cx.fail(format!("{} is {} to the 3.1.1 module and {} to the 5 module", hex(b), cut(a), cut(c)));
            }
            cx.ev("3.1.1 CONNECTs read by both");
            if c.last_will.is_some() {
                cx.ev("with a will");
            }
            if c.login.is_some() {
                cx.ev("with a login");
            }
        }
        (Some(a), None) => cx.fail(format!("{} is {} to the 3.1.1 module, to the 5 module {}", hex(b), cut(a), match r5 { Ok(p) => cut(&p.to_pk()), Err(e) => format!("{:?}", e) })),
        (None, Some(c)) => cx.fail(format!("{} is {} to the 5 module, to the 3.1.1 module {}", hex(b), cut(c), match r4 { Ok(p) => cut(&p.to_pk()), Err(e) => format!("{:?}", e) })),
        (None, None) => cx.ev("refused by both"),
    }
}

fn via_read(cx: &mut Cx) {
    let conf = cx.rng.p(2, 3);
    let c = Gen::new(&mut cx.rng, conf).conn(4);
    let pk = Pk::Connect(c);
    let e = encode(Ver::V4, &pk, form(&mut cx.rng));
    via5(cx, &e.bytes);
    if !conf && cx.fails.is_empty() {
        // what no well-formed packet looks like, to both the same
        let m = mutate(&mut cx.rng, &e);
        via5(cx, &m);
    }
}

fn via_bytes(cx: &mut Cx) {
    // every value of every byte of a small CONNECT
    let mut g = Gen::new(&mut cx.rng, true).budget(12);
    let mut c = g.conn(4);
    c.client_id.truncate(0);
    let e = encode(Ver::V4, &Pk::Connect(c), form(&mut cx.rng));
    if e.bytes.len() > 60 {
        return;
    }
    for i in 1..e.bytes.len() {
        for x in 0..=255u8 {
            let mut m = e.bytes.clone();
            m[i] = x;
            via5(cx, &m);
            if !cx.fails.is_empty() {
                return;
            }
        }
    }
}

fn via_write(cx: &mut Cx) {
    let conf = cx.rng.bool();
    let mut c = Gen::new(&mut cx.rng, conf).conn(4);
    let plain = c.clone();
    let k = knob(&mut cx.rng);
    // properties set on a 3.1.1 value do not go anywhere
    let extra = cx.rng.p(1, 2);
    if extra {
        let mut g = Gen::new(&mut cx.rng, conf).budget(300);
        c.props = g.props(Loc::Connect);
        let p = g.props(Loc::Will);
        if let Some(w) = &mut c.will {
            w.props = p;
        }
        cx.ev("with properties in the value");
    }
    let v = CPk::P5(v5::Packet::Connect(connect5(&c, k)));
    let mut o = BytesMut::new();
    let w = v.write(&mut o);
    if w != Ok(o.len()) {
        return cx.fail(format!("a 3.1.1 CONNECT is not written: {:?} {}", w, cut(&c)));
    }
    cx.seen_bytes(&o);
    cx.sample(|| format!("{} -> {}", cut(&c), hex(&o)));
    let want = Pk::Connect(plain.clone()).canon();
    match decode(Ver::V4, &o) {
        Verdict::Accept(p) | Verdict::May(_, Some(p)) if p == want => {}
        d => return cx.fail(format!("not a 3.1.1 CONNECT of the same values: {} -> {} which is {}", cut(&c), hex(&o), cut(&d))),
    }
    let mut o4 = BytesMut::new();
    let w4 = CPk::of(Ver::V4, &Pk::Connect(plain), k).write(&mut o4);
    if w4 != w || o4 != o {
        return cx.fail(format!("the 3.1.1 module writes {} and the 5 module {}: {}", hex(&o4), hex(&o), cut(&c)));
    }
    if let (Some(l), Fr::Known(_, r)) = (v.public_len(), framing(&o)) {
        if l != r {
            return cx.fail(format!("len() of a 3.1.1 CONNECT is {}, not {}: {}", l, r, cut(&c)));
        }
    }
    via5(cx, &o);
    cx.ev("3.1.1 CONNECTs written by both");
}

pub fn checks() -> Vec<Check> {
    let m = mask_total();
    let types = |v: &mut Vec<(&'static str, u64)>, ts: &[u8]| v.extend(ts.iter().map(|t| (type_name(*t), 100)));
    vec![
        Check {
            id: "C18",
            rule: "Packets of both versions, at length boundaries, with every subset of properties; each written into an empty buffer and behind queued bytes (frames, noise) in buffers of every history (spare, exact, shared, advanced, dirty capacity); queues of up to 60 packets. Distinct by bytes written.",
            workloads: vec![
                wl("random", 250_000, 15_000_000, app_random),
                wl("property subsets", m, 10 * m, app_props),
                wl("queues", 10_000, 500_000, app_queue),
                heavy("giants", 23, 230, app_giants),
                heavy("behind megabytes", 100, 3_000, app_behind),
            ],
            require: {
                let mut v = vec![
                    ("writes behind queued bytes", 100_000),
                    ("public lengths compared", 10_000),
                    ("public property lengths compared", 10_000),
                    ("packets queued", 100_000),
                ];
                types(&mut v, &[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14]);
                v
            },
            assumptions: vec![],
            exhaustive: "",
        },
        Check {
            id: "C19",
            rule: "Every length-prefixed field of every packet made too long (65536 bytes and more), QoS>0 publishes without id, subscription identifiers and packets beyond 268435455, each written into empty and used buffers with another packet behind; queues mixing good and bad packets. Distinct by packet.",
            workloads: vec![
                wl("fields", 40_000, 2_000_000, ref_fields),
                heavy("giants", 24, 300, ref_fields),
                wl("packet id", 20_000, 1_000_000, ref_pkid),
                wl("subscription identifier", 20_000, 1_000_000, ref_subid),
                wl("queues", 6_000, 300_000, ref_queue),
                heavy("total length", 22, 44, ref_total),
            ],
            require: {
                let mut v = vec![
                    ("refused without a trace", 50_000),
                    ("packets written after a refusal", 50_000),
                    ("written at the limit", 10_000),
                    ("publishes without packet id", 1_000),
                    ("subscription identifiers too large", 1_000),
                    ("total lengths too large", 22),
                    ("written in between", 1_000),
                    ("refused in between", 1_000),
                ];
                types(&mut v, &[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 14]); // all with length-prefixed fields
                v
            },
            assumptions: vec!["64-bit usize"],
            exhaustive: "",
        },
        Check {
            id: "C26",
            rule: "Every constructor and setter of both modules with random texts, payloads, ids, codes and flags; subscriptions of up to 300 filters built in every way; setters in random order; arguments and lists of up to 2 MB and 70000 elements. The expected value is spelt out field by field. Distinct by arguments.",
            workloads: vec![wl("packets", 60_000, 3_000_000, build), wl("subscriptions", 80_000, 4_000_000, build_subscribe), heavy("long", 300, 10_000, build_long)],
            require: vec![
                ("v4 Connect::new", 10_000),
                ("v5 set_login", 10_000),
                ("v5 Unsubscribe::new", 10_000),
                ("empty subscriptions refused", 100),
                ("subscriptions built", 10_000),
                ("filters added", 10_000),
                ("options set", 10_000),
                ("built of long arguments", 5_000),
            ],
            assumptions: vec![],
            exhaustive: "",
        },
        Check {
            id: "C27",
            rule: "CONNECTs of both versions with all combinations of present and absent user name, password and will, written by the crate and decoded by the reference, written by the reference (also with empty fields present) and read by the crate; logins validated against themselves, swapped, shifted and slightly different credentials. Distinct by packet or login.",
            workloads: vec![
                wl("carried", 150_000, 10_000_000, carried),
                wl("validate", 100_000, 8_000_000, validated),
                wl("validate small", 121, 121, validated_small),
            ],
            require: vec![
                ("no credentials", 1_000),
                ("user name only", 1_000),
                ("password only", 1_000),
                ("both", 1_000),
                ("with a will", 1_000),
                ("without a will", 1_000),
                ("credentials written", 10_000),
                ("credentials read", 10_000),
                ("logins accepted", 10_000),
                ("logins refused", 10_000),
            ],
            assumptions: vec!["an empty user name or password counts as absent, as in the crate's API"],
            exhaustive: "",
        },
        Check {
            id: "C30",
            rule: "3.1.1 CONNECTs in every spelling, mutated, and with every byte at every value, read by both modules; CONNECT values of protocol 3.1.1 with and without (meaningless) properties, written by both modules and decoded by the reference. Distinct by bytes.",
            workloads: vec![
                wl("read", 200_000, 15_000_000, via_read),
                wl("bytes", 500, 20_000, via_bytes),
                wl("write", 150_000, 10_000_000, via_write),
            ],
            require: vec![
                ("3.1.1 CONNECTs read by both", 10_000),
                ("3.1.1 CONNECTs written by both", 10_000),
                ("refused by both", 1_000),
                ("with a will", 1_000),
                ("with a login", 1_000),
                ("with properties in the value", 1_000),
            ],
            assumptions: vec![],
            exhaustive: "",
        },
    ]
}
