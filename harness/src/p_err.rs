//! C33: an error names the one fault of what was refused.

use crate::conv::*;
use crate::gen::*;
use crate::mon::*;
use crate::p_codec::*;
use crate::p_write::{fields, long_text, oversize, F};
use crate::refm::*;
use crate::rng::{hash, Rng};
use bytes::{Bytes, BytesMut};
use mqttbytes::{v4, v5, Error, QoS};

/// What the packet, or the call, got wrong.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Fault {
    Name,
    Level(u8),
    Type(u8),
    Qos(u8),
    Retain(u8),
    WillFlags,
    Property(u8),
    /// A code; of a connack, or of another packet
    ConnCode(u8),
    Code(u8),
    Text,
    PkidZero,
    NoSubs,
    /// The packet ends too early, or a length in it claims too much; the claim, where there is just one
    Short(Option<usize>),
    TooLarge(usize),
    RemLen,
    TooLong,
}

fn tells(f: Fault, e: &Error) -> bool {
    use Error::*;
    match (f, e) {
        (Fault::Name, InvalidProtocol)
        | (Fault::WillFlags, IncorrectPacketFormat)
        | (Fault::Text, TopicNotUtf8)
        | (Fault::PkidZero, PacketIdZero)
        | (Fault::NoSubs, EmptySubscription)
        | (Fault::RemLen, MalformedRemainingLength)
        | (Fault::TooLong, PayloadTooLong) => true,
        (Fault::Level(x), InvalidProtocolLevel(y))
        | (Fault::Type(x), InvalidPacketType(y))
        | (Fault::Qos(x), InvalidQoS(y))
        | (Fault::Retain(x), InvalidRetainForwardRule(y))
        | (Fault::Property(x), InvalidPropertyType(y))
        | (Fault::ConnCode(x), InvalidConnectReturnCode(y))
        | (Fault::Code(x), InvalidConnectReturnCode(y) | InvalidReason(y) | InvalidSubscribeReasonCode(y)) => x == *y,
        (Fault::TooLarge(x), PayloadSizeLimitExceeded(y)) => x == *y,
        (Fault::Short(x), BoundaryCrossed(y)) => x.is_none() || x == Some(*y),
        (Fault::Short(_), MalformedPacket | MalformedRemainingLength | PayloadSizeIncorrect | PayloadRequired | IncorrectPacketFormat) => true,
        _ => false,
    }
}

fn event(f: Fault) -> &'static str {
    match f {
        Fault::Name => "protocol names",
        Fault::Level(_) => "protocol levels",
        Fault::Type(_) => "packet types",
        Fault::Qos(_) => "QoS levels",
        Fault::Retain(_) => "retain rules",
        Fault::WillFlags => "will flags",
        Fault::Property(_) => "properties",
        Fault::ConnCode(_) => "connack codes",
        Fault::Code(_) => "other codes",
        Fault::Text => "texts",
        Fault::PkidZero => "packet ids",
        Fault::NoSubs => "empty subscriptions",
        Fault::Short(None) => "short packets",
        Fault::Short(_) => "fields too long for the packet",
        Fault::TooLarge(_) => "sizes over the limit",
        Fault::RemLen => "length fields",
        Fault::TooLong => "too long to write",
    }
}

const KINDS: u64 = 16;

/// A well-formed packet with one fault, and which.
fn one(r: &mut Rng, ver: Ver, kind: u64, huge: bool) -> Option<(Vec<u8>, Fault)> {
    let v5 = ver == Ver::V5;
    let small = r.p(7, 8);
    let of = |r: &mut Rng, ty: u8| {
        if huge {
            let k = match ty {
                8 => 1,
                9 => 3,
                10 => 2,
                11 => 4,
                3 => 5 * r.below(2) as u64,
                t => 6 + PLACES.iter().position(|p| p.1 == t).unwrap_or(0) as u64,
            };
            return if k < giants(ver) { giant(r, ver, k, 20 << 20) } else { Gen::new(r, true).packet_of(ver, ty) };
        }
        let g = Gen::new(r, true);
        let mut g = if small { g.budget(60) } else { g };
        g.packet_of(ver, ty)
    };
    let any = |r: &mut Rng| {
        let ty = r.range(1, 11) as u8;
        let ty = if v5 && ty == 11 { *r.pick(&[11, 14]) } else { ty };
        of(r, ty)
    };
    let enc = |r: &mut Rng, mut p: Pk| {
        shuffle_props(r, &mut p);
        let f = form(r);
        encode(ver, &p, f)
    };
    let span = |r: &mut Rng, e: &Enc, k: Sp| {
        let c: Vec<_> = e.spans.iter().filter(|s| s.0 == k).collect();
        (!c.is_empty()).then(|| *r.pick(&c)).map(|s| (s.1, s.2))
    };
    match kind {
        0 => {
            let p = any(r);
            let mut b = enc(r, p).bytes;
            let t = *r.pick(&[0u8, 15]);
            b[0] = t << 4 | b[0] & 15;
            Some((b, Fault::Type(t)))
        }
        1 => {
            let p = of(r, 1);
            let e = enc(r, p);
            let (a, z) = span(r, &e, Sp::Name)?;
            let name: Vec<u8> = match r.below(3) {
                0 => {
                    let mut n = b"MQTT".to_vec();
                    let i = r.below(4);
                    n[i] ^= 1 << r.below(7);
                    n
                }
                1 => r.pick(&[&b"MQIsdp"[..], b"", b"M", b"MQT", b"MQTTT", b"mqtt", b"Mqtt", b"MQTT ", b" MQTT", b"TTQM", b"HTTP", b"\0MQT", b"MQTT\0"]).to_vec(),
                _ => {
                    let t = Gen::new(r, true).budget(12).text();
                    if t == "MQTT" {
                        return None;
                    }
                    t.into_bytes()
                }
            };
            let mut f = (name.len() as u16).to_be_bytes().to_vec();
            f.extend_from_slice(&name);
            Some((reframe(&splice(&e.bytes, a - 2, z, &f), header_len(&e)), Fault::Name))
        }
        2 => {
            let p = of(r, 1);
            let e = enc(r, p);
            let (a, _) = span(r, &e, Sp::Level)?;
            let mut b = e.bytes;
            let l = if r.bool() { *r.pick(&[0, 1, 2, 3, 6, 7, 8, 0x84, 0x85, 0x83, 255]) } else { r.next() as u8 };
            if l == 4 || l == 5 {
                return None;
            }
            b[a] = l;
            Some((b, Fault::Level(l)))
        }
        3 => {
            let (mut p, ty) = {
                let ty = *r.pick(&[1, 3, 8]);
                (of(r, ty), ty)
            };
            if let Pk::Connect(c) = &mut p {
                c.will.get_or_insert(Will { props: vec![], topic: "t".into(), msg: vec![], qos: 1, retain: false });
            }
            if let Pk::Publish { qos, .. } = &mut p {
                if *qos == 0 && r.bool() {
                    *qos = 1;
                }
            }
            let e = enc(r, p);
            let (a, bits) = match ty {
                1 => (span(r, &e, Sp::ConnFlags)?.0, 0x18),
                3 => (0, 6),
                _ => (span(r, &e, Sp::Opts)?.0, 3),
            };
            let mut b = e.bytes;
            b[a] |= bits;
            Some((b, Fault::Qos(3)))
        }
        4 if v5 => {
            let p = of(r, 8);
            let e = enc(r, p);
            let (a, _) = span(r, &e, Sp::Opts)?;
            let mut b = e.bytes;
            b[a] |= 0x30;
            Some((b, Fault::Retain(3)))
        }
        5 => {
            let mut p = of(r, 1);
            if let Pk::Connect(c) = &mut p {
                c.will = None;
            }
            let e = enc(r, p);
            let (a, _) = span(r, &e, Sp::ConnFlags)?;
            let mut b = e.bytes;
            // QoS 3 would be a second fault
            b[a] |= *r.pick(&[0x08, 0x10, 0x20, 0x28, 0x30]);
            Some((b, Fault::WillFlags))
        }
        6 | 7 if v5 => {
            // an unknown property, or one of another packet
            let p = if r.bool() {
                any(r)
            } else {
                let (loc, ty) = *r.pick(PLACES);
                let mut p = of(r, ty);
                let bit = 1 << r.below(allowed(loc).len());
                let q = Gen::new(r, true).budget(60).props_mask(loc, bit);
                if loc != Loc::Will {
                    *p.props_mut()? = q;
                }
                p
            };
            let e = enc(r, p);
            let places: Vec<_> = e.spans.iter().filter(|s| s.0 == Sp::PropLen).map(|s| (s.1, s.2)).collect();
            if places.is_empty() {
                return None;
            }
            let i = r.below(places.len());
            let pl = places[i];
            let mut n = 0usize;
            for (i, x) in e.bytes[pl.0..pl.1].iter().enumerate() {
                n |= (*x as usize & 127) << (7 * i);
            }
            let loc = match (e.bytes[0] >> 4, i) {
                (1, 1) => Loc::Will,
                (t, _) => loc_of(t)?,
            };
            let (id, ins) = if kind == 6 {
                let id = r.next() as u8;
                if ptype(id).is_some() {
                    return None;
                }
                (id, [&[id][..], &[0, 0, 0, 0, 0][..r.below(5)]].concat())
            } else {
                let id = r.pick(PROPS).0;
                if allowed(loc).contains(&id) {
                    return None;
                }
                let v = Gen::new(r, true).budget(20).value(Loc::Connect, id);
                (id, encode_props(&vec![(id, v)])[1..].to_vec())
            };
            let at = if r.bool() { pl.1 } else { pl.1 + n };
            let mut f = vec![];
            varint(n + ins.len(), &mut f);
            let b = splice(&e.bytes, at, at, &ins);
            Some((reframe(&splice(&b, pl.0, pl.1, &f), header_len(&e)), Fault::Property(id)))
        }
        8 | 9 => {
            let ty = if v5 { *r.pick(&[2, 2, 4, 5, 6, 7, 9, 11, 14]) } else { *r.pick(&[2, 9]) };
            let p = of(r, ty);
            let e = encode(ver, &p, Form { ack: 1 + r.below(2) as u8, ..Form::default() });
            let (a, _) = span(r, &e, Sp::Code)?;
            let mut b = e.bytes;
            b[a] = match r.below(3) {
                0 => b[a] ^ 1 << r.below(8),
                1 => b[a].wrapping_add(1),
                _ => r.next() as u8,
            };
            if codes(ver, ty).contains(&b[a]) {
                return None;
            }
            let c = b[a];
            Some((b, if ty == 2 { Fault::ConnCode(c) } else { Fault::Code(c) }))
        }
        10 => {
            let p = any(r);
            let e = enc(r, p);
            let (a, z) = span(r, &e, Sp::Text)?;
            let bad = *r.pick(BAD_UTF8);
            if z - a < bad.len() {
                return None;
            }
            let mut b = e.bytes;
            let at = a + r.below(z - a - bad.len() + 1);
            b[at..at + bad.len()].copy_from_slice(bad);
            Some((b, Fault::Text))
        }
        11 => {
            let mut p = of(r, 3);
            if let Pk::Publish { qos, pkid, .. } = &mut p {
                *qos = r.range(1, 2) as u8;
                *pkid = 0;
            }
            Some((enc(r, p).bytes, Fault::PkidZero))
        }
        12 if !v5 => {
            let mut p = of(r, 8);
            if let Pk::Subscribe { filters, .. } = &mut p {
                filters.clear();
            }
            Some((enc(r, p).bytes, Fault::NoSubs))
        }
        13 => {
            // cut
            let p = any(r);
            let e = enc(r, p);
            let hl = header_len(&e);
            let n = if r.bool() { e.spans[r.below(e.spans.len())].1.max(hl) } else { r.range(hl, e.bytes.len()) };
            if n == e.bytes.len() {
                return None;
            }
            Some((reframe(&e.bytes[..n], hl), Fault::Short(None)))
        }
        14 => {
            // a length that claims more than the packet has left
            let p = any(r);
            let e = enc(r, p);
            let (a, z) = span(r, &e, Sp::LenPre)?;
            let left = e.bytes.len() - z;
            let n = *r.pick(&[left + 1, left + r.clone().range(1, 300), 65535, r.clone().below(65536)]);
            if n <= left || n > 65535 {
                return None;
            }
            let mut b = e.bytes;
            b[a..z].copy_from_slice(&(n as u16).to_be_bytes());
            Some((b, Fault::Short(Some(n))))
        }
        15 => {
            // nothing where something has to be
            let ty = r.range(1, 11) as u8;
            Some((vec![encode(ver, &of(r, ty), Form::default()).bytes[0], 0], Fault::Short(None)))
        }
        _ => None,
    }
}

fn tell(cx: &mut Cx, f: Fault, e: &Error, what: impl Fn() -> String) {
    cx.ev(event(f));
    if !tells(f, e) {
        return cx.fail(format!("{}: {:?} is answered with {:?}", what(), f, e));
    }
    cx.sample(|| format!("{}: {:?} is answered with {:?}", what(), f, e));
    // and in words
    let s = tgt(|| e.to_string());
    let n = match (f, e) {
        (_, Error::InvalidConnectReturnCode(x) | Error::InvalidReason(x) | Error::InvalidProtocolLevel(x) | Error::InvalidPacketType(x))
        | (_, Error::InvalidPropertyType(x) | Error::InvalidRetainForwardRule(x) | Error::InvalidQoS(x) | Error::InvalidSubscribeReasonCode(x)) => {
            vec![format!("{}", x), format!("{:x}", x), format!("{:X}", x)]
        }
        (_, Error::PayloadSizeLimitExceeded(x) | Error::BoundaryCrossed(x)) => vec![format!("{}", x), format!("{:x}", x), format!("{:X}", x)],
        _ => vec![String::new()],
    };
    if s.is_empty() || !n.iter().any(|n| s.contains(n)) {
        cx.fail(format!("{:?} reads {:?}", e, s));
    }
}

fn err_read(cx: &mut Cx) {
    let ver = any_ver(&mut cx.rng);
    let huge = cx.wl == "giants";
    let Some((b, f)) = one(&mut cx.rng, ver, cx.idx % KINDS, huge) else { return };
    if huge {
        cx.ev("giants")
    }
    match (f, decode(ver, &b)) {
        // the cut may have hit a place where the packet may end
        (Fault::Short(None), Verdict::Accept(_) | Verdict::May(..)) => return,
        // a list of nothing, in the words of its own
        (Fault::Short(None), Verdict::Must("no subscriptions", _)) => return,
        (_, Verdict::Must(..)) => {}
        // the bytes around made a character of it; or a password, see known_findings.txt
        (Fault::Text, Verdict::Accept(_) | Verdict::May(..)) => return,
        (f, v) => panic!("harness: {:?} put into {:?} {} gave {:?}", f, ver, hex(&b), v),
    }
    cx.seen_bytes(&b);
    match read_frame(ver, &b) {
        Ok(p) => cx.fail(format!("{:?} {} with {:?} was read as {}", ver, hex(&b), f, cut(&p.to_pk()))),
        Err(e) => tell(cx, f, &e, || format!("{:?} {}", ver, hex(&b))),
    }
    // through the queue of a connection: something before, something behind
    if cx.rng.p(1, 8) {
        let mut s = BytesMut::from(&b[..]);
        s.extend_from_slice(&[0xC0, 0, 0x30]);
        match read(ver, &mut s, MAX) {
            Ok(_) => cx.fail(format!("{:?} {} with {:?} was accepted with bytes behind it", ver, hex(&b), f)),
            Err(e) => tell(cx, f, &e, || format!("{:?} {} and bytes behind it", ver, hex(&b))),
        }
    }
}

/// The frame itself: too large for the limit, or of no possible length.
fn err_frame(cx: &mut Cx) {
    let ver = any_ver(&mut cx.rng);
    let r = &mut cx.rng;
    let first = (r.range(1, 14) as u8) << 4;
    if r.p(1, 4) {
        let mut b = vec![first, r.next() as u8 | 128, r.next() as u8 | 128, r.next() as u8 | 128, r.next() as u8 | 128];
        let more = r.below(4);
        for _ in 0..more {
            b.push(r.next() as u8);
        }
        let e = read_frame(ver, &b).map(|_| ());
        let c = tgt(|| mqttbytes::check(b.iter(), MAX)).map(|_| ());
        cx.seen_bytes(&b);
        for x in [e, c] {
            match x {
                Ok(_) => cx.fail(format!("{:?} {} was accepted", ver, hex(&b))),
                Err(e) => tell(cx, Fault::RemLen, &e, || format!("{:?} {}", ver, hex(&b))),
            }
        }
        return;
    }
    let n = (r.range(1, MAX)) >> r.below(28);
    if n == 0 {
        return;
    }
    let limit = match r.below(3) {
        0 => n - 1,
        1 => 0,
        _ => r.below(n),
    };
    let mut b = vec![first];
    varint(n, &mut b);
    let have = r.below(20).min(n);
    for _ in 0..have {
        b.push(r.next() as u8);
    }
    let mut s = BytesMut::from(&b[..]);
    let e = read(ver, &mut s, limit).map(|_| ());
    let c = tgt(|| mqttbytes::check(b.iter(), limit)).map(|_| ());
    cx.seen(hash(format!("{:?}{}", b, limit).as_bytes()));
    for x in [e, c] {
        match x {
            Ok(_) => cx.fail(format!("{:?} {} was accepted with limit {}", ver, hex(&b), limit)),
            Err(e) => tell(cx, Fault::TooLarge(n), &e, || format!("{:?} {} with limit {}", ver, hex(&b), limit)),
        }
    }
}

fn refused(cx: &mut Cx, f: Fault, v: &CPk, what: String) {
    let mut b = BytesMut::new();
    match v.write(&mut b) {
        Ok(_) => cx.fail(format!("{} was written", what)),
        Err(e) => tell(cx, f, &e, || what.clone()),
    }
}

/// What cannot be written.
fn err_write(cx: &mut Cx) {
    let ver = any_ver(&mut cx.rng);
    match cx.idx % 4 {
        0 => {
            let mut g = Gen::new(&mut cx.rng, true).budget(60);
            let mut pk = g.packet_of(ver, 3);
            if let Pk::Publish { qos, pkid, .. } = &mut pk {
                *qos = 1 + g.r.below(2) as u8;
                *pkid = 0;
            }
            cx.seen(hash(format!("{:?}", pk).as_bytes()));
            refused(cx, Fault::PkidZero, &CPk::of(ver, &pk, Knob::default()), format!("writing {:?} {}", ver, cut(&pk)));
        }
        1 | 2 => {
            let mut pk = if ver == Ver::V5 && cx.rng.p(2, 3) {
                mask_any(cx, true)
            } else {
                let ty = *cx.rng.pick(&[1, 1, 3, 8, 10, 2, 4, 5, 6, 7, 9, 11, 14]);
                Gen::new(&mut cx.rng, true).budget(60).packet_of(ver, ty)
            };
            let mut fs = fields(&mut pk);
            if fs.is_empty() {
                return;
            }
            let i = cx.rng.below(fs.len());
            let n = oversize(&mut cx.rng);
            match &mut fs[i] {
                F::S(s) => **s = long_text(&mut cx.rng, n),
                F::X(x) => **x = vec![1; n],
            }
            cx.seen(hash(format!("{:?}{}{}", cut(&pk), i, n).as_bytes()));
            refused(cx, Fault::TooLong, &CPk::of(ver, &pk, Knob::default()), format!("writing {:?} {} with {} bytes in field {}", ver, cut(&pk), n, i));
        }
        _ => {
            let n = uint(MAX as u64 + 1 + (cx.rng.next() >> cx.rng.range(30, 63)));
            let mut v = CPk::of(Ver::V5, &Gen::new(&mut cx.rng, true).budget(60).packet_of(Ver::V5, 8), Knob { empty_props: true, ..Knob::default() });
            if let CPk::P5(v5::Packet::Subscribe(s)) = &mut v {
                s.properties.as_mut().unwrap().id = Some(n);
            }
            cx.seen(hash(&n.to_le_bytes()));
            refused(cx, Fault::TooLong, &v, format!("writing subscription identifier {}", n));
        }
    }
}

fn err_huge(cx: &mut Cx) {
    let payload = Bytes::from(vec![0; MAX]);
    let (v, what) = match cx.idx {
        0 => (CPk::P4(v4::Packet::Publish(v4::Publish::from_bytes("t", QoS::AtMostOnce, payload))), "a 3.1.1 publish over 268435455 bytes"),
        _ => (CPk::P5(v5::Packet::Publish(v5::Publish::from_bytes("t", QoS::AtMostOnce, payload))), "an MQTT 5 publish over 268435455 bytes"),
    };
    refused(cx, Fault::TooLong, &v, what.into());
    match tgt(|| v4::Subscribe::new_many(vec![])) {
        Ok(_) => cx.fail("a 3.1.1 subscription of nothing was made".into()),
        Err(e) => tell(cx, Fault::NoSubs, &e, || "v4 Subscribe::new_many".into()),
    }
}

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C33",
        rule: "Well-formed packets of every kind with exactly one fault put in, of which the generator knows the kind and the offending value; frames over the limit and with impossible length fields; packets that cannot be written. The error returned has to be the one for that fault, with that value, and its text must show it. Distinct by bytes.",
        workloads: vec![
            wl("one fault", 200_000, 20_000_000, err_read),
            wl("frames", 30_000, 3_000_000, err_frame),
            wl("writes", 4_000, 100_000, err_write),
            heavy("giants", 3 * KINDS, 30 * KINDS, err_read),
            heavy("huge", 2, 2, err_huge),
        ],
        require: vec![
            ("protocol names", 1_000),
            ("protocol levels", 1_000),
            ("packet types", 1_000),
            ("QoS levels", 1_000),
            ("retain rules", 1_000),
            ("will flags", 1_000),
            ("properties", 1_000),
            ("connack codes", 1_000),
            ("other codes", 1_000),
            ("texts", 1_000),
            ("packet ids", 1_000),
            ("empty subscriptions", 1_000),
            ("short packets", 1_000),
            ("fields too long for the packet", 1_000),
            ("sizes over the limit", 1_000),
            ("length fields", 1_000),
            ("too long to write", 1_000),
        ],
        assumptions: vec!["a packet has one fault if the generator put in one and refm.rs finds the packet malformed", "for a packet that ends too early any of the errors about structure will do"],
        exhaustive: "",
    }]
}
