//! C13-C17: what must be refused is refused, codes, property sections, text.

use crate::conv::*;
use crate::gen::*;
use crate::mon::*;
use crate::p_codec::{giant_any, giant_case, mask_any};
use crate::refm::*;
use crate::rng::Rng;
use bytes::BytesMut;
use mqttbytes::{v4, v5, FixedHeader};

// --- judging a frame ---------------------------------------------------------------------------------------------

/// Reads the frame and holds the answer against the strict decoder's. `single`: at most one defect was put in, so an
/// error about a code has to be about that one. `meaning`: compare the values as well.
fn judge(cx: &mut Cx, ver: Ver, b: &[u8], single: bool, meaning: bool) {
    let got = read_frame(ver, b);
    let want = decode(ver, b);
    if b.len() > 2 {
        cx.seen_bytes(b);
    }
    match (&want, &got) {
        (Verdict::Must(c, v), Err(e)) => {
            cx.ev(c);
            cx.ev("malformed frames refused");
            cx.sample(|| format!("{:?} {} ({}) refused: {:?}", ver, hex(b), c, e));
            if let (true, Some(v), Some(n)) = (single, v, named(e)) {
                cx.ev("errors naming a code");
                if n != *v {
                    cx.fail(format!("error {:?} about value {} ({}): {:?} {}", e, v, c, ver, hex(b)));
                }
            }
        }
        (Verdict::Must(c, v), Ok(p)) => {
            cx.fail(format!("accepted in spite of: {} {:?}: {:?} {} read as {}", c, v, ver, hex(b), cut(&p.to_pk())))
        }
        (Verdict::Accept(w), Ok(p)) if meaning => {
            let p = p.to_pk();
            if p != *w {
                cx.fail(format!("{:?} {} means {} and was read as {}{}", ver, hex(b), cut(w), cut(&p), parting(w, &p)))
            } else {
                cx.ev("well-formed frames read")
            }
        }
        (Verdict::Accept(w), Err(e)) if meaning => {
            cx.fail(format!("{:?} {} means {} and was refused: {:?}", ver, hex(b), cut(w), e))
        }
        (Verdict::May(r, Some(w)), Ok(p)) if meaning && *r != "reserved subscription options" && !repeated(w) => {
            let p = p.to_pk();
            if p != *w {
                cx.fail(format!("{:?} {} ({}) means {} and was read as {}{}", ver, hex(b), r, cut(w), cut(&p), parting(w, &p)))
            } else {
                cx.ev("odd frames read")
            }
        }
        (Verdict::May(..), _) => cx.ev("odd frames"),
        _ => cx.ev("well-formed frames"),
    }
}

/// A property that may occur once occurs more often: which one counts is not judged.
fn repeated(p: &Pk) -> bool {
    let dup = |loc: Loc, p: &Props| (1..p.len()).any(|i| p[i].0 == p[i - 1].0 && !repeatable(loc, p[i].0));
    (match (p.props(), loc_of(p.ty())) {
        (Some(q), Some(l)) => dup(l, q),
        _ => false,
    }) || matches!(p, Pk::Connect(Conn { will: Some(w), .. }) if dup(Loc::Will, &w.props))
}

fn v_of(cx: &Cx) -> Ver {
    if cx.prop == "C13" {
        Ver::V4
    } else {
        Ver::V5
    }
}

fn span(r: &mut Rng, e: &Enc, k: Sp) -> Option<(usize, usize)> {
    let c: Vec<_> = e.spans.iter().filter(|s| s.0 == k).collect();
    if c.is_empty() {
        return None;
    }
    let s = match r.below(4) {
        0 => c[0],
        1 => c[c.len() - 1],
        _ => r.pick(&c),
    };
    Some((s.1, s.2))
}

/// Makes the property section whose length field is at `pl` longer by inserting `ins` at `at`.
fn insert_in_props(e: &Enc, pl: (usize, usize), at: usize, ins: &[u8]) -> Vec<u8> {
    let b = &e.bytes;
    let mut old = 0usize;
    for (i, x) in b[pl.0..pl.1].iter().enumerate() {
        old |= (*x as usize & 127) << (7 * i);
    }
    let mut f = vec![];
    varint(old + ins.len(), &mut f);
    let v = splice(b, at, at, ins);
    let v = splice(&v, pl.0, pl.1, &f);
    reframe(&v, header_len(e))
}

/// End of the property section behind its length field.
fn section(e: &Enc, pl: (usize, usize)) -> (usize, usize) {
    let mut old = 0usize;
    for (i, x) in e.bytes[pl.0..pl.1].iter().enumerate() {
        old |= (*x as usize & 127) << (7 * i);
    }
    (pl.1, pl.1 + old)
}

const KINDS: u64 = 24;

/// A well-formed packet with one defect.
fn defect(r: &mut Rng, ver: Ver, kind: u64) -> Option<Vec<u8>> {
    let v5 = ver == Ver::V5;
    let conf = true;
    let small = r.p(3, 4);
    let of = |r: &mut Rng, ty: u8| {
        let g = Gen::new(r, conf);
        let mut g = if small { g.budget(60) } else { g };
        g.packet_of(ver, ty)
    };
    let any = |r: &mut Rng| {
        let ty = r.range(1, 11) as u8;
        let ty = if v5 && ty == 11 { *r.pick(&[11, 14]) } else { ty };
        of(r, ty)
    };
    let enc = |r: &mut Rng, mut p: Pk| {
        shuffle_props(r, &mut p);
        let f = form(r);
        encode(ver, &p, f)
    };
    match kind {
        // packet type
        0 => {
            let p = any(r);
            let mut b = enc(r, p).bytes;
            b[0] = *r.pick(&[0x00, 0xF0]) | r.below(16) as u8;
            Some(b)
        }
        // cut
        1 | 2 => {
            let p = any(r);
            let e = enc(r, p);
            let hl = header_len(&e);
            let n = if r.bool() {
                e.spans[r.below(e.spans.len())].1.max(hl)
            } else {
                r.range(hl, e.bytes.len())
            };
            Some(reframe(&e.bytes[..n], hl))
        }
        // length prefix
        3 | 4 => {
            let p = any(r);
            let e = enc(r, p);
            let (a, z) = span(r, &e, Sp::LenPre)?;
            let mut b = e.bytes;
            let left = b.len() - z;
            let n = match r.below(6) {
                0 => 65535,
                1 | 2 => left + 1,
                3 => left + r.range(1, 300),
                4 => *r.pick(&dict().ints) as usize,
                _ => r.below(65536),
            };
            b[a..z].copy_from_slice(&(n.min(65535) as u16).to_be_bytes());
            Some(b)
        }
        // UTF-8
        5 | 6 => {
            let p = any(r);
            let e = enc(r, p);
            let mut b = e.bytes.clone();
            for _ in 0..6 {
                if let Some((a, z)) = span(r, &e, Sp::Text) {
                    let bad = *r.pick(BAD_UTF8);
                    if z - a >= bad.len() {
                        let at = a + r.below(z - a - bad.len() + 1);
                        b[at..at + bad.len()].copy_from_slice(bad);
                        return Some(b);
                    }
                }
            }
            None
        }
        // QoS 3
        7 => {
            let mut b = {
                let p = of(r, 3);
                enc(r, p).bytes
            };
            b[0] |= 6;
            Some(b)
        }
        8 => {
            let p = of(r, 8);
            let e = enc(r, p);
            let (a, _) = span(r, &e, Sp::Opts)?;
            let mut b = e.bytes;
            b[a] |= 3;
            Some(b)
        }
        9 => {
            let mut p = of(r, 1);
            if let Pk::Connect(c) = &mut p {
                c.will.get_or_insert(Will { props: vec![], topic: "t".into(), msg: vec![], qos: 1, retain: false });
            }
            let e = enc(r, p);
            let (a, _) = span(r, &e, Sp::ConnFlags)?;
            let mut b = e.bytes;
            b[a] |= 0x18;
            Some(b)
        }
        // protocol name and level
        10 => {
            let p = of(r, 1);
            let e = enc(r, p);
            let (a, z) = span(r, &e, Sp::Name)?;
            let mut b = e.bytes.clone();
            match r.below(3) {
                0 => {
                    let i = r.range(a, z - 1);
                    b[i] ^= 1 << r.below(8);
                    Some(b)
                }
                1 => {
                    let name: &[u8] = *r.pick(&[&b"MQIsdp"[..], b"", b"M", b"MQT", b"MQTTT", b"mqtt", b"Mqtt", b"MQTT ", b" MQTT", b"TTQM", b"HTTP", b"MQTS", b"MQTT\0"]);
                    let mut f = (name.len() as u16).to_be_bytes().to_vec();
                    f.extend_from_slice(name);
                    Some(reframe(&splice(&b, a - 2, z, &f), header_len(&e)))
                }
                _ => {
                    let n = r.below(70);
                    b[a - 2..a].copy_from_slice(&(n as u16).to_be_bytes());
                    Some(b)
                }
            }
        }
        11 => {
            let p = of(r, 1);
            let e = enc(r, p);
            let (a, _) = span(r, &e, Sp::Level)?;
            let mut b = e.bytes;
            b[a] = if r.bool() { *r.pick(&[0, 1, 2, 3, 6, 7, 8, 0x84, 0x85, 0x83, 255]) } else { r.next() as u8 };
            Some(b)
        }
        // will flags without will
        12 => {
            let mut p = of(r, 1);
            if let Pk::Connect(c) = &mut p {
                c.will = None;
            }
            let e = enc(r, p);
            let (a, _) = span(r, &e, Sp::ConnFlags)?;
            let mut b = e.bytes;
            b[a] |= *r.pick(&[0x08, 0x10, 0x18, 0x20, 0x28, 0x30, 0x38]);
            Some(b)
        }
        // packet id 0
        13 => {
            let mut p = of(r, 3);
            if let Pk::Publish { qos, pkid, .. } = &mut p {
                *qos = r.range(1, 2) as u8;
                *pkid = 0;
            }
            Some(enc(r, p).bytes)
        }
        // codes
        14 | 15 => {
            let ty = if v5 { *r.pick(&[2, 4, 5, 6, 7, 9, 11, 14]) } else { *r.pick(&[2, 9]) };
            let p = of(r, ty);
            let e = encode(ver, &p, Form { ack: 1 + r.below(2) as u8, ..Form::default() });
            let mut b = e.bytes.clone();
            let at = match span(r, &e, Sp::Code) {
                Some((a, _)) => a,
                None => {
                    b.push(0);
                    b.len() - 1
                }
            };
            let other = *r.pick(&[2, 4, 6, 9, 11, 14]);
            b[at] = match r.below(3) {
                0 => *r.pick(codes(Ver::V5, other)),
                1 => b[at] ^ 1 << r.below(8),
                _ => r.next() as u8,
            };
            Some(reframe(&b, header_len(&e)))
        }
        // empty lists, sizes
        16 => {
            let ty = *r.pick(if v5 { &[9, 11][..] } else { &[8, 9][..] });
            let mut p = of(r, ty);
            match &mut p {
                Pk::Subscribe { filters, .. } => filters.clear(),
                Pk::SubAck { codes, .. } | Pk::UnsubAck { codes, .. } => codes.clear(),
                _ => {}
            }
            Some(enc(r, p).bytes)
        }
        17 => {
            if v5 {
                return defect(r, ver, 20);
            }
            let n = *r.pick(&[0, 1, 3, 4, 5, 6, 10, 127, 128, 300]);
            let mut v = vec![0; n];
            r.fill(&mut v);
            Some(frame(0xB0, &v))
        }
        // properties
        18 if v5 => {
            // unknown
            let p = any(r);
            let e = enc(r, p);
            if r.bool() {
                let (a, _) = span(r, &e, Sp::PropId)?;
                let mut b = e.bytes;
                b[a] = r.next() as u8;
                return Some(b);
            }
            let pl = span(r, &e, Sp::PropLen)?;
            let (a, z) = section(&e, pl);
            let at = if r.bool() { a } else { z };
            let id = loop {
                let id = r.next() as u8;
                if ptype(id).is_none() {
                    break id;
                }
            };
            let mut ins = vec![id];
            ins.extend_from_slice(&[0, 0, 0, 0, 0][..r.below(5)]);
            Some(insert_in_props(&e, pl, at, &ins))
        }
        19 if v5 => {
            // not allowed here: a complete property of another packet
            let p = any(r);
            let e = enc(r, p);
            let pl = span(r, &e, Sp::PropLen)?;
            let (a, z) = section(&e, pl);
            let id = r.pick(PROPS).0;
            let v = Gen::new(r, true).budget(20).value(Loc::Connect, id);
            let w = encode_props(&vec![(id, v)]);
            let at = *r.pick(&[a, z]);
            Some(insert_in_props(&e, pl, at, &w[1..]))
        }
        20 if v5 => {
            // property length
            let p = any(r);
            let e = enc(r, p);
            let pl = span(r, &e, Sp::PropLen)?;
            let (a, z) = section(&e, pl);
            let left = e.bytes.len() - a;
            let old = z - a;
            let n = match r.below(6) {
                0 => left + 1,
                1 => left + r.range(1, 1000),
                2 => old.saturating_sub(r.range(1, 8)),
                3 => 268_435_455,
                4 => old + r.range(1, 8),
                _ => r.below(left + 3),
            };
            let mut f = vec![];
            varint(n, &mut f);
            if r.p(1, 8) {
                f = vec![0xFF, 0xFF, 0xFF, 0xFF, 0x7F];
            }
            Some(reframe(&splice(&e.bytes, pl.0, pl.1, &f), header_len(&e)))
        }
        21 if v5 => {
            // a property cut inside its section, the section's length corrected
            let p = any(r);
            let e = enc(r, p);
            let ps: Vec<_> = e.spans.iter().filter(|s| s.0 == Sp::Prop).collect();
            if ps.is_empty() {
                return None;
            }
            let s = **r.pick(&ps);
            let pl = e.spans.iter().filter(|l| l.0 == Sp::PropLen && l.1 < s.1).last().map(|l| (l.1, l.2))?;
            let (a, z) = section(&e, pl);
            // the cut property becomes the last of its section
            let keep = r.range(s.1 + 1, s.2);
            let mut f = vec![];
            varint(keep - a, &mut f);
            let v = splice(&e.bytes, keep, z, &[]);
            Some(reframe(&splice(&v, pl.0, pl.1, &f), header_len(&e)))
        }
        22 if v5 => {
            let p = of(r, 8);
            let e = enc(r, p);
            let (a, _) = span(r, &e, Sp::Opts)?;
            let mut b = e.bytes;
            b[a] |= 0x30;
            Some(b)
        }
        23 if v5 => {
            let mut b = {
                let p = of(r, 14);
                enc(r, p).bytes
            };
            b[0] |= r.range(1, 15) as u8;
            Some(b)
        }
        _ => None,
    }
}

fn bad_single(cx: &mut Cx) {
    let ver = v_of(cx);
    let kind = cx.idx % KINDS;
    if let Some(b) = defect(&mut cx.rng, ver, kind) {
        judge(cx, ver, &b, true, false)
    }
}

/// A defect at the end of a giant.
fn bad_giants(cx: &mut Cx) {
    let ver = v_of(cx);
    let pk = giant_case(cx, ver);
    let e = encode(ver, &pk, Form::default());
    for _ in 0..6 {
        let b = late_change(&mut cx.rng, &e);
        judge(cx, ver, &b, false, false)
    }
}

/// Every prefix of a small packet, as a frame.
fn bad_cuts(cx: &mut Cx) {
    let ver = v_of(cx);
    let pk = if ver == Ver::V5 && cx.rng.p(2, 3) {
        mask_any(cx, true)
    } else {
        let ty = (cx.idx % 14 + 1) as u8;
        Gen::new(&mut cx.rng, true).budget(80).packet_of(ver, ty)
    };
    let f = form(&mut cx.rng);
    let e = encode(ver, &pk, f);
    let hl = header_len(&e);
    if e.bytes.len() > 400 {
        return;
    }
    for n in hl..e.bytes.len() {
        let b = reframe(&e.bytes[..n], hl);
        judge(cx, ver, &b, true, false);
    }
}

/// Every value of every byte of a small packet.
fn bad_bytes(cx: &mut Cx) {
    let ver = v_of(cx);
    let ty = (cx.idx % 14 + 1) as u8;
    let pk = Gen::new(&mut cx.rng, true).budget(12).packet_of(ver, ty);
    let f = form(&mut cx.rng);
    let e = encode(ver, &pk, f);
    let hl = header_len(&e);
    if e.bytes.len() > 60 {
        return;
    }
    let mut b = e.bytes.clone();
    for i in 0..b.len() {
        if (1..hl).contains(&i) {
            continue;
        }
        let old = b[i];
        for x in 0..=255 {
            b[i] = x;
            judge(cx, ver, &b, false, false);
        }
        b[i] = old;
    }
}

fn bad_generic(cx: &mut Cx) {
    let ver = v_of(cx);
    let b = any_frame(&mut cx.rng, ver);
    judge(cx, ver, &b, false, false)
}

/// Every frame of at most two body bytes; every first byte and body byte pattern.
fn bad_tiny(cx: &mut Cx) {
    let ver = v_of(cx);
    let b1 = cx.idx as u8;
    judge(cx, ver, &frame(b1, &[]), true, false);
    for x in 0..=255u8 {
        judge(cx, ver, &frame(b1, &[x]), true, false);
    }
    for x in 0..=65535u16 {
        judge(cx, ver, &frame(b1, &x.to_be_bytes()), false, false);
        if b1 >> 4 != 1 {
            let [p, q] = x.to_be_bytes();
            judge(cx, ver, &frame(b1, &[0, 1, p, q]), false, false);
            judge(cx, ver, &frame(b1, &[0, 1, p, q, 0]), false, false);
        }
    }
}

// --- C15 ---------------------------------------------------------------------------------------------------------

/// (version, type) pairs carrying codes.
const CODED: &[(Ver, u8)] = &[
    (Ver::V4, 2),
    (Ver::V4, 9),
    (Ver::V5, 2),
    (Ver::V5, 4),
    (Ver::V5, 5),
    (Ver::V5, 6),
    (Ver::V5, 7),
    (Ver::V5, 9),
    (Ver::V5, 11),
    (Ver::V5, 14),
];

/// A packet with the code `c` at position k of n, its bytes, whatever the value, by hand.
fn code_frame(r: &mut Rng, ver: Ver, ty: u8, c: u8, k: usize, n: usize) -> (Vec<u8>, Option<Pk>) {
    let v5 = ver == Ver::V5;
    let ok = *r.pick(codes(ver, ty));
    let props = if v5 && r.bool() { Gen::new(r, true).budget(40).props(loc_of(ty).unwrap()) } else { vec![] };
    let pkid = Gen::new(r, true).pkid();
    let mut list: Vec<u8> = (0..n).map(|_| *r.pick(codes(ver, ty))).collect();
    let pk = |c: u8, list: Vec<u8>| match ty {
        2 => Pk::ConnAck { sp: false, code: c, props: props.clone() },
        9 => Pk::SubAck { pkid, props: props.clone(), codes: list },
        11 => Pk::UnsubAck { pkid, props: props.clone(), codes: list },
        14 => Pk::Disconnect { reason: c, props: props.clone() },
        _ => Pk::Ack { ty, pkid, reason: c, props: props.clone() },
    };
    let f = Form { ack: 1 + r.below(2) as u8, ..Form::default() };
    let mut b;
    if ty == 9 || ty == 11 {
        list[k] = ok;
        b = encode(ver, &pk(0, list.clone()), f).bytes;
        let at = b.len() - n + k;
        b[at] = c;
        list[k] = c;
    } else {
        let mut g = f;
        if ty == 14 && r.bool() {
            g.ack = 1;
        }
        let e = encode(ver, &pk(ok, vec![]), g);
        b = e.bytes.clone();
        // a zero code may have been left out of a DISCONNECT
        let at = e.spans.iter().find(|s| s.0 == Sp::Code);
        match at {
            Some(s) => b[s.1] = c,
            None => {
                b.push(c);
                b = reframe(&b, header_len(&e));
            }
        }
    }
    let defined = codes(ver, ty).contains(&c);
    (b, if defined { Some(pk(c, list).canon()) } else { None })
}

fn code_case(cx: &mut Cx) {
    let (ver, ty) = CODED[cx.idx as usize % CODED.len()];
    let lists: &[(usize, usize)] =
        if ty == 9 || ty == 11 { &[(0, 1), (0, 2), (1, 2), (0, 5), (2, 5), (4, 5), (17, 40), (129, 130)] } else { &[(0, 0)] };
    for (k, n) in lists {
        for c in 0..=255u8 {
            let (b, want) = code_frame(&mut cx.rng, ver, ty, c, *k, *n);
            cx.seen_bytes(&b);
            match (read_frame(ver, &b), want) {
                (Ok(p), Some(w)) => {
                    if p.to_pk() != w {
                        cx.fail(format!("code {:#04x} of {:?} {}: {} read as {}", c, ver, type_name(ty), hex(&b), cut(&p.to_pk())));
                        continue;
                    }
                    let mut o = BytesMut::new();
                    match p.write(&mut o) {
                        Ok(_) => {
                            let back = match decode(ver, &o) {
                                Verdict::Accept(p) | Verdict::May(_, Some(p)) => Some(p),
                                _ => None,
                            };
                            if back.as_ref() != Some(&w) {
                                cx.fail(format!("code {:#04x} of {:?} {}: {} written back as {} = {}", c, ver, type_name(ty), hex(&b), hex(&o), cut(&back)));
                            } else {
                                cx.ev("defined codes decoded and encoded back");
                            }
                        }
                        Err(e) => cx.fail(format!("code {:#04x} of {:?} {} not written: {:?}", c, ver, type_name(ty), e)),
                    }
                }
                (Err(e), None) => {
                    if named(&e) != Some(c) {
                        cx.fail(format!("code {:#04x} of {:?} {} refused with {:?}: {}", c, ver, type_name(ty), e, hex(&b)));
                    } else {
                        cx.ev("undefined codes refused by name");
                    }
                }
                (Ok(p), None) => {
                    cx.fail(format!("undefined code {:#04x} of {:?} {} accepted: {} read as {}", c, ver, type_name(ty), hex(&b), cut(&p.to_pk())))
                }
                (Err(e), Some(_)) => {
                    cx.fail(format!("defined code {:#04x} of {:?} {} refused: {:?} {}", c, ver, type_name(ty), e, hex(&b)))
                }
            }
        }
    }
}

/// The conversions of the API.
fn code_api(cx: &mut Cx) {
    use std::convert::TryFrom;
    for n in 0..=255u8 {
        let q = tgt(|| mqttbytes::qos(n));
        match &q {
            Ok(q) if n <= 2 && *q as u8 == n && qos_num(*q) == n => {}
            Err(e) if n > 2 && named(e) == Some(n) => {}
            r => cx.fail(format!("qos({}) is {:?}", n, r)),
        }
        for b in [1usize, 4] {
            let t = tgt(|| FixedHeader::new(n, b, 7).packet_type());
            let ty = n >> 4;
            match t {
                Ok(t) if (1..=14).contains(&ty) && type_num(t) == ty && t as u8 == ty => {}
                Err(e) if (ty == 0 || ty == 15) && named(&e) == Some(ty) => {}
                r => cx.fail(format!("packet type of first byte {:#04x} is {:?}", n, r)),
            }
        }
        match tgt(|| v4::SubscribeReasonCode::try_from(n)) {
            Ok(c) if codes(Ver::V4, 9).contains(&n) && sa4_num(c) == n => {}
            Err(e) if !codes(Ver::V4, 9).contains(&n) && named(&e) == Some(n) => {}
            r => cx.fail(format!("3.1.1 suback code {:#04x} is {:?}", n, r)),
        }
        match tgt(|| v5::SubscribeReasonCode::try_from(n)) {
            Ok(c) if codes(Ver::V5, 9).contains(&n) && sa5_num(c) == n => {}
            Err(e) if !codes(Ver::V5, 9).contains(&n) && named(&e) == Some(n) => {}
            r => cx.fail(format!("MQTT 5 suback code {:#04x} is {:?}", n, r)),
        }
        match tgt(|| v5::DisconnectReasonCode::try_from(n)) {
            Ok(c) if codes(Ver::V5, 14).contains(&n) && dc_num(c) == n => {}
            Err(e) if !codes(Ver::V5, 14).contains(&n) && named(&e) == Some(n) => {}
            r => cx.fail(format!("MQTT 5 disconnect code {:#04x} is {:?}", n, r)),
        }
        cx.evn("conversions compared", 6);
        cx.seen(n as u64 | 1 << 40);
    }
}

/// QoS and retain handling wherever they are part of a byte; packet types on the wire.
/// Codes of very long lists, one of them perhaps undefined.
fn code_giants(cx: &mut Cx) {
    let (ver, kind) = *cx.rng.pick(&[(Ver::V4, 3), (Ver::V5, 3), (Ver::V5, 4), (Ver::V4, 1), (Ver::V5, 1)]);
    let pk = giant(&mut cx.rng, ver, kind, 0);
    let e = encode(ver, &pk, Form::default());
    judge(cx, ver, &e.bytes, true, true);
    let c: Vec<_> = e.spans.iter().filter(|s| matches!(s.0, Sp::Code | Sp::Opts)).collect();
    for i in 0..6 {
        let s = if i == 0 { c[c.len() - 1] } else { c[cx.rng.below(c.len())] };
        let mut b = e.bytes.clone();
        b[s.1] = cx.rng.next() as u8;
        cx.ev("codes in giants");
        judge(cx, ver, &b, true, true)
    }
}

fn code_bits(cx: &mut Cx) {
    let ver = if cx.idx % 2 == 0 { Ver::V4 } else { Ver::V5 };
    let r = &mut cx.rng;
    let mut todo: Vec<(Vec<u8>, Option<u8>, Option<Pk>)> = vec![]; // frame, refused with, or meaning
    // PUBLISH flags
    for low in 0..16u8 {
        let q = low >> 1 & 3;
        let mut p = Gen::new(r, true).budget(60).packet_of(ver, 3);
        if let Pk::Publish { dup, qos, retain, pkid, .. } = &mut p {
            *dup = low & 8 != 0;
            *qos = q.min(2);
            *retain = low & 1 != 0;
            *pkid = if q == 0 { 0 } else { 77 };
        }
        let mut b = encode(ver, &p, Form::default()).bytes;
        b[0] = 0x30 | low;
        todo.push(if q == 3 { (b, Some(3), None) } else { (b, None, Some(p.canon())) });
    }
    // SUBSCRIBE options
    for o in 0..64u8 {
        if ver == Ver::V4 && o > 3 {
            break;
        }
        let mut p = Gen::new(r, true).budget(60).packet_of(ver, 8);
        let n = r.range(1, 4);
        let k = r.below(n);
        if let Pk::Subscribe { filters, .. } = &mut p {
            filters.resize(n, ("a".into(), 0));
            filters[k].0 = "x/+".into();
            filters[k].1 = o;
        }
        let b = encode(ver, &p, Form::default()).bytes;
        todo.push(if o & 3 == 3 || o >> 4 == 3 { (b, Some(3), None) } else { (b, None, Some(p.canon())) });
    }
    // will QoS
    for q in 0..4u8 {
        let mut c = Gen::new(r, true).budget(60).conn(if ver == Ver::V4 { 4 } else { 5 });
        c.will = Some(Will { props: vec![], topic: "w".into(), msg: vec![0xFF], qos: q, retain: r.bool() });
        let p = Pk::Connect(c);
        let b = encode(ver, &p, Form::default()).bytes;
        todo.push(if q == 3 { (b, Some(3), None) } else { (b, None, Some(p.canon())) });
    }
    // packet types
    for b1 in 0..=255u8 {
        let ty = b1 >> 4;
        if ty == 0 || ty == 15 {
            let mut v = vec![0; r.below(6)];
            r.fill(&mut v);
            todo.push((frame(b1, &v), Some(ty), None));
        }
    }
    for ty in 1..=14 {
        let p = Gen::new(r, true).budget(60).packet_of(ver, ty);
        let b = encode(ver, &p, Form::default()).bytes;
        todo.push((b, None, Some(p.canon())));
    }
    for (b, bad, pk) in todo {
        cx.seen_bytes(&b);
        match (read_frame(ver, &b), bad, pk) {
            (Err(e), Some(n), _) if named(&e) == Some(n) => cx.ev("undefined codes refused by name"),
            (Ok(p), None, Some(w)) if p.to_pk() == w => {
                let mut o = BytesMut::new();
                let wr = p.write(&mut o);
                match (wr, decode(ver, &o)) {
                    (Ok(_), Verdict::Accept(q)) | (Ok(_), Verdict::May(_, Some(q))) if q == w => {
                        cx.ev("defined codes decoded and encoded back")
                    }
                    (r, q) => cx.fail(format!("{:?} {} written back ({:?}) as {} = {}", ver, hex(&b), r, hex(&o), cut(&q))),
                }
            }
            (r, bad, pk) => cx.fail(format!(
                "{:?} {} read as {} instead of {}",
                ver,
                hex(&b),
                cut(&r.map(|p| p.to_pk())),
                match bad {
                    Some(n) => format!("an error naming {}", n),
                    None => cut(&pk),
                }
            )),
        }
    }
}

// --- C16 ---------------------------------------------------------------------------------------------------------

/// Every declared length of every property section of a small packet.
fn plen_all(cx: &mut Cx) {
    let pk = if cx.rng.p(1, 2) {
        mask_any(cx, true)
    } else {
        let ty = *cx.rng.pick(&[1, 1, 2, 3, 3, 4, 5, 6, 7, 8, 9, 10, 11, 14]);
        Gen::new(&mut cx.rng, true).budget(50).packet_of(Ver::V5, ty)
    };
    let mut pk = pk;
    if let Pk::Publish { payload, .. } = &mut pk {
        // a payload that looks like properties
        if cx.rng.p(2, 3) {
            let props = Gen::new(&mut cx.rng, true).budget(30).props(Loc::Publish);
            *payload = encode_props(&props)[1..].to_vec();
        }
    }
    shuffle_props(&mut cx.rng, &mut pk);
    let e = encode(Ver::V5, &pk, Form { ack: 2, ..Form::default() });
    if e.bytes.len() > 300 {
        return;
    }
    let hl = header_len(&e);
    let pls: Vec<_> = e.spans.iter().filter(|s| s.0 == Sp::PropLen).copied().collect();
    for (_, a, z) in pls {
        let left = e.bytes.len() - z;
        for n in (0..left + 3).chain([127, 128, 129, 16383, 16384, 2097151, 2097152, 268435455]) {
            let mut f = vec![];
            varint(n, &mut f);
            let b = reframe(&splice(&e.bytes, a, z, &f), hl);
            cx.ev("declared lengths tried");
            judge(cx, Ver::V5, &b, false, cx.prop == "C16");
            // the same with a longer field
            if cx.rng.p(1, 10) && f.len() < 4 {
                *f.last_mut().unwrap() |= 0x80;
                f.push(0);
                let b = reframe(&splice(&e.bytes, a, z, &f), hl);
                judge(cx, Ver::V5, &b, false, cx.prop == "C16");
            }
        }
        // five bytes
        let b = reframe(&splice(&e.bytes, a, z, &[0x80 | (left as u8 & 127), 0x80, 0x80, 0x80, 0x00]), hl);
        judge(cx, Ver::V5, &b, false, cx.prop == "C16");
    }
}

/// Properties moved, repeated and inserted, the declared length corrected or not.
fn plen_edit(cx: &mut Cx) {
    let conf = cx.rng.p(2, 3);
    let pk = if cx.rng.p(1, 2) {
        mask_any(cx, conf)
    } else {
        let ty = *cx.rng.pick(&[1, 1, 2, 3, 3, 4, 5, 6, 7, 8, 9, 10, 11, 14]);
        Gen::new(&mut cx.rng, conf).packet_of(Ver::V5, ty)
    };
    let mut pk = pk;
    shuffle_props(&mut cx.rng, &mut pk);
    let e = encode(Ver::V5, &pk, Form { ack: 2, ..Form::default() });
    let hl = header_len(&e);
    let r = &mut cx.rng;
    let pl = match span(r, &e, Sp::PropLen) {
        Some(p) => p,
        None => return,
    };
    let (a, z) = section(&e, pl);
    let loc = {
        // the will's section is the second of a CONNECT
        let first = e.spans.iter().find(|s| s.0 == Sp::PropLen).unwrap().1 == pl.0;
        if first {
            loc_of(pk.ty()).unwrap()
        } else {
            Loc::Will
        }
    };
    let b = match r.below(5) {
        0 => {
            // one more, corrected
            let id = *r.pick(allowed(loc));
            let v = Gen::new(r, conf).budget(60).value(loc, id);
            let w = encode_props(&vec![(id, v)]);
            let at = *r.pick(&[a, z]);
            insert_in_props(&e, pl, at, &w[1..])
        }
        1 => {
            // one more behind the end, not corrected
            let id = *r.pick(allowed(loc));
            let v = Gen::new(r, conf).budget(60).value(loc, id);
            let w = encode_props(&vec![(id, v)]);
            reframe(&splice(&e.bytes, z, z, &w[1..]), hl)
        }
        2 => {
            // a little off
            let n = (z - a) as i64 + *r.pick(&[-4, -3, -2, -1, 1, 2, 3, 4]);
            let mut f = vec![];
            varint(n.max(0) as usize, &mut f);
            reframe(&splice(&e.bytes, pl.0, pl.1, &f), hl)
        }
        3 => {
            // a string inside the section grows or shrinks
            let c: Vec<_> = e.spans.iter().filter(|s| s.0 == Sp::LenPre && s.1 >= a && s.2 <= z).collect();
            if c.is_empty() {
                return;
            }
            let s = **r.pick(&c);
            let old = e.bytes[s.1] as i64 * 256 + e.bytes[s.1 + 1] as i64;
            let rest = (z - s.2) as i64;
            let n = *r.pick(&[old + 1, old - 1, rest, rest + 1, rest + 2, rest - 1, 0, old + 3]);
            let mut b = e.bytes.clone();
            b[s.1..s.2].copy_from_slice(&(n.clamp(0, 65535) as u16).to_be_bytes());
            b
        }
        _ => e.bytes.clone(),
    };
    judge(cx, Ver::V5, &b, false, cx.prop == "C16")
}

/// Very many repeated properties.
fn plen_many(cx: &mut Cx) {
    let ty = *cx.rng.pick(&[1, 2, 3, 3, 3, 4, 5, 6, 7, 8, 9, 10, 11, 14]);
    let n = match cx.rng.below(5) {
        0 => cx.rng.range(1, 20),
        1 => *cx.rng.pick(&[15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 999, 1000, 1001, 1023, 1024, 1025]),
        2 => *cx.rng.pick(&dict().ints) as usize % 4100,
        _ => cx.rng.range(1, 3000),
    };
    let mut g = Gen::new(&mut cx.rng, true).budget(300);
    let mut pk = g.packet_of(Ver::V5, ty);
    let mut many: Props = vec![];
    let ids = ty == 3;
    for i in 0..n {
        if ids && g.r.p(1, 2) {
            let v = if g.r.p(1, 20) && i > 0 { 5 } else { g.vbi() };
            many.push((0x0B, PV::V(v)));
        } else {
            let same = g.r.p(1, 10);
            many.push((0x26, PV::P(if same { "k".into() } else { format!("{}", i) }, format!("{}", i % 7))));
        }
    }
    if ty == 1 && g.r.bool() {
        if let Pk::Connect(c) = &mut pk {
            c.will = Some(Will { props: many, topic: "w".into(), msg: vec![], qos: 0, retain: false });
        }
    } else if let Some(p) = pk.props_mut() {
        p.retain(|x| x.0 != 0x26 && x.0 != 0x0B);
        p.extend(many);
    }
    let e = encode(Ver::V5, &pk, Form::default());
    cx.evn("repeated properties", n as u64);
    judge(cx, Ver::V5, &e.bytes, false, true)
}

/// User properties whose section is exactly `n` bytes.
fn filled(r: &mut Rng, mut n: usize) -> Props {
    let mut v: Props = vec![];
    let text = |r: &mut Rng, n: usize| {
        let c = (b'a' + r.below(26) as u8) as char;
        c.to_string().repeat(n)
    };
    // few large ones, or many of a size
    let most = *r.pick(&[131_075, 131_075, 65_540, 1_000, 10_000]);
    while n > 0 {
        let one = if n <= most { n } else { most.min(n - 5) };
        let k = (one - 5).min(65_535).min(r.below(20).max(one.saturating_sub(65_540)));
        v.push((0x26, PV::P(text(r, k), text(r, one - 5 - k))));
        n -= one;
    }
    v
}

/// Sections as long as the length field changes its size at, and up to megabytes.
fn plen_big(cx: &mut Cx) {
    const SIZES: &[usize] = &[5, 126, 127, 128, 129, 255, 256, 257, 16_382, 16_383, 16_384, 16_385, 32_767, 32_768, 65_534, 65_535, 65_536, 65_537, 131_071, 131_072];
    const BIG: &[usize] = &[1_048_575, 1_048_576, 2_097_150, 2_097_151, 2_097_152, 2_097_153, 4_194_304, 5_000_000];
    let (loc, ty) = crate::p_codec::PLACES[cx.idx as usize % crate::p_codec::PLACES.len()];
    let r = &mut cx.rng;
    let n = if r.p(1, 4) { *r.pick(BIG) } else if r.bool() { *r.pick(SIZES) } else { r.range(200, 300_000) };
    let mut pk = Gen::new(r, true).budget(60).packet_of(Ver::V5, ty);
    let p = filled(r, n);
    match (&mut pk, loc) {
        (Pk::Connect(c), Loc::Will) => c.will = Some(Will { props: p, topic: "w".into(), msg: vec![0x26, 0], qos: 1, retain: false }),
        (pk, _) => *pk.props_mut().unwrap() = p,
    }
    if let Pk::Publish { payload, topic, .. } = &mut pk {
        // what follows could be read as more properties
        *payload = [0x26, 0, 1, b'k', 0, 1, b'v', 0x01, 0x01][..r.below(10)].to_vec();
        *topic = "t".into();
    }
    let e = encode(Ver::V5, &pk, Form { ack: 2, ..Form::default() });
    judge(cx, Ver::V5, &e.bytes, false, true);
    cx.ev("large sections");
    let pls: Vec<_> = e.spans.iter().filter(|s| s.0 == Sp::PropLen).map(|s| (s.1, s.2)).collect();
    let pl = if loc == Loc::Will { pls[1] } else { pls[0] };
    let off = *cx.rng.pick(&[-5i64, -2, -1, 1, 2, 5, 1 << 7, 1 << 14, -(1 << 14), 1 << 16, -(1 << 16), 1 << 21, -(1 << 21), 1 << 24]);
    let m = n as i64 + off;
    if m >= 0 {
        let mut f = vec![];
        varint(m as usize, &mut f);
        judge(cx, Ver::V5, &reframe(&splice(&e.bytes, pl.0, pl.1, &f), header_len(&e)), false, true);
    }
}

/// Sections of more properties than two bytes count, and lists and payloads behind sections.
fn plen_giants(cx: &mut Cx) {
    let mut pk = giant_case(cx, Ver::V5);
    if let Pk::Publish { payload, .. } = &mut pk {
        payload.extend([0x26, 0, 1, b'k', 0, 1, b'v', 0x01, 0x01]);
    }
    let e = encode(Ver::V5, &pk, Form { ack: 2, ..Form::default() });
    judge(cx, Ver::V5, &e.bytes, false, true);
    for _ in 0..3 {
        let b = late_change(&mut cx.rng, &e);
        judge(cx, Ver::V5, &b, false, true)
    }
}

// --- C17 ---------------------------------------------------------------------------------------------------------

fn text_edit(cx: &mut Cx) {
    let ver = any_ver(&mut cx.rng);
    let conf = cx.rng.p(2, 3);
    let pk = if ver == Ver::V5 && cx.rng.p(1, 2) {
        mask_any(cx, conf)
    } else {
        let ty = *cx.rng.pick(&[1, 1, 2, 3, 8, 10]);
        Gen::new(&mut cx.rng, conf).l4().packet_of(ver, ty)
    };
    let e = encode(ver, &pk, Form::default());
    let r = &mut cx.rng;
    let mut b = e.bytes.clone();
    let kind = if r.p(1, 4) { *r.pick(&[Sp::Bin, Sp::Payload]) } else { Sp::Text };
    let c: Vec<_> = e.spans.iter().filter(|s| s.0 == kind && s.2 > s.1).collect();
    if c.is_empty() {
        return;
    }
    let n = r.range(1, 3);
    let mut at = 0;
    for _ in 0..n {
        let s = **r.pick(&c);
        let new: Vec<u8> = match r.below(5) {
            0 | 1 => r.pick(BAD_UTF8).to_vec(),
            2 => r.pick(EDGE_CHARS).to_string().into_bytes(),
            3 => {
                let mut v = vec![0; r.range(1, 6)];
                r.fill(&mut v);
                v
            }
            _ => vec![r.next() as u8],
        };
        let w = new.len().min(s.2 - s.1);
        at = match r.below(4) {
            0 => s.1,
            1 => s.2 - w,
            _ => s.1 + r.below(s.2 - s.1 - w + 1),
        };
        b[at..at + w].copy_from_slice(&new[..w]);
        if kind == Sp::Text && n > 1 && r.bool() {
            break;
        }
    }
    let _ = at;
    cx.ev(if kind == Sp::Text { "text fields edited" } else { "binary fields edited" });
    // the password is binary data in the standard and a string in the API: not judged here
    judge(cx, ver, &b, false, true)
}

/// All sequences of two (thorough: three) bytes as the contents of a string, every field in turn.
fn text_all(cx: &mut Cx) {
    let hi = cx.idx as u8;
    let fields: Vec<(Ver, Enc)> = {
        let s = |v: &str| v.to_string();
        let p = |id: u8| match ptype(id).unwrap() {
            PT::P => vec![(id, PV::P(s("xxxx"), s("xxxx")))],
            _ => vec![(id, PV::S(s("xxxx")))],
        };
        let mut v: Vec<(Ver, Pk)> = vec![];
        for ver in [Ver::V4, Ver::V5] {
            let c = Conn {
                level: if ver == Ver::V4 { 4 } else { 5 },
                clean: true,
                keep_alive: 1,
                props: vec![],
                client_id: s("xxxx"),
                will: Some(Will { props: vec![], topic: s("xxxx"), msg: vec![1], qos: 0, retain: false }),
                user: s("xxxx"),
                pass: String::new(),
            };
            v.push((ver, Pk::Connect(c)));
            v.push((ver, Pk::Publish { dup: false, qos: 0, retain: false, topic: s("xxxx"), pkid: 0, props: vec![], payload: vec![9] }));
            v.push((ver, Pk::Subscribe { pkid: 1, props: vec![], filters: vec![(s("a"), 0), (s("xxxx"), 1)] }));
            v.push((ver, Pk::Unsubscribe { pkid: 1, props: vec![], filters: vec![s("a"), s("xxxx")] }));
        }
        for (loc, ty) in crate::p_codec::PLACES {
            for id in allowed(*loc) {
                if matches!(ptype(*id), Some(PT::S | PT::P)) {
                    let mut pk = Gen::new(&mut Rng::new(5), true).budget(0).packet_of(Ver::V5, *ty);
                    if *loc == Loc::Will {
                        if let Pk::Connect(c) = &mut pk {
                            c.will = Some(Will { props: p(*id), topic: s("w"), msg: vec![], qos: 0, retain: false });
                        }
                    } else {
                        *pk.props_mut().unwrap() = p(*id);
                    }
                    v.push((Ver::V5, pk));
                }
            }
        }
        v.into_iter().map(|(ver, p)| (ver, encode(ver, &p, Form::default()))).collect()
    };
    let mut targets: Vec<(Ver, Vec<u8>, usize)> = vec![];
    for (ver, e) in &fields {
        for s in e.spans.iter().filter(|s| s.0 == Sp::Text && s.2 - s.1 == 4) {
            if &e.bytes[s.1..s.2] == b"xxxx" {
                targets.push((*ver, e.bytes.clone(), s.1));
            }
        }
    }
    let mut f = |cx: &mut Cx, seq: &[u8], t: usize| {
        let k = t % targets.len();
        let (ver, b, at) = &mut targets[k];
        b[*at..*at + seq.len()].copy_from_slice(seq);
        let ok = std::str::from_utf8(seq).is_ok();
        let r = read_frame(*ver, b);
        match r {
            Ok(_) if !ok => cx.fail(format!("ill-formed UTF-8 {} accepted: {:?} {}", hex(seq), ver, hex(b))),
            Err(e) if ok && !seq.contains(&0) && std::str::from_utf8(&b[*at..*at + 4]).is_ok() => {
                // wildcards and the like are judged elsewhere
                if !matches!(decode(*ver, b), Verdict::May(..)) {
                    cx.fail(format!("UTF-8 {} refused ({:?}): {:?} {}", hex(seq), e, ver, hex(b)))
                }
            }
            Ok(p) => match decode(*ver, b) {
                Verdict::Accept(w) | Verdict::May(_, Some(w)) if p.to_pk() == w => cx.ev("sequences read"),
                v => cx.fail(format!("{:?} {} means {} and was read as {}", ver, hex(b), cut(&v), cut(&p.to_pk()))),
            },
            Err(_) => cx.ev("sequences refused"),
        }
        b[*at..*at + 4].copy_from_slice(b"xxxx");
    };
    let n = targets_len(&fields);
    for lo in 0..=255u8 {
        // two bytes, every field
        for t in 0..n {
            f(cx, &[hi, lo], t);
        }
        cx.seen(hi as u64 * 256 + lo as u64);
        // three bytes, fields in turn
        for x in 0..=255u8 {
            f(cx, &[hi, lo, x], x as usize + lo as usize * 7);
        }
        // four
        if hi >= 0xF0 {
            for x in [0x00, 0x41, 0x7F, 0x80, 0x8F, 0x90, 0xBF, 0xC0, 0xFF] {
                for y in [0x00, 0x41, 0x7F, 0x80, 0xBF, 0xC0, 0xFF] {
                    f(cx, &[hi, lo, x, y], x as usize + y as usize + lo as usize);
                }
            }
        }
    }
}

fn targets_len(f: &[(Ver, Enc)]) -> usize {
    f.iter()
        .map(|(_, e)| e.spans.iter().filter(|s| s.0 == Sp::Text && s.2 - s.1 == 4 && &e.bytes[s.1..s.2] == b"xxxx").count())
        .sum()
}

/// Valid text of every length, in every field, and through writing.
fn text_valid(cx: &mut Cx) {
    let ver = any_ver(&mut cx.rng);
    let pk = if ver == Ver::V5 && cx.rng.p(1, 2) { mask_any(cx, false) } else { Gen::new(&mut cx.rng, false).l4().packet(ver) };
    let e = encode(ver, &pk, Form::default());
    cx.ev("valid text read");
    judge(cx, ver, &e.bytes, false, true)
}

/// Text and binary data in giants, also far behind.
fn text_giants(cx: &mut Cx) {
    let (ver, pk) = giant_any(cx);
    let e = encode(ver, &pk, Form::default());
    judge(cx, ver, &e.bytes, false, true);
    let texts: Vec<_> = e.spans.iter().filter(|s| s.0 == Sp::Text && s.2 > s.1).collect();
    for i in 0..4 {
        if texts.is_empty() {
            return;
        }
        let s = if i == 0 { texts[texts.len() - 1] } else { texts[cx.rng.below(texts.len())] };
        let mut b = e.bytes.clone();
        b[cx.rng.range(s.1, s.2 - 1)] = *cx.rng.pick(&[0x80, 0xC0, 0xFF, 0xED, 0x7F, 0]);
        judge(cx, ver, &b, false, true)
    }
}

pub fn checks() -> Vec<Check> {
    let bad = |id: &'static str, extra: Vec<(&'static str, u64)>| Check {
        id,
        rule: "Well-formed packets with exactly one defect of every listed kind, every cut of small packets, every value of every byte of small packets, mutated packets and noise; all frames with up to two body bytes. Each frame is judged by the independent strict decoder and then read; a frame it calls malformed in a listed way must be refused. Non-trivial: has a body; distinct by bytes.",
        workloads: vec![
            wl("single defects", 400_000, 30_000_000, bad_single),
            wl("cuts", 10_000, 400_000, bad_cuts),
            wl("bytes", 1_000, 40_000, bad_bytes),
            wl("mutations", 300_000, 30_000_000, bad_generic),
            heavy("tiny frames", 256, 256, bad_tiny),
            heavy("giants", 19, 190, bad_giants),
        ],
        require: {
            let mut v = vec![
                ("unknown packet type", 1_000),
                ("field runs past the end", 10_000),
                ("string is not UTF-8", 1_000),
                ("QoS 3", 1_000),
                ("protocol name", 1_000),
                ("protocol level", 1_000),
                ("will flags without will", 1_000),
                ("packet id zero", 1_000),
                ("undefined code", 1_000),
                ("no codes", 1_000),
            ];
            v.extend(extra);
            v
        },
        assumptions: vec!["refm.rs is the standard; only defects the property lists are judged"],
        exhaustive: "all frames with up to two body bytes",
    };
    let mut bad5 = bad(
        "C14",
        vec![
            ("unknown property", 1_000),
            ("property not allowed here", 1_000),
            ("properties run past the end", 1_000),
            ("retain handling 3", 1_000),
            ("disconnect flags", 1_000),
            ("variable byte integer longer than four bytes", 100),
            ("declared lengths tried", 50_000),
        ],
    );
    bad5.rule = "Well-formed packets with exactly one defect of every listed kind, every cut of small packets, every value of every byte of small packets, every declared length of every property section of small packets, edits inside and behind property sections, mutated packets and noise; all frames with up to two body bytes. Each frame is judged by the independent strict decoder and then read; a frame it calls malformed in a listed way must be refused. Non-trivial: has a body; distinct by bytes.";
    bad5.workloads.extend([
        wl("all declared lengths", 20_000, 1_000_000, plen_all),
        wl("property edits", 300_000, 20_000_000, plen_edit),
    ]);
    vec![
        bad("C13", vec![("no subscriptions", 1_000), ("wrong size", 1_000)]),
        bad5,
        Check {
            id: "C15",
            rule: "All 256 values of every return and reason code of every packet (every position class of code lists), of QoS, retain handling and packet type bits, and of the API's conversions, each surrounded by random other fields. Distinct by bytes.",
            workloads: vec![
                wl("codes on the wire", 400, 20_000, code_case),
                wl("codes in bits", 1_000, 50_000, code_bits),
                heavy("giants", 20, 500, code_giants),
                wl("conversions", 1, 1, code_api),
            ],
            require: vec![("defined codes decoded and encoded back", 10_000), ("undefined codes refused by name", 10_000), ("conversions compared", 256 * 6)],
            assumptions: vec!["tables in refm.rs and conv.rs are the standards'"],
            exhaustive: "all byte values of all codes, QoS, retain handling and packet types",
        },
        Check {
            id: "C16",
            rule: "For packets with every subset of properties: every possible declared length of every property section (small packets), insertions inside and behind the section, inner strings resized, thousands of repeated properties, sections of sizes up to 5 MB. Judged by the strict decoder in both directions. Distinct by bytes.",
            workloads: vec![
                wl("all declared lengths", 20_000, 1_000_000, plen_all),
                wl("edits", 300_000, 20_000_000, plen_edit),
                wl("repeated", 1_500, 40_000, plen_many),
                heavy("large sections", 900, 20_000, plen_big),
                heavy("giants", 19, 190, plen_giants),
            ],
            require: vec![("declared lengths tried", 100_000), ("malformed frames refused", 100_000), ("well-formed frames read", 100_000), ("repeated properties", 100_000), ("large sections", 500)],
            assumptions: vec!["refm.rs is MQTT 5.0", "which of several equal non-repeatable properties is kept is not judged"],
            exhaustive: "every declared property length of each small packet",
        },
        Check {
            id: "C17",
            rule: "Every two- and three-byte sequence as contents of string fields (two-byte: every string field of every packet), four-byte sequences at the class boundaries; random edits of string and binary fields; valid text of every kind. Judged by the strict decoder. Distinct by bytes.",
            workloads: vec![
                heavy("all sequences", 256, 256, text_all),
                wl("edits", 300_000, 30_000_000, text_edit),
                heavy("giants", 23, 230, text_giants),
                wl("valid", 150_000, 10_000_000, text_valid),
            ],
            require: vec![("sequences read", 100_000), ("sequences refused", 100_000), ("string is not UTF-8", 10_000), ("text fields edited", 10_000), ("binary fields edited", 10_000)],
            assumptions: vec!["std::str::from_utf8 is UTF-8", "non-UTF-8 passwords: see known_findings.txt"],
            exhaustive: "all two-byte sequences in every string field, all three-byte sequences in some string field",
        },
    ]
}
