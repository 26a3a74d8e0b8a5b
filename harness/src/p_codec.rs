//! C07-C12 and C20: what is written and what is read mean the same, judged by the reference codec.

use crate::conv::*;
use crate::gen::*;
use crate::mon::*;
use crate::refm::*;
use crate::rng::Rng;
use bytes::BytesMut;

/// All (place, packet type) pairs with a property section.
pub const PLACES: &[(Loc, u8)] = &[
    (Loc::Connect, 1),
    (Loc::Publish, 3),
    (Loc::Will, 1),
    (Loc::Disconnect, 14),
    (Loc::Ack, 4),
    (Loc::Ack, 5),
    (Loc::Ack, 6),
    (Loc::Ack, 7),
    (Loc::Subscribe, 8),
    (Loc::SubAck, 9),
    (Loc::Unsubscribe, 10),
    (Loc::UnsubAck, 11),
    (Loc::ConnAck, 2),
];

pub fn mask_total() -> u64 {
    PLACES.iter().map(|p| 1u64 << allowed(p.0).len()).sum()
}

/// Case number -> a packet with exactly that subset of properties.
pub fn mask_case(cx: &mut Cx, conf: bool) -> Pk {
    let mut i = cx.idx % mask_total();
    for (loc, ty) in PLACES {
        let n = 1u64 << allowed(*loc).len();
        if i < n {
            return mask_at(cx, conf, *loc, *ty, i as u32);
        }
        i -= n;
    }
    unreachable!()
}

/// A packet with any subset of properties, all places alike.
/// A way to spell what comes to the same.
pub fn any_knob(r: &mut Rng) -> Knob {
    Knob { empty_props: r.p(1, 4), empty_login: r.p(1, 4), stray_pkid: if r.p(1, 3) { r.next() as u16 } else { 0 } }
}

pub fn mask_any(cx: &mut Cx, conf: bool) -> Pk {
    let (loc, ty) = *cx.rng.pick(PLACES);
    let n = allowed(loc).len();
    let m = match cx.rng.below(4) {
        0 => (1 << n) - 1,
        1 => 1 << cx.rng.below(n),
        _ => cx.rng.below(1 << n),
    };
    mask_at(cx, conf, loc, ty, m as u32)
}

pub fn mask_at(cx: &mut Cx, conf: bool, loc: Loc, ty: u8, mask: u32) -> Pk {
    let mut g = Gen::new(&mut cx.rng, conf).budget(120);
    let mut pk = g.packet_of(Ver::V5, ty);
    let p = g.props_mask(loc, mask);
    if loc == Loc::Will {
        if let Pk::Connect(c) = &mut pk {
            c.will = Some(Will { props: p, topic: "w".into(), msg: vec![1, 2], qos: 1, retain: false });
        }
    } else {
        *pk.props_mut().unwrap() = p;
        if let Pk::Publish { topic, .. } = &mut pk {
            if topic.is_empty() {
                topic.push('t');
            }
        }
    }
    pk
}

pub const EDGES: &[usize] = &[2, 3, 4, 5, 126, 127, 128, 129, 130, 131, 132, 255, 256, 257, 16381, 16382, 16383, 16384, 16385, 16386, 16387, 65535, 65536, 65537];
pub const BIG_EDGES: &[usize] = &[2_097_149, 2_097_150, 2_097_151, 2_097_152, 2_097_153, 2_097_154, 2_097_155];

/// A packet stretched to a boundary of the remaining length or of the property length.
pub fn size_case(cx: &mut Cx, ver: Ver, conf: bool, edges: &[usize]) -> Option<Pk> {
    let t = edges[cx.idx as usize % edges.len()];
    let t = if t < 70_000 && cx.rng.p(1, 3) {
        // any size at all
        let k = cx.rng.range(3, 16);
        (1 << k) + cx.rng.below(1 << k)
    } else if cx.rng.p(1, 4) { dict().ints[cx.rng.below(dict().ints.len())] as usize % 70000 } else { t };
    let kind = cx.rng.below(2) as u8;
    for _ in 0..6 {
        let mut g = Gen::new(&mut cx.rng, conf).budget(if t < 200 { 10 } else { 200 });
        let mut pk = g.packet_big(ver);
        if stretch(ver, &mut pk, if ver == Ver::V4 { 0 } else { kind }, t) {
            cx.ev(if kind == 1 { "property length at a boundary" } else { "remaining length at a boundary" });
            return Some(pk);
        }
    }
    None
}

/// Each kind of giant in turn.
pub fn giant_case(cx: &mut Cx, ver: Ver) -> Pk {
    let top = if cx.tier == Tier::Thorough { 1 << 27 } else { 36 << 20 };
    cx.ev("giants");
    giant(&mut cx.rng, ver, cx.idx % giants(ver), top)
}
/// Of either version.
pub fn giant_any(cx: &mut Cx) -> (Ver, Pk) {
    let n = giants(Ver::V4);
    let i = cx.idx % (n + giants(Ver::V5));
    let (ver, k) = if i < n { (Ver::V4, i) } else { (Ver::V5, i - n) };
    let top = if cx.tier == Tier::Thorough { 1 << 27 } else { 36 << 20 };
    cx.ev("giants");
    (ver, giant(&mut cx.rng, ver, k, top))
}

fn v_of(cx: &Cx) -> Ver {
    if matches!(cx.prop, "C07" | "C09" | "C11" | "C13") {
        Ver::V4
    } else {
        Ver::V5
    }
}

fn case(cx: &mut Cx, kind: u8) -> Option<Pk> {
    let ver = v_of(cx);
    let conf = matches!(cx.prop, "C11" | "C12") || cx.rng.p(2, 3);
    match kind {
        0 => {
            // more of those with more to say
            let ty = match cx.rng.below(6) {
                0 => Some((cx.idx % 14 + 1) as u8),
                1 | 2 => None,
                _ => Some(*cx.rng.pick(if ver == Ver::V4 { &[1u8, 1, 1, 1, 1, 1, 3, 3, 8, 8, 10][..] } else { &[1, 1, 1, 1, 3, 3, 3, 2, 8, 8, 10, 4, 14] })),
            };
            let mut g = Gen::new(&mut cx.rng, conf);
            Some(match ty {
                Some(t) => g.packet_of(ver, t),
                None => g.packet(ver),
            })
        }
        1 => Some(mask_case(cx, conf)),
        2 => size_case(cx, ver, conf, EDGES),
        4 => {
            let mut pk = if ver == Ver::V5 && cx.rng.bool() {
                mask_any(cx, conf)
            } else {
                let ty = *cx.rng.pick(if ver == Ver::V4 { &[1, 1, 1, 3, 8, 10][..] } else { &[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 14] });
                Gen::new(&mut cx.rng, conf).budget(200).packet_of(ver, ty)
            };
            if lengthen(&mut cx.rng, &mut pk) {
                cx.ev("long parts");
            }
            Some(pk)
        }
        5 => {
            let piece = ODD[cx.idx as usize % ODD.len()];
            let mut pk = if ver == Ver::V5 && cx.rng.bool() {
                mask_any(cx, conf)
            } else {
                let ty = *cx.rng.pick(if ver == Ver::V4 { &[1, 1, 1, 3, 8, 10][..] } else { &[1, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 14] });
                Gen::new(&mut cx.rng, conf).budget(120).packet_of(ver, ty)
            };
            if oddly(&mut cx.rng, &mut pk, piece) {
                cx.ev("odd texts");
            }
            Some(pk)
        }
        _ => size_case(cx, ver, conf, BIG_EDGES),
    }
}

fn note(cx: &mut Cx, ver: Ver, pk: &Pk, bytes: &[u8]) {
    cx.ev(type_name(pk.ty()));
    if bytes.len() > 4 {
        cx.seen_bytes(bytes);
    }
    if pk.props().map(|p| !p.is_empty()).unwrap_or(false) {
        cx.ev("with properties");
    }
    cx.sample(|| format!("{:?} {} <-> {}", ver, cut(pk), hex(bytes)));
}

// --- C07, C08 ----------------------------------------------------------------------------------------------------

pub fn roundtrip(cx: &mut Cx, ver: Ver, pk: &Pk) {
    let knob = any_knob(&mut cx.rng);
    let want = pk.clone().canon();
    let v = CPk::of(ver, pk, knob);
    let mut o = BytesMut::new();
    if let Err(e) = v.write(&mut o) {
        return cx.fail(format!("write refused a representable packet: {:?}: {:?} {}", e, ver, cut(pk)));
    }
    note(cx, ver, pk, &o);
    let bytes = o.clone();
    let back = match read(ver, &mut o, MAX) {
        Ok(p) => p,
        Err(e) => return cx.fail(format!("read refuses what write produced: {:?}: {:?} {} -> {}", e, ver, cut(pk), hex(&bytes))),
    };
    if !o.is_empty() {
        return cx.fail(format!("{} bytes of the written packet left unread: {:?} {} -> {}", o.len(), ver, cut(pk), hex(&bytes)));
    }
    let got = back.to_pk();
    if got != want {
        return cx.fail(format!("packet changed: {:?} wrote {} as {} and read {}{}", ver, cut(&want), hex(&bytes), cut(&got), parting(&want, &got)));
    }
    if !back.same(&CPk::of(ver, &want, Knob::default())) {
        return cx.fail(format!("packet read back is not equal (==) to the one written: {:?} {}", ver, cut(&want)));
    }
    cx.ev("round trips compared");
}

fn rt_random(cx: &mut Cx) {
    if let Some(p) = case(cx, 0) {
        roundtrip(cx, v_of(cx), &p)
    }
}
fn rt_mask(cx: &mut Cx) {
    if let Some(p) = case(cx, 1) {
        roundtrip(cx, v_of(cx), &p)
    }
}
fn rt_size(cx: &mut Cx) {
    if let Some(p) = case(cx, 2) {
        roundtrip(cx, v_of(cx), &p)
    }
}
fn rt_giant(cx: &mut Cx) {
    let p = giant_case(cx, v_of(cx));
    roundtrip(cx, v_of(cx), &p)
}
fn rt_long(cx: &mut Cx) {
    if let Some(p) = case(cx, 4) {
        roundtrip(cx, v_of(cx), &p)
    }
}
fn rt_odd(cx: &mut Cx) {
    if let Some(p) = case(cx, 5) {
        roundtrip(cx, v_of(cx), &p)
    }
}
fn rt_big(cx: &mut Cx) {
    if let Some(p) = case(cx, 3) {
        roundtrip(cx, v_of(cx), &p)
    }
}

/// The maximum: a packet of remaining length 268435455.
fn rt_max(cx: &mut Cx) {
    let ver = v_of(cx);
    let target = MAX - cx.idx as usize;
    let mut pk = Pk::Publish { dup: false, qos: 1, retain: true, topic: "max".into(), pkid: 9, props: vec![], payload: vec![] };
    assert!(stretch(ver, &mut pk, 0, target));
    roundtrip(cx, ver, &pk)
}

// --- C09, C10 ----------------------------------------------------------------------------------------------------

pub fn written(cx: &mut Cx, ver: Ver, pk: &Pk) {
    let knob = any_knob(&mut cx.rng);
    let want = pk.clone().canon();
    let v = CPk::of(ver, pk, knob);
    let mut o = BytesMut::new();
    if let Err(e) = v.write(&mut o) {
        return cx.fail(format!("write refused a representable packet: {:?}: {:?} {}", e, ver, cut(pk)));
    }
    note(cx, ver, pk, &o);
    match framing(&o) {
        Fr::Known(h, r) if h + r == o.len() => {}
        f => return cx.fail(format!("not exactly one control packet ({:?}, {} bytes): {:?} {} -> {}", f, o.len(), ver, cut(pk), hex(&o))),
    }
    match decode(ver, &o) {
        Verdict::Accept(p) | Verdict::May(_, Some(p)) if p != want => cx.fail(format!("the bytes mean something else: {:?} {} -> {} which is {}{}", ver, cut(&want), hex(&o), cut(&p), parting(&want, &p))),
        Verdict::Accept(_) => cx.ev("written packets decoded by the reference"),
        Verdict::May(w, Some(_)) if !FORM.contains(&w) => cx.ev("written packets with odd values decoded by the reference"),
        v => cx.fail(format!("not a well-formed packet: {}: {:?} {} -> {}", cut(&v), ver, cut(pk), hex(&o))),
    }
}
fn wr_random(cx: &mut Cx) {
    if let Some(p) = case(cx, 0) {
        written(cx, v_of(cx), &p)
    }
}
fn wr_mask(cx: &mut Cx) {
    if let Some(p) = case(cx, 1) {
        written(cx, v_of(cx), &p)
    }
}
fn wr_size(cx: &mut Cx) {
    if let Some(p) = case(cx, 2) {
        written(cx, v_of(cx), &p)
    }
}
fn wr_giant(cx: &mut Cx) {
    let p = giant_case(cx, v_of(cx));
    written(cx, v_of(cx), &p)
}
fn wr_long(cx: &mut Cx) {
    if let Some(p) = case(cx, 4) {
        written(cx, v_of(cx), &p)
    }
}
fn wr_odd(cx: &mut Cx) {
    if let Some(p) = case(cx, 5) {
        written(cx, v_of(cx), &p)
    }
}
fn wr_big(cx: &mut Cx) {
    if let Some(p) = case(cx, 3) {
        written(cx, v_of(cx), &p)
    }
}

/// Every 16 bit number (but 0 where it is not one) in every packet id, keep alive and property that has 16 bits; in
/// those with 32 bits at both ends.
fn words(cx: &mut Cx, f: fn(&mut Cx, Ver, &Pk)) {
    let ver = v_of(cx);
    let mut base = vec![];
    for ty in [1, 3, 4, 5, 6, 7, 8, 9, 10, 11] {
        base.push(Gen::new(&mut cx.rng, true).budget(8).packet_of(ver, ty));
    }
    for lo in 0..if ver == Ver::V4 { 256 } else { 512u32 } {
        let (high, lo) = (lo > 255, lo & 255);
        let n = (cx.idx as u32 % 256) << 8 | lo;
        let w = n as u16;
        let mut all = base.clone();
        for pk in &mut all {
            match pk {
                Pk::Connect(c) => c.keep_alive = w,
                Pk::Publish { qos, pkid, .. } => {
                    *qos = (*qos).max(1);
                    *pkid = w.max(1);
                }
                Pk::Ack { pkid, .. }
                | Pk::Subscribe { pkid, .. }
                | Pk::SubAck { pkid, .. }
                | Pk::Unsubscribe { pkid, .. }
                | Pk::UnsubAck { pkid, .. } => *pkid = w.max(1),
                _ => {}
            }
        }
        if ver == Ver::V5 {
            let d = if high { n << 16 | 0xFFFF } else { n };
            if let Pk::Publish { props, .. } = &mut all[1] {
                *props = vec![(0x02, PV::D(d)), (0x0B, PV::V(n.max(1))), (0x23, PV::W(w.max(1)))];
            }
            if let Pk::Connect(c) = &mut all[0] {
                if c.level == 5 {
                    c.props = vec![(0x11, PV::D(d)), (0x21, PV::W(w.max(1))), (0x22, PV::W(w)), (0x27, PV::D(d.max(1)))];
                    if let Some(w) = &mut c.will {
                        w.props = vec![(0x02, PV::D(d)), (0x18, PV::D(n))];
                    }
                }
            }
            if let Pk::Subscribe { props, .. } = &mut all[6] {
                *props = vec![(0x0B, PV::V(n.max(1)))];
            }
            all.push(Pk::ConnAck {
                sp: false,
                code: 0,
                props: vec![(0x11, PV::D(d)), (0x13, PV::W(w)), (0x21, PV::W(w.max(1))), (0x22, PV::W(w)), (0x27, PV::D(d.max(1)))],
            });
            all.push(Pk::Disconnect { reason: 0, props: vec![(0x11, PV::D(d))] });
        }
        for pk in &all {
            f(cx, ver, pk)
        }
    }
    cx.ev("all 16 bit numbers");
}
fn rt_words(cx: &mut Cx) {
    words(cx, roundtrip)
}
fn wr_words(cx: &mut Cx) {
    words(cx, written)
}
fn ac_words(cx: &mut Cx) {
    words(cx, accepted)
}

// --- C11, C12 ----------------------------------------------------------------------------------------------------

pub fn accepted(cx: &mut Cx, ver: Ver, pk: &Pk) {
    let want = pk.clone().canon();
    let mut sp = pk.clone();
    if cx.rng.p(3, 4) {
        shuffle_props(&mut cx.rng, &mut sp);
    }
    let f = form(&mut cx.rng);
    let e = encode(ver, &sp, f);
    let v = decode(ver, &e.bytes);
    assert!(v == Verdict::Accept(want.clone()), "the references disagree on {:?}: {:?}", sp, cut(&v));
    note(cx, ver, &want, &e.bytes);
    let mut s = BytesMut::from(&e.bytes[..]);
    match read(ver, &mut s, MAX) {
        Err(err) => cx.fail(format!("well-formed packet refused: {:?}: {:?} {} = {}", err, ver, hex(&e.bytes), cut(&want))),
        Ok(p) => {
            let got = p.to_pk();
            if got != want {
                cx.fail(format!("well-formed packet misread: {:?} {} = {} read as {}{}", ver, hex(&e.bytes), cut(&want), cut(&got), parting(&want, &got)))
            } else if !s.is_empty() {
                cx.fail(format!("{} bytes left unread of {:?} {}", s.len(), ver, hex(&e.bytes)))
            } else {
                cx.ev("well-formed packets accepted with their meaning")
            }
        }
    }
}
fn ac_random(cx: &mut Cx) {
    if let Some(p) = case(cx, 0) {
        accepted(cx, v_of(cx), &p)
    }
}
fn ac_mask(cx: &mut Cx) {
    if let Some(p) = case(cx, 1) {
        accepted(cx, v_of(cx), &p)
    }
}
fn ac_size(cx: &mut Cx) {
    if let Some(p) = case(cx, 2) {
        accepted(cx, v_of(cx), &p)
    }
}
fn ac_giant(cx: &mut Cx) {
    let p = giant_case(cx, v_of(cx));
    accepted(cx, v_of(cx), &p)
}
fn ac_long(cx: &mut Cx) {
    if let Some(p) = case(cx, 4) {
        accepted(cx, v_of(cx), &p)
    }
}
fn ac_odd(cx: &mut Cx) {
    if let Some(p) = case(cx, 5) {
        accepted(cx, v_of(cx), &p)
    }
}
fn ac_big(cx: &mut Cx) {
    if let Some(p) = case(cx, 3) {
        accepted(cx, v_of(cx), &p)
    }
}

/// MQTT passwords are binary data; the crate's type is a string. Probes exactly that.
fn ac_binary_password(cx: &mut Cx) {
    let ver = v_of(cx);
    let c = {
        let mut g = Gen::new(&mut cx.rng, true).budget(100);
        let mut c = g.conn(if ver == Ver::V4 { 4 } else { 5 });
        c.user = "u".into();
        c.pass = "pp".into();
        c
    };
    let e = encode(ver, &Pk::Connect(c), Form::default());
    let mut b = e.bytes.clone();
    let n = b.len();
    b[n - 1] = 0xFF;
    cx.ev("binary passwords probed");
    if let Err(err) = read_frame(ver, &b) {
        cx.known("connect-password-non-utf8", format!("{:?} for {:?} {}", err, ver, hex(&b)))
    }
}

// --- C20 ---------------------------------------------------------------------------------------------------------

pub fn forward(cx: &mut Cx, ver: Ver, b: &[u8]) {
    let p = match read_frame(ver, b) {
        Ok(p) => p,
        Err(_) => return cx.ev("frames refused"),
    };
    cx.ev("frames accepted");
    cx.ev(type_name(p.to_pk().ty()));
    if b.len() > 4 {
        cx.seen_bytes(b);
    }
    cx.sample(|| format!("{:?} {} read as {}", ver, hex(b), cut(&p.to_pk())));
    let mut w1 = BytesMut::new();
    if let Err(e) = p.write(&mut w1) {
        return cx.fail(format!("an accepted packet cannot be written: {:?}: {:?} {} = {}", e, ver, hex(b), cut(&p.to_pk())));
    }
    let bytes1 = w1.clone();
    let q = match read(ver, &mut w1, MAX) {
        Ok(q) => q,
        Err(e) => return cx.fail(format!("an accepted packet is refused after writing it again: {:?}: {:?} {} written as {}", e, ver, hex(b), hex(&bytes1))),
    };
    if p.to_pk() != q.to_pk() || !q.same(&p) {
        return cx.fail(format!("{:?} {} read as {}, forwarded as {}", ver, hex(b), cut(&p.to_pk()), cut(&q.to_pk())));
    }
    let mut w2 = BytesMut::new();
    match q.write(&mut w2) {
        Ok(_) if w2 == bytes1 => cx.ev("forwarded unchanged"),
        r => cx.fail(format!("{:?} {} written as {} and then ({:?}) as {}", ver, hex(b), hex(&bytes1), r, hex(&w2))),
    }
}

fn fw_random(cx: &mut Cx) {
    let ver = any_ver(&mut cx.rng);
    let b = any_frame(&mut cx.rng, ver);
    forward(cx, ver, &b)
}
fn fw_light(cx: &mut Cx) {
    // one small change to a valid packet: mostly still accepted
    let ver = any_ver(&mut cx.rng);
    let conf = cx.rng.bool();
    let mut pk = Gen::new(&mut cx.rng, conf).l4().budget(200).packet(ver);
    shuffle_props(&mut cx.rng, &mut pk);
    let f = form(&mut cx.rng);
    let e = encode(ver, &pk, f);
    let hl = header_len(&e);
    let mut b = e.bytes.clone();
    match cx.rng.below(5) {
        0 => b[0] ^= 1 << cx.rng.below(4),
        1 => {
            let c: Vec<_> = e.spans.iter().filter(|s| matches!(s.0, Sp::Opts | Sp::ConnFlags | Sp::AckFlags | Sp::PropVal | Sp::Text | Sp::Pkid)).collect();
            if let Some(s) = c.get(cx.rng.below(c.len().max(1))) {
                if s.2 > s.1 {
                    let i = cx.rng.range(s.1, s.2 - 1);
                    b[i] = (cx.rng.next() & 127) as u8;
                }
            }
        }
        2 => {
            let n = cx.rng.range(1, 6);
            for _ in 0..n {
                b.push(cx.rng.next() as u8)
            }
        }
        3 => {
            // duplicate a whole property and correct the property length
            let c: Vec<_> = e.spans.iter().filter(|s| s.0 == Sp::Prop).collect();
            let pl: Vec<_> = e.spans.iter().filter(|s| s.0 == Sp::PropLen).collect();
            if let (Some(s), true) = (c.get(cx.rng.below(c.len().max(1))), !pl.is_empty()) {
                let l = pl.iter().rev().find(|l| l.1 < s.1).unwrap();
                if l.2 - l.1 == 1 && b[l.1] as usize + (s.2 - s.1) < 128 {
                    b[l.1] += (s.2 - s.1) as u8;
                    let again = b[s.1..s.2].to_vec();
                    b = splice(&b, s.2, s.2, &again);
                }
            }
        }
        _ => {}
    }
    let b = reframe(&b, hl);
    forward(cx, ver, &b)
}
fn fw_mask(cx: &mut Cx) {
    let pk = mask_case(cx, false);
    let e = encode(Ver::V5, &pk, Form::default());
    forward(cx, Ver::V5, &e.bytes)
}
fn fw_size(cx: &mut Cx) {
    let ver = any_ver(&mut cx.rng);
    if let Some(pk) = size_case(cx, ver, false, EDGES) {
        let e = encode(ver, &pk, Form::default());
        forward(cx, ver, &e.bytes)
    }
}
fn fw_giant(cx: &mut Cx) {
    let (ver, pk) = giant_any(cx);
    let e = encode(ver, &pk, Form::default());
    forward(cx, ver, &e.bytes);
    let b = late_change(&mut cx.rng, &e);
    forward(cx, ver, &b)
}
fn fw_long(cx: &mut Cx) {
    let ver = any_ver(&mut cx.rng);
    let mut pk = if ver == Ver::V5 { mask_any(cx, false) } else { Gen::new(&mut cx.rng, false).packet(ver) };
    if lengthen(&mut cx.rng, &mut pk) {
        cx.ev("long parts");
    }
    shuffle_props(&mut cx.rng, &mut pk);
    let e = encode(ver, &pk, form(&mut cx.rng));
    forward(cx, ver, &e.bytes)
}
fn fw_odd(cx: &mut Cx) {
    let ver = any_ver(&mut cx.rng);
    let piece = ODD[cx.idx as usize % ODD.len()];
    let mut pk = if ver == Ver::V5 { mask_any(cx, false) } else { Gen::new(&mut cx.rng, false).packet(ver) };
    if oddly(&mut cx.rng, &mut pk, piece) {
        cx.ev("odd texts");
    }
    let e = encode(ver, &pk, form(&mut cx.rng));
    forward(cx, ver, &e.bytes)
}
fn fw_big(cx: &mut Cx) {
    let ver = any_ver(&mut cx.rng);
    if let Some(pk) = size_case(cx, ver, false, BIG_EDGES) {
        let e = encode(ver, &pk, Form::default());
        forward(cx, ver, &e.bytes)
    }
}

pub fn checks() -> Vec<Check> {
    let m = mask_total();
    let types = |mut v: Vec<(&'static str, u64)>| {
        for t in 1..=14 {
            v.push((type_name(t), 200));
        }
        v
    };
    let rule_rt = "Packets over all types from a boundary-biased generator (field lengths and values, values harvested from the source, duplicated values), all subsets of properties of every packet (MQTT 5), and packets stretched to the boundaries of the remaining length and the property length. A case is non-trivial if the packet has a body; distinct by the bytes written.";
    let rule_wr = "The same packets; each is written and the bytes are judged by the independent strict decoder. Non-trivial if the packet has a body; distinct by the bytes written.";
    let rule_ac = "Conforming packets spelt by the independent encoder in a random legal form (property order, optional reason code and property length, empty user name or password field sent or not), read by the crate. Non-trivial if the packet has a body; distinct by bytes.";
    vec![
        Check {
            id: "C07",
            rule: rule_rt,
            workloads: vec![wl("random", 200_000, 30_000_000, rt_random), wl("sizes", 6_000, 200_000, rt_size), wl("long parts", 800, 40_000, rt_long), wl("odd texts", 3_000, 1_000_000, rt_odd), heavy("big sizes", 12, 200, rt_big), heavy("all words", 256, 256, rt_words), heavy("giants", 8, 40, rt_giant), heavy("maximum", 1, 3, rt_max)],
            require: types(vec![("round trips compared", 50_000)]),
            assumptions: vec!["values stand for what the struct fields hold; conversion table conv.rs"],
            exhaustive: "every 16 bit number as every packet id, keep alive",
        },
        Check {
            id: "C08",
            rule: rule_rt,
            workloads: vec![
                wl("random", 250_000, 30_000_000, rt_random),
                wl("property subsets", m, 20 * m, rt_mask),
                wl("sizes", 8_000, 300_000, rt_size),
                wl("long parts", 3_000, 200_000, rt_long), wl("odd texts", 5_000, 1_000_000, rt_odd), heavy("big sizes", 16, 300, rt_big), heavy("all words", 256, 256, rt_words), heavy("giants", 19, 190, rt_giant),
                heavy("maximum", 1, 3, rt_max),
            ],
            require: types(vec![("round trips compared", 50_000)]),
            assumptions: vec!["values stand for what the struct fields hold; conversion table conv.rs"],
            exhaustive: "every subset of the properties of every packet type, with random values; every 16 bit number as every packet id, keep alive and 16 bit property",
        },
        Check {
            id: "C09",
            rule: rule_wr,
            workloads: vec![wl("random", 200_000, 30_000_000, wr_random), wl("sizes", 6_000, 200_000, wr_size), wl("long parts", 800, 40_000, wr_long), wl("odd texts", 3_000, 1_000_000, wr_odd), heavy("big sizes", 12, 200, wr_big), heavy("all words", 256, 256, wr_words), heavy("giants", 8, 40, wr_giant)],
            require: types(vec![("written packets decoded by the reference", 50_000)]),
            assumptions: vec!["refm.rs is MQTT 3.1.1"],
            exhaustive: "every 16 bit number as every packet id, keep alive",
        },
        Check {
            id: "C10",
            rule: rule_wr,
            workloads: vec![wl("random", 250_000, 30_000_000, wr_random), wl("property subsets", m, 20 * m, wr_mask), wl("sizes", 8_000, 300_000, wr_size), wl("long parts", 3_000, 200_000, wr_long), wl("odd texts", 5_000, 1_000_000, wr_odd), heavy("big sizes", 16, 300, wr_big), heavy("all words", 256, 256, wr_words), heavy("giants", 19, 190, wr_giant)],
            require: types(vec![("written packets decoded by the reference", 50_000)]),
            assumptions: vec!["refm.rs is MQTT 5.0"],
            exhaustive: "every subset of the properties of every packet type, with random values; every 16 bit number as every packet id, keep alive and 16 bit property",
        },
        Check {
            id: "C11",
            rule: rule_ac,
            workloads: vec![wl("random", 200_000, 30_000_000, ac_random), wl("sizes", 6_000, 200_000, ac_size), wl("long parts", 800, 40_000, ac_long), wl("odd texts", 3_000, 1_000_000, ac_odd), heavy("big sizes", 12, 200, ac_big), heavy("all words", 256, 256, ac_words), heavy("giants", 8, 40, ac_giant), wl("binary password", 20, 200, ac_binary_password)],
            require: types(vec![("well-formed packets accepted with their meaning", 50_000)]),
            assumptions: vec!["refm.rs is MQTT 3.1.1"],
            exhaustive: "every 16 bit number as every packet id, keep alive",
        },
        Check {
            id: "C12",
            rule: rule_ac,
            workloads: vec![
                wl("random", 250_000, 30_000_000, ac_random),
                wl("property subsets", m, 20 * m, ac_mask),
                wl("sizes", 8_000, 300_000, ac_size),
                wl("long parts", 3_000, 200_000, ac_long), wl("odd texts", 5_000, 1_000_000, ac_odd), heavy("big sizes", 16, 300, ac_big), heavy("all words", 256, 256, ac_words), heavy("giants", 19, 190, ac_giant),
                wl("binary password", 20, 200, ac_binary_password),
            ],
            require: types(vec![("well-formed packets accepted with their meaning", 50_000)]),
            assumptions: vec!["refm.rs is MQTT 5.0"],
            exhaustive: "every subset of the properties of every packet type, with random values and order; every 16 bit number as every packet id, keep alive and 16 bit property",
        },
        Check {
            id: "C20",
            rule: "Frames of every quality (valid, spelt unusually, mutated, noise) are read; each accepted one is written, read and written again. Non-trivial: accepted and with a body; distinct by bytes.",
            workloads: vec![
                wl("hostile", 200_000, 20_000_000, fw_random),
                wl("lightly changed", 250_000, 30_000_000, fw_light),
                wl("property subsets", m, 10 * m, fw_mask),
                wl("sizes", 6_000, 300_000, fw_size),
                wl("long parts", 2_000, 200_000, fw_long), wl("odd texts", 5_000, 1_000_000, fw_odd), heavy("big sizes", 16, 300, fw_big), heavy("giants", 27, 270, fw_giant),
            ],
            require: types(vec![("frames accepted", 100_000), ("frames refused", 10_000), ("forwarded unchanged", 100_000)]),
            assumptions: vec![],
            exhaustive: "every subset of the properties of every packet type, with random values",
        },
    ]
}
