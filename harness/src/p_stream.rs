//! C01, C03-C06, C28, C29: the reader on streams.

use crate::alloc;
use crate::conv::*;
use crate::gen::*;
use crate::mon::*;
use crate::p_codec::*;
use crate::refm::*;
use crate::rng::{hash, Rng};
use bytes::{BufMut, Bytes, BytesMut};
use mqttbytes::{v5, Error, FixedHeader};

type Out = Result<CPk, Error>;

pub fn same_out(a: &Out, b: &Out) -> bool {
    match (a, b) {
        (Ok(a), Ok(b)) => a.same(b) && a.to_pk() == b.to_pk(),
        (Err(a), Err(b)) => a == b,
        _ => false,
    }
}
pub fn show(o: &Out) -> String {
    match o {
        Ok(p) => cut(&p.to_pk()),
        Err(e) => format!("{:?}", e),
    }
}

/// Bytes of a length field, whatever the value: mostly well-formed.
fn header(r: &mut Rng) -> Vec<u8> {
    let mut v = vec![r.next() as u8];
    match r.below(6) {
        0 => v.extend_from_slice(&[0x80 | r.next() as u8, 0x80 | r.next() as u8, 0x80 | r.next() as u8, 0x80 | r.next() as u8, r.next() as u8]),
        1 => {
            let n = r.below(4);
            for _ in 0..n {
                v.push(0x80 | r.next() as u8);
            }
            v.push(r.next() as u8 & 127);
        }
        2 => varint(*r.pick(&[0, 1, 127, 128, 16383, 16384, 2097151, 2097152, 268435455]), &mut v),
        3 => varint(*r.pick(&dict().ints) as usize & 0xFFFFFFF, &mut v),
        _ => {
            let bits = r.range(0, 28);
            varint(r.next() as usize & ((1 << bits) - 1), &mut v)
        }
    }
    v
}

/// Several frames, the last of which may be cut, or followed by a broken length field.
fn stream(r: &mut Rng, ver: Ver, max_frames: usize) -> Vec<u8> {
    let n = r.range(1, max_frames);
    let mut s = vec![];
    for _ in 0..n {
        let f = if r.p(1, 6) {
            let ty = r.range(12, 13) as u8;
            frame(ty << 4, &[])
        } else {
            any_frame(r, ver)
        };
        s.extend_from_slice(&f);
        if s.len() > 60_000 {
            break;
        }
    }
    match r.below(5) {
        0 => {
            let n = r.below(s.len() + 1);
            s.truncate(n);
        }
        1 => s.extend_from_slice(&header(r)),
        2 => {
            s.truncate(s.len() - r.below(3).min(s.len()));
        }
        _ => {}
    }
    s
}

/// A limit beyond any frame, which a narrower integer may not hold.
fn wide(r: &mut Rng, n: usize) -> usize {
    let k = r.range(28, usize::BITS as usize - 1);
    let top = 1usize << k;
    match r.below(5) {
        0 => usize::MAX - r.below(3),
        1 => top + r.below(n + 2),
        2 => top - 1 + r.below(3),
        3 => (r.next() as usize) << r.range(28, usize::BITS as usize - 4) | MAX + 1,
        _ => top | r.next() as usize & (top - 1),
    }
}

fn limit(r: &mut Rng, b: &[u8]) -> usize {
    match framing(b) {
        Fr::Known(_, n) => match r.below(8) {
            0 => n,
            1 => n + 1,
            2 => n.saturating_sub(1),
            3 => *r.pick(&[0, 1, 2, 10, 127, 128, 16383, 16384, 65535, 65536]),
            4 => wide(r, n),
            _ => MAX,
        },
        _ => match r.below(5) {
            0 => wide(r, 0),
            _ => *r.pick(&[0, 1, 100, MAX]),
        },
    }
}

// --- C01 ---------------------------------------------------------------------------------------------------------

/// Everything a caller does with the bytes and what comes out.
fn exercise(cx: &mut Cx, ver: Ver, b: &[u8], max: usize) {
    let fmt = cx.wl != "tiny frames" || b.last().map(|x| x % 16 == 5).unwrap_or(true);
    if fmt {
        cx.seen_bytes(b);
    }
    let r = catch(|| {
        let c = mqttbytes::check(b.iter(), max);
        if fmt {
            let _ = format!("{:?}", c);
        }
        let mut s = BytesMut::from(b);
        let mut n = 0usize;
        let mut errs = 0u32;
        loop {
            let before = s.len();
            match read(ver, &mut s, max) {
                Ok(p) => {
                    n += 1;
                    if before < 200_000 && fmt {
                        let t = p.debug();
                        let _ = t.len();
                    }
                    let q = p.copy();
                    let _ = q.same(&p);
                }
                Err(e) => {
                    errs += 1;
                    if fmt {
                        let _ = format!("{:?} {}", e, e);
                    }
                    let _ = e == e.clone();
                    if s.len() == before {
                        break;
                    }
                }
            }
        }
        (n, errs)
    });
    match r {
        Ok((n, e)) => {
            cx.evn("packets read", n as u64);
            cx.evn("errors returned", e as u64);
            cx.sample(|| format!("{:?} limit {} {}: {} packets, {} errors", ver, max, hex(b), n, e));
        }
        Err(m) => cx.fail(format!("panic: {}: {:?} limit {} {}", m, ver, max, hex(b))),
    }
}

fn tot_streams(cx: &mut Cx) {
    let ver = any_ver(&mut cx.rng);
    let b = stream(&mut cx.rng, ver, 4);
    let max = limit(&mut cx.rng, &b);
    exercise(cx, ver, &b, max)
}
fn tot_noise(cx: &mut Cx) {
    let ver = any_ver(&mut cx.rng);
    let r = &mut cx.rng;
    let mut b = header(r);
    let n = r.below(60);
    let mut v = vec![0; n];
    r.fill(&mut v);
    if r.p(1, 3) {
        for x in v.iter_mut() {
            *x = *r.pick(&[0, 0, 0, 1, 2, 4, 5, 0x26, 0x1F, 0x0B, 0x80, 0xFF, 0x7F, b'M', b'Q', b'T']);
        }
    }
    if r.p(3, 4) {
        b = frame(b[0], &v);
    } else {
        b.extend_from_slice(&v);
    }
    let max = limit(r, &b);
    exercise(cx, ver, &b, max)
}
fn tot_bytes(cx: &mut Cx) {
    // every value of every byte, and every cut, of a small packet
    let ver = any_ver(&mut cx.rng);
    let ty = (cx.idx % 14 + 1) as u8;
    let conf = cx.rng.bool();
    let pk = Gen::new(&mut cx.rng, conf).l4().budget(14).packet_of(ver, ty);
    let f = form(&mut cx.rng);
    let e = encode(ver, &pk, f);
    let mut b = e.bytes.clone();
    if b.len() > 70 {
        return;
    }
    let hl = header_len(&e);
    for i in 0..b.len() {
        let old = b[i];
        for x in 0..=255 {
            b[i] = x;
            exercise(cx, ver, &b, MAX);
        }
        b[i] = old;
        exercise(cx, ver, &b[..i], MAX);
        if i >= hl {
            let c = reframe(&b[..i], hl);
            exercise(cx, ver, &c, MAX);
        }
    }
}
fn tot_tiny(cx: &mut Cx) {
    let b1 = cx.idx as u8;
    for ver in [Ver::V4, Ver::V5] {
        exercise(cx, ver, &frame(b1, &[]), MAX);
        for x in 0..=255u8 {
            exercise(cx, ver, &[b1, x], MAX);
            exercise(cx, ver, &frame(b1, &[x]), MAX);
        }
        for x in 0..=65535u16 {
            let [p, q] = x.to_be_bytes();
            exercise(cx, ver, &frame(b1, &[p, q]), MAX);
            if cx.thorough() || q < 0x30 {
                exercise(cx, ver, &frame(b1, &[0, 1, p, q]), MAX);
                exercise(cx, ver, &frame(b1, &[0, 0, p, q]), MAX);
                exercise(cx, ver, &frame(b1, &[0, 1, b'a', p, q]), MAX);
            }
        }
    }
}
fn tot_props(cx: &mut Cx) {
    let pk = mask_case(cx, false);
    let e = encode(Ver::V5, &pk, Form { ack: 2, ..Form::default() });
    let b = mutate(&mut cx.rng, &e);
    exercise(cx, Ver::V5, &b, MAX)
}
fn tot_giants(cx: &mut Cx) {
    let (ver, pk) = giant_any(cx);
    let e = encode(ver, &pk, Form::default());
    exercise(cx, ver, &e.bytes, MAX);
    let b = late_change(&mut cx.rng, &e);
    exercise(cx, ver, &b, MAX)
}

fn tot_big(cx: &mut Cx) {
    // large frames: many small parts, or large fields
    let ver = any_ver(&mut cx.rng);
    let r = &mut cx.rng;
    let n = r.range(100_000, 3_000_000);
    let ty = *r.pick(&[1u8, 2, 3, 4, 8, 9, 10, 11, 14]);
    let mut body = vec![0, 1];
    if ver == Ver::V5 && r.bool() {
        if r.bool() {
            body.push(0);
        }
        varint(if r.bool() { n } else { r.below(n) }, &mut body);
        let unit: &[u8] = *r.pick(&[&[0x26, 0, 0, 0, 0][..], &[0x0B, 1], &[0x0B, 0x80, 1], &[0x26, 0, 1, b'k', 0, 1, b'v'], &[0x1F, 0, 0]]);
        while body.len() < n {
            body.extend_from_slice(unit);
        }
    } else {
        let unit: &[u8] = *r.pick(&[&[0, 0, 0][..], &[0, 1, b'a', 1], &[0, 1, b'a'], &[0], &[1], &[0x80], &[0, 0]]);
        if ver == Ver::V5 {
            body.push(0);
        }
        while body.len() < n {
            body.extend_from_slice(unit);
        }
    }
    if r.bool() {
        for _ in 0..3 {
            let i = r.below(body.len());
            body[i] = r.next() as u8;
        }
    }
    let b1 = ty << 4 | if ty == 8 || ty == 10 { 2 } else { 0 };
    let b = frame(b1, &body);
    exercise(cx, ver, &b, MAX)
}

// --- C03 ---------------------------------------------------------------------------------------------------------

fn consume(cx: &mut Cx, ver: Ver, data: &[u8], max: usize) {
    cx.seen_bytes(data);
    let r = &mut cx.rng;
    // the stream is a view into a larger buffer half of the time
    let shared = r.bool();
    let (pre, post) = if shared { (r.below(20), r.below(20)) } else { (0, 0) };
    let mut whole = BytesMut::with_capacity(pre + data.len() + post + r.below(3) * 50);
    whole.put_slice(&vec![0xA5; pre]);
    whole.put_slice(data);
    whole.put_slice(&vec![0x5A; post]);
    let mut s = whole.split_off(pre);
    let rest = s.split_off(data.len());
    let mut at = 0usize;
    let mut steps = 0;
    loop {
        let before = &data[at..];
        let out = read(ver, &mut s, max);
        let fr = framing(before);
        let want = match fr {
            Fr::Known(h, n) if n <= max && h + n <= before.len() => h + n,
            _ => 0,
        };
        let mut eat = want;
        if want == 0 && out.is_ok() {
            return cx.fail(format!("a packet came out of {:?} ({:?}, limit {}): {:?} {}", hex(before), fr, max, ver, show(&out)));
        }
        if s[..] != before[want..] {
            return cx.fail(format!(
                "after a read ({}) {} bytes are left instead of {}: {:?} limit {} {} left {}",
                show(&out),
                s.len(),
                before.len() - want,
                ver,
                max,
                hex(before),
                hex(&s)
            ));
        }
        if want > 0 {
            cx.ev(if out.is_ok() { "frames consumed with a packet" } else { "frames consumed with an error" });
            // the same frame with other bytes behind it
            if steps < 3 {
                let tails: [&[u8]; 4] = [&[], &[0], &[0xFF; 9], &[0x00, 0x26, 0, 0, 0, 0, 0x10, 0x01]];
                for k in 0..2 {
                    let t = tails[(k * 2 + at + steps) % 4];
                    let mut alone = BytesMut::from(&before[..want]);
                    alone.extend_from_slice(t);
                    let o = read(ver, &mut alone, max);
                    if !same_out(&o, &out) {
                        return cx.fail(format!(
                            "result depends on the bytes after the frame: {:?} {} followed by {} gives {}, followed by {} gives {}",
                            ver,
                            hex(&before[..want]),
                            hex(t),
                            show(&o),
                            hex(&before[want..]),
                            show(&out)
                        ));
                    }
                    if alone[..] != *t {
                        return cx.fail(format!("bytes after the frame changed: {:?} {} then {} left {}", ver, hex(&before[..want]), hex(t), hex(&alone)));
                    }
                    cx.ev("suffixes compared");
                }
            }
        } else {
            cx.ev(match fr {
                Fr::BadLength => "malformed length left alone",
                Fr::Known(_, n) if n > max => "over the limit left alone",
                _ => "incomplete frame left alone",
            });
            eat = 0;
        }
        at += eat;
        steps += 1;
        if eat == 0 {
            break;
        }
    }
    if whole[..] != vec![0xA5; pre][..] || rest[..] != vec![0x5A; post][..] {
        cx.fail(format!("bytes of the buffer outside the stream changed: {:?} {}", ver, hex(data)));
    }
    cx.sample(|| format!("{:?} limit {} {}: {} frames", ver, max, hex(data), steps));
}

fn con_streams(cx: &mut Cx) {
    let ver = any_ver(&mut cx.rng);
    let b = stream(&mut cx.rng, ver, 5);
    let max = limit(&mut cx.rng, &b);
    consume(cx, ver, &b, max)
}
fn con_bytes(cx: &mut Cx) {
    // every cut of a small packet, as the end of the stream and as the end of the frame
    let ver = any_ver(&mut cx.rng);
    let conf = cx.rng.bool();
    let pk = if ver == Ver::V5 && cx.rng.bool() { mask_any(cx, conf) } else { Gen::new(&mut cx.rng, conf).l4().budget(40).packet(ver) };
    let f = form(&mut cx.rng);
    let e = encode(ver, &pk, f);
    let hl = header_len(&e);
    if e.bytes.len() > 300 {
        return;
    }
    let max = limit(&mut cx.rng, &e.bytes);
    for n in 0..=e.bytes.len() {
        consume(cx, ver, &e.bytes[..n], max);
        if n >= hl {
            let mut b = reframe(&e.bytes[..n], hl);
            b.extend_from_slice(&e.bytes[n..]);
            consume(cx, ver, &b, MAX);
        }
    }
}

/// A few frames in front of megabytes.
fn con_tails(cx: &mut Cx) {
    let ver = any_ver(&mut cx.rng);
    let r = &mut cx.rng;
    let n = match r.below(4) {
        0 => r.range(65_536, 140_000),
        1 => (1 << 24) + r.below(300),
        2 => (1 << r.range(17, 25)) + r.below(5) - 2,
        _ => r.range(100_000, 20 << 20),
    };
    let mut tail = vec![0; n];
    r.fill(&mut tail);
    tail[0] = 0;
    tail[1] = 0x80;
    let frames: Vec<Vec<u8>> = (0..10).map(|_| any_frame(r, ver)).filter(|f| f.len() < 5_000).collect();
    let mut b = BytesMut::new();
    for f in &frames {
        b.extend_from_slice(f)
    }
    b.extend_from_slice(&tail);
    let mut left = b.len();
    for f in &frames {
        let got = read(ver, &mut b, MAX);
        left -= f.len();
        if b.len() != left {
            return cx.fail(format!("in front of {} bytes: {} bytes left, not {}: {:?} {} gave {}", n, b.len(), left, ver, hex(f), show(&got)));
        }
        if got.map(|p| p.to_pk()) != read_frame(ver, f).map(|p| p.to_pk()) {
            return cx.fail(format!("read differently in front of {} bytes: {:?} {}", n, ver, hex(f)));
        }
        cx.ev("read in front of megabytes");
    }
    // what is left is type 0 with a malformed or unfinished length, or a frame of type 0
    if b[..] != tail[..] {
        cx.fail(format!("of {} bytes behind the frames some changed", n))
    }
    cx.seen(hash(&tail[..64]));
}

fn con_giants(cx: &mut Cx) {
    let (ver, pk) = giant_any(cx);
    let e = encode(ver, &pk, Form::default());
    let mut b = if cx.rng.bool() { e.bytes } else { late_change(&mut cx.rng, &e) };
    b.extend([0xC0, 0, 0xD0]);
    consume(cx, ver, &b, MAX);
}

/// Large frames of chosen lengths between small ones.
fn con_sizes(cx: &mut Cx) {
    let ver = any_ver(&mut cx.rng);
    let r = &mut cx.rng;
    let mut b = if r.bool() { any_frame(r, ver) } else { vec![] };
    let max = if r.p(1, 20) { 8_000_000 } else { 600_000 };
    b.extend(sized_frame(r, ver, max));
    if r.p(4, 5) {
        b.extend(any_frame(r, ver));
    }
    if r.p(1, 5) {
        b.truncate(b.len() - r.below(b.len().min(10)));
    }
    consume(cx, ver, &b, MAX);
    cx.ev("large frames");
}

// --- C04 ---------------------------------------------------------------------------------------------------------

fn need(cx: &mut Cx, ver: Ver, b: &[u8], max: usize) {
    let fr = framing(b);
    let c = check(b, max);
    let mut s = BytesMut::from(b);
    let rd = read(ver, &mut s, max);
    // what has arrived of the length field
    let partial: usize = b.iter().skip(1).take(4).enumerate().map(|(i, x)| (*x as usize & 127) << (7 * i)).sum();
    for (who, n) in [
        ("check", if let Err(Error::InsufficientBytes(n)) = &c { Some(*n) } else { None }),
        ("read", if let Err(Error::InsufficientBytes(n)) = &rd { Some(*n) } else { None }),
    ] {
        let why = match (fr, n) {
            (Fr::Header(k), Some(n)) if n >= 1 && n <= k => {
                cx.ev("incomplete headers");
                continue;
            }
            (Fr::Header(_), None) if partial > max => continue,
            (Fr::Header(k), n) => format!("needs at least {}, got {:?}", k, n),
            (Fr::Known(_, len), n) if len > max => {
                if n.is_none() {
                    cx.ev("over the limit");
                    continue;
                }
                "over the limit, not short".to_string()
            }
            (Fr::Known(h, len), Some(n)) if h + len > b.len() && n == h + len - b.len() => {
                cx.ev("incomplete frames with the exact count");
                continue;
            }
            (Fr::Known(h, len), None) if h + len <= b.len() => {
                cx.ev(if matches!(&rd, Ok(_)) { "complete frames accepted" } else { "complete frames refused" });
                continue;
            }
            (Fr::Known(h, len), n) => format!("missing {} bytes, got {:?}", (h + len) as i64 - b.len() as i64, n),
            (Fr::BadLength, None) => {
                cx.ev("malformed lengths");
                continue;
            }
            (Fr::BadLength, n) => format!("malformed length, got {:?}", n),
        };
        cx.fail(format!("{} on {:?} limit {} {}: {} (check {:?}, read {})", who, ver, max, hex(b), why, c, show(&rd)));
    }
    // check itself accepts exactly the complete frames within the limit
    let complete = matches!(fr, Fr::Known(h, n) if n <= max && h + n <= b.len());
    if c.is_ok() != complete {
        cx.fail(format!("check of {} limit {} is {:?} ({:?})", hex(b), max, c, fr));
    }
}

fn need_streams(cx: &mut Cx) {
    let ver = any_ver(&mut cx.rng);
    let b = stream(&mut cx.rng, ver, 2);
    let max = limit(&mut cx.rng, &b);
    cx.seen_bytes(&b);
    need(cx, ver, &b, max);
    let n = cx.rng.below(b.len() + 1);
    need(cx, ver, &b[..n], max);
    // near the ends of the first frame
    if let Fr::Known(h, n) = framing(&b) {
        for d in [0, 1, 2, 3] {
            for e in [h + d, (h + n).saturating_sub(d), h + n + d, h.saturating_sub(d)] {
                if e <= b.len() {
                    need(cx, ver, &b[..e], max);
                }
            }
        }
    }
    cx.sample(|| format!("{:?} limit {} {}: {:?}", ver, max, hex(&b), framing(&b)));
}
fn need_headers(cx: &mut Cx) {
    let ver = any_ver(&mut cx.rng);
    let mut h = header(&mut cx.rng);
    let n = cx.rng.below(4);
    for _ in 0..n {
        h.push(cx.rng.next() as u8);
    }
    cx.seen_bytes(&h);
    for n in 0..=h.len() {
        let max = limit(&mut cx.rng, &h);
        need(cx, ver, &h[..n], max);
    }
}
/// Large frames of which a large part is there.
fn need_large(cx: &mut Cx) {
    let ver = any_ver(&mut cx.rng);
    let r = &mut cx.rng;
    let n = match r.below(4) {
        0 => MAX - r.below(300),
        1 => (1 << r.range(16, 27)) + r.below(5) - 2,
        2 => r.range(1 << 16, 1 << 20),
        _ => r.range(1 << 16, MAX),
    };
    let mut b = vec![*r.pick(&[0x30, 0x32, 0x82, 0x90, 0x10, 0x00, 0xC0])];
    varint(n, &mut b);
    let h = b.len();
    let k = match r.below(4) {
        0 => (1 << r.range(8, 24)) + r.below(5) - 2,
        1 => r.range(1, 64) * 65_536 + r.below(9),
        // lacking a round number
        2 if n < 18 << 20 => n - (1 << r.range(0, 16)),
        _ => r.below(16 << 20),
    };
    b.resize(h + k.min(n - 1), 7);
    cx.seen((n as u64) << 32 | b.len() as u64);
    cx.ev("large parts of large frames");
    need(cx, ver, &b, MAX);
}
fn need_cuts(cx: &mut Cx) {
    let ver = any_ver(&mut cx.rng);
    let conf = cx.rng.bool();
    let mut g = Gen::new(&mut cx.rng, conf).l4().budget(100);
    let pk = g.packet(ver);
    let f = form(&mut cx.rng);
    let e = encode(ver, &pk, f);
    let hl = header_len(&e);
    if e.bytes.len() > 300 {
        return;
    }
    cx.seen_bytes(&e.bytes);
    for n in 0..=e.bytes.len() {
        need(cx, ver, &e.bytes[..n], MAX);
        // complete frames, whatever is missing inside
        if n >= hl {
            need(cx, ver, &reframe(&e.bytes[..n], hl), MAX);
        }
    }
    // contents that ask for more than there is
    let b = mutate(&mut cx.rng, &e);
    need(cx, ver, &b, MAX);
}
/// Property lengths with unfinished continuation, at the very end of the frame and before it.
fn need_inner(cx: &mut Cx) {
    let pk = mask_any(cx, false);
    let e = encode(Ver::V5, &pk, Form { ack: 2, ..Form::default() });
    let hl = header_len(&e);
    cx.seen_bytes(&e.bytes);
    let pls: Vec<_> = e.spans.iter().filter(|s| s.0 == Sp::PropLen).copied().collect();
    for (_, a, z) in pls {
        for k in 1..=5usize {
            let f = vec![0x80 | cx.rng.next() as u8; k];
            need(cx, Ver::V5, &frame(e.bytes[0], &splice(&e.bytes[hl..a], a - hl, a - hl, &f)), MAX);
            need(cx, Ver::V5, &reframe(&splice(&e.bytes, a, z, &f), hl), MAX);
        }
    }
    let ids: Vec<_> = e.spans.iter().filter(|s| s.0 == Sp::Prop).copied().collect();
    if let Some(s) = ids.last() {
        // subscription identifier cut off
        let mut b = e.bytes[hl..s.1].to_vec();
        b.extend_from_slice(&[0x0B, 0x80, 0x80, 0x80][..cx.rng.range(1, 4)]);
        need(cx, Ver::V5, &frame(e.bytes[0], &b), MAX);
    }
}

// --- C05 ---------------------------------------------------------------------------------------------------------

struct Trace {
    out: Vec<Out>,
    reads: usize,
    /// bytes left at the end
    left: Vec<u8>,
}

/// A receiver: appends each piece and reads until more is needed; stops for good when the stream cannot go on.
fn receive(ver: Ver, data: &[u8], cuts: &[usize], max: usize, cap: usize, snap: &mut Vec<Option<Pk>>) -> Result<Trace, String> {
    let mut s = BytesMut::with_capacity(cap);
    let mut t = Trace { out: vec![], reads: 0, left: vec![] };
    let mut at = 0;
    let bound = data.len() / 2 + cuts.len() + 8;
    'outer: for c in cuts.iter().chain(std::iter::once(&data.len())) {
        s.extend_from_slice(&data[at..*c]);
        at = *c;
        loop {
            t.reads += 1;
            if t.reads > bound {
                return Err(format!("{} reads and no end", t.reads));
            }
            let before = s.len();
            match read(ver, &mut s, max) {
                Err(Error::InsufficientBytes(_)) => break,
                Err(e @ (Error::PayloadSizeLimitExceeded(_) | Error::MalformedRemainingLength)) if s.len() == before => {
                    t.out.push(Err(e));
                    snap.push(None);
                    break 'outer;
                }
                o => {
                    snap.push(o.as_ref().ok().map(|p| p.to_pk()));
                    t.out.push(o);
                }
            }
        }
    }
    t.left = s.to_vec();
    // the buffer is used for something else
    let n = s.len();
    s.fill(0xEE);
    s.truncate(n / 2);
    s.clear();
    s.extend_from_slice(&[0xDD; 40]);
    Ok(t)
}

fn deliver(cx: &mut Cx, ver: Ver, data: &[u8], whole: &Trace, cuts: &[usize], max: usize) {
    let mut snap = vec![];
    let cap = *cx.rng.pick(&[0, 1, 16, 64, 300, 5000]);
    let t = match receive(ver, data, cuts, max, cap, &mut snap) {
        Ok(t) => t,
        Err(e) => return cx.fail(format!("{}: {:?} limit {} {} cut at {:?}", e, ver, max, hex(data), cuts)),
    };
    cx.ev("deliveries compared");
    cx.evn("pieces", cuts.len() as u64 + 1);
    let stopped = matches!(t.out.last(), Some(Err(Error::PayloadSizeLimitExceeded(_) | Error::MalformedRemainingLength)));
    if t.out.len() != whole.out.len() || !t.out.iter().zip(&whole.out).all(|(a, b)| same_out(a, b)) || (!stopped && t.left != whole.left) {
        let k = t.out.iter().zip(&whole.out).position(|(a, b)| !same_out(a, b)).unwrap_or(t.out.len().min(whole.out.len()));
        return cx.fail(format!(
            "delivery changes the outcome: {:?} limit {} {} cut at {}: result {} is {} instead of {} ({} results instead of {}; {} bytes left instead of {})",
            ver,
            max,
            hex(data),
            cut(&cuts),
            k,
            t.out.get(k).map(show).unwrap_or("missing".into()),
            whole.out.get(k).map(show).unwrap_or("missing".into()),
            t.out.len(),
            whole.out.len(),
            t.left.len(),
            whole.left.len()
        ));
    }
    for (o, s) in t.out.iter().zip(&snap) {
        if let (Ok(p), Some(s)) = (o, s) {
            cx.ev("packets compared after the buffer was reused");
            if p.to_pk() != *s {
                return cx.fail(format!("a packet changed after it was read: {:?} {} became {}", ver, cut(s), cut(&p.to_pk())));
            }
        }
    }
}

fn base(cx: &mut Cx, ver: Ver, data: &[u8], max: usize) -> Option<Trace> {
    cx.seen_bytes(data);
    let mut snap = vec![];
    match receive(ver, data, &[], max, 0, &mut snap) {
        Ok(t) => {
            // against the reference framing: one result per frame
            let (mut at, mut n, mut extra) = (0, 0, 0);
            loop {
                match framing(&data[at..]) {
                    Fr::Known(h, l) if l <= max && at + h + l <= data.len() => {
                        at += h + l;
                        n += 1;
                    }
                    Fr::Known(_, l) if l > max => {
                        extra = 1;
                        break;
                    }
                    Fr::BadLength => {
                        extra = 1;
                        break;
                    }
                    _ => break,
                }
            }
            if t.out.len() != n + extra || t.left != data[at..] {
                cx.fail(format!("{} results from {} frames: {:?} limit {} {}", t.out.len(), n, ver, max, hex(data)));
                return None;
            }
            cx.evn("frames in streams", n as u64);
            Some(t)
        }
        Err(e) => {
            cx.fail(format!("{}: {:?} limit {} {}", e, ver, max, hex(data)));
            None
        }
    }
}

fn del_random(cx: &mut Cx) {
    let ver = any_ver(&mut cx.rng);
    let data = stream(&mut cx.rng, ver, 8);
    let max = if cx.rng.p(1, 4) { limit(&mut cx.rng, &data) } else { MAX };
    let whole = match base(cx, ver, &data, max) {
        Some(t) => t,
        None => return,
    };
    cx.sample(|| format!("{:?} limit {} {}: {} results", ver, max, hex(&data), whole.out.len()));
    for k in 0..4 {
        let r = &mut cx.rng;
        let mut cuts: Vec<usize> = match k {
            0 if data.len() < 3000 => (1..data.len()).collect(),
            0 => (1..40.min(data.len())).collect(),
            1 => (0..r.range(1, 6)).map(|_| r.below(data.len() + 1)).collect(),
            2 => {
                let step = r.range(1, 9);
                (1..data.len()).step_by(step + data.len() / 2000).collect()
            }
            _ => {
                // at and around the frame boundaries
                let mut v = vec![];
                let mut at = 0;
                while let Fr::Known(h, n) = framing(&data[at..]) {
                    for x in [at + 1, at + h - 1, at + h, at + h + 1, (at + h + n).saturating_sub(1), at + h + n, at + h + n + 1] {
                        if r.bool() && x <= data.len() {
                            v.push(x);
                        }
                    }
                    at += h + n;
                    if at >= data.len() {
                        break;
                    }
                }
                v
            }
        };
        cuts.sort_unstable();
        // empty pieces now and then
        if !cuts.is_empty() && cx.rng.p(1, 4) {
            let c = *cx.rng.pick(&cuts);
            cuts.push(c);
            cuts.sort_unstable();
        }
        deliver(cx, ver, &data, &whole, &cuts, max);
    }
}

fn del_all(cx: &mut Cx) {
    // every way of cutting a short stream into two, and most into three pieces
    let ver = any_ver(&mut cx.rng);
    let mut data = vec![];
    for _ in 0..cx.rng.range(1, 3) {
        let conf = cx.rng.bool();
        let pk = Gen::new(&mut cx.rng, conf).l4().budget(14).packet(ver);
        let f = form(&mut cx.rng);
        let e = encode(ver, &pk, f);
        data.extend(if cx.rng.p(2, 3) { e.bytes } else { mutate(&mut cx.rng, &e) });
    }
    if data.len() > 80 {
        data.truncate(80);
    }
    let max = if cx.rng.p(1, 5) { limit(&mut cx.rng, &data) } else { MAX };
    let whole = match base(cx, ver, &data, max) {
        Some(t) => t,
        None => return,
    };
    let n = data.len();
    for a in 0..=n {
        deliver(cx, ver, &data, &whole, &[a], max);
        for b in (a..=n).step_by(if n > 40 { 3 } else { 1 }) {
            deliver(cx, ver, &data, &whole, &[a, b], max);
        }
    }
}

fn del_guided(cx: &mut Cx) {
    // a receiver that waits for exactly as many bytes as it is told
    let ver = any_ver(&mut cx.rng);
    let data = stream(&mut cx.rng, ver, 6);
    let max = if cx.rng.p(1, 4) { limit(&mut cx.rng, &data) } else { MAX };
    let whole = match base(cx, ver, &data, max) {
        Some(t) => t,
        None => return,
    };
    let mut s = BytesMut::new();
    let mut at = 0;
    let mut out: Vec<Out> = vec![];
    let mut waits = 0;
    loop {
        let before = s.len();
        match read(ver, &mut s, max) {
            Err(Error::InsufficientBytes(n)) => {
                waits += 1;
                if n == 0 {
                    return cx.fail(format!("asked for 0 more bytes: {:?} {} with {} delivered", ver, hex(&data), at));
                }
                if at + n > data.len() {
                    break;
                }
                s.extend_from_slice(&data[at..at + n]);
                at += n;
            }
            Err(e @ (Error::PayloadSizeLimitExceeded(_) | Error::MalformedRemainingLength)) if s.len() == before => {
                out.push(Err(e));
                break;
            }
            o => out.push(o),
        }
        if out.len() > data.len() + 2 || waits > data.len() + 2 {
            return cx.fail(format!("no end: {:?} {}", ver, hex(&data)));
        }
    }
    cx.ev("guided deliveries");
    // all whole frames must have come out: asking for too much would miss the last ones
    if out.len() != whole.out.len() || !out.iter().zip(&whole.out).all(|(a, b)| same_out(a, b)) {
        cx.fail(format!("waiting for the bytes asked for gives {} results instead of {}: {:?} limit {} {}", out.len(), whole.out.len(), ver, max, hex(&data)));
    }
}

fn del_long(cx: &mut Cx) {
    // long connections: thousands of packets through one buffer
    let ver = any_ver(&mut cx.rng);
    let mut data = vec![];
    let n = cx.rng.range(300, 2000);
    let mut pool = vec![];
    for _ in 0..40 {
        pool.push(any_frame(&mut cx.rng, ver));
    }
    pool.retain(|f| f.len() < 2000);
    pool.push(vec![0xC0, 0]);
    for _ in 0..n {
        data.extend_from_slice(cx.rng.pick(&pool));
    }
    let whole = match base(cx, ver, &data, MAX) {
        Some(t) => t,
        None => return,
    };
    let mut cuts = vec![];
    let mut at = 0;
    while at < data.len() {
        at += match cx.rng.below(4) {
            0 => cx.rng.range(1, 4),
            1 => cx.rng.range(1, 100),
            2 => 1460,
            _ => 4096,
        };
        if at < data.len() {
            cuts.push(at);
        }
    }
    deliver(cx, ver, &data, &whole, &cuts, MAX)
}

fn del_giants(cx: &mut Cx) {
    let (ver, pk) = giant_any(cx);
    let e = encode(ver, &pk, Form::default());
    let mut data = e.bytes;
    data.extend([0xC0, 0, 0xD0]);
    let whole = match base(cx, ver, &data, MAX) {
        Some(t) => t,
        None => return,
    };
    // in few or hundreds of pieces
    let k = 1 << cx.rng.range(1, 8);
    let mut cuts: Vec<usize> = (0..k).map(|_| cx.rng.range(1, data.len() - 1)).collect();
    cuts.push(data.len() - 3);
    cuts.push(data.len() - 4);
    cuts.sort();
    cuts.dedup();
    deliver(cx, ver, &data, &whole, &cuts, MAX)
}

// --- C06 ---------------------------------------------------------------------------------------------------------

fn lim(cx: &mut Cx, ver: Ver, b: &[u8], max: usize) {
    let fr = framing(b);
    let (c, u) = alloc::measure(|| check(b, max));
    if u.count > 0 {
        return cx.fail(format!("check allocates: {:?}", u));
    }
    let mut s = BytesMut::from(b);
    let cap = s.capacity();
    let ptr = s.as_ptr();
    let (rd, u) = alloc::measure(|| read(ver, &mut s, max));
    let over = |e: &Error| if let Error::PayloadSizeLimitExceeded(n) = e { Some(*n) } else { None };
    let ce = c.as_ref().err().and_then(over);
    let re = rd.as_ref().err().and_then(over);
    match fr {
        Fr::Known(_, n) if n > max => {
            if ce != Some(n) || re != Some(n) {
                cx.fail(format!("remaining length {} over the limit {}: check {:?}, read {}: {:?} {}", n, max, c, show(&rd), ver, hex(b)));
            } else if s[..] != *b || s.capacity() != cap || s.as_ptr() != ptr || u.count > 0 {
                cx.fail(format!("a refusal for size consumed or reserved ({:?}, capacity {} to {}): {:?} {}", u, cap, s.capacity(), ver, hex(b)));
            } else {
                cx.ev("refused for size");
            }
        }
        Fr::Known(h, n) => {
            if ce.is_some() || re.is_some() {
                cx.fail(format!("remaining length {} within the limit {}: check {:?}, read {}: {:?} {}", n, max, c, show(&rd), ver, hex(b)));
            } else {
                cx.ev(if n == max { "exactly at the limit" } else { "within the limit" });
                if h + n > b.len() {
                    cx.ev("within the limit, incomplete");
                }
            }
        }
        Fr::Header(_) | Fr::BadLength => {
            let partial: usize = b.iter().skip(1).take(4).enumerate().map(|(i, x)| (*x as usize & 127) << (7 * i)).sum();
            if (ce.is_some() || re.is_some()) && partial <= max {
                cx.fail(format!("refused for size without a length: check {:?}, read {}: {:?} limit {} {}", c, show(&rd), ver, max, hex(b)));
            }
        }
    }
}

fn lim_headers(cx: &mut Cx) {
    let ver = any_ver(&mut cx.rng);
    let mut b = header(&mut cx.rng);
    let k = cx.rng.below(6);
    for _ in 0..k {
        b.push(cx.rng.next() as u8);
    }
    cx.seen_bytes(&b);
    let mut ms: Vec<usize> = vec![0, 1, 127, 128, 16383, 16384, 65535, 65536, 2097151, 2097152, MAX - 1, MAX, MAX + 1, usize::MAX];
    if let Fr::Known(_, n) = framing(&b) {
        let w = wide(&mut cx.rng, n);
        ms = vec![n, n + 1, n.saturating_sub(1), n / 2, n * 2, w, *cx.rng.pick(&ms), *cx.rng.pick(&ms)];
    }
    for m in ms {
        for n in 0..=b.len() {
            lim(cx, ver, &b[..n], m);
        }
    }
    cx.sample(|| format!("{:?} {}: {:?}", ver, hex(&b), framing(&b)));
}
fn lim_frames(cx: &mut Cx) {
    let ver = any_ver(&mut cx.rng);
    let b = any_frame(&mut cx.rng, ver);
    cx.seen_bytes(&b);
    if let Fr::Known(h, n) = framing(&b) {
        let w = wide(&mut cx.rng, n);
        for m in [n, n + 1, n.saturating_sub(1), h + n, (h + n).saturating_sub(1), cx.rng.below(n + 2), w, 0] {
            lim(cx, ver, &b, m);
            let k = cx.rng.range(0, b.len());
            lim(cx, ver, &b[..k], m);
            lim(cx, ver, &b[..h.min(b.len())], m);
        }
        // behind it another one
        let mut d = b.clone();
        d.extend_from_slice(&b);
        lim(cx, ver, &d, n);
        if n > 0 {
            lim(cx, ver, &d, n - 1);
        }
    }
}
/// All pairs of a small length and a small limit, frames complete and not.
fn lim_pairs(cx: &mut Cx) {
    let ver = if cx.idx % 2 == 0 { Ver::V4 } else { Ver::V5 };
    let n = (cx.idx / 2) as usize;
    let b1 = *cx.rng.pick(&[0x30, 0xC0, 0x10, 0x00, 0x82, 0x40]);
    let b = frame(b1, &vec![0; n]);
    cx.seen(cx.idx);
    for m in 0..300 {
        lim(cx, ver, &b, m);
        lim(cx, ver, &b[..b.len() - b.len() / 3], m);
    }
}

// --- C28 ---------------------------------------------------------------------------------------------------------

fn agree(cx: &mut Cx, ver: Ver, b: &[u8]) {
    let (h, n) = match framing(b) {
        Fr::Known(h, n) => (h, n),
        _ => return,
    };
    cx.seen_bytes(b);
    let mut s = BytesMut::from(b);
    s.extend_from_slice(&[0x10, 0x7F, 0, 1][..cx.rng.below(5)]);
    let fh = match check(&s, MAX) {
        Ok(f) => f,
        Err(e) => return cx.fail(format!("check refuses a complete frame: {:?} {}", e, hex(b))),
    };
    if tgt(|| fh.frame_length()) != h + n || fh != tgt(|| FixedHeader::new(b[0], h - 1, n)) {
        return cx.fail(format!("check reports {:?} for {}", fh, hex(b)));
    }
    let ty = b[0] >> 4;
    match tgt(|| fh.packet_type()) {
        Ok(t) if type_num(t) == ty => {}
        Err(_) if ty == 0 || ty == 15 => {}
        t => return cx.fail(format!("check reports packet type {:?} for {}", t, hex(b))),
    }
    cx.ev("fixed headers compared");
    if n == 0 || !has_reader(ver, ty) {
        return;
    }
    let mut t = s.clone();
    let want = read(ver, &mut t, MAX);
    let mut s2 = s.clone();
    let f = s2.split_to(fh.frame_length()).freeze();
    if let Some(got) = read_direct(ver, fh, ty, f) {
        if !same_out(&got, &want) {
            return cx.fail(format!("{:?} {}: the {} reader gives {}, the stream reader {}", ver, hex(b), type_name(ty), show(&got), show(&want)));
        }
        cx.ev(if got.is_ok() { "packets from both readers" } else { "errors from both readers" });
        cx.ev(type_name(ty));
        cx.sample(|| format!("{:?} {}: both {}", ver, hex(b), show(&got)));
    }
}

fn agr_random(cx: &mut Cx) {
    let ver = any_ver(&mut cx.rng);
    let b = any_frame(&mut cx.rng, ver);
    agree(cx, ver, &b)
}
fn agr_giants(cx: &mut Cx) {
    let (ver, pk) = giant_any(cx);
    let e = encode(ver, &pk, Form::default());
    agree(cx, ver, &e.bytes);
    let b = late_change(&mut cx.rng, &e);
    agree(cx, ver, &b)
}
fn agr_mask(cx: &mut Cx) {
    let pk = mask_case(cx, false);
    let e = encode(Ver::V5, &pk, Form { ack: cx.rng.below(3) as u8, ..Form::default() });
    agree(cx, Ver::V5, &e.bytes);
    let b = mutate(&mut cx.rng, &e);
    agree(cx, Ver::V5, &b)
}

const EXTRACT: &[(Loc, u8)] = &[
    (Loc::ConnAck, 2),
    (Loc::Ack, 4),
    (Loc::Ack, 5),
    (Loc::Ack, 6),
    (Loc::Ack, 7),
    (Loc::Subscribe, 8),
    (Loc::SubAck, 9),
    (Loc::UnsubAck, 11),
    (Loc::Disconnect, 14),
];

fn agr_extract(cx: &mut Cx) {
    let (loc, ty) = EXTRACT[cx.idx as usize % EXTRACT.len()];
    let conf = cx.rng.bool();
    let mut g = Gen::new(&mut cx.rng, conf);
    let mut p = if g.r.bool() { g.props(loc) } else { let m = g.r.next() as u32; g.props_mask(loc, m) };
    if g.r.p(1, 4) && !p.is_empty() {
        // repeated ones too
        let again = p[g.r.below(p.len())].clone();
        p.push(again);
    }
    let r = &mut cx.rng;
    if p.len() < 50 {
        r.shuffle(&mut p);
    }
    let mut sec = encode_props(&p);
    match r.below(6) {
        0 => {
            let i = r.below(sec.len());
            sec[i] = r.next() as u8;
        }
        1 => {
            let n = r.below(sec.len());
            sec.truncate(n);
        }
        2 => {
            let i = r.below(sec.len());
            sec[i] = sec[i].wrapping_add(1);
        }
        _ => {}
    }
    // what comes before and after it in the packet
    let (b1, head): (u8, Vec<u8>) = match ty {
        2 => (0x20, vec![0, 0]),
        4..=7 => (ty << 4 | if ty == 6 { 2 } else { 0 }, vec![1, 2, 0]),
        8 => (0x82, vec![1, 2]),
        9 | 11 => (ty << 4, vec![1, 2]),
        _ => (0xE0, vec![*r.pick(codes(Ver::V5, 14))]),
    };
    let tail: Vec<u8> = match ty {
        8 => vec![0, 1, b'x', 1],
        9 | 11 => vec![0, 0],
        _ => vec![],
    };
    let mut rest = sec.clone();
    rest.extend_from_slice(&tail);
    let mut body = head;
    body.extend_from_slice(&rest);
    let b = frame(b1, &body);
    if rest.is_empty() {
        return;
    }
    cx.seen_bytes(&b);
    let whole = read_frame(Ver::V5, &b);
    let mut s = Bytes::from(rest.clone());
    let got = match extract(loc, ty, &mut s) {
        Some(g) => g,
        None => return,
    };
    // the declared section
    let mut n = 0usize;
    let mut l = None;
    for (i, x) in rest.iter().take(4).enumerate() {
        n |= (*x as usize & 127) << (7 * i);
        if x & 128 == 0 {
            l = Some(i + 1 + n);
            break;
        }
    }
    match (&got, &whole) {
        (Ok(_), _) if l.map(|l| l > rest.len()).unwrap_or(true) => {
            cx.fail(format!("extracted from a section that is not there: {:?} {}: {}", loc, hex(&rest), cut(&got)))
        }
        (Ok(q), w) => {
            let l = l.unwrap();
            if s[..] != rest[l..] {
                return cx.fail(format!("extracting the section of {} bytes left {} of {} bytes: {:?} {}", l, s.len(), rest.len(), loc, hex(&rest)));
            }
            match w {
                Ok(w) => {
                    let w = w.to_pk();
                    if w.props() != Some(q) {
                        return cx.fail(format!("{:?} {}: on its own {}, in the packet {}", loc, hex(&rest), cut(q), cut(&w.props())));
                    }
                    cx.ev("sections equal on their own and in the packet");
                }
                Err(e) if l == sec.len() => {
                    return cx.fail(format!("{:?} {}: on its own {}, in the packet {:?}", loc, hex(&rest), cut(q), e))
                }
                Err(_) => {}
            }
        }
        (Err(e), Err(f)) => {
            if e != f {
                return cx.fail(format!("{:?} {}: on its own {:?}, in the packet {:?}", loc, hex(&rest), e, f));
            }
            cx.ev("sections refused on their own and in the packet")
        }
        (Err(e), Ok(w)) => cx.fail(format!("{:?} {}: on its own {:?}, in the packet {}", loc, hex(&rest), e, cut(&w.to_pk()))),
    }
}

// --- C29 ---------------------------------------------------------------------------------------------------------

/// Case i covers 65536 values; 4096 cases are all of them.
fn vbi_header(cx: &mut Cx) {
    let base = cx.idx as usize * 65536;
    let r = &mut cx.rng;
    let b1 = r.next() as u8;
    let mut bad = None;
    tgt(|| {
        let mut b = Vec::with_capacity(5);
        for n in base..base + 65536 {
            b.clear();
            b.push(b1);
            varint(n, &mut b);
            let ok = match mqttbytes::check(b.iter(), MAX) {
                Err(Error::InsufficientBytes(k)) => k == n && n > 0,
                Ok(h) => n == 0 && h.frame_length() == 2,
                _ => false,
            };
            let ok2 = n == 0 || matches!(mqttbytes::check(b.iter(), n - 1), Err(Error::PayloadSizeLimitExceeded(k)) if k == n);
            if !(ok && ok2) {
                bad = Some((n, b.clone()));
                break;
            }
        }
    });
    if let Some((n, b)) = bad {
        return cx.fail(format!("remaining length {} in {}: {:?}", n, hex(&b), check(&b, MAX)));
    }
    cx.evn("remaining lengths read", 65536);
    for i in 0..16 {
        cx.seen(hash(&(base + i * 4096).to_be_bytes()));
    }
}

/// Subscription identifiers: 65536 values per case, in PUBLISH packets of 4096 each.
fn vbi_subids(cx: &mut Cx) {
    let k = if cx.thorough() {
        cx.idx
    } else {
        // boundaries and a sample
        const FIX: &[u64] = &[0, 31, 32, 4095, 1, 16, 2048, 33];
        FIX.get(cx.idx as usize).copied().unwrap_or_else(|| cx.rng.below(4096) as u64)
    };
    let base = k as usize * 65536;
    for c in 0..16 {
        let ids: Vec<usize> = (base + c * 4096..base + (c + 1) * 4096).collect();
        let mut p = v5::Publish::new("t", mqttbytes::QoS::AtMostOnce, vec![1u8, 2, 3]);
        p.properties = Some(publish_props(&vec![]));
        p.properties.as_mut().unwrap().subscription_identifiers = ids.clone();
        let mut sec = vec![];
        for i in &ids {
            sec.push(0x0B);
            varint(*i, &mut sec);
        }
        let mut body = vec![0, 1, b't'];
        varint(sec.len(), &mut body);
        body.extend_from_slice(&sec);
        body.extend_from_slice(&[1, 2, 3]);
        let want = frame(0x30, &body);
        let mut o = BytesMut::new();
        let w = tgt(|| p.write(&mut o));
        // 0 is a protocol error: writing it is not judged
        if w.is_err() && ids[0] == 0 {
            continue;
        }
        if w.is_err() || o[..] != want[..] {
            let at = o.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(o.len().min(want.len()));
            return cx.fail(format!("subscription identifiers {}..: written ({:?}) wrongly at byte {} of {}: {}", ids[0], w, at, want.len(), hex(&o[at.saturating_sub(8).min(o.len())..])));
        }
        let mut s = BytesMut::from(&want[..]);
        match tgt(|| v5::read(&mut s, MAX)) {
            Ok(v5::Packet::Publish(q)) => {
                let got = q.properties.map(|p| p.subscription_identifiers).unwrap_or_default();
                if got != ids || q.payload[..] != [1, 2, 3] {
                    let at = got.iter().zip(&ids).position(|(a, b)| a != b).unwrap_or(got.len().min(ids.len()));
                    return cx.fail(format!("subscription identifier {:?} read as {:?}", ids.get(at), got.get(at)));
                }
            }
            r => return cx.fail(format!("subscription identifiers {}..{}: {}", ids[0], ids[4095], cut(&r))),
        }
        cx.evn("subscription identifiers written and read", 4096);
        cx.seen(hash(&ids[0].to_be_bytes()) ^ 1);
    }
}

/// The same in SUBSCRIBE, one per packet.
fn vbi_subscribe(cx: &mut Cx) {
    for _ in 0..50 {
        let n = {
            let mut g = Gen::new(&mut cx.rng, true);
            let bits = g.r.range(1, 28);
            if g.r.bool() {
                g.vbi() as usize
            } else {
                (1usize << bits).wrapping_add(g.r.range(0, 2)).wrapping_sub(1).clamp(1, MAX)
            }
        };
        let mut p = v5::Subscribe::new("a", mqttbytes::QoS::AtLeastOnce);
        p.pkid = 3;
        p.properties = Some(v5::SubscribeProperties { id: Some(n), user_properties: vec![] });
        let mut sec = vec![0x0B];
        varint(n, &mut sec);
        let mut body = vec![0, 3];
        varint(sec.len(), &mut body);
        body.extend_from_slice(&sec);
        body.extend_from_slice(&[0, 1, b'a', 1]);
        let want = frame(0x82, &body);
        let mut o = BytesMut::new();
        let w = tgt(|| p.write(&mut o));
        if w.is_err() || o[..] != want[..] {
            return cx.fail(format!("SUBSCRIBE with subscription identifier {}: {:?} {}", n, w, hex(&o)));
        }
        match tgt(|| v5::read(&mut o, MAX)) {
            Ok(v5::Packet::Subscribe(q)) if q == p => cx.ev("subscription identifiers written and read"),
            r => return cx.fail(format!("SUBSCRIBE with subscription identifier {} read as {}", n, cut(&r))),
        }
        cx.seen(hash(&n.to_be_bytes()) ^ 2);
    }
}

/// Packets whose remaining length (or property length) takes every value of a dense range.
fn vbi_dense(cx: &mut Cx) {
    let n = cx.idx as usize;
    let n = if n < 20_000 { n } else { 2_097_152 - 20 + (n - 20_000) % 40 };
    let ver = if cx.idx % 3 == 0 { Ver::V4 } else { Ver::V5 };
    let mut todo = vec![];
    let mut p = Pk::Publish { dup: false, qos: 0, retain: false, topic: "t".into(), pkid: 0, props: vec![], payload: vec![] };
    if stretch(ver, &mut p, 0, n) {
        todo.push((ver, p));
    }
    if n > 16 {
        let id = cx.idx % 6;
        let mut p = match id {
            0 => Pk::ConnAck { sp: false, code: 0, props: vec![] },
            1 => Pk::Ack { ty: 4 + (cx.idx / 6 % 4) as u8, pkid: 5, reason: 0, props: vec![] },
            2 => Pk::SubAck { pkid: 5, props: vec![], codes: vec![1] },
            3 => Pk::Disconnect { reason: 0, props: vec![] },
            4 => Pk::Subscribe { pkid: 5, props: vec![], filters: vec![("a".into(), 1)] },
            _ => Pk::Publish { dup: false, qos: 1, retain: false, topic: "t".into(), pkid: 8, props: vec![], payload: vec![0x80, 0x26] },
        };
        if stretch(Ver::V5, &mut p, 1, n) {
            todo.push((Ver::V5, p));
        }
    }
    for (ver, p) in todo {
        let want = p.clone().canon();
        let mut o = BytesMut::new();
        let w = CPk::of(ver, &p, Knob::default()).write(&mut o);
        // shortest form: the whole frame is decided by the strict decoder
        let ok = matches!(framing(&o), Fr::Known(h, r) if h + r == o.len());
        if w.is_err() || !ok || decode(ver, &o) != Verdict::Accept(want.clone()) {
            return cx.fail(format!("length {}: written ({:?}) as {} = {}", n, w, hex(&o), if ok { cut(&decode(ver, &o)) } else { "not a frame".into() }));
        }
        let e = encode(ver, &p, Form::default());
        match read_frame(ver, &e.bytes) {
            Ok(q) if q.to_pk() == want => cx.ev("lengths written and read"),
            r => return cx.fail(format!("length {}: {:?} {} read as {}", n, ver, hex(&e.bytes), show(&r))),
        }
        cx.seen_bytes(&e.bytes);
    }
}

/// A fourth continuation bit, in every kind of length field.
fn vbi_fourth(cx: &mut Cx) {
    let ver = any_ver(&mut cx.rng);
    for _ in 0..100 {
        let r = &mut cx.rng;
        let f: Vec<u8> = (0..4).map(|_| 0x80 | if r.p(1, 3) { *r.pick(&[0, 1, 127]) } else { r.next() as u8 }).collect();
        let mut b = vec![r.next() as u8];
        b.extend_from_slice(&f);
        let n = r.below(8);
        for _ in 0..n {
            b.push(if r.bool() { 0 } else { r.next() as u8 });
        }
        cx.seen_bytes(&b);
        let max = if cx.rng.bool() { MAX } else { usize::MAX };
        let c = check(&b, max);
        if c != Err(Error::MalformedRemainingLength) {
            return cx.fail(format!("length field with four continuation bits: check of {} is {:?}", hex(&b), c));
        }
        let mut s = BytesMut::from(&b[..]);
        match read(ver, &mut s, max) {
            Err(Error::MalformedRemainingLength) if s[..] == b[..] => cx.ev("overlong length fields refused"),
            o => return cx.fail(format!("length field with four continuation bits: {:?} read of {} is {}", ver, hex(&b), show(&o))),
        }
    }
    // property lengths and subscription identifiers
    let pk = mask_any(cx, true);
    let e = encode(Ver::V5, &pk, Form { ack: 2, ..Form::default() });
    let hl = header_len(&e);
    let todo: Vec<_> = e.spans.iter().filter(|s| s.0 == Sp::PropLen || (s.0 == Sp::Prop && e.bytes[s.1] == 0x0B)).copied().collect();
    for s in todo {
        let mut f: Vec<u8> = (0..4).map(|_| 0x80 | cx.rng.next() as u8).collect();
        if cx.rng.bool() {
            let z = s.2 - s.1;
            if s.0 == Sp::PropLen && z == 1 {
                // the same value, padded
                f = vec![e.bytes[s.1] | 0x80, 0x80, 0x80, 0x80];
            }
        }
        f.push(0);
        let (from, to) = if s.0 == Sp::PropLen { (s.1, s.2) } else { (s.1 + 1, s.2) };
        let mut b = splice(&e.bytes, from, to, &f);
        if s.0 == Sp::Prop {
            // correct the property length if it still is one byte
            let l = e.spans.iter().filter(|l| l.0 == Sp::PropLen && l.1 < s.1).last().unwrap();
            if l.2 - l.1 == 1 {
                let v = b[l.1] as usize + f.len() - (to - from);
                if v < 128 {
                    b[l.1] = v as u8;
                }
            }
        }
        let b = reframe(&b, hl);
        cx.seen_bytes(&b);
        match read_frame(Ver::V5, &b) {
            Err(_) => cx.ev("overlong inner integers refused"),
            Ok(p) => return cx.fail(format!("a fourth continuation bit accepted: {} read as {}", hex(&b), cut(&p.to_pk()))),
        }
    }
}

/// Larger values are refused on writing.
fn vbi_refused(cx: &mut Cx) {
    let r = &mut cx.rng;
    let n = match cx.idx {
        0 => MAX + 1,
        1 => usize::MAX,
        2 => u32::MAX as usize,
        3 => uint(1 << 32),
        4 => uint(1 << 35),
        5 => uint((1 << 35) - 1),
        6 => uint(1 << 63),
        7 => MAX + 2,
        _ => {
            let bits = r.range(29, usize::BITS as usize);
            (r.next() >> (64 - bits)) as usize | 1 << (bits - 1)
        }
    };
    let k = r.below(4);
    let mut ids: Vec<usize> = (0..k).map(|_| r.range(1, MAX)).collect();
    ids.insert(r.below(k + 1), n);
    let mut o = BytesMut::from(&b"queued"[..]);
    let mut p = v5::Publish::new("t", mqttbytes::QoS::AtMostOnce, vec![]);
    p.properties = Some(publish_props(&vec![]));
    p.properties.as_mut().unwrap().subscription_identifiers = ids;
    let mut s = v5::Subscribe::new("a", mqttbytes::QoS::AtLeastOnce);
    s.pkid = 3;
    s.properties = Some(v5::SubscribeProperties { id: Some(n), user_properties: vec![] });
    cx.seen(hash(&n.to_be_bytes()) ^ 3);
    for (what, w) in [("PUBLISH", tgt(|| p.write(&mut o))), ("SUBSCRIBE", tgt(|| s.write(&mut o)))] {
        if w.is_ok() {
            return cx.fail(format!("{} with subscription identifier {} written ({:?}): {}", what, n, w, hex(&o)));
        }
        cx.ev("larger values refused on writing");
    }
}

fn vbi_total(cx: &mut Cx) {
    // total length just at and over the maximum
    let d = cx.idx as usize;
    let ver = if d % 2 == 0 { Ver::V4 } else { Ver::V5 };
    let fixed = if ver == Ver::V4 { 3 } else { 4 };
    let over = d / 2; // 0: at the maximum
    let payload = Bytes::from(vec![0u8; MAX - fixed + over]);
    let mut o = BytesMut::new();
    let q = mqttbytes::QoS::AtMostOnce;
    let w = tgt(|| match ver {
        Ver::V4 => mqttbytes::v4::Publish::from_bytes("t", q, payload).write(&mut o),
        Ver::V5 => v5::Publish::from_bytes("t", q, payload).write(&mut o),
    });
    cx.seen(hash(&d.to_be_bytes()) ^ 4);
    if over == 0 {
        if w.is_err() || o[..5] != [0x30, 0xFF, 0xFF, 0xFF, 0x7F] || o.len() != MAX + 5 {
            return cx.fail(format!("the largest packet: {:?} {}", w, hex(&o)));
        }
        cx.ev("lengths written and read");
    } else {
        if w.is_ok() || !o.is_empty() {
            return cx.fail(format!("a packet of remaining length {} written: {:?} {}", MAX + over, w, hex(&o)));
        }
        cx.ev("larger values refused on writing");
    }
}

pub fn checks() -> Vec<Check> {
    let m = mask_total();
    vec![
        Check {
            id: "C01",
            rule: "Streams of valid, oddly spelt, mutated and truncated packets and noise with random limits; every value of every byte and every cut of small packets; all frames with up to two body bytes; every subset of properties, mutated; megabyte frames of many small parts. Each is checked and read to the end, results cloned, compared and formatted, in a build with and one without overflow checks. Distinct by bytes.",
            workloads: vec![
                wl("streams", 250_000, 20_000_000, tot_streams),
                wl("noise", 300_000, 30_000_000, tot_noise),
                wl("bytes", 600, 30_000, tot_bytes),
                wl("property subsets", m, 30 * m, tot_props),
                heavy("tiny frames", 256, 256, tot_tiny),
                heavy("big frames", 100, 3_000, tot_big),
                heavy("giants", 23, 230, tot_giants),
            ],
            require: vec![("packets read", 100_000), ("errors returned", 1_000_000)],
            assumptions: vec!["a call that uses 40 s of CPU time hangs", "64-bit usize"],
            exhaustive: "all frames with up to two body bytes",
        },
        Check {
            id: "C03",
            rule: "Streams of several frames of any quality, views into larger buffers, random limits; all cuts of small packets; frames of chosen lengths up to megabytes. After each read the buffer is compared with the reference framing; each frame is read again with other bytes behind it. Distinct by bytes.",
            workloads: vec![wl("streams", 200_000, 15_000_000, con_streams), wl("cuts", 10_000, 400_000, con_bytes), wl("sizes", 4_000, 200_000, con_sizes), heavy("giants", 27, 270, con_giants), heavy("in front of megabytes", 100, 3_000, con_tails)],
            require: vec![
                ("frames consumed with a packet", 10_000),
                ("frames consumed with an error", 10_000),
                ("suffixes compared", 10_000),
                ("malformed length left alone", 1_000),
                ("over the limit left alone", 1_000),
                ("incomplete frame left alone", 10_000),
                ("large frames", 1_000),
            ],
            assumptions: vec![],
            exhaustive: "",
        },
        Check {
            id: "C04",
            rule: "Prefixes of streams, headers of every length, all cuts of small packets both as incomplete frames and as complete malformed ones, length fields inside the packet left unfinished. check and read are compared with the reference framing. Distinct by bytes.",
            workloads: vec![
                wl("streams", 150_000, 10_000_000, need_streams),
                wl("headers", 150_000, 10_000_000, need_headers),
                wl("cuts", 15_000, 500_000, need_cuts),
                heavy("large parts", 300, 10_000, need_large),
                wl("inner lengths", m / 2, 10 * m, need_inner),
            ],
            require: vec![
                ("incomplete headers", 10_000),
                ("over the limit", 1_000),
                ("incomplete frames with the exact count", 10_000),
                ("complete frames accepted", 10_000),
                ("complete frames refused", 10_000),
                ("malformed lengths", 1_000),
            ],
            assumptions: vec![],
            exhaustive: "",
        },
        Check {
            id: "C05",
            rule: "Streams of several frames of any quality delivered whole, byte by byte, at random cuts, around frame boundaries, and as many bytes at a time as the reader asks for; every two- and most three-piece deliveries of short streams; connections of thousands of packets. Results are compared with those of the whole stream and again after the buffer was overwritten. Distinct by stream.",
            workloads: vec![
                wl("random cuts", 40_000, 3_000_000, del_random),
                wl("all cuts", 1_500, 60_000, del_all),
                wl("guided", 60_000, 4_000_000, del_guided),
                heavy("long", 60, 2_000, del_long),
                heavy("giants", 27, 270, del_giants),
            ],
            require: vec![("deliveries compared", 100_000), ("packets compared after the buffer was reused", 100_000), ("guided deliveries", 10_000), ("frames in streams", 100_000)],
            assumptions: vec!["a receiver gives up at a malformed length or a frame over the limit"],
            exhaustive: "every two-piece delivery of each short stream",
        },
        Check {
            id: "C06",
            rule: "Headers with random remaining lengths and limits around them, at every prefix; frames of any quality with limits around their length, complete and cut; all pairs of length and limit below 300. The allocator is observed during refusals. Distinct by bytes.",
            workloads: vec![
                wl("headers", 100_000, 8_000_000, lim_headers),
                wl("frames", 80_000, 6_000_000, lim_frames),
                wl("pairs", 600, 600, lim_pairs),
            ],
            require: vec![("refused for size", 100_000), ("within the limit", 100_000), ("exactly at the limit", 10_000), ("within the limit, incomplete", 10_000)],
            assumptions: vec![],
            exhaustive: "all pairs of remaining length and limit below 300",
        },
        Check {
            id: "C28",
            rule: "Frames of any quality read with check plus the packet's own reader and with the stream reader; property sections (valid, repeated, mutated) of every place with a public extractor, on their own and in the packet. Distinct by bytes.",
            workloads: vec![
                wl("frames", 300_000, 25_000_000, agr_random),
                wl("property subsets", m, 15 * m, agr_mask),
                wl("sections", 250_000, 20_000_000, agr_extract),
                heavy("giants", 27, 270, agr_giants),
            ],
            require: {
                let mut v = vec![
                    ("packets from both readers", 10_000),
                    ("errors from both readers", 10_000),
                    ("fixed headers compared", 100_000),
                    ("sections equal on their own and in the packet", 10_000),
                    ("sections refused on their own and in the packet", 10_000),
                ];
                for t in (1..=11).chain([14]) {
                    v.push((type_name(t), 100));
                }
                v
            },
            assumptions: vec!["frames with an empty body are not handed to the individual readers, as the stream reader does not"],
            exhaustive: "",
        },
        Check {
            id: "C29",
            rule: "Every remaining length from 0 to 268435455 read from its header; subscription identifiers in PUBLISH in blocks of 65536 (thorough: all) and in SUBSCRIBE; packets of every remaining and property length in dense ranges, written and read; overlong length fields; larger values on writing. Distinct by value or bytes.",
            workloads: vec![
                heavy8("remaining lengths", 4096, 4096, vbi_header),
                heavy8("subscription identifiers", 200, 4096, vbi_subids),
                wl("subscribe", 4_000, 200_000, vbi_subscribe),
                wl("dense lengths", 20_040, 20_400, vbi_dense),
                wl("fourth continuation bit", 20_000, 500_000, vbi_fourth),
                wl("larger values", 20_000, 500_000, vbi_refused),
                heavy1("total length", 6, 6, vbi_total),
            ],
            require: vec![
                ("remaining lengths read", 268435456),
                ("subscription identifiers written and read", 1_000_000),
                ("lengths written and read", 20_000),
                ("overlong length fields refused", 100_000),
                ("overlong inner integers refused", 1_000),
                ("larger values refused on writing", 10_000),
            ],
            assumptions: vec!["64-bit usize"],
            exhaustive: "all remaining lengths, read from their shortest encoding (thorough: all subscription identifiers too, both ways)",
        },
    ]
}

fn heavy8(name: &'static str, q: u64, t: u64, f: fn(&mut Cx)) -> Workload {
    Workload { name, quick: q, thorough: t, chunk: 1, threads: 0, native: false, f }
}
fn heavy1(name: &'static str, q: u64, t: u64, f: fn(&mut Cx)) -> Workload {
    Workload { name, quick: q, thorough: t, chunk: 1, threads: 1, native: false, f }
}
