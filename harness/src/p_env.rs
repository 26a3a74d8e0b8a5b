//! C02, C24, C25, C31: memory errors, memory use, determinism and silence, platforms.

use crate::alloc;
use crate::conv::*;
use crate::gen::*;
use crate::mon::*;
use crate::p_codec::{any_knob, mask_any, mask_at, size_case, EDGES, PLACES};
use crate::p_stream::{same_out, show};
use crate::refm::*;
use crate::rng::{hash, mix, Portable, Rng};
use crate::world;
use bytes::{Buf, Bytes, BytesMut};
use mqttbytes::{v4, Error, FixedHeader};
use std::cell::RefCell;
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Arc, Barrier};

fn miri() -> bool {
    cfg!(miri)
}

/// Under an interpreter only small inputs.
fn small(b: Vec<u8>) -> Option<Vec<u8>> {
    if miri() && b.len() > 400 {
        None
    } else {
        Some(b)
    }
}

/// Looks at every byte a packet holds; interpreted, formatting is slow and done for some.
fn look(p: &CPk) -> usize {
    let k = p.to_pk();
    let n = hash_pk(&k);
    if !miri() || n % 8 == 0 {
        p.debug().len()
    } else {
        n as usize & 0xFF
    }
}

fn hash_pk(p: &Pk) -> u64 {
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();
    p.hash(&mut h);
    h.finish()
}

fn packet(r: &mut Rng, ver: Ver, conf: bool) -> Pk {
    let mut g = Gen::new(r, conf).l4();
    if miri() {
        g = g.budget(60);
    }
    g.packet(ver)
}

fn a_frame(r: &mut Rng, ver: Ver) -> Vec<u8> {
    if miri() {
        let conf = r.bool();
        let mut pk = packet(r, ver, conf);
        shuffle_props(r, &mut pk);
        let e = encode(ver, &pk, form(r));
        if r.p(2, 3) {
            mutate(r, &e)
        } else {
            e.bytes
        }
    } else {
        any_frame(r, ver)
    }
}

// --- C02 ---------------------------------------------------------------------------------------------------------

/// The packet's own reader with a header that need not fit the bytes. It may panic (its caller broke the contract),
/// but must not touch memory it does not own.
fn raw_readers(cx: &mut Cx) {
    let ver = any_ver(&mut cx.rng);
    let r = &mut cx.rng;
    let b = a_frame(r, ver);
    let Some(b) = small(b) else { return };
    cx.seen_bytes(&b);
    for _ in 0..3 {
        let r = &mut cx.rng;
        let b1 = if r.bool() { b[0] } else { r.next() as u8 };
        let odd = |r: &mut Rng, n: usize| match r.below(8) {
            0 => 0,
            1 => 1,
            2 => n,
            3 => n + 1,
            4 => n.wrapping_sub(1),
            5 => usize::MAX,
            6 => MAX,
            _ => r.below(n + 4),
        };
        let (l1, l2) = (odd(r, 1), odd(r, b.len()));
        let Ok(h) = catch(|| FixedHeader::new(b1, l1, l2)) else { continue };
        let cut = r.below(b.len() + 1);
        let ty = r.range(1, 14) as u8;
        let f = Bytes::copy_from_slice(&b[r.below(cut + 1)..cut.max(1).min(b.len())]);
        let got = catch(|| read_direct(ver, h, ty, f).map(|x| x.map(|p| (look(&p), p.copy()))));
        match got {
            Ok(Some(Ok((_, p)))) => {
                let mut o = BytesMut::new();
                let _ = catch(|| p.write(&mut o));
                cx.ev("inconsistent headers: packets");
            }
            Ok(_) => cx.ev("inconsistent headers: errors"),
            Err(_) => cx.ev("inconsistent headers: caller error"),
        }
        let mut f = Bytes::copy_from_slice(&b[cut.min(b.len() - 1)..]);
        let (loc, ty) = *cx.rng.pick(&[(Loc::ConnAck, 2u8), (Loc::Ack, 4), (Loc::Ack, 5), (Loc::Ack, 6), (Loc::Ack, 7), (Loc::Subscribe, 8), (Loc::SubAck, 9), (Loc::UnsubAck, 11), (Loc::Disconnect, 14)]);
        let _ = catch(|| extract(loc, ty, &mut f));
        cx.ev("extractors on arbitrary bytes");
    }
}

/// Streams read, packets kept, cloned, written, dropped in any order while the buffer lives on.
fn lifetimes(cx: &mut Cx) {
    let ver = any_ver(&mut cx.rng);
    let mut s = BytesMut::with_capacity(cx.rng.below(200));
    let mut kept: Vec<(CPk, Pk)> = vec![];
    let mut out = BytesMut::new();
    let steps = if miri() { 6 } else { 30 };
    for _ in 0..steps {
        match cx.rng.below(9) {
            0..=2 => {
                let f = a_frame(&mut cx.rng, ver);
                if let Some(f) = small(f) {
                    let k = cx.rng.below(f.len() + 1);
                    s.extend_from_slice(&f[..k]);
                    cx.seen_bytes(&f);
                    s.extend_from_slice(&f[k..]);
                }
            }
            3 | 4 => {
                let before = s.len();
                match catch(|| read(ver, &mut s, MAX)) {
                    Ok(Ok(p)) => {
                        cx.ev("packets kept");
                        let snap = p.to_pk();
                        if cx.rng.bool() {
                            kept.push((p.copy(), snap.clone()));
                        }
                        kept.push((p, snap));
                    }
                    Ok(Err(e)) => {
                        cx.ev("errors");
                        let _ = format!("{:?} {}", e, e);
                        if s.len() == before && !matches!(e, Error::InsufficientBytes(_)) {
                            s.clear();
                        }
                    }
                    Err(_) => s.clear(),
                }
            }
            5 => {
                s.fill(0x33);
                s.clear();
            }
            6 if !kept.is_empty() => {
                let i = cx.rng.below(kept.len());
                kept.swap_remove(i);
            }
            7 if !kept.is_empty() => {
                let i = cx.rng.below(kept.len());
                let _ = catch(|| kept[i].0.write(&mut out));
                let _ = look(&kept[i].0);
                cx.ev("packets written");
                if cx.rng.bool() {
                    let b = out.split().freeze();
                    drop(b);
                }
            }
            _ => {
                // the buffer moves elsewhere
                let t = s.split();
                s = BytesMut::from(&t[..]);
            }
        }
    }
    for (p, snap) in &kept {
        if p.to_pk() != *snap {
            return cx.fail(format!("a packet changed while it was kept: {} became {}", cut(snap), cut(&p.to_pk())));
        }
        cx.ev("kept packets compared");
    }
}

/// Packets shared by threads.
fn threads(cx: &mut Cx) {
    let nt = if miri() { 3 } else { 4 };
    let ver = any_ver(&mut cx.rng);
    let mut frames = vec![];
    for _ in 0..nt + 2 {
        let f = a_frame(&mut cx.rng, ver);
        if let Some(f) = small(f) {
            cx.seen_bytes(&f);
            frames.push(f);
        }
    }
    let stream: Vec<u8> = frames.concat();
    let mut s = BytesMut::from(&stream[..]);
    let mut shared = vec![];
    for _ in 0..frames.len() {
        if let Ok(p) = read(ver, &mut s, MAX) {
            shared.push((p.to_pk(), p));
        }
    }
    cx.evn("packets shared by threads", shared.len() as u64);
    let shared = Arc::new(shared);
    let barrier = Arc::new(Barrier::new(nt));
    let mut bad = vec![];
    std::thread::scope(|sc| {
        let mut hs = vec![];
        for t in 0..nt {
            let (shared, barrier, frames) = (shared.clone(), barrier.clone(), &frames);
            hs.push(sc.spawn(move || {
                let mut bad = None;
                barrier.wait();
                // every thread also reads streams of its own
                for k in 0..frames.len() {
                    let f = &frames[(k + t) % frames.len()];
                    let a = read_frame(ver, f);
                    let b = read_frame(ver, f);
                    if !same_out(&a, &b) {
                        bad = Some(format!("read twice: {} and {}", show(&a), show(&b)));
                    }
                }
                let mut mine: Vec<CPk> = vec![];
                for (pk, p) in shared.iter() {
                    let q = p.copy();
                    if !q.same(p) || q.to_pk() != *pk {
                        bad = Some(format!("a shared packet changed: {} is {}", cut(pk), cut(&q.to_pk())));
                    }
                    let mut o = BytesMut::new();
                    let _ = p.write(&mut o);
                    let _ = look(p);
                    mine.push(q);
                }
                let m = mqttbytes::matches("a/b/c", "a/+/#") && mqttbytes::valid_filter("a/+/#") && !mqttbytes::has_wildcards("a");
                if !m {
                    bad = Some("matching failed".into());
                }
                drop(shared);
                drop(mine);
                bad
            }));
        }
        // the owner lets go while they run
        drop(s);
        drop(shared);
        for h in hs {
            match h.join() {
                Ok(Some(b)) => bad.push(b),
                Ok(None) => {}
                // C01's to judge
                Err(_) => {}
            }
        }
    });
    cx.evn("threads run", nt as u64);
    if let Some(b) = bad.pop() {
        cx.fail(b);
    }
}

/// Packets written into buffers of every kind.
fn writes(cx: &mut Cx) {
    let ver = any_ver(&mut cx.rng);
    let pk = if ver == Ver::V5 && cx.rng.bool() { mask_any(cx, false) } else { packet(&mut cx.rng, ver, false) };
    let v = CPk::of(ver, &pk, Knob::default());
    let r = &mut cx.rng;
    let mut o = BytesMut::with_capacity(r.below(100));
    o.extend_from_slice(&[1, 2, 3][..r.below(4)]);
    if r.bool() {
        let k = r.below(o.len() + 1);
        o.advance(k);
    }
    let at = o.len();
    let w = v.write(&mut o);
    cx.seen_bytes(&o);
    if w.is_ok() {
        let mut rest = o.split_off(at);
        drop(o);
        if let Ok(p) = read(ver, &mut rest, MAX) {
            drop(rest);
            let _ = look(&p);
            cx.ev("packets written and read");
        }
    }
    let _ = v.public_len();
    let _ = v.public_props_len();
}

/// Every packet type and property place in turn: written, read, kept, changed by a byte, read again.
fn each_type(cx: &mut Cx) {
    let k = (cx.idx + cx.seed) as usize % (14 * 2 + PLACES.len());
    let (ver, pk) = if k < 28 {
        let ver = if k < 14 { Ver::V4 } else { Ver::V5 };
        (ver, Gen::new(&mut cx.rng, true).budget(40).packet_of(ver, k as u8 % 14 + 1))
    } else {
        let (loc, ty) = PLACES[k - 28];
        (Ver::V5, mask_at(cx, true, loc, ty, (1 << allowed(loc).len()) - 1))
    };
    let v = CPk::of(ver, &pk, Knob::default());
    let mut o = BytesMut::with_capacity(cx.rng.below(40));
    if v.write(&mut o).is_err() {
        return;
    }
    let mut b = o.to_vec();
    cx.seen_bytes(&b);
    let kept = read(ver, &mut o, MAX);
    let keep = cx.rng.bool();
    if keep {
        drop(o);
    }
    for i in 0..3 {
        if i > 0 {
            let at = cx.rng.below(b.len());
            b[at] = *cx.rng.pick(&[0, 1, 0x7f, 0x80, 0xff, b[at] ^ 1, b[at].wrapping_add(1)]);
        }
        let n = if i == 2 { cx.rng.below(b.len() + 1) } else { b.len() };
        let mut s = BytesMut::from(&b[..n]);
        let r = catch(|| read(ver, &mut s, MAX));
        drop(s);
        if let Ok(Ok(p)) = r {
            let q = p.copy();
            drop(p);
            cx.evn("bytes of packets kept", look(&q) as u64);
        }
        let h = header_of(&b[..n]);
        if let Some((h, len)) = h {
            let f = Bytes::copy_from_slice(&b[..len]);
            let _ = catch(|| read_direct(ver, h, b[0] >> 4, f).map(|x| x.map(|p| look(&p))));
        }
    }
    if let Ok(p) = kept {
        let mut o = BytesMut::new();
        let _ = p.write(&mut o);
        cx.ev("packet types in turn");
    }
}

/// The header and length of a complete frame.
fn header_of(b: &[u8]) -> Option<(FixedHeader, usize)> {
    match framing(b) {
        Fr::Known(h, n) if h + n <= b.len() => Some((FixedHeader::new(b[0], h - 1, n), h + n)),
        _ => None,
    }
}

fn texts(cx: &mut Cx) {
    let mut g = Gen::new(&mut cx.rng, false);
    if miri() {
        g = g.budget(60);
    }
    let (t, f) = (g.topic(), g.filter());
    cx.seen_bytes(f.as_bytes());
    let _ = tgt(|| (mqttbytes::matches(&t, &f), mqttbytes::valid_filter(&f), mqttbytes::valid_topic(&t), mqttbytes::has_wildcards(&f)));
    let _ = tgt(|| v4::Login::new(t.as_str(), f.as_str()).validate(&t, &f));
    cx.ev("texts");
}

// --- C24 ---------------------------------------------------------------------------------------------------------

/// Bytes of memory a read may take per byte of the frame. The most the crate needs is a v5 filter of three bytes in a
/// doubling vector, or a user property of five: below 40 at peak and 60 in total.
const PER_BYTE: i64 = 128;
const FIXED: i64 = 4096;

fn bounded(cx: &mut Cx, ver: Ver, b: &[u8], max: usize) {
    cx.seen_bytes(b);
    let fr = framing(b);
    let (size, nothing) = match fr {
        Fr::Known(h, n) if n > max => (h, true),
        Fr::Known(h, n) if h + n <= b.len() => (h + n, false),
        _ => (b.len(), true),
    };
    // The stream is made outside of the measurement; what belongs to it is not the reader's
    let mut s = BytesMut::from(b);
    let (r, u) = alloc::measure(|| read(ver, &mut s, max));
    if nothing {
        cx.ev("incomplete or refused for size or length");
        if u.count != 0 {
            let what = show(&r);
            return cx.fail(format!("reading an incomplete frame or one over the limit ({}) allocated {} bytes: {:?} limit {} {}", what, u.total, ver, max, hex(b)));
        }
    } else {
        cx.ev(if r.is_ok() { "packets read within bounds" } else { "malformed frames within bounds" });
        let bound = PER_BYTE * size as i64 + FIXED;
        if u.peak > bound || u.total > 2 * bound as u64 {
            return cx.fail(format!(
                "a frame of {} bytes took {} bytes of memory at peak and {} in total: {:?} {}",
                size, u.peak, u.total, ver, hex(b)
            ));
        }
    }
    // what stays behind the frame is no reason to take more
    if cx.wl == "behind" && !nothing {
        let n = b.len() + cx.rng.range(1 << 16, 4 << 20);
        let mut s = BytesMut::with_capacity(n);
        s.extend_from_slice(b);
        s.resize(n, 0);
        let (_r, v) = alloc::measure(|| read(ver, &mut s, max));
        if v.total > u.total + FIXED as u64 || v.peak > u.peak + FIXED {
            return cx.fail(format!("with {} bytes behind it the frame took {} bytes, alone {}: {:?} {}", n - b.len(), v.total, u.total, ver, hex(b)));
        }
        cx.ev("with megabytes behind");
    }
    drop(r);
    drop(s);
    // once more, everything from birth to death
    let (_, u) = alloc::measure(|| {
        let mut s = BytesMut::from(b);
        let r = read(ver, &mut s, max);
        if let Ok(p) = &r {
            let q = p.copy();
            drop(q);
        }
        drop(s);
        drop(r);
    });
    if u.live != 0 {
        return cx.fail(format!("{} bytes are left over after reading and dropping everything: {:?} {}", u.live, ver, hex(b)));
    }
    let (_, c) = alloc::measure(|| tgt(|| mqttbytes::check(b.iter(), max).is_ok()));
    if c.live != 0 || c.peak > PER_BYTE * b.len() as i64 + FIXED || nothing && c.count != 0 {
        return cx.fail(format!("check allocated {:?}: {}", c, hex(b)));
    }
    cx.ev("everything released");
}

fn mem_random(cx: &mut Cx) {
    let ver = any_ver(&mut cx.rng);
    let b = any_frame(&mut cx.rng, ver);
    let n = match cx.rng.below(4) {
        0 => cx.rng.below(b.len() + 1),
        _ => b.len(),
    };
    let max = if cx.rng.p(1, 5) { cx.rng.below(b.len() + 2) } else { MAX };
    bounded(cx, ver, &b[..n], max)
}

fn mem_behind(cx: &mut Cx) {
    let ver = any_ver(&mut cx.rng);
    let b = any_frame(&mut cx.rng, ver);
    bounded(cx, ver, &b, MAX)
}

/// Lengths the frame does not have.
fn mem_declared(cx: &mut Cx) {
    let ver = any_ver(&mut cx.rng);
    let pk = if ver == Ver::V5 && cx.rng.bool() {
        mask_any(cx, false)
    } else {
        Gen::new(&mut cx.rng, false).l4().budget(100).packet(ver)
    };
    let e = encode(ver, &pk, Form { ack: 2, ..Form::default() });
    let hl = header_len(&e);
    let spans: Vec<_> = e.spans.iter().filter(|s| matches!(s.0, Sp::LenPre | Sp::PropLen) || (s.0 == Sp::Prop && s.2 - s.1 > 2)).copied().collect();
    for s in &spans {
        let mut b = e.bytes.clone();
        match s.0 {
            Sp::PropLen => {
                let mut f = vec![];
                let n = *cx.rng.pick(&[MAX, 2_097_152, 16_384, 1_000_000, b.len(), b.len() * 100]);
                varint(n, &mut f);
                b = reframe(&splice(&b, s.1, s.2, &f), hl);
            }
            Sp::Prop => {
                // the length of a text or binary property
                let n = *cx.rng.pick(&[65535u16, 32768, 60000]);
                b[s.1 + 1..s.1 + 3].copy_from_slice(&n.to_be_bytes());
            }
            _ => {
                let n = *cx.rng.pick(&[65535u16, 32768, 60000]);
                b[s.1..s.1 + 2].copy_from_slice(&n.to_be_bytes());
            }
        }
        cx.ev("lengths declared but not there");
        bounded(cx, ver, &b, MAX);
    }
    // and the remaining length itself
    let mut b = vec![e.bytes[0]];
    varint(*cx.rng.pick(&[MAX, MAX - 1, 1_000_000, 2_097_152, 16_384]), &mut b);
    b.extend_from_slice(&e.bytes[hl..]);
    bounded(cx, ver, &b, MAX)
}

/// Many small parts in one frame: the worst factor there is.
fn mem_parts(cx: &mut Cx) {
    let ver = any_ver(&mut cx.rng);
    let r = &mut cx.rng;
    let n = match r.below(4) {
        0 => r.range(50_000, 1_000_000),
        1 => r.range(5_000, 50_000),
        _ => r.range(10, 5_000),
    };
    let ty = *r.pick(&[1u8, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 14]);
    let mut body: Vec<u8> = vec![];
    let props = ver == Ver::V5 && r.p(2, 3);
    match ty {
        1 => body.extend_from_slice(&[0, 4, b'M', b'Q', b'T', b'T', if props { 5 } else { 4 }, 0, 0, 0]),
        2 => body.extend_from_slice(&[0, 0]),
        3 => body.extend_from_slice(&[0, 1, b't']),
        4..=7 => body.extend_from_slice(&[0, 1, 0]),
        14 => body.push(0),
        _ => body.extend_from_slice(&[0, 1]),
    }
    if props {
        let units: &[&[u8]] = match ty {
            3 => &[&[0x26, 0, 0, 0, 0], &[0x0B, 1], &[0x26, 0, 1, b'k', 0, 1, b'v'], &[0x0B, 0xFF, 1]],
            _ => &[&[0x26, 0, 0, 0, 0], &[0x26, 0, 1, b'k', 0, 1, b'v']],
        };
        let u = *r.pick(units);
        let k = n / u.len();
        varint(k * u.len(), &mut body);
        for _ in 0..k {
            body.extend_from_slice(u);
        }
        match ty {
            1 => body.extend_from_slice(&[0, 0]),
            8 => body.extend_from_slice(&[0, 1, b'f', 0]),
            9 | 11 => body.push(0),
            10 => body.extend_from_slice(&[0, 1, b'f']),
            _ => {}
        }
        cx.ev("frames of many properties");
    } else {
        if ver == Ver::V5 {
            body.push(0);
        }
        let u: &[u8] = match ty {
            8 => r.pick(&[&[0, 0, 0][..], &[0, 1, b'a', 1]]),
            10 => r.pick(&[&[0, 0][..], &[0, 1, b'a']]),
            _ => &[0],
        };
        while body.len() < n {
            body.extend_from_slice(u);
        }
        cx.ev("frames of many list elements");
    }
    let b1 = ty << 4 | if matches!(ty, 6 | 8 | 10) { 2 } else { 0 };
    let b = frame(b1, &body);
    bounded(cx, ver, &b, MAX)
}

/// A connection: memory does not grow with its age.
fn mem_connection(cx: &mut Cx) {
    let ver = any_ver(&mut cx.rng);
    let n = cx.rng.range(200, 1500);
    let mut frames: Vec<Vec<u8>> = vec![];
    let mut size = 0;
    while frames.len() < n && size < 400_000 {
        let f = any_frame(&mut cx.rng, ver);
        if f.len() < 3000 && matches!(framing(&f), Fr::Known(h, l) if h + l == f.len()) {
            size += f.len();
            frames.push(f);
        }
    }
    let mut read_n = 0u64;
    let (_, u) = alloc::measure(|| {
        let mut s = BytesMut::with_capacity(4096);
        let mut o = BytesMut::with_capacity(4096);
        for f in &frames {
            s.extend_from_slice(f);
            if let Ok(p) = read(ver, &mut s, MAX) {
                read_n += 1;
                let _ = p.write(&mut o);
                if o.len() > 8192 {
                    o.clear();
                }
            }
        }
    });
    cx.evn("packets of long connections", read_n);
    cx.seen(hash(format!("{}{}", size, read_n).as_bytes()));
    if u.live != 0 {
        return cx.fail(format!("{} bytes left over after a connection of {} frames", u.live, frames.len()));
    }
    if u.peak > 3_000_000 {
        return cx.fail(format!("a connection of {} small frames ({} bytes) took {} bytes of memory", frames.len(), size, u.peak));
    }
}

fn mem_write(cx: &mut Cx) {
    let ver = any_ver(&mut cx.rng);
    let mut pk = match cx.rng.below(4) {
        0 if ver == Ver::V5 => mask_any(cx, false),
        1 => match size_case(cx, ver, false, EDGES) {
            Some(p) => p,
            None => return,
        },
        _ => Gen::new(&mut cx.rng, false).l4().packet(ver),
    };
    // a packet's size: that of its encoding, a text too long for it included
    let mut size = encode(ver, &pk, Form { ack: 2, ..Form::default() }).bytes.len();
    if cx.rng.p(1, 10) {
        // one that cannot be written
        if let Pk::Publish { qos, pkid, .. } = &mut pk {
            *qos = 1;
            *pkid = 0;
        }
        if let Pk::Connect(c) = &mut pk {
            c.client_id = "x".repeat(70_000);
            size += 70_000;
        }
    }
    let v = CPk::of(ver, &pk, Knob::default());
    let (ok, u) = alloc::measure(|| {
        let mut o = BytesMut::new();
        let w = v.write(&mut o);
        w.is_ok()
    });
    cx.ev(if ok { "packets written within bounds" } else { "refused writes within bounds" });
    cx.seen(hash(format!("{:?}", pk).as_bytes()));
    let bound = 16 * size as i64 + FIXED;
    if u.peak > bound || u.total > 2 * bound as u64 {
        return cx.fail(format!("writing a packet of {} bytes took {} bytes of memory at peak and {} in total: {:?} {}", size, u.peak, u.total, ver, cut(&pk)));
    }
    if u.live != 0 {
        return cx.fail(format!("{} bytes left over after writing {:?} {}", u.live, ver, cut(&pk)));
    }
    let (_, u) = alloc::measure(|| (v.public_len(), v.public_props_len()));
    if u.live != 0 || u.peak > bound {
        return cx.fail(format!("len() allocated {:?}", u));
    }
}

// --- C25 ---------------------------------------------------------------------------------------------------------

/// A call with everything it depends on.
#[derive(Clone)]
enum Call {
    Check(Vec<u8>, usize),
    Read(Ver, Vec<u8>, usize),
    Direct(Ver, Vec<u8>),
    Extract(Loc, u8, Vec<u8>),
    Write(Ver, Pk, Knob),
    Topic(String, String),
    Login(String, String, String, String),
}

/// Its outcome in comparable form.
#[derive(PartialEq, Clone, Debug)]
enum Outcome {
    Check(Result<FixedHeader, Error>),
    Read(Result<(Pk, String), Error>, usize),
    Sect(Option<Result<Props, Error>>, usize),
    Write(Result<usize, Error>, Vec<u8>, Option<usize>, Option<usize>),
    Topic(bool, bool, bool, bool),
    Login(bool),
    Panic,
}

impl Call {
    fn random(cx: &mut Cx) -> Call {
        let ver = any_ver(&mut cx.rng);
        match cx.rng.below(12) {
            0 | 1 => {
                let b = any_frame(&mut cx.rng, ver);
                let n = cx.rng.below(b.len() + 1);
                Call::Check(b[..n].to_vec(), if cx.rng.bool() { MAX } else { cx.rng.below(b.len() + 1) })
            }
            2..=5 => {
                let mut b = any_frame(&mut cx.rng, ver);
                if cx.rng.p(1, 6) {
                    let n = cx.rng.below(b.len() + 1);
                    b.truncate(n);
                }
                let n = b.len();
                Call::Read(ver, b, if cx.rng.p(5, 6) { MAX } else { cx.rng.below(n + 1) })
            }
            6 => Call::Direct(ver, any_frame(&mut cx.rng, ver)),
            7 => {
                let (loc, ty) = *cx.rng.pick(&[(Loc::ConnAck, 2u8), (Loc::Ack, 4), (Loc::Ack, 5), (Loc::Ack, 6), (Loc::Ack, 7), (Loc::Subscribe, 8), (Loc::SubAck, 9), (Loc::UnsubAck, 11), (Loc::Disconnect, 14)]);
                let p = Gen::new(&mut cx.rng, false).props(loc);
                let mut b = encode_props(&p);
                if cx.rng.p(1, 4) && !b.is_empty() {
                    let i = cx.rng.below(b.len());
                    b[i] = cx.rng.next() as u8;
                }
                Call::Extract(loc, ty, b)
            }
            8 | 9 => {
                let pk = if ver == Ver::V5 && cx.rng.bool() { mask_any(cx, false) } else { Gen::new(&mut cx.rng, false).l4().packet(ver) };
                Call::Write(ver, pk, any_knob(&mut cx.rng))
            }
            10 => {
                let mut g = Gen::new(&mut cx.rng, false);
                let f = g.filter();
                let t = if g.r.bool() { f.clone() } else { g.topic() };
                Call::Topic(t, f)
            }
            _ => {
                let mut g = Gen::new(&mut cx.rng, false).budget(100);
                let (a, b) = (g.text(), g.text());
                let c = if g.r.bool() { a.clone() } else { g.text() };
                Call::Login(a, b.clone(), c, b)
            }
        }
    }

    fn run(&self) -> Outcome {
        self.run_at(0, 0)
    }

    /// The same with the bytes elsewhere in memory: behind `off` others, with `spare` capacity.
    fn run_at(&self, off: usize, spare: usize) -> Outcome {
        self.run_how(off, spare, true)
    }

    fn run_how(&self, off: usize, spare: usize, debug: bool) -> Outcome {
        let place = |b: &[u8]| {
            let mut s = BytesMut::with_capacity(off + b.len() + spare);
            s.extend_from_slice(&vec![0xEE; off]);
            s.extend_from_slice(b);
            s.split_off(off)
        };
        let back = |r: Result<CPk, Error>| r.map(|p| (p.to_pk(), if debug { p.debug() } else { String::new() }));
        catch(|| match self {
            Call::Check(b, max) => Outcome::Check(check(&place(b), *max)),
            Call::Read(ver, b, max) => {
                let mut s = place(b);
                let r = read(*ver, &mut s, *max);
                Outcome::Read(back(r), s.len())
            }
            Call::Direct(ver, b) => match check(b, MAX) {
                Ok(h) => {
                    let f = place(&b[..h.frame_length().min(b.len())]).freeze();
                    let r = read_direct(*ver, h, b[0] >> 4, f).unwrap_or(Err(Error::PayloadRequired));
                    Outcome::Read(back(r), 0)
                }
                Err(e) => Outcome::Read(Err(e), 1),
            },
            Call::Extract(loc, ty, b) => {
                let mut b = place(b).freeze();
                let r = extract(*loc, *ty, &mut b);
                Outcome::Sect(r, b.len())
            }
            Call::Write(ver, pk, k) => {
                let v = CPk::of(*ver, pk, *k);
                let mut o = place(&[]);
                let w = v.write(&mut o);
                Outcome::Write(w, o.to_vec(), v.public_len(), v.public_props_len())
            }
            Call::Topic(t, f) => in_place(t, f, |t, f| tgt(|| Outcome::Topic(mqttbytes::matches(t, f), mqttbytes::valid_filter(f), mqttbytes::valid_topic(t), mqttbytes::has_wildcards(f)))),
            Call::Login(a, b, c, d) => in_place(c, d, |c, d| tgt(|| Outcome::Login(v4::Login::new(a.as_str(), b.as_str()).validate(c, d)))),
        })
        .unwrap_or(Outcome::Panic)
    }

    fn name(&self) -> &'static str {
        match self {
            Call::Check(..) => "checks repeated",
            Call::Read(..) => "reads repeated",
            Call::Direct(..) => "packet reads repeated",
            Call::Extract(..) => "extractions repeated",
            Call::Write(..) => "writes repeated",
            Call::Topic(..) => "matches repeated",
            Call::Login(..) => "validations repeated",
        }
    }

    fn show(&self) -> String {
        match self {
            Call::Check(b, m) => format!("check of {} limit {}", hex(b), m),
            Call::Read(v, b, m) => format!("{:?} read of {} limit {}", v, hex(b), m),
            Call::Direct(v, b) => format!("{:?} packet read of {}", v, hex(b)),
            Call::Extract(l, t, b) => format!("extract {:?} {} of {}", l, t, hex(b)),
            Call::Write(v, p, k) => format!("{:?} write of {} {:?}", v, cut(p), k),
            Call::Topic(t, f) => format!("matches({:?}, {:?})", cut(t), cut(f)),
            Call::Login(a, b, c, d) => format!("validate {:?}", cut(&(a, b, c, d))),
        }
    }
}

/// The two texts where all others were before them: an address says nothing about a text.
fn in_place<R>(a: &str, b: &str, f: impl FnOnce(&String, &String) -> R) -> R {
    thread_local!(static AT: RefCell<(String, String)> = RefCell::new((String::with_capacity(1 << 17), String::with_capacity(1 << 17))));
    AT.with(|at| {
        let at = &mut *at.borrow_mut();
        at.0.clear();
        at.1.clear();
        at.0.push_str(a);
        at.1.push_str(b);
        f(&at.0, &at.1)
    })
}

/// The same with another character somewhere, as long as before.
fn retouch(r: &mut Rng, s: &str) -> String {
    let b: Vec<usize> = s.char_indices().filter(|c| c.1.is_ascii()).map(|c| c.0).collect();
    let mut s = s.to_string();
    if !b.is_empty() {
        let i = *r.pick(&b);
        s.replace_range(i..i + 1, *r.pick(&["/", "+", "#", "a", "b", "$", "A"]));
    }
    s
}

fn differ(cx: &mut Cx, c: &Call, a: &Outcome, b: &Outcome, when: &str) -> bool {
    cx.ev(c.name());
    if a == b {
        return false;
    }
    cx.fail(format!("{}: first {} and {} {}", c.show(), cut(a), when, cut(b)));
    true
}

thread_local! {
    /// Calls made early in this thread, repeated ever since
    static OLD: RefCell<Vec<(Call, Outcome)>> = const { RefCell::new(Vec::new()) };
}

fn det_order(cx: &mut Cx) {
    let n = cx.rng.range(4, 16);
    let calls: Vec<Call> = (0..n).map(|_| Call::random(cx)).collect();
    let first: Vec<Outcome> = calls.iter().map(|c| c.run()).collect();
    cx.seen(hash(format!("{:?}", first).as_bytes()));
    cx.sample(|| format!("{} -> {}", calls[0].show(), cut(&first[0])));
    for (c, o) in calls.iter().zip(&first) {
        if differ(cx, c, o, &c.run(), "in a second pass") {
            return;
        }
    }
    for _ in 0..2 {
        let mut order: Vec<usize> = (0..n).collect();
        cx.rng.shuffle(&mut order);
        for i in order {
            if differ(cx, &calls[i], &first[i], &calls[i].run(), "in another order") {
                return;
            }
        }
    }
    // calls of long ago; results of earlier cases
    let mut old = OLD.with(|o| std::mem::take(&mut *o.borrow_mut()));
    for _ in 0..4 {
        if !old.is_empty() {
            let i = cx.rng.below(old.len());
            if differ(cx, &old[i].0, &old[i].1, &old[i].0.run(), "much later") {
                return;
            }
            cx.ev("calls repeated much later");
        }
    }
    if old.len() < 400 {
        old.extend(calls.into_iter().zip(first));
    }
    OLD.with(|o| *o.borrow_mut() = old);
}

fn det_threads(cx: &mut Cx) {
    let n = 40;
    let calls: Vec<Call> = (0..n).map(|_| Call::random(cx)).collect();
    let first: Vec<Outcome> = calls.iter().map(|c| c.run()).collect();
    cx.seen(hash(format!("{:?}", first).as_bytes()));
    let nt = 4;
    let barrier = Barrier::new(nt);
    let seeds: Vec<u64> = (0..nt).map(|_| cx.rng.next()).collect();
    let mut bad = vec![];
    std::thread::scope(|sc| {
        let hs: Vec<_> = seeds
            .iter()
            .map(|s| {
                let (calls, first, barrier) = (&calls, &first, &barrier);
                sc.spawn(move || {
                    let mut r = Rng::new(*s);
                    let mut order: Vec<usize> = (0..n).collect();
                    barrier.wait();
                    let mut bad = None;
                    for _ in 0..3 {
                        r.shuffle(&mut order);
                        for i in &order {
                            let o = calls[*i].run();
                            if o != first[*i] {
                                bad = Some((*i, o));
                            }
                        }
                    }
                    bad
                })
            })
            .collect();
        for h in hs {
            bad.extend(h.join().unwrap());
        }
    });
    cx.evn("calls repeated on other threads", (3 * nt * n) as u64);
    if let Some((i, o)) = bad.pop() {
        cx.fail(format!("{}: first {} and on another thread {}", calls[i].show(), cut(&first[i]), cut(&o)));
    }
}

/// The same few calls hundreds of thousands of times: counters and caches would show.
fn det_many(cx: &mut Cx) {
    // one call of each kind with a packet type that depends on the case
    let ty = (cx.idx % 14 + 1) as u8;
    let ver = if cx.idx / 14 % 2 == 0 { Ver::V4 } else { Ver::V5 };
    let mut g = Gen::new(&mut cx.rng, true).budget(20);
    let pk = g.packet_of(ver, ty);
    let bytes = encode(ver, &pk, Form::default()).bytes;
    let f = g.filter();
    let calls = [
        Call::Write(ver, pk.clone(), Knob::default()),
        Call::Read(ver, bytes.clone(), MAX),
        Call::Read(ver, bytes[..bytes.len() - 1].to_vec(), MAX),
        Call::Check(bytes, MAX),
        Call::Topic(f.clone(), f),
    ];
    let v = CPk::of(ver, &pk, Knob::default());
    let Call::Read(_, bytes, _) = &calls[1] else { unreachable!() };
    let first: Vec<Outcome> = calls.iter().map(|c| c.run()).collect();
    let rounds = if cx.thorough() { 3_000_000 } else { 150_000 };
    let mut o = BytesMut::with_capacity(bytes.len() + 10);
    let mut s = BytesMut::with_capacity(bytes.len() + 10);
    let Outcome::Write(w0, out0, ..) = &first[0] else { unreachable!() };
    let Outcome::Read(r0, _) = &first[1] else { unreachable!() };
    for i in 0..rounds {
        o.clear();
        let w = v.write(&mut o);
        if w != *w0 || o[..] != out0[..] {
            return cx.fail(format!("{}: first {}, the {}th time {:?} {}", calls[0].show(), cut(&first[0]), i, w, hex(&o)));
        }
        s.clear();
        s.extend_from_slice(bytes);
        let r = read(ver, &mut s, MAX);
        let same = match (&r, r0) {
            (Ok(p), Ok((q, _))) => i % 64 != 0 || p.to_pk() == *q,
            (Err(a), Err(b)) => a == b,
            _ => false,
        };
        if !same || !s.is_empty() {
            return cx.fail(format!("{}: first {}, the {}th time {}", calls[1].show(), cut(&first[1]), i, show(&r)));
        }
    }
    cx.evn("calls repeated in long runs", 2 * rounds as u64);
    for (c, o) in calls.iter().zip(&first) {
        if differ(cx, c, o, &c.run(), "after a long run") {
            return;
        }
    }
    cx.seen(mix(cx.idx));
}

/// A call that gives `what`: refused in some way, or not.
fn call_with(cx: &mut Cx, what: usize) -> Call {
    let ver = any_ver(&mut cx.rng);
    match what {
        0 => Call::Read(ver, vec![*cx.rng.pick(&[0u8, 15, 0xF0, 5]), 0], MAX),
        1 => Call::Read(ver, vec![0x30, 0xFF, 0xFF, 0xFF, 0xFF, 1], MAX),
        2 => Call::Check(vec![0x30, 0x80, 0x80, 0x80, 0x80, 1], MAX),
        3 => Call::Read(ver, vec![0x30, 20, 0, 1], MAX),
        4 => Call::Read(ver, vec![0x30, 20, 0, 1], 10),
        5 => Call::Read(ver, vec![0xC0, 0], MAX),
        6 => Call::Login("a".into(), "b".into(), "a".into(), "c".into()),
        7 => Call::Topic("a".into(), "b#".into()),
        _ => {
            // any refusal of a call
            for _ in 0..40 {
                let c = Call::random(cx);
                let refused = match c.run() {
                    Outcome::Check(r) => r.is_err(),
                    Outcome::Read(r, _) => r.is_err(),
                    Outcome::Sect(r, _) => matches!(r, Some(Err(_))),
                    Outcome::Write(r, ..) => r.is_err(),
                    _ => false,
                };
                if refused != (what == 8) {
                    return c;
                }
            }
            Call::random(cx)
        }
    }
}

/// Thousands of calls of one kind in a row, or of two in turn, and then others, which must give what they always did.
fn det_rows(cx: &mut Cx) {
    let rows = [call_with(cx, (cx.idx % 14) as usize), Call::random(cx)];
    let two = cx.rng.p(1, 4);
    let n = match cx.rng.below(8) {
        0 => 70_000,
        1 | 2 => 5_000,
        _ => cx.rng.range(1, 1_500),
    };
    let others: Vec<Call> = (0..6).map(|_| Call::random(cx)).collect();
    let first: Vec<Outcome> = others.iter().map(|c| c.run()).collect();
    let r0: Vec<Outcome> = rows.iter().map(|c| c.run_how(0, 0, false)).collect();
    let start = std::time::Instant::now();
    let mut done = 0u64;
    while done < n as u64 && (start.elapsed().as_millis() < 100 || done < 1_000) {
        let k = (two && done % 2 == 1) as usize;
        let o = rows[k].run_how(0, 0, false);
        if o != r0[k] {
            return cx.fail(format!("{}: first {} and in row of {} {}", rows[k].show(), cut(&r0[k]), done, cut(&o)));
        }
        done += 1;
    }
    cx.evn("calls in rows", done);
    for (c, o) in others.iter().zip(&first) {
        if differ(cx, c, o, &c.run(), &format!("after {} times: {} (and {})", done, rows[0].show(), if two { rows[1].show() } else { String::new() })) {
            return;
        }
    }
    cx.seen(hash(format!("{:?}{:?}", r0, first).as_bytes()));
    cx.ev("rows");
}

/// Pairs of calls in both orders: does the first leave something behind for the second?
fn det_pairs(cx: &mut Cx) {
    let a = Call::random(cx);
    // related inputs: the same bytes cut, doubled, in the other version
    let b = match (&a, cx.rng.below(3)) {
        (Call::Read(v, b, m), 0) => Call::Read(if *v == Ver::V4 { Ver::V5 } else { Ver::V4 }, b.clone(), *m),
        (Call::Read(v, b, m), 1) => Call::Read(*v, b[..cx.rng.below(b.len() + 1)].to_vec(), *m),
        (Call::Check(b, m), 0) => Call::Check(b.iter().chain(b).copied().collect(), *m),
        (Call::Topic(t, f), 0) => Call::Topic(f.clone(), t.clone()),
        (Call::Topic(t, f), 1) => Call::Topic(t.clone(), retouch(&mut cx.rng, f)),
        (Call::Topic(t, f), 2) => Call::Topic(retouch(&mut cx.rng, t), f.clone()),
        (Call::Login(a, b, c, d), 0) => Call::Login(a.clone(), b.clone(), retouch(&mut cx.rng, c), d.clone()),
        (Call::Login(a, b, c, d), 1) => Call::Login(a.clone(), b.clone(), c.clone(), retouch(&mut cx.rng, d)),
        (Call::Read(v, b, m), 2) if b.len() > 2 => {
            let mut b = b.clone();
            let i = cx.rng.range(2, b.len() - 1);
            b[i] = b[i].wrapping_add(1);
            Call::Read(*v, b, *m)
        }
        _ => Call::random(cx),
    };
    let (oa, ob) = (a.run(), b.run());
    for _ in 0..2 {
        let b1 = b.run();
        let a1 = a.run();
        if differ(cx, &b, &ob, &b1, "before the other") || differ(cx, &a, &oa, &a1, "after the other") {
            return;
        }
    }
    cx.seen(hash(format!("{:?}{:?}", oa, ob).as_bytes()));
    cx.ev("pairs in both orders");
}

/// The same calls in other surroundings: another time of day, other environment variables, a new thread with some
/// name, other places in memory.
fn det_world(cx: &mut Cx) {
    let n = cx.rng.range(4, 30);
    let calls: Vec<Call> = (0..n).map(|_| Call::random(cx)).collect();
    let first: Vec<Outcome> = calls.iter().map(|c| c.run()).collect();
    cx.seen(hash(format!("{:?}", first).as_bytes()));
    let mut asked = 0;
    for _ in 0..4 {
        let w = cx.rng.next() | 1 << 8;
        for (c, o) in calls.iter().zip(&first) {
            let (off, spare) = (cx.rng.below(40), if cx.rng.bool() { 0 } else { cx.rng.below(5000) });
            let (o2, a) = world::within(w, || c.run_at(off, spare));
            asked += a;
            cx.ev("calls repeated in other surroundings");
            if o2 != *o {
                return cx.fail(format!("{}: first {} and in other surroundings ({} queries of clock or environment; buffer at {}, {} spare) {}", c.show(), cut(o), a, off, spare, cut(&o2)));
            }
        }
    }
    cx.evn("queries of clock or environment", asked);
    // new threads, some with the names programs use
    let bad = std::thread::scope(|sc| {
        let mut bad = None;
        for _ in 0..2 {
            let mut b = std::thread::Builder::new();
            if cx.rng.p(2, 3) {
                b = b.name(cx.rng.pick(&["tokio-runtime-worker", "main", "worker-1", "mqtt", "a\u{e9}"]).to_string());
            }
            let (calls, first) = (&calls, &first);
            let h = b.spawn_scoped(sc, move || calls.iter().zip(first).map(|(c, o)| (c, o, c.run())).find(|x| *x.1 != x.2));
            if let Some((c, o, o2)) = h.unwrap().join().unwrap() {
                bad = Some(format!("{}: first {} and on a new thread {}", c.show(), cut(o), cut(&o2)));
            }
        }
        bad
    });
    cx.evn("calls repeated on new threads", 2 * n as u64);
    if let Some(b) = bad {
        cx.fail(b);
    }
}

/// One call of a tight loop, with what it gave when it was alone.
enum Job {
    Check(Vec<u8>, Result<FixedHeader, Error>),
    Read(Ver, Vec<u8>, Result<CPk, Error>, usize),
    Direct(Ver, FixedHeader, Bytes, Result<CPk, Error>),
    Write(CPk, Result<usize, Error>, Vec<u8>, Option<usize>),
    Extract(Loc, u8, Bytes, Option<Result<Props, Error>>, usize),
    Topic(String, String, [bool; 4]),
    Login(v4::Login, String, String, bool),
}

fn topic_answers(t: &str, f: &str) -> [bool; 4] {
    [mqttbytes::matches(t, f), mqttbytes::valid_filter(f), mqttbytes::valid_topic(t), mqttbytes::has_wildcards(f)]
}

impl Job {
    /// Several for a packet and a changed copy of it.
    fn of_packet(r: &mut Rng, ver: Ver, pk: &Pk, to: &mut Vec<Job>) {
        let v = CPk::of(ver, pk, Knob::default());
        let mut o = BytesMut::new();
        let w = v.write(&mut o);
        let e = encode(ver, pk, Form::default());
        let bad = mutate(r, &e);
        for b in [o.to_vec(), bad] {
            let mut s = BytesMut::from(&b[..]);
            let x = read(ver, &mut s, MAX);
            to.push(Job::Read(ver, b.clone(), x, s.len()));
            if let Some((h, n)) = header_of(&b) {
                let f = Bytes::copy_from_slice(&b[..n]);
                if let Some(x) = read_direct(ver, h, b[0] >> 4, f.clone()) {
                    to.push(Job::Direct(ver, h, f, x));
                }
            }
            to.push(Job::Check(b.clone(), check(&b, MAX)));
        }
        let n = v.public_len();
        to.push(Job::Write(v, w, o.to_vec(), n));
    }

    fn name(&self) -> &'static str {
        match self {
            Job::Check(..) => "check",
            Job::Read(..) => "read",
            Job::Direct(..) => "packet read",
            Job::Write(..) => "write",
            Job::Extract(..) => "extract",
            Job::Topic(..) => "topic functions",
            Job::Login(..) => "validate",
        }
    }

    /// What another outcome was.
    fn run(&self, o: &mut BytesMut) -> Option<String> {
        let as_before = |a: &Result<CPk, Error>, b: &Result<CPk, Error>| match (a, b) {
            (Ok(a), Ok(b)) => a.same(b),
            (Err(a), Err(b)) => a == b,
            _ => false,
        };
        match self {
            Job::Check(b, first) => {
                let r = check(b, MAX);
                (r != *first).then(|| format!("{}: {:?} instead of {:?}", hex(b), r, first))
            }
            Job::Read(ver, b, first, left) => {
                o.clear();
                o.extend_from_slice(b);
                let r = read(*ver, o, MAX);
                (!as_before(&r, first) || o.len() != *left).then(|| format!("{:?} {}: {} instead of {}", ver, hex(b), show(&r), show(first)))
            }
            Job::Direct(ver, h, f, first) => {
                let r = read_direct(*ver, *h, f[0] >> 4, f.clone()).unwrap_or(Err(Error::PayloadRequired));
                (!as_before(&r, first)).then(|| format!("{:?} {}: {} instead of {}", ver, hex(f), show(&r), show(first)))
            }
            Job::Write(v, first, bytes, len) => {
                o.clear();
                let w = v.write(o);
                let n = v.public_len();
                (w != *first || o[..] != bytes[..] || n != *len).then(|| format!("{}: {:?} {} instead of {:?} {}", cut(&v.to_pk()), w, hex(o), first, hex(bytes)))
            }
            Job::Extract(loc, ty, b, first, left) => {
                let mut f = b.clone();
                let r = extract(*loc, *ty, &mut f);
                (r != *first || f.len() != *left).then(|| format!("{:?} {}: {} instead of {}", loc, hex(b), cut(&r), cut(first)))
            }
            Job::Topic(t, f, first) => {
                let r = topic_answers(t, f);
                (r != *first).then(|| format!("{} {}: {:?} instead of {:?}", cut(t), cut(f), r, first))
            }
            Job::Login(l, a, b, first) => {
                let r = l.validate(a, b);
                (r != *first).then(|| format!("{} {} {}: {}", cut(l), cut(a), cut(b), r))
            }
        }
    }
}

/// Interrupts threads at random points for a moment, in which the others go on.
mod nudge {
    extern "C" {
        fn signal(n: i32, f: usize) -> usize;
        fn pthread_self() -> usize;
        fn pthread_kill(t: usize, n: i32) -> i32;
        fn sched_yield() -> i32;
    }
    const USR2: i32 = 12;
    extern "C" fn pause(_: i32) {
        unsafe { sched_yield() };
        for _ in 0..300 {
            std::hint::spin_loop();
        }
    }
    pub fn me() -> usize {
        static ONCE: std::sync::Once = std::sync::Once::new();
        ONCE.call_once(|| {
            unsafe { signal(USR2, pause as extern "C" fn(i32) as usize) };
        });
        unsafe { pthread_self() }
    }
    pub fn one(t: usize) {
        unsafe { pthread_kill(t, USR2) };
    }
}

/// Threads that do the same kind of call with values of their own, interrupted all the time.
fn det_hammer(cx: &mut Cx) {
    let kinds = 28 + PLACES.len() + 3;
    let k = (cx.idx + cx.seed.wrapping_mul(7)) as usize % kinds;
    let nt = 4;
    let mut jobs: Vec<Vec<Job>> = vec![];
    for _ in 0..nt {
        let mut to = vec![];
        for _ in 0..3 {
            if k < 28 {
                let ver = if k < 14 { Ver::V4 } else { Ver::V5 };
                let pk = Gen::new(&mut cx.rng, true).budget(120).packet_of(ver, k as u8 % 14 + 1);
                Job::of_packet(&mut cx.rng, ver, &pk, &mut to);
            } else if k < 28 + PLACES.len() {
                let (loc, ty) = PLACES[k - 28];
                let pk = mask_at(cx, true, loc, ty, (1 << allowed(loc).len()) - 1);
                Job::of_packet(&mut cx.rng, Ver::V5, &pk, &mut to);
            } else if k == kinds - 3 {
                let mut g = Gen::new(&mut cx.rng, false).budget(60);
                let f = g.filter();
                for t in [g.topic(), f.clone()] {
                    let a = topic_answers(&t, &f);
                    to.push(Job::Topic(t, f.clone(), a));
                }
            } else if k == kinds - 2 {
                let mut g = Gen::new(&mut cx.rng, false).budget(60);
                let (a, b, c) = (g.text(), g.text(), g.text());
                let l = v4::Login::new(a.as_str(), b.as_str());
                for (c, d) in [(a.clone(), b.clone()), (c, b), (b"x".iter().map(|x| *x as char).collect(), a)] {
                    let ok = l.validate(&c, &d);
                    to.push(Job::Login(l.clone(), c, d, ok));
                }
            } else {
                let (loc, ty) = *cx.rng.pick(&[(Loc::ConnAck, 2u8), (Loc::Ack, 4), (Loc::Ack, 5), (Loc::Ack, 6), (Loc::Ack, 7), (Loc::Subscribe, 8), (Loc::SubAck, 9), (Loc::UnsubAck, 11), (Loc::Disconnect, 14)]);
                let p = Gen::new(&mut cx.rng, false).budget(60).props(loc);
                let b = Bytes::from(encode_props(&p));
                let mut f = b.clone();
                let x = extract(loc, ty, &mut f);
                to.push(Job::Extract(loc, ty, b, x, f.len()));
            }
        }
        jobs.push(to);
    }
    for j in jobs.iter().flatten() {
        if let Job::Read(_, b, ..) = j {
            cx.seen_bytes(b);
        }
    }
    let stop = AtomicBool::new(false);
    let ran = AtomicU64::new(0);
    let ready = Barrier::new(nt + 1);
    let ids: Vec<AtomicUsize> = (0..nt).map(|_| AtomicUsize::new(0)).collect();
    let mut bad = vec![];
    let nudges: u64 = if cx.thorough() { 150_000 } else { 50_000 };
    std::thread::scope(|sc| {
        let hs: Vec<_> = (0..nt)
            .map(|t| {
                let (jobs, stop, ran, ready, id) = (&jobs[t], &stop, &ran, &ready, &ids[t]);
                sc.spawn(move || {
                    id.store(nudge::me(), SeqCst);
                    ready.wait();
                    let mut o = BytesMut::with_capacity(1 << 12);
                    let mut bad = None;
                    let mut n = 0;
                    while bad.is_none() && !stop.load(Relaxed) {
                        for j in jobs {
                            match catch(|| j.run(&mut o)) {
                                Ok(None) => {}
                                Ok(Some(b)) => bad = Some(format!("{}: {}", j.name(), b)),
                                Err(_) => bad = Some(format!("{}: a panic", j.name())),
                            }
                        }
                        n += 1;
                    }
                    ran.fetch_add(n * jobs.len() as u64, Relaxed);
                    // nobody may leave while signals are sent
                    while !stop.load(SeqCst) {
                        std::thread::yield_now();
                    }
                    bad
                })
            })
            .collect();
        ready.wait();
        for i in 0..nudges {
            nudge::one(ids[i as usize % nt].load(SeqCst));
            for _ in 0..(i * 7919) % 97 {
                std::hint::spin_loop();
            }
        }
        stop.store(true, SeqCst);
        for h in hs {
            bad.extend(h.join().unwrap());
        }
    });
    cx.evn("interruptions of threads in tight loops", nudges);
    cx.evn("calls of threads in tight loops", ran.load(Relaxed));
    if let Some(b) = bad.pop() {
        cx.fail(format!("among other threads, {}", b));
    }
}

// --- C31 ---------------------------------------------------------------------------------------------------------

/// Calls whose outcomes go into the log of this build of the crate.
impl Outcome {
    fn digest(&self) -> u64 {
        let mut h = Portable::default();
        let mut err = |e: &dyn std::fmt::Debug| h.write(format!("{:?}", e).as_bytes());
        match self {
            Outcome::Check(r) => err(r),
            Outcome::Read(Ok((p, d)), n) => (0u8, p, d, n).hash(&mut h),
            Outcome::Read(Err(e), n) => err(&(e, n)),
            Outcome::Sect(Some(Ok(p)), n) => (1u8, p, n).hash(&mut h),
            Outcome::Sect(e, n) => err(&(e, n)),
            Outcome::Write(r, b, l, m) => {
                err(r);
                (b, l, m).hash(&mut h)
            }
            o => err(o),
        }
        h.finish()
    }
}

fn platform(cx: &mut Cx, n: usize, debug: usize) {
    let mut all = 0;
    for _ in 0..n {
        let mut c = Call::random(cx);
        if let Call::Check(_, max) | Call::Read(_, _, max) = &mut c {
            if cx.rng.p(1, 8) {
                *max = *cx.rng.pick(&[0, 1, 127, 128, 65535, 65536, MAX - 1, MAX + 1, 0x7FFF_FFFF, 0x8000_0000, 0xFFFF_FFFF]);
            }
        }
        let o = c.run_how(0, 0, cx.rng.p(1, debug));
        let d = o.digest();
        all ^= d;
        cx.record(d, || format!("{} gives {:?}", c.show(), o));
        cx.ev(c.name());
        if !miri() {
            cx.sample(|| format!("{} -> {}", c.show(), cut(&o)));
        }
    }
    cx.seen(all);
}

/// Headers of all sizes under limits of all sizes.
fn platform_limits(cx: &mut Cx) {
    let r = &mut cx.rng;
    let num = |r: &mut Rng, bits: usize| r.next() as usize & ((1u64 << r.range(0, bits)) - 1) as usize;
    let mut calls = vec![];
    for _ in 0..4 {
        let n = num(r, 28);
        let mut b = vec![r.next() as u8];
        varint(n, &mut b);
        b.extend(vec![0; r.below(4)]);
        let max = match r.below(4) {
            0 => n,
            1 => (n + r.below(3)).saturating_sub(1),
            2 => num(r, 32),
            _ => n & !num(r, 28),
        };
        calls.push(if r.bool() { Call::Check(b, max) } else { Call::Read(any_ver(r), b, max) });
    }
    for c in calls {
        let o = c.run();
        cx.record(o.digest(), || format!("{} gives {:?}", c.show(), o));
        cx.ev(c.name());
        cx.seen(o.digest());
    }
}

fn platform_small(cx: &mut Cx) {
    plainly(true);
    platform(cx, 3, 8);
    plainly(false);
}

fn platform_giants(cx: &mut Cx) {
    let n = giants(Ver::V4);
    let i = cx.idx % (n + giants(Ver::V5));
    let (ver, k) = if i < n { (Ver::V4, i) } else { (Ver::V5, i - n) };
    let pk = giant(&mut cx.rng, ver, k, 20 << 20);
    let b = encode(ver, &pk, Form::default());
    let late = late_change(&mut cx.rng, &b);
    for c in [Call::Read(ver, b.bytes, MAX), Call::Read(ver, late, MAX), Call::Write(ver, pk, Knob::default())] {
        let o = c.run_how(0, 0, false);
        cx.record(o.digest(), || format!("{} gives {:?}", c.show(), o));
        cx.ev(c.name());
        cx.seen(o.digest());
    }
}

fn platform_any(cx: &mut Cx) {
    platform(cx, 8, 1)
}

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C31",
            rule: "Random calls (check, read, individual readers, extractors, write, matching, validation; frames of any quality, limits of every size) are made with the same arguments in several builds of the crate: x86-64 with and without debug assertions and overflow checks, with the feature v5, and i686 natively; s390x (big-endian) under Miri. The logs of outcomes (results, values and their Debug text, bytes written, what is left of the stream) are compared case by case. Distinct by outcomes.",
            workloads: vec![
                wl("small calls", 30_000, 3_000_000, platform_small),
                wl("limits", 30_000, 3_000_000, platform_limits),
                Workload { native: true, ..wl("calls", 20_000, 3_000_000, platform_any) },
                Workload { native: true, ..heavy("giants", 23, 115, platform_giants) },
            ],
            require: vec![
                ("checks repeated", 1_000),
                ("reads repeated", 1_000),
                ("packet reads repeated", 1_000),
                ("extractions repeated", 1_000),
                ("writes repeated", 1_000),
                ("matches repeated", 1_000),
                ("validations repeated", 1_000),
            ],
            assumptions: vec!["Miri's s390x stands for big-endian platforms"],
            exhaustive: "",
        },
        Check {
            id: "C02",
            rule: "Frames of any quality read, kept, cloned, written and dropped in any order while the stream buffer is reused; individual readers and extractors with inconsistent headers; packets shared by threads; packets written into buffers of every kind. Run natively with std's precondition checks, under AddressSanitizer (with leak detection), ThreadSanitizer and MemorySanitizer, and under Miri (uninitialised memory, aliasing, data races). Distinct by bytes (native part).",
            workloads: vec![
                wl("types in turn", 100_000, 3_000_000, each_type),
                wl("lifetimes", 60_000, 2_000_000, lifetimes),
                Workload { chunk: 8, ..wl("threads", 6_000, 150_000, threads) },
                wl("inconsistent headers", 200_000, 8_000_000, raw_readers),
                wl("writes", 120_000, 5_000_000, writes),
                wl("texts", 40_000, 1_000_000, texts),
            ],
            require: vec![
                ("packets kept", 10_000),
                ("packet types in turn", 10_000),
                ("kept packets compared", 10_000),
                ("packets shared by threads", 1_000),
                ("threads run", 1_000),
                ("extractors on arbitrary bytes", 10_000),
                ("inconsistent headers: errors", 10_000),
                ("inconsistent headers: packets", 100),
                ("packets written and read", 10_000),
                ("texts", 1_000),
            ],
            assumptions: vec![
                "the bytes crate and the standard library are trusted except where the sanitizers see into them",
                "a caller that passes an inconsistent fixed header to an individual reader may get a panic",
            ],
            exhaustive: "",
        },
        Check {
            id: "C24",
            rule: "Frames of any quality, complete and cut, with random limits; every length field of packets set to values far beyond the frame; megabyte frames of thousands of tiny properties and list elements; long connections; packets written. A counting allocator measures each call: at most 128 bytes per byte of the frame plus 4096, nothing for incomplete frames, nothing left at the end. Distinct by bytes.",
            workloads: vec![
                wl("random", 250_000, 15_000_000, mem_random),
                wl("declared lengths", 60_000, 3_000_000, mem_declared),
                heavy("many parts", 600, 20_000, mem_parts),
                heavy("connections", 60, 3_000, mem_connection),
                heavy("behind", 400, 10_000, mem_behind),
                wl("writing", 120_000, 8_000_000, mem_write),
            ],
            require: vec![
                ("incomplete or refused for size or length", 10_000),
                ("packets read within bounds", 10_000),
                ("malformed frames within bounds", 10_000),
                ("everything released", 100_000),
                ("lengths declared but not there", 10_000),
                ("frames of many properties", 50),
                ("frames of many list elements", 50),
                ("packets of long connections", 1_000),
                ("packets written within bounds", 10_000),
                ("refused writes within bounds", 100),
            ],
            assumptions: vec!["'proportional' means at most 128 bytes per byte plus 4096 at peak, twice that in total; the crate needs a third of it"],
            exhaustive: "",
        },
        Check {
            id: "C25",
            rule: "Sets of random calls (check, read, individual readers, extractors, write, matching, validation) repeated at once, in other orders, much later, on four threads at a time, hundreds of thousands of times, after thousands of the same or of two in turn (each kind of refusal among them), texts at the address others had before, with another clock, other environment variables and buffers elsewhere in memory; the same kind of call in tight loops on four threads with values of their own, which signals interrupt at random points; standard output and error of the whole process captured, which must stay empty. Distinct by outcomes.",
            workloads: vec![
                heavy("tight loops", 120, 2_000, det_hammer),
                wl("orders", 25_000, 1_500_000, det_order),
                wl("pairs", 80_000, 4_000_000, det_pairs),
                heavy("rows", 1_800, 60_000, det_rows),
                wl("surroundings", 2_000, 150_000, det_world),
                Workload { chunk: 8, ..wl("threads", 1_500, 60_000, det_threads) },
                Workload { chunk: 1, ..wl("long runs", 56, 56, det_many) },
            ],
            require: vec![
                ("checks repeated", 10_000),
                ("reads repeated", 10_000),
                ("packet reads repeated", 10_000),
                ("extractions repeated", 10_000),
                ("writes repeated", 10_000),
                ("matches repeated", 10_000),
                ("validations repeated", 10_000),
                ("calls repeated much later", 10_000),
                ("calls repeated on other threads", 100_000),
                ("calls repeated in long runs", 1_000_000),
                ("pairs in both orders", 10_000),
                ("rows", 500),
                ("calls repeated in other surroundings", 100_000),
                ("calls repeated on new threads", 10_000),
                ("calls of threads in tight loops", 1_000_000),
                ("interruptions of threads in tight loops", 1_000_000),
            ],
            assumptions: vec!["files and the network are not varied between repetitions"],
            exhaustive: "",
        },
    ]
}
