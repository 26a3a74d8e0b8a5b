//! C34: the time a call takes is in proportion to what it works on.

use crate::conv::*;
use crate::gen::*;
use crate::mon::*;
use crate::p_codec::PLACES;
use crate::refm::*;
use crate::rng::Rng;
use bytes::{Bytes, BytesMut};
use mqttbytes::{v4, v5};

/// CPU time of this thread.
#[cfg(not(miri))]
fn now() -> f64 {
    clock::read(3)
}
#[cfg(miri)]
fn now() -> f64 {
    0.0
}

/// Memory that was given back is used again, without the kernel: its page faults are not what is timed.
fn keep_memory() {
    #[cfg(all(target_os = "linux", not(miri)))]
    {
        extern "C" {
            fn mallopt(what: i32, v: i32) -> i32;
        }
        static ONCE: std::sync::Once = std::sync::Once::new();
        ONCE.call_once(|| unsafe {
            mallopt(-3, 1 << 30);
            mallopt(-1, i32::MAX);
        });
    }
}

fn timed<T>(f: impl FnOnce() -> T) -> f64 {
    let t = now();
    let r = f();
    let t = now() - t;
    drop(r);
    t
}

/// An operation on something of size n: does it once and says how long that took, preparations not included.
type Op = Box<dyn FnMut() -> f64>;

/// How the time may grow with n.
#[derive(Clone, Copy, PartialEq)]
enum Growth {
    Linear,
    None,
}

struct Family {
    name: String,
    growth: Growth,
    sizes: Vec<usize>,
    make: Box<dyn Fn(usize) -> Op>,
}

/// More than this factor over the time per element at the smallest sizes is no longer proportional. Caches and page
/// faults account for a factor of three; anything quadratic gets to it at a few thousand elements or at most at a million.
const FACTOR: f64 = 6.0;

/// The shortest of several measurements.
fn shortest(op: &mut Op, reps: usize) -> f64 {
    let mut best = f64::MAX;
    let mut sum = 0.0;
    for i in 0..reps * 8 {
        let t = op();
        best = best.min(t);
        sum += t;
        if i + 1 >= reps && sum > 0.001 || sum > 0.5 {
            break;
        }
    }
    best
}

fn judge(cx: &mut Cx, f: &Family) {
    keep_memory();
    // what a clock or an interrupt may add
    let slack = 3e-6;
    let mut table: Vec<(usize, f64)> = vec![];
    let per = |n: usize, t: f64| if f.growth == Growth::Linear { t / n as f64 } else { t };
    for &n in &f.sizes {
        let mut op = (f.make)(n);
        let t = shortest(&mut op, 3);
        table.push((n, t));
        cx.ev("calls timed");
        let base = |table: &[(usize, f64)]| table[..table.len() - 1].iter().map(|(n, t)| per(*n, *t + slack)).fold(f64::MAX, f64::min);
        let mut tries = 0;
        while table.len() > 1 && per(n, t.min(table[table.len() - 1].1)) > FACTOR * base(&table) {
            tries += 1;
            if tries > 4 {
                let s: Vec<String> = table.iter().map(|(n, t)| format!("{} takes {:.1} us", n, t * 1e6)).collect();
                return cx.fail(format!("{}: {}", f.name, s.join(", ")));
            }
            // once more, all of them: the machine may have been busy
            std::thread::sleep(std::time::Duration::from_millis(20 * tries));
            for e in table.iter_mut() {
                let again = shortest(&mut (f.make)(e.0), 3 + 2 * tries as usize);
                e.1 = if e.0 == n { e.1.min(again) } else { e.1.max(again) };
            }
            cx.ev("calls timed again");
        }
    }
    let (lo, hi) = (table[0], table[table.len() - 1]);
    let grown = per(hi.0, hi.1) / per(lo.0, lo.1 + slack);
    cx.ev(match grown {
        g if g < 1.5 => "growth of time per element below 1.5",
        g if g < 3.0 => "growth of time per element below 3",
        _ => "growth of time per element below 6",
    });
    cx.seen(crate::rng::hash(f.name.as_bytes()));
    cx.sample(|| format!("{}: {} takes {:.1} us, {} takes {:.1} us", f.name, lo.0, lo.1 * 1e6, hi.0, hi.1 * 1e6));
}

fn powers(from: usize, to: usize) -> Vec<usize> {
    (from..=to).step_by(3).map(|k| 1 << k).collect()
}

const WHAT: [&str; 8] = ["check", "read", "packet read", "write", "len", "clone", "compare", "show"];

/// Packets with n elements of one kind.
const SHAPES: usize = 6;
fn shaped(r: &mut Rng, ver: Ver, shape: usize, place: usize, n: usize) -> Option<Pk> {
    let same = r.bool();
    let numbered = r.bool();
    let word = |i: usize| match (same, numbered) {
        (true, _) => "a".to_string(),
        (_, true) => i.to_string(),
        _ => char::from(b'a' + (i % 26) as u8).to_string(),
    };
    let v5 = ver == Ver::V5;
    Some(match shape {
        0 => Pk::Publish { dup: false, qos: 1, retain: true, topic: "t".into(), pkid: 3, props: vec![], payload: vec![r.next() as u8; n] },
        1 => Pk::Subscribe { pkid: 1, props: vec![], filters: (0..n).map(|i| (word(i), if numbered { i as u8 % 3 } else { 1 })).collect() },
        2 => Pk::Unsubscribe { pkid: 1, props: vec![], filters: (0..n).map(word).collect() },
        3 => Pk::SubAck { pkid: 1, props: vec![], codes: (0..n).map(|i| if same { 1 } else { codes(ver, 9)[i % codes(ver, 9).len()] }).collect() },
        4 if v5 && place % 2 == 0 => Pk::UnsubAck { pkid: 1, props: vec![], codes: (0..n).map(|i| codes(ver, 11)[i % codes(ver, 11).len()]).collect() },
        4 if v5 => {
            let props = (0..n).map(|i| (0x0B, PV::V(if same { 7 } else { i as u32 + 1 }))).collect();
            Pk::Publish { dup: false, qos: 0, retain: false, topic: "t".into(), pkid: 0, props, payload: vec![1] }
        }
        5 if v5 => {
            let (loc, ty) = PLACES[place % PLACES.len()];
            let mut pk = Gen::new(r, true).budget(30).packet_of(ver, ty);
            let props: Props = (0..n).map(|i| (0x26, PV::P(word(i), word(i / 3)))).collect();
            match (&mut pk, loc) {
                (Pk::Connect(c), Loc::Will) => c.will = Some(Will { props, topic: "w".into(), msg: vec![0], qos: 1, retain: false }),
                (pk, _) => *pk.props_mut().unwrap() = props,
            }
            if let Pk::Publish { topic, .. } = &mut pk {
                *topic = "t".into();
            }
            pk
        }
        _ => return None,
    })
}

/// Packets of n elements: looked at, read, written, cloned, compared, shown.
fn time_packets(cx: &mut Cx) {
    let ver = if cx.idx % 3 == 0 { Ver::V4 } else { Ver::V5 };
    let shape = (cx.idx / 3) as usize % SHAPES;
    let what = WHAT[cx.idx as usize / 3 / SHAPES % WHAT.len()];
    let place = cx.rng.below(2 * PLACES.len());
    let r0 = cx.rng.clone();
    if shaped(&mut r0.clone(), ver, shape, place, 1).is_none() {
        return;
    }
    let top = match (shape, cx.thorough()) {
        (0, true) => 25,
        (0, false) => 22,
        (_, true) => 19,
        (_, false) => 16,
    };
    {
        let r0 = r0.clone();
        let make = move |n: usize| -> Op {
            let pk = shaped(&mut r0.clone(), ver, shape, place, n).unwrap();
            let b = encode(ver, &pk, Form::default()).bytes;
            match what {
                "check" => Box::new(move || timed(|| (0..50).filter(|_| check(&b, MAX).is_ok()).count())),
                "read" => Box::new(move || {
                    let mut s = BytesMut::from(&b[..]);
                    timed(|| read(ver, &mut s, MAX))
                }),
                "packet read" => {
                    let h = check(&b, MAX);
                    let b = Bytes::from(b);
                    Box::new(move || {
                        let f = b.clone();
                        timed(|| h.map(|h| read_direct(ver, h, f[0] >> 4, f)))
                    })
                }
                "write" => {
                    let v = CPk::of(ver, &pk, Knob::default());
                    Box::new(move || {
                        let mut o = BytesMut::new();
                        timed(|| v.write(&mut o))
                    })
                }
                "len" => {
                    let v = CPk::of(ver, &pk, Knob::default());
                    Box::new(move || timed(|| (v.public_len(), v.public_props_len())))
                }
                "clone" => {
                    let v = CPk::of(ver, &pk, Knob::default());
                    Box::new(move || timed(|| v.copy()))
                }
                "compare" => {
                    let v = CPk::of(ver, &pk, Knob::default());
                    let w = v.copy();
                    Box::new(move || timed(|| v.same(&w)))
                }
                _ => {
                    let v = CPk::of(ver, &pk, Knob::default());
                    Box::new(move || timed(|| v.debug()))
                }
            }
        };
        let n = shaped(&mut cx.rng.clone(), ver, shape, place, 1).map_or(0, |p| p.ty());
        let f = Family {
            name: format!("{:?} {} of {} with n elements (shape {}, place {})", ver, what, type_name(n), shape, place % PLACES.len()),
            growth: Growth::Linear,
            sizes: powers(10, top),
            make: Box::new(make),
        };
        judge(cx, &f);
    }
    cx.ev("packets of growing size");
}

/// Texts of n bytes in any field.
fn time_texts(cx: &mut Cx) {
    let ver = any_ver(&mut cx.rng);
    let ty = *cx.rng.pick(if ver == Ver::V4 { &[1u8, 3, 8, 10][..] } else { &[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 14] });
    let conf = ver == Ver::V4 || cx.rng.bool();
    let mut pk = if conf { Gen::new(&mut cx.rng, true).budget(60).packet_of(ver, ty) } else { crate::p_codec::mask_any(cx, true) };
    let k = crate::p_write::fields(&mut pk).len();
    if k == 0 {
        return;
    }
    let i = cx.rng.below(k);
    let unit = *cx.rng.pick(&["a", "/", "é", "中", "+", " ", "ab/", "\u{1f600}", "\u{1}", ".."]);
    for what in ["read", "write"] {
        let pk = pk.clone();
        let f = Family {
            name: format!("{:?} {} of {} with {} bytes of {:?} in field {}", ver, what, type_name(pk.ty()), "n", unit, i),
            growth: Growth::Linear,
            sizes: vec![512, 4096, 16_384, 65_000],
            make: Box::new(move |n| {
                let mut pk = pk.clone();
                match crate::p_write::fields(&mut pk).into_iter().nth(i) {
                    Some(crate::p_write::F::S(s)) => *s = unit.repeat(n / unit.len()),
                    Some(crate::p_write::F::X(x)) => *x = unit.repeat(n / unit.len()).into_bytes(),
                    None => {}
                }
                let b = encode(ver, &pk, Form::default()).bytes;
                if what == "read" {
                    Box::new(move || {
                        let mut s = BytesMut::from(&b[..]);
                        timed(|| read(ver, &mut s, MAX))
                    })
                } else {
                    let v = CPk::of(ver, &pk, Knob::default());
                    Box::new(move || {
                        let mut o = BytesMut::new();
                        timed(|| v.write(&mut o))
                    })
                }
            }),
        };
        judge(cx, &f);
    }
    cx.ev("texts of growing size");
}

/// Topics and filters of n levels or n characters, chosen to make matching hard.
fn time_topics(cx: &mut Cx) {
    let thorough = cx.thorough();
    let r = &mut cx.rng;
    let lv = *r.pick(&["a", "", "aa", "é", "ab", "$", "a b"]);
    let fl = *r.pick(&["a", "+", "", "#", "a/#", "+/a", "#/a", "aa", "+/+", "é", "ab"]);
    let end_t = *r.pick(&["", "/b", "/a", "b", "/", "/#", "/+"]);
    let end_f = *r.pick(&["", "/c", "/a", "/#", "/+", "c", "/", "/#/b"]);
    let sep = if r.p(3, 4) { "/" } else { "" };
    let short_filter = r.p(1, 6);
    let short_topic = r.p(1, 6);
    let f = Family {
        name: format!("matching and validation of topic ({:?} with {:?} n times) {:?} and filter ({:?} n times) {:?}{}", lv, sep, end_t, fl, end_f, if short_filter || short_topic { ", one of them once" } else { "" }),
        growth: Growth::Linear,
        sizes: powers(8, if thorough { 21 } else { 17 }),
        make: Box::new(move |n| {
            let rep = |s: &str, n: usize| vec![s; n].join(sep);
            let t = rep(lv, if short_topic { 1 } else { n }) + end_t;
            let f = rep(fl, if short_filter { 1 } else { n }) + end_f;
            Box::new(move || {
                timed(|| {
                    tgt(|| {
                        (
                            mqttbytes::matches(&t, &f),
                            mqttbytes::matches(&f, &t),
                            mqttbytes::valid_filter(&f),
                            mqttbytes::valid_topic(&t),
                            mqttbytes::has_wildcards(&t),
                            v4::Login::new(t.as_str(), f.as_str()).validate(&t, &f),
                        )
                    })
                })
            })
        }),
    };
    judge(cx, &f);
    cx.ev("topics of growing size");
}

/// What waits in the stream is no reason for a call to take longer, if it is not part of the packet.
fn time_stream(cx: &mut Cx) {
    let ver = any_ver(&mut cx.rng);
    let kind = cx.idx % 5;
    let top = if cx.thorough() { 26 } else { 23 };
    let r = &mut cx.rng;
    let junk = *r.pick(&[0u8, 0xC0, 0x30, 0xFF, 0x2F]);
    let small = {
        let ty = r.range(1, 14) as u8;
        let pk = Gen::new(r, true).budget(40).packet_of(ver, ty);
        encode(ver, &pk, Form::default()).bytes
    };
    let f = match kind {
        0 | 1 => Family {
            name: format!("{:?} {} with n bytes of {} there", ver, if kind == 0 { "incomplete packet" } else { "packet over the limit" }, junk),
            growth: Growth::None,
            sizes: powers(8, top),
            make: Box::new(move |n| {
                let mut b = vec![0x30];
                varint(MAX, &mut b);
                b.resize(n.max(10), junk);
                let mut s = BytesMut::from(&b[..]);
                let max = if kind == 0 { MAX } else { 100 };
                Box::new(move || timed(|| (0..20).filter(|_| read(ver, &mut s, max).is_err() && check(&b, max).is_err()).count()))
            }),
        },
        2 => Family {
            name: format!("{:?} {} with n bytes of {} behind", ver, type_name(small[0] >> 4), junk),
            growth: Growth::None,
            sizes: powers(8, top),
            make: Box::new(move |n| {
                let mut b = small.clone();
                b.resize(b.len() + n, junk);
                Box::new(move || {
                    let mut s = BytesMut::from(&b[..]);
                    timed(|| (check(&b, MAX), read(ver, &mut s, MAX)))
                })
            }),
        },
        3 => Family {
            name: format!("{:?} stream of n packets of type {}", ver, type_name(small[0] >> 4)),
            growth: Growth::Linear,
            sizes: powers(8, if top > 23 { 20 } else { 17 }),
            make: Box::new(move |n| {
                let b = small.repeat(n);
                let small = small.len();
                Box::new(move || {
                    let mut s = BytesMut::from(&b[..]);
                    let _ = small;
                    timed(|| {
                        let mut k = 0;
                        while k < n && read(ver, &mut s, MAX).is_ok() {
                            k += 1;
                        }
                        k
                    })
                })
            }),
        },
        _ => Family {
            name: format!("{:?} packet of n bytes arriving in pieces of 1024", ver),
            growth: Growth::Linear,
            sizes: powers(12, top - 2),
            make: Box::new(move |n| {
                let pk = Pk::Publish { dup: false, qos: 0, retain: false, topic: "t".into(), pkid: 0, props: vec![], payload: vec![junk; n] };
                let b = encode(ver, &pk, Form::default()).bytes;
                Box::new(move || {
                    let mut s = BytesMut::with_capacity(b.len());
                    timed(|| {
                        let mut k = 0;
                        for p in b.chunks(1024) {
                            s.extend_from_slice(p);
                            k += read(ver, &mut s, MAX).is_ok() as usize;
                        }
                        k
                    })
                })
            }),
        },
    };
    judge(cx, &f);
    cx.ev("streams of growing size");
}

/// Subscriptions put together filter by filter; many packets written into one buffer.
fn time_build(cx: &mut Cx) {
    let kind = cx.idx % 6;
    let same = cx.rng.bool();
    let ver = any_ver(&mut cx.rng);
    let small = {
        let ty = cx.rng.range(1, 14) as u8;
        Gen::new(&mut cx.rng, true).budget(40).packet_of(ver, ty)
    };
    let word = move |i: usize| if same { "a".to_string() } else { i.to_string() };
    let q = mqttbytes::QoS::AtLeastOnce;
    let name = ["v4 subscribe add", "v5 subscribe add", "v4 subscribe new_many", "v5 subscribe new_many", "v5 unsubscribe of", "writes into one buffer:"][kind as usize];
    let f = Family {
        name: format!("{} n {}", name, if kind == 5 { format!("{:?} {}", ver, type_name(small.ty())) } else { format!("filters (same: {})", same) }),
        growth: Growth::Linear,
        sizes: powers(8, 17),
        make: Box::new(move |n| {
            let small = small.clone();
            match kind {
                0 => Box::new(move || {
                    timed(|| {
                        let mut s = v4::Subscribe::new("f", q);
                        for i in 0..n {
                            s.add(word(i), q);
                        }
                        s
                    })
                }),
                1 => Box::new(move || {
                    timed(|| {
                        let mut s = v5::Subscribe::new("f", q);
                        for i in 0..n {
                            s.add(word(i), q);
                        }
                        s
                    })
                }),
                2 => Box::new(move || timed(|| v4::Subscribe::new_many((0..n).map(|i| v4::SubscribeFilter::new(word(i), q)).collect::<Vec<_>>()))),
                3 => Box::new(move || timed(|| v5::Subscribe::new_many((0..n).map(|i| v5::SubscribeFilter::new(word(i), q)).collect::<Vec<_>>()))),
                4 => Box::new(move || timed(|| (0..n).map(|i| v5::Unsubscribe::new(word(i))).fold(0, |a, u| a + u.len()))),
                _ => {
                    let v = CPk::of(ver, &small, Knob::default());
                    Box::new(move || {
                        let mut o = BytesMut::new();
                        timed(|| {
                            for _ in 0..n {
                                let _ = v.write(&mut o);
                            }
                            o.len()
                        })
                    })
                }
            }
        }),
    };
    judge(cx, &f);
    cx.ev("packets built or written one by one");
}

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C34",
        rule: "Packets with 1024 to 65536 elements (payload bytes, filters, codes, subscription identifiers, user properties of every packet type), texts of 512 to 65000 bytes in any field, topics and filters of 256 to 131072 levels or characters of patterns that make matching hard, streams of up to 131072 packets or with up to 8 MB in front of or behind the reader, subscriptions built filter by filter. The CPU time of the thread per element (or, where the size must not matter, per call) is compared between sizes eight times apart; it must not grow by more than a factor of 6, remeasured four times before it is reported. Distinct by what is timed.",
        workloads: vec![
            Workload { threads: 3, ..heavy("packets", 3 * SHAPES as u64 * 8 * 3, 3 * SHAPES as u64 * 8 * 100, time_packets) },
            Workload { threads: 3, ..heavy("texts", 300, 10_000, time_texts) },
            Workload { threads: 3, ..heavy("topics", 400, 10_000, time_topics) },
            Workload { threads: 3, ..heavy("streams", 100, 2_000, time_stream) },
            Workload { threads: 3, ..heavy("building", 60, 1_000, time_build) },
        ],
        require: vec![
            ("calls timed", 5_000),
            ("packets of growing size", 50),
            ("texts of growing size", 100),
            ("topics of growing size", 100),
            ("streams of growing size", 50),
            ("packets built or written one by one", 30),
        ],
        assumptions: vec!["the CPU clock of a thread is right within a factor of 6 over five measurements", "a quadratic part so small that it takes less than 5 times the linear one at the largest size is not seen"],
        exhaustive: "",
    }]
}
