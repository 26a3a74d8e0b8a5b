//! C21-C23: topics and filters, against a reference written over lists of levels.

use crate::gen::*;
use crate::mon::*;
use crate::rng::{hash, mix, Rng};
use mqttbytes::{has_wildcards, matches, valid_filter, valid_topic};

// --- reference ---------------------------------------------------------------------------------------------------

/// Levels by hand: never `str::split`.
fn levels(s: &str) -> Vec<&[u8]> {
    let b = s.as_bytes();
    let mut v = vec![];
    let mut from = 0;
    for i in 0..b.len() {
        if b[i] == b'/' {
            v.push(&b[from..i]);
            from = i + 1;
        }
    }
    v.push(&b[from..]);
    v
}

fn wild(s: &str) -> bool {
    s.as_bytes().iter().any(|c| *c == b'+' || *c == b'#')
}

fn ref_valid_filter(s: &str) -> bool {
    if s.is_empty() {
        return false;
    }
    let v = levels(s);
    for (i, l) in v.iter().enumerate() {
        let hash = l.contains(&b'#');
        let plus = l.contains(&b'+');
        if hash && !(l == b"#" && i + 1 == v.len()) {
            return false;
        }
        if plus && l != b"+" {
            return false;
        }
    }
    true
}

/// Does the topic name match the valid filter?
fn ref_matches(topic: &str, filter: &str) -> bool {
    if topic.as_bytes().first() == Some(&b'$') {
        return false;
    }
    fn go(t: &[&[u8]], f: &[&[u8]]) -> bool {
        match f.split_first() {
            None => t.is_empty(),
            Some((l, _)) if *l == b"#" => true,
            Some((l, rest)) => match t.split_first() {
                Some((x, more)) if *l == b"+" || l == x => go(more, rest),
                _ => false,
            },
        }
    }
    // iteratively for the very deep
    let (t, f) = (levels(topic), levels(filter));
    if t.len() < 500 && f.len() < 500 {
        return go(&t, &f);
    }
    let mut i = 0;
    for l in &f {
        if *l == b"#" {
            return true;
        }
        if i == t.len() || !(*l == b"+" || *l == t[i]) {
            return false;
        }
        i += 1;
    }
    i == t.len()
}

/// Does every topic name that matches `a` match `b`? Both valid, topics beginning with '$' aside. Decided on
/// filters as regular languages over levels: a subset check level by level.
fn ref_covered(a: &str, b: &str) -> bool {
    let (a, b) = (levels(a), levels(b));
    // A first level "$..." without wildcards matches no admissible topic at all
    if a[0].first() == Some(&b'$') {
        return true;
    }
    let (ah, bh) = (*a.last().unwrap() == b"#", *b.last().unwrap() == b"#");
    let (af, bf) = (if ah { &a[..a.len() - 1] } else { &a[..] }, if bh { &b[..b.len() - 1] } else { &b[..] });
    // Number of levels: a allows n = |af| or n >= |af| (and at least 1); likewise b
    let amin = if ah { af.len().max(1) } else { af.len() };
    if bh {
        if amin < bf.len() {
            return false;
        }
    } else if ah || af.len() != bf.len() {
        return false;
    }
    bf.iter().enumerate().all(|(i, l)| {
        *l == b"+" || (i < af.len() && af[i] == *l)
    })
}

// --- generators --------------------------------------------------------------------------------------------------

fn level(r: &mut Rng) -> String {
    let mut g = Gen::new(r, true);
    let n = match g.r.below(20) {
        0..=3 => 0,
        4..=12 => g.r.range(1, 3),
        13..=17 => g.r.below(20),
        18 => g.r.below(300),
        _ if g.r.p(1, 30) => g.len(65_535),
        _ => g.len(3000),
    };
    if g.r.p(1, 6) {
        let s = g.r.pick(&dict().strs).clone();
        return clean(&String::from_utf8_lossy(&s));
    }
    if g.r.p(1, 4) {
        return (*g.r.pick(&["a", "b", "A", "é", "$", "$SYS", " ", ".", "..", "\u{0}", "*", "ａ", "ss", "ß", "e\u{301}", "\u{e9}"])).to_string();
    }
    let s = g.text_n(n);
    if n < 20 && g.r.p(1, 5) {
        let (a, b) = (*g.r.pick(ODD), *g.r.pick(ODD));
        return clean(&match g.r.below(3) {
            0 => format!("{}{}", a, s),
            1 => format!("{}{}", s, a),
            _ => format!("{}{}{}", a, s, b),
        });
    }
    clean(&s)
}
fn clean(s: &str) -> String {
    s.chars().map(|c| if matches!(c, '/' | '+' | '#') { '-' } else { c }).collect()
}

/// Another level that looks much like this one.
fn near(r: &mut Rng, s: &str) -> String {
    let mut c: Vec<char> = s.chars().collect();
    let n = c.len();
    match r.below(9) {
        0 => return s.to_uppercase(),
        1 => return s.to_lowercase(),
        2 if r.bool() => c.push(*r.pick(&[' ', '\0', 'a', '\u{301}', '$', '\u{feff}'])),
        2 => {
            let o = clean(r.pick(ODD));
            let at = if r.bool() { 0 } else { n };
            c.splice(at..at, o.chars());
        }
        3 if n > 0 => {
            c.pop();
        }
        4 if n > 0 => {
            c[n - 1] = char::from_u32(c[n - 1] as u32 ^ 1).unwrap_or('x');
        }
        5 if n > 0 => {
            let i = r.below(n);
            c[i] = char::from_u32(c[i] as u32 ^ 0x20).unwrap_or('x');
        }
        6 if n > 0 => {
            c.remove(0);
        }
        7 if n > 1 => c.swap(0, n - 1),
        8 => c.insert(0, *r.pick(&[' ', 'a', '$', '\u{feff}'])),
        _ => return level(r),
    }
    clean(&c.into_iter().collect::<String>())
}

fn depth(r: &mut Rng) -> usize {
    match r.below(60) {
        0 => r.range(100, 300),
        1 => dict().ints[r.below(dict().ints.len())] as usize % 1100,
        2 => r.range(60, 70),
        3..=9 => r.range(6, 20),
        _ => r.range(1, 5),
    }
    .max(1)
}

fn filter_levels(r: &mut Rng) -> Vec<String> {
    let n = depth(r);
    let same = if r.p(1, 3) || n > 50 { Some(level(r)) } else { None };
    let wilds = r.below(4);
    let mut v: Vec<String> = (0..n)
        .map(|_| {
            if r.below(4) < wilds {
                "+".to_string()
            } else if let (Some(s), true) = (&same, r.p(4, 5)) {
                s.clone()
            } else {
                level(r)
            }
        })
        .collect();
    if r.p(1, 3) {
        if r.p(1, 3) && n > 1 {
            v[n - 1] = "#".into();
        } else {
            v.push("#".into());
        }
    }
    if v.len() == 1 && v[0].is_empty() {
        v[0] = "+".into();
    }
    v
}

/// A topic close to the boundary of what the filter matches.
fn topic_for(r: &mut Rng, f: &[String]) -> Vec<String> {
    let mut t: Vec<String> = vec![];
    for l in f {
        match l.as_str() {
            "#" => {
                let k = if r.p(1, 4) { depth(r) } else { r.below(4) };
                let same = level(r);
                for _ in 0..k {
                    t.push(if k > 20 { same.clone() } else { level(r) });
                }
            }
            "+" => t.push(level(r)),
            l => t.push(l.to_string()),
        }
    }
    match r.below(12) {
        0 => t.push(level(r)),
        1 => t.push(String::new()),
        2 => {
            t.pop();
        }
        3 => t.insert(0, String::new()),
        4 if !t.is_empty() => {
            t[0].insert(0, '$');
        }
        5 | 6 if !t.is_empty() => {
            let i = if r.bool() { r.below(t.len()) } else { t.len() - 1 };
            t[i] = near(r, &t[i].clone());
        }
        7 if t.len() > 1 => {
            let i = r.below(t.len() - 1);
            t.swap(i, i + 1);
        }
        8 if !t.is_empty() => {
            let i = r.below(t.len());
            let l = level(r);
            t.insert(i, l);
        }
        9 if !t.is_empty() => {
            let i = r.below(t.len());
            t.remove(i);
        }
        _ => {}
    }
    if t.is_empty() {
        t.push(level(r));
    }
    t
}

// --- small alphabets, completely ---------------------------------------------------------------------------------

const ALPHA: &[char] = &['a', 'b', '/', '+', '#', '$', 'é'];

/// String number i over ALPHA: all of length 0, then length 1, ...
fn nth(mut i: u64) -> String {
    let k = ALPHA.len() as u64;
    let mut len = 0;
    let mut n = 1;
    while i >= n {
        i -= n;
        n *= k;
        len += 1;
    }
    let mut s = String::new();
    for _ in 0..len {
        s.push(ALPHA[(i % k) as usize]);
        i /= k;
    }
    s
}
const UP_TO: [u64; 8] = [1, 8, 57, 400, 2801, 19608, 137257, 960800];

fn strings(n: usize) -> Vec<String> {
    (0..UP_TO[n]).map(nth).collect()
}
struct Lists {
    topics: Vec<String>,
    filters: Vec<String>,
}
/// Topic names of up to n characters, filters of up to m
fn lists(thorough: bool) -> &'static Lists {
    use std::sync::OnceLock;
    static Q: OnceLock<Lists> = OnceLock::new();
    static T: OnceLock<Lists> = OnceLock::new();
    let make = |n: usize, m: usize| Lists {
        topics: strings(n).into_iter().filter(|s| !wild(s)).collect(),
        filters: strings(m).into_iter().filter(|s| ref_valid_filter(s)).collect(),
    };
    if thorough {
        T.get_or_init(|| make(6, 6))
    } else {
        Q.get_or_init(|| make(5, 5))
    }
}

// --- C21 ---------------------------------------------------------------------------------------------------------

fn decide(cx: &mut Cx, t: &str, f: &str) -> bool {
    let got = tgt(|| matches(t, f));
    let want = ref_matches(t, f);
    if got != want {
        cx.fail(format!("matches({:?}, {:?}) is {}, the standard says {}", short(t), short(f), got, want));
        return false;
    }
    cx.ev(if got { "matches" } else { "mismatches" });
    true
}
fn short(s: &str) -> String {
    if s.len() <= 300 {
        return s.to_string();
    }
    let mut k = 300;
    while !s.is_char_boundary(k) {
        k -= 1;
    }
    format!("{}...({} bytes, hash {:x})", &s[..k], s.len(), hash(s.as_bytes()))
}

fn mat_small(cx: &mut Cx) {
    let l = lists(cx.thorough());
    if let Some(f) = l.filters.get(cx.idx as usize) {
        for t in &l.topics {
            if !decide(cx, t, f) {
                return;
            }
        }
        cx.evn("pairs enumerated", l.topics.len() as u64);
        cx.seen(mix(cx.idx));
    }
}

fn mat_random(cx: &mut Cx) {
    let r = &mut cx.rng;
    let f = filter_levels(r);
    let fs = f.join("/");
    if !ref_valid_filter(&fs) {
        return;
    }
    for _ in 0..4 {
        let r = &mut cx.rng;
        let ts = topic_for(r, &f).join("/");
        if wild(&ts) {
            continue;
        }
        if f.len() > 50 {
            cx.ev("deep filters");
        }
        if !ts.is_ascii() {
            cx.ev("topics beyond ASCII");
        }
        if ts.starts_with('$') {
            cx.ev("topics beginning with $");
        }
        cx.seen(hash(ts.as_bytes()) ^ mix(hash(fs.as_bytes())));
        cx.sample(|| format!("{:?} against {:?}: {}", short(&ts), short(&fs), ref_matches(&ts, &fs)));
        if !decide(cx, &ts, &fs) {
            return;
        }
    }
}

/// Anything at all: only totality is asked for.
fn mat_any(cx: &mut Cx) {
    let any = |cx: &mut Cx| -> String {
        let mut g = Gen::new(&mut cx.rng, false);
        match g.r.below(4) {
            0 => g.text(),
            1 => filter_levels(g.r).join("/"),
            2 => {
                let n = g.r.below(30);
                (0..n).map(|_| *g.r.pick(&['+', '#', '/', '$', 'a', 'é', '😀', '\0'])).collect()
            }
            _ => {
                let t = g.topic();
                let c = *g.r.pick(EDGE_CHARS);
                format!("{}{}", t, c)
            }
        }
    };
    let (a, b) = (any(cx), any(cx));
    for (a, b) in [(&a, &b), (&b, &a), (&a, &a)] {
        let m = tgt(|| matches(a, b));
        if m && a.starts_with('$') {
            return cx.fail(format!("matches({:?}, {:?}) is true for a topic beginning with '$'", short(a), short(b)));
        }
        tgt(|| (valid_filter(a), valid_topic(a), has_wildcards(a)));
        cx.ev("arbitrary texts");
    }
    cx.seen(hash(a.as_bytes()) ^ mix(hash(b.as_bytes())));
}

/// The longest topics a packet can carry.
fn mat_deep(cx: &mut Cx) {
    let r = &mut cx.rng;
    let n = r.range(20_000, 65_535);
    let f: Vec<String> = (0..n).map(|i| if r.p(1, 50) && i > 0 { "+".to_string() } else { String::new() }).collect();
    let mut t: Vec<String> = f.iter().map(|l| if l == "+" && r.bool() { "x".into() } else { String::new() }).collect();
    let mut f = f;
    match r.below(5) {
        0 => f.push("#".into()),
        1 => t.push(String::new()),
        2 => f.push(String::new()),
        3 => *t.last_mut().unwrap() = "y".into(),
        _ => {}
    }
    let (ts, fs) = (t.join("/"), f.join("/"));
    if ref_valid_filter(&fs) && !wild(&ts) {
        cx.ev("deep filters");
        cx.seen(hash(fs.as_bytes()));
        decide(cx, &ts, &fs);
    }
    let long = "é".repeat(32767);
    let other = format!("{}x", long);
    decide(cx, &long, &long);
    decide(cx, &other, &long);
    decide(cx, &long, &other);
    // few levels, long ones
    let r = &mut cx.rng;
    let n = r.range(1, 4);
    let f: Vec<String> = (0..n).map(|_| {
        let n = *r.pick(&[255, 256, 1024, 4095, 4096, 8192, 16384, 32768, 65535, r.clone().below(70_000)]);
        r.pick(&["x", "é", "$"]).repeat(n / 2)
    }).collect();
    let t = f.join("/");
    let mut g = f.clone();
    let i = r.below(n);
    match r.below(6) {
        0 => g[i] = "+".into(),
        1 => g = vec!["+".into(); n],
        2 => {
            g.truncate(i);
            g.push("#".into())
        }
        3 => g[i].push('y'),
        4 => {
            g[i].pop();
        }
        _ => {
            g[i].pop();
            g[i].push('y')
        }
    }
    if decide(cx, &t, &g.join("/")) {
        cx.ev("long levels");
    }
}

fn r_wild(r: &mut Rng) -> &'static str {
    *r.pick(&["", "+", "#", "/+", "/#", "+/", "#/"])
}

// --- C22 ---------------------------------------------------------------------------------------------------------

fn cover(cx: &mut Cx, a: &str, b: &str) -> bool {
    let got = tgt(|| matches(a, b));
    if got {
        cx.ev("covering answered yes");
        if !ref_covered(a, b) {
            cx.fail(format!("matches({:?}, {:?}) is true, but {}", short(a), short(b), witness(a, b)));
            return false;
        }
    } else {
        cx.ev("covering answered no");
    }
    true
}

/// A topic that a matches and b does not.
fn witness(a: &str, b: &str) -> String {
    let base: Vec<String> = a.split('/').map(|s| s.to_string()).collect();
    for fill in ["q", "", "a", "b"] {
        for extra in 0..4 {
            let mut t = vec![];
            for l in &base {
                match l.as_str() {
                    "+" => t.push(fill.to_string()),
                    "#" => t.extend((0..extra).map(|_| fill.to_string())),
                    l => t.push(l.to_string()),
                }
            }
            let t = t.join("/");
            if ref_matches(&t, a) && !ref_matches(&t, b) {
                return format!("the topic {:?} matches only the first", short(&t));
            }
        }
    }
    "some topics match only the first".into()
}

fn general(r: &mut Rng, f: &[String]) -> Vec<String> {
    let mut g = f.to_vec();
    if r.p(1, 2) {
        // up to all levels can go, and # may also be put behind the last
        let keep = r.below(g.len() + 1);
        g.truncate(keep);
        if f.last().map(|l| l == "#").unwrap_or(false) && keep == f.len() {
            g.pop();
        }
        g.push("#".into());
    }
    let p = r.range(1, 4);
    for l in g.iter_mut() {
        if l != "#" && r.below(4) < p && r.bool() {
            *l = "+".into();
        }
    }
    g
}

fn cov_small(cx: &mut Cx) {
    let l = lists(cx.thorough());
    let fs = &l.filters;
    if let Some(a) = fs.get(cx.idx as usize) {
        for b in fs {
            if !cover(cx, a, b) {
                return;
            }
        }
        cx.evn("pairs enumerated", fs.len() as u64);
        cx.seen(mix(cx.idx));
        // every generalisation
        if a.starts_with('$') {
            return;
        }
        let v: Vec<&str> = a.split('/').collect();
        let n = v.len();
        for keep in 0..=n {
            for tail in [false, true] {
                if !tail && keep < n || tail && keep == n && v[n - 1] == "#" {
                    continue;
                }
                for m in 0..1u32 << keep {
                    let mut g: Vec<&str> = vec![];
                    for (i, l) in v[..keep].iter().enumerate() {
                        g.push(if m >> i & 1 == 1 && *l != "#" { "+" } else { l });
                    }
                    if tail {
                        g.push("#");
                    }
                    if !yes(cx, a, &g.join("/")) {
                        return;
                    }
                }
            }
        }
    }
}

fn yes(cx: &mut Cx, a: &str, b: &str) -> bool {
    if !tgt(|| matches(a, b)) {
        cx.fail(format!("matches({:?}, {:?}) is false, but the second is a generalisation of the first", short(a), short(b)));
        return false;
    }
    cx.ev("generalisations covered");
    true
}

fn cov_random(cx: &mut Cx) {
    let r = &mut cx.rng;
    let a = filter_levels(r);
    let sa = a.join("/");
    if !ref_valid_filter(&sa) {
        return;
    }
    if a.len() > 50 {
        cx.ev("deep filters");
    }
    cx.seen(hash(sa.as_bytes()));
    for _ in 0..4 {
        let g = general(&mut cx.rng, &a);
        let sg = g.join("/");
        if !sa.starts_with('$') && !yes(cx, &sa, &sg) {
            return;
        }
        cx.sample(|| format!("{:?} -> {:?}", short(&sa), short(&sg)));
        // the same pair changed a little, and the other way round
        let r = &mut cx.rng;
        let mut h = g.clone();
        match r.below(6) {
            0 => {
                let i = r.below(h.len());
                if h[i] != "#" && h[i] != "+" {
                    h[i] = near(r, &h[i].clone());
                }
            }
            1 => {
                let i = r.below(h.len());
                h.remove(i);
            }
            2 => {
                let i = r.below(h.len());
                h.insert(i, if r.bool() { "+".into() } else { level(r) });
            }
            3 => {
                let i = r.below(h.len());
                if h[i] == "+" {
                    h[i] = level(r);
                }
            }
            4 => h = filter_levels(r),
            _ => {
                if let Some(l) = h.last_mut() {
                    if l == "#" {
                        *l = "+".into();
                    }
                }
            }
        }
        let sh = h.join("/");
        if ref_valid_filter(&sh) && (!cover(cx, &sa, &sh) || !cover(cx, &sh, &sa) || !cover(cx, &sg, &sh) || !cover(cx, &sg, &sa)) {
            return;
        }
    }
}

/// The reference for covering against the one for matching, on all short topics: a check of the check.
fn cov_self(cx: &mut Cx) {
    let fs = &lists(false).filters;
    // q stands for letters in no filter
    let fs: Vec<&String> = fs.iter().filter(|f| f.len() <= 4 && !f.contains('é')).collect();
    let n = fs.len();
    if cx.idx as usize >= n {
        return;
    }
    let a = fs[cx.idx as usize];
    let ts: Vec<String> = lists(false).topics.iter().filter(|t| t.len() <= 4).map(|t| t.replace('é', "q")).collect();
    for b in &fs {
        let want = ts.iter().all(|t| t.starts_with('$') || !ref_matches(t, a) || ref_matches(t, b));
        if want != ref_covered(a, b) {
            panic!("reference for covering is wrong on {:?} {:?}: {}", a, b, want);
        }
        cx.ev("reference checked against itself");
    }
}

// --- C23 ---------------------------------------------------------------------------------------------------------

fn valid(cx: &mut Cx, s: &str) -> bool {
    let (f, t, w) = tgt(|| (valid_filter(s), valid_topic(s), has_wildcards(s)));
    let (rf, rw) = (ref_valid_filter(s), wild(s));
    if f != rf {
        cx.fail(format!("valid_filter({:?}) is {}, the standard says {}", short(s), f, rf));
        return false;
    }
    if t != !rw {
        cx.fail(format!("valid_topic({:?}) is {}", short(s), t));
        return false;
    }
    if w != rw {
        cx.fail(format!("has_wildcards({:?}) is {}", short(s), w));
        return false;
    }
    cx.ev(if f { "valid filters" } else { "invalid filters" });
    cx.ev(if t { "valid topics" } else { "invalid topics" });
    if t {
        let m = tgt(|| matches(s, s));
        if m == s.starts_with('$') {
            cx.fail(format!("matches of {:?} with itself is {}", short(s), m));
            return false;
        }
        cx.ev("topics matched with themselves");
    }
    true
}

fn val_small(cx: &mut Cx) {
    // blocks of strings
    let n = if cx.thorough() { UP_TO[7] } else { UP_TO[6] };
    for i in cx.idx * 64..(cx.idx * 64 + 64).min(n) {
        let s = nth(i);
        if !valid(cx, &s) {
            return;
        }
        cx.seen(mix(i));
    }
}

fn val_pairs(cx: &mut Cx) {
    // A topic used as a filter matches only itself
    let ts = &lists(cx.thorough()).topics;
    let r = &mut cx.rng;
    let a = &ts[r.below(ts.len())];
    for b in ts.iter().take(if cx.thorough() { usize::MAX } else { 1500 }) {
        let m = tgt(|| matches(b, a));
        if m != (a == b && !a.starts_with('$')) {
            return cx.fail(format!("matches({:?}, {:?}) is {}", b, a, m));
        }
        cx.ev("topics compared");
    }
    cx.seen(hash(a.as_bytes()) ^ 99);
}

/// Long texts, with wildcards in every kind of place.
fn val_long(cx: &mut Cx) {
    let r = &mut cx.rng;
    let n = *r.pick(&[255, 256, 1024, 4095, 4096, 8192, 16384, 32768, 65535, r.clone().below(70_000)]);
    let sep = *r.pick(&["", "/", "x/", "é"]);
    let one = format!("{}{}", *r.pick(&["x", "é", "$", "/"]), sep);
    let mut c: Vec<char> = one.repeat(n / one.len() + 1).chars().collect();
    for _ in 0..r.below(3) {
        let i = *r.pick(&[0, 1, c.len() / 2, c.len() - 2, c.len() - 1, r.clone().below(c.len())]);
        match r.below(4) {
            0 => c[i] = '+',
            1 => c[i] = '#',
            2 => c.insert(i, '+'),
            _ => c.insert(i, '/'),
        }
    }
    let s: String = c.into_iter().collect();
    let s = format!("{}{}", s, r_wild(r));
    cx.seen(hash(s.as_bytes()));
    if valid(cx, &s) {
        cx.ev("long texts");
    }
}

fn val_random(cx: &mut Cx) {
    let r = &mut cx.rng;
    let mut v = filter_levels(r);
    let k = r.below(3);
    for _ in 0..k {
        let i = r.below(v.len());
        match r.below(10) {
            0 => v[i] = "#".into(),
            1 => v[i].push('#'),
            2 => v[i].push('+'),
            3 => v[i].insert(0, '+'),
            4 => v[i].insert(0, '#'),
            5 => v[i] = "++".into(),
            6 => v[i] = r.pick(&["##", "+#", "#+", "+é", "é#", "é", " +", "+\0", "＋", "＃", "+\u{301}"]).to_string(),
            7 => v.insert(i, String::new()),
            8 => {
                let n = v.len();
                v.swap(i, n - 1)
            }
            _ => {
                let l = v[i].len();
                let mut p = r.below(l + 1);
                while !v[i].is_char_boundary(p) {
                    p -= 1;
                }
                v[i].insert(p, if r.bool() { '+' } else { '#' });
            }
        }
    }
    let s = v.join("/");
    cx.seen_bytes(s.as_bytes());
    if v.len() > 50 {
        cx.ev("deep filters");
    }
    cx.sample(|| format!("{:?}: filter {} topic {}", short(&s), ref_valid_filter(&s), !wild(&s)));
    if !valid(cx, &s) {
        return;
    }
    let t = topic_for(&mut cx.rng, &v).join("/");
    let t: String = t.chars().filter(|c| !matches!(c, '+' | '#')).collect();
    if !valid(cx, &t) {
        return;
    }
    // topics used as filters: exactly themselves
    let o = near(&mut cx.rng, &clean(&t.replace('/', "\u{1}"))).replace('\u{1}', "/");
    if !wild(&o) && !wild(&t) {
        let m = tgt(|| matches(&o, &t));
        if m != (o == t && !t.starts_with('$')) {
            return cx.fail(format!("matches({:?}, {:?}) is {}", short(&o), short(&t), m));
        }
        cx.ev("topics compared");
    }
}

pub fn checks() -> Vec<Check> {
    // at least the number of filters; cases beyond do nothing
    let nf = UP_TO[5];
    let nft = UP_TO[6];
    vec![
        Check {
            id: "C21",
            rule: "All pairs of a topic name and a valid filter of up to five (thorough: six) characters over {a b / + # $ e-acute}; random filters of up to a thousand levels in many scripts with topics built to match and then changed a little; topics of 65535 levels; arbitrary texts for totality. Distinct by pair (enumerated ones by filter).",
            workloads: vec![
                wl("small", nf, nft, mat_small),
                wl("random", 250_000, 25_000_000, mat_random),
                wl("any text", 200_000, 10_000_000, mat_any),
                heavy("deep", 400, 4_000, mat_deep),
            ],
            require: vec![
                ("matches", 100_000),
                ("mismatches", 100_000),
                ("deep filters", 1_000),
                ("topics beyond ASCII", 10_000),
                ("topics beginning with $", 1_000),
                ("arbitrary texts", 10_000),
            ],
            assumptions: vec![],
            exhaustive: "all topic names and valid filters of up to five (thorough: six) characters over a seven-letter alphabet",
        },
        Check {
            id: "C22",
            rule: "All pairs of valid filters of up to five (thorough: six) characters over {a b / + # $ e-acute} and all their generalisations; random filters, generalisations and near misses. A yes is compared with inclusion of the matched topics, itself checked against matching on all short topics. Distinct by first filter.",
            workloads: vec![
                wl("reference", 300, 300, cov_self),
                wl("small", nf, nft, cov_small),
                wl("random", 150_000, 15_000_000, cov_random),
            ],
            require: vec![
                ("covering answered yes", 100_000),
                ("covering answered no", 100_000),
                ("generalisations covered", 100_000),
                ("deep filters", 1_000),
                ("reference checked against itself", 1_000),
            ],
            assumptions: vec![],
            exhaustive: "all pairs of valid filters of up to five (thorough: six) characters over a seven-letter alphabet",
        },
        Check {
            id: "C23",
            rule: "All strings of up to six (thorough: seven) characters over {a b / + # $ e-acute}; random valid filters damaged by wildcards in wrong places, in many scripts; topics used as filters against themselves and near misses. Distinct by string.",
            workloads: vec![
                wl("small", UP_TO[6].div_ceil(64), UP_TO[7].div_ceil(64), val_small),
                wl("pairs", 2_000, 20_000, val_pairs),
                wl("random", 300_000, 25_000_000, val_random),
                heavy("long", 2_000, 50_000, val_long),
            ],
            require: vec![
                ("valid filters", 10_000),
                ("invalid filters", 100_000),
                ("valid topics", 10_000),
                ("invalid topics", 100_000),
                ("topics matched with themselves", 10_000),
                ("topics compared", 100_000),
                ("deep filters", 1_000),
            ],
            assumptions: vec![],
            exhaustive: "all strings of up to six (thorough: seven) characters over a seven-letter alphabet",
        },
    ]
}
