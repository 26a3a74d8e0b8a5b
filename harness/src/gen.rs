//! Generators: packets in the reference model, boundary-biased, with values harvested from the source under test, and
//! mutations of encoded packets.

use crate::refm::*;
use crate::rng::Rng;
use std::sync::OnceLock;

// --- autodictionary ----------------------------------------------------------------------------------------------

pub struct Dict {
    pub ints: Vec<u64>,
    pub strs: Vec<Vec<u8>>,
}

fn harvest(src: &str, d: &mut Dict) {
    let b = src.as_bytes();
    let mut i = 0;
    while i < b.len() {
        match b[i] {
            b'/' if b.get(i + 1) == Some(&b'/') => {
                while i < b.len() && b[i] != b'\n' {
                    i += 1;
                }
            }
            b'"' => {
                let mut v = vec![];
                i += 1;
                while i < b.len() && b[i] != b'"' {
                    if b[i] == b'\\' && i + 1 < b.len() {
                        i += 1;
                        match b[i] {
                            b'n' => v.push(b'\n'),
                            b't' => v.push(b'\t'),
                            b'r' => v.push(b'\r'),
                            b'0' => v.push(0),
                            b'x' => {
                                let h = b.get(i + 1..i + 3).and_then(|h| std::str::from_utf8(h).ok());
                                if let Some(x) = h.and_then(|h| u8::from_str_radix(h, 16).ok()) {
                                    v.push(x);
                                    i += 2;
                                }
                            }
                            c => v.push(c),
                        }
                    } else {
                        v.push(b[i]);
                    }
                    i += 1;
                }
                i += 1;
                if !v.is_empty() && v.len() <= 64 {
                    d.strs.push(v);
                }
            }
            b'\'' => {
                // a character literal, unless it is a lifetime
                let rest = &src[i + 1..];
                let mut it = rest.chars();
                if let Some(c) = it.next() {
                    if c != '\\' && it.next() == Some('\'') {
                        d.strs.push(c.to_string().into_bytes());
                        i += c.len_utf8() + 2;
                        continue;
                    }
                }
                i += 1;
            }
            b'0'..=b'9' => {
                let s = i;
                while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') {
                    i += 1;
                }
                let t: String = src[s..i].chars().filter(|c| *c != '_').collect();
                let t = t.as_str();
                let mut v = None;
                for suf in ["", "u8", "u16", "u32", "u64", "usize", "i32", "i64", "isize"] {
                    if let Some(t) = t.strip_suffix(suf) {
                        v = if let Some(h) = t.strip_prefix("0x") {
                            u64::from_str_radix(h, 16).ok()
                        } else if let Some(h) = t.strip_prefix("0b") {
                            u64::from_str_radix(h, 2).ok()
                        } else {
                            t.parse().ok()
                        };
                        if v.is_some() {
                            break;
                        }
                    }
                }
                if let Some(v) = v {
                    d.ints.push(v);
                }
            }
            c if c.is_ascii_alphabetic() || c == b'_' => {
                // identifiers, so that digits inside them do not count
                while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') {
                    i += 1;
                }
            }
            _ => i += 1,
        }
    }
}

fn walk(p: &std::path::Path, d: &mut Dict) {
    if let Ok(rd) = std::fs::read_dir(p) {
        let mut v: Vec<_> = rd.filter_map(|e| e.ok()).map(|e| e.path()).collect();
        v.sort();
        for p in v {
            if p.is_dir() {
                walk(&p, d);
            } else if p.extension().map(|e| e == "rs").unwrap_or(false) {
                if let Ok(s) = std::fs::read_to_string(&p) {
                    let cutoff = ["#[cfg(test)]", "mod test"].iter().filter_map(|m| s.find(m)).min();
                    harvest(&s[..cutoff.unwrap_or(s.len())], d);
                }
            }
        }
    }
}

thread_local! {
    static PLAIN: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// From here on, this thread generates without the dictionary of the sources and without large frames, so that an
/// interpreter can follow.
pub fn plainly(on: bool) {
    PLAIN.with(|p| p.set(on))
}

fn plain() -> bool {
    cfg!(miri) || PLAIN.with(|p| p.get())
}

pub fn dict() -> &'static Dict {
    static D: [OnceLock<Dict>; 2] = [const { OnceLock::new() }; 2];
    let plain = plain();
    D[plain as usize].get_or_init(|| {
        let mut d = Dict { ints: vec![], strs: vec![] };
        if !plain {
            walk(std::path::Path::new("/repo/src"), &mut d);
        }
        d.ints.extend([0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 31, 32, 63, 64, 100, 127, 128, 255, 256, 511, 512, 1000, 1023, 1024, 4095, 4096, 16383, 16384, 32767, 32768, 65535]);
        for s in ["$SYS", "$share/", "/", "a", "MQTT", "MQIsdp", "\u{feff}", "mqtt"] {
            d.strs.push(s.as_bytes().to_vec());
        }
        d.ints.sort_unstable();
        d.ints.dedup();
        d.strs.sort();
        d.strs.dedup();
        d
    })
}

// --- packets -----------------------------------------------------------------------------------------------------

/// Characters at the edges of the UTF-8 encoding classes and some ordinary ones.
pub const EDGE_CHARS: &[char] = &[
    '\u{1}', '\u{7f}', '\u{80}', '\u{7ff}', '\u{800}', '\u{fff}', '\u{1000}', '\u{d7ff}', '\u{e000}', '\u{fdd0}',
    '\u{feff}', '\u{fffd}', '\u{ffff}', '\u{10000}', '\u{1f600}', '\u{10ffff}', 'é', 'ß', '中', '\u{301}', '\u{200d}',
    '\t', '\n', ' ', '"', '\\', '\'', '\u{202e}',
];

/// Pieces of text that well-meaning code likes to change: whitespace, line ends, separators, escapes, prefixes with a
/// meaning elsewhere, numbers in unusual forms, composed and decomposed characters.
pub const ODD: &[&str] = &[
    " ", "  ", "\t", "\r", "\n", "\r\n", "\u{a0}", "\u{3000}", "\u{85}", "\u{2028}", "\u{feff}", "\u{200b}", "\u{200d}", "\u{ad}", "/", "//", "///", "\\", "\\\\",
    "\"", "'", "`", ".", "..", "../", "./", "$", "$SYS/", "$share/", "$share/g/", "$queue/", "%20", "%2F", "%00", "&amp;", "\\n", "\\u0000", "0", "00", "007", "+1", "-0",
    "1e3", "0x1", "e\u{301}", "\u{e9}", "\u{1e9e}", "\u{df}", "\u{130}", "i\u{307}", "\u{fb01}", "\u{2126}", "\u{3a9}", "\u{1f468}\u{200d}\u{1f469}", "\u{fffd}", "?", "A", "Z",
    "null", "NULL", "nil", "None", "true", "MQTT", "MQIsdp", "mqtt", ":", ";", ",", "=", "|", "~", "*", "@", "\u{1b}[0m", "\u{7f}", "\u{1}",
];

pub struct Gen<'a> {
    pub r: &'a mut Rng,
    /// Strings used so far, some of which are used again
    pool: Vec<String>,
    /// Only values a conforming peer may send
    pub conf: bool,
    /// 3.1.1 CONNECTs among the version 5 packets
    pub l4: bool,
    budget: usize,
}

impl<'a> Gen<'a> {
    pub fn new(r: &'a mut Rng, conf: bool) -> Gen<'a> {
        let budget = match r.below(200) {
            0 => 300_000,
            1..=8 => 70_000,
            9..=30 => 4_000,
            _ => 600,
        };
        let budget = if PLAIN.with(|p| p.get()) { 40 } else { budget };
        Gen { r, pool: vec![], conf, l4: false, budget }
    }
    pub fn l4(mut self) -> Self {
        self.l4 = true;
        self
    }
    pub fn budget(mut self, n: usize) -> Self {
        self.budget = if PLAIN.with(|p| p.get()) { n.min(40) } else { n };
        self
    }

    fn dint(&mut self) -> u64 {
        let v = *self.r.pick(&dict().ints);
        match self.r.below(5) {
            0 => v.wrapping_add(1),
            1 => v.saturating_sub(1),
            _ => v,
        }
    }
    pub fn len(&mut self, max: usize) -> usize {
        let n = match self.r.below(100) {
            0..=9 => 0,
            10..=19 => 1,
            20..=64 => self.r.below(40),
            65..=79 => self.r.below(300),
            80..=87 => self.r.range(120, 135),
            88 => self.r.range(250, 260),
            89 => {
                let k = self.r.range(6, 15);
                (1 << k) + self.r.below(1 << k)
            }
            90..=91 => self.r.range(16370, 16390),
            92 => self.r.range(65525, 65535),
            _ => self.dint() as usize % 65536,
        };
        let n = n.min(max);
        let n = if n > self.budget { self.r.below(self.budget.min(60) + 1) } else { n };
        self.budget -= n;
        n
    }
    pub fn count(&mut self) -> usize {
        let n = match self.r.below(100) {
            0..=24 => 1,
            25..=49 => 2,
            50..=84 => self.r.range(1, 6),
            85..=94 => self.r.range(1, 40),
            95..=96 => self.r.range(100, 300),
            _ => (self.dint() % 400) as usize,
        };
        n.clamp(1, self.budget / 8 + 1)
    }
    pub fn u8(&mut self) -> u8 {
        match self.r.below(4) {
            0 => *self.r.pick(&[0, 1, 2, 127, 128, 254, 255]),
            1 => self.dint() as u8,
            _ => self.r.next() as u8,
        }
    }
    pub fn u16(&mut self) -> u16 {
        match self.r.below(8) {
            0 => *self.r.pick(&[0, 1, 2, 255, 256, 257, 32767, 32768, 65534, 65535]),
            1 | 2 => self.dint() as u16,
            3 => self.r.below(300) as u16,
            4 => (self.r.below(256) << 8) as u16,
            _ => self.r.next() as u16,
        }
    }
    pub fn pkid(&mut self) -> u16 {
        let p = self.u16();
        if p == 0 {
            1
        } else {
            p
        }
    }
    fn pkid0(&mut self) -> u16 {
        if self.conf {
            self.pkid()
        } else {
            self.u16()
        }
    }
    pub fn u32(&mut self) -> u32 {
        match self.r.below(8) {
            0 => *self.r.pick(&[0, 1, 255, 256, 65535, 65536, 0xFFFFFF, 0x1000000, 0x7FFFFFFF, 0x80000000, u32::MAX - 1, u32::MAX]),
            1 | 2 => self.dint() as u32,
            3 => 1 << self.r.below(32),
            4 => self.r.below(70000) as u32,
            _ => self.r.next() as u32,
        }
    }
    /// A value for a variable byte integer
    pub fn vbi(&mut self) -> u32 {
        let n = match self.r.below(6) {
            0 => *self.r.pick(&[0, 1, 127, 128, 16383, 16384, 2097151, 2097152, 268435454, 268435455]),
            1 => self.dint() as u32 % 268435456,
            2 => self.r.below(300) as u32,
            3 => self.r.below(20000) as u32,
            4 => self.r.range(2097100, 2097200) as u32,
            _ => self.r.below(268435456) as u32,
        };
        if self.conf {
            n.max(1)
        } else {
            n
        }
    }
    fn flag(&mut self) -> u8 {
        if self.conf || self.r.p(3, 4) {
            self.r.below(2) as u8
        } else {
            self.u8()
        }
    }

    pub fn bin_n(&mut self, n: usize) -> Vec<u8> {
        let mut v = vec![0; n];
        match self.r.below(6) {
            0 => {}
            1 => v.fill(0xFF),
            2 => v.fill(self.r.next() as u8),
            3 if n > 0 => {
                // pieces of the source and of packets
                let mut w = vec![];
                while w.len() < n {
                    let s = self.r.pick(&dict().strs).clone();
                    w.extend_from_slice(&s);
                    w.push(self.r.next() as u8);
                }
                v.copy_from_slice(&w[..n]);
            }
            _ => self.r.fill(&mut v),
        }
        if self.r.p(1, 6) {
            // beginnings and ends that mean something elsewhere
            let a = *self.r.pick(MAGIC);
            if n >= a.len() {
                v[..a.len()].copy_from_slice(a);
            }
            let z = *self.r.pick(&[&b"}"[..], b"\n", b"\r\n", b"\0", b"]", b"\0\0\0\0", b" ", b">"]);
            if n >= a.len() + z.len() && self.r.bool() {
                v[n - z.len()..].copy_from_slice(z);
            }
        }
        v
    }
    pub fn bin(&mut self) -> Vec<u8> {
        let n = self.len(65535);
        self.bin_n(n)
    }

    fn ch(&mut self, style: usize) -> char {
        match style {
            0 | 1 => (b'a' + self.r.below(26) as u8) as char,
            2 => (0x20 + self.r.below(95) as u8) as char,
            3 => *self.r.pick(EDGE_CHARS),
            4 => loop {
                if let Some(c) = char::from_u32(self.r.below(0x110000) as u32) {
                    break c;
                }
            },
            5 => char::from_u32(0x400 + self.r.below(0x100) as u32).unwrap(),
            6 => *self.r.pick(&['0', '1', '/', '$', '+', '#', '-', '_', 'A', 'Z']),
            _ => 'x',
        }
    }
    /// Exactly n bytes of text without U+0000.
    pub fn text_n(&mut self, n: usize) -> String {
        let style = self.r.below(8);
        let mut s = String::with_capacity(n);
        let big = n > 2000;
        let unit: String = if big {
            // long text out of repeated pieces
            (0..50).map(|_| self.ch(style)).filter(|c| *c != '\0').collect()
        } else {
            String::new()
        };
        while s.len() < n {
            if big && s.len() + unit.len() <= n {
                s.push_str(&unit);
                continue;
            }
            let c = self.ch(style);
            if c == '\0' {
                continue;
            }
            if s.len() + c.len_utf8() <= n {
                s.push(c);
            } else {
                s.push('~');
            }
        }
        s
    }
    pub fn text(&mut self) -> String {
        if !self.pool.is_empty() && self.r.p(1, 8) {
            let s = self.r.pick(&self.pool).clone();
            if s.len() <= self.budget {
                self.budget -= s.len();
                return s;
            }
        }
        let s = if self.r.p(1, 8) {
            let mut t = self.r.pick(&dict().strs).clone();
            if self.r.p(1, 3) {
                let n = self.r.below(4);
                t.extend_from_slice(self.text_n(n).as_bytes());
            }
            let mut t = String::from_utf8_lossy(&t).into_owned();
            t.retain(|c| c != '\0');
            if t.len() > self.budget {
                t.clear();
            }
            self.budget -= t.len();
            t
        } else if self.r.p(1, 9) {
            self.odd()
        } else {
            let n = self.len(65535);
            self.text_n(n)
        };
        if s.len() < 300 {
            self.pool.push(s.clone());
        }
        if !self.conf && s.len() < 65535 && self.r.p(1, 60) {
            return format!("{}\0", s);
        }
        s
    }
    /// Odd pieces around and within a short text.
    fn odd(&mut self) -> String {
        if self.budget < 60 {
            return String::new();
        }
        let n = self.r.below(6);
        let mut s = self.text_n(n);
        for _ in 0..self.r.range(1, 3) {
            let o = *self.r.pick(ODD);
            let at = match self.r.below(3) {
                0 => 0,
                1 => s.len(),
                _ => {
                    let k = self.r.below(n + 1);
                    s.char_indices().nth(k).map_or(s.len(), |c| c.0)
                }
            };
            s.insert_str(at, o);
        }
        self.budget -= s.len().min(self.budget);
        s
    }
    /// Text that is not empty
    pub fn text1(&mut self) -> String {
        let s = self.text();
        if s.is_empty() {
            "t".to_string()
        } else {
            s
        }
    }
    pub fn topic(&mut self) -> String {
        if !self.conf && self.r.p(1, 20) {
            return self.text();
        }
        let s = if self.r.p(1, 3) {
            let n = self.r.range(1, 5);
            let mut v = vec![];
            for _ in 0..n {
                let k = self.r.below(5);
                v.push(self.text_n(k));
            }
            v.join("/")
        } else {
            self.text1()
        };
        let s: String = s.chars().map(|c| if c == '+' || c == '#' { '.' } else { c }).collect();
        if s.is_empty() {
            "/".to_string()
        } else {
            s
        }
    }
    pub fn filter(&mut self) -> String {
        if !self.conf && self.r.p(1, 20) {
            return self.text();
        }
        if self.r.p(1, 2) {
            let t = self.topic();
            // lenient text may hold wildcards anywhere
            return t.chars().map(|c| if c == '+' || c == '#' { '.' } else { c }).collect::<String>();
        }
        let n = self.r.range(1, 5);
        let mut v: Vec<String> = vec![];
        for _ in 0..n {
            if self.r.p(1, 3) {
                v.push("+".into());
            } else {
                let k = self.r.below(5);
                v.push(self.text_n(k).chars().map(|c| if "+#/".contains(c) { '.' } else { c }).collect());
            }
        }
        if self.r.p(1, 3) {
            v.push("#".into());
        }
        let s = v.join("/");
        if s.is_empty() {
            "#".into()
        } else {
            s
        }
    }

    pub fn value(&mut self, loc: Loc, id: u8) -> PV {
        let c = self.conf;
        match ptype(id).unwrap() {
            PT::B => PV::B(self.flag()),
            PT::W => {
                let v = self.u16();
                PV::W(if c && (id == 0x21 || id == 0x23) { v.max(1) } else { v })
            }
            PT::D => {
                let v = self.u32();
                PV::D(if c && id == 0x27 { v.max(1) } else { v })
            }
            PT::V => PV::V(self.vbi()),
            PT::S => PV::S(match id {
                0x08 => self.topic(),
                _ => self.text(),
            }),
            PT::X => PV::X(self.bin()),
            PT::P => {
                let k = self.text();
                let v = self.text();
                let _ = loc;
                PV::P(k, v)
            }
        }
    }
    fn fix(&mut self, p: &mut Props) {
        // authentication data needs a method
        if self.conf && p.iter().any(|x| x.0 == 0x16) && !p.iter().any(|x| x.0 == 0x15) {
            let s = self.text();
            p.push((0x15, PV::S(s)));
        }
        p.sort_by_key(|x| x.0);
    }
    /// Exactly the properties whose bit is set in mask (by position in `allowed`).
    pub fn props_mask(&mut self, loc: Loc, mask: u32) -> Props {
        let mut p = vec![];
        for (i, id) in allowed(loc).iter().enumerate() {
            if mask >> i & 1 == 1 {
                let v = self.value(loc, *id);
                p.push((*id, v));
            }
        }
        self.fix(&mut p);
        p
    }
    pub fn props(&mut self, loc: Loc) -> Props {
        let dens = *self.r.pick(&[0, 0, 15, 30, 50, 80, 100]);
        let mut p: Props = vec![];
        for id in allowed(loc) {
            if self.r.below(100) < dens {
                let n = if repeatable(loc, *id) { self.count() } else { 1 };
                for k in 0..n {
                    let v = if k > 0 && self.r.p(1, 6) { p.last().unwrap().1.clone() } else { self.value(loc, *id) };
                    p.push((*id, v));
                }
            }
        }
        self.fix(&mut p);
        p
    }

    pub fn conn(&mut self, level: u8) -> Conn {
        let l5 = level == 5;
        let client_id = self.text();
        let will = if self.r.bool() {
            let props = if l5 { self.props(Loc::Will) } else { vec![] };
            Some(Will { props, topic: self.topic(), msg: self.bin(), qos: self.r.below(3) as u8, retain: self.r.bool() })
        } else {
            None
        };
        let user = if self.r.bool() { self.text() } else { String::new() };
        let pass = if self.r.bool() { self.text() } else { String::new() };
        Conn {
            level,
            clean: self.r.bool() || (self.conf && client_id.is_empty()),
            keep_alive: self.u16(),
            props: if l5 { self.props(Loc::Connect) } else { vec![] },
            client_id,
            will,
            user,
            pass,
        }
    }

    pub fn packet(&mut self, ver: Ver) -> Pk {
        let ty = *self.r.pick(&[1, 1, 1, 1, 2, 2, 3, 3, 3, 3, 3, 4, 4, 5, 5, 6, 6, 7, 7, 8, 8, 8, 9, 9, 10, 10, 11, 11, 12, 13, 14, 14]);
        self.packet_of(ver, ty)
    }
    /// Like `packet`, without the types that have no content.
    pub fn packet_big(&mut self, ver: Ver) -> Pk {
        let ty = *self.r.pick(if ver == Ver::V5 { &[1u8, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 14][..] } else { &[1, 3, 8, 9, 10][..] });
        self.packet_of(ver, ty)
    }

    pub fn packet_of(&mut self, ver: Ver, ty: u8) -> Pk {
        let v5 = ver == Ver::V5;
        let props = match loc_of(ty) {
            Some(l) if v5 && ty != 1 => self.props(l),
            _ => vec![],
        };
        match ty {
            1 => {
                let level = if v5 && !(self.l4 && self.r.p(1, 6)) { 5 } else { 4 };
                Pk::Connect(self.conn(level))
            }
            2 => {
                let code = *self.r.pick(codes(ver, 2));
                let sp = self.r.bool() && (code == 0 || !self.conf);
                Pk::ConnAck { sp, code: if self.r.p(1, 3) { 0 } else { code }, props }
            }
            3 => {
                let qos = self.r.below(3) as u8;
                let mut topic = self.topic();
                if v5 && props.iter().any(|p| p.0 == 0x23) && self.r.bool() {
                    topic.clear();
                }
                Pk::Publish {
                    dup: self.r.bool() && (qos > 0 || !self.conf),
                    qos,
                    retain: self.r.bool(),
                    topic,
                    pkid: if qos > 0 { self.pkid() } else { 0 },
                    props,
                    payload: {
                        let n = if self.r.p(1, 50) { self.len(300_000) + self.len(300_000) } else { self.len(300_000) };
                        self.bin_n(n)
                    },
                }
            }
            4..=7 => {
                let mut reason = *self.r.pick(if v5 { codes(ver, ty) } else { &[0u8] });
                if self.r.p(1, 3) {
                    reason = 0;
                }
                Pk::Ack { ty, pkid: self.pkid0(), reason, props }
            }
            8 => {
                let n = self.count();
                let mut filters: Vec<(String, u8)> = vec![];
                for _ in 0..n {
                    let s = if self.r.p(1, 10) && !filters.is_empty() { filters.last().unwrap().0.clone() } else { self.filter() };
                    let mut o = self.r.below(3) as u8;
                    if v5 {
                        o |= (self.r.below(4) as u8) << 2 | (self.r.below(3) as u8) << 4;
                        if s.starts_with("$share/") && self.conf {
                            o &= !4;
                        }
                    }
                    filters.push((s, o));
                }
                Pk::Subscribe { pkid: self.pkid0(), props, filters }
            }
            9 => {
                let n = self.count();
                let codes = (0..n).map(|_| *self.r.pick(codes(ver, 9))).collect();
                Pk::SubAck { pkid: self.pkid0(), props, codes }
            }
            10 => {
                let n = self.count();
                let filters = (0..n).map(|_| self.filter()).collect();
                Pk::Unsubscribe { pkid: self.pkid0(), props, filters }
            }
            11 => {
                let n = self.count();
                let codes = if v5 { (0..n).map(|_| *self.r.pick(codes(ver, 11))).collect() } else { vec![] };
                Pk::UnsubAck { pkid: self.pkid0(), props, codes }
            }
            12 => Pk::PingReq,
            13 => Pk::PingResp,
            _ => Pk::Disconnect {
                reason: if v5 && self.r.p(2, 3) { *self.r.pick(codes(ver, 14)) } else { 0 },
                props,
            },
        }
    }
}

/// Pads a packet so that its remaining length (kind 0) or property length (kind 1) is exactly `target`; false if the
/// packet is too long already or has no room to stretch.
pub fn stretch(ver: Ver, pk: &mut Pk, kind: u8, target: usize) -> bool {
    let cur = if kind == 1 {
        if ver == Ver::V4 || matches!(pk, Pk::Connect(c) if c.level == 4) {
            return false;
        }
        match pk.props() {
            Some(p) => {
                let n = encode_props(p).len();
                n - varint_field_len(n)
            }
            None => return false,
        }
    } else {
        let e = encode(ver, pk, Form::default());
        e.bytes.len() - match framing(&e.bytes) {
            Fr::Known(h, _) => h,
            _ => unreachable!(),
        }
    };
    if cur == target {
        return true;
    }
    if cur > target {
        return false;
    }
    let mut need = target - cur;
    if kind == 0 {
        if let Pk::Publish { payload, .. } = pk {
            payload.resize(payload.len() + need, b'.');
            return true;
        }
        if let Pk::SubAck { codes, .. } = pk {
            codes.resize(codes.len() + need, 1);
            return true;
        }
        match pk {
            Pk::Subscribe { filters, .. } => {
                while need > 0 {
                    if need < 4 {
                        // lengthen the last one
                        match filters.last_mut() {
                            Some(l) if l.0.len() + need <= 65535 => longer(&mut l.0, need),
                            _ => return false,
                        }
                        return true;
                    }
                    let mut k = (need - 3).min(65000);
                    if need - 3 - k > 0 && need - 3 - k < 4 {
                        k -= 4;
                    }
                    filters.push(("f".repeat(k), 0));
                    need -= 3 + k;
                }
                return true;
            }
            Pk::Unsubscribe { filters, .. } => {
                while need > 0 {
                    if need < 3 {
                        match filters.last_mut() {
                            Some(l) if l.len() + need <= 65535 => longer(l, need),
                            _ => return false,
                        }
                        return true;
                    }
                    let mut k = (need - 2).min(65000);
                    if need - 2 - k > 0 && need - 2 - k < 3 {
                        k -= 3;
                    }
                    filters.push("f".repeat(k));
                    need -= 2 + k;
                }
                return true;
            }
            Pk::Connect(c) => {
                let k = need.min(65535 - c.client_id.len());
                c.client_id.push_str(&"c".repeat(k));
                need -= k;
                if need == 0 {
                    return true;
                }
                if let Some(w) = &mut c.will {
                    let k = need.min(65535 - w.msg.len());
                    w.msg.resize(w.msg.len() + k, 7);
                    need -= k;
                }
                return need == 0;
            }
            _ => {}
        }
        if ver == Ver::V4 {
            return false;
        }
        // the rest: through the properties; their length field may grow with it
        let p = match pk.props() {
            Some(p) => encode_props(p).len(),
            None => return false,
        };
        let cur_p = p - varint_field_len(p);
        for grow in 0..4 {
            if need < grow {
                break;
            }
            let t = cur_p + need - grow;
            if varint_len(t) == varint_len(cur_p) + grow {
                let mut q = pk.clone();
                if stretch(ver, &mut q, 1, t) {
                    *pk = q;
                    let e = encode(ver, pk, Form::default());
                    return matches!(framing(&e.bytes), Fr::Known(_, r) if r == target);
                }
            }
        }
        return false;
    }
    let p = pk.props_mut().unwrap();
    while need > 0 {
        if need < 5 {
            // lengthen a user property
            if let Some((_, PV::P(_, v))) = p.iter_mut().find(|x| matches!(&x.1, PV::P(_, v) if v.len() + need <= 65535)) {
                v.push_str(&"u".repeat(need));
                return true;
            }
            return false;
        }
        let mut k = (need - 5).min(65000);
        if need - 5 - k > 0 && need - 5 - k < 5 {
            k -= 5;
        }
        p.push((0x26, PV::P(String::new(), "u".repeat(k))));
        need -= 5 + k;
    }
    p.sort_by_key(|x| x.0);
    true
}

/// n more bytes at the front of a filter, which stays valid.
fn longer(s: &mut String, n: usize) {
    if s.starts_with(|c| c == '+' || c == '#') {
        s.insert(0, '/');
        s.insert_str(0, &"f".repeat(n - 1));
    } else {
        s.insert_str(0, &"f".repeat(n));
    }
}

/// Length of the variable byte integer at the start of a section of n bytes that it counts the rest of.
fn varint_field_len(n: usize) -> usize {
    (1..=4).find(|k| varint_len(n - k) == *k).unwrap()
}

/// A random legal spelling.
pub fn form(r: &mut Rng) -> Form {
    Form { ack: r.below(3) as u8, empty_user: r.p(1, 6), empty_pass: r.p(1, 6) }
}

/// Shuffles the property sections.
pub fn shuffle_props(r: &mut Rng, pk: &mut Pk) {
    fn sh(r: &mut Rng, p: &mut Props) {
        // equal ids keep their order: it is part of the meaning
        let sorted = p.clone();
        r.shuffle(p);
        let ids: Vec<u8> = p.iter().map(|x| x.0).collect();
        let mut used: Vec<(u8, usize)> = vec![];
        for (i, id) in ids.iter().enumerate() {
            let k = match used.iter_mut().find(|u| u.0 == *id) {
                Some(u) => {
                    u.1 += 1;
                    u.1
                }
                None => {
                    used.push((*id, 0));
                    0
                }
            };
            p[i] = sorted.iter().filter(|x| x.0 == *id).nth(k).unwrap().clone();
        }
    }
    if let Some(p) = pk.props_mut() {
        if p.len() < 60 {
            sh(r, p);
        }
    }
    if let Pk::Connect(c) = pk {
        if let Some(w) = &mut c.will {
            if w.props.len() < 60 {
                sh(r, &mut w.props);
            }
        }
    }
}

// --- mutations ---------------------------------------------------------------------------------------------------

/// Ill-formed UTF-8 of every kind.
pub const BAD_UTF8: &[&[u8]] = &[
    &[0x80],
    &[0xBF],
    &[0xC0, 0x80],
    &[0xC0, 0xAF],
    &[0xC1, 0xBF],
    &[0xC2],
    &[0xC2, 0x41],
    &[0xDF, 0xC0],
    &[0xE0, 0x80, 0x80],
    &[0xE0, 0x9F, 0xBF],
    &[0xE2, 0x82],
    &[0xE2, 0x28, 0xA1],
    &[0xE2, 0x82, 0x28],
    &[0xED, 0xA0, 0x80],
    &[0xED, 0xBF, 0xBF],
    &[0xEF, 0xBF],
    &[0xF0, 0x80, 0x80, 0x80],
    &[0xF0, 0x8F, 0xBF, 0xBF],
    &[0xF0, 0x90, 0x8D],
    &[0xF0, 0x28, 0x8C, 0xBC],
    &[0xF4, 0x90, 0x80, 0x80],
    &[0xF5, 0x80, 0x80, 0x80],
    &[0xF8, 0x88, 0x80, 0x80, 0x80],
    &[0xFC, 0x84, 0x80, 0x80, 0x80, 0x80],
    &[0xFE],
    &[0xFF],
    &[0xFF, 0xFE],
    &[0xF0, 0x90],
    &[0xF0],
    &[0xE1],
];

/// Replaces b[from..to] and fixes nothing else.
pub fn splice(b: &[u8], from: usize, to: usize, new: &[u8]) -> Vec<u8> {
    let mut v = b[..from].to_vec();
    v.extend_from_slice(new);
    v.extend_from_slice(&b[to..]);
    v
}

/// The frame with its remaining length field computed again (hl: length of the old fixed header).
pub fn reframe(b: &[u8], hl: usize) -> Vec<u8> {
    frame(b[0], &b[hl..])
}

pub fn header_len(e: &Enc) -> usize {
    e.spans[1].2
}

/// Some frame near a valid one. Complete: the remaining length is right.
pub fn mutate(r: &mut Rng, e: &Enc) -> Vec<u8> {
    let hl = header_len(e);
    let mut b = e.bytes.clone();
    let pick = |r: &mut Rng, k: &[Sp]| -> Option<(Sp, usize, usize)> {
        let c: Vec<_> = e.spans.iter().filter(|s| k.contains(&s.0)).copied().collect();
        if c.is_empty() {
            None
        } else {
            // early and late ones are more interesting than the middle of long lists
            Some(match r.below(4) {
                0 => c[0],
                1 => c[c.len() - 1],
                _ => *r.pick(&c),
            })
        }
    };
    let mut ops = 1 + r.below(3);
    // the first operation knows the structure
    match r.below(12) {
        0 => {
            if let Some((_, a, z)) = pick(r, &[Sp::LenPre]) {
                let old = b[a] as i64 * 256 + b[a + 1] as i64;
                let left = (b.len() - z) as i64;
                let d = *r.pick(&dict().ints) as i64;
                let n = *r.pick(&[0, old - 1, old + 1, old - 2, old + 2, 65535, left, left + 1, left - 1, d, old + d]);
                b[a..z].copy_from_slice(&(n.clamp(0, 65535) as u16).to_be_bytes());
            }
        }
        1 => {
            if let Some((_, a, z)) = pick(r, &[Sp::PropLen]) {
                let mut old = 0usize;
                for (i, x) in b[a..z].iter().enumerate() {
                    old |= (*x as usize & 127) << (7 * i);
                }
                let left = b.len() - z;
                let d = *r.pick(&dict().ints) as usize;
                let n = *r.pick(&[0, old.saturating_sub(1), old + 1, old + 2, old.saturating_sub(2), left, left + 1, 127, 128, 268435455, d, old + d, old.saturating_sub(d)]);
                let mut f = vec![];
                varint(n % 268435456, &mut f);
                if r.p(1, 6) {
                    *f.last_mut().unwrap() |= 0x80;
                    f.push(if r.bool() { 0 } else { 0x80 });
                }
                b = splice(&b, a, z, &f);
            }
        }
        2 => {
            if let Some((_, a, z)) = pick(r, &[Sp::Text]) {
                let bad = *r.pick(BAD_UTF8);
                if z - a >= bad.len() {
                    let at = *r.pick(&[a, z - bad.len(), a + r.clone().below(z - a - bad.len() + 1)]);
                    b[at..at + bad.len()].copy_from_slice(bad);
                }
            }
        }
        3 => {
            if let Some((_, a, _)) = pick(r, &[Sp::PropId]) {
                b[a] = if r.bool() { r.pick(PROPS).0 } else { r.next() as u8 };
            }
        }
        4 | 5 => {
            if let Some((_, a, z)) = pick(r, &[Sp::Code, Sp::Opts, Sp::Level, Sp::ConnFlags, Sp::AckFlags, Sp::Pkid, Sp::PropVal, Sp::Name]) {
                match r.below(3) {
                    0 => b[a..z].fill(0),
                    1 => b[a] = r.next() as u8,
                    _ => b[a] ^= 1 << r.below(8),
                }
            }
        }
        6 => {
            let (_, a, z) = *r.pick(&e.spans);
            let at = if r.bool() { z } else { r.range(a.min(z), z) };
            b.truncate(at.max(hl));
        }
        7 => {
            let (_, a, z) = *r.pick(&e.spans);
            if a >= hl {
                b = splice(&b, a, z, &[]);
            }
        }
        8 => {
            let (_, a, z) = *r.pick(&e.spans);
            if a >= hl && z - a < 2000 {
                let again = b[a..z].to_vec();
                b = splice(&b, z, z, &again);
            }
        }
        9 => {
            let s: Vec<_> = e.spans.iter().filter(|s| s.1 >= hl).collect();
            if s.len() > 1 {
                let (x, y) = (*s[r.below(s.len())], *s[r.below(s.len())]);
                if x.2 <= y.1 {
                    let mut v = b[..x.1].to_vec();
                    v.extend_from_slice(&b[y.1..y.2]);
                    v.extend_from_slice(&b[x.2..y.1]);
                    v.extend_from_slice(&b[x.1..x.2]);
                    v.extend_from_slice(&b[y.2..]);
                    b = v;
                }
            }
        }
        10 => {
            b[0] = match r.below(3) {
                0 => b[0] & 0xF0 | r.below(16) as u8,
                1 => (r.below(16) as u8) << 4 | b[0] & 15,
                _ => r.next() as u8,
            }
        }
        _ => ops += 1,
    }
    for _ in 1..ops {
        match r.below(5) {
            0 if b.len() > hl => {
                let i = r.range(hl, b.len() - 1);
                b[i] = r.next() as u8;
            }
            1 if b.len() > hl => {
                let i = r.range(hl, b.len() - 1);
                b[i] ^= 1 << r.below(8);
            }
            2 => {
                let i = r.range(hl, b.len());
                let n = r.range(1, 4);
                let mut v = vec![0; n];
                r.fill(&mut v);
                b = splice(&b, i, i, &v);
            }
            3 if b.len() > hl => {
                let i = r.range(hl, b.len() - 1);
                let n = r.range(1, 4).min(b.len() - i);
                b = splice(&b, i, i + n, &[]);
            }
            _ => {
                let n = r.range(1, 3);
                let mut v = vec![0; n];
                r.fill(&mut v);
                b.extend_from_slice(&v);
            }
        }
    }
    let mut out = reframe(&b, hl);
    if r.p(1, 25) {
        // longer form of the remaining length
        if let Fr::Known(h, n) = framing(&out) {
            if h < 5 {
                let mut f = vec![out[0]];
                varint(n, &mut f);
                *f.last_mut().unwrap() |= 0x80;
                f.push(0);
                f.extend_from_slice(&out[h..]);
                out = f;
            }
        }
    }
    out
}

/// A remaining length at which something may change: near powers of two and near the numbers in the source.
pub fn size(r: &mut Rng, max: usize) -> usize {
    loop {
        let n = match r.below(6) {
            0 => *r.pick(&[127, 128, 16383, 16384, 65535, 65536, 131071, 131072, 2097151, 2097152]),
            1 => (1 << r.range(6, 24)) + r.below(5) - 2,
            2 => (*r.pick(&dict().ints) as usize & 0xFFFFFFF) + r.below(5),
            3 => r.range(1, 64) * 65536 + r.below(5) - 2,
            4 => (1 << r.range(6, 22)) + (1 << r.range(2, 22)) + r.below(3) - 1,
            _ => {
                let k = r.range(7, 22);
                r.below(1 << k)
            }
        };
        if n <= max {
            return n;
        }
    }
}

/// A valid packet of a chosen remaining length.
pub fn sized_frame(r: &mut Rng, ver: Ver, max: usize) -> Vec<u8> {
    for _ in 0..10 {
        let target = size(r, max);
        let mut pk = if r.bool() {
            Gen::new(r, true).budget(60).packet_of(ver, 3)
        } else {
            let conf = r.bool();
            Gen::new(r, conf).budget(200).packet_big(ver)
        };
        if stretch(ver, &mut pk, 0, target) {
            return encode(ver, &pk, Form::default()).bytes;
        }
    }
    frame(0xC0, &[])
}

/// First bytes of compressed, encoded and marked up data, and of packets.
const MAGIC: &[&[u8]] = &[
    &[0x1F, 0x8B],
    &[0x1F, 0x8B, 8],
    b"PK\x03\x04",
    b"{",
    b"[",
    b"<",
    b"\xEF\xBB\xBF",
    b"\xFF\xFE",
    b"\xFE\xFF",
    b"\x89PNG",
    &[0x78, 0x9C],
    &[0x28, 0xB5, 0x2F, 0xFD],
    b"BZh",
    &[0, 4, b'M', b'Q', b'T', b'T'],
    &[0],
    &[0, 0, 0, 0],
    b" ",
    b"\n",
    b"$",
    b"0x",
    b"\"",
    &[0x30],
    &[0x10],
    &[0xC0, 0],
];

const LONG: &[usize] = &[255, 256, 257, 4095, 4096, 4097, 8191, 8192, 16_383, 16_384, 16_385, 32_767, 32_768, 32_769, 65_533, 65_534, 65_535];

/// Makes one or two of the texts and binary parts long, any of them.
pub fn lengthen(r: &mut Rng, pk: &mut Pk) -> bool {
    use crate::p_write::{fields, long_text, F};
    let n = fields(pk).len();
    if n == 0 {
        return false;
    }
    let second = r.below(2 * n);
    for i in [r.below(n), second] {
        if let Some(f) = fields(pk).into_iter().nth(i) {
            let len = match r.below(3) {
                0 => *r.pick(LONG),
                1 => {
                    let k = r.range(7, 15);
                    (1 << k) + r.below(1 << k)
                }
                _ => r.range(200, 65_535),
            };
            match f {
                F::S(s) => {
                    *s = long_text(r, len);
                    if r.bool() {
                        // not the same character everywhere
                        let at = s.char_indices().map(|c| c.0).nth(r.below(len / 4)).unwrap_or(0);
                        let c = s[at..].chars().next().map_or(0, |c| c.len_utf8());
                        s.replace_range(at..at + c, &"wxyz"[..c]);
                    }
                }
                F::X(x) => {
                    *x = vec![0; len];
                    r.fill(x);
                }
            }
        }
    }
    if let Pk::Connect(c) = pk {
        if c.level == 4 && c.user.is_empty() && !c.pass.is_empty() {
            c.user = "u".into();
        }
    }
    true
}

/// Puts one piece of text into any one of the texts: alone, in front, behind, in the middle, around.
pub fn oddly(r: &mut Rng, pk: &mut Pk, piece: &str) -> bool {
    use crate::p_write::{fields, F};
    let texts = |pk: &mut Pk| fields(pk).iter().enumerate().filter(|f| matches!(f.1, F::S(_))).map(|f| f.0).collect::<Vec<_>>();
    let t = texts(pk);
    if t.is_empty() {
        return false;
    }
    let i = *r.pick(&t);
    let wild = matches!(pk.ty(), 8 | 10);
    if let Some(F::S(s)) = fields(pk).into_iter().nth(i) {
        if s.len() > 60_000 || s.is_empty() {
            *s = "abcd".into();
        }
        // a filter stays one
        if wild || piece.contains('+') {
            *s = "abc".into();
        }
        let piece = &piece.replace('+', "-");
        let at = s.char_indices().map(|c| c.0).nth(r.below(s.chars().count())).unwrap_or(0);
        match r.below(6) {
            0 => *s = piece.into(),
            1 => *s = format!("{}{}", piece, s),
            2 => *s = format!("{}{}", s, piece),
            3 => *s = format!("{}{}{}", piece, s, piece),
            4 => *s = format!("{}{}", piece, piece),
            _ => s.insert_str(at, piece),
        }
        // no-local shared subscriptions are not allowed
        if wild && s.starts_with("$share/") {
            s.insert(0, '/');
        }
    }
    if let Pk::Connect(c) = pk {
        if c.level == 4 && c.user.is_empty() && !c.pass.is_empty() {
            c.user = "u".into();
        }
    }
    true
}

/// How many kinds of giants there are.
pub fn giants(ver: Ver) -> u64 {
    if ver == Ver::V4 {
        4
    } else {
        6 + crate::p_codec::PLACES.len() as u64
    }
}

/// A number of elements beyond what two bytes count.
fn very_many(r: &mut Rng) -> usize {
    match r.below(6) {
        0 => *r.pick(&[65_535, 65_536, 65_537, 65_538, 131_071, 131_072, 131_073]),
        1 => 65_536 + r.below(300),
        2 => 131_072 + r.below(70_000),
        3 => 262_144 + r.below(5),
        _ => r.range(65_600, 140_000),
    }
}

fn tiny(r: &mut Rng, i: usize) -> String {
    let c = |n: usize| (b'a' + (n % 26) as u8) as char;
    match r.below(400) {
        0 => Gen::new(r, true).budget(60).topic(),
        n if n < 40 => [c(i), c(i / 26), c(i / 676)].iter().collect(),
        _ => c(i).to_string(),
    }
}

/// A conforming packet with a payload of tens of megabytes (at most `top` bytes), or with a list of very many elements.
pub fn giant(r: &mut Rng, ver: Ver, kind: u64, top: usize) -> Pk {
    let v5 = ver == Ver::V5;
    let n = very_many(r);
    let pkid = r.range(1, 65535) as u16;
    let some = |r: &mut Rng, loc: Loc| if v5 && r.bool() { Gen::new(r, true).budget(40).props(loc) } else { vec![] };
    match kind {
        0 => {
            let k = r.range(24, 27);
            let n = match r.below(4) {
                0 => (1 << k) + r.below(5) - 2,
                1 => (1 << 24) - 5 + r.below(40),
                2 => r.range(1, 8) * (1 << 24) + r.below(70_000),
                _ => r.range(17 << 20, 40 << 20),
            };
            let mut payload = vec![0; n.min(top - r.below(40))];
            r.fill(&mut payload);
            let qos = r.below(3) as u8;
            let mut props = some(r, Loc::Publish);
            props.retain(|p| p.0 != 1);
            Pk::Publish { dup: false, qos, retain: r.bool(), topic: "giant".into(), pkid: if qos > 0 { pkid } else { 0 }, props, payload }
        }
        1 => {
            let filters = (0..n)
                .map(|i| {
                    let f = tiny(r, i);
                    let q = r.below(3) as u8;
                    // shared subscriptions are never no-local
                    let o = if f.starts_with('$') { 2 } else { 3 };
                    (f, if v5 { q | (r.below(4) as u8 & o) << 2 | (r.below(3) as u8) << 4 } else { q })
                })
                .collect();
            Pk::Subscribe { pkid, props: some(r, Loc::Subscribe), filters }
        }
        2 => Pk::Unsubscribe { pkid, props: some(r, Loc::Unsubscribe), filters: (0..n).map(|i| tiny(r, i)).collect() },
        3 => Pk::SubAck { pkid, props: some(r, Loc::SubAck), codes: (0..n).map(|_| *r.pick(codes(ver, 9))).collect() },
        4 => Pk::UnsubAck { pkid, props: some(r, Loc::UnsubAck), codes: (0..n).map(|_| *r.pick(codes(ver, 11))).collect() },
        5 => {
            let mut props: Props = (0..n).map(|_| (0x0B, PV::V(if r.p(1, 50) { r.range(1, 300_000) as u32 } else { r.range(1, 127) as u32 }))).collect();
            if r.bool() {
                props.push((0x26, PV::P("k".into(), "v".into())))
            }
            Pk::Publish { dup: false, qos: 0, retain: false, topic: "t".into(), pkid: 0, props, payload: vec![0x0B, 1, 2][..r.below(4)].to_vec() }
        }
        k => {
            let (loc, ty) = crate::p_codec::PLACES[(k - 6) as usize % crate::p_codec::PLACES.len()];
            let mut pk = Gen::new(r, true).budget(60).packet_of(ver, ty);
            let props: Props = (0..n)
                .map(|i| {
                    let (a, b) = (tiny(r, i), tiny(r, i / 2));
                    (0x26, PV::P(a, b))
                })
                .collect();
            match (&mut pk, loc) {
                (Pk::Connect(c), Loc::Will) => c.will = Some(Will { props, topic: "w".into(), msg: vec![0x26, 0], qos: 1, retain: false }),
                (pk, _) => *pk.props_mut().unwrap() = props,
            }
            if let Pk::Publish { topic, .. } = &mut pk {
                *topic = "t".into();
            }
            pk
        }
    }
}

/// A change near the end of a giant, or to its lengths; the rest of it stays well-formed.
pub fn late_change(r: &mut Rng, e: &Enc) -> Vec<u8> {
    let hl = header_len(e);
    let mut b = e.bytes.clone();
    let n = b.len();
    let late = &e.spans[e.spans.len().saturating_sub(12)..];
    let s = r.pick(late);
    let at = s.1.max(hl).min(n - 1);
    match r.below(6) {
        0 => {
            let k = r.range(1, 4);
            b = reframe(&b[..n - k], hl)
        }
        1 => {
            for _ in 0..r.range(1, 4) {
                b.push(*r.pick(&[0, 1, 0x26, 0x80, 0xFF]))
            }
            b = reframe(&b, hl)
        }
        2 => b[at] = *r.pick(&[0xFF, 0xC0, 0x80, 0x03, 0x33, 0x30, 0x00]),
        3 => b[at] ^= 1 << r.below(8),
        4 => {
            let t: Vec<_> = late.iter().filter(|s| s.0 == Sp::Text && s.2 > s.1).collect();
            match t.last() {
                Some(s) => b[s.2 - 1] = *r.pick(&[0xFF, 0xC3, 0x80]),
                None => b[n - 1] = 0xFF,
            }
        }
        _ => {
            let t: Vec<_> = late.iter().filter(|s| s.0 == Sp::LenPre).collect();
            match t.last() {
                Some(s) => b[s.2 - 1] = b[s.2 - 1].wrapping_add(1),
                None => b[at] = 0x7F,
            }
        }
    }
    b
}

/// One complete frame of any quality: valid, mutated or noise.
pub fn any_frame(r: &mut Rng, ver: Ver) -> Vec<u8> {
    if r.p(1, 300) && !plain() {
        let max = if r.p(1, 10) { 4_000_000 } else { 140_000 };
        return sized_frame(r, ver, max);
    }
    match r.below(10) {
        0 | 1 => {
            let conf = r.bool();
            let mut pk = Gen::new(r, conf).l4().packet(ver);
            if r.p(1, 40) && !plain() {
                lengthen(r, &mut pk);
            }
            let f = form(r);
            encode(ver, &pk, f).bytes
        }
        2 => {
            // noise behind a type byte
            let mut v = vec![0; r.clone().below(40)];
            r.next();
            r.fill(&mut v);
            let b1 = if r.bool() { (r.range(1, 14) as u8) << 4 | *r.pick(&[0, 2]) } else { r.next() as u8 };
            frame(b1, &v)
        }
        3 => {
            // a packet of the other version
            let other = if ver == Ver::V4 { Ver::V5 } else { Ver::V4 };
            let pk = Gen::new(r, true).l4().packet(other);
            encode(other, &pk, Form::default()).bytes
        }
        _ => {
            let conf = r.bool();
            let mut pk = Gen::new(r, conf).l4().packet(ver);
            shuffle_props(r, &mut pk);
            let f = form(r);
            let e = encode(ver, &pk, f);
            mutate(r, &e)
        }
    }
}

pub fn any_ver(r: &mut Rng) -> Ver {
    if r.p(2, 5) {
        Ver::V4
    } else {
        Ver::V5
    }
}
