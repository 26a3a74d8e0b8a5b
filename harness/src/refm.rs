//! Independent reference model of MQTT 3.1.1 and MQTT 5 control packets: a packet type of its own, a table-driven
//! encoder that also reports which bytes mean what, and a strict decoder. Written from the OASIS standards; shares
//! no code with the crate under test.

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Ver {
    V4,
    V5,
}

#[derive(Clone, PartialEq, Eq, Debug, PartialOrd, Ord, Hash)]
pub enum PV {
    B(u8),
    W(u16),
    D(u32),
    V(u32),
    S(String),
    X(Vec<u8>),
    P(String, String),
}

pub type Props = Vec<(u8, PV)>;

#[derive(Clone, PartialEq, Debug, Hash)]
pub struct Will {
    pub props: Props,
    pub topic: String,
    pub msg: Vec<u8>,
    pub qos: u8,
    pub retain: bool,
}

#[derive(Clone, PartialEq, Debug, Hash)]
pub struct Conn {
    pub level: u8,
    pub clean: bool,
    pub keep_alive: u16,
    pub props: Props,
    pub client_id: String,
    pub will: Option<Will>,
    /// Empty stands for absent, as in the crate's API.
    pub user: String,
    pub pass: String,
}

#[derive(Clone, PartialEq, Debug, Hash)]
pub enum Pk {
    Connect(Conn),
    ConnAck { sp: bool, code: u8, props: Props },
    Publish { dup: bool, qos: u8, retain: bool, topic: String, pkid: u16, props: Props, payload: Vec<u8> },
    /// PubAck 4, PubRec 5, PubRel 6, PubComp 7
    Ack { ty: u8, pkid: u16, reason: u8, props: Props },
    Subscribe { pkid: u16, props: Props, filters: Vec<(String, u8)> },
    SubAck { pkid: u16, props: Props, codes: Vec<u8> },
    Unsubscribe { pkid: u16, props: Props, filters: Vec<String> },
    UnsubAck { pkid: u16, props: Props, codes: Vec<u8> },
    PingReq,
    PingResp,
    Disconnect { reason: u8, props: Props },
}

impl Pk {
    pub fn ty(&self) -> u8 {
        match self {
            Pk::Connect(_) => 1,
            Pk::ConnAck { .. } => 2,
            Pk::Publish { .. } => 3,
            Pk::Ack { ty, .. } => *ty,
            Pk::Subscribe { .. } => 8,
            Pk::SubAck { .. } => 9,
            Pk::Unsubscribe { .. } => 10,
            Pk::UnsubAck { .. } => 11,
            Pk::PingReq => 12,
            Pk::PingResp => 13,
            Pk::Disconnect { .. } => 14,
        }
    }

    pub fn props(&self) -> Option<&Props> {
        match self {
            Pk::Connect(c) => Some(&c.props),
            Pk::ConnAck { props, .. }
            | Pk::Publish { props, .. }
            | Pk::Ack { props, .. }
            | Pk::Subscribe { props, .. }
            | Pk::SubAck { props, .. }
            | Pk::Unsubscribe { props, .. }
            | Pk::UnsubAck { props, .. }
            | Pk::Disconnect { props, .. } => Some(props),
            _ => None,
        }
    }

    pub fn props_mut(&mut self) -> Option<&mut Props> {
        match self {
            Pk::Connect(c) => Some(&mut c.props),
            Pk::ConnAck { props, .. }
            | Pk::Publish { props, .. }
            | Pk::Ack { props, .. }
            | Pk::Subscribe { props, .. }
            | Pk::SubAck { props, .. }
            | Pk::Unsubscribe { props, .. }
            | Pk::UnsubAck { props, .. }
            | Pk::Disconnect { props, .. } => Some(props),
            _ => None,
        }
    }

    /// Property order carries no meaning except among equal ids; QoS 0 has no packet id; 3.1.1 has no properties.
    pub fn canon(mut self) -> Pk {
        if let Some(p) = self.props_mut() {
            p.sort_by_key(|x| x.0);
        }
        match &mut self {
            Pk::Connect(c) => {
                if let Some(w) = &mut c.will {
                    w.props.sort_by_key(|x| x.0);
                }
                if c.level == 4 {
                    c.props.clear();
                    if let Some(w) = &mut c.will {
                        w.props.clear();
                    }
                }
            }
            Pk::Publish { qos, pkid, .. } => {
                if *qos == 0 {
                    *pkid = 0;
                }
            }
            _ => {}
        }
        self
    }
}

pub fn type_name(ty: u8) -> &'static str {
    [
        "type0", "connect", "connack", "publish", "puback", "pubrec", "pubrel", "pubcomp", "subscribe", "suback",
        "unsubscribe", "unsuback", "pingreq", "pingresp", "disconnect", "type15",
    ][ty as usize & 15]
}

// ---------------------------------------------------------------------------------------------------------------
// Tables

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Loc {
    Connect,
    Will,
    ConnAck,
    Publish,
    Ack,
    Subscribe,
    SubAck,
    Unsubscribe,
    UnsubAck,
    Disconnect,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum PT {
    B,
    W,
    D,
    V,
    S,
    X,
    P,
}

/// MQTT 5, table 2-4: identifier, type.
pub const PROPS: &[(u8, PT)] = &[
    (0x01, PT::B), // Payload Format Indicator
    (0x02, PT::D), // Message Expiry Interval
    (0x03, PT::S), // Content Type
    (0x08, PT::S), // Response Topic
    (0x09, PT::X), // Correlation Data
    (0x0B, PT::V), // Subscription Identifier
    (0x11, PT::D), // Session Expiry Interval
    (0x12, PT::S), // Assigned Client Identifier
    (0x13, PT::W), // Server Keep Alive
    (0x15, PT::S), // Authentication Method
    (0x16, PT::X), // Authentication Data
    (0x17, PT::B), // Request Problem Information
    (0x18, PT::D), // Will Delay Interval
    (0x19, PT::B), // Request Response Information
    (0x1A, PT::S), // Response Information
    (0x1C, PT::S), // Server Reference
    (0x1F, PT::S), // Reason String
    (0x21, PT::W), // Receive Maximum
    (0x22, PT::W), // Topic Alias Maximum
    (0x23, PT::W), // Topic Alias
    (0x24, PT::B), // Maximum QoS
    (0x25, PT::B), // Retain Available
    (0x26, PT::P), // User Property
    (0x27, PT::D), // Maximum Packet Size
    (0x28, PT::B), // Wildcard Subscription Available
    (0x29, PT::B), // Subscription Identifier Available
    (0x2A, PT::B), // Shared Subscription Available
];

pub fn ptype(id: u8) -> Option<PT> {
    PROPS.iter().find(|p| p.0 == id).map(|p| p.1)
}

pub fn allowed(loc: Loc) -> &'static [u8] {
    match loc {
        Loc::Connect => &[0x11, 0x15, 0x16, 0x17, 0x19, 0x21, 0x22, 0x26, 0x27],
        Loc::Will => &[0x01, 0x02, 0x03, 0x08, 0x09, 0x18, 0x26],
        Loc::ConnAck => &[
            0x11, 0x12, 0x13, 0x15, 0x16, 0x1A, 0x1C, 0x1F, 0x21, 0x22, 0x24, 0x25, 0x26, 0x27, 0x28, 0x29, 0x2A,
        ],
        Loc::Publish => &[0x01, 0x02, 0x03, 0x08, 0x09, 0x0B, 0x23, 0x26],
        Loc::Ack | Loc::SubAck | Loc::UnsubAck => &[0x1F, 0x26],
        Loc::Subscribe => &[0x0B, 0x26],
        Loc::Unsubscribe => &[0x26],
        Loc::Disconnect => &[0x11, 0x1C, 0x1F, 0x26],
    }
}

pub fn repeatable(loc: Loc, id: u8) -> bool {
    id == 0x26 || (id == 0x0B && loc == Loc::Publish)
}

pub fn loc_of(ty: u8) -> Option<Loc> {
    Some(match ty {
        1 => Loc::Connect,
        2 => Loc::ConnAck,
        3 => Loc::Publish,
        4..=7 => Loc::Ack,
        8 => Loc::Subscribe,
        9 => Loc::SubAck,
        10 => Loc::Unsubscribe,
        11 => Loc::UnsubAck,
        14 => Loc::Disconnect,
        _ => return None,
    })
}

/// The return/reason codes each packet type may carry.
pub fn codes(ver: Ver, ty: u8) -> &'static [u8] {
    match (ver, ty) {
        (Ver::V4, 2) => &[0, 1, 2, 3, 4, 5],
        (Ver::V4, 9) => &[0, 1, 2, 0x80],
        (Ver::V5, 2) => &[
            0x00, 0x80, 0x81, 0x82, 0x83, 0x84, 0x85, 0x86, 0x87, 0x88, 0x89, 0x8A, 0x8C, 0x90, 0x95, 0x97, 0x99, 0x9A,
            0x9B, 0x9C, 0x9D, 0x9F,
        ],
        (Ver::V5, 4) | (Ver::V5, 5) => &[0x00, 0x10, 0x80, 0x83, 0x87, 0x90, 0x91, 0x97, 0x99],
        (Ver::V5, 6) | (Ver::V5, 7) => &[0x00, 0x92],
        (Ver::V5, 9) => &[0x00, 0x01, 0x02, 0x80, 0x83, 0x87, 0x8F, 0x91, 0x97, 0x9E, 0xA1, 0xA2],
        (Ver::V5, 11) => &[0x00, 0x11, 0x80, 0x83, 0x87, 0x8F, 0x91],
        (Ver::V5, 14) => &[
            0x00, 0x04, 0x80, 0x81, 0x82, 0x83, 0x87, 0x89, 0x8B, 0x8D, 0x8E, 0x8F, 0x90, 0x93, 0x94, 0x95, 0x96, 0x97,
            0x98, 0x99, 0x9A, 0x9B, 0x9C, 0x9D, 0x9E, 0x9F, 0xA0, 0xA1, 0xA2,
        ],
        _ => &[],
    }
}

// ---------------------------------------------------------------------------------------------------------------
// Encoder

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Sp {
    Type,
    RemLen,
    /// Two byte length prefix of the following string or binary
    LenPre,
    Text,
    Bin,
    Code,
    Pkid,
    PropLen,
    PropId,
    /// A whole property, identifier included
    Prop,
    /// Fixed-size property value
    PropVal,
    Name,
    Level,
    ConnFlags,
    KeepAlive,
    AckFlags,
    Opts,
    Payload,
}

#[derive(Clone, Debug)]
pub struct Enc {
    pub bytes: Vec<u8>,
    pub spans: Vec<(Sp, usize, usize)>,
}

/// How a packet is spelt where the standard gives a choice.
#[derive(Clone, Copy, Default, Debug)]
pub struct Form {
    /// 0: as short as allowed; 1: reason code always; 2: reason code and property length always
    pub ack: u8,
    /// Send the user name (password) flag with an empty string
    pub empty_user: bool,
    pub empty_pass: bool,
}

struct W {
    b: Vec<u8>,
    s: Vec<(Sp, usize, usize)>,
}

pub fn varint(mut n: usize, out: &mut Vec<u8>) {
    loop {
        let d = (n & 0x7F) as u8;
        n >>= 7;
        if n == 0 {
            out.push(d);
            return;
        }
        out.push(d | 0x80);
    }
}

pub fn varint_len(n: usize) -> usize {
    let mut v = Vec::new();
    varint(n, &mut v);
    v.len()
}

impl W {
    fn span(&mut self, k: Sp, start: usize) {
        let end = self.b.len();
        self.s.push((k, start, end));
    }
    fn u8(&mut self, k: Sp, v: u8) {
        let a = self.b.len();
        self.b.push(v);
        self.span(k, a);
    }
    fn u16(&mut self, k: Sp, v: u16) {
        let a = self.b.len();
        self.b.extend_from_slice(&v.to_be_bytes());
        self.span(k, a);
    }
    fn lp(&mut self, k: Sp, v: &[u8]) {
        assert!(v.len() <= 65535, "reference encoder: field too long");
        self.u16(Sp::LenPre, v.len() as u16);
        let a = self.b.len();
        self.b.extend_from_slice(v);
        self.span(k, a);
    }
    fn props(&mut self, props: &Props) {
        let mut w = W { b: vec![], s: vec![] };
        for (id, v) in props {
            let a = w.b.len();
            w.u8(Sp::PropId, *id);
            match v {
                PV::B(x) => w.u8(Sp::PropVal, *x),
                PV::W(x) => w.u16(Sp::PropVal, *x),
                PV::D(x) => {
                    let a = w.b.len();
                    w.b.extend_from_slice(&x.to_be_bytes());
                    w.span(Sp::PropVal, a);
                }
                PV::V(x) => {
                    let a = w.b.len();
                    varint(*x as usize, &mut w.b);
                    w.span(Sp::PropVal, a);
                }
                PV::S(s) => w.lp(Sp::Text, s.as_bytes()),
                PV::X(s) => w.lp(Sp::Bin, s),
                PV::P(k, v) => {
                    w.lp(Sp::Text, k.as_bytes());
                    w.lp(Sp::Text, v.as_bytes());
                }
            }
            w.span(Sp::Prop, a);
        }
        let a = self.b.len();
        varint(w.b.len(), &mut self.b);
        self.span(Sp::PropLen, a);
        let off = self.b.len();
        self.b.extend_from_slice(&w.b);
        for (k, s, e) in w.s {
            self.s.push((k, s + off, e + off));
        }
    }
}

/// Encodes just a property section including its length field.
pub fn encode_props(props: &Props) -> Vec<u8> {
    let mut w = W { b: vec![], s: vec![] };
    w.props(props);
    w.b
}

pub fn encode(ver: Ver, pk: &Pk, f: Form) -> Enc {
    let v5 = ver == Ver::V5;
    let mut w = W { b: vec![], s: vec![] };
    let mut low = 0u8;
    match pk {
        Pk::Connect(c) => {
            let l5 = c.level == 5 && v5;
            w.lp(Sp::Name, b"MQTT");
            w.u8(Sp::Level, c.level);
            let mut fl = if c.clean { 0x02 } else { 0 };
            if let Some(x) = &c.will {
                fl |= 0x04 | (x.qos << 3) | if x.retain { 0x20 } else { 0 };
            }
            let has_pass = !c.pass.is_empty() || f.empty_pass;
            let has_user = !c.user.is_empty() || f.empty_user || (has_pass && !l5);
            if has_user {
                fl |= 0x80;
            }
            if has_pass {
                fl |= 0x40;
            }
            w.u8(Sp::ConnFlags, fl);
            w.u16(Sp::KeepAlive, c.keep_alive);
            if l5 {
                w.props(&c.props);
            }
            w.lp(Sp::Text, c.client_id.as_bytes());
            if let Some(x) = &c.will {
                if l5 {
                    w.props(&x.props);
                }
                w.lp(Sp::Text, x.topic.as_bytes());
                w.lp(Sp::Bin, &x.msg);
            }
            if has_user {
                w.lp(Sp::Text, c.user.as_bytes());
            }
            if has_pass {
                w.lp(Sp::Text, c.pass.as_bytes());
            }
        }
        Pk::ConnAck { sp, code, props } => {
            w.u8(Sp::AckFlags, *sp as u8);
            w.u8(Sp::Code, *code);
            if v5 {
                w.props(props);
            }
        }
        Pk::Publish { dup, qos, retain, topic, pkid, props, payload } => {
            low = (*dup as u8) << 3 | qos << 1 | *retain as u8;
            w.lp(Sp::Text, topic.as_bytes());
            if *qos > 0 {
                w.u16(Sp::Pkid, *pkid);
            }
            if v5 {
                w.props(props);
            }
            let a = w.b.len();
            w.b.extend_from_slice(payload);
            w.span(Sp::Payload, a);
        }
        Pk::Ack { ty, pkid, reason, props } => {
            if *ty == 6 {
                low = 2;
            }
            w.u16(Sp::Pkid, *pkid);
            if v5 {
                if !props.is_empty() || f.ack == 2 {
                    w.u8(Sp::Code, *reason);
                    w.props(props);
                } else if *reason != 0 || f.ack == 1 {
                    w.u8(Sp::Code, *reason);
                }
            }
        }
        Pk::Subscribe { pkid, props, filters } => {
            low = 2;
            w.u16(Sp::Pkid, *pkid);
            if v5 {
                w.props(props);
            }
            for (s, o) in filters {
                w.lp(Sp::Text, s.as_bytes());
                w.u8(Sp::Opts, *o);
            }
        }
        Pk::SubAck { pkid, props, codes } => {
            w.u16(Sp::Pkid, *pkid);
            if v5 {
                w.props(props);
            }
            for c in codes {
                w.u8(Sp::Code, *c);
            }
        }
        Pk::Unsubscribe { pkid, props, filters } => {
            low = 2;
            w.u16(Sp::Pkid, *pkid);
            if v5 {
                w.props(props);
            }
            for s in filters {
                w.lp(Sp::Text, s.as_bytes());
            }
        }
        Pk::UnsubAck { pkid, props, codes } => {
            w.u16(Sp::Pkid, *pkid);
            if v5 {
                w.props(props);
                for c in codes {
                    w.u8(Sp::Code, *c);
                }
            }
        }
        Pk::PingReq | Pk::PingResp => {}
        Pk::Disconnect { reason, props } => {
            if v5 {
                if !props.is_empty() || f.ack == 2 {
                    w.u8(Sp::Code, *reason);
                    w.props(props);
                } else if *reason != 0 || f.ack == 1 {
                    w.u8(Sp::Code, *reason);
                }
            }
        }
    }
    let mut bytes = vec![pk.ty() << 4 | low];
    varint(w.b.len(), &mut bytes);
    let off = bytes.len();
    let mut spans = vec![(Sp::Type, 0, 1), (Sp::RemLen, 1, off)];
    spans.extend(w.s.iter().map(|(k, a, b)| (*k, a + off, b + off)));
    bytes.extend_from_slice(&w.b);
    Enc { bytes, spans }
}

/// Puts a fixed header in front of a body.
pub fn frame(byte1: u8, body: &[u8]) -> Vec<u8> {
    let mut v = vec![byte1];
    varint(body.len(), &mut v);
    v.extend_from_slice(body);
    v
}

// ---------------------------------------------------------------------------------------------------------------
// Framing

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Fr {
    /// Length field incomplete: at least this many more bytes are needed
    Header(usize),
    /// (header length, remaining length)
    Known(usize, usize),
    BadLength,
}

/// Looks at the start of a stream.
pub fn framing(b: &[u8]) -> Fr {
    let mut value = 0usize;
    for i in 0..4 {
        match b.get(1 + i) {
            None => return Fr::Header(if b.is_empty() { 2 } else { 1 }),
            Some(x) => {
                value += (*x as usize % 128) * 128usize.pow(i as u32);
                if *x < 128 {
                    return Fr::Known(2 + i, value);
                }
            }
        }
    }
    Fr::BadLength
}

// ---------------------------------------------------------------------------------------------------------------
// Strict decoder

/// The `May` reasons a writer is never entitled to
pub const FORM: &[&str] = &[
    "remaining length not in shortest form",
    "variable byte integer not in shortest form",
    "trailing bytes",
    "reserved flags",
    "reserved connect flag",
    "reserved connack flags",
    "reserved subscription options",
    "level 5 in the 3.1.1 module",
    "password without user name",
    "property repeated",
];

#[derive(Clone, PartialEq, Debug)]
pub enum Verdict {
    /// Well-formed: must be accepted with this meaning
    Accept(Pk),
    /// Malformed in a way the properties list: must be refused (class, offending code if any)
    Must(&'static str, Option<u8>),
    /// Non-conforming in a way that is left to the implementation (what it says if the oddity is overlooked)
    May(&'static str, Option<Pk>),
}

struct R<'a> {
    b: &'a [u8],
    i: usize,
    end: usize,
    /// Odd values, which a writer may be asked to write
    soft: Option<&'static str>,
    /// Odd ways to write something, which a writer should not choose
    form: Option<&'static str>,
}

type E = (&'static str, Option<u8>);

impl<'a> R<'a> {
    fn left(&self) -> usize {
        self.end - self.i
    }
    fn soft(&mut self, why: &'static str) {
        if self.soft.is_none() {
            self.soft = Some(why);
        }
    }
    fn form(&mut self, why: &'static str) {
        if self.form.is_none() {
            self.form = Some(why);
        }
    }
    fn take(&mut self, n: usize) -> Result<&'a [u8], E> {
        if n > self.left() {
            return Err(("field runs past the end", None));
        }
        let s = &self.b[self.i..self.i + n];
        self.i += n;
        Ok(s)
    }
    fn u8(&mut self) -> Result<u8, E> {
        Ok(self.take(1)?[0])
    }
    fn u16(&mut self) -> Result<u16, E> {
        let s = self.take(2)?;
        Ok(s[0] as u16 * 256 + s[1] as u16)
    }
    fn pkid(&mut self) -> Result<u16, E> {
        let p = self.u16()?;
        if p == 0 {
            self.soft("packet id 0");
        }
        Ok(p)
    }
    fn u32(&mut self) -> Result<u32, E> {
        let s = self.take(4)?;
        Ok(s.iter().fold(0u32, |a, x| a << 8 | *x as u32))
    }
    fn bin(&mut self) -> Result<Vec<u8>, E> {
        let n = self.u16()? as usize;
        Ok(self.take(n)?.to_vec())
    }
    fn text(&mut self) -> Result<String, E> {
        let v = self.bin()?;
        match std::str::from_utf8(&v) {
            Ok(s) => {
                if s.contains('\0') {
                    self.soft("U+0000 in a string");
                }
                Ok(s.to_string())
            }
            Err(_) => Err(("string is not UTF-8", None)),
        }
    }
    fn varint(&mut self) -> Result<u32, E> {
        let mut v = 0u32;
        for k in 0..4 {
            let x = self.u8()?;
            v += (x as u32 & 0x7F) << (7 * k);
            if x & 0x80 == 0 {
                if k > 0 && x == 0 {
                    self.form("variable byte integer not in shortest form");
                }
                return Ok(v);
            }
        }
        Err(("variable byte integer longer than four bytes", None))
    }
    fn props(&mut self, loc: Loc) -> Result<Props, E> {
        let n = self.varint()? as usize;
        if n > self.left() {
            return Err(("properties run past the end", None));
        }
        let stop = self.i + n;
        let outer = self.end;
        self.end = stop;
        let mut out: Props = vec![];
        while self.i < stop {
            let id = self.u8()?;
            let t = match ptype(id) {
                None => return Err(("unknown property", Some(id))),
                Some(t) => t,
            };
            if !allowed(loc).contains(&id) {
                return Err(("property not allowed here", Some(id)));
            }
            if !repeatable(loc, id) && out.iter().any(|p| p.0 == id) {
                self.form("property repeated");
            }
            let v = match t {
                PT::B => PV::B(self.u8()?),
                PT::W => PV::W(self.u16()?),
                PT::D => PV::D(self.u32()?),
                PT::V => PV::V(self.varint()?),
                PT::S => PV::S(self.text()?),
                PT::X => PV::X(self.bin()?),
                PT::P => {
                    let k = self.text()?;
                    PV::P(k, self.text()?)
                }
            };
            if let Some(why) = odd_value(id, &v) {
                self.soft(why);
            }
            out.push((id, v));
        }
        if out.iter().any(|p| p.0 == 0x16) && !out.iter().any(|p| p.0 == 0x15) {
            self.soft("authentication data without method");
        }
        self.end = outer;
        Ok(out)
    }
    fn code(&mut self, ver: Ver, ty: u8) -> Result<u8, E> {
        let c = self.u8()?;
        if codes(ver, ty).contains(&c) {
            Ok(c)
        } else {
            Err(("undefined code", Some(c)))
        }
    }
}

/// Judges one complete frame (fixed header included).
///
/// `May` reasons of the form kind are listed in FORM.
pub fn decode(ver: Ver, b: &[u8]) -> Verdict {
    let (hl, rl) = match framing(b) {
        Fr::Known(h, r) => (h, r),
        _ => panic!("reference decoder: not a complete frame"),
    };
    assert_eq!(hl + rl, b.len(), "reference decoder: not exactly one frame");
    let mut r = R { b, i: hl, end: b.len(), soft: None, form: None };
    if hl > 2 && b[hl - 1] == 0 {
        r.form("remaining length not in shortest form");
    }
    match body(ver, b[0], &mut r) {
        Err((c, v)) => Verdict::Must(c, v),
        Ok(pk) => {
            if r.left() > 0 {
                r.form("trailing bytes");
            }
            match r.form.or(r.soft) {
                Some(s) => Verdict::May(s, pk.map(Pk::canon)),
                None => Verdict::Accept(pk.unwrap().canon()),
            }
        }
    }
}

/// Property values the standard calls protocol errors.
fn odd_value(id: u8, v: &PV) -> Option<&'static str> {
    match (id, v) {
        (0x01 | 0x17 | 0x19 | 0x24 | 0x25 | 0x28 | 0x29 | 0x2A, PV::B(x)) if *x > 1 => Some("flag property above 1"),
        (0x21 | 0x23, PV::W(0)) | (0x27, PV::D(0)) | (0x0B, PV::V(0)) => Some("property value 0"),
        (0x08, PV::S(s)) if wild(s) || s.is_empty() => Some("response topic"),
        _ => None,
    }
}

fn bad_filter(s: &str) -> bool {
    let l: Vec<&str> = s.split('/').collect();
    s.is_empty()
        || l.iter().enumerate().any(|(i, x)| {
            (x.contains('+') && *x != "+") || (x.contains('#') && (*x != "#" || i + 1 != l.len()))
        })
}

fn wild(s: &str) -> bool {
    s.contains(|c| c == '+' || c == '#')
}

fn body(ver: Ver, b1: u8, r: &mut R) -> Result<Option<Pk>, E> {
    let v5 = ver == Ver::V5;
    let ty = b1 >> 4;
    let low = b1 & 15;
    if ty == 0 || ty == 15 {
        return Err(("unknown packet type", Some(ty)));
    }
    let want = match ty {
        3 => low,
        6 | 8 | 10 => 2,
        _ => 0,
    };
    if low != want {
        if ty == 14 && v5 {
            return Err(("disconnect flags", None));
        }
        r.form("reserved flags");
    }
    let none = vec![];
    Ok(Some(match ty {
        1 => {
            let name = r.bin()?;
            let level = r.u8()?;
            if name != b"MQTT" {
                return Err(("protocol name", None));
            }
            let l5 = match level {
                4 => false,
                5 if v5 => true,
                5 => {
                    // The 3.1.1 module's type can say "5", but what it makes of such a packet is its business
                    r.form("level 5 in the 3.1.1 module");
                    r.i = r.end;
                    return Ok(None);
                }
                _ => return Err(("protocol level", Some(level))),
            };
            let fl = r.u8()?;
            if fl & 1 != 0 {
                r.form("reserved connect flag");
            }
            let keep_alive = r.u16()?;
            let props = if l5 { r.props(Loc::Connect)? } else { none.clone() };
            let client_id = r.text()?;
            let will = if fl & 4 != 0 {
                let props = if l5 { r.props(Loc::Will)? } else { none.clone() };
                let topic = r.text()?;
                if wild(&topic) || topic.is_empty() {
                    r.soft("will topic name");
                }
                let msg = r.bin()?;
                let qos = fl >> 3 & 3;
                if qos == 3 {
                    return Err(("QoS 3", Some(3)));
                }
                Some(Will { props, topic, msg, qos, retain: fl & 0x20 != 0 })
            } else {
                if fl & 0x38 != 0 {
                    return Err(("will flags without will", None));
                }
                None
            };
            let user = if fl & 0x80 != 0 { r.text()? } else { String::new() };
            let mut pass = String::new();
            if fl & 0x40 != 0 {
                if fl & 0x80 == 0 && !l5 {
                    r.form("password without user name");
                }
                // The standard's password is binary data, the crate's is a string: see known_findings.txt
                let p = r.bin()?;
                match String::from_utf8(p) {
                    Ok(p) => {
                        if p.contains('\0') {
                            r.soft("U+0000 in the password");
                        }
                        pass = p
                    }
                    Err(_) => r.soft("password is not UTF-8"),
                }
            }
            if !l5 && client_id.is_empty() && fl & 2 == 0 {
                r.soft("empty client id without clean session");
            }
            Pk::Connect(Conn { level, clean: fl & 2 != 0, keep_alive, props, client_id, will, user, pass })
        }
        2 => {
            let fl = r.u8()?;
            if fl > 1 {
                r.form("reserved connack flags");
            }
            let code = r.code(ver, 2)?;
            if code != 0 && fl & 1 == 1 {
                r.soft("session present in a refusal");
            }
            let props = if v5 { r.props(Loc::ConnAck)? } else { none };
            Pk::ConnAck { sp: fl & 1 == 1, code, props }
        }
        3 => {
            let qos = low >> 1 & 3;
            if qos == 3 {
                return Err(("QoS 3", Some(3)));
            }
            if qos == 0 && low & 8 != 0 {
                r.soft("dup with QoS 0");
            }
            let topic = r.text()?;
            if wild(&topic) {
                r.soft("wildcard in a topic name");
            }
            let pkid = if qos > 0 { r.u16()? } else { 0 };
            if qos > 0 && pkid == 0 {
                return Err(("packet id zero", None));
            }
            let props = if v5 { r.props(Loc::Publish)? } else { none };
            if topic.is_empty() && !props.iter().any(|p| p.0 == 0x23) {
                r.soft("empty topic name");
            }
            let n = r.left();
            let payload = r.take(n)?.to_vec();
            Pk::Publish { dup: low & 8 != 0, qos, retain: low & 1 != 0, topic, pkid, props, payload }
        }
        4..=7 => {
            let pkid = r.pkid()?;
            let (mut reason, mut props) = (0, none);
            if v5 && r.left() > 0 {
                reason = r.code(ver, ty)?;
                if r.left() > 0 {
                    props = r.props(Loc::Ack)?;
                }
            }
            Pk::Ack { ty, pkid, reason, props }
        }
        8 => {
            let pkid = r.pkid()?;
            let props = if v5 { r.props(Loc::Subscribe)? } else { none };
            let mut filters = vec![];
            while r.left() > 0 {
                let s = r.text()?;
                let o = r.u8()?;
                if o & 3 == 3 {
                    return Err(("QoS 3", Some(3)));
                }
                if v5 && o >> 4 & 3 == 3 {
                    return Err(("retain handling 3", Some(3)));
                }
                if o & if v5 { 0xC0 } else { 0xFC } != 0 {
                    r.form("reserved subscription options");
                }
                if bad_filter(&s) || (o & 4 != 0 && s.starts_with("$share/")) {
                    r.soft("topic filter");
                }
                filters.push((s, o));
            }
            if filters.is_empty() {
                if !v5 {
                    return Err(("no subscriptions", None));
                }
                r.soft("no subscriptions");
            }
            Pk::Subscribe { pkid, props, filters }
        }
        9 | 11 if ty == 9 || v5 => {
            let pkid = r.pkid()?;
            let props = if v5 { r.props(if ty == 9 { Loc::SubAck } else { Loc::UnsubAck })? } else { none };
            let mut codes = vec![];
            while r.left() > 0 {
                codes.push(r.code(ver, ty)?);
            }
            if codes.is_empty() {
                return Err(("no codes", None));
            }
            if ty == 9 {
                Pk::SubAck { pkid, props, codes }
            } else {
                Pk::UnsubAck { pkid, props, codes }
            }
        }
        11 => {
            if r.left() != 2 {
                return Err(("wrong size", None));
            }
            Pk::UnsubAck { pkid: r.pkid()?, props: none, codes: vec![] }
        }
        10 => {
            let pkid = r.pkid()?;
            let props = if v5 { r.props(Loc::Unsubscribe)? } else { none };
            let mut filters = vec![];
            while r.left() > 0 {
                let s = r.text()?;
                if bad_filter(&s) {
                    r.soft("topic filter");
                }
                filters.push(s);
            }
            if filters.is_empty() {
                r.soft("no filters");
            }
            Pk::Unsubscribe { pkid, props, filters }
        }
        12 => Pk::PingReq,
        13 => Pk::PingResp,
        _ => {
            let (mut reason, mut props) = (0, none);
            if v5 && r.left() > 0 {
                reason = r.code(ver, 14)?;
                if r.left() > 0 {
                    props = r.props(Loc::Disconnect)?;
                }
            }
            Pk::Disconnect { reason, props }
        }
    }))
}

/// A number, or the greatest the platform has.
pub fn uint(n: u64) -> usize {
    usize::try_from(n).unwrap_or(usize::MAX)
}
