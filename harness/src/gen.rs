//! Boundary-heavy generators of values, messages and wire images.
use crate::model::*;
use crate::rng::Rng;
use crate::sets::{Cred, DynMsg, DynSet};
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr};

pub fn ip(r: &mut Rng, tid: &[u8; 12]) -> IpAddr {
    let v4 = r.bool();
    let mut o = [0u8; 16];
    match r.below(11) {
        10 => {
            let n = r.lit();
            if v4 {
                o[..4].copy_from_slice(&(n as u32).to_be_bytes());
            } else if r.bool() {
                o[8..].copy_from_slice(&n.to_be_bytes());
            } else {
                o.copy_from_slice(&r.bytes(16));
                let i = 2 * r.below(8);
                o[i..i + 2].copy_from_slice(&(n as u16).to_be_bytes());
            }
        }
        8 => {
            // well-known networks and prefixes
            let p: &[u8] = if v4 {
                *r.pick(&[&[127u8][..], &[10], &[192, 168], &[169, 254], &[224], &[100, 64], &[0], &[255], &[192, 0, 2]])
            } else {
                *r.pick(&[&[0xfe, 0x80][..], &[0xfc], &[0xff, 2], &[0x20, 2], &[0x20, 1, 0, 0], &[0, 0x64, 0xff, 0x9b], &[0x20, 1, 0xd, 0xb8]])
            };
            o[..p.len()].copy_from_slice(p);
            if r.bool() {
                let b = r.bytes(16 - p.len());
                o[p.len()..].copy_from_slice(&b);
            } else {
                o[3] |= 1;
            }
        }
        9 => {
            // IPv4-compatible
            let b = r.bytes(4);
            o[12..].copy_from_slice(&b);
        }
        0 => {}
        1 => o = [0xff; 16],
        2 => {
            // masks to zero
            o[..4].copy_from_slice(&COOKIE);
            o[4..].copy_from_slice(tid);
        }
        3 => o[15] = 1,
        4 => o[..4].copy_from_slice(&COOKIE),
        5 => {
            // IPv4-mapped
            o[10] = 0xff;
            o[11] = 0xff;
            o[12..].copy_from_slice(&r.bytes(4));
        }
        _ => o.copy_from_slice(&r.bytes(16)),
    }
    if v4 {
        IpAddr::V4(Ipv4Addr::new(o[0], o[1], o[2], o[3]))
    } else {
        IpAddr::V6(Ipv6Addr::from(o))
    }
}

pub fn port(r: &mut Rng) -> u16 {
    match r.below(7) {
        6 => r.lit() as u16,
        0 => 0,
        1 => 0xffff,
        2 => 0x2112,
        3 => 0x2112 ^ 0xffff,
        _ => r.u16(),
    }
}

const CHARS: [char; 32] = [
    'a', 'b', 'Z', '0', ' ', ':', '\0', '\n', '"', '\u{7f}', '\\', '%', '\t', '\r', '\u{80}', 'é', '\u{7ff}', '\u{800}',
    'マ', '\u{ffff}', '\u{10000}', '😀', '\u{10ffff}', '\u{feff}', '\u{a0}', '\u{ad}', '\u{301}', 'ﬁ', 'ª', '\u{200b}', '\u{2168}', 'ß',
];
fn any_char(r: &mut Rng) -> char {
    loop {
        if let Some(c) = char::from_u32(r.below(0x110000) as u32) {
            return c;
        }
    }
}

/// A text the code mentions, alone, at the start, at the end or in between.
fn lit_filled(r: &mut Rng, n: usize) -> String {
    let t = r.lit_text();
    let room = n.saturating_sub(t.chars().count());
    let before = match r.below(3) {
        0 => 0,
        1 => room,
        _ => r.below(room + 1),
    };
    let mut s = "w".repeat(before);
    s.push_str(t);
    s
}

/// A string of exactly `n` characters.
pub fn text_chars(r: &mut Rng, n: usize) -> String {
    if r.below(12) == 0 {
        let mut s: Vec<char> = lit_filled(r, n).chars().collect();
        while s.len() < n {
            s.push('x');
        }
        return s[..n].iter().collect();
    }
    let mode = r.below(7);
    let one = *r.pick(&CHARS);
    (0..n)
        .map(|_| match mode {
            0 => (b'a' + (r.u8() % 26)) as char,
            1 => one,
            2 => *r.pick(&CHARS[..14]),
            3 => (r.u8() & 0x7f) as char,
            4 => any_char(r),
            _ => *r.pick(&CHARS),
        })
        .collect()
}

/// A string of exactly `n` bytes.
pub fn text_bytes(r: &mut Rng, n: usize) -> String {
    let mut s = String::new();
    if r.below(12) == 0 {
        s = lit_filled(r, n);
        if s.len() > n {
            s.clear();
        }
    }
    let mode = r.below(5);
    while s.len() < n {
        let c = match mode {
            0 | 1 => (b'a' + r.u8() % 26) as char,
            2 => (r.u8() & 0x7f) as char,
            3 if n - s.len() >= 4 => any_char(r),
            _ => *r.pick(&CHARS),
        };
        if s.len() + c.len_utf8() <= n {
            s.push(c);
        }
    }
    s
}

pub fn small_len(r: &mut Rng) -> usize {
    match r.below(9) {
        8 => r.lit_upto(140).unwrap_or(5),
        0 => 0,
        1 => r.below(6),
        2 => r.range(60, 70),
        3 => r.range(120, 136),
        _ => r.below(40),
    }
}

pub fn data_len(r: &mut Rng) -> usize {
    if r.below(400) == 0 {
        // around powers of two
        return (1usize << r.range(8, 14)).wrapping_add(r.below(9)).wrapping_sub(4);
    }
    match r.below(33) {
        32 => r.lit_upto(2_100).unwrap_or(7),
        0 => r.range(250, 260),
        1 => r.range(508, 516),
        2 => r.below(2000),
        _ => small_len(r),
    }
}

/// `n` bytes, sometimes all alike, with a mentioned number or text in them, or looking like STUN.
pub fn data(r: &mut Rng, n: usize) -> Vec<u8> {
    let mut b = r.bytes(n);
    let put = |r: &mut Rng, b: &mut [u8], x: &[u8]| {
        if x.len() <= b.len() {
            let at = match r.below(3) {
                0 => 0,
                1 => b.len() - x.len(),
                _ => r.below(b.len() - x.len() + 1),
            };
            b[at..at + x.len()].copy_from_slice(x);
        }
    };
    match r.below(24) {
        0 => b.fill(0),
        1 => {
            let x = r.lit() as u8;
            b.fill(x);
        }
        2 => {
            let x = r.lit().to_be_bytes();
            let w = *r.pick(&[1, 2, 4]);
            put(r, &mut b, &x[8 - w..]);
        }
        3 => {
            let t = r.lit_text();
            put(r, &mut b, t.as_bytes());
        }
        4 => {
            let mut h = header(r.u8() & 3, 1, &[7; 12], 0);
            h.extend([0x80, 0x28, 0, 4, 1, 2, 3, 4]);
            put(r, &mut b, &h);
        }
        _ => {}
    }
    b
}

pub fn u32b(r: &mut Rng) -> u32 {
    match r.below(9) {
        8 => r.lit() as u32,
        0 => 0,
        1 => u32::MAX,
        2 => 1 << r.below(32),
        3 => 0x8000_0000,
        4 => u32::from(r.u8()),
        _ => r.u32(),
    }
}

pub fn u64b(r: &mut Rng) -> u64 {
    match r.below(9) {
        8 => r.lit() << *r.pick(&[0, 0, 32]),
        0 => 0,
        1 => u64::MAX,
        2 => 1 << r.below(64),
        3 => u64::from(u32::MAX) + 1,
        _ => r.u64(),
    }
}

pub fn any_type(r: &mut Rng) -> u16 {
    match r.below(5) {
        4 => r.lit() as u16,
        0 => r.u16(),
        1 => r.pick(&TYPES).0 ^ (1 << r.below(16)),
        2 => *r.pick(&[0, 0x7fff, 0x8000, 0xffff, 0x0002, 0x0004, 0x0010, 0x8021, 0x8027]),
        _ => r.pick(&TYPES).0,
    }
}

/// An arbitrary in-range API value of an attribute type.
pub fn val(r: &mut Rng, ty: u16, tid: &[u8; 12]) -> Val {
    match kind_of(ty) {
        Some(Kind::Addr) | Some(Kind::XorAddr) => Val::Addr(ip(r, tid), port(r)),
        Some(Kind::Name) => match r.below(8) {
            0 => {
                let n = r.range(500, 512);
                Val::Text(text_bytes(r, n))
            }
            1 => Val::Text(text_bytes(r, 512)),
            _ => {
                let n = small_len(r);
                Val::Text(text_bytes(r, n))
            }
        },
        Some(Kind::Text) => {
            let n = match r.below(8) {
                0 => 127,
                1 => r.range(60, 127),
                _ => small_len(r).min(127),
            };
            Val::Text(text_chars(r, n))
        }
        Some(Kind::Hmac) => Val::Hmac(r.bytes(20).try_into().unwrap()),
        Some(Kind::Err) => {
            let code = match r.below(5) {
                4 => r.lit_upto(599).filter(|n| *n >= 300).unwrap_or(400) as u16,
                0 => *r.pick(&[300, 399, 400, 499, 500, 599]),
                _ => r.range(300, 599) as u16,
            };
            let n = match r.below(256) {
                0 => r.below(3_000),
                1..=8 => r.below(800),
                _ => small_len(r),
            };
            Val::Err(code, text_chars(r, n))
        }
        Some(Kind::Types) => {
            let n = match r.below(256) {
                0 => r.below(4_000),
                1..=12 => r.below(200),
                _ => r.below(9),
            };
            Val::Types((0..n).map(|_| any_type(r)).collect())
        }
        Some(Kind::Port) => Val::U16(port(r)),
        Some(Kind::Channel) => Val::U16(match r.below(5) {
            4 => r.lit_upto(0x4fff).filter(|n| *n >= 0x4000).unwrap_or(0x4001) as u16,
            0 => 0x4000,
            1 => 0x4fff,
            _ => 0x4000 + r.below(0x1000) as u16,
        }),
        Some(Kind::U32) | Some(Kind::Fp) => Val::U32(u32b(r)),
        Some(Kind::U64) => Val::U64(u64b(r)),
        Some(Kind::Bytes) => {
            let n = data_len(r);
            Val::Bytes(data(r, n))
        }
        Some(Kind::Even) => Val::Bool(r.bool()),
        Some(Kind::Proto) => Val::U8(if r.bool() { r.u8() } else { r.lit() as u8 }),
        Some(Kind::Unit) => Val::Unit,
        Some(Kind::Change) => Val::Change(r.bool(), r.bool()),
        Some(Kind::Family) => Val::Family(1 + u8::from(r.bool())),
        None => {
            let n = data_len(r);
            Val::Bytes(data(r, n))
        }
    }
}

pub fn method(r: &mut Rng) -> u16 {
    match r.below(5) {
        4 => r.lit() as u16 & 0xfff,
        0 => *r.pick(&[1, 3, 4, 6, 7, 8, 9]),
        1 => *r.pick(&[0, 0xf, 0x10, 0x7f, 0x80, 0xf80, 0xfff, 0x70]),
        _ => r.below(0x1000) as u16,
    }
}

const FIELD: [&str; 36] = [
    "1700000000:alice", "1700000000", "alice:1700000000", "alice@example.org", "EXAMPLE\\alice", "Alice", "ALICE",
    "example.org", "Example.ORG", "example.org.", "\"example.org\"", "'quoted'", " padded ", "\tpadded", "padded\n",
    "aFrg:bFrg", "abcd:efgh:ijkl", ":", "::", "a:", ":a", "%61lice", "alice%40example.org", "c3dvcmRmaXNo", "c3dvcmRmaXNo=",
    "0x73776f7264", "73776f726466697368", "e5c2c1f6c1d0a3b7e5c2c1f6c1d0a3b7", "The\u{ad}M\u{aa}tr\u{2168}", "TheMatrIX",
    "\u{30de}\u{30c8}\u{30ea}\u{30c3}\u{30af}\u{30b9}", "e\u{301}", "\u{e9}", "stra\u{df}e", "obMatJos2AAACf//499k954d6OL34oL9FSTvy64sA", "nul\0inside",
];
pub fn cred(r: &mut Rng) -> Cred {
    let pw = |r: &mut Rng| {
        let n = match r.below(16) {
            0..=7 => *r.pick(&[0usize, 1, 8, 20, 63, 64, 65, 100, 200, 600]),
            8 => *r.pick(&[127usize, 128, 129, 255, 256, 257, 508, 509, 512, 513, 762, 763, 764, 1023, 1024, 1025, 4096, 5000]),
            9 => r.below(2_000),
            _ => r.below(140),
        };
        if r.bool() {
            text_bytes(r, n)
        } else {
            text_chars(r, n)
        }
    };
    if r.below(5) == 0 {
        // as seen in the field
        let t = |r: &mut Rng| (*r.pick(&FIELD)).to_owned();
        return if r.bool() { Cred::Short(t(r)) } else { Cred::Long { user: t(r), realm: t(r), password: t(r) } };
    }
    if r.bool() {
        Cred::Short(pw(r))
    } else {
        let n = if r.bool() { *r.pick(&[0usize, 1, 5, 30, 512]) } else { let top = *r.pick(&[81usize, 81, 513]); r.below(top) };
        let m = if r.bool() { *r.pick(&[0usize, 1, 11, 127]) } else { r.below(128) };
        Cred::Long { user: text_bytes(r, n), realm: text_chars(r, m), password: pw(r) }
    }
}

/// Plan of a message built through the API.
#[derive(Clone, Debug)]
pub struct Plan {
    pub class: u8,
    pub method: u16,
    pub tid: [u8; 12],
    pub attrs: Vec<(u16, Val)>,
}
impl Plan {
    /// `None`: some constructor refused a value it must accept (returned).
    pub fn build(&self, set: &dyn DynSet) -> Result<Box<dyn DynMsg>, (u16, Val)> {
        let mut m = set.msg(self.class, self.method, self.tid);
        for (ty, v) in &self.attrs {
            if !m.add(*ty, v) {
                return Err((*ty, v.clone()));
            }
        }
        Ok(m)
    }
    pub fn wire(&self) -> Vec<u8> {
        enc_msg(self.class, self.method, &self.tid, &self.attrs)
    }
    pub fn snap(&self) -> Snap {
        Snap {
            class: self.class,
            method: self.method,
            tid: self.tid,
            known: self.attrs.clone(),
            unknown: vec![],
        }
    }
}

pub fn n_attrs(r: &mut Rng) -> usize {
    if r.below(250) == 0 {
        return if r.below(12) == 0 { *r.pick(&CROWDS[18..32]) } else { r.range(60, 500) };
    }
    match r.below(17) {
        16 => r.lit_upto(66).unwrap_or(1),
        0 => 0,
        1 => r.range(12, 40),
        2..=5 => 1,
        _ => r.range(2, 9),
    }
}

/// A message of arbitrary attributes of the set. `fp`: whether (arbitrary, hence mostly wrong)
/// FINGERPRINT values may occur.
pub fn plan(r: &mut Rng, set: &dyn DynSet, fp: bool) -> Plan {
    let tid = r.tid();
    let n = n_attrs(r);
    let knows = set.knows();
    let types = set.types();
    let mut attrs = Vec::with_capacity(n);
    let mut room = 44_000usize;
    for _ in 0..n {
        if room == 0 {
            break;
        }
        // now and then an attribute again: the same, the same type, or the same value
        let again: Option<(u16, Val)> = if attrs.is_empty() || r.below(6) > 0 {
            None
        } else if r.bool() {
            attrs.last().cloned()
        } else {
            let i = r.below(attrs.len());
            Some(attrs[i].clone())
        };
        let keep = r.below(3);
        if knows.raw {
            let (mut ty, len) = (any_type(r), data_len(r));
            let mut v = data(r, len);
            if let Some((t, Val::Bytes(b))) = again {
                if keep != 1 {
                    ty = t;
                }
                if keep != 0 {
                    v = b;
                }
            }
            let len = v.len();
            if len + 7 > room {
                break;
            }
            room -= len + 7;
            attrs.push((ty, Val::Bytes(v)));
        } else {
            let mut ty = *r.pick(&types);
            if let (Some((t, _)), true) = (&again, keep != 1) {
                ty = *t;
            }
            if ty == T_FP && !fp {
                continue;
            }
            let mut v = val(r, ty, &tid);
            if let (Some((t, w)), true) = (again, keep != 0) {
                let plain = |k| if k == Some(Kind::XorAddr) { Some(Kind::Addr) } else { k };
                if t == ty || plain(kind_of(t)) == plain(kind_of(ty)) {
                    v = w;
                }
            }
            let len = 7 + match &v {
                Val::Bytes(b) => b.len(),
                Val::Types(t) => 2 * t.len(),
                Val::Text(t) => t.len(),
                Val::Err(_, t) => 4 + t.len(),
                _ => 24,
            };
            if len > room {
                break;
            }
            room -= len;
            attrs.push((ty, v));
        }
    }
    if r.below(24) == 0 {
        // a total, or a length field, that the code mentions
        let filler = if knows.raw { Some(0x8f00) } else { types.iter().copied().find(|t| kind_of(*t) == Some(Kind::Bytes)) };
        if let (Some(ty), Some(want)) = (filler, r.lit_upto(40_000)) {
            let now = enc_msg(0, 1, &tid, &attrs).len() - if r.bool() { 20 } else { 0 };
            if want >= now + 4 {
                let n = want - now - 4;
                attrs.push((ty, Val::Bytes(data(r, n))));
            }
        }
    }
    Plan { class: r.below(4) as u8, method: method(r), tid, attrs }
}

/// One attribute of a wire image.
#[derive(Clone, Debug)]
pub enum Item {
    Tlv { ty: u16, value: Vec<u8>, pad: Vec<u8> },
    /// Correct integrity attribute for the credential.
    Mi(Cred),
    /// Correct fingerprint.
    Fp,
}

/// Wire image built from items, with correct lengths.
#[derive(Clone, Debug)]
pub struct Image {
    pub class: u8,
    pub method: u16,
    pub tid: [u8; 12],
    pub items: Vec<Item>,
}
impl Image {
    pub fn bytes(&self) -> Vec<u8> {
        self.bytes_and_offsets().0
    }
    pub fn bytes_and_offsets(&self) -> (Vec<u8>, Vec<usize>) {
        let mut v = header(self.class, self.method, &self.tid, 0);
        let mut offs = Vec::new();
        for it in &self.items {
            offs.push(v.len());
            match it {
                Item::Tlv { ty, value, pad } => push_tlv(&mut v, *ty, value, pad),
                Item::Mi(c) => {
                    let h = ref_mi(&v, &c.key());
                    push_tlv(&mut v, T_MI, &h, &[]);
                }
                Item::Fp => {
                    let f = ref_fp(&v);
                    push_tlv(&mut v, T_FP, &f.to_be_bytes(), &[]);
                }
            }
        }
        set_len(&mut v);
        (v, offs)
    }
}

#[derive(Clone, Copy)]
pub struct ImgOpt {
    /// Reserved bits of known types may be set.
    pub reserved: bool,
    /// Malformed values may occur (per 100 attributes).
    pub bad: usize,
    /// Padding bytes may be non-zero.
    pub pad: bool,
    /// Chance (per 100 attributes) of correct MESSAGE-INTEGRITY / FINGERPRINT attributes.
    pub auth: usize,
}
pub const VALID: ImgOpt = ImgOpt { reserved: false, bad: 0, pad: true, auth: 8 };
pub const VALID_RES: ImgOpt = ImgOpt { reserved: true, bad: 0, pad: true, auth: 0 };
pub const MESSY: ImgOpt = ImgOpt { reserved: true, bad: 10, pad: true, auth: 8 };

/// Sets reserved bits of a well-formed value at random.
pub fn set_reserved(r: &mut Rng, ty: u16, v: &mut [u8]) {
    match kind_of(ty) {
        Some(Kind::Addr) | Some(Kind::XorAddr) if !v.is_empty() => v[0] = r.u8(),
        Some(Kind::Err) if v.len() >= 4 => {
            v[0] = r.u8();
            v[1] = r.u8();
            v[2] |= r.u8() & 0xf8;
        }
        Some(Kind::Channel) | Some(Kind::Port) if v.len() == 4 => {
            v[2] = r.u8();
            v[3] = r.u8();
        }
        Some(Kind::Even) if v.len() == 1 => v[0] |= r.u8() & 0x7f,
        Some(Kind::Proto) | Some(Kind::Family) if v.len() == 4 => {
            v[1] = r.u8();
            v[2] = r.u8();
            v[3] = r.u8();
        }
        Some(Kind::Change) if v.len() == 4 => {
            let keep = v[3] & 6;
            v[0] = r.u8();
            v[1] = r.u8();
            v[2] = r.u8();
            v[3] = keep | (r.u8() & !6);
        }
        _ => {}
    }
}

/// A wire value that may well be malformed for its type.
pub fn bad_value(r: &mut Rng, ty: u16, tid: &[u8; 12]) -> Vec<u8> {
    let good = val(r, ty, tid);
    let mut v = enc_value(ty, &good, Some(tid));
    match r.below(8) {
        0 => {
            let n = r.below(v.len() + 1);
            v.truncate(n);
        }
        1 => {
            let n = r.range(1, 5);
            v.extend(r.bytes(n));
        }
        2 => {
            let n = r.below(44);
            v = r.bytes(n);
        }
        3 if !v.is_empty() => {
            let i = r.below(v.len());
            v[i] = if r.bool() { r.u8() } else { r.lit() as u8 };
        }
        4 if !v.is_empty() => {
            let i = r.below(v.len().min(4));
            v[i] ^= 1 << r.below(8);
        }
        5 => {
            // over-long text
            let n = *r.pick(&[126usize, 127, 128, 129, 200]);
            v = text_chars(r, n).into_bytes();
        }
        6 => {
            let n = r.range(510, 516);
            v = text_bytes(r, n).into_bytes();
        }
        _ => {
            // broken UTF-8 tails
            v.extend_from_slice(r.pick(&[&b"\xff"[..], b"\xc3", b"\xe3\x83", b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"\xc0\x80"]));
        }
    }
    v
}

/// Types to draw wire attributes from: mostly the set's, sometimes unknown ones.
pub fn wire_type(r: &mut Rng, set: &dyn DynSet) -> u16 {
    let types = set.types();
    if set.knows().raw || types.is_empty() || r.chance(1, 4) {
        any_type(r)
    } else {
        *r.pick(&types)
    }
}

pub fn image(r: &mut Rng, set: &dyn DynSet, o: ImgOpt) -> Image {
    let tid = r.tid();
    let n = n_attrs(r);
    let knows = set.knows();
    let mut items = Vec::with_capacity(n);
    let mut room = 44_000usize;
    for _ in 0..n {
        if room == 0 {
            break;
        }
        room = room.saturating_sub(24);
        if r.chance(o.auth, 100) {
            items.push(if r.bool() { Item::Fp } else { Item::Mi(cred(r)) });
            continue;
        }
        if !items.is_empty() && r.below(8) == 0 {
            // an attribute again (not what depends on its place)
            let i = if r.bool() { items.len() - 1 } else { r.below(items.len()) };
            if let Item::Tlv { ty, value, .. } = &items[i] {
                let again = Item::Tlv { ty: *ty, value: value.clone(), pad: vec![] };
                if *ty != T_FP && value.len() <= room {
                    room -= value.len();
                    items.push(again);
                    continue;
                }
            }
        }
        let ty = wire_type(r, set);
        let known = !knows.raw && (knows.f)(ty);
        let value = if known {
            if ty == T_FP {
                // arbitrary fingerprints would nearly always be wrong
                if o.bad == 0 || r.chance(9, 10) {
                    items.push(Item::Fp);
                    continue;
                }
            }
            if r.chance(o.bad, 100) {
                bad_value(r, ty, &tid)
            } else {
                let v = val(r, ty, &tid);
                let mut b = enc_value(ty, &v, Some(&tid));
                if o.reserved && r.chance(1, 3) {
                    set_reserved(r, ty, &mut b);
                }
                b
            }
        } else {
            let n = data_len(r);
            data(r, n)
        };
        let pad = if o.pad && r.chance(1, 3) { r.bytes(3) } else { vec![] };
        if value.len() > room {
            break;
        }
        room -= value.len();
        items.push(Item::Tlv { ty, value, pad });
    }
    Image { class: r.below(4) as u8, method: method(r), tid, items }
}

/// Numbers of attributes: around powers of two, up to what a message can hold.
pub const CROWDS: [usize; 36] = [
    62, 63, 64, 65, 66, 126, 127, 128, 129, 130, 200, 253, 254, 255, 256, 257, 258, 300, 510, 511, 512, 513, 1000, 1023, 1024, 1025,
    2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 16_000,
];
/// A message of that many attributes, nearly all of them empty, a few of them not.
pub fn crowd(r: &mut Rng, set: &dyn DynSet, n: usize) -> Image {
    let tid = r.tid();
    let knows = set.knows();
    let known: Vec<u16> = [0x0013u16, 0x8022, 0x0025, 0x001a, 0x8030].iter().copied().filter(|t| !knows.raw && (knows.f)(*t)).collect();
    let strange: Vec<u16> = [0x7e57u16, 0xffff, 0x4000, 0xc001].iter().copied().filter(|t| knows.raw || !(knows.f)(*t)).collect();
    let mode = r.below(3);
    let mut room = (65_000 - 4 * n.min(16_000)) as i64;
    let mut items = Vec::with_capacity(n);
    let special: Vec<usize> = (0..8).map(|i| if i < 4 { r.below(n) } else { n - 1 - r.below(n.min(4)) }).collect();
    for i in 0..n {
        let (mut ty, mut value) = match mode {
            0 if !known.is_empty() => (*r.pick(&known), vec![]),
            1 if !known.is_empty() && r.bool() => (*r.pick(&known), vec![]),
            _ => (*r.pick(&strange), vec![]),
        };
        if special.contains(&i) && room > 200 {
            if !knows.raw && r.bool() && !set.types().is_empty() {
                ty = *r.pick(&set.types());
                if ty != T_FP && ty != 8 {
                    let v = val(r, ty, &tid);
                    value = enc_value(ty, &v, Some(&tid));
                }
            }
            if value.is_empty() || value.len() > 150 || ty == T_FP || ty == 8 {
                ty = *r.pick(&strange);
                let k = r.below(100);
                value = r.bytes(k);
            }
            room -= value.len() as i64 + 3;
        }
        items.push(Item::Tlv { ty, value, pad: vec![] });
    }
    Image { class: r.below(4) as u8, method: method(r), tid, items }
}

/// Arbitrary damage to a wire image.
pub fn mutate(r: &mut Rng, b: &mut Vec<u8>) {
    for _ in 0..r.range(1, 3) {
        if b.is_empty() {
            return;
        }
        match r.below(14) {
            0..=2 => {
                let i = r.below(b.len());
                b[i] ^= 1 << r.below(8);
            }
            3 => {
                let i = r.below(b.len());
                match r.below(4) {
                    0 => b[i] = r.lit() as u8,
                    1 if i + 1 < b.len() => {
                        let x = r.lit() as u16;
                        b[i..i + 2].copy_from_slice(&x.to_be_bytes());
                    }
                    _ => b[i] = r.u8(),
                }
            }
            4 => {
                let n = r.below(b.len() + 1);
                b.truncate(n);
            }
            5 => {
                let n = r.range(1, 24);
                let x = r.bytes(n);
                b.extend(x);
            }
            6 | 7 => {
                // message length
                if b.len() >= 4 {
                    let cur = u16::from_be_bytes([b[2], b[3]]);
                    let d = *r.pick(&[1u16, 2, 3, 4, 8, 24]);
                    let n = match r.below(6) {
                        5 => r.lit() as u16,
                        0 => r.u16(),
                        1 => 0,
                        2 => cur.wrapping_add(d),
                        _ => cur.wrapping_sub(d),
                    };
                    b[2..4].copy_from_slice(&n.to_be_bytes());
                }
            }
            8 | 9 => {
                // some attribute's length, if the walk still works
                let offs = walk(b);
                if !offs.is_empty() {
                    let o = *r.pick(&offs);
                    let cur = u16::from_be_bytes([b[o + 2], b[o + 3]]);
                    let d = *r.pick(&[1u16, 2, 3, 4, 5, 8]);
                    let n = match r.below(6) {
                        5 => r.lit() as u16,
                        0 => r.u16(),
                        1 => 0,
                        2 => cur.wrapping_sub(d),
                        _ => cur.wrapping_add(d),
                    };
                    b[o + 2..o + 4].copy_from_slice(&n.to_be_bytes());
                }
            }
            10 => {
                let offs = walk(b);
                if !offs.is_empty() {
                    let o = *r.pick(&offs);
                    let t = any_type(r);
                    b[o..o + 2].copy_from_slice(&t.to_be_bytes());
                }
            }
            11 => {
                // drop or duplicate a slice
                let i = r.below(b.len());
                let j = i + r.below((b.len() - i).min(32));
                if r.bool() {
                    b.drain(i..j);
                } else {
                    let x = b[i..j].to_vec();
                    b.splice(i..i, x);
                }
            }
            12 => {
                // the header again, in the middle
                let n = b.len().min(20);
                let h = b[..n].to_vec();
                let i = r.below(b.len());
                b.splice(i..i, h);
            }
            _ => {
                if b.len() >= 20 {
                    let n = (b.len() - 20) as u16;
                    b[2..4].copy_from_slice(&n.to_be_bytes());
                }
            }
        }
    }
}

/// Offsets of the attributes of a wire image, as far as it can be walked.
pub fn walk(b: &[u8]) -> Vec<usize> {
    let mut v = Vec::new();
    let mut o = 20;
    while o + 4 <= b.len() {
        v.push(o);
        let n = usize::from(u16::from_be_bytes([b[o + 2], b[o + 3]]));
        o += 4 + n + pad_len(n);
    }
    v
}

/// Unstructured or half-structured bytes.
pub fn noise(r: &mut Rng) -> Vec<u8> {
    let n = match r.below(4) {
        0 => r.below(24),
        1 => r.below(600),
        _ => r.below(100),
    };
    let mut b = r.bytes(n);
    if r.chance(3, 4) && n >= 8 {
        b[0] &= 0x3f;
        b[4..8].copy_from_slice(&COOKIE);
        if n >= 20 {
            let len = match r.below(3) {
                0 => (n - 20) as u16,
                1 => r.below(n) as u16,
                _ => r.u16() & 0x1fff,
            };
            b[2..4].copy_from_slice(&len.to_be_bytes());
            let mut o = 20;
            // plausible attribute headers
            while o + 4 <= n && r.chance(4, 5) {
                let t = any_type(r);
                b[o..o + 2].copy_from_slice(&t.to_be_bytes());
                let rest = n - o - 4;
                let vl = if r.chance(1, 6) { r.below(rest + 5) } else { r.below(rest.min(24) + 1) };
                b[o + 2..o + 4].copy_from_slice(&(vl as u16).to_be_bytes());
                o += 4 + vl + pad_len(vl);
            }
        }
    }
    b
}

/// Sizes of consecutive pieces, then `usize::MAX`.
#[derive(Clone, Debug)]
pub enum Cut {
    All,
    Fixed(usize),
    Sizes(Vec<usize>),
}
impl Cut {
    pub fn size(&self, i: usize) -> usize {
        match self {
            Cut::All => usize::MAX,
            Cut::Fixed(n) => *n,
            Cut::Sizes(v) => v.get(i).copied().unwrap_or(usize::MAX),
        }
    }
}
pub fn cut(r: &mut Rng, len: usize) -> Cut {
    match r.below(10) {
        0 => Cut::All,
        1 => Cut::Fixed(1),
        2 => Cut::Fixed(*r.pick(&[2, 3, 4, 5, 7, 8, 16, 20])),
        3 => Cut::Sizes(vec![r.below(len + 1)]),
        4 => Cut::Sizes(vec![r.below(21), r.below(5), r.below(9)]),
        _ => {
            let max = *r.pick(&[2usize, 3, 4, 6, 12, 40, 200]);
            let mut v = Vec::new();
            let mut sum = 0;
            while sum < len {
                let n = if r.chance(1, 8) { 0 } else { r.range(1, max) };
                v.push(n);
                sum += n;
                if v.len() > 4000 {
                    break;
                }
            }
            Cut::Sizes(v)
        }
    }
}
