//! Executable model of the wire format, written from the RFCs.
use crate::crypto;
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr};

pub const COOKIE: [u8; 4] = [0x21, 0x12, 0xa4, 0x42];
pub const FP_XOR: u32 = 0x5354_554e;
pub const T_MI: u16 = 0x0008;
pub const T_FP: u16 = 0x8028;

/// Value of an attribute as the API shows it.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Val {
    Addr(IpAddr, u16),
    Text(String),
    Bytes(Vec<u8>),
    Err(u16, String),
    Types(Vec<u16>),
    U8(u8),
    U16(u16),
    U32(u32),
    U64(u64),
    Bool(bool),
    Change(bool, bool),
    Unit,
    Hmac([u8; 20]),
    Family(u8),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Addr,
    XorAddr,
    /// UTF-8, fewer than 513 bytes
    Name,
    /// UTF-8, fewer than 128 characters
    Text,
    Hmac,
    Err,
    Types,
    /// 16 bits and 16 reserved bits
    Port,
    Channel,
    U32,
    Fp,
    U64,
    Bytes,
    Even,
    Proto,
    Unit,
    Change,
    Family,
}

/// Every attribute the crate supports: type, name, layout.
pub const TYPES: [(u16, &str, Kind); 32] = [
    (0x0001, "MappedAddress", Kind::Addr),
    (0x0006, "Username", Kind::Name),
    (0x0008, "MessageIntegrity", Kind::Hmac),
    (0x0009, "ErrorCode", Kind::Err),
    (0x000A, "UnknownAttributes", Kind::Types),
    (0x0014, "Realm", Kind::Text),
    (0x0015, "Nonce", Kind::Text),
    (0x0020, "XorMappedAddress", Kind::XorAddr),
    (0x8020, "XorMappedAddress2", Kind::XorAddr),
    (0x8022, "Software", Kind::Text),
    (0x8023, "AlternateServer", Kind::Addr),
    (0x8028, "Fingerprint", Kind::Fp),
    (0x000C, "ChannelNumber", Kind::Channel),
    (0x000D, "Lifetime", Kind::U32),
    (0x0012, "XorPeerAddress", Kind::XorAddr),
    (0x0013, "Data", Kind::Bytes),
    (0x0016, "XorRelayAddress", Kind::XorAddr),
    (0x0018, "EvenPort", Kind::Even),
    (0x0019, "RequestedTransport", Kind::Proto),
    (0x001A, "DontFragment", Kind::Unit),
    (0x0022, "ReservationToken", Kind::U64),
    (0x0024, "Priority", Kind::U32),
    (0x0025, "UseCandidate", Kind::Unit),
    (0x8029, "IceControlled", Kind::U64),
    (0x802A, "IceControlling", Kind::U64),
    (0x0003, "ChangeRequest", Kind::Change),
    (0x802b, "ResponseOrigin", Kind::Addr),
    (0x802c, "OtherAddress", Kind::Addr),
    (0x0027, "ResponsePort", Kind::Port),
    (0x8030, "MobilityTicket", Kind::Bytes),
    (0x0017, "RequestedAddressFamily", Kind::Family),
    (0x8000, "AdditionalAddressFamily", Kind::Family),
];

pub fn kind_of(ty: u16) -> Option<Kind> {
    TYPES.iter().find(|t| t.0 == ty).map(|t| t.2)
}

pub fn type_name(ty: u16) -> String {
    TYPES
        .iter()
        .find(|t| t.0 == ty)
        .map_or_else(|| format!("0x{:04x}", ty), |t| t.1.to_string())
}

fn xor_ip(ip: IpAddr, tid: &[u8; 12]) -> IpAddr {
    let mut mask = [0u8; 16];
    mask[..4].copy_from_slice(&COOKIE);
    mask[4..].copy_from_slice(tid);
    match ip {
        IpAddr::V4(a) => {
            let mut o = a.octets();
            o.iter_mut().zip(mask).for_each(|(x, m)| *x ^= m);
            IpAddr::V4(Ipv4Addr::from(o))
        }
        IpAddr::V6(a) => {
            let mut o = a.octets();
            o.iter_mut().zip(mask).for_each(|(x, m)| *x ^= m);
            IpAddr::V6(Ipv6Addr::from(o))
        }
    }
}

/// The reference XOR of an address.
pub fn xor_addr(ip: IpAddr, port: u16, tid: &[u8; 12]) -> (IpAddr, u16) {
    (xor_ip(ip, tid), port ^ 0x2112)
}

pub fn enc_addr(ip: IpAddr, port: u16) -> Vec<u8> {
    let mut v = vec![0];
    match ip {
        IpAddr::V4(a) => {
            v.push(1);
            v.extend_from_slice(&port.to_be_bytes());
            v.extend_from_slice(&a.octets());
        }
        IpAddr::V6(a) => {
            v.push(2);
            v.extend_from_slice(&port.to_be_bytes());
            v.extend_from_slice(&a.octets());
        }
    }
    v
}

/// Wire form of a value. `tid` is `None` for the standalone codecs, which do not mask addresses.
pub fn enc_value(ty: u16, val: &Val, tid: Option<&[u8; 12]>) -> Vec<u8> {
    match (kind_of(ty), val) {
        (Some(Kind::XorAddr), Val::Addr(ip, port)) => match tid {
            Some(t) => {
                let (ip, port) = xor_addr(*ip, *port, t);
                enc_addr(ip, port)
            }
            None => enc_addr(*ip, *port),
        },
        (_, Val::Addr(ip, port)) => enc_addr(*ip, *port),
        (_, Val::Text(s)) => s.as_bytes().to_vec(),
        (_, Val::Bytes(b)) => b.clone(),
        (_, Val::Err(code, reason)) => {
            let mut v = vec![0, 0, (code / 100) as u8, (code % 100) as u8];
            v.extend_from_slice(reason.as_bytes());
            v
        }
        (_, Val::Types(ts)) => ts.iter().flat_map(|t| t.to_be_bytes()).collect(),
        (Some(Kind::Proto), Val::U8(p)) => vec![*p, 0, 0, 0],
        (_, Val::U8(p)) => vec![*p],
        (_, Val::U16(p)) => {
            let b = p.to_be_bytes();
            vec![b[0], b[1], 0, 0]
        }
        (_, Val::U32(n)) => n.to_be_bytes().to_vec(),
        (_, Val::U64(n)) => n.to_be_bytes().to_vec(),
        (_, Val::Bool(b)) => vec![if *b { 0x80 } else { 0 }],
        (_, Val::Change(ip, port)) => {
            vec![0, 0, 0, (if *ip { 4 } else { 0 }) | (if *port { 2 } else { 0 })]
        }
        (_, Val::Unit) => vec![],
        (_, Val::Hmac(h)) => h.to_vec(),
        (_, Val::Family(f)) => vec![*f, 0, 0, 0],
    }
}

/// Value on the wire -> API value, or the reason why it is malformed.
pub fn dec_value(ty: u16, b: &[u8], tid: Option<&[u8; 12]>) -> Result<Val, &'static str> {
    let kind = kind_of(ty).expect("known type");
    let u32v = || -> Result<u32, &'static str> {
        <[u8; 4]>::try_from(b).map(u32::from_be_bytes).map_err(|_| "length")
    };
    let u64v = || -> Result<u64, &'static str> {
        <[u8; 8]>::try_from(b).map(u64::from_be_bytes).map_err(|_| "length")
    };
    let text = || -> Result<String, &'static str> {
        std::str::from_utf8(b).map(|s| s.to_owned()).map_err(|_| "utf8")
    };
    Ok(match kind {
        Kind::Addr | Kind::XorAddr => {
            if b.len() < 4 {
                return Err("length");
            }
            let port = u16::from_be_bytes([b[2], b[3]]);
            let ip: IpAddr = match (b[1], b.len()) {
                (1, 8) => IpAddr::V4(<[u8; 4]>::try_from(&b[4..]).unwrap().into()),
                (2, 20) => IpAddr::V6(<[u8; 16]>::try_from(&b[4..]).unwrap().into()),
                (1, _) | (2, _) => return Err("length"),
                _ => return Err("family"),
            };
            match (kind, tid) {
                (Kind::XorAddr, Some(t)) => {
                    let (ip, port) = xor_addr(ip, port, t);
                    Val::Addr(ip, port)
                }
                _ => Val::Addr(ip, port),
            }
        }
        Kind::Name => {
            let s = text()?;
            if s.len() > 512 {
                return Err("limit");
            }
            Val::Text(s)
        }
        Kind::Text => {
            let s = text()?;
            if s.chars().count() > 127 {
                return Err("limit");
            }
            Val::Text(s)
        }
        Kind::Hmac => Val::Hmac(<[u8; 20]>::try_from(b).map_err(|_| "length")?),
        Kind::Err => {
            if b.len() < 4 {
                return Err("length");
            }
            let class = u16::from(b[2] & 7);
            let number = u16::from(b[3]);
            if !(3..=5).contains(&class) || number > 99 {
                return Err("range");
            }
            let reason = std::str::from_utf8(&b[4..]).map_err(|_| "utf8")?;
            Val::Err(class * 100 + number, reason.to_owned())
        }
        Kind::Types => {
            if b.len() % 2 != 0 {
                return Err("length");
            }
            Val::Types(b.chunks_exact(2).map(|c| u16::from_be_bytes([c[0], c[1]])).collect())
        }
        Kind::Port => Val::U16((u32v()? >> 16) as u16),
        Kind::Channel => {
            let n = (u32v()? >> 16) as u16;
            if !(0x4000..=0x4FFF).contains(&n) {
                return Err("range");
            }
            Val::U16(n)
        }
        Kind::U32 | Kind::Fp => Val::U32(u32v()?),
        Kind::U64 => Val::U64(u64v()?),
        Kind::Bytes => Val::Bytes(b.to_vec()),
        Kind::Even => match b {
            [x] => Val::Bool(x & 0x80 != 0),
            _ => return Err("length"),
        },
        Kind::Proto => Val::U8((u32v()? >> 24) as u8),
        Kind::Unit => {
            if !b.is_empty() {
                return Err("length");
            }
            Val::Unit
        }
        Kind::Change => {
            let n = u32v()?;
            Val::Change(n & 4 != 0, n & 2 != 0)
        }
        Kind::Family => match (u32v()? >> 24) as u8 {
            f @ (1 | 2) => Val::Family(f),
            _ => return Err("family"),
        },
    })
}

/// What an observer can see of a message through the API.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Snap {
    pub class: u8,
    pub method: u16,
    pub tid: [u8; 12],
    pub known: Vec<(u16, Val)>,
    pub unknown: Vec<(u16, Vec<u8>)>,
}

pub fn msg_type(class: u8, method: u16) -> u16 {
    let c = u16::from(class);
    // M11..M7 C1 M6..M4 C0 M3..M0
    let mut t = 0u16;
    for bit in 0..12 {
        if method >> bit & 1 == 1 {
            let pos = match bit {
                0..=3 => bit,
                4..=6 => bit + 1,
                _ => bit + 2,
            };
            t |= 1 << pos;
        }
    }
    if c & 1 == 1 {
        t |= 1 << 4;
    }
    if c & 2 == 2 {
        t |= 1 << 8;
    }
    t
}

pub fn split_type(t: u16) -> (u8, u16) {
    let class = (t >> 4 & 1) as u8 | ((t >> 8 & 1) as u8) << 1;
    let mut m = 0;
    for bit in 0..12u16 {
        let pos = match bit {
            0..=3 => bit,
            4..=6 => bit + 1,
            _ => bit + 2,
        };
        m |= (t >> pos & 1) << bit;
    }
    (class, m)
}

pub fn header(class: u8, method: u16, tid: &[u8; 12], len: u16) -> Vec<u8> {
    let mut v = Vec::with_capacity(20);
    v.extend_from_slice(&msg_type(class, method).to_be_bytes());
    v.extend_from_slice(&len.to_be_bytes());
    v.extend_from_slice(&COOKIE);
    v.extend_from_slice(tid);
    v
}

pub fn pad_len(n: usize) -> usize {
    (4 - n % 4) % 4
}

/// Appends one TLV; `pad` gives the padding bytes (zeros beyond its end).
pub fn push_tlv(out: &mut Vec<u8>, ty: u16, value: &[u8], pad: &[u8]) {
    out.extend_from_slice(&ty.to_be_bytes());
    out.extend_from_slice(&(value.len() as u16).to_be_bytes());
    out.extend_from_slice(value);
    for i in 0..pad_len(value.len()) {
        out.push(pad.get(i).copied().unwrap_or(0));
    }
}

pub fn set_len(msg: &mut [u8]) {
    let n = (msg.len() - 20) as u16;
    msg[2..4].copy_from_slice(&n.to_be_bytes());
}

/// The bytes MESSAGE-INTEGRITY / FINGERPRINT cover, given everything before the attribute.
pub fn covered(prefix: &[u8], extra: usize) -> Vec<u8> {
    let mut p = prefix.to_vec();
    let n = (prefix.len() - 20 + extra) as u16;
    p[2..4].copy_from_slice(&n.to_be_bytes());
    p
}

pub fn ref_mi(prefix: &[u8], key: &[u8]) -> [u8; 20] {
    crypto::hmac_sha1(key, &covered(prefix, 24))
}

pub fn ref_fp(prefix: &[u8]) -> u32 {
    crypto::crc32(&covered(prefix, 8)) ^ FP_XOR
}

/// Reference encoding of a message built through the API.
pub fn enc_msg(class: u8, method: u16, tid: &[u8; 12], attrs: &[(u16, Val)]) -> Vec<u8> {
    let mut v = header(class, method, tid, 0);
    for (ty, val) in attrs {
        push_tlv(&mut v, *ty, &enc_value(*ty, val, Some(tid)), &[]);
    }
    set_len(&mut v);
    v
}

#[derive(Clone, Debug)]
pub struct WAttr {
    pub ty: u16,
    pub off: usize,
    pub value: Vec<u8>,
    pub pad: Vec<u8>,
    /// `None`: unknown to the set.
    pub val: Option<Val>,
}
impl WAttr {
    /// Wire value with the reserved bits cleared.
    pub fn normal(&self, raw: bool, tid: &[u8; 12]) -> Vec<u8> {
        match &self.val {
            Some(v) if !raw => enc_value(self.ty, v, Some(tid)),
            _ => self.value.clone(),
        }
    }
}

#[derive(Clone, Debug)]
pub enum Parsed {
    /// Not enough bytes (`need` in total; 20 while the header is incomplete).
    Short { need: usize },
    /// Complete header that must be refused.
    Reject(&'static str),
    Msg(Box<PMsg>),
}

#[derive(Clone, Debug)]
pub struct PMsg {
    pub class: u8,
    pub method: u16,
    pub tid: [u8; 12],
    pub total: usize,
    pub attrs: Vec<WAttr>,
    /// Why the attribute section is malformed.
    pub bad: Option<String>,
    /// The verdict of some fingerprint depends on reserved bits before it (known finding).
    pub ambiguous: bool,
    /// Some known attribute has reserved bits set.
    pub reserved: bool,
    /// Re-encoding: received bytes with the reserved bits of known attributes cleared.
    pub normal: Vec<u8>,
}
impl PMsg {
    pub fn snap(&self) -> Snap {
        let mut s = Snap {
            class: self.class,
            method: self.method,
            tid: self.tid,
            known: Vec::new(),
            unknown: Vec::new(),
        };
        for a in &self.attrs {
            match &a.val {
                Some(v) => s.known.push((a.ty, v.clone())),
                None => s.unknown.push((a.ty, a.value.clone())),
            }
        }
        s
    }
}

/// Which types a set knows and how.
#[derive(Clone, Copy)]
pub struct Knows {
    pub f: fn(u16) -> bool,
    /// Everything is known, as raw bytes.
    pub raw: bool,
}

/// Reference parser: the first message in `b`.
pub fn parse(b: &[u8], knows: Knows) -> Parsed {
    if b.len() < 20 {
        return Parsed::Short { need: 20 };
    }
    if b[0] >> 6 != 0 {
        return Parsed::Reject("first two bits");
    }
    if b[4..8] != COOKIE {
        return Parsed::Reject("cookie");
    }
    let (class, method) = split_type(u16::from_be_bytes([b[0], b[1]]));
    let len = usize::from(u16::from_be_bytes([b[2], b[3]]));
    let total = 20 + len;
    if b.len() < total {
        return Parsed::Short { need: total };
    }
    let b = &b[..total];
    let tid: [u8; 12] = b[8..20].try_into().unwrap();
    let mut m = PMsg {
        class,
        method,
        tid,
        total,
        attrs: Vec::new(),
        bad: None,
        ambiguous: false,
        reserved: false,
        normal: b[..20].to_vec(),
    };
    let mut off = 20;
    let mut bad: Option<String> = None;
    while off < total {
        if total - off < 4 {
            bad = Some("truncated attribute header".into());
            break;
        }
        let ty = u16::from_be_bytes([b[off], b[off + 1]]);
        let vl = usize::from(u16::from_be_bytes([b[off + 2], b[off + 3]]));
        let pl = pad_len(vl);
        if total - off - 4 < vl + pl {
            bad = Some(format!("attribute {} overruns the message", type_name(ty)));
            break;
        }
        let value = b[off + 4..off + 4 + vl].to_vec();
        let pad = b[off + 4 + vl..off + 4 + vl + pl].to_vec();
        let val = if knows.raw {
            Some(Val::Bytes(value.clone()))
        } else if (knows.f)(ty) {
            match dec_value(ty, &value, Some(&tid)) {
                Ok(v) => Some(v),
                Err(e) => {
                    bad = Some(format!("{}: {}", type_name(ty), e));
                    break;
                }
            }
        } else {
            None
        };
        m.attrs.push(WAttr { ty, off, value, pad, val });
        off += 4 + vl + pl;
    }
    if bad.is_none() {
        for i in 0..m.attrs.len() {
            let a = &m.attrs[i];
            let normal = a.normal(knows.raw, &tid);
            if a.ty == T_FP && !knows.raw {
                if let Some(Val::U32(crc)) = a.val {
                    let ok = ref_fp(&b[..a.off]) == crc;
                    let ok_normal = if m.reserved { ref_fp(&m.normal) == crc } else { ok };
                    if ok != ok_normal {
                        m.ambiguous = true;
                    }
                    if !ok && bad.is_none() {
                        bad = Some(format!("fingerprint of attribute {}", i));
                    }
                }
            }
            if normal != a.value {
                m.reserved = true;
            }
            let (ty, pad) = (a.ty, a.pad.clone());
            push_tlv(&mut m.normal, ty, &normal, &pad);
        }
    }
    m.bad = bad;
    Parsed::Msg(Box::new(m))
}
