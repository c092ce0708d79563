//! Uniform, non-generic access to every attribute set, message and codec of the crate.
use crate::model::{Knows, Snap, Val};
use bytecodec::{ByteCount, Decode, Encode, Eos, ErrorKind, SizedEncode};
use std::any::Any;
use std::fmt::Debug;
use std::hash::Hash;
use std::marker::PhantomData;
use std::net::SocketAddr;
use stun_codec::convert::TryAsRef;
pub use stun_codec::rfc5245::attributes::*;
pub use stun_codec::rfc5389::attributes::*;
pub use stun_codec::rfc5766::attributes::*;
pub use stun_codec::rfc5780::attributes::*;
pub use stun_codec::rfc8016::attributes::*;
pub use stun_codec::rfc8656::attributes::*;
use stun_codec::{
    define_attribute_enums, Attribute, AttributeType, Message, MessageClass, MessageDecoder,
    MessageEncoder, Method, RawAttribute, TransactionId,
};

/// For codecs that have no constructor of their own; an inherent `new` is preferred.
#[allow(dead_code)]
trait New: Default {
    fn new() -> Self {
        Self::default()
    }
}
impl<T: Default> New for T {}

/// One shipped attribute type.
pub trait One: Attribute + Debug + Clone + Eq + Hash + 'static {
    const TY: u16;
    fn val(&self) -> Val;
    fn make(v: &Val) -> Option<Self>;
}

macro_rules! one {
    ($t:ident, $ty:expr, $a:ident => $get:expr, $pat:pat => $new:expr) => {
        impl One for $t {
            const TY: u16 = $ty;
            fn val(&self) -> Val {
                let $a = self;
                $get
            }
            fn make(v: &Val) -> Option<Self> {
                #[allow(unreachable_patterns)]
                match v {
                    $pat => $new,
                    _ => None,
                }
            }
        }
    };
}
macro_rules! one_addr {
    ($t:ident, $ty:expr) => {
        one!($t, $ty, a => Val::Addr(a.address().ip(), a.address().port()),
             Val::Addr(ip, port) => Some($t::new(SocketAddr::new(*ip, *port))));
    };
}
one_addr!(MappedAddress, 0x0001);
one_addr!(XorMappedAddress, 0x0020);
one_addr!(XorMappedAddress2, 0x8020);
one_addr!(AlternateServer, 0x8023);
one_addr!(XorPeerAddress, 0x0012);
one_addr!(XorRelayAddress, 0x0016);
one_addr!(ResponseOrigin, 0x802b);
one_addr!(OtherAddress, 0x802c);
one!(Username, 0x0006, a => Val::Text(a.name().to_owned()), Val::Text(s) => Username::new(s.clone()).ok());
one!(Realm, 0x0014, a => Val::Text(a.text().to_owned()), Val::Text(s) => Realm::new(s.clone()).ok());
one!(Nonce, 0x0015, a => Val::Text(a.value().to_owned()), Val::Text(s) => Nonce::new(s.clone()).ok());
one!(Software, 0x8022, a => Val::Text(a.description().to_owned()), Val::Text(s) => Software::new(s.clone()).ok());
one!(ErrorCode, 0x0009, a => Val::Err(a.code(), a.reason_phrase().to_owned()),
     Val::Err(c, s) => ErrorCode::new(*c, s.clone()).ok());
one!(UnknownAttributes, 0x000A, a => Val::Types(a.unknowns().iter().map(|t| t.as_u16()).collect()),
     Val::Types(ts) => Some(UnknownAttributes::new(ts.iter().map(|t| AttributeType::new(*t)).collect())));
// These two have no public constructor for arbitrary values: their standalone decoders make them.
one!(MessageIntegrity, 0x0008, a => Val::Hmac(a.hmac_sha1()), Val::Hmac(h) => by_decoder::<MessageIntegrity>(&h[..]));
one!(Fingerprint, 0x8028, a => Val::U32(a.crc32()), Val::U32(n) => by_decoder::<Fingerprint>(&n.to_be_bytes()));
one!(ChannelNumber, 0x000C, a => Val::U16(ChannelNumber::value(a.clone())), Val::U16(n) => ChannelNumber::new(*n).ok());
one!(Lifetime, 0x000D, a => {
        let d = a.lifetime();
        match u32::try_from(d.as_secs()) {
            Ok(n) if d.subsec_nanos() == 0 => Val::U32(n),
            _ => Val::Text(format!("{:?}", d)),
        }
    }, Val::U32(n) => Some(Lifetime::from_u32(*n)));
one!(Data, 0x0013, a => Val::Bytes(a.data().to_vec()), Val::Bytes(b) => Data::new(b.clone()).ok());
one!(EvenPort, 0x0018, a => Val::Bool(a.is_requested()), Val::Bool(b) => Some(EvenPort::new(*b)));
one!(RequestedTransport, 0x0019, a => Val::U8(a.protocol()), Val::U8(p) => Some(RequestedTransport::new(*p)));
one!(DontFragment, 0x001A, _a => Val::Unit, Val::Unit => Some(DontFragment));
one!(ReservationToken, 0x0022, a => Val::U64(a.token()), Val::U64(n) => Some(ReservationToken::new(*n)));
one!(Priority, 0x0024, a => Val::U32(a.prio()), Val::U32(n) => Some(Priority::new(*n)));
one!(UseCandidate, 0x0025, _a => Val::Unit, Val::Unit => {
    // either way is the same
    static ODD: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
    Some(if ODD.fetch_xor(true, std::sync::atomic::Ordering::Relaxed) { UseCandidate::default() } else { UseCandidate::new() })
});
one!(IceControlled, 0x8029, a => Val::U64(a.prio()), Val::U64(n) => Some(IceControlled::new(*n)));
one!(IceControlling, 0x802A, a => Val::U64(a.prio()), Val::U64(n) => Some(IceControlling::new(*n)));
one!(ChangeRequest, 0x0003, a => Val::Change(a.ip(), a.port()), Val::Change(i, p) => Some(ChangeRequest::new(*i, *p)));
one!(ResponsePort, 0x0027, a => Val::U16(a.port()), Val::U16(n) => Some(ResponsePort::new(*n)));
one!(MobilityTicket, 0x8030, a => Val::Bytes(a.data().to_vec()), Val::Bytes(b) => MobilityTicket::new(b.clone()).ok());
one!(RequestedAddressFamily, 0x0017, a => fam(a.address_family()), Val::Family(f) => Some(RequestedAddressFamily::new(unfam(*f))));
one!(AdditionalAddressFamily, 0x8000, a => fam(a.address_family()), Val::Family(f) => Some(AdditionalAddressFamily::new(unfam(*f))));

fn fam(f: AddressFamily) -> Val {
    Val::Family(match f {
        AddressFamily::V4 => 1,
        AddressFamily::V6 => 2,
    })
}
fn unfam(f: u8) -> AddressFamily {
    if f == 1 {
        AddressFamily::V4
    } else {
        AddressFamily::V6
    }
}
fn by_decoder<T: One>(bytes: &[u8]) -> Option<T> {
    let mut d = T::Decoder::default();
    let n = d.decode(bytes, Eos::new(true)).ok()?;
    if n != bytes.len() {
        return None;
    }
    d.finish_decoding().ok()
}
fn cast<T: Any, U: Any>(t: T) -> Option<U> {
    let b: Box<dyn Any> = Box::new(t);
    b.downcast::<U>().ok().map(|b| *b)
}
fn cast_ref<T: Any, U: Any>(t: &T) -> Option<&U> {
    (t as &dyn Any).downcast_ref::<U>()
}

/// An attribute set: what a message is generic over.
pub trait Set: Attribute + Debug + 'static {
    const NAME: &'static str;
    const RAW: bool;
    fn knows(ty: u16) -> bool;
    fn value(&self) -> Val;
    fn build(ty: u16, v: &Val) -> Option<Self>;
    /// First attribute of a type by lookup (`None`: lookup is not available in this set).
    fn lookup(msg: &Message<Self>, ty: u16) -> Option<Option<Val>>;
    fn mi(&self) -> Option<&MessageIntegrity>;
    fn from_mi(mi: MessageIntegrity) -> Option<Self>;
    fn from_fp(fp: Fingerprint) -> Option<Self>;
    /// How two attributes compare (`None`: they cannot be compared).
    fn same(a: &Self, b: &Self) -> Option<Same>;
    /// The attribute seen as one of a given type (`None`: not available in this set).
    fn as_type(&self, ty: u16) -> Option<Option<Val>>;
    /// New codecs, made by their constructors where these can be named (and else by default, as those within messages).
    fn new_decoder() -> Self::Decoder {
        Default::default()
    }
    fn new_encoder() -> Self::Encoder {
        Default::default()
    }
}

/// What `==`, `!=` (both ways) and the hashes say about two values.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Same {
    pub eq: bool,
    pub eq_back: bool,
    pub ne: bool,
    pub hash: bool,
}
pub fn same<T: Eq + Hash>(a: &T, b: &T) -> Same {
    let h = |t: &T| {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        t.hash(&mut h);
        std::hash::Hasher::finish(&h)
    };
    Same { eq: a == b, eq_back: b == a, ne: a != b, hash: h(a) == h(b) }
}

impl<T: One> Set for T {
    fn same(a: &Self, b: &Self) -> Option<Same> {
        Some(same(a, b))
    }
    fn as_type(&self, _: u16) -> Option<Option<Val>> {
        None
    }
    const NAME: &'static str = "single";
    const RAW: bool = false;
    fn knows(ty: u16) -> bool {
        ty == T::TY
    }
    fn value(&self) -> Val {
        self.val()
    }
    fn build(ty: u16, v: &Val) -> Option<Self> {
        if ty == T::TY {
            T::make(v)
        } else {
            None
        }
    }
    fn lookup(_: &Message<Self>, _: u16) -> Option<Option<Val>> {
        None
    }
    fn mi(&self) -> Option<&MessageIntegrity> {
        cast_ref(self)
    }
    fn from_mi(mi: MessageIntegrity) -> Option<Self> {
        cast(mi)
    }
    fn from_fp(fp: Fingerprint) -> Option<Self> {
        cast(fp)
    }
}

impl Set for RawAttribute {
    fn new_decoder() -> Self::Decoder {
        <<Self as Attribute>::Decoder>::new()
    }
    fn new_encoder() -> Self::Encoder {
        <<Self as Attribute>::Encoder>::new()
    }
    fn same(_: &Self, _: &Self) -> Option<Same> {
        None
    }
    fn as_type(&self, _: u16) -> Option<Option<Val>> {
        None
    }
    const NAME: &'static str = "raw";
    const RAW: bool = true;
    fn knows(_: u16) -> bool {
        true
    }
    fn value(&self) -> Val {
        Val::Bytes(RawAttribute::value(self).to_vec())
    }
    fn build(ty: u16, v: &Val) -> Option<Self> {
        match v {
            Val::Bytes(b) => Some(RawAttribute::new(AttributeType::new(ty), b.clone())),
            _ => None,
        }
    }
    fn lookup(_: &Message<Self>, _: u16) -> Option<Option<Val>> {
        None
    }
    fn mi(&self) -> Option<&MessageIntegrity> {
        None
    }
    fn from_mi(_: MessageIntegrity) -> Option<Self> {
        None
    }
    fn from_fp(_: Fingerprint) -> Option<Self> {
        None
    }
}

macro_rules! enum_set {
    ($name:expr, $e:ty, $m:ident, [$($v:ident),*]) => {
        impl Set for $e {
    fn new_decoder() -> Self::Decoder {
        <<Self as Attribute>::Decoder>::new()
    }
    fn new_encoder() -> Self::Encoder {
        <<Self as Attribute>::Encoder>::new()
    }
            fn same(a: &Self, b: &Self) -> Option<Same> {
                Some(same(a, b))
            }
            fn as_type(&self, ty: u16) -> Option<Option<Val>> {
                $(if ty == <$v as One>::TY {
                    return Some(TryAsRef::<$v>::try_as_ref(self).map(One::val));
                })*
                None
            }
            const NAME: &'static str = $name;
            const RAW: bool = false;
            fn knows(ty: u16) -> bool {
                [$(<$v as One>::TY),*].contains(&ty)
            }
            fn value(&self) -> Val {
                match self {
                    $(Self::$v(a) => One::val(a)),*
                }
            }
            fn build(ty: u16, v: &Val) -> Option<Self> {
                $(if ty == <$v as One>::TY {
                    return <$v as One>::make(v).map(Into::into);
                })*
                None
            }
            fn lookup(msg: &Message<Self>, ty: u16) -> Option<Option<Val>> {
                $(if ty == <$v as One>::TY {
                    return Some(msg.get_attribute::<$v>().map(One::val));
                })*
                None
            }
            fn mi(&self) -> Option<&MessageIntegrity> {
                $(if let Some(a) = TryAsRef::<$v>::try_as_ref(self) {
                    return cast_ref(a);
                })*
                None
            }
            fn from_mi(mi: MessageIntegrity) -> Option<Self> {
                $(if let Some(a) = cast::<_, $v>(mi.clone()) {
                    return Some(a.into());
                })*
                None
            }
            fn from_fp(fp: Fingerprint) -> Option<Self> {
                $(if let Some(a) = cast::<_, $v>(fp.clone()) {
                    return Some(a.into());
                })*
                None
            }
        }
    };
}

define_attribute_enums!(
    All, AllDecoder, AllEncoder,
    [MappedAddress, Username, MessageIntegrity, ErrorCode, UnknownAttributes, Realm, Nonce,
     XorMappedAddress, XorMappedAddress2, Software, AlternateServer, Fingerprint, ChannelNumber,
     Lifetime, XorPeerAddress, Data, XorRelayAddress, EvenPort, RequestedTransport, DontFragment,
     ReservationToken, Priority, UseCandidate, IceControlled, IceControlling, ChangeRequest,
     ResponseOrigin, OtherAddress, ResponsePort, MobilityTicket, RequestedAddressFamily,
     AdditionalAddressFamily]
);
define_attribute_enums!(
    Sparse, SparseDecoder, SparseEncoder,
    [Data, Fingerprint, XorPeerAddress, MessageIntegrity, EvenPort, Username, ErrorCode, DontFragment]
);
define_attribute_enums!(Auth, AuthDecoder, AuthEncoder, [MessageIntegrity, Fingerprint]);

enum_set!("rfc5389", stun_codec::rfc5389::Attribute, r5389,
    [MappedAddress, Username, MessageIntegrity, ErrorCode, UnknownAttributes, Realm, Nonce,
     XorMappedAddress, XorMappedAddress2, Software, AlternateServer, Fingerprint]);
enum_set!("rfc5766", stun_codec::rfc5766::Attribute, r5766,
    [ChannelNumber, Lifetime, XorPeerAddress, Data, XorRelayAddress, EvenPort, RequestedTransport,
     DontFragment, ReservationToken]);
enum_set!("rfc5245", stun_codec::rfc5245::Attribute, r5245,
    [Priority, UseCandidate, IceControlled, IceControlling]);
enum_set!("rfc5780", stun_codec::rfc5780::Attribute, r5780,
    [ChangeRequest, ResponseOrigin, ResponsePort, OtherAddress]);
enum_set!("all", All, all,
    [MappedAddress, Username, MessageIntegrity, ErrorCode, UnknownAttributes, Realm, Nonce,
     XorMappedAddress, XorMappedAddress2, Software, AlternateServer, Fingerprint, ChannelNumber,
     Lifetime, XorPeerAddress, Data, XorRelayAddress, EvenPort, RequestedTransport, DontFragment,
     ReservationToken, Priority, UseCandidate, IceControlled, IceControlling, ChangeRequest,
     ResponseOrigin, OtherAddress, ResponsePort, MobilityTicket, RequestedAddressFamily,
     AdditionalAddressFamily]);
enum_set!("sparse", Sparse, sparse,
    [Data, Fingerprint, XorPeerAddress, MessageIntegrity, EvenPort, Username, ErrorCode, DontFragment]);
enum_set!("auth", Auth, auth, [MessageIntegrity, Fingerprint]);

pub fn class_of(c: u8) -> MessageClass {
    match c & 3 {
        0 => MessageClass::Request,
        1 => MessageClass::Indication,
        2 => MessageClass::SuccessResponse,
        _ => MessageClass::ErrorResponse,
    }
}
pub fn class_num(c: MessageClass) -> u8 {
    match c {
        MessageClass::Request => 0,
        MessageClass::Indication => 1,
        MessageClass::SuccessResponse => 2,
        MessageClass::ErrorResponse => 3,
    }
}

pub type R<T> = Result<T, ErrorKind>;
fn k<T>(r: bytecodec::Result<T>) -> R<T> {
    r.map_err(|e| *e.kind())
}

/// Credential for integrity attributes.
#[derive(Clone, Debug)]
pub enum Cred {
    Short(String),
    Long { user: String, realm: String, password: String },
}
impl Cred {
    pub fn key(&self) -> Vec<u8> {
        match self {
            Cred::Short(p) => p.as_bytes().to_vec(),
            Cred::Long { user, realm, password } => {
                crate::crypto::long_term_key(user, realm, password).to_vec()
            }
        }
    }
    pub fn create<A: Attribute>(&self, m: &Message<A>) -> R<MessageIntegrity> {
        match self {
            Cred::Short(p) => k(MessageIntegrity::new_short_term_credential(m, p)),
            Cred::Long { user, realm, password } => {
                let u = k(Username::new(user.clone()))?;
                let r = k(Realm::new(realm.clone()))?;
                k(MessageIntegrity::new_long_term_credential(m, &u, &r, password))
            }
        }
    }
    /// `Ok(())`, or the error code the check answers with.
    pub fn check(&self, mi: &MessageIntegrity) -> R<Result<(), u16>> {
        Ok(match self {
            Cred::Short(p) => mi.check_short_term_credential(p).map_err(|e| e.code()),
            Cred::Long { user, realm, password } => {
                let u = k(Username::new(user.clone()))?;
                let r = k(Realm::new(realm.clone()))?;
                mi.check_long_term_credential(&u, &r, password).map_err(|e| e.code())
            }
        })
    }
}

pub trait DynMsg {
    fn snap(&self) -> Snap;
    fn clone_box(&self) -> Box<dyn DynMsg>;
    /// Adds a known attribute; false if the set does not have it or the value is out of range.
    fn add(&mut self, ty: u16, v: &Val) -> bool;
    fn add_mi(&mut self, mi: MessageIntegrity) -> bool;
    fn add_fp(&mut self, fp: Fingerprint) -> bool;
    fn lookup(&self, ty: u16) -> Option<Option<Val>>;
    fn mis(&self) -> Vec<MessageIntegrity>;
    fn new_mi(&self, cred: &Cred) -> R<MessageIntegrity>;
    fn new_fp(&self) -> R<Fingerprint>;
    fn debug(&self) -> String;
    /// How the known attributes of two messages of the same set compare, one by one.
    fn same(&self, other: &dyn DynMsg) -> Option<Vec<Same>>;
    /// The iterator of known attributes compared with that of another message.
    fn iter_eq(&self, other: &dyn DynMsg) -> Option<bool>;
    /// Every known attribute seen as one of a given type.
    fn as_type(&self, ty: u16) -> Option<Vec<Option<Val>>>;
    /// Every known attribute formatted.
    fn debug_attrs(&self) -> Vec<String>;
    fn any(&self) -> &dyn Any;
    fn into_any(self: Box<Self>) -> Box<dyn Any>;
}
pub struct Msg<S: Set>(pub Message<S>);
impl<S: Set> DynMsg for Msg<S> {
    fn snap(&self) -> Snap {
        let m = &self.0;
        Snap {
            class: class_num(m.class()),
            method: m.method().as_u16(),
            tid: *m.transaction_id().as_bytes(),
            known: m.attributes().map(|a| (a.get_type().as_u16(), a.value())).collect(),
            unknown: m
                .unknown_attributes()
                .map(|a| (a.get_type().as_u16(), RawAttribute::value(a).to_vec()))
                .collect(),
        }
    }
    fn clone_box(&self) -> Box<dyn DynMsg> {
        Box::new(Msg(self.0.clone()))
    }
    fn add(&mut self, ty: u16, v: &Val) -> bool {
        match S::build(ty, v) {
            Some(a) => {
                self.0.add_attribute(a);
                true
            }
            None => false,
        }
    }
    fn add_mi(&mut self, mi: MessageIntegrity) -> bool {
        S::from_mi(mi).map(|a| self.0.add_attribute(a)).is_some()
    }
    fn add_fp(&mut self, fp: Fingerprint) -> bool {
        S::from_fp(fp).map(|a| self.0.add_attribute(a)).is_some()
    }
    fn lookup(&self, ty: u16) -> Option<Option<Val>> {
        S::lookup(&self.0, ty)
    }
    fn mis(&self) -> Vec<MessageIntegrity> {
        self.0.attributes().filter_map(|a| a.mi().cloned()).collect()
    }
    fn new_mi(&self, cred: &Cred) -> R<MessageIntegrity> {
        cred.create(&self.0)
    }
    fn new_fp(&self) -> R<Fingerprint> {
        k(Fingerprint::new(&self.0))
    }
    fn debug(&self) -> String {
        format!("{:?}", self.0)
    }
    fn same(&self, other: &dyn DynMsg) -> Option<Vec<Same>> {
        let o = other.any().downcast_ref::<Self>()?;
        self.0.attributes().zip(o.0.attributes()).map(|(a, b)| S::same(a, b)).collect()
    }
    fn iter_eq(&self, other: &dyn DynMsg) -> Option<bool> {
        let o = other.any().downcast_ref::<Self>()?;
        let (mut a, mut b) = (self.0.attributes(), o.0.attributes());
        loop {
            match (a.next(), b.next()) {
                (None, None) => return Some(true),
                (Some(a), Some(b)) => {
                    if !S::same(a, b)?.eq {
                        return Some(false);
                    }
                }
                _ => return Some(false),
            }
        }
    }
    fn as_type(&self, ty: u16) -> Option<Vec<Option<Val>>> {
        self.0.attributes().map(|a| a.as_type(ty)).collect()
    }
    fn debug_attrs(&self) -> Vec<String> {
        self.0.attributes().map(|a| format!("{:?} {:#?}", a, a)).collect()
    }
    fn any(&self) -> &dyn Any {
        self
    }
    fn into_any(self: Box<Self>) -> Box<dyn Any> {
        self
    }
}

pub struct BrokenInfo {
    pub class: u8,
    pub method: u16,
    pub tid: [u8; 12],
    pub kind: ErrorKind,
    /// Kind of the error the broken message converts to.
    pub as_error: ErrorKind,
    /// Error code that error converts to, and its reason.
    pub as_code: u16,
    pub reason: String,
}
pub type Decoded = Result<Box<dyn DynMsg>, BrokenInfo>;

pub trait DynDecoder {
    fn decode(&mut self, b: &[u8], eos: Eos) -> R<usize>;
    fn finish(&mut self) -> R<Decoded>;
    fn req(&self) -> ByteCount;
    fn idle(&self) -> bool;
    /// Reads one message with the stream-reading convenience call.
    fn decode_exact(&mut self, r: &mut dyn std::io::Read) -> R<Decoded>;
}
fn convert<S: Set>(d: stun_codec::DecodedMessage<S>) -> Decoded {
    match d {
        Ok(m) => Ok(Box::new(Msg(m))),
        Err(b) => {
            let (class, method, tid) = (class_num(b.class()), b.method().as_u16(), *b.transaction_id().as_bytes());
            let kind = *b.error().kind();
            let e = bytecodec::Error::from(b);
            let as_error = *e.kind();
            let c = ErrorCode::from(e);
            Err(BrokenInfo { class, method, tid, kind, as_error, as_code: c.code(), reason: c.reason_phrase().to_owned() })
        }
    }
}
struct Dec<S: Set>(MessageDecoder<S>);
impl<S: Set> DynDecoder for Dec<S> {
    fn decode(&mut self, b: &[u8], eos: Eos) -> R<usize> {
        k(self.0.decode(b, eos))
    }
    fn finish(&mut self) -> R<Decoded> {
        k(self.0.finish_decoding()).map(convert)
    }
    fn req(&self) -> ByteCount {
        self.0.requiring_bytes()
    }
    fn idle(&self) -> bool {
        self.0.is_idle()
    }
    fn decode_exact(&mut self, r: &mut dyn std::io::Read) -> R<Decoded> {
        k(bytecodec::io::IoDecodeExt::decode_exact(&mut self.0, r)).map(convert)
    }
}

pub trait DynEncoder {
    fn start(&mut self, m: Box<dyn DynMsg>) -> R<()>;
    fn encode(&mut self, b: &mut [u8], eos: Eos) -> R<usize>;
    fn req(&self) -> ByteCount;
    fn exact(&self) -> u64;
    fn idle(&self) -> bool;
    /// The all-at-once convenience call.
    fn all(&mut self, m: Box<dyn DynMsg>) -> R<Vec<u8>>;
}
struct Enc<S: Set>(MessageEncoder<S>);
fn unbox<S: Set>(m: Box<dyn DynMsg>) -> Message<S> {
    m.into_any().downcast::<Msg<S>>().expect("message of another set").0
}
impl<S: Set> DynEncoder for Enc<S> {
    fn start(&mut self, m: Box<dyn DynMsg>) -> R<()> {
        k(self.0.start_encoding(unbox(m)))
    }
    fn encode(&mut self, b: &mut [u8], eos: Eos) -> R<usize> {
        k(self.0.encode(b, eos))
    }
    fn req(&self) -> ByteCount {
        self.0.requiring_bytes()
    }
    fn exact(&self) -> u64 {
        self.0.exact_requiring_bytes()
    }
    fn idle(&self) -> bool {
        self.0.is_idle()
    }
    fn all(&mut self, m: Box<dyn DynMsg>) -> R<Vec<u8>> {
        k(bytecodec::EncodeExt::encode_into_bytes(&mut self.0, unbox(m)))
    }
}

pub trait DynSet: Sync {
    fn name(&self) -> String;
    fn knows(&self) -> Knows;
    fn types(&self) -> Vec<u16>;
    fn has_hook_auth(&self) -> bool;
    fn decoder(&self) -> Box<dyn DynDecoder>;
    fn encoder(&self) -> Box<dyn DynEncoder>;
    fn msg(&self, class: u8, method: u16, tid: [u8; 12]) -> Box<dyn DynMsg>;
}
pub struct SetOf<S>(PhantomData<fn() -> S>);
impl<S: Set> DynSet for SetOf<S> {
    fn name(&self) -> String {
        if S::NAME == "single" {
            let t = self.types();
            format!("only-{}", crate::model::type_name(t[0]))
        } else {
            S::NAME.to_owned()
        }
    }
    fn knows(&self) -> Knows {
        Knows { f: S::knows, raw: S::RAW }
    }
    fn types(&self) -> Vec<u16> {
        crate::model::TYPES.iter().map(|t| t.0).filter(|t| S::knows(*t)).collect()
    }
    fn has_hook_auth(&self) -> bool {
        !S::RAW && S::knows(8)
    }
    fn decoder(&self) -> Box<dyn DynDecoder> {
        Box::new(Dec::<S>(MessageDecoder::new()))
    }
    fn encoder(&self) -> Box<dyn DynEncoder> {
        Box::new(Enc::<S>(MessageEncoder::new()))
    }
    fn msg(&self, class: u8, method: u16, tid: [u8; 12]) -> Box<dyn DynMsg> {
        let method = match Method::new(method) {
            Ok(m) => m,
            Err(_) => Method::from(0),
        };
        Box::new(Msg::<S>(Message::new(class_of(class), method, TransactionId::new(tid))))
    }
}

/// A standalone value codec.
pub trait DynOne: Sync {
    fn ty(&self) -> u16;
    fn decoder(&self) -> Box<dyn ValDecoder>;
    fn encoder(&self) -> Box<dyn ValEncoder>;
    /// Type the constructed value reports; `None` if the constructor refuses the value.
    fn reports(&self, v: &Val) -> Option<(u16, Val)>;
    fn codepoint(&self) -> u16;
    /// How two values, and a value and its copy, compare.
    fn compare(&self, a: &Val, b: &Val) -> Option<(Same, Same, Val)>;
}
pub trait ValDecoder {
    fn decode(&mut self, b: &[u8], eos: Eos) -> R<usize>;
    fn finish(&mut self) -> R<Val>;
    fn req(&self) -> ByteCount;
    fn idle(&self) -> bool;
}
pub trait ValEncoder {
    /// `None`: the constructor refused the value.
    fn start(&mut self, v: &Val) -> Option<R<()>>;
    fn encode(&mut self, b: &mut [u8], eos: Eos) -> R<usize>;
    fn req(&self) -> ByteCount;
    fn exact(&self) -> u64;
    fn idle(&self) -> bool;
}
struct VDec<T: One>(T::Decoder);
impl<T: One> ValDecoder for VDec<T> {
    fn decode(&mut self, b: &[u8], eos: Eos) -> R<usize> {
        k(self.0.decode(b, eos))
    }
    fn finish(&mut self) -> R<Val> {
        k(self.0.finish_decoding()).map(|a| One::val(&a))
    }
    fn req(&self) -> ByteCount {
        self.0.requiring_bytes()
    }
    fn idle(&self) -> bool {
        self.0.is_idle()
    }
}
struct VEnc<T: One>(T::Encoder);
impl<T: One> ValEncoder for VEnc<T> {
    fn start(&mut self, v: &Val) -> Option<R<()>> {
        T::make(v).map(|a| k(self.0.start_encoding(a)))
    }
    fn encode(&mut self, b: &mut [u8], eos: Eos) -> R<usize> {
        k(self.0.encode(b, eos))
    }
    fn req(&self) -> ByteCount {
        self.0.requiring_bytes()
    }
    fn exact(&self) -> u64 {
        self.0.exact_requiring_bytes()
    }
    fn idle(&self) -> bool {
        self.0.is_idle()
    }
}
pub struct OneOf<T: One>(u16, fn() -> T::Decoder, fn() -> T::Encoder);
impl<T: One> DynOne for OneOf<T> {
    fn ty(&self) -> u16 {
        T::TY
    }
    fn decoder(&self) -> Box<dyn ValDecoder> {
        Box::new(VDec::<T>((self.1)()))
    }
    fn encoder(&self) -> Box<dyn ValEncoder> {
        Box::new(VEnc::<T>((self.2)()))
    }
    fn reports(&self, v: &Val) -> Option<(u16, Val)> {
        T::make(v).map(|a| (a.get_type().as_u16(), One::val(&a)))
    }
    fn codepoint(&self) -> u16 {
        self.0
    }
    fn compare(&self, a: &Val, b: &Val) -> Option<(Same, Same, Val)> {
        let (a, b) = (T::make(a)?, T::make(b)?);
        let r = same(&a, &b);
        let copy = a.clone();
        let with_copy = same(&a, &copy);
        drop(a);
        Some((r, with_copy, One::val(&copy)))
    }
}

/// The public address codec, seen as a value codec (type 0xFFFF is not a real attribute type).
pub mod addr_codec {
    use super::*;
    use stun_codec::net::{SocketAddrDecoder, SocketAddrEncoder};
    pub struct D(SocketAddrDecoder);
    pub struct E(SocketAddrEncoder);
    pub fn decoder() -> Box<dyn ValDecoder> {
        Box::new(D(SocketAddrDecoder::new()))
    }
    pub fn encoder() -> Box<dyn ValEncoder> {
        Box::new(E(SocketAddrEncoder::new()))
    }
    impl ValDecoder for D {
        fn decode(&mut self, b: &[u8], eos: Eos) -> R<usize> {
            k(self.0.decode(b, eos))
        }
        fn finish(&mut self) -> R<Val> {
            k(self.0.finish_decoding()).map(|a| Val::Addr(a.ip(), a.port()))
        }
        fn req(&self) -> ByteCount {
            self.0.requiring_bytes()
        }
        fn idle(&self) -> bool {
            self.0.is_idle()
        }
    }
    impl ValEncoder for E {
        fn start(&mut self, v: &Val) -> Option<R<()>> {
            match v {
                Val::Addr(ip, port) => Some(k(self.0.start_encoding(SocketAddr::new(*ip, *port)))),
                _ => None,
            }
        }
        fn encode(&mut self, b: &mut [u8], eos: Eos) -> R<usize> {
            k(self.0.encode(b, eos))
        }
        fn req(&self) -> ByteCount {
            self.0.requiring_bytes()
        }
        fn exact(&self) -> u64 {
            self.0.exact_requiring_bytes()
        }
        fn idle(&self) -> bool {
            self.0.is_idle()
        }
    }
}

/// The codec of an attribute set (or of raw attributes), used directly for values of one type.
struct SDec<S: Set> {
    d: S::Decoder,
    ty: u16,
    started: bool,
}
impl<S: Set> ValDecoder for SDec<S> {
    fn decode(&mut self, b: &[u8], eos: Eos) -> R<usize> {
        if !self.started {
            self.started = true;
            if !k(bytecodec::TryTaggedDecode::try_start_decoding(&mut self.d, AttributeType::new(self.ty)))? {
                return Err(ErrorKind::Other);
            }
        }
        k(self.d.decode(b, eos))
    }
    fn finish(&mut self) -> R<Val> {
        self.started = false;
        let a = k(self.d.finish_decoding())?;
        if a.get_type().as_u16() != self.ty {
            return Err(ErrorKind::Other);
        }
        Ok(a.value())
    }
    fn req(&self) -> ByteCount {
        self.d.requiring_bytes()
    }
    fn idle(&self) -> bool {
        self.d.is_idle()
    }
}
struct SEnc<S: Set>(S::Encoder, u16);
impl<S: Set> ValEncoder for SEnc<S> {
    fn start(&mut self, v: &Val) -> Option<R<()>> {
        S::build(self.1, v).map(|a| k(self.0.start_encoding(a)))
    }
    fn encode(&mut self, b: &mut [u8], eos: Eos) -> R<usize> {
        k(self.0.encode(b, eos))
    }
    fn req(&self) -> ByteCount {
        self.0.requiring_bytes()
    }
    fn exact(&self) -> u64 {
        self.0.exact_requiring_bytes()
    }
    fn idle(&self) -> bool {
        self.0.is_idle()
    }
}

/// The public address family codec, seen as a value codec.
pub mod family_codec {
    use super::*;
    pub struct D(AddressFamilyDecoder);
    pub struct E(AddressFamilyEncoder);
    pub fn decoder() -> Box<dyn ValDecoder> {
        Box::new(D(AddressFamilyDecoder::default()))
    }
    pub fn encoder() -> Box<dyn ValEncoder> {
        Box::new(E(AddressFamilyEncoder::default()))
    }
    impl ValDecoder for D {
        fn decode(&mut self, b: &[u8], eos: Eos) -> R<usize> {
            k(self.0.decode(b, eos))
        }
        fn finish(&mut self) -> R<Val> {
            k(self.0.finish_decoding()).map(fam)
        }
        fn req(&self) -> ByteCount {
            self.0.requiring_bytes()
        }
        fn idle(&self) -> bool {
            self.0.is_idle()
        }
    }
    impl ValEncoder for E {
        fn start(&mut self, v: &Val) -> Option<R<()>> {
            match v {
                Val::Family(f) => Some(k(self.0.start_encoding(unfam(*f)))),
                _ => None,
            }
        }
        fn encode(&mut self, b: &mut [u8], eos: Eos) -> R<usize> {
            k(self.0.encode(b, eos))
        }
        fn req(&self) -> ByteCount {
            self.0.requiring_bytes()
        }
        fn exact(&self) -> u64 {
            self.0.exact_requiring_bytes()
        }
        fn idle(&self) -> bool {
            self.0.is_idle()
        }
    }
}

/// Any codec of values that is public: those of the attributes, of addresses and address families,
/// of raw attributes, and of whole attribute sets (seen as a codec for each of their types).
pub struct ValCodec {
    pub name: String,
    /// The type whose values it takes.
    pub ty: u16,
    pub decoder: Box<dyn Fn() -> Box<dyn ValDecoder> + Send + Sync>,
    pub encoder: Box<dyn Fn() -> Box<dyn ValEncoder> + Send + Sync>,
}
fn set_codecs<S: Set>(v: &mut Vec<ValCodec>) {
    for ty in crate::model::TYPES.iter().map(|t| t.0) {
        if S::RAW && ty != 0x13 || !S::knows(ty) {
            continue;
        }
        v.push(ValCodec {
            name: format!("{} (set {})", crate::model::type_name(ty), S::NAME),
            ty,
            decoder: Box::new(move || Box::new(SDec::<S> { d: S::new_decoder(), ty, started: false })),
            encoder: Box::new(move || Box::new(SEnc::<S>(S::new_encoder(), ty))),
        });
    }
}
pub fn val_codecs() -> &'static [ValCodec] {
    static CELL: std::sync::OnceLock<Vec<ValCodec>> = std::sync::OnceLock::new();
    CELL.get_or_init(|| {
        let mut v = vec![];
        for o in ones() {
            let ty = o.ty();
            v.push(ValCodec {
                name: crate::model::type_name(ty),
                ty,
                decoder: Box::new(move || o.decoder()),
                encoder: Box::new(move || o.encoder()),
            });
        }
        let named = |name: &str, ty, decoder: fn() -> Box<dyn ValDecoder>, encoder: fn() -> Box<dyn ValEncoder>| ValCodec {
            name: name.to_owned(),
            ty,
            decoder: Box::new(decoder),
            encoder: Box::new(encoder),
        };
        v.push(named("address", 0x0001, addr_codec::decoder, addr_codec::encoder));
        v.push(named("address family", 0x0017, family_codec::decoder, family_codec::encoder));
        set_codecs::<RawAttribute>(&mut v);
        set_codecs::<All>(&mut v);
        set_codecs::<stun_codec::rfc5389::Attribute>(&mut v);
        set_codecs::<stun_codec::rfc5766::Attribute>(&mut v);
        set_codecs::<stun_codec::rfc5245::Attribute>(&mut v);
        set_codecs::<stun_codec::rfc5780::Attribute>(&mut v);
        set_codecs::<Sparse>(&mut v);
        set_codecs::<Auth>(&mut v);
        v
    })
}
/// One of them: evenly over the index.
pub fn val_codec(i: u64) -> &'static ValCodec {
    let v = val_codecs();
    // the plain ones twice as often as the sets
    let plain = 35;
    let n = i as usize % (2 * plain + v.len() - plain);
    if n < 2 * plain {
        &v[n % plain]
    } else {
        &v[n - plain]
    }
}

macro_rules! per_type {
    ($($t:ident),*) => {
        fn singles() -> Vec<&'static dyn DynSet> {
            vec![$({ static S: SetOf<$t> = SetOf(PhantomData); &S as &'static dyn DynSet }),*]
        }
        /// The standalone codec of every attribute type.
        pub fn ones() -> Vec<&'static dyn DynOne> {
            vec![$({ static S: OneOf<$t> = OneOf($t::CODEPOINT, <<$t as Attribute>::Decoder>::new, <<$t as Attribute>::Encoder>::new); &S as &'static dyn DynOne }),*]
        }
    };
}
per_type!(
    MappedAddress, Username, MessageIntegrity, ErrorCode, UnknownAttributes, Realm, Nonce,
    XorMappedAddress, XorMappedAddress2, Software, AlternateServer, Fingerprint, ChannelNumber,
    Lifetime, XorPeerAddress, Data, XorRelayAddress, EvenPort, RequestedTransport, DontFragment,
    ReservationToken, Priority, UseCandidate, IceControlled, IceControlling, ChangeRequest,
    ResponseOrigin, OtherAddress, ResponsePort, MobilityTicket, RequestedAddressFamily,
    AdditionalAddressFamily
);

macro_rules! set_static {
    ($t:ty) => {{
        static S: SetOf<$t> = SetOf(PhantomData);
        &S as &'static dyn DynSet
    }};
}

pub struct Sets {
    /// Enums first (`ALL` is index 0), then raw, then every single attribute used as a set.
    pub every: Vec<&'static dyn DynSet>,
    pub enums: usize,
}
pub fn all_set() -> &'static dyn DynSet {
    set_static!(All)
}
pub fn raw_set() -> &'static dyn DynSet {
    set_static!(RawAttribute)
}
pub fn r5389_set() -> &'static dyn DynSet {
    set_static!(stun_codec::rfc5389::Attribute)
}
pub fn sets() -> &'static Sets {
    static CELL: std::sync::OnceLock<Sets> = std::sync::OnceLock::new();
    CELL.get_or_init(|| {
        let mut every = vec![
            set_static!(All),
            set_static!(stun_codec::rfc5389::Attribute),
            set_static!(stun_codec::rfc5766::Attribute),
            set_static!(stun_codec::rfc5245::Attribute),
            set_static!(stun_codec::rfc5780::Attribute),
            set_static!(Sparse),
            set_static!(Auth),
            set_static!(RawAttribute),
        ];
        let enums = 7;
        every.extend(singles());
        Sets { every, enums }
    })
}
/// The sets that know MESSAGE-INTEGRITY (and, but for the single one, FINGERPRINT).
pub fn auth_sets() -> Vec<&'static dyn DynSet> {
    sets().every.iter().copied().filter(|s| s.has_hook_auth()).collect()
}
impl std::fmt::Debug for dyn DynSet {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.name())
    }
}
