//! User-defined attributes that record what the crate does with them: hook calls, and the life of
//! every value. What they do is scripted per thread.
use crate::sets::*;
use bytecodec::{ByteCount, Decode, Encode, EncodeExt, Eos, ErrorKind, Result, SizedEncode, TryTaggedDecode};
use trackable::error::ErrorKindExt;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashMap};
use std::hash::{Hash, Hasher};
use stun_codec::{define_attribute_enums, Attribute, AttributeType, Message, MessageEncoder};

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Act {
    Ok,
    /// The hook or codec fails.
    Fail,
    /// The hook or codec panics.
    Panic,
    /// The hook changes the value.
    Set(Vec<u8>),
}

/// Where a scripted failure happens.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Point {
    Before,
    After,
    TryStart,
    Decode,
    Finish,
    StartEnc,
    Encode,
    Clone,
}

/// One hook call as the hook saw it.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Event {
    pub after: bool,
    pub ty: u16,
    /// Value before the hook changed it.
    pub value: Vec<u8>,
    pub class: u8,
    pub method: u16,
    pub tid: [u8; 12],
    /// Types of the known attributes of the message shown.
    pub known: Vec<u16>,
    pub unknown: Vec<(u16, Vec<u8>)>,
    /// The message shown, encoded.
    pub bytes: std::result::Result<Vec<u8>, ErrorKind>,
}

#[derive(Default)]
struct State {
    acts: HashMap<(Point, usize), Act>,
    counts: BTreeMap<Point, usize>,
    log: Vec<Event>,
    live: HashMap<u64, u32>,
    next: u64,
    bad_drops: u64,
    made: u64,
}
thread_local! {
    static S: RefCell<State> = RefCell::new(State::default());
    static NESTED: Cell<bool> = const { Cell::new(false) };
    /// Whether hooks encode the message they are shown.
    static LOOK: Cell<bool> = const { Cell::new(true) };
}

/// Forgets everything on this thread and installs a script.
pub fn reset(script: &[(Point, usize, Act)]) {
    NESTED.with(|n| n.set(false));
    S.with(|s| {
        let mut s = s.borrow_mut();
        *s = State::default();
        for (p, n, a) in script {
            s.acts.insert((*p, *n), a.clone());
        }
    });
}
pub fn look(on: bool) {
    LOOK.with(|l| l.set(on));
}
/// Changes the script without forgetting the values alive.
pub fn rescript(script: &[(Point, usize, Act)]) {
    S.with(|s| {
        let mut s = s.borrow_mut();
        s.acts.clear();
        s.counts.clear();
        s.log.clear();
        for (p, n, a) in script {
            s.acts.insert((*p, *n), a.clone());
        }
    });
}
pub fn take_log() -> Vec<Event> {
    S.with(|s| std::mem::take(&mut s.borrow_mut().log))
}
pub fn reached(p: Point) -> usize {
    S.with(|s| s.borrow().counts.get(&p).copied().unwrap_or(0))
}
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct Census {
    /// Values ever made.
    pub made: u64,
    pub live: usize,
    /// Drops of something that was not alive.
    pub bad_drops: u64,
}
pub fn census() -> Census {
    S.with(|s| {
        let s = s.borrow();
        Census { made: s.made, live: s.live.len(), bad_drops: s.bad_drops }
    })
}

fn act(p: Point) -> Act {
    if NESTED.with(|n| n.get()) {
        return Act::Ok;
    }
    S.with(|s| {
        let mut s = s.borrow_mut();
        let c = s.counts.entry(p).or_insert(0);
        let n = *c;
        *c += 1;
        s.acts.get(&(p, n)).cloned().unwrap_or(Act::Ok)
    })
}
fn codec_act(p: Point) -> Result<()> {
    match act(p) {
        Act::Ok | Act::Set(_) => Ok(()),
        Act::Fail => Err(ErrorKind::Other.cause("scripted").into()),
        Act::Panic => scripted_panic(),
    }
}
fn scripted_panic() -> ! {
    std::panic::panic_any("scripted")
}

/// Something that must be dropped exactly once.
#[derive(Debug)]
struct Token {
    id: u64,
    // so that memory checkers see a double drop or a use after free by themselves
    own: Box<u64>,
}
impl Token {
    fn new() -> Token {
        let id = S.with(|s| {
            let mut s = s.borrow_mut();
            s.next += 1;
            s.made += 1;
            let id = s.next;
            s.live.insert(id, 1);
            id
        });
        Token { id, own: Box::new(id) }
    }
}
impl Drop for Token {
    fn drop(&mut self) {
        let ok = *self.own == self.id;
        let _ = S.try_with(|s| {
            let mut s = s.borrow_mut();
            if s.live.remove(&self.id).is_none() || !ok {
                s.bad_drops += 1;
            }
        });
    }
}

/// Probe attributes of type `K`; used as a set of its own, it answers to all types with the same
/// upper byte.
#[derive(Debug)]
pub struct Probe<const K: u16> {
    ty: AttributeType,
    value: Vec<u8>,
    token: Token,
}
pub type PA = Probe<0x4100>;
pub type PB = Probe<0x4200>;
pub type PC = Probe<0xC101>;
pub type PD = Probe<0xC102>;
impl<const K: u16> Probe<K> {
    pub const CODEPOINT: u16 = K;
    pub fn new(ty: u16, value: Vec<u8>) -> Self {
        Probe { ty: AttributeType::new(ty), value, token: Token::new() }
    }
    pub fn value(&self) -> &[u8] {
        &self.value
    }
    /// The value is what it was made with and has not been dropped.
    pub fn sound(&self) -> bool {
        *self.token.own == self.token.id && S.with(|s| s.borrow().live.contains_key(&self.token.id))
    }
    fn hook<A: Attribute>(&mut self, after: bool, m: &Message<A>) -> Result<()> {
        if NESTED.with(|n| n.get()) {
            return Ok(());
        }
        if LOOK.with(|l| l.get()) {
            NESTED.with(|n| n.set(true));
            let bytes = MessageEncoder::<A>::new().encode_into_bytes(m.clone()).map_err(|e| *e.kind());
            NESTED.with(|n| n.set(false));
            let ev = Event {
                after,
                ty: self.ty.as_u16(),
                value: self.value.clone(),
                class: class_num(m.class()),
                method: m.method().as_u16(),
                tid: *m.transaction_id().as_bytes(),
                known: m.attributes().map(|a| a.get_type().as_u16()).collect(),
                unknown: m.unknown_attributes().map(|a| (a.get_type().as_u16(), a.value().to_vec())).collect(),
                bytes,
            };
            S.with(|s| s.borrow_mut().log.push(ev));
        }
        match act(if after { Point::After } else { Point::Before }) {
            Act::Ok => Ok(()),
            Act::Set(v) => {
                self.value = v;
                Ok(())
            }
            Act::Fail => Err(ErrorKind::Other.cause("scripted").into()),
            Act::Panic => scripted_panic(),
        }
    }
}
impl<const K: u16> Clone for Probe<K> {
    fn clone(&self) -> Self {
        if act(Point::Clone) == Act::Panic {
            scripted_panic();
        }
        Probe { ty: self.ty, value: self.value.clone(), token: Token::new() }
    }
}
impl<const K: u16> PartialEq for Probe<K> {
    fn eq(&self, o: &Self) -> bool {
        self.ty == o.ty && self.value == o.value
    }
}
impl<const K: u16> Eq for Probe<K> {}
impl<const K: u16> Hash for Probe<K> {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.ty.hash(h);
        self.value.hash(h);
    }
}
impl<const K: u16> Attribute for Probe<K> {
    type Decoder = ProbeDecoder<K>;
    type Encoder = ProbeEncoder<K>;
    fn get_type(&self) -> AttributeType {
        self.ty
    }
    fn before_encode<A: Attribute>(&mut self, m: &Message<A>) -> Result<()> {
        self.hook(false, m)
    }
    fn after_decode<A: Attribute>(&mut self, m: &Message<A>) -> Result<()> {
        self.hook(true, m)
    }
}

#[derive(Debug)]
pub struct ProbeDecoder<const K: u16> {
    ty: Option<AttributeType>,
    buf: Vec<u8>,
    eos: bool,
    // codecs are user values, too
    _token: Token,
}
impl<const K: u16> Default for ProbeDecoder<K> {
    fn default() -> Self {
        ProbeDecoder { ty: Some(AttributeType::new(K)), buf: Vec::new(), eos: false, _token: Token::new() }
    }
}
impl<const K: u16> Decode for ProbeDecoder<K> {
    type Item = Probe<K>;
    fn decode(&mut self, b: &[u8], eos: Eos) -> Result<usize> {
        codec_act(Point::Decode)?;
        self.buf.extend_from_slice(b);
        self.eos = eos.is_reached();
        Ok(b.len())
    }
    fn finish_decoding(&mut self) -> Result<Probe<K>> {
        let a = codec_act(Point::Finish);
        let ty = std::mem::replace(&mut self.ty, Some(AttributeType::new(K)));
        let buf = std::mem::take(&mut self.buf);
        let eos = std::mem::replace(&mut self.eos, false);
        a?;
        match ty {
            Some(ty) if eos => Ok(Probe { ty, value: buf, token: Token::new() }),
            _ => Err(ErrorKind::IncompleteDecoding.into()),
        }
    }
    fn requiring_bytes(&self) -> ByteCount {
        if self.eos {
            ByteCount::Finite(0)
        } else {
            ByteCount::Infinite
        }
    }
    fn is_idle(&self) -> bool {
        self.eos
    }
}
impl<const K: u16> TryTaggedDecode for ProbeDecoder<K> {
    type Tag = AttributeType;
    fn try_start_decoding(&mut self, ty: AttributeType) -> Result<bool> {
        if ty.as_u16() >> 8 != K >> 8 {
            return Ok(false);
        }
        codec_act(Point::TryStart)?;
        self.ty = Some(ty);
        self.buf.clear();
        self.eos = false;
        Ok(true)
    }
}

#[derive(Debug, Default)]
pub struct ProbeEncoder<const K: u16> {
    item: Option<Probe<K>>,
    off: usize,
}
impl<const K: u16> Encode for ProbeEncoder<K> {
    type Item = Probe<K>;
    fn encode(&mut self, b: &mut [u8], _: Eos) -> Result<usize> {
        codec_act(Point::Encode)?;
        let mut n = 0;
        if let Some(i) = &self.item {
            n = b.len().min(i.value.len() - self.off);
            b[..n].copy_from_slice(&i.value[self.off..self.off + n]);
            self.off += n;
            if self.off == i.value.len() {
                self.item = None;
                self.off = 0;
            }
        }
        Ok(n)
    }
    fn start_encoding(&mut self, i: Probe<K>) -> Result<()> {
        codec_act(Point::StartEnc)?;
        if self.item.is_some() {
            return Err(ErrorKind::EncoderFull.into());
        }
        // nothing remains to be written of an empty value
        if !i.value.is_empty() {
            self.item = Some(i);
        }
        self.off = 0;
        Ok(())
    }
    fn requiring_bytes(&self) -> ByteCount {
        ByteCount::Finite(self.exact_requiring_bytes())
    }
    fn is_idle(&self) -> bool {
        self.item.is_none()
    }
}
impl<const K: u16> SizedEncode for ProbeEncoder<K> {
    fn exact_requiring_bytes(&self) -> u64 {
        self.item.as_ref().map_or(0, |i| (i.value.len() - self.off) as u64)
    }
}

define_attribute_enums!(
    Mixed, MixedDecoder, MixedEncoder,
    [PA, Username, PB, MessageIntegrity, PC, Fingerprint, XorMappedAddress, EvenPort, Data, PD]
);

/// Sets with probes in them.
pub trait PSet: Attribute + std::fmt::Debug + 'static {
    const NAME: &'static str;
    fn knows(ty: u16) -> bool;
    fn probe(ty: u16, value: Vec<u8>) -> Option<Self>;
    /// Value of the probe, `None` if the attribute is not one.
    fn probe_value(&self) -> Option<&[u8]>;
    fn sound(&self) -> bool;
    fn shipped(ty: u16, v: &crate::model::Val) -> Option<Self>;
}
impl PSet for PA {
    const NAME: &'static str = "PA";
    fn knows(ty: u16) -> bool {
        ty >> 8 == 0x41
    }
    fn probe(ty: u16, value: Vec<u8>) -> Option<Self> {
        Self::knows(ty).then(|| Probe::new(ty, value))
    }
    fn probe_value(&self) -> Option<&[u8]> {
        Some(&self.value)
    }
    fn sound(&self) -> bool {
        Probe::sound(self)
    }
    fn shipped(_: u16, _: &crate::model::Val) -> Option<Self> {
        None
    }
}
impl PSet for Mixed {
    const NAME: &'static str = "Mixed";
    fn knows(ty: u16) -> bool {
        [0x4100, 0x4200, 0xC101, 0xC102, 0x0006, 0x0008, 0x8028, 0x0020, 0x0018, 0x0013].contains(&ty)
    }
    fn probe(ty: u16, value: Vec<u8>) -> Option<Self> {
        Some(match ty {
            0x4100 => Mixed::PA(Probe::new(ty, value)),
            0x4200 => Mixed::PB(Probe::new(ty, value)),
            0xC101 => Mixed::PC(Probe::new(ty, value)),
            0xC102 => Mixed::PD(Probe::new(ty, value)),
            _ => return None,
        })
    }
    fn probe_value(&self) -> Option<&[u8]> {
        match self {
            Mixed::PA(p) => Some(&p.value),
            Mixed::PB(p) => Some(&p.value),
            Mixed::PC(p) => Some(&p.value),
            Mixed::PD(p) => Some(&p.value),
            _ => None,
        }
    }
    fn sound(&self) -> bool {
        match self {
            Mixed::PA(p) => p.sound(),
            Mixed::PB(p) => p.sound(),
            Mixed::PC(p) => p.sound(),
            Mixed::PD(p) => p.sound(),
            _ => true,
        }
    }
    fn shipped(ty: u16, v: &crate::model::Val) -> Option<Self> {
        Some(match ty {
            0x0006 => Username::make(v)?.into(),
            0x0008 => MessageIntegrity::make(v)?.into(),
            0x8028 => Fingerprint::make(v)?.into(),
            0x0020 => XorMappedAddress::make(v)?.into(),
            0x0018 => EvenPort::make(v)?.into(),
            0x0013 => Data::make(v)?.into(),
            _ => return None,
        })
    }
}
impl Mixed {
    pub fn shipped_value(&self) -> Option<crate::model::Val> {
        Some(match self {
            Mixed::Username(a) => One::val(a),
            Mixed::MessageIntegrity(a) => One::val(a),
            Mixed::Fingerprint(a) => One::val(a),
            Mixed::XorMappedAddress(a) => One::val(a),
            Mixed::EvenPort(a) => One::val(a),
            Mixed::Data(a) => One::val(a),
            _ => return None,
        })
    }
}
