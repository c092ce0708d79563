//! Shared by the checks.
pub use crate::ctx::*;
pub use crate::drive::*;
pub(crate) use crate::gen;
pub use crate::gen::{Cut, Image, Item, Plan};
pub use crate::model::*;
pub use crate::rng::{hash_bytes, mix, Rng};
pub use crate::sets::*;
pub use crate::{ensure, ensure_eq, fail};
#[allow(unused_imports)]
pub use bytecodec::{ByteCount, Eos, ErrorKind};

/// A set to work on: mostly the big enums, sometimes raw or a single attribute.
pub fn any_set(r: &mut Rng) -> &'static dyn DynSet {
    let s = sets();
    match r.below(10) {
        0..=3 => s.every[0],
        4..=7 => s.every[r.below(s.enums + 1)],
        _ => s.every[r.below(s.every.len())],
    }
}
pub fn one_of(ty: u16) -> &'static dyn DynOne {
    *ones().iter().find(|o| o.ty() == ty).expect("type")
}
/// Encodes at once.
pub fn encode_all(set: &dyn DynSet, m: &dyn DynMsg) -> R<Vec<u8>> {
    set.encoder().all(m.clone_box())
}
pub fn encode_ok(set: &dyn DynSet, m: &dyn DynMsg) -> Result<Vec<u8>, Fail> {
    encode_all(set, m).map_err(|k| Fail::new(format!("encoding a message that fits fails with {:?}", k)))
}
pub fn refused(ty: u16, v: &Val) -> Fail {
    Fail::new(format!("the constructor of {} refuses a value within its limits", type_name(ty))).with(clip(&format!("{:?}", v)))
}
pub fn build(p: &Plan, set: &dyn DynSet) -> Result<Box<dyn DynMsg>, Fail> {
    p.build(set).map_err(|(ty, v)| refused(ty, &v))
}
pub fn show_plan(set: &dyn DynSet, p: &Plan) -> String {
    clip(&format!("set {}, message {:?}", set.name(), p))
}
pub fn show_bytes(set: &dyn DynSet, b: &[u8]) -> String {
    format!("set {}, {} bytes: {}", set.name(), b.len(), hex(b))
}
/// Adds locally created FINGERPRINT / MESSAGE-INTEGRITY and ordinary attributes step by step.
#[derive(Clone, Debug)]
pub enum PItem {
    Val(u16, Val),
    Mi(Cred),
    Fp,
}
#[derive(Clone, Debug)]
pub struct AuthPlan {
    pub class: u8,
    pub method: u16,
    pub tid: [u8; 12],
    pub items: Vec<PItem>,
}
impl AuthPlan {
    pub fn image(&self) -> Image {
        Image {
            class: self.class,
            method: self.method,
            tid: self.tid,
            items: self
                .items
                .iter()
                .map(|i| match i {
                    PItem::Val(ty, v) => Item::Tlv { ty: *ty, value: enc_value(*ty, v, Some(&self.tid)), pad: vec![] },
                    PItem::Mi(c) => Item::Mi(c.clone()),
                    PItem::Fp => Item::Fp,
                })
                .collect(),
        }
    }
    pub fn build(&self, set: &dyn DynSet) -> Result<Box<dyn DynMsg>, Fail> {
        let mut m = set.msg(self.class, self.method, self.tid);
        for i in &self.items {
            add_item(&mut *m, i)?;
        }
        Ok(m)
    }
}
pub fn add_item(m: &mut dyn DynMsg, i: &PItem) -> Chk {
    let ok = match i {
        PItem::Val(ty, v) => {
            if !m.add(*ty, v) {
                return Err(refused(*ty, v));
            }
            true
        }
        PItem::Mi(c) => {
            let mi = m.new_mi(c).map_err(|k| Fail::new(format!("creating MESSAGE-INTEGRITY fails with {:?}", k)))?;
            m.add_mi(mi)
        }
        PItem::Fp => {
            let fp = m.new_fp().map_err(|k| Fail::new(format!("creating FINGERPRINT fails with {:?}", k)))?;
            m.add_fp(fp)
        }
    };
    ensure!(ok, "harness: the set has no such attribute");
    Ok(())
}
/// Random message with locally created integrity attributes where the set has them.
pub fn auth_plan(r: &mut Rng, set: &dyn DynSet) -> AuthPlan {
    let p = gen::plan(r, set, false);
    let k = set.knows();
    let (mi, fp) = (!k.raw && (k.f)(T_MI), !k.raw && (k.f)(T_FP));
    let mut items: Vec<PItem> = p.attrs.into_iter().map(|(t, v)| PItem::Val(t, v)).collect();
    if mi && r.chance(2, 3) {
        let at = if r.bool() { items.len() } else { r.below(items.len() + 1) };
        items.insert(at, PItem::Mi(gen::cred(r)));
    }
    if fp && r.chance(1, 2) {
        let at = if r.chance(3, 4) { items.len() } else { r.below(items.len() + 1) };
        items.insert(at, PItem::Fp);
    }
    AuthPlan { class: p.class, method: p.method, tid: p.tid, items }
}
pub fn hash_snap(s: &Snap) -> u64 {
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}
pub fn hash_dbg<T: std::fmt::Debug>(t: &T) -> u64 {
    hash_bytes(format!("{:?}", t).as_bytes())
}
/// Reference view of `b` for a set.
pub fn model(set: &dyn DynSet, b: &[u8]) -> Parsed {
    parse(b, set.knows())
}
pub fn parsed_msg(p: &Parsed) -> Option<&PMsg> {
    match p {
        Parsed::Msg(m) => Some(m),
        _ => None,
    }
}
/// What the model says the decoder has to deliver for the first message in `b`.
/// `None`: the verdict is not determined (known finding about reserved bits and fingerprints).
pub fn expected(set: &dyn DynSet, b: &[u8]) -> Option<Essence> {
    Some(match model(set, b) {
        Parsed::Short { .. } => Essence::Incomplete,
        Parsed::Reject(_) => Essence::Reject,
        Parsed::Msg(m) => {
            if m.ambiguous {
                return None;
            }
            match m.bad {
                Some(_) => Essence::Broken(m.class, m.method, m.tid),
                None => Essence::Valid(m.snap()),
            }
        }
    })
}
/// Arbitrary input: sound, damaged or noise.
pub fn any_input(r: &mut Rng, set: &dyn DynSet) -> Vec<u8> {
    match r.below(12) {
        0..=2 => gen::image(r, set, gen::VALID).bytes(),
        3 => gen::image(r, set, gen::VALID_RES).bytes(),
        4..=6 => gen::image(r, set, gen::MESSY).bytes(),
        7..=9 => {
            let mut b = gen::image(r, set, gen::MESSY).bytes();
            gen::mutate(r, &mut b);
            b
        }
        _ => gen::noise(r),
    }
}
/// Complete inputs a decoder consumes exactly (valid or broken), i.e. whose header is sound.
pub fn any_framed(r: &mut Rng, set: &dyn DynSet) -> Vec<u8> {
    let mut b = any_input(r, set);
    if b.len() < 20 {
        b.resize(20, 0);
    }
    b[0] &= 0x3f;
    b[4..8].copy_from_slice(&COOKIE);
    let n = usize::from(u16::from_be_bytes([b[2], b[3]]));
    if n + 20 <= b.len() && r.chance(3, 4) {
        b.truncate(20 + n);
    } else {
        b.truncate(20 + 0xffff);
        set_len(&mut b);
    }
    b
}
