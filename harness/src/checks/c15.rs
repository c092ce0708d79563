//! Partition into known and unknown attributes, lookup, comprehension.
use super::util::*;
use crate::probe::{Mixed, PSet};
use bytecodec::{DecodeExt, EncodeExt};
use stun_codec::{Attribute, AttributeType, MessageDecoder, MessageEncoder, RawAttribute};

pub fn check() -> Check {
    Check {
        id: "C15",
        rule: "a message with attributes of arbitrary types read with some attribute set, and every one of the 65536 types; non-trivial if it carries at least one attribute",
        suites: vec![
            sweep("every type", 65536, every_type),
            random("partition", 150_000, 6_000_000, partition),
            random("lookup", 120_000, 4_000_000, lookup),
            random("user sets", 60_000, 1_500_000, user),
            random("raw", 60_000, 1_000_000, raw),
            sweep("crowds", 3 * gen::CROWDS.len() as u64, crowds),
            sweep("one among many", 4 * 540, one_among_many),
        ],
        assumptions: &["lookup by type is available in attribute enums only"],
    }
}

/// A value that is well formed for the type.
fn wire_value(r: &mut Rng, ty: u16, known: bool, tid: &[u8; 12]) -> Vec<u8> {
    if known {
        let v = gen::val(r, ty, tid);
        enc_value(ty, &v, Some(tid))
    } else {
        let n = r.below(9);
        r.bytes(n)
    }
}

/// Each type, in every enum, alone and surrounded by others.
fn every_type(c: &mut Case) -> Chk {
    let ty = c.idx as u16;
    let t = AttributeType::new(ty);
    ensure_eq!(t.as_u16(), ty, "AttributeType::new({:#06x}).as_u16()", ty);
    ensure_eq!(t.is_comprehension_required(), ty < 0x8000, "is_comprehension_required() of {:#06x}", ty);
    ensure_eq!(t.is_comprehension_optional(), ty >= 0x8000, "is_comprehension_optional() of {:#06x}", ty);
    for set in sets().every.iter().take(sets().enums + 1) {
        let k = set.knows();
        let known = !k.raw && (k.f)(ty);
        let tid = c.r.tid();
        let mut im = Image { class: 0, method: 1, tid, items: vec![] };
        let n = c.r.below(3);
        for _ in 0..n {
            let u = gen::any_type(&mut c.r);
            if u == T_FP {
                continue;
            }
            im.items.push(Item::Tlv { ty: u, value: wire_value(&mut c.r, u, !k.raw && (k.f)(u), &tid), pad: vec![] });
        }
        let at = c.r.below(im.items.len() + 1);
        let it = if ty == T_FP && known {
            Item::Fp
        } else {
            Item::Tlv { ty, value: wire_value(&mut c.r, ty, known, &tid), pad: vec![] }
        };
        im.items.insert(at, it);
        let b = im.bytes();
        c.eval(Some(hash_bytes(&b)));
        judge(c, *set, &b).detail(|| show_bytes(*set, &b))?;
    }
    Ok(())
}

/// Compares the two lists and every lookup with the wire.
fn judge(c: &mut Case, set: &'static dyn DynSet, b: &[u8]) -> Chk {
    let p = model(set, b);
    let m = match parsed_msg(&p) {
        Some(m) if m.bad.is_none() && !m.ambiguous => m,
        _ => {
            c.count("skipped: not a valid message", 1);
            return Ok(());
        }
    };
    let got = match decode_all(set, b).out {
        Out::Valid(d) => d,
        o => fail!("a message of well-formed attributes is not delivered: {}", o.show()),
    };
    let (s, w) = (got.snap(), m.snap());
    let types = |s: &Snap| (s.known.iter().map(|k| k.0).collect::<Vec<_>>(), s.unknown.iter().map(|k| k.0).collect::<Vec<_>>());
    ensure_eq!(types(&s), types(&w), "types of the known and of the unknown attributes");
    ensure_eq!(s.unknown, w.unknown, "unknown attributes");
    ensure_eq!(s.known, w.known, "known attributes");
    c.count("known attributes", s.known.len() as u64);
    c.count("unknown attributes", s.unknown.len() as u64);
    lookups(c, set, &*got, &w.known)?;
    // copies are the same
    ensure_eq!(got.clone_box().snap(), s, "a copy of the message");
    Ok(())
}
fn lookups(c: &mut Case, set: &'static dyn DynSet, m: &dyn DynMsg, known: &[(u16, Val)]) -> Chk {
    for ty in set.types() {
        if let Some(found) = m.lookup(ty) {
            let first = known.iter().find(|k| k.0 == ty).map(|k| k.1.clone());
            ensure_eq!(found, first, "lookup of {} in a message of {:?}", type_name(ty), known.iter().map(|k| type_name(k.0)).collect::<Vec<_>>());
            c.count(if first.is_some() { "lookups that find one" } else { "lookups that find none" }, 1);
        }
    }
    Ok(())
}

/// Many attributes.
fn crowds(c: &mut Case) -> Chk {
    let set = any_set(&mut c.r);
    let from = any_set(&mut c.r);
    let src = if c.r.bool() { from } else { set };
    let n = gen::CROWDS[c.idx as usize / 3];
    let mut b = gen::crowd(&mut c.r, src, n).bytes();
    if c.r.bool() {
        // one of a kind at the end
        let ty = *c.r.pick(&[0x8022u16, 0x0013, 0xbeef, 0x0025]);
        push_tlv(&mut b, ty, &[], &[]);
        set_len(&mut b);
    }
    c.eval(Some(hash_bytes(&b)));
    judge(c, set, &b).detail(|| format!("{} attributes, {}", n, set.name()))
}
/// One attribute of its kind behind any number of others, in built and in received messages.
fn one_among_many(c: &mut Case) -> Chk {
    let s = sets();
    let set = if c.idx & 1 == 0 { all_set() } else { s.every[c.r.below(s.enums)] };
    let n = match (c.idx / 4) as usize {
        k @ 0..=520 => k,
        k => [600, 767, 768, 769, 1000, 1023, 1024, 1025, 1500, 2000, 2047, 2048, 2049, 3000, 4095, 4096, 4097, 4500, 5000][(k - 521) % 19],
    };
    let small: Vec<u16> = set.types().into_iter().filter(|t| [0x0025u16, 0x001a, 0x8029, 0x0024, 0x0003, 0x0018, 0x8022].contains(t)).collect();
    if small.is_empty() {
        return Ok(());
    }
    let one = *c.r.pick(&small);
    let rest: Vec<u16> = set.types().into_iter().filter(|t| *t != one && [0x0025u16, 0x001a, 0x8029, 0x0024, 0x0003, 0x0018].contains(t)).collect();
    if rest.is_empty() {
        return Ok(());
    }
    let tid = c.r.tid();
    let val = |c: &mut Case, ty| if ty == 0x8022 { Val::Text(c.r.below(1000).to_string()) } else { gen::val(&mut c.r, ty, &tid) };
    let mut m = set.msg(c.r.below(4) as u8, gen::method(&mut c.r), tid);
    let mut want: Vec<(u16, Val)> = vec![];
    let after = if c.r.bool() { 0 } else { c.r.range(1, 300) };
    for i in 0..n + 1 + after {
        let ty = if i == n || (i > n && c.r.below(20) == 0) { one } else { *c.r.pick(&rest) };
        let v = val(c, ty);
        if !m.add(ty, &v) {
            return Err(refused(ty, &v));
        }
        want.push((ty, v));
    }
    c.eval(Some(hash_dbg(&want)));
    let s = m.snap();
    ensure_eq!(s.known.len(), want.len(), "number of attributes after adding them one by one");
    ensure!(s.known == want && s.unknown.is_empty(), "attributes added one by one are reported otherwise");
    lookups(c, set, &*m, &want)?;
    let b = encode_ok(set, &*m)?;
    // received by the same set, and by one that may not know all of them
    let m = decode_valid(set, &b).map_err(|e| Fail::new(format!("an encoded message is not delivered: {}", e)))?;
    ensure!(m.snap().known == want, "attributes differ after sending {} of them", want.len());
    lookups(c, set, &*m, &want)?;
    let other = any_set(&mut c.r);
    judge(c, other, &b)
}
fn partition(c: &mut Case) -> Chk {
    let set = any_set(&mut c.r);
    // attributes of one set, read with another one
    let from = any_set(&mut c.r);
    let o = if c.r.bool() { gen::VALID } else { gen::VALID_RES };
    let src = if c.r.bool() { set } else { from };
    let mut im = gen::image(&mut c.r, src, o);
    if c.r.bool() && !im.items.is_empty() {
        // duplicates
        for _ in 0..c.r.range(1, 3) {
            let i = c.r.below(im.items.len());
            let j = c.r.below(im.items.len() + 1);
            let it = im.items[i].clone();
            im.items.insert(j, it);
        }
    }
    let b = im.bytes();
    if b.len() > 20 + 0xffff {
        return Ok(());
    }
    c.eval((!im.items.is_empty()).then(|| hash_bytes(&b)));
    c.sample(|| show_bytes(set, &b));
    judge(c, set, &b).detail(|| show_bytes(set, &b))
}

/// Lookup in built and in extended messages, with few types and many duplicates.
fn lookup(c: &mut Case) -> Chk {
    let s = sets();
    let set = s.every[c.r.below(s.enums)];
    let all = set.types();
    let few: Vec<u16> = (0..c.r.range(1, 4)).map(|_| *c.r.pick(&all)).collect();
    let tid = c.r.tid();
    let mut m = set.msg(c.r.below(4) as u8, gen::method(&mut c.r), tid);
    let mut want: Vec<(u16, Val)> = vec![];
    let n = c.r.range(0, 12);
    for i in 0..n {
        let ty = *c.r.pick(&few);
        if ty == T_FP {
            continue;
        }
        let v = gen::val(&mut c.r, ty, &tid);
        if !m.add(ty, &v) {
            return Err(refused(ty, &v));
        }
        want.push((ty, v));
        let s = m.snap();
        ensure_eq!(s.known, want, "attributes after adding number {}", i);
        ensure!(s.unknown.is_empty(), "a built message has unknown attributes");
        if c.r.chance(1, 5) {
            // send, receive, go on adding
            let b = encode_ok(set, &*m)?;
            m = decode_valid(set, &b).map_err(|e| Fail::new(format!("an encoded message is not delivered: {}", e)))?;
            ensure_eq!(m.snap().known, want, "attributes after sending");
        }
        lookups(c, set, &*m, &want)?;
    }
    c.eval((!want.is_empty()).then(|| hash_dbg(&want)));
    lookups(c, set, &*m, &want)
}

/// A set defined by a user, with user-defined attributes.
fn user(c: &mut Case) -> Chk {
    crate::probe::reset(&[]);
    let tid = c.r.tid();
    let mut b = header(1, 1, &tid, 0);
    let (mut known, mut unknown) = (vec![], vec![]);
    for _ in 0..c.r.mostly(1, 9) {
        let ty = match c.r.below(4) {
            0 => *c.r.pick(&[0x4100u16, 0x4200, 0xC101, 0xC102]),
            1 => *c.r.pick(&[0x4101u16, 0x4201, 0xC100, 0xC103, 0x0100, 0x4000, 0x0042, 0x0041]),
            2 => *c.r.pick(&[0x0006u16, 0x0020, 0x0018, 0x0013, 0x8020, 0x0012]),
            _ => c.r.u16(),
        };
        if ty == T_FP {
            continue;
        }
        let is = Mixed::knows(ty);
        let v = wire_value(&mut c.r, ty, is && kind_of(ty).is_some(), &tid);
        push_tlv(&mut b, ty, &v, &[]);
        if is {
            known.push((ty, v));
        } else {
            unknown.push((ty, v));
        }
    }
    set_len(&mut b);
    c.eval(Some(hash_bytes(&b)));
    let m = match MessageDecoder::<Mixed>::new().decode_from_bytes(&b) {
        Ok(Ok(m)) => m,
        Ok(Err(e)) => fail!("broken: {:?}, {}", e.error().kind(), hex(&b)),
        Err(e) => fail!("rejected: {:?}, {}", e.kind(), hex(&b)),
    };
    let got: Vec<(u16, Vec<u8>)> = m
        .attributes()
        .map(|a| {
            let ty = a.get_type().as_u16();
            let v = match a.probe_value() {
                Some(v) => v.to_vec(),
                None => enc_value(ty, &a.shipped_value().unwrap(), Some(&tid)),
            };
            (ty, v)
        })
        .collect();
    ensure_eq!(got, known, "known attributes of {}", hex(&b));
    let got: Vec<(u16, Vec<u8>)> = m.unknown_attributes().map(|a| (a.get_type().as_u16(), a.value().to_vec())).collect();
    ensure_eq!(got, unknown, "unknown attributes of {}", hex(&b));
    macro_rules! look {
        ($($t:ident $ty:expr),*) => {$(
            let f = m.get_attribute::<crate::probe::$t>().map(|p| p.value().to_vec());
            ensure_eq!(f, known.iter().find(|k| k.0 == $ty).map(|k| k.1.clone()), "lookup of probe {:#06x} in {}", $ty, hex(&b));
        )*};
    }
    look!(PA 0x4100, PB 0x4200, PC 0xC101, PD 0xC102);
    Ok(())
}

/// Raw attributes: type and value go in and come out, whatever the type.
fn raw(c: &mut Case) -> Chk {
    let ty = if c.r.bool() { c.r.u16() } else { gen::any_type(&mut c.r) };
    let n = if c.r.chance(1, 40) { c.r.range(60_000, 65_528) } else { c.r.below(60) };
    let v = c.r.bytes(n);
    c.eval(Some(hash_bytes(&v) ^ u64::from(ty)));
    let a = RawAttribute::new(AttributeType::new(ty), v.clone());
    ensure_eq!(a.get_type().as_u16(), ty, "type of a raw attribute");
    ensure!(a.value() == v, "value of a raw attribute");
    ensure!(a.clone().into_value() == v, "into_value of a raw attribute");
    // the same attribute sent in a raw message is unknown or known to the receiver by its type
    let mut m = stun_codec::Message::<RawAttribute>::new(class_of(0), stun_codec::Method::new(1).unwrap(), stun_codec::TransactionId::new(c.r.tid()));
    m.add_attribute(a);
    let b = MessageEncoder::new().encode_into_bytes(m).map_err(|e| Fail::new(format!("encoding fails with {:?}", e.kind())))?;
    let r = decode_valid(raw_set(), &b).map_err(|e| Fail::new(format!("raw message: {}", e)))?;
    ensure_eq!(r.snap().known, vec![(ty, Val::Bytes(v.clone()))], "a raw message read as raw attributes");
    for set in sets().every.iter().take(sets().enums) {
        if !(set.knows().f)(ty) {
            let r = decode_valid(*set, &b).map_err(|e| Fail::new(format!("unknown attribute {:#06x} in set {}: {}", ty, set.name(), e)))?;
            ensure_eq!(r.snap().unknown, vec![(ty, v.clone())], "unknown attribute in set {}", set.name());
            ensure!(r.snap().known.is_empty(), "type {:#06x} is reported as known in set {}", ty, set.name());
        }
    }
    Ok(())
}
