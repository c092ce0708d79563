//! C22: values compare, hash, copy, convert and print by their contents.
use super::util::*;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use stun_codec::{AttributeType, MessageClass, Method, TransactionId};

pub fn check() -> Check {
    Check {
        id: "C22",
        rule: "distinct pairs of values compared, and distinct messages copied or sent, whose every comparison was judged",
        suites: vec![
            random("values", 80_000, 4_000_000, values),
            random("members", 30_000, 1_500_000, members),
            random("received", 30_000, 1_500_000, received),
            random("copies", 30_000, 1_500_000, copies),
            random("plain", 60_000, 2_000_000, plain),
            random("printing", 10_000, 400_000, printing),
        ],
        assumptions: &["raw attributes and whole messages have no comparison"],
    }
}

/// A value close to another one of the same type.
fn near(r: &mut Rng, ty: u16, v: &Val) -> Val {
    for _ in 0..6 {
        match (r.below(6), v) {
            (0, _) => return v.clone(),
            (1, _) => return gen::val(r, ty, &[0; 12]),
            (2, Val::Text(s)) => {
                let swapped: String = s.chars().map(|c| if c.is_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect();
                return Val::Text(swapped);
            }
            (3, Val::Text(s)) if s.chars().count() < 100 => return Val::Text(format!("{}{}", s, r.pick(&[" ", "\0", "x", "\u{301}"]))),
            (3, Val::Text(s)) => return Val::Text(s.chars().skip(1).collect()),
            (2, Val::Err(c, s)) => return Val::Err(*c, s.to_uppercase()),
            (3, Val::Err(c, s)) => return Val::Err(if *c == 300 { 301 } else { c - 1 }, s.clone()),
            (2, Val::Types(t)) => {
                let mut t = t.clone();
                t.reverse();
                return Val::Types(t);
            }
            (3, Val::Types(t)) => {
                let mut t = t.clone();
                if let Some(x) = t.first().copied() {
                    t.push(x);
                }
                return Val::Types(t);
            }
            _ => {
                let mut b = enc_value(ty, v, None);
                if b.is_empty() {
                    return v.clone();
                }
                let i = r.below(b.len());
                b[i] ^= 1 << r.below(8);
                if let Ok(w) = dec_value(ty, &b, None) {
                    return w;
                }
            }
        }
    }
    v.clone()
}
fn judge(what: impl Fn() -> String, s: Same, equal: bool) -> Chk {
    ensure!(s.eq == equal && s.eq_back == equal && s.ne != equal, "{}: == says {}, back {}, != says {}", what(), s.eq, s.eq_back, s.ne);
    ensure!(!equal || s.hash, "{}: they are equal but their hashes differ", what());
    Ok(())
}
fn values(c: &mut Case) -> Chk {
    let all = ones();
    let o = all[c.idx as usize % all.len()];
    let ty = o.ty();
    let a = gen::val(&mut c.r, ty, &[0; 12]);
    let b = near(&mut c.r, ty, &a);
    let (r, copy, copied) = match o.compare(&a, &b) {
        Some(x) => x,
        // `near` may have left the limits
        None if one_of(ty).reports(&a).is_some() => return Ok(()),
        None => return Err(refused(ty, &a)),
    };
    judge(|| format!("{} {:?} and {:?}", type_name(ty), a, b), r, a == b)?;
    judge(|| format!("{} {:?} and its copy", type_name(ty), a), copy, true)?;
    ensure_eq!(copied, a, "the copy of a {}", type_name(ty));
    c.count(if a == b { "equal values" } else { "different values" }, 1);
    c.eval(Some(hash_dbg(&(ty, &a, &b))));
    if ty == 0x8022 {
        if let Val::Text(s) = &a {
            let fixed = Software::new_static(Box::leak(s.clone().into_boxed_str()));
            let owned = Software::new(s.clone()).map_err(|_| refused(ty, &a))?;
            judge(|| format!("Software {:?}, static and owned", s), same(&fixed, &owned), true)?;
        }
    }
    Ok(())
}

fn enums() -> &'static [&'static dyn DynSet] {
    let s = sets();
    &s.every[..s.enums]
}
/// Attributes as members of sets.
fn members(c: &mut Case) -> Chk {
    let set = *c.r.pick(enums());
    let types = set.types();
    let tid = c.r.tid();
    let n = c.r.range(1, 4);
    let pick = |r: &mut Rng| {
        let ty = *r.pick(&types);
        (ty, gen::val(r, ty, &tid))
    };
    let a: Vec<(u16, Val)> = (0..n).map(|_| pick(&mut c.r)).collect();
    let b: Vec<(u16, Val)> = a
        .iter()
        .map(|(ty, v)| match c.r.below(3) {
            0 => (*ty, v.clone()),
            1 => (*ty, near(&mut c.r, *ty, v)),
            _ => pick(&mut c.r),
        })
        .collect();
    let (mut x, mut y) = (set.msg(0, 1, tid), set.msg(0, 1, tid));
    for (ty, v) in &a {
        if !x.add(*ty, v) {
            return Err(refused(*ty, v));
        }
    }
    for (ty, v) in &b {
        if !y.add(*ty, v) {
            return Ok(());
        }
    }
    let what = || format!("set {}, {:?} and {:?}", set.name(), a, b);
    let r = x.same(&*y).ok_or_else(|| Fail::new("harness: not comparable"))?;
    ensure_eq!(r.len(), n, "number of attributes ({})", what());
    for i in 0..n {
        judge(|| format!("set {}, {:?} and {:?}", set.name(), a[i], b[i]), r[i], a[i] == b[i])?;
    }
    ensure_eq!(x.iter_eq(&*y), Some(a == b), "comparing the attributes of two messages ({})", what());
    // as its own type and as no other
    for &ty in &types {
        let seen = x.as_type(ty).ok_or_else(|| Fail::new("harness: no such type"))?;
        let want: Vec<Option<Val>> = a.iter().map(|(t, v)| (*t == ty).then(|| v.clone())).collect();
        ensure_eq!(seen, want, "the attributes of set {} seen as {} ({:?})", set.name(), type_name(ty), a);
    }
    c.count("members", n as u64);
    c.eval(Some(hash_dbg(&(set.name(), &a, &b))));
    Ok(())
}

/// Attributes that were sent are equal to those received.
fn received(c: &mut Case) -> Chk {
    let set = any_set(&mut c.r);
    if set.knows().raw {
        return Ok(());
    }
    let mut p = auth_plan(&mut c.r, set);
    // integrity attributes are made for the message they are in
    p.items.retain(|i| !matches!(i, PItem::Val(T_MI, _)));
    let m = p.build(set)?;
    let b = encode_ok(set, &*m)?;
    let got = decode_valid(set, &b).map_err(|x| Fail::new(format!("not received: {}", x)))?;
    let what = || format!("set {}, message {}", set.name(), clip(&format!("{:?}", p)));
    let r = m.same(&*got).ok_or_else(|| Fail::new("harness: not comparable"))?;
    ensure_eq!(r.len(), p.items.len(), "number of attributes received ({})", what());
    for (i, s) in r.iter().enumerate() {
        judge(|| format!("attribute {} sent and received ({})", i, what()), *s, true)?;
    }
    ensure_eq!(m.iter_eq(&*got), Some(true), "attributes sent and received ({})", what());
    // received twice
    let again = decode_valid(set, &b).map_err(|x| Fail::new(format!("not received: {}", x)))?;
    ensure_eq!(again.iter_eq(&*got), Some(true), "attributes received twice ({})", what());
    c.count("attributes received", r.len() as u64);
    c.eval(Some(hash_bytes(&b)));
    Ok(())
}

/// A copy of a message and the original go separate ways.
fn copies(c: &mut Case) -> Chk {
    let set = any_set(&mut c.r);
    let m = if c.r.bool() {
        let b = gen::image(&mut c.r, set, gen::VALID).bytes();
        match decode_valid(set, &b) {
            Ok(m) => m,
            Err(_) => return Ok(()),
        }
    } else {
        auth_plan(&mut c.r, set).build(set)?
    };
    let snap = m.snap();
    let wire = encode_ok(set, &*m)?;
    let what = || format!("set {}, {}", set.name(), clip(&format!("{:?}", snap)));
    let mut copy = m.clone_box();
    ensure_eq!(copy.snap(), snap, "the copy of a message ({})", what());
    if !set.knows().raw {
        ensure_eq!(m.iter_eq(&*copy), Some(true), "the attributes of a message and its copy ({})", what());
    }
    let mut orig = m;
    let mut want = (snap.clone(), snap.clone());
    for _ in 0..c.r.range(1, 4) {
        let first = c.r.bool();
        let (t, w) = if first { (&mut copy, &mut want.0) } else { (&mut orig, &mut want.1) };
        let ty = if set.knows().raw { c.r.u16() } else { *c.r.pick(&set.types()) };
        let v = if set.knows().raw { Val::Bytes(c.r.bytes(5)) } else { gen::val(&mut c.r, ty, &snap.tid) };
        if t.add(ty, &v) {
            w.known.push((ty, v));
        }
        ensure_eq!(copy.snap(), want.0, "the copy after changing the {} ({})", if first { "copy" } else { "original" }, what());
        ensure_eq!(orig.snap(), want.1, "the original after changing the {} ({})", if first { "copy" } else { "original" }, what());
    }
    // sending one does not change the other
    let mut e = set.encoder();
    let third = orig.clone_box();
    let _ = e.all(copy);
    ensure_eq!(orig.snap(), want.1, "the original after its copy was sent ({})", what());
    drop(orig);
    ensure_eq!(third.snap(), want.1, "the copy after the original was dropped ({})", what());
    if want.1 == snap {
        let again = encode_ok(set, &*third)?;
        ensure!(again == wire, "a copy comes out as other bytes: {} instead of {}", hex(&again), hex(&wire));
    }
    c.count("copies", 2);
    c.eval(Some(hash_bytes(&wire)));
    Ok(())
}

fn h<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}
fn plain(c: &mut Case) -> Chk {
    let (a, b) = (c.r.u16(), c.r.u16());
    let b = *c.r.pick(&[a, b, a ^ 1, a ^ 0x100, a.swap_bytes(), a.wrapping_add(1)]);
    macro_rules! numeric {
        ($name:expr, $x:expr, $y:expr, $m:expr, $n:expr) => {{
            let (x, y, m, n) = ($x, $y, $m, $n);
            judge(|| format!("{} {:?} and {:?}", $name, x, y), same(&x, &y), m == n)?;
            ensure_eq!((x.cmp(&y), x.partial_cmp(&y), x < y, x.max(y)), (m.cmp(&n), Some(m.cmp(&n)), m < n, if m > n { x } else { y }), "order of {} {:?} and {:?}", $name, x, y);
            let copy = x.clone();
            judge(|| format!("{} {:?} and its copy", $name, x), same(&x, &copy), true)?;
        }};
    }
    numeric!("attribute type", AttributeType::new(a), AttributeType::new(b), a, b);
    ensure_eq!(AttributeType::from(a), AttributeType::new(a), "attribute type from {}", a);
    let (ma, mb) = (a & 0xfff, b & 0xfff);
    if let (Ok(x), Ok(y)) = (Method::new(ma), Method::new(mb)) {
        numeric!("method", x, y, ma, mb);
    } else {
        fail!("Method::new refuses {:#x} or {:#x}", ma, mb);
    }
    let (na, nb) = (0x4000 | ma, 0x4000 | mb);
    if let (Ok(x), Ok(y)) = (ChannelNumber::new(na), ChannelNumber::new(nb)) {
        numeric!("channel number", x, y, na, nb);
        ensure_eq!(x.to_string(), na.to_string(), "channel number {} printed", na);
        ensure_eq!(format!("{:>8}|{:<8}|{:08}", x, x, x), format!("{:>8}|{:<8}|{:08}", na, na, na), "channel number {} printed with a width", na);
    } else {
        fail!("ChannelNumber::new refuses {:#x} or {:#x}", na, nb);
    }
    let ta = c.r.tid();
    let mut tb = ta;
    if c.r.chance(3, 4) {
        for _ in 0..c.r.range(1, 2) {
            tb[c.r.below(12)] ^= 1 << c.r.below(8);
        }
    }
    numeric!("transaction ID", TransactionId::new(ta), TransactionId::new(tb), ta, tb);
    let id = TransactionId::new(ta);
    ensure_eq!(*id.as_bytes(), ta, "transaction ID of {:?}", ta);
    let classes = [MessageClass::Request, MessageClass::Indication, MessageClass::SuccessResponse, MessageClass::ErrorResponse];
    let (i, j) = (c.r.below(4), c.r.below(4));
    judge(|| format!("{:?} and {:?}", classes[i], classes[j]), same(&classes[i], &classes[j]), i == j)?;
    let mut hs: Vec<u64> = classes.iter().map(h).collect();
    hs.dedup();
    ensure!(hs.len() > 1, "all classes have the same hash");
    c.eval(Some(hash_dbg(&(a, b, ta, tb))));
    Ok(())
}

/// Formatting for logs works for every value, whatever came in.
fn printing(c: &mut Case) -> Chk {
    let set = any_set(&mut c.r);
    let b = any_input(&mut c.r, set);
    let cut = gen::cut(&mut c.r, b.len());
    let f = feed(&mut *set.decoder(), &b, &cut, Mode::AtEnd);
    match f.out {
        Out::Valid(m) => {
            let s = m.debug();
            ensure!(!s.is_empty(), "a message prints nothing");
            let n = m.debug_attrs().len();
            ensure_eq!(n, m.snap().known.len(), "number of attributes printed");
            c.count("messages printed", 1);
        }
        Out::Broken(i) => {
            ensure!(!i.reason.is_empty(), "the error code of a broken message has no text");
            c.count("broken messages printed", 1);
        }
        _ => c.count("nothing to print", 1),
    }
    c.eval(Some(hash_bytes(&b)));
    Ok(())
}
