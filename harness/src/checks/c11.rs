//! C11: MESSAGE-INTEGRITY verification accepts exactly the authentic messages.
use super::util::*;

pub fn check() -> Check {
    Check {
        id: "C11",
        rule: "distinct (message, integrity attribute, credential) triples whose verification was compared with the reference HMAC",
        suites: vec![
            sweep("reserved bits", RESERVED.len() as u64, reserved),
            random("authentic", 50_000, 1_500_000, authentic),
            random("flips", 3_000, 80_000, flips),
            random("hmac flips", 4_000, 80_000, hmac_flips),
            random("tampered", 80_000, 2_500_000, tampered),
            random("later", 40_000, 1_000_000, later),
            random("keys", 60_000, 1_500_000, keys),
            random("local", 40_000, 1_000_000, local),
            sweep("key lengths", 300, key_lengths),
            sweep("big", 24, big),
            sweep("crowds", gen::CROWDS.len() as u64, crowds),
        ],
        assumptions: &["verdicts that hang on reserved bits of known attributes are judged in the suite \"reserved bits\" only (known finding)"],
    }
}

/// Every known attribute of the model's message: reference verdict against the code's.
/// Returns how many were judged.
pub fn judge_all(c: &mut Case, set: &dyn DynSet, b: &[u8], creds: &[&Cred]) -> Result<usize, Fail> {
    let m = match decode_all(set, b).out {
        Out::Valid(m) => m,
        _ => return Ok(0),
    };
    let Parsed::Msg(p) = model(set, b) else { return Ok(0) };
    if p.bad.is_some() {
        return Ok(0); // accepted although malformed: C04 and C12
    }
    judge_msg(c, set, b, &p, &*m, creds)
}
pub fn judge_msg(c: &mut Case, set: &dyn DynSet, b: &[u8], p: &PMsg, m: &dyn DynMsg, creds: &[&Cred]) -> Result<usize, Fail> {
    let mis = m.mis();
    let known: Vec<&WAttr> = p.attrs.iter().filter(|a| a.ty == T_MI && a.val.is_some()).collect();
    if mis.len() != known.len() {
        return Err(Fail::new("the message does not show its MESSAGE-INTEGRITY attributes").with(show_bytes(set, b)));
    }
    let copies = m.clone_box().mis();
    let mut n = 0;
    for (i, (mi, a)) in mis.iter().zip(&known).enumerate() {
        for cred in creds {
            let key = cred.key();
            let want = a.value[..] == ref_mi(&b[..a.off], &key)[..];
            if p.reserved && want != (a.value[..] == ref_mi(&p.normal[..a.off], &key)[..]) {
                c.count("skipped: reserved bits", 1);
                continue;
            }
            let want = if want { Ok(Ok(())) } else { Ok(Err(401)) };
            for (what, x) in [("", mi), (" (asked again)", mi), (" (on a copy)", &copies[i])] {
                let got = cred.check(x);
                if got != want {
                    return Err(Fail::new(match want {
                        Ok(Ok(())) => format!("an authentic MESSAGE-INTEGRITY is refused{}: {:?}", what, got),
                        _ if got == Ok(Ok(())) => format!("a forged MESSAGE-INTEGRITY is accepted{}", what),
                        _ => format!("a forged MESSAGE-INTEGRITY fails with {:?} instead of 401{}", got, what),
                    })
                    .with(format!("attribute at byte {}, {:?}\n{}", a.off, cred, show_bytes(set, b))));
                }
            }
            c.count(if want == Ok(Ok(())) { "accepted" } else { "refused with 401" }, 1);
            c.eval(Some(hash_bytes(&b[..a.off + 24]) ^ hash_dbg(cred)));
            n += 1;
        }
    }
    Ok(n)
}

fn auth_image(c: &mut Case, set: &dyn DynSet, cred: &Cred) -> Image {
    let mut im = gen::image(&mut c.r, set, gen::ImgOpt { auth: 0, ..gen::VALID });
    let at = if c.r.bool() { im.items.len() } else { c.r.below(im.items.len() + 1) };
    im.items.insert(at, Item::Mi(cred.clone()));
    if c.r.chance(1, 3) {
        im.items.push(Item::Fp);
    }
    im
}
fn pick(c: &mut Case) -> &'static dyn DynSet {
    if c.r.bool() {
        all_set()
    } else {
        *c.r.pick(&auth_sets())
    }
}
/// A text that is nearly the same.
fn twist(r: &mut Rng, s: &str) -> String {
    let mut v: Vec<char> = s.chars().collect();
    let n = v.len();
    match r.below(13) {
        0 => v.push('x'),
        1 => drop(v.pop()),
        2 => v = v.into_iter().skip(1).collect(),
        3 => return s.to_uppercase(),
        4 => return s.to_lowercase(),
        5 => v.push(*r.pick(&[' ', '.', '\0', ':', '\u{301}', '\n', '\u{ad}', '"'])),
        6 => v.insert(0, *r.pick(&[' ', '"', '\u{feff}', '\\'])),
        7 => v.reverse(),
        8 if n > 1 => v.swap(0, n - 1),
        _ if n > 0 => {
            // one letter somewhere
            let i = r.below(n);
            v[i] = match r.below(3) {
                0 if v[i].is_ascii_lowercase() => v[i].to_ascii_uppercase(),
                0 if v[i].is_ascii_uppercase() => v[i].to_ascii_lowercase(),
                1 => char::from_u32(v[i] as u32 ^ 1).unwrap_or('x'),
                _ => 'x',
            }
        }
        _ => v.push('y'),
    }
    v.into_iter().collect()
}
fn other(r: &mut Rng, cred: &Cred) -> Cred {
    match cred {
        Cred::Short(p) => match r.below(5) {
            0 => Cred::Long { user: if p.len() <= 512 { p.clone() } else { String::new() }, realm: String::new(), password: String::new() },
            1 => gen::cred(r),
            _ => Cred::Short(twist(r, p)),
        },
        Cred::Long { user, realm, password } => {
            let (mut u, mut re, mut p) = (user.clone(), realm.clone(), password.clone());
            match r.below(9) {
                0 | 1 => u = twist(r, &u),
                2 | 3 => re = twist(r, &re),
                4 | 5 => p = twist(r, &p),
                6 => std::mem::swap(&mut u, &mut p),
                7 => return Cred::Short(p),
                _ => return gen::cred(r),
            }
            // what the attributes can carry
            if u.len() > 512 {
                u = "u".into();
            }
            if re.chars().count() > 127 {
                re = "r".into();
            }
            Cred::Long { user: u, realm: re, password: p }
        }
    }
}

fn authentic(c: &mut Case) -> Chk {
    let set = pick(c);
    let cred = gen::cred(&mut c.r);
    let b = auth_image(c, set, &cred).bytes();
    let wrong = other(&mut c.r, &cred);
    c.sample(|| format!("{:?} {}", cred, show_bytes(set, &b)));
    let n = judge_all(c, set, &b, &[&cred, &wrong])?;
    ensure!(n > 0, "a sound authentic message was not delivered: {}", show_bytes(set, &b));
    Ok(())
}
/// Every bit of the covered bytes.
fn flips(c: &mut Case) -> Chk {
    let set = pick(c);
    let cred = gen::cred(&mut c.r);
    let mut im = auth_image(c, set, &cred);
    im.items.retain(|i| matches!(i, Item::Mi(_)) || !matches!(i, Item::Fp));
    if im.items.len() > 4 {
        im.items.drain(..im.items.len() - 4);
        if !im.items.iter().any(|i| matches!(i, Item::Mi(_))) {
            im.items.push(Item::Mi(cred.clone()));
        }
    }
    let b = im.bytes();
    let n = b.len().min(160);
    for bit in 0..n * 8 {
        let mut x = b.clone();
        x[bit / 8] ^= 1 << (bit % 8);
        judge_all(c, set, &x, &[&cred]).detail(|| format!("bit {} of byte {} flipped", bit % 8, bit / 8))?;
    }
    Ok(())
}
/// Every bit of the HMAC itself.
fn hmac_flips(c: &mut Case) -> Chk {
    let set = pick(c);
    let cred = gen::cred(&mut c.r);
    let mut im = auth_image(c, set, &cred);
    im.items.retain(|i| !matches!(i, Item::Fp));
    let (b, offs) = im.bytes_and_offsets();
    let at = im.items.iter().position(|i| matches!(i, Item::Mi(_))).map(|i| offs[i] + 4).unwrap_or(20);
    for bit in 0..160 {
        let mut x = b.clone();
        x[at + bit / 8] ^= 1 << (bit % 8);
        judge_all(c, set, &x, &[&cred])?;
    }
    // a prefix, a suffix or nothing of the HMAC is right
    for k in [0usize, 1, 4, 8, 10, 16, 19] {
        let mut x = b.clone();
        for y in &mut x[at + k..at + 20] {
            *y = !*y;
        }
        judge_all(c, set, &x, &[&cred])?;
        let mut x = b.clone();
        for y in &mut x[at..at + 20 - k] {
            *y ^= 0x55;
        }
        judge_all(c, set, &x, &[&cred])?;
    }
    Ok(())
}
/// Arbitrary damage, attributes moved, added or removed, with the fingerprint made right again.
fn tampered(c: &mut Case) -> Chk {
    let set = pick(c);
    let cred = gen::cred(&mut c.r);
    let mut im = auth_image(c, set, &cred);
    im.items.retain(|i| !matches!(i, Item::Fp));
    let (b, offs) = im.bytes_and_offsets();
    let mut x = match c.r.below(6) {
        0 => {
            // two attributes change places
            let cuts: Vec<usize> = offs.iter().copied().chain([b.len()]).collect();
            let mut parts: Vec<&[u8]> = cuts.windows(2).map(|w| &b[w[0]..w[1]]).collect();
            if parts.len() > 1 {
                let (i, j) = (c.r.below(parts.len()), c.r.below(parts.len()));
                parts.swap(i, j);
            }
            let mut v = b[..20].to_vec();
            v.extend(parts.concat());
            v
        }
        1 => {
            // one is left out
            let cuts: Vec<usize> = offs.iter().copied().chain([b.len()]).collect();
            let i = c.r.below(offs.len());
            let mut v = b[..cuts[i]].to_vec();
            v.extend_from_slice(&b[cuts[i + 1]..]);
            v
        }
        2 => {
            // one is slipped in
            let at = *c.r.pick(&offs);
            let mut v = b[..at].to_vec();
            let n = c.r.below(6);
            let val = c.r.bytes(n);
            push_tlv(&mut v, 0xabcd, &val, &[]);
            v.extend_from_slice(&b[at..]);
            v
        }
        3 => {
            // header fields
            let mut v = b.clone();
            let i = *c.r.pick(&[0usize, 1, 8, 9, 13, 19]);
            v[i] ^= 1 << c.r.below(8);
            v
        }
        4 => {
            // padding
            let mut v = b.clone();
            for o in gen::walk(&b) {
                let n = usize::from(u16::from_be_bytes([b[o + 2], b[o + 3]]));
                for k in 0..pad_len(n) {
                    if c.r.bool() {
                        v[o + 4 + n + k] ^= c.r.u8();
                    }
                }
            }
            v
        }
        _ => {
            let mut v = b.clone();
            gen::mutate(&mut c.r, &mut v);
            v
        }
    };
    if x.len() >= 20 && x.len() < 20 + 0xffff {
        set_len(&mut x);
    }
    judge_all(c, set, &x, &[&cred])?;
    Ok(())
}
/// What follows an integrity attribute does not matter.
fn later(c: &mut Case) -> Chk {
    let set = pick(c);
    let cred = gen::cred(&mut c.r);
    let mut im = auth_image(c, set, &cred);
    while !matches!(im.items.last(), Some(Item::Mi(_))) {
        im.items.pop();
    }
    let base = im.clone();
    for _ in 0..3 {
        let mut im = base.clone();
        let tail = gen::image(&mut c.r, set, gen::ImgOpt { auth: 20, ..gen::VALID });
        im.items.extend(tail.items.into_iter().map(|i| match i {
            Item::Tlv { ty, value, pad } if kind_of(ty) == Some(Kind::XorAddr) || !set.knows().raw => Item::Tlv { ty, value, pad },
            i => i,
        }));
        if c.r.bool() {
            let k2 = other(&mut c.r, &cred);
            im.items.push(Item::Mi(k2));
        }
        let b = im.bytes();
        if b.len() > 65_500 {
            continue;
        }
        let n = judge_all(c, set, &b, &[&cred])?;
        ensure!(n > 0, "a sound authentic message was not delivered: {}", show_bytes(set, &b));
    }
    Ok(())
}
fn keys(c: &mut Case) -> Chk {
    let set = pick(c);
    let cred = match c.r.below(4) {
        0 => Cred::Long { user: "a".into(), realm: "b".into(), password: "c:d".into() },
        1 => Cred::Long { user: "a:b".into(), realm: "c".into(), password: "d".into() },
        _ => gen::cred(&mut c.r),
    };
    let b = auth_image(c, set, &cred).bytes();
    let mut others: Vec<Cred> = (0..4).map(|_| other(&mut c.r, &cred)).collect();
    others.push(Cred::Long { user: "a".into(), realm: "b:c".into(), password: "d".into() });
    others.push(Cred::Short(String::new()));
    let mut all: Vec<&Cred> = others.iter().collect();
    all.push(&cred);
    judge_all(c, set, &b, &all)?;
    Ok(())
}
/// Locally created attributes, verified before sending, by the maker and on copies.
fn local(c: &mut Case) -> Chk {
    let set = pick(c);
    let cred = gen::cred(&mut c.r);
    let mut p = auth_plan(&mut c.r, set);
    p.items.push(PItem::Mi(cred.clone()));
    let mut m = p.build(set)?;
    let b = p.image().bytes();
    let wrong = other(&mut c.r, &cred);
    let Parsed::Msg(pm) = model(set, &b) else { return Ok(()) };
    if pm.bad.is_some() {
        return Ok(());
    }
    judge_msg(c, set, &b, &pm, &*m, &[&cred, &wrong]).detail(|| "locally created".into())?;
    // attributes added later do not matter
    let first = m.mis().len();
    let extra = gen::plan(&mut c.r, set, false);
    for (ty, v) in extra.attrs.iter().take(3) {
        m.add(*ty, v);
    }
    let mis = m.mis();
    ensure!(mis.len() >= first, "MESSAGE-INTEGRITY attributes disappear");
    ensure_eq!(cred.check(&mis[first - 1]), Ok(Ok(())), "attributes added after a created MESSAGE-INTEGRITY influence it");
    Ok(())
}
fn key_lengths(c: &mut Case) -> Chk {
    let n = c.idx as usize;
    let set = pick(c);
    for cred in [
        Cred::Short(gen::text_bytes(&mut c.r, n)),
        Cred::Long { user: gen::text_bytes(&mut c.r, n), realm: gen::text_chars(&mut c.r, n % 128), password: gen::text_bytes(&mut c.r, 300 - n) },
    ] {
        let b = auth_image(c, set, &cred).bytes();
        let wrong = other(&mut c.r, &cred);
        judge_all(c, set, &b, &[&cred, &wrong])?;
    }
    Ok(())
}
/// Among many attributes.
fn crowds(c: &mut Case) -> Chk {
    let set = pick(c);
    let cred = gen::cred(&mut c.r);
    let mut im = gen::crowd(&mut c.r, set, gen::CROWDS[c.idx as usize].min(8_200));
    let n = im.items.len();
    let at = [n, n - 1, n / 2, c.r.below(n)];
    for i in at {
        im.items.insert(i, Item::Mi(cred.clone()));
    }
    if (set.knows().f)(8) && im.items.iter().any(|i| matches!(i, Item::Tlv { ty: T_FP, .. })) {
        return Ok(());
    }
    let b = im.bytes();
    let wrong = other(&mut c.r, &cred);
    let k = judge_all(c, set, &b, &[&cred, &wrong])?;
    ensure!(k >= 8, "a sound authentic message of {} attributes was not delivered", n);
    Ok(())
}
fn big(c: &mut Case) -> Chk {
    let set = all_set();
    let cred = gen::cred(&mut c.r);
    let n = 65532 - 24 - 4 - 4 * c.idx as usize;
    let tid = c.r.tid();
    let items = vec![
        Item::Tlv { ty: if c.idx % 2 == 0 { 0x13 } else { 0x7777 }, value: c.r.bytes(n), pad: vec![] },
        Item::Mi(cred.clone()),
    ];
    let b = Image { class: 0, method: 3, tid, items }.bytes();
    let wrong = other(&mut c.r, &cred);
    let k = judge_all(c, set, &b, &[&cred, &wrong])?;
    ensure!(k == 2, "a sound authentic message was not delivered");
    let mut x = b.clone();
    let i = 24 + c.r.below(n);
    x[i] ^= 1;
    judge_all(c, set, &x, &[&cred])?;
    Ok(())
}

/// (type, well-formed value, mask of its reserved bits)
pub const RESERVED: [(u16, &[u8], &[u8]); 16] = [
    (0x0001, &[0, 1, 0, 80, 1, 2, 3, 4], &[0xff]),
    (0x8023, &[0, 1, 0, 80, 1, 2, 3, 4], &[0xff]),
    (0x0020, &[0, 1, 0, 80, 1, 2, 3, 4], &[0xff]),
    (0x8020, &[0, 1, 0, 80, 1, 2, 3, 4], &[0xff]),
    (0x0012, &[0, 1, 0, 80, 1, 2, 3, 4], &[0xff]),
    (0x0016, &[0, 1, 0, 80, 1, 2, 3, 4], &[0xff]),
    (0x802b, &[0, 1, 0, 80, 1, 2, 3, 4], &[0xff]),
    (0x802c, &[0, 1, 0, 80, 1, 2, 3, 4], &[0xff]),
    (0x0009, &[0, 0, 4, 1, b'n', b'o'], &[0xff, 0xff, 0xf8]),
    (0x000C, &[0x40, 1, 0, 0], &[0, 0, 0xff, 0xff]),
    (0x0018, &[0x80], &[0x7f]),
    (0x0019, &[17, 0, 0, 0], &[0, 0xff, 0xff, 0xff]),
    (0x0003, &[0, 0, 0, 4], &[0xff, 0xff, 0xff, 0xf9]),
    (0x0027, &[1, 2, 0, 0], &[0, 0, 0xff, 0xff]),
    (0x0017, &[1, 0, 0, 0], &[0, 0xff, 0xff, 0xff]),
    (0x8000, &[2, 0, 0, 0], &[0, 0xff, 0xff, 0xff]),
];

/// Messages of one attribute with one reserved bit set: the known finding, per attribute type.
fn reserved(c: &mut Case) -> Chk {
    let (ty, value, mask) = RESERVED[c.idx as usize];
    let cred = Cred::Short("swordfish".into());
    let tid = [9; 12];
    let mut bad = None;
    for at in 0..mask.len() {
        for bit in 0..8 {
            if mask[at] >> bit & 1 == 0 {
                continue;
            }
            let mut v = value.to_vec();
            v[at] |= 1 << bit;
            let items = vec![Item::Tlv { ty, value: v, pad: vec![] }, Item::Mi(cred.clone())];
            let b = Image { class: 0, method: 1, tid, items }.bytes();
            let m = match decode_all(all_set(), &b).out {
                Out::Valid(m) => m,
                o => fail!("a message with reserved bits in {} is not delivered: {}", type_name(ty), o.show()),
            };
            let mis = m.mis();
            ensure!(mis.len() == 1, "the message does not show its MESSAGE-INTEGRITY");
            c.eval(Some(hash_bytes(&b)));
            match cred.check(&mis[0]) {
                Ok(Ok(())) => {}
                o => bad = Some((o, b.clone())),
            }
            // the set that does not know the attribute sees the bytes as they are
            if ty != 9 {
                let auth = sets().every[6];
                let mis = decode_valid(auth, &b).map_err(Fail::new)?.mis();
                ensure!(mis.len() == 1 && cred.check(&mis[0]) == Ok(Ok(())), "reserved bits inside an unknown attribute disturb the verification");
            }
        }
    }
    if let Some((o, b)) = bad {
        return c.finding(
            Fail::new(format!(
                "an authentic message in which reserved bits of {} are set fails verification with {:?}: the HMAC is computed over the normalised value, not over the received bytes",
                type_name(ty), o
            ))
            .with(show_bytes(all_set(), &b))
            .keyed(format!("C11/reserved-bits/0x{:04x}", ty)),
        );
    }
    Ok(())
}
