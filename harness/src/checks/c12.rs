//! C12: a wrong FINGERPRINT is never delivered; a right one always is.
use super::c11::RESERVED;
use super::util::*;

pub fn check() -> Check {
    Check {
        id: "C12",
        rule: "distinct (message, set) pairs whose fingerprint verdict was compared with the reference CRC",
        suites: vec![
            sweep("reserved bits", RESERVED.len() as u64, reserved),
            random("right", 80_000, 2_500_000, right),
            random("flips", 4_000, 100_000, flips),
            random("wrong values", 80_000, 2_000_000, wrong),
            random("several", 60_000, 1_500_000, several),
            random("unknown", 40_000, 800_000, unknown),
            sweep("lengths", 600, lengths),
            sweep("limit", 64, limit),
            sweep("crowds", gen::CROWDS.len() as u64, crowds),
        ],
        assumptions: &["verdicts that hang on reserved bits of known attributes are judged in the suite \"reserved bits\" only (known finding)"],
    }
}

fn judge(c: &mut Case, set: &dyn DynSet, b: &[u8]) -> Chk {
    let Parsed::Msg(p) = model(set, b) else { return Ok(()) };
    if p.ambiguous {
        c.count("skipped: reserved bits", 1);
        return Ok(());
    }
    let f = decode_all(set, b);
    let r = match (&f.out, &p.bad) {
        (Out::Valid(_), None) => {
            c.count("right and delivered", 1);
            Ok(())
        }
        (Out::Broken(i), Some(_)) => {
            c.count("wrong and broken", 1);
            if (i.class, i.method, i.tid) != (p.class, p.method, p.tid) {
                Err(Fail::new("the broken message does not carry its header"))
            } else {
                Ok(())
            }
        }
        (Out::Valid(_), Some(why)) => Err(Fail::new(format!("delivered as valid in spite of: {}", why))),
        (o, None) => Err(Fail::new(format!("a message with right fingerprints is not delivered: {}", o.show()))),
        (o, Some(why)) => Err(Fail::new(format!("neither valid nor broken ({}): {}", why, o.show()))),
    };
    r.detail(|| show_bytes(set, b))?;
    c.eval(Some(hash_bytes(b) ^ hash_bytes(set.name().as_bytes())));
    Ok(())
}
/// Among many attributes.
fn crowds(c: &mut Case) -> Chk {
    let set = pick(c);
    let mut im = gen::crowd(&mut c.r, set, gen::CROWDS[c.idx as usize].min(8_200));
    let n = im.items.len();
    for i in [n, n / 2, c.r.below(n)] {
        im.items.insert(i, Item::Fp);
    }
    let b = im.bytes();
    judge(c, set, &b)?;
    for _ in 0..3 {
        let mut x = b.clone();
        let i = x.len() - 1 - c.r.below(4);
        x[i] ^= 1 << c.r.below(8);
        judge(c, set, &x)?;
        let mut x = b.clone();
        let i = 8 + c.r.below(12);
        x[i] ^= 1 << c.r.below(8);
        judge(c, set, &x)?;
    }
    Ok(())
}
fn fp_sets() -> Vec<&'static dyn DynSet> {
    sets().every.iter().copied().filter(|s| !s.knows().raw && (s.knows().f)(T_FP)).collect()
}
fn pick(c: &mut Case) -> &'static dyn DynSet {
    if c.r.bool() {
        all_set()
    } else {
        *c.r.pick(&fp_sets())
    }
}
fn image(c: &mut Case, set: &dyn DynSet) -> Image {
    let mut im = gen::image(&mut c.r, set, gen::VALID);
    im.items.retain(|i| !matches!(i, Item::Fp));
    im
}
fn right(c: &mut Case) -> Chk {
    let set = pick(c);
    let mut im = image(c, set);
    let at = if c.r.bool() { im.items.len() } else { c.r.below(im.items.len() + 1) };
    im.items.insert(at, Item::Fp);
    let b = im.bytes();
    c.sample(|| show_bytes(set, &b));
    judge(c, set, &b)
}
/// Every bit of the message, the fingerprint included.
fn flips(c: &mut Case) -> Chk {
    let set = pick(c);
    let mut im = image(c, set);
    im.items.truncate(4);
    im.items.push(Item::Fp);
    if c.r.bool() {
        let n = c.r.below(6);
        im.items.push(Item::Tlv { ty: 0x8ccc, value: c.r.bytes(n), pad: vec![] });
    }
    let b = im.bytes();
    for bit in 0..b.len().min(200) * 8 {
        let mut x = b.clone();
        x[bit / 8] ^= 1 << (bit % 8);
        judge(c, set, &x)?;
    }
    Ok(())
}
/// Plausible wrong values: CRC without the mask, with another length, over other bytes.
fn wrong(c: &mut Case) -> Chk {
    let set = pick(c);
    let b = image(c, set).bytes();
    let right = ref_fp(&b);
    let mut with_tail = b.clone();
    push_tlv(&mut with_tail, T_FP, &[0; 4], &[]);
    let cands = [
        right ^ FP_XOR,
        crate::crypto::crc32(&b) ^ FP_XOR,
        crate::crypto::crc32(&covered(&b, 4)) ^ FP_XOR,
        crate::crypto::crc32(&covered(&b, 24)) ^ FP_XOR,
        crate::crypto::crc32(&b[20..]) ^ FP_XOR,
        crate::crypto::crc32(&with_tail) ^ FP_XOR,
        right.swap_bytes(),
        !right,
        0,
        u32::MAX,
        FP_XOR,
        right.wrapping_add(1),
        c.r.u32(),
        right ^ (1 << c.r.below(32)),
        right,
    ];
    let v = *c.r.pick(&cands);
    let mut x = b;
    push_tlv(&mut x, T_FP, &v.to_be_bytes(), &[]);
    set_len(&mut x);
    judge(c, set, &x)
}
/// Several fingerprints, each over what precedes it; any of them may be wrong.
fn several(c: &mut Case) -> Chk {
    let set = pick(c);
    let mut im = image(c, set);
    im.items.truncate(5);
    for _ in 0..c.r.range(2, 4) {
        let at = c.r.below(im.items.len() + 1);
        im.items.insert(at, Item::Fp);
    }
    let (b, offs) = im.bytes_and_offsets();
    judge(c, set, &b)?;
    for (i, it) in im.items.iter().enumerate() {
        if matches!(it, Item::Fp) {
            // wrong by one bit, the later ones right for what precedes them
            let mut v = b[..offs[i]].to_vec();
            let f = ref_fp(&v) ^ (1 << c.r.below(32));
            push_tlv(&mut v, T_FP, &f.to_be_bytes(), &[]);
            for it in &im.items[i + 1..] {
                match it {
                    Item::Tlv { ty, value, pad } => push_tlv(&mut v, *ty, value, pad),
                    Item::Mi(cr) => {
                        let h = ref_mi(&v, &cr.key());
                        push_tlv(&mut v, T_MI, &h, &[]);
                    }
                    Item::Fp => {
                        let f = ref_fp(&v);
                        push_tlv(&mut v, T_FP, &f.to_be_bytes(), &[]);
                    }
                }
            }
            set_len(&mut v);
            judge(c, set, &v)?;
            // and a flip somewhere before or after it
            let mut v = b.clone();
            let k = 20 + c.r.below(v.len() - 20);
            v[k] ^= 1 << c.r.below(8);
            judge(c, set, &v)?;
        }
    }
    Ok(())
}
/// Sets that do not know the attribute carry whatever value it has.
fn unknown(c: &mut Case) -> Chk {
    let set = loop {
        let s = any_set(&mut c.r);
        if s.knows().raw || !(s.knows().f)(T_FP) {
            break s;
        }
    };
    let mut im = gen::image(&mut c.r, set, gen::VALID);
    let n = *c.r.pick(&[0usize, 1, 3, 4, 4, 4, 5, 20]);
    let at = c.r.below(im.items.len() + 1);
    let v = c.r.bytes(n);
    im.items.insert(at, Item::Tlv { ty: T_FP, value: v, pad: vec![] });
    let b = im.bytes();
    let Some(want) = expected(set, &b) else { return Ok(()) };
    let got = decode_all(set, &b).out;
    if got.essence() != want {
        return Err(Fail::new("a fingerprint the set does not know is not carried like any unknown attribute")
            .with(format!("observed {}\nexpected {:?}\n{}", clip(&got.show()), want, show_bytes(set, &b))));
    }
    c.eval(Some(hash_bytes(&b) ^ 1));
    Ok(())
}
fn lengths(c: &mut Case) -> Chk {
    let n = c.idx as usize;
    for set in fp_sets() {
        let ty = if (set.knows().f)(0x13) && c.r.bool() { 0x13 } else { 0x9999 };
        let tid = c.r.tid();
        let items = vec![Item::Tlv { ty, value: c.r.bytes(n), pad: c.r.bytes(3) }, Item::Fp];
        let b = Image { class: c.r.below(4) as u8, method: gen::method(&mut c.r), tid, items }.bytes();
        judge(c, set, &b)?;
        let mut x = b.clone();
        let at = 8 + c.r.below(x.len() - 8);
        x[at] ^= 1 << c.r.below(8);
        judge(c, set, &x)?;
    }
    Ok(())
}
/// Up to the largest message there can be.
fn limit(c: &mut Case) -> Chk {
    let total = 65532 - 4 * (c.idx as usize / 4);
    let set = if c.idx % 2 == 0 { all_set() } else { sets().every[6] };
    let tid = c.r.tid();
    let mut items = vec![];
    if c.idx / 2 % 2 == 0 {
        items.push(Item::Tlv { ty: 0x13, value: c.r.bytes(total - 8 - 4), pad: vec![] });
        items.push(Item::Fp);
    } else {
        items.push(Item::Tlv { ty: 0x9999, value: c.r.bytes(total - 8 - 4 - 12), pad: vec![] });
        items.push(Item::Fp);
        items.push(Item::Tlv { ty: 0x9999, value: c.r.bytes(8), pad: vec![] });
    }
    let b = Image { class: 0, method: 1, tid, items }.bytes();
    ensure!(b.len() == total + 20, "harness: wrong size");
    judge(c, set, &b)?;
    for _ in 0..3 {
        let mut x = b.clone();
        let at = 24 + c.r.below(total - 16);
        x[at] ^= 1 << c.r.below(8);
        judge(c, set, &x)?;
    }
    Ok(())
}

/// One attribute with one reserved bit set: the known finding, per attribute type.
fn reserved(c: &mut Case) -> Chk {
    let (ty, value, mask) = RESERVED[c.idx as usize];
    let tid = [9; 12];
    let mut bad = None;
    for at in 0..mask.len() {
        for bit in 0..8 {
            if mask[at] >> bit & 1 == 0 {
                continue;
            }
            let mut v = value.to_vec();
            v[at] |= 1 << bit;
            let clear = Image { class: 0, method: 1, tid, items: vec![Item::Tlv { ty, value: value.to_vec(), pad: vec![] }] }.bytes();
            let set = Image { class: 0, method: 1, tid, items: vec![Item::Tlv { ty, value: v, pad: vec![] }] }.bytes();
            // right over the received bytes; right only over the normalised ones
            for (fp, right) in [(ref_fp(&set), true), (ref_fp(&clear), false)] {
                let mut b = set.clone();
                push_tlv(&mut b, T_FP, &fp.to_be_bytes(), &[]);
                set_len(&mut b);
                c.eval(Some(hash_bytes(&b)));
                match (decode_all(all_set(), &b).out, right) {
                    (Out::Valid(_), true) | (Out::Broken(_), false) => {}
                    (o @ (Out::Valid(_) | Out::Broken(_)), _) => bad = Some((o.name(), right, b.clone())),
                    (o, _) => fail!("neither valid nor broken: {}", o.show()),
                }
                // the set that does not know the attribute sees the bytes as they are
                let o = decode_all(sets().every[6], &b).out;
                ensure!(matches!(o, Out::Valid(_)) == right, "reserved bits inside an unknown attribute disturb the fingerprint");
            }
            // wrong over either
            let mut b = set.clone();
            push_tlv(&mut b, T_FP, &(ref_fp(&set) ^ 0x10).to_be_bytes(), &[]);
            set_len(&mut b);
            ensure!(!matches!(decode_all(all_set(), &b).out, Out::Valid(_)), "a wrong fingerprint is delivered as valid");
        }
    }
    if let Some((name, right, b)) = bad {
        return c.finding(
            Fail::new(format!(
                "a message in which reserved bits of {} are set and whose fingerprint is {} for the received bytes is delivered as {}: the CRC is computed over the normalised value",
                type_name(ty), if right { "right" } else { "wrong" }, name
            ))
            .with(show_bytes(all_set(), &b))
            .keyed(format!("C12/reserved-bits/0x{:04x}", ty)),
        );
    }
    Ok(())
}
