//! C04: accepted if and only if well formed, with the values on the wire.
use super::util::*;

pub fn check() -> Check {
    Check {
        id: "C04",
        rule: "distinct (input bytes, set) pairs whose verdict and content were compared with the reference parser",
        suites: vec![
            sweep("type field", 256, type_field),
            sweep("cookie", 64, cookie),
            sweep("value lengths", 32 * 64, value_lengths),
            sweep("long values", 40 * LONG.len() as u64, long_values),
            sweep("first bytes", 32 * 8, first_bytes),
            sweep("error codes", 8, error_codes),
            sweep("text limits", 40, text_limits),
            sweep("types", 256, types),
            sweep("section shapes", 600, shapes),
            sweep("crowds", 3 * gen::CROWDS.len() as u64, crowds),
            random("sound", 40_000, 1_500_000, sound),
            random("messy", 120_000, 6_000_000, messy),
            random("bits", 6_000, 200_000, bits),
            random("values", 100_000, 3_000_000, values),
        ],
        assumptions: &[
            "the reference parser (harness/src/model.rs) states which values are well formed",
            "verdicts that hang on reserved bits in front of a FINGERPRINT are the known finding of C12 and not judged here",
        ],
    }
}

/// Many attributes; the last one malformed now and then.
fn crowds(c: &mut Case) -> Chk {
    let set = any_set(&mut c.r);
    let mut b = gen::crowd(&mut c.r, set, gen::CROWDS[c.idx as usize / 3]).bytes();
    if c.idx % 3 == 2 {
        b.extend_from_slice(&[0x7e, 0x57, 0, 1, 0, 0]);
        set_len(&mut b);
    }
    judge(c, set, &b)
}
fn judge(c: &mut Case, set: &dyn DynSet, b: &[u8]) -> Chk {
    let Some(want) = expected(set, b) else {
        c.count("skipped: reserved bits before a fingerprint", 1);
        return Ok(());
    };
    let f = decode_all(set, b);
    let got = f.out.essence();
    let got = match (&want, got) {
        // a header that is short and wrong may be refused at once
        (Essence::Incomplete, Essence::Reject) if b.len() < 20 => Essence::Incomplete,
        (Essence::Reject, Essence::FinishErr) => Essence::FinishErr,
        (_, g) => g,
    };
    c.count(
        match want {
            Essence::Valid(_) => "expected valid",
            Essence::Broken(..) => "expected broken",
            Essence::Reject => "expected rejection",
            _ => "expected incomplete",
        },
        1,
    );
    if got != want {
        let why = parsed_msg(&model(set, b)).and_then(|m| m.bad.clone()).unwrap_or_default();
        let what = match (&want, &got) {
            (Essence::Valid(_), Essence::Valid(_)) => "a valid message is delivered with other content than the wire's",
            (Essence::Valid(_), _) => "a well-formed message is not delivered",
            (Essence::Broken(..), Essence::Broken(..)) => "a broken message does not carry the header it had",
            (Essence::Broken(..), _) => "a malformed message is not delivered as broken",
            (Essence::Reject, _) => "a wrong header is not rejected",
            _ => "incomplete input is not treated as such",
        };
        return Err(Fail::new(what)
            .with(format!("observed: {}\nexpected: {:?} {}", clip(&f.out.show()), want, why))
            .with(show_bytes(set, b)));
    }
    c.eval(Some(hash_bytes(b) ^ hash_bytes(set.name().as_bytes())));
    Ok(())
}

/// A message of one attribute.
fn solo(class: u8, tid: &[u8; 12], ty: u16, v: &[u8]) -> Vec<u8> {
    let mut b = header(class, 1, tid, 0);
    push_tlv(&mut b, ty, v, &[]);
    set_len(&mut b);
    b
}
fn single(ty: u16) -> &'static dyn DynSet {
    *sets().every.iter().find(|s| s.name() == format!("only-{}", type_name(ty))).expect("single set")
}

/// All 65536 values of the first two bytes.
fn type_field(c: &mut Case) -> Chk {
    let tid = c.r.tid();
    for lo in 0..256u16 {
        let t = (c.idx as u16) << 8 | lo;
        let set = any_set(&mut c.r);
        let mut b = header(0, 0, &tid, 0);
        b[..2].copy_from_slice(&t.to_be_bytes());
        judge(c, set, &b)?;
        push_tlv(&mut b, 0x24, &[1, 2, 3, 4], &[]);
        set_len(&mut b);
        judge(c, all_set(), &b)?;
        // broken ones carry the header too
        push_tlv(&mut b, 0x24, &[1, 2, 3], &[]);
        set_len(&mut b);
        judge(c, all_set(), &b)?;
    }
    Ok(())
}

fn cookie(c: &mut Case) -> Chk {
    let set = any_set(&mut c.r);
    let mut b = gen::image(&mut c.r, set, gen::VALID).bytes();
    let good = b.clone();
    // every single-bit change of the first eight bytes
    b[c.idx as usize / 8] ^= 1 << (c.idx % 8);
    let n = usize::from(u16::from_be_bytes([b[2], b[3]]));
    if b.len() < 20 + n {
        b.resize(20 + n, 0);
    }
    b.truncate(20 + n);
    judge(c, set, &b)?;
    for _ in 0..40 {
        let mut b = good.clone();
        let x: [u8; 4] = c.r.bytes(4).try_into().unwrap();
        match c.r.below(3) {
            0 => b[4..8].copy_from_slice(&x),
            1 => b[4 + c.r.below(4)] = x[0],
            _ => b[4..8].copy_from_slice(&[0x42, 0xa4, 0x12, 0x21]),
        }
        judge(c, set, &b)?;
    }
    Ok(())
}

/// Every type with every value length 0..64, zero, all ones, random and plausible content.
fn value_lengths(c: &mut Case) -> Chk {
    let ty = TYPES[(c.idx / 64) as usize].0;
    let n = (c.idx % 64) as usize;
    let tid = c.r.tid();
    for k in 0..6 {
        let v = match k {
            0 => vec![0; n],
            1 => vec![0xff; n],
            2 => vec![b'a'; n],
            3 => {
                let v = gen::val(&mut c.r, ty, &tid);
                let mut v = enc_value(ty, &v, Some(&tid));
                v.resize(n, 0);
                v
            }
            _ => c.r.bytes(n),
        };
        let class = c.r.below(4) as u8;
        let b = solo(class, &tid, ty, &v);
        judge(c, all_set(), &b)?;
        judge(c, single(ty), &b)?;
        value(c, ty, &v)?;
        // followed by another attribute
        let mut b = b;
        push_tlv(&mut b, 0x8029, &[9; 8], &[]);
        set_len(&mut b);
        judge(c, all_set(), &b)?;
    }
    Ok(())
}

const LONG: [usize; 64] = [
    65, 100, 126, 127, 128, 129, 130, 254, 255, 256, 257, 258, 300, 508, 509, 510, 511, 512, 513, 514, 761, 762, 763, 764, 765, 767,
    768, 769, 1000, 1023, 1024, 1025, 1280, 1452, 1472, 1500, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 16383, 16384,
    16385, 32764, 32766, 32767, 32768, 32769, 32772, 49151, 49152, 65000, 65532, 65533, 65534, 65535, 65528, 65527, 65525,
];
/// Long values of every type, and of unknown ones.
fn long_values(c: &mut Case) -> Chk {
    let n = LONG[(c.idx / 40) as usize];
    let (ty, known) = match (c.idx % 40) as usize {
        k if k < TYPES.len() => (TYPES[k].0, true),
        k => ([0x7e57u16, 0x8055, 0x0000, 0xffff, 0x7fff, 0x8000, 0x0002, 0xc001][k - TYPES.len()], false),
    };
    let tid = c.r.tid();
    let v = match c.r.below(3) {
        0 => vec![b'a'; n],
        1 => gen::text_chars(&mut c.r, n).into_bytes().into_iter().take(n).collect(),
        _ => c.r.bytes(n),
    };
    if known {
        value(c, ty, &v)?;
    }
    if n > 65528 {
        return Ok(());
    }
    let class = c.r.below(4) as u8;
    let b = solo(class, &tid, ty, &v);
    judge(c, all_set(), &b)?;
    let other = any_set(&mut c.r);
    judge(c, other, &b)?;
    if b.len() < 65000 {
        // between others
        let mut b = header(class, 1, &tid, 0);
        push_tlv(&mut b, 0x0025, &[], &[]);
        push_tlv(&mut b, ty, &v, &[]);
        push_tlv(&mut b, 0x8029, &[9; 8], &[]);
        set_len(&mut b);
        judge(c, all_set(), &b)?;
    }
    Ok(())
}

/// Every value of each of the first bytes of an otherwise sound value.
fn first_bytes(c: &mut Case) -> Chk {
    let ty = TYPES[(c.idx / 8) as usize].0;
    let at = (c.idx % 8) as usize;
    let tid = c.r.tid();
    for _ in 0..2 {
        let v = gen::val(&mut c.r, ty, &tid);
        let v = enc_value(ty, &v, Some(&tid));
        if at >= v.len() {
            continue;
        }
        for x in 0..=255u8 {
            let mut v = v.clone();
            v[at] = x;
            judge(c, all_set(), &solo(2, &tid, ty, &v))?;
            value(c, ty, &v)?;
        }
    }
    Ok(())
}

/// Error class x number: all 2048, with the reserved bits set and clear.
fn error_codes(c: &mut Case) -> Chk {
    let class = c.idx as u8;
    let tid = c.r.tid();
    for number in 0..=255u8 {
        for res in [0u8, 0xf8, 0x08, 0x10] {
            let v = [if res == 0 { 0 } else { c.r.u8() }, 0, class | res, number, b'x'];
            judge(c, all_set(), &solo(3, &tid, 9, &v))?;
            value(c, 9, &v)?;
        }
    }
    Ok(())
}

fn text_limits(c: &mut Case) -> Chk {
    let tid = c.r.tid();
    for n in (108 + c.idx as usize)..=(109 + c.idx as usize) {
        for _ in 0..6 {
            let s = gen::text_chars(&mut c.r, n);
            for ty in [0x14, 0x15, 0x8022, 6, 9] {
                let mut v = if ty == 9 { vec![0, 0, 4, 1] } else { vec![] };
                v.extend_from_slice(s.as_bytes());
                judge(c, all_set(), &solo(3, &tid, ty, &v))?;
                judge(c, single(ty), &solo(3, &tid, ty, &v))?;
                value(c, ty, &v)?;
            }
        }
    }
    let n = 493 + c.idx as usize;
    for _ in 0..4 {
        let s = gen::text_bytes(&mut c.r, n);
        for ty in [6, 0x14, 0x15, 0x8022] {
            judge(c, all_set(), &solo(0, &tid, ty, s.as_bytes()))?;
            value(c, ty, s.as_bytes())?;
        }
    }
    // malformed UTF-8 at every place
    let bads: [&[u8]; 9] =
        [b"\xff", b"\x80", b"\xc3", b"\xe3\x83", b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"\xc0\x80", b"\xf0\x80\x80\x80", b"\xe0\x80\xaf"];
    for bad in bads {
        let n = c.r.below(20);
        let mut s = gen::text_chars(&mut c.r, n).into_bytes();
        let mut at = c.r.below(s.len() + 1);
        while std::str::from_utf8(&s[..at]).is_err() {
            at -= 1;
        }
        s.splice(at..at, bad.iter().copied());
        for ty in [6, 0x14, 0x15, 0x8022, 9] {
            let mut v = if ty == 9 { vec![0, 0, 4, 1] } else { vec![] };
            v.extend_from_slice(&s);
            judge(c, all_set(), &solo(0, &tid, ty, &v))?;
            value(c, ty, &v)?;
        }
    }
    Ok(())
}

/// All 65536 attribute types.
fn types(c: &mut Case) -> Chk {
    let tid = c.r.tid();
    for lo in 0..256u16 {
        let ty = (c.idx as u16) << 8 | lo;
        let n = *c.r.pick(&[0usize, 1, 4, 8, 20]);
        let v = c.r.bytes(n);
        let b = solo(0, &tid, ty, &v);
        judge(c, all_set(), &b)?;
        let s = any_set(&mut c.r);
        judge(c, s, &b)?;
    }
    Ok(())
}

/// Sections that do not split into TLVs: every remainder after the last whole attribute.
fn shapes(c: &mut Case) -> Chk {
    let set = any_set(&mut c.r);
    let tid = c.r.tid();
    let mut b = header(1, 3, &tid, 0);
    for _ in 0..c.idx % 4 {
        let ty = gen::wire_type(&mut c.r, set);
        let v = gen::val(&mut c.r, ty, &tid);
        if ty == T_FP && !set.knows().raw {
            continue;
        }
        let v = if set.knows().raw { c.r.bytes(5) } else { enc_value(ty, &v, Some(&tid)) };
        push_tlv(&mut b, ty, &v, &[]);
    }
    let base = b.clone();
    // a last attribute announcing `announce` bytes with `have` of them there
    for announce in 0..14usize {
        for have in 0..18usize {
            let mut b = base.clone();
            let ty = gen::any_type(&mut c.r);
            b.extend_from_slice(&ty.to_be_bytes());
            b.extend_from_slice(&(announce as u16).to_be_bytes());
            b.extend(std::iter::repeat_n(0x41, have));
            set_len(&mut b);
            judge(c, set, &b)?;
        }
    }
    for n in 0..4 {
        let mut b = base.clone();
        b.extend_from_slice(&[0, 6, 0][..n.min(3)]);
        set_len(&mut b);
        judge(c, set, &b)?;
    }
    Ok(())
}

fn sound(c: &mut Case) -> Chk {
    let set = any_set(&mut c.r);
    let o = if c.r.bool() { gen::VALID } else { gen::VALID_RES };
    let b = gen::image(&mut c.r, set, o).bytes();
    c.sample(|| show_bytes(set, &b));
    judge(c, set, &b)
}
fn messy(c: &mut Case) -> Chk {
    let set = any_set(&mut c.r);
    let b = any_input(&mut c.r, set);
    c.sample(|| show_bytes(set, &b));
    judge(c, set, &b)
}
/// Every single-bit change of a sound message.
fn bits(c: &mut Case) -> Chk {
    let set = any_set(&mut c.r);
    let mut im = gen::image(&mut c.r, set, gen::VALID);
    im.items.truncate(3);
    let b = im.bytes();
    for bit in 0..b.len().min(120) * 8 {
        let mut x = b.clone();
        x[bit / 8] ^= 1 << (bit % 8);
        judge(c, set, &x)?;
    }
    Ok(())
}

/// The standalone decoders follow the same rules (without XOR masking).
fn value(c: &mut Case, ty: u16, b: &[u8]) -> Chk {
    let mut d = one_of(ty).decoder();
    let got = match d.decode(b, Eos::new(true)) {
        Err(_) => None,
        Ok(n) if n == b.len() && d.idle() => d.finish().ok(),
        // bytes left over: not a whole value
        Ok(_) => None,
    };
    let want = dec_value(ty, b, None).ok();
    c.eval(Some(hash_bytes(b) ^ mix(u64::from(ty))));
    if got != want {
        return Err(Fail::new(format!("the {} decoder does not follow the format", type_name(ty)))
            .with(format!("observed {:?}\nexpected {:?}\nbytes {}", got, want, hex(b))));
    }
    Ok(())
}
fn values(c: &mut Case) -> Chk {
    let ty = TYPES[(c.idx % 32) as usize].0;
    let b = gen::bad_value(&mut c.r, ty, &[0; 12]);
    value(c, ty, &b)?;
    let b = solo(1, &[3; 12], ty, &b);
    judge(c, all_set(), &b)
}
