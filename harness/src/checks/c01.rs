//! C01: encoded messages are the exact wire format.
use super::util::*;

pub fn check() -> Check {
    Check {
        id: "C01",
        rule: "distinct encoded messages or values whose bytes were compared with the reference encoder",
        suites: vec![
            sweep("types", 64, types),
            sweep("scalars", 256, scalars),
            sweep("lengths", 700, lengths),
            sweep("large values", 72, large),
            random("values", 60_000, 2_000_000, values),
            random("messages", 60_000, 2_000_000, messages),
            random("auth", 20_000, 500_000, auth),
            sweep("big", 48, big),
        ],
        assumptions: &["the reference encoder (harness/src/model.rs) states the RFC layouts"],
    }
}

fn compare(c: &mut Case, set: &dyn DynSet, p: &Plan) -> Chk {
    let m = build(p, set)?;
    let want = p.wire();
    let got = encode_ok(set, &*m).detail(|| show_plan(set, p))?;
    ensure_bytes(&got, &want).detail(|| show_plan(set, p))?;
    c.eval(Some(hash_bytes(&got)));
    Ok(())
}
fn ensure_bytes(got: &[u8], want: &[u8]) -> Chk {
    if got != want {
        let at = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
        return Err(Fail::new(format!("the encoding differs from the wire format at byte {}", at)).with(format!("encoded:  {}\nexpected: {}", hex(got), hex(want))));
    }
    Ok(())
}
/// One value: standalone, alone in a message, and in a message of the full set between others.
fn alone(c: &mut Case, ty: u16, v: &Val) -> Chk {
    let o = one_of(ty);
    let mut e = o.encoder();
    match e.start(v) {
        None => return Err(refused(ty, v)),
        Some(Err(k)) => fail!("the {} encoder refuses a sound value: {:?}", type_name(ty), k),
        Some(Ok(())) => {}
    }
    let want = enc_value(ty, v, None);
    let d = drain(&mut *e, None, &Cut::All, Mode::AtEnd);
    if let Some(k) = d.err {
        fail!("the {} encoder fails: {:?}", type_name(ty), k);
    }
    ensure_bytes(&d.bytes, &want).detail(|| format!("standalone {} of {:?}", type_name(ty), v))?;
    c.eval(Some(hash_bytes(&d.bytes) ^ mix(u64::from(ty))));
    Ok(())
}
fn one_value(c: &mut Case, ty: u16, v: &Val) -> Chk {
    alone(c, ty, v)?;
    let tid = c.r.tid();
    let set = if c.r.chance(1, 4) {
        *sets().every.iter().find(|s| s.name() == format!("only-{}", type_name(ty))).expect("single set")
    } else {
        all_set()
    };
    let p = Plan { class: c.r.below(4) as u8, method: gen::method(&mut c.r), tid, attrs: vec![(ty, v.clone())] };
    compare(c, set, &p)
}

fn types(c: &mut Case) -> Chk {
    // all 4 * 4096 combinations of class and method, in every enum set and raw
    let tid = c.r.tid();
    for m in c.idx * 64..(c.idx + 1) * 64 {
        for class in 0..4 {
            let set = any_set(&mut c.r);
            compare(c, set, &Plan { class, method: m as u16, tid, attrs: vec![] })?;
            compare(c, all_set(), &Plan { class, method: m as u16, tid, attrs: vec![(0x1A, Val::Unit)] })?;
        }
    }
    c.count("class/method combinations", 256);
    Ok(())
}

fn scalars(c: &mut Case) -> Chk {
    let hi = c.idx as u16;
    let ips: Vec<_> = (0..2).map(|_| gen::ip(&mut c.r, &[7; 12])).collect();
    for lo in 0..256u16 {
        let port = hi << 8 | lo;
        let ip = ips[usize::from(lo & 1)];
        let ty = *c.r.pick(&[0x0001, 0x0020, 0x8020, 0x8023, 0x0012, 0x0016, 0x802b, 0x802c]);
        one_value(c, ty, &Val::Addr(ip, port))?;
        if ty != 0x20 {
            one_value(c, 0x20, &Val::Addr(ip, port))?;
        }
        one_value(c, 0x27, &Val::U16(port))?;
        if (0x4000..=0x4fff).contains(&port) {
            one_value(c, 0x0C, &Val::U16(port))?;
        }
        if (300..600).contains(&port) {
            let s = gen::text_chars(&mut c.r, (port % 7) as usize);
            one_value(c, 9, &Val::Err(port, s))?;
        }
    }
    one_value(c, 0x19, &Val::U8(hi as u8))?;
    for i in 0..2 {
        for ty in [0x17, 0x8000] {
            one_value(c, ty, &Val::Family(1 + i))?;
        }
        one_value(c, 0x18, &Val::Bool(i == 0))?;
        for j in 0..2 {
            one_value(c, 3, &Val::Change(i == 0, j == 0))?;
        }
    }
    for bit in 0..64 {
        for ty in [0x22, 0x8029, 0x802A] {
            one_value(c, ty, &Val::U64(1u64.rotate_left(bit) | u64::from(hi)))?;
        }
        for ty in [0x0D, 0x24, T_FP] {
            one_value(c, ty, &Val::U32(1u32.rotate_left(bit) | u32::from(hi)))?;
        }
    }
    for ty in [0x1A, 0x25] {
        one_value(c, ty, &Val::Unit)?;
    }
    Ok(())
}

fn lengths(c: &mut Case) -> Chk {
    let n = c.idx as usize;
    let b = c.r.bytes(n);
    for ty in [0x13, 0x8030] {
        one_value(c, ty, &Val::Bytes(b.clone()))?;
    }
    if n <= 512 {
        let s = gen::text_bytes(&mut c.r, n);
        one_value(c, 6, &Val::Text(s))?;
    }
    if n <= 127 {
        for ty in [0x14, 0x15, 0x8022] {
            let s = gen::text_chars(&mut c.r, n);
            one_value(c, ty, &Val::Text(s))?;
        }
    }
    let s = gen::text_bytes(&mut c.r, n);
    one_value(c, 9, &Val::Err(300 + (n as u16) % 300, s))?;
    let t = (0..n).map(|_| gen::any_type(&mut c.r)).collect();
    one_value(c, 0x0A, &Val::Types(t))?;
    let ty = gen::any_type(&mut c.r);
    let tid = c.r.tid();
    compare(c, raw_set(), &Plan { class: 1, method: 2, tid, attrs: vec![(ty, Val::Bytes(b)), (0xffff, Val::Bytes(vec![]))] })
}

/// Lengths around the limits of values, on their own.
fn large(c: &mut Case) -> Chk {
    let n = match c.idx {
        0..=39 => 65_535 - c.idx as usize,
        40..=55 => (1 << (c.idx - 40)) - 1,
        _ => 1 << (c.idx - 56),
    };
    let n = n.min(65_535);
    let b = c.r.bytes(n);
    for ty in [0x13, 0x8030] {
        alone(c, ty, &Val::Bytes(b.clone()))?;
    }
    let s = gen::text_bytes(&mut c.r, n.min(65_531));
    alone(c, 9, &Val::Err(300 + (n as u16) % 300, s))?;
    let t = (0..n / 2).map(|_| gen::any_type(&mut c.r)).collect();
    alone(c, 0x0A, &Val::Types(t))
}

fn values(c: &mut Case) -> Chk {
    let vc = val_codec(c.idx);
    let ty = vc.ty;
    let tid = c.r.tid();
    let v = gen::val(&mut c.r, ty, &tid);
    c.sample(|| format!("{} {:?}", vc.name, v));
    one_value(c, ty, &v)?;
    // this very codec, which may be that of addresses or of a whole attribute set
    let mut e = (vc.encoder)();
    match e.start(&v) {
        Some(Ok(())) => {}
        o => fail!("the {} encoder refuses {:?}: {:?}", vc.name, v, o),
    }
    let d = drain(&mut *e, None, &Cut::All, Mode::AtEnd);
    if let Some(k) = d.err {
        fail!("the {} encoder fails: {:?}", vc.name, k);
    }
    ensure_bytes(&d.bytes, &enc_value(ty, &v, None)).detail(|| format!("{} codec, {:?}", vc.name, v))?;
    c.eval(None);
    Ok(())
}

fn messages(c: &mut Case) -> Chk {
    let set = any_set(&mut c.r);
    let p = gen::plan(&mut c.r, set, true);
    c.count("attributes encoded", p.attrs.len() as u64);
    c.sample(|| show_plan(set, &p));
    compare(c, set, &p)
}

fn auth(c: &mut Case) -> Chk {
    let set = *c.r.pick(&auth_sets());
    let p = auth_plan(&mut c.r, set);
    let m = p.build(set)?;
    let got = encode_ok(set, &*m)?;
    ensure_bytes(&got, &p.image().bytes()).detail(|| clip(&format!("{} {:?}", set.name(), p)))?;
    c.eval(Some(hash_bytes(&got)));
    Ok(())
}

/// Totals around the 16-bit limit.
fn big(c: &mut Case) -> Chk {
    let total = 65532 - 4 * (c.idx as usize % 12);
    let tid = c.r.tid();
    let (set, ty): (&dyn DynSet, u16) = match c.idx / 12 {
        0 => (all_set(), 0x13),
        1 => (raw_set(), 0x7777),
        2 => (all_set(), 0x8030),
        _ => (sets().every[2], 0x13),
    };
    let attrs = match c.r.below(3) {
        0 => vec![(ty, Val::Bytes(c.r.bytes(total - 4)))],
        1 => {
            let a = c.r.below(total / 8) * 4;
            vec![(ty, Val::Bytes(c.r.bytes(a))), (ty, Val::Bytes(c.r.bytes(total - 8 - a)))]
        }
        _ => (0..total / 4).map(|_| (ty, Val::Bytes(vec![]))).collect(),
    };
    compare(c, set, &Plan { class: 2, method: 0xabc, tid, attrs })
}
