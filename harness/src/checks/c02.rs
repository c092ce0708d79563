//! C02: decode(encode(m)) == m.
use super::util::*;

pub fn check() -> Check {
    Check {
        id: "C02",
        rule: "distinct messages or values that made the round trip",
        suites: vec![
            sweep("types", 64, types),
            sweep("scalars", 256, scalars),
            sweep("lengths", 700, lengths),
            sweep("large values", 72, large),
            random("values", 80_000, 2_000_000, values),
            random("messages", 60_000, 2_000_000, messages),
            random("cross", 40_000, 1_000_000, cross),
            random("auth", 20_000, 400_000, auth),
            sweep("big", 24, big),
            sweep("crowds", 3 * gen::CROWDS.len() as u64, crowds),
        ],
        assumptions: &["values are compared through the accessors of the attribute types"],
    }
}

fn trip(c: &mut Case, set: &dyn DynSet, p: &Plan) -> Chk {
    let m = build(p, set)?;
    trip_msg(c, set, &*m, p.snap()).detail(|| show_plan(set, p))
}
fn trip_msg(c: &mut Case, set: &dyn DynSet, m: &dyn DynMsg, want: Snap) -> Chk {
    ensure_eq!(m.snap(), want, "the built message does not show what was put in");
    let bytes = encode_ok(set, m)?;
    let got = decode_valid(set, &bytes).map_err(|o| Fail::new("the encoded message does not decode as valid").with(o).with(hex(&bytes)))?;
    ensure_eq!(got.snap(), want, "decoding the encoded message gives another message");
    c.eval(Some(hash_bytes(&bytes)));
    Ok(())
}
fn alone(c: &mut Case, ty: u16, v: &Val) -> Chk {
    let o = one_of(ty);
    let mut e = o.encoder();
    match e.start(v) {
        None => return Err(refused(ty, v)),
        Some(Err(k)) => fail!("the {} encoder refuses a sound value: {:?}", type_name(ty), k),
        Some(Ok(())) => {}
    }
    let d = drain(&mut *e, None, &Cut::All, Mode::AtEnd);
    value_back(c, &mut *o.decoder(), &d.bytes, v).detail(|| format!("standalone {}, value {:?}, encoded {}", type_name(ty), v, hex(&d.bytes)))?;
    Ok(())
}
fn one_value(c: &mut Case, ty: u16, v: &Val) -> Chk {
    alone(c, ty, v)?;
    let tid = c.r.tid();
    let p = Plan { class: c.r.below(4) as u8, method: gen::method(&mut c.r), tid, attrs: vec![(ty, v.clone())] };
    if ty != T_FP {
        trip(c, all_set(), &p)?;
        let single = *sets().every.iter().find(|s| s.name() == format!("only-{}", type_name(ty))).expect("single set");
        trip(c, single, &p)?;
    }
    Ok(())
}
fn value_back(c: &mut Case, d: &mut dyn ValDecoder, b: &[u8], v: &Val) -> Chk {
    match d.decode(b, Eos::new(true)) {
        Err(k) => fail!("decoding the encoded value fails: {:?}", k),
        Ok(n) => ensure_eq!(n, b.len(), "the value decoder does not take the whole value"),
    }
    ensure!(d.idle(), "the value decoder is not idle at the end of the value");
    match d.finish() {
        Err(k) => fail!("finishing the encoded value fails: {:?}", k),
        Ok(got) => ensure_eq!(got, *v, "another value comes back"),
    }
    c.eval(Some(hash_bytes(b)));
    Ok(())
}

fn types(c: &mut Case) -> Chk {
    let tid = c.r.tid();
    for m in c.idx * 64..(c.idx + 1) * 64 {
        for class in 0..4 {
            let set = any_set(&mut c.r);
            trip(c, set, &Plan { class, method: m as u16, tid, attrs: vec![] })?;
            trip(c, all_set(), &Plan { class, method: m as u16, tid, attrs: vec![(0x24, Val::U32(m as u32))] })?;
        }
    }
    Ok(())
}

fn scalars(c: &mut Case) -> Chk {
    let hi = c.idx as u16;
    let ips: Vec<_> = (0..2).map(|_| gen::ip(&mut c.r, &[7; 12])).collect();
    for lo in 0..256u16 {
        let port = hi << 8 | lo;
        let ip = ips[usize::from(lo & 1)];
        for ty in [*c.r.pick(&[0x0001, 0x8020, 0x8023, 0x0012, 0x0016, 0x802b, 0x802c]), 0x20] {
            one_value(c, ty, &Val::Addr(ip, port))?;
        }
        one_value(c, 0x27, &Val::U16(port))?;
        if (0x4000..=0x4fff).contains(&port) {
            one_value(c, 0x0C, &Val::U16(port))?;
        }
        if (300..600).contains(&port) {
            let s = gen::text_chars(&mut c.r, (port % 7) as usize);
            one_value(c, 9, &Val::Err(port, s))?;
        }
    }
    one_value(c, 0x19, &Val::U8(hi as u8))?;
    for i in 0..2 {
        for ty in [0x17, 0x8000] {
            one_value(c, ty, &Val::Family(1 + i))?;
        }
        one_value(c, 0x18, &Val::Bool(i == 0))?;
        for j in 0..2 {
            one_value(c, 3, &Val::Change(i == 0, j == 0))?;
        }
    }
    for bit in 0..64 {
        for ty in [0x22, 0x8029, 0x802A] {
            one_value(c, ty, &Val::U64(1u64.rotate_left(bit) | u64::from(hi)))?;
        }
        for ty in [0x0D, 0x24, T_FP] {
            one_value(c, ty, &Val::U32(1u32.rotate_left(bit) | u32::from(hi)))?;
        }
    }
    for ty in [0x1A, 0x25] {
        one_value(c, ty, &Val::Unit)?;
    }
    Ok(())
}

fn lengths(c: &mut Case) -> Chk {
    let n = c.idx as usize;
    let b = c.r.bytes(n);
    for ty in [0x13, 0x8030] {
        one_value(c, ty, &Val::Bytes(b.clone()))?;
    }
    if n <= 512 {
        let s = gen::text_bytes(&mut c.r, n);
        one_value(c, 6, &Val::Text(s))?;
    }
    if n <= 127 {
        for ty in [0x14, 0x15, 0x8022] {
            let s = gen::text_chars(&mut c.r, n);
            one_value(c, ty, &Val::Text(s))?;
        }
    }
    let s = gen::text_bytes(&mut c.r, n);
    one_value(c, 9, &Val::Err(300 + (n as u16) % 300, s))?;
    let t = (0..n).map(|_| gen::any_type(&mut c.r)).collect();
    one_value(c, 0x0A, &Val::Types(t))?;
    let ty = gen::any_type(&mut c.r);
    let tid = c.r.tid();
    trip(c, raw_set(), &Plan { class: 1, method: 2, tid, attrs: vec![(ty, Val::Bytes(b)), (0xffff, Val::Bytes(vec![]))] })
}

/// Lengths around the limits of values, on their own.
fn large(c: &mut Case) -> Chk {
    let n = match c.idx {
        0..=39 => 65_535 - c.idx as usize,
        40..=55 => (1 << (c.idx - 40)) - 1,
        _ => 1 << (c.idx - 56),
    };
    let n = n.min(65_535);
    let b = c.r.bytes(n);
    for ty in [0x13, 0x8030] {
        alone(c, ty, &Val::Bytes(b.clone()))?;
    }
    let s = gen::text_bytes(&mut c.r, n.min(65_531));
    alone(c, 9, &Val::Err(300 + (n as u16) % 300, s))?;
    let t = (0..n / 2).map(|_| gen::any_type(&mut c.r)).collect();
    alone(c, 0x0A, &Val::Types(t))
}

fn values(c: &mut Case) -> Chk {
    let vc = val_codec(c.idx);
    let ty = vc.ty;
    let tid = c.r.tid();
    let v = gen::val(&mut c.r, ty, &tid);
    c.sample(|| format!("{} {:?}", vc.name, v));
    one_value(c, ty, &v)?;
    // this very codec, which may be that of addresses or of a whole attribute set
    let mut e = (vc.encoder)();
    match e.start(&v) {
        Some(Ok(())) => {}
        o => fail!("the {} encoder refuses {:?}: {:?}", vc.name, v, o),
    }
    let d = drain(&mut *e, None, &Cut::All, Mode::AtEnd);
    if let Some(k) = d.err {
        fail!("the {} encoder fails: {:?}", vc.name, k);
    }
    value_back(c, &mut *(vc.decoder)(), &d.bytes, &v).detail(|| format!("{} codec, {:?}", vc.name, v))?;
    c.eval(None);
    Ok(())
}

fn messages(c: &mut Case) -> Chk {
    let set = any_set(&mut c.r);
    let p = gen::plan(&mut c.r, set, false);
    c.count("attributes", p.attrs.len() as u64);
    c.sample(|| show_plan(set, &p));
    trip(c, set, &p)
}

/// Encode with one set, decode with another.
fn cross(c: &mut Case) -> Chk {
    let set = any_set(&mut c.r);
    let p = gen::plan(&mut c.r, set, false);
    let m = build(&p, set)?;
    let bytes = encode_ok(set, &*m)?;
    for _ in 0..3 {
        let other = any_set(&mut c.r);
        let k = other.knows();
        let mut want = Snap { class: p.class, method: p.method, tid: p.tid, known: vec![], unknown: vec![] };
        let mut sound = true;
        for (ty, v) in &p.attrs {
            let wire = enc_value(*ty, v, Some(&p.tid));
            if k.raw {
                want.known.push((*ty, Val::Bytes(wire)));
            } else if (k.f)(*ty) {
                // a raw attribute need not be sound for the set that knows its type
                match dec_value(*ty, &wire, Some(&p.tid)) {
                    Ok(v) if *ty != T_FP => want.known.push((*ty, v)),
                    _ => sound = false,
                }
            } else {
                want.unknown.push((*ty, wire));
            }
        }
        if !sound {
            c.count("skipped, not sound in the other set", 1);
            continue;
        }
        let got = decode_valid(other, &bytes)
            .map_err(|o| Fail::new("a message does not decode with another set").with(o))
            .detail(|| format!("decoded with {}; {}", other.name(), show_plan(set, &p)))?;
        if got.snap() != want {
            return Err(Fail::new("decoding with another set gives another message").with(format!(
                "decoded with {}; observed {:?}\nexpected {:?}\n{}",
                other.name(),
                got.snap(),
                want,
                show_plan(set, &p)
            )));
        }
        c.eval(Some(hash_bytes(&bytes) ^ hash_bytes(other.name().as_bytes())));
    }
    Ok(())
}

fn auth(c: &mut Case) -> Chk {
    let set = *c.r.pick(&auth_sets());
    let p = auth_plan(&mut c.r, set);
    let m = p.build(set)?;
    let want = m.snap();
    ensure_eq!(want.known.len(), p.items.len(), "attributes of the built message");
    trip_msg(c, set, &*m, want).detail(|| clip(&format!("{} {:?}", set.name(), p)))
}

/// Many attributes.
fn crowds(c: &mut Case) -> Chk {
    let set = any_set(&mut c.r);
    let im = gen::crowd(&mut c.r, set, gen::CROWDS[c.idx as usize / 3]);
    let b = im.bytes();
    let snap = match model(set, &b) {
        Parsed::Msg(p) => p.snap(),
        _ => return Ok(()),
    };
    // known attributes only: unknown ones cannot be added
    trip(c, set, &Plan { class: im.class, method: im.method, tid: im.tid, attrs: snap.known })
}
fn big(c: &mut Case) -> Chk {
    let total = 65532 - 4 * (c.idx as usize % 12);
    let tid = c.r.tid();
    let (set, ty): (&dyn DynSet, u16) = if c.idx < 12 { (all_set(), 0x13) } else { (raw_set(), 0x7777) };
    let attrs = match c.r.below(3) {
        0 => vec![(ty, Val::Bytes(c.r.bytes(total - 4)))],
        1 => vec![(ty, Val::Bytes(c.r.bytes(total / 8 * 4))), (ty, Val::Bytes(c.r.bytes(total - 8 - total / 8 * 4)))],
        _ => (0..total / 4).map(|_| (ty, Val::Bytes(vec![]))).collect(),
    };
    trip(c, set, &Plan { class: 2, method: 0xabc, tid, attrs })
}
