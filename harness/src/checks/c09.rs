//! C09: forwarding a decoded message reproduces it.
use super::util::*;

pub fn check() -> Check {
    Check {
        id: "C09",
        rule: "distinct received messages whose re-encoding was compared with the received bytes",
        suites: vec![
            sweep("padding", 32 * 48, padding),
            random("forward", 120_000, 4_000_000, forward),
            random("append", 100_000, 3_000_000, append),
            sweep("type field", 64, types),
            random("huge", 150, 3_000, huge),
            sweep("crowds", 3 * gen::CROWDS.len() as u64, crowds),
        ],
        assumptions: &["reserved bits inside values of known attributes are the only bits that may be cleared"],
    }
}

fn same(got: &[u8], want: &[u8]) -> Chk {
    if got != want {
        let at = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
        return Err(Fail::new(format!("forwarding changes byte {}", at)).with(format!("forwarded {}\nexpected  {}", hex(got), hex(want))));
    }
    Ok(())
}
fn receive(c: &mut Case, set: &dyn DynSet, b: &[u8]) -> Option<(Box<dyn DynMsg>, PMsg)> {
    let m = match decode_all(set, b).out {
        Out::Valid(m) => m,
        _ => {
            c.count("skipped: not valid", 1);
            return None;
        }
    };
    match model(set, b) {
        Parsed::Msg(p) => Some((m, *p)),
        _ => None,
    }
}

fn roundtrip(c: &mut Case, set: &dyn DynSet, b: &[u8]) -> Chk {
    let Some((m, p)) = receive(c, set, b) else { return Ok(()) };
    let r = (|| {
        let copy = m.clone_box();
        same(&encode_ok(set, &*m)?, &p.normal)?;
        same(&encode_ok(set, &*copy)?, &p.normal).detail(|| "a clone".into())?;
        if !p.reserved {
            same(&p.normal, b)?;
            c.count("byte-identical", 1);
        } else {
            c.count("reserved bits cleared", 1);
        }
        // dropping the original leaves the clone alone
        drop(m);
        same(&encode_ok(set, &*copy)?, &p.normal).detail(|| "a clone whose original is gone".into())
    })();
    r.detail(|| show_bytes(set, b))?;
    c.eval(Some(hash_bytes(b) ^ hash_bytes(set.name().as_bytes())));
    Ok(())
}

fn forward(c: &mut Case) -> Chk {
    let set = any_set(&mut c.r);
    let o = if c.r.chance(2, 3) { gen::VALID } else { gen::VALID_RES };
    let mut im = gen::image(&mut c.r, set, o);
    // duplicates
    if c.r.chance(1, 3) && !im.items.is_empty() {
        let i = c.r.below(im.items.len());
        let x = im.items[i].clone();
        let at = c.r.below(im.items.len() + 1);
        im.items.insert(at, x);
    }
    let b = im.bytes();
    c.sample(|| show_bytes(set, &b));
    roundtrip(c, set, &b)
}

/// Every padding length with every kind of non-zero padding, for every type that can have one.
fn padding(c: &mut Case) -> Chk {
    let ty = TYPES[(c.idx % 32) as usize].0;
    let tid = c.r.tid();
    let v = gen::val(&mut c.r, ty, &tid);
    let value = enc_value(ty, &v, Some(&tid));
    for set in [all_set(), raw_set(), r5389_set()] {
        for pads in [[0u8; 3], [0xff; 3], [1, 2, 3], [0, 0, 9], [7, 0, 0]] {
            let fp = ty == T_FP && !set.knows().raw;
            let mut items = vec![];
            if !fp {
                items.push(Item::Tlv { ty, value: value.clone(), pad: pads.to_vec() });
            }
            let n = c.r.below(7);
            items.push(Item::Tlv { ty: 0x7abc, value: c.r.bytes(n), pad: pads.to_vec() });
            if !fp {
                items.push(Item::Tlv { ty, value: value.clone(), pad: [0x20; 3].to_vec() });
            }
            let b = Image { class: c.r.below(4) as u8, method: gen::method(&mut c.r), tid, items }.bytes();
            roundtrip(c, set, &b)?;
        }
    }
    Ok(())
}

fn append(c: &mut Case) -> Chk {
    let set = any_set(&mut c.r);
    let o = if c.r.chance(2, 3) { gen::VALID } else { gen::VALID_RES };
    let b = gen::image(&mut c.r, set, o).bytes();
    let Some((mut m, p)) = receive(c, set, &b) else { return Ok(()) };
    let before = m.clone_box();
    let extra = {
        let mut x = auth_plan(&mut c.r, set);
        x.items.truncate(4);
        x
    };
    let mut want = p.normal.clone();
    let mut snap = m.snap();
    let r = (|| {
        for it in &extra.items {
            let n = match it {
                PItem::Val(ty, v) => enc_value(*ty, v, Some(&p.tid)).len(),
                _ => 20,
            };
            if want.len() + n > 65_400 {
                break;
            }
            // values are relative to the transaction of the received message
            add_item(&mut *m, it)?;
            match it {
                PItem::Val(ty, v) => {
                    push_tlv(&mut want, *ty, &enc_value(*ty, v, Some(&p.tid)), &[]);
                    snap.known.push((*ty, v.clone()));
                }
                PItem::Mi(cred) => {
                    let h = ref_mi(&want, &cred.key());
                    push_tlv(&mut want, T_MI, &h, &[]);
                    snap.known.push((T_MI, Val::Hmac(h)));
                }
                PItem::Fp => {
                    let f = ref_fp(&want);
                    push_tlv(&mut want, T_FP, &f.to_be_bytes(), &[]);
                    snap.known.push((T_FP, Val::U32(f)));
                }
            }
            set_len(&mut want);
            ensure_eq!(m.snap(), snap, "adding an attribute changes the message otherwise");
            if c.r.bool() {
                m = m.clone_box();
            }
        }
        same(&encode_ok(set, &*m)?, &want)?;
        same(&encode_ok(set, &*before)?, &p.normal).detail(|| "the copy made before attributes were added".into())
    })();
    r.detail(|| format!("added {:?} to {}", extra.items, show_bytes(set, &b)))?;
    c.count("attributes added", extra.items.len() as u64);
    c.eval(Some(hash_bytes(&want)));
    Ok(())
}

fn types(c: &mut Case) -> Chk {
    let tid = c.r.tid();
    for m in c.idx * 64..(c.idx + 1) * 64 {
        for class in 0..4 {
            let set = any_set(&mut c.r);
            roundtrip(c, set, &header(class, m as u16, &tid, 0))?;
        }
    }
    // all attribute types
    for t in c.idx * 1024..(c.idx + 1) * 1024 {
        let ty = t as u16;
        let set = any_set(&mut c.r);
        if !set.knows().raw && (set.knows().f)(ty) {
            continue;
        }
        let n = c.r.below(9);
        let items = vec![Item::Tlv { ty, value: c.r.bytes(n), pad: c.r.bytes(3) }];
        let b = Image { class: 0, method: 1, tid, items }.bytes();
        roundtrip(c, set, &b)?;
    }
    Ok(())
}

/// Many attributes.
fn crowds(c: &mut Case) -> Chk {
    let set = any_set(&mut c.r);
    let b = gen::crowd(&mut c.r, set, gen::CROWDS[c.idx as usize / 3]).bytes();
    roundtrip(c, set, &b)
}
fn huge(c: &mut Case) -> Chk {
    let set = any_set(&mut c.r);
    let tid = c.r.tid();
    let mut b = header(0, 1, &tid, 0);
    let total = 65532;
    while b.len() < 20 + total {
        let rest = 20 + total - b.len();
        let max = *c.r.pick(&[4usize, 40, 4000, 65000]);
        let vl = c.r.below(max).min(rest - 4);
        let (v, p) = (c.r.bytes(vl), c.r.bytes(3));
        let ty = if set.knows().raw || !(set.knows().f)(0x13) || c.r.bool() { 0x7e57 } else { 0x13 };
        push_tlv(&mut b, ty, &v, &p);
    }
    set_len(&mut b);
    roundtrip(c, set, &b)
}
