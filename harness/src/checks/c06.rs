//! C06: encoding does not depend on buffer sizes and announces exact sizes.
use super::util::*;

pub fn check() -> Check {
    Check {
        id: "C06",
        rule: "distinct (encoded bytes, buffer sizes) pairs compared with encoding at once",
        suites: vec![
            random("two buffers", 2_000, 40_000, two),
            random("messages", 60_000, 2_500_000, messages),
            random("forwarded", 40_000, 1_500_000, forwarded),
            random("values", 120_000, 4_000_000, values),
            random("huge", 100, 2_000, huge),
        ],
        assumptions: &["the end of the output is announced only when the rest fits into the buffer"],
    }
}

fn piecewise(c: &mut Case, set: &dyn DynSet, m: &dyn DynMsg, want: &[u8], cut: &Cut, mode: Mode) -> Chk {
    let mut e = set.encoder();
    let spare = hash_bytes(want) as usize % 9;
    nothing_left(&mut *e, spare, mode).map_err(|w| Fail::new(format!("a fresh encoder: {}", w)))?;
    if let Err(k) = e.start(m.clone_box()) {
        fail!("starting a message that fits fails with {:?}", k);
    }
    ensure!(e.req() == ByteCount::Finite(e.exact()), "requiring_bytes {:?} differs from the exact size {}", e.req(), e.exact());
    ensure!(!e.idle(), "idle right after a message was started");
    let d = drain(&mut *e, Some(want.len()), cut, mode);
    c.count("encode calls", d.calls as u64);
    if let Some(k) = d.err {
        fail!("encoding fails half way with {:?}", k);
    }
    if let Some(b) = d.bad {
        fail!("{}", b);
    }
    ensure!(d.bytes == want, "the bytes depend on the buffer sizes");
    nothing_left(&mut *e, spare, mode).map_err(|w| Fail::new(format!("after everything was written: {}", w)))?;
    c.eval(Some(hash_bytes(want) ^ hash_dbg(cut)));
    Ok(())
}
fn messages(c: &mut Case) -> Chk {
    let set = any_set(&mut c.r);
    let p = gen::plan(&mut c.r, set, true);
    let m = build(&p, set)?;
    let snap = m.snap();
    let want = encode_ok(set, &*m)?;
    for mode in MODES {
        let cut = gen::cut(&mut c.r, want.len());
        c.sample(|| format!("{:?} {:?} {}", cut, mode, show_plan(set, &p)));
        piecewise(c, set, &*m, &want, &cut, mode).detail(|| format!("buffers {:?} {:?}; {}", cut, mode, show_plan(set, &p)))?;
    }
    // idempotence
    let again = encode_ok(set, &*m)?;
    ensure_eq!(hex(&again), hex(&want), "encoding the same message again yields other bytes");
    ensure_eq!(m.snap(), snap, "encoding a copy changed the message");
    Ok(())
}
fn forwarded(c: &mut Case) -> Chk {
    let set = any_set(&mut c.r);
    let o = if c.r.bool() { gen::VALID } else { gen::VALID_RES };
    let b = gen::image(&mut c.r, set, o).bytes();
    let m = match decode_all(set, &b).out {
        Out::Valid(m) => m,
        _ => {
            c.count("skipped: not valid", 1);
            return Ok(());
        }
    };
    let want = encode_ok(set, &*m)?;
    for _ in 0..2 {
        let cut = gen::cut(&mut c.r, want.len());
        let mode = any_mode(&mut c.r);
        piecewise(c, set, &*m, &want, &cut, mode).detail(|| format!("buffers {:?} {:?}; forwarded {}", cut, mode, show_bytes(set, &b)))?;
    }
    let again = encode_ok(set, &*m)?;
    ensure_eq!(hex(&again), hex(&want), "encoding the same message again yields other bytes");
    Ok(())
}
/// Every position of a single cut.
fn two(c: &mut Case) -> Chk {
    let set = any_set(&mut c.r);
    let mut p = gen::plan(&mut c.r, set, true);
    p.attrs.truncate(6);
    let m = build(&p, set)?;
    let want = encode_ok(set, &*m)?;
    if want.len() > 400 {
        return Ok(());
    }
    for n in 0..=want.len() {
        let mode = any_mode(&mut c.r);
        piecewise(c, set, &*m, &want, &Cut::Sizes(vec![n]), mode).detail(|| format!("first buffer {} {:?}; {}", n, mode, show_plan(set, &p)))?;
    }
    for n in 1..9 {
        piecewise(c, set, &*m, &want, &Cut::Fixed(n), Mode::Open).detail(|| format!("buffers of {}; {}", n, show_plan(set, &p)))?;
    }
    Ok(())
}
fn values(c: &mut Case) -> Chk {
    let vc = val_codec(c.idx);
    let (ty, name) = (vc.ty, &vc.name);
    let v = gen::val(&mut c.r, ty, &[0; 12]);
    let want = enc_value(ty, &v, None);
    for mode in MODES {
        let cut = gen::cut(&mut c.r, want.len());
        let mut e = (vc.encoder)();
        let spare = c.r.below(9);
        nothing_left(&mut *e, spare, mode).map_err(|w| Fail::new(format!("a fresh {} encoder: {}", name, w)))?;
        match e.start(&v) {
            Some(Ok(())) => {}
            o => fail!("the {} encoder refuses {:?}: {:?}", name, v, o),
        }
        let d = drain(&mut *e, Some(want.len()), &cut, mode);
        let r = (|| {
            if let Some(k) = d.err {
                fail!("{} encoder: fails with {:?}", name, k);
            }
            if let Some(b) = &d.bad {
                fail!("{} encoder: {}", name, b);
            }
            ensure!(d.bytes == want, "{} encoder: the bytes depend on the buffer sizes: {}", name, hex(&d.bytes));
            nothing_left(&mut *e, spare, mode).map_err(|w| Fail::new(format!("{} encoder, after everything was written: {}", name, w)))?;
            Ok(())
        })();
        r.detail(|| format!("value {:?}, buffers {:?}, {:?}", v, cut, mode))?;
        c.eval(Some(hash_bytes(&want) ^ hash_dbg(&cut) ^ hash_bytes(name.as_bytes())));
    }
    Ok(())
}
fn huge(c: &mut Case) -> Chk {
    let (set, ty) = *c.r.pick(&[(all_set(), 0x13u16), (raw_set(), 0x1234), (all_set(), 0x8030)]);
    let tid = c.r.tid();
    let mut attrs = vec![];
    let mut left = 65532usize;
    while left >= 4 {
        let max = *c.r.pick(&[4usize, 40, 4000, 66000]);
        let vl = c.r.below(max).min((left - 4) / 4 * 4);
        let n = vl + pad_len(vl);
        let vl = if n > left - 4 { left - 4 } else { vl };
        attrs.push((ty, Val::Bytes(c.r.bytes(vl))));
        left -= 4 + vl + pad_len(vl);
    }
    let p = Plan { class: 1, method: 6, tid, attrs };
    let m = build(&p, set)?;
    let want = encode_ok(set, &*m)?;
    let max = *c.r.pick(&[64usize, 1000, 30000]);
    let mut sizes = vec![];
    let mut sum = 0;
    while sum < want.len() {
        sizes.push(c.r.below(max));
        sum += sizes[sizes.len() - 1];
    }
    let mode = any_mode(&mut c.r);
    piecewise(c, set, &*m, &want, &Cut::Sizes(sizes), mode)
}
