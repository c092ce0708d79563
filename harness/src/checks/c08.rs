//! C08: reused, busy and refusing encoders.
use super::util::*;

pub fn check() -> Check {
    Check {
        id: "C08",
        rule: "distinct (history, message) pairs encoded by a reused and compared with a fresh encoder",
        suites: vec![
            random("histories", 100_000, 3_000_000, histories),
            random("busy", 80_000, 2_000_000, busy),
            random("values", 120_000, 3_000_000, values),
            sweep("busy values", 141 * 20, busy_values),
            random("refusals", 1_500, 30_000, refusals),
            sweep("marathons", 16, marathons),
            sweep("value marathons", 150, value_marathons),
        ],
        assumptions: &["an encoder is busy from start_encoding until is_idle"],
    }
}

/// A message the encoder has to refuse: too large in total, or one attribute's value too large.
fn too_large(r: &mut Rng, set: &dyn DynSet) -> Option<Box<dyn DynMsg>> {
    let tid = r.tid();
    let mut m = set.msg(r.below(4) as u8, gen::method(r), tid);
    let few = r.below(3);
    let types = set.types();
    for _ in 0..few {
        if set.knows().raw {
            m.add(0x1111, &Val::Bytes(vec![1, 2, 3]));
        } else {
            let ty = *r.pick(&types);
            let v = gen::val(r, ty, &tid);
            m.add(ty, &v);
        }
    }
    if set.knows().raw {
        if r.bool() {
            m.add(0x2222, &Val::Bytes(vec![7; 65536 + r.below(9)]));
        } else {
            m.add(0x2222, &Val::Bytes(vec![7; 40000]));
            m.add(0x2222, &Val::Bytes(vec![8; 30000]));
        }
    } else if let Some(ty) = types.iter().find(|t| **t == 0x13 || **t == 0x8030) {
        match r.below(2) {
            0 => {
                m.add(*ty, &Val::Bytes(vec![7; 65535]));
            }
            _ => {
                m.add(*ty, &Val::Bytes(vec![7; 40000]));
                m.add(*ty, &Val::Bytes(vec![8; 30000]));
            }
        }
    } else if types.contains(&9) {
        m.add(9, &Val::Err(400, "x".repeat(65532 + r.below(9))));
    } else if types.contains(&0xA) {
        m.add(0xA, &Val::Types(vec![1; 32768 + r.below(5)]));
    } else {
        return None;
    }
    if few > 0 && set.knows().raw {
        m.add(0x1111, &Val::Bytes(vec![1, 2, 3]));
    }
    Some(m)
}
fn pick_set(r: &mut Rng) -> &'static dyn DynSet {
    if r.bool() {
        any_set(r)
    } else {
        *r.pick(&[all_set(), raw_set(), r5389_set(), sets().every[2], sets().every[5]])
    }
}

fn check_fresh(e: &dyn DynEncoder) -> Chk {
    ensure!(e.idle(), "an encoder that has nothing to do is not idle");
    ensure_eq!(e.exact(), 0, "an idle encoder announces bytes");
    Ok(())
}
fn encode_with(c: &mut Case, e: &mut dyn DynEncoder, m: &dyn DynMsg, want: &[u8]) -> Chk {
    if let Err(k) = e.start(m.clone_box()) {
        fail!("a reused encoder refuses a message that fits: {:?}", k);
    }
    let cut = gen::cut(&mut c.r, want.len());
    let mode = any_mode(&mut c.r);
    let d = drain(e, Some(want.len()), &cut, mode);
    if let Some(k) = d.err {
        fail!("a reused encoder fails with {:?}", k);
    }
    if let Some(b) = d.bad {
        fail!("a reused encoder: {}", b);
    }
    if d.bytes != want {
        return Err(Fail::new("a reused encoder writes other bytes than a fresh one").with(format!("reused {}\nfresh {}", hex(&d.bytes), hex(want))));
    }
    check_fresh(e)
}

fn histories(c: &mut Case) -> Chk {
    let set = pick_set(&mut c.r);
    let mut e = set.encoder();
    let mut h = 0;
    let mut past: Vec<String> = vec![];
    for _ in 0..c.r.mostly(2, 6) {
        if c.r.chance(1, 6) {
            if let Some(m) = too_large(&mut c.r, set) {
                let r = e.start(m);
                c.count("refused messages", 1);
                ensure!(r.is_err(), "a message that is too large is not refused");
                past.push("refused".into());
                check_fresh(&*e).detail(|| format!("{} history {:?}", set.name(), past))?;
                continue;
            }
        }
        let p = gen::plan(&mut c.r, set, true);
        let m = build(&p, set)?;
        let want = encode_ok(set, &*m)?;
        encode_with(c, &mut *e, &*m, &want).detail(|| format!("history {:?}; {}", past, show_plan(set, &p)))?;
        h = mix(h ^ hash_bytes(&want));
        past.push(clip(&format!("{:?}", p)));
        c.eval(Some(h));
    }
    c.sample(|| format!("{:?}", past));
    Ok(())
}

/// A start while another message is still being written, at every stage.
fn busy(c: &mut Case) -> Chk {
    let set = pick_set(&mut c.r);
    let p = gen::plan(&mut c.r, set, true);
    let q = gen::plan(&mut c.r, set, true);
    let m = build(&p, set)?;
    let other = build(&q, set)?;
    let want = encode_ok(set, &*m)?;
    let want_other = encode_ok(set, &*other)?;
    let mut e = set.encoder();
    if let Err(k) = e.start(m.clone_box()) {
        fail!("starting a message that fits fails with {:?}", k);
    }
    let at = c.r.below(want.len());
    let mut got = Vec::new();
    let mut tries = 0;
    let mut big = if c.r.chance(1, 8) { too_large(&mut c.r, set) } else { None };
    let r = (|| {
        while !e.idle() {
            if got.len() >= at && tries < 3 {
                tries += 1;
                let before = (e.exact(), e.idle());
                let m2 = match big.take() {
                    Some(m) => m,
                    None => other.clone_box(),
                };
                match e.start(m2) {
                    Err(ErrorKind::EncoderFull) => {}
                    o => fail!("starting a busy encoder gives {:?} instead of EncoderFull ({} of {} bytes written)", o, got.len(), want.len()),
                }
                ensure_eq!((e.exact(), e.idle()), before, "a refused start changes what the encoder announces");
            }
            let left = want.len().saturating_sub(got.len()).max(1);
            let n = if got.len() < at { (at - got.len()).min(1 + c.r.below(8)) } else { 1 + c.r.below(left) };
            let mut buf = vec![0; n];
            match e.encode(&mut buf, Eos::new(n >= left)) {
                Ok(k) if k <= n => got.extend_from_slice(&buf[..k]),
                Ok(k) => fail!("wrote {} into {}", k, n),
                Err(k) => fail!("the message in progress fails with {:?} after a refused start", k),
            }
            ensure!(got.len() <= want.len() + 64, "the message in progress does not end");
        }
        ensure!(got == want, "a refused start damages the message in progress: {} instead of {}", hex(&got), hex(&want));
        Ok(())
    })();
    r.detail(|| format!("refused start after {} bytes; in progress {}; refused {:?}", at, show_plan(set, &p), clip(&format!("{:?}", q))))?;
    c.count("refused starts", tries);
    c.eval(Some(hash_bytes(&want) ^ mix(at as u64)));
    check_fresh(&*e)?;
    encode_with(c, &mut *e, &*other, &want_other)
}

fn refusals(c: &mut Case) -> Chk {
    let set = *c.r.pick(&[all_set(), raw_set(), r5389_set(), sets().every[2], sets().every[5]]);
    let mut e = set.encoder();
    for _ in 0..3 {
        let Some(m) = too_large(&mut c.r, set) else { continue };
        let how = c.r.bool();
        let r = if how { e.start(m) } else { e.all(m).map(|_| ()) };
        ensure!(r.is_err(), "a message that is too large is not refused");
        check_fresh(&*e)?;
        let p = gen::plan(&mut c.r, set, true);
        let m = build(&p, set)?;
        let want = encode_ok(set, &*m)?;
        encode_with(c, &mut *e, &*m, &want).detail(|| format!("after a refused message; {}", show_plan(set, &p)))?;
        c.eval(Some(hash_bytes(&want) ^ 5));
    }
    Ok(())
}

/// Very many small messages, or refusals, through one encoder.
fn marathons(c: &mut Case) -> Chk {
    let set = [all_set(), raw_set(), r5389_set(), sets().every[5]][c.idx as usize % 4];
    let mut e = set.encoder();
    let tid = c.r.tid();
    let empty = set.msg(0, 1, tid);
    let small = {
        let mut m = set.msg(1, 2, tid);
        for _ in 0..2 {
            if set.knows().raw {
                m.add(0x1111, &Val::Bytes(vec![1]));
            } else if set.types().contains(&0x8022) {
                m.add(0x8022, &Val::Text("x".into()));
            }
        }
        m
    };
    let wants = [encode_ok(set, &*empty)?, encode_ok(set, &*small)?];
    let mode = c.idx / 4;
    let total: u64 = if mode == 3 { 1_500 } else { 66_000 };
    let mut h = 0;
    for n in 0..total {
        let near = (4..17).any(|k| (n as i64 - (1 << k)).abs() < 3);
        if near || n % 1_000 == 999 {
            let p = gen::plan(&mut c.r, set, true);
            let m = build(&p, set)?;
            let want = encode_ok(set, &*m)?;
            encode_with(c, &mut *e, &*m, &want).detail(|| format!("after {} messages, mode {}; {}", n, mode, show_plan(set, &p)))?;
            h = mix(h ^ hash_bytes(&want));
            c.eval(Some(h));
            continue;
        }
        let (m, want) = if n % 3 == 0 { (&small, &wants[1]) } else { (&empty, &wants[0]) };
        match mode {
            3 => {
                if let Some(m) = too_large(&mut c.r, set) {
                    ensure!(e.start(m).is_err(), "a message that is too large is not refused");
                }
                continue;
            }
            2 => {
                ensure!(e.start(m.clone_box()).is_ok(), "a reused encoder refuses a message after {} others", n);
                ensure_eq!(e.start(small.clone_box()), Err(ErrorKind::EncoderFull), "starting a busy encoder after {} messages", n);
            }
            1 => {
                let r = e.all(m.clone_box());
                ensure!(r.as_ref().ok() == Some(want), "a reused encoder gives {:?} instead of {} after {} messages", r.map(|b| hex(&b)), hex(want), n);
                continue;
            }
            _ => ensure!(e.start(m.clone_box()).is_ok(), "a reused encoder refuses a message after {} others", n),
        }
        let mut buf = [0; 64];
        let k = e.encode(&mut buf, Eos::new(true));
        ensure!(k == Ok(want.len()) && buf[..want.len()] == want[..] && e.idle(), "a reused encoder writes {} instead of {} after {} messages", hex(&buf), hex(want), n);
    }
    c.count("messages in marathons", total);
    Ok(())
}
/// Very many values through one value encoder.
fn value_marathons(c: &mut Case) -> Chk {
    let vc = val_codec(c.idx);
    let (ty, name) = (vc.ty, &vc.name);
    let mut e = (vc.encoder)();
    let vals: Vec<(Val, Vec<u8>)> = (0..8)
        .map(|_| {
            let v = gen::val(&mut c.r, ty, &[0; 12]);
            let b = enc_value(ty, &v, None);
            (v, b)
        })
        .filter(|x| x.1.len() < 2_000)
        .collect();
    if vals.is_empty() {
        return Ok(());
    }
    let mut buf = vec![0; 2_048];
    for n in 0..66_000usize {
        let (v, want) = &vals[n % vals.len()];
        if let Err(k) = start(&mut *e, ty, v)? {
            fail!("a reused {} encoder refuses a value with {:?} after {} others", name, k, n);
        }
        let k = e.encode(&mut buf, Eos::new(n % 2 == 0));
        ensure!(k == Ok(want.len()) && buf[..want.len()] == want[..] && e.idle(), "a reused {} encoder gives {:?} {} instead of {} after {} values", name, k, hex(&buf[..want.len()]), hex(want), n);
    }
    c.eval(Some(hash_bytes(name.as_bytes()) ^ hash_dbg(&vals)));
    c.count("values in marathons", 66_000);
    Ok(())
}

fn start(e: &mut dyn ValEncoder, ty: u16, v: &Val) -> Result<R<()>, Fail> {
    e.start(v).ok_or_else(|| refused(ty, v))
}
/// Reuse of value encoders.
fn values(c: &mut Case) -> Chk {
    let vc = val_codec(c.idx);
    let (ty, name) = (vc.ty, &vc.name);
    let mut e = (vc.encoder)();
    let mut past = vec![];
    for _ in 0..c.r.mostly(2, 4) {
        let v = gen::val(&mut c.r, ty, &[0; 12]);
        let want = enc_value(ty, &v, None);
        let r = (|| {
            ensure!(e.idle() && e.exact() == 0, "not idle between values");
            if let Err(k) = start(&mut *e, ty, &v)? {
                fail!("a reused encoder refuses a value: {:?}", k);
            }
            ensure_eq!(e.exact(), want.len() as u64, "announced size at the start");
            // refused start in the middle
            if !e.idle() && c.r.bool() {
                let w = gen::val(&mut c.r, ty, &[0; 12]);
                match start(&mut *e, ty, &w)? {
                    Err(ErrorKind::EncoderFull) => {}
                    o => fail!("starting a busy encoder gives {:?} instead of EncoderFull", o),
                }
            }
            let cut = gen::cut(&mut c.r, want.len());
            let d = drain(&mut *e, Some(want.len()), &cut, Mode::AtEnd);
            ensure!(d.err.is_none() && d.bad.is_none(), "{:?} {:?}", d.err, d.bad);
            ensure!(d.bytes == want, "the encoder writes {} instead of {}", hex(&d.bytes), hex(&want));
            Ok(())
        })();
        r.map_err(|f: Fail| Fail { msg: format!("{} encoder: {}", name, f.msg), ..f })
            .detail(|| format!("value {:?}, before {:?}", v, past))?;
        past.push(v);
        c.eval(Some(hash_bytes(&want) ^ hash_bytes(name.as_bytes())));
    }
    Ok(())
}
/// Busy starts of value encoders at every stage of the value.
fn busy_values(c: &mut Case) -> Chk {
    let vc = val_codec(c.idx);
    let (ty, name) = (vc.ty, &vc.name);
    let v = gen::val(&mut c.r, ty, &[0; 12]);
    let w = gen::val(&mut c.r, ty, &[0; 12]);
    let want = enc_value(ty, &v, None);
    for at in 0..want.len().min(80) {
        let mut e = (vc.encoder)();
        let r = (|| {
            if let Err(k) = start(&mut *e, ty, &v)? {
                fail!("refuses a value: {:?}", k);
            }
            let mut buf = vec![0; want.len() + 4];
            let n = match e.encode(&mut buf[..at], Eos::new(false)) {
                Ok(n) => n,
                Err(k) => fail!("fails with {:?}", k),
            };
            ensure_eq!(n, at, "bytes written");
            ensure!(!e.idle(), "idle after {} of {} bytes", at, want.len());
            match start(&mut *e, ty, &w)? {
                Err(ErrorKind::EncoderFull) => {}
                o => fail!("starting a busy encoder gives {:?} instead of EncoderFull", o),
            }
            ensure_eq!(e.exact(), (want.len() - at) as u64, "a refused start changes the announced size");
            let k = match e.encode(&mut buf[at..], Eos::new(true)) {
                Ok(n) => n,
                Err(k) => fail!("fails with {:?} after a refused start", k),
            };
            ensure!(at + k == want.len() && buf[..at + k] == want[..], "a refused start damages the value: {}", hex(&buf[..at + k]));
            ensure!(e.idle(), "not idle at the end");
            Ok(())
        })();
        r.map_err(|f: Fail| Fail { msg: format!("{} encoder: {}", name, f.msg), ..f })
            .detail(|| format!("value {:?}, refused {:?} after {} bytes", v, w, at))?;
        c.eval(Some(hash_bytes(&want) ^ mix(at as u64 ^ hash_bytes(name.as_bytes()))));
    }
    Ok(())
}
