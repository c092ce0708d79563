//! C21: the kind of every error says what went wrong.
use super::util::*;

pub fn check() -> Check {
    Check {
        id: "C21",
        rule: "distinct (input, way to present it) pairs that led to an error whose kind was judged",
        suites: vec![
            random("headers", 30_000, 1_500_000, headers),
            random("causes", 40_000, 2_000_000, causes),
            random("faults", 40_000, 2_000_000, faults),
            random("values", 60_000, 3_000_000, values),
            random("ends", 30_000, 1_500_000, ends),
        ],
        assumptions: &["when framing and content are both wrong any of the three kinds of input error is accepted"],
    }
}

const INPUT: [ErrorKind; 3] = [ErrorKind::InvalidInput, ErrorKind::UnexpectedEos, ErrorKind::IncompleteDecoding];

/// A header that has to be refused.
fn headers(c: &mut Case) -> Chk {
    let set = any_set(&mut c.r);
    let mut b = gen::image(&mut c.r, set, gen::VALID).bytes();
    match c.r.below(3) {
        0 => b[0] |= 0x40 << c.r.below(2),
        1 => b[0] |= 0xc0,
        _ => {
            let i = c.r.range(4, 7);
            b[i] ^= 1 << c.r.below(8);
        }
    }
    if c.r.chance(1, 4) {
        b.truncate(20);
    }
    let cut = gen::cut(&mut c.r, b.len());
    for mode in MODES {
        let f = feed(&mut *set.decoder(), &b, &cut, mode);
        let what = || format!("{}, pieces {:?} {:?}", show_bytes(set, &b), cut, mode);
        match f.out {
            Out::Reject(k) | Out::FinishErr(k) => ensure_eq!(k, ErrorKind::InvalidInput, "the kind of error a wrong header is refused with ({})", what()),
            o => fail!("a wrong header is not refused but {} ({})", o.show(), what()),
        }
        c.eval(Some(hash_bytes(&b) ^ hash_dbg(&(&cut, mode))));
    }
    c.count("wrong headers", 1);
    Ok(())
}

/// True if all that is wrong with the message are values out of range, family, encoding or limit, or fingerprints.
fn content_only(set: &dyn DynSet, b: &[u8]) -> bool {
    let k = set.knows();
    if k.raw {
        return false;
    }
    let mut tid = [0; 12];
    tid.copy_from_slice(&b[8..20]);
    let mut off = 20;
    while off < b.len() {
        if b.len() - off < 4 {
            return false;
        }
        let ty = u16::from_be_bytes([b[off], b[off + 1]]);
        let vl = usize::from(u16::from_be_bytes([b[off + 2], b[off + 3]]));
        let end = off + 4 + vl + pad_len(vl);
        if end > b.len() {
            return false;
        }
        if (k.f)(ty) && dec_value(ty, &b[off + 4..off + 4 + vl], Some(&tid)) == Err("length") {
            return false;
        }
        off = end;
    }
    true
}
fn judge(c: &mut Case, set: &dyn DynSet, b: &[u8], cut: &Cut, mode: Mode) -> Chk {
    let content = content_only(set, b);
    let mut d = set.decoder();
    let f = feed(&mut *d, b, cut, mode);
    if let Out::Broken(i) = f.out {
        let what = || format!("{}, pieces {:?} {:?}", show_bytes(set, b), cut, mode);
        ensure!(INPUT.contains(&i.kind), "the cause of a broken message is {:?}, which is no input error ({})", i.kind, what());
        if content {
            ensure_eq!(i.kind, ErrorKind::InvalidInput, "the cause of a broken message with a wrong value only ({})", what());
            c.count("wrong values in messages", 1);
        } else {
            c.count("wrong framing", 1);
        }
        c.eval(Some(hash_bytes(b) ^ hash_dbg(&(cut, mode))));
    }
    Ok(())
}
fn causes(c: &mut Case) -> Chk {
    let set = any_set(&mut c.r);
    let b = any_framed(&mut c.r, set);
    let mut w = b.clone();
    w.truncate(20 + usize::from(u16::from_be_bytes([b[2], b[3]])));
    let cut = if c.r.bool() { Cut::Fixed(w.len().max(1)) } else { gen::cut(&mut c.r, w.len()) };
    let mode = any_mode(&mut c.r);
    judge(c, set, &w, &cut, mode)
}
/// A sound message in which one value is wrong.
fn faults(c: &mut Case) -> Chk {
    let mut set = any_set(&mut c.r);
    if set.knows().raw {
        set = all_set();
    }
    let mut im = gen::image(&mut c.r, set, gen::VALID);
    let types = set.types();
    let ty = *c.r.pick(&types);
    let tid = im.tid;
    let value = gen::bad_value(&mut c.r, ty, &tid);
    if matches!(dec_value(ty, &value, Some(&tid)), Err("length")) && c.r.chance(3, 4) {
        return Ok(());
    }
    let at = c.r.below(im.items.len() + 1);
    im.items.insert(at, Item::Tlv { ty, value, pad: vec![] });
    let b = im.bytes();
    if b.len() > 20 + 0xffff {
        return Ok(());
    }
    for mode in MODES {
        let cut = gen::cut(&mut c.r, b.len());
        judge(c, set, &b, &cut, mode)?;
    }
    Ok(())
}

/// Standalone decoders and values that are complete but wrong.
fn values(c: &mut Case) -> Chk {
    let vc = val_codec(c.idx);
    let (ty, name) = (vc.ty, &vc.name);
    let b = gen::bad_value(&mut c.r, ty, &[0; 12]);
    let why = match dec_value(ty, &b, None) {
        Ok(_) => return Ok(()),
        Err(e) => e,
    };
    let split = c.r.below(b.len() + 1);
    let mut d = (vc.decoder)();
    let r = (|| {
        let mut n = d.decode(&b[..split], Eos::new(false))?;
        if !d.idle() {
            n += d.decode(&b[n..], Eos::new(true))?;
        }
        if n < b.len() {
            // bytes that do not belong to the value are for somebody else
            return Ok(None);
        }
        d.finish().map(Some)
    })();
    let what = || format!("the {} decoder, value {} split at {}", name, hex(&b), split);
    match r {
        Ok(_) if why == "length" => {}
        Ok(Some(v)) => fail!("{}: accepted as {:?} although the {} is wrong", what(), v, why),
        Ok(None) => {}
        Err(k) => {
            ensure!(INPUT.contains(&k), "{}: the error is {:?}, which is no input error", what(), k);
            if why != "length" {
                ensure_eq!(k, ErrorKind::InvalidInput, "{}: the kind of error for a wrong {}", what(), why);
                c.count("wrong values alone", 1);
            }
            c.eval(Some(hash_bytes(&b) ^ hash_bytes(name.as_bytes()) ^ split as u64));
        }
    }
    Ok(())
}

/// The stream ends, the output ends, or the result is asked for, before its time.
fn ends(c: &mut Case) -> Chk {
    let set = any_set(&mut c.r);
    let b = gen::image(&mut c.r, set, gen::VALID).bytes();
    // header
    let n = c.r.below(20);
    let m = c.r.below(n + 1);
    let mut d = set.decoder();
    let r = d.decode(&b[..m], Eos::new(false)).and_then(|_| d.decode(&b[m..n], Eos::new(true)));
    ensure_eq!(r, Err(ErrorKind::UnexpectedEos), "the stream ends after {} bytes of a header ({})", n, show_bytes(set, &b));
    let mut d = set.decoder();
    let r = d.decode(&b[..m], Eos::new(false)).and_then(|_| d.decode(&b[m..n], Eos::new(false)));
    ensure_eq!(r, Ok(n - m), "a part of a header ({})", show_bytes(set, &b));
    match d.finish() {
        Err(ErrorKind::IncompleteDecoding) => {}
        o => fail!("asking for the message after {} bytes of its header gives {:?} ({})", n, o.map(|_| "a message"), show_bytes(set, &b)),
    }
    c.count("parts of headers", 1);
    c.eval(Some(hash_bytes(&b[..n]) ^ m as u64));
    // output
    if let Ok(m) = decode_valid(set, &b) {
        let n = c.r.below(b.len());
        let mut e = set.encoder();
        let mut buf = vec![0; n];
        let before = c.r.below(n + 1);
        let r = e.start(m).and_then(|_| e.encode(&mut buf[..before], Eos::new(false)));
        ensure_eq!(r, Ok(before), "the first bytes of a message ({})", show_bytes(set, &b));
        let r = e.encode(&mut buf[before..], Eos::new(true));
        ensure_eq!(r, Err(ErrorKind::UnexpectedEos), "the output ends after {} of {} bytes ({})", n, b.len(), show_bytes(set, &b));
        ensure!(!e.idle(), "idle although only {} of {} bytes were written ({})", n, b.len(), show_bytes(set, &b));
        c.count("parts of messages written", 1);
    }
    // values
    let vc = val_codec(c.idx);
    let name = &vc.name;
    let v = gen::val(&mut c.r, vc.ty, &[0; 12]);
    let w = enc_value(vc.ty, &v, None);
    if w.is_empty() {
        return Ok(());
    }
    // before anything has arrived, and once more after the value has been taken
    let mut d = (vc.decoder)();
    let r = d.finish();
    // (a raw attribute decoder that was not told the type is being misused)
    let untyped = name.contains("raw") && r == Err(ErrorKind::InconsistentState);
    ensure!(untyped || r == Err(ErrorKind::IncompleteDecoding), "asking a new {} decoder gives {:?}", name, r);
    let mut d = (vc.decoder)();
    let r = d.decode(&w, Eos::new(true)).and_then(|_| d.finish());
    ensure_eq!(r, Ok(v.clone()), "{} decoded from {}", name, hex(&w));
    let r = d.finish();
    let untyped = name.contains("raw") && r == Err(ErrorKind::InconsistentState);
    ensure!(untyped || r == Err(ErrorKind::IncompleteDecoding), "asking a {} decoder twice for {:?} gives {:?}", name, v, r);
    c.count("values asked for that had not arrived", 2);
    let n = c.r.below(w.len());
    let what = || format!("{} of {} bytes, {} {:?}", n, w.len(), name, v);
    if dec_value(vc.ty, &w[..n], None) == Err("length") {
        let r = (vc.decoder)().decode(&w[..n], Eos::new(true));
        ensure_eq!(r, Err(ErrorKind::UnexpectedEos), "the stream ends after {}", what());
        let mut d = (vc.decoder)();
        let r = d.decode(&w[..n], Eos::new(false));
        ensure!(r.is_ok(), "decoding {} fails with {:?}", what(), r);
        if !d.idle() {
            let r = d.finish();
            ensure!(r == Err(ErrorKind::IncompleteDecoding), "asking too early, after {}, gives {:?}", what(), r);
        }
        c.count("parts of values", 1);
    }
    let mut e = (vc.encoder)();
    if let Some(Ok(())) = e.start(&v) {
        let mut buf = vec![0; n];
        let r = e.encode(&mut buf, Eos::new(true));
        ensure_eq!(r, Err(ErrorKind::UnexpectedEos), "the output ends after {}", what());
    }
    c.eval(Some(hash_bytes(&w[..n]) ^ hash_bytes(name.as_bytes())));
    Ok(())
}
