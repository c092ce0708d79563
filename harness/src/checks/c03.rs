//! C03: arbitrary bytes: no panic, no hang, no over-read, exact framing, no faked success.
use super::util::*;

pub fn check() -> Check {
    Check {
        id: "C03",
        rule: "distinct (input bytes, set) pairs fed to a decoder under some splitting",
        suites: vec![
            sweep("truncations", 4_000, truncations),
            sweep("lengths", 2_048, lengths),
            random("noise", 150_000, 8_000_000, noise),
            random("streams", 40_000, 1_500_000, streams),
            random("values", 150_000, 6_000_000, values),
            random("early finish", 60_000, 1_500_000, early),
            random("huge", 200, 4_000, huge),
        ],
        assumptions: &["a panic is any unwinding out of the code, arithmetic overflow included (overflow checks are on)"],
    }
}

/// Feeds one input and judges consumption and framing.
fn judge(c: &mut Case, set: &dyn DynSet, b: &[u8], cut: &Cut, mode: Mode) -> Result<usize, Fail> {
    let f = feed(&mut *set.decoder(), b, cut, mode);
    let consumed = f.consumed;
    judge_fed(c, set, b, &f).detail(|| format!("splitting {:?}, end announced: {:?}\n{}", cut, mode, show_bytes(set, b)))?;
    c.count(f.out.name(), 1);
    c.count("decode calls", f.steps.len() as u64);
    c.eval(if b.len() > 8 { Some(hash_bytes(b) ^ hash_bytes(set.name().as_bytes())) } else { None });
    Ok(consumed)
}
fn judge_fed(_c: &mut Case, set: &dyn DynSet, b: &[u8], f: &Fed) -> Chk {
    if let Some((n, k)) = f.over {
        fail!("decode reports {} bytes consumed out of {}", k, n);
    }
    if let Some((n, k)) = f.stalled {
        fail!("decode takes {} of {} bytes and is neither idle nor failed", k, n);
    }
    let need = match model(set, b) {
        Parsed::Short { need } => need,
        Parsed::Msg(m) => m.total,
        Parsed::Reject(_) => {
            ensure!(
                !matches!(f.out, Out::Valid(_) | Out::Broken(_)),
                "bytes that are not a STUN message are delivered as one: {}",
                f.out.show()
            );
            return Ok(());
        }
    };
    if b.len() < need {
        // incomplete
        match &f.out {
            Out::More | Out::Reject(_) | Out::FinishErr(_) => Ok(()),
            o => fail!("input that ends {} bytes early is delivered: {}", need - b.len(), o.show()),
        }
    } else {
        match &f.out {
            Out::Valid(_) | Out::Broken(_) => {
                ensure_eq!(f.consumed, need, "a message of {} bytes is not consumed exactly", need);
                Ok(())
            }
            o => fail!("a complete message with sound header is neither delivered as valid nor as broken: {}", o.show()),
        }
    }
}

/// Every proper prefix of a message, under every way of announcing the end.
fn truncations(c: &mut Case) -> Chk {
    let set = any_set(&mut c.r);
    let b = any_framed(&mut c.r, set);
    let b = &b[..b.len().min(400)];
    for n in 0..=b.len() {
        let cut = if c.r.bool() { Cut::All } else { gen::cut(&mut c.r, n) };
        let mode = any_mode(&mut c.r);
        judge(c, set, &b[..n], &cut, mode)?;
    }
    Ok(())
}

/// Message and attribute lengths at and around the real ones.
fn lengths(c: &mut Case) -> Chk {
    let set = any_set(&mut c.r);
    let mut b = gen::image(&mut c.r, set, gen::MESSY).bytes();
    let more = c.r.below(40);
    let tail = c.r.bytes(more);
    b.extend(tail);
    let real = b.len() - 20;
    for d in -9i64..=9 {
        let n = (real as i64 + d).clamp(0, 0xffff) as u16;
        b[2..4].copy_from_slice(&n.to_be_bytes());
        let cut = gen::cut(&mut c.r, b.len());
        let mode = any_mode(&mut c.r);
        judge(c, set, &b, &cut, mode)?;
    }
    set_len(&mut b);
    let offs = gen::walk(&b);
    for _ in 0..12 {
        if offs.is_empty() {
            break;
        }
        let mut x = b.clone();
        let o = *c.r.pick(&offs);
        let n = match c.r.below(4) {
            0 => c.r.u16(),
            1 => 0xffff - c.r.below(5) as u16,
            _ => (x.len() - o) as u16 - 4 + c.r.below(9) as u16,
        };
        x[o + 2..o + 4].copy_from_slice(&n.to_be_bytes());
        let cut = gen::cut(&mut c.r, x.len());
        let mode = any_mode(&mut c.r);
        judge(c, set, &x, &cut, mode)?;
    }
    Ok(())
}

fn noise(c: &mut Case) -> Chk {
    let set = any_set(&mut c.r);
    let b = any_input(&mut c.r, set);
    let cut = gen::cut(&mut c.r, b.len());
    let mode = any_mode(&mut c.r);
    c.sample(|| format!("{:?} {}", cut, show_bytes(set, &b)));
    judge(c, set, &b, &cut, mode)?;
    Ok(())
}

/// Several framed messages back to back: each starts where the one before ended.
fn streams(c: &mut Case) -> Chk {
    let set = any_set(&mut c.r);
    let n = c.r.range(2, 5);
    let msgs: Vec<Vec<u8>> = (0..n).map(|_| any_framed(&mut c.r, set)).collect();
    let all = msgs.concat();
    let mut dec = set.decoder();
    let mut off = 0;
    while off < all.len() {
        let rest = &all[off..];
        let cut = gen::cut(&mut c.r, rest.len());
        // the stream goes on: only its real end may be announced
        let mode = any_mode(&mut c.r);
        let f = feed(&mut *dec, rest, &cut, mode);
        judge_fed(c, set, rest, &f)
            .detail(|| format!("message at offset {} of a stream; splitting {:?}, {:?}\n{}", off, cut, mode, show_bytes(set, &all)))?;
        c.eval(Some(hash_bytes(rest)));
        c.count(f.out.name(), 1);
        if !matches!(f.out, Out::Valid(_) | Out::Broken(_)) {
            break;
        }
        off += f.consumed;
    }
    Ok(())
}

/// The standalone value decoders.
fn values(c: &mut Case) -> Chk {
    let vc = val_codec(c.idx);
    let (ty, name) = (vc.ty, &vc.name);
    let mut d = (vc.decoder)();
    let b = if c.r.chance(1, 3) {
        let n = c.r.below(30);
        c.r.bytes(n)
    } else {
        gen::bad_value(&mut c.r, ty, &[0; 12])
    };
    let cut = gen::cut(&mut c.r, b.len());
    // bytecodec's decoder of remaining bytes makes room for all that is announced
    let mode = match any_mode(&mut c.r) {
        Mode::Ample(n) => Mode::Ample(n.min(1 << 20)),
        m => m,
    };
    let r = feed_value(&mut *d, &b, &cut, mode);
    c.eval(Some(hash_bytes(&b) ^ hash_bytes(name.as_bytes())));
    match r {
        Ok(v) => {
            c.count(if v.is_some() { "value delivered" } else { "value refused" }, 1);
            Ok(())
        }
        Err(m) => fail!("{} decoder: {}", name, m),
    }
    .detail(|| format!("splitting {:?}, {:?}, bytes {}", cut, mode, hex(&b)))
}
/// `Ok(None)`: refused or unfinished.
fn feed_value(d: &mut dyn ValDecoder, b: &[u8], cut: &Cut, mode: Mode) -> Result<Option<Val>, String> {
    let mut off = 0;
    let mut stuck = 0;
    let mut i = 0;
    loop {
        let n = cut.size(i).min(b.len() - off);
        i += 1;
        match d.decode(&b[off..off + n], eos(mode, b.len() - off - n)) {
            Err(_) => return Ok(None),
            Ok(k) if k > n => return Err(format!("reports {} bytes consumed out of {}", k, n)),
            Ok(k) => {
                off += k;
                if d.idle() {
                    return Ok(d.finish().ok());
                }
                if k < n {
                    stuck += 1;
                    if stuck > 4 {
                        return Err(format!("takes {} of {} bytes and is neither idle nor failed", k, n));
                    }
                }
                if off == b.len() {
                    return Ok(d.finish().ok());
                }
            }
        }
    }
}

/// Asking for the message before it is complete must not produce one.
fn early(c: &mut Case) -> Chk {
    let set = any_set(&mut c.r);
    let b = any_framed(&mut c.r, set);
    let need = match model(set, &b) {
        Parsed::Msg(m) => m.total,
        _ => b.len(),
    };
    let n = match c.r.below(3) {
        0 => c.r.below(need.min(21)),
        1 => need - 1 - c.r.below(need.min(6)),
        _ => c.r.below(need),
    }
    .min(b.len());
    let mut d = set.decoder();
    let cut = gen::cut(&mut c.r, n);
    let mode = if c.r.bool() { Mode::Open } else { Mode::Exact };
    let mut off = 0;
    let mut i = 0;
    while off < n {
        let k = cut.size(i).min(n - off);
        i += 1;
        match d.decode(&b[off..off + k], eos(mode, need - off - k)) {
            Err(_) => return Ok(()),
            Ok(t) if t == k => off += t,
            Ok(t) => fail!("decode takes {} of {} bytes of an unfinished message", t, k),
        }
        ensure!(!d.idle() || off >= need, "idle {} bytes before the end of the message", need - off);
    }
    let r = d.finish();
    c.eval(Some(hash_bytes(&b[..n]) ^ 7));
    if n < need {
        if let Ok(Ok(m)) = r {
            return Err(Fail::new(format!("a message that lacks its last {} bytes is delivered as valid", need - n))
                .with(format!("{:?}", m.snap()))
                .with(show_bytes(set, &b[..n])));
        }
    }
    Ok(())
}

fn huge(c: &mut Case) -> Chk {
    let set = any_set(&mut c.r);
    let mut b = header(0, 1, &c.r.tid(), 0);
    let total = 65535 - c.r.below(40);
    while b.len() < 20 + total {
        let rest = 20 + total - b.len();
        let ty = gen::wire_type(&mut c.r, set);
        let vl = c.r.below(*c.r.clone().pick(&[4, 40, 4000, 65000])).min(rest.saturating_sub(4));
        let v = c.r.bytes(vl);
        push_tlv(&mut b, ty, &v, &[]);
    }
    b.truncate(20 + total);
    set_len(&mut b);
    if c.r.bool() {
        let n = c.r.below(30);
        let x = c.r.bytes(n);
        b.extend(x);
    }
    let cut = gen::cut(&mut c.r, b.len());
    let mode = any_mode(&mut c.r);
    judge(c, set, &b, &cut, mode)?;
    Ok(())
}
