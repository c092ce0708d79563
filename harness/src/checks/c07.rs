//! C07: a reused decoder behaves like a fresh one after any history.
use super::util::*;

pub fn check() -> Check {
    Check {
        id: "C07",
        rule: "distinct (history, next message) pairs decoded by a reused and by a fresh decoder side by side",
        suites: vec![
            random("histories", 120_000, 4_000_000, histories),
            random("pairs", 60_000, 2_000_000, pairs),
            random("auth", 40_000, 1_000_000, auth),
            random("values", 100_000, 2_000_000, values),
            sweep("marathons", 24, marathons),
            sweep("bulk", 8, bulk),
            sweep("value marathons", 150, value_marathons),
        ],
        assumptions: &[
            "a decoder whose decode() was rejected in the middle of a header, or that was told the stream ended there, is reused from the next message on",
            "standalone value decoders are compared after values they delivered or refused at their end",
        ],
    }
}

#[derive(Clone, Debug)]
enum Past {
    /// A complete message: whatever the outcome.
    Whole(Vec<u8>),
    /// A wrong header.
    BadHeader(Vec<u8>),
    /// The stream ends inside the message and the end is announced.
    Truncated(Vec<u8>, usize),
    /// finish() is called when the header but not all attributes had arrived.
    Early(Vec<u8>, usize),
}

fn complete(r: &mut Rng, set: &dyn DynSet) -> Vec<u8> {
    let mut b = any_framed(r, set);
    let n = usize::from(u16::from_be_bytes([b[2], b[3]])) & 0xfff;
    b[2..4].copy_from_slice(&(n as u16).to_be_bytes());
    b.resize(20 + n, 0);
    b
}
fn past(r: &mut Rng, set: &dyn DynSet, mood: Option<usize>) -> Past {
    let b = complete(r, set);
    match mood.unwrap_or_else(|| r.below(10)) {
        0..=4 => Past::Whole(b),
        20 => {
            // broken whatever the set: an attribute that overruns the message
            let mut b = b;
            b.extend_from_slice(&[0xE0, 1, 0, 9]);
            let n = b.len() - 20;
            b[2..4].copy_from_slice(&(n as u16).to_be_bytes());
            Past::Whole(b)
        }
        5 => {
            let mut b = b;
            if r.bool() {
                b[0] |= 0x40 << r.below(2);
            }
            if r.bool() || b[0] >> 6 == 0 {
                b[4 + r.below(4)] ^= 1 << r.below(8);
            }
            Past::BadHeader(b)
        }
        6 | 7 => {
            let n = 1 + r.below(b.len() - 1);
            Past::Truncated(b, n)
        }
        _ => {
            let n = 20 + r.below(b.len() - 19);
            Past::Early(b, n)
        }
    }
}
/// Puts the decoder through one episode. `false`: it is left in the middle of a message and
/// cannot be expected to start afresh.
fn live(r: &mut Rng, dec: &mut dyn DynDecoder, p: &Past) -> bool {
    match p {
        Past::Whole(b) | Past::BadHeader(b) => {
            let cut = gen::cut(r, b.len());
            let mode = any_mode(r);
            !matches!(feed(dec, b, &cut, mode).out, Out::More)
        }
        Past::Truncated(b, n) => {
            let cut = gen::cut(r, *n);
            // the end is announced with the last piece that arrives
            !matches!(feed(dec, &b[..*n], &cut, Mode::AtEnd).out, Out::More)
        }
        Past::Early(b, n) => {
            let n = *n;
            let cut = gen::cut(r, n);
            let mode = if r.bool() { Mode::Open } else { Mode::Exact };
            let mut off = 0;
            let mut i = 0;
            while off < n {
                let k = cut.size(i).min(n - off);
                i += 1;
                match dec.decode(&b[off..off + k], eos(mode, b.len() - off - k)) {
                    Err(_) => return true,
                    Ok(t) if t == 0 && k > 0 => return false,
                    Ok(t) => off += t.min(k),
                }
            }
            let _ = dec.finish();
            true
        }
    }
}
/// The next message through both.
fn side_by_side(c: &mut Case, set: &dyn DynSet, used: &mut dyn DynDecoder, b: &[u8]) -> Chk {
    let mut fresh = set.decoder();
    if used.req().to_u64() != fresh.req().to_u64() {
        return Err(Fail::new("a reused decoder requires other sizes than a fresh one")
            .with(format!("reused {:?}, fresh {:?}", used.req(), fresh.req())));
    }
    ensure_eq!(used.idle(), fresh.idle(), "a reused decoder is idle and a fresh one is not, or the other way round");
    let cut = gen::cut(&mut c.r, b.len());
    let mode = any_mode(&mut c.r);
    let f = feed(used, b, &cut, mode);
    let g = feed(&mut *fresh, b, &cut, mode);
    let kind = |o: &Out| match o {
        Out::Broken(b) => Some(b.kind),
        Out::Reject(k) | Out::FinishErr(k) => Some(*k),
        _ => None,
    };
    let same = f.out.essence() == g.out.essence()
        && kind(&f.out) == kind(&g.out)
        && f.consumed == g.consumed
        && f.steps.len() == g.steps.len()
        && f.steps.iter().zip(&g.steps).all(|(a, b)| (a.consumed, a.idle, a.req) == (b.consumed, b.idle, b.req));
    if !same {
        return Err(Fail::new("a reused decoder does not behave like a fresh one").with(format!(
            "reused: {} after {} bytes\nfresh: {} after {} bytes\nsplitting {:?} {:?}\nnext {}",
            clip(&f.out.show()),
            f.consumed,
            clip(&g.out.show()),
            g.consumed,
            cut,
            mode,
            show_bytes(set, b)
        )));
    }
    // and integrity attributes answer the same
    if let (Out::Valid(a), Out::Valid(b)) = (&f.out, &g.out) {
        let cred = Cred::Short("swordfish".into());
        for (x, y) in a.mis().iter().zip(b.mis().iter()) {
            ensure_eq!(cred.check(x), cred.check(y), "MESSAGE-INTEGRITY from a reused decoder answers differently");
        }
        let (x, y) = (encode_all(set, &**a), encode_all(set, &**b));
        ensure!(x == y, "a message from a reused decoder is encoded differently");
    }
    c.count(f.out.name(), 1);
    Ok(())
}

fn histories(c: &mut Case) -> Chk {
    let set = any_set(&mut c.r);
    let mut dec = set.decoder();
    let n = c.r.mostly(1, 6);
    // more of the same
    let mood = if n > 6 && c.r.chance(2, 3) { Some(*c.r.pick(&[0, 0, 5, 6, 8, 20, 20])) } else { None };
    let mut done: Vec<Past> = Vec::new();
    let mut h = 0;
    for _ in 0..n {
        let p = past(&mut c.r, set, mood);
        let ok = live(&mut c.r, &mut *dec, &p);
        c.count(
            match &p {
                Past::Whole(_) => "past: complete message",
                Past::BadHeader(_) => "past: rejected header",
                Past::Truncated(..) => "past: truncated stream",
                Past::Early(..) => "past: asked too early",
            },
            1,
        );
        h = mix(h ^ hash_dbg(&p));
        done.push(p);
        if !ok {
            c.count("left unfinished", 1);
            dec = set.decoder();
            done.clear();
            continue;
        }
        if mood.is_some() && c.r.chance(29, 30) {
            continue;
        }
        let b = complete(&mut c.r, set);
        side_by_side(c, set, &mut *dec, &b).detail(|| {
            let v: Vec<String> = done
                .iter()
                .skip(done.len().saturating_sub(12))
                .map(|p| match p {
                    Past::Whole(b) => format!("whole {}", hex(b)),
                    Past::BadHeader(b) => format!("wrong header {}", hex(b)),
                    Past::Truncated(b, n) => format!("first {} bytes then end of stream: {}", n, hex(b)),
                    Past::Early(b, n) => format!("finished after {} bytes: {}", n, hex(b)),
                })
                .collect();
            format!("history of {}, latest last:\n{}", done.len(), v.join("\n"))
        })?;
        c.eval(Some(h ^ hash_bytes(&b)));
        done.push(Past::Whole(b));
    }
    c.sample(|| format!("{:?}", done));
    Ok(())
}

/// Very many small messages through one decoder, of one kind.
fn marathons(c: &mut Case) -> Chk {
    let set = if c.idx % 2 == 0 { all_set() } else { any_set(&mut c.r) };
    let mut dec = set.decoder();
    let tid = c.r.tid();
    let mut empty = header(0, 1, &tid, 0);
    let with = {
        let mut b = header(1, 2, &tid, 0);
        push_tlv(&mut b, 0x7e57, &[1, 2, 3], &[]);
        push_tlv(&mut b, 0x8022, b"x", &[]);
        set_len(&mut b);
        b
    };
    let auth = Image { class: 0, method: 1, tid, items: vec![Item::Mi(Cred::Short("swordfish".into())), Item::Fp] }.bytes();
    let broken = {
        let mut b = header(1, 2, &tid, 0);
        b.extend_from_slice(&[0xe0, 1, 0, 9]);
        set_len(&mut b);
        b
    };
    let mut wrong = empty.clone();
    wrong[4] ^= 0x80;
    let total = 66_000;
    let mut h = 0;
    // what a fresh decoder makes of each kind, whole and byte by byte
    let mode_of = |kind: u64| if kind == 5 { Mode::AtEnd } else { Mode::Open };
    let mut want: Vec<[Essence; 2]> = [&empty[..], &with, &auth, &broken, &wrong, &with[..22]]
        .iter()
        .enumerate()
        .map(|(k, b)| [Cut::All, Cut::Fixed(1)].map(|cut| feed(&mut *set.decoder(), b, &cut, mode_of(k as u64)).out.essence()))
        .collect();
    for n in 0..total {
        let kind = match c.idx / 2 {
            k @ 0..=5 => k,
            _ => c.r.below(6) as u64,
        };
        // now and then, and around powers of two, beside a fresh decoder
        let near = (4..17).any(|k| (n as i64 - (1 << k)).abs() < 3);
        if near || n % 1_000 == 999 {
            let b = match c.r.below(4) {
                0 => with.clone(),
                1 => auth.clone(),
                _ => complete(&mut c.r, set),
            };
            side_by_side(c, set, &mut *dec, &b).detail(|| format!("after {} messages, kind {}", n, kind))?;
            h = mix(h ^ hash_bytes(&b));
            c.eval(Some(h));
        }
        empty[8] = n as u8;
        let b: &[u8] = match kind {
            0 => &empty,
            1 => &with,
            2 => &auth,
            3 => &broken,
            4 => &wrong,
            _ => &with[..22],
        };
        let cut = if n % 7 == 0 { Cut::Fixed(1) } else { Cut::All };
        let f = feed(&mut *dec, b, &cut, mode_of(kind));
        let want = &mut want[kind as usize][usize::from(n % 7 == 0)];
        if kind == 0 {
            match want {
                Essence::Valid(s) => s.tid[0] = n as u8,
                Essence::Broken(_, _, t) => t[0] = n as u8,
                _ => {}
            }
        }
        let got = f.out.essence();
        ensure!(got == *want, "after {} messages, a reused decoder gives {:?}, a fresh one {:?} for {}", n, got, want, show_bytes(set, b));
        if matches!(f.out, Out::More) {
            dec = set.decoder();
        }
    }
    c.count("messages in marathons", total as u64);
    Ok(())
}

/// Tens of megabytes through one decoder.
fn bulk(c: &mut Case) -> Chk {
    let set = if c.idx < 4 { all_set() } else { any_set(&mut c.r) };
    let mut dec = set.decoder();
    let mut h = 0;
    for n in 0..400 {
        let mut b = header(c.r.below(4) as u8, 1, &c.r.tid(), 0);
        let len = if c.idx % 4 == 0 { 65_528 } else { c.r.below(65_500) };
        let v = c.r.bytes(len);
        push_tlv(&mut b, *c.r.pick(&[0x0013u16, 0x8055, 0x7e57]), &v, &[]);
        set_len(&mut b);
        if c.idx % 4 == 1 && n % 5 == 0 {
            // the length runs over the end
            b[22] ^= 0x80;
        }
        side_by_side(c, set, &mut *dec, &b).detail(|| format!("after {} large messages", n))?;
        h = mix(h ^ hash_bytes(&b));
        c.eval(Some(h));
        c.count("bytes in bulk", b.len() as u64);
    }
    Ok(())
}

/// Long messages then short ones and the other way round, of every outcome.
fn pairs(c: &mut Case) -> Chk {
    let set = any_set(&mut c.r);
    let mut dec = set.decoder();
    let mut msgs: Vec<Vec<u8>> = (0..4)
        .map(|_| {
            let o = *c.r.pick(&[gen::VALID, gen::VALID_RES, gen::MESSY]);
            gen::image(&mut c.r, set, o).bytes()
        })
        .collect();
    msgs.push(header(1, 0xfff, &[0xff; 12], 0));
    let mut h = 0;
    for _ in 0..6 {
        let b = c.r.pick(&msgs).clone();
        side_by_side(c, set, &mut *dec, &b)?;
        h = mix(h ^ hash_bytes(&b));
        c.eval(Some(h));
    }
    Ok(())
}

/// Wrong and right fingerprints and integrity attributes in turn.
fn auth(c: &mut Case) -> Chk {
    let set = *c.r.pick(&auth_sets());
    let mut dec = set.decoder();
    let mut h = 0;
    for _ in 0..5 {
        let o = gen::ImgOpt { auth: 40, ..gen::VALID };
        let mut b = gen::image(&mut c.r, set, o).bytes();
        if c.r.bool() && b.len() > 20 {
            let i = 20 + c.r.below(b.len() - 20);
            b[i] ^= 1 << c.r.below(8);
        }
        side_by_side(c, set, &mut *dec, &b)?;
        h = mix(h ^ hash_bytes(&b));
        c.eval(Some(h));
    }
    Ok(())
}

/// Very many values through one value decoder.
fn value_marathons(c: &mut Case) -> Chk {
    let vc = val_codec(c.idx);
    let (ty, name) = (vc.ty, &vc.name);
    let mut d = (vc.decoder)();
    let vals: Vec<(Vec<u8>, R<Val>)> = (0..8)
        .map(|_| {
            let v = gen::val(&mut c.r, ty, &[0; 12]);
            let b = enc_value(ty, &v, None);
            let mut f = (vc.decoder)();
            let r = f.decode(&b, Eos::new(true)).and_then(|_| f.finish());
            (b, r)
        })
        .filter(|x| x.0.len() < 2_000)
        .collect();
    for n in 0..66_000usize {
        let Some((b, want)) = vals.get(n % vals.len().max(1)) else { return Ok(()) };
        let k = d.decode(b, Eos::new(true));
        let r = k.and_then(|_| d.finish());
        if r != *want {
            return Err(Fail::new(format!("a reused {} decoder does not behave like a fresh one after {} values", name, n))
                .with(format!("reused {:?}\nfresh {:?}\nbytes {}", r, want, hex(b))));
        }
    }
    c.eval(Some(hash_bytes(name.as_bytes()) ^ hash_dbg(&vals)));
    c.count("values in marathons", 66_000);
    Ok(())
}
/// Standalone value decoders, used again after a value.
fn values(c: &mut Case) -> Chk {
    let vc = val_codec(c.idx);
    let (ty, name, make) = (vc.ty, &vc.name, &vc.decoder);
    let mut used = make();
    let mut past = vec![];
    for _ in 0..c.r.mostly(2, 4) {
        let v = gen::val(&mut c.r, ty, &[0; 12]);
        let b = enc_value(ty, &v, None);
        let mut fresh = make();
        ensure_eq!(used.req(), fresh.req(), "a reused {} decoder requires other sizes than a fresh one", name);
        let run = |d: &mut dyn ValDecoder| -> R<(usize, bool, Val)> {
            let n = d.decode(&b, Eos::new(true))?;
            let idle = d.idle();
            Ok((n, idle, d.finish()?))
        };
        let (x, y) = (run(&mut *used), run(&mut *fresh));
        c.eval(Some(hash_bytes(&b) ^ hash_bytes(name.as_bytes())));
        if x != y {
            return Err(Fail::new(format!("a reused {} decoder does not behave like a fresh one", name))
                .with(format!("reused {:?}\nfresh {:?}\nbytes {}\nbefore: {:?}", x, y, hex(&b), past)));
        }
        past.push(hex(&b));
    }
    Ok(())
}
