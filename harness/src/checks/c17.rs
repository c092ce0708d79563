//! Memory: who drops what, how often. Run as they are, under AddressSanitizer and under Miri.
use super::util::*;
use crate::alloc;
use crate::probe::{self, Act, Census, Mixed, PSet, Point, PA};
use bytecodec::{Decode, Encode, EncodeExt, SizedEncode};
use std::panic::{catch_unwind, AssertUnwindSafe};
use stun_codec::{Message, MessageDecoder, MessageEncoder, Method, TransactionId};

pub fn check() -> Check {
    Check {
        id: "C17",
        rule: "one history of a codec (bytes in pieces, messages built, cloned, changed, forwarded, abandoned) with attribute hooks and user codecs that succeed, fail or panic where scripted; every value made is accounted for at the end; non-trivial if at least one accounted value or message was made",
        suites: vec![
            random("decode", 400_000, 10_000_000, decode),
            random("encode", 400_000, 10_000_000, encode),
            random("points", 200_000, 4_000_000, points),
            random("life", 200_000, 6_000_000, life),
            random("shipped", 150_000, 5_000_000, shipped),
            random("clones", 120_000, 4_000_000, clones),
        ],
        assumptions: &[
            "invalid accesses that change neither results nor the accounting are seen by the AddressSanitizer and Miri stages only",
            "after a panic of user code values may stay undropped, but nothing may be dropped twice",
        ],
    }
}

const POINTS: [Point; 8] =
    [Point::Before, Point::After, Point::TryStart, Point::Decode, Point::Finish, Point::StartEnc, Point::Encode, Point::Clone];

/// Script with a few failures and panics.
fn script(r: &mut Rng, panics: bool) -> Vec<(Point, usize, Act)> {
    let mut v = vec![];
    for _ in 0..r.below(4) {
        let p = *r.pick(&POINTS);
        let a = if panics && r.bool() {
            Act::Panic
        } else if matches!(p, Point::Before | Point::After) && r.bool() {
            let n = r.below(9);
            Act::Set(r.bytes(n))
        } else {
            Act::Fail
        };
        // clones cannot fail otherwise
        let a = if p == Point::Clone && a != Act::Panic { continue } else { a };
        v.push((p, r.below(8), a));
    }
    v
}

fn wire(r: &mut Rng) -> Vec<u8> {
    let tid = r.tid();
    let mut w = header(r.below(4) as u8, gen::method(r), &tid, 0);
    for _ in 0..r.below(8) {
        match r.below(8) {
            0 => {
                let v = r.bytes(3);
                push_tlv(&mut w, 0x4001, &v, &[1]);
            }
            1 => push_tlv(&mut w, 0x0006, b"user", &[]),
            2 => {
                let v = r.bytes(20);
                push_tlv(&mut w, T_MI, &v, &[]);
            }
            3 => {
                let v = if r.chance(1, 6) { 7 } else { ref_fp(&w) };
                push_tlv(&mut w, T_FP, &v.to_be_bytes(), &[]);
            }
            _ => {
                let n = r.below(9);
                let v = r.bytes(n);
                let ty = *r.pick(&[0x4100, 0x4100, 0x4200, 0xC101, 0xC102]);
                push_tlv(&mut w, ty, &v, &[7, 8, 9]);
            }
        }
    }
    set_len(&mut w);
    w
}

fn sound<S: PSet>(m: &Message<S>) -> Chk {
    for a in m.attributes() {
        ensure!(a.sound(), "a value of the message has already been dropped or overwritten");
    }
    for u in m.unknown_attributes() {
        ensure!(u.value().len() < 0x1_0000, "an unknown attribute of the message is damaged");
    }
    Ok(())
}

/// What is left when everything has gone out of scope.
fn settle(c: &mut Case, panicked: bool) -> Chk {
    let Census { made, live, bad_drops } = probe::census();
    ensure!(bad_drops == 0, "{} drops of values that were not alive ({} made)", bad_drops, made);
    if !panicked {
        ensure!(live == 0, "{} of {} values are never dropped", live, made);
    } else if live > 0 {
        c.count("values left undropped by panics of user code", live as u64);
    }
    c.count("values accounted for", made);
    Ok(())
}

/// Runs `f`; true if user code panicked as scripted. Other panics go on.
fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, ()> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(t) => Ok(t),
        Err(p) => {
            if p.downcast_ref::<&str>() == Some(&"scripted") {
                Err(())
            } else {
                std::panic::resume_unwind(p)
            }
        }
    }
}

fn decode(c: &mut Case) -> Chk {
    if c.idx % 2 == 0 {
        decode_in::<PA>(c)
    } else {
        decode_in::<Mixed>(c)
    }
}
/// A decoder and several messages, in pieces, some abandoned; it is used on after failures and panics.
fn decode_in<S: PSet>(c: &mut Case) -> Chk {
    let panics = c.r.bool();
    let s = script(&mut c.r, panics);
    probe::reset(&s);
    probe::look(c.r.chance(1, 4));
    let mut kept: Vec<Message<S>> = vec![];
    let mut panicked = false;
    let n = c.r.range(1, 3);
    let mut h = 0;
    let r = (|| {
        let mut d = MessageDecoder::<S>::new();
        for _ in 0..n {
            let mut w = wire(&mut c.r);
            if c.r.chance(1, 8) {
                gen::mutate(&mut c.r, &mut w);
            }
            h ^= hash_bytes(&w);
            let stop = if c.r.chance(1, 4) { c.r.below(w.len() + 1) } else { w.len() };
            let cut = gen::cut(&mut c.r, stop);
            let (mut off, mut i) = (0, 0);
            while off < stop && i < 3000 && !d.is_idle() {
                let n = cut.size(i).min(stop - off);
                i += 1;
                match guarded(|| d.decode(&w[off..off + n], Eos::new(off + n == stop && stop == w.len()))) {
                    Ok(Ok(k)) => off += k,
                    Ok(Err(_)) => break,
                    Err(()) => {
                        panicked = true;
                        break;
                    }
                }
            }
            if c.r.chance(7, 8) {
                match guarded(|| d.finish_decoding()) {
                    Ok(Ok(Ok(m))) => {
                        sound(&m)?;
                        c.count("messages delivered", 1);
                        kept.push(m)
                    }
                    Ok(Ok(Err(_))) => c.count("broken messages", 1),
                    Ok(Err(_)) => c.count("refused or unfinished", 1),
                    Err(()) => panicked = true,
                }
            }
            if c.r.chance(1, 3) {
                d = MessageDecoder::new();
            }
        }
        for m in &kept {
            sound(m)?;
        }
        if let (Some(m), true) = (kept.last(), c.r.bool()) {
            match guarded(|| m.clone()) {
                Ok(x) => {
                    sound(&x)?;
                    kept.push(x)
                }
                Err(()) => panicked = true,
            }
        }
        Ok(())
    })();
    kept.clear();
    probe::look(true);
    r?;
    c.eval((probe::census().made > 0).then(|| h ^ hash_dbg(&s)));
    c.sample(|| format!("{} {:?}", S::NAME, s));
    c.count("histories with a panic of user code", panicked as u64);
    settle(c, panicked).detail(|| format!("set {}, script {:?}, {} messages decoded", S::NAME, s, n))
}

fn build_probes<S: PSet>(r: &mut Rng) -> Message<S> {
    let mut m = Message::<S>::new(class_of(r.u8()), Method::from(1), TransactionId::new(r.tid()));
    for _ in 0..r.below(7) {
        let ty = *r.pick(&[0x4100, 0x4200, 0xC101, 0xC102]);
        let n = r.below(9);
        let v = r.bytes(n);
        match S::probe(ty, v) {
            Some(a) => m.add_attribute(a),
            None => {
                if let Some(a) = S::shipped(0x0006, &Val::Text("u".into())) {
                    m.add_attribute(a)
                }
            }
        }
    }
    m
}

fn encode(c: &mut Case) -> Chk {
    if c.idx % 2 == 0 {
        encode_in::<PA>(c)
    } else {
        encode_in::<Mixed>(c)
    }
}
fn encode_in<S: PSet>(c: &mut Case) -> Chk {
    let panics = c.r.bool();
    let s = script(&mut c.r, panics);
    probe::reset(&s);
    probe::look(c.r.chance(1, 4));
    let mut panicked = false;
    let mut h = 0;
    let r = (|| {
        let mut e = MessageEncoder::<S>::new();
        let mut spare = None;
        for _ in 0..c.r.range(1, 4) {
            let m = build_probes::<S>(&mut c.r);
            h = mix(h ^ hash_dbg(&m.attributes().map(|a| a.probe_value().map(|v| v.to_vec())).collect::<Vec<_>>()));
            sound(&m)?;
            if c.r.chance(1, 3) {
                match guarded(|| m.clone()) {
                    Ok(x) => spare = Some(x),
                    Err(()) => panicked = true,
                }
            }
            // possibly while another message is in progress
            match guarded(|| e.start_encoding(m)) {
                Ok(Ok(())) => c.count("encodings started", 1),
                Ok(Err(_)) => c.count("encodings refused", 1),
                Err(()) => panicked = true,
            }
            let mut steps = if c.r.chance(1, 3) { c.r.below(5) } else { 2000 };
            while steps > 0 && !e.is_idle() {
                steps -= 1;
                let mut b = vec![0; c.r.below(12)];
                match guarded(|| e.encode(&mut b, Eos::new(false))) {
                    Ok(Ok(_)) => {}
                    Ok(Err(_)) => break,
                    Err(()) => {
                        panicked = true;
                        break;
                    }
                }
            }
            let _ = e.exact_requiring_bytes();
            if c.r.chance(1, 4) {
                e = MessageEncoder::new();
            }
            if let Some(m) = &spare {
                sound(m)?;
            }
        }
        if let Some(m) = spare {
            match guarded(|| MessageEncoder::<S>::new().encode_into_bytes(m)) {
                Ok(_) => {}
                Err(()) => panicked = true,
            }
        }
        Ok(())
    })();
    probe::look(true);
    r?;
    c.eval((probe::census().made > 0).then(|| h ^ hash_dbg(&s)));
    c.sample(|| format!("{} {:?}", S::NAME, s));
    c.count("histories with a panic of user code", panicked as u64);
    settle(c, panicked).detail(|| format!("set {}, script {:?}", S::NAME, s))
}

/// One failure or panic at each point of one message, from the first to the last.
fn points(c: &mut Case) -> Chk {
    let p = POINTS[(c.idx % 8) as usize];
    let n = (c.idx / 8 % 8) as usize;
    let act = if p == Point::Clone || c.idx / 64 % 2 == 0 { Act::Panic } else { Act::Fail };
    let s = vec![(p, n, act.clone())];
    probe::reset(&s);
    probe::look(c.r.bool());
    let mut panicked = false;
    let mut w = header(0, 1, &[4; 12], 0);
    for i in 0..c.r.range(1, 8) {
        let v = c.r.bytes(i % 5);
        let ty = *c.r.pick(&[0x4100, 0x4200, 0xC101, 0x4001, 0xC102]);
        push_tlv(&mut w, ty, &v, &[]);
    }
    set_len(&mut w);
    c.eval(Some(hash_bytes(&w) ^ hash_dbg(&s)));
    let (mut hit, mut delivered, mut refused) = (0, None, false);
    let r = (|| {
        let mut d = MessageDecoder::<Mixed>::new();
        let decoded = guarded(|| {
            let k = d.decode(&w, Eos::new(true))?;
            debug_assert!(k <= w.len());
            d.finish_decoding()
        });
        match decoded {
            Ok(Ok(Ok(m))) => {
                sound(&m)?;
                delivered = Some(m);
            }
            Ok(_) => {}
            Err(()) => panicked = true,
        }
        if delivered.is_none() {
            // the same decoder, now without failures
            hit = probe::reached(p);
            probe::rescript(&[]);
            match d.decode(&w, Eos::new(true)).and_then(|_| d.finish_decoding()) {
                Ok(Ok(m)) => {
                    sound(&m)?;
                    delivered = Some(m);
                }
                _ if panicked => {}
                Ok(Err(b)) => fail!("after a failure the decoder delivers a sound message as broken ({:?})", b.error().kind()),
                Err(x) => fail!("after a failure the decoder refuses a sound message ({:?})", x.kind()),
            }
            probe::rescript(&s);
        }
        if let Some(m) = delivered.take() {
            let mut e = MessageEncoder::<Mixed>::new();
            match guarded(|| m.clone()) {
                Ok(m) => match guarded(|| e.encode_into_bytes(m)) {
                    Ok(r) => refused = r.is_err(),
                    Err(()) => panicked = true,
                },
                Err(()) => panicked = true,
            }
            sound(&m)?;
            hit = hit.max(probe::reached(p));
            probe::rescript(&[]);
            let again = guarded(|| e.encode_into_bytes(m));
            match again {
                Ok(Ok(b)) => ensure!(b == w || panicked, "after a failure the message is sent as {} instead of {}", hex(&b), hex(&w)),
                Ok(Err(x)) => ensure!(panicked, "after a failure the encoder refuses a sound message ({:?})", x.kind()),
                Err(()) => fail!("harness: unscripted panic"),
            }
        }
        Ok(())
    })();
    probe::look(true);
    r.detail(|| format!("script {:?}, message {}", s, hex(&w)))?;
    if hit > n {
        c.count(&format!("{} at {:?}", if act == Act::Panic { "panic" } else { "failure" }, p), 1);
    }
    c.count("encodings refused", refused as u64);
    settle(c, panicked).detail(|| format!("script {:?}, message {}", s, hex(&w)))
}

/// A pool of messages and codecs; steps at random.
fn life(c: &mut Case) -> Chk {
    probe::reset(&[]);
    probe::look(c.r.chance(1, 8));
    let mut pool: Vec<(Message<Mixed>, Vec<u8>)> = vec![];
    let mut d = MessageDecoder::<Mixed>::new();
    let mut e = MessageEncoder::<Mixed>::new();
    let steps = c.r.range(3, 25);
    let mut log = vec![];
    let see = |m: &Message<Mixed>| {
        let mut v = vec![];
        for a in m.attributes() {
            v.extend_from_slice(&a_type(a).to_be_bytes());
            v.extend_from_slice(a.probe_value().unwrap_or(&[]));
            v.push(0xfe);
        }
        for u in m.unknown_attributes() {
            v.extend_from_slice(u.value());
            v.push(0xfd);
        }
        v
    };
    let r = (|| {
        for _ in 0..steps {
            let op = c.r.below(9);
            log.push(op);
            match op {
                0 | 1 => {
                    let w = wire(&mut c.r);
                    let half = if c.r.chance(1, 4) { c.r.below(w.len()) } else { w.len() };
                    if d.is_idle() || c.r.bool() {
                        d = MessageDecoder::new();
                    }
                    if d.decode(&w[..half], Eos::new(false)).is_ok() && d.is_idle() {
                        if let Ok(Ok(m)) = d.finish_decoding() {
                            let s = see(&m);
                            pool.push((m, s));
                        }
                    }
                }
                2 => {
                    let m = build_probes::<Mixed>(&mut c.r);
                    let s = see(&m);
                    pool.push((m, s));
                }
                3 | 4 if !pool.is_empty() => {
                    let i = c.r.below(pool.len());
                    let m = pool[i].0.clone();
                    let s = pool[i].1.clone();
                    pool.push((m, s));
                }
                5 if !pool.is_empty() => {
                    let i = c.r.below(pool.len());
                    let v = c.r.bytes(3);
                    pool[i].0.add_attribute(Mixed::probe(0x4200, v).unwrap());
                    let s = see(&pool[i].0);
                    pool[i].1 = s;
                }
                6 if !pool.is_empty() => {
                    let i = c.r.below(pool.len());
                    pool.swap_remove(i);
                }
                7 if !pool.is_empty() => {
                    let i = c.r.below(pool.len());
                    let m = pool.swap_remove(i).0;
                    let _ = e.start_encoding(m);
                }
                8 => {
                    let mut b = [0; 40];
                    let n = c.r.below(40);
                    let _ = e.encode(&mut b[..n], Eos::new(false));
                }
                _ => {}
            }
            for (i, (m, s)) in pool.iter().enumerate() {
                sound(m)?;
                ensure!(see(m) == *s, "message {} of the pool changes by an operation on something else", i);
            }
        }
        Ok(())
    })();
    let n = pool.len();
    drop(pool);
    drop((d, e));
    probe::look(true);
    r.detail(|| format!("operations {:?}", log))?;
    let h = c.r.u64();
    c.eval((probe::census().made > 0).then_some(h));
    c.count("operations", log.len() as u64);
    c.max("messages alive at once", n as u64);
    settle(c, false).detail(|| format!("operations {:?}", log))
}
fn a_type(a: &Mixed) -> u16 {
    stun_codec::Attribute::get_type(a).as_u16()
}

/// Shipped sets: all memory is given back, whatever the input.
fn shipped(c: &mut Case) -> Chk {
    let set = any_set(&mut c.r);
    let n = c.r.range(1, 3);
    let seed = c.r.u64();
    let mut counts = (0, 0);
    // once to warm up whatever is allocated once, once to measure
    let mut cost = None;
    let mut r = Ok(());
    for _ in 0..3 {
        counts = (0, 0);
        let mut rr = Rng::new(seed);
        let mark = alloc::mark();
        r = shipped_once(&mut rr, set, n, &mut counts);
        let k = alloc::since(mark);
        let clean = r.is_ok() && k.retained == 0;
        cost = Some(k);
        if clean || r.is_err() {
            break;
        }
    }
    r.detail(|| format!("set {}", set.name()))?;
    let cost = cost.expect("ran");
    c.eval(Some(seed));
    c.count("messages delivered", counts.0);
    c.count("messages encoded", counts.1);
    ensure!(cost.retained == 0, "{} bytes are never freed (set {}, {} bytes allocated)", cost.retained, set.name(), cost.total);
    Ok(())
}
fn shipped_once(r: &mut Rng, set: &dyn DynSet, n: usize, counts: &mut (u64, u64)) -> Chk {
    let mut d = set.decoder();
    let mut e = set.encoder();
    let mut pool = vec![];
    for _ in 0..n {
        let b = any_input(r, set);
        let cut = gen::cut(r, b.len());
        let mode = any_mode(r);
        let f = feed(&mut *d, &b, &cut, mode);
        if let Out::Valid(m) = f.out {
            counts.0 += 1;
            pool.push(m);
        }
        if r.bool() {
            let p = auth_plan(r, set);
            pool.push(p.build(set)?);
        }
        if let (Some(m), true) = (pool.last(), r.bool()) {
            let m = m.clone_box();
            let _ = m.new_fp();
            let _ = m.new_mi(&Cred::Short("x".into()));
            for mi in m.mis() {
                let _ = Cred::Short("x".into()).check(&mi);
            }
            pool.push(m);
        }
        if !pool.is_empty() && r.bool() {
            let i = r.below(pool.len());
            let m = pool.swap_remove(i);
            if e.start(m).is_ok() {
                counts.1 += 1;
            }
            let steps = r.below(30);
            for _ in 0..steps {
                let mut b = [0; 64];
                let n = r.below(64);
                let _ = e.encode(&mut b[..n], Eos::new(false));
            }
        }
        if r.chance(1, 3) {
            d = set.decoder();
        }
    }
    Ok(())
}

/// Copies share nothing that can be observed.
fn clones(c: &mut Case) -> Chk {
    let set = any_set(&mut c.r);
    let m = if c.r.bool() {
        let p = auth_plan(&mut c.r, set);
        p.build(set)?
    } else {
        let b = gen::image(&mut c.r, set, gen::VALID).bytes();
        match decode_all(set, &b).out {
            Out::Valid(m) => m,
            _ => {
                c.count("skipped: not a valid message", 1);
                return Ok(());
            }
        }
    };
    let snap = m.snap();
    let wire = encode_all(set, &*m).ok();
    c.eval(Some(hash_snap(&snap)));
    let mut copies = vec![m.clone_box(), m.clone_box()];
    let show = || format!("set {}, message {}", set.name(), clip(&format!("{:?}", snap)));
    // change one copy
    let types = set.types();
    if !set.knows().raw {
        let ty = *c.r.pick(&types);
        let v = gen::val(&mut c.r, ty, &snap.tid);
        if !copies[0].add(ty, &v) {
            return Err(refused(ty, &v));
        }
        let s = copies[0].snap();
        ensure!(s.known.len() == snap.known.len() + 1 && s.known[..snap.known.len()] == snap.known[..] && s.known.last() == Some(&(ty, v)), "the extended copy is {:?}, {}", s, show());
    }
    ensure!(m.snap() == snap, "the original changes with its copy, {}", show());
    ensure!(copies[1].snap() == snap, "a copy changes with another, {}", show());
    // use one up
    let used = copies.remove(0);
    let _ = set.encoder().all(used);
    ensure!(m.snap() == snap && copies[0].snap() == snap, "encoding one copy changes the others, {}", show());
    // verify on one
    for mi in copies[0].mis() {
        let _ = Cred::Short("a".into()).check(&mi);
        let _ = Cred::Long { user: "u".into(), realm: "r".into(), password: "p".into() }.check(&mi);
    }
    ensure!(m.snap() == snap && copies[0].snap() == snap, "verifying one copy changes the others, {}", show());
    // the original goes, the copy stays
    drop(m);
    let last = copies.remove(0);
    ensure!(last.snap() == snap, "the copy changes when the original is dropped, {}", show());
    ensure!(encode_all(set, &*last).ok() == wire, "the copy is sent differently when the original is gone, {}", show());
    Ok(())
}
