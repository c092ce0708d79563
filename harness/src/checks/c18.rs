//! Cost: allocations of every decode and encode are counted by the allocator and compared with
//! the bytes handled; the time of long messages is compared with that of shorter ones.
use super::util::*;
use crate::alloc::{self, Cost};

pub fn check() -> Check {
    Check {
        id: "C18",
        rule: "one message decoded or encoded (sound, malformed, truncated, flooded with attributes, in pieces, at once) under the counting allocator, whose bytes allocated, peak and bytes retained were compared with the bound; non-trivial if at least one byte was handled",
        suites: vec![
            random("decode", 300_000, 8_000_000, decode),
            random("announced", 150_000, 4_000_000, announced),
            random("floods", 6_000, 150_000, floods),
            random("integrity floods", 400, 8_000, auth_floods),
            random("streams", 4_000, 100_000, streams),
            random("values", 100_000, 3_000_000, values),
            random("encode", 150_000, 4_000_000, encode),
            random("big encodings", 3_000, 60_000, big_encode),
            sweep("time", 48, time),
        ],
        assumptions: &[
            "bounds: at most FIXED + SLOPE x bytes handled x (1 + integrity and fingerprint attributes) bytes allocated, with the constants of src/checks/c18.rs (about twice the largest ratio of the current tree, which is that of floods of empty attributes)",
            "time is the CPU time of the thread; a message eight times as long may take thirty times as long",
        ],
    }
}

/// Bytes allocated for errors and boxes, whatever the message.
const FIXED: u64 = 12 << 10;
/// Bytes allocated per byte handled. The worst is a flood of attributes without value: each costs
/// four bytes on the wire and an element of a growing vector.
const SLOPE: u64 = 130;
/// The same for encoding, and for creating integrity attributes.
const SLOPE_ENCODING: u64 = 48;
const SLOPE_CREATING: u64 = 80;
/// Left in a codec between messages.
const REST: i64 = 1024;

fn within(c: &mut Case, what: &str, k: &Cost, handled: usize, auth: u64) -> Chk {
    within_extra(c, what, k, handled, auth, 0)
}
/// `ahead`: announced length of the value being received, for which one buffer may be made.
fn within_extra(c: &mut Case, what: &str, k: &Cost, handled: usize, auth: u64, ahead: u64) -> Chk {
    let slope = match what.split(' ').next() {
        Some("encoding") => SLOPE_ENCODING,
        Some("creating") => SLOPE_CREATING,
        _ => SLOPE,
    };
    let lim = (FIXED + slope * handled as u64) * (1 + auth) + ahead;
    if handled > 4000 {
        c.max(&format!("{}: bytes allocated per byte handled, by long messages", what), k.total / (1 + auth) / handled as u64);
        c.max(&format!("{}: bytes of the peak per byte handled, by long messages", what), k.peak / handled as u64);
    } else if handled < 24 {
        c.max(&format!("{}: bytes allocated for fewer than 24 and the value announced", what), k.total.saturating_sub(ahead));
    }
    ensure!(k.total <= lim, "{}: {} bytes allocated for {} bytes handled ({} integrity attributes); the bound is {}", what, k.total, handled, auth, lim);
    // what is alive at once does not add up over the integrity attributes
    let lim = FIXED + slope * handled as u64 + (handled as u64 + 64) * auth + ahead;
    ensure!(k.peak <= lim, "{}: {} bytes allocated at once for {} bytes handled ({} integrity attributes); the bound is {}", what, k.peak, handled, auth, lim);
    Ok(())
}

/// Feeds without allocating.
fn pour(d: &mut dyn DynDecoder, b: &[u8], piece: usize, mode: Mode) -> Option<R<Decoded>> {
    let mut off = 0;
    loop {
        let n = piece.min(b.len() - off);
        match d.decode(&b[off..off + n], eos(mode, b.len() - off - n)) {
            Err(k) => return Some(Err(k)),
            Ok(u) => {
                off += u.min(n);
                if d.idle() {
                    return Some(d.finish());
                }
                if off == b.len() || (u == 0 && n > 0) {
                    return None;
                }
            }
        }
    }
}
fn n_auth(set: &dyn DynSet, b: &[u8]) -> u64 {
    let k = set.knows();
    if k.raw {
        return 0;
    }
    gen::walk(b).iter().filter(|o| matches!(u16::from_be_bytes([b[**o], b[**o + 1]]), T_MI | T_FP)).count() as u64
}
/// Announced length of the value whose attribute header has arrived last, if bytes of it are missing.
fn ahead(b: &[u8]) -> u64 {
    match gen::walk(b).last() {
        Some(o) => {
            let n = usize::from(u16::from_be_bytes([b[o + 2], b[o + 3]]));
            if o + 4 + n > b.len() {
                n as u64
            } else {
                0
            }
        }
        None => 0,
    }
}
fn piece(r: &mut Rng) -> usize {
    *r.pick(&[1, 1, 2, 3, 7, 64, 1000, usize::MAX])
}

/// Decodes `b` with a new decoder; all of the cost, and nothing left at the end.
fn measure(c: &mut Case, set: &dyn DynSet, b: &[u8], piece: usize, mode: Mode) -> Chk {
    let auth = n_auth(set, b);
    let show = || format!("pieces of {}, {:?}, {}", piece, mode, show_bytes(set, b));
    let run = |b: &[u8]| {
        let m = alloc::mark();
        let mut d = set.decoder();
        let out = pour(&mut *d, b, piece, mode);
        let k = alloc::since(m);
        let name = match &out {
            None => "unfinished",
            Some(Err(_)) => "refused",
            Some(Ok(Ok(_))) => "valid",
            Some(Ok(Err(_))) => "broken",
        };
        drop(out);
        let rest = alloc::since(m).retained;
        drop(d);
        (k, rest, alloc::since(m).retained, name)
    };
    let (mut k, mut rest, mut left, mut name) = run(b);
    if left != 0 {
        // something allocated once and for all?
        (k, rest, left, name) = run(b);
    }
    c.count(name, 1);
    within_extra(c, "decoding", &k, b.len(), auth, ahead(b)).detail(show)?;
    if name != "unfinished" {
        ensure!(rest <= REST, "{} bytes stay allocated in an idle decoder, {}", rest, show());
    }
    ensure!(left == 0, "{} bytes stay allocated when everything is dropped, {}", left, show());
    Ok(())
}

fn decode(c: &mut Case) -> Chk {
    let set = any_set(&mut c.r);
    let b = any_input(&mut c.r, set);
    let (p, mode) = (piece(&mut c.r), *c.r.pick(&MODES[..3]));
    c.eval((!b.is_empty()).then(|| hash_bytes(&b) ^ p as u64));
    c.sample(|| show_bytes(set, &b));
    measure(c, set, &b, p, mode)
}

/// Lengths announced, but the bytes do not come.
fn announced(c: &mut Case) -> Chk {
    let set = any_set(&mut c.r);
    let tid = c.r.tid();
    let len = *c.r.pick(&[0xffffu16, 0xfffc, 0x8000, 0x1000, 0x7ff0]);
    let mut b = header(c.r.below(4) as u8, gen::method(&mut c.r), &tid, len);
    for _ in 0..c.r.below(4) {
        let ty = gen::wire_type(&mut c.r, set);
        let v = if ty == T_FP { ref_fp_with(&b, len) } else { enc_value(ty, &gen::val(&mut c.r, ty, &tid), Some(&tid)) };
        push_tlv(&mut b, ty, &v[..v.len().min(60)], &[]);
    }
    let ty = gen::wire_type(&mut c.r, set);
    let vl = *c.r.pick(&[0xffffu16, 0xfff8, 0x8000, 0x1000, 0x0800]);
    b.extend_from_slice(&ty.to_be_bytes());
    b.extend_from_slice(&vl.to_be_bytes());
    let n = c.r.below(40);
    b.extend(c.r.bytes(n));
    let n = if c.r.bool() { b.len() } else { c.r.below(b.len() + 1) };
    b.truncate(n);
    let (p, mode) = (piece(&mut c.r), *c.r.pick(&[Mode::Open, Mode::AtEnd]));
    c.eval((n > 0).then(|| hash_bytes(&b)));
    c.count("bytes announced", u64::from(vl));
    measure(c, set, &b, p, mode)
}
fn ref_fp_with(b: &[u8], _: u16) -> Vec<u8> {
    ref_fp(b).to_be_bytes().to_vec()
}

/// Long messages of many equal small attributes, or of few big ones; sound and not.
fn flood_of(c: &mut Case, set: &dyn DynSet, total: usize) -> Vec<u8> {
    let tid = c.r.tid();
    let mut b = header(0, 1, &tid, 0);
    let mut types: Vec<u16> = set.types();
    types.retain(|t| *t != T_MI && *t != T_FP);
    let ty = if types.is_empty() || c.r.chance(1, 3) { 0x4001 } else { *c.r.pick(&types) };
    let v = match kind_of(ty).filter(|_| ty != 0x4001) {
        None => {
            let n = *c.r.pick(&[0, 0, 1, 4, 100]);
            c.r.bytes(n)
        }
        Some(Kind::Bytes) | Some(Kind::Text) | Some(Kind::Name) | Some(Kind::Types) => vec![b'a'; *c.r.pick(&[0, 0, 2, 4, 100])],
        Some(Kind::Err) => {
            let mut v = vec![0, 0, 4, 1];
            v.extend(vec![b'a'; *c.r.pick(&[0, 0, 100, 1000])]);
            v
        }
        _ => enc_value(ty, &gen::val(&mut c.r, ty, &tid), Some(&tid)),
    };
    while b.len() + 4 + v.len() + pad_len(v.len()) <= total {
        push_tlv(&mut b, ty, &v, &[]);
    }
    set_len(&mut b);
    b
}
fn floods(c: &mut Case) -> Chk {
    let set = any_set(&mut c.r);
    let total = *c.r.pick(&[2000, 20_000, 20 + 0xfffc]);
    let mut b = flood_of(c, set, total);
    match c.r.below(5) {
        0 => {
            // broken at its end
            let n = b.len();
            b[n - 1] ^= 0xff;
            b.extend_from_slice(&[0, 6]);
            b.truncate(20 + 0xffff);
            set_len(&mut b);
        }
        1 => {
            // broken at its start
            let w = [0x00, 0x18, 0xff, 0xff];
            if b.len() >= 24 {
                b[20..24].copy_from_slice(&w);
            }
        }
        2 => {
            // one big value
            let ty = *c.r.pick(&[0x0013u16, 0x4001, 0x8030, 0x0009, 0x000A, 0x0006]);
            let n = (b.len() - 24) as u16;
            b[20..22].copy_from_slice(&ty.to_be_bytes());
            b[22..24].copy_from_slice(&n.to_be_bytes());
        }
        _ => {}
    }
    let p = *c.r.pick(&[1usize, 4, 5, 100, 5000, usize::MAX]);
    c.eval(Some(hash_bytes(&b) ^ p as u64));
    measure(c, set, &b, p, Mode::Open)
}

fn auth_floods(c: &mut Case) -> Chk {
    let sets = auth_sets();
    let set = *c.r.pick(&sets);
    let total = *c.r.pick(&[500, 3000, 12_000]);
    let head = c.r.below(total);
    let mut b = flood_of(c, set, 20 + head);
    while b.len() + 24 <= total {
        if c.r.bool() || !(set.knows().f)(T_FP) {
            let v = c.r.bytes(20);
            push_tlv(&mut b, T_MI, &v, &[]);
        } else {
            let f = ref_fp(&b);
            push_tlv(&mut b, T_FP, &f.to_be_bytes(), &[]);
        }
    }
    set_len(&mut b);
    c.eval(Some(hash_bytes(&b)));
    c.count("integrity attributes", n_auth(set, &b));
    let p = *c.r.pick(&[1, 100, usize::MAX]);
    measure(c, set, &b, p, Mode::AtEnd)
}

/// A decoder and an encoder used for many messages hold nothing of those gone by.
fn streams(c: &mut Case) -> Chk {
    let set = any_set(&mut c.r);
    // bytes held by the codecs and messages
    let mut held = 0;
    let m = alloc::mark();
    let mut d = set.decoder();
    let mut e = set.encoder();
    held += alloc::since(m).retained;
    let mut total = 0;
    for _ in 0..c.r.range(3, 12) {
        let b = if c.r.chance(1, 4) { flood_of(c, set, 5000) } else { any_framed(&mut c.r, set) };
        let auth = n_auth(set, &b);
        let p = piece(&mut c.r);
        let m = alloc::mark();
        let out = pour(&mut *d, &b, p, Mode::Open);
        let k = alloc::since(m);
        held += k.retained;
        within_extra(c, "decoding one of many", &k, b.len(), auth, ahead(&b)).detail(|| show_bytes(set, &b))?;
        let forward = c.r.bool();
        let m = alloc::mark();
        let mut sent = false;
        if let (true, Some(Ok(Ok(msg)))) = (forward, out) {
            sent = e.start(msg).is_ok();
            let mut buf = [0; 256];
            while !e.idle() {
                if e.encode(&mut buf, Eos::new(false)).is_err() {
                    break;
                }
            }
        }
        let k = alloc::since(m);
        held += k.retained;
        if sent {
            within(c, "encoding one of many", &k, b.len(), 0).detail(|| show_bytes(set, &b))?;
        }
        ensure!(held <= 2 * REST, "{} bytes stay allocated after {} bytes have been decoded and the messages dropped, {}", held, total + b.len(), show_bytes(set, &b));
        total += b.len();
    }
    c.eval(Some(total as u64 ^ c.idx << 20));
    let m = alloc::mark();
    drop(d);
    drop(e);
    held += alloc::since(m).retained;
    ensure!(held <= 0, "{} bytes stay allocated when the codecs are dropped (set {}, {} bytes decoded)", held, set.name(), total);
    // again, without statistics in between
    let m = alloc::mark();
    let mut d = set.decoder();
    let mut e = set.encoder();
    let own = alloc::since(m).retained;
    let b = flood_of(c, set, 20_000);
    let m = alloc::mark();
    for i in 0..3 {
        if let Some(Ok(Ok(msg))) = pour(&mut *d, &b, 1000, Mode::Open) {
            if i > 0 && e.start(msg).is_ok() {
                let mut buf = [0; 256];
                while !e.idle() {
                    if e.encode(&mut buf, Eos::new(false)).is_err() {
                        break;
                    }
                }
            }
        }
    }
    let rest = alloc::since(m).retained;
    ensure!(rest <= REST, "{} bytes of {}-byte messages stay allocated in idle codecs ({} bytes when new), set {}", rest, b.len(), own, set.name());
    drop((d, e));
    Ok(())
}

/// Standalone value decoders.
fn values(c: &mut Case) -> Chk {
    let ty = TYPES[(c.idx % 32) as usize].0;
    let b = match c.r.below(3) {
        0 => gen::bad_value(&mut c.r, ty, &[0; 12]),
        1 => enc_value(ty, &gen::val(&mut c.r, ty, &[0; 12]), None),
        _ => {
            let n = c.r.below(3000);
            c.r.bytes(n)
        }
    };
    let p = piece(&mut c.r);
    c.eval((!b.is_empty()).then(|| hash_bytes(&b) ^ u64::from(ty)));
    let one = one_of(ty);
    let m = alloc::mark();
    let mut d = one.decoder();
    let mut off = 0;
    loop {
        let n = p.min(b.len() - off);
        match d.decode(&b[off..off + n], Eos::new(off + n == b.len())) {
            Err(_) => break,
            Ok(k) => off += k.min(n),
        }
        if d.idle() {
            let _ = d.finish();
            break;
        }
        if off == b.len() {
            break;
        }
    }
    let k = alloc::since(m);
    drop(d);
    let left = alloc::since(m).retained;
    within(c, "decoding a value", &k, b.len(), 0).detail(|| format!("{}, {}", type_name(ty), hex(&b)))?;
    ensure!(left == 0, "{} bytes stay allocated after decoding a value, {} {}", left, type_name(ty), hex(&b));
    Ok(())
}

fn measure_encode(c: &mut Case, set: &dyn DynSet, m: &dyn DynMsg, size: usize, buf: usize) -> Chk {
    let show = || format!("set {}, {} bytes, buffers of {}", set.name(), size, buf);
    let mut left = 0;
    for _ in 0..2 {
        let msg = m.clone_box();
        let mut space = vec![0u8; buf];
        let mark = alloc::mark();
        let mut e = set.encoder();
        let r = e.start(msg);
        while r.is_ok() && !e.idle() {
            if e.encode(&mut space, Eos::new(false)).is_err() {
                break;
            }
        }
        let k = alloc::since(mark);
        // the message itself has been dropped meanwhile
        ensure!(k.retained <= REST, "{} bytes stay allocated in an idle encoder, {}", k.retained, show());
        drop(e);
        left = alloc::since(mark).retained;
        within(c, "encoding", &k, size, 0).detail(show)?;
        if left <= 0 {
            break;
        }
    }
    ensure!(left <= 0, "{} bytes stay allocated when everything is dropped, {}", left, show());
    Ok(())
}
fn encode(c: &mut Case) -> Chk {
    let set = any_set(&mut c.r);
    let m = if c.r.bool() {
        auth_plan(&mut c.r, set).build(set)?
    } else {
        let b = gen::image(&mut c.r, set, gen::VALID).bytes();
        match decode_all(set, &b).out {
            Out::Valid(m) => m,
            _ => return Ok(()),
        }
    };
    let size = encode_all(set, &*m).map_or(20, |b| b.len());
    c.eval(Some(hash_snap(&m.snap())));
    let buf = *c.r.pick(&[1usize, 3, 20, 500]);
    measure_encode(c, set, &*m, size, buf)
}
fn big_encode(c: &mut Case) -> Chk {
    let set = any_set(&mut c.r);
    let total = *c.r.pick(&[20_000, 20 + 0xfffc]);
    let b = flood_of(c, set, total);
    let m = match decode_all(set, &b).out {
        Out::Valid(m) => m,
        _ => return Ok(()),
    };
    c.eval(Some(hash_bytes(&b)));
    let buf = *c.r.pick(&[7usize, 500, 70_000]);
    measure_encode(c, set, &*m, b.len(), buf)?;
    // and with integrity attributes created for it
    let mark = alloc::mark();
    let a = m.new_mi(&Cred::Short("pw".into()));
    let f = m.new_fp();
    let k = alloc::since(mark);
    drop((a, f));
    let left = alloc::since(mark).retained;
    within(c, "creating integrity attributes", &k, b.len(), 1).detail(|| show_bytes(set, &b))?;
    ensure!(left <= 0, "{} bytes stay allocated after creating integrity attributes, {}", left, show_bytes(set, &b));
    Ok(())
}

fn cpu() -> u64 {
    #[repr(C)]
    struct Ts {
        s: i64,
        n: i64,
    }
    extern "C" {
        fn clock_gettime(id: i32, t: *mut Ts) -> i32;
    }
    let mut t = Ts { s: 0, n: 0 };
    // CLOCK_THREAD_CPUTIME_ID
    unsafe { clock_gettime(3, &mut t) };
    t.s as u64 * 1_000_000_000 + t.n as u64
}
/// Long messages take time in proportion.
fn time(c: &mut Case) -> Chk {
    let set = sets().every[(c.idx / 6) as usize % (sets().enums + 1)];
    let what = c.idx % 6;
    let (small, large) = (flood_of(c, set, 8192), flood_of(c, set, 20 + 0xfffc));
    c.eval(Some(c.idx));
    // small attributes, or a single big one; in small pieces, too
    let shape = |b: &[u8]| {
        let mut b = b.to_vec();
        if what >= 3 {
            let n = (b.len() - 24) as u16;
            let ty: u16 = if what == 4 { 0x0013 } else { 0x4001 };
            b[20..22].copy_from_slice(&ty.to_be_bytes());
            b[22..24].copy_from_slice(&n.to_be_bytes());
        }
        b
    };
    let (small, large) = (shape(&small), shape(&large));
    let p = [usize::MAX, 1, 50][(what % 3) as usize];
    let run = |b: &[u8]| {
        let t = cpu();
        let mut d = set.decoder();
        let r = pour(&mut *d, b, p, Mode::Open);
        if let Some(Ok(Ok(m))) = r {
            let mut e = set.encoder();
            if e.start(m).is_ok() {
                let mut buf = [0u8; 64];
                let n = if p == 1 { 1 } else { 64 };
                while !e.idle() {
                    if e.encode(&mut buf[..n], Eos::new(false)).is_err() {
                        break;
                    }
                }
            }
        }
        cpu() - t
    };
    let (mut a, mut b) = (u64::MAX, u64::MAX);
    for _ in 0..5 {
        a = a.min(run(&small));
        b = b.min(run(&large));
        // 60 ms for 64 kB is slow only if a quarter of it is not
        if b < 60_000_000 || b < a * 30 {
            c.max("microseconds for 64 kB", b / 1000);
            return Ok(());
        }
    }
    fail!("{} bytes take {} us, {} bytes {} us (set {}, pieces of {})", small.len(), a / 1000, large.len(), b / 1000, set.name(), p)
}
