//! Limits: constructors, standalone decoders, message decoders and encoders must all draw the
//! same line, which the model states once more.
use super::util::*;
use crate::probe::{self, Act, Mixed, PSet, Point, PA};
use bytecodec::{Encode, EncodeExt, SizedEncode};
use std::time::Duration;
use stun_codec::{Attribute, AttributeType, Message, MessageEncoder, Method, RawAttribute, TransactionId};

pub fn check() -> Check {
    Check {
        id: "C16",
        rule: "one value at, inside or beyond a documented limit given to a constructor, a standalone decoder, a message decoder or an encoder, whose acceptance was compared with the limit; non-trivial if the value is distinct",
        suites: vec![
            sweep("numbers", 0x1_0000, numbers),
            sweep("text lengths", 4 * 640, text_lengths),
            sweep("byte lengths", 2 * 300, byte_lengths),
            random("lifetimes", 40_000, 1_000_000, lifetimes),
            random("wire values", 300_000, 8_000_000, wire_values),
            random("encoder limits", 12_000, 300_000, encoder_limits),
            random("hook limits", 3_000, 80_000, hook_limits),
        ],
        assumptions: &["the reason phrase of ERROR-CODE and the list of UNKNOWN-ATTRIBUTES have no limit but the 16-bit length"],
    }
}

fn kind<T>(r: bytecodec::Result<T>) -> R<T> {
    r.map_err(|e| *e.kind())
}
/// Accepted if and only if `good`; refused with invalid input.
fn verdict<T: std::fmt::Debug>(what: &str, r: &R<T>, good: bool) -> Chk {
    match r {
        Ok(_) if !good => fail!("{} accepts a value beyond its limit", what),
        Err(k) if good => fail!("{} refuses a value within its limits ({:?})", what, k),
        Err(k) if *k != ErrorKind::InvalidInput => fail!("{} refuses with {:?} instead of invalid input", what, k),
        _ => Ok(()),
    }
}

/// Standalone decoding of a value at once.
fn alone(ty: u16, b: &[u8], split: usize) -> R<Val> {
    let mut d = one_of(ty).decoder();
    let cut = split.min(b.len());
    let mut off = 0;
    if cut > 0 {
        off = d.decode(&b[..cut], Eos::new(false))?;
        if off != cut {
            return Err(ErrorKind::InconsistentState);
        }
    }
    let n = d.decode(&b[off..], Eos::new(true))?;
    if n != b.len() - off {
        return Err(ErrorKind::InconsistentState);
    }
    d.finish()
}

/// Both decoders accept the wire value exactly if the model does, and with the model's value.
fn decoders(c: &mut Case, ty: u16, b: &[u8]) -> Chk {
    let tid = [9u8; 12];
    let want = dec_value(ty, b, None);
    let split = c.r.below(b.len() + 1);
    let got = alone(ty, b, split);
    let ctx = || format!("{} value {}", type_name(ty), hex(b));
    match (&want, &got) {
        (Ok(w), Ok(g)) => ensure!(w == g, "standalone decoder: {:?} instead of {:?}, {}", g, w, ctx()),
        (Err(_), Err(_)) => {}
        (Ok(_), Err(k)) => fail!("standalone decoder refuses ({:?}) {}", k, ctx()),
        (Err(e), Ok(g)) => fail!("standalone decoder accepts (as {:?}), although the {} is wrong, {}", g, e, ctx()),
    }
    let mut w = header(0, 1, &tid, 0);
    push_tlv(&mut w, ty, b, &[]);
    if w.len() - 20 > 0xffff {
        return Ok(());
    }
    set_len(&mut w);
    let want = dec_value(ty, b, Some(&tid));
    for set in [all_set(), *c.r.pick(&sets().every)] {
        let k = set.knows();
        if k.raw || !(k.f)(ty) || ty == T_FP {
            continue;
        }
        match (decode_all(set, &w).out, &want) {
            (Out::Valid(m), Ok(v)) => ensure!(m.snap().known == vec![(ty, v.clone())], "message decoder: {:?} instead of {:?}, {}", m.snap().known, v, ctx()),
            (Out::Broken(_), Err(_)) => {}
            (o, _) => fail!("message decoder ({}): {} although {:?}, {}", set.name(), o.show(), want, ctx()),
        }
    }
    Ok(())
}

fn numbers(c: &mut Case) -> Chk {
    let v = c.idx as u16;
    c.eval(Some(c.idx));
    // constructors
    let m = kind(Method::new(v));
    verdict("Method::new", &m, v < 0x1000).detail(|| format!("{:#x}", v))?;
    if let Ok(m) = m {
        ensure_eq!(m.as_u16(), v, "value of the method");
    }
    let good = (300..600).contains(&v);
    let e = kind(ErrorCode::new(v, "x".to_owned()));
    verdict("ErrorCode::new", &e, good).detail(|| v.to_string())?;
    if let Ok(e) = e {
        ensure_eq!((e.code(), e.reason_phrase()), (v, "x"), "value of the error code");
    }
    let good = (0x4000..=0x4fff).contains(&v);
    let n = kind(ChannelNumber::new(v));
    verdict("ChannelNumber::new", &n, good).detail(|| format!("{:#x}", v))?;
    if let Ok(n) = n {
        ensure_eq!(ChannelNumber::value(n), v, "value of the channel number");
        let next = n.wrapping_increment();
        ensure_eq!(ChannelNumber::value(next), if v == 0x4fff { 0x4000 } else { v + 1 }, "successor of channel {:#x}", v);
    }
    ensure_eq!(
        (ChannelNumber::MIN, ChannelNumber::MAX, ChannelNumber::value(ChannelNumber::min()), ChannelNumber::value(ChannelNumber::max())),
        (0x4000, 0x4fff, 0x4000, 0x4fff),
        "channel limits"
    );
    // wire
    let b = v.to_be_bytes();
    decoders(c, 0x000C, &[b[0], b[1], 0, 0])?;
    decoders(c, 0x0009, &[0, 0, b[0], b[1], b'x'])?;
    decoders(c, 0x0017, &[b[0], b[1], 0, 0])?;
    decoders(c, 0x8000, &[b[0], 0, 0, b[1]])?;
    decoders(c, 0x000D, &[b[0], b[1], b[1], b[0]])?;
    // all methods of messages on the wire, whatever the class
    let (class, method) = split_type(v & 0x3fff);
    if v >> 14 == 0 {
        let mut w = header(class, method, &[1; 12], 0);
        w[..2].copy_from_slice(&b);
        match decode_all(raw_set(), &w).out {
            Out::Valid(m) => {
                let s = m.snap();
                ensure_eq!((s.class, s.method), (class, method), "class and method of message type {:#06x}", v);
                ensure!(s.method < 0x1000, "method {:#x} beyond its limit", s.method);
            }
            o => fail!("message of type {:#06x}: {}", v, o.show()),
        }
    }
    c.count("numbers", 1);
    Ok(())
}

const TEXTS: [u16; 4] = [0x0006, 0x0014, 0x0015, 0x8022];
fn construct(ty: u16, s: &str) -> R<String> {
    Ok(match ty {
        0x0006 => kind(Username::new(s.to_owned()))?.name().to_owned(),
        0x0014 => kind(Realm::new(s.to_owned()))?.text().to_owned(),
        0x0015 => kind(Nonce::new(s.to_owned()))?.value().to_owned(),
        _ => kind(Software::new(s.to_owned()))?.description().to_owned(),
    })
}
fn within(ty: u16, s: &str) -> bool {
    if ty == 0x0006 {
        s.len() < 513
    } else {
        s.chars().count() < 128
    }
}
/// Every length of text, in characters of one to four bytes.
fn text_lengths(c: &mut Case) -> Chk {
    let n = (c.idx / 4) as usize;
    let ch = ['a', '\u{e9}', '\u{30de}', '\u{1f600}'][(c.idx % 4) as usize];
    for ty in TEXTS {
        let mut variants = vec![ch.to_string().repeat(n)];
        if n > 0 {
            // one character of another width
            variants.push(format!("{}{}", ch.to_string().repeat(n - 1), 'z'));
            variants.push(format!("{}{}", '\u{30df}', ch.to_string().repeat(n - 1)));
        }
        for s in variants {
            text(c, ty, &s)?;
        }
    }
    Ok(())
}
fn text(c: &mut Case, ty: u16, s: &str) -> Chk {
    let good = within(ty, s);
    let d = || format!("{}: {} characters, {} bytes", type_name(ty), s.chars().count(), s.len());
    c.eval(Some(hash_bytes(s.as_bytes()) ^ u64::from(ty)));
    let r = construct(ty, s);
    verdict("the constructor", &r, good).detail(d)?;
    if let Ok(t) = r {
        ensure!(t == s, "the constructor changes the text, {}", d());
    }
    if ty == 0x8022 {
        let p = std::panic::catch_unwind(|| Software::new_static(Box::leak(s.to_owned().into_boxed_str())).description().to_owned());
        match (p, good) {
            (Ok(t), true) => ensure!(t == s, "Software::new_static changes the text, {}", d()),
            (Err(_), false) => {}
            (Ok(_), false) => fail!("Software::new_static accepts a text beyond its limit, {}", d()),
            (Err(_), true) => fail!("Software::new_static refuses a text within its limits, {}", d()),
        }
    }
    c.count(if good { "texts within the limit" } else { "texts beyond the limit" }, 1);
    decoders(c, ty, s.as_bytes()).detail(d)
}

/// DATA and MOBILITY-TICKET around the largest value, and their length on the wire.
fn byte_lengths(c: &mut Case) -> Chk {
    let ticket = c.idx % 2 == 1;
    let ty = if ticket { 0x8030 } else { 0x0013 };
    let i = (c.idx / 2) as usize;
    let n = match i {
        0..=39 => i,
        40..=239 => 65_300 + i,
        _ => 0x1_0000 + (i - 240) * 1777,
    };
    let b = c.r.bytes(n);
    let good = n <= 0xffff;
    c.eval(Some(c.idx));
    let r = if ticket {
        kind(MobilityTicket::new(b.clone())).map(|t| t.data().to_vec())
    } else {
        kind(Data::new(b.clone())).map(|t| t.data().to_vec())
    };
    verdict("the constructor", &r, good).detail(|| format!("{} of {} bytes", type_name(ty), n))?;
    if let Ok(x) = r {
        ensure!(x == b, "{} of {} bytes: the constructor changes the value", type_name(ty), n);
    }
    let split = c.r.below(n + 1);
    let r = alone(ty, &b, split);
    ensure!(r.is_ok() == good, "standalone decoder of {}: {} bytes {}", type_name(ty), n, if good { "refused" } else { "accepted" });
    if let Ok(v) = r {
        ensure!(v == Val::Bytes(b.clone()), "standalone decoder of {} changes {} bytes", type_name(ty), n);
    }
    ensure!(MobilityTicket::empty().data().is_empty(), "MobilityTicket::empty is not empty");
    // in a message
    let set = all_set();
    let v = if ticket { MobilityTicket::make(&Val::Bytes(b.clone())).map(|_| ()) } else { Data::make(&Val::Bytes(b.clone())).map(|_| ()) };
    if v.is_some() {
        let mut m = set.msg(1, 7, [3; 12]);
        ensure!(m.add(ty, &Val::Bytes(b.clone())), "harness: {}", type_name(ty));
        let fits = 4 + n + pad_len(n) <= 0xffff;
        sends(set, &*m, fits, || enc_msg(1, 7, &[3; 12], &[(ty, Val::Bytes(b.clone()))]))?;
    }
    if 4 + n + pad_len(n) <= 0xffff {
        decoders(c, ty, &b)?;
    }
    c.count(if good { "byte strings within the limit" } else { "byte strings beyond the limit" }, 1);
    Ok(())
}

/// The encoder sends the message if it fits, else refuses it as invalid input; either way it goes on.
fn sends(set: &dyn DynSet, m: &dyn DynMsg, fits: bool, wire: impl Fn() -> Vec<u8>) -> Chk {
    let mut e = set.encoder();
    let r = e.all(m.clone_box());
    verdict("the message encoder", &r.as_ref().map(|b| b.len()).map_err(|k| *k), fits)?;
    if let Ok(b) = r {
        let w = wire();
        ensure!(b == w, "the message encoder sends {} instead of {}", hex(&b), hex(&w));
    } else {
        ensure!(e.idle() && e.exact() == 0, "the encoder is not idle after refusing a message");
        let mut b = [0u8; 64];
        let n = e.encode(&mut b, Eos::new(false));
        ensure!(matches!(n, Ok(0)), "the encoder writes {:?} bytes of a message it refused", n);
    }
    let next = set.msg(2, 0xabc, [5; 12]);
    let b = e.all(next.clone_box());
    ensure!(b == Ok(header(2, 0xabc, &[5; 12], 0)), "the next message comes out as {:?}", b.map(|b| hex(&b)));
    // creating integrity attributes of a message of any size succeeds with a refusal at worst
    let _ = m.new_fp();
    let _ = m.new_mi(&Cred::Short("pw".into()));
    Ok(())
}

fn lifetimes(c: &mut Case) -> Chk {
    let secs = match c.r.below(6) {
        0 => 0xffff_ffff,
        1 => 0x1_0000_0000,
        2 => c.r.u64(),
        3 => u64::MAX,
        4 => 0x1_0000_0000u64.wrapping_add(c.r.u64() >> c.r.range(32, 62)),
        _ => u64::from(gen::u32b(&mut c.r)),
    };
    let nanos = match c.r.below(3) {
        0 => 0,
        1 => 999_999_999,
        _ => c.r.below(1_000_000_000) as u32,
    };
    let d = Duration::new(secs, nanos);
    let good = secs <= 0xffff_ffff;
    c.eval(Some(hash_dbg(&d)));
    let r = kind(Lifetime::new(d));
    verdict("Lifetime::new", &r, good).detail(|| format!("{:?}", d))?;
    if let Ok(l) = r {
        ensure_eq!(l.lifetime(), Duration::from_secs(secs), "Lifetime::new({:?})", d);
        let n = l.lifetime().as_secs() as u32;
        ensure_eq!(Lifetime::from_u32(n).lifetime(), l.lifetime(), "Lifetime::from_u32({})", n);
        let mut e = <Lifetime as Attribute>::Encoder::default();
        let b = kind(e.encode_into_bytes(l));
        ensure_eq!(b, Ok((secs as u32).to_be_bytes().to_vec()), "encoded lifetime of {:?}", d);
        decoders(c, 0x000D, &(secs as u32).to_be_bytes())?;
    }
    Ok(())
}

/// Wire values of every type, near the limits.
fn wire_values(c: &mut Case) -> Chk {
    let tid = [9u8; 12];
    let mut ty = c.r.pick(&TYPES).0;
    if c.r.chance(1, 3) {
        ty = *c.r.pick(&[0x0006, 0x0014, 0x0015, 0x8022, 0x0009, 0x000C]);
    }
    let b = if c.r.chance(1, 3) {
        let v = gen::val(&mut c.r, ty, &tid);
        let mut b = enc_value(ty, &v, None);
        if c.r.bool() {
            gen::set_reserved(&mut c.r, ty, &mut b);
        }
        b
    } else {
        gen::bad_value(&mut c.r, ty, &tid)
    };
    c.eval(Some(hash_bytes(&b) ^ u64::from(ty)));
    if let Ok(v) = dec_value(ty, &b, None) {
        // what a decoder may deliver, the constructor takes, too
        ensure!(one_of(ty).reports(&v).is_some(), "the constructor of {} refuses {:?}", type_name(ty), v);
        c.count("wire values within the limits", 1);
    } else {
        c.count("wire values beyond the limits", 1);
    }
    decoders(c, ty, &b)
}

/// Messages around the 65535 bytes the length field can count.
fn encoder_limits(c: &mut Case) -> Chk {
    let tid = c.r.tid();
    let (class, method) = (c.r.below(4) as u8, gen::method(&mut c.r));
    let raw = c.r.bool();
    let set = if raw { raw_set() } else { all_set() };
    let mut attrs: Vec<(u16, Val)> = vec![];
    let mut size = 0usize;
    // 65532 is the largest multiple of four
    let goal = match c.r.below(4) {
        0 => 65_532,
        1 => 65_536,
        2 => c.r.range(65_500, 65_580),
        _ => c.r.range(60_000, 200_000),
    };
    let pieces = *c.r.pick(&[1usize, 1, 2, 3, 5, 40]);
    for i in 0..pieces {
        let left = goal - size.min(goal);
        if left < 8 {
            break;
        }
        let n = if i + 1 == pieces {
            // the rest, exactly or with up to three bytes of padding
            left - 4 - if c.r.bool() { 0 } else { c.r.below(4) }
        } else {
            c.r.below(left / 2)
        };
        let (ty, v, n) = if raw {
            (gen::any_type(&mut c.r), Val::Bytes(c.r.bytes(n)), n)
        } else {
            match c.r.below(4) {
                0 => (0x0009, Val::Err(404, "y".repeat(n.max(4) - 4)), n.max(4)),
                1 => (0x000A, Val::Types(vec![0x8022; n / 2]), n / 2 * 2),
                k => {
                    let n = n.min(0xffff);
                    (if k == 2 { 0x0013 } else { 0x8030 }, Val::Bytes(c.r.bytes(n)), n)
                }
            }
        };
        size += 4 + n + pad_len(n);
        attrs.push((ty, v));
    }
    let biggest = attrs.iter().map(|(t, v)| enc_value(*t, v, Some(&tid)).len()).max().unwrap_or(0);
    let fits = size <= 0xffff && biggest <= 0xffff;
    let p = Plan { class, method, tid, attrs };
    c.eval(Some(hash_bytes(&size.to_le_bytes()) ^ hash_dbg(&p.attrs.iter().map(|a| a.0).collect::<Vec<_>>())));
    c.count(if fits { "messages that fit" } else { "messages too long" }, 1);
    if biggest > 0xffff {
        c.count("attribute values too long", 1);
    }
    let m = build(&p, set)?;
    let show = || format!("set {}, {} attributes, {} bytes of attributes, largest value {}", set.name(), p.attrs.len(), size, biggest);
    sends(set, &*m, fits, || p.wire()).detail(show)?;
    if fits {
        // what was sent is received; a byte more in the last attribute is not
        match decode_all(set, &p.wire()).out {
            Out::Valid(m) => ensure!(m.snap() == p.snap(), "the longest message is received differently, {}", show()),
            o => fail!("the longest message: {}, {}", o.name(), show()),
        }
    }
    Ok(())
}

/// Values that hooks enlarge are subject to the same limits.
fn hook_limits(c: &mut Case) -> Chk {
    if c.r.bool() {
        hooked::<PA>(c)
    } else {
        hooked::<Mixed>(c)
    }
}
fn hooked<S: PSet>(c: &mut Case) -> Chk {
    let n = c.r.range(1, 4);
    let big = c.r.below(n);
    let mut script = vec![];
    let mut size = 0;
    let mut wire = header(0, 1, &[7; 12], 0);
    let mut m = Message::<S>::new(class_of(0), Method::from(1), TransactionId::new([7; 12]));
    let mut longest = 0;
    for i in 0..n {
        let v = c.r.bytes(i);
        let w = if i == big {
            let len = match c.r.below(3) {
                0 => c.r.range(65_490, 65_545),
                1 => c.r.range(65_536, 140_000),
                _ => c.r.below(40),
            };
            let w = c.r.bytes(len);
            script.push((Point::Before, i, Act::Set(w.clone())));
            w
        } else {
            v.clone()
        };
        longest = longest.max(w.len());
        size += 4 + w.len() + pad_len(w.len());
        push_tlv(&mut wire, 0x4100, &w, &[]);
        m.add_attribute(S::probe(0x4100, v).expect("probe"));
    }
    let fits = size <= 0xffff && longest <= 0xffff;
    if fits {
        set_len(&mut wire);
    }
    c.eval(Some(hash_bytes(&wire)));
    c.count(if fits { "hook results that fit" } else { "hook results too long" }, 1);
    probe::reset(&script);
    probe::look(false);
    let mut e = MessageEncoder::<S>::new();
    let r = kind(e.encode_into_bytes(m));
    let show = || format!("set {}, {} probes, the hook of number {} makes the message {} bytes long", S::NAME, n, big, size);
    let v = verdict("the message encoder", &r.as_ref().map(|b| b.len()).map_err(|k| *k), fits).detail(show);
    probe::look(true);
    v?;
    if let Ok(b) = r {
        ensure!(b == wire, "the message encoder sends {} instead of {}, {}", hex(&b), hex(&wire), show());
    }
    ensure!(e.is_idle() && e.exact_requiring_bytes() == 0, "the encoder is not idle, {}", show());
    // and raw attributes around the limit in a message encoder that is drained piecewise
    let len = c.r.range(65_500, 65_540);
    let mut m = Message::<RawAttribute>::new(class_of(0), Method::from(1), TransactionId::new([7; 12]));
    m.add_attribute(RawAttribute::new(AttributeType::new(0x7f7f), vec![0x11; len]));
    let mut e = MessageEncoder::<RawAttribute>::new();
    let r = kind(e.start_encoding(m));
    let fits = 4 + len + pad_len(len) <= 0xffff;
    verdict("starting to encode", &r, fits).detail(|| format!("raw value of {} bytes", len))?;
    if fits {
        ensure_eq!(e.exact_requiring_bytes(), (24 + len + pad_len(len)) as u64, "announced size of a raw value of {} bytes", len);
    }
    Ok(())
}
