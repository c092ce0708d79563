//! Hooks of attributes: online recording of every call, compared with the call sequence the
//! message prescribes.
use super::util::*;
use crate::probe::{self, Act, Event, Mixed, PSet, Point, PA};
use bytecodec::{DecodeExt, Encode, EncodeExt};
use stun_codec::{Message, MessageDecoder, MessageEncoder, Method, TransactionId};

pub fn check() -> Check {
    Check {
        id: "C14",
        rule: "a message (built, or received and possibly extended) of probe, shipped and unknown attributes whose hooks succeed, fail or change values as scripted; non-trivial if at least one hook ran and its view was compared",
        suites: vec![
            random("encode", 160_000, 4_000_000, encode),
            random("decode", 160_000, 4_000_000, decode),
            random("forward", 100_000, 3_000_000, forward),
            random("malformed", 60_000, 1_500_000, malformed),
            random("shipped hooks", 60_000, 1_500_000, shipped),
            sweep("crowds", 2 * gen::CROWDS.len() as u64, crowds),
        ],
        assumptions: &[
            "hooks are observed through probe attributes: their view of the message is its known types, its unknown attributes and the bytes a clone of it encodes to",
            "nested encodings made by MESSAGE-INTEGRITY and FINGERPRINT of the preceding attributes are encodings of their own and are not counted",
            "the padding bytes of an attribute whose value a hook changed are not compared",
        ],
    }
}

/// One attribute of the message under test.
#[derive(Clone, Debug)]
enum It {
    Probe { ty: u16, value: Vec<u8>, pad: Vec<u8>, act: Act },
    Shipped(u16, Val),
    Unknown { ty: u16, value: Vec<u8>, pad: Vec<u8> },
    Mi(Cred),
    Fp { right: bool },
}
#[derive(Clone, Debug)]
struct Case14 {
    class: u8,
    method: u16,
    tid: [u8; 12],
    items: Vec<It>,
}
/// A TLV with the padding it must have, if that matters.
type Tlv = (u16, Vec<u8>, Option<Vec<u8>>);

fn probe_value(r: &mut Rng) -> Vec<u8> {
    let n = *r.pick(&[0usize, 0, 1, 2, 3, 4, 5, 6, 7, 8, 13, 40]);
    r.bytes(n)
}
fn probe_type(r: &mut Rng, mixed: bool) -> u16 {
    if mixed {
        return *r.pick(&[0x4100u16, 0x4200, 0xC101, 0xC102]);
    }
    let n = if r.bool() { 2 } else { 256 };
    0x4100 | r.below(n) as u16
}
fn act_of(r: &mut Rng, fails: bool) -> Act {
    match r.below(16) {
        0 if fails => Act::Fail,
        1..=4 => Act::Set(probe_value(r)),
        _ => Act::Ok,
    }
}
fn items(r: &mut Rng, mixed: bool, wire: bool, fails: bool) -> Case14 {
    let tid = r.tid();
    let n = if r.chance(1, 12) { r.range(8, 20) } else { r.mostly(1, 7) };
    let fails = fails && r.bool();
    let mut items = vec![];
    for _ in 0..n {
        let pad = if wire && r.chance(1, 3) { r.bytes(3) } else { vec![] };
        items.push(match r.below(12) {
            0..=6 => It::Probe { ty: probe_type(r, mixed), value: probe_value(r), pad, act: act_of(r, fails) },
            7 | 8 if mixed => {
                let ty = *r.pick(&[0x0006u16, 0x0020, 0x0018, 0x0013, 0x0020]);
                It::Shipped(ty, gen::val(r, ty, &tid))
            }
            9 if mixed && wire && r.bool() => It::Mi(gen::cred(r)),
            9 if mixed && wire => It::Fp { right: !fails || r.chance(3, 4) },
            _ if wire => {
                let ty = loop {
                    let t = r.u16();
                    if !Mixed::knows(t) && !PA::knows(t) {
                        break t;
                    }
                };
                It::Unknown { ty, value: probe_value(r), pad }
            }
            _ => It::Probe { ty: probe_type(r, mixed), value: probe_value(r), pad, act: act_of(r, fails) },
        });
    }
    // a hook that changes a value before a fingerprint invalidates it: not combined
    if let Some(last) = items.iter().rposition(|i| matches!(i, It::Fp { .. })) {
        for i in items.iter_mut().take(last) {
            if let It::Probe { act: act @ Act::Set(_), .. } = i {
                *act = Act::Ok;
            }
        }
    }
    Case14 { class: r.below(4) as u8, method: gen::method(r), tid, items }
}
fn full_pad(value: &[u8], pad: &[u8]) -> Vec<u8> {
    (0..pad_len(value.len())).map(|i| pad.get(i).copied().unwrap_or(0)).collect()
}
impl Case14 {
    /// The message on the wire as received.
    fn wire(&self) -> Vec<u8> {
        let mut v = header(self.class, self.method, &self.tid, 0);
        for i in &self.items {
            match i {
                It::Probe { ty, value, pad, .. } | It::Unknown { ty, value, pad } => push_tlv(&mut v, *ty, value, pad),
                It::Shipped(ty, val) => {
                    let b = enc_value(*ty, val, Some(&self.tid));
                    push_tlv(&mut v, *ty, &b, &[]);
                }
                It::Mi(c) => {
                    let h = ref_mi(&v, &c.key());
                    push_tlv(&mut v, T_MI, &h, &[]);
                }
                It::Fp { right } => {
                    let f = ref_fp(&v) ^ if *right { 0 } else { 0x10 };
                    push_tlv(&mut v, T_FP, &f.to_be_bytes(), &[]);
                }
            }
        }
        set_len(&mut v);
        v
    }
    fn acts(&self) -> Vec<Act> {
        self.items
            .iter()
            .filter_map(|i| match i {
                It::Probe { act, .. } => Some(act.clone()),
                _ => None,
            })
            .collect()
    }
    fn script(&self, p: Point) -> Vec<(Point, usize, Act)> {
        self.acts().into_iter().enumerate().filter(|(_, a)| *a != Act::Ok).map(|(i, a)| (p, i, a)).collect()
    }
}
/// What the hooks must have seen, and the attributes as they are afterwards.
struct Expect {
    /// Probe, its value when called, the attributes before it: known types, unknown ones, TLVs.
    calls: Vec<Call>,
    /// Some hook failed.
    fails: bool,
    /// All attributes, with the changes made before the first failure.
    tlvs: Vec<Tlv>,
    /// Values of the probes.
    probes: Vec<(u16, Vec<u8>)>,
}
struct Call {
    ty: u16,
    value: Vec<u8>,
    known: Vec<u16>,
    unknown: Vec<(u16, Vec<u8>)>,
    prefix: Vec<Tlv>,
}
/// `after`: decoding, otherwise encoding.
fn expect(c: &Case14, wire: &[u8], after: bool) -> Expect {
    let offs = gen::walk(wire);
    let mut e = Expect { calls: vec![], fails: false, tlvs: vec![], probes: vec![] };
    // how a clone of the preceding attributes encodes
    let mut prefix: Vec<Tlv> = vec![];
    let mut known: Vec<u16> = vec![];
    let mut unknown: Vec<(u16, Vec<u8>)> = vec![];
    for (i, it) in c.items.iter().enumerate() {
        match it {
            It::Probe { ty, value, pad, act } => {
                let (mut v, mut p) = (value.clone(), Some(full_pad(value, pad)));
                if !e.fails {
                    e.calls.push(Call {
                        ty: *ty,
                        value: value.clone(),
                        known: known.clone(),
                        unknown: unknown.clone(),
                        prefix: prefix.clone(),
                    });
                    match act {
                        Act::Set(x) => {
                            v = x.clone();
                            p = None;
                        }
                        Act::Fail => e.fails = true,
                        _ => {}
                    }
                }
                prefix.push((*ty, v.clone(), p.clone()));
                e.tlvs.push((*ty, v.clone(), p));
                known.push(*ty);
                e.probes.push((*ty, v));
            }
            It::Unknown { ty, value, pad } => {
                let t = (*ty, value.clone(), Some(full_pad(value, pad)));
                prefix.push(t.clone());
                e.tlvs.push(t);
                unknown.push((*ty, value.clone()));
            }
            It::Shipped(ty, val) => {
                let masked = enc_value(*ty, val, Some(&c.tid));
                // encoding: the hook has masked the address, encoding the clone masks it again
                let shown = if after { masked.clone() } else { enc_value(*ty, val, None) };
                let p = Some(full_pad(&masked, &[]));
                prefix.push((*ty, shown, p.clone()));
                e.tlvs.push((*ty, masked, p));
                known.push(*ty);
            }
            It::Mi(_) | It::Fp { .. } => {
                let o = offs[i];
                let n = usize::from(u16::from_be_bytes([wire[o + 2], wire[o + 3]]));
                let ty = u16::from_be_bytes([wire[o], wire[o + 1]]);
                let t = (ty, wire[o + 4..o + 4 + n].to_vec(), Some(vec![]));
                prefix.push(t.clone());
                e.tlvs.push(t);
                known.push(ty);
                if after && matches!(it, It::Fp { right: false }) {
                    e.fails = true;
                }
            }
        }
    }
    e
}
/// Compares an encoded message with the TLVs it must consist of; padding only where prescribed.
fn same_wire(c: &Case14, b: &[u8], want: &[Tlv], what: &str) -> Chk {
    let bad = |why: String| Err(Fail::new(format!("{}: {}", what, why)).with(format!("observed {}\nexpected {}", hex(b), clip(&format!("{:x?}", want)))));
    let len: usize = want.iter().map(|t| 4 + t.1.len() + pad_len(t.1.len())).sum();
    if b.len() != 20 + len {
        return bad(format!("{} bytes instead of {}", b.len(), 20 + len));
    }
    if b[..20] != header(c.class, c.method, &c.tid, len as u16)[..] {
        return bad("wrong header".into());
    }
    let mut o = 20;
    for (i, (ty, value, pad)) in want.iter().enumerate() {
        let (n, p) = (value.len(), pad_len(value.len()));
        if b[o..o + 2] != ty.to_be_bytes() || b[o + 2..o + 4] != (n as u16).to_be_bytes() || b[o + 4..o + 4 + n] != value[..] {
            return bad(format!("attribute {} differs", i));
        }
        if let Some(pad) = pad {
            if b[o + 4 + n..o + 4 + n + p] != pad[..] {
                return bad(format!("padding of attribute {} differs", i));
            }
        }
        o += 4 + n + p;
    }
    Ok(())
}
fn same_calls(c: &Case14, e: &Expect, log: &[Event], what: &str) -> Chk {
    let got: Vec<_> = log.iter().map(|e| (e.ty, &e.value)).collect();
    let want: Vec<_> = e.calls.iter().map(|e| (e.ty, &e.value)).collect();
    ensure_eq!(got, want, "{}: hooks called (type, value)", what);
    for (n, (g, w)) in log.iter().zip(&e.calls).enumerate() {
        ensure_eq!((g.class, g.method, g.tid), (c.class, c.method, c.tid), "{}: header shown to hook {}", what, n);
        ensure_eq!(g.known, w.known, "{}: known attributes shown to hook {}", what, n);
        ensure_eq!(g.unknown, w.unknown, "{}: unknown attributes shown to hook {}", what, n);
        match &g.bytes {
            Ok(b) => same_wire(c, b, &w.prefix, &format!("{}: message shown to hook {}, encoded", what, n))?,
            Err(k) => fail!("{}: the message shown to hook {} cannot be encoded: {:?}", what, n, k),
        }
    }
    Ok(())
}
/// Calls of one kind; the others are made by nested encodings.
fn logged(after: bool) -> Vec<Event> {
    probe::take_log().into_iter().filter(|e| e.after == after).collect()
}
fn attr<S: PSet>(c: &Case14, it: &It) -> Option<S> {
    match it {
        It::Probe { ty, value, .. } => S::probe(*ty, value.clone()),
        It::Shipped(ty, v) => S::shipped(*ty, v),
        _ => {
            let _ = c;
            None
        }
    }
}
fn message<S: PSet>(c: &Case14) -> Message<S> {
    let mut m = Message::<S>::new(class_of(c.class), Method::new(c.method).unwrap(), TransactionId::new(c.tid));
    for i in &c.items {
        match attr::<S>(c, i) {
            Some(a) => m.add_attribute(a),
            None => panic!("harness: no such attribute"),
        }
    }
    m
}
fn probes<S: PSet>(m: &Message<S>) -> Vec<(u16, Vec<u8>)> {
    m.attributes().filter_map(|a| a.probe_value().map(|v| (a.get_type().as_u16(), v.to_vec()))).collect()
}

fn show(c: &Case14) -> String {
    clip(&format!("{:x?}", c))
}

/// Encodes `m` in one of the two ways and judges calls and bytes.
fn judge_encode<S: PSet>(c: &mut Case, k: &Case14, m: Message<S>, e: &Expect) -> Chk {
    probe::rescript(&k.script(Point::Before));
    let mut enc = MessageEncoder::<S>::new();
    let at_once = c.r.bool();
    let r = if at_once {
        enc.encode_into_bytes(m).map_err(|e| *e.kind())
    } else {
        match enc.start_encoding(m) {
            Err(e) => Err(*e.kind()),
            Ok(()) => {
                let mut out = vec![];
                let mut guard = 0;
                while !enc.is_idle() {
                    let mut b = vec![0; c.r.range(0, 9)];
                    let n = enc.encode(&mut b, Eos::new(false)).map_err(|e| Fail::new(format!("encoding fails half way with {:?}", e.kind())))?;
                    out.extend_from_slice(b.get(..n).unwrap_or(&[]));
                    guard += 1;
                    ensure!(guard < 100_000, "encoding never ends");
                }
                Ok(out)
            }
        }
    };
    let log = logged(false);
    same_calls(k, e, &log, "encoding")?;
    match (&r, e.fails) {
        (Ok(b), false) => same_wire(k, b, &e.tlvs, "the message sent")?,
        (Err(_), true) => {}
        (Ok(_), true) => fail!("the message is sent although a pre-encode hook failed"),
        (Err(x), false) => fail!("the encoding is refused ({:?}) although every hook succeeded", x),
    }
    // the encoder goes on with the next message, whose hooks all succeed
    let next = {
        let mut i = k.clone();
        i.items.retain(|i| matches!(i, It::Probe { .. } | It::Shipped(..)));
        for it in i.items.iter_mut() {
            if let It::Probe { act, pad, .. } = it {
                *act = Act::Ok;
                pad.clear();
            }
        }
        i
    };
    probe::rescript(&[]);
    let e2 = expect(&next, &[], false);
    match enc.encode_into_bytes(message::<S>(&next)) {
        Ok(b) => same_wire(&next, &b, &e2.tlvs, "the next message sent")?,
        Err(e) => fail!("the next message is refused with {:?}", e.kind()),
    }
    same_calls(&next, &e2, &logged(false), "encoding the next message")?;
    c.count("pre-encode calls observed", log.len() as u64 + e2.calls.len() as u64);
    c.count(if e.fails { "encodings refused by a hook" } else { "encodings with changes sent" }, 1);
    Ok(())
}

fn encode(c: &mut Case) -> Chk {
    if c.idx % 3 == 0 {
        encode_in::<PA>(c, false)
    } else {
        encode_in::<Mixed>(c, true)
    }
}
fn encode_in<S: PSet>(c: &mut Case, mixed: bool) -> Chk {
    let k = items(&mut c.r, mixed, false, true);
    probe::reset(&[]);
    let m = message::<S>(&k);
    let m = if c.r.chance(1, 4) { m.clone() } else { m };
    let e = expect(&k, &[], false);
    c.eval((!e.calls.is_empty()).then(|| hash_dbg(&k)));
    c.sample(|| format!("{} {}", S::NAME, show(&k)));
    judge_encode::<S>(c, &k, m, &e).detail(|| format!("set {}, {}", S::NAME, show(&k)))
}

fn feed_pieces<S: PSet>(c: &mut Case, b: &[u8]) -> Result<stun_codec::DecodedMessage<S>, Fail> {
    use bytecodec::Decode;
    let mut d = MessageDecoder::<S>::new();
    if c.r.bool() {
        return d.decode_from_bytes(b).map_err(|e| Fail::new(format!("decoding fails with {:?}", e.kind())));
    }
    let cut = gen::cut(&mut c.r, b.len());
    let (mut o, mut i) = (0, 0);
    while o < b.len() {
        let n = cut.size(i).min(b.len() - o);
        i += 1;
        let used = d
            .decode(&b[o..o + n], Eos::new(o + n == b.len()))
            .map_err(|e| Fail::new(format!("decoding fails with {:?}", e.kind())))?;
        ensure_eq!(used, n, "bytes consumed");
        o += n;
    }
    ensure!(probe::reached(Point::After) == 0, "a post-decode hook runs before the message is taken out of the decoder");
    d.finish_decoding().map_err(|e| Fail::new(format!("finishing fails with {:?}", e.kind())))
}

fn decode(c: &mut Case) -> Chk {
    if c.idx % 3 == 0 {
        decode_in::<PA>(c, false)
    } else {
        decode_in::<Mixed>(c, true)
    }
}
fn decode_in<S: PSet>(c: &mut Case, mixed: bool) -> Chk {
    let k = items(&mut c.r, mixed, true, true);
    let wire = k.wire();
    let e = expect(&k, &wire, true);
    c.eval((!e.calls.is_empty()).then(|| hash_bytes(&wire) ^ hash_dbg(&k.acts())));
    c.sample(|| format!("{} {}", S::NAME, show(&k)));
    probe::reset(&k.script(Point::After));
    let r = feed_pieces::<S>(c, &wire);
    judge_decode::<S>(c, &k, r, &e).detail(|| format!("set {}, {}\nwire {}", S::NAME, show(&k), hex(&wire)))
}
fn judge_decode<S: PSet>(c: &mut Case, k: &Case14, r: Result<stun_codec::DecodedMessage<S>, Fail>, e: &Expect) -> Chk {
    let r = r?;
    let log = logged(true);
    same_calls(k, e, &log, "decoding")?;
    c.count("post-decode calls observed", log.len() as u64);
    match (r, e.fails) {
        (Ok(m), false) => {
            ensure_eq!(probes(&m), e.probes, "probe values delivered");
            c.count("messages delivered", 1);
            probe::rescript(&[]);
            match MessageEncoder::<S>::new().encode_into_bytes(m.clone()) {
                Ok(b) => same_wire(k, &b, &e.tlvs, "the delivered message, sent on")?,
                Err(x) => fail!("the delivered message cannot be encoded: {:?}", x.kind()),
            }
            Ok(())
        }
        (Err(b), true) => {
            c.count("messages broken by a hook", 1);
            ensure_eq!(
                (class_num(b.class()), b.method().as_u16(), *b.transaction_id().as_bytes()),
                (k.class, k.method, k.tid),
                "header of the broken message"
            );
            Ok(())
        }
        (Ok(_), true) => fail!("the message is delivered although a post-decode hook failed"),
        (Err(b), false) => fail!("the message is broken ({:?}) although every hook succeeded", b.error().kind()),
    }
}

/// Every one of many attributes has its hooks called, in order.
fn crowds(c: &mut Case) -> Chk {
    let n = gen::CROWDS[c.idx as usize / 2].min(8_000);
    let fail = c.idx % 2 == 1;
    let tid = c.r.tid();
    let items = (0..n).map(|_| It::Probe { ty: 0x4100 | c.r.below(3) as u16, value: vec![], pad: vec![], act: Act::Ok }).collect();
    let mut k = Case14 { class: c.r.below(4) as u8, method: gen::method(&mut c.r), tid, items };
    if n <= 130 {
        // with everything the hooks see
        for _ in 0..3 {
            let i = if c.r.bool() { n - 1 } else { c.r.below(n) };
            if let It::Probe { act, .. } = &mut k.items[i] {
                *act = Act::Set(probe_value(&mut c.r));
            }
        }
        if let (true, It::Probe { act, .. }) = (fail, &mut k.items[n - 1]) {
            *act = Act::Fail;
        }
        let wire = k.wire();
        probe::reset(&k.script(Point::After));
        let e = expect(&k, &wire, true);
        c.eval(Some(hash_bytes(&wire)));
        let r = feed_pieces::<PA>(c, &wire);
        judge_decode::<PA>(c, &k, r, &e).detail(|| format!("{} probes", n))?;
        let e = expect(&k, &[], false);
        probe::reset(&[]);
        let m = message::<PA>(&k);
        return judge_encode::<PA>(c, &k, m, &e).detail(|| format!("{} probes", n));
    }
    // every hook leaves its number
    let last = if fail { n - 1 } else { n };
    let script = |p: Point| -> Vec<(Point, usize, Act)> {
        (0..n).map(|i| (p, i, if i == last { Act::Fail } else { Act::Set((i as u32).to_be_bytes().to_vec()) })).collect()
    };
    let mut numbered = k.clone();
    for (i, it) in numbered.items.iter_mut().enumerate() {
        if let It::Probe { value, .. } = it {
            *value = (i as u32).to_be_bytes().to_vec();
        }
    }
    let (wire, after) = (k.wire(), numbered.wire());
    c.eval(Some(hash_bytes(&wire) ^ 2));
    probe::reset(&script(Point::After));
    probe::look(false);
    let r = (|| {
        match feed_pieces::<PA>(c, &wire)? {
            Ok(m) => {
                ensure!(!fail, "the message of {} probes is delivered although the last post-decode hook failed", n);
                let v: Vec<Vec<u8>> = m.attributes().filter_map(|a| a.probe_value().map(|v| v.to_vec())).collect();
                let bad = v.iter().enumerate().find(|(i, v)| v[..] != (*i as u32).to_be_bytes());
                ensure!(v.len() == n && bad.is_none(), "{} of {} probes delivered; in the wrong order, or without their hook: {:?}", v.len(), n, bad);
            }
            Err(b) => ensure!(fail, "the message of {} probes is broken: {:?}", n, b.error().kind()),
        }
        ensure_eq!(probe::reached(Point::After), n, "post-decode hooks called");
        let m = message::<PA>(&k);
        probe::rescript(&script(Point::Before));
        let mut enc = MessageEncoder::<PA>::new();
        match enc.encode_into_bytes(m) {
            Ok(b) => ensure!(!fail && b == after, "the message of {} probes is sent although a hook failed, or otherwise than its hooks made it", n),
            Err(e) => ensure!(fail, "the message of {} probes is refused: {:?}", n, e.kind()),
        }
        ensure_eq!(probe::reached(Point::Before), n, "pre-encode hooks called");
        Ok(())
    })();
    probe::look(true);
    c.count("hook calls counted", 2 * n as u64);
    r
}

/// A received message, extended, and sent on with hooks that change values.
fn forward(c: &mut Case) -> Chk {
    if c.idx % 3 == 0 {
        forward_in::<PA>(c, false)
    } else {
        forward_in::<Mixed>(c, true)
    }
}
fn forward_in<S: PSet>(c: &mut Case, mixed: bool) -> Chk {
    let mut k = items(&mut c.r, mixed, true, true);
    for i in k.items.iter_mut() {
        if let It::Fp { right } = i {
            *right = true;
        }
    }
    let wire = k.wire();
    probe::reset(&[]);
    let mut m = match feed_pieces::<S>(c, &wire)? {
        Ok(m) => m,
        Err(b) => fail!("a sound message is broken: {:?}, {}", b.error().kind(), hex(&wire)),
    };
    if c.r.bool() {
        let more = items(&mut c.r, mixed, false, true);
        for i in more.items {
            // values were drawn for another transaction ID, which does not matter
            if let Some(a) = attr::<S>(&k, &i) {
                m.add_attribute(a);
                k.items.push(i);
            }
        }
    }
    let e = expect(&k, &wire, false);
    c.eval((!e.calls.is_empty()).then(|| hash_bytes(&wire) ^ hash_dbg(&k.acts()) ^ 1));
    judge_encode::<S>(c, &k, m, &e).detail(|| format!("set {}, received {} and sent on as {}", S::NAME, hex(&wire), show(&k)))
}

/// An attribute section that does not parse: no post-decode hook at all.
fn malformed(c: &mut Case) -> Chk {
    let k = items(&mut c.r, true, true, false);
    let mut wire = k.wire();
    if c.r.chance(1, 5) {
        // taken out before it is complete
        use bytecodec::Decode;
        let n = c.r.below(wire.len());
        probe::reset(&[]);
        c.eval(Some(hash_bytes(&wire) ^ n as u64));
        let mut d = MessageDecoder::<Mixed>::new();
        let _ = d.decode(&wire[..n], Eos::new(false));
        let r = d.finish_decoding();
        ensure!(probe::reached(Point::After) == 0, "a post-decode hook runs although only {} bytes have arrived of {}", n, hex(&wire));
        ensure!(!matches!(r, Ok(Ok(_))), "a message is delivered although only {} bytes have arrived of {}", n, hex(&wire));
        return Ok(());
    }
    match c.r.below(4) {
        0 => {
            let n = c.r.range(1, 3);
            wire.extend(c.r.bytes(n));
        }
        1 => {
            // overruns by a few bytes
            let n = c.r.below(9);
            let ty = probe_type(&mut c.r, true);
            wire.extend_from_slice(&ty.to_be_bytes());
            wire.extend_from_slice(&(n as u16 + 1 + c.r.below(50) as u16).to_be_bytes());
            wire.extend(vec![7u8; n / 4 * 4]);
            if n / 4 * 4 >= 4 {
                // might fit by accident
                let o = wire.len() - n / 4 * 4 - 2;
                wire[o..o + 2].copy_from_slice(&(n as u16 / 4 * 4 + 1).to_be_bytes());
            }
        }
        2 => push_tlv(&mut wire, 0x0018, &[1, 2], &[]),
        _ => push_tlv(&mut wire, 0x0006, b"ab\xff", &[]),
    }
    set_len(&mut wire);
    probe::reset(&[]);
    c.eval(Some(hash_bytes(&wire)));
    let r = feed_pieces::<Mixed>(c, &wire).detail(|| hex(&wire))?;
    let log = logged(true);
    let f = |s: String| Err(Fail::new(s).with(hex(&wire)));
    if r.is_ok() {
        return f("a message whose attribute section does not parse is delivered".into());
    }
    if !log.is_empty() {
        return f(format!("{} post-decode hooks run although the attribute section does not parse", log.len()));
    }
    c.count("malformed sections", 1);
    Ok(())
}

/// The same for the hooks of the shipped attributes, whose effect is the masking of addresses: in
/// a set in which every type is masked or not, each exactly once, whatever precedes it.
fn shipped(c: &mut Case) -> Chk {
    let set = any_set(&mut c.r);
    if set.knows().raw {
        return Ok(());
    }
    let tid = c.r.tid();
    let types = set.types();
    let n = c.r.range(1, 8);
    let mut attrs = vec![];
    for _ in 0..n {
        let xor: Vec<u16> = types.iter().copied().filter(|t| kind_of(*t) == Some(Kind::XorAddr)).collect();
        let ty = if !xor.is_empty() && c.r.bool() { *c.r.pick(&xor) } else { *c.r.pick(&types) };
        if ty == T_FP {
            continue;
        }
        attrs.push((ty, gen::val(&mut c.r, ty, &tid)));
    }
    let p = Plan { class: c.r.below(4) as u8, method: gen::method(&mut c.r), tid, attrs };
    let m = build(&p, set)?;
    let wire = p.wire();
    c.eval((!p.attrs.is_empty()).then(|| hash_bytes(&wire)));
    let show = || show_plan(set, &p);
    let b = encode_ok(set, &*m).detail(show)?;
    ensure!(b == wire, "hooks of shipped attributes: sent {} instead of {} ({})", hex(&b), hex(&wire), show());
    // the original is not touched by encoding its copies
    ensure_eq!(m.snap(), p.snap(), "the message after a copy of it was encoded ({})", show());
    match decode_all(set, &wire).out {
        Out::Valid(d) => {
            ensure_eq!(d.snap(), p.snap(), "hooks of shipped attributes: delivered ({})", show());
            // several forwards in a row
            let mut d = d;
            for _ in 0..c.r.range(1, 3) {
                let b = encode_ok(set, &*d).detail(show)?;
                ensure!(b == wire, "hooks of shipped attributes: forwarded {} instead of {} ({})", hex(&b), hex(&wire), show());
                d = match decode_all(set, &b).out {
                    Out::Valid(d) => d,
                    o => fail!("forwarded message is not valid: {} ({})", o.show(), show()),
                };
            }
            Ok(())
        }
        o => fail!("hooks of shipped attributes: {} ({})", o.show(), show()),
    }
}
