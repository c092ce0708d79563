//! C24: codecs inside the combinators and I/O adapters of bytecodec.
use super::util::*;
use bytecodec::bytes::{BytesEncoder, RemainingBytesDecoder};
use bytecodec::fixnum::{U16beDecoder, U16beEncoder, U32beDecoder, U32beEncoder, U8Decoder, U8Encoder};
use bytecodec::io::{BufferedIo, IoDecodeExt, IoEncodeExt, ReadBuf, WriteBuf};
use bytecodec::tuple::TupleEncoder;
use bytecodec::{Decode, DecodeExt, Encode, EncodeExt, SizedEncode};
use std::io::{Read, Write};
use trackable::error::ErrorKindExt;

pub fn check() -> Check {
    Check {
        id: "C24",
        rule: "distinct (bytes, combinators or adapter, splitting or faults) compared with the codec alone",
        suites: vec![
            random("wrapped decoders", 120_000, 4_000_000, wrapped_decoders),
            random("cut by a length", 60_000, 1_500_000, cut_short),
            random("frames", 60_000, 2_000_000, frames),
            random("collections", 60_000, 2_000_000, collections),
            random("tuples", 50_000, 1_500_000, tuples),
            random("slices", 50_000, 1_500_000, slices),
            random("wrapped encoders", 120_000, 4_000_000, wrapped_encoders),
            random("repetition", 60_000, 2_000_000, repetition),
            random("wrapped values", 150_000, 4_000_000, wrapped_values),
            random("containers of values", 80_000, 2_000_000, containers),
            random("values in sequence", 80_000, 2_000_000, records),
            random("blocking reads", 50_000, 1_500_000, blocking_reads),
            random("non-blocking reads", 50_000, 1_500_000, polled_reads),
            random("blocking writes", 50_000, 1_500_000, blocking_writes),
            random("non-blocking writes", 50_000, 1_500_000, polled_writes),
            random("buffered streams", 40_000, 1_000_000, buffered),
        ],
        assumptions: &[
            "the combinators and adapters are those of bytecodec 0.4.15; what they do to codecs of other crates is taken for granted",
            "a length combinator over an encoder is used for one item, as bytecodec's does not start again",
        ],
    }
}

// The codecs under test, seen as codecs again.
struct D(Box<dyn DynDecoder>);
impl Decode for D {
    type Item = Decoded;
    fn decode(&mut self, b: &[u8], eos: Eos) -> bytecodec::Result<usize> {
        self.0.decode(b, eos).map_err(|k| k.cause("relayed").into())
    }
    fn finish_decoding(&mut self) -> bytecodec::Result<Decoded> {
        self.0.finish().map_err(|k| k.cause("relayed").into())
    }
    fn requiring_bytes(&self) -> ByteCount {
        self.0.req()
    }
    fn is_idle(&self) -> bool {
        self.0.idle()
    }
}
struct E(Box<dyn DynEncoder>);
impl Encode for E {
    type Item = Box<dyn DynMsg>;
    fn encode(&mut self, b: &mut [u8], eos: Eos) -> bytecodec::Result<usize> {
        self.0.encode(b, eos).map_err(|k| k.cause("relayed").into())
    }
    fn start_encoding(&mut self, m: Box<dyn DynMsg>) -> bytecodec::Result<()> {
        self.0.start(m).map_err(|k| k.cause("relayed").into())
    }
    fn requiring_bytes(&self) -> ByteCount {
        self.0.req()
    }
    fn is_idle(&self) -> bool {
        self.0.idle()
    }
}
impl SizedEncode for E {
    fn exact_requiring_bytes(&self) -> u64 {
        self.0.exact()
    }
}
struct VD {
    d: Box<dyn ValDecoder>,
    /// The codec of a set must be told the type first, which happens with the first bytes.
    asleep: bool,
    of_set: bool,
}
impl VD {
    fn new(vc: &ValCodec) -> VD {
        let of_set = vc.name.contains("(set");
        VD { d: (vc.decoder)(), asleep: of_set, of_set }
    }
}
impl Decode for VD {
    type Item = Val;
    fn decode(&mut self, b: &[u8], eos: Eos) -> bytecodec::Result<usize> {
        self.asleep = false;
        self.d.decode(b, eos).map_err(|k| k.cause("relayed").into())
    }
    fn finish_decoding(&mut self) -> bytecodec::Result<Val> {
        self.asleep = self.of_set;
        self.d.finish().map_err(|k| k.cause("relayed").into())
    }
    fn requiring_bytes(&self) -> ByteCount {
        if self.asleep {
            ByteCount::Unknown
        } else {
            self.d.req()
        }
    }
    fn is_idle(&self) -> bool {
        !self.asleep && self.d.idle()
    }
}
struct VE(Box<dyn ValEncoder>);
impl Encode for VE {
    type Item = Val;
    fn encode(&mut self, b: &mut [u8], eos: Eos) -> bytecodec::Result<usize> {
        self.0.encode(b, eos).map_err(|k| k.cause("relayed").into())
    }
    fn start_encoding(&mut self, v: Val) -> bytecodec::Result<()> {
        match self.0.start(&v) {
            None => panic!("harness: the constructor refuses {:?}", v),
            Some(r) => r.map_err(|k| k.cause("relayed").into()),
        }
    }
    fn requiring_bytes(&self) -> ByteCount {
        self.0.req()
    }
    fn is_idle(&self) -> bool {
        self.0.idle()
    }
}
impl SizedEncode for VE {
    fn exact_requiring_bytes(&self) -> u64 {
        self.0.exact()
    }
}
type BoxD<T> = Box<dyn Decode<Item = T>>;
type BoxE<T> = Box<dyn Encode<Item = T>>;

fn ess(d: &Decoded) -> Essence {
    match d {
        Ok(m) => Essence::Valid(m.snap()),
        Err(b) => Essence::Broken(b.class, b.method, b.tid),
    }
}

/// A message whose end is where its length field says, and what has to come of it.
fn message(r: &mut Rng, set: &dyn DynSet) -> Option<(Vec<u8>, Essence)> {
    let b = if r.chance(2, 3) {
        gen::image(r, set, gen::VALID).bytes()
    } else {
        let mut b = any_framed(r, set);
        let n = usize::from(u16::from_be_bytes([b[2], b[3]])) & 0xfff;
        b[2..4].copy_from_slice(&(n as u16).to_be_bytes());
        b.resize(20 + n, 0);
        b
    };
    match expected(set, &b)? {
        e @ (Essence::Valid(_) | Essence::Broken(..)) => Some((b, e)),
        _ => None,
    }
}
fn messages(r: &mut Rng, set: &dyn DynSet, n: usize) -> Vec<(Vec<u8>, Essence)> {
    (0..n).filter_map(|_| message(r, set)).collect()
}

/// Feeds pieces until the decoder is idle; the item and how many bytes it took.
fn push<X: Decode>(d: &mut X, b: &[u8], cut: &Cut, mode: Mode) -> Result<Result<(X::Item, usize), ErrorKind>, Fail> {
    let (mut off, mut i, mut idle_calls) = (0, 0, 0);
    loop {
        let n = cut.size(i).min(b.len() - off);
        i += 1;
        let rest = b.len() - off;
        if let (Some(q), true) = (d.requiring_bytes().to_u64(), off < b.len()) {
            ensure!(q >= 1, "nothing is required although the item is not complete, after {} of {} bytes", off, b.len());
            ensure!(q <= rest as u64, "{} bytes are required although the item ends {} bytes from here at the latest", q, rest);
        }
        match d.decode(&b[off..off + n], eos(mode, b.len() - off - n)) {
            Err(e) => return Ok(Err(*e.kind())),
            Ok(k) => {
                ensure!(k <= n, "{} bytes are taken of {}", k, n);
                idle_calls = if k == 0 && n > 0 { idle_calls + 1 } else { 0 };
                ensure!(idle_calls < 3, "no progress after {} of {} bytes", off, b.len());
                off += k;
            }
        }
        if !d.is_idle() && off == b.len() {
            if mode != Mode::Late {
                return Ok(Err(ErrorKind::IncompleteDecoding));
            }
            if let Err(e) = d.decode(&[], Eos::new(true)) {
                return Ok(Err(*e.kind()));
            }
            if !d.is_idle() {
                return Ok(Err(ErrorKind::IncompleteDecoding));
            }
        }
        if d.is_idle() {
            return Ok(match d.finish_decoding() {
                Ok(x) => Ok((x, off)),
                Err(e) => Err(*e.kind()),
            });
        }
    }
}

/// Random wrappers that change nothing. `len`: of the item; `all`: of everything that is offered.
fn wrap_d<T: 'static>(r: &mut Rng, d: BoxD<T>, len: usize, all: usize, sized: &mut bool, desc: &mut String) -> BoxD<T> {
    let mut d = d;
    for _ in 0..r.range(1, 5) {
        let (n, x): (&str, BoxD<T>) = match r.below(10) {
            0 => {
                *sized = true;
                ("length", Box::new(d.length(len as u64)))
            }
            1 => ("max_bytes", Box::new(d.max_bytes(all as u64 + r.below(3) as u64))),
            2 => ("map", Box::new(d.map(|x| x))),
            3 => ("try_map", Box::new(d.try_map(Ok::<T, bytecodec::Error>))),
            4 => ("map_err", Box::new(d.map_err(|e| e))),
            5 => ("peekable", Box::new(d.peekable())),
            6 => ("maybe_eos", Box::new(d.maybe_eos())),
            7 => ("omit", Box::new(d.omit(false).map(|x| x.expect("harness: not omitted")))),
            8 => {
                let mut s = d.slice();
                s.set_consumable_bytes(u64::MAX >> 1);
                ("slice", Box::new(s))
            }
            _ => ("chain", Box::new(d.chain(bytecodec::null::NullDecoder::default()).map(|(x, ())| x))),
        };
        d = x;
        desc.push('.');
        desc.push_str(n);
    }
    d
}
fn differs(got: &Result<(Essence, usize), ErrorKind>, want: &Essence, len: usize) -> Option<String> {
    match got {
        Ok((e, n)) if e == want && *n == len => None,
        Ok((e, n)) if e == want => Some(format!("{} bytes are taken by an item of {}", n, len)),
        Ok((e, _)) => Some(format!("{:?} is delivered instead of {:?}", e, want)),
        Err(k) => Some(format!("fails with {:?} instead of delivering {:?}", k, want)),
    }
}
fn wrapped_decoders(c: &mut Case) -> Chk {
    let set = any_set(&mut c.r);
    let Some((b, want)) = message(&mut c.r, set) else { return Ok(()) };
    let tail = if c.r.bool() { c.r.below(30) } else { 0 };
    let mut all = b.clone();
    all.extend(c.r.bytes(tail));
    let mut desc = String::from("decoder");
    let mut sized = false;
    let mut d = wrap_d(&mut c.r, Box::new(D(set.decoder())) as BoxD<Decoded>, b.len(), all.len(), &mut sized, &mut desc);
    for again in 0..3 {
        // the same once more, then another one
        let (all, b, want) = if again == 2 {
            if sized || desc.contains("max_bytes") {
                break;
            }
            let Some((b, want)) = message(&mut c.r, set) else { break };
            (b.clone(), b, want)
        } else {
            (all.clone(), b.clone(), want.clone())
        };
        let cut = gen::cut(&mut c.r, all.len());
        // a limit must not see more than it allows
        let mode = if desc.contains("max_bytes") { *c.r.pick(&MODES[..4]) } else { any_mode(&mut c.r) };
        let got = push(&mut d, &all, &cut, mode)
            .and_then(|g| match differs(&g.map(|(x, n)| (ess(&x), n)), &want, b.len()) {
                None => Ok(()),
                Some(w) => Err(Fail::new(format!("a wrapped decoder: {}", w))),
            })
            .detail(|| format!("{}, use {}, {:?} {:?}\n{}", desc, again + 1, cut, mode, show_bytes(set, &all)));
        got?;
        c.eval(Some(hash_bytes(&all) ^ hash_bytes(desc.as_bytes()) ^ hash_dbg(&cut)));
    }
    c.sample(|| desc.clone());
    c.count("wrapped decodings", 1);
    Ok(())
}
/// An enclosing length that ends inside the message, or behind it.
fn cut_short(c: &mut Case) -> Chk {
    let set = any_set(&mut c.r);
    let Some((b, _)) = message(&mut c.r, set) else { return Ok(()) };
    let over = c.r.chance(1, 4);
    let n = if over { b.len() + c.r.range(1, 9) } else { c.r.below(b.len()) };
    let mut all = b.clone();
    let more = c.r.below(30);
    all.extend(c.r.bytes(more));
    if over && all.len() < n {
        all.resize(n, 0);
    }
    let mut d = D(set.decoder()).length(n as u64);
    let cut = gen::cut(&mut c.r, all.len());
    let mode = any_mode(&mut c.r);
    // a decoder that waits for ever delivers nothing either
    let (mut off, mut i, mut stuck) = (0, 0, 0);
    let show = || format!("length {} over {:?} {:?}\n{}", n, cut, mode, show_bytes(set, &all));
    while off < all.len() && stuck < 4 {
        let k = cut.size(i).min(all.len() - off);
        i += 1;
        match d.decode(&all[off..off + k], eos(mode, all.len() - off - k)) {
            Err(_) => break,
            Ok(t) => {
                ensure!(t <= k, "{} bytes are taken of {}, {}", t, k, show());
                stuck = if t == 0 { stuck + 1 } else { 0 };
                off += t;
                ensure!(off <= n, "bytes behind the enclosing length are taken, {}", show());
            }
        }
        if d.is_idle() {
            break;
        }
    }
    c.eval(Some(hash_bytes(&all) ^ mix(n as u64) ^ hash_dbg(&cut)));
    match d.finish_decoding() {
        Ok(Ok(_)) => fail!("a message is delivered as valid although the enclosing length of {} is not its own of {}, {}", n, b.len(), show()),
        _ => Ok(()),
    }
}
/// Length-prefixed frames (RFC 4571), one decoder for all.
fn frames(c: &mut Case) -> Chk {
    let set = any_set(&mut c.r);
    let k = c.r.range(1, 5);
    let msgs = messages(&mut c.r, set, k);
    let mut all = vec![];
    for (b, _) in &msgs {
        all.extend_from_slice(&(b.len() as u16).to_be_bytes());
        all.extend_from_slice(b);
    }
    let mut d = U16beDecoder::new().and_then(move |n| D(set.decoder()).length(u64::from(n)));
    let mut off = 0;
    for (i, (b, want)) in msgs.iter().enumerate() {
        let cut = gen::cut(&mut c.r, all.len() - off);
        let mode = any_mode(&mut c.r);
        push(&mut d, &all[off..], &cut, mode)
            .and_then(|g| match differs(&g.map(|(x, n)| (ess(&x), n)), want, 2 + b.len()) {
                None => Ok(()),
                Some(w) => Err(Fail::new(format!("a framed message: {}", w))),
            })
            .detail(|| format!("frame {} of {}, {:?} {:?}\n{}", i + 1, msgs.len(), cut, mode, show_bytes(set, b)))?;
        off += 2 + b.len();
        c.eval(Some(hash_bytes(b) ^ hash_dbg(&cut) ^ i as u64));
    }
    // and written that way
    let mut e = TupleEncoder::new((U16beEncoder::new(), E(set.encoder())));
    for (b, want) in &msgs {
        let Essence::Valid(_) = want else { continue };
        let m = decode_valid(set, b).map_err(Fail::new)?;
        let alone = encode_ok(set, &*m)?;
        let mut want = (alone.len() as u16).to_be_bytes().to_vec();
        want.extend_from_slice(&alone);
        if let Err(x) = e.start_encoding((alone.len() as u16, m)) {
            fail!("starting a frame fails with {:?}", x.kind());
        }
        let cut = gen::cut(&mut c.r, want.len());
        let got = pull(&mut e, &cut, want.len())?;
        ensure!(got.as_ref() == Ok(&want), "a framed message is written as {:?} instead of {}", got.map(|b| hex(&b)), hex(&want));
    }
    c.count("frames", msgs.len() as u64);
    Ok(())
}
/// Everything a section holds, or the first few.
fn collections(c: &mut Case) -> Chk {
    let set = any_set(&mut c.r);
    let k = c.r.range(0, 5);
    let msgs = messages(&mut c.r, set, k);
    let all: Vec<u8> = msgs.iter().flat_map(|m| m.0.clone()).collect();
    let cut = gen::cut(&mut c.r, all.len());
    let mut mode = any_mode(&mut c.r);
    let show = |mode: Mode| format!("{} messages, {:?} {:?}\n{}", msgs.len(), cut, mode, hex(&all));
    let take = |v: &[Decoded], n: usize| -> Chk {
        ensure_eq!(v.iter().map(ess).collect::<Vec<_>>(), msgs[..n].iter().map(|m| m.1.clone()).collect::<Vec<_>>(), "collected messages");
        Ok(())
    };
    if c.r.bool() || msgs.is_empty() {
        // all of them
        let bounded = c.r.bool();
        if !bounded && matches!(mode, Mode::Open | Mode::Ample(_) | Mode::Endless) {
            mode = Mode::Late;
        }
        if all.is_empty() {
            mode = Mode::AtEnd;
        }
        let plain = D(set.decoder()).collect::<Vec<_>>();
        let mut d: BoxD<Vec<Decoded>> = if bounded { Box::new(plain.length(all.len() as u64)) } else { Box::new(plain) };
        for _ in 0..2 {
            let r = push(&mut d, &all, &cut, mode).detail(|| show(mode))?;
            match r {
                Ok((v, n)) => {
                    take(&v, msgs.len()).detail(|| show(mode))?;
                    ensure_eq!(n, all.len(), "bytes taken by all messages");
                }
                Err(k) => fail!("collecting messages fails with {:?}; {}", k, show(mode)),
            }
            c.eval(Some(hash_bytes(&all) ^ hash_dbg(&cut)));
        }
    } else {
        let n = c.r.range(1, msgs.len());
        let len: usize = msgs[..n].iter().map(|m| m.0.len()).sum();
        let mut d = D(set.decoder()).collectn::<Vec<_>>(n);
        match push(&mut d, &all, &cut, mode).detail(|| show(mode))? {
            Ok((v, took)) => {
                take(&v, n).detail(|| show(mode))?;
                ensure_eq!(took, len, "bytes taken by the first {} messages", n);
            }
            Err(k) => fail!("collecting {} messages fails with {:?}; {}", n, k, show(mode)),
        }
        c.eval(Some(hash_bytes(&all) ^ hash_dbg(&cut) ^ n as u64));
    }
    c.count("collected messages", msgs.len() as u64);
    Ok(())
}
/// Messages with other things before, between and behind them.
fn tuples(c: &mut Case) -> Chk {
    let set = any_set(&mut c.r);
    let two = any_set(&mut c.r);
    let (Some((a, wa)), Some((b, wb))) = (message(&mut c.r, set), message(&mut c.r, two)) else { return Ok(()) };
    let n = c.r.u32();
    let t = c.r.u8();
    let rest_len = c.r.below(20);
    let rest = c.r.bytes(rest_len);
    let mut all = n.to_be_bytes().to_vec();
    all.extend_from_slice(&a);
    all.push(t);
    all.extend_from_slice(&b);
    let mut d = U32beDecoder::new().chain(D(set.decoder())).chain(U8Decoder::new()).chain(D(two.decoder()));
    for round in 0..2 {
        let mut with = all.clone();
        with.extend_from_slice(&rest);
        let cut = gen::cut(&mut c.r, with.len());
        let mode = any_mode(&mut c.r);
        let show = || format!("round {}, {:?} {:?}\n{}", round, cut, mode, hex(&with));
        match push(&mut d, &with, &cut, mode).detail(show)? {
            Ok(((((x, y), z), w), took)) => {
                ensure!(x == n && z == t && took == all.len(), "the surroundings of messages come out as {} {} after {} bytes, {}", x, z, took, show());
                ensure_eq!((ess(&y), ess(&w)), (wa.clone(), wb.clone()), "messages of a chain, {}", show());
            }
            Err(k) => fail!("a chain fails with {:?}, {}", k, show()),
        }
        c.eval(Some(hash_bytes(&with) ^ hash_dbg(&cut)));
    }
    // written
    let (Essence::Valid(_), Essence::Valid(_)) = (&wa, &wb) else { return Ok(()) };
    let (ma, mb) = (decode_valid(set, &a).map_err(Fail::new)?, decode_valid(two, &b).map_err(Fail::new)?);
    let mut want = n.to_be_bytes().to_vec();
    want.extend(encode_ok(set, &*ma)?);
    want.push(t);
    want.extend(encode_ok(two, &*mb)?);
    want.extend_from_slice(&rest);
    let mut e = TupleEncoder::new((U32beEncoder::new(), E(set.encoder()), U8Encoder::new(), E(two.encoder()), BytesEncoder::<Vec<u8>>::new()));
    for _ in 0..2 {
        if let Err(x) = e.start_encoding((n, ma.clone_box(), t, mb.clone_box(), rest.clone())) {
            fail!("starting a chain fails with {:?}", x.kind());
        }
        ensure_eq!(e.requiring_bytes(), ByteCount::Finite(want.len() as u64), "size announced by a chain");
        let cut = gen::cut(&mut c.r, want.len());
        let got = pull(&mut e, &cut, want.len())?;
        ensure!(got.as_ref() == Ok(&want), "a chain is written as {:?} instead of {}", got.map(|b| hex(&b)), hex(&want));
    }
    // what follows a message is left to others
    let mut d = D(set.decoder()).chain(RemainingBytesDecoder::new());
    let mut with = a.clone();
    with.extend_from_slice(&rest);
    let cut = gen::cut(&mut c.r, with.len());
    match push(&mut d, &with, &cut, Mode::Late)? {
        Ok(((m, r), _)) => ensure!(ess(&m) == wa && r == rest, "behind the message there were {} and not {}", hex(&r), hex(&rest)),
        Err(k) => fail!("a message and the rest fail with {:?}", k),
    }
    Ok(())
}
/// Several decoders, or encoders, take turns at one stream, each with a random allowance.
fn slices(c: &mut Case) -> Chk {
    let set = any_set(&mut c.r);
    let k = c.r.range(2, 4);
    let msgs = messages(&mut c.r, set, k);
    if c.r.bool() {
        let mut ds: Vec<_> = msgs.iter().map(|_| D(set.decoder()).slice()).collect();
        let mut offs = vec![0; msgs.len()];
        let mut got: Vec<Option<Essence>> = vec![None; msgs.len()];
        let mut guard = 0;
        while got.iter().any(|g| g.is_none()) {
            guard += 1;
            ensure!(guard < 20_000_000, "slices make no progress");
            let i = c.r.below(msgs.len());
            if got[i].is_some() {
                continue;
            }
            let b = &msgs[i].0[offs[i]..];
            let allow = c.r.mostly(0, 40).min(b.len());
            ds[i].set_consumable_bytes(allow as u64);
            // what is offered belongs to others as well
            let mut buf = b[..allow].to_vec();
            let others = c.r.below(8);
            buf.extend(c.r.bytes(others));
            match ds[i].decode(&buf, Eos::new(c.r.chance(1, 4) && allow == b.len())) {
                Ok(n) => {
                    ensure!(n == allow, "a sliced decoder takes {} of its {} bytes", n, allow);
                    ensure!(ds[i].is_suspended(), "not suspended");
                    offs[i] += n;
                }
                Err(e) => fail!("a sliced decoder fails with {:?}: {}", e.kind(), show_bytes(set, &msgs[i].0)),
            }
            ensure_eq!(ds[i].is_idle(), offs[i] == msgs[i].0.len(), "a sliced decoder is idle or not, after {} of {} bytes", offs[i], msgs[i].0.len());
            if ds[i].is_idle() {
                got[i] = Some(match ds[i].finish_decoding() {
                    Ok(d) => ess(&d),
                    Err(e) => fail!("finishing fails with {:?}", e.kind()),
                });
            }
        }
        for (g, (b, w)) in got.iter().zip(&msgs) {
            ensure!(g.as_ref() == Some(w), "a sliced decoder delivers {:?} instead of {:?}", g, w);
            c.eval(Some(hash_bytes(b) ^ guard));
        }
    } else {
        let mut es: Vec<_> = vec![];
        let mut wants = vec![];
        for (b, w) in &msgs {
            if let Essence::Valid(_) = w {
                let m = decode_valid(set, b).map_err(Fail::new)?;
                wants.push(encode_ok(set, &*m)?);
                let mut e = E(set.encoder()).slice();
                if let Err(x) = e.start_encoding(m) {
                    fail!("starting fails with {:?}", x.kind());
                }
                es.push(e);
            }
        }
        let mut outs: Vec<Vec<u8>> = vec![vec![]; es.len()];
        let mut guard = 0;
        while es.iter().any(|e| !e.is_idle()) {
            guard += 1;
            ensure!(guard < 20_000_000, "slices make no progress");
            let i = c.r.below(es.len());
            let left = wants[i].len() - outs[i].len();
            ensure_eq!(es[i].exact_requiring_bytes(), left as u64, "size announced by a sliced encoder");
            let allow = c.r.mostly(0, 40);
            es[i].set_consumable_bytes(allow as u64);
            let mut buf = vec![0xee; allow + 8];
            match es[i].encode(&mut buf, Eos::new(false)) {
                Ok(n) => {
                    ensure!(n == allow.min(left), "a sliced encoder writes {} of {} bytes into {}", n, left, allow);
                    ensure!(buf[n..].iter().all(|x| *x == 0xee), "a sliced encoder writes beyond its allowance");
                    outs[i].extend_from_slice(&buf[..n]);
                }
                Err(e) => fail!("a sliced encoder fails with {:?}", e.kind()),
            }
        }
        for (o, w) in outs.iter().zip(&wants) {
            ensure!(o == w, "sliced encoders write {} instead of {}", hex(o), hex(w));
            c.eval(Some(hash_bytes(o) ^ guard));
        }
    }
    Ok(())
}

/// Encodes piece by piece what has been started.
fn pull<X: Encode>(e: &mut X, cut: &Cut, expect: usize) -> Result<Result<Vec<u8>, ErrorKind>, Fail> {
    let (mut out, mut i, mut stuck) = (vec![], 0, 0);
    while !e.is_idle() {
        let n = cut.size(i).min(expect + 9);
        i += 1;
        let mut buf = vec![0; n];
        let big = n >= expect.saturating_sub(out.len());
        match e.encode(&mut buf, Eos::new(big && i % 2 == 0)) {
            Ok(k) => {
                ensure!(k <= n, "{} bytes written into {}", k, n);
                stuck = if k == 0 && n > 0 { stuck + 1 } else { 0 };
                out.extend_from_slice(&buf[..k]);
            }
            Err(x) => return Ok(Err(*x.kind())),
        }
        ensure!(stuck < 4 && out.len() <= expect + 70_000, "no end after {} bytes of {}", out.len(), expect);
    }
    Ok(Ok(out))
}
fn wrap_e<T: 'static>(r: &mut Rng, e: BoxE<T>, len: usize, sized: &mut bool, desc: &mut String) -> BoxE<T> {
    let mut e = e;
    for _ in 0..r.range(1, 5) {
        let (n, x): (&str, BoxE<T>) = match r.below(8) {
            0 => {
                *sized = true;
                ("length", Box::new(e.length(len as u64)))
            }
            1 => ("max_bytes", Box::new(e.max_bytes((len + r.below(3)) as u64))),
            2 => ("map_from", Box::new(e.map_from(|x| x))),
            3 => ("try_map_from", Box::new(e.try_map_from(Ok::<T, bytecodec::Error>))),
            4 => ("map_err", Box::new(e.map_err(|e: bytecodec::Error| e))),
            5 => ("pre_encode", Box::new(e.pre_encode())),
            6 => ("optional", Box::new(e.optional().map_from(Some))),
            _ => {
                let mut s = e.slice();
                s.set_consumable_bytes(u64::MAX >> 1);
                ("slice", Box::new(s))
            }
        };
        e = x;
        desc.push('.');
        desc.push_str(n);
    }
    e
}
fn wrapped_encoders(c: &mut Case) -> Chk {
    let set = any_set(&mut c.r);
    let p = auth_plan(&mut c.r, set);
    let m = p.build(set)?;
    let want = encode_ok(set, &*m)?;
    let mut desc = String::from("encoder");
    let mut sized = false;
    let mut e = wrap_e(&mut c.r, Box::new(E(set.encoder())) as BoxE<Box<dyn DynMsg>>, want.len(), &mut sized, &mut desc);
    for again in 0..if sized { 1 } else { 3 } {
        let cut = gen::cut(&mut c.r, want.len());
        let at_once = c.r.chance(1, 4);
        let show = || format!("{}, use {}, {}\n{}", desc, again + 1, if at_once { "at once".into() } else { format!("{:?}", cut) }, hex(&want));
        let got = if at_once {
            e.encode_into_bytes(m.clone_box()).map_err(|e| *e.kind())
        } else {
            match e.start_encoding(m.clone_box()) {
                Err(x) => Err(*x.kind()),
                Ok(()) => {
                    ensure!(!e.is_idle(), "a wrapped encoder is idle right after the start, {}", show());
                    if let Some(n) = e.requiring_bytes().to_u64() {
                        ensure!(n == want.len() as u64, "a wrapped encoder announces {} bytes, {}", n, show());
                    }
                    if !sized {
                        // busy
                        let r = e.start_encoding(m.clone_box()).map_err(|e| *e.kind());
                        ensure!(r == Err(ErrorKind::EncoderFull), "starting a busy wrapped encoder gives {:?}, {}", r, show());
                    }
                    pull(&mut e, &cut, want.len()).detail(show)?
                }
            }
        };
        match &got {
            Ok(b) => ensure!(*b == want, "a wrapped encoder writes {}, {}", hex(b), show()),
            Err(k) => fail!("a wrapped encoder fails with {:?}, {}", k, show()),
        }
        ensure!(e.is_idle(), "a wrapped encoder is not idle at the end, {}", show());
        c.eval(Some(hash_bytes(&want) ^ hash_bytes(desc.as_bytes()) ^ hash_dbg(&cut)));
    }
    // a limit it does not keep
    let n = c.r.below(want.len());
    let r = match c.r.below(3) {
        0 => E(set.encoder()).length(n as u64).encode_into_bytes(m.clone_box()),
        1 => E(set.encoder()).length((want.len() + 1 + n) as u64).encode_into_bytes(m.clone_box()),
        _ => E(set.encoder()).max_bytes(n as u64).encode_into_bytes(m.clone_box()),
    };
    ensure!(r.is_err(), "a message of {} bytes is written in spite of an enclosing length or limit of another size", want.len());
    c.sample(|| desc.clone());
    c.count("wrapped encodings", 1);
    Ok(())
}
/// Several messages as one item; one that is fixed beforehand.
fn repetition(c: &mut Case) -> Chk {
    let set = any_set(&mut c.r);
    let k = c.r.range(0, 5);
    let msgs = messages(&mut c.r, set, k);
    let ms: Vec<Box<dyn DynMsg>> = msgs.iter().filter_map(|(b, _)| decode_valid(set, b).ok()).collect();
    let mut want = vec![];
    for m in &ms {
        want.extend(encode_ok(set, &**m)?);
    }
    let copy = || ms.iter().map(|m| m.clone_box()).collect::<Vec<_>>().into_iter();
    let mut e = E(set.encoder()).repeat();
    for _ in 0..2 {
        if let Err(x) = e.start_encoding(copy()) {
            fail!("starting a repetition fails with {:?}", x.kind());
        }
        let cut = gen::cut(&mut c.r, want.len());
        let got = if c.r.bool() {
            let (mut out, mut i) = (vec![], 0);
            // the end of the output is not announced: the encoder would have to fit each message
            while !e.is_idle() {
                let n = cut.size(i).min(want.len() + 9);
                i += 1;
                ensure!(i < 20_000_000, "a repetition does not end");
                let mut buf = vec![0; n];
                match e.encode(&mut buf, Eos::new(false)) {
                    Ok(k) => out.extend_from_slice(&buf[..k.min(n)]),
                    Err(x) => fail!("a repetition fails with {:?}", x.kind()),
                }
            }
            out
        } else {
            let mut out = vec![];
            if let Err(x) = e.encode_all(&mut out) {
                fail!("a repetition fails with {:?}", x.kind());
            }
            out
        };
        ensure!(got == want, "a repetition writes {} instead of {}", hex(&got), hex(&want));
        c.eval(Some(hash_bytes(&want) ^ hash_dbg(&cut)));
    }
    if let Some(m) = ms.first() {
        let want = encode_ok(set, &**m)?;
        let mut e = E(set.encoder()).last(m.clone_box());
        ensure!(!e.is_idle(), "an encoder of a last message is idle before it has written it");
        let cut = gen::cut(&mut c.r, want.len());
        let got = pull(&mut e, &cut, want.len())?;
        ensure!(got.as_ref() == Ok(&want) && e.is_idle(), "a last message is written as {:?} instead of {}", got.map(|b| hex(&b)), hex(&want));
    }
    c.count("repeated messages", ms.len() as u64);
    Ok(())
}

/// Value codecs inside the same combinators.
fn wrapped_values(c: &mut Case) -> Chk {
    let vc = val_codec(c.idx);
    let (ty, name) = (vc.ty, &vc.name);
    let v = gen::val(&mut c.r, ty, &[0; 12]);
    let b = enc_value(ty, &v, None);
    let alone = {
        let mut d = (vc.decoder)();
        d.decode(&b, Eos::new(true)).and_then(|_| d.finish())
    };
    let Ok(alone) = alone else { return Ok(()) };
    let mut desc = name.to_string();
    let mut sized = true;
    let inner: BoxD<Val> = Box::new(VD::new(vc).length(b.len() as u64));
    let mut d = wrap_d(&mut c.r, inner, b.len(), b.len() + 9, &mut sized, &mut desc);
    for again in 0..2 {
        let mut all = b.clone();
        let more = c.r.below(10);
        all.extend(c.r.bytes(more));
        let cut = gen::cut(&mut c.r, all.len());
        let mode = if desc.contains("max_bytes") { *c.r.pick(&MODES[..4]) } else { any_mode(&mut c.r) };
        let show = || format!("{}, use {}, {:?} {:?}, {:?} {}", desc, again + 1, cut, mode, v, hex(&all));
        // an empty value is complete as soon as the decoder has been told
        match push_any(&mut d, &all, &cut, mode).detail(show)? {
            Ok((x, n)) => ensure!(x == alone && n == b.len(), "a wrapped value decoder delivers {:?} of {} bytes instead of {:?} of {}, {}", x, n, alone, b.len(), show()),
            Err(k) => fail!("a wrapped value decoder fails with {:?}, {}", k, show()),
        }
        c.eval(Some(hash_bytes(&b) ^ hash_bytes(desc.as_bytes()) ^ hash_dbg(&cut)));
    }
    let mut desc = name.to_string();
    let mut sized = b.is_empty();
    let mut e = wrap_e(&mut c.r, Box::new(VE((vc.encoder)())) as BoxE<Val>, b.len(), &mut sized, &mut desc);
    for again in 0..if sized { 1 } else { 2 } {
        let cut = gen::cut(&mut c.r, b.len());
        let show = || format!("{}, use {}, {:?}, {:?} {}", desc, again + 1, cut, v, hex(&b));
        let got = match e.start_encoding(v.clone()) {
            Err(x) => Err(*x.kind()),
            Ok(()) => pull(&mut e, &cut, b.len()).detail(show)?,
        };
        ensure!(got.as_ref() == Ok(&b), "a wrapped value encoder gives {:?}, {}", got.map(|b| hex(&b)), show());
    }
    Ok(())
}
/// Like `push`, for items that may be empty.
fn push_any<X: Decode>(d: &mut X, b: &[u8], cut: &Cut, mode: Mode) -> Result<Result<(X::Item, usize), ErrorKind>, Fail> {
    let (mut off, mut i, mut stuck) = (0, 0, 0);
    loop {
        let n = cut.size(i).min(b.len() - off);
        i += 1;
        match d.decode(&b[off..off + n], eos(mode, b.len() - off - n)) {
            Err(e) => return Ok(Err(*e.kind())),
            Ok(k) => {
                ensure!(k <= n, "{} bytes are taken of {}", k, n);
                stuck = if k > 0 { 0 } else { stuck + usize::from(n > 0 || off == b.len()) };
                off += k;
            }
        }
        if d.is_idle() {
            return Ok(d.finish_decoding().map(|x| (x, off)).map_err(|e| *e.kind()));
        }
        if stuck > 8 {
            return Ok(Err(ErrorKind::IncompleteDecoding));
        }
    }
}
/// Values in containers of the user's own: a length, then the value.
fn containers(c: &mut Case) -> Chk {
    let codecs: Vec<_> = (0..c.r.range(1, 4)).map(|_| val_codec(c.r.u64() >> 8)).collect();
    let mut all = vec![];
    let mut items = vec![];
    for vc in &codecs {
        let v = gen::val(&mut c.r, vc.ty, &[0; 12]);
        let b = enc_value(vc.ty, &v, None);
        let mut d = (vc.decoder)();
        let Ok(alone) = d.decode(&b, Eos::new(true)).and_then(|_| d.finish()) else { return Ok(()) };
        // written by a chain
        let mut e = TupleEncoder::new((U32beEncoder::new(), VE((vc.encoder)()), U8Encoder::new()));
        let start = all.len();
        all.extend_from_slice(&(b.len() as u32).to_be_bytes());
        all.extend_from_slice(&b);
        all.push(0x5a);
        if let Err(x) = e.start_encoding((b.len() as u32, v.clone(), 0x5a)) {
            fail!("starting a chain with a {} value fails with {:?}", vc.name, x.kind());
        }
        ensure_eq!(e.requiring_bytes(), ByteCount::Finite((all.len() - start) as u64), "size announced by a chain with a {} value", vc.name);
        let cut = gen::cut(&mut c.r, all.len() - start);
        let got = pull(&mut e, &cut, all.len() - start)?;
        ensure!(got.as_deref() == Ok(&all[start..]), "a chain with the {} value {:?} gives {:?} instead of {}", vc.name, v, got.map(|b| hex(&b)), hex(&all[start..]));
        items.push((vc, alone, b.len()));
    }
    let mut off = 0;
    for (vc, alone, n) in &items {
        let mut d = U32beDecoder::new().and_then(|n| VD::new(vc).length(u64::from(n))).chain(U8Decoder::new());
        let cut = gen::cut(&mut c.r, all.len() - off);
        let mode = any_mode(&mut c.r);
        match push_any(&mut d, &all[off..], &cut, mode)? {
            Ok(((v, t), took)) => {
                ensure!(v == *alone && t == 0x5a && took == n + 5, "a contained {} value comes out as {:?} instead of {:?}, after {} bytes of {}", vc.name, v, alone, took, n + 5)
            }
            Err(k) => fail!("a contained {} value fails with {:?}, {:?} {:?} {}", vc.name, k, cut, mode, hex(&all[off..])),
        }
        off += n + 5;
    }
    c.eval(Some(hash_bytes(&all)));
    Ok(())
}

// Readers and writers that do little at a time, would block, or fail now and then.
struct Flaky {
    r: Rng,
    input: Vec<u8>,
    at: usize,
    output: Vec<u8>,
    max: usize,
    /// Which trouble there is: interruptions, would-block, other errors.
    trouble: [bool; 3],
    failed: bool,
    faults: u64,
}
impl Flaky {
    fn new(c: &mut Case, input: Vec<u8>, trouble: [bool; 3]) -> Flaky {
        let r = Rng::new(c.r.u64());
        Flaky { r, input, at: 0, output: vec![], max: *c.r.pick(&[1, 2, 7, 20, 21, 300, 5_000]), trouble, failed: false, faults: 0 }
    }
    fn fault(&mut self) -> std::io::Result<()> {
        use std::io::ErrorKind::*;
        if self.r.chance(1, 5) {
            let i = self.r.below(3);
            if self.trouble[i] {
                self.failed = true;
                self.faults += 1;
                return Err([Interrupted, WouldBlock, TimedOut][i].into());
            }
        }
        Ok(())
    }
}
impl Read for Flaky {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        self.fault()?;
        let n = b.len().min(self.input.len() - self.at).min(1 + self.r.below(self.max));
        b[..n].copy_from_slice(&self.input[self.at..self.at + n]);
        self.at += n;
        Ok(n)
    }
}
impl Write for Flaky {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.fault()?;
        let n = b.len().min(1 + self.r.below(self.max));
        self.output.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
/// A stream of messages; the last may be cut off. What must be delivered.
fn stream(c: &mut Case, set: &dyn DynSet) -> (Vec<u8>, Vec<Essence>, bool) {
    let k = c.r.mostly(1, 6);
    let mut msgs = messages(&mut c.r, set, k);
    let cut = c.r.chance(1, 4) && !msgs.is_empty();
    let mut all: Vec<u8> = msgs.iter().flat_map(|m| m.0.clone()).collect();
    if cut {
        let (b, _) = msgs.pop().expect("one");
        let n = c.r.range(1, b.len() - 1);
        all.truncate(all.len() - n);
    }
    (all, msgs.into_iter().map(|m| m.1).collect(), cut)
}
fn blocking_reads(c: &mut Case) -> Chk {
    let set = any_set(&mut c.r);
    let (all, want, cut) = stream(c, set);
    let mut src = Flaky::new(c, all.clone(), [true, true, true]);
    let mut plain = set.decoder();
    let mut desc = String::from("decoder");
    let mut sized = true;
    // wrappers without limits of their own; one that ignores the end would wait for ever
    let wrapped = c.r.bool();
    let mut d: BoxD<Decoded> = Box::new(D(set.decoder()));
    if wrapped {
        while sized || desc.contains("max_bytes") || desc.contains("maybe_eos") {
            sized = false;
            desc = String::from("decoder");
            d = wrap_d(&mut c.r, Box::new(D(set.decoder())) as BoxD<Decoded>, 0, 0, &mut sized, &mut desc);
        }
    }
    let mut got = vec![];
    let end;
    loop {
        src.failed = false;
        let r = if wrapped { d.decode_exact(&mut src).map_err(|e| *e.kind()) } else { plain.decode_exact(&mut src) };
        match r {
            Ok(m) => got.push(ess(&m)),
            // go on where it stopped
            Err(_) if src.failed => continue,
            Err(k) => {
                end = k;
                break;
            }
        }
        if got.len() > want.len() + 1 {
            end = ErrorKind::Other;
            break;
        }
    }
    // the end inside the body of a message may be delivered as a broken message
    if cut && got.len() == want.len() + 1 && matches!(got.last(), Some(Essence::Broken(..))) {
        got.pop();
    }
    ensure!(got == want, "reading from a stream with {} faults gives {} messages of {}, ending with {:?}; {}\nread {:?}\nwant {:?}\n{}", src.faults, got.len(), want.len(), end, desc, got, want, hex(&all));
    ensure!(src.at == all.len(), "{} of {} bytes are taken", src.at, all.len());
    c.count("faults survived", src.faults);
    c.count("messages read", want.len() as u64);
    c.eval(Some(hash_bytes(&all) ^ mix(src.faults)));
    Ok(())
}
fn polled_reads(c: &mut Case) -> Chk {
    let set = any_set(&mut c.r);
    let (all, want, cut) = stream(c, set);
    let mut src = Flaky::new(c, all.clone(), [true, true, true]);
    let cap = *c.r.pick(&[1usize, 2, 19, 20, 24, 100, 4096]);
    let mut buf = ReadBuf::new(vec![0u8; cap]);
    let mut d = D(set.decoder());
    let mut got = vec![];
    let mut guard = 0;
    let mut end = None;
    while !(buf.stream_state().is_eos() && buf.len() == 0) {
        guard += 1;
        ensure!(guard < 20_000_000, "a polled stream makes no progress");
        let _ = buf.fill(&mut src);
        if let Err(e) = d.decode_from_read_buf(&mut buf) {
            end = Some(*e.kind());
            break;
        }
        if d.is_idle() {
            match d.finish_decoding() {
                Ok(m) => got.push(ess(&m)),
                Err(e) => fail!("taking a message fails with {:?}", e.kind()),
            }
        }
    }
    if cut && got.len() == want.len() + 1 && matches!(got.last(), Some(Essence::Broken(..))) {
        got.pop();
    }
    // that the stream ends where a message could begin may be reported
    let over = buf.stream_state().is_eos() && buf.len() == 0;
    ensure!(got == want && (end.is_none() || over || cut), "polling a stream with {} faults through {} bytes gives {} messages of {}, ending with {:?}\nread {:?}\nwant {:?}\n{}", src.faults, cap, got.len(), want.len(), end, got, want, hex(&all));
    c.count("faults survived", src.faults);
    c.count("messages read", want.len() as u64);
    c.eval(Some(hash_bytes(&all) ^ mix(guard)));
    Ok(())
}
fn outgoing(c: &mut Case, set: &dyn DynSet) -> Result<(Vec<Box<dyn DynMsg>>, Vec<u8>), Fail> {
    let k = c.r.mostly(1, 6);
    let mut ms = vec![];
    let mut want = vec![];
    for _ in 0..k {
        let m = auth_plan(&mut c.r, set).build(set)?;
        want.extend(encode_ok(set, &*m)?);
        ms.push(m);
    }
    Ok((ms, want))
}
fn blocking_writes(c: &mut Case) -> Chk {
    let set = any_set(&mut c.r);
    let (ms, want) = outgoing(c, set)?;
    let mut dst = Flaky::new(c, vec![], [true, false, false]);
    let mut e = E(set.encoder());
    for m in &ms {
        if let Err(x) = e.start_encoding(m.clone_box()) {
            fail!("starting fails with {:?}", x.kind());
        }
        if c.r.chance(1, 4) {
            // part of it by hand
            let mut buf = vec![0; c.r.below(30)];
            match e.encode(&mut buf, Eos::new(false)) {
                Ok(n) => dst.output.extend_from_slice(&buf[..n]),
                Err(x) => fail!("encoding fails with {:?}", x.kind()),
            }
        }
        if let Err(x) = e.encode_all(&mut dst) {
            fail!("writing to a stream fails with {:?}", x.kind());
        }
        ensure!(e.is_idle(), "not idle after everything was written");
    }
    ensure!(dst.output == want, "written to a stream: {} instead of {}", hex(&dst.output), hex(&want));
    c.count("faults survived", dst.faults);
    c.count("messages written", ms.len() as u64);
    c.eval(Some(hash_bytes(&want) ^ mix(dst.faults)));
    Ok(())
}
fn polled_writes(c: &mut Case) -> Chk {
    let set = any_set(&mut c.r);
    let (ms, want) = outgoing(c, set)?;
    let n = ms.len();
    let mut queue = ms.into_iter();
    let mut dst = Flaky::new(c, vec![], [true, true, true]);
    let cap = *c.r.pick(&[1usize, 2, 19, 20, 24, 100, 4096]);
    let mut buf = WriteBuf::new(vec![0u8; cap]);
    let mut e = E(set.encoder());
    let mut guard = 0;
    loop {
        guard += 1;
        ensure!(guard < 20_000_000, "a polled stream makes no progress");
        if e.is_idle() {
            match queue.next() {
                Some(m) => {
                    if let Err(x) = e.start_encoding(m) {
                        fail!("starting fails with {:?}", x.kind());
                    }
                }
                None if buf.len() == 0 => break,
                None => {}
            }
        }
        if let Err(x) = e.encode_to_write_buf(&mut buf) {
            fail!("encoding into a write buffer fails with {:?}", x.kind());
        }
        let _ = buf.flush(&mut dst);
    }
    ensure!(dst.output == want, "polled onto a stream: {} instead of {}", hex(&dst.output), hex(&want));
    c.count("faults survived", dst.faults);
    c.count("messages written", n as u64);
    c.eval(Some(hash_bytes(&want) ^ mix(guard)));
    Ok(())
}
/// A forwarder on a buffered duplex stream: what arrives is sent back.
fn buffered(c: &mut Case) -> Chk {
    let set = any_set(&mut c.r);
    let (all, want, cut) = stream(c, set);
    let mut back = vec![];
    {
        // what each valid message is sent on as
        let mut off = 0;
        for w in &want {
            let n = 20 + usize::from(u16::from_be_bytes([all[off + 2], all[off + 3]]));
            if let Essence::Valid(_) = w {
                match model(set, &all[off..off + n]) {
                    Parsed::Msg(p) => back.extend_from_slice(&p.normal),
                    _ => return Ok(()),
                }
            }
            off += n;
        }
    }
    let src = Flaky::new(c, all.clone(), [true, true, true]);
    let (rc, wc) = (*c.r.pick(&[1usize, 3, 20, 64, 2048]), *c.r.pick(&[1usize, 3, 20, 64, 2048]));
    let mut io = BufferedIo::new(src, rc, wc);
    let (mut d, mut e) = (D(set.decoder()), E(set.encoder()));
    let mut waiting: std::collections::VecDeque<Box<dyn DynMsg>> = Default::default();
    let mut got = vec![];
    let mut guard = 0;
    let mut ended = false;
    loop {
        guard += 1;
        ensure!(guard < 20_000_000, "a buffered stream makes no progress");
        let _ = io.execute_io();
        // the end where a message could begin
        ended |= io.read_buf_ref().stream_state().is_eos() && io.read_buf_ref().len() == 0 && got.len() >= want.len();
        if !ended {
            match d.decode_from_read_buf(io.read_buf_mut()) {
                Err(x) if cut => {
                    let _ = x;
                    ended = true;
                }
                Err(x) => fail!("reading from a buffered stream fails with {:?}\n{}", x.kind(), hex(&all)),
                Ok(()) => {}
            }
            if !ended && d.is_idle() {
                match d.finish_decoding() {
                    Ok(m) => {
                        got.push(ess(&m));
                        if let Ok(m) = m {
                            waiting.push_back(m);
                        }
                    }
                    Err(x) => fail!("taking a message fails with {:?}", x.kind()),
                }
            }
        }
        if e.is_idle() {
            if let Some(m) = waiting.pop_front() {
                if let Err(x) = e.start_encoding(m) {
                    fail!("sending on fails with {:?}", x.kind());
                }
            }
        }
        if let Err(x) = e.encode_to_write_buf(io.write_buf_mut()) {
            fail!("encoding into a buffered stream fails with {:?}", x.kind());
        }
        let drained = io.read_buf_ref().stream_state().is_eos() && io.read_buf_ref().len() == 0;
        if (ended || drained) && waiting.is_empty() && e.is_idle() && io.write_buf_ref().len() == 0 {
            break;
        }
    }
    if cut && got.len() == want.len() + 1 && matches!(got.last(), Some(Essence::Broken(..))) {
        got.pop();
    }
    ensure!(got == want, "a buffered stream delivers {} messages of {}\nread {:?}\nwant {:?}\n{}", got.len(), want.len(), got, want, hex(&all));
    let io = io.into_stream();
    ensure!(io.output == back, "sent back over a buffered stream: {} instead of {}", hex(&io.output), hex(&back));
    c.count("faults survived", io.faults);
    c.count("messages read", want.len() as u64);
    c.eval(Some(hash_bytes(&all) ^ mix(guard)));
    Ok(())
}

/// Values that end by themselves, in sequence, without lengths.
fn records(c: &mut Case) -> Chk {
    let mut all = vec![];
    let mut items = vec![];
    for _ in 0..c.r.range(1, 5) {
        let vc = loop {
            let vc = val_codec(c.r.u64() >> 8);
            if fixed(vc.ty) {
                break vc;
            }
        };
        let v = gen::val(&mut c.r, vc.ty, &[0; 12]);
        let b = enc_value(vc.ty, &v, None);
        let mut d = (vc.decoder)();
        let Ok(alone) = d.decode(&b, Eos::new(true)).and_then(|_| d.finish()) else { return Ok(()) };
        all.push(items.len() as u8);
        all.extend_from_slice(&b);
        all.push(0x5a);
        items.push((vc, v, alone, b.len()));
    }
    let more = c.r.below(9);
    let rest = c.r.bytes(more);
    let total = all.len();
    let mut with = all.clone();
    with.extend_from_slice(&rest);
    let mut off = 0;
    for (i, (vc, _, alone, n)) in items.iter().enumerate() {
        let mut d = U8Decoder::new().chain(VD::new(vc)).chain(U8Decoder::new());
        let cut = gen::cut(&mut c.r, with.len() - off);
        let mode = any_mode(&mut c.r);
        match push_any(&mut d, &with[off..], &cut, mode)? {
            Ok((((k, v), t), took)) => ensure!(
                usize::from(k) == i && v == *alone && t == 0x5a && took == n + 2,
                "a {} value in sequence comes out as {:?} instead of {:?}, after {} bytes of {}",
                vc.name,
                v,
                alone,
                took,
                n + 2
            ),
            Err(k) => fail!("a {} value in sequence fails with {:?}, {:?} {:?} {}", vc.name, k, cut, mode, hex(&with[off..])),
        }
        off += n + 2;
    }
    ensure_eq!(off, total, "bytes of all");
    // from a blocking reader that fails now and then
    let mut src = Flaky::new(c, with.clone(), [true, true, true]);
    let mut off = 0;
    for (vc, _, alone, n) in &items {
        let mut d = U8Decoder::new().chain(VD::new(vc)).chain(U8Decoder::new());
        let got = loop {
            src.failed = false;
            match d.decode_exact(&mut src) {
                Err(_) if src.failed => continue,
                r => break r,
            }
        };
        off += n + 2;
        match got {
            Ok(((_, v), t)) => {
                ensure!(v == *alone && t == 0x5a && src.at == off, "a {} value is read as {:?} instead of {:?}, up to {} instead of {}, from {}", vc.name, v, alone, src.at, off, hex(&with))
            }
            Err(x) => fail!("reading a {} value fails with {:?}: {}", vc.name, x.kind(), hex(&with)),
        }
    }
    // written by one encoder after the other into one buffer
    let mut out = vec![];
    let cap = c.r.range(1, 40);
    let mut buf = vec![0; cap];
    let mut used = 0;
    for (i, (vc, v, _, _)) in items.iter().enumerate() {
        let mut e = TupleEncoder::new((U8Encoder::new(), VE((vc.encoder)()), U8Encoder::new()));
        if let Err(x) = e.start_encoding((i as u8, v.clone(), 0x5a)) {
            fail!("starting a {} value in sequence fails with {:?}", vc.name, x.kind());
        }
        let mut guard = 0;
        while !e.is_idle() {
            guard += 1;
            ensure!(guard < 1_000_000, "a {} value is never written", vc.name);
            match e.encode(&mut buf[used..], Eos::new(false)) {
                Ok(n) => {
                    ensure!(n <= cap - used, "{} bytes written into {}", n, cap - used);
                    used += n;
                }
                Err(x) => fail!("writing a {} value in sequence fails with {:?}", vc.name, x.kind()),
            }
            if used == cap {
                out.extend_from_slice(&buf);
                used = 0;
            }
        }
    }
    out.extend_from_slice(&buf[..used]);
    ensure!(out == all, "values in sequence are written as {} instead of {}", hex(&out), hex(&all));
    c.eval(Some(hash_bytes(&with)));
    Ok(())
}
/// Values of a size that the type, or the value itself, tells.
fn fixed(ty: u16) -> bool {
    !matches!(kind_of(ty), None | Some(Kind::Name | Kind::Text | Kind::Bytes | Kind::Err | Kind::Types))
}
