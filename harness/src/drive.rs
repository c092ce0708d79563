//! Drives codecs step by step and records what an observer sees.
use crate::gen::Cut;
use crate::model::*;
use crate::sets::*;
use bytecodec::{ByteCount, Eos, ErrorKind};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Mode {
    /// The end of the stream is never announced.
    Open,
    /// The end is announced with the last piece.
    AtEnd,
    /// The number of bytes to come is announced all along.
    Exact,
    /// The end is announced by an empty piece of its own, if the decoder still waits.
    Late,
    /// All along it is known that much more follows.
    Ample(u64),
    /// All along it is known that the stream never ends.
    Endless,
}
pub const MODES: [Mode; 6] = [Mode::Open, Mode::AtEnd, Mode::Exact, Mode::Late, Mode::Ample(1 << 33), Mode::Endless];
pub fn any_mode(r: &mut crate::rng::Rng) -> Mode {
    match *r.pick(&MODES) {
        Mode::Ample(_) => Mode::Ample(*r.pick(&[1, 2, 3, 4, 19, 20, 100, 0xffff, 0x10000, 1 << 20, 1 << 32, 1 << 40])),
        m => m,
    }
}

pub fn eos(mode: Mode, remaining: usize) -> Eos {
    match mode {
        Mode::Open | Mode::Late => Eos::new(false),
        Mode::AtEnd => Eos::new(remaining == 0),
        Mode::Exact => Eos::with_remaining_bytes(ByteCount::Finite(remaining as u64)),
        Mode::Ample(more) => Eos::with_remaining_bytes(ByteCount::Finite(remaining as u64 + more)),
        Mode::Endless => Eos::with_remaining_bytes(ByteCount::Infinite),
    }
}

pub enum Out {
    Valid(Box<dyn DynMsg>),
    Broken(BrokenInfo),
    /// `decode` failed.
    Reject(ErrorKind),
    /// `finish` failed although the decoder was idle.
    FinishErr(ErrorKind),
    /// All input offered, the decoder wants more.
    More,
}
impl Out {
    pub fn name(&self) -> &'static str {
        match self {
            Out::Valid(_) => "valid",
            Out::Broken(_) => "broken",
            Out::Reject(_) => "reject",
            Out::FinishErr(_) => "finish-error",
            Out::More => "more",
        }
    }
    pub fn show(&self) -> String {
        match self {
            Out::Valid(m) => format!("valid {:?}", m.snap()),
            Out::Broken(b) => format!(
                "broken class={} method={} tid={:02x?} error={:?}",
                b.class, b.method, b.tid, b.kind
            ),
            Out::Reject(k) => format!("rejected with {:?}", k),
            Out::FinishErr(k) => format!("finish failed with {:?}", k),
            Out::More => "wants more".to_owned(),
        }
    }
    /// What of the outcome must not depend on anything but the bytes.
    pub fn essence(&self) -> Essence {
        match self {
            Out::Valid(m) => Essence::Valid(m.snap()),
            Out::Broken(b) => Essence::Broken(b.class, b.method, b.tid),
            Out::Reject(ErrorKind::UnexpectedEos) | Out::More => Essence::Incomplete,
            Out::Reject(_) => Essence::Reject,
            Out::FinishErr(_) => Essence::FinishErr,
        }
    }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Essence {
    Valid(Snap),
    Broken(u8, u16, [u8; 12]),
    Reject,
    Incomplete,
    FinishErr,
}

#[derive(Clone, Debug)]
pub struct Step {
    pub offered: usize,
    pub consumed: usize,
    pub idle: bool,
    pub req: Option<u64>,
}

pub struct Fed {
    pub out: Out,
    pub consumed: usize,
    pub steps: Vec<Step>,
    /// `decode` claimed more than it was offered.
    pub over: Option<(usize, usize)>,
    /// Not idle although it left offered bytes alone.
    pub stalled: Option<(usize, usize)>,
    /// Announced requirement before the first piece.
    pub first_req: Option<u64>,
}

/// Feeds `b` until the decoder is idle or everything has been offered.
pub fn feed(dec: &mut dyn DynDecoder, b: &[u8], cut: &Cut, mode: Mode) -> Fed {
    let mut f = Fed {
        out: Out::More,
        consumed: 0,
        steps: Vec::new(),
        over: None,
        stalled: None,
        first_req: dec.req().to_u64(),
    };
    let mut i = 0;
    let mut fruitless = 0;
    loop {
        let n = cut.size(i).min(b.len() - f.consumed);
        i += 1;
        let piece = &b[f.consumed..f.consumed + n];
        let r = dec.decode(piece, eos(mode, b.len() - f.consumed - n));
        match r {
            Err(k) => {
                f.out = Out::Reject(k);
                return f;
            }
            Ok(c) => {
                f.steps.push(Step { offered: n, consumed: c, idle: dec.idle(), req: dec.req().to_u64() });
                if c > n {
                    f.over = Some((n, c));
                    return f;
                }
                f.consumed += c;
                if dec.idle() {
                    f.out = match dec.finish() {
                        Err(k) => Out::FinishErr(k),
                        Ok(Ok(m)) => Out::Valid(m),
                        Ok(Err(b)) => Out::Broken(b),
                    };
                    return f;
                }
                if c < n {
                    f.stalled = Some((n, c));
                    fruitless += 1;
                    if fruitless > 4 {
                        return f;
                    }
                }
                if f.consumed == b.len() {
                    if mode == Mode::Late {
                        match dec.decode(&[], Eos::new(true)) {
                            Err(k) => f.out = Out::Reject(k),
                            Ok(c) => {
                                if c > 0 {
                                    f.over = Some((0, c));
                                } else if dec.idle() {
                                    f.out = match dec.finish() {
                                        Err(k) => Out::FinishErr(k),
                                        Ok(Ok(m)) => Out::Valid(m),
                                        Ok(Err(b)) => Out::Broken(b),
                                    };
                                }
                            }
                        }
                    }
                    return f;
                }
            }
        }
    }
}

pub fn decode_all(set: &dyn DynSet, b: &[u8]) -> Fed {
    feed(&mut *set.decoder(), b, &Cut::All, Mode::AtEnd)
}

/// Decodes a message that should be valid.
pub fn decode_valid(set: &dyn DynSet, b: &[u8]) -> Result<Box<dyn DynMsg>, String> {
    match decode_all(set, b).out {
        Out::Valid(m) => Ok(m),
        o => Err(o.show()),
    }
}

pub struct Drained {
    pub bytes: Vec<u8>,
    pub err: Option<ErrorKind>,
    /// First inconsistency between announcements and what was written.
    pub bad: Option<String>,
    pub calls: usize,
}

/// A uniform view on message encoders and value encoders that have been started.
pub trait Drain {
    fn encode(&mut self, b: &mut [u8], eos: Eos) -> R<usize>;
    fn req(&self) -> ByteCount;
    fn exact(&self) -> u64;
    fn idle(&self) -> bool;
}
impl Drain for dyn DynEncoder + '_ {
    fn encode(&mut self, b: &mut [u8], eos: Eos) -> R<usize> {
        DynEncoder::encode(self, b, eos)
    }
    fn req(&self) -> ByteCount {
        DynEncoder::req(self)
    }
    fn exact(&self) -> u64 {
        DynEncoder::exact(self)
    }
    fn idle(&self) -> bool {
        DynEncoder::idle(self)
    }
}
impl Drain for dyn ValEncoder + '_ {
    fn encode(&mut self, b: &mut [u8], eos: Eos) -> R<usize> {
        ValEncoder::encode(self, b, eos)
    }
    fn req(&self) -> ByteCount {
        ValEncoder::req(self)
    }
    fn exact(&self) -> u64 {
        ValEncoder::exact(self)
    }
    fn idle(&self) -> bool {
        ValEncoder::idle(self)
    }
}

/// What an encoder with nothing to write must say and do, whichever buffer it is offered.
pub fn nothing_left<D: Drain + ?Sized>(enc: &mut D, n: usize, mode: Mode) -> Result<(), String> {
    if !enc.idle() || enc.exact() != 0 || enc.req() != ByteCount::Finite(0) {
        return Err(format!("idle={}, announces {} / {:?} with nothing to write", enc.idle(), enc.exact(), enc.req()));
    }
    let mut buf = vec![0xa5u8; n];
    match enc.encode(&mut buf, eos(mode, 0)) {
        Ok(0) if buf.iter().all(|b| *b == 0xa5) && enc.idle() && enc.exact() == 0 => Ok(()),
        r => Err(format!("with nothing to write, encoding into {} bytes gives {:?}, {}, then idle={}, {} to be written", n, r, hex(&buf), enc.idle(), enc.exact())),
    }
}

/// By how much a buffer may exceed what is left to be written: mostly little.
fn roomy(left: usize, calls: usize) -> usize {
    const SIZES: [usize; 16] = [64, 100, 512, 1023, 1024, 1025, 1500, 2048, 4096, 8192, 16384, 32768, 65535, 65536, 65537, 100_000];
    let h = (left as u64 + 1).wrapping_mul(0x9e37_79b9_7f4a_7c15).rotate_left(23) ^ (calls as u64).wrapping_mul(0x2545_f491_4f6c_dd1d);
    match h % 24 {
        // a buffer of a usual size, whatever is written into it
        0 => SIZES[(h >> 32) as usize % 16].saturating_sub(left.max(1)).max(3),
        1 => 3 + (h >> 40) as usize % 2000,
        _ => 3,
    }
}

/// Writes everything out through buffers of the given sizes. `expect`: total size, if known.
pub fn drain<D: Drain + ?Sized>(enc: &mut D, expect: Option<usize>, cut: &Cut, mode: Mode) -> Drained {
    let mut d = Drained { bytes: Vec::new(), err: None, bad: None, calls: 0 };
    let total = enc.exact() as usize;
    let note = |b: &mut Option<String>, s: String| {
        if b.is_none() {
            *b = Some(s);
        }
    };
    if let Some(e) = expect {
        if e != total {
            note(&mut d.bad, format!("announced {} bytes at the start, {} expected", total, e));
        }
    }
    if total > 1 << 20 {
        note(&mut d.bad, format!("announced {} bytes", total));
        return d;
    }
    let mut fruitless = 0;
    while !enc.idle() {
        let left = total.saturating_sub(d.bytes.len());
        let n = cut.size(d.calls).min(left.max(1) + roomy(left, d.calls));
        d.calls += 1;
        let mut buf = vec![0xa5u8; n];
        // the end of the output stream is only announced when the rest fits
        let e = if n >= left { eos(mode, 0) } else { eos(if matches!(mode, Mode::AtEnd | Mode::Late) { Mode::Open } else { mode }, left - n) };
        match enc.encode(&mut buf, e) {
            Err(k) => {
                d.err = Some(k);
                return d;
            }
            Ok(c) => {
                if c > n {
                    note(&mut d.bad, format!("wrote {} into {}", c, n));
                    return d;
                }
                if buf[c..].iter().any(|b| *b != 0xa5) {
                    note(&mut d.bad, "touched the buffer beyond the reported size".into());
                }
                d.bytes.extend_from_slice(&buf[..c]);
                let rest = total as i64 - d.bytes.len() as i64;
                if enc.exact() as i64 != rest {
                    note(&mut d.bad, format!("announces {} with {} to be written", enc.exact(), rest));
                }
                if enc.req() != ByteCount::Finite(enc.exact()) {
                    note(&mut d.bad, format!("requiring_bytes {:?} differs from the exact size {}", enc.req(), enc.exact()));
                }
                if enc.idle() != (rest == 0) {
                    note(&mut d.bad, format!("idle={} with {} bytes to be written", enc.idle(), rest));
                }
                if c < n && !enc.idle() {
                    note(&mut d.bad, format!("left {} of {} buffer bytes unused while not idle", n - c, n));
                }
                if c == 0 && n > 0 {
                    fruitless += 1;
                    if fruitless > 4 {
                        note(&mut d.bad, "makes no progress".into());
                        return d;
                    }
                }
                if rest < -1024 {
                    return d;
                }
            }
        }
        if d.calls > 1_000_000 {
            note(&mut d.bad, "never becomes idle".into());
            return d;
        }
    }
    if d.bytes.len() != total {
        note(&mut d.bad, format!("wrote {} bytes, announced {}", d.bytes.len(), total));
    }
    d
}

pub fn hex(b: &[u8]) -> String {
    if b.len() > 700 {
        let h = hex(&b[..300]);
        return format!("{}..({} bytes)", h, b.len());
    }
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
