//! C23: exchanges of many messages over streams and datagrams. Peers keep a log of what they sent and
//! received; the logs are compared afterwards with what the channel did to the bytes.
use super::c11::judge_msg;
use super::util::*;
use std::collections::{BTreeMap, VecDeque};
use std::io::{Read, Write};
use std::os::unix::net::UnixStream;

pub fn check() -> Check {
    Check {
        id: "C23",
        rule: "distinct (connection, message) pairs whose delivery was compared with what was sent and what happened to it on the way",
        suites: vec![
            random("streams", 12_000, 600_000, streams),
            random("sockets", 1_200, 40_000, sockets),
            random("datagrams", 15_000, 700_000, datagrams),
            random("transactions", 4_000, 200_000, transactions),
        ],
        assumptions: &[
            "a stream is given up at the first wrong header",
            "for a datagram longer than its message the bytes beyond are the receiver's business",
            "transactions accept messages only if their last attribute is FINGERPRINT",
        ],
    }
}

/// What the receiver is to see of a byte stream: one entry per message, then how it ends.
/// `None`: the verdict on a message is not determined (known finding about reserved bits).
struct Expect {
    seq: Vec<(Option<Essence>, usize, usize)>,
    end: Essence,
}
fn expect(set: &dyn DynSet, b: &[u8]) -> Expect {
    let mut seq = Vec::new();
    let mut off = 0;
    loop {
        let rest = &b[off..];
        match model(set, rest) {
            Parsed::Short { .. } => return Expect { seq, end: Essence::Incomplete },
            Parsed::Reject(_) => return Expect { seq, end: Essence::Reject },
            Parsed::Msg(m) => {
                let total = m.total;
                seq.push((expected(set, &rest[..total]), off, off + total));
                off += total;
            }
        }
    }
}

/// One log entry of the receiver.
enum Got {
    Valid(Box<dyn DynMsg>),
    Broken(BrokenInfo),
    Reject,
}
impl Got {
    fn essence(&self) -> Essence {
        match self {
            Got::Valid(m) => Essence::Valid(m.snap()),
            Got::Broken(b) => Essence::Broken(b.class, b.method, b.tid),
            Got::Reject => Essence::Reject,
        }
    }
}

/// Compares the log of a receiver with the bytes that arrived.
fn compare(c: &mut Case, set: &dyn DynSet, wire: &[u8], got: &[Essence], told_end: bool) -> Result<Expect, Fail> {
    let e = expect(set, wire);
    let show = |i: usize| {
        let (a, z) = e.seq.get(i).map_or((0, wire.len()), |x| (x.1, x.2));
        format!("message {} of the stream, {}", i + 1, show_bytes(set, &wire[a..z]))
    };
    let mut n = 0;
    for (i, (want, a, z)) in e.seq.iter().enumerate() {
        let Some(g) = got.get(i) else {
            return Err(Fail::new("a message that arrived completely is never delivered").with(show(i)));
        };
        match want {
            None => {
                ensure!(matches!(g, Essence::Valid(_) | Essence::Broken(..)), "a message that arrived completely is not delivered but {:?} ({})", g, show(i));
            }
            Some(w) => {
                if w != g {
                    return Err(Fail::new(match (w, g) {
                        (Essence::Valid(_), Essence::Valid(_)) => "a message is delivered with other contents than were sent",
                        (Essence::Valid(_), Essence::Broken(..)) => "a sound message is delivered as broken",
                        (Essence::Broken(..), Essence::Valid(_)) => "a damaged message is delivered as sound",
                        (_, Essence::Reject) => "the stream is given up though the header is right",
                        _ => "a message is delivered with another class, method or transaction ID",
                    })
                    .with(format!("expected {}\ngot {}\n{}", clip(&format!("{:?}", w)), clip(&format!("{:?}", g)), show(i))));
                }
                c.eval(Some(hash_bytes(&wire[*a..*z]) ^ mix(i as u64)));
            }
        }
        n += 1;
    }
    match (&got[n..], &e.end) {
        ([], Essence::Incomplete) => {}
        ([Essence::Reject], Essence::Reject) => c.count("streams given up at a wrong header", 1),
        // the receiver was told that the stream ended inside a message
        ([Essence::Reject], Essence::Incomplete) if told_end => {}
        ([], Essence::Reject) => {
            // fewer than 20 bytes of it may have arrived
            let at = e.seq.last().map_or(0, |x| x.2);
            ensure!(wire.len() - at < 20, "a wrong header does not end the stream ({})", show(n));
        }
        (rest, _) => fail!("{} more entries are delivered than messages arrived: {} ({})", rest.len(), clip(&format!("{:?}", rest)), show(n)),
    }
    Ok(e)
}

/// Credentials to ask: those of the plan and another.
fn creds_of(r: &mut Rng, items: &[PItem]) -> Vec<Cred> {
    let mut v: Vec<Cred> = items.iter().filter_map(|i| if let PItem::Mi(c) = i { Some(c.clone()) } else { None }).collect();
    v.push(gen::cred(r));
    v
}

fn modest_plan(r: &mut Rng, set: &dyn DynSet) -> AuthPlan {
    loop {
        let p = auth_plan(r, set);
        if p.image().bytes().len() < 6000 {
            return p;
        }
    }
}

/// Random damage to a message, as (position, mask) pairs.
fn damage(r: &mut Rng, b: &[u8]) -> Vec<(usize, u8)> {
    let kind = r.below(20);
    damage_of(r, b, kind)
}
fn damage_of(r: &mut Rng, b: &[u8], kind: usize) -> Vec<(usize, u8)> {
    let mut v = Vec::new();
    match kind {
        0 => v.push((4 + r.below(4), 1 << r.below(8))),
        1 => v.push((0, 0x40 << r.below(2))),
        2 => v.push((2 + r.below(2), 1 << r.below(6))),
        3 => v.push((8 + r.below(12), r.u8() | 1)),
        4 => v.push((r.below(2), 1 << r.below(6))),
        _ => {
            if b.len() > 20 {
                for _ in 0..r.range(1, 3) {
                    v.push((r.range(20, b.len() - 1), 1 << r.below(8)));
                }
            }
        }
    }
    v
}

/// One direction of a connection.
struct Dir {
    from: &'static dyn DynSet,
    to: &'static dyn DynSet,
    enc: Box<dyn DynEncoder>,
    dec: Box<dyn DynDecoder>,
    queue: VecDeque<(AuthPlan, Vec<(usize, u8)>)>,
    /// Position in the message being written and what happens to its bytes.
    pos: usize,
    hurt: Vec<(usize, u8)>,
    flight: VecDeque<u8>,
    /// What should have arrived (model bytes with the damage).
    wire: Vec<u8>,
    sent: Vec<(AuthPlan, usize, bool)>,
    log: Vec<Got>,
    arrived: usize,
    closed: bool,
}
impl Dir {
    fn new(from: &'static dyn DynSet, to: &'static dyn DynSet) -> Dir {
        Dir {
            from,
            to,
            enc: from.encoder(),
            dec: to.decoder(),
            queue: VecDeque::new(),
            pos: 0,
            hurt: vec![],
            flight: VecDeque::new(),
            wire: vec![],
            sent: vec![],
            log: vec![],
            arrived: 0,
            closed: false,
        }
    }
    fn busy(&self) -> bool {
        !self.queue.is_empty() || !self.enc.idle() || (!self.flight.is_empty() && !self.closed)
    }
    fn write(&mut self, r: &mut Rng) -> Chk {
        if self.enc.idle() {
            let Some((p, hurt)) = self.queue.pop_front() else { return Ok(()) };
            let m = p.build(self.from)?;
            self.enc.start(m).map_err(|k| Fail::new(format!("an idle encoder refuses a message: {:?}", k)))?;
            let mut b = p.image().bytes();
            for (i, x) in &hurt {
                b[*i] ^= x;
            }
            self.sent.push((p, self.wire.len(), hurt.is_empty()));
            self.wire.extend_from_slice(&b);
            self.pos = 0;
            self.hurt = hurt;
        }
        let n = *r.pick(&[0usize, 1, 2, 3, 7, 19, 20, 64, 500, 4096]);
        let mut buf = vec![0; n];
        let k = self.enc.encode(&mut buf, Eos::new(false)).map_err(|k| Fail::new(format!("writing a message fails with {:?}", k)))?;
        ensure!(k <= n, "wrote {} bytes into {}", k, n);
        for (i, x) in &self.hurt {
            if *i >= self.pos && *i < self.pos + k {
                buf[*i - self.pos] ^= x;
            }
        }
        self.pos += k;
        self.flight.extend(&buf[..k]);
        Ok(())
    }
    /// Some of the bytes in flight arrive. Returns the index of the first new log entry.
    fn read(&mut self, r: &mut Rng, c: &mut Case) -> Result<usize, Fail> {
        let first = self.log.len();
        if self.closed {
            return Ok(first);
        }
        let n = (*r.pick(&[1usize, 2, 3, 5, 20, 33, 100, 1500, 9000])).min(self.flight.len());
        let chunk: Vec<u8> = self.flight.drain(..n).collect();
        self.arrived += n;
        let mut off = 0;
        let mut calls = 0;
        while off < chunk.len() {
            calls += 1;
            ensure!(calls < 20_000, "decoding makes no progress");
            match self.dec.decode(&chunk[off..], Eos::new(false)) {
                Err(_) => {
                    self.log.push(Got::Reject);
                    self.closed = true;
                    return Ok(first);
                }
                Ok(k) => {
                    ensure!(k <= chunk.len() - off, "consumed {} of {} bytes", k, chunk.len() - off);
                    off += k;
                }
            }
            if self.dec.idle() {
                self.log.push(match self.dec.finish() {
                    Ok(Ok(m)) => Got::Valid(m),
                    Ok(Err(b)) => Got::Broken(b),
                    Err(k) => fail!("finishing a message that has arrived fails with {:?}", k),
                });
                c.count("messages delivered", 1);
            }
        }
        Ok(first)
    }
}

/// An answer to what was received, made from nothing but the received object.
fn answer(r: &mut Rng, set: &dyn DynSet, g: &Got) -> Option<AuthPlan> {
    let (class, method, tid, ok) = match g {
        Got::Valid(m) => {
            let s = m.snap();
            (s.class, s.method, s.tid, true)
        }
        Got::Broken(b) => (b.class, b.method, b.tid, false),
        Got::Reject => return None,
    };
    if class != 0 {
        return None;
    }
    let mut p = modest_plan(r, set);
    // the values do not depend on the transaction ID before they are encoded
    p.class = if ok && r.chance(3, 4) { 2 } else { 3 };
    p.method = method;
    p.tid = tid;
    Some(p)
}

fn streams(c: &mut Case) -> Chk {
    let (a, b) = match c.r.below(3) {
        0 => {
            let s = any_set(&mut c.r);
            (s, s)
        }
        1 => (all_set(), all_set()),
        _ => (any_set(&mut c.r), any_set(&mut c.r)),
    };
    let damaging = c.r.bool();
    let mut r = c.r.clone();
    let mut dirs = [Dir::new(a, b), Dir::new(b, a)];
    for d in &mut dirs {
        let n = r.mostly(0, 8);
        // nearly every message of a long stretch is damaged behind its header
        let streak = n > 20 && r.bool();
        for i in 0..n {
            let p = modest_plan(&mut r, d.from);
            let hurt = if streak && i % 50 != 0 {
                let b = p.image().bytes();
                damage_of(&mut r, &b, 9)
            } else if damaging && r.chance(1, 4) { damage(&mut r, &p.image().bytes()) } else { vec![] };
            d.queue.push_back((p, hurt));
        }
    }
    let most = dirs[0].queue.len().max(dirs[1].queue.len()) + 8;
    // which message was the answer to which delivery: (direction, plan index) -> (direction, log index)
    let mut answers: Vec<(usize, usize, usize)> = Vec::new();
    let mut steps = 0u64;
    while dirs.iter().any(Dir::busy) {
        steps += 1;
        ensure!(steps < 8_000_000, "the connection never comes to rest");
        let i = r.below(2);
        let o = 1 - i;
        if r.bool() {
            dirs[i].write(&mut r)?;
        } else {
            let first = dirs[i].read(&mut r, c)?;
            for j in first..dirs[i].log.len() {
                if dirs[o].sent.len() + dirs[o].queue.len() > most {
                    break;
                }
                if let Some(p) = answer(&mut r, dirs[o].from, &dirs[i].log[j]) {
                    let n = dirs[o].sent.len() + dirs[o].queue.len();
                    answers.push((i, j, n));
                    dirs[o].queue.push_back((p, vec![]));
                }
            }
        }
    }
    c.count("writes and reads", steps);
    for d in &dirs {
        let got: Vec<Essence> = d.log.iter().map(Got::essence).collect();
        let e = compare(c, d.to, &d.wire, &got, false)?;
        // conservation, without the parser: undamaged messages in step with the stream
        let k = d.to.knows();
        for (g, (want, at, _)) in d.log.iter().zip(&e.seq) {
            let Some((p, _, _)) = d.sent.iter().find(|s| s.1 == *at && s.2) else { continue };
            let Got::Valid(m) = g else {
                // what a peer with raw attributes sends need not be sound for the other
                if want.is_none() || (d.from.knows().raw && !k.raw) {
                    continue;
                }
                // a fingerprint or integrity value made by the sender cannot be wrong, values drawn at random are sound
                fail!("an undamaged message is not delivered as valid ({:?})", p);
            };
            let s = m.snap();
            ensure!((s.class, s.method, s.tid) == (p.class, p.method, p.tid), "an undamaged message changes its class, method or transaction ID");
            let sent = p.items.len();
            ensure_eq!(s.known.len() + s.unknown.len(), sent, "the number of attributes of an undamaged message");
            if !k.raw && !d.from.knows().raw {
                let known: Vec<(u16, &Val)> = p.items.iter().filter_map(|i| if let PItem::Val(t, v) = i { Some((*t, v)) } else { None }).filter(|x| (k.f)(x.0)).collect();
                let have: Vec<(u16, &Val)> = s.known.iter().filter(|x| !(x.0 == T_FP || x.0 == T_MI)).map(|x| (x.0, &x.1)).collect();
                let known: Vec<(u16, &Val)> = known.into_iter().filter(|x| !(x.0 == T_FP || x.0 == T_MI)).collect();
                ensure!(known == have, "the attributes of an undamaged message are not those sent: {} instead of {}", clip(&format!("{:?}", have)), clip(&format!("{:?}", known)));
            }
        }
        // credentials
        for (g, (_, from, to)) in d.log.iter().zip(&e.seq) {
            let Got::Valid(m) = g else { continue };
            if k.raw {
                continue;
            }
            let bytes = &d.wire[*from..*to];
            let Parsed::Msg(pm) = model(d.to, bytes) else { continue };
            if pm.bad.is_some() {
                continue;
            }
            let items = d.sent.iter().find(|s| s.1 == *from).map_or(vec![], |s| s.0.items.clone());
            let creds = creds_of(&mut r, &items);
            let creds: Vec<&Cred> = creds.iter().collect();
            let n = judge_msg(c, d.to, bytes, &pm, &**m, &creds)?;
            c.count("credentials checked", n as u64);
        }
    }
    for (i, j, n) in answers {
        let q = &dirs[i].log[j];
        let Some((p, at, _)) = dirs[1 - i].sent.get(n).cloned() else { continue };
        let e = expect(dirs[1 - i].to, &dirs[1 - i].wire);
        let Some(x) = e.seq.iter().position(|s| s.1 == at) else { continue };
        let Some(g) = dirs[1 - i].log.get(x) else { continue };
        let id = |g: &Got| match g {
            Got::Valid(m) => Some((m.snap().method, m.snap().tid)),
            Got::Broken(b) => Some((b.method, b.tid)),
            Got::Reject => None,
        };
        ensure!(id(q) == id(g), "the answer {:?} to a request {:?} arrives as {:?}", (p.method, p.tid), id(q), id(g));
        c.count("answers matched to their requests", 1);
    }
    c.sample(|| format!("{} and {}: {} steps, {} + {} messages", a.name(), b.name(), steps, dirs[0].sent.len(), dirs[1].sent.len()));
    Ok(())
}

/// A reader that returns what it likes.
struct Ragged<'a, T>(&'a mut T, Rng);
impl<T: Read> Read for Ragged<'_, T> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = if self.1.bool() { b.len() } else { b.len().min(self.1.range(1, 9)) };
        self.0.read(&mut b[..n])
    }
}

/// Two threads and a socket between them; the operating system decides about the pieces.
fn sockets(c: &mut Case) -> Chk {
    let a = any_set(&mut c.r);
    let b = if c.r.bool() { a } else { any_set(&mut c.r) };
    let n = c.r.mostly(1, 14);
    let damaging = c.r.chance(1, 3);
    let mut wire = Vec::new();
    let mut plans = Vec::new();
    for _ in 0..n {
        let p = modest_plan(&mut c.r, a);
        let mut bytes = p.image().bytes();
        let hurt = if damaging && c.r.chance(1, 4) { damage(&mut c.r, &bytes) } else { vec![] };
        for (i, x) in &hurt {
            bytes[*i] ^= x;
        }
        wire.extend(bytes);
        plans.push((p, hurt));
    }
    let cut_off = if c.r.chance(1, 4) { Some(c.r.below(wire.len() + 1)) } else { None };
    if let Some(n) = cut_off {
        wire.truncate(n);
    }
    let blocking = c.r.bool();
    let (mut tx, mut rx) = UnixStream::pair().map_err(|e| Fail::new(format!("harness: {}", e)))?;
    let (mut r1, mut r2) = (c.r.clone(), c.r.clone());
    r1.u64();
    let limit = cut_off.unwrap_or(usize::MAX);
    let got = std::thread::scope(|s| {
        let w = s.spawn(move || -> Chk {
            let mut enc = a.encoder();
            let mut total = 0;
            'all: for (p, hurt) in plans {
                enc.start(p.build(a)?).map_err(|k| Fail::new(format!("an idle encoder refuses a message: {:?}", k)))?;
                let mut pos = 0;
                while !enc.idle() {
                    let n = *r1.pick(&[1usize, 5, 20, 64, 4096]);
                    let mut buf = vec![0; n];
                    let k = enc.encode(&mut buf, Eos::new(false)).map_err(|k| Fail::new(format!("writing a message fails with {:?}", k)))?;
                    for (i, x) in &hurt {
                        if *i >= pos && *i < pos + k {
                            buf[*i - pos] ^= x;
                        }
                    }
                    pos += k;
                    let k = k.min(limit - total);
                    total += k;
                    // the reader may have given up
                    if tx.write_all(&buf[..k]).is_err() || total == limit {
                        break 'all;
                    }
                    if r1.chance(1, 8) {
                        std::thread::yield_now();
                    }
                }
            }
            Ok(())
        });
        let rd = s.spawn(move || -> Result<(Vec<Essence>, bool), Fail> {
            let mut dec = b.decoder();
            let mut log = Vec::new();
            if blocking {
                loop {
                    let mut rr = Ragged(&mut rx, Rng::new(r2.u64()));
                    match dec.decode_exact(&mut rr) {
                        Ok(Ok(m)) => log.push(Essence::Valid(m.snap())),
                        Ok(Err(b)) => log.push(Essence::Broken(b.class, b.method, b.tid)),
                        Err(_) => {
                            log.push(Essence::Reject);
                            return Ok((log, true));
                        }
                    }
                }
            }
            let mut buf = vec![0; 5000];
            loop {
                let n = *r2.pick(&[1usize, 3, 20, 100, 5000]);
                let n = rx.read(&mut buf[..n]).map_err(|e| Fail::new(format!("harness: {}", e)))?;
                if n == 0 {
                    return Ok((log, false));
                }
                let mut off = 0;
                while off < n {
                    match dec.decode(&buf[off..n], Eos::new(false)) {
                        Err(_) => {
                            log.push(Essence::Reject);
                            return Ok((log, false));
                        }
                        Ok(k) => off += k,
                    }
                    if dec.idle() {
                        match dec.finish() {
                            Ok(Ok(m)) => log.push(Essence::Valid(m.snap())),
                            Ok(Err(b)) => log.push(Essence::Broken(b.class, b.method, b.tid)),
                            Err(k) => fail!("finishing a message that has arrived fails with {:?}", k),
                        }
                    }
                }
            }
        });
        let g = rd.join();
        let w = w.join();
        match (w, g) {
            (Ok(w), Ok(g)) => w.and(g),
            (Err(e), _) | (_, Err(e)) => std::panic::resume_unwind(e),
        }
    })?;
    // a writer that went on although the reader had given up wrote at most what follows
    compare(c, b, &wire, &got.0, got.1)?;
    c.count(if blocking { "connections read with blocking calls" } else { "connections read piece by piece" }, 1);
    c.count("messages delivered", got.0.len() as u64);
    Ok(())
}

/// A datagram is decoded to its end and the result asked for, as `decode_from_bytes` does.
fn datagram(dec: &mut dyn DynDecoder, b: &[u8], cut: &Cut, mode: Mode) -> Out {
    match feed(dec, b, cut, mode).out {
        Out::More => match dec.finish() {
            Ok(Ok(m)) => Out::Valid(m),
            Ok(Err(b)) => Out::Broken(b),
            Err(k) => Out::Reject(k),
        },
        o => o,
    }
}

/// One message per datagram, one decoder for all of them.
fn datagrams(c: &mut Case) -> Chk {
    let a = any_set(&mut c.r);
    let b = if c.r.bool() { a } else { any_set(&mut c.r) };
    let mut enc = a.encoder();
    let mut net: Vec<(Vec<u8>, Option<usize>)> = Vec::new();
    let n = c.r.mostly(2, 14);
    let mut plans = Vec::new();
    for i in 0..n {
        let p = modest_plan(&mut c.r, a);
        let want = p.image().bytes();
        enc.start(p.build(a)?).map_err(|k| Fail::new(format!("an idle encoder refuses a message: {:?}", k)))?;
        let cut = gen::cut(&mut c.r, want.len());
        let d = drain(&mut *enc, None, &cut, Mode::Open);
        if let Some(k) = d.err {
            fail!("writing a message fails with {:?}", k);
        }
        if d.bytes != want {
            return Err(Fail::new("a datagram does not hold the message that was sent").with(format!("sent {}\nshould be {}", hex(&d.bytes), hex(&want))));
        }
        net.push((d.bytes, Some(i)));
        plans.push(p);
    }
    // the network
    let mut arrive: Vec<(Vec<u8>, Option<usize>)> = Vec::new();
    let streak = n > 20 && c.r.bool();
    for (i, (bytes, id)) in net.into_iter().enumerate() {
        match if streak && i % 50 != 0 { 8 } else { c.r.below(13) } {
            0 => c.count("datagrams lost", 1),
            1 => {
                arrive.push((bytes.clone(), id));
                arrive.push((bytes, id));
                c.count("datagrams duplicated", 1);
            }
            2 => {
                let k = c.r.below(bytes.len());
                arrive.push((bytes[..k].to_vec(), None));
                c.count("datagrams cut", 1);
            }
            3 | 4 => {
                let mut x = bytes;
                for (i, m) in damage(&mut c.r, &x) {
                    x[i] ^= m;
                }
                arrive.push((x, None));
                c.count("datagrams damaged", 1);
            }
            7 | 8 => {
                // a damaged copy among intact ones
                let mut x = bytes.clone();
                for (i, m) in damage_of(&mut c.r, &x, 9) {
                    x[i] ^= m;
                }
                if !streak {
                    arrive.push((bytes.clone(), id));
                }
                arrive.push((x, None));
                if !streak {
                    arrive.push((bytes, id));
                }
                c.count("datagrams damaged", 1);
            }
            5 => {
                let mut x = bytes;
                gen::mutate(&mut c.r, &mut x);
                arrive.push((x, None));
                c.count("datagrams damaged", 1);
            }
            6 => {
                arrive.push((gen::noise(&mut c.r), None));
                arrive.push((bytes, id));
                c.count("datagrams of noise", 1);
            }
            _ => arrive.push((bytes, id)),
        }
    }
    for _ in 0..c.r.below(4) {
        if arrive.len() > 1 {
            let (i, j) = (c.r.below(arrive.len()), c.r.below(arrive.len()));
            arrive.swap(i, j);
            c.count("datagrams reordered", 1);
        }
    }
    let mut dec = b.decoder();
    let mut history = Vec::new();
    for (bytes, id) in &arrive {
        let mut cut = Cut::All;
        if c.r.chance(1, 8) {
            cut = gen::cut(&mut c.r, bytes.len());
        }
        let out = datagram(&mut *dec, bytes, &cut, if c.r.bool() { Mode::AtEnd } else { Mode::Exact });
        let what = || format!("after datagrams that were {:?}\nreceived {}", history, show_bytes(b, bytes));
        let got = out.essence();
        if let Some(w) = expected(b, bytes) {
            let w = match (w, &got) {
                // a wrong header that is also too short
                (Essence::Incomplete, Essence::Reject) | (Essence::Reject, Essence::Incomplete) if bytes.len() < 20 => got.clone(),
                // cut off behind its header
                (Essence::Incomplete, Essence::Reject) => got.clone(),
                (Essence::Incomplete, Essence::Broken(..)) if bytes.len() >= 20 => {
                    let (class, method) = split_type(u16::from_be_bytes([bytes[0], bytes[1]]));
                    let mut tid = [0; 12];
                    tid.copy_from_slice(&bytes[8..20]);
                    Essence::Broken(class, method, tid)
                }
                (w, _) => w,
            };
            if w != got {
                return Err(Fail::new(match (&w, &got) {
                    (Essence::Valid(_), Essence::Valid(_)) => "a datagram is delivered with other contents than it holds",
                    (Essence::Valid(_), _) => "a sound datagram is not delivered as a valid message",
                    (_, Essence::Valid(_)) => "an unsound datagram is delivered as a valid message",
                    _ => "an unsound datagram is not judged as what it is",
                })
                .with(format!("expected {}\ngot {}\n{}", clip(&format!("{:?}", w)), clip(&format!("{:?}", got)), what())));
            }
            c.eval(Some(hash_bytes(bytes) ^ hash_dbg(&history)));
        }
        if let (Some(i), Out::Valid(m), false) = (id, &out, b.knows().raw) {
            let items = &plans[*i].items;
            let creds = creds_of(&mut c.r, items);
            let creds: Vec<&Cred> = creds.iter().collect();
            if let Parsed::Msg(pm) = model(b, bytes) {
                judge_msg(c, b, bytes, &pm, &**m, &creds)?;
            }
        }
        history.push(out.name());
        c.count("datagrams received", 1);
    }
    Ok(())
}

// ---------------------------------------------------------------- transactions

#[derive(Clone, Debug, PartialEq)]
enum Done {
    Success,
    /// The server does not know attributes of these types.
    Unknown(Vec<u16>),
    /// Refused for good.
    Denied,
}
struct Trans {
    method: u16,
    /// Values the client wants to get across.
    body: Vec<(u16, Val)>,
    /// Attributes the server's set does not know.
    odd: Vec<(u16, Val)>,
    tid: [u8; 12],
    challenge: Option<(String, String)>,
    done: Option<Done>,
    answers: usize,
}
fn fresh_tid(r: &mut Rng) -> [u8; 12] {
    let mut t = r.tid();
    t[3..11].copy_from_slice(&r.u64().to_be_bytes());
    t
}
struct Net {
    to_server: Vec<Vec<u8>>,
    to_client: Vec<Vec<u8>>,
}
fn send(r: &mut Rng, q: &mut Vec<Vec<u8>>, b: Vec<u8>, quiet: bool) {
    if quiet {
        q.push(b);
        return;
    }
    match r.below(10) {
        0 => {}
        1 => {
            q.push(b.clone());
            q.push(b);
        }
        2 => {
            let n = r.below(b.len());
            q.push(b[..n].to_vec());
        }
        3 => {
            let mut b = b;
            // one byte only: no CRC-32 lets that pass
            let i = r.below(b.len());
            b[i] ^= r.range(1, 255) as u8;
            q.push(b);
        }
        4 => {
            let i = r.below(q.len() + 1);
            q.insert(i, b);
        }
        _ => q.push(b),
    }
}
fn text_of(m: &Snap, ty: u16) -> Option<String> {
    m.known.iter().find(|a| a.0 == ty).and_then(|a| if let Val::Text(t) = &a.1 { Some(t.clone()) } else { None })
}
fn has_last_fp(s: &Snap) -> bool {
    s.known.last().map_or(false, |a| a.0 == T_FP)
}

/// A client and a server that challenge, authenticate, refuse and answer, over a network that loses,
/// duplicates, reorders, cuts and damages.
fn transactions(c: &mut Case) -> Chk {
    let client = all_set();
    let server = if c.r.bool() { all_set() } else { r5389_set() };
    let k = server.knows();
    let mut r = c.r.clone();
    let (user, realm, password) = {
        let n = r.range(1, 40);
        let m = r.range(1, 30);
        (gen::text_bytes(&mut r, n), gen::text_chars(&mut r, m), gen::text_chars(&mut r, 12))
    };
    let wrong = r.chance(1, 5);
    let client_password = if wrong { format!("{}x", password) } else { password.clone() };
    let nonce = gen::text_chars(&mut r, 20);
    let n = r.mostly(1, 6);
    let mut trans: Vec<Trans> = (0..n)
        .map(|_| {
            let tid = fresh_tid(&mut r);
            let body = gen::plan(&mut r, server, false).attrs.into_iter().filter(|a| ![T_MI, T_FP, 0x0006, 0x0014, 0x0015].contains(&a.0)).take(4).filter(|a| enc_value(a.0, &a.1, None).len() < 300).collect();
            let odd = if r.chance(1, 4) {
                gen::plan(&mut r, client, false).attrs.into_iter().filter(|a| !(k.f)(a.0) && enc_value(a.0, &a.1, None).len() < 300).collect()
            } else {
                vec![]
            };
            Trans { method: gen::method(&mut r), body, odd, tid, challenge: None, done: None, answers: 0 }
        })
        .collect();
    let mut net = Net { to_server: vec![], to_client: vec![] };
    let (mut cenc, mut cdec) = (client.encoder(), client.decoder());
    let (mut senc, mut sdec) = (server.encoder(), server.decoder());
    let long = |p: &str| Cred::Long { user: user.clone(), realm: realm.clone(), password: p.to_owned() };
    // what the server carried out: transaction ID -> contents
    let mut carried: BTreeMap<[u8; 12], (u16, Vec<(u16, Val)>)> = BTreeMap::new();
    let mut asked: BTreeMap<[u8; 12], usize> = BTreeMap::new();
    let out = |enc: &mut dyn DynEncoder, set: &dyn DynSet, p: &AuthPlan, r: &mut Rng| -> Result<Vec<u8>, Fail> {
        enc.start(p.build(set)?).map_err(|k| Fail::new(format!("an idle encoder refuses a message: {:?}", k)))?;
        let cut = gen::cut(r, 200);
        let d = drain(enc, None, &cut, Mode::Open);
        match d.err {
            Some(k) => fail!("writing a message fails with {:?}", k),
            None => Ok(d.bytes),
        }
    };
    let mut rounds = 0;
    while trans.iter().any(|t| t.done.is_none()) {
        rounds += 1;
        ensure!(rounds < 60, "transactions never end although the network has calmed down: {}", clip(&format!("{:?}", trans.iter().map(|t| (&t.done, t.answers, &t.challenge)).collect::<Vec<_>>())));
        let quiet = rounds > 12;
        // the client sends, again if need be
        for (i, t) in trans.iter().enumerate() {
            if t.done.is_some() {
                continue;
            }
            let mut items: Vec<PItem> = t.body.iter().chain(&t.odd).map(|(t, v)| PItem::Val(*t, v.clone())).collect();
            if let Some((realm, nonce)) = &t.challenge {
                items.push(PItem::Val(0x0006, Val::Text(user.clone())));
                items.push(PItem::Val(0x0014, Val::Text(realm.clone())));
                items.push(PItem::Val(0x0015, Val::Text(nonce.clone())));
                items.push(PItem::Mi(Cred::Long { user: user.clone(), realm: realm.clone(), password: client_password.clone() }));
            }
            items.push(PItem::Fp);
            asked.insert(t.tid, i);
            let p = AuthPlan { class: 0, method: t.method, tid: t.tid, items };
            let b = out(&mut *cenc, client, &p, &mut r)?;
            send(&mut r, &mut net.to_server, b, quiet);
            c.count("requests sent", 1);
        }
        // the server
        for b in std::mem::take(&mut net.to_server) {
            let got = datagram(&mut *sdec, &b, &Cut::All, Mode::AtEnd);
            let mut ans: Vec<PItem> = Vec::new();
            let (method, tid, class) = match &got {
                Out::Broken(x) => {
                    ensure_eq!(x.as_code, 400, "the error code a broken request is answered with");
                    ans.push(PItem::Val(0x0009, Val::Err(x.as_code, x.reason.clone())));
                    ans.push(PItem::Fp);
                    c.count("answers 400", 1);
                    (x.method, x.tid, 3)
                }
                Out::Valid(m) => {
                    let s = m.snap();
                    if s.class != 0 || !has_last_fp(&s) {
                        continue;
                    }
                    let must: Vec<u16> = s.unknown.iter().map(|a| a.0).filter(|t| *t < 0x8000).collect();
                    let mis = m.mis();
                    if !must.is_empty() {
                        ans.push(PItem::Val(0x0009, Val::Err(420, "Unknown Attribute".into())));
                        ans.push(PItem::Val(0x000a, Val::Types(must)));
                        c.count("answers 420", 1);
                        (s.method, s.tid, 3)
                    } else if mis.is_empty() {
                        ans.push(PItem::Val(0x0009, Val::Err(401, "Unauthorized".into())));
                        ans.push(PItem::Val(0x0014, Val::Text(realm.clone())));
                        ans.push(PItem::Val(0x0015, Val::Text(nonce.clone())));
                        c.count("answers 401 to challenge", 1);
                        (s.method, s.tid, 3)
                    } else {
                        ensure!(text_of(&s, 0x0006).as_ref() == Some(&user) && text_of(&s, 0x0014).as_ref() == Some(&realm) && text_of(&s, 0x0015).as_ref() == Some(&nonce),
                            "the server receives another username, realm or nonce than it gave out: {:?}", s);
                        let ok = long(&password).check(&mis[0]);
                        ensure!(ok == if wrong { Ok(Err(401)) } else { Ok(Ok(())) }, "a client with {} password is told {:?}", if wrong { "a wrong" } else { "the right" }, ok);
                        if wrong {
                            ans.push(PItem::Val(0x0009, Val::Err(403, "Forbidden".into())));
                            c.count("answers to a wrong password", 1);
                            (s.method, s.tid, 3)
                        } else {
                            let body: Vec<(u16, Val)> = s.known.iter().filter(|a| ![T_MI, T_FP, 0x0006, 0x0014, 0x0015].contains(&a.0)).cloned().collect();
                            let now = (s.method, body);
                            if let Some(old) = carried.get(&s.tid) {
                                ensure!(*old == now, "a request that arrives twice has other contents the second time: {} and {}\n{}", clip(&format!("{:?}", old)), clip(&format!("{:?}", now)), show_bytes(server, &b));
                            }
                            // echo what was asked for
                            ans.extend(now.1.iter().map(|(t, v)| PItem::Val(*t, v.clone())));
                            carried.insert(s.tid, now);
                            ans.push(PItem::Mi(long(&password)));
                            c.count("requests carried out", 1);
                            (s.method, s.tid, 2)
                        }
                    }
                }
                _ => continue,
            };
            if !matches!(ans.last(), Some(PItem::Fp)) {
                ans.push(PItem::Fp);
            }
            let b = out(&mut *senc, server, &AuthPlan { class, method, tid, items: ans }, &mut r)?;
            send(&mut r, &mut net.to_client, b, quiet);
        }
        // the client again
        for b in std::mem::take(&mut net.to_client) {
            let got = datagram(&mut *cdec, &b, &Cut::All, Mode::AtEnd);
            let m = match &got {
                Out::Valid(m) => m,
                _ => continue,
            };
            let s = m.snap();
            if s.class < 2 || !has_last_fp(&s) {
                continue;
            }
            let Some(i) = asked.get(&s.tid) else {
                // the answer to a damaged request
                c.count("answers to nobody", 1);
                continue;
            };
            let t = &mut trans[*i];
            if t.tid != s.tid || t.done.is_some() {
                c.count("late answers", 1);
                continue;
            }
            t.answers += 1;
            if s.class == 2 {
                ensure_eq!(s.method, t.method, "the method of a success answer");
                let mis = m.mis();
                ensure!(mis.len() == 1 && long(&client_password).check(&mis[0]) == Ok(Ok(())), "a success answer does not verify");
                ensure!(long(&format!("{}y", client_password)).check(&mis[0]) == Ok(Err(401)), "a success answer verifies with another password");
                let body: Vec<(u16, Val)> = s.known.iter().filter(|a| ![T_MI, T_FP].contains(&a.0)).cloned().collect();
                ensure!(body == t.body, "the answer does not bring back what was asked for: {} instead of {}", clip(&format!("{:?}", body)), clip(&format!("{:?}", t.body)));
                t.done = Some(Done::Success);
            } else {
                let Some((_, Val::Err(code, _))) = s.known.iter().find(|a| a.0 == 0x0009) else { fail!("an error answer arrives without its error code: {:?}", s) };
                match code {
                    400 => {} // damaged on the way: send it again
                    401 => {
                        ensure!(t.challenge.is_none(), "a request with credentials is challenged: {:?}", s);
                        let (Some(x), Some(y)) = (text_of(&s, 0x0014), text_of(&s, 0x0015)) else { fail!("a challenge arrives without realm or nonce") };
                        ensure!(x == realm && y == nonce, "a challenge arrives with another realm or nonce");
                        t.challenge = Some((x, y));
                        t.tid = fresh_tid(&mut r);
                    }
                    403 => {
                        ensure!(wrong && t.challenge.is_some(), "a client with the right password is refused");
                        t.done = Some(Done::Denied);
                    }
                    420 => {
                        let Some((_, Val::Types(u))) = s.known.iter().find(|a| a.0 == 0x000a) else { fail!("an answer 420 arrives without the types") };
                        let must: Vec<u16> = t.odd.iter().map(|a| a.0).filter(|t| *t < 0x8000).collect();
                        ensure!(*u == must && !must.is_empty(), "the server names {:?} as unknown, sent were {:?}", u, must);
                        t.done = Some(Done::Unknown(must));
                    }
                    x => fail!("an answer arrives with code {}", x),
                }
            }
        }
    }
    for t in &trans {
        let must = t.odd.iter().any(|a| a.0 < 0x8000);
        let want = if must { matches!(t.done, Some(Done::Unknown(_))) } else if wrong { t.done == Some(Done::Denied) } else { t.done == Some(Done::Success) };
        ensure!(want, "a transaction ends with {:?}", t.done);
        if t.done == Some(Done::Success) {
            match carried.get(&t.tid) {
                Some((m, b)) => ensure!(*m == t.method && *b == t.body, "the server carries out something else than was asked for"),
                None => fail!("a success answer to a request that was not carried out"),
            }
        }
        c.eval(Some(hash_dbg(&(t.tid, &t.body))));
    }
    for (tid, (m, b)) in &carried {
        let Some(i) = asked.get(tid) else { fail!("the server carries out a request nobody sent") };
        ensure!(trans[*i].method == *m && trans[*i].body == *b, "the server carries out something else than was asked for");
    }
    c.max("rounds", rounds);
    c.count("transactions", trans.len() as u64);
    Ok(())
}
