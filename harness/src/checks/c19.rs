//! Many codecs at once: interleaved on one thread, on several threads, moved between threads, and
//! messages shared by threads. Every result is compared with that of the same work done alone.
//! Run as they are, under Miri's race detector and under ThreadSanitizer.
use super::util::*;
use std::marker::PhantomData;
use std::sync::{Arc, Barrier};
use stun_codec::{BrokenMessage, Message, MessageDecoder, MessageEncoder, RawAttribute};

pub fn check() -> Check {
    Check {
        id: "C19",
        rule: "several streams of work (decoding, building, signing, encoding, verifying) run interleaved or on several threads, whose every result was compared with that of the same work alone; non-trivial if at least two had more than one step",
        suites: vec![
            sweep("threads allowed", 1, allowed),
            random("interleaved", 60_000, 2_000_000, interleaved),
            sweep("crowd", 2 * MANY.len() as u64, crowd),
            random("concurrent", 6_000, 150_000, concurrent),
            random("moved", 3_000, 80_000, moved),
            random("shared", 4_000, 100_000, shared),
            random("fresh process", 2_000, 60_000, fresh),
        ],
        assumptions: &[
            "data races that do not change a result are seen by the Miri and ThreadSanitizer stages only",
            "interleavings on threads are those the scheduler produces; those on one thread are drawn at random, step by step",
        ],
    }
}

// Whether a type may be sent and shared is asked without requiring it, so that the answer "no" is
// a violation and not a harness that does not build.
struct Ask<T: ?Sized>(PhantomData<T>);
trait Otherwise {
    const SEND: bool = false;
    const SYNC: bool = false;
}
impl<T: ?Sized> Otherwise for Ask<T> {}
#[allow(dead_code)]
impl<T: ?Sized + Send> Ask<T> {
    const SEND: bool = true;
}
#[allow(dead_code)]
impl<T: ?Sized + Sync> Ask<T> {
    const SYNC: bool = true;
}
fn threads_allowed() -> Vec<(&'static str, bool, bool)> {
    let mut v = vec![];
    macro_rules! ask {
        ($($t:ty),* $(,)?) => {$( v.push((stringify!($t), <Ask<$t>>::SEND, <Ask<$t>>::SYNC)); )*};
    }
    macro_rules! ask_set {
        ($($t:ty),* $(,)?) => {$(
            ask!($t, Message<$t>, MessageDecoder<$t>, MessageEncoder<$t>);
            v.push((concat!("decoder of ", stringify!($t)), <Ask<<$t as stun_codec::Attribute>::Decoder>>::SEND, <Ask<<$t as stun_codec::Attribute>::Decoder>>::SYNC));
            v.push((concat!("encoder of ", stringify!($t)), <Ask<<$t as stun_codec::Attribute>::Encoder>>::SEND, <Ask<<$t as stun_codec::Attribute>::Encoder>>::SYNC));
        )*};
    }
    ask_set!(
        All, Sparse, Auth, RawAttribute,
        stun_codec::rfc5389::Attribute, stun_codec::rfc5766::Attribute, stun_codec::rfc5245::Attribute, stun_codec::rfc5780::Attribute,
        MappedAddress, Username, MessageIntegrity, ErrorCode, UnknownAttributes, Realm, Nonce, XorMappedAddress, XorMappedAddress2,
        Software, AlternateServer, Fingerprint, ChannelNumber, Lifetime, XorPeerAddress, Data, XorRelayAddress, EvenPort,
        RequestedTransport, DontFragment, ReservationToken, Priority, UseCandidate, IceControlled, IceControlling, ChangeRequest,
        ResponseOrigin, OtherAddress, ResponsePort, MobilityTicket, RequestedAddressFamily, AdditionalAddressFamily,
    );
    ask!(
        BrokenMessage, stun_codec::Method, stun_codec::MessageClass, stun_codec::TransactionId, stun_codec::AttributeType,
        stun_codec::net::SocketAddrDecoder, stun_codec::net::SocketAddrEncoder,
    );
    v
}
fn allowed(c: &mut Case) -> Chk {
    for (name, send, sync) in threads_allowed() {
        c.eval(Some(hash_bytes(name.as_bytes())));
        ensure!(send, "values of type {} cannot be moved to another thread", name);
        ensure!(sync, "values of type {} cannot be shared with another thread", name);
        c.count("types", 1);
    }
    Ok(())
}

/// Lets trait objects cross threads; sound because of `allowed`, which runs first.
struct Force<T>(T);
unsafe impl<T> Send for Force<T> {}
unsafe impl<T> Sync for Force<T> {}
impl<T> Force<T> {
    fn take(self) -> T {
        self.0
    }
}

/// A piece of work. What it does is fixed; when its steps are done is not.
#[derive(Clone, Debug)]
enum Task {
    Decode { set: &'static dyn DynSet, bytes: Vec<u8>, cut: Cut, creds: Vec<Cred>, forward: bool },
    Encode { set: &'static dyn DynSet, plans: Vec<AuthPlan>, sizes: Vec<usize> },
    Value { ty: u16, vals: Vec<Val>, size: usize },
}

/// A task under way.
struct Run {
    task: Task,
    dec: Option<Box<dyn DynDecoder>>,
    enc: Option<Box<dyn DynEncoder>>,
    vdec: Option<Box<dyn ValDecoder>>,
    venc: Option<Box<dyn ValEncoder>>,
    off: usize,
    i: usize,
    at: usize,
    /// Keeps delivered messages alive until the end.
    msgs: Vec<Box<dyn DynMsg>>,
    building: Option<(Box<dyn DynMsg>, usize)>,
    acc: Vec<u8>,
    log: Vec<u64>,
    done: bool,
}
impl Run {
    fn new(task: &Task) -> Run {
        let mut r = Run {
            task: task.clone(),
            dec: None,
            enc: None,
            vdec: None,
            venc: None,
            off: 0,
            i: 0,
            at: 0,
            msgs: vec![],
            building: None,
            acc: vec![],
            log: vec![],
            done: false,
        };
        match task {
            Task::Decode { set, .. } => {
                r.dec = Some(set.decoder());
                r.enc = Some(set.encoder());
            }
            Task::Encode { set, .. } => r.enc = Some(set.encoder()),
            Task::Value { ty, .. } => {
                let o = one_of(*ty);
                r.vdec = Some(o.decoder());
                r.venc = Some(o.encoder());
            }
        }
        r
    }
    fn note(&mut self, h: u64) {
        self.log.push(h);
    }
    /// One small step; false when there is nothing left to do.
    fn step(&mut self) -> bool {
        if self.done {
            return false;
        }
        let task = std::mem::replace(&mut self.task, Task::Value { ty: 0, vals: vec![], size: 0 });
        match &task {
            Task::Decode { bytes, cut, creds, forward, .. } => self.step_decode(bytes, cut, creds, *forward),
            Task::Encode { set, plans, sizes } => self.step_encode(*set, plans, sizes),
            Task::Value { vals, size, .. } => self.step_value(vals, *size),
        }
        self.task = task;
        !self.done
    }
    fn step_decode(&mut self, bytes: &[u8], cut: &Cut, creds: &[Cred], forward: bool) {
        let d = self.dec.as_mut().unwrap();
        if d.idle() {
            let out = match d.finish() {
                Err(k) => Out::FinishErr(k),
                Ok(Ok(m)) => Out::Valid(m),
                Ok(Err(b)) => Out::Broken(b),
            };
            let h = hash_dbg(&out.essence());
            self.note(h);
            if let Out::Valid(m) = out {
                self.msgs.push(m);
                self.at = 1;
            }
            return;
        }
        if self.at > 0 {
            // with the message delivered last: verify, then forward
            let m = self.msgs.last().unwrap().clone_box();
            let s = self.at - 1;
            self.at += 1;
            if s < creds.len() {
                let r: Vec<_> = m.mis().iter().map(|mi| creds[s].check(mi)).collect();
                self.note(hash_dbg(&r));
                return;
            }
            if s == creds.len() {
                self.note(hash_dbg(&m.snap()));
                return;
            }
            self.at = 0;
            if forward {
                let r = self.enc.as_mut().unwrap().all(m);
                self.note(hash_dbg(&r));
            }
            return;
        }
        if self.off >= bytes.len() {
            self.note(self.off as u64);
            self.done = true;
            return;
        }
        let n = cut.size(self.i).min(bytes.len() - self.off);
        self.i += 1;
        match d.decode(&bytes[self.off..self.off + n], Eos::new(self.off + n == bytes.len())) {
            Ok(k) => {
                self.off += k.min(n);
                let h = hash_dbg(&(k, d.idle(), d.req().to_u64()));
                let stuck = k == 0 && n > 0 && !d.idle();
                self.note(h);
                if stuck {
                    self.done = true;
                }
            }
            Err(k) => {
                self.note(hash_dbg(&k));
                self.off += 20.min(bytes.len() - self.off);
            }
        }
    }
    fn step_encode(&mut self, set: &dyn DynSet, plans: &[AuthPlan], sizes: &[usize]) {
        let e = self.enc.as_mut().unwrap();
        if !e.idle() {
            let mut b = vec![0; sizes[self.i % sizes.len()]];
            self.i += 1;
            match e.encode(&mut b, Eos::new(false)) {
                Ok(n) => {
                    self.acc.extend_from_slice(&b[..n.min(b.len())]);
                    let h = hash_dbg(&(n, e.exact()));
                    self.note(h);
                }
                Err(k) => {
                    self.note(hash_dbg(&k));
                    self.done = true;
                }
            }
            return;
        }
        if let Some((mut m, k)) = self.building.take() {
            let items = &plans[self.at].items;
            if k < items.len() {
                let r = add_item(&mut *m, &items[k]);
                self.note(hash_dbg(&(r.is_ok(), m.snap())));
                self.building = Some((m, k + 1));
            } else {
                let r = e.start(m);
                self.note(hash_dbg(&r));
                self.at += 1;
            }
            return;
        }
        let h = hash_bytes(&self.acc);
        self.note(h);
        self.acc.clear();
        match plans.get(self.at) {
            None => self.done = true,
            Some(p) => self.building = Some((set.msg(p.class, p.method, p.tid), 0)),
        }
    }
    fn step_value(&mut self, vals: &[Val], size: usize) {
        let e = self.venc.as_mut().unwrap();
        if !e.idle() {
            let mut b = vec![0; size];
            match e.encode(&mut b, Eos::new(false)) {
                Ok(n) => self.acc.extend_from_slice(&b[..n.min(size)]),
                Err(k) => {
                    self.note(hash_dbg(&k));
                    self.done = true;
                }
            }
            return;
        }
        if self.at > 0 && self.off < 2 {
            let d = self.vdec.as_mut().unwrap();
            if self.off == 0 {
                let r = d.decode(&self.acc, Eos::new(true));
                self.off = 1;
                self.note(hash_dbg(&r));
            } else {
                let r = if d.idle() { d.finish().ok() } else { None };
                self.off = 2;
                self.note(hash_dbg(&r));
            }
            return;
        }
        self.acc.clear();
        match vals.get(self.at) {
            None => self.done = true,
            Some(v) => {
                let r = e.start(v);
                self.at += 1;
                self.off = 0;
                self.note(hash_dbg(&r));
            }
        }
    }
    fn finish(mut self) -> Vec<u64> {
        let mut guard = 0;
        while self.step() {
            guard += 1;
            if guard > MOST_STEPS {
                self.note(0xdead);
                break;
            }
        }
        self.end()
    }
    /// The messages delivered are still what they were.
    fn end(mut self) -> Vec<u64> {
        for m in std::mem::take(&mut self.msgs) {
            let h = hash_dbg(&m.snap());
            self.note(h);
        }
        self.log
    }
}

/// Credentials that differ in one part, so that confusing them shows.
fn creds(r: &mut Rng) -> Vec<Cred> {
    let first = gen::cred(r);
    let (user, realm, password) = match &first {
        Cred::Short(p) => (gen::text_bytes(r, 5), gen::text_chars(r, 9), p.clone()),
        Cred::Long { user, realm, password } => (user.clone(), realm.clone(), password.clone()),
    };
    let n = password.len();
    let same_length = gen::text_bytes(r, n);
    let (user2, realm2) = (gen::text_bytes(r, user.len()), gen::text_bytes(r, realm.len().min(127)));
    let mut v = vec![
        Cred::Short(password.clone()),
        Cred::Short(same_length.clone()),
        Cred::Long { user: user.clone(), realm: realm.clone(), password: password.clone() },
        Cred::Long { user: user.clone(), realm: realm.clone(), password: same_length },
        Cred::Long { user: user2, realm: realm.clone(), password: password.clone() },
        Cred::Long { user: user.clone(), realm: realm2, password: password.clone() },
        Cred::Long { user, realm, password: password.clone() + "x" },
        Cred::Short(password + "x"),
    ];
    for i in (1..v.len()).rev() {
        v.swap(i, r.below(i + 1));
    }
    v[0] = first;
    v.truncate(5);
    v
}

/// Nearly the same work again.
fn variant(r: &mut Rng, t: &Task, pool: &[Cred]) -> Task {
    let mut t = t.clone();
    match &mut t {
        Task::Decode { bytes, creds, .. } => match r.below(3) {
            0 => creds.reverse(),
            1 => creds.insert(0, r.pick(pool).clone()),
            _ => {
                // anywhere behind the length of the first message
                if bytes.len() > 4 {
                    let i = r.range(4, bytes.len() - 1);
                    bytes[i] ^= 1 << r.below(8);
                }
            }
        },
        Task::Encode { plans, .. } => {
            let i = r.below(plans.len());
            let p = &mut plans[i];
            match r.below(4) {
                0 => p.tid[r.below(12)] ^= 1,
                1 => p.method ^= 1,
                2 => p.class ^= 1,
                _ => {
                    let j = r.below(p.items.len().max(1));
                    let tid = p.tid;
                    match p.items.get_mut(j) {
                        Some(PItem::Mi(c)) => *c = r.pick(pool).clone(),
                        Some(PItem::Val(ty, v)) if model_kind(*ty) => *v = gen::val(r, *ty, &tid),
                        _ => p.items.push(PItem::Fp),
                    }
                }
            }
            if p.items.iter().any(|i| matches!(i, PItem::Fp)) && !matches!(p.items.last(), Some(PItem::Fp)) {
                p.items.retain(|i| !matches!(i, PItem::Fp));
            }
        }
        Task::Value { ty, vals, .. } => vals.insert(0, gen::val(r, *ty, &[0; 12])),
    }
    t
}
fn model_kind(ty: u16) -> bool {
    TYPES.iter().any(|t| t.0 == ty)
}

/// Work that has things in common: transaction IDs, credentials, attribute values.
fn tasks(r: &mut Rng, n: usize) -> Vec<Task> {
    let light = cfg!(miri);
    let tid = r.tid();
    let pool = creds(r);
    let same_set = if r.bool() { *r.pick(&auth_sets()) } else { any_set(r) };
    let mut v: Vec<Task> = vec![];
    for _ in 0..n {
        let t = if !v.is_empty() && r.chance(1, 3) {
            let t = v[r.below(v.len())].clone();
            variant(r, &t, &pool)
        } else {
            task(r, light, &tid, &pool, same_set)
        };
        v.push(t);
    }
    v
}
fn task(r: &mut Rng, light: bool, tid: &[u8; 12], pool: &[Cred], same_set: &'static dyn DynSet) -> Task {
            let tid = *tid;
            let set = if r.bool() { same_set } else { any_set(r) };
            match r.below(5) {
                0 | 1 => {
                    let mut bytes = vec![];
                    let mut creds = vec![r.pick(pool).clone(), r.pick(pool).clone()];
                    for _ in 0..r.range(1, if light { 1 } else { 3 }) {
                        let o = if r.chance(3, 4) { gen::VALID } else { gen::MESSY };
                        let mut im = gen::image(r, set, o);
                        if light {
                            im.items.truncate(3);
                        }
                        if r.bool() {
                            im.tid = tid;
                        }
                        if !set.knows().raw && (set.knows().f)(T_MI) && r.chance(3, 4) {
                            im.items.push(Item::Mi(r.pick(pool).clone()));
                        }
                        if let Some(Item::Mi(c)) = im.items.iter().find(|i| matches!(i, Item::Mi(_))) {
                            creds.push(c.clone());
                        }
                        bytes.extend(im.bytes());
                    }
                    if r.chance(1, 6) {
                        gen::mutate(r, &mut bytes);
                    }
                    let cut = if light { Cut::Fixed(16) } else { gen::cut(r, bytes.len()) };
                    Task::Decode { set, bytes, cut, creds, forward: r.bool() }
                }
                2 | 3 => {
                    let mut plans = vec![];
                    for _ in 0..r.range(1, if light { 1 } else { 3 }) {
                        let mut p = auth_plan(r, set);
                        if light {
                            p.items.truncate(3);
                        }
                        if r.bool() {
                            p.tid = tid;
                        }
                        for i in p.items.iter_mut() {
                            if let (PItem::Mi(c), true) = (i, r.chance(3, 4)) {
                                *c = r.pick(pool).clone();
                            }
                        }
                        plans.push(p);
                    }
                    let n = r.range(1, 4);
                    let max = *r.pick(&[4usize, 20, 200]);
                    let lo = if light { 16 } else { 1 };
                    Task::Encode { set, plans, sizes: (0..n).map(|_| r.range(lo, max.max(lo))).collect() }
                }
                _ => {
                    let ty = r.pick(&TYPES).0;
                    let n = r.range(1, 4);
                    let size = r.range(1, 9);
                    Task::Value { ty, vals: (0..n).map(|_| gen::val(r, ty, &tid)).collect(), size }
                }
            }
}

fn compare(tasks: &[Task], alone: &[Vec<u64>], got: &[Vec<u64>], how: &str) -> Chk {
    for (i, (a, g)) in alone.iter().zip(got).enumerate() {
        if a != g {
            let at = a.iter().zip(g).position(|(x, y)| x != y).unwrap_or(a.len().min(g.len()));
            return Err(Fail::new(format!("work done {} gives another result than alone", how)).with(format!(
                "work {} of {} differs at its step {} of {}\n{}\nthe others: {}",
                i,
                tasks.len(),
                at,
                a.len(),
                clip(&format!("{:?}", tasks[i])),
                clip(&format!("{:?}", tasks.iter().enumerate().filter(|(j, _)| *j != i).map(|t| t.1).collect::<Vec<_>>()))
            )));
        }
    }
    Ok(())
}

/// More than any work here takes.
const MOST_STEPS: usize = 1_000_000;

fn interleaved(c: &mut Case) -> Chk {
    let n = c.r.range(2, 5);
    interleave(c, n)
}
const MANY: [usize; 20] = [9, 16, 17, 20, 33, 50, 64, 65, 100, 101, 128, 129, 200, 256, 257, 300, 513, 1000, 1025, 2049];
/// Many codecs under way at once.
fn crowd(c: &mut Case) -> Chk {
    let n = MANY[c.idx as usize % MANY.len()];
    interleave(c, if cfg!(miri) { 12 } else { n })
}
fn interleave(c: &mut Case, n: usize) -> Chk {
    let ts = tasks(&mut c.r, n);
    let alone: Vec<_> = ts.iter().map(|t| Run::new(t).finish()).collect();
    let long = alone.iter().filter(|a| a.len() > 1).count();
    c.eval((long > 1).then(|| hash_dbg(&alone)));
    c.sample(|| format!("{:?}", ts));
    let mut runs: Vec<Run> = ts.iter().map(Run::new).collect();
    let mut open: Vec<usize> = (0..n).collect();
    let burst = *c.r.pick(&[1usize, 2, 7]);
    let mut steps = 0u64;
    let most = (MOST_STEPS * n) as u64;
    while !open.is_empty() && steps < most {
        let k = c.r.below(open.len());
        for _ in 0..c.r.range(1, burst) {
            steps += 1;
            if !runs[open[k]].step() {
                open.swap_remove(k);
                break;
            }
        }
    }
    let got: Vec<_> = runs.into_iter().map(|r| r.end()).collect();
    c.count("interleaved steps", steps);
    compare(&ts, &alone, &got, "interleaved on one thread")?;
    // one after the other, the other way round
    let got: Vec<_> = ts.iter().rev().map(|t| Run::new(t).finish()).collect::<Vec<_>>().into_iter().rev().collect();
    compare(&ts, &alone, &got, "in another order")
}

fn concurrent(c: &mut Case) -> Chk {
    let n = c.r.range(2, if cfg!(miri) { 2 } else { 4 });
    let ts = tasks(&mut c.r, n);
    // the same work on several threads, too
    let twice = c.r.bool();
    let ts: Vec<Task> = if twice { ts.iter().chain(ts.iter()).cloned().collect() } else { ts };
    let run = |spread: bool| -> Vec<Vec<u64>> {
        if !spread {
            return ts.iter().map(|t| Run::new(t).finish()).collect();
        }
        let barrier = Barrier::new(ts.len());
        std::thread::scope(|s| {
            let hs: Vec<_> = ts
                .iter()
                .map(|t| {
                    let b = &barrier;
                    let t = Force(t);
                    s.spawn(move || {
                        let t = t.take();
                        b.wait();
                        Run::new(t).finish()
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap_or_else(|_| vec![0xdead])).collect()
        })
    };
    // sometimes the threads come first, when nothing has been initialised by work alone
    let first = c.r.bool();
    let a = run(first);
    let b = run(!first);
    let (spread, alone) = if first { (a, b) } else { (b, a) };
    c.eval(Some(hash_dbg(&alone)));
    c.count("threads", ts.len() as u64);
    compare(&ts, &alone, &spread, "on several threads")
}

/// Codecs and messages wander from thread to thread in the middle of their work.
fn moved(c: &mut Case) -> Chk {
    let n = c.r.range(2, if cfg!(miri) { 2 } else { 4 });
    let ts = tasks(&mut c.r, n);
    let alone: Vec<_> = ts.iter().map(|t| Run::new(t).finish()).collect();
    c.eval(Some(hash_dbg(&alone) ^ 1));
    let mut runs: Vec<Force<Run>> = ts.iter().map(|t| Force(Run::new(t))).collect();
    let rounds = c.r.range(1, 3);
    for round in 0..rounds {
        let plan: Vec<usize> = (0..n).map(|_| if round + 1 == rounds { usize::MAX } else { c.r.below(40) }).collect();
        runs = std::thread::scope(|s| {
            let hs: Vec<_> = runs
                .drain(..)
                .zip(plan)
                .map(|(run, steps)| {
                    s.spawn(move || {
                        let mut run: Run = run.take();
                        let mut k = 0;
                        while k < steps.min(MOST_STEPS) && run.step() {
                            k += 1;
                        }
                        Force(run)
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join()).collect::<Result<Vec<_>, _>>()
        })
        .map_err(|_| Fail::new("a codec that was moved to another thread panics there"))?;
        c.count("moves", n as u64);
    }
    // delivered messages are looked at and dropped here
    let got: Vec<_> = runs.into_iter().map(|r| r.take().end()).collect();
    compare(&ts, &alone, &got, "while moving between threads")
}

/// Alone in a process of its own, where nothing else has ever been done.
fn fresh(c: &mut Case) -> Chk {
    if cfg!(miri) || std::env::var_os("STUNMON_ONE_PROCESS").is_some() {
        return Ok(());
    }
    let seed = c.r.u64();
    let n = c.r.range(2, 6);
    let ts = tasks(&mut Rng::new(seed), n);
    // in this process, which has done a lot already
    let here: Vec<_> = ts.iter().map(|t| Run::new(t).finish()).collect();
    let mut alone = vec![];
    for i in 0..n {
        let out = std::env::current_exe()
            .and_then(|exe| std::process::Command::new(exe).arg("alone").arg(seed.to_string()).arg(n.to_string()).arg(i.to_string()).output());
        let log: Option<Vec<u64>> = match out {
            Ok(o) if o.status.success() => String::from_utf8_lossy(&o.stdout).split_whitespace().map(|w| w.parse().ok()).collect(),
            Ok(o) => fail!("work that ends here does not end well in a process of its own: {} {}", o.status, clip(&String::from_utf8_lossy(&o.stderr))),
            Err(_) => {
                c.count("processes that could not be started", 1);
                return Ok(());
            }
        };
        alone.push(log.expect("log"));
        c.count("processes", 1);
    }
    c.eval(Some(hash_dbg(&alone)));
    compare(&ts, &alone, &here, "after other work in the same process")?;
    let here: Vec<_> = ts.iter().rev().map(|t| Run::new(t).finish()).collect::<Vec<_>>().into_iter().rev().collect();
    compare(&ts, &alone, &here, "after other work in the same process")
}
pub fn alone(seed: u64, n: usize, i: usize) {
    let ts = tasks(&mut Rng::new(seed), n);
    let log = Run::new(&ts[i]).finish();
    println!("{}", log.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "));
}

/// One message, many threads: reading, copying, sending, signing, verifying.
fn shared(c: &mut Case) -> Chk {
    let set = if c.r.chance(3, 4) { *c.r.pick(&auth_sets()) } else { any_set(&mut c.r) };
    let mut pool = creds(&mut c.r);
    let cred = pool.swap_remove(0);
    let other = c.r.pick(&pool).clone();
    let received = c.r.bool();
    let m = if received {
        let mut im = gen::image(&mut c.r, set, gen::VALID);
        if cfg!(miri) {
            im.items.truncate(3);
        }
        im.items.push(Item::Mi(cred.clone()));
        match decode_all(set, &im.bytes()).out {
            Out::Valid(m) => m,
            _ => return Ok(()),
        }
    } else {
        let mut p = auth_plan(&mut c.r, set);
        if cfg!(miri) {
            p.items.truncate(3);
        }
        if set.has_hook_auth() {
            p.items.push(PItem::Mi(cred.clone()));
        }
        p.build(set)?
    };
    let creds = [cred, other];
    let work = |m: &dyn DynMsg, turn: usize| -> Vec<u64> {
        let mut v = vec![0; 6];
        // every thread begins with something else
        for k in 0..6 {
            let k = (k + turn) % 6;
            v[k] = match k {
                0 => hash_dbg(&m.snap()),
                1 => hash_dbg(&m.mis().iter().map(|mi| creds[0].check(mi)).collect::<Vec<_>>()),
                2 => hash_dbg(&m.mis().iter().map(|mi| creds[1].check(mi)).collect::<Vec<_>>()),
                3 => hash_dbg(&encode_all(set, m)),
                4 => hash_dbg(&m.new_mi(&creds[0]).map(|mi| (mi.hmac_sha1(), creds[0].check(&mi)))),
                _ => hash_dbg(&m.new_fp().map(|f| f.crc32())),
            };
        }
        v
    };
    // the copy is made before any thread starts: what is cached by looking must not matter
    let before = m.clone_box();
    let n = if cfg!(miri) { 2 } else { c.r.range(2, 6) };
    let shared = Arc::new(Force(m));
    let barrier = Barrier::new(n);
    let got: Vec<Vec<u64>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..n)
            .map(|i| {
                let m = shared.clone();
                let w = Force(&work);
                let b = &barrier;
                s.spawn(move || {
                    let w = w.take();
                    b.wait();
                    let r = w(&*m.0, i);
                    // the last one drops it
                    drop(m);
                    r
                })
            })
            .collect();
        drop(shared);
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| vec![0xdead])).collect()
    });
    let alone = work(&*before, 0);
    c.eval(Some(hash_dbg(&alone)));
    c.count("threads sharing a message", n as u64);
    c.count("verifications", before.mis().len() as u64 * 2 * n as u64);
    for (i, g) in got.iter().enumerate() {
        if *g != alone {
            let what = ["reading", "verifying the right credential", "verifying another credential", "encoding", "signing", "fingerprinting"];
            let k = g.iter().zip(&alone).position(|(a, b)| a != b).unwrap_or(0);
            fail!("{} a message shared by {} threads gives another result than alone (thread {}, set {}, message {})", what[k], n, i, set.name(), clip(&format!("{:?}", before.snap())));
        }
    }
    if received {
        let r = before.mis().last().map(|mi| creds[0].check(mi));
        ensure!(matches!(r, None | Some(Ok(Ok(())))), "the right credential is refused, set {}", set.name());
    }
    Ok(())
}
