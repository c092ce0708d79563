//! C05: decoding does not depend on how the input is split.
use super::util::*;

pub fn check() -> Check {
    Check {
        id: "C05",
        rule: "distinct (input bytes, set, splitting) triples compared with decoding at once",
        suites: vec![
            random("two pieces", 3_000, 60_000, two),
            random("three pieces", 300, 8_000, three),
            random("pieces", 120_000, 5_000_000, pieces),
            random("streams", 30_000, 1_000_000, streams),
            random("reader", 40_000, 1_000_000, reader),
            random("values", 120_000, 4_000_000, values),
            sweep("large pieces", 12 * OFFERS.len() as u64, offers),
            random("huge", 150, 3_000, huge),
        ],
        assumptions: &["error kinds and texts may depend on the splitting; the verdict and the content may not"],
    }
}

fn same(a: &Essence, b: &Essence, short_header: bool) -> bool {
    // a wrong header that is not even complete may be refused early or be incomplete
    a == b || (short_header && matches!(a, Essence::Reject | Essence::Incomplete) && matches!(b, Essence::Reject | Essence::Incomplete))
}

/// Announced requirement, consumption and idleness at every step.
fn steps(set: &dyn DynSet, b: &[u8], f: &Fed) -> Chk {
    if let Some((n, k)) = f.over {
        fail!("decode reports {} bytes consumed out of {}", k, n);
    }
    if let Some((n, k)) = f.stalled {
        fail!("an unfinished decoder takes only {} of {} bytes", k, n);
    }
    let total = match model(set, b) {
        Parsed::Msg(m) => m.total,
        Parsed::Short { need } if b.len() >= 20 => need,
        _ => return Ok(()),
    };
    if let Some(n) = f.first_req {
        ensure!((1..=total as u64).contains(&n), "a fresh decoder requires {} bytes of a message of {}", n, total);
    }
    let mut done = 0;
    for s in &f.steps {
        done += s.consumed;
        if s.idle {
            ensure_eq!(done, total, "idle after {} bytes of a message of {}", done, total);
            if let Some(n) = s.req {
                ensure_eq!(n, 0, "an idle decoder requires {} bytes", n);
            }
        } else {
            ensure!(done < total, "not idle at the end of the message ({} bytes)", total);
            if let Some(n) = s.req {
                ensure!(n >= 1, "unfinished after {} of {} bytes, but no bytes are required", done, total);
                let left = if done < 20 { total - done } else { total - done };
                ensure!(n <= left as u64, "{} bytes required after {} of {} bytes", n, done, total);
            }
        }
    }
    Ok(())
}
fn compare(c: &mut Case, set: &dyn DynSet, b: &[u8], whole: &Essence, cut: &Cut, mode: Mode) -> Chk {
    let f = feed(&mut *set.decoder(), b, cut, mode);
    c.count("decode calls", f.steps.len() as u64);
    let r = steps(set, b, &f).and_then(|()| {
        let e = f.out.essence();
        if same(&e, whole, b.len() < 20) {
            Ok(())
        } else {
            Err(Fail::new("splitting the input changes the result").with(format!("at once: {:?}\nin pieces: {}", whole, clip(&f.out.show()))))
        }
    });
    r.detail(|| format!("splitting {:?}, end announced: {:?}\n{}", cut, mode, show_bytes(set, b)))?;
    c.count(f.out.name(), 1);
    c.eval(Some(hash_bytes(b) ^ mix(hash_dbg(&(cut, mode)))));
    Ok(())
}
fn whole(set: &dyn DynSet, b: &[u8]) -> Essence {
    decode_all(set, b).out.essence()
}

/// Every position of a single split.
fn two(c: &mut Case) -> Chk {
    let set = any_set(&mut c.r);
    let mut b = any_input(&mut c.r, set);
    b.truncate(260);
    let w = whole(set, &b);
    for n in 0..=b.len() {
        let mode = any_mode(&mut c.r);
        compare(c, set, &b, &w, &Cut::Sizes(vec![n]), mode)?;
    }
    for n in 1..6 {
        for mode in MODES {
            compare(c, set, &b, &w, &Cut::Fixed(n), mode)?;
        }
    }
    Ok(())
}
/// Every pair of splits of a small message.
fn three(c: &mut Case) -> Chk {
    let set = any_set(&mut c.r);
    let mut im = gen::image(&mut c.r, set, gen::MESSY);
    im.items.truncate(2);
    let b = im.bytes();
    if b.len() > 64 {
        return Ok(());
    }
    let w = whole(set, &b);
    for i in 0..=b.len() {
        for j in 0..=b.len() - i {
            let mode = any_mode(&mut c.r);
            compare(c, set, &b, &w, &Cut::Sizes(vec![i, j]), mode)?;
        }
    }
    Ok(())
}
fn pieces(c: &mut Case) -> Chk {
    let set = any_set(&mut c.r);
    let b = any_input(&mut c.r, set);
    let w = whole(set, &b);
    for mode in MODES {
        let cut = gen::cut(&mut c.r, b.len());
        c.sample(|| format!("{:?} {:?} {}", cut, mode, show_bytes(set, &b)));
        compare(c, set, &b, &w, &cut, mode)?;
    }
    Ok(())
}

/// Several messages through one decoder; pieces run across message borders.
fn streams(c: &mut Case) -> Chk {
    let set = any_set(&mut c.r);
    let n = c.r.mostly(2, 5);
    let msgs: Vec<Vec<u8>> = (0..n)
        .map(|_| {
            let mut b = any_framed(&mut c.r, set);
            // complete messages only
            let n = usize::from(u16::from_be_bytes([b[2], b[3]]));
            b.resize(20 + n, 0);
            b
        })
        .collect();
    let all = msgs.concat();
    let mut dec = set.decoder();
    let mut off = 0;
    let cut = gen::cut(&mut c.r, all.len());
    let mut i = 0;
    // piece boundaries are global, as they would be on a socket
    let mut bounds = vec![];
    let mut at = 0;
    while at < all.len() {
        let k = cut.size(i).min(all.len() - at);
        i += 1;
        at += k;
        bounds.push(at);
    }
    let mut bi = 0;
    for (mi, m) in msgs.iter().enumerate() {
        let start = off;
        let want = whole(set, m);
        let got = loop {
            while bounds[bi] <= off && bi + 1 < bounds.len() {
                bi += 1;
            }
            let end = bounds[bi];
            let e = Eos::new(end == all.len());
            match dec.decode(&all[off..end], e) {
                Err(k) => break Out::Reject(k),
                Ok(k) => {
                    ensure!(k <= end - off, "decode reports {} bytes consumed out of {}", k, end - off);
                    off += k;
                    if dec.idle() {
                        break match dec.finish() {
                            Err(k) => Out::FinishErr(k),
                            Ok(Ok(m)) => Out::Valid(m),
                            Ok(Err(b)) => Out::Broken(b),
                        };
                    }
                    ensure_eq!(off, end, "an unfinished decoder leaves bytes");
                    if off == all.len() {
                        break Out::More;
                    }
                }
            }
        };
        c.eval(Some(hash_bytes(m) ^ mix(hash_dbg(&cut))));
        let e = got.essence();
        let ok = e == want && (off - start == m.len());
        if !ok {
            return Err(Fail::new("a message of a stream decodes differently from the same message alone").with(format!(
                "message {} at {}..{} (decoder stopped at {})\nalone: {:?}\nin the stream: {}\nsplitting {:?}\n{}",
                mi,
                start,
                start + m.len(),
                off,
                want,
                clip(&got.show()),
                cut,
                show_bytes(set, &all)
            )));
        }
    }
    Ok(())
}

/// A reader that hands out small pieces and counts what was taken.
struct Source<'a> {
    b: &'a [u8],
    off: usize,
    max: usize,
}
impl std::io::Read for Source<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let n = buf.len().min(self.max).min(self.b.len() - self.off);
        buf[..n].copy_from_slice(&self.b[self.off..self.off + n]);
        self.off += n;
        Ok(n)
    }
}
fn reader(c: &mut Case) -> Chk {
    let set = any_set(&mut c.r);
    let n = c.r.range(1, 4);
    let msgs: Vec<Vec<u8>> = (0..n)
        .map(|_| {
            let mut b = any_framed(&mut c.r, set);
            let n = usize::from(u16::from_be_bytes([b[2], b[3]]));
            b.resize(20 + n, 0);
            b
        })
        .collect();
    let mut all = msgs.concat();
    if c.r.bool() {
        let n = c.r.below(30);
        let tail = c.r.bytes(n);
        all.extend(tail);
    }
    let mut src = Source { b: &all, off: 0, max: *c.r.pick(&[1, 3, 20, 1000]) };
    let mut dec = set.decoder();
    let mut end = 0;
    for (i, m) in msgs.iter().enumerate() {
        end += m.len();
        let got = match dec.decode_exact(&mut src) {
            Err(k) => Out::Reject(k),
            Ok(Ok(m)) => Out::Valid(m),
            Ok(Err(b)) => Out::Broken(b),
        };
        let want = whole(set, m);
        c.eval(Some(hash_bytes(m) ^ 3));
        if got.essence() != want || src.off != end {
            return Err(Fail::new("reading a message by the announced sizes goes wrong").with(format!(
                "message {}: taken up to {} instead of {}\nat once: {:?}\nread: {}\n{}",
                i,
                src.off,
                end,
                want,
                clip(&got.show()),
                show_bytes(set, &all)
            )));
        }
    }
    Ok(())
}

/// Standalone value decoders.
fn values(c: &mut Case) -> Chk {
    let vc = val_codec(c.idx);
    let (ty, name, make) = (vc.ty, &vc.name, &vc.decoder);
    let b = if c.r.bool() {
        let v = gen::val(&mut c.r, ty, &[0; 12]);
        enc_value(ty, &v, None)
    } else {
        gen::bad_value(&mut c.r, ty, &[0; 12])
    };
    let whole = run_value(&mut *make(), &b, &Cut::All, Mode::AtEnd)?;
    for mode in [Mode::AtEnd, Mode::Exact, Mode::Late] {
        let cut = gen::cut(&mut c.r, b.len());
        let got = run_value(&mut *make(), &b, &cut, mode)
            .detail(|| format!("{}, splitting {:?} {:?}, bytes {}", name, cut, mode, hex(&b)))?;
        c.eval(Some(hash_bytes(&b) ^ hash_bytes(name.as_bytes()) ^ hash_dbg(&cut)));
        if got != whole {
            return Err(Fail::new(format!("splitting the bytes of a value changes what the {} decoder gives", name))
                .with(format!("at once {:?}\nin pieces {:?}\nsplitting {:?} {:?}\nbytes {}", whole, got, cut, mode, hex(&b))));
        }
    }
    Ok(())
}
/// The value, its length, or that it was refused.
fn run_value(d: &mut dyn ValDecoder, b: &[u8], cut: &Cut, mode: Mode) -> Result<Option<(Val, usize)>, Fail> {
    let mut off = 0;
    let mut i = 0;
    loop {
        let n = cut.size(i).min(b.len() - off);
        i += 1;
        let e = eos(mode, b.len() - off - n);
        match d.decode(&b[off..off + n], e) {
            Err(_) => return Ok(None),
            Ok(k) => {
                ensure!(k <= n, "decode reports {} bytes consumed out of {}", k, n);
                off += k;
                if d.idle() {
                    return Ok(d.finish().ok().map(|v| (v, off)));
                }
                ensure!(k == n, "an unfinished value decoder takes only {} of {} bytes", k, n);
                match d.req().to_u64() {
                    Some(0) => fail!("unfinished after {} bytes, but no bytes are required", off),
                    _ => {}
                }
                if off == b.len() {
                    if mode == Mode::Late {
                        return match d.decode(&[], Eos::new(true)) {
                            Ok(k) => {
                                ensure!(k == 0, "decode reports {} bytes consumed out of none", k);
                                ensure!(d.idle(), "the value decoder is not idle at the announced end");
                                Ok(d.finish().ok().map(|v| (v, off)))
                            }
                            Err(_) => Ok(None),
                        };
                    }
                    return Ok(None);
                }
            }
        }
    }
}

const OFFERS: [usize; 40] = [
    20, 21, 24, 28, 32, 60, 64, 100, 128, 255, 256, 257, 500, 512, 548, 576, 1000, 1023, 1024, 1280, 1460, 1472, 1500, 1501, 2047, 2048,
    4096, 8192, 9000, 16384, 32767, 32768, 65507, 65535, 65536, 65537, 100_000, 131_072, 1 << 20, (1 << 20) + 1,
];
/// Pieces of the sizes that networks and buffers have, far longer than the message or many to a message.
fn offers(c: &mut Case) -> Chk {
    let size = OFFERS[(c.idx / 12) as usize];
    let set = if c.idx % 2 == 0 { all_set() } else { any_set(&mut c.r) };
    let b = match c.idx % 12 {
        k @ 0..=7 => {
            let mut b = any_framed(&mut c.r, set);
            let n = usize::from(u16::from_be_bytes([b[2], b[3]]));
            b.resize(20 + n, 0);
            // as long as the piece now and then
            if k < 3 && (20..65_000).contains(&size) {
                let mut im = Image { class: 1, method: 1, tid: c.r.tid(), items: vec![] }.bytes();
                let n = (size - 20) / 4 * 4;
                if n >= 4 {
                    let v = c.r.bytes(n - 4);
                    push_tlv(&mut im, 0x8055, &v, &[]);
                    set_len(&mut im);
                    b = im;
                }
            }
            b
        }
        _ => {
            let mut im = Image { class: 1, method: 1, tid: c.r.tid(), items: vec![] }.bytes();
            for _ in 0..4 {
                let n = c.r.below(16_000);
                let v = c.r.bytes(n);
                push_tlv(&mut im, *c.r.pick(&[0x0013u16, 0x8055, 0x8030]), &v, &[]);
            }
            set_len(&mut im);
            im
        }
    };
    let w = whole(set, &b);
    compare(c, set, &b, &w, &Cut::Fixed(size), Mode::Open)?;
    let first = if c.r.bool() { 0 } else { c.r.below(b.len().min(60)) };
    let mut dec = set.decoder();
    if first > 0 {
        let r = dec.decode(&b[..first], Eos::new(false));
        ensure!(r == Ok(first), "{:?} of the first {} bytes consumed", r, first);
    }
    let rest = &b[first..];
    let mut piece = rest.to_vec();
    while piece.len() < size {
        // what follows in the stream
        let more = (size - piece.len()).min(b.len());
        piece.extend_from_slice(&b[..more]);
    }
    piece.truncate(size);
    let mut off = 0;
    let mut calls = 0;
    while !dec.idle() {
        let end = (off + size).min(rest.len().max(piece.len()));
        let p = if off == 0 { &piece[..] } else { &rest[off.min(rest.len())..end.min(rest.len())] };
        let want = p.len().min(rest.len() - off);
        match dec.decode(p, Eos::new(false)) {
            Ok(k) => ensure_eq!(k, want, "bytes consumed of a piece of {} with {} of the message to come", p.len(), rest.len() - off),
            Err(_) => {
                ensure!(w == Essence::Reject, "a piece of {} bytes is rejected, the whole message gives {:?}", p.len(), w);
                return Ok(());
            }
        }
        off += want;
        calls += 1;
        ensure!(calls < 10_000, "no end");
        ensure!(dec.idle() == (off == rest.len()), "idle = {} with {} bytes to come", dec.idle(), rest.len() - off);
    }
    let got = match dec.finish() {
        Err(k) => Out::FinishErr(k),
        Ok(Ok(m)) => Out::Valid(m),
        Ok(Err(b)) => Out::Broken(b),
    }
    .essence();
    c.eval(Some(hash_bytes(&b) ^ size as u64));
    ensure!(same(&got, &w, false), "in a piece of {} bytes: {:?} instead of {:?}", size, got, w);
    Ok(())
}
fn huge(c: &mut Case) -> Chk {
    let set = any_set(&mut c.r);
    let mut b = header(0, 1, &c.r.tid(), 0);
    let total = 65532;
    while b.len() < 20 + total {
        let rest = 20 + total - b.len();
        let ty = gen::wire_type(&mut c.r, set);
        let max = *c.r.pick(&[4usize, 40, 4000, 65000]);
        let vl = c.r.below(max).min(rest - 4);
        let v = c.r.bytes(vl);
        push_tlv(&mut b, ty, &v, &[]);
    }
    set_len(&mut b);
    let w = whole(set, &b);
    for mode in MODES {
        let max = *c.r.pick(&[100usize, 1000, 30000]);
        let mut sizes = vec![];
        let mut sum = 0;
        while sum < b.len() {
            sizes.push(c.r.below(max));
            sum += sizes[sizes.len() - 1];
        }
        compare(c, set, &b, &w, &Cut::Sizes(sizes), mode)?;
    }
    Ok(())
}
