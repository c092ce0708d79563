//! C13: XOR addresses are masked on the wire and plain in the API.
use super::util::*;
use std::net::{IpAddr, SocketAddr};
use stun_codec::TransactionId;

const XOR: [u16; 4] = [0x0020, 0x8020, 0x0012, 0x0016];
const PLAIN: [u16; 4] = [0x0001, 0x8023, 0x802b, 0x802c];

pub fn check() -> Check {
    Check {
        id: "C13",
        rule: "distinct (address, port, transaction ID, attribute type) tuples sent and received",
        suites: vec![
            sweep("ports", 256, ports),
            sweep("bits", 4 * (16 + 128 + 96), bits),
            random("addresses", 120_000, 4_000_000, addresses),
            random("mixed", 60_000, 2_000_000, mixed),
            random("function", 200_000, 5_000_000, function),
        ],
        assumptions: &["IPv6 flow labels and scope identifiers are not part of the wire format"],
    }
}
fn has(ty: u16) -> Vec<&'static dyn DynSet> {
    sets().every.iter().copied().filter(|s| !s.knows().raw && (s.knows().f)(ty)).collect()
}
/// The masked value, spelled out.
fn wire(ip: IpAddr, port: u16, tid: &[u8; 12]) -> Vec<u8> {
    let mut v = vec![0, if ip.is_ipv4() { 1 } else { 2 }];
    v.push((port >> 8) as u8 ^ 0x21);
    v.push(port as u8 ^ 0x12);
    let mask: Vec<u8> = [0x21, 0x12, 0xa4, 0x42].into_iter().chain(tid.iter().copied()).collect();
    let o = match ip {
        IpAddr::V4(a) => a.octets().to_vec(),
        IpAddr::V6(a) => a.octets().to_vec(),
    };
    v.extend(o.iter().zip(mask).map(|(a, m)| a ^ m));
    v
}
fn plain(ip: IpAddr, port: u16) -> Vec<u8> {
    let mut v = vec![0, if ip.is_ipv4() { 1 } else { 2 }, (port >> 8) as u8, port as u8];
    match ip {
        IpAddr::V4(a) => v.extend(a.octets()),
        IpAddr::V6(a) => v.extend(a.octets()),
    }
    v
}
fn trip(c: &mut Case, set: &dyn DynSet, ty: u16, ip: IpAddr, port: u16, tid: [u8; 12]) -> Chk {
    let val = Val::Addr(ip, port);
    let mut m = set.msg(c.r.below(4) as u8, gen::method(&mut c.r), tid);
    if !m.add(ty, &val) {
        return Err(refused(ty, &val));
    }
    let r = (|| {
        ensure_eq!(m.snap().known, vec![(ty, val.clone())], "the accessor does not return the address put in");
        let b = encode_ok(set, &*m)?;
        let want = if XOR.contains(&ty) { wire(ip, port, &tid) } else { plain(ip, port) };
        ensure!(b.len() == 24 + want.len(), "wrong size on the wire: {}", hex(&b));
        ensure_eq!(hex(&b[24..]), hex(&want), "the address on the wire");
        ensure_eq!(m.snap().known, vec![(ty, val.clone())], "sending changed the address");
        let got = decode_valid(set, &b).map_err(|o| Fail::new(format!("not received: {}", o)))?;
        ensure_eq!(got.snap().known, vec![(ty, val.clone())], "another address is received");
        // sending the received message masks it again
        ensure_eq!(hex(&encode_ok(set, &*got)?), hex(&b), "forwarding changes the message");
        ensure_eq!(hex(&encode_ok(set, &*got.clone_box())?), hex(&b), "forwarding a copy changes the message");
        ensure_eq!(got.snap().known, vec![(ty, val.clone())], "forwarding changed the address");
        Ok(())
    })();
    r.detail(|| format!("{} {}:{} in {}, transaction {}", type_name(ty), ip, port, set.name(), hex(&tid)))?;
    c.eval(Some(hash_dbg(&(ip, port, tid, ty))));
    Ok(())
}
fn ports(c: &mut Case) -> Chk {
    let tid = c.r.tid();
    for lo in 0..256u16 {
        let port = (c.idx as u16) << 8 | lo;
        let ip = gen::ip(&mut c.r, &tid);
        let ty = XOR[usize::from(lo % 4)];
        let sets = has(ty);
        let set = *c.r.pick(&sets);
        trip(c, set, ty, ip, port, tid)?;
        let ty = PLAIN[usize::from(lo / 4 % 4)];
        trip(c, all_set(), ty, ip, port, tid)?;
    }
    Ok(())
}
/// One bit at a time of port, address and transaction ID.
fn bits(c: &mut Case) -> Chk {
    let ty = XOR[(c.idx % 4) as usize];
    let i = (c.idx / 4) as usize;
    let mut tid = [0u8; 12];
    let mut port = 0u16;
    let mut o = [0u8; 16];
    match i {
        0..=15 => port = 1 << i,
        16..=143 => o[(i - 16) / 8] = 1 << ((i - 16) % 8),
        _ => tid[(i - 144) / 8] = 1 << ((i - 144) % 8),
    }
    let v4: [u8; 4] = o[..4].try_into().unwrap();
    for set in has(ty) {
        trip(c, set, ty, IpAddr::from(o), port, tid)?;
        trip(c, set, ty, IpAddr::from(v4), port, tid)?;
    }
    Ok(())
}
fn addresses(c: &mut Case) -> Chk {
    let tid = c.r.tid();
    let ip = gen::ip(&mut c.r, &tid);
    let port = gen::port(&mut c.r);
    let ty = if c.r.chance(4, 5) { *c.r.pick(&XOR) } else { *c.r.pick(&PLAIN) };
    let sets = has(ty);
    let set = *c.r.pick(&sets);
    c.sample(|| format!("{} {}:{} {:02x?}", type_name(ty), ip, port, tid));
    trip(c, set, ty, ip, port, tid)?;
    // the same address under another transaction
    let t2 = c.r.tid();
    trip(c, set, ty, ip, port, t2)?;
    // standalone codecs never mask
    let v = Val::Addr(ip, port);
    let mut e = one_of(ty).encoder();
    ensure_eq!(e.start(&v), Some(Ok(())), "the encoder refuses an address");
    let d = drain(&mut *e, None, &Cut::All, Mode::AtEnd);
    ensure_eq!(hex(&d.bytes), hex(&plain(ip, port)), "the standalone encoder of {} masks", type_name(ty));
    Ok(())
}
/// Several addresses of both kinds in one message, received ones and added ones.
fn mixed(c: &mut Case) -> Chk {
    let tid = c.r.tid();
    let set = all_set();
    let n = c.r.range(2, 7);
    let attrs: Vec<(u16, Val)> = (0..n)
        .map(|_| {
            let ty = if c.r.chance(2, 3) { *c.r.pick(&XOR) } else { *c.r.pick(&PLAIN) };
            (ty, Val::Addr(gen::ip(&mut c.r, &tid), gen::port(&mut c.r)))
        })
        .collect();
    let k = c.r.below(n + 1);
    // the first k are received, the others added
    let mut b = header(0, 1, &tid, 0);
    let put = |b: &mut Vec<u8>, (ty, v): &(u16, Val)| {
        if let Val::Addr(ip, port) = v {
            let w = if XOR.contains(ty) { wire(*ip, *port, &tid) } else { plain(*ip, *port) };
            push_tlv(b, *ty, &w, &[]);
            set_len(b);
        }
    };
    for a in &attrs[..k] {
        put(&mut b, a);
    }
    let mut m = decode_valid(set, &b).map_err(|o| Fail::new(format!("not received: {}", o)))?;
    ensure_eq!(m.snap().known, attrs[..k].to_vec(), "received addresses");
    for a in &attrs[k..] {
        put(&mut b, a);
        if !m.add(a.0, &a.1) {
            return Err(refused(a.0, &a.1));
        }
        ensure_eq!(m.new_fp().map(|f| f.crc32()), Ok(ref_fp(&b)), "a fingerprint over masked addresses");
    }
    ensure_eq!(m.snap().known, attrs, "addresses after some were added");
    ensure_eq!(hex(&encode_ok(set, &*m)?), hex(&b), "received and added addresses on the wire");
    ensure_eq!(m.snap().known, attrs, "addresses after sending");
    let m2 = decode_valid(set, &b).map_err(|o| Fail::new(format!("not received: {}", o)))?;
    ensure_eq!(m2.snap().known, attrs, "addresses received");
    for ty in XOR.iter().chain(&PLAIN) {
        let want = attrs.iter().find(|a| a.0 == *ty).map(|a| a.1.clone());
        ensure_eq!(m2.lookup(*ty), Some(want), "looking up {}", type_name(*ty));
    }
    c.eval(Some(hash_bytes(&b)));
    Ok(())
}
fn function(c: &mut Case) -> Chk {
    let tid = c.r.tid();
    let a = SocketAddr::new(gen::ip(&mut c.r, &tid), gen::port(&mut c.r));
    let t = TransactionId::new(tid);
    let x = stun_codec::net::socket_addr_xor(a, t);
    ensure_eq!(hex(&plain(x.ip(), x.port())), hex(&wire(a.ip(), a.port(), &tid)), "socket_addr_xor of {} with {}", a, hex(&tid));
    ensure_eq!(stun_codec::net::socket_addr_xor(x, t), a, "socket_addr_xor twice");
    ensure_eq!(a.is_ipv4(), x.is_ipv4(), "socket_addr_xor changes the family");
    c.eval(Some(hash_dbg(&(a, tid))));
    Ok(())
}
