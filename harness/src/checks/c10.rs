//! C10: locally created MESSAGE-INTEGRITY and FINGERPRINT.
use super::util::*;

pub fn check() -> Check {
    Check {
        id: "C10",
        rule: "distinct (message, credential) pairs whose created values were compared with the reference HMAC / CRC",
        suites: vec![
            sweep("key lengths", 300, keys),
            sweep("body lengths", 400, bodies),
            random("create", 80_000, 2_500_000, create),
            random("forwarded", 50_000, 1_500_000, forwarded),
            sweep("limit", 60, limit),
            sweep("crowds", gen::CROWDS.len() as u64, crowds),
        ],
        assumptions: &["the reference SHA-1, MD5, HMAC and CRC-32 (harness/src/crypto.rs) pass their published test vectors at every start"],
    }
}

fn judge(c: &mut Case, set: &dyn DynSet, m: &mut Box<dyn DynMsg>, prefix: &[u8], cred: &Cred, send: bool) -> Chk {
    let before = m.snap();
    let mi = match m.new_mi(cred) {
        Ok(mi) => mi,
        Err(k) => fail!("creating MESSAGE-INTEGRITY fails with {:?}", k),
    };
    let want = ref_mi(prefix, &cred.key());
    ensure_eq!(hex(&mi.hmac_sha1()), hex(&want), "the created MESSAGE-INTEGRITY is not the RFC 5389 HMAC");
    ensure_eq!(m.snap(), before, "creating MESSAGE-INTEGRITY changes the message");
    ensure_eq!(cred.check(&mi), Ok(Ok(())), "a locally created MESSAGE-INTEGRITY does not verify under its own credential");
    let fp = match m.new_fp() {
        Ok(f) => f,
        Err(k) => fail!("creating FINGERPRINT fails with {:?}", k),
    };
    ensure_eq!(fp.crc32(), ref_fp(prefix), "the created FINGERPRINT is not the RFC 5389 CRC");
    ensure_eq!(m.snap(), before, "creating FINGERPRINT changes the message");
    // again: same values
    ensure_eq!(m.new_mi(cred).map(|x| x.hmac_sha1()), Ok(mi.hmac_sha1()), "creating it again gives another value");
    ensure_eq!(m.new_fp().map(|x| x.crc32()), Ok(fp.crc32()), "creating it again gives another value");
    c.eval(Some(hash_bytes(prefix) ^ hash_dbg(cred)));
    if send && prefix.len() + 32 <= 20 + 0xffff {
        // append both, send, receive
        let mut wire = prefix.to_vec();
        if !m.add_mi(mi) {
            return Ok(());
        }
        push_tlv(&mut wire, T_MI, &want, &[]);
        let f2 = match m.new_fp() {
            Ok(f) => f,
            Err(k) => fail!("creating FINGERPRINT fails with {:?}", k),
        };
        ensure_eq!(f2.crc32(), ref_fp(&wire), "the FINGERPRINT after MESSAGE-INTEGRITY is not the RFC 5389 CRC");
        let crc = f2.crc32();
        let with_fp = m.add_fp(f2);
        if with_fp {
            push_tlv(&mut wire, T_FP, &crc.to_be_bytes(), &[]);
        }
        set_len(&mut wire);
        let b = encode_ok(set, &**m)?;
        ensure_eq!(hex(&b), hex(&wire), "the message with the attributes appended is not encoded as it should");
        match decode_all(set, &b).out {
            Out::Valid(r) => {
                let mis = r.mis();
                let Some(last) = mis.last() else { fail!("the received message lacks its MESSAGE-INTEGRITY") };
                ensure_eq!(cred.check(last), Ok(Ok(())), "the sent MESSAGE-INTEGRITY does not verify at the receiver");
            }
            o => fail!("the sent message is not accepted: {}", o.show()),
        }
        c.eval(Some(hash_bytes(&wire)));
    }
    Ok(())
}

fn create(c: &mut Case) -> Chk {
    let set = any_set(&mut c.r);
    let p = auth_plan(&mut c.r, set);
    let mut m = p.build(set)?;
    let cred = gen::cred(&mut c.r);
    let prefix = p.image().bytes();
    c.sample(|| format!("{:?} over {}", cred, show_bytes(set, &prefix)));
    judge(c, set, &mut m, &prefix, &cred, true).detail(|| format!("{:?} over {}", cred, show_bytes(set, &prefix)))
}
/// Over a received message, unknown attributes and padding included.
fn forwarded(c: &mut Case) -> Chk {
    let set = any_set(&mut c.r);
    let b = gen::image(&mut c.r, set, gen::VALID).bytes();
    let cred = gen::cred(&mut c.r);
    match decode_all(set, &b).out {
        Out::Valid(mut m) => judge(c, set, &mut m, &b, &cred, true).detail(|| format!("{:?} over received {}", cred, show_bytes(set, &b))),
        _ => {
            c.count("skipped: not valid", 1);
            Ok(())
        }
    }
}
/// Over messages of many attributes.
fn crowds(c: &mut Case) -> Chk {
    let set = any_set(&mut c.r);
    let b = gen::crowd(&mut c.r, set, gen::CROWDS[c.idx as usize]).bytes();
    let cred = gen::cred(&mut c.r);
    let mut m = decode_valid(set, &b).map_err(|o| Fail::new("a sound message is not delivered").with(o))?;
    let n = gen::CROWDS[c.idx as usize];
    judge(c, set, &mut m, &b, &cred, true).detail(|| format!("{:?} over {} attributes, {}", cred, n, set.name()))
}
/// Password, user and realm lengths across the HMAC and MD5 block borders.
fn keys(c: &mut Case) -> Chk {
    let n = c.idx as usize;
    let set = *c.r.pick(&auth_sets());
    let p = auth_plan(&mut c.r, set);
    let mut creds = vec![Cred::Short(gen::text_bytes(&mut c.r, n)), Cred::Short(gen::text_chars(&mut c.r, n))];
    for _ in 0..3 {
        let (u, r) = (c.r.below(n.min(512) + 1), c.r.below(n.min(127) + 1));
        creds.push(Cred::Long {
            user: gen::text_bytes(&mut c.r, u),
            realm: gen::text_chars(&mut c.r, r),
            password: gen::text_bytes(&mut c.r, n.saturating_sub(u + r)),
        });
    }
    // texts that only differ in where the colons are
    for (u, r, w) in [("a", "b", "c:d"), ("a:b", "c", "d"), ("a", "b:c", "d"), ("", "", ""), ("é", "マ", "😀")] {
        creds.push(Cred::Long { user: u.into(), realm: r.into(), password: w.into() });
    }
    for cred in creds {
        let mut m = p.build(set)?;
        let prefix = p.image().bytes();
        judge(c, set, &mut m, &prefix, &cred, true).detail(|| format!("{:?} over {}", cred, show_bytes(set, &prefix)))?;
    }
    Ok(())
}
fn bodies(c: &mut Case) -> Chk {
    let tid = c.r.tid();
    let n = c.idx as usize;
    for (set, ty) in [(all_set(), 0x13u16), (sets().every[5], 0x13), (raw_set(), 0x13)] {
        let items = vec![PItem::Val(ty, Val::Bytes(c.r.bytes(n)))];
        let p = AuthPlan { class: c.r.below(4) as u8, method: gen::method(&mut c.r), tid, items };
        let mut m = p.build(set)?;
        let cred = gen::cred(&mut c.r);
        let prefix = p.image().bytes();
        judge(c, set, &mut m, &prefix, &cred, true).detail(|| format!("{:?} over {}", cred, show_bytes(set, &prefix)))?;
    }
    Ok(())
}
/// Up to the largest message that can still take the attribute.
fn limit(c: &mut Case) -> Chk {
    let tid = c.r.tid();
    let room = if c.idx % 2 == 0 { 24 } else { 32 };
    let total = 65532 - room - 4 * (c.idx as usize / 2);
    let n = total - 4 - c.r.below(4);
    let items = vec![PItem::Val(0x13, Val::Bytes(c.r.bytes(n)))];
    let p = AuthPlan { class: 2, method: 1, tid, items };
    let set = all_set();
    let mut m = p.build(set)?;
    let cred = gen::cred(&mut c.r);
    let prefix = p.image().bytes();
    judge(c, set, &mut m, &prefix, &cred, true)?;
    // FINGERPRINT alone, at the very limit
    let total = 65532 - 8 - 4 * (c.idx as usize / 2);
    let items = vec![PItem::Val(0x13, Val::Bytes(c.r.bytes(total - 4))), PItem::Fp];
    let p = AuthPlan { class: 2, method: 1, tid, items };
    let m = p.build(set)?;
    let b = encode_ok(set, &*m)?;
    ensure!(b == p.image().bytes(), "FINGERPRINT of a message of {} bytes is wrong", b.len());
    if let Err(o) = decode_valid(set, &b) {
        fail!("a message of {} bytes with its own FINGERPRINT is not accepted: {}", b.len(), o);
    }
    c.eval(Some(hash_bytes(&b)));
    Ok(())
}
