//! C20: code points, names and error conversions.
use super::util::*;
use bytecodec::Error;
use stun_codec::{rfc5245, rfc5389, rfc5766, rfc8016, rfc8656};
use stun_codec::{Attribute, AttributeType, Message, MessageClass, Method, TransactionId};
use trackable::error::ErrorKindExt;

pub fn check() -> Check {
    Check {
        id: "C20",
        rule: "distinct constants, numeric values, error kinds and messages whose conversion was judged",
        suites: vec![
            sweep("methods", 0x1_0000 / 64, methods),
            sweep("attributes", 1, attributes),
            sweep("types", 0x1_0000 / 64, types),
            sweep("predefined", ERRORS.len() as u64, predefined),
            sweep("kinds", 7, kinds),
            sweep("classes", 1, classes),
            random("transactions", 200_000, 4_000_000, transactions),
            random("values", 300_000, 6_000_000, values),
            random("undecodable", 200_000, 4_000_000, undecodable),
            random("unauthorized", 60_000, 1_000_000, unauthorized),
        ],
        assumptions: &["registered values were transcribed from RFC 5389, 5245, 5766, 5780, 8016 and 8656 by hand"],
    }
}

const METHODS: [(Method, u16, &str); 7] = [
    (rfc5389::methods::BINDING, 1, "binding"),
    (rfc5766::methods::ALLOCATE, 3, "allocate"),
    (rfc5766::methods::REFRESH, 4, "refresh"),
    (rfc5766::methods::SEND, 6, "send"),
    (rfc5766::methods::DATA, 7, "data"),
    (rfc5766::methods::CREATE_PERMISSION, 8, "create permission"),
    (rfc5766::methods::CHANNEL_BIND, 9, "channel bind"),
];

/// 64 numbers per case.
fn methods(c: &mut Case) -> Chk {
    if c.idx == 0 {
        for (m, n, name) in METHODS {
            ensure_eq!(m.as_u16(), n, "the {} method", name);
            ensure!(Method::new(n).map_err(|e| *e.kind()) == Ok(m), "method {} is not the {} constant", n, name);
            ensure_eq!(m.to_string(), name, "the printed name of method {}", n);
            c.eval(Some(hash_dbg(&("const", n))));
        }
    }
    for n in c.idx as u16 * 64..=c.idx as u16 * 64 + 63 {
        match Method::new(n) {
            Ok(m) => {
                ensure!(n < 0x1000, "method {:#06x} is accepted", n);
                ensure_eq!(m.as_u16(), n, "the number of method {:#06x}", n);
                let name = METHODS.iter().find(|x| x.1 == n).map_or_else(|| format!("unknown ({})", n), |x| x.2.to_owned());
                ensure_eq!(m.to_string(), name, "the printed name of method {:#06x}", n);
                ensure!(format!("{:?}", m).contains(&n.to_string()), "the debug form of method {} is {:?}", n, m);
                if let Ok(b) = u8::try_from(n) {
                    ensure!(Method::from(b) == m, "method {} converts from u8 to {:?}", n, Method::from(b));
                }
                // another number is another method
                if let Ok(o) = Method::new(c.r.u16() & 0xfff) {
                    ensure_eq!(o == m, o.as_u16() == n, "equality of methods");
                    ensure_eq!(o.cmp(&m), o.as_u16().cmp(&n), "order of methods");
                }
            }
            Err(e) => {
                ensure!(n >= 0x1000, "method {:#06x} is refused", n);
                ensure_eq!(*e.kind(), ErrorKind::InvalidInput, "error for method {:#06x}", n);
            }
        }
        c.eval(Some(hash_dbg(&("method", n))));
    }
    Ok(())
}

fn attributes(c: &mut Case) -> Chk {
    for o in ones() {
        ensure_eq!(o.codepoint(), o.ty(), "the code point of {}", type_name(o.ty()));
        c.eval(Some(hash_dbg(&("attr", o.ty()))));
    }
    c.count("attribute constants", ones().len() as u64);
    Ok(())
}

/// 64 numbers per case.
fn types(c: &mut Case) -> Chk {
    for n in c.idx as u16 * 64..=c.idx as u16 * 64 + 63 {
        let (a, b) = (AttributeType::new(n), AttributeType::from(n));
        ensure_eq!(a.as_u16(), n, "the number of attribute type {:#06x}", n);
        ensure_eq!(b.as_u16(), n, "the number of attribute type {:#06x} made with `from`", n);
        ensure!(a == b, "attribute type {:#06x} differs from itself", n);
        ensure_eq!(a.is_comprehension_required(), n < 0x8000, "whether attribute type {:#06x} must be understood", n);
        let o = AttributeType::new(c.r.u16());
        ensure_eq!(o == a, o.as_u16() == n, "equality of attribute types");
        let raw = stun_codec::RawAttribute::new(a, vec![n as u8]);
        ensure_eq!(Attribute::get_type(&raw).as_u16(), n, "the type of a raw attribute");
        c.eval(Some(hash_dbg(&("type", n))));
    }
    Ok(())
}

type ErrorRow = (u16, &'static str, u16, fn() -> ErrorCode);
macro_rules! errors {
    ($($m:ident :: $t:ident = $n:expr, $text:expr;)*) => {
        const ERRORS: &[ErrorRow] = &[$(($n, $text, $m::errors::$t::CODEPOINT, || $m::errors::$t.into())),*];
    };
}
errors! {
    rfc5389::TryAlternate = 300, "Try Alternate";
    rfc5389::BadRequest = 400, "Bad Request";
    rfc5389::Unauthorized = 401, "Unauthorized";
    rfc5389::UnknownAttribute = 420, "Unknown Attribute";
    rfc5389::StaleNonce = 438, "Stale Nonce";
    rfc5389::ServerError = 500, "Server Error";
    rfc5766::Forbidden = 403, "Forbidden";
    rfc5766::AllocationMismatch = 437, "Allocation Mismatch";
    rfc5766::WrongCredentials = 441, "Wrong Credentials";
    rfc5766::UnsupportedTransportProtocol = 442, "Unsupported Transport Protocol";
    rfc5766::AllocationQuotaReached = 486, "Allocation Quota Reached";
    rfc5766::InsufficientCapacity = 508, "Insufficient Capacity";
    rfc5245::RoleConflict = 487, "Role Conflict";
    rfc8016::MobilityForbidden = 405, "Mobility Forbidden";
    rfc8656::AddressFamilyNotSupported = 440, "Address Family not Supported";
    rfc8656::PeerAddressFamilyMismatch = 443, "Peer Address Family Mismatch";
}

/// An error attribute put into a message and sent says what it said before.
fn survives(c: &mut Case, e: &ErrorCode) -> Chk {
    let val = Val::Err(e.code(), e.reason_phrase().to_owned());
    ensure_eq!(Attribute::get_type(e).as_u16(), 9, "the type of ERROR-CODE");
    for set in [all_set(), r5389_set(), *sets().every.iter().find(|s| s.types() == [9]).expect("single")] {
        let mut m = set.msg(3, gen::method(&mut c.r), c.r.tid());
        ensure!(m.add(9, &val), "an error code that was given cannot be made again: {:?}", e);
        let b = encode_ok(set, &*m)?;
        ensure_eq!(hex(&b[24..24 + 4 + e.reason_phrase().len()]), hex(&enc_value(9, &val, None)), "the error on the wire");
        let got = decode_valid(set, &b).map_err(|o| Fail::new(format!("the error is not received: {}", o)))?;
        ensure_eq!(got.snap().known, vec![(9, val.clone())], "the error received");
    }
    // and as a typed attribute, without taking it apart
    let mut m = Message::<rfc5389::Attribute>::new(MessageClass::ErrorResponse, rfc5389::methods::BINDING, TransactionId::new(c.r.tid()));
    m.add_attribute(e.clone());
    let b = bytecodec::EncodeExt::encode_into_bytes(&mut stun_codec::MessageEncoder::new(), m)
        .map_err(|x| Fail::new(format!("encoding an error response fails: {:?}", x.kind())))?;
    let got = decode_valid(r5389_set(), &b).map_err(|o| Fail::new(format!("the error is not received: {}", o)))?;
    ensure_eq!(got.snap().known, vec![(9, val)], "the error received");
    Ok(())
}

fn predefined(c: &mut Case) -> Chk {
    let (n, text, constant, make) = ERRORS[c.idx as usize];
    ensure_eq!(constant, n, "the code of \"{}\"", text);
    let e = make();
    ensure_eq!(e.code(), n, "the error code \"{}\" converts to", text);
    ensure!(e.reason_phrase().eq_ignore_ascii_case(text), "the reason of error {} is {:?}, not {:?}", n, e.reason_phrase(), text);
    survives(c, &e)?;
    c.eval(Some(hash_dbg(&("error", n))));
    Ok(())
}

fn kinds(c: &mut Case) -> Chk {
    const KINDS: [ErrorKind; 7] = [
        ErrorKind::InvalidInput,
        ErrorKind::InconsistentState,
        ErrorKind::UnexpectedEos,
        ErrorKind::EncoderFull,
        ErrorKind::DecoderTerminated,
        ErrorKind::IncompleteDecoding,
        ErrorKind::Other,
    ];
    let kind = KINDS[c.idx as usize];
    let want = if kind == ErrorKind::InvalidInput { 400 } else { 500 };
    let mut forms: Vec<Error> = vec![
        Error::from(kind),
        kind.error().into(),
        kind.cause("why").into(),
        trackable::track!(Error::from(kind)),
    ];
    match kind {
        ErrorKind::Other => forms.push(std::io::Error::new(std::io::ErrorKind::Other, "x").into()),
        ErrorKind::UnexpectedEos => forms.push(std::io::Error::new(std::io::ErrorKind::UnexpectedEof, "x").into()),
        _ => (),
    }
    for f in forms {
        let text = format!("{:?}", f);
        let e = ErrorCode::from(f);
        ensure_eq!(e.code(), want, "error code for {}", text);
        ensure!(!e.reason_phrase().is_empty(), "no reason given for {}", text);
        survives(c, &e)?;
        c.eval(Some(hash_dbg(&text)));
    }
    Ok(())
}

fn classes(c: &mut Case) -> Chk {
    let names = [
        (MessageClass::Request, "request"),
        (MessageClass::Indication, "indication"),
        (MessageClass::SuccessResponse, "success response"),
        (MessageClass::ErrorResponse, "error response"),
    ];
    for (i, (class, name)) in names.into_iter().enumerate() {
        ensure_eq!(class.to_string(), name, "the printed name of a class");
        let m = Message::<rfc5389::Attribute>::new(class, rfc5389::methods::BINDING, TransactionId::new([3; 12]));
        ensure!(m.class() == class, "a {} message says it is a {}", name, m.class());
        // RFC 5389: C1 is bit 8 and C0 is bit 4 of the message type
        let b = bytecodec::EncodeExt::encode_into_bytes(&mut stun_codec::MessageEncoder::new(), m)
            .map_err(|x| Fail::new(format!("encoding fails: {:?}", x.kind())))?;
        let want = [1u16, 0x11, 0x101, 0x111][i];
        ensure_eq!(u16::from_be_bytes([b[0], b[1]]), want, "the type of a binding {}", name);
        c.eval(Some(hash_dbg(&name)));
    }
    Ok(())
}

fn transactions(c: &mut Case) -> Chk {
    let mut t = c.r.tid();
    if c.r.chance(1, 8) {
        t = [*c.r.pick(&[0, 0xff, 9, 0x0a]); 12];
    }
    let id = TransactionId::new(t);
    ensure_eq!(*id.as_bytes(), t, "the bytes of a transaction ID");
    ensure_eq!(AsRef::<[u8]>::as_ref(&id), &t[..], "the bytes of a transaction ID");
    let digits: String = t.iter().map(|b| format!("{:02x}", b)).collect();
    let shown = format!("{:?}", id);
    ensure!(shown.to_ascii_lowercase().contains(&digits), "transaction ID {} is shown as {}", digits, shown);
    let mut o = t;
    let at = c.r.below(12);
    o[at] ^= 1 << c.r.below(8);
    let other = TransactionId::new(o);
    ensure!(other != id && id == TransactionId::new(t), "equality of transaction IDs");
    ensure_eq!(other.cmp(&id), o.cmp(&t), "order of transaction IDs");
    c.eval(Some(hash_bytes(&t)));
    Ok(())
}

/// Whatever its value, an attribute reports the type it is sent with.
fn values(c: &mut Case) -> Chk {
    let all = ones();
    let o = *c.r.pick(&all);
    let tid = c.r.tid();
    let v = gen::val(&mut c.r, o.ty(), &tid);
    let (ty, shown) = o.reports(&v).ok_or_else(|| refused(o.ty(), &v))?;
    ensure_eq!(ty, o.ty(), "the type a {} reports", type_name(o.ty()));
    ensure_eq!(shown, v, "the value a {} reports", type_name(o.ty()));
    // the same as a member of a set, alone or among others, locally made and received
    for set in [all_set(), *sets().every.iter().find(|s| s.types() == [o.ty()]).expect("single")] {
        let mut m = set.msg(0, 1, tid);
        ensure!(m.add(o.ty(), &v), "harness: the set has no such attribute");
        ensure_eq!(m.snap().known, vec![(o.ty(), v.clone())], "what a message reports");
        if o.ty() == T_FP {
            continue;
        }
        let b = encode_ok(set, &*m)?;
        ensure_eq!(u16::from_be_bytes([b[20], b[21]]), o.ty(), "the type on the wire");
        let got = decode_valid(set, &b).map_err(|x| Fail::new(format!("not received: {}", x)))?;
        ensure_eq!(got.snap().known, vec![(o.ty(), v.clone())], "what the received message reports");
    }
    c.eval(Some(hash_dbg(&(o.ty(), &v))));
    Ok(())
}

fn undecodable(c: &mut Case) -> Chk {
    let set = any_set(&mut c.r);
    let b = any_framed(&mut c.r, set);
    let mut d = set.decoder();
    let mut off = 0;
    while off < b.len() {
        match d.decode(&b[off..], Eos::new(true)) {
            Ok(0) | Err(_) => break,
            Ok(n) => off += n,
        }
        if d.idle() {
            break;
        }
    }
    if let Ok(Err(i)) = d.finish() {
        ensure_eq!(i.as_error, ErrorKind::InvalidInput, "the kind of error an undecodable message converts to");
        ensure!(i.as_code == 400, "an undecodable message converts to error {}", i.as_code);
        let e = ErrorCode::new(i.as_code, i.reason.clone()).map_err(|_| Fail::new("the error code made for an undecodable message is out of range"))?;
        ensure!(!i.reason.is_empty(), "no reason");
        if c.idx % 64 == 0 {
            survives(c, &e)?;
        }
        c.count("undecodable messages", 1);
        c.eval(Some(hash_bytes(&b)));
    }
    Ok(())
}

fn unauthorized(c: &mut Case) -> Chk {
    let sets = auth_sets();
    let set = *c.r.pick(&sets);
    let mut m = set.msg(c.r.below(4) as u8, gen::method(&mut c.r), c.r.tid());
    let cred = gen::cred(&mut c.r);
    add_item(&mut *m, &PItem::Mi(cred.clone()))?;
    let m = if c.r.bool() {
        let b = encode_ok(set, &*m)?;
        decode_valid(set, &b).map_err(|x| Fail::new(format!("not received: {}", x)))?
    } else {
        m
    };
    let mi = m.mis().pop().ok_or_else(|| Fail::new("the attribute is gone"))?;
    let mut wrong = gen::cred(&mut c.r);
    if c.r.chance(1, 3) {
        wrong = match &cred {
            Cred::Short(p) => Cred::Short(format!("{}x", p)),
            Cred::Long { user, realm, password } => Cred::Long { user: user.clone(), realm: realm.clone(), password: format!("x{}", password) },
        };
    }
    // HMAC pads short keys with zeros, so keys that differ in trailing zeros only are the same key
    let norm = |c: &Cred| {
        let mut k = c.key();
        if k.len() > 64 {
            k = crate::crypto::sha1(&k).to_vec();
        }
        k.resize(64, 0);
        k
    };
    if norm(&wrong) == norm(&cred) {
        return Ok(());
    }
    let verdict = match &wrong {
        Cred::Short(p) => mi.check_short_term_credential(p),
        Cred::Long { user, realm, password } => {
            let (u, r) = (Username::new(user.clone()), Realm::new(realm.clone()));
            match (u, r) {
                (Ok(u), Ok(r)) => mi.check_long_term_credential(&u, &r, password),
                _ => return Err(Fail::new("harness: credential out of range")),
            }
        }
    };
    match verdict {
        Ok(()) => fail!("wrong credentials are accepted"),
        Err(e) => {
            ensure_eq!(e.code(), 401, "error code of a failed credential check");
            ensure!(e.reason_phrase().eq_ignore_ascii_case("unauthorized"), "reason of a failed credential check: {:?}", e.reason_phrase());
            if c.idx % 64 == 0 {
                survives(c, &e)?;
            }
        }
    }
    c.eval(Some(hash_dbg(&(&cred, &wrong))));
    Ok(())
}
