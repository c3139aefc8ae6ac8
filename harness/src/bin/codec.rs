//! Handshake messages: values built from CodecGen.tla are put together with
//! the constructors, encoded and decoded again; byte strings are decoded and
//! what happened is reported for CodecJudge.tla.
use husk::cipher::ecdhe::{EcCurve, EcData, EcParameters, EcdheServerKeyExchange, EllipticDiffieHellman, ServerEcdhParams};
use husk::cipher::{CipherSuite, KeyExchange};
use husk::handshake::*;
use husk::signature::{DigitallySigned, Signature};
use husk::tls_item::{DummyItem, ObscureData, TlsItem};
use husk::util::{ReadExt, WriteExt};
use husk_verif::json::{hex, unhex, J};
use husk_verif::run;
use num::FromPrimitive;
use std::io::{Cursor, Read};

/// gives at most n bytes at a time
struct Slow<'a>(&'a [u8], usize);
impl<'a> Read for Slow<'a> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let n = buf.len().min(self.1).min(self.0.len());
        buf[..n].copy_from_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        Ok(n)
    }
}

/// a constructor refused
struct No;
type B<T> = Result<T, No>;

fn bytes(v: &J) -> Vec<u8> {
    let mut out = Vec::new();
    for r in v.arr() {
        let r = r.arr();
        let n = r[1].int() as usize;
        if r.len() == 3 {
            let item = bytes(&r[0]);
            out.reserve(item.len() * n);
            for _ in 0..n {
                out.extend_from_slice(&item);
            }
        } else {
            out.resize(out.len() + n, r[0].int() as u8);
        }
    }
    out
}

fn items<T>(v: &J, f: impl Fn(&J) -> B<T>) -> B<Vec<T>> {
    let mut out = Vec::new();
    for r in v.arr() {
        let r = r.arr();
        for _ in 0..r[1].int() {
            out.push(f(&r[0])?);
        }
    }
    Ok(out)
}

fn ctor<T>(r: husk::tls_result::TlsResult<T>) -> B<T> {
    r.map_err(|_| No)
}

fn num<T: FromPrimitive>(v: &J) -> T {
    T::from_u64(v.int() as u64).expect("harness: no such value")
}

fn suite(v: &J) -> CipherSuite {
    let a = v.arr();
    if a[0].int() == 0xcc && a[1].int() == 0xa8 {
        CipherSuite::TLS_ECDHE_RSA_WITH_CHACHA20_POLY1305_SHA256
    } else {
        CipherSuite::UnknownCipherSuite
    }
}

fn version(v: &J) -> ProtocolVersion {
    ProtocolVersion { major: v.arr()[0].int() as u8, minor: v.arr()[1].int() as u8 }
}

fn pair(v: &J) -> SignatureAndHashAlgorithm {
    SignatureAndHashAlgorithm { hash: num(&v.arr()[0]), signature: num(&v.arr()[1]) }
}

fn pairs(v: &J) -> B<SignatureAndHashAlgorithmVec> {
    ctor(SignatureAndHashAlgorithmVec::new(items(v, |x| Ok(pair(x)))?))
}

/// with the helper constructors if helper, else with the variants
fn ext(v: &J, helper: bool) -> B<Extension> {
    let b = &v.arr()[1];
    let t = v.arr()[0].int();
    Ok(match (t, helper) {
        (10, true) => ctor(Extension::new_elliptic_curve_list(items(b, |x| Ok(num::<NamedCurve>(x)))?))?,
        (11, true) => ctor(Extension::new_ec_point_formats(items(b, |x| Ok(num::<ECPointFormat>(x)))?))?,
        (13, true) => ctor(Extension::new_signature_algorithm_list(items(b, |x| Ok(pair(x)))?))?,
        (10, false) => Extension::elliptic_curves(ctor(EllipticCurveList::new(items(b, |x| Ok(num::<NamedCurve>(x)))?))?),
        (11, false) => Extension::ec_point_formats(ctor(ECPointFormatList::new(items(b, |x| Ok(num::<ECPointFormat>(x)))?))?),
        (13, false) => Extension::signature_algorithms(pairs(b)?),
        _ => Extension::Unknown(t as u16, bytes(b)),
    })
}

fn exts(v: &J) -> B<Option<ExtensionVec>> {
    match v.arr() {
        [] => Ok(None),
        a => Ok(Some(ctor(ExtensionVec::new(items(&a[0], |x| ext(x, false))?))?)),
    }
}

enum Top {
    H(Handshake),
    S(EcdheServerKeyExchange),
    E(Extension),
    C(EcCurve),
}

impl Top {
    fn size(&self) -> u64 {
        match self {
            Top::H(x) => x.tls_size(),
            Top::S(x) => x.tls_size(),
            Top::E(x) => x.tls_size(),
            Top::C(x) => x.tls_size(),
        }
    }
    fn write(&self) -> Result<Vec<u8>, String> {
        let mut v = Vec::new();
        match self {
            Top::H(x) => x.tls_write(&mut v),
            Top::S(x) => x.tls_write(&mut v),
            Top::E(x) => x.tls_write(&mut v),
            Top::C(x) => x.tls_write(&mut v),
        }
        .map_err(|e| format!("{:?}", e.kind))?;
        Ok(v)
    }
    /// the whole of b
    fn read<R: Read>(ty: i64, mut r: R) -> Result<Top, String> {
        let x = match ty {
            100 => TlsItem::tls_read(&mut r).map(Top::S),
            101 => TlsItem::tls_read(&mut r).map(Top::E),
            102 => TlsItem::tls_read(&mut r).map(Top::C),
            _ => TlsItem::tls_read(&mut r).map(Top::H),
        }
        .map_err(|e| format!("{:?}", e.kind))?;
        let mut rest = Vec::new();
        Read::read_to_end(&mut r, &mut rest).unwrap();
        if !rest.is_empty() {
            return Err("left".into());
        }
        Ok(x)
    }
}

fn make(ty: i64, v: &J) -> B<Top> {
    let f = v.arr();
    Ok(match ty {
        0 => Top::H(Handshake::hello_request(DummyItem)),
        14 => Top::H(Handshake::server_hello_done(DummyItem)),
        1 => Top::H(Handshake::client_hello(ClientHello {
            client_version: version(&f[0]),
            random: ctor(Random::new(bytes(&f[1])))?,
            session_id: ctor(SessionId::new(bytes(&f[2])))?,
            cipher_suites: ctor(CipherSuiteVec::new(items(&f[3], |x| Ok(suite(x)))?))?,
            compression_methods: ctor(CompressionMethodVec::new(items(&f[4], |x| Ok(num::<CompressionMethod>(x)))?))?,
            extensions: exts(&f[5])?,
        })),
        2 => Top::H(Handshake::server_hello(ServerHello {
            server_version: version(&f[0]),
            random: ctor(Random::new(bytes(&f[1])))?,
            session_id: ctor(SessionId::new(bytes(&f[2])))?,
            cipher_suite: suite(&f[3]),
            compression_method: num(&f[4]),
            extensions: exts(&f[5])?,
        })),
        11 => Top::H(Handshake::certificate(ctor(CertificateList::new(items(v, |x| ctor(Asn1Cert::new(bytes(x))))?))?)),
        12 => Top::H(Handshake::server_key_exchange(ObscureData::new(bytes(v)))),
        16 => Top::H(ctor(Handshake::new_client_key_exchange(bytes(v)))?),
        13 => Top::H(Handshake::certificate_request(CertificateRequest {
            certificate_types: ctor(CertificiateTypeVec::new(items(&f[0], |x| Ok(num::<ClientCertificateType>(x)))?))?,
            supported_signature_algorithms: pairs(&f[1])?,
            certificate_authorities: ctor(DistinguishedNameVec::new(items(&f[2], |x| ctor(DistinguishedName::new(bytes(x))))?))?,
        })),
        20 => {
            let a = ctor(VerifyData::new(bytes(v)));
            let b = ctor(Handshake::new_finished(bytes(v)));
            match (a, b) {
                (Ok(_), Ok(h)) => Top::H(h),
                (Ok(a), Err(_)) => Top::H(Handshake::finished(a)),
                _ => return Err(No),
            }
        }
        100 => Top::S(EcdheServerKeyExchange {
            params: ServerEcdhParams {
                curve_params: EcParameters::named_curve(num(&f[1])),
                public: ctor(EcData::new(bytes(&f[2])))?,
            },
            signed_params: DigitallySigned { algorithm: pair(&f[3]), signature: ctor(Signature::new(bytes(&f[4])))? },
        }),
        101 => Top::E(ext(v, true)?),
        102 => Top::C(EcCurve { a: ctor(EcData::new(bytes(&f[0])))?, b: ctor(EcData::new(bytes(&f[1])))? }),
        _ => panic!("harness: type {}", ty),
    })
}

fn clip(b: &[u8]) -> String {
    hex(&b[..b.len().min(80)])
}

fn build(t: &J) -> String {
    let ty = t.get("ty").int();
    let top = make(ty, t.get("v"));
    if top.is_ok() != t.get("builds").bool() {
        return format!("constructors {}", if top.is_ok() { "accept a value out of bounds" } else { "refuse a value within bounds" });
    }
    let top = match top {
        Ok(x) => x,
        Err(_) => return String::new(),
    };
    if top.size() != t.get("size").int() as u64 {
        return format!("declared size {}, expected {}", top.size(), t.get("size").int());
    }
    let w = match top.write() {
        Err(e) if t.get("fits").bool() => return format!("encoding fails: {}", e),
        Err(_) => return String::new(),
        Ok(w) if !t.get("fits").bool() => return format!("encodes although a part does not fit: {}", clip(&w)),
        Ok(w) => w,
    };
    let want = bytes(t.get("enc"));
    if want != w {
        let p = want.iter().zip(w.iter()).position(|(a, b)| a != b).unwrap_or(want.len().min(w.len()));
        return format!("encoding has {} bytes, expected {}; differs from byte {}: {} expected {}", w.len(), want.len(), p, clip(&w[p..]), clip(&want[p..]));
    }
    for step in [w.len().max(1), 1, 7] {
        if step < w.len() && w.len() > 100_000 {
            continue;
        }
        match Top::read(ty, Slow(&w, step)) {
            Err(e) => return format!("encoding does not decode: {}", e),
            Ok(x) => {
                if x.size() != w.len() as u64 || x.write().as_ref() != Ok(&w) {
                    return "decoding gives a different value".into();
                }
            }
        }
    }
    String::new()
}

/// a long well-formed encoding: it decodes, and nothing shorter or longer does
fn long(t: &J) -> String {
    let ty = t.get("ty").int();
    let w = bytes(t.get("enc"));
    let whole = |b: &[u8]| -> Result<Option<Vec<u8>>, String> {
        let mut c = Cursor::new(b);
        let x = Top::read(ty, &mut c)?;
        if c.position() != b.len() as u64 {
            return Err("bytes left".into());
        }
        Ok(x.write().ok())
    };
    match whole(&w) {
        Err(e) => return format!("a well-formed message of {} bytes does not decode: {}", w.len(), e),
        Ok(Some(x)) if x != w => return format!("decoding and encoding {} bytes changes them", w.len()),
        _ => {}
    }
    if whole(&w[..w.len() - 1]).is_ok() {
        return format!("{} bytes decode without the last one", w.len());
    }
    let mut more = w.clone();
    more.push(0);
    if whole(&more).is_ok() {
        return format!("{} bytes decode with one more", w.len());
    }
    if ty < 100 {
        let mut h = HandshakeBuffer::new();
        for (i, part) in w.chunks(16384).enumerate() {
            h.add_record(part);
            let last = (i + 1) * 16384 >= w.len();
            match h.get_message() {
                Ok(Some(m)) if last => {
                    let mut v = vec![];
                    if m.tls_write(&mut v).is_ok() && v != w {
                        return format!("a message of {} bytes changes when reassembled", w.len());
                    }
                }
                Ok(None) if !last => {}
                Ok(x) => return format!("message of {} bytes: record {} gives {}", w.len(), i + 1, if x.is_some() { "a message" } else { "nothing" }),
                Err(e) => return format!("message of {} bytes: record {} gives {:?}", w.len(), i + 1, e.kind),
            }
            if w.len() > 2_000_000 && !last && i > 20 {
                break; // quadratic
            }
        }
    }
    if ty == 100 && t.get("keys").bool() && EllipticDiffieHellman.compute_keys(&w, &mut rand::rngs::OsRng).is_err() {
        return format!("a valid key exchange of {} bytes is refused", w.len());
    }
    String::new()
}

fn judge(ty: i64, b: &[u8]) -> J {
    let verdict = |r: Result<Top, String>| match r {
        Err(_) => "error",
        Ok(x) => match x.write() {
            Err(_) => "reerr",
            Ok(w) if w == b => "same",
            Ok(_) => "ok",
        },
    };
    let mut res = verdict(Top::read(ty, Cursor::new(b)));
    if verdict(Top::read(ty, Slow(b, 1))) != res {
        res = "depends on the reader";
    }
    let mut o = vec![("ty", J::Num(ty)), ("b", J::Arr(b.iter().map(|x| J::Num(*x as i64)).collect())), ("res", J::s(res))];
    if ty < 100 {
        let mut h = HandshakeBuffer::new();
        h.add_record(b);
        let s = match h.get_message() {
            Ok(None) => "wait",
            Ok(Some(_)) => "message",
            Err(_) => "error",
        };
        o.push(("buf", J::s(s)));
    }
    if ty == 100 {
        o.push(("keys", J::Bool(EllipticDiffieHellman.compute_keys(b, &mut rand::rngs::OsRng).is_ok())));
    }
    J::obj(o)
}

/// big-endian bytes through every integer reader and writer
fn ints(be: &[u8]) -> String {
    let le: Vec<u8> = be.iter().rev().cloned().collect();
    let mut w = Vec::new();
    macro_rules! go {
        ($t:ty, $wbe:ident, $wle:ident, $rbe:ident, $rle:ident) => {{
            let x = <$t>::from_be_bytes(be.try_into().unwrap());
            w.$wbe(x).unwrap();
            if w != be {
                return format!("{} writes {}", stringify!($wbe), hex(&w));
            }
            w.clear();
            w.$wle(x).unwrap();
            if w != le {
                return format!("{} writes {}", stringify!($wle), hex(&w));
            }
            w.clear();
            x.tls_write(&mut w).unwrap();
            if w != be || x.tls_size() != be.len() as u64 {
                return format!("tls_write of {} writes {}", stringify!($t), hex(&w));
            }
            for n in 1..=be.len() {
                if Slow(be, n).$rbe().unwrap() != x || Slow(&le, n).$rle().unwrap() != x {
                    return format!("{} or {} reads another number", stringify!($rbe), stringify!($rle));
                }
                let y: $t = TlsItem::tls_read(&mut Slow(be, n)).unwrap();
                if y != x {
                    return format!("tls_read of {} reads another number", stringify!($t));
                }
            }
            for n in 0..be.len() {
                if <$t as TlsItem>::tls_read(&mut Cursor::new(&be[..n])).is_ok() {
                    return format!("tls_read of {} takes {} bytes", stringify!($t), n);
                }
            }
            x
        }};
    }
    match be.len() {
        1 => {
            go!(u8, write_u8, write_u8, read_u8, read_u8);
        }
        2 => {
            go!(u16, write_be_u16, write_le_u16, read_be_u16, read_le_u16);
        }
        4 => {
            let x = go!(u32, write_be_u32, write_le_u32, read_be_u32, read_le_u32);
            if husk::util::u32_be_array(x)[..] != *be || husk::util::u32_le_array(x)[..] != le[..] {
                return "u32_be_array or u32_le_array is wrong".into();
            }
        }
        _ => {
            let x = go!(u64, write_be_u64, write_le_u64, read_be_u64, read_le_u64);
            if husk::util::u64_be_array(x)[..] != *be || husk::util::u64_le_array(x)[..] != le[..] {
                return "u64_be_array or u64_le_array is wrong".into();
            }
        }
    }
    String::new()
}

fn main() {
    run::main(|t| {
        let id = t.get("id").clone();
        match t.get("kind").str() {
            "build" => J::obj(vec![("id", id), ("bad", J::s(&build(t)))]),
            "long" => J::obj(vec![("id", id), ("bad", J::s(&long(t)))]),
            "ints" => {
                let bad: Vec<J> = t
                    .get("be")
                    .arr()
                    .iter()
                    .filter_map(|b| {
                        let s = ints(&unhex(b.str()));
                        if s.is_empty() { None } else { Some(J::s(&format!("{}: {}", b.str(), s))) }
                    })
                    .collect();
                J::obj(vec![("id", id), ("bad", J::Arr(bad))])
            }
            // dec: ten bytes that panic must not lose the others
            _ => {
                let rows = t
                    .get("rows")
                    .arr()
                    .iter()
                    .map(|r| {
                        let ty = r.arr()[0].int();
                        let b = unhex(r.arr()[1].str());
                        match run::guarded(|| judge(ty, &b)) {
                            Ok(j) => j,
                            Err(m) => J::obj(vec![("ty", J::Num(ty)), ("hex", J::s(&hex(&b))), ("panic", J::s(&m))]),
                        }
                    })
                    .collect();
                J::obj(vec![("id", id), ("rows", J::Arr(rows))])
            }
        }
    })
}
