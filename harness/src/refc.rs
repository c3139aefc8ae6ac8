//! Reference cryptography for the scripted server, written independently of
//! husk (different representations throughout).  It is itself checked against
//! the Quint specifications in /verif/spec.
use num::bigint::BigUint;
use num::traits::{One, Zero};

// ---------------------------------------------------------------- SHA-256
// Constants are computed (fractional parts of square and cube roots of primes)
// rather than copied.
fn primes(n: usize) -> Vec<u64> {
    let mut v: Vec<u64> = vec![];
    let mut c = 2;
    while v.len() < n {
        if v.iter().all(|p| c % p != 0) {
            v.push(c)
        }
        c += 1;
    }
    v
}

fn iroot(n: &BigUint, k: u32) -> BigUint {
    n.nth_root(k)
}

fn low32(n: BigUint) -> u32 {
    let m = n % (BigUint::one() << 32usize);
    m.iter_u32_digits().next().unwrap_or(0)
}

struct ShaConst {
    h: [u32; 8],
    k: [u32; 64],
}

fn sha_const() -> &'static ShaConst {
    use std::sync::OnceLock;
    static C: OnceLock<ShaConst> = OnceLock::new();
    C.get_or_init(|| {
        let p = primes(64);
        let mut c = ShaConst { h: [0; 8], k: [0; 64] };
        for i in 0..8 {
            c.h[i] = low32(iroot(&(BigUint::from(p[i]) << 64usize), 2));
        }
        for i in 0..64 {
            c.k[i] = low32(iroot(&(BigUint::from(p[i]) << 96usize), 3));
        }
        c
    })
}

pub fn sha256(msg: &[u8]) -> Vec<u8> {
    let c = sha_const();
    let mut m = msg.to_vec();
    m.push(0x80);
    while m.len() % 64 != 56 {
        m.push(0)
    }
    m.extend_from_slice(&((msg.len() as u64) << 3).to_be_bytes());
    let mut st = c.h;
    for blk in m.chunks_exact(64) {
        let mut w: Vec<u32> = blk.chunks_exact(4).map(|q| u32::from_be_bytes([q[0], q[1], q[2], q[3]])).collect();
        for t in 16..64 {
            let a = w[t - 15];
            let b = w[t - 2];
            let s0 = (a.rotate_left(25)) ^ (a.rotate_left(14)) ^ (a >> 3);
            let s1 = (b.rotate_left(15)) ^ (b.rotate_left(13)) ^ (b >> 10);
            w.push(s1.wrapping_add(w[t - 7]).wrapping_add(s0).wrapping_add(w[t - 16]));
        }
        let mut r = st;
        for t in 0..64 {
            let s1 = r[4].rotate_left(26) ^ r[4].rotate_left(21) ^ r[4].rotate_left(7);
            let ch = r[6] ^ (r[4] & (r[5] ^ r[6]));
            let t1 = r[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(c.k[t]).wrapping_add(w[t]);
            let s0 = r[0].rotate_left(30) ^ r[0].rotate_left(19) ^ r[0].rotate_left(10);
            let mj = (r[0] & r[1]) | (r[2] & (r[0] | r[1]));
            r.rotate_right(1);
            r[4] = r[4].wrapping_add(t1);
            r[0] = t1.wrapping_add(s0.wrapping_add(mj));
        }
        for i in 0..8 {
            st[i] = st[i].wrapping_add(r[i])
        }
    }
    st.iter().flat_map(|x| x.to_be_bytes()).collect()
}

pub fn hmac(key: &[u8], msg: &[u8]) -> Vec<u8> {
    let mut k = if key.len() > 64 { sha256(key) } else { key.to_vec() };
    k.resize(64, 0);
    let mut inner: Vec<u8> = k.iter().map(|b| b ^ 0x36).collect();
    inner.extend_from_slice(msg);
    let mut outer: Vec<u8> = k.iter().map(|b| b ^ 0x5c).collect();
    outer.extend(sha256(&inner));
    sha256(&outer)
}

/// P_SHA256(secret, seed), first n bytes
pub fn p_hash(secret: &[u8], seed: &[u8], n: usize) -> Vec<u8> {
    let mut out = vec![];
    let mut a = seed.to_vec();
    while out.len() < n {
        a = hmac(secret, &a);
        let mut x = a.clone();
        x.extend_from_slice(seed);
        out.extend(hmac(secret, &x));
    }
    out.truncate(n);
    out
}

pub fn prf(secret: &[u8], label: &str, seed: &[u8], n: usize) -> Vec<u8> {
    let mut s = label.as_bytes().to_vec();
    s.extend_from_slice(seed);
    p_hash(secret, &s, n)
}

// ---------------------------------------------------------------- ChaCha20
pub fn chacha_block(key: &[u8], counter: u32, nonce: &[u8]) -> [u8; 64] {
    let mut s = [0u32; 16];
    let head = b"expand 32-byte k";
    let le = |b: &[u8]| u32::from_le_bytes([b[0], b[1], b[2], b[3]]);
    for i in 0..4 {
        s[i] = le(&head[4 * i..])
    }
    for i in 0..8 {
        s[4 + i] = le(&key[4 * i..])
    }
    s[12] = counter;
    for i in 0..3 {
        s[13 + i] = le(&nonce[4 * i..])
    }
    let mut x = s;
    let mut qr = |a: usize, b: usize, c: usize, d: usize| {
        for (i, r) in [16u32, 12, 8, 7].iter().enumerate() {
            let (p, q, t) = if i % 2 == 0 { (a, b, d) } else { (c, d, b) };
            x[p] = x[p].wrapping_add(x[q]);
            x[t] = (x[t] ^ x[p]).rotate_left(*r);
        }
    };
    for _ in 0..10 {
        for i in 0..4 {
            qr(i, 4 + i, 8 + i, 12 + i)
        }
        for i in 0..4 {
            qr(i, 4 + (i + 1) % 4, 8 + (i + 2) % 4, 12 + (i + 3) % 4)
        }
    }
    let mut o = [0u8; 64];
    for i in 0..16 {
        o[4 * i..4 * i + 4].copy_from_slice(&x[i].wrapping_add(s[i]).to_le_bytes())
    }
    o
}

pub fn chacha_xor(key: &[u8], mut counter: u32, nonce: &[u8], data: &[u8]) -> Vec<u8> {
    let mut out = Vec::with_capacity(data.len());
    for c in data.chunks(64) {
        let b = chacha_block(key, counter, nonce);
        counter = counter.wrapping_add(1);
        out.extend(c.iter().zip(b.iter()).map(|(x, y)| x ^ y));
    }
    out
}

// ---------------------------------------------------------------- Poly1305
/// one-time key = r || s (32 bytes); arithmetic modulo 2^130-5 on big integers
pub fn poly1305(key: &[u8], msg: &[u8]) -> [u8; 16] {
    let mut r = BigUint::from_bytes_le(&key[..16]);
    let clamp = BigUint::from_bytes_le(&[
        0xff, 0xff, 0xff, 0x0f, 0xfc, 0xff, 0xff, 0x0f, 0xfc, 0xff, 0xff, 0x0f, 0xfc, 0xff, 0xff, 0x0f,
    ]);
    r &= clamp;
    let s = BigUint::from_bytes_le(&key[16..32]);
    let p = (BigUint::one() << 130usize) - 5u32;
    let mut a = BigUint::zero();
    for c in msg.chunks(16) {
        let mut b = c.to_vec();
        b.push(1);
        a = (a + BigUint::from_bytes_le(&b)) * &r % &p;
    }
    a += s;
    let mut o = a.to_bytes_le();
    o.resize(17, 0);
    let mut t = [0u8; 16];
    t.copy_from_slice(&o[..16]);
    t
}

pub fn aead_tag(key: &[u8], nonce: &[u8], ad: &[u8], ct: &[u8]) -> [u8; 16] {
    let otk = chacha_block(key, 0, nonce);
    let mut m = vec![];
    for part in [ad, ct] {
        m.extend_from_slice(part);
        while m.len() % 16 != 0 {
            m.push(0)
        }
    }
    m.extend_from_slice(&(ad.len() as u64).to_le_bytes());
    m.extend_from_slice(&(ct.len() as u64).to_le_bytes());
    poly1305(&otk[..32], &m)
}

pub fn seal(key: &[u8], nonce: &[u8], ad: &[u8], pt: &[u8]) -> Vec<u8> {
    let mut ct = chacha_xor(key, 1, nonce, pt);
    let t = aead_tag(key, nonce, ad, &ct);
    ct.extend_from_slice(&t);
    ct
}

pub fn open(key: &[u8], nonce: &[u8], ad: &[u8], data: &[u8]) -> Option<Vec<u8>> {
    if data.len() < 16 {
        return None;
    }
    let (ct, tag) = data.split_at(data.len() - 16);
    if aead_tag(key, nonce, ad, ct) != tag {
        return None;
    }
    Some(chacha_xor(key, 1, nonce, ct))
}

// ---------------------------------------------------------------- P-256
pub struct Curve {
    pub p: BigUint,
    pub n: BigUint,
    pub b: BigUint,
    pub g: (BigUint, BigUint),
}

fn hexnum(s: &str) -> BigUint {
    BigUint::parse_bytes(s.as_bytes(), 16).unwrap()
}

pub fn p256() -> &'static Curve {
    use std::sync::OnceLock;
    static C: OnceLock<Curve> = OnceLock::new();
    C.get_or_init(|| Curve {
        p: hexnum("ffffffff00000001000000000000000000000000ffffffffffffffffffffffff"),
        n: hexnum("ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551"),
        b: hexnum("5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b"),
        g: (
            hexnum("6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296"),
            hexnum("4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5"),
        ),
    })
}

pub type Affine = Option<(BigUint, BigUint)>;

pub fn on_curve(x: &BigUint, y: &BigUint) -> bool {
    let c = p256();
    if x >= &c.p || y >= &c.p {
        return false;
    }
    let l = y * y % &c.p;
    let r = (x * x % &c.p * x + (&c.p - 3u32) * x + &c.b) % &c.p;
    l == r
}

/// homogeneous projective coordinates, complete-by-case formulas
/// (husk uses Jacobian coordinates)
#[derive(Clone)]
struct Proj(BigUint, BigUint, BigUint);

fn sub(a: &BigUint, b: &BigUint) -> BigUint {
    let p = &p256().p;
    if a >= b {
        a - b
    } else {
        a + p - b
    }
}

fn pdbl(a: &Proj) -> Proj {
    let p = &p256().p;
    if a.2.is_zero() {
        return a.clone();
    }
    // w = a X^2... dbl-2007-bl for a = -3
    let zz = &a.2 * &a.2 % p;
    let w = 3u32 * sub(&(&a.0 * &a.0 % p), &zz) % p;
    let s = 2u32 * &a.1 * &a.2 % p;
    let ss = &s * &s % p;
    let sss = &s * &ss % p;
    let r = &a.1 * &s % p;
    let rr = &r * &r % p;
    let xr = &a.0 + &r;
    let b = sub(&sub(&(&xr * &xr % p), &(&a.0 * &a.0 % p)), &rr);
    let h = sub(&sub(&(&w * &w % p), &b), &b);
    let x = &h * &s % p;
    let y = sub(&(&w * sub(&b, &h) % p), &(2u32 * rr % p));
    Proj(x, y, sss)
}

fn padd(a: &Proj, b: &Proj) -> Proj {
    let p = &p256().p;
    if a.2.is_zero() {
        return b.clone();
    }
    if b.2.is_zero() {
        return a.clone();
    }
    let y1z2 = &a.1 * &b.2 % p;
    let x1z2 = &a.0 * &b.2 % p;
    let z1z2 = &a.2 * &b.2 % p;
    let u = sub(&(&b.1 * &a.2 % p), &y1z2);
    let v = sub(&(&b.0 * &a.2 % p), &x1z2);
    if v.is_zero() {
        return if u.is_zero() { pdbl(a) } else { Proj(BigUint::zero(), BigUint::one(), BigUint::zero()) };
    }
    let uu = &u * &u % p;
    let vv = &v * &v % p;
    let vvv = &v * &vv % p;
    let r = &vv * &x1z2 % p;
    let aa = sub(&sub(&(&uu * &z1z2 % p), &vvv), &(2u32 * &r % p));
    Proj(&v * &aa % p, sub(&(&u * sub(&r, &aa) % p), &(&vvv * &y1z2 % p)), &vvv * &z1z2 % p)
}

fn affine(a: &Proj) -> Affine {
    let p = &p256().p;
    if a.2.is_zero() {
        return None;
    }
    let zi = a.2.modpow(&(p - 2u32), p);
    Some((&a.0 * &zi % p, &a.1 * &zi % p))
}

pub fn mul(k: &BigUint, pt: &(BigUint, BigUint)) -> Affine {
    let base = Proj(pt.0.clone(), pt.1.clone(), BigUint::one());
    let mut acc = Proj(BigUint::zero(), BigUint::one(), BigUint::zero());
    // 4-bit windows
    let mut tab = vec![acc.clone(), base.clone()];
    for i in 2..16 {
        tab.push(padd(&tab[i - 1], &base));
    }
    let bytes = k.to_bytes_be();
    for b in bytes {
        for nib in [b >> 4, b & 15] {
            for _ in 0..4 {
                acc = pdbl(&acc)
            }
            acc = padd(&acc, &tab[nib as usize]);
        }
    }
    affine(&acc)
}

pub fn add(a: &Affine, b: &Affine) -> Affine {
    let pr = |x: &Affine| match x {
        None => Proj(BigUint::zero(), BigUint::one(), BigUint::zero()),
        Some((x, y)) => Proj(x.clone(), y.clone(), BigUint::one()),
    };
    affine(&padd(&pr(a), &pr(b)))
}

pub fn b32(n: &BigUint) -> [u8; 32] {
    let v = n.to_bytes_be();
    let mut o = [0u8; 32];
    o[32 - v.len()..].copy_from_slice(&v);
    o
}

pub fn encode_point(pt: &(BigUint, BigUint)) -> Vec<u8> {
    let mut v = vec![4];
    v.extend_from_slice(&b32(&pt.0));
    v.extend_from_slice(&b32(&pt.1));
    v
}

/// strict: 65 bytes, uncompressed, coordinates reduced, on the curve
pub fn decode_point(b: &[u8]) -> Option<(BigUint, BigUint)> {
    if b.len() != 65 || b[0] != 4 {
        return None;
    }
    let x = BigUint::from_bytes_be(&b[1..33]);
    let y = BigUint::from_bytes_be(&b[33..]);
    if on_curve(&x, &y) {
        Some((x, y))
    } else {
        None
    }
}

pub fn sqrt(a: &BigUint) -> Option<BigUint> {
    let p = &p256().p;
    let e = (p + 1u32) >> 2usize;
    let r = a.modpow(&e, p);
    if &r * &r % p == a % p {
        Some(r)
    } else {
        None
    }
}

/// y for x on y^2 = x^3 - 3x + b'
pub fn lift_x(x: &BigUint, b: &BigUint) -> Option<BigUint> {
    let p = &p256().p;
    sqrt(&((x * x % p * x + (p - 3u32) * x + b) % p))
}

// ---------------------------------------------------------------- rng
#[derive(Clone)]
pub struct Rng(pub u64);

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut r = Rng(seed ^ 0x9e3779b97f4a7c15);
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.next() % n as u64) as usize
        }
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.next() as u8).collect()
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn scalar(&mut self) -> BigUint {
        let c = p256();
        BigUint::from_bytes_be(&self.bytes(40)) % (&c.n - 1u32) + 1u32
    }
}
