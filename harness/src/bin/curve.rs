//! The field and the group of P-256: answers of the Quint oracle (P256.qnt)
//! are replayed, and wide searches compare with the reference (whatever
//! differs is judged by the oracle afterwards).
use husk::crypto::p256::int256::Int256;
use husk::crypto::p256::{NPoint256, G};
use husk_verif::json::J;
use husk_verif::refc::{self, Rng};
use husk_verif::run;
use num::bigint::BigUint;
use num::traits::{One, Zero};

fn num(j: &J) -> BigUint {
    BigUint::parse_bytes(j.str().as_bytes(), 16).unwrap()
}

fn hexs(n: &BigUint) -> J {
    J::s(&n.to_str_radix(16))
}

fn limbs(n: &BigUint) -> Int256 {
    let mut z = husk::crypto::p256::int256::ZERO;
    for (i, d) in n.iter_u32_digits().enumerate() {
        z.v[i] = std::num::Wrapping(d);
    }
    z
}

fn big(a: &Int256) -> BigUint {
    let d: Vec<u32> = a.v.iter().map(|w| w.0).collect();
    BigUint::new(d)
}

/// the answer: (x, y) or the identity, which is (0, 0) here
type Ans = (BigUint, BigUint);

/// the point, built through the decoder of the crate
fn point(x: &BigUint, y: &BigUint) -> husk::crypto::p256::Point256 {
    let g = &refc::p256().g;
    if x == &g.0 && y == &g.1 {
        return G;
    }
    NPoint256 { x: limbs(x), y: limbs(y) }.to_point()
}

fn husk(op: &str, k: &BigUint, x: &BigUint, y: &BigUint) -> Ans {
    let (a, b) = (limbs(k), limbs(x));
    let f = |r: Int256| {
        // both ways of looking at a number
        let v = big(&r);
        let by = r.to_bytes();
        assert!(by[..] == refc::b32(&v)[..], "to_bytes of {:x}", v);
        match Int256::from_bytes(&by) {
            Some(z) if z.compare(&r).0 == 0 => {}
            _ => panic!("from_bytes of {:x}", v),
        }
        (v, BigUint::zero())
    };
    match op {
        "add" => f(a.add(&b)),
        "sub" => f(a.sub(&b)),
        "mult" => f(a.mult(&b)),
        "square" => f(a.square()),
        "double" => f(a.double()),
        "halve" => f(a.divide_by_2()),
        "inverse" => f(a.inverse()),
        "valid" => {
            let mut d = vec![4];
            d.extend_from_slice(&refc::b32(x));
            d.extend_from_slice(&refc::b32(y));
            match NPoint256::from_uncompressed_bytes(&d) {
                None => (BigUint::zero(), BigUint::zero()),
                Some(p) => {
                    assert!(big(&p.x) == *x && big(&p.y) == *y, "decoded point differs");
                    assert!(p.to_uncompressed_bytes() == d, "encoded point differs");
                    (BigUint::one(), BigUint::zero())
                }
            }
        }
        "mul" => {
            let r = point(x, y).mult_scalar(&a).normalize();
            (big(&r.x), big(&r.y))
        }
        // multiples of multiples: the base is k times the point, not normalized
        "mul2" => {
            let r = point(x, y).mult_scalar(&a).mult_scalar(&a).normalize();
            (big(&r.x), big(&r.y))
        }
        _ => panic!("harness: op {}", op),
    }
}

fn reference(op: &str, k: &BigUint, x: &BigUint, y: &BigUint) -> Ans {
    let p = &refc::p256().p;
    let z = BigUint::zero();
    match op {
        "add" => ((k + x) % p, z),
        "sub" => ((k + p - x) % p, z),
        "mult" => (k * x % p, z),
        "square" => (k * k % p, z),
        "double" => (k * 2u32 % p, z),
        "halve" => (k * ((p + 1u32) >> 1usize) % p, z),
        "inverse" => (k.modpow(&(p - 2u32), p), z),
        "valid" => (if refc::on_curve(x, y) { BigUint::one() } else { z.clone() }, z),
        "mul" => refc::mul(k, &(x.clone(), y.clone())).unwrap_or((z.clone(), z)),
        "mul2" => {
            let n = &refc::p256().n;
            refc::mul(&(k * k % n), &(x.clone(), y.clone())).unwrap_or((z.clone(), z))
        }
        _ => panic!("harness: op {}", op),
    }
}

fn show(r: &Result<Ans, String>) -> J {
    match r {
        Ok((x, y)) => J::s(&format!("{:x} {:x}", x, y)),
        Err(m) => J::s(&format!("PANIC {}", m)),
    }
}

fn rows(t: &J) -> J {
    let (mut bad, mut refbad) = (vec![], vec![]);
    for r in t.get("rows").arr() {
        let op = r.get("op").str();
        let (k, x, y) = (num(r.get("k")), num(r.get("x")), num(r.get("y")));
        let want = (num(r.get("rx")), num(r.get("ry")));
        if reference(op, &k, &x, &y) != want {
            refbad.push(r.clone());
        }
        let got = run::guarded(|| husk(op, &k, &x, &y));
        if got.as_ref().ok() != Some(&want) {
            bad.push(J::obj(vec![("q", r.clone()), ("got", show(&got))]));
        }
    }
    J::obj(vec![("bad", J::Arr(bad)), ("refbad", J::Arr(refbad))])
}

/// numbers below p with 32-bit limbs at the edges
pub fn operand(r: &mut Rng) -> BigUint {
    let p = &refc::p256().p;
    let k = r.below(8);
    let n = match k {
        0 => {
            let d = BigUint::from(r.below(6) as u32);
            if r.chance(1, 2) { d } else { p - 1u32 - d }
        }
        1 => BigUint::from_bytes_be(&r.bytes(32)),
        2 => (BigUint::one() << r.below(256)) + BigUint::from(r.below(2) as u32),
        3 => {
            let i = r.below(256);
            let j = r.below(256);
            let (i, j) = (i.max(j), i.min(j));
            (BigUint::one() << i) - (BigUint::one() << j)
        }
        _ => {
            let dense = r.below(4);
            let d: Vec<u32> = (0..8)
                .map(|_| match r.below(if k < 6 { 7 } else { 4 + dense }) {
                    0 | 1 => 0,
                    2 | 3 => u32::MAX,
                    4 => 1 << r.below(32),
                    5 => u32::MAX - r.below(3) as u32,
                    _ => r.next() as u32,
                })
                .collect();
            BigUint::new(d)
        }
    };
    n % p
}

fn inv(a: &BigUint) -> BigUint {
    let p = &refc::p256().p;
    a.modpow(&(p - 2u32), p)
}

fn scalar(r: &mut Rng) -> BigUint {
    let c = refc::p256();
    let top = BigUint::one() << 256usize;
    match r.below(8) {
        0 => BigUint::from(r.below(40) as u32),
        1 => &c.n - 20u32 + BigUint::from(r.below(40) as u32),
        2 => top - 1u32 - BigUint::from(r.below(20) as u32),
        3 => BigUint::one() << r.below(256),
        4 => {
            let (i, j) = (r.below(257), r.below(257));
            (BigUint::one() << i.max(j)) - (BigUint::one() << i.min(j))
        }
        5 => BigUint::from_bytes_be(&r.bytes(32)) >> r.below(256),
        6 => &c.n / BigUint::from(1 + r.below(8) as u32) + BigUint::from(r.below(3) as u32),
        _ => BigUint::from_bytes_be(&r.bytes(32)),
    }
}

fn a_point(r: &mut Rng) -> (BigUint, BigUint) {
    let c = refc::p256();
    if r.chance(1, 3) {
        return c.g.clone();
    }
    loop {
        let x = operand(r);
        if let Some(y) = refc::lift_x(&x, &c.b) {
            return (x, if r.chance(1, 2) && !y.is_zero() { &c.p - y } else { y });
        }
    }
}

fn search(t: &J) -> J {
    let mut r = Rng::new(t.get("seed").int() as u64);
    let c = refc::p256();
    let k = t.get("k").str();
    let mut bad = vec![];
    for i in 0..t.get("count").int() {
        let z = BigUint::zero();
        let (op, a, b, d) = match k {
            "field" => {
                let op = *r.pick(&["add", "sub", "mult", "mult", "mult", "square", "double", "halve"]);
                let a = operand(&mut r);
                let mut b = operand(&mut r);
                // results near the edges
                if i % 16 == 0 && !a.is_zero() {
                    let d = BigUint::from(r.below(4) as u32);
                    let t = if r.chance(1, 2) { d } else { &c.p - 1u32 - d };
                    b = match op {
                        "add" => (&c.p - &a + t) % &c.p,
                        "sub" => (&a + &c.p - t) % &c.p,
                        "mult" => inv(&a) * t % &c.p,
                        _ => b,
                    };
                }
                (op, a, b, z)
            }
            "inverse" => ("inverse", operand(&mut r), z.clone(), z),
            "mul" => {
                let p = a_point(&mut r);
                (if r.chance(1, 4) { "mul2" } else { "mul" }, scalar(&mut r), p.0, p.1)
            }
            _ => {
                let p = a_point(&mut r);
                let top = BigUint::one() << 256usize;
                let near = |r: &mut Rng, v: &BigUint| -> BigUint {
                    match r.below(8) {
                        0 => v + &c.p,
                        1 => &c.p - v,
                        2 => v ^ (BigUint::one() << r.below(256)),
                        3 => operand(r),
                        4 => &top - 1u32 - BigUint::from(r.below(3) as u32),
                        5 => &c.p + BigUint::from(r.below(3) as u32),
                        _ => v.clone(),
                    }
                };
                let (x, y) = (near(&mut r, &p.0), near(&mut r, &p.1));
                if x >= top || y >= top {
                    ("valid", z, p.0, p.1)
                } else {
                    ("valid", z, x, y)
                }
            }
        };
        let got = run::guarded(|| husk(op, &a, &b, &d));
        if got.as_ref().ok() != Some(&reference(op, &a, &b, &d)) && bad.len() < 4 {
            bad.push(J::obj(vec![("op", J::s(op)), ("k", hexs(&a)), ("x", hexs(&b)), ("y", hexs(&d)), ("got", show(&got))]));
        }
    }
    J::obj(vec![("bad", J::Arr(bad))])
}

fn test(t: &J) -> J {
    let mut r = match t.get("kind").str() {
        "rows" => rows(t),
        _ => search(t),
    };
    if let J::Obj(o) = &mut r {
        o.insert("id".into(), t.get("id").clone());
    }
    r
}

fn main() {
    run::main(test);
}
