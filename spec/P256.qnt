// The field and the group of NIST P-256 (FIPS 186-4, D.1.2.3), on integers
// of any size.  Used by the oracle module that lib/p_curve.py writes, and
// checked on its own by the tests below.
module P256 {
  pure val P = 2^256 - 2^224 + 2^192 + 2^96 - 1
  pure val N = 115792089210356248762697446949407573529996955224135760342422259061068512044369
  pure val B = 41058363725152142129326129780047268409114441015993725554835256314039467401291
  pure val GX = 48439561293906451759052585252797914202762949526041747995844080717082404635286
  pure val GY = 36134250956749795798585127919587881956611106672985015071877198253568414405109

  // the remainder of a division is negative for negative numbers in Quint
  pure def md(a: int): int = { val r = a % P if (r < 0) r + P else r }

  pure def fadd(a: int, b: int): int = md(a + b)
  pure def fsub(a: int, b: int): int = md(a - b)
  pure def fmul(a: int, b: int): int = md(a * b)
  // the x with 2x = a
  pure def fhalf(a: int): int = if (a % 2 == 0) a / 2 else (a + P) / 2
  pure def fpow(a: int, e: int): int =
    range(0, 256).foldl((1, a, e), (s, i) =>
      (if (s._3 % 2 == 1) md(s._1 * s._2) else s._1, md(s._2 * s._2), s._3 / 2))._1
  // the inverse; 0 for 0
  pure def finv(a: int): int = fpow(a, P - 2)

  // a point of the curve, or the identity
  type Affine = { id: bool, x: int, y: int }
  pure val ID: Affine = { id: true, x: 0, y: 0 }
  pure val G: Affine = { id: false, x: GX, y: GY }
  pure def pt(x: int, y: int): Affine = { id: false, x: x, y: y }
  pure def onCurve(p: Affine): bool =
    or { p.id, and { 0 <= p.x, p.x < P, 0 <= p.y, p.y < P, md(p.y * p.y) == md(p.x * p.x * p.x - 3 * p.x + B) } }

  // the group law
  pure def plus(p: Affine, q: Affine): Affine =
    if (p.id) q else if (q.id) p
    else if (p.x == q.x and md(p.y + q.y) == 0) ID
    else {
      val s = if (p.x == q.x) md((3 * p.x * p.x - 3) * finv(md(2 * p.y)))
              else md((q.y - p.y) * finv(md(q.x - p.x)))
      val x = md(s * s - p.x - q.x)
      pt(x, md(s * (p.x - x) - p.y))
    }

  // The same on (X, Y, Z) standing for (X / Z^2, Y / Z^3), the identity when
  // Z = 0: 256 doublings without an inversion each.
  type Jac = { x: int, y: int, z: int }
  pure val JID: Jac = { x: 1, y: 1, z: 0 }
  pure def jdbl(p: Jac): Jac = {
    val z2 = md(p.z * p.z)
    val y2 = md(p.y * p.y)
    val a = md(3 * (p.x - z2) * (p.x + z2))
    val b = md(4 * p.x * y2)
    val x3 = md(a * a - 2 * b)
    { x: x3, y: md(a * (b - x3) - 8 * y2 * y2), z: md(2 * p.y * p.z) }
  }
  pure def jadd(p: Jac, q: Jac): Jac =
    if (p.z == 0) q else if (q.z == 0) p
    else {
      val pz2 = md(p.z * p.z)
      val qz2 = md(q.z * q.z)
      val u1 = md(p.x * qz2)
      val u2 = md(q.x * pz2)
      val s1 = md(p.y * qz2 * q.z)
      val s2 = md(q.y * pz2 * p.z)
      val h = md(u2 - u1)
      val r = md(s2 - s1)
      if (h == 0) (if (r == 0) jdbl(p) else JID)
      else {
        val h2 = md(h * h)
        val h3 = md(h2 * h)
        val x3 = md(r * r - h3 - 2 * u1 * h2)
        { x: x3, y: md(r * (u1 * h2 - x3) - s1 * h3), z: md(h * p.z * q.z) }
      }
    }
  pure def toJac(p: Affine): Jac = if (p.id) JID else { x: p.x, y: p.y, z: 1 }
  pure def toAffine(p: Jac): Affine =
    if (p.z == 0) ID else {
      val i = finv(p.z)
      val i2 = md(i * i)
      pt(md(p.x * i2), md(p.y * i2 * i))
    }

  // k times p, for 0 <= k < 2^256
  pure def mul(k: int, p: Affine): Affine =
    toAffine(range(0, 256).foldl((JID, toJac(p), k), (s, i) =>
      (if (s._3 % 2 == 1) jadd(s._1, s._2) else s._1, jdbl(s._2), s._3 / 2))._1)

  // ECDH (RFC 4492, 5.10): the x-coordinate of k times p as 32 bytes is the
  // premaster secret; the public value is 4, x, y, 32 bytes each
  pure def shared(k: int, p: Affine): int = mul(k, p).x
  pure def encoded(p: Affine): int = 4 * 2^512 + p.x * 2^256 + p.y

  // ---------------------------------------------------------------- tests
  run onCurveTest = all { assert(onCurve(G)), assert(onCurve(plus(G, G))), assert(not(onCurve(pt(GX, GY + 1)))) }
  run orderTest = all { assert(mul(N, G) == ID), assert(mul(N + 5, G) == mul(5, G)), assert(mul(N - 1, G) == pt(GX, P - GY)) }
  // the projective formulas follow the group law
  run lawTest = assert(range(0, 24).foldl((ID, true), (s, i) => (plus(s._1, G), s._2 and mul(i, G) == s._1))._2)
  run fieldTest = assert(Set(0, 1, 2, P - 1, P - 2, GX, 2^224, 2^96 - 1).forall(a => and {
      fsub(fadd(a, GY), GY) == a, fadd(fhalf(a), fhalf(a)) == a, a == 0 or fmul(a, finv(a)) == 1 }))

  // ------------------------------------------------- answers to questions
  type Req = { op: str, k: int, x: int, y: int }
  pure def answer(q: Req): Affine =
    if (q.op == "add") pt(fadd(q.k, q.x), 0)
    else if (q.op == "sub") pt(fsub(q.k, q.x), 0)
    else if (q.op == "mult") pt(fmul(q.k, q.x), 0)
    else if (q.op == "square") pt(fmul(q.k, q.k), 0)
    else if (q.op == "double") pt(fadd(q.k, q.k), 0)
    else if (q.op == "halve") pt(fhalf(q.k), 0)
    else if (q.op == "inverse") pt(finv(q.k), 0)
    else if (q.op == "valid") pt(if (onCurve(pt(q.x, q.y))) 1 else 0, 0)
    else mul(q.k, pt(q.x, q.y))
}
