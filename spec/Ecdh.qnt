// Two parties choose keys, exchange public values and compute the secret;
// adding up scalars adds up points (C21, C22 on the specification itself).
module Ecdh {
  import P256.* from "./P256"
  var ka: int
  var kb: int
  var pa: Affine
  var pb: Affine
  action init = { nondet a = 1.to(N - 1).oneOf() nondet b = 1.to(N - 1).oneOf()
    all { ka' = a, kb' = b, pa' = mul(a, G), pb' = mul(b, G) } }
  action step = { nondet a = 1.to(N - 1).oneOf() nondet b = 1.to(N - 1).oneOf()
    all { ka' = a, kb' = b, pa' = mul(a, G), pb' = mul(b, G) } }
  val agree = and { onCurve(pa), onCurve(pb), shared(ka, pb) == shared(kb, pa),
                    plus(pa, pb) == mul((ka + kb) % N, G), mul(ka, pb) == mul((ka * kb) % N, G) }
}
