------------------------------- MODULE Sha256 -------------------------------
(***************************************************************************)
(* SHA-256 (FIPS 180-4), HMAC-SHA256 (RFC 2104) and the TLS 1.2 P_SHA256   *)
(* stream (RFC 5246, section 5), on sequences of bytes.                    *)
(***************************************************************************)
EXTENDS Words

\* the first 32 bits of the fractional parts of the cube roots of 64 primes
\* and the square roots of 8
K == <<
    <<17034, 12184>>, <<28983, 17553>>, <<46528, 64463>>, <<59829, 56229>>,
    <<14678, 49755>>, <<23025, 4593>>, <<37439, 33444>>, <<43804, 24277>>,
    <<55303, 43672>>, <<4739, 23297>>, <<9265, 34238>>, <<21772, 32195>>,
    <<29374, 23924>>, <<32990, 45566>>, <<39900, 1703>>, <<49563, 61812>>,
    <<58523, 27073>>, <<61374, 18310>>, <<4033, 40390>>, <<9228, 41420>>,
    <<11753, 11375>>, <<19060, 33962>>, <<23728, 43484>>, <<30457, 35034>>,
    <<38974, 20818>>, <<43057, 50797>>, <<45059, 10184>>, <<48985, 32711>>,
    <<50912, 3059>>, <<54695, 37191>>, <<1738, 25425>>, <<5161, 10599>>,
    <<10167, 2693>>, <<11803, 8504>>, <<19756, 28156>>, <<21304, 3347>>,
    <<25866, 29524>>, <<30314, 2747>>, <<33218, 51502>>, <<37490, 11397>>,
    <<41663, 59553>>, <<43034, 26187>>, <<49739, 35696>>, <<51052, 20899>>,
    <<53650, 59417>>, <<54937, 1572>>, <<62478, 13701>>, <<4202, 41072>>,
    <<6564, 49430>>, <<7735, 27656>>, <<10056, 30540>>, <<13488, 48309>>,
    <<14620, 3251>>, <<20184, 43594>>, <<23452, 51791>>, <<26670, 28659>>,
    <<29839, 33518>>, <<30885, 25455>>, <<33992, 30740>>, <<36039, 520>>,
    <<37054, 65530>>, <<42064, 27883>>, <<48889, 41975>>, <<50801, 30962>>>>
H0 == <<
    <<27145, 58983>>, <<47975, 44677>>, <<15470, 62322>>, <<42319, 62778>>,
    <<20750, 21119>>, <<39685, 26764>>, <<8067, 55723>>, <<23520, 52505>>>>

Sigma0(x) == Xor3(RotR(x, 2), RotR(x, 13), RotR(x, 22))
Sigma1(x) == Xor3(RotR(x, 6), RotR(x, 11), RotR(x, 25))
sigma0(x) == Xor3(RotR(x, 7), RotR(x, 18), ShR(x, 3))
sigma1(x) == Xor3(RotR(x, 17), RotR(x, 19), ShR(x, 10))
Ch(x, y, z) == Xor2(And2(x, y), And2(Neg(x), z))
Maj(x, y, z) == Xor3(And2(x, y), And2(x, z), And2(y, z))

LOCAL R16 == [i \in 1 .. 48 |-> 16 + i]
LOCAL R64 == [i \in 1 .. 64 |-> i]

\* message schedule of the block at b[i .. i+63]
Schedule(b, i) ==
  FoldLeft(LAMBDA w, t : Append(w, Add4(sigma1(w[t - 2]), w[t - 7], sigma0(w[t - 15]), w[t - 16])),
           [j \in 1 .. 16 |-> BigWord(b, i + 4 * (j - 1))], R16)

Round(s, kt, wt) ==
  LET t1 == Add5(s[8], Sigma1(s[5]), Ch(s[5], s[6], s[7]), kt, wt)
      t2 == Add(Sigma0(s[1]), Maj(s[1], s[2], s[3])) IN
  <<Add(t1, t2), s[1], s[2], s[3], Add(s[4], t1), s[5], s[6], s[7]>>

Compress(h, b, i) ==
  LET w == Schedule(b, i)
      s == FoldLeft(LAMBDA v, t : Round(v, K[t], w[t]), h, R64) IN
  [j \in 1 .. 8 |-> Add(h[j], s[j])]

\* the message, a 1 bit, zeros up to 8 bytes before a block boundary, and the
\* length in bits; messages here are shorter than 2^27 bytes
Padded(m) ==
  LET n == Len(m) IN
  m \o <<128>> \o Zeros((119 - (n % 64)) % 64) \o Zeros(4) \o
  <<n \div 2097152, (n \div 8192) % 256, (n \div 32) % 256, (n * 8) % 256>>

Hash(m) ==
  LET p == Padded(m)
      h == FoldLeft(LAMBDA v, j : Compress(v, p, 64 * (j - 1) + 1), H0, [j \in 1 .. Len(p) \div 64 |-> j]) IN
  FoldLeft(LAMBDA out, x : out \o BigBytes(x), <<>>, h)

Hmac(key, m) ==
  LET k == IF Len(key) > 64 THEN Hash(key) ELSE key
      k0 == k \o Zeros(64 - Len(k))
      Pad(c) == [i \in 1 .. 64 |-> k0[i] ^^ c] IN
  Hash(Pad(92) \o Hash(Pad(54) \o m))

\* the first n bytes of HMAC(secret, A(1) + seed) + HMAC(secret, A(2) + seed) + ...
\* where A(0) = seed, A(i) = HMAC(secret, A(i-1))
PStream(secret, seed, n) ==
  LET blocks == (n + 31) \div 32
      r == FoldLeft(LAMBDA v, j : LET a == Hmac(secret, v.a) IN [a |-> a, out |-> v.out \o Hmac(secret, a \o seed)],
                    [a |-> seed, out |-> <<>>], [j \in 1 .. blocks |-> j]) IN
  SubSeq(r.out, 1, n)
=============================================================================
