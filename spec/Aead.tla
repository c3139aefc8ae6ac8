-------------------------------- MODULE Aead --------------------------------
(***************************************************************************)
(* Poly1305 and AEAD_CHACHA20_POLY1305 (RFC 8439, sections 2.5 to 2.8).    *)
(*                                                                         *)
(* Numbers modulo 2^130 - 5 are 13 limbs of 10 bits, the lowest first: the *)
(* sum of 13 products of limbs, five times, stays below 2^31.              *)
(***************************************************************************)
EXTENDS ChaCha20

LOCAL Limb == 1024
LOCAL L13 == [i \in 1 .. 13 |-> i]

\* n bytes, the lowest first, as limbs: bit k of the number is bit k % 10 of limb k / 10
LOCAL Get(b, i) == IF i \in 1 .. Len(b) THEN b[i] ELSE 0
Limbs(b) ==
  [i \in 1 .. 13 |->
     LET bit == 10 * (i - 1) y == bit \div 8 s == bit % 8
         v == Get(b, y + 1) + 256 * Get(b, y + 2) + 65536 * Get(b, y + 3) IN
     (IF s = 0 THEN v ELSE v \div P2[s]) % Limb]

\* carries, folding what exceeds 2^130 back in times 5; three passes settle any sum
LOCAL Pass(v) ==
  LET r == FoldLeft(LAMBDA a, i : LET t == v[i] + a.c IN [c |-> t \div Limb, o |-> Append(a.o, t % Limb)],
                    [c |-> 0, o |-> <<>>], L13) IN
  [r.o EXCEPT ![1] = @ + 5 * r.c]
Settle(v) == Pass(Pass(Pass(v)))

\* the limbs of v - (2^130 - 5), if v is that large
Reduce(v) ==
  IF v[1] >= 1019 /\ \A i \in 2 .. 13 : v[i] = 1023
  THEN [i \in 1 .. 13 |-> IF i = 1 THEN v[1] - 1019 ELSE 0] ELSE v

Mul(a, b) ==
  Settle([k \in 1 .. 13 |->
    FoldLeft(LAMBDA acc, i : IF i <= k THEN acc + a[i] * b[k + 1 - i] ELSE acc + 5 * a[i] * b[k + 14 - i], 0, L13)])
AddL(a, b) == Settle([k \in 1 .. 13 |-> a[k] + b[k]])

Clamp(r) == [i \in 1 .. 16 |-> IF i \in {4, 8, 12, 16} THEN r[i] % 16 ELSE IF i \in {5, 9, 13} THEN r[i] - (r[i] % 4) ELSE r[i]]

\* tag of m under r (clamped here) and s
Tag(r, s, m) ==
  LET rl == Limbs(Clamp(r))
      blocks == (Len(m) + 15) \div 16
      h == FoldLeft(LAMBDA a, j : LET b == SubSeq(m, 16 * (j - 1) + 1, IF 16 * j < Len(m) THEN 16 * j ELSE Len(m)) IN
                                  Mul(AddL(a, Limbs(b \o <<1>>)), rl),
                    [i \in 1 .. 13 |-> 0], [j \in 1 .. blocks |-> j])
      t == Reduce(h)
      \* h + s modulo 2^128
      sl == Limbs(s)
      sum == FoldLeft(LAMBDA a, i : LET x == t[i] + sl[i] + a.c IN [c |-> x \div Limb, o |-> Append(a.o, x % Limb)],
                      [c |-> 0, o |-> <<>>], L13).o
      bitAt(k) == (sum[(k \div 10) + 1] \div (IF k % 10 = 0 THEN 1 ELSE P2[k % 10])) % 2 IN
  [i \in 1 .. 16 |-> bitAt(8*i - 8) + 2 * bitAt(8*i - 7) + 4 * bitAt(8*i - 6) + 8 * bitAt(8*i - 5)
                     + 16 * bitAt(8*i - 4) + 32 * bitAt(8*i - 3) + 64 * bitAt(8*i - 2) + 128 * bitAt(8*i - 1)]

LOCAL Pad16(b) == b \o Zeros((16 - (Len(b) % 16)) % 16)
LOCAL Len64(n) == <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, n \div 16777216, 0, 0, 0, 0>>

AeadTag(key, nonce, ad, ct) ==
  LET otk == Block(key, 0, nonce) IN
  Tag(SubSeq(otk, 1, 16), SubSeq(otk, 17, 32), Pad16(ad) \o Pad16(ct) \o Len64(Len(ad)) \o Len64(Len(ct)))

Seal(key, nonce, ad, pt) ==
  LET ct == XorWith(pt, Keystream(key, 1, nonce, Len(pt))) IN ct \o AeadTag(key, nonce, ad, ct)

Open(key, nonce, ad, sealed) ==
  IF Len(sealed) < 16 THEN [ok |-> FALSE, pt |-> <<>>]
  ELSE LET n == Len(sealed) - 16 ct == SubSeq(sealed, 1, n) IN
       IF AeadTag(key, nonce, ad, ct) # SubSeq(sealed, n + 1, n + 16) THEN [ok |-> FALSE, pt |-> <<>>]
       ELSE [ok |-> TRUE, pt |-> XorWith(ct, Keystream(key, 1, nonce, n))]
=============================================================================
