------------------------------- MODULE Words --------------------------------
(***************************************************************************)
(* 32-bit words as pairs <<high 16 bits, low 16 bits>>, since TLC's        *)
(* integers are 31 bits wide.                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, Bitwise

LOCAL T == 65536
P2 == <<2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768>>

\* sums modulo 2^32
Add(a, b) == LET l == a[2] + b[2] IN <<(a[1] + b[1] + (l \div T)) % T, l % T>>
Add4(a, b, c, d) ==
  LET l == a[2] + b[2] + c[2] + d[2] IN <<(a[1] + b[1] + c[1] + d[1] + (l \div T)) % T, l % T>>
Add5(a, b, c, d, e) ==
  LET l == a[2] + b[2] + c[2] + d[2] + e[2] IN
  <<(a[1] + b[1] + c[1] + d[1] + e[1] + (l \div T)) % T, l % T>>

Xor2(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2]>>
Xor3(a, b, c) == <<(a[1] ^^ b[1]) ^^ c[1], (a[2] ^^ b[2]) ^^ c[2]>>
And2(a, b) == <<a[1] & b[1], a[2] & b[2]>>
Neg(a) == <<65535 - a[1], 65535 - a[2]>>

\* rotation and shift to the right
RotR(a, n) ==
  IF n = 16 THEN <<a[2], a[1]>>
  ELSE IF n > 16
  THEN LET p == P2[n - 16] q == P2[32 - n] IN
       <<(a[2] \div p) + (a[1] % p) * q, (a[1] \div p) + (a[2] % p) * q>>
  ELSE LET p == P2[n] q == P2[16 - n] IN
       <<(a[1] \div p) + (a[2] % p) * q, (a[2] \div p) + (a[1] % p) * q>>
RotL(a, n) == RotR(a, 32 - n)
ShR(a, n) == LET p == P2[n] q == P2[16 - n] IN <<a[1] \div p, (a[2] \div p) + (a[1] % p) * q>>

\* from and to bytes
BigWord(b, i) == <<b[i] * 256 + b[i + 1], b[i + 2] * 256 + b[i + 3]>>
LittleWord(b, i) == <<b[i + 3] * 256 + b[i + 2], b[i + 1] * 256 + b[i]>>
BigBytes(w) == <<w[1] \div 256, w[1] % 256, w[2] \div 256, w[2] % 256>>
LittleBytes(w) == <<w[2] % 256, w[2] \div 256, w[1] % 256, w[1] \div 256>>

Zeros(n) == [i \in 1 .. n |-> 0]
=============================================================================
