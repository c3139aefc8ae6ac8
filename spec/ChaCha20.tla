------------------------------ MODULE ChaCha20 ------------------------------
(***************************************************************************)
(* The ChaCha20 block function and keystream (RFC 8439, section 2.3, 2.4). *)
(***************************************************************************)
EXTENDS Words

Constants == <<  <<24944, 30821>>, <<13088, 25710>>, <<31074, 11570>>, <<27424, 25972>> >>   \* "expand 32-byte k"
ASSUME \A i \in 1 .. 4 : LittleWord(<<101, 120, 112, 97, 110, 100, 32, 51, 50, 45, 98, 121, 116, 101, 32, 107>>, 4 * i - 3) = Constants[i]

State(key, counter, nonce) ==
  Constants \o [i \in 1 .. 8 |-> LittleWord(key, 4 * (i - 1) + 1)] \o
  << <<counter \div 65536, counter % 65536>> >> \o [i \in 1 .. 3 |-> LittleWord(nonce, 4 * (i - 1) + 1)]

\* the quarter round on the words at positions p = <<a, b, c, d>> (from 0)
Quarter(s, p) ==
  LET a0 == s[p[1] + 1] b0 == s[p[2] + 1] c0 == s[p[3] + 1] d0 == s[p[4] + 1]
      a1 == Add(a0, b0)  d1 == RotL(Xor2(d0, a1), 16)
      c1 == Add(c0, d1)  b1 == RotL(Xor2(b0, c1), 12)
      a2 == Add(a1, b1)  d2 == RotL(Xor2(d1, a2), 8)
      c2 == Add(c1, d2)  b2 == RotL(Xor2(b1, c2), 7) IN
  [s EXCEPT ![p[1] + 1] = a2, ![p[2] + 1] = b2, ![p[3] + 1] = c2, ![p[4] + 1] = d2]

DoubleRound ==
  << <<0, 4, 8, 12>>, <<1, 5, 9, 13>>, <<2, 6, 10, 14>>, <<3, 7, 11, 15>>,
     <<0, 5, 10, 15>>, <<1, 6, 11, 12>>, <<2, 7, 8, 13>>, <<3, 4, 9, 14>> >>
LOCAL AllRounds == FoldLeft(LAMBDA r, i : r \o DoubleRound, <<>>, [i \in 1 .. 10 |-> i])

Block(key, counter, nonce) ==
  LET s == State(key, counter, nonce)
      w == FoldLeft(Quarter, s, AllRounds) IN
  FoldLeft(LAMBDA out, i : out \o LittleBytes(Add(s[i], w[i])), <<>>, [i \in 1 .. 16 |-> i])

\* n bytes of keystream, the first block having the given counter
Keystream(key, counter, nonce, n) ==
  SubSeq(FoldLeft(LAMBDA out, j : out \o Block(key, counter + j - 1, nonce), <<>>, [j \in 1 .. (n + 63) \div 64 |-> j]), 1, n)

XorWith(data, ks) == [i \in 1 .. Len(data) |-> data[i] ^^ ks[i]]
=============================================================================
