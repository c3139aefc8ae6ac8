------------------------------- MODULE Codec --------------------------------
(***************************************************************************)
(* The presentation language of the handshake messages (C15, C16): a       *)
(* grammar, the encoding of its values, and the decoder's verdict on any   *)
(* byte string.                                                            *)
(*                                                                         *)
(* CodecGen.tla builds messages from it; CodecJudge.tla judges what the    *)
(* implementation's decoder did with byte strings.                         *)
(*                                                                         *)
(* Encodings are sequences of runs <<byte, count>>, so that messages of    *)
(* 2^24 bytes stay small.                                                  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

----------------------------------------------------------------------------
\* The grammar

Enum(n, vs)      == [k |-> "enum", n |-> n, vs |-> vs]
Fix(n)           == [k |-> "fix", n |-> n]                    \* opaque, n bytes
Vec(p, lo, hi, T) == [k |-> "vec", p |-> p, lo |-> lo, hi |-> hi, of |-> T]  \* p bytes of length
Opaque(p, lo, hi) == [k |-> "opaque", p |-> p, lo |-> lo, hi |-> hi]
Struct(fs)       == [k |-> "struct", fs |-> fs]
Suite            == [k |-> "suite"]
Ext              == [k |-> "ext"]
Opt(T)           == [k |-> "opt", of |-> T]                   \* present iff bytes are left
Rest             == [k |-> "rest"]                            \* all bytes left

Byte      == Enum(1, 0..255)
Curves    == (1..25) \cup {65281, 65282}
Curve     == Enum(2, Curves)
Format    == Enum(1, 0..2)
Pair      == Struct(<<Enum(1, 0..6), Enum(1, 0..3)>>)          \* hash, signature
CurveList == Vec(2, 1, 65535, Curve)
FormatList == Vec(1, 1, 255, Format)
PairList  == Vec(2, 2, 65534, Pair)
Exts      == Vec(2, 0, 65535, Ext)
Version   == Struct(<<Byte, Byte>>)
Random    == Fix(32)
Sid       == Opaque(1, 0, 32)
Comp      == Enum(1, 0..1)
Name      == Opaque(2, 1, 65535)
EcData    == Opaque(1, 1, 255)

KnownSuite == <<204, 168>>

\* bodies of the handshake messages
Bodies ==
  (0  :> Struct(<<>>)) @@
  (1  :> Struct(<<Version, Random, Sid, Vec(2, 2, 65534, Suite), Vec(1, 1, 255, Comp), Opt(Exts)>>)) @@
  (2  :> Struct(<<Version, Random, Sid, Suite, Comp, Opt(Exts)>>)) @@
  (11 :> Vec(3, 0, 16777215, Opaque(3, 1, 16777215))) @@
  (12 :> Rest) @@
  (13 :> Struct(<<Vec(1, 1, 255, Enum(1, {1, 2, 3, 4, 5, 6, 20})), PairList, Vec(2, 0, 65535, Name)>>)) @@
  (14 :> Struct(<<>>)) @@
  (16 :> Rest) @@
  (20 :> Fix(12))

ExtBody == (10 :> CurveList) @@ (11 :> FormatList) @@ (13 :> PairList)

\* ServerKeyExchange of ECDHE: curve type 3, named curve, point, signature
Ske == Struct(<<Enum(1, {3}), Curve, EcData, Pair, Opaque(2, 0, 65535)>>)
Explicit == Struct(<<EcData, EcData>>)   \* EcCurve, not part of any message

Big(n, p) == IF p = 1 THEN <<n>> ELSE IF p = 2 THEN <<n \div 256, n % 256>>
             ELSE <<n \div 65536, (n \div 256) % 256, n % 256>>

----------------------------------------------------------------------------
\* Decoding.  Dec(T, b, i, e): T is read from b[i .. e-1]; the result is the
\* position after it, or 0 if there is no T.

Num(b, i, p) == IF p = 1 THEN b[i] ELSE IF p = 2 THEN b[i] * 256 + b[i+1]
                ELSE b[i] * 65536 + b[i+1] * 256 + b[i+2]

RECURSIVE Dec(_, _, _, _), DecItems(_, _, _, _), DecFields(_, _, _, _, _)

DecVec(T, b, i, e) ==
  IF i + T.p > e THEN 0 ELSE
  LET n == Num(b, i, T.p) s == i + T.p t == s + n IN
  IF t > e \/ n < T.lo \/ n > T.hi THEN 0
  ELSE IF T.k = "opaque" THEN t
  ELSE IF DecItems(T.of, b, s, t) THEN t ELSE 0

DecItems(T, b, i, e) ==
  IF i = e THEN TRUE
  ELSE LET j == Dec(T, b, i, e) IN j # 0 /\ DecItems(T, b, j, e)

DecFields(fs, f, b, i, e) ==
  IF f > Len(fs) THEN i
  ELSE LET j == Dec(fs[f], b, i, e) IN IF j = 0 THEN 0 ELSE DecFields(fs, f + 1, b, j, e)

Dec(T, b, i, e) ==
  CASE T.k = "enum"   -> IF i + T.n > e \/ Num(b, i, T.n) \notin T.vs THEN 0 ELSE i + T.n
    [] T.k = "suite"  -> IF i + 2 > e THEN 0 ELSE i + 2
    [] T.k = "fix"    -> IF i + T.n > e THEN 0 ELSE i + T.n
    [] T.k = "rest"   -> e
    [] T.k = "struct" -> DecFields(T.fs, 1, b, i, e)
    [] T.k \in {"vec", "opaque"} -> DecVec(T, b, i, e)
    [] T.k = "opt"    -> IF i = e THEN i ELSE IF Dec(T.of, b, i, e) = e THEN e ELSE 0
    [] T.k = "ext"    ->
         IF i + 4 > e THEN 0 ELSE
         LET t == Num(b, i, 2) n == Num(b, i + 2, 2) s == i + 4 IN
         IF s + n > e THEN 0
         ELSE IF t \notin DOMAIN ExtBody THEN s + n
         ELSE IF Dec(ExtBody[t], b, s, s + n) = s + n THEN s + n ELSE 0

Whole(T, b) == Dec(T, b, 1, Len(b) + 1) = Len(b) + 1

Message(b) ==
  /\ Len(b) >= 4
  /\ Num(b, 2, 3) = Len(b) - 4
  /\ b[1] \in DOMAIN Bodies
  /\ Dec(Bodies[b[1]], b, 5, Len(b) + 1) = Len(b) + 1

\* the reassembly buffer holding b: waits, or yields the first message
Buffered(b) ==
  IF Len(b) < 4 THEN "wait"
  ELSE IF Num(b, 2, 3) + 4 > Len(b) THEN "wait"
  ELSE IF Message(SubSeq(b, 1, Num(b, 2, 3) + 4)) THEN "message" ELSE "error"

----------------------------------------------------------------------------
\* Values and their encoding.  A value of a
\*   enum is a number, suite a pair of bytes,
\*   fix, opaque or rest a sequence of runs of bytes,
\*   vec a sequence of runs <<item, count>>,
\*   struct a tuple, opt a sequence of at most one value, ext <<type, body>>.

RECURSIVE Sum(_), Size(_, _), Built(_, _), Fits(_, _), Enc(_, _), Cat(_)

Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Cat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Cat(Tail(s))
RunLen(v) == Sum([i \in DOMAIN v |-> v[i][2]])
Ones(s) == [i \in DOMAIN s |-> <<s[i], 1>>]

BodyOf(v) == IF v[1] \in DOMAIN ExtBody THEN ExtBody[v[1]] ELSE Rest

Content(T, v) == IF T.k = "opaque" THEN RunLen(v) ELSE Sum([i \in DOMAIN v |-> v[i][2] * Size(T.of, v[i][1])])

Size(T, v) ==
  CASE T.k = "enum"   -> T.n
    [] T.k = "suite"  -> 2
    [] T.k \in {"fix", "rest"} -> RunLen(v)
    [] T.k = "struct" -> Sum([i \in DOMAIN v |-> Size(T.fs[i], v[i])])
    [] T.k \in {"vec", "opaque"} -> T.p + Content(T, v)
    [] T.k = "opt"    -> Sum([i \in DOMAIN v |-> Size(T.of, v[i])])
    [] T.k = "ext"    -> 4 + Size(BodyOf(v), v[2])

\* every constructor succeeds
Built(T, v) ==
  CASE T.k \in {"enum", "suite", "rest"} -> TRUE
    [] T.k = "fix"    -> RunLen(v) = T.n
    [] T.k = "struct" -> \A i \in DOMAIN v : Built(T.fs[i], v[i])
    [] T.k = "opaque" -> RunLen(v) \in T.lo .. T.hi
    [] T.k = "vec"    -> (\A i \in DOMAIN v : Built(T.of, v[i][1])) /\ Content(T, v) \in T.lo .. T.hi
    [] T.k = "opt"    -> \A i \in DOMAIN v : Built(T.of, v[i])
    [] T.k = "ext"    -> Built(BodyOf(v), v[2])

\* every part fits its length field and has a number
Fits(T, v) ==
  CASE T.k \in {"enum", "fix", "opaque", "rest"} -> TRUE
    [] T.k = "suite"  -> v = KnownSuite
    [] T.k = "struct" -> \A i \in DOMAIN v : Fits(T.fs[i], v[i])
    [] T.k = "vec"    -> \A i \in DOMAIN v : Fits(T.of, v[i][1])
    [] T.k = "opt"    -> \A i \in DOMAIN v : Fits(T.of, v[i])
    [] T.k = "ext"    -> Size(BodyOf(v), v[2]) < 65536 /\ Fits(BodyOf(v), v[2])

\* every length can be written, though it may be outside the bounds of its
\* vector: such an encoding has to be rejected
Pow256(p) == IF p = 1 THEN 256 ELSE IF p = 2 THEN 65536 ELSE 16777216
RECURSIVE Writable(_, _)
Writable(T, v) ==
  CASE T.k \in {"enum", "suite", "fix", "rest"} -> TRUE
    [] T.k = "struct" -> \A i \in DOMAIN v : Writable(T.fs[i], v[i])
    [] T.k = "opaque" -> RunLen(v) < Pow256(T.p)
    [] T.k = "vec"    -> (\A i \in DOMAIN v : Writable(T.of, v[i][1])) /\ Content(T, v) < Pow256(T.p)
    [] T.k = "opt"    -> \A i \in DOMAIN v : Writable(T.of, v[i])
    [] T.k = "ext"    -> Size(BodyOf(v), v[2]) < 65536 /\ Writable(BodyOf(v), v[2])

\* items repeated are one run <<encoding of the item, count, "items">>; the
\* harness expands them
Enc(T, v) ==
  CASE T.k = "enum"   -> Ones(Big(v, T.n))
    [] T.k = "suite"  -> Ones(v)
    [] T.k \in {"fix", "rest"} -> v
    [] T.k = "struct" -> Cat([i \in DOMAIN v |-> Enc(T.fs[i], v[i])])
    [] T.k = "opaque" -> Ones(Big(RunLen(v), T.p)) \o v
    [] T.k = "vec"    -> Ones(Big(Content(T, v), T.p)) \o
                         Cat([i \in DOMAIN v |-> IF v[i][2] = 1 THEN Enc(T.of, v[i][1])
                                                ELSE << <<Enc(T.of, v[i][1]), v[i][2], "items">> >>])
    [] T.k = "opt"    -> Cat([i \in DOMAIN v |-> Enc(T.of, v[i])])
    [] T.k = "ext"    -> Ones(Big(v[1], 2)) \o Ones(Big(Size(BodyOf(v), v[2]), 2)) \o Enc(BodyOf(v), v[2])

\* Top-level things: messages 0..20, 100: ServerKeyExchange parameters,
\* 101: one extension, 102: EcCurve
Top == DOMAIN Bodies \cup {100, 101, 102}
TypeOf(ty) == CASE ty \in DOMAIN Bodies -> Bodies[ty] [] ty = 100 -> Ske [] ty = 101 -> Ext [] ty = 102 -> Explicit
Extra(ty) == IF ty \in DOMAIN Bodies THEN 4 ELSE 0
TopFits(ty, v) == Fits(TypeOf(ty), v) /\ (ty \in DOMAIN Bodies => Size(TypeOf(ty), v) < 16777216)
TopWritable(ty, v) == Writable(TypeOf(ty), v) /\ (ty \in DOMAIN Bodies => Size(TypeOf(ty), v) < 16777216)
TopEnc(ty, v) == (IF ty \in DOMAIN Bodies THEN Ones(<<ty>>) \o Ones(Big(Size(TypeOf(ty), v), 3)) ELSE <<>>) \o Enc(TypeOf(ty), v)

----------------------------------------------------------------------------
\* Interesting values, the first being the default

R(b, n) == IF n = 0 THEN <<>> ELSE << <<b, n>> >>
P(n, s) == [i \in 1..n |-> <<(s * 67 + i * 37) % 256, 1>>]
Sizes(ns, s) == [i \in DOMAIN ns |-> IF ns[i] <= 70 THEN P(ns[i], s + i) ELSE P(5, s + i) \o R(s + i, ns[i] - 6) \o P(1, s + 77)]
Item(v) == << <<v, 1>> >>
Items(s) == [i \in DOMAIN s |-> <<s[i], 1>>]

Versions == << <<3, 3>>, <<0, 255>>, <<254, 1>>, <<3, 1>> >>
Randoms  == Sizes(<<32, 31, 33, 0, 64, 32>>, 3) \o << R(0, 32), R(255, 32) >>
Sids     == Sizes(<<0, 1, 31, 32, 33, 255, 256, 288>>, 5)
SuitesV  == << Item(KnownSuite), <<>>, << <<KnownSuite, 2>> >>, << <<KnownSuite, 32767>> >>, << <<KnownSuite, 32768>> >>,
               << <<KnownSuite, 65537>> >>, << <<KnownSuite, 127>> >>, << <<KnownSuite, 128>> >>, Item(<<0, 255>>),
               Items(<<KnownSuite, <<204, 169>>, KnownSuite>>) >>
CompsV   == << Item(0), <<>>, Item(1), Items(<<1, 0>>), Items(<<0, 1, 1>>), << <<0, 255>> >>, << <<1, 256>> >>, << <<0, 1>>, <<1, 254>> >> >>
CurvesV  == << Item(23), <<>>, Items([i \in 1..27 |-> IF i <= 25 THEN i ELSE 65255 + i]), Items(<<24, 23, 25>>), << <<23, 127>> >>, << <<23, 128>> >>,
               << <<65281, 32766>> >>, << <<23, 32767>> >>, << <<23, 32768>> >> >>
FormatsV == << Item(0), <<>>, Items(<<2, 1, 0>>), << <<0, 254>> >>, << <<0, 255>> >>, << <<1, 256>> >> >>
AllPairs == [i \in 1..28 |-> <<(i - 1) \div 4, (i - 1) % 4>>]
PairsV   == << Item(<<4, 1>>), <<>>, Items(AllPairs), << << <<6, 3>>, 127>> >>, << << <<2, 1>>, 128>> >>, << << <<0, 0>>, 32766>> >>,
               << << <<5, 3>>, 32767>> >>, << << <<5, 3>>, 32768>> >> >>
UnknownV == Sizes(<<0, 1, 2, 255, 256, 65535, 65536>>, 9)
ExtsOf ==
  [i \in DOMAIN CurvesV |-> <<10, CurvesV[i]>>] \o [i \in DOMAIN FormatsV |-> <<11, FormatsV[i]>>] \o
  [i \in DOMAIN PairsV |-> <<13, PairsV[i]>>] \o [i \in DOMAIN UnknownV |-> <<35, UnknownV[i]>>] \o
  << <<0, P(3, 1)>>, <<12, P(4, 2)>>, <<65281, P(1, 4)>>, <<9, <<>>>>, <<14, P(7, 5)>>, <<2560, P(2, 5)>>, <<65535, <<>>>> >>
OptExts ==
  << <<>>, << <<>> >> >> \o [i \in DOMAIN ExtsOf |-> << Item(ExtsOf[i]) >>] \o
  << << Items(<< <<10, Item(23)>>, <<11, Item(0)>>, <<13, Item(<<4, 1>>)>>, <<23, <<>>>> >>) >>,
     << Items(<< <<23, <<>>>>, <<11, Items(<<0, 1>>)>>, <<23, P(3, 9)>> >>) >>,
     << << << <<0, <<>>>>, 63>> >> >>, << << << <<0, <<>>>>, 64>> >> >>,
     << Item(<<1, Sizes(<<65531>>, 1)[1]>>) >>, << Item(<<1, Sizes(<<65532>>, 1)[1]>>) >>,
     << << << <<7, <<>>>>, 16383>> >> >>, << << << <<7, <<>>>>, 16384>> >> >> >>
CertsV ==
  << Item(P(9, 1)), <<>>, Item(<<>>), Items(<<P(1, 2), P(2, 3), P(3, 4)>>), Items(<<P(3, 4), <<>>, P(1, 1)>>) >> \o
  [i \in 1..6 |-> Item(Sizes(<<252, 253, 255, 256, 65535, 65536>>, 2)[i])] \o
  << << <<P(1, 1), 300>> >>, Item(R(7, 16777209)), Item(R(7, 16777210)), Item(R(7, 16777212)), Item(R(7, 16777213)),
     Item(R(7, 16777216)), << <<R(9, 65536), 254>>, <<R(1, 64760), 1>> >> >>
TypesV == << Item(1), <<>>, Items(<<20, 6, 5, 4, 3, 2, 1>>), << <<2, 254>> >>, << <<3, 255>> >>, << <<20, 256>> >> >>
NamesV ==
  << <<>>, Item(P(1, 1)), Item(<<>>), Items(<<P(3, 2), P(1, 1)>>), Item(Sizes(<<255>>, 3)[1]), Item(Sizes(<<256>>, 3)[1]),
     Item(Sizes(<<65533>>, 3)[1]), Item(Sizes(<<65534>>, 3)[1]), Item(Sizes(<<65535>>, 3)[1]), Item(Sizes(<<65536>>, 3)[1]),
     << <<P(1, 7), 21845>> >>, << <<P(1, 7), 21846>> >> >>
RestV == Sizes(<<5, 0, 1, 65, 66, 67, 255, 256, 65535, 65536, 16777215, 16777216>>, 4)
FinV  == Sizes(<<12, 11, 13, 0, 32, 12>>, 6)
CurveV == <<23, 1>> \o [i \in 1..21 |-> i + 1] \o <<24, 25, 65281, 65282>>
\* the base point of P-256, uncompressed
BasePoint ==
  <<4, 107, 23, 209, 242, 225, 44, 66, 71, 248, 188, 230, 229, 99, 164, 64,
    242, 119, 3, 125, 129, 45, 235, 51, 160, 244, 161, 57, 69, 216, 152, 194,
    150, 79, 227, 66, 226, 254, 26, 127, 155, 142, 231, 235, 74, 124, 15, 158,
    22, 43, 206, 51, 87, 107, 49, 94, 206, 203, 182, 64, 104, 55, 191, 81,
    245>>
PointsV == <<Ones(BasePoint)>> \o Sizes(<<65, 0, 1, 64, 66, 254, 255, 256, 511>>, 8)
SigsV == Sizes(<<70, 0, 1, 255, 256, 65535, 65536>>, 2)

\* the choices for each part of a top-level thing
Choices ==
  (0 :> <<>>) @@ (14 :> <<>>) @@
  (1 :> <<Versions, Randoms, Sids, SuitesV, CompsV, OptExts>>) @@
  (2 :> <<Versions, Randoms, Sids, <<KnownSuite, <<0, 0>>, <<204, 20>>, <<168, 204>>>>, <<0, 1>>, OptExts>>) @@
  (11 :> <<CertsV>>) @@ (12 :> <<RestV>>) @@ (16 :> <<RestV>>) @@ (20 :> <<FinV>>) @@
  (13 :> <<TypesV, PairsV, NamesV>>) @@
  (100 :> << <<3>>, CurveV, PointsV, AllPairs, SigsV>>) @@
  (101 :> <<ExtsOf>>) @@
  (102 :> <<PointsV, PointsV>>)
=============================================================================
