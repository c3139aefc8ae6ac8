------------------------------- MODULE Params -------------------------------
(***************************************************************************)
(* The values of the negotiated fields: which are accepted, which are      *)
(* illegal parameters, and which do not decode.  Every value of every      *)
(* field is sent to the client.                                            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

\* what ClientHello offers
OfferedVersion     == 771     \* TLS 1.2 = 3.3
OfferedCipherSuite == 52392   \* 0xcca8 ECDHE-RSA-CHACHA20-POLY1305-SHA256
OfferedCompression == 0
OfferedCurve       == 23      \* secp256r1

\* enumerations of the presentation language
CompressionMethods == {0, 1}
NamedCurves        == 1..25 \union {65281, 65282}
CurveTypes         == {3}     \* named_curve; explicit curves are not decodable here

Field(name, msg, hi, accept, illegal, undec, undecElse) ==
  [name |-> name, msg |-> msg, lo |-> 0, hi |-> hi, accept |-> accept,
   illegal |-> illegal, undec |-> undec, undecElse |-> undecElse]

Fields == {
  Field("sh_ver",   "sh",  65535, {OfferedVersion}, {}, {}, FALSE),
  Field("sh_cs",    "sh",  65535, {OfferedCipherSuite}, {}, {}, FALSE),
  Field("sh_comp",  "sh",  255, {OfferedCompression}, CompressionMethods \ {OfferedCompression}, {}, TRUE),
  \* session ids of up to 32 bytes are accepted, longer ones do not decode
  Field("sh_sid",   "sh",  255, 0..32, {}, {}, TRUE),
  Field("ske_ctype", "ske", 255, CurveTypes, {}, {}, TRUE),
  Field("ske_curve", "ske", 65535, {OfferedCurve}, NamedCurves \ {OfferedCurve}, {}, TRUE),
  \* first byte of the 65-byte point: 4 is the uncompressed form
  Field("ske_fmt",  "ske", 255, {4}, 0..255 \ {4}, {}, TRUE),
  \* length of the point: 1..255 decode, only 65 is acceptable
  Field("ske_len",  "ske", 255, {65}, 1..255 \ {65}, {0}, FALSE) }

\* no value is in two classes
ASSUME \A f \in Fields : f.accept \intersect f.illegal = {} /\ f.accept \intersect f.undec = {}

VARIABLE todo
Init == todo = Fields
Next == \E f \in todo : todo' = todo \ {f}
Spec == Init /\ [][Next]_todo
PrintField == IF todo = Fields THEN PrintT("FIELD " \o ToJson(CHOOSE f \in todo : f \notin todo')) ELSE TRUE
=============================================================================
