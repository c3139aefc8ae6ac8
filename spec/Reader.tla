-------------------------------- MODULE Reader --------------------------------
(***************************************************************************)
(* The receiving side of the record layer, one record at a time: what a    *)
(* record of a given type, length and content gives.  Observed tables of   *)
(* the implementation (file OBS) are checked against it.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

MaxPlain  == 16384          \* 2^14
MaxCipher == 16384 + 2048
TagLen    == 16

AlertLevels == {1, 2}
AlertDescriptions ==
  {0, 10, 20, 21, 22, 30, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 60, 70, 71, 80,
   90, 100, 110, 111, 112, 113, 114}

Err(k)  == [r |-> "error", k |-> k]
Msg(k)  == [r |-> "message", k |-> k]

\* contents of a record: n bytes beginning with b1, b2, after mid bytes of a
\* handshake message that this record does not complete
Content(mid, t, n, b1, b2) ==
  CASE t = 20 -> IF n = 1 /\ b1 = 1 /\ mid = 0 THEN Msg("ccs") ELSE Err("UnexpectedMessage")
    [] t = 21 -> IF n >= 2 /\ b1 \in AlertLevels /\ b2 \in AlertDescriptions
                 THEN Msg("alert") ELSE Err("UnexpectedMessage")
    [] t = 22 -> IF n = 0 THEN Err("UnexpectedMessage") ELSE Msg("handshake")
    [] t = 23 -> Msg("app")

\* a record in the clear: wire is the length field
Plain(mid, t, wire, b1, b2) ==
  IF t \notin 20..23 THEN Err("UnexpectedMessage")
  ELSE IF wire > MaxCipher THEN Err("RecordOverflow")
  ELSE IF wire > MaxPlain THEN Err("RecordOverflow")
  ELSE Content(mid, t, wire, b1, b2)

\* a protected record: sealed tells that it carries wire - 16 bytes properly sealed
Secure(mid, t, wire, sealed, b1, b2) ==
  IF t \notin 20..23 THEN Err("UnexpectedMessage")
  ELSE IF wire > MaxCipher THEN Err("RecordOverflow")
  ELSE IF wire < TagLen \/ ~sealed THEN Err("BadRecordMac")
  ELSE IF wire - TagLen > MaxPlain THEN Err("RecordOverflow")
  ELSE Content(mid, t, wire - TagLen, b1, b2)

Verdict(o) == IF o.sec THEN Secure(o.mid, o.t, o.wire, o.sealed, o.b1, o.b2) ELSE Plain(o.mid, o.t, o.wire, o.b1, o.b2)

\* what the implementation gave.  A handshake record is observed through the
\* reassembly buffer: "handshake" means it was taken (the message it holds
\* came out, or the reader went on to wait for more).
Agrees(o) == o.res = Verdict(o).k

\* C09, on the specification itself
ASSUME \A t \in 0..255 : t \notin 20..23 => \A s \in BOOLEAN :
          Verdict([mid |-> 0, sec |-> s, t |-> t, wire |-> 20, sealed |-> TRUE, b1 |-> 1, b2 |-> 0]).r = "error"
ASSUME \A t \in 20..23, w \in 0..200 : Verdict([mid |-> 0, sec |-> TRUE, t |-> t, wire |-> w, sealed |-> FALSE, b1 |-> 1, b2 |-> 0]).r = "error"
ASSUME \A n \in {0, 1, 2, 16383, 16384} :
          /\ Verdict([mid |-> 0, sec |-> FALSE, t |-> 23, wire |-> n, sealed |-> FALSE, b1 |-> 0, b2 |-> 0]).k = "app"
          /\ Verdict([mid |-> 0, sec |-> TRUE, t |-> 23, wire |-> n + 16, sealed |-> TRUE, b1 |-> 0, b2 |-> 0]).k = "app"

\* a message begun changes nothing but what a ChangeCipherSpec gives
ASSUME \A t \in 0..255, n \in 0..3, s \in BOOLEAN :
          LET v(m) == Verdict([mid |-> m, sec |-> s, t |-> t, wire |-> n + (IF s THEN 16 ELSE 0), sealed |-> s, b1 |-> 1, b2 |-> 0])
          IN t # 20 => v(0) = v(5)

Obs == ndJsonDeserialize(IOEnv.OBS)

VARIABLE i
Init == i = 0
\* rows of observations; each step judges one
Next == i < Len(Obs) /\ i' = i + 1
Spec == Init /\ [][Next]_i

Row == Obs[i']
Judge ==
  LET bad == {j \in DOMAIN Row : ~Agrees(Row[j])} IN
  IF bad = {} THEN TRUE
  ELSE \A j \in bad : PrintT("BAD " \o ToJson([obs |-> Row[j], spec |-> Verdict(Row[j]).k]))
=============================================================================
