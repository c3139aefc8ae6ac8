----------------------------- MODULE CodecJudge -----------------------------
(***************************************************************************)
(* Judges what the implementation's decoder did with byte strings (C15).   *)
(***************************************************************************)
EXTENDS Codec, Integers

\* Judging observations: rows of [ty, b, res], where res is "ok", "same" (the
\* re-encoding gives the bytes back), "reerr" (re-encoding fails) or "error"

\* re-encoding may fail only where an unknown suite is named
SuitesIn(b) ==
  LET s == 5 + 2 + 32 IN
  IF Len(b) < s THEN {}
  ELSE LET a == s + 1 + b[s] IN
       IF b[1] = 2 THEN {<<b[a], b[a+1]>>}
       ELSE IF b[1] = 1 THEN {<<b[a + 2*j], b[a + 2*j + 1]>> : j \in 1 .. (Num(b, a, 2) \div 2)}
       ELSE {}
Expected(o) ==
  IF o.ty < 100
  THEN IF ~Message(o.b) THEN "error" ELSE IF SuitesIn(o.b) \subseteq {KnownSuite} THEN "same" ELSE "reerr"
  ELSE IF Whole(TypeOf(o.ty), o.b) THEN "same" ELSE "error"
\* keys: the key exchange was computed from these parameters.  It may be only
\* if they are well formed and name the offered curve; and it must be if the
\* point is the base point
KeysAgree(o) ==
  LET ok == Whole(Ske, o.b) /\ o.b[2] = 0 /\ o.b[3] = 23 IN
  /\ o.keys => ok
  /\ (ok /\ SubSeq(o.b, 5, 4 + o.b[4]) = BasePoint) => o.keys
Agrees(o) ==
  /\ o.res = Expected(o)
  /\ o.ty < 100 => o.buf = Buffered(o.b)
  /\ o.ty = 100 => KeysAgree(o)

Obs == ndJsonDeserialize(IOEnv.OBS)
Lanes == 8
VARIABLE row
\* (the initial states are not judged: their thread has a small stack)
JInit == row \in 1 - Lanes .. 0
JNext == row + Lanes <= Len(Obs) /\ row' = row + Lanes
JSpec == JInit /\ [][JNext]_row
Judge ==
  IF row < 1 THEN TRUE
  ELSE \A j \in DOMAIN Obs[row] :
    LET o == Obs[row][j] IN
    IF Agrees(o) THEN TRUE
    ELSE PrintT("BAD " \o ToJson([obs |-> o, spec |-> <<Expected(o), IF o.ty < 100 THEN Buffered(o.b) ELSE "">>]))
=============================================================================
