------------------------------ MODULE Transport ------------------------------
(***************************************************************************)
(* The byte transport under the record layer, one direction.  A stream of  *)
(* records (5 bytes of header, then the fragment) crosses it in pieces cut *)
(* anywhere, with interrupted calls between them, until it ends or fails   *)
(* at some byte.  The endpoint takes bytes one after the other: a record   *)
(* is there once its last byte is.                                         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json

CONSTANTS
  Sizes,    \* fragment lengths
  MaxRecs,
  Pieces,   \* lengths of pieces
  Ends,     \* subset of {"eof", "err"}: how the transport may end
  MaxSteps

VARIABLES recs, pos, end, rd, steps, hist
vars == <<recs, pos, end, rd, steps, hist>>

RECURSIVE Total(_)
Total(s) == IF s = <<>> THEN 0 ELSE 5 + s[1] + Total(Tail(s))

\* the endpoint: bytes missing in the current part, what part it is, how many
\* records are complete, length of the fragment announced
RdInit == [need |-> 5, part |-> "head", done |-> 0]

\* n bytes arrive
RECURSIVE Take(_, _)
Take(r, n) ==
  IF n < r.need THEN [r EXCEPT !.need = @ - n]
  ELSE LET m == n - r.need IN
    IF r.part = "head"
    THEN LET len == recs[r.done + 1] IN
         IF len = 0
         THEN LET x == [need |-> 5, part |-> "head", done |-> r.done + 1] IN
              IF m = 0 THEN x ELSE Take(x, m)
         ELSE Take([need |-> len, part |-> "body", done |-> r.done], m)
    ELSE LET x == [need |-> 5, part |-> "head", done |-> r.done + 1] IN
         IF m = 0 THEN x ELSE Take(x, m)

Init ==
  /\ recs \in UNION {[1..k -> Sizes] : k \in 1..MaxRecs}
  /\ pos = 0 /\ end = "no" /\ rd = RdInit /\ steps = 0 /\ hist = <<>>

Log(s) == steps' = steps + 1 /\ hist' = Append(hist, s)

Piece(n) ==
  LET m == IF n > Total(recs) - pos THEN Total(recs) - pos ELSE n IN
  /\ end = "no" /\ steps < MaxSteps /\ m > 0
  /\ pos' = pos + m /\ rd' = Take(rd, m)
  /\ Log([op |-> "piece", n |-> m])
  /\ UNCHANGED <<recs, end>>

Interrupt ==
  /\ end = "no" /\ steps < MaxSteps
  /\ Log([op |-> "intr", n |-> 0])
  /\ UNCHANGED <<recs, pos, end, rd>>

End(k) ==
  /\ end = "no" /\ end' = k
  /\ Log([op |-> k, n |-> 0])
  /\ UNCHANGED <<recs, pos, rd>>

Next == (\E n \in Pieces : Piece(n)) \/ Interrupt \/ (\E k \in Ends : End(k))
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* C13: what is there depends on the bytes that arrived only
RECURSIVE Whole(_, _)
Whole(s, n) == IF s = <<>> \/ n < 5 + s[1] THEN 0 ELSE 1 + Whole(Tail(s), n - 5 - s[1])
Invisible == rd.done = Whole(recs, pos)

View == <<recs, pos, end, steps>>
PrintTest ==
  IF end' # "no" \/ pos' = Total(recs)
  THEN PrintT("TEST " \o ToJson([recs |-> recs, hist |-> hist', done |-> rd'.done, pos |-> pos', end |-> end'])) ELSE TRUE
=============================================================================
