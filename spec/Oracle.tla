------------------------------- MODULE Oracle -------------------------------
(***************************************************************************)
(* Evaluates the specifications of the primitives on given inputs: rows    *)
(* [k |-> kind, ...] of the file named by REQ.  The answers are what the   *)
(* implementation must give (C17 to C20).                                  *)
(***************************************************************************)
EXTENDS Sha256, Aead, TLC, Json, IOUtils

Answer(q) ==
  CASE q.k = "sha"    -> [b |-> Hash(q.m)]
    [] q.k = "hmac"   -> [b |-> Hmac(q.key, q.m)]
    [] q.k = "prf"    -> [b |-> PStream(q.key, q.m, q.n)]
    [] q.k = "stream" -> [b |-> Keystream(q.key, 0, q.nonce, q.n)]
    [] q.k = "poly"   -> [b |-> Tag(q.r, q.s, q.m)]
    [] q.k = "seal"   -> [b |-> Seal(q.key, q.nonce, q.ad, q.m)]
    [] q.k = "open"   -> LET o == Open(q.key, q.nonce, q.ad, q.m) IN [ok |-> o.ok, b |-> o.pt]

Reqs == ndJsonDeserialize(IOEnv.REQ)
Lanes == 8
VARIABLE row
Init == row \in 1 .. Lanes
Next == row + Lanes <= Len(Reqs) /\ row' = row + Lanes
Spec == Init /\ [][Next]_row
Answered == IF row > Len(Reqs) THEN TRUE ELSE PrintT("ANS " \o ToJson([i |-> row, a |-> Answer(Reqs[row])]))
=============================================================================
