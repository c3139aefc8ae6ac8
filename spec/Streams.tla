------------------------------ MODULE Streams -------------------------------
(***************************************************************************)
(* Objects that hand out a stream in pieces (C17, C19).                    *)
(*                                                                         *)
(* prf:    a request of n bytes gives the next n bytes.                    *)
(* chacha: next gives the next block of 64 bytes; encrypting n bytes uses  *)
(*         the next n bytes and drops the rest of the last block, so that  *)
(*         each call starts at a block.                                    *)
(*                                                                         *)
(* The streams themselves are PStream of Sha256.tla and Keystream of       *)
(* ChaCha20.tla.                                                           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json

CONSTANTS Kind, Sizes, MaxOps

VARIABLES pos, hist
vars == <<pos, hist>>
View == hist

Init == pos = 0 /\ hist = <<>>

Take(op, n, used) == /\ Len(hist) < MaxOps
                     /\ pos' = pos + used
                     /\ hist' = Append(hist, [op |-> op, n |-> n, from |-> pos])

Request(n) == Kind = "prf" /\ Take("get", n, n)
Block      == Kind = "chacha" /\ Take("next", 64, 64)
Encrypt(n) == Kind = "chacha" /\ Take("enc", n, 64 * ((n + 63) \div 64))

Next == Block \/ \E n \in Sizes : Request(n) \/ Encrypt(n)
Spec == Init /\ [][Next]_vars

\* C17: the pieces follow each other without gap or overlap
Consecutive ==
  Kind = "prf" => \A i \in 1 .. Len(hist) :
    hist[i].from = IF i = 1 THEN 0 ELSE hist[i-1].from + hist[i-1].n
\* C19: every call starts at a block no earlier call has touched
FreshBlocks ==
  Kind = "chacha" => \A i \in 1 .. Len(hist) :
    /\ hist[i].from % 64 = 0
    /\ \A j \in 1 .. i - 1 : hist[j].n > 0 => hist[i].from >= hist[j].from + hist[j].n

PrintTest == PrintT("TEST " \o ToJson([ops |-> hist', end |-> pos']))
=============================================================================
