----------------------------- MODULE Freshness -----------------------------
(* Randomness of connection attempts (C22, C23).

   Every attempt draws a client random; an attempt that gets a good server key
   draws an ephemeral key, and one that also gets ServerHelloDone sends it.
   Values are abstract: the n-th thing drawn is n.  The behaviours are the
   histories of attempts of each kind; Judge then takes what was really sent
   in those histories (environment OBS) and decides whether it is an instance
   of a behaviour: no value twice, every byte position with two values, every
   bit of the system's randomness with an effect.                            *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Kinds, MaxLen

VARIABLES hist, next, used

vars == <<hist, next, used>>

SendsKey(k) == k \in {"cut", "badfin", "ok", "nowrite"}
DrawsKey(k) == SendsKey(k) \/ k = "unsent"

Init == hist = <<>> /\ next = 0 /\ used = {}

Attempt(k) ==
  /\ Len(hist) < MaxLen
  /\ LET r == next
         key == IF DrawsKey(k) THEN next + 1 ELSE 0 IN
     /\ hist' = Append(hist, [kind |-> k, r |-> r, key |-> key])
     /\ used' = used \cup {<<"r", r>>} \cup (IF SendsKey(k) THEN {<<"k", key>>} ELSE {})
     /\ next' = IF DrawsKey(k) THEN next + 2 ELSE next + 1

Next == \E k \in Kinds : Attempt(k)
Spec == Init /\ [][Next]_vars

Fresh == /\ \A i, j \in 1..Len(hist) : i # j => hist[i].r # hist[j].r
         /\ \A i, j \in 1..Len(hist) : i # j /\ DrawsKey(hist[i].kind) /\ DrawsKey(hist[j].kind) => hist[i].key # hist[j].key

PrintTest == Len(hist') = MaxLen => PrintT("TEST " \o ToJson([kinds |-> [i \in 1..MaxLen |-> hist'[i].kind]]))
=============================================================================
