----------------------------- MODULE LeakJudge -----------------------------
(* Blind of Leak.tla on recordings of the real code.  OBS: a line for each run
     pub   operation and public inputs     res   what the run answered
     pc    the basic blocks run, in order  mem   the addresses used, in order
   (the latter two as hashes, with their numbers).  Runs with equal pub and
   res must have equal pc and mem: what the secret was cannot be seen.
   A ciphertext that is refused costs what one that is accepted does: it has
   been authenticated and deciphered as a whole (Even; n accesses, size octets;
   64 of them, and a 16th of what the size makes, are left to how the answer
   is made).                                                                 *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Obs == ndJsonDeserialize(IOEnv.OBS)

VARIABLES at, seen
vars == <<at, seen>>
view == at

Init == at = 1 /\ seen = <<>>

Key(o) == o.pub \o " " \o o.res
View(o) == <<o.pc, o.mem>>

\* the first run of its kind is what the others are held against
Run ==
  /\ at <= Len(Obs)
  /\ LET o == Obs[at] IN
     /\ IF Key(o) \in DOMAIN seen
        THEN /\ seen' = seen
             /\ IF View(Obs[seen[Key(o)]]) = View(o) THEN TRUE
                ELSE PrintT("BAD " \o ToJson([at |-> at, like |-> seen[Key(o)],
                       what |-> IF Obs[seen[Key(o)]].pc # o.pc THEN "other steps" ELSE "other addresses"]))
        ELSE seen' = seen @@ (Key(o) :> at)
  /\ at' = at + 1

Opened(res) == {seen[k] : k \in {x \in DOMAIN seen : Obs[seen[x]].op = "open" /\ Obs[seen[x]].res = res}}
Abs(x) == IF x < 0 THEN -x ELSE x
Even(a, b, z) == Abs(Obs[a].n - Obs[b].n) <= 64 + (Obs[a].n - Obs[z].n) \div 16

End ==
  /\ at = Len(Obs) + 1
  /\ \A a \in Opened("1"), b \in Opened("0") :
        IF Obs[a].pub = Obs[b].pub /\ ~Even(a, b, CHOOSE z \in Opened("1") : Obs[z].size = 0)
        THEN PrintT("BAD " \o ToJson([at |-> b, like |-> a, what |-> "other time to refuse"]))
        ELSE TRUE
  /\ at' = at + 1 /\ UNCHANGED seen

Next == Run \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
