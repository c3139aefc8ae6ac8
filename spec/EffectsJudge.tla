---------------------------- MODULE EffectsJudge ----------------------------
(* Recordings of the real client held against Effects.tla.  OBS: a line for
   each connection
     said   the situations it went through     fx   what it used besides its
                                                    transport and memory
   Each has to be a walk of the specification, and Confined.                 *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

Obs == ndJsonDeserialize(IOEnv.OBS)

VARIABLES n, at, said, used, rogue
E == INSTANCE Effects WITH Calls <- 1000000, Rogue <- FALSE

Range(s) == {s[i] : i \in DOMAIN s}
Walk(s) == \A i \in DOMAIN s : s[i] \in E!After(IF i = 1 THEN "new" ELSE s[i - 1])

Init == n = 1 /\ E!Init
Run ==
  /\ n <= Len(Obs)
  /\ LET o == Obs[n] IN
     /\ at' = o.said[Len(o.said)]
     /\ said' = o.said
     /\ used' = Range(o.fx) \cup {"wire", "memory", "random"}
     /\ IF Walk(o.said) THEN TRUE ELSE PrintT("BAD " \o ToJson([n |-> n, what |-> "not a life"]))
     /\ IF used' \cap E!Sinks = {} THEN TRUE
        ELSE PrintT("BAD " \o ToJson([n |-> n, what |-> "uses what is not its own"]))
     /\ PrintT("PAIRS " \o ToJson({<<o.said[i - 1], o.said[i]>> : i \in 2..Len(o.said)}))
  /\ n' = n + 1
  /\ UNCHANGED rogue
End == n > Len(Obs) /\ UNCHANGED <<n, at, said, used, rogue>>
Next == Run \/ End
Spec == Init /\ [][Next]_<<n, at, said, used, rogue>>
=============================================================================
