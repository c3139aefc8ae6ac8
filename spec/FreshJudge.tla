---------------------------- MODULE FreshJudge ----------------------------
(* Decides whether recorded attempts are fresh in the sense of Freshness.tla.
   OBS: a line for each recording, in one of two forms
     seq:  values sent one after the other, each as an array of bytes and as a
           string; no two may be equal and every position has two values
     bits: the value for given system randomness, then the value with each bit
           of that randomness changed; need = bits that have to matter       *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

Obs == ndJsonDeserialize(IOEnv.OBS)

VARIABLES line, at, used, seen, bad
vars == <<line, at, used, seen, bad>>
view == <<line, at, Cardinality(used)>>

\* values at each position so far: the first and whether another came up
Join(s, b) == IF s = <<>> THEN [i \in 1..Len(b) |-> <<b[i], FALSE>>]
              ELSE [i \in 1..Len(b) |-> <<s[i][1], s[i][2] \/ b[i] # s[i][1]>>]

Init == line = 1 /\ at = 0 /\ used = {} /\ seen = <<>> /\ bad = "no"

O == Obs[line]

\* one more value of a sequence
Sent ==
  /\ line <= Len(Obs) /\ O.form = "seq" /\ at < Len(O.vals)
  /\ at' = at + 1
  /\ LET v == O.vals[at + 1] IN
     /\ used' = used \cup {v.s}
     /\ seen' = Join(seen, v.b)
     /\ IF v.s \in used
        THEN bad' = "again" /\ PrintT("BAD " \o ToJson([line |-> line, at |-> at + 1, what |-> "used before"]))
        ELSE bad' = bad
  /\ UNCHANGED line

\* one more bit of the randomness changed
Flipped ==
  /\ line <= Len(Obs) /\ O.form = "bits" /\ at < Len(O.vals) - 1
  /\ at' = at + 1
  /\ used' = IF O.vals[at + 2] # O.vals[1] THEN used \cup {at + 1} ELSE used
  /\ UNCHANGED <<line, seen, bad>>

Fixed == {i \in 1..Len(seen) : ~seen[i][2]}

End ==
  /\ line <= Len(Obs)
  /\ \/ O.form = "seq" /\ at = Len(O.vals)
        /\ IF O.vary /\ Fixed # {}
           THEN PrintT("BAD " \o ToJson([line |-> line, at |-> CHOOSE i \in Fixed : TRUE, what |-> "position never varies"]))
           ELSE TRUE
     \/ O.form = "bits" /\ at >= Len(O.vals) - 1
        /\ IF Cardinality(used) < O.need
           THEN PrintT("BAD " \o ToJson([line |-> line, at |-> Cardinality(used), what |-> "bits of randomness matter"]))
           ELSE TRUE
  /\ line' = line + 1 /\ at' = 0 /\ used' = {} /\ seen' = <<>> /\ UNCHANGED bad

Next == Sent \/ Flipped \/ End
Spec == Init /\ [][Next]_vars

Done == line = Len(Obs) + 1
=============================================================================
