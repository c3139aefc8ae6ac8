---------------------------- MODULE UpkeepJudge ----------------------------
(* Upkeep.tla on recordings.  OBS: a line for each run,
     form = "cycle"  held, work: octets held after, and work of, each quarter
                     of reps repetitions; peak: most held meanwhile
     form = "junk"   size: octets received; peak, work
     form = "lives"  held: when a connection is gone, after each quarter of reps
                     such connections
     form = "grow"   work: of the same thing in sizes 0, n, 2n, 4n, 8n
   The first quarter may set things up.                                       *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Obs == ndJsonDeserialize(IOEnv.OBS)

VARIABLES at
vars == <<at>>

Max(a, b) == IF a > b THEN a ELSE b

\* less than an octet for eight repetitions
Level(o) == o.held[4] - o.held[1] < Max(256, o.reps \div 8)
Steady(o) == o.work[4] <= o.work[2] + o.work[2] \div 8 + 1000
\* a message has at most 2^24 octets; what it decodes to is at most so much more
Small(o) == o.peak <= 67108864 + 64 * o.size
Quick(o) == o.work <= 4000000 + 400 * o.size
\* a record and its plaintext, and what the biggest buffer holds
Slim(o)  == o.peak <= 1048576

\* twice the size is twice the work: each difference is twice the one before
Linear(o) == \A i \in 2..Len(o.work) - 1 :
               o.work[i + 1] - o.work[i] <= 100000 + 5 * ((o.work[i] - o.work[i - 1]) \div 2)

Judge(o) ==
  IF o.form = "lives" THEN IF Level(o) THEN "fine" ELSE "leaves memory behind" ELSE
  IF o.form = "grow" THEN IF Linear(o) THEN "fine" ELSE "takes more than twice the work for twice the size" ELSE
  IF o.form = "cycle"
  THEN IF ~Level(o) THEN "holds more and more" ELSE IF ~Steady(o) THEN "works more and more"
       ELSE IF ~Slim(o) THEN "holds more than a record" ELSE "fine"
  ELSE IF ~Small(o) THEN "holds more than it was sent" ELSE IF ~Quick(o) THEN "works more than it was sent"
       ELSE "fine"

Init == at = 1
Next ==
  /\ at <= Len(Obs) /\ at' = at + 1
  /\ LET j == Judge(Obs[at]) IN IF j = "fine" THEN TRUE ELSE PrintT("BAD " \o ToJson([at |-> at, what |-> j]))
Spec == Init /\ [][Next]_vars
=============================================================================
