------------------------------- MODULE Leak -------------------------------
(* What an observer of time may learn (C24).  The operations on secrets as
   programs whose every step is observed: the instruction and the address it
   uses.  Two runs of the same program with the same public inputs and any two
   secrets go on side by side (self-composition); Blind says that they cannot
   be told apart before the result is given out, Right that the program
   computes what it is for, so that nothing was gained by computing nothing.

     ladder   acc := k * Q by doubling, adding and selecting, every bit alike
     compare  a = b, every octet looked at, the differences collected
     open     mac, decipher, compare, and only then the answer
     branchy  the ladder that adds only for bits that are set: Blind fails for
              it, which shows that Blind can (expected by the check)

   The real operations are watched the same way (harness in leak/), and
   LeakJudge.tla applies Blind to what was seen.  The pairs of secrets reached
   here are the patterns those runs use.                                     *)
EXTENDS Naturals, Sequences, Integers, TLC, Json

CONSTANTS Prog, Width, Order, Points, Digits

VARIABLES sec, pub, i, acc, obs, pc
vars == <<sec, pub, i, acc, obs, pc>>

Scalar == Prog \in {"ladder", "branchy"}
Secrets == [1..Width -> IF Scalar THEN 0..1 ELSE 0..Digits - 1]
Two == 1..2

RECURSIVE Num(_, _)
Num(s, k) == IF k = 0 THEN 0 ELSE 2 * Num(s, k - 1) + s[k]

\* without a branch: a if f = 0, b if f = 1
Select(f, a, b) == (a + f * ((b + Order) - a)) % Order
\* bitwise or and exclusive or of two-bit digits
Xor(a, b) == (((a % 2) + (b % 2)) % 2) + 2 * (((a \div 2) + (b \div 2)) % 2)
Or(a, b) == (IF (a % 2) + (b % 2) > 0 THEN 1 ELSE 0) + (IF (a \div 2) + (b \div 2) > 0 THEN 2 ELSE 0)

Init ==
  /\ sec \in [Two -> Secrets]
  /\ pub \in (IF Scalar THEN Points ELSE {0})
  /\ i = 1 /\ acc = [r \in Two |-> 0] /\ obs = [r \in Two |-> <<>>]
  /\ pc = IF Prog = "open" THEN "mac" ELSE "loop"

See(f) == obs' = [r \in Two |-> obs[r] \o f[r]]

Ladder ==
  /\ Prog = "ladder" /\ pc = "loop" /\ i <= Width
  /\ acc' = [r \in Two |-> LET d == (2 * acc[r]) % Order IN Select(sec[r][i], d, (d + pub) % Order)]
  /\ See([r \in Two |-> << <<"double", 0>>, <<"add", 0>>, <<"bit", i>>, <<"select", 0>> >>])
  /\ i' = i + 1 /\ UNCHANGED <<sec, pub, pc>>

Branchy ==
  /\ Prog = "branchy" /\ pc = "loop" /\ i <= Width
  /\ acc' = [r \in Two |-> LET d == (2 * acc[r]) % Order IN IF sec[r][i] = 1 THEN (d + pub) % Order ELSE d]
  /\ See([r \in Two |-> << <<"double", 0>> >> \o (IF sec[r][i] = 1 THEN << <<"add", 0>> >> ELSE <<>>)])
  /\ i' = i + 1 /\ UNCHANGED <<sec, pub, pc>>

\* authenticate and decipher everything, whatever it is
Open ==
  /\ Prog = "open" /\ pc \in {"mac", "decipher"}
  /\ See([r \in Two |-> << <<pc, i>> >>])
  /\ IF i < Width THEN i' = i + 1 /\ pc' = pc
     ELSE i' = 1 /\ pc' = IF pc = "mac" THEN "decipher" ELSE "loop"
  /\ UNCHANGED <<sec, pub, acc>>

\* against zeros: what counts is where the two differ
Compare ==
  /\ Prog \in {"compare", "open"} /\ pc = "loop" /\ i <= Width
  /\ acc' = [r \in Two |-> Or(acc[r], Xor(sec[r][i], 0))]
  /\ See([r \in Two |-> << <<"xor", i>> >>])
  /\ i' = i + 1 /\ UNCHANGED <<sec, pub, pc>>

\* the result is public from here on
Answer ==
  /\ pc = "loop" /\ i = Width + 1 /\ pc' = "done"
  /\ UNCHANGED <<sec, pub, i, acc, obs>>

Next == Ladder \/ Branchy \/ Open \/ Compare \/ Answer
Spec == Init /\ [][Next]_vars

Blind == obs[1] = obs[2]

Right == pc = "done" =>
  \A r \in Two : IF Scalar THEN acc[r] = (Num(sec[r], Width) * pub) % Order
                 ELSE (acc[r] = 0) = (\A k \in 1..Width : sec[r][k] = 0)

\* every secret once, as a pattern for the real runs
PrintTest ==
  IF pc' = "done" /\ (\A k \in 1..Width : sec[1][k] = 0) /\ pub = (IF Scalar THEN CHOOSE p \in Points : TRUE ELSE 0)
  THEN PrintT("TEST " \o ToJson([s |-> sec[2]])) ELSE TRUE
=============================================================================
