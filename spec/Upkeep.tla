------------------------------ MODULE Upkeep ------------------------------
(* What an established connection keeps and what its steps cost (C25).

   The peer puts records (put), the application reads and writes.  A read of k
   octets takes records until it has k; what is left of the last one is kept
   (left).  Nothing else is: what the client holds between calls is Base + left,
   and a step costs what the octets it handles make, never what went before.

   Bounded says that what is kept never exceeds a record.  A program that comes
   back to a state it was in can be repeated for ever: every such program
   (pre, then cyc again and again) is printed as a test.  Since the state after
   each repetition is the same, so must be the memory held, and the work of
   each repetition.                                                           *)
EXTENDS Naturals, Sequences, TLC, Json

CONSTANTS Sizes, Reads, Writes, MaxSteps, MaxRec

VARIABLES q, left, seen, prog
vars == <<q, left, seen, prog>>

Init == q = <<>> /\ left = 0 /\ seen = << <<(<<>>), 0>> >> /\ prog = <<>>

\* no point in going on behind a cycle
Simple(s) == \A i, j \in 1..Len(s) : s[i] = s[j] => i = j

Did(op, a) ==
  /\ Simple(seen)
  /\ Len(prog) < MaxSteps
  /\ prog' = Append(prog, [op |-> op, a |-> a])
  /\ seen' = Append(seen, <<q', left'>>)

RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE s[1] + Sum(Tail(s))

\* records needed for k octets more than there are; 0: not enough
RECURSIVE Take(_, _, _)
Take(s, l, k) == IF l >= k THEN <<s, l - k>> ELSE Take(Tail(s), l + s[1], k)

Put(n)   == q' = Append(q, n) /\ left' = left /\ Did("put", n)
Read(k)  == /\ left + Sum(q) >= k
            /\ LET t == Take(q, left, k) IN q' = t[1] /\ left' = t[2]
            /\ Did("read", k)
Write(n) == UNCHANGED <<q, left>> /\ Did("write", n)

Next == (\E n \in Sizes : Put(n)) \/ (\E k \in Reads : Read(k)) \/ (\E n \in Writes : Write(n))
Spec == Init /\ [][Next]_vars

Bounded == left < MaxRec + 1

\* the last place where the state was the same; nothing on the way was it twice
Lasso(s) ==
  LET n == Len(s)
      same == {i \in 1..n - 1 : s[i] = s[n]}
  IN  IF same # {} /\ \A i, j \in 1..n - 1 : s[i] = s[j] => i = j THEN CHOOSE i \in same : TRUE ELSE 0

PrintTest ==
  LET i == Lasso(seen') IN
  IF i # 0
  THEN PrintT("TEST " \o ToJson([pre |-> SubSeq(prog', 1, i - 1), cyc |-> SubSeq(prog', i, Len(prog')),
                                 left |-> left', queued |-> Sum(q')]))
  ELSE TRUE

=============================================================================
