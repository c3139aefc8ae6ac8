----------------------------- MODULE Isolation -----------------------------
(* Several connections in one program (C26).

   A connection is a process of Len steps (a record or half a record on the
   transport, or a call of the application); what it observes in step k should
   be a matter of its own past only.  Steps of different connections come in any
   order; a schedule is a sequence of blocks <<connection, steps made by then>>.

   mode says what the connections share:
     "own"      nothing: everything is in the connection
     "scratch"  a buffer that is filled in one step and used in the next
     "first"    a value made by whoever comes first, used by all
     "count"    a counter
     "current"  the latest connection's state in place of the own one's
     "thread"   nothing, but what a connection remembers stays with the thread
                that made the step
   Alone holds for "own" only; each other one is TOLD apart by a schedule of this
   size, or the model is too small to be of use.

   Every schedule is printed; `inner` says that it can be run on one stack, a
   connection going through its whole life inside of a step of another one.
   Steps are made by threads; a block of steps is made by one (`on`).           *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS N, Len_, MaxBlocks, Modes, Threads

Conns == 1..N

VARIABLES mode, pc, mem, shared, obs, sched, cur, left
vars == <<mode, pc, mem, shared, obs, sched, cur, left>>

Init ==
  /\ mode \in Modes
  /\ pc = [i \in Conns |-> 0]
  /\ mem = [i \in Conns |-> 0]              \* what the connection remembers
  /\ shared = [scratch |-> 0, first |-> 0, count |-> 0, current |-> 0]
  /\ obs = [i \in Conns |-> TRUE]           \* as if alone, so far
  /\ sched = <<>>
  /\ cur = <<0, 0>>
  /\ left = [i \in Conns |-> [t \in 1..Threads |-> 0]]   \* what threads remember

\* the value connection i computes in step k when it is alone
Own(i, k) == 100 * i + k

Seen(i, t) ==
  LET k == pc[i] + 1 IN
  CASE mode = "own"     -> (IF k = 1 THEN 100 * i ELSE mem[i]) + 1
    [] mode = "scratch" -> IF k % 2 = 0 THEN shared.scratch + 1 ELSE Own(i, k)
    [] mode = "first"   -> (IF shared.first = 0 THEN 100 * i ELSE shared.first) + k
    [] mode = "count"   -> 100 * i + shared.count + 1
    [] mode = "thread"  -> (IF k = 1 THEN 100 * i ELSE left[i][t]) + 1
    [] mode = "current" -> IF k = 1 THEN Own(i, 1) ELSE shared.current + 1

Step(i, t) ==
  /\ pc[i] < Len_
  /\ \A j \in Conns : obs[j]
  /\ <<i, t>> # cur => Len(sched) < MaxBlocks
  /\ LET k == pc[i] + 1
         v == Seen(i, t)
     IN  /\ obs' = [obs EXCEPT ![i] = @ /\ v = Own(i, k)]
         /\ mem' = [mem EXCEPT ![i] = Own(i, k)]
         /\ shared' = [scratch |-> Own(i, k),
                       first   |-> IF shared.first = 0 THEN 100 * i ELSE shared.first,
                       count   |-> shared.count + 1,
                       current |-> IF k = 1 THEN Own(i, 1) ELSE shared.current + 1]
         /\ pc' = [pc EXCEPT ![i] = k]
         /\ sched' = IF <<i, t>> = cur THEN [sched EXCEPT ![Len(sched)].upto = k]
                     ELSE Append(sched, [who |-> i, upto |-> k, on |-> t])
         /\ cur' = <<i, t>>
         /\ left' = [left EXCEPT ![i][t] = Own(i, k)]
  /\ UNCHANGED mode

\* connections and threads come up in the order of their numbers (symmetry)
Next == \E i \in Conns, t \in 1..Threads :
  /\ IF i = 1 THEN TRUE ELSE pc[i - 1] # 0
  /\ IF t = 1 THEN TRUE ELSE \E b \in DOMAIN sched : sched[b].on = t - 1
  /\ Step(i, t)
Spec == Init /\ [][Next]_vars

Alone == mode = "own" => \A i \in Conns : obs[i]

\* on one stack: whoever comes back has nobody above who is not through
Inner(s) ==
  \A a, b \in DOMAIN s : (a < b /\ s[a].who = s[b].who) =>
    \A c \in a + 1..b - 1 : s[c].who # s[a].who =>
      /\ \A d \in DOMAIN s : s[d].who = s[c].who => d > a
      /\ \E d \in a + 1..b - 1 : s[d].who = s[c].who /\ s[d].upto = Len_

PrintTest ==
  IF mode # "own"
  THEN IF \E i \in Conns : ~obs'[i] THEN PrintT("TOLD " \o ToJson([mode |-> mode])) ELSE TRUE
  ELSE IF \A i \in Conns : pc'[i] = Len_
  THEN PrintT("TEST " \o ToJson([blocks |-> sched', inner |-> Inner(sched')]))
  ELSE TRUE
=============================================================================
