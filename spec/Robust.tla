-------------------------------- MODULE Robust --------------------------------
(***************************************************************************)
(* A server that may send anything at any point, and a client whose calls  *)
(* all end: each step of a call takes an item from the transport or        *)
(* returns.  The items are not interpreted here; what has to hold is that  *)
(* every call returns.                                                     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json

CONSTANTS
  Junks,    \* kinds of input that is no part of a good flight
  Ops,      \* calls the application makes on a connection
  From,     \* junk comes after this many items of the flight at the earliest
  MaxJunk, MaxMut, MaxOps

Flight == <<"sh", "cert", "ske", "shd", "ccs", "fin">>

VARIABLES
  plan,   \* what the server sends: items
  ph,     \* how many of them belong to the flight
  cnt,    \* junk items, changed items
  q,      \* items not yet taken
  call,   \* "none", or the call in progress
  conn,   \* "building", "connecting", "up", "failed"
  ops
vars == <<plan, ph, cnt, q, call, conn, ops>>

Init == plan = <<>> /\ ph = 0 /\ cnt = <<0, 0>> /\ q = <<>> /\ call = "none" /\ conn = "building" /\ ops = <<>>

Item(k, s) == [k |-> k, s |-> s]

Build ==
  /\ conn = "building"
  /\ \/ /\ ph < 6 /\ ph' = ph + 1
        /\ \/ plan' = Append(plan, Item("good", Flight[ph + 1])) /\ UNCHANGED cnt
           \/ /\ cnt[2] < MaxMut /\ ph # 4
              /\ plan' = Append(plan, Item("mut", Flight[ph + 1])) /\ cnt' = <<cnt[1], cnt[2] + 1>>
     \/ \E j \in Junks : /\ cnt[1] < MaxJunk /\ ph >= From /\ plan' = Append(plan, Item("junk", j))
                         /\ cnt' = <<cnt[1] + 1, cnt[2]>> /\ UNCHANGED ph
  /\ UNCHANGED <<q, call, conn, ops>>

Connect ==
  /\ conn = "building" /\ cnt[1] + cnt[2] > 0
  /\ conn' = "connecting" /\ call' = "connect" /\ q' = plan
  /\ UNCHANGED <<plan, ph, cnt, ops>>

\* a call in progress takes an item, or returns
Take == call # "none" /\ q # <<>> /\ q' = Tail(q) /\ UNCHANGED <<plan, ph, cnt, call, conn, ops>>
Return ==
  /\ call # "none" /\ call' = "none"
  /\ conn' = IF call = "connect" THEN (IF ph = 6 THEN "up" ELSE "failed") ELSE conn
  /\ UNCHANGED <<plan, ph, cnt, q, ops>>
GiveUp == call = "connect" /\ call' = "none" /\ conn' = "failed" /\ UNCHANGED <<plan, ph, cnt, q, ops>>

Op == \E o \in Ops :
  /\ conn = "up" /\ call = "none" /\ Len(ops) < MaxOps
  /\ call' = o /\ ops' = Append(ops, o)
  /\ UNCHANGED <<plan, ph, cnt, q, conn>>

Next == Build \/ Connect \/ Take \/ Return \/ GiveUp \/ Op
Spec == Init /\ [][Next]_vars /\ WF_vars(Take) /\ WF_vars(Return)

-----------------------------------------------------------------------------
\* C12: every call returns (while the transport holds finitely many items)
Returns == \A c \in Ops \union {"connect"} : (call = c) ~> (call = "none")
View == vars
PrintTest ==
  IF (call' # "none" /\ call' # call) THEN PrintT("TEST " \o ToJson([plan |-> plan', ops |-> ops'])) ELSE TRUE
=============================================================================
