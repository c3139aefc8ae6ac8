------------------------------ MODULE Reassembly ------------------------------
(***************************************************************************)
(* Handshake messages cut into fragments in any way.  The peer's messages  *)
(* form one byte stream; Add delivers the next bytes of it, Get asks for   *)
(* the next message.                                                       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json

CONSTANTS
  Msgs,      \* kinds of messages: subset of DOMAIN Kind
  MaxMsgs,
  Frags,     \* fragment sizes; 0 stands for "all that is left"
  Drips,     \* fragment sizes of long runs of fragments
  AllCuts,   \* TRUE: histories with different fragments are different states
  MaxSteps

\* body length, and what Get gives: "ok" or the error class
Kind ==
     ("hreq"    :> [n |-> 0, r |-> "ok"])       \* hello_request
  @@ ("shd"     :> [n |-> 0, r |-> "ok"])       \* server_hello_done
  @@ ("ske1"    :> [n |-> 1, r |-> "ok"])       \* server_key_exchange, any body
  @@ ("ske3"    :> [n |-> 3, r |-> "ok"])
  @@ ("fin"     :> [n |-> 12, r |-> "ok"])
  @@ ("ske255"  :> [n |-> 255, r |-> "ok"])
  @@ ("ske256"  :> [n |-> 256, r |-> "ok"])
  @@ ("ske65535" :> [n |-> 65535, r |-> "ok"])
  @@ ("ske65536" :> [n |-> 65536, r |-> "ok"])
  @@ ("cke70000" :> [n |-> 70000, r |-> "ok"])
  @@ ("cke2000"  :> [n |-> 2000, r |-> "ok"])
  @@ ("cke30000" :> [n |-> 30000, r |-> "ok"])
  @@ ("cke1048573" :> [n |-> 1048573, r |-> "ok"])
  @@ ("cke16777215" :> [n |-> 16777215, r |-> "ok"])
  @@ ("unk0"    :> [n |-> 0, r |-> "UnexpectedMessage"])
  @@ ("unk2"    :> [n |-> 2, r |-> "UnexpectedMessage"])
  @@ ("unk300"  :> [n |-> 300, r |-> "UnexpectedMessage"])
  @@ ("shd1"    :> [n |-> 1, r |-> "InternalError"])  \* a byte too many
  @@ ("fin11"   :> [n |-> 11, r |-> "DecodeError"])   \* a byte missing
  @@ ("fin13"   :> [n |-> 13, r |-> "InternalError"])
  @@ ("cert2"   :> [n |-> 2, r |-> "DecodeError"])

VARIABLES plan, added, taken, next, steps, hist
vars == <<plan, added, taken, next, steps, hist>>

RECURSIVE Total(_)
Total(p) == IF p = <<>> THEN 0 ELSE 4 + Kind[p[1]].n + Total(Tail(p))

Plans == UNION {[1..k -> Msgs] : k \in 1..MaxMsgs}

Init == plan \in Plans /\ added = 0 /\ taken = 0 /\ next = 1 /\ steps = 0 /\ hist = <<>>

Left == Total(plan) - added

Add(n) ==
  LET m == IF n = 0 \/ n > Left THEN Left ELSE n IN
  /\ steps < MaxSteps /\ Left > 0
  /\ added' = added + m /\ steps' = steps + 1
  /\ hist' = Append(hist, [op |-> "add", n |-> m, r |-> "", m |-> 0])
  /\ UNCHANGED <<plan, taken, next>>

\* the next message is there once its last byte is, and not before
Ready == next <= Len(plan) /\ added - taken >= 4 + Kind[plan[next]].n

Get ==
  /\ steps < MaxSteps
  /\ hist # <<>> => ~(hist[Len(hist)].op = "get" /\ hist[Len(hist)].r = "none")
  /\ steps' = steps + 1
  /\ IF Ready
     THEN /\ taken' = taken + 4 + Kind[plan[next]].n /\ next' = next + 1
          /\ hist' = Append(hist, [op |-> "get", n |-> 0, r |-> Kind[plan[next]].r, m |-> next])
     ELSE /\ UNCHANGED <<taken, next>>
          /\ hist' = Append(hist, [op |-> "get", n |-> 0, r |-> "none", m |-> 0])
  /\ UNCHANGED <<plan, added>>

\* what is left of the message begun, or all of it but one byte, in fragments
\* of n bytes; after each but the last the next message is asked for, and is
\* not there (hist: n bytes in all, m the fragment size)
Drip(n, short) ==
  LET m == taken + 4 + Kind[plan[next]].n - added - short IN
  /\ steps < MaxSteps /\ m > n
  /\ added' = added + m /\ steps' = steps + 1
  /\ hist' = Append(hist, [op |-> "drip", n |-> m, r |-> "none", m |-> n])
  /\ UNCHANGED <<plan, taken, next>>

Next == \/ Get
        \/ \E n \in Frags : Add(n)
        \/ next <= Len(plan) /\ \E n \in Drips, short \in {0, 1} : Drip(n, short)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* C14: messages come out in order, each whole, none early, nothing lost
RECURSIVE Prefix(_)
Prefix(k) == IF k = 0 THEN 0 ELSE 4 + Kind[plan[k]].n + Prefix(k - 1)
Exact == taken = Prefix(next - 1) /\ taken <= added

View == IF AllCuts THEN <<plan, hist>> ELSE <<plan, added, taken, steps>>
PrintTest == PrintT("TEST " \o ToJson([plan |-> plan, hist |-> hist']))
=============================================================================
