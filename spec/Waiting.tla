------------------------------- MODULE Waiting -------------------------------
(* When a call of the client waits for the peer (C27).

   The transport blocks: a read of it when no octet has been released waits
   until the peer releases more.  The peer releases its stream in pieces, cut
   anywhere, some of them before they are waited for; what it says next may
   depend on what it has seen of the client: it sends its first flight once it
   has seen the ClientHello, ChangeCipherSpec and Finished once it has seen the
   client's Finished, and afterwards nothing that is not in the script.  What
   the client writes is seen when it has been flushed.

   A call may wait only for something it cannot do without (MayWait):
     connect   for the rest of the flight it is in, all that it has to say
               before having been seen; never past the Finished or a message or
               record that makes it fail
     read      while it has nothing to return: no octet of application data
               received whole, not the end
     write, flush, close   never

   script: what the peer sends, one element per record (or run of records of one
   piece of the flight):
     m  nothing that completes a call     F  with it the first flight is complete
     c  ChangeCipherSpec                  D  with it the Finished is complete
     d  application data, n octets        x  ends the stream (or the attempt)
   rel: e elements are released whole, and of the next one the part c (0: none).

   mode is the kind of client; NoStuck holds of "prompt".  The others are there
   to show that a model of this size tells them apart (TOLD).                    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS
  Modes, Layouts,
  Bad,         \* positions of the handshake at which the peer sends x instead (0: none)
  Sizes, MaxPut, Ends,      \* what it sends afterwards: data of these sizes, x at the end
  Reads, Others, MaxOps,    \* calls of the application
  Cuts, MaxOdd, Join        \* how its stream is cut

VARIABLES mode, lay, bad, script, rel, call, st, seen, got, nops, odd, hist
vars == <<mode, lay, bad, script, rel, call, st, seen, got, nops, odd, hist>>

E(k) == [k |-> k, n |-> 0]
Flight(l) ==
  CASE l = "each"  -> <<E("m"), E("m"), E("m"), E("F"), E("c"), E("D")>>
    [] l = "one"   -> <<E("F"), E("c"), E("D")>>
    [] l = "pairs" -> <<E("m"), E("F"), E("c"), E("D")>>
    [] l = "split" -> <<E("m"), E("m"), E("F"), E("c"), E("m"), E("D")>>
    [] l = "tiny"  -> <<E("F"), E("c"), E("D")>>       \* one octet per record

Hs(l, b) == IF b = 0 \/ b > Len(Flight(l)) THEN Flight(l) ELSE Append(SubSeq(Flight(l), 1, b - 1), E("x"))
After == UNION {{[i \in 1..n |-> [k |-> "d", n |-> f[i]]] : f \in [1..n -> Sizes]} : n \in 0..MaxPut}
Scripts(l, b) == IF b # 0 THEN {Hs(l, b)}
                 ELSE {Hs(l, 0) \o a : a \in After} \union
                      (IF Ends THEN {Append(Hs(l, 0) \o a, E("x")) : a \in After} ELSE {})

None == [f |-> "", k |-> 0]

(* ----------------------------------------------- what has been received -- *)
Whole(k)  == \E i \in 1..rel.e : script[i].k = k
Ended     == Whole("x")
Touched   == Ended \/ (rel.c # 0 /\ script[rel.e + 1].k = "x")
RECURSIVE Sum(_)
Sum(n) == IF n = 0 THEN 0 ELSE Sum(n - 1) + script[n].n
Avail     == IF Sum(rel.e) > got THEN Sum(rel.e) - got ELSE 0

MayWait(c, sn) ==
  CASE c.f = "connect" -> ~Ended /\ ~Whole("D") /\ (IF Whole("F") THEN sn = 2 ELSE sn >= 1)
    [] c.f = "read"    -> c.k > 0 /\ Avail = 0 /\ ~Ended
    [] OTHER           -> FALSE

(* ------------------------------------------------- the client, by its mode *)
\* how much of what it says has been seen, at the time it waits
Said == LET out == IF Whole("F") THEN 2 ELSE 1 IN
        CASE mode = "held" -> 0
          [] mode = "late" -> IF Whole("c") THEN out ELSE 1
          [] OTHER         -> out

Waits(c) ==
  CASE mode = "fill"  /\ c.f = "read"    -> c.k > Avail /\ ~Ended
    [] mode = "peek"  /\ c.f = "read"    -> ~Ended /\ ~(Avail > 0 /\ rel.e < Len(script) /\ rel.c # 0)
    [] mode = "after" /\ c.f = "connect" -> ~Ended /\ ~(\E i \in 1..rel.e : script[i].k = "d")
    [] mode = "drain" /\ c.f = "write"   -> Avail = 0 /\ ~Ended
    [] mode \in {"late", "held"} /\ c.f = "connect" -> ~Ended /\ ~Whole("D")
    [] OTHER -> MayWait(c, Said)

(* --------------------------------------------------------------- the peer *)
Index(k) == IF \E i \in DOMAIN script : script[i].k = k
            THEN CHOOSE i \in DOMAIN script : script[i].k = k ELSE Len(script) + 1
Needs(i) == IF i <= Index("F") THEN 1 ELSE 2
\* may it release something of element i?
PeerMay(i, sn) == i <= Len(script) /\ sn >= Needs(i)

Goals(sn) ==
  {r \in [e : rel.e .. (rel.e + Join), c : Cuts \union {0}] :
     /\ r.e > rel.e \/ r.c > rel.c
     /\ r.c # 0 => odd < MaxOdd
     /\ \A i \in (rel.e + 1) .. (IF r.c = 0 THEN r.e ELSE r.e + 1) : PeerMay(i, sn)}

Release(sn) ==
  \E r \in Goals(sn) :
    /\ rel' = r
    /\ odd' = odd + (IF r.c # 0 THEN 1 ELSE 0)
    /\ hist' = Append(hist, [op |-> "rel", f |-> "", e |-> r.e, c |-> r.c])
    /\ UNCHANGED <<mode, lay, bad, script, got, nops>>

(* ------------------------------------------------------------- transitions *)
Call(c) ==
  /\ call = None
  /\ call' = c
  /\ hist' = Append(hist, [op |-> "call", f |-> c.f, e |-> c.k, c |-> 0])
  /\ UNCHANGED <<mode, lay, bad, script, rel, st, seen, got, odd>>

Connect == st = "new" /\ Call([f |-> "connect", k |-> 0]) /\ UNCHANGED nops

\* reads that will end: there is something, or something to come
Comes == Touched \/ Sum(Len(script)) > got \/ script[Len(script)].k = "x"
Op == /\ st = "up" /\ nops < MaxOps /\ nops' = nops + 1
      /\ \/ \E k \in Reads : (k = 0 \/ Comes) /\ Call([f |-> "read", k |-> k])
         \/ \E f \in Others : Call([f |-> f, k |-> 0])

\* the peer does not wait to be waited for
Early == /\ call = None /\ st # "failed"
         /\ IF hist = <<>> THEN FALSE ELSE hist[Len(hist)].op # "rel"
         /\ Release(seen) /\ UNCHANGED <<call, st, seen>>

WaitStep == call # None /\ Waits(call) /\ seen' = (IF Said > seen THEN Said ELSE seen)
            /\ Release(seen') /\ UNCHANGED <<call, st>>

Return ==
  /\ call # None /\ ~Waits(call)
  /\ call' = None
  /\ st' = IF call.f = "connect" THEN (IF Whole("D") THEN "up" ELSE "failed") ELSE st
  /\ seen' = IF Said > seen THEN Said ELSE seen
  /\ got' = IF call.f = "read" THEN got + (IF call.k < Avail THEN call.k ELSE Avail) ELSE got
  /\ hist' = Append(hist, [op |-> "ret", f |-> call.f, e |-> 0, c |-> 0])
  /\ UNCHANGED <<mode, lay, bad, script, rel, nops, odd>>

Init ==
  /\ mode \in Modes /\ lay \in Layouts /\ bad \in Bad
  /\ bad = 0 \/ bad <= Len(Flight(lay))
  /\ script \in Scripts(lay, bad)
  /\ rel = [e |-> 0, c |-> 0] /\ call = None /\ st = "new" /\ seen = 0 /\ got = 0 /\ nops = 0 /\ odd = 0
  /\ hist = <<>>

Next == Connect \/ Op \/ Early \/ WaitStep \/ Return
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ WF_vars(Return) /\ WF_vars(WaitStep)

(* ------------------------------------------------------------- properties *)
\* somebody can always go on
StuckNow == call # None /\ Waits(call) /\ Goals(IF Said > seen THEN Said ELSE seen) = {}
            /\ odd = 0   \* (the budget of cuts is not to blame)
NoStuck == mode = "prompt" => ~StuckNow
\* and every call ends
Ends_ == (mode = "prompt" /\ call # None) ~> (call = None)

PrintTest ==
  IF mode # "prompt"
  THEN IF StuckNow' THEN PrintT("TOLD " \o ToJson([mode |-> mode])) ELSE TRUE
  ELSE IF call' = None /\ call # None /\ (st' = "failed" \/ nops' = MaxOps)
  THEN PrintT("TEST " \o ToJson([lay |-> lay, bad |-> bad, script |-> script, steps |-> hist']))
  ELSE TRUE
=============================================================================
