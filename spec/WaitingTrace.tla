---------------------------- MODULE WaitingTrace ----------------------------
(* Recordings of the real client, validated against Waiting.tla: it waits only
   where MayWait allows it to, and a call that has returned has given what there
   was to be had and left nothing unflushed that has to be seen.

   The log TRACES holds one recording per line: the script, and the steps
     call f k | wait, with what the peer has seen by then | rel e c | ret n held
   Validated recordings print DONE.                                           *)
EXTENDS Waiting, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tr, l
tvars == <<vars, tr, l>>

TInit ==
  /\ tr \in 1..Len(Traces) /\ l = 1
  /\ mode = "prompt" /\ lay = "" /\ bad = 0 /\ odd = 0 /\ nops = 0 /\ hist = <<>>
  /\ script = Traces[tr].script
  /\ rel = [e |-> 0, c |-> 0] /\ call = None /\ st = "new" /\ seen = 0 /\ got = 0

Same == UNCHANGED <<mode, lay, bad, script, nops, odd, hist>>

TCall(s) == /\ call = None /\ (s.f = "connect") = (st = "new")
            /\ call' = [f |-> s.f, k |-> s.k]
            /\ UNCHANGED <<rel, st, seen, got>>

TWait(s) == /\ call # None /\ MayWait(call, s.seen)
            /\ seen' = s.seen
            /\ UNCHANGED <<rel, call, st, got>>

\* the peer stays within what it has seen
TRel(s) == /\ \A i \in (rel.e + 1) .. (IF s.c = 0 THEN s.e ELSE s.e + 1) : PeerMay(i, s.seen)
           /\ rel' = [e |-> s.e, c |-> s.c]
           /\ UNCHANGED <<call, st, seen, got>>

\* n: octets read, -1 an error (connect: 1 connected, -1 an error)
TRet(s) ==
  /\ call # None /\ call' = None
  /\ CASE call.f = "connect" ->
            /\ IF s.n > 0 THEN Whole("D") /\ s.held = 0 ELSE Touched
            /\ st' = (IF s.n > 0 THEN "up" ELSE "failed")
            /\ got' = got
       [] call.f = "read" ->
            /\ s.n <= 0 => call.k = 0 \/ (Touched /\ Avail = 0)
            /\ s.n > 0 => s.n <= Avail
            /\ got' = (IF s.n > 0 THEN got + s.n ELSE got) /\ st' = st
       [] OTHER ->
            /\ (call.f \in {"flush", "close"} /\ s.n >= 0) => s.held = 0
            /\ UNCHANGED <<got, st>>
  /\ UNCHANGED <<rel, seen>>

TNext ==
  /\ l <= Len(Traces[tr].steps) /\ l' = l + 1 /\ tr' = tr /\ Same
  /\ LET s == Traces[tr].steps[l] IN
     CASE s.op = "call" -> TCall(s)
       [] s.op = "wait" -> TWait(s)
       [] s.op = "rel"  -> TRel(s)
       [] OTHER         -> TRet(s)
TSpec == TInit /\ [][TNext]_tvars

Report == /\ l = Len(Traces[tr].steps) + 1 => PrintT("DONE " \o ToJson(tr))
          /\ (IOEnv.VERBOSE = "1") => PrintT("AT " \o ToJson(<<tr, l>>))
=============================================================================
