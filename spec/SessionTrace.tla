----------------------------- MODULE SessionTrace -----------------------------
(***************************************************************************)
(* Recorded sessions of the real client, validated as behaviours of        *)
(* Session.tla: every step of a recording has to be a step of the          *)
(* specification.  What arrives is Session's own actions; the client's     *)
(* reads, writes and closes may return whatever the properties allow       *)
(* (a read may return less than there is, a connection that failed or was  *)
(* closed may refuse to write).                                            *)
(*                                                                         *)
(* A recording is a sequence of steps; the log TRACES holds one per line.  *)
(* Validated recordings print DONE.                                        *)
(***************************************************************************)
EXTENDS Session, IOUtils

CONSTANT Aspects  \* which of the properties to hold the recordings to

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES
  tr, l,   \* which recording, next step of it
  errs,    \* failures of the transport that may still excuse an empty read
  shut,    \* the end of the stream has been reported for good
  over     \* writing failed, or close() was called

tvars == <<vars, tr, l, errs, shut, over>>

A(x) == x \in Aspects

\* everything the client could take by now, failures between records skipped
RECURSIVE Take(_, _)
Take(c, items) ==
  IF c.closed \/ items = <<>> \/ Stop(items[1].k) THEN [c |-> c, q |-> items]
  ELSE IF items[1].k = "err" THEN Take(c, Tail(items))
  ELSE Take(Consume(c, items[1]), Tail(items))

PutOps == {"send", "auth", "forge", "drop", "replay", "swap", "reflect", "eof", "cut", "err", "errmid"}
Arrive(s) ==
  CASE s.op = "send"    -> Send(s.a)
    [] s.op = "auth"    -> IF s.s \in {"unk_type", "len_over"} THEN Header(s.s) ELSE SendAuth(s.s)
    [] s.op = "forge"   -> Forge(s.s, s.a)
    [] s.op = "drop"    -> Drop(s.a)
    [] s.op = "replay"  -> Replay(s.a + 1)
    [] s.op = "swap"    -> Swap(s.a, s.b)
    [] s.op = "reflect" -> Reflect
    [] OTHER            -> Control(s.op, s.a)

TPut(s) == /\ Arrive(s)
           /\ errs' = IF s.op \in {"err", "errmid"} THEN errs + 1 ELSE errs
           /\ UNCHANGED <<shut, over>>

TRead(s) ==
  LET p == Take(cl, q)
      a == p.c.upto - cl.got
      none == s.n <= 0 /\ s.k > 0 IN
  \* what is returned is the next bytes of the stream
  /\ (A("data") /\ s.n > 0) => s.n <= s.k /\ s.n <= a /\ s.match
  \* nothing only when nothing is there
  /\ (A("zero") /\ none /\ a > 0) => errs > 0
  \* and nothing ever after the end
  /\ (A("closed") /\ shut) => s.n <= 0 /\ s.reads = 0
  /\ cl' = [p.c EXCEPT !.got = IF s.n > 0 THEN Min(cl.got + s.n, p.c.upto) ELSE cl.got]
  /\ q' = p.q
  /\ errs' = IF none /\ a > 0 /\ errs > 0 THEN errs - 1 ELSE errs
  /\ shut' = (shut \/ (none /\ a = 0 /\ errs = 0 /\ p.c.authclosed))
  /\ UNCHANGED <<seq, sent, past, sopen, wr, cnt, hist, over>>

\* the application has read until nothing came
TEnd(s) == /\ A("zero") => Take(cl, q).c.upto = cl.got
           /\ UNCHANGED <<vars, errs, shut, over>>

TotalLen(rs) == LET F[i \in 0..Len(rs)] == IF i = 0 THEN 0 ELSE F[i-1] + rs[i].len IN F[Len(rs)]

\* writes and closes: s.recs are the whole records that reached the transport
TOut(s) ==
  LET ok    == ~s.err
      free  == over \/ Take(cl, q).c.closed
      refused == s.err /\ ~s.hit /\ s.recs = <<>> /\ free
      want  == IF s.op = "write" THEN 23 ELSE 21
      next  == IF s.recs = <<>> THEN wr.num ELSE s.recs[Len(s.recs)].seq + 1
      nums  == {s.recs[i].seq : i \in DOMAIN s.recs} IN
  /\ A("nonce") => /\ \A i \in DOMAIN s.recs : s.recs[i].open /\ s.recs[i].seq \notin wr.used
                   /\ Cardinality(nums) = Len(s.recs)
                   /\ ~free => \A i \in DOMAIN s.recs : s.recs[i].seq = wr.num + i - 1
  /\ A("frame") => /\ \A i \in DOMAIN s.recs : LET r == s.recs[i] IN
                        r.t = want /\ r.ver = 771 /\ r.len \in 1..MaxRec /\ r.wire = r.len + 16
                   /\ s.left = 0
                   /\ s.hit => s.prefix_ok
                   /\ (ok /\ s.op = "write") => /\ s.n <= s.k /\ (s.k > 0 => s.n > 0)
                                                /\ TotalLen(s.recs) = s.n /\ s.data_ok
  /\ A("fault") => /\ s.hit => s.err
                   /\ s.err => (s.hit \/ refused)
  /\ (A("close") /\ s.op = "close" /\ ok) =>
       Len(s.recs) = 1 /\ s.recs[1].len = 2 /\ s.recs[1].head[1] \in {1, 2} /\ s.recs[1].head[2] = 0
  /\ wr' = [num |-> IF s.hit THEN next + 1 ELSE next,
            used |-> wr.used \union nums \union (IF s.hit THEN {next} ELSE {}), reuse |-> FALSE]
  /\ over' = (over \/ s.hit \/ s.op = "close")
  /\ UNCHANGED <<q, seq, sent, past, sopen, cl, cnt, hist, errs, shut>>

TInit == Init /\ tr \in 1 .. Len(Traces) /\ l = 1 /\ errs = 0 /\ shut = FALSE /\ over = FALSE
TNext ==
  /\ l <= Len(Traces[tr]) /\ l' = l + 1 /\ tr' = tr
  /\ LET s == Traces[tr][l] IN
     CASE s.op \in PutOps -> TPut(s)
       [] s.op = "read"   -> TRead(s)
       [] s.op = "end"    -> TEnd(s)
       [] OTHER           -> TOut(s)
TSpec == TInit /\ [][TNext]_tvars

Report == /\ l = Len(Traces[tr]) + 1 => PrintT("DONE " \o ToJson(tr))
          /\ (IOEnv.VERBOSE = "1") => PrintT("AT " \o ToJson(<<tr, l>>))

\* the properties of the specification along the recordings
TPrefix == cl.good /\ cl.got <= cl.upto /\ cl.upto <= sent
===============================================================================
