------------------------------- MODULE Session -------------------------------
(***************************************************************************)
(* An established husk connection: records arrive from the peer (or from   *)
(* an attacker between the two), the application reads, writes and closes. *)
(*                                                                         *)
(* The peer seals records with consecutive numbers; number 0 was its       *)
(* Finished.  An attacker may drop, repeat, swap and forge records.  The   *)
(* transport may end or fail between and inside records.                   *)
(*                                                                         *)
(* The application byte stream is the positions 1, 2, 3, ...; an           *)
(* application record covers an interval of them.                          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS
  Sizes,     \* sizes of application records
  Auths,     \* subset of Auth: other authentic records
  Forges,    \* ways to forge or damage a record
  Attacks,   \* subset of {"drop", "replay", "swap", "reflect", "inject"}
  Headers,   \* subset of {"unk_type", "len_over"}
  Controls,  \* subset of {"eof", "cut", "err", "errmid"}
  Reads,     \* sizes of read buffers
  Writes,    \* sizes of writes
  Faults,    \* positions of transport write faults within one write (0: none)
  Closes,    \* how often the application may call close()
  MaxPut, MaxOps, MaxAttack

\* authentic records that carry no application data
Auth == {"ccs_ok", "ccs_0", "ccs_2", "ccs_empty", "ccs_long",
         "al_close_w", "al_close_f", "al_warn", "al_fatal", "al_three",
         "al_empty", "al_one", "al_level", "al_desc",
         "hs_empty", "over",
         "hello_req", "client_hello", "cert_one", "sh_ok", "fin_ok", "shd_ok",
         "unk_4", "unk_255", "hreq_trail", "sh_trunc", "fin_short",
         "hs_first", "hs_rest"}
HsAuth == {"hs_empty", "hello_req", "client_hello", "cert_one", "sh_ok", "fin_ok", "shd_ok",
           "unk_4", "unk_255", "hreq_trail", "sh_trunc", "fin_short", "hs_first", "hs_rest"}
\* hs_first: the first part of a handshake message.  Nothing is complete yet,
\* so nothing happens; hs_rest completes it.

MaxRec == 16384  \* 2^14

VARIABLES
  q,      \* what the transport holds: records and transport events
  seq,    \* next number the peer seals with
  sent,   \* length of the stream sealed so far
  past,   \* records delivered so far (to be replayed)
  sopen,  \* the peer has sent the first part of a handshake message
  cl,     \* the client
  wr,     \* the client's sending side
  cnt,    \* puts, operations, attacks, closes so far
  hist

vars == <<q, seq, sent, past, sopen, cl, wr, cnt, hist>>

\* a record: number it was sealed under, whether it is as sealed by the peer
Item(k, num, from, n) == [k |-> k, num |-> num, from |-> from, n |-> n]
Ctl(k) == Item(k, 0, 0, 0)

Init ==
  /\ q = <<>> /\ seq = 1 /\ sent = 0
  /\ past = <<Item("fin", 0, 0, 0)>>
  /\ sopen = FALSE
  \* rx: number expected; upto: stream received; got: stream handed to the
  \* application; closed: no more will come; ended: transport over; good: no gap
  /\ cl = [rx |-> 1, upto |-> 0, got |-> 0, closed |-> FALSE, good |-> TRUE, authclosed |-> FALSE]
  /\ wr = [num |-> 1, used |-> {}, reuse |-> FALSE]
  /\ cnt = [put |-> 0, op |-> 0, atk |-> 0, close |-> 0]
  /\ hist = <<>>

-----------------------------------------------------------------------------
\* the receiving side

\* the client takes one record
Consume(c, r) ==
  CASE r.k \in {"unk_type", "len_over"} -> [c EXCEPT !.closed = TRUE]
    [] r.k = "forged" \/ r.num # c.rx   -> [c EXCEPT !.closed = TRUE]   \* BadRecordMac
    [] r.k = "app"      -> [c EXCEPT !.rx = @ + 1, !.upto = @ + r.n,
                                     !.good = @ /\ (r.n = 0 \/ r.from = c.upto + 1)]
    [] r.k = "hs_first" -> [c EXCEPT !.rx = @ + 1]
    [] OTHER            -> [c EXCEPT !.rx = @ + 1, !.closed = TRUE, !.authclosed = TRUE]

Stop(k) == k \in {"eof", "cut", "errmid"}

\* reading from the transport until n bytes are there or nothing more comes
RECURSIVE Pull(_, _, _)
Pull(c, items, n) ==
  IF c.upto - c.got >= n \/ c.closed \/ items = <<>> \/ Stop(items[1].k)
  THEN [c |-> c, q |-> items]
  ELSE IF items[1].k = "err" THEN [c |-> c, q |-> Tail(items)]
  ELSE Pull(Consume(c, items[1]), Tail(items), n)

Min(a, b) == IF a < b THEN a ELSE b

\* bytes that can be read by now
Avail(c, items) == LET p == Pull(c, items, c.upto + 1000000) IN p.c.upto - c.got

\* why nothing can be read, once nothing can
Why(c, items) ==
  LET p == Pull(c, items, 1000000) IN
  IF p.c.authclosed THEN "closed" ELSE IF p.c.closed THEN "bad"
  ELSE IF \E i \in DOMAIN items : items[i].k = "err" THEN "err"
  ELSE IF p.q = <<>> THEN "empty" ELSE "ended"

\* all of the stream that can ever be read from what has arrived, if transport
\* failures between records are overcome by reading again
RECURSIVE PullAll(_, _)
PullAll(c, items) ==
  IF c.closed \/ items = <<>> \/ Stop(items[1].k) THEN c.upto
  ELSE IF items[1].k = "err" THEN PullAll(c, Tail(items))
  ELSE PullAll(Consume(c, items[1]), Tail(items))

Ev(op, a, b, s) == [op |-> op, a |-> a, b |-> b, s |-> s]
Log(ev, n) ==
  hist' = Append(hist, [ev |-> ev, n |-> n, lim |-> PullAll(cl', q'), why |-> Why(cl', q'), wrn |-> wr'.num])

CanPut == cnt.put < MaxPut /\ ~(\E i \in DOMAIN q : Stop(q[i].k))
CanOp  == cnt.op < MaxOps
Count(f) == cnt' = [cnt EXCEPT ![f] = @ + 1]

Read(k) ==
  LET p == Pull(cl, q, k)
      n == Min(k, p.c.upto - cl.got)
  IN  /\ CanOp /\ Count("op")
      /\ cl' = [p.c EXCEPT !.got = @ + n]
      /\ q' = p.q
      /\ UNCHANGED <<seq, sent, past, sopen, wr>>
      /\ Log(Ev("read", k, 0, ""), n)

-----------------------------------------------------------------------------
\* what arrives

PutItems(items, ev, f) ==
  /\ CanPut
  /\ cnt' = [cnt EXCEPT !.put = @ + 1, !.atk = IF f THEN @ + 1 ELSE @]
  /\ q' = q \o items
  /\ UNCHANGED <<cl, wr>>
  /\ Log(ev, 0)

\* what an attacker has recorded (only when it can repeat records)
Keep(rs) == IF "replay" \in Attacks THEN past \o rs ELSE past

App(num, from, n) == Item("app", num, IF n = 0 THEN 0 ELSE from + 1, n)

Send(n) ==
  LET r == App(seq, sent, n) IN
  /\ seq' = seq + 1 /\ sent' = sent + n /\ past' = Keep(<<r>>)
  /\ UNCHANGED sopen
  /\ PutItems(<<r>>, Ev("send", n, 0, ""), FALSE)

SendAuth(k) ==
  LET r == Item(k, seq, 0, 0) IN
  /\ k = "hs_rest" => sopen
  /\ k = "hs_first" => ~sopen
  \* while a message is incomplete, other handshake bytes would continue it
  /\ sopen => k \notin HsAuth \ {"hs_rest", "hs_empty"}
  /\ sopen' = IF k = "hs_first" THEN TRUE ELSE IF k = "hs_rest" THEN FALSE ELSE sopen
  /\ seq' = seq + 1 /\ past' = Keep(<<r>>)
  /\ UNCHANGED sent
  /\ PutItems(<<r>>, Ev("auth", 0, 0, k), FALSE)

AtkOk == cnt.atk < MaxAttack

\* a forged record in the place of the peer's next one (a = 0), or put in
\* front of it (a = 1): what the peer seals next still has the next number
Forge(p, a) ==
  /\ AtkOk /\ (a = 1 => "inject" \in Attacks)
  /\ seq' = seq + 1 - a /\ UNCHANGED <<sent, past, sopen>>
  /\ PutItems(<<Item("forged", seq, 0, 0)>>, Ev("forge", a, 0, p), TRUE)

Header(h) ==
  /\ AtkOk /\ UNCHANGED <<seq, sent, past, sopen>>
  /\ PutItems(<<Item(h, seq, 0, 0)>>, Ev("auth", 0, 0, h), TRUE)

Drop(n) ==
  /\ AtkOk /\ "drop" \in Attacks
  /\ seq' = seq + 1 /\ sent' = sent + n /\ past' = Keep(<<App(seq, sent, n)>>)
  /\ UNCHANGED sopen
  /\ PutItems(<<>>, Ev("drop", n, 0, ""), TRUE)

Replay(j) ==
  /\ AtkOk /\ "replay" \in Attacks
  /\ UNCHANGED <<seq, sent, past, sopen>>
  /\ PutItems(<<past[j]>>, Ev("replay", j - 1, 0, ""), TRUE)

Swap(n, m) ==
  LET a == App(seq, sent, n)
      b == App(seq + 1, sent + n, m) IN
  /\ AtkOk /\ "swap" \in Attacks
  /\ seq' = seq + 2 /\ sent' = sent + n + m /\ past' = Keep(<<a, b>>)
  /\ UNCHANGED sopen
  /\ PutItems(<<b, a>>, Ev("swap", n, m, ""), TRUE)

Reflect ==
  /\ AtkOk /\ "reflect" \in Attacks
  /\ UNCHANGED <<seq, sent, past, sopen>>
  /\ PutItems(<<Item("forged", 0, 0, 0)>>, Ev("reflect", 0, 0, ""), TRUE)

\* cut: a record of n bytes of which only a part arrives
Control(k, n) ==
  /\ seq' = IF k \in {"cut", "errmid"} THEN seq + 1 ELSE seq
  /\ sent' = IF k \in {"cut", "errmid"} THEN sent + n ELSE sent
  /\ UNCHANGED <<past, sopen>>
  /\ PutItems(<<Ctl(k)>>, Ev(k, n, 0, ""), FALSE)

-----------------------------------------------------------------------------
\* the sending side

Recs(k) == (k + MaxRec - 1) \div MaxRec

\* the f-th record of this write fails (0: none does); its number is spent
Write(k, f) ==
  LET m == IF f = 0 THEN Recs(k) ELSE f IN
  /\ CanOp /\ Count("op") /\ f <= Recs(k)
  /\ wr' = [num |-> wr.num + m, used |-> wr.used \union (wr.num .. wr.num + m - 1),
            reuse |-> wr.reuse \/ (wr.used \intersect (wr.num .. wr.num + m - 1)) # {}]
  /\ UNCHANGED <<q, seq, sent, past, sopen, cl>>
  /\ Log(Ev("write", k, f, ""), IF f = 0 THEN Recs(k) ELSE f - 1)

Close(f) ==
  /\ CanOp /\ cnt.close < Closes
  /\ cnt' = [cnt EXCEPT !.op = @ + 1, !.close = @ + 1]
  /\ wr' = [wr EXCEPT !.num = @ + 1, !.used = @ \union {wr.num}, !.reuse = @ \/ wr.num \in wr.used]
  /\ UNCHANGED <<q, seq, sent, past, sopen, cl>>
  /\ Log(Ev("close", f, 0, ""), IF f = 0 THEN 1 ELSE 0)

Next ==
  \/ \E n \in Sizes : Send(n)
  \/ \E k \in Auths : SendAuth(k)
  \/ \E p \in Forges, a \in {0, 1} : Forge(p, a)
  \/ \E h \in Headers : Header(h)
  \/ \E n \in Sizes : Drop(n)
  \/ \E j \in DOMAIN past : Replay(j)
  \/ \E n, m \in Sizes : Swap(n, m)
  \/ Reflect
  \/ \E k \in Controls, n \in Sizes : Control(k, n)
  \/ \E k \in Reads : Read(k)
  \/ \E k \in Writes, f \in Faults : Write(k, f)
  \/ \E f \in Faults \intersect {0, 1} : Close(f)

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* C08, C10: what is received is the stream, from its start, without a gap
Prefix == cl.good /\ cl.got <= cl.upto /\ cl.upto <= sent

\* C11: once closed, nothing more is taken from the transport or delivered
\* beyond what was received before
ClosedForGood == [][cl.closed => cl'.closed /\ cl'.upto = cl.upto]_vars
ClosedReads   == [][(cl.closed /\ cl'.got # cl.got) => q' = q]_vars

\* C06
NoReuse == ~wr.reuse

\* a read returns something whenever something is there
ReadSome ==
  [][\A k \in Reads : (k > 0 /\ hist' # hist /\ hist'[Len(hist')].ev = Ev("read", k, 0, "")
                        /\ Avail(cl, q) > 0) => cl'.got > cl.got]_vars

View == <<q, seq - cl.rx, sent, past, sopen, cl, wr.num, cnt>>

PrintTest == PrintT("TEST " \o ToJson(hist'))
=============================================================================
