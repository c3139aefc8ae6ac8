------------------------------ MODULE Handshake ------------------------------
(***************************************************************************)
(* The husk TLS 1.2 client while it establishes a connection, against a    *)
(* server that may send anything.                                          *)
(*                                                                         *)
(* One action per record delivered to the client (plus end or failure of   *)
(* the transport).  The client's reaction to a record is one atomic step:  *)
(* it decrypts the record if it already switched its receive side, adds    *)
(* handshake bytes to its reassembly buffer, and processes every message   *)
(* that is complete, writing its own records as it goes.  This is what     *)
(* src/client.rs TlsClient::handshake does between two blocking reads.     *)
(*                                                                         *)
(* Handshake messages are named variants (table Msg); a variant fixes how  *)
(* the message decodes and whether its contents are acceptable.  The       *)
(* harness knows how to render every variant into bytes.                   *)
(*                                                                         *)
(* Deliberate deviations of husk from RFC 5246, modelled as they are:      *)
(*  - HelloRequest during the handshake is an error (the RFC ignores it);  *)
(*  - CertificateRequest is an error (no client authentication);           *)
(*  - certificates and the ServerKeyExchange signature are not verified;   *)
(*  - a received alert is answered with a fatal close_notify, and in the   *)
(*    position of ChangeCipherSpec with a fatal unexpected_message;        *)
(*  - the version field of a record header is not checked.                 *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS
  Msgs,        \* subset of DOMAIN Msg: what the server may send
  Split,       \* TRUE: handshake messages may be cut over several records
  MaxWhole,    \* most whole messages in one record
  Others,      \* subset of DOMAIN Other: records that are no handshake records
  Prots,       \* how records are protected after ChangeCipherSpec
  Tampers,     \* changes made in transit to server messages
  CTampers,    \* changes made in transit to client messages
  WFaults,     \* which client record fails to be written (0: none)
  KeepVariants \* TRUE: distinguish states by the variants accepted so far

\* t: message type;  d: "ok", or the error class decoding gives
\* c: "ok", or the error class the client's check of the contents gives
V(t, d, c) == [t |-> t, d |-> d, c |-> c]
Good(t)    == V(t, "ok", "ok")
Undec(t)   == V(t, "DecodeError", "ok")
Bad(t)     == V(t, "ok", "IllegalParameter")

Msg ==
  \* ServerHello: acceptable
     ("sh_ok"         :> Good("sh"))  \* two extensions, 32-byte session id
  @@ ("sh_noext"      :> Good("sh"))  \* no extension block
  @@ ("sh_emptyext"   :> Good("sh"))  \* extension block of length 0
  @@ ("sh_unkext"     :> Good("sh"))  \* extensions husk does not know
  @@ ("sh_allext"     :> Good("sh"))  \* every extension type husk parses
  @@ ("sh_sid0"       :> Good("sh"))
  @@ ("sh_sid1"       :> Good("sh"))
  \* ServerHello: parameters that were not offered
  @@ ("sh_ver_0302"   :> Bad("sh"))  @@ ("sh_ver_0304"   :> Bad("sh"))
  @@ ("sh_ver_0203"   :> Bad("sh"))  @@ ("sh_ver_0300"   :> Bad("sh"))
  @@ ("sh_ver_fefd"   :> Bad("sh"))
  @@ ("sh_cs_c02f"    :> Bad("sh"))  @@ ("sh_cs_cc13"    :> Bad("sh"))
  @@ ("sh_cs_cca9"    :> Bad("sh"))  @@ ("sh_cs_0000"    :> Bad("sh"))
  @@ ("sh_cs_a8cc"    :> Bad("sh"))  @@ ("sh_cs_00ff"    :> Bad("sh"))
  @@ ("sh_comp_1"     :> Bad("sh"))
  @@ ("sh_comp_2"     :> Undec("sh")) @@ ("sh_comp_255"  :> Undec("sh"))
  \* ServerHello: malformed
  @@ ("sh_trunc"      :> Undec("sh"))  \* body ends early
  @@ ("sh_trail"      :> Undec("sh"))  \* bytes after the extension block
  @@ ("sh_sid33"      :> Undec("sh"))
  @@ ("sh_extshort"   :> Undec("sh"))  \* block length below its contents
  @@ ("sh_extlong"    :> Undec("sh"))  \* block length above its contents
  @@ ("sh_extsize"    :> Undec("sh"))  \* known extension, wrong inner size
  @@ ("sh_empty"      :> Undec("sh"))
  \* Certificate
  @@ ("cert_one"      :> Good("cert")) @@ ("cert_none"   :> Good("cert"))
  @@ ("cert_chain"    :> Good("cert")) @@ ("cert_big"    :> Good("cert"))
  @@ ("cert_trunc"    :> Undec("cert")) @@ ("cert_long"  :> Undec("cert"))
  @@ ("cert_zero"     :> Undec("cert")) @@ ("cert_empty" :> Undec("cert"))
  @@ ("cert_trail"    :> V("cert", "InternalError", "ok"))
  \* ServerKeyExchange: acceptable
  @@ ("ske_ok"        :> Good("ske")) @@ ("ske_sig0"     :> Good("ske"))
  @@ ("ske_siglong"   :> Good("ske")) @@ ("ske_lead0"    :> Good("ske"))
  @@ ("ske_one"       :> Good("ske"))  \* the generator itself
  \* ServerKeyExchange: curve or point not acceptable
  @@ ("ske_curve_22"  :> Bad("ske")) @@ ("ske_curve_24"  :> Bad("ske"))
  @@ ("ske_curve_1"   :> Bad("ske")) @@ ("ske_curve_ff01" :> Bad("ske"))
  @@ ("ske_pt_off"    :> Bad("ske")) @@ ("ske_pt_comp"   :> Bad("ske"))
  @@ ("ske_pt_short"  :> Bad("ske")) @@ ("ske_pt_long"   :> Bad("ske"))
  @@ ("ske_pt_fmt2"   :> Bad("ske")) @@ ("ske_pt_fmt6"   :> Bad("ske"))
  @@ ("ske_pt_fmt0"   :> Bad("ske")) @@ ("ske_pt_zero"   :> Bad("ske"))
  @@ ("ske_pt_inf"    :> Bad("ske"))   \* the one-byte encoding of infinity
  @@ ("ske_pt_xp"     :> Bad("ske"))   \* x+p for a point with small x
  @@ ("ske_pt_yp"     :> Bad("ske"))   \* y+p for a point with small y
  @@ ("ske_pt_max"    :> Bad("ske"))   \* all bits set
  @@ ("ske_pt_neg"    :> Bad("ske"))   \* y one off
  @@ ("ske_pt_b"      :> Bad("ske"))   \* point of a curve with another b
  \* ServerKeyExchange: malformed (the client decodes it in this position)
  @@ ("ske_ctype_1"   :> V("ske", "ok", "DecodeError"))
  @@ ("ske_ctype_2"   :> V("ske", "ok", "DecodeError"))
  @@ ("ske_ctype_0"   :> V("ske", "ok", "DecodeError"))
  @@ ("ske_curve_29"  :> V("ske", "ok", "DecodeError"))
  @@ ("ske_curve_0"   :> V("ske", "ok", "DecodeError"))
  @@ ("ske_pt_none"   :> V("ske", "ok", "DecodeError"))
  @@ ("ske_trunc"     :> V("ske", "ok", "DecodeError"))
  @@ ("ske_trail"     :> V("ske", "ok", "DecodeError"))
  @@ ("ske_hash_7"    :> V("ske", "ok", "DecodeError"))
  @@ ("ske_sig_4"     :> V("ske", "ok", "DecodeError"))
  @@ ("ske_empty"     :> V("ske", "ok", "DecodeError"))
  \* ServerHelloDone
  @@ ("shd_ok"        :> Good("shd"))
  @@ ("shd_trail"     :> V("shd", "InternalError", "ok"))
  \* Finished
  @@ ("fin_ok"        :> Good("fin"))
  @@ ("fin_flip"      :> V("fin", "ok", "DecryptError")) \* one bit wrong
  @@ ("fin_client"    :> V("fin", "ok", "DecryptError")) \* the client's own
  @@ ("fin_clabel"    :> V("fin", "ok", "DecryptError")) \* label "client finished"
  @@ ("fin_nocfin"    :> V("fin", "ok", "DecryptError")) \* hash without client Finished
  @@ ("fin_zero"      :> V("fin", "ok", "DecryptError"))
  @@ ("fin_short"     :> Undec("fin"))
  @@ ("fin_long"      :> V("fin", "InternalError", "ok"))
  @@ ("fin_empty"     :> Undec("fin"))
  \* Well-formed messages that have no place here
  @@ ("hello_req"     :> Good("hreq"))
  @@ ("client_hello"  :> Good("ch"))
  @@ ("cert_req"      :> Good("creq"))
  @@ ("cke"           :> Good("cke"))
  @@ ("hreq_trail"    :> V("hreq", "InternalError", "ok"))
  \* Message types husk does not know
  @@ ("unk_3"         :> V("unk", "UnexpectedMessage", "ok"))
  @@ ("unk_4"         :> V("unk", "UnexpectedMessage", "ok"))
  @@ ("unk_15"        :> V("unk", "UnexpectedMessage", "ok"))
  @@ ("unk_22"        :> V("unk", "UnexpectedMessage", "ok"))
  @@ ("unk_255"       :> V("unk", "UnexpectedMessage", "ok"))

\* Records other than handshake data.  r: what the reader makes of them:
\* a message ("ccs", "alert", "app"), an error class, or end of transport.
\* pre: the error is found in the header, before decryption.
O(r, pre) == [r |-> r, pre |-> pre]
Other ==
     ("ccs_ok"      :> O("ccs", FALSE))
  @@ ("ccs_0"       :> O("UnexpectedMessage", FALSE))
  @@ ("ccs_2"       :> O("UnexpectedMessage", FALSE))
  @@ ("ccs_empty"   :> O("UnexpectedMessage", FALSE))
  @@ ("ccs_long"    :> O("UnexpectedMessage", FALSE))
  @@ ("al_close_w"  :> O("alert", FALSE)) @@ ("al_close_f" :> O("alert", FALSE))
  @@ ("al_warn"     :> O("alert", FALSE)) @@ ("al_fatal"   :> O("alert", FALSE))
  @@ ("al_three"    :> O("alert", FALSE))  \* a third byte is ignored
  @@ ("al_empty"    :> O("UnexpectedMessage", FALSE))
  @@ ("al_one"      :> O("UnexpectedMessage", FALSE))
  @@ ("al_level"    :> O("UnexpectedMessage", FALSE))
  @@ ("al_desc"     :> O("UnexpectedMessage", FALSE))
  @@ ("app"         :> O("app", FALSE)) @@ ("app_empty"  :> O("app", FALSE))
  @@ ("hs_empty"    :> O("UnexpectedMessage", FALSE))
  @@ ("over"        :> O("RecordOverflow", FALSE)) \* plaintext of 2^14+1 or more
  @@ ("unk_type"    :> O("UnexpectedMessage", TRUE))
  @@ ("len_over"    :> O("RecordOverflow", TRUE))  \* length above 2^14+2048
  @@ ("eof"         :> O("IoFailure", TRUE))
  @@ ("eof_mid"     :> O("IoFailure", TRUE))
  @@ ("ioerr"       :> O("IoFailure", TRUE))

NoMsg == "none"

VARIABLES
  cl,    \* the client (record, see ClInit)
  open,  \* server message of which only some bytes were delivered, or NoMsg
  otam,  \* change made in transit to that message
  agree, \* how the two views of the transcript relate: same, soft, keys, any
  ctam,  \* change made in transit to the client's messages
  wf,    \* number of the client record whose write fails (0: none)
  hist   \* the behaviour so far (hidden by the view)

vars == <<cl, open, otam, agree, ctam, wf, hist>>

ClPhases == <<"sh", "cert", "ske", "shd", "ccs", "fin", "done">>
NextPhase(p) == CASE p = "sh" -> "cert" [] p = "cert" -> "ske" [] p = "ske" -> "shd"
                  [] p = "shd" -> "ccs" [] p = "ccs" -> "fin" [] p = "fin" -> "done"

AlertOf(kind) ==
  CASE kind = "UnexpectedMessage" -> 10
    [] kind = "BadRecordMac"      -> 20
    [] kind = "RecordOverflow"    -> 22
    [] kind = "IllegalParameter"  -> 47
    [] kind = "DecodeError"       -> 50
    [] kind = "DecryptError"      -> 51
    [] kind = "InternalError"     -> 80
    [] kind = "AlertReceived"     -> 0

-----------------------------------------------------------------------------
\* The client as a function of its state c and an input.

\* write one record; the wf-th write fails
Emit(c, r, w) ==
  IF c.res # "pending" /\ r.t # "alert" THEN c
  ELSE IF c.nout + 1 = w THEN [c EXCEPT !.nout = @ + 1, !.res = "IoFailure"]
  ELSE [c EXCEPT !.nout = @ + 1, !.out = Append(@, r)]

Rec(t, enc) == [t |-> t, enc |-> enc, desc |-> 0]
AlertRec(d, enc) == [t |-> "alert", enc |-> enc, desc |-> d]

Fail(c, kind, w) ==
  LET f == [c EXCEPT !.res = kind]
  IN  IF kind = "IoFailure" THEN f ELSE Emit(f, AlertRec(AlertOf(kind), c.tx), w)

\* a complete handshake message arrived
OnMsg(c, m, ag, w) ==
  LET v == Msg[m] IN
  IF c.res # "pending" THEN c
  ELSE IF v.d # "ok" THEN Fail(c, v.d, w)
  ELSE IF c.ph = "ccs" \/ v.t # c.ph THEN Fail(c, "UnexpectedMessage", w)
  ELSE IF v.c # "ok" THEN Fail(c, v.c, w)
  ELSE IF c.ph = "fin" /\ ag # "same" THEN Fail(c, "DecryptError", w)
  ELSE LET d == [c EXCEPT !.ph = NextPhase(@), !.seen = Append(@, v.t),
                          !.var = IF KeepVariants THEN Append(@, m) ELSE @]
       IN  CASE c.ph = "shd" ->
                LET e1 == Emit(d, Rec("cke", FALSE), w)
                    e2 == Emit(e1, Rec("ccs", FALSE), w)
                    e3 == [e2 EXCEPT !.tx = (e2.res = "pending")]
                IN  Emit(e3, Rec("fin", TRUE), w)
             [] c.ph = "fin" -> [d EXCEPT !.res = "ok"]
             [] OTHER -> d

\* a record that is no handshake data arrived; part: a message is incomplete
OnOther(c, o, part, w) ==
  LET r == Other[o].r IN
  CASE r = "ccs" ->
         IF c.ph = "ccs" /\ ~part
         THEN [c EXCEPT !.ph = "fin", !.rx = TRUE, !.seen = Append(@, "ccs")]
         ELSE Fail(c, "UnexpectedMessage", w)
    [] r = "alert" -> Fail(c, IF c.ph = "ccs" THEN "UnexpectedMessage" ELSE "AlertReceived", w)
    [] r = "app" -> Fail(c, "UnexpectedMessage", w)
    [] OTHER -> Fail(c, r, w)

-----------------------------------------------------------------------------
\* How views diverge.  keys: different master secrets; soft: same keys,
\* different transcripts; any: one arbitrary byte changed.
Worse(a, b) ==
  CASE a = "any" \/ b = "any" -> "any"
    [] a = "keys" \/ b = "keys" -> "keys"
    [] a = "soft" \/ b = "soft" -> "soft"
    [] OTHER -> "same"

\* which messages can be changed in transit and stay acceptable
TamperOk(m, tam) ==
  \/ tam = "same"
  \/ tam = "any"  /\ Msg[m].d = "ok" /\ Msg[m].c = "ok" /\ Msg[m].t \in {"sh", "cert", "ske", "shd"}
  \/ tam = "soft" /\ m \in {"sh_ok", "cert_one", "ske_ok"}
  \/ tam = "keys" /\ m \in {"sh_ok", "ske_ok"}

CTamEffect(t) ==
  CASE t = "none"    -> "same"
    [] t = "ch_rand" -> "keys"   \* client random changed before the server saw it
    [] t = "ch_ext"  -> "soft"   \* another byte of ClientHello
    [] t = "ch_any"  -> "any"
    [] t = "cke"     -> "keys"   \* another valid point
    [] t = "cke_any" -> "any"    \* one byte of ClientKeyExchange, its header included
    [] t = "cfin"    -> "soft"   \* the server hashes another client Finished

\* c2s tampering takes effect when the message has been sent
CTamNow(c, t) ==
  IF t \in {"none", "ch_rand", "ch_ext", "ch_any"} \/ c.ph \in {"ccs", "fin", "done"}
  THEN CTamEffect(t) ELSE "same"

-----------------------------------------------------------------------------
ClInit(w) ==
  Emit([ph |-> "sh", rx |-> FALSE, tx |-> FALSE, res |-> "pending", nout |-> 0,
        out |-> <<>>, seen |-> <<>>, var |-> <<>>], Rec("ch", FALSE), w)

Init ==
  /\ wf \in WFaults
  /\ ctam \in CTampers
  /\ cl = ClInit(wf)
  /\ open = NoMsg
  /\ otam = "same"
  /\ agree = CTamNow(cl, ctam)
  /\ hist = <<[ev |-> [op |-> "start", pieces |-> <<>>, prot |-> "plain", rx |-> FALSE],
               out |-> cl.out, res |-> cl.res, agree |-> agree]>>

\* pieces of one handshake record, as <<message, part, tamper>>
\* (part: all, first, more, rest)
Piece(m, p, t) == [m |-> m, part |-> p, tam |-> t]

RECURSIVE Feed(_, _, _, _, _)
\* deliver the pieces to client c; stops being interesting once c failed
Feed(c, ps, i, ag, w) ==
  IF i > Len(ps) THEN [c |-> c, ag |-> ag]
  ELSE LET p == ps[i] IN
    IF p.part \in {"first", "more"} THEN Feed(c, ps, i + 1, ag, w)
    ELSE LET ag1 == Worse(ag, p.tam)
             c1  == OnMsg(c, p.m, Worse(ag1, CTamNow(c, ctam)), w)
         IN  Feed(c1, ps, i + 1, Worse(ag1, CTamNow(c1, ctam)), w)

Log(ev, c1, ag1) ==
  hist' = Append(hist, [ev |-> ev, out |-> SubSeq(c1.out, Len(cl.out) + 1, Len(c1.out)),
                        res |-> c1.res, agree |-> ag1])

\* can the record be opened by the client, given its receive state?
Opens(prot) ==
  IF cl.rx THEN prot = "good" /\ agree # "keys" ELSE prot = "plain"

\* protections a server may apply now: before ChangeCipherSpec everything is plain
ProtsNow == IF cl.rx THEN Prots ELSE {"plain"}

HsRecord(ps, prot) ==
  LET last == ps[Len(ps)]
      ev   == [op |-> "hs", pieces |-> ps, prot |-> prot, rx |-> cl.rx]
      r    == IF Opens(prot) THEN Feed(cl, ps, 1, agree, wf)
              ELSE [c |-> Fail(cl, "BadRecordMac", wf), ag |-> agree]
  IN  /\ cl' = r.c
      /\ agree' = r.ag
      /\ IF last.part \in {"first", "more"}
         THEN open' = last.m /\ otam' = last.tam
         ELSE open' = NoMsg /\ otam' = "same"
      /\ Log(ev, r.c, r.ag)
      /\ UNCHANGED <<ctam, wf>>

OtherRecord(o, prot) ==
  LET ev == [op |-> o, pieces |-> <<>>, prot |-> prot, rx |-> cl.rx]
      c1 == IF Other[o].pre \/ Opens(prot) THEN OnOther(cl, o, open # NoMsg, wf)
            ELSE Fail(cl, "BadRecordMac", wf)
  IN  /\ cl' = c1
      /\ Log(ev, c1, agree)
      /\ UNCHANGED <<open, otam, agree, ctam, wf>>

\* the contents of a handshake record the server may send next: optionally the
\* rest of the open message, then whole messages, then the start of another one.
\* Pieces after a message that makes the client fail are pointless and left out.
Accepts(c, m, ag) == OnMsg(c, m, ag, 0).res = "pending"

Wholes == {Piece(m, "all", t) : m \in Msgs, t \in Tampers}
WholesOk == {p \in Wholes : TamperOk(p.m, p.tam)}
Firsts == IF Split THEN {[p EXCEPT !.part = "first"] : p \in WholesOk} ELSE {}

RECURSIVE Tails(_, _, _)
\* sequences of pieces after client state c, at most n whole messages
Tails(c, ag, n) ==
  {<<>>} \union {<<f>> : f \in Firsts} \union
  (IF n = 0 THEN {} ELSE
     UNION { LET r == Feed(c, <<p>>, 1, ag, 0)
             IN  IF r.c.res = "pending" THEN {<<p>> \o q : q \in Tails(r.c, r.ag, n - 1)}
                 ELSE {<<p>>} : p \in WholesOk })

Contents ==
  IF open = NoMsg
  THEN Tails(cl, agree, MaxWhole) \ {<<>>}
  ELSE LET rest == Piece(open, "rest", otam)
           more == Piece(open, "more", otam)
           r    == Feed(cl, <<rest>>, 1, agree, 0)
       IN  {<<more>>} \union
           (IF r.c.res # "pending" \/ MaxWhole = 0 THEN {<<rest>>}
            ELSE {<<rest>> \o q : q \in Tails(r.c, r.ag, MaxWhole - 1)})

Deliver ==
  /\ cl.res = "pending"
  /\ \E prot \in ProtsNow :
       \/ /\ \E ps \in Contents : HsRecord(ps, prot)
       \/ \E o \in Others :
            /\ Other[o].pre => prot \in {"plain", "good"}
            /\ OtherRecord(o, prot)

\* after an arbitrary change in transit the client may fail at any time
FailAny ==
  /\ cl.res = "pending" /\ agree = "any"
  /\ \E k \in {"any"} : cl' = [cl EXCEPT !.res = k]
  /\ UNCHANGED <<open, otam, agree, ctam, wf, hist>>

Next == Deliver \/ FailAny

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* The properties, on the model.

Established == cl.res = "ok"

TypeOK ==
  /\ cl.ph \in {ClPhases[i] : i \in 1..7}
  /\ open \in Msgs \union {NoMsg}
  /\ agree \in {"same", "soft", "keys", "any"}

\* C01
ExactFlight ==
  /\ Established => cl.seen = <<"sh", "cert", "ske", "shd", "ccs", "fin">>
  /\ (\E i \in DOMAIN cl.out : cl.out[i].t \in {"cke", "ccs", "fin"})
        => Len(cl.seen) >= 4
  /\ Established => cl.rx /\ cl.tx

\* C02, C03: nothing bad was accepted (Msg variants with a bad check never
\* advance the phase, so it is enough to look at the divergence)
Agreement == Established => agree = "same"

\* C05
IsAlert(r) == r.t = "alert"
AlertDiscipline ==
  LET alerts == {i \in DOMAIN cl.out : IsAlert(cl.out[i])}
      failed == cl.res \notin {"pending", "ok", "any"}
  IN  /\ (failed /\ cl.res # "IoFailure") =>
            /\ alerts = {Len(cl.out)}
            /\ cl.out[Len(cl.out)].desc = AlertOf(cl.res)
            /\ cl.out[Len(cl.out)].enc = cl.tx
      /\ (~failed \/ cl.res = "IoFailure") => alerts = {}

\* everything after the client's ChangeCipherSpec is protected, nothing before
Protected ==
  \A i \in DOMAIN cl.out :
    cl.out[i].enc <=> (\E j \in 1..(i - 1) : cl.out[j].t = "ccs")

View == <<[ph |-> cl.ph, rx |-> cl.rx, tx |-> cl.tx, res |-> cl.res, var |-> cl.var,
           nout |-> cl.nout, seen |-> cl.seen], open, otam, agree, ctam, wf>>

\* print every transition as a test (one shortest behaviour leading to it)
PrintTest ==
  IF hist' # hist
  THEN PrintT("TEST " \o ToJson([wf |-> wf, ctam |-> ctam, hist |-> hist']))
  ELSE TRUE
=============================================================================
