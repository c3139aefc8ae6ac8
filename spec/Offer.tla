-------------------------------- MODULE Offer --------------------------------
(***************************************************************************)
(* What a ClientHello offers, and what a conforming server may make of it. *)
(*                                                                         *)
(* HELLOS holds ClientHello messages as the client sent them, one array of *)
(* octets a line.  Each is judged (Faults), and from each a server chooses *)
(* step by step: a suite, a compression method, a curve, a form of point,  *)
(* a signature algorithm, which extensions it answers, and whether it      *)
(* sends the messages those allow.  Every way to choose is a test: the     *)
(* client has to go through with it (C28), for it was its own proposal.    *)
(***************************************************************************)
EXTENDS Codec, Integers

CONSTANT Most   \* offers answered

Hellos == ndJsonDeserialize(IOEnv.HELLOS)

Two     == Enum(2, 0..65535)
AnyExt  == Struct(<<Two, Opaque(2, 0, 65535)>>)
Hello   == Struct(<<Version, Random, Sid, Vec(2, 2, 65534, Two), Vec(1, 1, 255, Byte), Opt(Vec(2, 0, 65535, AnyExt))>>)
Empty   == Struct(<<>>)
\* extension_data of a ClientHello (RFC 6066, 6520, 7301, 7627, 8422, 8449, 5246, 5746)
Form ==
  (0  :> Vec(2, 1, 65535, Struct(<<Byte, Opaque(2, 1, 65535)>>))) @@
  (1  :> Enum(1, 1..4)) @@
  (5  :> Struct(<<Byte, Rest>>)) @@
  (10 :> Vec(2, 2, 65535, Two)) @@
  (11 :> Vec(1, 1, 255, Byte)) @@
  (13 :> Vec(2, 2, 65534, Two)) @@
  (15 :> Enum(1, 1..2)) @@
  (16 :> Vec(2, 2, 65535, Opaque(1, 1, 255))) @@
  (18 :> Empty) @@ (22 :> Empty) @@ (23 :> Empty) @@
  (28 :> Enum(2, 64..65535)) @@
  (43 :> Vec(1, 2, 254, Two)) @@
  (65281 :> Opaque(1, 0, 0))

----------------------------------------------------------------------------
\* Reading one

WellFormed(b) == Len(b) >= 4 /\ b[1] = 1 /\ Num(b, 2, 3) = Len(b) - 4 /\ Dec(Hello, b, 5, Len(b) + 1) = Len(b) + 1

Twos(b, i, n) == {Num(b, i + 2 * j, 2) : j \in 0 .. (n \div 2) - 1}
RECURSIVE ExtsAt(_, _)
ExtsAt(b, i) ==
  IF i > Len(b) THEN <<>>
  ELSE LET n == Num(b, i + 2, 2) IN <<[t |-> Num(b, i, 2), b |-> SubSeq(b, i + 4, i + 3 + n)]>> \o ExtsAt(b, i + 4 + n)

Grease(v) == v \div 256 = v % 256 /\ v % 16 = 10   \* RFC 8701: chosen by nobody
Signals   == {255, 22016}                          \* not suites

Parse(b) ==
  LET s == 40 + b[39] ns == Num(b, s, 2) c == s + 2 + ns x == c + 1 + b[c] es == ExtsAt(b, x + 2) IN
  [ver |-> Num(b, 5, 2), suites |-> {v \in Twos(b, s + 2, ns) : ~Grease(v) /\ v \notin Signals},
   comps |-> {b[c + j] : j \in 1 .. b[c]}, exts |-> es]

Has(h, t)  == \E i \in DOMAIN h.exts : h.exts[i].t = t
Body(h, t) == h.exts[CHOOSE i \in DOMAIN h.exts : h.exts[i].t = t].b
Listed(h, t) == {v \in Twos(Body(h, t), 3, Len(Body(h, t)) - 2) : ~Grease(v)}
BytesIn(h, t) == {Body(h, t)[j] : j \in 2 .. Len(Body(h, t))}

\* what follows from an extension left out (RFC 5246, 8422)
Groups(h)  == IF Has(h, 10) THEN Listed(h, 10) ELSE {23, 24, 25}
Formats(h) == IF Has(h, 11) THEN BytesIn(h, 11) ELSE {0}
Pairs(h)   == IF Has(h, 13) THEN Listed(h, 13) ELSE {513}

Rsa(p)   == (p % 256 = 1 /\ p \div 256 \in 1..6) \/ (p \div 256 = 8 /\ p % 256 \in {4, 5, 6, 9, 10, 11})
Ecdsa(p) == (p % 256 = 3 /\ p \div 256 \in 1..6) \/ p \in {2055, 2056}

Faults(b) ==
  IF ~WellFormed(b) THEN {"not a ClientHello"} ELSE
  LET h == Parse(b) IN
  IF \E i \in DOMAIN h.exts : h.exts[i].t \in DOMAIN Form /\ ~Whole(Form[h.exts[i].t], h.exts[i].b)
  THEN {"extension malformed"} ELSE
  {f \in {"version", "suite", "compression", "curve", "point format", "signature algorithm", "unsigned", "extension twice", "other versions"} :
     CASE f = "version" -> h.ver # 771
       [] f = "suite" -> 52392 \notin h.suites
       [] f = "compression" -> 0 \notin h.comps
       [] f = "curve" -> 23 \notin Groups(h)
       [] f = "point format" -> 0 \notin Formats(h)
       [] f = "signature algorithm" -> 1025 \notin Pairs(h)
       [] f = "unsigned" -> \E p \in Pairs(h) : p \div 256 = 0 \/ (p \div 256 \in 1..6 /\ p % 256 = 0)
       [] f = "extension twice" -> \E i, j \in DOMAIN h.exts : i # j /\ h.exts[i].t = h.exts[j].t
       [] f = "other versions" -> Has(h, 43) /\ (\E v \in {Num(Body(h, 43), 2 * j, 2) : j \in 1 .. (Len(Body(h, 43)) \div 2)} : v > 771 /\ ~Grease(v))}

----------------------------------------------------------------------------
\* Answering one

RECURSIVE Names(_, _)
Names(b, i) == IF i > Len(b) THEN {} ELSE {SubSeq(b, i, i + b[i])} \cup Names(b, i + 1 + b[i])
\* the answers a server may give to an extension
Answers(e) ==
  CASE e.t \in {0, 5, 23, 35} -> {<<>>}
    [] e.t = 1  -> {e.b}
    [] e.t = 11 -> {<<1, 0>>}
    [] e.t = 15 -> {<<1>>, <<2>>}
    [] e.t = 16 -> {<<0, Len(n)>> \o n : n \in Names(e.b, 3)}
    [] e.t = 18 -> {<<0, 6, 0, 4, 1, 2, 3, 4>>}
    [] e.t = 28 -> {<<0, 64>>, <<2, 0>>, <<64, 0>>}
    [] e.t = 65281 -> {<<0>>}
    [] OTHER -> {}

\* ECDHE suites, by what signs
EcdheEcdsa == (49158 .. 49162) \cup {49187, 49188, 49195, 49196, 52393} \cup (49324 .. 49327)
EcdheRsa   == (49168 .. 49172) \cup {49191, 49192, 49199, 49200, 52392}
Ours       == {52392, 52393}    \* with which the peer can go to the end

VARIABLES no, at, ch, seen
vars == <<no, at, ch, seen>>
H == Parse(Hellos[no])

None == [suite |-> 0, comp |-> 0, group |-> 0, fmt |-> 0, pair |-> 0, exts |-> <<>>, status |-> FALSE]
Init == no = 0 /\ at = "hello" /\ ch = None /\ seen = {}

\* the next hello; one that offers what an earlier did is not answered again
Key(b) == LET h == Parse(b) IN [h EXCEPT !.exts = [j \in DOMAIN h.exts |-> IF h.exts[j].t \in {21, 51} THEN <<>> ELSE h.exts[j]]]
Send ==
  /\ at = "hello" /\ no < Len(Hellos)
  /\ no' = no + 1
  /\ LET b == Hellos[no + 1] f == Faults(b) IN
     IF f # {} THEN PrintT("BAD " \o ToJson([i |-> no, what |-> f])) /\ UNCHANGED <<at, ch, seen>>
     ELSE /\ seen' = seen \cup {Key(b)}
          /\ UNCHANGED ch
          /\ at' = IF Key(b) \in seen \/ Cardinality(seen) >= Most THEN "hello" ELSE "suite"

PickSuite == at = "suite" /\ \E s \in H.suites : ch' = [ch EXCEPT !.suite = s] /\ at' = "comp" /\ UNCHANGED <<no, seen>>
PickComp  == at = "comp" /\ \E c \in H.comps : ch' = [ch EXCEPT !.comp = c] /\ at' = "group" /\ UNCHANGED <<no, seen>>
PickGroup ==
  /\ at = "group" /\ UNCHANGED <<no, seen>>
  /\ IF ch.suite \in EcdheEcdsa \cup EcdheRsa
     THEN at' = "fmt" /\ \E g \in Groups(H) : ch' = [ch EXCEPT !.group = g]
     ELSE at' = "exts" /\ UNCHANGED ch
PickFmt ==
  /\ at = "fmt" /\ UNCHANGED <<no, seen>> /\ at' = "pair"
  /\ \E f \in Formats(H) : (f = 0 \/ (f = 1 /\ ch.group \in 23..25)) /\ ch' = [ch EXCEPT !.fmt = f]
PickPair ==
  /\ at = "pair" /\ UNCHANGED <<no, seen>> /\ at' = "exts"
  /\ \E p \in Pairs(H) : (IF ch.suite \in EcdheRsa THEN Rsa(p) ELSE Ecdsa(p)) /\ ch' = [ch EXCEPT !.pair = p]

\* no answers, one, or the first to each
Answer(t, a) == [t |-> t, b |-> a]
RECURSIVE Firsts(_)
Firsts(es) == IF es = <<>> THEN <<>>
              ELSE (IF Answers(Head(es)) = {} THEN <<>> ELSE <<Answer(Head(es).t, CHOOSE a \in Answers(Head(es)) : TRUE)>>) \o Firsts(Tail(es))
PickExts ==
  /\ at = "exts" /\ UNCHANGED <<no, seen>> /\ at' = "more"
  /\ \E x \in {<<>>, Firsts(H.exts)} \cup UNION {{<<Answer(H.exts[j].t, a)>> : a \in Answers(H.exts[j])} : j \in DOMAIN H.exts} :
       ch' = [ch EXCEPT !.exts = x]
Answered(t) == \E j \in DOMAIN ch.exts : ch.exts[j].t = t
PickStatus ==
  /\ at = "more" /\ UNCHANGED <<no, seen>> /\ at' = "done"
  /\ \E s \in (IF Answered(5) THEN BOOLEAN ELSE {FALSE}) : ch' = [ch EXCEPT !.status = s]

\* what follows from the choices
End == IF ch.suite \in Ours /\ ch.comp = 0 /\ ch.group = 23 THEN "connect" ELSE "goes on"
Bound(e) == IF e.t = 1 THEN 2 ^ (8 + e.b[1]) ELSE IF e.t = 28 THEN e.b[1] * 256 + e.b[2] ELSE 16384
Limit == CHOOSE n \in {16384} \cup {Bound(ch.exts[j]) : j \in DOMAIN ch.exts} :
           \A j \in DOMAIN ch.exts : n <= Bound(ch.exts[j])
Flight == <<"sh_pick", "cert_one">> \o (IF ch.status THEN <<"status">> ELSE <<>>)
          \o (IF ch.group # 0 THEN <<"ske_pick">> ELSE <<>>) \o <<"shd_ok">>
Test == [no |-> no, ch |-> ch, end |-> End, limit |-> Limit, ems |-> Answered(23), ticket |-> Answered(35), beat |-> Answered(15), flight |-> Flight]
Play == at = "done" /\ at' = "hello" /\ ch' = None /\ UNCHANGED <<no, seen>> /\ PrintT("TEST " \o ToJson(Test))

Next == Send \/ PickSuite \/ PickComp \/ PickGroup \/ PickFmt \/ PickPair \/ PickExts \/ PickStatus \/ Play
Spec == Init /\ [][Next]_vars

\* a server chooses what was offered
FromOffer ==
  /\ ch.suite # 0 => ch.suite \in H.suites
  /\ ch.group # 0 => ch.group \in Groups(H)
  /\ ch.pair # 0 => ch.pair \in Pairs(H)
  /\ \A j \in DOMAIN ch.exts : Has(H, ch.exts[j].t)
=============================================================================
