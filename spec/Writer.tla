-------------------------------- MODULE Writer --------------------------------
(***************************************************************************)
(* The sending side of the record layer: what is given to it is cut into   *)
(* records of at most 2^14 bytes, and once a cipher is set every record is *)
(* sealed under the next record number.  The transport may fail while any  *)
(* record is written; the number of that record is spent.                  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS
  Ops,      \* what may be written: subset of {"ccs", "alert", "hs", "app", "data20", ..., "data23"}
  Sizes,    \* of handshake bodies and data
  Faults,   \* which record of a write the transport fails in (0: none)
  Bases,    \* record numbers (symbolic) the counter is moved to after the cipher is set
  MaxOps

MaxFrag == 16384

VARIABLES secure, base, num, used, reuse, stream, wire, ops, hist
vars == <<secure, base, num, used, reuse, stream, wire, ops, hist>>

Fixed == {"ccs", "alert"}
Items == ((Ops \ Fixed) \X Sizes) \union ((Ops \intersect Fixed) \X {0})

Init ==
  /\ secure = FALSE /\ base = "none" /\ num = 0 /\ used = {} /\ reuse = FALSE
  /\ stream = 0   \* bytes given to the writer in this write
  /\ wire = 0     \* bytes of it handed to the transport, in whole records
  /\ ops = 0 /\ hist = <<>>

\* lengths of the records n bytes are cut into
RECURSIVE Cut(_)
Cut(n) == IF n = 0 THEN <<>> ELSE IF n <= MaxFrag THEN <<n>> ELSE <<MaxFrag>> \o Cut(n - MaxFrag)

RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE s[1] + Sum(Tail(s))

TypeOf(op) == CASE op = "ccs" -> 20 [] op = "alert" -> 21 [] op \in {"hs", "data22"} -> 22
                [] op \in {"app", "data23"} -> 23 [] op = "data21" -> 21 [] op = "data20" -> 20
\* bytes an operation has to put on the wire
SizeOf(op, n) == CASE op = "ccs" -> 1 [] op = "alert" -> 2 [] op = "hs" -> n + 4 [] OTHER -> n

Record(ty, n, k) == [t |-> ty, n |-> n, num |-> IF secure THEN k ELSE 0, sealed |-> secure]

Write(op, n, f) ==
  LET lens == Cut(SizeOf(op, n))
      whole == IF f = 0 THEN Len(lens) ELSE f - 1
      tried == IF f = 0 THEN Len(lens) ELSE f
      nums  == num .. (num + tried - 1)
  IN  /\ ops < MaxOps /\ f <= Len(lens)
      /\ ~secure => op \notin {"app", "data23"}
      /\ ops' = ops + 1
      /\ stream' = SizeOf(op, n)
      /\ wire' = Sum(SubSeq(lens, 1, whole))
      /\ num' = IF secure THEN num + tried ELSE num
      /\ used' = IF secure THEN used \union nums ELSE used
      /\ reuse' = (reuse \/ (secure /\ used \intersect nums # {}))
      /\ UNCHANGED <<secure, base>>
      /\ hist' = Append(hist, [op |-> op, n |-> n, f |-> f, ok |-> f = 0,
                   recs |-> [i \in 1..whole |-> Record(TypeOf(op), lens[i], num + i - 1)], num |-> num'])

SetCipher(b) ==
  /\ ~secure /\ secure' = TRUE /\ base' = b /\ num' = 0
  /\ UNCHANGED <<used, reuse, stream, wire, ops>>
  /\ hist' = Append(hist, [op |-> "cipher", n |-> 0, f |-> 0, ok |-> TRUE, recs |-> <<>>, num |-> 0, base |-> b])

Next == \/ \E it \in Items, f \in Faults : Write(it[1], it[2], f)
        \/ \E b \in Bases : SetCipher(b)

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* C06: no number seals two records; C07: a write that succeeded is complete,
\* one that failed handed over a prefix; records are non-empty and small
NoReuse == ~reuse
Complete == hist # <<>> =>
  LET h == hist[Len(hist)] IN
  /\ (h.ok /\ h.op # "cipher") => wire = stream
  /\ wire <= stream
  /\ \A i \in DOMAIN h.recs : h.recs[i].n \in 1..MaxFrag
CountMatches == secure => Cardinality(used) = num

View == <<secure, base, num, stream, wire, ops>>
PrintTest == PrintT("TEST " \o ToJson(hist'))
=============================================================================
