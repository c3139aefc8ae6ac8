------------------------------ MODULE CodecGen ------------------------------
(***************************************************************************)
(* Builds messages of Codec.tla by varying parts of a default.  Each state *)
(* is a test of the constructors, sizes, encoding and decoding of the      *)
(* implementation (C16), and the start of corruptions (C15).               *)
(***************************************************************************)
EXTENDS Codec

CONSTANT MaxVary   \* how many parts of a message differ from the default
VARIABLES ty, picks
vars == <<ty, picks>>

Varied(p) == Cardinality({i \in DOMAIN p : p[i] # 1})

Init == /\ ty \in Top
        /\ picks = [i \in DOMAIN Choices[ty] |-> 1]

Vary(i, j) == /\ picks[i] = 1
              /\ picks' = [picks EXCEPT ![i] = j]
              /\ Varied(picks') <= MaxVary
              /\ UNCHANGED ty
Next == \E i \in DOMAIN picks : \E j \in 2 .. Len(Choices[ty][i]) : Vary(i, j)
Spec == Init /\ [][Next]_vars

Part(t, p, i) == Choices[t][i][p[i]]
Value(t, p) == IF TypeOf(t).k = "struct" THEN [i \in DOMAIN p |-> Part(t, p, i)] ELSE Part(t, p, 1)

Test(t, p) ==
  LET v == Value(t, p)
      ok == Built(TypeOf(t), v)
      fits == TopFits(t, v) IN
  [ty |-> t, v |-> v, builds |-> ok, fits |-> ok /\ fits,
   size |-> IF ok THEN Extra(t) + Size(TypeOf(t), v) ELSE 0,
   enc |-> IF ok /\ fits THEN TopEnc(t, v) ELSE <<>>,
   raw |-> IF ~(ok /\ fits) /\ TopWritable(t, v) THEN <<TopEnc(t, v)>> ELSE <<>>]

\* printed once per distinct state: an invariant is evaluated on each new one
PrintTest == PrintT("TEST " \o ToJson(Test(ty, picks)))

\* C15/C16 on the specification: what is encoded decodes, and no proper
\* prefix or extension of it does; checked where the encoding is short
RECURSIVE Flat(_), Times(_, _)
Times(s, n) == IF n = 0 THEN <<>> ELSE s \o Times(s, n - 1)
Flat(runs) == Cat([i \in DOMAIN runs |-> Times(IF Len(runs[i]) = 3 THEN Flat(runs[i][1]) ELSE <<runs[i][1]>>, runs[i][2])])
Small(t, v) == Size(TypeOf(t), v) < 120
Sound ==
  LET v == Value(ty, picks) T == TypeOf(ty) IN
  (Built(T, v) /\ TopFits(ty, v) /\ Small(ty, v)) =>
      LET b == Flat(TopEnc(ty, v)) IN
      /\ Len(b) = Extra(ty) + Size(T, v)
      /\ ty < 100 => /\ Message(b)
                     /\ \A n \in 0 .. Len(b) - 1 : ~Message(SubSeq(b, 1, n))
                     /\ ~Message(Append(b, 0))
                     /\ Buffered(b) = "message" /\ Buffered(Append(b, 0)) = "message"
      /\ ty >= 100 => /\ Whole(T, b)
                      /\ \A n \in 0 .. Len(b) - 1 : ~Whole(T, SubSeq(b, 1, n))
\* what is outside its bounds is no message, even when it can be written
SoundRaw ==
  LET v == Value(ty, picks) T == TypeOf(ty) IN
  (~Built(T, v) /\ TopWritable(ty, v) /\ Size(T, v) < 400 /\ "fix" \notin {T.k} /\ ty \notin {1, 2}) =>
      LET b == Flat(TopEnc(ty, v)) IN IF ty < 100 THEN ~Message(b) ELSE ~Whole(T, b)
=============================================================================
