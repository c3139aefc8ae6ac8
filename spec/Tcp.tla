--------------------------------- MODULE Tcp ---------------------------------
(***************************************************************************)
(* A connection over real sockets: a server and a client program run side  *)
(* by side, each waiting for the other only where it reads.  The server    *)
(* sends its flight (or the first messages of it, then ends), then follows *)
(* its program; it may rest between steps.  Whatever the interleaving, the *)
(* client's calls give what Expect says.                                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json

CONSTANTS SOps, COps, MaxS, MaxC, Gones, Ends

\* bytes of an operation; the names are those of the configuration
Bytes == ("send5" :> 5) @@ ("send20000" :> 20000) @@ ("send300000" :> 300000) @@ ("recv5" :> 5) @@ ("recv300000" :> 300000)
      @@ ("write5" :> 5) @@ ("write300000" :> 300000) @@ ("write9000000" :> 9000000) @@ ("read5" :> 5) @@ ("read20000" :> 20000)
      @@ ("read300000" :> 300000) @@ ("rest" :> 0)

Sends == {"send5", "send20000", "send300000"}
Reads == {"read5", "read20000", "read300000"}

VARIABLES sp, cp, gone, end,   \* the programs: server, client, messages of the flight sent, how the server ends
          fl, hello, fin,      \* handshake progress: server messages, client's two flights
          si, ci, down, up, shut,
          conn, res
vars == <<sp, cp, gone, end, fl, hello, fin, si, ci, down, up, shut, conn, res>>

Progs(S, n) == UNION {[1..k -> S] : k \in 0..n}

Init ==
  /\ gone \in Gones /\ end \in Ends
  /\ sp \in Progs(SOps, MaxS) /\ cp \in Progs(COps, MaxC)
  /\ gone < 6 => sp = <<>> /\ cp = <<>> /\ end = "fin"
  /\ fl = 0 /\ hello = FALSE /\ fin = FALSE /\ si = 1 /\ ci = 1 /\ down = 0 /\ up = 0 /\ shut = FALSE
  /\ conn = "connecting" /\ res = <<>>

Prog == UNCHANGED <<sp, cp, gone, end>>

\* ------------------------------------------------------------- handshake
Hello == ~hello /\ hello' = TRUE /\ Prog /\ UNCHANGED <<fl, fin, si, ci, down, up, shut, conn, res>>
Message ==
  /\ fl < gone /\ hello /\ (fl >= 4 => fin)
  /\ fl' = fl + 1 /\ Prog /\ UNCHANGED <<hello, fin, si, ci, down, up, shut, conn, res>>
Reply == fl = 4 /\ ~fin /\ fin' = TRUE /\ Prog /\ UNCHANGED <<fl, hello, si, ci, down, up, shut, conn, res>>
Connected ==
  /\ conn = "connecting" /\ fl = 6
  /\ conn' = "up" /\ res' = <<"ok">> /\ Prog /\ UNCHANGED <<fl, hello, fin, si, ci, down, up, shut>>
Refused ==
  /\ conn = "connecting" /\ shut /\ fl < 6
  /\ conn' = "done" /\ res' = <<"IoFailure">> /\ Prog /\ UNCHANGED <<fl, hello, fin, si, ci, down, up, shut>>

\* ---------------------------------------------------------------- server
Serve ==
  /\ fl = 6 /\ si <= Len(sp)
  /\ LET o == sp[si] n == Bytes[o] IN
     \/ o \in Sends /\ down' = down + n /\ UNCHANGED up
     \/ o = "rest" /\ UNCHANGED <<down, up>>
     \/ o \notin Sends /\ o # "rest" /\ up >= n /\ up' = up - n /\ UNCHANGED down
  /\ si' = si + 1 /\ Prog /\ UNCHANGED <<fl, hello, fin, ci, shut, conn, res>>
Shut ==
  /\ ~shut /\ end # "none" /\ fl = gone /\ (gone = 4 => fin) /\ si > Len(sp) /\ hello
  /\ shut' = TRUE /\ Prog /\ UNCHANGED <<fl, hello, fin, si, ci, down, up, conn, res>>

\* ---------------------------------------------------------------- client
Call ==
  /\ conn = "up" /\ ci <= Len(cp)
  /\ LET o == cp[ci] n == Bytes[o] IN
     IF o \in Reads
     THEN \/ down >= n /\ down' = down - n /\ res' = Append(res, "ok") /\ UNCHANGED up
          \/ down < n /\ shut /\ down' = 0 /\ res' = Append(res, "short") /\ UNCHANGED up
     ELSE /\ up' = up + n /\ UNCHANGED down
          \* after it has seen the end the client may refuse to write
          /\ res' = Append(res, IF \E i \in DOMAIN res : res[i] \in {"short", "any"} THEN "any" ELSE "ok")
  /\ ci' = ci + 1 /\ Prog /\ UNCHANGED <<fl, hello, fin, si, shut, conn>>
\* all that is left, then the end
Rest ==
  /\ conn = "up" /\ ci > Len(cp)
  /\ IF end = "none" THEN res' = res /\ UNCHANGED down
     ELSE /\ shut /\ down' = 0
          /\ res' = Append(res, IF end = "notify" THEN "end" ELSE "cut")
  /\ conn' = "done" /\ Prog /\ UNCHANGED <<fl, hello, fin, si, ci, up, shut>>

Next == Hello \/ Message \/ Reply \/ Connected \/ Refused \/ Serve \/ Shut \/ Call \/ Rest
Spec == Init /\ [][Next]_vars

Done == conn = "done" /\ si > Len(sp) /\ (end = "none" \/ shut) /\ (gone = 6 \/ fl = gone)

-----------------------------------------------------------------------------
\* what the programs alone determine
RECURSIVE Sent(_)
Sent(p) == IF p = <<>> THEN 0 ELSE (IF p[1] \in Sends THEN Bytes[p[1]] ELSE 0) + Sent(Tail(p))
RECURSIVE Results(_, _, _)
Results(p, left, over) ==
  IF p = <<>> THEN <<>>
  ELSE IF p[1] \in Reads
       THEN IF left >= Bytes[p[1]] THEN <<"ok">> \o Results(Tail(p), left - Bytes[p[1]], over)
            ELSE <<"short">> \o Results(Tail(p), 0, TRUE)
       ELSE <<IF over THEN "any" ELSE "ok">> \o Results(Tail(p), left, over)
Expect ==
  IF gone < 6 THEN <<"IoFailure">>
  ELSE <<"ok">> \o Results(cp, Sent(sp), FALSE) \o (CASE end = "none" -> <<>> [] end = "notify" -> <<"end">> [] OTHER -> <<"cut">>)

\* C13: the outcome does not depend on the interleaving
Confluent == Done => res = Expect
\* C04: with the whole flight there the client connects, in every interleaving
Connects == (fl = 6 /\ conn # "connecting") => res[1] = "ok"

PrintTest ==
  Done' /\ ~Done => PrintT("TEST " \o ToJson([sp |-> sp, cp |-> cp, gone |-> gone, end |-> end, res |-> res']))
=============================================================================
