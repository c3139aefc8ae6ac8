------------------------------ MODULE Effects ------------------------------
(* What a connection does to the world, and asks of it.  Its life is a walk
   through situations: what came of connecting, then of each call, then it is
   dropped.  In each it may write to its own transport, ask for memory and for
   randomness.  Nothing else is its business: Confined.

   A client that is not like this does something else in one situation:
     sink       what it uses         terminal, file, network, environment,
                                     process (threads, programs, signals), sleep
     at         when
     always     or only the second time (said before)
   Each of them is TOLD by a life of this length, or the lives are too short.

   The lives are printed: recordings of the real client are walked along them
   (EffectsJudge.tla), each of them with what was asked of the system.        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Calls,     \* calls in a life
          Rogue      \* look at clients that are not like this, too

Sinks == {"terminal", "file", "network", "environment", "process", "sleep"}

\* what may come of connecting: classes of errors, as the application sees them
Failed == {"IoFailure", "UnexpectedMessage", "BadRecordMac", "RecordOverflow", "IllegalParameter", "DecodeError", "DecryptError",
           "InternalError", "AlertReceived"}
\* and of calls
Came == {"data", "nothing", "readfails", "written", "writefails", "closed", "closefails", "flushed", "flushfails"}

Situations == Failed \cup Came \cup {"connected", "dropped"}

\* what may follow what
After(at) ==
  CASE at = "new" -> Failed \cup {"connected"}
    [] at \in Failed -> {"dropped"}
    [] at = "dropped" -> {}
    [] OTHER -> Came \cup {"dropped"}

VARIABLES at, said, used, rogue
vars == <<at, said, used, rogue>>

None == [sink |-> "none", at |-> "none", again |-> FALSE]

Init ==
  /\ at = "new"
  /\ said = <<>>
  /\ used = {}
  /\ rogue \in {None} \cup (IF Rogue THEN [sink : Sinks, at : Situations, again : BOOLEAN] ELSE {})

Count(s) == Cardinality({i \in DOMAIN said : said[i] = s})

Go(s) ==
  /\ s \in After(at)
  /\ s \in Came => Len(said) <= Calls
  /\ used \subseteq {"wire", "memory", "random"}
  /\ at' = s
  /\ said' = Append(said, s)
  /\ used' = used \cup {"memory"} \cup (IF s \in Failed \cup {"connected"} THEN {"random"} ELSE {}) \cup {"wire"}
              \cup (IF rogue.at = s /\ (rogue.again <=> Count(s) > 0) THEN {rogue.sink} ELSE {})
  /\ UNCHANGED rogue

Next == \E s \in Situations : Go(s)
Spec == Init /\ [][Next]_vars

Confined == rogue = None => used \cap Sinks = {}

PrintTest ==
  /\ IF rogue # None /\ used' \cap Sinks # {} THEN PrintT("TOLD " \o ToJson(rogue)) ELSE TRUE
  /\ IF rogue = None /\ at' = "dropped" THEN PrintT("TEST " \o ToJson(said')) ELSE TRUE
=============================================================================
