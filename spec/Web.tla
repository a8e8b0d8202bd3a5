-------------------------------- MODULE Web --------------------------------
(***************************************************************************)
(* The page and the function the web build hands to it.  The page calls    *)
(* the function with something; the answer to a text is the one the        *)
(* library has for the script of that text, to anything else it is a       *)
(* result or an error; and the function is there for the next call.        *)
(***************************************************************************)
EXTENDS Front, Utf16, Json
CONSTANTS Args,     \* [kind, u]: kind is "text" (u are its UTF-16 code units) or something else (u is empty)
          MaxCalls, \* all histories of up to so many calls,
          Long      \* and these
VARIABLES vPlan, vCalls, vAnswers, vReady

\* A string of JavaScript, read as characters: halves of pairs are replaced.
RECURSIVE Chars(_)
Chars(u) ==
  IF u = <<>> THEN <<>>
  ELSE IF IsHigh(u[1]) /\ Len(u) > 1 /\ IsLow(u[2]) THEN <<65536 + (u[1] - 55296) * 1024 + (u[2] - 56320)>> \o Chars(SubSeq(u, 3, Len(u)))
  ELSE <<IF IsHigh(u[1]) \/ IsLow(u[1]) THEN 65533 ELSE u[1]>> \o Chars(Tail(u))

Answer == TLCEval([i \in 1..Len(Args) |->
  IF Args[i].kind # "text" THEN [v |-> "any", t |-> Nil] ELSE FrontVerdict(FrontAll(FrontInit("script"), Chars(Args[i].u)))])
ASSUME \A i \in 1..Len(Args) :
  PrintT(ToJson([arg |-> i, kind |-> Args[i].kind, u |-> Args[i].u, s |-> Chars(Args[i].u), v |-> Answer[i].v, tree |-> Answer[i].t]))

Init == /\ vPlan \in UNION {[1..n -> 1..Len(Args)] : n \in 1..MaxCalls} \cup Long
        /\ vCalls = 0 /\ vAnswers = <<>> /\ vReady = TRUE
Call == vReady /\ vCalls < Len(vPlan) /\ vCalls' = vCalls + 1 /\ vReady' = FALSE /\ UNCHANGED <<vPlan, vAnswers>>
Return == ~vReady /\ vAnswers' = Append(vAnswers, Answer[vPlan[vCalls]].v) /\ vReady' = TRUE /\ UNCHANGED <<vPlan, vCalls>>
Next == Call \/ Return
Spec == Init /\ [][Next]_<<vPlan, vCalls, vAnswers, vReady>>

OneEach == Len(vAnswers) = IF vReady THEN vCalls ELSE vCalls - 1
History == \A k \in 1..Len(vAnswers) : vAnswers[k] = Answer[vPlan[k]].v   \* whatever came before
Emit == vReady /\ vCalls = Len(vPlan) => PrintT(ToJson(vPlan))
=============================================================================
