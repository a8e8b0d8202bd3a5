------------------------------- MODULE LexSim -------------------------------
(***************************************************************************)
(* Long random texts, character by character, with what the lexer has to   *)
(* deliver for them: mostly what goes on, now and then whatever comes.     *)
(* For TLC's simulation mode.  How often a piece comes is how often it     *)
(* stands in the alphabet.                                                 *)
(***************************************************************************)
EXTENDS LexEnum
Rnd(S) == RandomElement(IF Len(vPath) < 0 THEN {} ELSE S)
Runs(i) == FeedAll(vLex, Fr[vFrame].al[i])
SimNext ==
  /\ Len(vPath) < Fr[vFrame].n
  /\ vLex.m \notin {"U", "err"}
  /\ \E any \in {Rnd(1..60)} :
     \E try \in {TLCEval([k \in 1..6 |-> Rnd(1..Len(Fr[vFrame].al))])} :
     \E lexs \in {TLCEval([k \in 1..6 |-> FeedAll(vLex, Fr[vFrame].al[try[k]])])} :
     \E on \in {{k \in 1..6 : lexs[k].m \notin {"U", "err"}}} :
     \E k \in {IF any = 1 \/ on = {} THEN 1 ELSE Min(on)} :
       vPath' = Append(vPath, try[k]) /\ vLex' = lexs[k] /\ vFrame' = vFrame
SimSpec == Init /\ [][SimNext]_<<vFrame, vPath, vLex>>
\* not every beginning
SimEmit == (Len(vPath) % 7 = 0 \/ Len(vPath) = Fr[vFrame].n \/ vLex.m \in {"U", "err"}) => Emit
=============================================================================
