------------------------------ MODULE QueueSim ------------------------------
(***************************************************************************)
(* Long random histories of the token scanner on long texts, with far      *)
(* peeks.  For TLC's simulation mode.                                      *)
(***************************************************************************)
EXTENDS TokQueue

Random(S) == RandomElement(IF Len(vHist) < 0 THEN {} ELSE S)
Far == <<0, 0, 1, 1, 2, 3, 5, 9, 17, 33, 70>>
SimNext ==
  /\ ~vBad /\ Len(vHist) < MaxOps /\ vText' = vText
  /\ \E r \in {Random(1..12)} : \E i \in {Random(0..Far[Random(1..Len(Far))])} :
       IF r = 1 /\ ENABLED ReScan THEN ReScan
       ELSE IF r < 7 THEN Scan ELSE Peek(IF i > MaxPeek THEN MaxPeek ELSE i)
SimSpec == Init /\ [][SimNext]_<<vText, vRe, vK, vQ, vHist, vBad, vLx>>
=============================================================================
