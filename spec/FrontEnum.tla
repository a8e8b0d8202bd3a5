----------------------------- MODULE FrontEnum -----------------------------
(***************************************************************************)
(* Enumerates texts character by character: for each frame of Front.tla    *)
(* every sequence over its alphabet that some program starts with.         *)
(***************************************************************************)
EXTENDS Front, Json
CONSTANTS Names, Deep
VARIABLES vFrame, vPath, vState

Fr == TLCEval([i \in 1..Len(Names) |->
        LET r == FrontFrame[Names[i]] IN
        [mode |-> r.mode, pre |-> r.pre, al |-> r.al, suf |-> r.suf, n |-> IF Deep THEN r.t ELSE r.q]])
ASSUME \A i \in 1..Len(Names) :
  PrintT(ToJson([frame |-> i, name |-> Names[i], mode |-> Fr[i].mode, glue |-> TRUE,
                 pre |-> <<Fr[i].pre>>, al |-> Fr[i].al, suf |-> <<Fr[i].suf>>, n |-> Fr[i].n]))

Init == \E i \in 1..Len(Names) : vFrame = i /\ vPath = <<>> /\ vState = FrontAll(FrontInit(Fr[i].mode), Fr[i].pre)
Next ==
  /\ vState.c.v = "ok" /\ Len(vPath) < Fr[vFrame].n
  /\ \E i \in 1..Len(Fr[vFrame].al) :
       LET d == FrontAll(vState, Fr[vFrame].al[i]) IN
       /\ ~(d.c.v = "dead" /\ d.c.why = "syntax")
       /\ vPath' = Append(vPath, i) /\ vState' = d /\ vFrame' = vFrame
Spec == Init /\ [][Next]_<<vFrame, vPath, vState>>
View == <<vFrame, vPath>>

Emit ==
  IF vState.c.v = "unspec" THEN PrintT(ToJson(<<vFrame, vPath, "U">>))
  ELSE IF vState.c.v = "dead" THEN PrintT(ToJson(<<vFrame, vPath, "C">>))
  ELSE LET w == FrontVerdict(FrontAll(vState, Fr[vFrame].suf)) IN
       IF w.v = "accept" THEN PrintT(ToJson(<<vFrame, vPath, "A", w.t>>))
       ELSE PrintT(ToJson(<<vFrame, vPath, IF w.v = "unspec" THEN "V" ELSE "R">>))
=============================================================================
