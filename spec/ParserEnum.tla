----------------------------- MODULE ParserEnum -----------------------------
(***************************************************************************)
(* Enumerates, for each frame, every sequence over its alphabet that some  *)
(* program starts with, and prints what the parser has to answer for it.   *)
(***************************************************************************)
EXTENDS Frames, Json
CONSTANTS Names,   \* sequence of frame names
          Deep     \* thorough bounds?
VARIABLES vFrame, vPath, vCfg

Fr == [i \in 1..Len(Names) |->
        LET r == Frame[Names[i]] IN
        [mode |-> r.mode, pre |-> Toks(r.pre), al |-> Toks(r.al), suf |-> Toks(r.suf),
         n |-> IF Deep THEN r.t ELSE r.q]]

ASSUME \A i \in 1..Len(Names) :
  LET r == Frame[Names[i]] IN
  PrintT(ToJson([frame |-> i, name |-> Names[i], mode |-> r.mode, pre |-> r.pre, al |-> r.al, suf |-> r.suf, n |-> Fr[i].n]))

Init == \E i \in 1..Len(Names) :
  /\ vFrame = i /\ vPath = <<>> /\ vCfg = StepAll(Initial(Fr[i].mode), Fr[i].pre)

Next ==
  /\ vCfg.v = "ok" /\ Len(vPath) < Fr[vFrame].n
  /\ \E i \in 1..Len(Fr[vFrame].al) :
       LET d == StepAny(vCfg, Fr[vFrame].al[i]) IN
       /\ ~(d.v = "dead" /\ d.why = "syntax")
       /\ vPath' = Append(vPath, i)
       /\ vCfg' = d
       /\ vFrame' = vFrame

Spec == Init /\ [][Next]_<<vFrame, vPath, vCfg>>
View == <<vFrame, vPath>>

Emit ==
  IF vCfg.v = "unspec" THEN PrintT(ToJson(<<vFrame, vPath, "U">>))
  ELSE IF vCfg.v = "dead" THEN PrintT(ToJson(<<vFrame, vPath, "C">>))
  ELSE LET w == Verdict(StepAll(vCfg, Fr[vFrame].suf), FALSE) IN
       IF w.v = "accept" THEN PrintT(ToJson(<<vFrame, vPath, "A", w.t>>))
       ELSE PrintT(ToJson(<<vFrame, vPath, IF w.v = "unspec" THEN "V" ELSE "R">>))
=============================================================================
