----------------------------- MODULE Isolation -----------------------------
(***************************************************************************)
(* Several parsers, each reading a text of its own, one call of its reader *)
(* at a time, in any interleaving with few switches between them; a        *)
(* parser that runs to the end before the next begins is a history.  What  *)
(* a parser knows is only what its own reader delivered.                   *)
(***************************************************************************)
EXTENDS Front, Json
CONSTANTS Texts,     \* [mode, s] each, s a sequence of code points
          Groups,    \* sequences of texts that are parsed together
          Runs,      \* how many calls a parser makes until another one goes on; 0 means to the end
          MaxRuns
VARIABLES vGroup, vRuns, vPos, vState

Alone == TLCEval([i \in 1..Len(Texts) |-> FrontVerdict(FrontAll(FrontInit(Texts[i].mode), Texts[i].s))])
ASSUME \A i \in 1..Len(Texts) :
  PrintT(ToJson([text |-> i, mode |-> Texts[i].mode, s |-> Texts[i].s, v |-> Alone[i].v, tree |-> Alone[i].t]))

Init == /\ vGroup \in Groups /\ vRuns = <<>>
        /\ vPos = [p \in 1..Len(vGroup) |-> 0]
        /\ vState = [p \in 1..Len(vGroup) |-> FrontInit(Texts[vGroup[p]].mode)]

Text(p) == Texts[vGroup[p]].s

Go(p, n) ==
  LET to == IF n = 0 THEN Len(Text(p)) ELSE (IF vPos[p] + n < Len(Text(p)) THEN vPos[p] + n ELSE Len(Text(p))) IN
  /\ vRuns' = Append(vRuns, <<p, n>>)
  /\ vPos' = [vPos EXCEPT ![p] = to]
  /\ vState' = [vState EXCEPT ![p] = FrontAll(@, SubSeq(Text(p), vPos[p] + 1, to))]
  /\ vGroup' = vGroup
Next ==
  /\ Len(vRuns) < MaxRuns
  /\ \E p \in 1..Len(vGroup), n \in Runs :
       /\ IF vRuns = <<>> THEN TRUE ELSE vRuns[Len(vRuns)][1] # p
       /\ \A k \in 1..Len(vRuns) : vRuns[k] # <<p, 0>>
       /\ Go(p, n)
Spec == Init /\ [][Next]_<<vGroup, vRuns, vPos, vState>>
View == <<vGroup, vRuns>>

Isolated == \A p \in 1..Len(vGroup) : vState[p] = FrontAll(FrontInit(Texts[vGroup[p]].mode), SubSeq(Text(p), 1, vPos[p]))
\* Whoever is not through goes on to the end; what comes out is what it is alone.
Same == \A p \in 1..Len(vGroup) :
  FrontVerdict(FrontAll(vState[p], SubSeq(Text(p), vPos[p] + 1, Len(Text(p))))) = Alone[vGroup[p]]
Emit == Len(vRuns) = MaxRuns => PrintT(ToJson(<<vGroup, vRuns>>))
=============================================================================
