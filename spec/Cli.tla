-------------------------------- MODULE Cli --------------------------------
(***************************************************************************)
(* The estree command: a machine that goes through the files it is given,  *)
(* opens, reads and parses each, prints the tree, and stops at the first   *)
(* that it cannot open, read or parse.                                     *)
(***************************************************************************)
EXTENDS Front, Json
CONSTANTS Files,   \* [name, kind, s, at, pad]: kind is "text" (the file has the text s, with pad more blanks behind character at),
                   \* "missing" (it cannot be opened) or "dir" (it cannot be read)
          Short,   \* how many of them are in
          MaxList, \* all lists of files up to this length,
          Lists    \* and these
VARIABLES vList, vAt, vPhase, vOut, vStatus, vNamed

Tree == TLCEval([i \in 1..Len(Files) |->
  IF Files[i].kind = "text" THEN FrontVerdict(FrontAll(FrontInit("script"), Files[i].s)) ELSE [v |-> "none", t |-> Nil]])
ASSUME \A i \in 1..Len(Files) :
  PrintT(ToJson([file |-> i, name |-> Files[i].name, kind |-> Files[i].kind, s |-> Files[i].s, at |-> Files[i].at, pad |-> Files[i].pad, v |-> Tree[i].v, tree |-> Tree[i].t]))

\* one more blank behind a blank changes nothing but the position, however often
Placeless(f) == [f EXCEPT !.l.i = 0, !.l.col = 0, !.l.st = 0]
ASSUME \A i \in 1..Len(Files) : Files[i].pad > 0 =>
  LET c == FrontAll(FrontInit("script"), SubSeq(Files[i].s, 1, Files[i].at)) IN
  Files[i].s[Files[i].at] = 32 /\ Placeless(FrontAll(c, <<32>>)) = Placeless(c)

AllLists == UNION {[1..n -> 1..Short] : n \in 0..MaxList} \cup Lists
Init == vList \in AllLists /\ vAt = 1 /\ vPhase = "open" /\ vOut = <<>> /\ vStatus = -1 /\ vNamed = 0

Running == vStatus = -1
File == Files[vList[vAt]]
Finish(status, named) == vStatus' = status /\ vNamed' = named /\ UNCHANGED <<vList, vAt, vPhase, vOut>>
To(phase) == vPhase' = phase /\ UNCHANGED <<vList, vAt, vOut, vStatus, vNamed>>
Open == /\ Running /\ vPhase = "open" /\ vAt <= Len(vList)
        /\ IF File.kind = "missing" THEN Finish(1, vList[vAt]) ELSE To("read")
Read == /\ Running /\ vPhase = "read"
        /\ IF File.kind = "dir" THEN Finish(1, vList[vAt]) ELSE To("parse")
Parse == /\ Running /\ vPhase = "parse"
         /\ IF Tree[vList[vAt]].v = "accept" THEN To("print") ELSE Finish(1, vList[vAt])
Write == /\ Running /\ vPhase = "print"
         /\ vOut' = vOut \o (IF vAt = 1 THEN <<>> ELSE <<0>>) \o <<vList[vAt]>>    \* 0 is the line ---
         /\ vAt' = vAt + 1 /\ vPhase' = "open" /\ UNCHANGED <<vList, vStatus, vNamed>>
AllDone == Running /\ vPhase = "open" /\ vAt > Len(vList) /\ Finish(0, 0)
Next == Open \/ Read \/ Parse \/ Write \/ AllDone
Spec == Init /\ [][Next]_<<vList, vAt, vPhase, vOut, vStatus, vNamed>>

Separated == \A k \in 1..Len(vOut) : (vOut[k] = 0) = (k % 2 = 0)
Documents == SelectSeq(vOut, LAMBDA x : x # 0) = SubSeq(vList, 1, vAt - 1)
NoTail == vOut # <<>> => vOut[Len(vOut)] # 0
Good(i) == Files[i].kind = "text" /\ Tree[i].v = "accept"
Status == ~Running =>
  /\ (vStatus = 0) = (\A k \in 1..Len(vList) : Good(vList[k]))
  /\ vStatus # 0 => /\ vNamed = vList[vAt] /\ ~Good(vNamed)
                    /\ \A k \in 1..vAt - 1 : Good(vList[k])
Emit == ~Running => PrintT(ToJson(<<vList, vOut, vStatus, vNamed>>))
=============================================================================
