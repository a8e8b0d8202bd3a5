------------------------------- MODULE Bytes -------------------------------
(***************************************************************************)
(* Texts byte by byte: every sequence of pieces of UTF-8, whole and        *)
(* broken, in every mode.  Bytes that are no part of a character are read  *)
(* as the replacement character.  Each has one of the answers.             *)
(***************************************************************************)
EXTENDS Front, Utf16, Json
CONSTANTS Frm   \* [name, mode, pre, al, suf, n], pre and suf sequences of bytes, al of such
VARIABLES vFrame, vPath, vState,
          vRest   \* bytes that may yet become a character

ASSUME \A i \in 1..Len(Frm) :
  PrintT(ToJson([frame |-> i, name |-> Frm[i].name, mode |-> Frm[i].mode, bytes |-> TRUE, glue |-> TRUE,
                 pre |-> <<Frm[i].pre>>, al |-> Frm[i].al, suf |-> <<Frm[i].suf>>, n |-> Frm[i].n]))

Ends == {<<128>>, <<160>>, <<128, 128>>, <<160, 128>>, <<128, 128, 128>>, <<144, 128, 128>>}
Begins(bs) == \E e \in Ends : WellFormed(bs \o e) = Len(bs) + Len(e)
Held(bs) ==   \* how many of the bytes at the end cannot be decoded yet
  LET ks == {k \in 1..3 : k <= Len(bs) /\ Begins(SubSeq(bs, Len(bs) - k + 1, Len(bs)))}
  IN IF ks = {} THEN 0 ELSE CHOOSE k \in ks : TRUE
Feed1(s, bs) ==
  LET k == Held(bs) IN [s |-> FrontAll(s, Points(SubSeq(bs, 1, Len(bs) - k))), r |-> SubSeq(bs, Len(bs) - k + 1, Len(bs))]

Init == \E i \in 1..Len(Frm) :
  LET d == Feed1(FrontInit(Frm[i].mode), Frm[i].pre) IN
  vFrame = i /\ vPath = <<>> /\ vState = d.s /\ vRest = d.r
Next ==
  /\ vState.c.v = "ok" /\ Len(vPath) < Frm[vFrame].n
  /\ \E i \in 1..Len(Frm[vFrame].al) :
       LET d == Feed1(vState, vRest \o Frm[vFrame].al[i]) IN
       /\ ~(d.s.c.v = "dead" /\ d.s.c.why = "syntax")
       /\ vPath' = Append(vPath, i) /\ vState' = d.s /\ vRest' = d.r /\ vFrame' = vFrame
Spec == Init /\ [][Next]_<<vFrame, vPath, vState, vRest>>
View == <<vFrame, vPath>>

RECURSIVE All(_, _)
All(al, p) == IF p = <<>> THEN <<>> ELSE al[p[1]] \o All(al, Tail(p))
Text == Frm[vFrame].pre \o All(Frm[vFrame].al, vPath)
Answer == FrontVerdict(FrontAll(vState, Points(vRest \o Frm[vFrame].suf)))

(* Decoding piece by piece is decoding. *)
Decoded == vState.c.v = "ok" => vState = FrontAll(FrontInit(Frm[vFrame].mode), SubSeq(Points(Text), 1, Len(Points(Text)) - Len(Points(vRest))))
(* There is an answer to everything. *)
Total == Answer.v \in {"accept", "reject", "unspec"}

Emit ==
  IF vState.c.v = "unspec" THEN PrintT(ToJson(<<vFrame, vPath, "U">>))
  ELSE IF vState.c.v = "dead" THEN PrintT(ToJson(<<vFrame, vPath, "C">>))
  ELSE IF Answer.v = "accept" THEN PrintT(ToJson(<<vFrame, vPath, "A", Answer.t>>))
  ELSE PrintT(ToJson(<<vFrame, vPath, IF Answer.v = "unspec" THEN "V" ELSE "R">>))
=============================================================================
