------------------------------ MODULE Scanner ------------------------------
(***************************************************************************)
(* The character scanner: it reads the characters of a text one by one,    *)
(* can push back the last one, and knows the row and the column.  At the   *)
(* end it delivers -1, as often as it is asked to; pushing that back does  *)
(* nothing.  The specification is only how many characters are consumed:   *)
(* the position is a function of that, whatever the history.               *)
(***************************************************************************)
EXTENDS Lexer, Json, SequencesExt
CONSTANTS Alphabet, MaxText, MaxOps
VARIABLES vText, vN, vLast, vHist

Texts == UNION {[1..k -> Alphabet] : k \in 0..MaxText}
Pos(k) == <<RowAt(vText, k), ColAt(vText, k)>>
Log(op, c, k) == Append(vHist, <<op, c, Pos(k)[1], Pos(k)[2]>>)

Init == vText \in Texts /\ vN = 0 /\ vLast = "none" /\ vHist = <<>>
Read ==
  IF vN < Len(vText)
  THEN vN' = vN + 1 /\ vLast' = "read" /\ vHist' = Log("R", vText[vN + 1], vN + 1)
  ELSE vN' = vN /\ vLast' = "eof" /\ vHist' = Log("R", -1, vN)
Unread ==
  /\ vLast \in {"read", "eof"}
  /\ vN' = IF vLast = "read" THEN vN - 1 ELSE vN
  /\ vLast' = "unread"
  /\ vHist' = Log("U", 0, vN')
Next == Len(vHist) < MaxOps /\ (Read \/ Unread) /\ vText' = vText
Spec == Init /\ [][Next]_<<vText, vN, vLast, vHist>>
View == <<vText, [i \in 1..Len(vHist) |-> vHist[i][1]]>>

(* Pushing back restores the position before. *)
Restores == \A i \in 2..Len(vHist) : vHist[i][1] = "U" =>
  IF i = 2 THEN vHist[i][3] = 1 /\ vHist[i][4] = 1
  ELSE vHist[i][3] = vHist[i - 2][3] /\ vHist[i][4] = vHist[i - 2][4]
Emit == Len(vHist) = MaxOps => PrintT(ToJson(<<vText, vHist>>))
=============================================================================
