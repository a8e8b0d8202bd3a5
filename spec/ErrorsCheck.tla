---------------------------- MODULE ErrorsCheck ----------------------------
(***************************************************************************)
(* Judges the errors that the code under test gave for texts: what they    *)
(* say has to be what an error with their place, kind and reason says.     *)
(***************************************************************************)
EXTENDS Errors, Json
CONSTANTS File
VARIABLES vN

Given == TLCEval(ndJsonDeserialize(File))
Init == vN = 1
Next == vN < Len(Given) /\ vN' = vN + 1
Spec == Init /\ [][Next]_vN

EndsIn(t, x) == Len(x) <= Len(t) /\ SubSeq(t, Len(t) - Len(x) + 1, Len(t)) = x
\* the place of a text without an address begins with whatever stands for none
Wrong(r) ==
  LET l == [kind |-> r.kind, uri |-> r.uri, row |-> r.row, col |-> r.col]
      t == Text([layers |-> <<l>>, reason |-> r.reason]) IN
  CASE r.kind \notin Kinds -> "is of no declared kind"
    [] r.reason = "" -> "gives no reason"
    [] r.row < 1 \/ r.col < 1 -> "is nowhere"
    [] r.noise -> "shows how it was put together"
    [] ~r.bare /\ r.text # t -> "should read " \o t
    [] r.bare /\ ~EndsIn(r.text, ":" \o ToString(r.row) \o ":" \o ToString(r.col) \o ": " \o r.kind \o " error: " \o r.reason) -> "should end like " \o t
    [] OTHER -> ""

Emit == Wrong(Given[vN]) # "" => PrintT(ToJson([error |-> vN, why |-> Wrong(Given[vN])]))
ASSUME PrintT(ToJson([errors |-> Len(Given), kinds |-> {Given[i].kind : i \in 1..Len(Given)}]))
=============================================================================
