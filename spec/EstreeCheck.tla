---------------------------- MODULE EstreeCheck ----------------------------
(* Checks the forms of the nodes that the code under test produced. *)
EXTENDS Estree, Json
CONSTANTS File
VARIABLES vForm

Forms == TLCEval(ndJsonDeserialize(File))
Init == vForm = 1
Next == vForm < Len(Forms) /\ vForm' = vForm + 1
Spec == Init /\ [][Next]_vForm

Emit == Wrong(Forms[vForm]) # "" => PrintT(ToJson([form |-> vForm, why |-> Wrong(Forms[vForm])]))
ASSUME PrintT(ToJson([types |-> Cardinality(DOMAIN Shape), seen |-> Cardinality({Forms[i].t : i \in 1..Len(Forms)}),
                      unseen |-> DOMAIN Shape \ {Forms[i].t : i \in 1..Len(Forms)}]))
=============================================================================
