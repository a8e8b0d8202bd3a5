----------------------------- MODULE ErrorsEnum -----------------------------
(* Every error of up to MaxLayers layers over the given places and reasons. *)
EXTENDS Errors, Json
CONSTANTS Uris, Numbers, Reasons, MaxLayers
VARIABLES vError

Layers == [kind : Kinds, uri : Uris, row : Numbers, col : Numbers]
Init == \E r \in Reasons : vError = [layers |-> <<>>, reason |-> r]
\* the layers inside vary in less
Next == Len(vError.layers) < MaxLayers /\ \E l \in Layers :
          /\ Len(vError.layers) > 0 => \A m \in Range(vError.layers) : m.row = m.col /\ m.uri = CHOOSE u \in Uris : TRUE
          /\ vError' = Wrap(l, vError)
Spec == Init /\ [][Next]_vError

(* A layer adds something in front, and taking it away gives back the rest. *)
Layered == Len(vError.layers) > 0 =>
  LET inner == Unwrap(vError)  l == Head(vError.layers) IN
  /\ Text(vError) = Prefix(l) \o Text(inner)
  /\ Wrap(l, inner) = vError
  /\ As(vError, l.kind) = <<l>>
  /\ \A k \in Kinds \ {l.kind} : As(vError, k) = As(inner, k)

Emit == PrintT(ToJson([layers |-> vError.layers, reason |-> vError.reason, text |-> Text(vError), as |-> [k \in Kinds |-> As(vError, k)]]))
=============================================================================
