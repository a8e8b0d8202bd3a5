------------------------------- MODULE Errors -------------------------------
(***************************************************************************)
(* What the errors of the project say.  An error is a reason in layers,    *)
(* each of which adds a place and a kind: errors of reading are wrapped as *)
(* encoding errors, and what is wrapped may itself be such an error.       *)
(*                                                                         *)
(*   an error     [layers |-> <<outermost, ..., innermost>>, reason |-> s] *)
(*   a layer      [kind, uri, row, col]                                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt, TLC

Kinds == {"syntax", "encoding", "parser"}

Place(l) == l.uri \o ":" \o ToString(l.row) \o ":" \o ToString(l.col)
Prefix(l) == Place(l) \o ": " \o l.kind \o " error: "

RECURSIVE Text(_)
Text(e) == IF e.layers = <<>> THEN e.reason ELSE Prefix(Head(e.layers)) \o Text([e EXCEPT !.layers = Tail(@)])

Wrap(l, e) == [e EXCEPT !.layers = <<l>> \o @]
Unwrap(e) == [e EXCEPT !.layers = Tail(@)]

(* What errors.As finds for a kind: the outermost layer of it. *)
As(e, k) == LET s == SelectSeq(e.layers, LAMBDA l : l.kind = k) IN IF s = <<>> THEN <<>> ELSE <<Head(s)>>
=============================================================================
