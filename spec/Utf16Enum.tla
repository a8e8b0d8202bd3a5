----------------------------- MODULE Utf16Enum -----------------------------
(***************************************************************************)
(* Every code point (in blocks of 1024), every byte string over ByteSet up *)
(* to MaxBytes, every string over PointSet up to MaxPoints, and strings of *)
(* a unit repeated many times between others.                              *)
(***************************************************************************)
EXTENDS Utf16, Json
CONSTANTS ByteSet, MaxBytes, PointSet, MaxPoints, Repeats
VARIABLES vKind, vSeq

Init == \/ vKind = "block" /\ vSeq = <<0>>
        \/ vKind = "bytes" /\ vSeq = <<>>
        \/ vKind = "points" /\ vSeq = <<>>
        \/ vKind = "long" /\ \E n \in Repeats, a \in PointSet, b \in PointSet : vSeq = <<n, a, b>>
Next ==
  /\ vKind' = vKind
  /\ \/ vKind = "block" /\ vSeq[1] < 1087 /\ vSeq' = <<vSeq[1] + 1>>
     \/ vKind = "bytes" /\ Len(vSeq) < MaxBytes /\ \E b \in ByteSet : vSeq' = Append(vSeq, b)
     \/ vKind = "points" /\ Len(vSeq) < MaxPoints /\ \E c \in PointSet : vSeq' = Append(vSeq, c)
Spec == Init /\ [][Next]_<<vKind, vSeq>>

Block == {c \in (vSeq[1] * 1024)..(vSeq[1] * 1024 + 1023) : IsScalar(c)}
Rep(n, x) == [i \in 1..n |-> x]

(* Encoding loses nothing, in either encoding. *)
RoundTrip == vKind = "block" => \A c \in Block : Back(Units(c)) = c /\ Points(Bytes(c)) = <<c>> /\ WellFormed(Bytes(c)) = Len(Bytes(c))
(* In a block the units follow each other. *)
Consecutive == vKind = "block" => \A c \in Block :
  LET u == Units(c)  f == Units(vSeq[1] * 1024) IN Len(u) = Len(f) /\ u[Len(u)] = f[Len(f)] + (c % 1024) /\ (Len(u) = 2 => u[1] = f[1])
(* Concatenation. *)
Homomorphic ==
  vKind = "points" => LET bs == BytesOf(vSeq) IN
    /\ Points(bs) = vSeq
    /\ \A n \in 0..Len(vSeq) : Encode(bs) = Encode(BytesOf(SubSeq(vSeq, 1, n))) \o Encode(BytesOf(SubSeq(vSeq, n + 1, Len(vSeq))))

Emit ==
  CASE vKind = "block" -> (Block # {} => PrintT(ToJson(<<"block", vSeq[1] * 1024, Units(vSeq[1] * 1024)>>)))
    [] vKind = "bytes" -> PrintT(ToJson(<<"bytes", vSeq, Encode(vSeq)>>))
    [] vKind = "points" -> PrintT(ToJson(<<"bytes", BytesOf(vSeq), Encode(BytesOf(vSeq))>>))
    [] vKind = "long" -> PrintT(ToJson(<<"long", vSeq[1], Bytes(vSeq[2]), Bytes(vSeq[3]), Units(vSeq[2]), Units(vSeq[3])>>))
=============================================================================
