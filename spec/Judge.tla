-------------------------------- MODULE Judge --------------------------------
(***************************************************************************)
(* What the specification says about given texts, character by character.  *)
(***************************************************************************)
EXTENDS Front, Json
CONSTANTS File,    \* lines {"mode": ..., "s": [characters]}
          Chunk
VARIABLES vAt

Texts == TLCEval(ndJsonDeserialize(File))
Init == vAt = 0
Next == \/ vAt = 0 /\ vAt' \in {i \in 1..Len(Texts) : i % Chunk = 1}
        \/ vAt > 0 /\ (vAt % Chunk) # 0 /\ vAt < Len(Texts) /\ vAt' = vAt + 1
Spec == Init /\ [][Next]_vAt

Answer(i) == FrontVerdict(FrontAll(FrontInit(Texts[i].mode), Texts[i].s))
Emit == vAt > 0 => \A a \in {Answer(vAt)} :
  /\ a.v \in {"accept", "reject", "unspec"}
  /\ PrintT(ToJson([text |-> vAt, v |-> a.v, tree |-> a.t]))
=============================================================================
