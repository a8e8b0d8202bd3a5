------------------------------- MODULE Fault -------------------------------
(***************************************************************************)
(* The parser and the reader it reads from.  The reader delivers the       *)
(* characters of a text one by one; at any point it can say that the text  *)
(* ends, or fail.  The parser has to ask for more as long as what it was   *)
(* given is the beginning of some program; when it is not, it may give up  *)
(* without asking.  So the answer to a failure is an encoding error at the *)
(* position reached, unless the text is already known to be wrong.         *)
(* How often the parser gives a character back to read it again is its     *)
(* affair; but a reader that then refuses has failed as well.              *)
(***************************************************************************)
EXTENDS Front, Json
CONSTANTS Names, Deep
VARIABLES vFrame, vPath, vState,
          vPrev,    \* the state before the last symbol of the path
          vRead,    \* the characters delivered
          vReader,  \* "open", "failed", "refused" or "ended"
          vAnswer   \* of the parser: "none", "encoding", "either" of that and a syntax error, "wrapped", "end"

Fr == TLCEval([i \in 1..Len(Names) |->
        LET r == FrontFrame[Names[i]] IN
        [mode |-> r.mode, pre |-> r.pre, al |-> r.al, n |-> IF Deep THEN r.q ELSE r.q - 1]])
ASSUME \A i \in 1..Len(Names) :
  PrintT(ToJson([frame |-> i, name |-> Names[i], mode |-> Fr[i].mode, glue |-> TRUE,
                 pre |-> <<Fr[i].pre>>, al |-> Fr[i].al, suf |-> <<>>, n |-> Fr[i].n]))

Init == \E i \in 1..Len(Names) :
  /\ vFrame = i /\ vPath = <<>> /\ vRead = Fr[i].pre /\ vState = FrontAll(FrontInit(Fr[i].mode), Fr[i].pre)
  /\ vPrev = FrontInit(Fr[i].mode)
  /\ vReader = "open" /\ vAnswer = "none"

Alive == vState.c.v = "ok"
\* The token that has begun may be known to be one that no program has here.
Could(s, c, w) == Step(s.c, [c |-> c, s |-> w, nl |-> s.l.nl, x |-> IF c = "re" THEN <<"b", "g">> ELSE <<>>, raw |-> ""]).v = "ok"
Open(s) ==
  LET l == s.l IN
  CASE l.m = "punct" -> \E c \in PunctStarts \cup {32, 47, 49} : FrontFeed(s, c).c.v = "ok"
    [] l.m = "qdot" -> Could(s, "p", "?")
    [] l.m \in {"re", "reclass", "reesc", "reclassesc", "flags"} -> Could(s, "re", "/b/g")
    [] l.m \in {"str", "stresc", "strcr"} -> Could(s, "str", "'b'")
    [] l.m = "num" -> Could(s, "num", "1")
    [] l.m \in {"priv0", "priv"} -> Could(s, "prv", "#b")
    [] l.m = "word" -> \E w \in {l.s, l.s \o "x"} \cup {k \in WordSet : Len(k) > Len(l.s) /\ SubSeq(k, 1, Len(l.s)) = l.s} : Could(s, "w", w)
    [] OTHER -> TRUE
\* How much was delivered before the last symbol of the path.
Before == IF vPath = <<>> THEN -1 ELSE Len(vRead) - Len(Fr[vFrame].al[vPath[Len(vPath)]])

Deliver ==
  /\ vReader = "open" /\ Alive /\ Len(vPath) < Fr[vFrame].n
  /\ \E i \in 1..Len(Fr[vFrame].al) :
       LET d == FrontAll(vState, Fr[vFrame].al[i]) IN
       /\ ~(d.c.v = "dead" /\ d.c.why = "syntax")
       /\ vPath' = Append(vPath, i) /\ vState' = d /\ vPrev' = vState /\ vRead' = vRead \o Fr[vFrame].al[i]
  /\ UNCHANGED <<vFrame, vReader, vAnswer>>
\* In front of or within the last symbol, which is alive as it is the beginning of what is.
Fail ==
  /\ vReader = "open" /\ Alive
  /\ \E k \in Before + 1..Len(vRead) :
       /\ vRead' = SubSeq(vRead, 1, k)
       /\ vAnswer' = IF Open(IF k = Len(vRead) THEN vState ELSE FrontAll(vPrev, SubSeq(vRead, IF vPath = <<>> THEN 1 ELSE Before + 1, k))) THEN "encoding" ELSE "either"
  /\ vReader' = "failed" /\ UNCHANGED <<vFrame, vPath, vPrev, vState>>
TextEnd == vReader = "open" /\ Alive /\ vReader' = "ended" /\ vAnswer' = "end" /\ UNCHANGED <<vFrame, vPath, vPrev, vState, vRead>>
\* To take back the last character.
Refuse == vReader = "open" /\ vRead # <<>> /\ vReader' = "refused" /\ vAnswer' = "wrapped" /\ UNCHANGED <<vFrame, vPath, vPrev, vState, vRead>>
Next == Deliver \/ Fail \/ Refuse \/ TextEnd
vars == <<vFrame, vPath, vState, vPrev, vRead, vReader, vAnswer>>
Spec == Init /\ [][Next]_vars
View == <<vFrame, vPath, vReader, Len(vRead)>>

(* An encoding error means that the reader failed, and nothing else does;  *)
(* a parser that still has to decide never answers on its own.             *)
OnlyFailures == /\ (vAnswer \in {"encoding", "either"}) = (vReader = "failed")
                /\ (vAnswer = "wrapped") = (vReader = "refused")
Decided == Alive \/ vReader \in {"open", "refused"}
Answered == vReader # "open" => vAnswer # "none"
\* What was delivered before a failure would have been alive on its own.
Begins == vReader = "failed" => FrontAll(FrontInit(Fr[vFrame].mode), vRead).c.v = "ok"

Emit ==
  CASE vReader = "open" /\ ~Alive -> PrintT(ToJson(<<vFrame, vPath, IF vState.c.v = "unspec" THEN "U" ELSE "C">>))
    [] vReader = "failed" -> PrintT(ToJson(<<vFrame, vPath, IF vAnswer = "encoding" THEN "F" ELSE "G", Len(vRead), RowAt(vRead, Len(vRead)), ColAt(vRead, Len(vRead))>>))
    [] vReader = "refused" -> PrintT(ToJson(<<vFrame, vPath, "X", Len(vRead), RowAt(vRead, Len(vRead)), ColAt(vRead, Len(vRead))>>))
    [] vReader = "ended" ->
         LET w == FrontVerdict(vState) IN
         IF w.v = "accept" THEN PrintT(ToJson(<<vFrame, vPath, "A", w.t>>))
         ELSE PrintT(ToJson(<<vFrame, vPath, IF w.v = "unspec" THEN "V" ELSE "R">>))
    [] OTHER -> TRUE
=============================================================================
