------------------------------- MODULE Named -------------------------------
(***************************************************************************)
(* Repetitions (spec/Pump.tla) in which every name is another one.  The    *)
(* names of the tree are those of the text, in that order and each once,   *)
(* but for a shorthand, which is key and value: said of few repetitions    *)
(* here, and expected of any number.                                       *)
(***************************************************************************)
EXTENDS Pump, FiniteSets

Letter == (97..122) \cup (65..90)
InName(c) == c > 127 \/ c \in Letter \cup (48..57) \cup {36, 95}
\* a name of a letter: what is not in a string, number, regular expression
Alone(s, i) == /\ s[i] \in Letter
               /\ i = 1 \/ ~(InName(s[i - 1]) \/ s[i - 1] \in {34, 35, 39, 47, 92, 96})
               /\ i = Len(s) \/ ~(InName(s[i + 1]) \/ s[i + 1] \in {34, 39, 96})
Places(s) == {i \in 1..Len(s) : Alone(s, i)}
Different(s) == [i \in 1..Len(s) |-> IF Alone(s, i) THEN 64 + Cardinality({j \in 1..i : Alone(s, j)}) ELSE s[i]]

Capitals == <<"A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z">>
CapitalSet == {Capitals[i] : i \in 1..26}
\* the names in the text of a tree, once where they are twice
RECURSIVE NamesIn(_, _, _)
NamesIn(t, i, last) ==
  IF i + 2 > Len(t) THEN <<>>
  ELSE LET c == SubSeq(t, i + 1, i + 1) IN
       IF SubSeq(t, i, i) = "\"" /\ SubSeq(t, i + 2, i + 2) = "\"" /\ c \in CapitalSet
       THEN (IF c = last THEN <<>> ELSE <<c>>) \o NamesIn(t, i + 3, c)
       ELSE NamesIn(t, i + 1, last)

NamedWell(s) ==
  LET k == Cardinality(Places(s)) IN
  /\ k \in 1..26
  /\ LET a == FrontVerdict(FrontAll(FrontInit(Pumps[vPump].mode), Different(s))) IN
     a.v = "accept" /\ NamesIn(ToString(a.t), 1, "") = SubSeq(Capitals, 1, k)

EmitNames == vN \in 2..3 => PrintT(ToJson([pump |-> vPump, n |-> vN, named |-> NamedWell(Whole(vN))]))
=============================================================================
