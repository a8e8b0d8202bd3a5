-------------------------------- MODULE Pump --------------------------------
(***************************************************************************)
(* Repetitions: for each pump the texts pre x^n mid y^n post.  What the    *)
(* specification says about them is the same for every n from 2 on, and    *)
(* how many symbols are left to be recognised behind pre x^n either is,    *)
(* too, or grows.  That is what is expected of any n.                      *)
(***************************************************************************)
EXTENDS Front, Json
CONSTANTS Pumps,   \* [mode, pre, x, mid, y, post], sequences of characters
          MaxN
VARIABLES vPump, vN, vState,
          vFirst,  \* the answer for n = 2
          vDepth   \* what is left to be recognised, for every n

ASSUME \A i \in 1..Len(Pumps) : PrintT(ToJson(Pumps[i]))

Init == \E i \in 1..Len(Pumps) :
  /\ vPump = i /\ vN = 0 /\ vState = FrontAll(FrontInit(Pumps[i].mode), Pumps[i].pre)
  /\ vFirst = "none" /\ vDepth = <<>>

RECURSIVE Times(_, _)
Times(s, n) == IF n = 0 THEN <<>> ELSE s \o Times(s, n - 1)
Answer(s, n) == LET p == Pumps[vPump] IN FrontVerdict(FrontAll(s, p.mid \o Times(p.y, n) \o p.post))
Now == Answer(vState, vN)
Next ==
  /\ vN < MaxN
  /\ vN' = vN + 1 /\ vPump' = vPump
  /\ \E s \in {FrontAll(vState, Pumps[vPump].x)} :
       /\ vState' = s
       /\ vFirst' = IF vN + 1 = 2 THEN Answer(s, 2).v ELSE vFirst
       /\ vDepth' = Append(vDepth, Len(s.c.st))
Spec == Init /\ [][Next]_<<vPump, vN, vState, vFirst, vDepth>>
View == <<vPump, vN>>

Steady == vN >= 2 => Now.v = vFirst
(* Dead is dead: nothing that follows makes a program of it. *)
Grows == vN >= 4 => \/ \A k \in 2..vN : vDepth[k] = vDepth[2]
                    \/ \A k \in 3..vN : vDepth[k] > vDepth[k - 1]
                    \/ vState.c.v # "ok"
(* Where it is known that no program begins so: from the end of the last      *)
(* token that is all right to the end of the first that is not; none if it is *)
(* the use of a list that is wrong.                                           *)
Whole(n) == LET p == Pumps[vPump] IN p.pre \o Times(p.x, n) \o p.mid \o Times(p.y, n) \o p.post
EndOf(toks, n) == IF n = 0 THEN 0 ELSE toks[n].en
RECURSIVE PlaceFrom(_, _, _)
PlaceFrom(s, cs, i) ==
  IF i = Len(cs) THEN IF s.l.m = "slash" THEN <<>> ELSE <<EndOf(s.l.toks, s.n), Len(cs)>>
  ELSE LET t == FrontFeed(s, cs[i + 1])
           toks == t.l.toks
           d == Catch(s.c, toks, s.n)
       IN IF t.c.v = "ok" THEN PlaceFrom(t, cs, i + 1)
          ELSE IF d.v # "dead" THEN <<EndOf(toks, Len(toks)), i + 1>>
          ELSE LET j == CHOOSE j \in s.n + 1..Len(toks) : /\ Catch(s.c, SubSeq(toks, 1, j), s.n).v = "dead"
                                                         /\ Catch(s.c, SubSeq(toks, 1, j - 1), s.n).v # "dead"
               IN IF d.why # "syntax" THEN <<>> ELSE <<EndOf(toks, j - 1), toks[j].en>>
Place == IF Now.v # "reject" THEN <<>> ELSE PlaceFrom(FrontInit(Pumps[vPump].mode), Whole(vN), 0)
Emit == vN \in 1..MaxN => PrintT(ToJson([pump |-> vPump, n |-> vN, v |-> Now.v, tree |-> Now.t, place |-> Place,
  depth |-> IF vN = MaxN THEN (IF vState.c.v # "ok" THEN "dead" ELSE IF vDepth[vN] > vDepth[2] THEN "grows" ELSE "flat") ELSE ""]))
=============================================================================
