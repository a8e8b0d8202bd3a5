----------------------------- MODULE ParserSim -----------------------------
(***************************************************************************)
(* Long random programs: at every point a few random tokens of the alpha-  *)
(* bet are tried; one that a program can go on with is taken, those that   *)
(* no program can go on with are noted (with @ if the parser may have to   *)
(* look behind them to know); in the end the program is closed the short-  *)
(* est way.  For TLC's simulation mode.                                    *)
(***************************************************************************)
EXTENDS Frames, Json, FiniteSets
CONSTANTS Mode, Pre, Alphabet, Closing, MaxLen, MaxDepth, Candidates, NlOdds
VARIABLES vCfg, vToks, vDead, vEnds, vPhase

Al == TLCEval(Toks(Alphabet))
Cl == TLCEval(Toks(Closing))
PreToks == TLCEval(Toks(Pre))

Nl(t) == IF NlOdds > 0 /\ RandomElement(IF Len(vToks) < 0 THEN {} ELSE 1..NlOdds) = 1 THEN [t EXCEPT !.nl = TRUE] ELSE t
Show(t) == (IF t.nl THEN "\n" ELSE "") \o t.s
Ends(c) == SubSeq(Verdict(c, FALSE).v, 1, 1)   \* "a"ccept, "r"eject, "u"nspec

Init ==
  /\ vCfg = StepAll(Initial(Mode), PreToks)
  /\ vToks = [i \in 1..Len(Pre) |-> Pre[i]]
  /\ vDead = <<>> /\ vEnds = <<>> /\ vPhase = "grow"

Take(t, d, dead) ==
  /\ vCfg' = d
  /\ vToks' = Append(vToks, Show(t))
  /\ vDead' = Append(vDead, dead)
  /\ vEnds' = Append(vEnds, Ends(d))

(* Try some random tokens; each as it comes or after a line break. *)
Grow ==
  /\ vPhase = "grow"
  /\ \E toks \in {TLCEval([k \in 1..Candidates |-> Nl(Al[RandomElement(IF Len(vToks) < 0 THEN {} ELSE 1..Len(Al))])])} :
     \E cfgs \in {TLCEval([k \in 1..Candidates |-> StepAny(vCfg, toks[k])])} :
     \E alive \in {{k \in 1..Candidates : cfgs[k].v = "ok"}} :
     \E dead \in {{(IF cfgs[k].why = "syntax" THEN "" ELSE "@") \o Show(toks[k]) : k \in {j \in 1..Candidates : cfgs[j].v = "dead"}}} :
       IF alive = {} THEN UNCHANGED <<vCfg, vToks, vDead, vEnds>> /\ vPhase' = IF Len(vToks) > MaxLen THEN "close" ELSE "grow"
       ELSE \E k \in {RandomElement(alive)} :
             /\ Take(toks[k], cfgs[k], dead)
             /\ vPhase' = IF Len(vToks) >= MaxLen \/ Len(cfgs[k].st) > MaxDepth THEN "close" ELSE "grow"

(* Mostly take the token that leaves the least to be recognised. *)
Close ==
  /\ vPhase = "close"
  /\ IF Ends(vCfg) = "a"
     THEN IF Len(vToks) < MaxLen /\ RandomElement(1..3) > 1
          THEN vPhase' = "grow" /\ UNCHANGED <<vCfg, vToks, vDead, vEnds>>
          ELSE vPhase' = "done" /\ UNCHANGED <<vCfg, vToks, vDead, vEnds>>
     ELSE \E cfgs \in {TLCEval([k \in 1..Len(Cl) |-> StepAny(vCfg, Cl[k])])} :
          \E alive \in {{k \in 1..Len(Cl) : cfgs[k].v = "ok"}} :
            IF alive = {} \/ Len(vToks) > 3 * MaxLen THEN vPhase' = "stuck" /\ UNCHANGED <<vCfg, vToks, vDead, vEnds>>
            ELSE \E k \in {IF RandomElement(IF Len(vToks) < 0 THEN {} ELSE 1..4) = 1 THEN RandomElement(alive)
                            ELSE CHOOSE i \in alive : \A l \in alive : Len(cfgs[i].st) <= Len(cfgs[l].st)} :
                  /\ Take(Cl[k], cfgs[k], {})
                  /\ vPhase' = vPhase

Next == Grow \/ Close
Spec == Init /\ [][Next]_<<vCfg, vToks, vDead, vEnds, vPhase>>

Emit == vPhase \in {"done", "stuck"} =>
  PrintT(ToJson(<<Mode, Len(Pre), vToks, vDead, vEnds, IF vPhase = "done" THEN Verdict(vCfg, FALSE).t ELSE <<>>>>))
=============================================================================
