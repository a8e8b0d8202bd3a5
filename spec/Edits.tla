-------------------------------- MODULE Edits --------------------------------
(***************************************************************************)
(* Every way to change a program a little: a token left out, put twice,    *)
(* exchanged with the next one, moved to or from a new line, replaced by   *)
(* or put behind any token of a vocabulary.  The programs are those of     *)
(* spec/Corpus.tla, in which every construct stands in every context.      *)
(***************************************************************************)
EXTENDS Corpus, Json
CONSTANTS Names,   \* sequence of names of corpora
          Deep     \* thorough?
VARIABLES vP, vPos, vEdits, vCfg, vNew

Parts == TLCEval([i \in 1..Len(Names) |->
  LET r == CorpusOf[Names[i]] IN
  [mode |-> r.mode, texts |-> [k \in 1..Len(r.texts) |-> Split(r.texts[k])],
   voc |-> Toks(IF Deep THEN r.deepvoc ELSE r.voc), vocs |-> IF Deep THEN r.deepvoc ELSE r.voc, levels |-> IF Deep THEN r.deeplevels ELSE r.levels]])

\* the programs of all parts, one after the other
RECURSIVE Programs(_)
Programs(i) == IF i > Len(Parts) THEN <<>>
  ELSE [k \in 1..Len(Parts[i].texts) |-> [part |-> i, toks |-> Toks(Parts[i].texts[k]), text |-> Parts[i].texts[k]]] \o Programs(i + 1)
Prog == TLCEval(Programs(1))

ASSUME \A i \in 1..Len(Names) :
  PrintT(ToJson([part |-> i, name |-> Names[i], mode |-> Parts[i].mode, voc |-> Parts[i].vocs, levels |-> Parts[i].levels]))
ASSUME \A p \in 1..Len(Prog) : PrintT(ToJson([program |-> p, of |-> Prog[p].part, toks |-> Prog[p].text]))

(* What is left of the program from position i on. *)
Rest(p, i) == SubSeq(Prog[p].toks, i, Len(Prog[p].toks))

(* The rest, up to where it is no longer a beginning of a program. *)
RECURSIVE Onward(_, _, _)
Onward(c, ts, i) ==
  IF c.v # "ok" \/ i > Len(ts) THEN [c |-> c, at |-> i]
  ELSE LET d == StepAny(c, ts[i]) IN
       IF d.v # "ok" THEN [c |-> d, at |-> i] ELSE Onward(d, ts, i + 1)

Init == \E p \in 1..Len(Prog) :
  /\ vP = p /\ vPos = 1 /\ vEdits = <<>> /\ vCfg = Initial(Parts[Prog[p].part].mode) /\ vNew = TRUE

Levels == Parts[Prog[vP].part].levels
Voc == Parts[Prog[vP].part].voc
Left == Rest(vP, vPos)

Advance ==
  /\ vCfg.v = "ok" /\ Left # <<>> /\ Len(vEdits) < Len(Levels)
  /\ LET d == StepAny(vCfg, Left[1]) IN d.v = "ok" /\ vCfg' = d
  /\ vPos' = vPos + 1 /\ vNew' = FALSE /\ UNCHANGED <<vP, vEdits>>

(* toks in the place of the next n tokens *)
Put(kind, k, toks, n) ==
  /\ vCfg.v = "ok" /\ Len(vEdits) < Len(Levels) /\ n <= Len(Left)
  /\ kind \in Levels[Len(vEdits) + 1]
  /\ LET r == Onward(vCfg, toks, 1)
         behind == Rest(vP, vPos + n) IN
     /\ ~(r.c.v = "dead" /\ r.c.why = "syntax")
     \* when nothing is put, the next token must go on
     /\ toks = <<>> /\ behind # <<>> => LET d == StepAny(vCfg, behind[1]) IN ~(d.v = "dead" /\ d.why = "syntax")
     /\ vCfg' = r.c
  /\ vEdits' = Append(vEdits, <<kind, vPos, k>>)
  /\ vPos' = vPos + n /\ vNew' = TRUE /\ vP' = vP

Turned(t) == [t EXCEPT !.nl = ~@]

Next ==
  \/ Advance
  \/ Put("d", 0, <<>>, 1)
  \/ Left # <<>> /\ Put("n", 0, <<Turned(Left[1])>>, 1)
  \/ Left # <<>> /\ Put("u", 0, <<Left[1], Left[1]>>, 1)
  \/ Len(Left) > 1 /\ Put("s", 0, <<Left[2], Left[1]>>, 2)
  \/ \E k \in 1..Len(Voc) : Put("i", k, <<Voc[k]>>, 0)
  \/ \E k \in 1..Len(Voc) : Put("r", k, <<Voc[k]>>, 1)

Spec == Init /\ [][Next]_<<vP, vPos, vEdits, vCfg, vNew>>
View == <<vP, vPos, vEdits, vNew>>

\* positions in the program; 0: the change itself cannot go on
Code(c) == IF c.v = "unspec" THEN "U" ELSE IF c.v = "dead" THEN IF c.why = "syntax" THEN "D" ELSE "C" ELSE "R"
Emit == vNew =>
  IF vCfg.v # "ok" THEN PrintT(ToJson(<<vP, vEdits, Code(vCfg), 0>>))
  ELSE LET r == Onward(vCfg, Left, 1)
           w == Verdict(r.c, FALSE) IN
       IF r.c.v # "ok" THEN PrintT(ToJson(<<vP, vEdits, Code(r.c), vPos + r.at - 1>>))
       ELSE IF w.v = "accept" THEN PrintT(ToJson(<<vP, vEdits, "A", vPos + r.at - 1, w.t>>))
       ELSE PrintT(ToJson(<<vP, vEdits, IF w.v = "unspec" THEN "V" ELSE "R", vPos + r.at - 1>>))
=============================================================================
