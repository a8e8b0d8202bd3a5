------------------------------ MODULE LexEnum ------------------------------
(***************************************************************************)
(* Enumerates every text of each lexer frame, prints what the lexer has to *)
(* deliver for it, and checks the automaton of Lexer.tla against           *)
(* declarative definitions of the same facts.                              *)
(***************************************************************************)
EXTENDS LexFrames, Json
CONSTANTS Names, Deep
VARIABLES vFrame, vPath, vLex

Fr == TLCEval([i \in 1..Len(Names) |->
        LET r == LexFrame[Names[i]] IN [pre |-> r.pre, al |-> r.al, re |-> r.re, n |-> IF Deep THEN r.t ELSE r.q]])

ASSUME \A i \in 1..Len(Names) :
  PrintT(ToJson([frame |-> i, name |-> Names[i], pre |-> Fr[i].pre, al |-> Fr[i].al, re |-> Fr[i].re, n |-> Fr[i].n]))

Init == \E i \in 1..Len(Names) : vFrame = i /\ vPath = <<>> /\ vLex = FeedAll(Fresh(Fr[i].re), Fr[i].pre)
Next ==
  /\ Len(vPath) < Fr[vFrame].n
  /\ vLex.m # "U"
  /\ \E i \in 1..Len(Fr[vFrame].al) : vPath' = Append(vPath, i) /\ vLex' = FeedAll(vLex, Fr[vFrame].al[i]) /\ vFrame' = vFrame
Spec == Init /\ [][Next]_<<vFrame, vPath, vLex>>
View == <<vFrame, vPath>>

Text == Fr[vFrame].pre \o Cat([i \in 1..Len(vPath) |-> Fr[vFrame].al[vPath[i]]])
Fin == End(vLex)

Emit ==
  LET e == Fin
      ts == [i \in 1..Len(e.toks) |-> LET t == e.toks[i] IN <<t.k, t.st, t.en, t.nl, t.row, t.col, t.x>>]
  IN PrintT(ToJson(<<vFrame, vPath, IF e.m = "err" THEN "E" ELSE IF e.m = "U" THEN "U" ELSE "A",
                     IF e.m = "err" THEN <<e.lo[1], e.lo[2], e.row, e.col>> ELSE <<>>, ts>>))

(***************************************************************************)
(* The same facts, said of the whole text.                                 *)
(***************************************************************************)
Sub(t) == SubSeq(Text, t.st + 1, t.en)
Ordered ==
  LET ts == Fin.toks IN
  \A i \in 1..Len(ts) : /\ ts[i].st <= ts[i].en /\ ts[i].en <= Len(Text)
                        /\ (i > 1 => ts[i - 1].en <= ts[i].st)
                        /\ (ts[i].k # "None" => ts[i].st < ts[i].en)
Positions ==
  LET tx == Text IN \A i \in 1..Len(Fin.toks) :
    LET t == Fin.toks[i] IN t.row = RowAt(tx, t.en) /\ t.col = ColAt(tx, t.en)
NewLines ==
  LET tx == Text  ts == Fin.toks IN
  \A i \in 1..Len(ts) :
    ts[i].nl <=> \E j \in ((IF i = 1 THEN 0 ELSE ts[i - 1].en) + 1)..ts[i].st : tx[j] \in LineTerms
(* Nothing but white space and comments stands between tokens. *)
IsComment(s) ==
  /\ Len(s) > 1 /\ s[1] = 47
  /\ \/ s[2] = 47 /\ \A j \in 1..Len(s) : s[j] \notin LineTerms
     \/ /\ s[2] = 42 /\ Len(s) > 3 /\ s[Len(s)] = 47 /\ s[Len(s) - 1] = 42
        /\ \A j \in 4..(Len(s) - 1) : ~(s[j] = 47 /\ s[j - 1] = 42)
RECURSIVE IsGap(_)
IsGap(s) == \/ s = <<>>
            \/ s[1] \in LineTerms \cup WhiteSpaces /\ IsGap(Tail(s))
            \/ \E n \in 2..Len(s) : /\ IsComment(SubSeq(s, 1, n))
                                    /\ (s[2] = 47 => n = Len(s) \/ s[n + 1] \in LineTerms)
                                    /\ IsGap(SubSeq(s, n + 1, Len(s)))
Gaps ==
  LET tx == Text  ts == Fin.toks IN
  \A i \in 1..Len(ts) : IsGap(SubSeq(tx, (IF i = 1 THEN 0 ELSE ts[i - 1].en) + 1, ts[i].st))

PunctCodes == TLCEval({Codes(p) : p \in PunctSet})
Starts(s, p) == SubSeq(s, 1, Len(p)) = p
(* Each punctuator is the longest that matches (but "?." before a digit). *)
Longest ==
  LET tx == Text IN
  \A i \in 1..Len(Fin.toks) :
    LET t == Fin.toks[i] IN
    IF \E p \in PunctCodes : t.k # "None" /\ Sub(t) = p
    THEN \A p \in PunctCodes : Len(p) > t.en - t.st /\ t.st + Len(p) <= Len(tx) => SubSeq(tx, t.st + 1, t.st + Len(p)) # p
    ELSE TRUE
Words ==
  \A i \in 1..Len(Fin.toks) :
    LET t == Fin.toks[i]  s == Sub(t) IN
    (t.k # "None" /\ IsStart(s[1])) =>
      /\ \A j \in 2..Len(s) : IsCont(s[j])
      /\ (t.en < Len(Text) => ~IsCont(Text[t.en + 1]))
      /\ (t.k = "Identifier" <=> \A w \in Keywords : Codes(w) # s)

(* The grammar of numeric literals. *)
Run1(s, D) == s # <<>> /\ \A j \in 1..Len(s) : s[j] \in D
SepRun(s, D) == /\ s # <<>> /\ s[1] \in D /\ s[Len(s)] \in D
                /\ \A j \in 1..Len(s) : s[j] \in D \cup {Uscore}
                /\ \A j \in 2..Len(s) : ~(s[j] = Uscore /\ s[j - 1] = Uscore)
DecInt(s) == s = <<48>> \/ (SepRun(s, DecDigits) /\ s[1] # 48)
LegDec(s) == Run1(s, DecDigits) /\ Len(s) > 1 /\ s[1] = 48 /\ \E j \in 1..Len(s) : s[j] \notin OctDigits
LegOct(s) == Run1(s, OctDigits) /\ Len(s) > 1 /\ s[1] = 48
ExpPart(s) == s = <<>> \/ /\ s[1] \in Exp
                          /\ \/ SepRun(Tail(s), DecDigits)
                             \/ Len(s) > 2 /\ s[2] \in {43, 45} /\ SepRun(SubSeq(s, 3, Len(s)), DecDigits)
Decimal(s) ==
  \E e \in 0..Len(s) :
    /\ ExpPart(SubSeq(s, e + 1, Len(s)))
    /\ LET m == SubSeq(s, 1, e) IN
       \/ DecInt(m) \/ LegDec(m)
       \/ \E d \in 1..Len(m) :
            /\ m[d] = 46
            /\ LET a == SubSeq(m, 1, d - 1)  b == SubSeq(m, d + 1, Len(m)) IN
               IF a = <<>> THEN SepRun(b, DecDigits)
               ELSE (DecInt(a) \/ LegDec(a)) /\ (b = <<>> \/ SepRun(b, DecDigits))
Based(s, letters, D) == Len(s) > 2 /\ s[1] = 48 /\ s[2] \in letters /\ SepRun(SubSeq(s, 3, Len(s)), D)
IsNumber(s) == \/ Decimal(s) \/ LegOct(s) \/ Based(s, {88, 120}, HexDigits)
               \/ Based(s, {79, 111}, OctDigits) \/ Based(s, {66, 98}, BinDigits)
Numbers ==
  LET tx == Text IN
  \A i \in 1..Len(Fin.toks) :
    LET t == Fin.toks[i]  s == Sub(t) IN
    /\ t.k = "LiteralNumber" =>
         /\ IsNumber(s)
         /\ \A n \in (t.en + 1)..Len(tx) : ~IsNumber(SubSeq(tx, t.st + 1, n))
         /\ (t.en < Len(tx) => ~IsStart(tx[t.en + 1]) /\ tx[t.en + 1] \notin DecDigits)
    /\ t.k \notin {"LiteralNumber", "LiteralString", "LiteralRegExp", "None"} => ~IsNumber(s)
Strings ==
  \A i \in 1..Len(Fin.toks) :
    LET t == Fin.toks[i]  s == Sub(t) IN
    t.k = "LiteralString" =>
      /\ s[1] = s[Len(s)] /\ s[1] \in {34, 39}
      /\ LET esc == [j \in 1..Len(s) |->   \* whether an odd number of backslashes stands right before s[j]
                       LET n == CHOOSE k \in 0..(j - 1) : /\ \A h \in (j - k)..(j - 1) : s[h] = 92
                                                          /\ k = j - 1 \/ s[j - k - 1] # 92
                       IN n % 2 = 1]
         IN \A j \in 2..(Len(s) - 1) :
              /\ s[j] = s[1] => esc[j]
              /\ s[j] \in {LF, CR} => esc[j] \/ (s[j] = LF /\ s[j - 1] = CR /\ esc[j - 1])
=============================================================================
