------------------------------ MODULE TokQueue ------------------------------
(***************************************************************************)
(* The token scanner with its lookahead: k tokens are scanned, q more are  *)
(* peeked at, and the tokens are those the lexer delivers one by one.  A   *)
(* slash that was scanned last can be scanned again as a regular expres-   *)
(* sion, if nothing is peeked at; then all that follows is different.      *)
(***************************************************************************)
EXTENDS LexFrames, Json
CONSTANTS Texts, MaxPeek, MaxOps
VARIABLES vText, vRe, vK, vQ, vHist, vBad,
          vLx   \* the tokens of the text, of which those in vRe are regular expressions

(* The tokens of a text of which those in R are regular expressions. *)
LexWith(t, R) ==
  LET RECURSIVE f(_, _)
      f(l, i) == IF i > Len(t) THEN [l EXCEPT !.re = (Len(l.toks) + 1 \in R)]
                 ELSE f(Feed([l EXCEPT !.re = (Len(l.toks) + 1 \in R)], t[i]), i + 1)
  IN End(f(Fresh(FALSE), 1))

(* What the n-th token is; "E" where the text has none. *)
Tok(lx, n) ==
  IF n <= Len(lx.toks) THEN LET t == lx.toks[n] IN <<t.k, t.st, t.en, t.nl, t.row, t.col, t.x>>
  ELSE IF lx.m = "start"
       THEN LET t == lx.toks[Len(lx.toks)] IN <<t.k, t.st, t.en, FALSE, t.row, t.col, t.x>>
       ELSE <<"E">>
At(lx, n) ==
  IF n = 0 THEN <<1, 1>>
  ELSE IF Len(lx.toks) = 0 THEN <<1, 1>>
  ELSE LET t == lx.toks[IF n <= Len(lx.toks) THEN n ELSE Len(lx.toks)] IN <<t.row, t.col>>

Log(op, r, lx, k1, q1) == Append(vHist, <<op, r, At(lx, k1)[1], At(lx, k1)[2], q1>>)

Larger(a, b) == IF a > b THEN a ELSE b

Init == vText \in 1..Len(Texts) /\ vLx = LexWith(Texts[vText], {}) /\ vRe = {} /\ vK = 0 /\ vQ = 0 /\ vHist = <<>> /\ vBad = FALSE
Scan ==
  LET t == Tok(vLx, vK + 1) IN
  /\ vK' = vK + 1 /\ vQ' = Larger(vQ - 1, 0) /\ vRe' = vRe /\ vLx' = vLx
  /\ vBad' = (t = <<"E">>)
  /\ vHist' = Log("S", t, vLx, vK', vQ')
Peek(i) ==
  LET t == Tok(vLx, vK + i + 1) IN
  /\ vK' = vK /\ vQ' = Larger(vQ, i + 1) /\ vRe' = vRe /\ vLx' = vLx
  /\ vBad' = (t = <<"E">>)
  /\ vHist' = Log("P" \o ToString(i), t, vLx, vK, vQ')
ReScan ==
  /\ vQ = 0 /\ vK > 0 /\ vK \notin vRe
  /\ vHist[Len(vHist)][1] = "S"
  /\ Tok(vLx, vK)[1] \in {"PunctuatorDiv", "PunctuatorDivAssign"}
  /\ vRe' = vRe \cup {vK} /\ vK' = vK /\ vQ' = vQ
  /\ vLx' = LexWith(Texts[vText], vRe')
  /\ LET t == Tok(vLx', vK) IN vBad' = (t = <<"E">>) /\ vHist' = Log("R", t, vLx', vK, 0)
Next ==
  /\ ~vBad /\ Len(vHist) < MaxOps /\ vText' = vText
  /\ (Scan \/ (\E i \in 0..MaxPeek : Peek(i)) \/ ReScan)
Spec == Init /\ [][Next]_<<vText, vRe, vK, vQ, vHist, vBad, vLx>>
View == <<vText, [i \in 1..Len(vHist) |-> vHist[i][1]]>>

(* Whatever the history, the tokens scanned are a prefix of the tokens. *)
Prefix ==
  vRe = {} => LET s == SelectSeq(vHist, LAMBDA h : h[1] = "S") IN \A i \in 1..Len(s) : s[i][2] = Tok(vLx, i)
ASSUME \A i \in 1..Len(Texts) : PrintT(ToJson([text |-> i, codes |-> Texts[i]]))
Emit == vBad \/ Len(vHist) = MaxOps => PrintT(ToJson(<<vText, vHist>>))
=============================================================================
