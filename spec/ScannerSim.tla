----------------------------- MODULE ScannerSim -----------------------------
(***************************************************************************)
(* Long random histories of the character scanner on long random texts:    *)
(* now and then a character is pushed back, and read again or not.  For    *)
(* TLC's simulation mode.                                                  *)
(***************************************************************************)
EXTENDS Scanner
Random(S) == RandomElement(IF Len(vHist) < 0 THEN {} ELSE S)
SpecialChars == SetToSeq(Alphabet)
\* mostly ordinary characters, in lines of random lengths
LongInit ==
  /\ vN = 0 /\ vLast = "none" /\ vHist = <<>>
  /\ \E many \in {RandomElement({2, 4, 30, 300})} :
     vText = [i \in 1..MaxText |-> IF RandomElement(1..many) = 1 THEN SpecialChars[RandomElement(1..Len(SpecialChars))] ELSE 97 + (i % 26)]
SimInit == \E k \in 1..20 : LongInit
SimNext == Len(vHist) < MaxOps /\ vText' = vText /\ \E r \in {Random(1..5)} : IF r = 1 /\ vLast \in {"read", "eof"} THEN Unread ELSE Read
SimSpec == SimInit /\ [][SimNext]_<<vText, vN, vLast, vHist>>
=============================================================================
