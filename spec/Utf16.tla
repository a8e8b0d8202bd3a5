------------------------------- MODULE Utf16 -------------------------------
(***************************************************************************)
(* Strings as bytes, the code points they encode in UTF-8, and these en-   *)
(* coded in UTF-16.                                                        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Replacement == 65533
IsScalar(c) == c \in 0..55295 \/ c \in 57344..1114111

(* UTF-16 *)
Units(c) ==
  IF c < 65536 THEN <<c>>
  ELSE <<55296 + (c - 65536) \div 1024, 56320 + ((c - 65536) % 1024)>>
RECURSIVE UnitsOf(_)
UnitsOf(cs) == IF cs = <<>> THEN <<>> ELSE Units(Head(cs)) \o UnitsOf(Tail(cs))
(* And back. *)
IsHigh(u) == u \in 55296..56319
IsLow(u) == u \in 56320..57343
Back(us) == IF Len(us) = 1 /\ ~IsHigh(us[1]) /\ ~IsLow(us[1]) THEN us[1]
            ELSE IF Len(us) = 2 /\ IsHigh(us[1]) /\ IsLow(us[2]) THEN 65536 + (us[1] - 55296) * 1024 + (us[2] - 56320)
            ELSE 0 - 1

(* UTF-8: how long the well-formed sequence at the front is, 0 if there is none. *)
Trail(b) == b \in 128..191
WellFormed(bs) ==
  LET n == Len(bs)  b == bs[1] IN
  IF n = 0 THEN 0
  ELSE IF b < 128 THEN 1
  ELSE IF b \in 194..223 THEN IF n > 1 /\ Trail(bs[2]) THEN 2 ELSE 0
  ELSE IF b \in 224..239 THEN
    IF /\ n > 2 /\ Trail(bs[2]) /\ Trail(bs[3])
       /\ (b = 224 => bs[2] >= 160) /\ (b = 237 => bs[2] < 160) THEN 3 ELSE 0
  ELSE IF b \in 240..244 THEN
    IF /\ n > 3 /\ Trail(bs[2]) /\ Trail(bs[3]) /\ Trail(bs[4])
       /\ (b = 240 => bs[2] >= 144) /\ (b = 244 => bs[2] < 144) THEN 4 ELSE 0
  ELSE 0
Point(bs, n) ==
  CASE n = 1 -> bs[1]
    [] n = 2 -> (bs[1] - 192) * 64 + (bs[2] - 128)
    [] n = 3 -> (bs[1] - 224) * 4096 + (bs[2] - 128) * 64 + (bs[3] - 128)
    [] n = 4 -> (bs[1] - 240) * 262144 + (bs[2] - 128) * 4096 + (bs[3] - 128) * 64 + (bs[4] - 128)
RECURSIVE Points(_)
Points(bs) ==
  IF bs = <<>> THEN <<>>
  ELSE LET n == WellFormed(bs) IN
       IF n = 0 THEN <<Replacement>> \o Points(Tail(bs))
       ELSE <<Point(bs, n)>> \o Points(SubSeq(bs, n + 1, Len(bs)))
(* The bytes of a code point. *)
Bytes(c) ==
  IF c < 128 THEN <<c>>
  ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
  ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
  ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
RECURSIVE BytesOf(_)
BytesOf(cs) == IF cs = <<>> THEN <<>> ELSE Bytes(Head(cs)) \o BytesOf(Tail(cs))

(* What encoding the string with these bytes yields. *)
Encode(bs) == UnitsOf(Points(bs))
=============================================================================
