-------------------------------- MODULE Lex --------------------------------
(***************************************************************************)
(* The meaning of constants and string literals, from their spelling: a      *)
(* sequence of character codes.                                             *)
(***************************************************************************)
EXTENDS Num

DigitOf(c) == IF c \in 48 .. 57 THEN c - 48
              ELSE IF c \in 65 .. 70 THEN c - 55
              ELSE IF c \in 97 .. 102 THEN c - 87
              ELSE 99

\* An integer constant
BaseOf(tx) == IF tx[1] # 48 \/ Len(tx) = 1 THEN 10
              ELSE IF tx[2] \in {88, 120} THEN 16 ELSE 8
DigitsOf(tx) == IF BaseOf(tx) = 16 THEN SubSeq(tx, 3, Len(tx)) ELSE tx
NumberOf(tx) ==
    LET b == BaseOf(tx)
    IN FoldLeft(LAMBDA acc, c : NAdd(NMul(acc, <<b>>), <<DigitOf(c)>>), Zero, DigitsOf(tx))
IsNumber(tx) == /\ DigitsOf(tx) # <<>>
                /\ \A i \in 1 .. Len(DigitsOf(tx)) : DigitOf(DigitsOf(tx)[i]) < BaseOf(tx)

\* The escape sequence whose backslash is tx[i]: <<code, the index after it>>
SimpleCodes == (110 :> 10) @@ (116 :> 9) @@ (114 :> 13) @@ (97 :> 7) @@ (98 :> 8) @@ (102 :> 12) @@ (118 :> 11)
               @@ (34 :> 34) @@ (39 :> 39) @@ (63 :> 63) @@ (92 :> 92)
IsOct(c) == c \in 48 .. 55
Escape(tx, i) ==
    LET c == tx[i + 1]
        oct(k) == i + k <= Len(tx) /\ IsOct(tx[i + k])
        d(k) == tx[i + k] - 48
    IN IF ~IsOct(c) THEN <<SimpleCodes[c], i + 2>>
       ELSE IF ~oct(2) THEN <<d(1), i + 2>>
       ELSE IF ~oct(3) THEN <<8 * d(1) + d(2), i + 3>>
       ELSE <<(64 * d(1) + 8 * d(2) + d(3)) % 256, i + 4>>

\* A character constant, with its quotes
CharOf(tx) == LET c == IF tx[2] = 92 THEN Escape(tx, 2)[1] ELSE tx[2]
              IN IF c >= 128 THEN c - 256 ELSE c

\* What is between the quotes of a string literal
RECURSIVE StringAt(_, _, _)
StringAt(tx, i, acc) ==
    IF i > Len(tx) THEN acc
    ELSE IF tx[i] # 92 THEN StringAt(tx, i + 1, Append(acc, tx[i]))
    ELSE LET e == Escape(tx, i) IN StringAt(tx, e[2], Append(acc, e[1]))
StringOf(tx) == StringAt(tx, 1, <<>>)
=============================================================================
