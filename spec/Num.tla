-------------------------------- MODULE Num --------------------------------
(***************************************************************************)
(* Exact integers of any magnitude.  TLC's own integers have 32 bits, the   *)
(* values of a C program have 64.                                          *)
(*                                                                         *)
(* A number is a tuple.  <<n>> is the integer n, for -2^30 < n < 2^30.     *)
(* Anything else is <<s, l1, ..., lk>>, k >= 3, with s its sign (1 or -1)  *)
(* and l1 .. lk the digits of its magnitude in base 2^14, the least        *)
(* significant first and without leading zeros.  The representation is      *)
(* canonical: equal numbers are equal tuples.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, Bitwise, TLC

B == 16384
Lim == 1073741824                       \* 2^30

NAbs(n) == IF n < 0 THEN -n ELSE n

\* The digits of a small magnitude
Digs(n) == IF n = 0 THEN <<>>
           ELSE IF n < B THEN <<n>>
           ELSE IF n < B * B THEN <<n % B, n \div B>>
           ELSE <<n % B, (n \div B) % B, n \div (B * B)>>

Mag(a) == IF Len(a) = 1 THEN Digs(NAbs(a[1])) ELSE SubSeq(a, 2, Len(a))
Sgn(a) == IF Len(a) = 1 THEN (IF a[1] < 0 THEN -1 ELSE 1) ELSE a[1]

RECURSIVE Trim(_)
Trim(m) == IF m # <<>> /\ m[Len(m)] = 0 THEN Trim(SubSeq(m, 1, Len(m) - 1)) ELSE m

\* The canonical number with sign s and digits m
Mk(s, mm) ==
    LET m == Trim(mm) IN
    IF Len(m) < 3 \/ (Len(m) = 3 /\ m[3] < 4)
    THEN LET d(i) == IF i <= Len(m) THEN m[i] ELSE 0
         IN <<s * (d(1) + B * d(2) + (B * B) * d(3))>>
    ELSE <<s>> \o m

FromInt(n) ==                           \* any integer of TLC
    IF -Lim < n /\ n < Lim THEN <<n>>
    ELSE IF n = -2147483647 - 1 THEN <<-1, 0, 0, 8>>
    ELSE <<IF n < 0 THEN -1 ELSE 1>> \o Digs(NAbs(n))

Zero == <<0>>
One  == <<1>>

At(m, i) == IF i <= Len(m) THEN m[i] ELSE 0
MaxLen(x, y) == IF Len(x) > Len(y) THEN Len(x) ELSE Len(y)

\* Operations on digit sequences ------------------------------------------

RECURSIVE CmpAt(_, _, _)
CmpAt(x, y, i) == IF i = 0 THEN 0
                  ELSE IF At(x, i) < At(y, i) THEN -1
                  ELSE IF At(x, i) > At(y, i) THEN 1
                  ELSE CmpAt(x, y, i - 1)
MCmp(x, y) == CmpAt(x, y, MaxLen(x, y))

RECURSIVE AddAt(_, _, _, _, _)
AddAt(x, y, i, c, n) ==
    IF i > n THEN (IF c = 0 THEN <<>> ELSE <<c>>)
    ELSE LET t == At(x, i) + At(y, i) + c
         IN <<t % B>> \o AddAt(x, y, i + 1, t \div B, n)
MAdd(x, y) == AddAt(x, y, 1, 0, MaxLen(x, y))

RECURSIVE SubAt(_, _, _, _, _)
SubAt(x, y, i, c, n) ==                 \* x >= y
    IF i > n THEN <<>>
    ELSE LET t == At(x, i) - At(y, i) - c
         IN <<t % B>> \o SubAt(x, y, i + 1, IF t < 0 THEN 1 ELSE 0, n)
MSub(x, y) == SubAt(x, y, 1, 0, Len(x))

RECURSIVE MulD(_, _, _, _)
MulD(x, d, i, c) ==                     \* x * d, for a digit d
    IF i > Len(x) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
    ELSE LET t == x[i] * d + c IN <<t % B>> \o MulD(x, d, i + 1, t \div B)

RECURSIVE MMulAt(_, _, _)
MMulAt(x, y, i) == IF i > Len(y) THEN <<>>
                   ELSE MAdd(MulD(x, y[i], 1, 0), IF i = Len(y) THEN <<>> ELSE <<0>> \o MMulAt(x, y, i + 1))
MMul(x, y) == MMulAt(x, y, 1)

\* x \div d and x % d for a digit d, from the top
RECURSIVE DivDAt(_, _, _, _)
DivDAt(x, d, i, r) ==
    IF i = 0 THEN <<<<>>, r>>
    ELSE LET t == r * B + x[i]
             rest == DivDAt(x, d, i - 1, t % d)
         IN <<Append(rest[1], t \div d), rest[2]>>
MDivD(x, d) == DivDAt(x, d, Len(x), 0)

Pow2(k) == 2 ^ k                        \* k < 31
MPow2(k) == [i \in 1 .. (k \div 14) |-> 0] \o <<Pow2(k % 14)>>

\* x * 2^k and x \div 2^k
MShl(x, k) == [i \in 1 .. (k \div 14) |-> 0] \o MulD(x, Pow2(k % 14), 1, 0)
MShr(x, k) == LET y == SubSeq(x, (k \div 14) + 1, Len(x))
              IN IF k % 14 = 0 THEN y ELSE MDivD(y, Pow2(k % 14))[1]
MLow(x, k) ==                           \* x % 2^k
    LET q == k \div 14
    IN IF Len(x) <= q THEN x
       ELSE SubSeq(x, 1, q) \o <<x[q + 1] % Pow2(k % 14)>>

Bit(x, i) == LET d == At(x, (i \div 14) + 1) IN (d \div Pow2(i % 14)) % 2

RECURSIVE DivBits(_, _, _, _, _)
DivBits(x, y, i, r, q) ==               \* restoring division, from bit i down
    IF i < 0 THEN <<q, r>>
    ELSE LET t == Trim(MAdd(MulD(r, 2, 1, 0), <<Bit(x, i)>>))
             ge == MCmp(t, y) >= 0
         IN DivBits(x, y, i - 1, IF ge THEN Trim(MSub(t, y)) ELSE t,
                    Append(q, IF ge THEN 1 ELSE 0))

RECURSIVE FromBits(_, _, _)
FromBits(q, i, acc) == IF i > Len(q) THEN acc
                       ELSE FromBits(q, i + 1, Trim(MAdd(MulD(acc, 2, 1, 0), <<q[i]>>)))

MDivMod(x, y) ==                        \* y # <<>>
    IF MCmp(x, y) < 0 THEN <<<<>>, x>>
    ELSE IF Len(y) = 1 THEN LET r == MDivD(x, y[1]) IN <<r[1], <<r[2]>>>>
    ELSE LET r == DivBits(x, y, 14 * Len(x) - 1, <<>>, <<>>)
         IN <<FromBits(r[1], 1, <<>>), r[2]>>

\* Operations on numbers ---------------------------------------------------

Small(a) == Len(a) = 1

NCmp(a, b) ==
    IF Small(a) /\ Small(b)
    THEN IF a[1] < b[1] THEN -1 ELSE IF a[1] > b[1] THEN 1 ELSE 0
    ELSE IF Sgn(a) # Sgn(b) THEN Sgn(a)
    ELSE Sgn(a) * MCmp(Mag(a), Mag(b))

NNeg(a) == IF Small(a) THEN <<-a[1]>> ELSE <<-a[1]>> \o SubSeq(a, 2, Len(a))

NAdd(a, b) ==
    IF Small(a) /\ Small(b) THEN FromInt(a[1] + b[1])
    ELSE LET x == Mag(a) y == Mag(b) IN
         IF Sgn(a) = Sgn(b) THEN Mk(Sgn(a), MAdd(x, y))
         ELSE IF MCmp(x, y) >= 0 THEN Mk(Sgn(a), MSub(x, y))
         ELSE Mk(Sgn(b), MSub(y, x))

NSub(a, b) == NAdd(a, NNeg(b))

NMul(a, b) ==
    IF Small(a) /\ Small(b) /\ NAbs(a[1]) < 32768 /\ NAbs(b[1]) < 32768
    THEN FromInt(a[1] * b[1])
    ELSE Mk(Sgn(a) * Sgn(b), MMul(Mag(a), Mag(b)))

\* Division truncates towards zero, the remainder has the sign of the dividend.
NDivT(a, b) ==
    IF Small(a) /\ Small(b)
    THEN LET q == NAbs(a[1]) \div NAbs(b[1]) IN <<IF (a[1] < 0) # (b[1] < 0) THEN -q ELSE q>>
    ELSE Mk(Sgn(a) * Sgn(b), MDivMod(Mag(a), Mag(b))[1])
NModT(a, b) ==
    IF Small(a) /\ Small(b)
    THEN LET r == NAbs(a[1]) % NAbs(b[1]) IN <<IF a[1] < 0 THEN -r ELSE r>>
    ELSE Mk(Sgn(a), MDivMod(Mag(a), Mag(b))[2])

NPow2(k) == Mk(1, MPow2(k))

\* The representative of a modulo 2^k in 0 .. 2^k - 1
NModPow2(a, k) ==
    IF Small(a) /\ k < 30 THEN <<a[1] % Pow2(k)>>
    ELSE IF Sgn(a) = 1 THEN (IF Small(a) THEN a ELSE Mk(1, MLow(Mag(a), k)))
    ELSE LET r == Mk(1, MLow(Mag(a), k))
         IN IF r = Zero THEN Zero ELSE NSub(NPow2(k), r)

NShl(a, k) == IF Small(a) /\ k < 16 /\ NAbs(a[1]) < 16384 THEN FromInt(a[1] * Pow2(k))
              ELSE Mk(Sgn(a), MShl(Mag(a), k))

\* Arithmetic shift: the floor of a / 2^k
NShr(a, k) ==
    IF Small(a) /\ k < 30 THEN <<a[1] \div Pow2(k)>>
    ELSE IF Sgn(a) = 1 THEN Mk(1, MShr(Mag(a), k))
    ELSE NSub(Mk(-1, MShr(Mag(NAdd(a, One)), k)), One)

\* Bitwise operations on non-negative numbers
NBit(Op(_, _), a, b) ==
    LET x == Mag(a) y == Mag(b)
    IN Mk(1, [i \in 1 .. MaxLen(x, y) |-> Op(At(x, i), At(y, i))])
NAnd(a, b) == NBit(LAMBDA x, y : x & y, a, b)
NOr(a, b)  == NBit(LAMBDA x, y : x | y, a, b)
NXor(a, b) == NBit(LAMBDA x, y : x ^^ y, a, b)

\* The byte with index i (0 is the least significant) of a non-negative number
NByte(a, i) == IF Small(a) THEN (IF i > 3 THEN 0 ELSE (a[1] \div Pow2(8 * i)) % 256)
               ELSE LET r == NModPow2(NShr(a, 8 * i), 8) IN r[1]

ToInt(a) == a[1]                        \* small numbers only
IsNeg(a) == IF Small(a) THEN a[1] < 0 ELSE a[1] = -1
=============================================================================
