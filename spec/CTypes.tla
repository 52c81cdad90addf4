------------------------------- MODULE CTypes -------------------------------
(***************************************************************************)
(* The types of the C subset that bic executes, their representation, and   *)
(* the meaning of the operators on values.                                  *)
(*                                                                         *)
(* A type is a tuple: <<"int">>, <<"ptr", T>>, <<"arr", T, n>>, <<"su", i>>  *)
(* (the i-th struct or union of the execution), <<"fn">>.                   *)
(* A value is [t |-> type, v |-> payload]: a number (Num) for an integer,   *)
(* 1024 times the value for a floating point one (only dyadic rationals     *)
(* are modelled), and <<object, offset>> for a pointer (object 0: null,     *)
(* negative: the function with that number).                                *)
(* A value of type <<"bad">> says that the behaviour of the program isn't   *)
(* defined (or not modelled); its payload says why.                         *)
(***************************************************************************)
EXTENDS Num

Ty(n) == <<n>>
IntT == <<"int">>   UIntT == <<"uint">>   LongT == <<"long">>   ULongT == <<"ulong">>

Bad(why) == [t |-> <<"bad">>, v |-> why]
IsBad(x) == x.t[1] = "bad"
\* An error of the program that has to be diagnosed where it is (loc: file, line
\* and column, if they are known)
Fault(loc, why) == IF loc = <<>> THEN Bad(why) ELSE [t |-> <<"bad">>, v |-> "fault", loc |-> loc, why |-> why]
\* ... wherever it is said to be: an operand that has no value, or whose type
\* isn't one that the operator is defined for
Anywhere == <<0>>
Misuse(why) == Fault(Anywhere, why)
\* A struct isn't a scalar, it's the operand of an operator
Used(x) == IF x.v = "fault" /\ x.why = "struct" THEN [x EXCEPT !.why = "operand"] ELSE x
Val(t, v) == [t |-> t, v |-> v]
IntV(n) == Val(IntT, <<n>>)

\* Width in bytes and signedness of the integer types (LP64)
Width == [char |-> 1, schar |-> 1, uchar |-> 1, short |-> 2, ushort |-> 2, int |-> 4, uint |-> 4,
          long |-> 8, ulong |-> 8, llong |-> 8, ullong |-> 8]
Signed == [char |-> TRUE, schar |-> TRUE, uchar |-> FALSE, short |-> TRUE, ushort |-> FALSE,
           int |-> TRUE, uint |-> FALSE, long |-> TRUE, ulong |-> FALSE,
           llong |-> TRUE, ullong |-> FALSE]
IntNames == DOMAIN Width
IsInt(t) == t[1] \in IntNames
IsFlt(t) == t[1] \in {"float", "double", "ldouble"}
IsPtr(t) == t[1] = "ptr"
IsArr(t) == t[1] = "arr"
IsSU(t)  == t[1] = "su"
\* The type of an integer that has been made from an address: <<"pint", t>> with
\* t a type as wide as pointers. What the integer is isn't known; its value is
\* that of the pointer, which conversions preserve.
IsPInt(t) == t[1] = "pint"

\* Reduction of a number to an integer type: modulo 2^n; a signed type takes the
\* representative in its range (implementation-defined in C, this is gcc's).
Fit(n, t) ==
    LET w == 8 * Width[t[1]] IN
    IF w = 32 /\ Signed[t[1]] /\ Small(n) THEN n
    ELSE IF w = 64 /\ Small(n) /\ (Signed[t[1]] \/ n[1] >= 0) THEN n
    ELSE LET u == NModPow2(n, w)
         IN IF Signed[t[1]] /\ NCmp(u, NPow2(w - 1)) >= 0 THEN NSub(u, NPow2(w)) ELSE u

InRange(n, t) == Fit(n, t) = n

\* Integer promotion and the usual arithmetic conversions (of integer types)
Promote(t) ==
    CASE t[1] \in {"char", "schar", "uchar", "short", "ushort", "int"} -> IntT
      [] t[1] = "uint" -> UIntT
      [] t[1] \in {"long", "llong"} -> LongT
      [] OTHER -> ULongT
Common(a, b) ==
    LET p == Promote(a)  q == Promote(b) IN
    CASE p = ULongT \/ q = ULongT -> ULongT
      [] p = LongT \/ q = LongT -> LongT
      [] p = UIntT \/ q = UIntT -> UIntT
      [] OTHER -> IntT

\* Conversion of a value to a scalar type
FltBits(t) == IF t[1] = "float" THEN 24 ELSE 53
FltOk(n, t) ==          \* exactly representable: few enough significant digits
    LET a == IF IsNeg(n) THEN NNeg(n) ELSE n
    IN \/ NCmp(a, NPow2(FltBits(t))) <= 0
       \/ \E j \in {10, 20, 30, 40, 50, 60} :
               NModPow2(a, j) = Zero /\ NCmp(NShr(a, j), NPow2(FltBits(t))) <= 0

Conv(x, t) ==
    IF IsBad(x) THEN x
    ELSE IF x.t = t THEN x
    ELSE IF x.t[1] = "void" THEN Misuse("no value")
    ELSE IF IsInt(t) THEN
        IF IsInt(x.t) THEN Val(t, Fit(x.v, t))
        ELSE IF IsFlt(x.t) THEN
            LET n == NDivT(x.v, <<1024>>)
            IN IF InRange(n, t) THEN Val(t, n) ELSE Bad("float out of range")
        ELSE IF IsPtr(x.t) /\ x.v[1] = 0 THEN Val(t, Fit(<<x.v[2]>>, t))
        ELSE IF (IsPtr(x.t) \/ IsPInt(x.t)) /\ Width[t[1]] = 8 THEN Val(<<"pint", t>>, x.v)
        ELSE Bad("pointer to integer")
    ELSE IF IsFlt(t) THEN
        IF IsInt(x.t) THEN LET n == NMul(x.v, <<1024>>)
                           IN IF FltOk(n, t) THEN Val(t, n) ELSE Bad("inexact float")
        ELSE IF IsFlt(x.t) THEN (IF FltOk(x.v, t) THEN Val(t, x.v) ELSE Bad("inexact float"))
        ELSE IF IsPtr(x.t) THEN Misuse("pointer to float")
        ELSE Bad("to float")
    ELSE IF IsPtr(t) THEN
        IF IsPtr(x.t) THEN Val(t, x.v)
        \* <<0, n>> is the pointer that has been made from the number n
        ELSE IF IsInt(x.t) /\ Small(x.v) /\ x.v[1] \in 0 .. 4000 THEN Val(t, <<0, x.v[1]>>)
        ELSE IF IsPInt(x.t) THEN Val(t, x.v)
        ELSE IF IsFlt(x.t) THEN Misuse("float to pointer")
        ELSE Bad("integer to pointer")
    ELSE IF t[1] = "void" THEN Val(t, <<>>)
    ELSE Bad("conversion")

\* Truth value of a scalar: 0, 1, or 2 (not defined)
Truth(x) == IF IsBad(x) THEN 2
            ELSE IF IsInt(x.t) \/ IsFlt(x.t) THEN (IF x.v = Zero THEN 0 ELSE 1)
            ELSE IF IsPtr(x.t) THEN (IF x.v = <<0, 0>> THEN 0 ELSE 1)
            ELSE IF IsPInt(x.t) THEN 1
            ELSE 2
BoolV(b) == IntV(IF b THEN 1 ELSE 0)

\* The result of an arithmetic operator in type t: unsigned types wrap,
\* overflow of a signed type isn't defined.
Arith(n, t) ==
    IF ~Signed[t[1]] THEN Val(t, NModPow2(n, 8 * Width[t[1]]))
    ELSE IF InRange(n, t) THEN Val(t, n) ELSE Bad("signed overflow")

\* ... where it isn't defined
NoTruth(x, why) == IF IsBad(x) THEN Used(x) ELSE IF x.t[1] = "void" THEN Misuse(why) ELSE Bad(why)

UnOp(op, x) ==
    IF IsBad(x) THEN Used(x)
    ELSE IF op = "!" THEN (IF Truth(x) = 2 THEN NoTruth(x, "!") ELSE BoolV(Truth(x) = 0))
    ELSE IF x.t[1] = "void" \/ (op = "~" /\ IsFlt(x.t)) THEN Misuse("unary " \o op)
    ELSE IF ~IsInt(x.t) THEN Bad("unary " \o op)
    ELSE LET t == Promote(x.t) IN
        CASE op = "-" -> Arith(NNeg(x.v), t)
          [] op = "~" -> LET n == NSub(NNeg(x.v), One)
                         IN Val(t, IF Signed[t[1]] THEN n ELSE NModPow2(n, 8 * Width[t[1]]))

Bits(n, t) == NModPow2(n, 8 * Width[t[1]])

CmpOps == {"<", ">", "<=", ">=", "==", "!="}
Holds(op, c) == CASE op = "<" -> c < 0 [] op = ">" -> c > 0 [] op = "<=" -> c <= 0
                  [] op = ">=" -> c >= 0 [] op = "==" -> c = 0 [] op = "!=" -> c # 0

\* A binary operator on integers
IntBin(op, x, y) ==
    IF op \in {"<<", ">>"} THEN
        LET t == Promote(x.t)
            a == Fit(x.v, t)
            w == 8 * Width[t[1]]
        IN IF IsNeg(y.v) \/ NCmp(y.v, <<w>>) >= 0 THEN Bad("shift count")
           ELSE IF op = ">>" THEN Val(t, NShr(a, ToInt(y.v)))
           ELSE IF Signed[t[1]] /\ IsNeg(a) THEN Bad("left shift of a negative value")
           ELSE Arith(NShl(a, ToInt(y.v)), t)
    ELSE LET t == Common(x.t, y.t)
             a == Fit(x.v, t)
             b == Fit(y.v, t)
         IN CASE op = "+" -> Arith(NAdd(a, b), t)
              [] op = "-" -> Arith(NSub(a, b), t)
              [] op = "*" -> Arith(NMul(a, b), t)
              [] op = "/" -> IF b = Zero THEN Bad("division by zero") ELSE Arith(NDivT(a, b), t)
              [] op = "%" -> IF b = Zero THEN Bad("division by zero")
                             ELSE IF IsBad(Arith(NDivT(a, b), t)) THEN Bad("signed overflow")
                             ELSE Val(t, NModT(a, b))
              [] op = "&" -> Val(t, Fit(NAnd(Bits(a, t), Bits(b, t)), t))
              [] op = "|" -> Val(t, Fit(NOr(Bits(a, t), Bits(b, t)), t))
              [] op = "^" -> Val(t, Fit(NXor(Bits(a, t), Bits(b, t)), t))
              [] op \in CmpOps -> BoolV(Holds(op, NCmp(a, b)))

\* Layout.  S is the sequence of the structs and unions, each with sz and al.
RECURSIVE SizeOf(_, _), AlignOf(_, _)
SizeOf(t, S) == CASE IsInt(t) -> Width[t[1]]
                  [] t[1] = "float" -> 4
                  [] t[1] = "double" -> 8
                  [] t[1] = "ldouble" -> 16
                  [] t[1] = "ptr" -> 8
                  [] t[1] = "arr" -> t[3] * SizeOf(t[2], S)
                  [] t[1] = "su" -> S[t[2]].sz
                  [] OTHER -> 0
AlignOf(t, S) == CASE t[1] = "arr" -> AlignOf(t[2], S)
                   [] t[1] = "su" -> S[t[2]].al
                   [] OTHER -> SizeOf(t, S)
RoundUp(n, a) == ((n + a - 1) \div a) * a
MaxI(a, b) == IF a > b THEN a ELSE b

\* The layout of a compound with the members ms, a sequence of <<name, type>>
RECURSIVE LayoutAt(_, _, _, _, _)
LayoutAt(ms, i, acc, isU, S) ==
    IF i > Len(ms) THEN [acc EXCEPT !.sz = RoundUp(acc.sz, acc.al)]
    ELSE LET al  == AlignOf(ms[i][2], S)
             s   == SizeOf(ms[i][2], S)
             off == IF isU THEN 0 ELSE RoundUp(acc.sz, al)
         IN LayoutAt(ms, i + 1,
                     [sz |-> MaxI(acc.sz, off + s), al |-> MaxI(acc.al, al),
                      \* the members of an anonymous member are those of the compound
                      ms |-> acc.ms \o
                             IF ms[i][1] = "" THEN [j \in DOMAIN S[ms[i][2][2]].ms |-> [S[ms[i][2][2]].ms[j] EXCEPT ![3] = @ + off]]
                             ELSE <<<<ms[i][1], ms[i][2], off>>>>], isU, S)
Layout(ms, isU, S) == LayoutAt(ms, 1, [sz |-> 0, al |-> 1, ms |-> <<>>], isU, S)

MemberIdx(su, n) == LET I == {i \in 1 .. Len(su.ms) : su.ms[i][1] = n}
                    IN IF I = {} THEN 0 ELSE CHOOSE i \in I : TRUE
=============================================================================
