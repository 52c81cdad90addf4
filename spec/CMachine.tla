------------------------------ MODULE CMachine ------------------------------
(***************************************************************************)
(* An abstract machine for the C subset that bic executes.                  *)
(*                                                                         *)
(* A program is a record read from a file: a table of nodes (its abstract   *)
(* syntax), the functions, and the sequence of the observations that bic    *)
(* made while it executed the same program.  One behaviour of this          *)
(* specification is one execution.  Whenever the machine produces an        *)
(* observable event the event has to be the next one of the recording       *)
(* (trace validation): the status becomes "reject" when it isn't.           *)
(*                                                                         *)
(* Where C leaves the behaviour undefined or unspecified, or where this     *)
(* model ends, the status becomes "undef": such an execution decides        *)
(* nothing.                                                                 *)
(***************************************************************************)
EXTENDS CTypes, Lex, Json, IOUtils, FiniteSets

Progs == JsonDeserialize(IOEnv.PROGS)

\* The abstract state of the execution of one program
VARIABLE m
(* m is a record with
   pid    the program
   ctl    what the machine does next: <<"e", n>> evaluate the expression n,
          <<"a", n>> evaluate the object that n designates, <<"s", n>> execute
          the statement n, <<"v", value>> / <<"o", object>> an operand has been
          evaluated, <<"n">> a statement has been completed, <<"b">> / <<"r", v>>
          a break or a return is in progress, <<"end", status>>
   k      the continuation, a list of frames (<<>> or <<frame, rest>>)
   env    the scopes of the current function, innermost first, as a list
   glob   the file scope
   hg     what the headers declare that have been included by what is typed:
          an outer scope, as sessions are free to declare the same names;
          hd: whether such a header is being evaluated
   mem    the contents of the live objects, each a sequence of cells
   nxt    the next free object number
   fl     the floating point numbers that are stored in the memory
   su     the structs and unions declared so far
   stat   the objects with static storage duration of the functions
   va     the arguments that the active calls of variadic functions haven't
          fetched yet
   atx    the functions to be called when the program ends
   q      what the operand that is being evaluated has read (r), written (w)
          and written without a sequence point (d), recorded only while an
          operand of an expression with side effects is being evaluated (n > 0)
   inp    the next line that the REPL reads, rs: whether the startup file has
          been evaluated, at: the addresses of objects that the REPL has shown,
          perr: the number of lines that couldn't be parsed
   mac    the macros that the headers included by what has been typed define,
          smac: those of the script; with the number of the definition
   l      the next event of the recording
   st     "run", "accept", "reject", "undef"
   why    the explanation
   steps  the number of steps so far *)

P(s) == Progs[s.pid]

\* A node of the abstract syntax.  What a use of a macro stands for depends on
\* the definition in force: one of its alternatives, or just the name.
RECURSIVE N(_, _)
N(s, id) ==
    LET e == P(s).nodes[id] IN
    IF e.k # "mac" THEN e
    ELSE LET macros == IF e.typed THEN s.mac ELSE s.smac
             is == IF e.n \in DOMAIN macros THEN {i \in 1 .. Len(e.alts) : e.alts[i].d = macros[e.n]} ELSE {}
         IN N(s, IF is = {} THEN e.id ELSE e.alts[CHOOSE i \in is : TRUE].e)

\* Memory ------------------------------------------------------------------

Uninit == -1
PtrCell(v, i) == 1000 + ((v[1] + 100) * 4096 + v[2]) * 8 + i
IsPtrCell(c) == c >= 1000 /\ c < 1000000000
PtrOf(c) == LET q == (c - 1000) \div 8 IN <<(q \div 4096) - 100, q % 4096>>
FltCell(n, i) == 1000000000 + n * 16 + i

\* The number in the cells o+1 .. o+w of c, for an integer type t
IntOf(c, o, t) ==
    LET w == Width[t[1]] IN
    IF w = 1 THEN (IF Signed[t[1]] /\ c[o + 1] >= 128 THEN <<c[o + 1] - 256>> ELSE <<c[o + 1]>>)
    ELSE IF w = 2 THEN LET n == c[o + 1] + 256 * c[o + 2]
                       IN IF Signed[t[1]] /\ n >= 32768 THEN <<n - 65536>> ELSE <<n>>
    ELSE LET lo == c[o + 1] + 256 * c[o + 2] + 65536 * c[o + 3]
             top == IF w = 4 THEN {} ELSE {c[o + i] : i \in 5 .. 8}
             b == c[o + 4]
         IN IF b < 64 /\ top \subseteq {0} THEN <<lo + 16777216 * b>>
            ELSE IF b >= 192 /\ top \subseteq {255} /\ Signed[t[1]]
                 THEN FromInt(lo + 16777216 * (b - 256))
            ELSE Fit(Mk(1, FoldRight(LAMBDA x, acc : MAdd(MulD(acc, 256, 1, 0), <<x>>),
                                     SubSeq(c, o + 1, o + w), <<>>)), t)

Load(s, lv) ==
    LET t == lv.t IN
    IF IsBad(lv) THEN lv
    ELSE IF IsArr(t) THEN Val(<<"ptr", t[2]>>, <<lv.o, lv.f>>)      \* decays
    ELSE IF IsSU(t) THEN Misuse("struct")                           \* (see Fail)
    ELSE IF ~(lv.o \in DOMAIN s.mem) THEN Bad("dangling")
    ELSE LET c == s.mem[lv.o]
             w == SizeOf(t, s.su)
         IN IF lv.f < 0 \/ lv.f + w > Len(c) THEN Bad("out of bounds")
            ELSE LET cs == {c[lv.f + i] : i \in 1 .. w} IN
            IF Uninit \in cs THEN Bad("uninitialised")
            ELSE IF IsInt(t) THEN
                IF \A x \in cs : x < 256 THEN Val(t, IntOf(c, lv.f, t))
                ELSE LET p == PtrOf(c[lv.f + 1]) IN
                     IF w = 8 /\ IsPtrCell(c[lv.f + 1]) /\ \A i \in 1 .. 8 : c[lv.f + i] = PtrCell(p, i - 1)
                     THEN Conv(Val(<<"ptr", <<"void">>>>, p), t) ELSE Bad("representation")
            ELSE IF IsPtr(t) THEN
                IF cs = {0} THEN Val(t, <<0, 0>>)
                ELSE LET p == PtrOf(c[lv.f + 1]) IN
                     IF IsPtrCell(c[lv.f + 1]) /\ \A i \in 1 .. 8 : c[lv.f + i] = PtrCell(p, i - 1)
                     THEN Val(t, p) ELSE Bad("representation")
            ELSE IF IsFlt(t) THEN
                LET x == c[lv.f + 1] IN
                IF cs = {0} THEN Val(t, Zero)
                ELSE IF x >= 1000000000 /\ \A i \in 1 .. w : c[lv.f + i] = x + i - 1 /\ (x % 16) = 0
                THEN Val(t, s.fl[(x - 1000000000) \div 16]) ELSE Bad("representation")
            ELSE Bad("load")

\* Store the value x, which has the type of the object lv; returns the new state.
Store(s, lv, x) ==
    LET t == lv.t
        w == SizeOf(t, s.su)
        c == s.mem[lv.o]
        put(g(_)) == [i \in 1 .. Len(c) |-> IF i > lv.f /\ i <= lv.f + w THEN g(i - lv.f - 1) ELSE c[i]]
    IN IF IsPInt(x.t) THEN [s EXCEPT !.mem[lv.o] = put(LAMBDA i : PtrCell(x.v, i))]
       ELSE IF IsInt(t) THEN LET u == NModPow2(x.v, 8 * w)
                        IN [s EXCEPT !.mem[lv.o] = put(LAMBDA i : NByte(u, i))]
       ELSE IF IsPtr(t) THEN
            [s EXCEPT !.mem[lv.o] = put(LAMBDA i : IF x.v = <<0, 0>> THEN 0 ELSE PtrCell(x.v, i))]
       ELSE LET n == Len(s.fl) + 1
            IN [s EXCEPT !.mem[lv.o] = put(LAMBDA i : FltCell(n, i)), !.fl = Append(s.fl, x.v)]

CanStore(s, lv) == /\ lv.o \in DOMAIN s.mem
                   /\ lv.f >= 0
                   /\ lv.f + SizeOf(lv.t, s.su) <= Len(s.mem[lv.o])
                   /\ (IsInt(lv.t) \/ IsPtr(lv.t) \/ IsFlt(lv.t))

\* A new object with n cells of value c; its number is s.nxt
Alloc(s, n, c) == [s EXCEPT !.mem = (s.nxt :> [i \in 1 .. n |-> c]) @@ @, !.nxt = @ + 1]
Free(s, os) == IF os = {} THEN s
               ELSE [s EXCEPT !.mem = [o \in DOMAIN @ \ os |-> @[o]]]

\* Scopes ------------------------------------------------------------------

EmptyScope == [v |-> <<>>, o |-> {}]
None == <<"none">>

RECURSIVE Find(_, _, _)
Find(s, env, n) ==
    IF env = <<>> THEN LET a == IF s.hd THEN s.hg ELSE s.glob
                           b == IF s.hd THEN s.glob ELSE s.hg
                       IN IF n \in DOMAIN a THEN a[n] ELSE IF n \in DOMAIN b THEN b[n] ELSE None
    ELSE IF n \in DOMAIN env[1].v THEN env[1].v[n]
    ELSE Find(s, env[2], n)
Look(s, n) == Find(s, s.env, n)

Declared(s, n) == IF s.env = <<>> THEN n \in DOMAIN (IF s.hd THEN s.hg ELSE s.glob) ELSE n \in DOMAIN s.env[1].v

Bind(s, n, ent, objs) ==
    IF s.env = <<>> /\ s.hd THEN [s EXCEPT !.hg = (n :> ent) @@ @]
    ELSE IF s.env = <<>> THEN [s EXCEPT !.glob = (n :> ent) @@ @]
    ELSE [s EXCEPT !.env = <<[v |-> (n :> ent) @@ @[1].v, o |-> @[1].o \cup objs], @[2]>>]

Enter(s) == [s EXCEPT !.env = <<EmptyScope, @>>]
Leave(s) == [Free(s, s.env[1].o) EXCEPT !.env = @[2]]

\* Leave scopes until the environment is env
RECURSIVE LeaveTo(_, _)
LeaveTo(s, env) == IF s.env = env \/ s.env = <<>> THEN [s EXCEPT !.env = env] ELSE LeaveTo(Leave(s), env)

\* Types of the program text ----------------------------------------------

(* <<"b", name>> a basic type, <<"td", name>> a typedef name,
   <<"tag", "struct s">> / <<"tag", "enum e">>, <<"p", te>>, <<"a", te, n>>,
   <<"ax", te, n>> an array whose size is the constant expression n,
   <<"sp", words>> a list of specifiers and qualifiers in any order,
   <<"def", node>> a struct, union or enum that is defined here: it has been
   declared by the statement `node' already, under its tag *)
\* The type that a list of specifiers denotes: their order doesn't matter,
\* and qualifiers and storage classes don't change the type.
Count(ws, w) == Cardinality({i \in 1 .. Len(ws) : ws[i] = w})
NotTypes == {"const", "volatile", "register", "auto", "static", "typedef", "extern", "inline"}
SpecType(ws) ==
    LET n(w) == Count(ws, w)
        named == {ws[i] : i \in 1 .. Len(ws)} \ NotTypes
        u == n("unsigned")  sg == n("signed")  l == n("long")  i == n("int")
        one(x) == IF u = 1 THEN <<"u" \o x>> ELSE <<x>>
    IN IF u + sg > 1 \/ i > 1 \/ l > 2 \/ \E w \in named \ {"long"} : n(w) > 1 THEN <<"bad">>
       ELSE IF "char" \in named THEN
           (IF i + l + n("short") > 0 THEN <<"bad">> ELSE IF sg = 1 THEN <<"schar">> ELSE one("char"))
       ELSE IF "short" \in named THEN (IF l > 0 THEN <<"bad">> ELSE one("short"))
       ELSE IF "double" \in named THEN
           (IF u + sg + i > 0 \/ l > 1 THEN <<"bad">> ELSE IF l = 1 THEN <<"ldouble">> ELSE <<"double">>)
       ELSE IF "float" \in named THEN (IF u + sg + i + l > 0 THEN <<"bad">> ELSE <<"float">>)
       ELSE IF "void" \in named THEN (IF Cardinality(named) > 1 THEN <<"bad">> ELSE <<"void">>)
       ELSE IF l = 2 THEN one("llong")
       ELSE IF l = 1 THEN one("long")
       ELSE IF i + u + sg > 0 THEN one("int")
       ELSE <<"bad">>

RECURSIVE Resolve(_, _), Ev(_, _), Lv(_, _)
Resolve(s, te) ==
    CASE te[1] = "b" -> <<te[2]>>
      [] te[1] = "sp" -> SpecType(te[2])
      [] te[1] = "ax" -> LET t == Resolve(s, te[2])  n == Ev(s, te[3])
                         IN IF t[1] = "bad" \/ IsBad(n) \/ ~IsInt(n.t) THEN <<"bad">>
                            ELSE IF ~Small(n.v) \/ n.v[1] < 1 THEN <<"bad">>
                            ELSE <<"arr", t, n.v[1]>>
      [] te[1] = "p" -> LET t == Resolve(s, te[2]) IN IF t[1] = "bad" THEN t ELSE <<"ptr", t>>
      [] te[1] = "a" -> LET t == Resolve(s, te[2]) IN IF t[1] = "bad" THEN t ELSE <<"arr", t, te[3]>>
      [] te[1] = "td" -> LET x == Look(s, te[2]) IN IF x[1] = "t" THEN x[2] ELSE <<"bad">>
      [] te[1] = "tag" -> LET x == Look(s, te[2]) IN IF x[1] = "t" THEN x[2] ELSE <<"bad">>
      [] te[1] = "fn" -> <<"fn">>
      [] OTHER -> <<"bad">>

\* Expressions -------------------------------------------------------------

Obj(t, o, f) == [t |-> t, o |-> o, f |-> f]

\* The cells of an object
CellsOf(s, lv) == IF IsBad(lv) \/ IsArr(lv.t) THEN {}
                  ELSE {<<lv.o, lv.f + i>> : i \in 0 .. SizeOf(lv.t, s.su) - 1}

\* Pointer arithmetic: p + n elements
PtrAdd(s, p, n) ==
    LET w == SizeOf(p.t[2], s.su) IN
    IF p.v[1] <= 0 THEN Bad("arithmetic on a null pointer")
    ELSE IF ~Small(n) \/ NAbs(n[1]) > 4000 \/ w = 0 THEN Bad("pointer arithmetic")
    ELSE IF ~(p.v[1] \in DOMAIN s.mem) THEN Bad("dangling")
    ELSE LET f == p.v[2] + n[1] * w
         IN IF f < 0 \/ f > Len(s.mem[p.v[1]]) THEN Bad("pointer out of bounds")
            ELSE Val(p.t, <<p.v[1], f>>)

FltCmp(op, x, y) ==
    LET a == Conv(x, <<"double">>)  b == Conv(y, <<"double">>)
    IN IF IsBad(a) \/ IsBad(b) THEN Bad("inexact float") ELSE BoolV(Holds(op, NCmp(a.v, b.v)))

\* bic has no arithmetic on floating point numbers: only the functions of
\* libraries compute with them.
FltBin(op, x, y) ==
    LET t == IF "ldouble" \in {x.t[1], y.t[1]} THEN <<"ldouble">>
             ELSE IF "double" \in {x.t[1], y.t[1]} THEN <<"double">> ELSE <<"float">>
        a == Conv(x, t)  b == Conv(y, t)
    IN IF IsBad(a) \/ IsBad(b) THEN Bad("inexact float")
       ELSE IF op \in CmpOps THEN FltCmp(op, x, y)
       ELSE LET r == CASE op = "+" -> NAdd(a.v, b.v)
                       [] op = "-" -> NSub(a.v, b.v)
                       [] op = "*" -> IF NModT(NMul(a.v, b.v), <<1024>>) = Zero
                                      THEN NDivT(NMul(a.v, b.v), <<1024>>) ELSE NPow2(100)
                       [] OTHER -> NPow2(100)
            IN IF FltOk(r, t) THEN Val(t, r) ELSE Bad("inexact float")

\* Arithmetic on integers made from addresses
PIntBin(s, op, x, y) ==
    LET t == Common(IF IsPInt(x.t) THEN x.t[2] ELSE x.t, IF IsPInt(y.t) THEN y.t[2] ELSE y.t)
        add(p, n) == IF p.v[1] <= 0 \/ ~(p.v[1] \in DOMAIN s.mem) \/ ~Small(n) \/ NAbs(n[1]) > 4000 THEN Bad("integer of an address")
                     ELSE LET f == p.v[2] + n[1]
                          IN IF f < 0 \/ f > Len(s.mem[p.v[1]]) THEN Bad("integer of an address")
                             ELSE Val(<<"pint", t>>, <<p.v[1], f>>)
    IN IF IsPInt(x.t) /\ IsPInt(y.t) THEN
            IF op \in {"==", "!="} THEN BoolV(Holds(op, IF x.v = y.v THEN 0 ELSE 1))
            ELSE IF x.v[1] # y.v[1] \/ x.v[1] <= 0 THEN Bad("addresses of different objects")
            ELSE IF op \in CmpOps THEN BoolV(Holds(op, x.v[2] - y.v[2]))
            ELSE IF op = "-" THEN Arith(FromInt(x.v[2] - y.v[2]), t)
            ELSE Bad("integer of an address")
       ELSE IF op = "+" THEN (IF IsPInt(x.t) THEN add(x, Fit(y.v, LongT)) ELSE add(y, Fit(x.v, LongT)))
       ELSE IF op = "-" /\ IsPInt(x.t) THEN add(x, NNeg(Fit(y.v, LongT)))
       ELSE IF op \in {"==", "!="} /\ Zero \in {x.v, y.v} THEN BoolV(op = "!=")
       ELSE Bad("integer of an address")

BinOp(s, op, x, y) ==
    IF IsBad(x) THEN Used(x)
    ELSE IF IsBad(y) THEN Used(y)
    ELSE IF x.t[1] = "void" \/ y.t[1] = "void" THEN Misuse("no value")
    ELSE IF IsInt(x.t) /\ IsInt(y.t) THEN IntBin(op, x, y)
    ELSE IF (IsFlt(x.t) /\ IsPtr(y.t)) \/ (IsPtr(x.t) /\ IsFlt(y.t)) THEN Misuse("pointer and float")
    ELSE IF op \in {"%", "<<", ">>", "&", "|", "^"} /\ (IsFlt(x.t) \/ IsFlt(y.t)) THEN Misuse("integer operator")
    ELSE IF (IsPInt(x.t) \/ IsInt(x.t)) /\ (IsPInt(y.t) \/ IsInt(y.t)) THEN PIntBin(s, op, x, y)
    ELSE IF (IsFlt(x.t) \/ IsInt(x.t)) /\ (IsFlt(y.t) \/ IsInt(y.t)) THEN FltBin(op, x, y)
    ELSE IF IsPtr(x.t) /\ IsInt(y.t) /\ op = "+" THEN PtrAdd(s, x, y.v)
    ELSE IF IsPtr(x.t) /\ IsInt(y.t) /\ op = "-" THEN PtrAdd(s, x, NNeg(y.v))
    ELSE IF IsInt(x.t) /\ IsPtr(y.t) /\ op = "+" THEN PtrAdd(s, y, x.v)
    ELSE IF IsPtr(x.t) /\ IsPtr(y.t) THEN
        IF op \in {"==", "!="} THEN BoolV(Holds(op, IF x.v = y.v THEN 0 ELSE 1))
        ELSE IF x.v[1] # y.v[1] \/ x.v[1] <= 0 THEN Bad("pointers to different objects")
        ELSE IF op \in CmpOps THEN BoolV(Holds(op, x.v[2] - y.v[2]))
        ELSE IF op = "-" THEN
            LET w == SizeOf(x.t[2], s.su)  d == x.v[2] - y.v[2]
            IN IF w = 0 \/ d % w # 0 THEN Bad("pointer difference")
               ELSE Val(LongT, FromInt(IF d < 0 THEN -((-d) \div w) ELSE d \div w))
        ELSE Bad("pointer operator")
    ELSE IF IsPtr(x.t) /\ IsInt(y.t) /\ op \in {"==", "!="} /\ y.v = Zero
        THEN BoolV(Holds(op, IF x.v = <<0, 0>> THEN 0 ELSE 1))
    ELSE IF IsInt(x.t) /\ IsPtr(y.t) /\ op \in {"==", "!="} /\ x.v = Zero
        THEN BoolV(Holds(op, IF y.v = <<0, 0>> THEN 0 ELSE 1))
    ELSE Bad("operands")

DerefV(x, loc) == IF IsBad(x) THEN Used(x)
             ELSE IF ~IsPtr(x.t) THEN Fault(loc, "dereference")
             ELSE IF x.v[1] <= 0 THEN Bad("null pointer")
             ELSE Obj(x.t[2], x.v[1], x.v[2])

MemberOf(s, lv, n, loc) ==
    IF IsBad(lv) THEN lv
    ELSE IF ~IsSU(lv.t) THEN Fault(loc, "member")
    ELSE LET su == s.su[lv.t[2]]
             i == MemberIdx(su, n)
         IN IF i = 0 THEN Fault(loc, "no member") ELSE Obj(su.ms[i][2], lv.o, lv.f + su.ms[i][3])

AddrV(lv) == IF IsBad(lv) THEN lv ELSE Val(<<"ptr", lv.t>>, <<lv.o, lv.f>>)

\* The type of a constant is the first one of the list that can represent it;
\* unsigned types are candidates only for octal and hexadecimal constants.
LitV(e) ==
    IF InRange(e.v, IntT) THEN Val(IntT, e.v)
    ELSE IF e.b # "dec" /\ InRange(e.v, UIntT) THEN Val(UIntT, e.v)
    ELSE IF InRange(e.v, LongT) THEN Val(LongT, e.v)
    ELSE IF e.b # "dec" /\ InRange(e.v, ULongT) THEN Val(ULongT, e.v)
    ELSE Bad("constant too large")

\* ... given by its spelling
NumV(tx) == IF IsNumber(tx) THEN LitV([v |-> NumberOf(tx), b |-> IF BaseOf(tx) = 10 THEN "dec" ELSE "oct"])
            ELSE Bad("constant")

\* The type of an expression that isn't evaluated (the operand of sizeof).
RECURSIVE TypeOf(_, _)
TypeOf(s, id) ==
    LET e == N(s, id)
        decay(t) == IF IsArr(t) THEN <<"ptr", t[2]>> ELSE t IN
    CASE e.k = "id" -> LET x == Look(s, e.n) IN IF x[1] = "v" THEN x[2] ELSE IntT
      [] e.k = "lit" -> LitV(e).t
      [] e.k = "deref" -> LET t == decay(TypeOf(s, e.a)) IN IF IsPtr(t) THEN t[2] ELSE <<"bad">>
      [] e.k = "idx" -> LET t == decay(TypeOf(s, e.a))  u == decay(TypeOf(s, e.b))
                        IN IF IsPtr(t) THEN t[2] ELSE IF IsPtr(u) THEN u[2] ELSE <<"bad">>
      [] e.k \in {"mem", "arrow"} ->
            LET t0 == TypeOf(s, e.a)
                t == IF e.k = "arrow" /\ IsPtr(t0) THEN t0[2] ELSE t0
                i == IF IsSU(t) THEN MemberIdx(s.su[t[2]], e.n) ELSE 0
            IN IF i = 0 THEN <<"bad">> ELSE s.su[t[2]].ms[i][2]
      [] e.k = "cast" -> Resolve(s, e.te)
      [] e.k = "bin" -> LET t == decay(TypeOf(s, e.a))  u == decay(TypeOf(s, e.b))
                        IN IF e.op \in {"+", "-"} /\ IsPtr(t) /\ ~IsPtr(u) THEN t
                           ELSE IF e.op = "+" /\ IsPtr(u) THEN u ELSE <<"bad">>
      [] e.k = "addr" -> <<"ptr", TypeOf(s, e.a)>>
      [] e.k = "inc" -> TypeOf(s, e.a)
      [] e.k = "asg" -> TypeOf(s, e.a)
      [] e.k = "call" -> LET f == IF e.ext \/ N(s, e.fn).k # "id" THEN None ELSE Look(s, N(s, e.fn).n)
                         IN IF f[1] = "f" THEN Resolve(s, P(s).fns[f[2]].rt) ELSE <<"bad">>
      [] OTHER -> <<"bad">>

BadOr(x, why) == IF IsBad(x) THEN x ELSE Bad(why)
\* What can be assigned to, or have its address taken
Designates(s, id) == N(s, id).k \in {"id", "deref", "idx", "mem", "arrow"}
\* sizeof an undeclared name
Unknown(s, id) == LET e == N(s, id) IN e.k = "id" /\ Look(s, e.n) = None

\* Expressions without side effects are evaluated in one step.
Ev(s, id) ==
    LET e == N(s, id) IN
    CASE e.k = "lit" -> LitV(e)
      [] e.k = "num" -> NumV(e.tx)
      [] e.k = "chr" -> IntV(CharOf(e.tx))
      [] e.k = "defd" -> IntV(IF e.n \in DOMAIN s.mac THEN 1 ELSE 0)       \* in an #if
      [] e.k = "flt" -> Val(<<"double">>, e.v)
      [] e.k = "id" ->
            LET x == Look(s, e.n) IN
            CASE x[1] = "v" -> Load(s, Obj(x[2], x[3], 0))
              [] x[1] = "e" -> Val(IntT, x[2])
              [] x = None -> IF "#if" \in DOMAIN s.mac THEN IntV(0)      \* what isn't a macro
                             ELSE Fault(e.loc, "identifier " \o e.n)
              [] OTHER -> Bad("identifier " \o e.n)
      [] e.k = "str" -> Val(<<"ptr", <<"char">>>>, <<e.o, 0>>)
      [] e.k = "un" -> UnOp(e.op, Ev(s, e.a))
      [] e.k = "bin" -> BinOp(s, e.op, Ev(s, e.a), Ev(s, e.b))
      [] e.k = "land" -> LET a == Ev(s, e.a)  c == Truth(a) IN
            IF c = 2 THEN NoTruth(a, "&&") ELSE IF c = 0 THEN IntV(0)
            ELSE LET b == Ev(s, e.b)  d == Truth(b) IN IF d = 2 THEN NoTruth(b, "&&") ELSE IntV(d)
      [] e.k = "lor" -> LET a == Ev(s, e.a)  c == Truth(a) IN
            IF c = 2 THEN NoTruth(a, "||") ELSE IF c = 1 THEN IntV(1)
            ELSE LET b == Ev(s, e.b)  d == Truth(b) IN IF d = 2 THEN NoTruth(b, "||") ELSE IntV(d)
      [] e.k = "cond" -> LET a == Ev(s, e.a)  c == Truth(a) IN
            IF c = 2 THEN NoTruth(a, "?:") ELSE Ev(s, IF c = 1 THEN e.b ELSE e.c)
      [] e.k = "comma" -> LET x == Ev(s, e.a) IN IF IsBad(x) THEN x ELSE Ev(s, e.b)
      [] e.k = "cast" -> LET t == Resolve(s, e.te)
                         IN IF t[1] = "bad" THEN Bad("type") ELSE Conv(Ev(s, e.a), t)
      [] e.k = "szt" -> LET t == Resolve(s, e.te)
                        IN IF t[1] \in {"bad", "void", "fn"} THEN Bad("sizeof")
                           ELSE Val(ULongT, <<SizeOf(t, s.su)>>)
      [] e.k = "sze" -> LET t == TypeOf(s, e.a)
                        IN IF Unknown(s, e.a) THEN Fault(N(s, e.a).loc, "sizeof")
                           ELSE IF t[1] \in {"bad", "void", "fn"} THEN Bad("sizeof")
                           ELSE Val(ULongT, <<SizeOf(t, s.su)>>)
      [] e.k = "addr" ->
            IF N(s, e.a).k = "id" /\ Look(s, N(s, e.a).n)[1] = "f"
            THEN Val(<<"ptr", <<"fn">>>>, <<-Look(s, N(s, e.a).n)[2], 0>>)
            ELSE IF ~Designates(s, e.a) THEN Fault(e.loc, "&")
            ELSE AddrV(Lv(s, e.a))
      [] e.k \in {"deref", "idx", "mem", "arrow"} -> Load(s, Lv(s, id))
      [] OTHER -> Bad("expression " \o e.k)
Lv(s, id) ==
    LET e == N(s, id) IN
    CASE e.k = "id" -> LET x == Look(s, e.n)
                       IN IF x[1] = "v" THEN Obj(x[2], x[3], 0)
                          ELSE IF x = None THEN Fault(e.loc, "identifier " \o e.n)
                          ELSE Bad("identifier " \o e.n)
      [] e.k = "deref" -> DerefV(Ev(s, e.a), e.loc)
      [] e.k = "idx" -> DerefV(BinOp(s, "+", Ev(s, e.a), Ev(s, e.b)), e.loc)
      [] e.k = "mem" -> MemberOf(s, Lv(s, e.a), e.n, e.loc)
      [] e.k = "arrow" -> MemberOf(s, DerefV(Ev(s, e.a), e.loc), e.n, e.loc)
      [] OTHER -> Bad("object " \o e.k)

\* What an expression without side effects reads
RECURSIVE Rd(_, _), RdL(_, _)
Rd(s, id) ==
    LET e == N(s, id) IN
    CASE e.k = "id" -> IF Look(s, e.n)[1] = "v" THEN CellsOf(s, Lv(s, id)) ELSE {}
      [] e.k \in {"un", "cast"} -> Rd(s, e.a)
      [] e.k = "bin" -> Rd(s, e.a) \cup Rd(s, e.b)
      [] e.k = "comma" -> Rd(s, e.a) \cup Rd(s, e.b)
      [] e.k = "land" -> Rd(s, e.a) \cup (IF Truth(Ev(s, e.a)) = 1 THEN Rd(s, e.b) ELSE {})
      [] e.k = "lor" -> Rd(s, e.a) \cup (IF Truth(Ev(s, e.a)) = 0 THEN Rd(s, e.b) ELSE {})
      [] e.k = "cond" -> Rd(s, e.a) \cup Rd(s, IF Truth(Ev(s, e.a)) = 1 THEN e.b ELSE e.c)
      [] e.k = "addr" -> RdL(s, e.a)
      [] e.k \in {"deref", "idx", "mem", "arrow"} -> RdL(s, id) \cup CellsOf(s, Lv(s, id))
      [] OTHER -> {}
RdL(s, id) ==
    LET e == N(s, id) IN
    CASE e.k \in {"deref", "arrow"} -> Rd(s, e.a)
      [] e.k = "idx" -> Rd(s, e.a) \cup Rd(s, e.b)
      [] e.k = "mem" -> RdL(s, e.a)
      [] OTHER -> {}

\* The order in which the operands of most operators, and arguments, are
\* evaluated isn't specified.  The machine evaluates them from left to right
\* but gives up when that could matter: when an operand has a side effect on
\* what another one reads or writes.
NoLog == [n |-> 0, r |-> {}, w |-> {}, d |-> {}]
LogR(s, cells) == IF s.q.n = 0 THEN s ELSE [s EXCEPT !.q.r = @ \cup cells]
LogW(s, cells) == IF s.q.n = 0 THEN s ELSE [s EXCEPT !.q.w = @ \cup cells, !.q.d = @ \cup cells]
Operands(s) == [s EXCEPT !.q = [n |-> @.n + 1, r |-> {}, w |-> {}, d |-> {}]]
NextOperand(s) == [s EXCEPT !.q = [n |-> @.n, r |-> {}, w |-> {}, d |-> {}]]
Clash(a, b) == a.w \cap (b.r \cup b.w) # {} \/ b.w \cap a.r # {}
Clashes(logs) == \E i \in 1 .. Len(logs) : \E j \in 1 .. i - 1 : Clash(logs[i], logs[j])
Union(logs, g(_)) == UNION {g(logs[i]) : i \in 1 .. Len(logs)}

\* The machine -------------------------------------------------------------

Push(s, f) == [s EXCEPT !.k = <<f, @>>]
Pop(s) == [s EXCEPT !.k = @[2]]
Go(s, c) == [s EXCEPT !.ctl = c]
Stop(s, st, why) == [s EXCEPT !.st = st, !.why = why, !.ctl = <<"end", 0>>]
Undef(s, why) == Stop(s, "undef", why)
\* Is the value that is being evaluated one that a struct can be?
Movable(s) == s.k # <<>> /\ LET f == s.k[1] IN
    \/ f[1] \in {"expr", "upd", "arg", "ret", "show"}
    \/ f[1] = "rhs" /\ IsSU(f[3].t)
    \/ f[1] = "init" /\ IsSU(f[4].t)
    \/ f[1] = "op1" /\ N(s, f[2]).k \in {"comma", "cast"}
\* x isn't a value: the program is in error, or not defined
Fail(s, x) == IF x.v # "fault" THEN Undef(s, x.v)
              ELSE IF x.why = "struct" /\ Movable(s) THEN Undef(s, "struct as a value")
              ELSE Go(s, <<"die", x.loc, 0>>)

\* Continue with the value x, or with the object o
GiveV(s, x) == IF IsBad(x) THEN Fail(s, x) ELSE Go(s, <<"v", x>>)
GiveO(s, o) == IF IsBad(o) THEN Fail(s, o) ELSE Go(s, <<"o", o>>)
EvalE(s, id) == Go(s, <<"e", id>>)
EvalA(s, id) == Go(s, <<"a", id>>)

\* All operands have been evaluated; q is the log of the enclosing operand
Merge(s, q, logs) ==
    IF Clashes(logs) THEN Undef(s, "unsequenced")
    ELSE [s EXCEPT !.q = IF q.n = 0 THEN NoLog
                         ELSE [n |-> q.n,
                               r |-> q.r \cup Union(logs, LAMBDA l : l.r),
                               w |-> q.w \cup Union(logs, LAMBDA l : l.w),
                               d |-> q.d \cup Union(logs, LAMBDA l : l.d)]]
Done(s) == Go(s, <<"n">>)

\* Assign x, converted to the type of the object, to lv and continue with the
\* stored value
Assign(s, lv, x) ==
    LET y == Conv(x, lv.t)
    IN IF IsBad(y) THEN Fail(s, y)
       ELSE IF ~CanStore(s, lv) THEN Undef(s, "store")
       ELSE GiveV(LogW(Store(s, lv, y), CellsOf(s, lv)), y)
\* ... at the end of an expression whose operands left the logs
AssignOp(s, lv, x, q, logs) ==
    LET a == Merge(s, q, logs)
    IN IF a.st # "run" THEN a
       ELSE IF CellsOf(s, lv) \cap Union(logs, LAMBDA l : l.d) # {} THEN Undef(s, "unsequenced")
       ELSE Assign(a, lv, x)

\* Observable events --------------------------------------------------------

Trace(s) == P(s).trace
Observe(s, ev) ==
    IF s.st # "run" THEN s
    ELSE IF s.l > Len(Trace(s)) THEN Stop(s, "reject", <<"missing", ev>>)
    ELSE IF Trace(s)[s.l] = ev THEN [LogW(s, {<<0, 0>>}) EXCEPT !.l = @ + 1]
    ELSE Stop(s, "reject", <<"expected", ev>>)

\* Declarations --------------------------------------------------------------

\* Declare n as an object of type t with automatic or static storage duration
NewVar(s, n, t, auto, loc) ==
    LET w == SizeOf(t, s.su)
        a == Alloc(s, w, IF auto THEN Uninit ELSE 0)
    IN Bind(a, n, <<"v", t, s.nxt, loc>>, IF auto THEN {s.nxt} ELSE {})

\* Functions ------------------------------------------------------------------

Fn(s, i) == P(s).fns[i]

\* Parameters that are declared as arrays or functions are pointers
ParamType(s, te) == LET t == Resolve(s, te)
                    IN IF IsArr(t) THEN <<"ptr", t[2]>> ELSE IF t = <<"fn">> THEN <<"ptr", t>> ELSE t

\* Bind the parameters of function f from the values vs
RECURSIVE Params(_, _, _, _)
Params(s, f, vs, i) ==
    IF i > Len(f.params) THEN s
    ELSE LET t == ParamType(s, f.params[i].te)
             x == Conv(vs[i], t)
         IN IF t[1] = "bad" THEN Undef(s, "parameter type")
            ELSE IF IsBad(x) THEN Fail(s, x)
            ELSE LET a == NewVar(s, f.params[i].n, t, TRUE, f.params[i].loc)
                     b == Store(a, Obj(t, s.nxt, 0), x)
                 IN Params(b, f, vs, i + 1)

\* The default argument promotions
DefaultPromotion(x) == IF IsInt(x.t) THEN Conv(x, Promote(x.t))
                       ELSE IF x.t = <<"float">> THEN Conv(x, <<"double">>) ELSE x

CallFn(s, e, i, vs) ==              \* call function i with the arguments vs
    IF i < 1 \/ i > Len(P(s).fns) THEN Undef(s, "call")
    ELSE LET f == Fn(s, i) IN
         IF Len(vs) # Len(f.params) /\ ~(f.va /\ Len(vs) > Len(f.params))
         THEN (IF e <= 0 THEN Undef(s, "number of arguments")
               ELSE IF N(s, e).loc = <<>> THEN Undef(s, "number of arguments")
               ELSE Go(s, <<"die", N(s, e).loc, i>>))
         ELSE LET a == [Push(s, <<"call", e, s.env, i, s.q.d>>) EXCEPT !.env = <<EmptyScope, <<>>>>]
                  b == Params(a, f, vs, 1)
                  c == IF ~f.va THEN b
                       ELSE [Bind(b, "...", <<"va", s.steps>>, {}) EXCEPT
                             !.va = (s.steps :> [j \in 1 .. Len(vs) - Len(f.params) |->
                                                 DefaultPromotion(vs[j + Len(f.params)])]) @@ @]
              IN IF c.st # "run" THEN c
                 ELSE IF c.ctl[1] = "die" THEN Go(s, <<"die", c.ctl[2], i>>) ELSE Go(c, <<"s", f.body>>)

\* The end of the program
RECURSIVE Exit(_, _)
Exit(s, code) ==
    IF s.atx # <<>>                     \* the last one registered is called first
    THEN CallFn([Push(s, <<"atexit", 0, code>>) EXCEPT !.atx = SubSeq(@, 1, Len(@) - 1)],
                -1, s.atx[Len(s.atx)], <<>>)
    ELSE
    LET t == Observe(IF P(s).repl THEN Observe(s, <<"errs", <<s.perr>>>>) ELSE s, <<"exit", code>>)
    IN IF t.st = "reject" THEN t
       ELSE IF t.l <= Len(Trace(s)) THEN Stop(t, "reject", <<"surplus">>)
       ELSE Stop(t, "accept", <<>>)

\* The program is in error: the diagnostic says where, and which functions are
\* active, and that's the end.  The function fn (if it isn't 0) could count as
\* active already.
RECURSIVE Active(_, _)
Active(s, k) == IF k = <<>> THEN <<>>
                ELSE (IF k[1][1] = "call" THEN <<Fn(s, k[1][4]).n>> ELSE <<>>) \o Active(s, k[2])
StepDie(s, loc, fn) ==
    IF P(s).repl THEN Exit(s, <<1>>) ELSE       \* (the diagnostics of sessions aren't recorded)
    LET seen == IF s.l <= Len(Trace(s)) THEN Trace(s)[s.l] ELSE <<>>
        at == IF loc = Anywhere /\ Len(seen) = 4 /\ seen[2] \in 1 .. 98 THEN SubSeq(seen, 2, 4) ELSE loc
        o == Observe(s, <<"error">> \o at)
        more == IF fn = 0 THEN <<>> ELSE <<Fn(s, fn).n>>
        bt == Active(s, s.k)
        full == <<"active">> \o more \o bt
    IN IF o.st = "run" /\ o.l <= Len(Trace(o)) /\ Trace(o)[o.l] = full
       THEN Exit(Observe(o, full), <<1>>)
       ELSE Exit(Observe(o, <<"active">> \o bt), <<1>>)

\* What printf() shows for a value with one of the conversions of FmtT
FmtT == [d |-> IntT, u |-> UIntT, ld |-> LongT, lu |-> ULongT]
RECURSIVE CString(_, _, _, _)
CString(s, o, f, acc) ==
    IF ~(o \in DOMAIN s.mem) \/ f >= Len(s.mem[o]) THEN <<-1>>
    ELSE IF s.mem[o][f + 1] = 0 THEN acc
    ELSE IF s.mem[o][f + 1] > 255 \/ s.mem[o][f + 1] < 0 THEN <<-1>>
    ELSE CString(s, o, f + 1, Append(acc, s.mem[o][f + 1]))
Shown(s, f, x) ==
    IF IsBad(x) THEN x
    ELSE IF x.t[1] = "void" THEN Misuse("no value")
    ELSE IF f = "s" THEN
        IF ~IsPtr(x.t) \/ x.v[1] <= 0 THEN Bad("%s")
        ELSE LET c == CString(s, x.v[1], x.v[2], <<>>)
             IN IF c = <<-1>> THEN Bad("%s") ELSE Val(<<"shown">>, <<0, 0>> \o c)
    ELSE IF f = "f" THEN (IF IsFlt(x.t) THEN Val(<<"shown">>, <<0, 1>> \o x.v) ELSE Bad("%f"))
    ELSE IF f = "c" THEN (IF IsInt(x.t) /\ Promote(x.t) = IntT THEN Val(<<"shown">>, <<0, 0>> \o NModPow2(x.v, 8))
                          ELSE Bad("%c"))
    ELSE IF ~IsInt(x.t) THEN Bad("%d")
    ELSE LET p == Promote(x.t) IN
         IF p = FmtT[f] THEN Val(<<"shown">>, x.v)
         \* the same width, and a value both types have
         ELSE IF Width[p[1]] = Width[FmtT[f][1]] /\ ~IsNeg(x.v) /\ InRange(x.v, FmtT[f])
         THEN Val(<<"shown">>, x.v)
         ELSE Bad("format")

\* The REPL ------------------------------------------------------------------

\* How the REPL shows a value or an object: lines, each of them a sequence of
\* items: <<n>> a number, <<0, 0>> \o characters, <<0, 1>> \o a floating point
\* number, <<0, 2>> \o an address, <<0, 3>> and <<0, 5>> the braces around the
\* members of a compound, <<0, 4>> \o the name of a member, <<0, 6>> \o a name.
\* In what is expected <<0, 7, o, f>> is the address of the cell f of object o.
Unshowable == <<<<0, 9>>>>
ShownScalar(s, x) ==
    IF IsBad(x) THEN Unshowable
    ELSE IF IsInt(x.t) THEN <<x.v>>
    ELSE IF IsFlt(x.t) THEN <<<<0, 1>> \o x.v>>
    ELSE IF IsPtr(x.t) THEN
        IF x.v = <<0, 0>> THEN <<<<0, 2, 0>>>>
        ELSE IF x.v[1] = 0 \/ (x.v[1] > 0 /\ ~(x.v[1] \in DOMAIN s.mem)) THEN Unshowable
        ELSE LET a == <<0, 7, x.v[1], x.v[2]>>
                 str == x.t[2] \in {<<"char">>, <<"schar">>}
                 c == IF str THEN CString(s, x.v[1], x.v[2], <<>>) ELSE <<>>
             IN IF c = <<-1>> THEN Unshowable
                ELSE IF str THEN <<a, <<0, 0>> \o c>> ELSE <<a>>
    ELSE Unshowable

RECURSIVE ShownObj(_, _, _), ShownMembers(_, _, _)
ShownObj(s, o, pre) ==
    IF IsBad(o) THEN <<Unshowable>>
    ELSE IF IsSU(o.t) THEN
        LET n == Len(s.su[o.t[2]].ms) IN
        <<pre \o <<<<0, 3>>>>>> \o ShownMembers(s, o, 1) \o <<<<<<0, 5>>>>>>
    ELSE <<pre \o ShownScalar(s, Load(s, o))>>
ShownMembers(s, o, i) ==
    LET ms == s.su[o.t[2]].ms IN
    IF i > Len(ms) THEN <<>>
    ELSE ShownObj(s, Obj(ms[i][2], o.o, o.f + ms[i][3]), <<<<0, 4>> \o P(s).names[ms[i][1]]>>)
         \o ShownMembers(s, o, i + 1)

\* The address n (a number) has been shown for the cell f of the object o: it
\* has to agree with what has been shown of that object, and live objects
\* don't overlap (string literals may).
Apart(s, o, n, p) ==
    \/ ~(p \in DOMAIN s.mem) \/ o < 0 \/ p < 0
    \/ o <= Len(P(s).strs) /\ p <= Len(P(s).strs)
    \/ NCmp(NAdd(n, <<Len(s.mem[o])>>), s.at[p]) <= 0
    \/ NCmp(NAdd(s.at[p], <<Len(s.mem[p])>>), n) <= 0
SeeAddress(s, o, f, n) ==
    LET bs == NSub(n, <<f>>) IN
    IF o \in DOMAIN s.at
    THEN IF s.at[o] = bs THEN s ELSE Stop(s, "reject", <<"address", o, f>>)
    ELSE IF \A p \in DOMAIN s.at : Apart(s, o, bs, p) THEN [s EXCEPT !.at = (o :> bs) @@ @]
    ELSE Stop(s, "reject", <<"overlapping objects", o>>)

RECURSIVE SeeItems(_, _, _, _)
SeeItems(s, got, want, i) ==
    IF s.st # "run" \/ i > Len(want) THEN s
    ELSE LET w == want[i]  g == got[i + 1] IN
         IF Len(w) = 4 /\ w[1] = 0 /\ w[2] = 7
         THEN IF Len(g) > 2 /\ g[1] = 0 /\ g[2] = 2 /\ g # <<0, 2, 0>>
              THEN SeeItems(SeeAddress(s, w[3], w[4], SubSeq(g, 3, Len(g))), got, want, i + 1)
              ELSE Stop(s, "reject", <<"expected", want>>)
         ELSE IF g = w THEN SeeItems(s, got, want, i + 1)
         ELSE Stop(s, "reject", <<"expected", want>>)
\* The next line that is shown is `want'
See(s, want) ==
    LET got == IF s.l <= Len(Trace(s)) THEN Trace(s)[s.l] ELSE <<"nothing">>
        adv == [s EXCEPT !.l = @ + 1]
    IN IF s.st # "run" THEN s
       ELSE IF \E i \in 1 .. Len(want) : want[i] = <<0, 9>> THEN Undef(s, "what is shown")
       ELSE IF got[1] # "out" THEN Stop(s, "reject", <<"expected", want>>)
       \* a string literal is shown without its address
       ELSE IF Len(want) = 2 /\ Len(got) = 2 /\ Len(want[1]) = 4 /\ got[2] = <<0, 8>> \o Tail(Tail(want[2])) THEN adv
       ELSE IF Len(got) # Len(want) + 1 THEN Stop(s, "reject", <<"expected", want>>)
       ELSE SeeItems(adv, got, want, 1)
SeeAll(s, lines) == FoldLeft(LAMBDA t, w : See(t, w), s, lines)

\* A declaration is acknowledged with the name of what it declares: with one of
\* `names'; nothing needs to be shown if `opt'.
Named(s, names, opt) ==
    LET got == IF s.l <= Len(Trace(s)) THEN Trace(s)[s.l] ELSE <<"nothing">> IN
    IF Len(got) = 2 /\ got[1] = "out" /\ \E i \in 1 .. Len(names) : got[2] = <<0, 6>> \o names[i]
    THEN Done([s EXCEPT !.l = @ + 1])
    ELSE IF opt THEN Done(s) ELSE Stop(s, "reject", <<"expected a name", names>>)

\* The inspector: what ?n says.  Items: <<0, 11>> \o a name before its value,
\* <<0, 12>> before its size, <<0, 13>> before the file and the line of its
\* declaration, <<0, 14>> before <<0, 15>> \o the description of its type,
\* <<0, 16>> when there is no such name.
IntCodes == [char |-> 2, schar |-> 2, uchar |-> 3, short |-> 4, ushort |-> 5, int |-> 6, uint |-> 7,
             long |-> 8, ulong |-> 9, llong |-> 10, ullong |-> 11]
RECURSIVE Description(_, _)
Description(s, t) ==
    CASE IsPtr(t) \/ IsArr(t) -> <<1>> \o Description(s, t[2])
      [] IsInt(t) -> <<IntCodes[t[1]]>>
      [] t[1] = "float" -> <<12>>
      [] t[1] = "double" -> <<13>>
      [] t[1] = "ldouble" -> <<14>>
      [] t[1] = "void" -> <<15>>
      [] t[1] = "fn" -> <<20>>
      [] IsSU(t) -> IF s.su[t[2]].ms = <<>> THEN <<30>>
                    ELSE (IF s.su[t[2]].un THEN <<32>> ELSE <<31>>) \o s.su[t[2]].tag
      [] OTHER -> <<0>>
Inspected(s, e) ==
    LET x == Look(s, e.n)
        isa(d) == <<<<<<0, 14>> \o e.name, <<0, 15>> \o d>>>>
        at(loc) == IF loc = <<>> THEN <<>> ELSE <<<<<<0, 13>> \o e.name, loc>>>>
    IN CASE x[1] = "v" ->
                IF IsSU(x[2]) THEN isa(<<21>>)
                ELSE isa(Description(s, x[2]))
                     \o <<<<<<0, 11>> \o e.name>> \o ShownScalar(s, Load(s, Obj(x[2], x[3], 0))),
                          <<<<0, 12>> \o e.name, <<SizeOf(x[2], s.su)>>>>>> \o at(x[4])
         [] x[1] = "f" -> isa(<<20>>) \o at(Fn(s, x[2]).loc)
         [] x[1] = "x" -> isa(<<20>>) \o at(x[2])
         [] x[1] = "e" -> isa(<<22>>)
         [] x[1] = "t" -> isa(IF IsArr(x[2]) THEN <<33>> ELSE Description(s, x[2]))
         [] OTHER -> <<<<<<0, 16>>>>>>

ShowValue(s, x) == IF x.t[1] = "void" THEN Done(s)
                   ELSE LET t == See(s, ShownScalar(s, x)) IN IF t.st = "run" THEN Done(t) ELSE t
ShowObject(s, o) == LET t == SeeAll(s, ShownObj(s, o, <<>>)) IN IF t.st = "run" THEN Done(t) ELSE t

\* External functions (the C library, the probe library of the checks): the
\* arguments are converted to the types of the prototype.  Each result is
\* described by a function of the converted arguments.
CallExt(s, e, vs) ==
    LET n == Len(e.pt)
        y == [i \in 1 .. Len(vs) |-> IF i <= n THEN Conv(vs[i], ParamType(s, e.pt[i])) ELSE vs[i]]
        rt == Resolve(s, e.rt)
        num(i) == y[i].v
        res == CASE e.f = "sum" -> FoldLeft(LAMBDA acc, x : NAdd(acc, x.v), Zero, y)
                 [] e.f = "abs" -> IF IsNeg(num(1)) THEN NNeg(num(1)) ELSE num(1)
                 [] e.f = "arg" -> num(e.sel)
                 [] e.f = "count" -> <<Len(vs)>>
                 [] e.f = "const" -> e.v
                 [] OTHER -> Zero
        bad == {i \in 1 .. Len(y) : IsBad(y[i])}
    IN IF bad # {} THEN Fail(s, y[Min(bad)])
       ELSE IF e.f = "atexit" THEN
           GiveV([s EXCEPT !.atx = Append(@, -y[1].v[1])], IntV(0))
       ELSE IF e.f = "exit" THEN Exit(s, NModPow2(y[1].v, 8))
       ELSE IF IsInt(rt) THEN GiveV(s, Val(rt, Fit(res, rt)))
       ELSE Undef(s, "external function")

\* va_arg(ap, t): the next one of the variable arguments
StepVa(s, t) ==
    LET x == Look(s, "...") IN
    IF x[1] # "va" THEN Undef(s, "va_arg")
    ELSE LET xs == s.va[x[2]] IN
         IF xs = <<>> THEN Undef(s, "va_arg")
         ELSE LET y == xs[1]
                  same == \/ y.t = t
                          \/ IsPtr(y.t) /\ IsPtr(t)
                          \/ IsInt(y.t) /\ IsInt(t) /\ Width[y.t[1]] = Width[t[1]] /\ InRange(y.v, t)
              IN IF ~same THEN Undef(s, "va_arg") ELSE
                 GiveV(LogW([s EXCEPT !.va[x[2]] = Tail(@)], {<<-x[2], 0>>}), Val(t, y.v))

\* The expression whose value is the function to call: *f is the function that f
\* points to
Callee(s, e) ==
    LET fx == N(s, e.fn)
    IN IF fx.k # "deref" THEN e.fn
       ELSE LET t == TypeOf(s, fx.a)
            IN IF t = <<"ptr", <<"fn">>>> THEN fx.a ELSE e.fn

Arguments(s, id) ==
    LET e == N(s, id)
    IN IF e.args = <<>> THEN Go(s, <<"c", id, <<>>>>)
       ELSE EvalE(Operands(Push(s, <<"arg", id, <<>>, s.q, <<>>>>)), e.args[1])

\* Start the expression n; without side effects that's all
StepE(s, id) ==
    LET e == N(s, id) IN
    CASE ~e.x -> LET x == Ev(s, id)
                 IN GiveV(IF s.q.n = 0 \/ IsBad(x) THEN s ELSE LogR(s, Rd(s, id)), x)
      [] e.k \in {"un", "land", "lor", "cond", "comma", "cast"} ->
            EvalE(Push(s, <<"op1", id>>), e.a)
      [] e.k = "bin" -> EvalE(Operands(Push(s, <<"op1", id, s.q>>)), e.a)
      [] e.k \in {"asg", "casg", "inc", "addr"} /\ ~Designates(s, e.a) -> Fail(s, Fault(e.loc, "lvalue"))
      [] e.k \in {"asg", "casg", "inc"} -> EvalA(Operands(Push(s, <<"lhs", id, s.q>>)), e.a)
      [] e.k = "addr" -> EvalA(Push(s, <<"addr", id>>), e.a)
      [] e.k \in {"deref", "idx", "mem", "arrow"} -> Go(Push(s, <<"load", id>>), <<"a", id>>)
      [] e.k = "vaarg" -> StepVa(s, Resolve(s, e.te))
      [] e.k = "call" -> IF ~e.ext /\ N(s, Callee(s, e)).x THEN EvalE(Push(s, <<"callee", id>>), Callee(s, e))
                         ELSE Arguments(s, id)
      [] OTHER -> Undef(s, "expression " \o e.k)

\* The object of an expression
StepA(s, id) ==
    LET e == N(s, id) IN
    CASE ~e.x -> LET o == Lv(s, id)
                 IN GiveO(IF s.q.n = 0 \/ IsBad(o) THEN s ELSE LogR(s, RdL(s, id)), o)
      [] e.k \in {"deref", "arrow"} -> EvalE(Push(s, <<"obj1", id>>), e.a)
      [] e.k = "idx" -> EvalE(Operands(Push(s, <<"obj1", id, s.q>>)), e.a)
      [] e.k = "mem" -> EvalA(Push(s, <<"memb", id>>), e.a)
      [] OTHER -> Undef(s, "object " \o e.k)

\* All arguments of a call have been evaluated
StepC(s, id, vs) ==
    LET e == N(s, id) IN
    IF e.ext THEN CallExt(s, e, vs)
    ELSE IF s.k # <<>> /\ s.k[1][1] = "function" /\ s.k[1][2] = id
    THEN LET p == s.k[1][3]
         IN IF IsBad(p) THEN Fail(s, p)
            ELSE IF ~IsPtr(p.t) THEN Fail(s, Fault(e.loc, "call"))
            ELSE CallFn(Pop(s), id, -p.v[1], vs)
    ELSE LET fx == N(s, e.fn)
             ent == IF fx.k = "id" THEN Look(s, fx.n) ELSE None
             p == IF ent[1] = "f" THEN None
                  ELSE IF fx.k # "deref" THEN Ev(s, e.fn)
                  ELSE LET a == Ev(s, fx.a)     \* *f is the function f points to
                       IN IF a.t = <<"ptr", <<"fn">>>> THEN a ELSE Ev(s, e.fn)
             i == IF ent[1] = "f" THEN ent[2]
                  ELSE IF IsBad(p) \/ ~IsPtr(p.t) THEN 0 ELSE -p.v[1]
         IN IF ent = None /\ fx.k = "id" THEN Fail(s, Fault(fx.loc, "call"))
            ELSE IF i = 0 /\ (ent[1] = "v" \/ (~IsBad(p) /\ ~IsPtr(p.t))) THEN Fail(s, Fault(e.loc, "call"))
            ELSE CallFn(s, id, i, vs)

\* An operand has the value x, the topmost frame is f
StepV(s0, x) ==
    LET f == s0.k[1]
        s == Pop(s0)
        e == N(s, f[2])
    IN
    CASE f[1] = "op1" ->
            (CASE e.k = "un" -> GiveV(s, UnOp(e.op, x))
               [] e.k = "cast" -> LET t == Resolve(s, e.te)
                                  IN IF t[1] = "bad" THEN Undef(s, "type") ELSE GiveV(s, Conv(x, t))
               [] e.k = "bin" -> EvalE(NextOperand(Push(s, <<"op2", f[2], x, f[3], s.q>>)), e.b)
               [] e.k = "comma" -> EvalE(s, e.b)
               [] e.k = "cond" -> IF Truth(x) = 2 THEN Fail(s, NoTruth(x, "?:"))
                                  ELSE EvalE(s, IF Truth(x) = 1 THEN e.b ELSE e.c)
               [] e.k = "land" -> IF Truth(x) = 2 THEN Fail(s, NoTruth(x, "&&"))
                                  ELSE IF Truth(x) = 0 THEN GiveV(s, IntV(0))
                                  ELSE EvalE(Push(s, <<"bool", f[2]>>), e.b)
               [] e.k = "lor" -> IF Truth(x) = 2 THEN Fail(s, NoTruth(x, "||"))
                                 ELSE IF Truth(x) = 1 THEN GiveV(s, IntV(1))
                                 ELSE EvalE(Push(s, <<"bool", f[2]>>), e.b))
      [] f[1] = "op2" -> LET a == Merge(s, f[4], <<f[5], s.q>>)
                         IN IF a.st # "run" THEN a ELSE GiveV(a, BinOp(s, e.op, f[3], x))
      [] f[1] = "bool" -> IF Truth(x) = 2 THEN Fail(s, NoTruth(x, "bool")) ELSE GiveV(s, IntV(Truth(x)))
      [] f[1] = "rhs" ->
            IF e.k = "asg" THEN AssignOp(s, f[3], x, f[4], <<f[5], s.q>>)
            ELSE LET r == BinOp(s, e.op, Load(s, f[3]), x)
                 IN IF IsBad(r) THEN Fail(s, r) ELSE AssignOp(s, f[3], r, f[4], <<f[5], s.q>>)
      [] f[1] = "obj1" ->
            (CASE e.k = "deref" -> GiveO(s, DerefV(x, e.loc))
               [] e.k = "arrow" -> GiveO(s, MemberOf(s, DerefV(x, e.loc), e.n, e.loc))
               [] e.k = "idx" -> EvalE(NextOperand(Push(s, <<"obj2", f[2], x, f[3], s.q>>)), e.b))
      [] f[1] = "obj2" -> LET a == Merge(s, f[4], <<f[5], s.q>>)
                          IN IF a.st # "run" THEN a ELSE GiveO(a, DerefV(BinOp(s, "+", f[3], x), e.loc))
      [] f[1] = "callee" -> Arguments(Push(s, <<"function", f[2], x>>), f[2])
      [] f[1] = "arg" ->
            LET vs == Append(f[3], x)
                logs == Append(f[5], s.q)
            IN IF Len(vs) = Len(e.args)
               THEN LET a == Merge(s, f[4], logs) IN IF a.st # "run" THEN a ELSE Go(a, <<"c", f[2], vs>>)
               ELSE EvalE(NextOperand(Push(s, <<"arg", f[2], vs, f[4], logs>>)), e.args[Len(vs) + 1])
      [] f[1] = "expr" -> Done(s)
      [] f[1] = "if" -> IF Truth(x) = 2 THEN Fail(s, NoTruth(x, "if"))
                        ELSE IF Truth(x) = 1 THEN Go(s, <<"s", e.t>>)
                        ELSE IF e.e = 0 THEN Done(s) ELSE Go(s, <<"s", e.e>>)
      [] f[1] = "test" ->           \* of a loop
            IF Truth(x) = 2 THEN Fail(s, NoTruth(x, "loop"))
            ELSE IF Truth(x) = 1 THEN Go(Push(s, <<"body", f[2], f[3]>>), <<"s", e.s>>)
            ELSE Done(LeaveTo(s, f[3]))
      [] f[1] = "upd" -> Go(s, <<"w", f[2], f[3]>>)
      [] f[1] = "ret" -> Go(s, <<"r", x>>)
      [] f[1] = "init" ->           \* of the declarator f[3]; the object is f[4]
            LET a == Assign(s, f[4], x)
            IN IF a.st # "run" THEN a ELSE Go(a, <<"d", f[2], f[3] + 1>>)
      [] f[1] = "out" ->            \* an argument of the printing statement
            LET y == Shown(s, e.f[Len(f[3]) + 1], x)
                vs == Append(f[3], y.v)
                logs == Append(f[5], s.q)
            IN IF IsBad(y) THEN Fail(s, y)
               ELSE IF Len(vs) = Len(e.a) THEN
                   LET o == Observe(Merge(s, f[4], logs), <<"out">> \o vs) IN IF o.st = "run" THEN Done(o) ELSE o
               ELSE EvalE(NextOperand(Push(s, <<"out", f[2], vs, f[4], logs>>)), e.a[Len(vs) + 1])
      [] f[1] = "atexit" -> Exit(s, f[3])
      [] f[1] = "show" -> ShowValue(s, x)       \* a statement of the REPL
      [] OTHER -> Undef(s, "value for " \o f[1])

\* An operand designates the object o
StepO(s0, o) ==
    LET f == s0.k[1]
        s == Pop(s0)
        e == N(s, f[2])
    IN
    CASE f[1] = "load" -> GiveV(LogR(s, CellsOf(s, o)), Load(s, o))
      [] f[1] = "addr" -> GiveV(s, AddrV(o))
      [] f[1] = "memb" -> GiveO(s, MemberOf(s, o, e.n, e.loc))
      [] f[1] = "show" -> ShowObject(s, o)
      [] f[1] = "lhs" ->
            IF e.k = "inc" THEN
                LET old == Load(s, o)
                    new == BinOp(s, "+", old, IntV(e.d))
                IN IF IsBad(new) THEN Fail(s, new)
                   ELSE LET a == AssignOp(LogR(s, CellsOf(s, o)), o, new, f[3], <<LogR(s, CellsOf(s, o)).q>>)
                        IN IF a.st # "run" \/ e.pre THEN a ELSE GiveV(a, old)
            ELSE LET a == IF e.k = "casg" THEN LogR(s, CellsOf(s, o)) ELSE s
                 IN EvalE(NextOperand(Push(a, <<"rhs", f[2], o, f[3], a.q>>)), e.b)
      [] OTHER -> Undef(s, "object for " \o f[1])

\* Where something is declared, if the column is known
PlaceOf(d) == IF Len(d.loc) = 3 THEN d.loc ELSE <<>>

\* The declarators of the declaration id, from number i on
StepD(s, id, i) ==
    LET e == N(s, id) IN
    IF i > Len(e.ds) THEN Done(s)
    ELSE LET d == e.ds[i]
             t == Resolve(s, d.te)
         IN IF t[1] = "bad" /\ d.te[1] = "tag" THEN Fail(s, Fault(PlaceOf(d), "type of " \o d.n))
            ELSE IF t[1] \in {"bad", "void"} THEN Undef(s, "type of " \o d.n)
            ELSE IF Declared(s, d.n) /\ s.env # <<>> THEN Fail(s, Fault(PlaceOf(d), "redeclaration"))
            ELSE IF Declared(s, d.n) THEN Undef(s, "redeclaration")
            ELSE IF SizeOf(t, s.su) = 0 THEN Fail(s, IF IsSU(t) THEN Fault(PlaceOf(d), "incomplete") ELSE Bad("incomplete type of " \o d.n))
            ELSE IF e.static /\ s.env # <<>> THEN
                LET key == <<id, i>> IN
                IF key \in DOMAIN s.stat
                THEN Go(Bind(s, d.n, <<"v", t, s.stat[key], d.loc>>, {}), <<"d", id, i + 1>>)
                ELSE LET a == NewVar(s, d.n, t, FALSE, d.loc)
                         b == [a EXCEPT !.stat = (key :> s.nxt) @@ @]
                     IN IF d.i = 0 THEN Go(b, <<"d", id, i + 1>>)
                        ELSE EvalE(Push(b, <<"init", id, i, Obj(t, s.nxt, 0)>>), d.i)
            ELSE LET a == NewVar(s, d.n, t, s.env # <<>>, d.loc)
                 IN IF d.i = 0 THEN Go(a, <<"d", id, i + 1>>)
                    ELSE EvalE(Push(a, <<"init", id, i, Obj(t, s.nxt, 0)>>), d.i)

\* Declare a struct or union: the members' types are resolved in order
RECURSIVE Members(_, _, _, _)
Members(s, ms, i, acc) ==
    IF i > Len(ms) THEN acc
    ELSE Members(s, ms, i + 1, Append(acc, <<ms[i].n, Resolve(s, ms[i].te)>>))

\* An incomplete struct or union that the current scope has declared, or 0
Incomplete(s, tag) ==
    IF ~Declared(s, tag) THEN 0
    ELSE LET n == Look(s, tag)[2][2] IN IF s.su[n].ms = <<>> THEN n ELSE 0
Forward(s, tag) == [Bind(s, tag, <<"t", <<"su", Len(s.su) + 1>>>>, {})
                    EXCEPT !.su = Append(@, [sz |-> 0, al |-> 1, ms |-> <<>>, un |-> FALSE, tag |-> <<>>])]

StepSU(s, e) ==
    LET fwd == Incomplete(s, e.tag)
        n == IF fwd = 0 THEN Len(s.su) + 1 ELSE fwd
        \* The tag is in scope in the members: they can point to the struct
        a == IF fwd = 0 THEN Forward(s, e.tag) ELSE s
        ms == Members(a, e.ms, 1, <<>>)
    IN IF \E i \in 1 .. Len(ms) : ms[i][2][1] \in {"bad", "void"} THEN Undef(s, "member type")
       ELSE Done([a EXCEPT !.su[n] = [un |-> e.un, tag |-> e.tagc] @@ Layout(ms, e.un, a.su)])

\* Declare an enumeration
RECURSIVE Enums(_, _, _, _)
Enums(s, es, i, next) ==
    IF i > Len(es) THEN s
    ELSE IF Declared(s, es[i].n) THEN Fail(s, Fault(es[i].loc, "redeclaration"))
    ELSE LET v == IF es[i].i = 0 THEN Val(IntT, next) ELSE Ev(s, es[i].i)
         IN IF IsBad(v) \/ ~IsInt(v.t) \/ ~InRange(v.v, IntT) THEN Undef(s, "enumerator")
            ELSE Enums(Bind(s, es[i].n, <<"e", v.v>>, {}), es, i + 1, NAdd(v.v, One))
StepEnum(s, e) ==
    LET a == Enums(s, e.es, 1, Zero)
        neg == \E i \in 1 .. Len(e.es) : IsNeg(Look(a, e.es[i].n)[2])
    IN IF a.st # "run" \/ a.ctl[1] = "die" THEN a
       ELSE Done(Bind(a, e.tag, <<"t", IF neg THEN IntT ELSE UIntT>>, {}))

\* The preprocessor ------------------------------------------------------------

(* The headers of a program are in directories, which are searched in the order
   of P(s).dirs; "h" is looked for where the file that includes it is first.  A
   header is a list of items: def, undef, if, inc, once, st (a declaration),
   err (#error), bad (not C).  acc has the macros defined so far (and marks of
   the headers that are to be included once), the declarations to be evaluated,
   and whether all is well. *)
RECURSIVE Sought(_, _, _)
Sought(s, n, dirs) ==
    IF dirs = <<>> THEN 0
    ELSE LET is == {i \in 1 .. Len(P(s).hdrs) : P(s).hdrs[i].n = n /\ P(s).hdrs[i].dir = dirs[1]}
         IN IF is # {} THEN CHOOSE i \in is : TRUE ELSE Sought(s, n, Tail(dirs))

Once(i) == "#once" \o ToString(i)
Without(f, n) == [x \in DOMAIN f \ {n} |-> f[x]]

RECURSIVE Included(_, _, _, _, _, _), Preprocess(_, _, _, _, _, _)
Included(s, n, ang, dir, depth, acc) ==
    LET i == Sought(s, n, (IF ang THEN <<>> ELSE <<dir>>) \o P(s).dirs)
        h == P(s).hdrs[i]
    IN IF i = 0 \/ depth > 20 THEN [acc EXCEPT !.st = "failed"]
       ELSE IF Once(i) \in DOMAIN acc.mac THEN acc
       ELSE Preprocess(s, h.items, 1, h.dir, depth, [acc EXCEPT !.i = i])
Preprocess(s, items, j, dir, depth, acc) ==
    IF j > Len(items) \/ acc.st # "ok" THEN acc
    ELSE LET it == items[j]
             i == acc.i
             env == ("#if" :> 0) @@ acc.mac
             in == [s EXCEPT !.mac = env, !.smac = env, !.env = <<>>, !.glob = <<>>, !.hg = <<>>]
             next(a) == Preprocess(s, items, j + 1, dir, depth, [a EXCEPT !.i = i])
         IN CASE it.k = "def" -> next([acc EXCEPT !.mac = (it.n :> it.d) @@ @])
              [] it.k = "undef" -> next([acc EXCEPT !.mac = Without(@, it.n)])
              [] it.k = "once" -> next([acc EXCEPT !.mac = (Once(i) :> 1) @@ @])
              [] it.k = "inc" -> next(Included(s, it.n, it.ang, dir, depth + 1, acc))
              [] it.k = "if" -> LET c == Truth(Ev(in, it.c))
                                IN IF c = 2 THEN [acc EXCEPT !.st = "undef"]
                                   ELSE next(Preprocess(s, IF c = 1 THEN it.t ELSE it.e, 1, dir, depth, acc))
              [] it.k = "st" -> next([acc EXCEPT !.ss = Append(@, <<it.s, acc.mac>>)])
              [] it.k = "bad" -> next([acc EXCEPT !.bad = TRUE])
              [] OTHER -> [acc EXCEPT !.st = "failed"]

Include(s, n, ang, mac) ==
    LET r == Included(s, n, ang, 0, 1, [mac |-> mac, ss |-> <<>>, i |-> 0, bad |-> FALSE, st |-> "ok"])
    IN IF r.st = "ok" /\ r.bad THEN [r EXCEPT !.st = "bad"] ELSE r
\* Evaluate the declarations of headers, which are outside of all functions, each
\* with the macros that were defined there.
Macros(s, typed, mac) == IF typed THEN [s EXCEPT !.mac = mac] ELSE [s EXCEPT !.smac = mac]
Header(s, ss, i, env, typed, mac) ==
    IF i > Len(ss) THEN Done(Macros([s EXCEPT !.env = env, !.hd = FALSE], typed, mac))
    ELSE Go(Push(Macros(s, typed, ss[i][2]), <<"hdr", ss, i + 1, env, typed, mac>>), <<"s", ss[i][1]>>)
Headers(s, r, typed) == Header([s EXCEPT !.env = <<>>, !.hd = typed], r.ss, 1, s.env, typed, r.mac)

\* The REPL reads the next line.  It evaluates the startup file, outside of all
\* functions, before it reads the first one.
Startup(s, id) ==
    LET t == [s EXCEPT !.rs = TRUE, !.env = <<>>] IN
    IF P(s).start = <<>> THEN Go([s EXCEPT !.rs = TRUE], <<"i", id>>)
    ELSE Go(Push(t, <<"start", id, 1, s.env>>), <<"s", P(s).start[1]>>)
(* What is offered to complete the last word of a line that isn't finished: the
   names e.pre can be the start of.  After e.base, which ends in an operator for
   access to members, those are the members of the object e.a. *)
Starts(n, p) == Len(n) >= Len(p) /\ SubSeq(n, 1, Len(p)) = p
Tag(n) == \E p \in {"struct ", "union ", "enum "} : Starts(n, p)
RECURSIVE Local(_)
Local(env) == IF env = <<>> THEN {} ELSE DOMAIN env[1].v \cup Local(env[2])
Visible(s) == Local(s.env) \cup DOMAIN s.glob \cup DOMAIN s.hg \cup {P(s).extra[i] : i \in 1 .. Len(P(s).extra)}
Offered(s, e) ==
    IF e.base = "" THEN {n \in Visible(s) : Starts(n, e.pre) /\ ~Tag(n)}
    ELSE IF e.a = 0 THEN {}
    ELSE LET t == TypeOf(s, e.a) IN
         IF ~IsSU(t) THEN {}
         ELSE {e.base \o n : n \in {x \in {s.su[t[2]].ms[i][1] : i \in 1 .. Len(s.su[t[2]].ms)} : Starts(x, e.pre)}}
Completed(s, e) ==
    LET ev == IF s.l > Len(Trace(s)) THEN <<>> ELSE Trace(s)[s.l]
        names == Offered(s, e)
    IN IF ev = <<>> \/ ev[1] # "tab" \/ Len(ev) # Cardinality(names) + 1 THEN Stop(s, "reject", <<"offered", names>>)
       ELSE IF {ev[i] : i \in 2 .. Len(ev)} # names THEN Stop(s, "reject", <<"offered", names>>)
       ELSE Done([LogW(s, {<<0, 0>>}) EXCEPT !.l = @ + 1])
StepI(s, id) ==
    IF ~s.rs THEN Startup(s, id)
    ELSE IF s.inp > Len(P(s).lines) THEN
        LET o == Observe(s, <<"eof">>) IN IF o.st = "run" THEN Done(o) ELSE o
    ELSE LET o == Observe([s EXCEPT !.inp = @ + 1], <<"echo", s.inp>>)
             e == N(s, P(s).lines[s.inp])
             a == Push(o, <<"line", id>>)
         IN IF o.st # "run" THEN o
            ELSE CASE e.kind = "stmt" -> Go(Push(a, <<"named", P(s).lines[s.inp]>>), <<"s", e.s>>)
                   [] e.kind = "stmt0" -> Go(Push(a, <<"named", P(s).lines[s.inp]>>), <<"n">>)
                   [] e.kind = "blank" -> Done(a)
                   [] e.kind = "insp" -> LET t == SeeAll(a, Inspected(s, e)) IN IF t.st = "run" THEN Done(t) ELSE t
                   [] e.kind = "inc" ->
                        LET r == Include(s, e.h, TRUE, s.mac)
                        IN CASE r.st = "ok" -> Headers(a, r, TRUE)
                             [] r.st = "undef" -> Undef(s, "#if")
                             [] OTHER -> Exit([o EXCEPT !.perr = @ + (IF r.st = "bad" THEN 1 ELSE 0)], <<1>>)
                   [] e.kind = "tab" -> Completed(a, e)
                   [] e.kind = "bad" -> Done([a EXCEPT !.perr = @ + 1])
                   [] e.kind = "die" -> IF e.n # "" /\ Look(s, e.n) # None THEN Undef(s, "declared")
                                        ELSE Exit(o, <<1>>)
                   [] OTHER -> Undef(s, "line")

\* Execute the statement id
StepS(s, id) ==
    LET e == N(s, id) IN
    CASE e.k = "expr" -> EvalE(Push(s, <<"expr", id>>), e.a)
      [] e.k = "show" -> IF IsSU(TypeOf(s, e.a)) THEN EvalA(Push(s, <<"show", id>>), e.a)
                         ELSE EvalE(Push(s, <<"show", id>>), e.a)
      [] e.k = "repl" -> Go(s, <<"i", id>>)
      [] e.k = "incl" -> LET r == Include(s, e.h, e.ang, s.smac)
                         IN CASE r.st = "ok" -> Headers(s, r, FALSE)
                              [] r.st = "failed" -> Exit(s, <<254>>)
                              [] OTHER -> Undef(s, "#if")
      [] e.k = "seqs" -> Go(Push(s, <<"seq", id, 1, s.env>>), <<"s", e.ss[1]>>)
      [] e.k = "empty" -> Done(s)
      [] e.k = "decl" -> Go(s, <<"d", id, 1>>)
      [] e.k = "sudef" -> StepSU(s, e)
      [] e.k = "sufwd" -> Done(IF Declared(s, e.tag) THEN s ELSE Forward(s, e.tag))
      [] e.k = "enum" -> StepEnum(s, e)
      [] e.k = "tdef" -> LET t == Resolve(s, e.te)
                         IN IF t[1] = "bad" THEN Undef(s, "typedef") ELSE Done(Bind(s, e.n, <<"t", t>>, {}))
      [] e.k = "fndef" -> Done(Bind(s, e.n, <<"f", e.f>>, {}))
      \* an external function: repeating its declaration has no effect
      [] e.k = "xfn" -> IF Look(s, e.n)[1] = "x" THEN Done(s)
                        ELSE IF ~Declared(s, e.n) THEN Done(Bind(s, e.n, <<"x", e.loc>>, {}))
                        ELSE Undef(s, "redeclaration")
      \* the declaration of something with external linkage: that of the file
      [] e.k = "xref" -> IF e.n \notin DOMAIN s.glob THEN Undef(s, "extern")
                         ELSE IF ~Declared(s, e.n) THEN Done(Bind(s, e.n, s.glob[e.n], {}))
                         ELSE IF Look(s, e.n) = s.glob[e.n] THEN Done(s)
                         ELSE Undef(s, "redeclaration")
      [] e.k = "blk" -> IF e.ss = <<>> THEN Done(s)
                        ELSE Go(Push(Enter(s), <<"seq", id, 1, s.env>>), <<"s", e.ss[1]>>)
      [] e.k = "if" -> EvalE(Push(s, <<"if", id>>), e.c)
      [] e.k = "while" -> Go(s, <<"w", id, s.env>>)
      [] e.k = "for" ->
            IF e.i = 0 THEN Go(s, <<"w", id, s.env>>)
            ELSE Go(Push(Enter(s), <<"forinit", id, s.env>>), <<"s", e.i>>)
      [] e.k = "fault" -> Fail(s, Fault(e.loc, "fault"))
      [] e.k = "brk" -> Go(s, <<"b">>)
      [] e.k = "ret" -> IF e.a = 0 THEN Go(s, <<"r", Val(<<"void">>, <<>>)>>)
                        ELSE EvalE(Push(s, <<"ret", id>>), e.a)
      [] e.k = "out" -> IF e.a = <<>> THEN
                            LET o == Observe(s, <<"out">>) IN IF o.st = "run" THEN Done(o) ELSE o
                        ELSE EvalE(Operands(Push(s, <<"out", id, <<>>, s.q, <<>>>>)), e.a[1])
      [] OTHER -> Undef(s, "statement " \o e.k)

\* The next iteration of the loop id, which was entered with the environment env
StepW(s, id, env) ==
    LET e == N(s, id) IN
    IF e.c = 0 THEN Go(Push(s, <<"body", id, env>>), <<"s", e.s>>)
    ELSE EvalE(Push(s, <<"test", id, env>>), e.c)

\* A statement has been completed
StepN(s0) ==
    IF s0.k = <<>> THEN Exit(s0, <<0>>)            \* the end of the script
    ELSE
    LET f == s0.k[1]
        s == Pop(s0)
        e == N(s, f[2])
    IN
    CASE f[1] = "seq" ->
            IF f[3] = Len(e.ss) THEN Done(LeaveTo(s, f[4]))
            ELSE Go(Push(s, <<"seq", f[2], f[3] + 1, f[4]>>), <<"s", e.ss[f[3] + 1]>>)
      [] f[1] = "top" ->
            IF f[3] = Len(P(s).top)
            THEN (IF P(s).main = 0 THEN Exit(s, <<0>>)
                  ELSE CallFn(s, f[2], P(s).main, <<>>))
            ELSE Go(Push(s, <<"top", f[2], f[3] + 1>>), <<"s", P(s).top[f[3] + 1]>>)
      [] f[1] = "body" ->
            IF e.k = "while" \/ e.u = 0 THEN Go(s, <<"w", f[2], f[3]>>)
            ELSE EvalE(Push(s, <<"upd", f[2], f[3]>>), e.u)
      [] f[1] = "forinit" -> Go(s, <<"w", f[2], f[3]>>)
      [] f[1] = "line" -> Go(s, <<"i", f[2]>>)
      [] f[1] = "named" -> IF e.names = <<>> THEN Done(s) ELSE Named(s, e.names, e.opt)
      [] f[1] = "start" ->
            IF f[3] = Len(P(s).start) THEN Go([s EXCEPT !.env = f[4]], <<"i", f[2]>>)
            ELSE Go(Push(s, <<"start", f[2], f[3] + 1, f[4]>>), <<"s", P(s).start[f[3] + 1]>>)
      [] f[1] = "hdr" -> Header(s, f[2], f[3], f[4], f[5], f[6])
      [] f[1] = "call" -> Go(s0, <<"r", Val(<<"void">>, <<>>)>>)
      [] OTHER -> Undef(s, "completion for " \o f[1])

\* break: leave the innermost loop
StepB(s0) ==
    LET f == s0.k[1]
        s == Pop(s0)
    IN CASE f[1] = "body" -> Done(LeaveTo(s, f[3]))
         [] f[1] = "seq" -> LeaveTo(s, f[4])
         [] OTHER -> Undef(s, "break outside of a loop")

\* return: leave the function
StepR(s0, x) ==
    IF s0.k = <<>> THEN (IF IsInt(x.t) THEN Exit(s0, NModPow2(x.v, 8)) ELSE Undef(s0, "return"))
    ELSE
    LET f == s0.k[1]
        s == Pop(s0)
    IN CASE f[1] = "call" ->
                LET fn == Fn(s, f[4])
                    \* leave the scopes of the function
                    t == [LeaveTo(s, <<>>) EXCEPT !.env = f[3], !.q.d = f[5]]
                    rt == Resolve(t, fn.rt)
                    y == IF rt[1] = "void" THEN Val(<<"void">>, <<>>) ELSE Conv(x, rt)
                IN IF f[2] = 0 THEN     \* main
                       IF IsInt(x.t) THEN Exit(t, NModPow2(x.v, 8)) ELSE Exit(t, <<0>>)
                   ELSE IF rt[1] # "void" /\ x.t[1] = "void" THEN
                       \* no value: defined as long as nobody uses it
                       IF t.k # <<>> /\ t.k[1][1] = "expr" THEN GiveV(t, Val(<<"void">>, <<>>))
                       ELSE Undef(t, "no return value")
                   ELSE GiveV(t, y)
         [] f[1] = "top" -> IF IsInt(x.t) THEN Exit(s, NModPow2(x.v, 8)) ELSE Undef(s, "return")
         [] OTHER -> Go(s, s0.ctl)

\* The initial state of the program pid -------------------------------------

RECURSIVE Globals(_, _, _)
Globals(s, strs, i) ==          \* the string literals have static storage duration
    IF i > Len(strs) THEN s
    ELSE LET c == strs[i]       \* characters, or -1 and the spelling
             t == IF c # <<>> /\ c[1] = -1 THEN StringOf(Tail(c)) ELSE c
         IN Globals([s EXCEPT !.mem = (i :> Append(t, 0)) @@ @, !.nxt = i + 1], strs, i + 1)

Start(pid) ==
    LET s == [pid |-> pid, ctl |-> <<"s", 0>>, k |-> <<>>, env |-> <<>>, glob |-> <<>>, hg |-> <<>>, hd |-> FALSE, mem |-> <<>>,
              nxt |-> 1, q |-> NoLog, fl |-> <<>>, su |-> <<>>, stat |-> <<>>, va |-> <<>>, atx |-> <<>>,
              inp |-> 1, rs |-> FALSE, at |-> <<>>, perr |-> 0, mac |-> <<>>, smac |-> <<>>, l |-> 1, st |-> "run",
              why |-> <<>>, steps |-> 0]
        g == Globals(s, Progs[pid].strs, 1)
    IN IF Progs[pid].top = <<>> THEN Exit(g, <<0>>)
       ELSE Go(Push(g, <<"top", 0, 1>>), <<"s", Progs[pid].top[1]>>)

Init == \E pid \in 1 .. Len(Progs) : m = Start(pid)

MaxSteps == 20000

Step(s) == [s EXCEPT !.steps = @ + 1]

\* What the machine does next
Do(s) ==
    LET c == s.ctl IN
    CASE c[1] = "e" -> StepE(s, c[2])           \* an expression
      [] c[1] = "a" -> StepA(s, c[2])           \* an expression that designates an object
      [] c[1] = "c" -> StepC(s, c[2], c[3])     \* a call
      [] c[1] = "s" -> StepS(s, c[2])           \* a statement
      [] c[1] = "i" -> StepI(s, c[2])           \* the REPL
      [] c[1] = "d" -> StepD(s, c[2], c[3])     \* a declarator
      [] c[1] = "w" -> StepW(s, c[2], c[3])     \* an iteration of a loop
      [] c[1] = "v" -> StepV(s, c[2])           \* an operand has a value
      [] c[1] = "o" -> StepO(s, c[2])           \* an operand designates an object
      [] c[1] = "die" -> StepDie(s, c[2], c[3]) \* the program is in error
      [] c[1] = "n" -> StepN(s)                 \* a statement has been completed
      [] c[1] = "b" -> StepB(s)                 \* a break is leaving statements
      [] c[1] = "r" -> StepR(s, c[2])           \* a return is leaving statements

\* The specification is Init /\ [][Next]_m
Next == /\ m.st = "run"
        /\ m' = IF m.steps > MaxSteps THEN Undef(m, "too many steps") ELSE Do(Step(m))

\* The execution is deterministic: a program and a number of steps identify a
\* state.
View == <<m.pid, m.steps, m.st>>

\* Every verdict is printed, a driver collects them.
Verdict == m.st = "run" \/ PrintT("VERDICT " \o ToJson(<<P(m).id, m.st, m.l, m.steps, m.why>>))

\* Invariants ----------------------------------------------------------------

RECURSIVE ScopeObjs(_)
ScopeObjs(env) == IF env = <<>> THEN {} ELSE env[1].o \cup ScopeObjs(env[2])
RECURSIVE SavedEnvs(_)
SavedEnvs(k) == IF k = <<>> THEN {}
                ELSE (IF k[1][1] = "call" THEN ScopeObjs(k[1][3])
                       ELSE IF k[1][1] \in {"start", "hdr"} THEN ScopeObjs(k[1][4]) ELSE {}) \cup SavedEnvs(k[2])

\* The live objects are exactly those of static storage duration and those of
\* the scopes that haven't been left: no object dies early, none is leaked.
StaticObjs == (1 .. Len(P(m).strs)) \cup {m.stat[x] : x \in DOMAIN m.stat}
              \cup {m.glob[n][3] : n \in {x \in DOMAIN m.glob : m.glob[x][1] = "v"}}
              \cup {m.hg[n][3] : n \in {x \in DOMAIN m.hg : m.hg[x][1] = "v"}}
Lifetimes == m.st = "run" => DOMAIN m.mem = StaticObjs \cup ScopeObjs(m.env) \cup SavedEnvs(m.k)

\* Every cell is a byte, uninitialised, or a part of a pointer or a float.
Cells == m.st = "run" => \A o \in DOMAIN m.mem : \A i \in 1 .. Len(m.mem[o]) : m.mem[o][i] >= -1
=============================================================================
