------------------------------- MODULE Syntax -------------------------------
(***************************************************************************)
(* The grammar of scripts: which sequences of tokens are programs, and the   *)
(* tree that each stands for.                                               *)
(*                                                                          *)
(* CASES is a file of recorded parses. Each has                             *)
(*   toks    the tokens [k, v]: k is the kind - "ID", "INT", "FLOAT", "STR",  *)
(*           or the word or the operator itself - and v the value           *)
(*   got     what bic made of them, when it was asked to show the tree, to   *)
(*           draw it, and to run the program: [st, trees] - the trees of the *)
(*           top level as it shows them - or [st, at], the number of the     *)
(*           token at which it rejected the text (0: not known)              *)
(*                                                                          *)
(* The machine reads one declaration or statement of the top level at a     *)
(* time. A cursor is the number of the next token and the names of types    *)
(* declared so far; an operator that reads something returns what comes     *)
(* after it and its tree, or the place of the first token that can't        *)
(* continue any program.                                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)

VARIABLE m
C == Cases[m.case]
NumToks == Len(C.toks)

\* Tokens -----------------------------------------------------------------------
K(c) == IF c.i > NumToks THEN "end"
        ELSE LET t == C.toks[c.i] IN IF t.k = "ID" /\ t.v \in c.ty THEN "TYPE" ELSE t.k
V(c) == C.toks[c.i].v
Next1(c) == [c EXCEPT !.i = @ + 1]

Words == {"auto", "break", "case", "char", "continue", "default", "do", "double", "else", "enum", "extern", "float",
          "for", "goto", "if", "int", "_Bool", "long", "register", "return", "short", "signed", "sizeof", "static",
          "struct", "switch", "typedef", "union", "unsigned", "void", "while"}
Storage == {"typedef", "extern", "static", "auto", "register"}
BasicTypes == {"void", "char", "short", "int", "long", "float", "double", "signed", "unsigned", "_Bool"}
TypeWords == BasicTypes \cup {"struct", "union", "enum", "TYPE"}
DeclWords == Storage \cup TypeWords

\* Results ----------------------------------------------------------------------
Ok(c, t) == [st |-> "ok", c |-> c, t |-> t, u |-> FALSE, n |-> FALSE]
Fail(c) == [st |-> "rejected", c |-> c, t |-> <<>>, u |-> FALSE, n |-> FALSE]
\* C, but not the language of bic: no statement about it
Undef(c) == [st |-> "undef", c |-> c, t |-> <<>>, u |-> FALSE, n |-> FALSE]
Then(r, F(_)) == IF r.st = "ok" THEN F(r) ELSE r
Expect(c, k, F(_)) == IF K(c) = k THEN F(Next1(c)) ELSE Fail(c)

\* Trees ------------------------------------------------------------------------
Leaf(ty) == [type |-> ty]
Tree(ty, p, a) == Leaf(ty) @@ (p :> a)
Tree2(ty, p, a, q, b) == Tree(ty, p, a) @@ (q :> b)
Chain(ts) == [type |-> "chain", of |-> ts]
With(t, p, a) == t @@ (p :> a)
Ident(v) == [type |-> "T_IDENTIFIER", STR |-> v]
\* Replace what is at the end of the pointers p
RECURSIVE Under(_, _)
Under(p, t) == IF "EXP" \in DOMAIN p THEN [p EXCEPT !.EXP = Under(p.EXP, t)] ELSE With(p, "EXP", t)
NoTree == [type |-> "none"]

BinOps == [o \in {"||", "&&", "|", "^", "&", "==", "!=", "<", ">", "<=", ">=", "<<", ">>", "+", "-", "*", "/", "%"} |->
    CASE o = "||" -> "T_L_OR" [] o = "&&" -> "T_L_AND" [] o = "|" -> "T_I_OR" [] o = "^" -> "T_X_OR" [] o = "&" -> "T_I_AND"
      [] o = "==" -> "T_EQ" [] o = "!=" -> "T_N_EQ" [] o = "<" -> "T_LT" [] o = ">" -> "T_GT" [] o = "<=" -> "T_LTEQ" [] o = ">=" -> "T_GTEQ"
      [] o = "<<" -> "T_LSHIFT" [] o = ">>" -> "T_RSHIFT" [] o = "+" -> "T_ADD" [] o = "-" -> "T_SUB" [] o = "*" -> "T_MUL" [] o = "/" -> "T_DIV" [] o = "%" -> "T_MOD"]
Levels == <<{"||"}, {"&&"}, {"|"}, {"^"}, {"&"}, {"==", "!="}, {"<", ">", "<=", ">="}, {"<<", ">>"}, {"+", "-"}, {"*", "/", "%"}>>
AssignOps == [o \in {"+=", "-=", "/=", "<<=", ">>=", "^="} |->
    CASE o = "+=" -> "T_ADD" [] o = "-=" -> "T_SUB" [] o = "/=" -> "T_DIV" [] o = "<<=" -> "T_LSHIFT" [] o = ">>=" -> "T_RSHIFT" [] o = "^=" -> "T_X_OR"]
UnaryOps == [o \in {"++", "--", "!", "&", "*", "~"} |->
    CASE o = "++" -> "T_INC" [] o = "--" -> "T_DEC" [] o = "!" -> "T_NEGATE" [] o = "&" -> "T_ADDR" [] o = "*" -> "T_DEREF" [] o = "~" -> "T_ONES_COMP"]
TypeTrees == [o \in BasicTypes |->
    CASE o = "void" -> "T_VOID_TS" [] o = "char" -> "T_CHAR_TS" [] o = "short" -> "T_SHORT_TS" [] o = "int" -> "T_INT_TS" [] o = "long" -> "T_LONG_TS"
      [] o = "float" -> "T_FLOAT_TS" [] o = "double" -> "T_DOUBLE_TS" [] o = "signed" -> "T_SIGNED_TS" [] o = "unsigned" -> "T_UNSIGNED_TS" [] o = "_Bool" -> "T_BOOL_TS"]
StorageTrees == [o \in Storage |->
    CASE o = "typedef" -> "T_TYPEDEF" [] o = "extern" -> "T_EXTERN" [] o = "static" -> "T_STATIC" [] o = "auto" -> "T_AUTO" [] o = "register" -> "T_REGISTER"]

\* Expressions ------------------------------------------------------------------
RECURSIVE Primary(_), Postfix(_), Suffixes(_), Arguments(_, _), Unary(_), Cast(_), Bin(_, _), BinRest(_, _), Conditional(_),
          Assignment(_), Expression(_), ExprRest(_, _), TypeName(_), Specs(_, _, _), Declarator(_, _), Direct(_, _), DirectRest(_, _),
          Pointers(_), Struct(_), StructDecls(_, _), StructDeclarators(_, _), Enumerators(_, _), Parameters(_, _), Idents(_, _)

\* r.u: whether what has been read is an operand that can be assigned to
U(r) == [r EXCEPT !.u = r.st = "ok"]
NotU(r) == [r EXCEPT !.u = FALSE]

Number(v) == [type |-> "T_INTEGER", VAL |-> v]

Primary(c) ==
    LET k == K(c) IN
    CASE k = "INT" -> Ok(Next1(c), Number(V(c)))
      [] k = "UINT" -> Ok(Next1(c), Number(V(c)) @@ ("unsigned" :> TRUE))
      [] k = "FLOAT" -> Ok(Next1(c), [type |-> "T_FLOAT", neg |-> FALSE, VAL |-> V(c)])
      [] k = "ID" -> Ok(Next1(c), Ident(V(c)))
      [] k = "STR" -> IF K(Next1(c)) = "STR" THEN Undef(c) ELSE Ok(Next1(c), [type |-> "T_STRING", VAL |-> V(c)])
      [] k = "(" -> Then(Expression(Next1(c)), LAMBDA r : Expect(r.c, ")", LAMBDA d : Ok(d, r.t)))
      [] OTHER -> Fail(c)

Arguments(c, ts) ==
    Then(Assignment(c), LAMBDA r :
        IF K(r.c) = "," THEN Arguments(Next1(r.c), Append(ts, r.t))
        ELSE Expect(r.c, ")", LAMBDA d : Ok(d, Chain(Append(ts, r.t)))))

\* r is an operand, more suffixes may follow
Suffixes(r) ==
    IF r.st # "ok" THEN r ELSE
    LET k == K(r.c)
        d == Next1(r.c)
    IN CASE k = "(" -> IF K(d) = ")" THEN Suffixes(Ok(Next1(d), Tree("T_FN_CALL", "ID", r.t)))
                       ELSE Suffixes(Then(Arguments(d, <<>>), LAMBDA a : Ok(a.c, Tree2("T_FN_CALL", "ID", r.t, "ARGS", a.t))))
         [] k = "[" -> Suffixes(Then(Expression(d), LAMBDA a : Expect(a.c, "]", LAMBDA e : Ok(e, Tree2("T_ARRAY_ACCESS", "OBJ", r.t, "IDX", a.t)))))
         [] k = "++" -> Suffixes(Ok(d, Tree("T_P_INC", "EXP", r.t)))
         [] k = "--" -> Suffixes(Ok(d, Tree("T_P_DEC", "EXP", r.t)))
         [] k = "." -> IF K(d) # "ID" THEN Fail(d) ELSE Suffixes(Ok(Next1(d), Tree2("T_COMP_ACCESS", "OBJ", r.t, "MEMBER", Ident(V(d)))))
         [] k = "->" -> IF K(d) # "ID" THEN Fail(d)
                        ELSE Suffixes(Ok(Next1(d), Tree2("T_COMP_ACCESS", "OBJ", Tree("T_DEREF", "EXP", r.t), "MEMBER", Ident(V(d)))))
         [] OTHER -> r
Postfix(c) == U(Suffixes(Primary(c)))

\* What - makes of its operand: constants become negative
Minus(t) ==
    IF t.type = "T_INTEGER" /\ "unsigned" \notin DOMAIN t
    THEN [t EXCEPT !.VAL = <<-Head(t.VAL)>> \o Tail(t.VAL)] @@ ("unsigned" :> FALSE)
    ELSE IF t.type = "T_FLOAT" THEN [t EXCEPT !.neg = ~t.neg]
    ELSE Tree2("T_SUB", "LHS", Number(<<0>>), "RHS", t)

Unary(c) ==
    LET k == K(c)
        d == Next1(c)
    IN CASE k \in DOMAIN UnaryOps ->
              IF k \notin {"++", "--"} /\ K(d) = "(" /\ K(Next1(d)) \in TypeWords THEN Undef(c)
              ELSE U(Then(Unary(d), LAMBDA r : Ok(r.c, Tree(UnaryOps[k], "EXP", r.t))))
         [] k = "+" -> Undef(c)
         [] k = "-" -> U(Then(Cast(d), LAMBDA r : Ok(r.c, Minus(r.t))))
         [] k = "sizeof" ->
              IF K(d) = "(" /\ K(Next1(d)) \in TypeWords
              THEN U(Then(TypeName(Next1(d)), LAMBDA r : Expect(r.c, ")", LAMBDA e :
                        IF K(e) = "{" THEN Undef(e) ELSE Ok(e, Tree("T_SIZEOF", "EXP", r.t)))))
              ELSE U(Then(Unary(d), LAMBDA r : Ok(r.c, Tree("T_SIZEOF", "EXP", r.t))))
         [] OTHER -> Postfix(c)

Cast(c) ==
    IF K(c) = "(" /\ K(Next1(c)) \in TypeWords
    THEN Then(TypeName(Next1(c)), LAMBDA r : Expect(r.c, ")", LAMBDA d :
              IF K(d) = "{" THEN Undef(d)
              ELSE NotU(Then(Cast(d), LAMBDA e : Ok(e.c, Tree2("T_CAST", "NEWTYPE", r.t, "EXP", e.t))))))
    ELSE Unary(c)

BinRest(n, r) ==
    IF r.st = "ok" /\ K(r.c) \in Levels[n]
    THEN Then(Bin(n + 1, Next1(r.c)), LAMBDA q : BinRest(n, Ok(q.c, Tree2(BinOps[K(r.c)], "LHS", r.t, "RHS", q.t))))
    ELSE r
Bin(n, c) == IF n > Len(Levels) THEN Cast(c) ELSE BinRest(n, Bin(n + 1, c))

Conditional(c) ==
    Then(Bin(1, c), LAMBDA r :
        IF K(r.c) # "?" THEN r
        ELSE Then(Expression(Next1(r.c)), LAMBDA a : Expect(a.c, ":", LAMBDA d :
             NotU(Then(Conditional(d), LAMBDA b : Ok(b.c, Tree2("T_INFIX", "COND", r.t, "TRUE_STMT", a.t) @@ ("FALSE_STMT" :> b.t)))))))

Assignment(c) ==
    Then(Conditional(c), LAMBDA r :
        LET k == K(r.c) IN
        IF ~r.u \/ k \notin {"="} \cup DOMAIN AssignOps THEN NotU(r)
        ELSE Then(Assignment(Next1(r.c)), LAMBDA q :
             Ok(q.c, Tree2("T_ASSIGN", "LHS", r.t, "RHS", IF k = "=" THEN q.t ELSE Tree2(AssignOps[k], "LHS", r.t, "RHS", q.t)))))

ExprRest(c, ts) ==
    IF K(c) # "," THEN Ok(c, Tree("T_EXPR_LIST", "CHAIN", Chain(ts)))
    ELSE Then(Assignment(Next1(c)), LAMBDA r : ExprRest(r.c, Append(ts, r.t)))
Expression(c) == Then(Assignment(c), LAMBDA r : ExprRest(r.c, <<r.t>>))

\* Types ------------------------------------------------------------------------
StructDeclarators(c, ts) ==
    LET more(d, t) == IF K(d) = "," THEN StructDeclarators(Next1(d), Append(ts, t))
                      ELSE Expect(d, ";", LAMBDA e : Ok(e, Chain(Append(ts, t))))
    IN IF K(c) = ":" THEN Then(Conditional(Next1(c)), LAMBDA w : more(w.c, Tree("T_BITFIELD", "SZ", w.t)))
       ELSE Then(Declarator(c, "named"), LAMBDA r :
            IF K(r.c) = ":" THEN Then(Conditional(Next1(r.c)), LAMBDA w : more(w.c, Tree2("T_BITFIELD", "SZ", w.t, "DECLARATOR", r.t)))
            ELSE more(r.c, r.t))
\* The members, up to the }
StructDecls(c, ts) ==
    IF K(c) = "}" /\ ts # <<>> THEN Ok(Next1(c), Chain(ts))
    ELSE Then(Specs(c, TypeWords, <<>>), LAMBDA s :
         IF K(s.c) = ";" THEN StructDecls(Next1(s.c), Append(ts, Tree("T_DECL", "SPECS", s.t)))
         ELSE Then(StructDeclarators(s.c, <<>>), LAMBDA r : StructDecls(r.c, Append(ts, Tree2("T_DECL", "SPECS", s.t, "DECLS", r.t)))))
Struct(c) ==        \* after the word struct or union
    LET body(d, t) == Then(StructDecls(d, <<>>), LAMBDA r : Ok(r.c, With(t, "DECLS", r.t)))
        new == Tree("T_DECL_COMPOUND", "TYPE", C.toks[c.i - 1].k)
        k == IF c.i > NumToks THEN "end" ELSE C.toks[c.i].k         \* the tag can be the name of a type, too
    IN CASE k = "{" -> body(Next1(c), new)
         [] k \in Words -> Undef(c)
         [] k = "ID" -> LET t == With(new, "ID", Ident(V(c)))
                            d == Next1(c)
                        IN IF K(d) = "{" THEN body(Next1(d), t) ELSE Ok(d, t)
         [] OTHER -> Fail(c)

Enumerators(c, ts) ==
    IF K(c) = "}" /\ ts # <<>> THEN Ok(Next1(c), Chain(ts))
    ELSE IF K(c) # "ID" THEN Fail(c)
    ELSE LET more(d, t) == IF K(d) = "}" THEN Ok(Next1(d), Chain(Append(ts, t)))
                           ELSE Expect(d, ",", LAMBDA e : Enumerators(e, Append(ts, t)))
             d == Next1(c)
         IN IF K(d) # "=" THEN more(d, Ident(V(c)))
            ELSE Then(Conditional(Next1(d)), LAMBDA r : more(r.c, Tree2("T_ASSIGN", "LHS", Ident(V(c)), "RHS", r.t)))
Enum(c) ==          \* after the word enum
    LET body(d, t) == Then(Enumerators(d, <<>>), LAMBDA r : Ok(r.c, With(t, "ENUMS", r.t)))
    IN CASE K(c) = "{" -> body(Next1(c), Leaf("T_ENUMERATOR"))
         [] K(c) = "ID" -> LET t == Tree("T_ENUMERATOR", "NAME", Ident(V(c)))
                               d == Next1(c)
                           IN IF K(d) = "{" THEN body(Next1(d), t) ELSE Ok(d, t)
         [] OTHER -> Fail(c)

\* At least one specifier of the kinds ks
Specs(c, ks, ts) ==
    LET k == K(c)
        d == Next1(c)
        more(r) == Specs(r.c, ks, Append(ts, r.t))
    IN IF k \notin ks THEN (IF ts = <<>> THEN Fail(c) ELSE Ok(c, Chain(ts)))
       ELSE CASE k \in Storage -> more(Ok(d, Leaf(StorageTrees[k])))
              [] k \in BasicTypes -> more(Ok(d, Leaf(TypeTrees[k])))
              [] k = "TYPE" -> more(Ok(d, Ident(V(c))))
              [] k = "enum" -> Then(Enum(d), more)
              [] OTHER -> Then(Struct(d), more)

\* Declarators: "named" ones, "abstract" ones, or "either". r.n: it has a name
Pointers(c) == IF K(c) # "*" THEN Ok(c, NoTree)
               ELSE Then(Pointers(Next1(c)), LAMBDA r : Ok(r.c, IF r.t = NoTree THEN Leaf("T_POINTER") ELSE Tree("T_POINTER", "EXP", r.t)))

IsStartOfDirect(c, how) == \/ K(c) = "("
                           \/ how # "abstract" /\ K(c) = "ID"
                           \/ how # "named" /\ K(c) = "["

Declarator(c, how) ==
    Then(Pointers(c), LAMBDA p :
        IF p.t # NoTree /\ how # "named" /\ ~IsStartOfDirect(p.c, how) THEN p
        ELSE Then(Direct(p.c, how), LAMBDA r : [r EXCEPT !.t = IF p.t = NoTree THEN r.t ELSE Under(p.t, r.t)]))

\* A list of parameters: void alone stands for none
Params(ts) == IF Len(ts) = 1 /\ ts[1].type = "T_DECL" /\ "DECLS" \notin DOMAIN ts[1] /\ ts[1].SPECS = Chain(<<Leaf("T_VOID_TS")>>)
              THEN NoTree ELSE Chain(ts)
Parameters(c, ts) ==
    IF K(c) = "..." /\ ts # <<>> THEN Expect(Next1(c), ")", LAMBDA d : Ok(d, Chain(Append(ts, Leaf("T_VARIADIC")))))
    ELSE Then(Specs(c, DeclWords, <<>>), LAMBDA s :
         LET more(d, t) == IF K(d) = "," THEN Parameters(Next1(d), Append(ts, t))
                           ELSE Expect(d, ")", LAMBDA e : Ok(e, Params(Append(ts, t))))
         IN IF K(s.c) \in {"*", "(", "[", "ID"}
            THEN Then(Declarator(s.c, "either"), LAMBDA r : more(r.c, Tree2("T_DECL", "SPECS", s.t, "DECLS", r.t)))
            ELSE more(s.c, Tree("T_DECL", "SPECS", s.t)))
Idents(c, ts) ==
    IF K(c) # "ID" THEN Fail(c)
    ELSE LET d == Next1(c) IN
         IF K(d) = "," THEN Idents(Next1(d), Append(ts, Ident(V(c))))
         ELSE Expect(d, ")", LAMBDA e : Ok(e, Chain(Append(ts, Ident(V(c))))))

\* A function or an array of what r.t declares
FnOf(r, c) ==       \* after the (
    LET fn == IF r.t = NoTree THEN Leaf("T_FN") ELSE Tree("T_FN", "DECL", r.t)
        done(a) == [Ok(a.c, IF a.t = NoTree THEN fn ELSE With(fn, "ARGS", a.t)) EXCEPT !.n = r.n]
    IN CASE K(c) = ")" -> done([c |-> Next1(c), t |-> NoTree])
         [] K(c) = "ID" /\ r.n -> Then(Idents(c, <<>>), done)
         [] OTHER -> Then(Parameters(c, <<>>), done)
ArrayOf(r, c) ==    \* after the [
    LET arr == IF r.t = NoTree THEN Leaf("T_ARRAY") ELSE Tree("T_ARRAY", "DECL", r.t)
        any == IF r.n THEN Tree("T_POINTER", "EXP", r.t) ELSE arr         \* of any size
        done(d, t) == [Ok(d, t) EXCEPT !.n = r.n]
    IN CASE K(c) = "]" -> done(Next1(c), any)
         [] K(c) = "*" /\ K(Next1(c)) = "]" -> done(Next1(Next1(c)), any)
         [] K(c) = "static" -> Undef(c)
         [] OTHER -> Then(Assignment(c), LAMBDA a : Expect(a.c, "]", LAMBDA d : done(d, With(arr, "SZ", a.t))))
DirectRest(r, how) ==
    IF r.st # "ok" THEN r
    ELSE CASE K(r.c) = "(" -> DirectRest(FnOf(r, Next1(r.c)), how)
           [] K(r.c) = "[" -> DirectRest(ArrayOf(r, Next1(r.c)), how)
           [] OTHER -> r
Direct(c, how) ==
    LET none == Ok(c, NoTree)
        d == Next1(c)
    IN CASE K(c) = "ID" /\ how # "abstract" -> DirectRest([Ok(d, Ident(V(c))) EXCEPT !.n = TRUE], how)
         [] K(c) = "(" /\ how # "named" /\ K(d) \in DeclWords \cup {")"} -> DirectRest(FnOf(none, d), how)
         [] K(c) = "(" -> DirectRest(Then(Declarator(d, how), LAMBDA r : Expect(r.c, ")", LAMBDA e : [r EXCEPT !.c = e])), how)
         [] K(c) = "[" /\ how # "named" -> DirectRest(ArrayOf(none, d), how)
         [] OTHER -> Fail(c)

TypeName(c) ==
    Then(Specs(c, TypeWords, <<>>), LAMBDA s :
        IF K(s.c) \in {"*", "(", "["}
        THEN Then(Declarator(s.c, "abstract"), LAMBDA r : Ok(r.c, Tree2("T_TYPE_SPECIFIER", "SPECS", s.t, "DECL", r.t)))
        ELSE Ok(s.c, Tree("T_TYPE_SPECIFIER", "SPECS", s.t)))

\* Declarations -------------------------------------------------------------------
RECURSIVE Initializer(_), Element(_), Initializers(_, _), Designators(_, _), InitDeclarators(_, _), Names(_)

Designators(c, ts) ==
    CASE K(c) = "[" -> Then(Conditional(Next1(c)), LAMBDA r : Expect(r.c, "]", LAMBDA d : Designators(d, Append(ts, Tree("T_ARRAY_ACCESS", "IDX", r.t)))))
      [] K(c) = "." -> IF K(Next1(c)) # "ID" THEN Fail(Next1(c))
                       ELSE Designators(Next1(Next1(c)), Append(ts, Tree("T_COMP_ACCESS", "MEMBER", Ident(V(Next1(c))))))
      [] OTHER -> Expect(c, "=", LAMBDA d : Ok(d, Chain(ts)))
Initializers(c, ts) ==
    IF K(c) = "}" /\ ts # <<>> THEN Ok(Next1(c), Chain(ts))
    ELSE LET more(r) == IF K(r.c) = "}" THEN Ok(Next1(r.c), Chain(Append(ts, r.t)))
                        ELSE Expect(r.c, ",", LAMBDA d : Initializers(d, Append(ts, r.t)))
         IN IF K(c) \in {"[", "."}
            THEN Then(Designators(c, <<>>), LAMBDA l : Then(Initializer(l.c), LAMBDA r : more(Ok(r.c, Tree2("T_ASSIGN", "LHS", l.t, "RHS", r.t)))))
            ELSE Then(Element(c), more)
\* (lists aren't elements of lists)
Element(c) == IF K(c) = "{" THEN Undef(c) ELSE Initializer(c)
Initializer(c) == IF K(c) = "{" THEN Initializers(Next1(c), <<>>) ELSE Assignment(c)

\* The declarators after the specifiers, up to the ;
Declared(r, F(_)) ==
    IF K(r.c) = "=" THEN Then(Initializer(Next1(r.c)), LAMBDA q : F(Ok(q.c, Tree2("T_ASSIGN", "LHS", r.t, "RHS", q.t))))
    ELSE F(r)
InitDeclarators(r, ts) ==
    IF r.st # "ok" THEN r
    ELSE IF K(r.c) = "," THEN Then(Declarator(Next1(r.c), "named"), LAMBDA q :
            Declared(q, LAMBDA x : InitDeclarators(x, Append(ts, x.t))))
    ELSE Expect(r.c, ";", LAMBDA d : Ok(d, Chain(ts)))

\* The names that a declarator declares (as types)
Names(t) == CASE t.type = "T_IDENTIFIER" -> {t.STR}
              [] t.type = "T_POINTER" -> IF "EXP" \in DOMAIN t THEN Names(t.EXP) ELSE {}
              [] t.type \in {"T_FN", "T_ARRAY"} -> IF "DECL" \in DOMAIN t THEN Names(t.DECL) ELSE {}
              [] OTHER -> {}
TypeNames(s, ds) == IF \E i \in DOMAIN s.of : s.of[i].type = "T_TYPEDEF" THEN UNION {Names(ds.of[i]) : i \in DOMAIN ds.of} ELSE {}

\* s: the specifiers, r: the first declarator
DeclarationAfter(s, r) ==
    Declared(r, LAMBDA x : Then(InitDeclarators(x, <<x.t>>), LAMBDA q :
        Ok([q.c EXCEPT !.ty = @ \cup TypeNames(s.t, q.t)], Tree2("T_DECL", "SPECS", s.t, "DECLS", q.t))))
Declaration(c) ==
    Then(Specs(c, DeclWords, <<>>), LAMBDA s :
        IF K(s.c) = ";" THEN Ok(Next1(s.c), Tree("T_DECL", "SPECS", s.t))
        ELSE Then(Declarator(s.c, "named"), LAMBDA r : DeclarationAfter(s, r)))

\* Statements ---------------------------------------------------------------------
RECURSIVE Statement(_), Items(_, _)

ExprStatement(c) == IF K(c) = ";" THEN Ok(Next1(c), Leaf("T_EMPTY"))
                    ELSE Then(Expression(c), LAMBDA r : Expect(r.c, ";", LAMBDA d : Ok(d, r.t)))
Item(t) == IF t.type = "chain" THEN Tree("T_BLOCK", "STMTS", t) ELSE t
Items(c, ts) ==
    IF K(c) = "}" /\ ts # <<>> THEN Ok(Next1(c), Chain(ts))
    ELSE Then(IF K(c) \in DeclWords THEN Declaration(c) ELSE Statement(c), LAMBDA r : Items(r.c, Append(ts, Item(r.t))))
Compound(c) == Expect(c, "{", LAMBDA d : IF K(d) = "}" THEN Ok(Next1(d), Leaf("T_EMPTY")) ELSE Items(d, <<>>))

Condition(c, F(_)) == Expect(c, "(", LAMBDA d : Then(Expression(d), LAMBDA r : Expect(r.c, ")", LAMBDA e : F(Ok(e, r.t)))))

Statement(c) ==
    LET k == K(c)
        d == Next1(c)
    IN CASE k = "{" -> Compound(c)
         [] k = "if" -> Condition(d, LAMBDA e : Then(Statement(e.c), LAMBDA s :
                LET t == Tree2("T_IF", "COND", e.t, "TRUE_STMTS", s.t)
                IN IF K(s.c) # "else" THEN Ok(s.c, t)
                   ELSE Then(Statement(Next1(s.c)), LAMBDA o : Ok(o.c, With(t, "ELSE_STMTS", o.t)))))
         [] k = "while" -> Condition(d, LAMBDA e : Then(Statement(e.c), LAMBDA s : Ok(s.c, Tree2("T_LOOP_WHILE", "COND", e.t, "STMTS", s.t))))
         [] k = "for" -> Expect(d, "(", LAMBDA f :
                Then(IF K(f) \in DeclWords THEN Declaration(f) ELSE ExprStatement(f), LAMBDA i :
                Then(ExprStatement(i.c), LAMBDA e :
                LET t == Tree2("T_LOOP_FOR", "INIT", i.t, "COND", e.t)
                    body(g, u) == Then(Statement(g), LAMBDA s : Ok(s.c, With(u, "STMTS", s.t)))
                IN IF K(e.c) = ")" THEN body(Next1(e.c), t)
                   ELSE Then(Expression(e.c), LAMBDA a : Expect(a.c, ")", LAMBDA g : body(g, With(t, "AFTER", a.t)))))))
         [] k = "break" -> Expect(d, ";", LAMBDA e : Ok(e, Leaf("T_BREAK")))
         [] k = "return" -> IF K(d) = ";" THEN Ok(Next1(d), Leaf("T_RETURN"))
                            ELSE Then(Expression(d), LAMBDA r : Expect(r.c, ";", LAMBDA e : Ok(e, Tree("T_RETURN", "EXP", r.t))))
         [] k \in {"do", "goto", "switch", "case", "default", "continue"} -> Undef(c)
         [] k = "ID" /\ K(d) = ":" -> Undef(c)
         [] OTHER -> ExprStatement(c)

\* The top level -------------------------------------------------------------------
\* The statements of the function that t declares
\* (the declarator of a pointer that a function returns may be around that of
\* the function)
Around(t) == t.type = "T_FN" /\ "DECL" \in DOMAIN t /\ t.DECL.type = "T_POINTER"
RECURSIVE WithBody(_, _)
WithBody(t, b) == CASE t.type = "T_POINTER" -> [t EXCEPT !.EXP = WithBody(@, b)]
                    [] Around(t) -> [t EXCEPT !.DECL = WithBody(@, b)]
                    [] OTHER -> With(t, "STMTS", b)
RECURSIVE IsFunction(_)
IsFunction(t) == CASE t.type = "T_POINTER" -> "EXP" \in DOMAIN t /\ IsFunction(t.EXP)
                   [] Around(t) -> IsFunction(t.DECL)
                   [] OTHER -> t.type = "T_FN"
RECURSIVE OldParameters(_)
OldParameters(c) == IF K(c) \in DeclWords THEN Then(Declaration(c), LAMBDA r : OldParameters(r.c)) ELSE Ok(c, NoTree)

External(c) ==
    Then(Specs(c, DeclWords, <<>>), LAMBDA s :
        IF K(s.c) = ";" THEN Ok(Next1(s.c), Tree("T_DECL", "SPECS", s.t))
        ELSE Then(Declarator(s.c, "named"), LAMBDA r :
             IF K(r.c) = "{" \/ K(r.c) \in DeclWords
             THEN Then(OldParameters(r.c), LAMBDA o :
                  IF K(o.c) # "{" \/ ~IsFunction(r.t) THEN Fail(o.c)
                  ELSE Then(Compound(o.c), LAMBDA b : Ok(b.c, Tree2("T_DECL", "SPECS", s.t, "DECLS", Chain(<<WithBody(r.t, b.t)>>)))))
             ELSE DeclarationAfter(s, r)))

TopLevel(c) == IF K(c) \in DeclWords THEN External(c) ELSE Then(Statement(c), LAMBDA r : Ok(r.c, Item(r.t)))

\* The parse of the text, and what bic made of it ------------------------------------
Init == \E c \in DOMAIN Cases : m = [case |-> c, c |-> [i |-> 1, ty |-> {}], n |-> 1, st |-> "run", why |-> <<>>]

\* Trees without what isn't shown
RECURSIVE Shown(_)
Shown(t) == IF t.type = "chain" THEN [t EXCEPT !.of = [i \in DOMAIN t.of |-> Shown(t.of[i])]]
            ELSE [p \in DOMAIN t \ {"unsigned"} |-> IF p \in {"type", "STR", "VAL", "TYPE", "neg"} THEN t[p] ELSE Shown(t[p])]

Stop(st, why) == m' = [m EXCEPT !.st = st, !.why = why]
\* The end of the text is at its last token
Place(i) == IF i > NumToks THEN NumToks ELSE i

\* Every run agrees with what has been read: a rejected text is rejected at token i,
\* a program has the tree t next
Got(P(_)) == \A i \in DOMAIN C.got : P(C.got[i])
RejectedAt(i) == Got(LAMBDA g : g.st = "rejected" /\ g.at \in {0, Place(i)})
Accepted(n, t) == Got(LAMBDA g : g.st = "ok" /\ n <= Len(g.trees) /\ g.trees[n] = t)
RejectedAfter(i) == Got(LAMBDA g : g.st = "rejected" /\ (g.at = 0 \/ g.at >= i))

Next == /\ m.st = "run"
        /\ IF m.c.i > NumToks
           THEN IF Got(LAMBDA g : g.st = "ok" /\ Len(g.trees) = m.n - 1) THEN Stop("accept", <<>>) ELSE Stop("reject", <<"a program", m.n - 1>>)
           ELSE LET r == TopLevel(m.c) IN
                CASE r.st = "undef" -> Stop("undef", "not in the language of bic")
                  [] r.st = "rejected" -> IF RejectedAt(r.c.i) THEN Stop("accept", <<>>) ELSE Stop("reject", <<"rejected", Place(r.c.i)>>)
                  \* (it can be rejected later, which the program before doesn't show)
                  [] r.st = "ok" /\ (Accepted(m.n, Shown(r.t)) \/ RejectedAfter(r.c.i - 1)) -> m' = [m EXCEPT !.c = r.c, !.n = @ + 1]
                  [] OTHER -> Stop("reject", <<"tree", Shown(r.t)>>)

Verdict == m.st = "run" \/ PrintT("VERDICT " \o ToJson(<<C.id, m.st, m.n, m.c.i, m.why>>))
\* Everything that is read has at least one token
Progress == [][m'.st = "run" => m'.c.i > m.c.i]_m
=============================================================================
