-------------------------------- MODULE Cli --------------------------------
(***************************************************************************)
(* The command line of bic: what an invocation does, from the words of the  *)
(* command line to the exit status. Words and names are sequences of        *)
(* character codes.                                                         *)
(*                                                                          *)
(* CASES is a file of recorded invocations. Each has                        *)
(*   argv     the words after the name of the program                       *)
(*   world    what there is in the directory where it runs:                 *)
(*     libs     shared libraries [name, id]; `id' is what loading one prints *)
(*              and what its function which() returns                       *)
(*     dirs     directories [name, conf]; conf is what a header in it defines*)
(*              <<>> if there is none                                       *)
(*     scripts  files [name, kind, value]                                   *)
(*   trace    what was observed                                             *)
(* The machine reads the words one character at a time, as getopt() does.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)

VARIABLE m
C == Cases[m.case]
W == C.world

Dash == 45
Slash == 47
Flags == {118, 84, 68}              \* v T D
WithValue == {108, 115, 73}         \* l s I

Lib == <<108, 105, 98>>             \* lib
So == <<46, 115, 111>>              \* .so

Init == \E c \in DOMAIN Cases :
    m = [case |-> c, st |-> "run", ph |-> "word", i |-> 1, rest |-> <<>>,
         T |-> FALSE, D |-> FALSE, libs |-> <<>>, dirs |-> <<>>, script |-> <<>>, args |-> <<>>, found |-> FALSE,
         l |-> 1, why |-> <<>>]

\* Observations ---------------------------------------------------------------
Stop(s, st, why) == [s EXCEPT !.st = st, !.why = why]
Emit(s, e) ==
    IF s.st # "run" THEN s
    ELSE IF s.l <= Len(C.trace) /\ C.trace[s.l] = e THEN [s EXCEPT !.l = @ + 1]
    ELSE Stop(s, "reject", <<"expected", e>>)
EmitAll(s, es) == FoldLeft(Emit, s, es)
Exit(s, n) ==
    LET a == Emit(s, <<"exit", n>>)
    IN IF a.st # "run" THEN a
       ELSE IF a.l <= Len(C.trace) THEN Stop(a, "reject", <<"nothing more">>)
       ELSE Stop(a, "accept", <<>>)

\* Options ---------------------------------------------------------------------
\* The library that a name stands for, 0 if there is none
Named(n) == LET is == {k \in DOMAIN W.libs : W.libs[k].name = n}
            IN IF is = {} THEN 0 ELSE CHOOSE k \in is : TRUE
Library(n) == IF Named(n) # 0 THEN Named(n) ELSE Named(Lib \o n \o So)

Load(s, n) ==
    LET k == Library(n) IN
    IF n \in {<<109>>, <<>>} THEN s           \* the library of mathematical functions, and (as for dlopen) bic itself
    ELSE IF k = 0 THEN Exit(Emit(s, <<"nolib">>), 1)
    ELSE IF \E j \in DOMAIN s.libs : s.libs[j] = W.libs[k].id THEN s        \* only once
    ELSE Emit([s EXCEPT !.libs = Append(@, W.libs[k].id)], <<"lib", W.libs[k].id>>)

\* Option o has the value v; the next word is number i
Option(s, o, v, i) ==
    LET a == [s EXCEPT !.i = i, !.rest = <<>>, !.ph = "word"]
    IN CASE o = 108 -> Load(a, v)
         [] o = 73 /\ v = <<Dash>> -> Stop(s, "undef", "an obsolete option of gcc")
         [] o = 73 -> [a EXCEPT !.dirs = Append(@, v)]
         [] o = 115 -> [a EXCEPT !.script = v, !.found = TRUE, !.ph = "script",
                                 !.args = <<v>> \o SubSeq(C.argv, i, Len(C.argv))]

Usage(s) == Exit(Emit(s, <<"usage">>), 1)

\* A word
Word(s) ==
    IF s.i > Len(C.argv) THEN [s EXCEPT !.ph = "repl"]
    ELSE LET w == C.argv[s.i] IN
         IF w = <<Dash, Dash>> THEN [s EXCEPT !.ph = "repl"]        \* nothing after it is an option
         ELSE IF Len(w) < 2 \/ w[1] # Dash THEN [s EXCEPT !.i = @ + 1]  \* not an option: of no meaning
         ELSE [s EXCEPT !.ph = "letter", !.rest = Tail(w)]

\* A letter of a word of options
Letter(s) ==
    IF s.rest = <<>> THEN [s EXCEPT !.ph = "word", !.i = @ + 1]
    ELSE LET o == s.rest[1]
             r == Tail(s.rest) IN
         IF o \in WithValue THEN
            IF r # <<>> THEN Option(s, o, r, s.i + 1)
            ELSE IF s.i + 1 <= Len(C.argv) THEN Option(s, o, C.argv[s.i + 1], s.i + 2)
            ELSE Usage(s)
         ELSE IF o = 118 THEN Exit(Emit(s, <<"version">>), 0)
         ELSE IF o = 84 THEN [s EXCEPT !.T = TRUE, !.rest = r]
         ELSE IF o = 68 THEN [s EXCEPT !.D = TRUE, !.rest = r]
         ELSE Usage(s)

\* What a script does ----------------------------------------------------------
\* The value from the first directory that has the header, <<>> if none has
Conf(s) ==
    LET has(n) == \E k \in DOMAIN W.dirs : W.dirs[k].name = n /\ W.dirs[k].conf # <<>>
        ns == SelectSeq(s.dirs, has)
    IN IF ns = <<>> THEN <<>> ELSE W.dirs[CHOOSE k \in DOMAIN W.dirs : W.dirs[k].name = ns[1]].conf

Status(n) == n % 256
Args(s) == <<<<"argc", Len(s.args)>>>> \o [k \in DOMAIN s.args |-> <<"arg", s.args[k]>>] \o <<<<"null">>>>

\* A script that reads its own words with getopt(argc, argv, "ab:vs:"), whatever bic has
\* read before: the options of words a from number i on, r the rest of the current word.
\* The words that are no options end up after the others. (Values are shown with a 0 in
\* front.)
RECURSIVE Getopt(_, _, _, _, _)
Getopt(a, i, r, non, es) ==
    LET w == a[i]
        o == r[1]
        opt(c, v) == Append(es, <<"opt", c, v>>) IN
    IF r # <<>> THEN
        IF o \in {97, 118} THEN Getopt(a, i, Tail(r), non, opt(o, <<>>))
        ELSE IF o \notin {98, 115} THEN Getopt(a, i, Tail(r), non, opt(63, <<>>))
        ELSE IF Len(r) > 1 THEN Getopt(a, i, <<>>, non, opt(o, <<0>> \o Tail(r)))
        ELSE IF i <= Len(a) THEN Getopt(a, i + 1, <<>>, non, opt(o, <<0>> \o a[i]))
        ELSE Getopt(a, i, <<>>, non, opt(63, <<>>))
    ELSE IF i > Len(a) THEN [es |-> es, non |-> non]
    ELSE IF w = <<Dash, Dash>> THEN [es |-> es, non |-> non \o SubSeq(a, i + 1, Len(a))]
    ELSE IF Len(w) < 2 \/ w[1] # Dash THEN Getopt(a, i + 1, <<>>, Append(non, w), es)
    ELSE Getopt(a, i + 1, Tail(w), non, es)
Options(s) ==
    LET g == Getopt(s.args, 2, <<>>, <<>>, <<>>) IN
    <<<<"index", 1>>>> \o g.es \o <<<<"index", Len(s.args) - Len(g.non)>>>> \o [k \in DOMAIN g.non |-> <<"arg", g.non[k]>>]

Run(s, kind, v) ==
    CASE kind = "getopt" -> Exit(EmitAll(s, Options(s)), Status(v))
      [] kind = "args-top" -> Exit(EmitAll(s, SubSeq(Args(s), 1, Len(s.args) + 1)), 0)
      [] kind = "args-main" -> Exit(EmitAll(s, Args(s)), Status(v))
      [] kind = "args-one" -> Exit(Emit(s, <<"argc", Len(s.args)>>), Status(v))
      [] kind = "args-function" -> Exit(EmitAll(s, SubSeq(Args(s), 1, Len(s.args) + 1)), Status(v))
      [] kind \in {"main", "return", "exit", "exit-main"} -> Exit(Emit(s, <<"plain">>), Status(v))
      [] kind \in {"void-main", "main-ends", "top"} -> Exit(Emit(s, <<"plain">>), 0)
      [] kind \in {"declarations", "empty"} -> Exit(s, 0)
      [] kind = "conf" -> IF Conf(s) = <<>> THEN Exit(s, 254) ELSE Exit(Emit(s, <<"conf">> \o Conf(s)), Status(v))
      [] kind = "which" -> IF s.libs = <<>> THEN Exit(s, 1) ELSE Exit(Emit(s, <<"which", s.libs[1]>>), Status(v))
      [] kind = "mix" -> Exit(Emit(s, <<"mix">>), 1)
      [] kind = "syntax" -> Exit(Emit(s, <<"syntax">>), 1)

\* A script that can't be read or preprocessed isn't run
Script(s) ==
    LET is == {k \in DOMAIN W.scripts : W.scripts[k].name = s.script} IN
    IF s.script \in {<<>>, <<Dash>>} THEN Stop(s, "undef", "the standard input")
    ELSE IF is = {} THEN Exit(s, 254)
    ELSE LET f == W.scripts[CHOOSE k \in is : TRUE] IN
         IF f.kind = "unreadable" \/ (f.kind = "conf" /\ Conf(s) = <<>>) THEN Exit(s, 254)
         ELSE IF f.kind = "syntax" THEN Run(s, f.kind, f.value)
         ELSE IF s.T THEN Exit(Emit(s, <<"dump", IF s.D THEN "dot" ELSE "text">>), 0)
         ELSE Run(s, f.kind, f.value)

\* Without a script, the REPL evaluates what it reads: here
\*      #include <conf.h>
\*      CONF;
\*      int which(void);
\*      which();
Repl(s) ==
    LET a == Emit(s, <<"repl">>) IN
    IF Conf(s) = <<>> THEN Exit(a, 1)
    ELSE LET b == Emit(a, <<"conf">> \o Conf(s)) IN
         IF s.libs = <<>> THEN Exit(b, 1) ELSE Exit(Emit(b, <<"which", s.libs[1]>>), 0)

Next == /\ m.st = "run"
        /\ m' = CASE m.ph = "word" -> Word(m)
                  [] m.ph = "letter" -> Letter(m)
                  [] m.ph = "script" -> Script(m)
                  [] m.ph = "repl" -> Repl(m)

Verdict == m.st = "run" \/ PrintT("VERDICT " \o ToJson(<<C.id, m.st, m.l, m.i, m.why>>))

\* Whatever comes after the script is an argument of it and nothing else
Untouched == m.found => /\ Len(m.args) >= 1 /\ m.args[1] = m.script
                        /\ \E k \in 0 .. Len(C.argv) : Tail(m.args) = SubSeq(C.argv, k + 1, Len(C.argv))
\* No word is read twice
Progress == [][m'.i >= m.i]_m
=============================================================================
