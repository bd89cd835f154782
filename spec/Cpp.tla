--------------------------------- MODULE Cpp ----------------------------------
(***************************************************************************)
(* The preprocessor of C11 (6.10): logical lines, inclusion, conditional   *)
(* inclusion, object-like, function-like and variadic macros with # and    *)
(* ##, and rescanning, on the bytes of the source files.                   *)
(*                                                                         *)
(* A step reads logical lines of the innermost open file, and obeys each   *)
(* or adds it to the text; the text    up to the next directive is         *)
(* expanded at once.  Items[item] has the files (as bytes); the first one  *)
(* is the program.  Std are the supplied headers as C defines them for     *)
(* this target.  The result is the preprocessed text.                      *)
(***************************************************************************)
EXTENDS Tokens, CTypes, TLC, Json, IOUtils

In == JsonDeserialize(IOEnv.CPP_ITEMS)
Items == In.items                   \* sequence of sequences of [name |-> bytes, text |-> bytes]
Std == In.std                       \* the same, for the supplied headers

VARIABLES item, m         \* m: [fs: open files, mac: macros, pend: text to be expanded, out: the result, st]
vars == <<item, m>>

(* ----------------------------- logical lines ---------------------------- *)
\* << the text without spliced lines, where its characters were, where the lines end >>
Unsplice(s) ==
    LET ix == SelectSeq([i \in 1 .. Len(s) |-> i],
                        LAMBDA i : ~(s[i] = 92 /\ At(s, i + 1) = 10) /\ ~(s[i] = 10 /\ At(s, i - 1) = 92))
    IN << TLCEval([k \in 1 .. Len(ix) |-> s[ix[k]]]), ix, SelectSeq([i \in 1 .. Len(s) |-> i], LAMBDA i : s[i] = 10) >>
\* the number of the line of a position
LineAt(u, i) == Len(SelectSeq(u[3], LAMBDA q : q < u[2][i])) + 1
\* k: id num chr str p;  w: white space before it;  h: the macros it came from;  n: its position, then its line
PTok(k, b, w, n) == [k |-> k, b |-> b, w |-> w, h |-> {}, n |-> n]
RECURSIVE EndQuoteOnLine(_, _, _)
EndQuoteOnLine(s, i, q) ==          \* the position after the literal
    IF At(s, i) \in {-1, 10} THEN i
    ELSE IF s[i] = q THEN i + 1
    ELSE EndQuoteOnLine(s, i + (IF s[i] = 92 THEN 2 ELSE 1), q)
\* [k, b, e: position after it] of the token at i
Scan(s, i) ==
    LET c == s[i]
        r(k, e) == [k |-> k, b |-> SubSeq(s, i, e - 1), e |-> e]
    IN IF IsLetter(c) THEN r("id", EndWord(s, i))
       ELSE IF IsDigit(c) \/ (c = 46 /\ IsDigit(At(s, i + 1))) THEN r("num", EndNum(s, i))
       ELSE IF c = 39 THEN r("chr", EndQuoteOnLine(s, i + 1, 39))
       ELSE IF c = 34 THEN r("str", EndQuoteOnLine(s, i + 1, 34))
       ELSE IF c = 35 /\ At(s, i + 1) = 35 THEN r("p", i + 2)
       ELSE r("p", i + PunctLen(s, i))
Hash == <<35>>  HashHash == <<35, 35>>
WInclude == <<105,110,99,108,117,100,101>>
RECURSIVE CloseAngle(_, _)
CloseAngle(s, i) == IF At(s, i) \in {62, 10, -1} THEN i ELSE CloseAngle(s, i + 1)
\* [ts: the tokens of a logical line, i: the position after it]
RECURSIVE Line(_, _, _, _)
Line(s, i, w, ts) ==
    IF i > Len(s) THEN [ts |-> ts, i |-> i]
    ELSE IF s[i] = 10 THEN [ts |-> ts, i |-> i + 1]
    ELSE IF IsSpace(s[i]) THEN Line(s, i + 1, TRUE, ts)
    ELSE IF s[i] = 47 /\ At(s, i + 1) = 47 THEN Line(s, SkipLine(s, i), TRUE, ts)
    ELSE IF s[i] = 47 /\ At(s, i + 1) = 42 THEN Line(s, SkipBlock(s, i + 2), TRUE, ts)
    ELSE IF s[i] = 60 /\ Len(ts) = 2 /\ ts[1].b = Hash /\ ts[2].b = WInclude
    THEN LET e == CloseAngle(s, i) IN
         Line(s, e + 1, FALSE, Append(ts, PTok("hdr", SubSeq(s, i + 1, e - 1), w, i)))
    ELSE LET t == Scan(s, i) IN Line(s, t.e, FALSE, Append(ts, PTok(t.k, t.b, w, i)))

(* -------------------------------- macros -------------------------------- *)
\* [fn, ps: parameters, va: the last takes the rest, body]
VaArgs == <<95,95,86,65,95,65,82,71,83,95,95>>
WLine == <<95,95,76,73,78,69,95,95>>
IsP(t, b) == t.k = "p" /\ t.b = b
LParen == <<40>>  RParen == <<41>>  CommaB == <<44>>
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE Dec(n \div 10) \o <<48 + (n % 10)>>
\* the spelling of tokens, with a space where there was white space
RECURSIVE Spell(_, _, _)
Spell(ts, i, acc) == IF i > Len(ts) THEN acc
                     ELSE Spell(ts, i + 1, acc \o (IF ts[i].w /\ i > 1 THEN <<32>> ELSE <<>>) \o ts[i].b)
RECURSIVE Escape(_, _)
Escape(b, i) == IF i > Len(b) THEN <<>>
                ELSE (IF b[i] \in {34, 92} THEN <<92, b[i]>> ELSE <<b[i]>>) \o Escape(b, i + 1)
RECURSIVE Quoted(_, _, _)
Quoted(ts, i, acc) ==
    IF i > Len(ts) THEN acc
    ELSE Quoted(ts, i + 1, acc \o (IF ts[i].w /\ i > 1 THEN <<32>> ELSE <<>>)
                               \o (IF ts[i].k \in {"str", "chr"} THEN Escape(ts[i].b, 1) ELSE ts[i].b))
Stringize(ts, w, n) == PTok("str", <<34>> \o Quoted(ts, 1, <<>>) \o <<34>>, w, n)
\* the last token of a and the first of b become one
Glue(a, b) ==
    IF b = <<>> THEN a ELSE IF a = <<>> THEN b
    ELSE LET l == a[Len(a)]
             t == l.b \o b[1].b
             s == Scan(t, 1)
         IN SubSeq(a, 1, Len(a) - 1)
            \o <<[l EXCEPT !.b = t, !.k = IF s.e = Len(t) + 1 THEN s.k ELSE "bad", !.h = l.h \cap b[1].h]>> \o Tail(b)
Spaced(ts, w) == IF ts = <<>> THEN ts ELSE <<[ts[1] EXCEPT !.w = w]>> \o Tail(ts)
ParIx(mc, t) == IF ~mc.fn \/ t.k # "id" \/ \A j \in 1 .. Len(mc.ps) : mc.ps[j] # t.b THEN 0
               ELSE CHOOSE j \in 1 .. Len(mc.ps) : mc.ps[j] = t.b

\* the arguments: i is after the opening parenthesis; a: those which are complete, c: the current one
RECURSIVE MacArgs(_, _, _, _, _)
MacArgs(ts, i, d, c, a) ==
    IF i > Len(ts) THEN [ok |-> FALSE, as |-> a, i |-> i, h |-> {}]
    ELSE LET t == ts[i] IN
         IF d = 0 /\ IsP(t, RParen) THEN [ok |-> TRUE, as |-> Append(a, c), i |-> i + 1, h |-> t.h]
         ELSE IF d = 0 /\ IsP(t, CommaB) THEN MacArgs(ts, i + 1, 0, <<>>, Append(a, c))
         ELSE MacArgs(ts, i + 1, IF IsP(t, LParen) THEN d + 1 ELSE IF IsP(t, RParen) THEN d - 1 ELSE d, Append(c, t), a)
\* the last argument takes the rest, with its commas
RECURSIVE Joined(_, _, _)
Joined(as, j, acc) == IF j > Len(as) THEN acc
                      ELSE Joined(as, j + 1, IF acc = <<>> /\ j = 1 THEN as[1] ELSE acc \o <<PTok("p", CommaB, FALSE, 0)>> \o as[j])
Fit(mc, as) == LET k == Len(mc.ps) IN
    IF mc.va /\ Len(as) >= k THEN SubSeq(as, 1, k - 1) \o <<Joined(SubSeq(as, k, Len(as)), 1, <<>>)>>
    ELSE IF mc.va /\ Len(as) = k - 1 THEN Append(as, <<>>)
    ELSE IF k = 0 /\ as = <<<<>>>> THEN <<>> ELSE as
BadTok == PTok("bad", <<>>, FALSE, 0)

RECURSIVE Expand(_, _, _), Subst(_, _, _, _, _, _)
\* the tokens ts, with acc before them which is finished
Expand(ts, M, acc) ==
    IF ts = <<>> THEN acc
    ELSE LET t == ts[1] IN
         IF t.k # "id" THEN Expand(Tail(ts), M, Append(acc, t))
         ELSE IF t.b = WLine THEN Expand(Tail(ts), M, Append(acc, PTok("num", Dec(t.n), t.w, t.n)))
         ELSE IF t.b \in t.h \/ t.b \notin DOMAIN M THEN Expand(Tail(ts), M, Append(acc, t))
         ELSE LET mc == M[t.b] IN
              IF ~mc.fn
              THEN Expand(Spaced(Subst(mc, 1, <<>>, M, t, t.h \cup {t.b}), t.w) \o Tail(ts), M, acc)
              ELSE IF Len(ts) = 1 \/ ~IsP(ts[2], LParen) THEN Expand(Tail(ts), M, Append(acc, t))
              ELSE LET r == MacArgs(ts, 3, 0, <<>>, <<>>)
                       as == Fit(mc, r.as)
                   IN IF ~r.ok \/ Len(as) # Len(mc.ps) THEN Append(acc, BadTok)
                      ELSE Expand(Spaced(Subst(mc, 1, as, M, t, (t.h \cap r.h) \cup {t.b}), t.w)
                                  \o SubSeq(ts, r.i, Len(ts)), M, acc)
\* the body of m from token i, with the arguments as; t: the name that is replaced; h: what the result doesn't expand
Subst(mc, i, as, M, t, h) ==
    LET RECURSIVE Go(_, _)
        Go(j, acc) ==
            IF j > Len(mc.body) THEN acc
            ELSE LET b == mc.body[j]
                     nx == IF j < Len(mc.body) THEN mc.body[j + 1] ELSE BadTok
                     px == ParIx(mc, nx)
                     p == ParIx(mc, b)
                 IN IF mc.fn /\ IsP(b, Hash) /\ px # 0 THEN Go(j + 2, Append(acc, Stringize(as[px], b.w, t.n)))
                    ELSE IF IsP(b, HashHash) /\ j > 1
                    THEN IF px # 0 THEN Go(j + 2, Glue(acc, as[px]))
                         ELSE Go(j + 2, Glue(acc, <<nx>>))
                    ELSE IF p # 0 /\ IsP(nx, HashHash)
                    THEN IF as[p] # <<>> THEN Go(j + 1, acc \o Spaced(as[p], b.w))
                         ELSE \* nothing ## what follows
                              LET q == IF j + 2 <= Len(mc.body) THEN ParIx(mc, mc.body[j + 2]) ELSE 0 IN
                              IF q # 0 THEN Go(j + 3, acc \o Spaced(as[q], b.w))
                              ELSE Go(j + 3, acc \o Spaced(SubSeq(mc.body, j + 2, j + 2), b.w))
                    ELSE IF p # 0 THEN Go(j + 1, acc \o Spaced(Expand(as[p], M, <<>>), b.w))
                    ELSE Go(j + 1, Append(acc, [b EXCEPT !.n = t.n]))
        r == Go(i, <<>>)
    IN [k \in 1 .. Len(r) |-> [r[k] EXCEPT !.h = @ \cup h]]
HasBad(ts) == \E i \in 1 .. Len(ts) : ts[i].k = "bad"

(* ------------------------- conditional inclusion ------------------------ *)
WDefined == <<100,101,102,105,110,101,100>>
Num(b) == PTok("num", IF b THEN <<49>> ELSE <<48>>, TRUE, 0)
RECURSIVE Defined(_, _, _)
Defined(ts, M, acc) ==
    IF ts = <<>> THEN acc
    ELSE IF ts[1].k = "id" /\ ts[1].b = WDefined
    THEN IF Len(ts) >= 4 /\ IsP(ts[2], LParen) THEN Defined(SubSeq(ts, 5, Len(ts)), M, Append(acc, Num(ts[3].b \in DOMAIN M)))
         ELSE IF Len(ts) >= 2 THEN Defined(SubSeq(ts, 3, Len(ts)), M, Append(acc, Num(ts[2].b \in DOMAIN M)))
         ELSE <<BadTok>>
    ELSE Defined(Tail(ts), M, Append(acc, ts[1]))
\* without the suffix of an integer constant
RECURSIVE Digits(_)
Digits(b) == IF b[Len(b)] \in {108, 76, 117, 85} THEN Digits(SubSeq(b, 1, Len(b) - 1)) ELSE b
HasU(b) == \E i \in 1 .. Len(b) : b[i] \in {117, 85}
\* a token of the grammar; a number keeps whether it is unsigned
Gram(t) ==
    CASE t.k = "num" -> LET z == IntConst(Digits(t.b)) IN
                        Tok("num", z \o <<IF HasU(t.b) \/ ~ZLe(z, MaxOf["i64"]) THEN 1 ELSE 0>>, 0)
      [] t.k = "chr" -> Tok("chr", <<CharVal(Decode(SubSeq(t.b, 2, Len(t.b) - 1), 1)[1])>>, 0)
      [] t.k = "id" -> Tok("num", <<0, 0>>, 0)
      [] OTHER -> Tok(t.k, t.b, 0)
OpName == [x \in {<<43>>, <<45>>, <<42>>, <<47>>, <<37>>, <<38>>, <<124>>, <<94>>, <<126>>, <<33>>, <<60>>, <<62>>,
                  <<60,60>>, <<62,62>>, <<60,61>>, <<62,61>>, <<61,61>>, <<33,61>>} |->
    CASE x = <<43>> -> "+" [] x = <<45>> -> "-" [] x = <<42>> -> "*" [] x = <<47>> -> "/" [] x = <<37>> -> "%"
      [] x = <<38>> -> "&" [] x = <<124>> -> "|" [] x = <<94>> -> "^" [] x = <<126>> -> "~" [] x = <<33>> -> "!"
      [] x = <<60>> -> "<" [] x = <<62>> -> ">" [] x = <<60,60>> -> "<<" [] x = <<62,62>> -> ">>"
      [] x = <<60,61>> -> "<=" [] x = <<62,61>> -> ">=" [] x = <<61,61>> -> "==" [] x = <<33,61>> -> "!="]
\* all values are intmax_t or uintmax_t
Wide(v) == IF IsUB(v) THEN v ELSE IF v.t = U64 THEN v ELSE IV(I64, v.z)
B01(b) == IV(I64, IF b THEN Z1 ELSE Z0)
RECURSIVE EvalPost(_, _, _)
EvalPost(e, i, s) ==
    IF i > Len(e) THEN IF Len(s) = 1 THEN s[1] ELSE UB("expression")
    ELSE LET x == e[i]  n == Len(s)
             a == IF n >= 2 THEN s[n - 1] ELSE UB("expression")
             b == IF n >= 1 THEN s[n] ELSE UB("expression")
             put(k, v) == EvalPost(e, i + 1, Append(SubSeq(s, 1, n - k), v))
         IN CASE x.o = "num" -> put(0, IV(IF x.b[Len(x.b)] = 1 THEN U64 ELSE I64, SubSeq(x.b, 1, Len(x.b) - 1)))
              [] x.o = "chr" -> put(0, IV(I64, x.b))
              [] x.o = "bin" -> put(2, IF IsUB(a) \/ IsUB(b) THEN UB("operand") ELSE Wide(ArithOp(OpName[x.b], a, b)))
              [] x.o = "un" -> put(1, IF IsUB(b) THEN b ELSE Wide(UnOp(OpName[x.b], b)))
              [] x.o = "and" -> put(2, IF IsUB(a) THEN a ELSE IF ~Truth(a) THEN B01(FALSE) ELSE IF IsUB(b) THEN b ELSE B01(Truth(b)))
              [] x.o = "or" -> put(2, IF IsUB(a) THEN a ELSE IF Truth(a) THEN B01(TRUE) ELSE IF IsUB(b) THEN b ELSE B01(Truth(b)))
              [] x.o = "cond" ->
                    LET c == IF n >= 3 THEN s[n - 2] ELSE UB("expression")
                        v == IF IsUB(c) THEN c ELSE IF Truth(c) THEN a ELSE b
                        o == IF IsUB(c) THEN c ELSE IF Truth(c) THEN b ELSE a
                    IN put(3, IF IsUB(v) THEN v
                              ELSE IF ~IsUB(o) /\ o.t = U64 THEN Convert(v, U64) ELSE v)
              [] OTHER -> UB("expression")
CondValue(ts, M) ==
    LET x == Expand(Defined(ts, M, <<>>), M, <<>>)
        g == [i \in 1 .. Len(x) |-> Gram(x[i])]
        r == Cond(g, 1)
    IN IF HasBad(x) \/ x = <<>> THEN UB("tokens")
       ELSE IF r.i # Len(g) + 1 THEN UB("rest") ELSE EvalPost(r.e, 1, <<>>)

(* ---------------------------- the state machine ------------------------- *)
\* the files of the items and the supplied ones: << text, the line of each character >>
Own == TLCEval([k \in 1 .. Len(Items) |-> TLCEval([j \in 1 .. Len(Items[k]) |-> Unsplice(Items[k][j].text)])])
StdText == TLCEval([j \in 1 .. Len(Std) |-> Unsplice(Std[j].text)])
\* an open file: f: which one (the supplied ones are negative), i: the position in it,
\* c: its open conditionals [on: this group is read, taken: some group was, els: in #else]
Frame(f) == [f |-> f, i |-> 1, c |-> <<>>]
Top(s) == s.fs[Len(s.fs)]
Text(f) == IF f > 0 THEN Own[item][f] ELSE StdText[-f]
Active(s) == \A f \in 1 .. Len(s.fs) : \A j \in 1 .. Len(s.fs[f].c) : s.fs[f].c[j].on
STDC == <<95,95,83,84,68,67,95,95>>
STDCVERSION == <<95,95,83,84,68,67,95,86,69,82,83,73,79,78,95,95>>
Predefined == (STDC :> [fn |-> FALSE, ps |-> <<>>, va |-> FALSE, body |-> <<PTok("num", <<49>>, TRUE, 0)>>])
           @@ (STDCVERSION :> [fn |-> FALSE, ps |-> <<>>, va |-> FALSE, body |-> <<PTok("num", <<50,48,49,49,49,50,76>>, TRUE, 0)>>])
           @@ (WLine :> [fn |-> FALSE, ps |-> <<>>, va |-> FALSE, body |-> <<>>])

\* (directives, as bytes)
DIf == <<105,102>>  DIfdef == <<105,102,100,101,102>>  DIfndef == <<105,102,110,100,101,102>>
DElif == <<101,108,105,102>>  DElse == <<101,108,115,101>>  DEndif == <<101,110,100,105,102>>
DDefine == <<100,101,102,105,110,101>>  DUndef == <<117,110,100,101,102>>
DError == <<101,114,114,111,114>>  DPragma == <<112,114,97,103,109,97>>

RECURSIVE Params(_, _, _)
Params(ts, i, ps) ==            \* [ps, va, i]: i after the closing parenthesis
    IF i > Len(ts) THEN [ps |-> ps, va |-> FALSE, i |-> i]
    ELSE IF IsP(ts[i], RParen) /\ ps = <<>> THEN [ps |-> ps, va |-> FALSE, i |-> i + 1]
    ELSE IF IsP(ts[i], <<46,46,46>>) THEN [ps |-> Append(ps, VaArgs), va |-> TRUE, i |-> i + 2]
    ELSE IF i < Len(ts) /\ IsP(ts[i + 1], CommaB) THEN Params(ts, i + 2, Append(ps, ts[i].b))
    ELSE [ps |-> Append(ps, ts[i].b), va |-> FALSE, i |-> i + 2]
MacroOf(ts) ==                  \* of # define name ...
    IF Len(ts) >= 4 /\ IsP(ts[4], LParen) /\ ~ts[4].w
    THEN LET p == Params(ts, 5, <<>>) IN
         [fn |-> TRUE, ps |-> p.ps, va |-> p.va, body |-> SubSeq(ts, p.i, Len(ts))]
    ELSE [fn |-> FALSE, ps |-> <<>>, va |-> FALSE, body |-> SubSeq(ts, 4, Len(ts))]
\* 0 if there isn't such a file
FileNamed(b, quoted) ==
    LET own == {k \in 1 .. Len(Items[item]) : Items[item][k].name = b}
        std == {k \in 1 .. Len(Std) : Std[k].name = b}
    IN IF quoted /\ own # {} THEN CHOOSE k \in own : TRUE
       ELSE IF std # {} THEN -(CHOOSE k \in std : TRUE) ELSE 0
RECURSIVE Written(_, _, _)
Written(ts, i, acc) == IF i > Len(ts) THEN acc ELSE Written(ts, i + 1, acc \o <<32>> \o ts[i].b)

Fail(s, why) == [s EXCEPT !.st = why]
\* the text that has been read is expanded
Flush(s) == LET x == Expand(s.pend, s.mac, <<>>) IN
            IF HasBad(x) THEN Fail(s, "macro call")
            ELSE [s EXCEPT !.pend = <<>>, !.out = @ \o Written(x, 1, <<>>) \o <<10>>]
\* the innermost file goes on at i with the conditionals c
Cont(s, i, c) == [s EXCEPT !.fs[Len(s.fs)].i = i, !.fs[Len(s.fs)].c = c]

Directive(s, ts, i) ==
    LET c == Top(s).c
        n == Len(c)
        d == IF Len(ts) = 1 THEN <<>> ELSE ts[2].b
        arg == SubSeq(ts, 3, Len(ts))
        act == Active(s)
        open(b) == Cont(s, i, Append(c, [on |-> b, taken |-> b \/ ~act, els |-> FALSE]))
    IN CASE d \in {DIfdef, DIfndef} ->
                IF ~act THEN open(FALSE)
                ELSE IF arg = <<>> THEN Fail(s, "name") ELSE open((arg[1].b \in DOMAIN s.mac) = (d = DIfdef))
         [] d = DIf ->
                IF ~act THEN open(FALSE)
                ELSE LET v == CondValue(arg, s.mac) IN
                     IF IsUB(v) THEN Fail(s, "condition") ELSE open(Truth(v))
         [] d \in {DElif, DElse, DEndif} /\ n = 0 -> Fail(s, "no #if")
         [] d \in {DElif, DElse} /\ c[n].els -> Fail(s, "after #else")
         [] d = DElif ->
                IF c[n].taken THEN Cont(s, i, [c EXCEPT ![n].on = FALSE])
                ELSE LET v == CondValue(arg, s.mac) IN
                     IF IsUB(v) THEN Fail(s, "condition")
                     ELSE Cont(s, i, [c EXCEPT ![n].on = Truth(v), ![n].taken = Truth(v)])
         [] d = DElse -> Cont(s, i, [c EXCEPT ![n].on = ~c[n].taken, ![n].taken = TRUE, ![n].els = TRUE])
         [] d = DEndif -> Cont(s, i, SubSeq(c, 1, n - 1))
         [] ~act \/ d = <<>> \/ d = DPragma -> Cont(s, i, c)
         [] d = DDefine ->
                IF arg = <<>> \/ arg[1].k # "id" \/ arg[1].b = WDefined THEN Fail(s, "#define")
                ELSE [Cont(s, i, c) EXCEPT !.mac = (arg[1].b :> MacroOf(ts)) @@ @]
         [] d = DUndef ->
                IF arg = <<>> THEN Fail(s, "#undef")
                ELSE [Cont(s, i, c) EXCEPT !.mac = [x \in DOMAIN @ \ {arg[1].b} |-> @[x]]]
         [] d = WInclude ->
                LET a == IF arg # <<>> /\ arg[1].k = "id" THEN Expand(arg, s.mac, <<>>) ELSE arg
                    q == a # <<>> /\ a[1].k = "str"
                    f == FileNamed(IF q THEN SubSeq(a[1].b, 2, Len(a[1].b) - 1) ELSE a[1].b, q)
                IN IF a = <<>> \/ a[1].k \notin {"str", "hdr"} THEN Fail(s, "#include")
                   ELSE IF f = 0 THEN Fail(s, "no such file")
                   ELSE IF Len(s.fs) > 100 THEN Fail(s, "depth")
                   ELSE [Cont(s, i, c) EXCEPT !.fs = Append(@, Frame(f))]
         [] d = DError -> Fail(s, "#error")
         [] OTHER -> Fail(s, "directive")

\* one logical line
Located(u, ts) == [k \in 1 .. Len(ts) |-> [ts[k] EXCEPT !.n = LineAt(u, @)]]
Read(s) ==
    LET p == Top(s)
        u == Text(p.f)
    IN IF p.i > Len(u[1])
       THEN IF p.c # <<>> THEN Fail(s, "no #endif")
            ELSE IF Len(s.fs) > 1 THEN [s EXCEPT !.fs = SubSeq(@, 1, Len(@) - 1)]
            ELSE LET f == Flush(s) IN IF f.st = "run" THEN [f EXCEPT !.st = "ok"] ELSE f
       ELSE LET l == Line(u[1], p.i, FALSE, <<>>) IN
            IF l.ts # <<>> /\ IsP(l.ts[1], Hash)
            THEN LET f == IF s.pend = <<>> THEN s ELSE Flush(s) IN
                 IF f.st = "run" THEN Directive(f, l.ts, l.i) ELSE f
            ELSE LET x == Cont(s, l.i, p.c) IN
                 IF l.ts = <<>> \/ ~Active(s) THEN x ELSE [x EXCEPT !.pend = @ \o Located(u, Spaced(l.ts, TRUE))]
RECURSIVE Reads(_, _)
Reads(s, n) == IF n = 0 \/ s.st # "run" THEN s ELSE Reads(Read(s), n - 1)
Batch == 25

Init == /\ item \in 1 .. Len(Items)
        /\ m = [fs |-> <<Frame(1)>>, mac |-> Predefined, pend |-> <<>>, out |-> <<>>, st |-> "run"]
Next == /\ m.st = "run"
        /\ m' = Reads(m, Batch)
        /\ IF m'.st = "run" THEN TRUE ELSE PrintT(<<"CPP", item, m'.st, IF m'.st = "ok" THEN m'.out ELSE <<>>>>)
        /\ UNCHANGED item
Spec == Init /\ [][Next]_vars
\* a group is read only when it is the one that was taken
Sane == \A f \in 1 .. Len(m.fs) : \A j \in 1 .. Len(m.fs[f].c) : m.fs[f].c[j].on => m.fs[f].c[j].taken
=============================================================================
