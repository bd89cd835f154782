-------------------------------- MODULE Tokens --------------------------------
(***************************************************************************)
(* Characters, tokens, the values of constants, and the grammar of         *)
(* expressions (which gives their postfix form): used by Lex and Cpp.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, ZInt

(* ------------------------------ characters ------------------------------ *)
SPLICE == <<92, 10>>
IsSpace(c) == c = 32 \/ (9 <= c /\ c <= 13)
IsDigit(c) == 48 <= c /\ c <= 57
IsLetter(c) == (65 <= c /\ c <= 90) \/ (97 <= c /\ c <= 122) \/ c = 95
HexVal(c) == IF IsDigit(c) THEN c - 48
             ELSE IF 97 <= c /\ c <= 102 THEN c - 87
             ELSE IF 65 <= c /\ c <= 70 THEN c - 55 ELSE 99
At(s, i) == IF 1 <= i /\ i <= Len(s) THEN s[i] ELSE -1
\* backslash and newline go, wherever they are
RECURSIVE Spliced(_, _)
Spliced(s, i) == IF i > Len(s) THEN <<>>
                 ELSE IF s[i] = 92 /\ At(s, i + 1) = 10 THEN Spliced(s, i + 2)
                 ELSE <<s[i]>> \o Spliced(s, i + 1)

(* -------------------------------- tokens -------------------------------- *)
RECURSIVE SkipLine(_, _)
SkipLine(s, i) == IF i > Len(s) \/ At(s, i) = 10 THEN i ELSE SkipLine(s, i + 1)
RECURSIVE SkipBlock(_, _)
SkipBlock(s, i) == IF i > Len(s) THEN i
                   ELSE IF s[i] = 42 /\ At(s, i + 1) = 47 THEN i + 2 ELSE SkipBlock(s, i + 1)
RECURSIVE Skip(_, _)
Skip(s, i) == IF i > Len(s) THEN i
              ELSE IF IsSpace(s[i]) THEN Skip(s, i + 1)
              ELSE IF s[i] = 47 /\ At(s, i + 1) = 47 THEN Skip(s, SkipLine(s, i))
              ELSE IF s[i] = 47 /\ At(s, i + 1) = 42 THEN Skip(s, SkipBlock(s, i + 2))
              ELSE i
RECURSIVE EndWord(_, _)
EndWord(s, i) == IF IsLetter(At(s, i)) \/ IsDigit(At(s, i)) THEN EndWord(s, i + 1) ELSE i
RECURSIVE EndNum(_, _)
EndNum(s, i) == LET c == At(s, i) IN
    IF c \in {43, 45} /\ At(s, i - 1) \in {69, 101}
    THEN EndNum(s, i + 1)
    ELSE IF IsLetter(c) \/ IsDigit(c) \/ c = 46 THEN EndNum(s, i + 1) ELSE i
RECURSIVE EndQuote(_, _, _)
EndQuote(s, i, q) == IF At(s, i) = q \/ i > Len(s) THEN i
                     ELSE EndQuote(s, i + (IF s[i] = 92 THEN 2 ELSE 1), q)

\* the punctuators of three, two and one characters
P3 == {<<60,60,61>>, <<62,62,61>>, <<46,46,46>>}
P2 == {<<43,61>>, <<45,61>>, <<42,61>>, <<47,61>>, <<37,61>>, <<38,61>>, <<94,61>>, <<124,61>>, <<45,62>>, <<43,43>>,
       <<45,45>>, <<60,60>>, <<62,62>>, <<60,61>>, <<62,61>>, <<61,61>>, <<33,61>>, <<38,38>>, <<124,124>>}
PunctLen(s, i) == IF i + 2 <= Len(s) /\ SubSeq(s, i, i + 2) \in P3 THEN 3
                  ELSE IF i + 1 <= Len(s) /\ SubSeq(s, i, i + 1) \in P2 THEN 2 ELSE 1

(* ------------------------- the values of constants ---------------------- *)
RECURSIVE IntVal(_, _, _, _)
IntVal(s, i, base, z) == IF i > Len(s) THEN z
                         ELSE IntVal(s, i + 1, base, ZAdd(ZMul(z, ZOf(base)), ZOf(HexVal(s[i]))))
IntConst(s) == IF Len(s) > 1 /\ s[1] = 48 /\ s[2] \in {120, 88} THEN IntVal(s, 3, 16, Z0)
               ELSE IF s[1] = 48 THEN IntVal(s, 1, 8, Z0)
               ELSE IntVal(s, 1, 10, Z0)
IsHex(s) == Len(s) > 1 /\ s[1] = 48 /\ s[2] \in {120, 88}
IsFloat(s) == ~IsHex(s) /\ \E i \in 1 .. Len(s) : s[i] \in {46, 69, 101}
\* mantissa digits, number of them after the point, exponent
RECURSIVE FloatVal(_, _, _, _, _)
RECURSIVE ExpVal(_, _, _, _)
ExpVal(s, i, n, sg) == IF i > Len(s) THEN sg * n
                       ELSE IF s[i] = 45 THEN ExpVal(s, i + 1, n, -1)
                       ELSE IF s[i] = 43 THEN ExpVal(s, i + 1, n, sg)
                       ELSE ExpVal(s, i + 1, n * 10 + s[i] - 48, sg)
FloatVal(s, i, z, frac, seen) ==
    IF i > Len(s) THEN <<z, frac>>
    ELSE IF s[i] = 46 THEN FloatVal(s, i + 1, z, frac, TRUE)
    ELSE IF s[i] \in {69, 101} THEN <<z, frac - ExpVal(s, i + 1, 0, 1)>>
    ELSE FloatVal(s, i + 1, ZAdd(ZMul(z, ZOf(10)), ZOf(s[i] - 48)), IF seen THEN frac + 1 ELSE frac, seen)
RECURSIVE Scale(_, _)
Scale(z, n) == IF n >= 0 THEN z \o <<n>> ELSE Scale(ZMul(z, ZOf(10)), n + 1)
FloatConst(s) == LET r == FloatVal(s, 1, Z0, 0, FALSE) IN Scale(r[1], r[2])

IsOct(c) == 48 <= c /\ c <= 55
Simple(c) == CASE c = 110 -> 10 [] c = 116 -> 9 [] c = 114 -> 13 [] c = 97 -> 7 [] c = 98 -> 8
               [] c = 118 -> 11 [] c = 102 -> 12 [] OTHER -> c
RECURSIVE HexEnd(_, _)
HexEnd(s, i) == IF HexVal(At(s, i)) < 16 THEN HexEnd(s, i + 1) ELSE i
OctEnd(s, i) == IF ~IsOct(At(s, i + 1)) THEN i + 1 ELSE IF ~IsOct(At(s, i + 2)) THEN i + 2 ELSE i + 3
RECURSIVE Decode(_, _)
Decode(s, i) ==                  \* the bytes of what is between the quotes
    IF i > Len(s) THEN <<>>
    ELSE IF s[i] # 92 THEN <<s[i]>> \o Decode(s, i + 1)
    ELSE IF At(s, i + 1) = 120
         THEN LET e == HexEnd(s, i + 2) IN <<IntVal(SubSeq(s, i + 2, e - 1), 1, 16, Z0)[1] % 256>> \o Decode(s, e)
    ELSE IF IsOct(At(s, i + 1))
         THEN LET e == OctEnd(s, i + 1) IN <<IntVal(SubSeq(s, i + 1, e - 1), 1, 8, Z0)[1] % 256>> \o Decode(s, e)
    ELSE <<Simple(s[i + 1])>> \o Decode(s, i + 2)
CharVal(b) == IF b > 127 THEN b - 256 ELSE b

Tok(k, b, n) == [k |-> k, b |-> b, n |-> n]       \* n: the position after it
NextTok(s, i) ==
    LET c == s[i] IN
    IF IsLetter(c) THEN LET e == EndWord(s, i) IN Tok("word", SubSeq(s, i, e - 1), e)
    ELSE IF IsDigit(c) \/ (c = 46 /\ IsDigit(At(s, i + 1)))
    THEN LET e == EndNum(s, i)  t == SubSeq(s, i, e - 1) IN
         IF IsFloat(t) THEN Tok("flt", FloatConst(t), e) ELSE Tok("num", IntConst(t) \o <<IF t[1] = 48 THEN 0 ELSE 1>>, e)
    ELSE IF c = 39 THEN LET e == EndQuote(s, i + 1, 39) IN
                        Tok("chr", <<CharVal(Decode(SubSeq(s, i + 1, e - 1), 1)[1])>>, e + 1)
    ELSE IF c = 34 THEN LET e == EndQuote(s, i + 1, 34) IN Tok("str", Decode(SubSeq(s, i + 1, e - 1), 1), e + 1)
    ELSE LET n == PunctLen(s, i) IN Tok("p", SubSeq(s, i, i + n - 1), i + n)

(* ------------------------------- grammar -------------------------------- *)
End == Tok("end", <<>>, 0)
T(ts, i) == IF i <= Len(ts) THEN ts[i] ELSE End
Is(ts, i, b) == T(ts, i).k = "p" /\ T(ts, i).b = b
N(o, b) == <<[o |-> o, b |-> b]>>
R(e, i) == [e |-> e, i |-> i]
LP == <<40>>  RP == <<41>>
WSizeof == <<115,105,122,101,111,102>>
WChar == <<99,104,97,114>>  WShort == <<115,104,111,114,116>>  WInt == <<105,110,116>>  WLong == <<108,111,110,103>>
WUnsigned == <<117,110,115,105,103,110,101,100>>  WSigned == <<115,105,103,110,101,100>>
WFloat == <<102,108,111,97,116>>  WDouble == <<100,111,117,98,108,101>>  WVoid == <<118,111,105,100>>
TypeWords == {WChar, WShort, WInt, WLong, WUnsigned, WSigned, WFloat, WDouble, WVoid}
IsTypeWord(t) == t.k = "word" /\ t.b \in TypeWords
\* 0 void, 1 .. 8 char unsigned-char short .. unsigned-long, 9 float, 10 double
TypeCode(ws) ==
    LET u == IF WUnsigned \in ws THEN 1 ELSE 0 IN
    IF WVoid \in ws THEN 0 ELSE IF WFloat \in ws THEN 9 ELSE IF WDouble \in ws THEN 10
    ELSE IF WChar \in ws THEN 1 + u ELSE IF WShort \in ws THEN 3 + u
    ELSE IF WLong \in ws THEN 7 + u ELSE 5 + u
RECURSIVE Stars(_, _, _)
Stars(ts, i, n) == IF Is(ts, i, <<42>>) THEN Stars(ts, i + 1, n + 1) ELSE <<n, i>>
RECURSIVE TypeName(_, _, _)
TypeName(ts, i, ws) ==           \* [e |-> << code, stars >>, i |-> after the closing parenthesis]
    IF IsTypeWord(T(ts, i)) THEN TypeName(ts, i + 1, ws \cup {ts[i].b})
    ELSE LET s == Stars(ts, i, 0) IN R(<<TypeCode(ws), s[1]>>, s[2] + 1)

\* the binary operators, by precedence
OpPrec(t) ==
    IF t.k # "p" THEN 0
    ELSE LET b == t.b IN
    CASE b \in {<<42>>, <<47>>, <<37>>} -> 10
      [] b \in {<<43>>, <<45>>} -> 9
      [] b \in {<<60,60>>, <<62,62>>} -> 8
      [] b \in {<<60>>, <<62>>, <<60,61>>, <<62,61>>} -> 7
      [] b \in {<<61,61>>, <<33,61>>} -> 6
      [] b = <<38>> -> 5 [] b = <<94>> -> 4 [] b = <<124>> -> 3
      [] b = <<38,38>> -> 2 [] b = <<124,124>> -> 1
      [] OTHER -> 0
BinNode(b) == IF b = <<38,38>> THEN N("and", <<>>) ELSE IF b = <<124,124>> THEN N("or", <<>>) ELSE N("bin", b)
AsgOps == {<<61>>, <<43,61>>, <<45,61>>, <<42,61>>, <<47,61>>, <<37,61>>, <<38,61>>, <<94,61>>, <<124,61>>, <<60,60,61>>, <<62,62,61>>}

RECURSIVE Comma(_, _), CommaRest(_, _), Asg(_, _), Cond(_, _), Bin(_, _, _), BinRest(_, _, _), Unary(_, _), Postfix(_, _), Args(_, _, _, _)
Comma(ts, i) == CommaRest(ts, Asg(ts, i))
CommaRest(ts, l) == IF Is(ts, l.i, <<44>>)
                    THEN LET r == Asg(ts, l.i + 1) IN CommaRest(ts, R(l.e \o r.e \o N("comma", <<>>), r.i))
                    ELSE l
Asg(ts, i) == LET l == Cond(ts, i) IN
    IF T(ts, l.i).k = "p" /\ T(ts, l.i).b \in AsgOps
    THEN LET b == ts[l.i].b
             r == Asg(ts, l.i + 1)
         IN R(l.e \o r.e \o N("asg", IF b = <<61>> THEN b ELSE SubSeq(b, 1, Len(b) - 1)), r.i)
    ELSE l
Cond(ts, i) == LET c == Bin(ts, i, 1) IN
    IF Is(ts, c.i, <<63>>)
    THEN LET a == Comma(ts, c.i + 1)  b == Cond(ts, a.i + 1) IN R(c.e \o a.e \o b.e \o N("cond", <<>>), b.i)
    ELSE c
\* operators of precedence p and above; all of them group from the left
Bin(ts, i, p) == BinRest(ts, Unary(ts, i), p)
BinRest(ts, l, p) ==
    LET q == OpPrec(T(ts, l.i)) IN
    IF q = 0 \/ q < p THEN l
    ELSE LET r == Bin(ts, l.i + 1, q + 1) IN BinRest(ts, R(l.e \o r.e \o BinNode(ts[l.i].b), r.i), p)
Unary(ts, i) ==
    LET t == T(ts, i) IN
    IF t.k = "p" /\ t.b \in {<<43,43>>, <<45,45>>} THEN LET r == Unary(ts, i + 1) IN R(r.e \o N("inc", <<t.b[1], 1>>), r.i)
    ELSE IF t.k = "p" /\ t.b = <<38>> THEN LET r == Unary(ts, i + 1) IN R(r.e \o N("addr", <<>>), r.i)
    ELSE IF t.k = "p" /\ t.b = <<42>> THEN LET r == Unary(ts, i + 1) IN R(r.e \o N("deref", <<>>), r.i)
    ELSE IF t.k = "p" /\ t.b \in {<<43>>, <<45>>, <<126>>, <<33>>} THEN LET r == Unary(ts, i + 1) IN R(r.e \o N("un", t.b), r.i)
    ELSE IF t.k = "word" /\ t.b = WSizeof
    THEN IF Is(ts, i + 1, LP) /\ IsTypeWord(T(ts, i + 2))
         THEN LET n == TypeName(ts, i + 2, {}) IN R(N("szt", n.e), n.i)
         ELSE LET r == Unary(ts, i + 1) IN R(r.e \o N("sze", <<>>), r.i)
    ELSE IF Is(ts, i, LP) /\ IsTypeWord(T(ts, i + 1))
    THEN LET n == TypeName(ts, i + 1, {})  r == Unary(ts, n.i) IN R(r.e \o N("cast", n.e), r.i)
    ELSE IF Is(ts, i, LP) THEN LET r == Comma(ts, i + 1) IN Postfix(ts, R(r.e, r.i + 1))
    ELSE IF t.k = "word" /\ Is(ts, i + 1, LP)
    THEN IF Is(ts, i + 2, RP) THEN Postfix(ts, R(N("call", t.b \o <<0>>), i + 3))
         ELSE LET a == Args(ts, i + 2, <<>>, 0) IN Postfix(ts, R(a.e \o N("call", t.b \o <<-a.n>>), a.i))
    ELSE Postfix(ts, R(N(IF t.k = "word" THEN "id" ELSE t.k, t.b), i + 1))
Args(ts, i, e, n) ==
    LET a == Asg(ts, i) IN
    IF Is(ts, a.i, <<44>>) THEN Args(ts, a.i + 1, e \o a.e, n + 1)
    ELSE [e |-> e \o a.e, i |-> a.i + 1, n |-> n + 1]
Postfix(ts, l) ==
    LET t == T(ts, l.i) IN
    IF t.k # "p" THEN l
    ELSE IF t.b = <<91>> THEN LET r == Comma(ts, l.i + 1) IN Postfix(ts, R(l.e \o r.e \o N("idx", <<>>), r.i + 1))
    ELSE IF t.b = <<46>> THEN Postfix(ts, R(l.e \o N("mem", T(ts, l.i + 1).b), l.i + 2))
    ELSE IF t.b = <<45,62>> THEN Postfix(ts, R(l.e \o N("arrow", T(ts, l.i + 1).b), l.i + 2))
    ELSE IF t.b \in {<<43,43>>, <<45,45>>} THEN Postfix(ts, R(l.e \o N("inc", <<t.b[1], 0>>), l.i + 1))
    ELSE l
=============================================================================
