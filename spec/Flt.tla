--------------------------------- MODULE Flt ---------------------------------
(***************************************************************************)
(* Binary floating point (IEEE 754, round to nearest, ties to even), with  *)
(* exact arithmetic on magnitudes (sequences of base 2^15 digits, ZInt).   *)
(*    <<"r", s, M, e>>   the number s * M * 2^e, where M > 0               *)
(*    <<"z", s>>         a zero           <<"i", s>>   an infinity         *)
(*    <<"n">>            not a number                                      *)
(* A format is the number of bytes of its encoding, 4 or 8.                *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE ZInt

Prec(f) == IF f = 4 THEN 24 ELSE 53
EMin(f) == IF f = 4 THEN -149 ELSE -1074          \* exponent of the smallest magnitude
EMax(f) == IF f = 4 THEN 128 ELSE 1024

LOCAL Zeros(k) == [i \in 1 .. k |-> 0]
MagShl(m, k) == IF m = <<>> THEN m
                ELSE Zeros(k \div 15) \o MagMulSmall(m, 2 ^ (k % 15), 0)
\* << m \div 2^k, whether the remainder is 0, and its order relative to half of 2^k >>
LOCAL MagShr(m, k) ==
    IF k = 0 THEN <<m, TRUE, -1>>
    ELSE LET w == k \div 15
             hi == IF w >= Len(m) THEN <<>> ELSE SubSeq(m, w + 1, Len(m))
             q == MagDivSmall(hi, 2 ^ (k % 15))[1]
             r == Trim(MagSub(m, MagShl(q, k)))
         IN <<q, r = <<>>, IF r = <<>> THEN -1 ELSE MagCmp(MagShl(r, 1), MagShl(<<1>>, k))>>
RECURSIVE BitsOf(_)
BitsOf(n) == IF n = 0 THEN 0 ELSE 1 + BitsOf(n \div 2)
MagBits(m) == IF m = <<>> THEN 0 ELSE 15 * (Len(m) - 1) + BitsOf(m[Len(m)])
LOCAL MaxI(a, b) == IF a > b THEN a ELSE b

\* s * m * 2^e rounded to format f
FRound(f, s, m, e) ==
    IF m = <<>> THEN <<"z", s>>
    ELSE LET L == MagBits(m)
             k == MaxI(MaxI(L - Prec(f), EMin(f) - e), 0)
             x == MagShr(m, k)
             up == x[3] > 0 \/ (x[3] = 0 /\ ~x[2] /\ x[1] # <<>> /\ x[1][1] % 2 = 1)
             m1 == IF up THEN MagAdd(x[1], <<1>>) ELSE x[1]
         IN IF m1 = <<>> THEN <<"z", s>>
            ELSE IF MagBits(m1) + e + k > EMax(f) THEN <<"i", s>>
            ELSE <<"r", s, m1, e + k>>

FNeg(a) == IF a[1] = "n" THEN a ELSE [a EXCEPT ![2] = -a[2]]
FIsZero(a) == a[1] = "z"

LOCAL Align(a, e) == MagShl(a[3], a[4] - e)
FAdd(f, a, b) ==
    CASE a[1] = "n" \/ b[1] = "n" -> <<"n">>
      [] a[1] = "i" -> IF b[1] = "i" /\ b[2] # a[2] THEN <<"n">> ELSE a
      [] b[1] = "i" -> b
      [] a[1] = "z" -> IF b[1] = "z" THEN (IF a[2] = b[2] THEN a ELSE <<"z", 1>>) ELSE b
      [] b[1] = "z" -> a
      [] OTHER ->
          LET e == IF a[4] < b[4] THEN a[4] ELSE b[4]
              ma == Align(a, e)  mb == Align(b, e)
          IN IF a[2] = b[2] THEN FRound(f, a[2], MagAdd(ma, mb), e)
             ELSE LET c == MagCmp(ma, mb)
                  IN IF c = 0 THEN <<"z", 1>>
                     ELSE IF c > 0 THEN FRound(f, a[2], Trim(MagSub(ma, mb)), e)
                     ELSE FRound(f, b[2], Trim(MagSub(mb, ma)), e)
FSub(f, a, b) == FAdd(f, a, FNeg(b))
FMul(f, a, b) ==
    IF a[1] = "n" \/ b[1] = "n" THEN <<"n">>
    ELSE LET s == a[2] * b[2] IN
         CASE a[1] = "i" -> IF b[1] = "z" THEN <<"n">> ELSE <<"i", s>>
           [] b[1] = "i" -> IF a[1] = "z" THEN <<"n">> ELSE <<"i", s>>
           [] a[1] = "z" \/ b[1] = "z" -> <<"z", s>>
           [] OTHER -> FRound(f, s, MagMul(a[3], b[3]), a[4] + b[4])
\* s * (n / d) * 2^e rounded to format f
FQuot(f, s, n, d, e) ==
    LET k == MaxI(Prec(f) + 3 + MagBits(d) - MagBits(n), 0)
        q == MagDiv(MagShl(n, k), d)
        \* one more bit tells whether there is a remainder
        m == IF q[2] = <<>> THEN MagShl(q[1], 1) ELSE MagMulSmall(q[1], 2, 1)
    IN FRound(f, s, m, e - k - 1)
FDiv(f, a, b) ==
    IF a[1] = "n" \/ b[1] = "n" THEN <<"n">>
    ELSE LET s == a[2] * b[2] IN
         CASE a[1] = "i" -> IF b[1] = "i" THEN <<"n">> ELSE <<"i", s>>
           [] b[1] = "i" -> <<"z", s>>
           [] b[1] = "z" -> IF a[1] = "z" THEN <<"n">> ELSE <<"i", s>>
           [] a[1] = "z" -> <<"z", s>>
           [] OTHER -> FQuot(f, s, a[3], b[3], a[4] - b[4])
\* -1, 0, 1; 2 if unordered
LOCAL SgnF(a) == IF a[1] = "z" THEN 0 ELSE a[2]
FCmp(a, b) ==
    IF a[1] = "n" \/ b[1] = "n" THEN 2
    ELSE LET sa == SgnF(a)  sb == SgnF(b) IN
         CASE sa < sb -> -1
           [] sa > sb -> 1
           [] sa = 0 -> 0
           [] a[1] = "i" -> IF b[1] = "i" THEN 0 ELSE sa
           [] b[1] = "i" -> -sa
           [] OTHER -> LET e == IF a[4] < b[4] THEN a[4] ELSE b[4]
                       IN sa * MagCmp(Align(a, e), Align(b, e))
FConv(f, a) == IF a[1] = "r" THEN FRound(f, a[2], a[3], a[4]) ELSE a
FOfZ(f, z) == IF Sgn(z) = 0 THEN <<"z", 1>> ELSE FRound(f, Sgn(z), Mag(z), 0)
\* the integer part of a number or zero
FTrunc(a) == IF a[1] = "z" THEN <<0>>
             ELSE FromMag(a[2], IF a[4] >= 0 THEN MagShl(a[3], a[4])
                                ELSE MagShr(a[3], -a[4])[1])

RECURSIVE MagPow10(_)
MagPow10(k) == IF k = 0 THEN <<1>> ELSE MagMulSmall(MagPow10(k - 1), 10, 0)
\* the value of a decimal constant: the integer z without its last d digits' point
FOfDec(f, z, d) == IF Sgn(z) = 0 THEN <<"z", 1>>
                   ELSE FQuot(f, 1, Mag(z), MagPow10(d), 0)

(* --------------------------- IEEE encoding ------------------------------ *)
LOCAL FracBits(f) == Prec(f) - 1
LOCAL EncodeMag(f, a) ==                          \* without the sign bit
    CASE a[1] = "z" -> <<>>
      [] a[1] = "i" -> MagShl(Mag(ZOf(IF f = 4 THEN 255 ELSE 2047)), FracBits(f))
      [] a[1] = "n" -> MagShl(MagAdd(MagShl(Mag(ZOf(IF f = 4 THEN 255 ELSE 2047)), 1), <<1>>), FracBits(f) - 1)
      [] OTHER ->
          LET L == MagBits(a[3])
              e1 == a[4] - EMin(f)                \* exponent in units of the smallest magnitude
              \* normalise the significand to Prec bits, or to exponent EMin
              sh == IF Prec(f) - L < e1 THEN Prec(f) - L ELSE e1
              m == IF sh >= 0 THEN MagShl(a[3], sh) ELSE MagShr(a[3], -sh)[1]
              be == IF MagBits(m) = Prec(f) THEN e1 - sh + 1 ELSE 0
          IN Trim(IF be = 0 THEN m
                  ELSE MagAdd(MagShl(Mag(ZOf(be - 1)), FracBits(f)), m))
FBytes(f, a) ==
    LET m == EncodeMag(f, a)
        b == ZBytes(FromMag(1, m), f)
    IN IF a[1] # "n" /\ a[2] < 0 THEN [b EXCEPT ![f] = @ + 128] ELSE b
FFromBytes(f, b0) ==
    LET s == IF b0[f] >= 128 THEN -1 ELSE 1
        b == [b0 EXCEPT ![f] = @ % 128]
        m == Trim(Mag(ZFromBytes(b, FALSE)))
        x == MagShr(m, FracBits(f))
        be == IF x[1] = <<>> THEN 0 ELSE FromMag(1, x[1])[1]
        fr == Trim(MagSub(m, MagShl(x[1], FracBits(f))))
    IN CASE be = (IF f = 4 THEN 255 ELSE 2047) -> IF fr = <<>> THEN <<"i", s>> ELSE <<"n">>
         [] be = 0 -> IF fr = <<>> THEN <<"z", s>> ELSE <<"r", s, fr, EMin(f)>>
         [] OTHER -> <<"r", s, MagAdd(fr, MagShl(<<1>>, FracBits(f))), EMin(f) + be - 1>>

(* -------------------------- printf's %f --------------------------------- *)
RECURSIVE PadLeft(_, _)
PadLeft(s, n) == IF Len(s) >= n THEN s ELSE PadLeft(<<48>> \o s, n)
FFormat(a) ==
    LET sign == IF a[1] # "n" /\ a[2] < 0 THEN <<45>> ELSE <<>>
    IN CASE a[1] = "n" -> <<110, 97, 110>>
         [] a[1] = "i" -> sign \o <<105, 110, 102>>
         [] OTHER ->
             LET m == IF a[1] = "z" THEN <<>> ELSE MagMul(a[3], MagPow10(6))
                 x == IF a[1] = "z" THEN <<<<>>, TRUE, -1>>
                      ELSE IF a[4] >= 0 THEN <<MagShl(m, a[4]), TRUE, -1>> ELSE MagShr(m, -a[4])
                 up == x[3] > 0 \/ (x[3] = 0 /\ ~x[2] /\ x[1] # <<>> /\ x[1][1] % 2 = 1)
                 r == IF up THEN MagAdd(x[1], <<1>>) ELSE x[1]
                 d == PadLeft(ZDec(FromMag(1, r)), 7)
             IN sign \o SubSeq(d, 1, Len(d) - 6) \o <<46>> \o SubSeq(d, Len(d) - 5, Len(d))
=============================================================================
