-------------------------------- MODULE ZInt --------------------------------
(***************************************************************************)
(* Mathematical integers of any size.  TLC's own integers have 32 bits, so *)
(* an integer is represented canonically by                                *)
(*    <<n>>                      if |n| < 2^30                             *)
(*    <<s, l1, l2, ..., lk>>     otherwise: s is 1 or -1, and l1 .. lk are *)
(*                               the digits of |n| in base 2^15, the least *)
(*                               significant first, lk /= 0 (so k >= 3)    *)
(* Two integers are equal iff their representations are.                   *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE Bitwise

LOCAL BB == 32768
LOCAL P30 == 1073741824
LOCAL AbsI(n) == IF n < 0 THEN -n ELSE n

ZSmall(z) == Len(z) = 1
ZOf(n) == <<n>>                                  \* for |n| < 2^30
Z0 == <<0>>
Z1 == <<1>>

(* ------------------------ magnitudes: sequences of digits -------------- *)
RECURSIVE Trim(_)
LOCAL TrimStep(s) == Trim(SubSeq(s, 1, Len(s) - 1))
Trim(s) == IF s # <<>> /\ s[Len(s)] = 0 THEN TrimStep(s) ELSE s

Mag(z) == IF ZSmall(z)
          THEN LET a == AbsI(z[1]) IN
               IF a = 0 THEN <<>>
               ELSE IF a < BB THEN <<a>> ELSE <<a % BB, a \div BB>>
          ELSE SubSeq(z, 2, Len(z))
Sgn(z) == IF z[1] < 0 THEN -1 ELSE IF ZSmall(z) /\ z[1] = 0 THEN 0 ELSE 1

FromMag(s, m0) == LET m == Trim(m0) IN
    CASE Len(m) = 0 -> <<0>>
      [] Len(m) = 1 -> <<s * m[1]>>
      [] Len(m) = 2 -> <<s * (m[1] + BB * m[2])>>
      [] OTHER -> <<s>> \o m

LOCAL D(m, i) == IF i <= Len(m) THEN m[i] ELSE 0
LOCAL Max2(a, b) == IF a > b THEN a ELSE b

RECURSIVE MagAddR(_, _, _, _, _)
MagAddR(a, b, i, c, acc) ==
    IF i > Max2(Len(a), Len(b))
    THEN IF c = 0 THEN acc ELSE Append(acc, c)
    ELSE LET s == D(a, i) + D(b, i) + c
         IN MagAddR(a, b, i + 1, s \div BB, Append(acc, s % BB))
MagAdd(a, b) == MagAddR(a, b, 1, 0, <<>>)

RECURSIVE MagSubR(_, _, _, _, _)
MagSubR(a, b, i, c, acc) ==                      \* needs a >= b
    IF i > Len(a) THEN acc
    ELSE LET s == D(a, i) - D(b, i) - c
         IN IF s < 0 THEN MagSubR(a, b, i + 1, 1, Append(acc, s + BB))
            ELSE MagSubR(a, b, i + 1, 0, Append(acc, s))
MagSub(a, b) == MagSubR(a, b, 1, 0, <<>>)

RECURSIVE MagCmpR(_, _, _)
MagCmpR(a, b, i) == IF i = 0 THEN 0
                    ELSE IF D(a, i) < D(b, i) THEN -1
                    ELSE IF D(a, i) > D(b, i) THEN 1
                    ELSE MagCmpR(a, b, i - 1)
MagCmp(a, b) == MagCmpR(a, b, Max2(Len(a), Len(b)))

\* m * d + c, for d < BB and c < BB
RECURSIVE MagMulSmallR(_, _, _, _, _)
MagMulSmallR(m, d, i, c, acc) ==
    IF i > Len(m)
    THEN IF c = 0 THEN acc ELSE Append(acc, c)
    ELSE LET s == m[i] * d + c
         IN MagMulSmallR(m, d, i + 1, s \div BB, Append(acc, s % BB))
MagMulSmall(m, d, c) == MagMulSmallR(m, d, 1, c, <<>>)

RECURSIVE MagMulR(_, _, _, _)
MagMulR(a, b, i, acc) ==                         \* acc = a * (b without its i lowest digits)
    IF i = 0 THEN acc
    ELSE MagMulR(a, b, i - 1,
                 MagAdd(IF acc = <<>> THEN <<>> ELSE <<0>> \o acc,
                        MagMulSmall(a, b[i], 0)))
MagMul(a, b) == MagMulR(a, b, Len(b), <<>>)

\* quotient and remainder by a divisor < BB: << quotient, remainder >>
RECURSIVE MagDivSmallR(_, _, _, _, _)
MagDivSmallR(m, d, i, r, acc) ==
    IF i = 0 THEN <<Trim(acc), r>>
    ELSE LET x == r * BB + m[i]
         IN MagDivSmallR(m, d, i - 1, x % d, <<x \div d>> \o acc)
MagDivSmall(m, d) == MagDivSmallR(m, d, Len(m), 0, <<>>)

\* the digit q in lo .. hi with q * d <= r < (q + 1) * d
RECURSIVE QDigit(_, _, _, _)
QDigit(r, d, lo, hi) ==
    IF lo = hi THEN lo
    ELSE LET mid == (lo + hi + 1) \div 2
         IN IF MagCmp(MagMulSmall(d, mid, 0), r) <= 0
            THEN QDigit(r, d, mid, hi) ELSE QDigit(r, d, lo, mid - 1)
RECURSIVE MagDivR(_, _, _, _, _)
MagDivR(a, d, i, r, acc) ==
    IF i = 0 THEN <<Trim(acc), Trim(r)>>
    ELSE LET r1 == Trim(<<a[i]>> \o r)
             q  == IF MagCmp(r1, d) < 0 THEN 0 ELSE QDigit(r1, d, 1, BB - 1)
             r2 == IF q = 0 THEN r1 ELSE Trim(MagSub(r1, MagMulSmall(d, q, 0)))
         IN MagDivR(a, d, i - 1, r2, <<q>> \o acc)
MagDiv(a, d) == IF Len(d) = 1
                THEN LET x == MagDivSmall(a, d[1])
                     IN <<x[1], IF x[2] = 0 THEN <<>> ELSE <<x[2]>> >>
                ELSE MagDivR(a, d, Len(a), <<>>, <<>>)

(* ------------------------------ integers -------------------------------- *)
ZNeg(z) == IF ZSmall(z) THEN <<-z[1]>> ELSE <<-z[1]>> \o Tail(z)
ZAbs(z) == IF z[1] < 0 THEN ZNeg(z) ELSE z

ZCmp(a, b) ==
    IF ZSmall(a) /\ ZSmall(b)
    THEN IF a[1] < b[1] THEN -1 ELSE IF a[1] > b[1] THEN 1 ELSE 0
    ELSE LET sa == Sgn(a)  sb == Sgn(b)
         IN IF sa < sb THEN -1 ELSE IF sa > sb THEN 1
            ELSE sa * MagCmp(Mag(a), Mag(b))
ZLt(a, b) == ZCmp(a, b) < 0
ZLe(a, b) == ZCmp(a, b) <= 0

LOCAL ZAddBig(a, b) ==
    LET sa == Sgn(a)  sb == Sgn(b)  ma == Mag(a)  mb == Mag(b)
    IN IF sa = 0 THEN b ELSE IF sb = 0 THEN a
       ELSE IF sa = sb THEN FromMag(sa, MagAdd(ma, mb))
       ELSE IF MagCmp(ma, mb) >= 0 THEN FromMag(sa, MagSub(ma, mb))
       ELSE FromMag(sb, MagSub(mb, ma))
ZAdd(a, b) ==
    IF ZSmall(a) /\ ZSmall(b)
    THEN LET s == a[1] + b[1] IN
         IF -P30 < s /\ s < P30 THEN <<s>> ELSE ZAddBig(a, b)
    ELSE ZAddBig(a, b)
ZSub(a, b) == ZAdd(a, ZNeg(b))
ZMul(a, b) ==
    IF ZSmall(a) /\ ZSmall(b) /\ AbsI(a[1]) < BB /\ AbsI(b[1]) < BB
    THEN <<a[1] * b[1]>>
    ELSE LET s == Sgn(a) * Sgn(b) IN
         IF s = 0 THEN <<0>> ELSE FromMag(s, MagMul(Mag(a), Mag(b)))

\* division that truncates towards zero, as in C
ZDiv(a, b) ==
    IF ZSmall(a) /\ ZSmall(b)
    THEN LET q == AbsI(a[1]) \div AbsI(b[1])
         IN <<IF (a[1] < 0) = (b[1] < 0) THEN q ELSE -q>>
    ELSE LET s == Sgn(a) * Sgn(b) IN
         IF s = 0 THEN <<0>> ELSE FromMag(s, MagDiv(Mag(a), Mag(b))[1])
ZRem(a, b) ==
    IF ZSmall(a) /\ ZSmall(b)
    THEN LET r == AbsI(a[1]) % AbsI(b[1]) IN <<IF a[1] < 0 THEN -r ELSE r>>
    ELSE IF Sgn(a) = 0 THEN <<0>>
    ELSE FromMag(Sgn(a), MagDiv(Mag(a), Mag(b))[2])
\* division that rounds down
ZDivFloor(a, b) == LET q == ZDiv(a, b)
                   IN IF ZCmp(ZMul(q, b), a) # 0 /\ (Sgn(a) * Sgn(b) < 0)
                      THEN ZSub(q, Z1) ELSE q

RECURSIVE ZPow2(_)
ZPow2(k) == IF k < 30 THEN <<2 ^ k>>
            ELSE IF k < 60 THEN ZMul(ZPow2(k - 15), <<BB>>)
            ELSE ZMul(ZPow2(k \div 2), ZPow2(k - (k \div 2)))
Pow2Table == [k \in 0 .. 64 |-> ZPow2(k)]

\* decimal digits of a magnitude, most significant first, as character codes
\* (four at a time; without leading zeros)
LOCAL Dig4(n) == <<48 + (n \div 1000), 48 + ((n \div 100) % 10), 48 + ((n \div 10) % 10), 48 + (n % 10)>>
LOCAL DigN(n) == IF n < 10 THEN <<48 + n>>
                 ELSE IF n < 100 THEN <<48 + (n \div 10), 48 + (n % 10)>>
                 ELSE IF n < 1000 THEN <<48 + (n \div 100), 48 + ((n \div 10) % 10), 48 + (n % 10)>>
                 ELSE Dig4(n)
RECURSIVE MagDec(_, _)
MagDec(m, acc) == IF m = <<>> THEN acc
                  ELSE LET x == MagDivSmall(m, 10000)
                       IN IF x[1] = <<>> THEN DigN(x[2]) \o acc
                          ELSE MagDec(x[1], Dig4(x[2]) \o acc)
ZDec(z) == IF Sgn(z) = 0 THEN <<48>>
           ELSE IF Sgn(z) < 0 THEN <<45>> \o MagDec(Mag(z), <<>>)
           ELSE MagDec(Mag(z), <<>>)

(* -------------------- two's complement, little-endian ------------------- *)
RECURSIVE SmallBytes(_, _, _)
SmallBytes(n, k, acc) == IF k = 0 THEN acc
                         ELSE SmallBytes(n \div 256, k - 1, Append(acc, n % 256))
RECURSIVE MagBytes(_, _, _)
MagBytes(m, k, acc) == IF k = 0 THEN acc
                       ELSE LET x == MagDivSmall(m, 256)
                            IN MagBytes(x[1], k - 1, Append(acc, x[2]))
\* the low k bytes of the two's complement representation of z
ZBytes(z, k) ==
    IF ZSmall(z) THEN SmallBytes(z[1], k, <<>>)
    ELSE IF z[1] > 0 THEN MagBytes(Mag(z), k, <<>>)
    ELSE LET c == MagBytes(MagSub(Mag(z), <<1>>), k, <<>>)
         IN [i \in 1 .. k |-> 255 - c[i]]
RECURSIVE BytesMag(_, _, _)
BytesMag(b, i, m) == IF i = 0 THEN m
                     ELSE BytesMag(b, i - 1, MagMulSmall(m, 256, b[i]))
LOCAL UnsignedOfBytes(b) ==
    CASE Len(b) = 1 -> <<b[1]>>
      [] Len(b) = 2 -> <<b[1] + 256 * b[2]>>
      [] Len(b) >= 4 /\ b[4] < 64 /\ (\A i \in 5 .. Len(b) : b[i] = 0) ->
             <<b[1] + 256 * b[2] + 65536 * b[3] + 16777216 * b[4]>>
      [] OTHER -> FromMag(1, BytesMag(b, Len(b), <<>>))
ZFromBytes(b, signed) ==
    IF signed /\ b[Len(b)] >= 128
    THEN ZSub(<<-1>>, UnsignedOfBytes([i \in 1 .. Len(b) |-> 255 - b[i]]))
    ELSE UnsignedOfBytes(b)

\* the value of z modulo 2^(8k) in the range of the (un)signed integers of k bytes
ZWrap(z, k, signed) ==
    IF ZSmall(z) /\ (IF signed THEN \/ k >= 4
                                    \/ k = 2 /\ -32768 <= z[1] /\ z[1] <= 32767
                                    \/ k = 1 /\ -128 <= z[1] /\ z[1] <= 127
                     ELSE z[1] >= 0 /\ (\/ k >= 4
                                        \/ k = 2 /\ z[1] <= 65535
                                        \/ k = 1 /\ z[1] <= 255))
    THEN z
    ELSE ZFromBytes(ZBytes(z, k), signed)

ZBitAnd(a, b) == IF ZSmall(a) /\ ZSmall(b) /\ a[1] >= 0 /\ b[1] >= 0
                 THEN <<a[1] & b[1]>>
                 ELSE LET x == ZBytes(a, 9)  y == ZBytes(b, 9)
                      IN ZFromBytes([i \in 1 .. 9 |-> x[i] & y[i]], TRUE)
ZBitOr(a, b) == IF ZSmall(a) /\ ZSmall(b) /\ a[1] >= 0 /\ b[1] >= 0
                THEN <<a[1] + b[1] - (a[1] & b[1])>>
                ELSE LET x == ZBytes(a, 9)  y == ZBytes(b, 9)
                     IN ZFromBytes([i \in 1 .. 9 |-> x[i] + y[i] - (x[i] & y[i])], TRUE)
ZBitXor(a, b) == IF ZSmall(a) /\ ZSmall(b) /\ a[1] >= 0 /\ b[1] >= 0
                 THEN <<(a[1] - (a[1] & b[1])) + (b[1] - (a[1] & b[1]))>>
                 ELSE LET x == ZBytes(a, 9)  y == ZBytes(b, 9)
                      IN ZFromBytes([i \in 1 .. 9 |-> x[i] + y[i] - 2 * (x[i] & y[i])], TRUE)
ZBitNot(a) == ZSub(<<-1>>, a)
=============================================================================
