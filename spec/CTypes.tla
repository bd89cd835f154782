-------------------------------- MODULE CTypes --------------------------------
(***************************************************************************)
(* Types, values and the operators of C, for the implementation-defined    *)
(* choices that the compiler documents: 8-bit signed char, 16-bit short,   *)
(* 32-bit int and pointers, 64-bit long, little-endian two's complement.   *)
(*                                                                         *)
(* types   <<"i8">> .. <<"u64">>, <<"f32">>, <<"f64">>, <<"void">>,        *)
(*         <<"ptr", T>>, <<"arr", T, n>>, <<"st", sid>>                     *)
(* values  [t |-> T, z |-> integer]   [t |-> T, p |-> <<object, serial,    *)
(*         offset>>]   [t |-> T, f |-> float]   [t |-> <<"void">>]         *)
(*         [t |-> <<"ub", reason>>]: the operation has no defined result   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, ZInt, Flt

ISize == [i8 |-> 1, u8 |-> 1, i16 |-> 2, u16 |-> 2, i32 |-> 4, u32 |-> 4, i64 |-> 8, u64 |-> 8]
ISigned == [i8 |-> TRUE, u8 |-> FALSE, i16 |-> TRUE, u16 |-> FALSE,
            i32 |-> TRUE, u32 |-> FALSE, i64 |-> TRUE, u64 |-> FALSE]
IntKinds == {"i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64"}
IsInt(t) == t[1] \in IntKinds
IsFlt(t) == t[1] = "f64" \/ t[1] = "f32"
FSize(t) == IF t[1] = "f32" THEN 4 ELSE 8
IsPtr(t) == t[1] = "ptr"
IsArith(t) == IsInt(t) \/ IsFlt(t)
I32 == <<"i32">>
U32 == <<"u32">>
I64 == <<"i64">>
U64 == <<"u64">>
F64 == <<"f64">>
VoidT == <<"void">>

MinOf == [i8 |-> <<-128>>, i16 |-> <<-32768>>, i32 |-> ZNeg(ZPow2(31)), i64 |-> ZNeg(ZPow2(63)),
          u8 |-> <<0>>, u16 |-> <<0>>, u32 |-> <<0>>, u64 |-> <<0>>]
MaxOf == [i8 |-> <<127>>, i16 |-> <<32767>>, i32 |-> ZSub(ZPow2(31), Z1), i64 |-> ZSub(ZPow2(63), Z1),
          u8 |-> <<255>>, u16 |-> <<65535>>, u32 |-> ZSub(ZPow2(32), Z1), u64 |-> ZSub(ZPow2(64), Z1)]
InRange(z, t) == IF ZSmall(z) /\ ISize[t[1]] >= 4
                 THEN ISigned[t[1]] \/ z[1] >= 0
                 ELSE ZLe(MinOf[t[1]], z) /\ ZLe(z, MaxOf[t[1]])

IV(t, z) == [t |-> t, z |-> z]
IntV(n) == [t |-> I32, z |-> <<n>>]
BoolV(b) == IF b THEN IntV(1) ELSE IntV(0)
PV(t, p) == [t |-> t, p |-> p]
FV(t, f) == [t |-> t, f |-> f]
VoidV == [t |-> VoidT]
UB(r) == [t |-> <<"ub", r>>]
IsUB(v) == v.t[1] = "ub"
NullP == <<0, 0, 0>>

(* ------------------------------ conversions ----------------------------- *)
SmallKinds == {"i8", "u8", "i16", "u16"}
Promote(t) == IF t[1] \in SmallKinds THEN I32 ELSE t
\* the usual arithmetic conversions: the common type of two arithmetic types
UAC(t1, t2) ==
    IF t1[1] = "f64" \/ t2[1] = "f64" THEN F64
    ELSE IF t1[1] = "f32" \/ t2[1] = "f32" THEN <<"f32">>
    ELSE LET a == Promote(t1)  b == Promote(t2) IN
         IF a = b THEN a
         ELSE IF a = U64 \/ b = U64 THEN U64
         ELSE IF a = I64 \/ b = I64 THEN I64
         ELSE U32

Convert(v, t) ==
    IF v.t = t \/ IsUB(v) THEN v
    ELSE IF t[1] = "void" THEN VoidV
    ELSE IF IsInt(v.t) THEN
        IF IsInt(t) THEN IV(t, ZWrap(v.z, ISize[t[1]], ISigned[t[1]]))
        ELSE IF IsFlt(t) THEN FV(t, FOfZ(FSize(t), v.z))
        ELSE IF IsPtr(t) /\ v.z = Z0 THEN PV(t, NullP)
        ELSE UB("int to pointer")
    ELSE IF IsFlt(v.t) THEN
        IF IsFlt(t) THEN FV(t, FConv(FSize(t), v.f))
        ELSE IF IsInt(t) THEN
            IF v.f[1] = "n" \/ v.f[1] = "i" THEN UB("float to int")
            ELSE LET z == FTrunc(v.f) IN
                 IF InRange(z, t) THEN IV(t, z) ELSE UB("float to int")
        ELSE UB("float to pointer")
    ELSE IF IsPtr(v.t) /\ IsPtr(t) THEN PV(t, v.p)
    ELSE UB("conversion")

\* the truth value of a scalar
Truth(v) == CASE IsInt(v.t) -> v.z # Z0
              [] IsPtr(v.t) -> v.p[1] # 0
              [] OTHER -> ~FIsZero(v.f)
IsScalar(t) == IsInt(t) \/ IsPtr(t) \/ IsFlt(t)

(* ------------------------------- operators ------------------------------ *)
\* an exact result in type t: unsigned types wrap, signed overflow is undefined
Exact(t, z) == IF InRange(z, t) THEN IV(t, z)
               ELSE IF ISigned[t[1]] THEN UB("signed overflow")
               ELSE IV(t, ZWrap(z, ISize[t[1]], FALSE))

IntOp(op, t, x, y) ==
    CASE op = "+" -> Exact(t, ZAdd(x, y))
      [] op = "-" -> Exact(t, ZSub(x, y))
      [] op = "*" -> Exact(t, ZMul(x, y))
      [] op = "/" -> IF y = Z0 THEN UB("division by zero") ELSE Exact(t, ZDiv(x, y))
      [] op = "%" -> IF y = Z0 THEN UB("division by zero")
                     ELSE IF IsUB(Exact(t, ZDiv(x, y))) THEN UB("signed overflow")
                     ELSE Exact(t, ZRem(x, y))
      [] op = "&" -> IV(t, ZBitAnd(x, y))
      [] op = "|" -> IV(t, ZBitOr(x, y))
      [] op = "^" -> IV(t, ZBitXor(x, y))
      [] op = "<" -> BoolV(ZCmp(x, y) < 0)
      [] op = ">" -> BoolV(ZCmp(x, y) > 0)
      [] op = "<=" -> BoolV(ZCmp(x, y) <= 0)
      [] op = ">=" -> BoolV(ZCmp(x, y) >= 0)
      [] op = "==" -> BoolV(x = y)
      [] op = "!=" -> BoolV(x # y)

FltOp(op, t, x, y) ==
    LET n == FSize(t)  c == FCmp(x, y) IN
    CASE op = "+" -> FV(t, FAdd(n, x, y))
      [] op = "-" -> FV(t, FSub(n, x, y))
      [] op = "*" -> FV(t, FMul(n, x, y))
      [] op = "/" -> FV(t, FDiv(n, x, y))
      [] op = "<" -> BoolV(c = -1)
      [] op = ">" -> BoolV(c = 1)
      [] op = "<=" -> BoolV(c = -1 \/ c = 0)
      [] op = ">=" -> BoolV(c = 1 \/ c = 0)
      [] op = "==" -> BoolV(c = 0)
      [] op = "!=" -> BoolV(c # 0)
      [] OTHER -> UB("operand type")

ShiftOp(op, a, b) ==
    LET t == Promote(a.t)
        bits == 8 * ISize[t[1]]
    IN IF ~ZSmall(b.z) \/ b.z[1] < 0 \/ b.z[1] >= bits THEN UB("shift count")
       ELSE IF op = ">>" THEN IV(t, ZDivFloor(a.z, Pow2Table[b.z[1]]))
       ELSE IF ISigned[t[1]] /\ a.z[1] < 0 THEN UB("shift of negative")
       ELSE Exact(t, ZMul(a.z, Pow2Table[b.z[1]]))

ArithOp(op, a, b) ==
    IF ~IsArith(a.t) \/ ~IsArith(b.t) THEN UB("operand type")
    ELSE IF op = "<<" \/ op = ">>"
    THEN IF IsInt(a.t) /\ IsInt(b.t) THEN ShiftOp(op, a, b) ELSE UB("operand type")
    ELSE LET t == UAC(a.t, b.t) IN
         IF IsFlt(t) THEN FltOp(op, t, Convert(a, t).f, Convert(b, t).f)
         ELSE IntOp(op, t, Convert(a, t).z, Convert(b, t).z)

UnOp(op, a) ==
    CASE op = "!" -> IF IsScalar(a.t) THEN BoolV(~Truth(a)) ELSE UB("operand type")
      [] IsFlt(a.t) -> IF op = "-" THEN FV(a.t, FNeg(a.f))
                       ELSE IF op = "+" THEN a ELSE UB("operand type")
      [] IsInt(a.t) -> LET t == Promote(a.t) IN
             CASE op = "-" -> Exact(t, ZNeg(a.z))
               [] op = "+" -> IV(t, a.z)
               [] op = "~" -> IV(t, IF ISigned[t[1]] THEN ZBitNot(a.z)
                                    ELSE ZSub(MaxOf[t[1]], a.z))
      [] OTHER -> UB("operand type")
=============================================================================
