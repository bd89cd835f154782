--------------------------------- MODULE CSem ---------------------------------
(***************************************************************************)
(* An abstract machine for the C programs that the compiler accepts.       *)
(*                                                                         *)
(* A program is a table of syntax nodes (input data: Progs).  The state of *)
(* the machine is a control item, a continuation (a linked list of         *)
(* frames), an environment and a memory of objects made of bytes.  One     *)
(* transition evaluates one syntax node or resumes one frame.              *)
(*                                                                         *)
(* The machine validates a recorded behaviour of the real compiler and     *)
(* runtime (Runs): the bytes written so far have to be a prefix of the     *)
(* recorded output, and the result the recorded result.  A program whose   *)
(* behaviour is undefined has no defined result, and is discarded.         *)
(***************************************************************************)
EXTENDS CTypes, SequencesExt, Inputs

CONSTANTS Batch,\* machine steps per transition
          Fuel        \* machine steps after which a run is given up

VARIABLES run, m
vars == <<run, m>>

(* ----------------------------- the machine ------------------------------ *)
\* md: what the machine is doing
\*   "e" evaluate expression x      "l" evaluate lvalue x
\*   "s" execute statement x        "r" return value v to the top frame
\*   "d" a statement has completed  "halt" stopped, see st
InitMachine(r) ==
    [md |-> "top", x |-> 1, v |-> VoidV, k |-> <<>>,
     env |-> <<>>, genv |-> <<>>,
     mem |-> <<>>, smem |-> <<>>, stat |-> <<>>, ser |-> 1, sd |-> <<>>,
     vd |-> <<>>, oi |-> 0, bad |-> "", st |-> "run", n |-> 0,
     lp |-> 0, sp |-> 0, fl |-> <<>>]

Halt(mm, s) == [mm EXCEPT !.md = "halt", !.st = s]
HaltUB(mm, v) == Halt(mm, "ub: " \o v.t[2])
HaltR(mm, r) == Halt(mm, "ub: " \o r)

Push(mm, f) == [mm EXCEPT !.k = <<f, @>>]
\* evaluate x, and then resume with frame f
EvalThen(mm, x, f) == [mm EXCEPT !.md = "e", !.x = x, !.k = <<f, @>>]
LvalThen(mm, x, f) == [mm EXCEPT !.md = "l", !.x = x, !.k = <<f, @>>]
ExecThen(mm, x, f) == [mm EXCEPT !.md = "s", !.x = x, !.k = <<f, @>>]
Return(mm, v) == IF IsUB(v) THEN HaltUB(mm, v) ELSE [mm EXCEPT !.md = "r", !.v = v]
Done(mm) == [mm EXCEPT !.md = "d"]

Bind(env, name, b) == (name :> b) @@ env
Lookup(mm, name) == IF name \in DOMAIN mm.env THEN mm.env[name]
                    ELSE IF name \in DOMAIN mm.genv THEN mm.genv[name]
                    ELSE [k |-> "none"]

(* -------------------------------- types --------------------------------- *)
\* a type expression of the program, resolved in the current scope
\*   also <<"td", name>>, <<"tag", name>>, <<"arrx", T, node>>
\* a tag that isn't defined yet stands for itself until its type is needed
Complete(mm, t) == IF t[1] # "tag" THEN t
                   ELSE LET b == Lookup(mm, "tag " \o t[2]) IN IF b.k = "none" THEN t ELSE b.t
RECURSIVE SizeOf(_, _)
SizeOf(mm, t) ==
    CASE IsInt(t) -> ISize[t[1]]
      [] IsPtr(t) -> 4
      [] IsFlt(t) -> FSize(t)
      [] t[1] = "arr" -> t[3] * SizeOf(mm, t[2])
      [] t[1] = "st" -> mm.sd[t[2]].size
      [] t[1] = "tag" /\ Complete(mm, t) # t -> SizeOf(mm, Complete(mm, t))
      [] OTHER -> 0

\* member f of struct or union sid: [t |-> type, o |-> offset]
Member(mm, sid, f) == LET ms == mm.sd[sid].ms
                      IN ms[CHOOSE i \in 1 .. Len(ms) : ms[i].n = f]

PtrTo(t) == <<"ptr", t>>
Decay(t) == IF t[1] = "arr" THEN PtrTo(t[2]) ELSE t
CommonPtr(a, b) == IF a[2][1] = "void" THEN b ELSE a   \* for ?: and comparisons

(* the type of an expression, without evaluating it *)
RECURSIVE TypeOf(_, _, _)        \* (program, machine, node): of an object: not decayed
RECURSIVE ConstEval(_, _, _)     \* the value of a constant expression
RECURSIVE Resolve(_, _, _)

Resolve(pr, mm, t) ==
    CASE t[1] = "ptr" -> PtrTo(Resolve(pr, mm, t[2]))
      [] t[1] = "arr" -> <<"arr", Resolve(pr, mm, t[2]), t[3]>>
      [] t[1] = "arrx" -> LET v == IF t[3] \in DOMAIN mm.vd THEN mm.vd[t[3]] ELSE ConstEval(pr, mm, t[3])
                          IN <<"arr", Resolve(pr, mm, t[2]), IF IsInt(v.t) /\ Len(v.z) = 1 THEN v.z[1] ELSE 0>>
      [] t[1] = "td" -> Lookup(mm, t[2]).t
      [] t[1] = "tag" -> Complete(mm, t)
      [] OTHER -> t

NumType(n) ==                       \* the first type which has the value; unsigned types for octal and hexadecimal only
              LET z == n.v IN
              IF ZLe(z, MaxOf["i32"]) THEN I32
              ELSE IF n.dec = 0 /\ ZLe(z, MaxOf["u32"]) THEN U32
              ELSE IF ZLe(z, MaxOf["i64"]) THEN I64 ELSE U64

CmpOps == {"<", ">", "<=", ">=", "==", "!="}
EqOps == {"==", "!="}
ArithT(op, a, b) ==              \* the type of a binary operator on (decayed) types
    CASE op \in CmpOps -> I32
      [] IsPtr(a) /\ IsPtr(b) -> I32
      [] IsPtr(a) -> a
      [] IsPtr(b) -> b
      [] op \in {"<<", ">>"} -> Promote(a)
      [] OTHER -> UAC(a, b)

TypeOf(pr, mm, x) ==
    LET n == pr.nodes[x]
        T(y) == TypeOf(pr, mm, y)
        TD(y) == Decay(TypeOf(pr, mm, y))
    IN CASE n.k = "num" -> NumType(n)
         [] n.k = "chr" -> I32
         [] n.k = "flt" -> F64
         [] n.k = "str" -> <<"arr", <<"i8">>, Len(n.b) + 1>>
         [] n.k = "id" -> LET b == Lookup(mm, n.n)
                          IN IF b.k = "var" THEN b.t ELSE I32
         [] n.k = "bin" -> ArithT(n.op, TD(n.a), TD(n.b))
         [] n.k = "un" -> IF n.op = "!" THEN I32 ELSE Promote(T(n.a))
         [] n.k \in {"and", "or", "szt", "sze"} -> IF n.k \in {"and", "or"} THEN I32 ELSE U32
         [] n.k \in {"asg", "inc"} -> T(n.a)
         [] n.k = "cond" -> LET a == TD(n.b)  b == TD(n.c) IN
               CASE IsArith(a) /\ IsArith(b) -> UAC(a, b)
                 [] IsPtr(a) /\ IsPtr(b) -> CommonPtr(a, b)
                 [] IsPtr(a) -> a
                 [] OTHER -> b
         [] n.k = "comma" -> TD(n.b)
         [] n.k = "cast" -> Resolve(pr, mm, n.t)
         [] n.k = "addr" -> PtrTo(T(n.a))
         [] n.k = "deref" -> Complete(mm, TD(n.a)[2])
         [] n.k = "idx" -> LET a == TD(n.a) IN Complete(mm, IF IsPtr(a) THEN a[2] ELSE TD(n.b)[2])
         [] n.k = "mem" -> Member(mm, T(n.a)[2], n.f).t
         [] n.k = "arrow" -> Member(mm, Complete(mm, TD(n.a)[2])[2], n.f).t
         [] n.k = "call" -> Lookup(mm, n.f).t

ConstEval(pr, mm, x) ==
    LET n == pr.nodes[x]
        V(y) == ConstEval(pr, mm, y)
    IN CASE n.k = "num" -> IV(NumType(n), n.v)
         [] n.k = "chr" -> IV(I32, n.v)
         [] n.k = "flt" -> FV(F64, FOfDec(8, n.v, n.d))
         [] n.k = "id" -> LET b == Lookup(mm, n.n) IN
                          IF b.k = "ec" THEN b.v ELSE UB("not constant")
         [] n.k = "bin" -> LET a == V(n.a)  b == V(n.b) IN
                           IF IsUB(a) THEN a ELSE IF IsUB(b) THEN b ELSE ArithOp(n.op, a, b)
         [] n.k = "un" -> LET a == V(n.a) IN IF IsUB(a) THEN a ELSE UnOp(n.op, a)
         [] n.k = "cast" -> LET a == V(n.a) IN IF IsUB(a) THEN a ELSE Convert(a, Resolve(pr, mm, n.t))
         [] n.k = "szt" -> IV(U32, <<SizeOf(mm, Resolve(pr, mm, n.t))>>)
         [] n.k = "sze" -> IV(U32, <<SizeOf(mm, TypeOf(pr, mm, n.a))>>)
         [] n.k \in {"and", "or"} ->
                LET a == V(n.a) IN
                IF IsUB(a) THEN a
                ELSE IF Truth(a) = (n.k = "or") THEN BoolV(n.k = "or")
                ELSE LET b == V(n.b) IN IF IsUB(b) THEN b ELSE BoolV(Truth(b))
         [] n.k = "cond" ->
                LET c == V(n.a) IN
                IF IsUB(c) THEN c
                ELSE LET v == IF Truth(c) THEN V(n.b) ELSE V(n.c) IN
                     IF IsUB(v) THEN v ELSE Convert(v, TypeOf(pr, mm, x))
         [] OTHER -> UB("not constant")
\* the sizes of an array type that have to be evaluated where it is declared
RECURSIVE VarDims(_, _, _)
VarDims(pr, mm, t) ==
    CASE t[1] = "arr" -> VarDims(pr, mm, t[2])
      [] t[1] = "ptr" -> VarDims(pr, mm, t[2])
      [] t[1] = "arrx" -> (IF t[3] \in DOMAIN mm.vd \/ ~IsUB(ConstEval(pr, mm, t[3])) THEN <<>> ELSE <<t[3]>>)
                          \o VarDims(pr, mm, t[2])
      [] OTHER -> <<>>

(* -------------------------------- memory -------------------------------- *)
\* an object: [b |-> bytes, s |-> serial number, p |-> pointers stored in it by
\* offset, ro |-> read only].  A byte is 0 .. 255, -1 (indeterminate), or
\* 256 .. 259 (one of the four bytes of a stored pointer).
\* object numbers: 1, 2, .. automatic objects; -1, -2, .. static objects;
\* LitBase - x: the string literal of node x
LitBase == -1000000
Undef(k) == [i \in 1 .. k |-> -1]
ZeroB(k) == [i \in 1 .. k |-> 0]
NewObj(b, s, ro) == [b |-> b, s |-> s, p |-> <<>>, ro |-> ro]

AllocAuto(mm, bytes) ==
    [mm EXCEPT !.mem = Append(@, NewObj(bytes, mm.ser, FALSE)), !.ser = @ + 1]
LastAuto(mm) == <<Len(mm.mem), mm.mem[Len(mm.mem)].s, 0>>
AllocStatic(mm, bytes, ro) == [mm EXCEPT !.smem = Append(@, NewObj(bytes, 0, ro))]
LastStatic(mm) == <<-Len(mm.smem), 0, 0>>

Live(mm, p) == IF p[1] < 0 THEN TRUE
               ELSE p[1] > 0 /\ p[1] <= Len(mm.mem) /\ mm.mem[p[1]].s = p[2]
LitObj(x) == NewObj(Append(Progs[Runs[run].p].nodes[x].b, 0), 0, TRUE)
Obj(mm, p) == IF p[1] > 0 THEN mm.mem[p[1]]
              ELSE IF p[1] < LitBase THEN LitObj(LitBase - p[1]) ELSE mm.smem[-p[1]]
ObjSize(mm, p) == Len(Obj(mm, p).b)
CanAccess(mm, p, k) == /\ Live(mm, p)
                       /\ p[3] >= 0
                       /\ p[3] + k <= ObjSize(mm, p)

Load(mm, t, p) ==
    LET k == SizeOf(mm, t) IN
    IF ~CanAccess(mm, p, k) THEN UB("invalid read")
    ELSE LET o == Obj(mm, p)
             b == SubSeq(o.b, p[3] + 1, p[3] + k)
         IN CASE IsInt(t) ->
                   IF \E i \in 1 .. k : b[i] < 0 \/ b[i] > 255
                   THEN UB("indeterminate value")
                   ELSE IV(t, ZFromBytes(b, ISigned[t[1]]))
              [] IsPtr(t) ->
                   IF b = <<0, 0, 0, 0>> THEN PV(t, NullP)
                   ELSE IF b = <<256, 257, 258, 259>> THEN PV(t, o.p[p[3]])
                   ELSE UB("indeterminate value")
              [] IsFlt(t) ->
                   IF \E i \in 1 .. k : b[i] < 0 \/ b[i] > 255
                   THEN UB("indeterminate value")
                   ELSE FV(t, FFromBytes(k, b))
              [] OTHER -> UB("read of aggregate")

PutBytes(mm, p, b, ptrs) ==
    LET upd(o) == [o EXCEPT
            !.b = IF Len(b) = Len(@) THEN b
                  ELSE SubSeq(@, 1, p[3]) \o b \o SubSeq(@, p[3] + Len(b) + 1, Len(@)),
            !.p = ptrs @@ @]
    IN IF p[1] < 0 THEN [mm EXCEPT !.smem[-p[1]] = upd(@)]
       ELSE [mm EXCEPT !.mem[p[1]] = upd(@)]

\* store v, of type t; p has to be accessible
Store(mm, t, p, v) ==
    CASE IsInt(t) -> PutBytes(mm, p, ZBytes(v.z, ISize[t[1]]), <<>>)
      [] IsPtr(t) -> IF v.p[1] = 0 THEN PutBytes(mm, p, <<0, 0, 0, 0>>, <<>>)
                     ELSE PutBytes(mm, p, <<256, 257, 258, 259>>, p[3] :> v.p)
      [] IsFlt(t) -> PutBytes(mm, p, FBytes(FSize(t), v.f), <<>>)
CanStore(mm, t, p) == /\ IsScalar(t)
                      /\ CanAccess(mm, p, SizeOf(mm, t))
                      /\ ~Obj(mm, p).ro

\* store after conversion to the type of the object, then continue with C(machine, value)
StoreConv(mm, t, p, v, C(_, _)) ==
    LET w == Convert(v, t) IN
    IF IsUB(w) THEN HaltUB(mm, w)
    ELSE IF ~CanStore(mm, t, p) THEN HaltR(mm, "invalid write")
    ELSE C(Store(mm, t, p, w), w)

\* the value of the object that an lvalue designates
RValue(mm, lv) ==
    IF lv.t[1] = "arr" THEN PV(PtrTo(lv.t[2]), lv.ref)
    ELSE Load(mm, lv.t, lv.ref)

(* ----------------------- operators on pointers too ---------------------- *)
PtrAdd(mm, a, z, sign) ==
    LET sz == SizeOf(mm, a.t[2])
        d == ZMul(ZMul(z, ZOf(sz)), ZOf(sign))
    IN IF a.p[1] = 0 \/ ~Live(mm, a.p) \/ ~ZSmall(d) THEN UB("pointer arithmetic")
       ELSE LET o == a.p[3] + d[1] IN
            IF o < 0 \/ o > ObjSize(mm, a.p) THEN UB("pointer arithmetic")
            ELSE PV(a.t, [a.p EXCEPT ![3] = o])
SameObj(p, q) == p[1] = q[1] /\ p[2] = q[2]
PtrEq(mm, p, q) ==               \* "yes", "no" or "unspecified"
    IF p = q THEN "yes"
    ELSE IF p[1] = 0 \/ q[1] = 0 THEN "no"
    ELSE IF ~Live(mm, p) \/ ~Live(mm, q) THEN "unspecified"
    ELSE IF SameObj(p, q) THEN "no"
    ELSE IF p[3] = ObjSize(mm, p) \/ q[3] = ObjSize(mm, q) \/ Obj(mm, p).ro \/ Obj(mm, q).ro
    THEN "unspecified" ELSE "no"
PtrOp(mm, op, a, b) ==
    CASE op \in EqOps ->
           LET pa == Convert(a, PtrTo(VoidT))  pb == Convert(b, PtrTo(VoidT)) IN
           IF IsUB(pa) THEN pa ELSE IF IsUB(pb) THEN pb
           ELSE LET r == PtrEq(mm, pa.p, pb.p) IN
                IF r = "unspecified" THEN UB("pointer comparison")
                ELSE BoolV((r = "yes") = (op = "=="))
      [] op = "+" -> IF IsPtr(a.t) /\ IsInt(b.t) THEN PtrAdd(mm, a, b.z, 1)
                     ELSE IF IsInt(a.t) /\ IsPtr(b.t) THEN PtrAdd(mm, b, a.z, 1)
                     ELSE UB("operand type")
      [] op = "-" /\ IsPtr(a.t) /\ IsInt(b.t) -> PtrAdd(mm, a, b.z, -1)
      [] op \in {"-", "<", ">", "<=", ">="} ->
           IF ~IsPtr(a.t) \/ ~IsPtr(b.t) THEN UB("operand type")
           ELSE IF a.p[1] = 0 \/ ~SameObj(a.p, b.p) \/ ~Live(mm, a.p)
           THEN UB("pointers to different objects")
           ELSE LET d == a.p[3] - b.p[3] IN
                CASE op = "-" -> IF d % SizeOf(mm, a.t[2]) # 0 THEN UB("pointer difference")
                                 ELSE IV(I32, ZDiv(ZOf(d), ZOf(SizeOf(mm, a.t[2]))))
                  [] op = "<" -> BoolV(d < 0)
                  [] op = ">" -> BoolV(d > 0)
                  [] op = "<=" -> BoolV(d <= 0)
                  [] op = ">=" -> BoolV(d >= 0)
      [] OTHER -> UB("operand type")
BinOp(mm, op, a, b) == IF IsPtr(a.t) \/ IsPtr(b.t) THEN PtrOp(mm, op, a, b)
                       ELSE ArithOp(op, a, b)

(* ------------------------------ expressions ----------------------------- *)
\* string literals are objects that exist all the time
LitRef(x) == <<LitBase - x, 0, 0>>

LvalKinds == {"str", "deref", "idx", "mem", "arrow"}
LV(t, ref) == [t |-> t, ref |-> ref]

EvalL(pr, mm) ==
    LET n == pr.nodes[mm.x] IN
    CASE n.k = "id" -> LET b == Lookup(mm, n.n) IN
                       IF b.k # "var" THEN HaltR(mm, "not an object " \o n.n)
                       ELSE Return(mm, LV(b.t, b.r))
      [] n.k = "str" -> Return(mm, LV(<<"arr", <<"i8">>, Len(n.b) + 1>>, LitRef(mm.x)))
      [] n.k = "deref" -> EvalThen(mm, n.a, <<"drf", mm.x>>)
      [] n.k = "idx" -> IF Runs[run].ord = 1 THEN EvalThen(mm, n.b, <<"ixr", mm.x>>)
                        ELSE EvalThen(mm, n.a, <<"ix1", mm.x>>)
      [] n.k = "mem" -> LvalThen(mm, n.a, <<"mem", mm.x>>)
      [] n.k = "arrow" -> EvalThen(mm, n.a, <<"arw", mm.x>>)
      [] OTHER -> HaltR(mm, "not an lvalue " \o n.k)

EvalE(pr, mm) ==
    LET n == pr.nodes[mm.x]
        x == mm.x
        RL == Runs[run].ord = 1          \* evaluate unsequenced operands right to left
    IN
    CASE n.k = "num" -> Return(mm, IV(NumType(n), n.v))
      [] n.k = "chr" -> Return(mm, IV(I32, n.v))
      [] n.k = "flt" -> Return(mm, FV(F64, FOfDec(8, n.v, n.d)))
      [] n.k = "id" ->
           LET b == Lookup(mm, n.n) IN
           CASE b.k = "var" -> Return(mm, RValue(mm, LV(b.t, b.r)))
             [] b.k = "ec" -> Return(mm, b.v)
             [] OTHER -> HaltR(mm, "undeclared " \o n.n)
      [] n.k \in LvalKinds ->
           [mm EXCEPT !.md = "l", !.k = <<<<"rv">>, @>>]
      [] n.k = "bin" -> IF RL THEN EvalThen(mm, n.b, <<"bR", x>>)
                        ELSE EvalThen(mm, n.a, <<"b1", x>>)
      [] n.k = "un" -> EvalThen(mm, n.a, <<"un", n.op>>)
      [] n.k = "and" -> EvalThen(mm, n.a, <<"and", x>>)
      [] n.k = "or" -> EvalThen(mm, n.a, <<"or", x>>)
      [] n.k = "cond" -> EvalThen(mm, n.a, <<"cond", x>>)
      [] n.k = "comma" -> EvalThen(mm, n.a, <<"comma", x>>)
      [] n.k = "cast" -> EvalThen(mm, n.a, <<"cast", Resolve(pr, mm, n.t)>>)
      [] n.k = "szt" -> Return(mm, IV(U32, <<SizeOf(mm, Resolve(pr, mm, n.t))>>))
      [] n.k = "sze" -> Return(mm, IV(U32, <<SizeOf(mm, TypeOf(pr, mm, n.a))>>))
      [] n.k = "addr" -> LvalThen(mm, n.a, <<"addr">>)
      [] n.k = "inc" -> LvalThen(mm, n.a, <<"inc", x>>)
      [] n.k = "asg" -> IF RL THEN EvalThen(mm, n.b, <<"asR", x>>)
                        ELSE LvalThen(mm, n.a, <<"as1", x>>)
      [] n.k = "call" ->
           IF n.as = <<>> THEN [mm EXCEPT !.md = "call", !.v = [f |-> n.f, as |-> <<>>]]
           ELSE LET i == IF RL THEN Len(n.as) ELSE 1
                IN EvalThen(mm, n.as[i], <<"arg", x, i, <<>>>>)
      [] OTHER -> HaltR(mm, "expression " \o n.k)

\* an assignment of v to the object lv, whose value is the stored value
Assign(mm, n, lv, v) ==
    LET C(m1, w) == Return(m1, w)
    IN IF n.op = "=" THEN StoreConv(mm, lv.t, lv.ref, v, C)
       ELSE LET old == Load(mm, lv.t, lv.ref) IN
            IF IsUB(old) THEN HaltUB(mm, old)
            ELSE LET r == BinOp(mm, n.op, old, v) IN
                 IF IsUB(r) THEN HaltUB(mm, r)
                 ELSE StoreConv(mm, lv.t, lv.ref, r, C)

Inc(mm, n, lv) ==
    LET old == Load(mm, lv.t, lv.ref)
        C(m1, w) == Return(m1, IF n.pre THEN w ELSE old)
    IN IF IsUB(old) THEN HaltUB(mm, old)
       ELSE LET r == BinOp(mm, n.op, old, IntV(1)) IN
            IF IsUB(r) THEN HaltUB(mm, r) ELSE StoreConv(mm, lv.t, lv.ref, r, C)

(* ----------------------- the log of the stack pointer ------------------- *)
(* With stack profiling and without tail-call optimisation, the log records *)
(* the stack pointer whenever it changes: when a call puts the saved frame  *)
(* pointer, the result and the arguments on the stack, when the callee      *)
(* allocates its variables (as much in every activation) and then each of   *)
(* its arrays, when an array of variable size is declared, and when the     *)
(* call returns.                                                            *)
LogOn == Runs[run].lg = 1
Log == Runs[run].log
LogSize(t) == IF t = VoidT THEN 0 ELSE IF IsInt(t) THEN ISize[t[1]] ELSE IF IsFlt(t) THEN FSize(t) ELSE 4
LogBad(mm) == IF mm.bad = "" THEN [mm EXCEPT !.bad = "stack pointer log"] ELSE mm
LogEntry(mm, sp) ==
    IF mm.lp < Len(Log) /\ Log[mm.lp + 1] = sp THEN [mm EXCEPT !.lp = @ + 1, !.sp = sp] ELSE LogBad(mm)
RECURSIVE LogPushes(_, _, _)
LogPushes(mm, sizes, i) == IF i > Len(sizes) \/ mm.bad # "" THEN mm
                           ELSE LogPushes(LogEntry(mm, mm.sp + sizes[i]), sizes, i + 1)
\* a call with the types of its result and arguments
LogCall(mm, rt, ts) == IF ~LogOn THEN mm
                       ELSE LogPushes(mm, <<4, LogSize(rt)>> \o [i \in 1 .. Len(ts) |-> LogSize(ts[i])], 1)
LogLocals(mm, f) ==
    IF ~LogOn \/ mm.bad # "" THEN mm
    ELSE IF mm.lp >= Len(Log) THEN LogBad(mm)
    ELSE LET l == Log[mm.lp + 1] - mm.sp IN
         IF l < 0 \/ (f \in DOMAIN mm.fl /\ mm.fl[f] # l) THEN LogBad(mm)
         ELSE [LogEntry(mm, mm.sp + l) EXCEPT !.fl = (f :> l) @@ @]
\* an array whose size is evaluated at its declaration
LogArray(mm, size) == IF LogOn /\ mm.bad = "" THEN LogEntry(mm, mm.sp + size) ELSE mm
LogReturn(mm, sp) == IF LogOn /\ mm.bad = "" THEN LogEntry(mm, sp) ELSE mm
\* arrays of static storage duration come first; the activation of main starts above them
\* (or, if there are none, above the program arguments)
LogStatics == LET fp == Runs[run].fp
                  RECURSIVE N(_)
                  N(j) == IF j < Len(Log) /\ Log[j + 1] <= fp THEN N(j + 1) ELSE j
              IN N(0)
LogMain(mm) == IF ~LogOn THEN mm
               ELSE IF Len(Log) <= LogStatics \/ (LogStatics > 0 /\ Log[LogStatics] # Runs[run].fp)
                       \/ \E j \in 1 .. LogStatics - 1 : Log[j] > Log[j + 1]
               THEN LogBad(mm)
               ELSE LogPushes([mm EXCEPT !.sp = Runs[run].fp, !.lp = LogStatics], <<8, 4, 4>>, 1)
\* at the end: the whole log is used, and the frame of main is the only one left
LogEnd(mm) == IF LogOn /\ mm.bad = "" /\ (mm.lp # Len(Log) \/ Runs[run].sp # mm.sp)
              THEN LogBad(mm) ELSE mm

(* ----------------------------- declarations ----------------------------- *)
InitSize(pr, x, el) ==           \* the number of elements that an initialiser gives
    IF x = 0 THEN 0
    ELSE LET n == pr.nodes[x] IN
         IF n.k = "il" THEN IF Len(n.is) = 1 /\ pr.nodes[n.is[1]].k = "str" /\ el = <<"i8">>
                            THEN Len(pr.nodes[n.is[1]].b) + 1 ELSE Len(n.is)
         ELSE IF n.k = "str" THEN Len(n.b) + 1 ELSE 0
DeclType(pr, mm, n) ==
    LET t == Resolve(pr, mm, n.t) IN
    IF t[1] = "arr" /\ t[3] < 0 THEN <<"arr", t[2], InitSize(pr, n.i, t[2])>> ELSE t

\* the arrays of known size that are declared in the function def, from its node y on
RECURSIVE LogArrays(_, _, _, _)
LogArrays(pr, mm, def, y) ==
    IF ~LogOn \/ mm.bad # "" \/ y > pr.nodes[def].z THEN mm
    ELSE LET n == pr.nodes[y] IN
         LogArrays(pr, IF n.k = "decl" /\ ~n.st /\ n.t[1] \in {"arr", "arrx"} /\ VarDims(pr, mm, n.t) = <<>>
                       THEN LogEntry(mm, mm.sp + SizeOf(mm, DeclType(pr, mm, n))) ELSE mm, def, y + 1)

\* the scalars that an initialiser sets, in order: << offset, type, expression >>;
\* of a string: << offset, type, -(node) >>
RECURSIVE InitItems(_, _, _, _, _)
RECURSIVE InitList(_, _, _, _, _, _, _)
InitItems(pr, mm, t, x, off) ==
    LET n == pr.nodes[x] IN
    IF n.k = "il" THEN
        IF t[1] = "arr" THEN
            IF Len(n.is) = 1 /\ pr.nodes[n.is[1]].k = "str" /\ t[2] = <<"i8">>
            THEN <<<<off, t, -n.is[1]>>>>
            ELSE InitList(pr, mm, t, n.is, 1, off, <<>>)
        ELSE IF t[1] = "st" THEN InitList(pr, mm, t, n.is, 1, off, <<>>)
        ELSE <<<<off, t, n.is[1]>>>>
    ELSE IF n.k = "str" /\ t[1] = "arr" THEN <<<<off, t, -x>>>>
    ELSE <<<<off, t, x>>>>
InitList(pr, mm, t, is, i, off, acc) ==
    IF i > Len(is) THEN acc
    ELSE LET mt == IF t[1] = "arr" THEN t[2] ELSE mm.sd[t[2]].ms[i].t
             mo == IF t[1] = "arr" THEN (i - 1) * SizeOf(mm, t[2]) ELSE mm.sd[t[2]].ms[i].o
         IN InitList(pr, mm, t, is, i + 1, off, acc \o InitItems(pr, mm, mt, is[i], off + mo))

RECURSIVE RunInit(_, _, _, _, _)
RunInit(pr, mm, items, i, ref) ==
    IF i > Len(items) THEN Done(mm)
    ELSE LET it == items[i] IN
         IF it[3] < 0
         THEN LET b == pr.nodes[-it[3]].b
                  k == it[2][3]
                  b1 == [j \in 1 .. k |-> IF j <= Len(b) THEN b[j] ELSE 0]
              IN RunInit(pr, PutBytes(mm, [ref EXCEPT ![3] = it[1]], b1, <<>>), items, i + 1, ref)
         ELSE EvalThen(mm, it[3], <<"init", items, i, ref>>)

\* what an initialiser leaves in the bytes that it doesn't mention: zeros, except in a
\* union, where only the first member is initialised
RECURSIVE HasUnion(_, _)
HasUnion(mm, t) == \/ t[1] = "arr" /\ HasUnion(mm, t[2])
                   \/ t[1] = "st" /\ \/ mm.sd[t[2]].u
                                     \/ \E i \in 1 .. Len(mm.sd[t[2]].ms) : HasUnion(mm, mm.sd[t[2]].ms[i].t)
RECURSIVE InitBytes(_, _, _)
RECURSIVE InitBytesOf(_, _, _, _)
InitBytes(mm, t, size) ==
    IF ~HasUnion(mm, t) THEN ZeroB(size)
    ELSE IF t[1] = "arr" THEN InitBytesOf(mm, [i \in 1 .. t[3] |-> t[2]], 1, <<>>)
    ELSE LET d == mm.sd[t[2]]  first == d.ms[1].t IN
         IF d.u THEN InitBytes(mm, first, SizeOf(mm, first)) \o Undef(size - SizeOf(mm, first))
         ELSE InitBytesOf(mm, [i \in 1 .. Len(d.ms) |-> d.ms[i].t], 1, <<>>)
InitBytesOf(mm, ts, i, acc) ==
    IF i > Len(ts) THEN acc
    ELSE InitBytesOf(mm, ts, i + 1, acc \o InitBytes(mm, ts[i], SizeOf(mm, ts[i])))

\* struct, union and enumeration definitions
RECURSIVE Layout(_, _, _, _, _, _)
Layout(pr, mm, n, i, off, acc) ==
    IF i > Len(n.ms) THEN [u |-> n.u, ms |-> acc, size |-> off]
    ELSE LET t == Resolve(pr, mm, n.ms[i].t)
             s == SizeOf(mm, t)
             a == Append(acc, [n |-> n.ms[i].n, t |-> t, o |-> IF n.u THEN 0 ELSE off])
         IN Layout(pr, mm, n, i + 1,
                   IF n.u THEN (IF s > off THEN s ELSE off) ELSE off + s, a)
BindIn(mm, name, b) == IF mm.md = "top"
                       THEN [mm EXCEPT !.genv = Bind(@, name, b)]
                       ELSE [mm EXCEPT !.env = Bind(@, name, b)]
DefStruct(pr, mm, x) ==
    LET n == pr.nodes[x]
        m1 == BindIn(mm, "tag " \o n.tag, [k |-> "tag", t |-> <<"st", x>>])
        m2 == IF x \in DOMAIN m1.sd THEN m1
              ELSE [m1 EXCEPT !.sd = (x :> [u |-> n.u, ms |-> <<>>, size |-> 0]) @@ @]
    IN [m2 EXCEPT !.sd = (x :> Layout(pr, m2, n, 1, 0, <<>>)) @@ @]
RECURSIVE DefEnum(_, _, _, _, _)
DefEnum(pr, mm, n, i, z) ==
    IF i > Len(n.es)
    THEN BindIn(mm, "tag " \o n.tag, [k |-> "tag", t |-> I32])
    ELSE LET e == n.es[i]
             v == IF e.e = 0 THEN z ELSE ConstEval(pr, mm, e.e)
             w == IF IsUB(v) THEN v                 \* any use of it is undefined
                  ELSE IF ~IsInt(v.t) \/ ~InRange(v.z, I32) THEN UB("enumeration constant")
                  ELSE IV(I32, v.z)
         IN DefEnum(pr, BindIn(mm, e.n, [k |-> "ec", v |-> w]), n, i + 1,
                    IF IsUB(w) THEN w ELSE ArithOp("+", w, IntV(1)))
Define(pr, mm, x) ==             \* a definition that isn't of an object
    LET n == pr.nodes[x] IN
    CASE n.k = "sdef" -> DefStruct(pr, mm, x)
      [] n.k = "edef" -> DefEnum(pr, mm, n, 1, IntV(0))
      [] n.k = "tdef" -> BindIn(mm, n.n, [k |-> "td", t |-> Resolve(pr, mm, n.t)])
      [] n.k = "fproto" -> BindIn(mm, n.n, [k |-> "fun", t |-> Resolve(pr, mm, n.t), x |-> x])
      [] n.k = "fdef" -> BindIn(mm, n.n, [k |-> "fun", t |-> Resolve(pr, mm, n.t), x |-> x])
DefKinds == {"sdef", "edef", "tdef", "fproto", "fdef"}
IsDef(k) == k \in DefKinds

\* make the objects of the declarations before child j of a block, without initialising them
RECURSIVE PreDecls(_, _, _, _, _, _)
PreDecls(pr, mm, ss, i, j, slots) ==        \* << machine, slots >>
    IF i >= j THEN <<mm, slots>>
    ELSE LET n == pr.nodes[ss[i]] IN
         IF n.k = "decl" /\ n.st
         THEN IF ss[i] \in DOMAIN mm.stat
              THEN PreDecls(pr, BindIn(mm, n.n, [k |-> "var", t |-> DeclType(pr, mm, n), r |-> mm.stat[ss[i]]]),
                            ss, i + 1, j, slots)
              ELSE <<Halt(mm, "ub: bypassed static"), slots>>
         ELSE IF n.k = "decl"
         THEN LET t == DeclType(pr, mm, n)
                  m1 == IF ss[i] \in DOMAIN slots THEN mm ELSE AllocAuto(mm, Undef(SizeOf(mm, t)))
                  r == IF ss[i] \in DOMAIN slots THEN slots[ss[i]] ELSE LastAuto(m1)
              IN PreDecls(pr, BindIn(m1, n.n, [k |-> "var", t |-> t, r |-> r]),
                          ss, i + 1, j, (ss[i] :> r) @@ slots)
         ELSE IF IsDef(n.k) THEN PreDecls(pr, Define(pr, mm, ss[i]), ss, i + 1, j, slots)
         ELSE PreDecls(pr, mm, ss, i + 1, j, slots)

Declare(pr, m0) ==               \* execute declaration m0.x
    LET n == pr.nodes[m0.x]
        x == m0.x
        dims == VarDims(pr, m0, n.t)
        mm == [m0 EXCEPT !.vd = <<>>]
        t == DeclType(pr, m0, n)
        size == SizeOf(mm, t)
        global == mm.k # <<>> /\ mm.k[1][1] = "top"
        inblk == mm.k # <<>> /\ mm.k[1][1] = "blk"
        bindG(m1, r) == [m1 EXCEPT !.genv = Bind(@, n.n, [k |-> "var", t |-> t, r |-> r])]
        bindL(m1, r) == [m1 EXCEPT !.env = Bind(@, n.n, [k |-> "var", t |-> t, r |-> r])]
        init(m1, r) ==
            IF n.i = 0 THEN Done(m1)
            ELSE LET m2 == IF pr.nodes[n.i].k = "il" /\ ~IsScalar(t)
                           THEN PutBytes(m1, r, InitBytes(m1, t, size), <<>>) ELSE m1
                 IN RunInit(pr, m2, InitItems(pr, m2, t, n.i, 0), 1, r)
    IN IF dims # <<>> THEN EvalThen(m0, dims[1], <<"vla", x, dims[1]>>)
       ELSE IF t[1] = "arr" /\ size <= 0 THEN HaltR(mm, "array size")
       ELSE IF global \/ n.st
       THEN IF x \in DOMAIN mm.stat
            THEN Done(IF global THEN bindG(mm, mm.stat[x]) ELSE bindL(mm, mm.stat[x]))
            ELSE LET m1 == AllocStatic(mm, ZeroB(size), FALSE)
                     r == LastStatic(m1)
                     m2 == [m1 EXCEPT !.stat = (x :> r) @@ @]
                 IN init(IF global THEN bindG(m2, r) ELSE bindL(m2, r), r)
       ELSE LET old == inblk /\ x \in DOMAIN mm.k[1][4]
                m1 == IF old THEN PutBytes(mm, mm.k[1][4][x], Undef(size), <<>>)
                      ELSE AllocAuto(IF t[1] = "arr" /\ DOMAIN m0.vd # {} THEN LogArray(mm, size) ELSE mm, Undef(size))
                r == IF old THEN mm.k[1][4][x] ELSE LastAuto(m1)
                m2 == IF inblk THEN [m1 EXCEPT !.k[1][4] = (x :> r) @@ @] ELSE m1
            IN init(bindL(m2, r), r)

(* ------------------------------ statements ------------------------------ *)
Encloses(pr, x, y) == x <= y /\ y <= pr.nodes[x].z
ChildWith(pr, ss, y) == CHOOSE i \in 1 .. Len(ss) : Encloses(pr, ss[i], y)
BlkFrame(mm, x, i, slots) == <<"blk", x, i, slots, mm.env, Len(mm.mem)>>
PopBlk(mm, f) == [mm EXCEPT !.env = f[5], !.mem = SubSeq(@, 1, f[6])]

\* enter statement x so that execution continues at statement y inside it
RECURSIVE Enter(_, _, _, _)
Enter(pr, mm, x, y) ==
    LET n == pr.nodes[x] IN
    IF mm.md = "halt" THEN mm
    ELSE IF x = y THEN [mm EXCEPT !.md = "s", !.x = x]
    ELSE CASE n.k = "block" ->
                LET j == ChildWith(pr, n.ss, y)
                    q == PreDecls(pr, mm, n.ss, 1, j, <<>>)
                IN Enter(pr, Push(q[1], <<"blk", x, j, q[2], mm.env, Len(mm.mem)>>), n.ss[j], y)
           [] n.k = "if" -> Enter(pr, mm, IF Encloses(pr, n.a, y) THEN n.a ELSE n.b, y)
           [] n.k = "while" -> Enter(pr, Push(mm, <<"wh2", x>>), n.b, y)
           [] n.k = "do" -> Enter(pr, Push(mm, <<"do1", x>>), n.b, y)
           [] n.k = "for" ->
                LET q == PreDecls(pr, mm, n.i, 1, Len(n.i) + 1, <<>>)
                    m1 == Push(q[1], BlkFrame(mm, x, 0, <<>>))
                IN Enter(pr, Push(m1, <<"fb", x>>), n.b, y)
           [] n.k = "switch" -> Enter(pr, Push(mm, <<"swb", x>>), n.b, y)
           [] n.k \in {"label", "case", "default"} -> Enter(pr, mm, n.s, y)

\* leave statements until the innermost block that contains statement y, and continue at y
RECURSIVE Goto(_, _, _)
Goto(pr, mm, y) ==
    LET f == mm.k[1] IN
    IF f[1] = "blk" /\ pr.nodes[f[2]].k = "block" /\ Encloses(pr, f[2], y)
    THEN LET ss == pr.nodes[f[2]].ss
             j == ChildWith(pr, ss, y)
             q == PreDecls(pr, [mm EXCEPT !.env = f[5]], ss, 1, j, f[4])
         IN Enter(pr, [q[1] EXCEPT !.k = <<<<"blk", f[2], j, q[2], f[5], f[6]>>, mm.k[2]>>], ss[j], y)
    ELSE IF f[1] = "blk" THEN Goto(pr, [PopBlk(mm, f) EXCEPT !.k = @[2]], y)
    ELSE IF f[1] = "fret" THEN HaltR(mm, "goto")
    ELSE Goto(pr, [mm EXCEPT !.k = @[2]], y)

\* leave statements until the top frame is one of the given ones
RECURSIVE Unwind(_, _)
Unwind(mm, tags) ==
    LET f == mm.k[1] IN
    IF f[1] \in tags THEN mm
    ELSE IF f[1] = "blk" THEN Unwind([PopBlk(mm, f) EXCEPT !.k = @[2]], tags)
    ELSE Unwind([mm EXCEPT !.k = @[2]], tags)
Loops == {"wh2", "do1", "fb"}

NextInBlock(pr, mm, f) ==        \* after child f[3] of a block; f is the top frame
    LET n == pr.nodes[f[2]] IN
    IF n.k # "block" \/ f[3] >= Len(n.ss)
    THEN Done([PopBlk(mm, f) EXCEPT !.k = @[2]])
    ELSE [mm EXCEPT !.md = "s", !.x = n.ss[f[3] + 1], !.k[1][3] = f[3] + 1]

ForCond(mm, n, x) == IF n.c = 0 THEN ExecThen(mm, n.b, <<"fb", x>>)
                     ELSE EvalThen(mm, n.c, <<"fc", x>>)
ForInit(pr, mm, n, x, i) ==
    IF i > Len(n.i) THEN ForCond(mm, n, x)
    ELSE ExecThen(mm, n.i[i], <<"fi", x, i>>)

LabelKinds == {"label", "case", "default"}
Exec(pr, mm) ==
    LET x == mm.x
        n == pr.nodes[x]
    IN
    CASE n.k = "expr" -> EvalThen(mm, n.e, <<"xs">>)
      [] n.k = "empty" -> Done(mm)
      [] n.k = "decl" -> Declare(pr, mm)
      [] IsDef(n.k) -> Done(Define(pr, mm, x))
      [] n.k = "block" -> IF n.ss = <<>> THEN Done(mm)
                          ELSE NextInBlock(pr, Push(mm, BlkFrame(mm, x, 0, <<>>)),
                                           BlkFrame(mm, x, 0, <<>>))
      [] n.k = "if" -> EvalThen(mm, n.c, <<"if", x>>)
      [] n.k = "while" -> EvalThen(mm, n.c, <<"wh1", x>>)
      [] n.k = "do" -> ExecThen(mm, n.b, <<"do1", x>>)
      [] n.k = "for" -> ForInit(pr, Push(mm, BlkFrame(mm, x, 0, <<>>)), n, x, 1)
      [] n.k = "switch" -> EvalThen(mm, n.c, <<"sw", x>>)
      [] n.k \in LabelKinds -> [mm EXCEPT !.x = n.s]
      [] n.k = "break" -> LET m1 == Unwind(mm, Loops \cup {"swb"})
                          IN Done([m1 EXCEPT !.k = @[2]])
      [] n.k = "continue" -> Done(Unwind(mm, Loops))
      [] n.k = "goto" -> Goto(pr, mm, n.y)
      [] n.k = "return" -> IF n.e = 0
                           THEN Return(Unwind(mm, {"fret"}), VoidV)
                           ELSE EvalThen(mm, n.e, <<"rt">>)
      [] OTHER -> HaltR(mm, "statement " \o n.k)

StmtDone(pr, mm) ==
    LET f == mm.k[1]
        rest == [mm EXCEPT !.k = @[2]]
        n == pr.nodes[f[2]]
    IN
    CASE f[1] = "blk" -> NextInBlock(pr, mm, f)
      [] f[1] = "wh2" -> EvalThen(rest, n.c, <<"wh1", f[2]>>)
      [] f[1] = "do1" -> EvalThen(rest, n.c, <<"do2", f[2]>>)
      [] f[1] = "fi" -> ForInit(pr, rest, n, f[2], f[3] + 1)
      [] f[1] = "fb" -> IF n.s = 0 THEN ForCond(rest, n, f[2])
                        ELSE EvalThen(rest, n.s, <<"fs", f[2]>>)
      [] f[1] = "swb" -> Done(rest)
      [] f[1] = "top" -> [rest EXCEPT !.md = "top", !.x = f[3] + 1]
      \* the end of a function body; main returns 0
      [] f[1] = "fret" -> IF f[6] = "main" THEN Return(mm, IntV(0))
                          ELSE IF f[3] = VoidT THEN Return(mm, VoidV)
                          ELSE HaltR(mm, "no return value")

(* --------------------------------- calls -------------------------------- *)
RECURSIVE BindParams(_, _, _, _, _, _)
BindParams(pr, mm, ps, as, i, env) ==        \* make the parameters
    IF i > Len(ps) THEN [mm EXCEPT !.env = env]
    ELSE LET t == Decay(Resolve(pr, mm, ps[i].t))
             w == Convert(as[i], t)
         IN IF IsUB(w) THEN HaltUB(mm, w)
            ELSE LET m1 == AllocAuto(mm, Undef(SizeOf(mm, t)))
                     r == LastAuto(m1)
                 IN BindParams(pr, Store(m1, t, r, w), ps, as, i + 1,
                               Bind(env, ps[i].n, [k |-> "var", t |-> t, r |-> r]))

\* arguments without a parameter are promoted
DefaultPromote(v) == IF IsInt(v.t) THEN Convert(v, Promote(v.t))
                     ELSE IF v.t[1] = "f32" THEN Convert(v, F64) ELSE v

RECURSIVE StrAt(_, _, _, _)
StrAt(o, i, acc, d) ==           \* the string from byte i of an object
    IF i > Len(o.b) THEN <<-1>>
    ELSE IF o.b[i] = 0 THEN acc
    ELSE IF o.b[i] < 0 \/ o.b[i] > 255 THEN <<-1>>
    ELSE StrAt(o, i + 1, Append(acc, o.b[i]), d)
CStr(mm, p) == IF p[1] = 0 \/ ~Live(mm, p) \/ p[3] < 0 THEN <<-1>>
               ELSE StrAt(Obj(mm, p), p[3] + 1, <<>>, 0)
BadStr(s) == s # <<>> /\ s[1] = -1

\* ---- printf: the bytes that a format and arguments make: [ub |-> reason or "", out]
FmtBad(r) == [ub |-> r, out |-> <<>>]
RECURSIVE Fmt(_, _, _, _, _, _)
FmtArg(mm, fmt, i, as, j, acc, ok(_), text(_), len) ==
    IF j > Len(as) THEN FmtBad("printf arguments")
    ELSE IF ~ok(as[j]) THEN FmtBad("printf argument type")
    ELSE LET s == text(as[j]) IN
         IF BadStr(s) THEN FmtBad("printf string")
         ELSE Fmt(mm, fmt, i + len, as, j + 1, acc \o s)
Is(v, ts) == v.t[1] \in ts
Fmt(mm, fmt, i, as, j, acc) ==
    IF i > Len(fmt) THEN [ub |-> "", out |-> acc]
    ELSE IF fmt[i] # 37 THEN Fmt(mm, fmt, i + 1, as, j, Append(acc, fmt[i]))
    ELSE IF i = Len(fmt) THEN FmtBad("printf format")
    ELSE LET c == fmt[i + 1]
             d == IF i + 2 <= Len(fmt) THEN fmt[i + 2] ELSE 0
             isInt(v) == Is(v, {"i32", "u32"})
             isLong(v) == Is(v, {"i64", "u64"})
             dec(v) == ZDec(ZWrap(v.z, ISize[v.t[1]], TRUE))
             uns(v) == ZDec(ZWrap(v.z, ISize[v.t[1]], FALSE))
         IN CASE c = 37 -> Fmt(mm, fmt, i + 2, as, j, Append(acc, 37))                 \* %%
              [] c = 100 \/ c = 105 -> FmtArg(mm, fmt, i, as, j, acc, isInt, dec, 2)   \* d i
              [] c = 117 -> FmtArg(mm, fmt, i, as, j, acc, isInt, uns, 2)              \* u
              [] c = 104 /\ d \in {100, 105} ->                                       \* hd hi
                   FmtArg(mm, fmt, i, as, j, acc, isInt, LAMBDA v : ZDec(ZWrap(v.z, 2, TRUE)), 3)
              [] c = 104 /\ d = 117 ->                                                \* hu
                   FmtArg(mm, fmt, i, as, j, acc, isInt, LAMBDA v : ZDec(ZWrap(v.z, 2, FALSE)), 3)
              [] c = 108 /\ d \in {100, 105} -> FmtArg(mm, fmt, i, as, j, acc, isLong, dec, 3)
              [] c = 108 /\ d = 117 -> FmtArg(mm, fmt, i, as, j, acc, isLong, uns, 3)
              [] c = 99 -> FmtArg(mm, fmt, i, as, j, acc, isInt,                       \* c
                                  LAMBDA v : ZBytes(v.z, 1), 2)
              [] c = 102 -> FmtArg(mm, fmt, i, as, j, acc, LAMBDA v : Is(v, {"f64"}),  \* f
                                   LAMBDA v : FFormat(v.f), 2)
              [] c = 115 -> FmtArg(mm, fmt, i, as, j, acc,                             \* s
                                   LAMBDA v : IsPtr(v.t), LAMBDA v : CStr(mm, v.p), 2)
              [] OTHER -> FmtBad("printf format")

\* write bytes: they have to be the next ones of the recorded output
Write(mm, b) ==
    LET obs == Runs[run].out
        e == mm.oi + Len(b)
        ok == e <= Len(obs) /\ SubSeq(obs, mm.oi + 1, e) = b
    IN IF ok \/ mm.bad # "" THEN [mm EXCEPT !.oi = e]
       ELSE [mm EXCEPT !.oi = e, !.bad = "output"]

\* ---- strtol, strtoul
IsSpace(c) == c = 32 \/ (9 <= c /\ c <= 13)
RECURSIVE SkipSpace(_, _)
SkipSpace(s, i) == IF i <= Len(s) /\ IsSpace(s[i]) THEN SkipSpace(s, i + 1) ELSE i
DigitVal(c) == IF 48 <= c /\ c <= 57 THEN c - 48
               ELSE IF 97 <= c /\ c <= 122 THEN c - 87
               ELSE IF 65 <= c /\ c <= 90 THEN c - 55 ELSE 99
At(s, i) == IF i <= Len(s) THEN s[i] ELSE 0
RECURSIVE Digits(_, _, _, _)
Digits(s, i, base, z) ==         \* << end, value >>
    IF i <= Len(s) /\ DigitVal(s[i]) < base
    THEN Digits(s, i + 1, base, ZAdd(ZMul(z, ZOf(base)), ZOf(DigitVal(s[i]))))
    ELSE <<i, z>>
\* [neg, val, end]: end = 0 if there is no number
ParseInt(s, base0) ==
    LET i0 == SkipSpace(s, 1)
        neg == At(s, i0) = 45
        i1 == IF At(s, i0) \in {43, 45} THEN i0 + 1 ELSE i0
        hex == At(s, i1) = 48 /\ At(s, i1 + 1) \in {88, 120} /\ DigitVal(At(s, i1 + 2)) < 16
        base == IF base0 # 0 THEN base0
                ELSE IF hex THEN 16 ELSE IF At(s, i1) = 48 THEN 8 ELSE 10
        i2 == IF base = 16 /\ hex THEN i1 + 2 ELSE i1
        r == Digits(s, i2, base, Z0)
    IN [neg |-> neg, val |-> r[2], end |-> IF r[1] = i2 THEN 0 ELSE r[1] - 1]
StrToL(r) == LET z == IF r.neg THEN ZNeg(r.val) ELSE r.val IN
             IF ZLt(z, MinOf["i64"]) THEN MinOf["i64"]
             ELSE IF ZLt(MaxOf["i64"], z) THEN MaxOf["i64"] ELSE z
StrToUL(r) == IF ZLt(MaxOf["u64"], r.val) THEN MaxOf["u64"]
              ELSE ZWrap(IF r.neg THEN ZNeg(r.val) ELSE r.val, 8, FALSE)

\* ---- strstr: the offset of the first occurrence of t in s, or -1
RECURSIVE Find(_, _, _)
Find(s, t, i) == IF i + Len(t) > Len(s) THEN -1
                 ELSE IF SubSeq(s, i + 1, i + Len(t)) = t THEN i
                 ELSE Find(s, t, i + 1)

\* ---- ctype.h, in the "C" locale (a class test gives 0 or 1 here; C only says non-zero)
Upper == 65 .. 90
Lower == 97 .. 122
Digit == 48 .. 57
Printable == 32 .. 126
InClass(f, c) ==
    CASE f = "isupper" -> c \in Upper
      [] f = "islower" -> c \in Lower
      [] f = "isalpha" -> c \in Upper \cup Lower
      [] f = "isdigit" -> c \in Digit
      [] f = "isalnum" -> c \in Upper \cup Lower \cup Digit
      [] f = "isxdigit" -> c \in Digit \cup 65 .. 70 \cup 97 .. 102
      [] f = "iscntrl" -> c \in 0 .. 31 \cup {127}
      [] f = "isprint" -> c \in Printable
      [] f = "isgraph" -> c \in Printable \ {32}
      [] f = "ispunct" -> c \in (Printable \ {32}) \ (Upper \cup Lower \cup Digit)
      [] f = "isspace" -> c \in 9 .. 13 \cup {32}
ToLower(c) == IF c \in Upper THEN c + 32 ELSE c
ToUpper(c) == IF c \in Lower THEN c - 32 ELSE c
CTypeFns == {"isupper", "islower", "isalpha", "isdigit", "isalnum", "isxdigit", "iscntrl",
             "isprint", "isgraph", "ispunct", "isspace", "tolower", "toupper"}

Builtin(mm, f, as) ==
    CASE f = "printf" ->
           LET s == CStr(mm, as[1].p)
               r == Fmt(mm, s, 1, [i \in 1 .. Len(as) - 1 |-> DefaultPromote(as[i + 1])], 1, <<>>)
           IN IF BadStr(s) THEN HaltR(mm, "printf format")
              ELSE IF r.ub # "" THEN HaltR(mm, r.ub)
              ELSE Return(Write(mm, r.out), IntV(Len(r.out)))
      [] f = "strlen" -> LET s == CStr(mm, as[1].p) IN
                         IF BadStr(s) THEN HaltR(mm, "strlen") ELSE Return(mm, IV(U32, <<Len(s)>>))
      [] f = "strstr" ->
           LET s == CStr(mm, as[1].p)  t == CStr(mm, as[2].p) IN
           IF BadStr(s) \/ BadStr(t) THEN HaltR(mm, "strstr")
           ELSE LET o == Find(s, t, 0) IN
                Return(mm, PV(PtrTo(<<"i8">>), IF o < 0 THEN NullP
                                               ELSE [as[1].p EXCEPT ![3] = @ + o]))
      [] f \in {"strtol", "strtoul"} ->
           LET s == CStr(mm, as[1].p)
               b == Convert(as[3], I32).z[1]
               r == ParseInt(s, b)
               v == IF f = "strtol" THEN IV(I64, StrToL(r)) ELSE IV(U64, StrToUL(r))
               e == Convert(as[2], PtrTo(PtrTo(<<"i8">>)))
               C(m1, w) == Return(m1, v)
           IN IF BadStr(s) \/ b < 0 \/ b = 1 \/ b > 36 THEN HaltR(mm, f)
              ELSE IF e.p[1] = 0 THEN Return(mm, v)
              ELSE StoreConv(mm, PtrTo(<<"i8">>), e.p,
                             PV(PtrTo(<<"i8">>), [as[1].p EXCEPT ![3] = @ + r.end]), C)
      [] f \in CTypeFns ->
           LET c == Convert(as[1], I32).z IN
           IF Len(c) # 1 \/ c[1] < -1 \/ c[1] > 255 THEN HaltR(mm, f)
           ELSE Return(mm, IF f = "tolower" THEN IntV(ToLower(c[1]))
                           ELSE IF f = "toupper" THEN IntV(ToUpper(c[1]))
                           ELSE BoolV(InClass(f, c[1])))
      [] OTHER -> HaltR(mm, "unknown function " \o f)

Call(pr, mm) ==
    LET f == mm.v.f
        as == mm.v.as
        b == Lookup(mm, f)
    IN IF b.k # "fun" THEN HaltR(mm, "not a function " \o f)
       ELSE LET n0 == pr.nodes[b.x]
                def == IF n0.k = "fdef" THEN b.x ELSE IF f \in DOMAIN mm.genv THEN mm.genv[f].x ELSE b.x
                n == pr.nodes[def]
                rt == Resolve(pr, mm, n.t)
                \* the types the arguments are passed with
                ats == [i \in 1 .. Len(as) |-> IF i <= Len(n.ps) THEN Decay(Resolve(pr, mm, n.ps[i].t))
                                                ELSE DefaultPromote(as[i]).t]
                lm == IF f = "main" /\ mm.lp = 0 THEN LogMain(mm) ELSE LogCall(mm, rt, ats)
            IN IF n.k # "fdef" THEN Builtin(LogReturn(lm, mm.sp), f, as)
               ELSE IF Len(as) # Len(n.ps) THEN HaltR(mm, "number of arguments")
               ELSE LET top == Len(mm.mem)
                        m1 == Push(LogArrays(pr, LogLocals(lm, f), def, def + 1), <<"fret", 1, rt, mm.env, top, f, mm.sp>>)
                        m2 == BindParams(pr, [m1 EXCEPT !.md = "s", !.x = n.b], n.ps, as, 1, <<>>)
                    IN m2

(* ------------------------ resuming a frame with a value ----------------- *)
Resume(pr, mm) ==
    LET f == mm.k[1]
        v == mm.v
        rest == [mm EXCEPT !.k = @[2]]
        n == pr.nodes[f[2]]
        RL == Runs[run].ord = 1
    IN
    CASE f[1] = "xs" -> Done(rest)
      [] f[1] = "rv" -> Return(rest, RValue(rest, v))
      [] f[1] = "b1" -> EvalThen(rest, n.b, <<"b2", f[2], v>>)
      [] f[1] = "b2" -> Return(rest, BinOp(rest, n.op, f[3], v))
      [] f[1] = "bR" -> EvalThen(rest, n.a, <<"bS", f[2], v>>)
      [] f[1] = "bS" -> Return(rest, BinOp(rest, n.op, v, f[3]))
      [] f[1] = "un" -> Return(rest, UnOp(f[2], v))
      [] f[1] = "and" -> IF Truth(v) THEN EvalThen(rest, n.b, <<"bool">>) ELSE Return(rest, IntV(0))
      [] f[1] = "or" -> IF Truth(v) THEN Return(rest, IntV(1)) ELSE EvalThen(rest, n.b, <<"bool">>)
      [] f[1] = "bool" -> Return(rest, BoolV(Truth(v)))
      [] f[1] = "cond" ->
           EvalThen(rest, IF Truth(v) THEN n.b ELSE n.c, <<"cast", TypeOf(pr, rest, f[2])>>)
      [] f[1] = "comma" -> EvalThen(rest, n.b, <<"id">>)
      [] f[1] = "id" -> Return(rest, v)
      [] f[1] = "cast" -> Return(rest, Convert(v, f[2]))
      [] f[1] = "addr" -> Return(rest, PV(PtrTo(v.t), v.ref))
      [] f[1] = "inc" -> Inc(rest, n, v)
      [] f[1] = "as1" -> EvalThen(rest, n.b, <<"as2", f[2], v>>)
      [] f[1] = "as2" -> Assign(rest, n, f[3], v)
      [] f[1] = "asR" -> LvalThen(rest, n.a, <<"asS", f[2], v>>)
      [] f[1] = "asS" -> Assign(rest, n, v, f[3])
      [] f[1] = "drf" -> IF ~IsPtr(v.t) \/ v.p[1] = 0 THEN HaltR(rest, "null pointer")
                         ELSE Return(rest, LV(Complete(rest, v.t[2]), v.p))
      [] f[1] = "ix1" -> EvalThen(rest, n.b, <<"ix2", f[2], v>>)
      [] f[1] = "ix2" -> LET q == BinOp(rest, "+", f[3], v) IN
                         IF IsUB(q) THEN HaltUB(rest, q) ELSE Return(rest, LV(Complete(rest, q.t[2]), q.p))
      [] f[1] = "ixr" -> EvalThen(rest, n.a, <<"ix2", f[2], v>>)
      [] f[1] = "mem" -> LET q == Member(rest, v.t[2], n.f)
                         IN Return(rest, LV(q.t, [v.ref EXCEPT ![3] = @ + q.o]))
      [] f[1] = "arw" -> IF ~IsPtr(v.t) \/ v.p[1] = 0 THEN HaltR(rest, "null pointer")
                         ELSE LET q == Member(rest, Complete(rest, v.t[2])[2], n.f)
                              IN Return(rest, LV(q.t, [v.p EXCEPT ![3] = @ + q.o]))
      [] f[1] = "arg" ->
           LET as == IF RL THEN <<v>> \o f[4] ELSE Append(f[4], v)
               i == IF RL THEN f[3] - 1 ELSE f[3] + 1
           IN IF i < 1 \/ i > Len(n.as)
              THEN [rest EXCEPT !.md = "call", !.v = [f |-> n.f, as |-> as]]
              ELSE EvalThen(rest, n.as[i], <<"arg", f[2], i, as>>)
      [] f[1] = "init" ->
           LET it == f[2][f[3]]
               C(m1, w) == RunInit(pr, m1, f[2], f[3] + 1, f[4])
           IN StoreConv(rest, it[2], [f[4] EXCEPT ![3] = it[1]], v, C)
      [] f[1] = "vla" -> IF ~IsInt(v.t) THEN HaltR(rest, "array size")
                         ELSE [rest EXCEPT !.md = "s", !.x = f[2], !.vd = (f[3] :> v) @@ @]
      \* statements
      [] f[1] = "if" -> IF Truth(v) THEN [rest EXCEPT !.md = "s", !.x = n.a]
                        ELSE IF n.b = 0 THEN Done(rest) ELSE [rest EXCEPT !.md = "s", !.x = n.b]
      [] f[1] = "wh1" -> IF Truth(v) THEN ExecThen(rest, n.b, <<"wh2", f[2]>>) ELSE Done(rest)
      [] f[1] = "do2" -> IF Truth(v) THEN ExecThen(rest, n.b, <<"do1", f[2]>>) ELSE Done(rest)
      [] f[1] = "fc" -> IF Truth(v) THEN ExecThen(rest, n.b, <<"fb", f[2]>>) ELSE Done(rest)
      [] f[1] = "fs" -> ForCond(rest, n, f[2])
      [] f[1] = "sw" ->
           LET t == Promote(v.t)
               label(c) == ConstEval(pr, rest, pr.nodes[c].e)
               match(c) == Convert(label(c), t).z = Convert(v, t).z
               hits == {i \in 1 .. Len(n.cs) : match(n.cs[i])}
               y == IF hits # {} THEN n.cs[CHOOSE i \in hits : TRUE] ELSE n.df
           IN IF ~IsInt(v.t) THEN HaltR(rest, "switch on non-integer")
              ELSE IF \E i \in 1 .. Len(n.cs) : ~IsInt(label(n.cs[i]).t)
              THEN HaltR(rest, "case label")
              ELSE IF y = 0 THEN Done(rest)
              ELSE Enter(pr, Push(rest, <<"swb", f[2]>>), n.b, y)
      [] f[1] = "rt" -> Return(Unwind(rest, {"fret"}), v)
      [] f[1] = "fret" ->
           LET w == IF f[3] = VoidT THEN VoidV ELSE Convert(v, f[3])
               m0 == [rest EXCEPT !.env = f[4], !.mem = SubSeq(@, 1, f[5])]
               m1 == IF f[6] = "main" /\ rest.k[1][1] = "main" THEN m0 ELSE LogReturn(m0, f[7])
           IN IF IsUB(w) THEN HaltUB(rest, w) ELSE Return(m1, w)
      [] f[1] = "main" -> [LogEnd(rest) EXCEPT !.md = "halt", !.st = "done", !.v = v]
      [] OTHER -> HaltR(mm, "frame " \o f[1])

(* ---------------------------- program start ----------------------------- *)
RECURSIVE PutArgs(_, _, _, _)
PutArgs(mm, argv, i, arr) ==     \* store the program arguments
    IF i > Len(argv) THEN mm
    ELSE LET m1 == AllocStatic(mm, Append(argv[i], 0), FALSE)
             m2 == Store(m1, PtrTo(<<"i8">>), [arr EXCEPT ![3] = 4 * (i - 1)],
                         PV(PtrTo(<<"i8">>), LastStatic(m1)))
         IN PutArgs(m2, argv, i + 1, arr)
Start(pr, mm) ==
    IF mm.x <= Len(pr.top)
    THEN LET x == pr.top[mm.x] IN
         IF IsDef(pr.nodes[x].k) THEN
             \* a prototype after the definition doesn't hide it
             IF pr.nodes[x].k = "fproto" /\ pr.nodes[x].n \in DOMAIN mm.genv
             THEN [mm EXCEPT !.x = @ + 1]
             ELSE [Define(pr, mm, x) EXCEPT !.x = @ + 1]
         ELSE [mm EXCEPT !.md = "s", !.x = x, !.k = <<<<"top", 1, mm.x>>, @>>]
    ELSE LET argv == Runs[run].argv
             m0 == AllocStatic(mm, ZeroB(4 * (Len(argv) + 1)), FALSE)
             arr == LastStatic(m0)
             m1 == PutArgs(m0, argv, 1, arr)
             np == Len(pr.nodes[mm.genv["main"].x].ps)
             as == <<IntV(Len(argv)), PV(PtrTo(PtrTo(<<"i8">>)), arr)>>
         IN [m1 EXCEPT !.md = "call", !.k = <<<<"main", 1>>, <<>>>>,
                       !.v = [f |-> "main", as |-> SubSeq(as, 1, np)]]

Step(pr, mm) ==
    CASE mm.md = "e" -> EvalE(pr, mm)
      [] mm.md = "r" -> Resume(pr, mm)
      [] mm.md = "l" -> EvalL(pr, mm)
      [] mm.md = "s" -> Exec(pr, mm)
      [] mm.md = "d" -> StmtDone(pr, mm)
      [] mm.md = "call" -> Call(pr, mm)
      [] mm.md = "top" -> Start(pr, mm)

Ticks == [i \in 1 .. Batch |-> i]
Steps(pr, m0) == FoldLeft(LAMBDA mm, i : IF mm.md = "halt" THEN mm ELSE Step(pr, mm), m0, Ticks)

(* --------------------------- the specification -------------------------- *)
\* the recorded run agrees with the machine, which has stopped
Agrees == /\ Runs[run].kind = "exit"
          /\ m.bad = ""
          /\ m.oi = Len(Runs[run].out)
          /\ ZWrap(Convert(m.v, I32).z, 1, FALSE) = Runs[run].ret
Verdict == IF m.st # "done" THEN <<"DISCARD", run, m.st, m.n>>
           ELSE IF Agrees THEN <<"AGREE", run, "", m.n>>
           ELSE <<"MISMATCH", run,
                  IF Runs[run].kind # "exit" THEN Runs[run].kind
                  ELSE IF m.bad # "" THEN m.bad
                  ELSE IF m.oi # Len(Runs[run].out) THEN "output length"
                  ELSE "exit status", m.n>>

Init == run \in 1 .. Len(Runs) /\ m = InitMachine(run)
Advance == /\ m.md # "halt"
           /\ m' = LET m1 == Steps(Progs[Runs[run].p], m) IN
                   IF m1.n + Batch > Fuel /\ m1.md # "halt" THEN Halt(m1, "fuel")
                   ELSE [m1 EXCEPT !.n = @ + Batch]
           /\ UNCHANGED run
Report == /\ m.md = "halt" /\ m.st # "reported"
          /\ PrintT(Verdict)
          /\ m' = [m EXCEPT !.st = "reported", !.k = <<>>]
          /\ UNCHANGED run
Next == Advance \/ Report
Spec == Init /\ [][Next]_vars
=============================================================================
