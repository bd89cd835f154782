------------------------------- MODULE Static --------------------------------
(***************************************************************************)
(* Which programs are programs of the language: the declarations and       *)
(* constraints of C, as a machine that goes through the syntax nodes of a  *)
(* program in order, with a stack of scopes, and collects what is wrong.   *)
(*                                                                         *)
(* c.er is the set of reasons.  A reason that starts with "?" is something *)
(* that C does not allow, or that this compiler does not support, where    *)
(* the compiler is free to go either way (see Verdict).                    *)
(***************************************************************************)
EXTENDS CTypes, FiniteSets, Json, IOUtils

Progs == JsonDeserialize(IOEnv.STATIC_PROGS)      \* sequence of [nodes, top]

VARIABLES p, c
vars == <<p, c>>

(* --------------------------------- scopes ------------------------------- *)
EmptyF == [x \in {} |-> 0]
NewScope == [o |-> EmptyF, g |-> EmptyF]
NoBinding == [k |-> "none"]
RECURSIVE Find(_, _, _)
Find(sc, name, i) == IF i = 0 THEN NoBinding
                     ELSE IF name \in DOMAIN sc[i].o THEN sc[i].o[name] ELSE Find(sc, name, i - 1)
LookUp(cc, name) == Find(cc.sc, name, Len(cc.sc))
RECURSIVE FindTag(_, _, _)
FindTag(sc, name, i) == IF i = 0 THEN NoBinding
                        ELSE IF name \in DOMAIN sc[i].g THEN sc[i].g[name] ELSE FindTag(sc, name, i - 1)
Cur(cc) == cc.sc[Len(cc.sc)]
Err(cc, e) == [cc EXCEPT !.er = @ \cup {e}]
Errs(cc, es) == [cc EXCEPT !.er = @ \cup es]
IsGlobal(cc) == Len(cc.sc) = 1
Declare(cc, name, b) == [cc EXCEPT !.sc[Len(cc.sc)].o = (name :> b) @@ @]
DeclareTag(cc, name, b) == [cc EXCEPT !.sc[Len(cc.sc)].g = (name :> b) @@ @]

(* --------------------------------- types -------------------------------- *)
\* also <<"bad">>, a type that something is wrong with already
Bad == <<"bad">>
IsBad(t) == t[1] = "bad"
IsArr(t) == t[1] = "arr"          \* <<"arr", T, n>>: n = -1 unknown, -2 known at run time
IsSt(t) == t[1] = "st"
Ptr(t) == <<"ptr", t>>
Dec(t) == IF IsArr(t) THEN Ptr(t[2]) ELSE t
RECURSIVE IsComplete(_, _)
IsComplete(cc, t) == CASE t[1] = "void" -> FALSE
                       [] IsSt(t) -> cc.sd[t[2]].done
                       [] IsArr(t) -> t[3] # -1 /\ IsComplete(cc, t[2])
                       [] OTHER -> TRUE

(* the type and the errors of an expression: [t, lv, er, cst]               *)
Ex(t, lv, er) == [t |-> t, lv |-> lv, er |-> er]
Wrong(e, er) == Ex(Bad, FALSE, er \cup {e})

NumT(n) == IF ZLe(n.v, MaxOf["i32"]) THEN I32
           ELSE IF n.dec = 0 /\ ZLe(n.v, MaxOf["u32"]) THEN U32
           ELSE IF ZLe(n.v, MaxOf["i64"]) THEN I64 ELSE U64

RECURSIVE Ty(_, _, _)
RECURSIVE CE(_, _, _)
RECURSIVE TypeIn(_, _, _)         \* a type expression: [t, er]; tags have to be declared already

\* a declared array size: [n, er]
ArraySize(pr, cc, x) ==
    LET v == CE(pr, cc, x)
        e == Ty(pr, cc, x)
    IN IF e.er # {} THEN [n |-> 1, er |-> e.er]
       ELSE IF ~IsInt(e.t) THEN [n |-> 1, er |-> {IF IsBad(e.t) THEN "?" ELSE "array size type"}]
       ELSE IF IsUB(v) THEN IF v.t[2] = "not constant" THEN [n |-> -2, er |-> {}] ELSE [n |-> 1, er |-> {"?array size"}]
       ELSE IF ~ZSmall(v.z) THEN [n |-> 1, er |-> IF v.z[1] < 0 THEN {"array size"} ELSE {"?array size"}]
       ELSE IF v.z[1] <= 0 THEN [n |-> 1, er |-> {"array size"}]
       ELSE [n |-> v.z[1], er |-> {}]

TypeIn(pr, cc, t) ==
    CASE t[1] = "ptr" -> LET r == TypeIn(pr, cc, t[2]) IN [t |-> Ptr(r.t), er |-> r.er]
      [] t[1] \in {"arr", "arrx"} ->
           LET r == TypeIn(pr, cc, t[2])
               s == IF t[1] = "arrx" THEN ArraySize(pr, cc, t[3])
                    ELSE [n |-> t[3], er |-> IF t[3] = 0 THEN {"array size"} ELSE {}]
           IN [t |-> <<"arr", r.t, s.n>>,
               er |-> r.er \cup s.er \cup (IF IsBad(r.t) \/ IsComplete(cc, r.t) THEN {} ELSE {"incomplete element"})]
      [] t[1] = "td" -> LET b == LookUp(cc, t[2]) IN
                        IF b.k = "td" THEN [t |-> b.t, er |-> {}] ELSE [t |-> Bad, er |-> {"undeclared type"}]
      [] t[1] = "tag" ->
           LET b == FindTag(cc.sc, t[2], Len(cc.sc)) IN
           IF b.k = "none" THEN [t |-> Bad, er |-> {"undeclared tag"}]
           ELSE IF b.k # t[3] THEN [t |-> Bad, er |-> {"kind of tag"}]
           ELSE IF b.k = "enum" THEN [t |-> I32, er |-> {}] ELSE [t |-> <<"st", b.id>>, er |-> {}]
      [] OTHER -> [t |-> t, er |-> {}]

\* what assigning (initialising, passing, returning) a value of type s to an object of type t gives
Assign(t, e, isnull) ==
    LET s == Dec(e.t) IN
    IF IsBad(t) \/ IsBad(s) THEN {}
    ELSE IF s = VoidT THEN {"void value"}
    ELSE IF IsArr(t) THEN {"assignment to array"}
    ELSE IF IsSt(t) /\ t = s THEN {"?struct value"}
    ELSE IF IsSt(t) \/ IsSt(s) THEN {"struct conversion"}
    ELSE IF (IsPtr(t) /\ IsFlt(s)) \/ (IsFlt(t) /\ IsPtr(s)) THEN {"pointer and floating"}
    ELSE IF IsPtr(t) /\ IsInt(s) THEN IF isnull THEN {} ELSE {"?int to pointer"}
    ELSE IF IsInt(t) /\ IsPtr(s) THEN {"?pointer to int"}
    ELSE IF IsPtr(t) /\ IsPtr(s) /\ t # s /\ t[2] # VoidT /\ s[2] # VoidT THEN {"?pointer type"}
    ELSE {}

IsNull(pr, x) == \/ pr.nodes[x].k = "num" /\ pr.nodes[x].v = Z0
                 \/ pr.nodes[x].k = "cast" /\ pr.nodes[x].t = <<"ptr", <<"void">>>>

Scalar(e) == IF IsBad(e.t) \/ IsScalar(Dec(e.t)) THEN {}
             ELSE IF e.t = VoidT THEN {"void value"} ELSE {"scalar expected"}

\* pointer arithmetic needs a complete object type
Step(cc, t) == IF t[2] = VoidT THEN {"?void pointer arithmetic"}
               ELSE IF IsBad(t[2]) \/ IsComplete(cc, t[2]) THEN {} ELSE {"?incomplete pointer arithmetic"}

BinT(pr, cc, op, a, b, xa, xb) ==
    LET s == Dec(a.t)  t == Dec(b.t)  er == a.er \cup b.er IN
    IF IsBad(s) \/ IsBad(t) THEN Ex(Bad, FALSE, er)
    ELSE IF s = VoidT \/ t = VoidT THEN Wrong("void value", er)
    ELSE IF ~IsScalar(s) \/ ~IsScalar(t) THEN Wrong("operand", er)
    ELSE CASE op \in {"*", "/"} -> IF IsArith(s) /\ IsArith(t) THEN Ex(UAC(s, t), FALSE, er) ELSE Wrong("operand", er)
           [] op \in {"%", "&", "|", "^"} -> IF IsInt(s) /\ IsInt(t) THEN Ex(UAC(s, t), FALSE, er) ELSE Wrong("operand", er)
           [] op \in {"<<", ">>"} -> IF IsInt(s) /\ IsInt(t) THEN Ex(Promote(s), FALSE, er) ELSE Wrong("operand", er)
           [] op = "+" ->
                CASE IsArith(s) /\ IsArith(t) -> Ex(UAC(s, t), FALSE, er)
                  [] IsPtr(s) /\ IsInt(t) -> Ex(s, FALSE, er \cup Step(cc, s))
                  [] IsInt(s) /\ IsPtr(t) -> Ex(t, FALSE, er \cup Step(cc, t))
                  [] OTHER -> Wrong("operand", er)
           [] op = "-" ->
                CASE IsArith(s) /\ IsArith(t) -> Ex(UAC(s, t), FALSE, er)
                  [] IsPtr(s) /\ IsInt(t) -> Ex(s, FALSE, er \cup Step(cc, s))
                  [] IsPtr(s) /\ IsPtr(t) ->
                       IF s[2] = t[2] THEN Ex(I32, FALSE, er \cup Step(cc, s))
                       ELSE IF IsBad(s[2]) \/ IsBad(t[2]) \/ (IsArr(s[2]) /\ IsArr(t[2])) THEN Wrong("?difference", er)
                       ELSE Wrong("difference of pointers", er)
                  [] OTHER -> Wrong("operand", er)
           [] OTHER ->                       \* comparisons
                CASE IsArith(s) /\ IsArith(t) -> Ex(I32, FALSE, er)
                  [] IsPtr(s) /\ IsPtr(t) -> Ex(I32, FALSE, er \cup (IF s = t \/ s[2] = VoidT \/ t[2] = VoidT THEN {} ELSE {"?pointer comparison"}))
                  [] IsFlt(s) \/ IsFlt(t) -> Wrong("operand", er)
                  [] OTHER -> Ex(I32, FALSE, er \cup (IF op \in {"==", "!="} /\ (IF IsPtr(s) THEN IsNull(pr, xb) ELSE IsNull(pr, xa))
                                                      THEN {} ELSE {"?pointer and int"}))

\* member f of a struct or union
MemberT(cc, t, f, lv, er) ==
    IF IsBad(t) THEN Ex(Bad, lv, er)
    ELSE IF ~IsSt(t) THEN Wrong("member of no struct", er)
    ELSE IF ~cc.sd[t[2]].done THEN Wrong("member of incomplete", er)
    ELSE LET ms == cc.sd[t[2]].ms IN
         IF \E i \in DOMAIN ms : ms[i].n = f
         THEN Ex(ms[CHOOSE i \in DOMAIN ms : ms[i].n = f].t, lv, er)
         ELSE Wrong("no such member", er)

\* the operand of = and ++ has to be an object that can be changed
Modifiable(e) == IF IsBad(e.t) THEN {}
                 ELSE IF ~e.lv THEN {"not an lvalue"} ELSE IF IsArr(e.t) THEN {"assignment to array"}
                 ELSE IF e.t = VoidT THEN {"not an lvalue"} ELSE {}

Ty(pr, cc, x) ==
    LET n == pr.nodes[x]
        T(y) == Ty(pr, cc, y)
    IN CASE n.k = "num" -> Ex(NumT(n), FALSE, IF ZLe(n.v, MaxOf["u64"]) THEN {} ELSE {"?constant"})
         [] n.k = "chr" -> Ex(I32, FALSE, {})
         [] n.k = "flt" -> Ex(F64, FALSE, {})
         [] n.k = "str" -> Ex(<<"arr", <<"i8">>, Len(n.b) + 1>>, FALSE, {})
         [] n.k = "id" -> LET b == LookUp(cc, n.n) IN
                CASE b.k = "var" -> Ex(b.t, TRUE, {})
                  [] b.k = "ec" -> Ex(I32, FALSE, {})
                  [] b.k = "fn" -> Wrong("?function as value", {})
                  [] OTHER -> Wrong("undeclared", {})
         [] n.k = "bin" -> LET a == T(n.a)  b == T(n.b) IN BinT(pr, cc, n.op, a, b, n.a, n.b)
         [] n.k \in {"and", "or"} -> LET a == T(n.a)  b == T(n.b)
                                     IN Ex(I32, FALSE, a.er \cup b.er \cup Scalar(a) \cup Scalar(b))
         [] n.k = "un" ->
                LET a == T(n.a)  t == Dec(a.t) IN
                IF IsBad(t) THEN Ex(Bad, FALSE, a.er)
                ELSE IF n.op = "!" THEN Ex(I32, FALSE, a.er \cup Scalar(a))
                ELSE IF IsInt(t) \/ (n.op # "~" /\ IsFlt(t)) THEN Ex(Promote(t), FALSE, a.er)
                ELSE Wrong(IF t = VoidT THEN "void value" ELSE "operand", a.er)
         [] n.k = "inc" ->
                LET a == T(n.a) IN
                Ex(a.t, FALSE, a.er \cup Modifiable(a) \cup Scalar(a) \cup (IF IsPtr(a.t) THEN Step(cc, a.t) ELSE {}))
         [] n.k = "addr" ->
                LET a == T(n.a) IN
                IF pr.nodes[n.a].k = "str" THEN Wrong("?address of literal", a.er)
                ELSE IF IsBad(a.t) THEN Ex(Bad, FALSE, a.er)
                ELSE IF a.t = VoidT /\ pr.nodes[n.a].k \in {"deref", "idx"} THEN Wrong("?void object", a.er)
                ELSE IF ~a.lv THEN Wrong("address of no object", a.er) ELSE Ex(Ptr(a.t), FALSE, a.er)
         [] n.k = "deref" ->
                LET a == T(n.a)  t == Dec(a.t) IN
                IF IsBad(t) THEN Ex(Bad, FALSE, a.er)
                ELSE IF ~IsPtr(t) THEN Wrong("dereference", a.er)
                ELSE IF t[2] = VoidT THEN Ex(VoidT, FALSE, a.er \cup {"?void object"}) ELSE Ex(t[2], TRUE, a.er)
         [] n.k = "idx" ->
                LET a == T(n.a)  b == T(n.b)  er == a.er \cup b.er  s == Dec(a.t)  t == Dec(b.t)
                    El(q) == IF q[2] = VoidT THEN Ex(VoidT, FALSE, er \cup {"?void object"})
                             ELSE Ex(q[2], TRUE, er \cup Step(cc, q))
                IN IF IsBad(s) \/ IsBad(t) THEN Ex(Bad, FALSE, er)
                   ELSE IF IsPtr(s) /\ IsInt(t) THEN El(s)
                   ELSE IF IsInt(s) /\ IsPtr(t) THEN El(t) ELSE Wrong("subscript", er)
         [] n.k = "mem" -> LET a == T(n.a) IN MemberT(cc, a.t, n.f, a.lv, a.er)
         [] n.k = "arrow" ->
                LET a == T(n.a)  t == Dec(a.t) IN
                IF IsBad(t) THEN Ex(Bad, FALSE, a.er)
                ELSE IF ~IsPtr(t) THEN Wrong("member of no pointer", a.er) ELSE MemberT(cc, t[2], n.f, TRUE, a.er)
         [] n.k = "call" ->
                LET b == LookUp(cc, n.f)
                    as == [i \in 1 .. Len(n.as) |-> T(n.as[i])]
                    er == UNION {as[i].er : i \in DOMAIN as}
                IN IF b.k = "none" THEN Wrong("undeclared function", er)
                   ELSE IF b.k # "fn" THEN Wrong("call of no function", er)
                   ELSE IF Len(as) < Len(b.ps) \/ (Len(as) > Len(b.ps) /\ ~b.va)
                   THEN Wrong("number of arguments", er)
                   ELSE Ex(b.t, FALSE, er \cup UNION {
                            IF i <= Len(b.ps) THEN Assign(b.ps[i], as[i], IsNull(pr, n.as[i]))
                            ELSE IF IsSt(as[i].t) THEN {"?struct value"} ELSE Scalar(as[i]) : i \in DOMAIN as})
         [] n.k = "cond" ->
                LET a == T(n.a)  b == T(n.b)  d == T(n.c)
                    er == a.er \cup b.er \cup d.er \cup Scalar(a)
                    s == Dec(b.t)  t == Dec(d.t)
                IN IF IsBad(s) \/ IsBad(t) THEN Ex(Bad, FALSE, er)
                   ELSE IF IsArith(s) /\ IsArith(t) THEN Ex(UAC(s, t), FALSE, er)
                   ELSE IF s = VoidT /\ t = VoidT THEN Ex(VoidT, FALSE, er \cup {"?void conditional"})
                   ELSE IF s = VoidT \/ t = VoidT THEN Wrong("void value", er)
                   ELSE IF IsSt(s) \/ IsSt(t) THEN Wrong(IF s = t THEN "?struct value" ELSE "operand", er)
                   ELSE IF IsFlt(s) \/ IsFlt(t) THEN Wrong("operand", er)
                   ELSE IF IsPtr(s) /\ IsPtr(t) THEN IF s = t THEN Ex(s, FALSE, er) ELSE Ex(s, FALSE, er \cup {"?pointer type"})
                   ELSE IF IsPtr(s) THEN Ex(s, FALSE, er \cup (IF IsNull(pr, n.c) THEN {} ELSE {"?pointer and int"}))
                   ELSE Ex(t, FALSE, er \cup (IF IsNull(pr, n.b) THEN {} ELSE {"?pointer and int"}))
         [] n.k = "asg" ->
                LET a == T(n.a)  b == T(n.b) IN
                IF n.op = "="
                THEN Ex(a.t, FALSE, a.er \cup b.er \cup Modifiable(a) \cup Assign(a.t, b, IsNull(pr, n.b)))
                ELSE LET r == BinT(pr, cc, n.op, [a EXCEPT !.er = {}], [b EXCEPT !.er = {}], n.a, n.b) IN
                     Ex(a.t, FALSE, a.er \cup b.er \cup Modifiable(a) \cup r.er
                                   \cup (IF r.er = {} THEN Assign(a.t, r, FALSE) ELSE {}))
         [] n.k = "comma" -> LET a == T(n.a)  b == T(n.b) IN Ex(Dec(b.t), FALSE, a.er \cup b.er)
         [] n.k = "cast" ->
                LET a == T(n.a)  r == TypeIn(pr, cc, n.t)  er == a.er \cup r.er  s == Dec(a.t)  t == r.t IN
                IF IsBad(t) \/ IsBad(s) THEN Ex(t, FALSE, er)
                ELSE IF t = VoidT THEN Ex(t, FALSE, er)
                ELSE IF s = VoidT THEN Wrong("void value", er)
                ELSE IF ~IsScalar(t) \/ ~IsScalar(s) THEN Wrong("cast", er)
                ELSE IF (IsPtr(t) /\ IsFlt(s)) \/ (IsFlt(t) /\ IsPtr(s)) THEN Wrong("pointer and floating", er)
                ELSE Ex(t, FALSE, er)
         [] n.k = "szt" ->
                LET r == TypeIn(pr, cc, n.t) IN
                Ex(U32, FALSE, r.er \cup (IF IsBad(r.t) \/ IsComplete(cc, r.t) THEN {} ELSE {"size of incomplete"}))
         [] n.k = "sze" ->
                LET a == T(n.a) IN
                Ex(U32, FALSE, a.er \cup (IF IsBad(a.t) \/ IsComplete(cc, a.t) THEN {} ELSE {"size of incomplete"}))
         [] OTHER -> Wrong("?", {})

\* the value of a constant expression, for array sizes, enum constants and case labels
CE(pr, cc, x) ==
    LET n == pr.nodes[x]
        V(y) == CE(pr, cc, y)
    IN CASE n.k = "num" -> IV(NumT(n), n.v)
         [] n.k = "chr" -> IV(I32, n.v)
         [] n.k = "flt" -> FV(F64, FOfDec(8, n.v, n.d))
         [] n.k = "id" -> LET b == LookUp(cc, n.n) IN IF b.k = "ec" THEN b.v ELSE UB("not constant")
         [] n.k = "bin" -> LET a == V(n.a)  b == V(n.b) IN
                           IF IsUB(a) THEN a ELSE IF IsUB(b) THEN b ELSE ArithOp(n.op, a, b)
         [] n.k = "un" -> LET a == V(n.a) IN IF IsUB(a) THEN a ELSE UnOp(n.op, a)
         [] n.k \in {"and", "or"} -> LET a == V(n.a)  b == V(n.b) IN
                           IF IsUB(a) THEN a ELSE IF IsUB(b) THEN b
                           ELSE BoolV(IF n.k = "and" THEN Truth(a) /\ Truth(b) ELSE Truth(a) \/ Truth(b))
         [] n.k = "cond" -> LET a == V(n.a)  b == V(n.b)  d == V(n.c) IN
                           IF IsUB(a) THEN a ELSE IF IsUB(b) THEN b ELSE IF IsUB(d) THEN d
                           ELSE Convert(IF Truth(a) THEN b ELSE d, UAC(b.t, d.t))
         [] n.k \in {"cast", "szt", "sze"} -> UB("?constant")
         [] OTHER -> UB("not constant")

(* ------------------------------ declarations ---------------------------- *)
\* a struct or union tag that isn't declared yet is declared, as incomplete, where it is used
RECURSIVE DeclareTags(_, _)
DeclareTags(cc, t) ==
    CASE t[1] \in {"ptr", "arr", "arrx"} -> DeclareTags(cc, t[2])
      [] t[1] = "tag" /\ t[3] # "enum" /\ FindTag(cc.sc, t[2], Len(cc.sc)).k = "none" ->
           DeclareTag([cc EXCEPT !.sd = Append(@, [ms |-> <<>>, done |-> FALSE])],
                      t[2], [k |-> t[3], id |-> Len(cc.sd) + 1])
      [] OTHER -> cc

RECURSIVE HasRuntimeSize(_)
HasRuntimeSize(t) == CASE t[1] = "arr" -> t[3] = -2 \/ HasRuntimeSize(t[2])
                       [] t[1] = "ptr" -> HasRuntimeSize(t[2])
                       [] OTHER -> FALSE

\* the declaration of an object
DeclareObject(cc, name, t, st, init) ==
    LET glob == IsGlobal(cc)
        old == IF name \in DOMAIN Cur(cc).o THEN Cur(cc).o[name] ELSE NoBinding
        again == glob /\ old.k = "var" /\ old.t = t /\ ~(old.i /\ init)
        c1 == IF old.k # "none" /\ ~again THEN Err(cc, "declared twice") ELSE cc
        c2 == IF IsBad(t) \/ IsComplete(cc, t) THEN c1 ELSE Err(c1, "incomplete object")
        c3 == IF HasRuntimeSize(t) /\ (glob \/ init) THEN Err(c2, "array size at run time")
              ELSE IF HasRuntimeSize(t) /\ st THEN Err(c2, "?static array") ELSE c2
    IN Declare(c3, name, [k |-> "var", t |-> t, i |-> init \/ (again /\ old.i)])

IsCharT(t) == t[1] \in {"i8", "u8"}
RECURSIVE InitErr(_, _, _, _, _)
\* an initialiser for an object of type t; nested: inside braces
InitErr(pr, cc, t, x, nested) ==
    LET n == pr.nodes[x] IN
    IF n.k = "il"
    THEN IF IsBad(t) THEN {}
         ELSE IF IsArr(t) /\ IsCharT(t[2]) /\ Len(n.is) = 1 /\ pr.nodes[n.is[1]].k = "str"
         THEN InitErr(pr, cc, t, n.is[1], FALSE)
         ELSE IF IsArr(t) \/ (IsSt(t) /\ cc.sd[t[2]].done)
         THEN LET ms == IF IsSt(t) THEN cc.sd[t[2]].ms ELSE <<>>
                  cap == IF IsArr(t) THEN (IF t[3] < 0 THEN Len(n.is) ELSE t[3])
                         ELSE IF cc.sd[t[2]].u THEN 1 ELSE Len(ms)
                  elt(i) == IF IsArr(t) THEN t[2] ELSE ms[i].t
                  es == UNION {InitErr(pr, cc, elt(i), n.is[i], TRUE) : i \in 1 .. (IF Len(n.is) < cap THEN Len(n.is) ELSE cap)}
                  rest == UNION {IF pr.nodes[n.is[i]].k = "il" THEN {} ELSE Ty(pr, cc, n.is[i]).er : i \in cap + 1 .. Len(n.is)}
              IN es \cup rest
                    \cup (IF Len(n.is) <= cap THEN {}
                          ELSE IF "?brace elision" \in es THEN {} ELSE {"too many initialisers"})
         ELSE IF IsSt(t) THEN {} ELSE {"?braces"}
    ELSE LET e == Ty(pr, cc, x) IN
         IF e.er # {} THEN e.er
         ELSE IF IsArr(t) /\ n.k = "str" /\ IsCharT(t[2])
         THEN IF t[3] >= 0 /\ Len(n.b) > t[3] THEN {"too many initialisers"} ELSE {}
         ELSE IF nested /\ (IsArr(t) \/ IsSt(t)) THEN {"?brace elision"}
         ELSE IF IsArr(t) THEN {"initialiser of array"}
         ELSE Assign(t, e, IsNull(pr, x))

\* the type of an array whose size is given by its initialiser
Sized(pr, t, x) ==
    IF IsArr(t) /\ t[3] = -1 /\ x # 0
    THEN LET n == pr.nodes[x] IN
         CASE n.k = "str" -> <<"arr", t[2], Len(n.b) + 1>>
           [] n.k = "il" /\ IsCharT(t[2]) /\ Len(n.is) = 1 /\ pr.nodes[n.is[1]].k = "str" ->
                <<"arr", t[2], Len(pr.nodes[n.is[1]].b) + 1>>
           [] n.k = "il" -> <<"arr", t[2], Len(n.is)>>
           [] OTHER -> t
    ELSE t

\* a static object is initialised before the program starts
RECURSIVE AllCE(_, _, _)
AllCE(pr, cc, x) == IF pr.nodes[x].k = "il" THEN \A i \in DOMAIN pr.nodes[x].is : AllCE(pr, cc, pr.nodes[x].is[i])
                    ELSE pr.nodes[x].k \in {"str", "addr"} \/ ~IsUB(CE(pr, cc, x))

DeclNode(pr, cc, n) ==
    LET c1 == DeclareTags(cc, n.t)
        r == TypeIn(pr, c1, n.t)
        t == Sized(pr, r.t, n.i)
        c2 == DeclareObject(Errs(c1, r.er), n.n, t, n.st, n.i # 0)
    IN IF n.i = 0 THEN c2
       ELSE Errs(c2, InitErr(pr, c2, t, n.i, FALSE)
                     \cup (IF (n.st \/ IsGlobal(cc)) /\ ~AllCE(pr, c2, n.i) THEN {"?static initialiser"} ELSE {}))

StructNode(pr, cc, n) ==
    LET kind == IF n.u THEN "union" ELSE "struct"
        old == IF n.tag \in DOMAIN Cur(cc).g THEN Cur(cc).g[n.tag] ELSE NoBinding
        dup == old.k # "none" /\ (old.k # kind \/ cc.sd[old.id].done)
        fresh == old.k # kind \/ cc.sd[old.id].done
        id == IF fresh THEN Len(cc.sd) + 1 ELSE old.id
        c1 == IF fresh THEN DeclareTag([cc EXCEPT !.sd = Append(@, [ms |-> <<>>, done |-> FALSE])],
                                       n.tag, [k |-> kind, id |-> id])
              ELSE cc
        c2 == IF dup THEN Err(c1, "tag defined twice") ELSE c1
        RECURSIVE Mem(_, _)
        Mem(d, i) == IF i > Len(n.ms) THEN [d EXCEPT !.sd[id].done = TRUE, !.sd[id] = [u |-> n.u] @@ @]
                     ELSE LET d1 == DeclareTags(d, n.ms[i].t)
                              r == TypeIn(pr, d1, n.ms[i].t)
                              d2 == Errs(d1, r.er)
                              d3 == IF IsBad(r.t) \/ IsComplete(d2, r.t) THEN d2
                                    ELSE Err(d2, IF IsArr(r.t) /\ IsComplete(d2, r.t[2]) THEN "?flexible array" ELSE "incomplete member")
                              d4 == IF \E j \in 1 .. i - 1 : n.ms[j].n = n.ms[i].n THEN Err(d3, "member declared twice") ELSE d3
                              d5 == IF HasRuntimeSize(r.t) THEN Err(d4, "array size at run time") ELSE d4
                          IN Mem([d5 EXCEPT !.sd[id].ms = Append(@, [n |-> n.ms[i].n, t |-> r.t])], i + 1)
    IN Mem(c2, 1)

EnumNode(pr, cc, n) ==
    LET dup == n.tag \in DOMAIN Cur(cc).g
        c1 == DeclareTag(IF dup THEN Err(cc, "tag defined twice") ELSE cc, n.tag, [k |-> "enum", id |-> 0])
        RECURSIVE Con(_, _, _)
        Con(d, i, next) ==
            IF i > Len(n.es) THEN d
            ELSE LET x == n.es[i].e
                     v == IF x = 0 THEN IV(I32, next) ELSE CE(pr, d, x)
                     er == IF x = 0 THEN {} ELSE Ty(pr, d, x).er
                     e2 == CASE er # {} -> er
                             [] IsUB(v) -> {IF v.t[2] = "not constant" THEN "enum value" ELSE "?enum value"}
                             [] ~IsInt(v.t) -> {"enum value"}
                             [] ~InRange(v.z, I32) -> {"enum value"}
                             [] OTHER -> {}
                     z == IF e2 = {} THEN v.z ELSE Z0
                     d1 == Errs(d, e2)
                     d2 == IF n.es[i].n \in DOMAIN Cur(d1).o THEN Err(d1, "declared twice") ELSE d1
                 IN Con(Declare(d2, n.es[i].n, [k |-> "ec", v |-> IV(I32, z)]), i + 1, ZAdd(z, Z1))
    IN Con(c1, 1, Z0)

\* the type of a function: what it returns, and its parameters
FunT(pr, cc, n) ==
    LET c1 == DeclareTags(cc, n.t)
        r == TypeIn(pr, c1, n.t)
        RECURSIVE Par(_, _, _)
        Par(d, i, ts) ==
            IF i > Len(n.ps) THEN [c |-> d, ps |-> ts, t |-> r.t]
            ELSE LET d1 == DeclareTags(d, n.ps[i].t)
                     q == TypeIn(pr, d1, n.ps[i].t)
                     d2 == Errs(d1, q.er)
                     d3 == IF q.t = VoidT THEN Err(d2, "void parameter") ELSE d2
                     d4 == IF n.ps[i].n # "" /\ \E j \in 1 .. i - 1 : n.ps[j].n = n.ps[i].n THEN Err(d3, "declared twice") ELSE d3
                     d5 == IF IsSt(q.t) THEN Err(d4, "?struct parameter") ELSE d4
                 IN Par(d5, i + 1, Append(ts, Dec(q.t)))
        e == Errs(c1, r.er \cup (IF IsSt(r.t) THEN {"?struct result"} ELSE IF IsArr(r.t) THEN {"function returns array"} ELSE {}))
    IN Par(e, 1, <<>>)

DeclareFun(cc, n, f, def) ==
    LET old == IF n.n \in DOMAIN cc.sc[1].o THEN cc.sc[1].o[n.n] ELSE NoBinding
        b == [k |-> "fn", t |-> f.t, ps |-> f.ps, va |-> n.va, def |-> def]
        c1 == IF ~IsGlobal(cc) THEN Err(f.c, "?local function declaration") ELSE f.c
        c2 == CASE old.k = "none" -> c1
                [] old.k # "fn" -> Err(c1, "declared twice")
                [] old.def /\ def -> Err(c1, "defined twice")
                [] old.t # f.t \/ old.ps # f.ps \/ old.va # n.va -> Err(c1, "declared differently")
                [] OTHER -> c1
    IN Declare(c2, n.n, [b EXCEPT !.def = def \/ (old.k = "fn" /\ old.def)])

(* -------------------------------- statements ---------------------------- *)
\* items to do: node numbers, or <<"pop">> (end of a scope), <<"unl">> (end of a loop or switch),
\* <<"fend">> (end of a function)
Todo(cc, xs) == [cc EXCEPT !.todo = xs \o @]
Node(x) == <<"n", x>>
Nodes(xs) == [i \in 1 .. Len(xs) |-> Node(xs[i])]
Opt(x) == IF x = 0 THEN <<>> ELSE <<Node(x)>>
Cond(pr, cc, x) == IF x = 0 THEN cc ELSE LET e == Ty(pr, cc, x) IN Errs(cc, e.er \cup Scalar(e))
PushScope(cc) == [cc EXCEPT !.sc = Append(@, NewScope)]
PushLoop(cc, l) == [cc EXCEPT !.lp = Append(@, l)]
LoopL == [k |-> "loop"]
\* the innermost switch
RECURSIVE SwAt(_, _)
SwAt(lp, i) == IF i = 0 THEN 0 ELSE IF lp[i].k = "switch" THEN i ELSE SwAt(lp, i - 1)

CaseNode(pr, cc, n) ==
    LET w == SwAt(cc.lp, Len(cc.lp))
        e == Ty(pr, cc, n.e)
        v == CE(pr, cc, n.e)
        c1 == Todo(Errs(cc, e.er), <<Node(n.s)>>)
    IN IF w = 0 THEN Err(c1, "case outside switch")
       ELSE IF e.er # {} \/ IsBad(e.t) THEN c1
       ELSE IF IsUB(v) THEN Err(c1, IF v.t[2] = "not constant" THEN "case not constant" ELSE "?case value")
       ELSE IF ~IsInt(v.t) THEN Err(c1, "case not integer")
       ELSE IF ~IsInt(cc.lp[w].t) THEN c1
       ELSE LET u == Convert(v, cc.lp[w].t).z IN
            IF u \in cc.lp[w].vs THEN Err(c1, "case twice") ELSE [c1 EXCEPT !.lp[w].vs = @ \cup {u}]

FunctionNode(pr, cc, n) ==
    LET f == FunT(pr, cc, n)
        c1 == DeclareFun(cc, n, f, TRUE)
        RECURSIVE Par(_, _)
        Par(d, i) == IF i > Len(n.ps) THEN d
                     ELSE Par(IF n.ps[i].n = "" THEN Err(d, "?unnamed parameter")
                              ELSE Declare(IF IsBad(f.ps[i]) \/ IsComplete(d, f.ps[i]) THEN d ELSE Err(d, "incomplete object"),
                                           n.ps[i].n, [k |-> "var", t |-> f.ps[i], i |-> FALSE]), i + 1)
        c2 == Par(PushScope(c1), 1)
    IN \* the parameters and the body are one scope
       Todo([c2 EXCEPT !.ret = f.t, !.lb = <<>>, !.gt = {}],
            Nodes(pr.nodes[n.b].ss) \o <<<<"fend">>>>)

DoNode(pr, cc, x) ==
    LET n == pr.nodes[x] IN
    CASE n.k = "block" -> Todo(PushScope(cc), Nodes(n.ss) \o <<<<"pop">>>>)
      [] n.k = "if" -> Todo(Cond(pr, cc, n.c), <<Node(n.a)>> \o Opt(n.b))
      [] n.k = "while" -> Todo(PushLoop(Cond(pr, cc, n.c), LoopL), <<Node(n.b), <<"unl">>>>)
      [] n.k = "do" -> Todo(PushLoop(Cond(pr, cc, n.c), LoopL), <<Node(n.b), <<"unl">>>>)
      [] n.k = "for" -> Todo(PushScope(cc), Nodes(n.i) \o <<<<"for", x>>, <<"pop">>>>)
      [] n.k = "switch" ->
           LET e == Ty(pr, cc, n.c)
               c1 == Errs(cc, e.er \cup (IF IsBad(e.t) \/ IsInt(e.t) THEN {} ELSE {"switch expression"}))
           IN Todo(PushLoop(c1, [k |-> "switch", t |-> Promote(e.t), vs |-> {}, df |-> FALSE]), <<Node(n.b), <<"unl">>>>)
      [] n.k = "case" -> CaseNode(pr, cc, n)
      [] n.k = "default" ->
           LET w == SwAt(cc.lp, Len(cc.lp))
               c1 == Todo(cc, <<Node(n.s)>>)
           IN IF w = 0 THEN Err(c1, "default outside switch")
              ELSE IF cc.lp[w].df THEN Err(c1, "default twice") ELSE [c1 EXCEPT !.lp[w].df = TRUE]
      [] n.k = "break" -> IF cc.lp = <<>> THEN Err(cc, "break") ELSE cc
      [] n.k = "continue" -> IF \E i \in DOMAIN cc.lp : cc.lp[i].k = "loop" THEN cc ELSE Err(cc, "continue")
      [] n.k = "return" ->
           IF n.e = 0 THEN IF cc.ret = VoidT THEN cc ELSE Err(cc, "return without value")
           ELSE LET e == Ty(pr, cc, n.e) IN
                Errs(cc, e.er \cup (IF cc.ret = VoidT THEN {"return of value"} ELSE Assign(cc.ret, e, IsNull(pr, n.e))))
      [] n.k = "goto" -> [cc EXCEPT !.gt = @ \cup {n.l}]
      [] n.k = "label" ->
           LET c1 == IF \E i \in DOMAIN cc.lb : cc.lb[i] = n.l THEN Err(cc, "label twice") ELSE cc
           IN Todo([c1 EXCEPT !.lb = Append(@, n.l)], <<Node(n.s)>>)
      [] n.k = "expr" -> Errs(cc, Ty(pr, cc, n.e).er)
      [] n.k = "decl" -> DeclNode(pr, cc, n)
      [] n.k = "sdef" -> StructNode(pr, cc, n)
      [] n.k = "edef" -> EnumNode(pr, cc, n)
      [] n.k = "tdef" ->
           LET c1 == DeclareTags(cc, n.t)
               r == TypeIn(pr, c1, n.t)
               old == IF n.n \in DOMAIN Cur(cc).o THEN Cur(cc).o[n.n] ELSE NoBinding
               c2 == IF old.k = "none" \/ (old.k = "td" /\ old.t = r.t) THEN c1 ELSE Err(c1, "declared twice")
           IN Declare(Errs(c2, r.er), n.n, [k |-> "td", t |-> r.t])
      [] n.k = "fproto" -> DeclareFun(cc, n, FunT(pr, cc, n), FALSE)
      [] n.k = "fdef" -> FunctionNode(pr, cc, n)
      [] n.k = "tagdecl" -> \* struct S;
           LET c1 == DeclareTags(cc, n.t) IN Errs(c1, TypeIn(pr, c1, n.t).er)
      [] OTHER -> cc

Pop(cc) == [cc EXCEPT !.sc = SubSeq(@, 1, Len(@) - 1)]
DoItem(pr, cc0) ==
    LET it == Head(cc0.todo)
        cc == [cc0 EXCEPT !.todo = Tail(@)]
    IN CASE it[1] = "n" -> DoNode(pr, cc, it[2])
         [] it[1] = "pop" -> Pop(cc)
         [] it[1] = "unl" -> [cc EXCEPT !.lp = SubSeq(@, 1, Len(@) - 1)]
         [] it[1] = "for" ->
              LET n == pr.nodes[it[2]]
                  c1 == Cond(pr, cc, n.c)
                  c2 == IF n.s = 0 THEN c1 ELSE Errs(c1, Ty(pr, c1, n.s).er)
              IN Todo(PushLoop(c2, LoopL), <<Node(n.b), <<"unl">>>>)
         [] it[1] = "fend" ->
              LET c1 == Pop(cc) IN
              IF cc.gt \subseteq {cc.lb[i] : i \in DOMAIN cc.lb} THEN c1 ELSE Err(c1, "goto nowhere")

(* --------------------------------- machine ------------------------------ *)
Start(i) == [todo |-> Nodes(Progs[i].top), sc |-> <<NewScope>>, sd |-> <<>>, lp |-> <<>>,
             ret |-> VoidT, lb |-> <<>>, gt |-> {}, er |-> {}, end |-> FALSE]
Lenient == {"?", "?address of literal", "?array size", "?brace elision", "?braces", "?case value", 
            "?constant", "?difference", "?enum value", "?flexible array", "?function as value", 
            "?incomplete pointer arithmetic", "?int to pointer", "?local function declaration", 
            "?pointer and int", "?pointer comparison", "?pointer to int", "?pointer type", 
            "?static array", "?static initialiser", "?struct parameter", "?struct result", 
            "?struct value", "?unnamed parameter", "?void conditional", "?void object", 
            "?void pointer arithmetic"}
NoMain(cc) == LET b == LookUp(cc, "main") IN b.k # "fn" \/ ~b.def
Verdict(cc) ==
    LET er == cc.er \cup (IF NoMain(cc) THEN {"no main"} ELSE {})
        sure == er \ Lenient
    IN IF sure # {} THEN <<"invalid", CHOOSE e \in sure : TRUE>>
       ELSE IF er # {} THEN <<"either", CHOOSE e \in er : TRUE>> ELSE <<"valid", "">>

Init == p \in 1 .. Len(Progs) /\ c = Start(p)
Step_ == /\ c.todo # <<>>
         /\ c' = DoItem(Progs[p], c)
         /\ p' = p
Finish == /\ c.todo = <<>> /\ ~c.end
          /\ PrintT(<<"STATIC", p, Verdict(c)[1], Verdict(c)[2]>>)
          /\ c' = [c EXCEPT !.end = TRUE] /\ p' = p
Next == Step_ \/ Finish

(* ------------------------------- invariants ----------------------------- *)
\* the scopes are properly nested: the global one is never left, and only it is left at the end
ScopesNested == /\ Len(c.sc) >= 1
                /\ c.todo = <<>> => Len(c.sc) = 1 /\ c.lp = <<>>
\* every struct type that is bound to a tag exists
TagsExist == \A i \in DOMAIN c.sc : \A g \in DOMAIN c.sc[i].g :
                 c.sc[i].g[g].k # "enum" => c.sc[i].g[g].id \in DOMAIN c.sd
=============================================================================
